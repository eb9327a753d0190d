//! Value types and bookkeeping shared by the checks.
use std::cell::{Cell, RefCell};
use std::collections::HashSet;

use pbt::track::untracked;
use pbt::R;

/// Plain data without padding, made from and compared by its bytes.
pub trait Plain: Copy + 'static {
    const NAME: &'static str;
}
macro_rules! plain { ($($t:ty = $n:literal),* $(,)?) => { $(impl Plain for $t { const NAME: &'static str = $n; })* } }

#[derive(Clone, Copy)] #[repr(C, align(16))] pub struct A16(pub [u8; 16]);
#[derive(Clone, Copy)] #[repr(C, align(32))] pub struct A32(pub [u8; 64]);
#[derive(Clone, Copy)] #[repr(C, align(64))] pub struct A64(pub [u8; 256]);
#[derive(Clone, Copy)] #[repr(C, align(4096))] pub struct A4096(pub [u8; 8192]);
#[derive(Clone, Copy, PartialEq, Eq, Debug)] #[repr(C, align(64))] pub struct Z64;
#[derive(Clone, Copy)] #[repr(C)] pub struct Mixed { a: u32, b: u16, c: u16 }

plain! { u8 = "u8", u16 = "u16", u32 = "u32", u64 = "u64", u128 = "u128", [u32; 3] = "[u32;3]", [u64; 3] = "[u64;3]", [u8; 3] = "[u8;3]", [u16; 5] = "[u16;5]",
    [u8; 17] = "[u8;17]", [u8; 61] = "[u8;61]", [u8; 5000] = "[u8;5000]", [u8; 70_000] = "[u8;70000]", A16 = "A16", A32 = "A32", A64 = "A64(256)", A4096 = "A4096(8192)", () = "()", Z64 = "Z64", [u64; 0] = "[u64;0]", Mixed = "Mixed" }

pub fn pattern(seed: u64, i: usize) -> u8 {
    let x = (seed ^ (i as u64).wrapping_mul(0x9E37_79B9)).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    (x >> 56) as u8
}
pub fn plain<V: Plain>(seed: u64) -> V {
    let mut v = std::mem::MaybeUninit::<V>::uninit();
    let p = v.as_mut_ptr() as *mut u8;
    for i in 0..std::mem::size_of::<V>() { unsafe { *p.add(i) = pattern(seed, i) } }
    unsafe { v.assume_init() }
}
pub unsafe fn fill(addr: usize, size: usize, seed: u64) {
    for i in 0..size { *(addr as *mut u8).add(i) = pattern(seed, i); }
}
pub unsafe fn filled(addr: usize, size: usize, seed: u64) -> bool {
    (0..size).all(|i| std::ptr::read_volatile((addr as *const u8).add(i)) == pattern(seed, i))
}

/// As `fill` and `filled`, but of very large blocks only the beginning, the end and what lies around
/// the offsets at which a narrower integer wraps.
pub const WHOLE: usize = 1 << 16;
fn parts(size: usize) -> impl Iterator<Item = std::ops::Range<usize>> {
    let at = if size <= WHOLE { vec![(0, size)] } else {
        let mut v = vec![(0, 64), (size / 2, size / 2 + 64), (size - 64, size)];
        for k in [16, 31, 32] { if p2(k) + 64 < size { v.push((p2(k) - 32, p2(k) + 32)); } }
        v
    };
    at.into_iter().map(|(a, b)| a..b)
}
pub unsafe fn mark(addr: usize, size: usize, seed: u64) {
    if size <= WHOLE { return fill(addr, size, seed); }
    untracked(|| for r in parts(size) { for i in r { *(addr as *mut u8).add(i) = pattern(seed, i); } })
}
pub unsafe fn marked(addr: usize, size: usize, seed: u64) -> bool {
    if size <= WHOLE { return filled(addr, size, seed); }
    untracked(|| parts(size).all(|mut r| r.all(|i| std::ptr::read_volatile((addr as *const u8).add(i)) == pattern(seed, i))))
}
/// The first `keep` bytes of what was marked with this size.
pub unsafe fn kept(addr: usize, keep: usize, size: usize, seed: u64) -> bool {
    untracked(|| parts(size).all(|r| (r.start..r.end.min(keep)).all(|i| std::ptr::read_volatile((addr as *const u8).add(i)) == pattern(seed, i))))
}
/// Near a power of two at which a narrower integer wraps around, slightly above as a rule.
/// 2^k; less than that on a target that has no such number.
pub const fn p2(k: u32) -> usize { 1 << if k < usize::BITS - 2 || usize::BITS > 32 { k } else { 20 } }
/// An exponent that fits in `usize`.
pub fn exp(k: usize) -> usize { k.min(usize::BITS as usize - 2) }
pub fn near_pow2(g: &mut pbt::Src, above: usize) -> usize {
    let k = g.pick(&[8usize, 16, 32, 31, 15, 48, 47, 62]);
    (1usize << exp(k)) + g.skewed(above) - g.skewed(2)
}

/// Zero pages that take no memory until they are written.
pub struct Pages(pub usize, pub usize);
impl Pages {
    pub fn new(len: usize) -> Pages {
        extern "C" { fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8; }
        // Read and write; private, anonymous, not reserved.
        let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 0x2 | 0x20 | 0x4000, -1, 0) } as usize;
        if p == usize::MAX { pbt::undecided("no address space"); }
        Pages(p, len)
    }
}
impl Drop for Pages {
    fn drop(&mut self) {
        extern "C" { fn munmap(a: *mut u8, n: usize) -> i32; }
        unsafe { munmap(self.0 as *mut u8, self.1); }
    }
}

/// Writable memory of which the middle is a multiple of 2^44, that is, of any alignment that memory
/// can have. The same in every process.
pub struct Fixed;
impl Fixed {
    const MIDDLE: usize = p2(44);
    pub const HALF: usize = 1 << 20;
    /// From `HALF` below to `HALF` above the middle.
    pub fn middle() -> usize {
        if cfg!(miri) { // No mapping at a fixed address there.
            static AT: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
            return untracked(|| Self::HALF + *AT.get_or_init(|| unsafe { std::alloc::alloc_zeroed(std::alloc::Layout::from_size_align(2 * Self::HALF, Self::HALF).unwrap()) as usize }));
        }
        extern "C" { fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8; }
        static DONE: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
        let at = Self::MIDDLE - Self::HALF;
        // Read and write; private, anonymous, there and nowhere else, not reserved.
        if !*DONE.get_or_init(|| unsafe { mmap(at as *mut u8, 2 * Self::HALF, 3, 0x2 | 0x20 | 0x10_0000 | 0x4000, -1, 0) } as usize == at) { pbt::undecided("the address space is taken"); }
        Self::MIDDLE
    }
    /// Where `len` bytes of this alignment may go: around a multiple of a large power of two, or close to the end.
    pub fn place(g: &mut pbt::Src, len: usize, align: usize) -> usize {
        let k = g.pick(&[44u32, 12, 13, 16, 17, 18, 19]);
        let around = if k == 44 { Self::middle() } else { Self::middle() + (1 << k) };
        let far = match g.upto(2) { 0 => len, 1 => 4 * align, _ => 4096 };
        let back = g.skewed(far) / align * align;
        (around - back) & !(align - 1)
    }
}

/// Places that end or begin next to memory that must not be touched, not even be read: an access
/// beyond ends the process. None of them under Miri, which notices such accesses by itself.
pub struct Fence(Cell<usize>);
impl Fence {
    const PAGE: usize = 4096;
    const PAGES: usize = 4;
    const SLOTS: usize = 64;
    pub const ROOM: usize = Self::PAGES * Self::PAGE;
    pub const fn new() -> Fence { Fence(Cell::new(1)) }
    fn slot(k: usize) -> usize {
        extern "C" {
            fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
            fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
        }
        thread_local! { static AT: Cell<usize> = const { Cell::new(0) }; static OPEN: Cell<u64> = const { Cell::new(0) }; }
        let step = Self::ROOM + Self::PAGE;
        if AT.get() == 0 {
            // No access at first; private, anonymous, not reserved.
            let p = unsafe { mmap(std::ptr::null_mut(), Self::SLOTS * step + Self::PAGE, 0, 0x2 | 0x20 | 0x4000, -1, 0) } as usize;
            if p == usize::MAX { pbt::undecided("no address space"); }
            AT.set(p);
        }
        let at = AT.get() + k * step + Self::PAGE;
        if OPEN.get() >> k & 1 == 0 {
            if unsafe { mprotect(at as *mut u8, Self::ROOM, 3) } != 0 { pbt::undecided("no fence"); }
            OPEN.set(OPEN.get() | 1 << k);
        }
        at
    }
    fn within(k: usize, len: usize, align: usize, front: bool) -> usize { if front { Self::slot(k) } else { (Self::slot(k) + Self::ROOM - len) & !(align - 1) } }
    fn fits(len: usize, align: usize) -> bool { !cfg!(miri) && len <= Self::ROOM && align <= Self::PAGE }
    /// A place that no other call on this object returns.
    pub fn place(&self, len: usize, align: usize, front: bool) -> Option<usize> {
        let k = self.0.get();
        if k == Self::SLOTS || !Self::fits(len, align) { return None; }
        self.0.set(k + 1);
        Some(Self::within(k, len, align, front))
    }
    /// The one place for something short-lived.
    pub fn once(len: usize, align: usize, front: bool) -> Option<usize> { Self::fits(len, align).then(|| Self::within(0, len, align, front)) }
}
/// Elements, next to a fence if possible; at most one of them at a time has one.
pub struct Edged<T> { at: *mut T, n: usize, _mem: Vec<T> }
impl<T: Plain> Edged<T> {
    pub fn new(n: usize, fence: Option<bool>, f: impl FnMut(usize) -> T) -> Self {
        if let Some(at) = fence.and_then(|front| Fence::once(n * size_of::<T>(), align_of::<T>(), front)) {
            let at = at as *mut T;
            for (i, v) in (0..n).map(f).enumerate() { unsafe { at.add(i).write(v) } }
            return Edged { at, n, _mem: vec![] };
        }
        let mut mem: Vec<T> = (0..n).map(f).collect();
        Edged { at: mem.as_mut_ptr(), n, _mem: mem }
    }
}
impl<T> Edged<T> { pub fn as_mut_ptr(&self) -> *mut T { self.at } }
impl<T> std::ops::Deref for Edged<T> {
    type Target = [T];
    fn deref(&self) -> &[T] { unsafe { std::slice::from_raw_parts(self.at, self.n) } }
}

/// Registry of drop-tracked values.
#[derive(Default)]
pub struct Reg {
    /// 1 alive, 2 dropped
    pub state: Vec<u8>,
    pub order: Vec<u32>,
    pub errors: Vec<String>,
    pub bombs: HashSet<u32>,
}
thread_local! { static REG: RefCell<Reg> = RefCell::new(Reg::default()); }
pub fn reg<T>(f: impl FnOnce(&mut Reg) -> T) -> T { untracked(|| REG.with(|r| f(&mut r.borrow_mut()))) }
pub fn reg_reset() { reg(|r| *r = Reg::default()); }
pub fn new_id() -> u32 { reg(|r| { r.state.push(1); r.state.len() as u32 - 1 }) }
pub fn is_alive(id: u32) -> bool { reg(|r| r.state.get(id as usize) == Some(&1)) }
pub fn n_alive() -> usize { reg(|r| r.state.iter().filter(|s| **s == 1).count()) }
pub fn alive_ids() -> Vec<u32> { reg(|r| (0..r.state.len() as u32).filter(|i| r.state[*i as usize] == 1).collect()) }
pub fn set_bomb(id: u32) { reg(|r| { r.bombs.insert(id); }) }
pub fn reg_errors() -> R {
    match reg(|r| r.errors.first().cloned()) { Some(e) => Err(untracked(|| e.clone())), None => Ok(()) }
}
pub fn drop_order() -> Vec<u32> { reg(|r| r.order.clone()) }
/// Nothing alive, nothing dropped twice.
pub fn reg_finish() -> R {
    reg_errors()?;
    let alive = alive_ids();
    if !alive.is_empty() { return Err(format!("values never dropped: {alive:?}")); }
    Ok(())
}
pub struct Bomb;
fn on_drop(id: u32, magic: u32) {
    let boom = reg(|r| {
        // Destructors run again and again, in a loop without end perhaps.
        if r.errors.len() > 10_000 { pbt::fatal(&r.errors[0]); }
        if magic != MAGIC ^ id.rotate_left(7) || id as usize >= r.state.len() {
            r.errors.push(format!("drop of memory that holds no valid value (id {id}, magic {magic:#x})"));
            return false;
        }
        if r.state[id as usize] == 2 { r.errors.push(format!("value {id} dropped twice")); return false; }
        r.state[id as usize] = 2;
        r.order.push(id);
        r.bombs.remove(&id)
    });
    if boom { std::panic::resume_unwind(Box::new(Bomb)) }
}
const MAGIC: u32 = 0x5AFE_C0DE;

/// A drop-tracked value with identity.
pub trait Tok: Sized + 'static {
    const NAME: &'static str;
    fn new() -> Self { Self::with(new_id()) }
    fn with(id: u32) -> Self;
    /// Identity, or `None` if the memory does not hold a live value of this type.
    fn id(&self) -> Option<u32>;
}
macro_rules! tok {
    ($n:ident, $pad:expr, $($attr:meta)?) => {
        $(#[$attr])?
        pub struct $n { id: u32, magic: u32, pad: [u8; $pad] }
        impl Tok for $n {
            const NAME: &'static str = stringify!($n);
            fn with(id: u32) -> Self {
                let mut pad = [0u8; $pad];
                for (i, p) in pad.iter_mut().enumerate() { *p = pattern(id as u64, i); }
                $n { id, magic: MAGIC ^ id.rotate_left(7), pad }
            }
            fn id(&self) -> Option<u32> {
                let ok = self.magic == MAGIC ^ self.id.rotate_left(7) && (0..$pad).all(|i| self.pad[i] == pattern(self.id as u64, i)) && is_alive(self.id);
                ok.then_some(self.id)
            }
        }
        impl Drop for $n { fn drop(&mut self) { on_drop(self.id, self.magic); } }
        impl std::fmt::Debug for $n { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "#{}", self.id) } }
    };
}
tok!(Tok8, 0,);
tok!(Tok12, 4,);
tok!(Tok20, 12,);
tok!(Tok24, 16, repr(align(8)));
tok!(TokA16, 24, repr(align(16)));
tok!(TokA64, 100, repr(align(64)));
tok!(Tok300, 292,);

/// Heap-backed: a second drop or a use after drop also shows up in the tracking allocator.
pub struct TokBox(pub Box<Tok8>);
impl Tok for TokBox {
    const NAME: &'static str = "TokBox";
    fn with(id: u32) -> Self { TokBox(Box::new(Tok8::with(id))) }
    fn id(&self) -> Option<u32> { self.0.id() }
}
impl std::fmt::Debug for TokBox { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.0.fmt(f) } }
