//! C16: the helpers that put values into allocators.
use std::alloc::Layout;
use std::cell::{Cell, RefCell};
use std::mem::{ManuallyDrop, MaybeUninit};
use std::ptr::NonNull;

use alloc_traits::{Allocation, LocalAlloc, NonZeroLayout};
use pbt::{catch_quiet, ensure, ensure_eq, Prop, Src, Sub, R};
use static_alloc::Bump;
use without_alloc::alloc::{LeakedAllocation, LocalAllocLeakExt};
use without_alloc::rc::Rc;

use crate::vals::*;

/// What the checks need to know about the allocator.
trait Grants {
    /// Let the next requests fail, and hand out more than asked for.
    fn mood(&self, fail: bool, extra: usize);
    /// Is this memory one that was handed out since the last call of `mood`?
    fn granted(&self, addr: usize, size: usize) -> bool;
    /// Whether a request failed or succeeded since then.
    fn failed(&self) -> bool;
    fn asked(&self) -> usize;
    /// Whether a request of this layout must succeed; `None` if that is not known.
    fn must(&self, l: Layout) -> Option<bool>;
}

struct Heap { fences: Fence, blocks: RefCell<Vec<(usize, Layout, usize, Layout)>>, since: Cell<usize>, fail: Cell<bool>, extra: Cell<usize>, failed: Cell<bool>, asked: Cell<usize> }
unsafe impl<'a> LocalAlloc<'a> for Heap {
    fn alloc(&'a self, layout: NonZeroLayout) -> Option<Allocation<'a>> {
        self.asked.set(self.asked.get() + 1);
        let l: Layout = layout.into();
        if self.fail.get() || l.size() > 1 << 20 { self.failed.set(true); return None; }
        let size = l.size() + self.extra.get();
        let given = Layout::from_size_align(size, l.align()).unwrap();
        // Every other block ends next to memory that cannot be accessed.
        if self.blocks.borrow().len() % 2 == 1 { if let Some(at) = self.fences.place(size, l.align(), false) {
            unsafe { fill(at, size, 0xF111) };
            self.blocks.borrow_mut().push((at, given, 0, given));
            return Some(Allocation { ptr: NonNull::new(at as *mut u8)?, layout: NonZeroLayout::from_layout(given.into()).unwrap(), lifetime: Default::default() });
        } }
        // Exactly as aligned as asked for, and not better.
        let real = Layout::from_size_align(size + l.align(), l.align() * 2).unwrap();
        let p = unsafe { std::alloc::alloc(real) };
        let at = p as usize + l.align();
        unsafe { fill(at, size, 0xF111) };
        self.blocks.borrow_mut().push((at, given, p as usize, real));
        Some(Allocation { ptr: NonNull::new(unsafe { p.add(l.align()) })?, layout: NonZeroLayout::from_layout(given.into()).unwrap(), lifetime: Default::default() })
    }
    unsafe fn dealloc(&'a self, _: Allocation<'a>) { reg(|r| r.errors.push("a helper released memory".into())) }
}
impl Drop for Heap { fn drop(&mut self) { for b in self.blocks.borrow().iter().filter(|b| b.2 != 0) { unsafe { std::alloc::dealloc(b.2 as *mut u8, b.3) } } } }
impl Grants for Heap {
    fn mood(&self, fail: bool, extra: usize) { self.fail.set(fail); self.extra.set(extra); self.since.set(self.blocks.borrow().len()); self.failed.set(false); self.asked.set(0); }
    fn granted(&self, addr: usize, size: usize) -> bool { self.blocks.borrow()[self.since.get()..].iter().any(|b| addr >= b.0 && addr + size <= b.0 + b.1.size()) }
    fn failed(&self) -> bool { self.failed.get() }
    fn asked(&self) -> usize { self.asked.get() }
    fn must(&self, _: Layout) -> Option<bool> { Some(!self.failed()) }
}
/// The bundled allocator; `room` is what is certainly left.
struct Real<'a, T> { bump: &'a Bump<T>, room: &'a Cell<usize>, taken: &'a RefCell<Vec<(usize, usize)>> }
impl<T> Grants for Real<'_, T> {
    fn mood(&self, _: bool, _: usize) {}
    fn granted(&self, addr: usize, size: usize) -> bool {
        let b = self.bump as *const Bump<T> as usize;
        let mut t = self.taken.borrow_mut();
        let free = t.iter().all(|&(a, n)| addr + size <= a || a + n <= addr);
        t.push((addr, size));
        free && addr >= b && addr + size <= b + size_of::<Bump<T>>()
    }
    fn failed(&self) -> bool { true }
    fn asked(&self) -> usize { 1 }
    fn must(&self, l: Layout) -> Option<bool> {
        let need = l.size().saturating_add(l.align());
        if l.size() == 0 || need <= self.room.get() { self.room.set(self.room.get() - if l.size() == 0 { 0 } else { need }); Some(true) }
        else if l.size() > size_of::<T>() { Some(false) } else { self.room.set(0); None }
    }
}

type Held<'a> = Box<dyn FnMut(Option<u64>) -> R + 'a>;
macro_rules! with_type {
    ($g:expr, $U:ident => $body:expr) => { match $g.upto(13) { 12 => { type $U = [u32; 3]; $body } 13 => { type $U = [u64; 3]; $body }
        0 => { type $U = u8; $body } 1 => { type $U = u16; $body } 2 => { type $U = u32; $body } 3 => { type $U = u64; $body }
        4 => { type $U = [u8; 3]; $body } 5 => { type $U = [u16; 5]; $body } 6 => { type $U = A16; $body } 7 => { type $U = A32; $body }
        8 => { type $U = (); $body } 9 => { type $U = Z64; $body } 10 => { type $U = A64; $body } _ => { type $U = Mixed; $body }
    } };
}
fn slice_is<T: Plain>(s: &[T], seed: u64) -> bool { s.iter().enumerate().all(|(i, v)| unsafe { filled(v as *const T as usize, size_of::<T>(), seed + i as u64) }) }

/// Where a result is: in fresh memory, or without any and aligned.
fn place<T: ?Sized>(gr: &dyn Grants, p: *const T, l: Layout) -> R {
    let a = p as *const u8 as usize;
    ensure!(a != 0 && a % l.align() == 0, "result at {a:#x} is not aligned to {}", l.align());
    if l.size() > 0 { ensure!(gr.granted(a, l.size()), "result of {} bytes at {a:#x} is not in fresh memory of the allocator", l.size()); }
    Ok(())
}
/// Whether the original is to be next to memory that cannot be read, and on which side.
fn edge(g: &mut Src) -> Option<bool> { [None, Some(false), Some(true)][g.weighted(&[3, 3, 1])] }
fn outcome(gr: &dyn Grants, ok: bool, l: Layout) -> R {
    match gr.must(l) {
        Some(m) => ensure!(ok == m, "{} for a request of {l:?}", if ok { "success without memory" } else { "failure although memory was available" }),
        None => {}
    }
    ensure!(ok || gr.asked() > 0 || l.size() > isize::MAX as usize / 2, "failure without asking the allocator");
    Ok(())
}

/// Values to be copied as a trait object.
trait Obj { fn code(&self) -> u64; fn set(&mut self, s: u64); fn place(&self) -> (usize, usize); }
#[repr(transparent)] struct P<T>(T);
impl<T: Plain> Obj for P<T> {
    fn code(&self) -> u64 { (0..size_of::<T>()).fold(size_of::<T>() as u64, |h, i| (h ^ unsafe { *(self as *const Self as *const u8).add(i) } as u64).wrapping_mul(0x1000_0000_01b3)) }
    fn set(&mut self, s: u64) { self.0 = plain(s); }
    fn place(&self) -> (usize, usize) { (self as *const Self as usize, align_of::<T>()) }
}

fn run<'a, A: LocalAllocLeakExt<'a>>(g: &mut Src, alloc: &'a A, gr: &dyn Grants, room: usize) -> R {
    let mut held: Vec<Held<'a>> = vec![];
    let (mut n, mut good) = (0, 0);
    let mut all_failed = 0;
    while g.more(n, 10, 40) {
        n += 1;
        let seed = g.upto(0xFFFF) << 16;
        let fail = g.chance(1, 6);
        let extra = if g.chance(1, 3) { g.range(1, 40) } else { 0 };
        let before = n_alive();
        let op = g.upto(8);
        g.log(|| format!("{}{}{}", ["alloc_layout", "alloc_t", "boxed", "fixed_vec", "rc", "copy_slice", "copy_str", "copy_dst of a trait object", "copy_dst of a slice or a structure that ends in one"][op as usize], if fail { ", memory exhausted" } else { "" }, if extra > 0 { ", surplus memory" } else { "" }));
        gr.mood(fail, extra);
        let new: Option<Held<'a>> = match op {
            0 => {
                let l = Layout::from_size_align(1 + g.skewed(room), 1 << g.upto(7)).unwrap();
                let r = alloc.alloc_layout(NonZeroLayout::from_layout(l.into()).unwrap());
                outcome(gr, r.is_some(), l)?;
                match r { None => None, Some(LeakedAllocation { uninit }) => {
                    ensure!(uninit.fits(l), "memory of {} bytes at {:?} for {l:?}", uninit.size(), uninit.as_ptr());
                    let (a, m) = (uninit.as_ptr() as usize, uninit.size());
                    place(gr, a as *const u8, Layout::from_size_align(m, l.align()).unwrap())?;
                    let mut cur = seed;
                    unsafe { fill(a, m, cur) };
                    Some(Box::new(move |w| {
                        ensure!(uninit.as_ptr() as usize == a && unsafe { filled(a, m, cur) }, "raw memory was disturbed");
                        if let Some(s) = w { cur = s; unsafe { fill(a, m, cur) } }
                        Ok(())
                    }))
                } }
            }
            1 => with_type!(g, V => {
                let l = Layout::new::<V>();
                let r = alloc.alloc_t::<V>();
                outcome(gr, r.is_some(), l)?;
                match r { None => None, Some(LeakedAllocation { uninit }) => {
                    ensure!(uninit.fits(l), "memory of {} bytes at {:?} for {}", uninit.size(), uninit.as_ptr(), V::NAME);
                    place(gr, uninit.as_ptr(), l)?;
                    let v = uninit.init(plain::<V>(seed));
                    let mut cur = seed;
                    Some(Box::new(move |w| {
                        ensure!(unsafe { filled(v as *const V as usize, l.size(), cur) }, "a value was disturbed");
                        if let Some(s) = w { cur = s; *v = plain(s); }
                        Ok(())
                    }))
                } }
            }),
            2 | 4 => {
                fn tok<'a, A: LocalAllocLeakExt<'a>, T: Tok>(alloc: &'a A, gr: &dyn Grants, rc: bool) -> Result<Option<Held<'a>>, String> {
                    let t = T::new();
                    let id = t.id().unwrap();
                    if rc {
                        let l = Rc::<T>::layout();
                        let r = alloc.rc(t);
                        outcome(gr, r.is_some(), l)?;
                        Ok(match r { None => { ensure!(!is_alive(id), "the value was lost"); None }
                            Some(r) => {
                                place(gr, &*r as *const T, Layout::new::<T>())?;
                                ensure!(Rc::strong_count(&r) == 1 && r.id() == Some(id), "count {}, value {:?}", Rc::strong_count(&r), r.id());
                                let mut r = (r, id, 0u32);
                                Some(Box::new(move |w| {
                                    ensure!(r.0.id() == Some(r.1), "the shared value reads {:?}", r.0.id());
                                    if w.is_some() {
                                        let c = r.0.clone();
                                        ensure!(Rc::strong_count(&c) == 2 && c.id() == Some(r.1), "clone");
                                        drop(c);
                                        let m = Rc::get_mut(&mut r.0).ok_or("no exclusive access")?;
                                        *m = T::new();
                                        r.1 = m.id().unwrap();
                                    }
                                    Ok(())
                                }))
                            } })
                    } else {
                        let r = alloc.boxed(t);
                        outcome(gr, r.is_some(), Layout::new::<T>())?;
                        Ok(match r { None => { ensure!(!is_alive(id), "the value was lost"); None }
                            Some(mut b) => {
                                place(gr, &*b as *const T, Layout::new::<T>())?;
                                let mut id = id;
                                Some(Box::new(move |w| {
                                    ensure!(b.id() == Some(id), "the boxed value reads {:?}", b.id());
                                    if w.is_some() { *b = T::new(); id = b.id().unwrap(); }
                                    Ok(())
                                }))
                            } })
                    }
                }
                let rc = op == 4;
                match g.upto(7) { 6 => tok::<A, Tok12>(alloc, gr, rc)?, 7 => tok::<A, Tok24>(alloc, gr, rc)?, 0 => tok::<A, Tok8>(alloc, gr, rc)?, 1 => tok::<A, Tok20>(alloc, gr, rc)?, 2 => tok::<A, TokA16>(alloc, gr, rc)?, 3 => tok::<A, TokA64>(alloc, gr, rc)?, 4 => tok::<A, TokBox>(alloc, gr, rc)?,
                    _ => {
                        // A zero-sized value.
                        if rc { let r = alloc.rc(Z64); outcome(gr, r.is_some(), Rc::<Z64>::layout())?; if let Some(r) = r { place(gr, &*r as *const Z64, Layout::new::<Z64>())?; } None }
                        else { let b = alloc.boxed(Z64); ensure!(b.is_some(), "no box of a zero-sized value"); place(gr, &*b.unwrap() as *const Z64, Layout::new::<Z64>())?; None }
                    } }
            }
            3 => {
                fn vec<'a, A: LocalAllocLeakExt<'a>, T: Plain>(g: &mut Src, alloc: &'a A, gr: &dyn Grants, room: usize, seed: u64) -> Result<Option<Held<'a>>, String> {
                    let size = size_of::<T>();
                    let n = match g.upto(9) { 0 => usize::MAX - g.upto(2) as usize, 1 => usize::MAX / size.max(1), 2 => usize::MAX / size.max(1) + 1usize.min(size / 2), 3 => isize::MAX as usize / size.max(1), 4 => isize::MAX as usize / size.max(1) + 1, _ => g.skewed(room / size.max(1)) };
                    g.log(|| format!("  capacity {n} of {}", T::NAME));
                    let l = Layout::array::<T>(n).ok();
                    let r = alloc.fixed_vec::<T>(n);
                    match l {
                        None => { ensure!(r.is_none(), "a vector larger than memory"); return Ok(None); }
                        Some(l) => outcome(gr, r.is_some(), l)?,
                    }
                    let Some(mut v) = r else { return Ok(None) };
                    ensure!(v.is_empty() && v.capacity() >= n, "capacity {} instead of {n}, {} elements", v.capacity(), v.len());
                    let cap = v.capacity().min(if size > 0 { 200_000 } else { 400 });
                    if size > 0 { place(gr, v.as_slice().as_ptr(), Layout::array::<T>(v.capacity()).unwrap())?; }
                    else { ensure!(v.as_slice().as_ptr() as usize % align_of::<T>() == 0, "misaligned"); }
                    for i in 0..cap { ensure!(v.push(plain(seed + i as u64)).is_ok(), "element {i} of {cap} refused"); }
                    ensure!(cap < v.capacity() || v.push(plain(0)).is_err(), "an element beyond the capacity");
                    let mut cur = seed;
                    Ok(Some(Box::new(move |w| {
                        ensure!(v.len() == cap && slice_is(&v, cur), "the elements of a vector were disturbed");
                        if let Some(s) = w { v.clear(); cur = s; for i in 0..cap { ensure!(v.push(plain(s + i as u64)).is_ok(), "refill"); } }
                        Ok(())
                    })))
                }
                with_type!(g, V => vec::<A, V>(g, alloc, gr, room, seed)?)
            }
            5 => {
                fn copy<'a, A: LocalAllocLeakExt<'a>, T: Plain>(g: &mut Src, alloc: &'a A, gr: &dyn Grants, room: usize, seed: u64) -> Result<Option<Held<'a>>, String> {
                    let n = if size_of::<T>() == 0 { if g.chance(1, 8) { g.skewed(100_000) } else { g.skewed(1000) } } else { g.skewed(room / size_of::<T>()) };
                    let src = Edged::<T>::new(n, edge(g), |i| plain(seed + i as u64));
                    g.log(|| format!("  {n} of {}", T::NAME));
                    let r = alloc.copy_slice(&src);
                    outcome(gr, r.is_some(), Layout::for_value::<[T]>(&src))?;
                    ensure!(slice_is(&src, seed), "the original was changed");
                    let Some(s) = r else { return Ok(None) };
                    place(gr, s.as_ptr(), Layout::for_value::<[T]>(&src))?;
                    ensure!(s.len() == n, "copied {} elements of {n}", s.len());
                    ensure!(slice_is(s, seed), "the copy differs");
                    for i in 0..n { s[i] = plain(seed + i as u64 + 7); }
                    ensure!(slice_is(&src, seed), "the copy is not independent");
                    let mut cur = seed + 7;
                    Ok(Some(Box::new(move |w| {
                        ensure!(s.len() == n && slice_is(s, cur), "a copied slice was disturbed");
                        if let Some(x) = w { cur = x; for i in 0..n { s[i] = plain(x + i as u64); } }
                        Ok(())
                    })))
                }
                with_type!(g, V => copy::<A, V>(g, alloc, gr, room, seed)?)
            }
            6 => {
                let n = g.skewed(room);
                let text: String = (0..n).map(|i| ['a', 'ß', '\0', '€', '𝄞', '"'][(pattern(seed, i) % 6) as usize]).collect();
                let st = Edged::<u8>::new(text.len(), edge(g), |i| text.as_bytes()[i]);
                let st = std::str::from_utf8(&st).unwrap();
                let r = alloc.copy_str(st);
                outcome(gr, r.is_some(), Layout::for_value::<str>(st))?;
                match r { None => None, Some(c) => {
                    place(gr, c.as_ptr(), Layout::for_value::<str>(st))?;
                    ensure!(c == st, "copy {c:?} of {st:?}");
                    Some(Box::new(move |_| { ensure!(c == text, "a copied string was disturbed: {c:?}"); Ok(()) }))
                } }
            }
            7 => {
                fn dst<'a, A: LocalAllocLeakExt<'a>, T: Plain>(g: &mut Src, alloc: &'a A, gr: &dyn Grants, seed: u64) -> Result<Option<Held<'a>>, String> {
                    let one = Edged::<T>::new(1, edge(g), |_| plain(seed));
                    let src: &ManuallyDrop<P<T>> = unsafe { &*(one.as_ptr() as *const ManuallyDrop<P<T>>) };
                    let code = src.code();
                    let r = unsafe { alloc.copy_dst::<dyn Obj>(src) };
                    let l = Layout::new::<T>();
                    outcome(gr, r.is_some(), l)?;
                    ensure!(src.code() == code, "the original was changed");
                    let Some(d) = r else { return Ok(None) };
                    place(gr, d as *const dyn Obj, l)?;
                    ensure!(Layout::for_value(d) == l && d.place() == (d as *const dyn Obj as *const u8 as usize, l.align()), "the copy is a different type");
                    ensure!(d.code() == code, "the copied {} differs", T::NAME);
                    d.set(seed + 1);
                    ensure!(src.code() == code, "the copy is not independent");
                    let mut want = P(plain::<T>(seed + 1)).code();
                    Ok(Some(Box::new(move |w| {
                        ensure!(d.code() == want, "a copied object was disturbed");
                        if let Some(s) = w { d.set(s); want = P(plain::<T>(s)).code(); }
                        Ok(())
                    })))
                }
                if g.chance(1, 30) || room > 4000 && g.bool() { match g.upto(2) { 0 => dst::<A, [u8; 5000]>(g, alloc, gr, seed)?, 1 => dst::<A, A4096>(g, alloc, gr, seed)?, _ => dst::<A, [u8; 70_000]>(g, alloc, gr, seed)? } }
                else { with_type!(g, V => dst::<A, V>(g, alloc, gr, seed)?) }
            }
            _ => {
                // Values with drops, moved by way of a slice.
                fn many<'a, A: LocalAllocLeakExt<'a>, T: Tok, const N: usize>(alloc: &'a A, gr: &dyn Grants) -> Result<Option<Held<'a>>, String> {
                    struct Own<'a, T>(&'a mut [T]);
                    impl<T> Drop for Own<'_, T> { fn drop(&mut self) { unsafe { std::ptr::drop_in_place(self.0) } } }
                    let mut src: ManuallyDrop<[T; N]> = ManuallyDrop::new(std::array::from_fn(|_| T::new()));
                    let ids: Vec<u32> = src.iter().map(|t| t.id().unwrap()).collect();
                    let l = Layout::for_value::<[T]>(&src[..]);
                    let r = { let s: &ManuallyDrop<[T]> = &src; unsafe { alloc.copy_dst::<[T]>(s) } };
                    outcome(gr, r.is_some(), l)?;
                    ensure!(src.iter().zip(&ids).all(|(t, i)| t.id() == Some(*i)), "the original was changed");
                    let Some(d) = r else { unsafe { ManuallyDrop::drop(&mut src) } return Ok(None) };
                    place(gr, d.as_ptr(), l)?;
                    ensure!(d.len() == N, "{} elements of {N}", d.len());
                    let own = Own(d);
                    Ok(Some(Box::new(move |_| {
                        ensure!(own.0.iter().zip(&ids).all(|(t, i)| t.id() == Some(*i)), "copied values were disturbed");
                        Ok(())
                    })))
                }
                /// Of any length.
                fn long<'a, A: LocalAllocLeakExt<'a>, T: Plain>(g: &mut Src, alloc: &'a A, gr: &dyn Grants, room: usize, seed: u64) -> Result<Option<Held<'a>>, String> {
                    let n = g.skewed(room.min(100_000) / size_of::<T>().max(1));
                    let src = Edged::<T>::new(n, edge(g), |i| plain(seed + i as u64));
                    g.log(|| format!("  {n} of {}", T::NAME));
                    let l = Layout::for_value::<[T]>(&src);
                    let r = unsafe { alloc.copy_dst::<[T]>(&*(&src[..] as *const [T] as *const ManuallyDrop<[T]>)) };
                    outcome(gr, r.is_some(), l)?;
                    let Some(d) = r else { return Ok(None) };
                    place(gr, d.as_ptr(), l)?;
                    ensure!(d.len() == n && slice_is(d, seed) && slice_is(&src, seed), "the copy of {n} of {} differs", T::NAME);
                    let mut cur = seed;
                    Ok(Some(Box::new(move |w| {
                        ensure!(d.len() == n && slice_is(d, cur), "a copied slice was disturbed");
                        if let Some(x) = w { cur = x; for i in 0..n { d[i] = plain(x + i as u64); } }
                        Ok(())
                    })))
                }
                /// A structure that ends in a slice.
                fn tail<'a, A: LocalAllocLeakExt<'a>>(g: &mut Src, alloc: &'a A, gr: &dyn Grants, room: usize, seed: u64) -> Result<Option<Held<'a>>, String> {
                    #[repr(C)] struct Tail { head: u32, more: u64, tail: [u32] }
                    let n = g.skewed(room.min(100_000) / 4);
                    let mem = Edged::<u64>::new(2 + n.div_ceil(2), edge(g), |_| 0);
                    let p = std::ptr::slice_from_raw_parts_mut(mem.as_mut_ptr() as *mut u32, n) as *mut Tail;
                    let word = move |s: u64, i: usize| (pattern(s, i) as u32) << (i % 25);
                    fn set(t: &mut Tail, f: impl Fn(usize) -> u32) { t.head = f(usize::MAX); t.more = f(7777) as u64; for i in 0..t.tail.len() { t.tail[i] = f(i); } }
                    fn is(t: &Tail, n: usize, f: impl Fn(usize) -> u32) -> bool { t.tail.len() == n && t.head == f(usize::MAX) && t.more == f(7777) as u64 && (0..n).all(|i| t.tail[i] == f(i)) }
                    let src = unsafe { &mut *p };
                    set(src, |i| word(seed, i));
                    g.log(|| format!("  a structure with a tail of {n}"));
                    let l = Layout::for_value(src);
                    let r = unsafe { alloc.copy_dst::<Tail>(&*(p as *const ManuallyDrop<Tail>)) };
                    outcome(gr, r.is_some(), l)?;
                    ensure!(is(src, n, |i| word(seed, i)), "the original was changed");
                    let Some(d) = r else { return Ok(None) };
                    place(gr, d as *const Tail, l)?;
                    ensure!(is(d, n, |i| word(seed, i)), "the copy of a structure with a tail of {n} differs");
                    set(d, |i| word(seed + 1, i));
                    ensure!(is(src, n, |i| word(seed, i)), "the copy is not independent");
                    let mut cur = seed + 1;
                    Ok(Some(Box::new(move |w| {
                        ensure!(is(d, n, |i| word(cur, i)), "a copied structure was disturbed");
                        if let Some(x) = w { cur = x; set(d, |i| word(x, i)); }
                        Ok(())
                    })))
                }
                match g.upto(8) { 7 => many::<A, Tok12, 3>(alloc, gr)?, 8 => many::<A, Tok24, 4>(alloc, gr)?, 5 => with_type!(g, V => long::<A, V>(g, alloc, gr, room, seed)?), 6 => tail(g, alloc, gr, room, seed)?, 0 => many::<A, Tok8, 3>(alloc, gr)?, 1 => many::<A, Tok20, 5>(alloc, gr)?, 2 => many::<A, TokA64, 1>(alloc, gr)?, 3 => many::<A, TokBox, 2>(alloc, gr)?, _ => many::<A, TokA16, 0>(alloc, gr)? }
            }
        };
        reg_errors()?;
        match new { Some(h) => { good += 1; held.push(h); } None => { ensure!(n_alive() == before, "a failed call changed values"); all_failed += 1; } }
        // Change one of the values, all others stay.
        let change = if !held.is_empty() && g.bool() { Some(g.upto(held.len() as u64 - 1) as usize) } else { None };
        for h in &mut held { h(None)?; }
        if let Some(i) = change { held[i](Some(seed + 99))?; for h in &mut held { h(None)?; } }
        if !held.is_empty() && g.chance(1, 10) { let i = g.upto(held.len() as u64 - 1) as usize; drop(held.swap_remove(i)); for h in &mut held { h(None)?; } }
        reg_errors()?;
    }
    if good >= 3 { g.nontrivial(); }
    g.label_if(all_failed > 0, "exhaustion");
    drop(held);
    reg_finish()
}
fn heap(g: &mut Src) -> R {
    reg_reset();
    let h = Heap { fences: Fence::new(), blocks: Default::default(), since: Cell::new(0), fail: Cell::new(false), extra: Cell::new(0), failed: Cell::new(false), asked: Cell::new(0) };
    // Mostly small, so that histories are long.
    let room = if g.chance(1, 60) { 40_000 } else if g.chance(1, 40) { 6000 } else { 400 };
    run(g, &h, &h, room)
}
fn large(g: &mut Src) -> R {
    reg_reset();
    let h = Heap { fences: Fence::new(), blocks: Default::default(), since: Cell::new(0), fail: Cell::new(false), extra: Cell::new(0), failed: Cell::new(false), asked: Cell::new(0) };
    let room = g.pick(&[5000, 66_000, 140_000, 600_000]);
    run(g, &h, &h, room)
}
fn bump(g: &mut Src) -> R {
    fn go<T: Copy>(g: &mut Src) -> R {
        reg_reset();
        let b: Bump<MaybeUninit<T>> = Bump::uninit();
        let room = Cell::new(size_of::<T>());
        let taken = RefCell::new(vec![]);
        let gr = Real { bump: &b, room: &room, taken: &taken };
        run(g, &b, &gr, 100)
    }
    match g.upto(3) { 0 => go::<[u8; 700]>(g), 1 => go::<[u64; 40]>(g), 2 => go::<A4096>(g), _ => go::<()>(g) }
}

pub fn prop() -> Prop {
    Prop { id: "C16", assumptions: vec![], subs: vec![
        Sub { name: "helpers", cases: (1_000_000, 30_000_000), run: heap, track: true,
            rule: "histories of all helpers over an allocator that fails on demand, hands out surplus memory and aligns no better than asked, with sized, zero-sized, over-aligned and dynamically sized contents; every result's place, size and content checked, and all of them after every step; non-trivial: three results" },
        Sub { name: "large", cases: (2_500, 50_000), run: large, track: true, rule: "the same with contents of up to 600 KB; non-trivial: three results" },
        Sub { name: "bump", cases: (300_000, 10_000_000), run: bump, track: true, rule: "the same over the bundled allocator, through exhaustion" } ] }
}
