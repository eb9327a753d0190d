//! A global allocator that, inside a tracking scope, records every block of the heap, surrounds it
//! with guard zones, fills it with junk, quarantines and poisons what is freed. At the end of the
//! scope it reports leaks, double frees, frees with a wrong layout, writes outside a live block and
//! writes to freed blocks. It is deterministic and needs no instrumentation of the code under test.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

pub struct Track;

const CAP: usize = 1 << 14;
const ZONE: usize = 64;
const GUARD: u8 = 0xA5;
const JUNK: u8 = 0xC3;
const POISON: u8 = 0xDB;

#[derive(Clone, Copy)]
struct Entry { ptr: usize, size: usize, align: usize, state: u8 /* 1 live, 2 freed */, slot: u32 }

struct Table { entries: [Entry; CAP], index: [u32; CAP * 2], n: usize, errors: [u32; 6], first: (usize, usize, usize) }
struct Shared(UnsafeCell<Table>);
unsafe impl Sync for Shared {}

static TABLE: Shared = Shared(UnsafeCell::new(Table {
    entries: [Entry { ptr: 0, size: 0, align: 0, state: 0, slot: 0 }; CAP], index: [0; CAP * 2], n: 0, errors: [0; 6], first: (0, 0, 0) }));

const E_DOUBLE: usize = 0;
const E_LAYOUT: usize = 1;
const E_OOB: usize = 2;
const E_UAF: usize = 3;
const E_FULL: usize = 4;
const E_LEAK: usize = 5;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static COUNTING: Cell<Option<isize>> = const { Cell::new(None) };
    static LIMIT: Cell<usize> = const { Cell::new(usize::MAX) };
}

fn on() -> bool { ON.try_with(|o| o.get()).unwrap_or(false) }

/// Run `f` without recording its allocations (for the engine's own data that outlives the scope).
pub fn untracked<T>(f: impl FnOnce() -> T) -> T {
    struct Restore(bool);
    impl Drop for Restore { fn drop(&mut self) { let v = self.0; let _ = ON.try_with(|o| o.set(v)); } }
    let _r = Restore(on());
    let _ = ON.try_with(|o| o.set(false));
    f()
}

fn slot(t: &Table, ptr: usize) -> usize {
    let mut h = ((ptr as u64 >> 3).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40) as usize;
    loop {
        h %= CAP * 2;
        let i = t.index[h];
        if i == 0 || t.entries[i as usize - 1].ptr == ptr { return h; }
        h += 1;
    }
}

fn front(align: usize) -> usize { align.max(ZONE) }

unsafe fn outer(size: usize, align: usize) -> Layout {
    Layout::from_size_align_unchecked(front(align) + size + ZONE, align.max(16))
}

fn note(t: &mut Table, e: usize, x: Entry) {
    t.errors[e] += 1;
    if t.first.1 == 0 { t.first = (e, x.size, x.align); }
}

unsafe fn guards_ok(e: &Entry) -> bool {
    let p = e.ptr as *const u8;
    (0..ZONE).all(|i| *p.sub(1 + i) == GUARD) && (0..ZONE).all(|i| *p.add(e.size + i) == GUARD)
}

unsafe impl GlobalAlloc for Track {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 { self.get(layout, false) }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 { self.get(layout, true) }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) { self.put(ptr, layout) }
}
impl Track {
    unsafe fn get(&self, layout: Layout, zeroed: bool) -> *mut u8 {
        let system = |l| if zeroed { System.alloc_zeroed(l) } else { System.alloc(l) };
        if !on() { let p = system(layout); if !p.is_null() { count(1); } return p; }
        let t = &mut *TABLE.0.get();
        if layout.size() > LIMIT.with(|l| l.get()) { return std::ptr::null_mut(); }
        if t.n >= CAP { t.errors[E_FULL] += 1; return system(layout); }
        if layout.size() as u64 > if usize::BITS > 32 { 1 << 40 } else { 1 << 26 } { return std::ptr::null_mut(); }
        let base = system(outer(layout.size(), layout.align()));
        if base.is_null() { return base; }
        let p = base.add(front(layout.align()));
        std::ptr::write_bytes(p.sub(ZONE), GUARD, ZONE);
        // Large blocks are not worth the time to fill.
        if !zeroed && !cfg!(miri) { std::ptr::write_bytes(p, JUNK, layout.size().min(1 << 16)); }
        std::ptr::write_bytes(p.add(layout.size()), GUARD, ZONE);
        let s = slot(t, p as usize);
        t.entries[t.n] = Entry { ptr: p as usize, size: layout.size(), align: layout.align(), state: 1, slot: s as u32 };
        t.n += 1;
        t.index[s] = t.n as u32;
        p
    }
    unsafe fn put(&self, ptr: *mut u8, layout: Layout) {
        // A block of the scope may be freed while tracking is suspended, so always look it up.
        let t = &mut *TABLE.0.get();
        if t.n == 0 { count(-1); return System.dealloc(ptr, layout); }
        let s = slot(t, ptr as usize);
        let i = t.index[s];
        if i == 0 { return System.dealloc(ptr, layout); }
        let e = &mut t.entries[i as usize - 1];
        if e.state == 2 { let x = *e; return note(t, E_DOUBLE, x); }
        e.state = 2;
        let x = *e;
        if x.size != layout.size() || x.align != layout.align() { note(t, E_LAYOUT, x); }
        if !guards_ok(&x) { note(t, E_OOB, x); }
        std::ptr::write_bytes(ptr, POISON, x.size.min(1 << 16));
    }
}

fn count(d: isize) { let _ = COUNTING.try_with(|c| c.set(c.get().map(|n| n + d))); }
/// Outside of tracking scopes: run `f` and return by how many blocks the heap has grown.
pub fn counted<T>(f: impl FnOnce() -> T) -> (T, isize) {
    COUNTING.with(|c| c.set(Some(0)));
    let r = f();
    (r, COUNTING.with(|c| c.take()).unwrap())
}

/// Make requests above `limit` bytes fail inside tracking scopes.
pub fn set_limit(limit: usize) { LIMIT.with(|l| l.set(limit)); }

pub fn begin() {
    unsafe { assert!((*TABLE.0.get()).n == 0, "nested tracking scope"); }
    ON.with(|o| o.set(true));
}

/// Number of blocks allocated and not freed in this scope so far.
pub fn live() -> usize {
    let t = unsafe { &*TABLE.0.get() };
    t.entries[..t.n].iter().filter(|e| e.state == 1).count()
}
/// The live block containing the address: (start, size, align).
pub fn block_of(addr: usize) -> Option<(usize, usize, usize)> {
    let t = unsafe { &*TABLE.0.get() };
    t.entries[..t.n].iter().find(|e| e.state == 1 && e.ptr <= addr && addr < e.ptr + e.size.max(1)).map(|e| (e.ptr, e.size, e.align))
}
/// Is the address inside a block that was freed in this scope?
pub fn is_freed(addr: usize) -> bool {
    let t = unsafe { &*TABLE.0.get() };
    t.entries[..t.n].iter().any(|e| e.state == 2 && e.ptr <= addr && addr < e.ptr + e.size.max(1))
}

/// End the scope, release everything, report what went wrong.
pub fn end(check_leaks: bool) -> Result<(), String> {
    ON.with(|o| o.set(false));
    LIMIT.with(|l| l.set(usize::MAX));
    let t = unsafe { &mut *TABLE.0.get() };
    for i in 0..t.n {
        let e = t.entries[i];
        unsafe {
            if e.state == 1 {
                if !guards_ok(&e) { note(t, E_OOB, e); }
                if check_leaks { note(t, E_LEAK, e); }
            } else {
                let p = e.ptr as *const u8;
                if !(0..e.size.min(1 << 16)).all(|i| *p.add(i) == POISON) { note(t, E_UAF, e); }
                if !guards_ok(&e) { note(t, E_OOB, e); }
            }
        }
    }
    let (errors, first) = (t.errors, t.first);
    for i in 0..t.n {
        let e = t.entries[i];
        t.index[e.slot as usize] = 0;
        unsafe { System.dealloc((e.ptr - front(e.align)) as *mut u8, outer(e.size, e.align)); }
    }
    t.n = 0;
    t.errors = [0; 6];
    t.first = (0, 0, 0);
    let names = ["double free", "free with a layout other than the allocated one", "write outside of a live heap block",
        "write to freed heap memory", "", "heap block never freed"];
    let mut out = Vec::new();
    for k in [E_DOUBLE, E_LAYOUT, E_OOB, E_UAF, E_LEAK] {
        if errors[k] > 0 { out.push(format!("{} x{}", names[k], errors[k])); }
    }
    if out.is_empty() { Ok(()) } else { Err(format!("heap: {} (first: size {}, align {})", out.join(", "), first.1, first.2)) }
}
