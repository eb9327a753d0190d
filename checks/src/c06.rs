//! C06: histories on the single-threaded bump allocators, over every kind of backing memory.
use std::alloc::Layout;
use std::mem::{align_of, size_of, size_of_val, MaybeUninit};

use pbt::track::untracked;
use pbt::{ensure, ensure_eq, Prop, Src, Sub, R};
use static_alloc::bump::{Failure, Level};
use static_alloc::leaked::LeakBox;
use static_alloc::unsync::{Bump, MemBump};

use crate::vals::*;

enum Own<'a> { Inline(&'a mut MemBump), Leak(LeakBox<'a, MemBump>), Boxed(Box<MemBump>) }
impl Own<'_> {
    fn get(&self) -> &MemBump { match self { Own::Inline(b) => b, Own::Leak(b) => b, Own::Boxed(b) => b } }
    fn get_mut(&mut self) -> &mut MemBump { match self { Own::Inline(b) => b, Own::Leak(b) => &mut **b, Own::Boxed(b) => b } }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fail { Exhausted, Mismatch(Level), Unknown }
fn fail(f: Failure) -> Fail { match f { Failure::Exhausted => Fail::Exhausted, Failure::Mismatch { observed } => Fail::Mismatch(observed) } }
#[derive(Clone, Copy)]
struct Got { addr: usize, level: Option<Level>, written: bool, len: usize }

const TYPES: [(&str, usize, usize); 17] = {
    macro_rules! row { ($($t:ty),*) => { [$((<$t as Plain>::NAME, size_of::<$t>(), align_of::<$t>())),*] } }
    row!(u8, u16, u32, u64, u128, [u8; 3], [u16; 5], [u8; 17], A16, A32, A64, Mixed, (), Z64, [u64; 0], [u32; 3], [u64; 3])
};
macro_rules! by_type {
    ($ty:expr, $f:ident $args:tt) => { match $ty {
        0 => by_type!(@ $f u8, $args), 1 => by_type!(@ $f u16, $args), 2 => by_type!(@ $f u32, $args), 3 => by_type!(@ $f u64, $args),
        4 => by_type!(@ $f u128, $args), 5 => by_type!(@ $f [u8; 3], $args), 6 => by_type!(@ $f [u16; 5], $args), 7 => by_type!(@ $f [u8; 17], $args),
        8 => by_type!(@ $f A16, $args), 9 => by_type!(@ $f A32, $args), 10 => by_type!(@ $f A64, $args), 11 => by_type!(@ $f Mixed, $args),
        12 => by_type!(@ $f (), $args), 13 => by_type!(@ $f Z64, $args), 15 => by_type!(@ $f [u32; 3], $args), 16 => by_type!(@ $f [u64; 3], $args), _ => by_type!(@ $f [u64; 0], $args) } };
    (@ $f:ident $t:ty, ($($a:expr),*)) => { $f::<$t>($($a),*) };
}

fn typed<V: Plain>(b: &MemBump, how: usize, at: Option<Level>, n: usize, seed: u64) -> Result<Got, Fail> {
    let one = |addr: usize, level, written| Got { addr, level, written, len: 1 };
    match (how, at) {
        (0, None) => b.get::<V>().map(|a| one(a.ptr.as_ptr() as usize, Some(a.level), false)).ok_or(Fail::Exhausted),
        (_, Some(l)) => b.get_at::<V>(l).map(|a| one(a.ptr.as_ptr() as usize, Some(a.level), false)).map_err(fail),
        (1, None) => b.bump_box::<V>().map(|x| one(LeakBox::into_raw(LeakBox::write(x, plain::<V>(seed))) as usize, None, true)).map_err(fail),
        (2, None) => b.get::<V>().map(|a| one(unsafe { LeakBox::into_raw(a.boxed(plain::<V>(seed))) } as usize, Some(a.level), true)).ok_or(Fail::Exhausted),
        _ => b.bump_array::<V>(n).map(|x| { let s = LeakBox::leak(x); Got { addr: s.as_mut_ptr() as usize, level: None, written: false, len: s.len() } }).map_err(fail),
    }
}
fn lookup<V: Plain>(b: &MemBump, l: Level) -> usize { unsafe { b.get_unchecked::<V>(l).ptr.as_ptr() as usize } }

struct Block { addr: usize, size: usize, seed: u64, /* level before, for a lookup */ found: Option<(Level, usize)> }

/// What surrounds the allocator: everything it may touch lies in `outer`.
struct Ctx { outer: (usize, usize), zeroed: bool, min_capacity: usize }

const MUCH: usize = 1 << 18;
fn history<'a>(g: &mut Src, mut own: Own<'a>, ctx: &Ctx) -> R {
    let obj = (own.get() as *const MemBump as *const u8 as usize, size_of_val(own.get()));
    ensure!(obj.0 % align_of::<usize>() == 0, "the allocator itself is misaligned");
    ensure!(obj.0 >= ctx.outer.0 && obj.0 + obj.1 <= ctx.outer.0 + ctx.outer.1, "the allocator [{:#x}; {}] leaves its backing memory [{:#x}; {}]", obj.0, obj.1, ctx.outer.0, ctx.outer.1);
    let len = own.get().capacity();
    let base = own.get().data_ptr().as_ptr() as usize;
    g.log(|| format!("capacity {len}, data at object+{}, address {:#x} mod 64", base.wrapping_sub(obj.0), base % 64));
    ensure!(len >= ctx.min_capacity, "capacity {len} is less than the {} provided for", ctx.min_capacity);
    ensure!(base >= obj.0 && base + len <= obj.0 + obj.1, "data area [{base:#x}; {len}] leaves the allocator [{:#x}; {}]", obj.0, obj.1);
    // What the data area holds before anything is allocated.
    let before: Vec<u8> = (0..if len <= MUCH && !cfg!(miri) { len } else { 0 }).map(|i| unsafe { *((base + i) as *const u8) }).collect();
    let fresh_zero = ctx.zeroed;
    let mut consumed = 0usize;
    let mut touched = 0usize; // high-water mark, for the zeroed check
    let mut current = own.get().level();
    let initial = current;
    let mut levels: Vec<(Level, usize)> = vec![(current, 0)];
    let mut blocks: Vec<Block> = Vec::new();
    let (mut succ, mut failed, mut stale, mut trips, mut n) = (0, 0, 0, 0, 0);
    while g.more(n, 12, 50) {
        n += 1;
        let seed = g.upto(0xFFFF);
        let op = g.weighted(&[8, 4, 8, 5, 5, 3, 1, 1]);
        if op == 6 {
            own.get_mut().reset();
            g.log(|| "reset()".into());
            ensure!(own.get().level() == initial, "level after reset");
            blocks.clear();
            consumed = 0;
            current = initial;
            continue;
        }
        if op == 7 {
            own = match own {
                Own::Leak(b) => {
                    let mem = MemBump::into_mem(b);
                    let (a, l) = (mem.as_ptr() as usize, mem.len());
                    g.log(|| format!("into_mem -> {l} bytes, from_mem_unchecked"));
                    ensure!(a >= ctx.outer.0 && a + l <= ctx.outer.0 + ctx.outer.1, "into_mem returned [{a:#x}; {l}] outside of the buffer");
                    trips += 1;
                    Own::Leak(unsafe { MemBump::from_mem_unchecked(mem) })
                }
                o => o,
            };
            let b = own.get();
            ensure!(b.level() == current, "level {:?} after the round-trip, {current:?} before", b.level());
            ensure_eq!(b.capacity(), len, "capacity after the round-trip");
            ensure!(b.data_ptr().as_ptr() as usize == base, "data moved in the round-trip");
            for o in &blocks { ensure!(unsafe { marked(o.addr, o.size, o.seed) }, "content changed by the round-trip"); }
            continue;
        }
        if op == 5 && !blocks.is_empty() {
            // Look up a slot by the level it was made at.
            let k = g.upto(blocks.len() as u64 - 1) as usize;
            if let Some((l, t)) = blocks[k].found {
                let got = by_type!(t, lookup(own.get(), l));
                g.log(|| format!("get_unchecked::<{}>({l:?})", TYPES[t].0));
                g.label("lookup");
                ensure!(got == blocks[k].addr, "slot of {} at {l:?} is looked up at base+{}, it was handed out at base+{}", TYPES[t].0, got.wrapping_sub(base), blocks[k].addr - base);
                ensure!(own.get().level() == current, "lookup changed the level");
            }
            continue;
        }
        let b = own.get();
        let at = if op == 1 || op == 3 {
            Some(if g.chance(2, 3) { (current, consumed) } else { levels[g.upto(levels.len() as u64 - 1) as usize] })
        } else { None };
        let left = len - consumed;
        let (layout, ty, cnt);
        let mut what = String::new();
        let r: Result<Got, Fail>;
        if op <= 1 {
            let align = match g.weighted(&[20, 4, 2]) { 0 => 1 << g.skewed(5), 1 => 1 << g.skewed(13), _ => 1usize << if g.bool() { g.range(14, 20) } else { exp(g.range(14, 62)) } };
            let size = match g.weighted(&[16, 8, 8, 6, 4, 2, 1, 2]) {
                0 => 1 + g.skewed(16), 1 => 1 + g.skewed(len + 2), 2 => left, 3 => left + 1,
                4 => left.saturating_sub(g.range(1, 9)), 5 => isize::MAX as usize - g.skewed(5000), 6 => near_pow2(g, 40),
                // To a power of two from the beginning of the data.
                _ => p2(g.pick(&[8u32, 16, 31, 32, 17, 12])).saturating_sub(consumed) };
            layout = Layout::from_size_align(size.max(1), align).unwrap_or_else(|_| Layout::from_size_align(size.clamp(1, len + 3), 1).unwrap());
            ty = None;
            cnt = 1;
            r = match at {
                None => b.alloc(layout).map(|p| Got { addr: p.as_ptr() as usize, level: None, written: false, len: 1 }).ok_or(Fail::Exhausted),
                Some((l, _)) => b.alloc_at(layout, l).map(|p| Got { addr: p.as_ptr() as usize, level: None, written: false, len: 1 }).map_err(fail),
            };
            if g.verbose() { what = "layout".into(); }
        } else {
            let t = g.upto(TYPES.len() as u64 - 1) as usize;
            let how = if op == 4 { 3 } else { g.upto(2) as usize };
            cnt = if how == 3 && at.is_none() {
                match g.weighted(&[6, 3, 1]) { 0 => g.skewed(8), 1 => left / TYPES[t].1.max(1) + g.skewed(2), _ if len <= MUCH && g.chance(1, 3) => near_pow2(g, 40), _ => if g.bool() { usize::MAX >> g.skewed(8) } else {
                    // The size in bytes wraps around to a small one.
                    let sz = (TYPES[t].1 as u128).max(2);
                    ((1u128 << usize::BITS) * g.range(1, sz as usize - 1) as u128).div_ceil(sz) as usize + g.skewed(8)
                } }
            } else { 1 };
            let bytes = TYPES[t].1.checked_mul(cnt).unwrap_or(usize::MAX);
            layout = Layout::from_size_align(bytes, TYPES[t].2).unwrap_or(Layout::from_size_align(isize::MAX as usize, 1).unwrap());
            ty = Some(t);
            r = by_type!(t, typed(b, how, at.map(|x| x.0), cnt, seed));
            if g.verbose() { what = format!("{} x{cnt} how {how}", TYPES[t].0); }
        }
        let now = b.level();
        g.log(|| format!("{what} size {} align {:#x}{} -> {}", layout.size(), layout.align(), match at { Some((l, _)) => format!(" at {l:?}"), None => String::new() },
            match &r { Ok(x) => format!("Ok(base+{}, {:?})", x.addr.wrapping_sub(base), x.level), Err(e) => format!("{e:?}") }));
        let off = (base + consumed).checked_next_multiple_of(layout.align()).map_or(usize::MAX, |a| a - base);
        let fits = layout.size() == 0 || off.checked_add(layout.size()).map_or(false, |e| e <= len);
        let is_stale = at.map_or(false, |(l, _)| l != current);
        stale += is_stale as u32;
        match r {
            Ok(got) => {
                ensure!(!is_stale, "a call at the stale level {:?} succeeded while the level was {current:?}", at.unwrap().0);
                ensure!(fits, "allocation of {layout:?} succeeded although it does not fit ({consumed} of {len} used)");
                ensure!(got.addr % layout.align() == 0 && got.addr != 0, "allocation of {layout:?} is misaligned: {:#x}", got.addr);
                ensure_eq!(got.len, cnt, "length of the allocated slice");
                if layout.size() == 0 {
                    ensure!(now == current, "a zero-sized allocation changed the level from {current:?} to {now:?}");
                    g.label("zero-sized");
                    continue;
                }
                succ += 1;
                ensure!(got.addr == base + off, "allocation of {layout:?} at data+{} instead of data+{off}", got.addr.wrapping_sub(base));
                if let Some(l) = got.level { ensure!(l == now, "returned level {l:?} but the level is {now:?}"); }
                ensure!(now > current, "the level did not grow: {current:?} then {now:?}");
                if got.written { ensure!(unsafe { marked(got.addr, layout.size(), seed) }, "the value written does not read back"); }
                else {
                    if fresh_zero && off >= touched { ensure!((0..layout.size().min(MUCH)).all(|i| unsafe { *((got.addr + i) as *const u8) } == 0), "allocation from a zeroed allocator is not zero"); }
                    unsafe { mark(got.addr, layout.size(), seed) }
                }
                let single = ty.filter(|_| cnt == 1 && got.len == 1);
                blocks.push(Block { addr: got.addr, size: layout.size(), seed, found: single.map(|t| (current, t)) });
                consumed = off + layout.size();
                touched = touched.max(consumed);
                current = now;
                levels.push((now, consumed));
            }
            Err(e) => {
                failed += 1;
                ensure!(now == current, "a failed call changed the level from {current:?} to {now:?}");
                match e {
                    Fail::Mismatch(o) => {
                        ensure!(is_stale, "mismatch reported at the current level");
                        ensure!(o == current, "mismatch reports {o:?} but the level is {current:?}");
                    }
                    _ if is_stale => {
                        let c = at.unwrap().1;
                        let soff = (base + c).checked_next_multiple_of(layout.align()).map_or(usize::MAX, |a| a - base);
                        let sfits = soff.checked_add(layout.size()).map_or(false, |e| e <= len);
                        ensure!(layout.size() > 0 && !(fits && sfits), "{layout:?} reported as exhausted although it fits");
                    }
                    _ => ensure!(!fits, "{layout:?} reported as exhausted although it fits at offset {off} of {len}"),
                }
            }
        }
        for o in &blocks { ensure!(unsafe { marked(o.addr, o.size, o.seed) }, "content of the allocation at data+{} was disturbed", o.addr - base); }
    }
    // Bytes never handed out are as they were.
    for i in touched..before.len() { ensure!(unsafe { *((base + i) as *const u8) } == before[i], "byte {i} of the data area changed although it was never handed out"); }
    g.label_if(failed > 0, "failed call");
    g.label_if(stale > 0, "stale level");
    g.label_if(trips > 0, "buffer round-trip");
    g.label_if(consumed == len && len > 0, "filled to the last byte");
    if succ >= 2 || (trips > 0 && succ >= 1) { g.nontrivial(); }
    Ok(())
}

const FILL: u8 = 0xEE;
fn inline<T>(g: &mut Src, name: &'static str) -> R {
    let place = Fixed::place(g, size_of::<Bump<T>>(), align_of::<Bump<T>>());
    let at = 64;
    let base = (place - at) as *mut u8;
    let len = at + size_of::<Bump<T>>() + 64;
    let zeroed = g.chance(1, 3);
    g.log(|| format!("Bump<{name}> ({} bytes, align {}) at {place:#x}, zeroed: {zeroed}", size_of::<T>(), align_of::<T>()));
    unsafe {
        std::ptr::write_bytes(base, FILL, len);
        let p = base.add(at) as *mut Bump<T>;
        p.write(if zeroed { Bump::zeroed() } else { Bump::uninit() });
        // Padding, of the allocator or of what it stores, need not survive the move into place.
        let ctx = Ctx { outer: (p as usize, size_of::<Bump<T>>()), zeroed: zeroed && align_of::<T>() <= 8 && name != "(u8,u64)", min_capacity: size_of::<T>() };
        // Both views are the same allocator.
        ensure!(&**p as *const MemBump as *const u8 == &mut **p as *mut MemBump as *const u8, "shared and exclusive views differ");
        ensure_eq!((&**p).capacity(), (&mut **p).capacity(), "capacity of the shared and exclusive view");
        history(g, Own::Inline(&mut **p), &ctx)?;
        ensure!((0..at).all(|i| *base.add(i) == FILL) && (at + size_of::<Bump<T>>()..len).all(|i| *base.add(i) == FILL), "memory outside of the allocator was written");
    }
    Ok(())
}
fn run_inline(g: &mut Src) -> R {
    match g.upto(17) {
        0 => inline::<[u8; 16]>(g, "[u8;16]"), 1 => inline::<[u8; 61]>(g, "[u8;61]"), 2 => inline::<[u8; 128]>(g, "[u8;128]"),
        3 => inline::<[u8; 1024]>(g, "[u8;1024]"), 4 => inline::<[u64; 9]>(g, "[u64;9]"), 5 => inline::<[u16; 33]>(g, "[u16;33]"),
        6 => inline::<u128>(g, "u128"), 7 => inline::<A64>(g, "A64"), 8 => inline::<A4096>(g, "A4096"), 9 => inline::<[u8; 1]>(g, "[u8;1]"),
        10 => inline::<()>(g, "()"), 11 => inline::<[u8; 7]>(g, "[u8;7]"), 12 => inline::<[u8; 255]>(g, "[u8;255]"), 13 => inline::<[u32; 3]>(g, "[u32;3]"),
        14 => inline::<[A32; 3]>(g, "[A32;3]"), 15 => inline::<Z64>(g, "Z64"), 16 => inline::<A16>(g, "A16"), _ => inline::<(u8, u64)>(g, "(u8,u64)"),
    }
}

fn run_buffer(g: &mut Src) -> R {
    let len = match g.weighted(&[3, 4, 2]) { 0 => g.skewed(40), 1 => g.range(16, 200), _ => g.range(200, 2000) };
    buffer(g, len)
}
fn buffer(g: &mut Src, len: usize) -> R {
    let at = 64;
    let place = Fixed::place(g, len.max(64), 1);
    let total = at + len + 64;
    let base = (place - at) as *mut u8;
    let seed = g.upto(0xFFFF);
    unsafe { fill(base as usize, total, seed) }
    g.log(|| format!("from_mem of {len} bytes at {place:#x}"));
    let buf = unsafe { std::slice::from_raw_parts_mut(base.add(at) as *mut MaybeUninit<u8>, len) };
    match MemBump::from_mem(buf) {
        Err(_) => {
            ensure!(len < 2 * size_of::<usize>(), "a buffer of {len} bytes was refused");
            g.label("refused");
            ensure!(unsafe { filled(base as usize, total, seed) }, "refusing the buffer changed bytes");
        }
        Ok(b) => {
            let slack = 3 * size_of::<usize>();
            let ctx = Ctx { outer: (base as usize + at, len), zeroed: false, min_capacity: (len + 2).saturating_sub(slack) };
            history(g, Own::Leak(b), &ctx)?;
            let out = |lo: usize, hi: usize| (lo..hi).all(|i| unsafe { *base.add(i) } == pattern(seed, i));
            ensure!(out(0, at) && out(at + len, total), "memory outside of the buffer was written");
        }
    }
    Ok(())
}

fn run_heap(g: &mut Src) -> R {
    let cap = match g.weighted(&[3, 4, 2]) { 0 => g.skewed(20), 1 => g.range(1, 200), _ => g.range(200, 3000) };
    heap(g, cap)
}
fn heap(g: &mut Src, cap: usize) -> R {
    if g.chance(1, 100) {
        // More than an object can have: refused by a panic.
        let cap = if g.bool() { usize::MAX - g.skewed(1 << 10) } else { isize::MAX as usize - 7 + g.skewed(100) };
        g.log(|| format!("MemBump::new({cap})"));
        ensure!(pbt::catch_quiet(|| MemBump::new(cap)).is_none(), "an allocator of {cap} bytes was created");
        return Ok(())
    }
    g.log(|| format!("MemBump::new({cap})"));
    let b = MemBump::new(cap);
    let p = &*b as *const MemBump as *const u8 as usize;
    let Some(outer) = pbt::track::block_of(p) else { return Err("the new allocator is not in a live heap block".into()) };
    history(g, Own::Boxed(b), &Ctx { outer: (outer.0, outer.1), zeroed: false, min_capacity: cap })
}

fn run_large(g: &mut Src) -> R {
    match g.upto(4) {
        0 => inline::<[u8; 65_600]>(g, "[u8;65600]"),
        1 => inline::<[u64; 9_000]>(g, "[u64;9000]"),
        2 => inline::<[A64; 300]>(g, "[A64;300]"),
        3 => { let n = g.range(60_000, 140_000); buffer(g, n) }
        _ => { let n = g.range(60_000, 140_000); heap(g, n) }
    }
}
fn run_huge(g: &mut Src) -> R {
    let len = g.pick(&[p2(31), p2(32), 5 * p2(32)]) + g.range(0, 5000);
    match g.upto(2) {
        0 => heap(g, len),
        1 => {
            let at = g.range(0, 64);
            let pages = untracked(|| Pages::new(len + 8192));
            g.log(|| format!("from_mem of {len} bytes at a page + {at}"));
            let buf = unsafe { std::slice::from_raw_parts_mut((pages.0 + at) as *mut MaybeUninit<u8>, len) };
            let Ok(b) = MemBump::from_mem(buf) else { return Err(format!("a buffer of {len} bytes was refused")) };
            history(g, Own::Leak(b), &Ctx { outer: (pages.0 + at, len), zeroed: false, min_capacity: len - 3 * size_of::<usize>() })
        }
        _ => {
            type T = [u8; p2(32) + 1000];
            let at = g.skewed(64) * align_of::<Bump<T>>();
            let pages = untracked(|| Pages::new(size_of::<Bump<T>>() + 8192));
            g.log(|| format!("Bump<[u8; 4GiB+1000]> at a page + {at}"));
            // SAFETY: every bit pattern is allowed for the storage and the counter, which is reset.
            let b = unsafe { &mut *((pages.0 + at) as *mut Bump<T>) };
            b.reset();
            let ctx = Ctx { outer: (pages.0 + at, size_of::<Bump<T>>()), zeroed: false, min_capacity: size_of::<T>() };
            history(g, Own::Inline(&mut **b), &ctx)
        }
    }
}

pub fn prop() -> Prop {
    Prop { id: "C06", assumptions: vec!["levels passed in come from the same allocator, as documented", "lookups name a slot that was handed out, with its type, as their safety contract demands"], subs: vec![
        Sub { name: "inline", cases: (1_200_000, 30_000_000), run: run_inline, track: true,
            rule: "random call histories (raw, level-checked, typed, boxed, array, lookup, reset) on Bump<T> of 18 storage types at varied addresses, against an exact offset model; non-trivial: two successful non-empty allocations" },
        Sub { name: "buffer", cases: (1_500_000, 30_000_000), run: run_buffer, track: true,
            rule: "the same on byte buffers of 0..2000 bytes at any misalignment, with buffer round-trips; non-trivial: two successful allocations, or one and a round-trip" },
        Sub { name: "heap", cases: (800_000, 20_000_000), run: run_heap, track: true,
            rule: "the same on heap allocators of any capacity, with heap watched for leaks, bad frees and out-of-bounds writes; non-trivial: two successful allocations" },
        Sub { name: "large", cases: (6_000, 150_000), run: run_large, track: true,
            rule: "the three kinds with capacities of 60 to 140 KB; non-trivial: two successful allocations" },
        Sub { name: "huge", cases: (20_000, 400_000), run: run_huge, track: true,
            rule: "the three kinds with capacities of 2 to 20 GiB in untouched pages, of the largest blocks only parts are compared; non-trivial: two successful allocations" } ] }
}
