//! C01 and C02: histories of calls on the thread-safe bump allocator.
use std::alloc::{GlobalAlloc, Layout};
use std::mem::{align_of, size_of, MaybeUninit};
use std::ptr::NonNull;

use alloc_traits::{LocalAlloc, NonZeroLayout};
use pbt::track::untracked;
use pbt::{ensure, ensure_eq, Prop, Src, Sub, R};
use static_alloc::bump::{Failure, Level};
use static_alloc::leaked::LeakBox;
use static_alloc::Bump;

use crate::vals::*;

/// What a call handed out.
#[derive(Clone, Copy, Debug)]
pub struct Got { pub addr: usize, pub level: Option<Level>, pub written: bool }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fail { Exhausted, Mismatch(Level) }

pub trait Alc {
    fn span(&self) -> (usize, usize);
    fn storage_len(&self) -> usize;
    fn layout(&self, how: usize, l: Layout) -> Option<Got>;
    fn layout_at(&self, how: usize, l: Layout, at: Level) -> Result<Got, Fail>;
    fn typed(&self, ty: usize, how: usize, seed: u64) -> Result<Option<Got>, String>;
    fn typed_at(&self, ty: usize, how: usize, seed: u64, at: Level) -> Result<Result<Got, Fail>, String>;
    fn level(&self) -> Level;
    fn reset(&mut self);
    fn dealloc(&self, local: bool, addr: usize, l: Layout);
    fn realloc(&self, local: bool, addr: usize, old: Layout, new: Layout) -> Option<usize>;
}

pub const TYPES: [(&str, usize, usize); 17] = {
    macro_rules! row { ($($t:ty),*) => { [$((<$t as Plain>::NAME, size_of::<$t>(), align_of::<$t>())),*] } }
    row!(u8, u16, u32, u64, u128, [u8; 3], [u16; 5], [u8; 17], A16, A32, A64, Mixed, (), Z64, [u64; 0], [u32; 3], [u64; 3])
};
macro_rules! by_type {
    ($ty:expr, $m:ident, $($a:expr),*) => { match $ty {
        0 => $m!(u8, $($a),*), 1 => $m!(u16, $($a),*), 2 => $m!(u32, $($a),*), 3 => $m!(u64, $($a),*), 4 => $m!(u128, $($a),*),
        5 => $m!([u8; 3], $($a),*), 6 => $m!([u16; 5], $($a),*), 7 => $m!([u8; 17], $($a),*), 8 => $m!(A16, $($a),*),
        9 => $m!(A32, $($a),*), 10 => $m!(A64, $($a),*), 11 => $m!(Mixed, $($a),*), 12 => $m!((), $($a),*),
        13 => $m!(Z64, $($a),*), 15 => $m!([u32; 3], $($a),*), 16 => $m!([u64; 3], $($a),*), _ => $m!([u64; 0], $($a),*) } };
}

fn fail(f: Failure) -> Fail {
    match f { Failure::Exhausted => Fail::Exhausted, Failure::Mismatch { observed } => Fail::Mismatch(observed) }
}
fn bytes_eq<V: Plain>(v: &V, seed: u64) -> bool { unsafe { filled(v as *const V as usize, size_of::<V>(), seed) } }

fn typed<T, V: Plain>(b: &Bump<T>, how: usize, seed: u64) -> Result<Option<Got>, String> {
    Ok(match how {
        0 => b.get::<V>().map(|a| Got { addr: a.ptr.as_ptr() as usize, level: Some(a.level), written: false }),
        1 => match b.leak(plain::<V>(seed)) {
            Ok(r) => Some(Got { addr: r as *mut V as usize, level: None, written: true }),
            Err(e) => {
                ensure!(e.kind() == Failure::Exhausted, "leak failed with {:?} instead of exhaustion", e.kind());
                ensure!(bytes_eq(&e.into_inner(), seed), "failed leak did not hand the value back unchanged");
                None
            }
        },
        2 => b.leak_box(plain::<V>(seed)).map(|x| Got { addr: LeakBox::into_raw(x) as usize, level: None, written: true }),
        _ => b.get::<V>().map(|a| {
            let level = Some(a.level);
            // SAFETY: just allocated for this type.
            let bx = unsafe { a.boxed(plain::<V>(seed)) };
            Got { addr: LeakBox::leak(bx) as *mut V as usize, level, written: true }
        }),
    })
}
fn typed_at<T, V: Plain>(b: &Bump<T>, how: usize, seed: u64, at: Level) -> Result<Result<Got, Fail>, String> {
    Ok(match how {
        0 => b.get_at::<V>(at).map(|a| Got { addr: a.ptr.as_ptr() as usize, level: Some(a.level), written: false }).map_err(fail),
        1 => match b.leak_at(plain::<V>(seed), at) {
            Ok((r, l)) => Ok(Got { addr: r as *mut V as usize, level: Some(l), written: true }),
            Err(e) => {
                let k = fail(e.kind());
                ensure!(bytes_eq(&e.into_inner(), seed), "failed leak_at did not hand the value back unchanged");
                Err(k)
            }
        },
        _ => b.leak_box_at(plain::<V>(seed), at).map(|x| Got { addr: LeakBox::into_raw(x) as usize, level: None, written: true }).map_err(fail),
    })
}

impl<T> Alc for Bump<T> {
    fn span(&self) -> (usize, usize) { (self as *const _ as usize, size_of::<Self>()) }
    fn storage_len(&self) -> usize { size_of::<T>() }
    fn layout(&self, how: usize, l: Layout) -> Option<Got> {
        let got = |p: NonNull<u8>| Got { addr: p.as_ptr() as usize, level: None, written: false };
        match how {
            0 => self.alloc(l).map(got),
            1 => self.get_layout(l).map(|a| Got { addr: a.ptr.as_ptr() as usize, level: Some(a.level), written: false }),
            2 => NonNull::new(unsafe { GlobalAlloc::alloc(self, l) }).map(got),
            _ => LocalAlloc::alloc(self, NonZeroLayout::from_layout(l.into()).unwrap()).map(|a| got(a.ptr)),
        }
    }
    fn layout_at(&self, how: usize, l: Layout, at: Level) -> Result<Got, Fail> {
        let a = if how == 0 { self.alloc_at(l, at) } else { self.get_layout_at(l, at) };
        a.map(|a| Got { addr: a.ptr.as_ptr() as usize, level: Some(a.level), written: false }).map_err(fail)
    }
    fn typed(&self, ty: usize, how: usize, seed: u64) -> Result<Option<Got>, String> {
        macro_rules! go { ($v:ty, $($a:expr),*) => { typed::<T, $v>($($a),*) } }
        by_type!(ty, go, self, how, seed)
    }
    fn typed_at(&self, ty: usize, how: usize, seed: u64, at: Level) -> Result<Result<Got, Fail>, String> {
        macro_rules! go { ($v:ty, $($a:expr),*) => { typed_at::<T, $v>($($a),*) } }
        by_type!(ty, go, self, how, seed, at)
    }
    fn level(&self) -> Level { Bump::level(self) }
    fn reset(&mut self) { Bump::reset(self) }
    fn dealloc(&self, local: bool, addr: usize, l: Layout) {
        unsafe { if local { LocalAlloc::dealloc(self, local_alloc(addr, l)) } else { GlobalAlloc::dealloc(self, addr as *mut u8, l) } }
    }
    fn realloc(&self, local: bool, addr: usize, old: Layout, new: Layout) -> Option<usize> {
        let p = unsafe {
            if local { LocalAlloc::realloc(self, local_alloc(addr, old), NonZeroLayout::from_layout(new.into()).unwrap()).map_or(0, |a| a.ptr.as_ptr() as usize) }
            else { GlobalAlloc::realloc(self, addr as *mut u8, old, new.size()) as usize }
        };
        (p != 0).then_some(p)
    }
}
fn local_alloc<'a>(addr: usize, l: Layout) -> alloc_traits::Allocation<'a> {
    alloc_traits::Allocation { ptr: NonNull::new(addr as *mut u8).unwrap(), layout: NonZeroLayout::from_layout(l.into()).unwrap(), lifetime: Default::default() }
}
/// What the storage held when the allocator was made.
#[derive(Clone, Copy, PartialEq)]
enum Init { Unknown, Zero, Given(u64) }

const FILL: u8 = 0xEE;
/// A bump allocator at a chosen address in a larger, watched block of memory.
fn with_storage<T: 'static>(g: &mut Src, f: &mut dyn FnMut(&mut Src, &mut dyn Alc, Init) -> R, name: &'static str) -> R {
    let a = align_of::<Bump<T>>();
    let place = Fixed::place(g, size_of::<Bump<T>>(), a);
    let at = 64;
    let base = (place - at) as *mut u8;
    let len = at + size_of::<Bump<T>>() + 64;
    let kind = g.weighted(&[4, 1, 1]);
    let seed = if kind == 2 { g.upto(0xFFFF) } else { 0 };
    g.log(|| format!("Bump<{name}> ({} bytes) at {place:#x}, {}", size_of::<T>(), ["uninit", "zeroed", "new(bytes)"][kind]));
    unsafe {
        std::ptr::write_bytes(base, FILL, len);
        let p = base.add(at) as *mut Bump<T>;
        p.write(match kind {
            0 => Bump::uninit(),
            1 => Bump::zeroed(),
            _ => {
                let mut v = MaybeUninit::<T>::uninit();
                fill(v.as_mut_ptr() as usize, size_of::<T>(), seed);
                Bump::new(v.assume_init())
            }
        });
        // Padding of the storage type need not survive the construction.
        let init = match kind { _ if name == "(u8,u64)" => Init::Unknown, 0 => Init::Unknown, 1 => Init::Zero, _ => Init::Given(seed) };
        let r = f(g, &mut *p, init);
        r?;
        let lo = (0..at).all(|i| *base.add(i) == FILL);
        let hi = (at + size_of::<Bump<T>>()..len).all(|i| *base.add(i) == FILL);
        ensure!(lo && hi, "memory outside of the allocator was written");
    }
    Ok(())
}
const STORAGES: usize = 16;
fn any_storage(g: &mut Src, mut f: impl FnMut(&mut Src, &mut dyn Alc, Init) -> R) -> R {
    let f = &mut f;
    match g.upto(STORAGES as u64 - 1) {
        0 => with_storage::<[u8; 16]>(g, f, "[u8;16]"),
        1 => with_storage::<[u8; 61]>(g, f, "[u8;61]"),
        2 => with_storage::<[u8; 128]>(g, f, "[u8;128]"),
        3 => with_storage::<[u8; 1024]>(g, f, "[u8;1024]"),
        4 => with_storage::<[u64; 9]>(g, f, "[u64;9]"),
        5 => with_storage::<[u16; 33]>(g, f, "[u16;33]"),
        6 => with_storage::<u128>(g, f, "u128"),
        7 => with_storage::<A64>(g, f, "A64"),
        8 => with_storage::<A4096>(g, f, "A4096"),
        9 => with_storage::<[u8; 1]>(g, f, "[u8;1]"),
        10 => with_storage::<()>(g, f, "()"),
        11 => with_storage::<[u8; 7]>(g, f, "[u8;7]"),
        12 => with_storage::<[u8; 255]>(g, f, "[u8;255]"),
        13 => with_storage::<[u32; 3]>(g, f, "[u32;3]"),
        14 => with_storage::<[A32; 3]>(g, f, "[A32;3]"),
        _ => with_storage::<(u8, u64)>(g, f, "(u8,u64)"),
    }
}

struct Block { addr: usize, size: usize, seed: u64, layout: Layout }

#[derive(PartialEq, Clone, Copy)]
enum Oracle { Sound, Exact }

pub fn gen_align(g: &mut Src, max: usize) -> usize { 1 << g.skewed(max) }
/// A layout of non-zero size, often near what is left.
fn gen_layout(g: &mut Src, left: usize, total: usize) -> Layout {
    let align = match g.weighted(&[20, 4, 2]) { 0 => gen_align(g, 5), 1 => gen_align(g, 13), _ => 1usize << if g.bool() { g.range(14, 20) } else { exp(g.range(14, 62)) } };
    let size = match g.weighted(&[20, 10, 6, 6, 4, 2, 1, 2]) {
        0 => 1 + g.skewed(16),
        // To a power of two from the beginning of the storage.
        7 => p2(g.pick(&[8u32, 16, 31, 32, 17, 12])).saturating_sub(total - left),
        1 => 1 + g.skewed(total + 2),
        2 => left,
        3 => left + 1,
        4 => left.saturating_sub(g.range(1, 9)),
        5 => isize::MAX as usize - g.skewed(5000),
        _ => near_pow2(g, 40),
    };
    Layout::from_size_align(size.max(1), align).unwrap_or_else(|_| Layout::from_size_align(size.clamp(1, total + 3), 1).unwrap())
}

fn history(g: &mut Src, b: &mut dyn Alc, init: Init, oracle: Oracle) -> R {
    let len = b.storage_len();
    let (lo, span) = b.span();
    let initial = b.level();
    let mut base = 0usize;
    if oracle == Oracle::Exact && len > 0 {
        // Where the storage begins is where a single byte goes first.
        let one = b.layout(1, Layout::new::<u8>());
        ensure!(one.is_some(), "fresh allocator of {len} bytes cannot allocate one byte");
        base = one.unwrap().addr;
        b.reset();
        ensure!(b.level() == initial, "level after reset {:?} differs from the initial {:?}", b.level(), initial);
    }
    // What each byte of the storage must hold, where that is known.
    let mut image: Vec<Option<u8>> = if oracle == Oracle::Exact {
        (0..if len <= WHOLE { len } else { 0 }).map(|i| match init { Init::Unknown => None, Init::Zero => Some(0), Init::Given(s) => Some(pattern(s, i)) }).collect()
    } else { Vec::new() };
    let mut consumed = 0usize; // exact model (Exact); estimate to steer the generator (Sound)
    let mut blocks: Vec<Block> = Vec::new();
    let mut levels: Vec<(Level, usize)> = vec![(initial, 0)];
    let mut current = initial;
    let mut n = 0;
    let (mut succ, mut exhausted, mut stale, mut resets, mut full) = (0, 0, 0, 0, false);
    while g.more(n, 14, 60) {
        n += 1;
        let op = g.weighted(&[12, 10, 6, 6, 2, 3]);
        let seed = g.upto(0xFFFF);
        if op == 4 {
            if g.chance(1, 3) || n > 20 {
                b.reset();
                resets += 1;
                g.log(|| "reset()".into());
                if oracle == Oracle::Exact { ensure_eq!(b.level(), initial, "level after reset"); }
                consumed = 0;
                current = b.level();
                blocks.clear();
            }
            continue;
        }
        if op == 5 {
            // Through the allocator traits. What is deallocated is no longer watched; that consumption
            // never goes back is a matter of the exact oracle.
            if blocks.is_empty() { continue; }
            let k = if g.bool() { blocks.len() - 1 } else { g.upto(blocks.len() as u64 - 1) as usize };
            let (local, grow) = (g.bool(), g.upto(2));
            let (addr, old) = (blocks[k].addr, blocks[k].layout);
            // It copies.
            let grow = if old.size() > 1 << 20 { 0 } else { grow };
            if grow == 0 {
                b.dealloc(local, addr, old);
                g.log(|| format!("dealloc base+{} {old:?}", addr - lo));
                blocks.swap_remove(k);
                if oracle == Oracle::Exact { ensure!(b.level() == current, "deallocation changed the level from {current:?} to {:?}", b.level()); }
                current = b.level();
                for o in &blocks { ensure!(unsafe { marked(o.addr, o.size, o.seed) }, "deallocation disturbed the allocation [{:#x}; {}]", o.addr, o.size); }
                g.label("dealloc");
                continue;
            }
            let size = match grow { 1 => old.size().saturating_sub(g.skewed(20)).max(1), _ => old.size() + g.skewed(20) };
            let new = Layout::from_size_align(size, if local { gen_align(g, 6) } else { old.align() }).unwrap();
            let r = b.realloc(local, addr, old, new);
            let now = b.level();
            g.log(|| format!("realloc base+{} {old:?} -> {new:?}: {:?}, {now:?}", addr - lo, r.map(|p| p.wrapping_sub(lo))));
            if oracle == Oracle::Exact { ensure!(now >= current, "reallocation decreased the level from {current:?} to {now:?}"); }
            let Some(p) = r else {
                if oracle == Oracle::Exact { ensure!(now == current, "failed reallocation changed the level from {current:?} to {now:?}"); }
                current = now;
                for o in &blocks { ensure!(unsafe { marked(o.addr, o.size, o.seed) }, "failed reallocation disturbed the allocation [{:#x}; {}]", o.addr, o.size); }
                continue;
            };
            ensure!(p % new.align() == 0 && p >= lo && p + new.size() <= lo + span, "reallocation to {new:?} at {p:#x} is misaligned or leaves the allocator");
            let keep = old.size().min(new.size());
            ensure!(unsafe { kept(p, keep, old.size(), blocks[k].seed) }, "reallocation lost the content of the block");
            blocks.swap_remove(k);
            for o in &blocks { ensure!(p + size <= o.addr || o.addr + o.size <= p, "reallocated block overlaps another one"); }
            if oracle == Oracle::Sound {
                for o in &blocks { ensure!(unsafe { marked(o.addr, o.size, o.seed) }, "reallocation disturbed the allocation [{:#x}; {}]", o.addr, o.size); }
                consumed = consumed.max((p + size).saturating_sub(lo + span - len.min(span)).min(len));
                current = now;
                levels.push((now, consumed));
            } else if now != current {
                ensure!(p + size > base + consumed, "the level grew without new memory being handed out");
                consumed = p + size - base;
                current = now;
                levels.push((now, consumed));
            }
            unsafe { mark(p, size, seed) }
            if !image.is_empty() { for i in 0..size { if let Some(x) = image.get_mut(p + i - base) { *x = Some(pattern(seed, i)); } } }
            blocks.push(Block { addr: p, size, seed, layout: new });
            g.label("realloc");
            continue;
        }
        let at = if op >= 2 {
            // Mostly the current level; else one seen before (possibly before a reset).
            let (l, c) = if g.chance(2, 3) { (current, consumed) } else { levels[g.upto(levels.len() as u64 - 1) as usize] };
            Some((l, c))
        } else { None };
        let (what, layout, how, ty);
        if op == 0 || op == 2 {
            layout = gen_layout(g, len.saturating_sub(consumed), len);
            how = g.upto(3) as usize;
            ty = None;
            what = "layout";
        } else {
            let t = g.upto(TYPES.len() as u64 - 1) as usize;
            layout = Layout::from_size_align(TYPES[t].1, TYPES[t].2).unwrap();
            how = g.upto(3) as usize;
            ty = Some(t);
            what = TYPES[t].0;
        }
        let r: Result<Got, Fail> = match (ty, at) {
            (None, None) => b.layout(how, layout).ok_or(Fail::Exhausted),
            (None, Some((l, _))) => b.layout_at(how & 1, layout, l),
            (Some(t), None) => b.typed(t, how, seed)?.ok_or(Fail::Exhausted),
            (Some(t), Some((l, _))) => b.typed_at(t, how.min(2), seed, l)?,
        };
        let now = b.level();
        g.log(|| format!("{what} size {} align {:#x} how {how}{} -> {}", layout.size(), layout.align(),
            match at { Some((l, _)) => format!(" at {l:?}"), None => String::new() },
            match &r { Ok(x) => format!("Ok(base+{}, {:?})", x.addr.wrapping_sub(lo), x.level), Err(e) => format!("{e:?}") }));
        // The model's verdict.
        let off = (base + consumed).checked_next_multiple_of(layout.align()).map_or(usize::MAX, |a| a - base);
        let fits = layout.size() == 0 || off.checked_add(layout.size()).map_or(false, |e| e <= len);
        let is_stale = at.map_or(false, |(l, _)| l != current);
        stale += is_stale as u32;
        match r {
            Ok(got) => {
                if oracle == Oracle::Exact {
                    ensure!(!is_stale, "a call at stale level {:?} succeeded while the level was {current:?}", at.unwrap().0);
                    ensure!(fits, "allocation of {layout:?} succeeded although it does not fit ({consumed} of {len} used)");
                }
                ensure!(got.addr % layout.align() == 0, "allocation of {layout:?} is misaligned: {:#x}", got.addr);
                if layout.size() == 0 {
                    ensure!(now == current, "zero-sized allocation changed the level from {current:?} to {now:?}");
                    g.label("zero-sized");
                    continue;
                }
                succ += 1;
                ensure!(got.addr >= lo && got.addr - lo <= span && layout.size() <= span - (got.addr - lo),
                    "allocation of {layout:?} at {:#x} leaves the allocator [{lo:#x}; {span}]", got.addr);
                for o in &blocks {
                    ensure!(got.addr + layout.size() <= o.addr || o.addr + o.size <= got.addr,
                        "allocation [{:#x}; {}] overlaps an earlier one [{:#x}; {}]", got.addr, layout.size(), o.addr, o.size);
                }
                if oracle == Oracle::Exact {
                    ensure!(got.addr == base + off, "allocation of {layout:?} at storage offset {} instead of {off}", got.addr.wrapping_sub(base));
                    consumed = off + layout.size();
                    ensure!(now > current, "level did not grow: {current:?} then {now:?}");
                    if let Some(l) = got.level { ensure!(l == now, "returned level {l:?} but the level is {now:?}"); }
                    full |= consumed == len;
                } else {
                    consumed = (got.addr + layout.size()).saturating_sub(lo + span - len.min(span)).min(len);
                }
                if got.written {
                    ensure!(unsafe { marked(got.addr, layout.size(), seed) }, "value placed by the allocator does not read back");
                } else {
                    if oracle == Oracle::Exact {
                        for i in 0..layout.size().min(WHOLE) {
                            if let Some(x) = image.get(off + i).copied().flatten() {
                                let y = unsafe { std::ptr::read_volatile((got.addr + i) as *const u8) };
                                ensure!(x == y, "byte {} of the storage is {y:#x} when handed out, it was {x:#x}", off + i);
                            }
                        }
                    }
                    unsafe { mark(got.addr, layout.size(), seed) }
                }
                if !image.is_empty() { for i in 0..layout.size() { image[off + i] = Some(pattern(seed, i)); } }
                ensure!(b.level() == now, "writing to an allocation changed the allocator's level");
                blocks.push(Block { addr: got.addr, size: layout.size(), seed, layout });
                current = now;
                levels.push((now, consumed));
            }
            Err(e) => {
                exhausted += (e == Fail::Exhausted) as u32;
                if layout.size() == 0 {
                    ensure!(at.is_some() && matches!(e, Fail::Mismatch(_)), "zero-sized request failed with {e:?}");
                }
                if oracle == Oracle::Exact {
                    ensure!(now == current, "failed call changed the level from {current:?} to {now:?}");
                    match e {
                        Fail::Exhausted if is_stale => {
                            let c = at.unwrap().1;
                            let soff = (base + c).checked_next_multiple_of(layout.align()).map_or(usize::MAX, |a| a - base);
                            let sfits = soff.checked_add(layout.size()).map_or(false, |e| e <= len);
                            ensure!(!(fits && sfits), "{layout:?} reported as exhausted although it fits at the stale and at the current level");
                        }
                        Fail::Exhausted => ensure!(!fits, "{layout:?} reported as exhausted although it fits at offset {off} of {len}"),
                        Fail::Mismatch(o) => {
                            ensure!(is_stale, "mismatch reported for a call at the current level");
                            ensure!(o == current, "mismatch reports {o:?} but the level is {current:?}");
                        }
                    }
                }
            }
        }
        for o in &blocks {
            ensure!(unsafe { marked(o.addr, o.size, o.seed) }, "content of the allocation [{:#x}; {}] was disturbed", o.addr, o.size);
        }
        if blocks.iter().map(|o| o.size).sum::<usize>() > len { return Err("more bytes handed out than the storage has".into()); }
    }
    g.label_if(exhausted > 0, "exhausted");
    g.label_if(stale > 0, "stale level");
    g.label_if(resets > 0, "reset");
    g.label_if(full, "filled to the last byte");
    g.label_if(succ >= 5, "5+ allocations");
    if succ >= 2 && (exhausted > 0 || stale > 0 || oracle == Oracle::Sound) { g.nontrivial(); }
    Ok(())
}

fn any_large(g: &mut Src, mut f: impl FnMut(&mut Src, &mut dyn Alc, Init) -> R) -> R {
    let f = &mut f;
    match g.upto(3) {
        0 => with_storage::<[u8; 65_600]>(g, f, "[u8;65600]"),
        1 => with_storage::<[u64; 9_000]>(g, f, "[u64;9000]"),
        2 => with_storage::<[u8; 140_001]>(g, f, "[u8;140001]"),
        _ => with_storage::<[A64; 300]>(g, f, "[A64;300]"),
    }
}
/// Allocators of several GiB, made in place from zero pages and reset.
fn any_huge(g: &mut Src, f: impl FnOnce(&mut Src, &mut dyn Alc, Init) -> R) -> R {
    fn on<T: 'static>(g: &mut Src, f: impl FnOnce(&mut Src, &mut dyn Alc, Init) -> R, name: &str) -> R {
        let at = g.skewed(64) * align_of::<Bump<T>>();
        let pages = untracked(|| Pages::new(size_of::<Bump<T>>() + 8192));
        g.log(|| format!("Bump<{name}> at a page + {at}"));
        // SAFETY: every bit pattern is allowed for the storage and the counter, which is reset.
        let b = unsafe { &mut *((pages.0 + at) as *mut Bump<T>) };
        b.reset();
        f(g, b, Init::Unknown)
    }
    match g.upto(2) {
        0 => on::<[u8; p2(32) + 1000]>(g, f, "[u8; 4GiB+1000]"),
        1 => on::<[u8; 5 * p2(32) + 4096]>(g, f, "[u8; 20GiB+4096]"),
        _ => on::<[u64; (1 << 28) + 100]>(g, f, "[u64; 2GiB/8+100]"),
    }
}
fn run_sound(g: &mut Src) -> R { any_storage(g, |g, b, i| history(g, b, i, Oracle::Sound)) }
fn run_exact(g: &mut Src) -> R { any_storage(g, |g, b, i| history(g, b, i, Oracle::Exact)) }
fn large_sound(g: &mut Src) -> R { any_large(g, |g, b, i| history(g, b, i, Oracle::Sound)) }
fn large_exact(g: &mut Src) -> R { any_large(g, |g, b, i| history(g, b, i, Oracle::Exact)) }
fn huge_sound(g: &mut Src) -> R { any_huge(g, |g, b, i| history(g, b, i, Oracle::Sound)) }
fn huge_exact(g: &mut Src) -> R { any_huge(g, |g, b, i| history(g, b, i, Oracle::Exact)) }
const LARGE: &str = "the same on storages of 64 KiB to 140 KiB";
const HUGE: &str = "the same on storages of 2 to 20 GiB in untouched pages; of the largest blocks only parts are compared";

pub fn c01() -> Prop {
    Prop { id: "C01", assumptions: vec!["levels passed in come from the same allocator, as documented"], subs: vec![Sub {
        name: "history", cases: (3_200_000, 36_000_000), run: run_sound, track: true,
        rule: "random call histories (16 storage types, address offsets in steps of the alignment, raw/typed/leak/box/at-level calls); non-trivial: at least two successful non-empty allocations" },
        Sub { name: "large", cases: (8_000, 200_000), run: large_sound, track: true, rule: LARGE },
        Sub { name: "huge", cases: (20_000, 400_000), run: huge_sound, track: true, rule: HUGE }] }
}
pub fn c02() -> Prop {
    Prop { id: "C02", assumptions: vec!["levels passed in come from the same allocator, as documented"], subs: vec![Sub {
        name: "history", cases: (3_200_000, 36_000_000), run: run_exact, track: true,
        rule: "random call histories against an exact offset model; non-trivial: at least two successful non-empty allocations and an exhausted or stale call" },
        Sub { name: "large", cases: (8_000, 200_000), run: large_exact, track: true, rule: LARGE },
        Sub { name: "huge", cases: (20_000, 400_000), run: huge_exact, track: true, rule: HUGE }] }
}
