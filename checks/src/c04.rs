//! C04: the bump allocator as a global and as a local allocator.
use std::alloc::{AllocError, Allocator, GlobalAlloc, Layout};
use std::collections::{BTreeMap, VecDeque};
use std::mem::size_of;
use std::ptr::NonNull;

use alloc_traits::{Allocation, LocalAlloc, NonZeroLayout};
use pbt::{ensure, ensure_eq, Prop, Src, Sub, R};
use static_alloc::Bump;

use crate::vals::*;

struct Blk { addr: usize, layout: Layout, size_init: usize, seed: u64 }

fn nz(l: Layout) -> NonZeroLayout { NonZeroLayout::from_layout(l.into()).unwrap() }

fn gen_layout(g: &mut Src, left: usize, len: usize) -> Layout {
    let max = if g.chance(1, 8) { 12 } else { 5 };
    let align = 1usize << g.skewed(max);
    Layout::from_size_align(gen_size(g, left, len), align).unwrap()
}
fn gen_size(g: &mut Src, left: usize, len: usize) -> usize {
    match g.weighted(&[24, 8, 4, 4, 2, 1]) {
        0 => 1 + g.skewed(32),
        1 => 1 + g.skewed(len),
        2 => left.max(1),
        3 => left + 1 + g.skewed(8),
        4 => (isize::MAX as usize >> 1) + g.skewed(1000),
        _ => near_pow2(g, 40),
    }
}

fn contract<T: 'static>(g: &mut Src, name: &'static str) -> R {
    let mut bump: Box<Bump<T>> = Box::new(Bump::uninit());
    let len = size_of::<T>();
    // The memory starts dirty: written through an allocation, then handed back by a reset.
    if g.bool() {
        if let Some(p) = bump.alloc(Layout::from_size_align(len, 1).unwrap()) { unsafe { fill(p.as_ptr() as usize, len, 77) } }
        bump.reset();
    }
    let (lo, obj) = (&*bump as *const _ as usize, size_of::<Bump<T>>());
    let mut live: Vec<Blk> = Vec::new();
    let (mut n, mut reallocs, mut failed, mut dealloced, mut zeroed) = (0, 0, 0, 0, 0);
    let mut spent = 0usize;
    g.log(|| format!("Bump<{name}>, {len} bytes"));
    while g.more(n, 16, 60) {
        n += 1;
        let seed = g.upto(0xFFFF);
        let left = len.saturating_sub(spent);
        let local = g.bool();
        match g.weighted(&[5, 4, 8, 3]) {
            op @ (0 | 1) => {
                let l = gen_layout(g, left, len);
                let p = unsafe {
                    if local {
                        let r = if op == 0 { LocalAlloc::alloc(&*bump, nz(l)) } else { LocalAlloc::alloc_zeroed(&*bump, nz(l)) };
                        if let Some(a) = &r { ensure!(a.layout.size().get() >= l.size() && a.layout.align() >= l.align(), "allocation reports a smaller layout than requested"); }
                        r.map_or(0, |a| a.ptr.as_ptr() as usize)
                    } else if op == 0 { GlobalAlloc::alloc(&*bump, l) as usize } else { GlobalAlloc::alloc_zeroed(&*bump, l) as usize }
                };
                g.log(|| format!("{}{} {l:?} -> {}", if local { "local " } else { "" }, ["alloc", "alloc_zeroed"][op], if p == 0 { "null".into() } else { format!("+{}", p - lo) }));
                if p == 0 { failed += 1; continue; }
                check(&live, lo, obj, p, l, None)?;
                if op == 1 {
                    zeroed += 1;
                    ensure!((0..l.size()).all(|i| unsafe { *((p + i) as *const u8) } == 0), "zeroed allocation of {l:?} is not zero");
                }
                unsafe { fill(p, l.size(), seed) }
                spent += l.size();
                live.push(Blk { addr: p, layout: l, size_init: l.size(), seed });
            }
            2 if !live.is_empty() => {
                let i = g.upto(live.len() as u64 - 1) as usize;
                let old = &live[i];
                let size = match g.upto(4) { 4 => old.layout.size().saturating_mul(g.range(2, 8)).min(1 << 20), 0 => (old.layout.size() + g.skewed(20)).max(1), 1 => old.layout.size().saturating_sub(g.skewed(20)).max(1), _ => gen_size(g, left, len) };
                let align = if local { 1usize << g.skewed(7) } else { old.layout.align() };
                let Ok(l) = Layout::from_size_align(size, align) else { continue };
                let p = unsafe {
                    if local {
                        let a = Allocation { ptr: NonNull::new_unchecked(old.addr as *mut u8), layout: nz(old.layout), lifetime: Default::default() };
                        let r = LocalAlloc::realloc(&*bump, a, nz(l));
                        if let Some(a) = &r { ensure!(a.layout.size().get() >= l.size() && a.layout.align() >= l.align(), "reallocation reports a smaller layout than requested"); }
                        r.map_or(0, |a| a.ptr.as_ptr() as usize)
                    } else { GlobalAlloc::realloc(&*bump, old.addr as *mut u8, old.layout, size) as usize }
                };
                g.log(|| format!("{}realloc +{} {:?} -> {l:?}: {}", if local { "local " } else { "" }, old.addr - lo, old.layout, if p == 0 { "null".into() } else { format!("+{}", p - lo) }));
                if p == 0 {
                    failed += 1;
                    g.label("failed realloc");
                } else {
                    reallocs += 1;
                    check(&live, lo, obj, p, l, Some(i))?;
                    let keep = l.size().min(old.layout.size()).min(old.size_init);
                    ensure!(unsafe { filled(p, keep, old.seed) }, "reallocation from {:?} to {l:?} lost the common prefix", old.layout);
                    g.label_if(p != live[i].addr, "moved by realloc");
                    g.label_if(l.size() < live[i].layout.size(), "shrunk");
                    unsafe { fill(p, l.size(), seed) }
                    spent += l.size();
                    live[i] = Blk { addr: p, layout: l, size_init: l.size(), seed };
                }
            }
            3 if !live.is_empty() => {
                let i = g.upto(live.len() as u64 - 1) as usize;
                let b = live.swap_remove(i);
                dealloced += 1;
                g.log(|| format!("dealloc +{}", b.addr - lo));
                unsafe {
                    if local { LocalAlloc::dealloc(&*bump, Allocation { ptr: NonNull::new_unchecked(b.addr as *mut u8), layout: nz(b.layout), lifetime: Default::default() }) }
                    else { GlobalAlloc::dealloc(&*bump, b.addr as *mut u8, b.layout) }
                }
            }
            _ => {}
        }
        for b in &live {
            ensure!(unsafe { filled(b.addr, b.size_init, b.seed) }, "content of the live block +{} {:?} changed", b.addr - lo, b.layout);
        }
    }
    g.label_if(failed > 0, "exhausted");
    g.label_if(zeroed > 0, "zeroed");
    g.label_if(reallocs > 0, "realloc");
    g.label_if(dealloced > 0, "dealloc");
    if reallocs > 0 && (failed > 0 || reallocs > 1) { g.nontrivial(); }
    Ok(())
}
fn check(live: &[Blk], lo: usize, obj: usize, p: usize, l: Layout, except: Option<usize>) -> R {
    ensure!(p % l.align() == 0, "block of {l:?} misaligned: {p:#x}");
    ensure!(p >= lo && p - lo <= obj && l.size() <= obj - (p - lo), "block of {l:?} outside of the allocator");
    for (i, b) in live.iter().enumerate() {
        if Some(i) == except { continue; }
        ensure!(p + l.size() <= b.addr || b.addr + b.layout.size() <= p, "block of {l:?} overlaps a live block");
    }
    Ok(())
}
fn contract_any(g: &mut Src) -> R {
    match g.upto(6) {
        6 => contract::<[u8; 3000]>(g, "[u8;3000]"),
        0 => contract::<[u8; 100]>(g, "[u8;100]"),
        1 => contract::<[u8; 512]>(g, "[u8;512]"),
        2 => contract::<[u64; 20]>(g, "[u64;20]"),
        3 => contract::<A64>(g, "A64"),
        4 => contract::<[u8; 37]>(g, "[u8;37]"),
        _ => contract::<A4096>(g, "A4096"),
    }
}

fn contract_large(g: &mut Src) -> R {
    match g.upto(2) {
        0 => contract::<[u8; 70_000]>(g, "[u8;70000]"),
        1 => contract::<[u64; 20_000]>(g, "[u64;20000]"),
        _ => contract::<[u8; 300_000]>(g, "[u8;300000]"),
    }
}

/// The bump allocator behind the standard collections' allocator parameter, by way of the global
/// allocator interface only.
#[derive(Clone, Copy)]
struct ByGlobal<'a>(&'a Bump<[u8; 1 << 19]>);
unsafe impl std::alloc::AllocatorClone for ByGlobal<'_> {}
unsafe impl Allocator for ByGlobal<'_> {
    fn allocate(&self, l: Layout) -> Result<NonNull<[u8]>, AllocError> {
        if l.size() == 0 { return Ok(NonNull::slice_from_raw_parts(l.dangling_ptr(), 0)); }
        let p = NonNull::new(unsafe { GlobalAlloc::alloc(self.0, l) }).ok_or(AllocError)?;
        Ok(NonNull::slice_from_raw_parts(p, l.size()))
    }
    fn allocate_zeroed(&self, l: Layout) -> Result<NonNull<[u8]>, AllocError> {
        if l.size() == 0 { return Ok(NonNull::slice_from_raw_parts(l.dangling_ptr(), 0)); }
        let p = NonNull::new(unsafe { GlobalAlloc::alloc_zeroed(self.0, l) }).ok_or(AllocError)?;
        Ok(NonNull::slice_from_raw_parts(p, l.size()))
    }
    unsafe fn deallocate(&self, p: NonNull<u8>, l: Layout) { if l.size() > 0 { GlobalAlloc::dealloc(self.0, p.as_ptr(), l) } }
    unsafe fn grow(&self, p: NonNull<u8>, old: Layout, new: Layout) -> Result<NonNull<[u8]>, AllocError> { self.re(p, old, new) }
    unsafe fn shrink(&self, p: NonNull<u8>, old: Layout, new: Layout) -> Result<NonNull<[u8]>, AllocError> { self.re(p, old, new) }
}
impl ByGlobal<'_> {
    unsafe fn re(&self, p: NonNull<u8>, old: Layout, new: Layout) -> Result<NonNull<[u8]>, AllocError> {
        if old.size() == 0 || new.size() == 0 || old.align() != new.align() {
            let q = self.allocate(new)?;
            std::ptr::copy_nonoverlapping(p.as_ptr(), q.cast::<u8>().as_ptr(), old.size().min(new.size()));
            self.deallocate(p, old);
            return Ok(q);
        }
        let q = NonNull::new(GlobalAlloc::realloc(self.0, p.as_ptr(), old, new.size())).ok_or(AllocError)?;
        Ok(NonNull::slice_from_raw_parts(q, new.size()))
    }
}

fn collections(g: &mut Src) -> R {
    let mut bump: Box<Bump<[u8; 1 << 19]>> = unsafe {
        let mut b = Box::<Bump<[u8; 1 << 19]>>::new_uninit();
        b.as_mut_ptr().write(Bump::uninit());
        b.assume_init()
    };
    if g.chance(1, 4) { let p = bump.alloc(Layout::new::<[u8; 2000]>()).unwrap(); unsafe { fill(p.as_ptr() as usize, 2000, 5) }; bump.reset(); }
    let a = ByGlobal(&bump);
    let mut v1: Vec<u32, _> = Vec::new_in(a);
    let mut v2: Vec<[u8; 5], _> = Vec::new_in(a);
    let mut d: VecDeque<u64, _> = VecDeque::new_in(a);
    let mut m: BTreeMap<u8, u64, _> = BTreeMap::new_in(a);
    let mut bx: Vec<Box<u128, ByGlobal>> = Vec::new();
    let (mut r1, mut r2, mut rd, mut rm, mut rb) = (Vec::<u32>::new(), Vec::<[u8; 5]>::new(), VecDeque::<u64>::new(), BTreeMap::<u8, u64>::new(), Vec::<u128>::new());
    let mut n = 0;
    while g.more(n, 40, 90) {
        n += 1;
        let x = g.upto(0xFFFF_FFFF);
        let op = g.upto(14);
        g.log(|| format!("op {op} arg {x:#x}"));
        match op {
            0 | 1 => { v1.push(x as u32); r1.push(x as u32); }
            2 if r1.len() < 500 => { let k = 1 + x as usize % 40; v1.extend((0..k as u32).map(|i| i ^ x as u32)); r1.extend((0..k as u32).map(|i| i ^ x as u32)); }
            3 => { v1.shrink_to_fit(); }
            4 => { let k = x as usize % (r1.len() + 1); v1.truncate(k); r1.truncate(k); }
            5 => { let k = x as usize % (r1.len() + 1); v1.insert(k, 7); r1.insert(k, 7); }
            6 => { let b = (x as u32).to_le_bytes(); let e = [b[0], b[1], b[2], b[3], 9]; v2.push(e); r2.push(e); }
            7 => { v2.reserve_exact(x as usize % 50); }
            8 => { d.push_back(x); rd.push_back(x); }
            9 => { d.push_front(x); rd.push_front(x); }
            10 => { ensure_eq!(d.pop_front(), rd.pop_front(), "VecDeque::pop_front"); }
            11 => { ensure_eq!(m.insert(x as u8, x), rm.insert(x as u8, x), "BTreeMap::insert"); }
            12 => { ensure_eq!(m.remove(&(x as u8)), rm.remove(&(x as u8)), "BTreeMap::remove"); }
            13 => { bx.push(Box::new_in(x as u128 * 3, a)); rb.push(x as u128 * 3); }
            _ => {
                // A request that cannot be met is reported and changes nothing.
                let r = v1.try_reserve(1 << 20);
                ensure!(r.is_err(), "reserving 4 MiB from 512 KiB succeeded");
                g.label("try_reserve failed");
            }
        }
        ensure!(v1 == r1 && v2 == r2, "vector on the bump allocator differs from the reference");
        ensure!(d.iter().eq(rd.iter()), "deque on the bump allocator differs from the reference");
        ensure!(m.iter().eq(rm.iter()), "map on the bump allocator differs from the reference");
        ensure!(bx.iter().map(|b| **b).eq(rb.iter().copied()), "boxes on the bump allocator differ from the reference");
    }
    if n >= 10 { g.nontrivial(); }
    Ok(())
}

pub fn prop() -> Prop {
    Prop { id: "C04", assumptions: vec!["callers keep to the GlobalAlloc and LocalAlloc caller contracts (non-zero sizes, matching layouts)"], subs: vec![
        Sub { name: "contract", cases: (3_000_000, 80_000_000), run: contract_any, track: true,
            rule: "random histories of alloc/alloc_zeroed/realloc/dealloc through both traits on clean or dirty storage; non-trivial: a successful realloc plus another or an exhausted request" },
        Sub { name: "large", cases: (3_000, 80_000), run: contract_large, track: true,
            rule: "the same on storages of 70 to 300 KB" },
        Sub { name: "collections", cases: (200_000, 6_000_000), run: collections, track: true,
            rule: "random operations on Vec, VecDeque, BTreeMap, Box over the bump allocator against the same on the system allocator; non-trivial: 10 or more operations" } ] }
}
