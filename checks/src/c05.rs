//! C05: provided methods of the local-allocator trait, over an implementor that can fail,
//! over-provide, and records every call.
use std::alloc::Layout;
use std::cell::{Cell, RefCell};
use std::convert::TryFrom;
use std::ptr::NonNull;

use alloc_traits::{util::defaults, Allocation, LocalAlloc, NonZeroLayout};
use pbt::{ensure, ensure_eq, Prop, Src, Sub, R};

use crate::vals::*;

struct Rec { addr: usize, real: Layout, freed: bool, fenced: bool }
struct Heap {
    blocks: RefCell<Vec<Rec>>,
    fail: Cell<bool>,
    /// Hand out blocks whose reported size is this much larger than asked for.
    extra: Cell<usize>,
    extra_align: Cell<u32>,
    /// Blocks end (1) or begin (2) next to memory that cannot be read.
    fence: Cell<u8>,
    fences: Fence,
    errors: RefCell<Vec<String>>,
    log: RefCell<Vec<(char, usize)>>,
}
fn nz(l: Layout) -> NonZeroLayout { NonZeroLayout::from_layout(l.into()).unwrap() }

unsafe impl<'a> LocalAlloc<'a> for Heap {
    fn alloc(&'a self, layout: NonZeroLayout) -> Option<Allocation<'a>> {
        self.log.borrow_mut().push(('a', 0));
        if self.fail.get() { return None; }
        let l: Layout = layout.into();
        let real = Layout::from_size_align(l.size() + self.extra.get(), l.align() << self.extra_align.get()).unwrap();
        let fenced = if self.fence.get() == 0 { None } else { self.fences.place(real.size(), real.align(), self.fence.get() == 2) };
        let p = match fenced { Some(at) => { unsafe { std::ptr::write_bytes(at as *mut u8, 0xC3, real.size()) } at as *mut u8 } None => unsafe { std::alloc::alloc(real) } };
        self.blocks.borrow_mut().push(Rec { addr: p as usize, real, freed: false, fenced: fenced.is_some() });
        Some(Allocation { ptr: NonNull::new(p)?, layout: nz(real), lifetime: Default::default() })
    }
    unsafe fn dealloc(&'a self, alloc: Allocation<'a>) {
        let addr = alloc.ptr.as_ptr() as usize;
        self.log.borrow_mut().push(('d', addr));
        let mut bl = self.blocks.borrow_mut();
        let l: Layout = alloc.layout.into();
        match bl.iter_mut().find(|b| b.addr == addr && !b.freed) {
            None => self.errors.borrow_mut().push("release of a block that is not live".into()),
            Some(b) => {
                if b.real != l { self.errors.borrow_mut().push(format!("block of {:?} released with {l:?}", b.real)); }
                b.freed = true;
                // The content is gone for anyone who still looks.
                std::ptr::write_bytes(b.addr as *mut u8, 0xDE, b.real.size());
            }
        }
    }
}
impl Drop for Heap {
    fn drop(&mut self) { for b in self.blocks.borrow().iter().filter(|b| !b.fenced) { unsafe { std::alloc::dealloc(b.addr as *mut u8, b.real) } } }
}

fn gen_layout(g: &mut Src) -> Layout {
    if g.chance(1, 400) { return Layout::from_size_align(1 + g.skewed(140_000), 1 << g.skewed(14)).unwrap(); }
    Layout::from_size_align(1 + g.skewed(200), 1 << g.skewed(8)).unwrap()
}

fn defaults_case(g: &mut Src) -> R {
    let heap = Heap { blocks: Default::default(), fail: Cell::new(false), extra: Cell::new(0), extra_align: Cell::new(0), fence: Cell::new(0), fences: Fence::new(), errors: Default::default(), log: Default::default() };
    let mut live: Vec<(Allocation, u64)> = Vec::new();
    let (mut n, mut re, mut failed) = (0, 0, 0);
    while g.more(n, 10, 40) {
        n += 1;
        let seed = g.upto(0xFFFF);
        heap.fail.set(g.chance(1, 5));
        heap.extra.set(if g.chance(1, 4) { g.range(1, 40) } else { 0 });
        heap.extra_align.set(if g.chance(1, 6) { 1 } else { 0 });
        heap.fence.set(g.weighted(&[4, 4, 1]) as u8);
        heap.log.borrow_mut().clear();
        let direct = g.bool(); // through the trait, through the public default function, or as an object
        match g.weighted(&[2, 4, 6, 1]) {
            op @ (0 | 1) => {
                let l = gen_layout(g);
                let r = match (op, direct) { (0, _) => heap.alloc(nz(l)), (_, true) => heap.alloc_zeroed(nz(l)), _ => defaults::local::alloc_zeroed(&heap as &dyn LocalAlloc, nz(l)) };
                g.log(|| format!("{} {l:?} -> {}", ["alloc", "alloc_zeroed"][op], r.is_some()));
                if op == 1 {
                    ensure!(r.is_some() != heap.fail.get(), "alloc_zeroed: success {} although the underlying allocation {}", r.is_some(), if heap.fail.get() { "fails" } else { "succeeds" });
                    ensure!(heap.log.borrow().iter().all(|x| x.0 == 'a'), "alloc_zeroed released a block");
                }
                let Some(a) = r else { failed += 1; continue };
                let got: Layout = a.layout.into();
                ensure!(got.size() >= l.size() && got.align() >= l.align() && a.ptr.as_ptr() as usize % l.align() == 0, "allocation of {l:?} returned {got:?}");
                ensure!(heap.blocks.borrow().iter().any(|b| !b.freed && b.addr == a.ptr.as_ptr() as usize && b.real == got), "returned allocation is not the allocator's block");
                ensure!(!live.iter().any(|(o, _)| o.ptr == a.ptr), "returned a block already in use");
                if op == 1 { ensure!((0..got.size()).all(|i| unsafe { *a.ptr.as_ptr().add(i) } == 0), "zeroed allocation of {got:?} is not all zero"); }
                unsafe { fill(a.ptr.as_ptr() as usize, got.size(), seed) }
                live.push((a, seed));
            }
            2 if !live.is_empty() => {
                let i = g.upto(live.len() as u64 - 1) as usize;
                let (old, oseed) = live[i];
                let olay: Layout = old.layout.into();
                let l = match g.upto(2) { 0 => Layout::from_size_align((olay.size() + g.skewed(3)).saturating_sub(g.skewed(3)).max(1), olay.align()).unwrap(), _ => gen_layout(g) };
                let r = unsafe { if direct { heap.realloc(old, nz(l)) } else { defaults::local::realloc(&heap, old, nz(l)) } };
                g.log(|| format!("realloc {olay:?} -> {l:?}: {}", r.is_some()));
                let frees: Vec<usize> = heap.log.borrow().iter().filter(|x| x.0 == 'd').map(|x| x.1).collect();
                let oaddr = old.ptr.as_ptr() as usize;
                match r {
                    None => {
                        failed += 1;
                        g.label("failed realloc");
                        ensure!(heap.fail.get(), "realloc failed although the underlying allocation succeeds");
                        ensure!(frees.is_empty(), "failed realloc released a block");
                    }
                    Some(a) => {
                        re += 1;
                        let got: Layout = a.layout.into();
                        let addr = a.ptr.as_ptr() as usize;
                        ensure!(got.size() >= l.size() && got.align() >= l.align() && addr % l.align() == 0, "realloc to {l:?} returned {got:?}");
                        ensure!(heap.blocks.borrow().iter().any(|b| !b.freed && b.addr == addr && b.real == got), "realloc returned something that is not a live block of the allocator with that layout");
                        if addr != oaddr { ensure!(frees == [oaddr], "realloc released {frees:x?}, the old block is {oaddr:#x}"); }
                        ensure!(!live.iter().enumerate().any(|(k, (o, _))| k != i && o.ptr == a.ptr), "realloc returned another live block");
                        let keep = l.size().min(olay.size());
                        ensure!(unsafe { filled(addr, keep, oseed) }, "realloc from {olay:?} to {l:?} lost the common prefix");
                        g.label_if(l.size() < olay.size(), "shrunk");
                        g.label_if(l.size() > olay.size(), "grown");
                        unsafe { fill(addr, got.size(), seed) }
                        live[i] = (a, seed);
                    }
                }
            }
            3 if !live.is_empty() => {
                let i = g.upto(live.len() as u64 - 1) as usize;
                let (a, _) = live.swap_remove(i);
                unsafe { heap.dealloc(a) }
            }
            _ => {}
        }
        if let Some(e) = heap.errors.borrow().first() { return Err(e.clone()); }
        for (a, s) in &live { ensure!(unsafe { filled(a.ptr.as_ptr() as usize, a.layout.size().get(), *s) }, "content of a live block changed"); }
    }
    // Exactly the blocks still owned are unreleased.
    let open = heap.blocks.borrow().iter().filter(|b| !b.freed).count();
    ensure_eq!(open, live.len(), "blocks not released");
    g.label_if(failed > 0, "failure injected");
    if re > 0 { g.nontrivial(); }
    Ok(())
}

fn layouts(g: &mut Src) -> R {
    let align = 1usize << exp(g.skewed(62));
    let size = match g.weighted(&[1, 3, 2]) { 0 => 0, 1 => g.skewed(5000), _ => g.upto(isize::MAX as u64) as usize };
    let Ok(l) = Layout::from_size_align(size, align) else { return Ok(()) };
    g.log(|| format!("{l:?}"));
    let t: alloc_traits::Layout = l.into();
    ensure!(t.size() == size && t.align() == align, "layout conversion changed {l:?} to {t:?}");
    let back: Layout = t.into();
    ensure!(back == l, "layout round trip changed {l:?} to {back:?}");
    let nzs = [NonZeroLayout::from_layout(t), NonZeroLayout::try_from(t).ok(), NonZeroLayout::try_from(l).ok()];
    for nz in nzs {
        ensure!(nz.is_some() == (size > 0), "{l:?}: non-zero layout exists: {}", nz.is_some());
        if let Some(nz) = nz {
            ensure!(nz.size().get() == size && nz.align() == align, "non-zero layout conversion changed {l:?} to {nz:?}");
            let back: Layout = nz.into();
            ensure!(back == l, "non-zero layout round trip changed {l:?} to {back:?}");
        }
    }
    // Equality of layouts is equality of both parts.
    let align2 = if g.bool() { align } else { 1usize << g.skewed(10) };
    let size2 = if g.bool() { size } else { g.skewed(5000) };
    if let Ok(l2) = Layout::from_size_align(size2, align2) {
        let t2: alloc_traits::Layout = l2.into();
        ensure!((t == t2) == (l == l2), "layout equality of {l:?} and {l2:?}");
        if let (Some(a), Some(b)) = (NonZeroLayout::from_layout(t), NonZeroLayout::from_layout(t2)) { ensure!((a == b) == (l == l2), "non-zero layout equality"); }
    }
    macro_rules! ty { ($($t:ty),*) => { $(
        ensure!(alloc_traits::Layout::new::<$t>().size() == std::mem::size_of::<$t>() && alloc_traits::Layout::new::<$t>().align() == std::mem::align_of::<$t>(), "layout of a type");
        ensure!(NonZeroLayout::new::<$t>().map(|l| (l.size().get(), l.align())) == (std::mem::size_of::<$t>() > 0).then(|| (std::mem::size_of::<$t>(), std::mem::align_of::<$t>())), "non-zero layout of a type");
    )* } }
    ty!(u8, u128, (), [u64; 0], A32, Z64, [u16; 5], (u8, u32));
    if size > 0 { g.nontrivial(); }
    Ok(())
}

pub fn prop() -> Prop {
    Prop { id: "C05", assumptions: vec!["the implementor's own alloc and dealloc honour the trait contract"], subs: vec![
        Sub { name: "defaults", cases: (3_000_000, 80_000_000), run: defaults_case, track: true,
            rule: "random histories of the provided zeroed-allocation and reallocation methods over a recording allocator with injected failures and over-provided blocks; non-trivial: a successful realloc" },
        Sub { name: "layouts", cases: (2_000_000, 20_000_000), run: layouts, track: true,
            rule: "random size/alignment pairs through all layout conversions; non-trivial: non-zero size" } ] }
}
