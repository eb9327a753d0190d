//! C07: histories of creating, merging, using and dropping chained allocators.
use std::mem::{align_of, size_of};

use pbt::{ensure, ensure_eq, track, Prop, Src, Sub, R};
use static_alloc::bump::Failure;
use static_alloc::leaked::LeakBox;
use static_alloc::unsync::Chain;

use crate::vals::*;

struct Alloc { addr: usize, size: usize, seed: u64, block: usize }
/// A block of memory of some chain; `end`: one past the last byte handed out, if any was.
struct Block { id: usize, end: Option<usize> }
struct Model { chain: Chain, blocks: Vec<Block> /* newest last */ }

fn make<V: Plain>(c: &Chain, seed: u64) -> Result<usize, Failure> {
    c.bump_box::<V>().map(|b| LeakBox::into_raw(LeakBox::write(b, plain::<V>(seed))) as usize)
}

fn history(g: &mut Src) -> R {
    let mut chains: Vec<Model> = Vec::new();
    let mut allocs: Vec<Alloc> = Vec::new();
    let mut gone: Vec<(usize, usize)> = Vec::new(); // address in a released block, its id
    let (mut ids, mut n, mut merges, mut old_kept) = (0, 0, 0, 0);
    while g.more(n, 22, 90) {
        n += 1;
        let op = if chains.is_empty() { 0 } else { g.weighted(&[4, 14, 6, 1, 1]) };
        match op {
            0 => {
                let size = match g.weighted(&[8, 3, 1]) { 0 => g.skewed(300), 1 => g.skewed(24), _ => if g.bool() { usize::MAX - g.skewed(1 << 20) } else { isize::MAX as usize + 40 - g.skewed(80) } };
                let huge = size > 1 << 30;
                let inject = g.chance(1, 8);
                let live = track::live();
                if inject { track::set_limit(size.saturating_sub(1)); }
                let r = Chain::new(size);
                track::set_limit(usize::MAX);
                g.log(|| format!("new({size}){} -> {}", if inject { " with failing heap" } else { "" }, r.is_ok()));
                match r {
                    Err(e) => {
                        ensure!(huge || inject, "a chain of {size} bytes was refused");
                        ensure!(e.allocation_size() >= size, "error reports {} bytes for a chain of {size}", e.allocation_size());
                        ensure_eq!(track::live(), live, "heap blocks after a failed creation");
                        g.label("creation failed");
                    }
                    Ok(chain) => {
                        ensure!(!huge, "a chain of {size} bytes was created");
                        ensure!(!inject || size == 0 || track::live() == live, "created from a failing heap");
                        ensure!(chain.capacity() >= size, "capacity {} of a chain of {size} bytes", chain.capacity());
                        ensure_eq!(chain.remaining_capacity(), chain.capacity(), "remaining capacity of a new chain");
                        chains.push(Model { chain, blocks: vec![Block { id: ids, end: None }] });
                        ids += 1;
                    }
                }
            }
            1 => {
                let i = g.upto(chains.len() as u64 - 1) as usize;
                let seed = g.upto(0xFFFF);
                let m = &mut chains[i];
                let (cap, left) = (m.chain.capacity(), m.chain.remaining_capacity());
                macro_rules! types { ($($t:ty),*) => {{
                    const N: &[(&str, usize, usize)] = &[$((<$t as Plain>::NAME, size_of::<$t>(), align_of::<$t>())),*];
                    const F: &[fn(&Chain, u64) -> Result<usize, Failure>] = &[$(make::<$t>),*];
                    let k = g.upto(N.len() as u64 - 1) as usize;
                    (N[k], F[k](&m.chain, seed))
                }} }
                let ((name, size, align), r) = types!(u8, u16, u32, u64, u128, [u32; 3], [u64; 3], [u8; 3], [u8; 17], A16, A32, A64, (), Z64, Mixed);
                let (cap2, left2) = (m.chain.capacity(), m.chain.remaining_capacity());
                g.log(|| format!("chain {i}: bump_box::<{name}> with {left} of {cap} left -> {r:x?}, {left2} left"));
                ensure_eq!(cap2, cap, "capacity after an allocation");
                let newest = m.blocks.last_mut().unwrap();
                let pad = newest.end.map(|e| e.next_multiple_of(align) - e);
                match r {
                    Err(f) => {
                        ensure!(f == Failure::Exhausted, "failed with {f:?}");
                        ensure_eq!(left2, left, "remaining capacity after a failed allocation");
                        ensure!(size > 0 && size + pad.unwrap_or(align - 1) > left, "{name} reported as exhausted with {left} bytes left");
                        g.label("exhausted");
                    }
                    Ok(a) => {
                        ensure!(a % align == 0, "{name} at the misaligned address {a:#x}");
                        if size == 0 { ensure_eq!(left2, left, "remaining capacity after a zero-sized allocation"); continue; }
                        ensure!(size + pad.unwrap_or(0) <= left, "{name} allocated with {left} bytes left");
                        if let Some(e) = newest.end { ensure!(a == e + pad.unwrap(), "{name} not placed at the first free address of the newest block"); }
                        let Some(b) = track::block_of(a) else { return Err(format!("allocation at {a:#x} is not in live heap memory")) };
                        ensure!(a + size <= b.0 + b.1, "allocation leaves its heap block");
                        for o in &allocs { ensure!(a + size <= o.addr || o.addr + o.size <= a, "allocation [{a:#x}; {size}] overlaps [{:#x}; {}]", o.addr, o.size); }
                        let used = left.wrapping_sub(left2);
                        ensure!(used == size + pad.unwrap_or(used.wrapping_sub(size)) && used >= size && used < size + align, "an allocation of {name} consumed {used} bytes");
                        newest.end = Some(a + size);
                        allocs.push(Alloc { addr: a, size, seed, block: newest.id });
                    }
                }
            }
            2 if chains.len() > 1 => {
                let j = g.upto(chains.len() as u64 - 1) as usize;
                let other = chains.swap_remove(j);
                let i = g.upto(chains.len() as u64 - 1) as usize;
                let m = &mut chains[i];
                let (cap, left) = (other.chain.capacity(), other.chain.remaining_capacity());
                g.log(|| format!("chain {i} ({} blocks): chain(<{} blocks>)", m.blocks.len(), other.blocks.len()));
                m.chain.chain(other.chain);
                merges += 1;
                let mut blocks = other.blocks;
                let newest = blocks.pop().unwrap();
                for b in &blocks {
                    g.label("merge released blocks");
                    allocs.retain(|a| { if a.block == b.id { gone.push((a.addr, b.id)); } a.block != b.id });
                }
                m.blocks.push(newest);
                old_kept = old_kept.max(m.blocks.len());
                ensure_eq!((m.chain.capacity(), m.chain.remaining_capacity()), (cap, left), "capacity and remaining capacity after merging");
            }
            3 => {
                let i = g.upto(chains.len() as u64 - 1) as usize;
                let m = chains.swap_remove(i);
                g.log(|| format!("drop chain {i} of {} blocks", m.blocks.len()));
                drop(m.chain);
                for b in &m.blocks { allocs.retain(|a| { if a.block == b.id { gone.push((a.addr, b.id)); } a.block != b.id }); }
            }
            4 => {
                let i = g.upto(chains.len() as u64 - 1) as usize;
                g.log(|| format!("move chain {i}"));
                let m = chains.swap_remove(i);
                chains.push(m);
            }
            _ => {}
        }
        for o in &allocs { ensure!(unsafe { filled(o.addr, o.size, o.seed) }, "content of an allocation in block {} was disturbed", o.block); }
        for a in &allocs { ensure!(track::block_of(a.addr).is_some(), "block {} was released while its chain exists", a.block); }
        // The tracking allocator never reuses an address within a case.
        for (a, id) in &gone { ensure!(track::is_freed(*a), "block {id} was not released with its chain"); }
    }
    g.label_if(old_kept >= 3, "3+ blocks in a chain");
    if merges > 0 && allocs.len() + gone.len() >= 2 { g.nontrivial(); }
    Ok(())
}

/// Chains of very many blocks: released completely, and without exhausting the stack.
fn deep(g: &mut Src) -> R {
    let n = match g.upto(3) { 0 => 65_530 + g.upto(12) as usize, 1 => g.range(1, 5000), _ => g.range(1, 150_000) };
    let size = if g.bool() { g.range(1, 32) } else { g.skewed(200) + 1 };
    let merge = g.bool();
    g.log(|| format!("{n} blocks of {size} bytes, then drop{}", if merge { " by a merge" } else { "" }));
    let (r, grown) = track::counted(|| deep_case(g, n, size, merge));
    r?;
    ensure!(grown == 0, "{grown} heap blocks were not released with their chains");
    Ok(())
}
fn deep_case(g: &mut Src, n: usize, size: usize, merge: bool) -> R {
    let root = Chain::new(size).map_err(|e| format!("{e:?}"))?;
    let mut seen: Vec<(usize, u8)> = Vec::new();
    for i in 0..n {
        root.chain(Chain::new(size).map_err(|e| format!("{e:?}"))?);
        if i % 64 == 0 {
            let b = LeakBox::leak(LeakBox::write(root.bump_box::<u8>().map_err(|e| format!("{e:?}"))?, i as u8)) as *mut u8;
            seen.push((b as usize, i as u8));
        }
    }
    for (a, v) in seen { ensure!(unsafe { *(a as *const u8) } == v, "content of an early allocation changed"); }
    if n > 1000 { g.nontrivial(); }
    if merge {
        // A long tail released by merging.
        let other = Chain::new(size).map_err(|e| format!("{e:?}"))?;
        other.chain(root);
        ensure!(other.bump_box::<u8>().is_ok() || other.remaining_capacity() == 0, "merged chain not usable");
    }
    Ok(())
}

/// Chains of large blocks, most of whose pages are never touched.
fn huge(g: &mut Src) -> R {
    let mut chains: Vec<(Chain, usize)> = Vec::new(); // and what was the remaining capacity
    let mut all: Vec<(usize, usize, usize, u64)> = Vec::new(); // address, size, chain, content
    let (mut n, mut big, mut next) = (0, 0, 0);
    let mut tags: Vec<usize> = Vec::new(); // of each chain, for its allocations
    while g.more(n, 14, 40) {
        n += 1;
        if chains.is_empty() || (chains.len() < 4 && g.chance(1, 5)) {
            let size = g.pick(&[300usize, 65_600, 1 << 24, p2(31), p2(32), 5 * p2(32)]) + g.skewed(5000);
            g.log(|| format!("new({size})"));
            let c = Chain::new(size).map_err(|x| format!("{x:?}"))?;
            ensure!(c.capacity() >= size && c.remaining_capacity() == c.capacity(), "new chain of {size} bytes has capacity {}, {} remaining", c.capacity(), c.remaining_capacity());
            let r = c.remaining_capacity();
            chains.push((c, r));
            tags.push(next);
            next += 1;
            continue;
        }
        let i = g.upto(chains.len() as u64 - 1) as usize;
        if chains.len() > 1 && g.chance(1, 8) {
            let (other, left) = chains.swap_remove(i);
            let tag = tags.swap_remove(i);
            let j = g.upto(chains.len() as u64 - 1) as usize;
            g.log(|| format!("chain {j}: chain(<chain {i}>)"));
            // Of the other chain only its newest block survives; here that is all it ever had, or it
            // is forgotten about.
            chains[j].0.chain(other);
            chains[j].1 = left;
            let gone: Vec<_> = all.iter().filter(|a| a.2 == tag && a.3 > u32::MAX as u64).map(|a| a.0).collect();
            all.retain(|a| !gone.contains(&a.0));
            let to = tags[j];
            for a in all.iter_mut() { if a.2 == to || a.2 == tag { if a.2 == to { a.3 |= 1 << 40; } a.2 = to; } }
            ensure_eq!(chains[j].0.remaining_capacity(), left, "remaining capacity after merging");
            continue;
        }
        let seed = g.upto(0xFFFF);
        let c = &chains[i].0;
        fn go<V>(c: &Chain) -> Result<usize, Failure> { c.bump_box::<V>().map(|b| LeakBox::into_raw(b) as *mut u8 as usize) }
        macro_rules! types { ($($t:ty),*) => {{
            const N: &[(usize, usize)] = &[$((size_of::<$t>(), align_of::<$t>())),*];
            const F: &[fn(&Chain) -> Result<usize, Failure>] = &[$(go::<$t>),*];
            let k = g.upto(N.len() as u64 - 1) as usize;
            (N[k], F[k](c))
        }} }
        let ((size, align), r) = types!(u8, u64, A64, [u8; 65_537], [u16; 40_000], [u8; (1 << 24) + 1], [u64; 1 << 27], [u8; p2(31) - 100], [u8; p2(32) - 8], [u8; p2(32) + 1], [u8; p2(33) + p2(30)]);
        let (left, now) = (chains[i].1, c.remaining_capacity());
        g.log(|| format!("chain {i}: allocate {size} bytes with {left} left: {r:x?}, {now} left"));
        match r {
            Err(f) => {
                ensure!(f == Failure::Exhausted, "failed with {f:?}");
                ensure!(size + align - 1 > left, "{size} bytes reported as exhausted with {left} left");
                ensure_eq!(now, left, "remaining capacity after a failed allocation");
            }
            Ok(a) => {
                ensure!(a % align == 0 && size <= left, "{size} bytes at {a:#x} with {left} left");
                let used = left.wrapping_sub(now);
                ensure!(used >= size && used < size + align, "an allocation of {size} bytes consumed {used}");
                chains[i].1 = now;
                let Some(b) = track::block_of(a) else { return Err(format!("allocation at {a:#x} is not in live heap memory")) };
                ensure!(a + size <= b.0 + b.1, "allocation leaves its heap block");
                for o in &all { if track::block_of(o.0).is_some() { ensure!(a + size <= o.0 || o.0 + o.1 <= a, "allocation [{a:#x}; {size}] overlaps [{:#x}; {}]", o.0, o.1); } }
                unsafe { mark(a, size, seed) }
                all.push((a, size, tags[i], seed));
                big += (size > 1 << 30) as u32;
            }
        }
        for o in &all { ensure!(track::block_of(o.0).is_some(), "a block was released while its chain exists"); }
        for o in &all { ensure!(unsafe { marked(o.0, o.1, o.3 & 0xFFFF) }, "content of an allocation of {} bytes was disturbed", o.1); }
    }
    if big > 0 && all.len() > 2 { g.nontrivial(); }
    Ok(())
}

pub fn prop() -> Prop {
    Prop { id: "C07", assumptions: vec![], subs: vec![
        Sub { name: "history", cases: (7_500_000, 90_000_000), run: history, track: true,
            rule: "random histories over a set of chains (create incl. failing and absurd sizes, allocate typed slots, merge, move, drop) under a heap that records every block; non-trivial: a merge and two allocations" },
        Sub { name: "huge", cases: (30_000, 500_000), run: huge, track: true,
            rule: "chains of blocks of up to 20 GiB in untouched pages and allocations of up to 9 GiB; non-trivial: an allocation over 1 GiB and more than two in all" },
        Sub { name: "deep", cases: (180, 1_500), run: deep, track: false,
            rule: "chains of up to 150000 blocks, dropped whole or released by a merge; non-trivial: more than 1000 blocks" } ] }
}
