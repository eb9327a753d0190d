//! C09: dynamically sized stack slices.
use std::mem::{align_of, size_of, MaybeUninit};

use pbt::{catch_quiet, ensure, ensure_eq, Prop, Src, Sub, R};
use static_alloc::leaked::Alloca;

use crate::vals::*;

const BUDGET: usize = 1 << 20;

/// Memory known to be in use: earlier slices and canaries on the stack.
struct Live { addr: usize, size: usize, seed: u64 }
struct Ctx<'g> { g: &'g mut Src, live: Vec<Live>, runs: usize, depth: usize, result: R, big: bool }

/// Large regions: both ends, and a byte per cache line in between.
unsafe fn mark(addr: usize, size: usize, seed: u64) {
    if size <= 4096 { return fill(addr, size, seed) }
    fill(addr, 256, seed);
    fill(addr + size - 256, 256, seed);
    for i in (256..size - 256).step_by(61) { *((addr + i) as *mut u8) = pattern(seed, i); }
}
unsafe fn marked(addr: usize, size: usize, seed: u64) -> bool {
    if size <= 4096 { return filled(addr, size, seed) }
    filled(addr, 256, seed) && filled(addr + size - 256, 256, seed)
        && (256..size - 256).step_by(61).all(|i| std::ptr::read_volatile((addr + i) as *const u8) == pattern(seed, i))
}
fn intact(live: &[Live]) -> R {
    for l in live {
        ensure!(unsafe { marked(l.addr, l.size, l.seed) }, "{} bytes in use at an outer level were disturbed", l.size);
    }
    Ok(())
}

/// What to unwind with.
fn level<V: Plain>(cx: &mut Ctx) -> R {
    let (size, align) = (size_of::<V>(), align_of::<V>());
    let max = if size == 0 { 0 } else { BUDGET / size };
    let fits = max.saturating_sub(1); // (len + 1) elements within the budget
    let len = match cx.g.weighted(&[10, 6, 3, 2, 2]) {
        0 => cx.g.skewed(40),
        1 => { let k = cx.g.upto(21) as usize; let n = (1usize << k) / size.max(1); n.saturating_add(cx.g.upto(4) as usize).saturating_sub(2) } // around the size classes
        2 => cx.g.skewed(max.max(1000)),
        3 => max.saturating_add(cx.g.upto(6) as usize).saturating_sub(3),
        _ if size > 1 && cx.g.bool() => {
            // The size in bytes wraps around to a small one.
            ((1u128 << usize::BITS) * cx.g.range(1, size - 1) as u128).div_ceil(size as u128) as usize + cx.g.skewed(40)
        }
        _ => { let m = [isize::MAX as usize / size.max(1), usize::MAX / size.max(1), usize::MAX]; cx.g.pick(&m).wrapping_sub(cx.g.upto(4) as usize) }
    };
    // Keep the sum over all levels reasonable (the frames themselves cost up to 2 MiB each).
    let must = size == 0 && len < isize::MAX as usize || size > 0 && len <= fits;
    let must_not = size > 0 && len > max;
    let panics = cx.g.chance(1, 8);
    let nest = cx.depth < 4 && cx.g.chance(2, 5);
    let seed = cx.g.upto(0xFFFF);
    cx.g.log(|| format!("{:1$}Alloca::<{2}>({len}){3}", "", cx.depth * 2, V::NAME, if panics { ", closure panics" } else { "" }));
    let canary: [u64; 8] = [plain(seed ^ 0x5555); 8];
    let canary_addr = std::hint::black_box(&canary) as *const _ as usize;
    unsafe { fill(canary_addr, 64, seed ^ 0xAAAA) };
    cx.live.push(Live { addr: canary_addr, size: 64, seed: seed ^ 0xAAAA });
    let n_live = cx.live.len();

    let a = match Alloca::<V>::new(len) {
        None => { ensure!(!must, "a slice of {len} {} was refused", V::NAME); cx.g.label("refused"); cx.live.pop(); return Ok(()) }
        Some(a) => a,
    };
    let rounds = 1 + cx.g.chance(1, 6) as usize;
    for _ in 0..rounds {
        let captured = Tok20::new();
        let (cid, rid) = (captured.id().unwrap(), new_id());
        let runs = cx.runs;
        let (d, r) = (cx.depth, &mut *cx);
        let out: Option<Tok20> = catch_quiet(|| a.run(|s: &mut [MaybeUninit<V>]| {
            let captured = captured;
            r.runs += 1;
            let addr = s.as_mut_ptr() as usize;
            let body = |r: &mut Ctx| -> R {
                ensure!(captured.id() == Some(cid), "the closure's captured value reads {:?}", captured.id());
                ensure!(s.len() == len, "the closure got {} elements of {} instead of {len}", s.len(), V::NAME);
                ensure!(addr % align == 0, "slice of {} at the misaligned address {addr:#x}", V::NAME);
                let bytes = len * size;
                for l in &r.live { ensure!(bytes == 0 || addr + bytes <= l.addr || l.addr + l.size <= addr, "the slice [{addr:#x}; {bytes}] overlaps memory in use [{:#x}; {}]", l.addr, l.size); }
                unsafe { mark(addr, bytes, seed) };
                r.live.push(Live { addr, size: bytes, seed });
                intact(&r.live)?;
                if nest {
                    r.depth = d + 1;
                    let res = one(r);
                    r.depth = d;
                    res?;
                    intact(&r.live)?;
                    r.g.label("nested");
                }
                r.g.label_if(bytes > 4096, "over 4096 bytes");
                r.g.label_if(bytes > BUDGET / 2, "over half the budget");
                Ok(())
            };
            let res = body(r);
            if res.is_err() && r.result.is_ok() { r.result = res; }
            if panics { std::panic::resume_unwind(Box::new(Bomb)); }
            Tok20::with(rid)
        }));
        cx.live.truncate(n_live);
        let ran = cx.runs > runs;
        cx.depth = d;
        if cx.result.is_err() { return Ok(()) }
        ensure!(!must_not || !ran, "a slice of {len} {} was handed out, beyond the budget", V::NAME);
        ensure!(!must || ran, "a slice of {len} {} was refused", V::NAME);
        ensure!(!is_alive(cid), "the closure was not consumed");
        match out {
            Some(t) => {
                ensure!(ran && !panics, "a result without a run");
                ensure!(t.id() == Some(rid), "the result reads {:?}", t.id());
            }
            None => { ensure!(!ran || panics, "running panicked after the closure succeeded"); cx.g.label("panicked"); std::mem::forget(Tok20::with(rid)); }
        }
        intact(&cx.live)?;
        if len * usize::from(must) > 1 && ran { cx.g.nontrivial(); }
    }
    cx.live.pop();
    std::hint::black_box(&canary);
    Ok(())
}

fn one(cx: &mut Ctx) -> R {
    match cx.g.upto(14) {
        0 => level::<u8>(cx), 1 => level::<u16>(cx), 2 => level::<u32>(cx), 3 => level::<u64>(cx), 4 => level::<u128>(cx),
        5 => level::<[u8; 3]>(cx), 6 => level::<[u16; 5]>(cx), 7 => level::<[u8; 17]>(cx), 8 => level::<A16>(cx), 9 => level::<A32>(cx),
        10 => level::<A64>(cx), 11 => level::<()>(cx), 12 => level::<Z64>(cx), 13 => level::<A4096>(cx), _ => level::<Mixed>(cx),
    }
}

fn on_big_stack(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, f).unwrap().join())
        .unwrap_or_else(|p| std::panic::resume_unwind(p))
}
struct Smuggle<T>(T);
unsafe impl<T> Send for Smuggle<T> {}
impl<T> Smuggle<T> { fn get(self) -> T { self.0 } }

fn history(g: &mut Src) -> R {
    let g = Smuggle(g as *mut Src);
    on_big_stack(move || {
        let g = unsafe { &mut *g.get() };
        reg_reset();
        let mut cx = Ctx { g, live: vec![], runs: 0, depth: 0, result: Ok(()), big: false };
        let mut n = 0;
        while cx.g.more(n, 6, 24) {
            n += 1;
            one(&mut cx)?;
            cx.result.clone()?;
        }
        reg_errors()
    })
}

pub fn prop() -> Prop {
    Prop { id: "C09", assumptions: vec!["the thread's stack is large enough for the frames of the nested calls (64 MiB here)"], subs: vec![
        Sub { name: "history", cases: (180_000, 1_500_000), run: history, track: false,
            rule: "sequences of nested, repeated and panicking runs with lengths around every size class, the budget and the address space, over 15 element types; non-trivial: a run of more than one element" } ] }
}
