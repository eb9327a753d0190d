//! C03, second part: the unmodified build under real threads.
use std::alloc::Layout;
use std::mem::size_of;
use std::sync::Barrier;

use pbt::{ensure, Prop, Src, Sub, R};
use static_alloc::bump::{Failure, Level};
use static_alloc::Bump;

const ROUNDS: usize = 6;

fn run(g: &mut Src) -> R {
    let n = g.range(2, 4);
    let progs: Vec<Vec<(Layout, u8)>> = (0..n).map(|_| {
        let k = g.range(2, 40);
        (0..k).map(|_| (Layout::from_size_align(1 + g.skewed(40), 1 << g.skewed(6)).unwrap(), g.upto(2) as u8)).collect()
    }).collect();
    g.log(|| format!("{n} threads, {:?} calls", progs.iter().map(|p| p.len()).collect::<Vec<_>>()));
    g.nontrivial();
    for _ in 0..ROUNDS {
        let bump: Bump<[u64; 128]> = Bump::uninit();
        let barrier = Barrier::new(n);
        let out: Vec<Vec<Result<(usize, Layout, Option<Level>, u8), (Layout, Failure)>>> = std::thread::scope(|s| {
            let hs: Vec<_> = progs.iter().enumerate().map(|(t, p)| {
                let (bump, barrier) = (&bump, &barrier);
                s.spawn(move || {
                    barrier.wait();
                    let mut out = Vec::new();
                    for (i, &(l, how)) in p.iter().enumerate() {
                        let seed = (t * 64 + i) as u8;
                        let r = match how {
                            0 => bump.get_layout(l).map(|a| (a.ptr, Some(a.level))).ok_or(Failure::Exhausted),
                            1 => bump.alloc(l).map(|p| (p, None)).ok_or(Failure::Exhausted),
                            _ => bump.get_layout_at(l, bump.level()).map(|a| (a.ptr, Some(a.level))),
                        };
                        out.push(match r {
                            Ok((p, lv)) => {
                                unsafe { std::ptr::write_bytes(p.as_ptr(), seed, l.size()) }
                                Ok((p.as_ptr() as usize, l, lv, seed))
                            }
                            Err(e) => Err((l, e)),
                        });
                    }
                    out
                })
            }).collect();
            hs.into_iter().map(|h| h.join().map_err(|_| "an allocating thread panicked")).collect::<Result<Vec<_>, _>>()
        })?;
        let (lo, len) = (&bump as *const _ as usize, size_of::<Bump<[u64; 128]>>());
        let mut all: Vec<(usize, Layout, Option<Level>, u8)> = out.iter().flatten().filter_map(|r| r.as_ref().ok().copied()).collect();
        for (t, o) in out.iter().enumerate() {
            let mut prev = None;
            for r in o {
                if let Ok((_, _, Some(l), _)) = r { ensure!(prev.map_or(true, |p| *l > p), "thread {t}: level did not grow"); prev = Some(*l); }
            }
        }
        all.sort_by_key(|a| a.0);
        let mut top = None;
        for (i, (a, l, lv, seed)) in all.iter().enumerate() {
            ensure!(a % l.align() == 0 && *a >= lo && a + l.size() <= lo + len, "misaligned or out of bounds");
            if let Some(b) = all.get(i + 1) { ensure!(a + l.size() <= b.0, "overlapping allocations"); }
            ensure!((0..l.size()).all(|k| unsafe { *((a + k) as *const u8) } == *seed), "content of an allocation was overwritten");
            if let Some(x) = lv {
                ensure!(top.map_or(true, |t| *x > t), "levels are not in the order of the allocations");
                top = Some(*x);
            }
        }
        let fin = bump.level();
        ensure!(top.map_or(true, |t| t <= fin), "final level below a level handed out");
        if let Some((_, _, Some(l), _)) = all.last() { ensure!(*l == fin, "final level is not the highest handed out"); }
        if out.iter().flatten().any(|r| matches!(r, Err((_, Failure::Mismatch { .. })))) { g.label("contended: mismatch seen"); }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop { id: "C03", assumptions: vec![], subs: vec![Sub { name: "real-threads", cases: (30_000, 300_000), run, track: false,
        rule: "2-4 operating system threads with 2-40 random calls each on a shared 1 KiB allocator, six rounds per case; all cases count as non-trivial" }] }
}
