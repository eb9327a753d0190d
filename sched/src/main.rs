//! C03: the real thread-safe bump allocator under a scheduler that owns every atomic step.
mod coro;
use std::alloc::{GlobalAlloc, Layout};
use std::cell::{Cell, RefCell};
use std::mem::{align_of, size_of};
use std::rc::Rc;

use coro::Coro;
use pbt::{ensure, Prop, Src, Sub, R};
use alloc_traits::{Allocation, LocalAlloc, NonZeroLayout};
use static_alloc::bump::{Failure, Level};
use static_alloc::leaked::LeakBox;
use static_alloc::Bump;

#[global_allocator]
static GLOBAL: pbt::track::Track = pbt::track::Track;

#[derive(Clone, Copy, Debug)]
enum Call { Layout(Layout), At(Layout, usize), Zst, ZstAt(usize), Leak(u8), LeakAt(u8, usize), Level,
    Boxed(u8), BoxedAt(u8, usize), Slot(u8), Global(Layout), Zeroed(Layout), Local(Layout, bool), Free(usize, bool), Re(usize, usize, bool) }

/// The levels a thread may pass in: what it has seen itself so far (by position, newest first).
#[derive(Clone, Debug)]
enum Res { Alloc { addr: usize, level: Option<Level> }, Exhausted, Mismatch(Level), Level(Level), Nothing }

#[derive(Clone, Debug)]
struct Done { thread: usize, call: Call, layout: Option<Layout>, at: Option<Level>, old: Option<(usize, Layout)>, inv: usize, resp: usize, res: Result<Res, String> }

#[derive(Clone, Copy)] #[repr(C, align(32))] pub struct S96(pub [u8; 96]);

#[repr(align(64))] struct Block(#[allow(dead_code)] [u8; 2048]);
struct Shared { step: Cell<usize>, spurious: Cell<u32>, weak_seen: Cell<u32> }
thread_local! {
    static SHARED: Shared = const { Shared { step: Cell::new(0), spurious: Cell::new(0), weak_seen: Cell::new(0) } };
    static STACKS: RefCell<Vec<Vec<u128>>> = const { RefCell::new(Vec::new()) };
    /// Spurious failures of weak operations are decided by this bit string, consumed in order.
    static SPUR: Cell<u64> = const { Cell::new(0) };
}

fn hook(weak: bool) -> bool {
    if !coro::inside() { return false; }
    coro::yield_now();
    if weak {
        let b = SPUR.get();
        SPUR.set(b >> 1);
        return b & 1 == 1;
    }
    false
}

fn exec<T>(b: &Bump<T>, call: Call, at: Option<Level>, old: Option<(usize, Layout)>, seed: u64) -> Res {
    let raw = |p: *mut u8| if p.is_null() { Res::Exhausted } else { Res::Alloc { addr: p as usize, level: None } };
    fn err(f: Failure) -> Res { match f { Failure::Exhausted => Res::Exhausted, Failure::Mismatch { observed } => Res::Mismatch(observed) } }
    macro_rules! typed { ($k:expr, $m:ident) => { match $k { 0 => $m!(u8), 1 => $m!(u32), 2 => $m!([u16; 3]), _ => $m!(u128) } } }
    match call {
        Call::Layout(l) => match b.get_layout(l) { Some(a) => Res::Alloc { addr: a.ptr.as_ptr() as usize, level: Some(a.level) }, None => Res::Exhausted },
        Call::At(l, _) => match b.get_layout_at(l, at.unwrap()) { Ok(a) => Res::Alloc { addr: a.ptr.as_ptr() as usize, level: Some(a.level) }, Err(e) => err(e) },
        Call::Zst => match b.get::<()>() { Some(a) => Res::Level(a.level), None => Res::Exhausted },
        Call::ZstAt(_) => match b.get_at::<[u64; 0]>(at.unwrap()) { Ok(a) => Res::Level(a.level), Err(e) => err(e) },
        Call::Leak(k) => {
            macro_rules! go { ($t:ty) => { match b.leak(mk::<$t>(seed)) { Ok(r) => Res::Alloc { addr: r as *mut $t as usize, level: None }, Err(e) => err(e.kind()) } } }
            typed!(k, go)
        }
        Call::LeakAt(k, _) => {
            macro_rules! go { ($t:ty) => { match b.leak_at(mk::<$t>(seed), at.unwrap()) { Ok((r, l)) => Res::Alloc { addr: r as *mut $t as usize, level: Some(l) }, Err(e) => err(e.kind()) } } }
            typed!(k, go)
        }
        Call::Level => Res::Level(b.level()),
        Call::Boxed(k) => {
            macro_rules! go { ($t:ty) => { match b.leak_box(mk::<$t>(seed)) { Some(x) => raw(LeakBox::into_raw(x) as *mut u8), None => Res::Exhausted } } }
            typed!(k, go)
        }
        Call::BoxedAt(k, _) => {
            macro_rules! go { ($t:ty) => { match b.leak_box_at(mk::<$t>(seed), at.unwrap()) { Ok(x) => raw(LeakBox::into_raw(x) as *mut u8), Err(e) => err(e) } } }
            typed!(k, go)
        }
        Call::Slot(k) => {
            macro_rules! go { ($t:ty) => { match b.get::<$t>() { Some(a) => Res::Alloc { addr: a.ptr.as_ptr() as usize, level: Some(a.level) }, None => Res::Exhausted } } }
            typed!(k, go)
        }
        Call::Global(l) => raw(unsafe { GlobalAlloc::alloc(b, l) }),
        Call::Zeroed(l) => raw(unsafe { GlobalAlloc::alloc_zeroed(b, l) }),
        Call::Local(l, zeroed) => (if zeroed { LocalAlloc::alloc_zeroed(b, nz(l)) } else { LocalAlloc::alloc(b, nz(l)) }).map_or(Res::Exhausted, |a| raw(a.ptr.as_ptr())),
        Call::Free(_, local) => match old {
            None => Res::Nothing,
            Some((p, l)) => unsafe {
                if local { LocalAlloc::dealloc(b, allocation(p, l)) } else { GlobalAlloc::dealloc(b, p as *mut u8, l) }
                Res::Nothing
            },
        },
        Call::Re(_, size, local) => match old {
            None => Res::Nothing,
            Some((p, l)) => unsafe {
                if local { LocalAlloc::realloc(b, allocation(p, l), nz(Layout::from_size_align(size, l.align()).unwrap())).map_or(Res::Exhausted, |a| raw(a.ptr.as_ptr())) }
                else { raw(GlobalAlloc::realloc(b, p as *mut u8, l, size)) }
            },
        },
    }
}
fn nz(l: Layout) -> NonZeroLayout { NonZeroLayout::from_layout(l.into()).unwrap() }
fn allocation<'a>(p: usize, l: Layout) -> Allocation<'a> {
    Allocation { ptr: std::ptr::NonNull::new(p as *mut u8).unwrap(), layout: nz(l), lifetime: Default::default() }
}
fn mk<T: Copy>(seed: u64) -> T {
    let mut v = std::mem::MaybeUninit::<T>::uninit();
    unsafe { std::ptr::write_bytes(v.as_mut_ptr() as *mut u8, seed as u8, size_of::<T>()); v.assume_init() }
}
fn layout_of(c: Call, old: Option<(usize, Layout)>) -> Option<Layout> {
    let k = |k: u8| Some(match k { 0 => Layout::new::<u8>(), 1 => Layout::new::<u32>(), 2 => Layout::new::<[u16; 3]>(), _ => Layout::new::<u128>() });
    match c {
        Call::Layout(l) | Call::At(l, _) | Call::Global(l) | Call::Zeroed(l) | Call::Local(l, _) => Some(l),
        Call::Leak(x) | Call::LeakAt(x, _) | Call::Boxed(x) | Call::BoxedAt(x, _) | Call::Slot(x) => k(x),
        Call::Re(_, size, _) => old.map(|(_, l)| Layout::from_size_align(size, l.align()).unwrap()),
        _ => None,
    }
}

/// One execution of `prog` under the schedule given by `choose` (which of n runnable threads).
/// `choose` is told who may run, who ran last, and whether that step changed the level.
fn execute<T: 'static>(b: &Bump<T>, span: (usize, usize), prog: &[Vec<Call>], max_steps: usize, choose: &mut dyn FnMut(&[usize], Option<usize>, bool) -> usize)
    -> Result<(Vec<Done>, Vec<Level>), String>
{
    let bp: &'static Bump<T> = unsafe { &*(b as *const Bump<T>) };
    let log: Rc<RefCell<Vec<Done>>> = Rc::new(RefCell::new(Vec::new()));
    SHARED.with(|s| s.step.set(0));
    let initial = b.level();
    let mut coros: Vec<Box<Coro>> = Vec::new();
    for (t, calls) in prog.iter().enumerate() {
        let calls = calls.clone();
        let log = log.clone();
        let stack = STACKS.with(|s| s.borrow_mut().pop()).unwrap_or_else(Coro::new_stack);
        coros.push(Coro::new(stack, Box::new(move || {
            let mut known = vec![initial];
            // What this thread holds: address, layout and content.
            let mut own: Vec<(usize, Layout, u8)> = vec![];
            let inside = |a: usize, n: usize| a >= span.0 && a <= span.1 && n <= span.1 - a;
            for (i, &call) in calls.iter().enumerate() {
                let at = match call {
                    Call::At(_, k) | Call::LeakAt(_, k) | Call::BoxedAt(_, k) | Call::ZstAt(k) => Some(known[known.len() - 1 - k % known.len()]),
                    _ => None,
                };
                let seed = (t * 83 + i + 1) as u8;
                let which = match call { Call::Free(k, _) | Call::Re(k, _, _) if !own.is_empty() => Some(own.len() - 1 - k % own.len()), _ => None };
                let old = which.map(|w| (own[w].0, own[w].1));
                let inv = SHARED.with(|s| s.step.get());
                let mut res = pbt::catch(|| exec(bp, call, at, old, seed as u64));
                let resp = SHARED.with(|s| s.step.get());
                // No other thread runs between here and the next call.
                let byte = |a: usize, i: usize| unsafe { std::ptr::read_volatile((a + i) as *const u8) };
                let layout = layout_of(call, old);
                if let Ok(Res::Alloc { addr, .. }) = res {
                    let l = layout.unwrap();
                    if inside(addr, l.size()) {
                        let written = matches!(call, Call::Leak(_) | Call::LeakAt(..) | Call::Boxed(_) | Call::BoxedAt(..));
                        if written && (0..l.size()).any(|i| byte(addr, i) != seed) { res = Err("result: the value placed does not read back".into()); }
                        if matches!(call, Call::Zeroed(_) | Call::Local(_, true)) && (0..l.size()).any(|i| byte(addr, i) != 0) { res = Err("result: zeroed allocation is not zero".into()); }
                        if let (Call::Re(..), Some(w)) = (call, which) {
                            if (0..l.size().min(own[w].1.size())).any(|i| byte(addr, i) != own[w].2) { res = Err("result: reallocation lost the content".into()); }
                        }
                        for i in 0..l.size() { unsafe { std::ptr::write_volatile((addr + i) as *mut u8, seed) } }
                        match (call, which) { (Call::Re(..), Some(w)) => own[w] = (addr, l, seed), _ => own.push((addr, l, seed)) }
                    }
                }
                if let (Call::Free(..), Some(w)) = (call, which) { own.remove(w); }
                for (a, l, s) in &own {
                    if (0..l.size()).any(|i| byte(*a, i) != *s) { res = Err(format!("disturbance: the allocation at {:#x} of this thread was overwritten", a - span.0)); }
                }
                match &res {
                    Ok(Res::Alloc { level: Some(l), .. }) | Ok(Res::Mismatch(l)) | Ok(Res::Level(l)) => known.push(*l),
                    _ => {}
                }
                log.borrow_mut().push(Done { thread: t, call, layout, at, old, inv, resp, res });
            }
        })));
    }
    // levels[s] is the level after s steps.
    let mut levels = vec![initial];
    let mut last = None;
    let mut runnable: Vec<usize> = Vec::with_capacity(coros.len());
    let mut stuck = false;
    let mut changed = false;
    loop {
        runnable.clear();
        runnable.extend((0..coros.len()).filter(|i| !coros[*i].is_done()));
        if runnable.is_empty() { break; }
        if levels.len() > max_steps { stuck = true; break; }
        let k = runnable[choose(&runnable, last, changed)];
        SHARED.with(|s| s.step.set(levels.len()));
        coros[k].resume();
        last = Some(k);
        levels.push(b.level());
        changed = levels[levels.len() - 1] != levels[levels.len() - 2];
    }
    if stuck { return Err(format!("calls still running after {max_steps} steps")); }
    for c in coros { STACKS.with(|s| s.borrow_mut().push(c.into_stack())); }
    let log = Rc::try_unwrap(log).unwrap().into_inner();
    Ok((log, levels))
}

/// Judge a history. `base`/`len`: the storage; `num`: byte offset each level stands for is derived from allocations.
fn judge(base: usize, len: usize, log: &[Done], levels: &[Level]) -> R {
    let initial = levels[0];
    // Every change of the level must be one successful allocation; walk them in order.
    let mut used = vec![false; log.len()];
    let mut offset: Vec<(Level, usize)> = vec![(initial, 0)]; // level -> consumed bytes
    let mut transitions: Vec<(usize, Level, Level)> = Vec::new();
    for s in 1..levels.len() {
        ensure!(levels[s] >= levels[s - 1], "the level decreased from {:?} to {:?} at step {s}", levels[s - 1], levels[s]);
        if levels[s] != levels[s - 1] { transitions.push((s, levels[s - 1], levels[s])); }
    }
    for d in log { if let Err(e) = &d.res { return Err(format!("thread {} {:?}: unexpected {e}", d.thread, d.call)); } }
    for &(s, from, to) in &transitions {
        let consumed = offset.last().unwrap().1;
        let mut found = None;
        for (i, d) in log.iter().enumerate() {
            if used[i] || !(d.inv <= s && s <= d.resp) { continue; }
            if let Ok(Res::Alloc { addr, level }) = &d.res {
                let l = d.layout.unwrap();
                let off = (base + consumed).next_multiple_of(l.align()) - base;
                // Or the last block grows in place.
                let off = match d.old { Some((p, o)) if *addr == p && p + o.size() == base + consumed && l.size() > o.size() => p - base, _ => off };
                if *addr == base + off && level.map_or(true, |x| x == to) && d.at.map_or(true, |a| a == from) {
                    found = Some((i, off + l.size()));
                    break;
                }
            }
        }
        let Some((i, end)) = found else { return Err(format!("no finished allocation explains the level change {from:?} -> {to:?} at step {s}")) };
        ensure!(end <= len, "allocation past the end of the storage");
        used[i] = true;
        offset.push((to, end));
    }
    let bytes = |l: Level| offset.iter().find(|(x, _)| *x == l).map(|(_, b)| *b);
    let fits_at = |lay: Layout, l: Level| -> bool {
        let c = bytes(l).unwrap_or(len);
        (base + c).checked_next_multiple_of(lay.align()).and_then(|a| (a - base).checked_add(lay.size())).map_or(false, |e| e <= len)
    };
    let mut blocks: Vec<(usize, usize)> = Vec::new();
    for (i, d) in log.iter().enumerate() {
        let during = &levels[d.inv.saturating_sub(1)..=d.resp.min(levels.len() - 1)];
        let who = || format!("thread {} {:?} at {:?} -> {:?} (steps {}..{})", d.thread, d.call, d.at, d.res, d.inv, d.resp);
        match d.res.as_ref().unwrap() {
            Res::Alloc { addr, level } => {
                let l = d.layout.unwrap();
                ensure!(addr % l.align() == 0 && *addr >= base && addr + l.size() <= base + len, "{}: misaligned or out of bounds", who());
                if let Some((p, _)) = d.old { if p == *addr { blocks.retain(|b| b.0 != p); } }
                for (a, n) in &blocks { ensure!(addr + l.size() <= *a || a + n <= *addr, "{}: overlaps another allocation", who()); }
                blocks.push((*addr, l.size()));
                if let Some(x) = level { ensure!(during.contains(x), "{}: returned a level the allocator never had during the call", who()); }
                let in_place = d.old.map_or(false, |(p, o)| p == *addr && l.size() <= o.size());
                ensure!(used[i] || in_place, "{}: success without an exclusive change of the level during the call", who());
            }
            Res::Exhausted => {
                let l = d.layout;
                ensure!(l.is_some(), "{}: zero-sized request exhausted", who());
                let l = l.unwrap();
                let at_bad = d.at.map_or(false, |a| !fits_at(l, a));
                ensure!(at_bad || during.iter().any(|x| !fits_at(l, *x)), "{}: exhausted although it fits at every level during the call", who());
            }
            Res::Mismatch(o) => {
                ensure!(d.at.is_some() && d.at != Some(*o), "{}: mismatch with the level asked for", who());
                ensure!(during.contains(o), "{}: reported a level the allocator did not have during the call", who());
            }
            Res::Nothing => {}
            Res::Level(x) => {
                ensure!(during.contains(x), "{}: a level the allocator did not have during the call", who());
                if let Some(a) = d.at { ensure!(a == *x, "{}: level-checked call succeeded at another level", who()); }
            }
        }
    }
    // Per thread, levels seen never decrease.
    let threads = log.iter().map(|d| d.thread + 1).max().unwrap_or(0);
    for t in 0..threads {
        let mut prev: Option<Level> = None;
        for d in log.iter().filter(|d| d.thread == t) {
            let now = match d.res.as_ref().unwrap() { Res::Alloc { level: Some(l), .. } => Some(*l), Res::Mismatch(l) | Res::Level(l) => Some(*l), _ => None };
            if let (Some(p), Some(n)) = (prev, now) { ensure!(n >= p, "thread {t} saw the level go back from {p:?} to {n:?}"); }
            prev = now.or(prev);
        }
    }
    Ok(())
}

/// The allocator contract alone: blocks of the right layout, disjoint from every block that is in use for
/// sure, that is, whose allocation has returned and whose release has not yet been asked for.
fn judge_contract(base: usize, len: usize, log: &[Done]) -> R {
    // thread, address, size, in use from (step, position in the log), until
    let mut blocks: Vec<(usize, usize, usize, usize, usize)> = Vec::new();
    for d in log {
        let who = || format!("thread {} {:?} -> {:?} (steps {}..{})", d.thread, d.call, d.res, d.inv, d.resp);
        if let Err(e) = &d.res { return Err(format!("{}: unexpected {e}", who())); }
        let Ok(Res::Alloc { addr, .. }) = d.res else {
            if let (Call::Free(..), Some((p, _))) = (d.call, d.old) { for b in blocks.iter_mut() { if b.0 == d.thread && b.1 == p && b.4 == usize::MAX { b.4 = d.inv; } } }
            continue;
        };
        if let Some((p, _)) = d.old { for b in blocks.iter_mut() { if b.0 == d.thread && b.1 == p && b.4 == usize::MAX { b.4 = d.inv; } } }
        let l = d.layout.unwrap();
        ensure!(addr % l.align() == 0 && addr >= base && addr + l.size() <= base + len, "{}: misaligned or out of bounds", who());
        blocks.push((d.thread, addr, l.size(), d.resp, usize::MAX));
    }
    for (i, a) in blocks.iter().enumerate() {
        for b in &blocks[..i] {
            let overlap = a.1 < b.1 + b.2 && b.1 < a.1 + a.2;
            ensure!(!overlap || a.3.max(b.3) >= a.4.min(b.4), "the blocks at {} ({} bytes) of thread {} and at {} ({} bytes) of thread {} overlap while both are in use", b.1 - base, b.2, b.0, a.1 - base, a.2, a.0);
        }
    }
    Ok(())
}

fn gen_layout(g: &mut Src, len: usize) -> Layout {
    let align = 1usize << g.skewed(5);
    let size = match g.weighted(&[6, 3, 1]) { 0 => 1 + g.skewed(12), 1 => 1 + g.skewed(len), _ => len + g.skewed(2) };
    Layout::from_size_align(size.max(1), align).unwrap()
}
fn gen_call(g: &mut Src, len: usize, contract: bool) -> Call {
    if contract {
        return match g.weighted(&[4, 2, 4, 4, 5]) {
            0 => Call::Global(gen_layout(g, len)),
            1 => Call::Zeroed(gen_layout(g, len)),
            2 => Call::Local(gen_layout(g, len), g.chance(1, 3)),
            3 => Call::Free(g.skewed(3), g.bool()),
            _ => Call::Re(g.skewed(3), 1 + g.skewed(24), g.bool()),
        };
    }
    match g.weighted(&[16, 10, 2, 2, 8, 6, 4, 2, 2, 2, 2, 2, 3, 3, 2]) {
        14 => Call::Local(gen_layout(g, len), g.bool()),
        0 => Call::Layout(gen_layout(g, len)),
        1 => Call::At(gen_layout(g, len), g.skewed(2)),
        2 => Call::Zst,
        3 => Call::ZstAt(g.skewed(1)),
        4 => Call::Leak(g.upto(3) as u8),
        5 => Call::LeakAt(g.upto(3) as u8, g.skewed(2)),
        6 => Call::Level,
        7 => Call::Boxed(g.upto(3) as u8),
        8 => Call::BoxedAt(g.upto(3) as u8, g.skewed(2)),
        9 => Call::Slot(g.upto(3) as u8),
        10 => Call::Global(gen_layout(g, len)),
        11 => Call::Zeroed(gen_layout(g, len)),
        12 => Call::Free(g.skewed(3), g.bool()),
        _ => Call::Re(g.skewed(3), 1 + g.skewed(24), g.bool()),
    }
}

fn on<T: 'static>(g: &mut Src, max_threads: usize, max_calls: usize, mode: Mode) -> R {
    atomic_polyfill::set_hook(Some(hook));
    // At a chosen address modulo 64, whatever the address space layout.
    let mut block = std::mem::MaybeUninit::<Block>::uninit();
    let al = align_of::<Bump<T>>();
    let at = g.upto((64 / al) as u64 - 1) as usize * al;
    assert!(size_of::<Bump<T>>() + at <= size_of::<Block>());
    let b = unsafe { let p = (block.as_mut_ptr() as *mut u8).add(at) as *mut Bump<T>; p.write(Bump::uninit()); &mut *p };
    let len = size_of::<T>();
    let base = b.get_layout(Layout::new::<u8>()).ok_or("fresh allocator cannot allocate a byte")?.ptr.as_ptr() as usize;
    b.reset();
    // Some of the space may be gone before the threads start.
    if g.chance(1, 2) {
        let n = 1 + g.skewed(len - 1);
        if n < len { let _ = b.alloc(Layout::from_size_align(n, 1).unwrap()); }
    }
    let start = b.level();
    let nt = g.range(2, max_threads);
    let contract = matches!(mode, Mode::Contract | Mode::ContractAll);
    let prog: Vec<Vec<Call>> = (0..nt).map(|t| {
        let n = if mode == Mode::Starved { if t == 0 { 1 } else { g.range(8, max_calls) } } else { g.range(1, max_calls) };
        (0..n).map(|_| if mode == Mode::Starved && t > 0 { Call::Layout(Layout::from_size_align(1 + g.skewed(3), 1).unwrap()) } else { gen_call(g, len, contract) }).collect()
    }).collect();
    g.log(|| format!("storage {len} bytes at address {at} mod 64, level at the start {start:?}"));
    for (t, p) in prog.iter().enumerate() { g.log(|| format!("thread {t}: {p:?}")); }
    let pre = match start_bytes(b, start, len) { Ok(p) => p, Err(e) => return Err(e) };
    let run = |g: &mut Src, b: &mut Bump<T>, choose: &mut dyn FnMut(&[usize], Option<usize>, bool) -> usize| -> Result<bool, String> {
        restore(b, start, pre);
        let (log, levels) = execute(b, (base, base + len), &prog, if mode == Mode::Starved { 100_000 } else { 3000 }, choose)?;
        let r = if contract { judge_contract(base + pre, len - pre, &log) } else { judge(base + pre, len - pre, &log, &levels) };
        if g.logging { for d in &log { g.log(|| format!("  steps {}..{} thread {} {:?} at {:?} -> {:?}", d.inv, d.resp, d.thread, d.call, d.at, d.res)); } }
        r?;
        // Contended: some call saw the level change under it.
        Ok(log.iter().any(|d| levels[d.inv.saturating_sub(1)] != levels[d.resp.min(levels.len() - 1)] && !matches!(d.res, Ok(Res::Alloc { .. }))
            || log.iter().any(|e| e.thread != d.thread && e.inv < d.resp && d.inv < e.resp && matches!((&e.res, &d.res), (Ok(Res::Alloc { .. }), Ok(Res::Alloc { .. }))))))
    };
    if matches!(mode, Mode::All | Mode::ContractAll) {
        // All schedules of this program, depth first, up to a bound.
        let mut prefix: Vec<(usize, usize)> = Vec::new(); // (choice, number of options)
        let mut n = 0;
        let mut contended = false;
        loop {
            let mut pos = 0;
            SPUR.set(0);
            let c = {
                let prefix = &mut prefix;
                let pos = &mut pos;
                run(g, b, &mut |r, _, _| {
                    if *pos == prefix.len() { prefix.push((0, r.len())); }
                    let c = prefix[*pos].0;
                    *pos += 1;
                    c
                })
            };
            contended |= match c {
                Ok(c) => c,
                Err(e) => { g.log(|| format!("schedule {:?}", prefix.iter().map(|p| p.0).collect::<Vec<_>>())); return Err(e) }
            };
            n += 1;
            prefix.truncate(pos);
            while let Some((c, k)) = prefix.last_mut() { if *c + 1 < *k { *c += 1; break; } prefix.pop(); }
            if prefix.is_empty() { g.label("all schedules"); break; }
            if n >= 3000 { g.label("first 3000 schedules"); break; }
        }
        g.log(|| format!("{n} schedules"));
        if contended && n > 1 { g.nontrivial(); }
    } else {
        let sticky = g.upto(3);
        SPUR.set(if g.chance(1, 2) { g.upto(u32::MAX as u64) } else { 0 });
        let g2 = std::ptr::from_mut(g);
        let c = run(g, b, &mut |r, last, changed| {
            // SAFETY: `run` does not touch the generator while the schedule is being chosen.
            let g = unsafe { &mut *g2 };
            if mode == Mode::Starved {
                // Thread 0 gets a step only after another one changed the level under it.
                if r.len() == 1 || r[0] != 0 { return if r.len() == 1 { 0 } else { g.upto(r.len() as u64 - 1) as usize }; }
                if changed && last != Some(0) { return 0; }
                return if r.len() == 2 { 1 } else { g.range(1, r.len() - 1) };
            }
            if let Some(i) = last.and_then(|l| r.iter().position(|x| *x == l)) { if sticky > 0 && g.upto(3) < sticky { return i; } }
            if r.len() == 1 { 0 } else { g.upto(r.len() as u64 - 1) as usize }
        })?;
        if c { g.nontrivial(); g.label("contended"); }
    }
    Ok(())
}
/// How many bytes are consumed at the level the threads start from: the exact offset of the next byte.
fn start_bytes<T>(b: &mut Bump<T>, start: Level, len: usize) -> Result<usize, String> {
    b.reset();
    if b.level() == start { return Ok(0); }
    for n in 1..=len {
        b.reset();
        let a = b.alloc(Layout::from_size_align(n, 1).unwrap());
        ensure!(a.is_some(), "allocation of {n} of {len} bytes failed after a reset");
        if b.level() == start { return Ok(n); }
    }
    Err("level not reachable by a single allocation".into())
}
fn restore<T>(b: &mut Bump<T>, _start: Level, pre: usize) {
    b.reset();
    if pre > 0 { let _ = b.alloc(Layout::from_size_align(pre, 1).unwrap()); }
}

#[derive(Clone, Copy, PartialEq)]
enum Mode { Random, All, Starved, Contract, ContractAll }
fn any(g: &mut Src, threads: usize, calls: usize, ex: Mode) -> R {
    match g.upto(5) {
        0 => on::<[u8; 16]>(g, threads, calls, ex),
        1 => on::<[u8; 40]>(g, threads, calls, ex),
        2 => on::<u64>(g, threads, calls, ex),
        3 => on::<[u64; 16]>(g, threads, calls, ex),
        4 => on::<[u8; 5]>(g, threads, calls, ex),
        _ => on::<S96>(g, threads, calls, ex),
    }
}
fn random(g: &mut Src) -> R { any(g, 4, 5, Mode::Random) }
fn exhaustive(g: &mut Src) -> R { any(g, 3, 2, Mode::All) }
fn contract(g: &mut Src) -> R { any(g, 3, 6, Mode::Contract) }
fn contract_all(g: &mut Src) -> R { any(g, 2, 3, Mode::ContractAll) }
/// One thread loses every race for a long time.
fn starved(g: &mut Src) -> R {
    if g.bool() { on::<[u8; 300]>(g, 3, 120, Mode::Starved) } else { on::<[u8; 1500]>(g, 3, 300, Mode::Starved) }
}

fn main() {
    pbt::runner::main(vec![Prop { id: "C03", assumptions: vec![
            "atomic operations interleave sequentially consistently: the allocator has a single atomic location, for which weaker orderings allow no further outcome of the operations themselves",
            "the allocator reaches its atomics through the crate's own `polyfill` feature, which the harness replaces by an instrumented copy"],
        subs: vec![
            Sub { name: "random-schedules", cases: (1_200_000, 30_000_000), run: random, track: false,
                rule: "2-4 threads with 1-5 calls each on a small storage, one random schedule over atomic steps (with spurious failures of weak compare-exchange); non-trivial: two overlapping calls of different threads of which both allocate, or a call failed while the level changed under it" },
            Sub { name: "all-schedules", cases: (12_000, 300_000), run: exhaustive, track: false,
                rule: "2-3 threads with 1-2 calls each, all schedules over atomic steps depth first (at most 3000); non-trivial: more than one schedule and contention as above" },
            Sub { name: "starved-schedules", cases: (20_000, 400_000), run: starved, track: false,
                rule: "one call of one thread that gets a step only after another thread has taken the level away from it, against 1-2 threads with 8-300 calls; non-trivial: contention as above" },
        ] },
        Prop { id: "C04", assumptions: vec![
            "atomic operations interleave sequentially consistently",
            "the allocator reaches its atomics through the crate's own `polyfill` feature, which the harness replaces by an instrumented copy"],
        subs: vec![
            Sub { name: "contract-schedules", cases: (300_000, 8_000_000), run: contract, track: false,
                rule: "2-3 threads with 1-6 calls of the allocator traits each (allocate, zeroed, free, reallocate) on a small storage, one random schedule over atomic steps; non-trivial: two overlapping calls of different threads of which both allocate, or a call failed while the level changed under it" },
            Sub { name: "contract-all-schedules", cases: (6_000, 150_000), run: contract_all, track: false,
                rule: "2 threads with 1-3 such calls, all schedules over atomic steps depth first (at most 3000); non-trivial: more than one schedule and contention as above" },
        ] }]);
}
