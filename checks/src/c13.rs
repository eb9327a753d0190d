//! C13: histories of strong and weak handles, with values that hold handles themselves.
use std::any::Any;
use std::cell::{Cell, RefCell};

use pbt::track::untracked;
use pbt::{catch_quiet, ensure, ensure_eq, Prop, Src, Sub, R};
use without_alloc::rc::{Rc, Weak};
use without_alloc::Uninit;

use crate::region::Region;
use crate::vals::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum State { Alive, Dropping, Gone }
#[derive(Clone)]
struct Node { strong: usize, weak: usize, state: State, moved: bool, addr: usize, mem: usize, len: usize, id: u32 }
thread_local! {
    static NODES: RefCell<Vec<Node>> = const { RefCell::new(Vec::new()) };
    static STASH: RefCell<Vec<Box<dyn Any>>> = const { RefCell::new(Vec::new()) };
}
fn node<X>(k: usize, f: impl FnOnce(&mut Node) -> X) -> X { untracked(|| NODES.with(|n| f(&mut n.borrow_mut()[k]))) }
fn complain(m: impl FnOnce() -> String) { reg(|r| { let m = m(); r.errors.push(m) }) }

/// A shared value: a tracked token, handles to other values, and what to do when dropped.
struct N<T: Tok> { tok: T, node: usize, script: Cell<u64>, inner: RefCell<Vec<H<T>>> }
enum H<T: Tok> { S(usize, Rc<'static, N<T>>), W(usize, Weak<'static, N<T>>) }
/// Whether the value, not merely its memory, is where it was constructed.
impl Node { fn in_place(&self) -> bool { !self.moved && self.state != State::Gone } }
impl<T: Tok> H<T> { fn to(&self) -> usize { match self { H::S(k, _) | H::W(k, _) => *k } } }

/// What the handle reports about its node.
fn look<T: Tok>(h: &H<T>) -> R {
    let n = node(h.to(), |n| n.clone());
    let (s, w) = match h { H::S(_, r) => (Rc::strong_count(r), Rc::weak_count(r)), H::W(_, r) => (r.strong_count(), r.weak_count()) };
    ensure!(s == n.strong, "strong count {s} with {} strong handles", n.strong);
    // All strong handles count as one weak one; while the value is being dropped either is fine.
    let all = n.weak + (n.strong > 0) as usize;
    ensure!(w == all || n.state == State::Dropping && n.in_place() && w == n.weak + 1, "weak count {w} with {} weak and {} strong handles", n.weak, n.strong);
    if let H::S(_, r) = h {
        ensure!(n.state == State::Alive, "a strong handle to a dropped value");
        let v: &N<T> = r;
        ensure!(v as *const N<T> as usize == n.addr, "the value moved from {:#x} to {:p}", n.addr, v);
        ensure!(v.tok.id() == Some(n.id), "the value reads {:?} instead of {}", v.tok.id(), n.id);
    }
    Ok(())
}

/// Let go of a handle, and see that this drops the value exactly if it was the last strong one.
fn release<T: Tok>(h: H<T>) -> R {
    let k = h.to();
    match h {
        H::W(_, w) => { node(k, |n| n.weak -= 1); let before = node(k, |n| n.state); drop(w); ensure!(node(k, |n| n.state) == before, "dropping a weak handle dropped the value"); Ok(()) }
        H::S(_, r) => {
            let last = node(k, |n| { n.strong -= 1; n.strong == 0 });
            let bombed = catch_quiet(|| drop(r)).is_none();
            let st = node(k, |n| n.state);
            ensure!((st == State::Gone) == last, "value {k} is {st:?}, last handle: {last}");
            if bombed { std::panic::resume_unwind(Box::new(Bomb)) }
            Ok(())
        }
    }
}

impl<T: Tok> Drop for N<T> {
    fn drop(&mut self) {
        let k = self.node;
        let n = node(k, |n| n.clone());
        if n.strong != 0 { complain(|| format!("value {k} dropped with {} strong handles", n.strong)); }
        if n.state != State::Alive { complain(|| format!("value {k} dropped while {:?}", n.state)); }
        if self.tok.id() != Some(n.id) { complain(|| format!("dropped value {k} reads {:?}", self.tok.id())); }
        node(k, |n| n.state = State::Dropping);
        let mut script = self.script.get();
        let mut bombed = false;
        let handles: Vec<H<T>> = self.inner.borrow_mut().drain(..).collect();
        for h in handles {
            let act = script % 8;
            script /= 8;
            let r = catch_quiet(|| -> R {
                look(&h)?;
                match h {
                    H::W(to, w) => {
                        let n = node(to, |n| n.clone());
                        let up = w.upgrade();
                        ensure!(up.is_some() == (n.strong > 0), "upgrade inside a drop: {}", up.is_some());
                        if let Some(r) = up { node(to, |n| n.strong += 1); let h = H::S(to, r); look(&h)?; release(h)?; }
                        match act {
                            0 | 1 => {
                                let w2 = w.clone();
                                node(to, |n| n.weak += 1);
                                release(H::W(to, w))?;
                                untracked(|| STASH.with(|s| s.borrow_mut().push(Box::new(H::W(to, w2)) as Box<dyn Any>)));
                                Ok(())
                            }
                            2 | 3 | 4 => unwrap_weak(to, w, &mut |_, _| Ok(())).and_then(|h| match h { Some(h) => release(h), None => Ok(()) }),
                            _ => release(H::W(to, w)),
                        }
                    }
                    h => release(h),
                }
            });
            match r { None => bombed = true, Some(Err(e)) => complain(|| e.clone()), Some(Ok(())) => {} }
        }
        // Just before the token's own drop, which runs no code of ours but the bookkeeping.
        node(k, |n| n.state = State::Gone);
        if bombed { std::panic::resume_unwind(Box::new(Bomb)) }
    }
}

/// `Weak::try_unwrap`, which must succeed exactly for the last handle of a dropped value.
fn unwrap_weak<T: Tok>(k: usize, w: Weak<'static, N<T>>, back: &mut dyn FnMut(usize, Uninit<'static, ()>) -> R) -> Result<Option<H<T>>, String> {
    let n = node(k, |n| n.clone());
    match w.try_unwrap() {
        Ok(mem) => {
            ensure!(n.strong == 0 && !n.in_place(), "the memory of a value in use ({:?}, {} strong handles) was handed back", n.state, n.strong);
            ensure!(n.weak == 1, "memory handed back with {} weak handles", n.weak);
            ensure!(mem.as_ptr() as usize == n.mem && mem.size() == n.len, "{} bytes at {:?} handed back, given were {} at {:#x}", mem.size(), mem.as_ptr(), n.len, n.mem);
            node(k, |n| n.weak = 0);
            back(k, mem)?;
            Ok(None)
        }
        Err(w) => {
            ensure!(n.weak > 1 || n.strong > 0 || n.in_place(), "the last weak handle could not be unwrapped");
            Ok(Some(H::W(k, w)))
        }
    }
}

fn case<T: Tok>(g: &mut Src) -> R {
    reg_reset();
    untracked(|| NODES.with(|n| n.borrow_mut().clear()));
    let layout = Rc::<N<T>>::layout();
    ensure!(layout.size() >= size_of::<N<T>>() && layout.size() > 0 && layout.align() >= align_of::<N<T>>(), "layout {layout:?}");
    let mut regions: Vec<Region> = vec![];
    let mut hs: Vec<H<T>> = vec![];
    let mut owned: Vec<N<T>> = vec![];
    let mut memory: Vec<Uninit<'static, ()>> = vec![];
    let (mut n, mut shared) = (0, 0);
    let mut count = 0usize;
    while g.more(n, 20, 80) {
        n += 1;
        let op = if hs.is_empty() { 0 } else { g.weighted(&[4, 6, 6, 7, 5, 3, 2, 3, 2, 4, 3, 1]) };
        let i = if hs.is_empty() { 0 } else { g.upto(hs.len() as u64 - 1) as usize };
        if op != 0 { g.log(|| format!("{} on handle {i} ({} to {})", ["", "clone", "downgrade/clone weak", "drop", "upgrade", "unwrap", "into_raw", "unwrap weak", "get_mut", "store inside", "take out", "ptr_eq"][op], if let H::S(..) = hs[i] { "strong" } else { "weak" }, hs[i].to())); }
        match op {
            0 => {
                // In fresh memory or memory that was handed back.
                let reuse = !memory.is_empty() && g.bool();
                let mem = if reuse { memory.pop().unwrap() } else {
                    if regions.len() >= 8 { continue; }
                    let bad = g.chance(1, 10);
                    let (off, len) = if bad { (g.range(0, 63), g.range(0, layout.size() + 8)) } else { (0, layout.size() + g.skewed(40)) };
                    regions.push(Region::new(off, len));
                    regions.last_mut().unwrap().memory()
                };
                let (addr, len) = (mem.as_ptr() as usize, mem.size());
                let fits = addr % layout.align() == 0 && len >= layout.size();
                let tok = T::new();
                let id = tok.id().unwrap();
                let k = count;
                count += 1;
                untracked(|| NODES.with(|n| n.borrow_mut().push(Node { strong: 0, weak: 0, state: State::Alive, moved: false, addr: 0, mem: addr, len, id })));
                let val = N { tok, node: k, script: Cell::new(g.upto(511)), inner: RefCell::new(vec![]) };
                let r = catch_quiet(|| Rc::new(val, mem));
                g.log(|| format!("new value {k} in {len} bytes of {}: {}", layout.size(), r.is_some()));
                ensure!(r.is_some() == fits, "construction in {len} bytes at {addr:#x} for {layout:?}: {}", r.is_some());
                match r {
                    None => ensure!(!is_alive(id), "the value was lost"),
                    Some(r) => {
                        let at = &*r as *const N<T> as usize;
                        ensure!(at >= addr && at + size_of::<N<T>>() <= addr + len, "the value is outside of its memory");
                        node(k, |n| { n.strong = 1; n.addr = at });
                        hs.push(H::S(k, r));
                    }
                }
            }
            1 | 2 | 4 if hs.len() < 40 => {
                let new = match (&hs[i], op) {
                    (H::S(k, r), 1 | 4) => { node(*k, |n| n.strong += 1); H::S(*k, r.clone()) }
                    (H::S(k, r), _) => { node(*k, |n| n.weak += 1); H::W(*k, Rc::downgrade(r)) }
                    (H::W(k, w), 1 | 2) => { node(*k, |n| n.weak += 1); H::W(*k, w.clone()) }
                    (H::W(k, w), _) => {
                        let up = w.upgrade();
                        ensure!(up.is_some() == (node(*k, |n| n.strong) > 0), "upgrade: {}", up.is_some());
                        match up { None => continue, Some(r) => { node(*k, |n| n.strong += 1); H::S(*k, r) } }
                    }
                };
                shared += 1;
                hs.push(new);
            }
            3 => {
                let h = hs.swap_remove(i);
                let k = h.to();
                let bomb = g.chance(1, 5) && node(k, |n| n.state == State::Alive);
                let id = node(k, |n| n.id);
                if bomb { set_bomb(id); g.label("panicking drop armed"); }
                let r = catch_quiet(|| release(h));
                if bomb { reg(|r| { r.bombs.remove(&id); }); }
                match r { Some(r) => r?, None => { ensure!(bomb && !is_alive(id), "unexpected panic"); } }
            }
            5 => match hs.swap_remove(i) {
                H::S(k, r) => {
                    let sole = node(k, |n| n.strong) == 1;
                    match Rc::try_unwrap(r) {
                        Ok((v, w)) => {
                            ensure!(sole, "unwrapped with {} strong handles", node(k, |n| n.strong));
                            ensure!(v.tok.id() == Some(node(k, |n| n.id)), "the unwrapped value reads {:?}", v.tok.id());
                            node(k, |n| { n.strong = 0; n.weak += 1; n.moved = true });
                            owned.push(v);
                            hs.push(H::W(k, w));
                            g.label("unwrapped");
                        }
                        Err(r) => { ensure!(!sole, "the sole strong handle could not be unwrapped"); hs.push(H::S(k, r)); }
                    }
                }
                h => hs.push(h),
            },
            6 => match hs.swap_remove(i) {
                H::S(k, r) => {
                    let nd = node(k, |n| n.clone());
                    let sole = nd.strong == 1 && nd.weak == 0;
                    match Rc::into_raw(r) {
                        Ok(mem) => {
                            ensure!(sole, "into_raw with {} strong and {} weak handles", nd.strong, nd.weak);
                            ensure!(mem.as_ptr() as usize == nd.addr && mem.size() == nd.len, "into_raw yields {} bytes at {:?}, given were {} at {:#x}", mem.size(), mem.as_ptr(), nd.len, nd.addr);
                            ensure!(unsafe { mem.as_ref() }.tok.id() == Some(nd.id), "into_raw lost the value");
                            if g.chance(1, 3) {
                                let t = T::new();
                                let id = t.id().unwrap();
                                unsafe { (*mem.as_ptr()).tok = t };
                                node(k, |n| n.id = id);
                            }
                            hs.push(H::S(k, unsafe { Rc::from_raw(mem) }));
                            g.label("raw round trip");
                        }
                        Err(r) => { ensure!(!sole, "into_raw failed for the sole handle"); hs.push(H::S(k, r)); }
                    }
                }
                h => hs.push(h),
            },
            7 => match hs.swap_remove(i) {
                H::W(k, w) => {
                    let mut got = None;
                    let h = unwrap_weak(k, w, &mut |_, m| { got = Some(m); Ok(()) })?;
                    if let Some(m) = got { memory.push(m); g.label("memory handed back"); }
                    hs.extend(h);
                }
                h => hs.push(h),
            },
            8 => if let H::S(k, r) = &mut hs[i] {
                let nd = node(*k, |n| n.clone());
                let got = Rc::get_mut(r);
                ensure!(got.is_some() == (nd.strong == 1 && nd.weak == 0), "get_mut with {} strong and {} weak handles: {}", nd.strong, nd.weak, got.is_some());
                if let Some(v) = got {
                    ensure!(v as *mut N<T> as usize == nd.addr, "get_mut refers to something else");
                    let t = T::new();
                    let id = t.id().unwrap();
                    v.tok = t;
                    let k = *k;
                    node(k, |n| n.id = id);
                }
            },
            9 if hs.len() > 1 => {
                // Handles inside a value: strong ones only towards later values, so that there are no cycles.
                let h = hs.swap_remove(i);
                let j = g.upto(hs.len() as u64 - 1) as usize;
                let target = match (&hs[j], &h) { (H::S(k, r), H::W(..)) => Some((*k, r)), (H::S(k, r), H::S(to, _)) if *k < *to => Some((*k, r)), _ => None };
                match target {
                    Some((_, r)) => { let mut v = r.inner.borrow_mut(); if v.len() < 3 { v.push(h); drop(v); g.label("handle inside a value"); } else { drop(v); hs.push(h); } }
                    None => hs.push(h),
                }
            }
            10 => {
                if !owned.is_empty() && g.bool() {
                    let v = owned.pop().unwrap();
                    let id = v.tok.id();
                    g.log(|| format!("drop the unwrapped value {id:?}"));
                    drop(v);
                    ensure!(!is_alive(id.unwrap()), "unwrapped value not dropped");
                } else if let H::S(_, r) = &hs[i] {
                    let h = r.inner.borrow_mut().pop();
                    hs.extend(h);
                }
            }
            11 => {
                let j = g.upto(hs.len() as u64 - 1) as usize;
                if let (H::S(a, x), H::S(b, y)) = (&hs[i], &hs[j]) { ensure!(Rc::ptr_eq(x, y) == (a == b), "ptr_eq of values {a} and {b}"); }
            }
            _ => {}
        }
        // Handles that escaped from a drop.
        let stashed: Vec<Box<dyn Any>> = untracked(|| STASH.with(|s| s.borrow_mut().drain(..).collect()));
        for b in stashed { let h = untracked(|| *b.downcast::<H<T>>().ok().unwrap()); hs.push(h); g.label("weak handle escaped a drop"); }
        reg_errors()?;
        for h in &hs { look(h)?; }
        for v in &owned { ensure!(v.tok.id() == Some(node(v.node, |n| n.id)), "an unwrapped value changed"); }
        let alive = untracked(|| NODES.with(|n| n.borrow().iter().filter(|n| n.state == State::Alive).count()));
        ensure!(n_alive() == alive, "{} values alive, expected {alive}", n_alive());
        for r in &regions { r.guards()?; }
    }
    if shared >= 4 { g.nontrivial(); }
    while let Some(h) = hs.pop() {
        release(h)?;
        let stashed: Vec<Box<dyn Any>> = untracked(|| STASH.with(|s| s.borrow_mut().drain(..).collect()));
        for b in stashed { hs.push(untracked(|| *b.downcast::<H<T>>().ok().unwrap())); }
        reg_errors()?;
    }
    drop(owned);
    while let Some(b) = untracked(|| STASH.with(|s| s.borrow_mut().pop())) { release(untracked(|| *b.downcast::<H<T>>().ok().unwrap()))?; }
    for r in &regions { r.guards()?; }
    reg_finish()
}

fn history(g: &mut Src) -> R {
    match g.upto(6) { 5 => case::<Tok12>(g), 6 => case::<Tok24>(g), 0 => case::<Tok8>(g), 1 => case::<Tok20>(g), 2 => case::<TokA16>(g), 3 => case::<TokBox>(g), _ => case::<TokA64>(g) }
}

/// Values without a size.
fn zst(g: &mut Src) -> R {
    thread_local! { static D: Cell<usize> = const { Cell::new(0) }; }
    struct Z;
    impl Drop for Z { fn drop(&mut self) { D.with(|d| d.set(d.get() + 1)); } }
    D.with(|d| d.set(0));
    let l = Rc::<Z>::layout();
    let mut region = Region::new(0, l.size() + g.range(0, 8));
    ensure!(l.size() > 0, "empty layout");
    let mut strong = vec![Rc::new(Z, region.memory())];
    let mut weak: Vec<Weak<Z>> = vec![];
    let mut n = 0;
    while g.more(n, 10, 40) {
        n += 1;
        match g.upto(4) {
            0 => if let Some(s) = strong.first() { let s = s.clone(); strong.push(s); },
            1 => if let Some(s) = strong.first() { weak.push(Rc::downgrade(s)); },
            2 => { strong.pop(); }
            3 => { weak.pop(); }
            _ => if let Some(w) = weak.first() { let u = w.upgrade(); ensure!(u.is_some() == !strong.is_empty(), "upgrade"); strong.extend(u); },
        }
        ensure_eq!(D.with(|d| d.get()), strong.is_empty() as usize, "values dropped");
        if let Some(s) = strong.first() { ensure!(Rc::strong_count(s) == strong.len() && Rc::weak_count(s) == weak.len() + 1, "counts"); }
        if let Some(s) = weak.first() { ensure!(s.strong_count() == strong.len() && s.weak_count() == weak.len() + !strong.is_empty() as usize, "counts"); }
        if strong.is_empty() && weak.is_empty() { break; }
    }
    if n > 5 { g.nontrivial(); }
    drop((strong, weak));
    ensure_eq!(D.with(|d| d.get()), 1, "values dropped");
    region.guards()
}

pub fn prop() -> Prop {
    Prop { id: "C13", assumptions: vec![], subs: vec![
        Sub { name: "history", cases: (1_500_000, 40_000_000), run: history, track: true,
            rule: "random histories over handles to several values in regions of memory, with handles stored inside values, drops that use weak handles, let them escape or panic, unwrapping and reuse of the memory; every count checked after each step; non-trivial: four handles made from others" },
        Sub { name: "zst", cases: (300_000, 6_000_000), run: zst, track: true, rule: "zero-sized values; non-trivial: more than 5 steps" },
        Sub { name: "many", cases: (3_000, 60_000), run: crate::many::c13, track: false, rule: "one value with hundreds to more than 65536 strong and weak handles, every count checked; non-trivial: over 256 handles of a kind" } ] }
}
