//! Large numbers: counts, lengths and sizes beyond 2^8 and 2^16.
use std::cell::{Cell, RefCell};

use pbt::{catch_quiet, ensure, ensure_eq, Src, R};

use crate::vals::{near_pow2, Bomb};

thread_local! {
    /// Per value: 1 alive, 2 dropped.
    static STATE: RefCell<Vec<u8>> = const { RefCell::new(vec![]) };
    static ORDER: RefCell<Vec<u32>> = const { RefCell::new(vec![]) };
    static LIVE: Cell<usize> = const { Cell::new(0) };
    static BAD: Cell<Option<u32>> = const { Cell::new(None) };
    static BADS: Cell<u32> = const { Cell::new(0) };
    static BOMB: Cell<Option<u32>> = const { Cell::new(None) };
}
/// A small value that is counted.
pub struct Cnt(u32);
impl Cnt {
    pub fn new() -> Cnt { let id = STATE.with(|s| { let mut s = s.borrow_mut(); s.push(1); s.len() as u32 - 1 }); LIVE.with(|l| l.set(l.get() + 1)); Cnt(id) }
    pub fn id(&self) -> u32 { self.0 }
}
impl Drop for Cnt {
    fn drop(&mut self) {
        let ok = STATE.with(|s| match s.borrow_mut().get_mut(self.0 as usize) { Some(x) if *x == 1 => { *x = 2; true } _ => false });
        if !ok {
            BAD.with(|b| b.set(Some(self.0)));
            BADS.with(|b| { b.set(b.get() + 1); if b.get() > 100_000 { pbt::fatal(&sound().unwrap_err()); } });
            return
        }
        LIVE.with(|l| l.set(l.get() - 1));
        ORDER.with(|o| o.borrow_mut().push(self.0));
        if BOMB.with(|b| b.get()) == Some(self.0) { BOMB.with(|b| b.set(None)); std::panic::resume_unwind(Box::new(Bomb)) }
    }
}
fn reset() { STATE.with(|s| s.borrow_mut().clear()); ORDER.with(|s| s.borrow_mut().clear()); LIVE.with(|l| l.set(0)); BAD.with(|l| l.set(None)); BADS.with(|l| l.set(0)); BOMB.with(|l| l.set(None)); }
fn live() -> usize { LIVE.with(|l| l.get()) }
fn arm(b: Option<u32>) { BOMB.with(|l| l.set(b)) }
fn order() -> Vec<u32> { ORDER.with(|o| std::mem::take(&mut *o.borrow_mut())) }
fn sound() -> R { match BAD.with(|b| b.get()) { None => Ok(()), Some(i) => Err(format!("drop of {i}, which is no live value")) } }
fn finish() -> R { sound()?; ensure_eq!(live(), 0, "values never dropped"); Ok(()) }

/// Around 2^8 mostly, and 2^16 sometimes.
fn count(g: &mut Src) -> usize {
    match g.upto(7) { 0 | 1 => 250 + g.upto(12) as usize, 2 | 3 => g.skewed(600), 4 => 500 + g.upto(30) as usize, 5 => g.skewed(5000), 6 => 65_530 + g.upto(12) as usize, _ => 66_000 + g.skewed(5000) }
}
pub fn on_big_stack(g: &mut Src, f: fn(&mut Src) -> R) -> R {
    struct P(*mut Src);
    unsafe impl Send for P {}
    let p = P(g);
    std::thread::scope(|s| std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || { let p = p; f(unsafe { &mut *p.0 }) }).unwrap().join())
        .unwrap_or_else(|p| std::panic::resume_unwind(p))
}
/// The same sequence, reported briefly.
fn same(got: &[u32], want: &[u32], what: &str) -> R {
    if got == want { return Ok(()) }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    Err(format!("{what}: {} values, expected {}; number {i} is {:?} instead of {:?}", got.len(), want.len(), got.get(i), want.get(i)))
}

#[cfg(feature = "c10")]
pub fn c10(g: &mut Src) -> R {
    use exit_stack::ExitStack;
    use std::pin::Pin;
    fn go<M: Copy + 'static>(g: &mut Src) -> R {
        reset();
        let owner: Pin<Box<ExitStack<M>>> = Box::pin(ExitStack::new());
        let raw = &*owner as *const ExitStack<M> as *mut ExitStack<M>;
        let base = (raw as usize, raw as usize + std::mem::size_of::<ExitStack<M>>());
        // Values at their addresses, in order of registration.
        let mut vs: Vec<(*const Cnt, u32)> = vec![];
        let mut n = 0;
        while n == 0 || g.more(n, 2, 4) {
            n += 1;
            let want = count(g);
            let late = g.chance(1, 3);
            let mut kept = vec![];
            let mut refused = false;
            for i in 0..want {
                let s = unsafe { Pin::new_unchecked(&*raw) };
                let Some(slot) = s.slot::<Cnt>() else { refused = true; break };
                if late && i % 7 == 3 { kept.push(slot); continue }
                let c = Cnt::new();
                let id = c.id();
                let p = if id % 3 == 1 { unsafe { slot.pin_local(c) } } else { slot.pin(c) };
                vs.push((&*p, id));
                if late && i % 50 == 49 { if let Some(slot) = kept.pop() { let c = Cnt::new(); let id = c.id(); let p = slot.pin(c); vs.push((&*p, id)); } }
            }
            for slot in kept { let c = Cnt::new(); let id = c.id(); let p = slot.pin(c); vs.push((&*p, id)); }
            g.log(|| format!("{want} values asked for, {} registered, refused {refused}", vs.len()));
            g.label_if(refused, "refused");
            g.label_if(vs.len() > 65_535, "over 65535 values");
            if vs.len() > 255 { g.nontrivial(); }
            sound()?;
            ensure_eq!(live(), vs.len(), "values alive");
            for (p, id) in &vs {
                let a = *p as usize;
                ensure!(a >= base.0 && a + 4 <= base.1 && a % 4 == 0, "value {id} at {a:#x}");
                ensure!(unsafe { &**p }.id() == *id, "value {id} reads {}", unsafe { &**p }.id());
            }
            order();
            let mut ids: Vec<u32> = vs.drain(..).rev().map(|v| v.1).collect();
            let bomb = if !ids.is_empty() && g.chance(1, 3) { let b = ids[g.upto(ids.len() as u64 - 1) as usize]; Some(b) } else { None };
            arm(bomb);
            let u = || unsafe { Pin::new_unchecked(&mut *raw) };
            let set = g.chance(1, 3);
            g.log(|| format!("{}, panic {bomb:?}", if set { "set" } else { "pop_all" }));
            if set && std::mem::size_of::<M>() < 1 << 16 {
                let m: M = unsafe { std::mem::zeroed() };
                let r = catch_quiet(|| { u().set(m); });
                ensure!(r.is_none() == bomb.is_some(), "the panic of a drop did not propagate");
                catch_quiet(|| u().pop_all());
            } else {
                let r = catch_quiet(|| u().pop_all());
                ensure!(r.is_none() == bomb.is_some(), "the panic of a drop did not propagate");
            }
            sound()?;
            same(&order(), &ids, "values dropped")?;
            ids.clear();
        }
        let last = count(g).min(3000);
        for _ in 0..last {
            let s = unsafe { Pin::new_unchecked(&*raw) };
            let Some(slot) = s.slot::<Cnt>() else { break };
            let c = Cnt::new();
            let id = c.id();
            let p = slot.pin(c);
            vs.push((&*p, id));
        }
        let ids: Vec<u32> = vs.drain(..).rev().map(|v| v.1).collect();
        drop(owner);
        same(&order(), &ids, "values dropped with the stack")?;
        finish()
    }
    on_big_stack(g, |g| match g.upto(7) { 0 => go::<[u64; 400_000]>(g), 1 | 2 => go::<[u64; 30_000]>(g), _ => go::<[u64; 6000]>(g) })
}

/// Elements for vectors.
trait El: Sized + 'static { fn make() -> Self; fn key(&self) -> u32; const COUNTED: bool; }
impl El for Cnt { fn make() -> Self { Cnt::new() } fn key(&self) -> u32 { self.0 } const COUNTED: bool = true; }
thread_local! { static NEXT: Cell<u32> = const { Cell::new(0) }; }
fn next() -> u32 { NEXT.with(|n| { n.set(n.get().wrapping_mul(1_664_525).wrapping_add(1_013_904_223)); n.get() >> 3 }) }
impl El for u8 { fn make() -> Self { next() as u8 } fn key(&self) -> u32 { *self as u32 } const COUNTED: bool = false; }
impl El for u64 { fn make() -> Self { let n = next() as u64; n | !n << 32 } fn key(&self) -> u32 { if *self as u32 == !(*self >> 32) as u32 { *self as u32 } else { u32::MAX } } const COUNTED: bool = false; }
fn make<T: El>(m: &mut Vec<u32>) -> T { let t = T::make(); m.push(t.key()); t }
fn keys<T: El>(s: &[T]) -> Vec<u32> { s.iter().map(|t| t.key()).collect() }

#[cfg(any(feature = "c11", feature = "c12"))]
pub fn c11(g: &mut Src) -> R {
    use crate::region::Region;
    use without_alloc::FixedVec;
    fn go<T: El>(g: &mut Src) -> R {
        reset();
        NEXT.with(|n| n.set(g.upto(0xFFFF) as u32));
        let cap = count(g);
        let size = std::mem::size_of::<T>();
        let mut region = Region::new(g.upto(64 / size as u64 - 1) as usize * size, cap * size + if g.bool() { g.skewed(size - 1) } else { 0 });
        let addr = region.addr();
        let mem = region.memory();
        let mut parts: Vec<(FixedVec<'static, T>, Vec<u32>, usize, usize)> = vec![(if g.bool() { FixedVec::from_unaligned(mem) } else { match mem.cast_slice() { Ok(m) => FixedVec::new(m), Err(_) => return Err("cast of aligned memory refused".into()) } }, vec![], addr, cap)];
        g.log(|| format!("capacity {cap} of {size} bytes each"));
        if cap > 255 { g.nontrivial(); }
        g.label_if(cap > 65_535, "over 65535 elements");
        let mut n = 0;
        while n == 0 || g.more(n, 6, 14) {
            n += 1;
            let i = g.upto(parts.len() as u64 - 1) as usize;
            let k = parts.len();
            let (v, m, addr, cap) = &mut parts[i];
            let (addr, cap) = (*addr, *cap);
            let at = |g: &mut Src, max: usize| match g.upto(3) { 0 => (250 + g.upto(12) as usize).min(max), 1 => (65_530 + g.upto(12) as usize).min(max), _ => g.skewed(max) };
            let op = g.weighted(&[6, 2, 2, 5, 3, 3, 3, 2]);
            g.log(|| format!("[{i}] {} with {} of {cap}", ["fill", "pop/push", "truncate", "drain", "split_borrowed", "split_and_shrink_to", "slice", "extend"][op], m.len()));
            match op {
                0 => {
                    let free = cap - m.len();
                    let k = match g.upto(3) { 0 => free, 1 => free + 3, _ => at(g, free) };
                    let mut left = k;
                    let mut rest = v.fill(std::iter::from_fn(|| { if left == 0 { return None } left -= 1; Some(make::<T>(m)) }));
                    let mut extra = 0;
                    while let Some(_) = rest.next() { extra += 1; }
                    drop(rest);
                    let took = k - extra;
                    ensure_eq!(took, k.min(free), "elements taken by fill");
                    let l = m.len() - extra;
                    m.truncate(l);
                }
                1 => {
                    for _ in 0..g.upto(3) { ensure_eq!(v.pop().map(|t| t.key()), m.pop(), "pop"); }
                    for _ in 0..g.upto(5) {
                        let full = m.len() == cap;
                        let t = make::<T>(m);
                        let ok = v.push(t).is_ok();
                        if !ok { m.pop(); }
                        ensure!(ok != full, "push with {} of {cap}: {ok}", m.len());
                    }
                }
                2 => { let t = at(g, m.len() + 2); v.truncate(t); m.truncate(t); }
                3 => {
                    let (a, b) = { let a = at(g, m.len()); let b = at(g, m.len()); (a.min(b), a.max(b)) };
                    g.log(|| format!("    {a}..{b}"));
                    let tail = m.split_off(b);
                    let mid = m.split_off(a);
                    let (mut lo, mut hi) = (0, mid.len());
                    {
                        let mut d = v.drain(a..b);
                        ensure_eq!(d.len(), mid.len(), "length of a drain");
                        match g.upto(3) {
                            0 => { let mut got = vec![]; for t in d { got.push(t.key()); } same(&got, &mid, "drained")?; }
                            1 => { let mut got = vec![]; for t in d.rev() { got.push(t.key()); } got.reverse(); same(&got, &mid, "drained backwards")?; }
                            _ => {
                                for _ in 0..g.upto(6) {
                                    if lo == hi { break }
                                    if g.bool() { ensure_eq!(d.next().map(|t| t.key()), Some(mid[lo]), "next of a drain"); lo += 1; } else { ensure_eq!(d.next_back().map(|t| t.key()), Some(mid[hi - 1]), "next_back of a drain"); hi -= 1; }
                                }
                                ensure_eq!(d.len(), hi - lo, "length of a drain");
                                same(&keys(d.as_slice()), &mid[lo..hi], "a drain")?;
                            }
                        }
                    }
                    m.extend(tail);
                }
                4 => {
                    let x = at(g, cap);
                    let mut tail = if x < m.len() { m.split_off(x) } else { vec![] };
                    let mut p = v.split_borrowed(x);
                    ensure_eq!(p.capacity(), cap - x, "capacity of the borrowed part");
                    same(&keys(&p), &tail, "the borrowed part")?;
                    while tail.len() < cap - x && g.chance(2, 3) { let t = make::<T>(&mut tail); ensure!(p.push(t).is_ok(), "push into the borrowed part"); }
                    same(&keys(&p), &tail, "the borrowed part")?;
                }
                5 if k < 4 => {
                    let x = at(g, cap);
                    let tail = if x < m.len() { m.split_off(x) } else { vec![] };
                    let w = v.split_and_shrink_to(x);
                    ensure!(v.capacity() == x && w.capacity() == cap - x, "split at {x} of {cap}: {} and {}", v.capacity(), w.capacity());
                    parts[i].3 = x;
                    parts.push((w, tail, addr + x * size, cap - x));
                }
                6 => { let r = at(g, m.len()); v.as_mut_slice().rotate_left(r); m.rotate_left(r); }
                _ => {
                    let free = cap - m.len();
                    let mut left = at(g, free);
                    v.extend(std::iter::from_fn(|| { if left == 0 { return None } left -= 1; Some(make::<T>(m)) }));
                }
            }
            sound()?;
            for (v, m, addr, cap) in &mut parts {
                ensure!(v.len() == m.len() && v.capacity() == *cap, "{} of {} elements, expected {} of {cap}", v.len(), v.capacity(), m.len());
                same(&keys(v), m, "the vector")?;
                ensure!(*cap == 0 || v.as_mut_ptr() as usize == *addr, "the vector is elsewhere");
            }
            if T::COUNTED { ensure_eq!(live(), parts.iter().map(|p| p.1.len()).sum::<usize>(), "elements alive"); }
        }
        region.guards()?;
        drop(parts);
        finish()
    }
    match g.upto(3) { 0 => go::<u8>(g), 1 => go::<u64>(g), _ => go::<Cnt>(g) }
}

#[cfg(feature = "c12")]
pub fn c12(g: &mut Src) -> R {
    use std::mem::MaybeUninit;
    use without_alloc::{FixedVec, Uninit};
    reset();
    let cap = count(g).max(2);
    let mut mem: Vec<MaybeUninit<Cnt>> = Vec::with_capacity(cap);
    unsafe { mem.set_len(cap) };
    let mut v: FixedVec<Cnt> = FixedVec::new(Uninit::from(&mut mem[..]));
    let mut m: Vec<u32> = vec![];
    if cap > 256 { g.nontrivial(); }
    g.label_if(cap > 65_535, "over 65535 elements");
    // Filling stops with a panic, what was taken is in there.
    let stop = if g.bool() { Some(g.skewed(cap - 1)) } else { None };
    let to = if g.bool() { cap } else { g.skewed(cap) };
    let r = catch_quiet(|| { let mut i = 0; let it = std::iter::from_fn(|| { if Some(i) == stop { std::panic::resume_unwind(Box::new(Bomb)) } if i == to { return None } i += 1; Some(make::<Cnt>(&mut m)) }); if to % 2 == 0 { drop(v.fill(it)) } else { v.extend(it) } });
    g.log(|| format!("capacity {cap}, filled with {}, panic at {stop:?}", m.len()));
    ensure!(r.is_none() == (stop.is_some_and(|s| s <= to && s < cap)), "filling {to} of {cap} with a panic at {stop:?}: {}", r.is_some());
    same(&keys(&v), &m, "the vector after filling")?;
    ensure_eq!(live(), m.len(), "elements alive");
    if m.is_empty() { return finish() }
    let pos = if g.bool() { m.len() - 1 - g.skewed(m.len() - 1) } else { (250 + g.upto(12) as usize).min(m.len() - 1) };
    arm(Some(m[pos]));
    let op = g.upto(3);
    let k = g.skewed(m.len() - 1);
    g.log(|| format!("{} of {}, element {pos} panics", ["drop", "truncate", "drain", "clear"][op as usize], m.len()));
    let mut leak = false;
    let mut v = Some(v);
    let r = catch_quiet(|| match op {
        0 => drop(v.take()),
        1 => v.as_mut().unwrap().truncate(k),
        2 => { leak = true; drop(v.as_mut().unwrap().drain(k..)); }
        _ => v.as_mut().unwrap().clear(),
    });
    let hit = match op { 0 | 3 => true, _ => pos >= k };
    ensure!(r.is_none() == hit, "the panic of element {pos} in {} from {k} on: {}", ["drop", "truncate", "drain", "clear"][op as usize], r.is_some());
    arm(None);
    sound()?;
    if let Some(v) = &v {
        let left = keys(v);
        // A part of the elements, in order, without the one that panicked; none of them dropped.
        let keep = match op { 1 | 2 => k, _ => 0 };
        ensure!(left.len() >= keep, "{} elements left of {keep} that were not to be touched", left.len());
        same(&left[..keep], &m[..keep], "elements that were not to be touched")?;
        let mut it = m.iter();
        ensure!(left.iter().all(|x| it.any(|y| x == y)) && (!hit || !left.contains(&m[pos])), "elements out of order or dropped");
        ensure!(STATE.with(|s| { let s = s.borrow(); left.iter().all(|x| s[*x as usize] == 1) }), "a dropped element is in the vector");
        if !leak { ensure_eq!(live(), left.len(), "elements alive"); }
    }
    drop(v);
    sound()?;
    if !leak { finish()?; }
    Ok(())
}

#[cfg(feature = "c13")]
pub fn c13(g: &mut Src) -> R {
    use crate::region::Region;
    use without_alloc::rc::{Rc, Weak};
    reset();
    let l = Rc::<Cnt>::layout();
    let extra = g.skewed(20);
    let mut region = Region::new(0, l.size() + extra);
    let (addr, len) = (region.addr(), region.len());
    let mut strong: Vec<Rc<'static, Cnt>> = vec![Rc::new(Cnt::new(), region.memory())];
    let mut weak: Vec<Weak<'static, Cnt>> = vec![];
    let mut n = 0;
    let mut owned = None;
    while n == 0 || g.more(n, 8, 20) {
        n += 1;
        let k = count(g);
        let op = g.upto(6);
        g.log(|| format!("{} {k} with {} strong, {} weak", ["clone", "downgrade", "drop strong", "drop weak", "upgrade", "clone weak", "unwrap"][op as usize], strong.len(), weak.len()));
        match op {
            0 if strong.len() < 140_000 => if !strong.is_empty() { for _ in 0..k { let c = strong[strong.len() - 1].clone(); strong.push(c); } },
            1 if weak.len() < 140_000 => if let Some(s) = strong.last() { for _ in 0..k { weak.push(Rc::downgrade(s)); } },
            2 => { let t = if g.bool() { strong.len().saturating_sub(k) } else { g.skewed(3).min(strong.len()) }; strong.truncate(t); }
            3 => { let t = if g.bool() { weak.len().saturating_sub(k) } else { g.skewed(3).min(weak.len()) }; weak.truncate(t); }
            4 if strong.len() < 140_000 => if let Some(w) = weak.last() { for _ in 0..k { let u = w.upgrade(); ensure!(u.is_some() == !strong.is_empty(), "upgrade with {} strong: {}", strong.len(), u.is_some()); match u { Some(u) => strong.push(u), None => break } } },
            5 if weak.len() < 140_000 => if !weak.is_empty() { for _ in 0..k { let c = weak[weak.len() - 1].clone(); weak.push(c); } },
            6 => if let Some(s) = strong.pop() {
                match Rc::try_unwrap(s) {
                    Ok((v, w)) => { ensure!(strong.is_empty(), "unwrapped with {} other strong handles", strong.len()); ensure_eq!(live(), 1, "values"); owned = Some(v); weak.push(w); }
                    Err(s) => { ensure!(!strong.is_empty(), "the sole handle was not unwrapped"); strong.push(s); }
                }
            },
            _ => {}
        }
        sound()?;
        g.label_if(strong.len() > 65_536, "over 65536 strong");
        g.label_if(weak.len() > 65_536, "over 65536 weak");
        if strong.len() > 256 || weak.len() > 256 { g.nontrivial(); }
        ensure_eq!(live(), (!strong.is_empty() || owned.is_some()) as usize, "values alive");
        let (sc, wc) = (strong.len(), weak.len());
        if let Some(s) = strong.first_mut() {
            ensure!(Rc::strong_count(s) == sc && Rc::weak_count(s) == wc + 1, "counts {} and {} for {sc} strong and {wc} weak handles", Rc::strong_count(s), Rc::weak_count(s));
            ensure_eq!(s.id(), 0, "the value");
            ensure!(Rc::get_mut(s).is_some() == (sc == 1 && wc == 0), "exclusive access with {sc} strong and {wc} weak handles");
        }
        if let Some(w) = weak.first() { ensure!(w.strong_count() == sc && w.weak_count() == wc + (sc > 0) as usize, "counts {} and {} of a weak handle for {sc} and {wc}", w.strong_count(), w.weak_count()); }
        if sc == 0 {
            // The memory comes back with the last of them only.
            while let Some(w) = weak.pop() {
                match w.try_unwrap() {
                    Ok(mem) => { ensure!(weak.is_empty(), "memory handed back with {} weak handles", weak.len()); ensure!(mem.size() == len && mem.as_ptr() as usize == addr, "{} bytes handed back", mem.size()); }
                    Err(w) => { ensure!(!weak.is_empty(), "the last weak handle was not unwrapped"); drop(w); }
                }
            }
            break;
        }
    }
    drop((strong, weak, owned));
    region.guards()?;
    finish()
}

/// Items for filling, counted when taken.
#[cfg(any(feature = "c17", feature = "c18"))]
pub fn filling(g: &mut Src, basic: bool) -> R {
    use fill::Fill;
    use std::collections::VecDeque;
    reset();
    let cap = count(g);
    let m: Vec<u32>;
    let mut taken: Vec<u32> = vec![];
    let kind = g.upto(5);
    let verb = if basic { g.upto(1) } else { 2 + g.upto(2) };
    let items = match g.upto(3) { 0 => cap, 1 => cap + 1 + g.skewed(20), 2 => cap.saturating_sub(1 + g.skewed(2)), _ => count(g) };
    let have = if g.bool() { 0 } else { g.skewed(cap) };
    g.log(|| format!("container {kind} with {have} of {cap}, {items} items, verb {verb}"));
    if items > 256 && cap - have > 256 { g.nontrivial(); }
    g.label_if(cap > 65_536, "over 65536");
    let hint = match g.upto(5) { 0 => (0, None), 1 => (items, Some(items)), 2 => (1, Some(1)), 3 => { let n = count(g); (n, Some(n)) } 4 => { let n = items.saturating_sub(1 + g.skewed(9)); (n, Some(n)) } _ => (items + 1, Some(items + 1 + g.skewed(9))) };
    struct It<'a, T> { left: usize, hint: (usize, Option<usize>), taken: &'a mut Vec<u32>, f: fn() -> (T, u32) }
    impl<T> Iterator for It<'_, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> { if self.left == 0 { return None } self.left -= 1; let (t, id) = (self.f)(); self.taken.push(id); Some(t) }
        fn size_hint(&self) -> (usize, Option<usize>) { self.hint }
    }
    fn tok() -> (Cnt, u32) { let c = Cnt::new(); let id = c.id(); (c, id) }
    fn unit() -> ((), u32) { ((), 0) }
    fn good() -> (Result<Cnt, Cnt>, u32) { let (c, i) = tok(); (Ok(c), i) }
    fn unit_ok() -> (Result<(), Cnt>, u32) { (Ok(()), 0) }
    // (count or rest, whether a tail was returned)
    macro_rules! go { ($c:expr, $f:expr) => {{
        let it = It { left: items, hint, taken: &mut taken, f: $f };
        match verb {
            0 => { $c.fill(it); (None, None) }
            1 => { let mut it = it; $c.fill(&mut it); (Some(it.left), None) }
            2 => (Some($c.fill_and_keep_tail(it).left), None),
            3 => { let n = $c.fill_count(it); (Some(items.wrapping_sub(n)), None) }
            _ => { let t = $c.checked_fill(it); (t.as_ref().map(|t| t.left), Some(t.is_some())) }
        }
    }} }
    let exact = |got: Vec<u32>, want: &[u32]| same(&got, want, "the container");
    let (out, room) = match kind {
        0 | 3 => {
            let mut v: Vec<Cnt> = Vec::with_capacity(cap);
            for _ in 0..have { v.push(Cnt::new()); }
            m = keys(&v);
            let room = v.capacity() - have;
            if kind == 0 {
                let o = go!(v, tok);
                exact(keys(&v), &[&m[..], &taken[..]].concat())?;
                ensure_eq!(live(), v.len(), "values alive");
                (o, room)
            } else {
                let mut r: Result<Vec<Cnt>, Cnt> = Ok(v);
                let o = go!(r, good);
                let Ok(v) = r else { return Err("an error out of nowhere".into()) };
                exact(keys(&v), &[&m[..], &taken[..]].concat())?;
                (o, room)
            }
        }
        1 => {
            let mut v: VecDeque<Cnt> = VecDeque::with_capacity(cap);
            for _ in 0..have { if v.len() % 3 == 1 { v.push_front(Cnt::new()) } else { v.push_back(Cnt::new()) } }
            m = v.iter().map(|c| c.id()).collect();
            let room = v.capacity() - have;
            let o = go!(v, tok);
            exact(v.iter().map(|c| c.id()).collect(), &[&m[..], &taken[..]].concat())?;
            ensure_eq!(live(), v.len(), "values alive");
            (o, room)
        }
        2 => {
            let mut v: Vec<Cnt> = (0..cap).map(|_| Cnt::new()).collect();
            let before = keys(&v);
            let o = { let mut it = v.iter_mut(); let o = go!(it, tok); ensure_eq!(it.len(), cap - taken.len(), "slots left"); o };
            let mut want = before;
            want[..taken.len()].copy_from_slice(&taken);
            exact(keys(&v), &want)?;
            ensure_eq!(live(), v.len(), "values alive");
            (o, cap)
        }
        4 => { let mut u = (); (go!(u, unit), usize::MAX) }
        _ => { let mut u: Result<(), Cnt> = Ok(()); let o = go!(u, unit_ok); ensure!(u.is_ok(), "an error"); (o, usize::MAX) }
    };
    ensure_eq!(taken.len(), items.min(room), "items taken");
    if let Some(left) = out.0 { ensure_eq!(left, items - taken.len(), "items left"); }
    if let Some(tail) = out.1 { ensure_eq!(tail, items >= room && taken.len() == room, "tail returned"); }
    finish()
}
