//! C12: panics of user code inside operations on the fixed-capacity vector.
use std::cell::{Cell, RefCell};
use std::panic::resume_unwind;

use pbt::{catch_quiet, ensure, ensure_eq, Prop, Src, Sub, R};
use without_alloc::FixedVec;

use crate::c11::{gen_range, resolve};
use crate::region::Region;
use crate::vals::*;

fn boom() -> ! { resume_unwind(Box::new(Bomb)) }

/// Yields fresh values; panics instead of the item `at`.
struct Source<'a, T> { left: usize, at: usize, n: usize, ids: &'a RefCell<Vec<u32>>, p: std::marker::PhantomData<T> }
impl<T: Tok> Iterator for Source<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.n == self.at { self.n += 1; boom() }
        if self.n >= self.left { return None; }
        self.n += 1;
        let t = T::new();
        self.ids.borrow_mut().push(t.id().unwrap());
        Some(t)
    }
    fn size_hint(&self) -> (usize, Option<usize>) { let n = self.left.saturating_sub(self.n); (n, Some(n)) }
}

/// Wraps an element type with a clone and comparisons that can panic.
struct Cl<T>(T);
thread_local! { static FUSE: Cell<usize> = const { Cell::new(usize::MAX) }; }
fn tick() { let n = FUSE.with(|f| f.get()); FUSE.with(|f| f.set(n.wrapping_sub(1))); if n == 0 { boom() } }

/// The content must be exactly `want` (by identity), everything in it alive.
fn exact<T: Tok>(v: &FixedVec<T>, want: &[u32], what: &str) -> R {
    let ids: Vec<Option<u32>> = v.iter().map(|t| t.id()).collect();
    let want: Vec<Option<u32>> = want.iter().map(|i| Some(*i)).collect();
    ensure!(ids == want, "after {what}: content {ids:?}, expected {want:?}");
    Ok(())
}

fn case<T: Tok>(g: &mut Src) -> R {
    reg_reset();
    let cap = if g.chance(1, 6) { g.range(14, 48) } else { g.range(1, 14) };
    let mut region = Region::new(0, size_of::<T>() * cap);
    let mut v: FixedVec<'static, T> = FixedVec::new(region.slice::<T>(cap).into());
    let mut m: Vec<u32> = vec![];
    let mut leaked: Vec<u32> = vec![]; // elements a drain may have leaked
    let (mut n, mut panics) = (0, 0);
    while g.more(n, 12, 40) {
        n += 1;
        let op = g.weighted(&[6, 5, 1, 6, 4, 3, 2, 3, 3, 2, 2]);
        let what = ["push", "truncate", "clear", "drain", "fill", "extend", "overwrite", "split_borrowed", "iteration", "sort", "pop"][op];
        let len = m.len();
        let bomb = |g: &mut Src, r: std::ops::Range<usize>| -> Option<usize> {
            if r.is_empty() || !g.chance(3, 5) { return None; }
            Some(r.start + g.upto(r.len() as u64 - 1) as usize)
        };
        g.log(|| format!("{what} with {m:?}"));
        match op {
            0 => {
                let k = g.range(1, 4);
                for _ in 0..k {
                    let t = T::new();
                    let id = t.id().unwrap();
                    if let Err(t) = v.push(t) { set_bomb(id); ensure!(catch_quiet(|| drop(t)).is_none(), "a refused element is not dropped"); panics += 1; } else { m.push(id); }
                }
            }
            1 | 2 => {
                let k = if op == 1 { g.range(0, len + 1) } else { 0 };
                let b = bomb(g, k.min(len)..len);
                if let Some(b) = b { set_bomb(m[b]); g.log(|| format!("    element {} panics", m[b])); }
                let ok = catch_quiet(|| if op == 1 { v.truncate(k) } else { v.clear() }).is_some();
                ensure!(ok == b.is_none(), "{what}: the panic of a drop did not propagate");
                panics += b.is_some() as u32;
                match b {
                    None => m.truncate(k),
                    Some(b) => {
                        // How many of the others are dropped before the panic gets out is left open,
                        // but what stays is in order and includes everything that should be kept.
                        let mut ids = vec![];
                        for t in v.iter() { match t.id() { Some(i) => ids.push(i), None => return Err(format!("a dropped element is reachable after a panic in {what}")) } }
                        let mut rest = m.iter();
                        ensure!(ids.iter().all(|i| rest.any(|x| x == i)) && ids.starts_with(&m[..k]) && !ids.contains(&m[b]), "after a panic in {what}: content {ids:?} of {m:?}");
                        m = ids;
                    }
                }
                exact(&v, &m, what)?;
            }
            3 => {
                let r = gen_range(g, len);
                let Some(r2) = resolve(r, len) else {
                    ensure!(catch_quiet(|| drop(v.drain(r))).is_none(), "drain of the invalid range {r:?}");
                    exact(&v, &m, "a refused drain")?;
                    continue;
                };
                let (front, back) = (g.range(0, r2.len()), g.upto(2) as usize);
                let back = back.min(r2.len() - front);
                let b = bomb(g, r2.start + front..r2.end - back);
                let during = g.chance(1, 5); // unwinding while the drain is alive
                let own = g.chance(1, 5) && front > 0; // a value already taken out panics
                g.log(|| format!("    range {r2:?}, {front} taken from the front, {back} from the back, panics {b:?}, dropped by unwinding {during}"));
                if let (Some(b), false, false) = (b, during, own) { set_bomb(m[b]); }
                let ok = catch_quiet(|| {
                    let mut d = v.drain(r);
                    let mut out = vec![];
                    for _ in 0..front { out.push(d.next().unwrap()); }
                    for _ in 0..back { out.push(d.next_back().unwrap()); }
                    if own { set_bomb(out[0].id().unwrap()); drop(out); return; }
                    if during { boom() }
                }).is_some();
                let b = b.filter(|_| !during && !own);
                ensure!(ok == !(during || own || b.is_some()), "drain: the panic did not propagate");
                panics += !ok as u32;
                let want: Vec<u32> = m[..r2.start].iter().chain(&m[r2.end..]).copied().collect();
                if b.is_none() {
                    m = want;
                    exact(&v, &m, "drain")?;
                } else {
                    // Elements of the drained range are gone; the tail may have been lost with them.
                    let mut ids = vec![];
                    for t in v.iter() { match t.id() { Some(i) => ids.push(i), None => return Err("a dropped or moved-out element is reachable after a panic in drain".into()) } }
                    ensure!(ids == want || ids == m[..r2.start], "after a panic in drain: content {ids:?} of {m:?} without {r2:?}");
                    g.label("panic inside drain");
                    leaked.extend(m.iter().filter(|i| !ids.contains(i) && is_alive(**i)));
                    m = ids;
                }
            }
            4 | 5 => {
                let free = cap - len;
                let k = g.range(0, free + 2);
                let at = if g.bool() { g.range(0, k) } else { usize::MAX };
                let ids = RefCell::new(vec![]);
                let it = Source::<T> { left: k, at, n: 0, ids: &ids, p: Default::default() };
                g.log(|| format!("    {k} items for {free} places, source panics at {at}"));
                let r = catch_quiet(|| if op == 4 { let it = v.fill(it); drop(it) } else { v.extend(it) });
                let stored = k.min(free).min(at);
                // Whether the source is asked once more than there are places is not our business.
                if r.is_none() { panics += 1; }
                if at < k.min(free) { ensure!(r.is_none(), "{what}: the panic of the source did not propagate"); g.label("panicking source"); }
                if op == 5 && k > free { ensure!(r.is_none(), "extend beyond the capacity succeeded"); }
                m.extend(&ids.borrow()[..stored]);
                exact(&v, &m, what)?;
                for id in &ids.borrow()[stored..] { ensure!(!is_alive(*id), "item {id} that was not stored is lost"); }
            }
            6 if len > 0 => {
                let k = g.range(0, len - 1);
                let b = g.bool();
                if b { set_bomb(m[k]); panics += 1; }
                let t = T::new();
                let id = t.id().unwrap();
                let ok = catch_quiet(|| if k % 2 == 0 { v[k] = t } else { v.as_mut_slice()[k] = t }).is_some();
                ensure!(ok == !b, "overwrite: the panic of a drop did not propagate");
                m[k] = id;
            }
            7 => {
                let at = g.range(0, cap);
                let b = bomb(g, at.min(len)..len);
                if let Some(b) = b { set_bomb(m[b]); }
                let during = b.is_none() && g.bool();
                let ok = catch_quiet(|| { let p = v.split_borrowed(at); if during { boom() } drop(p); }).is_some();
                ensure!(ok == (b.is_none() && !during), "split_borrowed: the panic did not propagate");
                panics += !ok as u32;
                for id in m.drain(at.min(len)..) { ensure!(!is_alive(id), "element {id} of the borrowed part not dropped"); }
            }
            8 => {
                // User code panics in the middle of an iteration.
                let k = g.range(0, len);
                let mut i = 0;
                let _ = catch_quiet(|| v.iter_mut().for_each(|_| { if i == k { boom() } i += 1; }));
                panics += (k < len) as u32;
            }
            9 => {
                // Panicking comparisons leave a permutation.
                FUSE.with(|f| f.set(g.range(0, 12)));
                let r = catch_quiet(|| v.sort_by(|a, b| { tick(); a.id().cmp(&b.id()) }));
                FUSE.with(|f| f.set(usize::MAX));
                panics += r.is_none() as u32;
                let mut ids: Vec<u32> = v.iter().filter_map(|t| t.id()).collect();
                let now = ids.clone();
                ids.sort();
                m.sort();
                ensure_eq!(ids, m, "elements after sorting");
                m = now;
            }
            10 if len > 0 => {
                let id = m.pop().unwrap();
                set_bomb(id);
                ensure!(catch_quiet(|| drop(v.pop())).is_none(), "pop did not yield the last element");
                panics += 1;
            }
            _ => {}
        }
        reg_errors()?;
        exact(&v, &m, what)?;
        for id in &m { ensure!(is_alive(*id)); }
        ensure!(v.capacity() == cap && v.len() == m.len(), "after {what}: capacity {}, length {}", v.capacity(), v.len());
        leaked.retain(|i| is_alive(*i));
        ensure!(n_alive() == m.len() + leaked.len(), "after {what}: {} elements alive, {} in the vector, {} lost by drains", n_alive(), m.len(), leaked.len());
        region.guards()?;
    }
    if panics >= 2 { g.nontrivial(); }
    // Still usable, then dropped with a panic.
    while v.len() < cap { let t = T::new(); m.push(t.id().unwrap()); ensure!(v.push(t).is_ok(), "push refused below the capacity"); }
    exact(&v, &m, "filling up")?;
    let b = g.bool();
    if b { set_bomb(m[g.upto(m.len() as u64 - 1) as usize]); }
    let ok = catch_quiet(|| drop(v)).is_some();
    ensure!(ok == !b, "the panic of a drop did not propagate from the vector");
    for id in m { ensure!(!is_alive(id), "element {id} not dropped with the vector"); }
    reg_errors()?;
    ensure!(n_alive() == leaked.len(), "{} elements alive at the end, {} lost by drains", n_alive(), leaked.len());
    region.guards()
}

fn history(g: &mut Src) -> R {
    match g.upto(5) { 4 => case::<Tok12>(g), 5 => case::<Tok24>(g), 0 => case::<Tok8>(g), 1 => case::<Tok20>(g), 2 => case::<TokA16>(g), _ => case::<TokA64>(g) }
}

/// Panicking equality, ordering and clone of the elements, with heap-backed elements.
fn compare(g: &mut Src) -> R {
    #[derive(Debug)]
    struct E(Box<u8>);
    impl PartialEq for E { fn eq(&self, o: &E) -> bool { tick(); self.0 == o.0 } }
    impl PartialOrd for E { fn partial_cmp(&self, o: &E) -> Option<std::cmp::Ordering> { tick(); self.0.partial_cmp(&o.0) } }
    impl Clone for E { fn clone(&self) -> E { tick(); E(self.0.clone()) } }
    let (na, nb) = (g.range(0, 6), g.range(0, 6));
    let xs: Vec<u8> = (0..na).map(|_| g.upto(2) as u8).collect();
    let ys: Vec<u8> = (0..nb).map(|_| g.upto(2) as u8).collect();
    let mut ra = Region::new(0, 8 * 8);
    let mut rb = Region::new(0, 8 * 8);
    let mut a: FixedVec<E> = FixedVec::new(ra.slice::<E>(8).into());
    let mut b: FixedVec<E> = FixedVec::new(rb.slice::<E>(8).into());
    a.extend(xs.iter().map(|x| E(Box::new(*x))));
    b.extend(ys.iter().map(|x| E(Box::new(*x))));
    let mut n = 0;
    while g.more(n, 4, 12) {
        n += 1;
        let fuse = g.range(0, 8);
        let op = g.upto(3);
        g.log(|| format!("operation {op} on {xs:?} and {ys:?}, panic after {fuse}"));
        FUSE.with(|f| f.set(fuse));
        let r = match op {
            0 => catch_quiet(|| (a == b) as u64),
            1 => catch_quiet(|| a.partial_cmp(&b).map_or(9, |o| o as i8 as u64)),
            2 => catch_quiet(|| { let before = a.len(); let rest = a.fill(b.iter().cloned()); drop(rest); (a.len() - before) as u64 }),
            _ => catch_quiet(|| { a.extend(b.iter().take(2).cloned()); 0 }),
        };
        FUSE.with(|f| f.set(usize::MAX));
        if r.is_none() { g.nontrivial(); }
        ensure!(b.iter().map(|e| *e.0).eq(ys.iter().copied()), "the source changed");
        let want: Vec<u8> = a.iter().map(|e| *e.0).collect();
        ensure!(want.len() >= na && want[..na] == xs[..], "elements changed by a panicking {op}");
        a.truncate(na);
    }
    drop((a, b));
    ra.guards()?;
    rb.guards()
}

pub fn prop() -> Prop {
    Prop { id: "C12", assumptions: vec!["a drain may leak what it did not deliver when an element panics while being dropped; a second panic during unwinding aborts and is not generated"], subs: vec![
        Sub { name: "history", cases: (1_500_000, 40_000_000), run: history, track: true,
            rule: "operation histories in which drops, sources, closures and comparisons panic at generated points; non-trivial: two or more panics" },
        Sub { name: "compare", cases: (400_000, 8_000_000), run: compare, track: true,
            rule: "panicking equality, ordering and clone of heap-backed elements; non-trivial: a panic" },
        Sub { name: "many", cases: (20_000, 200_000), run: crate::many::c12, track: false,
            rule: "vectors with room for hundreds to more than 65536 elements; a panic of the source and of an element's destructor; non-trivial: room for over 256" } ] }
}
