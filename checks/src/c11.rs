//! C11: the fixed-capacity vector against the standard one.
use std::cell::Cell;
use std::collections::VecDeque;
use std::mem::{self, align_of, size_of};
use std::ops::Bound;

use pbt::{catch_quiet, ensure, ensure_eq, Prop, Src, Sub, R};
use without_alloc::{FixedVec, Uninit};

use crate::region::Region;
use crate::vals::*;

/// A vector, its elements' identities, its memory. `bytes`: not yet given up.
struct V<T: 'static> { v: FixedVec<'static, T>, m: Vec<u32>, addr: usize, cap: usize, bytes: usize }

pub fn gen_range(g: &mut Src, len: usize) -> (Bound<usize>, Bound<usize>) {
    let at = |g: &mut Src| if g.chance(1, 24) { g.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2 + 1]) } else { g.range(0, len + 1) };
    let mut a = at(g);
    let mut b = at(g);
    if a > b && !g.chance(1, 5) { mem::swap(&mut a, &mut b); }
    let lo = match g.upto(4) { 0 | 1 => Bound::Included(a), 2 => Bound::Excluded(a), _ => Bound::Unbounded };
    let hi = match g.upto(4) { 0 | 1 => Bound::Excluded(b), 2 => Bound::Included(b), _ => Bound::Unbounded };
    (lo, hi)
}
pub fn resolve(r: (Bound<usize>, Bound<usize>), len: usize) -> Option<std::ops::Range<usize>> {
    let a = match r.0 { Bound::Included(a) => a, Bound::Excluded(a) => a.checked_add(1)?, Bound::Unbounded => 0 };
    let b = match r.1 { Bound::Excluded(b) => b, Bound::Included(b) => b.checked_add(1)?, Bound::Unbounded => len };
    (a <= b && b <= len).then_some(a..b)
}

fn check<T: Tok>(x: &mut V<T>, what: &str) -> R {
    let ids: Vec<Option<u32>> = x.v.as_slice().iter().map(|t| t.id()).collect();
    let want: Vec<Option<u32>> = x.m.iter().map(|i| Some(*i)).collect();
    ensure!(ids == want, "after {what}: content {ids:?}, expected {want:?}");
    ensure!(x.v.len() == want.len() && x.v.is_empty() == want.is_empty(), "after {what}: length {}, empty {}", x.v.len(), x.v.is_empty());
    ensure!(x.v.capacity() == x.cap, "after {what}: capacity {}, expected {}", x.v.capacity(), x.cap);
    if x.cap > 0 {
        ensure!(x.v.as_mut_ptr() as usize == x.addr && x.v.as_ptr() as usize == x.addr, "after {what}: memory at {:?} instead of {:#x}", x.v.as_mut_ptr(), x.addr);
        ensure!(x.v.is_empty() || x.v[0..].as_ptr() as usize == x.addr, "after {what}: elements elsewhere");
    }
    Ok(())
}
fn val<T: Tok>() -> (T, u32) { let t = T::new(); let id = t.id().unwrap(); (t, id) }

/// An iterator of fresh values which counts what is taken.
struct Fresh<'a, T> { left: usize, taken: &'a Cell<usize>, ids: &'a std::cell::RefCell<Vec<u32>>, p: std::marker::PhantomData<T> }
impl<T: Tok> Iterator for Fresh<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.left == 0 { return None; }
        self.left -= 1;
        self.taken.set(self.taken.get() + 1);
        let (t, id) = val();
        self.ids.borrow_mut().push(id);
        Some(t)
    }
}

fn build<T: Tok>(g: &mut Src, region: &mut Region, how: u64) -> Result<V<T>, String> {
    let (size, align) = (size_of::<T>(), align_of::<T>());
    let pad = region.addr().next_multiple_of(align) - region.addr();
    let (addr, len) = (region.addr(), region.len());
    Ok(match how {
        0 if pad == 0 => {
            let n = g.upto((len / size) as u64) as usize;
            V { v: FixedVec::new(Uninit::from(region.slice::<T>(n))), m: vec![], addr, cap: n, bytes: n * size }
        }
        1 if pad == 0 => V { v: FixedVec::new(region.memory().cast_slice().map_err(|_| "cast_slice of aligned memory failed")?), m: vec![], addr, cap: len / size, bytes: len },
        2 => { let v = FixedVec::new(Uninit::empty()); V { v, m: vec![], addr: 0, cap: 0, bytes: 0 } }
        _ => {
            let v = FixedVec::from_unaligned(region.memory());
            if len < pad { V { v, m: vec![], addr: 0, cap: 0, bytes: 0 } }
            else { V { v, m: vec![], addr: addr + pad, cap: (len - pad) / size, bytes: len - pad } }
        }
    })
}

fn case<T: Tok>(g: &mut Src) -> R {
    reg_reset();
    let mut region = if g.chance(1, 6) { Region::gen(g, (size_of::<T>() * 48).min(3000)) } else { Region::gen(g, (size_of::<T>() * 12).min(1500)) };
    let how = g.upto(5).min(4);
    let first = build::<T>(g, &mut region, how)?;
    g.log(|| format!("{} in {} bytes at offset {}, way {how}: capacity {}", T::NAME, region.len(), region.addr() % 64, first.cap));
    let mut vs = vec![first];
    let mut n = 0;
    let mut rare = 0;
    check(&mut vs[0], "construction")?;
    while g.more(n, 18, 70) {
        n += 1;
        let i = g.upto(vs.len() as u64 - 1) as usize;
        let parts = vs.len();
        let x = &mut vs[i];
        let op = g.weighted(&[8, 4, 2, 1, 5, 4, 1, 2, 1, 1, 3, 1, 1, 1, 2]);
        let what = ["push", "pop", "truncate", "clear", "drain", "fill", "extend", "split_borrowed", "split_and_shrink_to", "shrink_to_fit", "slice ops", "index", "drop", "set_len", "overwrite"][op];
        let before = x.m.clone();
        g.log(|| format!("[{i}] {what} (holds {before:?} of {})", x.cap));
        match op {
            0 => {
                let (t, id) = val::<T>();
                match x.v.push(t) {
                    Ok(()) => { ensure!(x.m.len() < x.cap, "push beyond the capacity"); x.m.push(id); }
                    Err(t) => { ensure!(x.m.len() == x.cap, "push refused with {} of {}", x.m.len(), x.cap); ensure!(t.id() == Some(id), "the refused element reads {:?}", t.id()); g.label("push refused"); }
                }
            }
            1 => { let p = x.v.pop().map(|t| t.id()); ensure_eq!(p, x.m.pop().map(Some), "pop"); }
            2 => { let k = if g.chance(1, 16) { usize::MAX } else { g.range(0, x.m.len() + 2) }; x.v.truncate(k); x.m.truncate(k); }
            3 => { x.v.clear(); x.m.clear(); }
            4 => {
                let r = gen_range(g, x.m.len());
                g.log(|| format!("    range {r:?}"));
                match resolve(r, x.m.len()) {
                    None => {
                        let seen = drop_order().len();
                        ensure!(catch_quiet(|| drop(x.v.drain(r))).is_none(), "drain of the invalid range {r:?} with {} elements", x.m.len());
                        ensure_eq!(drop_order().len(), seen, "drops in a refused drain");
                        g.label("drain refused");
                    }
                    Some(r2) => {
                        rare += 1;
                        let tail = x.m.split_off(r2.end);
                        let mut mid: VecDeque<u32> = x.m.split_off(r2.start).into();
                        let mut d = x.v.drain(r);
                        while g.chance(2, 3) {
                            ensure!(d.len() == mid.len() && ExactSizeIterator::len(&d) == mid.len() && d.is_empty() == mid.is_empty() && d.size_hint() == (mid.len(), Some(mid.len())), "length {} of a drain with {} left", d.len(), mid.len());
                            let (a, b): (Vec<_>, Vec<_>) = (d.as_slice().iter().map(|t| t.id()).collect(), mid.iter().map(|i| Some(*i)).collect());
                            ensure!(a == b, "drain shows {a:?} instead of {b:?}");
                            match g.upto(5) {
                                0 | 1 => ensure_eq!(d.next().map(|t| t.id()), mid.pop_front().map(Some), "next of a drain"),
                                2 | 3 => ensure_eq!(d.next_back().map(|t| t.id()), mid.pop_back().map(Some), "next_back of a drain"),
                                4 => {
                                    let k = g.range(0, 2);
                                    let got = d.nth(k).map(|t| t.id());
                                    for _ in 0..k { mid.pop_front(); }
                                    ensure_eq!(got, mid.pop_front().map(Some), "nth of a drain");
                                }
                                _ => {
                                    let sl = d.as_mut_slice();
                                    let a: Vec<_> = sl.iter().map(|t| t.id()).collect();
                                    ensure!(a == b, "drain lends {a:?} instead of {b:?}");
                                    if !a.is_empty() { let (t, id) = val::<T>(); let j = g.range(0, a.len() - 1); sl[j] = t; mid[j] = id; }
                                }
                            }
                        }
                        drop(d);
                        for id in mid { ensure!(!is_alive(id), "drained element {id} not dropped"); }
                        x.m.extend(tail);
                    }
                }
            }
            5 | 6 => {
                let free = x.cap - x.m.len();
                let k = match g.upto(3) { 0 => free, 1 => g.range(0, free), 2 => free + 1, _ => free + g.range(0, 4) };
                let (taken, ids) = (Cell::new(0), std::cell::RefCell::new(vec![]));
                let it = Fresh::<T> { left: k, taken: &taken, ids: &ids, p: Default::default() };
                let st = k.min(free);
                if op == 5 {
                    let rest = x.v.fill(it);
                    ensure!(taken.get() == st && rest.left == k - st, "fill with {free} places took {} of {k} elements", taken.get());
                    x.m.extend(&ids.borrow()[..]);
                } else {
                    let ok = catch_quiet(|| x.v.extend(it)).is_some();
                    ensure!(ok == (k <= free), "extend by {k} with {free} places: succeeded {ok}");
                    x.m.extend(&ids.borrow()[..st]);
                    g.label_if(!ok, "extend refused");
                }
            }
            7 => {
                let at = if g.chance(1, 8) { x.cap.saturating_add(g.range(1, 3)) } else { g.range(0, x.cap) };
                if at > x.cap { ensure!(catch_quiet(|| { let _ = x.v.split_borrowed(at); }).is_none(), "split_borrowed({at}) with capacity {}", x.cap); }
                else {
                    rare += 1;
                    let mut tail: Vec<u32> = if at < x.m.len() { x.m.split_off(at) } else { vec![] };
                    {
                        let mut p = x.v.split_borrowed(at);
                        ensure_eq!(p.capacity(), x.cap - at, "capacity of the borrowed part");
                        while g.chance(2, 3) {
                            if g.bool() { let (t, id) = val::<T>(); let ok = p.push(t).is_ok(); ensure!(ok == (tail.len() < x.cap - at), "push into a borrowed part: {ok}"); if ok { tail.push(id); } }
                            else { ensure_eq!(p.pop().map(|t| t.id()), tail.pop().map(Some), "pop of a borrowed part"); }
                            let (a, b): (Vec<_>, Vec<_>) = (p.iter().map(|t| t.id()).collect(), tail.iter().map(|i| Some(*i)).collect());
                            ensure!(a == b, "borrowed part holds {a:?} instead of {b:?}");
                        }
                    }
                    for id in tail { ensure!(!is_alive(id), "element {id} of the borrowed part not dropped"); }
                }
            }
            8 if parts < 5 => {
                let at = if g.chance(1, 8) { x.cap.saturating_add(g.range(1, 3)) } else { g.range(0, x.cap) };
                if at > x.cap { ensure!(catch_quiet(|| { let _ = x.v.split_and_shrink_to(at); }).is_none(), "split_and_shrink_to({at}) with capacity {}", x.cap); }
                else {
                    rare += 1;
                    let v = x.v.split_and_shrink_to(at);
                    let tail = if at < x.m.len() { x.m.split_off(at) } else { vec![] };
                    let used = at * size_of::<T>();
                    let mut new = V { v, m: tail, addr: x.addr + used, cap: x.cap - at, bytes: x.bytes - used };
                    x.cap = at;
                    x.bytes = used;
                    check(&mut new, "split_and_shrink_to (second part)")?;
                    check(x, what)?;
                    vs.push(new);
                    continue;
                }
            }
            9 => {
                let rest = x.v.shrink_to_fit();
                let spare = x.bytes - x.cap * size_of::<T>();
                ensure_eq!(rest.size(), spare, "bytes given back by shrink_to_fit");
                if spare > 0 { ensure!(rest.as_ptr() as *const u8 as usize == x.addr + x.cap * size_of::<T>(), "the bytes given back are elsewhere"); unsafe { (rest.as_ptr() as *mut u8).write_bytes(0xEE, spare) }; }
                x.bytes -= spare;
            }
            10 => {
                let len = x.m.len();
                match g.upto(5) {
                    0 if len > 0 => { let (a, b) = (g.range(0, len - 1), g.range(0, len - 1)); x.v.swap(a, b); x.m.swap(a, b); }
                    1 => { x.v.reverse(); x.m.reverse(); }
                    2 => { x.v.sort_by_key(|t| t.id()); x.m.sort(); }
                    3 => { let k = g.range(0, len); x.v.as_mut_slice().rotate_left(k); x.m.rotate_left(k); }
                    4 => { let a: Vec<_> = AsRef::<[T]>::as_ref(&x.v).iter().rev().map(|t| t.id()).collect(); let mut b: Vec<_> = x.m.iter().map(|i| Some(*i)).collect(); b.reverse(); ensure_eq!(a, b, "reverse iteration"); }
                    _ => ensure_eq!((x.v.first().map(|t| t.id()), x.v.last().map(|t| t.id())), (x.m.first().map(|i| Some(*i)), x.m.last().map(|i| Some(*i))), "first and last"),
                }
            }
            11 => {
                let k = g.range(0, x.m.len() + 1);
                let got = catch_quiet(|| x.v[k].id());
                ensure_eq!(got, x.m.get(k).map(|i| Some(*i)), "index {k}");
                let r = gen_range(g, x.m.len());
                let got = catch_quiet(|| x.v[r].iter().map(|t| t.id().unwrap_or(u32::MAX)).collect::<Vec<_>>());
                ensure_eq!(got, resolve(r, x.m.len()).map(|r| x.m[r].to_vec()), "index {r:?}");
            }
            12 if parts > 1 => {
                let x = vs.swap_remove(i);
                drop(x.v);
                for id in x.m { ensure!(!is_alive(id), "element {id} not dropped with its vector"); }
                continue;
            }
            13 if x.m.len() < x.cap => {
                // Initialized from the outside.
                let (t, id) = val::<T>();
                unsafe { let len = x.v.len(); x.v.as_mut_ptr().add(len).write(t); x.v.set_len(len + 1); }
                x.m.push(id);
            }
            14 if !x.m.is_empty() => {
                let k = g.range(0, x.m.len() - 1);
                let (t, id) = val::<T>();
                if g.bool() { x.v[k] = t; } else { let old = mem::replace(&mut x.v.as_mut_slice()[k], t); ensure!(old.id() == Some(x.m[k]), "replacing yields {:?}", old.id()); }
                x.m[k] = id;
            }
            _ => {}
        }
        for x in vs.iter_mut() { check(x, what)?; }
        reg_errors()?;
        let all: usize = vs.iter().map(|x| x.m.len()).sum();
        ensure!(n_alive() == all, "after {what}: {} elements alive, {all} in vectors", n_alive());
        region.guards()?;
    }
    if n >= 6 && rare > 0 { g.nontrivial(); }
    g.label_if(vs.len() > 1, "several parts");
    drop(vs);
    region.guards()?;
    reg_finish()
}

fn history(g: &mut Src) -> R {
    match g.upto(7) {
        6 => case::<Tok12>(g), 7 => case::<Tok24>(g), 0 => case::<Tok8>(g), 1 => case::<Tok20>(g), 2 => case::<TokBox>(g),
        3 => case::<TokA16>(g), 4 => case::<TokA64>(g), _ => case::<Tok300>(g),
    }
}

thread_local! { static Z: Cell<(u64, u64)> = const { Cell::new((0, 0)) }; }
struct Zst;
impl Zst { fn new() -> Self { Z.with(|z| z.set((z.get().0 + 1, z.get().1))); Zst } }
impl Drop for Zst { fn drop(&mut self) { Z.with(|z| z.set((z.get().0, z.get().1 + 1))); } }
#[repr(align(64))]
struct ZstA(Zst);

trait New { fn new() -> Self; }
impl New for Zst { fn new() -> Self { Zst::new() } }
impl New for ZstA { fn new() -> Self { ZstA(Zst::new()) } }

fn zst_case<T: New>(g: &mut Src) -> R {
    Z.with(|z| z.set((0, 0)));
    let mut region = Region::gen(g, 100);
    let pad = region.addr().next_multiple_of(align_of::<T>()) - region.addr();
    let mut v: FixedVec<T> = match g.upto(2) {
        0 => FixedVec::new(Uninit::empty()),
        1 if pad <= region.len() => FixedVec::from_unaligned(region.memory()),
        _ => FixedVec::from_unaligned(Uninit::<[u8]>::empty()),
    };
    let mut vs: Vec<(FixedVec<T>, usize)> = vec![];
    let (mut len, mut out, mut n) = (0usize, 0u64, 0);
    while g.more(n, 14, 60) {
        n += 1;
        ensure_eq!(v.capacity(), usize::MAX, "capacity for zero-sized elements");
        ensure!(v.as_slice().len() == len && v.len() == len, "length {} instead of {len}", v.len());
        ensure!(v.as_slice().as_ptr() as usize % align_of::<T>() == 0, "misaligned slice");
        match g.upto(8) {
            0 | 1 => { ensure!(v.push(T::new()).is_ok(), "push refused"); len += 1; }
            2 => { ensure_eq!(v.pop().is_some(), len > 0, "pop"); len = len.saturating_sub(1); }
            3 => { let k = g.range(0, len + 1); v.truncate(k); len = len.min(k); }
            4 => {
                let r = gen_range(g, len);
                match resolve(r, len) {
                    None => ensure!(catch_quiet(|| drop(v.drain(r))).is_none(), "drain of the invalid range {r:?} with {len} elements"),
                    Some(r2) => {
                        let k = g.range(0, r2.len());
                        let mut d = v.drain(r);
                        ensure_eq!(d.len(), r2.len(), "length of a drain");
                        for j in 0..k { ensure!(if j % 2 == 0 { d.next() } else { d.next_back() }.is_some(), "drain ended early"); }
                        ensure!(d.as_slice().len() == r2.len() - k, "rest of a drain");
                        drop(d);
                        len -= r2.len();
                        g.nontrivial();
                    }
                }
            }
            5 => { let k = g.range(0, 10); let mut c = 0; let mut it = v.fill((0..k).map(|_| { c += 1; T::new() })); ensure!(it.next().is_none(), "fill stopped early"); drop(it); ensure_eq!(c, k, "elements taken by fill"); len += k; }
            6 => {
                let at = g.range(0, len + 2);
                let mut part = v.split_borrowed(at);
                let tail = len.saturating_sub(at);
                ensure_eq!(part.len(), tail, "length of the borrowed part");
                ensure!(part.push(T::new()).is_ok(), "push into a borrowed part");
                drop(part);
                len -= tail;
            }
            7 if vs.len() < 4 => {
                let at = if g.bool() { g.range(0, len + 2) } else { g.pick(&[usize::MAX, usize::MAX / 2]) };
                let part = v.split_and_shrink_to(at);
                let tail = len.saturating_sub(at);
                ensure_eq!(part.len(), tail, "length of the split part");
                vs.push((part, tail));
                len -= tail;
            }
            _ => if let Some((p, l)) = vs.pop() { ensure_eq!(p.len(), l, "length of a split part"); drop(p); },
        }
        let parts: usize = vs.iter().map(|p| p.1).sum();
        let (made, dropped) = Z.with(|z| z.get());
        ensure!(made - dropped == (len + parts) as u64, "{made} made, {dropped} dropped, {} held", len + parts);
        out = made;
    }
    drop((v, vs));
    region.guards()?;
    let (made, dropped) = Z.with(|z| z.get());
    ensure!(made == dropped && made >= out, "{made} made, {dropped} dropped at the end");
    Ok(())
}
fn zst(g: &mut Src) -> R { if g.bool() { zst_case::<Zst>(g) } else { zst_case::<ZstA>(g) } }

/// Elements without size and destructor, of which a vector can hold `usize::MAX`.
fn full_case<T: Copy + Default>(g: &mut Src) -> R {
    let mut v: FixedVec<T> = FixedVec::new(Uninit::empty());
    let (mut len, mut n) = (0usize, 0);
    while g.more(n, 10, 40) {
        n += 1;
        match g.upto(7) {
            // SAFETY: the elements take no memory and any number of them is initialized.
            0 => { let l = usize::MAX - g.skewed(4); unsafe { v.set_len(l) }; len = l; g.label("close to the largest length"); }
            1 | 2 => {
                let ok = v.push(T::default()).is_ok();
                ensure!(ok == (len != usize::MAX), "push with {len} elements succeeded: {ok}");
                if !ok { g.nontrivial(); }
                len += ok as usize;
            }
            3 => {
                let k = g.range(0, 6);
                let room = usize::MAX - len;
                let rest = v.fill((0..k).map(|_| T::default())).count();
                ensure_eq!(rest, k.saturating_sub(room), "items left over by fill with {len} elements");
                if rest > 0 { g.nontrivial(); }
                len += k - rest;
            }
            4 => { ensure_eq!(v.pop().is_some(), len > 0, "pop"); len = len.saturating_sub(1); }
            5 => {
                let (from, k) = (if g.bool() { len - g.skewed(6).min(len) } else { g.skewed(6).min(len) }, g.range(0, 4));
                let to = from + k.min(len - from);
                let mut d = v.drain(from..to);
                ensure_eq!(d.len(), to - from, "length of a drain");
                if g.bool() { d.next_back(); }
                drop(d);
                len -= to - from;
            }
            6 => {
                let at = match g.upto(2) { 0 => len - g.skewed(6).min(len), 1 => g.skewed(6), _ => usize::MAX - g.skewed(3) };
                let tail = len.saturating_sub(at);
                if g.bool() { ensure_eq!(v.split_borrowed(at).len(), tail, "length of the borrowed part split at {at} of {len}"); }
                else { ensure_eq!(v.split_and_shrink_to(at).len(), tail, "length of the part split at {at} of {len}"); }
                len -= tail;
            }
            _ => { let k = len - g.skewed(6).min(len); v.truncate(k); len = k; }
        }
        ensure!(v.len() == len && v.as_slice().len() == len, "length {} instead of {len}", v.len());
        ensure_eq!(v.capacity(), usize::MAX, "capacity for zero-sized elements");
        ensure!(v.as_slice().as_ptr() as usize % align_of::<T>() == 0, "misaligned slice");
    }
    Ok(())
}
fn full(g: &mut Src) -> R { if g.bool() { full_case::<()>(g) } else { full_case::<[u64; 0]>(g) } }

pub fn prop() -> Prop {
    Prop { id: "C11", assumptions: vec![], subs: vec![
        Sub { name: "history", cases: (1_500_000, 40_000_000), run: history, track: true,
            rule: "random operation histories on a vector and the parts split from it, over six drop-tracked element types, in memory of any offset and length, compared with standard vectors; non-trivial: six steps including a drain or split" },
        Sub { name: "zst", cases: (400_000, 8_000_000), run: zst, track: true,
            rule: "operation histories with zero-sized elements; non-trivial: a drain" },
        Sub { name: "full", cases: (200_000, 4_000_000), run: full, track: true,
            rule: "vectors of elements without size and destructor around the largest possible length, usize::MAX; non-trivial: an addition that had to be refused" },
        Sub { name: "many", cases: (3_000, 60_000), run: crate::many::c11, track: false,
            rule: "vectors with room for hundreds to more than 65536 elements of three types: fill, drain, truncate, split; non-trivial: room for over 255" } ] }
}
