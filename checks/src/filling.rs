//! C17 and C18: filling containers from iterators that count, mislead about their size, go on
//! after their end, fail or never end.
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::rc::Rc;
use std::slice::IterMut;

use fill::Fill;
use pbt::{catch_quiet, ensure, ensure_eq, Prop, Src, Sub, R};

use crate::vals::*;

/// What an item is, as far as the model is concerned.
#[derive(Clone, Debug, PartialEq)]
enum Desc { Val(u32), Unit, Ok(Box<Desc>), Err(u32) }
trait Item: Sized { fn gen(f: &mut dyn FnMut() -> bool) -> Self; fn desc(&self) -> Desc; }
impl Item for Tok8 { fn gen(_: &mut dyn FnMut() -> bool) -> Self { Tok8::new() } fn desc(&self) -> Desc { Desc::Val(self.id().unwrap_or(u32::MAX)) } }
impl Item for () { fn gen(_: &mut dyn FnMut() -> bool) {} fn desc(&self) -> Desc { Desc::Unit } }
impl<T: Item, E: Tok> Item for Result<T, E> {
    fn gen(f: &mut dyn FnMut() -> bool) -> Self { if f() { Err(E::new()) } else { Ok(T::gen(f)) } }
    fn desc(&self) -> Desc { match self { Ok(t) => Desc::Ok(Box::new(t.desc())), Err(e) => Desc::Err(e.id().unwrap_or(u32::MAX)) } }
}

#[derive(Clone, Debug, PartialEq)]
enum Model { Seq(Vec<u32>, usize), Slot(Option<u32>), Unit, Window { written: Vec<u32>, left: Vec<u32> }, Res(Box<Model>), Failed(u32) }
impl Model {
    fn full(&self) -> bool { match self { Model::Seq(v, c) => v.len() >= *c, Model::Slot(s) => s.is_some(), Model::Unit => false, Model::Window { left, .. } => left.is_empty(), Model::Res(m) => m.full(), Model::Failed(_) => true } }
    fn push(&mut self, d: &Desc) {
        match (&mut *self, d) {
            (Model::Seq(v, _), Desc::Val(i)) => v.push(*i),
            (Model::Slot(s), Desc::Val(i)) => *s = Some(*i),
            (Model::Unit, Desc::Unit) => {}
            (Model::Window { written, left }, Desc::Val(i)) => { left.remove(0); written.push(*i); }
            (Model::Res(m), Desc::Ok(d)) => m.push(d),
            (Model::Res(_), Desc::Err(e)) => *self = Model::Failed(*e),
            x => panic!("model: {x:?}"),
        }
    }
    /// As seen from the container: what a window has passed over is not visible there.
    fn seen(&self) -> Model { match self { Model::Window { left, .. } => Model::Window { written: vec![], left: left.clone() }, Model::Res(m) => Model::Res(Box::new(m.seen())), m => m.clone() } }
    fn holds(&self) -> usize { match self { Model::Seq(v, _) => v.len(), Model::Slot(s) => s.is_some() as usize, Model::Res(m) => m.holds(), Model::Failed(_) => 1, _ => 0 } }
}
trait Con: Fill<Self::It> + Sized { type It: Item; fn see(&self) -> Model; }
fn id(t: &Tok8) -> u32 { t.id().unwrap_or(u32::MAX) }
impl Con for Vec<Tok8> { type It = Tok8; fn see(&self) -> Model { Model::Seq(self.iter().map(id).collect(), self.capacity()) } }
impl Con for VecDeque<Tok8> { type It = Tok8; fn see(&self) -> Model { Model::Seq(self.iter().map(id).collect(), self.capacity()) } }
impl Con for Option<Tok8> { type It = Tok8; fn see(&self) -> Model { Model::Slot(self.as_ref().map(id)) } }
impl Con for () { type It = (); fn see(&self) -> Model { Model::Unit } }
impl Con for IterMut<'_, Tok8> { type It = Tok8; fn see(&self) -> Model { Model::Window { written: vec![], left: self.as_slice().iter().map(id).collect() } } }
impl<C: Con, E: Tok> Con for Result<C, E> { type It = Result<C::It, E>; fn see(&self) -> Model { match self { Ok(c) => Model::Res(Box::new(c.see())), Err(e) => Model::Failed(e.id().unwrap_or(u32::MAX)) } } }

/// A vector that is filled in two goes, the second one whatever became of the first.
struct Twice(Vec<Tok8>);
impl Fill<Tok8> for Twice {
    fn fill<I: IntoIterator<Item = Tok8>>(&mut self, iter: I) {
        let mut it = iter.into_iter();
        for _ in 0..2 {
            while self.0.len() < self.0.capacity() { match it.next() { Some(x) => self.0.push(x), None => break } }
        }
    }
}

/// The source of items. An absent item ends the iteration for now.
struct Spy<T> { items: VecDeque<Option<T>>, endless: Option<(u64, usize)>, hint: (usize, Option<usize>), seen: Rc<RefCell<(Vec<Desc>, usize)>>, bomb: Option<usize>, dead: bool }
impl<T: Item> Iterator for Spy<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        assert!(!self.dead);
        let n = { let mut s = self.seen.borrow_mut(); s.1 += 1; s.0.len() };
        if self.bomb == Some(n) { self.bomb = None; std::panic::resume_unwind(Box::new(Bomb)) }
        let r = match self.items.pop_front() { Some(x) => x, None => match &mut self.endless { None => None, Some((s, n)) => {
            *n += 1;
            if *n > 2000 { std::panic::resume_unwind(Box::new("an endless iterator was drained")) }
            let mut k = 0u64;
            let (s, n) = (*s, *n as u64);
            Some(T::gen(&mut || { k += 1; pattern(s ^ k, n as usize) < 40 }))
        } } };
        if let Some(x) = &r { self.seen.borrow_mut().0.push(x.desc()); }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) { self.hint }
}
impl<T: Item> Spy<T> {
    fn gen(g: &mut Src, space: usize, unbounded: bool, bombs: bool) -> (Self, Vec<Option<Desc>>) {
        let n = g.skewed(space.min(44) + 5);
        let err = g.upto(3);
        let gaps = g.chance(1, 4);
        let mut items: VecDeque<Option<T>> = (0..n).map(|_| Some(T::gen(&mut || err > 0 && g.chance(err, 12)))).collect();
        if gaps && n > 0 { let k = g.upto(n as u64) as usize; items.insert(k, None); g.label("continues after its end"); }
        let endless = if !unbounded && g.chance(1, 5) { g.label("endless"); Some((g.upto(255), 0)) } else { None };
        let hint = match g.upto(6) { 0 => (0, None), 1 => (n, Some(n)), 2 => (usize::MAX, None), 3 => (0, Some(0)), 4 => (n + 3, Some(n + 3)), 5 => (1, Some(1)), _ => (n / 2, Some(n)) };
        let bomb = if bombs && g.chance(1, 10) { Some(g.upto(n as u64) as usize) } else { None };
        let d = items.iter().map(|x| x.as_ref().map(|x| x.desc())).collect();
        g.log(|| format!("  items {}{}{}", items.iter().map(|x| match x { None => "END".into(), Some(x) => format!("{:?}", x.desc()) }).collect::<Vec<_>>().join(", "), if endless.is_some() { ", ..." } else { "" }, match bomb { None => String::new(), Some(b) => format!(", panics at {b}") }));
        (Spy { items, endless, hint, seen: Default::default(), bomb, dead: false }, d)
    }
}

/// What filling does to the model: takes items until full or at the end. The number of them, and
/// whether the end of the iterator was seen.
fn simulate(m: &mut Model, items: &[Option<Desc>]) -> Option<(usize, bool)> {
    let mut taken = 0;
    let mut it = items.iter();
    loop {
        if m.full() { return Some((taken, false)); }
        match it.next() {
            Some(Some(d)) => { m.push(d); taken += 1; }
            Some(None) => return Some((taken, true)),
            None => return None, // the end, or more of an endless one
        }
    }
}

fn drive<C: Con>(g: &mut Src, mut c: C, extra: &dyn Fn(&Model) -> R, basic: bool, others: usize) -> Result<Option<(C, Model)>, String> {
    let mut m = c.see();
    let mut n = 0;
    while n == 0 || g.more(n, 2, 6) {
        n += 1;
        let space = match &m { Model::Seq(v, c) => c - v.len(), Model::Window { left, .. } => left.len(), Model::Res(x) => match &**x { Model::Seq(v, c) => c - v.len(), _ => 3 }, _ => 2 };
        fn open(m: &Model) -> bool { match m { Model::Unit => true, Model::Res(m) => open(m), _ => false } }
        let unbounded = open(&m);
        let verb = if basic { g.upto(1) } else { 2 + g.upto(3) };
        g.log(|| format!("{} with space for {}", ["fill", "fill by reference", "fill_and_keep_tail", "fill_count", "checked_fill", "checked_fill by reference"][verb as usize], if unbounded { "anything".into() } else { space.to_string() }));
        let (mut spy, descs) = Spy::<C::It>::gen(g, space, unbounded, basic);
        let (seen, bomb, endless) = (spy.seen.clone(), spy.bomb.is_some(), spy.endless.is_some());
        let mut tail: Option<Spy<C::It>> = None;
        let mut count = None;
        let mut checked = None;
        let r = catch_quiet(|| match verb {
            0 => c.fill(spy),
            1 => { c.fill(&mut spy); tail = Some(spy); }
            2 => tail = Some(c.fill_and_keep_tail(spy)),
            3 => count = Some(c.fill_count(spy)),
            4 => { let t = c.checked_fill(spy); checked = Some(t.is_some()); tail = t; }
            _ => { checked = Some(c.checked_fill(&mut spy).is_some()); tail = Some(spy); }
        });
        let (seen, polls) = { let s = seen.borrow(); (s.0.clone(), s.1) };
        if r.is_none() {
            ensure!(bomb, "unexpected panic, or more than 2000 items taken");
            g.label("iterator panicked");
            let all = c.see();
            let had = m.holds();
            ensure!(all.holds() <= had + seen.len(), "items out of nowhere");
            drop(tail);
            drop(c);
            return Ok(None);
        }
        // What was yielded beyond the listed items is known only now.
        let mut items = descs.clone();
        if endless { let listed = items.iter().flatten().count(); for d in seen.iter().skip(listed) { items.push(Some(d.clone())); } }
        let mut want = m.clone();
        let (taken, end) = match simulate(&mut want, &items) { Some(x) => x, None => { ensure!(!endless, "filling stopped with space left and items to come"); (items.iter().flatten().count(), true) } };
        ensure!(seen.len() == taken, "{} items were taken from the iterator, expected {taken}", seen.len());
        ensure!(seen.iter().eq(items.iter().flatten().take(taken)), "items taken out of order");
        let got = c.see();
        ensure!(got == want.seen(), "the container is {got:?}, expected {:?}", want.seen());
        extra(&want)?;
        if let Some(k) = count { ensure_eq!(k, taken, "count"); g.label("counted"); }
        if let Some(k) = checked { ensure!(k == !end, "a tail was {} although the end {}", if k { "returned" } else { "not returned" }, if end { "was reached" } else { "was not reached" }); g.label_if(k, "tail"); }
        if matches!(m, Model::Slot(Some(_)) | Model::Failed(_)) { ensure!(polls == 0, "the iterator was asked although there was nothing to fill"); }
        // The tail is the rest.
        if let Some(mut t) = tail {
            t.bomb = None;
            let gap = items.iter().position(|x| x.is_none());
            let rest: Vec<Option<Desc>> = if end && gap.is_some() { items[gap.unwrap() + 1..].to_vec() } else {
                let mut k = 0; items.iter().skip_while(|x| if x.is_some() && k < taken { k += 1; true } else { false }).cloned().collect() };
            if !endless || !end {
                for (i, w) in rest.iter().enumerate() {
                    let x = t.next();
                    ensure!(x.as_ref().map(|x| x.desc()) == *w, "item {i} of the rest is {:?}, expected {w:?}", x.map(|x| x.desc()));
                }
                if !endless { ensure!(t.next().is_none(), "more items than there were"); } else { ensure!(t.next().is_some(), "an endless tail ended"); }
            }
        }
        if taken > 0 && want.full() { g.nontrivial(); }
        m = want;
        // Only what is held lives.
        let alive = n_alive();
        ensure!(alive == m.holds() + others, "{alive} values alive, the container holds {}, {others} others", m.holds());
        reg_errors()?;
    }
    Ok(Some((c, m)))
}
/// Mostly small containers, sometimes larger ones.
fn cap(g: &mut Src) -> usize { if g.chance(1, 8) { g.skewed(40) } else { g.skewed(8) } }
fn vec(g: &mut Src) -> Vec<Tok8> { let c = cap(g); let mut v = Vec::with_capacity(c); let k = g.skewed(c); v.extend((0..k).map(|_| Tok8::new())); v }
fn deque(g: &mut Src) -> VecDeque<Tok8> {
    let c = cap(g);
    let mut v = VecDeque::with_capacity(c);
    if c > 0 { for _ in 0..g.upto(c as u64) { v.push_back(Tok8::new()); if v.len() == v.capacity() || g.bool() { v.pop_front(); } } }
    let k = if g.bool() { g.skewed(v.capacity()) } else { g.range(0, v.capacity()) };
    while v.len() < k { if g.bool() { v.push_back(Tok8::new()) } else { v.push_front(Tok8::new()) } }
    v
}
fn any<C: Con>(g: &mut Src, c: C, basic: bool) -> R { drive(g, c, &|_| Ok(()), basic, 0)?; Ok(()) }
fn slot(g: &mut Src) -> Option<Tok8> { if g.bool() { None } else { Some(Tok8::new()) } }
fn res<C: Con, E: Tok>(g: &mut Src, f: impl FnOnce(&mut Src) -> C) -> Result<C, E> { if g.chance(1, 8) { Err(E::new()) } else { Ok(f(g)) } }
fn containers(g: &mut Src, basic: bool) -> R {
    reg_reset();
    match g.upto(10) {
        0 | 1 => { let c = vec(g); any(g, c, basic)? }
        2 | 3 => { let c = deque(g); any(g, c, basic)? }
        4 => { let c = slot(g); any(g, c, basic)? }
        5 => any(g, (), basic)?,
        6 => { let c = res::<_, Tok20>(g, vec); any(g, c, basic)? }
        7 => { let c = res::<_, Tok20>(g, deque); any(g, c, basic)? }
        8 => { let c = res::<_, TokBox>(g, slot); any(g, c, basic)? }
        9 => { let c = res::<(), Tok8>(g, |_| ()); any(g, c, basic)? }
        _ => { let c = res::<_, Tok20>(g, |g| res::<_, TokA16>(g, vec)); any(g, c, basic)? }
    }
    reg_finish()
}
/// Slices, through a partially advanced iterator.
fn slices(g: &mut Src, basic: bool) -> R {
    reg_reset();
    let mut v: Vec<Tok8> = (0..cap(g)).map(|_| Tok8::new()).collect();
    let before: Vec<u32> = v.iter().map(id).collect();
    let n = v.len();
    let (mut a, mut b) = (0, n);
    let wrap = g.bool();
    let out = {
        let mut it = v.iter_mut();
        while a < b && g.chance(1, 4) { if g.bool() { it.next(); a += 1; } else { it.next_back(); b -= 1; } }
        let all = move |m: &Model| -> R { let _ = m; Ok(()) };
        if wrap { drive(g, Ok::<_, TokBox>(it), &all, basic, n)?.map(|(c, m)| { drop(c); m }) } else { drive(g, it, &all, basic, n)?.map(|(c, m)| { drop(c); m }) }
    };
    let after: Vec<u32> = v.iter().map(id).collect();
    let m = match out { Some(Model::Res(m)) => Some(*m), m => m };
    match m {
        Some(Model::Window { written, left }) => {
            let want: Vec<u32> = before[..a].iter().chain(&written).chain(&left).chain(&before[b..]).copied().collect();
            ensure_eq!(after, want, "the slice");
        }
        // Failed or panicked: a part of it was overwritten.
        _ => ensure!(after[..a] == before[..a] && after[b..] == before[b..] && !after.contains(&u32::MAX), "the slice is {after:?}"),
    }
    drop(v);
    reg_finish()
}
/// A container that asks again after the end, inside of a result.
fn again(g: &mut Src, basic: bool) -> R {
    reg_reset();
    let v = vec(g);
    let (mut want, cap): (Vec<u32>, usize) = (v.iter().map(id).collect(), v.capacity());
    let mut c: Result<Twice, Tok20> = Ok(Twice(v));
    let (mut spy, items) = Spy::<Result<Tok8, Tok20>>::gen(g, cap - want.len(), true, false);
    let seen = spy.seen.clone();
    let verb = if basic { g.upto(1) } else { g.range(2, 3) as u64 };
    g.log(|| format!("twice up to {cap} from {}, verb {verb}: {items:?}", want.len()));
    let mut tail = None;
    let mut count = None;
    match verb { 0 => c.fill(spy), 1 => { c.fill(&mut spy); tail = Some(spy) } 2 => tail = Some(c.fill_and_keep_tail(spy)), _ => count = Some(c.fill_count(spy)) }
    let (mut it, mut taken, mut failed) = (items.iter(), 0, None);
    for _ in 0..2 {
        while want.len() < cap && failed.is_none() {
            match it.next() {
                Some(Some(Desc::Ok(d))) => { taken += 1; if let Desc::Val(i) = **d { want.push(i) } }
                Some(Some(Desc::Err(e))) => { taken += 1; failed = Some(*e) }
                _ => break,
            }
        }
    }
    if failed.is_some() && taken > 1 { g.nontrivial(); }
    ensure_eq!(seen.borrow().0.len(), taken, "items taken");
    if let Some(k) = count { ensure_eq!(k, taken, "count"); }
    match (&c, failed) {
        (Ok(t), None) => ensure_eq!(t.0.iter().map(id).collect::<Vec<_>>(), want, "the content"),
        (Err(e), Some(f)) => ensure!(e.id() == Some(f), "error {:?} instead of {f}", e.id()),
        (c, f) => return Err(format!("{}, expected the error {f:?}", if c.is_ok() { "no error" } else { "an error" })),
    }
    if let Some(mut t) = tail {
        let rest: Vec<Desc> = (0..120).filter_map(|_| t.next()).map(|x| x.desc()).collect();
        let w: Vec<Desc> = items.iter().flatten().skip(taken).cloned().collect();
        ensure_eq!(rest, w, "the rest");
    }
    drop(c);
    reg_finish()
}
fn again_basic(g: &mut Src) -> R { again(g, true) }
fn again_more(g: &mut Src) -> R { again(g, false) }
/// Swapping between two slices.
/// An iterator that says about its length what it is told to.
struct Hinted<I> { it: I, hint: (usize, Option<usize>) }
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.it.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { self.hint }
}
impl<I: ExactSizeIterator> ExactSizeIterator for Hinted<I> { fn len(&self) -> usize { self.it.len() } }
fn swapping(g: &mut Src, basic: bool) -> R {
    reg_reset();
    let mut v: Vec<Tok8> = (0..cap(g)).map(|_| Tok8::new()).collect();
    let mut w: Vec<Tok8> = (0..cap(g)).map(|_| Tok8::new()).collect();
    let (x, y): (Vec<u32>, Vec<u32>) = (v.iter().map(id).collect(), w.iter().map(id).collect());
    let back = g.bool();
    let kind = g.upto(1);
    let hint = match g.upto(3) { 0 => (0, None), 1 => (y.len(), Some(y.len())), 2 => (0, Some(g.skewed(16))), _ => { let h = g.skewed(16); (h, Some(h)) } };
    let k = x.len().min(y.len());
    if k > 1 { g.nontrivial(); }
    {
        let mut it = v.iter_mut();
        let items = w.iter_mut();
        let verb = if basic { 0 } else { g.range(1, 3) };
        g.log(|| format!("swap into {} from {}, verb {verb}", x.len(), y.len()));
        macro_rules! go { ($items:expr) => { match verb {
            0 => it.fill($items),
            1 => { let t = it.fill_and_keep_tail($items); ensure_eq!(t.len(), y.len() - k, "items left"); }
            2 => ensure_eq!(it.fill_count($items), k, "count"),
            _ => { let t = it.checked_fill($items); ensure_eq!(t.map(|t| t.len()), if y.len() < x.len() { None } else { Some(y.len() - k) }, "tail"); }
        } } }
        // The items from iterators of different kinds, which know how many there are or do not.
        match kind {
            0 => if back { go!(items.rev()) } else { go!(items) },
            _ => if back { go!(Hinted { it: items.rev(), hint }) } else { go!(Hinted { it: items, hint }) },
        }
        ensure_eq!(it.len(), x.len() - k, "slots left");
    }
    let (v2, w2): (Vec<u32>, Vec<u32>) = (v.iter().map(id).collect(), w.iter().map(id).collect());
    let (mut a, mut b) = (x.clone(), y.clone());
    for i in 0..k { let j = if back { y.len() - 1 - i } else { i }; std::mem::swap(&mut a[i], &mut b[j]); }
    ensure_eq!(v2, a, "the filled slice");
    ensure_eq!(w2, b, "the other slice");
    ensure!(n_alive() == x.len() + y.len(), "values lost");
    drop((v, w));
    reg_finish()
}
/// The fixed-capacity vector's own filling.
#[cfg(feature = "c17")]
fn fixed(g: &mut Src) -> R {
    use without_alloc::{FixedVec, Uninit};
    reg_reset();
    let mut mem: Vec<std::mem::MaybeUninit<Tok8>> = (0..cap(g)).map(|_| std::mem::MaybeUninit::uninit()).collect();
    let cap = mem.len();
    let mut v: FixedVec<Tok8> = FixedVec::new(Uninit::from(&mut mem[..]));
    for _ in 0..g.skewed(cap) { let _ = v.push(Tok8::new()); }
    let mut m = Model::Seq(v.iter().map(id).collect(), cap);
    let mut n = 0;
    while n == 0 || g.more(n, 2, 6) {
        n += 1;
        let (spy, descs) = Spy::<Tok8>::gen(g, cap - v.len(), false, true);
        let (seen, bomb, endless) = (spy.seen.clone(), spy.bomb.is_some(), spy.endless.is_some());
        let Some(mut tail) = catch_quiet(|| v.fill(spy)) else {
            ensure!(bomb, "panicked");
            let Model::Seq(h, _) = &m else { unreachable!() };
            ensure!(v.len() <= h.len() + seen.borrow().0.len() && v.iter().take(h.len()).map(id).eq(h.iter().copied()), "the vector has {} elements", v.len());
            drop(v);
            return reg_finish();
        };
        let seen = seen.borrow().0.clone();
        let mut items = descs.clone();
        if endless { let listed = items.iter().flatten().count(); for d in seen.iter().skip(listed) { items.push(Some(d.clone())); } }
        let (taken, _) = match simulate(&mut m, &items) { Some(x) => x, None => { ensure!(!endless, "filling stopped early"); (items.iter().flatten().count(), true) } };
        ensure!(seen.len() == taken, "{} items were taken, expected {taken}", seen.len());
        ensure_eq!(Model::Seq(v.iter().map(id).collect(), v.capacity()), m, "the vector");
        tail.bomb = None;
        let mut rest: Vec<u32> = vec![];
        for _ in 0..120 { if let Some(x) = tail.next() { rest.push(id(&x)); } }
        if !endless { let want: Vec<u32> = items.iter().flatten().skip(taken).map(|d| if let Desc::Val(i) = d { *i } else { 0 }).collect(); ensure_eq!(rest, want, "the rest"); }
        drop(tail);
        ensure!(n_alive() == v.len(), "{} values alive, {} held", n_alive(), v.len());
        if taken > 0 && v.len() == cap { g.nontrivial(); }
    }
    drop(v);
    reg_finish()
}

/// A container that asks as often as its script says, whatever the answers.
struct Script { asks: usize, got: Vec<u32>, ends: usize, by_loop: bool }
impl Fill<Tok8> for Script {
    fn fill<I: IntoIterator<Item = Tok8>>(&mut self, iter: I) {
        let mut it = iter.into_iter();
        if self.by_loop { for x in it.by_ref().take(self.asks) { self.got.push(id(&x)); } }
        else { for _ in 0..self.asks { match it.next() { Some(x) => self.got.push(id(&x)), None => self.ends += 1 } } }
    }
}
fn scripted(g: &mut Src) -> R {
    reg_reset();
    let mut c = Script { asks: g.skewed(12), got: vec![], ends: 0, by_loop: g.chance(1, 3) };
    let verb = g.upto(3);
    g.log(|| format!("{} of a container that asks for {} items{}", ["fill_and_keep_tail", "fill_count", "checked_fill", "checked_fill by reference"][verb as usize], c.asks, if c.by_loop { " at most" } else { "" }));
    let (mut spy, descs) = Spy::<Tok8>::gen(g, c.asks, false, false);
    let (seen, endless) = (spy.seen.clone(), spy.endless.is_some());
    if c.asks > 1 { g.nontrivial(); }
    let n = |x: &[Option<Desc>]| x.iter().flatten().count();
    // What the container gets: by way of the checked variant nothing more after the first end.
    let asked = descs.iter().take(c.asks);
    let ended = descs.iter().take(c.asks).any(|d| d.is_none()) || (descs.len() < c.asks && !endless);
    let stop = verb >= 2 || c.by_loop;
    let before_end = descs.iter().take(c.asks).take_while(|d| d.is_some()).count();
    let first_end = descs.iter().take(c.asks).any(|d| d.is_none());
    let expect = if stop && first_end { before_end } else { asked.flatten().count() + if endless { c.asks.saturating_sub(descs.len()) } else { 0 } };
    let mut tail = None;
    match verb {
        0 => tail = Some(c.fill_and_keep_tail(spy)),
        1 => { let k = c.fill_count(spy); ensure_eq!(k, c.got.len(), "count of items taken"); }
        2 => { let t = c.checked_fill(spy); ensure!(t.is_some() == !ended, "tail returned: {}, end seen: {ended}", t.is_some()); tail = t; }
        _ => { let t = c.checked_fill(&mut spy).is_some(); ensure!(t == !ended, "tail returned: {t}, end seen: {ended}"); tail = Some(spy); }
    }
    ensure_eq!(c.got.len(), expect, "items seen by the container");
    ensure_eq!(seen.borrow().0.len(), expect, "items taken");
    if let (Some(mut t), false) = (tail, endless) {
        let mut rest = vec![];
        for _ in 0..120 { if let Some(x) = t.next() { rest.push(id(&x)); } }
        let want: Vec<u32> = descs.iter().flatten().skip(expect).map(|d| if let Desc::Val(i) = d { *i } else { 0 }).collect();
        ensure_eq!(rest, want, "the tail");
        let _ = n(&descs);
    }
    reg_finish()
}

/// Values without size: how many live is all that is known of them.
#[derive(Debug)]
struct Nil;
thread_local! { static NILS: Cell<(i64, u64)> = const { Cell::new((0, 0)) }; }
impl Nil { fn new() -> Nil { NILS.with(|n| n.set((n.get().0 + 1, n.get().1 + 1))); Nil } }
impl Drop for Nil { fn drop(&mut self) { NILS.with(|n| n.set((n.get().0 - 1, n.get().1))) } }
fn nils() -> i64 { NILS.with(|n| n.get().0) }
fn zero_sized(g: &mut Src, basic: bool) -> R {
    NILS.with(|n| n.set((0, 0)));
    reg_reset();
    let items = g.skewed(20);
    let err = if g.bool() { items } else { g.upto(items as u64) as usize };
    let verb = if basic { g.upto(1) } else { 2 + g.upto(2) };
    let have = cap(g);
    let kind = g.upto(8);
    let lie = g.upto(4);
    let hint = match lie { 0 => (0, None), 1 => (items, Some(items)), 2 => (1, Some(1)), 3 => (usize::MAX, None), _ => (0, Some(0)) };
    let taken = Cell::new(0usize);
    struct It<'a, T> { left: usize, hint: (usize, Option<usize>), taken: &'a Cell<usize>, f: &'a dyn Fn(usize) -> T }
    impl<T> Iterator for It<'_, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> { if self.left == 0 { return None } self.left -= 1; let n = self.taken.get(); self.taken.set(n + 1); Some((self.f)(n)) }
        fn size_hint(&self) -> (usize, Option<usize>) { self.hint }
    }
    g.log(|| format!("{} of {} with {have} from {items} items{}", ["fill", "fill by reference", "fill_and_keep_tail", "fill_count", "checked_fill"][verb as usize],
        ["a vector", "a deque", "an option", "a slice", "a result of a vector with an error without size", "a result of a vector with the error ()", "a result of () with an error without size", "a result of a slice with an error without size", "a result of an option with an error without size"][kind as usize],
        if kind > 3 && err < items { format!(", the error is number {err}") } else { String::new() }));
    let (mut left, mut tail, mut counted) = (None, None, None);
    macro_rules! go { ($c:expr, $f:expr) => {{
        let f = $f;
        let it = It { left: items, hint, taken: &taken, f: &f };
        match verb {
            0 => $c.fill(it),
            1 => { let mut it = it; $c.fill(&mut it); left = Some(it.left); }
            2 => left = Some($c.fill_and_keep_tail(it).left),
            3 => counted = Some($c.fill_count(it)),
            _ => { let t = $c.checked_fill(it); tail = Some(t.is_some()); left = t.map(|t| t.left); }
        }
    }} }
    fn failing<E>(err: usize, e: impl Fn() -> E) -> impl Fn(usize) -> Result<Nil, E> { move |i| if i == err { Err(e()) } else { Ok(Nil::new()) } }
    // What is taken: up to the room, the items, and one past the error.
    let slots = have;
    let (room, fails, holds): (usize, bool, i64) = match kind {
        0 => { let mut v: Vec<Nil> = (0..have).map(|_| Nil::new()).collect(); go!(v, |_| Nil::new()); ensure_eq!(v.len(), have + items, "elements"); ensure_eq!(nils(), v.len() as i64, "values alive"); (usize::MAX, false, v.len() as i64) }
        1 => { let mut v: VecDeque<Nil> = (0..have).map(|_| Nil::new()).collect(); go!(v, |_| Nil::new()); ensure_eq!(v.len(), have + items, "elements"); ensure_eq!(nils(), v.len() as i64, "values alive"); (usize::MAX, false, v.len() as i64) }
        2 => { let mut o = if have > 0 { Some(Nil::new()) } else { None }; let full = o.is_some(); go!(o, |_| Nil::new()); ensure_eq!(o.is_some(), full || items > 0, "full"); ensure_eq!(nils(), o.is_some() as i64, "values alive"); (!full as usize, false, o.is_some() as i64) }
        3 => { let mut v: Vec<Nil> = (0..slots).map(|_| Nil::new()).collect(); { let mut it = v.iter_mut(); go!(it, |_| Nil::new()); ensure_eq!(it.len(), slots - items.min(slots), "slots left"); } ensure_eq!(nils(), v.len() as i64, "values alive"); (slots, false, slots as i64) }
        4 => {
            let mut r: Result<Vec<Nil>, Nil> = Ok((0..have).map(|_| Nil::new()).collect());
            go!(r, failing(err, Nil::new));
            let fails = err < items;
            ensure_eq!(r.as_ref().map(|v| v.len()).map_err(|_| ()), if fails { Err(()) } else { Ok(have + items) }, "the result");
            let h = match &r { Ok(v) => v.len() as i64, Err(_) => 1 };
            ensure_eq!(nils(), h, "values alive");
            (usize::MAX, fails, h)
        }
        5 => {
            let mut r: Result<Vec<Tok8>, ()> = Ok({ let mut v = Vec::with_capacity(have + 6); v.extend((0..have).map(|_| Tok8::new())); v });
            let room = match &r { Ok(v) => v.capacity() - v.len(), _ => 0 };
            go!(r, |i| if i == err { Err(()) } else { Ok(Tok8::new()) });
            let fails = err < items.min(room);
            ensure_eq!(r.as_ref().map(|v| v.len()).map_err(|_| ()), if fails { Err(()) } else { Ok(have + items.min(room)) }, "the result");
            ensure_eq!(n_alive(), match &r { Ok(v) => v.len(), Err(()) => 0 }, "values alive");
            (room, fails, 0)
        }
        6 => {
            let mut r: Result<(), Nil> = Ok(());
            go!(r, |i| if i == err { Err(Nil::new()) } else { Ok(()) });
            let fails = err < items;
            ensure_eq!(r.is_err(), fails, "failed");
            ensure_eq!(nils(), fails as i64, "values alive");
            (usize::MAX, fails, fails as i64)
        }
        7 => {
            let mut v: Vec<Nil> = (0..slots).map(|_| Nil::new()).collect();
            let fails = err < items.min(slots);
            {
                let mut r: Result<IterMut<Nil>, Nil> = Ok(v.iter_mut());
                go!(r, failing(err, Nil::new));
                ensure_eq!(r.as_ref().map(|i| i.len()).map_err(|_| ()), if fails { Err(()) } else { Ok(slots - items.min(slots)) }, "the result");
                ensure_eq!(nils(), slots as i64 + fails as i64, "values alive");
            }
            (slots, fails, slots as i64)
        }
        _ => {
            let mut r: Result<Option<Nil>, Nil> = Ok(if have > 0 { Some(Nil::new()) } else { None });
            let room = (have == 0) as usize;
            go!(r, failing(err, Nil::new));
            let fails = err < items.min(room);
            ensure_eq!(r.as_ref().map(|o| o.is_some()).map_err(|_| ()), if fails { Err(()) } else { Ok(have > 0 || items > 0) }, "the result");
            (room, fails, nils())
        }
    };
    let _ = holds;
    let want = if fails { err + 1 } else { items.min(room) };
    ensure_eq!(taken.get(), want, "items taken");
    if let Some(l) = left { ensure_eq!(l, items - want, "items left"); }
    if let Some(n) = counted { ensure_eq!(n, want, "count"); }
    // The end of the source is seen only if it was asked for once more.
    if let Some(t) = tail { ensure_eq!(t, fails || items >= room, "tail returned"); }
    if want > 1 { g.nontrivial(); }
    g.label_if(fails, "failed");
    ensure_eq!(nils(), 0, "values never dropped");
    reg_finish()
}
fn zero_basic(g: &mut Src) -> R { zero_sized(g, true) }
fn zero_more(g: &mut Src) -> R { zero_sized(g, false) }

fn containers_basic(g: &mut Src) -> R { containers(g, true) }
fn slices_basic(g: &mut Src) -> R { slices(g, true) }
fn swap_basic(g: &mut Src) -> R { swapping(g, true) }
fn many_basic(g: &mut Src) -> R { crate::many::filling(g, true) }
fn many_more(g: &mut Src) -> R { crate::many::filling(g, false) }
fn containers_more(g: &mut Src) -> R { containers(g, false) }
fn slices_more(g: &mut Src) -> R { slices(g, false) }
fn swap_more(g: &mut Src) -> R { swapping(g, false) }
const RULE: &str = "a container in a random state filled repeatedly from iterators that count what is taken, mislead about their length, continue after their end, yield errors or never end; container, number of items taken and the rest compared with the model; non-trivial: filled to the brim";
#[cfg(feature = "c17")]
pub fn c17() -> Prop {
    Prop { id: "C17", assumptions: vec![], subs: vec![
        Sub { name: "containers", cases: (3_000_000, 60_000_000), run: containers_basic, track: true, rule: RULE },
        Sub { name: "slices", cases: (1_500_000, 30_000_000), run: slices_basic, track: true, rule: RULE },
        Sub { name: "swapping", cases: (600_000, 12_000_000), run: swap_basic, track: true, rule: "filling a slice by swapping with another; non-trivial: two elements swapped" },
        Sub { name: "again", cases: (600_000, 12_000_000), run: again_basic, track: true, rule: "a container that asks again after the end, inside of a result, filled from values and errors; non-trivial: an error that is not the first item" },
        Sub { name: "zero-sized", cases: (400_000, 8_000_000), run: zero_basic, track: true, rule: "containers, items and errors without size, which are counted; non-trivial: two items taken" },
        Sub { name: "many", cases: (8_000, 120_000), run: many_basic, track: false, rule: "containers with room for hundreds to more than 65536 items; non-trivial: over 256 items and places" },
        Sub { name: "fixed-vec", cases: (1_500_000, 22_500_000), run: fixed, track: true, rule: RULE } ] }
}
#[cfg(feature = "c18")]
pub fn c18() -> Prop {
    Prop { id: "C18", assumptions: vec![], subs: vec![
        Sub { name: "containers", cases: (3_000_000, 60_000_000), run: containers_more, track: true, rule: RULE },
        Sub { name: "slices", cases: (1_500_000, 30_000_000), run: slices_more, track: true, rule: RULE },
        Sub { name: "swapping", cases: (600_000, 12_000_000), run: swap_more, track: true, rule: "filling a slice by swapping with another; non-trivial: two elements swapped" },
        Sub { name: "again", cases: (600_000, 12_000_000), run: again_more, track: true, rule: "a container that asks again after the end, inside of a result, filled from values and errors; non-trivial: an error that is not the first item" },
        Sub { name: "zero-sized", cases: (400_000, 8_000_000), run: zero_more, track: true, rule: "containers, items and errors without size, which are counted; non-trivial: two items taken" },
        Sub { name: "many", cases: (8_000, 120_000), run: many_more, track: false, rule: "containers with room for hundreds to more than 65536 items; non-trivial: over 256 items and places" },
        Sub { name: "scripted", cases: (1_800_000, 40_000_000), run: scripted, track: true, rule: "a container of our own that asks any number of times, also after the end; non-trivial: it asks twice" } ] }
}
