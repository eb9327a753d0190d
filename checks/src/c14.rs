//! C14: histories over boxes in caller-provided memory.
use std::cell::Cell;

use pbt::{catch_quiet, ensure, ensure_eq, Prop, Src, Sub, R};
use unsize_registry::{CoerceUnsize, Coercion};
use without_alloc::boxed::Box;
use without_alloc::Uninit;

use crate::region::Region;
use crate::vals::*;

/// What is put into boxes: one or more tracked tokens.
pub trait Obj: 'static {
    fn ids(&self, f: &mut dyn FnMut(Option<u32>));
    fn renew(&mut self);
}
trait Make: Obj + Sized { type E; fn make() -> Self; fn to_slice(b: Box<'static, Self>) -> Result<Box<'static, [Self::E]>, Box<'static, Self>>; fn of_slice(s: &[Self::E], f: &mut dyn FnMut(Option<u32>)); }
struct One<T>(T);
impl<T: Tok> Obj for One<T> {
    fn ids(&self, f: &mut dyn FnMut(Option<u32>)) { f(self.0.id()) }
    fn renew(&mut self) { self.0 = T::new(); }
}
impl<T: Tok> Make for One<T> { type E = T; fn make() -> Self { One(T::new()) }
    fn to_slice(b: Box<'static, Self>) -> Result<Box<'static, [T]>, Box<'static, Self>> { Err(b) }
    fn of_slice(_: &[T], _: &mut dyn FnMut(Option<u32>)) { unreachable!() } }
impl<T: Tok, const N: usize> Obj for [T; N] {
    fn ids(&self, f: &mut dyn FnMut(Option<u32>)) { for t in self { f(t.id()) } }
    fn renew(&mut self) { if let Some(t) = self.last_mut() { *t = T::new(); } }
}
impl<T: Tok, const N: usize> Make for [T; N] { type E = T; fn make() -> Self { std::array::from_fn(|_| T::new()) }
    fn to_slice(b: Box<'static, Self>) -> Result<Box<'static, [T]>, Box<'static, Self>> { Ok(b.unsize(Coercion::to_slice())) }
    fn of_slice(s: &[T], f: &mut dyn FnMut(Option<u32>)) { for t in s { f(t.id()) } } }

enum B<X: Make> {
    Sized(Box<'static, X>),
    Dyn(Box<'static, dyn Obj>),
    Slice(Box<'static, [X::E]>),
    Raw(Uninit<'static, X>),
    RawDyn(Uninit<'static, dyn Obj>),
    Leaked(&'static mut X),
}
struct Entry<X: Make> { b: B<X>, ids: Vec<u32>, addr: usize, len: usize }
fn coerce<X: Obj>() -> Coercion<X, dyn Obj> { fn f<X: Obj>(p: *const X) -> *const dyn Obj { p } unsafe { Coercion::new(f) } }

impl<X: Make> Entry<X> {
    fn check(&self) -> R {
        let mut n = 0;
        let mut bad = None;
        let mut see = |id: Option<u32>| { if self.ids.get(n).copied() != id || id.is_none() { bad = Some((n, id)); } n += 1; };
        let (addr, size) = match &self.b {
            B::Sized(b) => { (**b).ids(&mut see); (&**b as *const X as usize, size_of_val::<X>(&**b)) }
            B::Dyn(b) => { (**b).ids(&mut see); (&**b as *const dyn Obj as *const u8 as usize, size_of_val::<dyn Obj>(&**b)) }
            B::Slice(b) => { X::of_slice(b, &mut see); (b.as_ptr() as usize, size_of_val::<[X::E]>(&**b)) }
            B::Raw(u) => { unsafe { u.as_ref() }.ids(&mut see); (u.as_ptr() as usize, size_of::<X>()) }
            B::RawDyn(u) => { let r = unsafe { u.as_ref() }; r.ids(&mut see); (u.as_ptr() as *mut u8 as usize, size_of_val(r)) }
            B::Leaked(r) => { r.ids(&mut see); (&**r as *const X as usize, size_of::<X>()) }
        };
        ensure!(bad.is_none() && n == self.ids.len(), "the box holds {n} values, value {bad:?} is wrong, expected {:?}", self.ids);
        ensure!(addr == self.addr, "the value moved from {:#x} to {addr:#x}", self.addr);
        ensure!(size == size_of::<X>(), "{size} bytes instead of {}", size_of::<X>());
        if let B::Raw(u) = &self.b {
            ensure!(u.size() == self.len, "memory of {} bytes, given were {}", u.size(), self.len);
            let v = u.borrow();
            ensure!(v.size() == self.len && v.as_ptr() as usize == self.addr, "a view of {} bytes, given were {}", v.size(), self.len);
            let v = v.unsize(coerce());
            ensure!(v.size() == self.len && v.as_ptr() as *const u8 as usize == self.addr, "an unsized view of {} bytes at {:?}, given were {} at {:#x}", v.size(), v.as_ptr() as *const u8, self.len, self.addr);
            let r = unsafe { v.as_ref() };
            ensure!(size_of_val(r) == size_of::<X>() && align_of_val(r) == align_of::<X>(), "an unsized view of a value of {} bytes", size_of_val(r));
            let l = std::alloc::Layout::from_size_align(self.len, 1).unwrap();
            ensure!(v.fits(l), "{l:?} does not fit an unsized view of {} bytes", self.len);
        }
        if let B::RawDyn(u) = &self.b {
            ensure!(u.size() == self.len, "memory of {} bytes, given were {}", u.size(), self.len);
            let v = u.borrow();
            ensure!(v.size() == self.len && v.as_ptr() as *const u8 as usize == self.addr, "a view of {} bytes at {:?}, given were {}", v.size(), v.as_ptr() as *const u8, self.len);
        }
        Ok(())
    }
    fn drop_value(self) {
        match self.b {
            B::Raw(u) => drop(unsafe { Box::from_raw(u) }),
            B::RawDyn(u) => drop(unsafe { Box::from_raw(u) }),
            B::Leaked(r) => unsafe { std::ptr::drop_in_place(r) },
            B::Sized(b) => drop(b),
            B::Dyn(b) => drop(b),
            B::Slice(b) => drop(b),
        }
    }
}
fn ids<X: Obj>(x: &X) -> Vec<u32> { let mut v = vec![]; x.ids(&mut |i| v.push(i.unwrap_or(u32::MAX))); v }

fn case<X: Make>(g: &mut Src) -> R {
    reg_reset();
    let mut regions: Vec<Region> = vec![];
    let mut pool: Vec<Uninit<'static, ()>> = vec![];
    let mut es: Vec<Entry<X>> = vec![];
    let mut owned: Vec<(X, Vec<u32>)> = vec![];
    let (mut n, mut conv) = (0, 0);
    while g.more(n, 16, 60) {
        n += 1;
        let op = if es.is_empty() { 0 } else { g.weighted(&[5, 3, 3, 3, 3, 2, 3, 2, 1]) };
        let i = if es.is_empty() { 0 } else { g.upto(es.len() as u64 - 1) as usize };
        g.log(|| format!("{} on box {i}", ["new", "drop", "take", "into_raw", "from_raw", "unsize to a trait object", "write", "unsize to a slice", "leak"][op]));
        match op {
            0 => {
                let mem = if !pool.is_empty() && g.bool() { g.label("memory reused"); pool.pop().unwrap() } else {
                    if regions.len() >= 8 { continue; }
                    let bad = g.chance(1, 4);
                    let (off, len) = if bad { (g.range(0, 63), g.range(0, size_of::<X>() + 8)) } else { (0, size_of::<X>() + g.skewed(40)) };
                    regions.push(Region::new(off, len));
                    regions.last_mut().unwrap().memory()
                };
                let (addr, len) = (mem.as_ptr() as usize, mem.size());
                let fits = addr % align_of::<X>() == 0 && len >= size_of::<X>();
                match mem.cast::<X>() {
                    Err(back) => {
                        ensure!(!fits, "memory of {len} bytes at {addr:#x} refused");
                        ensure!(back.as_ptr() as usize == addr && back.size() == len, "refused memory is not given back as it was");
                        g.label("unsuitable memory");
                    }
                    Ok(u) => {
                        ensure!(fits, "memory of {len} bytes at {addr:#x} accepted for a value of {} bytes", size_of::<X>());
                        let x = if !owned.is_empty() && g.bool() { owned.pop().unwrap().0 } else { X::make() };
                        let ids = ids(&x);
                        let b = if g.bool() { Box::new(x, u) } else { u.into_box(x) };
                        es.push(Entry { b: B::Sized(b), ids, addr, len });
                    }
                }
            }
            1 => {
                let e = es.swap_remove(i);
                let bomb = if e.ids.is_empty() || !g.chance(1, 4) { None } else { Some(g.pick(&e.ids)) };
                if let Some(b) = bomb { set_bomb(b); g.label("panicking drop"); }
                let ids = e.ids.clone();
                let r = catch_quiet(|| e.drop_value());
                ensure!(r.is_some() == bomb.is_none(), "panicked: {}", r.is_none());
                for id in ids { ensure!(!is_alive(id), "value {id} not dropped with its box"); }
            }
            2 => {
                let e = es.swap_remove(i);
                match e.b {
                    B::Sized(b) => {
                        let (x, u) = Box::take(b);
                        ensure_eq!(ids(&x), e.ids, "the extracted value");
                        ensure!(u.as_ptr() as usize == e.addr && u.size() == e.len, "{} bytes at {:?} handed back, given were {} at {:#x}", u.size(), u.as_ptr(), e.len, e.addr);
                        pool.push(u.as_memory());
                        owned.push((x, e.ids));
                        g.label("taken");
                    }
                    b => es.push(Entry { b, ..e }),
                }
            }
            3 | 4 | 5 | 7 | 8 => {
                let e = es.swap_remove(i);
                let was = std::mem::discriminant(&e.b);
                let b = match (op, e.b) {
                    (3, B::Sized(b)) => B::Raw(Box::into_raw(b)),
                    (3, B::Dyn(b)) => B::RawDyn(Box::into_raw(b)),
                    (4, B::Raw(u)) => B::Sized(unsafe { Box::from_raw(u) }),
                    (4, B::RawDyn(u)) => B::Dyn(unsafe { Box::from_raw(u) }),
                    (5, B::Sized(b)) => B::Dyn(b.unsize(coerce())),
                    (5, B::Raw(u)) => B::RawDyn(u.unsize(coerce())),
                    (7, B::Sized(b)) => match X::to_slice(b) { Ok(s) => B::Slice(s), Err(b) => B::Sized(b) },
                    (8, B::Sized(b)) => B::Leaked(Box::leak(b)),
                    (_, b) => b,
                };
                if std::mem::discriminant(&b) != was { conv += 1; }
                let mut e = Entry { b, ..e };
                // Without its value the raw memory is plain memory again.
                if let (B::RawDyn(_), true) = (&e.b, g.chance(1, 4)) {
                    let B::RawDyn(u) = e.b else { unreachable!() };
                    unsafe { std::ptr::drop_in_place(u.as_ptr()) };
                    let m = u.as_memory();
                    ensure!(m.as_ptr() as usize == e.addr && m.size() == e.len, "unsized memory became {} bytes at {:?}", m.size(), m.as_ptr());
                    pool.push(m);
                    for id in &e.ids { ensure!(!is_alive(*id), "value {id} not dropped"); }
                    continue;
                }
                e.len = e.len;
                es.push(e);
            }
            _ => {
                let e = &mut es[i];
                match &mut e.b {
                    B::Sized(b) => { b.renew(); e.ids = ids(&**b); }
                    B::Dyn(b) => { b.renew(); let mut v = vec![]; (**b).ids(&mut |i| v.push(i.unwrap_or(u32::MAX))); e.ids = v; }
                    B::Raw(u) => { let x = unsafe { u.as_mut() }; x.renew(); e.ids = ids(x); }
                    B::Leaked(r) => { r.renew(); e.ids = ids(&**r); }
                    B::Slice(b) => { if b.len() > 1 { b.swap(0, 1); let m = e.ids.len(); e.ids.swap(0, 1); assert!(m > 1); } }
                    B::RawDyn(_) => {}
                }
            }
        }
        reg_errors()?;
        for e in &es { e.check()?; }
        for (x, v) in &owned { ensure_eq!(ids(x), *v, "an extracted value"); }
        let all = es.iter().map(|e| e.ids.len()).sum::<usize>() + owned.iter().map(|o| o.1.len()).sum::<usize>();
        ensure!(n_alive() == all, "{} values alive, expected {all}", n_alive());
        for r in &regions { r.guards()?; }
    }
    if conv >= 2 { g.nontrivial(); }
    for e in es { e.drop_value(); }
    drop(owned);
    for r in &regions { r.guards()?; }
    reg_finish()
}
fn history(g: &mut Src) -> R {
    match g.upto(11) { 9 => case::<One<Tok12>>(g), 10 => case::<One<Tok24>>(g), 11 => case::<[Tok24; 4]>(g), 0 => case::<One<Tok8>>(g), 1 => case::<One<Tok20>>(g), 2 => case::<One<TokA16>>(g), 3 => case::<One<TokBox>>(g), 4 => case::<One<TokA64>>(g),
        5 => case::<[Tok8; 3]>(g), 6 => case::<[Tok20; 2]>(g), 7 => case::<[TokBox; 4]>(g), _ => case::<[TokA64; 0]>(g) }
}

/// Arrays of many values.
fn large(g: &mut Src) -> R {
    match g.upto(9) { 0 => case::<[Tok8; 66_000]>(g), 1..=4 => case::<[TokA64; 300]>(g), 5 | 6 => case::<[Tok8; 8200]>(g), _ => case::<[Tok8; 257]>(g) }
}

/// Values without a size, with and without alignment, in memory of any size.
fn zst(g: &mut Src) -> R {
    thread_local! { static D: Cell<usize> = const { Cell::new(0) }; }
    trait Tell { fn tell(&self) -> usize; }
    struct Z;
    #[repr(align(32))] struct Zb;
    impl Drop for Z { fn drop(&mut self) { D.with(|d| d.set(d.get().wrapping_add(1))); } }
    impl Drop for Zb { fn drop(&mut self) { D.with(|d| d.set(d.get().wrapping_add(1))); } }
    impl Tell for Z { fn tell(&self) -> usize { self as *const _ as usize } }
    impl Tell for Zb { fn tell(&self) -> usize { self as *const _ as usize } }
    fn go<Z: Tell + 'static>(g: &mut Src, make: fn() -> Z) -> R {
        D.with(|d| d.set(0));
        let mut region = Region::gen(g, 40);
        let fits = region.addr() % align_of::<Z>() == 0;
        let mem = region.memory();
        let u = if g.bool() { Uninit::invent_for_zst() } else { match mem.cast::<Z>() {
            Ok(u) => { ensure!(fits, "misaligned memory accepted"); u }
            Err(_) => { ensure!(!fits, "memory refused"); return Ok(()); }
        } };
        let (addr, len) = (u.as_ptr() as usize, u.size());
        ensure!(addr % align_of::<Z>() == 0, "misaligned");
        g.nontrivial();
        let mut b = Box::new(make(), u);
        let mut n = 0;
        while g.more(n, 5, 20) {
            n += 1;
            ensure_eq!(b.tell(), addr, "address");
            match g.upto(2) {
                0 => b = { let u = Box::into_raw(b); ensure!(u.size() == len && u.as_ptr() as usize == addr, "raw form of {} bytes", u.size()); unsafe { Box::from_raw(u) } },
                1 => b = { let (x, u) = Box::take(b); ensure_eq!(D.with(|d| d.get()), 0, "drops"); Box::new(x, u) },
                _ => *b = { let k = D.with(|d| d.get()); let x = make(); D.with(|d| d.set(k.wrapping_sub(1))); x },
            }
            ensure_eq!(D.with(|d| d.get()), 0, "values dropped");
        }
        fn f<Z: Tell + 'static>(p: *const Z) -> *const dyn Tell { p }
        match g.upto(2) {
            0 => drop(b),
            1 => { let d: Box<dyn Tell> = b.unsize(unsafe { Coercion::new(f::<Z> as fn(*const Z) -> *const dyn Tell) }); ensure_eq!(d.tell(), addr, "address"); ensure_eq!(align_of_val::<dyn Tell>(&*d), align_of::<Z>(), "alignment"); drop(d); }
            _ => { let (x, _) = Box::take(b); ensure_eq!(D.with(|d| d.get()), 0, "drops"); drop(x); }
        }
        ensure_eq!(D.with(|d| d.get()), 1, "values dropped");
        region.guards()
    }
    if g.bool() { go::<Z>(g, || Z) } else { go::<Zb>(g, || Zb) }
}

pub fn prop() -> Prop {
    Prop { id: "C14", assumptions: vec![], subs: vec![
        Sub { name: "history", cases: (1_500_000, 40_000_000), run: history, track: true,
            rule: "random histories over boxes of sized, array, trait-object and slice type in regions of memory, with extraction, reuse of the memory handed back, raw and leaked forms and panicking drops; content, address and memory checked after each step; non-trivial: two conversions" },
        Sub { name: "zst", cases: (300_000, 6_000_000), run: zst, track: true, rule: "zero-sized values; non-trivial: memory accepted" },
        Sub { name: "large", cases: (1_500, 30_000), run: |g| crate::many::on_big_stack(g, large), track: true, rule: "the histories with arrays of 300 to 66000 values; non-trivial: two conversions" } ] }
}
