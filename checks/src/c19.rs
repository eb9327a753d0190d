//! C19: every pointer kind, unsized in every way, against the sized original.
use std::any::Any;
use std::collections::hash_map::DefaultHasher;
use std::fmt::{Debug, Display};
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::pin::Pin;
use std::ptr::NonNull;
use std::rc::{self, Rc};
use std::sync::{self, Arc};
use std::task::{Context, Poll, Waker};

use pbt::{ensure, ensure_eq, Prop, Src, Sub, R};
use unsize::{CoerceUnsized, CoerciblePtr, Coercion};

use crate::vals::*;

/// A value with identity and all the traits there are coercions for.
struct W<T: Tok> { t: T, n: u32 }
trait Obj { fn code(&self) -> u64; fn bump(&mut self); fn addr(&self) -> usize; }
impl<T: Tok> W<T> {
    fn make(n: u32) -> Self { W { t: T::new(), n } }
    fn code0(&self) -> u64 { (self.t.id().unwrap_or(u32::MAX) as u64) << 32 | self.n as u64 }
}
impl<T: Tok> Obj for W<T> { fn code(&self) -> u64 { self.code0() } fn bump(&mut self) { self.n += 1; } fn addr(&self) -> usize { self as *const Self as usize } }
impl<T: Tok> Debug for W<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.code0()) } }
impl<T: Tok> Display for W<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.code0()) } }
impl<T: Tok> Iterator for W<T> { type Item = u64; fn next(&mut self) -> Option<u64> { self.n += 1; Some(self.code0()) } fn size_hint(&self) -> (usize, Option<usize>) { (self.n as usize, Some(self.t.id().unwrap_or(u32::MAX) as usize)) } }
impl<T: Tok> Unpin for W<T> {}
impl<T: Tok> Future for W<T> { type Output = u64; fn poll(mut self: Pin<&mut Self>, _: &mut Context) -> Poll<u64> { self.n += 1; Poll::Ready(self.code0()) } }

/// The user-defined pointer of the documentation.
struct MyBox<T: ?Sized>(Box<T>);
unsafe impl<'lt, T, U: ?Sized + 'lt> CoerciblePtr<U> for MyBox<T> {
    type Pointee = T;
    type Output = MyBox<U>;
    fn as_sized_ptr(self: &mut MyBox<T>) -> *mut T { (&mut *self.0) as *mut T }
    unsafe fn replace_ptr(self, new: *mut U) -> MyBox<U> { let raw: *mut T = Box::into_raw(self.0); let raw: *mut U = raw.replace_ptr(new); MyBox(Box::from_raw(raw)) }
}

/// How to look at and change the sized and the unsized form.
struct Way<T, U: ?Sized> {
    name: &'static str,
    make: Box<dyn Fn() -> T>,
    c: Coercion<T, U>,
    code: fn(&T) -> u64,
    seen: fn(&U) -> Option<u64>,
    change: fn(&mut U) -> bool,
}

fn same<T, U: ?Sized>(w: &Way<T, U>, u: &U, at: usize, code: u64) -> R {
    ensure!(u as *const U as *const u8 as usize == at, "the unsized pointer is {:p}, the sized one was {at:#x}", u as *const U as *const u8);
    ensure!(size_of_val(u) == size_of::<T>() && align_of_val(u) == align_of::<T>(), "size {} and alignment {} through the unsized pointer, {} and {} before", size_of_val(u), align_of_val(u), size_of::<T>(), align_of::<T>());
    if let Some(c) = (w.seen)(u) { ensure!(c == code, "the {} behaves as {c:#x} instead of {code:#x}", w.name); }
    Ok(())
}

fn kinds<T: 'static, U: ?Sized + 'static>(g: &mut Src, w: Way<T, U>) -> R {
    let kind = g.upto(13);
    g.log(|| format!("{} as {}", ["&", "&mut", "*const", "*mut", "NonNull", "Box", "Rc", "Arc", "rc::Weak", "sync::Weak", "Pin<Box>", "Pin<&mut>", "a user's box", "any raw pointer"][kind as usize], w.name));
    let c = w.c;
    let d = c.clone();
    ensure!(c == d && { let h = |c: &Coercion<T, U>| { let mut h = DefaultHasher::new(); c.hash(&mut h); h.finish() }; h(&c) == h(&d) }, "a copied coercion differs");
    let mut x = (w.make)();
    let at = &x as *const T as usize;
    let code = (w.code)(&x);
    if size_of::<T>() > 0 { g.nontrivial(); }
    macro_rules! changed { ($u:expr) => { { (w.change)($u) } } }
    match kind {
        0 => { let r: &U = (&x).unsize(c); same(&w, r, at, code)?; }
        1 => {
            let r: &mut U = (&mut x).unsize(c);
            same(&w, r, at, code)?;
            let ch = changed!(r);
            ensure!(((w.code)(&x) != code) == ch, "a change through the unsized reference is {}seen", if ch { "not " } else { "" });
        }
        2 => { let r: *const U = (&x as *const T).unsize(c); same(&w, unsafe { &*r }, at, code)?; }
        3 => { let r: *mut U = (&mut x as *mut T).unsize(c); same(&w, unsafe { &*r }, at, code)?; let ch = changed!(unsafe { &mut *r }); ensure!(((w.code)(&x) != code) == ch, "change"); }
        4 => { let r: NonNull<U> = NonNull::from(&mut x).unsize(c); same(&w, unsafe { r.as_ref() }, at, code)?; let ch = changed!(unsafe { &mut *r.as_ptr() }); ensure!(((w.code)(&x) != code) == ch, "change"); }
        5 | 12 => {
            let b = Box::new(x);
            let at = &*b as *const T as usize;
            let mut b: Box<U> = if kind == 5 { b.unsize(c) } else { MyBox(b).unsize(c).0 };
            same(&w, &b, at, code)?;
            let ch = changed!(&mut *b);
            // Back to what it was, or dropped as it is.
            if g.bool() { let b = unsafe { Box::from_raw(Box::into_raw(b) as *mut T) }; ensure!(((w.code)(&b) != code) == ch, "change"); }
            return Ok(());
        }
        6 => {
            let mut r = vec![Rc::new(x)];
            let mut weak = vec![];
            for _ in 0..g.upto(2) { let c = r[0].clone(); r.push(c); }
            for _ in 0..g.upto(2) { weak.push(Rc::downgrade(&r[0])); }
            let at = Rc::as_ptr(&r[0]) as usize;
            let (ns, nw) = (r.len(), weak.len());
            let mut u: Rc<U> = r.pop().unwrap().unsize(c);
            same(&w, &u, at, code)?;
            ensure!(Rc::strong_count(&u) == ns && Rc::weak_count(&u) == nw, "counts {} and {} after unsizing, {ns} and {nw} before", Rc::strong_count(&u), Rc::weak_count(&u));
            if g.bool() { let v = u.clone(); let wk = Rc::downgrade(&u); ensure!(Rc::strong_count(&v) == ns + 1 && wk.upgrade().is_some(), "clone"); same(&w, &v, at, code)?; }
            let m = Rc::get_mut(&mut u);
            ensure!(m.is_some() == (ns == 1 && nw == 0), "exclusive access");
            if let Some(m) = m { changed!(m); }
            if g.bool() { drop(r); same_alive(&w, &u)?; drop(u); } else { drop(u); for r in &r { ensure!((w.code)(r) == code, "the value is gone with its unsized handle"); } }
            for wk in &weak { ensure!(wk.strong_count() == 0 || ns > 1, "strong handles left"); }
        }
        7 => {
            let mut r = vec![Arc::new(x)];
            let mut weak = vec![];
            for _ in 0..g.upto(2) { let c = r[0].clone(); r.push(c); }
            for _ in 0..g.upto(2) { weak.push(Arc::downgrade(&r[0])); }
            let at = Arc::as_ptr(&r[0]) as usize;
            let (ns, nw) = (r.len(), weak.len());
            let mut u: Arc<U> = r.pop().unwrap().unsize(c);
            same(&w, &u, at, code)?;
            ensure!(Arc::strong_count(&u) == ns && Arc::weak_count(&u) == nw, "counts {} and {} after unsizing, {ns} and {nw} before", Arc::strong_count(&u), Arc::weak_count(&u));
            let m = Arc::get_mut(&mut u);
            ensure!(m.is_some() == (ns == 1 && nw == 0), "exclusive access");
            if let Some(m) = m { changed!(m); }
            if g.bool() { drop(r); same_alive(&w, &u)?; drop(u); } else { drop(u); for r in &r { ensure!((w.code)(r) == code, "the value is gone with its unsized handle"); } }
        }
        8 => {
            let r = Rc::new(x);
            let at = Rc::as_ptr(&r) as usize;
            match g.upto(2) {
                0 => {
                    let wk = Rc::downgrade(&r);
                    let more: Vec<_> = (0..g.upto(2)).map(|_| wk.clone()).collect();
                    let wu: rc::Weak<U> = wk.unsize(c);
                    ensure!(wu.strong_count() == 1 && wu.weak_count() == more.len() + 1 && Rc::weak_count(&r) == more.len() + 1, "counts {} and {}", wu.strong_count(), wu.weak_count());
                    ensure!(wu.as_ptr() as *const u8 as usize == at, "address");
                    let u = wu.upgrade().ok_or("the value is alive but cannot be reached")?;
                    same(&w, &u, at, code)?;
                    ensure!(Rc::strong_count(&r) == 2, "count");
                    if g.bool() { drop(r); same(&w, &u, at, code)?; drop(u); } else { drop(u); drop(r); }
                    ensure!(wu.upgrade().is_none() && wu.strong_count() == 0, "a dropped value is reached");
                }
                1 => {
                    // The value is gone, its memory is not.
                    let wk = Rc::downgrade(&r);
                    let two = wk.clone();
                    drop(r);
                    let wu: rc::Weak<U> = wk.unsize(c);
                    ensure!(wu.upgrade().is_none() && wu.strong_count() == 0 && two.upgrade().is_none() && wu.as_ptr() as *const u8 as usize == at, "a dropped value is reached");
                    let three = wu.clone();
                    drop((wu, two, three));
                }
                _ => { drop(r); let wu: rc::Weak<U> = rc::Weak::<T>::new().unsize(c); let v = wu.clone(); ensure!(wu.upgrade().is_none() && v.strong_count() == 0 && v.weak_count() == 0, "a handle to nothing reaches something"); }
            }
        }
        9 => {
            let r = Arc::new(x);
            let at = Arc::as_ptr(&r) as usize;
            match g.upto(2) {
                0 => {
                    let wk = Arc::downgrade(&r);
                    let more: Vec<_> = (0..g.upto(2)).map(|_| wk.clone()).collect();
                    let wu: sync::Weak<U> = wk.unsize(c);
                    ensure!(wu.strong_count() == 1 && wu.weak_count() == more.len() + 1 && Arc::weak_count(&r) == more.len() + 1, "counts {} and {}", wu.strong_count(), wu.weak_count());
                    ensure!(wu.as_ptr() as *const u8 as usize == at, "address");
                    let u = wu.upgrade().ok_or("the value is alive but cannot be reached")?;
                    same(&w, &u, at, code)?;
                    if g.bool() { drop(r); same(&w, &u, at, code)?; drop(u); } else { drop(u); drop(r); }
                    ensure!(wu.upgrade().is_none() && wu.strong_count() == 0, "a dropped value is reached");
                }
                1 => {
                    let wk = Arc::downgrade(&r);
                    let two = wk.clone();
                    drop(r);
                    let wu: sync::Weak<U> = wk.unsize(c);
                    ensure!(wu.upgrade().is_none() && wu.strong_count() == 0 && two.upgrade().is_none() && wu.as_ptr() as *const u8 as usize == at, "a dropped value is reached");
                    let three = wu.clone();
                    drop((wu, two, three));
                }
                _ => { drop(r); let wu: sync::Weak<U> = sync::Weak::<T>::new().unsize(c); let v = wu.clone(); ensure!(wu.upgrade().is_none() && v.strong_count() == 0 && v.weak_count() == 0, "a handle to nothing reaches something"); }
            }
        }
        10 => {
            let b = Box::pin(x);
            let at = &*b as *const T as usize;
            let b: Pin<Box<U>> = b.unsize(c);
            same(&w, &b, at, code)?;
        }
        11 => { let p: Pin<&mut U> = unsafe { Pin::new_unchecked(&mut x) }.unsize(c); same(&w, &p, at, code)?; let ch = unsafe { changed!(p.get_unchecked_mut()) }; ensure!(((w.code)(&x) != code) == ch, "change"); }
        _ => {
            // Raw pointers need not point to anything.
            let a = match g.upto(2) { 0 => 0, 1 => align_of::<T>(), _ => (g.upto(1 << 40) as usize).wrapping_mul(8) };
            let (p, m) = (a as *const T, a as *mut T);
            ensure!(p.unsize(c) as *const u8 as usize == a && m.unsize(c) as *mut u8 as usize == a, "the raw pointer {a:#x} moved");
            if let Some(n) = NonNull::new(m) { ensure!(n.unsize(c).as_ptr() as *mut u8 as usize == a, "the raw pointer {a:#x} moved"); }
        }
    }
    Ok(())
}
fn same_alive<T, U: ?Sized>(w: &Way<T, U>, u: &U) -> R { let _ = (w.seen)(u); ensure!(size_of_val(u) == size_of::<T>(), "size"); Ok(()) }

fn objects<T: Tok + Send>(g: &mut Src) -> R {
    let n = g.upto(1000) as u32;
    let make = move || Box::new(move || W::<T>::make(n)) as Box<dyn Fn() -> W<T>>;
    let way = g.upto(6);
    let before = n_alive();
    match way {
        0 => kinds(g, Way { name: "a user's trait", make: make(), c: std::convert::identity(Coercion!(to dyn Obj)), code: W::code0, seen: |u| (u.addr() == u as *const dyn Obj as *const u8 as usize).then(|| u.code()).or(Some(0)), change: |u| { u.bump(); true } })?,
        1 => kinds(g, Way { name: "Any", make: make(), c: Coercion::to_any(), code: W::code0, seen: |u| Some(u.downcast_ref::<W<T>>().map_or(1 << 62, |w| w.code0())), change: |u| { u.downcast_mut::<W<T>>().map(|w| w.n += 1).is_some() } })?,
        2 => kinds(g, Way { name: "Debug", make: make(), c: Coercion::to_debug(), code: W::code0, seen: |u| Some(format!("{u:?}").parse().unwrap()), change: |_| false })?,
        3 => kinds(g, Way { name: "Display", make: make(), c: Coercion::to_display(), code: W::code0, seen: |u| Some(format!("{u}").parse().unwrap()), change: |_| false })?,
        4 => kinds(g, Way { name: "Iterator", make: make(), c: Coercion::to_iterator(), code: W::code0, seen: |u: &(dyn Iterator<Item = u64> + 'static)| { let (a, b) = u.size_hint(); Some((b.unwrap() as u64) << 32 | a as u64) }, change: |u| { u.next(); true } })?,
        5 => kinds(g, Way { name: "Future", make: make(), c: Coercion::to_future(), code: W::code0, seen: |_: &(dyn Future<Output = u64> + 'static)| None, change: |u| { let p = unsafe { Pin::new_unchecked(u) }; p.poll(&mut Context::from_waker(Waker::noop())).is_ready() } })?,
        _ => kinds(g, Way { name: "Debug + Send", make: make(), c: std::convert::identity(Coercion!(to dyn Debug + Send)), code: W::code0, seen: |u| Some(format!("{u:?}").parse().unwrap()), change: |_| false })?,
    }
    ensure!(n_alive() == before, "{} values leaked", n_alive() - before);
    Ok(())
}
fn slices<T: Tok, const N: usize>(g: &mut Src) -> R {
    fn code<T: Tok>(s: &[T]) -> u64 { s.iter().fold(s.len() as u64, |h, t| h.wrapping_mul(1_000_003) ^ t.id().map_or(1 << 40, |i| i as u64)) }
    kinds(g, Way::<[T; N], [T]> { name: "a slice", make: Box::new(|| std::array::from_fn(|_| T::new())), c: Coercion::to_slice(), code: |x| code(&x[..]), seen: |u| Some(code(u)), change: |u| if u.len() > 1 { u.swap(0, 1); true } else if let Some(x) = u.first_mut() { *x = T::new(); true } else { false } })?;
    ensure!(n_alive() == 0, "{} values leaked", n_alive());
    Ok(())
}
fn data(g: &mut Src) -> R {
    reg_reset();
    match g.upto(15) {
        0 | 1 => objects::<Tok8>(g)?, 2 | 3 => objects::<Tok20>(g)?, 4 => objects::<TokA16>(g)?, 5 => objects::<TokA64>(g)?, 6 => objects::<Tok300>(g)?, 7 => objects::<TokBox>(g)?,
        8 => slices::<Tok8, 0>(g)?, 9 => slices::<Tok8, 1>(g)?, 10 => slices::<Tok8, 7>(g)?, 11 => slices::<TokA64, 2>(g)?, 12 => slices::<TokBox, 3>(g)?, 13 => slices::<Tok20, 5>(g)?, 14 => slices::<TokA64, 0>(g)?,
        _ => {
            // A zero-sized, over-aligned value.
            kinds(g, Way { name: "Debug of a zero-sized value", make: Box::new(|| Z64), c: Coercion::to_debug(), code: |_| 0, seen: |u| Some((format!("{u:?}") != "Z64") as u64), change: |_| false })?;
        }
    }
    reg_finish()
}

/// Closures of every arity.
macro_rules! arity {
    ($name:ident, $(($a:ident, $A:ty)),*) => {
        fn $name(g: &mut Src) -> R {
            $(let $a = g.upto(0xFFFF) as $A;)*
            let mix = |id: u64, n: u64| -> u64 { let h = id ^ n << 20; $(let h = h.wrapping_mul(0x1000_0000_01b3) ^ $a as u64;)* h };
            fn clos<T: Tok>(t: T) -> impl Fn($($A),*) -> u64 + 'static { move |$($a: $A),*| { let h = t.id().unwrap_or(u32::MAX) as u64; $(let h = h.wrapping_mul(0x1000_0000_01b3) ^ $a as u64;)* h } }
            fn clos_mut<T: Tok>(t: T) -> impl FnMut($($A),*) -> u64 + 'static { let mut n = 0u64; move |$($a: $A),*| { n += 1; let h = t.id().unwrap_or(u32::MAX) as u64 ^ n << 20; $(let h = h.wrapping_mul(0x1000_0000_01b3) ^ $a as u64;)* h } }
            fn clos_once<T: Tok>(t: T) -> impl FnOnce($($A),*) -> u64 + 'static { move |$($a: $A),*| { let t = t; let h = t.id().unwrap_or(u32::MAX) as u64; $(let h = h.wrapping_mul(0x1000_0000_01b3) ^ $a as u64;)* h } }
            fn go<T: Tok>(g: &mut Src, mix: impl Fn(u64, u64) -> u64, $($a: $A),*) -> R {
                let t = T::new();
                let id = t.id().unwrap() as u64;
                match g.upto(8) {
                    0 => { let f = clos(t); let d: &dyn Fn($($A),*) -> u64 = (&f).unsize(Coercion::<_, dyn Fn($($A),*) -> u64>::to_fn()); ensure_eq!(d($($a),*), mix(id, 0), "call"); ensure!(size_of_val(d) == size_of_val(&f), "size"); }
                    1 => { let f = Box::new(clos(t)); let d: Box<dyn Fn($($A),*) -> u64> = f.unsize(Coercion::<_, dyn Fn($($A),*) -> u64>::to_fn()); ensure_eq!(d($($a),*), mix(id, 0), "call"); ensure_eq!(d($($a),*), mix(id, 0), "second call"); }
                    2 => { let f = Rc::new(clos(t)); let k = f.clone(); let d: Rc<dyn Fn($($A),*) -> u64> = f.unsize(Coercion::<_, dyn Fn($($A),*) -> u64>::to_fn()); ensure!(Rc::strong_count(&k) == 2, "count"); drop(k); ensure_eq!(d($($a),*), mix(id, 0), "call"); }
                    3 => { let f = Arc::new(clos(t)); let d: Arc<dyn Fn($($A),*) -> u64> = f.unsize(Coercion::<_, dyn Fn($($A),*) -> u64>::to_fn()); ensure_eq!(d.clone()($($a),*), mix(id, 0), "call"); }
                    4 => { let mut f = clos_mut(t); { let d: &mut dyn FnMut($($A),*) -> u64 = (&mut f).unsize(Coercion::<_, dyn FnMut($($A),*) -> u64>::to_fn_mut()); ensure_eq!(d($($a),*), mix(id, 1), "call"); ensure_eq!(d($($a),*), mix(id, 2), "second call"); } ensure_eq!(f($($a),*), mix(id, 3), "call of the original"); }
                    5 => { let f = Box::new(clos_mut(t)); let mut d: Box<dyn FnMut($($A),*) -> u64> = f.unsize(Coercion::<_, dyn FnMut($($A),*) -> u64>::to_fn_mut()); ensure_eq!(d($($a),*), mix(id, 1), "call"); ensure_eq!(d($($a),*), mix(id, 2), "second call"); }
                    6 => { let mut f = clos_mut(t); let mut d: Pin<&mut dyn FnMut($($A),*) -> u64> = unsafe { Pin::new_unchecked(&mut f) }.unsize(Coercion::<_, dyn FnMut($($A),*) -> u64>::to_fn_mut()); ensure_eq!(unsafe { d.as_mut().get_unchecked_mut() }($($a),*), mix(id, 1), "call"); }
                    7 => { let f = Box::new(clos_once(t)); let d: Box<dyn FnOnce($($A),*) -> u64> = f.unsize(Coercion::<_, dyn FnOnce($($A),*) -> u64>::to_fn_once()); ensure_eq!(d($($a),*), mix(id, 0), "call"); }
                    _ => { let f = Box::new(clos_once(t)); let d: Box<dyn FnOnce($($A),*) -> u64> = f.unsize(Coercion::<_, dyn FnOnce($($A),*) -> u64>::to_fn_once()); drop(d); }
                }
                g.nontrivial();
                ensure!(!is_alive(id as u32), "the captured value was not dropped");
                Ok(())
            }
            match g.upto(5) { 5 => go::<Tok24>(g, mix, $($a),*), 0 => go::<Tok8>(g, mix, $($a),*), 1 => go::<Tok20>(g, mix, $($a),*), 2 => go::<TokA16>(g, mix, $($a),*), 3 => go::<TokA64>(g, mix, $($a),*), _ => go::<TokBox>(g, mix, $($a),*) }
        }
    };
}
arity!(f0,);
arity!(f1, (a, u8));
arity!(f2, (a, u64), (b, u16));
arity!(f3, (a, u32), (b, u8), (c, u64));
arity!(f4, (a, u16), (b, u16), (c, u64), (d, u8));
arity!(f5, (a, u64), (b, u32), (c, u8), (d, u8), (e, u16));
arity!(f6, (a, u8), (b, u16), (c, u32), (d, u64), (e, u128), (f, u8));
fn closures(g: &mut Src) -> R {
    reg_reset();
    match g.upto(6) { 0 => f0(g)?, 1 => f1(g)?, 2 => f2(g)?, 3 => f3(g)?, 4 => f4(g)?, 5 => f5(g)?, _ => f6(g)? }
    reg_finish()
}

/// Coercions made from functions: as equal, and hashed, as the functions are.
fn coercions(g: &mut Src) -> R {
    type F = fn(*const u32) -> *const dyn Debug;
    fn a(p: *const u32) -> *const dyn Debug { p }
    fn b(p: *const u32) -> *const dyn Debug { std::hint::black_box(1u8); p }
    fn c(p: *const u32) -> *const dyn Debug { std::hint::black_box(2u16); p }
    let fs: [F; 3] = [std::hint::black_box(a as F), std::hint::black_box(b as F), std::hint::black_box(c as F)];
    let (i, j) = (g.upto(2) as usize, g.upto(2) as usize);
    g.log(|| format!("coercions by the functions {i} and {j}"));
    let (f, h) = (fs[i], fs[j]);
    let same = f as usize == h as usize;
    if !same { g.nontrivial(); }
    let (x, y) = unsafe { (Coercion::new(f), Coercion::new(h)) };
    ensure!((x == y) == same && (x != y) != same, "coercions by {} functions compare {}", if same { "the same" } else { "different" }, if x == y { "equal" } else { "unequal" });
    fn hash<T: Hash>(t: &T) -> u64 { let mut s = DefaultHasher::new(); t.hash(&mut s); s.finish() }
    ensure!(!same || hash(&x) == hash(&y), "equal coercions hash differently");
    ensure!(same || hash(&x) != hash(&y) || hash(&(f as usize)) == hash(&(h as usize)), "the hash of a coercion does not depend on its function");
    let mut m = std::collections::HashMap::new();
    m.insert(x, 1);
    ensure!(m.get(&y).is_some() == same, "a coercion as a key");
    let (mut v, mut w) = (g.upto(1000) as u32, 0u32);
    let r: &mut dyn Debug = (&mut v).unsize(x);
    ensure!(format!("{r:?}").parse::<u32>().is_ok(), "behaviour");
    w += v;
    let z = x.clone();
    let r: &dyn Debug = (&w).unsize(z);
    ensure!(format!("{r:?}") == v.to_string(), "behaviour of a copy");
    Ok(())
}

pub fn prop() -> Prop {
    Prop { id: "C19", assumptions: vec![], subs: vec![
        Sub { name: "data", cases: (1_500_000, 30_000_000), run: data, track: true,
            rule: "a value of random type behind a random pointer kind, unsized to a trait object (of our own trait, Any, Debug, Display, Iterator, Future, with Send) or slice, with other strong and weak handles around; address, size, alignment, behaviour, counts and drops compared with the sized original; non-trivial: not zero-sized" },
        Sub { name: "closures", cases: (500_000, 10_000_000), run: closures, track: true, rule: "closures of arity 0 to 6 capturing a tracked value, as Fn, FnMut and FnOnce behind several pointer kinds; all non-trivial" },
        Sub { name: "coercions", cases: (20_000, 200_000), run: coercions, track: true, rule: "coercions by the same or different functions compared, hashed and used; non-trivial: different functions" } ] }
}
