//! C20: owning pointers and containers against the plain values they hold.
use std::borrow::{Borrow, BorrowMut};
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet};
use std::fmt::{self, Debug, Display, Pointer, Write};
use std::hash::{Hash, Hasher};
use std::mem::MaybeUninit;
use std::ops::{Deref, DerefMut};
use std::ptr::NonNull;

use pbt::{catch_quiet, ensure, ensure_eq, Prop, Src, Sub, R};
use static_alloc::leaked::LeakBox;
use without_alloc::{boxed::Box as WaBox, rc::Rc as WaRc, FixedVec, Uninit};

/// Memory for the values of one case.
struct Arena { mem: Vec<u128>, at: usize }
impl Arena {
    fn new() -> Self { Arena { mem: vec![0; 1024], at: 0 } }
    fn get(&mut self, l: std::alloc::Layout) -> Uninit<'static, ()> {
        let base = self.mem.as_mut_ptr() as *mut u8;
        let at = (self.at + l.align() - 1) & !(l.align() - 1);
        assert!(l.align() <= 16 && at + l.size() <= 16 * 1024);
        self.at = at + l.size();
        unsafe { Uninit::from_memory(NonNull::new_unchecked(base.add(at)), l.size()) }
    }
    fn slot<T>(&mut self) -> &'static mut MaybeUninit<T> { let p = self.get(std::alloc::Layout::new::<T>()).as_ptr(); unsafe { &mut *(p as *mut MaybeUninit<T>) } }
}

trait Ptr<T>: Deref<Target = T> + AsRef<T> + Pointer + Sized { const NAME: &'static str; fn make(a: &mut Arena, v: T) -> Self; }
impl<T: 'static> Ptr<T> for WaBox<'static, T> { const NAME: &'static str = "Box"; fn make(a: &mut Arena, v: T) -> Self { WaBox::new(v, a.get(std::alloc::Layout::new::<T>()).cast::<T>().unwrap()) } }
impl<T: 'static> Ptr<T> for WaRc<'static, T> { const NAME: &'static str = "Rc"; fn make(a: &mut Arena, v: T) -> Self { WaRc::new(v, a.get(std::alloc::Layout::from(WaRc::<T>::layout()))) } }
impl<T: 'static> Ptr<T> for LeakBox<'static, T> { const NAME: &'static str = "LeakBox"; fn make(a: &mut Arena, v: T) -> Self { LeakBox::write(LeakBox::from(a.slot::<T>()), v) } }

/// Collects every byte that is hashed.
#[derive(Default)]
struct Bytes(Vec<u8>);
impl Hasher for Bytes { fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) } fn finish(&self) -> u64 { 0 } }
fn hashed<T: Hash + ?Sized>(t: &T) -> Vec<u8> { let mut h = Bytes(vec![7]); t.hash(&mut h); h.0 }

/// Ordered by set inclusion; the element with bit 7 is not even equal to itself.
#[derive(Clone, Copy, Debug)]
struct Set(u8);
impl PartialEq for Set { fn eq(&self, o: &Self) -> bool { self.partial_cmp(o) == Some(std::cmp::Ordering::Equal) } }
impl PartialOrd for Set {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        use std::cmp::Ordering::*;
        if (self.0 | o.0) & 0x80 != 0 { return None; }
        match (self.0 & !o.0 == 0, o.0 & !self.0 == 0) { (true, true) => Some(Equal), (true, false) => Some(Less), (false, true) => Some(Greater), _ => None }
    }
}
/// Equal and ordered (backwards) by its key only.
#[derive(Clone, Copy, Debug)]
struct Key { key: u8, tag: u8 }
impl PartialEq for Key { fn eq(&self, o: &Self) -> bool { self.key == o.key } }
impl Eq for Key {}
impl PartialOrd for Key { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Key { fn cmp(&self, o: &Self) -> std::cmp::Ordering { o.key.cmp(&self.key) } }
impl Hash for Key { fn hash<H: Hasher>(&self, h: &mut H) { self.key.hash(h) } }
impl Display for Key { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { if self.tag == 13 { return Err(fmt::Error); } f.pad(&format!("k{}", self.key)) } }

trait Val: Clone + PartialEq + Debug + 'static { fn gen(g: &mut Src) -> Self; fn tag(&self) -> String { format!("{self:?}") } }
impl Val for u8 { fn gen(g: &mut Src) -> Self { g.upto(5) as u8 } }
impl Val for i32 { fn gen(g: &mut Src) -> Self { g.upto(6) as i32 - 3 } }
impl Val for f64 { fn gen(g: &mut Src) -> Self { g.pick(&[0.0, -0.0, 1.5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -2.25, 1e300]) } }
impl Val for String { fn gen(g: &mut Src) -> Self { (0..g.upto(3)).map(|_| g.pick(&['a', 'b', 'ä', '\n'])).collect() } }
impl Val for (u8, f64) { fn gen(g: &mut Src) -> Self { (g.upto(1) as u8, f64::gen(g)) } }
impl Val for Set { fn gen(g: &mut Src) -> Self { Set(if g.chance(1, 12) { 0x80 } else { g.upto(7) as u8 }) } }
impl Val for Key { fn gen(g: &mut Src) -> Self { Key { key: g.upto(4) as u8, tag: g.upto(20) as u8 } } }
impl Val for () { fn gen(_: &mut Src) -> Self {} }
impl Val for [u16; 3] { fn gen(g: &mut Src) -> Self { [0; 3].map(|_| g.upto(2) as u16) } }
impl Val for Vec<u8> { fn gen(g: &mut Src) -> Self { (0..g.upto(4)).map(|_| g.upto(2) as u8).collect() } }
impl Val for Option<f64> { fn gen(g: &mut Src) -> Self { if g.bool() { Some(f64::gen(g)) } else { None } } }

fn two<T: Val>(g: &mut Src) -> (T, T) {
    let a = T::gen(g);
    let b = if g.chance(1, 3) { a.clone() } else { T::gen(g) };
    g.log(|| format!("{a:?} and {b:?}"));
    if a != b { g.label("unequal contents") } else { g.label("equal contents") }
    (a, b)
}

fn compares<T: PartialOrd + Debug + ?Sized, P: PartialOrd + ?Sized>(what: &str, a: &T, b: &T, p: &P, q: &P) -> R {
    ensure!((p == q) == (a == b), "{what}s with {a:?} and {b:?}: == is {}", p == q);
    ensure!((p != q) == (a != b), "{what}s with {a:?} and {b:?}: != is {}", p != q);
    ensure!(p.partial_cmp(q) == a.partial_cmp(b), "{what}s with {a:?} and {b:?}: partial_cmp is {:?}", p.partial_cmp(q));
    ensure!((p < q) == (a < b), "{what}s with {a:?} and {b:?}: < is {}", p < q);
    ensure!((p <= q) == (a <= b), "{what}s with {a:?} and {b:?}: <= is {}", p <= q);
    ensure!((p > q) == (a > b), "{what}s with {a:?} and {b:?}: > is {}", p > q);
    ensure!((p >= q) == (a >= b), "{what}s with {a:?} and {b:?}: >= is {}", p >= q);
    Ok(())
}
fn totals<T: Ord + Hash + Debug + ?Sized, P: Ord + Hash + ?Sized>(what: &str, a: &T, b: &T, p: &P, q: &P) -> R {
    ensure!(p.cmp(q) == a.cmp(b), "{what}s with {a:?} and {b:?}: cmp is {:?}", p.cmp(q));
    ensure!(hashed(p) == hashed(a) && hashed(q) == hashed(b), "a {what} with {a:?} is hashed unlike its content");
    Ok(())
}
fn pair_partial<T: Val + PartialOrd, P: Ptr<T> + PartialOrd>(g: &mut Src, dup: Option<fn(&P) -> P>) -> R {
    let (a, b) = two::<T>(g);
    if a.partial_cmp(&b).is_none() { g.label("incomparable contents") }
    g.nontrivial();
    let mut m = Arena::new();
    let (p, q) = (P::make(&mut m, a.clone()), P::make(&mut m, b.clone()));
    compares(P::NAME, &a, &b, &p, &q)?;
    compares(P::NAME, &b, &a, &q, &p)?;
    compares(P::NAME, &a, &a, &p, &p)?;
    if let Some(dup) = dup { compares(P::NAME, &a, &a, &p, &dup(&p))?; compares(P::NAME, &b, &a, &dup(&q), &dup(&p))?; }
    Ok(())
}
fn pair_total<T: Val + Ord + Hash, P: Ptr<T> + Ord + Hash + Borrow<T>>(g: &mut Src, dup: Option<fn(&P) -> P>) -> R {
    let (a, b) = two::<T>(g);
    g.nontrivial();
    let mut m = Arena::new();
    let (p, q) = (P::make(&mut m, a.clone()), P::make(&mut m, b.clone()));
    compares(P::NAME, &a, &b, &p, &q)?;
    totals(P::NAME, &a, &b, &p, &q)?;
    ensure!(p.borrow() as *const T == &*p as *const T && p.as_ref() as *const T == &*p as *const T, "borrow, as_ref and deref differ");
    ensure!(p.borrow() == &a && *p == a && p.as_ref().tag() == a.tag(), "the {} holds {:?} instead of {a:?}", P::NAME, *p);
    if let Some(dup) = dup { compares(P::NAME, &a, &a, &p, &dup(&p))?; totals(P::NAME, &a, &b, &dup(&p), &q)?; }
    let (c, d) = (std::cmp::max(p, q), std::cmp::max(a, b));
    ensure!(c.tag() == d.tag(), "the greater is {:?} instead of {d:?}", *c);
    Ok(())
}
fn rc_dup<T>(r: &WaRc<'static, T>) -> WaRc<'static, T> { r.clone() }
fn compare_case(g: &mut Src) -> R {
    macro_rules! partial { ($t:ty) => { if g.bool() { pair_partial::<$t, WaBox<'static, $t>>(g, None) } else { pair_partial::<$t, WaRc<'static, $t>>(g, Some(rc_dup)) } } }
    macro_rules! total { ($t:ty) => { if g.bool() { pair_total::<$t, WaBox<'static, $t>>(g, None) } else { pair_total::<$t, WaRc<'static, $t>>(g, Some(rc_dup)) } } }
    match g.upto(10) {
        0 => partial!(f64), 1 => partial!((u8, f64)), 2 => partial!(Set), 3 => partial!(Option<f64>),
        4 => total!(u8), 5 => total!(i32), 6 => total!(String), 7 => total!(Key), 8 => total!(()), 9 => total!([u16; 3]), _ => total!(Vec<u8>),
    }
}

fn views<T: Val, P: Ptr<T> + DerefMut + AsMut<T>>(g: &mut Src, other: Option<fn(&mut P) -> &mut T>) -> R {
    let (a, b) = two::<T>(g);
    g.nontrivial();
    let mut m = Arena::new();
    let mut p = P::make(&mut m, a.clone());
    let q = P::make(&mut m, a.clone());
    let at = &*p as *const T;
    ensure!(p.as_ref() as *const T == at && p.as_mut() as *const T == at && &mut *p as *const T == at, "different addresses through different views");
    match g.upto(2) { 0 => *p = b.clone(), 1 => *p.as_mut() = b.clone(), _ => match other { Some(o) => { ensure!(o(&mut p) as *const T == at, "borrow_mut gives another value"); *o(&mut p) = b.clone() } None => *p.deref_mut() = b.clone() } }
    ensure!(p.tag() == b.tag() && p.as_ref().tag() == b.tag() && &*p as *const T == at, "the {} holds {:?} after {b:?} was written", P::NAME, *p);
    ensure!(q.tag() == a.tag(), "another {} changed", P::NAME);
    Ok(())
}
fn views_case(g: &mut Src) -> R {
    fn b<'a, T>(p: &'a mut WaBox<'static, T>) -> &'a mut T { p.borrow_mut() }
    macro_rules! v { ($t:ty) => { if g.bool() { views::<$t, WaBox<'static, $t>>(g, Some(b)) } else { views::<$t, LeakBox<'static, $t>>(g, None) } } }
    match g.upto(3) { 0 => v!(u8), 1 => v!(String), 2 => v!([u16; 3]), _ => v!(Vec<u8>) }
}

/// The text a value is written as, and whether writing failed.
fn text(f: impl FnOnce(&mut String) -> fmt::Result) -> (String, bool) { let mut s = String::new(); let ok = f(&mut s).is_ok(); (s, ok) }
macro_rules! spec {
    ($g:expr, $a:expr, $b:expr, [$($s:literal)*]) => { $({
        let (x, y) = (text(|s| write!(s, $s, $a)), text(|s| write!(s, $s, $b)));
        ensure!(x == y, "formatted with {} the content is {:?}, its owner is {:?}", $s, x, y);
    })* };
}
macro_rules! spec2 {
    ($w:expr, $p:expr, $a:expr, $b:expr, [$($s:literal)*]) => { $({
        let (x, y) = (text(|s| write!(s, $s, $a, w = $w, p = $p)), text(|s| write!(s, $s, $b, w = $w, p = $p)));
        ensure!(x == y, "formatted with {} (width {}, precision {}) the content is {:?}, its owner is {:?}", $s, $w, $p, x, y);
    })* };
}
fn debugs(g: &mut Src, a: &dyn Debug, b: &dyn Debug) -> R {
    spec!(g, a, b, ["{:?}" "{:#?}" "{:x?}" "{:#X?}" "{:+?}" "{:08.3?}"]);
    let (w, p) = (g.upto(20) as usize, g.upto(5) as usize);
    spec2!(w, p, a, b, ["{:w$.p$?}" "{:*<w$.p$?}" "{:^+#w$.p$?}" "{:->0w$.p$?}"]);
    Ok(())
}
fn displays(g: &mut Src, a: &dyn Display, b: &dyn Display) -> R {
    spec!(g, a, b, ["{}" "{:#}" "{:+}" "{:08.3}"]);
    let (w, p) = (g.upto(20) as usize, g.upto(5) as usize);
    spec2!(w, p, a, b, ["{:w$.p$}" "{:*<w$.p$}" "{:^+#w$.p$}" "{:->0w$.p$}"]);
    Ok(())
}
struct AsPointer<'a>(&'a dyn Pointer);
impl Pointer for AsPointer<'_> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.0.fmt(f) } }
fn pointers(g: &mut Src, a: &dyn Pointer, b: &dyn Pointer) -> R {
    let (a, b) = (AsPointer(a), AsPointer(b));
    spec!(g, a, b, ["{:p}" "{:#p}"]);
    let w = g.upto(24) as usize;
    for (x, y) in [(format!("{a:w$p}"), format!("{b:w$p}")), (format!("{a:*^w$p}"), format!("{b:*^w$p}"))] {
        ensure!(x == y, "as a pointer of width {w} the content is {x:?}, its owner is {y:?}");
    }
    Ok(())
}
fn formats<T: Val, P: Ptr<T> + Debug>(g: &mut Src, display: Option<(fn(&T) -> &dyn Display, fn(&P) -> &dyn Display)>) -> R {
    let a = T::gen(g);
    g.log(|| format!("{} with {a:?}", P::NAME));
    g.nontrivial();
    let mut m = Arena::new();
    let p = P::make(&mut m, a.clone());
    debugs(g, &a, &p)?;
    if let Some((d, e)) = display { displays(g, d(&a), e(&p))?; }
    let r: &T = &p;
    pointers(g, &r, &p)
}
trait Speak { fn word(&self) -> u8; }
impl Speak for Key { fn word(&self) -> u8 { self.tag } }
impl Display for dyn Speak { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.pad_integral(true, "", &self.word().to_string()) } }
impl Debug for dyn Speak { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.debug_struct("S").field("w", &self.word()).finish() } }
impl Hash for dyn Speak { fn hash<H: Hasher>(&self, h: &mut H) { h.write_u8(self.word()) } }

fn format_case(g: &mut Src) -> R {
    macro_rules! d { ($t:ty, $p:ident) => { Some((|t: &$t| t as &dyn Display, |p: &$p<'static, $t>| p as &dyn Display)) } }
    macro_rules! f { ($t:ty) => { match g.upto(2) {
        0 => formats::<$t, WaBox<'static, $t>>(g, None),
        1 => formats::<$t, WaRc<'static, $t>>(g, d!($t, WaRc)),
        _ => formats::<$t, LeakBox<'static, $t>>(g, d!($t, LeakBox)),
    } } }
    macro_rules! n { ($t:ty) => { match g.upto(2) {
        0 => formats::<$t, WaBox<'static, $t>>(g, None), 1 => formats::<$t, WaRc<'static, $t>>(g, None), _ => formats::<$t, LeakBox<'static, $t>>(g, None) } } }
    match g.upto(6) {
        0 => f!(f64), 1 => f!(String), 2 => f!(Key), 3 => f!(i32), 4 => n!([u16; 3]), 5 => n!(Set),
        _ => {
            // Unsized contents, which only the leaked box has.
            g.label("unsized");
            g.nontrivial();
            match g.upto(2) {
                0 => {
                    let mut s = String::gen(g);
                    let t = s.clone();
                    let mut b: LeakBox<str> = unsafe { LeakBox::from_mut_unchecked(&mut s[..]) };
                    debugs(g, &&*t, &b)?;
                    displays(g, &&*t, &b)?;
                    let r: &str = &b;
                    pointers(g, &r, &b)?;
                    ensure!(hashed(&b) == hashed(&*t) && AsRef::<str>::as_ref(&b) == t && &*b == t, "the box holds {:?} instead of {t:?}", &*b);
                    AsMut::<str>::as_mut(&mut b).make_ascii_uppercase();
                    drop(b);
                    ensure_eq!(s, t.to_ascii_uppercase(), "a change through the box");
                    Ok(())
                }
                1 => {
                    let mut v: Vec<u8> = Val::gen(g);
                    let w = v.clone();
                    let mut b: LeakBox<[u8]> = unsafe { LeakBox::from_mut_unchecked(&mut v[..]) };
                    debugs(g, &w, &b)?;
                    let r: &[u8] = &b;
                    pointers(g, &r, &b)?;
                    ensure!(hashed(&b) == hashed(&w) && AsRef::<[u8]>::as_ref(&b) == w && b.len() == w.len(), "the box holds {:?} instead of {w:?}", &*b);
                    AsMut::<[u8]>::as_mut(&mut b).reverse();
                    b.iter_mut().for_each(|x| *x += 1);
                    drop(b);
                    ensure_eq!(v, w.iter().rev().map(|x| x + 1).collect::<Vec<_>>(), "a change through the box");
                    Ok(())
                }
                _ => {
                    let k = Key::gen(g);
                    let mut m = Arena::new();
                    let raw: *mut Key = LeakBox::into_raw(LeakBox::write(LeakBox::from(m.slot::<Key>()), k));
                    let b: LeakBox<dyn Speak> = unsafe { LeakBox::from_raw(raw as *mut dyn Speak) };
                    let plain: &dyn Speak = &k;
                    debugs(g, &plain, &b)?;
                    displays(g, &plain, &b)?;
                    let r: &dyn Speak = &*b;
                    pointers(g, &r, &b)?;
                    ensure!(hashed(&b) == hashed(plain) && b.word() == k.tag && AsRef::<dyn Speak>::as_ref(&b).word() == k.tag, "the box holds another value");
                    Ok(())
                }
            }
        }
    }
}
fn leak_hash<T: Val + Hash>(g: &mut Src) -> R {
    let a = T::gen(g);
    g.nontrivial();
    let mut m = Arena::new();
    let p = <LeakBox<'static, T> as Ptr<T>>::make(&mut m, a.clone());
    ensure!(hashed(&p) == hashed(&a), "a leaked box with {a:?} is hashed unlike its content");
    Ok(())
}
fn leak_hash_case(g: &mut Src) -> R { match g.upto(3) { 0 => leak_hash::<Key>(g), 1 => leak_hash::<String>(g), 2 => leak_hash::<Vec<u8>>(g), _ => leak_hash::<i32>(g) } }

/// Maps keyed by the pointers against maps keyed by the values.
fn maps<T: Val + Ord + Hash, P: Ptr<T> + Ord + Hash + Borrow<T>>(g: &mut Src) -> R {
    let mut m = Arena::new();
    let (mut h, mut hp): (HashMap<T, u32>, HashMap<P, u32>) = Default::default();
    let (mut t, mut tp): (BTreeMap<T, u32>, BTreeMap<P, u32>) = Default::default();
    let mut n = 0;
    let mut hits = 0;
    while g.more(n, 14, 40) {
        n += 1;
        let k = T::gen(g);
        match g.weighted(&[5, 2, 2, 1, 1]) {
            0 => {
                g.log(|| format!("insert {k:?}"));
                ensure_eq!(hp.insert(P::make(&mut m, k.clone()), n as u32), h.insert(k.clone(), n as u32), "insert in a hash map");
                ensure_eq!(tp.insert(P::make(&mut m, k.clone()), n as u32), t.insert(k, n as u32), "insert in a tree map");
            }
            1 => {
                g.log(|| format!("get {k:?}"));
                hits += h.contains_key(&k) as usize;
                let tag = |e: Option<(&T, &u32)>| e.map(|(k, v)| (k.tag(), *v));
                ensure_eq!(hp.get_key_value(&k).map(|(k, v)| (k.tag(), *v)), tag(h.get_key_value(&k)), "lookup of {k:?} in a hash map");
                ensure_eq!(tp.get_key_value(&k).map(|(k, v)| (k.tag(), *v)), tag(t.get_key_value(&k)), "lookup of {k:?} in a tree map");
            }
            2 => {
                g.log(|| format!("get by an equal owner {k:?}"));
                let p = P::make(&mut m, k.clone());
                ensure_eq!(hp.get(&p), h.get(&k), "lookup of {k:?} in a hash map");
                ensure_eq!(tp.get(&p), t.get(&k), "lookup of {k:?} in a tree map");
            }
            3 => {
                g.log(|| format!("remove {k:?}"));
                hits += h.contains_key(&k) as usize;
                ensure_eq!(hp.remove(&k), h.remove(&k), "removal of {k:?} from a hash map");
                ensure_eq!(tp.remove(&k), t.remove(&k), "removal of {k:?} from a tree map");
            }
            _ => {
                let x: Vec<_> = t.range(k.clone()..).map(|(k, v)| (k.tag(), *v)).collect();
                let y: Vec<_> = tp.range::<T, _>(k.clone()..).map(|(k, v)| (k.tag(), *v)).collect();
                ensure_eq!(y, x, "the keys from {k:?} on");
            }
        }
        ensure!(hp.len() == h.len() && tp.len() == t.len(), "{} and {} keys instead of {}", hp.len(), tp.len(), h.len());
    }
    if hits > 1 { g.nontrivial() }
    let x: Vec<_> = t.iter().map(|(k, v)| (k.tag(), *v)).collect();
    let y: Vec<_> = tp.iter().map(|(k, v)| (k.tag(), *v)).collect();
    ensure_eq!(y, x, "the content of a tree map in order");
    Ok(())
}
/// Sorting, searching and heaps.
fn sorts<T: Val + Ord + Hash, P: Ptr<T> + Ord + Hash + Borrow<T>>(g: &mut Src) -> R {
    let mut m = Arena::new();
    let mut v: Vec<T> = vec![];
    while g.more(v.len(), 8, 24) { v.push(T::gen(g)); }
    g.log(|| format!("{v:?}"));
    if v.len() > 2 { g.nontrivial() }
    let mut p: Vec<P> = v.iter().map(|t| P::make(&mut m, t.clone())).collect();
    let tags = |v: &[T]| v.iter().map(|t| t.tag()).collect::<Vec<_>>();
    let ptags = |v: &[P]| v.iter().map(|t| t.tag()).collect::<Vec<_>>();
    ensure_eq!(p.iter().max().map(|x| x.tag()), v.iter().max().map(|x| x.tag()), "maximum");
    ensure_eq!(p.iter().min().map(|x| x.tag()), v.iter().min().map(|x| x.tag()), "minimum");
    ensure_eq!(p.is_sorted(), v.is_sorted(), "sortedness");
    match g.upto(4) {
        0 => { v.sort(); p.sort(); ensure_eq!(ptags(&p), tags(&v), "sorted"); }
        1 => { v.sort_by(|a, b| b.partial_cmp(a).unwrap()); p.sort_by(|a, b| b.partial_cmp(a).unwrap()); ensure_eq!(ptags(&p), tags(&v), "sorted backwards"); }
        2 => { v.dedup(); p.dedup(); ensure_eq!(ptags(&p), tags(&v), "without repetitions"); }
        3 => {
            let s: HashSet<T> = v.iter().cloned().collect();
            let n = v.len();
            let s2: HashSet<P> = p.drain(..).collect();
            ensure_eq!(s2.len(), s.len(), "distinct keys among {n}");
            let s3: BTreeSet<P> = s2.into_iter().collect();
            ensure_eq!(s3.len(), s.len(), "distinct keys among {n}");
            return Ok(());
        }
        _ => {
            let mut h: BinaryHeap<T> = v.into_iter().collect();
            let mut hp: BinaryHeap<P> = p.into_iter().collect();
            while let Some(a) = h.pop() { let b = hp.pop().ok_or("the heap of owners is empty early")?; ensure!(*b == a, "the heap gives {:?} instead of {a:?}", *b); }
            ensure!(hp.pop().is_none(), "the heap of owners holds more");
            return Ok(());
        }
    }
    let k = T::gen(g);
    ensure_eq!(p.partition_point(|x| **x < k), v.partition_point(|x| *x < k), "partition point");
    ensure_eq!(p.iter().position(|x| **x == k), v.iter().position(|x| *x == k), "position");
    let q = P::make(&mut m, k.clone());
    ensure_eq!(p.contains(&q), v.contains(&k), "contains");
    Ok(())
}
fn map_case(g: &mut Src) -> R {
    macro_rules! m { ($t:ty) => { match g.upto(3) {
        0 => maps::<$t, WaBox<'static, $t>>(g), 1 => maps::<$t, WaRc<'static, $t>>(g), 2 => sorts::<$t, WaBox<'static, $t>>(g), _ => sorts::<$t, WaRc<'static, $t>>(g) } } }
    match g.upto(3) { 0 => m!(Key), 1 => m!(u8), 2 => m!(String), _ => m!(Vec<u8>) }
}

fn vec_of<T: Clone>(m: &mut Arena, v: &[T], spare: usize) -> FixedVec<'static, T> {
    let mem = m.get(std::alloc::Layout::array::<T>(v.len() + spare).unwrap());
    let mut f = FixedVec::new(mem.cast_slice::<T>().unwrap_or_else(|_| panic!("no memory")));
    for x in v { f.push(x.clone()).ok().expect("room"); }
    f
}
fn list<T: Val>(g: &mut Src) -> Vec<T> { let mut v = vec![]; while g.more(v.len(), 3, 9) { v.push(T::gen(g)) } v }
fn near<T: Val>(g: &mut Src, v: &[T]) -> Vec<T> {
    let mut w = v.to_vec();
    match g.upto(4) {
        0 => {}
        1 => { w.push(T::gen(g)) }
        2 => { w.pop(); }
        3 if !w.is_empty() => { let i = g.upto(w.len() as u64 - 1) as usize; w[i] = T::gen(g) }
        _ => w = list(g),
    }
    w
}
fn vec_partial<T: Val + PartialOrd>(g: &mut Src) -> R {
    let v: Vec<T> = list(g);
    let w = near(g, &v);
    g.log(|| format!("{v:?} and {w:?}"));
    if !v.is_empty() && !w.is_empty() { g.nontrivial() }
    g.label_if(v.len() != w.len(), "different lengths");
    let mut m = Arena::new();
    let (a, b) = (g.upto(3) as usize, g.upto(3) as usize);
    let (f, h) = (vec_of(&mut m, &v, a), vec_of(&mut m, &w, b));
    compares("vector", &v, &w, &f, &h)?;
    compares("vector", &w, &v, &h, &f)?;
    compares("vector", &v, &v, &f, &f)
}
fn vec_total<T: Val + Ord + Hash>(g: &mut Src) -> R {
    let v: Vec<T> = list(g);
    let w = near(g, &v);
    g.log(|| format!("{v:?} and {w:?}"));
    if !v.is_empty() && !w.is_empty() { g.nontrivial() }
    let mut m = Arena::new();
    let (a, b) = (g.upto(3) as usize, g.upto(3) as usize);
    let (f, h) = (vec_of(&mut m, &v, a), vec_of(&mut m, &w, b));
    compares("vector", &v, &w, &f, &h)?;
    totals("vector", &v[..], &w[..], &f, &h).map_err(|_| "")
        .or_else(|_| { ensure!(f.cmp(&h) == v.cmp(&w), "vectors {v:?} and {w:?}: cmp is {:?}", f.cmp(&h)); ensure!(hashed(&f) == hashed(&v), "the vector {v:?} is hashed unlike its slice"); ensure!(hashed(&h) == hashed(&w), "the vector {w:?} is hashed unlike its slice"); Ok(()) })
}
/// Every view of a vector is the same slice; indices work as for slices.
fn vec_views<T: Val>(g: &mut Src) -> R {
    let mut v: Vec<T> = list(g);
    let mut m = Arena::new();
    let spare = g.upto(3) as usize;
    let mut f = vec_of(&mut m, &v, spare);
    g.log(|| format!("{v:?}"));
    let mut n = 0;
    while g.more(n, 6, 20) {
        n += 1;
        let len = v.len();
        let (i, j) = (g.upto(len as u64 + 1) as usize, g.upto(len as u64 + 1) as usize);
        if len > 1 { g.nontrivial() }
        match g.upto(8) {
            0 => {
                let at = f.deref().as_ptr();
                let b: &[T] = f.borrow();
                let r: &[T] = f.as_ref();
                let s = f.as_slice();
                for x in [b, r, s, &f[..], f.deref()] { ensure!(x.as_ptr() == at && x.len() == len, "a view of {} elements at {:p} instead of {len} at {at:p}", x.len(), x.as_ptr()); }
                let bm: &mut [T] = f.borrow_mut();
                ensure!(bm.as_ptr() == at && bm.len() == len, "borrow_mut");
                let am: &mut [T] = f.as_mut();
                ensure!(am.as_ptr() == at && am.len() == len, "as_mut");
                let dm: &mut [T] = f.deref_mut();
                ensure!(dm.as_ptr() == at && dm.len() == len, "deref_mut");
                let sm = f.as_mut_slice();
                ensure!(sm.as_ptr() == at && sm.len() == len, "as_mut_slice");
                ensure!(f.as_ptr() == at && f.as_mut_ptr() as *const T == at, "as_ptr");
            }
            1 => {
                g.log(|| format!("[{i}]"));
                let x = catch_quiet(|| f[i].tag());
                ensure!(x == v.get(i).map(|x| x.tag()), "element {i} of {len} is {x:?}");
                g.label_if(i >= len, "index out of bounds");
            }
            2 => {
                g.log(|| format!("[{i}..{j}]"));
                let tags = |s: &[T]| s.iter().map(|x| x.tag()).collect::<Vec<_>>();
                ensure_eq!(catch_quiet(|| tags(&f[i..j])), v.get(i..j).map(|s| tags(s)), "the range {i}..{j} of {len}");
                ensure_eq!(catch_quiet(|| tags(&f[i..])), v.get(i..).map(|s| tags(s)), "the range {i}.. of {len}");
                ensure_eq!(catch_quiet(|| tags(&f[..j])), v.get(..j).map(|s| tags(s)), "the range ..{j} of {len}");
                ensure_eq!(catch_quiet(|| tags(&f[i..=j])), v.get(i..=j).map(|s| tags(s)), "the range {i}..={j} of {len}");
                ensure_eq!(catch_quiet(|| tags(&f[..=j])), v.get(..=j).map(|s| tags(s)), "the range ..={j} of {len}");
            }
            3 => {
                let x = T::gen(g);
                g.log(|| format!("[{i}] = {x:?}"));
                let y = x.clone();
                let ok = catch_quiet(|| f[i] = y).is_some();
                ensure!(ok == (i < len), "writing element {i} of {len}");
                if ok { v[i] = x; }
            }
            4 => {
                g.log(|| format!("reverse [{i}..{j}]"));
                let ok = catch_quiet(|| f[i..j].reverse()).is_some();
                ensure!(ok == (i <= j && j <= len), "writing the range {i}..{j} of {len}");
                if ok { v[i..j].reverse(); }
            }
            5 if len > 0 => {
                let x = T::gen(g);
                let k = i % len;
                match g.upto(3) { 0 => f.as_mut()[k] = x.clone(), 1 => BorrowMut::<[T]>::borrow_mut(&mut f)[k] = x.clone(), 2 => f.as_mut_slice()[k] = x.clone(), _ => *f.iter_mut().nth(k).unwrap() = x.clone() }
                v[k] = x;
            }
            6 => {
                // Iteration, from both ends.
                let (mut a, mut b) = (v.iter(), f.iter());
                for _ in 0..len + 2 {
                    ensure!(a.len() == b.len(), "{} elements left instead of {}", b.len(), a.len());
                    let (x, y) = if g.bool() { (a.next(), b.next()) } else { (a.next_back(), b.next_back()) };
                    ensure!(x.map(|x| x.tag()) == y.map(|y| y.tag()), "iteration gives {y:?} instead of {x:?}");
                }
            }
            7 => {
                if i <= j && j <= len {
                    g.log(|| format!("drain {i}..{j}"));
                    let (mut a, mut b) = (v.drain(i..j), f.drain(i..j));
                    for _ in 0..g.upto((j - i) as u64 + 1) {
                        ensure!(a.len() == ExactSizeIterator::len(&b) && b.size_hint() == (a.len(), Some(a.len())), "{} elements left instead of {}", ExactSizeIterator::len(&b), a.len());
                        let (x, y) = match g.upto(3) {
                            0 => (a.next(), b.next()), 1 => (a.next_back(), b.next_back()),
                            2 => { let n = g.upto(2) as usize; (a.nth(n), b.nth(n)) }
                            _ => { let n = g.upto(2) as usize; (a.nth_back(n), b.nth_back(n)) }
                        };
                        ensure!(x.as_ref().map(|x| x.tag()) == y.as_ref().map(|y| y.tag()), "the drain gives {y:?} instead of {x:?}");
                    }
                    match g.upto(3) {
                        0 => {}
                        1 => { let (x, y) = (a.by_ref().map(|x| x.tag()).collect::<Vec<_>>(), b.by_ref().map(|x| x.tag()).collect::<Vec<_>>()); ensure_eq!(y, x, "the rest of a drain"); ensure!(b.next().is_none() && b.next_back().is_none() && b.next().is_none(), "an exhausted drain gives an element"); }
                        2 => { let (x, y) = (a.by_ref().rev().map(|x| x.tag()).collect::<Vec<_>>(), b.by_ref().rev().map(|x| x.tag()).collect::<Vec<_>>()); ensure_eq!(y, x, "the rest of a drain"); }
                        _ => { let (x, y) = (a.by_ref().last().map(|x| x.tag()), b.by_ref().last().map(|x| x.tag())); ensure_eq!(y, x, "the last of a drain"); }
                    }
                }
            }
            _ => if len < 9 && f.len() < f.capacity() { let x = T::gen(g); v.push(x.clone()); ensure!(f.push(x).is_ok(), "push"); }
        }
        ensure!(f.len() == v.len() && f.iter().zip(&v).all(|(a, b)| a.tag() == b.tag()), "the vector holds {:?} instead of {v:?}", &f[..]);
    }
    Ok(())
}
fn vec_maps(g: &mut Src) -> R {
    let mut m = Arena::new();
    let (mut h, mut hp): (HashMap<Vec<u8>, u32>, HashMap<FixedVec<'static, u8>, u32>) = Default::default();
    let (mut t, mut tp): (BTreeMap<Vec<u8>, u32>, BTreeMap<FixedVec<'static, u8>, u32>) = Default::default();
    let mut n = 0;
    let mut hits = 0;
    while g.more(n, 14, 40) {
        n += 1;
        let k: Vec<u8> = (0..g.upto(3)).map(|_| g.upto(1) as u8).collect();
        let spare = g.upto(2) as usize;
        hits += h.contains_key(&k) as usize;
        match g.upto(3) {
            0 | 1 => {
                ensure_eq!(hp.insert(vec_of(&mut m, &k, spare), n as u32), h.insert(k.clone(), n as u32), "insert {k:?} in a hash map");
                ensure_eq!(tp.insert(vec_of(&mut m, &k, spare), n as u32), t.insert(k.clone(), n as u32), "insert {k:?} in a tree map");
            }
            2 => {
                ensure_eq!(hp.get(&k[..]), h.get(&k), "lookup of {k:?} in a hash map");
                ensure_eq!(tp.get(&k[..]), t.get(&k), "lookup of {k:?} in a tree map");
            }
            _ => {
                ensure_eq!(hp.remove(&k[..]), h.remove(&k), "removal of {k:?} from a hash map");
                ensure_eq!(tp.remove(&k[..]), t.remove(&k), "removal of {k:?} from a tree map");
            }
        }
        ensure!(hp.len() == h.len() && tp.len() == t.len(), "{} and {} keys instead of {}", hp.len(), tp.len(), h.len());
    }
    if hits > 1 { g.nontrivial() }
    ensure!(t.iter().map(|(k, v)| (&k[..], *v)).eq(tp.iter().map(|(k, v)| (&k[..], *v))), "the content of a tree map in order");
    Ok(())
}
fn vec_case(g: &mut Src) -> R {
    match g.upto(8) {
        0 => vec_partial::<f64>(g), 1 => vec_partial::<Set>(g),
        2 => vec_total::<u8>(g), 3 => vec_total::<Key>(g), 4 => vec_total::<String>(g), 5 => vec_total::<()>(g),
        6 => vec_views::<u8>(g), 7 => vec_views::<String>(g), _ => vec_maps(g),
    }
}

/// Long contents that differ, if at all, at any one place.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Wide([u8; 1000]);
impl Debug for Wide { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{} bytes", self.0.len()) } }
struct Brief<'a, T: ?Sized>(&'a T, usize);
impl<T: ?Sized> Debug for Brief<'_, T> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "contents of length {}", self.1) } }
impl<T: PartialEq + ?Sized> PartialEq for Brief<'_, T> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<T: Eq + ?Sized> Eq for Brief<'_, T> {}
impl<T: PartialOrd + ?Sized> PartialOrd for Brief<'_, T> { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { self.0.partial_cmp(o.0) } }
impl<T: Ord + ?Sized> Ord for Brief<'_, T> { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.0.cmp(o.0) } }
impl<T: Hash + ?Sized> Hash for Brief<'_, T> { fn hash<H: Hasher>(&self, h: &mut H) { self.0.hash(h) } }
fn long_pair<T: Clone + 'static>(g: &mut Src, make: impl Fn(u32) -> T) -> (Vec<T>, Vec<T>) {
    let n = match g.upto(9) { 0 => 60 + g.skewed(10), 1 | 2 => 124 + g.skewed(10), 3 | 4 => 250 + g.skewed(12), 5 => 1020 + g.skewed(10), 6 => g.skewed(5000), 7 if g.chance(1, 6) => 65_530 + g.skewed(20), _ => 64 + g.skewed(300) };
    let seed = g.upto(255);
    let v: Vec<T> = (0..n).map(|i| make(crate::vals::pattern(seed, i) as u32)).collect();
    let mut w = v.clone();
    let back = g.skewed(n.max(1) - 1);
    let at = n.saturating_sub(1 + back);
    match g.upto(4) {
        0 => g.log(|| format!("{n} elements twice")),
        1 if n > 0 => { let x = g.upto(255) as u32; g.log(|| format!("{n} elements, and the same with number {at} changed to {x}")); w[at] = make(x); }
        2 => { g.log(|| format!("{n} elements, and the first {at} of them")); w.truncate(at); }
        3 => { let k = 1 + g.skewed(300); g.log(|| format!("{n} elements, and {k} more")); for i in 0..k { w.push(make(crate::vals::pattern(seed ^ 99, i) as u32)); } }
        _ => { let x = 1 + g.upto(9) as usize; g.log(|| format!("{n} elements, and the same rotated by {x}")); let k = w.len().max(1); w.rotate_left(x.min(k) % k); }
    }
    if v.len().min(w.len()) > 64 { g.nontrivial() }
    g.label_if(v.len() > 65_535, "over 65535");
    (v, w)
}
fn long_vectors<T: Ord + Hash + Clone + 'static>(g: &mut Src, make: impl Fn(u32) -> T) -> R {
    let (v, w) = long_pair(g, make);
    fn mem<T>(n: usize) -> Vec<MaybeUninit<T>> { (0..n).map(|_| MaybeUninit::uninit()).collect() }
    let (mut m1, mut m2) = (mem::<T>(v.len() + g.upto(2) as usize), mem::<T>(w.len() + g.upto(2) as usize));
    let (mut f, mut h) = (FixedVec::new(Uninit::from(&mut m1[..])), FixedVec::new(Uninit::from(&mut m2[..])));
    for (v, f) in [(&v, &mut f), (&w, &mut h)] { for x in v { ensure!(f.push(x.clone()).is_ok(), "push"); } }
    compares("vector", &Brief(&v[..], v.len()), &Brief(&w[..], w.len()), &f, &h)?;
    compares("vector", &Brief(&w[..], w.len()), &Brief(&v[..], v.len()), &h, &f)?;
    totals("vector", &Brief(&v[..], v.len()), &Brief(&w[..], w.len()), &f, &h)?;
    // As a key.
    let (mut s, mut t) = (HashSet::new(), BTreeSet::new());
    let same = v == w;
    s.insert(&f); s.insert(&h);
    ensure_eq!(s.len(), 2 - same as usize, "distinct vectors in a hash set");
    ensure!(s.contains(&f) && s.contains(&h), "a vector is not found in the hash set that it is in");
    t.insert(&f); t.insert(&h);
    ensure_eq!(t.len(), 2 - same as usize, "distinct vectors in a tree set");
    // Places in it.
    let n = v.len();
    if n > 0 {
        let (i, j) = (n - 1 - g.skewed(n - 1), g.range(0, n));
        ensure!(f[i] == v[i] && f[i..] == v[i..] && f[..i] == v[..i] && f.iter().rev().nth(n - 1 - i) == Some(&v[i]), "element {i} of {n}");
        ensure!(catch_quiet(|| f[n].clone()).is_none(), "an element beyond the end");
        ensure_eq!(f.binary_search(&v[i]).is_ok(), v.binary_search(&v[i]).is_ok(), "search");
        let (a, b) = (i.min(j), i.max(j));
        let mut v = v.clone();
        match g.upto(2) {
            0 => { let x: Vec<T> = f.drain(a..b).collect(); ensure!(x == v.drain(a..b).collect::<Vec<_>>(), "drain {a}..{b} of {n}"); }
            1 => { let x: Vec<T> = f.drain(a..b).rev().collect(); ensure!(x == v.drain(a..b).rev().collect::<Vec<_>>(), "drain {a}..{b} of {n} from the back"); }
            _ => { f[a..b].reverse(); v[a..b].reverse(); }
        }
        ensure!(f[..] == v[..], "{} elements of {n} after a change of {a}..{b}", f.len());
    }
    Ok(())
}
fn long_owned<P: Ptr<T> + Ord + Hash, T: Ord + Hash + Clone + 'static>(v: T, w: T, n: usize, l: usize) -> R {
    let mut m = Arena::new();
    let (p, q) = (P::make(&mut m, v.clone()), P::make(&mut m, w.clone()));
    compares(P::NAME, &Brief(&v, n), &Brief(&w, l), &p, &q)?;
    compares(P::NAME, &Brief(&w, l), &Brief(&v, n), &q, &p)?;
    totals(P::NAME, &Brief(&v, n), &Brief(&w, l), &p, &q)
}
fn long_case(g: &mut Src) -> R {
    match g.upto(6) {
        0 => long_vectors::<u8>(g, |x| x as u8),
        1 => long_vectors::<u32>(g, |x| x << 20 | x),
        2 => long_vectors::<()>(g, |_| ()),
        3 => { let (v, w) = long_pair(g, |x| x as u16); let (n, l) = (v.len(), w.len()); if g.bool() { long_owned::<WaBox<'static, Vec<u16>>, _>(v, w, n, l) } else { long_owned::<WaRc<'static, Vec<u16>>, _>(v, w, n, l) } }
        4 => {
            let wide = |v: &[u8]| Wide(std::array::from_fn(|i| v.get(i).copied().unwrap_or(0)));
            let (v, w) = long_pair(g, |x| x as u8);
            if g.bool() { long_owned::<WaBox<'static, Wide>, _>(wide(&v), wide(&w), 1000, 1000) } else { long_owned::<WaRc<'static, Wide>, _>(wide(&v), wide(&w), 1000, 1000) }
        }
        5 => {
            let (mut v, _) = long_pair(g, |x| x as u8);
            let w = v.clone();
            let mut b: LeakBox<[u8]> = unsafe { LeakBox::from_mut_unchecked(&mut v[..]) };
            ensure!(hashed(&b) == hashed(&w) && AsRef::<[u8]>::as_ref(&b) == w && b.len() == w.len(), "the leaked box of {} bytes differs", w.len());
            if w.len() < 2000 { debugs(g, &w, &b)?; }
            b.reverse();
            AsMut::<[u8]>::as_mut(&mut b).rotate_left(w.len() / 2);
            drop(b);
            v.rotate_right(w.len() / 2);
            v.reverse();
            ensure!(v == w, "changes through a leaked box of {} bytes", w.len());
            Ok(())
        }
        _ => {
            let (v, _) = long_pair(g, |x| ['a', 'ß', '\0', '€', '\n', '"'][(x % 6) as usize]);
            let t: String = v.iter().collect();
            let mut s = t.clone();
            let b: LeakBox<str> = unsafe { LeakBox::from_mut_unchecked(&mut s[..]) };
            ensure!(hashed(&b) == hashed(&*t) && AsRef::<str>::as_ref(&b) == t && &*b == t, "the leaked string of {} bytes differs", t.len());
            if t.len() < 2000 { debugs(g, &&*t, &b)?; displays(g, &&*t, &b)?; }
            ensure!(text(|x| write!(x, "{b}")) == (t.clone(), true), "the leaked string of {} bytes as text", t.len());
            let mut m = Arena::new();
            let l = <LeakBox<'static, String> as Ptr<String>>::make(&mut m, t.clone());
            ensure!(hashed(&l) == hashed(&t) && *l == t, "the leaked string of {} bytes differs", t.len());
            Ok(())
        }
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        subs: vec![
            Sub { name: "comparisons", cases: (800_000, 16_000_000), run: compare_case, rule: "two owners of generated contents, of a type with total or partial order, were compared in every way and with their own clones", track: true },
            Sub { name: "formatting", cases: (300_000, 6_000_000), run: format_case, rule: "an owner was formatted with every flag and generated width and precision next to its content", track: true },
            Sub { name: "views", cases: (300_000, 6_000_000), run: views_case, rule: "a value was changed through one view and read through the others", track: true },
            Sub { name: "hash", cases: (200_000, 4_000_000), run: leak_hash_case, rule: "a leaked box was hashed next to its content", track: true },
            Sub { name: "map-keys", cases: (150_000, 3_000_000), run: map_case, rule: "a history with at least two hits on existing keys, or at least three elements to sort", track: true },
            Sub { name: "long", cases: (60_000, 1_200_000), run: long_case, rule: "two contents of over 64 elements, up to more than 65535, that differ in one place, in length or not at all", track: true },
            Sub { name: "vector", cases: (400_000, 8_000_000), run: vec_case, rule: "two non-empty vectors compared, at least two hits on existing keys, or views of at least two elements", track: true },
        ],
        assumptions: vec!["The contents are types whose comparisons are lawful (== is symmetric and transitive, != its negation, < <= > >= follow from the partial order); owners may call any of them"],
    }
}
