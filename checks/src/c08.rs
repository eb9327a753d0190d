//! C08: histories of leaked boxes and their conversions, with drop-tracked values.
use std::alloc::Layout;
use std::cell::Cell;
use std::mem::{self, align_of, size_of, MaybeUninit};
use std::pin::Pin;

use pbt::{catch_quiet, ensure, ensure_eq, Prop, Src, Sub, R};
use static_alloc::bump::Level;
use static_alloc::leaked::LeakBox;
use static_alloc::unsync::{self, Chain, MemBump};
use static_alloc::Bump;

use crate::vals::*;

trait Has {
    fn ident(&self) -> Option<u32>;
    fn renew(&mut self) -> u32;
}
impl<T: Tok> Has for T {
    fn ident(&self) -> Option<u32> { self.id() }
    fn renew(&mut self) -> u32 { let t = T::new(); let id = t.id().unwrap(); *self = t; id }
}

enum H<T: Tok> {
    Box(LeakBox<'static, T>),
    Pin(Pin<LeakBox<'static, T>>),
    Raw(*mut T),
    Ref(&'static mut T),
    Val(T),
    Slice(LeakBox<'static, [T]>),
    SliceRaw(*mut [T]),
    Dyn(LeakBox<'static, dyn Has>),
    DynRaw(*mut dyn Has),
    Uninit(LeakBox<'static, MaybeUninit<T>>),
    UninitRef(&'static mut MaybeUninit<T>),
}
struct E<T: Tok> { h: H<T>, ids: Vec<u32>, addr: usize }

/// Places to allocate from; alive until the end of the case.
struct Arenas {
    sync: Box<Bump<[u64; 24]>>,
    big: Box<Bump<[u128; 300]>>,
    unsync: Box<unsync::Bump<[u64; 40]>>,
    mem: Box<MemBump>,
    chain: Box<Chain>,
}
fn zero_level() -> Level { Bump::<[u8; 1]>::uninit().level() }
/// The arenas outlive all handles by construction of `case`.
fn st<T: ?Sized>(t: &T) -> &'static T { unsafe { &*(t as *const T) } }

fn ids_of<T: Tok>(s: &[T]) -> Vec<Option<u32>> { s.iter().map(|t| t.id()).collect() }

impl<T: Tok> E<T> {
    fn check(&self) -> R {
        let (addr, ids): (usize, Vec<Option<u32>>) = match &self.h {
            H::Box(b) => { ensure!(&**b as *const T == b.as_ref() as *const T, "deref and as_ref disagree"); (&**b as *const T as usize, vec![b.id()]) }
            H::Pin(b) => (&**b as *const T as usize, vec![b.id()]),
            H::Raw(b) => (*b as usize, vec![unsafe { &**b }.id()]),
            H::Ref(b) => (&**b as *const T as usize, vec![b.id()]),
            H::Val(b) => (self.addr, vec![b.id()]),
            H::Slice(b) => { ensure_eq!(b.len(), self.ids.len(), "length of the slice box"); (b.as_ptr() as usize, ids_of(b)) }
            H::SliceRaw(b) => { let b = unsafe { &**b }; ensure_eq!(b.len(), self.ids.len(), "length of the slice"); (b.as_ptr() as usize, ids_of(b)) }
            H::Dyn(b) => { ensure_eq!(mem::size_of_val(&**b), size_of::<T>(), "size of the unsized value"); (&**b as *const dyn Has as *const () as usize, vec![b.ident()]) }
            H::DynRaw(b) => (*b as *const () as usize, vec![unsafe { &**b }.ident()]),
            H::Uninit(b) => (b.as_ptr() as usize, vec![]),
            H::UninitRef(b) => (b.as_ptr() as usize, vec![]),
        };
        ensure!(addr == self.addr, "the value moved from {:#x} to {addr:#x}", self.addr);
        ensure!(addr % align_of::<T>() == 0, "misaligned value at {addr:#x}");
        for (i, id) in ids.iter().enumerate() { ensure!(*id == Some(self.ids[i]), "a box reads {id:?}, the value put in was {}", self.ids[i]); }
        ensure_eq!(ids.len(), self.ids.len(), "number of values");
        Ok(())
    }
}

/// All values of live handles are alive, everything else is dropped.
fn census<T: Tok>(es: &[E<T>]) -> R {
    reg_errors()?;
    let mut n = 0;
    for e in es {
        e.check()?;
        n += e.ids.len();
    }
    ensure!(n_alive() == n, "{} values alive, handles own {n}: alive {:?}, owned {:?}", n_alive(), alive_ids(), es.iter().flat_map(|e| e.ids.clone()).collect::<Vec<_>>());
    Ok(())
}

fn create<T: Tok>(g: &mut Src, ar: &Arenas) -> Result<Option<E<T>>, String> {
    let t = T::new();
    let id = t.id().unwrap();
    let one = |h: H<T>, p: *const T| Ok(Some(E { h, ids: vec![id], addr: p as usize }));
    let big = g.bool();
    let how = g.upto(11);
    g.log(|| format!("create {} #{id}, way {how}, big {big}", T::NAME));
    let (s, b) = (st(&*ar.sync), st(&*ar.big));
    // Boxes from the thread-safe allocator.
    match how {
        0 | 1 => {
            let r = if how == 0 { if big { b.leak_box(t) } else { s.leak_box(t) } }
                else {
                    let at = if g.chance(1, 4) { zero_level() } else if big { b.level() } else { s.level() };
                    (if big { b.leak_box_at(t, at) } else { s.leak_box_at(t, at) }).ok()
                };
            match r {
                None => { ensure!(!is_alive(id), "leak_box failed and forgot the value"); g.label("failed, value dropped"); Ok(None) }
                Some(x) => { let p = &*x as *const T; one(H::Box(x), p) }
            }
        }
        2 | 3 => {
            let r = if how == 2 { if big { b.leak(t) } else { s.leak(t) } }
                else {
                    let at = if g.chance(1, 4) { zero_level() } else if big { b.level() } else { s.level() };
                    (if big { b.leak_at(t, at) } else { s.leak_at(t, at) }).map(|x| x.0)
                };
            match r {
                Ok(x) => { let p = x as *const T; one(H::Ref(x), p) }
                Err(e) => {
                    ensure!(is_alive(id), "leak failed and dropped the value");
                    if g.bool() {
                        let t = e.into_inner();
                        ensure!(t.id() == Some(id), "the value handed back reads {:?}", t.id());
                        g.label("failed, value handed back");
                        Ok(Some(E { h: H::Val(t), ids: vec![id], addr: 0 }))
                    } else {
                        drop(e);
                        ensure!(!is_alive(id), "dropping the error forgot the value");
                        Ok(None)
                    }
                }
            }
        }
        4 | 5 | 6 => {
            let a = match g.upto(2) { 0 => if big { b.get::<T>() } else { s.get::<T>() }, 1 => st(&*ar.unsync).get::<T>(), _ => st(&*ar.mem).get::<T>() };
            let Some(a) = a else { drop(t); return Ok(None) };
            let p = a.ptr.as_ptr() as *const T;
            match how {
                4 => one(H::Box(unsafe { a.boxed(t) }), p),
                5 => one(H::Ref(unsafe { a.leak(t) }), p),
                _ => { drop(t); Ok(Some(E { h: H::UninitRef(unsafe { a.uninit() }), ids: vec![], addr: p as usize })) }
            }
        }
        7 | 8 => {
            let r = match g.upto(2) { 0 => st(&*ar.unsync).bump_box::<T>(), 1 => st(&*ar.mem).bump_box::<T>(), _ => st(&*ar.chain).bump_box::<T>() };
            let Ok(u) = r else { drop(t); return Ok(None) };
            let p = u.as_ptr();
            if how == 7 { one(H::Box(LeakBox::write(u, t)), p) } else { drop(t); Ok(Some(E { h: H::Uninit(u), ids: vec![], addr: p as usize })) }
        }
        9 => {
            // A slice box of elements.
            drop(t);
            let n = g.skewed(6);
            let Ok(mut u) = (if big { st(&*ar.mem).bump_array::<T>(n) } else { st(&*ar.unsync).bump_array::<T>(n) }) else { return Ok(None) };
            ensure_eq!(u.len(), n, "length of a bumped array");
            let mut ids = vec![];
            for s in u.iter_mut() { let t = T::new(); ids.push(t.id().unwrap()); s.write(t); }
            let raw = LeakBox::into_raw(u);
            Ok(Some(E { addr: raw as *const u8 as usize, h: H::Slice(unsafe { LeakBox::from_raw(raw as *mut [T]) }), ids }))
        }
        10 => {
            // A leaked slot re-wrapped by the safe conversion.
            let r = b.leak(MaybeUninit::<T>::uninit()).map_err(|_| ());
            let Ok(u) = r else { drop(t); return Ok(None) };
            let p = u.as_ptr();
            one(H::Box(LeakBox::write(LeakBox::from(u), t)), p)
        }
        _ => Ok(Some(E { h: H::Val(t), ids: vec![id], addr: 0 })),
    }
}

fn drop_handle<T: Tok>(g: &mut Src, e: E<T>) -> R {
    let E { h, ids, .. } = e;
    let bomb = !ids.is_empty() && g.chance(1, 4);
    if bomb { set_bomb(ids[g.upto(ids.len() as u64 - 1) as usize]); g.label("panicking drop"); }
    let unwinding = g.chance(1, 8) && !bomb;
    g.log(|| format!("drop handle of {ids:?}, panicking drop {bomb}, during unwinding {unwinding}"));
    let owned = !matches!(h, H::Raw(_) | H::Ref(_) | H::SliceRaw(_) | H::DynRaw(_) | H::UninitRef(_));
    if !owned {
        // Not owning: letting go of it drops nothing, so the value stays, and is dropped in place by us.
        let was = n_alive();
        let raw = match h {
            H::Raw(p) => Ok(p), H::Ref(r) => Ok(r as *mut T), H::SliceRaw(p) => { let _ = catch_quiet(|| unsafe { p.drop_in_place() }); return Ok(()) }
            H::DynRaw(p) => { let _ = catch_quiet(|| unsafe { p.drop_in_place() }); return Ok(()) }
            _ => Err(()),
        };
        ensure_eq!(n_alive(), was, "values alive after letting go of a reference");
        if let Ok(p) = raw { let _ = catch_quiet(|| unsafe { p.drop_in_place() }); }
        return Ok(());
    }
    let done = catch_quiet(|| { let _h = h; if unwinding { std::panic::resume_unwind(Box::new(Bomb)) } });
    ensure!(done.is_none() == (bomb || unwinding), "the panic of a drop did not propagate");
    for id in &ids { ensure!(!is_alive(*id), "value {id} not dropped with its box"); }
    Ok(())
}

fn convert<T: Tok>(g: &mut Src, mut e: E<T>) -> Result<Option<E<T>>, String> {
    let k = g.upto(5);
    g.log(|| format!("convert handle of {:?}, way {k}", e.ids));
    let mut gone = vec![];
    e.h = match (e.h, k) {
        (H::Box(b), 0) => H::Raw(LeakBox::into_raw(b)),
        (H::Box(b), 1) => H::Pin(LeakBox::into_pin(b)),
        (H::Box(b), 2) => H::Ref(LeakBox::leak(b)),
        (H::Box(b), 3) => { e.addr = 0; H::Val(LeakBox::take(b)) }
        (H::Box(b), 4) => { let p: *mut T = LeakBox::into_raw(b); let p: *mut dyn Has = p; H::Dyn(unsafe { LeakBox::from_raw(p) }) }
        (H::Box(b), _) => { let p = LeakBox::into_raw(b); H::Slice(unsafe { LeakBox::from_raw(std::ptr::slice_from_raw_parts_mut(p, 1)) }) }
        (H::Pin(p), _) => H::Box(unsafe { Pin::into_inner_unchecked(p) }),
        (H::Raw(p), 0..=2) => H::Box(unsafe { LeakBox::from_raw(p) }),
        (H::Raw(p), 3) => H::Ref(unsafe { &mut *p }),
        (H::Raw(p), _) => H::Box(unsafe { LeakBox::from_mut_unchecked(&mut *p) }),
        (H::Ref(r), 0..=2) => H::Box(unsafe { LeakBox::from_mut_unchecked(r) }),
        (H::Ref(r), _) => H::Raw(r),
        (H::Slice(b), 0..=3) => H::SliceRaw(LeakBox::into_raw(b)),
        (H::Slice(b), _) => H::SliceRaw(LeakBox::leak(b)),
        (H::SliceRaw(b), _) => H::Slice(unsafe { LeakBox::from_raw(b) }),
        (H::Dyn(b), 0..=2) => H::DynRaw(LeakBox::into_raw(b)),
        (H::Dyn(b), _) => H::Box(unsafe { LeakBox::from_raw(LeakBox::into_raw(b) as *mut T) }),
        (H::DynRaw(b), 0..=3) => H::Dyn(unsafe { LeakBox::from_raw(b) }),
        (H::DynRaw(b), _) => H::Raw(b as *mut T),
        (H::Uninit(b), 0) => H::UninitRef(LeakBox::leak(b)),
        (H::Uninit(mut b), 1) => { let t = T::new(); e.ids.push(t.id().unwrap()); b.write(t); H::Box(unsafe { LeakBox::assume_init(b) }) }
        (H::Uninit(b), _) => { let t = T::new(); e.ids.push(t.id().unwrap()); H::Box(LeakBox::write(b, t)) }
        (H::UninitRef(b), _) => H::Uninit(LeakBox::from(b)),
        (H::Val(v), 0) => { gone = mem::take(&mut e.ids); drop(v); for id in gone { ensure!(!is_alive(id), "a taken value was not dropped with it") } return Ok(None) }
        (h @ H::Val(_), _) => h,
    };
    Ok(Some(e))
}

fn mutate<T: Tok>(g: &mut Src, e: &mut E<T>) -> R {
    let t = T::new();
    let id = t.id().unwrap();
    let bomb = g.chance(1, 6) && !e.ids.is_empty();
    let old = e.ids.first().copied();
    g.log(|| format!("overwrite {:?} with #{id}, panicking drop {bomb}", e.ids));
    let r: &mut T = match &mut e.h {
        H::Box(b) if g.bool() => &mut **b,
        H::Box(b) => b.as_mut(),
        H::Ref(b) => b,
        H::Slice(b) if !b.is_empty() => &mut b[0],
        H::Dyn(b) => { drop(t); e.ids[0] = b.renew(); return Ok(()) }
        _ => return Ok(()),
    };
    if g.bool() {
        let was = mem::replace(r, t);
        ensure!(was.id() == old, "replacing yields {:?} instead of {old:?}", was.id());
    } else {
        if bomb { set_bomb(old.unwrap()); }
        let done = catch_quiet(|| *r = t);
        ensure!(done.is_none() == bomb, "the panic of a drop did not propagate");
    }
    e.ids[0] = id;
    Ok(())
}

fn case<T: Tok>(g: &mut Src) -> R {
    reg_reset();
    let ar = Arenas {
        sync: Box::new(Bump::uninit()), big: Box::new(Bump::uninit()), unsync: Box::new(unsync::Bump::uninit()),
        mem: MemBump::new(g.skewed(2000)), chain: Box::new(Chain::new(g.skewed(1000)).map_err(|e| format!("{e:?}"))?),
    };
    let mut es: Vec<E<T>> = Vec::new();
    let (mut n, mut conv) = (0, 0);
    while g.more(n, 16, 60) {
        n += 1;
        let op = if es.is_empty() { 0 } else { g.weighted(&[4, 6, 2, 2, 1]) };
        match op {
            0 => { if es.len() < 12 { if let Some(e) = create::<T>(g, &ar)? { es.push(e); } } }
            1 => { conv += 1; let i = g.upto(es.len() as u64 - 1) as usize; let e = es.swap_remove(i); if let Some(e) = convert(g, e)? { es.push(e); } }
            2 => { let i = g.upto(es.len() as u64 - 1) as usize; mutate(g, &mut es[i])?; }
            3 => { let i = g.upto(es.len() as u64 - 1) as usize; let e = es.swap_remove(i); drop_handle(g, e)?; }
            _ => {
                // Exchange what two boxes refer to.
                let (i, j) = (g.upto(es.len() as u64 - 1) as usize, g.upto(es.len() as u64 - 1) as usize);
                if i != j {
                    let (lo, hi) = (i.min(j), i.max(j));
                    let (x, y) = es.split_at_mut(hi);
                    let (x, y) = (&mut x[lo], &mut y[0]);
                    if let (H::Box(a), H::Box(b)) = (&mut x.h, &mut y.h) {
                        if g.bool() { mem::swap(&mut **a, &mut **b); mem::swap(&mut x.ids, &mut y.ids); }
                        else { mem::swap(a, b); mem::swap(&mut x.ids, &mut y.ids); mem::swap(&mut x.addr, &mut y.addr); }
                        g.log(|| format!("swap {:?} and {:?}", y.ids, x.ids));
                    }
                }
            }
        }
        census(&es)?;
    }
    while let Some(e) = es.pop() { drop_handle(g, e)?; census(&es)?; }
    drop(ar);
    if conv >= 3 { g.nontrivial(); }
    reg_finish()
}

fn history(g: &mut Src) -> R {
    match g.upto(7) {
        6 => case::<Tok12>(g), 7 => case::<Tok24>(g), 0 => case::<Tok8>(g), 1 => case::<Tok20>(g), 2 => case::<TokBox>(g),
        3 => case::<TokA16>(g), 4 => case::<TokA64>(g), _ => case::<Tok300>(g),
    }
}

thread_local! { static Z: Cell<(u64, u64)> = const { Cell::new((0, 0)) }; }
struct Zst;
impl Zst { fn new() -> Self { Z.with(|z| z.set((z.get().0 + 1, z.get().1))); Zst } }
impl Drop for Zst { fn drop(&mut self) { Z.with(|z| z.set((z.get().0, z.get().1 + 1))); } }

/// Zero-sized values with a destructor, and trivially copyable values wrapped in place.
fn small(g: &mut Src) -> R {
    Z.with(|z| z.set((0, 0)));
    let bump: Bump<[u8; 4]> = Bump::uninit();
    let ub: unsync::Bump<[u8; 4]> = unsync::Bump::uninit();
    let mut boxes: Vec<LeakBox<Zst>> = vec![];
    let (mut n, mut expect) = (0, 0u64);
    while g.more(n, 10, 40) {
        n += 1;
        match g.upto(7) {
            0 => boxes.push(bump.leak_box(Zst::new()).ok_or("a zero-sized value was refused")?),
            1 => boxes.push(unsafe { LeakBox::from_mut_unchecked(bump.leak(Zst::new()).map_err(|_| "a zero-sized value was refused")?) }),
            2 => boxes.push(LeakBox::write(ub.bump_box().map_err(|_| "a zero-sized slot was refused")?, Zst::new())),
            3 => { let _ = bump.get_layout(Layout::new::<u8>()); }
            4 => if let Some(b) = boxes.pop() { drop(LeakBox::take(b)); expect += 1; },
            5 => if let Some(b) = boxes.pop() { drop(b); expect += 1; },
            6 => if let Some(b) = boxes.pop() { let p = LeakBox::into_raw(b); boxes.push(unsafe { LeakBox::from_raw(p) }); },
            _ => {
                let seed = g.upto(1 << 20);
                let mut v = (plain::<Mixed>(seed), plain::<u64>(seed + 1));
                let p = &v.1 as *const u64;
                let mut b = LeakBox::from_mut(&mut v.1);
                ensure!(&*b as *const u64 == p && *b == plain::<u64>(seed + 1), "from_mut refers to something else");
                *b = seed;
                drop(b);
                ensure!(v.1 == seed, "a write through from_mut got lost");
            }
        }
        let (made, dropped) = Z.with(|z| z.get());
        ensure!(made - boxes.len() as u64 == dropped && dropped == expect, "{made} zero-sized values made, {} in boxes, {dropped} dropped", boxes.len());
    }
    if n > 6 { g.nontrivial(); }
    let n = boxes.len() as u64;
    drop(boxes);
    ensure_eq!(Z.with(|z| z.get().1), expect + n, "zero-sized values dropped at the end");
    Ok(())
}

pub fn prop() -> Prop {
    Prop { id: "C08", assumptions: vec![], subs: vec![
        Sub { name: "history", cases: (1_500_000, 40_000_000), run: history, track: true,
            rule: "random histories of creating (every allocator and every way), converting, overwriting, swapping, dropping (also with panicking destructors and during unwinding) boxes of drop-tracked values; non-trivial: three or more conversions" },
        Sub { name: "small", cases: (600_000, 10_000_000), run: small, track: true,
            rule: "zero-sized values with destructors and wrapped plain values; non-trivial: more than 6 steps" } ] }
}
