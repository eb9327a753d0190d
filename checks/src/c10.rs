//! C10: histories of an exit stack.
use std::mem::{align_of, size_of};
use std::pin::Pin;

use exit_stack::{ExitStack, Slot};
use pbt::{catch_quiet, ensure, ensure_eq, Prop, Src, Sub, R};

use crate::vals::*;

/// A registered value: how to reach it and its identity.
struct V { addr: usize, id: u32, read: fn(usize) -> Option<u32>, renew: fn(usize) -> u32, size: usize }
fn read<T: Tok>(a: usize) -> Option<u32> { unsafe { &*(a as *const T) }.id() }
fn renew<T: Tok>(a: usize) -> u32 { let t = T::new(); let id = t.id().unwrap(); unsafe { *(a as *mut T) = t; } id }

enum AnySlot { T24(Slot<'static, Tok24>), T8(Slot<'static, Tok8>), T20(Slot<'static, Tok20>), A16(Slot<'static, TokA16>), A64(Slot<'static, TokA64>), T300(Slot<'static, Tok300>), Bx(Slot<'static, TokBox>) }

fn push<T: Tok>(stack: Pin<&'static ExitStack<impl Sized>>, vs: &mut Vec<V>, base: (usize, usize)) -> Result<bool, String> {
    match stack.slot::<T>() { None => Ok(false), Some(s) => { fill_slot(s, vs, base)?; Ok(true) } }
}
fn fill_slot<T: Tok>(s: Slot<'static, T>, vs: &mut Vec<V>, base: (usize, usize)) -> R {
    let t = T::new();
    let id = t.id().unwrap();
    // Every third one by way of the unsafe variant for values that do not live forever; this one does.
    let p: Pin<&mut T> = if id % 3 == 1 { unsafe { s.pin_local(t) } } else { s.pin(t) };
    register(p, id, vs, base)
}
fn register<T: Tok>(p: Pin<&mut T>, id: u32, vs: &mut Vec<V>, base: (usize, usize)) -> R {
    ensure!(p.id() == Some(id), "a pinned value reads {:?} instead of {id}", p.id());
    let addr = &*p as *const T as usize;
    ensure!(addr % align_of::<T>() == 0, "pinned value at the misaligned address {addr:#x}");
    ensure!(addr >= base.0 && addr + size_of::<T>() <= base.0 + base.1, "value pinned outside of the stack");
    for v in vs.iter() { ensure!(addr + size_of::<T>() <= v.addr || v.addr + v.size <= addr, "the value pinned at {addr:#x} overlaps one registered at {:#x}", v.addr); }
    vs.push(V { addr, id, read: read::<T>, renew: renew::<T>, size: size_of::<T>() });
    Ok(())
}
fn check(vs: &[V]) -> R {
    reg_errors()?;
    for v in vs {
        ensure!(is_alive(v.id), "value {} was dropped while registered", v.id);
        let id = (v.read)(v.addr);
        ensure!(id == Some(v.id), "the value at {:#x} reads {id:?} instead of {}", v.addr, v.id);
    }
    ensure_eq!(n_alive(), vs.len(), "values alive");
    Ok(())
}
/// All of `vs` dropped, last first, since the drop log had `seen` entries.
fn popped(vs: &mut Vec<V>, seen: usize) -> R {
    reg_errors()?;
    let order = &drop_order()[seen..];
    let want: Vec<u32> = vs.drain(..).rev().map(|v| v.id).collect();
    ensure!(order == want, "dropped {order:?}, expected {want:?}");
    Ok(())
}

fn case<M: Tok>(g: &mut Src) -> R {
    reg_reset();
    // The stack lives in a box which is pinned for good.
    let mut owner: Pin<Box<ExitStack<M>>> = Box::pin(ExitStack::new());
    let raw = unsafe { owner.as_mut().get_unchecked_mut() } as *mut ExitStack<M>;
    let shared = || unsafe { Pin::new_unchecked(&*raw) };
    let unique = || unsafe { Pin::new_unchecked(&mut *raw) };
    let base = (raw as usize, size_of::<ExitStack<M>>());
    let mut vs: Vec<V> = vec![];
    let mut slots: Vec<AnySlot> = vec![];
    let (mut n, mut pops) = (0, 0);
    let mut fresh = true; // nothing handed out since the last pop
    while g.more(n, 14, 60) {
        n += 1;
        match g.weighted(&[10, 3, 3, 2, 2, 2]) {
            0 => {
                let k = g.upto(8);
                let ok = match k { 7 => push::<Tok12>(shared(), &mut vs, base)?, 8 => push::<Tok24>(shared(), &mut vs, base)?, 0 => push::<Tok8>(shared(), &mut vs, base)?, 1 => push::<Tok20>(shared(), &mut vs, base)?, 2 => push::<TokA16>(shared(), &mut vs, base)?,
                    3 => push::<TokA64>(shared(), &mut vs, base)?, 4 => push::<Tok300>(shared(), &mut vs, base)?, 5 => push::<TokBox>(shared(), &mut vs, base)?,
                    _ => push::<M>(shared(), &mut vs, base)? };
                g.log(|| format!("push type {k} onto ExitStack<{}>: {ok}", M::NAME));
                ensure!(ok || k != 6 || !fresh, "a fresh stack refused a value of its memory type");
                g.label_if(!ok, "refused");
                if ok { fresh = false; }
            }
            1 => {
                // Reserve now, pin later.
                let s = shared();
                let r = match g.upto(6) { 6 => s.slot().map(AnySlot::T24), 0 => s.slot().map(AnySlot::T8), 1 => s.slot().map(AnySlot::T20), 2 => s.slot().map(AnySlot::A16), 3 => s.slot().map(AnySlot::A64), 4 => s.slot().map(AnySlot::T300), _ => s.slot().map(AnySlot::Bx) };
                g.log(|| format!("slot: {}", r.is_some()));
                if let Some(s) = r { slots.push(s); fresh = false; }
            }
            2 if !slots.is_empty() => {
                let i = g.upto(slots.len() as u64 - 1) as usize;
                let s = slots.swap_remove(i);
                if g.chance(1, 5) { g.log(|| "abandon a slot".into()); drop(s); }
                else {
                    g.log(|| "pin into a slot".into());
                    match s { AnySlot::T24(s) => fill_slot(s, &mut vs, base), AnySlot::T8(s) => fill_slot(s, &mut vs, base), AnySlot::T20(s) => fill_slot(s, &mut vs, base), AnySlot::A16(s) => fill_slot(s, &mut vs, base),
                        AnySlot::A64(s) => fill_slot(s, &mut vs, base), AnySlot::T300(s) => fill_slot(s, &mut vs, base), AnySlot::Bx(s) => fill_slot(s, &mut vs, base) }?;
                    g.label("pinned late");
                }
            }
            3 if !vs.is_empty() => {
                let i = g.upto(vs.len() as u64 - 1) as usize;
                vs[i].id = (vs[i].renew)(vs[i].addr);
                g.log(|| format!("overwrite a value in place with #{}", vs[i].id));
            }
            k @ (4 | 5) => {
                slots.clear(); // they borrow the stack
                let seen = drop_order().len();
                let bomb = !vs.is_empty() && g.chance(1, 4);
                if bomb { let i = g.upto(vs.len() as u64 - 1) as usize; set_bomb(vs[i].id); g.label("panicking drop"); }
                g.log(|| format!("{} over {} values, panicking drop {bomb}", if k == 4 { "set" } else { "pop_all" }, vs.len()));
                let many = vs.len() > 1;
                if k == 4 {
                    let m = M::new();
                    let id = m.id().unwrap();
                    let p = catch_quiet(|| unique().set(m));
                    ensure!(p.is_none() == bomb, "the panic of a drop did not propagate from set");
                    match p {
                        Some(p) => { popped(&mut vs, seen)?; register(p, id, &mut vs, base)?; fresh = false; }
                        None => {
                            // The new value is dropped by the unwinding.
                            ensure!(!is_alive(id), "the value to set was lost");
                            let order = drop_order();
                            let want: Vec<u32> = vs.drain(..).rev().map(|v| v.id).chain([id]).collect();
                            ensure!(order[seen..] == want[..], "dropped {:?}, expected {want:?}", &order[seen..]);
                            fresh = false; // the memory is only reset by the next pop
                        }
                    }
                } else {
                    let p = catch_quiet(|| unique().pop_all());
                    ensure!(p.is_none() == bomb, "the panic of a drop did not propagate from pop_all");
                    popped(&mut vs, seen)?;
                    fresh = !bomb;
                }
                pops += many as usize;
            }
            _ => {}
        }
        check(&vs)?;
    }
    if pops > 0 { g.nontrivial(); }
    g.label_if(vs.len() > 1, "several values at the end");
    slots.clear();
    let seen = drop_order().len();
    let bomb = !vs.is_empty() && g.chance(1, 4);
    if bomb { let i = g.upto(vs.len() as u64 - 1) as usize; set_bomb(vs[i].id); }
    let p = catch_quiet(|| drop(owner));
    ensure!(p.is_none() == bomb, "the panic of a drop did not propagate from dropping the stack");
    popped(&mut vs, seen)?;
    reg_finish()
}

/// Memory types: the stack holds more of some of the values than of others.
macro_rules! mem { ($n:ident, $inner:ty, $len:literal) => {
    pub struct $n { first: $inner, pad: [[u64; 8]; $len] }
    impl Tok for $n {
        const NAME: &'static str = stringify!($n);
        fn with(id: u32) -> Self { $n { first: <$inner>::with(id), pad: [[id as u64; 8]; $len] } }
        fn id(&self) -> Option<u32> { let id = self.first.id()?; self.pad.iter().all(|p| *p == [id as u64; 8]).then_some(id) }
    }
} }
mem!(M1, Tok8, 1);
mem!(M4, Tok20, 4);
mem!(M16, TokA64, 16);
mem!(M8, TokBox, 8);

fn history(g: &mut Src) -> R {
    match g.upto(10) {
        10 => case::<Tok24>(g), 0 => case::<Tok8>(g), 1 => case::<Tok20>(g), 2 => case::<TokA16>(g), 3 => case::<TokA64>(g), 4 => case::<Tok300>(g), 5 => case::<TokBox>(g),
        6 => case::<M1>(g), 7 => case::<M4>(g), 8 => case::<M8>(g), _ => case::<M16>(g),
    }
}

thread_local! {
    static LOG: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(vec![]) };
    static BOMB: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) };
}
fn gone(k: u8) {
    let n = pbt::track::untracked(|| LOG.with(|l| { l.borrow_mut().push(k); l.borrow().len() }));
    if n > 1_000_000 { pbt::fatal("more drops than there are values"); }
    if BOMB.with(|b| b.get()) == Some(n) { BOMB.with(|b| b.set(None)); std::panic::resume_unwind(Box::new(Bomb)) }
}
/// Values without a size that tell when they are dropped, in memory without or with one.
trait Nil: 'static { const TAG: u8; fn make() -> Self; }
struct Z<const K: u8>;
impl<const K: u8> Nil for Z<K> { const TAG: u8 = K; fn make() -> Self { Z } }
impl<const K: u8> Drop for Z<K> { fn drop(&mut self) { gone(K) } }
#[repr(align(32))] struct Za;
impl Nil for Za { const TAG: u8 = 100; fn make() -> Self { Za } }
impl Drop for Za { fn drop(&mut self) { gone(100) } }
struct Small<const N: usize>([u8; N]);
impl<const N: usize> Nil for Small<N> { const TAG: u8 = 200; fn make() -> Self { Small([7; N]) } }
impl<const N: usize> Drop for Small<N> { fn drop(&mut self) { gone(if self.0 == [7; N] { 200 } else { 0xFF }) } }
fn zst_case<M: Nil>(g: &mut Src) -> R {
    LOG.with(|l| l.borrow_mut().clear());
    BOMB.with(|b| b.set(None));
    let mut owner: Pin<Box<ExitStack<M>>> = Box::pin(ExitStack::new());
    let raw = unsafe { owner.as_mut().get_unchecked_mut() } as *mut ExitStack<M>;
    let shared = || unsafe { Pin::new_unchecked(&*raw) };
    let unique = || unsafe { Pin::new_unchecked(&mut *raw) };
    fn push<T: Nil>(s: Pin<&'static ExitStack<impl Sized>>, vs: &mut Vec<u8>, g: &mut Src) -> Result<bool, String> {
        let Some(s) = s.slot::<T>() else { return Ok(false) };
        if g.chance(1, 8) { return Ok(true); }
        let p = if g.chance(1, 3) { unsafe { s.pin_local(T::make()) } } else { s.pin(T::make()) };
        let a = &*p as *const T as usize;
        ensure!(a != 0 && a % align_of::<T>() == 0, "misaligned");
        vs.push(T::TAG);
        Ok(true)
    }
    let mut vs: Vec<u8> = vec![];
    let (mut n, mut fresh) = (0, true);
    while g.more(n, 8, 30) {
        n += 1;
        let seen = LOG.with(|l| l.borrow().len());
        match g.upto(7) {
            k @ 0..=4 => {
                let ok = match k { 0 => push::<Z<1>>(shared(), &mut vs, g)?, 1 => push::<Z<2>>(shared(), &mut vs, g)?, 2 => push::<Za>(shared(), &mut vs, g)?, 3 => push::<Small<9>>(shared(), &mut vs, g)?, _ => push::<M>(shared(), &mut vs, g)? };
                g.log(|| format!("push type {k}: {ok}"));
                ensure!(ok || k != 4 || !fresh, "a fresh stack refused a value of its memory type");
                fresh &= !ok;
                ensure!(LOG.with(|l| l.borrow().len()) == seen, "a value was dropped by pinning");
            }
            k => {
                let set = k == 5;
                let bomb = !vs.is_empty() && g.chance(1, 5);
                if bomb { let i = g.upto(vs.len() as u64 - 1) as usize; BOMB.with(|b| b.set(Some(seen + 1 + i))); }
                g.log(|| format!("{} over {vs:?}, panicking drop {bomb}", if set { "set" } else { "pop_all" }));
                let r = catch_quiet(|| if set { unique().set(M::make()); } else { unique().pop_all(); });
                ensure!(r.is_none() == bomb, "the panic of a drop did not propagate");
                let mut want: Vec<u8> = vs.drain(..).rev().collect();
                if want.len() > 1 { g.nontrivial(); }
                if set && bomb { want.push(M::TAG) }
                if set && !bomb { vs.push(M::TAG); fresh = false; } else { fresh = !bomb && !set; }
                let got = LOG.with(|l| l.borrow()[seen..].to_vec());
                ensure!(got == want, "dropped {got:?}, expected {want:?}");
            }
        }
    }
    let seen = LOG.with(|l| l.borrow().len());
    if vs.len() > 0 { g.nontrivial(); }
    let bomb = !vs.is_empty() && g.chance(1, 5);
    if bomb { let i = g.upto(vs.len() as u64 - 1) as usize; BOMB.with(|b| b.set(Some(seen + 1 + i))); }
    let r = catch_quiet(|| drop(owner));
    ensure!(r.is_none() == bomb, "the panic of a drop did not propagate from dropping the stack");
    vs.reverse();
    let got = LOG.with(|l| l.borrow()[seen..].to_vec());
    ensure!(got == vs, "dropped {got:?} with the stack, expected {vs:?}");
    Ok(())
}
fn zst(g: &mut Src) -> R {
    match g.upto(6) { 0 => zst_case::<Z<3>>(g), 1 => zst_case::<Za>(g), 2 => zst_case::<Small<0>>(g), 3 => zst_case::<Small<1>>(g), 4 => zst_case::<Small<60>>(g), 5 => zst_case::<Small<200>>(g), _ => zst_case::<Z<4>>(g) }
}

pub fn prop() -> Prop {
    Prop { id: "C10", assumptions: vec!["at most one destructor panics per pop: a second one aborts the process by design"], subs: vec![
        Sub { name: "history", cases: (8_000_000, 120_000_000), run: history, track: true,
            rule: "random histories of reserving slots, pinning (in any order), overwriting in place, set, pop_all (also with a panicking destructor) and dropping an exit stack, over ten storage types; non-trivial: a pop of several values" },
        Sub { name: "zst", cases: (1_000_000, 15_000_000), run: zst, track: true,
            rule: "zero-sized and small values in stacks over zero-sized and small memory types, counted when dropped; non-trivial: values dropped by a pop or with the stack" },
        Sub { name: "many", cases: (4_000, 60_000), run: crate::many::c10, track: false,
            rule: "stacks of up to 3 MB with hundreds to more than 65536 values, some pinned late, popped with and without a panicking destructor; non-trivial: over 255 values" } ] }
}
