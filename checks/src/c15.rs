//! C15: nested splits and casts of uninitialised memory against a model of the partition.
use std::alloc::Layout;
use std::mem::MaybeUninit;
use std::ptr::NonNull;

use pbt::track::untracked;
use pbt::{ensure, ensure_eq, Prop, Src, Sub, R};
use without_alloc::uninit::{Uninit, UninitView};

use crate::region::Region;
use crate::vals::*;

/// A part of the region: where it is, what can be done with it.
trait Part {
    fn at(&self) -> (usize, usize);
    fn kind(&self) -> String;
    /// Perform one operation; yields the parts it results in, in order.
    fn step(self: Box<Self>, g: &mut Src) -> Result<Vec<Box<dyn Part>>, String>;
    /// Use the part up. What was written, as address, size and seed.
    fn finish(self: Box<Self>, seed: u64) -> Result<Vec<(usize, usize, u64)>, String>;
}
/// `$body` with `$U` bound to one of the types to cast to.
macro_rules! with_type {
    ($g:expr, $U:ident => $body:expr) => { match $g.upto(14) { 13 => { type $U = [u32; 3]; $body } 14 => { type $U = [u64; 3]; $body }
        0 => { type $U = u8; $body } 1 => { type $U = u16; $body } 2 => { type $U = u32; $body } 3 => { type $U = u64; $body }
        4 => { type $U = [u8; 3]; $body } 5 => { type $U = [u16; 5]; $body } 6 => { type $U = A16; $body } 7 => { type $U = A32; $body }
        8 => { type $U = (); $body } 9 => { type $U = Z64; $body } 10 => { type $U = A4096; $body } 11 => { type $U = [u8; 61]; $body } _ => { type $U = Mixed; $body }
    } };
}
fn odd(g: &mut Src, len: usize, size: usize) -> usize {
    match g.upto(9) { 0 => usize::MAX - g.upto(8) as usize, 1 => (usize::MAX / size.max(1)).wrapping_add(g.upto(3) as usize), 2 => len + 1, 3 => len / size.max(1) + 1, 4 => size, 5 => size.saturating_sub(1), _ => g.skewed(len) }
}
fn layout(g: &mut Src, len: usize) -> Layout {
    let align = 1usize << match g.upto(9) { 0 => g.range(8, 20), 1 => exp(g.range(8, 62)), _ => g.range(0, 7) };
    let size = if g.chance(1, 10) { (isize::MAX as usize + 1 - align) - g.upto(3) as usize } else { g.skewed(len + 4) };
    Layout::from_size_align(size, align).unwrap()
}

macro_rules! parts {
    ($m:ident, $U:ident, $to_mem:expr, $write:literal) => {
mod $m {
    use super::*;
    pub struct Mem(pub $U<'static, ()>);
    pub struct One<T: Plain>(pub $U<'static, T>);
    pub struct Many<T: Plain>(pub $U<'static, [T]>);
    fn mem(u: $U<'static, ()>) -> Box<dyn Part> { Box::new(Mem(u)) }
    fn one<T: Plain>(u: $U<'static, T>) -> Box<dyn Part> { Box::new(One(u)) }
    fn many<T: Plain>(u: $U<'static, [T]>) -> Box<dyn Part> { Box::new(Many(u)) }
    fn fits(a: usize, len: usize, l: Layout) -> bool { a % l.align() == 0 && len >= l.size() }
    fn is<T>(u: &$U<'static, T>, (a, n): (usize, usize)) -> R {
        ensure!(u.as_ptr() as *const u8 as usize == a && u.size() == n && u.byte_capacity() == n && u.as_non_null().as_ptr() as *const u8 as usize == a,
            "a part of {} bytes at {:?}, expected {n} at {a:#x}", u.size(), u.as_ptr());
        Ok(())
    }
    fn queries<T: ?Sized>(g: &mut Src, u: &$U<'static, T>, (a, n): (usize, usize)) -> R {
        let l = layout(g, n);
        ensure_eq!(u.fits(l), fits(a, n, l), "{l:?} fits {n} bytes at {a:#x}");
        let b = u.borrow();
        ensure!(b.as_ptr() as *const u8 as usize == a && b.size() == n, "the borrowed view has {} bytes at {:?}", b.size(), b.as_ptr() as *const u8);
        let c = Clone::clone(&b);
        ensure!(c.as_ptr() as *const u8 as usize == a && c.size() == n, "a clone of the view has {} bytes at {:?}", c.size(), c.as_ptr() as *const u8);
        Ok(())
    }
    fn casts<T: Plain>(u: $U<'static, T>, g: &mut Src, at: (usize, usize)) -> Result<Vec<Box<dyn Part>>, String> {
        let slice = g.bool();
        with_type!(g, V => {
            if slice {
                let ok = at.0 % align_of::<V>() == 0;
                g.log(|| format!("cast to [{}], suitable: {ok}", V::NAME));
                match u.cast_slice::<V>() {
                    Ok(s) => {
                        ensure!(ok, "misaligned memory cast to a slice");
                        let (p, cap) = (s.as_ptr() as *const [V], if size_of::<V>() == 0 { usize::MAX } else { at.1 / size_of::<V>() });
                        ensure!(p.len() == cap && s.capacity() == cap, "a slice of {cap} has the capacity {} and a pointer of length {}", s.capacity(), p.len());
                        Ok(vec![many(s)])
                    }
                    Err(u) => { ensure!(!ok, "refused the cast to a slice"); is(&u, at)?; Ok(vec![one(u)]) }
                }
            } else {
                let ok = fits(at.0, at.1, Layout::new::<V>());
                g.log(|| format!("cast to {}, suitable: {ok}", V::NAME));
                match u.cast::<V>() {
                    Ok(s) => { ensure!(ok, "unsuitable memory cast"); Ok(vec![one(s)]) }
                    Err(u) => { ensure!(!ok, "refused the cast"); is(&u, at)?; Ok(vec![one(u)]) }
                }
            }
        })
    }
    impl Part for Mem {
        fn at(&self) -> (usize, usize) { (self.0.as_ptr() as usize, self.0.size()) }
        fn kind(&self) -> String { "memory".into() }
        fn step(mut self: Box<Self>, g: &mut Src) -> Result<Vec<Box<dyn Part>>, String> {
            let (a, n) = self.at();
            queries(g, &self.0, (a, n))?;
            match g.upto(4) {
                0 => {
                    let l = layout(g, n);
                    let pad = a.wrapping_neg() % l.align();
                    let ok = pad.checked_add(l.size()).is_some_and(|m| m <= n);
                    g.log(|| format!("split {l:?}, fits: {ok}"));
                    let r = self.0.split_layout(l);
                    ensure!(r.is_some() == ok, "split of {l:?} from {n} bytes at {a:#x}: {}", r.is_some());
                    if let Some(t) = &r { is(&self.0, (a, pad))?; is(t, (a + pad, n - pad))?; ensure!(t.fits(l), "the part does not fit {l:?}"); } else { is(&self.0, (a, n))?; }
                    Ok(std::iter::once(mem(self.0)).chain(r.map(mem)).collect())
                }
                1 => with_type!(g, V => {
                    let pad = a.wrapping_neg() % align_of::<V>();
                    let ok = pad + size_of::<V>() <= n;
                    g.log(|| format!("split a {}, fits: {ok}", V::NAME));
                    let r = self.0.split_cast::<V>();
                    ensure!(r.is_some() == ok, "split of {} from {n} bytes at {a:#x}: {}", V::NAME, r.is_some());
                    if let Some(t) = &r { is(&self.0, (a, pad))?; is(t, (a + pad, n - pad))?; } else { is(&self.0, (a, n))?; }
                    Ok(std::iter::once(mem(self.0)).chain(r.map(one)).collect())
                }),
                2 => with_type!(g, V => {
                    let pad = a.wrapping_neg() % align_of::<V>();
                    let ok = pad <= n;
                    g.log(|| format!("split a [{}], fits: {ok}", V::NAME));
                    let r = self.0.split_slice::<V>();
                    ensure!(r.is_some() == ok, "split of [{}] from {n} bytes at {a:#x}: {}", V::NAME, r.is_some());
                    if r.is_some() { is(&self.0, (a, pad))?; } else { is(&self.0, (a, n))?; }
                    Ok(std::iter::once(mem(self.0)).chain(r.map(many)).collect())
                }),
                3 => {
                    let at = odd(g, n, 1);
                    g.log(|| format!("split at byte {at} of {n}"));
                    let r = self.0.split_at_byte(at);
                    ensure!(r.is_some() == (at <= n), "split of {n} bytes at {at}: {}", r.is_some());
                    if let Some(t) = &r { is(&self.0, (a, at))?; is(t, (a + at, n - at))?; } else { is(&self.0, (a, n))?; }
                    Ok(std::iter::once(mem(self.0)).chain(r.map(mem)).collect())
                }
                _ => casts(self.0, g, (a, n)),
            }
        }
        fn finish(self: Box<Self>, seed: u64) -> Result<Vec<(usize, usize, u64)>, String> {
            let (a, n) = self.at();
            if $write { unsafe { fill(a, n, seed) } }
            Ok(vec![(a, n, seed)])
        }
    }
    impl<T: Plain> Part for One<T> {
        fn at(&self) -> (usize, usize) { (self.0.as_ptr() as usize, self.0.size()) }
        fn kind(&self) -> String { T::NAME.into() }
        fn step(mut self: Box<Self>, g: &mut Src) -> Result<Vec<Box<dyn Part>>, String> {
            let (a, n) = self.at();
            queries(g, &self.0, (a, n))?;
            match g.upto(4) {
                0 | 1 => {
                    let at = odd(g, n, size_of::<T>());
                    let ok = at <= n && at >= size_of::<T>();
                    g.log(|| format!("split {} at byte {at} of {n}", T::NAME));
                    let r = self.0.split_at_byte(at);
                    ensure!(r.is_some() == ok, "split of {n} bytes for a {} at {at}: {}", T::NAME, r.is_some());
                    if let Some(t) = &r { is(&self.0, (a, at))?; is(t, (a + at, n - at))?; } else { is(&self.0, (a, n))?; }
                    Ok(std::iter::once(one(self.0)).chain(r.map(mem)).collect())
                }
                2 => {
                    g.log(|| format!("split {} to fit", T::NAME));
                    let r = self.0.split_to_fit();
                    is(&self.0, (a, size_of::<T>()))?;
                    is(&r, (a + size_of::<T>(), n - size_of::<T>()))?;
                    // An exactly fitting value can be seen as the standard library's type.
                    let m = self.0.into_maybe_uninit();
                    ensure!(m as *const _ as usize == a, "moved");
                    let u: $U<'static, T> = if g.bool() { m.into() } else { $U::from_maybe_uninit(m) };
                    is(&u, (a, size_of::<T>()))?;
                    Ok(vec![one(u), mem(r)])
                }
                3 => { let u = $to_mem(self.0); is(&u, (a, n))?; Ok(vec![mem(u)]) }
                _ => casts(self.0, g, (a, n)),
            }
        }
        fn finish(self: Box<Self>, seed: u64) -> Result<Vec<(usize, usize, u64)>, String> {
            let (a, _) = self.at();
            let m = self.0.into_maybe_uninit();
            ensure!(m as *const _ as usize == a, "the value is at {:p} instead of {a:#x}", m);
            if $write { unsafe { (m as *const MaybeUninit<T> as *mut T).write(plain(seed)) } }
            // Every byte of the memory was written, here or before.
            let u: $U<'static, T> = m.into();
            is(&u, (a, size_of::<T>()))?;
            let r: &T = unsafe { u.into_ref() };
            ensure!(r as *const T as usize == a, "the value is at {:p} instead of {a:#x}", r);
            Ok(vec![(a, size_of::<T>(), seed)])
        }
    }
    impl<T: Plain> Part for Many<T> {
        fn at(&self) -> (usize, usize) { (self.0.as_begin_ptr() as usize, self.0.size()) }
        fn kind(&self) -> String { format!("[{}]", T::NAME) }
        fn step(mut self: Box<Self>, g: &mut Src) -> Result<Vec<Box<dyn Part>>, String> {
            let (a, n) = self.at();
            queries(g, &self.0, (a, n))?;
            let size = size_of::<T>();
            let cap = if size == 0 { usize::MAX } else { n / size };
            let whole = |u: &$U<'static, [T]>, (a, n): (usize, usize)| -> R {
                let at = (u.as_begin_ptr() as usize, u.size());
                ensure!(at == (a, n) && u.as_ptr() as *const u8 as usize == a, "a slice of {} bytes at {:#x}, expected {n} at {a:#x}", at.1, at.0);
                if size > 0 { ensure!(u.capacity() == n / size && (u.as_ptr() as *const [T]).len() == n / size, "capacity {}, pointer of length {}, expected {}", u.capacity(), (u.as_ptr() as *const [T]).len(), n / size); }
                else { ensure!(u.capacity() == usize::MAX, "capacity {} of zero-sized values", u.capacity()); }
                Ok(())
            };
            whole(&self.0, (a, n))?;
            match g.upto(5) {
                0 | 1 => {
                    let at = odd(g, n, size);
                    let ok = at.checked_mul(size).is_some_and(|b| b <= n);
                    g.log(|| format!("split [{}] of {cap} at {at}", T::NAME));
                    let r = self.0.split_at(at);
                    ensure!(r.is_some() == ok, "split of [{}] of {cap} at {at}: {}", T::NAME, r.is_some());
                    if let Some(t) = &r { whole(&self.0, (a, at * size))?; whole(t, (a + at * size, n - at * size))?; } else { whole(&self.0, (a, n))?; }
                    Ok(std::iter::once(many(self.0)).chain(r.map(many)).collect())
                }
                2 => {
                    g.log(|| format!("first of [{}] of {cap}", T::NAME));
                    let r = self.0.split_first();
                    ensure!(r.is_some() == (cap > 0), "first of [{}] of {cap}: {}", T::NAME, r.is_some());
                    if let Some(t) = &r { is(t, (a, size))?; whole(&self.0, (a + size, n - size))?; } else { whole(&self.0, (a, n))?; }
                    Ok(r.map(one).into_iter().chain(std::iter::once(many(self.0))).collect())
                }
                3 => {
                    g.log(|| format!("last of [{}] of {cap}", T::NAME));
                    let r = self.0.split_last();
                    ensure!(r.is_some() == (cap > 0), "last of [{}] of {cap}: {}", T::NAME, r.is_some());
                    let head = if size == 0 { 0 } else { cap.saturating_sub(1) * size };
                    if let Some(t) = &r { whole(&self.0, (a, head))?; is(t, (a + head, n - head))?; } else { whole(&self.0, (a, n))?; }
                    Ok(std::iter::once(many(self.0)).chain(r.map(one)).collect())
                }
                4 => {
                    g.log(|| format!("shrink [{}] of {cap}", T::NAME));
                    let r = self.0.shrink_to_fit();
                    let head = if size == 0 { 0 } else { cap * size };
                    whole(&self.0, (a, head))?;
                    is(&r, (a + head, n - head))?;
                    if size == 0 { return Ok(vec![many(self.0), mem(r)]); }
                    let s = self.0.into_maybe_uninit_slice();
                    ensure!(s.as_ptr() as usize == a && s.len() == cap, "slice of {} at {:p}", s.len(), s);
                    let u: $U<'static, [T]> = if g.bool() { s.into() } else { $U::from_maybe_uninit_slice(s) };
                    whole(&u, (a, head))?;
                    Ok(vec![many(u), mem(r)])
                }
                _ => { let u = $to_mem(self.0); is(&u, (a, n))?; Ok(vec![mem(u)]) }
            }
        }
        fn finish(self: Box<Self>, seed: u64) -> Result<Vec<(usize, usize, u64)>, String> {
            let (a, n) = self.at();
            let size = size_of::<T>();
            if size == 0 {
                let cap = self.0.capacity();
                let s = self.0.into_maybe_uninit_slice();
                ensure!(s.as_ptr() as usize == a && s.len() == cap, "slice of {} at {:p}, expected {cap} at {a:#x}", s.len(), s);
                return Ok(vec![]);
            }
            let s = self.0.into_maybe_uninit_slice();
            ensure!(s.as_ptr() as usize == a && s.len() == n / size, "slice of {} at {:p}, expected {} at {a:#x}", s.len(), s, n / size);
            Ok((0..s.len()).map(|i| {
                if $write { unsafe { (s.as_ptr() as *mut T).add(i).write(plain(seed + i as u64)) } }
                (a + i * size, size, seed + i as u64)
            }).collect())
        }
    }
    /// Memory from nowhere.
    pub fn invented(g: &mut Src) -> Result<Box<dyn Part>, String> {
        if g.bool() {
            with_type!(g, V => {
                let u: $U<'static, [V]> = if g.bool() { $U::empty() } else { Default::default() };
                ensure!(u.size() == 0 && u.as_begin_ptr() as usize % align_of::<V>() == 0 && !u.as_begin_ptr().is_null(), "empty slice of {} bytes at {:?}", u.size(), u.as_begin_ptr());
                ensure_eq!((u.as_ptr() as *const [V]).len(), 0, "length of the empty slice");
                Ok(many(u))
            })
        } else if g.bool() { Ok(one($U::<()>::invent_for_zst())) } else {
            let u = $U::<Z64>::invent_for_zst();
            ensure!(u.size() == 0 && u.as_ptr() as usize % 64 == 0, "zero-sized value at {:?}", u.as_ptr());
            Ok(one(u))
        }
    }
}
    };
}
trait ToMem { type M; fn to_mem(self) -> Self::M; }
impl<'a, T: ?Sized> ToMem for Uninit<'a, T> { type M = Uninit<'a, ()>; fn to_mem(self) -> Uninit<'a, ()> { self.as_memory() } }
impl<'a, T: ?Sized> ToMem for UninitView<'a, T> { type M = UninitView<'a, ()>; fn to_mem(self) -> UninitView<'a, ()> { match self.cast::<()>() { Ok(u) => u, Err(_) => panic!("the cast to plain memory was refused") } } }
parts!(owning, Uninit, (|u| ToMem::to_mem(u)), true);
parts!(view, UninitView, (|u| ToMem::to_mem(u)), false);

fn split(g: &mut Src, views: bool, large: bool) -> R {
    let mut region = if large {
        let off = g.upto(63) as usize;
        let n = match g.upto(4) { 0 => 65_536 + g.upto(80) as usize, 1 => 131_072 + g.upto(80) as usize, 2 => g.range(65_536, 300_000), 3 => 4096 + g.upto(80) as usize, _ => g.skewed(300_000) };
        if g.bool() { Region::fixed(g, n) } else { Region::new(off, n) }
    } else if g.bool() { let n = g.skewed(240); Region::fixed(g, n) } else { Region::gen(g, 240) };
    let seed = g.upto(u32::MAX as u64);
    let (start, len) = (region.addr(), region.len());
    g.log(|| format!("{len} bytes at {start:#x}"));
    let m = region.memory();
    let first: Box<dyn Part> = if g.chance(1, 20) { if views { view::invented(g)? } else { owning::invented(g)? } }
        else if views { Box::new(view::Mem(unsafe { UninitView::from_memory(NonNull::new(m.as_ptr() as *mut u8).unwrap(), m.size()) })) }
        else { Box::new(owning::Mem(m)) };
    let parts = partition(g, first)?;
    // Use each part in its own way, then look at all of them.
    let mut written = vec![];
    for (k, p) in parts.into_iter().enumerate() { written.extend(p.finish(seed + 1000 * k as u64)?); }
    if !views { for (a, n, s) in written { unsafe { ensure!(filled(a, n, s), "content of {n} bytes at {a:#x} was disturbed"); } } }
    else { for i in 0..region.len() { ensure!(region.original(i), "a view wrote to the memory"); } }
    region.guards()
}
/// Gibibytes of memory that nothing touches.
fn huge_parts(g: &mut Src) -> R {
    let len = match g.upto(3) { 0 => near_pow2(g, 200) & (p2(34) - 1), 1 => g.pick(&[p2(31), p2(32), 3 * p2(32)]) + g.upto(200) as usize, 2 => g.range(p2(30), p2(34)), _ => p2(32) - g.skewed(1 << 14) };
    let pages = untracked(|| Pages::new(len + (1 << 14)));
    let at = pages.0 + g.skewed(1 << 13);
    g.log(|| format!("{len} bytes at a page + {}", at - pages.0));
    let m = NonNull::new(at as *mut u8).unwrap();
    let first: Box<dyn Part> = if g.bool() { Box::new(owning::Mem(unsafe { Uninit::from_memory(m, len) })) } else { Box::new(view::Mem(unsafe { UninitView::from_memory(m, len) })) };
    partition(g, first)?;
    Ok(())
}
fn partition(g: &mut Src, first: Box<dyn Part>) -> Result<Vec<Box<dyn Part>>, String> {
    let (start, len) = first.at();
    let mut parts = vec![first];
    let mut n = 0;
    while g.more(n, 10, 40) {
        n += 1;
        let i = g.upto(parts.len() as u64 - 1) as usize;
        let (a, l) = parts[i].at();
        g.log(|| format!("part {i}: {} with {l} bytes at {}", parts[i].kind(), a as isize - start as isize));
        let p = parts.remove(i);
        let new = p.step(g)?;
        // In order, without gap or overlap.
        let mut end = a;
        for q in &new {
            let (b, m) = q.at();
            ensure!(b == end, "a part ({}) starts at {:#x} where {end:#x} follows", q.kind(), b);
            end += m;
        }
        ensure!(end == a + l, "the parts end at {end:#x}, the original at {:#x}", a + l);
        for (k, q) in new.into_iter().enumerate() { parts.insert(i + k, q); }
    }
    let mut end = start;
    for q in &parts { ensure!(q.at().0 == end, "gap"); end += q.at().1; }
    ensure!(end == start + len, "the parts do not cover the region");
    if parts.len() >= 4 { g.nontrivial(); }
    Ok(parts)
}
fn owning_parts(g: &mut Src) -> R { split(g, false, false) }
fn view_parts(g: &mut Src) -> R { split(g, true, false) }
fn large_parts(g: &mut Src) -> R { let views = g.bool(); split(g, views, true) }

/// Values and slices of the standard library's type as the origin, and borrowing.
fn origins(g: &mut Src) -> R {
    fn go<T: Plain>(g: &mut Src) -> R {
        if align_of::<T>() > 64 { return go::<u32>(g) }
        let n = g.range(0, 8);
        let mut region = Region::new(0, (n + 1) * size_of::<T>());
        let a = region.addr();
        let mem: &'static mut [MaybeUninit<T>] = region.slice(n);
        let exact = size_of_val(mem);
        {
            let v: UninitView<[T]> = if g.bool() { UninitView::from(&*mem) } else { UninitView::from_maybe_uninit_slice(mem) };
            ensure!(v.size() == exact && v.as_begin_ptr() as usize == a, "view of {} bytes", v.size());
        }
        let mut u: Uninit<[T]> = if g.bool() { Uninit::from(mem) } else { Uninit::from_maybe_uninit_slice(mem) };
        ensure!(u.size() == exact && u.as_begin_ptr() as usize == a, "{} bytes at {:?}, expected {exact} at {a:#x}", u.size(), u.as_begin_ptr());
        if size_of::<T>() > 0 { ensure!(u.capacity() == n && u.as_ptr().len() == n, "capacity {}", u.capacity()); }
        g.label_if(n > 1, "several elements");
        if n > 1 { g.nontrivial(); }
        // Borrowed mutably and split: the original is what it was.
        {
            let mut b = u.borrow_mut();
            let at = g.range(0, n + 1);
            let r = b.split_at(at);
            ensure!(r.is_some() == (at <= n || size_of::<T>() == 0), "split at {at} of {n}");
        }
        let v: UninitView<[T]> = u.borrow();
        ensure!(v.size() == exact && v.as_begin_ptr() as usize == a && u.size() == exact, "changed by a borrow");
        // Element by element, from either side.
        let (mut lo, mut hi) = (0, n);
        while lo < hi && size_of::<T>() > 0 {
            let (e, k) = if g.bool() { lo += 1; (u.split_first(), lo - 1) } else { hi -= 1; (u.split_last(), hi) };
            let Some(e) = e else { return Err(format!("no element {k} of {n}")) };
            ensure!(e.size() == size_of::<T>() && u.size() == (hi - lo) * size_of::<T>(), "element of {} bytes, {} left", e.size(), u.size());
            let r = e.init(plain::<T>(k as u64));
            ensure!(r as *mut T as usize == a + k * size_of::<T>(), "element {k} at {:p}", r);
        }
        if size_of::<T>() > 0 { ensure!(u.split_first().is_none() && u.split_last().is_none(), "more elements than memory"); }
        for k in 0..n { unsafe { ensure!(filled(a + k * size_of::<T>(), size_of::<T>(), k as u64), "element {k} was disturbed"); } }
        region.guards()
    }
    with_type!(g, V => go::<V>(g))
}

pub fn prop() -> Prop {
    let rule = "a region of up to 240 bytes at any offset of a line, split and cast by nested operations with boundary, out-of-range and overflowing arguments; every part compared with the exact partition, finally written through its own accessors; non-trivial: at least four parts";
    Prop { id: "C15", assumptions: vec![], subs: vec![
        Sub { name: "owning", cases: (3_000_000, 60_000_000), run: owning_parts, track: true, rule },
        Sub { name: "view", cases: (2_000_000, 45_000_000), run: view_parts, track: true, rule },
        Sub { name: "large", cases: (6_000, 120_000), run: large_parts, track: true, rule: "the same with regions of up to 300 KB; non-trivial: at least four parts" },
        Sub { name: "huge", cases: (60_000, 1_200_000), run: huge_parts, track: true, rule: "the same with regions of up to 16 GiB, which are not touched; non-trivial: at least four parts" },
        Sub { name: "origins", cases: (500_000, 10_000_000), run: origins, track: true, rule: "slices of the standard library's uninitialised type, borrowed and taken apart from both ends; non-trivial: two elements" } ] }
}
