#![no_std]
pub use core::sync::atomic::{Ordering, compiler_fence, fence};
use core::sync::atomic as real;

/// Called before every operation. For a weak compare-exchange, `true` makes it fail spuriously.
pub type Hook = fn(weak: bool) -> bool;
static HOOK: real::AtomicUsize = real::AtomicUsize::new(0);

pub fn set_hook(h: Option<Hook>) {
    HOOK.store(h.map_or(0, |h| h as usize), Ordering::SeqCst);
}
#[inline]
fn point(weak: bool) -> bool {
    let h = HOOK.load(Ordering::Relaxed);
    if h == 0 { return false; }
    let h: Hook = unsafe { core::mem::transmute(h) };
    h(weak)
}

macro_rules! common {
    ($n:ident, $t:ty) => {
        #[repr(transparent)]
        pub struct $n(real::$n);
        impl $n {
            pub const fn new(v: $t) -> Self { $n(real::$n::new(v)) }
            pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
            pub fn into_inner(self) -> $t { self.0.into_inner() }
            pub fn as_ptr(&self) -> *mut $t { self.0.as_ptr() }
            pub fn load(&self, o: Ordering) -> $t { point(false); self.0.load(o) }
            pub fn store(&self, v: $t, o: Ordering) { point(false); self.0.store(v, o) }
            pub fn swap(&self, v: $t, o: Ordering) -> $t { point(false); self.0.swap(v, o) }
            pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { point(false); self.0.compare_exchange(a, b, s, f) }
            pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                if point(true) { return Err(self.0.load(f)); }
                self.0.compare_exchange(a, b, s, f)
            }
            #[allow(deprecated)]
            pub fn compare_and_swap(&self, a: $t, b: $t, o: Ordering) -> $t { point(false); self.0.compare_and_swap(a, b, o) }
            pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { point(false); self.0.fetch_and(v, o) }
            pub fn fetch_nand(&self, v: $t, o: Ordering) -> $t { point(false); self.0.fetch_nand(v, o) }
            pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { point(false); self.0.fetch_or(v, o) }
            pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { point(false); self.0.fetch_xor(v, o) }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, l: Ordering, mut f: F) -> Result<$t, $t> {
                let mut prev = self.load(l);
                while let Some(next) = f(prev) {
                    match self.compare_exchange_weak(prev, next, s, l) { Ok(x) => return Ok(x), Err(p) => prev = p }
                }
                Err(prev)
            }
            pub fn try_update(&self, s: Ordering, l: Ordering, f: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> { self.fetch_update(s, l, f) }
            pub fn update(&self, s: Ordering, l: Ordering, mut f: impl FnMut($t) -> $t) -> $t {
                match self.fetch_update(s, l, |x| Some(f(x))) { Ok(x) | Err(x) => x }
            }
        }
        impl Default for $n { fn default() -> Self { Self::new(Default::default()) } }
        impl From<$t> for $n { fn from(v: $t) -> Self { Self::new(v) } }
        impl core::fmt::Debug for $n { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { self.0.fmt(f) } }
    };
}
macro_rules! int {
    ($n:ident, $t:ty) => {
        common!($n, $t);
        impl $n {
            pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { point(false); self.0.fetch_add(v, o) }
            pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { point(false); self.0.fetch_sub(v, o) }
            pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { point(false); self.0.fetch_max(v, o) }
            pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { point(false); self.0.fetch_min(v, o) }
        }
    };
}
int!(AtomicUsize, usize);
int!(AtomicIsize, isize);
int!(AtomicU64, u64);
int!(AtomicI64, i64);
int!(AtomicU32, u32);
int!(AtomicI32, i32);
int!(AtomicU16, u16);
int!(AtomicI16, i16);
int!(AtomicU8, u8);
int!(AtomicI8, i8);
common!(AtomicBool, bool);
impl AtomicBool {
    pub fn fetch_not(&self, o: Ordering) -> bool { point(false); self.0.fetch_xor(true, o) }
}

#[repr(transparent)]
pub struct AtomicPtr<T>(real::AtomicPtr<T>);
impl<T> AtomicPtr<T> {
    pub const fn new(v: *mut T) -> Self { AtomicPtr(real::AtomicPtr::new(v)) }
    pub fn get_mut(&mut self) -> &mut *mut T { self.0.get_mut() }
    pub fn into_inner(self) -> *mut T { self.0.into_inner() }
    pub fn load(&self, o: Ordering) -> *mut T { point(false); self.0.load(o) }
    pub fn store(&self, v: *mut T, o: Ordering) { point(false); self.0.store(v, o) }
    pub fn swap(&self, v: *mut T, o: Ordering) -> *mut T { point(false); self.0.swap(v, o) }
    pub fn compare_exchange(&self, a: *mut T, b: *mut T, s: Ordering, f: Ordering) -> Result<*mut T, *mut T> { point(false); self.0.compare_exchange(a, b, s, f) }
    pub fn compare_exchange_weak(&self, a: *mut T, b: *mut T, s: Ordering, f: Ordering) -> Result<*mut T, *mut T> {
        if point(true) { return Err(self.0.load(f)); }
        self.0.compare_exchange(a, b, s, f)
    }
    pub fn fetch_update<F: FnMut(*mut T) -> Option<*mut T>>(&self, s: Ordering, l: Ordering, mut f: F) -> Result<*mut T, *mut T> {
        let mut prev = self.load(l);
        while let Some(next) = f(prev) {
            match self.compare_exchange_weak(prev, next, s, l) { Ok(x) => return Ok(x), Err(p) => prev = p }
        }
        Err(prev)
    }
}
impl<T> Default for AtomicPtr<T> { fn default() -> Self { Self::new(core::ptr::null_mut()) } }
impl<T> core::fmt::Debug for AtomicPtr<T> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { self.0.fmt(f) } }
