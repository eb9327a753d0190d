//! What the generated programs of C21 are written with.
pub use alloc_traits;
pub use alloc_traits::{AllocTime, LocalAlloc, NonZeroLayout};
pub use exit_stack::ExitStack;
pub use static_alloc::leaked::{Alloca, LeakBox};
pub use static_alloc::unsync::{Bump as UBump, Chain, MemBump};
pub use static_alloc::{bump::Allocation, Bump};
pub use std::alloc::Layout;
pub use std::cell::Cell;
pub use std::fmt::Debug;
pub use std::mem::MaybeUninit;
pub use std::pin::Pin;
pub use std::rc::Rc as StdRc;
pub use unsize;
pub use unsize_registry;
pub use without_alloc::alloc::LocalAllocLeakExt;
pub use without_alloc::{boxed::Box as WaBox, rc::Rc as WaRc, rc::Weak as WaWeak, FixedVec, Uninit};
pub use without_alloc::uninit::UninitView;

/// Content that borrows, and looks at what it borrows when dropped.
pub struct Held<'a>(pub &'a String);
impl Drop for Held<'_> { fn drop(&mut self) { touch(self.0) } }
impl Debug for Held<'_> { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }

pub fn flag() -> bool { std::env::args().count() > 7 }
pub fn touch<T: ?Sized>(_: &T) {}
pub fn touch_mut<T: ?Sized>(_: &mut T) {}
pub fn consume<T>(_: T) {}
pub fn need_static<T: 'static>(_: T) {}
pub fn need_send<T: Send + ?Sized>(_: &T) {}
pub fn need_sync<T: Sync + ?Sized>(_: &T) {}
pub fn need_unpin<T: Unpin + ?Sized>() {}
