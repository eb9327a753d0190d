From e646e48c2db6a9660da114752cdcf670e7d83ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 01/15] fix: initialize the header in MemBump::new

The memory comes from the global allocator and is not zeroed, so the count
of consumed bytes was read from uninitialized memory.
---
 static-alloc/src/unsync/bump.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index 0bd0def..5ea18f1 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -128,6 +128,8 @@ impl MemBump {
         let layout = Self::layout_from_size(capacity).expect("Bad layout");
         let ptr = NonNull::new(unsafe { alloc::alloc::alloc(layout) })
             .unwrap_or_else(|| alloc::alloc::handle_alloc_error(layout));
+        // Safety: the header is at the start of the layout, and aligned for it.
+        unsafe { ptr.cast::<Cell<usize>>().as_ptr().write(Cell::new(0)) };
         let ptr = ptr::slice_from_raw_parts_mut(ptr.as_ptr(), capacity);
         unsafe { alloc::boxed::Box::from_raw(ptr as *mut MemBump) }
     }
-- 
2.43.0


From be8791193464f12b49cfab3d55bd44f1b6147c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 02/15] fix: account for alignment in MemBump::get_unchecked

An allocation performed at a level starts at the next aligned address after
that level, which is where it must be reacquired.
---
 static-alloc/src/unsync/bump.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index 5ea18f1..86368f3 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -395,7 +395,9 @@ impl MemBump {
         debug_assert!(level.0 < self.capacity());
         let ptr = self.data_ptr().as_ptr();
         // Safety: guaranteed by the caller.
-        let alloc = ptr.offset(level.0 as isize) as *mut V;
+        let start = ptr.offset(level.0 as isize);
+        // The level does not include the padding that was inserted to align the allocation.
+        let alloc = start.add(start.align_offset(mem::align_of::<V>())) as *mut V;
 
         Allocation {
             level,
-- 
2.43.0


From 01a5069bcfd31ed1604909d9316b0110f09e76e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 03/15] fix: zero-sized requests to the unsync bump allocator

Typed allocations of zero-sized types and empty arrays tripped the assertion
on empty layouts. They need no memory: handle them as the sync allocator does.
This also concerns Alloca, with length zero or a zero-sized element.
---
 static-alloc/src/unsync/bump.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index 86368f3..81dc6b1 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -320,6 +320,10 @@ impl MemBump {
     ///
     /// FIXME(breaking): this could well be a `Result<_, Failure>`.
     pub fn get<V>(&self) -> Option<Allocation<V>> {
+        if mem::size_of::<V>() == 0 {
+            return Some(Allocation::for_zst(self.level()));
+        }
+
         let alloc = self.try_alloc(Layout::new::<V>())?;
         Some(Allocation {
             lifetime: alloc.lifetime,
@@ -335,6 +339,15 @@ impl MemBump {
     ///
     /// [`get`]: #method.get
     pub fn get_at<V>(&self, level: Level) -> Result<Allocation<V>, Failure> {
+        if mem::size_of::<V>() == 0 {
+            // Same as for the sync `Bump`: a noop on the level, but the level is checked.
+            let observed = self.level();
+            if observed != level {
+                return Err(Failure::Mismatch { observed });
+            }
+            return Ok(Allocation::for_zst(level));
+        }
+
         let alloc = self.try_alloc_at(Layout::new::<V>(), level.0)?;
         Ok(Allocation {
             lifetime: alloc.lifetime,
@@ -460,8 +473,13 @@ impl MemBump {
         n: usize,
     ) -> Result<LeakBox<'bump, [MaybeUninit<T>]>, Failure> {
         let layout = Layout::array::<T>(n).map_err(|_| Failure::Exhausted)?;
-        let raw = self.alloc(layout).ok_or(Failure::Exhausted)?;
-        let slice = ptr::slice_from_raw_parts_mut(raw.cast().as_ptr(), n);
+        let raw = if layout.size() == 0 {
+            // Empty slices, and slices of zero-sized types, do not require any memory.
+            NonNull::<T>::dangling()
+        } else {
+            self.alloc(layout).ok_or(Failure::Exhausted)?.cast()
+        };
+        let slice = ptr::slice_from_raw_parts_mut(raw.as_ptr().cast(), n);
         let uninit = unsafe { &mut *slice };
         Ok(uninit.into())
     }
-- 
2.43.0


From 1a5f7c8e57c7a4332d012e7dde992b3d91dec94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 04/15] fix: overflow of the length in Alloca::new

The maximum length must be refused instead of wrapping to an empty layout.
---
 static-alloc/src/leaked.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/static-alloc/src/leaked.rs b/static-alloc/src/leaked.rs
index 91ded7a..d492c36 100644
--- a/static-alloc/src/leaked.rs
+++ b/static-alloc/src/leaked.rs
@@ -30,7 +30,7 @@ impl<T> Alloca<T> {
     pub fn new(len: usize) -> Option<Self> {
         // Check that it's okay to create the padded layout. This is pure so it will again work
         // when we try during `run`.
-        let _padded_layout = Layout::array::<T>(len + 1).ok()?;
+        let _padded_layout = Layout::array::<T>(len.checked_add(1)?).ok()?;
         Some(Alloca {
             marker: PhantomData,
             len,
-- 
2.43.0


From 53c2f829bde0856f27c8ede0748ee6cbf35d6836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 05/15] fix: over-aligned storage types in the unsync Bump

The padding between the index and storage with an alignment greater than that
of the index was not considered when dereferencing to MemBump: the debug
assertion failed and, without it, the end of the storage was unusable.
---
 static-alloc/src/unsync/bump.rs | 51 +++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index 81dc6b1..57c2bb5 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -64,10 +64,19 @@ use crate::leaked::LeakBox;
 /// ```
 #[repr(C)]
 pub struct Bump<T> {
+    _inner: UnsafeCell<Inner<T>>,
+}
+
+/// The contents of a `Bump`.
+///
+/// If `T` has a higher alignment than the index then there is padding in front of the data. It is
+/// part of the `data` of the `MemBump`, hence all of this is within a single `UnsafeCell`.
+#[repr(C)]
+struct Inner<T> {
     /// The index used in allocation.
     _index: Cell<usize>,
     /// The backing storage for raw allocated data.
-    _data: UnsafeCell<MaybeUninit<T>>,
+    _data: MaybeUninit<T>,
     // Warning: when changing the data layout, you must change `MemBump` as well.
 }
 
@@ -105,8 +114,10 @@ impl<T> Bump<T> {
     /// All allocations coming from the allocator will need to be initialized manually.
     pub fn uninit() -> Self {
         Bump {
-            _index: Cell::new(0),
-            _data: UnsafeCell::new(MaybeUninit::uninit()),
+            _inner: UnsafeCell::new(Inner {
+                _index: Cell::new(0),
+                _data: MaybeUninit::uninit(),
+            }),
         }
     }
 
@@ -114,10 +125,20 @@ impl<T> Bump<T> {
     ///
     /// The caller can rely on all allocations to be zeroed.
     pub fn zeroed() -> Self {
-        Bump {
-            _index: Cell::new(0),
-            _data: UnsafeCell::new(MaybeUninit::zeroed()),
-        }
+        // Safety: zero is a valid index, and any bytes are valid for the data. This includes the
+        // padding between the two.
+        unsafe { mem::zeroed() }
+    }
+
+    /// The length of the `data` of the `MemBump` for this layout.
+    ///
+    /// It starts after the index and ends with the storage of type `T`.
+    fn data_len() -> usize {
+        let header = MemBump::header_layout();
+        let (layout, _) = header
+            .extend(Layout::new::<MaybeUninit<T>>())
+            .expect("Layout of an existing type");
+        layout.size() - header.size()
     }
 }
 
@@ -586,30 +607,30 @@ impl MemBump {
 impl<T> ops::Deref for Bump<T> {
     type Target = MemBump;
     fn deref(&self) -> &MemBump {
-        let from_layout = Layout::for_value(self);
-        let data_layout = Layout::new::<MaybeUninit<T>>();
+        let from_size = mem::size_of_val(self);
+        let data_len = Self::data_len();
         // Construct a point with the meta data of a slice to `data`, but pointing to the whole
         // struct instead. This meta data is later copied to the meta data of `bump` when cast.
         let ptr = self as *const Self as *const MaybeUninit<u8>;
-        let mem: *const [MaybeUninit<u8>] = ptr::slice_from_raw_parts(ptr, data_layout.size());
+        let mem: *const [MaybeUninit<u8>] = ptr::slice_from_raw_parts(ptr, data_len);
         // Now we have a pointer to MemBump with length meta data of the data slice.
         let bump = unsafe { &*(mem as *const MemBump) };
-        debug_assert_eq!(from_layout, Layout::for_value(bump));
+        debug_assert_eq!(from_size, mem::size_of_val(bump));
         bump
     }
 }
 
 impl<T> ops::DerefMut for Bump<T> {
     fn deref_mut(&mut self) -> &mut MemBump {
-        let from_layout = Layout::for_value(self);
-        let data_layout = Layout::new::<MaybeUninit<T>>();
+        let from_size = mem::size_of_val(self);
+        let data_len = Self::data_len();
         // Construct a point with the meta data of a slice to `data`, but pointing to the whole
         // struct instead. This meta data is later copied to the meta data of `bump` when cast.
         let ptr = self as *mut Self as *mut MaybeUninit<u8>;
-        let mem: *mut [MaybeUninit<u8>] = ptr::slice_from_raw_parts_mut(ptr, data_layout.size());
+        let mem: *mut [MaybeUninit<u8>] = ptr::slice_from_raw_parts_mut(ptr, data_len);
         // Now we have a pointer to MemBump with length meta data of the data slice.
         let bump = unsafe { &mut *(mem as *mut MemBump) };
-        debug_assert_eq!(from_layout, Layout::for_value(bump));
+        debug_assert_eq!(from_size, mem::size_of_val(bump));
         bump
     }
 }
-- 
2.43.0


From 8502e1c678c6fe8a8e5a032d85998633b320d772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 06/15] fix: remaining values of an ExitStack when one panics
 in its drop

The handle to the remaining values was only stored after the drop, contrary to
the purpose of the flag. They were neither dropped nor reachable any more.
---
 exit-stack/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exit-stack/src/lib.rs b/exit-stack/src/lib.rs
index 63de5c3..f80e1e1 100644
--- a/exit-stack/src/lib.rs
+++ b/exit-stack/src/lib.rs
@@ -205,9 +205,10 @@ impl<Mem> ExitStack<Mem> {
         while let Some(exit_handle) = flag.chain.take() {
             // SAFETY: we only store pointers to the same stack here, which is still valid.
             let slot = unsafe { &mut *exit_handle.as_ptr() };
+            // If the next drop unwinds then the flag is responsible for all remaining values.
+            flag.chain = slot.link;
             // This is also uniquely dropped as it was owned by `flag.chain` before.
             unsafe { core::ptr::drop_in_place(&mut slot.value) };
-            flag.chain = slot.link;
         }
 
         // No more values are present, feel free to move anything.
-- 
2.43.0


From 0a04078be1e60d759b5e1b6e273cde4a9b3c9785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 07/15] fix: offset of UninitView::split_at_byte is in bytes

The pointer was offset by that many instances of the type. The tail was out of
bounds of the allocation, or in case of zero-sized types the same as the head.
---
 without-alloc/src/uninit.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/without-alloc/src/uninit.rs b/without-alloc/src/uninit.rs
index 1b01549..dd76d54 100644
--- a/without-alloc/src/uninit.rs
+++ b/without-alloc/src/uninit.rs
@@ -626,7 +626,8 @@ impl<'a, T> UninitView<'a, T> {
             return None;
         }
 
-        let base = self.ptr.as_ptr();
+        // The offset is in bytes, not in units of `T`.
+        let base = self.ptr.as_ptr() as *mut u8;
         // SAFETY: by `from_memory`, all offsets `< len` are within the allocation.
         // In particular, no pointer within or one-past-the-end is null.
         let next_base = unsafe { ptr::NonNull::new_unchecked(base.add(at)) };
@@ -634,7 +635,7 @@ impl<'a, T> UninitView<'a, T> {
         self.len = at;
 
         // SAFETY: within one allocation, namely the one we are in.
-        let other = unsafe { UninitView::from_memory(next_base.cast(), next_len) };
+        let other = unsafe { UninitView::from_memory(next_base, next_len) };
         Some(other)
     }
 
-- 
2.43.0


From 065d56e1f584c7319dd71169f2fc1d47485b04c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 08/15] fix: length of the first slice in UninitView::split_at

Its pointer kept the length from before the split such that dereferencing it
overlapped with the second part.
---
 without-alloc/src/uninit.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/without-alloc/src/uninit.rs b/without-alloc/src/uninit.rs
index dd76d54..685d6cd 100644
--- a/without-alloc/src/uninit.rs
+++ b/without-alloc/src/uninit.rs
@@ -830,7 +830,13 @@ impl<'a, T> UninitView<'a, [T]> {
         let next_len = self.len - bytes;
         self.len = bytes;
 
-        let base = self.ptr.as_ptr() as *mut u8;
+        let begin = self.ptr.as_ptr() as *mut T;
+        // The pointer must no longer cover the elements of the second part.
+        let head = ptr::slice_from_raw_parts_mut(begin, at);
+        // SAFETY: same address as our non-null pointer.
+        self.ptr = unsafe { ptr::NonNull::new_unchecked(head) };
+
+        let base = begin as *mut u8;
         // SAFETY: was previously in bounds.
         let next_base = unsafe { ptr::NonNull::new_unchecked(base.add(bytes)) };
 
-- 
2.43.0


From f39a3adbdc39dc804995896046d40f3599dd88dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 09/15] fix: release the weak count of an Rc after dropping its
 value

The weak reference owned by the strong ones was released before the drop of the
value. During this drop a Weak could hence be unwrapped into the memory of the
value.
---
 without-alloc/src/rc.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/without-alloc/src/rc.rs b/without-alloc/src/rc.rs
index a64887a..264763d 100644
--- a/without-alloc/src/rc.rs
+++ b/without-alloc/src/rc.rs
@@ -340,11 +340,6 @@ impl<T> Rc<'_, T> {
         let val = Self::weak_count(self) + 1;
         self.inner().weak.set(val);
     }
-
-    fn dec_weak(&self) {
-        let val = Self::weak_count(self) - 1;
-        self.inner().weak.set(val);
-    }
 }
 
 impl<'a, T> Weak<'a, T> {
@@ -519,9 +514,11 @@ impl<T> Drop for Rc<'_, T> {
     /// ```
     fn drop(&mut self) {
         self.dec_strong();
-        // weak count doesn't actually do anything.
         if Rc::strong_count(self) == 0 {
-            self.dec_weak();
+            // The weak reference owned by all strong ones. It must only be released after the
+            // value was dropped, otherwise a `Weak` could be unwrapped to the memory of the value
+            // during its own drop.
+            let _weak = Weak { inner: self.inner };
 
             unsafe {
                 ptr::drop_in_place(self.as_mut_ptr())
-- 
2.43.0


From 9fa11c3b94fa4ff3f95c42630c922fd649993e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 10/15] fix: UninitView::split_layout of memory that is not yet
 aligned

The offset was computed in units of the zero-sized type. No such offset exists
unless the memory is already aligned, and the split was refused.
---
 without-alloc/src/uninit.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/without-alloc/src/uninit.rs b/without-alloc/src/uninit.rs
index 685d6cd..a26d302 100644
--- a/without-alloc/src/uninit.rs
+++ b/without-alloc/src/uninit.rs
@@ -559,7 +559,9 @@ impl UninitView<'_, ()> {
     ///
     /// [`Uninit::split_layout`]: ./struct.Uninit.html#method.split_layout
     pub fn split_layout(&mut self, layout: Layout) -> Option<Self> {
+        // The offset in bytes, there is never a suitable one in units of `()`.
         let align = self.ptr.as_ptr()
+            .cast::<u8>()
             .align_offset(layout.align());
         let aligned_len = self.len
             .checked_sub(align)
-- 
2.43.0


From f4e5539b4f46ada0eaf531d216948f61a7a4869d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 11/15] fix: length of the result of copy_slice

The length was derived from the size of the memory. The copy of a slice of
zero-sized values was always empty, and the copy had uninitialized elements if
the allocator provided more memory than requested.
---
 without-alloc/src/alloc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/without-alloc/src/alloc.rs b/without-alloc/src/alloc.rs
index 8187a86..b31b8ac 100644
--- a/without-alloc/src/alloc.rs
+++ b/without-alloc/src/alloc.rs
@@ -155,8 +155,10 @@ pub trait LocalAllocLeakExt<'alloc>: LocalAlloc<'alloc> {
         }
 
         Some(unsafe {
+            // The size of the memory does not determine the length. Values might be zero-sized,
+            // and allocators can return more memory than requested.
             // SAFETY: this is a copy of `slice` which is initialized.
-            uninit.into_mut()
+            core::slice::from_raw_parts_mut(uninit.as_begin_ptr(), slice.len())
         })
     }
 
-- 
2.43.0


From c72b5423e48e6edf1d513d78050675a470b5cbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 12/15] fix: alignment of zero-sized values in copy_dst

The pointer was only aligned for the unit type, not for the value.
---
 without-alloc/src/alloc.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/without-alloc/src/alloc.rs b/without-alloc/src/alloc.rs
index b31b8ac..0a709b4 100644
--- a/without-alloc/src/alloc.rs
+++ b/without-alloc/src/alloc.rs
@@ -226,7 +226,12 @@ pub trait LocalAllocLeakExt<'alloc>: LocalAlloc<'alloc> {
     unsafe fn copy_dst<T: ?Sized>(&'alloc self, val: &core::mem::ManuallyDrop<T>) -> Option<&'alloc mut T> {
         let layout = alloc::Layout::for_value(val);
         let uninit = match NonZeroLayout::from_layout(layout.into()) {
-            None => Uninit::invent_for_zst(),
+            None => {
+                // The value might require a higher alignment than the one of `()`.
+                let dangling = core::ptr::NonNull::new(layout.align() as *mut u8).unwrap();
+                // SAFETY: all zero bytes are within the allocation.
+                unsafe { Uninit::from_memory(dangling, 0) }
+            },
             Some(layout) => self.alloc_layout(layout)?.uninit,
         };
 
-- 
2.43.0


From f1bbb335e1c8969f3c6a06deeeedd8f94757e7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 13/15] fix: Fill of a Result whose container is full

Items were still taken from the iterator, and lost, after the container in the
Ok was full. This did not terminate for an infinite iterator.
---
 fill/src/fill.rs | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/fill/src/fill.rs b/fill/src/fill.rs
index fe69adb..d85b48d 100644
--- a/fill/src/fill.rs
+++ b/fill/src/fill.rs
@@ -172,24 +172,45 @@ impl<C, E, T> Fill<Result<T, E>> for Result<C, E>
     fn fill<I>(&mut self, iter: I)
         where I: IntoIterator<Item=Result<T, E>>
     {
-        let mut iter = iter.into_iter();
-
         let container = match self {
             Ok(container) => container,
             Err(_) => return,
         };
 
-        let err = loop {
-            match iter.next() {
-                None => return,
-                Some(Err(err)) => break err,
-                Some(Ok(ok)) => {
-                    container.fill(core::iter::once(ok));
-                },
-            };
-        };
+        // Provides the items up to the first error to the container, it decides when it is full.
+        struct UntilErr<'a, I, E> {
+            inner: I,
+            error: &'a mut Option<E>,
+        }
+
+        impl<I, T, E> Iterator for UntilErr<'_, I, E>
+            where I: Iterator<Item=Result<T, E>>
+        {
+            type Item = T;
+            fn next(&mut self) -> Option<T> {
+                if self.error.is_some() {
+                    return None;
+                }
 
-        *self = Err(err);
+                match self.inner.next()? {
+                    Ok(item) => Some(item),
+                    Err(err) => {
+                        *self.error = Some(err);
+                        None
+                    }
+                }
+            }
+        }
+
+        let mut error = None;
+        container.fill(UntilErr {
+            inner: iter.into_iter(),
+            error: &mut error,
+        });
+
+        if let Some(err) = error {
+            *self = Err(err);
+        }
     }
 }
 
-- 
2.43.0


From 068b771b986adc23e4ec9f58e0102d896025a144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:01 +0000
Subject: [PATCH 14/15] fix: overflow of the range bounds in FixedVec::drain

---
 without-alloc/src/fixed_vec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/without-alloc/src/fixed_vec.rs b/without-alloc/src/fixed_vec.rs
index 13349c4..cbb0b55 100644
--- a/without-alloc/src/fixed_vec.rs
+++ b/without-alloc/src/fixed_vec.rs
@@ -372,11 +372,11 @@ impl<T> FixedVec<'_, T> {
         let len = self.len();
         let start = match range.start_bound() {
             ops::Bound::Included(&n) => n,
-            ops::Bound::Excluded(&n) => n + 1,
+            ops::Bound::Excluded(&n) => n.checked_add(1).expect("drain range starts past the maximum usize"),
             ops::Bound::Unbounded    => 0,
         };
         let end = match range.end_bound() {
-            ops::Bound::Included(&n) => n + 1,
+            ops::Bound::Included(&n) => n.checked_add(1).expect("drain range ends past the maximum usize"),
             ops::Bound::Excluded(&n) => n,
             ops::Bound::Unbounded    => len,
         };
-- 
2.43.0


From 047b831d2b48dd464a543ea2d2645b09735b512d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 15/15] fix: ExitStack points into itself and must not be Unpin

---
 exit-stack/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/exit-stack/src/lib.rs b/exit-stack/src/lib.rs
index f80e1e1..610d0c6 100644
--- a/exit-stack/src/lib.rs
+++ b/exit-stack/src/lib.rs
@@ -46,6 +46,7 @@
 //! ```
 #![no_std]
 use core::cell::Cell;
+use core::marker::PhantomPinned;
 use core::mem::MaybeUninit;
 use core::pin::Pin;
 use core::ptr::NonNull;
@@ -64,6 +65,9 @@ pub struct ExitStack<Mem> {
     memory: Bump<PinSlot<Mem>>,
     /// The exit handler to the last filled slot of the exit stack.
     top: Cell<Option<ExitHandle>>,
+    /// The exit handlers point into our own memory, hence it must not be moved while pinned even
+    /// when `Mem` itself could be.
+    _pinned: PhantomPinned,
 }
 
 type ExitHandle = NonNull<PinSlot<dyn Drop>>;
@@ -99,6 +103,7 @@ impl<Mem> ExitStack<Mem> {
         ExitStack {
             memory: Bump::uninit(),
             top: Cell::new(None),
+            _pinned: PhantomPinned,
         }
     }
 
-- 
2.43.0

