From a9f6367eda7eecc21da7bdb78ba3c86734d25a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:37 +0000
Subject: [PATCH 01/34] fix: Vector::append and assign must not clone into
 uninitialized memory

clone_from_slice assigns, and so drops whatever garbage the uninitialized
space holds. Assigning a shorter slice also leaked the old tail.
---
 src/vector/mod.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index 4153e90..87b810f 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -284,10 +284,13 @@ impl<T: Sized + Clone, A: Allocator> Vector<T, A> {
             self.reserve(new_len - self.capacity());
         }
 
-        // copy in place
-        unsafe {
-            self.end_ptr = self.end_ptr.add(buf.len());
-            self.as_slice_mut()[old_len..old_len + buf.len()].clone_from_slice(buf);
+        // clone each element into the uninitialized space, growing the length as we go so that a
+        // panicking clone never exposes uninitialized elements
+        for elem in buf {
+            unsafe {
+                self.end_ptr.write(elem.clone());
+                self.increment_size();
+            }
         }
     }
 
@@ -297,14 +300,12 @@ impl<T: Sized + Clone, A: Allocator> Vector<T, A> {
     ///
     /// `buf`: The slice
     pub fn assign(&mut self, buf: &[T]) {
-        if buf.len() > self.capacity() {
-            self.reserve(buf.len() - self.capacity());
-        }
+        // drop the old elements, but keep the storage
+        let old_elems: *mut [T] = self.as_slice_mut();
+        self.end_ptr = self.begin_ptr;
+        unsafe { ptr::drop_in_place(old_elems) };
 
-        unsafe {
-            self.end_ptr = self.begin_ptr.add(buf.len());
-            self.as_slice_mut().clone_from_slice(buf);
-        }
+        self.append(buf);
     }
 }
 
-- 
2.43.0


From 200b1a3b99ba73bcdf3edc72e28a54a9b9c61b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:37 +0000
Subject: [PATCH 02/34] fix: Deque::drop must free the last subarray

---
 src/deque/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deque/mod.rs b/src/deque/mod.rs
index f0dbd10..b899912 100644
--- a/src/deque/mod.rs
+++ b/src/deque/mod.rs
@@ -445,7 +445,7 @@ impl<'a, T: 'a, A: Allocator> Drop for Deque<'a, T, A> {
             for subarray in unsafe {
                 std::slice::from_raw_parts_mut(
                     current_array,
-                    self.end_it.current_array.offset_from(current_array) as usize,
+                    self.end_it.current_array.offset_from(current_array) as usize + 1,
                 )
             } {
                 self.free_subarray(*subarray);
-- 
2.43.0


From da3ac803809f04c436088cf0b2c405edf0b98a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:53 +0000
Subject: [PATCH 03/34] fix: HashTable must free its bucket array on rehash and
 drop

---
 src/internal/hash_table/mod.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/internal/hash_table/mod.rs b/src/internal/hash_table/mod.rs
index f18c54a..d7080f9 100644
--- a/src/internal/hash_table/mod.rs
+++ b/src/internal/hash_table/mod.rs
@@ -347,6 +347,18 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
         }
     }
 
+    /// Frees the bucket array itself. The nodes must already have been freed or moved
+    fn free_bucket_array(&mut self) {
+        // an empty hash table uses the shared static array, which is not ours to free
+        if self.bucket_count > 1 {
+            // account for the sentinel
+            unsafe {
+                self.allocator
+                    .deallocate(self.bucket_array, self.bucket_count as usize + 1)
+            }
+        }
+    }
+
     /// Inserts a key-value pair into the hash-table.
     ///
     /// # Arguments
@@ -412,7 +424,7 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
                 *bucket_node_ref = std::ptr::null_mut();
             });
         // free the old buckets before setting new ones
-        self.free_buckets();
+        self.free_bucket_array();
         self.bucket_array = new_buckets.as_mut_ptr();
         self.bucket_count = bucket_count;
     }
@@ -431,6 +443,7 @@ where
 impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> Drop for HashTable<K, V, A, H, E> {
     fn drop(&mut self) {
         self.free_buckets();
+        self.free_bucket_array();
     }
 }
 
-- 
2.43.0


From 242efdb84006699fb1ce3c10388a99241c12e319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:53 +0000
Subject: [PATCH 04/34] fix: List must deallocate nodes with the size and
 alignment they were allocated with

---
 src/list/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index 3bae954..b6db149 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -3,7 +3,6 @@ use crate::list::iter::{Iter, IterMut};
 use crate::list::node::{ListNode, ListNodeBase};
 use moveit::{new, New};
 use std::marker::PhantomData;
-use std::mem::size_of;
 use std::{fmt, ptr};
 
 pub(crate) mod iter;
@@ -81,7 +80,7 @@ impl<T, A: Allocator> List<T, A> {
                 // Drop the value
                 ptr::drop_in_place(&mut (*(to_drop as *mut ListNode<T>)).value);
                 // Deallocate the memory for the node
-                self.allocator.deallocate(to_drop, size_of::<ListNode<T>>());
+                self.allocator.deallocate(to_drop as *mut ListNode<T>, 1);
             }
         }
         self.init_sentinel_node();
@@ -207,7 +206,7 @@ impl<T, A: Allocator> List<T, A> {
         (*node).remove();
         let value = ptr::read(&(*(node as *mut ListNode<T>)).value);
         // Deallocate the memory for the node
-        self.allocator.deallocate(node, size_of::<ListNode<T>>());
+        self.allocator.deallocate(node as *mut ListNode<T>, 1);
         self.size -= 1;
         value
     }
-- 
2.43.0


From bc3b3d548f48926b4c7b938da4752401689cbd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:53 +0000
Subject: [PATCH 05/34] fix: HashSet::insert must return true if the key was
 inserted

---
 src/hash_set/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hash_set/mod.rs b/src/hash_set/mod.rs
index c6acb6b..635326b 100644
--- a/src/hash_set/mod.rs
+++ b/src/hash_set/mod.rs
@@ -69,7 +69,7 @@ impl<K: PartialEq, A: Allocator, H: Hash<K>, E: Equals<K>> HashSet<K, A, H, E> {
     ///
     /// `value`: The associated value
     pub fn insert(&mut self, key: K) -> bool {
-        self.hash_table.insert(key, ()).is_some()
+        self.hash_table.insert(key, ()).is_none()
     }
 
     /// Creates a hash set backed by an allocator
-- 
2.43.0


From 770445e93365be8b8fe5e8402fba1173b166ff61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:53 +0000
Subject: [PATCH 06/34] fix: String::assign must replace the contents, not
 append to them

---
 src/string/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string/mod.rs b/src/string/mod.rs
index e1987a2..c12f2b3 100644
--- a/src/string/mod.rs
+++ b/src/string/mod.rs
@@ -76,7 +76,7 @@ impl<A: Allocator> String<A> {
         self.reserve(buf.as_ref().len());
 
         // copy over and null terminate
-        self.vec.append(buf.as_ref().as_bytes());
+        self.vec.assign(buf.as_ref().as_bytes());
 
         // make sure the end is null-terminated
         unsafe { self.null_terminate() }
-- 
2.43.0


From 19911c1ca0c7a35e020c8cddfcf3952f09b670f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:24 +0000
Subject: [PATCH 07/34] fix: String must be null-terminated after
 with_capacity, reserve and remove

---
 src/string/mod.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/string/mod.rs b/src/string/mod.rs
index c12f2b3..fa3a949 100644
--- a/src/string/mod.rs
+++ b/src/string/mod.rs
@@ -36,10 +36,15 @@ impl<A: Allocator + Default> String<A> {
     ///
     /// `capacity`: The initial capacity of the string
     pub fn with_capacity(capacity: usize) -> Self {
-        Self {
+        let mut ret = Self {
             // make space for the null terminator
             vec: Vector::with_capacity(capacity),
-        }
+        };
+
+        // null terminate
+        unsafe { ret.null_terminate() }
+
+        ret
     }
 }
 
@@ -156,7 +161,12 @@ impl<A: Allocator> String<A> {
         if index >= self.len() {
             None
         } else {
-            self.vec.remove(index).map(|elem| elem as char)
+            let elem = self.vec.remove(index).map(|elem| elem as char);
+
+            // null terminate
+            unsafe { self.null_terminate() }
+
+            elem
         }
     }
 
@@ -167,7 +177,10 @@ impl<A: Allocator> String<A> {
     /// `capacity`: The new capacity of the string
     pub fn reserve(&mut self, capacity: usize) {
         // make space for the null terminator
-        self.vec.reserve(capacity + 1)
+        self.vec.reserve(capacity + 1);
+
+        // the old terminator was not copied over
+        unsafe { self.null_terminate() }
     }
 
     /// Null terminate the string.
-- 
2.43.0


From 92160128924264550b0d361c8676febd228b81ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:24 +0000
Subject: [PATCH 08/34] fix: String must store and remove whole UTF-8 encoded
 chars

Truncating a char to its low byte, or removing part of a multi-byte char,
leaves contents that are not valid UTF-8 behind a &str.
---
 src/string/mod.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/string/mod.rs b/src/string/mod.rs
index fa3a949..c02de27 100644
--- a/src/string/mod.rs
+++ b/src/string/mod.rs
@@ -128,7 +128,12 @@ impl<A: Allocator> String<A> {
 
     /// Pops an element off of the back of the array
     pub fn pop(&mut self) -> Option<char> {
-        let elem = self.vec.pop().map(|elem| elem as char);
+        let elem = self.chars().next_back();
+
+        // remove every byte of the char
+        for _ in 0..elem.map_or(0, char::len_utf8) {
+            self.vec.pop();
+        }
 
         // null terminate
         unsafe { self.null_terminate() }
@@ -145,7 +150,15 @@ impl<A: Allocator> String<A> {
     ///
     /// `elem`: The char to add to the string
     pub fn insert(&mut self, index: usize, elem: char) {
-        self.vec.insert(index, elem as u8);
+        assert!(
+            self.is_char_boundary(index),
+            "index out of bounds or not on a char boundary"
+        );
+
+        // insert every byte of the char
+        for (offset, byte) in elem.encode_utf8(&mut [0; 4]).bytes().enumerate() {
+            self.vec.insert(index + offset, byte);
+        }
 
         // null terminate
         unsafe { self.null_terminate() }
@@ -161,7 +174,12 @@ impl<A: Allocator> String<A> {
         if index >= self.len() {
             None
         } else {
-            let elem = self.vec.remove(index).map(|elem| elem as char);
+            let elem = self[index..].chars().next();
+
+            // remove every byte of the char
+            for _ in 0..elem.map_or(0, char::len_utf8) {
+                self.vec.remove(index);
+            }
 
             // null terminate
             unsafe { self.null_terminate() }
-- 
2.43.0


From e7bfde13df0baeac4b0cfadbfc32fed1be1e7cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:24 +0000
Subject: [PATCH 09/34] fix: RBTree must drop keys and values when it frees its
 nodes

---
 src/internal/rb_tree/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/internal/rb_tree/mod.rs b/src/internal/rb_tree/mod.rs
index b7b1936..219dd2d 100644
--- a/src/internal/rb_tree/mod.rs
+++ b/src/internal/rb_tree/mod.rs
@@ -259,8 +259,11 @@ impl<K: PartialEq, V, A: Allocator, C: Compare<K>> RBTree<K, V, A, C> {
         if let Some(right) = root.right() {
             self.free_tree(right)
         }
-        // deallocate the current node
-        unsafe { self.allocator.deallocate(root, 1) }
+        // drop and deallocate the current node
+        unsafe {
+            std::ptr::drop_in_place(root as *mut Node<K, V>);
+            self.allocator.deallocate(root, 1)
+        }
     }
 
     /// Frees all of the nodes in the tree
-- 
2.43.0


From 7596b3bf4223ccaae36545dc6219bb4b7b058cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:24 +0000
Subject: [PATCH 10/34] fix: RBTree::clear must reset the tree to empty

---
 src/internal/rb_tree/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/internal/rb_tree/mod.rs b/src/internal/rb_tree/mod.rs
index 219dd2d..857918a 100644
--- a/src/internal/rb_tree/mod.rs
+++ b/src/internal/rb_tree/mod.rs
@@ -112,7 +112,13 @@ impl<K: PartialEq, V, A: Allocator, C: Compare<K>> RBTree<K, V, A, C> {
 
     /// Clears the red-black tree, removing all key-value pairs
     pub fn clear(&mut self) {
-        self.free_nodes()
+        self.free_nodes();
+
+        // the nodes are gone, so don't point to them anymore
+        self.begin = std::ptr::null_mut();
+        self.end = std::ptr::null_mut();
+        self.parent = std::ptr::null_mut();
+        self.size = 0;
     }
 
     /// Returns true if the red-black tree contains a pair indexed
-- 
2.43.0


From a2b1d32d45ecf0c18f5006ab996697771225ad12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:09 +0000
Subject: [PATCH 11/34] fix: FixedVector::move_new must not swap uninitialized
 memory into the source

The source is dropped after the move, and with it the uninitialized allocator.
---
 src/fixed_vector/mod.rs | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/src/fixed_vector/mod.rs b/src/fixed_vector/mod.rs
index 7dc0538..6d5605a 100644
--- a/src/fixed_vector/mod.rs
+++ b/src/fixed_vector/mod.rs
@@ -8,8 +8,7 @@ use std::fmt::Debug;
 use std::mem::{size_of, MaybeUninit};
 use std::ops::{Deref, DerefMut};
 use std::pin::Pin;
-use std::ptr::null_mut;
-use std::{mem, ptr};
+use std::ptr;
 
 mod allocator;
 
@@ -64,29 +63,22 @@ impl<T: Sized, const NODE_COUNT: usize, A: Allocator + Default> FixedVector<T, N
 unsafe impl<T: Sized, const NODE_COUNT: usize, A: Allocator> MoveNew
     for FixedVector<T, NODE_COUNT, A>
 {
-    unsafe fn move_new(mut src: Pin<MoveRef<Self>>, this: Pin<&mut MaybeUninit<Self>>) {
-        let this = this.get_unchecked_mut().assume_init_mut();
-        let src = src.as_mut().get_unchecked_mut();
-        // Swap the allocator over
-        mem::swap(&mut this.base_vec.allocator, &mut src.base_vec.allocator);
-        if !src.has_overflowed() {
-            // We haven't overflowed, so we need to move the buffer
-            mem::swap(&mut this.buffer, &mut src.buffer);
-            // ... and re-init the base vec pointers point to it
+    unsafe fn move_new(src: Pin<MoveRef<Self>>, this: Pin<&mut MaybeUninit<Self>>) {
+        let src = Pin::into_inner_unchecked(src);
+        let overflowed = src.has_overflowed();
+        let len = src.base_vec.len();
+        // Move everything over, which leaves nothing behind in `src` to be dropped
+        let this = this.get_unchecked_mut().write(MoveRef::into_inner(src));
+        if overflowed {
+            // The elements stay where they are, but the pool has moved
+            this.base_vec.allocator.pool_begin = this.buffer[0].as_mut_ptr() as *mut c_void;
+        } else {
+            // We haven't overflowed, so the elements moved with the buffer, and we have to re-init
+            // the base vec pointers to point to it
             this.init_base_vec();
             // we have to fix the end pointer since it will be set to begin_ptr by init_base_vec
-            this.base_vec.end_ptr = (this.base_vec.begin_ptr as usize
-                + (src.base_vec.end_ptr as usize - src.base_vec.begin_ptr as usize))
-                as *mut T;
-        } else {
-            // We have overflowed - we are not going to use `buffer` anymore so we might as well
-            // leave it uninit - so we only copy over the base vec pointers
-            this.base_vec.begin_ptr = src.base_vec.begin_ptr;
-            this.base_vec.end_ptr = src.base_vec.end_ptr;
-            this.base_vec.capacity_ptr = src.base_vec.capacity_ptr;
+            this.base_vec.end_ptr = this.base_vec.begin_ptr.add(len);
         }
-        // zero `src` `begin_ptr` so any allocated data will not be dropped (we pretend like we never allocated it)
-        src.base_vec.begin_ptr = null_mut();
     }
 }
 
-- 
2.43.0


From 3b586f110aaf536e65709e453ca9ee555aa9d71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:09 +0000
Subject: [PATCH 12/34] fix: FixedVector::clear must return to the inline
 buffer

Vector::clear leaves the vector without storage, which reported an overflow
and never used the inline buffer again.
---
 src/fixed_vector/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fixed_vector/mod.rs b/src/fixed_vector/mod.rs
index 6d5605a..1df7462 100644
--- a/src/fixed_vector/mod.rs
+++ b/src/fixed_vector/mod.rs
@@ -83,6 +83,12 @@ unsafe impl<T: Sized, const NODE_COUNT: usize, A: Allocator> MoveNew
 }
 
 impl<T: Sized, const NODE_COUNT: usize, A: Allocator> FixedVector<T, NODE_COUNT, A> {
+    /// Clears all of the contents, and returns to using the inline buffer
+    pub fn clear(&mut self) {
+        self.base_vec.clear();
+        self.init_base_vec();
+    }
+
     /// Returns the max fixed size, which is the user-supplied NodeCount parameter
     pub fn max_size(&self) -> usize {
         NODE_COUNT
-- 
2.43.0


From f26510dc87660d6ef1faa336c30e4b34451190c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:09 +0000
Subject: [PATCH 13/34] fix: FixedPoolWithOverflow does not own the address
 past its pool

---
 src/fixed_pool/with_overflow.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fixed_pool/with_overflow.rs b/src/fixed_pool/with_overflow.rs
index d5cb777..6f32ba2 100644
--- a/src/fixed_pool/with_overflow.rs
+++ b/src/fixed_pool/with_overflow.rs
@@ -85,7 +85,7 @@ unsafe impl<Node: Sized, OverflowAllocator: Allocator> Allocator
 
     unsafe fn deallocate_raw_aligned(&mut self, p: *mut (), _n: usize, _align: usize) {
         // if it's contained within the pool allocator, use the pool allocator
-        if self.pool_begin <= p && p <= self.pool_allocator.capacity.cast() {
+        if self.pool_begin <= p && p < self.pool_allocator.capacity.cast() {
             self.pool_allocator.deallocate_raw_aligned(p, _n, _align)
         } else {
             self.overflow_allocator
-- 
2.43.0


From e9103690def883a2eb6ac96895330ee6bd78aa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:09 +0000
Subject: [PATCH 14/34] fix: hash the bytes of a C string, not a lossy UTF-8
 conversion of it

---
 src/hash.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hash.rs b/src/hash.rs
index 93259b3..e14894e 100644
--- a/src/hash.rs
+++ b/src/hash.rs
@@ -98,17 +98,17 @@ impl Hash<bool> for DefaultHash<bool> {
 /// # Arguments
 ///
 /// `str`: The string to hash
-fn fnv1<S: AsRef<str>>(str: S) -> usize {
+fn fnv1(bytes: &[u8]) -> usize {
     let mut res: u32 = 2166136261;
-    str.as_ref()
-        .bytes()
-        .for_each(|c| res = (res.wrapping_mul(16777619)) ^ (c as u32));
+    bytes
+        .iter()
+        .for_each(|&c| res = (res.wrapping_mul(16777619)) ^ (c as u32));
     res as usize
 }
 
 impl Hash<str> for DefaultHash<str> {
     fn hash(val: &str) -> usize {
-        fnv1(val)
+        fnv1(val.as_bytes())
     }
 }
 
@@ -120,7 +120,7 @@ impl Hash<&str> for DefaultHash<&str> {
 
 impl Hash<*const c_char> for DefaultHash<*const c_char> {
     fn hash(val: &*const c_char) -> usize {
-        DefaultHash::<str>::hash(unsafe { CStr::from_ptr(*val) }.to_string_lossy().as_ref())
+        fnv1(unsafe { CStr::from_ptr(*val) }.to_bytes())
     }
 }
 
-- 
2.43.0


From 332eecdce4ca022b84cb4119cbcf5f2f900b3bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:09 +0000
Subject: [PATCH 15/34] fix: hash table compatibility iterators must match
 EASTL's representation

In EASTL, an iterator's bucket is the one that holds its node, and the end
iterator's node is the sentinel. With the bucket one too far, EASTL skips a
bucket, and a Rust iterator made from EASTL iterators visits one twice.
---
 src/internal/hash_table/iter.rs | 69 ++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 26 deletions(-)

diff --git a/src/internal/hash_table/iter.rs b/src/internal/hash_table/iter.rs
index 5b49303..bd52464 100644
--- a/src/internal/hash_table/iter.rs
+++ b/src/internal/hash_table/iter.rs
@@ -1,6 +1,9 @@
 use super::node::Node;
 use std::marker::PhantomData;
 
+/// The node of an end iterator, which is the sentinel that follows the buckets.
+const END_NODE: usize = !0;
+
 /// A compatibility iterator for C++ iterators.
 /// Tho concept of begin and end are not used in
 /// rust, so these are strictly for compatibility's
@@ -45,18 +48,17 @@ impl<'a, K: PartialEq, V> RawIter<'a, K, V> {
     /// Converts the Rust iterator into a pair of
     /// `(begin, end)` compatibility iterators
     fn into_compat(self) -> (CompatIter<'a, K, V>, CompatIter<'a, K, V>) {
+        // safety: the iterators are made immutable here
+        let (begin, end) = unsafe { self.into_compat_mut() };
         (
             CompatIter::<'a, K, V> {
-                node_ptr: self.node_ptr,
-                bucket_ptr: self.bucket_iter.as_slice().as_ptr() as *const *const Node<K, V>,
+                node_ptr: begin.node_ptr,
+                bucket_ptr: begin.bucket_ptr as *const *const Node<K, V>,
                 _marker: PhantomData,
             },
             CompatIter::<'a, K, V> {
-                node_ptr: std::ptr::null_mut(),
-                bucket_ptr: unsafe {
-                    (self.bucket_iter.as_slice().as_ptr() as *const *const Node<K, V>)
-                        .add(self.bucket_iter.as_slice().len())
-                },
+                node_ptr: end.node_ptr,
+                bucket_ptr: end.bucket_ptr as *const *const Node<K, V>,
                 _marker: PhantomData,
             },
         )
@@ -70,19 +72,23 @@ impl<'a, K: PartialEq, V> RawIter<'a, K, V> {
     /// Mutability of the exposed iterator must be enforced.
     /// POLLO: Is there a better way to do this?
     unsafe fn into_compat_mut(self) -> (CompatIterMut<'a, K, V>, CompatIterMut<'a, K, V>) {
+        let remaining_buckets = self.bucket_iter.as_slice();
+        let end_bucket = remaining_buckets.as_ptr().add(remaining_buckets.len());
+        let (node_ptr, bucket_ptr) = if self.node_ptr.is_null() {
+            (END_NODE as *mut Node<K, V>, end_bucket)
+        } else {
+            // the bucket iterator is already past the bucket of the current node
+            (self.node_ptr, remaining_buckets.as_ptr().sub(1))
+        };
         (
             CompatIterMut::<'a, K, V> {
-                node_ptr: self.node_ptr,
-                bucket_ptr: self.bucket_iter.as_slice().as_ptr(),
+                node_ptr,
+                bucket_ptr,
                 _marker: PhantomData,
             },
             CompatIterMut::<'a, K, V> {
-                node_ptr: std::ptr::null_mut(),
-                bucket_ptr: self
-                    .bucket_iter
-                    .as_slice()
-                    .as_ptr()
-                    .add(self.bucket_iter.as_slice().len()),
+                node_ptr: END_NODE as *mut Node<K, V>,
+                bucket_ptr: end_bucket,
                 _marker: PhantomData,
             },
         )
@@ -102,14 +108,18 @@ impl<'a, K: PartialEq, V> RawIter<'a, K, V> {
     ///
     /// `end`: The ending compatibility iterator
     unsafe fn from_compat(begin: CompatIter<K, V>, end: CompatIter<K, V>) -> Self {
-        Self {
-            bucket_iter: std::slice::from_raw_parts(
-                begin.bucket_ptr as *const *mut Node<K, V>,
-                end.bucket_ptr.offset_from(begin.bucket_ptr) as usize,
-            )
-            .iter(),
-            node_ptr: begin.node_ptr,
-        }
+        Self::from_compat_mut(
+            CompatIterMut {
+                node_ptr: begin.node_ptr,
+                bucket_ptr: begin.bucket_ptr as *const *mut Node<K, V>,
+                _marker: PhantomData,
+            },
+            CompatIterMut {
+                node_ptr: end.node_ptr,
+                bucket_ptr: end.bucket_ptr as *const *mut Node<K, V>,
+                _marker: PhantomData,
+            },
+        )
     }
 
     /// Constructs a Rust iterator from a pair of
@@ -126,11 +136,18 @@ impl<'a, K: PartialEq, V> RawIter<'a, K, V> {
     ///
     /// `end`: The ending compatibility iterator
     unsafe fn from_compat_mut(begin: CompatIterMut<K, V>, end: CompatIterMut<K, V>) -> Self {
+        let (node_ptr, first_bucket) = if begin.bucket_ptr == end.bucket_ptr {
+            // there is nothing left
+            (std::ptr::null_mut(), end.bucket_ptr)
+        } else {
+            // the bucket of the current node is not visited again
+            (begin.node_ptr, begin.bucket_ptr.add(1))
+        };
         Self {
-            node_ptr: begin.node_ptr,
+            node_ptr,
             bucket_iter: std::slice::from_raw_parts(
-                begin.bucket_ptr,
-                end.bucket_ptr.offset_from(begin.bucket_ptr) as usize,
+                first_bucket,
+                end.bucket_ptr.offset_from(first_bucket) as usize,
             )
             .iter(),
         }
-- 
2.43.0


From 4f4832c8052ae7783c8d4964aea41f6f1036bdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:09 +0000
Subject: [PATCH 16/34] fix: HashTable must not recurse once for every node of
 a bucket it frees

A long chain of colliding keys overflowed the stack.
---
 src/internal/hash_table/mod.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/internal/hash_table/mod.rs b/src/internal/hash_table/mod.rs
index d7080f9..8581434 100644
--- a/src/internal/hash_table/mod.rs
+++ b/src/internal/hash_table/mod.rs
@@ -320,14 +320,15 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
     ///
     /// `bucket_node`: The node in the bucket
     fn free_bucket(&mut self, bucket_node: &mut Node<K, V>) {
-        // free the next node
-        if let Some(next_node) = bucket_node.next_mut() {
-            self.free_bucket(next_node);
-        }
-        // drop and free our node
-        unsafe {
-            std::ptr::drop_in_place(bucket_node as *mut Node<K, V>);
-            self.allocator.deallocate(bucket_node, 1)
+        let mut node = bucket_node as *mut Node<K, V>;
+        while !node.is_null() {
+            // drop and free the node
+            unsafe {
+                let next_node = (*node).next;
+                std::ptr::drop_in_place(node);
+                self.allocator.deallocate(node, 1);
+                node = next_node;
+            }
         }
     }
 
-- 
2.43.0


From 955605c0c4f479f2a10d881220732216b3ca9ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:09 +0000
Subject: [PATCH 17/34] fix: capacity arithmetic must not wrap around

In a release build, a huge capacity wrapped around to a small allocation.
---
 src/allocator.rs                        | 6 +++++-
 src/string/mod.rs                       | 3 ++-
 src/string/null_terminator_allocator.rs | 3 ++-
 src/vector/mod.rs                       | 5 ++++-
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/allocator.rs b/src/allocator.rs
index 7544ff5..985a81e 100644
--- a/src/allocator.rs
+++ b/src/allocator.rs
@@ -15,7 +15,11 @@ pub unsafe trait Allocator {
     fn allocate<T>(&mut self, n: usize) -> *mut T {
         unsafe {
             std::mem::transmute(
-                self.allocate_raw_aligned(n * std::mem::size_of::<T>(), std::mem::align_of::<T>()),
+                self.allocate_raw_aligned(
+                    n.checked_mul(std::mem::size_of::<T>())
+                        .expect("capacity overflow"),
+                    std::mem::align_of::<T>(),
+                ),
             )
         }
     }
diff --git a/src/string/mod.rs b/src/string/mod.rs
index c02de27..f150f03 100644
--- a/src/string/mod.rs
+++ b/src/string/mod.rs
@@ -195,7 +195,8 @@ impl<A: Allocator> String<A> {
     /// `capacity`: The new capacity of the string
     pub fn reserve(&mut self, capacity: usize) {
         // make space for the null terminator
-        self.vec.reserve(capacity + 1);
+        self.vec
+            .reserve(capacity.checked_add(1).expect("capacity overflow"));
 
         // the old terminator was not copied over
         unsafe { self.null_terminate() }
diff --git a/src/string/null_terminator_allocator.rs b/src/string/null_terminator_allocator.rs
index 326ae80..3deeff1 100644
--- a/src/string/null_terminator_allocator.rs
+++ b/src/string/null_terminator_allocator.rs
@@ -5,7 +5,8 @@ pub(crate) struct NullTerminatorAllocator<A: Allocator>(pub(crate) A);
 unsafe impl<A: Allocator> Allocator for NullTerminatorAllocator<A> {
     fn allocate_raw_aligned(&mut self, n: usize, align: usize) -> *mut () {
         // always leave room for the null terminator
-        let res = self.0.allocate_raw_aligned(n + 1, align);
+        let size = n.checked_add(1).expect("capacity overflow");
+        let res = self.0.allocate_raw_aligned(size, align);
         // null terminate
         *(unsafe { &mut *(res as *mut u8).add(n) }) = 0;
         res
diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index 87b810f..c3893a9 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -206,7 +206,10 @@ impl<T: Sized, A: Allocator> Vector<T, A> {
         }
         // allocate a new bit of memory
         let size = self.len();
-        let new_capacity = self.capacity() + additional;
+        let new_capacity = self
+            .capacity()
+            .checked_add(additional)
+            .expect("capacity overflow");
         // allocate the new buffer
         let new_begin_ptr = self.allocator.allocate::<T>(new_capacity);
         // copy from the old array if we should
-- 
2.43.0


From 4863a0795d5446a7f7346ce489cfe15447bb9470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:09 +0000
Subject: [PATCH 18/34] fix: DefaultAllocator must not hand out null when
 memory runs out

The containers use what they are given, so they wrote through a null pointer.
---
 src/allocator.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/allocator.rs b/src/allocator.rs
index 985a81e..f21535b 100644
--- a/src/allocator.rs
+++ b/src/allocator.rs
@@ -106,11 +106,12 @@ unsafe impl Allocator for DefaultAllocator {
     fn allocate_raw_aligned(&mut self, n: usize, align: usize) -> *mut () {
         assert_ne!(n, 0, "`n` must not be zero!");
 
-        unsafe {
-            std::mem::transmute(alloc::alloc(
-                Layout::array::<u8>(n).unwrap().align_to(align).unwrap(),
-            ))
+        let layout = Layout::array::<u8>(n).unwrap().align_to(align).unwrap();
+        let p = unsafe { alloc::alloc(layout) };
+        if p.is_null() {
+            alloc::handle_alloc_error(layout)
         }
+        p.cast()
     }
 
     unsafe fn deallocate_raw_aligned(&mut self, p: *mut (), n: usize, align: usize) {
-- 
2.43.0


From af81e3563afa9e4c61bdafcd44ef9e50870a4a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:33 +0000
Subject: [PATCH 19/34] Add verification hooks, guarded by cfg eastl_rs_verif

---
 src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 4aaeb16..b8bc6a4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,6 +1,8 @@
 // for `FixedList`
 #![cfg_attr(feature = "nightly", allow(incomplete_features))]
 #![cfg_attr(feature = "nightly", feature(generic_const_exprs))]
+// for `eastl_rs_verif`, which only the verification harness sets
+#![allow(unexpected_cfgs)]
 
 pub mod allocator;
 pub mod compare;
@@ -39,3 +41,11 @@ pub use set::Set;
 pub use string::{DefaultString, String};
 pub use vector::{DefaultVector, Vector};
 pub use vector_map::{DefaultVectorMap, VectorMap};
+
+/// The private parts that the verification harness needs, built only with `--cfg eastl_rs_verif`.
+#[cfg(eastl_rs_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use crate::fixed_pool::with_overflow::FixedPoolWithOverflow;
+    pub use crate::fixed_pool::{FixedPool, PoolAllocator};
+}
-- 
2.43.0


From 83360f5985288ef3ab6a1901fc86bb85a7173edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:01 +0000
Subject: [PATCH 20/34] fix: VectorMap must decide whether keys are equal with
 its comparator

With a comparator for which unequal keys can be equivalent, an inserted key
shadowed the others and they could not be found anymore.
---
 src/vector_map/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vector_map/mod.rs b/src/vector_map/mod.rs
index f629dc8..976789e 100644
--- a/src/vector_map/mod.rs
+++ b/src/vector_map/mod.rs
@@ -78,7 +78,7 @@ impl<K: PartialEq, V, A: Allocator, C: Compare<K> + Default> VectorMap<K, V, A,
         let lower_bound = self.lower_bound(&key);
 
         // if it already exists, just replace the value and return the original
-        if lower_bound < self.len() && self.base[lower_bound].0 == key {
+        if lower_bound < self.len() && !C::compare(&key, &self.base[lower_bound].0) {
             Entry::Occupied(OccupiedEntry(&mut self.base[lower_bound]))
         } else {
             Entry::Vacant(VacantEntry {
@@ -101,7 +101,7 @@ impl<K: PartialEq, V, A: Allocator, C: Compare<K> + Default> VectorMap<K, V, A,
         if lower_bound < self.len() {
             let (k, v) = &self.base[lower_bound];
 
-            if k == key {
+            if !C::compare(key, k) {
                 Some(v)
             } else {
                 None
@@ -123,7 +123,7 @@ impl<K: PartialEq, V, A: Allocator, C: Compare<K> + Default> VectorMap<K, V, A,
         if lower_bound < self.len() {
             let (k, v) = &mut self.base[lower_bound];
 
-            if k == key {
+            if !C::compare(key, k) {
                 Some(v)
             } else {
                 None
@@ -145,7 +145,7 @@ impl<K: PartialEq, V, A: Allocator, C: Compare<K> + Default> VectorMap<K, V, A,
         let lower_bound = self.lower_bound(&key);
 
         // if it already exists, just replace the value and return the original
-        if lower_bound < self.len() && self.base[lower_bound].0 == key {
+        if lower_bound < self.len() && !C::compare(&key, &self.base[lower_bound].0) {
             std::mem::swap(&mut value, &mut self.base[lower_bound].1);
 
             Some(value)
@@ -179,7 +179,7 @@ impl<K: PartialEq, V, A: Allocator, C: Compare<K> + Default> VectorMap<K, V, A,
         // find the entry
         let lower_bound = self.lower_bound(key);
 
-        if lower_bound < self.len() && &self.base[lower_bound].0 == key {
+        if lower_bound < self.len() && !C::compare(key, &self.base[lower_bound].0) {
             self.base.remove(lower_bound)
         } else {
             None
-- 
2.43.0


From 077686f0057a4ada695cd93bbd24842334d3437b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:53 +0000
Subject: [PATCH 21/34] fix: a hash node keeps its pair together, as EASTL does

With keys or values aligned to 16 or more, the next pointer went into the
pair's padding, where EASTL doesn't look for it.
---
 src/internal/hash_table/entry.rs |  7 ++++---
 src/internal/hash_table/iter.rs  |  2 +-
 src/internal/hash_table/mod.rs   |  4 ++--
 src/internal/hash_table/node.rs  | 13 ++++++-------
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/internal/hash_table/entry.rs b/src/internal/hash_table/entry.rs
index 67b4264..d587e84 100644
--- a/src/internal/hash_table/entry.rs
+++ b/src/internal/hash_table/entry.rs
@@ -27,7 +27,7 @@ impl<'a, K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> Entry<'a, K, V
     /// `f`: A function taking a mutable reference to the value.
     pub fn and_modify<F: Fn(&mut V)>(mut self, f: F) -> Self {
         if let Self::Occupied(occupied) = &mut self {
-            f(&mut occupied.val);
+            f(&mut occupied.pair.1);
         }
 
         self
@@ -49,13 +49,14 @@ impl<'a, K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> Entry<'a, K, V
     /// `default`: A function producing a default value.
     pub fn or_insert_with<F: FnOnce() -> V>(self, default: F) -> &'a mut V {
         match self {
-            Self::Occupied(v) => &mut v.val,
+            Self::Occupied(v) => &mut v.pair.1,
             Self::Vacant(entry) => {
                 let val = default();
                 &mut entry
                     .table
                     .insert_impl(entry.target_bucket, entry.key, val)
-                    .val
+                    .pair
+                    .1
             }
         }
     }
diff --git a/src/internal/hash_table/iter.rs b/src/internal/hash_table/iter.rs
index bd52464..e867f53 100644
--- a/src/internal/hash_table/iter.rs
+++ b/src/internal/hash_table/iter.rs
@@ -196,7 +196,7 @@ impl<'a, K: PartialEq, V> Iterator for RawIter<'a, K, V> {
             .unwrap_or_else(std::ptr::null_mut);
         // of course it is safe to deref old_ptr here because
         // we have already verified it is non-null
-        Some(unsafe { (&(*old_ptr).key, &mut (*old_ptr).val) })
+        Some(unsafe { (&(*old_ptr).pair.0, &mut (*old_ptr).pair.1) })
     }
 }
 
diff --git a/src/internal/hash_table/mod.rs b/src/internal/hash_table/mod.rs
index 8581434..e299f2c 100644
--- a/src/internal/hash_table/mod.rs
+++ b/src/internal/hash_table/mod.rs
@@ -207,8 +207,8 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
             } else {
                 let node = *bucket;
                 (*bucket) = (**bucket).next;
-                let key = std::ptr::read(&(*node).key);
-                let value = std::ptr::read(&(*node).val);
+                let key = std::ptr::read(&(*node).pair.0);
+                let value = std::ptr::read(&(*node).pair.1);
                 // notice we don't drop the key or value here.
                 // we don't want to drop them now and still have
                 // binary copies of them existing
diff --git a/src/internal/hash_table/node.rs b/src/internal/hash_table/node.rs
index 186ef2f..d93cca8 100644
--- a/src/internal/hash_table/node.rs
+++ b/src/internal/hash_table/node.rs
@@ -1,8 +1,8 @@
 /// A node in a hashtable
 #[repr(C)]
 pub struct Node<K: PartialEq, V> {
-    pub key: K,
-    pub val: V,
+    // one field, as in EASTL: its padding belongs to the pair, `next` does not go there
+    pub pair: (K, V),
     pub next: *mut Self,
 }
 
@@ -18,25 +18,24 @@ impl<K: PartialEq, V> Node<K, V> {
     /// `next`: The next linked node in the list
     pub fn new(key: K, value: V, next: *mut Self) -> Self {
         Self {
-            key,
-            val: value,
+            pair: (key, value),
             next,
         }
     }
 
     /// Returns the key of the node
     pub fn key(&self) -> &K {
-        &self.key
+        &self.pair.0
     }
 
     /// Returns the value of the node
     pub fn value(&self) -> &V {
-        &self.val
+        &self.pair.1
     }
 
     /// Returns the value of the node
     pub fn value_mut(&mut self) -> &mut V {
-        &mut self.val
+        &mut self.pair.1
     }
 
     /// Returns the next node following this node
-- 
2.43.0


From 4e394c5d64229537a3669f66b50b8deb72a79e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:33 +0000
Subject: [PATCH 22/34] fix: a pool's block can be shorter than its alignment
 gap

The remaining size wrapped around, and the pool handed out memory that is not
its own.
---
 src/fixed_pool/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fixed_pool/mod.rs b/src/fixed_pool/mod.rs
index dc101b3..73b352c 100644
--- a/src/fixed_pool/mod.rs
+++ b/src/fixed_pool/mod.rs
@@ -64,7 +64,8 @@ impl<Node: Sized> PoolAllocator for FixedPool<Node> {
 
         let next = (memory.as_ptr() as usize + (node_align - 1)) & !(node_align - 1);
         // chop off any bytes consumed by alignment requirements
-        memory_size -= next - memory.as_ptr() as usize;
+        // (which can be all of them)
+        memory_size = memory_size.saturating_sub(next - memory.as_ptr() as usize);
 
         // this isn't really a valid case, but we'll add a debug check anyway
         debug_assert!(node_size >= mem::size_of::<Link>());
-- 
2.43.0


From aba8430b6c7585040e26e8b54f5d86c84338a459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:22 +0000
Subject: [PATCH 23/34] fix: iterating a tree must not refer to its anchor as a
 node

The anchor is less aligned than a node whose key or value is over-aligned, so
a reference to it as a node is undefined behaviour: iterating over such a Map
or Set ends the process where the compiler checks for misaligned dereferences.
---
 src/internal/rb_tree/iter.rs |  2 +-
 src/internal/rb_tree/node.rs | 51 +++++++++++++++++++-----------------
 2 files changed, 28 insertions(+), 25 deletions(-)

diff --git a/src/internal/rb_tree/iter.rs b/src/internal/rb_tree/iter.rs
index ec169c1..b57046f 100644
--- a/src/internal/rb_tree/iter.rs
+++ b/src/internal/rb_tree/iter.rs
@@ -41,7 +41,7 @@ impl<'a, K: 'a, V: 'a> Iterator for IterMut<'a, K, V> {
 
         unsafe { self.node.as_mut() }.map(|node| {
             // update the iterator
-            self.node = node.next_mut();
+            self.node = node.next();
             (&node.pair.0, &mut node.pair.1)
         })
     }
diff --git a/src/internal/rb_tree/node.rs b/src/internal/rb_tree/node.rs
index 0f36fe1..67bab11 100644
--- a/src/internal/rb_tree/node.rs
+++ b/src/internal/rb_tree/node.rs
@@ -1,4 +1,3 @@
-use duplicate::duplicate_item;
 use std::{fmt::Debug, marker::PhantomData, ptr};
 
 /// The color of a red-black tree node
@@ -91,6 +90,15 @@ pub struct Node<K, V> {
     pub(crate) pair: (K, V),
 }
 
+/// The part of a node that the anchor of a tree has as well. The anchor is less aligned than a node
+/// if the key or value is over-aligned, so it must not be accessed as one.
+#[repr(C)]
+struct Links<K, V> {
+    right: *mut Node<K, V>,
+    _left: *mut Node<K, V>,
+    parent: ParentColor<K, V>,
+}
+
 impl<K: Default, V: Default> Default for Node<K, V> {
     fn default() -> Self {
         Self {
@@ -192,16 +200,9 @@ impl<K, V> Node<K, V> {
         old_right
     }
 
-    /// Returns the next node in the tree, in increasing order.
-    ///
-    /// # Safety
-    /// This method returns
-    #[duplicate_item(
-        next        Self        Node;
-        [next]      [Self]      [Node];
-        [next_mut]  [mut Self]  [mut Node]
-    )]
-    pub fn next(mut self: &Self) -> &Node<K, V> {
+    /// Returns the next node in the tree, in increasing order. This is the anchor for the last node,
+    /// which must not be dereferenced because it is not a node.
+    pub fn next(&self) -> *mut Node<K, V> {
         if let Some(mut right_node) = unsafe { self.right.as_mut() } {
             // the successor lies in the right subtree. find the smallest value in the greater
             // subtree, which is the left-most node.
@@ -215,20 +216,22 @@ impl<K, V> Node<K, V> {
             // parent's left node (meaning the parent is the first node greater than the node)
             // safety: the parent of a node is always present, because the parent of the root node
             // is inside the tree itself
-            let mut parent = unsafe { &mut *self.parent.ptr() };
-            while ptr::eq(self as *const _, parent.right as *const _) {
-                let parent_parent = unsafe { &mut *parent.parent.ptr() };
-                self = parent;
-                parent = parent_parent;
+            unsafe {
+                let mut node = self as *const Self as *mut Links<K, V>;
+                let mut parent = (*node).parent.ptr() as *mut Links<K, V>;
+                while ptr::eq(node, (*parent).right as *const _) {
+                    node = parent;
+                    parent = (*parent).parent.ptr() as *mut Links<K, V>;
+                }
+
+                // I have deliberated on this and truly have no clue why we are doing this, but it
+                // works and is how it is originally implemented
+                if !ptr::eq((*node).right as *const _, parent) {
+                    node = parent;
+                }
+
+                node as *mut Node<K, V>
             }
-
-            // I have deliberated on this and truly have no clue why we are doing this, but it works
-            // and is how it is originally implemented
-            if !ptr::eq(self.right, parent) {
-                self = parent;
-            }
-
-            self
         }
     }
 
-- 
2.43.0


From 01b5641260125f713cfe6f0e4545482879fd2139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:56 +0000
Subject: [PATCH 24/34] fix: Deque and Queue iterators must borrow the
 container

They carried the lifetime of the container's type instead of that of the borrow, so safe code could
keep one while the container was changed, moved or dropped.
---
 src/deque/mod.rs | 4 ++--
 src/queue.rs     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/deque/mod.rs b/src/deque/mod.rs
index b899912..347ffef 100644
--- a/src/deque/mod.rs
+++ b/src/deque/mod.rs
@@ -59,12 +59,12 @@ impl<'a, T: 'a, A: Allocator> Deque<'a, T, A> {
     }
 
     /// Returns an iterator over the deque
-    pub fn iter(&self) -> Iter<'a, T> {
+    pub fn iter(&self) -> Iter<'_, T> {
         unsafe { Iter::from_compat((&self.begin_it).into(), (&self.end_it).into()) }
     }
 
     /// Returns a mutable iterator over the deque
-    pub fn iter_mut(&mut self) -> IterMut<'a, T> {
+    pub fn iter_mut(&mut self) -> IterMut<'_, T> {
         unsafe { IterMut::from_compat(self.begin_it.clone(), self.end_it.clone()) }
     }
 
diff --git a/src/queue.rs b/src/queue.rs
index 50e3fc3..3804206 100644
--- a/src/queue.rs
+++ b/src/queue.rs
@@ -36,12 +36,12 @@ impl<'a, T: 'a, A: Allocator> Queue<'a, T, A> {
     }
 
     /// Produces an iterator over all of the elements in the queue
-    pub fn iter(&self) -> Iter<'a, T> {
+    pub fn iter(&self) -> Iter<'_, T> {
         self.deque.iter()
     }
 
     /// Produces a mutable iterator over all of the elements in the queue
-    pub fn iter_mut(&mut self) -> IterMut<'a, T> {
+    pub fn iter_mut(&mut self) -> IterMut<'_, T> {
         self.deque.iter_mut()
     }
 
-- 
2.43.0


From a749f9fb50835122b9558b1647a203b9e3b10c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:56 +0000
Subject: [PATCH 25/34] fix: List::iter_mut must borrow the list exclusively

It took the list by shared reference, so safe code could obtain several exclusive references to one
element.
---
 src/fixed_list/conformant.rs | 2 +-
 src/list/mod.rs              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fixed_list/conformant.rs b/src/fixed_list/conformant.rs
index cb7bb45..7a2b856 100644
--- a/src/fixed_list/conformant.rs
+++ b/src/fixed_list/conformant.rs
@@ -111,7 +111,7 @@ where
     }
 
     /// Return a mutable forward iterator for this list
-    pub fn iter_mut(&self) -> crate::list::iter::IterMut<'_, T> {
+    pub fn iter_mut(&mut self) -> crate::list::iter::IterMut<'_, T> {
         self.base_list.iter_mut()
     }
 
diff --git a/src/list/mod.rs b/src/list/mod.rs
index b6db149..2a15622 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -124,7 +124,7 @@ impl<T, A: Allocator> List<T, A> {
     }
 
     /// Return a mutable forward iterator for this list
-    pub fn iter_mut(&self) -> IterMut<'_, T> {
+    pub fn iter_mut(&mut self) -> IterMut<'_, T> {
         IterMut::new(&self.node, self.size())
     }
 
-- 
2.43.0


From b0eecaa13be30151b4626d8891510ee03f7d0ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:17 +0000
Subject: [PATCH 26/34] fix: do not let the hash containers' mutable iterator
 be cloned

Each of two clones yielded mutable references to the same values.
---
 src/internal/hash_table/iter.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/internal/hash_table/iter.rs b/src/internal/hash_table/iter.rs
index e867f53..3d89d4c 100644
--- a/src/internal/hash_table/iter.rs
+++ b/src/internal/hash_table/iter.rs
@@ -297,7 +297,6 @@ impl<'a, K: PartialEq + 'a, V: 'a> Iterator for Iter<'a, K, V> {
 /// It is unspecified whether or not an element
 /// inserted after an iterator was created will
 /// be yielded by the iterator
-#[derive(Clone)]
 pub struct IterMut<'a, K: PartialEq + 'a, V: 'a> {
     inner: RawIter<'a, K, V>,
 }
-- 
2.43.0


From 77efad8f9c9ed11a3f9d34a9cf6aeac4d9438b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:21 +0000
Subject: [PATCH 27/34] fix: leave the inline buffer out of a cloned fixed
 vector allocator

A clone of the vector inside kept the address of the original's buffer, and never freed a block
that was later placed there.
---
 src/fixed_vector/allocator.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fixed_vector/allocator.rs b/src/fixed_vector/allocator.rs
index e2491e0..57d873e 100644
--- a/src/fixed_vector/allocator.rs
+++ b/src/fixed_vector/allocator.rs
@@ -3,7 +3,6 @@ use std::ffi::c_void;
 use std::ptr;
 use std::ptr::null_mut;
 
-#[derive(Copy, Clone)]
 #[repr(C)]
 pub struct FixedVectorAllocator<A: Allocator> {
     overflow_allocator: A,
@@ -32,6 +31,13 @@ impl<A: Allocator + Default> Default for FixedVectorAllocator<A> {
     }
 }
 
+impl<A: Allocator + Clone> Clone for FixedVectorAllocator<A> {
+    fn clone(&self) -> Self {
+        // the pool belongs to the fixed vector, and a vector made with the clone has none
+        Self::new_with(self.overflow_allocator.clone())
+    }
+}
+
 unsafe impl<A: Allocator> Allocator for FixedVectorAllocator<A> {
     fn allocate_raw_aligned(&mut self, n: usize, align: usize) -> *mut () {
         self.overflow_allocator.allocate_raw_aligned(n, align)
-- 
2.43.0


From 4eb3f5fc8a8da7b9a6f7694482a8adad90af85ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:08 +0000
Subject: [PATCH 28/34] fix: an element destructor that panics in Vector::clear
 no longer lets elements be dropped twice

---
 src/vector/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index c3893a9..ca657ae 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -89,8 +89,11 @@ impl<T: Sized, A: Allocator> Vector<T, A> {
     pub fn clear(&mut self) {
         if !self.begin_ptr.is_null() {
             unsafe {
-                // drop all elements in place
-                std::ptr::drop_in_place(self.as_slice_mut());
+                // drop all elements in place. they are no longer ours, even if a
+                // destructor panics
+                let elems: *mut [T] = self.as_slice_mut();
+                self.end_ptr = self.begin_ptr;
+                std::ptr::drop_in_place(elems);
                 // free the array
                 self.allocator
                     .deallocate::<T>(self.begin_ptr, self.capacity())
-- 
2.43.0


From 7019308922e5fbf436e44c3cff583ee8f13fc653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:08 +0000
Subject: [PATCH 29/34] fix: an element destructor that panics in List::clear
 no longer leaves freed nodes linked

---
 src/list/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index 2a15622..63cdc83 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -77,6 +77,9 @@ impl<T, A: Allocator> List<T, A> {
                 let to_drop = next;
                 // Advance the next pointer before we delete the current node
                 next = (*next).next;
+                // Unlink the node, so that it is gone even if the destructor panics
+                (*to_drop).remove();
+                self.size -= 1;
                 // Drop the value
                 ptr::drop_in_place(&mut (*(to_drop as *mut ListNode<T>)).value);
                 // Deallocate the memory for the node
-- 
2.43.0


From 47c19b4848455b9a0d7f2aef2c14b47253d903a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:08 +0000
Subject: [PATCH 30/34] fix: a destructor that panics in HashTable::clear no
 longer leaves freed nodes in the buckets

---
 src/internal/hash_table/mod.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/internal/hash_table/mod.rs b/src/internal/hash_table/mod.rs
index e299f2c..a04b46b 100644
--- a/src/internal/hash_table/mod.rs
+++ b/src/internal/hash_table/mod.rs
@@ -318,16 +318,16 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
     ///
     /// # Arguments
     ///
-    /// `bucket_node`: The node in the bucket
-    fn free_bucket(&mut self, bucket_node: &mut Node<K, V>) {
-        let mut node = bucket_node as *mut Node<K, V>;
-        while !node.is_null() {
-            // drop and free the node
+    /// `bucket`: The bucket
+    fn free_bucket(&mut self, bucket: &mut *mut Node<K, V>) {
+        while !bucket.is_null() {
+            let node = *bucket;
+            // unlink, drop and free the node. it is gone even if its destructor panics
             unsafe {
-                let next_node = (*node).next;
+                *bucket = (*node).next;
+                self.element_count -= 1;
                 std::ptr::drop_in_place(node);
                 self.allocator.deallocate(node, 1);
-                node = next_node;
             }
         }
     }
@@ -340,11 +340,9 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
             let buckets = unsafe {
                 std::slice::from_raw_parts_mut(self.bucket_array, self.bucket_count as usize)
             };
-            for bucket in buckets.iter().filter_map(|elem| unsafe { elem.as_mut() }) {
+            for bucket in buckets {
                 self.free_bucket(bucket)
             }
-            // zero the pointers
-            buckets.fill_with(std::ptr::null_mut)
         }
     }
 
-- 
2.43.0


From 7ca07969a61c8a30bc8855dc2179719db2bc0023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:08 +0000
Subject: [PATCH 31/34] fix: a destructor that panics in RBTree::clear no
 longer leaves freed nodes in the tree

---
 src/internal/rb_tree/mod.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/internal/rb_tree/mod.rs b/src/internal/rb_tree/mod.rs
index 857918a..dcef46c 100644
--- a/src/internal/rb_tree/mod.rs
+++ b/src/internal/rb_tree/mod.rs
@@ -50,7 +50,7 @@ impl<K: PartialEq, V, A: Allocator + Default, C: Compare<K> + Default> Default
 
 impl<K: PartialEq, V, A: Allocator, C: Compare<K>> Drop for RBTree<K, V, A, C> {
     fn drop(&mut self) {
-        self.free_nodes()
+        self.free_nodes(self.parent)
     }
 }
 
@@ -112,13 +112,15 @@ impl<K: PartialEq, V, A: Allocator, C: Compare<K>> RBTree<K, V, A, C> {
 
     /// Clears the red-black tree, removing all key-value pairs
     pub fn clear(&mut self) {
-        self.free_nodes();
+        let root = self.parent;
 
-        // the nodes are gone, so don't point to them anymore
+        // the nodes are gone, even if a destructor panics, so don't point to them anymore
         self.begin = std::ptr::null_mut();
         self.end = std::ptr::null_mut();
         self.parent = std::ptr::null_mut();
         self.size = 0;
+
+        self.free_nodes(root);
     }
 
     /// Returns true if the red-black tree contains a pair indexed
@@ -273,8 +275,8 @@ impl<K: PartialEq, V, A: Allocator, C: Compare<K>> RBTree<K, V, A, C> {
     }
 
     /// Frees all of the nodes in the tree
-    fn free_nodes(&mut self) {
-        if let Some(node) = unsafe { self.parent.as_mut() } {
+    fn free_nodes(&mut self, root: *mut Node<K, V>) {
+        if let Some(node) = unsafe { root.as_mut() } {
             self.free_tree(node)
         }
     }
-- 
2.43.0


From 10234544b91de05c4ef107862b083bee1aad301f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:05 +0000
Subject: [PATCH 32/34] fix: a hash table whose allocator panicked during
 growth wrote into the shared empty bucket array

The rehash policy had already counted on the new buckets, so the next insertion
did not ask for them again and went to the static array of an empty table.
---
 src/internal/hash_table/mod.rs           | 8 +++++---
 src/internal/hash_table/rehash_policy.rs | 1 +
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/internal/hash_table/mod.rs b/src/internal/hash_table/mod.rs
index a04b46b..95dc00a 100644
--- a/src/internal/hash_table/mod.rs
+++ b/src/internal/hash_table/mod.rs
@@ -371,15 +371,17 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
         key: K,
         value: V,
     ) -> &mut Node<K, V> {
-        // check if we need to re-hash
+        // check if we need to re-hash. the policy must not count on the new buckets before they
+        // are there, because the allocator may panic
+        let mut rehash_policy = self.rehash_policy.clone();
         if let Some(bucket_count) =
-            self.rehash_policy
-                .get_rehash_required(self.bucket_count, self.element_count, 1)
+            rehash_policy.get_rehash_required(self.bucket_count, self.element_count, 1)
         {
             self.rehash(bucket_count);
             // update the target bucket
             target_bucket = self.bucket_for_key_mut(&key);
         }
+        self.rehash_policy = rehash_policy;
         // allocate a new node and add it to the bucket
         let node = self.allocator.allocate::<Node<K, V>>(1);
         unsafe {
diff --git a/src/internal/hash_table/rehash_policy.rs b/src/internal/hash_table/rehash_policy.rs
index 97404fa..838df9b 100644
--- a/src/internal/hash_table/rehash_policy.rs
+++ b/src/internal/hash_table/rehash_policy.rs
@@ -2,6 +2,7 @@ use superslice::Ext;
 
 /// The default hash policy which always keeps prime
 /// numbers of buckets
+#[derive(Clone)]
 #[repr(C)]
 pub struct PrimeRehashPolicy {
     max_load_factor: f32,
-- 
2.43.0


From ef384675d5d01fbedc7c56e62590ddb06b5b201b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:05 +0000
Subject: [PATCH 33/34] fix: a Deque whose allocator panicked while it was made
 released an array it never had

---
 src/deque/mod.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/deque/mod.rs b/src/deque/mod.rs
index 347ffef..197ade1 100644
--- a/src/deque/mod.rs
+++ b/src/deque/mod.rs
@@ -275,9 +275,12 @@ impl<'a, T: 'a, A: Allocator> Deque<'a, T, A> {
 
     /// Frees the subarray pointer array
     fn free_ptr_array(&mut self) {
-        unsafe {
-            self.allocator
-                .deallocate(self.ptr_array, self.ptr_array_size as usize)
+        // there is none if its allocation panicked
+        if !self.ptr_array.is_null() {
+            unsafe {
+                self.allocator
+                    .deallocate(self.ptr_array, self.ptr_array_size as usize)
+            }
         }
     }
 
@@ -308,11 +311,11 @@ impl<'a, T: 'a, A: Allocator> Deque<'a, T, A> {
 
     /// Initializes the subarray
     fn init(&mut self) {
-        self.ptr_array_size = Self::INITIAL_PTR_ARRAY_SIZE;
-
         // allocate the subarrays
-        let ptr_array = self.allocate_ptr_array(self.ptr_array_size as usize);
+        let ptr_array = self.allocate_ptr_array(Self::INITIAL_PTR_ARRAY_SIZE as usize);
         ptr_array.fill_with(std::ptr::null_mut);
+        self.ptr_array = ptr_array.as_mut_ptr();
+        self.ptr_array_size = Self::INITIAL_PTR_ARRAY_SIZE;
 
         // we start with an empty deque, so only allocate the first array mid-way through
         ptr_array[((Self::INITIAL_PTR_ARRAY_SIZE - 1) / 2) as usize] = self.allocate_subarray();
@@ -326,8 +329,6 @@ impl<'a, T: 'a, A: Allocator> Deque<'a, T, A> {
                 .set_subarray(&mut ptr_array[3], Self::SUBARRAY_SIZE);
             self.end_it.current = self.end_it.begin;
         };
-
-        self.ptr_array = ptr_array.as_mut_ptr();
     }
 
     /// Returns a mutable iterator over the deque.
-- 
2.43.0


From a702efcf44c7145cf0ffb2a2a6c83b9d2e0cd438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:05 +0000
Subject: [PATCH 34/34] fix: an allocator that panicked within String::insert
 or push left a part of a character in the string

---
 src/string/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/string/mod.rs b/src/string/mod.rs
index f150f03..dbfec86 100644
--- a/src/string/mod.rs
+++ b/src/string/mod.rs
@@ -155,6 +155,13 @@ impl<A: Allocator> String<A> {
             "index out of bounds or not on a char boundary"
         );
 
+        // grow first, because a char must not be cut in half if the allocator panics
+        let mut capacity = self.capacity();
+        while capacity - self.len() < elem.len_utf8() {
+            capacity = (capacity * 2).max(1);
+        }
+        self.vec.reserve(capacity - self.capacity());
+
         // insert every byte of the char
         for (offset, byte) in elem.encode_utf8(&mut [0; 4]).bytes().enumerate() {
             self.vec.insert(index + offset, byte);
-- 
2.43.0

