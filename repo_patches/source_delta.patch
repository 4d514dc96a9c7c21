From cc505ca71b1c1ca09f982f9059d5c8fc13e62e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:38 +0000
Subject: [PATCH 01/27] fix: deallocate list nodes with the layout they were
 allocated with

---
 src/list/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index 3bae954..b6db149 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -3,7 +3,6 @@ use crate::list::iter::{Iter, IterMut};
 use crate::list::node::{ListNode, ListNodeBase};
 use moveit::{new, New};
 use std::marker::PhantomData;
-use std::mem::size_of;
 use std::{fmt, ptr};
 
 pub(crate) mod iter;
@@ -81,7 +80,7 @@ impl<T, A: Allocator> List<T, A> {
                 // Drop the value
                 ptr::drop_in_place(&mut (*(to_drop as *mut ListNode<T>)).value);
                 // Deallocate the memory for the node
-                self.allocator.deallocate(to_drop, size_of::<ListNode<T>>());
+                self.allocator.deallocate(to_drop as *mut ListNode<T>, 1);
             }
         }
         self.init_sentinel_node();
@@ -207,7 +206,7 @@ impl<T, A: Allocator> List<T, A> {
         (*node).remove();
         let value = ptr::read(&(*(node as *mut ListNode<T>)).value);
         // Deallocate the memory for the node
-        self.allocator.deallocate(node, size_of::<ListNode<T>>());
+        self.allocator.deallocate(node as *mut ListNode<T>, 1);
         self.size -= 1;
         value
     }
-- 
2.43.0


From 4ec8fb507568b8a27419e9f6086480d3f899dce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:13 +0000
Subject: [PATCH 02/27] fix: unlink list nodes before dropping their value in
 clear

---
 src/list/mod.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index b6db149..076479c 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -71,20 +71,11 @@ impl<T, A: Allocator> List<T, A> {
 
     /// Remove all elements from this list
     pub fn clear(&mut self) {
-        let mut next = self.node.next;
-        unsafe {
-            while next != &mut self.node {
-                let to_drop = next;
-                // Advance the next pointer before we delete the current node
-                next = (*next).next;
-                // Drop the value
-                ptr::drop_in_place(&mut (*(to_drop as *mut ListNode<T>)).value);
-                // Deallocate the memory for the node
-                self.allocator.deallocate(to_drop as *mut ListNode<T>, 1);
-            }
+        // Each node is unlinked before its value is dropped, so the list never refers to a dropped
+        // value even if dropping it panics
+        while let Some(value) = self.pop_front() {
+            drop(value);
         }
-        self.init_sentinel_node();
-        self.size = 0;
     }
 
     /// If the list is empty or not
-- 
2.43.0


From 4d14ff9a32c230fe42309dcdf28aca159b3bdec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:15 +0000
Subject: [PATCH 03/27] fix: give up vector elements before dropping them in
 clear

---
 src/vector/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index 4153e90..3d50c75 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -89,8 +89,12 @@ impl<T: Sized, A: Allocator> Vector<T, A> {
     pub fn clear(&mut self) {
         if !self.begin_ptr.is_null() {
             unsafe {
+                let elems: *mut [T] = self.as_slice_mut();
+                // give up the elements before dropping them, so that they are not dropped again
+                // if dropping one of them panics
+                self.end_ptr = self.begin_ptr;
                 // drop all elements in place
-                std::ptr::drop_in_place(self.as_slice_mut());
+                std::ptr::drop_in_place(elems);
                 // free the array
                 self.allocator
                     .deallocate::<T>(self.begin_ptr, self.capacity())
-- 
2.43.0


From 673548c85b510e3cb4cbc72e1046751a3aca1d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:18 +0000
Subject: [PATCH 04/27] fix: do not assign through uninitialized slots or
 forget elements in vector append and assign

---
 src/vector/mod.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index 3d50c75..ddd5bc6 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -282,16 +282,18 @@ impl<T: Sized + Clone, A: Allocator> Vector<T, A> {
     ///
     /// `buf`: The buffer or elements.
     pub fn append(&mut self, buf: &[T]) {
-        let old_len = self.len();
-        let new_len = old_len + buf.len();
-        if new_len > self.capacity() {
-            self.reserve(new_len - self.capacity());
+        let spare = self.capacity() - self.len();
+        if buf.len() > spare {
+            self.reserve(buf.len() - spare);
         }
 
-        // copy in place
-        unsafe {
-            self.end_ptr = self.end_ptr.add(buf.len());
-            self.as_slice_mut()[old_len..old_len + buf.len()].clone_from_slice(buf);
+        // clone into the spare capacity. the slots are uninitialized, so they must be written
+        // rather than assigned, and each one only counts once it holds a live element
+        for elem in buf {
+            unsafe {
+                self.end_ptr.write(elem.clone());
+                self.increment_size();
+            }
         }
     }
 
@@ -305,10 +307,15 @@ impl<T: Sized + Clone, A: Allocator> Vector<T, A> {
             self.reserve(buf.len() - self.capacity());
         }
 
-        unsafe {
-            self.end_ptr = self.begin_ptr.add(buf.len());
-            self.as_slice_mut().clone_from_slice(buf);
+        // drop the surplus elements
+        while self.len() > buf.len() {
+            self.pop();
         }
+
+        // overwrite the elements we have, and add the rest
+        let (overwritten, added) = buf.split_at(self.len());
+        self.as_slice_mut().clone_from_slice(overwritten);
+        self.append(added);
     }
 }
 
-- 
2.43.0


From 93266241ff19a4d5427f5337c6dd086cce7713fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:20 +0000
Subject: [PATCH 05/27] fix: free hash buckets iteratively, unlinking each node
 before dropping it

---
 src/internal/hash_table/mod.rs | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/internal/hash_table/mod.rs b/src/internal/hash_table/mod.rs
index f18c54a..ba78b19 100644
--- a/src/internal/hash_table/mod.rs
+++ b/src/internal/hash_table/mod.rs
@@ -318,32 +318,28 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
     ///
     /// # Arguments
     ///
-    /// `bucket_node`: The node in the bucket
-    fn free_bucket(&mut self, bucket_node: &mut Node<K, V>) {
-        // free the next node
-        if let Some(next_node) = bucket_node.next_mut() {
-            self.free_bucket(next_node);
-        }
-        // drop and free our node
+    /// `bucket`: The bucket
+    fn free_bucket(&mut self, bucket: *mut *mut Node<K, V>) {
         unsafe {
-            std::ptr::drop_in_place(bucket_node as *mut Node<K, V>);
-            self.allocator.deallocate(bucket_node, 1)
+            while !(*bucket).is_null() {
+                // unlink the node first, so that the table no longer refers to it if dropping
+                // it panics
+                let node = *bucket;
+                *bucket = (*node).next;
+                self.element_count -= 1;
+                // drop and free the node
+                std::ptr::drop_in_place(node);
+                self.allocator.deallocate(node, 1)
+            }
         }
     }
 
     /// Frees all buckets
     fn free_buckets(&mut self) {
         if self.bucket_count > 1 {
-            // we can't use `buckets_mut` here because it would cause us to
-            // hold a mutable reference to self and later immutable. any ideas?
-            let buckets = unsafe {
-                std::slice::from_raw_parts_mut(self.bucket_array, self.bucket_count as usize)
-            };
-            for bucket in buckets.iter().filter_map(|elem| unsafe { elem.as_mut() }) {
-                self.free_bucket(bucket)
+            for index in 0..self.bucket_count as usize {
+                self.free_bucket(unsafe { self.bucket_array.add(index) })
             }
-            // zero the pointers
-            buckets.fill_with(std::ptr::null_mut)
         }
     }
 
-- 
2.43.0


From db64f6dd82f142dde313106eeeeae67d24f99d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:23 +0000
Subject: [PATCH 06/27] fix: release hash table bucket arrays on rehash and
 drop

---
 src/internal/hash_table/mod.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/internal/hash_table/mod.rs b/src/internal/hash_table/mod.rs
index ba78b19..0bac3a0 100644
--- a/src/internal/hash_table/mod.rs
+++ b/src/internal/hash_table/mod.rs
@@ -343,6 +343,18 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
         }
     }
 
+    /// Frees the bucket array
+    fn free_bucket_array(&mut self) {
+        // the shared empty bucket array, which has a single bucket, is not ours to free
+        if self.bucket_count > 1 {
+            unsafe {
+                // account for the sentinel
+                self.allocator
+                    .deallocate(self.bucket_array, self.bucket_count as usize + 1)
+            }
+        }
+    }
+
     /// Inserts a key-value pair into the hash-table.
     ///
     /// # Arguments
@@ -407,8 +419,8 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
                 }
                 *bucket_node_ref = std::ptr::null_mut();
             });
-        // free the old buckets before setting new ones
-        self.free_buckets();
+        // free the old bucket array before setting the new one
+        self.free_bucket_array();
         self.bucket_array = new_buckets.as_mut_ptr();
         self.bucket_count = bucket_count;
     }
@@ -427,6 +439,7 @@ where
 impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> Drop for HashTable<K, V, A, H, E> {
     fn drop(&mut self) {
         self.free_buckets();
+        self.free_bucket_array();
     }
 }
 
-- 
2.43.0


From adc96dd02cd4a49fdd5a6e431e8c279a0b972999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:26 +0000
Subject: [PATCH 07/27] fix: keep the rehash threshold when a rehash panics

---
 src/internal/hash_table/mod.rs           | 7 +++++--
 src/internal/hash_table/rehash_policy.rs | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/internal/hash_table/mod.rs b/src/internal/hash_table/mod.rs
index 0bac3a0..ec33a87 100644
--- a/src/internal/hash_table/mod.rs
+++ b/src/internal/hash_table/mod.rs
@@ -369,14 +369,17 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
         value: V,
     ) -> &mut Node<K, V> {
         // check if we need to re-hash
+        let mut rehash_policy = self.rehash_policy.clone();
         if let Some(bucket_count) =
-            self.rehash_policy
-                .get_rehash_required(self.bucket_count, self.element_count, 1)
+            rehash_policy.get_rehash_required(self.bucket_count, self.element_count, 1)
         {
             self.rehash(bucket_count);
             // update the target bucket
             target_bucket = self.bucket_for_key_mut(&key);
         }
+        // the policy's new threshold is only valid once the table actually grew: had the rehash
+        // panicked, an empty table would otherwise skip it and write to the shared empty bucket
+        self.rehash_policy = rehash_policy;
         // allocate a new node and add it to the bucket
         let node = self.allocator.allocate::<Node<K, V>>(1);
         unsafe {
diff --git a/src/internal/hash_table/rehash_policy.rs b/src/internal/hash_table/rehash_policy.rs
index 97404fa..838df9b 100644
--- a/src/internal/hash_table/rehash_policy.rs
+++ b/src/internal/hash_table/rehash_policy.rs
@@ -2,6 +2,7 @@ use superslice::Ext;
 
 /// The default hash policy which always keeps prime
 /// numbers of buckets
+#[derive(Clone)]
 #[repr(C)]
 pub struct PrimeRehashPolicy {
     max_load_factor: f32,
-- 
2.43.0


From f5eda4b4b7b560ef404e16e76a144b211e75c669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:58 +0000
Subject: [PATCH 08/27] fix: free the last sub-array when dropping a deque

---
 src/deque/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/deque/mod.rs b/src/deque/mod.rs
index f0dbd10..abc3913 100644
--- a/src/deque/mod.rs
+++ b/src/deque/mod.rs
@@ -445,7 +445,8 @@ impl<'a, T: 'a, A: Allocator> Drop for Deque<'a, T, A> {
             for subarray in unsafe {
                 std::slice::from_raw_parts_mut(
                     current_array,
-                    self.end_it.current_array.offset_from(current_array) as usize,
+                    // the end iterator's sub-array is allocated as well
+                    self.end_it.current_array.offset_from(current_array) as usize + 1,
                 )
             } {
                 self.free_subarray(*subarray);
-- 
2.43.0


From 3e846250fbbaa96de496f470d729013fa3c04959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:00 +0000
Subject: [PATCH 09/27] fix: never release a deque pointer array which was not
 allocated

---
 src/deque/mod.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/deque/mod.rs b/src/deque/mod.rs
index abc3913..56ec1f2 100644
--- a/src/deque/mod.rs
+++ b/src/deque/mod.rs
@@ -275,9 +275,12 @@ impl<'a, T: 'a, A: Allocator> Deque<'a, T, A> {
 
     /// Frees the subarray pointer array
     fn free_ptr_array(&mut self) {
-        unsafe {
-            self.allocator
-                .deallocate(self.ptr_array, self.ptr_array_size as usize)
+        // there is no pointer array if allocating it panicked
+        if !self.ptr_array.is_null() {
+            unsafe {
+                self.allocator
+                    .deallocate(self.ptr_array, self.ptr_array_size as usize)
+            }
         }
     }
 
@@ -308,12 +311,14 @@ impl<'a, T: 'a, A: Allocator> Deque<'a, T, A> {
 
     /// Initializes the subarray
     fn init(&mut self) {
-        self.ptr_array_size = Self::INITIAL_PTR_ARRAY_SIZE;
-
         // allocate the subarrays
-        let ptr_array = self.allocate_ptr_array(self.ptr_array_size as usize);
+        let ptr_array = self.allocate_ptr_array(Self::INITIAL_PTR_ARRAY_SIZE as usize);
         ptr_array.fill_with(std::ptr::null_mut);
 
+        // own the pointer array before allocating again, in case that panics
+        self.ptr_array = ptr_array.as_mut_ptr();
+        self.ptr_array_size = Self::INITIAL_PTR_ARRAY_SIZE;
+
         // we start with an empty deque, so only allocate the first array mid-way through
         ptr_array[((Self::INITIAL_PTR_ARRAY_SIZE - 1) / 2) as usize] = self.allocate_subarray();
 
@@ -326,8 +331,6 @@ impl<'a, T: 'a, A: Allocator> Deque<'a, T, A> {
                 .set_subarray(&mut ptr_array[3], Self::SUBARRAY_SIZE);
             self.end_it.current = self.end_it.begin;
         };
-
-        self.ptr_array = ptr_array.as_mut_ptr();
     }
 
     /// Returns a mutable iterator over the deque.
-- 
2.43.0


From 53c91757f4afe8cbe6bd2c48c9f4e4367209f685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:03 +0000
Subject: [PATCH 10/27] fix: tie deque and queue iterators to the borrow of the
 container

---
 src/deque/mod.rs | 4 ++--
 src/queue.rs     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/deque/mod.rs b/src/deque/mod.rs
index 56ec1f2..ba60706 100644
--- a/src/deque/mod.rs
+++ b/src/deque/mod.rs
@@ -59,12 +59,12 @@ impl<'a, T: 'a, A: Allocator> Deque<'a, T, A> {
     }
 
     /// Returns an iterator over the deque
-    pub fn iter(&self) -> Iter<'a, T> {
+    pub fn iter(&self) -> Iter<'_, T> {
         unsafe { Iter::from_compat((&self.begin_it).into(), (&self.end_it).into()) }
     }
 
     /// Returns a mutable iterator over the deque
-    pub fn iter_mut(&mut self) -> IterMut<'a, T> {
+    pub fn iter_mut(&mut self) -> IterMut<'_, T> {
         unsafe { IterMut::from_compat(self.begin_it.clone(), self.end_it.clone()) }
     }
 
diff --git a/src/queue.rs b/src/queue.rs
index 50e3fc3..3804206 100644
--- a/src/queue.rs
+++ b/src/queue.rs
@@ -36,12 +36,12 @@ impl<'a, T: 'a, A: Allocator> Queue<'a, T, A> {
     }
 
     /// Produces an iterator over all of the elements in the queue
-    pub fn iter(&self) -> Iter<'a, T> {
+    pub fn iter(&self) -> Iter<'_, T> {
         self.deque.iter()
     }
 
     /// Produces a mutable iterator over all of the elements in the queue
-    pub fn iter_mut(&mut self) -> IterMut<'a, T> {
+    pub fn iter_mut(&mut self) -> IterMut<'_, T> {
         self.deque.iter_mut()
     }
 
-- 
2.43.0


From f1d5693176045db60b40fcc223671aa270150773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:05 +0000
Subject: [PATCH 11/27] fix: require exclusive access for mutable list
 iteration

---
 src/fixed_list/conformant.rs | 2 +-
 src/list/mod.rs              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fixed_list/conformant.rs b/src/fixed_list/conformant.rs
index cb7bb45..7a2b856 100644
--- a/src/fixed_list/conformant.rs
+++ b/src/fixed_list/conformant.rs
@@ -111,7 +111,7 @@ where
     }
 
     /// Return a mutable forward iterator for this list
-    pub fn iter_mut(&self) -> crate::list::iter::IterMut<'_, T> {
+    pub fn iter_mut(&mut self) -> crate::list::iter::IterMut<'_, T> {
         self.base_list.iter_mut()
     }
 
diff --git a/src/list/mod.rs b/src/list/mod.rs
index 076479c..c268b73 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -115,7 +115,7 @@ impl<T, A: Allocator> List<T, A> {
     }
 
     /// Return a mutable forward iterator for this list
-    pub fn iter_mut(&self) -> IterMut<'_, T> {
+    pub fn iter_mut(&mut self) -> IterMut<'_, T> {
         IterMut::new(&self.node, self.size())
     }
 
-- 
2.43.0


From cf2794d8536a4889902430a0c475998f69aea41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:08 +0000
Subject: [PATCH 12/27] fix: do not let mutable hash table iterators be cloned

---
 src/internal/hash_table/iter.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/internal/hash_table/iter.rs b/src/internal/hash_table/iter.rs
index 5b49303..dcbdef6 100644
--- a/src/internal/hash_table/iter.rs
+++ b/src/internal/hash_table/iter.rs
@@ -280,7 +280,6 @@ impl<'a, K: PartialEq + 'a, V: 'a> Iterator for Iter<'a, K, V> {
 /// It is unspecified whether or not an element
 /// inserted after an iterator was created will
 /// be yielded by the iterator
-#[derive(Clone)]
 pub struct IterMut<'a, K: PartialEq + 'a, V: 'a> {
     inner: RawIter<'a, K, V>,
 }
-- 
2.43.0


From ee6faaa7fd383719a2dea0b4f8816e7d10b5b0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:11 +0000
Subject: [PATCH 13/27] fix: drop the entries of a red-black tree when freeing
 its nodes

---
 src/internal/rb_tree/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/internal/rb_tree/mod.rs b/src/internal/rb_tree/mod.rs
index b7b1936..219dd2d 100644
--- a/src/internal/rb_tree/mod.rs
+++ b/src/internal/rb_tree/mod.rs
@@ -259,8 +259,11 @@ impl<K: PartialEq, V, A: Allocator, C: Compare<K>> RBTree<K, V, A, C> {
         if let Some(right) = root.right() {
             self.free_tree(right)
         }
-        // deallocate the current node
-        unsafe { self.allocator.deallocate(root, 1) }
+        // drop and deallocate the current node
+        unsafe {
+            std::ptr::drop_in_place(root as *mut Node<K, V>);
+            self.allocator.deallocate(root, 1)
+        }
     }
 
     /// Frees all of the nodes in the tree
-- 
2.43.0


From e10f03292c07d8ad75fbea43ccc518625b7ca925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:13 +0000
Subject: [PATCH 14/27] fix: do not keep freed nodes in a cleared red-black
 tree

---
 src/internal/rb_tree/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/internal/rb_tree/mod.rs b/src/internal/rb_tree/mod.rs
index 219dd2d..21bf4e1 100644
--- a/src/internal/rb_tree/mod.rs
+++ b/src/internal/rb_tree/mod.rs
@@ -268,7 +268,13 @@ impl<K: PartialEq, V, A: Allocator, C: Compare<K>> RBTree<K, V, A, C> {
 
     /// Frees all of the nodes in the tree
     fn free_nodes(&mut self) {
-        if let Some(node) = unsafe { self.parent.as_mut() } {
+        let root = self.parent;
+        // the tree must not refer to the nodes once they are freed
+        self.begin = std::ptr::null_mut();
+        self.end = std::ptr::null_mut();
+        self.parent = std::ptr::null_mut();
+        self.size = 0;
+        if let Some(node) = unsafe { root.as_mut() } {
             self.free_tree(node)
         }
     }
-- 
2.43.0


From 04d6843faaa777c5e992ee1b696e151523c900b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:16 +0000
Subject: [PATCH 15/27] fix: guarantee a C layout for strings, sets and pool
 links

---
 src/fixed_pool/mod.rs                   | 1 +
 src/set/mod.rs                          | 1 +
 src/string/mod.rs                       | 1 +
 src/string/null_terminator_allocator.rs | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/fixed_pool/mod.rs b/src/fixed_pool/mod.rs
index dc101b3..5d952d8 100644
--- a/src/fixed_pool/mod.rs
+++ b/src/fixed_pool/mod.rs
@@ -13,6 +13,7 @@ pub trait PoolAllocator: Allocator {
 }
 
 /// The struct `eastl::fixed_pool_base::Link`. Singly-linked list for memory allocations.
+#[repr(C)]
 pub(crate) struct Link {
     next: *mut Link,
 }
diff --git a/src/set/mod.rs b/src/set/mod.rs
index 676ba9e..f18b08e 100644
--- a/src/set/mod.rs
+++ b/src/set/mod.rs
@@ -9,6 +9,7 @@ use crate::{
 /// need ordering, look at `HashSet`, which takes O(1) time
 /// for those operations
 #[derive(Default)]
+#[repr(C)]
 pub struct Set<K: PartialEq, A: Allocator, C: Compare<K> = Less<K>> {
     inner: RBTree<K, (), A, C>,
 }
diff --git a/src/string/mod.rs b/src/string/mod.rs
index e1987a2..563a3a2 100644
--- a/src/string/mod.rs
+++ b/src/string/mod.rs
@@ -20,6 +20,7 @@ pub type DefaultString = String<DefaultAllocator>;
 
 /// `String` is what it sounds like, a string of characters.
 /// It's actually implemented internally as a vector
+#[repr(C)]
 pub struct String<A: Allocator> {
     vec: Vector<u8, NullTerminatorAllocator<A>>,
 }
diff --git a/src/string/null_terminator_allocator.rs b/src/string/null_terminator_allocator.rs
index 326ae80..19ced1e 100644
--- a/src/string/null_terminator_allocator.rs
+++ b/src/string/null_terminator_allocator.rs
@@ -1,5 +1,6 @@
 use crate::allocator::Allocator;
 
+#[repr(C)]
 pub(crate) struct NullTerminatorAllocator<A: Allocator>(pub(crate) A);
 
 unsafe impl<A: Allocator> Allocator for NullTerminatorAllocator<A> {
-- 
2.43.0


From 4d9d49f0532def692f29199ea8ea69626c4042cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:19 +0000
Subject: [PATCH 16/27] fix: replace the contents of a string when assigning

---
 src/string/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/string/mod.rs b/src/string/mod.rs
index 563a3a2..e0a6fbf 100644
--- a/src/string/mod.rs
+++ b/src/string/mod.rs
@@ -74,10 +74,8 @@ impl<A: Allocator> String<A> {
 
     /// Assigns a string to a slice
     pub fn assign<S: AsRef<str>>(&mut self, buf: S) {
-        self.reserve(buf.as_ref().len());
-
         // copy over and null terminate
-        self.vec.append(buf.as_ref().as_bytes());
+        self.vec.assign(buf.as_ref().as_bytes());
 
         // make sure the end is null-terminated
         unsafe { self.null_terminate() }
-- 
2.43.0


From 6014f6c35987059772979b6ae0033bad78dba383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:21 +0000
Subject: [PATCH 17/27] fix: keep strings null terminated when reserving,
 removing and constructing with a capacity

---
 src/string/mod.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/string/mod.rs b/src/string/mod.rs
index e0a6fbf..80ecb77 100644
--- a/src/string/mod.rs
+++ b/src/string/mod.rs
@@ -37,10 +37,15 @@ impl<A: Allocator + Default> String<A> {
     ///
     /// `capacity`: The initial capacity of the string
     pub fn with_capacity(capacity: usize) -> Self {
-        Self {
+        let mut ret = Self {
             // make space for the null terminator
             vec: Vector::with_capacity(capacity),
-        }
+        };
+
+        // null terminate
+        unsafe { ret.null_terminate() }
+
+        ret
     }
 }
 
@@ -155,7 +160,12 @@ impl<A: Allocator> String<A> {
         if index >= self.len() {
             None
         } else {
-            self.vec.remove(index).map(|elem| elem as char)
+            let elem = self.vec.remove(index).map(|elem| elem as char);
+
+            // null terminate
+            unsafe { self.null_terminate() }
+
+            elem
         }
     }
 
@@ -166,7 +176,10 @@ impl<A: Allocator> String<A> {
     /// `capacity`: The new capacity of the string
     pub fn reserve(&mut self, capacity: usize) {
         // make space for the null terminator
-        self.vec.reserve(capacity + 1)
+        self.vec.reserve(capacity + 1);
+
+        // null terminate
+        unsafe { self.null_terminate() }
     }
 
     /// Null terminate the string.
-- 
2.43.0


From 620bfe1fca2e0507ec4e7329bb508dbcf3752988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:48 +0000
Subject: [PATCH 18/27] fix: store and remove the chars of a string in their
 encoded form

---
 src/string/mod.rs | 49 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/src/string/mod.rs b/src/string/mod.rs
index 80ecb77..cd1f790 100644
--- a/src/string/mod.rs
+++ b/src/string/mod.rs
@@ -127,16 +127,21 @@ impl<A: Allocator> String<A> {
 
     /// Pops an element off of the back of the array
     pub fn pop(&mut self) -> Option<char> {
-        let elem = self.vec.pop().map(|elem| elem as char);
+        let elem = self.chars().next_back()?;
+
+        // remove all of the char's bytes
+        for _ in 0..elem.len_utf8() {
+            self.vec.pop();
+        }
 
         // null terminate
         unsafe { self.null_terminate() }
 
-        elem
+        Some(elem)
     }
 
     /// Inserts a char into the string at an index.
-    /// `index` must be less than or equal to `size`
+    /// `index` must be less than or equal to `size`, and lie on a char boundary
     ///
     /// # Arguments
     ///
@@ -144,29 +149,45 @@ impl<A: Allocator> String<A> {
     ///
     /// `elem`: The char to add to the string
     pub fn insert(&mut self, index: usize, elem: char) {
-        self.vec.insert(index, elem as u8);
+        assert!(
+            self.is_char_boundary(index),
+            "index is not on a char boundary"
+        );
+
+        let mut buf = [0; 4];
+        let bytes = elem.encode_utf8(&mut buf).as_bytes();
+
+        // make space for all of the char's bytes before adding any of them
+        let spare = self.vec.capacity() - self.vec.len();
+        if bytes.len() > spare {
+            self.vec.reserve(bytes.len().max(self.vec.capacity()));
+        }
+
+        for (offset, byte) in bytes.iter().enumerate() {
+            self.vec.insert(index + offset, *byte);
+        }
 
         // null terminate
         unsafe { self.null_terminate() }
     }
 
-    /// Remove the char at the index and return it
+    /// Remove the char at the index and return it, or `None` if no char starts at the index
     ///
     /// # Arguments
     ///
     /// `index`: The index of the element to remove
     pub fn remove(&mut self, index: usize) -> Option<char> {
-        // account for null terminator
-        if index >= self.len() {
-            None
-        } else {
-            let elem = self.vec.remove(index).map(|elem| elem as char);
+        let elem = self.get(index..)?.chars().next()?;
 
-            // null terminate
-            unsafe { self.null_terminate() }
-
-            elem
+        // remove all of the char's bytes
+        for _ in 0..elem.len_utf8() {
+            self.vec.remove(index);
         }
+
+        // null terminate
+        unsafe { self.null_terminate() }
+
+        Some(elem)
     }
 
     /// Reserves space for chars within the string
-- 
2.43.0


From f8b78bcf3517bbd6928d72eab9aa86be35cf5d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:51 +0000
Subject: [PATCH 19/27] fix: report success from set insertion when the key is
 new

---
 src/hash_set/mod.rs | 2 +-
 src/set/mod.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hash_set/mod.rs b/src/hash_set/mod.rs
index c6acb6b..635326b 100644
--- a/src/hash_set/mod.rs
+++ b/src/hash_set/mod.rs
@@ -69,7 +69,7 @@ impl<K: PartialEq, A: Allocator, H: Hash<K>, E: Equals<K>> HashSet<K, A, H, E> {
     ///
     /// `value`: The associated value
     pub fn insert(&mut self, key: K) -> bool {
-        self.hash_table.insert(key, ()).is_some()
+        self.hash_table.insert(key, ()).is_none()
     }
 
     /// Creates a hash set backed by an allocator
diff --git a/src/set/mod.rs b/src/set/mod.rs
index f18b08e..ae68c3e 100644
--- a/src/set/mod.rs
+++ b/src/set/mod.rs
@@ -75,7 +75,7 @@ impl<K: PartialEq, A: Allocator, C: Compare<K>> Set<K, A, C> {
     ///
     /// `key`: The key to insert and index by
     fn _insert(&mut self, key: K) -> bool {
-        self.inner._insert(key, ()).is_some()
+        self.inner._insert(key, ()).is_none()
     }
 
     /// Returns an iterator over the elements in the tree.
-- 
2.43.0


From 630dee10eea434148b80d8913330abb67e605306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:20 +0000
Subject: [PATCH 20/27] fix: panic when a capacity calculation overflows

---
 src/allocator.rs                        | 7 ++++---
 src/deque/mod.rs                        | 7 +++++--
 src/string/mod.rs                       | 3 ++-
 src/string/null_terminator_allocator.rs | 3 ++-
 src/vector/mod.rs                       | 5 ++++-
 5 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/allocator.rs b/src/allocator.rs
index 7544ff5..81ae26c 100644
--- a/src/allocator.rs
+++ b/src/allocator.rs
@@ -13,10 +13,11 @@ pub unsafe trait Allocator {
     ///
     /// `n`: The number of array elements
     fn allocate<T>(&mut self, n: usize) -> *mut T {
+        let size = n
+            .checked_mul(std::mem::size_of::<T>())
+            .expect("capacity overflow");
         unsafe {
-            std::mem::transmute(
-                self.allocate_raw_aligned(n * std::mem::size_of::<T>(), std::mem::align_of::<T>()),
-            )
+            std::mem::transmute(self.allocate_raw_aligned(size, std::mem::align_of::<T>()))
         }
     }
 
diff --git a/src/deque/mod.rs b/src/deque/mod.rs
index ba60706..a36bfb4 100644
--- a/src/deque/mod.rs
+++ b/src/deque/mod.rs
@@ -393,9 +393,12 @@ impl<'a, T: 'a, A: Allocator> Deque<'a, T, A> {
             // are using iterators to track that so it's fine
             ptr_array.copy_within(current_array_start..current_array_end, new_array_start);
         } else {
-            let new_ptr_array_size =
-                self.ptr_array_size + self.ptr_array_size.max(additional_capacity as u32) + 2;
             // allocate at least double + 2 pointers
+            let new_ptr_array_size = self
+                .ptr_array_size
+                .checked_add(self.ptr_array_size.max(additional_capacity as u32))
+                .and_then(|size| size.checked_add(2))
+                .expect("capacity overflow");
             let new_ptr_array = self.allocate_ptr_array(new_ptr_array_size as usize);
 
             // copy the old pointers over
diff --git a/src/string/mod.rs b/src/string/mod.rs
index cd1f790..b5c017e 100644
--- a/src/string/mod.rs
+++ b/src/string/mod.rs
@@ -197,7 +197,8 @@ impl<A: Allocator> String<A> {
     /// `capacity`: The new capacity of the string
     pub fn reserve(&mut self, capacity: usize) {
         // make space for the null terminator
-        self.vec.reserve(capacity + 1);
+        self.vec
+            .reserve(capacity.checked_add(1).expect("capacity overflow"));
 
         // null terminate
         unsafe { self.null_terminate() }
diff --git a/src/string/null_terminator_allocator.rs b/src/string/null_terminator_allocator.rs
index 19ced1e..00bbcfa 100644
--- a/src/string/null_terminator_allocator.rs
+++ b/src/string/null_terminator_allocator.rs
@@ -6,7 +6,8 @@ pub(crate) struct NullTerminatorAllocator<A: Allocator>(pub(crate) A);
 unsafe impl<A: Allocator> Allocator for NullTerminatorAllocator<A> {
     fn allocate_raw_aligned(&mut self, n: usize, align: usize) -> *mut () {
         // always leave room for the null terminator
-        let res = self.0.allocate_raw_aligned(n + 1, align);
+        let size = n.checked_add(1).expect("capacity overflow");
+        let res = self.0.allocate_raw_aligned(size, align);
         // null terminate
         *(unsafe { &mut *(res as *mut u8).add(n) }) = 0;
         res
diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index ddd5bc6..6f2ce04 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -210,7 +210,10 @@ impl<T: Sized, A: Allocator> Vector<T, A> {
         }
         // allocate a new bit of memory
         let size = self.len();
-        let new_capacity = self.capacity() + additional;
+        let new_capacity = self
+            .capacity()
+            .checked_add(additional)
+            .expect("capacity overflow");
         // allocate the new buffer
         let new_begin_ptr = self.allocator.allocate::<T>(new_capacity);
         // copy from the old array if we should
-- 
2.43.0


From ea68b2cd440c4000739e5a1e910351140d84e44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:43 +0000
Subject: [PATCH 21/27] fix: never use a failed allocation as storage

---
 src/allocator.rs                        | 13 +++++++------
 src/deque/mod.rs                        | 13 ++++++-------
 src/internal/hash_table/mod.rs          | 12 +++++++-----
 src/string/null_terminator_allocator.rs |  6 ++++--
 src/vector/mod.rs                       |  1 +
 5 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/allocator.rs b/src/allocator.rs
index 81ae26c..f4a16ca 100644
--- a/src/allocator.rs
+++ b/src/allocator.rs
@@ -16,9 +16,7 @@ pub unsafe trait Allocator {
         let size = n
             .checked_mul(std::mem::size_of::<T>())
             .expect("capacity overflow");
-        unsafe {
-            std::mem::transmute(self.allocate_raw_aligned(size, std::mem::align_of::<T>()))
-        }
+        unsafe { std::mem::transmute(self.allocate_raw_aligned(size, std::mem::align_of::<T>())) }
     }
 
     /// Allocate `n` bytes aligned to usize. `n` must not be zero.
@@ -103,10 +101,13 @@ unsafe impl Allocator for DefaultAllocator {
     fn allocate_raw_aligned(&mut self, n: usize, align: usize) -> *mut () {
         assert_ne!(n, 0, "`n` must not be zero!");
 
+        let layout = Layout::array::<u8>(n).unwrap().align_to(align).unwrap();
         unsafe {
-            std::mem::transmute(alloc::alloc(
-                Layout::array::<u8>(n).unwrap().align_to(align).unwrap(),
-            ))
+            let p = alloc::alloc(layout);
+            if p.is_null() {
+                alloc::handle_alloc_error(layout)
+            }
+            p.cast()
         }
     }
 
diff --git a/src/deque/mod.rs b/src/deque/mod.rs
index a36bfb4..5e65d5e 100644
--- a/src/deque/mod.rs
+++ b/src/deque/mod.rs
@@ -260,17 +260,16 @@ impl<'a, T: 'a, A: Allocator> Deque<'a, T, A> {
     ///
     /// `number_of_ptrs`: The number of pointers to allocate
     fn allocate_ptr_array<'b>(&mut self, number_of_ptrs: usize) -> &'b mut [*mut T] {
-        unsafe {
-            std::slice::from_raw_parts_mut(
-                self.allocator.allocate::<*mut T>(number_of_ptrs),
-                number_of_ptrs,
-            )
-        }
+        let ptr_array = self.allocator.allocate::<*mut T>(number_of_ptrs);
+        assert!(!ptr_array.is_null(), "allocation failed");
+        unsafe { std::slice::from_raw_parts_mut(ptr_array, number_of_ptrs) }
     }
 
     /// Allocates a subarray
     fn allocate_subarray(&mut self) -> *mut T {
-        self.allocator.allocate::<T>(Self::SUBARRAY_SIZE)
+        let subarray = self.allocator.allocate::<T>(Self::SUBARRAY_SIZE);
+        assert!(!subarray.is_null(), "allocation failed");
+        subarray
     }
 
     /// Frees the subarray pointer array
diff --git a/src/internal/hash_table/mod.rs b/src/internal/hash_table/mod.rs
index ec33a87..f9d5896 100644
--- a/src/internal/hash_table/mod.rs
+++ b/src/internal/hash_table/mod.rs
@@ -382,6 +382,7 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
         self.rehash_policy = rehash_policy;
         // allocate a new node and add it to the bucket
         let node = self.allocator.allocate::<Node<K, V>>(1);
+        assert!(!node.is_null(), "allocation failed");
         unsafe {
             std::ptr::write(node, Node::<K, V>::new(key, value, target_bucket.read()));
             target_bucket.write(node);
@@ -397,12 +398,13 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
     ///
     /// `bucket_count`: The desired bucket count
     fn rehash(&mut self, bucket_count: u32) {
+        // allocate space for the sentinel
+        let new_bucket_array = self
+            .allocator
+            .allocate::<*mut Node<K, V>>((bucket_count + 1) as usize);
+        assert!(!new_bucket_array.is_null(), "allocation failed");
         let new_buckets = unsafe {
-            // allocate space for the sentinel
-            std::slice::from_raw_parts_mut(
-                self.allocator.allocate((bucket_count + 1) as usize),
-                (bucket_count + 1) as usize,
-            )
+            std::slice::from_raw_parts_mut(new_bucket_array, (bucket_count + 1) as usize)
         };
         new_buckets.fill_with(std::ptr::null_mut);
         // set the sentinel
diff --git a/src/string/null_terminator_allocator.rs b/src/string/null_terminator_allocator.rs
index 00bbcfa..923d029 100644
--- a/src/string/null_terminator_allocator.rs
+++ b/src/string/null_terminator_allocator.rs
@@ -8,8 +8,10 @@ unsafe impl<A: Allocator> Allocator for NullTerminatorAllocator<A> {
         // always leave room for the null terminator
         let size = n.checked_add(1).expect("capacity overflow");
         let res = self.0.allocate_raw_aligned(size, align);
-        // null terminate
-        *(unsafe { &mut *(res as *mut u8).add(n) }) = 0;
+        // null terminate, unless the allocation failed
+        if !res.is_null() {
+            unsafe { (res as *mut u8).add(n).write(0) };
+        }
         res
     }
 
diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index 6f2ce04..683916b 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -216,6 +216,7 @@ impl<T: Sized, A: Allocator> Vector<T, A> {
             .expect("capacity overflow");
         // allocate the new buffer
         let new_begin_ptr = self.allocator.allocate::<T>(new_capacity);
+        assert!(!new_begin_ptr.is_null(), "allocation failed");
         // copy from the old array if we should
         if !self.begin_ptr.is_null() {
             unsafe {
-- 
2.43.0


From dfc5d7a801daa2dae2a531aafbc36e2f28e6edda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:46 +0000
Subject: [PATCH 22/27] fix: do not take a block right behind the pool for one
 of its own

---
 src/fixed_pool/with_overflow.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fixed_pool/with_overflow.rs b/src/fixed_pool/with_overflow.rs
index d5cb777..6a0d2ae 100644
--- a/src/fixed_pool/with_overflow.rs
+++ b/src/fixed_pool/with_overflow.rs
@@ -85,7 +85,8 @@ unsafe impl<Node: Sized, OverflowAllocator: Allocator> Allocator
 
     unsafe fn deallocate_raw_aligned(&mut self, p: *mut (), _n: usize, _align: usize) {
         // if it's contained within the pool allocator, use the pool allocator
-        if self.pool_begin <= p && p <= self.pool_allocator.capacity.cast() {
+        // (`capacity` is one past the pool's last byte, where an overflow block may start)
+        if self.pool_begin <= p && p < self.pool_allocator.capacity.cast() {
             self.pool_allocator.deallocate_raw_aligned(p, _n, _align)
         } else {
             self.overflow_allocator
-- 
2.43.0


From 60274644f79239e87840b5cb013d2ef7d9706d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:49 +0000
Subject: [PATCH 23/27] fix: point moved fixed vectors at their own buffer and
 do not read the uninitialized target

---
 src/fixed_vector/mod.rs | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/src/fixed_vector/mod.rs b/src/fixed_vector/mod.rs
index 7dc0538..df964ba 100644
--- a/src/fixed_vector/mod.rs
+++ b/src/fixed_vector/mod.rs
@@ -8,8 +8,7 @@ use std::fmt::Debug;
 use std::mem::{size_of, MaybeUninit};
 use std::ops::{Deref, DerefMut};
 use std::pin::Pin;
-use std::ptr::null_mut;
-use std::{mem, ptr};
+use std::ptr;
 
 mod allocator;
 
@@ -64,29 +63,23 @@ impl<T: Sized, const NODE_COUNT: usize, A: Allocator + Default> FixedVector<T, N
 unsafe impl<T: Sized, const NODE_COUNT: usize, A: Allocator> MoveNew
     for FixedVector<T, NODE_COUNT, A>
 {
-    unsafe fn move_new(mut src: Pin<MoveRef<Self>>, this: Pin<&mut MaybeUninit<Self>>) {
-        let this = this.get_unchecked_mut().assume_init_mut();
-        let src = src.as_mut().get_unchecked_mut();
-        // Swap the allocator over
-        mem::swap(&mut this.base_vec.allocator, &mut src.base_vec.allocator);
-        if !src.has_overflowed() {
-            // We haven't overflowed, so we need to move the buffer
-            mem::swap(&mut this.buffer, &mut src.buffer);
-            // ... and re-init the base vec pointers point to it
+    unsafe fn move_new(src: Pin<MoveRef<Self>>, this: Pin<&mut MaybeUninit<Self>>) {
+        let src = Pin::into_inner_unchecked(src);
+        let overflowed = src.has_overflowed();
+        let used_bytes = src.base_vec.end_ptr as usize - src.base_vec.begin_ptr as usize;
+        // Move everything over, which leaves nothing to be dropped behind
+        let this = this.get_unchecked_mut().write(MoveRef::into_inner(src));
+        if !overflowed {
+            // We haven't overflowed, so we need to re-init the base vec pointers to point to our
+            // own buffer
             this.init_base_vec();
             // we have to fix the end pointer since it will be set to begin_ptr by init_base_vec
-            this.base_vec.end_ptr = (this.base_vec.begin_ptr as usize
-                + (src.base_vec.end_ptr as usize - src.base_vec.begin_ptr as usize))
-                as *mut T;
+            this.base_vec.end_ptr = (this.base_vec.begin_ptr as usize + used_bytes) as *mut T;
         } else {
-            // We have overflowed - we are not going to use `buffer` anymore so we might as well
-            // leave it uninit - so we only copy over the base vec pointers
-            this.base_vec.begin_ptr = src.base_vec.begin_ptr;
-            this.base_vec.end_ptr = src.base_vec.end_ptr;
-            this.base_vec.capacity_ptr = src.base_vec.capacity_ptr;
+            // We have overflowed, so the base vec pointers stay as they are, but the allocator
+            // still has to know our own buffer
+            this.base_vec.allocator.pool_begin = this.buffer[0].as_mut_ptr() as *mut c_void;
         }
-        // zero `src` `begin_ptr` so any allocated data will not be dropped (we pretend like we never allocated it)
-        src.base_vec.begin_ptr = null_mut();
     }
 }
 
-- 
2.43.0


From a6b6938dc7cd5b815f58c224bfc3bc459815183f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:12 +0000
Subject: [PATCH 24/27] fix: do not share the fixed buffer's address with
 cloned allocators

---
 src/fixed_vector/allocator.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fixed_vector/allocator.rs b/src/fixed_vector/allocator.rs
index e2491e0..d808789 100644
--- a/src/fixed_vector/allocator.rs
+++ b/src/fixed_vector/allocator.rs
@@ -3,7 +3,6 @@ use std::ffi::c_void;
 use std::ptr;
 use std::ptr::null_mut;
 
-#[derive(Copy, Clone)]
 #[repr(C)]
 pub struct FixedVectorAllocator<A: Allocator> {
     overflow_allocator: A,
@@ -23,6 +22,13 @@ impl<A: Allocator> FixedVectorAllocator<A> {
     }
 }
 
+impl<A: Allocator + Clone> Clone for FixedVectorAllocator<A> {
+    fn clone(&self) -> Self {
+        // the clone does not own the fixed buffer, so it must not recognise its address
+        Self::new_with(self.overflow_allocator.clone())
+    }
+}
+
 impl<A: Allocator + Default> Default for FixedVectorAllocator<A> {
     fn default() -> Self {
         Self {
-- 
2.43.0


From 6f70a238769006aa4d7c5fdd182b8bd95650b003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:51 +0000
Subject: [PATCH 25/27] fix: growing a hash table past the second largest prime
 panics

lower_bound over the whole prime table can return its length. The largest prime is duplicated at the
end for exactly this reason: search all entries but the last.
---
 src/internal/hash_table/rehash_policy.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/internal/hash_table/rehash_policy.rs b/src/internal/hash_table/rehash_policy.rs
index 838df9b..93cc1b3 100644
--- a/src/internal/hash_table/rehash_policy.rs
+++ b/src/internal/hash_table/rehash_policy.rs
@@ -75,7 +75,9 @@ impl PrimeRehashPolicy {
                 // we need to grow the hashtable
                 min_bucket_count = min_bucket_count.max(self.growth_factor * bucket_count as f32);
                 // the next largest prime will satisfy our load factor
-                let next_prime = PRIMES[PRIMES.lower_bound(&(min_bucket_count as u32))];
+                // (the last one is duplicated, so that a search among the others always ends at an entry)
+                let next_prime =
+                    PRIMES[PRIMES[..PRIMES.len() - 1].lower_bound(&(min_bucket_count as u32))];
                 self.next_resize = (next_prime as f32 * self.max_load_factor).ceil() as u32;
                 Some(next_prime)
             } else {
-- 
2.43.0


From 44729006915ab827e2d8957b4650549963de776a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:07 +0000
Subject: [PATCH 26/27] fix: exchange hash table iterators with C++ in the form
 the C++ iterators have

A C++ iterator points to the bucket its node is in, and the end lies on the
sentinel behind the last bucket. A Rust iterator made from a C++ pair visited
the nodes of the first bucket twice and followed the sentinel of an empty
table, and a pair given to C++ was one bucket ahead with a null end.
---
 src/internal/hash_table/iter.rs | 120 ++++++++++++++++++++------------
 1 file changed, 76 insertions(+), 44 deletions(-)

diff --git a/src/internal/hash_table/iter.rs b/src/internal/hash_table/iter.rs
index dcbdef6..ffbde26 100644
--- a/src/internal/hash_table/iter.rs
+++ b/src/internal/hash_table/iter.rs
@@ -23,6 +23,16 @@ pub struct CompatIterMut<'a, K: PartialEq + 'a, V: 'a> {
     _marker: PhantomData<&'a (K, V)>,
 }
 
+impl<'a, K: PartialEq + 'a, V: 'a> From<CompatIterMut<'a, K, V>> for CompatIter<'a, K, V> {
+    fn from(iter_mut: CompatIterMut<'a, K, V>) -> Self {
+        Self {
+            node_ptr: iter_mut.node_ptr,
+            bucket_ptr: iter_mut.bucket_ptr as *const *const Node<K, V>,
+            _marker: PhantomData,
+        }
+    }
+}
+
 /// An iterator that produces key-value pairs
 /// in a hash table in an unspecified order. This
 /// is not binary compatible with C++, but can
@@ -45,21 +55,8 @@ impl<'a, K: PartialEq, V> RawIter<'a, K, V> {
     /// Converts the Rust iterator into a pair of
     /// `(begin, end)` compatibility iterators
     fn into_compat(self) -> (CompatIter<'a, K, V>, CompatIter<'a, K, V>) {
-        (
-            CompatIter::<'a, K, V> {
-                node_ptr: self.node_ptr,
-                bucket_ptr: self.bucket_iter.as_slice().as_ptr() as *const *const Node<K, V>,
-                _marker: PhantomData,
-            },
-            CompatIter::<'a, K, V> {
-                node_ptr: std::ptr::null_mut(),
-                bucket_ptr: unsafe {
-                    (self.bucket_iter.as_slice().as_ptr() as *const *const Node<K, V>)
-                        .add(self.bucket_iter.as_slice().len())
-                },
-                _marker: PhantomData,
-            },
-        )
+        let (begin, end) = unsafe { self.into_compat_mut() };
+        (begin.into(), end.into())
     }
 
     /// Converts the Rust iterator into a pair of
@@ -70,22 +67,28 @@ impl<'a, K: PartialEq, V> RawIter<'a, K, V> {
     /// Mutability of the exposed iterator must be enforced.
     /// POLLO: Is there a better way to do this?
     unsafe fn into_compat_mut(self) -> (CompatIterMut<'a, K, V>, CompatIterMut<'a, K, V>) {
-        (
-            CompatIterMut::<'a, K, V> {
-                node_ptr: self.node_ptr,
-                bucket_ptr: self.bucket_iter.as_slice().as_ptr(),
-                _marker: PhantomData,
+        let remaining = self.bucket_iter.as_slice().as_ptr_range();
+        // the end lies on the sentinel behind the last bucket
+        let end = CompatIterMut::<'a, K, V> {
+            node_ptr: !0 as *mut _,
+            bucket_ptr: remaining.end,
+            _marker: PhantomData,
+        };
+        let begin = CompatIterMut::<'a, K, V> {
+            node_ptr: if self.node_ptr.is_null() {
+                end.node_ptr
+            } else {
+                self.node_ptr
             },
-            CompatIterMut::<'a, K, V> {
-                node_ptr: std::ptr::null_mut(),
-                bucket_ptr: self
-                    .bucket_iter
-                    .as_slice()
-                    .as_ptr()
-                    .add(self.bucket_iter.as_slice().len()),
-                _marker: PhantomData,
+            bucket_ptr: if self.node_ptr.is_null() {
+                end.bucket_ptr
+            } else {
+                // C++ iterators point to the bucket of their node, which we already went past
+                remaining.start.sub(1)
             },
-        )
+            _marker: PhantomData,
+        };
+        (begin, end)
     }
 
     /// Constructs a Rust iterator from a pair of
@@ -102,14 +105,11 @@ impl<'a, K: PartialEq, V> RawIter<'a, K, V> {
     ///
     /// `end`: The ending compatibility iterator
     unsafe fn from_compat(begin: CompatIter<K, V>, end: CompatIter<K, V>) -> Self {
-        Self {
-            bucket_iter: std::slice::from_raw_parts(
-                begin.bucket_ptr as *const *mut Node<K, V>,
-                end.bucket_ptr.offset_from(begin.bucket_ptr) as usize,
-            )
-            .iter(),
-            node_ptr: begin.node_ptr,
-        }
+        Self::from_raw(
+            begin.node_ptr,
+            begin.bucket_ptr as *const *mut Node<K, V>,
+            end.bucket_ptr as *const *mut Node<K, V>,
+        )
     }
 
     /// Constructs a Rust iterator from a pair of
@@ -126,13 +126,45 @@ impl<'a, K: PartialEq, V> RawIter<'a, K, V> {
     ///
     /// `end`: The ending compatibility iterator
     unsafe fn from_compat_mut(begin: CompatIterMut<K, V>, end: CompatIterMut<K, V>) -> Self {
-        Self {
-            node_ptr: begin.node_ptr,
-            bucket_iter: std::slice::from_raw_parts(
-                begin.bucket_ptr,
-                end.bucket_ptr.offset_from(begin.bucket_ptr) as usize,
-            )
-            .iter(),
+        Self::from_raw(begin.node_ptr, begin.bucket_ptr, end.bucket_ptr)
+    }
+
+    /// Constructs a Rust iterator from the position of
+    /// a C++ iterator
+    ///
+    /// # Safety
+    ///
+    /// The node must be in the bucket, and the bucket
+    /// must not lie behind the end
+    ///
+    /// # Arguments
+    ///
+    /// `node_ptr`: The node to start at
+    ///
+    /// `bucket_ptr`: The bucket the node is in
+    ///
+    /// `bucket_end`: The bucket to stop at
+    unsafe fn from_raw(
+        node_ptr: *mut Node<K, V>,
+        bucket_ptr: *const *mut Node<K, V>,
+        bucket_end: *const *mut Node<K, V>,
+    ) -> Self {
+        if bucket_ptr == bucket_end {
+            // we are at the end, where the node is the sentinel
+            Self {
+                bucket_iter: std::slice::from_raw_parts(bucket_end, 0).iter(),
+                node_ptr: std::ptr::null_mut(),
+            }
+        } else {
+            // the node's own bucket is not to be visited again
+            Self {
+                bucket_iter: std::slice::from_raw_parts(
+                    bucket_ptr.add(1),
+                    bucket_end.offset_from(bucket_ptr) as usize - 1,
+                )
+                .iter(),
+                node_ptr,
+            }
         }
     }
 
-- 
2.43.0


From 286e806d95eb403634ad27e78383ae8eb7625684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:21 +0000
Subject: [PATCH 27/27] fix: VectorMap tells keys apart with its comparator,
 not with ==

---
 src/vector_map/mod.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/vector_map/mod.rs b/src/vector_map/mod.rs
index f629dc8..1cfbe49 100644
--- a/src/vector_map/mod.rs
+++ b/src/vector_map/mod.rs
@@ -78,7 +78,7 @@ impl<K: PartialEq, V, A: Allocator, C: Compare<K> + Default> VectorMap<K, V, A,
         let lower_bound = self.lower_bound(&key);
 
         // if it already exists, just replace the value and return the original
-        if lower_bound < self.len() && self.base[lower_bound].0 == key {
+        if self.is_at(&key, lower_bound) {
             Entry::Occupied(OccupiedEntry(&mut self.base[lower_bound]))
         } else {
             Entry::Vacant(VacantEntry {
@@ -101,7 +101,8 @@ impl<K: PartialEq, V, A: Allocator, C: Compare<K> + Default> VectorMap<K, V, A,
         if lower_bound < self.len() {
             let (k, v) = &self.base[lower_bound];
 
-            if k == key {
+            // `k` is not smaller than the key, so the keys are equal if the key is not smaller either
+            if !C::compare(key, k) {
                 Some(v)
             } else {
                 None
@@ -123,7 +124,8 @@ impl<K: PartialEq, V, A: Allocator, C: Compare<K> + Default> VectorMap<K, V, A,
         if lower_bound < self.len() {
             let (k, v) = &mut self.base[lower_bound];
 
-            if k == key {
+            // `k` is not smaller than the key, so the keys are equal if the key is not smaller either
+            if !C::compare(key, k) {
                 Some(v)
             } else {
                 None
@@ -145,7 +147,7 @@ impl<K: PartialEq, V, A: Allocator, C: Compare<K> + Default> VectorMap<K, V, A,
         let lower_bound = self.lower_bound(&key);
 
         // if it already exists, just replace the value and return the original
-        if lower_bound < self.len() && self.base[lower_bound].0 == key {
+        if self.is_at(&key, lower_bound) {
             std::mem::swap(&mut value, &mut self.base[lower_bound].1);
 
             Some(value)
@@ -179,13 +181,19 @@ impl<K: PartialEq, V, A: Allocator, C: Compare<K> + Default> VectorMap<K, V, A,
         // find the entry
         let lower_bound = self.lower_bound(key);
 
-        if lower_bound < self.len() && &self.base[lower_bound].0 == key {
+        if self.is_at(key, lower_bound) {
             self.base.remove(lower_bound)
         } else {
             None
         }
     }
 
+    /// Checks if the entry at the key's lower bound holds the key. As everywhere in the map, only
+    /// the comparator decides: two keys are the same if neither is smaller
+    fn is_at(&self, key: &K, lower_bound: usize) -> bool {
+        lower_bound < self.len() && !C::compare(key, &self.base[lower_bound].0)
+    }
+
     /// Finds the index of the first value which is not smaller
     fn lower_bound(&self, key: &K) -> usize {
         self.base.as_slice().lower_bound_by(|(k, _)| {
-- 
2.43.0

