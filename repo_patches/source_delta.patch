From cdab905f63854075990fec7f5db4e858f0fe3268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:23 +0000
Subject: [PATCH 1/5] fix: keep the root hash current after writes through
 mutable references

Map::get_mut, the entry API, RbTree::insert and RbTree::modify hand out
&mut V, but the cached subtree hashes were computed before the caller
changed the value through it, so root_hash() and all witnesses kept
certifying the old value. Remember the node that was handed out and
recompute the hashes on its path before they are next needed, and tie the
reference passed to modify's closure to the borrow of the tree.
---
 src/collections/map.rs |   2 +-
 src/rbtree.rs          | 179 +++++++++++++++++++++--------------------
 src/rbtree/entry.rs    |   4 +-
 3 files changed, 96 insertions(+), 89 deletions(-)

diff --git a/src/collections/map.rs b/src/collections/map.rs
index e29a038..16232c6 100644
--- a/src/collections/map.rs
+++ b/src/collections/map.rs
@@ -50,7 +50,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> Map<K, V> {
     /// key will be returned.
     #[inline]
     pub fn insert(&mut self, key: K, value: V) -> Option<V> {
-        self.inner.insert(key, value).0
+        self.inner.insert_value(key, value)
     }
 
     /// Remove the value associated with the given key from the map, returns the
diff --git a/src/rbtree.rs b/src/rbtree.rs
index 2345d59..b68ac8e 100644
--- a/src/rbtree.rs
+++ b/src/rbtree.rs
@@ -6,6 +6,7 @@
 //! [crate::collections] module.
 
 use std::borrow::{Borrow, Cow};
+use std::cell::Cell;
 use std::cmp::Ordering;
 use std::cmp::Ordering::{Equal, Greater, Less};
 use std::fmt;
@@ -41,6 +42,8 @@ impl Color {
 impl<K: 'static + Label, V: AsHashTree + 'static> AsHashTree for RbTree<K, V> {
     #[inline]
     fn root_hash(&self) -> Hash {
+        self.refresh_stale_hashes();
+
         if self.root.is_null() {
             Empty.reconstruct()
         } else {
@@ -247,6 +250,11 @@ impl<K: 'static + Label, V: AsHashTree + 'static> Node<K, V> {
 pub struct RbTree<K: 'static + Label, V: AsHashTree + 'static> {
     len: usize,
     root: *mut Node<K, V>,
+
+    /// The node whose value has last been handed out by mutable reference, so that the
+    /// hashes cached on the path from the root to it may be out of date. Null if all of
+    /// the cached hashes are up to date.
+    stale: Cell<*mut Node<K, V>>,
 }
 
 impl<K: 'static + Label, V: AsHashTree + 'static> Drop for RbTree<K, V> {
@@ -269,6 +277,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
         Self {
             len: 0,
             root: Node::null(),
+            stale: Cell::new(Node::null()),
         }
     }
 
@@ -282,6 +291,40 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
         self.root.is_null()
     }
 
+    /// Recompute the cached hashes that a change made through a mutable reference to a
+    /// value has left behind. Must be called before the cached hashes are read, and before
+    /// the shape of the tree changes.
+    fn refresh_stale_hashes(&self) {
+        unsafe fn go<K: 'static + Label, V: AsHashTree + 'static>(
+            h: *mut Node<K, V>,
+            node: *mut Node<K, V>,
+        ) {
+            match (*node).key.cmp(&(*h).key) {
+                Equal => {}
+                Less => go((*h).left, node),
+                Greater => go((*h).right, node),
+            }
+            (*h).subtree_hash = Node::subtree_hash(h);
+        }
+
+        let node = self.stale.get();
+        if !node.is_null() {
+            unsafe { go(self.root, node) };
+            self.stale.set(Node::null());
+        }
+    }
+
+    /// Return a mutable reference to the value of the given node, which has to be in this
+    /// tree.
+    #[inline]
+    unsafe fn node_value_mut(&mut self, node: *mut Node<K, V>) -> &mut V {
+        if self.stale.get() != node {
+            self.refresh_stale_hashes();
+            self.stale.set(node);
+        }
+        &mut (*node).value
+    }
+
     pub fn entry(&mut self, key: K) -> entry::Entry<K, V> {
         let node = unsafe { self.get_node(&key) };
 
@@ -331,10 +374,14 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
     }
 
     #[inline]
-    unsafe fn get_node(&self, key: &K) -> *mut Node<K, V> {
+    unsafe fn get_node<Q: ?Sized>(&self, key: &Q) -> *mut Node<K, V>
+    where
+        K: Borrow<Q>,
+        Q: Ord,
+    {
         let mut root = self.root;
         while !root.is_null() {
-            match key.cmp(&(*root).key) {
+            match key.cmp((*root).key.borrow()) {
                 Equal => return root,
                 Less => root = (*root).left,
                 Greater => root = (*root).right,
@@ -345,48 +392,27 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
 
     /// Updates the value corresponding to the specified key.
     #[inline]
-    pub fn modify<'a, Q: ?Sized, T>(&mut self, key: &Q, f: impl FnOnce(&'a mut V) -> T) -> Option<T>
+    pub fn modify<'a, Q: ?Sized, T>(
+        &'a mut self,
+        key: &Q,
+        f: impl FnOnce(&'a mut V) -> T,
+    ) -> Option<T>
     where
         K: Borrow<Q>,
         Q: Ord,
     {
-        unsafe fn go<'a, K: 'static + Label, V: AsHashTree + 'static, T, Q: ?Sized>(
-            mut h: *mut Node<K, V>,
-            k: &Q,
-            f: impl FnOnce(&'a mut V) -> T,
-        ) -> Option<T>
-        where
-            K: Borrow<Q>,
-            Q: Ord,
-        {
-            if h.is_null() {
+        unsafe {
+            let node = self.get_node(key);
+            if node.is_null() {
                 return None;
             }
-
-            match k.cmp((*h).key.borrow()) {
-                Equal => {
-                    let res = f(&mut (*h).value);
-                    (*h).subtree_hash = Node::subtree_hash(h);
-                    Some(res)
-                }
-                Less => {
-                    let res = go((*h).left, k, f);
-                    (*h).subtree_hash = Node::subtree_hash(h);
-                    res
-                }
-                Greater => {
-                    let res = go((*h).right, k, f);
-                    (*h).subtree_hash = Node::subtree_hash(h);
-                    res
-                }
-            }
+            Some(f(self.node_value_mut(node)))
         }
-        unsafe { go(self.root, key, f) }
     }
 
     /// Modify the maximum node with the given prefix.
     pub fn modify_max_with_prefix<'a, P: ?Sized, T>(
-        &mut self,
+        &'a mut self,
         prefix: &P,
         f: impl FnOnce(&'a K, &'a mut V) -> T,
     ) -> Option<T>
@@ -394,49 +420,11 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
         K: Prefix<P>,
         P: Ord,
     {
-        unsafe fn go<
-            'a,
-            K: Label + 'static,
-            V: AsHashTree + 'static,
-            P: ?Sized,
-            T,
-            F: FnOnce(&'a K, &'a mut V) -> T,
-        >(
-            mut h: *mut Node<K, V>,
-            prefix: &P,
-            f: F,
-        ) -> (Option<T>, Option<F>)
-        where
-            K: Prefix<P>,
-            P: Ord,
-        {
-            if h.is_null() {
-                return (None, Some(f));
-            }
-
-            let node_key = &(*h).key;
-            let key_prefix = node_key.borrow();
-
-            let res = match key_prefix.cmp(prefix) {
-                Greater | Equal if node_key.is_prefix(prefix) => match go((*h).right, prefix, f) {
-                    (None, Some(f)) => {
-                        let ret = f(node_key, &mut (*h).value);
-                        (Some(ret), None)
-                    }
-                    ret => ret,
-                },
-                Greater => go((*h).left, prefix, f),
-                Less | Equal => go((*h).right, prefix, f),
-            };
-
-            if res.0.is_some() {
-                (*h).subtree_hash = Node::subtree_hash(h);
-            }
-
-            res
+        let key: *const K = self.max_entry_with_prefix(prefix)?.0;
+        unsafe {
+            let node = self.get_node::<K>(&*key);
+            Some(f(&(*node).key, self.node_value_mut(node)))
         }
-
-        unsafe { go(self.root, prefix, f).0 }
     }
 
     pub fn max_entry_with_prefix<P: ?Sized>(&self, prefix: &P) -> Option<(&K, &V)>
@@ -475,6 +463,8 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
         right: Option<KeyBound<'a, K>>,
         f: unsafe fn(*mut Node<K, V>) -> HashTree<'a>,
     ) -> HashTree<'a> {
+        self.refresh_stale_hashes();
+
         match (left, right) {
             (None, None) => unsafe { Node::full_witness_tree(self.root, f) },
             (Some(l), None) => self.witness_range_above(l, f),
@@ -510,6 +500,8 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
         K: Borrow<Q>,
         Q: Ord,
     {
+        self.refresh_stale_hashes();
+
         if let Some(t) = self.lookup_and_build_witness(key, f) {
             return t;
         }
@@ -876,55 +868,68 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
     /// Inserts a key-value entry into the map.
     #[inline]
     pub fn insert(&mut self, key: K, value: V) -> (Option<V>, &mut V) {
-        struct GoResult<'a, K, V> {
+        let (old_value, node) = self.insert_node(key, value);
+        (old_value, unsafe { self.node_value_mut(node) })
+    }
+
+    /// Like `insert`, but without handing out a reference to the new value.
+    #[inline]
+    pub(crate) fn insert_value(&mut self, key: K, value: V) -> Option<V> {
+        self.insert_node(key, value).0
+    }
+
+    fn insert_node(&mut self, key: K, value: V) -> (Option<V>, *mut Node<K, V>) {
+        struct GoResult<K, V> {
             node: *mut Node<K, V>,
             old_value: Option<V>,
-            new_value_ref: &'a mut V,
+            new_value_node: *mut Node<K, V>,
         }
 
         unsafe fn go<K: 'static + Label, V: AsHashTree + 'static>(
             mut h: *mut Node<K, V>,
             k: K,
             mut v: V,
-        ) -> GoResult<'static, K, V> {
+        ) -> GoResult<K, V> {
             if h.is_null() {
                 let node = Node::new(k, v);
                 return GoResult {
                     node,
                     old_value: None,
-                    new_value_ref: &mut (*node).value,
+                    new_value_node: node,
                 };
             }
 
-            let (old_value, new_value_ref) = match k.cmp(&(*h).key) {
+            let (old_value, new_value_node) = match k.cmp(&(*h).key) {
                 Equal => {
                     std::mem::swap(&mut (*h).value, &mut v);
                     (*h).subtree_hash = Node::subtree_hash(h);
-                    (Some(v), &mut (*h).value)
+                    (Some(v), h)
                 }
                 Less => {
                     let res = go((*h).left, k, v);
                     (*h).left = res.node;
                     (*h).subtree_hash = Node::subtree_hash(h);
-                    (res.old_value, res.new_value_ref)
+                    (res.old_value, res.new_value_node)
                 }
                 Greater => {
                     let res = go((*h).right, k, v);
                     (*h).right = res.node;
                     (*h).subtree_hash = Node::subtree_hash(h);
-                    (res.old_value, res.new_value_ref)
+                    (res.old_value, res.new_value_node)
                 }
             };
 
             GoResult {
                 node: balance(h),
                 old_value,
-                new_value_ref,
+                new_value_node,
             }
         }
 
+        self.refresh_stale_hashes();
+
         unsafe {
-            let mut result = go(self.root, key, value);
+            let result = go(self.root, key, value);
             (*result.node).color = Color::Black;
 
             #[cfg(test)]
@@ -941,7 +946,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
             }
 
             self.root = result.node;
-            (result.old_value, result.new_value_ref)
+            (result.old_value, result.new_value_node)
         }
     }
 
@@ -1045,6 +1050,8 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
 
         unsafe {
             self.get(key)?;
+            self.refresh_stale_hashes();
+
             if !is_red((*self.root).left) && !is_red((*self.root).right) {
                 (*self.root).color = Color::Red;
             }
diff --git a/src/rbtree/entry.rs b/src/rbtree/entry.rs
index 216f42c..21e489e 100644
--- a/src/rbtree/entry.rs
+++ b/src/rbtree/entry.rs
@@ -63,7 +63,7 @@ impl<'a, K: 'static + Label, V: AsHashTree + 'static> OccupiedEntry<'a, K, V> {
     /// [`into_mut`]: OccupiedEntry::into_mut
     #[inline]
     pub fn get_mut(&mut self) -> &mut V {
-        unsafe { &mut (*self.node).value }
+        unsafe { self.map.node_value_mut(self.node) }
     }
 
     /// Converts the entry into a mutable reference to its value.
@@ -73,7 +73,7 @@ impl<'a, K: 'static + Label, V: AsHashTree + 'static> OccupiedEntry<'a, K, V> {
     /// [`get_mut`]: OccupiedEntry::get_mut
     #[inline]
     pub fn into_mut(self) -> &'a mut V {
-        unsafe { &mut (*self.node).value }
+        unsafe { self.map.node_value_mut(self.node) }
     }
 
     /// Gets a reference to the key in the entry.
-- 
2.43.0


From e9391db4db57bf95abf5293e54e1ca57f89d4479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:24 +0000
Subject: [PATCH 2/5] fix: make keys_with_prefix cover every key of a composite
 prefix

When a prefix is a component of the key, several keys compare equal to
it. lower_bound stopped at whichever of them was met first, so the prefix
witness pruned away all the smaller ones.
---
 src/rbtree.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rbtree.rs b/src/rbtree.rs
index b68ac8e..d661e8b 100644
--- a/src/rbtree.rs
+++ b/src/rbtree.rs
@@ -757,7 +757,11 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
             let node_key = &(*n).key;
             match node_key.borrow().cmp(key) {
                 Less => go((*n).right, key).or(Some(KeyBound::Neighbor(node_key))),
-                Equal => Some(KeyBound::Exact(node_key)),
+                // With a key that is only a prefix, smaller keys may be equal to it as well.
+                Equal => match go((*n).left, key) {
+                    Some(KeyBound::Exact(smaller)) => Some(KeyBound::Exact(smaller)),
+                    _ => Some(KeyBound::Exact(node_key)),
+                },
                 Greater => go((*n).left, key),
             }
         }
-- 
2.43.0


From 248b5a8d00f25c42abbff112ccd33b3723f17eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:48 +0000
Subject: [PATCH 3/5] fix: do not truncate page numbers in Paged::get and
 Paged::witness

A page number above u32::MAX was cut down to its low 32 bits, so that
get(key, 1 << 32) returned page 0 and witness() proved the presence of a
page nobody asked for. Such pages do not exist.
---
 src/collections/paged.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/collections/paged.rs b/src/collections/paged.rs
index c888db2..3f58aac 100644
--- a/src/collections/paged.rs
+++ b/src/collections/paged.rs
@@ -3,6 +3,7 @@ use crate::{AsHashTree, Hash, HashTree, Map, Seq};
 use candid::CandidType;
 use serde::{Deserialize, Serialize};
 use std::borrow::{Borrow, Cow};
+use std::convert::TryFrom;
 
 #[derive(CandidType, Serialize, Deserialize, Debug)]
 pub struct Paged<K: Label + Ord + 'static, V: AsHashTree + 'static, const S: usize> {
@@ -92,7 +93,7 @@ impl<K: Label + Ord + 'static, V: AsHashTree + 'static, const S: usize> Paged<K,
     }
 
     pub fn get(&self, key: &K, page: usize) -> Option<&Seq<V>> {
-        let page = page as u32;
+        let page = u32::try_from(page).ok()?;
         let key = (key, page);
         self.data.inner.get_with(|k| key.cmp(&(&k.key, k.page)))
     }
@@ -104,7 +105,8 @@ impl<K: Label + Ord + 'static, V: AsHashTree + 'static, const S: usize> Paged<K,
     {
         let key = PagedKey {
             key: key.clone(),
-            page: page as u32,
+            // There is no page with a larger number, so this proves the absence as well.
+            page: u32::try_from(page).unwrap_or(u32::MAX),
         };
         self.data.witness(&key)
     }
-- 
2.43.0


From 78e23af43442fa717a1973445e606ce758856ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:14 +0000
Subject: [PATCH 4/5] fix: keep Seq's hash in step with its items when extend
 panics

extend pushed all the items first and hashed them afterwards. If the
iterator panicked, the items taken so far stayed in the sequence without
ever being hashed, and the root hash no longer covered them.
---
 src/collections/seq.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/collections/seq.rs b/src/collections/seq.rs
index d7ce6f9..571217d 100644
--- a/src/collections/seq.rs
+++ b/src/collections/seq.rs
@@ -195,18 +195,20 @@ impl<T: AsHashTree> Borrow<[T]> for Seq<T> {
 impl<'a, T: AsHashTree + Copy + 'a> Extend<&'a T> for Seq<T> {
     #[inline]
     fn extend<I: IntoIterator<Item = &'a T>>(&mut self, iter: I) {
-        let prev_len = self.items.len();
-        self.items.extend(iter);
-        self.recompute_hash(prev_len)
+        self.extend(iter.into_iter().copied())
     }
 }
 
 impl<T: AsHashTree> Extend<T> for Seq<T> {
     #[inline]
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let prev_len = self.items.len();
-        self.items.extend(iter);
-        self.recompute_hash(prev_len)
+        let iter = iter.into_iter();
+        self.items.reserve(iter.size_hint().0);
+
+        // Item by item, so that the hash matches the items even if the iterator panics.
+        for item in iter {
+            self.append(item);
+        }
     }
 }
 
-- 
2.43.0


From 50e7690ff64d19f0fef7cfd70925356d4e845f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:56 +0000
Subject: [PATCH 5/5] fix: Paged with a last page of number u32::MAX (from
 decoded data) wrapped around to page 0

---
 src/collections/paged.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/collections/paged.rs b/src/collections/paged.rs
index 3f58aac..7fe46c8 100644
--- a/src/collections/paged.rs
+++ b/src/collections/paged.rs
@@ -52,7 +52,7 @@ impl<K: Label + Ord + 'static, V: AsHashTree + 'static, const S: usize> Paged<K,
         let page = tree
             .modify_max_with_prefix(&key, |key, seq| {
                 if seq.len() == S {
-                    return Some(key.page + 1);
+                    return Some(key.page.checked_add(1).expect("Too many pages."));
                 }
                 seq.append(item.take().unwrap());
                 None
@@ -83,7 +83,8 @@ impl<K: Label + Ord + 'static, V: AsHashTree + 'static, const S: usize> Paged<K,
             .data
             .inner
             .max_entry_with_prefix(key)
-            .map(|(k, _)| k.page + 1)
+            // There is no page after the one with the largest possible number.
+            .map(|(k, _)| k.page.saturating_add(1))
             .unwrap_or(0);
         let key = PagedKey {
             key: key.clone(),
-- 
2.43.0

