From 6bbbd1cba0c9805879186d959d985898f28a305f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:50 +0000
Subject: [PATCH 1/5] fix: convert stacks ending in an archive without an empty
 leaf

memo_from of an AStack with no elements since its last archive made a leaf
with no data, on which fold_up panics ("leaf with empty vec") and pops and
focusing at the end find nothing.
---
 src/raz.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/raz.rs b/src/raz.rs
index 5fc57d3..6e4a478 100644
--- a/src/raz.rs
+++ b/src/raz.rs
@@ -761,6 +761,9 @@ for RazTree<E,M> {
 			}
 		}
 		let mut tailstack = tailstack.0.clone();
+		// when nothing was pushed since the last archive, that archive
+		// does not divide two subsequences; don't make an empty leaf
+		if tailstack.active_len() == 0 { tailstack.next_archive(); }
 		let name = tailstack.name();
 		let (level, first_tree) = match tailstack.next_archive() {
 			None => return RazTree{meta: treetop_meta(None), tree: None},
@@ -837,6 +840,9 @@ for RazTree<E,M> {
 			}
 		}
 		let mut headstack = headstack.0.clone();
+		// when nothing was pushed since the last archive, that archive
+		// does not divide two subsequences; don't make an empty leaf
+		if headstack.active_len() == 0 { headstack.next_archive(); }
 		let name = headstack.name();
 		let (level, first_tree) = match headstack.next_archive() {
 			None => return RazTree{meta: treetop_meta(None), tree: None},
-- 
2.43.0


From 903e106e5290fc52d5044c8000b7b151f9430189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:50 +0000
Subject: [PATCH 2/5] fix: good_levels uses the tie convention of the trees
 that are built

Cursor::join, Cursor::up and memo_from put equal levels to the right, and
the left branch strictly below its parent. good_levels rejected those trees
and accepted the ones that no operation builds.
---
 src/level_tree.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/level_tree.rs b/src/level_tree.rs
index f4547f5..0c25d54 100644
--- a/src/level_tree.rs
+++ b/src/level_tree.rs
@@ -212,21 +212,21 @@ Tree<E> {
 /// ```
 ///
 /// checks that the levels of the tree follow the convention
-/// of non-increasing to the left branch and decreasing to the
+/// of decreasing to the left branch and non-increasing to the
 /// right branch
 ///
 /// also prints the levels of the failing trees and branches
 pub fn good_levels<E: Debug+Clone+Eq+Hash+'static>(tree: &Tree<E>) -> bool {
 	let mut good = true;
 	if let Some(ref t) = force(&tree.link).l_branch {
-		if t.level > tree.level {
+		if t.level >= tree.level {
 			println!("Tree with level {:?} has left branch with level {:?}", tree.level, t.level);
 			good = false;
 		}
 		if !good_levels(t) { good = false }
 	}
 	if let Some(ref t) = force(&tree.link).r_branch {
-		if t.level >= tree.level {
+		if t.level > tree.level {
 			println!("Tree with level {:?} has right branch with level {:?}", tree.level, t.level);
 			good = false;
 		}
-- 
2.43.0


From abf6a88c88ae771519c49297c51e94419fa97e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:28 +0000
Subject: [PATCH 3/5] fix: peek does not rebuild (and overwrite) the nodes it
 passes

With the change-propagating engine a named node is a mutable cell, and moving
up with a dirty cursor recreates it. peek_left/peek_right therefore cut off a
branch of the sequence that the cursor was focused from.
---
 src/raz.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/raz.rs b/src/raz.rs
index 6e4a478..650a094 100644
--- a/src/raz.rs
+++ b/src/raz.rs
@@ -571,7 +571,7 @@ Raz<E,M> {
 	pub fn peek_left(&self) -> Option<E> {
 		if self.l_stack.is_empty() {
 			let mut peek_forest = self.l_forest.clone();
-			if peek_forest.up() == tree::UpResult::Fail { return None } else {
+			if peek_forest.up_discard() == tree::UpResult::Fail { return None } else {
 				peek_forest.down_left();
 				while peek_forest.down_right() {}
 				match peek_forest.peek() {
@@ -585,7 +585,7 @@ Raz<E,M> {
 	pub fn peek_right(&self) -> Option<E> {
 		if self.r_stack.is_empty() {
 			let mut peek_forest = self.r_forest.clone();
-			if peek_forest.up() == tree::UpResult::Fail { return None } else {
+			if peek_forest.up_discard() == tree::UpResult::Fail { return None } else {
 				peek_forest.down_right();
 				while peek_forest.down_left() {}
 				match peek_forest.peek() {
-- 
2.43.0


From 40c16ab91fbf5d7eda261bc796069368ae5ae18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:27 +0000
Subject: [PATCH 4/5] fix: skip list lookups in one computation keep separate
 dependencies

---
 src/skiplist.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/skiplist.rs b/src/skiplist.rs
index a25c94d..f5e6517 100644
--- a/src/skiplist.rs
+++ b/src/skiplist.rs
@@ -9,7 +9,7 @@ use std::fmt;
 use std::fmt::Debug;
 use std::hash::{Hash,Hasher};
 use std::collections::hash_map::{DefaultHasher};
-use adapton::engine::{cell,force_map,Art,Name,name_pair,name_of_usize};
+use adapton::engine::{cell,force,Art,Name,name_pair,name_of_usize};
 
 fn my_hash<T>(obj: T) -> u64
   where T: Hash
@@ -165,9 +165,11 @@ fn build_path_rec
 {    
     let key_bits : usize = key_hash.0;
     let key_biti : usize = cursor.paths.len();
+    // A computation often visits the same path for several keys, and the engine tracks only one
+    // mapping (as by `force_map`) of a location per computation; so observe the path itself.
     let mut res =
-        force_map(&cur_art, move |art,path|
-                  build_path_step (art, path, ObsParam{ path_len:path_len, key_bits:key_bits, key_biti:key_biti})) ;
+        build_path_step (cur_art, force(cur_art),
+                         ObsParam{ path_len:path_len, key_bits:key_bits, key_biti:key_biti}) ;
     cursor.paths.append(&mut res.paths);
     match res.kvs {
         Some(kvs) => {
-- 
2.43.0


From d5e24c5346ced8b0331ce2b84114277280b2feb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:13 +0000
Subject: [PATCH 5/5] fix: tries made from equal maps are equal

The hash that stands for a leaf's map in comparisons depended on the
iteration order of the hash map, which differs from map to map.
---
 src/trie.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/trie.rs b/src/trie.rs
index ebe3f29..d7bffe9 100644
--- a/src/trie.rs
+++ b/src/trie.rs
@@ -102,12 +102,9 @@ impl<K:'static+Hash+Eq+Clone+Debug,
     }
 
     fn hash_map (map: &HashMap<K,V>) -> HashVal {
-        let mut state = DefaultHasher::new();
-        for (k,v) in map.iter() {
-            k.hash(&mut state);
-            v.hash(&mut state);
-        };
-        HashVal(state.finish() as usize)
+        // entries are combined by addition, since the map has no fixed iteration order
+        let sum = map.iter().fold(0u64, |sum,kv| sum.wrapping_add(my_hash(kv)));
+        HashVal(sum as usize)
     }
 
     fn split_map (map: HashMap<K,V>, bits:&Bits,
-- 
2.43.0

