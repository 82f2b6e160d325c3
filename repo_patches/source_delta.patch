From b6ad252d648dd4d6807995801c716d97a646f8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:14 +0000
Subject: [PATCH 01/26] fix: keep the AVL tree height balanced

Node heights were counted up on every insertion and never updated by
removals, and rotations moved one node at a time without rebalancing the
subtrees they touched. Sorted insertion of n keys gave a height of about
2*sqrt(n), and removing an absent key could rotate the root away and lose
entries.

Recompute heights from the children, use single and double rotations, and
rebalance on the way back up from an insertion or a removal.
---
 tree/avl/avltree.go | 75 +++++++++++++++++++--------------------------
 1 file changed, 32 insertions(+), 43 deletions(-)

diff --git a/tree/avl/avltree.go b/tree/avl/avltree.go
index 9363f7a..ea47aee 100644
--- a/tree/avl/avltree.go
+++ b/tree/avl/avltree.go
@@ -138,26 +138,7 @@ func (self *AvlNode) pop_node(node *AvlNode) *AvlNode {
 	}
 
 	self.height = max(self.left.Height(), self.right.Height()) + 1
-	return self
-}
-
-func (self *AvlNode) push_node(node *AvlNode) *AvlNode {
-	if node == nil {
-		panic("node can't be nil")
-	} else if node.left != nil || node.right != nil {
-		panic("node now be a leaf")
-	}
-
-	if self == nil {
-		node.height = 1
-		return node
-	} else if node.key.Less(self.key) {
-		self.left = self.left.push_node(node)
-	} else {
-		self.right = self.right.push_node(node)
-	}
-	self.height = max(self.left.Height(), self.right.Height()) + 1
-	return self
+	return self.balance()
 }
 
 func (self *AvlNode) rotate_right() *AvlNode {
@@ -167,13 +148,15 @@ func (self *AvlNode) rotate_right() *AvlNode {
 	if self.left == nil {
 		return self
 	}
-	new_root := self.left.rmd()
-	self = self.pop_node(new_root)
-	new_root.left = self.left
-	new_root.right = self.right
-	self.left = nil
-	self.right = nil
-	return new_root.push_node(self)
+	if self.left.left.Height() < self.left.right.Height() {
+		self.left = self.left.rotate_left()
+	}
+	new_root := self.left
+	self.left = new_root.right
+	new_root.right = self
+	self.height = max(self.left.Height(), self.right.Height()) + 1
+	new_root.height = max(new_root.left.Height(), new_root.right.Height()) + 1
+	return new_root
 }
 
 func (self *AvlNode) rotate_left() *AvlNode {
@@ -183,13 +166,15 @@ func (self *AvlNode) rotate_left() *AvlNode {
 	if self.right == nil {
 		return self
 	}
-	new_root := self.right.lmd()
-	self = self.pop_node(new_root)
-	new_root.left = self.left
-	new_root.right = self.right
-	self.left = nil
-	self.right = nil
-	return new_root.push_node(self)
+	if self.right.right.Height() < self.right.left.Height() {
+		self.right = self.right.rotate_right()
+	}
+	new_root := self.right
+	self.right = new_root.left
+	new_root.left = self
+	self.height = max(self.left.Height(), self.right.Height()) + 1
+	new_root.height = max(new_root.left.Height(), new_root.right.Height()) + 1
+	return new_root
 }
 
 func (self *AvlNode) balance() *AvlNode {
@@ -222,7 +207,7 @@ func (self *AvlNode) Put(key types.Hashable, value interface{}) (_ *AvlNode, upd
 		self.right, updated = self.right.Put(key, value)
 	}
 	if !updated {
-		self.height += 1
+		self.height = max(self.left.Height(), self.right.Height()) + 1
 		return self.balance(), updated
 	}
 	return self, updated
@@ -235,15 +220,18 @@ func (self *AvlNode) Remove(key types.Hashable) (_ *AvlNode, value interface{},
 
 	if self.key.Equals(key) {
 		if self.left != nil && self.right != nil {
+			var new_root *AvlNode
 			if self.left.Size() < self.right.Size() {
-				lmd := self.right.lmd()
-				lmd.left = self.left
-				return self.right, self.value, nil
+				new_root = self.right.lmd()
+				self.right = self.right.pop_node(new_root)
 			} else {
-				rmd := self.left.rmd()
-				rmd.right = self.right
-				return self.left, self.value, nil
+				new_root = self.left.rmd()
+				self.left = self.left.pop_node(new_root)
 			}
+			new_root.left = self.left
+			new_root.right = self.right
+			new_root.height = max(new_root.left.Height(), new_root.right.Height()) + 1
+			return new_root.balance(), self.value, nil
 		} else if self.left == nil {
 			return self.right, self.value, nil
 		} else if self.right == nil {
@@ -258,9 +246,10 @@ func (self *AvlNode) Remove(key types.Hashable) (_ *AvlNode, value interface{},
 		self.right, value, err = self.right.Remove(key)
 	}
 	if err != nil {
-		return self.balance(), value, err
+		return self, value, err
 	}
-	return self, value, err
+	self.height = max(self.left.Height(), self.right.Height()) + 1
+	return self.balance(), value, err
 }
 
 func (self *AvlNode) Height() int {
-- 
2.43.0


From 95bcf196247d9d7c4dade29e0c28be40a74400eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:14 +0000
Subject: [PATCH 02/26] fix: keep the immutable AVL tree height balanced

Insertion over-counted node heights, removal did not rebalance, and
rotations moved one node at a time without rebalancing the subtrees they
touched, so the height grew with the square root of the number of keys.

Use single and double rotations on copied nodes and rebalance on the way
back up from an insertion or a removal.
---
 tree/avl/imm_avltree.go | 67 +++++++++++++++++------------------------
 1 file changed, 28 insertions(+), 39 deletions(-)

diff --git a/tree/avl/imm_avltree.go b/tree/avl/imm_avltree.go
index 9616bc4..3fe3896 100644
--- a/tree/avl/imm_avltree.go
+++ b/tree/avl/imm_avltree.go
@@ -140,28 +140,7 @@ func (self *ImmutableAvlNode) pop_node(node *ImmutableAvlNode) (new_self, new_no
 	}
 
 	self.height = max(self.left.Height(), self.right.Height()) + 1
-	return self, node
-}
-
-func (self *ImmutableAvlNode) push_node(node *ImmutableAvlNode) *ImmutableAvlNode {
-	if node == nil {
-		panic("node can't be nil")
-	} else if node.left != nil || node.right != nil {
-		panic("node must now be a leaf")
-	}
-
-	self = self.Copy()
-
-	if self == nil {
-		node.height = 1
-		return node
-	} else if node.key.Less(self.key) {
-		self.left = self.left.push_node(node)
-	} else {
-		self.right = self.right.push_node(node)
-	}
-	self.height = max(self.left.Height(), self.right.Height()) + 1
-	return self
+	return self.balance(), node
 }
 
 func (self *ImmutableAvlNode) rotate_right() *ImmutableAvlNode {
@@ -171,7 +150,16 @@ func (self *ImmutableAvlNode) rotate_right() *ImmutableAvlNode {
 	if self.left == nil {
 		return self
 	}
-	return self.rotate(self.left.rmd)
+	self = self.Copy()
+	new_root := self.left.Copy()
+	if new_root.left.Height() < new_root.right.Height() {
+		new_root = new_root.rotate_left()
+	}
+	self.left = new_root.right
+	new_root.right = self
+	self.height = max(self.left.Height(), self.right.Height()) + 1
+	new_root.height = max(new_root.left.Height(), new_root.right.Height()) + 1
+	return new_root
 }
 
 func (self *ImmutableAvlNode) rotate_left() *ImmutableAvlNode {
@@ -181,16 +169,16 @@ func (self *ImmutableAvlNode) rotate_left() *ImmutableAvlNode {
 	if self.right == nil {
 		return self
 	}
-	return self.rotate(self.right.lmd)
-}
-
-func (self *ImmutableAvlNode) rotate(get_new_root func() *ImmutableAvlNode) *ImmutableAvlNode {
-	self, new_root := self.pop_node(get_new_root())
-	new_root.left = self.left
-	new_root.right = self.right
-	self.left = nil
-	self.right = nil
-	return new_root.push_node(self)
+	self = self.Copy()
+	new_root := self.right.Copy()
+	if new_root.right.Height() < new_root.left.Height() {
+		new_root = new_root.rotate_right()
+	}
+	self.right = new_root.left
+	new_root.left = self
+	self.height = max(self.left.Height(), self.right.Height()) + 1
+	new_root.height = max(new_root.left.Height(), new_root.right.Height()) + 1
+	return new_root
 }
 
 func (self *ImmutableAvlNode) balance() *ImmutableAvlNode {
@@ -227,7 +215,6 @@ func (self *ImmutableAvlNode) Put(key types.Hashable, value interface{}) (_ *Imm
 	self.height = max(self.left.Height(), self.right.Height()) + 1
 
 	if !updated {
-		self.height += 1
 		return self.balance(), updated
 	}
 	return self, updated
@@ -241,14 +228,16 @@ func (self *ImmutableAvlNode) Remove(key types.Hashable) (_ *ImmutableAvlNode, v
 	if self.key.Equals(key) {
 		if self.left != nil && self.right != nil {
 			var new_root *ImmutableAvlNode
+			self = self.Copy()
 			if self.left.Size() < self.right.Size() {
-				self, new_root = self.pop_node(self.right.lmd())
+				self.right, new_root = self.right.pop_node(self.right.lmd())
 			} else {
-				self, new_root = self.pop_node(self.left.rmd())
+				self.left, new_root = self.left.pop_node(self.left.rmd())
 			}
 			new_root.left = self.left
 			new_root.right = self.right
-			return new_root, self.value, nil
+			new_root.height = max(new_root.left.Height(), new_root.right.Height()) + 1
+			return new_root.balance(), self.value, nil
 		} else if self.left == nil {
 			return self.right, self.value, nil
 		} else if self.right == nil {
@@ -267,9 +256,9 @@ func (self *ImmutableAvlNode) Remove(key types.Hashable) (_ *ImmutableAvlNode, v
 	}
 	self.height = max(self.left.Height(), self.right.Height()) + 1
 	if err != nil {
-		return self.balance(), value, err
+		return self, value, err
 	}
-	return self, value, err
+	return self.balance(), value, err
 }
 
 func (self *ImmutableAvlNode) Height() int {
-- 
2.43.0


From e332dfe54f59c112adf694615a585b817c3d1817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:56 +0000
Subject: [PATCH 03/26] fix: accept keys whose hash is the smallest int in the
 hash table

The absolute value of the smallest int is negative, so the bucket index was
negative and every operation on such a key panicked. Reduce the hash modulo
the table length before taking the absolute value.
---
 hashtable/hashtable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hashtable/hashtable.go b/hashtable/hashtable.go
index 5c94b03..46d6a20 100644
--- a/hashtable/hashtable.go
+++ b/hashtable/hashtable.go
@@ -65,7 +65,7 @@ func NewHashTable(initial_size int) *Hash {
 }
 
 func (self *Hash) bucket(key Hashable) int {
-	return abs(key.Hash()) % len(self.table)
+	return abs(key.Hash() % len(self.table))
 }
 
 func (self *Hash) Size() int { return self.size }
-- 
2.43.0


From 779f7d51e258b83de7e123a1cca07e08565cbb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:56 +0000
Subject: [PATCH 04/26] fix: allow an initial hash table size of zero

A table without buckets made every operation divide by zero. Start with at
least one bucket.
---
 hashtable/hashtable.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hashtable/hashtable.go b/hashtable/hashtable.go
index 46d6a20..b65073b 100644
--- a/hashtable/hashtable.go
+++ b/hashtable/hashtable.go
@@ -58,6 +58,9 @@ func (self *entry) Remove(key Hashable) *entry {
 }
 
 func NewHashTable(initial_size int) *Hash {
+	if initial_size < 1 {
+		initial_size = 1
+	}
 	return &Hash{
 		table: make([]*entry, initial_size),
 		size:  0,
-- 
2.43.0


From c749d50ad30ed405ef91d625226251662a7b897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:02 +0000
Subject: [PATCH 05/26] fix: report not found instead of panicking on an empty
 B+Tree map

Get and Remove indexed into the empty root leaf.
---
 tree/bptree/bpmap.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/bptree/bpmap.go b/tree/bptree/bpmap.go
index e62ac48..5fca5ea 100644
--- a/tree/bptree/bpmap.go
+++ b/tree/bptree/bpmap.go
@@ -39,6 +39,9 @@ func (self *BpMap) Put(key types.Hashable, value interface{}) (err error) {
 }
 
 func (self *BpMap) Get(key types.Hashable) (value interface{}, err error) {
+	if len(self.root.keys) == 0 {
+		return nil, errors.NotFound(key)
+	}
 	j, l := self.root.get_start(key)
 	if l.keys[j].Equals(key) {
 		return l.values[j], nil
-- 
2.43.0


From 9f23d476b1473eb325d3c05b181ac31d5fe5ee3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:02 +0000
Subject: [PATCH 06/26] fix: keep B+Tree ranges within their bounds

A range starting after the last key yielded the last key, so Find of a
large absent key returned another key's value and Replace and RemoveWhere
changed it. A backward range starting between two keys yielded the key above
its start, and one over an empty tree panicked.
---
 tree/bptree/bptree_node.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tree/bptree/bptree_node.go b/tree/bptree/bptree_node.go
index 0b010a4..fa04a1e 100644
--- a/tree/bptree/bptree_node.go
+++ b/tree/bptree/bptree_node.go
@@ -146,7 +146,7 @@ func (self *BpNode) get_end(key types.Hashable) (i int, leaf *BpNode) {
 	end := false
 	i, leaf = self.get_start(key)
 	pi, pleaf := i, leaf
-	for !end && leaf.keys[i].Equals(key) {
+	for !end && i < len(leaf.keys) && leaf.keys[i].Equals(key) {
 		pi, pleaf = i, leaf
 		i, leaf, end = next_location(i, leaf)
 	}
@@ -646,7 +646,9 @@ func (self *BpNode) all_backward() (li loc_iterator) {
 func (self *BpNode) forward(from, to types.Hashable) (li loc_iterator) {
 	j, l := self.get_start(from)
 	end := false
-	j--
+	if j >= len(l.keys) || !l.keys[j].Less(from) {
+		j--
+	}
 	li = func() (i int, leaf *BpNode, next loc_iterator) {
 		j, l, end = next_location(j, l)
 		if end || to.Less(l.keys[j]) {
@@ -659,7 +661,10 @@ func (self *BpNode) forward(from, to types.Hashable) (li loc_iterator) {
 
 func (self *BpNode) backward(from, to types.Hashable) (li loc_iterator) {
 	j, l := self.get_end(from)
-	end := false
+	end := len(l.keys) == 0
+	if !end && from.Less(l.keys[j]) {
+		j, l, end = prev_location(j, l)
+	}
 	li = func() (i int, leaf *BpNode, next loc_iterator) {
 		if end || l.keys[j].Less(to) {
 			return -1, nil, nil
-- 
2.43.0


From d0a8be831bdacad8f92224dd479d8d8a16756da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:02 +0000
Subject: [PATCH 07/26] fix: start backward B+Tree iteration at the end of the
 last run

When the largest key has more duplicates than fit in one leaf, only the
first leaf of the run is reachable from its parent, so iterating backwards
skipped the entries in the others.
---
 tree/bptree/bptree_node.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tree/bptree/bptree_node.go b/tree/bptree/bptree_node.go
index fa04a1e..468e0c5 100644
--- a/tree/bptree/bptree_node.go
+++ b/tree/bptree/bptree_node.go
@@ -628,6 +628,10 @@ func (self *BpNode) all() (li loc_iterator) {
 
 func (self *BpNode) all_backward() (li loc_iterator) {
 	l := self.right_most_leaf()
+	for l.next != nil {
+		// the rest of a run of duplicates has no parent
+		l = l.next
+	}
 	j := len(l.keys)
 	end := false
 	j, l, end = prev_location(j, l)
-- 
2.43.0


From b1cdd6d832cfa29119866091363853a6e6128f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:59 +0000
Subject: [PATCH 08/26] fix: make B+Tree RemoveWhere remove exactly the
 matching entries

The size dropped by one whatever was removed, removing while iterating
skipped the following entry, and when a leaf in a run of duplicates became
empty the parent could drop a leaf that still had entries. Calling it on an
empty tree panicked.

Walk the leaves of the key directly, count the removed entries, and keep the
first leaf that still has entries.
---
 tree/bptree/bptree.go      | 11 ++++++++--
 tree/bptree/bptree_node.go | 43 ++++++++++++++------------------------
 2 files changed, 25 insertions(+), 29 deletions(-)

diff --git a/tree/bptree/bptree.go b/tree/bptree/bptree.go
index bdf3d16..8ee60e3 100644
--- a/tree/bptree/bptree.go
+++ b/tree/bptree/bptree.go
@@ -93,7 +93,14 @@ func (self *BpTree) Range(from, to types.Hashable) (kvi types.KVIterator) {
 
 func (self *BpTree) RemoveWhere(key types.Hashable, where types.WhereFunc) (err error) {
 	ns := self.root.NodeSize()
-	new_root, err := self.root.remove(key, where)
+	removed := 0
+	new_root, err := self.root.remove(key, func(value interface{}) bool {
+		if !where(value) {
+			return false
+		}
+		removed++
+		return true
+	})
 	if err != nil {
 		return err
 	}
@@ -102,7 +109,7 @@ func (self *BpTree) RemoveWhere(key types.Hashable, where types.WhereFunc) (err
 	} else {
 		self.root = new_root
 	}
-	self.size -= 1
+	self.size -= removed
 	return nil
 }
 
diff --git a/tree/bptree/bptree_node.go b/tree/bptree/bptree_node.go
index 468e0c5..1116d1e 100644
--- a/tree/bptree/bptree_node.go
+++ b/tree/bptree/bptree_node.go
@@ -463,13 +463,13 @@ func (self *BpNode) put_pointer_at(i int, pointer *BpNode) error {
 
 func (self *BpNode) remove(key types.Hashable, where types.WhereFunc) (a *BpNode, err error) {
 	if self.Internal() {
-		return self.internal_remove(key, nil, where)
+		return self.internal_remove(key, where)
 	} else {
-		return self.leaf_remove(key, self.keys[len(self.keys)-1], where)
+		return self.leaf_remove(key, where)
 	}
 }
 
-func (self *BpNode) internal_remove(key types.Hashable, sibling *BpNode, where types.WhereFunc) (a *BpNode, err error) {
+func (self *BpNode) internal_remove(key types.Hashable, where types.WhereFunc) (a *BpNode, err error) {
 	if !self.Internal() {
 		panic(errors.BpTreeError("Expected a internal node"))
 	}
@@ -479,20 +479,11 @@ func (self *BpNode) internal_remove(key types.Hashable, sibling *BpNode, where t
 		// so we have to subtract one from the index.
 		i--
 	}
-	if i+1 < len(self.keys) {
-		sibling = self.pointers[i+1]
-	} else if sibling != nil {
-		sibling = sibling.left_most_leaf()
-	}
 	child := self.pointers[i]
 	if child.Internal() {
-		child, err = child.internal_remove(key, sibling, where)
+		child, err = child.internal_remove(key, where)
 	} else {
-		if sibling == nil {
-			child, err = child.leaf_remove(key, nil, where)
-		} else {
-			child, err = child.leaf_remove(key, sibling.keys[0], where)
-		}
+		child, err = child.leaf_remove(key, where)
 	}
 	if err != nil {
 		return nil, err
@@ -514,13 +505,18 @@ func (self *BpNode) internal_remove(key types.Hashable, sibling *BpNode, where t
 	return self, nil
 }
 
-func (self *BpNode) leaf_remove(key, stop types.Hashable, where types.WhereFunc) (a *BpNode, err error) {
+func (self *BpNode) leaf_remove(key types.Hashable, where types.WhereFunc) (a *BpNode, err error) {
 	if self.Internal() {
 		return nil, errors.BpTreeError("Expected a leaf node")
 	}
-	a = self
-	for j, l, next := self.forward(key, key)(); next != nil; j, l, next = next() {
-		if where(l.values[j]) {
+	// the parent only points to the first leaf of a run of duplicates, so the
+	// first leaf of the run which still has entries takes its place.
+	for l := self; l != nil && (l == self || l.keys[0].Equals(key)); l = l.next {
+		for j := 0; j < len(l.keys); {
+			if !l.keys[j].Equals(key) || !where(l.values[j]) {
+				j++
+				continue
+			}
 			if err := l.remove_key_at(j); err != nil {
 				return nil, err
 			}
@@ -530,15 +526,8 @@ func (self *BpNode) leaf_remove(key, stop types.Hashable, where types.WhereFunc)
 		}
 		if len(l.keys) == 0 {
 			remove_linked_list_node(l)
-			if l.next == nil {
-				a = nil
-			} else if stop == nil {
-				a = nil
-			} else if !l.next.keys[0].Equals(stop) {
-				a = l.next
-			} else {
-				a = nil
-			}
+		} else if a == nil {
+			a = l
 		}
 	}
 	return a, nil
-- 
2.43.0


From 6ec7788369c558547a6a188043b8de22cf01347d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:58 +0000
Subject: [PATCH 09/26] fix: keep runs of duplicates contiguous in the B+Tree

After a removal made room in the first leaf of a run of duplicates, adding a
larger key put it into that leaf, in front of the rest of the run. The keys
were then out of order and lookups and counts missed entries. Split as for a
full leaf instead.
---
 tree/bptree/bptree_node.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tree/bptree/bptree_node.go b/tree/bptree/bptree_node.go
index 1116d1e..0fbc356 100644
--- a/tree/bptree/bptree_node.go
+++ b/tree/bptree/bptree_node.go
@@ -288,7 +288,10 @@ func (self *BpNode) leaf_insert(key types.Hashable, value interface{}) (a, b *Bp
 			return self, nil, nil
 		}
 	}
-	if self.Full() {
+	// a leaf which starts a run of duplicates can not take another key, even if
+	// a removal made room in it.
+	in_run := self.next != nil && len(self.keys) > 0 && self.next.keys[0].Equals(self.keys[0])
+	if self.Full() || (in_run && !self.keys[0].Equals(key)) {
 		return self.leaf_split(key, value)
 	} else {
 		if err := self.put_kv(key, value); err != nil {
-- 
2.43.0


From be97f7e27a4c2e4545f2a2ebc58c547b14fd5d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:46 +0000
Subject: [PATCH 10/26] fix: keep trie keys apart from the caller's buffers

Put, Get and Remove appended the end marker to the caller's slice. With
spare capacity that overwrote the caller's bytes and stored a key sharing
the caller's memory. Keys handed out by iterators also shared capacity
with the stored key, so extending one overwrote the stored end marker.
---
 trie/tst.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/trie/tst.go b/trie/tst.go
index b9fd65e..0e71b56 100644
--- a/trie/tst.go
+++ b/trie/tst.go
@@ -38,7 +38,7 @@ func (self *TST) Put(key []byte, value interface{}) (err error) {
 	if err := self.ValidateKey(key); err != nil {
 		return err
 	}
-	symbol := append(key, END)
+	symbol := append(key[:len(key):len(key)], END)
 	node, err := self.heads[symbol[0]].insert(symbol, value, 1)
 	if err != nil {
 		return err
@@ -62,7 +62,7 @@ func (self *TST) Get(key []byte) (value interface{}, err error) {
 	if err := self.ValidateKey(key); err != nil {
 		return nil, err
 	}
-	symbol := append(key, END)
+	symbol := append(key[:len(key):len(key)], END)
 	next := &entry{self.heads[symbol[0]], 1}
 	for next != nil {
 		if next.n == nil {
@@ -90,7 +90,7 @@ func (self *TST) Remove(key []byte) (value interface{}, err error) {
 	if err := self.ValidateKey(key); err != nil {
 		return nil, err
 	}
-	symbol := ByteSlice(append(key, END))
+	symbol := ByteSlice(append(key[:len(key):len(key)], END))
 	check := func(n *TSTNode, err error) (*TSTNode, error) {
 		if err != nil {
 			return nil, err
@@ -193,7 +193,7 @@ func (self *TST) PrefixFind(prefix ByteSlice) KVIterator {
 			}
 			n := tn.(*TSTNode)
 			if n.accepting {
-				return n.key[:len(n.key)-1], n.value, kv_iterator
+				return n.key[: len(n.key)-1 : len(n.key)-1], n.value, kv_iterator
 			}
 		}
 	}
@@ -221,7 +221,7 @@ func (self *TST) Iterate() KVIterator {
 			}
 			n := tn.(*TSTNode)
 			if n.accepting {
-				return n.key[:len(n.key)-1], n.value, kv_iterator
+				return n.key[: len(n.key)-1 : len(n.key)-1], n.value, kv_iterator
 			}
 		}
 	}
-- 
2.43.0


From d03bc330e513a97a0280bbd360c06d6fb1000019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:46 +0000
Subject: [PATCH 11/26] fix: trie prefix search with a prefix longer than the
 key it meets

PrefixFind sliced the stored key past its end. That panicked, or matched
a prefix ending in the null end marker.
---
 trie/tst.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/tst.go b/trie/tst.go
index 0e71b56..50f9c3f 100644
--- a/trie/tst.go
+++ b/trie/tst.go
@@ -170,7 +170,7 @@ func (self *TST) PrefixFind(prefix ByteSlice) KVIterator {
 			} else if ch > next.n.ch {
 				next = &entry{next.n.r, next.d}
 			}
-		} else if next.n.accepting && next.n.key[:len(prefix)].Equals(prefix) {
+		} else if next.n.accepting && len(prefix) < len(next.n.key) && next.n.key[:len(prefix)].Equals(prefix) {
 			root = next.n
 			break
 		} else {
-- 
2.43.0


From 0048ec78d2b62e6116bd0050b4277833b30ed6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:46 +0000
Subject: [PATCH 12/26] fix: drop a trie head node once its last key is removed

An empty head node was left behind, and every later Put of a key starting
with the same byte failed.
---
 trie/tst.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/tst.go b/trie/tst.go
index 50f9c3f..52a3a17 100644
--- a/trie/tst.go
+++ b/trie/tst.go
@@ -136,7 +136,7 @@ func (self *TST) Remove(key []byte) (value interface{}, err error) {
 		}
 		return n, nil
 	}
-	n, err := remove(self.heads[symbol[0]], 1)
+	n, err := check(remove(self.heads[symbol[0]], 1))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 60b3b9d400ecc55191ad1022dfd75238a3e1f112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:54 +0000
Subject: [PATCH 13/26] fix: put a trie key back after it was removed

Putting back a key which is a prefix of another stored key dereferenced
the nil slot left by its removal.
---
 trie/tst_node.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trie/tst_node.go b/trie/tst_node.go
index b997a9f..315be11 100644
--- a/trie/tst_node.go
+++ b/trie/tst_node.go
@@ -168,7 +168,9 @@ func (n *TSTNode) insert(key ByteSlice, val interface{}, d int) (*TSTNode, error
 			}
 			n.l = l
 		} else if ch == n.ch {
-			if d+1 == len(key) && ch == END {
+			if d+1 == len(key) && ch == END && n.m == nil {
+				n.m = NewAcceptingTSTNode(ch, key, val)
+			} else if d+1 == len(key) && ch == END {
 				n.m = n.m.Copy()
 				n.m.value = val
 			} else {
-- 
2.43.0


From 4ae16a92092b0a4c193413f10de0c7e666ce63fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:07 +0000
Subject: [PATCH 14/26] fix: replace the value when putting an existing key
 into a map set

Put added the entry as a set item, so an entry with an equal key stayed
and the new value was lost.
---
 set/mapset.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/set/mapset.go b/set/mapset.go
index 20869e1..edf01f7 100644
--- a/set/mapset.go
+++ b/set/mapset.go
@@ -84,7 +84,13 @@ func (m *MapSet) Add(item types.Hashable) (err error) {
 }
 
 func (m *MapSet) Put(key types.Hashable, value interface{}) (err error) {
-	return m.Add(&types.MapEntry{key, value})
+	entry := &types.MapEntry{key, value}
+	if m.Set.Has(entry) {
+		if err := m.Set.Delete(entry); err != nil {
+			return err
+		}
+	}
+	return m.Add(entry)
 }
 
 func (m *MapSet) Get(key types.Hashable) (value interface{}, err error) {
-- 
2.43.0


From eab3c791605fbd14c724c7d54d6a8196e782c10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:31 +0000
Subject: [PATCH 15/26] fix: marshal one byte integers without panicking

Int8 and UInt8 wrote into an empty slice.
---
 types/int.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/int.go b/types/int.go
index 3431e04..8e9f06e 100644
--- a/types/int.go
+++ b/types/int.go
@@ -20,7 +20,7 @@ type Int int
 type UInt uint
 
 func (self *Int8) MarshalBinary() ([]byte, error) {
-	bytes := make([]byte, 0)
+	bytes := make([]byte, 1)
 	bytes[0] = uint8(*self)
 	return bytes, nil
 }
@@ -54,7 +54,7 @@ func (self Int8) Hash() int {
 }
 
 func (self *UInt8) MarshalBinary() ([]byte, error) {
-	bytes := make([]byte, 0)
+	bytes := make([]byte, 1)
 	bytes[0] = uint8(*self)
 	return bytes, nil
 }
-- 
2.43.0


From d555e0f347c4926fbdc88486e434f742e0c064f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:31 +0000
Subject: [PATCH 16/26] fix: marshal all 64 bits of Int and UInt

Only the low 32 bits were written, so negative and large values came back
as other numbers.
---
 types/int.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/types/int.go b/types/int.go
index 8e9f06e..077d3c1 100644
--- a/types/int.go
+++ b/types/int.go
@@ -292,16 +292,16 @@ func (self UInt64) Hash() int {
 }
 
 func (self *Int) MarshalBinary() ([]byte, error) {
-	bytes := make([]byte, 4)
-	binary.BigEndian.PutUint32(bytes, uint32(*self))
+	bytes := make([]byte, 8)
+	binary.BigEndian.PutUint64(bytes, uint64(*self))
 	return bytes, nil
 }
 
 func (self *Int) UnmarshalBinary(data []byte) error {
-	if len(data) != 4 {
+	if len(data) != 8 {
 		return errors.Errorf("data wrong size")
 	}
-	*self = Int(binary.BigEndian.Uint32(data))
+	*self = Int(binary.BigEndian.Uint64(data))
 	return nil
 }
 
@@ -326,16 +326,16 @@ func (self Int) Hash() int {
 }
 
 func (self *UInt) MarshalBinary() ([]byte, error) {
-	bytes := make([]byte, 4)
-	binary.BigEndian.PutUint32(bytes, uint32(*self))
+	bytes := make([]byte, 8)
+	binary.BigEndian.PutUint64(bytes, uint64(*self))
 	return bytes, nil
 }
 
 func (self *UInt) UnmarshalBinary(data []byte) error {
-	if len(data) != 4 {
+	if len(data) != 8 {
 		return errors.Errorf("data wrong size")
 	}
-	*self = UInt(binary.BigEndian.Uint32(data))
+	*self = UInt(binary.BigEndian.Uint64(data))
 	return nil
 }
 
-- 
2.43.0


From 80e952592da3f4ab6a59390aca33349bbb7731ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:31 +0000
Subject: [PATCH 17/26] fix: copy the bytes when unmarshalling a byte slice

The decoded value kept using the caller's buffer, so reusing the buffer
changed it.
---
 types/string.go | 2 +-
 types/util.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/string.go b/types/string.go
index d58393b..7fe31ec 100644
--- a/types/string.go
+++ b/types/string.go
@@ -44,7 +44,7 @@ func (self *ByteSlice) MarshalBinary() ([]byte, error) {
 }
 
 func (self *ByteSlice) UnmarshalBinary(data []byte) error {
-	*self = ByteSlice(data)
+	*self = append(ByteSlice{}, data...)
 	return nil
 }
 
diff --git a/types/util.go b/types/util.go
index c489714..823ff6a 100644
--- a/types/util.go
+++ b/types/util.go
@@ -318,7 +318,7 @@ func ByteSliceMarshals() (ItemMarshal, ItemUnmarshal) {
 		return []byte(item.(ByteSlice)), nil
 	}
 	unmarshal := func(bytes []byte) (Hashable, error) {
-		return ByteSlice(bytes), nil
+		return append(ByteSlice{}, bytes...), nil
 	}
 	return marshal, unmarshal
 }
-- 
2.43.0


From f7d07e4276086daa8a20a9608c3470eabf9a50ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:31 +0000
Subject: [PATCH 18/26] fix: report truncated list data instead of panicking

Decoding sliced past the end of the data. If the slice had capacity behind
it the missing items were read from there without an error.
---
 list/array_list.go | 9 +++++++++
 list/sorted.go     | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/list/array_list.go b/list/array_list.go
index a27096a..65f8baf 100644
--- a/list/array_list.go
+++ b/list/array_list.go
@@ -56,6 +56,9 @@ func (m *MList) MarshalBinary() ([]byte, error) {
 }
 
 func (m *MList) UnmarshalBinary(bytes []byte) error {
+	if len(bytes) < 9 {
+		return errors.Errorf("data too short for a list, %d bytes", len(bytes))
+	}
 	m.List.fixed = bytes[0] == 1
 	_cap := int(binary.LittleEndian.Uint32(bytes[1:5]))
 	size := int(binary.LittleEndian.Uint32(bytes[5:9]))
@@ -64,9 +67,15 @@ func (m *MList) UnmarshalBinary(bytes []byte) error {
 	for i := 0; i < size; i++ {
 		s := off
 		e := off + 4
+		if e > len(bytes) {
+			return errors.Errorf("data ends before item %d", i)
+		}
 		size := int(binary.LittleEndian.Uint32(bytes[s:e]))
 		s = e
 		e = s + size
+		if e > len(bytes) {
+			return errors.Errorf("data ends inside item %d", i)
+		}
 		item, err := m.UnmarshalItem(bytes[s:e])
 		if err != nil {
 			return err
diff --git a/list/sorted.go b/list/sorted.go
index 5e7c862..76ec735 100644
--- a/list/sorted.go
+++ b/list/sorted.go
@@ -41,6 +41,9 @@ func (m *MSorted) MarshalBinary() ([]byte, error) {
 }
 
 func (m *MSorted) UnmarshalBinary(bytes []byte) error {
+	if len(bytes) < 1 {
+		return errors.Errorf("data too short for a sorted list, %d bytes", len(bytes))
+	}
 	allowDups := bytes[0]
 	if allowDups == 0 {
 		m.AllowDups = false
-- 
2.43.0


From 012fc46ddfb7f18593f9e7d0b5640ffe3587f817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:58 +0000
Subject: [PATCH 19/26] fix: return nil when popping an empty unique priority
 queue

---
 heap/unique.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/heap/unique.go b/heap/unique.go
index d8014ec..9ebab1c 100644
--- a/heap/unique.go
+++ b/heap/unique.go
@@ -48,6 +48,9 @@ func (u *UniquePQ) Peek() interface{} {
 
 // Get and remove the top element
 func (u *UniquePQ) Pop() interface{} {
+	if u.pq.Size() == 0 {
+		return nil
+	}
 	item := u.pq.Pop().(types.Hashable)
 	u.set.Delete(item)
 	return item
-- 
2.43.0


From 39ac7080361449f858a9eb468e8db4a09106000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:22 +0000
Subject: [PATCH 20/26] fix: hash empty containers of every list kind alike

---
 list/array_list.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/list/array_list.go b/list/array_list.go
index 65f8baf..f80621d 100644
--- a/list/array_list.go
+++ b/list/array_list.go
@@ -257,10 +257,15 @@ func (l *List) Hash() int {
 
 func Hash(a types.ListIterable) int {
 	h := fnv.New32a()
+	empty := true
 	bs := make([]byte, 4)
 	for item, next := a.Items()(); next != nil; item, next = next() {
 		binary.LittleEndian.PutUint32(bs, uint32(item.Hash()))
 		h.Write(bs)
+		empty = false
+	}
+	if empty {
+		return 0
 	}
 	return int(h.Sum32())
 }
-- 
2.43.0


From 3c046bf10d095e612628ad50a78ea4902e58caad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:19:06 +0000
Subject: [PATCH 21/26] fix: traverse empty trees in pre-order and post-order
 without panicking

---
 tree/util.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tree/util.go b/tree/util.go
index 0b86171..f7f17b9 100644
--- a/tree/util.go
+++ b/tree/util.go
@@ -48,7 +48,10 @@ func TraverseBinaryTreeInOrder(node types.BinaryTreeNode) types.TreeNodeIterator
 }
 
 func TraverseTreePreOrder(node types.TreeNode) types.TreeNodeIterator {
-	stack := append(make([]types.TreeNode, 0, 10), tn_expose_nil(node))
+	stack := make([]types.TreeNode, 0, 10)
+	if tn := tn_expose_nil(node); tn != nil {
+		stack = append(stack, tn)
+	}
 	var tn_iterator types.TreeNodeIterator
 	tn_iterator = func() (tn types.TreeNode, next types.TreeNodeIterator) {
 		if len(stack) <= 0 {
@@ -86,7 +89,10 @@ func TraverseTreePostOrder(node types.TreeNode) types.TreeNodeIterator {
 		}
 	}
 
-	stack := append(make([]entry, 0, 10), entry{tn_expose_nil(node), 0})
+	stack := make([]entry, 0, 10)
+	if tn := tn_expose_nil(node); tn != nil {
+		stack = append(stack, entry{tn, 0})
+	}
 
 	var tn_iterator types.TreeNodeIterator
 	tn_iterator = func() (tn types.TreeNode, next types.TreeNodeIterator) {
-- 
2.43.0


From 697b059901bff8bbe90f2a491053381d0d61e81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:23 +0000
Subject: [PATCH 22/26] fix: run the remaining finally functions after one of
 them throws

An exception thrown by a finally function left the block as a panic even
when the block was run with Error or Exception, and skipped the finally
functions declared after it.
---
 exc/block.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exc/block.go b/exc/block.go
index 6543f4f..dfc078a 100644
--- a/exc/block.go
+++ b/exc/block.go
@@ -144,7 +144,9 @@ func (b *Block) run() Throwable {
 		}
 	}
 	for _, finally := range b.finallies {
-		finally()
+		if e := Try(finally).exec(); e != nil {
+			err = e
+		}
 	}
 	return err
 }
-- 
2.43.0


From 39a29fbdbb9f93dee0834450c169b513c1b6fd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:23 +0000
Subject: [PATCH 23/26] fix: keep the type of a custom exception when
 rethrowing it

---
 exc/exception.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/exc/exception.go b/exc/exception.go
index f06db2f..7bef2e7 100644
--- a/exc/exception.go
+++ b/exc/exception.go
@@ -169,7 +169,12 @@ func Throw(e Throwable) {
 //    }).Unwind()
 //
 func Rethrow(e Throwable, err *Error) {
-	throw(e.Chain(err))
+	t := e.Chain(err)
+	if x, ok := t.(*Exception); ok && x == e.Exc() {
+		// a Chain inherited from Exception returns the embedded *Exception
+		t = e
+	}
+	throw(t)
 }
 
 func throw(e Throwable) {
-- 
2.43.0


From 9dc083b1771804a7c9eccd0e3804f83338d68a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:23 +0000
Subject: [PATCH 24/26] fix: do not close the previous resource when a close
 block is run again

---
 exc/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exc/block.go b/exc/block.go
index dfc078a..33ea462 100644
--- a/exc/block.go
+++ b/exc/block.go
@@ -46,8 +46,8 @@ func Try(try func()) *Block {
 // returned. There are also ways to deal with that situation using an outer
 // Try/Finally.
 func Close(makeCloser func() io.Closer, try func(io.Closer)) *Block {
-	var c io.Closer = nil
 	return Try(func() {
+		var c io.Closer = nil
 		Try(func() {
 			c = makeCloser()
 			try(c)
-- 
2.43.0


From dbb57767641a2ea6cd04ddd5b2aeba04a8545018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:04 +0000
Subject: [PATCH 25/26] fix: count pool workers before starting them so that
 Stop waits for all

---
 pool/pool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pool/pool.go b/pool/pool.go
index 5e919e7..0efbbf1 100644
--- a/pool/pool.go
+++ b/pool/pool.go
@@ -29,6 +29,7 @@ func New(n int) *Pool {
 			workin: &pool.workin,
 			workCond: pool.workCond,
 		}
+		pool.wg.Add(1)
 		go w.work()
 		pool.workers = append(pool.workers, w)
 	}
@@ -108,7 +109,6 @@ type worker struct {
 }
 
 func (w *worker) work() {
-	w.wg.Add(1)
 	for f := range w.in {
 		f()
 		w.workCond.L.Lock()
-- 
2.43.0


From b0e12be0c5b6364883d906d705a3f41ac5daa35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:11:25 +0000
Subject: [PATCH 26/26] fix: keep AVL trees balanced when a removal rebalances
 a skewed side

A double rotation rotated its inner child with another double rotation, so
a subtree could lose two levels in one removal. The node above it then ended
up with sides three levels apart. The inner rotation is now a single one.
---
 tree/avl/avltree.go     | 12 ++++++------
 tree/avl/imm_avltree.go | 13 +++++++------
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/tree/avl/avltree.go b/tree/avl/avltree.go
index ea47aee..4e96e20 100644
--- a/tree/avl/avltree.go
+++ b/tree/avl/avltree.go
@@ -148,9 +148,6 @@ func (self *AvlNode) rotate_right() *AvlNode {
 	if self.left == nil {
 		return self
 	}
-	if self.left.left.Height() < self.left.right.Height() {
-		self.left = self.left.rotate_left()
-	}
 	new_root := self.left
 	self.left = new_root.right
 	new_root.right = self
@@ -166,9 +163,6 @@ func (self *AvlNode) rotate_left() *AvlNode {
 	if self.right == nil {
 		return self
 	}
-	if self.right.right.Height() < self.right.left.Height() {
-		self.right = self.right.rotate_right()
-	}
 	new_root := self.right
 	self.right = new_root.left
 	new_root.left = self
@@ -183,8 +177,14 @@ func (self *AvlNode) balance() *AvlNode {
 	}
 	for abs(self.left.Height()-self.right.Height()) > 2 {
 		if self.left.Height() > self.right.Height() {
+			if self.left.left.Height() < self.left.right.Height() {
+				self.left = self.left.rotate_left()
+			}
 			self = self.rotate_right()
 		} else {
+			if self.right.right.Height() < self.right.left.Height() {
+				self.right = self.right.rotate_right()
+			}
 			self = self.rotate_left()
 		}
 	}
diff --git a/tree/avl/imm_avltree.go b/tree/avl/imm_avltree.go
index 3fe3896..401d82b 100644
--- a/tree/avl/imm_avltree.go
+++ b/tree/avl/imm_avltree.go
@@ -152,9 +152,6 @@ func (self *ImmutableAvlNode) rotate_right() *ImmutableAvlNode {
 	}
 	self = self.Copy()
 	new_root := self.left.Copy()
-	if new_root.left.Height() < new_root.right.Height() {
-		new_root = new_root.rotate_left()
-	}
 	self.left = new_root.right
 	new_root.right = self
 	self.height = max(self.left.Height(), self.right.Height()) + 1
@@ -171,9 +168,6 @@ func (self *ImmutableAvlNode) rotate_left() *ImmutableAvlNode {
 	}
 	self = self.Copy()
 	new_root := self.right.Copy()
-	if new_root.right.Height() < new_root.left.Height() {
-		new_root = new_root.rotate_right()
-	}
 	self.right = new_root.left
 	new_root.left = self
 	self.height = max(self.left.Height(), self.right.Height()) + 1
@@ -186,9 +180,16 @@ func (self *ImmutableAvlNode) balance() *ImmutableAvlNode {
 		return self
 	}
 	for abs(self.left.Height()-self.right.Height()) > 2 {
+		self = self.Copy()
 		if self.left.Height() > self.right.Height() {
+			if self.left.left.Height() < self.left.right.Height() {
+				self.left = self.left.rotate_left()
+			}
 			self = self.rotate_right()
 		} else {
+			if self.right.right.Height() < self.right.left.Height() {
+				self.right = self.right.rotate_right()
+			}
 			self = self.rotate_left()
 		}
 	}
-- 
2.43.0

