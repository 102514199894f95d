From 08deedffb711083e85403e7cee35bd205128aebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:33 +0000
Subject: [PATCH 01/21] fix: count up to 256 children per node

The child count was an 8-bit integer, so a node with a child for every byte
value wrapped around to zero children.
---
 node.go      | 4 ++--
 node_16.go   | 6 +++---
 node_256.go  | 6 +++---
 node_4.go    | 6 +++---
 node_48.go   | 6 +++---
 node_leaf.go | 4 ++--
 txn.go       | 2 +-
 7 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/node.go b/node.go
index b62b386..552f89c 100644
--- a/node.go
+++ b/node.go
@@ -9,8 +9,8 @@ type Node[T any] interface {
 	getPartialLen() uint32
 	setPartialLen(uint32)
 	getArtNodeType() nodeType
-	getNumChildren() uint8
-	setNumChildren(uint8)
+	getNumChildren() uint16
+	setNumChildren(uint16)
 	getPartial() []byte
 	setPartial([]byte)
 	isLeaf() bool
diff --git a/node_16.go b/node_16.go
index b230a54..b9d8fc8 100644
--- a/node_16.go
+++ b/node_16.go
@@ -12,7 +12,7 @@ import (
 type Node16[T any] struct {
 	id          uint64
 	partialLen  uint32
-	numChildren uint8
+	numChildren uint16
 	partial     []byte
 	keys        [16]byte
 	children    [16]Node[T]
@@ -40,11 +40,11 @@ func (n *Node16[T]) getArtNodeType() nodeType {
 	return node16
 }
 
-func (n *Node16[T]) getNumChildren() uint8 {
+func (n *Node16[T]) getNumChildren() uint16 {
 	return n.numChildren
 }
 
-func (n *Node16[T]) setNumChildren(numChildren uint8) {
+func (n *Node16[T]) setNumChildren(numChildren uint16) {
 	n.numChildren = numChildren
 }
 
diff --git a/node_256.go b/node_256.go
index 5ad5db3..f465bbd 100644
--- a/node_256.go
+++ b/node_256.go
@@ -10,7 +10,7 @@ import (
 type Node256[T any] struct {
 	id          uint64
 	partialLen  uint32
-	numChildren uint8
+	numChildren uint16
 	partial     []byte
 	children    [256]Node[T]
 	mutateCh    atomic.Pointer[chan struct{}]
@@ -45,11 +45,11 @@ func (n *Node256[T]) getArtNodeType() nodeType {
 	return node256
 }
 
-func (n *Node256[T]) getNumChildren() uint8 {
+func (n *Node256[T]) getNumChildren() uint16 {
 	return n.numChildren
 }
 
-func (n *Node256[T]) setNumChildren(numChildren uint8) {
+func (n *Node256[T]) setNumChildren(numChildren uint16) {
 	n.numChildren = numChildren
 }
 
diff --git a/node_4.go b/node_4.go
index a5f818c..024a51b 100644
--- a/node_4.go
+++ b/node_4.go
@@ -12,7 +12,7 @@ import (
 type Node4[T any] struct {
 	id          uint64
 	partialLen  uint32
-	numChildren uint8
+	numChildren uint16
 	partial     []byte
 	keys        [4]byte
 	children    [4]Node[T]
@@ -40,11 +40,11 @@ func (n *Node4[T]) getArtNodeType() nodeType {
 	return node4
 }
 
-func (n *Node4[T]) getNumChildren() uint8 {
+func (n *Node4[T]) getNumChildren() uint16 {
 	return n.numChildren
 }
 
-func (n *Node4[T]) setNumChildren(numChildren uint8) {
+func (n *Node4[T]) setNumChildren(numChildren uint16) {
 	n.numChildren = numChildren
 }
 
diff --git a/node_48.go b/node_48.go
index 5a6949c..1e3af26 100644
--- a/node_48.go
+++ b/node_48.go
@@ -11,7 +11,7 @@ import (
 type Node48[T any] struct {
 	id          uint64
 	partialLen  uint32
-	numChildren uint8
+	numChildren uint16
 	partial     []byte
 	keys        [256]byte
 	children    [48]Node[T]
@@ -39,11 +39,11 @@ func (n *Node48[T]) getArtNodeType() nodeType {
 	return node48
 }
 
-func (n *Node48[T]) getNumChildren() uint8 {
+func (n *Node48[T]) getNumChildren() uint16 {
 	return n.numChildren
 }
 
-func (n *Node48[T]) setNumChildren(numChildren uint8) {
+func (n *Node48[T]) setNumChildren(numChildren uint16) {
 	n.numChildren = numChildren
 }
 
diff --git a/node_leaf.go b/node_leaf.go
index 0039e6d..346b7e3 100644
--- a/node_leaf.go
+++ b/node_leaf.go
@@ -36,11 +36,11 @@ func (n *NodeLeaf[T]) getArtNodeType() nodeType {
 	return leafType
 }
 
-func (n *NodeLeaf[T]) getNumChildren() uint8 {
+func (n *NodeLeaf[T]) getNumChildren() uint16 {
 	return 0
 }
 
-func (n *NodeLeaf[T]) setNumChildren(numChildren uint8) {
+func (n *NodeLeaf[T]) setNumChildren(numChildren uint16) {
 	// no-op
 }
 
diff --git a/txn.go b/txn.go
index ad6c6be..401598f 100644
--- a/txn.go
+++ b/txn.go
@@ -511,7 +511,7 @@ func (t *Txn[T]) deletePrefix(node Node[T], key []byte, depth int) (Node[T], int
 	for itr := slow; itr < len(node.getChildren()); itr++ {
 		node.setChild(itr, nil)
 	}
-	node.setNumChildren(uint8(numCh))
+	node.setNumChildren(uint16(numCh))
 
 	return node, numDel
 }
-- 
2.43.0


From 236c8faf99adef92eee1aefc7f1c6659803e4f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:38 +0000
Subject: [PATCH 02/21] fix: clear the freed slot when a child is removed

Removing a child from a node4 or node16 shifted the remaining children but
left a stale pointer in the last slot, so walks over all slots visited the last
child twice.
---
 helpers.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/helpers.go b/helpers.go
index 9cb0cd5..daa1faa 100644
--- a/helpers.go
+++ b/helpers.go
@@ -385,10 +385,7 @@ func (t *Txn[T]) removeChild4(n Node[T], c byte) Node[T] {
 		n.setChild(slow, children[itr])
 		slow += 1
 	}
-	for ; itr < len(n.getChildren()); itr++ {
-		if n.getChild(itr) != nil {
-			t.trackChannel(n.getChild(itr))
-		}
+	for itr = slow; itr < len(n.getChildren()); itr++ {
 		n.setChild(itr, nil)
 	}
 
@@ -436,10 +433,7 @@ func (t *Txn[T]) removeChild16(n Node[T], c byte) Node[T] {
 		n.setChild(slow, children[itr])
 		slow += 1
 	}
-	for ; itr < len(n.getChildren()); itr++ {
-		if n.getChild(itr) != nil {
-			t.trackChannel(n.getChild(itr))
-		}
+	for itr = slow; itr < len(n.getChildren()); itr++ {
 		n.setChild(itr, nil)
 	}
 	n.setNumChildren(n.getNumChildren() - 1)
-- 
2.43.0


From 2e10404741b3707e9b618fb36ba61145bcae5a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:55 +0000
Subject: [PATCH 03/21] fix: deleting a missing key must not change the tree

When the search for the key ended at a node without a matching child, delete
returned nil for that node, which dropped the whole subtree. It also indexed
past the end of keys that are shorter than the path.
---
 txn.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/txn.go b/txn.go
index 401598f..15a947f 100644
--- a/txn.go
+++ b/txn.go
@@ -323,10 +323,15 @@ func (t *Txn[T]) recursiveDelete(node Node[T], key []byte, depth int) (Node[T],
 		depth += int(node.getPartialLen())
 	}
 
+	// The key ends before any child of this node
+	if depth >= len(key) {
+		return node, nil, false
+	}
+
 	// Find child node
 	child, idx := t.findChild(node, key[depth])
 	if child == nil {
-		return nil, nil, false
+		return node, nil, false
 	}
 
 	// Recurse
-- 
2.43.0


From 57ddc47f6ac38a4739ca102b869d73397ea6b9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:02 +0000
Subject: [PATCH 04/21] fix: report updates of keys stored on inner nodes

Overwriting a key that is a prefix of other keys was reported as a new
insertion: the old value was not returned and the length grew.
---
 txn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/txn.go b/txn.go
index 15a947f..e0f2c62 100644
--- a/txn.go
+++ b/txn.go
@@ -163,11 +163,13 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 	}
 
 	if node.getNodeLeaf() != nil && leafMatches(node.getNodeLeaf().getKey(), key) == 0 {
+		*old = 1
+		oldVal := node.getNodeLeaf().getValue()
 		newLeaf := t.writeNode(node.getNodeLeaf(), true)
 		newLeaf.setValue(value)
 		node = t.writeNode(node, true)
 		node.setNodeLeaf(newLeaf.(*NodeLeaf[T]))
-		return node, zero, true
+		return node, oldVal, true
 	}
 
 	// Check if given node has a prefix
-- 
2.43.0


From 3efca2e8cfb4e25b600ed7fc08b43f359bcf0290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:21 +0000
Subject: [PATCH 05/21] fix: do not store a placeholder leaf in empty trees

The root of an empty tree carried a leaf without a key, which Minimum, Maximum,
LongestPrefix, Walk and the iterators reported as an entry.
---
 helpers.go |  8 ++++++++
 tree.go    |  6 +-----
 txn.go     | 17 ++---------------
 3 files changed, 11 insertions(+), 20 deletions(-)

diff --git a/helpers.go b/helpers.go
index daa1faa..157643d 100644
--- a/helpers.go
+++ b/helpers.go
@@ -209,6 +209,10 @@ func minimum[T any](node Node[T]) *NodeLeaf[T] {
 		}
 		return node.getNodeLeaf()
 	}
+	if node.getNumChildren() == 0 {
+		// Empty tree
+		return nil
+	}
 
 	var idx int
 	switch node.getArtNodeType() {
@@ -264,6 +268,10 @@ func maximum[T any](node Node[T]) *NodeLeaf[T] {
 		}
 		return node.getNodeLeaf()
 	}
+	if node.getNumChildren() == 0 {
+		// Empty tree
+		return nil
+	}
 
 	var idx int
 	switch node.getArtNodeType() {
diff --git a/tree.go b/tree.go
index b844df6..acabc35 100644
--- a/tree.go
+++ b/tree.go
@@ -34,12 +34,8 @@ type WalkFn[T any] func(k []byte, v T) bool
 
 func NewRadixTree[T any]() *RadixTree[T] {
 	rt := &RadixTree[T]{size: 0, maxNodeId: 0}
-	rt.root = &Node4[T]{
-		leaf: &NodeLeaf[T]{},
-	}
+	rt.root = &Node4[T]{}
 	rt.root.setId(rt.maxNodeId)
-	rt.root.getNodeLeaf().setId(rt.maxNodeId + 1)
-	rt.maxNodeId++
 	return rt
 }
 
diff --git a/txn.go b/txn.go
index e0f2c62..f04e7bf 100644
--- a/txn.go
+++ b/txn.go
@@ -268,13 +268,7 @@ func (t *Txn[T]) Delete(key []byte) (T, bool) {
 	newRoot, l, _ := t.recursiveDelete(t.tree.root, getTreeKey(key), 0)
 
 	if newRoot == nil {
-		t.tree.root = &Node4[T]{
-			leaf: &NodeLeaf[T]{
-				id: t.tree.maxNodeId + 1,
-			},
-			id: t.tree.maxNodeId,
-		}
-		t.tree.maxNodeId += 2
+		t.tree.root = t.allocNode(node4)
 	} else {
 		t.tree.root = newRoot
 	}
@@ -427,13 +421,7 @@ func (t *Txn[T]) DeletePrefix(prefix []byte) bool {
 	key := getTreeKey(prefix)
 	newRoot, numDeletions := t.deletePrefix(t.tree.root, key, 0)
 	if newRoot == nil {
-		t.tree.root = &Node4[T]{
-			leaf: &NodeLeaf[T]{
-				id: t.tree.maxNodeId + 1,
-			},
-			id: t.tree.maxNodeId,
-		}
-		t.tree.maxNodeId += 2
+		t.tree.root = t.allocNode(node4)
 	} else {
 		t.tree.root = newRoot
 	}
@@ -565,7 +553,6 @@ func (t *Txn[T]) allocNode(ntype nodeType) Node[T] {
 	n.setId(t.tree.maxNodeId)
 	if n.getArtNodeType() != leafType {
 		n.setPartial(make([]byte, maxPrefixLen))
-		n.setPartialLen(maxPrefixLen)
 	}
 	return n
 }
-- 
2.43.0


From 112506c86e5ab9dd215fb14ba214f0a97765f965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:02 +0000
Subject: [PATCH 06/21] fix: never route on the key terminator

Keys carry a '$' terminator, and the terminator byte was compared with node
prefixes and used to select children. Keys that contain '$' or end on an inner
node could overwrite each other, get lost or panic. A key that ends at a node is
now stored on that node, and only the bytes of the key proper select children.
---
 helpers.go |  11 +++--
 tree.go    | 122 ++++++++---------------------------------------------
 txn.go     |  83 +++++++++++++-----------------------
 3 files changed, 53 insertions(+), 163 deletions(-)

diff --git a/helpers.go b/helpers.go
index 157643d..4db655d 100644
--- a/helpers.go
+++ b/helpers.go
@@ -28,15 +28,14 @@ func leafMatches(nodeKey []byte, key []byte) int {
 	return bytes.Compare(nodeKey, key)
 }
 
-// longestCommonPrefix finds the length of the longest common prefix between two leaf nodes.
+// longestCommonPrefix finds the length of the longest common prefix between two
+// leaf nodes, not counting the terminator.
 func longestCommonPrefix[T any](l1, l2 Node[T], depth int) int {
-	maxCmp := len(l2.getKey()) - depth
-	if len(l1.getKey()) < len(l2.getKey()) {
-		maxCmp = int(l1.getKeyLen()) - depth
-	}
+	k1, k2 := getKey(l1.getKey()), getKey(l2.getKey())
+	maxCmp := min(len(k1), len(k2)) - depth
 	var idx int
 	for idx = 0; idx < maxCmp; idx++ {
-		if l1.getKey()[depth+idx] != l2.getKey()[depth+idx] {
+		if k1[depth+idx] != k2[depth+idx] {
 			return idx
 		}
 	}
diff --git a/tree.go b/tree.go
index acabc35..bf61176 100644
--- a/tree.go
+++ b/tree.go
@@ -156,76 +156,33 @@ func (t *RadixTree[T]) iterativeSearch(key []byte) (T, bool) {
 	depth := 0
 
 	for {
-		// Might be a leaf
+		// The key might be stored on this node
+		if nL := n.getNodeLeaf(); nL != nil && leafMatches(nL.getKey(), key) == 0 {
+			return nL.getValue(), true
+		}
 
+		// A leaf has nothing below it
 		if isLeaf[T](n) {
-			// Check if the expanded path matches
-			if n.getArtNodeType() == leafType {
-				if leafMatches(n.getKey(), key) == 0 {
-					return n.getValue(), true
-				}
-			}
-			nL := n.getNodeLeaf()
-			if nL != nil && leafMatches(nL.getKey(), key) == 0 {
-				return nL.getValue(), true
-			}
+			return zero, false
 		}
 
 		// Bail if the prefix does not match
 		if n.getPartialLen() > 0 {
-			prefixLen := checkPrefix(n.getPartial(), int(n.getPartialLen()), key, depth)
+			prefixLen := checkPrefix(n.getPartial(), int(n.getPartialLen()), getKey(key), depth)
 			if prefixLen != min(maxPrefixLen, int(n.getPartialLen())) {
-				if n.getNodeLeaf() != nil {
-					if leafMatches(n.getNodeLeaf().getKey(), key) == 0 {
-						return n.getNodeLeaf().getValue(), true
-					}
-				}
-				for _, ch := range n.getChildren() {
-					if ch != nil && ch.getNodeLeaf() != nil {
-						chNodeLeaf := ch.getNodeLeaf()
-						if leafMatches(chNodeLeaf.getKey(), key) == 0 {
-							return chNodeLeaf.getValue(), true
-						}
-					}
-				}
 				return zero, false
 			}
 			depth += int(n.getPartialLen())
 		}
 
-		if depth >= len(key) {
-			if n.getNodeLeaf() != nil {
-				if leafMatches(n.getNodeLeaf().getKey(), key) == 0 {
-					return n.getNodeLeaf().getValue(), true
-				}
-			}
-			for _, ch := range n.getChildren() {
-				if ch != nil && ch.getNodeLeaf() != nil {
-					chNodeLeaf := ch.getNodeLeaf()
-					if leafMatches(chNodeLeaf.getKey(), key) == 0 {
-						return chNodeLeaf.getValue(), true
-					}
-				}
-			}
+		// Keys ending here were handled above, the terminator selects no child
+		if depth >= len(key)-1 {
 			return zero, false
 		}
 
 		// Recursively search
 		child, _ = t.findChild(n, key[depth])
 		if child == nil {
-			if n.getNodeLeaf() != nil {
-				if leafMatches(n.getNodeLeaf().getKey(), key) == 0 {
-					return n.getNodeLeaf().getValue(), true
-				}
-			}
-			for _, ch := range n.getChildren() {
-				if ch != nil && ch.getNodeLeaf() != nil {
-					chNodeLeaf := ch.getNodeLeaf()
-					if leafMatches(chNodeLeaf.getKey(), key) == 0 {
-						return chNodeLeaf.getValue(), true
-					}
-				}
-			}
 			return zero, false
 		}
 		n = child
@@ -245,76 +202,33 @@ func (t *RadixTree[T]) iterativeSearchWithWatch(key []byte) (T, bool, <-chan str
 	depth := 0
 
 	for {
-		// Might be a leaf
+		// The key might be stored on this node
+		if nL := n.getNodeLeaf(); nL != nil && leafMatches(nL.getKey(), key) == 0 {
+			return nL.getValue(), true, nL.getMutateCh()
+		}
 
+		// A leaf has nothing below it
 		if isLeaf[T](n) {
-			if n.getArtNodeType() == leafType {
-				if leafMatches(n.getKey(), key) == 0 {
-					return n.getValue(), true, n.getMutateCh()
-				}
-			}
-			// Check if the expanded path matches
-			nL := n.getNodeLeaf()
-			if leafMatches(nL.getKey(), key) == 0 {
-				return nL.getValue(), true, nL.getMutateCh()
-			}
+			return zero, false, n.getMutateCh()
 		}
 
 		// Bail if the prefix does not match
 		if n.getPartialLen() > 0 {
-			prefixLen := checkPrefix(n.getPartial(), int(n.getPartialLen()), key, depth)
+			prefixLen := checkPrefix(n.getPartial(), int(n.getPartialLen()), getKey(key), depth)
 			if prefixLen != min(maxPrefixLen, int(n.getPartialLen())) {
-				if n.getNodeLeaf() != nil {
-					if leafMatches(n.getNodeLeaf().getKey(), key) == 0 {
-						return n.getNodeLeaf().getValue(), true, n.getNodeLeaf().getMutateCh()
-					}
-				}
-				for _, ch := range n.getChildren() {
-					if ch != nil && ch.getNodeLeaf() != nil {
-						chNodeLeaf := ch.getNodeLeaf()
-						if leafMatches(chNodeLeaf.getKey(), key) == 0 {
-							return chNodeLeaf.getValue(), true, chNodeLeaf.getMutateCh()
-						}
-					}
-				}
 				return zero, false, n.getMutateCh()
 			}
 			depth += int(n.getPartialLen())
 		}
 
-		if depth >= len(key) {
-			if n.getNodeLeaf() != nil {
-				if leafMatches(n.getNodeLeaf().getKey(), key) == 0 {
-					return n.getNodeLeaf().getValue(), true, n.getNodeLeaf().getMutateCh()
-				}
-			}
-			for _, ch := range n.getChildren() {
-				if ch != nil && ch.getNodeLeaf() != nil {
-					chNodeLeaf := ch.getNodeLeaf()
-					if leafMatches(chNodeLeaf.getKey(), key) == 0 {
-						return chNodeLeaf.getValue(), true, chNodeLeaf.getMutateCh()
-					}
-				}
-			}
+		// Keys ending here were handled above, the terminator selects no child
+		if depth >= len(key)-1 {
 			return zero, false, n.getMutateCh()
 		}
 
 		// Recursively search
 		child, _ = t.findChild(n, key[depth])
 		if child == nil {
-			if n.getNodeLeaf() != nil {
-				if leafMatches(n.getNodeLeaf().getKey(), key) == 0 {
-					return n.getNodeLeaf().getValue(), true, n.getNodeLeaf().getMutateCh()
-				}
-			}
-			for _, ch := range n.getChildren() {
-				if ch != nil && ch.getNodeLeaf() != nil {
-					chNodeLeaf := ch.getNodeLeaf()
-					if leafMatches(chNodeLeaf.getKey(), key) == 0 {
-						return chNodeLeaf.getValue(), true, chNodeLeaf.getMutateCh()
-					}
-				}
-			}
 			return zero, false, n.getMutateCh()
 		}
 		n = child
diff --git a/txn.go b/txn.go
index f04e7bf..4a611b3 100644
--- a/txn.go
+++ b/txn.go
@@ -149,14 +149,9 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 			newNode = t.addChild(newNode, newLeaf2L.getKey()[depth+longestPrefix], newLeaf2)
 
 		} else {
-			if len(nodeLeaf.getKey()) > depth+longestPrefix {
-				// Add the leafs to the new node4
-				newNode = t.addChild(newNode, nodeLeaf.getKey()[depth+longestPrefix], node)
-			}
-
-			if len(newLeaf2L.getKey()) > depth+longestPrefix {
-				newNode = t.addChild(newNode, newLeaf2L.getKey()[depth+longestPrefix], newLeaf2)
-			}
+			// Add the leafs to the new node4
+			newNode = t.addChild(newNode, nodeLeaf.getKey()[depth+longestPrefix], node)
+			newNode = t.addChild(newNode, newLeaf2L.getKey()[depth+longestPrefix], newLeaf2)
 		}
 
 		return newNode, zero, true
@@ -175,43 +170,9 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 	// Check if given node has a prefix
 	if node.getPartialLen() > 0 {
 		// Determine if the prefixes differ, since we need to split
-		prefixDiff := prefixMismatch[T](node, key, len(key), depth)
+		prefixDiff := prefixMismatch[T](node, getKey(key), len(key)-1, depth)
 		if prefixDiff >= int(node.getPartialLen()) {
-			depth += int(node.getPartialLen())
-			if depth < len(key) {
-				child, idx := t.findChild(node, key[depth])
-				if child != nil {
-					newChild, val, mutatedSubTree := t.recursiveInsert(child, key, value, depth+1, old)
-					if mutatedSubTree || newChild != child {
-						t.trackChannel(node)
-						node = t.writeNode(node, false)
-						node.setChild(idx, newChild)
-					}
-					return node, val, mutatedSubTree
-				}
-			}
-
-			newLeaf := t.makeLeaf(key, value)
-			newLeafL := newLeaf.getNodeLeaf()
-			nL := node.getNodeLeaf()
-			if nL != nil && nL.getKeyLen() != 0 {
-				if bytes.HasPrefix(getKey(nL.getKey()), getKey(newLeafL.getKey())) {
-					t.trackChannel(node)
-					node = t.writeNode(node, false)
-					newNode := t.allocNode(node4)
-					newNode.setNodeLeaf(newLeaf.(*NodeLeaf[T]))
-					newNode = t.addChild(newNode, key[depth], node)
-					return newNode, zero, true
-				}
-			}
-			t.trackChannel(node)
-			node = t.writeNode(node, false)
-			if depth < len(key) {
-				// No child, node goes within us
-				node = t.addChild(node, key[depth], newLeaf)
-				// newNode was created
-			}
-			return node, zero, true
+			return t.insertBelow(node, key, value, depth+int(node.getPartialLen()), old)
 		}
 
 		// Create a new node
@@ -236,12 +197,30 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 		}
 		// Insert the new leaf
 		newLeaf := t.makeLeaf(key, value)
-		if depth+prefixDiff < len(key) {
+		if depth+prefixDiff < len(key)-1 {
 			newNode = t.addChild(newNode, key[depth+prefixDiff], newLeaf)
+		} else {
+			newNode.setNodeLeaf(newLeaf.getNodeLeaf())
 		}
 		return newNode, zero, true
 	}
 
+	return t.insertBelow(node, key, value, depth, old)
+}
+
+// insertBelow inserts the key at a node whose prefix has been consumed, either
+// on the node itself if the key ends there or below the matching child. The
+// terminator is never used to select a child, as it may be part of other keys.
+func (t *Txn[T]) insertBelow(node Node[T], key []byte, value T, depth int, old *int) (Node[T], T, bool) {
+	var zero T
+
+	if depth == len(key)-1 {
+		t.trackChannel(node)
+		node = t.writeNode(node, false)
+		node.setNodeLeaf(t.makeLeaf(key, value).getNodeLeaf())
+		return node, zero, true
+	}
+
 	// Find a child to recurse to
 	child, idx := t.findChild(node, key[depth])
 	if child != nil {
@@ -254,13 +233,11 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 		return node, val, mutatedSubtree
 	}
 
+	// No child, node goes within us
 	newLeaf := t.makeLeaf(key, value)
-	if depth < len(key) {
-		t.trackChannel(node)
-		node = t.writeNode(node, false)
-		return t.addChild(node, key[depth], newLeaf), zero, true
-	}
-	return node, zero, false
+	t.trackChannel(node)
+	node = t.writeNode(node, false)
+	return t.addChild(node, key[depth], newLeaf), zero, true
 }
 
 func (t *Txn[T]) Delete(key []byte) (T, bool) {
@@ -312,7 +289,7 @@ func (t *Txn[T]) recursiveDelete(node Node[T], key []byte, depth int) (Node[T],
 
 	// Bail if the prefix does not match
 	if node.getPartialLen() > 0 {
-		prefixLen := checkPrefix(node.getPartial(), int(node.getPartialLen()), key, depth)
+		prefixLen := checkPrefix(node.getPartial(), int(node.getPartialLen()), getKey(key), depth)
 		if prefixLen != min(maxPrefixLen, int(node.getPartialLen())) {
 			return node, nil, false
 		}
@@ -320,7 +297,7 @@ func (t *Txn[T]) recursiveDelete(node Node[T], key []byte, depth int) (Node[T],
 	}
 
 	// The key ends before any child of this node
-	if depth >= len(key) {
+	if depth >= len(key)-1 {
 		return node, nil, false
 	}
 
-- 
2.43.0


From 3cf3b45cccedfbbaa1609c23973c929cab55166d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:30 +0000
Subject: [PATCH 07/21] fix: walk every entry in key order with its value

Walk skipped keys that are stored on nodes with children, passed the zero value
for all others and visited the children of a node48 in insertion order. DFSNode
missed children of node48 and node256 because it assumed dense child slots.
---
 helpers.go | 31 +++++++++++++++++++++++++++++++
 tree.go    | 17 ++++++-----------
 2 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/helpers.go b/helpers.go
index 4db655d..f3b8e76 100644
--- a/helpers.go
+++ b/helpers.go
@@ -349,6 +349,37 @@ func findChild[T any](n Node[T], c byte) (Node[T], int) {
 	return nil, 0
 }
 
+// childEdge is a child node together with the byte that selects it.
+type childEdge[T any] struct {
+	label byte
+	node  Node[T]
+}
+
+// sortedChildren returns the children of a node ordered by the byte that selects
+// them, independently of how the node type lays them out.
+func sortedChildren[T any](n Node[T]) []childEdge[T] {
+	edges := make([]childEdge[T], 0, n.getNumChildren())
+	switch n.getArtNodeType() {
+	case node4, node16:
+		for i := 0; i < int(n.getNumChildren()); i++ {
+			edges = append(edges, childEdge[T]{n.getKeyAtIdx(i), n.getChild(i)})
+		}
+	case node48:
+		for i := 0; i < 256; i++ {
+			if pos := n.getKeyAtIdx(i); pos != 0 {
+				edges = append(edges, childEdge[T]{byte(i), n.getChild(int(pos - 1))})
+			}
+		}
+	case node256:
+		for i := 0; i < 256; i++ {
+			if ch := n.getChild(i); ch != nil {
+				edges = append(edges, childEdge[T]{byte(i), ch})
+			}
+		}
+	}
+	return edges
+}
+
 func getTreeKey(key []byte) []byte {
 	return append(key, '$')
 }
diff --git a/tree.go b/tree.go
index bf61176..7fe7a25 100644
--- a/tree.go
+++ b/tree.go
@@ -292,16 +292,14 @@ func (t *RadixTree[T]) DFSPrintTree() {
 // recursively. Returns true if the walk should be aborted
 func recursiveWalk[T any](n Node[T], fn WalkFn[T]) bool {
 	// Visit the leaf values if any
-	if n.isLeaf() && n.getNodeLeaf() != nil && fn(getKey(n.getNodeLeaf().getKey()), n.getValue()) {
+	if nL := n.getNodeLeaf(); nL != nil && fn(getKey(nL.getKey()), nL.getValue()) {
 		return true
 	}
 
 	// Recurse on the children
-	for _, e := range n.getChildren() {
-		if e != nil {
-			if recursiveWalk(e, fn) {
-				return true
-			}
+	for _, e := range sortedChildren(n) {
+		if recursiveWalk(e.node, fn) {
+			return true
 		}
 	}
 	return false
@@ -316,10 +314,7 @@ func (t *RadixTree[T]) DFSNode(n Node[T], fn DfsFn[T]) {
 	fn(n)
 
 	// Recurse on the children
-	for itr := 0; itr < int(n.getNumChildren()); itr++ {
-		e := n.getChild(itr)
-		if e != nil {
-			t.DFSNode(e, fn)
-		}
+	for _, e := range sortedChildren(n) {
+		t.DFSNode(e.node, fn)
 	}
 }
-- 
2.43.0


From 63dc4af74c3812a59efdb584029b88ca1ad6e9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:36 +0000
Subject: [PATCH 08/21] fix: match iterator prefixes against the key without
 its terminator

A prefix ending in '$' also matched keys that merely end where the prefix has
its '$'.
---
 iterator.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/iterator.go b/iterator.go
index d88db14..926a88f 100644
--- a/iterator.go
+++ b/iterator.go
@@ -43,7 +43,7 @@ func (i *Iterator[T]) Next() ([]byte, T, bool) {
 			for itr := int(n4.numChildren) - 1; itr >= 0; itr-- {
 				i.stack = append(i.stack, n4.children[itr])
 			}
-			if n4L != nil && hasPrefix(n4L.key, i.path) {
+			if n4L != nil && hasPrefix(getKey(n4L.key), i.path) {
 				return getKey(n4L.key), n4L.value, true
 			}
 		case *Node16[T]:
@@ -52,7 +52,7 @@ func (i *Iterator[T]) Next() ([]byte, T, bool) {
 			for itr := int(n16.numChildren) - 1; itr >= 0; itr-- {
 				i.stack = append(i.stack, n16.children[itr])
 			}
-			if n16L != nil && hasPrefix(n16L.key, i.path) {
+			if n16L != nil && hasPrefix(getKey(n16L.key), i.path) {
 				return getKey(n16L.key), n16L.value, true
 			}
 		case *Node48[T]:
@@ -69,7 +69,7 @@ func (i *Iterator[T]) Next() ([]byte, T, bool) {
 				}
 				i.stack = append(i.stack, nodeCh)
 			}
-			if n48L != nil && hasPrefix(n48L.key, i.path) {
+			if n48L != nil && hasPrefix(getKey(n48L.key), i.path) {
 				return getKey(n48L.key), n48L.value, true
 			}
 		case *Node256[T]:
@@ -82,15 +82,12 @@ func (i *Iterator[T]) Next() ([]byte, T, bool) {
 				}
 				i.stack = append(i.stack, nodeCh)
 			}
-			if n256L != nil && hasPrefix(n256L.key, i.path) {
+			if n256L != nil && hasPrefix(getKey(n256L.key), i.path) {
 				return getKey(n256L.key), n256L.value, true
 			}
 		case *NodeLeaf[T]:
 			leafCh := node.(*NodeLeaf[T])
-			if !leafCh.matchPrefix([]byte(i.Path())) {
-				continue
-			}
-			if hasPrefix(leafCh.key, i.path) {
+			if hasPrefix(getKey(leafCh.key), i.path) {
 				return getKey(leafCh.key), leafCh.value, true
 			}
 		}
-- 
2.43.0


From fd6e52abf4d3c09fabdef3d6746543683ad6887d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:42 +0000
Subject: [PATCH 09/21] fix: iterate over all entries when no seek was made

Next on an iterator that had not been seeked returned nothing, while Previous on
a reverse iterator walks the whole tree in that case.
---
 iterator.go             | 5 +++++
 lower_bound_iterator.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/iterator.go b/iterator.go
index 926a88f..b6e7f65 100644
--- a/iterator.go
+++ b/iterator.go
@@ -27,6 +27,11 @@ func (i *Iterator[T]) Path() string {
 func (i *Iterator[T]) Next() ([]byte, T, bool) {
 	var zero T
 
+	// Without a seek, iterate over everything below the node
+	if i.stack == nil && i.node != nil {
+		i.stack = []Node[T]{i.node}
+	}
+
 	// Iterate through the stack until it's empty
 	for len(i.stack) > 0 {
 		node := i.stack[len(i.stack)-1]
diff --git a/lower_bound_iterator.go b/lower_bound_iterator.go
index c8b8e97..da2460d 100644
--- a/lower_bound_iterator.go
+++ b/lower_bound_iterator.go
@@ -31,6 +31,11 @@ func (i *LowerBoundIterator[T]) Path() string {
 func (i *LowerBoundIterator[T]) Next() ([]byte, T, bool) {
 	var zero T
 
+	// Without a seek, iterate over everything below the node
+	if i.stack == nil && i.node != nil {
+		i.stack = []Node[T]{i.node}
+	}
+
 	// Iterate through the stack until it's empty
 	for len(i.stack) > 0 {
 		node := i.stack[len(i.stack)-1]
-- 
2.43.0


From dda8fd2243dcd8be49776537a287d07e45b5d604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:05 +0000
Subject: [PATCH 10/21] fix: make SeekLowerBound yield exactly the keys within
 the bound

The seek assumed that the children of node48 and node256 are dense and ordered,
compared prefixes longer than the inline part out of range and dropped or
repeated entries around inner keys. Rewrite it as a single descent that pushes
the subtrees above the bound.
---
 helpers.go              |  10 ++
 lower_bound_iterator.go | 271 +++++-----------------------------------
 2 files changed, 41 insertions(+), 240 deletions(-)

diff --git a/helpers.go b/helpers.go
index f3b8e76..ffe7962 100644
--- a/helpers.go
+++ b/helpers.go
@@ -380,6 +380,16 @@ func sortedChildren[T any](n Node[T]) []childEdge[T] {
 	return edges
 }
 
+// nodePrefix returns the whole compressed prefix of a node at the given depth.
+// Only its first bytes are kept in the node, longer ones are found in any leaf.
+func nodePrefix[T any](n Node[T], depth int) []byte {
+	length := int(n.getPartialLen())
+	if length <= maxPrefixLen {
+		return n.getPartial()[:length]
+	}
+	return minimum(n).getKey()[depth : depth+length]
+}
+
 func getTreeKey(key []byte) []byte {
 	return append(key, '$')
 }
diff --git a/lower_bound_iterator.go b/lower_bound_iterator.go
index da2460d..6d39c49 100644
--- a/lower_bound_iterator.go
+++ b/lower_bound_iterator.go
@@ -102,262 +102,53 @@ func (i *LowerBoundIterator[T]) Next() ([]byte, T, bool) {
 	return nil, zero, false
 }
 
-func (i *LowerBoundIterator[T]) recurseMin(n Node[T]) Node[T] {
-	// Traverse to the minimum child
-	if n.isLeaf() {
-		return n
-	}
-	nCh := n.getNumChildren()
-	if nCh > 1 {
-		// Add all the other edges to the stack (the min node will be added as
-		// we recurse)
-		var allCh []Node[T]
-		for itr := nCh - 1; itr >= 1; itr-- {
-			allCh = append(allCh, n.getChild(int(itr)))
-		}
-		i.stack = append(allCh, i.stack...)
-	}
-	if nCh > 0 {
-		return i.recurseMin(n.getChild(0))
-	}
-	// Shouldn't be possible
-	return nil
-}
-
-func (i *LowerBoundIterator[T]) SeekLowerBound(prefixKey []byte) {
-	node := i.node
-
+// SeekLowerBound positions the iterator at the smallest key that is greater or
+// equal to the given key.
+func (i *LowerBoundIterator[T]) SeekLowerBound(key []byte) {
+	// The stack holds subtrees that only contain keys within the bound, with the
+	// smallest ones on top. It must not stay nil, as Next would then iterate over
+	// the whole tree.
 	i.stack = []Node[T]{}
+	i.path = key
 
-	if len(prefixKey) == 0 {
-		i.stack = []Node[T]{node}
-		return
-	}
-
-	prefix := getTreeKey(prefixKey)
-
-	found := func(n Node[T]) {
-		nL := n.getNodeLeaf()
-		if nL == nil {
-			i.stack = append(
-				i.stack,
-				n,
-			)
-			return
-		}
-		if bytes.Compare(nL.key, i.path) >= 0 {
-			i.stack = append(
-				i.stack,
-				n,
-			)
-			return
-		}
-	}
-
-	findMin := func(n Node[T]) {
-		if n != nil {
-			found(n)
-			return
-		}
-		n = i.recurseMin(n)
-	}
-
-	i.path = prefix
-
+	node := i.node
 	depth := 0
-	i.node = node
-	i.seenMismatch = false
-
-	var parent Node[T]
-
-	for {
-
-		// Check if the node matches the prefix
-
-		if node == nil {
-			if parent != nil && parent.getNodeLeaf() != nil {
-				i.stack = append(i.stack, parent.getNodeLeaf())
-			}
-			return
-		}
-
-		var prefixCmp int
-		if !node.isLeaf() {
-			if int(node.getPartialLen()) < len(prefix) {
-				prefixCmp = bytes.Compare(node.getPartial()[:node.getPartialLen()], prefix[depth:min(len(prefix), depth+int(node.getPartialLen()))])
-			} else {
-				prefixCmp = bytes.Compare(node.getPartial()[:node.getPartialLen()], prefix[depth:])
-			}
-		}
-
-		if prefixCmp > 0 && !i.seenMismatch {
-			// Prefix is larger, that means the lower bound is greater than the search
-			// and from now on we need to follow the minimum path to the smallest
-			// leaf under this subtree.
-			nL := node.getNodeLeaf()
-			if nL != nil {
-				if bytes.Compare(nL.key, i.path) >= 0 {
-					findMin(node)
-				}
-			} else {
-				findMin(node)
-			}
-			if parent != nil && parent.getNodeLeaf() != nil {
-				if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, parent.getNodeLeaf())
-				}
-				return
-			}
-			return
-		}
-
-		if prefixCmp < 0 && !i.seenMismatch {
-			// Prefix is smaller than search prefix, that means there is no lower
-			// bound
-			i.node = nil
-			if parent != nil && parent.getNodeLeaf() != nil {
-				if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, parent.getNodeLeaf())
-				}
-			}
-			return
-		}
 
-		if node.isLeaf() && node.getNodeLeaf() != nil && bytes.Compare(node.getNodeLeaf().getKey(), prefix) >= 0 {
-			found(node)
-			if parent != nil && parent.getNodeLeaf() != nil {
-				if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, parent.getNodeLeaf())
-				}
-			}
-			return
-		}
-
-		// Determine the child index to proceed based on the next byte of the prefix
-		// If the node has a prefix, compare it with the prefix
-		if node.getArtNodeType() != leafType {
-			mismatchIdx := prefixMismatch[T](node, prefix, len(prefix), depth)
-			if mismatchIdx < int(node.getPartialLen()) && !i.seenMismatch {
-				// If there's a mismatch, set the node to nil to break the loop
-				node = nil
-				return
-			}
-			if mismatchIdx > 0 {
-				i.seenMismatch = true
-			}
-			depth += int(node.getPartialLen())
-		}
-
-		if depth >= len(prefix) {
-			nL := node.getNodeLeaf()
-			if nL != nil {
-				if bytes.Compare(nL.getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, node)
-				}
-			} else {
+	for node != nil {
+		if node.isLeaf() {
+			if bytes.Compare(getKey(minimum(node).getKey()), key) >= 0 {
 				i.stack = append(i.stack, node)
 			}
-			if parent != nil && parent.getNodeLeaf() != nil {
-				if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, parent.getNodeLeaf())
-				}
-			}
 			return
 		}
 
-		idx := node.getLowerBoundCh(prefix[depth])
-
-		if idx == -1 && !i.seenMismatch {
-			return
-		}
-
-		if i.seenMismatch && idx != -1 {
-			idx = 0
-		}
-
-		if idx == -1 {
-			if node.getNodeLeaf() != nil {
-				if bytes.Compare(node.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, node)
-				}
-			} else {
-				for itr := int(node.getNumChildren()) - 1; itr >= idx+1; itr-- {
-					nCh := node.getChild(itr)
-					nChL := nCh.getNodeLeaf()
-					if nChL == nil {
-						i.stack = append(i.stack, node.getChild(itr))
-					} else {
-						if bytes.Compare(nChL.key, i.path) >= 0 {
-							i.stack = append(i.stack, node.getChild(itr))
-						}
-					}
-				}
-			}
-			if parent.getNodeLeaf() != nil && bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-				i.stack = append(i.stack, parent.getNodeLeaf())
-			}
-			node = nil
+		// Compare the prefix of the node with the same length part of the key
+		prefix := nodePrefix(node, depth)
+		search := key[min(depth, len(key)):]
+		prefixCmp := bytes.Compare(prefix, search[:min(len(prefix), len(search))])
+		if prefixCmp < 0 {
+			// Everything below the node is smaller than the key
 			return
 		}
-
-		if i.seenMismatch && parent != nil && parent.getNodeLeaf() != nil {
-			nL := node.getNodeLeaf()
-			addedNode := false
-			if nL != nil {
-				if bytes.Compare(nL.getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, node)
-					addedNode = true
-				}
-			}
-			if !addedNode {
-				for itr := int(node.getNumChildren()) - 1; itr >= 0; itr-- {
-					if node.getChild(itr) != nil {
-						nCh := node.getChild(itr)
-						nChL := nCh.getNodeLeaf()
-						if nChL == nil {
-							i.stack = append(i.stack, node.getChild(itr))
-						} else {
-							if bytes.Compare(nChL.key, i.path) >= 0 {
-								i.stack = append(i.stack, node.getChild(itr))
-							}
-						}
-					}
-				}
-			}
-			if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-				i.stack = append(i.stack, parent.getNodeLeaf())
-			}
+		if prefixCmp > 0 || len(prefix) >= len(search) {
+			// Everything below the node is greater than the key or has it as a
+			// prefix
+			i.stack = append(i.stack, node)
 			return
 		}
 
-		for itr := int(node.getNumChildren()) - 1; itr >= idx+1; itr-- {
-			if node.getChild(itr) != nil {
-				nCh := node.getChild(itr)
-				nChL := nCh.getNodeLeaf()
-				if nChL == nil {
-					i.stack = append(i.stack, node.getChild(itr))
-				} else {
-					if bytes.Compare(nChL.key, i.path) >= 0 {
-						i.stack = append(i.stack, node.getChild(itr))
-					}
-				}
+		// A key stored on this node is a proper prefix of the search key and thus
+		// smaller, but children with a greater label are all within the bound.
+		depth += len(prefix)
+		edges := sortedChildren(node)
+		node = nil
+		for itr := len(edges) - 1; itr >= 0 && edges[itr].label >= key[depth]; itr-- {
+			if edges[itr].label == key[depth] {
+				node = edges[itr].node
+				break
 			}
+			i.stack = append(i.stack, edges[itr].node)
 		}
-
-		if idx >= 0 && node.getKeyAtIdx(idx) != prefix[depth] {
-			i.seenMismatch = true
-		}
-
-		if idx == -1 {
-			return
-		}
-
-		parent = node
-		// Move to the next level in the tree
-		node = node.getChild(idx)
-
 		depth++
-
 	}
-
 }
-- 
2.43.0


From 52582fcb724377513b208cbd32b2e60ba86c0aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:34 +0000
Subject: [PATCH 11/21] fix: make reverse iteration yield exactly the keys
 asked for

SeekReverseLowerBound assumed that the children of node48 and node256 are dense
and ordered and read past the end of short keys. Previous treated a seeked
prefix as an upper bound and could repeat or drop keys stored on inner nodes.
---
 reverse_iterator.go | 271 ++++++++------------------------------------
 1 file changed, 47 insertions(+), 224 deletions(-)

diff --git a/reverse_iterator.go b/reverse_iterator.go
index a0708cb..61b9061 100644
--- a/reverse_iterator.go
+++ b/reverse_iterator.go
@@ -8,16 +8,6 @@ import (
 // in reverse in-order
 type ReverseIterator[T any] struct {
 	i *Iterator[T]
-
-	// expandedParents stores the set of parent nodes whose relevant children have
-	// already been pushed into the stack. This can happen during seek or during
-	// iteration.
-	//
-	// Unlike forward iteration we need to recurse into children before we can
-	// output the value stored in an internal leaf since all children are greater.
-	// We use this to track whether we have already ensured all the children are
-	// in the stack.
-	expandedParents map[Node[T]]struct{}
 }
 
 // SeekPrefixWatch is used to seek the iterator to a given prefix
@@ -36,162 +26,67 @@ func (ri *ReverseIterator[T]) SeekPrefix(prefix []byte) {
 // predict based on the radix structure which node(s) changes might affect the
 // result.
 func (ri *ReverseIterator[T]) SeekReverseLowerBound(key []byte) {
-	// ri.i.node starts off in the common case as pointing to the root node of the
-	// tree. By the time we return we have either found a lower bound and setup
-	// the stack to traverse all larger keys, or we have not and the stack and
-	// node should both be nil to prevent the iterator from assuming it is just
-	// iterating the whole tree from the root node. Either way this needs to end
-	// up as nil so just set it here.
-	ri.i.seenMismatch = false
-	ri.i.stack = make([]Node[T], 0)
+	// The stack holds subtrees that only contain keys within the bound, with the
+	// greatest ones on top. It must not stay nil, as Previous would then iterate
+	// over the whole tree.
+	ri.i.stack = []Node[T]{}
+	ri.i.path = nil
+
 	n := ri.i.node
-	ri.i.node = nil
-	prefix := getTreeKey(key)
-	ri.i.path = prefix
 	depth := 0
 
-	if ri.expandedParents == nil {
-		ri.expandedParents = make(map[Node[T]]struct{})
-	}
-
-	found := func(n Node[T]) {
-		ri.i.stack = append(
-			ri.i.stack,
-			n,
-		)
-	}
-
-	for {
-		if n == nil {
-			break
-		}
-		// Compare current prefix with the search key's same-length prefix.
-		var prefixCmp int
-		if int(n.getPartialLen()) < len(prefix) {
-			prefixCmp = bytes.Compare(n.getPartial()[:n.getPartialLen()], prefix[depth:depth+int(n.getPartialLen())])
-		} else {
-			prefixCmp = bytes.Compare(n.getPartial()[:n.getPartialLen()], prefix[depth:])
+	for n != nil {
+		if n.isLeaf() {
+			if bytes.Compare(getKey(minimum(n).getKey()), key) <= 0 {
+				ri.i.stack = append(ri.i.stack, n)
+			}
+			return
 		}
 
+		// Compare the prefix of the node with the same length part of the key
+		prefix := nodePrefix(n, depth)
+		search := key[min(depth, len(key)):]
+		prefixCmp := bytes.Compare(prefix, search[:min(len(prefix), len(search))])
 		if prefixCmp < 0 {
-			// Prefix is smaller than search prefix, that means there is no exact
-			// match for the search key. But we are looking in reverse, so the reverse
-			// lower bound will be the largest leaf under this subtree, since it is
-			// the value that would come right before the current search key if it
-			// were in the tree. So we need to follow the maximum path in this subtree
-			// to find it. Note that this is exactly what the iterator will already do
-			// if it finds a node in the stack that has _not_ been marked as expanded
-			// so in this one case we don't call `found` and instead let the iterator
-			// do the expansion and recursion through all the children.
+			// Everything below the node is smaller than the key
 			ri.i.stack = append(ri.i.stack, n)
 			return
 		}
-
-		if prefixCmp > 0 && !ri.i.seenMismatch {
-			// Prefix is larger than search prefix, or there is no prefix but we've
-			// also exhausted the search key. Either way, that means there is no
-			// reverse lower bound since nothing comes before our current search
-			// prefix.
-			if n.getNodeLeaf() != nil {
-				ri.i.stack = append(ri.i.stack, n.getNodeLeaf())
-			}
+		if prefixCmp > 0 {
+			// Everything below the node is greater than the key
 			return
 		}
 
-		// If this is a leaf, something needs to happen! Note that if it's a leaf
-		// and prefixCmp was zero (which it must be to get here) then the leaf value
-		// is either an exact match for the search, or it's lower. It can't be
-		// greater.
-		if n.isLeaf() {
-
-			nL := n.getNodeLeaf()
-			// Firstly, if it's an exact match, we're done!
-			if bytes.Equal(getKey(nL.getKey()), key) {
-				found(n)
-				return
-			}
-
-			// It's not so this node's leaf value must be lower and could still be a
-			// valid contender for reverse lower bound.
-
-			// If it has no children then we are also done.
-			if bytes.Compare(getKey(nL.getKey()), key) <= 0 {
-				// This leaf is the lower bound.
-				found(n)
-				return
-			}
+		// A key stored on this node is a prefix of the search key and thus within
+		// the bound, and smaller than anything below the node.
+		if nL := n.getNodeLeaf(); nL != nil && len(prefix) <= len(search) {
+			ri.i.stack = append(ri.i.stack, nL)
 		}
-
-		// Consume the search prefix. Note that this is safe because if n.prefix is
-		// longer than the search slice prefixCmp would have been > 0 above and the
-		// method would have already returned.
-		// Determine the child index to proceed based on the next byte of the prefix
-		if n.getPartialLen() > 0 {
-			// If the node has a prefix, compare it with the prefix
-			mismatchIdx := prefixMismatch[T](n, prefix, len(prefix), depth)
-			if mismatchIdx < int(n.getPartialLen()) && !ri.i.seenMismatch {
-				// If there's a mismatch, set the node to nil to break the loop
-				if n.getNodeLeaf() != nil {
-					ri.i.stack = append(ri.i.stack, n.getNodeLeaf())
-				}
-				n = nil
-				return
-			}
-			if mismatchIdx > 0 {
-				ri.i.seenMismatch = true
-			}
-			depth += int(n.getPartialLen())
-		}
-
-		if depth >= len(prefix) {
-			ri.i.stack = append(ri.i.stack, n)
+		if len(prefix) >= len(search) {
 			return
 		}
 
-		if n.getNodeLeaf() != nil {
-			ri.i.stack = append(ri.i.stack, n)
-		}
-
-		idx := n.getLowerBoundCh(prefix[depth])
-
-		if idx == -1 || depth == len(prefix)-1 {
-			idx = int(n.getNumChildren()) - 1
-		}
-
-		if idx >= 0 && n.getKeyAtIdx(idx) != prefix[depth] {
-			ri.i.seenMismatch = true
-		}
-
-		if ri.i.seenMismatch {
-			idx = int(n.getNumChildren()) - 1
-		}
-
-		for itr := 0; itr < idx; itr++ {
-			if n.getChild(itr) != nil {
-				ri.i.stack = append(ri.i.stack, n.getChild(itr))
+		// Children with a smaller label are all within the bound
+		depth += len(prefix)
+		edges := sortedChildren(n)
+		n = nil
+		for _, e := range edges {
+			if e.label >= key[depth] {
+				if e.label == key[depth] {
+					n = e.node
+				}
+				break
 			}
+			ri.i.stack = append(ri.i.stack, e.node)
 		}
-
-		if idx == -1 {
-			break
-		}
-
-		// Move to the next level in the tree
-		ri.expandedParents[n] = struct{}{}
-		n = n.getChild(idx)
 		depth++
 	}
-
 }
 
 // Previous returns the previous node in reverse order
 func (ri *ReverseIterator[T]) Previous() ([]byte, T, bool) {
 	var zero T
 
-	if ri.expandedParents == nil {
-		ri.expandedParents = make(map[Node[T]]struct{})
-	}
-
 	if ri.i.stack == nil && ri.i.node != nil {
 		ri.i.stack = []Node[T]{ri.i.node}
 	}
@@ -205,93 +100,21 @@ func (ri *ReverseIterator[T]) Previous() ([]byte, T, bool) {
 			return nil, zero, false
 		}
 
-		switch node.(type) {
-		case *NodeLeaf[T]:
-			leafCh := node.(*NodeLeaf[T])
-			if bytes.Compare(getKey(leafCh.key), getKey(ri.i.path)) <= 0 {
+		if leafCh, ok := node.(*NodeLeaf[T]); ok {
+			if hasPrefix(getKey(leafCh.key), ri.i.path) {
 				return getKey(leafCh.key), leafCh.value, true
 			}
 			continue
-		case *Node4[T]:
-			n4 := node.(*Node4[T])
-			if n4.leaf != nil {
-				if bytes.Compare(n4.leaf.key, ri.i.path) <= 0 || len(ri.i.path) == 0 {
-					ri.i.stack = append(ri.i.stack, n4.leaf)
-				}
-			}
-			_, ok := ri.expandedParents[node]
-			if ok {
-				continue
-			}
-			for itr := 0; itr < int(n4.numChildren); itr++ {
-				ri.i.stack = append(ri.i.stack, n4.children[itr])
-			}
-			if n4.leaf != nil && hasPrefix(getKey(n4.leaf.key), ri.i.path) {
-				return getKey(n4.leaf.key), n4.leaf.value, true
-			}
-		case *Node16[T]:
-			n16 := node.(*Node16[T])
-			if n16.leaf != nil {
-				if bytes.Compare(n16.leaf.key, ri.i.path) <= 0 || len(ri.i.path) == 0 {
-					ri.i.stack = append(ri.i.stack, n16.leaf)
-				}
-			}
-			_, ok := ri.expandedParents[node]
-			if ok {
-				continue
-			}
-			for itr := 0; itr < int(n16.numChildren); itr++ {
-				ri.i.stack = append(ri.i.stack, n16.children[itr])
-			}
-			if n16.leaf != nil && hasPrefix(getKey(n16.leaf.key), ri.i.path) {
-				return getKey(n16.leaf.key), n16.leaf.value, true
-			}
-		case *Node48[T]:
-			n48 := node.(*Node48[T])
-			if n48.leaf != nil {
-				if bytes.Compare(n48.leaf.key, ri.i.path) <= 0 || len(ri.i.path) == 0 {
-					ri.i.stack = append(ri.i.stack, n48.leaf)
-				}
-			}
-			_, ok := ri.expandedParents[node]
-			if ok {
-				continue
-			}
-			for itr := 0; itr < 256; itr++ {
-				idx := n48.keys[itr]
-				if idx == 0 {
-					continue
-				}
-				nodeCh := n48.children[idx-1]
-				if nodeCh == nil {
-					continue
-				}
-				ri.i.stack = append(ri.i.stack, nodeCh)
-			}
-			if n48.leaf != nil && hasPrefix(getKey(n48.leaf.key), ri.i.path) {
-				return getKey(n48.leaf.key), n48.leaf.value, true
-			}
-		case *Node256[T]:
-			n256 := node.(*Node256[T])
-			if n256.leaf != nil {
-				if bytes.Compare(n256.leaf.key, ri.i.path) <= 0 || len(ri.i.path) == 0 {
-					ri.i.stack = append(ri.i.stack, n256.leaf)
-				}
-			}
-			_, ok := ri.expandedParents[node]
-			if ok {
-				continue
-			}
-			for itr := 0; itr < 256; itr++ {
-				nodeCh := n256.children[itr]
-				if nodeCh == nil {
-					continue
-				}
-				ri.i.stack = append(ri.i.stack, nodeCh)
-			}
-			if n256.leaf != nil && hasPrefix(getKey(n256.leaf.key), ri.i.path) {
-				return getKey(n256.leaf.key), n256.leaf.value, true
-			}
+		}
+
+		// Unlike forward iteration we need to recurse into children before we can
+		// output the value stored in an internal leaf since all children are
+		// greater.
+		if nL := node.getNodeLeaf(); nL != nil {
+			ri.i.stack = append(ri.i.stack, nL)
+		}
+		for _, e := range sortedChildren(node) {
+			ri.i.stack = append(ri.i.stack, e.node)
 		}
 	}
 	return nil, zero, false
-- 
2.43.0


From 9133033cc9419a17e5a93689afaebfd8c799df49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:07 +0000
Subject: [PATCH 12/21] fix: LongestPrefix must return a prefix of the given
 key

The leaf on the root was returned without checking that the search key starts
with it, and inner prefixes were compared with the terminated key.
---
 tree.go | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/tree.go b/tree.go
index 7fe7a25..0fd795e 100644
--- a/tree.go
+++ b/tree.go
@@ -79,7 +79,6 @@ func (t *RadixTree[T]) GetWatch(key []byte) (<-chan struct{}, T, bool) {
 }
 
 func (t *RadixTree[T]) LongestPrefix(k []byte) ([]byte, T, bool) {
-	key := getTreeKey(k)
 	var zero T
 	if t.root == nil {
 		return nil, zero, false
@@ -90,38 +89,30 @@ func (t *RadixTree[T]) LongestPrefix(k []byte) ([]byte, T, bool) {
 
 	n := t.root
 	last = nil
-	if n.getNodeLeaf() != nil {
-		last = n.getNodeLeaf()
-	}
 	for {
+		// A key stored on this node is a candidate if the search key starts with it
+		if nL := n.getNodeLeaf(); nL != nil && bytes.HasPrefix(k, getKey(nL.getKey())) {
+			last = nL
+		}
+		if n.isLeaf() {
+			break
+		}
 
 		// Bail if the prefix does not match
 		if n.getPartialLen() > 0 {
-			prefixLen := checkPrefix(n.getPartial(), int(n.getPartialLen()), key, depth)
+			prefixLen := checkPrefix(n.getPartial(), int(n.getPartialLen()), k, depth)
 			if prefixLen != min(maxPrefixLen, int(n.getPartialLen())) {
 				break
 			}
 			depth += int(n.getPartialLen())
 		}
 
-		if depth >= len(key) {
+		if depth >= len(k) {
 			break
 		}
 
-		if n.getNodeLeaf() != nil && bytes.HasPrefix(getKey(key), getKey(n.getNodeLeaf().getKey())) {
-			last = n.getNodeLeaf()
-		}
-
-		for _, ch := range n.getChildren() {
-			if ch != nil {
-				if ch.getNodeLeaf() != nil && bytes.HasPrefix(getKey(key), getKey(ch.getNodeLeaf().getKey())) {
-					last = ch.getNodeLeaf()
-				}
-			}
-		}
-
 		// Recursively search
-		child, _ = t.findChild(n, key[depth])
+		child, _ = t.findChild(n, k[depth])
 		if child == nil {
 			break
 		}
-- 
2.43.0


From c775a57dce42b08d7f2c2e4b0dafcf72d66063bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:13 +0000
Subject: [PATCH 13/21] fix: do not share key memory with callers

getTreeKey appended the terminator in place, so the tree kept the caller's
backing array and could overwrite its spare capacity. getKey returned slices
whose spare capacity held the stored terminator.
---
 helpers.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/helpers.go b/helpers.go
index ffe7962..493de2c 100644
--- a/helpers.go
+++ b/helpers.go
@@ -391,7 +391,12 @@ func nodePrefix[T any](n Node[T], depth int) []byte {
 }
 
 func getTreeKey(key []byte) []byte {
-	return append(key, '$')
+	// Copy so that the tree neither retains the caller's memory nor writes the
+	// terminator into its spare capacity.
+	treeKey := make([]byte, len(key)+1)
+	copy(treeKey, key)
+	treeKey[len(key)] = '$'
+	return treeKey
 }
 
 func getKey(key []byte) []byte {
@@ -399,7 +404,9 @@ func getKey(key []byte) []byte {
 	if keyLen == 0 {
 		return key
 	}
-	return key[:keyLen-1]
+	// Cap the slice so that appending to a returned key can't overwrite the
+	// stored terminator.
+	return key[: keyLen-1 : keyLen-1]
 }
 
 func (t *Txn[T]) removeChild(n Node[T], c byte) Node[T] {
-- 
2.43.0


From 6ee2efb73b14324adfa25bae082d1ff62f5495b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:19 +0000
Subject: [PATCH 14/21] fix: DeletePrefix must delete exactly the keys with the
 prefix

Children were compacted without their labels, slots of node48 and node256 were
mixed up, keys stored on inner nodes were counted but kept, and emptied nodes
stayed in the tree. It also copied and notified every node of the tree. Descend
to the prefix and remove that subtree instead.
---
 txn.go | 119 ++++++++++++++++++++++++++-------------------------------
 1 file changed, 54 insertions(+), 65 deletions(-)

diff --git a/txn.go b/txn.go
index 4a611b3..03491b6 100644
--- a/txn.go
+++ b/txn.go
@@ -395,99 +395,88 @@ func (t *Txn[T]) LongestPrefix(prefix []byte) ([]byte, T, bool) {
 // DeletePrefix is used to delete an entire subtree that matches the prefix
 // This will delete all nodes under that prefix
 func (t *Txn[T]) DeletePrefix(prefix []byte) bool {
-	key := getTreeKey(prefix)
-	newRoot, numDeletions := t.deletePrefix(t.tree.root, key, 0)
+	if t.tree.size == 0 {
+		return false
+	}
+	newRoot, numDeletions := t.deletePrefix(t.tree.root, prefix, 0)
+	if numDeletions == 0 {
+		return false
+	}
 	if newRoot == nil {
 		t.tree.root = t.allocNode(node4)
 	} else {
 		t.tree.root = newRoot
 	}
-	if numDeletions != 0 {
-		if t.trackMutate {
-			t.trackChannel(t.tree.root)
-		}
-		t.tree.size = t.tree.size - uint64(numDeletions)
-		t.size = t.tree.size
-		return true
-	}
-	return false
+	t.tree.size = t.tree.size - uint64(numDeletions)
+	t.size = t.tree.size
+	return true
 }
 
-func (t *Txn[T]) deletePrefix(node Node[T], key []byte, depth int) (Node[T], int) {
-	// Get terminated
-	if node == nil {
-		return nil, 0
-	}
+// deletePrefix deletes all keys with the given prefix below the node. Returns
+// the node to use instead, which is nil if nothing is left, and the number of
+// deleted keys.
+func (t *Txn[T]) deletePrefix(node Node[T], prefix []byte, depth int) (Node[T], int) {
 	// Handle hitting a leaf node
 	if isLeaf[T](node) {
-		nL := node.getNodeLeaf()
-		if nL != nil && bytes.HasPrefix(getKey(nL.getKey()), getKey(key)) {
-			t.trackChannel(node)
-			t.trackChannel(nL)
-			return nil, 1
+		if bytes.HasPrefix(getKey(node.getNodeLeaf().getKey()), prefix) {
+			return nil, t.dropSubtree(node)
 		}
 		return node, 0
 	}
 
 	// Bail if the prefix does not match
 	if node.getPartialLen() > 0 {
-		prefixLen := checkPrefix(node.getPartial(), int(node.getPartialLen()), key, depth)
-		if prefixLen < min(maxPrefixLen, len(getKey(key))) {
-			depth += prefixLen
+		prefixLen := prefixMismatch[T](node, prefix, len(prefix), depth)
+		if prefixLen < min(int(node.getPartialLen()), len(prefix)-depth) {
+			return node, 0
 		}
+		depth += int(node.getPartialLen())
 	}
 
-	numDel := 0
-
-	if node.getNodeLeaf() != nil {
-		if bytes.HasPrefix(getKey(node.getNodeLeaf().getKey()), getKey(key)) {
-			t.trackChannel(node.getNodeLeaf())
-			numDel++
-		}
+	// Everything below the node has the prefix
+	if depth >= len(prefix) {
+		return nil, t.dropSubtree(node)
 	}
 
-	// Recurse on the children
-	var newChIndxMap = make(map[int]Node[T])
-	for idx, ch := range node.getChildren() {
-		if ch != nil {
-			newCh, del := t.deletePrefix(ch, key, depth+1)
-			newChIndxMap[idx] = newCh
-			numDel += del
-			if del > 0 && t.trackMutate {
-				t.trackChannel(ch)
-			}
-		}
+	// Find child node
+	child, idx := t.findChild(node, prefix[depth])
+	if child == nil {
+		return node, 0
 	}
 
-	slow := 0
-	numCh := 0
-
-	node = t.writeNode(node, true)
+	// Recurse
+	newChild, numDel := t.deletePrefix(child, prefix, depth+1)
+	if numDel == 0 {
+		return node, 0
+	}
 
-	for itr := 0; itr < int(node.getNumChildren()); itr++ {
-		newCh, ok := newChIndxMap[itr]
-		if ok {
-			if newCh == nil {
-				continue
-			} else {
-				numCh++
-				node.setChild(slow, newCh)
-				slow++
-			}
-		} else {
-			numCh++
-			node.setChild(slow, node.getChild(itr))
-			slow++
-		}
+	t.trackChannel(node)
+	node = t.writeNode(node, false)
+	node.setChild(idx, newChild)
+	if newChild == nil {
+		node = t.removeChild(node, prefix[depth])
 	}
-	for itr := slow; itr < len(node.getChildren()); itr++ {
-		node.setChild(itr, nil)
+	if node.getNumChildren() == 0 && node.getNodeLeaf() == nil {
+		return nil, numDel
 	}
-	node.setNumChildren(uint16(numCh))
-
 	return node, numDel
 }
 
+// dropSubtree tracks the channels of all nodes at and below the given one, which
+// are about to be removed, and returns the number of keys stored there.
+func (t *Txn[T]) dropSubtree(node Node[T]) int {
+	t.trackChannel(node)
+	numDel := 0
+	if nL := node.getNodeLeaf(); nL != nil {
+		t.trackChannel(nL)
+		numDel++
+	}
+	for _, e := range sortedChildren(node) {
+		numDel += t.dropSubtree(e.node)
+	}
+	return numDel
+}
+
 func (t *Txn[T]) makeLeaf(key []byte, value T) Node[T] {
 	// Allocate memory for the leaf node
 	l := t.allocNode(leafType)
-- 
2.43.0


From bb1fa619899451510ae4e46c11b4fb78a2334a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:40 +0000
Subject: [PATCH 15/21] fix: do not notify watchers of keys that were not
 changed

Growing or shrinking a node, inserting a key that is a prefix of an existing one
and deleting a missing key closed the watch channels of keys that kept their
values. The nodes on the path of an actual change are already tracked.
---
 helpers.go | 34 +++++-----------------------------
 txn.go     |  9 ---------
 2 files changed, 5 insertions(+), 38 deletions(-)

diff --git a/helpers.go b/helpers.go
index 493de2c..17830fc 100644
--- a/helpers.go
+++ b/helpers.go
@@ -77,10 +77,7 @@ func (t *Txn[T]) addChild4(n Node[T], c byte, child Node[T]) Node[T] {
 	} else {
 		newNode := t.allocNode(node16)
 		// Copy the child pointers and the key map
-		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
-		}
+		newNode.setNodeLeaf(n.getNodeLeaf())
 		copy(newNode.getChildren()[:], n.getChildren()[:n.getNumChildren()])
 		copy(newNode.getKeys()[:], n.getKeys()[:n.getNumChildren()])
 		t.copyHeader(newNode, n)
@@ -106,10 +103,7 @@ func (t *Txn[T]) addChild16(n Node[T], c byte, child Node[T]) Node[T] {
 		return n
 	} else {
 		newNode := t.allocNode(node48)
-		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
-		}
+		newNode.setNodeLeaf(n.getNodeLeaf())
 		// Copy the child pointers and populate the key map
 		copy(newNode.getChildren()[:], n.getChildren()[:n.getNumChildren()])
 		for i := 0; i < int(n.getNumChildren()); i++ {
@@ -133,10 +127,7 @@ func (t *Txn[T]) addChild48(n Node[T], c byte, child Node[T]) Node[T] {
 		return n
 	} else {
 		newNode := t.allocNode(node256)
-		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
-		}
+		newNode.setNodeLeaf(n.getNodeLeaf())
 		for i := 0; i < 256; i++ {
 			if n.getKeyAtIdx(i) != 0 {
 				newNode.setChild(i, n.getChild(int(n.getKeyAtIdx(i))-1))
@@ -466,7 +457,6 @@ func (t *Txn[T]) removeChild4(n Node[T], c byte) Node[T] {
 			copy(nodeToReturn.getPartial(), n.getPartial()[:min(prefix, maxPrefixLen)])
 			nodeToReturn.setPartialLen(nodeToReturn.getPartialLen() + n.getPartialLen() + 1)
 		}
-		t.trackChannel(n)
 		return nodeToReturn
 	}
 	return n
@@ -494,16 +484,11 @@ func (t *Txn[T]) removeChild16(n Node[T], c byte) Node[T] {
 	n.setNumChildren(n.getNumChildren() - 1)
 
 	if n.getNumChildren() == 3 {
-		t.trackChannel(n)
 		newNode := t.allocNode(node4)
 		n4 := newNode.(*Node4[T])
 		t.copyHeader(newNode, n)
 		copy(n4.keys[:], n.getKeys()[:4])
 		copy(n4.children[:], n.getChildren()[:4])
-		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
-		}
 		newNode.setNodeLeaf(n.getNodeLeaf())
 		return newNode
 	}
@@ -513,18 +498,13 @@ func (t *Txn[T]) removeChild16(n Node[T], c byte) Node[T] {
 func (t *Txn[T]) removeChild48(n Node[T], c uint8) Node[T] {
 	pos := n.getKeyAtIdx(int(c))
 	n.setKeyAtIdx(int(c), 0)
-	t.trackChannel(n.getChild(int(pos - 1)))
 	n.setChild(int(pos-1), nil)
 	n.setNumChildren(n.getNumChildren() - 1)
 
 	if n.getNumChildren() == 12 {
 		newNode := t.allocNode(node16)
-		t.trackChannel(n)
 		t.copyHeader(newNode, n)
-		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
-		}
+		newNode.setNodeLeaf(n.getNodeLeaf())
 		child := 0
 		for i := 0; i < 256; i++ {
 			pos = n.getKeyAtIdx(i)
@@ -548,11 +528,7 @@ func (t *Txn[T]) removeChild256(n Node[T], c uint8) Node[T] {
 	if n.getNumChildren() == 37 {
 		newNode := t.allocNode(node48)
 		t.copyHeader(newNode, n)
-		t.trackChannel(n)
-		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
-		}
+		newNode.setNodeLeaf(n.getNodeLeaf())
 		pos := 0
 		for i := 0; i < 256; i++ {
 			if n.getChild(i) != nil {
diff --git a/txn.go b/txn.go
index 03491b6..5a2f83e 100644
--- a/txn.go
+++ b/txn.go
@@ -139,7 +139,6 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 
 		if bytes.HasPrefix(getKey(nodeLeaf.getKey()), getKey(newLeaf2L.getKey())) {
 
-			t.trackChannel(nodeLeaf)
 			newNode.setNodeLeaf(newLeaf2L)
 			newNode = t.addChild(newNode, nodeLeaf.getKey()[depth+longestPrefix], node)
 
@@ -250,7 +249,6 @@ func (t *Txn[T]) Delete(key []byte) (T, bool) {
 		t.tree.root = newRoot
 	}
 	if l != nil {
-		t.trackChannel(t.tree.root)
 		t.size--
 		t.tree.size--
 		old := l.getValue()
@@ -266,13 +264,6 @@ func (t *Txn[T]) recursiveDelete(node Node[T], key []byte, depth int) (Node[T],
 		return nil, nil, false
 	}
 
-	if node.isLeaf() {
-		t.trackChannel(node)
-		if leafMatches(node.getKey(), key) == 0 {
-			return nil, node, true
-		}
-	}
-
 	// Handle hitting a leaf node
 	if node.getNodeLeaf() != nil {
 		nodeL := node.getNodeLeaf()
-- 
2.43.0


From 4d7d1e54480d1e810f5526c90194e3c4b31f8b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:22 +0000
Subject: [PATCH 16/21] fix: do not replace watch channels of the original tree

Tracking a node swapped the channel on the node of the tree the transaction was
started from. Watches taken from that tree while the transaction was open were
never notified, and abandoned transactions broke existing watches. Only nodes
created by the transaction get a new channel now; copies of tracked nodes start
with a fresh one.
---
 txn.go | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/txn.go b/txn.go
index 5a2f83e..9013293 100644
--- a/txn.go
+++ b/txn.go
@@ -28,10 +28,24 @@ func (t *Txn[T]) writeNode(n Node[T], trackCh bool) Node[T] {
 			t.trackChannel(n.getNodeLeaf())
 		}
 	}
+	return t.writableNode(n, !trackCh)
+}
+
+// modifyNode returns a version of the node whose children, prefix or leaf may be
+// changed, and tracks the channel of the node itself but not of its leaf.
+func (t *Txn[T]) modifyNode(n Node[T]) Node[T] {
+	t.trackChannel(n)
+	// A tracked channel is going to be closed, so the copy needs another one
+	return t.writableNode(n, !t.trackMutate)
+}
+
+// writableNode returns the node itself if it was created by this transaction and
+// a copy of it otherwise.
+func (t *Txn[T]) writableNode(n Node[T], keepWatch bool) Node[T] {
 	if n.getId() > t.oldMaxNodeId {
 		return n
 	}
-	nc := n.clone(!trackCh)
+	nc := n.clone(keepWatch)
 	t.tree.maxNodeId++
 	nc.setId(t.tree.maxNodeId)
 	return nc
@@ -128,8 +142,7 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 
 		nodeLeaf := node.getNodeLeaf()
 
-		t.trackChannel(node)
-		node = t.writeNode(node, false)
+		node = t.modifyNode(node)
 
 		// Determine longest prefix
 		longestPrefix := longestCommonPrefix[T](newLeaf2L, nodeLeaf, depth)
@@ -178,8 +191,7 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 		newNode := t.allocNode(node4)
 		newNode.setPartialLen(uint32(prefixDiff))
 		copy(newNode.getPartial()[:], node.getPartial()[:min(maxPrefixLen, prefixDiff)])
-		t.trackChannel(node)
-		node = t.writeNode(node, false)
+		node = t.modifyNode(node)
 
 		// Adjust the prefix of the old node
 		if node.getPartialLen() <= maxPrefixLen {
@@ -214,8 +226,7 @@ func (t *Txn[T]) insertBelow(node Node[T], key []byte, value T, depth int, old *
 	var zero T
 
 	if depth == len(key)-1 {
-		t.trackChannel(node)
-		node = t.writeNode(node, false)
+		node = t.modifyNode(node)
 		node.setNodeLeaf(t.makeLeaf(key, value).getNodeLeaf())
 		return node, zero, true
 	}
@@ -225,8 +236,7 @@ func (t *Txn[T]) insertBelow(node Node[T], key []byte, value T, depth int, old *
 	if child != nil {
 		newChild, val, mutatedSubtree := t.recursiveInsert(child, key, value, depth+1, old)
 		if mutatedSubtree || newChild != child {
-			t.trackChannel(node)
-			node = t.writeNode(node, false)
+			node = t.modifyNode(node)
 			node.setChild(idx, newChild)
 		}
 		return node, val, mutatedSubtree
@@ -234,8 +244,7 @@ func (t *Txn[T]) insertBelow(node Node[T], key []byte, value T, depth int, old *
 
 	// No child, node goes within us
 	newLeaf := t.makeLeaf(key, value)
-	t.trackChannel(node)
-	node = t.writeNode(node, false)
+	node = t.modifyNode(node)
 	return t.addChild(node, key[depth], newLeaf), zero, true
 }
 
@@ -302,8 +311,7 @@ func (t *Txn[T]) recursiveDelete(node Node[T], key []byte, depth int) (Node[T],
 	newChild, val, mutate := t.recursiveDelete(child, key, depth+1)
 
 	if newChild != child || val != nil {
-		t.trackChannel(node)
-		node = t.writeNode(node, false)
+		node = t.modifyNode(node)
 		node.setChild(idx, newChild)
 		if newChild == nil {
 			node = t.removeChild(node, key[depth])
@@ -441,8 +449,7 @@ func (t *Txn[T]) deletePrefix(node Node[T], prefix []byte, depth int) (Node[T],
 		return node, 0
 	}
 
-	t.trackChannel(node)
-	node = t.writeNode(node, false)
+	node = t.modifyNode(node)
 	node.setChild(idx, newChild)
 	if newChild == nil {
 		node = t.removeChild(node, prefix[depth])
@@ -536,7 +543,11 @@ func (t *Txn[T]) trackChannel(node Node[T]) {
 		t.trackChnSlice = make([]chan struct{}, 0)
 	}
 	t.trackChnSlice = append(t.trackChnSlice, ch)
-	node.setMutateCh(make(chan struct{}))
+	if node.getId() > t.oldMaxNodeId {
+		// The node stays in use, so it needs another channel. Nodes of the tree the
+		// transaction started from keep theirs, as watches may still be taken there.
+		node.setMutateCh(make(chan struct{}))
+	}
 }
 
 // isClosed returns true if the given channel is closed.
-- 
2.43.0


From 2c4c5598de95fca29d61ee9bbceff606382bac69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:44 +0000
Subject: [PATCH 17/21] fix: watch the node where a missing key would be
 inserted

GetWatch only compared the inline part of long node prefixes. For a missing key
that differs behind the inline part it returned the channel of a deeper node,
which is not notified when the key is inserted.
---
 tree.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index 0fd795e..435967d 100644
--- a/tree.go
+++ b/tree.go
@@ -205,8 +205,10 @@ func (t *RadixTree[T]) iterativeSearchWithWatch(key []byte) (T, bool, <-chan str
 
 		// Bail if the prefix does not match
 		if n.getPartialLen() > 0 {
-			prefixLen := checkPrefix(n.getPartial(), int(n.getPartialLen()), getKey(key), depth)
-			if prefixLen != min(maxPrefixLen, int(n.getPartialLen())) {
+			// The whole prefix has to be compared, as the key would be inserted at
+			// the first node that differs
+			prefixLen := prefixMismatch[T](n, key, len(key)-1, depth)
+			if prefixLen < int(n.getPartialLen()) {
 				return zero, false, n.getMutateCh()
 			}
 			depth += int(n.getPartialLen())
-- 
2.43.0


From a19ce9dffb61f79e2de03df912d7044940955494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:50 +0000
Subject: [PATCH 18/21] fix: isolate a transaction from its clones

After Clone the original transaction kept writing in place to nodes it had
created before, which are shared with the clone.
---
 txn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/txn.go b/txn.go
index 9013293..4fa9c35 100644
--- a/txn.go
+++ b/txn.go
@@ -69,7 +69,9 @@ func (t *RadixTree[T]) Txn() *Txn[T] {
 // Clone makes an independent copy of the transaction. The new transaction
 // does not track any nodes and has TrackMutate turned off. The cloned transaction will contain any uncommitted writes in the original transaction but further mutations to either will be independent and result in different radix trees on Commit. A cloned transaction may be passed to another goroutine and mutated there independently however each transaction may only be mutated in a single thread.
 func (t *Txn[T]) Clone() *Txn[T] {
-	// reset the writable node cache to avoid leaking future writes into the clone
+	// All current nodes are shared with the clone from now on, so neither
+	// transaction may write to them in place.
+	t.oldMaxNodeId = t.tree.maxNodeId
 	newTree := &RadixTree[T]{
 		t.tree.root.clone(true),
 		t.size,
-- 
2.43.0


From c27f62f5f0cb1a3c72d8de7b603918e79b334947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:56 +0000
Subject: [PATCH 19/21] fix: keep a committed tree unchanged when its
 transaction is reused

Writes made through a transaction after committing it modified the nodes of the
committed tree in place.
---
 txn.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/txn.go b/txn.go
index 4fa9c35..8809795 100644
--- a/txn.go
+++ b/txn.go
@@ -373,6 +373,9 @@ func (t *Txn[T]) CommitOnly() *RadixTree[T] {
 		t.size,
 		t.tree.maxNodeId,
 	}
+	// The nodes now belong to the committed tree, so further writes through this
+	// transaction must copy them.
+	t.oldMaxNodeId = t.tree.maxNodeId
 	return nt
 
 }
-- 
2.43.0


From cbe214083d1af1c09758b434264f99a1111f8db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:10:00 +0000
Subject: [PATCH 20/21] fix: seek an iterator again from where it was created

SeekPrefix replaced the iterator's starting node by the node it found. A second
seek then searched only below that node and missed keys.
---
 iterator.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/iterator.go b/iterator.go
index b6e7f65..beacc74 100644
--- a/iterator.go
+++ b/iterator.go
@@ -114,7 +114,6 @@ func (i *Iterator[T]) SeekPrefix(prefix []byte) Node[T] {
 	depth := 0
 
 	i.stack = []Node[T]{node}
-	i.node = node
 
 	for {
 		// Check if the node matches the prefix
@@ -125,7 +124,6 @@ func (i *Iterator[T]) SeekPrefix(prefix []byte) Node[T] {
 			mismatchIdx := prefixMismatch[T](node, prefix, len(prefix), depth)
 			if mismatchIdx < int(node.getPartialLen()) {
 				// If there's a mismatch, set the node to nil to break the loop
-				i.node = node
 				i.stack = []Node[T]{node}
 				return node
 			}
@@ -134,7 +132,6 @@ func (i *Iterator[T]) SeekPrefix(prefix []byte) Node[T] {
 
 		if depth >= len(prefix) {
 			// If the prefix is exhausted, break the loop
-			i.node = node
 			i.stack = []Node[T]{node}
 			return node
 		}
@@ -143,13 +140,11 @@ func (i *Iterator[T]) SeekPrefix(prefix []byte) Node[T] {
 		child, _ := findChild[T](node, prefix[depth])
 		if child == nil {
 			// If the child node doesn't exist, break the loop
-			i.node = node
 			i.stack = []Node[T]{node}
 			return node
 		}
 
 		i.stack = []Node[T]{node}
-		i.node = node
 		i.depth = depth
 
 		node = child
-- 
2.43.0


From 1fdc3c0d22178376c2bd3090feaa1de4a8b4275c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:10:09 +0000
Subject: [PATCH 21/21] fix: copy the prefix an iterator is positioned with

The iterator kept the caller's slice and compared later keys with it. Changing
the slice between two steps changed which keys were returned.
---
 iterator.go             | 3 ++-
 lower_bound_iterator.go | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/iterator.go b/iterator.go
index beacc74..3f08b07 100644
--- a/iterator.go
+++ b/iterator.go
@@ -108,7 +108,8 @@ func (i *Iterator[T]) SeekPrefixWatch(prefix []byte) (watch <-chan struct{}) {
 func (i *Iterator[T]) SeekPrefix(prefix []byte) Node[T] {
 	node := i.node
 
-	i.path = prefix
+	// Copy, as the prefix is compared with every key and the caller may reuse it
+	i.path = append([]byte(nil), prefix...)
 
 	i.stack = nil
 	depth := 0
diff --git a/lower_bound_iterator.go b/lower_bound_iterator.go
index 6d39c49..8826618 100644
--- a/lower_bound_iterator.go
+++ b/lower_bound_iterator.go
@@ -109,7 +109,7 @@ func (i *LowerBoundIterator[T]) SeekLowerBound(key []byte) {
 	// smallest ones on top. It must not stay nil, as Next would then iterate over
 	// the whole tree.
 	i.stack = []Node[T]{}
-	i.path = key
+	i.path = append([]byte(nil), key...)
 
 	node := i.node
 	depth := 0
-- 
2.43.0

