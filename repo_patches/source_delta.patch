From 278696ce3bf07241369e6054465023a6619f4999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 01/60] fix: a declined create leaves the btree unchanged

---
 .../datastructures/btree/threadsafe_b_tree.go | 10 +++++++++-
 .../datastructures/btree/threadsafe_create.go | 20 +++++++++----------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/internal/datastructures/btree/threadsafe_b_tree.go b/internal/datastructures/btree/threadsafe_b_tree.go
index a9a7494..bcf6d6d 100644
--- a/internal/datastructures/btree/threadsafe_b_tree.go
+++ b/internal/datastructures/btree/threadsafe_b_tree.go
@@ -92,7 +92,15 @@ func (bt *threadSafeBTree) Empty() bool {
 	bt.lock.RLock()
 	defer bt.lock.RUnlock()
 
-	return bt.root == nil
+	if bt.root == nil {
+		return true
+	}
+
+	// the root can be left without any values when a create callback did not return an item
+	bt.root.lock.RLock()
+	defer bt.root.lock.RUnlock()
+
+	return bt.root.numberOfValues == 0
 }
 
 // general helper functions
diff --git a/internal/datastructures/btree/threadsafe_create.go b/internal/datastructures/btree/threadsafe_create.go
index a1f7d5d..85d2093 100644
--- a/internal/datastructures/btree/threadsafe_create.go
+++ b/internal/datastructures/btree/threadsafe_create.go
@@ -308,16 +308,16 @@ func (bn *threadSafeBNode) createTreeItem(key datatypes.EncapsulatedValue, onCre
 				return ErrorKeyAlreadyExists
 			}
 
-			// shift current values all 1 position
-			for i := bn.numberOfValues; i > index; i-- {
-				bn.keyValues[i] = bn.keyValues[i-1]
-			}
-
 			break
 		}
 	}
 
 	if value := onCreate(); value != nil {
+		// shift the greater values all 1 position
+		for i := bn.numberOfValues; i > index; i-- {
+			bn.keyValues[i] = bn.keyValues[i-1]
+		}
+
 		bn.numberOfValues++
 		bn.keyValues[index] = &keyValue{key: key, value: value}
 	}
@@ -342,16 +342,16 @@ func (bn *threadSafeBNode) createOrFindTreeItem(key datatypes.EncapsulatedValue,
 				return
 			}
 
-			// shift current values all 1 position
-			for i := bn.numberOfValues; i > index; i-- {
-				bn.keyValues[i] = bn.keyValues[i-1]
-			}
-
 			break
 		}
 	}
 
 	if value := onCreate(); value != nil {
+		// shift the greater values all 1 position
+		for i := bn.numberOfValues; i > index; i-- {
+			bn.keyValues[i] = bn.keyValues[i-1]
+		}
+
 		bn.numberOfValues++
 		bn.keyValues[index] = &keyValue{key: key, value: value}
 	}
-- 
2.43.0


From ec14e6cd64788c17a7f402d0daf7f76dd5a04895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 02/60] fix: release the nodes that were locked when an
 iteration stops early

---
 internal/datastructures/btree/threadsafe_find.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/datastructures/btree/threadsafe_find.go b/internal/datastructures/btree/threadsafe_find.go
index a6b331a..14c6a58 100644
--- a/internal/datastructures/btree/threadsafe_find.go
+++ b/internal/datastructures/btree/threadsafe_find.go
@@ -168,7 +168,7 @@ func (bn *threadSafeBNode) iterate(typeRestrictions v1common.TypeRestrictions, c
 		// need to recurse to all potential children from the start index
 		if !children[i].iterate(typeRestrictions, callback) {
 			for unlockIndex := i + 1; unlockIndex < len(children); unlockIndex++ {
-				bn.children[unlockIndex].lock.RUnlock()
+				children[unlockIndex].lock.RUnlock()
 			}
 
 			return false
-- 
2.43.0


From 3492dfaf65b2a18f008b3587cc5d5939cd22240c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 03/60] fix: keep the btree order when an Any key is in an
 internal node

---
 internal/datastructures/btree/threadsafe_create.go | 2 +-
 internal/datastructures/btree/threadsafe_delete.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/datastructures/btree/threadsafe_create.go b/internal/datastructures/btree/threadsafe_create.go
index 85d2093..73acccc 100644
--- a/internal/datastructures/btree/threadsafe_create.go
+++ b/internal/datastructures/btree/threadsafe_create.go
@@ -404,7 +404,7 @@ func (bn *threadSafeBNode) insertNode(node *threadSafeBNode) {
 	for index = 0; index < bn.numberOfValues; index++ {
 		keyValue := bn.keyValues[index]
 
-		if node.keyValues[0].key.Less(keyValue.key) {
+		if node.keyValues[0].key.LessMatchType(keyValue.key) {
 			// shift current values all 1 position
 			for i := bn.numberOfValues; i > index; i-- {
 				bn.keyValues[i] = bn.keyValues[i-1]
diff --git a/internal/datastructures/btree/threadsafe_delete.go b/internal/datastructures/btree/threadsafe_delete.go
index 4db1bf8..da62039 100644
--- a/internal/datastructures/btree/threadsafe_delete.go
+++ b/internal/datastructures/btree/threadsafe_delete.go
@@ -226,7 +226,7 @@ func (bn *threadSafeBNode) swap(releaseParentLock func(), key any, swapNode *thr
 
 	// on a leaf node to swap and just return.
 	if bn.isLeaf() {
-		if !bn.keyValues[0].key.Less(swapNode.keyValues[swapIndex].key) {
+		if !bn.keyValues[0].key.LessMatchType(swapNode.keyValues[swapIndex].key) {
 			// swapping on the left most keyValue and deleting
 			swapNode.keyValues[swapIndex] = bn.keyValues[0]
 			return bn.removeLeafItem(0, nil) // already checked if item can be deleted
@@ -247,7 +247,7 @@ func (bn *threadSafeBNode) swap(releaseParentLock func(), key any, swapNode *thr
 
 	// recursivly swap
 	childIndex := 0
-	if !bn.keyValues[0].key.Less(swapNode.keyValues[swapIndex].key) {
+	if !bn.keyValues[0].key.LessMatchType(swapNode.keyValues[swapIndex].key) {
 		// swapping on the left node
 		childIndex = 0
 	} else {
-- 
2.43.0


From d3bbdd79306d933bd0f377e00d5a9f52e2326f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 04/60] fix: operations that start while a btree is destroyed
 do not panic

---
 internal/datastructures/btree/operations.go   | 41 +++++++++++++++++++
 .../datastructures/btree/threadsafe_b_tree.go |  6 +--
 2 files changed, 44 insertions(+), 3 deletions(-)
 create mode 100644 internal/datastructures/btree/operations.go

diff --git a/internal/datastructures/btree/operations.go b/internal/datastructures/btree/operations.go
new file mode 100644
index 0000000..33dea4c
--- /dev/null
+++ b/internal/datastructures/btree/operations.go
@@ -0,0 +1,41 @@
+package btree
+
+import "sync"
+
+// operations counts the operations in progress on a tree. Unlike a sync.WaitGroup, new operations
+// can start while another goroutine still returns from Wait
+type operations struct {
+	lock  sync.Mutex
+	idle  *sync.Cond
+	count int // operations in progress
+	idled int // how often there were no more operations in progress
+}
+
+func newOperations() *operations {
+	ops := &operations{}
+	ops.idle = sync.NewCond(&ops.lock)
+
+	return ops
+}
+
+// Add delta, which may be negative, to the number of operations
+func (ops *operations) Add(delta int) {
+	ops.lock.Lock()
+	defer ops.lock.Unlock()
+
+	ops.count += delta
+	if ops.count == 0 {
+		ops.idled++
+		ops.idle.Broadcast()
+	}
+}
+
+// Wait until there was a moment without any operations
+func (ops *operations) Wait() {
+	ops.lock.Lock()
+	defer ops.lock.Unlock()
+
+	for idled := ops.idled; ops.count != 0 && idled == ops.idled; {
+		ops.idle.Wait()
+	}
+}
diff --git a/internal/datastructures/btree/threadsafe_b_tree.go b/internal/datastructures/btree/threadsafe_b_tree.go
index bcf6d6d..52ff8b6 100644
--- a/internal/datastructures/btree/threadsafe_b_tree.go
+++ b/internal/datastructures/btree/threadsafe_b_tree.go
@@ -23,8 +23,8 @@ type threadSafeBTree struct {
 	destroyingKeys     []datatypes.EncapsulatedValue
 
 	// destroying whole tree operations
-	readWriteWG *sync.WaitGroup // operations to take place before destroy
-	destroying  *atomic.Bool    // destroying the whole tree
+	readWriteWG *operations  // operations to take place before destroy
+	destroying  *atomic.Bool // destroying the whole tree
 
 	// lock for managing the root of the btree
 	lock *sync.RWMutex
@@ -76,7 +76,7 @@ func NewThreadSafe(nodeSize int) (*threadSafeBTree, error) {
 		destroyingKeysLock: new(sync.RWMutex),
 		destroyingKeys:     []datatypes.EncapsulatedValue{},
 
-		readWriteWG: new(sync.WaitGroup),
+		readWriteWG: newOperations(),
 		destroying:  new(atomic.Bool),
 
 		lock: new(sync.RWMutex),
-- 
2.43.0


From 422b8461da674aa0c441c1a37f8f6cd0cfc3136a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 05/60] fix: a match goes on after an item that is already
 removed

---
 internal/datastructures/btree_associated/threadsafe_match.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_match.go b/internal/datastructures/btree_associated/threadsafe_match.go
index 9346a8c..5e263f8 100644
--- a/internal/datastructures/btree_associated/threadsafe_match.go
+++ b/internal/datastructures/btree_associated/threadsafe_match.go
@@ -136,7 +136,7 @@ func (tsat *threadsafeAssociatedTree) MatchAction(matchActionQuery *querymatchac
 
 		// run the callback for all the found IDs
 		for _, id := range validGroupedIDs.Values() {
-			shouldContinue := false
+			shouldContinue := true
 			tsat.associatedIDs.Find(datatypes.String(id), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, func(key datatypes.EncapsulatedValue, item any) bool {
 				shouldContinue = onQueryPagination(item.(AssociatedKeyValues))
 				return shouldContinue
-- 
2.43.0


From 41f2503fa5883dfeb82cf183ff78adc6f23b0432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 06/60] fix: destroying an association does not deadlock with
 creates and deletes

---
 .../btree_associated/threadsafe_associated.go | 28 +++++++++++++
 .../btree_associated/threadsafe_create.go     |  6 ++-
 .../btree_associated/threadsafe_destroy.go    | 39 +++++++------------
 3 files changed, 46 insertions(+), 27 deletions(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_associated.go b/internal/datastructures/btree_associated/threadsafe_associated.go
index 493f295..aae57d8 100644
--- a/internal/datastructures/btree_associated/threadsafe_associated.go
+++ b/internal/datastructures/btree_associated/threadsafe_associated.go
@@ -81,3 +81,31 @@ func newIDNode() *threadsafeIDNode {
 		ids:      [][]string{},
 	}
 }
+
+// remove an ID from the node and free the memory that is no longer needed. The node must be locked by the caller
+func (idNode *threadsafeIDNode) removeID(keyValuesLen int, idToDelete string) {
+	// another operation already removed the id
+	if len(idNode.ids) < keyValuesLen {
+		return
+	}
+
+	for index, value := range idNode.ids[keyValuesLen-1] {
+		if value == idToDelete {
+			// swap with last element
+			idNode.ids[keyValuesLen-1][index] = idNode.ids[keyValuesLen-1][len(idNode.ids[keyValuesLen-1])-1]
+			// pop last element
+			idNode.ids[keyValuesLen-1] = idNode.ids[keyValuesLen-1][:len(idNode.ids[keyValuesLen-1])-1]
+			break
+		}
+	}
+
+	// truncate the IDNode to free memory
+	for i := len(idNode.ids) - 1; i >= 0; i-- {
+		if len(idNode.ids[i]) == 0 {
+			idNode.ids = idNode.ids[:i]
+		} else {
+			// don't process anymore since we found a value
+			break
+		}
+	}
+}
diff --git a/internal/datastructures/btree_associated/threadsafe_create.go b/internal/datastructures/btree_associated/threadsafe_create.go
index b20ec4a..7750ff6 100644
--- a/internal/datastructures/btree_associated/threadsafe_create.go
+++ b/internal/datastructures/btree_associated/threadsafe_create.go
@@ -270,12 +270,14 @@ func (tsat *threadsafeAssociatedTree) CreateOrFind(keyValues datatypes.KeyValues
 	}
 
 	// must have been a race where 2 requests tried to create the same object
+	found := false
 	bTreeFind := func(key datatypes.EncapsulatedValue, item any) bool {
+		found = true
 		onFind(item.(AssociatedKeyValues))
 		return false
 	}
 	if idSet != nil && idSet.Size() == 1 {
-		if err := tsat.associatedIDs.Find(datatypes.String(idSet.Values()[0]), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, bTreeFind); err != nil {
+		if err := tsat.associatedIDs.Find(datatypes.String(idSet.Values()[0]), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, bTreeFind); err != nil || !found {
 			// unlock the IDs
 			for _, idNode := range idNodes {
 				idNode.creating.Add(-1)
@@ -283,7 +285,7 @@ func (tsat *threadsafeAssociatedTree) CreateOrFind(keyValues datatypes.KeyValues
 			}
 
 			switch err {
-			case btree.ErrorKeyDestroying:
+			case nil, btree.ErrorKeyDestroying:
 				// this is fine, just need to report that the value is being destroyed
 				return "", ErrorTreeItemDestroying
 			default:
diff --git a/internal/datastructures/btree_associated/threadsafe_destroy.go b/internal/datastructures/btree_associated/threadsafe_destroy.go
index 90aadc8..0bc27d9 100644
--- a/internal/datastructures/btree_associated/threadsafe_destroy.go
+++ b/internal/datastructures/btree_associated/threadsafe_destroy.go
@@ -24,20 +24,21 @@ func (tsat *threadsafeAssociatedTree) DestroyByAssociatedID(associatedID string,
 	}
 	defer tsat.destroySyncer.ClearOperation()
 
+	// the KeyValues of the item if it was destroyed
+	var destroyedKeyValues datatypes.KeyValues
+
 	// Don't need to check that the associatedID is being destroyed. That is handled in the bTree code.
 	bTreeCanDestroy := func(_ datatypes.EncapsulatedValue, item any) bool {
 		associatedKeyValues := item.(AssociatedKeyValues)
 
-		// 1. destroy the item
+		// destroy the item
 		if canDelete != nil {
 			if !canDelete(associatedKeyValues) {
 				return false
 			}
 		}
 
-		// 2. the item was destroyed, need to remove the KeyValues that define the item
-		tsat.destroyKeyValues(associatedID, associatedKeyValues.KeyValues())
-
+		destroyedKeyValues = associatedKeyValues.KeyValues()
 		return true
 	}
 
@@ -51,6 +52,12 @@ func (tsat *threadsafeAssociatedTree) DestroyByAssociatedID(associatedID string,
 		}
 	}
 
+	// the item was destroyed, need to remove the KeyValues that define the item. This must not run as part of the callback
+	// since other operations lock the ID nodes before the associated ids
+	if destroyedKeyValues != nil {
+		tsat.destroyKeyValues(associatedID, destroyedKeyValues)
+	}
+
 	return nil
 }
 
@@ -99,25 +106,7 @@ func (tsat *threadsafeAssociatedTree) destroyKeyValues(associatedID string, keyV
 			idNode.lock.Lock()
 			defer idNode.lock.Unlock()
 
-			// remove the id from the id node
-			for index, value := range idNode.ids[keyLength-1] {
-				if value == idToDelete {
-					// swap with last element
-					idNode.ids[keyLength-1][index] = idNode.ids[keyLength-1][len(idNode.ids[keyLength-1])-1]
-					// pop last element
-					idNode.ids[keyLength-1] = idNode.ids[keyLength-1][:len(idNode.ids[keyLength-1])-1]
-				}
-			}
-
-			// truncate the IDNode to free memory
-			for i := len(idNode.ids) - 1; i >= 0; i-- {
-				if len(idNode.ids[i]) == 0 {
-					idNode.ids = idNode.ids[:len(idNode.ids)-1]
-				} else {
-					// don't process anymore since we found a value
-					break
-				}
-			}
+			idNode.removeID(keyLength, idToDelete)
 
 			return len(idNode.ids) == 0 && idNode.creating.Load() == 0
 		}
@@ -134,8 +123,8 @@ func (tsat *threadsafeAssociatedTree) destroyKeyValues(associatedID string, keyV
 		}
 	}
 
-	for key, value := range keyValues {
-		if err := tsat.keys.Delete(datatypes.String(key), deleteKey(value, len(keyValues), associatedID)); err != nil {
+	for _, key := range keyValues.SortedKeys() {
+		if err := tsat.keys.Delete(datatypes.String(key), deleteKey(keyValues[key], len(keyValues), associatedID)); err != nil {
 			panic(err)
 		}
 	}
-- 
2.43.0


From da1fb11fe29c23c4aa7665b43c5eea0be249d819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 07/60] fix: unlock the id nodes when deleting an item that is
 being destroyed

---
 .../datastructures/btree_associated/threadsafe_delete.go     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/datastructures/btree_associated/threadsafe_delete.go b/internal/datastructures/btree_associated/threadsafe_delete.go
index d3a5d66..dc51ee2 100644
--- a/internal/datastructures/btree_associated/threadsafe_delete.go
+++ b/internal/datastructures/btree_associated/threadsafe_delete.go
@@ -111,6 +111,11 @@ func (tsat *threadsafeAssociatedTree) Delete(keyValues datatypes.KeyValues, canD
 
 			// try and delte the ID's value from the tree
 			if err := tsat.associatedIDs.Delete(datatypes.String(idToDelete), btreeDelete); err != nil {
+				// unlock all the nodes
+				for _, idNode := range idNodes {
+					idNode.lock.Unlock()
+				}
+
 				switch err {
 				case btree.ErrorKeyDestroying:
 					// this is fine since the key is already being desstroyed.
-- 
2.43.0


From 98fd6a4524551256ba3fd477680297e29c5c659a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 08/60] fix: a declined create in the associated tree leaves
 nothing behind

---
 .../btree_associated/threadsafe_create.go        | 16 ++++++++++------
 .../btree_associated/threadsafe_delete.go        |  7 ++++++-
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_create.go b/internal/datastructures/btree_associated/threadsafe_create.go
index 7750ff6..2ee5682 100644
--- a/internal/datastructures/btree_associated/threadsafe_create.go
+++ b/internal/datastructures/btree_associated/threadsafe_create.go
@@ -165,14 +165,15 @@ func (tsat *threadsafeAssociatedTree) Create(keyValues datatypes.KeyValues, onCr
 	} else {
 		// failed to crete the new item to save.
 
-		// unlock the IDs
+		// remove the new ID and unlock the IDs
 		for _, idNode := range idNodes {
+			idNode.removeID(keyValuesLen, newID)
 			idNode.creating.Add(-1)
 			idNode.lock.Unlock()
 		}
 
-		// call delete for the item to clean any newly created items
-		if err := tsat.Delete(keyValues, nil); err != nil {
+		// clean any newly created items
+		if err := tsat.cleanKeyValues(keyValues); err != nil {
 			panic(err)
 		}
 
@@ -334,14 +335,17 @@ func (tsat *threadsafeAssociatedTree) CreateOrFind(keyValues datatypes.KeyValues
 	} else {
 		// failed to crete the new item to save.
 
-		// unlock the IDs
+		// remove the new ID and unlock the IDs
 		for _, idNode := range idNodes {
+			idNode.removeID(keyValuesLen, newID)
 			idNode.creating.Add(-1)
 			idNode.lock.Unlock()
 		}
 
-		// call delete for the item to clean everything up
-		tsat.Delete(keyValues, nil)
+		// clean any newly created items
+		if err := tsat.cleanKeyValues(keyValues); err != nil {
+			panic(err)
+		}
 	}
 
 	return newID, nil
diff --git a/internal/datastructures/btree_associated/threadsafe_delete.go b/internal/datastructures/btree_associated/threadsafe_delete.go
index dc51ee2..eba2a27 100644
--- a/internal/datastructures/btree_associated/threadsafe_delete.go
+++ b/internal/datastructures/btree_associated/threadsafe_delete.go
@@ -157,6 +157,11 @@ func (tsat *threadsafeAssociatedTree) Delete(keyValues datatypes.KeyValues, canD
 		}
 	}
 
+	return tsat.cleanKeyValues(keyValues)
+}
+
+// remove any KEYs and VALUEs that no longer have any saved IDs
+func (tsat *threadsafeAssociatedTree) cleanKeyValues(keyValues datatypes.KeyValues) error {
 	// remove the KEYs and VALUEs if there are no more saved IDs
 	deleteValue := func(_ datatypes.EncapsulatedValue, item any) bool {
 		// don't need to lock here. BTree has exclusive lock access already
@@ -181,7 +186,7 @@ func (tsat *threadsafeAssociatedTree) Delete(keyValues datatypes.KeyValues, canD
 	}
 
 	// cleanup any indexes that are now empty
-	for _, key := range sortedKeys {
+	for _, key := range keyValues.SortedKeys() {
 		if err := tsat.keys.Delete(datatypes.String(key), deleteKey(key)); err != nil {
 			return err
 		}
-- 
2.43.0


From 2ead5eb787dd281b6113870424b128abb97cb7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:36 +0000
Subject: [PATCH 09/60] fix: deleting by an associated id never removes a newer
 item with the same key values

---
 .../datastructures/btree_associated/threadsafe_delete.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_delete.go b/internal/datastructures/btree_associated/threadsafe_delete.go
index eba2a27..f33ad02 100644
--- a/internal/datastructures/btree_associated/threadsafe_delete.go
+++ b/internal/datastructures/btree_associated/threadsafe_delete.go
@@ -35,6 +35,11 @@ func (tsat *threadsafeAssociatedTree) Delete(keyValues datatypes.KeyValues, canD
 	}
 	defer tsat.destroySyncer.ClearOperation()
 
+	return tsat.delete(keyValues, "", canDelete)
+}
+
+// delete the item for the KeyValues. If the associatedID is provided, the item is only removed if it has that ID
+func (tsat *threadsafeAssociatedTree) delete(keyValues datatypes.KeyValues, associatedID string, canDelete BTreeAssociatedRemove) error {
 	var idSet set.Set[string]
 	idNodes := []*threadsafeIDNode{}
 
@@ -97,7 +102,7 @@ func (tsat *threadsafeAssociatedTree) Delete(keyValues datatypes.KeyValues, canD
 		}
 
 		// if there is only 1 value in the set, then we know that we found the desired object id
-		if idSet != nil && idSet.Size() == 1 {
+		if idSet != nil && idSet.Size() == 1 && (associatedID == "" || idSet.Values()[0] == associatedID) {
 			deleted := true
 			idToDelete := idSet.Values()[0]
 
@@ -237,7 +242,7 @@ func (tsat *threadsafeAssociatedTree) DeleteByAssociatedID(assocaitedID string,
 	}
 
 	if keyValues != nil {
-		return tsat.Delete(keyValues, canDelete)
+		return tsat.delete(keyValues, assocaitedID, canDelete)
 	}
 
 	return nil
-- 
2.43.0


From 8c9f71571b1fc1ea01c006c28d8e6841ee36ab20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 10/60] fix: a query with NotEquals does not report an item
 that was created while it ran

---
 .../btree_associated/threadsafe_query.go      | 42 +++++++++++++------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_query.go b/internal/datastructures/btree_associated/threadsafe_query.go
index b69f9da..ca94c3f 100644
--- a/internal/datastructures/btree_associated/threadsafe_query.go
+++ b/internal/datastructures/btree_associated/threadsafe_query.go
@@ -2,6 +2,7 @@ package btreeassociated
 
 import (
 	"fmt"
+	"sort"
 
 	"github.com/DanLavine/willow/internal/datastructures/btree"
 	"github.com/DanLavine/willow/internal/datastructures/set"
@@ -204,7 +205,30 @@ func (tsat *threadsafeAssociatedTree) findIDs(associatedSelection *queryassociat
 	validIDs := set.New[string]()
 	invalidIDs := set.New[string]()
 
-	for _, queryKey := range associatedSelection.SortedKeys() {
+	// the NotEquals comparisons need to run after all the possible IDs are known. Otherwise an item that is created in
+	// between would not be filtered
+	queryKeys := associatedSelection.SortedKeys()
+	sort.SliceStable(queryKeys, func(i, j int) bool {
+		return associatedSelection.KeyValues[queryKeys[i]].Comparison != v1common.NotEquals &&
+			associatedSelection.KeyValues[queryKeys[j]].Comparison == v1common.NotEquals
+	})
+
+	// Special case where the only query is a FALSE check. So need to also find all other IDs and to perform a union
+	// NOTE: also important to not update the IDNodes query here as this will be a lot of items to store additionally. So not worth the extra memory usage
+	addAllIDs := func() {
+		validAdded = true
+
+		allIDs := []string{}
+		tsat.keys.Find(datatypes.Any(), v1common.TypeRestrictions{MinDataType: datatypes.MinDataType, MaxDataType: datatypes.MaxDataType}, func(key datatypes.EncapsulatedValue, item any) bool {
+			valuesNode := item.(*threadsafeValuesNode)
+
+			_ = valuesNode.values.Find(datatypes.Any(), v1common.TypeRestrictions{MinDataType: datatypes.MinDataType, MaxDataType: datatypes.MaxDataType}, getAllIDs(&allIDs))
+			validIDs.AddBulk(allIDs)
+			return true
+		})
+	}
+
+	for _, queryKey := range queryKeys {
 		allIDS := []string{}
 		associatedValue := associatedSelection.KeyValues[queryKey]
 
@@ -224,6 +248,10 @@ func (tsat *threadsafeAssociatedTree) findIDs(associatedSelection *queryassociat
 				validIDs.AddBulk(allIDS)
 			}
 		case v1common.NotEquals:
+			if !validAdded {
+				addAllIDs()
+			}
+
 			_ = tsat.keys.Find(datatypes.String(queryKey), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, func(key datatypes.EncapsulatedValue, item any) bool {
 				valuesNode := item.(*threadsafeValuesNode)
 
@@ -304,17 +332,7 @@ func (tsat *threadsafeAssociatedTree) findIDs(associatedSelection *queryassociat
 	}
 
 	if !validAdded {
-		// Special case where the only query is a FALSE check. So need to also find all other IDs and to perform a union
-		// NOTE: also important to not update the IDNodes query here as this will be a lot of items to store additionally. So not worth the extra memory usage
-
-		allIDs := []string{}
-		tsat.keys.Find(datatypes.Any(), v1common.TypeRestrictions{MinDataType: datatypes.MinDataType, MaxDataType: datatypes.MaxDataType}, func(key datatypes.EncapsulatedValue, item any) bool {
-			valuesNode := item.(*threadsafeValuesNode)
-
-			_ = valuesNode.values.Find(datatypes.Any(), v1common.TypeRestrictions{MinDataType: datatypes.MinDataType, MaxDataType: datatypes.MaxDataType}, getAllIDs(&allIDs))
-			validIDs.AddBulk(allIDs)
-			return true
-		})
+		addAllIDs()
 	}
 
 	// filter the IDs to a list of what is only acceptable
-- 
2.43.0


From f12428377554b87570acc333379684dd2ec8ab24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 11/60] fix: release the btree when the type restrictions
 exclude the key

---
 internal/datastructures/btree/threadsafe_find.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/datastructures/btree/threadsafe_find.go b/internal/datastructures/btree/threadsafe_find.go
index 14c6a58..04f6e7d 100644
--- a/internal/datastructures/btree/threadsafe_find.go
+++ b/internal/datastructures/btree/threadsafe_find.go
@@ -55,6 +55,9 @@ func (btree *threadSafeBTree) Find(key datatypes.EncapsulatedValue, typeRestrict
 				btree.root.findMatchType(key, func(item any) {
 					shouldContinue = onIterate(key, item)
 				})
+			} else if typeRestrictions.MaxDataType < datatypes.T_any {
+				// nothing can be found with the type restrictions
+				btree.lock.RUnlock()
 			}
 
 			// check for Any
@@ -257,6 +260,9 @@ func (btree *threadSafeBTree) FindLessThan(key datatypes.EncapsulatedValue, type
 			}
 
 			shouldContinue = btree.root.findLessThan(key, typeRestrictions, onIterate)
+		} else if typeRestrictions.MaxDataType < datatypes.T_any {
+			// nothing can be found with the type restrictions
+			btree.lock.RUnlock()
 		}
 
 		// check for any Any
@@ -381,6 +387,9 @@ func (btree *threadSafeBTree) FindLessThanOrEqual(key datatypes.EncapsulatedValu
 			}
 
 			shouldContinue = btree.root.findLessThanOrEqual(key, typeRestrictions, onIterate)
+		} else if typeRestrictions.MaxDataType < datatypes.T_any {
+			// nothing can be found with the type restrictions
+			btree.lock.RUnlock()
 		}
 
 		// check for any Any
@@ -511,6 +520,9 @@ func (btree *threadSafeBTree) FindGreaterThan(key datatypes.EncapsulatedValue, t
 			btree.lock.RUnlock()
 
 			btree.root.findGreaterThan(key, typeRestrictions, onIterate)
+		} else {
+			// nothing can be found with the type restrictions
+			btree.lock.RUnlock()
 		}
 	} else {
 		btree.lock.RUnlock()
@@ -615,6 +627,9 @@ func (btree *threadSafeBTree) FindGreaterThanOrEqual(key datatypes.EncapsulatedV
 			btree.lock.RUnlock()
 
 			btree.root.findGreaterThanOrEqual(key, typeRestrictions, onIterate)
+		} else {
+			// nothing can be found with the type restrictions
+			btree.lock.RUnlock()
 		}
 	} else {
 		btree.lock.RUnlock()
-- 
2.43.0


From 16cdc92d05e21650cd5207dfea5e0ac3e2f230ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 12/60] fix: range queries respect both ends of the type
 restrictions

---
 internal/datastructures/btree/threadsafe_find.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/datastructures/btree/threadsafe_find.go b/internal/datastructures/btree/threadsafe_find.go
index 04f6e7d..ba3da27 100644
--- a/internal/datastructures/btree/threadsafe_find.go
+++ b/internal/datastructures/btree/threadsafe_find.go
@@ -297,7 +297,7 @@ func (bn *threadSafeBNode) findLessThan(key datatypes.EncapsulatedValue, typeRes
 		}
 
 		// the key in the tree is greater than the type we are looking for. So need to check the children
-		if key.Type.LessMatchType(keyValue.key.Type) {
+		if key.Type.LessMatchType(keyValue.key.Type) || typeRestrictions.MaxDataType.LessMatchType(keyValue.key.Type) {
 			break
 		}
 
@@ -424,7 +424,7 @@ func (bn *threadSafeBNode) findLessThanOrEqual(key datatypes.EncapsulatedValue,
 		}
 
 		// the key in the tree is greater than the type we are looking for. So need to check the children
-		if key.Type.LessMatchType(keyValue.key.Type) {
+		if key.Type.LessMatchType(keyValue.key.Type) || typeRestrictions.MaxDataType.LessMatchType(keyValue.key.Type) {
 			break
 		}
 
@@ -545,8 +545,8 @@ func (bn *threadSafeBNode) findGreaterThan(key datatypes.EncapsulatedValue, type
 			break
 		}
 
-		// if the key in the tree is less than the key we are searching for
-		if keyValue.key.LessMatchType(key) {
+		// if the key in the tree is less than the restriction or the key we are searching for
+		if keyValue.key.Type.LessMatchType(typeRestrictions.MinDataType) || keyValue.key.LessMatchType(key) {
 			continue
 		}
 
@@ -652,8 +652,8 @@ func (bn *threadSafeBNode) findGreaterThanOrEqual(key datatypes.EncapsulatedValu
 			break
 		}
 
-		// if the key in the tree is less than the key we are searching for
-		if keyValue.key.LessMatchType(key) {
+		// if the key in the tree is less than the restriction or the key we are searching for
+		if keyValue.key.Type.LessMatchType(typeRestrictions.MinDataType) || keyValue.key.LessMatchType(key) {
 			continue
 		}
 
-- 
2.43.0


From f9ccaf87879c813dac66b47539cc86c805dee9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 13/60] fix: an item of a one to many relation is never seen
 without its ID

---
 .../btree_one_to_many/one_to_many_item.go      | 18 +++++++++++++++++-
 .../btree_one_to_many/threadsafe_create.go     |  2 +-
 .../btree_one_to_many/threadsafe_delete.go     |  2 +-
 .../btree_one_to_many/threadsafe_destroy.go    |  4 ++--
 .../btree_one_to_many/threadsafe_match.go      |  2 +-
 .../btree_one_to_many/threadsafe_query.go      |  2 +-
 6 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/internal/datastructures/btree_one_to_many/one_to_many_item.go b/internal/datastructures/btree_one_to_many/one_to_many_item.go
index 6f0d648..8362148 100644
--- a/internal/datastructures/btree_one_to_many/one_to_many_item.go
+++ b/internal/datastructures/btree_one_to_many/one_to_many_item.go
@@ -1,6 +1,9 @@
 package btreeonetomany
 
-import "github.com/DanLavine/willow/pkg/models/datatypes"
+import (
+	btreeassociated "github.com/DanLavine/willow/internal/datastructures/btree_associated"
+	"github.com/DanLavine/willow/pkg/models/datatypes"
+)
 
 type OneToManyItem interface {
 	// return the original value for the item saved in the tree
@@ -27,6 +30,19 @@ type oneToManyItem struct {
 	manyKeyValues datatypes.KeyValues
 }
 
+// convert the item saved in the Many tree. The ManyID always comes from the tree, since the item can be found
+// before the create operation knows the ID
+func toOneToManyItem(item btreeassociated.AssociatedKeyValues) OneToManyItem {
+	savedItem := item.Value().(*oneToManyItem)
+
+	return &oneToManyItem{
+		value:         savedItem.value,
+		oneID:         savedItem.oneID,
+		manyID:        item.AssociatedID(),
+		manyKeyValues: savedItem.manyKeyValues,
+	}
+}
+
 func (otmi *oneToManyItem) Value() any {
 	return otmi.value
 }
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_create.go b/internal/datastructures/btree_one_to_many/threadsafe_create.go
index d79451d..fc2c212 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_create.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_create.go
@@ -70,7 +70,7 @@ func (otm *threadsafeOneToManyTree) CreateOrFind(oneID string, manyKeyValues dat
 
 		// found the many relationship
 		associatedFind := func(item btreeassociated.AssociatedKeyValues) {
-			onFind(item.Value().(OneToManyItem))
+			onFind(toOneToManyItem(item))
 		}
 
 		// create the many relationship
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_delete.go b/internal/datastructures/btree_one_to_many/threadsafe_delete.go
index 741e78f..7b01f32 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_delete.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_delete.go
@@ -32,7 +32,7 @@ func (tree *threadsafeOneToManyTree) DeleteOneOfManyByKeyValues(oneID string, ma
 	bTreeAssociatedDeleteMany := func(item btreeassociated.AssociatedKeyValues) bool {
 		deleted := true
 		if canDelete != nil {
-			deleted = canDelete(item.Value().(OneToManyItem))
+			deleted = canDelete(toOneToManyItem(item))
 		}
 
 		return deleted
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_destroy.go b/internal/datastructures/btree_one_to_many/threadsafe_destroy.go
index 4966d31..06b4066 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_destroy.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_destroy.go
@@ -29,7 +29,7 @@ func (tree *threadsafeOneToManyTree) DestroyOne(oneID string, canDelete OneToMan
 	deleted := true
 	bTreeAssociatedDelete := func(item btreeassociated.AssociatedKeyValues) bool {
 		if canDelete != nil {
-			deleted = canDelete(item.Value().(OneToManyItem))
+			deleted = canDelete(toOneToManyItem(item))
 		}
 
 		return deleted
@@ -83,7 +83,7 @@ func (tree *threadsafeOneToManyTree) DestroyOneOfManyByID(oneID string, manyID s
 	bTreeAssociatedDestoyMany := func(item btreeassociated.AssociatedKeyValues) bool {
 		deleted := true
 		if canDelete != nil {
-			deleted = canDelete(item.Value().(OneToManyItem))
+			deleted = canDelete(toOneToManyItem(item))
 		}
 
 		return deleted
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_match.go b/internal/datastructures/btree_one_to_many/threadsafe_match.go
index 9594a42..2327984 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_match.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_match.go
@@ -29,7 +29,7 @@ func (tree *threadsafeOneToManyTree) MatchAction(oneID string, matchActionQuery
 	}
 
 	bTreeAssociatedOnIterate := func(item btreeassociated.AssociatedKeyValues) bool {
-		return onIterate(item.Value().(OneToManyItem))
+		return onIterate(toOneToManyItem(item))
 	}
 
 	bTreeFindOne := func(key datatypes.EncapsulatedValue, item any) bool {
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_query.go b/internal/datastructures/btree_one_to_many/threadsafe_query.go
index ae3cb0a..2784a9e 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_query.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_query.go
@@ -33,7 +33,7 @@ func (tree *threadsafeOneToManyTree) QueryAction(oneID string, query *queryassoc
 	}
 
 	bTreeAssociatedIterate := func(item btreeassociated.AssociatedKeyValues) bool {
-		return onIterate(item.Value().(OneToManyItem))
+		return onIterate(toOneToManyItem(item))
 	}
 
 	bTreeFindOne := func(key datatypes.EncapsulatedValue, item any) bool {
-- 
2.43.0


From 2a916a92465dac6bcedda8eb5e76aca998e5af4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 14/60] fix: answer heartbeats and releases of ended sessions
 while nobody holds the lock

---
 internal/locker/lock_manager/exclusive_lock.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/locker/lock_manager/exclusive_lock.go b/internal/locker/lock_manager/exclusive_lock.go
index 4874d61..ea75a28 100644
--- a/internal/locker/lock_manager/exclusive_lock.go
+++ b/internal/locker/lock_manager/exclusive_lock.go
@@ -124,6 +124,12 @@ func (exclusiveLock *exclusiveLock) Execute(ctx context.Context) error {
 
 			exclusiveLock.clientLostResponse <- false
 
+		// nobody holds the lock, so any heartbeat or release is for a session that has already ended
+		case <-exclusiveLock.heartbeat:
+			exclusiveLock.heartbeatResponse <- false
+		case <-exclusiveLock.release:
+			exclusiveLock.releaseResponse <- failedRelease
+
 		// client was able to claim the lock.
 		// NOTE: this is a write operation so the caller can get a callback function to call. This way they do not
 		// need to save off a variable for the lock in the exclusive_locker
-- 
2.43.0


From e951e9fd42ee192d6a0ceeaa801c23330d5c45e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:08 +0000
Subject: [PATCH 15/60] fix: a lock that times out during a shutdown does not
 block the shutdown

---
 .../locker/lock_manager/exclusive_lock.go     | 36 ++++++-------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/internal/locker/lock_manager/exclusive_lock.go b/internal/locker/lock_manager/exclusive_lock.go
index ea75a28..7ffaf0b 100644
--- a/internal/locker/lock_manager/exclusive_lock.go
+++ b/internal/locker/lock_manager/exclusive_lock.go
@@ -22,8 +22,7 @@ const (
 
 type exclusiveLock struct {
 	// done is used to indicate that the lock is no longer processing heartbeats, claims, or releases
-	done      chan struct{}
-	blockDone chan struct{}
+	done chan struct{}
 
 	// id of the current session that hold the claim to this lock
 	sessionID      string
@@ -65,8 +64,7 @@ func newExclusiveLock(timeout func()) *exclusiveLock {
 	clientsWaitingForClaim := new(atomic.Uint64)
 
 	return &exclusiveLock{
-		done:      make(chan struct{}),
-		blockDone: make(chan struct{}, 1),
+		done: make(chan struct{}),
 
 		sessionChannel: make(chan string),
 		sessionIDLock:  new(sync.RWMutex),
@@ -144,21 +142,7 @@ func (exclusiveLock *exclusiveLock) Execute(ctx context.Context) error {
 				select {
 				// server shutdown
 				case <-ctx.Done():
-					select {
-					// if a timeout is processing, this should wait untill that is finished
-					case <-exclusiveLock.blockDone:
-						// wait and process the timeout
-						<-exclusiveLock.timedOut
-
-						if exclusiveLock.clientsWaitingForClaim.Add(^uint64(0)) == 0 {
-							exclusiveLock.timedOut <- true
-							return nil
-						} else {
-							exclusiveLock.timedOut <- false
-						}
-					default:
-					}
-
+					// NOTE: a timeout that is already processing is released by closing the done channel
 					return nil
 
 				// processed a client lost
@@ -239,17 +223,12 @@ func (exclusiveLock *exclusiveLock) Execute(ctx context.Context) error {
 					exclusiveLock.lastHeartbeatLock.Unlock()
 
 					// need to run the cleanup in a background thread so the tree can grab the delete lock to check
-					exclusiveLock.blockDone <- struct{}{}
-
 					go func() {
 						exclusiveLock.timeout()
 					}()
 
 				// will trigger on a timeout
 				case <-exclusiveLock.timedOut:
-					// always read from the block of done to clear it out
-					<-exclusiveLock.blockDone
-
 					if exclusiveLock.clientsWaitingForClaim.Add(^uint64(0)) == 0 {
 						exclusiveLock.timedOut <- true
 						return nil
@@ -372,8 +351,13 @@ func (exclusiveLock *exclusiveLock) LostClient() bool {
 //
 // TimeOut a currently held lock and allow for another client to process the request
 func (exclusiveLock *exclusiveLock) TimeOut() bool {
-	exclusiveLock.timedOut <- true
-	return <-exclusiveLock.timedOut
+	select {
+	case exclusiveLock.timedOut <- true:
+		return <-exclusiveLock.timedOut
+	case <-exclusiveLock.done:
+		// service was told to shutdown
+		return false
+	}
 }
 
 func (exclusiveLock *exclusiveLock) getLastHeartbeatTime() time.Time {
-- 
2.43.0


From 684230ab857783ba092a95cf5e90b749dddb1ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 16/60] fix: do not save a lock that is requested while the
 locker shuts down

---
 internal/locker/lock_manager/exclusive_locker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/locker/lock_manager/exclusive_locker.go b/internal/locker/lock_manager/exclusive_locker.go
index ee21635..f894acd 100644
--- a/internal/locker/lock_manager/exclusive_locker.go
+++ b/internal/locker/lock_manager/exclusive_locker.go
@@ -81,6 +81,7 @@ func (exclusiveLocker *exclusiveLocker) ObtainLock(ctx context.Context, createLo
 			close(closedChannel)
 
 			claimChannel = closedChannel
+			return nil
 		}
 
 		return lock
-- 
2.43.0


From 7149e566287f6f8f5cc81e4007e5165fcd1fc729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 17/60] fix: listing the locks does not fail for a lock that
 nobody holds at the moment

---
 internal/locker/lock_manager/exclusive_locker.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/locker/lock_manager/exclusive_locker.go b/internal/locker/lock_manager/exclusive_locker.go
index f894acd..f6da0db 100644
--- a/internal/locker/lock_manager/exclusive_locker.go
+++ b/internal/locker/lock_manager/exclusive_locker.go
@@ -145,6 +145,13 @@ func (exclusiveLocker *exclusiveLocker) LocksQuery(ctx context.Context, query *q
 	exclusiveLocker.exclusiveLocks.QueryAction(query, func(associatedKeyValues btreeassociated.AssociatedKeyValues) bool {
 		exclusiveLock := associatedKeyValues.Value().(*exclusiveLock)
 
+		// the lock is just being passed on to another client and currently not held
+		sessionID := exclusiveLock.getSessionID()
+		lockTimeout := exclusiveLock.getLockTimeout()
+		if sessionID == "" || lockTimeout == 0 {
+			return true
+		}
+
 		var expireTime time.Duration
 		lastHeartbeatTime := exclusiveLock.getLastHeartbeatTime()
 		if lastHeartbeatTime == (time.Time{}) {
@@ -159,12 +166,12 @@ func (exclusiveLocker *exclusiveLocker) LocksQuery(ctx context.Context, query *q
 					KeyValues: associatedKeyValues.KeyValues(),
 				},
 				Properties: &v1locker.LockProperties{
-					Timeout: &exclusiveLock.lockTimeout,
+					Timeout: &lockTimeout,
 				},
 			},
 			State: &v1locker.LockState{
 				LockID:             associatedKeyValues.AssociatedID(),
-				SessionID:          exclusiveLock.sessionID,
+				SessionID:          sessionID,
 				TimeTillExipre:     expireTime,
 				LocksHeldOrWaiting: exclusiveLock.clientsWaitingForClaim.Load(),
 			},
-- 
2.43.0


From a31385f63c57296f2c3ba68bf84678262ff4f51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 18/60] fix: report that a release failed

---
 internal/locker/api/v1/handlers/locker_handler.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/locker/api/v1/handlers/locker_handler.go b/internal/locker/api/v1/handlers/locker_handler.go
index 02a7b4f..7c84955 100644
--- a/internal/locker/api/v1/handlers/locker_handler.go
+++ b/internal/locker/api/v1/handlers/locker_handler.go
@@ -144,7 +144,10 @@ func (lh *lockerHandler) Release(w http.ResponseWriter, r *http.Request) {
 	namedParameters := urlrouter.GetNamedParamters(r.Context())
 
 	// release the lock
-	lh.generalLocker.Release(ctx, namedParameters["lock_id"], lockClaim)
+	if releaseError := lh.generalLocker.Release(ctx, namedParameters["lock_id"], lockClaim); releaseError != nil {
+		_, _ = api.ModelEncodeResponse(w, releaseError.StatusCode, releaseError)
+		return
+	}
 
 	// respond and ignore the errors
 	_, _ = api.ModelEncodeResponse(w, http.StatusNoContent, nil)
-- 
2.43.0


From 3b444bfe30ffa0cbbd32b5735e81844b4b765e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 19/60] fix: a lock is reported as lost at the end of its lease
 even if a heartbeat hangs

---
 pkg/clients/locker_client/lock.go | 32 ++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/pkg/clients/locker_client/lock.go b/pkg/clients/locker_client/lock.go
index c5a0828..2ad76ab 100644
--- a/pkg/clients/locker_client/lock.go
+++ b/pkg/clients/locker_client/lock.go
@@ -44,6 +44,10 @@ type lock struct {
 	heartbeating chan struct{}
 	released     *atomic.Bool
 
+	// used to abort a heartbeat request once the lock is done
+	heartbeatCtx    context.Context
+	cancelHeartbeat context.CancelFunc
+
 	// remote server client configuration
 	url    string
 	client *http.Client
@@ -61,6 +65,8 @@ type lock struct {
 }
 
 func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heartbeatErrorCallback func(err error), releaseLockCallback func()) *lock {
+	heartbeatCtx, cancelHeartbeat := context.WithCancel(context.Background())
+
 	lock := &lock{
 		doneOnce: new(sync.Once),
 		done:     make(chan struct{}),
@@ -68,6 +74,9 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 		heartbeating: make(chan struct{}),
 		released:     new(atomic.Bool),
 
+		heartbeatCtx:    heartbeatCtx,
+		cancelHeartbeat: cancelHeartbeat,
+
 		client: client,
 		url:    url,
 
@@ -88,15 +97,16 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 		// set ticker to be ((timeout - 10%) /3). This way we try and heartbeat at least 3 times before a failure occurs
 		adjustedTimeout := *lockResponse.Spec.Properties.Timeout - (*lockResponse.Spec.Properties.Timeout / 10)
 		ticker := time.NewTicker(adjustedTimeout / 3)
-		timeoutTicker := time.NewTicker(lock.timeout)
+		defer ticker.Stop()
+
+		// the lock is lost when the timeout is reached, even if a heartbeat request is still waiting for an answer
+		timeoutTimer := time.AfterFunc(lock.timeout, lock.stop)
+		defer timeoutTimer.Stop()
 
 		for {
 			select {
 			case <-lock.done:
-				// release was called. can just escape
-				return
-			case <-timeoutTicker.C:
-				// the timeout was reached. can just escape
+				// release was called or the timeout was reached. can just escape
 				return
 			case <-ticker.C:
 				lockClaimData, err := api.ModelEncodeRequest(&v1locker.LockClaim{SessionID: lockResponse.State.SessionID})
@@ -105,7 +115,7 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 					return
 				}
 
-				req, err := http.NewRequest("POST", fmt.Sprintf("%s/v1/locks/%s/heartbeat", url, lockResponse.State.LockID), bytes.NewBuffer(lockClaimData))
+				req, err := http.NewRequestWithContext(lock.heartbeatCtx, "POST", fmt.Sprintf("%s/v1/locks/%s/heartbeat", url, lockResponse.State.LockID), bytes.NewBuffer(lockClaimData))
 				if err != nil {
 					if heartbeatErrorCallback != nil {
 						heartbeatErrorCallback(fmt.Errorf("failed to setup heartbeat request: %w", err))
@@ -116,6 +126,11 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 
 				resp, err := client.Do(req)
 				if err != nil {
+					if lock.heartbeatCtx.Err() != nil {
+						// the lock is done
+						continue
+					}
+
 					if heartbeatErrorCallback != nil {
 						heartbeatErrorCallback(fmt.Errorf("failed to heartbeat: %w", err))
 					}
@@ -126,7 +141,7 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 				switch resp.StatusCode {
 				case http.StatusOK:
 					// this is the success case and the heartbeat passed
-					timeoutTicker.Reset(lock.timeout)
+					timeoutTimer.Reset(lock.timeout)
 				case http.StatusConflict, http.StatusBadRequest:
 					// there was an error with the request body or session id
 					apiError := &errors.Error{}
@@ -224,6 +239,9 @@ func (l *lock) stop() {
 
 		// close done
 		close(l.done)
+
+		// abort a heartbeat request
+		l.cancelHeartbeat()
 	})
 }
 
-- 
2.43.0


From 38836f9feb43d7578b379c824d6967c7742ca9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 20/60] fix: a lock that the locker does not know is reported
 as lost at once

---
 pkg/clients/locker_client/lock.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/clients/locker_client/lock.go b/pkg/clients/locker_client/lock.go
index 2ad76ab..33021c0 100644
--- a/pkg/clients/locker_client/lock.go
+++ b/pkg/clients/locker_client/lock.go
@@ -142,8 +142,8 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 				case http.StatusOK:
 					// this is the success case and the heartbeat passed
 					timeoutTimer.Reset(lock.timeout)
-				case http.StatusConflict, http.StatusBadRequest:
-					// there was an error with the request body or session id
+				case http.StatusConflict, http.StatusBadRequest, http.StatusNotFound:
+					// there was an error with the request body, session id or the lock does not exist anymore
 					apiError := &errors.Error{}
 					if err := api.ModelDecodeResponse(resp, apiError); err != nil {
 						if heartbeatErrorCallback != nil {
-- 
2.43.0


From 693ed45df9fc3d659de16d894e9dfbd26a1c5866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 21/60] fix: obtaining another lock does not delay the loss or
 release of a lock in the locker client

---
 pkg/clients/locker_client/lock.go          | 12 +++++++---
 pkg/clients/locker_client/locker_client.go | 26 ++++++++++++++++++----
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/pkg/clients/locker_client/lock.go b/pkg/clients/locker_client/lock.go
index 33021c0..37e6302 100644
--- a/pkg/clients/locker_client/lock.go
+++ b/pkg/clients/locker_client/lock.go
@@ -39,6 +39,8 @@ type lock struct {
 	// record stop heartbeating
 	doneOnce *sync.Once
 	done     chan struct{}
+	// closed once a lock that is done is removed from the locker client
+	removed chan struct{}
 
 	// used to ensure only 1 delete operation proccesses
 	heartbeating chan struct{}
@@ -70,6 +72,7 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 	lock := &lock{
 		doneOnce: new(sync.Once),
 		done:     make(chan struct{}),
+		removed:  make(chan struct{}),
 
 		heartbeating: make(chan struct{}),
 		released:     new(atomic.Bool),
@@ -234,14 +237,17 @@ func (l *lock) Done() <-chan struct{} {
 // close the release chan only once
 func (l *lock) stop() {
 	l.doneOnce.Do(func() {
-		// remove the item from the client's BTree
-		l.releaseLockCallback()
-
 		// close done
 		close(l.done)
 
 		// abort a heartbeat request
 		l.cancelHeartbeat()
+
+		// remove the item from the client's BTree. This blocks while the client waits to obtain other locks
+		go func() {
+			defer close(l.removed)
+			l.releaseLockCallback()
+		}()
 	})
 }
 
diff --git a/pkg/clients/locker_client/locker_client.go b/pkg/clients/locker_client/locker_client.go
index 7b1ea7b..96a5d6d 100644
--- a/pkg/clients/locker_client/locker_client.go
+++ b/pkg/clients/locker_client/locker_client.go
@@ -122,6 +122,7 @@ func (lc *LockClient) Healthy() error {
 // the channel returned from the `lock.Done()` call will be closed. It is up to the clients to monitor for a lock being lost
 func (lc *LockClient) ObtainLock(ctx context.Context, lockRequest *v1locker.Lock, heartbeatErrorCallback func(keyValue datatypes.KeyValues, err error)) (Lock, error) {
 	var returnLock Lock
+	var foundLock *lock
 	var lockErr error
 
 	// obtain the desired lock
@@ -210,11 +211,28 @@ func (lc *LockClient) ObtainLock(ctx context.Context, lockRequest *v1locker.Lock
 
 	onFind := func(item btreeassociated.AssociatedKeyValues) {
 		// just return the instance of the found lock
-		returnLock = item.Value().(Lock)
+		foundLock = item.Value().(*lock)
 	}
 
-	// create or find the lock if we already have it
-	_, _ = lc.locks.CreateOrFind(lockRequest.Spec.DBDefinition.KeyValues, onCreate, onFind)
+	for {
+		// create or find the lock if we already have it
+		foundLock = nil
+		_, _ = lc.locks.CreateOrFind(lockRequest.Spec.DBDefinition.KeyValues, onCreate, onFind)
 
-	return returnLock, lockErr
+		if foundLock == nil {
+			return returnLock, lockErr
+		}
+
+		select {
+		case <-foundLock.done:
+			// found a lock that is already lost or released, wait for it to be removed
+			select {
+			case <-foundLock.removed:
+			case <-ctx.Done():
+				return nil, nil
+			}
+		default:
+			return foundLock, nil
+		}
+	}
 }
-- 
2.43.0


From e20d2c8f1b1b34953182547cf72e6a588e9c7396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:07 +0000
Subject: [PATCH 22/60] fix: a client that disconnects while its increment
 waits for a lock does not panic the limiter

---
 internal/limiter/counters/counter_client_local.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/limiter/counters/counter_client_local.go b/internal/limiter/counters/counter_client_local.go
index 568c955..1f4fbcb 100644
--- a/internal/limiter/counters/counter_client_local.go
+++ b/internal/limiter/counters/counter_client_local.go
@@ -159,6 +159,12 @@ func (cm *counterClientLocal) IncrementCounters(ctx context.Context, lockerClien
 					return errors.InternalServerError
 				}
 
+				// there is no lock and no error when the request was canceled while waiting for the lock
+				if lockerLock == nil {
+					logger.Warn("request was canceled while obtaining a lock from the locker service", zap.Any("key values", lockKeyValues))
+					return errors.InternalServerError
+				}
+
 				// setup monitor for when a lock is released
 				lockerLocks = append(lockerLocks, lockerLock)
 				if err := channelOps.MergeOrToOne(lockerLock.Done()); err != nil {
-- 
2.43.0


From 5fd183f7a851be2ed64662d73c03619c5c88a4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:23 +0000
Subject: [PATCH 23/60] fix: an increment by more than one does not pass the
 limit

---
 internal/limiter/counters/counter_client_local.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/internal/limiter/counters/counter_client_local.go b/internal/limiter/counters/counter_client_local.go
index 1f4fbcb..3ffd120 100644
--- a/internal/limiter/counters/counter_client_local.go
+++ b/internal/limiter/counters/counter_client_local.go
@@ -203,7 +203,7 @@ func (cm *counterClientLocal) IncrementCounters(ctx context.Context, lockerClien
 						continue
 					}
 
-					if counterErr := cm.checkCounters(ctx, rule.Spec.DBDefinition.GroupByKeyValues.Keys(), counter.Spec.DBDefinition.KeyValues, *rule.Spec.Properties.Limit); counterErr != nil {
+					if counterErr := cm.checkCounters(ctx, rule.Spec.DBDefinition.GroupByKeyValues.Keys(), counter, *rule.Spec.Properties.Limit); counterErr != nil {
 						return counterErr
 					}
 				} else {
@@ -214,7 +214,7 @@ func (cm *counterClientLocal) IncrementCounters(ctx context.Context, lockerClien
 						}
 
 						// 2. check the limt
-						if counterErr := cm.checkCounters(ctx, override.Spec.DBDefinition.GroupByKeyValues.Keys(), counter.Spec.DBDefinition.KeyValues, *override.Spec.Properties.Limit); counterErr != nil {
+						if counterErr := cm.checkCounters(ctx, override.Spec.DBDefinition.GroupByKeyValues.Keys(), counter, *override.Spec.Properties.Limit); counterErr != nil {
 							return counterErr
 						}
 					}
@@ -240,9 +240,12 @@ func (cm *counterClientLocal) IncrementCounters(ctx context.Context, lockerClien
 	return nil
 }
 
-func (cm *counterClientLocal) checkCounters(ctx context.Context, ruleKeys []string, counteKeyValyes datatypes.KeyValues, limit int64) *errors.ServerError {
+func (cm *counterClientLocal) checkCounters(ctx context.Context, ruleKeys []string, newCounter *v1limiter.Counter, limit int64) *errors.ServerError {
 	_, logger := middleware.GetNamedMiddlewareLogger(ctx, "checkCounters")
 
+	counteKeyValyes := newCounter.Spec.DBDefinition.KeyValues
+	increment := *newCounter.Spec.Properties.Counters
+
 	// construct the query for all possible rules that need to be found
 	query := &queryassociatedaction.AssociatedActionQuery{
 		Selection: &queryassociatedaction.Selection{
@@ -264,7 +267,7 @@ func (cm *counterClientLocal) checkCounters(ctx context.Context, ruleKeys []stri
 	counter := int64(0)
 	bTreeAssociatedOnIterate := func(item btreeassociated.AssociatedKeyValues) bool {
 		counter += item.Value().(Counter).Load()
-		return counter < limit // check to exit query early if this fails
+		return counter <= limit-increment // check to exit query early if this fails
 	}
 
 	if err := cm.counters.QueryAction(query, bTreeAssociatedOnIterate); err != nil {
@@ -273,7 +276,7 @@ func (cm *counterClientLocal) checkCounters(ctx context.Context, ruleKeys []stri
 	}
 
 	// final check of the counters
-	if counter >= limit {
+	if counter > limit-increment {
 		logger.Info("Limit already reached")
 		return &errors.ServerError{Message: fmt.Sprintf("Limit has already been reached for rule"), StatusCode: http.StatusConflict}
 	}
-- 
2.43.0


From 5b001dcf00e3db973196495637c16e7dc8b99722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 24/60] fix: updating the last enqueued item also takes over
 the timeout duration

---
 .../willow/brokers/queue_channels/memory/memory_queue_channel.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 502cf73..0b83944 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -364,6 +364,7 @@ func (mqc *memoryQueueChannel) Enqueue(ctx context.Context, enqueueItem *v1willo
 				queueItem.updateable = *enqueueItem.Spec.Properties.Updateable
 				queueItem.maxRetryAttempts = *enqueueItem.Spec.Properties.RetryAttempts
 				queueItem.retryPosition = *enqueueItem.Spec.Properties.RetryPosition
+				queueItem.heartbeatTimeout = *enqueueItem.Spec.Properties.TimeoutDuration
 				queueItem.retryCount = 0
 			}
 
-- 
2.43.0


From a903d835bc7f8d24b3071d98d840c73669978976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 25/60] fix: give the enqueued count back when a failed item or
 the item it replaces is dropped

---
 .../queue_channels/memory/memory_queue_channel.go     | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 0b83944..607d9a8 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -518,6 +518,11 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 				if len(mqc.itemIDsEnqueued) >= 1 {
 					// just delete the item. since it is updateable, we want the next item in the queue to run anyways
 					if queueItemToDelete.updateable {
+						// the item is gone, so it no longer counts towards the total number of enqueued items
+						if err := mqc.limiterUpdateEnqueuedValue(ctx, -1); err != nil {
+							panic(err)
+						}
+
 						return true
 					}
 				}
@@ -554,7 +559,11 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 			defer queueItemToCheck.lock.Unlock()
 
 			if queueItemToCheck.updateable {
-				// "update" the last item by simply dropping it
+				// "update" the last item by simply dropping it. It no longer counts towards the total number of enqueued items
+				if err := mqc.limiterUpdateEnqueuedValue(ctx, -1); err != nil {
+					panic(err)
+				}
+
 				mqc.itemIDsEnqueued[len(mqc.itemIDsEnqueued)-1] = itemID
 				return true
 			} else {
-- 
2.43.0


From edcd3264c28533202e08fa53acfe831a42218cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 26/60] fix: failing an item that is not processing is answered
 with not found

---
 .../brokers/queue_channels/memory/memory_queue_channel.go  | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 607d9a8..d6a11c4 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -475,12 +475,11 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 	mqc.itemsLock.Lock()
 	defer mqc.itemsLock.Unlock()
 
-	attemptedDelete := false
+	failed := false
 	backID := ""
 
 	// attempt to delete or requeue the item
 	canDelete := func(_ datatypes.EncapsulatedValue, treeItem any) bool {
-		attemptedDelete = true
 		queueItem := treeItem.(*item)
 
 		if timedOut {
@@ -489,6 +488,8 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 
 		// if the queue item was stopped here, then we know there was no async timeout processed for this item
 		if timedOut || queueItem.StopHeartbeater() {
+			failed = true
+
 			// always update counters that the item is no longer running
 			if err := mqc.limterUpdateRunningValue(ctx, -1); err != nil {
 				// what should be the actual course of action here?
@@ -579,7 +580,7 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 		}
 	}
 
-	return attemptedDelete
+	return failed
 }
 
 // Dequeue returns a read only channel that can be cast to 'func(logger *zap.Logger) (*v1willow.DequeueQueueItem, func(), func())'
-- 
2.43.0


From d97f6f5d760e0cf4e15ab88ec65169172e6a34b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 27/60] fix: a failed dequeue response gives the running count
 back only once

---
 .../queue_channels/memory/memory_queue_channel.go     | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index d6a11c4..e094233 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -707,11 +707,6 @@ func (mqc *memoryQueueChannel) failedDequeue(ctx context.Context, itemID string)
 	return func() {
 		ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "failedDequeue")
 
-		// update the running counter that we are no longer processing since we failed to dequeue to the remote client
-		if err := mqc.limterUpdateRunningValue(ctx, -1); err != nil {
-			panic(err)
-		}
-
 		mqc.itemsLock.Lock()
 		defer mqc.itemsLock.Unlock()
 
@@ -725,6 +720,12 @@ func (mqc *memoryQueueChannel) failedDequeue(ctx context.Context, itemID string)
 			if queueItem.StopHeartbeater() {
 				logger.Debug("stopped the heartbeat process")
 
+				// update the running counter that we are no longer processing since we failed to dequeue to the remote client.
+				// If the item was stopped through an ACK already, then that updated the counter
+				if err := mqc.limterUpdateRunningValue(ctx, -1); err != nil {
+					panic(err)
+				}
+
 				// if the queue item is updateable, check to see if there is something else in the queeu
 				if queueItem.updateable {
 					if len(mqc.itemIDsEnqueued) >= 1 {
-- 
2.43.0


From a117de1da39a4ba57e93865292fadda0920261e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:03 +0000
Subject: [PATCH 28/60] fix: a query with only OR values matches tags through
 one of these values

---
 .../v1/query_associated_action/associated_action_query.go      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/models/api/common/v1/query_associated_action/associated_action_query.go b/pkg/models/api/common/v1/query_associated_action/associated_action_query.go
index bc92797..8b213a7 100644
--- a/pkg/models/api/common/v1/query_associated_action/associated_action_query.go
+++ b/pkg/models/api/common/v1/query_associated_action/associated_action_query.go
@@ -97,7 +97,8 @@ func KeyValuesToExactAssociatedActionQuery(keyValues datatypes.KeyValues) *Assoc
 
 // used to know if arbitrary tags, would be found from a query
 func (q *AssociatedActionQuery) MatchTags(tags datatypes.KeyValues) bool {
-	matched := true
+	// a query that only has OR values does not match on its own
+	matched := q.Selection != nil || q.And != nil || q.Or == nil
 
 	// if Query is not nil, check the tags
 	if q.Selection != nil {
-- 
2.43.0


From 727dadcee223363f01090e7f036c35d5177f440c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:03 +0000
Subject: [PATCH 29/60] fix: stopping or heartbeating no longer waits for the
 timeout callback that waits for them

---
 internal/heartbeater/heartbeater.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/heartbeater/heartbeater.go b/internal/heartbeater/heartbeater.go
index 108295d..9eb147b 100644
--- a/internal/heartbeater/heartbeater.go
+++ b/internal/heartbeater/heartbeater.go
@@ -75,7 +75,8 @@ func New(timeout time.Duration, onShutdown, onTimeout func()) (*heartbeater, err
 
 // Execute expects a single instance of Start to be called
 func (h *heartbeater) Execute(ctx context.Context) error {
-	defer close(h.doneChan)
+	closeDone := sync.OnceFunc(func() { close(h.doneChan) })
+	defer closeDone()
 
 	// wait for start or stop instruction to be called
 	select {
@@ -100,7 +101,9 @@ func (h *heartbeater) Execute(ctx context.Context) error {
 			// in this case, a stop was triggered by the caller
 			return nil
 		case <-timer.C:
-			// in this case the timer has hit the timeout limit. assumed the resource has failed.
+			// in this case the timer has hit the timeout limit. assumed the resource has failed. Any Stop or Heartbeat is
+			// too late now and must not wait for the callback, since they can hold locks that the callback needs
+			closeDone()
 			h.onTimeout()
 
 			return nil
-- 
2.43.0


From d3e1897b9069a536f97feca10a5cd45d7ed2c698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:18 +0000
Subject: [PATCH 30/60] fix: heartbeating an item that is still being handed
 out no longer deadlocks

---
 .../queue_channels/memory/memory_queue_channel_item.go   | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel_item.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel_item.go
index e1c1c69..bdc050c 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel_item.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel_item.go
@@ -20,6 +20,8 @@ type item struct {
 	// heartbeater is used to setup and manage the heartbeat process
 	heartbeatLock    *sync.RWMutex
 	heartbeatProcess heartbeater.Heartbeater
+	// the item is with a client only after the process started
+	heartbeatStarted bool
 }
 
 func newItem(data []byte, updateable bool, maxRetryAttempts uint64, retryPosition string, heartbeatTimeout time.Duration) *item {
@@ -52,6 +54,7 @@ func (item *item) CreateHeartbeater(onShutdown, onTimeout func()) heartbeater.He
 	}
 
 	item.heartbeatProcess = heartbeatProcess
+	item.heartbeatStarted = false
 	return heartbeatProcess
 }
 
@@ -68,7 +71,8 @@ func (item *item) StartHeartbeater() bool {
 	defer item.heartbeatLock.Unlock()
 
 	if item.heartbeatProcess != nil {
-		return item.heartbeatProcess.Start()
+		item.heartbeatStarted = item.heartbeatProcess.Start()
+		return item.heartbeatStarted
 	}
 
 	return false
@@ -91,7 +95,8 @@ func (item *item) Heartbeat() bool {
 	item.heartbeatLock.Lock()
 	defer item.heartbeatLock.Unlock()
 
-	if item.heartbeatProcess != nil {
+	// a process that has not started blocks the heartbeat, which blocks the start that needs the lock
+	if item.heartbeatProcess != nil && item.heartbeatStarted {
 		return item.heartbeatProcess.Heartbeat()
 	}
 
-- 
2.43.0


From 9f57c2ae214fd2b5c247a9433089a6401bd6efef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:26 +0000
Subject: [PATCH 31/60] fix: a reached limit is looked up with the channel's
 values where a rule groups by any value

---
 .../queue_channels/memory/memory_queue_channel.go      | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index e094233..e177c64 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -227,6 +227,11 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 							}
 
 							for key, value := range rule.Spec.DBDefinition.GroupByKeyValues {
+								// the limiter groups by the actual value of the channel
+								if value.Type == datatypes.T_any {
+									value = erroredKeyValues[key]
+								}
+
 								query.Selection.KeyValues[key] = queryassociatedaction.ValueQuery{
 									Value:      value,
 									Comparison: v1common.Equals,
@@ -273,6 +278,11 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 								}
 
 								for key, value := range override.Spec.DBDefinition.GroupByKeyValues {
+									// the limiter groups by the actual value of the channel
+									if value.Type == datatypes.T_any {
+										value = erroredKeyValues[key]
+									}
+
 									query.Selection.KeyValues[key] = queryassociatedaction.ValueQuery{
 										Value:      value,
 										Comparison: v1common.Equals,
-- 
2.43.0


From a991883d4f7f1268ed8c9f959eca1e497f5c2953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:36 +0000
Subject: [PATCH 32/60] fix: dequeues and timeouts racing the deletion of their
 channel no longer panic or change the counters of a later channel

---
 .../memory/memory_queue_channel.go            | 52 ++++++++++++++++---
 1 file changed, 46 insertions(+), 6 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index e177c64..b1c540a 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -57,6 +57,10 @@ type memoryQueueChannel struct {
 
 	itemsLock       *sync.RWMutex
 	itemIDsEnqueued []string
+
+	// a destroyed channel must not touch the items or the counters anymore. Those can belong to a new channel
+	destroyLock *sync.RWMutex
+	destroyed   bool
 }
 
 func New(limiterClient limiterclient.LimiterClient, deleteCallback func(), queueName string, channelKeyValues datatypes.KeyValues) *memoryQueueChannel {
@@ -89,6 +93,8 @@ func New(limiterClient limiterclient.LimiterClient, deleteCallback func(), queue
 
 		itemsLock:       new(sync.RWMutex),
 		itemIDsEnqueued: []string{},
+
+		destroyLock: new(sync.RWMutex),
 	}
 }
 
@@ -115,6 +121,11 @@ func (mqc *memoryQueueChannel) ForceDelete(ctx context.Context) {
 		close(mqc.deleteChan)
 	})
 
+	// wait for any operations in progress, and do not let anymore start
+	mqc.destroyLock.Lock()
+	defer mqc.destroyLock.Unlock()
+	mqc.destroyed = true
+
 	// delete the running and enqueued counters
 	if err := mqc.setLimiterEnqueuedValue(ctx); err != nil {
 		logger.Fatal("TODO fix this panic error with a queue of Limiter values to retry", zap.Error(err))
@@ -482,6 +493,13 @@ func (mqc *memoryQueueChannel) ACK(ctx context.Context, ack *v1willow.ACK) (bool
 func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, timedOut bool) bool {
 	ctx, _ = middleware.GetNamedMiddlewareLogger(ctx, "failItem")
 
+	mqc.destroyLock.RLock()
+	defer mqc.destroyLock.RUnlock()
+
+	if mqc.destroyed {
+		return false
+	}
+
 	mqc.itemsLock.Lock()
 	defer mqc.itemsLock.Unlock()
 
@@ -611,6 +629,14 @@ func (mqc *memoryQueueChannel) Dequeue() <-chan func(ctx context.Context) (*v1wi
 func (mqc *memoryQueueChannel) dequeue(ctx context.Context) (*v1willow.Item, func(), func()) {
 	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "dequeue")
 
+	mqc.destroyLock.RLock()
+	defer mqc.destroyLock.RUnlock()
+
+	if mqc.destroyed {
+		mqc.dequeueResponseChan <- false
+		return nil, nil, nil
+	}
+
 	// 1. ensure that the item can be dequeued when running. This just forwards the key values that define the channel
 	if err := mqc.limterUpdateRunningValue(ctx, 1); err != nil {
 		logger.Error("failed to update the counter for the queue item", zap.Error(err))
@@ -689,6 +715,16 @@ func (mqc *memoryQueueChannel) successfulDequeue(ctx context.Context, itemID str
 	return func() {
 		_, logger := middleware.GetNamedMiddlewareLogger(ctx, "successfulDequeue")
 
+		// resond to the queue forwarder that it can start processing the next item in the queue
+		defer func() { mqc.dequeueResponseChan <- false }()
+
+		mqc.destroyLock.RLock()
+		defer mqc.destroyLock.RUnlock()
+
+		if mqc.destroyed {
+			return
+		}
+
 		// start the heartbeater process
 		onfindBTree := func(key datatypes.EncapsulatedValue, treeItem any) bool {
 			queueItem := treeItem.(*item)
@@ -706,9 +742,6 @@ func (mqc *memoryQueueChannel) successfulDequeue(ctx context.Context, itemID str
 		if err := mqc.items.Find(datatypes.String(itemID), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, onfindBTree); err != nil {
 			panic(err)
 		}
-
-		// resond to the queue forwarder that it can start processing the next item in the queue
-		mqc.dequeueResponseChan <- false
 	}
 }
 
@@ -717,6 +750,16 @@ func (mqc *memoryQueueChannel) failedDequeue(ctx context.Context, itemID string)
 	return func() {
 		ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "failedDequeue")
 
+		// resond to the queue forwarder that it can start processing the next item in the queue
+		defer func() { mqc.dequeueResponseChan <- false }()
+
+		mqc.destroyLock.RLock()
+		defer mqc.destroyLock.RUnlock()
+
+		if mqc.destroyed {
+			return
+		}
+
 		mqc.itemsLock.Lock()
 		defer mqc.itemsLock.Unlock()
 
@@ -762,9 +805,6 @@ func (mqc *memoryQueueChannel) failedDequeue(ctx context.Context, itemID string)
 		if err := mqc.items.Delete(datatypes.String(itemID), canDelete); err != nil {
 			panic(err)
 		}
-
-		// resond to the queue forwarder that it can start processing the next item in the queue
-		mqc.dequeueResponseChan <- false
 	}
 }
 
-- 
2.43.0


From 9ed548756c292eef6843458bbed41f3a6f2cff37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:56 +0000
Subject: [PATCH 33/60] fix: a consumer that starts waiting while a channel is
 created no longer misses the channel

---
 .../queue_channels/queue_channels_client_local.go    | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/queue_channels_client_local.go b/internal/willow/brokers/queue_channels/queue_channels_client_local.go
index d1b664b..c994d3a 100644
--- a/internal/willow/brokers/queue_channels/queue_channels_client_local.go
+++ b/internal/willow/brokers/queue_channels/queue_channels_client_local.go
@@ -152,6 +152,7 @@ func (qccl *queueChannelsClientLocal) attemptDeleteChannel(logger *zap.Logger, q
 func (qccl *queueChannelsClientLocal) EnqueueQueueItem(ctx context.Context, queueName string, enqueueItem *v1willow.Item) *errors.ServerError {
 	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "EnqueueQueueItem")
 	var enqueueError *errors.ServerError
+	var newQueueChannel constructor.QueueChannel
 
 	//create a new channel to enqueue items to
 	bTreeOneToManyOnCreate := func() any {
@@ -170,8 +171,7 @@ func (qccl *queueChannelsClientLocal) EnqueueQueueItem(ctx context.Context, queu
 		// when a new channel is created, need to add it to the async task manager. if there is an error, that means the
 		// server is shutting down so don't add it to any waiting clients.
 		if err := qccl.asyncManager.AddExecuteTask(queueName, queueChannel); err == nil {
-			// when a new channel is created, inform any clients currently waiting to process that there is something they might care about
-			qccl.updateClientsWaiting(queueName, enqueueItem.Spec.DBDefinition.KeyValues, queueChannel.Dequeue())
+			newQueueChannel = queueChannel
 		}
 
 		return queueChannel
@@ -193,6 +193,12 @@ func (qccl *queueChannelsClientLocal) EnqueueQueueItem(ctx context.Context, queu
 		}
 	}
 
+	// when a new channel is created, inform any clients currently waiting to process that there is something they might care about.
+	// This needs to happen after the channel can be found, otherwise a client that starts waiting in between misses the channel
+	if newQueueChannel != nil {
+		qccl.updateClientsWaiting(queueName, enqueueItem.Spec.DBDefinition.KeyValues, newQueueChannel.Dequeue())
+	}
+
 	return enqueueError
 }
 
@@ -369,7 +375,7 @@ func (qccl *queueChannelsClientLocal) updateClientsWaiting(queueName string, cha
 	for _, clientWaiting := range qccl.clientsWaiting {
 		if clientWaiting.queueName == queueName {
 			if clientWaiting.query.MatchTags(channelTags) {
-				clientWaiting.channelOPS.MergeOrToOne(channel)
+				clientWaiting.channelOPS.MergeOrToOneIgnoreDuplicates(channel)
 			}
 		}
 	}
-- 
2.43.0


From d8f632973959290f230b4a121a72114e6734bad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:01 +0000
Subject: [PATCH 34/60] fix: enqueue, dequeue and channel deletion report a
 queue that is being destroyed as a conflict

---
 .../brokers/queues/queues_client_local.go     | 30 +++++++++++++++----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/internal/willow/brokers/queues/queues_client_local.go b/internal/willow/brokers/queues/queues_client_local.go
index b87556a..cbb9a22 100644
--- a/internal/willow/brokers/queues/queues_client_local.go
+++ b/internal/willow/brokers/queues/queues_client_local.go
@@ -242,8 +242,14 @@ func (qcl *queueClientLocal) Enqueue(ctx context.Context, queueName string, enqu
 	}
 
 	if err := qcl.queues.Find(datatypes.String(queueName), v1.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, onFind); err != nil {
-		logger.Error("failed to find the queue in the tree for some reason", zap.Error(err))
-		return errors.InternalServerError
+		switch err {
+		case btree.ErrorKeyDestroying:
+			logger.Warn("failed to enqueue item. Queue by that name is currenly destroying")
+			return &errors.ServerError{Message: fmt.Sprintf("Queue with name '%s' is currently being destroyed. Refusing to enqueue the item", queueName), StatusCode: http.StatusConflict}
+		default:
+			logger.Error("failed to find the queue in the tree for some reason", zap.Error(err))
+			return errors.InternalServerError
+		}
 	}
 
 	return enqueueQueueError
@@ -263,8 +269,14 @@ func (qcl *queueClientLocal) Dequeue(ctx context.Context, queueName string, dequ
 	}
 
 	if err := qcl.queues.Find(datatypes.String(queueName), v1.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, onFind); err != nil {
-		logger.Error("failed to find the queue in the tree for some reason", zap.Error(err))
-		return nil, nil, nil, errors.InternalServerError
+		switch err {
+		case btree.ErrorKeyDestroying:
+			logger.Warn("failed to dequeue item. Queue by that name is currenly destroying")
+			return nil, nil, nil, &errors.ServerError{Message: fmt.Sprintf("Queue with name '%s' is currently being destroyed. Refusing to dequeue an item", queueName), StatusCode: http.StatusConflict}
+		default:
+			logger.Error("failed to find the queue in the tree for some reason", zap.Error(err))
+			return nil, nil, nil, errors.InternalServerError
+		}
 	}
 
 	return dequeueItem, onSuccess, onFailure, dequeueQueueError
@@ -280,8 +292,14 @@ func (qcl *queueClientLocal) DeleteChannel(ctx context.Context, queueName string
 	}
 
 	if err := qcl.queues.Find(datatypes.String(queueName), v1.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, onFind); err != nil {
-		logger.Error("failed to find the queue in the tree for some reason", zap.Error(err))
-		return errors.InternalServerError
+		switch err {
+		case btree.ErrorKeyDestroying:
+			logger.Warn("failed to delete channel. Queue by that name is currenly destroying")
+			return &errors.ServerError{Message: fmt.Sprintf("Queue with name '%s' is currently being destroyed. Refusing to delete the channel since it is being destroyed too", queueName), StatusCode: http.StatusConflict}
+		default:
+			logger.Error("failed to find the queue in the tree for some reason", zap.Error(err))
+			return errors.InternalServerError
+		}
 	}
 
 	return deleteChannelsError
-- 
2.43.0


From 3e9a3ad349b089e441eb1b141c6d7931dd0c7c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:03 +0000
Subject: [PATCH 35/60] fix: working on a channel while its queue is destroyed
 no longer ends the process

---
 .../queue_channels/queue_channels_client_local.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/queue_channels_client_local.go b/internal/willow/brokers/queue_channels/queue_channels_client_local.go
index c994d3a..aa3220c 100644
--- a/internal/willow/brokers/queue_channels/queue_channels_client_local.go
+++ b/internal/willow/brokers/queue_channels/queue_channels_client_local.go
@@ -95,7 +95,7 @@ func (qccl *queueChannelsClientLocal) DestroyChannelsForQueue(ctx context.Contex
 
 	if err := qccl.queueChannels.DestroyOne(queueName, deleteChannel); err != nil {
 		switch err {
-		case btreeonetomany.ErrorManyIDDestroying:
+		case btreeonetomany.ErrorOneIDDestroying:
 			logger.Debug("Already destroying the queue's channels")
 			return &errors.ServerError{Message: "queue channels already destroying", StatusCode: http.StatusNoContent}
 		default:
@@ -119,7 +119,7 @@ func (qccl *queueChannelsClientLocal) DeleteChannel(ctx context.Context, queueNa
 
 	if err := qccl.queueChannels.DeleteOneOfManyByKeyValues(queueName, channelKeyValues, deleteChannel); err != nil {
 		switch err {
-		case btreeonetomany.ErrorManyIDDestroying:
+		case btreeonetomany.ErrorOneIDDestroying, btreeonetomany.ErrorManyKeyValuesDestroying:
 			logger.Debug("Already destroying the queue's channel")
 			return &errors.ServerError{Message: "Already destroying the queue's channel", StatusCode: http.StatusConflict}
 		default:
@@ -141,7 +141,7 @@ func (qccl *queueChannelsClientLocal) attemptDeleteChannel(logger *zap.Logger, q
 
 	if err := qccl.queueChannels.DeleteOneOfManyByKeyValues(queueName, channelKeyValues, deleteChannel); err != nil {
 		switch err {
-		case btreeonetomany.ErrorManyIDDestroying:
+		case btreeonetomany.ErrorOneIDDestroying, btreeonetomany.ErrorManyKeyValuesDestroying:
 			logger.Debug("Already destroying the queue's channel on a timeout")
 		default:
 			logger.Fatal("Failed to delete channels for queue", zap.Error(err))
@@ -247,8 +247,9 @@ func (qccl *queueChannelsClientLocal) DequeueQueueItem(ctx context.Context, queu
 
 		if err := qccl.queueChannels.QueryAction(queueName, dequeueQuery, bTreeOneToManyOnIterate); err != nil {
 			switch err {
-			//case btreeonetomany.ErrorOneIDDestroying
-			// This shouldn't happen as the 'Queue' should ensure these don't process once it starts destroying
+			case btreeonetomany.ErrorOneIDDestroying:
+				// this runs in the background, so the client could have already stopped waiting when the queue is deleted
+				logger.Debug("Not waiting on the queue's channels as the queue is being deleted")
 			default:
 				logger.Error("failed to create or find the queue channels", zap.Error(err))
 				panic(err)
@@ -312,7 +313,7 @@ func (qccl *queueChannelsClientLocal) ACK(ctx context.Context, queueName string,
 
 		if err := qccl.queueChannels.DeleteOneOfManyByKeyValues(queueName, ack.KeyValues, deleteChannel); err != nil {
 			switch err {
-			case btreeonetomany.ErrorManyIDDestroying:
+			case btreeonetomany.ErrorOneIDDestroying, btreeonetomany.ErrorManyKeyValuesDestroying:
 				logger.Debug("Not deleting the channel after ack as queue is being deleted")
 			default:
 				logger.Fatal("Failed to delete queue after ack", zap.Error(err))
@@ -405,7 +406,7 @@ func (qccl *queueChannelsClientLocal) Channels(ctx context.Context, queueName st
 
 	if err := qccl.queueChannels.QueryAction(queueName, query, queryChannels); err != nil {
 		switch err {
-		case btreeonetomany.ErrorManyIDDestroying:
+		case btreeonetomany.ErrorOneIDDestroying:
 			logger.Debug("Already destroying the queue's channels")
 		default:
 			logger.Fatal("Failed to query channels", zap.Error(err))
-- 
2.43.0


From f6adb0a87225954ea271fcd293a97354e7eb8269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:40 +0000
Subject: [PATCH 36/60] fix: creating or deleting a queue no longer waits for
 the clients waiting on an item

---
 .../brokers/queues/queues_client_local.go     | 81 +++++++++++++++++--
 1 file changed, 73 insertions(+), 8 deletions(-)

diff --git a/internal/willow/brokers/queues/queues_client_local.go b/internal/willow/brokers/queues/queues_client_local.go
index cbb9a22..390f352 100644
--- a/internal/willow/brokers/queues/queues_client_local.go
+++ b/internal/willow/brokers/queues/queues_client_local.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"net/http"
+	"sync"
 
 	"github.com/DanLavine/willow/internal/datastructures/btree"
 	"github.com/DanLavine/willow/internal/helpers"
@@ -33,6 +34,18 @@ type queueClientLocal struct {
 	queueChannelsClient queuechannels.QueueChannelsClient
 
 	limiterRuleID string
+
+	// clients that are currently waiting to dequeue an item, by the name of their queue
+	dequeueClientsLock *sync.Mutex
+	dequeueClients     map[string]map[*dequeueClient]struct{}
+}
+
+// dequeueClient is a client waiting for an item. It does not hold on to any locks for the queue while waiting
+type dequeueClient struct {
+	// stop waiting for an item
+	cancel context.CancelFunc
+	// closed when the client is no longer using the queue
+	done chan struct{}
 }
 
 func NewLocalQueueClient(queueConstructor QueueConstructor, queueChannelsClient queuechannels.QueueChannelsClient, limiterRuleID string) *queueClientLocal {
@@ -46,6 +59,8 @@ func NewLocalQueueClient(queueConstructor QueueConstructor, queueChannelsClient
 		queues:              tree,
 		queueChannelsClient: queueChannelsClient,
 		limiterRuleID:       limiterRuleID,
+		dequeueClientsLock:  new(sync.Mutex),
+		dequeueClients:      map[string]map[*dequeueClient]struct{}{},
 	}
 }
 
@@ -185,6 +200,10 @@ func (qcl *queueClientLocal) DeleteQueue(ctx context.Context, queueName string)
 	var deleteQueueError *errors.ServerError
 	destroyQueue := func(key datatypes.EncapsulatedValue, item any) bool {
 		queue := item.(Queue)
+
+		// no more clients can start to wait for an item at this point. So stop the ones already waiting
+		qcl.stopDequeueClients(queueName)
+
 		if deleteQueueError = qcl.queueChannelsClient.DestroyChannelsForQueue(ctx, queueName); deleteQueueError == nil {
 			if deleteQueueError = queue.Destroy(ctx, qcl.limiterRuleID, queueName); deleteQueueError == nil {
 				return true
@@ -257,14 +276,13 @@ func (qcl *queueClientLocal) Enqueue(ctx context.Context, queueName string, enqu
 
 func (qcl *queueClientLocal) Dequeue(ctx context.Context, queueName string, dequeueQuery *queryassociatedaction.AssociatedActionQuery) (*v1willow.Item, func(), func(), *errors.ServerError) {
 	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "Dequeue")
-	dequeueQueueError := errorMissingQueueName(queueName)
-
-	// nothing for the item to do. but use the bTree as a guard to ensure no delete operations are happening at the same time
-	var dequeueItem *v1willow.Item
-	var onSuccess func()
-	var onFailure func()
+	// use the bTree as a guard to ensure no delete operations are happening at the same time. But do not wait for an item while
+	// guarding the bTree, otherwise the queues cannot be created or deleted until there is an item to dequeue
+	var client *dequeueClient
+	clientCtx, cancel := context.WithCancel(ctx)
+	defer cancel()
 	onFind := func(key datatypes.EncapsulatedValue, item any) bool {
-		dequeueItem, onSuccess, onFailure, dequeueQueueError = qcl.queueChannelsClient.DequeueQueueItem(ctx, queueName, dequeueQuery)
+		client = qcl.addDequeueClient(queueName, cancel)
 		return false
 	}
 
@@ -279,7 +297,54 @@ func (qcl *queueClientLocal) Dequeue(ctx context.Context, queueName string, dequ
 		}
 	}
 
-	return dequeueItem, onSuccess, onFailure, dequeueQueueError
+	if client == nil {
+		return nil, nil, nil, errorMissingQueueName(queueName)
+	}
+	defer qcl.removeDequeueClient(queueName, client)
+
+	return qcl.queueChannelsClient.DequeueQueueItem(clientCtx, queueName, dequeueQuery)
+}
+
+// addDequeueClient must be called when guarded by the bTree
+func (qcl *queueClientLocal) addDequeueClient(queueName string, cancel context.CancelFunc) *dequeueClient {
+	qcl.dequeueClientsLock.Lock()
+	defer qcl.dequeueClientsLock.Unlock()
+
+	client := &dequeueClient{cancel: cancel, done: make(chan struct{})}
+	if qcl.dequeueClients[queueName] == nil {
+		qcl.dequeueClients[queueName] = map[*dequeueClient]struct{}{}
+	}
+	qcl.dequeueClients[queueName][client] = struct{}{}
+
+	return client
+}
+
+func (qcl *queueClientLocal) removeDequeueClient(queueName string, client *dequeueClient) {
+	qcl.dequeueClientsLock.Lock()
+	defer qcl.dequeueClientsLock.Unlock()
+
+	delete(qcl.dequeueClients[queueName], client)
+	if len(qcl.dequeueClients[queueName]) == 0 {
+		delete(qcl.dequeueClients, queueName)
+	}
+	close(client.done)
+}
+
+// stopDequeueClients cancels all the clients waiting on a queue, and waits for them to not use the queue anymore
+func (qcl *queueClientLocal) stopDequeueClients(queueName string) {
+	qcl.dequeueClientsLock.Lock()
+	clients := make([]*dequeueClient, 0, len(qcl.dequeueClients[queueName]))
+	for client := range qcl.dequeueClients[queueName] {
+		clients = append(clients, client)
+	}
+	qcl.dequeueClientsLock.Unlock()
+
+	for _, client := range clients {
+		client.cancel()
+	}
+	for _, client := range clients {
+		<-client.done
+	}
 }
 
 func (qcl *queueClientLocal) DeleteChannel(ctx context.Context, queueName string, channelKeyValues datatypes.KeyValues) *errors.ServerError {
-- 
2.43.0


From f76d00bfc14bfecc06c69baea8b86b0869dea66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:14 +0000
Subject: [PATCH 37/60] fix: stopping willow no longer deadlocks with requests
 that add a channel or hand out an item

---
 .../memory/memory_queue_channel.go            |  6 ++++--
 .../queue_channels_client_local.go            | 19 +++++++++++--------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index b1c540a..89053ad 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -152,8 +152,9 @@ func (mqc *memoryQueueChannel) ForceDelete(ctx context.Context) {
 
 // Handler for the GoAsync manager to ensure this process stops processing when the server is shutdown
 func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
-	// run our own async manager for the heartbeats
-	asyncCtx, cancel := context.WithCancel(ctx)
+	// run our own async manager for the heartbeats. On a shutdown, this needs to run until there is no dequeue in progress since
+	// those add to the manager
+	asyncCtx, cancel := context.WithCancel(context.WithoutCancel(ctx))
 	defer cancel()
 
 	stoppedHeartbeating := make(chan struct{})
@@ -353,6 +354,7 @@ BREAK_DEQUEUE:
 	mqc.notifier.ForceStop()
 
 	// wait for any heartbeat operations to finish
+	cancel()
 	<-stoppedHeartbeating
 
 	return nil
diff --git a/internal/willow/brokers/queue_channels/queue_channels_client_local.go b/internal/willow/brokers/queue_channels/queue_channels_client_local.go
index aa3220c..f6ee5ec 100644
--- a/internal/willow/brokers/queue_channels/queue_channels_client_local.go
+++ b/internal/willow/brokers/queue_channels/queue_channels_client_local.go
@@ -168,12 +168,7 @@ func (qccl *queueChannelsClientLocal) EnqueueQueueItem(ctx context.Context, queu
 			return nil
 		}
 
-		// when a new channel is created, need to add it to the async task manager. if there is an error, that means the
-		// server is shutting down so don't add it to any waiting clients.
-		if err := qccl.asyncManager.AddExecuteTask(queueName, queueChannel); err == nil {
-			newQueueChannel = queueChannel
-		}
-
+		newQueueChannel = queueChannel
 		return queueChannel
 	}
 
@@ -193,9 +188,17 @@ func (qccl *queueChannelsClientLocal) EnqueueQueueItem(ctx context.Context, queu
 		}
 	}
 
-	// when a new channel is created, inform any clients currently waiting to process that there is something they might care about.
-	// This needs to happen after the channel can be found, otherwise a client that starts waiting in between misses the channel
+	// when a new channel is created, need to add it to the async task manager. if there is an error, that means the
+	// server is shutting down so don't add it to any waiting clients. On a shutdown, adding the task blocks until all other channels
+	// have stopped. So this cannot guard the tree as the other channels might still need to delete an item.
+	//
+	// Then inform any clients currently waiting to process that there is something they might care about. This needs to happen after
+	// the channel can be found, otherwise a client that starts waiting in between misses the channel
 	if newQueueChannel != nil {
+		if err := qccl.asyncManager.AddExecuteTask(queueName, newQueueChannel); err != nil {
+			return enqueueError
+		}
+
 		qccl.updateClientsWaiting(queueName, enqueueItem.Spec.DBDefinition.KeyValues, newQueueChannel.Dequeue())
 	}
 
-- 
2.43.0


From 68c1311cfaad29bcc1329990af0bea6ae35771a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:48 +0000
Subject: [PATCH 38/60] fix: a rejected request to delete a channel deletes
 nothing

---
 internal/willow/api/v1/handlers/channel_handler.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/willow/api/v1/handlers/channel_handler.go b/internal/willow/api/v1/handlers/channel_handler.go
index bb9a37c..25cbc71 100644
--- a/internal/willow/api/v1/handlers/channel_handler.go
+++ b/internal/willow/api/v1/handlers/channel_handler.go
@@ -49,11 +49,13 @@ func (qh queueHandler) ChannelDelete(w http.ResponseWriter, r *http.Request) {
 	if err := json.NewDecoder(r.Body).Decode(&keyValues); err != nil {
 		logger.Warn("failed to decode request", zap.Error(err))
 		_, _ = api.ModelEncodeResponse(w, http.StatusBadRequest, errors.ServerErrorModelRequestValidation(err))
+		return
 	}
 
 	if err := keyValues.Validate(datatypes.MinDataType, datatypes.MaxWithoutAnyDataType); err != nil {
 		logger.Warn("failed to validated request", zap.Error(err))
 		_, _ = api.ModelEncodeResponse(w, http.StatusBadRequest, errors.ServerErrorModelRequestValidation(err))
+		return
 	}
 
 	if err := qh.queueClient.DeleteChannel(ctx, urlrouter.GetNamedParamters(r.Context())["queue_name"], keyValues); err != nil {
-- 
2.43.0


From d2d16ba043ab837b5f80c82abac5f503dc9ecfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:50 +0000
Subject: [PATCH 39/60] fix: a lock with a negative timeout is refused and no
 longer ends the locker

---
 pkg/models/api/locker/v1/lock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/models/api/locker/v1/lock.go b/pkg/models/api/locker/v1/lock.go
index 0df335d..ef1a287 100644
--- a/pkg/models/api/locker/v1/lock.go
+++ b/pkg/models/api/locker/v1/lock.go
@@ -121,6 +121,10 @@ func (lockProperties *LockProperties) Validate() *errors.ModelError {
 		if *lockProperties.Timeout == 0 {
 			return &errors.ModelError{Field: "Timeout", Err: fmt.Errorf("received a timeout duration of 0. Requires a valid time duration represented as int64 nanosecond")}
 		}
+
+		if *lockProperties.Timeout < 0 {
+			return &errors.ModelError{Field: "Timeout", Err: fmt.Errorf("received a negative timeout duration. Requires a valid time duration represented as int64 nanosecond")}
+		}
 	}
 
 	return nil
-- 
2.43.0


From 9cf851cd74b91d2eab10d507e3b7439bc337f0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:52 +0000
Subject: [PATCH 40/60] fix: an item with a timeout that is not positive is
 refused and no longer ends willow

---
 pkg/models/api/willow/v1/item.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/models/api/willow/v1/item.go b/pkg/models/api/willow/v1/item.go
index e1f3cd6..373fd3a 100644
--- a/pkg/models/api/willow/v1/item.go
+++ b/pkg/models/api/willow/v1/item.go
@@ -139,6 +139,10 @@ func (itemProperties *ItemProperties) Validate() *errors.ModelError {
 
 	if itemProperties.TimeoutDuration == nil {
 		return &errors.ModelError{Field: "TimeoutDuration", Err: fmt.Errorf("received a null value")}
+	} else {
+		if *itemProperties.TimeoutDuration <= 0 {
+			return &errors.ModelError{Field: "TimeoutDuration", Err: fmt.Errorf("must be greater than 0, but received '%d'", *itemProperties.TimeoutDuration)}
+		}
 	}
 
 	return nil
-- 
2.43.0


From 17ffee7d28d38583599ad1744a38d66f038e1aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:55 +0000
Subject: [PATCH 41/60] fix: a queue size below -1 is a client error and does
 not change the queue

---
 pkg/models/api/willow/v1/queue.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/models/api/willow/v1/queue.go b/pkg/models/api/willow/v1/queue.go
index 09922ba..434fbee 100644
--- a/pkg/models/api/willow/v1/queue.go
+++ b/pkg/models/api/willow/v1/queue.go
@@ -108,6 +108,10 @@ type QueueProperties struct {
 func (queueProperties *QueueProperties) Validate() *errors.ModelError {
 	if queueProperties.MaxItems == nil {
 		return &errors.ModelError{Field: "MaxItems", Err: fmt.Errorf("recevied a null value")}
+	} else {
+		if *queueProperties.MaxItems < -1 {
+			return &errors.ModelError{Field: "MaxItems", Err: fmt.Errorf("is set below the minimum value of -1. Value must be [-1 (ulimited) | 0+ (zero or more specific limit)")}
+		}
 	}
 
 	return nil
-- 
2.43.0


From b6a3faeb0ae357b2684d9954ae9245d71c543060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:56 +0000
Subject: [PATCH 42/60] fix: creating a queue without the optional properties
 no longer panics

---
 internal/willow/brokers/queues/memory/memory_queue.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/willow/brokers/queues/memory/memory_queue.go b/internal/willow/brokers/queues/memory/memory_queue.go
index ec73b7c..6008c74 100644
--- a/internal/willow/brokers/queues/memory/memory_queue.go
+++ b/internal/willow/brokers/queues/memory/memory_queue.go
@@ -31,8 +31,14 @@ type memoryQueue struct {
 func New(ctx context.Context, queue *v1willow.Queue, limiterRuleID string, limiterClient limiterclient.LimiterClient) (*memoryQueue, *errors.ServerError) {
 	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "New")
 
+	// all the properties are optional, without them the queue is unlimited
+	maxItems := helpers.PointerOf[int64](-1)
+	if queue.Spec.Properties != nil {
+		maxItems = queue.Spec.Properties.MaxItems
+	}
+
 	limit := new(atomic.Int64)
-	limit.Store(*queue.Spec.Properties.MaxItems)
+	limit.Store(*maxItems)
 
 	// need to create an override for the willow Rules in the limiter
 	_, err := limiterClient.CreateOverride(ctx, limiterRuleID, &v1.Override{
@@ -44,7 +50,7 @@ func New(ctx context.Context, queue *v1willow.Queue, limiterRuleID string, limit
 				},
 			},
 			Properties: &v1.OverrideProperties{
-				Limit: queue.Spec.Properties.MaxItems,
+				Limit: maxItems,
 			},
 		},
 	})
-- 
2.43.0


From a1d156f6b492a52a3fd238986a56566f3f3d5d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:59 +0000
Subject: [PATCH 43/60] fix: a match query with a maximum below the minimum is
 refused and no longer panics

---
 pkg/models/api/common/v1/query_match_action/match_query.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/models/api/common/v1/query_match_action/match_query.go b/pkg/models/api/common/v1/query_match_action/match_query.go
index 1ac3095..1ae241e 100644
--- a/pkg/models/api/common/v1/query_match_action/match_query.go
+++ b/pkg/models/api/common/v1/query_match_action/match_query.go
@@ -34,6 +34,12 @@ func (matchActionQuery *MatchActionQuery) Validate() *errors.ModelError {
 		}
 	}
 
+	if matchActionQuery.MinNumberOfPermutationKeyValues != nil && matchActionQuery.MaxNumberOfPermutationKeyValues != nil {
+		if *matchActionQuery.MaxNumberOfPermutationKeyValues < *matchActionQuery.MinNumberOfPermutationKeyValues {
+			return &errors.ModelError{Err: fmt.Errorf("MaxNumberOfPermutationKeyValues is less than MinNumberOfPermutationKeyValues")}
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 09a194876a5feae7f6a0750df9dc32820cf3820c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:02 +0000
Subject: [PATCH 44/60] fix: values that are not a number are refused, they
 have no order in the trees

---
 pkg/models/datatypes/encapsulated_value.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/models/datatypes/encapsulated_value.go b/pkg/models/datatypes/encapsulated_value.go
index d31ff57..dbfc279 100644
--- a/pkg/models/datatypes/encapsulated_value.go
+++ b/pkg/models/datatypes/encapsulated_value.go
@@ -3,6 +3,7 @@ package datatypes
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 
@@ -220,10 +221,16 @@ func ValidateTypeAndData(dataType, minAllowedKeyType, maxAllowedKeyType DataType
 			if kind != reflect.Float32 {
 				return &errors.ModelError{Field: "Type", Err: fmt.Errorf("'float32' has Data of kind: %s", kind.String())}
 			}
+			if math.IsNaN(float64(data.(float32))) {
+				return &errors.ModelError{Field: "Data", Err: fmt.Errorf("is not a number, which cannot be compared to any other value")}
+			}
 		case T_float64:
 			if kind != reflect.Float64 {
 				return &errors.ModelError{Field: "Type", Err: fmt.Errorf("'float64' has Data of kind: %s", kind.String())}
 			}
+			if math.IsNaN(data.(float64)) {
+				return &errors.ModelError{Field: "Data", Err: fmt.Errorf("is not a number, which cannot be compared to any other value")}
+			}
 		case T_string:
 			if kind != reflect.String {
 				return &errors.ModelError{Field: "Type", Err: fmt.Errorf("'string' has Data of kind: %s", kind.String())}
-- 
2.43.0


From 36c6cd1895bd5b6c1e0aa7578271a9f32e9f4487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:04 +0000
Subject: [PATCH 45/60] fix: a query that joins a query for everything no
 longer panics

---
 .../btree_associated/threadsafe_query.go        | 17 ++++++++++++++++-
 .../associated_action_query.go                  |  2 +-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_query.go b/internal/datastructures/btree_associated/threadsafe_query.go
index ca94c3f..0a1a19b 100644
--- a/internal/datastructures/btree_associated/threadsafe_query.go
+++ b/internal/datastructures/btree_associated/threadsafe_query.go
@@ -40,7 +40,7 @@ func (tsat *threadsafeAssociatedTree) QueryAction(query *queryassociatedaction.A
 	defer tsat.destroySyncer.ClearOperation()
 
 	// select all
-	if query.Selection == nil && query.And == nil && query.Or == nil {
+	if query.Selection == nil && len(query.And) == 0 && len(query.Or) == 0 {
 		wrappedPagination := func(_ datatypes.EncapsulatedValue, item any) bool {
 			return onQueryPagination(item.(AssociatedKeyValues))
 		}
@@ -86,6 +86,21 @@ func (tsat *threadsafeAssociatedTree) QueryAction(query *queryassociatedaction.A
 //	PARAMS:
 //	- query - They user provided query to parse through
 func (tsat *threadsafeAssociatedTree) query(query *queryassociatedaction.AssociatedActionQuery) set.Set[string] {
+	// select all as part of another query
+	if query.Selection == nil && len(query.And) == 0 && len(query.Or) == 0 {
+		allIDs := set.New[string]()
+		addID := func(key datatypes.EncapsulatedValue, _ any) bool {
+			allIDs.Add(key.Data.(string))
+			return true
+		}
+
+		if err := tsat.associatedIDs.Find(datatypes.Any(), v1common.TypeRestrictions{MinDataType: datatypes.MinDataType, MaxDataType: datatypes.MaxDataType}, addID); err != nil {
+			panic(err)
+		}
+
+		return allIDs
+	}
+
 	// need to filter for key values
 	var validIDs set.Set[string]
 	validCounter := 0
diff --git a/pkg/models/api/common/v1/query_associated_action/associated_action_query.go b/pkg/models/api/common/v1/query_associated_action/associated_action_query.go
index 8b213a7..f4dfe47 100644
--- a/pkg/models/api/common/v1/query_associated_action/associated_action_query.go
+++ b/pkg/models/api/common/v1/query_associated_action/associated_action_query.go
@@ -98,7 +98,7 @@ func KeyValuesToExactAssociatedActionQuery(keyValues datatypes.KeyValues) *Assoc
 // used to know if arbitrary tags, would be found from a query
 func (q *AssociatedActionQuery) MatchTags(tags datatypes.KeyValues) bool {
 	// a query that only has OR values does not match on its own
-	matched := q.Selection != nil || q.And != nil || q.Or == nil
+	matched := q.Selection != nil || len(q.And) != 0 || len(q.Or) == 0
 
 	// if Query is not nil, check the tags
 	if q.Selection != nil {
-- 
2.43.0


From 7c4544bb5d603a346615e26213440b62e2e27681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:26 +0000
Subject: [PATCH 46/60] fix: an item with a key that willow uses for its own
 counters is refused

---
 pkg/models/api/willow/v1/item.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/models/api/willow/v1/item.go b/pkg/models/api/willow/v1/item.go
index 373fd3a..e664018 100644
--- a/pkg/models/api/willow/v1/item.go
+++ b/pkg/models/api/willow/v1/item.go
@@ -93,6 +93,15 @@ func (itemDBDefinition *ItemDBDefinition) Validate() *errors.ModelError {
 		return &errors.ModelError{Field: "KeyValues", Child: err}
 	}
 
+	// these keys are used by Willow itself for the Limiter's counters of a channel
+	for _, key := range []string{"queue_name", "enqueued", "running"} {
+		for _, reserved := range []string{key, "_willow_" + key} {
+			if _, ok := itemDBDefinition.KeyValues[reserved]; ok {
+				return &errors.ModelError{Field: "KeyValues", Err: fmt.Errorf("the key '%s' is reserved", reserved)}
+			}
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From bc9f05a3dc426c7d1201a39d9db27905417aa5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:38 +0000
Subject: [PATCH 47/60] fix: the listing of locks reports the time left until a
 lock expires, not the time since its last heartbeat

---
 internal/locker/lock_manager/exclusive_locker.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/locker/lock_manager/exclusive_locker.go b/internal/locker/lock_manager/exclusive_locker.go
index f6da0db..10a9047 100644
--- a/internal/locker/lock_manager/exclusive_locker.go
+++ b/internal/locker/lock_manager/exclusive_locker.go
@@ -157,7 +157,8 @@ func (exclusiveLocker *exclusiveLocker) LocksQuery(ctx context.Context, query *q
 		if lastHeartbeatTime == (time.Time{}) {
 			expireTime = 0
 		} else {
-			expireTime = time.Since(lastHeartbeatTime)
+			// how long until the lock expires without another heartbeat
+			expireTime = max(0, lockTimeout-time.Since(lastHeartbeatTime))
 		}
 
 		locks = append(locks, &v1locker.Lock{
-- 
2.43.0


From a932db207b778108ccc37465d81f79e6a3f98394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:19 +0000
Subject: [PATCH 48/60] fix: updates of a queue at the same time leave the
 maximum that is shown and the one that is enforced the same

---
 internal/willow/brokers/queues/memory/memory_queue.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/willow/brokers/queues/memory/memory_queue.go b/internal/willow/brokers/queues/memory/memory_queue.go
index 6008c74..20854e2 100644
--- a/internal/willow/brokers/queues/memory/memory_queue.go
+++ b/internal/willow/brokers/queues/memory/memory_queue.go
@@ -2,6 +2,7 @@ package memory
 
 import (
 	"context"
+	"sync"
 	"sync/atomic"
 
 	"github.com/DanLavine/willow/internal/helpers"
@@ -23,6 +24,9 @@ type memoryQueue struct {
 	// 2. update a queue limits, need to update the overrides
 	limiterClient limiterclient.LimiterClient
 
+	// updates must not mix, otherwise the configured limit is not the one enforced by the limiter
+	updateLock *sync.Mutex
+
 	// queue details
 	configuredLimit *atomic.Int64
 	queueName       string
@@ -62,6 +66,7 @@ func New(ctx context.Context, queue *v1willow.Queue, limiterRuleID string, limit
 
 	return &memoryQueue{
 		limiterClient:   limiterClient,
+		updateLock:      new(sync.Mutex),
 		configuredLimit: limit,
 		queueName:       *queue.Spec.DBDefinition.Name,
 	}, nil
@@ -73,7 +78,9 @@ func (mq *memoryQueue) ConfiguredLimit() int64 {
 
 func (mq *memoryQueue) Update(ctx context.Context, limiterRuleID string, updateReq *v1willow.QueueProperties) *errors.ServerError {
 	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "Update")
-	mq.configuredLimit.Store(*updateReq.MaxItems)
+
+	mq.updateLock.Lock()
+	defer mq.updateLock.Unlock()
 
 	// get the original override id
 	overrides, err := mq.limiterClient.QueryOverrides(ctx, limiterRuleID, &queryassociatedaction.AssociatedActionQuery{
@@ -116,6 +123,7 @@ func (mq *memoryQueue) Update(ctx context.Context, limiterRuleID string, updateR
 		return errors.InternalServerError
 	}
 
+	mq.configuredLimit.Store(*updateReq.MaxItems)
 	return nil
 }
 
-- 
2.43.0


From 1a031cf69f3e1db8be95923d0fa29e60352a3286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:57 +0000
Subject: [PATCH 49/60] fix: a queue can be deleted when the limiter has
 overrides for some of its channels

---
 internal/willow/brokers/queues/memory/memory_queue.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/willow/brokers/queues/memory/memory_queue.go b/internal/willow/brokers/queues/memory/memory_queue.go
index 20854e2..1eb5320 100644
--- a/internal/willow/brokers/queues/memory/memory_queue.go
+++ b/internal/willow/brokers/queues/memory/memory_queue.go
@@ -150,6 +150,8 @@ func (mq *memoryQueue) Destroy(ctx context.Context, limiterRuleID, queueID strin
 					},
 				},
 			},
+			MinNumberOfKeyValues: helpers.PointerOf(2),
+			MaxNumberOfKeyValues: helpers.PointerOf(2),
 		},
 	})
 	if err != nil {
-- 
2.43.0


From 764930398234dd50f41e71343b6a97d56e63141a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:04 +0000
Subject: [PATCH 50/60] fix: an override's limit is read once, so that an
 update cannot hide the other overrides that match

---
 internal/limiter/overrides/overrides_client_local.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/limiter/overrides/overrides_client_local.go b/internal/limiter/overrides/overrides_client_local.go
index 7470ea5..f55e01e 100644
--- a/internal/limiter/overrides/overrides_client_local.go
+++ b/internal/limiter/overrides/overrides_client_local.go
@@ -294,7 +294,7 @@ func (ocl *overridesClientLocal) FindOverrideLimits(ctx context.Context, ruleID
 					GroupByKeyValues: item.ManyKeyValues(),
 				},
 				Properties: &v1limiter.OverrideProperties{
-					Limit: helpers.PointerOf(override.Limit()),
+					Limit: helpers.PointerOf(limit),
 				},
 			},
 			State: &v1limiter.OverrideState{
-- 
2.43.0


From 9f8e0cd6e429ab1fac83c4485dcd70199fd28606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:09 +0000
Subject: [PATCH 51/60] fix: the heartbeats of a dequeued item carry a content
 type, so that the service accepts them

---
 pkg/clients/willow_client/item.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/clients/willow_client/item.go b/pkg/clients/willow_client/item.go
index 1643be2..3dabbec 100644
--- a/pkg/clients/willow_client/item.go
+++ b/pkg/clients/willow_client/item.go
@@ -97,6 +97,7 @@ func newItem(url string, client *http.Client, queueName string, dequeueItem *v1w
 					item.forwardError(err)
 					continue
 				}
+				req.Header.Add("Content-Type", "application/json")
 
 				resp, err := client.Do(req)
 				// error making the request. This should not happen
-- 
2.43.0


From 572de9456501b1d5939aa6bd3c82837b4b05bd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:30 +0000
Subject: [PATCH 52/60] fix: a heartbeat that fails while its item is acked
 does not crash the client

---
 pkg/clients/willow_client/item.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/clients/willow_client/item.go b/pkg/clients/willow_client/item.go
index 3dabbec..c0a461b 100644
--- a/pkg/clients/willow_client/item.go
+++ b/pkg/clients/willow_client/item.go
@@ -107,8 +107,9 @@ func newItem(url string, client *http.Client, queueName string, dequeueItem *v1w
 						//nothing to do here. race between ack and heartbeat
 					default:
 						item.forwardError(err)
-						continue
 					}
+
+					continue
 				}
 
 				// parse the response
-- 
2.43.0


From 23e2d969002e69a4642dc4857da3ec5742a4bca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:31 +0000
Subject: [PATCH 53/60] fix: a dequeued item is done once its timeout is
 reached, and not only when a late heartbeat finds out

---
 pkg/clients/willow_client/item.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/pkg/clients/willow_client/item.go b/pkg/clients/willow_client/item.go
index c0a461b..bb283f4 100644
--- a/pkg/clients/willow_client/item.go
+++ b/pkg/clients/willow_client/item.go
@@ -30,6 +30,10 @@ type Item struct {
 	doneOnce *sync.Once
 	done     chan struct{}
 
+	// used to abort a heartbeat request once the item is done
+	heartbeatCtx    context.Context
+	cancelHeartbeat context.CancelFunc
+
 	url    string
 	client *http.Client
 
@@ -44,10 +48,15 @@ type Item struct {
 }
 
 func newItem(url string, client *http.Client, queueName string, dequeueItem *v1willow.Item) *Item {
+	heartbeatCtx, cancelHeartbeat := context.WithCancel(context.Background())
+
 	item := &Item{
 		doneOnce: new(sync.Once),
 		done:     make(chan struct{}),
 
+		heartbeatCtx:    heartbeatCtx,
+		cancelHeartbeat: cancelHeartbeat,
+
 		url:    url,
 		client: client,
 
@@ -64,21 +73,20 @@ func newItem(url string, client *http.Client, queueName string, dequeueItem *v1w
 		defer item.stop()
 
 		// set ticker to be ((timeout - 10%) /3). This way we try and heartbeat at least 3 times before a failure occurs
-		lastHeartbeat := time.Now()
 		adjustedTimeout := item.heartbeatTimeout - (item.heartbeatTimeout / 10)
 		ticker := time.NewTicker(adjustedTimeout / 3)
+		defer ticker.Stop()
+
+		// the item is lost when the timeout is reached, even if a heartbeat request is still waiting for an answer
+		timeoutTimer := time.AfterFunc(item.heartbeatTimeout, item.stop)
+		defer timeoutTimer.Stop()
 
 		for {
 			select {
 			case <-item.done:
-				// ack was called can just escape
+				// ack was called or the timeout was reached. can just escape
 				return
 			case <-ticker.C:
-				// in this case, we know that we have timed out and don't need to heartbeat anymore
-				if time.Since(lastHeartbeat) >= adjustedTimeout {
-					return
-				}
-
 				data, err := api.ModelEncodeRequest(v1willow.Heartbeat{
 					ItemID:    item.itemID,
 					KeyValues: item.keyValues,
@@ -88,7 +96,8 @@ func newItem(url string, client *http.Client, queueName string, dequeueItem *v1w
 					continue
 				}
 
-				req, err := http.NewRequest(
+				req, err := http.NewRequestWithContext(
+					item.heartbeatCtx,
 					"POST",
 					fmt.Sprintf("%s/v1/queues/%s/channels/items/heartbeat", item.url, item.queueName),
 					bytes.NewBuffer(data),
@@ -116,7 +125,7 @@ func newItem(url string, client *http.Client, queueName string, dequeueItem *v1w
 				switch resp.StatusCode {
 				case http.StatusOK:
 					// sent a heartbeat
-					lastHeartbeat = time.Now()
+					timeoutTimer.Reset(item.heartbeatTimeout)
 				case http.StatusBadRequest, http.StatusConflict, http.StatusInternalServerError:
 					// faild to heartbeat for some reason
 					apiError := &errors.Error{}
@@ -232,6 +241,9 @@ func (item *Item) forwardError(err error) {
 func (item *Item) stop() {
 	item.doneOnce.Do(func() {
 		close(item.done)
+
+		// abort a heartbeat request
+		item.cancelHeartbeat()
 	})
 }
 
-- 
2.43.0


From 012f6569c3bde45e0382f4dc4fb0c04948ffbd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:45 +0000
Subject: [PATCH 54/60] fix: a dequeued item is done as soon as a heartbeat is
 answered with the item being gone

---
 pkg/clients/willow_client/item.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/clients/willow_client/item.go b/pkg/clients/willow_client/item.go
index bb283f4..22377e7 100644
--- a/pkg/clients/willow_client/item.go
+++ b/pkg/clients/willow_client/item.go
@@ -126,7 +126,7 @@ func newItem(url string, client *http.Client, queueName string, dequeueItem *v1w
 				case http.StatusOK:
 					// sent a heartbeat
 					timeoutTimer.Reset(item.heartbeatTimeout)
-				case http.StatusBadRequest, http.StatusConflict, http.StatusInternalServerError:
+				case http.StatusBadRequest, http.StatusNotFound, http.StatusConflict, http.StatusInternalServerError:
 					// faild to heartbeat for some reason
 					apiError := &errors.Error{}
 					if err := api.ModelDecodeResponse(resp, apiError); err != nil {
@@ -144,6 +144,11 @@ func newItem(url string, client *http.Client, queueName string, dequeueItem *v1w
 							item.forwardError(apiError)
 						}
 					}
+
+					// the service no longer knows of the item as being processed by this client
+					if resp.StatusCode != http.StatusInternalServerError {
+						return
+					}
 				default:
 					item.forwardError(fmt.Errorf("unexpected status code while heartbeating: %d", resp.StatusCode))
 				}
-- 
2.43.0


From 90030b307dd7658b29ae5a1004b12a74ed12a9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:47 +0000
Subject: [PATCH 55/60] fix: an ack that is answered with an unexpected status
 code is reported as an error

---
 pkg/clients/willow_client/item.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pkg/clients/willow_client/item.go b/pkg/clients/willow_client/item.go
index 22377e7..051af88 100644
--- a/pkg/clients/willow_client/item.go
+++ b/pkg/clients/willow_client/item.go
@@ -223,10 +223,8 @@ func (item *Item) ACK(ctx context.Context, passed bool) error {
 
 		return apiError
 	default:
-		item.forwardError(fmt.Errorf("unexpected status code while heartbeating: %d", resp.StatusCode))
+		return fmt.Errorf("unexpected status code while acking: %d", resp.StatusCode)
 	}
-
-	return nil
 }
 
 // get the dequeued item
-- 
2.43.0


From 265bf33be305035fe67fc0231c652fffefb5505a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:59 +0000
Subject: [PATCH 56/60] fix: the willow client escapes queue names, so that a
 request cannot reach another queue

---
 pkg/clients/willow_client/channel.go | 7 ++++---
 pkg/clients/willow_client/item.go    | 5 +++--
 pkg/clients/willow_client/queue.go   | 7 ++++---
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/pkg/clients/willow_client/channel.go b/pkg/clients/willow_client/channel.go
index e4e0d3a..583956e 100644
--- a/pkg/clients/willow_client/channel.go
+++ b/pkg/clients/willow_client/channel.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"net/http"
+	"net/url"
 
 	"github.com/DanLavine/willow/pkg/clients"
 	"github.com/DanLavine/willow/pkg/models/api"
@@ -33,7 +34,7 @@ func (wc *WillowClient) EnqueueQueueItem(ctx context.Context, queueName string,
 	}
 
 	// setup and make the request
-	req, err := http.NewRequest("POST", fmt.Sprintf("%s/v1/queues/%s/channels/items", wc.url, queueName), bytes.NewBuffer(data))
+	req, err := http.NewRequest("POST", fmt.Sprintf("%s/v1/queues/%s/channels/items", wc.url, url.PathEscape(queueName)), bytes.NewBuffer(data))
 	if err != nil {
 		return err
 	}
@@ -79,7 +80,7 @@ func (wc *WillowClient) DequeueQueueItem(ctx context.Context, queueName string,
 	}
 
 	// setup and make the request
-	req, err := http.NewRequestWithContext(ctx, "GET", fmt.Sprintf("%s/v1/queues/%s/channels/items", wc.url, queueName), bytes.NewBuffer(data))
+	req, err := http.NewRequestWithContext(ctx, "GET", fmt.Sprintf("%s/v1/queues/%s/channels/items", wc.url, url.PathEscape(queueName)), bytes.NewBuffer(data))
 	if err != nil {
 		return nil, err
 	}
@@ -132,7 +133,7 @@ func (wc *WillowClient) DeleteQueueChannel(ctx context.Context, queueName string
 	}
 
 	// setup and make the request
-	req, err := http.NewRequest("DELETE", fmt.Sprintf("%s/v1/queues/%s/channels", wc.url, queueName), bytes.NewBuffer(data))
+	req, err := http.NewRequest("DELETE", fmt.Sprintf("%s/v1/queues/%s/channels", wc.url, url.PathEscape(queueName)), bytes.NewBuffer(data))
 	if err != nil {
 		return err
 	}
diff --git a/pkg/clients/willow_client/item.go b/pkg/clients/willow_client/item.go
index 051af88..84a2865 100644
--- a/pkg/clients/willow_client/item.go
+++ b/pkg/clients/willow_client/item.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"net/http"
+	neturl "net/url"
 	"sync"
 	"time"
 
@@ -99,7 +100,7 @@ func newItem(url string, client *http.Client, queueName string, dequeueItem *v1w
 				req, err := http.NewRequestWithContext(
 					item.heartbeatCtx,
 					"POST",
-					fmt.Sprintf("%s/v1/queues/%s/channels/items/heartbeat", item.url, item.queueName),
+					fmt.Sprintf("%s/v1/queues/%s/channels/items/heartbeat", item.url, neturl.PathEscape(item.queueName)),
 					bytes.NewBuffer(data),
 				)
 				if err != nil {
@@ -196,7 +197,7 @@ func (item *Item) ACK(ctx context.Context, passed bool) error {
 
 	req, err := http.NewRequest(
 		"POST",
-		fmt.Sprintf("%s/v1/queues/%s/channels/items/ack", item.url, item.queueName),
+		fmt.Sprintf("%s/v1/queues/%s/channels/items/ack", item.url, neturl.PathEscape(item.queueName)),
 		bytes.NewBuffer(data),
 	)
 	if err != nil {
diff --git a/pkg/clients/willow_client/queue.go b/pkg/clients/willow_client/queue.go
index 6740f32..ec33cd2 100644
--- a/pkg/clients/willow_client/queue.go
+++ b/pkg/clients/willow_client/queue.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"fmt"
 	"net/http"
+	"net/url"
 
 	"github.com/DanLavine/willow/pkg/clients"
 	"github.com/DanLavine/willow/pkg/models/api"
@@ -115,7 +116,7 @@ func (wc *WillowClient) GetQueue(ctx context.Context, queueName string, channels
 	}
 
 	// setup and make the request
-	req, err := http.NewRequest("GET", fmt.Sprintf("%s/v1/queues/%s", wc.url, queueName), bytes.NewBuffer(data))
+	req, err := http.NewRequest("GET", fmt.Sprintf("%s/v1/queues/%s", wc.url, url.PathEscape(queueName)), bytes.NewBuffer(data))
 	if err != nil {
 		return nil, err
 	}
@@ -165,7 +166,7 @@ func (wc *WillowClient) UpdateQueue(ctx context.Context, queueName string, queue
 	}
 
 	// setup and make the request
-	req, err := http.NewRequest("PUT", fmt.Sprintf("%s/v1/queues/%s", wc.url, queueName), bytes.NewBuffer(data))
+	req, err := http.NewRequest("PUT", fmt.Sprintf("%s/v1/queues/%s", wc.url, url.PathEscape(queueName)), bytes.NewBuffer(data))
 	if err != nil {
 		return err
 	}
@@ -202,7 +203,7 @@ func (wc *WillowClient) UpdateQueue(ctx context.Context, queueName string, queue
 // Delete a queue and any channels associated with the Queue
 func (wc *WillowClient) DeleteQueue(ctx context.Context, queueName string) error {
 	// setup and make the request
-	req, err := http.NewRequest("DELETE", fmt.Sprintf("%s/v1/queues/%s", wc.url, queueName), nil)
+	req, err := http.NewRequest("DELETE", fmt.Sprintf("%s/v1/queues/%s", wc.url, url.PathEscape(queueName)), nil)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 7402d784e10bdceaf970f943bfb535058bc7bf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:42 +0000
Subject: [PATCH 57/60] fix: a rule that is deleted while a channel waits for
 its limit does not crash willow

---
 .../memory/memory_queue_channel.go              | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 89053ad..432d947 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -204,16 +204,15 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 				for {
 					// find any rules we might be at the limit for
 					rules, err := mqc.limiterClient.MatchRules(context.Background(), querymatchaction.KeyValuesToAnyMatchActionQuery(erroredKeyValues))
-					if err != nil {
-						panic(err)
-					}
 
-					// for each rule, query the counters to know if there is an issue
-					underLimit := true
+					// for each rule, query the counters to know if there is an issue. If the limiter cannot tell, then check again later
+					underLimit := err == nil
 					for _, rule := range rules {
 						overrides, err := mqc.limiterClient.MatchOverrides(context.Background(), rule.State.ID, querymatchaction.KeyValuesToAnyMatchActionQuery(erroredKeyValues))
 						if err != nil {
-							panic(err)
+							// the rule can be deleted at any time
+							underLimit = false
+							break
 						}
 
 						switch len(overrides) {
@@ -256,7 +255,8 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 
 							counters, err := mqc.limiterClient.QueryCounters(context.Background(), query)
 							if err != nil {
-								panic(err)
+								underLimit = false
+								break
 							}
 
 							totalCount := int64(0)
@@ -307,7 +307,8 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 
 								counters, err := mqc.limiterClient.QueryCounters(context.Background(), query)
 								if err != nil {
-									panic(err)
+									underLimit = false
+									break
 								}
 
 								totalCount := int64(0)
-- 
2.43.0


From db7335291c10dac5a9817a00deff7faa6ced63bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:26 +0000
Subject: [PATCH 58/60] fix: stop willow when it is told to while it waits for
 the limiter at start

---
 cmd/willow/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/willow/main.go b/cmd/willow/main.go
index 603f072..dea880f 100644
--- a/cmd/willow/main.go
+++ b/cmd/willow/main.go
@@ -56,7 +56,12 @@ func main() {
 	for i := 0; i < 10; i++ {
 		if err := limiterClient.Healthy(); err != nil {
 			logger.Error("error checking health of limiter service", zap.Error(err))
-			time.Sleep(10 * time.Second)
+
+			select {
+			case <-time.After(10 * time.Second):
+			case <-shutdown.Done():
+				os.Exit(1)
+			}
 
 			if i == 9 {
 				logger.Fatal("Failed to setup the limiter client which is required")
-- 
2.43.0


From ea4c2b1c4cdd94cdafbe6b44f2389d152553d885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:09 +0000
Subject: [PATCH 59/60] fix: a limiter that cannot be queried does not panic
 the update or delete of a queue

---
 .../brokers/queues/memory/memory_queue.go     | 69 ++++++++-----------
 1 file changed, 28 insertions(+), 41 deletions(-)

diff --git a/internal/willow/brokers/queues/memory/memory_queue.go b/internal/willow/brokers/queues/memory/memory_queue.go
index 1eb5320..9fc8298 100644
--- a/internal/willow/brokers/queues/memory/memory_queue.go
+++ b/internal/willow/brokers/queues/memory/memory_queue.go
@@ -2,6 +2,7 @@ package memory
 
 import (
 	"context"
+	"fmt"
 	"sync"
 	"sync/atomic"
 
@@ -83,39 +84,14 @@ func (mq *memoryQueue) Update(ctx context.Context, limiterRuleID string, updateR
 	defer mq.updateLock.Unlock()
 
 	// get the original override id
-	overrides, err := mq.limiterClient.QueryOverrides(ctx, limiterRuleID, &queryassociatedaction.AssociatedActionQuery{
-		Selection: &queryassociatedaction.Selection{
-			KeyValues: queryassociatedaction.SelectionKeyValues{
-				"_willow_queue_name": queryassociatedaction.ValueQuery{
-					Value:      datatypes.String(mq.queueName),
-					Comparison: v1common.Equals,
-					TypeRestrictions: v1common.TypeRestrictions{
-						MinDataType: datatypes.T_string,
-						MaxDataType: datatypes.T_string,
-					},
-				},
-				"_willow_enqueued": queryassociatedaction.ValueQuery{
-					Value:      datatypes.String("true"),
-					Comparison: v1common.Equals,
-					TypeRestrictions: v1common.TypeRestrictions{
-						MinDataType: datatypes.T_string,
-						MaxDataType: datatypes.T_string,
-					},
-				},
-			},
-			MinNumberOfKeyValues: helpers.PointerOf(2),
-			MaxNumberOfKeyValues: helpers.PointerOf(2),
-		},
-	})
+	override, err := findOverride(ctx, mq.limiterClient, limiterRuleID, mq.queueName)
 	if err != nil {
-		panic(err)
-	}
-	if len(overrides) != 1 {
-		panic(overrides)
+		logger.Error("Failed to find the Limiter override", zap.Error(err))
+		return errors.InternalServerError
 	}
 
 	// need to create an override for the willow Rules in the limiter
-	err = mq.limiterClient.UpdateOverride(ctx, limiterRuleID, overrides[0].State.ID, &v1.OverrideProperties{
+	err = mq.limiterClient.UpdateOverride(ctx, limiterRuleID, override.State.ID, &v1.OverrideProperties{
 		Limit: updateReq.MaxItems,
 	})
 	if err != nil {
@@ -130,11 +106,29 @@ func (mq *memoryQueue) Update(ctx context.Context, limiterRuleID string, updateR
 func (mq *memoryQueue) Destroy(ctx context.Context, limiterRuleID, queueID string) *errors.ServerError {
 	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "Destroy")
 
-	overrides, err := mq.limiterClient.QueryOverrides(ctx, limiterRuleID, &queryassociatedaction.AssociatedActionQuery{
+	override, err := findOverride(ctx, mq.limiterClient, limiterRuleID, mq.queueName)
+	if err != nil {
+		logger.Error("Failed to find the Limiter override", zap.Error(err))
+		return errors.InternalServerError
+	}
+
+	// need to delete the override for the willow Rules in the limiter
+	err = mq.limiterClient.DeleteOverride(ctx, limiterRuleID, override.State.ID)
+	if err != nil {
+		logger.Error("Failed to delete the Limiter override", zap.Error(err))
+		return errors.InternalServerError
+	}
+
+	return nil
+}
+
+// findOverride returns the Limiter's override that holds the limit of a queue
+func findOverride(ctx context.Context, limiterClient limiterclient.LimiterClient, limiterRuleID, queueName string) (*v1.Override, error) {
+	overrides, err := limiterClient.QueryOverrides(ctx, limiterRuleID, &queryassociatedaction.AssociatedActionQuery{
 		Selection: &queryassociatedaction.Selection{
 			KeyValues: queryassociatedaction.SelectionKeyValues{
 				"_willow_queue_name": queryassociatedaction.ValueQuery{
-					Value:      datatypes.String(mq.queueName),
+					Value:      datatypes.String(queueName),
 					Comparison: v1common.Equals,
 					TypeRestrictions: v1common.TypeRestrictions{
 						MinDataType: datatypes.T_string,
@@ -155,18 +149,11 @@ func (mq *memoryQueue) Destroy(ctx context.Context, limiterRuleID, queueID strin
 		},
 	})
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
 	if len(overrides) != 1 {
-		panic(overrides)
+		return nil, fmt.Errorf("expected one override for queue '%s', found %d", queueName, len(overrides))
 	}
 
-	// need to delete the override for the willow Rules in the limiter
-	err = mq.limiterClient.DeleteOverride(ctx, limiterRuleID, overrides[0].State.ID)
-	if err != nil {
-		logger.Error("Failed to delete the Limiter override", zap.Error(err))
-		return errors.InternalServerError
-	}
-
-	return nil
+	return overrides[0], nil
 }
-- 
2.43.0


From e76d917c374b0771fcfc4680494220a5ef18ad16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:27 +0000
Subject: [PATCH 60/60] fix: a queue can be created or deleted again after the
 limiter's answer was lost

---
 .../brokers/queues/memory/memory_queue.go     | 33 ++++++++++++++++---
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/internal/willow/brokers/queues/memory/memory_queue.go b/internal/willow/brokers/queues/memory/memory_queue.go
index 9fc8298..08c4ad6 100644
--- a/internal/willow/brokers/queues/memory/memory_queue.go
+++ b/internal/willow/brokers/queues/memory/memory_queue.go
@@ -62,7 +62,17 @@ func New(ctx context.Context, queue *v1willow.Queue, limiterRuleID string, limit
 
 	if err != nil {
 		logger.Error("Failed to create a Limiter override", zap.Error(err))
-		return nil, errors.InternalServerError
+
+		// an earlier attempt to create the queue could have added the override, but could not tell
+		override, findErr := findOverride(ctx, limiterClient, limiterRuleID, *queue.Spec.DBDefinition.Name)
+		if findErr != nil || override == nil {
+			return nil, errors.InternalServerError
+		}
+
+		if err = limiterClient.UpdateOverride(ctx, limiterRuleID, override.State.ID, &v1.OverrideProperties{Limit: maxItems}); err != nil {
+			logger.Error("Failed to update the Limiter override", zap.Error(err))
+			return nil, errors.InternalServerError
+		}
 	}
 
 	return &memoryQueue{
@@ -89,6 +99,10 @@ func (mq *memoryQueue) Update(ctx context.Context, limiterRuleID string, updateR
 		logger.Error("Failed to find the Limiter override", zap.Error(err))
 		return errors.InternalServerError
 	}
+	if override == nil {
+		logger.Error("The Limiter has no override for the queue")
+		return errors.InternalServerError
+	}
 
 	// need to create an override for the willow Rules in the limiter
 	err = mq.limiterClient.UpdateOverride(ctx, limiterRuleID, override.State.ID, &v1.OverrideProperties{
@@ -112,6 +126,11 @@ func (mq *memoryQueue) Destroy(ctx context.Context, limiterRuleID, queueID strin
 		return errors.InternalServerError
 	}
 
+	// an earlier attempt to delete the queue removed the override, but could not tell
+	if override == nil {
+		return nil
+	}
+
 	// need to delete the override for the willow Rules in the limiter
 	err = mq.limiterClient.DeleteOverride(ctx, limiterRuleID, override.State.ID)
 	if err != nil {
@@ -122,7 +141,7 @@ func (mq *memoryQueue) Destroy(ctx context.Context, limiterRuleID, queueID strin
 	return nil
 }
 
-// findOverride returns the Limiter's override that holds the limit of a queue
+// findOverride returns the Limiter's override that holds the limit of a queue, or nil if there is none
 func findOverride(ctx context.Context, limiterClient limiterclient.LimiterClient, limiterRuleID, queueName string) (*v1.Override, error) {
 	overrides, err := limiterClient.QueryOverrides(ctx, limiterRuleID, &queryassociatedaction.AssociatedActionQuery{
 		Selection: &queryassociatedaction.Selection{
@@ -151,9 +170,13 @@ func findOverride(ctx context.Context, limiterClient limiterclient.LimiterClient
 	if err != nil {
 		return nil, err
 	}
-	if len(overrides) != 1 {
+
+	switch len(overrides) {
+	case 0:
+		return nil, nil
+	case 1:
+		return overrides[0], nil
+	default:
 		return nil, fmt.Errorf("expected one override for queue '%s', found %d", queueName, len(overrides))
 	}
-
-	return overrides[0], nil
 }
-- 
2.43.0

