From 03e0a13b253cebffd2a36b5f18a085fe742f73ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:54 +0000
Subject: [PATCH 01/92] fix: HashMap::erase used unscaled pointer arithmetic to
 locate the next cell group

---
 repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp b/repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp
index 2fa0408..ae7131e 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp
@@ -299,7 +299,8 @@ PLY_NO_INLINE void HashMap::erase(FindInfo* info, const Callbacks* cb, u8*& link
             break;
         }
         u32 nextIdx = idx + *curLink;
-        CellGroup* nextGroup = m_cellGroups + ((nextIdx & m_sizeMask) >> 2);
+        CellGroup* nextGroup = (CellGroup*) PLY_PTR_OFFSET(
+            m_cellGroups, cellGroupSize * ((nextIdx & m_sizeMask) >> 2));
         if (prevLink) {
             u32 prevIdx = idx - *prevLink;
             if (nextIdx - prevIdx < 256) {
-- 
2.43.0


From e0a7a5f990447344d2f69b45051033b0960af4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:40 +0000
Subject: [PATCH 02/92] fix: HashMap::erase could store a link of 255, which
 marks an empty cell

---
 repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp b/repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp
index ae7131e..7cc2cb6 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp
@@ -303,7 +303,7 @@ PLY_NO_INLINE void HashMap::erase(FindInfo* info, const Callbacks* cb, u8*& link
             m_cellGroups, cellGroupSize * ((nextIdx & m_sizeMask) >> 2));
         if (prevLink) {
             u32 prevIdx = idx - *prevLink;
-            if (nextIdx - prevIdx < 256) {
+            if (nextIdx - prevIdx < EmptySlot) { // EmptySlot itself is not a valid delta
                 // Just redirect the previous link
                 cb->destruct(PLY_PTR_OFFSET(curGroup + 1, cb->itemSize * (idx & 3)));
                 *curLink = EmptySlot;
-- 
2.43.0


From 490246dccb67b8dbac35250d4e2c18eccf82647b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:42 +0000
Subject: [PATCH 03/92] fix: BTree lost insertion order among items with equal
 keys that span several leaves

---
 .../src/runtime/ply-runtime/container/BTree.h | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/BTree.h b/repos/plywood/src/runtime/ply-runtime/container/BTree.h
index 13012f0..4d0043a 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/BTree.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/BTree.h
@@ -69,6 +69,24 @@ private:
             return links[lo].child;
         }
 
+        Node* getLastChildNotGreaterThan(const Index& index) {
+            // Used by prepareInsert() so that, like findInsertPos(), items that share the same
+            // index are kept in insertion order even when they span several leaves.
+            PLY_ASSERT(!isLeaf);
+            PLY_ASSERT(size > 0);
+            Link* links = getLinks();
+            u32 lo = 0;
+            u32 hi = size - 1;
+            while (lo < hi) {
+                u32 mid = (lo + hi + 1) / 2;
+                if (!Traits::less(index, links[mid].index))
+                    lo = mid;
+                else
+                    hi = mid - 1;
+            }
+            return links[lo].child;
+        }
+
         u32 findLink(Node* child) {
             PLY_ASSERT(!isLeaf);
             u32 s = size;
@@ -611,7 +629,7 @@ public:
             m_root = Node::createLeaf();
         Node* node = m_root;
         while (!node->isLeaf) {
-            node = node->getLastChildLessThan(index);
+            node = node->getLastChildNotGreaterThan(index);
         }
         u32 pos = node->findInsertPos(index);
         if (node->size >= Traits::NodeCapacity) {
-- 
2.43.0


From 14bb33f950d4633cba4d49f67aa51d4c63b69a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:19 +0000
Subject: [PATCH 04/92] fix: assigning an Array to itself copied from its own
 uninitialised replacement

---
 .../plywood/src/runtime/ply-runtime/container/Array.h  | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Array.h b/repos/plywood/src/runtime/ply-runtime/container/Array.h
index 421a2dd..b4b1702 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Array.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Array.h
@@ -139,10 +139,7 @@ public:
         arr = other;
     */
     PLY_INLINE void operator=(const Array& other) {
-        ArrayView<T> arrayToFree = {this->items, this->numItems_};
-        new (this) Array{other};
-        subst::destructArray(arrayToFree.items, arrayToFree.numItems);
-        PLY_HEAP.free(arrayToFree.items);
+        *this = Array{other}; // Copies before overwriting, so that other may be this Array
     }
 
     /*!
@@ -189,10 +186,7 @@ public:
     */
     template <typename Other, typename = details::ArrayViewType<Other>>
     PLY_INLINE void operator=(Other&& other) {
-        ArrayView<T> arrayToFree = {this->items, this->numItems_};
-        new (this) Array{std::forward<Other>(other)};
-        subst::destructArray(arrayToFree.items, arrayToFree.numItems);
-        PLY_HEAP.free(arrayToFree.items);
+        *this = Array{std::forward<Other>(other)};
     }
 
     /*!
-- 
2.43.0


From 682d8b51da588471fa33234271edee005bcb5d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:19 +0000
Subject: [PATCH 05/92] fix: rfind asserted on an empty array

---
 repos/plywood/src/runtime/ply-runtime/algorithm/Find.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/algorithm/Find.h b/repos/plywood/src/runtime/ply-runtime/algorithm/Find.h
index f0c85e0..2bfe701 100644
--- a/repos/plywood/src/runtime/ply-runtime/algorithm/Find.h
+++ b/repos/plywood/src/runtime/ply-runtime/algorithm/Find.h
@@ -38,7 +38,7 @@ PLY_INLINE s32 find(const Arr& arr, const Arg& arg) {
 // rfind
 template <typename T, typename U, std::enable_if_t<IsComparable<T, U>, int> = 0>
 PLY_INLINE s32 rfind(ArrayView<const T> arr, const U& item) {
-    for (s32 i = safeDemote<s32>(arr.numItems - 1); i >= 0; i--) {
+    for (s32 i = safeDemote<s32>(arr.numItems) - 1; i >= 0; i--) {
         if (arr[i] == item)
             return i;
     }
@@ -47,7 +47,7 @@ PLY_INLINE s32 rfind(ArrayView<const T> arr, const U& item) {
 
 template <typename T, typename Callback, std::enable_if_t<IsCallable<Callback, T>, int> = 0>
 PLY_INLINE s32 rfind(ArrayView<const T> arr, const Callback& callback) {
-    for (s32 i = safeDemote<s32>(arr.numItems - 1); i >= 0; i--) {
+    for (s32 i = safeDemote<s32>(arr.numItems) - 1; i >= 0; i--) {
         if (callback(arr[i]))
             return i;
     }
-- 
2.43.0


From 933e505a55d01e3f25a2f2ec9dc89b7c1df67ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:19 +0000
Subject: [PATCH 06/92] fix: FixedArray's initializer-list constructor
 constructed every item twice

---
 repos/plywood/src/runtime/ply-runtime/container/FixedArray.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/FixedArray.h b/repos/plywood/src/runtime/ply-runtime/container/FixedArray.h
index fb71ad0..4b13a18 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/FixedArray.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/FixedArray.h
@@ -36,7 +36,10 @@ struct FixedArray {
 
     PLY_INLINE FixedArray(InitList<T> args) {
         PLY_ASSERT(Size == args.size());
-        subst::constructArrayFrom(this->items, args.begin(), Size);
+        // The items are already default-constructed, so assign instead of constructing them twice.
+        for (u32 i = 0; i < Size; i++) {
+            this->items[i] = args.begin()[i];
+        }
     }
 
     template <typename... Args>
-- 
2.43.0


From a56961b48f0b9f115a88a3c685526c95facff46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:47 +0000
Subject: [PATCH 07/92] fix: Sequence::truncate did not destruct the removed
 items

---
 .../plywood/src/runtime/ply-runtime/container/Sequence.cpp | 7 ++++++-
 repos/plywood/src/runtime/ply-runtime/container/Sequence.h | 5 +++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Sequence.cpp b/repos/plywood/src/runtime/ply-runtime/container/Sequence.cpp
index 8781daf..4136823 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Sequence.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/container/Sequence.cpp
@@ -49,7 +49,12 @@ PLY_NO_INLINE void popTail(BlockList::Footer** tail, u32 numBytes, void (*destru
     }
 }
 
-PLY_NO_INLINE void truncate(BlockList::Footer** tail, const BlockList::WeakRef& to) {
+PLY_NO_INLINE void truncate(BlockList::Footer** tail, const BlockList::WeakRef& to,
+                            void (*destructViewAs)(StringView)) {
+    destructViewAs(StringView::fromRange(to.byte, to.block->unused()));
+    for (BlockList::Footer* block = to.block->nextBlock; block; block = block->nextBlock) {
+        destructViewAs(block->viewUsedBytes());
+    }
     if (to.byte == to.block->start() && to.block->prevBlock) {
         *tail = to.block->prevBlock;
     } else  {
diff --git a/repos/plywood/src/runtime/ply-runtime/container/Sequence.h b/repos/plywood/src/runtime/ply-runtime/container/Sequence.h
index 4695305..26939b2 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Sequence.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Sequence.h
@@ -14,7 +14,8 @@ PLY_DLL_ENTRY void destructSequence(Reference<BlockList::Footer>* headRef,
 PLY_DLL_ENTRY void beginWriteInternal(BlockList::Footer** tail, u32 numBytes);
 PLY_DLL_ENTRY void popTail(BlockList::Footer** tail, u32 numBytes,
                            void (*destructViewAs)(StringView));
-PLY_DLL_ENTRY void truncate(BlockList::Footer** tail, const BlockList::WeakRef& to);
+PLY_DLL_ENTRY void truncate(BlockList::Footer** tail, const BlockList::WeakRef& to,
+                            void (*destructViewAs)(StringView));
 PLY_DLL_ENTRY u32 getTotalNumBytes(BlockList::Footer* head);
 PLY_DLL_ENTRY char* read(BlockList::WeakRef* weakRef, u32 itemSize);
 } // namespace details
@@ -267,7 +268,7 @@ public:
         details::popTail(&this->tailBlock, numItems * (u32) sizeof(T), subst::destructViewAs<T>);
     }
     PLY_INLINE void truncate(const WeakSequenceRef<T>& to) {
-        details::truncate(&this->tailBlock, to.impl);
+        details::truncate(&this->tailBlock, to.impl, subst::destructViewAs<T>);
     }
 
     /*!
-- 
2.43.0


From 93d477aecf707af9438e1b6c658f890b7f59dda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 08/92] fix: BlockList::WeakRef::normalized paired the next
 block with a pointer into the current one

---
 repos/plywood/src/runtime/ply-runtime/container/BlockList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/BlockList.h b/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
index f002996..d525f95 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
@@ -93,7 +93,7 @@ struct BlockList {
         }
         PLY_INLINE WeakRef normalized() const {
             if (this->block->nextBlock && (this->byte == this->block->unused())) {
-                return {this->block->nextBlock, this->block->start()};
+                return {this->block->nextBlock, this->block->nextBlock->start()};
             }
             return *this;
         }
-- 
2.43.0


From 3dd7243d36ba8aa55d771a42389f35a3ec9fc1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:21 +0000
Subject: [PATCH 09/92] fix: a Sequence of items larger than the default block
 looked empty

---
 repos/plywood/src/runtime/ply-runtime/container/Sequence.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Sequence.h b/repos/plywood/src/runtime/ply-runtime/container/Sequence.h
index 26939b2..bb07578 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Sequence.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Sequence.h
@@ -126,7 +126,9 @@ public:
 
         Sequence<String> list;
     */
-    PLY_INLINE Sequence() : headBlock{BlockList::createBlock()}, tailBlock{headBlock} {
+    PLY_INLINE Sequence()
+        : headBlock{BlockList::createBlock(max(BlockList::DefaultBlockSize, (u32) sizeof(T)))},
+          tailBlock{headBlock} {
     }
 
     /*!
-- 
2.43.0


From 2dba2c35299e351529a7aaab3aaeabe02a201d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:01 +0000
Subject: [PATCH 10/92] fix: iterating a BlockList up to an explicit end ran
 past it, and toString ignored it for a single block

---
 .../plywood/src/runtime/ply-runtime/container/BlockList.cpp | 3 ++-
 repos/plywood/src/runtime/ply-runtime/container/BlockList.h | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp b/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp
index f505e16..cdfa119 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp
@@ -114,7 +114,8 @@ PLY_NO_INLINE String BlockList::toString(Ref&& start, const WeakRef& end) {
     // Check for special case: When there is only one block and only one reference to the block,
     // we can truncate this block and return it as a String directly.
     if (!start.block->nextBlock && start.block->refCount == 1 && start.block->bytes == start.byte) {
-        u32 numBytes = start.block->numBytesUsed;
+        PLY_ASSERT(!end.block || end.block == start.block);
+        u32 numBytes = end.block ? start.block->offsetOf(end.byte) : start.block->numBytesUsed;
         char* bytes = (char*) PLY_HEAP.realloc(start.byte, numBytes);
         String result = String::adopt(bytes, numBytes);
         start.block.release();
diff --git a/repos/plywood/src/runtime/ply-runtime/container/BlockList.h b/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
index d525f95..91fd1ea 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
@@ -153,7 +153,11 @@ struct BlockList {
             return *this;
         }
         PLY_INLINE void operator++() {
-            this->curPos = this->curPos.block->weakRefToNext();
+            if (this->curPos.block == this->endPos.block) {
+                this->curPos = this->endPos; // The last view was visited
+            } else {
+                this->curPos = this->curPos.block->weakRefToNext();
+            }
         }
         PLY_INLINE bool operator!=(const RangeForIterator&) const {
             return this->curPos != this->endPos;
-- 
2.43.0


From 16b2050dd9b503cb62eadc53b7809f3c12afb087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:38 +0000
Subject: [PATCH 11/92] fix: move-assigning to an Owned pointer from inside the
 object it replaces used freed memory

---
 .../src/runtime/ply-runtime/container/Owned.h  | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Owned.h b/repos/plywood/src/runtime/ply-runtime/container/Owned.h
index da71b30..0e7e166 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Owned.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Owned.h
@@ -65,20 +65,23 @@ public:
     }
     PLY_INLINE void operator=(Owned&& other) {
         PLY_ASSERT(!this->ptr || this->ptr != other.ptr);
-        subst::destroyByMember(this->ptr);
-        this->ptr = other.release();
+        T* oldPtr = this->ptr;
+        this->ptr = other.release(); // Before destroying the old object, which may contain other
+        subst::destroyByMember(oldPtr);
     }
     template <typename Derived,
               typename std::enable_if_t<std::is_base_of<T, Derived>::value, int> = 0>
     PLY_INLINE void operator=(Owned<Derived>&& other) {
         PLY_ASSERT(!this->ptr || this->ptr != other.ptr);
-        subst::destroyByMember(this->ptr);
-        this->ptr = other.release();
+        T* oldPtr = this->ptr;
+        this->ptr = other.release(); // Before destroying the old object, which may contain other
+        subst::destroyByMember(oldPtr);
     }
     PLY_INLINE void operator=(T* ptr) {
         PLY_ASSERT(!this->ptr || this->ptr != ptr);
-        subst::destroyByMember(this->ptr);
+        T* oldPtr = this->ptr;
         this->ptr = ptr;
+        subst::destroyByMember(oldPtr);
     }
     template <typename... Args>
     static PLY_INLINE Owned create(Args&&... args) {
@@ -141,8 +144,9 @@ public:
     }
     PLY_INLINE void operator=(OptionallyOwned&& other) {
         PLY_ASSERT(!this->ptrAndOwnedFlag || this->ptrAndOwnedFlag != other.ptrAndOwnedFlag);
-        destruct(*this);
-        new (this) OptionallyOwned{std::move(other)};
+        OptionallyOwned old{std::move(*this)};
+        this->ptrAndOwnedFlag = other.ptrAndOwnedFlag;
+        other.ptrAndOwnedFlag = 0;
     }
     template <typename Base, typename = std::enable_if_t<std::is_base_of<Base, T>::value>>
     PLY_INLINE operator OptionallyOwned<Base>&() {
-- 
2.43.0


From e98a79e71299512e0e91523d9f91452956eee143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:25 +0000
Subject: [PATCH 12/92] fix: move-assigning a Reference or WeakRef from inside
 the object it replaces used freed memory

---
 repos/plywood/src/runtime/ply-runtime/container/Reference.h | 5 +++--
 repos/plywood/src/runtime/ply-runtime/container/WeakRef.h   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Reference.h b/repos/plywood/src/runtime/ply-runtime/container/Reference.h
index 754a89c..dd612a3 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Reference.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Reference.h
@@ -113,10 +113,11 @@ public:
             oldPtr->decRef();
     }
     PLY_INLINE void operator=(Reference&& ref) {
-        if (this->ptr)
-            this->ptr->decRef();
+        T* oldPtr = this->ptr;
         this->ptr = ref.ptr;
         ref.ptr = nullptr;
+        if (oldPtr)
+            oldPtr->decRef(); // May destroy ref
     }
     PLY_INLINE explicit operator bool() const {
         return this->ptr != nullptr;
diff --git a/repos/plywood/src/runtime/ply-runtime/container/WeakRef.h b/repos/plywood/src/runtime/ply-runtime/container/WeakRef.h
index 6557abc..623f951 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/WeakRef.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/WeakRef.h
@@ -126,10 +126,11 @@ public:
     }
 
     void operator=(WeakRef&& ref) {
-        if (m_ptr)
-            m_ptr->decWeakRef();
+        T* oldPtr = m_ptr;
         m_ptr = ref.m_ptr;
         ref.m_ptr = nullptr;
+        if (oldPtr)
+            oldPtr->decWeakRef(); // May destroy ref
     }
 };
 
-- 
2.43.0


From 6b5e15ecd55e738eb24750aaeacd6645142936e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:09 +0000
Subject: [PATCH 13/92] fix: Functor never destroyed its callable's captures
 and leaked the old callable on assignment

---
 repos/plywood/src/runtime/ply-runtime/container/Functor.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Functor.h b/repos/plywood/src/runtime/ply-runtime/container/Functor.h
index 6ce6846..d3f62d8 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Functor.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Functor.h
@@ -15,6 +15,10 @@ struct Functor<Return(Args...)> {
 private:
     struct BaseWrapper {
         Return (*thunk)(BaseWrapper* wrapper, Args... args) = nullptr;
+
+        PLY_INLINE BaseWrapper(Return (*thunk)(BaseWrapper* wrapper, Args... args)) : thunk{thunk} {
+        }
+        virtual ~BaseWrapper() = default; // Destructs the callable
     };
 
     template <typename Callable>
@@ -48,8 +52,12 @@ public:
         }
     }
     PLY_INLINE void operator=(Functor&& other) {
+        BaseWrapper* oldWrapper = this->wrapper;
         this->wrapper = other.wrapper;
         other.wrapper = nullptr;
+        if (oldWrapper) {
+            delete oldWrapper;
+        }
     }
     PLY_INLINE bool isValid() const {
         return this->wrapper != nullptr;
-- 
2.43.0


From b36561957bbc346d02014d07d3e94c23dc64906d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:17 +0000
Subject: [PATCH 14/92] fix: assigning a String or HybridString to itself read
 freed memory

---
 .../plywood/src/runtime/ply-runtime/string/String.h  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/string/String.h b/repos/plywood/src/runtime/ply-runtime/string/String.h
index a42cd5c..ad2b60b 100644
--- a/repos/plywood/src/runtime/ply-runtime/string/String.h
+++ b/repos/plywood/src/runtime/ply-runtime/string/String.h
@@ -110,12 +110,12 @@ struct String : StringMixin<String> {
     is reset to an empty string.
     */
     PLY_INLINE void operator=(const String& other) {
-        this->~String();
-        new (this) String{other.view()};
+        *this = String{other.view()}; // Copies first; other may be this String
     }
     PLY_INLINE void operator=(String&& other) {
+        String temp{std::move(other)}; // other may be this String
         this->~String();
-        new (this) String{std::move(other)};
+        new (this) String{std::move(temp)};
     }
 
     /*!
@@ -383,16 +383,16 @@ struct HybridString : StringMixin<HybridString> {
     Move assignment operator.
     */
     PLY_INLINE void operator=(HybridString&& other) {
+        HybridString temp{std::move(other)}; // other may be this HybridString
         this->~HybridString();
-        new (this) HybridString(std::move(other));
+        new (this) HybridString(std::move(temp));
     }
 
     /*!
     Copy assignment operator.
     */
     PLY_INLINE void operator=(const HybridString& other) {
-        this->~HybridString();
-        new (this) HybridString(other);
+        *this = HybridString{other}; // Copies first; other may be this HybridString
     }
 
     /*!
-- 
2.43.0


From e0434463ffac2d94feff4214b3d825fe27ed420a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:48 +0000
Subject: [PATCH 15/92] fix: String::reversedUTF8 and
 HybridString::reversedUTF8 did not compile

---
 repos/plywood/src/runtime/ply-runtime/string/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/string/String.h b/repos/plywood/src/runtime/ply-runtime/string/String.h
index ad2b60b..25fdd29 100644
--- a/repos/plywood/src/runtime/ply-runtime/string/String.h
+++ b/repos/plywood/src/runtime/ply-runtime/string/String.h
@@ -285,7 +285,7 @@ PLY_INLINE String StringMixin<Derived>::reversedBytes() const {
 
 template <typename Derived>
 PLY_INLINE String StringMixin<Derived>::reversedUTF8() const {
-    return static_cast<const Derived*>(this)->view().reversedUTF();
+    return static_cast<const Derived*>(this)->view().reversedUTF8();
 }
 
 template <typename Derived>
-- 
2.43.0


From 18e47a044269689948c2baffff015af52b4bc834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:20 +0000
Subject: [PATCH 16/92] fix: order uses of a reference-counted object before
 its destruction

---
 repos/plywood/src/runtime/ply-runtime/container/Reference.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Reference.h b/repos/plywood/src/runtime/ply-runtime/container/Reference.h
index dd612a3..7a38462 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Reference.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Reference.h
@@ -37,7 +37,8 @@ public:
         PLY_UNUSED(oldCount);
     }
     PLY_INLINE void decRef() {
-        s32 oldCount = m_refCount.fetchSub(1, Relaxed);
+        // Everything done through the dropped references must happen before `destroy`:
+        s32 oldCount = m_refCount.fetchSub(1, AcquireRelease);
         PLY_ASSERT(oldCount >= 1 && oldCount < UINT16_MAX);
         if (oldCount == 1) {
             static_cast<Mixin*>(this)->onRefCountZero();
-- 
2.43.0


From 38d6b1f6702b0d51557840ffe37b9d79479c16c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:22 +0000
Subject: [PATCH 17/92] fix: keep a DualRefCounted object alive during
 onPartialRefCountZero

---
 .../runtime/ply-runtime/container/WeakRef.h   | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/WeakRef.h b/repos/plywood/src/runtime/ply-runtime/container/WeakRef.h
index 623f951..de1d274 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/WeakRef.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/WeakRef.h
@@ -23,14 +23,23 @@ public:
     }
 
     void decRef() {
-        u32 oldDualCount = m_dualRefCount.fetchSub(1, Relaxed);
-        PLY_ASSERT((oldDualCount & 0xffffu) > 0);
-        PLY_ASSERT((oldDualCount & 0xffffu) < INT16_MAX);
+        u32 oldDualCount = m_dualRefCount.load(Relaxed);
+        for (;;) {
+            PLY_ASSERT((oldDualCount & 0xffffu) > 0);
+            PLY_ASSERT((oldDualCount & 0xffffu) < INT16_MAX);
+            // The last strong ref turns into a weak ref that keeps the object alive during
+            // onPartialRefCountZero(), since other threads can drop weak refs in the meantime.
+            u32 newDualCount = oldDualCount - 1;
+            if ((oldDualCount & 0xffffu) == 1) {
+                newDualCount += 0x10000;
+            }
+            if (m_dualRefCount.compareExchangeWeak(oldDualCount, newDualCount, AcquireRelease,
+                                                   Relaxed))
+                break;
+        }
         if ((oldDualCount & 0xffffu) == 1) {
             static_cast<Mixin*>(this)->onPartialRefCountZero();
-            if (oldDualCount == 1) {
-                static_cast<Mixin*>(this)->onFullRefCountZero();
-            }
+            decWeakRef();
         }
     }
 
@@ -42,7 +51,7 @@ public:
     }
 
     void decWeakRef() {
-        u32 oldDualCount = m_dualRefCount.fetchSub(0x10000, Relaxed);
+        u32 oldDualCount = m_dualRefCount.fetchSub(0x10000, AcquireRelease);
         PLY_ASSERT((oldDualCount >> 16) > 0);
         PLY_ASSERT((oldDualCount >> 16) < INT16_MAX);
         PLY_UNUSED(oldDualCount);
-- 
2.43.0


From 8eae9dfbb6cd49caced9a5dac2bc49c8800c6c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:35 +0000
Subject: [PATCH 18/92] fix: make ThreadLocal::setInScope and pointer-valued
 ThreadLocal usable

---
 repos/plywood/src/runtime/ply-runtime/thread/ThreadLocal.h | 4 ++--
 .../runtime/ply-runtime/thread/impl/ThreadLocal_POSIX.h    | 7 +++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/thread/ThreadLocal.h b/repos/plywood/src/runtime/ply-runtime/thread/ThreadLocal.h
index c703d74..8de0451 100644
--- a/repos/plywood/src/runtime/ply-runtime/thread/ThreadLocal.h
+++ b/repos/plywood/src/runtime/ply-runtime/thread/ThreadLocal.h
@@ -22,9 +22,9 @@ public:
 
     ThreadLocalScope(const ThreadLocalScope&) = delete;
     PLY_INLINE ThreadLocalScope(ThreadLocalScope&& other) {
-        this->var = other->var;
+        this->var = other.var;
         this->oldValue = std::move(other.oldValue);
-        other->var = nullptr;
+        other.var = nullptr;
     }
 
     ~ThreadLocalScope() {
diff --git a/repos/plywood/src/runtime/ply-runtime/thread/impl/ThreadLocal_POSIX.h b/repos/plywood/src/runtime/ply-runtime/thread/impl/ThreadLocal_POSIX.h
index 9b6ebc7..5c7d477 100644
--- a/repos/plywood/src/runtime/ply-runtime/thread/impl/ThreadLocal_POSIX.h
+++ b/repos/plywood/src/runtime/ply-runtime/thread/impl/ThreadLocal_POSIX.h
@@ -50,6 +50,13 @@ public:
         PLY_UNUSED(rc);
     }
 
+    template <typename U = T, std::enable_if_t<std::is_pointer<U>::value, int> = 0>
+    PLY_INLINE void store(U value) {
+        int rc = pthread_setspecific(m_tlsKey, (const void*) value);
+        PLY_ASSERT(rc == 0);
+        PLY_UNUSED(rc);
+    }
+
     // In C++11, you can write auto scope = myTLvar.setInScope(value);
     using Scope = ThreadLocalScope<ThreadLocal_POSIX, T>;
     PLY_INLINE Scope setInScope(T value) {
-- 
2.43.0


From aea2fa22019ef29b4ba5d45d31f6ccceac089c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:45 +0000
Subject: [PATCH 19/92] fix: keep unread bytes when an InStream request spans
 blocks

---
 .../ply-runtime/container/BlockList.cpp       |  15 +-
 .../runtime/ply-runtime/container/BlockList.h |  29 +++-
 .../src/runtime/ply-runtime/io/InStream.cpp   | 148 +++++++++---------
 .../src/runtime/ply-runtime/io/InStream.h     |   5 +-
 4 files changed, 100 insertions(+), 97 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp b/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp
index cdfa119..e8d0747 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp
@@ -33,9 +33,10 @@ PLY_NO_INLINE BlockList::WeakRef BlockList::Footer::weakRefToNext() const {
     BlockList::WeakRef result;
     result.block = this->nextBlock;
     if (result.block) {
-        u32 fileDelta = safeDemote<u32>((s64) result.block->fileOffset - this->fileOffset);
-        PLY_ASSERT(fileDelta <= this->numBytesUsed);
-        result.byte = result.block->bytes + (this->numBytesUsed - fileDelta);
+        // The next block may start before the end of this block, or even before its beginning.
+        u64 offset = this->fileOffset + this->numBytesUsed - result.block->fileOffset;
+        PLY_ASSERT(offset <= result.block->numBytesUsed);
+        result.byte = result.block->bytes + offset;
         PLY_ASSERT(result.block->viewUsedBytes().contains(result.byte));
     }
     return result;
@@ -56,14 +57,6 @@ PLY_NO_INLINE Reference<BlockList::Footer> BlockList::createBlock(u32 numBytes)
     return block;
 }
 
-PLY_DLL_ENTRY Reference<BlockList::Footer> BlockList::createOverlayBlock(const WeakRef& pos,
-                                                                         u32 numBytes) {
-    Reference<Footer> newBlock = createBlock(numBytes);
-    newBlock->fileOffset = pos.block->fileOffset + pos.block->offsetOf(pos.byte);
-    newBlock->nextBlock = pos.block->nextBlock;
-    return newBlock;
-}
-
 PLY_NO_INLINE BlockList::Footer* BlockList::appendBlock(Footer* block, u32 numBytes) {
     PLY_ASSERT(block->nextBlock.isEmpty());
 
diff --git a/repos/plywood/src/runtime/ply-runtime/container/BlockList.h b/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
index 91fd1ea..0d6885a 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
@@ -152,8 +152,28 @@ struct BlockList {
         PLY_INLINE RangeForIterator& end() {
             return *this;
         }
+        // Returns the end of the view at curPos. If it's the last view, *isLast is set to true.
+        PLY_INLINE char* endOfView(bool* isLast) const {
+            Footer* block = this->curPos.block;
+            *isLast = (block == this->endPos.block);
+            if (*isLast)
+                return this->endPos.byte;
+            if (this->endPos.block) {
+                // Since it's possible for adjacent blocks to overlap, endPos might lie within the
+                // data that this block has in common with endPos.block.
+                u64 endOffset =
+                    this->endPos.block->fileOffset + this->endPos.block->offsetOf(this->endPos.byte);
+                if (block->fileOffset + block->numBytesUsed > endOffset) {
+                    *isLast = true;
+                    return block->bytes + (endOffset - block->fileOffset);
+                }
+            }
+            return block->unused();
+        }
         PLY_INLINE void operator++() {
-            if (this->curPos.block == this->endPos.block) {
+            bool isLast;
+            this->endOfView(&isLast);
+            if (isLast) {
                 this->curPos = this->endPos; // The last view was visited
             } else {
                 this->curPos = this->curPos.block->weakRefToNext();
@@ -163,10 +183,8 @@ struct BlockList {
             return this->curPos != this->endPos;
         }
         PLY_INLINE StringView operator*() const {
-            return StringView::fromRange(this->curPos.byte,
-                                         (this->curPos.block == this->endPos.block)
-                                             ? this->endPos.byte
-                                             : this->curPos.block->unused());
+            bool isLast;
+            return StringView::fromRange(this->curPos.byte, this->endOfView(&isLast));
         }
     };
 
@@ -174,7 +192,6 @@ struct BlockList {
     // Static member functions
     //--------------------------------------
     static PLY_DLL_ENTRY Reference<Footer> createBlock(u32 numBytes = DefaultBlockSize);
-    static PLY_DLL_ENTRY Reference<Footer> createOverlayBlock(const WeakRef& pos, u32 numBytes);
     static PLY_DLL_ENTRY Footer* appendBlock(Footer* block, u32 numBytes = DefaultBlockSize);
     static PLY_DLL_ENTRY void appendBlockWithRecycle(Reference<Footer>& block,
                                                      u32 numBytes = DefaultBlockSize);
diff --git a/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp b/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
index ca9a764..d5b147e 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
@@ -36,6 +36,13 @@ PLY_NO_INLINE InStream::InStream(OptionallyOwned<InPipe>&& inPipe, u32 blockSize
     this->endByte = this->block->bytes;
 }
 
+PLY_NO_INLINE void InStream::operator=(InStream&& other) {
+    if (this != &other) {
+        this->~InStream();
+        new (this) InStream{std::move(other)};
+    }
+}
+
 PLY_NO_INLINE void InStream::destructInternal() {
     PLY_ASSERT(this->status.type != (u32) Type::View);
     destruct(this->block);
@@ -53,7 +60,7 @@ PLY_NO_INLINE u32 InStream::tryMakeBytesAvailableInternal(u32 numRequestedBytes)
 
     if (this->status.type == (u32) Type::View) {
         u32 numBytes = this->numBytesAvailable();
-        if (numBytes == 0) {
+        if (numBytes < numRequestedBytes) {
             this->status.eof = 1;
         }
         return numBytes;
@@ -65,96 +72,85 @@ PLY_NO_INLINE u32 InStream::tryMakeBytesAvailableInternal(u32 numRequestedBytes)
         return 0;
     }
 
-    Reference<BlockList::Footer> overlayBlock;
-    u32 numBytesNeededToCompleteRequest = numRequestedBytes;
     for (;;) {
         // this->curByte points to the read position in the current block.
         // this->endByte points to the write position in the current block.
         PLY_ASSERT(this->block->viewUsedBytes().contains(this->curByte));
-        PLY_ASSERT(this->endByte == this->block->unused());
+        this->endByte = this->block->unused();
 
-        u32 numUnreadBytesInCurrentBlock = safeDemote<u32>(this->block->unused() - this->curByte);
-        if (numBytesNeededToCompleteRequest <= numUnreadBytesInCurrentBlock)
-            break; // Current block has enough data to fulfill the remainder of the request.
+        u32 numUnreadBytes = safeDemote<u32>(this->endByte - this->curByte);
+        if (numRequestedBytes <= numUnreadBytes)
+            return numUnreadBytes; // Current block has enough data to fulfill the request.
 
         if (this->block->nextBlock) {
-            // Another block follows this one in the list, and we already know, from the previous
-            // check, that this block doesn't contain enough unread data to fulfill the rest of the
-            // request.
-            PLY_ASSERT(numUnreadBytesInCurrentBlock < numBytesNeededToCompleteRequest);
-            if (numUnreadBytesInCurrentBlock > 0) {
-                // Copy unread data to overlayBlock (creating overlayBlock first, if needed).
-                if (!overlayBlock) {
-                    PLY_ASSERT(numBytesNeededToCompleteRequest == numRequestedBytes);
-                    overlayBlock = BlockList::createOverlayBlock({this->block, this->block->bytes},
-                                                                 numRequestedBytes);
-                }
-                if (overlayBlock) {
-                    memcpy(overlayBlock->bytes + numRequestedBytes -
-                               numBytesNeededToCompleteRequest,
-                           this->curByte, numUnreadBytesInCurrentBlock);
-                }
-                numBytesNeededToCompleteRequest -= numUnreadBytesInCurrentBlock;
+            if (numUnreadBytes == 0) {
+                // Advance to next block.
+                BlockList::WeakRef next = this->block->weakRefToNext();
+                this->block = next.block;
+                this->curByte = next.byte;
+            } else {
+                // The request spans several blocks. Gather it into a single block.
+                this->gatherUnreadBytes(numRequestedBytes);
             }
-            // Advance to next block.
-            BlockList::Footer* nextBlock = this->block->nextBlock;
-            u32 offsetIntoNextBlock =
-                this->block->numBytesUsed -
-                safeDemote<u32>(nextBlock->fileOffset - this->block->fileOffset);
-            this->block = nextBlock;
-            PLY_ASSERT(offsetIntoNextBlock <= nextBlock->numBytesUsed);
-            this->curByte = nextBlock->bytes + offsetIntoNextBlock;
-            this->endByte = nextBlock->bytes + nextBlock->numBytesUsed;
-        } else {
-            u32 unreadStorageInCurrentBlock = safeDemote<u32>(this->block->end() - this->curByte);
-            if (unreadStorageInCurrentBlock < numBytesNeededToCompleteRequest) {
-                // Append a new block
-                BlockList::appendBlockWithRecycle(this->block, max(numBytesNeededToCompleteRequest, this->getBlockSize()));
+            continue;
+        }
+
+        if (safeDemote<u32>(this->block->end() - this->curByte) < numRequestedBytes) {
+            // There isn't enough storage in the current block to fulfill the request.
+            if (numUnreadBytes == 0) {
+                BlockList::appendBlockWithRecycle(this->block,
+                                                  max(numRequestedBytes, this->getBlockSize()));
                 this->curByte = this->block->bytes;
                 this->endByte = this->block->bytes; // nothing written to this block yet
+            } else {
+                this->gatherUnreadBytes(numRequestedBytes);
             }
-            // Current block has enough storage to fulfill the remainder of the request.
-            break;
         }
-    }
-
-    // Current block has enough storage to fulfill the remainder of the request, but we still might
-    // need to fill it with data from the underlying pipe.
-    PLY_ASSERT(numBytesNeededToCompleteRequest <=
-               safeDemote<u32>(this->block->end() - this->curByte));
-    u32 numBytesAvailableToReadInBlock;
-    for (;;) {
-        numBytesAvailableToReadInBlock =
-            safeDemote<u32>(this->block->unused() - this->curByte);
-        if (numBytesAvailableToReadInBlock >= numBytesNeededToCompleteRequest)
-            break; // Current block has enough data to fulfill remainder of request.
 
-        PLY_ASSERT(!this->block->nextBlock); // We can only write to the end of the block list.
         // Read more data from the underlying pipe.
-        u32 bytesRead = this->inPipe->readSome(this->block->viewUnusedBytes());
+        PLY_ASSERT(!this->block->nextBlock); // We can only write to the end of the block list.
+        u32 bytesRead = 0;
+        if (this->status.type == (u32) Type::Pipe) {
+            bytesRead = this->inPipe->readSome(this->block->viewUnusedBytes());
+        }
         if (bytesRead == 0) {
             this->status.eof = 1;
-            break;
+            return numUnreadBytes;
         }
         this->block->numBytesUsed += bytesRead;
-        this->endByte += bytesRead;
-        PLY_ASSERT(this->endByte == this->block->unused());
     }
+}
 
-    u32 numBytesToReturn =
-        numRequestedBytes - numBytesNeededToCompleteRequest + numBytesAvailableToReadInBlock;
-
-    // If we created a overlayBlock, finish copying data to it now, and expose the overlayBlock to
-    // the caller.
-    if (overlayBlock) {
-        PLY_ASSERT(numBytesNeededToCompleteRequest > 0);
-        memcpy(overlayBlock->bytes + numRequestedBytes - numBytesNeededToCompleteRequest,
-               this->curByte, numBytesNeededToCompleteRequest);
-        this->curByte = overlayBlock->bytes;
-        this->endByte = overlayBlock->bytes + numBytesToReturn;
+PLY_NO_INLINE void InStream::gatherUnreadBytes(u32 numRequestedBytes) {
+    // Moves to a block that starts at the current read position and has room for the entire
+    // request, and fills it with the unread bytes of the current block and of the blocks that
+    // follow it. The existing blocks are not modified, since other objects might refer to them.
+    Reference<BlockList::Footer> gathered =
+        BlockList::createBlock(max(numRequestedBytes, this->getBlockSize()));
+    gathered->fileOffset = this->getSeekPos();
+    BlockList::WeakRef from{this->block, const_cast<char*>(this->curByte)};
+    for (;;) {
+        u32 numBytesToCopy = min(safeDemote<u32>(from.block->unused() - from.byte),
+                                 numRequestedBytes - gathered->numBytesUsed);
+        memcpy(gathered->unused(), from.byte, numBytesToCopy);
+        gathered->numBytesUsed += numBytesToCopy;
+        from.byte += numBytesToCopy;
+        if (from.byte != from.block->unused()) {
+            // The rest of this block follows the gathered bytes.
+            gathered->nextBlock = from.block;
+            break;
+        }
+        if (!from.block->nextBlock) {
+            // All existing data was gathered. New data will be read into the new block.
+            from.block->nextBlock = gathered;
+            gathered->prevBlock = from.block;
+            break;
+        }
+        from = from.block->weakRefToNext();
     }
-
-    return numBytesToReturn;
+    this->block = std::move(gathered);
+    this->curByte = this->block->bytes;
+    this->endByte = this->block->unused();
 }
 
 PLY_NO_INLINE u64 InStream::getSeekPos() const {
@@ -183,11 +179,9 @@ PLY_NO_INLINE void InStream::rewind(const BlockList::WeakRef& pos) {
 }
 
 PLY_NO_INLINE bool InStream::readSlowPath(MutableStringView dst) {
-    if (this->status.eof)
-        return false;
-
     while (dst.numBytes > 0) {
-        if (!this->tryMakeBytesAvailable()) {
+        // At EOF, there might still be some unread bytes available.
+        if (this->numBytesAvailable() == 0 && (this->status.eof || !this->tryMakeBytesAvailable())) {
             memset(dst.bytes, 0, dst.numBytes);
             return false;
         }
@@ -201,11 +195,9 @@ PLY_NO_INLINE bool InStream::readSlowPath(MutableStringView dst) {
 }
 
 PLY_NO_INLINE bool InStream::skipSlowPath(u32 numBytes) {
-    if (this->status.eof)
-        return false;
-
     while (numBytes > 0) {
-        if (!this->tryMakeBytesAvailable()) {
+        // At EOF, there might still be some unread bytes available.
+        if (this->numBytesAvailable() == 0 && (this->status.eof || !this->tryMakeBytesAvailable())) {
             return false;
         }
         u32 toSkip = min<u32>(numBytes, this->numBytesAvailable());
diff --git a/repos/plywood/src/runtime/ply-runtime/io/InStream.h b/repos/plywood/src/runtime/ply-runtime/io/InStream.h
index 3127bd6..30a87de 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/InStream.h
+++ b/repos/plywood/src/runtime/ply-runtime/io/InStream.h
@@ -84,6 +84,7 @@ struct InStream {
 protected:
     PLY_DLL_ENTRY void destructInternal();
     PLY_DLL_ENTRY u32 tryMakeBytesAvailableInternal(u32 numBytes);
+    PLY_DLL_ENTRY void gatherUnreadBytes(u32 numRequestedBytes);
 
     PLY_INLINE InStream(Type type, u32 blockSizeExp = DefaultBlockSizeExp)
         : status{type, blockSizeExp} {
@@ -243,7 +244,7 @@ public:
         // implement memcpy() as a MOV:
         memcpy(dst.bytes, this->curByte, dst.numBytes);
         this->curByte += dst.numBytes;
-        return this->status.eof == 0;
+        return true;
     }
 
     PLY_DLL_ENTRY bool skipSlowPath(u32 numBytes);
@@ -259,7 +260,7 @@ public:
             return this->skipSlowPath(numBytes);
         }
         this->curByte += numBytes;
-        return this->status.eof == 0;
+        return true;
     }
 
     /*!
-- 
2.43.0


From 76b33e9e4c476c5d3dabf79acde1064370c592b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:55 +0000
Subject: [PATCH 20/92] fix: allow flushing an OutStream whose destination has
 failed

---
 repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp b/repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp
index 85938ed..7d71bc7 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp
@@ -60,7 +60,8 @@ PLY_NO_INLINE bool OutStream::flushInternal() {
         return true;
 
     // this->block->numBytesUsed is the last flushed offset
-    PLY_ASSERT(this->endByte == this->block->bytes + this->block->blockSize);
+    // (After EOF/error, this->endByte might be anywhere in the block.)
+    PLY_ASSERT(this->status.eof || this->endByte == this->block->end());
     u32 newWritePos = safeDemote<u32>(this->curByte - this->block->bytes);
     PLY_ASSERT(newWritePos >= this->block->numBytesUsed);
     PLY_ASSERT(newWritePos <= this->block->blockSize);
-- 
2.43.0


From 30bddcf661d135eaedb55c2d46ddcea4958a7d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:53 +0000
Subject: [PATCH 21/92] fix: survive interrupted writes and failed reads on
 file descriptors

---
 .../src/runtime/ply-runtime/io/impl/Pipe_FD.cpp   | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp
index 8913365..c98e041 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp
@@ -14,7 +14,8 @@ PLY_NO_INLINE void InPipe_FD_destroy(InPipe* inPipe_) {
     InPipe_FD* inPipe = static_cast<InPipe_FD*>(inPipe_);
     if (inPipe->fd >= 0) {
         int rc = ::close(inPipe->fd);
-        PLY_ASSERT(rc == 0);
+        // Even if close() is interrupted by a signal, the descriptor is released.
+        PLY_ASSERT(rc == 0 || errno == EINTR);
         PLY_UNUSED(rc);
     }
 }
@@ -27,9 +28,8 @@ PLY_NO_INLINE u32 InPipe_FD_readSome(InPipe* inPipe_, MutableStringView buf) {
     do {
         rc = (s32)::read(inPipe->fd, buf.bytes, buf.numBytes);
     } while (rc == -1 && errno == EINTR);
-    PLY_ASSERT(rc >= 0); // Note: Will probably need to detect closed pipes here
     if (rc < 0)
-        return 0;
+        return 0; // Error, such as when a socket's connection was reset
     return rc;
 }
 
@@ -56,7 +56,8 @@ PLY_NO_INLINE void OutPipe_FD_destroy(OutPipe* outPipe_) {
     OutPipe_FD* outPipe = static_cast<OutPipe_FD*>(outPipe_);
     if (outPipe->fd >= 0) {
         int rc = ::close(outPipe->fd);
-        PLY_ASSERT(rc == 0);
+        // Even if close() is interrupted by a signal, the descriptor is released.
+        PLY_ASSERT(rc == 0 || errno == EINTR);
         PLY_UNUSED(rc);
     }
 }
@@ -65,7 +66,11 @@ PLY_NO_INLINE bool OutPipe_FD_write(OutPipe* outPipe_, StringView buf) {
     OutPipe_FD* outPipe = static_cast<OutPipe_FD*>(outPipe_);
     PLY_ASSERT(outPipe->fd >= 0);
     while (buf.numBytes > 0) {
-        s32 sent = (s32)::write(outPipe->fd, buf.bytes, buf.numBytes);
+        // Retry if write() is interrupted by a signal before it transfers anything:
+        s32 sent;
+        do {
+            sent = (s32)::write(outPipe->fd, buf.bytes, buf.numBytes);
+        } while (sent == -1 && errno == EINTR);
         if (sent <= 0)
             return false;
         PLY_ASSERT((u32) sent <= buf.numBytes);
-- 
2.43.0


From d7feab387b1e042123da788b334aded8447cf321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:12 +0000
Subject: [PATCH 22/92] fix: Report a stray first byte of UTF-8 as invalid
 rather than truncated

---
 repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp b/repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp
index 097ec1f..9b47f3d 100644
--- a/repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp
@@ -62,6 +62,8 @@ PLY_NO_INLINE DecodeResult UTF8::decodePointSlowPath(StringView view) {
         }
 
         default:
+            // Not a valid first byte, regardless of what follows
+            result.status = DecodeResult::Status::Invalid;
             break;
     }
 
-- 
2.43.0


From f067da6fd1259a8e427a1e09faac0b9d3b65deb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:28 +0000
Subject: [PATCH 23/92] fix: Keep a character split over more than two writes
 in TextConverter

---
 .../runtime/ply-runtime/io/text/TextConverter.cpp    | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp b/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp
index 2c0fdf2..8c7de9f 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp
@@ -62,9 +62,13 @@ PLY_NO_INLINE bool TextConverter::convert(MutableStringView* dstBuf, StringView*
             PLY_ASSERT(this->srcSmallBuf.numBytes < 4); // Sanity check
             PLY_ASSERT((decoded.point >= 0) == (decoded.numBytes > 0));
             // If flush is true and there's an (invalid) point to consume, we'll consume it below.
-            // Otherwise, don't consume anything and return from here:
-            if (!(flush && decoded.point >= 0))
+            // Otherwise, keep all the input in srcSmallBuf and return from here:
+            if (!(flush && decoded.point >= 0)) {
+                PLY_ASSERT(numCopiedFromSrc == srcBuf->numBytes);
+                this->srcSmallBuf.numBytes += numCopiedFromSrc;
+                srcBuf->offsetHead(numCopiedFromSrc);
                 return wroteAnything;
+            }
         }
         PLY_ASSERT((decoded.point >= 0) && (decoded.numBytes > 0));
 
@@ -99,7 +103,7 @@ PLY_NO_INLINE bool TextConverter::convert(MutableStringView* dstBuf, StringView*
         // Decode one point from the input.
         DecodeResult decoded = this->srcEncoding->decodePoint(*srcBuf);
         if (decoded.status == DecodeResult::Status::Truncated) {
-            if (!flush) {
+            if (!(flush && decoded.point >= 0)) {
                 // Not enough input units for a complete code point. Copy input to srcSmallBuf.
                 PLY_ASSERT(srcBuf->numBytes < 4); // Sanity check
                 memcpy(this->srcSmallBuf.bytes, srcBuf->bytes, srcBuf->numBytes);
@@ -108,8 +112,6 @@ PLY_NO_INLINE bool TextConverter::convert(MutableStringView* dstBuf, StringView*
                 return wroteAnything;
             }
             PLY_ASSERT((decoded.point >= 0) == (decoded.numBytes > 0));
-            if (decoded.point < 0)
-                return wroteAnything;
         }
         PLY_ASSERT(decoded.point >= 0);
 
-- 
2.43.0


From 19c187efbff13ddb45751a74c829983fe6f30a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:25 +0000
Subject: [PATCH 24/92] fix: Convert from UTF-8 when saving text in the Bytes
 format

---
 repos/plywood/src/runtime/ply-runtime/io/text/TextFormat.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/text/TextFormat.cpp b/repos/plywood/src/runtime/ply-runtime/io/text/TextFormat.cpp
index c48091d..bf05f9f 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/text/TextFormat.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/text/TextFormat.cpp
@@ -268,7 +268,9 @@ PLY_NO_INLINE Owned<OutStream> TextFormat::createExporter(OptionallyOwned<OutStr
     OptionallyOwned<OutStream> exporter = std::move(outs);
 
     switch (this->encoding) {
-        case TextFormat::Encoding::Bytes: { // FIXME: Bytes needs to be converted
+        case TextFormat::Encoding::Bytes: {
+            exporter = Owned<OutStream>::create(Owned<OutPipe_TextConverter>::create(
+                std::move(exporter), TextEncoding::get<Enc_Bytes>(), TextEncoding::get<UTF8>()));
             break;
         }
 
-- 
2.43.0


From 07ccfda19991e0b6232c8f53aa209cce98139006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:04 +0000
Subject: [PATCH 25/92] fix: Parse and print extreme numbers correctly

---
 .../src/runtime/ply-runtime/io/impl/FormatString.cpp  |  7 +++++--
 .../src/runtime/ply-runtime/io/impl/FormatString.h    |  6 ++++--
 .../src/runtime/ply-runtime/io/impl/TypeParser.cpp    | 11 ++++++-----
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
index fa6aa5c..f249471 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
@@ -43,7 +43,7 @@ PLY_NO_INLINE void printString(OutStream* outs, s64 value, u32 radix, bool capit
         printString(outs, (u64) value, radix, capitalize);
     } else {
         outs->writeByte('-');
-        printString(outs, (u64) -value, radix, capitalize);
+        printString(outs, 0 - (u64) value, radix, capitalize);
     }
 }
 
@@ -88,7 +88,10 @@ PLY_NO_INLINE void printString(OutStream* outs, double value, u32 radix, bool ca
             // Scientific notation
             double logBase = log(value) / log(radix);
             double exponent = floor(logBase);
-            double m = value / pow(radix, exponent); // mantissa (initially)
+            // Divide in two steps, as pow(radix, exponent) underflows for the smallest values
+            double halfExponent = floor(exponent / 2);
+            double m = value / pow(radix, halfExponent) /
+                       pow(radix, exponent - halfExponent); // mantissa (initially)
             s32 digit = clamp<s32>((s32) floor(m), 1, radix - 1);
             outs->writeByte(toDigit(digit, capitalize));
             outs->writeByte('.');
diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.h b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.h
index a621a4e..fce548a 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.h
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.h
@@ -31,7 +31,7 @@ struct WithRadix {
               typename std::enable_if_t<std::is_floating_point<SrcType>::value, int> = 0>
     inline WithRadix(SrcType v, u32 radix, bool capitalize = false) {
         this->double_ = v;
-        this->type = U64;
+        this->type = Double;
         this->capitalize = capitalize ? 1 : 0;
         this->radix = radix;
     }
@@ -43,7 +43,9 @@ struct WithRadix {
         this->capitalize = capitalize ? 1 : 0;
         this->radix = radix;
     }
-    template <typename SrcType, typename std::enable_if_t<std::is_signed<SrcType>::value, int> = 0>
+    template <typename SrcType, typename std::enable_if_t<std::is_integral<SrcType>::value &&
+                                                              std::is_signed<SrcType>::value,
+                                                          int> = 0>
     inline WithRadix(SrcType v, u32 radix, bool capitalize = false) {
         this->s64_ = v;
         this->type = S64;
diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
index b3bb437..3e7c217 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
@@ -123,7 +123,7 @@ PLY_NO_INLINE s64 fmt::TypeParser<s64>::parse(InStream* ins, Radix radix) {
 
     u64 unsignedComponent = fmt::TypeParser<u64>::parse(ins, radix);
     if (negate) {
-        s64 result = -(s64) unsignedComponent;
+        s64 result = (s64)(0 - unsignedComponent);
         if (result > 0) {
             ins->status.parseError = 1;
         }
@@ -187,8 +187,7 @@ PLY_NO_INLINE double fmt::TypeParser<double>::parse(InStream* ins, Radix radix)
             if (digit >= radix.base)
                 break;
             ins->advanceByte();
-            u64 denomWithNextDigit = denom * radix.base;
-            if (denomWithNextDigit < denom) {
+            if (denom > Limits<u64>::Max / radix.base) {
                 // denominator overflowed
                 double ooDenom = 1.0 / denom;
                 value += significance * numer * ooDenom;
@@ -197,7 +196,7 @@ PLY_NO_INLINE double fmt::TypeParser<double>::parse(InStream* ins, Radix radix)
                 denom = radix.base;
             } else {
                 numer = numer * radix.base + digit;
-                denom = denomWithNextDigit;
+                denom *= radix.base;
             }
         }
         value += significance * numer / denom;
@@ -217,7 +216,9 @@ PLY_NO_INLINE double fmt::TypeParser<double>::parse(InStream* ins, Radix radix)
         }
         comp.anyDigits = false;
         readDoubleComponent(&comp, ins, radix);
-        value *= pow((double) radix.base, negateExp ? -comp.result : comp.result);
+        if (value != 0) { // 0 times an infinite power would be NaN
+            value *= pow((double) radix.base, negateExp ? -comp.result : comp.result);
+        }
     }
 
     if (!comp.anyDigits) {
-- 
2.43.0


From b9f89ae1eab196229107fdafa7e0e33ecad00f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:05 +0000
Subject: [PATCH 26/92] fix: Scan marks, identifiers and empty quoted strings
 correctly

---
 .../plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
index 3e7c217..0120998 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
@@ -71,7 +71,8 @@ PLY_NO_INLINE bool fmt::scanUpToAndIncludingSpecial(InStream* ins, StringView sp
             if (matchedUnits >= special.numBytes)
                 return true;
         } else {
-            matchedUnits = 0;
+            // The byte that didn't match might be the first one of special
+            matchedUnits = (c == (u8) special.bytes[0]) ? 1 : 0;
         }
     }
     // special wasn't found
@@ -260,6 +261,8 @@ String fmt::FormatParser<fmt::QuotedString>::parse(InStream* ins, const fmt::Quo
     bool multiline = false;
     for (;;) {
         if (!ins->tryMakeBytesAvailable()) {
+            if (quoteRun == 2 && !multiline)
+                break; // empty string
             handleError(fmt::QuotedString::UnexpectedEndOfFile);
             break; // end of string
         }
@@ -396,7 +399,7 @@ bool fmt::FormatParser<fmt::Identifier>::parse(InStream* ins, const fmt::Identif
         ins->advanceByte();
     }
 
-    if (mask[1] == 0) {
+    if (first) {
         ins->status.parseError = 1;
         return false;
     }
-- 
2.43.0


From 3ccf1456a16bf55a3ac28f7b1db4b1d0c2fd53fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:28 +0000
Subject: [PATCH 27/92] fix: Escape control characters and command-line
 arguments reversibly

---
 .../ply-runtime/io/impl/FormatString.cpp      | 10 +++++++---
 .../ply-runtime/io/impl/TypeParser.cpp        | 19 +++++++++++++++++--
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
index f249471..e5ebcba 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
@@ -246,7 +246,7 @@ PLY_NO_INLINE void fmt::TypePrinter<fmt::EscapedString>::print(OutStream* outs,
                     outs->write(srcUnits.left(decoded.numBytes));
                 } else {
                     static const char* digits = "0123456789abcdef";
-                    *outs << '\\' << digits[(decoded.point >> 4) & 0xf]
+                    *outs << "\\x" << digits[(decoded.point >> 4) & 0xf]
                         << digits[decoded.point & 0xf];
                 }
                 break;
@@ -298,7 +298,7 @@ PLY_NO_INLINE void fmt::TypePrinter<fmt::XMLEscape>::print(OutStream* outs, cons
 PLY_NO_INLINE void
 fmt::TypePrinter<fmt::CmdLineArg_WinCrt>::print(OutStream* outs,
                                                 const fmt::CmdLineArg_WinCrt& value) {
-    bool needsQuote = false;
+    bool needsQuote = value.view.isEmpty();
     const char* end = value.view.end();
     for (const char* cur = value.view.bytes; cur < end; cur++) {
         if (isWhite(*cur) || *cur == '"') {
@@ -313,7 +313,7 @@ fmt::TypePrinter<fmt::CmdLineArg_WinCrt>::print(OutStream* outs,
             char c = *cur;
             if (c == '\\') {
                 backslashCount++;
-            } else if (*cur == '"') {
+            } else if (c == '"') {
                 for (; backslashCount > 0; backslashCount--) {
                     *outs << "\\\\";
                 }
@@ -325,6 +325,10 @@ fmt::TypePrinter<fmt::CmdLineArg_WinCrt>::print(OutStream* outs,
                 *outs << c;
             }
         }
+        // Backslashes before the closing quote must be doubled
+        for (; backslashCount > 0; backslashCount--) {
+            *outs << "\\\\";
+        }
         *outs << '"';
     } else {
         *outs << value.view;
diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
index 0120998..ddc6002 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
@@ -352,8 +352,23 @@ String fmt::FormatParser<fmt::QuotedString>::parse(InStream* ins, const fmt::Quo
                             break;
                         }
 
-                            // FIXME: Implement escape hex codes
-                            // case 'x':
+                        case 'x': {
+                            // Two hex digits
+                            u32 value = 0;
+                            for (u32 i = 0; i < 2; i++) {
+                                ins->advanceByte();
+                                u8 digit = ins->tryMakeBytesAvailable()
+                                               ? fmt::DigitTable[(u8) ins->peekByte()]
+                                               : 255;
+                                if (digit >= 16) {
+                                    handleError(fmt::QuotedString::BadEscapeSequence);
+                                    goto endOfString;
+                                }
+                                value = value * 16 + digit;
+                            }
+                            outs.writeByte((u8) value);
+                            break;
+                        }
 
                         default: {
                             handleError(fmt::QuotedString::BadEscapeSequence);
-- 
2.43.0


From c292e1c9f050ad2234dd53db559979d83d795a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:19 +0000
Subject: [PATCH 28/92] fix: Path: keep roots and parent references when
 normalizing

---
 .../runtime/ply-runtime/filesystem/Path.cpp   | 39 +++++++++++++------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
index 1a11c52..b75c5e8 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
@@ -79,7 +79,9 @@ PLY_DLL_ENTRY Tuple<StringView, StringView> PathFormat::splitExt(StringView path
         lastComp = lastComp.subStr(slashPos + 1);
     }
     s32 dotPos = lastComp.rfindByte([](u32 c) { return c == '.'; });
-    if (dotPos < 0 || dotPos == 0) {
+    // Ignore leading periods
+    s32 nonDotPos = lastComp.findByte([](u32 c) { return c != '.'; });
+    if (dotPos < 0 || nonDotPos < 0 || dotPos < nonDotPos) {
         dotPos = lastComp.numBytes;
     }
     return {path.shortenedBy(lastComp.numBytes - dotPos), lastComp.subStr(dotPos)};
@@ -94,7 +96,11 @@ struct PathCompIterator {
         s32 absoluteIndex = -1;
         s32 driveLetterIndex = -1;
         for (s32 i = components.numItems - 1; i >= 0; i--) {
-            if (absoluteIndex < 0 && pathFmt->isAbsolute(components[i])) {
+            // On Windows, a component can start at the root of a drive specified by an earlier
+            // component, if any.
+            if (absoluteIndex < 0 &&
+                (pathFmt->isAbsolute(components[i]) ||
+                 (components[i].numBytes > 0 && pathFmt->isSepByte(components[i][0])))) {
                 absoluteIndex = i;
             }
             if (pathFmt->hasDriveLetter(components[i])) {
@@ -153,28 +159,41 @@ struct PathCompIterator {
     PLY_NO_INLINE Array<StringView> getNormalizedComps(const PathFormat* pathFmt,
                                                        ArrayView<const StringView> components) {
         Array<StringView> normComps;
-        u32 upCount = 0;
+        u32 upCount = 0; // Number of leading components that ".." can't collapse
+        bool isRooted = false;
         this->iterateOver(pathFmt, components, [&](StringView comp) { //
             if (comp == "..") {
                 if (normComps.numItems() > upCount) {
                     normComps.pop();
-                } else {
+                } else if (!isRooted) {
                     PLY_ASSERT(normComps.numItems() == upCount);
                     normComps.append("..");
+                    upCount++;
                 }
             } else if (comp != "." && !comp.isEmpty()) {
                 normComps.append(comp);
+                if (this->isPrefix(pathFmt, comp)) {
+                    upCount++;
+                    isRooted = pathFmt->isSepByte(comp.back());
+                }
             }
         });
         return normComps;
     }
+
+    // Returns true if comp is a drive letter and/or initial slash, after which no separator is
+    // needed.
+    PLY_INLINE bool isPrefix(const PathFormat* pathFmt, StringView comp) const {
+        return comp.bytes == this->firstComp || pathFmt->isSepByte(comp.back());
+    }
 };
 
 PLY_NO_INLINE String PathFormat::joinAndNormalize(ArrayView<const StringView> components) const {
     PathCompIterator compIter;
     Array<StringView> normComps = compIter.getNormalizedComps(this, components);
     if (normComps.isEmpty()) {
-        if (components.numItems > 0 && components.back().isEmpty()) {
+        if (components.numItems > 0 &&
+            (components.back().isEmpty() || this->isSepByte(components.back().back()))) {
             return StringView{"."} + this->sepByte();
         } else {
             return ".";
@@ -186,9 +205,7 @@ PLY_NO_INLINE String PathFormat::joinAndNormalize(ArrayView<const StringView> co
             if (needSep) {
                 mout << this->sepByte();
             } else {
-                if (comp.numBytes > 0) {
-                    needSep = !this->isSepByte(comp[comp.numBytes - 1]);
-                }
+                needSep = !compIter.isPrefix(this, comp);
             }
             mout << comp;
         }
@@ -221,7 +238,7 @@ PLY_NO_INLINE String PathFormat::makeRelative(StringView ancestor, StringView de
 
     // Determine number of ".." to output (will be 0 if drive letters mismatch)
     u32 upFolders = 0;
-    if (!this->isAbsolute(ancestor) || mc > 0) {
+    if (mc > 0 || this->getDriveLetter(ancestor) == this->getDriveLetter(descendant)) {
         upFolders = ancestorComps.numItems() - mc;
     }
 
@@ -240,7 +257,7 @@ PLY_NO_INLINE String PathFormat::makeRelative(StringView ancestor, StringView de
             mout << this->sepByte();
         }
         mout << descendantComps[i];
-        needSep = !this->isSepByte(descendantComps[i].back());
+        needSep = !descendantCompIter.isPrefix(this, descendantComps[i]);
     }
 
     // .
@@ -258,7 +275,7 @@ PLY_NO_INLINE String PathFormat::makeRelative(StringView ancestor, StringView de
 }
 
 PLY_NO_INLINE HybridString PathFormat::from(const PathFormat& srcFormat, StringView srcPath) const {
-    if (this->isWindows == srcFormat.isWindows)
+    if (!this->isWindows && !srcFormat.isWindows)
         return srcPath;
     String result = srcPath;
     char* bytes = result.bytes;
-- 
2.43.0


From 546d5e5237595ec572cfbe0d387ed8a5728e977d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:23 +0000
Subject: [PATCH 29/92] fix: FileSystem_POSIX: report errors instead of
 asserting; list and remove every entry but follow no links when removing

---
 .../filesystem/impl/FileSystem_POSIX.cpp      | 179 +++++++-----------
 1 file changed, 73 insertions(+), 106 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
index 6d6fd5e..10f4ca6 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
@@ -13,10 +13,28 @@
 #include <fcntl.h>
 #include <limits.h>
 
-#define PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS 0
-
 namespace ply {
 
+// Updates the internal result code according to errno
+static PLY_NO_INLINE FSResult setLastResultFromErrno() {
+    switch (errno) {
+        case ENOENT:
+        case ENOTDIR:
+            return FileSystem::setLastResult(FSResult::NotFound);
+        case EACCES:
+        case EPERM:
+        case EROFS:
+        case EBUSY:
+        case EISDIR:
+        case ENOTEMPTY:
+            return FileSystem::setLastResult(FSResult::AccessDenied);
+        case EEXIST:
+            return FileSystem::setLastResult(FSResult::AlreadyExists);
+        default:
+            return FileSystem::setLastResult(FSResult::Unknown);
+    }
+}
+
 PLY_NO_INLINE void FileSystem_POSIX::DirImpl::destructImpl(ply::Directory::Impl* dirImpl_) {
     FileSystem_POSIX::DirImpl* dirImpl = static_cast<FileSystem_POSIX::DirImpl*>(dirImpl_);
     if (dirImpl->dir) {
@@ -31,16 +49,7 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::DirImpl::begin(StringView path) {
     this->dir = opendir(path.withNullTerminator().bytes);
     if (!this->dir) {
         this->entry = {};
-        switch (errno) {
-            case ENOENT:
-                return FileSystem::setLastResult(FSResult::NotFound);
-            case EACCES:
-                return FileSystem::setLastResult(FSResult::AccessDenied);
-            default: {
-                PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
-                return FileSystem::setLastResult(FSResult::Unknown);
-            }
-        }
+        return setLastResultFromErrno();
     }
     return nextImpl(this);
 }
@@ -55,39 +64,45 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::DirImpl::nextImpl(ply::Directory::Impl*
             if (errno == 0) {
                 return FileSystem::setLastResult(FSResult::OK);
             } else {
-                PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
-                return FileSystem::setLastResult(FSResult::Unknown);
+                return setLastResultFromErrno();
             }
         } else {
+            if (rde->d_name[0] == '.') {
+                if (rde->d_name[1] == 0 || (rde->d_name[1] == '.' && rde->d_name[2] == 0))
+                    continue;
+            }
+            FSResult result = FSResult::OK;
             dirImpl->entry.name = rde->d_name;
+            // Don't normalize dirPath, in case it contains symbolic links:
+            String joinedPath = dirImpl->dirPath + "/" + dirImpl->entry.name;
 
-            // d_type is not POSIX, but it exists on OSX and Linux.
-            if (rde->d_type == DT_REG) {
-                dirImpl->entry.isDir = false;
-            } else if (rde->d_type == DT_DIR) {
-                if (rde->d_name[0] == '.') {
-                    if (rde->d_name[1] == 0 || (rde->d_name[1] == '.' && rde->d_name[2] == 0))
+            // d_type is not POSIX, but it exists on OSX and Linux. Not all filesystems support it.
+            if (rde->d_type == DT_UNKNOWN) {
+                struct stat buf;
+                int rc = lstat(joinedPath.withNullTerminator().bytes, &buf);
+                if (rc != 0) {
+                    if (errno == ENOENT)
                         continue;
+                    result = setLastResultFromErrno();
+                } else {
+                    dirImpl->entry.isDir = (buf.st_mode & S_IFMT) == S_IFDIR;
                 }
-                dirImpl->entry.isDir = true;
+            } else {
+                dirImpl->entry.isDir = (rde->d_type == DT_DIR);
             }
 
             if (dirImpl->flags != 0) {
                 // Get additional information requested by flags
-                String joinedPath = PosixPath::join(dirImpl->dirPath, dirImpl->entry.name);
                 struct stat buf;
                 int rc = stat(joinedPath.withNullTerminator().bytes, &buf);
                 if (rc != 0) {
-                    switch (errno) {
-                        case ENOENT: {
-                            goto skipEntry;
-                        }
-                        default: {
-                            PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
-                            FileSystem::setLastResult(FSResult::Unknown);
-                            break;
-                        }
-                    }
+                    // It could be a broken symbolic link
+                    rc = lstat(joinedPath.withNullTerminator().bytes, &buf);
+                }
+                if (rc != 0) {
+                    if (errno == ENOENT)
+                        continue;
+                    result = setLastResultFromErrno();
                 } else {
                     if (!dirImpl->entry.isDir && (dirImpl->flags & FileSystem::WithSizes) != 0) {
                         dirImpl->entry.fileSize = buf.st_size;
@@ -100,9 +115,8 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::DirImpl::nextImpl(ply::Directory::Impl*
                 }
             }
 
-            return FileSystem::setLastResult(FSResult::OK);
+            return FileSystem::setLastResult(result);
         }
-    skipEntry:;
     }
 }
 
@@ -118,16 +132,10 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::makeDir(FileSystem*, StringView path) {
     if (rc == 0) {
         return FileSystem::setLastResult(FSResult::OK);
     } else {
-        switch (errno) {
-            case EEXIST:
-            case EISDIR: {
-                return FileSystem::setLastResult(FSResult::AlreadyExists);
-            }
-            default: {
-                PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
-                return FileSystem::setLastResult(FSResult::Unknown);
-            }
+        if (errno == EISDIR) {
+            return FileSystem::setLastResult(FSResult::AlreadyExists);
         }
+        return setLastResultFromErrno();
     }
 }
 
@@ -136,14 +144,7 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::setWorkingDirectory(FileSystem*, String
     if (rc == 0) {
         return FileSystem::setLastResult(FSResult::OK);
     } else {
-        switch (errno) {
-            case ENOENT:
-                return FileSystem::setLastResult(FSResult::NotFound);
-            default: {
-                PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
-                return FileSystem::setLastResult(FSResult::Unknown);
-            }
-        }
+        return setLastResultFromErrno();
     }
 }
 
@@ -166,8 +167,7 @@ PLY_NO_INLINE String FileSystem_POSIX::getWorkingDirectory(FileSystem*) {
                     break;
                 }
                 default: {
-                    PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
-                    FileSystem::setLastResult(FSResult::Unknown);
+                    setLastResultFromErrno();
                     return {};
                 }
             }
@@ -180,9 +180,6 @@ PLY_NO_INLINE ExistsResult FileSystem_POSIX::exists(FileSystem*, StringView path
     int rc = stat(path.withNullTerminator().bytes, &buf);
     if (rc == 0)
         return (buf.st_mode & S_IFMT) == S_IFDIR ? ExistsResult::Directory : ExistsResult::File;
-    if (errno != ENOENT) {
-        PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
-    }
     return ExistsResult::NotFound;
 }
 
@@ -191,20 +188,7 @@ PLY_NO_INLINE int FileSystem_POSIX::openFDForRead(StringView path) {
     if (fd != -1) {
         FileSystem::setLastResult(FSResult::OK);
     } else {
-        switch (errno) {
-            case ENOENT:
-                FileSystem::setLastResult(FSResult::NotFound);
-                break;
-
-            case EACCES:
-                FileSystem::setLastResult(FSResult::AccessDenied);
-                break;
-
-            default:
-                PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
-                FileSystem::setLastResult(FSResult::Unknown);
-                break;
-        }
+        setLastResultFromErrno();
     }
     return fd;
 }
@@ -222,20 +206,7 @@ PLY_NO_INLINE int FileSystem_POSIX::openFDForWrite(StringView path) {
     if (fd != -1) {
         FileSystem::setLastResult(FSResult::OK);
     } else {
-        switch (errno) {
-            case ENOENT:
-                FileSystem::setLastResult(FSResult::NotFound);
-                break;
-
-            case EACCES:
-                FileSystem::setLastResult(FSResult::AccessDenied);
-                break;
-
-            default:
-                PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
-                FileSystem::setLastResult(FSResult::Unknown);
-                break;
-        }
+        setLastResultFromErrno();
     }
     return fd;
 }
@@ -251,8 +222,7 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::moveFile(FileSystem*, StringView srcPat
                                                   StringView dstPath) {
     int rc = rename(srcPath.withNullTerminator().bytes, dstPath.withNullTerminator().bytes);
     if (rc != 0) {
-        PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
-        return FileSystem::setLastResult(FSResult::Unknown);
+        return setLastResultFromErrno();
     }
     return FileSystem::setLastResult(FSResult::OK);
 }
@@ -260,15 +230,24 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::moveFile(FileSystem*, StringView srcPat
 PLY_NO_INLINE FSResult FileSystem_POSIX::deleteFile(FileSystem*, StringView path) {
     int rc = unlink(path.withNullTerminator().bytes);
     if (rc != 0) {
-        PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
-        return FileSystem::setLastResult(FSResult::Unknown);
+        return setLastResultFromErrno();
     }
     return FileSystem::setLastResult(FSResult::OK);
 }
 
 PLY_NO_INLINE FSResult FileSystem_POSIX::removeDirTree(FileSystem* fs, StringView dirPath) {   
-    for (const DirectoryEntry& dirEntry : fs->listDir(dirPath)) {
-        String joined = PosixPath::join(dirPath, dirEntry.name);
+    struct stat buf;
+    int rc = lstat(dirPath.withNullTerminator().bytes, &buf);
+    if (rc != 0) {
+        return setLastResultFromErrno();
+    }
+    if ((buf.st_mode & S_IFMT) != S_IFDIR) {
+        // Don't follow symbolic links to other directory trees
+        return FileSystem::setLastResult(FSResult::AccessDenied);
+    }
+    for (const DirectoryEntry& dirEntry : fs->listDir(dirPath, 0)) {
+        // Don't normalize dirPath, in case it contains symbolic links:
+        String joined = dirPath + "/" + dirEntry.name;
         if (dirEntry.isDir) {
             FSResult fsResult = fs->removeDirTree(joined);
             if (fsResult != FSResult::OK) {
@@ -277,15 +256,13 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::removeDirTree(FileSystem* fs, StringVie
         } else {
             int rc = unlink(joined.withNullTerminator().bytes);
             if (rc != 0) {
-                PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
-                return FileSystem::setLastResult(FSResult::Unknown);
+                return setLastResultFromErrno();
             }
         }
     }
-    int rc = rmdir(dirPath.withNullTerminator().bytes);
+    rc = rmdir(dirPath.withNullTerminator().bytes);
     if (rc != 0) {
-        PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
-        return FileSystem::setLastResult(FSResult::Unknown);
+        return setLastResultFromErrno();
     }
     return FileSystem::setLastResult(FSResult::OK);
 }
@@ -295,17 +272,7 @@ PLY_NO_INLINE FileStatus FileSystem_POSIX::getFileStatus(FileSystem*, StringView
     struct stat buf;
     int rc = stat(path.withNullTerminator().bytes, &buf);
     if (rc != 0) {
-        switch (errno) {
-            case ENOENT: {
-                status.result = FileSystem::setLastResult(FSResult::NotFound);
-                break;
-            }
-            default: {
-                PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
-                FileSystem::setLastResult(FSResult::Unknown);
-                break;
-            }
-        }
+        status.result = setLastResultFromErrno();
     } else {
         status.result = FileSystem::setLastResult(FSResult::OK);
         status.fileSize = buf.st_size;
-- 
2.43.0


From 775ca57b0fd1be0933822fde19d8e8d1fd21fccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:23 +0000
Subject: [PATCH 30/92] fix: FileSystem: makeDirs accepts a trailing separator,
 loadBinary reports read errors, saving replaces files atomically

---
 .../ply-runtime/filesystem/FileSystem.cpp     | 36 ++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
index 88a373b..1cde87b 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
@@ -93,6 +93,10 @@ PLY_NO_INLINE FSResult FileSystem::makeDirs(StringView path) {
         return FileSystem::setLastResult(FSResult::AccessDenied);
     } else {
         auto split = this->pathFormat().split(path);
+        if (split.second.isEmpty() && split.first != path) {
+            // Ignore trailing separator
+            return this->makeDirs(split.first);
+        }
         if (!split.first.isEmpty() && !split.second.isEmpty()) {
             FSResult r = makeDirs(split.first);
             if (r != FSResult::OK && r != FSResult::AlreadyExists)
@@ -140,7 +144,10 @@ PLY_NO_INLINE String FileSystem::loadBinary(StringView path) {
         u64 fileSize = inPipe->getFileSize();
         // Files >= 4GB cannot be loaded this way:
         result.resize(safeDemote<u32>(fileSize));
-        inPipe->read({result.bytes, result.numBytes});
+        if (!inPipe->read({result.bytes, result.numBytes})) {
+            FileSystem::setLastResult(FSResult::Unknown);
+            return {};
+        }
     }
     return result;
 }
@@ -194,15 +201,28 @@ PLY_NO_INLINE FSResult FileSystem::makeDirsAndSaveBinaryIfDifferent(StringView p
         return result;
     }
 
-    // Save file
-    // FIXME: Use temporary file
-    Owned<OutPipe> outPipe = this->openPipeForWrite(path);
-    result = this->lastResult();
+    // Choose a name for a temporary file in the same folder
+    String tempPath;
+    for (u32 i = 0;; i++) {
+        tempPath = String::format("{}.{}.tmp", path, i);
+        if (this->exists(tempPath) == ExistsResult::NotFound)
+            break;
+    }
+
+    // Save temporary file
+    Owned<OutPipe> outPipe = this->openPipeForWrite(tempPath);
+    if (!outPipe) {
+        return this->lastResult();
+    }
+    bool written = outPipe->write(view);
+    outPipe.clear();
+
+    // Replace the original file
+    result = written ? this->moveFile(tempPath, path) : FSResult::Unknown;
     if (result != FSResult::OK) {
-        return result;
+        this->deleteFile(tempPath);
     }
-    outPipe->write(view);
-    return result;
+    return FileSystem::setLastResult(result);
 }
 
 PLY_NO_INLINE FSResult FileSystem::makeDirsAndSaveTextIfDifferent(StringView path,
-- 
2.43.0


From f35da4c459098cabaa2f9e19419ec70bcd85511d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:39 +0000
Subject: [PATCH 31/92] fix: FileSystem_Virtual: reject paths that lead outside
 the root

---
 .../filesystem/impl/FileSystem_Virtual.cpp    | 73 +++++++++++++++----
 1 file changed, 59 insertions(+), 14 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp
index e1f67f9..075ddd4 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp
@@ -14,21 +14,41 @@ struct FileSystem_Virtual : FileSystem {
 
     FileSystem_Virtual();
 
-    PLY_NO_INLINE String convertToTargetPath(StringView path) const {
-        // FIXME: should also detect and prohibit ".."
+    // Returns false and updates the internal result code if the path is absolute or leads outside the
+    // root folder.
+    PLY_NO_INLINE bool convertToTargetPath(String* targetPath, StringView path) const {
         PathFormat pathFmt = this->targetFS->pathFormat();
-        PLY_ASSERT(!pathFmt.isAbsolute(path));
-        return pathFmt.join(this->targetRoot, PosixPath::from(pathFmt, path));
+        String relPath = pathFmt.normalize(pathFmt.from(PosixPath::format(), path));
+        if (PosixPath::isAbsolute(path) || pathFmt.isSepByte(relPath[0]) ||
+            pathFmt.hasDriveLetter(relPath) || pathFmt.splitFull(relPath)[0] == "..") {
+            FileSystem::setLastResult(FSResult::AccessDenied);
+            return false;
+        }
+        *targetPath = pathFmt.join(this->targetRoot, relPath);
+        return true;
     }
 
+    struct EmptyDirectory : Directory::Impl {
+        PLY_INLINE EmptyDirectory() {
+            this->destruct = [](Directory::Impl*) {};
+            this->next = [](Directory::Impl*) { return FileSystem::lastResult_.load(); };
+        }
+    };
+
     static PLY_NO_INLINE Directory listDir(FileSystem* fs_, StringView path, u32 flags) {
         FileSystem_Virtual* fs = static_cast<FileSystem_Virtual*>(fs_);
-        return fs->targetFS->listDir(fs->convertToTargetPath(path), flags);
+        String targetPath;
+        if (!fs->convertToTargetPath(&targetPath, path))
+            return Directory{new EmptyDirectory};
+        return fs->targetFS->listDir(targetPath, flags);
     }
 
     static PLY_NO_INLINE FSResult makeDir(FileSystem* fs_, StringView path) {
         FileSystem_Virtual* fs = static_cast<FileSystem_Virtual*>(fs_);
-        return fs->targetFS->makeDir(fs->convertToTargetPath(path));
+        String targetPath;
+        if (!fs->convertToTargetPath(&targetPath, path))
+            return FSResult::AccessDenied;
+        return fs->targetFS->makeDir(targetPath);
     }
 
     static PLY_NO_INLINE FSResult setWorkingDirectory(FileSystem*, StringView) {
@@ -43,39 +63,64 @@ struct FileSystem_Virtual : FileSystem {
 
     static PLY_NO_INLINE ExistsResult exists(FileSystem* fs_, StringView path) {
         FileSystem_Virtual* fs = static_cast<FileSystem_Virtual*>(fs_);
-        return fs->targetFS->exists(fs->convertToTargetPath(path));
+        String targetPath;
+        if (!fs->convertToTargetPath(&targetPath, path))
+            return ExistsResult::NotFound;
+        return fs->targetFS->exists(targetPath);
     }
 
     static PLY_NO_INLINE Owned<InPipe> openPipeForRead(FileSystem* fs_, StringView path) {
         FileSystem_Virtual* fs = static_cast<FileSystem_Virtual*>(fs_);
-        return fs->targetFS->openPipeForRead(fs->convertToTargetPath(path));
+        String targetPath;
+        if (!fs->convertToTargetPath(&targetPath, path))
+            return nullptr;
+        return fs->targetFS->openPipeForRead(targetPath);
     }
 
     static PLY_NO_INLINE Owned<OutPipe> openPipeForWrite(FileSystem* fs_, StringView path) {
         FileSystem_Virtual* fs = static_cast<FileSystem_Virtual*>(fs_);
-        return fs->targetFS->openPipeForWrite(fs->convertToTargetPath(path));
+        String targetPath;
+        if (!fs->convertToTargetPath(&targetPath, path))
+            return nullptr;
+        return fs->targetFS->openPipeForWrite(targetPath);
     }
 
     static PLY_NO_INLINE FSResult moveFile(FileSystem* fs_, StringView srcPath,
                                            StringView dstPath) {
         FileSystem_Virtual* fs = static_cast<FileSystem_Virtual*>(fs_);
-        return fs->targetFS->moveFile(fs->convertToTargetPath(srcPath),
-                                      fs->convertToTargetPath(dstPath));
+        String targetSrcPath;
+        String targetDstPath;
+        if (!fs->convertToTargetPath(&targetSrcPath, srcPath) ||
+            !fs->convertToTargetPath(&targetDstPath, dstPath))
+            return FSResult::AccessDenied;
+        return fs->targetFS->moveFile(targetSrcPath, targetDstPath);
     }
 
     static PLY_NO_INLINE FSResult deleteFile(FileSystem* fs_, StringView path) {
         FileSystem_Virtual* fs = static_cast<FileSystem_Virtual*>(fs_);
-        return fs->targetFS->deleteFile(fs->convertToTargetPath(path));
+        String targetPath;
+        if (!fs->convertToTargetPath(&targetPath, path))
+            return FSResult::AccessDenied;
+        return fs->targetFS->deleteFile(targetPath);
     }
 
     static PLY_NO_INLINE FSResult removeDirTree(FileSystem* fs_, StringView dirPath) {   
         FileSystem_Virtual* fs = static_cast<FileSystem_Virtual*>(fs_);
-        return fs->targetFS->removeDirTree(fs->convertToTargetPath(dirPath));
+        String targetPath;
+        if (!fs->convertToTargetPath(&targetPath, dirPath))
+            return FSResult::AccessDenied;
+        return fs->targetFS->removeDirTree(targetPath);
     }
 
     static PLY_NO_INLINE FileStatus getFileStatus(FileSystem* fs_, StringView path) {
         FileSystem_Virtual* fs = static_cast<FileSystem_Virtual*>(fs_);
-        return fs->targetFS->getFileStatus(fs->convertToTargetPath(path));
+        String targetPath;
+        if (!fs->convertToTargetPath(&targetPath, path)) {
+            FileStatus status;
+            status.result = FSResult::AccessDenied;
+            return status;
+        }
+        return fs->targetFS->getFileStatus(targetPath);
     }
 };
 
-- 
2.43.0


From 61d60eef7b0459a7e9f8b4ae7ce8db72a60190d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:03 +0000
Subject: [PATCH 32/92] fix: FileSystem: free directory listings and virtual
 file systems completely

---
 .../plywood/src/runtime/ply-runtime/filesystem/FileSystem.h  | 5 +++++
 .../runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp | 1 +
 .../ply-runtime/filesystem/impl/FileSystem_Virtual.cpp       | 5 +++++
 3 files changed, 11 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.h b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.h
index 89b2ac4..f55159f 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.h
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.h
@@ -200,6 +200,7 @@ struct FileSystem {
         FSResult (*deleteFile)(FileSystem* fs, StringView path) = nullptr;
         FSResult (*removeDirTree)(FileSystem* fs, StringView dirPath) = nullptr;
         FileStatus (*getFileStatus)(FileSystem* fs, StringView path) = nullptr;
+        void (*destroy)(FileSystem* fs) = nullptr;
     };
 
     static ThreadLocal<FSResult> lastResult_;
@@ -209,6 +210,10 @@ struct FileSystem {
     PLY_INLINE FileSystem(Funcs* funcs) : funcs{funcs} {
     }
 
+    PLY_INLINE void destroy() {
+        this->funcs->destroy(this);
+    }
+
     /*!
     Returns a `FileSystem` object that interacts with the native filesystem.
     */
diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
index 10f4ca6..240f6ed 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
@@ -42,6 +42,7 @@ PLY_NO_INLINE void FileSystem_POSIX::DirImpl::destructImpl(ply::Directory::Impl*
         PLY_ASSERT(rc == 0);
         PLY_UNUSED(rc);
     }
+    dirImpl->dirPath.~String();
 }
 
 PLY_NO_INLINE FSResult FileSystem_POSIX::DirImpl::begin(StringView path) {
diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp
index 075ddd4..a9fb720 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp
@@ -122,6 +122,10 @@ struct FileSystem_Virtual : FileSystem {
         }
         return fs->targetFS->getFileStatus(targetPath);
     }
+
+    static PLY_NO_INLINE void destroy(FileSystem* fs) {
+        delete static_cast<FileSystem_Virtual*>(fs);
+    }
 };
 
 FileSystem::Funcs FileSystemFuncs_Virtual = {
@@ -137,6 +141,7 @@ FileSystem::Funcs FileSystemFuncs_Virtual = {
     FileSystem_Virtual::deleteFile,
     FileSystem_Virtual::removeDirTree,
     FileSystem_Virtual::getFileStatus,
+    FileSystem_Virtual::destroy,
 };
 
 PLY_INLINE FileSystem_Virtual::FileSystem_Virtual() : FileSystem{&FileSystemFuncs_Virtual} {
-- 
2.43.0


From 2f261c60daf8f8e134adb7edf4399f3172296e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:40 +0000
Subject: [PATCH 33/92] fix: DateTime: correct weekdays and times before 1970

---
 .../src/runtime/ply-runtime/time/DateTime.cpp      | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/time/DateTime.cpp b/repos/plywood/src/runtime/ply-runtime/time/DateTime.cpp
index 15297d1..7c4d628 100644
--- a/repos/plywood/src/runtime/ply-runtime/time/DateTime.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/time/DateTime.cpp
@@ -49,10 +49,11 @@ template <typename T>
 PLY_INLINE T floorDiv(T dividend, T divisor) {
     PLY_STATIC_ASSERT(std::is_arithmetic<T>::value);
     PLY_ASSERT(divisor > 0);
-    if (dividend < 0) {
-        dividend += divisor - 1;
+    T quotient = dividend / divisor;
+    if (dividend % divisor < 0) {
+        quotient--;
     }
-    return dividend / divisor;
+    return quotient;
 }
 
 // Based on http://howardhinnant.github.io/date_algorithms.html
@@ -69,7 +70,7 @@ void setDateFromEpochDays(DateTime* dateTime, s32 days) {
     dateTime->year = y + (m <= 2);
     dateTime->month = safeDemote<u8>(m);
     dateTime->day = safeDemote<u8>(d);
-    dateTime->weekday = safeDemote<u8>(days >= -4 ? (days + 4) % 7 : (days + 5) % 7 + 6);
+    dateTime->weekday = safeDemote<u8>((doe + 3) % 7); // Eras are whole weeks and begin on a Wednesday
 }
 
 // Based on http://howardhinnant.github.io/date_algorithms.html
@@ -86,7 +87,7 @@ s32 getEpochDaysFromDate(const DateTime& dateTime) {
 DateTime DateTime::fromEpochMicroseconds(s64 us) {
     static constexpr s64 usPerDay = 86400000000ll;
     s32 days = safeDemote<s32>(floorDiv(us, usPerDay));
-    u64 usInDay = safeDemote<u64>(us - (days * usPerDay));
+    u64 usInDay = u64(us) - u64(days) * u64(usPerDay); // May wrap, but the result is in range
 
     DateTime dateTime;
     setDateFromEpochDays(&dateTime, days);
@@ -105,7 +106,8 @@ s64 DateTime::toEpochMicroseconds() const {
     s32 days = getEpochDaysFromDate(*this);
     s32 minutes = s32(this->hour) * 60 + this->minute;
     s32 seconds = minutes * 60 + this->second;
-    return s64(days) * usPerDay + s64(seconds) * 1000000 + this->microseconds;
+    // On the first representable day, the first product wraps, but the sum is in range:
+    return s64(u64(days) * u64(usPerDay) + u64(seconds) * 1000000 + this->microseconds);
 }
 
 } // namespace ply
-- 
2.43.0


From 7939cb5a453825bd3633e7ffc0c8dac42729b4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:31 +0000
Subject: [PATCH 34/92] fix: FileLocationMap: characters across table
 intervals, end of file, tab stops

---
 .../ply-runtime/io/text/FileLocationMap.cpp   | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp b/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp
index 7371f75..7b36082 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp
@@ -26,7 +26,8 @@ FileLocationMap FileLocationMap::fromView(StringView src) {
         DecodeResult decoded = UTF8::decodePoint(src);
         u32 nextOfs = ofs + decoded.numBytes;
         if (nextOfs > nextChunkOfs) {
-            result.table.append({lineNumber, nextChunkOfs - lineStartOfs, columnNumber, ofs - 256});
+            result.table.append(
+                {lineNumber, nextChunkOfs - lineStartOfs, columnNumber, nextChunkOfs - ofs});
             nextChunkOfs += 256;
         }
         ofs = nextOfs;
@@ -38,12 +39,16 @@ FileLocationMap FileLocationMap::fromView(StringView src) {
             lineStartOfs = ofs;
         } else if (decoded.point == '\t') {
             u32 tabSize = 4;
-            columnNumber += tabSize - (columnNumber % tabSize);
+            columnNumber += tabSize - ((columnNumber - 1) % tabSize);
         } else if (decoded.point == '\r') {
         } else {
             columnNumber++;
         }
     }
+    if (ofs == nextChunkOfs) {
+        // The end of the file is at the start of a chunk
+        result.table.append({lineNumber, nextChunkOfs - lineStartOfs, columnNumber, 0});
+    }
     return result;
 }
 
@@ -59,13 +64,12 @@ FileLocation FileLocationMap::getFileLocation(u32 offset) const {
     u32 columnNumber = fileLoc.columnNumber;
 
     for (;;) {
-        if (src.bytes >= target) {
-            u32 nb = safeDemote<u32>(target - src.bytes);
-            return {lineNumber, safeDemote<u32>(target - lineStart), columnNumber, nb};
-        }
-
         // FIXME: Unify with similar code in previous function
+        u32 nb = safeDemote<u32>(target - src.bytes);
         DecodeResult decoded = UTF8::decodePoint(src);
+        if (nb == 0 || nb < decoded.numBytes) {
+            return {lineNumber, safeDemote<u32>(target - lineStart), columnNumber, nb};
+        }
         src.offsetHead(decoded.numBytes);
 
         if (decoded.point == '\n') {
@@ -74,7 +78,7 @@ FileLocation FileLocationMap::getFileLocation(u32 offset) const {
             lineStart = src.bytes;
         } else if (decoded.point == '\t') {
             u32 tabSize = 4; // FIXME: Make configurable somewhere
-            columnNumber += tabSize - (columnNumber % tabSize);
+            columnNumber += tabSize - ((columnNumber - 1) % tabSize);
         } else if (decoded.point == '\r') {
         } else {
             columnNumber++;
-- 
2.43.0


From 1f6de6e2626c86bbdc4993afca18cf7927cb39f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:31 +0000
Subject: [PATCH 35/92] fix: extractLiquidTags: do not duplicate or swallow
 characters

---
 repos/plywood/src/runtime/ply-runtime/io/text/LiquidTags.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/text/LiquidTags.cpp b/repos/plywood/src/runtime/ply-runtime/io/text/LiquidTags.cpp
index 41abf82..9c0066e 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/text/LiquidTags.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/text/LiquidTags.cpp
@@ -56,7 +56,6 @@ PLY_NO_INLINE void extractLiquidTags(OutStream* outs, ViewInStream* vins,
                             break;
                         } else {
                             mout.writeByte(unit);
-                            mout.writeByte(*vins->curByte);
                         }
                     } else {
                         mout.writeByte(unit);
@@ -75,9 +74,6 @@ PLY_NO_INLINE void extractLiquidTags(OutStream* outs, ViewInStream* vins,
                 }
             } else {
                 outs->writeByte(unit);
-                outs->writeByte(*vins->curByte);
-                if (!advanceByte())
-                    return; // EOF
             }
         } else {
             outs->writeByte(unit);
-- 
2.43.0


From 94cc9fc4a79a80679d3734db5f5c15eed62e9694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:15 +0000
Subject: [PATCH 36/92] fix: Subprocess_POSIX: report failures and don't leak
 descriptors

---
 .../process/impl/Subprocess_POSIX.cpp         | 202 +++++++++---------
 1 file changed, 99 insertions(+), 103 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp
index d976939..cf6061b 100644
--- a/repos/plywood/src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp
@@ -9,7 +9,6 @@
 #include <ply-runtime/process/Subprocess.h>
 #include <ply-runtime/filesystem/Path.h>
 #include <ply-runtime/io/impl/Pipe_FD.h>
-#include <ply-runtime/thread/Mutex.h>
 #include <fcntl.h>
 #include <sys/types.h>
 #include <sys/wait.h>
@@ -54,74 +53,97 @@ struct Subprocess_POSIX : Subprocess {
     }
 };
 
-//--------------------------------
-// Get unique inheritable handle for null output
-//--------------------------------
-PLY_NO_INLINE int getNullInFD_POSIX() {
-    static int fd = -1;
-    if (fd == -1) {
-        static Mutex mutex;
-        LockGuard<Mutex> guard{mutex};
-        if (fd == -1) {
-            // FIXME: If open() fails, create a pipe here and spawn a thread that
-            // infinitely consumes the pipe's output.
-            fd = open("/dev/null", O_RDONLY);
-            PLY_ASSERT(fd != -1);
+// Every file descriptor created here is closed automatically in child processes, so that a subprocess
+// started by another thread at the same time won't inherit it. dup2() makes an inheritable copy.
+struct TempFD {
+    int fd = -1;
+
+    PLY_INLINE ~TempFD() {
+        this->close();
+    }
+
+    PLY_NO_INLINE void close() {
+        if (this->fd >= 0) {
+            int rc = ::close(this->fd);
+            PLY_ASSERT(rc == 0 || errno == EINTR);
+            PLY_UNUSED(rc);
+            this->fd = -1;
         }
     }
-    int fd2 = dup(fd);
-    PLY_ASSERT(fd2 != -1);
-    return fd2;
-}
 
-PLY_NO_INLINE int getNullOutFD_POSIX() {
-    static int fd = -1;
-    if (fd == -1) {
-        static Mutex mutex;
-        LockGuard<Mutex> guard{mutex};
-        if (fd == -1) {
-            // FIXME: If open() fails, create a pipe here and spawn a thread that
-            // infinitely consumes the pipe's output.
-            fd = open("/dev/null", O_WRONLY);
-            PLY_ASSERT(fd != -1);
+    PLY_INLINE int release() {
+        int result = this->fd;
+        this->fd = -1;
+        return result;
+    }
+
+    // Makes sure that redirecting the child's standard streams won't replace this descriptor.
+    PLY_NO_INLINE bool moveAboveStdIO() {
+        if (this->fd >= 0 && this->fd <= STDERR_FILENO) {
+            TempFD old;
+            old.fd = this->fd;
+            this->fd = fcntl(old.fd, F_DUPFD_CLOEXEC, STDERR_FILENO + 1);
         }
+        return this->fd >= 0;
+    }
+
+    PLY_NO_INLINE bool duplicate(int srcFD) {
+        this->fd = fcntl(srcFD, F_DUPFD_CLOEXEC, STDERR_FILENO + 1);
+        return this->fd >= 0;
     }
-    int fd2 = dup(fd);
-    PLY_ASSERT(fd2 != -1);
-    return fd2;
+
+    PLY_NO_INLINE bool openNull(int flags) {
+        this->fd = open("/dev/null", flags | O_CLOEXEC);
+        return this->moveAboveStdIO();
+    }
+};
+
+PLY_NO_INLINE bool createPipe(TempFD* readEnd, TempFD* writeEnd) {
+    int fds[2] = {-1, -1};
+#if PLY_KERNEL_LINUX || PLY_KERNEL_FREEBSD
+    if (pipe2(fds, O_CLOEXEC) != 0)
+        return false;
+    readEnd->fd = fds[0];
+    writeEnd->fd = fds[1];
+#else
+    if (pipe(fds) != 0)
+        return false;
+    readEnd->fd = fds[0];
+    writeEnd->fd = fds[1];
+    if (fcntl(fds[0], F_SETFD, FD_CLOEXEC) != 0 || fcntl(fds[1], F_SETFD, FD_CLOEXEC) != 0)
+        return false;
+#endif
+    return readEnd->moveAboveStdIO() && writeEnd->moveAboveStdIO();
 }
 
 PLY_NO_INLINE Owned<Subprocess> Subprocess::exec(StringView exePath,
                                                  ArrayView<const StringView> args,
                                                  StringView initialDir, const Output& output,
                                                  const Input& input) {
-    int childStdInFD[2] = {-1, -1};  // 0 is read, 1 is write
-    int childStdOutFD[2] = {-1, -1}; // 0 is read, 1 is write
-    int childStdErrFD[2] = {-1, -1}; // 0 is read, 1 is write
+    // Returns nullptr if a system call fails. In that case, all temporary descriptors are closed.
+    TempFD childStdInFD[2];  // 0 is read, 1 is write
+    TempFD childStdOutFD[2]; // 0 is read, 1 is write
+    TempFD childStdErrFD[2]; // 0 is read, 1 is write
 
     //-----------------------------------------------------------
     // Configure child process's stdin
     //-----------------------------------------------------------
     if (input.stdIn == Pipe::Redirect) {
         if (input.stdInPipe) {
-            // output.stdOutPipe MUST be valid OutPipe_FD. Will assert here otherwise:
-            childStdInFD[0] = dup(input.stdInPipe->cast<InPipe_FD>()->fd);
-            PLY_ASSERT(childStdInFD[0] != -1);
+            // input.stdInPipe MUST be valid InPipe_FD. Will assert here otherwise:
+            if (!childStdInFD[0].duplicate(input.stdInPipe->cast<InPipe_FD>()->fd))
+                return nullptr;
         } else {
             // ignore the input
-            childStdInFD[0] = getNullInFD_POSIX();
-            PLY_ASSERT(childStdInFD[0] != -1);
+            if (!childStdInFD[0].openNull(O_RDONLY))
+                return nullptr;
         }
     } else {
         PLY_ASSERT(input.stdIn == Pipe::Open);
 
         // Create a pipe for the child process's stdin:
-        int rc = pipe(childStdInFD);
-        PLY_ASSERT(rc == 0);
-        PLY_UNUSED(rc);
-        // Ensure the write handle to the pipe for STDIN is not inherited:
-        rc = fcntl(childStdInFD[1], F_SETFD, FD_CLOEXEC);
-        PLY_ASSERT(rc == 0);
+        if (!createPipe(&childStdInFD[0], &childStdInFD[1]))
+            return nullptr;
     }
 
     //-----------------------------------------------------------
@@ -130,23 +152,19 @@ PLY_NO_INLINE Owned<Subprocess> Subprocess::exec(StringView exePath,
     if (output.stdOut == Pipe::Redirect) {
         if (output.stdOutPipe) {
             // output.stdOutPipe MUST be valid OutPipe_FD. Will assert here otherwise:
-            childStdOutFD[1] = dup(output.stdOutPipe->cast<OutPipe_FD>()->fd);
-            PLY_ASSERT(childStdOutFD[1] != -1);
+            if (!childStdOutFD[1].duplicate(output.stdOutPipe->cast<OutPipe_FD>()->fd))
+                return nullptr;
         } else {
             // ignore the output
-            childStdOutFD[1] = getNullOutFD_POSIX();
-            PLY_ASSERT(childStdOutFD[1] != -1);
+            if (!childStdOutFD[1].openNull(O_WRONLY))
+                return nullptr;
         }
     } else {
         PLY_ASSERT(output.stdOut == Pipe::Open); // Only output.stdErr can be set to Pipe::StdOut
 
         // Create a pipe for the child process's stdout:
-        int rc = pipe(childStdOutFD);
-        PLY_ASSERT(rc == 0);
-        PLY_UNUSED(rc);
-        // Ensure the read handle to the pipe for STDOUT is not inherited:
-        rc = fcntl(childStdOutFD[0], F_SETFD, FD_CLOEXEC);
-        PLY_ASSERT(rc == 0);
+        if (!createPipe(&childStdOutFD[0], &childStdOutFD[1]))
+            return nullptr;
     }
 
     //-----------------------------------------------------------
@@ -155,26 +173,19 @@ PLY_NO_INLINE Owned<Subprocess> Subprocess::exec(StringView exePath,
     if (output.stdErr == Pipe::Redirect) {
         if (output.stdErrPipe) {
             // output.stdErrPipe MUST be valid OutPipe_FD. Will assert here otherwise:
-            childStdErrFD[1] = dup(output.stdErrPipe->cast<OutPipe_FD>()->fd);
-            PLY_ASSERT(childStdErrFD[1] != -1);
+            if (!childStdErrFD[1].duplicate(output.stdErrPipe->cast<OutPipe_FD>()->fd))
+                return nullptr;
         } else {
             // ignore the output
-            childStdErrFD[1] = getNullOutFD_POSIX();
-            PLY_ASSERT(childStdErrFD[1] != -1);
+            if (!childStdErrFD[1].openNull(O_WRONLY))
+                return nullptr;
         }
-    } else if (output.stdErr == Pipe::StdOut) {
-        PLY_ASSERT(childStdOutFD[1] != -1);
-        childStdErrFD[1] = childStdOutFD[1];
-    } else {
-        PLY_ASSERT(output.stdErr == Pipe::Open);
-
+    } else if (output.stdErr == Pipe::Open) {
         // Create a pipe for the child process's stderr:
-        int rc = pipe(childStdErrFD);
-        PLY_ASSERT(rc == 0);
-        PLY_UNUSED(rc);
-        // Ensure the read handle to the pipe for STDERR is not inherited:
-        rc = fcntl(childStdErrFD[0], F_SETFD, FD_CLOEXEC);
-        PLY_ASSERT(rc == 0);
+        if (!createPipe(&childStdErrFD[0], &childStdErrFD[1]))
+            return nullptr;
+    } else {
+        PLY_ASSERT(output.stdErr == Pipe::StdOut);
     }
 
     //-----------------------------------------------------------
@@ -201,32 +212,26 @@ PLY_NO_INLINE Owned<Subprocess> Subprocess::exec(StringView exePath,
     // Fork the process
     //-----------------------------------------------------------
     int childPID = fork();
-    PLY_ASSERT(childPID >= 0);
+    if (childPID < 0)
+        return nullptr;
     if (childPID == 0) {
         // We're in the child process.
-        // Redirect stdin and close temporary file descriptors:
-        int rc = dup2(childStdInFD[0], STDIN_FILENO);
+        // Redirect stdin, stdout and stderr. All other descriptors created by this function are
+        // closed automatically.
+        int rc = dup2(childStdInFD[0].fd, STDIN_FILENO);
         PLY_ASSERT(rc == STDIN_FILENO);
-        rc = close(childStdInFD[0]);
-        PLY_ASSERT(rc == 0);
-
-        // Redirect stdout and close temporary file descriptors:
-        rc = dup2(childStdOutFD[1], STDOUT_FILENO);
+        rc = dup2(childStdOutFD[1].fd, STDOUT_FILENO);
         PLY_ASSERT(rc == STDOUT_FILENO);
-        if (childStdOutFD[1] != childStdErrFD[1]) {
-            rc = close(childStdOutFD[1]);
-            PLY_ASSERT(rc == 0);
-        }
-
-        // Redirect stderr and close temporary file descriptors:
-        rc = dup2(childStdErrFD[1], STDERR_FILENO);
+        rc = dup2(output.stdErr == Pipe::StdOut ? childStdOutFD[1].fd : childStdErrFD[1].fd,
+                  STDERR_FILENO);
         PLY_ASSERT(rc == STDERR_FILENO);
-        rc = close(childStdErrFD[1]);
-        PLY_ASSERT(rc == 0);
 
         // Exec the new process:
         if (nullTerminatedInitialDir) {
             rc = chdir(nullTerminatedInitialDir.bytes);
+            if (rc != 0) {
+                abort(); // don't run in the wrong directory
+            }
         }
         rc = execvp(nullTerminatedExePath.bytes, argsToExecv.get());
         PLY_UNUSED(rc);
@@ -237,23 +242,14 @@ PLY_NO_INLINE Owned<Subprocess> Subprocess::exec(StringView exePath,
     // Create Subprocess object and return it:
     Subprocess_POSIX* subprocess = new Subprocess_POSIX;
     subprocess->childPID = childPID;
-    int rc = close(childStdInFD[0]);
-    PLY_ASSERT(rc == 0);
-    if (childStdInFD[1] >= 0) {
-        subprocess->writeToStdIn = new OutPipe_FD{childStdInFD[1]};
-    }
-    rc = close(childStdOutFD[1]);
-    PLY_ASSERT(rc == 0);
-    if (childStdOutFD[0] >= 0) {
-        subprocess->readFromStdOut = new InPipe_FD{childStdOutFD[0]};
+    if (childStdInFD[1].fd >= 0) {
+        subprocess->writeToStdIn = new OutPipe_FD{childStdInFD[1].release()};
     }
-    if (childStdOutFD[1] != childStdErrFD[1]) {
-        rc = close(childStdErrFD[1]);
+    if (childStdOutFD[0].fd >= 0) {
+        subprocess->readFromStdOut = new InPipe_FD{childStdOutFD[0].release()};
     }
-    PLY_ASSERT(rc == 0);
-    PLY_UNUSED(rc);
-    if (childStdErrFD[0] >= 0) {
-        subprocess->readFromStdErr = new InPipe_FD{childStdErrFD[0]};
+    if (childStdErrFD[0].fd >= 0) {
+        subprocess->readFromStdErr = new InPipe_FD{childStdErrFD[0].release()};
     }
     return subprocess;
 }
-- 
2.43.0


From 91c1a6a72be0f1723299ab4777b3695dbf627fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:10 +0000
Subject: [PATCH 37/92] fix: EscapedString preserves overlong encodings of
 control characters

---
 .../src/runtime/ply-runtime/io/impl/FormatString.cpp   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
index e5ebcba..4778d41 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
@@ -218,7 +218,9 @@ PLY_NO_INLINE void fmt::TypePrinter<fmt::EscapedString>::print(OutStream* outs,
             break;
         }
         DecodeResult decoded = UTF8::decodePoint(srcUnits);
-        switch (decoded.point) {
+        // Only single bytes are escaped, not overlong encodings of the same characters:
+        s32 point = decoded.numBytes == 1 ? decoded.point : 128;
+        switch (point) {
             case '"': {
                 *outs << "\\\"";
                 break;
@@ -240,14 +242,14 @@ PLY_NO_INLINE void fmt::TypePrinter<fmt::EscapedString>::print(OutStream* outs,
                 break;
             }
             default: {
-                if (decoded.point >= 32) {
+                if (point >= 32) {
                     // This will preserve badly encoded UTF8 characters exactly as they are in
                     // the source string:
                     outs->write(srcUnits.left(decoded.numBytes));
                 } else {
                     static const char* digits = "0123456789abcdef";
-                    *outs << "\\x" << digits[(decoded.point >> 4) & 0xf]
-                        << digits[decoded.point & 0xf];
+                    *outs << "\\x" << digits[(point >> 4) & 0xf]
+                        << digits[point & 0xf];
                 }
                 break;
             }
-- 
2.43.0


From 73d77c472d477bdd365c99841143580e56667cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:10 +0000
Subject: [PATCH 38/92] fix: Pylon parser: end of file, errors, byte 0xFF,
 hexadecimal escapes

---
 repos/plywood/src/pylon/pylon/pylon/Parse.cpp | 58 ++++++++++++++-----
 1 file changed, 42 insertions(+), 16 deletions(-)

diff --git a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
index d4542b6..30697f6 100644
--- a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
+++ b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
@@ -8,7 +8,7 @@
 
 namespace pylon {
 
-bool isAlnumUnit(u32 c) {
+bool isAlnumUnit(s32 c) {
     return (c == '_') || (c == '$') || (c == '-') || (c == '.') || (c >= 'a' && c <= 'z') ||
            (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || (c >= 128);
 }
@@ -53,8 +53,9 @@ void Parser::error(u32 fileOfs, HybridString&& message) {
 void Parser::advanceChar() {
     if (readOfs + 1 < srcView.numBytes) {
         readOfs++;
-        nextUnit = srcView.bytes[readOfs];
+        nextUnit = (u8) srcView.bytes[readOfs];
     } else {
+        readOfs = srcView.numBytes;
         nextUnit = -1;
     }
 }
@@ -66,8 +67,25 @@ Parser::Token Parser::readPlainToken(Token::Type type) {
 }
 
 bool Parser::readEscapedHex(OutStream* outs, u32 escapeFileOfs) {
-    PLY_ASSERT(0); // FIXME
-    return false;
+    // Two hexadecimal digits must follow \x
+    u32 value = 0;
+    for (u32 i = 0; i < 2; i++) {
+        u32 digit = 0;
+        if (nextUnit >= '0' && nextUnit <= '9') {
+            digit = nextUnit - '0';
+        } else if (nextUnit >= 'a' && nextUnit <= 'f') {
+            digit = nextUnit - 'a' + 10;
+        } else if (nextUnit >= 'A' && nextUnit <= 'F') {
+            digit = nextUnit - 'A' + 10;
+        } else {
+            error(escapeFileOfs, "Expected two hexadecimal digits after \"\\x\"");
+            return false;
+        }
+        value = value * 16 + digit;
+        advanceChar();
+    }
+    outs->writeByte((u8) value);
+    return true;
 }
 
 Parser::Token Parser::readQuotedString() {
@@ -360,17 +378,19 @@ Owned<Node> Parser::readObject(const Token& startToken) {
                                      "separator between properties \"{}\" and \"{}\"",
                                      fmt::EscapedString{prevProperty.text, 20},
                                      fmt::EscapedString{firstToken.text, 20}));
-                return {};
+                return Node::createInvalid();
             }
+        } else if (firstToken.type == Token::Invalid) {
+            return Node::createInvalid(); // Error was already reported
         } else if (prevProperty.isValid()) {
             error(firstToken.fileOfs,
                   String::format("Unexpected {} after property \"{}\"", toString(firstToken),
                                  fmt::EscapedString{prevProperty.text, 20}));
-            return {};
+            return Node::createInvalid();
         } else {
             error(firstToken.fileOfs,
                   String::format("Expected property, got {}", toString(firstToken)));
-            return {};
+            return Node::createInvalid();
         }
 
         auto propLocationCursor = propLocations.insertOrFind(firstToken.text);
@@ -379,15 +399,17 @@ Owned<Node> Parser::readObject(const Token& startToken) {
                                         ParseError::Scope::duplicate(propLocationCursor->fileOfs)};
             error(firstToken.fileOfs, String::format("Duplicate property \"{}\"",
                                                       fmt::EscapedString{firstToken.text, 20}));
-            return {};
+            return Node::createInvalid();
         }
 
         Token colon = readToken();
+        if (colon.type == Token::Invalid)
+            return Node::createInvalid(); // Error was already reported
         if (colon.type != Token::Colon && colon.type != Token::Equals) {
             error(colon.fileOfs,
                   String::format("Expected \":\" or \"=\" after \"{}\", got {}",
                                  fmt::EscapedString{firstToken.text, 20}, toString(colon)));
-            return {};
+            return Node::createInvalid();
         }
 
         {
@@ -402,9 +424,9 @@ Owned<Node> Parser::readObject(const Token& startToken) {
             node->set(std::move(firstToken.text), std::move(value));
         }
 
-        prevProperty = std::move(firstToken);
+        prevProperty = {firstToken.type, firstToken.fileOfs,
+                        node->object().items.back().key.view()};
     }
-    return {};
 }
 
 Owned<Node> Parser::readArray(const Token& startToken) {
@@ -451,7 +473,7 @@ Owned<Node> Parser::readExpression(Token&& firstToken, const Token* afterToken)
             return Node::createText(std::move(firstToken.text), firstToken.fileOfs);
 
         case Token::Invalid:
-            return {};
+            return Node::createInvalid();
 
         default: {
             MemOutStream mout;
@@ -460,27 +482,31 @@ Owned<Node> Parser::readExpression(Token&& firstToken, const Token* afterToken)
                 mout << " after " << toString(*afterToken);
             }
             error(firstToken.fileOfs, mout.moveToString());
-            return {};
+            return Node::createInvalid();
         }
     }
 }
 
 Parser::Result Parser::parse(StringView srcView_) {
     srcView = srcView_;
-    nextUnit = srcView.numBytes > 0 ? srcView[0] : -1;
+    readOfs = 0;
+    nextUnit = srcView.numBytes > 0 ? (u8) srcView[0] : -1;
+    anyError_ = false;
 
     this->fileLocMap = FileLocationMap::fromView(srcView_);
 
     Token rootToken = readToken();
     Owned<Node> root = readExpression(std::move(rootToken));
     if (!root->isValid())
-        return {};
+        return {Node::createInvalid(), {}};
 
     Token nextToken = readToken();
+    if (nextToken.type == Token::Invalid)
+        return {Node::createInvalid(), {}}; // Error was already reported
     if (nextToken.type != Token::EndOfFile) {
         error(nextToken.fileOfs,
               String::format("Unexpected {} after {}", toString(nextToken), toString(root)));
-        return {};
+        return {Node::createInvalid(), {}};
     }
 
     return {std::move(root), std::move(this->fileLocMap)};
-- 
2.43.0


From b591f1c1a410a5a441ecc0a5797d16fc175a9ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:10 +0000
Subject: [PATCH 39/92] fix: pylon::Node::copy makes independent copies

---
 repos/plywood/src/pylon/pylon/pylon/Node.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/repos/plywood/src/pylon/pylon/pylon/Node.cpp b/repos/plywood/src/pylon/pylon/pylon/Node.cpp
index cebd874..304747d 100644
--- a/repos/plywood/src/pylon/pylon/pylon/Node.cpp
+++ b/repos/plywood/src/pylon/pylon/pylon/Node.cpp
@@ -35,7 +35,7 @@ PLY_NO_INLINE Node::~Node() {
 Owned<Node> Node::copy() const {
     switch ((Type) this->type) {
         case Type::Text: {
-            return createText(this->text_.view(), this->fileOfs);
+            return createText(String{this->text_.view()}, this->fileOfs);
         }
 
         case Type::Array: {
@@ -52,9 +52,9 @@ Owned<Node> Node::copy() const {
             dst->object_.items.resize(this->object_.items.numItems());
             for (u32 i = 0; i < this->object_.items.numItems(); i++) {
                 Object::Item& dstItem = dst->object_.items[i];
-                dstItem.key = this->object_.items[i].key.view();
+                dstItem.key = String{this->object_.items[i].key.view()};
                 dstItem.value = this->object_.items[i].value->copy();
-                *dst->object_.index.insertOrFind(dstItem.key) = i;
+                *dst->object_.index.insertOrFind(dstItem.key.view(), &dst->object_.items) = i;
             }
             return dst;
         }
-- 
2.43.0


From d45137a793908f4c3ea7f87738e6621854178b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:43 +0000
Subject: [PATCH 40/92] fix: pylon-reflect: exports numbers and fixed arrays,
 imports mistyped documents safely

---
 .../pylon/reflect/pylon-reflect/Export.cpp    |  48 ++++++-
 .../pylon/reflect/pylon-reflect/Import.cpp    | 132 +++++++++++++-----
 .../builtin/TypeDescriptor_Array.cpp          |   2 +-
 3 files changed, 142 insertions(+), 40 deletions(-)

diff --git a/repos/plywood/src/pylon/reflect/pylon-reflect/Export.cpp b/repos/plywood/src/pylon/reflect/pylon-reflect/Export.cpp
index 97f803f..d64b342 100644
--- a/repos/plywood/src/pylon/reflect/pylon-reflect/Export.cpp
+++ b/repos/plywood/src/pylon/reflect/pylon-reflect/Export.cpp
@@ -17,8 +17,11 @@ PLY_NO_INLINE Owned<pylon::Node> exportObj(AnyObject obj, const FilterFunc& filt
         const TypeDescriptor_Struct* structType = obj.type->cast<TypeDescriptor_Struct>();
         Owned<Node> objNode = Node::createObject();
         for (const TypeDescriptor_Struct::Member& member : structType->members) {
-            objNode->set(member.name.view(),
-                         exportObj({PLY_PTR_OFFSET(obj.data, member.offset), member.type}, filter));
+            Owned<Node> child =
+                exportObj({PLY_PTR_OFFSET(obj.data, member.offset), member.type}, filter);
+            if (child->isValid()) {
+                objNode->set(member.name.view(), std::move(child));
+            }
         }
         return objNode;
     } else if (obj.type->typeKey == &TypeKey_String) {
@@ -44,6 +47,40 @@ PLY_NO_INLINE Owned<pylon::Node> exportObj(AnyObject obj, const FilterFunc& filt
                             switchType->states[id].structType};
         objNode->set(switchType->states[id].name.view(), exportObj(typedState, filter));
         return objNode;
+    } else if (obj.type->typeKey == &TypeKey_FixedArray) {
+        Owned<Node> arrNode = Node::createArray();
+        const TypeDescriptor_FixedArray* arrayType =
+            obj.type->cast<TypeDescriptor_FixedArray>();
+        Array<Owned<Node>>& childNodes = arrNode->array();
+        childNodes.resize(arrayType->numItems);
+        for (u32 i : range(arrayType->numItems)) {
+            childNodes[i] = exportObj(
+                {PLY_PTR_OFFSET(obj.data, arrayType->stride * i), arrayType->itemType}, filter);
+        }
+        return arrNode;
+    } else if (obj.type->typeKey == &TypeKey_EnumIndexedArray) {
+        Owned<Node> objNode = Node::createObject();
+        auto* arrayType = obj.type->cast<TypeDescriptor_EnumIndexedArray>();
+        TypeDescriptor* itemType = arrayType->itemType;
+        for (const TypeDescriptor_Enum::Identifier& identifier :
+             arrayType->enumType->identifiers) {
+            objNode->set(
+                identifier.name.view(),
+                exportObj({PLY_PTR_OFFSET(obj.data, itemType->fixedSize * identifier.value),
+                           itemType},
+                          filter));
+        }
+        return objNode;
+    } else if (obj.type->typeKey == &TypeKey_Float) {
+        return Node::createText(String::from(*(float*) obj.data));
+    } else if (obj.type->typeKey == &TypeKey_U8) {
+        return Node::createText(String::from(u32(*(u8*) obj.data)));
+    } else if (obj.type->typeKey == &TypeKey_U16) {
+        return Node::createText(String::from(*(u16*) obj.data));
+    } else if (obj.type->typeKey == &TypeKey_U32) {
+        return Node::createText(String::from(*(u32*) obj.data));
+    } else if (obj.type->typeKey == &TypeKey_S32) {
+        return Node::createText(String::from(*(s32*) obj.data));
     } else if (obj.type->typeKey == &TypeKey_Bool) {
         return Node::createText(*(bool*) obj.data ? "true" : "false");
     } else if (obj.type->typeKey == &TypeKey_Enum) {
@@ -59,10 +96,15 @@ PLY_NO_INLINE Owned<pylon::Node> exportObj(AnyObject obj, const FilterFunc& filt
         } else {
             PLY_ASSERT(0);
         }
-        return Node::createText(enumType->findValue(enumValue)->name.view());
+        const TypeDescriptor_Enum::Identifier* identifier = enumType->findValue(enumValue);
+        if (!identifier)
+            return Node::createInvalid(); // Not one of the enum's named values
+        return Node::createText(identifier->name.view());
     } else if (obj.type->typeKey == &TypeKey_Owned) {
         auto* ownedDesc = obj.type->cast<TypeDescriptor_Owned>();
         AnyObject child{*(void**) obj.data, ownedDesc->targetType};
+        if (!child.data)
+            return Node::createInvalid();
         return exportObj(child, filter);
     } else {
         PLY_ASSERT(0); // Unsupported
diff --git a/repos/plywood/src/pylon/reflect/pylon-reflect/Import.cpp b/repos/plywood/src/pylon/reflect/pylon-reflect/Import.cpp
index d41d7d3..fc94582 100644
--- a/repos/plywood/src/pylon/reflect/pylon-reflect/Import.cpp
+++ b/repos/plywood/src/pylon/reflect/pylon-reflect/Import.cpp
@@ -7,6 +7,7 @@
 #include <ply-reflect/AnySavedObject.h>
 #include <ply-reflect/TypeDescriptorOwner.h>
 #include <ply-reflect/TypedArray.h>
+#include <limits>
 
 namespace pylon {
 
@@ -39,8 +40,7 @@ struct PylonTypeImporter {
                 if (typeFromName.isValid()) {
                     typeDesc = typeFromName(str);
                 }
-                PLY_ASSERT(typeDesc); // Unrecognized primitive type
-                return typeDesc;
+                return typeDesc; // Null if it's an unrecognized primitive type
             }
         } else if (aNode->isObject()) {
             // It's either a struct or an enum (not supported yet).
@@ -49,7 +49,8 @@ struct PylonTypeImporter {
                 PLY_ASSERT(typeOwner); // Must provide an owner for synthesized structs
                 // Synthesize a struct
                 const Node* aName = aNode->get("name");
-                PLY_ASSERT(aName->isText());
+                if (!aName->isText())
+                    return nullptr;
                 TypeDescriptor_Struct* structType = new TypeDescriptor_Struct{0, 0, aName->text()};
                 auto appendMember = [&](StringView memberName, TypeDescriptor* memberType) {
                     structType->appendMember(memberName, memberType);
@@ -99,16 +100,32 @@ PLY_NO_INLINE TypeDescriptorOwner* convertTypeFrom(const Node* aNode,
     return importer.typeOwner;
 }
 
+// Writes a number to an integer member. Returns false, leaving the member untouched, if the node
+// isn't a number in the range of the member's type.
+template <typename T>
+PLY_NO_INLINE bool convertInteger(void* data, const Node* aNode) {
+    Tuple<bool, double> pair = aNode->numeric();
+    if (!pair.first || !(pair.second > (double) std::numeric_limits<T>::min() - 1.0 &&
+                         pair.second < (double) std::numeric_limits<T>::max() + 1.0))
+        return false;
+    *(T*) data = (T) pair.second;
+    return true;
+}
+
 PLY_NO_INLINE void convertFrom(AnyObject obj, const Node* aNode,
                                const Functor<TypeFromName>& typeFromName) {
+    // Members that don't match the node are left untouched.
     auto error = [&] {}; // FIXME: Decide where these go
 
-    PLY_ASSERT(aNode->isValid());
-    // FIXME: Handle errors gracefully by logging a message, returning false and marking the
-    // cook as failed (instead of asserting).
-    if (obj.type->typeKey == &TypeKey_Struct) {
-        PLY_ASSERT(aNode->isObject());
+    // FIXME: Log a message, return false and mark the cook as failed.
+    if (!aNode->isValid()) {
+        error();
+    } else if (obj.type->typeKey == &TypeKey_Struct) {
         auto* structDesc = obj.type->cast<TypeDescriptor_Struct>();
+        if (!aNode->isObject()) {
+            error();
+            return;
+        }
         for (const TypeDescriptor_Struct::Member& member : structDesc->members) {
             const Node* aMember = aNode->get(member.name);
             if (aMember->isValid()) {
@@ -118,31 +135,42 @@ PLY_NO_INLINE void convertFrom(AnyObject obj, const Node* aNode,
         }
     } else if (obj.type->typeKey == &TypeKey_Float) {
         Tuple<bool, double> pair = aNode->numeric();
-        PLY_ASSERT(pair.first);
+        if (!pair.first) {
+            error();
+            return;
+        }
         *(float*) obj.data = (float) pair.second;
     } else if (obj.type->typeKey == &TypeKey_U8) {
-        Tuple<bool, double> pair = aNode->numeric();
-        PLY_ASSERT(pair.first);
-        *(u8*) obj.data = (u8) pair.second;
+        if (!convertInteger<u8>(obj.data, aNode)) {
+            error();
+        }
     } else if (obj.type->typeKey == &TypeKey_U16) {
-        Tuple<bool, double> pair = aNode->numeric();
-        PLY_ASSERT(pair.first);
-        *(u16*) obj.data = (u16) pair.second;
+        if (!convertInteger<u16>(obj.data, aNode)) {
+            error();
+        }
     } else if (obj.type->typeKey == &TypeKey_Bool) {
+        if (!aNode->isText()) {
+            error();
+            return;
+        }
         *(bool*) obj.data = aNode->text() == "true";
     } else if (obj.type->typeKey == &TypeKey_U32) {
-        Tuple<bool, double> pair = aNode->numeric();
-        PLY_ASSERT(pair.first);
-        *(u32*) obj.data = (u32) pair.second;
+        if (!convertInteger<u32>(obj.data, aNode)) {
+            error();
+        }
     } else if (obj.type->typeKey == &TypeKey_S32) {
-        Tuple<bool, double> pair = aNode->numeric();
-        PLY_ASSERT(pair.first);
-        *(s32*) obj.data = (s32) pair.second;
+        if (!convertInteger<s32>(obj.data, aNode)) {
+            error();
+        }
     } else if (obj.type->typeKey == &TypeKey_FixedArray) {
-        PLY_ASSERT(aNode->isArray());
         auto* fixedArrType = obj.type->cast<TypeDescriptor_FixedArray>();
+        if (!aNode->isArray()) {
+            error();
+            return;
+        }
         u32 itemSize = fixedArrType->itemType->fixedSize;
-        for (u32 i = 0; i < fixedArrType->numItems; i++) {
+        u32 numItems = min(fixedArrType->numItems, aNode->arrayView().numItems);
+        for (u32 i = 0; i < numItems; i++) {
             AnyObject elem{PLY_PTR_OFFSET(obj.data, itemSize * i), fixedArrType->itemType};
             convertFrom(elem, aNode->get(i), typeFromName);
         }
@@ -153,7 +181,10 @@ PLY_NO_INLINE void convertFrom(AnyObject obj, const Node* aNode,
             error();
         }
     } else if (obj.type->typeKey == &TypeKey_Array) {
-        PLY_ASSERT(aNode->isArray());
+        if (!aNode->isArray()) {
+            error();
+            return;
+        }
         ArrayView<const Node* const> aNodeArr = aNode->arrayView();
         auto* arrType = static_cast<TypeDescriptor_Array*>(obj.type);
         details::BaseArray* arr = (details::BaseArray*) obj.data;
@@ -172,8 +203,11 @@ PLY_NO_INLINE void convertFrom(AnyObject obj, const Node* aNode,
             convertFrom(elem, aNodeArr[i], typeFromName);
         }
     } else if (obj.type->typeKey == &TypeKey_EnumIndexedArray) {
-        PLY_ASSERT(aNode->isObject());
         auto* arrayDesc = obj.type->cast<TypeDescriptor_EnumIndexedArray>();
+        if (!aNode->isObject()) {
+            error();
+            return;
+        }
         for (const TypeDescriptor_Enum::Identifier& identifier : arrayDesc->enumType->identifiers) {
             const Node* aMember = aNode->get(identifier.name);
             if (aMember->isValid()) {
@@ -184,8 +218,11 @@ PLY_NO_INLINE void convertFrom(AnyObject obj, const Node* aNode,
             }
         }
     } else if (obj.type->typeKey == &TypeKey_Enum) {
-        PLY_ASSERT(aNode->isText());
         auto* enumDesc = obj.type->cast<TypeDescriptor_Enum>();
+        if (!aNode->isText()) {
+            error();
+            return;
+        }
         bool found = false;
         for (const auto& identifier : enumDesc->identifiers) {
             if (identifier.name == aNode->text()) {
@@ -204,19 +241,37 @@ PLY_NO_INLINE void convertFrom(AnyObject obj, const Node* aNode,
                 break;
             }
         }
-        PLY_ASSERT(found);
-        PLY_UNUSED(found);
+        if (!found) {
+            error();
+        }
     } else if (obj.type->typeKey == &TypeKey_AnySavedObject) {
-        PLY_ASSERT(aNode->isObject());
-        TypeDescriptorOwner* targetTypeOwner = convertTypeFrom(aNode->get("type"), typeFromName);
+        if (!aNode->isObject()) {
+            error();
+            return;
+        }
+        Reference<TypeDescriptorOwner> targetTypeOwner =
+            convertTypeFrom(aNode->get("type"), typeFromName);
+        if (!targetTypeOwner->getRootType()) {
+            error();
+            return;
+        }
         AnySavedObject* savedTypedPtr = (AnySavedObject*) obj.data;
+        savedTypedPtr->owned = AnyOwnedObject{};
         savedTypedPtr->typeOwner = targetTypeOwner;
         savedTypedPtr->owned = AnyObject::create(targetTypeOwner->getRootType());
         convertFrom(savedTypedPtr->owned, aNode->get("value"), typeFromName);
     } else if (obj.type->typeKey == &TypeKey_TypedArray) {
-        PLY_ASSERT(aNode->isObject());
-        TypeDescriptorOwner* itemTypeOwner = convertTypeFrom(aNode->get("type"), typeFromName);
+        if (!aNode->isObject()) {
+            error();
+            return;
+        }
+        Reference<TypeDescriptorOwner> itemTypeOwner =
+            convertTypeFrom(aNode->get("type"), typeFromName);
         const pylon::Node* aData = aNode->get("data");
+        if (!itemTypeOwner->getRootType() || !aData->isArray()) {
+            error();
+            return;
+        }
         ArrayView<const pylon::Node* const> aDataArr = aData->arrayView();
         TypedArray* arr = (TypedArray*) obj.data;
         arr->create(itemTypeOwner, aDataArr.numItems);
@@ -226,9 +281,11 @@ PLY_NO_INLINE void convertFrom(AnyObject obj, const Node* aNode,
             item.data = PLY_PTR_OFFSET(item.data, itemTypeOwner->getRootType()->fixedSize);
         }
     } else if (obj.type->typeKey == &TypeKey_Switch) {
-        PLY_ASSERT(aNode->isObject());
         auto* switchDesc = obj.type->cast<TypeDescriptor_Switch>();
-        PLY_ASSERT(aNode->object().items.numItems() == 1);
+        if (!aNode->isObject() || aNode->object().items.numItems() != 1) {
+            error();
+            return;
+        }
         auto iter = aNode->object().items.begin();
         const StringView& stateName = iter->key;
         bool found = false;
@@ -242,10 +299,13 @@ PLY_NO_INLINE void convertFrom(AnyObject obj, const Node* aNode,
                 break;
             }
         }
-        PLY_ASSERT(found);
-        PLY_UNUSED(found);
+        if (!found) {
+            error();
+        }
     } else if (obj.type->typeKey == &TypeKey_Owned) {
         auto* ownedDesc = obj.type->cast<TypeDescriptor_Owned>();
+        AnyObject{*(void**) obj.data, ownedDesc->targetType}.destroy();
+        *(void**) obj.data = nullptr;
         AnyObject created = AnyObject::create(ownedDesc->targetType);
         *(void**) obj.data = created.data;
         convertFrom(created, aNode, typeFromName);
diff --git a/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Array.cpp b/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Array.cpp
index d881825..7596f3e 100644
--- a/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Array.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Array.cpp
@@ -35,7 +35,7 @@ NativeBindings& getNativeBindings_Array() {
                 itemType->bindings.destruct({item, itemType});
                 item = PLY_PTR_OFFSET(item, itemSize);
             }
-            arr->~BaseArray();
+            arr->free();
         },
         // move
         [](AnyObject dst, AnyObject src) {
-- 
2.43.0


From 02fefe33fca4d6737c316004b5bc1cb4c4e552dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:09 +0000
Subject: [PATCH 41/92] fix: synthesized type descriptors leak their members,
 since they are deleted through a base class without virtual destructor

---
 repos/plywood/src/reflect/ply-reflect/TypeDescriptor_Def.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/reflect/ply-reflect/TypeDescriptor_Def.h b/repos/plywood/src/reflect/ply-reflect/TypeDescriptor_Def.h
index fd71063..48c04ee 100644
--- a/repos/plywood/src/reflect/ply-reflect/TypeDescriptor_Def.h
+++ b/repos/plywood/src/reflect/ply-reflect/TypeDescriptor_Def.h
@@ -122,7 +122,9 @@ struct TypeDescriptor {
     // Built-in TypeDescriptors exist for the entire process lifetime, including those defined
     // by PLY_STRUCT_BEGIN. The only TypeDescriptors that ever get destroyed are ones that are
     // synthesized at runtime. The lifetime of those TypeDescriptors is managed by a
-    // TypeDescriptorOwner, which knows how to correctly destruct them.
+    // TypeDescriptorOwner, which destructs them through this virtual destructor.
+    virtual ~TypeDescriptor() {
+    }
     template <class T>
     T* cast() {
         PLY_ASSERT(typeKey == T::typeKey);
-- 
2.43.0


From fe054c797c9766e205f5344a2a7cc7906c78dff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:09 +0000
Subject: [PATCH 42/92] fix: an AnySavedObject is destroyed twice

---
 repos/plywood/src/reflect/ply-reflect/AnySavedObject.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/reflect/ply-reflect/AnySavedObject.h b/repos/plywood/src/reflect/ply-reflect/AnySavedObject.h
index 0f5baba..c0f78e7 100644
--- a/repos/plywood/src/reflect/ply-reflect/AnySavedObject.h
+++ b/repos/plywood/src/reflect/ply-reflect/AnySavedObject.h
@@ -23,7 +23,7 @@ struct AnySavedObject {
     ~AnySavedObject() {
         // Need to destroy the AnyOwnedObject first, since it uses a TypeDescriptor that's owned
         // by the TypeDescriptorOwner.
-        owned.destroy();
+        owned = AnyOwnedObject{};
     }
 
     AnySavedObject& operator=(AnySavedObject&&) = default;
-- 
2.43.0


From 1dd1e9678bd88b26fde197b20fe972b50ae0c04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:09 +0000
Subject: [PATCH 43/92] fix: moving into an Owned pointer leaks the object it
 held

---
 .../reflect/ply-reflect/builtin/TypeDescriptor_Owned.cpp    | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Owned.cpp b/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Owned.cpp
index fd93aa9..6e05a38 100644
--- a/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Owned.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Owned.cpp
@@ -36,10 +36,8 @@ NativeBindings& getNativeBindings_Owned() {
             PLY_ASSERT(dst.type->typeKey == &TypeKey_Owned);
             PLY_ASSERT(dst.type->isEquivalentTo(src.type));
             // Note: This is type punning AppOwned<T> with void*
-            if (*(void**) dst.data) {
-                // Must destroy existing object
-                PLY_FORCE_CRASH(); // Unimplemented
-            }
+            TypeDescriptor_Owned* ownedType = dst.type->cast<TypeDescriptor_Owned>();
+            AnyObject{*(void**) dst.data, ownedType->targetType}.destroy();
             *(void**) dst.data = *(void**) src.data;
             *(void**) src.data = nullptr;
         },
-- 
2.43.0


From 7cfd30dd68011bef453e44b505fb36487052ac15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:09 +0000
Subject: [PATCH 44/92] fix: saving and loading null owned pointers, links,
 enums and changed types

---
 .../reflect/ply-reflect/PersistReadObject.cpp | 19 ++++++---
 .../reflect/ply-reflect/PersistReadSchema.cpp | 38 ++++++++++-------
 .../ply-reflect/PersistWriteObject.cpp        | 40 ++++++++++++------
 .../ply-reflect/PersistWriteSchema.cpp        |  2 +
 .../src/reflect/ply-reflect/TypeKey.cpp       | 41 ++++++++++++++++---
 5 files changed, 102 insertions(+), 38 deletions(-)

diff --git a/repos/plywood/src/reflect/ply-reflect/PersistReadObject.cpp b/repos/plywood/src/reflect/ply-reflect/PersistReadObject.cpp
index 9b56ef7..cb0420d 100644
--- a/repos/plywood/src/reflect/ply-reflect/PersistReadObject.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/PersistReadObject.cpp
@@ -67,8 +67,10 @@ void skip(ReadObjectContext* context, FormatDescriptor* formatDesc) {
         }
         case FormatKey::Typed: {
             u32 formatID = context->in.read<u32>();
-            FormatDescriptor* formatDesc = context->schema->getFormatDesc(formatID);
-            skip(context, formatDesc);
+            if (formatID != (u32) FormatKey::None) {
+                FormatDescriptor* formatDesc = context->schema->getFormatDesc(formatID);
+                skip(context, formatDesc);
+            }
             break;
         }
         case FormatKey::FixedArray: {
@@ -90,7 +92,14 @@ void skip(ReadObjectContext* context, FormatDescriptor* formatDesc) {
         }
         case FormatKey::Owned: {
             FormatDescriptor_Owned* ownedFormat = (FormatDescriptor_Owned*) formatDesc;
-            skip(context, ownedFormat->childFormat);
+            if (context->in.read<u8>() != 0) {
+                skip(context, ownedFormat->childFormat);
+            }
+            break;
+        }
+
+        case FormatKey::RawPtr: {
+            context->in.read<u32>();
             break;
         }
         case FormatKey::Struct: {
@@ -173,9 +182,9 @@ void resolveLinks(LoadPtrResolver* ptrResolver) {
         const LoadPtrResolver::LinkTableEntry& linkEntry = ptrResolver->linkTable[linkIndex];
 #if PLY_VALIDATE_RESOLVED_PTR_TYPES
         // FIXME: handle bad data gracefully
-        PLY_ASSERT(linkEntry.typeDesc == weakInfo.typeDesc);
+        PLY_ASSERT(!linkEntry.ptr || linkEntry.typeDesc == weakInfo.typeDesc);
 #endif
-        PLY_ASSERT(linkEntry.ptr); // We don't support null ptrs at save time yet
+        // The pointer is null if the object it was linked to was skipped
         weakInfo.weakPtr->ptr = linkEntry.ptr;
     }
 }
diff --git a/repos/plywood/src/reflect/ply-reflect/PersistReadSchema.cpp b/repos/plywood/src/reflect/ply-reflect/PersistReadSchema.cpp
index cdd9343..f94e965 100644
--- a/repos/plywood/src/reflect/ply-reflect/PersistReadSchema.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/PersistReadSchema.cpp
@@ -67,26 +67,38 @@ public:
             return pair.formatDesc;
         }
 
-        FormatDescriptor* newFormat = nullptr;
         u32 userFormatIndex =
             m_schema->userFormatDescs
                 .numItems(); // actual formatID is FormatID_StartUserRange + userFormatIndex
         m_schema->userFormatDescs.append(nullptr);
+
+        // Each FormatDescriptor is added to the schema before reading those it refers to, since
+        // they can refer back to it
+        FormatDescriptor* newFormat = nullptr;
+        auto addFormat = [&](FormatDescriptor* format) {
+            newFormat = format;
+            m_schema->userFormatDescs[userFormatIndex] = format;
+        };
         if (formatKey == (u8) FormatKey::FixedArray) {
             u32 numItems = m_in.read<u32>();
-            FormatDescriptor* itemFormat = readFormatDescriptor();
-            newFormat = new FormatDescriptor_FixedArray{numItems, itemFormat};
+            auto* arrFormat = new FormatDescriptor_FixedArray{numItems, nullptr};
+            addFormat(arrFormat);
+            arrFormat->itemFormat = readFormatDescriptor();
         } else if (formatKey == (u8) FormatKey::Array) {
-            FormatDescriptor* itemFormat = readFormatDescriptor();
-            newFormat = new FormatDescriptor_Array{itemFormat};
+            auto* arrFormat = new FormatDescriptor_Array{nullptr};
+            addFormat(arrFormat);
+            arrFormat->itemFormat = readFormatDescriptor();
         } else if (formatKey == (u8) FormatKey::Owned) {
-            FormatDescriptor* childFormat = readFormatDescriptor();
-            newFormat = new FormatDescriptor_Owned{childFormat};
+            auto* ownedFormat = new FormatDescriptor_Owned{nullptr};
+            addFormat(ownedFormat);
+            ownedFormat->childFormat = readFormatDescriptor();
         } else if (formatKey == (u8) FormatKey::RawPtr) {
-            FormatDescriptor* childFormat = readFormatDescriptor();
-            newFormat = new FormatDescriptor_RawPtr{childFormat};
+            auto* rawPtrFormat = new FormatDescriptor_RawPtr{nullptr};
+            addFormat(rawPtrFormat);
+            rawPtrFormat->childFormat = readFormatDescriptor();
         } else if (formatKey == (u8) FormatKey::Struct) {
             FormatDescriptor_Struct* structFormat = new FormatDescriptor_Struct;
+            addFormat(structFormat);
             structFormat->name = Boxed<String>::read(m_in);
             u16 numTemplateParams = m_in.read<u16>();
             u16 numMembers = m_in.read<u16>();
@@ -100,9 +112,9 @@ public:
                 member.name = Boxed<String>::read(m_in);
                 member.formatDesc = readFormatDescriptor();
             }
-            newFormat = structFormat;
         } else if (formatKey == (u8) FormatKey::Enum) {
             FormatDescriptor_Enum* enumFormat = new FormatDescriptor_Enum;
+            addFormat(enumFormat);
             enumFormat->name = Boxed<String>::read(m_in);
             enumFormat->fixedSize = m_in.read<u8>();
             u32 numEntries = m_in.read<u32>();
@@ -110,16 +122,16 @@ public:
             for (String& name : enumFormat->identifiers) {
                 name = Boxed<String>::read(m_in);
             }
-            newFormat = enumFormat;
         } else if (formatKey == (u8) FormatKey::EnumIndexedArray) {
             FormatDescriptor_EnumIndexedArray* arrFormat = new FormatDescriptor_EnumIndexedArray;
+            addFormat(arrFormat);
             arrFormat->itemFormat = readFormatDescriptor();
             FormatDescriptor* enumFormat = readFormatDescriptor();
             PLY_ASSERT(enumFormat->formatKey == (u8) FormatKey::Enum);
             arrFormat->enumFormat = static_cast<FormatDescriptor_Enum*>(enumFormat);
-            newFormat = arrFormat;
         } else if (formatKey == (u8) FormatKey::Switch) {
             FormatDescriptor_Switch* switchFormat = new FormatDescriptor_Switch;
+            addFormat(switchFormat);
             switchFormat->name = Boxed<String>::read(m_in);
             u16 numStates = m_in.read<u16>();
             switchFormat->states.resize(numStates);
@@ -129,11 +141,9 @@ public:
                 PLY_ASSERT(stateFormat->formatKey == (u8) FormatKey::Struct);
                 state.structFormat = static_cast<FormatDescriptor_Struct*>(stateFormat);
             }
-            newFormat = switchFormat;
         } else {
             PLY_ASSERT(0);
         }
-        m_schema->userFormatDescs[userFormatIndex] = newFormat;
         return newFormat;
     }
 
diff --git a/repos/plywood/src/reflect/ply-reflect/PersistWriteObject.cpp b/repos/plywood/src/reflect/ply-reflect/PersistWriteObject.cpp
index eff4a45..5494d25 100644
--- a/repos/plywood/src/reflect/ply-reflect/PersistWriteObject.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/PersistWriteObject.cpp
@@ -19,23 +19,37 @@ void writeObject(AnyObject obj, WriteObjectContext* writeObjectContext) {
 
 void resolveLinksAndWriteLinkTable(MutableStringView view, OutStream* outs,
                                    SavedPtrResolver* ptrResolver) {
+    auto findTarget = [&](const SavedPtrResolver::WeakPointerToResolve& weakInfo) {
+        auto cursor =
+            ptrResolver->addrToSaveInfo.find(weakInfo.obj.data, &ptrResolver->savedOwnedPtrs);
+        // FIXME: Handle unresolved pointers gracefully
+        PLY_ASSERT(cursor.wasFound());
+        return &ptrResolver->savedOwnedPtrs[*cursor];
+    };
+
+    // Assign link indices to the objects that are linked to, in the order they were saved
+    for (const SavedPtrResolver::WeakPointerToResolve& weakInfo : ptrResolver->weakPtrsToResolve) {
+        if (weakInfo.obj.data) {
+            findTarget(weakInfo)->linkIndex = 0;
+        }
+    }
     u32 linkIndex = 0;
+    for (SavedPtrResolver::SavedOwnedPtr& savedOwnedPtr : ptrResolver->savedOwnedPtrs) {
+        if (savedOwnedPtr.linkIndex >= 0) {
+            savedOwnedPtr.linkIndex = linkIndex;
+            linkIndex++;
+        }
+    }
     for (const SavedPtrResolver::WeakPointerToResolve& weakInfo : ptrResolver->weakPtrsToResolve) {
         PLY_ASSERT(weakInfo.fileOffset + 4 <= view.numBytes);
-        auto cursor =
-            ptrResolver->addrToSaveInfo.find(weakInfo.obj.data, &ptrResolver->savedOwnedPtrs);
-        if (cursor.wasFound()) {
-            SavedPtrResolver::SavedOwnedPtr& savedOwnedPtr = ptrResolver->savedOwnedPtrs[*cursor];
-            PLY_ASSERT(savedOwnedPtr.obj == weakInfo.obj); // Sanity check
-            if (savedOwnedPtr.linkIndex < 0) {
-                savedOwnedPtr.linkIndex = linkIndex;
-                linkIndex++;
-            }
-            // Note: This performs a potentially unaligned write
-            *(u32*) PLY_PTR_OFFSET(view.bytes, weakInfo.fileOffset) = savedOwnedPtr.linkIndex;
-        } else {
-            PLY_ASSERT(0); // FIXME: Handle unresolved pointers gracefully
+        u32 weakLinkIndex = UINT32_MAX; // Null pointer
+        if (weakInfo.obj.data) {
+            SavedPtrResolver::SavedOwnedPtr* savedOwnedPtr = findTarget(weakInfo);
+            PLY_ASSERT(savedOwnedPtr->obj == weakInfo.obj); // Sanity check
+            weakLinkIndex = savedOwnedPtr->linkIndex;
         }
+        // Note: This performs a potentially unaligned write
+        *(u32*) PLY_PTR_OFFSET(view.bytes, weakInfo.fileOffset) = weakLinkIndex;
     }
 
     // Write link table
diff --git a/repos/plywood/src/reflect/ply-reflect/PersistWriteSchema.cpp b/repos/plywood/src/reflect/ply-reflect/PersistWriteSchema.cpp
index 5d554dc..27884d7 100644
--- a/repos/plywood/src/reflect/ply-reflect/PersistWriteSchema.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/PersistWriteSchema.cpp
@@ -68,6 +68,8 @@ WriteFormatContext::WriteFormatContext(OutStream* out) : m_out{out} {
             m_typeToFormatID[builtin.type] = (u32) builtin.key;
         }
     }
+    // AnyOwnedObject is saved in the same format as AnySavedObject
+    m_typeToFormatID[getTypeDescriptor<AnyOwnedObject>()] = (u32) FormatKey::Typed;
 }
 
 u32 WriteFormatContext::addOrGetFormatID(TypeDescriptor* typeDesc) {
diff --git a/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp b/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
index 3a05667..81b2adf 100644
--- a/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
@@ -344,7 +344,9 @@ TypeKey TypeKey_Array{
         u32 arrSize = context->in.read<u32>();
         PLY_ASSERT(arrSize < 10000000);
         details::BaseArray* arr = (details::BaseArray*) obj.data;
-        // FIXME: Destruct existing elements if array not empty
+        for (u32 i : range(arr->m_numItems)) {
+            AnyObject{PLY_PTR_OFFSET(arr->m_items, itemSize * i), itemType}.destruct();
+        }
         arr->realloc(arrSize, itemSize);
         void* item = arr->m_items;
         for (u32 i : range((u32) arrSize)) {
@@ -384,12 +386,19 @@ TypeKey TypeKey_Owned{
     [](AnyObject obj, WriteObjectContext* context) {
         TypeDescriptor_Owned* ownedType = obj.type->cast<TypeDescriptor_Owned>();
         AnyObject targetObj = AnyObject{*(void**) obj.data, ownedType->targetType};
+        u32 fileOffset = safeDemote<u32>(context->out.outs->getSeekPos());
+
+        // Write whether there's an owned object. This byte also ensures that no two owned objects
+        // are saved at the same file offset, since weak pointers are resolved by file offset.
+        context->out.write<u8>(targetObj.data ? 1 : 0);
+        if (!targetObj.data)
+            return;
 
         // Save info needed to resolve weak pointers to this object
         u32 savedOwnedPtrIdx = context->ptrResolver.savedOwnedPtrs.numItems();
         SavedPtrResolver::SavedOwnedPtr& savedInfo = context->ptrResolver.savedOwnedPtrs.append();
         savedInfo.obj = targetObj;
-        savedInfo.fileOffset = safeDemote<u32>(context->out.outs->getSeekPos());
+        savedInfo.fileOffset = fileOffset;
         auto cursor = context->ptrResolver.addrToSaveInfo.insertOrFind(
             targetObj.data, &context->ptrResolver.savedOwnedPtrs);
         PLY_ASSERT(!cursor.wasFound());
@@ -415,14 +424,19 @@ TypeKey TypeKey_Owned{
         }
         FormatDescriptor_Owned* ownedFormat = (FormatDescriptor_Owned*) formatDesc;
         TypeDescriptor_Owned* ownedType = obj.type->cast<TypeDescriptor_Owned>();
+        u32 seekPos =
+            safeDemote<u32>(context->in.ins->getSeekPos()) - context->ptrResolver.objDataOffset;
+        if (context->in.read<u8>() == 0) {
+            AnyObject{*(void**) obj.data, ownedType->targetType}.destroy();
+            *(void**) obj.data = nullptr;
+            return;
+        }
         AnyObject targetObj = AnyObject::create(ownedType->targetType);
 
         // Save info needed to resolve weak pointers to this object
         while (context->ptrResolver.linkTableIndex < context->ptrResolver.linkTable.numItems()) {
             LoadPtrResolver::LinkTableEntry& linkEntry =
                 context->ptrResolver.linkTable[context->ptrResolver.linkTableIndex];
-            u32 seekPos =
-                safeDemote<u32>(context->in.ins->getSeekPos()) - context->ptrResolver.objDataOffset;
             if (linkEntry.fileOffset > seekPos)
                 break; // No weak pointers link here
 
@@ -656,6 +670,11 @@ TypeKey TypeKey_Enum{
     // read
     [](AnyObject obj, ReadObjectContext* context, FormatDescriptor* formatDesc) {
         NativeEndianReader& in = context->in;
+        if ((FormatKey) formatDesc->formatKey != FormatKey::Enum) {
+            SLOG(Load, "Can't convert to enum");
+            skip(context, formatDesc);
+            return;
+        }
         FormatDescriptor_Enum* enumFormat = (FormatDescriptor_Enum*) formatDesc;
         TypeDescriptor_Enum* enumType = obj.type->cast<TypeDescriptor_Enum>();
         u32 serializedValue = 0;
@@ -715,7 +734,7 @@ TypeKey TypeKey_RawPtr{
     // getName
     [](const TypeDescriptor* typeDesc) -> HybridString { //
         const TypeDescriptor_RawPtr* weakPtrType = typeDesc->cast<const TypeDescriptor_RawPtr>();
-        return String::format("{}*", weakPtrType->getName());
+        return String::format("{}*", weakPtrType->targetType->getName());
     },
 
     // write
@@ -739,10 +758,20 @@ TypeKey TypeKey_RawPtr{
     },
     // read
     [](AnyObject obj, ReadObjectContext* context, FormatDescriptor* formatDesc) {
+        if ((FormatKey) formatDesc->formatKey != FormatKey::RawPtr) {
+            SLOG(Load, "Can't convert to pointer");
+            skip(context, formatDesc);
+            return;
+        }
         TypeDescriptor_RawPtr* weakPtrType = obj.type->cast<TypeDescriptor_RawPtr>();
+        PLY_UNUSED(weakPtrType);
         LoadPtrResolver::RawPtr* weakPtr = (LoadPtrResolver::RawPtr*) obj.data;
 
         u32 linkIndex = context->in.read<u32>();
+        if (linkIndex == UINT32_MAX) {
+            weakPtr->ptr = nullptr;
+            return;
+        }
         // FIXME: Handle bad data gracefully
         PLY_ASSERT(linkIndex < context->ptrResolver.linkTable.numItems());
         weakPtr->linkIndex = linkIndex;
@@ -902,7 +931,7 @@ TypeKey TypeKey_Switch{
             newTypedState.construct();
         }
         newTypedState.type->typeKey->read(newTypedState, context,
-                                          switchFormat->states[newID].structFormat);
+                                          switchFormat->states[formatStateID].structFormat);
     },
     // hashDescriptor
     nullptr, // Unimplemented
-- 
2.43.0


From e59e68cc5067a8b4f0292fb3fe71857420e46a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:42 +0000
Subject: [PATCH 45/92] fix: conversion recipes copy from arrays, and may span
 several blocks

---
 .../src/reflect/ply-reflect/TypeConverter.cpp | 115 ++++++++++--------
 1 file changed, 65 insertions(+), 50 deletions(-)

diff --git a/repos/plywood/src/reflect/ply-reflect/TypeConverter.cpp b/repos/plywood/src/reflect/ply-reflect/TypeConverter.cpp
index ed3ff3a..6fafbaa 100644
--- a/repos/plywood/src/reflect/ply-reflect/TypeConverter.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/TypeConverter.cpp
@@ -174,83 +174,97 @@ void createConversionRecipe(OutStream* outs, const TypeDescriptor_Struct* dstStr
     NativeEndianWriter{outs}.write(TypeConverter::Cmd::EndScope);
 }
 
-template <class T>
-const T* safeCast(StringView view) {
-    PLY_ASSERT(sizeof(T) <= view.numBytes);
-    return (const T*) view.bytes;
-}
+// Reads the commands of a recipe, which may straddle the blocks of a BlockList.
+struct RecipeReader {
+    BlockList::WeakRef cursor;
 
-void convert(BlockList::WeakRef cursor, void* dstPtr, ArrayView<void*> srcPtrs,
-             void* srcPtr = nullptr) {
-    // FIXME: Implement MessageSequence and use that instead.
+    template <class T>
+    T peek() const {
+        RecipeReader copy = *this;
+        return copy.read<T>();
+    }
 
-    BlockList::Footer* viewBlock = nullptr;
-    StringView view;
-    for (;;) {
-        if (view.isEmpty()) {
-            viewBlock = cursor.block;
-            if (!viewBlock)
-                break;
-            PLY_ASSERT(viewBlock->viewUsedBytes().contains(cursor.byte));
-            view = {cursor.byte, safeDemote<u32>(viewBlock->end() - cursor.byte)};
-            PLY_ASSERT(!view.isEmpty());
-            cursor = cursor.block->weakRefToNext();
+    template <class T>
+    T read() {
+        T result;
+        MutableStringView dst{(char*) &result, sizeof(T)};
+        while (dst.numBytes > 0) {
+            u32 avail = safeDemote<u32>(this->cursor.block->unused() - this->cursor.byte);
+            if (avail == 0) {
+                this->cursor = this->cursor.block->weakRefToNext();
+                PLY_ASSERT(this->cursor.block);
+                continue;
+            }
+            u32 numBytes = min<u32>(avail, dst.numBytes);
+            memcpy(dst.bytes, this->cursor.byte, numBytes);
+            dst.offsetHead(numBytes);
+            this->cursor.byte += numBytes;
         }
+        return result;
+    }
+};
 
-        switch (*safeCast<TypeConverter::Cmd>(view)) {
+// When dstPtr is null, the commands are skipped.
+void convert(RecipeReader& reader, void* dstPtr, ArrayView<void*> srcPtrs, void* srcPtr = nullptr) {
+    for (;;) {
+        switch (reader.peek<TypeConverter::Cmd>()) {
             case TypeConverter::Cmd::SetRootSourceIndex: {
                 // Note: Could add an assert here to ensure that we are at the "root"
                 // convert(), but that would require passing an additional depth parameter
-                auto* cmd = safeCast<TypeConverter::SetRootSourceIndex>(view);
-                srcPtr = srcPtrs[cmd->sourceIndex];
-                view.offsetHead(sizeof(TypeConverter::SetRootSourceIndex));
+                auto cmd = reader.read<TypeConverter::SetRootSourceIndex>();
+                srcPtr = srcPtrs[cmd.sourceIndex];
                 break;
             }
 
             case TypeConverter::Cmd::IterateArrayToFixedArray: {
-                auto cmd = *safeCast<TypeConverter::IterateArrayToFixedArray>(view);
-                view.offsetHead(sizeof(TypeConverter::IterateArrayToFixedArray));
+                auto cmd = reader.read<TypeConverter::IterateArrayToFixedArray>();
 
-                details::BaseArray* baseArr =
-                    (details::BaseArray*) PLY_PTR_OFFSET(srcPtr, cmd.srcOffset);
-                // FIXME: Warn if baseArr has too many source elements
-                u32 itemsToCopy = min<u32>(cmd.dstSize, baseArr->m_numItems);
-                void* childDstPtr = PLY_PTR_OFFSET(dstPtr, cmd.dstOffset);
-                void* childSrcPtr = baseArr->m_items;
-                while (itemsToCopy) {
-                    BlockList::WeakRef childCursor = cursor; // Copy child cursor
-                    convert(childCursor, childDstPtr, srcPtrs, childSrcPtr);
+                u32 itemsToCopy = 0;
+                void* childDstPtr = nullptr;
+                void* childSrcPtr = nullptr;
+                if (dstPtr) {
+                    details::BaseArray* baseArr =
+                        (details::BaseArray*) PLY_PTR_OFFSET(srcPtr, cmd.srcOffset);
+                    // FIXME: Warn if baseArr has too many source elements
+                    itemsToCopy = min<u32>(cmd.dstSize, baseArr->m_numItems);
+                    childDstPtr = PLY_PTR_OFFSET(dstPtr, cmd.dstOffset);
+                    childSrcPtr = baseArr->m_items;
+                }
+                RecipeReader childReader = reader;
+                convert(reader, nullptr, srcPtrs); // Skip to the end of the child scope
+                for (u32 i = 0; i < itemsToCopy; i++) {
+                    RecipeReader itemReader = childReader;
+                    convert(itemReader, childDstPtr, srcPtrs, childSrcPtr);
                     childDstPtr = PLY_PTR_OFFSET(childDstPtr, cmd.dstStride);
                     childSrcPtr = PLY_PTR_OFFSET(childSrcPtr, cmd.srcStride);
-                    if (--itemsToCopy == 0) {
-                        cursor = childCursor;
-                    }
                 }
                 break;
             }
 
             case TypeConverter::Cmd::Copy32: {
-                auto* cmd = safeCast<TypeConverter::BaseCmd>(view);
-                *(u32*) PLY_PTR_OFFSET(dstPtr, cmd->dstOffset) =
-                    *(u32*) PLY_PTR_OFFSET(srcPtr, cmd->srcOffset);
-                view.offsetHead(sizeof(TypeConverter::BaseCmd));
+                auto cmd = reader.read<TypeConverter::BaseCmd>();
+                if (dstPtr) {
+                    *(u32*) PLY_PTR_OFFSET(dstPtr, cmd.dstOffset) =
+                        *(u32*) PLY_PTR_OFFSET(srcPtr, cmd.srcOffset);
+                }
                 break;
             }
 
             case TypeConverter::Cmd::Copy32Range: {
-                auto* cmd = safeCast<TypeConverter::Copy32Range>(view);
-                u32* dst = (u32*) PLY_PTR_OFFSET(dstPtr, cmd->dstOffset);
-                u32* dstEnd = dst + cmd->count;
-                u32* src = (u32*) PLY_PTR_OFFSET(srcPtr, cmd->srcOffset);
-                while (dst < dstEnd) {
-                    *dst++ = *src++;
+                auto cmd = reader.read<TypeConverter::Copy32Range>();
+                if (dstPtr) {
+                    u32* dst = (u32*) PLY_PTR_OFFSET(dstPtr, cmd.dstOffset);
+                    u32* dstEnd = dst + cmd.count;
+                    u32* src = (u32*) PLY_PTR_OFFSET(srcPtr, cmd.srcOffset);
+                    while (dst < dstEnd) {
+                        *dst++ = *src++;
+                    }
                 }
-                view.offsetHead(sizeof(TypeConverter::Copy32Range));
                 break;
             }
 
             case TypeConverter::Cmd::EndScope: {
-                view.offsetHead(sizeof(TypeConverter::Cmd));
+                reader.read<TypeConverter::Cmd>();
                 return;
             }
 
@@ -263,7 +277,8 @@ void convert(BlockList::WeakRef cursor, void* dstPtr, ArrayView<void*> srcPtrs,
 
 void applyConversionRecipe(const BlockList::Footer* recipe, void* dstPtr,
                            ArrayView<void*> srcPtrs) {
-    convert({const_cast<BlockList::Footer*>(recipe), recipe->start()}, dstPtr, srcPtrs);
+    RecipeReader reader{{const_cast<BlockList::Footer*>(recipe), recipe->start()}};
+    convert(reader, dstPtr, srcPtrs);
 }
 
 } // namespace ply
-- 
2.43.0


From c93d7a79ee8b3156140e27f0cf8f47ff4c349700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:11 +0000
Subject: [PATCH 46/92] fix: a failed accept does not crash the web server

---
 .../ply-runtime/network/impl/Socket_POSIX.cpp | 20 +++++++++++++++----
 .../src/web/common/web-common/Server.cpp      |  6 +++++-
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/network/impl/Socket_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/network/impl/Socket_POSIX.cpp
index 86e5f74..2c03ef7 100644
--- a/repos/plywood/src/runtime/ply-runtime/network/impl/Socket_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/network/impl/Socket_POSIX.cpp
@@ -78,10 +78,22 @@ PLY_NO_INLINE Owned<TCPConnection_POSIX> TCPListener_POSIX::accept() {
     socklen_t passedAddrLen = remoteAddrLen;
     int hostSocket = ::accept(this->listenSocket, (struct sockaddr*) &remoteAddr, &remoteAddrLen);
 
-    if (hostSocket <= 0) {
-        // FIXME: Check errno
-        PLY_ASSERT(PLY_IPPOSIX_ALLOW_UNKNOWN_ERRORS);
-        Socket_POSIX::lastResult_.store(IPResult::Unknown);
+    if (hostSocket < 0) {
+        switch (errno) {
+            case EBADF:
+            case EINVAL:
+            case ENOTSOCK:
+            case EOPNOTSUPP: {
+                // Not listening (anymore)
+                Socket_POSIX::lastResult_.store(IPResult::NoSocket);
+                break;
+            }
+            default: {
+                PLY_ASSERT(PLY_IPPOSIX_ALLOW_UNKNOWN_ERRORS); // FIXME: Recognize this code
+                Socket_POSIX::lastResult_.store(IPResult::Unknown);
+                break;
+            }
+        }
         return nullptr;
     }
 
diff --git a/repos/plywood/src/web/common/web-common/Server.cpp b/repos/plywood/src/web/common/web-common/Server.cpp
index 76c38f2..ae35580 100644
--- a/repos/plywood/src/web/common/web-common/Server.cpp
+++ b/repos/plywood/src/web/common/web-common/Server.cpp
@@ -174,7 +174,11 @@ bool runServer(u16 port, const RequestHandler& reqHandler) {
     for (;;) {
         ThreadParams params;
         params.tcpConn = listener.accept();
-        // FIXME: Return if port stopped listening
+        if (!params.tcpConn) {
+            if (Socket::lastResult() == IPResult::NoSocket)
+                break; // Port stopped listening
+            continue;  // This connection failed; wait for the next one
+        }
 
         params.reqHandler = reqHandler;
         // FIXME: Use a thread pool instead of spawning a thread for every request
-- 
2.43.0


From cef9f61f2b9fe5fcbf65817064bd404a8c7633ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:11 +0000
Subject: [PATCH 47/92] fix: WebServer passes its handler's arguments in order

---
 repos/plywood/src/apps/WebServer/WebServer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/apps/WebServer/WebServer.cpp b/repos/plywood/src/apps/WebServer/WebServer.cpp
index 7a96089..9cebb9a 100644
--- a/repos/plywood/src/apps/WebServer/WebServer.cpp
+++ b/repos/plywood/src/apps/WebServer/WebServer.cpp
@@ -121,7 +121,7 @@ int main(int argc, char* argv[]) {
     allParams.fileSys.rootDir = dataRoot;
     allParams.docs.init(dataRoot);
     allParams.sourceCode.rootDir = NativePath::normalize(PLY_WORKSPACE_FOLDER);
-    if (!runServer(port, {&allParams, myRequestHandler})) {
+    if (!runServer(port, {myRequestHandler, &allParams})) {
         exit(1);
     }
     Socket::shutdown();
-- 
2.43.0


From c271b1612777b1c46b2b42e1d78254af22e873bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:37 +0000
Subject: [PATCH 48/92] fix: web handlers never open files outside their root

---
 .../common/web-common/FetchFromFileSystem.cpp | 12 +++++-----
 .../src/web/common/web-common/RequestPath.cpp | 23 +++++++++++++++++++
 .../src/web/common/web-common/RequestPath.h   | 16 +++++++++++++
 .../src/web/common/web-common/SourceCode.cpp  | 12 ++++++----
 .../ply-web-serve-docs/DocServer.cpp          |  9 ++++----
 5 files changed, 57 insertions(+), 15 deletions(-)
 create mode 100644 repos/plywood/src/web/common/web-common/RequestPath.cpp
 create mode 100644 repos/plywood/src/web/common/web-common/RequestPath.h

diff --git a/repos/plywood/src/web/common/web-common/FetchFromFileSystem.cpp b/repos/plywood/src/web/common/web-common/FetchFromFileSystem.cpp
index 6e1c13e..20db5d6 100644
--- a/repos/plywood/src/web/common/web-common/FetchFromFileSystem.cpp
+++ b/repos/plywood/src/web/common/web-common/FetchFromFileSystem.cpp
@@ -4,6 +4,7 @@
 ------------------------------------*/
 #include <web-common/Core.h>
 #include <web-common/FetchFromFileSystem.h>
+#include <web-common/RequestPath.h>
 
 namespace ply {
 namespace web {
@@ -34,23 +35,22 @@ PLY_NO_INLINE void FetchFromFileSystem::serve(const FetchFromFileSystem* params,
         requestPath = requestPath.subStr(0, getPos);
     }
 
-    String filename = NativePath::split(requestPath).second;
-    s32 dotPos = filename.findByte('.');
-    if (dotPos <= 0) {
+    String relPath = normalizeRequestPath(requestPath);
+    StringView extension = NativePath::splitExt(relPath).second;
+    if (!extension) {
         // no file extension
         responseIface->respondGeneric(ResponseCode::NotFound);
         return;
     }
 
-    auto cursor = params->extensionToContentType.find(filename.subStr(dotPos));
+    auto cursor = params->extensionToContentType.find(extension);
     if (!cursor.wasFound()) {
         // unrecognized file extension
         responseIface->respondGeneric(ResponseCode::NotFound);
         return;
     }
 
-    String nativePath =
-        NativePath::join(params->rootDir, requestPath.ltrim([](char c) { return c == '/'; }));
+    String nativePath = NativePath::join(params->rootDir, relPath);
 
     // FIXME: Don't load the whole file completely in memory first.
     // Could open the raw pipe and feed it to outs.
diff --git a/repos/plywood/src/web/common/web-common/RequestPath.cpp b/repos/plywood/src/web/common/web-common/RequestPath.cpp
new file mode 100644
index 0000000..3f5e401
--- /dev/null
+++ b/repos/plywood/src/web/common/web-common/RequestPath.cpp
@@ -0,0 +1,23 @@
+/*------------------------------------
+  ///\  Plywood C++ Framework
+  \\\/  https://plywood.arc80.com/
+------------------------------------*/
+#include <web-common/Core.h>
+#include <web-common/RequestPath.h>
+
+namespace ply {
+namespace web {
+
+PLY_NO_INLINE String normalizeRequestPath(StringView requestPath) {
+    if (requestPath.findByte('\0') >= 0)
+        return {}; // The operating system would stop there
+    String path = NativePath::normalize(requestPath.ltrim(NativePath::isSepByte));
+    if (NativePath::isAbsolute(path))
+        return {};
+    if (path.startsWith("..") && (path.numBytes == 2 || NativePath::isSepByte(path[2])))
+        return {};
+    return path;
+}
+
+} // namespace web
+} // namespace ply
diff --git a/repos/plywood/src/web/common/web-common/RequestPath.h b/repos/plywood/src/web/common/web-common/RequestPath.h
new file mode 100644
index 0000000..b6fbdb3
--- /dev/null
+++ b/repos/plywood/src/web/common/web-common/RequestPath.h
@@ -0,0 +1,16 @@
+/*------------------------------------
+  ///\  Plywood C++ Framework
+  \\\/  https://plywood.arc80.com/
+------------------------------------*/
+#pragma once
+#include <web-common/Core.h>
+
+namespace ply {
+namespace web {
+
+// Normalizes a path received in a request, to be joined to a root directory. Returns an empty
+// string if the path could name something outside that directory.
+PLY_NO_INLINE String normalizeRequestPath(StringView requestPath);
+
+} // namespace web
+} // namespace ply
diff --git a/repos/plywood/src/web/common/web-common/SourceCode.cpp b/repos/plywood/src/web/common/web-common/SourceCode.cpp
index ad2c2a0..02f2a88 100644
--- a/repos/plywood/src/web/common/web-common/SourceCode.cpp
+++ b/repos/plywood/src/web/common/web-common/SourceCode.cpp
@@ -4,6 +4,7 @@
 ------------------------------------*/
 #include <web-common/Core.h>
 #include <web-common/SourceCode.h>
+#include <web-common/RequestPath.h>
 
 namespace ply {
 namespace web {
@@ -12,11 +13,12 @@ PLY_NO_INLINE void SourceCode::serve(const SourceCode* params, StringView reques
                                      ResponseIface* responseIface) {
     // FIXME: Use FileSystem_Virtual and make really, really sure an adversary can't read files
     // outside the rootDir
-    String normRequestPath = NativePath::normalize(requestPath.ltrim(NativePath::isSepByte));
-    Owned<InStream> ins =
-        FileSystem::native()
-            ->openTextForReadAutodetect(NativePath::join(params->rootDir, normRequestPath))
-            .first;
+    String normRequestPath = normalizeRequestPath(requestPath);
+    String nativePath = NativePath::join(params->rootDir, normRequestPath);
+    Owned<InStream> ins;
+    if (normRequestPath && FileSystem::native()->exists(nativePath) == ExistsResult::File) {
+        ins = FileSystem::native()->openTextForReadAutodetect(nativePath).first;
+    }
     if (!ins) {
         // file could not be loaded
         responseIface->respondGeneric(ResponseCode::NotFound);
diff --git a/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp b/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
index 4889afc..f4fe6d4 100644
--- a/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
+++ b/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
@@ -4,6 +4,7 @@
 ------------------------------------*/
 #include <ply-web-serve-docs/Core.h>
 #include <ply-web-serve-docs/DocServer.h>
+#include <web-common/RequestPath.h>
 #include <pylon/Parse.h>
 #include <pylon-reflect/Import.h>
 
@@ -103,19 +104,19 @@ void DocServer::reloadContents() {
 
 String getPageSource(DocServer* ds, StringView requestPath, ResponseIface* responseIface) {
     FileSystem* fs = FileSystem::native();
-    if (NativePath::isAbsolute(requestPath)) {
+    String relPath = normalizeRequestPath(requestPath);
+    if (NativePath::isAbsolute(requestPath) || !relPath) {
         responseIface->respondGeneric(ResponseCode::NotFound);
         return {};
     }
-    String absPath = NativePath::join(ds->dataRoot, "pages", requestPath);
+    String absPath = NativePath::join(ds->dataRoot, "pages", relPath);
     ExistsResult exists = FileSystem::native()->exists(absPath);
     if (exists == ExistsResult::Directory) {
         absPath = NativePath::join(absPath, "index.html");
     } else {
         absPath += ".html";
     }
-    String pageHtml =
-        fs->loadText(NativePath::join(ds->dataRoot, "pages", absPath), TextFormat::unixUTF8());
+    String pageHtml = fs->loadText(absPath, TextFormat::unixUTF8());
     if (!pageHtml) {
         responseIface->respondGeneric(ResponseCode::NotFound);
         return {};
-- 
2.43.0


From 19a80b9ceeb50ecba775488b3383f73956f726d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:37 +0000
Subject: [PATCH 49/92] fix: DocServer formats its contents while holding the
 lock

---
 .../ply-web-serve-docs/DocServer.cpp          | 42 +++++++++++--------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp b/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
index f4fe6d4..ed37a60 100644
--- a/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
+++ b/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
@@ -140,21 +140,14 @@ void DocServer::serve(StringView requestPath, ResponseIface* responseIface) {
         }
     }
 
-    if (!this->contents) {
-        responseIface->respondGeneric(ResponseCode::InternalError);
-        return;
-    }
-
-    // Load page
-    String pageHtml = getPageSource(this, requestPath, responseIface);
-    if (!pageHtml)
-        return;
-    ViewInStream vins{pageHtml};
-    String pageTitle = vins.readView<fmt::Line>().trim(isWhite);
-
-    // Figure out which TOC entries to expand
-    Array<const Contents*> expandTo;
+    // Format the table of contents. This is done while holding the lock because another thread may
+    // reload the contents at any time.
+    String contentsHtml;
     {
+        ply::LockGuard<ply::Mutex> guard{this->contentsMutex};
+
+        // Figure out which TOC entries to expand
+        Array<const Contents*> expandTo;
         auto cursor = this->pathToContents.find(
             requestPath ? (StringView{"/docs/"} + requestPath).view() : StringView{"/"});
         if (cursor.wasFound()) {
@@ -164,8 +157,25 @@ void DocServer::serve(StringView requestPath, ResponseIface* responseIface) {
                 node = node->parent;
             }
         }
+
+        MemOutStream mout;
+        for (const Contents* node : this->contents) {
+            dumpContents(&mout, node, expandTo);
+        }
+        contentsHtml = mout.moveToString();
+    }
+    if (!contentsHtml) {
+        responseIface->respondGeneric(ResponseCode::InternalError);
+        return;
     }
 
+    // Load page
+    String pageHtml = getPageSource(this, requestPath, responseIface);
+    if (!pageHtml)
+        return;
+    ViewInStream vins{pageHtml};
+    String pageTitle = vins.readView<fmt::Line>().trim(isWhite);
+
     OutStream* outs = responseIface->beginResponseHeader(ResponseCode::OK);
     *outs << "Content-Type: text/html; charset=utf-8\r\n\r\n";
     responseIface->endResponseHeader();
@@ -201,9 +211,7 @@ void DocServer::serve(StringView requestPath, ResponseIface* responseIface) {
       <div class="inner">
         <ul>
 )#";
-    for (const Contents* node : this->contents) {
-        dumpContents(outs, node, expandTo);
-    }
+    *outs << contentsHtml;
     outs->format(R"(
         </ul>
       </div>
-- 
2.43.0


From c88476f8f5f0714b1d10dc916e99f66d652fd8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:56 +0000
Subject: [PATCH 50/92] fix: Markdown: empty headings and items, carriage
 returns, nested and loose lists

---
 .../markdown/web-markdown/ConvertToHTML.cpp   |  5 +-
 .../markdown/web-markdown/ParseMarkdown.cpp   | 99 +++++++++++--------
 2 files changed, 60 insertions(+), 44 deletions(-)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ConvertToHTML.cpp b/repos/plywood/src/web/markdown/web-markdown/ConvertToHTML.cpp
index 5e55085..b6ca7fd 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ConvertToHTML.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ConvertToHTML.cpp
@@ -39,8 +39,9 @@ void convertToHTML(OutStream* outs, const Node* node, const HTMLOptions& options
         }
         case Node::ListItem: {
             *outs << "<li>";
-            if (!node->parent->isLoose && node->children[0]->type == Node::Paragraph) {
-                // Don't output a newline before the paragraph in a tight list.
+            if (node->children.isEmpty() ||
+                (!node->parent->isLoose && node->children[0]->type == Node::Paragraph)) {
+                // Don't output a newline in an empty item or before the paragraph in a tight list.
             } else {
                 *outs << "\n";
             }
diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index 327956e..11194e7 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -89,6 +89,30 @@ struct Parser {
     // bit. Sticking with this approach for now.)
     bool checkListContinuations = false;
 
+    // Called before adding a child to the innermost container block. If it's a ListItem and there
+    // were blank lines since its last child, the List is loose.
+    void aboutToAddBlock() {
+        Node* container = this->blockNodes.back();
+        if (container->type == Node::ListItem && !container->children.isEmpty() &&
+            container->parent->isLooseIfContinued) {
+            container->parent->isLoose = true;
+        }
+    }
+
+    // Called after each line that isn't blank. Lists that were not marked loose because of it will
+    // only be marked loose if there are more blank lines.
+    void clearListContinuations() {
+        if (this->checkListContinuations) {
+            for (Node* node : this->blockNodes) {
+                if (node->type == Node::ListItem) {
+                    PLY_ASSERT(node->parent->type == Node::List);
+                    node->parent->isLooseIfContinued = false;
+                }
+            }
+            this->checkListContinuations = false;
+        }
+    }
+
     // This is called at the start of each line. It figures out which of the existing elements we
     // are still inside by consuming indentation and blockquote '>' markers that match the current
     // element stack, then truncates any unmatched BlockQuote nodes from the stack. (Unmatched
@@ -166,16 +190,15 @@ struct Parser {
                 } else {
                     this->numBlankLinesInCodeBlock++;
                 }
-            } else {
-                // There's no leaf node and the remainder of the line is blank.
-                // Walk the stack and set the "isLooseIfContinued" flag on all Lists.
-                for (Node* node : this->blockNodes) {
-                    if (node->type == Node::ListItem) {
-                        PLY_ASSERT(node->parent->type == Node::List);
-                        if (!node->parent->isLoose) {
-                            node->parent->isLooseIfContinued = true;
-                            this->checkListContinuations = true;
-                        }
+            }
+            // The remainder of the line is blank.
+            // Walk the stack and set the "isLooseIfContinued" flag on all Lists.
+            for (Node* node : this->blockNodes) {
+                if (node->type == Node::ListItem) {
+                    PLY_ASSERT(node->parent->type == Node::List);
+                    if (!node->parent->isLoose) {
+                        node->parent->isLooseIfContinued = true;
+                        this->checkListContinuations = true;
                     }
                 }
             }
@@ -204,9 +227,10 @@ struct Parser {
 
             auto savePoint = lc.vins.savePoint();
             u32 savedIndent = lc.indent;
+            bool inParagraph = this->leafNode && this->leafNode->type == Node::Paragraph;
 
             // This code block will handle any list markers encountered:
-            auto gotListMarker = [&](s32 markerNumber, char punc) {
+            auto gotListMarker = [&](s32 markerNumber, char punc, u32 contentIndent) {
                 bool isOrdered = (markerNumber >= 0);
                 this->leafNode = nullptr;
                 this->numBlankLinesInCodeBlock = 0;
@@ -220,27 +244,31 @@ struct Parser {
                         potentialParent->listPunc == punc) {
                         // Add item to existing list
                         listNode = potentialParent;
+                        if (listNode->isLooseIfContinued) {
+                            listNode->isLoose = true;
+                        }
                     }
-                } else if (parentCtr->type == Node::ListItem) {
-                    // Begin new list as a sublist of existing list
-                    parentCtr = parentCtr->parent;
-                    PLY_ASSERT(parentCtr->type == Node::List);
                 }
                 if (!listNode) {
                     // Begin new list
+                    this->aboutToAddBlock();
                     listNode = new Node{parentCtr, Node::List};
                     listNode->listStartNumber = markerNumber;
                     listNode->listPunc = punc;
                 }
                 Node* listItem = new Node{listNode, Node::ListItem};
-                listItem->indentOrLevel = lc.outerIndent;
+                // Relative to the enclosing element, as expected by matchExistingIndentation:
+                listItem->indentOrLevel = contentIndent - lc.outerIndent;
+                lc.outerIndent = contentIndent;
                 this->blockNodes.append(listItem);
             };
 
             char c = *lc.vins.curByte;
-            PLY_ASSERT(!isWhite(c));
             if (c == '>') {
                 // Begin a new blockquote
+                this->leafNode = nullptr;
+                this->numBlankLinesInCodeBlock = 0;
+                this->aboutToAddBlock();
                 this->blockNodes.append(new Node{this->blockNodes.back(), Node::BlockQuote});
                 // Consume optional space after '>'
                 lc.vins.advanceByte();
@@ -255,17 +283,16 @@ struct Parser {
                 u32 indentAfterStar = lc.indent;
                 if (!lc.consumeSpaceOrTab())
                     goto notMarker;
-                if (this->leafNode && lc.trimmedRemainder().isEmpty()) {
+                if (inParagraph && lc.trimmedRemainder().isEmpty()) {
                     // If the list item interrupts a paragraph, it must not begin with a blank line.
                     goto notMarker;
                 }
 
                 // It's an unordered list item.
-                lc.outerIndent = indentAfterStar + 1;
-                gotListMarker(-1, c);
+                gotListMarker(-1, c, indentAfterStar + 1);
             } else if (isDecimalDigit(c)) {
                 u64 num = lc.vins.parse<u64>();
-                if (this->leafNode && num != 1) {
+                if (inParagraph && num != 1) {
                     // If list item interrupts a paragraph, the start number must be 1.
                     goto notMarker;
                 }
@@ -285,15 +312,14 @@ struct Parser {
                 u32 indentAfterMarker = lc.indent;
                 if (!lc.consumeSpaceOrTab())
                     goto notMarker;
-                if (this->leafNode && lc.trimmedRemainder().isEmpty()) {
+                if (inParagraph && lc.trimmedRemainder().isEmpty()) {
                     // If the list item interrupts a paragraph, it must not begin with a blank line.
                     goto notMarker;
                 }
 
                 // It's an ordered list item.
                 // 32-bit demotion is safe because we know the marker is 9 digits or less:
-                lc.outerIndent = indentAfterMarker + 1;
-                gotListMarker(safeDemote<s32>(num), punc);
+                gotListMarker(safeDemote<s32>(num), punc, indentAfterMarker + 1);
             } else {
                 goto notMarker;
             }
@@ -313,9 +339,11 @@ struct Parser {
     PLY_NO_INLINE void parseParagraphText(StringView line, LineConsumer& lc) {
         StringView remainingText = lc.trimmedRemainder();
         bool hasPara = this->leafNode && this->leafNode->type == Node::Paragraph;
+
         if (!hasPara && lc.innerIndent() >= 4) {
             // Potentially begin or append to code Node
             if (remainingText && !this->leafNode) {
+                this->aboutToAddBlock();
                 this->leafNode = new Node{this->blockNodes.back(), Node::CodeBlock};
                 PLY_ASSERT(this->numBlankLinesInCodeBlock == 0);
             }
@@ -332,23 +360,6 @@ struct Parser {
         } else {
             if (remainingText) {
                 // We're going to create or extend a leaf node.
-                // First, check if any Lists should be marked loose:
-                if (this->checkListContinuations) {
-                    // Yes, we should mark some (possibly zero) lists loose. It's impossible for a
-                    // leaf node to exist at this point:
-                    PLY_ASSERT(!this->leafNode);
-                    for (Node* node : this->blockNodes) {
-                        if (node->type == Node::ListItem) {
-                            PLY_ASSERT(node->parent->type == Node::List);
-                            if (node->parent->isLooseIfContinued) {
-                                node->parent->isLoose = true;
-                                node->parent->isLooseIfContinued = false;
-                            }
-                        }
-                    }
-                    this->checkListContinuations = false;
-                }
-
                 if (*lc.vins.curByte == '#' && lc.innerIndent() <= 3) {
                     // Attempt to parse a heading
                     auto savePoint = lc.vins.savePoint();
@@ -358,12 +369,14 @@ struct Parser {
                     if (poundSeq.numBytes <= 6 &&
                         (!space.isEmpty() || lc.vins.numBytesAvailable() == 0)) {
                         // Got a heading
+                        this->aboutToAddBlock();
                         Node* headingNode = new Node{this->blockNodes.back(), Node::Heading};
                         headingNode->indentOrLevel = poundSeq.numBytes;
                         if (StringView remainingText = lc.trimmedRemainder()) {
                             headingNode->rawLines.append(remainingText);
                         }
                         this->leafNode = nullptr;
+                        this->numBlankLinesInCodeBlock = 0;
                         return;
                     }
                     lc.vins.restore(savePoint);
@@ -371,6 +384,7 @@ struct Parser {
                 // If this->leafNode already exists, it's a lazy paragraph continuation
                 if (!hasPara) {
                     // Begin new paragraph
+                    this->aboutToAddBlock();
                     this->leafNode = new Node{this->blockNodes.back(), Node::Paragraph};
                     this->numBlankLinesInCodeBlock = 0;
                 }
@@ -397,6 +411,7 @@ struct Parser {
 
             parseNewMarkers(lc);
             parseParagraphText(line, lc);
+            clearListContinuations();
         }
 
         return document;
@@ -771,7 +786,7 @@ static PLY_NO_INLINE void doInlines(Node* node) {
         }
     } else {
         PLY_ASSERT(node->isLeafBlock());
-        if (node->type != Node::CodeBlock) {
+        if (node->type != Node::CodeBlock && !node->rawLines.isEmpty()) {
             node->addChildren(expandInlineElements(node->rawLines));
             node->rawLines.clear();
         }
-- 
2.43.0


From 27269cafcd08e27707abfcd6a8ba561acb003bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:56 +0000
Subject: [PATCH 51/92] fix: Markdown: emphasis inside words, escapes in link
 destinations, links in links

---
 .../markdown/web-markdown/ParseMarkdown.cpp   | 23 +++++++++++++++----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index 11194e7..ffd0c53 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -528,6 +528,11 @@ struct Delimiter {
         result.rightFlanking =
             !precededByWhite &&
             (!precededByPunc || (precededByPunc && (followedByWhite || followedByPunc)));
+        if (type == Underscores && result.leftFlanking && result.rightFlanking) {
+            // Underscores inside words don't begin or end emphasis
+            result.leftFlanking = precededByPunc;
+            result.rightFlanking = followedByPunc;
+        }
         return result;
     }
 };
@@ -562,10 +567,12 @@ Tuple<bool, String> parseLinkDestination(InlineConsumer& ic) {
                 break;
             }
             c = ic.rawLine[ic.i];
-            if (!isAscPunc(c)) {
+            if (isAscPunc(c)) {
+                ic.i++;
+                mout << c;
+            } else {
                 mout << '\\';
             }
-            mout << c;
         } else if (c == '(') {
             ic.i++;
             mout << c;
@@ -652,12 +659,12 @@ Array<Owned<Node>> processEmphasis(Array<Delimiter>& delimiters, u32 bottomPos)
                     delimiters.insert(j) = std::move(elem);
                     pos = j;
                     starOpener = min(starOpener, pos + 1);
-                    underscoreOpener = min(starOpener, pos + 1);
+                    underscoreOpener = min(underscoreOpener, pos + 1);
                     return;
                 }
             }
-            // None found
-            openerPos = pos + 1;
+            // None found before pos. (The delimiter at pos itself may still be an opener.)
+            openerPos = pos;
         };
         if (delimiters[pos].type == Delimiter::Stars && delimiters[pos].rightFlanking) {
             handleCloser(Delimiter::Stars, starOpener);
@@ -769,6 +776,12 @@ Array<Owned<Node>> expandInlineElements(ArrayView<const String> rawLines) {
             elem->addChildren(processEmphasis(delimiters, openLink + 1));
             delimiters.resize(openLink);
             delimiters.append(std::move(elem));
+            // Links can't contain other links
+            for (Delimiter& delim : delimiters) {
+                if (delim.type == Delimiter::OpenLink) {
+                    delim.type = Delimiter::RawText;
+                }
+            }
             flushedIndex = ic.i;
         } else {
             ic.i++;
-- 
2.43.0


From 5510effeb4298a32d45a97e2254a316ca7d8be5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:54 +0000
Subject: [PATCH 52/92] fix: a shared root target does not contain the roots
 that follow it

---
 .../src/build/repo/ply-build-repo/ProjectInstantiator.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/repos/plywood/src/build/repo/ply-build-repo/ProjectInstantiator.cpp b/repos/plywood/src/build/repo/ply-build-repo/ProjectInstantiator.cpp
index be40e98..bb15554 100644
--- a/repos/plywood/src/build/repo/ply-build-repo/ProjectInstantiator.cpp
+++ b/repos/plywood/src/build/repo/ply-build-repo/ProjectInstantiator.cpp
@@ -20,7 +20,7 @@ Dependency* ProjectInstantiator::instantiate(const DependencySource* depSrc, boo
         Dependency* dep = this->result->dependencies[*depCursor].dep;
         if (dep && !dep->initialized) {
             instantiatorError(
-                String::format("Loop detected for '{}'",
+                String::format("Loop detected for {} '{}'",
                                depSrc->type == DependencySource::Extern ? "extern" : "target",
                                RepoRegistry::get()->getShortDepSourceName(depSrc)));
             return nullptr;
@@ -58,9 +58,7 @@ Dependency* ProjectInstantiator::instantiate(const DependencySource* depSrc, boo
         // There could be clashes when multiple repos are used.
         buildTarget->name = depSrc->name;
         this->result->dependencies.append(depSrc, dep);
-        if (isSharedRoot) {
-            this->sharedContainer = buildTarget;
-        }
+        PLY_SET_IN_SCOPE(this->sharedContainer, isSharedRoot ? buildTarget : this->sharedContainer);
         buildTarget->sharedContainer = this->sharedContainer;
 
         ModuleArgs args;
@@ -179,7 +177,7 @@ void writeCMakeLists(OutStream* outs, StringView solutionName, StringView buildF
     cbf.absPath = buildFolderPath;
     cbf.forBootstrap = forBootstrap;
     for (const auto& depEntry : instResult->dependencies) {
-        if (depEntry.dep->buildTarget) {
+        if (depEntry.dep && depEntry.dep->buildTarget) {
             cbf.targets.append(depEntry.dep);
         }
     }
-- 
2.43.0


From 0087c0d9e10dbae748f1638850909f8e7b23348e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:54 +0000
Subject: [PATCH 53/92] fix: names of modules, externs and providers: extra and
 missing components, fully qualified providers

---
 .../src/build/repo/ply-build-repo/ModuleArgs.cpp    |  5 +++++
 .../src/build/repo/ply-build-repo/RepoRegistry.cpp  | 13 +++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/build/repo/ply-build-repo/ModuleArgs.cpp b/repos/plywood/src/build/repo/ply-build-repo/ModuleArgs.cpp
index e5bdf03..389dbbc 100644
--- a/repos/plywood/src/build/repo/ply-build-repo/ModuleArgs.cpp
+++ b/repos/plywood/src/build/repo/ply-build-repo/ModuleArgs.cpp
@@ -102,6 +102,11 @@ PLY_NO_INLINE void ModuleArgs::addTarget(Visibility visibility, StringView targe
     }
 
     PLY_ASSERT(targetInst);
+    if (!comps.isEmpty()) {
+        ErrorHandler::log(ErrorHandler::Error,
+                          String::format("Too many components in target name '{}'\n", targetName));
+        return;
+    }
     addDependency(this, targetInst, visibility);
 }
 
diff --git a/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp b/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
index 82036c7..ab462f9 100644
--- a/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
+++ b/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
@@ -242,7 +242,7 @@ PLY_NO_INLINE const DependencySource* findExternInternal(const RepoRegistry* rep
         const DependencySource* extern_ = (*repoCursor)->findExternImm(externName);
         if (!extern_) {
             ErrorHandler::log(ErrorHandler::Error,
-                              String::format("Can't find extern '{}' in repo '{}'\n", externName[1],
+                              String::format("Can't find extern '{}' in repo '{}'\n", externName,
                                              (*repoCursor)->repoName));
             return nullptr;
         }
@@ -290,6 +290,7 @@ PLY_NO_INLINE const DependencySource* RepoRegistry::findExtern(StringView extern
     if (!comps.isEmpty()) {
         ErrorHandler::log(ErrorHandler::Error,
                           String::format("Too many components in extern name '{}'\n", externName));
+        return nullptr;
     }
     return extern_;
 }
@@ -309,6 +310,7 @@ RepoRegistry::getExternProvider(StringView qualifiedName) const {
         ErrorHandler::log(
             ErrorHandler::Error,
             String::format("Not enough components in extern provider name '{}'\n", qualifiedName));
+        return nullptr;
     }
     auto repoCursor = this->repos.find(comps[0]);
     if (repoCursor.wasFound()) {
@@ -346,12 +348,19 @@ RepoRegistry::getExternProvider(StringView qualifiedName) const {
         }
         const ExternProvider* provider = nullptr;
         bool conflict = false;
+        // If the extern name has a repo prefix, the provider defined in that repo takes precedence.
+        // That's what ExternProvider::getFullyQualifiedName() relies on.
+        bool hasRepoPrefix = compsOwner.numItems() - comps.numItems > 1;
         for (const Repo* repo : this->repos) {
             s32 j = find(repo->externProviders, [&](const ExternProvider* p) {
                 return p->extern_ == extern_ && p->providerName == comps[0];
             });
             if (j >= 0) {
-                if (provider) {
+                if (hasRepoPrefix && repo == extern_->repo) {
+                    provider = repo->externProviders[j];
+                    conflict = false;
+                    break;
+                } else if (provider) {
                     conflict = true;
                 } else {
                     provider = repo->externProviders[j];
-- 
2.43.0


From e81676c3a59bb7eb2e3ccde883994ef4b7925896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:54 +0000
Subject: [PATCH 54/92] fix: the build system signature depends on the
 boundaries between strings and lists

---
 .../folder/ply-build-folder/BuildFolder.cpp   | 27 ++++++++++++-------
 .../target/ply-build-target/CMakeLists.h      | 10 ++++---
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/repos/plywood/src/build/folder/ply-build-folder/BuildFolder.cpp b/repos/plywood/src/build/folder/ply-build-folder/BuildFolder.cpp
index 8cb4c6e..2abb8a3 100644
--- a/repos/plywood/src/build/folder/ply-build-folder/BuildFolder.cpp
+++ b/repos/plywood/src/build/folder/ply-build-folder/BuildFolder.cpp
@@ -216,21 +216,28 @@ PLY_NO_INLINE DependencyTree BuildFolder::buildDepTree() const {
     return depTree;
 }
 
+// Lengths are appended too, so that the boundaries between strings and lists are significant
+static void appendString(Hash128& h, StringView str) {
+    h.append({(const char*) &str.numBytes, sizeof(str.numBytes)});
+    h.append(str);
+}
+
+static void appendStrings(Hash128& h, ArrayView<const String> strs) {
+    h.append({(const char*) &strs.numItems, sizeof(strs.numItems)});
+    for (StringView str : strs) {
+        appendString(h, str);
+    }
+}
+
 PLY_NO_INLINE u128 BuildFolder::currentBuildSystemSignature() const {
     Hash128 h;
     u128 mds = RepoRegistry::get()->moduleDefSignature;
     h.append({(const char*) &mds, sizeof(mds)});
-    h.append(this->solutionName);
+    appendString(h, this->solutionName);
     this->cmakeOptions.appendTo(h);
-    for (StringView rt : this->rootTargets) {
-        h.append(rt);
-    }
-    for (StringView ms : this->makeShared) {
-        h.append(ms);
-    }
-    for (StringView es : this->externSelectors) {
-        h.append(es);
-    }
+    appendStrings(h, this->rootTargets);
+    appendStrings(h, this->makeShared);
+    appendStrings(h, this->externSelectors);
     return h.get();
 }
 
diff --git a/repos/plywood/src/build/target/ply-build-target/CMakeLists.h b/repos/plywood/src/build/target/ply-build-target/CMakeLists.h
index fa5e294..5e2ebb4 100644
--- a/repos/plywood/src/build/target/ply-build-target/CMakeLists.h
+++ b/repos/plywood/src/build/target/ply-build-target/CMakeLists.h
@@ -21,10 +21,12 @@ struct CMakeGeneratorOptions {
 
     template <typename Hasher>
     void appendTo(Hasher& h) const {
-        h.append(this->generator);
-        h.append(this->platform);
-        h.append(this->toolset);
-        h.append(this->toolchainFile);
+        for (const String* option :
+             {&this->generator, &this->platform, &this->toolset, &this->toolchainFile}) {
+            // Append the length too, so that the boundaries between strings are significant
+            h.append({(const char*) &option->numBytes, sizeof(option->numBytes)});
+            h.append(*option);
+        }
     }
 };
 
-- 
2.43.0


From 0c51131446195c8d9dc821715b3af448a515c524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:54 +0000
Subject: [PATCH 55/92] fix: getTargetOutputPath supports static libraries

---
 repos/plywood/src/build/target/ply-build-target/CMakeLists.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/build/target/ply-build-target/CMakeLists.cpp b/repos/plywood/src/build/target/ply-build-target/CMakeLists.cpp
index 03083fc..ad6016f 100644
--- a/repos/plywood/src/build/target/ply-build-target/CMakeLists.cpp
+++ b/repos/plywood/src/build/target/ply-build-target/CMakeLists.cpp
@@ -395,7 +395,7 @@ String getTargetOutputPath(BuildTargetType targetType, StringView targetName,
         filePrefix = "lib";
         fileExtension = ".so";
 #endif
-    } else if (targetType == BuildTargetType::DLL) {
+    } else if (targetType == BuildTargetType::Lib) {
 #if PLY_TARGET_WIN32
         fileExtension = ".lib";
 #else
-- 
2.43.0


From 16569df4cfc1b33a0ee514634dd2dcc1c56bf0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:03 +0000
Subject: [PATCH 56/92] fix: Limits of signed char; countSetBits ends for
 negative values

---
 repos/plywood/src/platform/ply-platform/Core.h | 1 +
 repos/plywood/src/platform/ply-platform/Util.h | 7 ++++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/repos/plywood/src/platform/ply-platform/Core.h b/repos/plywood/src/platform/ply-platform/Core.h
index 27cce82..b6cff51 100644
--- a/repos/plywood/src/platform/ply-platform/Core.h
+++ b/repos/plywood/src/platform/ply-platform/Core.h
@@ -62,6 +62,7 @@ template <> struct Limits<type> { \
     static constexpr type Max = hi; \
 };
 PLY_MAKE_LIMITS(char, SCHAR_MIN, SCHAR_MAX)
+PLY_MAKE_LIMITS(signed char, SCHAR_MIN, SCHAR_MAX)
 PLY_MAKE_LIMITS(short, SHRT_MIN, SHRT_MAX)
 PLY_MAKE_LIMITS(int, INT_MIN, INT_MAX)
 PLY_MAKE_LIMITS(long, LONG_MIN, LONG_MAX)
diff --git a/repos/plywood/src/platform/ply-platform/Util.h b/repos/plywood/src/platform/ply-platform/Util.h
index 1f05971..a93de2f 100644
--- a/repos/plywood/src/platform/ply-platform/Util.h
+++ b/repos/plywood/src/platform/ply-platform/Util.h
@@ -66,10 +66,11 @@ PLY_INLINE std::enable_if_t<std::is_integral<I>::value && sizeof(I) <= 4, I> rou
 
 template <typename I>
 PLY_INLINE std::enable_if_t<std::is_integral<I>::value, u32> countSetBits(I mask) {
+    std::make_unsigned_t<I> bits = mask;
     u32 count = 0;
-    while (mask) {
-        count += (mask & 1);
-        mask >>= 1;
+    while (bits) {
+        count += (bits & 1);
+        bits >>= 1;
     }
     return count;
 }
-- 
2.43.0


From c384dce95a1e53ca4e0c6dc3921a9489be567a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:03 +0000
Subject: [PATCH 57/92] fix: math: integer vectors of small types, boxes,
 translations, projections

---
 .../src/math/math/ply-math/AxisVector.h       |  2 +-
 repos/plywood/src/math/math/ply-math/Box.h    | 10 +++----
 repos/plywood/src/math/math/ply-math/Extra.h  |  2 +-
 .../src/math/math/ply-math/IntVector.h        | 30 +++++++++----------
 .../plywood/src/math/math/ply-math/Matrix.cpp |  2 +-
 repos/plywood/src/math/math/ply-math/Matrix.h |  2 +-
 .../plywood/src/math/math/ply-math/QuatPos.h  |  2 +-
 7 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/repos/plywood/src/math/math/ply-math/AxisVector.h b/repos/plywood/src/math/math/ply-math/AxisVector.h
index f4cb51a..9d8de94 100644
--- a/repos/plywood/src/math/math/ply-math/AxisVector.h
+++ b/repos/plywood/src/math/math/ply-math/AxisVector.h
@@ -299,7 +299,7 @@ struct AxisRotPos {
     }
 
     Float4x4 toFloat4x4() const {
-        return Float4x4{rot.toFloat3x3()};
+        return Float4x4{rot.toFloat3x3(), pos};
     }
 };
 
diff --git a/repos/plywood/src/math/math/ply-math/Box.h b/repos/plywood/src/math/math/ply-math/Box.h
index cfacd94..3cae688 100644
--- a/repos/plywood/src/math/math/ply-math/Box.h
+++ b/repos/plywood/src/math/math/ply-math/Box.h
@@ -76,8 +76,8 @@ struct Box {
         return *this * (T(1) / arg);
     }
 
-    Box& operator/=(const V& arg) {
-        return *this *= (T(1) / arg);
+    void operator/=(const V& arg) {
+        *this *= (T(1) / arg);
     }
 
     // ==
@@ -125,7 +125,7 @@ struct Box {
     }
 
     V mid() const {
-        return (mins + maxs) * 0.5f;
+        return (mins + maxs) / T(2);
     }
 
     Box mix(const Box& arg) const {
@@ -137,7 +137,7 @@ struct Box {
     }
 
     V clamp(const V& arg) const {
-        return clamp(arg, mins, maxs);
+        return max(mins, min(arg, maxs));
     }
 
     V topLeft() const {
@@ -170,7 +170,7 @@ struct Box {
     }
 
     static Box full() {
-        return {V{Limits<T>::Min}, V{Limits<T>::Min}};
+        return {V{Limits<T>::Min}, V{Limits<T>::Max}};
     }
 };
 
diff --git a/repos/plywood/src/math/math/ply-math/Extra.h b/repos/plywood/src/math/math/ply-math/Extra.h
index ae0bb74..62a4fe7 100644
--- a/repos/plywood/src/math/math/ply-math/Extra.h
+++ b/repos/plywood/src/math/math/ply-math/Extra.h
@@ -65,7 +65,7 @@ T approach(const T& from, const T& to, decltype(T::x) step) {
 
 template <class V>
 V clampLength(const V& vec, float maxLen) {
-    typename V::T length = vec.length();
+    float length = vec.length();
     return (length <= maxLen) ? vec : vec * (maxLen / length);
 }
 
diff --git a/repos/plywood/src/math/math/ply-math/IntVector.h b/repos/plywood/src/math/math/ply-math/IntVector.h
index 694816f..b7c5b45 100644
--- a/repos/plywood/src/math/math/ply-math/IntVector.h
+++ b/repos/plywood/src/math/math/ply-math/IntVector.h
@@ -71,7 +71,7 @@ struct Int2 {
     }
 
     Int2 operator-() const {
-        return Int2{-x, -y};
+        return Int2{T(-x), T(-y)};
     }
 
     Int2 operator+(T arg) const {
@@ -101,7 +101,7 @@ struct Int2 {
     }
 
     Int2 operator*(T arg) const {
-        return Int2{x * arg, y * arg};
+        return Int2{T(x * arg), T(y * arg)};
     }
 
     void operator*=(T arg) {
@@ -110,7 +110,7 @@ struct Int2 {
     }
 
     Int2 operator*(const Int2& arg) const {
-        return Int2{x * arg.x, y * arg.y};
+        return Int2{T(x * arg.x), T(y * arg.y)};
     }
 
     void operator*=(const Int2& arg) {
@@ -119,7 +119,7 @@ struct Int2 {
     }
 
     Int2 operator/(T arg) const {
-        return Int2{x / arg, y / arg};
+        return Int2{T(x / arg), T(y / arg)};
     }
 
     void operator/=(T arg) {
@@ -128,7 +128,7 @@ struct Int2 {
     }
 
     Int2 operator/(const Int2& arg) const {
-        return Int2{x / arg.x, y / arg.y};
+        return Int2{T(x / arg.x), T(y / arg.y)};
     }
 
     void operator/=(const Int2& arg) {
@@ -258,7 +258,7 @@ struct Int3 {
     }
 
     Int3 operator-() const {
-        return Int3{-x, -y, -z};
+        return Int3{T(-x), T(-y), T(-z)};
     }
 
     Int3 operator+(const Int3& arg) const {
@@ -282,7 +282,7 @@ struct Int3 {
     }
 
     Int3 operator*(T arg) const {
-        return Int3{x * arg, y * arg, z * arg};
+        return Int3{T(x * arg), T(y * arg), T(z * arg)};
     }
 
     void operator*=(T arg) {
@@ -292,7 +292,7 @@ struct Int3 {
     }
 
     Int3 operator*(const Int3& arg) const {
-        return Int3{x * arg.x, y * arg.y, z * arg.z};
+        return Int3{T(x * arg.x), T(y * arg.y), T(z * arg.z)};
     }
 
     void operator*=(const Int3& arg) {
@@ -302,7 +302,7 @@ struct Int3 {
     }
 
     Int3 operator/(T arg) const {
-        return Int3{x / arg, y / arg, z / arg};
+        return Int3{T(x / arg), T(y / arg), T(z / arg)};
     }
 
     void operator/=(T arg) {
@@ -312,7 +312,7 @@ struct Int3 {
     }
 
     Int3 operator/(const Int3& arg) const {
-        return Int3{x / arg.x, y / arg.y, z / arg.z};
+        return Int3{T(x / arg.x), T(y / arg.y), T(z / arg.z)};
     }
 
     void operator/=(const Int3& arg) {
@@ -425,7 +425,7 @@ struct Int4 {
     }
 
     Int4 operator-() const {
-        return Int4{-x, -y, -z, -w};
+        return Int4{T(-x), T(-y), T(-z), T(-w)};
     }
 
     Int4 operator+(const Int4& arg) const {
@@ -451,7 +451,7 @@ struct Int4 {
     }
 
     Int4 operator*(T arg) const {
-        return Int4{x * arg, y * arg, z * arg, w * arg};
+        return Int4{T(x * arg), T(y * arg), T(z * arg), T(w * arg)};
     }
 
     void operator*=(T arg) {
@@ -462,7 +462,7 @@ struct Int4 {
     }
 
     Int4 operator*(const Int4& arg) const {
-        return Int4{x * arg.x, y * arg.y, z * arg.z, w * arg.w};
+        return Int4{T(x * arg.x), T(y * arg.y), T(z * arg.z), T(w * arg.w)};
     }
 
     void operator*=(const Int4& arg) {
@@ -473,7 +473,7 @@ struct Int4 {
     }
 
     Int4 operator/(T arg) const {
-        return Int4{x / arg, y / arg, z / arg, w / arg};
+        return Int4{T(x / arg), T(y / arg), T(z / arg), T(w / arg)};
     }
 
     void operator/=(T arg) {
@@ -484,7 +484,7 @@ struct Int4 {
     }
 
     Int4 operator/(const Int4& arg) const {
-        return Int4{x / arg.x, y / arg.y, z / arg.z, w / arg.w};
+        return Int4{T(x / arg.x), T(y / arg.y), T(z / arg.z), T(w / arg.w)};
     }
 
     void operator/=(const Int4& arg) {
diff --git a/repos/plywood/src/math/math/ply-math/Matrix.cpp b/repos/plywood/src/math/math/ply-math/Matrix.cpp
index b0903ed..cc284e1 100644
--- a/repos/plywood/src/math/math/ply-math/Matrix.cpp
+++ b/repos/plywood/src/math/math/ply-math/Matrix.cpp
@@ -285,7 +285,7 @@ PLY_NO_INLINE Float4x4 Float4x4::makeProjection(const Rect& frustum, float zNear
     result.col[0].x = 2.f * ooXDenom;
     result.col[2].x = (frustum.mins.x + frustum.maxs.x) * ooXDenom;
     result.col[1].y = 2.f * ooYDenom;
-    result.col[2].y = (frustum.mins.y + frustum.maxs.y) * ooXDenom;
+    result.col[2].y = (frustum.mins.y + frustum.maxs.y) * ooYDenom;
     result.col[2].z = (zNear + zFar) * ooZDenom;
     result.col[2].w = -1.f;
     result.col[3].z = (2 * zNear * zFar) * ooZDenom;
diff --git a/repos/plywood/src/math/math/ply-math/Matrix.h b/repos/plywood/src/math/math/ply-math/Matrix.h
index d4280b9..f1079f1 100644
--- a/repos/plywood/src/math/math/ply-math/Matrix.h
+++ b/repos/plywood/src/math/math/ply-math/Matrix.h
@@ -372,7 +372,7 @@ implicit fourth row.
 */
 Float3x4 operator*(const Float3x4& a, const Float3x4& b);
 
-PLY_INLINE static Quaternion fromOrtho(const Float3x4& m) {
+PLY_INLINE Quaternion Quaternion::fromOrtho(const Float3x4& m) {
     return Quaternion::fromOrtho(m.asFloat3x3());
 }
 
diff --git a/repos/plywood/src/math/math/ply-math/QuatPos.h b/repos/plywood/src/math/math/ply-math/QuatPos.h
index bf9d301..c95a925 100644
--- a/repos/plywood/src/math/math/ply-math/QuatPos.h
+++ b/repos/plywood/src/math/math/ply-math/QuatPos.h
@@ -31,7 +31,7 @@ struct ScalePos2 {
     }
 
     static ScalePos2 makeTranslation(const Float2& pos) {
-        return {{0, 0}, pos};
+        return {{1, 1}, pos};
     }
 
     static ScalePos2 mapToRect(const Rect& r) {
-- 
2.43.0


From a8ec673de3312ae15079dd32209c8ff8234362e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:45 +0000
Subject: [PATCH 58/92] fix: linearToSRGB reads pixels as unsigned bytes;
 toABGR places the red channel

---
 repos/plywood/src/image/image/image/Image.cpp | 4 ++--
 repos/plywood/src/image/image/image/Image.h   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/image/image/image/Image.cpp b/repos/plywood/src/image/image/image/Image.cpp
index 643a667..8b66d1b 100644
--- a/repos/plywood/src/image/image/image/Image.cpp
+++ b/repos/plywood/src/image/image/image/Image.cpp
@@ -43,11 +43,11 @@ void linearToSRGB(Image& dst, const Image& src) {
     while (dstRow < dstRowEnd) {
         u32* d = (u32*) dstRow;
         u32* dEnd = d + dst.width;
-        char* s = srcRow;
+        u8* s = (u8*) srcRow;
         while (d < dEnd) {
             float invGamma = powf(*s / 255.f, 1 / 2.2f);
             u32 value = u32(roundf(invGamma * 255.f));
-            *d = ((0x10101 * value) & 0xffffff) | ((255 - *s) << 24);
+            *d = ((0x10101 * value) & 0xffffff) | (u32(255 - *s) << 24);
             //            *d |= 0xff000000;
             d++;
             s++;
diff --git a/repos/plywood/src/image/image/image/Image.h b/repos/plywood/src/image/image/image/Image.h
index c22bcf5..9b1a2fb 100644
--- a/repos/plywood/src/image/image/image/Image.h
+++ b/repos/plywood/src/image/image/image/Image.h
@@ -33,7 +33,7 @@ enum class Format : u8 {
 
 #if PLY_IS_BIG_ENDIAN
 inline u32 toRGBA(const Int4<u8>& color) {
-    return (color.w) | (color.z << 8) | (color.y << 16) | (color.x << 16);
+    return u32(color.w) | (u32(color.z) << 8) | (u32(color.y) << 16) | (u32(color.x) << 24);
 }
 inline u32 toABGR(const Int4<u8>& color) {
     return (const u32&) color;
@@ -43,7 +43,7 @@ inline u32 toRGBA(const Int4<u8>& color) {
     return (const u32&) color;
 }
 inline u32 toABGR(const Int4<u8>& color) {
-    return (color.w) | (color.z << 8) | (color.y << 16) | (color.x << 16);
+    return u32(color.w) | (u32(color.z) << 8) | (u32(color.y) << 16) | (u32(color.x) << 24);
 }
 #endif
 
-- 
2.43.0


From b4371a49afbf8b2a0140b0737d51a0541cede935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:27 +0000
Subject: [PATCH 59/92] fix: Crowbar tokenizer uses the offset table entry of
 the following token

---
 repos/plywood/src/crowbar/ply-crowbar/Tokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/crowbar/ply-crowbar/Tokenizer.cpp b/repos/plywood/src/crowbar/ply-crowbar/Tokenizer.cpp
index c4316e2..f517256 100644
--- a/repos/plywood/src/crowbar/ply-crowbar/Tokenizer.cpp
+++ b/repos/plywood/src/crowbar/ply-crowbar/Tokenizer.cpp
@@ -135,7 +135,7 @@ PLY_NO_INLINE u32 expandTokenInternal(ExpandedToken& expToken, Tokenizer* tkr, u
         u32 compactLength = safeDemote<u32>(data - start);
         u32 endOffset = safeDemote<u32>(tkr->vin.cur - tkr->vin.start);
         if (data < tkr->tokenData.end()) {
-            endOffset = tkr->fileOffsetTable[(tokenIdx + 1) >> 8] +
+            endOffset = tkr->fileOffsetTable[(tokenIdx + compactLength) >> 8] +
                         details::LabelEncoder::decodeValue(data);
         }
         expToken.text =
-- 
2.43.0


From d1a57cf412d425218faaa3fe78ec6be3d0e7154a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:27 +0000
Subject: [PATCH 60/92] fix: Crowbar unary operators bind tighter than binary
 operators

---
 repos/plywood/src/crowbar/ply-crowbar/Parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp b/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
index 63cf8a6..a25239c 100644
--- a/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
+++ b/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
@@ -228,7 +228,9 @@ Owned<Expression> Parser::parseExpression(u32 outerPrecendenceLevel, bool asStat
                 }
                 auto unaryOp = expr->unaryOp().switchTo();
                 unaryOp->op = op;
-                unaryOp->expr = this->parseExpression();
+                unaryOp->expr = this->parseExpression(UnaryOpPrecedence[(u32) op]);
+                if (!unaryOp->expr)
+                    return {}; // an error occurred
                 break;
             }
         }
-- 
2.43.0


From ad3b9f60d562b2269a0ae44b2622b6bb87ec1405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:27 +0000
Subject: [PATCH 61/92] fix: Crowbar parser stops reading parameters when an
 error cannot be handled

---
 repos/plywood/src/crowbar/ply-crowbar/Parser.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp b/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
index a25239c..59f1fa1 100644
--- a/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
+++ b/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
@@ -458,8 +458,8 @@ void parseParameterList(Parser* parser, Statement::FunctionDefinition* functionD
                      parser->recovery.outerAcceptFlags | Parser::RecoveryState::AcceptCloseParen);
     for (;; paramToken = parser->tkr->readToken()) {
         if (paramToken.type != TokenType::Identifier) {
-            if (error(parser, paramToken, ErrorTokenAction::HandleUnexpected,
-                      String::format("expected function parameter; got {}", paramToken.desc())))
+            if (!error(parser, paramToken, ErrorTokenAction::HandleUnexpected,
+                       String::format("expected function parameter; got {}", paramToken.desc())))
                 return;
         }
         functionDef->parameterNames.append(paramToken.label);
@@ -469,9 +469,9 @@ void parseParameterList(Parser* parser, Statement::FunctionDefinition* functionD
             return;
         }
         if (token.type != TokenType::Comma) {
-            if (error(parser, token, ErrorTokenAction::HandleUnexpected,
-                      String::format("expected ',' or ')' after parameter {}; got {}",
-                                     paramToken.desc(), token.desc())))
+            if (!error(parser, token, ErrorTokenAction::HandleUnexpected,
+                       String::format("expected ',' or ')' after parameter {}; got {}",
+                                      paramToken.desc(), token.desc())))
                 return;
         }
     }
-- 
2.43.0


From 2e99b98fb9d66f1a10caff41129878cf1368884c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:27 +0000
Subject: [PATCH 62/92] fix: Crowbar reports unclosed strings and embedded
 expressions

---
 repos/plywood/src/crowbar/ply-crowbar/Parser.cpp    | 10 +++++++---
 repos/plywood/src/crowbar/ply-crowbar/Tokenizer.cpp |  6 ++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp b/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
index 59f1fa1..cbabede 100644
--- a/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
+++ b/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
@@ -163,7 +163,7 @@ void parseInterpolatedString(Parser* parser, Expression* expr) {
                 if (closeToken.type != TokenType::CloseCurly) {
                     error(parser, closeToken, ErrorTokenAction::HandleUnexpected,
                           String::format(
-                              "expected '}' to close embedded expression at {}; got {}",
+                              "expected '}}' to close embedded expression at {}; got {}",
                               parser->tkr->fileLocationMap.formatFileLocation(token.fileOffset),
                               closeToken.desc()));
                     skipAnyScope(parser, nullptr, TokenType::OpenCurly);
@@ -175,8 +175,12 @@ void parseInterpolatedString(Parser* parser, Expression* expr) {
                 return;
             }
             default: {
-                PLY_ASSERT(0); // Shouldn't get here
-                break;
+                // Either the string is unclosed, or an embedded expression was unclosed and the
+                // current token was pushed back because it belongs to an outer scope.
+                error(parser, token, ErrorTokenAction::PushBack,
+                      String::format("expected '\"' to close string literal; got {}",
+                                     token.desc()));
+                return;
             }
         }
     }
diff --git a/repos/plywood/src/crowbar/ply-crowbar/Tokenizer.cpp b/repos/plywood/src/crowbar/ply-crowbar/Tokenizer.cpp
index f517256..b552cc1 100644
--- a/repos/plywood/src/crowbar/ply-crowbar/Tokenizer.cpp
+++ b/repos/plywood/src/crowbar/ply-crowbar/Tokenizer.cpp
@@ -217,12 +217,12 @@ PLY_NO_INLINE void readString(ExpandedToken& expToken, Tokenizer* tkr) {
     MemOutStream mout;
     for (;;) {
         if (tkr->vin.atEOF())
-            goto eofError;
+            goto gotStringLiteral; // The string is unclosed; next token will be EndOfFile
         char c = tkr->vin.peek();
         if (c == '\\') {
             tkr->vin.next();
             if (tkr->vin.atEOF())
-                goto eofError;
+                goto gotStringLiteral;
             mout << tkr->vin.next();
         } else if (c == '"') {
             if (mout.getSeekPos() == 0) {
@@ -251,8 +251,6 @@ PLY_NO_INLINE void readString(ExpandedToken& expToken, Tokenizer* tkr) {
             tkr->vin.next();
         }
     }
-eofError:
-    PLY_ASSERT(0);
 gotStringLiteral:
     String text = mout.moveToString();
     expToken.type = TokenType::StringLiteral;
-- 
2.43.0


From 203b5145e4224463801cd332049a0c04f899f635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:11 +0000
Subject: [PATCH 63/92] fix: ObjectStack::deleteRange moves trailing objects
 into the correct block

---
 .../plywood/src/reflect/ply-reflect/methods/ObjectStack.cpp  | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/reflect/ply-reflect/methods/ObjectStack.cpp b/repos/plywood/src/reflect/ply-reflect/methods/ObjectStack.cpp
index a7bc52f..651f288 100644
--- a/repos/plywood/src/reflect/ply-reflect/methods/ObjectStack.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/methods/ObjectStack.cpp
@@ -39,7 +39,8 @@ void ObjectStack::deleteRange(const ObjectStack::Boundary& from, const WeakSeque
         if (safeDemote<u32>(dst.block->end() - dst.byte) < numBytes) {
             // FIXME: Handle objects larger than the block size
             PLY_ASSERT(dst.block->nextBlock->blockSize >= numBytes);
-            dst = {dst.block->nextBlock, dst.block->bytes};
+            dst.block->numBytesUsed = safeDemote<u32>(dst.byte - dst.block->bytes);
+            dst = {dst.block->nextBlock, dst.block->nextBlock->bytes};
         }
         // FIXME: Handle alignment
         memmove(dst.byte, cur->data, cur->type->fixedSize);
@@ -48,7 +49,7 @@ void ObjectStack::deleteRange(const ObjectStack::Boundary& from, const WeakSeque
     }
 
     // Trim storage.
-    dst.block->numBytesUsed = dst.block->offsetOf(dst.byte);
+    dst.block->numBytesUsed = safeDemote<u32>(dst.byte - dst.block->bytes);
     dst.block->nextBlock.clear();
     this->storage.tail = dst.block;
 
-- 
2.43.0


From efad66ae59d1d2fd5edb20615b011e465f42a1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:11 +0000
Subject: [PATCH 64/92] fix: script operators and built-in functions reject
 operands of other types and division by zero

---
 .../ply-reflect/builtin/TypeDescriptor_Arithmetic.cpp  | 10 ++++++++++
 .../ply-reflect/builtin/TypeDescriptor_Bool.cpp        |  2 ++
 .../ply-reflect/builtin/TypeDescriptor_Function.h      |  7 ++++---
 .../ply-reflect/builtin/TypeDescriptor_String.cpp      |  4 ++++
 4 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Arithmetic.cpp b/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Arithmetic.cpp
index 6e95f4a..d982018 100644
--- a/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Arithmetic.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Arithmetic.cpp
@@ -21,6 +21,8 @@ struct ArithmeticMethodTable {
         MethodTable methods;
         methods.binaryOp = [](BaseInterpreter* interp, MethodTable::BinaryOp op,
                               const AnyObject& first, const AnyObject& second) -> MethodResult {
+            if (!second.is<T>())
+                return MethodTable::unsupportedBinaryOp(interp, op, first, second);
             switch (op) {
                 case MethodTable::BinaryOp::Multiply: {
                     interp->returnValue =
@@ -29,12 +31,20 @@ struct ArithmeticMethodTable {
                     return MethodResult::OK;
                 }
                 case MethodTable::BinaryOp::Divide: {
+                    if (*second.cast<T>() == 0) {
+                        interp->error(interp, "division by zero");
+                        return MethodResult::Error;
+                    }
                     interp->returnValue =
                         *interp->localVariableStorage.appendObject(getTypeDescriptor<T>());
                     *interp->returnValue.cast<T>() = *first.cast<T>() / *second.cast<T>();
                     return MethodResult::OK;
                 }
                 case MethodTable::BinaryOp::Modulo: {
+                    if (*second.cast<T>() == 0) {
+                        interp->error(interp, "division by zero");
+                        return MethodResult::Error;
+                    }
                     interp->returnValue =
                         *interp->localVariableStorage.appendObject(getTypeDescriptor<T>());
                     *interp->returnValue.cast<T>() = *first.cast<T>() % *second.cast<T>();
diff --git a/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Bool.cpp b/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Bool.cpp
index ae36355..c587fed 100644
--- a/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Bool.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Bool.cpp
@@ -19,6 +19,8 @@ struct BoolMethodTable {
         MethodTable methods;
         methods.binaryOp = [](BaseInterpreter* interp, MethodTable::BinaryOp op,
                               const AnyObject& first, const AnyObject& second) -> MethodResult {
+            if (!second.is<bool>())
+                return MethodTable::unsupportedBinaryOp(interp, op, first, second);
             switch (op) {
                 case MethodTable::BinaryOp::DoubleEqual: {
                     interp->returnValue =
diff --git a/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Function.h b/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Function.h
index 707b822..6d104ec 100644
--- a/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Function.h
+++ b/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_Function.h
@@ -38,8 +38,8 @@ struct FunctionCallThunk<Param0> {
                                            ArrayView<const AnyObject> args) {
         using FunctionType = MethodResult(BaseInterpreter*, Param0);
         PLY_ASSERT(callee.type->isEquivalentTo(getTypeDescriptor<FunctionType>()));
-        PLY_ASSERT(args.numItems == 1);
-        PLY_ASSERT(args[0].type->isEquivalentTo(getTypeDescriptor<Param0>()));
+        if (args.numItems != 1 || !args[0].type->isEquivalentTo(getTypeDescriptor<Param0>()))
+            return MethodTable::unsupportedCall(interp, callee, args);
         return reinterpret_cast<FunctionType*>(callee.data)(interp, *(Param0*) args[0].data);
     }
 };
@@ -49,7 +49,8 @@ struct FunctionCallThunk<const AnyObject&> {
                                            ArrayView<const AnyObject> args) {
         using FunctionType = MethodResult(BaseInterpreter*, const AnyObject&);
         PLY_ASSERT(callee.type->isEquivalentTo(getTypeDescriptor<FunctionType>()));
-        PLY_ASSERT(args.numItems == 1);
+        if (args.numItems != 1)
+            return MethodTable::unsupportedCall(interp, callee, args);
         return reinterpret_cast<FunctionType*>(callee.data)(interp, args[0]);
     }
 };
diff --git a/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_String.cpp b/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_String.cpp
index 92be3a2..c081b9b 100644
--- a/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_String.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/builtin/TypeDescriptor_String.cpp
@@ -22,6 +22,8 @@ struct StringMethodTable {
                               const AnyObject& first, const AnyObject& second) {
             switch (op) {
                 case MethodTable::BinaryOp::Add: {
+                    if (!second.is<String>())
+                        return MethodTable::unsupportedBinaryOp(interp, op, first, second);
                     interp->returnValue =
                         *interp->localVariableStorage.appendObject(getTypeDescriptor<String>());
                     *interp->returnValue.cast<String>() =
@@ -29,6 +31,8 @@ struct StringMethodTable {
                     return MethodResult::OK;
                 }
                 case MethodTable::BinaryOp::Multiply: {
+                    if (!second.is<u32>())
+                        return MethodTable::unsupportedBinaryOp(interp, op, first, second);
                     interp->returnValue =
                         *interp->localVariableStorage.appendObject(getTypeDescriptor<String>());
                     *interp->returnValue.cast<String>() =
-- 
2.43.0


From ed8cf29c33b5672eea2280c58dd5b6bba491d0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:11 +0000
Subject: [PATCH 65/92] fix: Crowbar copies the values of variables and reports
 misused values

---
 .../src/crowbar/ply-crowbar/Interpreter.cpp   | 160 +++++++++++++-----
 1 file changed, 121 insertions(+), 39 deletions(-)

diff --git a/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp b/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp
index af797cc..b2593ad 100644
--- a/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp
+++ b/repos/plywood/src/crowbar/ply-crowbar/Interpreter.cpp
@@ -12,8 +12,21 @@ MethodResult eval(Interpreter::StackFrame* frame, const Expression* expr);
 MethodResult execBlock(Interpreter::StackFrame* frame, const StatementBlock* block);
 MethodResult execFunction(Interpreter::StackFrame* frame, const StatementBlock* block);
 
+// Evaluates an expression whose value is going to be used.
+MethodResult evalValue(Interpreter::StackFrame* frame, const Expression* expr) {
+    Interpreter* interp = frame->interp;
+    MethodResult result = eval(frame, expr);
+    if (result != MethodResult::OK)
+        return result;
+    if (!interp->returnValue.data) {
+        interp->error(interp, "expression has no value");
+        return MethodResult::Error;
+    }
+    return MethodResult::OK;
+}
+
 // FIXME: Generalize this:
-void write(OutStream& outs, const AnyObject& arg) {
+MethodResult write(Interpreter* interp, OutStream& outs, const AnyObject& arg) {
     if (arg.is<u32>()) {
         outs << *arg.cast<u32>();
     } else if (arg.is<bool>()) {
@@ -21,8 +34,11 @@ void write(OutStream& outs, const AnyObject& arg) {
     } else if (arg.is<String>()) {
         outs << *arg.cast<String>();
     } else {
-        PLY_ASSERT(0);
+        interp->error(interp,
+                      String::format("'{}' cannot be converted to a string", arg.type->getName()));
+        return MethodResult::Error;
     }
+    return MethodResult::OK;
 }
 
 MethodResult evalString(Interpreter::StackFrame* frame,
@@ -33,10 +49,12 @@ MethodResult evalString(Interpreter::StackFrame* frame,
     for (const Expression::InterpolatedString::Piece& piece : stringExp->pieces) {
         mout << piece.literal;
         if (piece.embed) {
-            MethodResult result = eval(frame, piece.embed);
+            MethodResult result = evalValue(frame, piece.embed);
+            if (result != MethodResult::OK)
+                return result;
+            result = write(interp, mout, interp->returnValue);
             if (result != MethodResult::OK)
                 return result;
-            write(mout, interp->returnValue);
             interp->returnValue = {};
         }
     }
@@ -48,17 +66,43 @@ MethodResult evalString(Interpreter::StackFrame* frame,
     return MethodResult::OK;
 }
 
-PLY_INLINE bool isReturnValueOnTopOfStack(Interpreter* interp) {
-    return !interp->localVariableStorage.items.isEmpty() &&
+// Returns true if the return value is a temporary object that was created after the specified
+// boundary and is located on top of the stack. Otherwise, it may be a reference to an existing
+// variable.
+PLY_INLINE bool isReturnValueOnTopOfStack(Interpreter* interp,
+                                          const ObjectStack::Boundary& boundary) {
+    return (boundary != interp->localVariableStorage.end()) &&
            (interp->localVariableStorage.items.tail() == interp->returnValue);
 }
 
+// Functions are always referenced, not copied.
+PLY_INLINE bool isFunction(const AnyObject& obj) {
+    return obj.is<Statement::FunctionDefinition>() || (obj.type->typeKey == &TypeKey_Function);
+}
+
+// Assigns the return value to an existing object.
+MethodResult assignReturnValue(Interpreter* interp, AnyObject dst,
+                               const ObjectStack::Boundary& boundary) {
+    if (isFunction(dst) || !dst.type->isEquivalentTo(interp->returnValue.type)) {
+        interp->error(interp, String::format("cannot assign '{}' to '{}'",
+                                             interp->returnValue.type->getName(),
+                                             dst.type->getName()));
+        return MethodResult::Error;
+    }
+    if (isReturnValueOnTopOfStack(interp, boundary)) {
+        dst.move(interp->returnValue);
+    } else if (dst.data != interp->returnValue.data) {
+        dst.copy(interp->returnValue);
+    }
+    return MethodResult::OK;
+}
+
 MethodResult evalPropertyLookup(Interpreter::StackFrame* frame,
                                 const Expression::PropertyLookup* propLookup) {
     Interpreter* interp = frame->interp;
 
     // Evaluate left side.
-    MethodResult result = eval(frame, propLookup->obj);
+    MethodResult result = evalValue(frame, propLookup->obj);
     if (result != MethodResult::OK)
         return result;
     AnyObject obj = interp->returnValue;
@@ -74,14 +118,14 @@ MethodResult evalBinaryOp(Interpreter::StackFrame* frame, const Expression::Bina
     Interpreter* interp = frame->interp;
 
     // Evaluate left side.
-    MethodResult result = eval(frame, binaryOp->left);
+    MethodResult result = evalValue(frame, binaryOp->left);
     if (result != MethodResult::OK)
         return result;
     AnyObject left = interp->returnValue;
     interp->returnValue = {};
 
     // Evaluate right side.
-    result = eval(frame, binaryOp->right);
+    result = evalValue(frame, binaryOp->right);
     if (result != MethodResult::OK)
         return result;
     AnyObject right = interp->returnValue;
@@ -95,7 +139,7 @@ MethodResult evalUnaryOp(Interpreter::StackFrame* frame, const Expression::Unary
     Interpreter* interp = frame->interp;
 
     // Evaluate subexpression.
-    MethodResult result = eval(frame, unaryOp->expr);
+    MethodResult result = evalValue(frame, unaryOp->expr);
     if (result != MethodResult::OK)
         return result;
     AnyObject obj = interp->returnValue;
@@ -109,7 +153,7 @@ MethodResult evalCall(Interpreter::StackFrame* frame, const Expression::Call* ca
     Interpreter* interp = frame->interp;
 
     // Evaluate callable.
-    MethodResult result = eval(frame, call->callable);
+    MethodResult result = evalValue(frame, call->callable);
     if (result != MethodResult::OK)
         return result;
     AnyObject callee = interp->returnValue;
@@ -118,18 +162,18 @@ MethodResult evalCall(Interpreter::StackFrame* frame, const Expression::Call* ca
     // Evaluate arguments.
     Array<AnyObject> args;
     for (const Expression* argExpr : call->args) {
-        result = eval(frame, argExpr);
+        ObjectStack::Boundary boundary = interp->localVariableStorage.end();
+        result = evalValue(frame, argExpr);
         if (result != MethodResult::OK)
             return result;
 
-        AnyObject* arg;
-        if (!isReturnValueOnTopOfStack(interp)) {
-            arg = interp->localVariableStorage.appendObject(interp->returnValue.type);
-            arg->move(interp->returnValue);
+        if (isReturnValueOnTopOfStack(interp, boundary) || isFunction(interp->returnValue)) {
+            args.append(interp->returnValue);
         } else {
-            arg = &interp->localVariableStorage.items.tail();
+            AnyObject* arg = interp->localVariableStorage.appendObject(interp->returnValue.type);
+            arg->copy(interp->returnValue);
+            args.append(*arg);
         }
-        args.append(*arg);
         interp->returnValue = {};
     }
 
@@ -138,7 +182,13 @@ MethodResult evalCall(Interpreter::StackFrame* frame, const Expression::Call* ca
         // It's a Crowbar function.
         // FIXME: Move this to MethodTable.
         const auto* functionDef = callee.cast<Statement::FunctionDefinition>();
-        PLY_ASSERT(args.numItems() == functionDef->parameterNames.numItems());
+        if (args.numItems() != functionDef->parameterNames.numItems()) {
+            interp->error(interp, String::format("'{}' takes {} arguments; got {}",
+                                                 LabelMap::instance.view(functionDef->name),
+                                                 functionDef->parameterNames.numItems(),
+                                                 args.numItems()));
+            return MethodResult::Error;
+        }
 
         // Set up a new stack frame.
         Interpreter::StackFrame newFrame;
@@ -223,15 +273,28 @@ MethodResult eval(Interpreter::StackFrame* frame, const Expression* expr) {
     }
 }
 
+MethodResult evalCondition(Interpreter::StackFrame* frame, const Expression* expr) {
+    Interpreter* interp = frame->interp;
+    MethodResult result = evalValue(frame, expr);
+    if (result != MethodResult::OK)
+        return result;
+    // FIXME: Do implicit conversion to bool
+    if (!interp->returnValue.is<bool>()) {
+        interp->error(interp, String::format("'{}' cannot be used as a condition",
+                                             interp->returnValue.type->getName()));
+        return MethodResult::Error;
+    }
+    return MethodResult::OK;
+}
+
 MethodResult execIf(Interpreter::StackFrame* frame, const Statement::If_* if_) {
     Interpreter* interp = frame->interp;
 
     // Evaluate condition.
     ObjectStack::Boundary localVariableStorageBoundary = interp->localVariableStorage.end();
-    MethodResult result = eval(frame, if_->condition);
+    MethodResult result = evalCondition(frame, if_->condition);
     if (result != MethodResult::OK)
         return result;
-    // FIXME: Do implicit conversion to bool
     bool wasTrue = (*interp->returnValue.cast<bool>() != 0);
     interp->returnValue = {};
     // Delete temporary objects.
@@ -252,10 +315,9 @@ MethodResult execWhile(Interpreter::StackFrame* frame, const Statement::While_*
     for (;;) {
         // Evaluate condition.
         ObjectStack::Boundary localVariableStorageBoundary = interp->localVariableStorage.end();
-        MethodResult result = eval(frame, while_->condition);
+        MethodResult result = evalCondition(frame, while_->condition);
         if (result != MethodResult::OK)
             return result;
-        // FIXME: Do implicit conversion to bool
         bool wasTrue = (*interp->returnValue.cast<bool>() != 0);
         interp->returnValue = {};
         // Delete temporary objects.
@@ -278,7 +340,7 @@ MethodResult execAssign(Interpreter::StackFrame* frame, const Statement::Assignm
     // Evaluate left side.
     AnyObject left;
     if (assign->left->id != Expression::ID::NameLookup) {
-        MethodResult result = eval(frame, assign->left);
+        MethodResult result = evalValue(frame, assign->left);
         if (result != MethodResult::OK)
             return result;
         left = interp->returnValue;
@@ -286,7 +348,8 @@ MethodResult execAssign(Interpreter::StackFrame* frame, const Statement::Assignm
     }
 
     // Evaluate right side.
-    MethodResult result = eval(frame, assign->right);
+    ObjectStack::Boundary rightSideBoundary = interp->localVariableStorage.end();
+    MethodResult result = evalValue(frame, assign->right);
     if (result != MethodResult::OK)
         return result;
 
@@ -295,14 +358,21 @@ MethodResult execAssign(Interpreter::StackFrame* frame, const Statement::Assignm
         PLY_ASSERT(!left.data);
         Label name = assign->left->nameLookup()->name;
         auto cursor = frame->localVariableTable.insertOrFind(name);
-        if (cursor.wasFound()) {
-            // Move result to existing local variable.
-            cursor->obj.move(interp->returnValue);
+        if (isFunction(interp->returnValue)) {
+            cursor->obj = interp->returnValue;
+            // Delete temporary objects.
+            interp->localVariableStorage.deleteRange(localVariableStorageBoundary,
+                                                     interp->localVariableStorage.items.end());
+        } else if (cursor.wasFound()) {
+            // Assign result to existing local variable.
+            result = assignReturnValue(interp, cursor->obj, rightSideBoundary);
+            if (result != MethodResult::OK)
+                return result;
             // Delete temporary objects.
             interp->localVariableStorage.deleteRange(localVariableStorageBoundary,
                                                      interp->localVariableStorage.items.end());
         } else {
-            if (isReturnValueOnTopOfStack(interp)) {
+            if (isReturnValueOnTopOfStack(interp, rightSideBoundary)) {
                 WeakSequenceRef<AnyObject> deleteTo = interp->localVariableStorage.items.end();
                 --deleteTo;
                 // Delete temporary objects except for the return value.
@@ -310,19 +380,22 @@ MethodResult execAssign(Interpreter::StackFrame* frame, const Statement::Assignm
                 // We've just created a new local Local variable.
                 cursor->obj = interp->localVariableStorage.items.tail();
             } else {
-                // Delete temporary objects.
-                interp->localVariableStorage.deleteRange(localVariableStorageBoundary,
-                                                         interp->localVariableStorage.items.end());
-                // Allocate storage for new local variable.
-                AnyObject* dest =
-                    interp->localVariableStorage.appendObject(interp->returnValue.type);
-                dest->move(interp->returnValue);
-                cursor->obj = *dest;
+                // Copy the return value on top of the stack since it might belong to a temporary
+                // object.
+                interp->localVariableStorage.appendObject(interp->returnValue.type)
+                    ->copy(interp->returnValue);
+                WeakSequenceRef<AnyObject> deleteTo = interp->localVariableStorage.items.end();
+                --deleteTo;
+                // Delete temporary objects except for the copy.
+                interp->localVariableStorage.deleteRange(localVariableStorageBoundary, deleteTo);
+                cursor->obj = interp->localVariableStorage.items.tail();
             }
         }
         interp->returnValue = {};
     } else {
-        left.move(interp->returnValue);
+        result = assignReturnValue(interp, left, rightSideBoundary);
+        if (result != MethodResult::OK)
+            return result;
         interp->returnValue = {};
         // Delete temporary objects.
         interp->localVariableStorage.deleteRange(localVariableStorageBoundary,
@@ -372,9 +445,18 @@ MethodResult execBlock(Interpreter::StackFrame* frame, const StatementBlock* blo
                 break;
             }
             case Statement::ID::Return_: {
-                MethodResult result = eval(frame, statement->return_()->expr);
+                ObjectStack::Boundary boundary = interp->localVariableStorage.end();
+                MethodResult result = evalValue(frame, statement->return_()->expr);
                 if (result != MethodResult::OK)
                     return result;
+                if (!isReturnValueOnTopOfStack(interp, boundary) &&
+                    !isFunction(interp->returnValue)) {
+                    // Return a copy, since local variables are about to be destroyed.
+                    AnyObject* copy =
+                        interp->localVariableStorage.appendObject(interp->returnValue.type);
+                    copy->copy(interp->returnValue);
+                    interp->returnValue = *copy;
+                }
                 return MethodResult::Return;
             }
             case Statement::ID::CustomBlock: {
-- 
2.43.0


From b642d45f073e4eccc8b76dc3e6a1ab9aabd670d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:06 +0000
Subject: [PATCH 66/92] fix: Crowbar parser recovers from errors in parameter
 lists as before

---
 repos/plywood/src/crowbar/ply-crowbar/Parser.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp b/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
index cbabede..497d6af 100644
--- a/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
+++ b/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
@@ -462,9 +462,9 @@ void parseParameterList(Parser* parser, Statement::FunctionDefinition* functionD
                      parser->recovery.outerAcceptFlags | Parser::RecoveryState::AcceptCloseParen);
     for (;; paramToken = parser->tkr->readToken()) {
         if (paramToken.type != TokenType::Identifier) {
-            if (!error(parser, paramToken, ErrorTokenAction::HandleUnexpected,
-                       String::format("expected function parameter; got {}", paramToken.desc())))
-                return;
+            error(parser, paramToken, ErrorTokenAction::HandleUnexpected,
+                  String::format("expected function parameter; got {}", paramToken.desc()));
+            return;
         }
         functionDef->parameterNames.append(paramToken.label);
         ExpandedToken token = parser->tkr->readToken();
@@ -473,10 +473,10 @@ void parseParameterList(Parser* parser, Statement::FunctionDefinition* functionD
             return;
         }
         if (token.type != TokenType::Comma) {
-            if (!error(parser, token, ErrorTokenAction::HandleUnexpected,
-                       String::format("expected ',' or ')' after parameter {}; got {}",
-                                      paramToken.desc(), token.desc())))
-                return;
+            error(parser, token, ErrorTokenAction::HandleUnexpected,
+                  String::format("expected ',' or ')' after parameter {}; got {}",
+                                 paramToken.desc(), token.desc()));
+            return;
         }
     }
 }
-- 
2.43.0


From 37ca2924416299c0e98b074af0996534668056c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:04 +0000
Subject: [PATCH 67/92] fix: C++ preprocessor reads decimal numbers starting
 with 0 whole

---
 repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
index bc50da7..57fa6fe 100644
--- a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
@@ -112,13 +112,10 @@ PLY_NO_INLINE StringView PPVisitedFiles::getContents(u32 includeChainIndex) cons
 }
 
 void readNumericLiteral(ViewInStream* vins) {
-    if (vins->tryMakeBytesAvailable() && (vins->peekByte() == '0')) {
-        vins->advanceByte();
-        if (vins->tryMakeBytesAvailable() && (vins->peekByte() == 'x')) {
-            vins->advanceByte();
-            vins->parse<u64>(fmt::Radix{16});
-            goto suffix;
-        }
+    if (vins->numBytesAvailable() >= 2 && vins->peekByte(0) == '0' && vins->peekByte(1) == 'x') {
+        vins->advanceByte(2);
+        vins->parse<u64>(fmt::Radix{16});
+        goto suffix;
     }
     vins->parse<double>();
 suffix:
-- 
2.43.0


From a136da0e3441647af733a1501cc350ecf8daf782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:11 +0000
Subject: [PATCH 68/92] fix: C++ preprocessor accepts a directive after a null
 directive

---
 repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
index 57fa6fe..a10bf4a 100644
--- a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
@@ -148,8 +148,11 @@ void readPreprocessorDirective(ViewInStream* vins, Preprocessor* pp) {
         if (!isWhite(c))
             break;
         vins->advanceByte();
-        if (c == '\n')
-            return; // null directive
+        if (c == '\n') {
+            // null directive
+            pp->atStartOfLine = true;
+            return;
+        }
     }
 
     // Read directive
-- 
2.43.0


From 091bb239935ca30f6faf537fafb941de5fb4abdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:30 +0000
Subject: [PATCH 69/92] fix: C++ preprocessor continues every directive after a
 backslash at the end of a line

---
 .../plywood/src/cpp/ply-cpp/Preprocessor.cpp  | 34 +++++++++++--------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
index a10bf4a..55ad591 100644
--- a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
@@ -134,6 +134,22 @@ suffix:
     }
 }
 
+// Skips the rest of a preprocessing directive, including any lines continued by a backslash.
+void skipDirectiveLine(ViewInStream* vins) {
+    bool escaping = false;
+    while (vins->tryMakeBytesAvailable()) {
+        char c = vins->peekByte();
+        vins->advanceByte();
+        if (c == '\n') {
+            if (!escaping)
+                break;
+            escaping = false;
+        } else if (c != '\r') {
+            escaping = (c == '\\');
+        }
+    }
+}
+
 void readPreprocessorDirective(ViewInStream* vins, Preprocessor* pp) {
     bool avail = vins->tryMakeBytesAvailable();
     PLY_ASSERT(avail);
@@ -165,27 +181,15 @@ void readPreprocessorDirective(ViewInStream* vins, Preprocessor* pp) {
     } else {
         // Handle directive
         if (directive == "include") {
-            vins->parse<fmt::Line>();
+            skipDirectiveLine(vins);
             if (pp->includeCallback) {
                 pp->includeCallback(vins->getViewFrom(savePoint));
             }
         } else if (directive == "pragma" || directive == "if" || directive == "else" ||
                    directive == "elif" || directive == "endif" || directive == "ifdef" ||
                    directive == "ifndef" || directive == "error" || directive == "undef" ||
-                   directive == "import") {
-            vins->parse<fmt::Line>();
-        } else if (directive == "define") {
-            bool escaping = false;
-            while (vins->tryMakeBytesAvailable()) {
-                char c = vins->peekByte();
-                vins->advanceByte();
-                if (c == '\n') {
-                    if (!escaping)
-                        break;
-                } else if (c != '\r') {
-                    escaping = (c == '\\');
-                }
-            }
+                   directive == "import" || directive == "define") {
+            skipDirectiveLine(vins);
         } else {
             // Invalid directive
             pp->error(
-- 
2.43.0


From b29529bf0754d6e203bf60a9032dad0979a8a1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:30 +0000
Subject: [PATCH 70/92] fix: C++ preprocessor finds the end of every raw string
 literal

---
 .../plywood/src/cpp/ply-cpp/Preprocessor.cpp  | 40 +++++--------------
 1 file changed, 10 insertions(+), 30 deletions(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
index 55ad591..e157754 100644
--- a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
@@ -353,33 +353,13 @@ bool readDelimiterAndRawStringLiteral(ViewInStream* vins, Preprocessor* pp,
         vins->advanceByte();
         if (c == ')') {
             // Try to match delimiter
-            const char* d = delimiterStart;
-            for (;;) {
-                if (d == delimiterEnd) {
-                    if (!vins->tryMakeBytesAvailable()) {
-                        // End of file while matching closing "
-                        pp->error({Preprocessor::Error::EOFInStringLiteral,
-                                   getLinearLocation(pp, vins->curByte), beginStringLoc});
-                        return false;
-                    }
-                    c = vins->peekByte();
-                    if (c == '"') {
-                        // End of string literal
-                        vins->advanceByte();
-                        return true;
-                    }
-                }
-                if (!vins->tryMakeBytesAvailable()) {
-                    // End of file while matching delimiter
-                    pp->error({Preprocessor::Error::EOFInStringLiteral,
-                               getLinearLocation(pp, vins->curByte), beginStringLoc});
-                    return false;
-                }
-                c = vins->peekByte();
-                vins->advanceByte();
-                if ((u8) c != *d)
-                    break; // No match here
-                d++;
+            u32 delimiterLen = safeDemote<u32>(delimiterEnd - delimiterStart);
+            if (vins->numBytesAvailable() > delimiterLen &&
+                memcmp(vins->curByte, delimiterStart, delimiterLen) == 0 &&
+                vins->peekByte(delimiterLen) == '"') {
+                // End of string literal
+                vins->advanceByte(delimiterLen + 1);
+                return true;
             }
         }
     }
@@ -414,9 +394,9 @@ Token::Type readIdentifierOrLiteral(ViewInStream* vins, Preprocessor* pp,
         if (!match(c, mask)) {
             if (c == '"') {
                 if (vins->curByte == startByte + 1 && *startByte == 'R') {
-                    if (readDelimiterAndRawStringLiteral(vins, pp, beginTokenLoc)) {
-                        return Token::StringLiteral;
-                    }
+                    if (!readDelimiterAndRawStringLiteral(vins, pp, beginTokenLoc))
+                        return Token::Invalid;
+                    return Token::StringLiteral;
                 } else {
                     // Treat it as a string prefix
                     vins->advanceByte();
-- 
2.43.0


From b2b6999dc83fb4f8ba9bde324e7a204c31c7478e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:30 +0000
Subject: [PATCH 71/92] fix: a macro isn't expanded again in its own expansion

---
 repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
index e157754..38da08a 100644
--- a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
@@ -421,6 +421,17 @@ Token::Type readIdentifierOrLiteral(ViewInStream* vins, Preprocessor* pp,
     }
 }
 
+// A macro isn't expanded again inside its own expansion.
+bool isBeingExpanded(const Preprocessor* pp, u32 expansionIdx) {
+    for (const Preprocessor::StackItem& item : pp->stack) {
+        const PPVisitedFiles::IncludeChain& chain =
+            pp->visitedFiles->includeChains[item.includeChainIdx];
+        if (chain.isMacroExpansion && chain.fileOrExpIdx == expansionIdx)
+            return true;
+    }
+    return false;
+}
+
 PLY_NO_INLINE Token readToken(Preprocessor* pp) {
     Preprocessor::StackItem* item = nullptr;
     Token token;
@@ -783,7 +794,7 @@ PLY_NO_INLINE Token readToken(Preprocessor* pp) {
                 token.identifier = item->vins.getViewFrom(savePoint);
                 PLY_ASSERT(token.identifier);
                 auto cursor = pp->macros.find(token.identifier);
-                if (cursor.wasFound()) {
+                if (cursor.wasFound() && !isBeingExpanded(pp, cursor->expansionIdx)) {
                     token.type = Token::Macro;
                     token.identifier = item->vins.getViewFrom(savePoint);
 
-- 
2.43.0


From 089b703be9530ddba857919406b6715429d83324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:30 +0000
Subject: [PATCH 72/92] fix: C++ preprocessor accepts comments before a
 directive

---
 repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
index 38da08a..1b4ad99 100644
--- a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
@@ -516,6 +516,7 @@ PLY_NO_INLINE Token readToken(Preprocessor* pp) {
                         item->vins.advanceByte();
                         if (fmt::scanUpToAndIncludingSpecial(&item->vins, "*/")) {
                             token.type = Token::CStyleComment;
+                            pp->atStartOfLine = wasAtStartOfLine;
                             goto gotToken;
                         } else {
                             // EOF in comment
-- 
2.43.0


From a7f716c74993ba828ee1ecaa0e8e4ae1a28ae500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:19 +0000
Subject: [PATCH 73/92] fix: C++ preprocessor gives the end of file a location

---
 repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
index 1b4ad99..6c4023e 100644
--- a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
@@ -860,6 +860,9 @@ PLY_NO_INLINE Token readToken(Preprocessor* pp) {
         return token;
     }
 
+    if (token.linearLoc < 0) {
+        token.linearLoc = pp->linearLocAtEndOfStackTop;
+    }
     token.type = Token::EndOfFile;
     return token;
 }
-- 
2.43.0


From dff246156fa5aebd857adc6c7342b5ecda060d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:19 +0000
Subject: [PATCH 74/92] fix: C++ parser reports a missing expression

---
 repos/plywood/src/cpp/ply-cpp/ErrorFormatting.cpp  | 2 ++
 repos/plywood/src/cpp/ply-cpp/ParseExpressions.cpp | 4 +++-
 repos/plywood/src/cpp/ply-cpp/Parser.h             | 1 +
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/ErrorFormatting.cpp b/repos/plywood/src/cpp/ply-cpp/ErrorFormatting.cpp
index 2da3237..76d915b 100644
--- a/repos/plywood/src/cpp/ply-cpp/ErrorFormatting.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ErrorFormatting.cpp
@@ -80,6 +80,8 @@ StringView getExpectedTokenDesc(ExpectedToken expected) {
             return "template parameter";
         case ExpectedToken::TypeSpecifier:
             return "type specifier";
+        case ExpectedToken::Expression:
+            return "expression";
         default:
             PLY_ASSERT(0); // shouldn't get here
             return "???";
diff --git a/repos/plywood/src/cpp/ply-cpp/ParseExpressions.cpp b/repos/plywood/src/cpp/ply-cpp/ParseExpressions.cpp
index b87a0dc..9dbfe61 100644
--- a/repos/plywood/src/cpp/ply-cpp/ParseExpressions.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ParseExpressions.cpp
@@ -226,7 +226,9 @@ Tuple<Token, Token> parseExpression(Parser* parser, bool optional) {
             if (optional) {
                 pushBackToken(parser, startToken);
             } else {
-                PLY_ASSERT(0);
+                // expected expression
+                parser->error(true, {ParseError::Expected, startToken, ExpectedToken::Expression});
+                pushBackToken(parser, startToken);
             }
             return {};
         }
diff --git a/repos/plywood/src/cpp/ply-cpp/Parser.h b/repos/plywood/src/cpp/ply-cpp/Parser.h
index 6e3f08f..e3ac839 100644
--- a/repos/plywood/src/cpp/ply-cpp/Parser.h
+++ b/repos/plywood/src/cpp/ply-cpp/Parser.h
@@ -88,6 +88,7 @@ enum class ExpectedToken {
     TemplateParameterDecl,
     TypeSpecifier,
     ClassKeyword,
+    Expression,
 };
 
 struct ParseError : BaseError {
-- 
2.43.0


From d98d3492441da18b7d546eecec45c28867a1af8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:19 +0000
Subject: [PATCH 75/92] fix: C++ parser accepts a template keyword that no
 declaration follows

---
 repos/plywood/src/cpp/ply-cpp/ParseDeclarations.cpp | 4 +++-
 repos/plywood/src/cpp/ply-cpp/ParseMisc.cpp         | 4 ----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/ParseDeclarations.cpp b/repos/plywood/src/cpp/ply-cpp/ParseDeclarations.cpp
index 5538d08..5f02a30 100644
--- a/repos/plywood/src/cpp/ply-cpp/ParseDeclarations.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ParseDeclarations.cpp
@@ -237,7 +237,9 @@ PLY_NO_INLINE bool parseDeclaration(Parser* parser, StringView enclosingClassNam
             parser->visor->doEnter(AnyObject::bind(&tmpl));
             parseDeclaration(parser, enclosingClassName);
             parser->visor->doExit(AnyObject::bind(&tmpl));
-            parser->visor->gotDeclaration(grammar::Declaration{std::move(tmpl)});
+            if (tmpl.visor_decl) {
+                parser->visor->gotDeclaration(grammar::Declaration{std::move(tmpl)});
+            }
         } else if (token.identifier == "using") {
             // using directive or type alias
             parser->stopMutingErrors();
diff --git a/repos/plywood/src/cpp/ply-cpp/ParseMisc.cpp b/repos/plywood/src/cpp/ply-cpp/ParseMisc.cpp
index fcfc637..53156b0 100644
--- a/repos/plywood/src/cpp/ply-cpp/ParseMisc.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ParseMisc.cpp
@@ -10,10 +10,6 @@ namespace ply {
 namespace cpp {
 
 void ParseSupervisor::doExit(AnyObject node) {
-    if (auto* tmpl = node.safeCast<grammar::Declaration::Template_>()) {
-        PLY_ASSERT(tmpl->visor_decl); // Should have gotten declaration
-        PLY_UNUSED(tmpl);
-    }
     const AnyObject& scope = scopeStack.back();
     PLY_ASSERT(scope == node);
     PLY_UNUSED(scope);
-- 
2.43.0


From 265a521cb0e9c88d4e99626a445895f29f585b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:19 +0000
Subject: [PATCH 76/92] fix: C++ parser reports errors in extern declarations

---
 repos/plywood/src/cpp/ply-cpp/ParseDeclarations.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/cpp/ply-cpp/ParseDeclarations.cpp b/repos/plywood/src/cpp/ply-cpp/ParseDeclarations.cpp
index 5f02a30..282b0f6 100644
--- a/repos/plywood/src/cpp/ply-cpp/ParseDeclarations.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ParseDeclarations.cpp
@@ -135,6 +135,7 @@ PLY_NO_INLINE bool parseDeclaration(Parser* parser, StringView enclosingClassNam
             token = readToken(parser);
             if (token.type != Token::StringLiteral) {
                 rp.backtrack();
+                rp.cancel();
                 parseSimpleDeclaration(parser, enclosingClassName);
             } else {
                 linkage.literal = token;
@@ -157,6 +158,7 @@ PLY_NO_INLINE bool parseDeclaration(Parser* parser, StringView enclosingClassNam
                     //      ^^^^^^^^^^
                     // FIXME: Make Declaration type for this
                     rp.backtrack();
+                    rp.cancel();
                     parseSimpleDeclaration(parser, enclosingClassName);
                 }
             }
-- 
2.43.0


From cc864bb0840db4568b476d4c88e8eabcb8bc8772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:19 +0000
Subject: [PATCH 77/92] fix: C++ parser can nest restore points at the same
 token

---
 repos/plywood/src/cpp/ply-cpp/ParseDeclarations.h | 5 +++--
 repos/plywood/src/cpp/ply-cpp/RestorePoint.h      | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/ParseDeclarations.h b/repos/plywood/src/cpp/ply-cpp/ParseDeclarations.h
index b8bc012..3e92836 100644
--- a/repos/plywood/src/cpp/ply-cpp/ParseDeclarations.h
+++ b/repos/plywood/src/cpp/ply-cpp/ParseDeclarations.h
@@ -56,9 +56,10 @@ struct ParseActivity {
     }
 
     bool anyTokensConsumed() const {
-        if (this->parser->tokenQueue.isEmpty())
+        u32 pos = this->parser->tokenQueuePos;
+        if (pos >= this->parser->tokenQueue.numItems())
             return false;
-        return this->parser->tokenQueue[0].linearLoc == this->savedTokenLoc;
+        return this->parser->tokenQueue[pos].linearLoc == this->savedTokenLoc;
     }
 };
 
diff --git a/repos/plywood/src/cpp/ply-cpp/RestorePoint.h b/repos/plywood/src/cpp/ply-cpp/RestorePoint.h
index 77a9455..7c97ae4 100644
--- a/repos/plywood/src/cpp/ply-cpp/RestorePoint.h
+++ b/repos/plywood/src/cpp/ply-cpp/RestorePoint.h
@@ -50,8 +50,8 @@ struct RestorePoint {
         PLY_ASSERT(this->parser);           // Must not have been canceled
         PLY_ASSERT(!this->errorOccurred()); // no errors occurred
         this->parser->restorePointEnabled = this->wasPreviouslyEnabled;
-        if (this->savedTokenQueuePos == 0) {
-            PLY_ASSERT(!this->wasPreviouslyEnabled);
+        if (!this->wasPreviouslyEnabled) {
+            PLY_ASSERT(this->savedTokenQueuePos == 0);
             this->parser->tokenQueue.erase(0, this->parser->tokenQueuePos);
             this->parser->tokenQueuePos = 0;
         }
-- 
2.43.0


From b278301416868ee23a65c5b3013f0b1ee7e508b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:19 +0000
Subject: [PATCH 78/92] fix: C++ parser recovers from errors after template
 arguments and accepts ~decltype

---
 .../plywood/src/cpp/ply-cpp/ParseQualifiedID.cpp  | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/ParseQualifiedID.cpp b/repos/plywood/src/cpp/ply-cpp/ParseQualifiedID.cpp
index 4d673b0..e8486ec 100644
--- a/repos/plywood/src/cpp/ply-cpp/ParseQualifiedID.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ParseQualifiedID.cpp
@@ -80,8 +80,8 @@ Array<grammar::NestedNameComponent> parseNestedNameSpecifier(Parser* parser) {
                             typeID->abstractDcor = std::move(simple.initDeclarators[0].dcor.prod);
                         } else {
                             rp.backtrack();
-                            rp.cancel();
                         }
+                        rp.cancel();
 
                         auto unknown = templateArg.type.unknown();
                         for (;;) {
@@ -168,9 +168,20 @@ grammar::QualifiedID parseQualifiedID(Parser* parser, ParseQualifiedMode mode) {
                 pushBackToken(parser, token2);
             } else {
                 auto dtor = qid.unqual.destructor().switchTo();
-                PLY_ASSERT(token2.identifier != "decltype"); // FIXME: Support this
                 dtor->tilde = token;
                 dtor->name = token2;
+                if (token2.identifier == "decltype") {
+                    // FIXME: Store the argument of decltype
+                    Token puncToken = readToken(parser);
+                    if (puncToken.type == Token::OpenParen) {
+                        skipAnyScope(parser, nullptr, puncToken);
+                    } else {
+                        // expected (
+                        parser->error(true, {ParseError::Expected, puncToken,
+                                             ExpectedToken::OpenParen, token2});
+                        pushBackToken(parser, puncToken);
+                    }
+                }
             }
         } else if (token.type == Token::Identifier) {
             if (token.identifier == "operator") {
-- 
2.43.0


From 470660129392a61451e5fcb098e495882b164116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:19 +0000
Subject: [PATCH 79/92] fix: C++ parser recovers from misplaced nested names,
 specifiers and unclosed scopes

---
 .../cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp  | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp b/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp
index 80a5619..0d17713 100644
--- a/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp
@@ -76,13 +76,14 @@ PLY_NO_INLINE void parseConversionTypeID(Parser* parser,
                 pushBackToken(parser, token);
                 grammar::QualifiedID qid =
                     parseQualifiedID(parser, ParseQualifiedMode::RequireComplete);
+                if (qid.isEmpty())
+                    break; // Error was already logged
                 if (gotTypeSpecifier) {
                     // We already got a type specifier.
                     // This is not a breaking error; just ignore it and continue from here.
                     parser->error(false, {ParseError::TooManyTypeSpecifiers, qid.getFirstToken()});
                 } else {
                     gotTypeSpecifier = true;
-                    PLY_ASSERT(!qid.isEmpty()); // Shouldn't happen because token was an identifier
                     conv->declSpecifierSeq.append(new grammar::DeclSpecifier{
                         grammar::DeclSpecifier::TypeID{{}, std::move(qid)}});
                 }
@@ -115,7 +116,7 @@ PLY_NO_INLINE bool closeScope(Parser* parser, Token* outCloseToken, const Token&
         // Consume tokens up to the closing )
         if (!skipAnyScope(parser, nullptr, openToken)) {
             // We didn't get a closing ), but an outer scope will handle it
-            PLY_ASSERT(parser->muteErrors);
+            PLY_ASSERT(parser->muteErrors || parser->restorePointEnabled);
             return false;
         }
         // Got closing )
@@ -288,7 +289,6 @@ void parseDeclarator(Parser* parser, grammar::Declarator& dcor,
 
             parser->stopMutingErrors();
         } else if (token.type == Token::Identifier) {
-            PLY_ASSERT(qid.nestedName.isEmpty());
             PLY_ASSERT(token.identifier == "const" || token.identifier == "volatile" ||
                        token.identifier == "inline" || token.identifier == "static" ||
                        token.identifier == "friend");
@@ -307,7 +307,6 @@ void parseDeclarator(Parser* parser, grammar::Declarator& dcor,
             dcor.prod = prod;
         } else {
             // End of first phase of parsing a declarator.
-            PLY_ASSERT(qid.nestedName.isEmpty());
             if ((dcorFlags & DeclaratorFlags::AllowAbstract) == 0) {
                 // Note that we still allow "empty" declarators (in other words, abstract
                 // declarators with no DeclaratorProductions) even when AllowAbstract is not
@@ -914,7 +913,12 @@ void parseSpecifiersAndDeclarators(Parser* parser, grammar::Declaration::Simple&
                 // In C++, all declarations must be explicitly typed; there is no "default
                 // int". Therefore, this must be a simple type specifier.
                 if (typename_.isValid() && qid.nestedName.isEmpty()) {
-                    parser->error(true, {ParseError::Expected, qid.getFirstToken(),
+                    Token errorToken = qid.getFirstToken();
+                    if (!errorToken.isValid()) {
+                        errorToken = readToken(parser);
+                        pushBackToken(parser, errorToken);
+                    }
+                    parser->error(true, {ParseError::Expected, errorToken,
                                          ExpectedToken::NestedNamePrefix});
                 }
                 // FIXME: If mode == SpecDcorMode::Param, we should check at this point that qid
-- 
2.43.0


From c302438e42ec1f452fd4fe06102261eb22f6e60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:29 +0000
Subject: [PATCH 80/92] fix: keep the comma's own token in base specifier lists

---
 repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp b/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp
index 0d17713..b8a64c9 100644
--- a/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp
@@ -628,7 +628,7 @@ Array<grammar::BaseSpecifierWithComma> parseBaseSpecifierList(Parser* parser) {
             pushBackToken(parser, puncToken);
             break;
         } else if (puncToken.type == Token::Comma) {
-            addedBS.comma = token;
+            addedBS.comma = puncToken;
         } else {
             parser->error(true, {ParseError::Expected, puncToken, ExpectedToken::CommaOrOpenCurly});
             break;
-- 
2.43.0


From a403f5d663a463f29d91ab889e282625fb833176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:29 +0000
Subject: [PATCH 81/92] fix: don't dereference a missing supervisor when the
 preprocessor reports an error

---
 repos/plywood/src/cpp/ply-cpp/ParseAPI.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/ParseAPI.cpp b/repos/plywood/src/cpp/ply-cpp/ParseAPI.cpp
index 2584b95..e88fe2d 100644
--- a/repos/plywood/src/cpp/ply-cpp/ParseAPI.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ParseAPI.cpp
@@ -54,7 +54,9 @@ grammar::TranslationUnit parse(String&& sourceCode, PPVisitedFiles* visitedFiles
     ParseSupervisor emptyVisor;
     parser.visor = visor ? visor : &emptyVisor;
 
-    pp.errorHandler = [&](Owned<BaseError>&& err) { visor->handleError(std::move(err)); };
+    pp.errorHandler = [&](Owned<BaseError>&& err) {
+        parser.visor->handleError(std::move(err));
+    };
 
     // Do parse
     grammar::TranslationUnit tu = parseTranslationUnit(&parser);
-- 
2.43.0


From 5953dc949764a71d850a7e60d375abace2e712b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:29 +0000
Subject: [PATCH 82/92] fix: look through linkage scopes in getNamespacePrefix

---
 repos/plywood/src/cpp/ply-cpp/ParseMisc.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/cpp/ply-cpp/ParseMisc.cpp b/repos/plywood/src/cpp/ply-cpp/ParseMisc.cpp
index 53156b0..f496ddc 100644
--- a/repos/plywood/src/cpp/ply-cpp/ParseMisc.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ParseMisc.cpp
@@ -63,6 +63,8 @@ String ParseSupervisor::getNamespacePrefix() const {
     PLY_ASSERT(this->scopeStack[0].is<grammar::TranslationUnit>());
     for (u32 i : range(1, this->scopeStack.numItems())) {
         const AnyObject& scope = scopeStack[i];
+        if (scope.is<grammar::Declaration::Linkage>())
+            continue;
         auto ns = scope.safeCast<grammar::Declaration::Namespace_>();
         if (!ns)
             break;
-- 
2.43.0


From 805de6b43568c3598b066cb6e267a865eb29f582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:15 +0000
Subject: [PATCH 83/92] fix: make the cook module compile with the current
 AnyObject

---
 repos/plywood/src/cook/ply-cook/CookJob.cpp | 2 +-
 repos/plywood/src/cook/ply-cook/CookJob.h   | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/cook/ply-cook/CookJob.cpp b/repos/plywood/src/cook/ply-cook/CookJob.cpp
index 9216dae..4f227f7 100644
--- a/repos/plywood/src/cook/ply-cook/CookJob.cpp
+++ b/repos/plywood/src/cook/ply-cook/CookJob.cpp
@@ -219,7 +219,7 @@ void CookContext::ensureCooked(CookJob* job, AnyObject jobArg) {
             job->result->unlinkFromDatabase();
         }
         Owned<CookResult> oldResult = std::move(job->result);
-        job->result = (CookResult*) AnyObject::create(job->id.type->resultType).ptr;
+        job->result = (CookResult*) AnyObject::create(job->id.type->resultType).data;
         job->result->job = job;
         job->id.type->cook(job->result, jobArg);
     } else {
diff --git a/repos/plywood/src/cook/ply-cook/CookJob.h b/repos/plywood/src/cook/ply-cook/CookJob.h
index 465d3b6..be533ba 100644
--- a/repos/plywood/src/cook/ply-cook/CookJob.h
+++ b/repos/plywood/src/cook/ply-cook/CookJob.h
@@ -6,6 +6,7 @@
 #include <ply-cook/Core.h>
 #include <ply-runtime/container/Hash128.h>
 #include <ply-reflect/StaticPtr.h>
+#include <ply-reflect/AnyOwnedObject.h>
 #include <ply-runtime/container/BTree.h>
 
 namespace ply {
-- 
2.43.0


From 719cccb91eba4d2829fa3a692eca7ef657f7bb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:15 +0000
Subject: [PATCH 84/92] fix: a dependency whose file has disappeared counts as
 changed

---
 repos/plywood/src/cook/ply-cook/CookJob.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/cook/ply-cook/CookJob.cpp b/repos/plywood/src/cook/ply-cook/CookJob.cpp
index 4f227f7..21118ca 100644
--- a/repos/plywood/src/cook/ply-cook/CookJob.cpp
+++ b/repos/plywood/src/cook/ply-cook/CookJob.cpp
@@ -56,8 +56,10 @@ DependencyType DependencyType_File = {
         // FIXME: Use a safe cast once reflection supports derived classes
         Dependency_File* depFile = static_cast<Dependency_File*>(dep_);
         FileStatus stat = FileSystem::native()->getFileStatus(depFile->path);
-        PLY_ASSERT(stat.result == FSResult::OK);
-        if (stat.modificationTime != depFile->modificationTime) {
+        // The modification time is 0 if the file couldn't be opened; it may also have disappeared
+        // since.
+        double modificationTime = (stat.result == FSResult::OK) ? stat.modificationTime : 0;
+        if (modificationTime != depFile->modificationTime) {
             SLOG(Cook, "Recooking \"{}\" because \"{}\" changed", result->job->id.str(),
                  depFile->path);
             return true;
-- 
2.43.0


From c077cc61a61fa3b19031ab0f688bf93a61b98aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:15 +0000
Subject: [PATCH 85/92] fix: isCooked() must not mark the job as being checked

---
 repos/plywood/src/cook/ply-cook/CookJob.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/cook/ply-cook/CookJob.cpp b/repos/plywood/src/cook/ply-cook/CookJob.cpp
index 21118ca..735ab43 100644
--- a/repos/plywood/src/cook/ply-cook/CookJob.cpp
+++ b/repos/plywood/src/cook/ply-cook/CookJob.cpp
@@ -262,7 +262,7 @@ CookResult* CookContext::getAlreadyCookedResult(const CookJobID& id) {
 }
 
 bool CookContext::isCooked(CookJob* job) {
-    auto cursor = this->checkedJobs.insertOrFind(job);
+    auto cursor = this->checkedJobs.find(job);
     return cursor.wasFound() && cursor->status == CookContext::UpToDate;
 }
 
-- 
2.43.0


From a2d172da5278b395d241c24b2ff69b40761ee014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:24 +0000
Subject: [PATCH 86/92] fix: destroy dependencies through a virtual destructor

---
 repos/plywood/src/cook/ply-cook/CookJob.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/repos/plywood/src/cook/ply-cook/CookJob.h b/repos/plywood/src/cook/ply-cook/CookJob.h
index be533ba..a3706ac 100644
--- a/repos/plywood/src/cook/ply-cook/CookJob.h
+++ b/repos/plywood/src/cook/ply-cook/CookJob.h
@@ -67,6 +67,9 @@ struct Dependency {
     // ply reflect off
 
     StaticPtr<DependencyType> type = nullptr;
+
+    virtual ~Dependency() {
+    }
 };
 
 struct Dependency_File;
-- 
2.43.0


From 15f7d3bab6b3191099bf7a0bcfbe76a37657659a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:24 +0000
Subject: [PATCH 87/92] fix: keep the jobs of a cook alive until it ends

---
 repos/plywood/src/cook/ply-cook/CookJob.cpp | 6 ++++--
 repos/plywood/src/cook/ply-cook/CookJob.h   | 6 +++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/repos/plywood/src/cook/ply-cook/CookJob.cpp b/repos/plywood/src/cook/ply-cook/CookJob.cpp
index 735ab43..40fb251 100644
--- a/repos/plywood/src/cook/ply-cook/CookJob.cpp
+++ b/repos/plywood/src/cook/ply-cook/CookJob.cpp
@@ -182,8 +182,10 @@ void CookContext::beginCook() {
 }
 
 void CookContext::endCook() {
-    PLY_ASSERT(CookContext::current_ = this);
-    PLY_ASSERT(DependencyTracker::current_ = this->depTracker);
+    PLY_ASSERT(CookContext::current_ == this);
+    PLY_ASSERT(DependencyTracker::current_ == this->depTracker);
+    // Jobs that aren't referenced from anywhere else are destroyed here.
+    this->checkedJobs = {};
     CookContext::current_ = nullptr;
     DependencyTracker::current_ = nullptr;
 }
diff --git a/repos/plywood/src/cook/ply-cook/CookJob.h b/repos/plywood/src/cook/ply-cook/CookJob.h
index a3706ac..d236eaf 100644
--- a/repos/plywood/src/cook/ply-cook/CookJob.h
+++ b/repos/plywood/src/cook/ply-cook/CookJob.h
@@ -166,7 +166,7 @@ struct CookContext {
     struct CheckedTraits {
         using Key = CookJob*;
         struct Item {
-            CookJob* job;
+            Reference<CookJob> job;
             Status status;
             PLY_INLINE Item(CookJob* job) : job{job}, status{CookInProgress} {
             }
@@ -178,8 +178,8 @@ struct CookContext {
 
     struct DeferredTraits {
         using Key = CookJob*;
-        using Item = CookJob*;
-        static PLY_INLINE bool match(Item item, Key key) {
+        using Item = Reference<CookJob>;
+        static PLY_INLINE bool match(const Item& item, Key key) {
             return item == key;
         }
     };
-- 
2.43.0


From 7c189d4503ebdb38de68b69f108fc719f23e176a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:42 +0000
Subject: [PATCH 88/92] fix: report locations inside a macro expansion at the
 place where the macro is used

---
 repos/plywood/src/cpp/ply-cpp/ErrorFormatting.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/ErrorFormatting.cpp b/repos/plywood/src/cpp/ply-cpp/ErrorFormatting.cpp
index 76d915b..a5c5350 100644
--- a/repos/plywood/src/cpp/ply-cpp/ErrorFormatting.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ErrorFormatting.cpp
@@ -12,9 +12,13 @@ namespace cpp {
 ExpandedFileLocation expandFileLocation(const PPVisitedFiles* visitedFiles,
                                         LinearLocation linearLoc) {
     auto iter = visitedFiles->locationMap.findLastLessThan(linearLoc + 1);
+    // Locations inside a macro expansion are reported at the place where the macro is used
+    while (visitedFiles->includeChains[iter.getItem().includeChainIdx].isMacroExpansion) {
+        linearLoc = iter.getItem().linearLoc;
+        iter.prev();
+    }
     const cpp::PPVisitedFiles::IncludeChain& chain =
         visitedFiles->includeChains[iter.getItem().includeChainIdx];
-    PLY_ASSERT(!chain.isMacroExpansion); // FIXME handle macros
     const cpp::PPVisitedFiles::SourceFile* srcFile = &visitedFiles->sourceFiles[chain.fileOrExpIdx];
     FileLocation fileLoc = srcFile->fileLocMap.getFileLocation(
         safeDemote<u32>(linearLoc - iter.getItem().linearLoc + iter.getItem().offset));
-- 
2.43.0


From a612ab8fe980b7c64ebd627cc67fa3755270b4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:42 +0000
Subject: [PATCH 89/92] fix: let performSubsts replace text up to the end of
 the file

---
 repos/plywood/src/apps/plytool/plytool/Command_CodeGen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/apps/plytool/plytool/Command_CodeGen.cpp b/repos/plywood/src/apps/plytool/plytool/Command_CodeGen.cpp
index a52a763..bce6321 100644
--- a/repos/plywood/src/apps/plytool/plytool/Command_CodeGen.cpp
+++ b/repos/plywood/src/apps/plytool/plytool/Command_CodeGen.cpp
@@ -71,7 +71,7 @@ String performSubsts(StringView absPath, ArrayView<Subst> substs) {
     for (const Subst& subst : substs) {
         PLY_ASSERT(subst.start >= prevEndPos);
         u32 endPos = subst.start + subst.numBytes;
-        PLY_ASSERT(endPos < src.numBytes);
+        PLY_ASSERT(endPos <= src.numBytes);
         mout.write({src.bytes + prevEndPos, subst.start - prevEndPos});
         mout.write(subst.replacement);
         prevEndPos = endPos;
-- 
2.43.0


From ffee59e8db252d7cfa219a7fd530bb2a0f430339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:57 +0000
Subject: [PATCH 90/92] fix: reflect every declarator of a declaration

---
 repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp b/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp
index c3f2689..74a461e 100644
--- a/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp
+++ b/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp
@@ -233,8 +233,7 @@ struct ReflectionHooks : ParseSupervisor {
         State& state = this->stack.back();
         if (state.captureMembersToken.isValid()) {
             if (auto simple = decl.simple()) {
-                if (!simple->initDeclarators.isEmpty()) {
-                    const grammar::InitDeclaratorWithComma& initDecl = simple->initDeclarators[0];
+                for (const grammar::InitDeclaratorWithComma& initDecl : simple->initDeclarators) {
                     if (!initDecl.dcor.isFunction()) {
                         state.clazz->members.append(initDecl.dcor.qid.toString());
                     }
-- 
2.43.0


From 5e2e8ee9aceb74d51e6c53f728c1c986b2d84b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:57 +0000
Subject: [PATCH 91/92] fix: remember the PLY_REFLECT token after ply reflect
 off

---
 repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp b/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp
index 74a461e..7bc0116 100644
--- a/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp
+++ b/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp
@@ -137,7 +137,8 @@ void ReflectionHookError::writeMessage(OutStream* outs, const PPVisitedFiles* vi
 struct ReflectionHooks : ParseSupervisor {
     struct State {
         ReflectedClass* clazz = nullptr;
-        Token captureMembersToken;
+        Token reflectToken;        // remains valid after "ply reflect off"
+        Token captureMembersToken; // not valid after "ply reflect off"
         Owned<SwitchInfo> switch_ = nullptr;
         Owned<ReflectedEnum> enum_ = nullptr;
         Token keepReflectedEnumToken;
@@ -272,7 +273,7 @@ struct ReflectionHooks : ParseSupervisor {
             // Already have a PLY_REFLECT macro
             this->parser->pp->errorHandler(
                 new ReflectionHookError{ReflectionHookError::DuplicateCommand, token.linearLoc,
-                                        state.captureMembersToken.linearLoc});
+                                        state.reflectToken.linearLoc});
             return;
         }
         ReflectedClass* clazz = new ReflectedClass;
@@ -280,6 +281,7 @@ struct ReflectionHooks : ParseSupervisor {
         clazz->name = this->getClassName();
         this->agg->classes.append(clazz);
         state.clazz = clazz;
+        state.reflectToken = token;
         state.captureMembersToken = token;
     }
 
-- 
2.43.0


From f452444daaa967c6645bce97545d9e47c1934b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:57 +0000
Subject: [PATCH 92/92] fix: report switches without states instead of crashing

---
 .../src/apps/plytool/plytool/Command_CodeGen.cpp      |  2 +-
 .../src/apps/plytool/plytool/ReflectionHooks.cpp      | 11 ++++++++++-
 .../apps/plytool/plytool/codegen/ReflectionHooks.inl  |  1 +
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/apps/plytool/plytool/Command_CodeGen.cpp b/repos/plywood/src/apps/plytool/plytool/Command_CodeGen.cpp
index bce6321..0c8e1b0 100644
--- a/repos/plywood/src/apps/plytool/plytool/Command_CodeGen.cpp
+++ b/repos/plywood/src/apps/plytool/plytool/Command_CodeGen.cpp
@@ -37,7 +37,7 @@ String getSwitchInl(SwitchInfo* switch_) {
     mout << "    PLY_INLINE ~Storage_() {}\n";
     mout << "};\n";
     StringView className = switch_->name.splitByte(':').back(); // FIXME: more elegant
-    // FIXME: Log an error if there are no states
+    PLY_ASSERT(!switch_->states.isEmpty()); // checked by ReflectionHooks
     mout.format("SWITCH_FOOTER({}, {})\n", className, switch_->states[0]);
     for (StringView state : switch_->states) {
         mout.format("SWITCH_ACCESSOR({}, {}{})\n", state, state.left(1).lowerAsc(),
diff --git a/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp b/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp
index 7bc0116..4b56c77 100644
--- a/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp
+++ b/repos/plywood/src/apps/plytool/plytool/ReflectionHooks.cpp
@@ -57,6 +57,7 @@ struct ReflectionHookError : BaseError {
         // ply reflect enum
         Unknown,
         SwitchMayOnlyContainStructs,
+        SwitchHasNoStructs,
         MissingReflectOffCommand,
         UnexpectedReflectOffCommand,
         CannotInjectCodeIntoMacro,
@@ -91,6 +92,10 @@ void ReflectionHookError::writeMessage(OutStream* outs, const PPVisitedFiles* vi
             *outs << "a switch may only contain structs\n";
             break;
         }
+        case ReflectionHookError::SwitchHasNoStructs: {
+            *outs << "a switch must contain at least one struct\n";
+            break;
+        }
         case ReflectionHookError::MissingReflectOffCommand: {
             *outs << "can't find matching // ply reflect off\n";
             break;
@@ -193,7 +198,11 @@ struct ReflectionHooks : ParseSupervisor {
             auto* record = node.safeCast<grammar::DeclSpecifier::Record>();
             PLY_ASSERT(record);                                 // guaranteed by enter()
             PLY_ASSERT(record->classKey.identifier != "union"); // guaranteed by enter()
-            if (record->closeCurly.isValid()) {
+            if (state.switch_->states.isEmpty()) {
+                this->parser->pp->errorHandler(
+                    new ReflectionHookError{ReflectionHookError::SwitchHasNoStructs,
+                                            state.switch_->macro.linearLoc});
+            } else if (record->closeCurly.isValid()) {
                 PPVisitedFiles* vf = this->parser->pp->visitedFiles;
                 auto iter = vf->locationMap.findLastLessThan(record->closeCurly.linearLoc + 1);
                 const PPVisitedFiles::LocationMapTraits::Item& lmItem = iter.getItem();
diff --git a/repos/plywood/src/apps/plytool/plytool/codegen/ReflectionHooks.inl b/repos/plywood/src/apps/plytool/plytool/codegen/ReflectionHooks.inl
index 7ce1228..011bde4 100644
--- a/repos/plywood/src/apps/plytool/plytool/codegen/ReflectionHooks.inl
+++ b/repos/plywood/src/apps/plytool/plytool/codegen/ReflectionHooks.inl
@@ -29,6 +29,7 @@ PLY_STRUCT_END()
 PLY_ENUM_BEGIN(ply::cpp::, ReflectionHookError::Type)
 PLY_ENUM_IDENTIFIER(Unknown)
 PLY_ENUM_IDENTIFIER(SwitchMayOnlyContainStructs)
+PLY_ENUM_IDENTIFIER(SwitchHasNoStructs)
 PLY_ENUM_IDENTIFIER(MissingReflectOffCommand)
 PLY_ENUM_IDENTIFIER(UnexpectedReflectOffCommand)
 PLY_ENUM_IDENTIFIER(CannotInjectCodeIntoMacro)
-- 
2.43.0

