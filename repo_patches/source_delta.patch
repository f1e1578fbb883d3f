From 46fca7cd818a7a2b405e375a68fe668e6cd6a44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:00 +0000
Subject: [PATCH 01/51] fix: serialise the hand-over between sparse block
 writer threads

The index of the next block to write was advanced without a lock while
other writers polled it, so two writers could both advance it: reads past
the end of the block array, skipped blocks and writers that never finish.
---
 src/SparseFieldIO.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/SparseFieldIO.cpp b/src/SparseFieldIO.cpp
index 44f266b..0077cd6 100644
--- a/src/SparseFieldIO.cpp
+++ b/src/SparseFieldIO.cpp
@@ -199,6 +199,7 @@ struct ThreadingState
   size_t nextBlockToWrite;
   // Mutexes
   boost::mutex compressMutex;
+  boost::mutex writeMutex;
 };
 
 //----------------------------------------------------------------------------//
@@ -254,20 +255,24 @@ public:
           return;
         }
         // Wait to write data
-        while (m_state.nextBlockToWrite != blockIdx) {
+        while (!isNextToWrite(blockIdx)) {
           // Spin
           boost::this_thread::sleep(boost::posix_time::microseconds(1));
         }
         // Do the writing
         m_state.data.addData(cmpLen, &m_cache[0]);
-        // Let next block write
-        m_state.nextBlockToWrite++;
-        while (m_state.nextBlockToWrite < m_state.numBlocks){
-          // Increment to next
-          if (m_state.blocks[m_state.nextBlockToWrite].isAllocated) {
-            break;
-          }
+        // Let next block write. The new index must only become visible once
+        // it is final, otherwise the next writer may advance it as well.
+        {
+          boost::mutex::scoped_lock lock(m_state.writeMutex);
           m_state.nextBlockToWrite++;
+          while (m_state.nextBlockToWrite < m_state.numBlocks){
+            // Increment to next
+            if (m_state.blocks[m_state.nextBlockToWrite].isAllocated) {
+              break;
+            }
+            m_state.nextBlockToWrite++;
+          }
         }
       }
       // Get next block idx
@@ -285,6 +290,12 @@ public:
     }
   }
 private:
+  // Whether it is the given block's turn to be written
+  bool isNextToWrite(const size_t blockIdx)
+  {
+    boost::mutex::scoped_lock lock(m_state.writeMutex);
+    return m_state.nextBlockToWrite == blockIdx;
+  }
   // Data members ---
   ThreadingState<Data_T> &m_state;
   std::vector<uint8_t> m_cache;
-- 
2.43.0


From 2c828bc29e116b7d286fb530f13544edbafedd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:17 +0000
Subject: [PATCH 02/51] fix: apply the data window offset when a dynamic
 iterator loads its block

SparseField::const_iterator re-derived its voxel pointer from the raw
voxel coordinate, so fields whose data window does not start at zero
returned another voxel (or asserted).
---
 export/SparseField.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/export/SparseField.h b/export/SparseField.h
index e8ac64b..8fbb382 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -962,8 +962,9 @@ class SparseField<Data_T>::const_iterator
       m_manager->activateBlock<Data_T>(m_field->m_fileId, m_blockId);
       m_blockIsActivated = true;
       const Block &block = m_field->m_blocks[m_blockId];
-      int vi, vj, vk;
-      m_field->getVoxelInBlock(x, y, z, vi, vj, vk);
+      int i = x, j = y, k = z, vi, vj, vk;
+      m_field->applyDataWindowOffset(i, j, k);
+      m_field->getVoxelInBlock(i, j, k, vi, vj, vk);
       m_p = &block.value(vi, vj, vk, m_blockOrder);
     }
     return *m_p;
@@ -975,8 +976,9 @@ class SparseField<Data_T>::const_iterator
       manager->activateBlock<Data_T>(m_field->m_fileId, m_blockId);
       m_blockIsActivated = true;
       const Block &block = m_field->m_blocks[m_blockId];
-      int vi, vj, vk;
-      m_field->getVoxelInBlock(x, y, z, vi, vj, vk);
+      int i = x, j = y, k = z, vi, vj, vk;
+      m_field->applyDataWindowOffset(i, j, k);
+      m_field->getVoxelInBlock(i, j, k, vi, vj, vk);
       m_p = &block.value(vi, vj, vk, m_blockOrder);
     }
     return m_p;
-- 
2.43.0


From aac51b9c8d5d3604fdcbffa6b2697c220da4e754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:26 +0000
Subject: [PATCH 03/51] fix: copies of a dynamic sparse iterator hold their own
 block reference

The implicit copy shared the original's reference but both released it,
so the block could be unloaded under a live iterator.
---
 export/SparseField.h | 62 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 57 insertions(+), 5 deletions(-)

diff --git a/export/SparseField.h b/export/SparseField.h
index 8fbb382..75daf6a 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -906,12 +906,44 @@ class SparseField<Data_T>::const_iterator
     m_manager = m_field->m_fileManager;
     setupNextBlock(x, y, z);
   }
-  ~const_iterator() {
-    if (m_manager && m_blockId >= 0 &&
-        m_blockId < static_cast<int>(m_field->m_numBlocks)) {
-      if (m_field->m_blocks[m_blockId].isAllocated)
-        m_manager->decBlockRef<Data_T>(m_field->m_fileId, m_blockId);
+  //! Copy constructor. The copy holds its own reference to the current block
+  const_iterator(const const_iterator &o)
+    : x(o.x), y(o.y), z(o.z),
+      m_p(o.m_p), m_isEmptyBlock(o.m_isEmptyBlock),
+      m_blockIsActivated(o.m_blockIsActivated),
+      m_blockStepsTicker(o.m_blockStepsTicker), m_blockOrder(o.m_blockOrder),
+      m_blockI(o.m_blockI), m_blockJ(o.m_blockJ), m_blockK(o.m_blockK),
+      m_blockId(o.m_blockId), m_window(o.m_window), m_field(o.m_field),
+      m_manager(o.m_manager)
+  {
+    incCurrentBlockRef();
+  }
+  //! Assignment. Releases the current block and references the other's
+  const_iterator& operator = (const const_iterator &o)
+  {
+    if (this != &o) {
+      o.incCurrentBlockRef();
+      decCurrentBlockRef();
+      x = o.x;
+      y = o.y;
+      z = o.z;
+      m_p = o.m_p;
+      m_isEmptyBlock = o.m_isEmptyBlock;
+      m_blockIsActivated = o.m_blockIsActivated;
+      m_blockStepsTicker = o.m_blockStepsTicker;
+      m_blockOrder = o.m_blockOrder;
+      m_blockI = o.m_blockI;
+      m_blockJ = o.m_blockJ;
+      m_blockK = o.m_blockK;
+      m_blockId = o.m_blockId;
+      m_window = o.m_window;
+      m_field = o.m_field;
+      m_manager = o.m_manager;
     }
+    return *this;
+  }
+  ~const_iterator() {
+    decCurrentBlockRef();
   }
   const const_iterator& operator ++ ()
   {
@@ -997,6 +1029,26 @@ private:
 
   // Convenience methods -------------------------------------------------------
 
+  //! Whether the iterator holds a reference to its current block
+  bool refersToBlock() const
+  {
+    return m_manager && m_blockId >= 0 &&
+      m_blockId < static_cast<int>(m_field->m_numBlocks) &&
+      m_field->m_blocks[m_blockId].isAllocated;
+  }
+
+  void incCurrentBlockRef() const
+  {
+    if (refersToBlock())
+      m_manager->incBlockRef<Data_T>(m_field->m_fileId, m_blockId);
+  }
+
+  void decCurrentBlockRef() const
+  {
+    if (refersToBlock())
+      m_manager->decBlockRef<Data_T>(m_field->m_fileId, m_blockId);
+  }
+
   void setupNextBlock(int i, int j, int k)
   {
     m_field->applyDataWindowOffset(i, j, k);
-- 
2.43.0


From ba633d6339cda973bfdd33bd5c97bb4ed1f983b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:26 +0000
Subject: [PATCH 04/51] fix: stop looking for evictable sparse blocks when all
 are in use

With every cached block referenced, deallocateBlocks() circled forever
while holding the manager's lock.
---
 src/SparseFile.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/SparseFile.cpp b/src/SparseFile.cpp
index 4110a0e..138d13b 100644
--- a/src/SparseFile.cpp
+++ b/src/SparseFile.cpp
@@ -161,8 +161,14 @@ void SparseFileManager::deallocateBlocks(int64_t bytesNeeded)
 {
   boost::mutex::scoped_lock lock_A(m_mutex);
 
+  // Number of blocks passed over since the last one was freed. The first 
+  // sweep clears the 'recently used' flags, so once the second one has found
+  // nothing either, every block is in use and there is nothing to reclaim.
+  size_t numSkipped = 0;
+
   while (m_blockCacheList.begin() != m_blockCacheList.end() &&
-         m_maxMemUseInBytes-m_memUse < bytesNeeded) {
+         m_maxMemUseInBytes-m_memUse < bytesNeeded &&
+         numSkipped <= 2 * m_blockCacheList.size()) {
 
     if (m_nextBlock == m_blockCacheList.end())
       m_nextBlock = m_blockCacheList.begin();
@@ -177,36 +183,42 @@ void SparseFileManager::deallocateBlocks(int64_t bytesNeeded)
     case DataTypeHalf:
       bytesFreed = deallocateBlock<half>(cb);
       if (bytesFreed > 0) {
+        numSkipped = 0;
         continue;
       }
       break;
     case DataTypeFloat:
       bytesFreed = deallocateBlock<float>(cb);
       if (bytesFreed > 0) {
+        numSkipped = 0;
         continue;
       }
       break;
     case DataTypeDouble:
       bytesFreed = deallocateBlock<double>(cb);
       if (bytesFreed > 0) {
+        numSkipped = 0;
         continue;
       }
       break;
     case DataTypeVecHalf:
       bytesFreed = deallocateBlock<V3h>(cb);
       if (bytesFreed > 0) {
+        numSkipped = 0;
         continue;
       }
       break;
     case DataTypeVecFloat:
       bytesFreed = deallocateBlock<V3f>(cb);
       if (bytesFreed > 0) {
+        numSkipped = 0;
         continue;
       }
       break;
     case DataTypeVecDouble:
       bytesFreed = deallocateBlock<V3d>(cb);
       if (bytesFreed > 0) {
+        numSkipped = 0;
         continue;
       }
       break;
@@ -215,6 +227,7 @@ void SparseFileManager::deallocateBlocks(int64_t bytesNeeded)
       break;
     }
     ++m_nextBlock;
+    ++numSkipped;
   }
 }
 
-- 
2.43.0


From b68fc26ddd43ced64a483338e4b469006722857d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:26 +0000
Subject: [PATCH 05/51] fix: flushCache() leaves blocks that are in use

It freed the data of blocks that another thread or a live iterator was
reading.
---
 src/SparseFile.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/SparseFile.cpp b/src/SparseFile.cpp
index 138d13b..f587b60 100644
--- a/src/SparseFile.cpp
+++ b/src/SparseFile.cpp
@@ -149,6 +149,20 @@ void SparseFileManager::deallocateBlock(CacheList::iterator &it)
 {
   SparseFile::CacheBlock &cb = *it;
   SparseFile::Reference<Data_T> *reference = m_fileData.ref<Data_T>(cb.refIdx);
+
+#if F3D_SHORT_MUTEX_ARRAY
+  boost::mutex::scoped_lock 
+    lock_B(reference->blockMutex[cb.blockIdx % reference->blockMutexSize]);
+#else
+  boost::mutex::scoped_lock lock_B(reference->blockMutex[cb.blockIdx]);
+#endif
+
+  // leave blocks that are still in use
+  if (reference->refCounts[cb.blockIdx] > 0) {
+    ++it;
+    return;
+  }
+
   int64_t bytesFreed = reference->blockSize(cb.blockIdx);
   m_memUse -= bytesFreed;
   reference->unloadBlock(cb.blockIdx);
-- 
2.43.0


From b8998796517d9b6a9cc2120eaee67369f6a5aaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:45 +0000
Subject: [PATCH 06/51] fix: assigning to a dynamic sparse field releases its
 cached blocks

The cache kept pointers to the replaced field's deleted blocks.
---
 export/SparseField.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/export/SparseField.h b/export/SparseField.h
index 75daf6a..d2970a3 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -1382,6 +1382,11 @@ SparseField<Data_T> &
 SparseField<Data_T>::operator=(const SparseField<Data_T> &o)
 {
   if (this != &o) {
+    if (m_fileManager) {
+      // the cache must not keep pointing at the blocks that get replaced
+      m_fileManager->removeFieldFromCache<Data_T>(m_fileId);
+      m_fileManager = NULL;
+    }
     this->base::operator=(o);
     copySparseField(o);
   }
-- 
2.43.0


From 0f0ec8c116fc1def33dfcf80e95e4a5eb0002614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:54 +0000
Subject: [PATCH 07/51] fix: sparse cache statistics are read under the
 reference's lock

Counting loaded blocks raced with fields being created and destroyed,
which replace the vectors being iterated.
---
 export/SparseFile.h | 49 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/export/SparseFile.h b/export/SparseFile.h
index 44f0b68..3563283 100644
--- a/export/SparseFile.h
+++ b/export/SparseFile.h
@@ -174,6 +174,8 @@ public:
   bool fileIsOpen();
   //! Sets the number of blocks used by the SparseField we're supporting
   void setNumBlocks(int numBlocks);
+  //! Forgets all blocks. Called when the SparseField goes away.
+  void releaseBlocks();
   //! Opens the file. This is done just before the first request to loadBlock.
   //! This is delayed so that the original file open  has closed the file and
   //! doesn't cause any Hdf5 hiccups.
@@ -706,6 +708,28 @@ void Reference<Data_T>::setNumBlocks(int a_numBlocks)
 
 //----------------------------------------------------------------------------//
 
+template <class Data_T>
+void Reference<Data_T>::releaseBlocks()
+{
+  boost::mutex::scoped_lock lock(m_mutex);
+
+  std::vector<int>().swap(fileBlockIndices);
+#if F3D_NO_BLOCKS_ARRAY
+  fileBlockIndices.resize(numBlocks, -1);
+#else
+  fileBlockIndices.resize(blocks.size(), -1);
+  BlockPtrs().swap(blocks);
+#endif
+  std::vector<int>().swap(blockLoaded);
+  std::vector<bool>().swap(blockUsed);
+  std::vector<int>().swap(loadCounts);
+  std::vector<int>().swap(refCounts);
+  delete[] blockMutex;
+  blockMutex = NULL;
+}
+
+//----------------------------------------------------------------------------//
+
 template <class Data_T>
 void Reference<Data_T>::closeFile()
 {
@@ -778,6 +802,8 @@ int Reference<Data_T>::blockSize(int /* blockIdx */) const
 template <class Data_T>
 int Reference<Data_T>::totalLoads() const
 {
+  boost::mutex::scoped_lock lock(m_mutex);
+
   std::vector<int>::const_iterator i = loadCounts.begin();
   std::vector<int>::const_iterator end = loadCounts.end();
   int numLoads = 0;
@@ -792,6 +818,8 @@ int Reference<Data_T>::totalLoads() const
 template <class Data_T>
 int Reference<Data_T>::numLoadedBlocks() const
 {
+  boost::mutex::scoped_lock lock(m_mutex);
+
   std::vector<int>::const_iterator i = blockLoaded.begin();
   std::vector<int>::const_iterator end = blockLoaded.end();
   int numBlockCounter = 0;
@@ -807,6 +835,8 @@ int Reference<Data_T>::numLoadedBlocks() const
 template <class Data_T>
 int Reference<Data_T>::totalLoadedBlocks() const
 {
+  boost::mutex::scoped_lock lock(m_mutex);
+
   std::vector<int>::const_iterator i = loadCounts.begin();
   std::vector<int>::const_iterator li = blockLoaded.begin();
   std::vector<int>::const_iterator end = loadCounts.end();
@@ -832,6 +862,8 @@ int Reference<Data_T>::totalLoadedBlocks() const
 template <class Data_T>
 float Reference<Data_T>::averageLoads() const
 {
+  boost::mutex::scoped_lock lock(m_mutex);
+
   std::vector<int>::const_iterator i = loadCounts.begin();
   std::vector<int>::const_iterator end = loadCounts.end();
   int numLoads = 0, numBlockCounter = 0;
@@ -850,6 +882,8 @@ float Reference<Data_T>::averageLoads() const
 template <class Data_T>
 void Reference<Data_T>::resetCacheStatistics()
 {
+  boost::mutex::scoped_lock lock(m_mutex);
+
   std::vector<int>::iterator li = loadCounts.begin();
   std::vector<int>::iterator lend = loadCounts.end();
   for (; li != lend; ++li)
@@ -1225,20 +1259,7 @@ SparseFileManager::removeFieldFromCache(int refIdx)
   }
   m_memUse -= bytesFreed;
 
-  std::vector<int>().swap(reference->fileBlockIndices);
-#if F3D_NO_BLOCKS_ARRAY
-  reference->fileBlockIndices.resize(reference->numBlocks, -1);
-#else
-  reference->fileBlockIndices.resize(reference->blocks.size(), -1);
-  typedef typename SparseFile::Reference<Data_T>::BlockPtrs BlockPtrs;
-  BlockPtrs().swap(reference->blocks);
-#endif
-  std::vector<int>().swap(reference->blockLoaded);
-  std::vector<bool>().swap(reference->blockUsed);
-  std::vector<int>().swap(reference->loadCounts);
-  std::vector<int>().swap(reference->refCounts);
-  delete[] reference->blockMutex;
-  reference->blockMutex = NULL;
+  reference->releaseBlocks();
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 3b8c0e7ab5edec87d346e9b4795834a598d290e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:26 +0000
Subject: [PATCH 08/51] fix: decide from the decremented count who deletes a
 shared object

Re-reading the counter after the decrement let two threads that released
the last two references both delete the object.
---
 export/RefCount.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/export/RefCount.h b/export/RefCount.h
index 9dcf81a..2642b0b 100644
--- a/export/RefCount.h
+++ b/export/RefCount.h
@@ -156,12 +156,14 @@ public:
   }
 
   //! Used by boost::intrusive_pointer
-  void unref() const
+  //! \returns The number of references left. Only the caller that gets zero
+  //! may delete the object.
+  long unref() const
   {
 #ifndef FIELD3D_USE_ATOMIC_COUNT
     boost::mutex::scoped_lock lock(m_refMutex);
 #endif
-    --m_counter; 
+    return --m_counter; 
     // since we use intrusive_pointer no need
     // to delete the object ourselves.
   }
@@ -238,9 +240,7 @@ intrusive_ptr_add_ref(RefBase* r)
 inline void
 intrusive_ptr_release(RefBase* r)
 {
-  r->unref();
-
-  if (r->refcnt() == 0)
+  if (r->unref() == 0)
     delete r;
 }
 
-- 
2.43.0


From 488a668edcf893cf7246afd7244b3e90620c2232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:48 +0000
Subject: [PATCH 09/51] fix: FieldCache never hands out a field that is being
 destroyed

A lookup between a field's last release and the expiry of its weak
pointer returned a pointer to an object about to be freed.
---
 export/FieldCache.h | 14 +++++++-------
 export/RefCount.h   | 41 ++++++++++++++++++++++++++++++++++++-----
 2 files changed, 43 insertions(+), 12 deletions(-)

diff --git a/export/FieldCache.h b/export/FieldCache.h
index cecfd72..2725e84 100644
--- a/export/FieldCache.h
+++ b/export/FieldCache.h
@@ -154,13 +154,13 @@ FieldCache<Data_T>::getCachedField(const std::string &filename,
   if (i == m_cache.end()) {
     return FieldPtr();
   }
-  // Next, check if all weak_ptrs are valid
+  // Next, check that the field is still in use, and not about to be destroyed
   CacheEntry &entry = i->second;
-  WeakPtr weakPtr = entry.first;
-  if (weakPtr.expired()) {
+  if (!RefBase::refIfAlive(entry.first)) {
     return FieldPtr();
   }
-  return FieldPtr(entry.second);
+  // The reference was already added
+  return FieldPtr(entry.second, false);
 }
 
 //----------------------------------------------------------------------------//
@@ -185,12 +185,12 @@ long long int FieldCache<Data_T>::memSize() const
 
   BOOST_FOREACH (const typename Cache::value_type &i, m_cache) {
     // Check if pointer is valid
-    WeakPtr weakPtr = i.second.first;
-    if (weakPtr.expired()) {
+    if (!RefBase::refIfAlive(i.second.first)) {
       continue;
     } else {
       // If valid, accumulate memory
-      memSize += i.second.second->memSize();
+      FieldPtr field(i.second.second, false);
+      memSize += field->memSize();
     }
   }
 
diff --git a/export/RefCount.h b/export/RefCount.h
index 2642b0b..069c5a8 100644
--- a/export/RefCount.h
+++ b/export/RefCount.h
@@ -52,10 +52,10 @@
 #include <boost/shared_ptr.hpp>
 #include <boost/weak_ptr.hpp>
 
+#include <boost/thread/mutex.hpp>
+
 #ifdef FIELD3D_USE_ATOMIC_COUNT
 #include <boost/detail/atomic_count.hpp>
-#else
-#include <boost/thread/mutex.hpp>
 #endif
 
 #include <string.h>
@@ -136,7 +136,11 @@ public:
 
   //! Destructor
   virtual ~RefBase() 
-  {}
+  {
+    // See refIfAlive()
+    boost::mutex::scoped_lock lock(weakMutex());
+    m_sharedPtr.reset();
+  }
 
   //! \}
 
@@ -147,12 +151,13 @@ public:
   { return m_counter; }
     
   //! Used by boost::intrusive_pointer
-  void ref() const
+  //! \returns The new number of references.
+  long ref() const
   { 
 #ifndef FIELD3D_USE_ATOMIC_COUNT
     boost::mutex::scoped_lock lock(m_refMutex);
 #endif
-    ++m_counter; 
+    return ++m_counter; 
   }
 
   //! Used by boost::intrusive_pointer
@@ -173,6 +178,24 @@ public:
   WeakPtr weakPtr() const
   { return m_sharedPtr; }
 
+  //! Adds a reference to the object that the weak pointer refers to, unless
+  //! its last reference was already released, i.e. if it is being destroyed.
+  //! \returns Whether a reference was added. 
+  static bool refIfAlive(const WeakPtr &weakPtr)
+  {
+    // The object can't go away while we hold the lock.
+    boost::mutex::scoped_lock lock(weakMutex());
+    boost::shared_ptr<RefBase> ptr = weakPtr.lock();
+    if (!ptr) {
+      return false;
+    }
+    if (ptr->ref() > 1) {
+      return true;
+    }
+    ptr->unref();
+    return false;
+  }
+
   // RTTI replacement ----------------------------------------------------------
 
   /*! \note A note on why the RTTI replacement is needed:
@@ -208,6 +231,14 @@ public:
 
 private:
 
+  //! Prevents objects from being destroyed during refIfAlive(). Never
+  //! deallocated, since static objects may outlive any static mutex.
+  static boost::mutex& weakMutex()
+  {
+    static boost::mutex *mutex = new boost::mutex;
+    return *mutex;
+  }
+
   //! For boost intrusive pointer
 #ifdef FIELD3D_USE_ATOMIC_COUNT
   mutable boost::detail::atomic_count m_counter;
-- 
2.43.0


From 7432bf430901ed63f0d6a8af3231f11131d65156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:44 +0000
Subject: [PATCH 10/51] fix: exception constructors may run out of memory (a
 throw() constructor terminated the process)

---
 export/Exception.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/export/Exception.h b/export/Exception.h
index d27b164..fda1dce 100644
--- a/export/Exception.h
+++ b/export/Exception.h
@@ -77,7 +77,7 @@ class Exception : public std::exception
   // Ctor, dtor ----------------------------------------------------------------
 
   //! Construct from string
-  Exception(const std::string &what) throw()
+  Exception(const std::string &what)
     : std::exception(), m_what(what)
   { }
 
@@ -108,7 +108,7 @@ class Exception : public std::exception
 class name : public base_class \
 { \
  public: \
-  explicit name(const std::string &what = "") throw() \
+  explicit name(const std::string &what = "") \
     : base_class(what) \
   { } \
   ~name() throw() \
-- 
2.43.0


From fe26da212a24f3daec62959eb74be0a70ff9847e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:44 +0000
Subject: [PATCH 11/51] fix: Ogawa reads report failed opens and reads, and
 rejected files are not valid

---
 src/IStreams.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/IStreams.cpp b/src/IStreams.cpp
index a200dac..d0f8e74 100644
--- a/src/IStreams.cpp
+++ b/src/IStreams.cpp
@@ -105,6 +105,7 @@ IStreams::IStreams(const std::string & iFileName, std::size_t iNumStreams) :
     init();
     if (!mData->valid || mData->version != 1)
     {
+        mData->valid = false;
         mData->streams.clear();
         filestream->close();
         delete filestream;
@@ -125,6 +126,7 @@ IStreams::IStreams(const std::vector< std::istream * > & iStreams) :
     init();
     if (!mData->valid || mData->version != 1)
     {
+        mData->valid = false;
         mData->streams.clear();
         return;
     }
@@ -161,7 +163,7 @@ void IStreams::init()
         mData->offsets.push_back(mData->streams[i]->tellg());
         mData->streams[i]->read(header, 16);
         std::string magicStr(header, 5);
-        if (magicStr != "Ogawa")
+        if (!*(mData->streams[i]) || magicStr != "Ogawa")
         {
             mData->frozen = false;
             mData->valid = false;
@@ -250,12 +252,21 @@ void IStreams::read(std::size_t iThreadId, Alembic::Util::uint64_t iPos,
                 if (threadId != 0)
                 {
                     read(0, iPos, iSize, oBuf);
+                    return;
                 }
-                return;
+
+                throw std::runtime_error(
+                    "Ogawa couldn't open the file for reading.");
             }
         }
+        // an earlier read may have failed
+        stream->clear();
         stream->seekg(iPos + mData->offsets[threadId]);
         stream->read((char *)oBuf, iSize);
+        if (!*stream)
+        {
+            throw std::runtime_error("Ogawa couldn't read from the file.");
+        }
     }
 }
 
-- 
2.43.0


From 1cb50111d45cd59d48a076a634d005b98d9a19c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:44 +0000
Subject: [PATCH 12/51] fix: sparse block readers report blocks they could not
 read or uncompress

---
 export/SparseDataReader.h    |  5 +++++
 include/OgSparseDataReader.h | 21 +++++++++++++++------
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/export/SparseDataReader.h b/export/SparseDataReader.h
index c5b056a..46c1c0f 100644
--- a/export/SparseDataReader.h
+++ b/export/SparseDataReader.h
@@ -180,6 +180,11 @@ void SparseDataReader<Data_T>::readBlock(int idx, Data_T &result)
   status = H5Dread(dataSet.id(), DataTypeTraits<Data_T>::h5type(), 
                    memDataSpace.id(), fileDataSpace.id(), 
                    H5P_DEFAULT, &result);
+
+  if (status < 0) {
+    throw Hdf5DataReadException("Couldn't read block " + 
+                                boost::lexical_cast<std::string>(idx));
+  }
 }
 
 //----------------------------------------------------------------------------//
diff --git a/include/OgSparseDataReader.h b/include/OgSparseDataReader.h
index 62fa967..3bb35c4 100644
--- a/include/OgSparseDataReader.h
+++ b/include/OgSparseDataReader.h
@@ -189,8 +189,14 @@ void OgSparseDataReader<Data_T>::readBlock(const size_t idx, Data_T *result)
 
     // Length of compressed data
     const uint64_t length = m_cDataset.dataSize(idx, m_threadId);
+    // Check that it fits the compression cache
+    if (length > m_compressionCache.size()) {
+      throw ReadDataException("Bad block length in OgSparseDataReader");
+    }
     // Read data into compression cache
-    m_cDataset.getData(idx, &m_compressionCache[0], m_threadId);
+    if (!m_cDataset.getData(idx, &m_compressionCache[0], m_threadId)) {
+      throw ReadDataException("Couldn't read block in OgSparseDataReader");
+    }
     // Target location
     uint8_t *ucmpData = reinterpret_cast<uint8_t *>(result);
     // Length of uncompressed data is stored here
@@ -198,15 +204,18 @@ void OgSparseDataReader<Data_T>::readBlock(const size_t idx, Data_T *result)
     // Uncompress
     int status = uncompress(ucmpData, &ucmpLen, &m_compressionCache[0], 
                             length);
-    if (status != Z_OK) {
-      std::cout << "ERROR in uncompress: " << status
-                << " " << ucmpLen << " " << length << std::endl;
-      return;
+    if (status != Z_OK || ucmpLen != m_numVoxels * sizeof(Data_T)) {
+      throw ReadDataException("Couldn't uncompress block in "
+                              "OgSparseDataReader");
     }
 
   } else {
 
-    m_dataset.getData(idx, result, OGAWA_THREAD);
+    // Check the length and read the data
+    if (m_dataset.dataSize(idx, OGAWA_THREAD) != m_numVoxels ||
+        !m_dataset.getData(idx, result, OGAWA_THREAD)) {
+      throw ReadDataException("Couldn't read block in OgSparseDataReader");
+    }
 
   }
 }
-- 
2.43.0


From 288a92f5b1f8b1267eeb9757da67a13833d5a7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:44 +0000
Subject: [PATCH 13/51] fix: a failed block load leaves the sparse cache as it
 was

---
 export/SparseField.h | 16 +++++++-
 export/SparseFile.h  | 17 ++++++---
 src/SparseFile.cpp   | 87 ++++++++++++++++++++++++++++----------------
 3 files changed, 80 insertions(+), 40 deletions(-)

diff --git a/export/SparseField.h b/export/SparseField.h
index d2970a3..fa8e25f 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -152,7 +152,13 @@ public:
         const bool isDynamicLoad = field.isDynamicLoad();
         if (isDynamicLoad) {
           field.incBlockRef(blockId);
-          field.activateBlock(blockId);
+          try {
+            field.activateBlock(blockId);
+          }
+          catch (...) {
+            field.decBlockRef(blockId);
+            throw;
+          }
         }
         // Only do work if the block is allocated
         const Data_T * const p = field.blockData(bi, bj, bk);
@@ -1693,7 +1699,13 @@ Data_T SparseField<Data_T>::fastValue(int i, int j, int k) const
   if (block.isAllocated) {
     if (m_fileManager) {
       m_fileManager->incBlockRef<Data_T>(m_fileId, id);
-      m_fileManager->activateBlock<Data_T>(m_fileId, id);
+      try {
+        m_fileManager->activateBlock<Data_T>(m_fileId, id);
+      }
+      catch (...) {
+        m_fileManager->decBlockRef<Data_T>(m_fileId, id);
+        throw;
+      }
       Data_T tmpValue = block.value(vi, vj, vk, m_blockOrder);
       m_fileManager->decBlockRef<Data_T>(m_fileId, id);
       return tmpValue;
diff --git a/export/SparseFile.h b/export/SparseFile.h
index 3563283..9fdeb8e 100644
--- a/export/SparseFile.h
+++ b/export/SparseFile.h
@@ -713,11 +713,8 @@ void Reference<Data_T>::releaseBlocks()
 {
   boost::mutex::scoped_lock lock(m_mutex);
 
-  std::vector<int>().swap(fileBlockIndices);
-#if F3D_NO_BLOCKS_ARRAY
-  fileBlockIndices.resize(numBlocks, -1);
-#else
-  fileBlockIndices.resize(blocks.size(), -1);
+  std::fill(fileBlockIndices.begin(), fileBlockIndices.end(), -1);
+#if !F3D_NO_BLOCKS_ARRAY
   BlockPtrs().swap(blocks);
 #endif
   std::vector<int>().swap(blockLoaded);
@@ -1303,8 +1300,16 @@ SparseFileManager::activateBlock(int fileId, int blockIdx)
       // started and we got the lock on the block
       if (!reference->blockLoaded[blockIdx]) {
         reference->loadBlock(blockIdx);
+        try {
+          addBlockToCache(DataTypeTraits<Data_T>::typeEnum(), fileId, 
+                          blockIdx);
+        }
+        catch (...) {
+          // Only blocks in the cache list may stay loaded
+          reference->unloadBlock(blockIdx);
+          throw;
+        }
         reference->loadCounts[blockIdx]++;
-        addBlockToCache(DataTypeTraits<Data_T>::typeEnum(), fileId, blockIdx);
         m_memUse += blockSize;
       }
     }
diff --git a/src/SparseFile.cpp b/src/SparseFile.cpp
index f587b60..06eb3f6 100644
--- a/src/SparseFile.cpp
+++ b/src/SparseFile.cpp
@@ -532,10 +532,17 @@ void Reference<Data_T>::loadBlock(int blockIdx)
   assert(blocks[blockIdx].data != NULL);
   // Read the data
   assert(m_reader || m_ogReader);
-  if (m_reader) {
-    m_reader->readBlock(fileBlockIndices[blockIdx], *blocks[blockIdx].data);
-  } else {
-    m_ogReader->readBlock(fileBlockIndices[blockIdx], blocks[blockIdx].data);
+  try {
+    if (m_reader) {
+      m_reader->readBlock(fileBlockIndices[blockIdx], *blocks[blockIdx].data);
+    } else {
+      m_ogReader->readBlock(fileBlockIndices[blockIdx], blocks[blockIdx].data);
+    }
+  }
+  catch (...) {
+    // The block stays unloaded
+    blocks[blockIdx].clear();
+    throw;
   }
   // Mark block as loaded
   blockLoaded[blockIdx] = 1;
@@ -546,10 +553,18 @@ void Reference<Data_T>::loadBlock(int blockIdx)
   assert(blocks[blockIdx]->data != NULL);
   // Read the data
   assert(m_reader || m_ogReader);
-  if (m_reader) {
-    m_reader->readBlock(fileBlockIndices[blockIdx], *blocks[blockIdx]->data);
-  } else {
-    m_ogReader->readBlock(fileBlockIndices[blockIdx], blocks[blockIdx]->data);
+  try {
+    if (m_reader) {
+      m_reader->readBlock(fileBlockIndices[blockIdx], *blocks[blockIdx]->data);
+    } else {
+      m_ogReader->readBlock(fileBlockIndices[blockIdx], 
+                            blocks[blockIdx]->data);
+    }
+  }
+  catch (...) {
+    // The block stays unloaded
+    blocks[blockIdx]->clear();
+    throw;
   }
   // Mark block as loaded
   blockLoaded[blockIdx] = 1;
@@ -593,34 +608,42 @@ void Reference<Data_T>::openFile()
 
   // Then, try HDF5 ---
 
-  {
-    // Hold the global lock
-    GlobalLock lock(g_hdf5Mutex);
-    // Open the file
-    m_fileHandle = H5Fopen(filename.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
-    if (m_fileHandle >= 0) {
-      // Open the layer group
-      m_layerGroup.open(m_fileHandle, layerPath.c_str());
-      if (m_layerGroup.id() < 0) {
-        Msg::print(Msg::SevWarning, "In SparseFile::Reference::openFile: "
-                   "Couldn't find layer group " + layerPath + 
-                   " in .f3d file ");
-        throw FileIntegrityException(filename);
-      }
-    } else {
+  // Hold the global lock
+  GlobalLock lock(g_hdf5Mutex);
+  // Open the file
+  const hid_t fileHandle = 
+    H5Fopen(filename.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
+  if (fileHandle < 0) {
+    Msg::print(Msg::SevWarning, "In SparseFile::Reference::openFile: "
+               "Couldn't open HDF5 file ");
+    throw NoSuchFileException(filename);
+  }
+  try {
+    // Open the layer group
+    m_layerGroup.open(fileHandle, layerPath.c_str());
+    if (m_layerGroup.id() < 0) {
       Msg::print(Msg::SevWarning, "In SparseFile::Reference::openFile: "
-                 "Couldn't open HDF5 file ");
-      throw NoSuchFileException(filename);
+                 "Couldn't find layer group " + layerPath + 
+                 " in .f3d file ");
+      throw FileIntegrityException(filename);
     }
+    // Re-allocate reader
+    if (m_reader) {
+      delete m_reader;
+      m_reader = NULL;
+    }
+    m_reader = new SparseDataReader<Data_T>(m_layerGroup.id(), 
+                                            valuesPerBlock, 
+                                            occupiedBlocks);
   }
-
-  // Re-allocate reader
-  if (m_reader) {
-    delete m_reader;
+  catch (...) {
+    // The next access tries again
+    H5Fclose(fileHandle);
+    throw;
   }
-  m_reader = new SparseDataReader<Data_T>(m_layerGroup.id(), 
-                                          valuesPerBlock, 
-                                          occupiedBlocks);
+
+  // The file counts as open once it can be read from
+  m_fileHandle = fileHandle;
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From c71e2c5eb052419a9a7b541743ad4bcdce7c1522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:07 +0000
Subject: [PATCH 14/51] fix: read the time samples of frustum mappings from
 Ogawa files

---
 src/FieldMappingIO.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FieldMappingIO.cpp b/src/FieldMappingIO.cpp
index 5912074..f51a8f9 100644
--- a/src/FieldMappingIO.cpp
+++ b/src/FieldMappingIO.cpp
@@ -427,6 +427,7 @@ FrustumFieldMappingIO::read(const OgIGroup &mappingGroup)
                  k_frustumMappingNumSamples);
       return FieldMapping::Ptr();
     }
+    numSamples = numSamplesAttr.value();
   } catch (...) {
     //do nothing
   }
-- 
2.43.0


From a6ae1b1f259a0ed169cc0e1e26c903ad025b11d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:45 +0000
Subject: [PATCH 15/51] fix: file objects can be reused for files of the other
 format

---
 src/Field3DFile.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index e6caced..41b50c6 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -715,6 +715,12 @@ bool Field3DInputFile::open(const string &filename)
 {
   clear();
 
+  // Forget what was read from a previous file, which may have been in the
+  // other format
+  m_hdf5.reset();
+  m_hdf5Base.reset();
+  m_metadata = FieldMetadata(this);
+
   bool success = true;
 
   // Record filename
@@ -976,6 +982,12 @@ Field3DOutputFile::~Field3DOutputFile()
 
 bool Field3DOutputFile::create(const string &filename, CreateMode cm)
 {
+  // Finish the previous file, which may have been in the other format
+  clear();
+  m_partitionCount.clear();
+  m_hdf5.reset();
+  m_hdf5Base.reset();
+
   if (!ms_doOgawa) {
     m_hdf5.reset(new Field3DOutputFileHDF5);
     m_hdf5Base = m_hdf5;
@@ -983,8 +995,6 @@ bool Field3DOutputFile::create(const string &filename, CreateMode cm)
     return m_hdf5->create(filename, Field3DOutputFileHDF5::CreateMode(ccm));
   }
 
-  closeInternal();
-
   if (cm == FailOnExisting && fileExists(filename)) {
     return false;
   }
-- 
2.43.0


From ad25a0fd930d9b56b57e6c8d10d57563224fec2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:26 +0000
Subject: [PATCH 16/51] fix: single-voxel scalar dense fields can be written to
 HDF5

---
 src/DenseFieldIO.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DenseFieldIO.cpp b/src/DenseFieldIO.cpp
index f178391..6ac8542 100644
--- a/src/DenseFieldIO.cpp
+++ b/src/DenseFieldIO.cpp
@@ -390,7 +390,8 @@ bool DenseFieldIO::writeInternal(hid_t layerGroup,
 
   // Make sure chunk size isn't too big.
   hsize_t preferredChunkSize = 4096 * 16;
-  const hsize_t chunkSize = std::min(preferredChunkSize, totalSize[0] / 2);
+  const hsize_t chunkSize = 
+    std::max(hsize_t(1), std::min(preferredChunkSize, totalSize[0] / 2));
 
   Box3i ext(field->extents()), dw(field->dataWindow());
 
-- 
2.43.0


From f83a209e4cdb4979cb6dc24085624cad86da1d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:20 +0000
Subject: [PATCH 17/51] fix: writeLayer reports fields and metadata that could
 not be written

---
 include/MIPFieldIO.h |  8 ++++++--
 src/Field3DFile.cpp  | 11 +++++++++--
 src/MIPFieldIO.cpp   |  2 +-
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/MIPFieldIO.h b/include/MIPFieldIO.h
index 2777a49..787f248 100644
--- a/include/MIPFieldIO.h
+++ b/include/MIPFieldIO.h
@@ -458,7 +458,9 @@ bool MIPFieldIO::writeInternal(hid_t layerGroup,
     std::string className = Field_T<Data_T>::staticClassName();
     FieldIO::Ptr io = 
       ClassFactory::singleton().createFieldIO(className);
-    io->write(levelGroup, field->mipLevel(i));
+    if (!io->write(levelGroup, field->mipLevel(i))) {
+      return false;
+    }
 
   }
 
@@ -516,7 +518,9 @@ bool MIPFieldIO::writeInternal(OgOGroup &layerGroup,
     std::string className = Field_T<Data_T>::staticClassName();
     FieldIO::Ptr io = 
       ClassFactory::singleton().createFieldIO(className);
-    io->write(levelGroup, field->mipLevel(i));
+    if (!io->write(levelGroup, field->mipLevel(i))) {
+      return false;
+    }
 
   }
 
diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index 41b50c6..3e7fbd8 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -1507,10 +1507,17 @@ bool Field3DOutputFile::writeLayer(const std::string &userPartitionName,
   OgOGroup ogMetadata(ogLayer, "metadata");
 
   // Write metadata
-  writeMetadata(ogMetadata, field);
+  if (!writeMetadata(ogMetadata, field)) {
+    Msg::print(Msg::SevWarning, "Error writing metadata of layer: " 
+               + layerName);
+    return false;
+  }
 
   // Write field data
-  writeField(ogLayer, field);
+  if (!writeField(ogLayer, field)) {
+    Msg::print(Msg::SevWarning, "Error writing layer: " + layerName);
+    return false;
+  }
 
   // Add to partition
 
diff --git a/src/MIPFieldIO.cpp b/src/MIPFieldIO.cpp
index a3fbd0e..cbf80c0 100644
--- a/src/MIPFieldIO.cpp
+++ b/src/MIPFieldIO.cpp
@@ -461,7 +461,7 @@ MIPFieldIO::write(OgOGroup &layerGroup, FieldBase::Ptr field)
                               "MIPField template parameter");
   }
 
-  return true;
+  return success;
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From df437bd6e12799d2d1877469a27f3beb201a8f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:17 +0000
Subject: [PATCH 18/51] fix: writing a MACField to an Ogawa file reports that
 it was not stored

---
 src/MACFieldIO.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MACFieldIO.cpp b/src/MACFieldIO.cpp
index fd48105..b6f53ea 100644
--- a/src/MACFieldIO.cpp
+++ b/src/MACFieldIO.cpp
@@ -206,7 +206,8 @@ MACFieldIO::write(hid_t layerGroup, FieldBase::Ptr field)
 bool
 MACFieldIO::write(OgOGroup & /* layerGroup */ , FieldBase::Ptr /* field */)
 {
-  return true;
+  Msg::print(Msg::SevWarning, "MACFields can not be stored in Ogawa files.");
+  return false;
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From dbd981f3e6bd285328ec10dd25fda59739099302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:06 +0000
Subject: [PATCH 19/51] fix: an error in a sparse reader thread terminated the
 process

Errors while reading blocks are now handed to the calling thread.
---
 src/SparseFieldIO.cpp | 45 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/src/SparseFieldIO.cpp b/src/SparseFieldIO.cpp
index 0077cd6..7776a9c 100644
--- a/src/SparseFieldIO.cpp
+++ b/src/SparseFieldIO.cpp
@@ -91,8 +91,19 @@ struct ReadThreadingState
       numOccupiedBlocks(i_numOccupiedBlocks),
       isCompressed(i_isCompressed), 
       blockIdxToDatasetIdx(i_blockIdxToDatasetIdx), 
-      nextBlockToRead(0)
+      nextBlockToRead(0),
+      failed(false)
   { }
+  // Records that a thread could not do its work, and stops the others
+  void fail(const std::string &what)
+  {
+    boost::mutex::scoped_lock lock(readMutex);
+    if (!failed) {
+      error = what;
+    }
+    failed = true;
+    nextBlockToRead = numBlocks;
+  }
   // Data members
   const OgIGroup &location;
   Sparse::SparseBlock<Data_T> *blocks;
@@ -102,6 +113,8 @@ struct ReadThreadingState
   const bool   isCompressed;
   const std::vector<size_t> &blockIdxToDatasetIdx;
   size_t nextBlockToRead;
+  bool failed;
+  std::string error;
   // Mutexes
   boost::mutex readMutex;
 };
@@ -129,6 +142,20 @@ public:
     m_reader->setThreadId(threadId);
   }
   void operator() ()
+  {
+    // Exceptions must not leave the thread
+    try {
+      readBlocks();
+    }
+    catch (std::exception &e) {
+      m_state.fail(e.what());
+    }
+    catch (...) {
+      m_state.fail("Unknown error when reading sparse blocks");
+    }
+  }
+private:
+  void readBlocks()
   {
     // Get next block to read
     size_t blockIdx;
@@ -151,7 +178,6 @@ public:
       }
     }
   }
-private:
   // Data members ---
   ReadThreadingState<Data_T> &m_state;
   std::vector<uint8_t> m_cache;
@@ -842,10 +868,21 @@ SparseFieldIO::readData(const OgIGroup &location, const Box3i &extents,
       const size_t numThreads = numIOThreads();
       // Launch threads
       boost::thread_group threads;
-      for (size_t i = 0; i < numThreads; ++i) {
-        threads.create_thread(ReadBlockOp<Data_T>(state, i));
+      try {
+        for (size_t i = 0; i < numThreads; ++i) {
+          threads.create_thread(ReadBlockOp<Data_T>(state, i));
+        }
+      }
+      catch (...) {
+        // The threads already running refer to the state
+        state.fail("Couldn't start reading sparse blocks");
+        threads.join_all();
+        throw;
       }
       threads.join_all();
+      if (state.failed) {
+        throw ReadDataException(state.error);
+      }
     }
   }
 
-- 
2.43.0


From a06d16d02369096ce59dbd62a548e256c0b5d7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 20/51] fix: a write error in a sparse writer thread terminated
 the process

---
 src/SparseFieldIO.cpp | 60 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 54 insertions(+), 6 deletions(-)

diff --git a/src/SparseFieldIO.cpp b/src/SparseFieldIO.cpp
index 7776a9c..058a925 100644
--- a/src/SparseFieldIO.cpp
+++ b/src/SparseFieldIO.cpp
@@ -201,7 +201,8 @@ struct ThreadingState
       numBlocks(i_numBlocks),
       isAllocated(i_isAllocated), 
       nextBlockToCompress(0),
-      nextBlockToWrite(0)
+      nextBlockToWrite(0),
+      failed(false)
   { 
     // Find first in-use block
     for (size_t i = 0; i < numBlocks; ++i) {
@@ -215,6 +216,16 @@ struct ThreadingState
     nextBlockToCompress = numBlocks;
     nextBlockToWrite = numBlocks;
   }
+  // Records that a thread could not do its work. The others must not wait for
+  // its block to be written.
+  void fail(const std::string &what)
+  {
+    boost::mutex::scoped_lock lock(writeMutex);
+    if (!failed) {
+      error = what;
+    }
+    failed = true;
+  }
   // Data members
   OgOCDataset<Data_T> &data;
   Sparse::SparseBlock<Data_T> *blocks;
@@ -223,6 +234,8 @@ struct ThreadingState
   const std::vector<uint8_t> isAllocated;
   size_t nextBlockToCompress;
   size_t nextBlockToWrite;
+  bool failed;
+  std::string error;
   // Mutexes
   boost::mutex compressMutex;
   boost::mutex writeMutex;
@@ -242,6 +255,20 @@ public:
     m_cache.resize(cmpLenBound);
   }
   void operator() ()
+  {
+    // Exceptions must not leave the thread
+    try {
+      writeBlocks();
+    }
+    catch (std::exception &e) {
+      m_state.fail(e.what());
+    }
+    catch (...) {
+      m_state.fail("Unknown error when writing sparse blocks");
+    }
+  }
+private:
+  void writeBlocks()
   {
     const int level = 1;
     // Get next block to compress
@@ -278,6 +305,7 @@ public:
                     << "  srcLen: " << srcLen << std::endl
                     << "  cmpLenBound: " << cmpLenBound << std::endl
                     << "  cmpLen: " << cmpLen << std::endl;
+          m_state.fail("Couldn't compress block");
           return;
         }
         // Wait to write data
@@ -285,6 +313,10 @@ public:
           // Spin
           boost::this_thread::sleep(boost::posix_time::microseconds(1));
         }
+        // The turn of this block won't come if another one failed
+        if (hasFailed()) {
+          return;
+        }
         // Do the writing
         m_state.data.addData(cmpLen, &m_cache[0]);
         // Let next block write. The new index must only become visible once
@@ -315,12 +347,17 @@ public:
       }
     }
   }
-private:
-  // Whether it is the given block's turn to be written
+  // Whether it is the given block's turn to be written, or there are no more
+  // turns to wait for
   bool isNextToWrite(const size_t blockIdx)
   {
     boost::mutex::scoped_lock lock(m_state.writeMutex);
-    return m_state.nextBlockToWrite == blockIdx;
+    return m_state.failed || m_state.nextBlockToWrite == blockIdx;
+  }
+  bool hasFailed()
+  {
+    boost::mutex::scoped_lock lock(m_state.writeMutex);
+    return m_state.failed;
   }
   // Data members ---
   ThreadingState<Data_T> &m_state;
@@ -1167,10 +1204,21 @@ bool SparseFieldIO::writeInternal(OgOGroup &layerGroup,
     const size_t numThreads = numIOThreads();
     // Launch threads
     boost::thread_group threads;
-    for (size_t i = 0; i < numThreads; ++i) {
-      threads.create_thread(WriteBlockOp<Data_T>(state, i));
+    try {
+      for (size_t i = 0; i < numThreads; ++i) {
+        threads.create_thread(WriteBlockOp<Data_T>(state, i));
+      }
+    }
+    catch (...) {
+      // The threads already running refer to the state
+      state.fail("Couldn't start writing sparse blocks");
+      threads.join_all();
+      throw;
     }
     threads.join_all();
+    if (state.failed) {
+      throw WriteLayerException(state.error);
+    }
   }
 
   return true;
-- 
2.43.0


From 935b14e9bf1d842afeb54d2bf7298fdd45b94769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 21/51] fix: failed Ogawa writes were not reported and could
 leave a file marked as complete

---
 export/Field3DFile.h |  28 +++++-------
 include/OArchive.h   |   4 ++
 include/OStream.h    |   7 +++
 src/Field3DFile.cpp  |  56 ++++++++++++++++-------
 src/OArchive.cpp     |  13 ++++++
 src/OGroup.cpp       |  10 ++++-
 src/OStream.cpp      | 105 ++++++++++++++++++++++++++++++++++++-------
 7 files changed, 173 insertions(+), 50 deletions(-)

diff --git a/export/Field3DFile.h b/export/Field3DFile.h
index f065ee3..2ed8c0f 100644
--- a/export/Field3DFile.h
+++ b/export/Field3DFile.h
@@ -322,7 +322,8 @@ protected:
   { return partition(partitionName); }
 
   //! Closes the file if open.
-  virtual void closeInternal() = 0;
+  //! Returns whether everything that was written has reached the file.
+  virtual bool closeInternal() = 0;
   //! Returns a pointer to the given partition
   //! \returns NULL if no partition was found of that name
   File::Partition::Ptr partition(const std::string &partitionName);
@@ -544,14 +545,15 @@ private:
 
   // From Field3DFileBase ------------------------------------------------------
 
-  virtual void closeInternal()
+  virtual bool closeInternal()
   {
     if (m_hdf5) {
       m_hdf5->closeInternal();
-      return;
+      return true;
     }
 
     cleanup();
+    return true;
   }
 
   void cleanup()
@@ -793,27 +795,17 @@ private:
   
   // From Field3DFileBase ------------------------------------------------------
 
-  virtual void closeInternal()
+  virtual bool closeInternal()
   {
     if (m_hdf5) {
       m_hdf5->closeInternal();
-      return;
+      return true;
     }
-    cleanup();
+    return cleanup();
   }
 
-  void cleanup()
-  {
-    // The destruction of the various Ogawa components must happen in the
-    // right order
-    
-    // First, the partition groups
-    m_partitions.clear();
-    // Then the root group
-    m_root.reset();
-    // Finally, the archive
-    m_archive.reset();
-  }
+  //! Destroys the Ogawa components. Returns whether the whole file was written.
+  bool cleanup();
 
   // Convenience methods -------------------------------------------------------
 
diff --git a/include/OArchive.h b/include/OArchive.h
index f6f9370..90d801a 100644
--- a/include/OArchive.h
+++ b/include/OArchive.h
@@ -55,6 +55,10 @@ public:
 
     bool isValid();
 
+    // Writes the root group and closes the file. Returns whether the whole
+    // archive was written. Nothing can be added afterwards
+    bool close();
+
 private:
     OStreamPtr mStream;
     OGroupPtr mGroup;
diff --git a/include/OStream.h b/include/OStream.h
index 9c10cb9..1f2c184 100644
--- a/include/OStream.h
+++ b/include/OStream.h
@@ -57,6 +57,13 @@ public:
     void write(const void * iBuf, Alembic::Util::uint64_t iSize);
     void seek(Alembic::Util::uint64_t iPos);
 
+    // Nothing more can be written once a write has failed, so that the file is
+    // never marked as done
+    void fail();
+
+    // Finishes writing. Returns whether everything was written
+    bool close();
+
 private:
     // noncopyable
     OStream(const OStream &);
diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index 3e7fbd8..9dfeccc 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -633,9 +633,7 @@ bool Field3DFileBase::close()
     return m_hdf5Base->close();
   }
 
-  closeInternal();
-
-  return true;
+  return closeInternal();
 }
 
 //----------------------------------------------------------------------------//
@@ -980,6 +978,26 @@ Field3DOutputFile::~Field3DOutputFile()
 
 //----------------------------------------------------------------------------//
 
+bool Field3DOutputFile::cleanup()
+{
+  // The destruction of the various Ogawa components must happen in the
+  // right order
+    
+  // First, the partition groups
+  m_partitions.clear();
+  // Then the root group
+  m_root.reset();
+  // Finally, the archive
+  bool success = true;
+  if (m_archive) {
+    success = m_archive->close();
+    m_archive.reset();
+  }
+  return success;
+}
+
+//----------------------------------------------------------------------------//
+
 bool Field3DOutputFile::create(const string &filename, CreateMode cm)
 {
   // Finish the previous file, which may have been in the other format
@@ -999,21 +1017,29 @@ bool Field3DOutputFile::create(const string &filename, CreateMode cm)
     return false;
   }
 
-  // Create the Ogawa archive
-  m_archive.reset(new Alembic::Ogawa::OArchive(filename));
+  try {
+    // Create the Ogawa archive
+    m_archive.reset(new Alembic::Ogawa::OArchive(filename));
 
-  // Check that it's valid
-  if (!m_archive->isValid()) {
-    m_archive.reset();
-    return false;
-  }
+    // Check that it's valid
+    if (!m_archive->isValid()) {
+      m_archive.reset();
+      return false;
+    }
 
-  // Get the root
-  m_root.reset(new OgOGroup(*m_archive));
+    // Get the root
+    m_root.reset(new OgOGroup(*m_archive));
 
-  // Create the version attribute
-  OgOAttribute<veci32_t> f3dVersion(*m_root, k_versionAttrName, 
-                                    k_currentFileVersion);
+    // Create the version attribute
+    OgOAttribute<veci32_t> f3dVersion(*m_root, k_versionAttrName, 
+                                      k_currentFileVersion);
+  }
+  catch (std::exception &e) {
+    Msg::print(Msg::SevWarning, "Couldn't create file: " + filename + " - " +
+               string(e.what()));
+    cleanup();
+    return false;
+  }
 
   return true;
 }
diff --git a/src/OArchive.cpp b/src/OArchive.cpp
index 11d79c6..26b1508 100644
--- a/src/OArchive.cpp
+++ b/src/OArchive.cpp
@@ -61,6 +61,19 @@ bool OArchive::isValid()
     return mStream->isValid();
 }
 
+bool OArchive::close()
+{
+    try
+    {
+        mGroup->freeze();
+    }
+    catch (std::exception &)
+    {
+        mStream->fail();
+    }
+    return mStream->close();
+}
+
 OGroupPtr OArchive::getGroup()
 {
     return mGroup;
diff --git a/src/OGroup.cpp b/src/OGroup.cpp
index fbfebb1..d2cae08 100644
--- a/src/OGroup.cpp
+++ b/src/OGroup.cpp
@@ -81,7 +81,15 @@ OGroup::OGroup(OStreamPtr iStream)
 
 OGroup::~OGroup()
 {
-    freeze();
+    // the archive can't be completed without this group
+    try
+    {
+        freeze();
+    }
+    catch (...)
+    {
+        mData->stream->fail();
+    }
 }
 
 OGroupPtr OGroup::addGroup()
diff --git a/src/OStream.cpp b/src/OStream.cpp
index 7b11d94..7e41cb1 100644
--- a/src/OStream.cpp
+++ b/src/OStream.cpp
@@ -45,7 +45,7 @@ class OStream::PrivateData
 {
 public:
     PrivateData(const std::string & iFileName) :
-        stream(NULL), fileName(iFileName), startPos(0)
+        stream(NULL), fileName(iFileName), startPos(0), failed(false)
     {
         std::ofstream * filestream = new std::ofstream(fileName.c_str(),
             std::ios_base::trunc | std::ios_base::binary);
@@ -62,7 +62,8 @@ public:
         }
     }
 
-    PrivateData(std::ostream * iStream) : stream(iStream), startPos(0)
+    PrivateData(std::ostream * iStream) :
+        stream(iStream), startPos(0), failed(false)
     {
         if (stream)
         {
@@ -79,21 +80,43 @@ public:
 
     ~PrivateData()
     {
-        // if this was done via file, try to clean it up
+        closeStream();
+    }
+
+    // if this was done via file, clean it up
+    void closeStream()
+    {
         if (!fileName.empty() && stream)
         {
             std::ofstream * filestream = dynamic_cast<std::ofstream *>(stream);
             if (filestream)
             {
+                // failing to write the last of it must not throw here
+                filestream->exceptions(std::ios_base::goodbit);
                 filestream->close();
+                if (!*filestream)
+                {
+                    failed = true;
+                }
                 delete filestream;
             }
         }
+        stream = NULL;
+    }
+
+    // an earlier write failed, the file can't be completed any more
+    void checkFailed()
+    {
+        if (failed)
+        {
+            throw std::runtime_error("Ogawa couldn't write to the file.");
+        }
     }
 
     std::ostream * stream;
     std::string fileName;
     Alembic::Util::uint64_t startPos;
+    bool failed;
     Alembic::Util::mutex lock;
 };
 
@@ -111,12 +134,37 @@ OStream::OStream(std::ostream * iStream) : mData(new PrivateData(iStream))
 
 OStream::~OStream()
 {
-    // write our "frozen" byte (totally done writing)
+    close();
+}
+
+bool OStream::close()
+{
+    Alembic::Util::scoped_lock l(mData->lock);
     if (isValid())
     {
-        char frozen = 0xff;
-        mData->stream->seekp(mData->startPos + 5).write(&frozen, 1).flush();
+        // write our "frozen" byte (totally done writing)
+        if (!mData->failed)
+        {
+            try
+            {
+                char frozen = 0xff;
+                mData->stream->seekp(mData->startPos + 5);
+                mData->stream->write(&frozen, 1).flush();
+            }
+            catch (std::exception &)
+            {
+                mData->failed = true;
+            }
+        }
+        mData->closeStream();
     }
+    return !mData->failed;
+}
+
+void OStream::fail()
+{
+    Alembic::Util::scoped_lock l(mData->lock);
+    mData->failed = true;
 }
 
 bool OStream::isValid()
@@ -156,16 +204,23 @@ Alembic::Util::uint64_t OStream::getAndSeekEndPos()
     if (isValid())
     {
         Alembic::Util::scoped_lock l(mData->lock);
-        Alembic::Util::uint64_t lastp =
-            mData->stream->seekp(0, std::ios_base::end).tellp();
-        if (lastp == INVALID_DATA || lastp < mData->startPos)
+        mData->checkFailed();
+        try
         {
-            throw std::runtime_error(
-                "Illegal position returned Ogawa::OStream::getAndSeekEndPos");
-
-            return 0;
+            Alembic::Util::uint64_t lastp =
+                mData->stream->seekp(0, std::ios_base::end).tellp();
+            if (lastp == INVALID_DATA || lastp < mData->startPos)
+            {
+                throw std::runtime_error(
+                    "Illegal position returned Ogawa::OStream::getAndSeekEndPos");
+            }
+            return lastp - mData->startPos;
+        }
+        catch (...)
+        {
+            mData->failed = true;
+            throw;
         }
-        return lastp - mData->startPos;
     }
     return 0;
 }
@@ -175,7 +230,16 @@ void OStream::seek(Alembic::Util::uint64_t iPos)
     if (isValid())
     {
         Alembic::Util::scoped_lock l(mData->lock);
-        mData->stream->seekp(iPos + mData->startPos);
+        mData->checkFailed();
+        try
+        {
+            mData->stream->seekp(iPos + mData->startPos);
+        }
+        catch (...)
+        {
+            mData->failed = true;
+            throw;
+        }
     }
 }
 
@@ -184,7 +248,16 @@ void OStream::write(const void * iBuf, Alembic::Util::uint64_t iSize)
     if (isValid())
     {
         Alembic::Util::scoped_lock l(mData->lock);
-        mData->stream->write((const char *)iBuf, iSize).flush();
+        mData->checkFailed();
+        try
+        {
+            mData->stream->write((const char *)iBuf, iSize).flush();
+        }
+        catch (...)
+        {
+            mData->failed = true;
+            throw;
+        }
     }
 }
 
-- 
2.43.0


From 470840e3c3393b39fe8a6104158505b76539fe30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 22/51] fix: layers were returned without their metadata when
 it could not be read from an HDF5 file

---
 export/Field3DFileHDF5.h | 31 +++++++++++++++++++++++--------
 src/Field3DFileHDF5.cpp  | 30 ++++++++++++++++++++++++------
 2 files changed, 47 insertions(+), 14 deletions(-)

diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index 98c6e0b..e144330 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -1132,9 +1132,14 @@ Field3DInputFileHDF5::readLayer(const std::string &intPartitionName,
 
   // read the metadata 
   string metadataPath = layerPath + "/metadata";
-  H5ScopedGopen metadataGroup(m_file, metadataPath.c_str());
-  if (metadataGroup.id() > 0) {    
-    readMetadata(metadataGroup.id(), field);
+  if (H5Lexists(m_file, metadataPath.c_str(), H5P_DEFAULT) != 0) {
+    H5ScopedGopen metadataGroup(m_file, metadataPath.c_str());
+    if (metadataGroup.id() < 0 || 
+        !readMetadata(metadataGroup.id(), field)) {
+      Msg::print(Msg::SevWarning, "Couldn't read metadata of layer " + 
+                 layerName);
+      return nullPtr;
+    }
   }
 
   // Set the name of the field so it's possible to re-create the file
@@ -1216,11 +1221,16 @@ Field3DInputFileHDF5::readProxyLayer(const std::string &partitionName,
             readProxyLayer<Data_T>(layerGroup, partitionName, layerName, 
                                    part->mapping);
 
+          if (!field) {
+            return emptyList;
+          }
+
           // Read MIPField's number of mip levels
           int numLevels = 0;
-          H5ScopedGopen mipGroup(layerGroup, "mip_levels");
-          if (mipGroup.id() >= 0)
+          if (H5Lexists(layerGroup, "mip_levels", H5P_DEFAULT) != 0) {
+            H5ScopedGopen mipGroup(layerGroup, "mip_levels");
             readAttribute(mipGroup, "levels", 1, numLevels);
+          }
           field->metadata().setIntMetadata("mip_levels", numLevels);
 
           // Add field to output
@@ -1269,9 +1279,14 @@ Field3DInputFileHDF5::readProxyLayer(hid_t location,
   field->setSize(extents, dataW);
 
   // Read the metadata 
-  H5ScopedGopen metadataGroup(location, "metadata");
-  if (metadataGroup.id() > 0) {    
-    readMetadata(metadataGroup.id(), field);
+  if (H5Lexists(location, "metadata", H5P_DEFAULT) != 0) {
+    H5ScopedGopen metadataGroup(location, "metadata");
+    if (metadataGroup.id() < 0 || 
+        !readMetadata(metadataGroup.id(), field)) {
+      Msg::print(Msg::SevWarning, "Couldn't read metadata of layer " + 
+                 attribute);
+      return null;
+    }
   }
 
   // Set field properties
diff --git a/src/Field3DFileHDF5.cpp b/src/Field3DFileHDF5.cpp
index 5da1398..72074dd 100644
--- a/src/Field3DFileHDF5.cpp
+++ b/src/Field3DFileHDF5.cpp
@@ -838,12 +838,21 @@ readMetadata(hid_t metadata_id, FieldBase::Ptr field) const
 {
   GlobalLock lock(g_hdf5Mutex);
 
-  hsize_t num_attrs = H5Aget_num_attrs(metadata_id);
+  const int num_attrs = H5Aget_num_attrs(metadata_id);
+
+  if (num_attrs < 0) {
+    Msg::print(Msg::SevWarning, "Failed to read number of metadata");
+    return false;
+  }
 
   if (num_attrs > 0) { 
-    for (hsize_t idx=0; idx < num_attrs ; ++idx) {
+    for (int idx=0; idx < num_attrs ; ++idx) {
       H5ScopedAopenIdx attrIdx(metadata_id, idx);
-      size_t len = H5Aget_name(attrIdx.id(), 0, NULL);
+      const ssize_t len = H5Aget_name(attrIdx.id(), 0, NULL);
+      if (len < 0) {
+        Msg::print(Msg::SevWarning, "Failed to read metadata name");
+        return false;
+      }
       if (len > 0) {
         char *name = new char[len+1];
         if (H5Aget_name(attrIdx.id(), len+1, name) > 0) {
@@ -948,12 +957,21 @@ Field3DInputFileHDF5::readMetadata(hid_t metadata_id)
 {
   GlobalLock lock(g_hdf5Mutex);
 
-  hsize_t num_attrs = H5Aget_num_attrs(metadata_id);
+  const int num_attrs = H5Aget_num_attrs(metadata_id);
+
+  if (num_attrs < 0) {
+    Msg::print(Msg::SevWarning, "Failed to read number of metadata");
+    return false;
+  }
 
   if (num_attrs > 0) { 
-    for (hsize_t idx=0; idx < num_attrs ; ++idx) {
+    for (int idx=0; idx < num_attrs ; ++idx) {
       H5ScopedAopenIdx attrIdx(metadata_id, idx);
-      size_t len = H5Aget_name(attrIdx.id(), 0, NULL);
+      const ssize_t len = H5Aget_name(attrIdx.id(), 0, NULL);
+      if (len < 0) {
+        Msg::print(Msg::SevWarning, "Failed to read metadata name");
+        return false;
+      }
       if (len > 0) {
         char *name = new char[len+1];
         if (H5Aget_name(attrIdx.id(), len+1, name) > 0) {
-- 
2.43.0


From 2d9c6f532e031344777e6588eed866f127898e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 23/51] fix: a mapping that could not be read was replaced by a
 default one

---
 src/FieldMappingIO.cpp | 102 ++++++++++++++++++-----------------------
 1 file changed, 44 insertions(+), 58 deletions(-)

diff --git a/src/FieldMappingIO.cpp b/src/FieldMappingIO.cpp
index f51a8f9..c4ae6c8 100644
--- a/src/FieldMappingIO.cpp
+++ b/src/FieldMappingIO.cpp
@@ -80,6 +80,17 @@ namespace {
   const string k_frustumMappingScreenMatrix("screen_to_world_");
   const string k_frustumMappingCameraMatrix("camera_to_world_");
   const string k_frustumMappingZDistribution("z_distribution");
+
+  //! Whether the attribute exists. Throws if that can't be found out
+  bool hasAttribute(hid_t location, const string &attrName)
+  {
+    GlobalLock lock(g_hdf5Mutex);
+    const htri_t exists = H5Aexists(location, attrName.c_str());
+    if (exists < 0) {
+      throw MissingAttributeException("Couldn't look for attribute " + attrName);
+    }
+    return exists > 0;
+  }
 }
 
 //----------------------------------------------------------------------------//
@@ -155,26 +166,19 @@ MatrixFieldMappingIO::read(hid_t mappingGroup)
   // For backward compatibility, we first try to read the non-time-varying
   // mapping.
 
-  try {
+  if (hasAttribute(mappingGroup, k_matrixMappingDataName)) {
     readAttribute(mappingGroup, k_matrixMappingDataName, 16, mtx.x[0][0]);
     mm->setLocalToWorld(mtx);
     return mm;
   } 
-  catch (...) {
-    // Do nothing
-  }
 
   // If we didn't find the non-time-varying matrix data then we attempt
   // to read time samples
 
-  try {
-    if (!readAttribute(mappingGroup, k_matrixMappingNumSamples, 1, numSamples)) {
-      Msg::print(Msg::SevWarning, "Couldn't read attribute " + 
-                 k_matrixMappingNumSamples);
-      return FieldMapping::Ptr();
-    }
-  } catch (...) {
-    //do nothing
+  if (!readAttribute(mappingGroup, k_matrixMappingNumSamples, 1, numSamples)) {
+    Msg::print(Msg::SevWarning, "Couldn't read attribute " + 
+               k_matrixMappingNumSamples);
+    return FieldMapping::Ptr();
   }
 
   for (int i = 0; i < numSamples; ++i) {
@@ -208,18 +212,14 @@ MatrixFieldMappingIO::read(const OgIGroup &mappingGroup)
 
   MatrixFieldMapping::Ptr mm(new MatrixFieldMapping);
 
-  try {
-    OgIAttribute<int> numSamplesAttr = 
-      mappingGroup.findAttribute<int>(k_matrixMappingNumSamples);
-    if (!numSamplesAttr.isValid()) {
-      Msg::print(Msg::SevWarning, "Couldn't read attribute " + 
-                 k_matrixMappingNumSamples);
-      return FieldMapping::Ptr();
-    }
-    numSamples = numSamplesAttr.value();
-  } catch (...) {
-    //do nothing
+  OgIAttribute<int> numSamplesAttr = 
+    mappingGroup.findAttribute<int>(k_matrixMappingNumSamples);
+  if (!numSamplesAttr.isValid()) {
+    Msg::print(Msg::SevWarning, "Couldn't read attribute " + 
+               k_matrixMappingNumSamples);
+    return FieldMapping::Ptr();
   }
+  numSamples = numSamplesAttr.value();
 
   for (int i = 0; i < numSamples; ++i) {
     string timeAttr = k_matrixMappingTime + boost::lexical_cast<string>(i);
@@ -351,14 +351,10 @@ FrustumFieldMappingIO::read(hid_t mappingGroup)
   
   // Read number of time samples
 
-  try {
-    if (!readAttribute(mappingGroup, k_frustumMappingNumSamples, 1, numSamples)) {
-      Msg::print(Msg::SevWarning, "Couldn't read attribute " + 
-                 k_frustumMappingNumSamples);
-      return FieldMapping::Ptr();
-    }
-  } catch (...) {
-    //do nothing
+  if (!readAttribute(mappingGroup, k_frustumMappingNumSamples, 1, numSamples)) {
+    Msg::print(Msg::SevWarning, "Couldn't read attribute " + 
+               k_frustumMappingNumSamples);
+    return FieldMapping::Ptr();
   }
 
   // Read each time sample
@@ -392,14 +388,14 @@ FrustumFieldMappingIO::read(hid_t mappingGroup)
   int distInt;
   FrustumFieldMapping::ZDistribution dist;
   
-  try {
+  if (hasAttribute(mappingGroup, k_frustumMappingZDistribution)) {
     if (!readAttribute(mappingGroup, k_frustumMappingZDistribution, 1, distInt)) {
       Msg::print(Msg::SevWarning, "Couldn't read attribute " + 
                  k_frustumMappingZDistribution);
       return FieldMapping::Ptr();
     }
     dist = static_cast<FrustumFieldMapping::ZDistribution>(distInt); 
-  } catch (...) {
+  } else {
     dist = FrustumFieldMapping::PerspectiveDistribution;
   }
 
@@ -419,18 +415,14 @@ FrustumFieldMappingIO::read(const OgIGroup &mappingGroup)
   
   // Read number of time samples
 
-  try {
-    OgIAttribute<int> numSamplesAttr = 
-      mappingGroup.findAttribute<int>(k_frustumMappingNumSamples);
-    if (!numSamplesAttr.isValid()) {
-      Msg::print(Msg::SevWarning, "Couldn't read attribute " + 
-                 k_frustumMappingNumSamples);
-      return FieldMapping::Ptr();
-    }
-    numSamples = numSamplesAttr.value();
-  } catch (...) {
-    //do nothing
+  OgIAttribute<int> numSamplesAttr = 
+    mappingGroup.findAttribute<int>(k_frustumMappingNumSamples);
+  if (!numSamplesAttr.isValid()) {
+    Msg::print(Msg::SevWarning, "Couldn't read attribute " + 
+               k_frustumMappingNumSamples);
+    return FieldMapping::Ptr();
   }
+  numSamples = numSamplesAttr.value();
 
   // Read each time sample
 
@@ -466,22 +458,16 @@ FrustumFieldMappingIO::read(const OgIGroup &mappingGroup)
 
   // Read Z distribution
 
-  FrustumFieldMapping::ZDistribution dist;
-  
-  try {
-    OgIAttribute<int> zDist = 
-      mappingGroup.findAttribute<int>(k_frustumMappingZDistribution);
-    if (!zDist.isValid()) {
-      Msg::print(Msg::SevWarning, "Couldn't read attribute " + 
-                 k_frustumMappingZDistribution);
-      return FieldMapping::Ptr();
-    }
-    dist = static_cast<FrustumFieldMapping::ZDistribution>(zDist.value()); 
-  } catch (...) {
-    dist = FrustumFieldMapping::PerspectiveDistribution;
+  OgIAttribute<int> zDist = 
+    mappingGroup.findAttribute<int>(k_frustumMappingZDistribution);
+  if (!zDist.isValid()) {
+    Msg::print(Msg::SevWarning, "Couldn't read attribute " + 
+               k_frustumMappingZDistribution);
+    return FieldMapping::Ptr();
   }
 
-  fm->setZDistribution(dist);
+  fm->setZDistribution
+    (static_cast<FrustumFieldMapping::ZDistribution>(zDist.value()));
 
   return fm;
 }
-- 
2.43.0


From 1eec5b619b07769fbf92e0d6e5d963b3ab225aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 24/51] fix: a partition whose mapping could not be written was
 used for later layers

---
 src/Field3DFile.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index 9dfeccc..e78a35c 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -1394,17 +1394,12 @@ Field3DOutputFile::createNewPartition(const std::string &partitionName,
 {
   using namespace Exc;
   
-  File::Partition::Ptr newPart(new File::Partition);
-  newPart->name = partitionName;
+  File::Partition::Ptr part(new File::Partition);
+  part->name = partitionName;
 
-  boost::shared_ptr<OgOGroup> ogPartition(new OgOGroup(*m_root, newPart->name));
-  newPart->setGroup(ogPartition);
+  boost::shared_ptr<OgOGroup> ogPartition(new OgOGroup(*m_root, part->name));
+  part->setGroup(ogPartition);
 
-  m_partitions.push_back(newPart);
-
-  // Pick up new pointer
-  File::Partition::Ptr part = partition(partitionName);
-  
   // Add mapping group to the partition
   try {
     if (!writeMapping(*ogPartition, field->mapping())) {
@@ -1434,6 +1429,9 @@ Field3DOutputFile::createNewPartition(const std::string &partitionName,
   // Create a version attribute on the root node
   OgOAttribute<string>(*ogPartition, "is_field3d_partition", "1");
 
+  // Only a complete partition can be used by subsequent layers
+  m_partitions.push_back(part);
+
   return part;
 }
 
-- 
2.43.0


From ab9d50f9dcbf40c4c70aa0d95782fd2f0b84160e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 25/51] fix: failed HDF5 writes left partial layers behind and
 close did not report errors

---
 export/Field3DFile.h     |  6 ++----
 export/Field3DFileHDF5.h | 29 ++++++++++++++++++-----------
 export/Hdf5Util.h        | 33 +++++++++++++++++++++++++++++++++
 src/Field3DFileHDF5.cpp  | 13 ++++++++-----
 4 files changed, 61 insertions(+), 20 deletions(-)

diff --git a/export/Field3DFile.h b/export/Field3DFile.h
index 2ed8c0f..b4429e4 100644
--- a/export/Field3DFile.h
+++ b/export/Field3DFile.h
@@ -548,8 +548,7 @@ private:
   virtual bool closeInternal()
   {
     if (m_hdf5) {
-      m_hdf5->closeInternal();
-      return true;
+      return m_hdf5->closeInternal();
     }
 
     cleanup();
@@ -798,8 +797,7 @@ private:
   virtual bool closeInternal()
   {
     if (m_hdf5) {
-      m_hdf5->closeInternal();
-      return true;
+      return m_hdf5->closeInternal();
     }
     return cleanup();
   }
diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index e144330..b88c6ef 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -352,7 +352,8 @@ protected:
   //! \{
 
   //! Closes the file if open.
-  void closeInternal();
+  //! Returns whether everything that was written has reached the file.
+  bool closeInternal();
   //! Returns a pointer to the given partition
   //! \returns NULL if no partition was found of that name
   FileHDF5::Partition::Ptr partition(const std::string &partitionName);
@@ -1402,25 +1403,21 @@ Field3DOutputFileHDF5::createNewPartition(const std::string &partitionName,
   
   GlobalLock lock(g_hdf5Mutex);
 
-  FileHDF5::Partition::Ptr newPart(new FileHDF5::Partition);
+  FileHDF5::Partition::Ptr part(new FileHDF5::Partition);
 
-  newPart->name = partitionName;
+  part->name = partitionName;
 
-  H5ScopedGcreate partGroup(m_file, newPart->name.c_str());
+  H5ScopedGcreate partGroup(m_file, part->name.c_str());
   if (partGroup.id() < 0) {
     Msg::print(Msg::SevWarning, 
-               "Error creating partition: " + newPart->name);
+               "Error creating partition: " + part->name);
     return FileHDF5::Partition::Ptr();
   } 
-    
-  m_partitions.push_back(newPart);
 
-  // Pick up new pointer
-  FileHDF5::Partition::Ptr  part = partition(partitionName);
+  // Remove the group on disk if the partition can't be completed
+  H5ScopedLdelete partLink(m_file, part->name);
   
   // Add mapping group to the partition
-  //! \todo We should probably remove the group on disk if we can't write
-  //! the mapping
   try {
     if (!writeMapping(partGroup.id(), field->mapping())) {
       Msg::print(Msg::SevWarning, 
@@ -1452,6 +1449,11 @@ Field3DOutputFileHDF5::createNewPartition(const std::string &partitionName,
     return FileHDF5::Partition::Ptr();    
   }
 
+  partLink.release();
+
+  // Only a complete partition can be used by subsequent layers
+  m_partitions.push_back(part);
+
   return part;
 }
 
@@ -1555,6 +1557,9 @@ Field3DOutputFileHDF5::writeLayer(const std::string &userPartitionName,
     return false;
   }
 
+  // Remove the group on disk if the layer can't be completed
+  H5ScopedLdelete layerLink(partGroup.id(), layerName);
+
   // Tag as layer
   if (!writeAttribute(layerGroup.id(), "class_type", "field3d_layer")) {
     Msg::print(Msg::SevWarning, "Error adding layer string.");
@@ -1577,6 +1582,8 @@ Field3DOutputFileHDF5::writeLayer(const std::string &userPartitionName,
     return false;
   }
   
+  layerLink.release();
+
   // Add layer to partition ---
 
   if (isVectorLayer)
diff --git a/export/Hdf5Util.h b/export/Hdf5Util.h
index 9226f36..4729bbe 100644
--- a/export/Hdf5Util.h
+++ b/export/Hdf5Util.h
@@ -189,6 +189,39 @@ public:
 
 //----------------------------------------------------------------------------//
 
+//! Scoped object - deletes a link on destruction, unless it was released.
+//! \ingroup hdf5
+class H5ScopedLdelete
+{
+public:
+  H5ScopedLdelete(hid_t location, const std::string &name)
+    : m_location(location), m_name(name), m_released(false)
+  {
+    // Empty
+  }
+  ~H5ScopedLdelete()
+  {
+    if (!m_released) {
+      GlobalLock lock(g_hdf5Mutex);
+      H5Ldelete(m_location, m_name.c_str(), H5P_DEFAULT);
+    }
+  }
+  //! Keeps the link
+  void release()
+  {
+    m_released = true;
+  }
+private:
+  // Noncopyable
+  H5ScopedLdelete(const H5ScopedLdelete &);
+  H5ScopedLdelete& operator=(const H5ScopedLdelete &);
+  hid_t       m_location;
+  std::string m_name;
+  bool        m_released;
+};
+
+//----------------------------------------------------------------------------//
+
 //! Scoped object - opens a group on creation and closes it on destruction.
 //! \ingroup hdf5
 class H5ScopedGopen : public H5Base
diff --git a/src/Field3DFileHDF5.cpp b/src/Field3DFileHDF5.cpp
index 72074dd..e124cd8 100644
--- a/src/Field3DFileHDF5.cpp
+++ b/src/Field3DFileHDF5.cpp
@@ -495,24 +495,24 @@ void Field3DFileHDF5Base::clear()
 
 bool Field3DFileHDF5Base::close()
 {
-  closeInternal();
-
-  return true;
+  return closeInternal();
 }
 
 //----------------------------------------------------------------------------//
 
-void Field3DFileHDF5Base::closeInternal()
+bool Field3DFileHDF5Base::closeInternal()
 {
   GlobalLock lock(g_hdf5Mutex);
 
   if (m_file != -1) {
     if (H5Fclose(m_file) < 0) {
       Msg::print(Msg::SevWarning, "Failed to close hdf5 file handle");
-      return;
+      return false;
     }    
     m_file = -1;
   }
+
+  return true;
 }
 
 //----------------------------------------------------------------------------//
@@ -1508,10 +1508,13 @@ Field3DOutputFileHDF5::writeGlobalMetadata()
     Msg::print(Msg::SevWarning, "Error creating group: file metadata");
     return false;
   }  
+  // Remove the group if it can't be completed
+  H5ScopedLdelete metadataLink(m_file, "field3d_global_metadata");
   if (!writeMetadata(metadataGroup.id())) {
     Msg::print(Msg::SevWarning, "Error writing file metadata.");
     return false;
   }    
+  metadataLink.release();
  
   return true;
 }
-- 
2.43.0


From dca1d1fb12a1d12e65f6b3a7c07d492823675694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:10 +0000
Subject: [PATCH 26/51] fix: dense and MAC fields were read from HDF5 files
 without holding the HDF5 lock

---
 src/DenseFieldIO.cpp | 3 +++
 src/MACFieldIO.cpp   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/DenseFieldIO.cpp b/src/DenseFieldIO.cpp
index 6ac8542..bbcf1c7 100644
--- a/src/DenseFieldIO.cpp
+++ b/src/DenseFieldIO.cpp
@@ -88,6 +88,9 @@ DenseFieldIO::read(hid_t layerGroup, const std::string &/*filename*/,
   int components;
   hsize_t dims[1];
   
+  // Hold the lock while using Hdf5
+  GlobalLock lock(g_hdf5Mutex);
+
   if (layerGroup == -1)
     throw BadHdf5IdException("Bad layer group in DenseFieldIO::read");
 
diff --git a/src/MACFieldIO.cpp b/src/MACFieldIO.cpp
index b6f53ea..6e549af 100644
--- a/src/MACFieldIO.cpp
+++ b/src/MACFieldIO.cpp
@@ -85,6 +85,9 @@ MACFieldIO::read(hid_t layerGroup, const std::string & /* filename */,
 
   //hsize_t dims[1];
   
+  // Hold the lock while using Hdf5
+  GlobalLock lock(g_hdf5Mutex);
+
   if (layerGroup == -1)
     throw BadHdf5IdException("Bad layer group in MACFieldIO::read");
 
-- 
2.43.0


From 805bfc7b86f405a049a3f0195773164c64e9c679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:10 +0000
Subject: [PATCH 27/51] fix: files of dynamic sparse fields stayed open after
 the fields were gone

---
 export/Hdf5Util.h   |  9 +++++++--
 export/SparseFile.h | 23 +++++++++++++++++------
 src/SparseFile.cpp  |  1 +
 3 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/export/Hdf5Util.h b/export/Hdf5Util.h
index 4729bbe..66061ea 100644
--- a/export/Hdf5Util.h
+++ b/export/Hdf5Util.h
@@ -250,12 +250,17 @@ public:
     GlobalLock lock(g_hdf5Mutex);
     m_id = H5Gopen(parentLocation, name.c_str(), gapl_id);
   }
-
-  ~H5ScopedGopen()
+  void close()
   {
     GlobalLock lock(g_hdf5Mutex);
     if (m_id >= 0)
       H5Gclose(m_id);
+    m_id = -1;
+  }
+
+  ~H5ScopedGopen()
+  {
+    close();
   }
 };
 
diff --git a/export/SparseFile.h b/export/SparseFile.h
index 9fdeb8e..e58cc44 100644
--- a/export/SparseFile.h
+++ b/export/SparseFile.h
@@ -174,7 +174,8 @@ public:
   bool fileIsOpen();
   //! Sets the number of blocks used by the SparseField we're supporting
   void setNumBlocks(int numBlocks);
-  //! Forgets all blocks. Called when the SparseField goes away.
+  //! Forgets all blocks and closes the file. Called when the SparseField goes 
+  //! away.
   void releaseBlocks();
   //! Opens the file. This is done just before the first request to loadBlock.
   //! This is delayed so that the original file open  has closed the file and
@@ -575,10 +576,6 @@ Reference<Data_T>::~Reference()
 {
   closeFile();
 
-  if (m_reader) {
-    delete m_reader;
-  }
-
   if (blockMutex)
     delete [] blockMutex;
 }
@@ -723,6 +720,8 @@ void Reference<Data_T>::releaseBlocks()
   std::vector<int>().swap(refCounts);
   delete[] blockMutex;
   blockMutex = NULL;
+
+  closeFile();
 }
 
 //----------------------------------------------------------------------------//
@@ -730,10 +729,22 @@ void Reference<Data_T>::releaseBlocks()
 template <class Data_T>
 void Reference<Data_T>::closeFile()
 {
+  // The readers refer to the file
+  delete m_reader;
+  m_reader = NULL;
+  m_ogReader = NULL;
+  m_ogReaderPtr.reset();
+  m_ogLayerGroup.reset();
+  m_ogRoot.reset();
+  m_ogArchive.reset();
+
+  m_layerGroup.close();
   if (m_fileHandle >= 0) {
+    GlobalLock lock(g_hdf5Mutex);
     if (H5Fclose(m_fileHandle) < 0) {
-      Msg::print("In ~Reference(): Error closing file " + filename);
+      Msg::print("Error closing file " + filename);
     }
+    m_fileHandle = -1;
   }
 }
 
diff --git a/src/SparseFile.cpp b/src/SparseFile.cpp
index 06eb3f6..356898b 100644
--- a/src/SparseFile.cpp
+++ b/src/SparseFile.cpp
@@ -638,6 +638,7 @@ void Reference<Data_T>::openFile()
   }
   catch (...) {
     // The next access tries again
+    m_layerGroup.close();
     H5Fclose(fileHandle);
     throw;
   }
-- 
2.43.0


From 17d3fcd772685d68a0d48d9e0fcf66a594956e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 28/51] fix: blocks of dynamic sparse fields are loaded before
 they are written to a file

---
 src/SparseFieldIO.cpp | 60 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 53 insertions(+), 7 deletions(-)

diff --git a/src/SparseFieldIO.cpp b/src/SparseFieldIO.cpp
index 058a925..3f8453f 100644
--- a/src/SparseFieldIO.cpp
+++ b/src/SparseFieldIO.cpp
@@ -187,15 +187,54 @@ private:
 
 //----------------------------------------------------------------------------//
 
+//! Makes sure that the data of a block is in memory, and that it stays there 
+//! for the lifetime of the object. 
+template <typename Data_T>
+class ScopedBlock
+{
+public:
+  ScopedBlock(const SparseField<Data_T> &field, const size_t blockIdx)
+    : m_field(field), m_blockIdx(blockIdx)
+  {
+    if (m_field.isDynamicLoad()) {
+      m_field.incBlockRef(m_blockIdx);
+      try {
+        m_field.activateBlock(m_blockIdx);
+      }
+      catch (...) {
+        m_field.decBlockRef(m_blockIdx);
+        throw;
+      }
+    }
+  }
+  ~ScopedBlock()
+  {
+    if (m_field.isDynamicLoad()) {
+      m_field.decBlockRef(m_blockIdx);
+    }
+  }
+private:
+  // Noncopyable
+  ScopedBlock(const ScopedBlock &);
+  ScopedBlock& operator=(const ScopedBlock &);
+  // Data members ---
+  const SparseField<Data_T> &m_field;
+  const size_t               m_blockIdx;
+};
+
+//----------------------------------------------------------------------------//
+
 template <typename Data_T>
 struct ThreadingState
 {
   ThreadingState(OgOCDataset<Data_T> &i_data, 
+                 const SparseField<Data_T> &i_field,
                  Sparse::SparseBlock<Data_T> *i_blocks, 
                  const size_t i_numVoxels, 
                  const size_t i_numBlocks,
                  const std::vector<uint8_t> &i_isAllocated)
     : data(i_data),
+      field(i_field),
       blocks(i_blocks),
       numVoxels(i_numVoxels), 
       numBlocks(i_numBlocks),
@@ -228,6 +267,7 @@ struct ThreadingState
   }
   // Data members
   OgOCDataset<Data_T> &data;
+  const SparseField<Data_T> &field;
   Sparse::SparseBlock<Data_T> *blocks;
   const size_t numVoxels;
   const size_t numBlocks;
@@ -287,16 +327,20 @@ private:
     // Loop over blocks until we run out
     while (blockIdx < m_state.numBlocks) {
       if (m_state.blocks[blockIdx].isAllocated) {
-        // Block data as bytes
-        const uint8_t *srcData = 
-          reinterpret_cast<const uint8_t *>(m_state.blocks[blockIdx].data);
         // Length of compressed data is stored here
         const uLong srcLen      = m_state.numVoxels * sizeof(Data_T);
         const uLong cmpLenBound = compressBound(srcLen);
         uLong cmpLen            = cmpLenBound;
-        // Perform compression
-        const int status = compress2(&m_cache[0], &cmpLen, 
-                                     srcData, srcLen, level);
+        int status;
+        {
+          // The block may have to be loaded first
+          ScopedBlock<Data_T> block(m_state.field, blockIdx);
+          // Block data as bytes
+          const uint8_t *srcData = 
+            reinterpret_cast<const uint8_t *>(m_state.blocks[blockIdx].data);
+          // Perform compression
+          status = compress2(&m_cache[0], &cmpLen, srcData, srcLen, level);
+        }
         // Error check
         if (status != Z_OK) {
           std::cout << "ERROR: Couldn't compress in SparseFieldIO." << std::endl
@@ -1103,6 +1147,8 @@ bool SparseFieldIO::writeInternal(hid_t layerGroup,
             "Couldn't select slab " + 
             boost::lexical_cast<std::string>(nextBlockIdx));
         }
+        // The block may have to be loaded first
+        ScopedBlock<Data_T> block(*field, i);
         Data_T *data = field->m_blocks[i].data;
         status = H5Dwrite(dataSet.id(), DataTypeTraits<Data_T>::h5type(), 
                           memDataSpace.id(), 
@@ -1198,7 +1244,7 @@ bool SparseFieldIO::writeInternal(OgOGroup &layerGroup,
   // Write data if there is any
   if (occupiedBlocks > 0) {
     // Threading state
-    ThreadingState<Data_T> state(data, blocks, numVoxels, numBlocks, 
+    ThreadingState<Data_T> state(data, *field, blocks, numVoxels, numBlocks, 
                                  isAllocated);
     // Number of threads
     const size_t numThreads = numIOThreads();
-- 
2.43.0


From 070921056fd16dd14f15727258429b7f636cb103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 29/51] fix: writing fields that load on demand to an HDF5 file
 could deadlock with threads loading them

---
 export/Field3DFileHDF5.h |  7 +++++++
 src/DenseFieldIO.cpp     |  3 +++
 src/MACFieldIO.cpp       |  3 +++
 src/SparseFieldIO.cpp    | 10 ++++++++--
 4 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index b88c6ef..0421835 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -1577,10 +1577,17 @@ Field3DOutputFileHDF5::writeLayer(const std::string &userPartitionName,
     return false;
   }    
 
+  // Unlock the g_hdf5Mutex while calling writeField(). The data of the field 
+  // may have to be loaded first, and other threads can be waiting for the 
+  // mutex while they are loading it (prevents deadlocks with sparse reader)
+  lock.unlock();
+
   if (!writeField(layerGroup.id(), field)) {
     Msg::print(Msg::SevWarning, "Error writing layer: " + layer.name);
     return false;
   }
+
+  lock.lock();
   
   layerLink.release();
 
diff --git a/src/DenseFieldIO.cpp b/src/DenseFieldIO.cpp
index bbcf1c7..71e341b 100644
--- a/src/DenseFieldIO.cpp
+++ b/src/DenseFieldIO.cpp
@@ -267,6 +267,9 @@ DenseFieldIO::read(const OgIGroup &lg, const std::string &/*filename*/,
 bool
 DenseFieldIO::write(hid_t layerGroup, FieldBase::Ptr field)
 {
+  // Hold the lock while using Hdf5
+  GlobalLock lock(g_hdf5Mutex);
+
   if (layerGroup == -1)
     throw BadHdf5IdException("Bad layer group in DenseFieldIO::write");
 
diff --git a/src/MACFieldIO.cpp b/src/MACFieldIO.cpp
index 6e549af..722c04e 100644
--- a/src/MACFieldIO.cpp
+++ b/src/MACFieldIO.cpp
@@ -171,6 +171,9 @@ MACFieldIO::read(const OgIGroup & /* layerGroup */,
 bool
 MACFieldIO::write(hid_t layerGroup, FieldBase::Ptr field)
 {
+  // Hold the lock while using Hdf5
+  GlobalLock lock(g_hdf5Mutex);
+
   if (layerGroup == -1) {
     throw BadHdf5IdException("Bad layer group in MACFieldIO::write");
   }
diff --git a/src/SparseFieldIO.cpp b/src/SparseFieldIO.cpp
index 3f8453f..123ec4f 100644
--- a/src/SparseFieldIO.cpp
+++ b/src/SparseFieldIO.cpp
@@ -1088,6 +1088,9 @@ bool SparseFieldIO::writeInternal(hid_t layerGroup,
   
   if (occupiedBlocks > 0) {
 
+    // Hold the lock while using Hdf5, but not while blocks are being loaded
+    GlobalLock lock(g_hdf5Mutex);
+
     // Make the memory data space
     hsize_t memDims[1];
     memDims[0] = valuesPerBlock;
@@ -1134,8 +1137,13 @@ bool SparseFieldIO::writeInternal(hid_t layerGroup,
     hsize_t count[2];
     herr_t status;
 
+    lock.unlock();
+
     for (int i = 0; i < numBlocks; ++i) {
       if (blocks[i].isAllocated) {
+        // The block may have to be loaded first
+        ScopedBlock<Data_T> block(*field, i);
+        GlobalLock blockLock(g_hdf5Mutex);
         offset[0] = nextBlockIdx;  // Index of next block
         offset[1] = 0;             // Index of first data in block. Always 0
         count[0] = 1;              // Number of columns to read. Always 1
@@ -1147,8 +1155,6 @@ bool SparseFieldIO::writeInternal(hid_t layerGroup,
             "Couldn't select slab " + 
             boost::lexical_cast<std::string>(nextBlockIdx));
         }
-        // The block may have to be loaded first
-        ScopedBlock<Data_T> block(*field, i);
         Data_T *data = field->m_blocks[i].data;
         status = H5Dwrite(dataSet.id(), DataTypeTraits<Data_T>::h5type(), 
                           memDataSpace.id(), 
-- 
2.43.0


From c88dcb5186859de376948d6fea8dcb6197084b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:44 +0000
Subject: [PATCH 30/51] fix: close the HDF5 property lists created when writing
 files and fields

The dataset creation property lists made by the dense, MAC and sparse
field writers and the file access property list made by
Field3DOutputFileHDF5::create() were never closed.
---
 export/Hdf5Util.h       | 21 +++++++++++++++++++++
 include/MACFieldIO.h    |  2 +-
 src/DenseFieldIO.cpp    |  2 +-
 src/Field3DFileHDF5.cpp |  2 +-
 src/SparseFieldIO.cpp   |  2 +-
 5 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/export/Hdf5Util.h b/export/Hdf5Util.h
index 66061ea..ed89cc4 100644
--- a/export/Hdf5Util.h
+++ b/export/Hdf5Util.h
@@ -296,6 +296,27 @@ public:
 
 //----------------------------------------------------------------------------//
 
+//! Scoped object - creates a property list on creation and closes it on 
+//! destruction.
+//! \ingroup hdf5
+class H5ScopedPcreate : public H5Base
+{
+public:
+  H5ScopedPcreate(hid_t cls_id)
+  {
+    GlobalLock lock(g_hdf5Mutex);
+    m_id = H5Pcreate(cls_id);
+  }
+  ~H5ScopedPcreate()
+  {
+    GlobalLock lock(g_hdf5Mutex);
+    if (m_id >= 0)
+      H5Pclose(m_id);
+  }
+};
+
+//----------------------------------------------------------------------------//
+
 //! Scoped object - creates a dataset on creation and closes it on destruction.
 //! \ingroup hdf5
 class H5ScopedDcreate : public H5Base
diff --git a/include/MACFieldIO.h b/include/MACFieldIO.h
index 1513b84..0533b0b 100644
--- a/include/MACFieldIO.h
+++ b/include/MACFieldIO.h
@@ -282,7 +282,7 @@ bool MACFieldIO::writeData(hid_t layerGroup,
 
   // Set up gzip property list
   bool gzipAvailable = checkHdf5Gzip();
-  hid_t dcpl = H5Pcreate(H5P_DATASET_CREATE);
+  H5ScopedPcreate dcpl(H5P_DATASET_CREATE);
   if (gzipAvailable) {
     herr_t status = H5Pset_deflate(dcpl, 9);
     if (status < 0) {
diff --git a/src/DenseFieldIO.cpp b/src/DenseFieldIO.cpp
index 71e341b..db8be4c 100644
--- a/src/DenseFieldIO.cpp
+++ b/src/DenseFieldIO.cpp
@@ -448,7 +448,7 @@ bool DenseFieldIO::writeInternal(hid_t layerGroup,
 
   // Set up gzip property list
   bool gzipAvailable = checkHdf5Gzip();
-  hid_t dcpl = H5Pcreate(H5P_DATASET_CREATE);
+  H5ScopedPcreate dcpl(H5P_DATASET_CREATE);
   if (gzipAvailable) {
     herr_t status = H5Pset_deflate(dcpl, 9);
     if (status < 0) {
diff --git a/src/Field3DFileHDF5.cpp b/src/Field3DFileHDF5.cpp
index e124cd8..40f9326 100644
--- a/src/Field3DFileHDF5.cpp
+++ b/src/Field3DFileHDF5.cpp
@@ -1264,7 +1264,7 @@ bool Field3DOutputFileHDF5::create(const string &filename, CreateMode cm)
 
   try {
 
-    hid_t faid = H5Pcreate(H5P_FILE_ACCESS);
+    H5ScopedPcreate faid(H5P_FILE_ACCESS);
     H5Pset_libver_bounds(faid, H5F_LIBVER_LATEST, H5F_LIBVER_LATEST);
 
     // Create new file
diff --git a/src/SparseFieldIO.cpp b/src/SparseFieldIO.cpp
index 123ec4f..1335866 100644
--- a/src/SparseFieldIO.cpp
+++ b/src/SparseFieldIO.cpp
@@ -1106,7 +1106,7 @@ bool SparseFieldIO::writeInternal(hid_t layerGroup,
 
     // Set up gzip property list
     bool gzipAvailable = checkHdf5Gzip();
-    hid_t dcpl = H5Pcreate(H5P_DATASET_CREATE);
+    H5ScopedPcreate dcpl(H5P_DATASET_CREATE);
     hsize_t chunkSize[2];
     chunkSize[0] = 1;
     chunkSize[1] = valuesPerBlock;
-- 
2.43.0


From f615f862a7ac05252083a46bec177d6f9b1e1694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:05 +0000
Subject: [PATCH 31/51] fix: close the HDF5 file when a MIP level cannot be
 read

GenericLazyLoadActionHDF5::load() left the file open when the level's
FieldIO class threw or returned no field.
---
 export/Hdf5Util.h    | 21 +++++++++++++++++++++
 include/MIPFieldIO.h | 18 +++++-------------
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/export/Hdf5Util.h b/export/Hdf5Util.h
index ed89cc4..f488c35 100644
--- a/export/Hdf5Util.h
+++ b/export/Hdf5Util.h
@@ -222,6 +222,27 @@ private:
 
 //----------------------------------------------------------------------------//
 
+//! Scoped object - opens a file for reading on creation and closes it on 
+//! destruction.
+//! \ingroup hdf5
+class H5ScopedFopen : public H5Base
+{
+public:
+  H5ScopedFopen(const std::string &filename)
+  {
+    GlobalLock lock(g_hdf5Mutex);
+    m_id = H5Fopen(filename.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
+  }
+  ~H5ScopedFopen()
+  {
+    GlobalLock lock(g_hdf5Mutex);
+    if (m_id >= 0)
+      H5Fclose(m_id);
+  }
+};
+
+//----------------------------------------------------------------------------//
+
 //! Scoped object - opens a group on creation and closes it on destruction.
 //! \ingroup hdf5
 class H5ScopedGopen : public H5Base
diff --git a/include/MIPFieldIO.h b/include/MIPFieldIO.h
index 787f248..096f5ae 100644
--- a/include/MIPFieldIO.h
+++ b/include/MIPFieldIO.h
@@ -260,19 +260,19 @@ public:
   {
     using namespace Hdf5Util;
 
-    hid_t file;
+    boost::shared_ptr<H5ScopedFopen> file;
     boost::shared_ptr<H5ScopedGopen> levelGroup;
 
     {
       // Hold lock while calling H5Fopen
       GlobalLock lock(g_hdf5Mutex);
       
-      // Open the HDF5 file
-      file = H5Fopen(m_filename.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
-      if (file < 0) {
+      // Open the HDF5 file. It is closed again however this function ends
+      file.reset(new H5ScopedFopen(m_filename));
+      if (file->id() < 0) {
         throw Exc::NoSuchFileException(m_filename);
       }
-      levelGroup.reset(new H5ScopedGopen(file, m_path));
+      levelGroup.reset(new H5ScopedGopen(*file, m_path));
     }
 
     // Instantiate I/O
@@ -282,14 +282,6 @@ public:
     if (!field) {
       throw Exc::MIPFieldIOException("Failed to read MIP level from disk.");
     }
-    {
-      // Hold lock again
-      GlobalLock lock(g_hdf5Mutex);
-      // Close the file
-      if (H5Fclose(file) < 0) {
-        Msg::print("Error closing file: " + m_filename);
-      } 
-    }
     // Done
     return field_dynamic_cast<Field_T>(field);
   }
-- 
2.43.0


From 0236315c34ecae65860071e8d3ac227ddcbc790e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:48 +0000
Subject: [PATCH 32/51] fix: classes registered by plugins were lost

The plugins were loaded by ClassFactory's constructor, before singleton()
had stored the instance. ClassFactory::singleton() then created further
instances to register the plugins' classes with, which were destroyed when
the first one was stored.
---
 src/ClassFactory.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ClassFactory.cpp b/src/ClassFactory.cpp
index 8debdc0..47824fc 100644
--- a/src/ClassFactory.cpp
+++ b/src/ClassFactory.cpp
@@ -64,7 +64,7 @@ boost::scoped_ptr<ClassFactory> ClassFactory::ms_instance;
 
 ClassFactory::ClassFactory()
 {
-  PluginLoader::loadPlugins();
+  // Empty. Plugins are loaded by singleton()
 }
 
 //----------------------------------------------------------------------------//
@@ -279,6 +279,9 @@ ClassFactory::singleton()
 { 
   if (ms_instance.get() == NULL) {
     ms_instance.reset(new ClassFactory);
+    // The instance must be in place at this point, so that this is where the
+    // plugins register their classes.
+    PluginLoader::loadPlugins();
   }
   return *ms_instance;
 }
-- 
2.43.0


From 228f62613a0dd288de66a33138285f311884fefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:48 +0000
Subject: [PATCH 33/51] fix: creating ClassFactory and SparseFileManager from
 several threads

Two threads making the first use of a singleton could each create an
instance, and one of them was left with a deleted object.
---
 src/ClassFactory.cpp | 6 ++++++
 src/SparseFile.cpp   | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/src/ClassFactory.cpp b/src/ClassFactory.cpp
index 47824fc..dcf9cc0 100644
--- a/src/ClassFactory.cpp
+++ b/src/ClassFactory.cpp
@@ -41,6 +41,8 @@
 
 //----------------------------------------------------------------------------//
 
+#include <boost/thread/recursive_mutex.hpp>
+
 #include "ClassFactory.h"
 #include "PluginLoader.h"
 
@@ -277,6 +279,10 @@ ClassFactory::createFieldMappingIO(const std::string &className) const
 ClassFactory& 
 ClassFactory::singleton()
 { 
+  // Recursive, since plugins use the singleton while they are being loaded
+  static boost::recursive_mutex mutex;
+  boost::recursive_mutex::scoped_lock lock(mutex);
+
   if (ms_instance.get() == NULL) {
     ms_instance.reset(new ClassFactory);
     // The instance must be in place at this point, so that this is where the
diff --git a/src/SparseFile.cpp b/src/SparseFile.cpp
index 356898b..181f19e 100644
--- a/src/SparseFile.cpp
+++ b/src/SparseFile.cpp
@@ -65,6 +65,9 @@ boost::scoped_ptr<SparseFileManager> SparseFileManager::ms_singleton;
 
 SparseFileManager & SparseFileManager::singleton()
 { 
+  static boost::mutex mutex;
+  boost::mutex::scoped_lock lock(mutex);
+
   if (ms_singleton.get() == NULL) {
     ms_singleton.reset(new SparseFileManager);
   }
-- 
2.43.0


From 6dfc166aeaa4981557a95c34b61039c87e48339a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:26 +0000
Subject: [PATCH 34/51] fix: MIP levels were published before their name,
 metadata and mapping were set

MIPField::loadLevelFromDisk() stored the level where other threads read it
without a lock before it copied the name, attribute and metadata and set the
mapping, so a concurrent reader could use a level in the wrong place in space.
A failure after that point also left the incomplete level behind for good.
The level is now completed first and published last.
---
 export/MIPField.h | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/export/MIPField.h b/export/MIPField.h
index 51342f2..79a1f27 100644
--- a/export/MIPField.h
+++ b/export/MIPField.h
@@ -281,7 +281,7 @@ protected:
   //! Updates the dependent data members based on m_field
   void updateAuxMembers() const;
   //! Updates the name, attribute and metadata for a given level
-  void syncLevelInfo(const size_t level) const;
+  void syncLevelInfo(FieldPtr field) const;
   //! Loads the given level from disk
   void loadLevelFromDisk(size_t level) const;
   //! Sanity checks to ensure that the provided Fields are a MIP representation
@@ -658,15 +658,13 @@ void MIPField<Field_T>::updateAuxMembers() const
 //----------------------------------------------------------------------------//
 
 template <class Field_T>
-void MIPField<Field_T>::syncLevelInfo(const size_t level) const
+void MIPField<Field_T>::syncLevelInfo(FieldPtr field) const
 {
-  // At this point, m_fields[level] is guaranteed in memory
-  
   // First sync name, attribute
-  m_fields[level]->name      = base::name;
-  m_fields[level]->attribute = base::attribute;
+  field->name      = base::name;
+  field->attribute = base::attribute;
   // Copy metadata
-  m_fields[level]->copyMetadata(*this);
+  field->copyMetadata(*this);
 }
 
 //----------------------------------------------------------------------------//
@@ -689,24 +687,26 @@ void MIPField<Field_T>::loadLevelFromDisk(size_t level) const
     boost::mutex::scoped_lock lock(*m_ioMutex);
     if (!m_rawFields[level]) {
       // Execute the lazy load action
-      m_fields[level] = m_loadActions[level]->load();
+      FieldPtr field = m_loadActions[level]->load();
       // Check that field was loaded
-      if (!m_fields[level]) {
+      if (!field) {
         throw Exc::MIPFieldException("Couldn't load MIP level: " + 
                                      boost::lexical_cast<std::string>(level));
       }
-      // Remove lazy load action
-      m_loadActions[level].reset();
-      // Update aux data
-      updateAuxMembers();
       // Ensure metadata is up to date
-      syncLevelInfo(level);
+      syncLevelInfo(field);
       // Update the mapping of the loaded field
       V3i baseRes = base::dataWindow().size() + V3i(1);
       FieldMapping::Ptr mapping = 
         detail::adjustedMIPFieldMapping(this, baseRes, 
-                                        m_fields[level]->extents(), level);
-      m_fields[level]->setMapping(mapping);
+                                        field->extents(), level);
+      field->setMapping(mapping);
+      // The level is complete. Other threads use it without locking as soon as
+      // its raw pointer is set, so that has to come last.
+      m_fields[level] = field;
+      updateAuxMembers();
+      // Remove lazy load action
+      m_loadActions[level].reset();
     }
   }
 }
-- 
2.43.0


From 47e9bc5ef2c93b660beb03f30435c18188382b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:09 +0000
Subject: [PATCH 35/51] fix: copying a MIP field raced with other threads
 loading its levels

MIPField::init() copied the load actions and then the levels of the source
without its mutex. With a level being loaded in between, the copy had neither
the level nor a way to load it, and the shared pointers were copied while
another thread assigned to them. The source's mutex is now held. Levels the
target had before no longer stay where the source has none loaded.
---
 export/MIPField.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/export/MIPField.h b/export/MIPField.h
index 79a1f27..8274c3b 100644
--- a/export/MIPField.h
+++ b/export/MIPField.h
@@ -353,6 +353,11 @@ template <class Field_T>
 const MIPField<Field_T>& 
 MIPField<Field_T>::init(const MIPField &rhs)
 {
+  if (this == &rhs) {
+    return *this;
+  }
+  // Other threads may be loading levels of rhs
+  boost::mutex::scoped_lock lock(*rhs.m_ioMutex);
   // If any of the fields aren't yet loaded, we can rely on the same load 
   // actions as the other one
   m_loadActions = rhs.m_loadActions;
@@ -361,8 +366,9 @@ MIPField<Field_T>::init(const MIPField &rhs)
   m_relativeResolution = rhs.m_relativeResolution;
   // The contained fields must be individually cloned if they have already
   // been loaded
+  m_fields.clear();
   m_fields.resize(rhs.m_fields.size());
-  m_rawFields.resize(rhs.m_rawFields.size());
+  m_rawFields.resize(rhs.m_fields.size());
   for (size_t i = 0, end = m_fields.size(); i < end; ++i) {
     // Update the field pointer
     if (rhs.m_fields[i]) {
-- 
2.43.0


From 6271f1c20a1c0fbd2193d7f5311294715ea61dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 36/51] fix: MIP workers wrote to the same block of a sparse
 level

makeMIP() split the work along the blocks of the source, but the level being
built has its own block size. Workers could then allocate the same block at
once, and voxels one of them had written were lost. The work is now split
along the blocks of the field being written.
---
 export/MIPUtil.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/export/MIPUtil.h b/export/MIPUtil.h
index ab15b7b..07fee81 100644
--- a/export/MIPUtil.h
+++ b/export/MIPUtil.h
@@ -374,8 +374,9 @@ namespace detail {
     // Resize new field
     tgt.setSize(res);
     
-    // Determine granularity
-    const size_t blockSize = threadingBlockSize(src);
+    // Determine granularity. No two threads may write to the same block of
+    // the target
+    const size_t blockSize = threadingBlockSize(tgt);
 
     // Build block list
     std::vector<Box3i> blocks;
-- 
2.43.0


From 648902719ad9478c76238e9ea69e819cfd34a126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 37/51] fix: makeMIP() left voxels of dense levels
 uninitialised

Target voxels that no source voxel contributes to, which odd offsets give at
the border, are not written. In a dense field of vectors they held whatever
was in memory before. The target is now cleared first.
---
 export/MIPUtil.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/export/MIPUtil.h b/export/MIPUtil.h
index 07fee81..7cd22ff 100644
--- a/export/MIPUtil.h
+++ b/export/MIPUtil.h
@@ -373,6 +373,8 @@ namespace detail {
 
     // Resize new field
     tgt.setSize(res);
+    // Voxels that no source voxel contributes to are not written below
+    tgt.clear(static_cast<typename Field_T::value_type>(0.0));
     
     // Determine granularity. No two threads may write to the same block of
     // the target
-- 
2.43.0


From 28c363f397b73c3edbcda04a6822532f4d5ad1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:14 +0000
Subject: [PATCH 38/51] fix: MIP levels of sparse fields lacked what wide
 filters reach

checkInputEmpty() skips target boxes whose source blocks are all empty, but
looked only half as far as the filter does (support() is a radius). With the
Gaussian filter, voxels next to a block boundary were left at zero that a dense
field, or another block size, gives a value.
---
 export/MIPUtil.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export/MIPUtil.h b/export/MIPUtil.h
index 7cd22ff..588d48b 100644
--- a/export/MIPUtil.h
+++ b/export/MIPUtil.h
@@ -138,7 +138,7 @@ namespace detail {
                        const Box3i &tgtBox, const float support,
                        const size_t dim)
   {
-    const int intSupport = static_cast<int>(std::ceil(support * 0.5));
+    const int intSupport = static_cast<int>(std::ceil(support));
     const int pad        = std::max(0, intSupport);
     Box3i     tgtBoxPad  = tgtBox;
     tgtBoxPad.min[dim]  -= pad;
-- 
2.43.0


From 2b07d281a11b89f1a696f5a241218c2f11ebc03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:40 +0000
Subject: [PATCH 39/51] fix: a SparseField deleted its blocks twice when a
 resize ran out of memory

setupBlocks() deleted the old blocks and left the pointer to them in place
while it allocated the new ones. If that threw, the destructor deleted them
again.
---
 export/SparseField.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/export/SparseField.h b/export/SparseField.h
index fa8e25f..58692ca 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -1941,6 +1941,8 @@ void SparseField<Data_T>::setupBlocks()
   m_blockXYSize = m_blockRes.x * m_blockRes.y;
   if (m_blocks) {
     delete[] m_blocks;
+    // In case the allocation below fails
+    m_blocks = NULL;
   }
   m_numBlocks = intBlockRes.x * intBlockRes.y * intBlockRes.z;
   m_blocks = new Block[m_numBlocks];
-- 
2.43.0


From ff5f85ecb7a74965f2cde806c5854ac20b5f0cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:12 +0000
Subject: [PATCH 40/51] fix: a failure in a makeMIP() worker ended the process

The threads that compute MIP levels let exceptions escape, as when memory runs
out or a block of a dynamically loaded base field can't be read, and if not all
of them could be started the ones already running kept using the local state of
the function that had failed. The failure is now reported to the caller, after
all threads have stopped.
---
 export/MIPUtil.h | 94 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 82 insertions(+), 12 deletions(-)

diff --git a/export/MIPUtil.h b/export/MIPUtil.h
index 588d48b..16c44b5 100644
--- a/export/MIPUtil.h
+++ b/export/MIPUtil.h
@@ -46,11 +46,14 @@
 
 //----------------------------------------------------------------------------//
 
+#include <string>
 #include <vector>
 
+#include <boost/scoped_array.hpp>
 #include <boost/thread/thread.hpp>
 #include <boost/thread/mutex.hpp>
 
+#include "Exception.h"
 #include "Resample.h"
 #include "SparseField.h"
 #include "Types.h"
@@ -61,6 +64,16 @@
 
 FIELD3D_NAMESPACE_OPEN
 
+//----------------------------------------------------------------------------//
+// Exceptions
+//----------------------------------------------------------------------------//
+
+namespace Exc {
+
+DECLARE_FIELD3D_GENERIC_EXCEPTION(MakeMIPException, Exception)
+
+} // namespace Exc
+
 //----------------------------------------------------------------------------//
 // Functions
 //----------------------------------------------------------------------------//
@@ -193,7 +206,8 @@ namespace detail {
                          const FilterOp_T &filterOp, 
                          const size_t dim, 
                          const std::vector<Box3i> &blocks,
-                         size_t &nextIdx, boost::mutex &mutex)
+                         size_t &nextIdx, boost::mutex &mutex,
+                         std::string &error)
       : m_src(src),
         m_tgt(tgt),
         m_filterOp(filterOp), 
@@ -203,12 +217,44 @@ namespace detail {
         m_blocks(blocks),
         m_nextIdx(nextIdx),
         m_mutex(mutex),
+        m_error(error),
         m_numBlocks(blocks.size())
     {
       // Empty
     }
 
-    void operator() () 
+    void operator() ()
+    {
+      // An exception must not leave the thread. It is passed on to the caller
+      try {
+        process();
+      }
+      catch (std::exception &e) {
+        fail(e.what());
+      }
+      catch (...) {
+        fail("Unknown exception");
+      }
+    }
+
+  private:
+
+    //! Remembers what went wrong and makes all the threads stop
+    void fail(const char *what)
+    {
+      boost::mutex::scoped_lock lock(m_mutex);
+      m_nextIdx = m_numBlocks;
+      try {
+        m_error = *what ? what : "Unknown exception";
+      }
+      catch (std::exception &) {
+        // Short enough not to need any memory
+        m_error = "No memory";
+      }
+    }
+
+    //! Processes blocks until there are none left
+    void process()
     {
       using namespace std;
 
@@ -330,8 +376,6 @@ namespace detail {
       }
     }
 
-  private:
-
     // Data members ---
 
     const Field_T            &m_src;
@@ -343,6 +387,7 @@ namespace detail {
     const std::vector<Box3i> &m_blocks;
     size_t                   &m_nextIdx;
     boost::mutex             &m_mutex;
+    std::string              &m_error;
     const size_t              m_numBlocks;
     
   };
@@ -403,19 +448,44 @@ namespace detail {
     size_t nextIdx = 0;
     boost::mutex mutex;
 
-    // Launch threads ---
+    // What went wrong in a thread, if anything
+    std::string error;
 
-    boost::thread_group threads;
+    // Launch threads ---
 
-    for (size_t i = 0; i < numThreads; ++i) {
-      threads.create_thread(
-        MIPSeparableThreadOp<Field_T, FilterOp_T, FilterOp_T::isAnalytic >
-        (src, tgt, level, add, filterOp, 
-         dim, blocks, nextIdx, mutex));
+    // (a boost::thread_group loses track of a thread if it runs out of memory 
+    // just after starting it)
+    boost::scoped_array<boost::thread> threads(new boost::thread[numThreads]);
+    size_t numStarted = 0;
+
+    try {
+      for (; numStarted < numThreads; ++numStarted) {
+        threads[numStarted] = boost::thread(
+          MIPSeparableThreadOp<Field_T, FilterOp_T, FilterOp_T::isAnalytic >
+          (src, tgt, level, add, filterOp, 
+           dim, blocks, nextIdx, mutex, error));
+      }
+    }
+    catch (...) {
+      // The threads already running refer to the state above
+      {
+        boost::mutex::scoped_lock lock(mutex);
+        nextIdx = blocks.size();
+      }
+      for (size_t i = 0; i < numStarted; ++i) {
+        threads[i].join();
+      }
+      throw;
     }
 
     // Join
-    threads.join_all();
+    for (size_t i = 0; i < numStarted; ++i) {
+      threads[i].join();
+    }
+
+    if (!error.empty()) {
+      throw Exc::MakeMIPException("Couldn't compute MIP level: " + error);
+    }
   }
 
   //--------------------------------------------------------------------------//
-- 
2.43.0


From 642d839a71f1223b2465d8d854eecdb8b17fb10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:32 +0000
Subject: [PATCH 41/51] fix: readers crashed on incomplete Ogawa groups

---
 include/OgIAttribute.h |  5 +++++
 include/OgUtil.h       |  8 ++++++++
 src/Field3DFile.cpp    |  1 -
 src/OgIGroup.cpp       | 16 ++++++++--------
 src/OgUtil.cpp         | 12 ++++++++++++
 5 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/include/OgIAttribute.h b/include/OgIAttribute.h
index 7d0e128..359b82e 100644
--- a/include/OgIAttribute.h
+++ b/include/OgIAttribute.h
@@ -86,6 +86,11 @@ OgIAttribute<T>::OgIAttribute(Alembic::Ogawa::IGroupPtr group)
     OgIBase::m_group.reset();
     return;
   }
+  // Check that there is a value
+  if (!group->isChildData(3)) {
+    OgIBase::m_group.reset();
+    return;
+  }
   // Update name
   getGroupName(OgIBase::m_group, OgIBase::m_name);
 }
diff --git a/include/OgUtil.h b/include/OgUtil.h
index 07254c7..62f3a48 100644
--- a/include/OgUtil.h
+++ b/include/OgUtil.h
@@ -105,8 +105,16 @@ template <typename T>
 bool readData(Alembic::Ogawa::IGroupPtr group, const size_t idx, 
               T &value) 
 {
+  // Check that there is a group
+  if (!group) {
+    return false;
+  }
   // Grab data
   Alembic::Ogawa::IDataPtr data = group->getData(idx, OGAWA_THREAD);
+  // Check that we got something
+  if (!data) {
+    return false;
+  }
   // Check data length
   const size_t sizeLength = sizeof(T);
   const size_t length = data->getSize();
diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index e78a35c..7f6f148 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -201,7 +201,6 @@ namespace {
     const std::string className = mappingAttr.value();
 
     FieldMappingIO::Ptr io = factory.createFieldMappingIO(className);
-    assert(io != 0);
     if (!io) {
       Msg::print(Msg::SevWarning, "Unable to find class type: " + className);
       return FieldMapping::Ptr();
diff --git a/src/OgIGroup.cpp b/src/OgIGroup.cpp
index 7884102..1294f2e 100644
--- a/src/OgIGroup.cpp
+++ b/src/OgIGroup.cpp
@@ -104,18 +104,18 @@ OgIGroup::findGroup(const std::string &path,
     // Data set 0 is the name
     std::string groupName;
     if (!readString(group, 0, groupName)) {
-      // This is a bad error. Print details.
+      // This is a bad error, but other subgroups may be fine. Print details.
       std::cout << "OgIGroup::findGroup() couldn't read subgroup name for "
                 << "group name: " << name << std::endl;
-      return Alembic::Ogawa::IGroupPtr();
+      continue;
     }
     // Data set 1 is the type
     OgGroupType type;
     if (!readData(group, 1, type)) {
-      // This is a bad error. Print details.
+      // This is a bad error, but other subgroups may be fine. Print details.
       std::cout << "OgIGroup::findGroup() couldn't read subgroup type for "
                 << "group name: " << name << std::endl;
-      return Alembic::Ogawa::IGroupPtr();
+      continue;
     }
     // Check that group type matches
     if (type != groupType) {
@@ -159,18 +159,18 @@ OgIGroup::recursiveFindGroup(const std::string &path,
     // Data set 0 is the name
     std::string groupName;
     if (!readString(group, 0, groupName)) {
-      // This is a bad error. Print details.
+      // This is a bad error, but other subgroups may be fine. Print details.
       std::cout << "OgIGroup::recursiveFindGroup() couldn't read subgroup "
                 << "name for group name: " << name << std::endl;
-      return Alembic::Ogawa::IGroupPtr();
+      continue;
     }
     // Data set 1 is the type
     OgGroupType type;
     if (!readData(group, 1, type)) {
-      // This is a bad error. Print details.
+      // This is a bad error, but other subgroups may be fine. Print details.
       std::cout << "OgIGroup::recursiveFindGroup() couldn't read subgroup "
                 << "type for group name: " << name << std::endl;
-      return Alembic::Ogawa::IGroupPtr();
+      continue;
     }
     // Check that group type is F3DGroupType
     if (type != F3DGroupType) {
diff --git a/src/OgUtil.cpp b/src/OgUtil.cpp
index dee855a..45222a5 100644
--- a/src/OgUtil.cpp
+++ b/src/OgUtil.cpp
@@ -32,6 +32,10 @@ const char* ogGroupTypeToString(OgGroupType type)
 bool readString(Alembic::Ogawa::IGroupPtr group, const size_t idx, 
                 std::string &s)
 {
+  // Check that there is a group
+  if (!group) {
+    return false;
+  }
   // Grab data
   Alembic::Ogawa::IDataPtr data = group->getData(idx, OGAWA_THREAD);
   // Check that we got something
@@ -66,8 +70,16 @@ OgDataType readDataType(Alembic::Ogawa::IGroupPtr group, const size_t idx)
 {
   // Data type
   OgDataType dataType;;
+  // Check that there is a group
+  if (!group) {
+    return F3DInvalidDataType;
+  }
   // Grab data
   Alembic::Ogawa::IDataPtr data = group->getData(idx, OGAWA_THREAD);
+  // Check that we got something
+  if (!data) {
+    return F3DInvalidDataType;
+  }
   // Check data length
   const size_t sizeLength = sizeof(OgDataType);
   const size_t length = data->getSize();
-- 
2.43.0


From 0d6b2ff3a06a1962514c6dbd3ac5f22e66a7ae9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:32 +0000
Subject: [PATCH 42/51] fix: unknown field and mapping classes ended the
 process

---
 src/Field3DFile.cpp     | 1 -
 src/Field3DFileHDF5.cpp | 3 ---
 2 files changed, 4 deletions(-)

diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index 7f6f148..e1c41fa 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -224,7 +224,6 @@ namespace {
     ClassFactory &factory = ClassFactory::singleton();
     
     FieldIO::Ptr io = factory.createFieldIO(field->className());
-    assert(io != 0);
     if (!io) {
       Msg::print(Msg::SevWarning, "Unable to find class type: " + 
                  field->className());
diff --git a/src/Field3DFileHDF5.cpp b/src/Field3DFileHDF5.cpp
index 40f9326..d204ab8 100644
--- a/src/Field3DFileHDF5.cpp
+++ b/src/Field3DFileHDF5.cpp
@@ -1612,7 +1612,6 @@ bool writeField(hid_t layerGroup, FieldBase::Ptr field)
   ClassFactory &factory = ClassFactory::singleton();
     
   FieldIO::Ptr io = factory.createFieldIO(field->className());
-  assert(io != 0);
   if (!io) {
     Msg::print(Msg::SevWarning, "Unable to find class type: " + 
                field->className());
@@ -1644,7 +1643,6 @@ FieldMapping::Ptr readFieldMapping(hid_t mappingGroup)
   }
 
   FieldMappingIO::Ptr io = factory.createFieldMappingIO(className);
-  assert(io != 0);
   if (!io) {
     Msg::print(Msg::SevWarning, "Unable to find class type: " + 
                className);
@@ -1675,7 +1673,6 @@ bool writeFieldMapping(hid_t mappingGroup, FieldMapping::Ptr mapping)
   }
 
   FieldMappingIO::Ptr io = factory.createFieldMappingIO(className);
-  assert(io != 0);
   if (!io) {
     Msg::print(Msg::SevWarning, "Unable to find class type: " + 
                className);
-- 
2.43.0


From d9e96052a09d0c9482ce11be5f4ae381a27b7380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:12 +0000
Subject: [PATCH 43/51] fix: partially written Ogawa layers were left in the
 file

---
 include/OGroup.h    |  4 ++++
 include/OgOGroup.h  | 50 ++++++++++++++++++++++++++++++++++++++++++++-
 src/Field3DFile.cpp |  6 ++++++
 src/OGroup.cpp      | 37 +++++++++++++++++++++++++++++++--
 4 files changed, 94 insertions(+), 3 deletions(-)

diff --git a/include/OGroup.h b/include/OGroup.h
index 98cc764..6377296 100644
--- a/include/OGroup.h
+++ b/include/OGroup.h
@@ -95,6 +95,10 @@ public:
 
     bool isFrozen();
 
+    // leave the group (and everything below it) out of the archive, must be
+    // called before the group is frozen
+    void discard();
+
     Alembic::Util::uint64_t getNumChildren() const;
 
     bool isChildGroup(Alembic::Util::uint64_t iIndex) const;
diff --git a/include/OgOGroup.h b/include/OgOGroup.h
index 8ce7e88..a7eb8e8 100644
--- a/include/OgOGroup.h
+++ b/include/OgOGroup.h
@@ -55,7 +55,13 @@ public:
     // Construct the group
     m_group = parent.m_group->addGroup();
     // Base data sets
-    addBaseData();
+    try {
+      addBaseData();
+    }
+    catch (...) {
+      discard();
+      throw;
+    }
   }
 
   // Main methods --------------------------------------------------------------
@@ -66,6 +72,13 @@ public:
     return m_group->addGroup();
   }
 
+  //! Leaves the group and its contents out of the file. Used when writing it
+  //! failed halfway, so that a reader won't find an incomplete group.
+  void discard()
+  {
+    m_group->discard();
+  }
+
 private:
 
   // Utility methods -----------------------------------------------------------
@@ -90,6 +103,41 @@ private:
   std::string               m_name;
 };
 
+//----------------------------------------------------------------------------//
+// OgOGroupGuard
+//----------------------------------------------------------------------------//
+
+/*! \class OgOGroupGuard
+  Discards a group unless it is known to be complete. 
+*/
+
+//----------------------------------------------------------------------------//
+
+class OgOGroupGuard : public Alembic::Util::noncopyable
+{
+
+public:
+
+  OgOGroupGuard(OgOGroup &group)
+    : m_group(&group)
+  { /* Empty */ }
+
+  ~OgOGroupGuard()
+  { 
+    if (m_group) {
+      m_group->discard(); 
+    }
+  }
+
+  //! Keeps the group
+  void complete()
+  { m_group = NULL; }
+
+private:
+
+  OgOGroup *m_group;
+};
+
 //----------------------------------------------------------------------------//
   
 FIELD3D_NAMESPACE_HEADER_CLOSE
diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index e1c41fa..ce5da0d 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -1272,10 +1272,12 @@ Field3DOutputFile::writeGlobalMetadata()
   }
 
   OgOGroup ogMetadata(*m_root, "field3d_global_metadata");
+  OgOGroupGuard guard(ogMetadata);
   if (!writeMetadata(ogMetadata)) {
     Msg::print(Msg::SevWarning, "Error writing file metadata.");
     return false;
   } 
+  guard.complete();
  
   return true;
 }
@@ -1397,6 +1399,7 @@ Field3DOutputFile::createNewPartition(const std::string &partitionName,
 
   boost::shared_ptr<OgOGroup> ogPartition(new OgOGroup(*m_root, part->name));
   part->setGroup(ogPartition);
+  OgOGroupGuard guard(*ogPartition);
 
   // Add mapping group to the partition
   try {
@@ -1429,6 +1432,7 @@ Field3DOutputFile::createNewPartition(const std::string &partitionName,
 
   // Only a complete partition can be used by subsequent layers
   m_partitions.push_back(part);
+  guard.complete();
 
   return part;
 }
@@ -1521,6 +1525,7 @@ bool Field3DOutputFile::writeLayer(const std::string &userPartitionName,
   // Add Layer to file ---
 
   OgOGroup ogLayer(ogPartition, layerName);
+  OgOGroupGuard guard(ogLayer);
 
   // Tag as layer
   OgOAttribute<string> classType(ogLayer, "class_type", "field3d_layer");
@@ -1544,6 +1549,7 @@ bool Field3DOutputFile::writeLayer(const std::string &userPartitionName,
   // Add to partition
 
   part->addLayer(layer);
+  guard.complete();
 
   return true;
 }
diff --git a/src/OGroup.cpp b/src/OGroup.cpp
index d2cae08..9e6920d 100644
--- a/src/OGroup.cpp
+++ b/src/OGroup.cpp
@@ -98,7 +98,16 @@ OGroupPtr OGroup::addGroup()
     if (!isFrozen())
     {
         mData->childVec.push_back(0);
-        child.reset(new OGroup(shared_from_this(), mData->childVec.size() - 1));
+        try
+        {
+            child.reset(new OGroup(shared_from_this(),
+                                   mData->childVec.size() - 1));
+        }
+        catch (...)
+        {
+            mData->childVec.pop_back();
+            throw;
+        }
     }
     return child;
 }
@@ -270,7 +279,7 @@ void OGroup::freeze()
             mData->stream->write(&mData->pos, 8);
             continue;
         }
-        else if (it->first->isFrozen())
+        else if (it->first->isFrozen() && it->first->mData->pos != EMPTY_GROUP)
         {
             mData->stream->seek(it->first->mData->pos + (it->second + 1) * 8);
             mData->stream->write(&mData->pos, 8);
@@ -282,6 +291,30 @@ void OGroup::freeze()
 
 }
 
+void OGroup::discard()
+{
+    if (isFrozen())
+    {
+        return;
+    }
+
+    mData->pos = EMPTY_GROUP;
+
+    // remove the group from its parents, or leave an empty group there if
+    // others have been added since
+    ParentPairVec::iterator it;
+    for (it = mData->parents.begin(); it != mData->parents.end(); ++it)
+    {
+        if (it->first && !it->first->isFrozen() &&
+            it->second + 1 == it->first->mData->childVec.size())
+        {
+            it->first->mData->childVec.pop_back();
+        }
+    }
+
+    mData->parents.clear();
+}
+
 bool OGroup::isFrozen()
 {
     return mData->pos != INVALID_GROUP;
-- 
2.43.0


From 076a7e306eee23ff5d84786abbd727defec5ce8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:31 +0000
Subject: [PATCH 44/51] fix: sparse I/O lost a thread when memory ran out while
 starting it

---
 src/SparseFieldIO.cpp | 67 +++++++++++++++++++++++++++++++------------
 1 file changed, 49 insertions(+), 18 deletions(-)

diff --git a/src/SparseFieldIO.cpp b/src/SparseFieldIO.cpp
index 1335866..cb81f27 100644
--- a/src/SparseFieldIO.cpp
+++ b/src/SparseFieldIO.cpp
@@ -42,6 +42,7 @@
 //----------------------------------------------------------------------------//
 
 #include <boost/intrusive_ptr.hpp>
+#include <boost/scoped_array.hpp>
 
 #include <boost/thread/thread.hpp>
 #include <boost/thread/mutex.hpp>
@@ -95,14 +96,21 @@ struct ReadThreadingState
       failed(false)
   { }
   // Records that a thread could not do its work, and stops the others
-  void fail(const std::string &what)
+  void fail(const char *what)
   {
     boost::mutex::scoped_lock lock(readMutex);
-    if (!failed) {
-      error = what;
-    }
+    const bool first = !failed;
     failed = true;
     nextBlockToRead = numBlocks;
+    if (first) {
+      try {
+        error = what;
+      }
+      catch (std::exception &) {
+        // Short enough not to need any memory
+        error = "No memory";
+      }
+    }
   }
   // Data members
   const OgIGroup &location;
@@ -257,13 +265,20 @@ struct ThreadingState
   }
   // Records that a thread could not do its work. The others must not wait for
   // its block to be written.
-  void fail(const std::string &what)
+  void fail(const char *what)
   {
     boost::mutex::scoped_lock lock(writeMutex);
-    if (!failed) {
-      error = what;
-    }
+    const bool first = !failed;
     failed = true;
+    if (first) {
+      try {
+        error = what;
+      }
+      catch (std::exception &) {
+        // Short enough not to need any memory
+        error = "No memory";
+      }
+    }
   }
   // Data members
   OgOCDataset<Data_T> &data;
@@ -948,19 +963,27 @@ SparseFieldIO::readData(const OgIGroup &location, const Box3i &extents,
       // Number of threads
       const size_t numThreads = numIOThreads();
       // Launch threads
-      boost::thread_group threads;
+      // (a boost::thread_group loses track of a thread if it runs out of memory
+      // after starting it)
+      boost::scoped_array<boost::thread> threads(new boost::thread[numThreads]);
+      size_t numStarted = 0;
       try {
-        for (size_t i = 0; i < numThreads; ++i) {
-          threads.create_thread(ReadBlockOp<Data_T>(state, i));
+        for (; numStarted < numThreads; ++numStarted) {
+          threads[numStarted] = 
+            boost::thread(ReadBlockOp<Data_T>(state, numStarted));
         }
       }
       catch (...) {
         // The threads already running refer to the state
         state.fail("Couldn't start reading sparse blocks");
-        threads.join_all();
+        for (size_t i = 0; i < numStarted; ++i) {
+          threads[i].join();
+        }
         throw;
       }
-      threads.join_all();
+      for (size_t i = 0; i < numStarted; ++i) {
+        threads[i].join();
+      }
       if (state.failed) {
         throw ReadDataException(state.error);
       }
@@ -1255,19 +1278,27 @@ bool SparseFieldIO::writeInternal(OgOGroup &layerGroup,
     // Number of threads
     const size_t numThreads = numIOThreads();
     // Launch threads
-    boost::thread_group threads;
+    // (a boost::thread_group loses track of a thread if it runs out of memory
+    // after starting it)
+    boost::scoped_array<boost::thread> threads(new boost::thread[numThreads]);
+    size_t numStarted = 0;
     try {
-      for (size_t i = 0; i < numThreads; ++i) {
-        threads.create_thread(WriteBlockOp<Data_T>(state, i));
+      for (; numStarted < numThreads; ++numStarted) {
+        threads[numStarted] = 
+          boost::thread(WriteBlockOp<Data_T>(state, numStarted));
       }
     }
     catch (...) {
       // The threads already running refer to the state
       state.fail("Couldn't start writing sparse blocks");
-      threads.join_all();
+      for (size_t i = 0; i < numStarted; ++i) {
+        threads[i].join();
+      }
       throw;
     }
-    threads.join_all();
+    for (size_t i = 0; i < numStarted; ++i) {
+      threads[i].join();
+    }
     if (state.failed) {
       throw WriteLayerException(state.error);
     }
-- 
2.43.0


From 595863d6c3f3864c5ffc697eed7eb2621fc83a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 45/51] fix: a dynamic SparseField that ran out of memory while
 opening released another field's blocks

addReference() marked the field as managed before it had an id, and
setNumBlocks() kept a pointer to mutexes it had deleted, so destroying a
field whose set-up had failed used an uninitialised id or freed twice.
---
 export/SparseField.h | 7 +++++--
 export/SparseFile.h  | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/export/SparseField.h b/export/SparseField.h
index 58692ca..c37df70 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -1447,8 +1447,11 @@ void SparseField<Data_T>::addReference(const std::string &filename,
                                        int numVoxels, 
                                        int occupiedBlocks)
 {
-  m_fileManager = &SparseFileManager::singleton();
-  m_fileId = m_fileManager->getNextId<Data_T>(filename, layerPath);
+  SparseFileManager &manager = SparseFileManager::singleton();
+  // The field is managed once it has an id
+  m_fileManager = NULL;
+  m_fileId = manager.getNextId<Data_T>(filename, layerPath);
+  m_fileManager = &manager;
   // Set up the manager data
   SparseFile::Reference<Data_T> *reference =
     m_fileManager->reference<Data_T>(m_fileId);
diff --git a/export/SparseFile.h b/export/SparseFile.h
index e58cc44..34c3fd2 100644
--- a/export/SparseFile.h
+++ b/export/SparseFile.h
@@ -688,8 +688,8 @@ void Reference<Data_T>::setNumBlocks(int a_numBlocks)
   blockUsed.resize(numBlocks, false);
   loadCounts.resize(numBlocks, 0);
   refCounts.resize(numBlocks, 0);
-  if (blockMutex)
-    delete[] blockMutex;
+  delete[] blockMutex;
+  blockMutex = NULL;
 #if F3D_SHORT_MUTEX_ARRAY
 #  if F3D_NO_BLOCKS_ARRAY
   blockMutexSize = std::min(numBlocks, F3D_MUTEX_ARRAY_SIZE);
-- 
2.43.0


From 30a56bc9ac8989ce0f19da09f366091833acf720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:42 +0000
Subject: [PATCH 46/51] fix: HDF5 output took the layer name for the partition
 when only a layer name was given

---
 export/Field3DFileHDF5.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index 0421835..ccacf78 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -795,13 +795,13 @@ public:
   template <class Data_T>
   bool writeScalarLayer(const std::string &layerName, 
                         typename Field<Data_T>::Ptr layer)
-  { return writeScalarLayer<Data_T>(layerName, std::string("default"), layer); }
+  { return writeScalarLayer<Data_T>(std::string("default"), layerName, layer); }
 
   //! Writes a vector layer to the "Default" partition.
   template <class Data_T>
   bool writeVectorLayer(const std::string &layerName, 
                         typename Field<FIELD3D_VEC3_T<Data_T> >::Ptr layer)
-  { return writeVectorLayer<Data_T>(layerName, std::string("default"), layer); }
+  { return writeVectorLayer<Data_T>(std::string("default"), layerName, layer); }
 
   //! Writes a layer to a specific partition. The partition will be created if
   //! not specified.
-- 
2.43.0


From a0e0deea43e83648097ab36cf00515377038b5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:22 +0000
Subject: [PATCH 47/51] fix: makeMinMax() gave empty, unnamed fields when the
 base couldn't be resampled

---
 export/MinMaxUtil.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/export/MinMaxUtil.h b/export/MinMaxUtil.h
index 1befbd4..0260c34 100644
--- a/export/MinMaxUtil.h
+++ b/export/MinMaxUtil.h
@@ -65,6 +65,7 @@ FIELD3D_NAMESPACE_OPEN
 //----------------------------------------------------------------------------//
 
 //! Constructs a min/max MIP representation of the given field.
+//! \returns Null pointers if the field can't be resampled.
 template <typename MIPField_T>
 std::pair<typename MIPField_T::Ptr, typename MIPField_T::Ptr>
 makeMinMax(const typename MIPField_T::NestedType &base, 
@@ -110,8 +111,10 @@ makeMinMax(const typename MIPField_T::NestedType &base,
   FieldPtr maxSrc(new Field);
 
   // Resample 
-  resample(base, *minSrc, res, MinFilter());
-  resample(base, *maxSrc, res, MaxFilter());
+  if (!resample(base, *minSrc, res, MinFilter()) ||
+      !resample(base, *maxSrc, res, MaxFilter())) {
+    return result;
+  }
 
   // Second, generate MIP representations ---
 
-- 
2.43.0


From fb2496efb0ab95922d024c2200e008a3ccd1a303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:36 +0000
Subject: [PATCH 48/51] fix: f3dmerge and f3dmakemip reported success when
 layers were lost, and the latter crashed on fields makeMIP() doesn't take

---
 apps/f3dmakemip/main.cpp | 128 +++++++++++++++++++++++++++++----------
 apps/f3dmerge/main.cpp   |  56 ++++++++++++-----
 2 files changed, 139 insertions(+), 45 deletions(-)

diff --git a/apps/f3dmakemip/main.cpp b/apps/f3dmakemip/main.cpp
index ce054e5..1af446d 100644
--- a/apps/f3dmakemip/main.cpp
+++ b/apps/f3dmakemip/main.cpp
@@ -85,8 +85,9 @@ struct Options {
 //! Parses command line options, puts them in Options struct.
 Options parseOptions(int argc, char **argv);
 
-//! Prints information about all fields in file.
-void makeMIP(const std::string &filename, const Options &options,
+//! Writes MIP fields of all matching layers of the file to the output. 
+//! Returns whether all of them were written.
+bool makeMIP(const std::string &filename, const Options &options,
              Field3DOutputFile &out);
 
 //----------------------------------------------------------------------------//
@@ -122,9 +123,21 @@ int main(int argc, char **argv)
     return 1;
   }
 
+  bool success = true;
+
   BOOST_FOREACH (const string &file, options.inputFiles) {
-    makeMIP(file, options, out);
+    if (!makeMIP(file, options, out)) {
+      success = false;
+    }
   }
+
+  if (!out.close()) {
+    cout << "ERROR: Couldn't write output file: " 
+         << options.outputFile << endl;
+    success = false;
+  }
+
+  return success ? 0 : 1;
 }
 
 //----------------------------------------------------------------------------//
@@ -221,27 +234,49 @@ Options parseOptions(int argc, char **argv)
 
 //----------------------------------------------------------------------------//
 
+//! Reports a layer that couldn't be written
+bool checkWritten(const bool success, const FieldRes &f)
+{
+  if (!success) {
+    cout << "ERROR: Couldn't write layer: " << f.name << ":" << f.attribute 
+         << endl;
+  }
+  return success;
+}
+
+//----------------------------------------------------------------------------//
+
+//! Reports a layer that makeMIP() doesn't support
+bool noMIP(const FieldRes &f)
+{
+  cout << "ERROR: Couldn't filter layer: " << f.name << ":" << f.attribute 
+       << endl;
+  return false;
+}
+
+//----------------------------------------------------------------------------//
+
 template <typename T>
-void writeField(const typename Field<Imath::Vec3<T> >::Ptr f, 
+bool writeField(const typename Field<Imath::Vec3<T> >::Ptr f, 
                 Field3DOutputFile &out)
 {
   cout << "  Writing \"" << f->attribute << "\"" << endl;
-  out.writeVectorLayer<T>(f);
+  return checkWritten(out.writeVectorLayer<T>(f), *f);
 }
 
 //----------------------------------------------------------------------------//
 
 template <typename Data_T>
-void writeField(const typename Field<Data_T>::Ptr &f, Field3DOutputFile &out)
+bool writeField(const typename Field<Data_T>::Ptr &f, Field3DOutputFile &out)
 {
   cout << "  Writing \"" << f->attribute << "\"" << endl;
-  out.writeScalarLayer<Data_T>(f);
+  return checkWritten(out.writeScalarLayer<Data_T>(f), *f);
 }
 
 //----------------------------------------------------------------------------//
 
 template <typename Data_T>
-void makeMIP(typename Field<Data_T>::Ptr field, const Options &options,
+bool makeMIP(typename Field<Data_T>::Ptr field, const Options &options,
              Field3DOutputFile &out)
 {
   typedef DenseField<Data_T>     DenseType;
@@ -253,6 +288,8 @@ void makeMIP(typename Field<Data_T>::Ptr field, const Options &options,
        << "\" (" << field->classType() << ")" << endl;
 
   const V3i offset = computeOffset(*field);
+
+  bool success = true;
   
   // Handle dense fields
   if (DenseType *dense = dynamic_cast<DenseType*>(field.get())) {
@@ -260,19 +297,25 @@ void makeMIP(typename Field<Data_T>::Ptr field, const Options &options,
     typename MIPDenseType::Ptr mip = 
       makeMIP<MIPDenseType, TriangleFilter>
       (*dense, options.minRes, offset, options.numThreads);
-    writeField<Data_T>(mip, out);
+    if (!mip) {
+      return noMIP(*field);
+    }
+    success = writeField<Data_T>(mip, out);
     // Min/Max
     if (options.doMinMax) {
       std::pair<typename MIPDenseType::Ptr, typename MIPDenseType::Ptr> p =
         makeMinMax<MIPDenseType>(*dense, 
                                   options.minMaxResMult, 
                                   options.numThreads);
+      if (!p.first || !p.second) {
+        return noMIP(*field);
+      }
       p.first->attribute += k_minSuffix;
       p.second->attribute += k_maxSuffix;
-      writeField<Data_T>(p.first, out);
-      writeField<Data_T>(p.second, out);
+      success = writeField<Data_T>(p.first, out) && success;
+      success = writeField<Data_T>(p.second, out) && success;
     }
-    return;
+    return success;
   }
 
   // Handle sparse fields
@@ -281,19 +324,25 @@ void makeMIP(typename Field<Data_T>::Ptr field, const Options &options,
     typename MIPSparseType::Ptr mip = 
       makeMIP<MIPSparseType, TriangleFilter>
       (*sparse, options.minRes, offset, options.numThreads);
-    writeField<Data_T>(mip, out);
+    if (!mip) {
+      return noMIP(*field);
+    }
+    success = writeField<Data_T>(mip, out);
     // Min/Max
     if (options.doMinMax) {
       std::pair<typename MIPSparseType::Ptr, typename MIPSparseType::Ptr> p =
         makeMinMax<MIPSparseType>(*sparse, 
                                   options.minMaxResMult, 
                                   options.numThreads);
+      if (!p.first || !p.second) {
+        return noMIP(*field);
+      }
       p.first->attribute += k_minSuffix;
       p.second->attribute += k_maxSuffix;
-      writeField<Data_T>(p.first, out);
-      writeField<Data_T>(p.second, out);
+      success = writeField<Data_T>(p.first, out) && success;
+      success = writeField<Data_T>(p.second, out) && success;
     }
-    return;
+    return success;
   }
 
   // Handle MIP dense fields
@@ -302,19 +351,25 @@ void makeMIP(typename Field<Data_T>::Ptr field, const Options &options,
     typename MIPDenseType::Ptr mip = 
       makeMIP<MIPDenseType, TriangleFilter>
       (*dense->concreteMipLevel(0), options.minRes, offset, options.numThreads);
-    writeField<Data_T>(mip, out);
+    if (!mip) {
+      return noMIP(*field);
+    }
+    success = writeField<Data_T>(mip, out);
     // Min/Max
     if (options.doMinMax) {
       std::pair<typename MIPDenseType::Ptr, typename MIPDenseType::Ptr> p =
         makeMinMax<MIPDenseType>(*dense->concreteMipLevel(0), 
                                   options.minMaxResMult, 
                                   options.numThreads);
+      if (!p.first || !p.second) {
+        return noMIP(*field);
+      }
       p.first->attribute += k_minSuffix;
       p.second->attribute += k_maxSuffix;
-      writeField<Data_T>(p.first, out);
-      writeField<Data_T>(p.second, out);
+      success = writeField<Data_T>(p.first, out) && success;
+      success = writeField<Data_T>(p.second, out) && success;
     }
-    return;
+    return success;
   }
 
   // Handle MIP sparse fields
@@ -322,30 +377,40 @@ void makeMIP(typename Field<Data_T>::Ptr field, const Options &options,
     // MIP
     typename MIPSparseType::Ptr mip = makeMIP<MIPSparseType, TriangleFilter>
       (*sparse->concreteMipLevel(0), options.minRes, offset, options.numThreads);
-    writeField<Data_T>(mip, out);
+    if (!mip) {
+      return noMIP(*field);
+    }
+    success = writeField<Data_T>(mip, out);
     // Min/Max
     if (options.doMinMax) {
       std::pair<typename MIPSparseType::Ptr, typename MIPSparseType::Ptr> p =
         makeMinMax<MIPSparseType>(*sparse->concreteMipLevel(0), 
                                   options.minMaxResMult, 
                                   options.numThreads);
+      if (!p.first || !p.second) {
+        return noMIP(*field);
+      }
       p.first->attribute += k_minSuffix;
       p.second->attribute += k_maxSuffix;
-      writeField<Data_T>(p.first, out);
-      writeField<Data_T>(p.second, out);
+      success = writeField<Data_T>(p.first, out) && success;
+      success = writeField<Data_T>(p.second, out) && success;
     }
-    return;
+    return success;
   }
 
+  // Other types have no MIP representation
+  return true;
 }
 
 //----------------------------------------------------------------------------//
 
-void makeMIP(const std::string &filename, const Options &options,
+bool makeMIP(const std::string &filename, const Options &options,
              Field3DOutputFile &out)
 {
   typedef Field3D::half half;
 
+  bool success = true;
+
   Field3DInputFile in;
 
   if (!in.open(filename)) {
@@ -383,19 +448,19 @@ void makeMIP(const std::string &filename, const Options &options,
       Field<half>::Vec hScalarFields = 
         in.readScalarLayers<half>(partition, scalarLayer);
       BOOST_FOREACH (Field<half>::Ptr field, hScalarFields) {
-        makeMIP<half>(field, options, out);
+        success = makeMIP<half>(field, options, out) && success;
       }
 
       Field<float>::Vec fScalarFields = 
         in.readScalarLayers<float>(partition, scalarLayer);
       BOOST_FOREACH (Field<float>::Ptr field, fScalarFields) {
-        makeMIP<float>(field, options, out);
+        success = makeMIP<float>(field, options, out) && success;
       }
 
       Field<double>::Vec dScalarFields = 
         in.readScalarLayers<double>(partition, scalarLayer);
       BOOST_FOREACH (Field<double>::Ptr field, dScalarFields) {
-        makeMIP<double>(field, options, out);
+        success = makeMIP<double>(field, options, out) && success;
       }
 
     }
@@ -409,24 +474,25 @@ void makeMIP(const std::string &filename, const Options &options,
       Field<V3h>::Vec hVectorFields = 
         in.readVectorLayers<half>(partition, vectorLayer);
       BOOST_FOREACH (Field<V3h>::Ptr field, hVectorFields) {
-        makeMIP<V3h>(field, options, out);
+        success = makeMIP<V3h>(field, options, out) && success;
       }
 
       Field<V3f>::Vec fVectorFields = 
         in.readVectorLayers<float>(partition, vectorLayer);
       BOOST_FOREACH (Field<V3f>::Ptr field, fVectorFields) {
-        makeMIP<V3f>(field, options, out);
+        success = makeMIP<V3f>(field, options, out) && success;
       }
 
       Field<V3d>::Vec dVectorFields = 
         in.readVectorLayers<double>(partition, vectorLayer);
       BOOST_FOREACH (Field<V3d>::Ptr field, dVectorFields) {
-        makeMIP<V3d>(field, options, out);
+        success = makeMIP<V3d>(field, options, out) && success;
       }
 
     }
   }
 
+  return success;
 }
 
 //----------------------------------------------------------------------------//
diff --git a/apps/f3dmerge/main.cpp b/apps/f3dmerge/main.cpp
index 9d3987a..ab94427 100644
--- a/apps/f3dmerge/main.cpp
+++ b/apps/f3dmerge/main.cpp
@@ -76,8 +76,9 @@ struct Options {
 //! Parses command line options, puts them in Options struct.
 Options parseOptions(int argc, char **argv);
 
-//! Prints information about all fields in file.
-void writeOutput(const std::string &filename, const Options &options,
+//! Writes all matching layers of the file to the output. Returns whether
+//! all of them were written.
+bool writeOutput(const std::string &filename, const Options &options,
                  Field3DOutputFile &out);
 
 //----------------------------------------------------------------------------//
@@ -115,9 +116,21 @@ int main(int argc, char **argv)
 
   // Write inputs to output ---
 
+  bool success = true;
+
   BOOST_FOREACH (const string &file, options.inputFiles) {
-    writeOutput(file, options, out);
+    if (!writeOutput(file, options, out)) {
+      success = false;
+    }
   }
+
+  if (!out.close()) {
+    cout << "ERROR: Couldn't write output file: " 
+         << options.outputFile << endl;
+    success = false;
+  }
+
+  return success ? 0 : 1;
 }
 
 //----------------------------------------------------------------------------//
@@ -192,28 +205,42 @@ Options parseOptions(int argc, char **argv)
 
 //----------------------------------------------------------------------------//
 
+//! Reports a layer that couldn't be written
+bool checkWritten(const bool success, const FieldRes &f)
+{
+  if (!success) {
+    cout << "ERROR: Couldn't write layer: " << f.name << ":" << f.attribute 
+         << endl;
+  }
+  return success;
+}
+
+//----------------------------------------------------------------------------//
+
 template <typename T>
-void writeField(const typename Field<Imath::Vec3<T> >::Ptr f, 
+bool writeField(const typename Field<Imath::Vec3<T> >::Ptr f, 
                 Field3DOutputFile &out)
 {
-  out.writeVectorLayer<T>(f);
+  return checkWritten(out.writeVectorLayer<T>(f), *f);
 }
 
 //----------------------------------------------------------------------------//
 
 template <typename Data_T>
-void writeField(const typename Field<Data_T>::Ptr &f, Field3DOutputFile &out)
+bool writeField(const typename Field<Data_T>::Ptr &f, Field3DOutputFile &out)
 {
-  out.writeScalarLayer<Data_T>(f);
+  return checkWritten(out.writeScalarLayer<Data_T>(f), *f);
 }
 
 //----------------------------------------------------------------------------//
 
-void writeOutput(const std::string &filename, const Options &options,
+bool writeOutput(const std::string &filename, const Options &options,
                  Field3DOutputFile &out)
 {
   typedef Field3D::half half;
 
+  bool success = true;
+
   Field3DInputFile in;
 
   if (!in.open(filename)) {
@@ -245,19 +272,19 @@ void writeOutput(const std::string &filename, const Options &options,
       Field<half>::Vec hScalarFields = 
         in.readScalarLayers<half>(partition, scalarLayer);
       BOOST_FOREACH (Field<half>::Ptr field, hScalarFields) {
-        writeField<half>(field, out);
+        success = writeField<half>(field, out) && success;
       }
 
       Field<float>::Vec fScalarFields = 
         in.readScalarLayers<float>(partition, scalarLayer);
       BOOST_FOREACH (Field<float>::Ptr field, fScalarFields) {
-        writeField<float>(field, out);
+        success = writeField<float>(field, out) && success;
       }
 
       Field<double>::Vec dScalarFields = 
         in.readScalarLayers<double>(partition, scalarLayer);
       BOOST_FOREACH (Field<double>::Ptr field, dScalarFields) {
-        writeField<double>(field, out);
+        success = writeField<double>(field, out) && success;
       }
 
     }
@@ -271,24 +298,25 @@ void writeOutput(const std::string &filename, const Options &options,
       Field<V3h>::Vec hVectorFields = 
         in.readVectorLayers<half>(partition, vectorLayer);
       BOOST_FOREACH (Field<V3h>::Ptr field, hVectorFields) {
-        writeField<V3h>(field, out);
+        success = writeField<V3h>(field, out) && success;
       }
 
       Field<V3f>::Vec fVectorFields = 
         in.readVectorLayers<float>(partition, vectorLayer);
       BOOST_FOREACH (Field<V3f>::Ptr field, fVectorFields) {
-        writeField<V3f>(field, out);
+        success = writeField<V3f>(field, out) && success;
       }
 
       Field<V3d>::Vec dVectorFields = 
         in.readVectorLayers<double>(partition, vectorLayer);
       BOOST_FOREACH (Field<V3d>::Ptr field, dVectorFields) {
-        writeField<V3d>(field, out);
+        success = writeField<V3d>(field, out) && success;
       }
 
     }
   }
 
+  return success;
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From a34c1b1ff4abb473d4a603ff36cf3cd4063e5979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:06 +0000
Subject: [PATCH 49/51] fix: running out of memory right after creating an HDF5
 group left the unfinished group behind

---
 export/Field3DFileHDF5.h | 18 ++++++++++--------
 src/Field3DFileHDF5.cpp  | 10 +++++++---
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index ccacf78..c590462 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -1407,16 +1407,17 @@ Field3DOutputFileHDF5::createNewPartition(const std::string &partitionName,
 
   part->name = partitionName;
 
-  H5ScopedGcreate partGroup(m_file, part->name.c_str());
+  // Removes the group on disk if the partition can't be completed
+  H5ScopedLdelete partLink(m_file, part->name);
+
+  H5ScopedGcreate partGroup(m_file, part->name);
   if (partGroup.id() < 0) {
+    partLink.release();
     Msg::print(Msg::SevWarning, 
                "Error creating partition: " + part->name);
     return FileHDF5::Partition::Ptr();
   } 
 
-  // Remove the group on disk if the partition can't be completed
-  H5ScopedLdelete partLink(m_file, part->name);
-  
   // Add mapping group to the partition
   try {
     if (!writeMapping(partGroup.id(), field->mapping())) {
@@ -1549,17 +1550,18 @@ Field3DOutputFileHDF5::writeLayer(const std::string &userPartitionName,
 
   // Add Layer to file ---
 
-  H5ScopedGcreate layerGroup(partGroup.id(), layerName.c_str(),
+  // Removes the group on disk if the layer can't be completed
+  H5ScopedLdelete layerLink(partGroup.id(), layerName);
+
+  H5ScopedGcreate layerGroup(partGroup.id(), layerName,
                              H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
 
   if (layerGroup.id() < 0) {
+    layerLink.release();
     Msg::print(Msg::SevWarning, "Error creating layer: " + layerName);
     return false;
   }
 
-  // Remove the group on disk if the layer can't be completed
-  H5ScopedLdelete layerLink(partGroup.id(), layerName);
-
   // Tag as layer
   if (!writeAttribute(layerGroup.id(), "class_type", "field3d_layer")) {
     Msg::print(Msg::SevWarning, "Error adding layer string.");
diff --git a/src/Field3DFileHDF5.cpp b/src/Field3DFileHDF5.cpp
index d204ab8..b5a182d 100644
--- a/src/Field3DFileHDF5.cpp
+++ b/src/Field3DFileHDF5.cpp
@@ -1502,14 +1502,18 @@ Field3DOutputFileHDF5::writeGlobalMetadata()
 {
   GlobalLock lock(g_hdf5Mutex);
 
+  const std::string groupName("field3d_global_metadata");
+
+  // Removes the group if it can't be completed
+  H5ScopedLdelete metadataLink(m_file, groupName);
+
   // Add metadata group and write it out  
-  H5ScopedGcreate metadataGroup(m_file, "field3d_global_metadata");
+  H5ScopedGcreate metadataGroup(m_file, groupName);
   if (metadataGroup.id() < 0) {
+    metadataLink.release();
     Msg::print(Msg::SevWarning, "Error creating group: file metadata");
     return false;
   }  
-  // Remove the group if it can't be completed
-  H5ScopedLdelete metadataLink(m_file, "field3d_global_metadata");
   if (!writeMetadata(metadataGroup.id())) {
     Msg::print(Msg::SevWarning, "Error writing file metadata.");
     return false;
-- 
2.43.0


From 69d3f25b7fe7be09d9de896838dbffde1d02804f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:23 +0000
Subject: [PATCH 50/51] fix: running out of memory in setStrMetadata() left an
 empty entry behind, which readers then took for the stored value

---
 src/FieldMetadata.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/FieldMetadata.cpp b/src/FieldMetadata.cpp
index 4151ca1..fd4dd74 100644
--- a/src/FieldMetadata.cpp
+++ b/src/FieldMetadata.cpp
@@ -102,7 +102,9 @@ void FieldMetadata::setIntMetadata(const std::string &name,
 void FieldMetadata::setStrMetadata(const std::string &name, 
                                    const std::string &val)
 { 
-  m_strMetadata[name] = val; 
+  // Copied first, so that running out of memory leaves no empty entry behind
+  std::string valCopy(val);
+  m_strMetadata[name].swap(valCopy);
   if (m_owner) {
     m_owner->metadataHasChanged(name);
   }
-- 
2.43.0


From 0960be891f8f854dc84bb84e9c9ff1f123a10b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:29 +0000
Subject: [PATCH 51/51] fix: looking up a dynamically loaded block used freed
 memory when another thread opened one more file

---
 export/SparseFile.h | 89 +++++++++++++++++++++++++++++++++++++++++----
 src/SparseFile.cpp  |  2 +-
 2 files changed, 82 insertions(+), 9 deletions(-)

diff --git a/export/SparseFile.h b/export/SparseFile.h
index 34c3fd2..aa15b75 100644
--- a/export/SparseFile.h
+++ b/export/SparseFile.h
@@ -47,7 +47,7 @@
 //----------------------------------------------------------------------------//
 
 #include <boost/scoped_ptr.hpp>
-#include <deque>
+#include <algorithm>
 #include <list>
 #include <vector>
 
@@ -261,6 +261,79 @@ private:
 
 };
 
+//----------------------------------------------------------------------------//
+// ReferenceArray
+//----------------------------------------------------------------------------//
+
+/*! Growing array whose elements, and the tables that lead to them, never move. 
+  An element that was added before (as seen by the calling thread) can be 
+  looked up while another thread adds more. A std::deque doesn't allow that.
+*/
+
+template <class Ptr_T>
+class ReferenceArray
+{
+public:
+
+  ReferenceArray() 
+    : m_size(0)
+  { 
+    std::fill(m_chunks, m_chunks + k_numChunks, static_cast<Ptr_T*>(NULL));
+  }
+  ~ReferenceArray()
+  {
+    for (size_t i = 0; i < k_numChunks; ++i) {
+      delete[] m_chunks[i];
+    }
+  }
+
+  size_t size() const
+  { return m_size; }
+
+  const Ptr_T& operator[] (size_t idx) const
+  { 
+    const size_t chunk = findChunk(idx);
+    return m_chunks[chunk][idx]; 
+  }
+
+  void push_back(const Ptr_T &ptr)
+  {
+    size_t idx = m_size;
+    const size_t chunk = findChunk(idx);
+    if (!m_chunks[chunk]) {
+      m_chunks[chunk] = new Ptr_T[k_firstSize << chunk]();
+    }
+    m_chunks[chunk][idx] = ptr;
+    ++m_size;
+  }
+
+private:
+
+  // Noncopyable
+  ReferenceArray(const ReferenceArray &);
+  ReferenceArray& operator=(const ReferenceArray &);
+
+  //! Each chunk is twice as large as the previous one
+  static const size_t k_firstSize = 64;
+  static const size_t k_numChunks = 32;
+
+  //! Returns the chunk that an element is in, and makes the index relative 
+  //! to it
+  static size_t findChunk(size_t &idx)
+  {
+    size_t chunk = 0;
+    while (idx >= (k_firstSize << chunk)) {
+      idx -= k_firstSize << chunk;
+      ++chunk;
+    }
+    return chunk;
+  }
+
+  Ptr_T *m_chunks[k_numChunks];
+  size_t m_size;
+
+};
+
 //----------------------------------------------------------------------------//
 // FileReferences
 //----------------------------------------------------------------------------//
@@ -271,7 +344,7 @@ public:
 
   /* A note on thread safety
 
-     FileReferences uses a std::deque to store the References, which means
+     FileReferences uses a ReferenceArray to store the References, which means
      that already-added references 'stay put' in memory, even as more elements
      are added. For threading purposes, we only need to lock during append()
      and numRefs(), but ref() is safe, since we never remove references.
@@ -305,12 +378,12 @@ private:
 
   // Data members --------------------------------------------------------------
 
-  std::deque<Reference<half>::Ptr>   m_hRefs;
-  std::deque<Reference<V3h>::Ptr>    m_vhRefs;
-  std::deque<Reference<float>::Ptr>  m_fRefs;
-  std::deque<Reference<V3f>::Ptr>    m_vfRefs;
-  std::deque<Reference<double>::Ptr> m_dRefs;
-  std::deque<Reference<V3d>::Ptr>    m_vdRefs;
+  ReferenceArray<Reference<half>::Ptr>   m_hRefs;
+  ReferenceArray<Reference<V3h>::Ptr>    m_vhRefs;
+  ReferenceArray<Reference<float>::Ptr>  m_fRefs;
+  ReferenceArray<Reference<V3f>::Ptr>    m_vfRefs;
+  ReferenceArray<Reference<double>::Ptr> m_dRefs;
+  ReferenceArray<Reference<V3d>::Ptr>    m_vdRefs;
 
   // Mutexes -------------------------------------------------------------------
 
diff --git a/src/SparseFile.cpp b/src/SparseFile.cpp
index 181f19e..4b0dd88 100644
--- a/src/SparseFile.cpp
+++ b/src/SparseFile.cpp
@@ -485,7 +485,7 @@ long long int SparseFile::FileReferences::memSize() const
 
   long long int size = 0;
 
-  // Size of the std::deque's
+  // Size of the arrays
   size += m_hRefs.size() * sizeof(Reference<half>::Ptr);
   size += m_vhRefs.size() * sizeof(Reference<V3h>::Ptr);
   size += m_fRefs.size() * sizeof(Reference<float>::Ptr);
-- 
2.43.0

