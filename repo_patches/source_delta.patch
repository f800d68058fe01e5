From e2586b7bedbc1bc0566a477fb58defacb7baf4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:50 +0000
Subject: [PATCH 01/62] fix: keep the coarse allocator consistent when its
 metadata allocation fails

A failed free-list insertion left an empty list in the size tree (a NULL
dereference on the next best-fit search) and, after a split, leaked or
double-counted the cut-off block.
---
 src/coarse/coarse.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/coarse/coarse.c b/src/coarse/coarse.c
index 1979846..d097b1c 100644
--- a/src/coarse/coarse.c
+++ b/src/coarse/coarse.c
@@ -169,6 +169,7 @@ static block_t *coarse_ravl_add_new(struct ravl *rtree, unsigned char *data,
 
     block->data = data;
     block->size = size;
+    block->used = false;
     block->free_list_ptr = NULL;
 
     ravl_data_t rdata = {(uintptr_t)block->data, block};
@@ -346,6 +347,14 @@ static int free_blocks_add(struct ravl *free_blocks, block_t *block) {
 
     block->free_list_ptr = node_list_add(head_node, block);
     if (!block->free_list_ptr) {
+        if (head_node->head == NULL) {
+            // do not leave an empty list in the tree
+            node =
+                ravl_find(free_blocks, &head_node_data, RAVL_PREDICATE_EQUAL);
+            assert(node);
+            ravl_remove(free_blocks, node);
+            umf_ba_global_free(head_node);
+        }
         return -1; // out of memory
     }
 
@@ -700,6 +709,10 @@ static umf_result_t create_aligned_block(coarse_t *coarse, size_t orig_size,
 
         rv = free_blocks_add(coarse->free_blocks, curr);
         if (rv) {
+            // undo the split
+            curr->size += aligned_block->size;
+            (void)coarse_ravl_rm(coarse->all_blocks, aligned_block->data);
+            umf_ba_global_free(aligned_block);
             return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
         }
 
@@ -734,6 +747,9 @@ static umf_result_t split_current_block(coarse_t *coarse, block_t *curr,
 
     int rv = free_blocks_add(coarse->free_blocks, get_node_block(new_node));
     if (rv) {
+        // undo the split (the size of the current block is not changed yet)
+        (void)coarse_ravl_rm(coarse->all_blocks, new_block->data);
+        umf_ba_global_free(new_block);
         return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
     }
 
-- 
2.43.0


From 05db1579cc93c9bd0892b90251315cab9645ac7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:48 +0000
Subject: [PATCH 02/62] fix: refuse base allocator requests that cannot be
 satisfied

Out of memory dereferenced NULL, sizes of 4 GiB or more corrupted the block
metadata, and the linear allocator's pool size could overflow.
---
 src/base_alloc/base_alloc_global.c | 11 ++++++++++-
 src/base_alloc/base_alloc_linear.c |  5 +++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/base_alloc/base_alloc_global.c b/src/base_alloc/base_alloc_global.c
index ecec336..44658df 100644
--- a/src/base_alloc/base_alloc_global.c
+++ b/src/base_alloc/base_alloc_global.c
@@ -97,7 +97,10 @@ static int size_to_idx(size_t size) {
 static void *add_metadata_and_align(void *ptr, size_t size, size_t alignment) {
     assert(size < (1ULL << 32));
     assert(alignment < (1ULL << 32));
-    assert(ptr);
+
+    if (ptr == NULL) {
+        return NULL; // out of memory
+    }
 
     void *user_ptr;
     if (alignment <= ALLOC_METADATA_SIZE) {
@@ -182,6 +185,12 @@ void *umf_ba_global_aligned_alloc(size_t size, size_t alignment) {
         size += alignment;
     }
 
+    // the metadata can store only 32-bit sizes
+    if (size >= (1ULL << 32)) {
+        LOG_ERR("base_alloc: allocation size (%zu) too large.", size);
+        return NULL;
+    }
+
     int ac_index = size_to_idx(size);
     if (ac_index >= NUM_ALLOCATION_CLASSES) {
         return add_metadata_and_align(ba_os_alloc(size), size, alignment);
diff --git a/src/base_alloc/base_alloc_linear.c b/src/base_alloc/base_alloc_linear.c
index a35a6c2..d00539a 100644
--- a/src/base_alloc/base_alloc_linear.c
+++ b/src/base_alloc/base_alloc_linear.c
@@ -137,6 +137,11 @@ void *umf_ba_linear_alloc(umf_ba_linear_pool_t *pool, size_t size) {
         size_t usable_size =
             pool_size - offsetof(umf_ba_next_linear_pool_t, data);
         if (usable_size < aligned_size) {
+            if (aligned_size - usable_size > SIZE_MAX - pool_size) {
+                utils_mutex_unlock(&pool->metadata.lock);
+                LOG_ERR("pool_size overflow");
+                return NULL;
+            }
             pool_size += aligned_size - usable_size;
             pool_size = ALIGN_UP_SAFE(pool_size, ba_os_get_page_size());
             if (pool_size == 0) {
-- 
2.43.0


From 5e40b1169fb5fc606ad2986f2da73c23b4301200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:30 +0000
Subject: [PATCH 03/62] fix: critnib_iter: do not skip keys at the top of the
 address range

The range of keys below a node was computed as path + path_mask, but the
keys below a node differ in the bits OUTSIDE path_mask. Near UINTPTR_MAX the
sum wrapped around and live keys were skipped.
---
 src/critnib/critnib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/critnib/critnib.c b/src/critnib/critnib.c
index 5625781..a769ba9 100644
--- a/src/critnib/critnib.c
+++ b/src/critnib/critnib.c
@@ -797,7 +797,7 @@ static int iter(struct critnib_node *__restrict n, word min, word max,
     if (n->path > max) {
         return 1;
     }
-    if ((n->path | path_mask(n->shift)) < min) {
+    if ((n->path | ~path_mask(n->shift)) < min) {
         return 0;
     }
 
-- 
2.43.0


From a3fdfc145e6547012c63b8a5203c46c28149c777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:44 +0000
Subject: [PATCH 04/62] fix: tracking provider: merging nested or parent
 allocations

A merge left the parent's number of children one too high, so the parent could
never be removed from the tracker again. A merge of blocks that have children
looked up the wrong level (or a child with the same address).
---
 src/provider/provider_tracking.c | 69 ++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 26 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 1bef858..b0117a2 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -61,24 +61,28 @@ typedef struct tracker_ipc_info_t {
 // Get the most nested (on the highest level) allocation segment in the map with the `ptr` key.
 // If `no_children` is set to 1, the function will return the entry
 // only if it has no children on the higher level.
+// If `pool` is not NULL, an entry of this pool with the `ptr` key is preferred
+// over the entries nested in it.
 // The function returns the entry if found, otherwise NULL.
 static tracker_alloc_info_t *get_most_nested_alloc_segment(
-    umf_memory_tracker_handle_t hTracker, const void *ptr, int *_level,
-    uintptr_t *_parent_key, tracker_alloc_info_t **_parent_value,
-    int no_children) {
+    umf_memory_tracker_handle_t hTracker, umf_memory_pool_handle_t pool,
+    const void *ptr, int *_level, uintptr_t *_parent_key,
+    tracker_alloc_info_t **_parent_value, int no_children) {
     assert(ptr);
 
     tracker_alloc_info_t *parent_value = NULL;
+    tracker_alloc_info_t *value = NULL;
     tracker_alloc_info_t *rvalue = NULL;
     uintptr_t parent_key = 0;
+    uintptr_t key = 0;
     uintptr_t rkey = 0;
     uint64_t rsize = 0;
+    int value_level = 0;
     int level = 0;
-    int found = 0;
 
     do {
         assert(level < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP);
-        found =
+        int found =
             critnib_find(hTracker->alloc_segments_map[level], (uintptr_t)ptr,
                          FIND_LE, (void *)&rkey, (void **)&rvalue);
         if (!found || !rvalue) {
@@ -87,28 +91,33 @@ static tracker_alloc_info_t *get_most_nested_alloc_segment(
 
         utils_atomic_load_acquire_u64((uint64_t *)&rvalue->size, &rsize);
 
-        if (found && (uintptr_t)ptr < rkey + rsize) {
-            if (rvalue->n_children) {
-                if (level == MAX_LEVELS_OF_ALLOC_SEGMENT_MAP - 1) {
-                    break;
-                }
-                level++;
-                parent_key = rkey;
-                parent_value = rvalue;
-            }
+        if ((uintptr_t)ptr >= rkey + rsize) {
+            // no entry of this level contains `ptr`
+            break;
         }
-    } while (found && ((uintptr_t)ptr < rkey + rsize) && rvalue->n_children);
 
-    if (!rvalue || rkey != (uintptr_t)ptr) {
+        parent_key = key;
+        parent_value = value;
+        key = rkey;
+        value = rvalue;
+        value_level = level;
+        level++;
+
+        if (pool && value->pool == pool && key == (uintptr_t)ptr) {
+            break;
+        }
+    } while (value->n_children && level < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP);
+
+    if (!value || key != (uintptr_t)ptr) {
         return NULL;
     }
 
-    if (no_children && (rvalue->n_children > 0)) {
+    if (no_children && (value->n_children > 0)) {
         return NULL;
     }
 
     if (_level) {
-        *_level = level;
+        *_level = value_level;
     }
     if (_parent_key) {
         *_parent_key = parent_key;
@@ -117,9 +126,9 @@ static tracker_alloc_info_t *get_most_nested_alloc_segment(
         *_parent_value = parent_value;
     }
 
-    assert(!no_children || rvalue->n_children == 0);
+    assert(!no_children || value->n_children == 0);
 
-    return rvalue;
+    return value;
 }
 
 static umf_result_t
@@ -248,7 +257,8 @@ static umf_result_t umfMemoryTrackerRemove(umf_memory_tracker_handle_t hTracker,
     // Find the most nested (on the highest level) entry in the map
     // with the `ptr` key and with no children - only such entry can be removed.
     tracker_alloc_info_t *value = get_most_nested_alloc_segment(
-        hTracker, ptr, &level, &parent_key, &parent_value, 1 /* no_children */);
+        hTracker, NULL, ptr, &level, &parent_key, &parent_value,
+        1 /* no_children */);
     if (!value) {
         LOG_ERR("pointer %p not found in the alloc_segments_map", ptr);
         return UMF_RESULT_ERROR_UNKNOWN;
@@ -526,8 +536,8 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
     // Find the most nested (on the highest level) entry in the map
     // with the `ptr` key and with no children - only such entry can be split.
     tracker_alloc_info_t *value = get_most_nested_alloc_segment(
-        provider->hTracker, ptr, &level, &parent_key, &parent_value,
-        1 /* no_children */);
+        provider->hTracker, provider->pool, ptr, &level, &parent_key,
+        &parent_value, 1 /* no_children */);
     if (!value) {
         LOG_ERR("region for split is not found in the tracker");
         ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
@@ -619,6 +629,8 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
     mergedValue->size = totalSize;
     mergedValue->n_children = 0;
 
+    tracker_alloc_info_t *parent_value = NULL;
+
     // any different negative values
     int lowLevel = -2;
     int highLevel = -1;
@@ -629,15 +641,15 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
     }
 
     tracker_alloc_info_t *lowValue = get_most_nested_alloc_segment(
-        provider->hTracker, lowPtr, &lowLevel, NULL, NULL,
-        0 /* no_children */); // can have children
+        provider->hTracker, provider->pool, lowPtr, &lowLevel, NULL,
+        &parent_value, 0 /* no_children */); // can have children
     if (!lowValue) {
         LOG_FATAL("no left value");
         ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
         goto err_assert;
     }
     tracker_alloc_info_t *highValue = get_most_nested_alloc_segment(
-        provider->hTracker, highPtr, &highLevel, NULL, NULL,
+        provider->hTracker, provider->pool, highPtr, &highLevel, NULL, NULL,
         0 /* no_children */); // can have children
     if (!highValue) {
         LOG_FATAL("no right value");
@@ -690,6 +702,11 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
 
     umf_ba_free(provider->hTracker->alloc_info_allocator, erasedhighValue);
 
+    if (parent_value) {
+        // the parent has one child less
+        parent_value->n_children--;
+    }
+
     utils_mutex_unlock(&provider->hTracker->splitMergeMutex);
 
     LOG_DEBUG("merged memory regions (level=%i): lowPtr=%p (child=%zu), "
-- 
2.43.0


From 19433fe93d89b98597f90291f6f91c441ce7be37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:18 +0000
Subject: [PATCH 05/62] fix: tracking provider: do not lose a region when a
 split runs out of memory

The upstream was split first, and the tracker could then fail to record the
high part: the caller saw a failed split of a region the upstream had split.
---
 src/provider/provider_tracking.c | 50 ++++++++++++++++----------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index b0117a2..08ec191 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -550,26 +550,14 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
         goto err;
     }
 
-    ret = umfMemoryProviderAllocationSplit(provider->hUpstream, ptr, totalSize,
-                                           firstSize);
-    if (ret != UMF_RESULT_SUCCESS) {
-        LOG_ERR("upstream provider failed to split the region");
-        goto err;
-    }
-
-    assert(level < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP);
-    int cret =
-        critnib_insert(provider->hTracker->alloc_segments_map[level],
-                       (uintptr_t)ptr, (void *)splitValue, 1 /* update */);
-    // this cannot fail since we know the element exists (nothing to allocate)
-    assert(cret == 0);
-    (void)cret;
-
     void *highPtr = (void *)(((uintptr_t)ptr) + firstSize);
     size_t secondSize = totalSize - firstSize;
 
+    // Track the high part before splitting the region, because it is the only
+    // step that can run out of memory and the upstream's split cannot be undone.
     // We'll have a duplicate entry for the range [highPtr, highValue->size] but this is fine,
     // the value is the same anyway and we forbid removing that range concurrently
+    assert(level < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP);
     ret = umfMemoryTrackerAddAtLevel(provider->hTracker, level, provider->pool,
                                      highPtr, secondSize, parent_key,
                                      parent_value);
@@ -577,19 +565,31 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
         LOG_ERR("failed to add the split region to the tracker, ptr=%p, "
                 "size=%zu, ret=%d",
                 highPtr, secondSize, ret);
-        // revert the split
-        assert(level < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP);
-        cret = critnib_insert(provider->hTracker->alloc_segments_map[level],
-                              (uintptr_t)ptr, (void *)value, 1 /* update */);
-        // this cannot fail since we know the element exists (nothing to allocate)
-        assert(cret == 0);
-        (void)cret;
-        // TODO: what now? should we rollback the split? This can only happen due to ENOMEM
-        // so it's unlikely but probably the best solution would be to try to preallocate everything
-        // (value and critnib nodes) before calling umfMemoryProviderAllocationSplit.
         goto err;
     }
 
+    ret = umfMemoryProviderAllocationSplit(provider->hUpstream, ptr, totalSize,
+                                           firstSize);
+    if (ret != UMF_RESULT_SUCCESS) {
+        LOG_ERR("upstream provider failed to split the region");
+        void *highValue =
+            critnib_remove(provider->hTracker->alloc_segments_map[level],
+                           (uintptr_t)highPtr);
+        assert(highValue);
+        umf_ba_free(provider->hTracker->alloc_info_allocator, highValue);
+        if (parent_value) {
+            parent_value->n_children--;
+        }
+        goto err;
+    }
+
+    int cret =
+        critnib_insert(provider->hTracker->alloc_segments_map[level],
+                       (uintptr_t)ptr, (void *)splitValue, 1 /* update */);
+    // this cannot fail since we know the element exists (nothing to allocate)
+    assert(cret == 0);
+    (void)cret;
+
     // free the original value
     umf_ba_free(provider->hTracker->alloc_info_allocator, value);
     utils_mutex_unlock(&provider->hTracker->splitMergeMutex);
-- 
2.43.0


From 53002a82fc177e311da76356ae48b22b3b50968b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:01 +0000
Subject: [PATCH 06/62] fix: critnib: updating the value of a key cannot run
 out of memory

The tracking provider relies on this: a refused update left the freed value
in the map.
---
 src/critnib/critnib.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/critnib/critnib.c b/src/critnib/critnib.c
index a769ba9..e947b37 100644
--- a/src/critnib/critnib.c
+++ b/src/critnib/critnib.c
@@ -312,6 +312,17 @@ int critnib_insert(struct critnib *c, word key, void *value, int update) {
 
     struct critnib_leaf *k = alloc_leaf(c);
     if (!k) {
+        // updating an existing key does not need any memory
+        struct critnib_node *e = update ? c->root : NULL;
+        while (e && !is_leaf(e)) {
+            e = e->child[slice_index(key, e->shift)];
+        }
+        if (e && to_leaf(e)->key == key) {
+            to_leaf(e)->value = value;
+            utils_mutex_unlock(&c->mutex);
+            return 0;
+        }
+
         utils_mutex_unlock(&c->mutex);
 
         return ENOMEM;
-- 
2.43.0


From 68d1a054fdfb5f8db450a1d6ce5f281f561984f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:56 +0000
Subject: [PATCH 07/62] fix: tracking provider: release the IPC caches when
 creation fails

An opened-handles cache that could not be created was not noticed either
(NULL dereference on first use).
---
 src/provider/provider_tracking.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 08ec191..3026bfd 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -1186,6 +1186,11 @@ umf_result_t umfTrackingMemoryProviderCreate(
 
     params.hIpcMappedCache =
         umfIpcOpenedCacheCreate(ipcOpenedCacheEvictionCallback);
+    if (!params.hIpcMappedCache) {
+        LOG_ERR("failed to create the cache of opened IPC handles");
+        critnib_delete(params.ipcCache);
+        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+    }
 
     LOG_DEBUG("upstream=%p, tracker=%p, "
               "pool=%p, ipcCache=%p, hIpcMappedCache=%p",
@@ -1193,8 +1198,14 @@ umf_result_t umfTrackingMemoryProviderCreate(
               (void *)params.pool, (void *)params.ipcCache,
               (void *)params.hIpcMappedCache);
 
-    return umfMemoryProviderCreate(&UMF_TRACKING_MEMORY_PROVIDER_OPS, &params,
-                                   hTrackingProvider);
+    umf_result_t ret = umfMemoryProviderCreate(
+        &UMF_TRACKING_MEMORY_PROVIDER_OPS, &params, hTrackingProvider);
+    if (ret != UMF_RESULT_SUCCESS) {
+        umfIpcOpenedCacheDestroy(params.hIpcMappedCache);
+        critnib_delete(params.ipcCache);
+    }
+
+    return ret;
 }
 
 void umfTrackingMemoryProviderGetUpstreamProvider(
-- 
2.43.0


From d5f6a412769c9c2789c5b05330b98e3e46ac40de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:34 +0000
Subject: [PATCH 08/62] fix: tracking provider: count the children of an
 allocation atomically

---
 src/provider/provider_tracking.c | 42 ++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 3026bfd..0aecc22 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -58,6 +58,14 @@ typedef struct tracker_ipc_info_t {
     ipc_opened_cache_value_t *ipc_cache_value;
 } tracker_ipc_info_t;
 
+// Several pools can allocate from and free to the same parent concurrently,
+// so the number of its children has to be accessed atomically.
+static size_t get_n_children(tracker_alloc_info_t *value) {
+    uint64_t n_children = 0;
+    utils_atomic_load_acquire_u64((uint64_t *)&value->n_children, &n_children);
+    return (size_t)n_children;
+}
+
 // Get the most nested (on the highest level) allocation segment in the map with the `ptr` key.
 // If `no_children` is set to 1, the function will return the entry
 // only if it has no children on the higher level.
@@ -106,13 +114,13 @@ static tracker_alloc_info_t *get_most_nested_alloc_segment(
         if (pool && value->pool == pool && key == (uintptr_t)ptr) {
             break;
         }
-    } while (value->n_children && level < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP);
+    } while (get_n_children(value) && level < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP);
 
     if (!value || key != (uintptr_t)ptr) {
         return NULL;
     }
 
-    if (no_children && (value->n_children > 0)) {
+    if (no_children && (get_n_children(value) > 0)) {
         return NULL;
     }
 
@@ -126,7 +134,7 @@ static tracker_alloc_info_t *get_most_nested_alloc_segment(
         *_parent_value = parent_value;
     }
 
-    assert(!no_children || value->n_children == 0);
+    assert(!no_children || get_n_children(value) == 0);
 
     return value;
 }
@@ -160,11 +168,13 @@ umfMemoryTrackerAddAtLevel(umf_memory_tracker_handle_t hTracker, int level,
                   (void *)hTracker, level, (void *)pool, ptr, size);
 
         if (parent_value) {
-            parent_value->n_children++;
+            size_t n_children = (size_t)utils_atomic_increment_u64(
+                (uint64_t *)&parent_value->n_children);
+            (void)n_children; // used only in the debug log
             LOG_DEBUG(
                 "child #%zu added to memory region: tracker=%p, level=%i, "
                 "pool=%p, ptr=%p, size=%zu",
-                parent_value->n_children, (void *)hTracker, level - 1,
+                n_children, (void *)hTracker, level - 1,
                 (void *)parent_value->pool, (void *)parent_key,
                 parent_value->size);
         }
@@ -230,7 +240,8 @@ static umf_result_t umfMemoryTrackerAdd(umf_memory_tracker_handle_t hTracker,
             parent_value = rvalue;
             level++;
         }
-    } while (found && ((uintptr_t)ptr < rkey + rsize) && rvalue->n_children);
+    } while (found && ((uintptr_t)ptr < rkey + rsize) &&
+             get_n_children(rvalue));
 
     umf_result = umfMemoryTrackerAddAtLevel(hTracker, level, pool, ptr, size,
                                             parent_key, parent_value);
@@ -276,9 +287,9 @@ static umf_result_t umfMemoryTrackerRemove(umf_memory_tracker_handle_t hTracker,
         LOG_DEBUG(
             "child #%zu removed from memory region: tracker=%p, level=%i, "
             "pool=%p, ptr=%p, size=%zu",
-            parent_value->n_children, (void *)hTracker, level - 1,
+            get_n_children(parent_value), (void *)hTracker, level - 1,
             (void *)parent_value->pool, (void *)parent_key, parent_value->size);
-        parent_value->n_children--;
+        utils_atomic_decrement_u64((uint64_t *)&parent_value->n_children);
     }
 
     umf_ba_free(hTracker->alloc_info_allocator, value);
@@ -396,14 +407,14 @@ umf_result_t umfMemoryTrackerGetAllocInfo(const void *ptr,
         if (found && (uintptr_t)ptr < rkey + rvalue->size) {
             top_most_key = rkey;
             top_most_value = rvalue;
-            if (rvalue->n_children == 0 ||
+            if (get_n_children(rvalue) == 0 ||
                 level == MAX_LEVELS_OF_ALLOC_SEGMENT_MAP - 1) {
                 break;
             }
             level++;
         }
     } while (found && (uintptr_t)ptr < rkey + rvalue->size &&
-             rvalue->n_children);
+             get_n_children(rvalue));
 
     if (!top_most_value) {
         LOG_DEBUG("pointer %p not found in the tracker, TRACKER=%p", ptr,
@@ -578,7 +589,7 @@ static umf_result_t trackingAllocationSplit(void *hProvider, void *ptr,
         assert(highValue);
         umf_ba_free(provider->hTracker->alloc_info_allocator, highValue);
         if (parent_value) {
-            parent_value->n_children--;
+            utils_atomic_decrement_u64((uint64_t *)&parent_value->n_children);
         }
         goto err;
     }
@@ -672,7 +683,8 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
         goto err_assert;
     }
 
-    mergedValue->n_children = lowValue->n_children + highValue->n_children;
+    mergedValue->n_children =
+        get_n_children(lowValue) + get_n_children(highValue);
 
     ret = umfMemoryProviderAllocationMerge(provider->hUpstream, lowPtr, highPtr,
                                            totalSize);
@@ -681,8 +693,8 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
         goto not_merged;
     }
 
-    size_t lno = lowValue->n_children;
-    size_t hno = highValue->n_children;
+    size_t lno = get_n_children(lowValue);
+    size_t hno = get_n_children(highValue);
 
     // We'll have a duplicate entry for the range [highPtr, highValue->size] but this is fine,
     // the value is the same anyway and we forbid removing that range concurrently
@@ -704,7 +716,7 @@ static umf_result_t trackingAllocationMerge(void *hProvider, void *lowPtr,
 
     if (parent_value) {
         // the parent has one child less
-        parent_value->n_children--;
+        utils_atomic_decrement_u64((uint64_t *)&parent_value->n_children);
     }
 
     utils_mutex_unlock(&provider->hTracker->splitMergeMutex);
-- 
2.43.0


From c336855e58ffd5b7c77f9565adeb806cb5eab4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:34 +0000
Subject: [PATCH 09/62] fix: IPC cache: close evicted mappings with the
 provider that opened them

---
 src/ipc_cache.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ipc_cache.c b/src/ipc_cache.c
index bf17a66..bfff223 100644
--- a/src/ipc_cache.c
+++ b/src/ipc_cache.c
@@ -182,6 +182,7 @@ umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
     ipc_opened_cache_entry_t *entry = NULL;
     umf_result_t ret = UMF_RESULT_SUCCESS;
     bool evicted = false;
+    ipc_opened_cache_key_t evicted_key;
     ipc_opened_cache_value_t evicted_value;
 
     if (!cache || !key || !retEntry) {
@@ -227,6 +228,7 @@ umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
             // remove the entry from the hash table it belongs to
             HASH_DEL(*(entry->hash_table), entry);
             cache->global->cur_size -= 1;
+            evicted_key = entry->key;
             evicted_value.mapped_base_ptr = entry->value.mapped_base_ptr;
             evicted_value.mapped_size = entry->value.mapped_size;
             evicted = true;
@@ -239,7 +241,7 @@ umf_result_t umfIpcOpenedCacheGet(ipc_opened_cache_handle_t cache,
             }
             if (NULL == utils_mutex_init(&(entry->value.mmap_lock))) {
                 LOG_ERR("Failed to initialize mutex for the IPC cache entry");
-                umf_ba_global_free(entry);
+                umf_ba_free(cache->global->cache_allocator, entry);
                 ret = UMF_RESULT_ERROR_UNKNOWN;
                 goto exit;
             }
@@ -266,7 +268,8 @@ exit:
     utils_mutex_unlock(&(cache->global->cache_lock));
 
     if (evicted) {
-        cache->eviction_cb(key, &evicted_value);
+        // the evicted entry can belong to a different provider than the new one
+        cache->eviction_cb(&evicted_key, &evicted_value);
     }
 
     return ret;
-- 
2.43.0


From f2138b6aed43d51a1b5a7d2a4f069a8d578acf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:34 +0000
Subject: [PATCH 10/62] fix: tracking provider: release the IPC cache entry of
 a failed open

---
 src/provider/provider_tracking.c | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/provider/provider_tracking.c b/src/provider/provider_tracking.c
index 0aecc22..c69090d 100644
--- a/src/provider/provider_tracking.c
+++ b/src/provider/provider_tracking.c
@@ -1017,18 +1017,20 @@ ipcOpenedCacheEvictionCallback(const ipc_opened_cache_key_t *key,
     // to avoid a race condition. If the order would be different, other thread
     // could allocate the memory at address `ptr` before a call to umfMemoryTrackerRemoveIpcSegment
     // resulting in inconsistent state.
-    if (value->mapped_base_ptr) {
-        umf_result_t ret = umfMemoryTrackerRemoveIpcSegment(
-            p->hTracker, value->mapped_base_ptr);
-        if (ret != UMF_RESULT_SUCCESS) {
-            // DO NOT return an error here, because the tracking provider
-            // cannot change behaviour of the upstream provider.
-            LOG_ERR("failed to remove the region from the IPC tracker, ptr=%p, "
-                    "size=%zu, ret = %d",
-                    value->mapped_base_ptr, value->mapped_size, ret);
-        }
+    if (value->mapped_base_ptr == NULL) {
+        // opening of the IPC handle failed, so there is nothing to close
+        return;
+    }
+    umf_result_t ret = umfMemoryTrackerRemoveIpcSegment(p->hTracker,
+                                                        value->mapped_base_ptr);
+    if (ret != UMF_RESULT_SUCCESS) {
+        // DO NOT return an error here, because the tracking provider
+        // cannot change behaviour of the upstream provider.
+        LOG_ERR("failed to remove the region from the IPC tracker, ptr=%p, "
+                "size=%zu, ret = %d",
+                value->mapped_base_ptr, value->mapped_size, ret);
     }
-    umf_result_t ret = umfMemoryProviderCloseIPCHandle(
+    ret = umfMemoryProviderCloseIPCHandle(
         p->hUpstream, value->mapped_base_ptr, value->mapped_size);
     if (ret != UMF_RESULT_SUCCESS) {
         LOG_ERR("provider failed to close IPC handle, ptr=%p, size=%zu",
@@ -1131,6 +1133,9 @@ static umf_result_t trackingOpenIpcHandle(void *provider, void *providerIpcData,
     if (ret == UMF_RESULT_SUCCESS) {
         assert(mapped_ptr != NULL);
         *ptr = mapped_ptr;
+    } else {
+        // the failed open does not hold the cache entry
+        (void)umfIpcHandleMappedCacheRelease(cache_entry);
     }
 
     return ret;
-- 
2.43.0


From af589a251b7b972540614b1316d107408732b602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:52 +0000
Subject: [PATCH 11/62] fix: disjoint pool: release the array of buckets on
 destruction

---
 src/pool/pool_disjoint.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index ca4d2fa..82cdc60 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -920,6 +920,7 @@ void disjoint_pool_finalize(void *pool) {
     for (size_t i = 0; i < hPool->buckets_num; i++) {
         destroy_bucket(hPool->buckets[i]);
     }
+    umf_ba_global_free(hPool->buckets);
 
     VALGRIND_DO_DESTROY_MEMPOOL(hPool);
 
-- 
2.43.0


From 116b70c2bb7301938470368005c3497abd30093c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:16 +0000
Subject: [PATCH 12/62] fix: disjoint pool: a slab ends where its memory ends

slab_get_end() used slab_min_size, but a slab of a bucket bigger than
slab_min_size is as big as the bucket: pointers past slab_min_size were
taken for memory of the provider and freed directly.
---
 src/pool/pool_disjoint.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index 82cdc60..56c8f3e 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -176,8 +176,7 @@ static void *slab_get_chunk(slab_t *slab) {
 
 static void *slab_get(const slab_t *slab) { return slab->mem_ptr; }
 static void *slab_get_end(const slab_t *slab) {
-    return (void *)((uintptr_t)slab->mem_ptr +
-                    bucket_slab_min_size(slab->bucket));
+    return (void *)((uintptr_t)slab->mem_ptr + slab->slab_size);
 }
 
 static void slab_free_chunk(slab_t *slab, void *ptr) {
-- 
2.43.0


From d1a09860dca54d3f5304d1d61e010dee89263d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:16 +0000
Subject: [PATCH 13/62] fix: disjoint pool: pass sizes above CutOff to the
 provider

A max_poolable_size larger than CutOff made such sizes index past the end
of the array of buckets.
---
 src/pool/pool_disjoint.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index 56c8f3e..12645e2 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -597,6 +597,10 @@ umf_result_t disjoint_pool_initialize(umf_memory_provider_handle_t provider,
     disjoint_pool->provider = provider;
     disjoint_pool->params = *dp_params;
 
+    // there are no buckets for allocations larger than CutOff
+    disjoint_pool->params.max_poolable_size =
+        utils_min(dp_params->max_poolable_size, CutOff);
+
     disjoint_pool->known_slabs = critnib_new();
     if (disjoint_pool->known_slabs == NULL) {
         goto err_free_disjoint_pool;
-- 
2.43.0


From f2666093844d76f6f27f933a8ff62d14e89c07f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:16 +0000
Subject: [PATCH 14/62] fix: disjoint pool: refuse aligned requests whose size
 overflows

---
 src/pool/pool_disjoint.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index 12645e2..3b00da7 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -741,6 +741,13 @@ void *disjoint_pool_aligned_malloc(void *pool, size_t size, size_t alignment) {
         aligned_size = size + alignment - 1;
     }
 
+    // the size is too big to be rounded up
+    if (aligned_size < size) {
+        TLS_last_allocation_error = UMF_RESULT_ERROR_INVALID_ARGUMENT;
+        LOG_ERR("size %zu is too big for alignment %zu", size, alignment);
+        return NULL;
+    }
+
     // Check if requested allocation size is within pooling limit.
     // If not, just request aligned pointer from the system.
     if (aligned_size > disjoint_pool->params.max_poolable_size) {
-- 
2.43.0


From 2307c38448be9c30805dc29e560b7d5031b1f1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:24 +0000
Subject: [PATCH 15/62] fix: disjoint pool: fail to create when a bucket lock
 cannot be made

---
 src/pool/pool_disjoint.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index 3b00da7..c67dacb 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -252,7 +252,12 @@ create_bucket(size_t sz, disjoint_pool_t *pool,
     bucket->pool = pool;
     bucket->shared_limits = shared_limits;
 
-    utils_mutex_init(&bucket->bucket_lock);
+    if (utils_mutex_init(&bucket->bucket_lock) == NULL) {
+        LOG_ERR("initialization of bucket lock failed!");
+        umf_ba_global_free(bucket);
+        return NULL;
+    }
+
     return bucket;
 }
 
-- 
2.43.0


From cee1bd1a9767f9c9dc0fb2a54eec70b17d037139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:24 +0000
Subject: [PATCH 16/62] fix: disjoint pool: a destroyed pool gives its shared
 limits back

The slabs pooled when a pool was destroyed stayed counted in the shared
limits for ever, so pools sharing them could pool less and less.
---
 src/pool/pool_disjoint.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pool/pool_disjoint.c b/src/pool/pool_disjoint.c
index c67dacb..5d6e607 100644
--- a/src/pool/pool_disjoint.c
+++ b/src/pool/pool_disjoint.c
@@ -262,6 +262,13 @@ create_bucket(size_t sz, disjoint_pool_t *pool,
 }
 
 static void destroy_bucket(bucket_t *bucket) {
+    // the pooled slabs no longer count towards the (shared) limits
+    if (bucket->chunked_slabs_in_pool > 0) {
+        utils_fetch_and_sub_u64(&bucket->shared_limits->total_size,
+                                bucket->chunked_slabs_in_pool *
+                                    bucket_slab_alloc_size(bucket));
+    }
+
     // use an extra tmp to store the next iterator before destroying the slab
     slab_list_item_t *it = NULL, *tmp = NULL;
     LL_FOREACH_SAFE(bucket->available_slabs, it, tmp) {
-- 
2.43.0


From b954695aa38d523458a4e1c5ce90bb8509fc41dc Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 03:04:34 +0000
Subject: [PATCH 17/62] fix: os provider: refuse sizes that overflow with the
 alignment, and size 0

---
 src/provider/provider_os_memory.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 1ecb397..42aca6b 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -831,6 +831,11 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
                               size_t *fd_offset) {
     assert(out_addr);
 
+    if (length == 0) {
+        LOG_ERR("cannot map 0 bytes");
+        return -1;
+    }
+
     size_t extended_length = length;
 
     if (alignment > page_size) {
@@ -838,6 +843,11 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
         // the correctly aligned part of the memory from the mapped region
         // by unmapping the rest: unaligned beginning and unaligned end
         // of this region.
+        if (length > SIZE_MAX - alignment) {
+            LOG_ERR("size %zu is too big for the alignment %zu", length,
+                    alignment);
+            return -1;
+        }
         extended_length += alignment;
     }
 
-- 
2.43.0


From cae16e4cdb23c0f01a10213301d1d589f5e999e3 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 03:04:35 +0000
Subject: [PATCH 18/62] fix: os provider: close the file of shared memory

---
 src/provider/provider_os_memory.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 42aca6b..142a91b 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -727,7 +727,7 @@ static umf_result_t os_initialize(void *params, void **provider) {
         if (utils_mutex_init(&os_provider->lock_fd) == NULL) {
             LOG_ERR("initializing the file size lock failed");
             ret = UMF_RESULT_ERROR_UNKNOWN;
-            goto err_destroy_bitmaps;
+            goto err_close_fd;
         }
     }
 
@@ -749,6 +749,11 @@ static umf_result_t os_initialize(void *params, void **provider) {
 
     return UMF_RESULT_SUCCESS;
 
+err_close_fd:
+    (void)utils_close_fd(os_provider->fd);
+    if (os_provider->shm_name[0] != '\0') {
+        (void)utils_shm_unlink(os_provider->shm_name);
+    }
 err_destroy_bitmaps:
     free_bitmaps(os_provider);
 err_destroy_critnib:
@@ -765,6 +770,7 @@ static void os_finalize(void *provider) {
 
     if (os_provider->fd > 0) {
         utils_mutex_destroy_not_free(&os_provider->lock_fd);
+        (void)utils_close_fd(os_provider->fd);
     }
 
     critnib_delete(os_provider->fd_offset_map);
-- 
2.43.0


From 0151fc55061d8ed87601ec294e76cd414a7bb16b Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 03:04:35 +0000
Subject: [PATCH 19/62] fix: os provider: free the array of nodesets, not its
 first entry

---
 src/provider/provider_os_memory.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 142a91b..18f1e65 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -325,7 +325,8 @@ err_free_bitmaps:
         hwloc_bitmap_free(out_nodeset[i]);
     }
 err_free_list:
-    umf_ba_global_free(*out_nodeset);
+    umf_ba_global_free(out_nodeset);
+    os_provider->nodeset = NULL;
     os_provider->nodeset_len = 0;
     return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
 }
-- 
2.43.0


From 0a276651181f1521361859c2a3e82ecd6a97bf03 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 03:04:35 +0000
Subject: [PATCH 20/62] fix: os provider: fail to create when partitions cannot
 be allocated

---
 src/provider/provider_os_memory.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 18f1e65..0619ef6 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -660,7 +660,11 @@ static umf_result_t translate_params(umf_os_memory_provider_params_t *in_params,
         return result;
     }
 
-    initializePartitions(provider, in_params);
+    result = initializePartitions(provider, in_params);
+    if (result != UMF_RESULT_SUCCESS) {
+        free_bitmaps(provider);
+        return result;
+    }
 
     return UMF_RESULT_SUCCESS;
 }
-- 
2.43.0


From fc7f68560cc016b2052eb17f3e6613b1009ce0e0 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 03:04:35 +0000
Subject: [PATCH 21/62] fix: os provider: free the bitmap of a failed split
 binding

---
 src/provider/provider_os_memory.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 0619ef6..ac10aa3 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -1176,6 +1176,10 @@ static umf_result_t os_alloc(void *provider, size_t size, size_t alignment,
                     errno != 0) { // ENOSYS - Function not implemented
                     // Do not error out if memory binding is not implemented at all
                     // (like in case of WSL on Windows).
+                    if (os_provider->mode == UMF_NUMA_MODE_SPLIT &&
+                        os_provider->nodeset_len != 1) {
+                        hwloc_bitmap_free(membind.bitmap);
+                    }
                     goto err_unmap;
                 }
             }
-- 
2.43.0


From a962bbe88d45eda2fba0cf2e7a9e9326eb8cee7b Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 03:04:35 +0000
Subject: [PATCH 22/62] fix: os provider: return result codes when the shared
 memory file cannot be made

---
 src/provider/provider_os_memory.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index ac10aa3..c1be49e 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -456,7 +456,7 @@ create_fd_for_mmap(umf_os_memory_provider_params_t *in_params,
                                        provider->shm_name)) {
             LOG_ERR("invalid name of a shared memory file: %s",
                     in_params->shm_name);
-            return -1;
+            return UMF_RESULT_ERROR_INVALID_ARGUMENT;
         }
 
         /* create a new shared memory file */
@@ -467,7 +467,7 @@ create_fd_for_mmap(umf_os_memory_provider_params_t *in_params,
                     "memory mapping failed",
                     in_params->shm_name, provider->max_size_fd);
             provider->shm_name[0] = '\0'; // zero shm_name
-            return -1;
+            return UMF_RESULT_ERROR_UNKNOWN;
         }
 
         LOG_DEBUG("created the shared memory file /dev/shm/%s of size %zu",
-- 
2.43.0


From 20e8e3ec524ceed2596109d0c04f93bce3036bf1 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 03:12:36 +0000
Subject: [PATCH 23/62] fix: os provider: account for the file of shared memory
 in mapped, whole pages

---
 src/provider/provider_os_memory.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index c1be49e..bbc391b 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -864,25 +864,35 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
 
     *fd_offset = 0;
 
+    // a mapping takes whole pages of the file
+    size_t file_length = ALIGN_UP_SAFE(extended_length, page_size);
+
     if (fd > 0) {
         if (utils_mutex_lock(lock_fd)) {
             LOG_ERR("locking file size failed");
             return -1;
         }
 
-        if (*fd_size + extended_length > max_fd_size) {
+        if (file_length == 0 || file_length > max_fd_size - *fd_size) {
             utils_mutex_unlock(lock_fd);
             LOG_ERR("cannot grow a file size beyond %zu", max_fd_size);
             return -1;
         }
 
         *fd_offset = *fd_size;
-        *fd_size += extended_length;
-        utils_mutex_unlock(lock_fd);
     }
 
     void *ptr =
         utils_mmap(hint_addr, extended_length, prot, flag, fd, *fd_offset);
+
+    if (fd > 0) {
+        if (ptr != NULL) {
+            // this part of the file is in use only if it has been mapped
+            *fd_size += file_length;
+        }
+        utils_mutex_unlock(lock_fd);
+    }
+
     if (ptr == NULL) {
         LOG_PDEBUG("memory mapping failed");
         return -1;
-- 
2.43.0


From 438abe756aa5fd7978923c48733fea237ef33167 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 03:12:36 +0000
Subject: [PATCH 24/62] fix: os provider: record where in the file an aligned
 block starts

---
 src/provider/provider_os_memory.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index bbc391b..39d7744 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -912,6 +912,8 @@ static int utils_mmap_aligned(void *hint_addr, size_t length, size_t alignment,
         size_t head_len = aligned_addr - addr;
         if (head_len > 0) {
             utils_munmap(ptr, head_len);
+            // the block starts behind the unmapped part of the file
+            *fd_offset += head_len;
         }
 
         // tail address has to page-aligned
-- 
2.43.0


From 82c7ac4bb59cd5255f1ff69d4ad0c77c1d44f0d9 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 03:12:36 +0000
Subject: [PATCH 25/62] fix: os provider: do not merge blocks that are apart in
 the shared file

---
 src/provider/provider_os_memory.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 39d7744..88d7f9a 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -1394,7 +1394,6 @@ static umf_result_t os_allocation_split(void *provider, void *ptr,
 // It should NOT be called concurrently with os_allocation_split() with the same pointer.
 static umf_result_t os_allocation_merge(void *provider, void *lowPtr,
                                         void *highPtr, size_t totalSize) {
-    (void)lowPtr;
     (void)totalSize;
 
     os_memory_provider_t *os_provider = (os_memory_provider_t *)provider;
@@ -1402,6 +1401,21 @@ static umf_result_t os_allocation_merge(void *provider, void *lowPtr,
         return UMF_RESULT_SUCCESS;
     }
 
+    // blocks that are not adjacent in the file would be one block
+    // with a wrong content when opened using an IPC handle
+    void *low_value =
+        critnib_get(os_provider->fd_offset_map, (uintptr_t)lowPtr);
+    void *high_value =
+        critnib_get(os_provider->fd_offset_map, (uintptr_t)highPtr);
+    if (low_value && high_value &&
+        (uintptr_t)high_value - (uintptr_t)low_value !=
+            (uintptr_t)highPtr - (uintptr_t)lowPtr) {
+        LOG_ERR("os_allocation_merge(): blocks are not adjacent in the file "
+                "(%p, %p)",
+                lowPtr, highPtr);
+        return UMF_RESULT_ERROR_INVALID_ARGUMENT;
+    }
+
     void *value =
         critnib_remove(os_provider->fd_offset_map, (uintptr_t)highPtr);
     if (value == NULL) {
-- 
2.43.0


From 95d12f7973a8eb5e12f70d51a34b88ca298f51b5 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 03:21:03 +0000
Subject: [PATCH 26/62] fix: os provider: describe the last error also when
 none was stored

---
 src/provider/provider_os_memory.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 88d7f9a..9c1ab57 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -138,7 +138,8 @@ typedef struct os_last_native_error_t {
     char msg_buff[TLS_MSG_BUF_LEN];
 } os_last_native_error_t;
 
-static __TLS os_last_native_error_t TLS_last_native_error;
+static __TLS os_last_native_error_t TLS_last_native_error = {
+    .native_error = UMF_OS_RESULT_SUCCESS};
 
 // helper values used only in the Native_error_str array
 #define _UMF_OS_RESULT_SUCCESS (UMF_OS_RESULT_SUCCESS - UMF_OS_RESULT_SUCCESS)
@@ -1168,6 +1169,7 @@ static umf_result_t os_alloc(void *provider, size_t size, size_t alignment,
         membind_t membind =
             membindFirst(os_provider, addr, first_size, page_size);
         if (membind.bitmap == NULL) {
+            os_store_last_native_error(UMF_OS_RESULT_ERROR_BIND_FAILED, 0);
             goto err_unmap;
         }
 
-- 
2.43.0


From e41fb09f59ef06d48e8360fb0a463c76549ca00a Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 04:28:50 +0000
Subject: [PATCH 27/62] fix: file, devdax, fixed providers: describe the last
 error when none was stored

---
 src/provider/provider_devdax_memory.c | 3 ++-
 src/provider/provider_file_memory.c   | 3 ++-
 src/provider/provider_fixed_memory.c  | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/provider/provider_devdax_memory.c b/src/provider/provider_devdax_memory.c
index 8e81971..2713056 100644
--- a/src/provider/provider_devdax_memory.c
+++ b/src/provider/provider_devdax_memory.c
@@ -98,7 +98,8 @@ typedef struct devdax_last_native_error_t {
     char msg_buff[TLS_MSG_BUF_LEN];
 } devdax_last_native_error_t;
 
-static __TLS devdax_last_native_error_t TLS_last_native_error;
+static __TLS devdax_last_native_error_t TLS_last_native_error = {
+    .native_error = UMF_DEVDAX_RESULT_SUCCESS};
 
 // helper values used only in the Native_error_str array
 #define _UMF_DEVDAX_RESULT_SUCCESS                                             \
diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index 5cc377f..bd596d1 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -127,7 +127,8 @@ typedef struct file_last_native_error_t {
     char msg_buff[TLS_MSG_BUF_LEN];
 } file_last_native_error_t;
 
-static __TLS file_last_native_error_t TLS_last_native_error;
+static __TLS file_last_native_error_t TLS_last_native_error = {
+    .native_error = UMF_FILE_RESULT_SUCCESS};
 
 // helper values used only in the Native_error_str array
 #define _UMF_FILE_RESULT_SUCCESS                                               \
diff --git a/src/provider/provider_fixed_memory.c b/src/provider/provider_fixed_memory.c
index eeeb8b7..a9a693c 100644
--- a/src/provider/provider_fixed_memory.c
+++ b/src/provider/provider_fixed_memory.c
@@ -44,7 +44,8 @@ typedef struct fixed_last_native_error_t {
     char msg_buff[TLS_MSG_BUF_LEN];
 } fixed_last_native_error_t;
 
-static __TLS fixed_last_native_error_t TLS_last_native_error;
+static __TLS fixed_last_native_error_t TLS_last_native_error = {
+    .native_error = UMF_FIXED_RESULT_SUCCESS};
 
 // helper values used only in the Native_error_str array
 #define _UMF_FIXED_RESULT_SUCCESS                                              \
-- 
2.43.0


From 775d048d6958eff612993cf4705be4df2d3fcedb Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 04:31:12 +0000
Subject: [PATCH 28/62] fix: coarse: refuse allocations of size 0

---
 src/coarse/coarse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coarse/coarse.c b/src/coarse/coarse.c
index d097b1c..735645b 100644
--- a/src/coarse/coarse.c
+++ b/src/coarse/coarse.c
@@ -1044,7 +1044,7 @@ umf_result_t coarse_alloc(coarse_t *coarse, size_t size, size_t alignment,
                           void **resultPtr) {
     umf_result_t umf_result = UMF_RESULT_ERROR_UNKNOWN;
 
-    if (coarse == NULL || resultPtr == NULL) {
+    if (coarse == NULL || resultPtr == NULL || size == 0) {
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
-- 
2.43.0


From a4af0d384ee1db6c3b868c81e61db76f49530f70 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 04:37:42 +0000
Subject: [PATCH 29/62] fix: file provider: skip the part of the file cut off
 by alignment

---
 src/provider/provider_file_memory.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index bd596d1..63f784c 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -413,6 +413,9 @@ static umf_result_t file_mmap_aligned(file_memory_provider_t *file_provider,
     file_provider->size_mmap = aligned_size;
     file_provider->offset_mmap = 0;
 
+    // the part of the file that was cut off to align the pointer is skipped too
+    file_provider->offset_fd = aligned_offset_fd + (extended_size - aligned_size);
+
     return UMF_RESULT_SUCCESS;
 }
 
-- 
2.43.0


From 494ff98fbaa94fe971b808a614d3931de60e49e7 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 04:37:42 +0000
Subject: [PATCH 30/62] fix: file provider: unmap a mapping that could not be
 recorded

---
 src/provider/provider_file_memory.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index 63f784c..5194fa9 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -399,6 +399,8 @@ static umf_result_t file_mmap_aligned(file_memory_provider_t *file_provider,
         LOG_ERR("inserting a value to the map of memory mapping failed "
                 "(addr=%p, size=%zu)",
                 ptr, extended_size);
+        (void)utils_munmap(ptr, extended_size);
+        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
     }
 
     LOG_DEBUG(
-- 
2.43.0


From 573d8865bed57eda32627f30e12a53f1e2d94ea8 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 04:37:42 +0000
Subject: [PATCH 31/62] fix: file provider: do not merge blocks that are apart
 in the file

---
 src/provider/provider_file_memory.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index 5194fa9..282f6fd 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -694,6 +694,19 @@ static umf_result_t file_allocation_merge_cb(void *provider, void *lowPtr,
         return UMF_RESULT_SUCCESS;
     }
 
+    // blocks of different mappings can be adjacent in memory
+    // but not in the file
+    void *low_value =
+        critnib_get(file_provider->fd_offset_map, (uintptr_t)lowPtr);
+    void *high_value =
+        critnib_get(file_provider->fd_offset_map, (uintptr_t)highPtr);
+    if ((uintptr_t)high_value - (uintptr_t)low_value !=
+        (uintptr_t)highPtr - (uintptr_t)lowPtr) {
+        LOG_DEBUG("blocks %p and %p are not adjacent in the file", lowPtr,
+                  highPtr);
+        return UMF_RESULT_ERROR_INVALID_ARGUMENT;
+    }
+
     void *value =
         critnib_remove(file_provider->fd_offset_map, (uintptr_t)highPtr);
     if (value == NULL) {
-- 
2.43.0


From 44158460f1cc07416a207db5d02ad23fa03c0b81 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 04:37:42 +0000
Subject: [PATCH 32/62] fix: file, devdax providers: fail when the path is too
 long

---
 src/provider/provider_devdax_memory.c | 1 +
 src/provider/provider_file_memory.c   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/provider/provider_devdax_memory.c b/src/provider/provider_devdax_memory.c
index 2713056..8f8bed1 100644
--- a/src/provider/provider_devdax_memory.c
+++ b/src/provider/provider_devdax_memory.c
@@ -205,6 +205,7 @@ static umf_result_t devdax_initialize(void *params, void **provider) {
 
     devdax_provider->size = in_params->size;
     if (utils_copy_path(in_params->path, devdax_provider->path, PATH_MAX)) {
+        ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
         goto err_coarse_delete;
     }
 
diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index 282f6fd..ce69d7d 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -215,6 +215,7 @@ static umf_result_t file_initialize(void *params, void **provider) {
     }
 
     if (utils_copy_path(in_params->path, file_provider->path, PATH_MAX)) {
+        ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
         goto err_free_file_provider;
     }
 
-- 
2.43.0


From 50f976d1d4a50354f4eca9862013dce4bd8842cc Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 04:46:38 +0000
Subject: [PATCH 33/62] fix: ctl: fail queries of names that go on after a leaf

---
 src/ctl/ctl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ctl/ctl.c b/src/ctl/ctl.c
index 99ab2d9..705554b 100644
--- a/src/ctl/ctl.c
+++ b/src/ctl/ctl.c
@@ -145,6 +145,10 @@ static const umf_ctl_node_t *ctl_find_node(const umf_ctl_node_t *nodes,
             // if a subtree occurs, the subtree handler should be called
             break;
         }
+        if (nodes == NULL) {
+            // there is nothing below a leaf
+            goto error;
+        }
         char *endptr;
         /*
          * Ignore errno from strtol: FreeBSD returns EINVAL if no
-- 
2.43.0


From c086dc31fd23ef1c6c97b7daa8a47a0123028905 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 04:46:38 +0000
Subject: [PATCH 34/62] fix: ctl: hand the indexes of a query to its handler
 and free them

---
 src/ctl/ctl.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/ctl/ctl.c b/src/ctl/ctl.c
index 705554b..450e789 100644
--- a/src/ctl/ctl.c
+++ b/src/ctl/ctl.c
@@ -121,7 +121,7 @@ umf_result_t umfCtlExec(const char *name, void *ctx, void *arg) {
  */
 static const umf_ctl_node_t *ctl_find_node(const umf_ctl_node_t *nodes,
                                            const char *name,
-                                           umf_ctl_index_utlist_t *indexes,
+                                           umf_ctl_index_utlist_t **indexes,
                                            size_t *name_offset) {
     assert(nodes != NULL);
     assert(name != NULL);
@@ -165,7 +165,7 @@ static const umf_ctl_node_t *ctl_find_node(const umf_ctl_node_t *nodes,
                 goto error;
             }
             index_entry->value = index_value;
-            LL_PREPEND(indexes, index_entry);
+            LL_PREPEND(*indexes, index_entry);
         }
 
         for (n = &nodes[0]; n->name != NULL; ++n) {
@@ -396,21 +396,17 @@ int ctl_query(struct ctl *ctl, void *ctx, umf_ctl_query_source_t source,
      * query has been handled.
      */
     umf_ctl_index_utlist_t *indexes = NULL;
-    indexes = Zalloc(sizeof(*indexes));
-    if (!indexes) {
-        return -1;
-    }
 
     int ret = -1;
     size_t name_offset = 0;
 
     const umf_ctl_node_t *n =
-        ctl_find_node(CTL_NODE(global), name, indexes, &name_offset);
+        ctl_find_node(CTL_NODE(global), name, &indexes, &name_offset);
 
     if (n == NULL && ctl) {
         ctl_delete_indexes(indexes);
         indexes = NULL;
-        n = ctl_find_node(ctl->root, name, indexes, &name_offset);
+        n = ctl_find_node(ctl->root, name, &indexes, &name_offset);
     }
 
     // if the appropriate node (leaf or subtree) is not found, then return error
-- 
2.43.0


From e1de96d73e0e15c7f85a951dffada17ccf6dd476 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 05:00:16 +0000
Subject: [PATCH 35/62] fix: file provider: do not align past the end of the
 mapping

---
 src/provider/provider_file_memory.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/provider/provider_file_memory.c b/src/provider/provider_file_memory.c
index ce69d7d..377cbec 100644
--- a/src/provider/provider_file_memory.c
+++ b/src/provider/provider_file_memory.c
@@ -461,7 +461,9 @@ static umf_result_t file_alloc_aligned(file_memory_provider_t *file_provider,
     size_t new_offset_fd =
         file_provider->offset_fd + new_offset_mmap - file_provider->offset_mmap;
 
-    if (file_provider->size_mmap - new_offset_mmap < size) {
+    // aligning can go past the end of the current mapping
+    if (new_offset_mmap > file_provider->size_mmap ||
+        file_provider->size_mmap - new_offset_mmap < size) {
         umf_result = file_mmap_aligned(file_provider, size, alignment);
         if (umf_result != UMF_RESULT_SUCCESS) {
             utils_mutex_unlock(&file_provider->lock);
-- 
2.43.0


From 42b5573e7c07779c58a9279e7959750ae6b51dc6 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 05:35:47 +0000
Subject: [PATCH 36/62] fix: proxy_lib: do not memcpy overlapping blocks in
 realloc

---
 src/proxy_lib/proxy_lib.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/proxy_lib/proxy_lib.c b/src/proxy_lib/proxy_lib.c
index ccb60f8..1c91f49 100644
--- a/src/proxy_lib/proxy_lib.c
+++ b/src/proxy_lib/proxy_lib.c
@@ -291,7 +291,8 @@ static inline void *ba_generic_realloc(umf_ba_linear_pool_t *pool, void *ptr,
         new_size = max_size;
     }
 
-    memcpy(new_ptr, ptr, new_size);
+    // the blocks can overlap here, because the size of the old one is unknown
+    memmove(new_ptr, ptr, new_size);
 
     // we can free the old ptr now
     umf_ba_linear_free(pool, ptr);
-- 
2.43.0


From 3c55344abfeeca5f9191aebca37a0b28940bd05f Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 05:35:47 +0000
Subject: [PATCH 37/62] fix: proxy_lib: refuse sizes that overflow before the
 pool is created

---
 src/proxy_lib/proxy_lib.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/proxy_lib/proxy_lib.c b/src/proxy_lib/proxy_lib.c
index 1c91f49..4231ce0 100644
--- a/src/proxy_lib/proxy_lib.c
+++ b/src/proxy_lib/proxy_lib.c
@@ -316,6 +316,9 @@ static void ba_leak_init_once(void) {
 
 static inline void *ba_leak_aligned_alloc(size_t alignment, size_t size) {
     ba_leak_init_once();
+    if (size > SIZE_MAX - alignment) {
+        return NULL;
+    }
     void *ptr = umf_ba_linear_alloc(Base_alloc_leak, size + alignment);
     return (void *)ALIGN_UP_SAFE((uintptr_t)ptr, alignment);
 }
@@ -326,6 +329,9 @@ static inline void *ba_leak_malloc(size_t size) {
 
 static inline void *ba_leak_calloc(size_t nmemb, size_t size) {
     ba_leak_init_once();
+    if (size != 0 && nmemb > SIZE_MAX / size) {
+        return NULL;
+    }
     // umf_ba_linear_alloc() returns zeroed memory
     // so ba_leak_aligned_alloc() does too
     return ba_leak_aligned_alloc(0, nmemb * size);
-- 
2.43.0


From bdcd8542101ed5974b8a699a99cdc5a3bcef8428 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 05:43:08 +0000
Subject: [PATCH 38/62] fix: base_alloc: do not annotate memory that was not
 obtained

---
 src/base_alloc/base_alloc_linux.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/base_alloc/base_alloc_linux.c b/src/base_alloc/base_alloc_linux.c
index 9b1dc63..8fe19b7 100644
--- a/src/base_alloc/base_alloc_linux.c
+++ b/src/base_alloc/base_alloc_linux.c
@@ -20,7 +20,9 @@ void *ba_os_alloc(size_t size) {
     // this should be unnecessary but pairs of mmap/munmap do not reset
     // asan's user-poisoning flags, leading to invalid error reports
     // Bug 81619: https://gcc.gnu.org/bugzilla/show_bug.cgi?id=81619
-    utils_annotate_memory_defined(ptr, size);
+    if (ptr) {
+        utils_annotate_memory_defined(ptr, size);
+    }
     return ptr;
 }
 
-- 
2.43.0


From e10066315c327f46ee1de3b7ad0d1c3d260362a1 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 05:45:06 +0000
Subject: [PATCH 39/62] fix: umfInit: leave nothing behind when it fails

---
 src/libumf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libumf.c b/src/libumf.c
index 7c10402..a0ed5e6 100644
--- a/src/libumf.c
+++ b/src/libumf.c
@@ -38,6 +38,7 @@ int umfInit(void) {
         TRACKER = umfMemoryTrackerCreate();
         if (!TRACKER) {
             LOG_ERR("Failed to create memory tracker");
+            utils_fetch_and_sub_u64(&umfRefCount, 1);
             return -1;
         }
 
@@ -46,6 +47,9 @@ int umfInit(void) {
         umf_result_t umf_result = umfIpcCacheGlobalInit();
         if (umf_result != UMF_RESULT_SUCCESS) {
             LOG_ERR("Failed to initialize IPC cache");
+            umfMemoryTrackerDestroy(TRACKER);
+            TRACKER = NULL;
+            utils_fetch_and_sub_u64(&umfRefCount, 1);
             return -1;
         }
 
-- 
2.43.0


From 6bec6a0d8cc43d004778f75e1fc3c0ade59a0c82 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 05:45:06 +0000
Subject: [PATCH 40/62] fix: umfInit: do not register the global CTL module
 again after a teardown

---
 src/libumf.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libumf.c b/src/libumf.c
index a0ed5e6..18d53cd 100644
--- a/src/libumf.c
+++ b/src/libumf.c
@@ -30,7 +30,14 @@ static uint64_t umfRefCount = 0;
 static umf_ctl_node_t CTL_NODE(umf)[] = {CTL_CHILD(provider), CTL_CHILD(pool),
                                          CTL_NODE_END};
 
-void initialize_global_ctl(void) { CTL_REGISTER_MODULE(NULL, umf); }
+void initialize_global_ctl(void) {
+    // the global tree is never torn down, so register the module only once
+    static bool registered = false;
+    if (!registered) {
+        CTL_REGISTER_MODULE(NULL, umf);
+        registered = true;
+    }
+}
 
 int umfInit(void) {
     if (utils_fetch_and_add_u64(&umfRefCount, 1) == 0) {
-- 
2.43.0


From 45a7ec3d29965f2b1b035e36232822b2012dcf76 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 05:45:06 +0000
Subject: [PATCH 41/62] fix: memory_provider: report the failure of a CTL query
 by handle

---
 src/memory_provider.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/memory_provider.c b/src/memory_provider.c
index fdc8725..87124a9 100644
--- a/src/memory_provider.c
+++ b/src/memory_provider.c
@@ -27,9 +27,9 @@ static int CTL_SUBTREE_HANDLER(by_handle_provider)(
     umf_ctl_query_type_t queryType) {
     (void)indexes, (void)source;
     umf_memory_provider_handle_t hProvider = (umf_memory_provider_handle_t)ctx;
-    hProvider->ops.ctl(hProvider->provider_priv, /*unused*/ 0, extra_name, arg,
-                       queryType);
-    return 0;
+    umf_result_t ret = hProvider->ops.ctl(
+        hProvider->provider_priv, /*unused*/ 0, extra_name, arg, queryType);
+    return ret == UMF_RESULT_SUCCESS ? 0 : -1;
 }
 
 umf_ctl_node_t CTL_NODE(provider)[] = {
-- 
2.43.0


From 883ac082e453ac3d543d5384b3d0b8586a6a5d5b Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 05:45:06 +0000
Subject: [PATCH 42/62] fix: memory_pool: report the failure of a CTL query by
 handle

---
 src/memory_pool.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/memory_pool.c b/src/memory_pool.c
index c948823..654b379 100644
--- a/src/memory_pool.c
+++ b/src/memory_pool.c
@@ -30,8 +30,9 @@ static int CTL_SUBTREE_HANDLER(by_handle_pool)(void *ctx,
                                                umf_ctl_query_type_t queryType) {
     (void)indexes, (void)source;
     umf_memory_pool_handle_t hPool = (umf_memory_pool_handle_t)ctx;
-    hPool->ops.ctl(hPool, /*unused*/ 0, extra_name, arg, queryType);
-    return 0;
+    umf_result_t ret =
+        hPool->ops.ctl(hPool, /*unused*/ 0, extra_name, arg, queryType);
+    return ret == UMF_RESULT_SUCCESS ? 0 : -1;
 }
 
 umf_ctl_node_t CTL_NODE(pool)[] = {CTL_LEAF_SUBTREE2(by_handle, by_handle_pool),
-- 
2.43.0


From 5f23c0536cf827a784e5ae2fe98bc4e40c67bec4 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 05:48:06 +0000
Subject: [PATCH 43/62] fix: base_alloc: free memory again after the library is
 reinitialized

---
 src/base_alloc/base_alloc_global.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/base_alloc/base_alloc_global.c b/src/base_alloc/base_alloc_global.c
index 44658df..34d3cde 100644
--- a/src/base_alloc/base_alloc_global.c
+++ b/src/base_alloc/base_alloc_global.c
@@ -58,6 +58,8 @@ void umf_ba_destroy_global(void) {
 bool umf_ba_global_is_destroyed(void) { return ba_is_destroyed; }
 
 static void umf_ba_create_global(void) {
+    ba_is_destroyed = false; // it may be created again after being destroyed
+
     for (int i = 0; i < NUM_ALLOCATION_CLASSES; i++) {
         // allocation classes need to be powers of 2
         assert(0 == (BASE_ALLOC.ac_sizes[i] & (BASE_ALLOC.ac_sizes[i] - 1)));
-- 
2.43.0


From da36b0f62be4c0ddfa3aeb563937f652d74fdc13 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 05:51:34 +0000
Subject: [PATCH 44/62] fix: memspace_numa: do not read the freed array of
 nodes when a target cannot be created

---
 src/memspaces/memspace_numa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memspaces/memspace_numa.c b/src/memspaces/memspace_numa.c
index 83e65fc..b9a9765 100644
--- a/src/memspaces/memspace_numa.c
+++ b/src/memspaces/memspace_numa.c
@@ -67,10 +67,10 @@ umf_result_t umfMemspaceCreateFromNumaArray(unsigned *nodeIds, size_t numIds,
     return UMF_RESULT_SUCCESS;
 
 err_target_create:
-    umf_ba_global_free(memspace->nodes);
     for (size_t i = 0; i < nodeIdx; i++) {
         umfMemtargetDestroy(memspace->nodes[i]);
     }
+    umf_ba_global_free(memspace->nodes);
 err_nodes_alloc:
     umf_ba_global_free(memspace);
     return ret;
-- 
2.43.0


From 7a8726dd9963dca9fac0bbd7b65805fc68c443a7 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 05:51:34 +0000
Subject: [PATCH 45/62] fix: memspace_highest_capacity: do not leak the
 memspace that could not be sorted

---
 src/memspaces/memspace_highest_capacity.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/memspaces/memspace_highest_capacity.c b/src/memspaces/memspace_highest_capacity.c
index 4a19531..c6cf1c1 100644
--- a/src/memspaces/memspace_highest_capacity.c
+++ b/src/memspaces/memspace_highest_capacity.c
@@ -50,6 +50,7 @@ umfMemspaceHighestCapacityCreate(umf_memspace_handle_t *hMemspace) {
     ret = umfMemspaceSortDesc(highCapacityMemspace,
                               (umfGetPropertyFn)&umfMemtargetGetCapacity);
     if (ret != UMF_RESULT_SUCCESS) {
+        umfMemspaceDestroy(highCapacityMemspace);
         return ret;
     }
 
-- 
2.43.0


From 7dd37df6e07851192fb1d3f965899149a9cb42e9 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 05:51:34 +0000
Subject: [PATCH 46/62] fix: memtarget_numa: query bandwidth and latency by the
 OS index of the nodes

---
 src/memtargets/memtarget_numa.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/memtargets/memtarget_numa.c b/src/memtargets/memtarget_numa.c
index 88d8ac2..32a2729 100644
--- a/src/memtargets/memtarget_numa.c
+++ b/src/memtargets/memtarget_numa.c
@@ -263,19 +263,18 @@ static umf_result_t query_attribute_value(void *srcMemoryTarget,
         return UMF_RESULT_ERROR_NOT_SUPPORTED;
     }
 
-    hwloc_obj_t srcNumaNode = hwloc_get_obj_by_type(
-        topology, HWLOC_OBJ_NUMANODE,
-        ((struct numa_memtarget_t *)srcMemoryTarget)->physical_id);
+    // physical_id is the OS index of the node, not its logical index
+    hwloc_obj_t srcNumaNode = hwloc_get_numanode_obj_by_os_index(
+        topology, ((struct numa_memtarget_t *)srcMemoryTarget)->physical_id);
     if (!srcNumaNode) {
-        LOG_PERR("Getting HWLOC object by type failed");
+        LOG_PERR("Getting HWLOC object by OS index failed");
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
-    hwloc_obj_t dstNumaNode = hwloc_get_obj_by_type(
-        topology, HWLOC_OBJ_NUMANODE,
-        ((struct numa_memtarget_t *)dstMemoryTarget)->physical_id);
+    hwloc_obj_t dstNumaNode = hwloc_get_numanode_obj_by_os_index(
+        topology, ((struct numa_memtarget_t *)dstMemoryTarget)->physical_id);
     if (!dstNumaNode) {
-        LOG_PERR("Getting HWLOC object by type failed");
+        LOG_PERR("Getting HWLOC object by OS index failed");
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
-- 
2.43.0


From 321893443afd7975521c23905bc3bf6b89d9a412 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 05:51:34 +0000
Subject: [PATCH 47/62] fix: memspace: remove targets without using freed ones
 or failing on the last one

---
 src/memspace.c | 68 +++++++++++++++++++-------------------------------
 1 file changed, 25 insertions(+), 43 deletions(-)

diff --git a/src/memspace.c b/src/memspace.c
index 1cd80e1..476c5a8 100644
--- a/src/memspace.c
+++ b/src/memspace.c
@@ -408,22 +408,13 @@ umfMemspaceMemtargetRemove(umf_memspace_handle_t hMemspace,
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
-    umf_memtarget_handle_t *newNodes =
-        umf_ba_global_alloc(sizeof(*newNodes) * (hMemspace->size - 1));
-    if (!newNodes) {
-        return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
-    }
+    umfMemtargetDestroy(hMemspace->nodes[i]);
 
-    for (unsigned j = 0, z = 0; j < hMemspace->size; j++) {
-        if (j != i) {
-            newNodes[z++] = hMemspace->nodes[j];
-        }
+    hMemspace->size--;
+    for (size_t j = i; j < hMemspace->size; j++) {
+        hMemspace->nodes[j] = hMemspace->nodes[j + 1];
     }
 
-    umfMemtargetDestroy(hMemspace->nodes[i]);
-    umf_ba_global_free(hMemspace->nodes);
-    hMemspace->nodes = newNodes;
-    hMemspace->size--;
     return UMF_RESULT_SUCCESS;
 }
 
@@ -437,48 +428,39 @@ static int umfMemspaceFilterHelper(umf_memspace_handle_t memspace,
         return UMF_RESULT_ERROR_INVALID_ARGUMENT;
     }
 
-    size_t idx = 0;
-    int ret;
-    umf_memtarget_handle_t *nodesToRemove =
-        umf_ba_global_alloc(sizeof(*nodesToRemove) * memspace->size);
-    if (!nodesToRemove) {
+    if (memspace->size == 0) {
+        return UMF_RESULT_SUCCESS;
+    }
+
+    int *keep = umf_ba_global_alloc(sizeof(*keep) * memspace->size);
+    if (!keep) {
         return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
     }
 
     for (size_t i = 0; i < memspace->size; i++) {
-        ret = filter(memspace, memspace->nodes[i], args);
-        if (ret < 0) {
+        keep[i] = filter(memspace, memspace->nodes[i], args);
+        if (keep[i] < 0) {
             LOG_ERR("filter function failed");
-            goto free_mem;
-        } else if (ret == 0) {
-            nodesToRemove[idx++] = memspace->nodes[i];
+            int ret = keep[i];
+            umf_ba_global_free(keep);
+            return ret;
         }
     }
 
-    size_t i = 0;
-    for (; i < idx; i++) {
-        ret = umfMemspaceMemtargetRemove(memspace, nodesToRemove[i]);
-        if (ret != UMF_RESULT_SUCCESS) {
-            goto re_add;
+    // Nothing can fail from here on: the memspace is either filtered
+    // completely or not changed at all.
+    size_t numKept = 0;
+    for (size_t i = 0; i < memspace->size; i++) {
+        if (keep[i]) {
+            memspace->nodes[numKept++] = memspace->nodes[i];
+        } else {
+            umfMemtargetDestroy(memspace->nodes[i]);
         }
     }
+    memspace->size = numKept;
 
-    umf_ba_global_free(nodesToRemove);
+    umf_ba_global_free(keep);
     return UMF_RESULT_SUCCESS;
-
-re_add:
-    // If target removal failed, add back previously removed targets.
-    for (size_t j = 0; j < i; j++) {
-        umf_result_t ret2 = umfMemspaceMemtargetAdd(memspace, nodesToRemove[j]);
-        if (ret2 != UMF_RESULT_SUCCESS) {
-            ret =
-                UMF_RESULT_ERROR_UNKNOWN; // indicate that memspace is corrupted
-            break;
-        }
-    }
-free_mem:
-    umf_ba_global_free(nodesToRemove);
-    return ret;
 }
 
 umf_result_t umfMemspaceUserFilter(umf_memspace_handle_t memspace,
-- 
2.43.0


From 30699f1bc21a17a239e02d1355cef90954b533a4 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 05:51:34 +0000
Subject: [PATCH 48/62] fix: memspace: clone empty memspaces

---
 src/memspace.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/memspace.c b/src/memspace.c
index 476c5a8..7c28fa2 100644
--- a/src/memspace.c
+++ b/src/memspace.c
@@ -153,9 +153,12 @@ umf_result_t umfMemspaceClone(umf_const_memspace_handle_t hMemspace,
     }
 
     clone->size = hMemspace->size;
-    clone->nodes =
-        umf_ba_global_alloc(sizeof(umf_memtarget_handle_t) * clone->size);
-    if (!clone->nodes) {
+    clone->nodes = NULL;
+    if (clone->size > 0) {
+        clone->nodes =
+            umf_ba_global_alloc(sizeof(umf_memtarget_handle_t) * clone->size);
+    }
+    if (!clone->nodes && clone->size > 0) {
         umf_ba_global_free(clone);
         return UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
     }
-- 
2.43.0


From 15775f158060317045e392b53b6072cc2591c64a Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 05:55:14 +0000
Subject: [PATCH 49/62] fix: memspace_lowest_latency: create the memspace again
 after a teardown

---
 src/memspaces/memspace_lowest_latency.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/memspaces/memspace_lowest_latency.c b/src/memspaces/memspace_lowest_latency.c
index 5ca369f..4d34eac 100644
--- a/src/memspaces/memspace_lowest_latency.c
+++ b/src/memspaces/memspace_lowest_latency.c
@@ -91,6 +91,11 @@ void umfMemspaceLowestLatencyDestroy(void) {
     if (UMF_MEMSPACE_LOWEST_LATENCY) {
         umfMemspaceDestroy(UMF_MEMSPACE_LOWEST_LATENCY);
         UMF_MEMSPACE_LOWEST_LATENCY = NULL;
+
+        // portable version of "UMF_MEMSPACE_LOWEST_LATENCY_INITIALIZED = UTIL_ONCE_FLAG_INIT;"
+        static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+        memcpy(&UMF_MEMSPACE_LOWEST_LATENCY_INITIALIZED, &is_initialized,
+               sizeof(UMF_MEMSPACE_LOWEST_LATENCY_INITIALIZED));
     }
 }
 
-- 
2.43.0


From c1233a808703049e172cf4109d82a7fd3be1a262 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 05:59:16 +0000
Subject: [PATCH 50/62] fix: level_zero provider: free memory that could not be
 made resident

---
 src/provider/provider_level_zero.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/provider/provider_level_zero.c b/src/provider/provider_level_zero.c
index a4c68b3..3cbf6b1 100644
--- a/src/provider/provider_level_zero.c
+++ b/src/provider/provider_level_zero.c
@@ -481,6 +481,9 @@ static umf_result_t ze_memory_provider_alloc(void *provider, size_t size,
             ze_provider->context, ze_provider->resident_device_handles[i],
             *resultPtr, size);
         if (ze_result != ZE_RESULT_SUCCESS) {
+            LOG_ERR("making the memory resident failed");
+            (void)g_ze_ops.zeMemFree(ze_provider->context, *resultPtr);
+            *resultPtr = NULL;
             return ze2umf_result(ze_result);
         }
     }
-- 
2.43.0


From 10bf46d1d69155c84b734a18795ee161e81e7a39 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 05:59:16 +0000
Subject: [PATCH 51/62] fix: level_zero provider: finalize the right object
 when creation fails

---
 src/provider/provider_level_zero.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/provider/provider_level_zero.c b/src/provider/provider_level_zero.c
index 3cbf6b1..a7abee6 100644
--- a/src/provider/provider_level_zero.c
+++ b/src/provider/provider_level_zero.c
@@ -632,7 +632,7 @@ static umf_result_t ze_memory_provider_initialize(void *params,
     umf_result_t result =
         query_min_page_size(ze_provider, &ze_provider->min_page_size);
     if (result != UMF_RESULT_SUCCESS) {
-        ze_memory_provider_finalize(provider);
+        ze_memory_provider_finalize(ze_provider);
         return result;
     }
 
-- 
2.43.0


From e892c4ee1b5be303f07c516c02aff252c4f14ae4 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 05:59:16 +0000
Subject: [PATCH 52/62] fix: level_zero provider: refuse a free policy the
 driver does not support

---
 src/provider/provider_level_zero.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/provider/provider_level_zero.c b/src/provider/provider_level_zero.c
index a7abee6..c2e1dfd 100644
--- a/src/provider/provider_level_zero.c
+++ b/src/provider/provider_level_zero.c
@@ -579,6 +579,12 @@ static umf_result_t ze_memory_provider_initialize(void *params,
         return UMF_RESULT_ERROR_DEPENDENCY_UNAVAILABLE;
     }
 
+    if (umfFreePolicyToZePolicy(ze_params->freePolicy) != 0 &&
+        g_ze_ops.zeMemFreeExt == NULL) {
+        LOG_ERR("The free policy is not supported by the Level Zero loader");
+        return UMF_RESULT_ERROR_NOT_SUPPORTED;
+    }
+
     ze_memory_provider_t *ze_provider =
         umf_ba_global_alloc(sizeof(ze_memory_provider_t));
     if (!ze_provider) {
-- 
2.43.0


From c21a75851c5cf8b39ac43ca6b9376cdd0285074d Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 05:59:16 +0000
Subject: [PATCH 53/62] fix: level_zero provider: set the message of the last
 native error

---
 src/provider/provider_level_zero.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/provider/provider_level_zero.c b/src/provider/provider_level_zero.c
index c2e1dfd..f7ca68f 100644
--- a/src/provider/provider_level_zero.c
+++ b/src/provider/provider_level_zero.c
@@ -657,6 +657,7 @@ static void ze_memory_provider_get_last_native_error(void *provider,
         return;
     }
 
+    *ppMessage = "";
     *pError = TLS_last_native_error;
 }
 
-- 
2.43.0


From ed837add6c6e7c06c2b4a86c936e60b103b7021a Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 06:01:22 +0000
Subject: [PATCH 54/62] fix: scalable pool: refuse arrays whose size overflows

---
 src/pool/pool_scalable.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pool/pool_scalable.c b/src/pool/pool_scalable.c
index f688875..396137e 100644
--- a/src/pool/pool_scalable.c
+++ b/src/pool/pool_scalable.c
@@ -337,6 +337,12 @@ static void *tbb_malloc(void *pool, size_t size) {
 static void *tbb_calloc(void *pool, size_t num, size_t size) {
     assert(pool);
     size_t csize = num * size;
+    if (size != 0 && csize / size != num) {
+        LOG_ERR("calloc of %zu elements of %zu bytes overflows", num, size);
+        TLS_last_allocation_error = UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
+        return NULL;
+    }
+
     void *ptr = tbb_malloc(pool, csize);
     if (ptr == NULL) {
         // TLS_last_allocation_error is set by tbb_malloc()
-- 
2.43.0


From d079106173e4c92a4636f5e9fca945cd8ffe94f1 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 06:01:22 +0000
Subject: [PATCH 55/62] fix: scalable pool: require pool_msize, which is called
 unconditionally

---
 src/pool/pool_scalable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pool/pool_scalable.c b/src/pool/pool_scalable.c
index 396137e..d5ebff7 100644
--- a/src/pool/pool_scalable.c
+++ b/src/pool/pool_scalable.c
@@ -151,7 +151,7 @@ static void init_tbb_callbacks_once(void) {
     if (!tbb_callbacks.pool_malloc || !tbb_callbacks.pool_realloc ||
         !tbb_callbacks.pool_aligned_malloc || !tbb_callbacks.pool_free ||
         !tbb_callbacks.pool_create_v1 || !tbb_callbacks.pool_destroy ||
-        !tbb_callbacks.pool_identify) {
+        !tbb_callbacks.pool_identify || !tbb_callbacks.pool_msize) {
         LOG_FATAL("Could not find all TBB symbols in %s", lib_name);
         if (utils_close_library(tbb_callbacks.lib_handle)) {
             LOG_ERR("Could not close %s library", lib_name);
-- 
2.43.0


From 7920d6f0ed9e17d113db3bcb9fc21fea7989bafd Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 06:01:22 +0000
Subject: [PATCH 56/62] fix: scalable pool: do not close the TBB library twice

---
 src/pool/pool_scalable.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pool/pool_scalable.c b/src/pool/pool_scalable.c
index d5ebff7..64714a4 100644
--- a/src/pool/pool_scalable.c
+++ b/src/pool/pool_scalable.c
@@ -156,6 +156,7 @@ static void init_tbb_callbacks_once(void) {
         if (utils_close_library(tbb_callbacks.lib_handle)) {
             LOG_ERR("Could not close %s library", lib_name);
         }
+        tbb_callbacks.lib_handle = NULL;
         tbb_init_result = -1;
     }
 }
-- 
2.43.0


From 7d18ff7c08cfbe7f360801355df33720d25c62bc Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 06:01:22 +0000
Subject: [PATCH 57/62] fix: scalable pool: load the TBB symbols again after a
 teardown

---
 src/pool/pool_scalable.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pool/pool_scalable.c b/src/pool/pool_scalable.c
index 64714a4..237ebd5 100644
--- a/src/pool/pool_scalable.c
+++ b/src/pool/pool_scalable.c
@@ -171,6 +171,12 @@ void fini_tbb_global_state(void) {
         if (!utils_close_library(tbb_callbacks.lib_handle)) {
             tbb_callbacks.lib_handle = NULL;
             LOG_DEBUG("TBB library closed");
+
+            // the symbols are not valid any more, they have to be looked up
+            // again if the library is reinitialized
+            // portable version of "tbb_initialized = UTIL_ONCE_FLAG_INIT;"
+            static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+            memcpy(&tbb_initialized, &is_initialized, sizeof(tbb_initialized));
         } else {
             LOG_ERR("TBB library cannot be unloaded");
         }
-- 
2.43.0


From 2a7e35375a2662c1d7f846ca6bfae2857e4e1bd2 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 06:02:43 +0000
Subject: [PATCH 58/62] fix: ctl: keep the trees of the OS provider and the
 scalable pool across a teardown

---
 src/ctl/ctl.c                     | 17 -----------------
 src/ctl/ctl.h                     | 17 +++++++++++++++++
 src/pool/pool_scalable.c          |  9 +++++----
 src/provider/provider_os_memory.c | 11 ++++++-----
 4 files changed, 28 insertions(+), 26 deletions(-)

diff --git a/src/ctl/ctl.c b/src/ctl/ctl.c
index 450e789..81146c7 100644
--- a/src/ctl/ctl.c
+++ b/src/ctl/ctl.c
@@ -36,8 +36,6 @@
 #include <stdio.h>
 #endif
 
-#define CTL_MAX_ENTRIES 100
-
 #define MAX_CONFIG_FILE_LEN (1 << 20) /* 1 megabyte */
 
 #define CTL_STRING_QUERY_SEPARATOR ";"
@@ -49,21 +47,6 @@
 static int ctl_global_first_free = 0;
 static umf_ctl_node_t CTL_NODE(global)[CTL_MAX_ENTRIES];
 
-/*
- * This is the top level node of the ctl tree structure. Each node can contain
- * children and leaf nodes.
- *
- * Internal nodes simply create a new path in the tree whereas child nodes are
- * the ones providing the read/write functionality by the means of callbacks.
- *
- * Each tree node must be NULL-terminated, CTL_NODE_END macro is provided for
- * convenience.
- */
-struct ctl {
-    umf_ctl_node_t root[CTL_MAX_ENTRIES];
-    int first_free;
-};
-
 void *Zalloc(size_t sz) {
     void *ptr = umf_ba_global_alloc(sz);
     if (ptr) {
diff --git a/src/ctl/ctl.h b/src/ctl/ctl.h
index 968998f..6df0e87 100644
--- a/src/ctl/ctl.h
+++ b/src/ctl/ctl.h
@@ -98,6 +98,23 @@ typedef struct ctl_node {
     const struct ctl_node *children;
 } umf_ctl_node_t;
 
+#define CTL_MAX_ENTRIES 100
+
+/*
+ * This is the top level node of the ctl tree structure. Each node can contain
+ * children and leaf nodes.
+ *
+ * Internal nodes simply create a new path in the tree whereas child nodes are
+ * the ones providing the read/write functionality by the means of callbacks.
+ *
+ * Each tree node must be NULL-terminated, CTL_NODE_END macro is provided for
+ * convenience.
+ */
+struct ctl {
+    umf_ctl_node_t root[CTL_MAX_ENTRIES];
+    int first_free;
+};
+
 struct ctl *ctl_new(void);
 void ctl_delete(struct ctl *stats);
 
diff --git a/src/pool/pool_scalable.c b/src/pool/pool_scalable.c
index 237ebd5..d1c25d4 100644
--- a/src/pool/pool_scalable.c
+++ b/src/pool/pool_scalable.c
@@ -116,7 +116,9 @@ static const char *tbb_symbol[TBB_POOL_SYMBOLS_MAX] = {
 #endif
 };
 
-struct ctl *pool_scallable_ctl_root;
+// It is initialized once per process, so it must not be allocated from the base
+// allocator, which does not outlive umfTearDown().
+static struct ctl pool_scallable_ctl_root;
 
 static UTIL_ONCE_FLAG ctl_initialized = UTIL_ONCE_FLAG_INIT;
 
@@ -443,8 +445,7 @@ static const umf_ctl_node_t CTL_NODE(params)[] = {CTL_LEAF_RO(tracking_enabled),
                                                   CTL_NODE_END};
 
 static void initialize_pool_ctl(void) {
-    pool_scallable_ctl_root = ctl_new();
-    CTL_REGISTER_MODULE(pool_scallable_ctl_root, params);
+    CTL_REGISTER_MODULE(&pool_scallable_ctl_root, params);
 }
 
 static umf_result_t pool_ctl(void *hPool, int operationType, const char *name,
@@ -452,7 +453,7 @@ static umf_result_t pool_ctl(void *hPool, int operationType, const char *name,
     (void)operationType; // unused
     umf_memory_pool_handle_t pool_provider = (umf_memory_pool_handle_t)hPool;
     utils_init_once(&ctl_initialized, initialize_pool_ctl);
-    return ctl_query(pool_scallable_ctl_root, pool_provider,
+    return ctl_query(&pool_scallable_ctl_root, pool_provider,
                      CTL_QUERY_PROGRAMMATIC, name, query_type, arg);
 }
 
diff --git a/src/provider/provider_os_memory.c b/src/provider/provider_os_memory.c
index 9c1ab57..1b87e30 100644
--- a/src/provider/provider_os_memory.c
+++ b/src/provider/provider_os_memory.c
@@ -171,7 +171,9 @@ static const char *Native_error_str[] = {
         "HWLOC topology discovery failed",
 };
 
-struct ctl *os_memory_ctl_root;
+// It is initialized once per process, so it must not be allocated from the base
+// allocator, which does not outlive umfTearDown().
+static struct ctl os_memory_ctl_root;
 
 static UTIL_ONCE_FLAG ctl_initialized = UTIL_ONCE_FLAG_INIT;
 
@@ -258,9 +260,8 @@ static const umf_ctl_node_t CTL_NODE(params)[] = {CTL_LEAF_RO(ipc_enabled),
                                                   CTL_NODE_END};
 
 static void initialize_os_ctl(void) {
-    os_memory_ctl_root = ctl_new();
-    CTL_REGISTER_MODULE(os_memory_ctl_root, params);
-    CTL_REGISTER_MODULE(os_memory_ctl_root, stats);
+    CTL_REGISTER_MODULE(&os_memory_ctl_root, params);
+    CTL_REGISTER_MODULE(&os_memory_ctl_root, stats);
 }
 
 static void os_store_last_native_error(int32_t native_error, int errno_value) {
@@ -1586,7 +1587,7 @@ static umf_result_t os_ctl(void *hProvider, int operationType, const char *name,
     (void)operationType; // unused
     os_memory_provider_t *os_provider = (os_memory_provider_t *)hProvider;
     utils_init_once(&ctl_initialized, initialize_os_ctl);
-    return ctl_query(os_memory_ctl_root, os_provider, CTL_QUERY_PROGRAMMATIC,
+    return ctl_query(&os_memory_ctl_root, os_provider, CTL_QUERY_PROGRAMMATIC,
                      name, query_type, arg);
 }
 
-- 
2.43.0


From 1d60e231f8bef52258090bde09e74b9d1ed56c8f Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 06:15:56 +0000
Subject: [PATCH 59/62] fix: utils_parse_var: look for the option beyond its
 first occurrence

---
 src/utils/utils_common.c | 46 +++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/utils/utils_common.c b/src/utils/utils_common.c
index 225c02d..1862abf 100644
--- a/src/utils/utils_common.c
+++ b/src/utils/utils_common.c
@@ -59,33 +59,35 @@ char *utils_env_var_get_str(const char *envvar, const char *str) {
 
 const char *utils_parse_var(const char *var, const char *option,
                             const char **extraArg) {
-    const char *found = strstr(var, option);
-    // ensure that found string is first on list or it's a separating semicolon
-    if (!found) {
-        return NULL;
-    }
-    // if found string is not at the beginning of var ensure it's preceded by ';'
-    if (found != var && *(found - 1) != ';') {
-        return NULL;
-    }
+    // the option may also occur inside of other options or of their arguments,
+    // so all its occurrences have to be checked
+    for (const char *found = strstr(var, option); found;
+         found = strstr(found + 1, option)) {
+        // if found string is not at the beginning of var ensure it's preceded by ';'
+        if (found != var && *(found - 1) != ';') {
+            continue;
+        }
 
-    const char *endFound = found + strlen(option);
-    if (!extraArg) {
-        // if there is no argument, matched string should end with ';' or '\0'
-        if (*endFound != '\0' && *endFound != ';') {
-            return NULL;
+        const char *endFound = found + strlen(option);
+        if (!extraArg) {
+            // if there is no argument, matched string should end with ';' or '\0'
+            if (*endFound != '\0' && *endFound != ';') {
+                continue;
+            }
+            return found;
         }
-        return found;
-    }
 
-    // check if matched string ends with ','
-    if (*endFound != ',') {
-        return NULL;
-    }
+        // check if matched string ends with ','
+        if (*endFound != ',') {
+            continue;
+        }
+
+        *extraArg = endFound + 1;
 
-    *extraArg = endFound + 1;
+        return found;
+    }
 
-    return found;
+    return NULL;
 }
 
 int utils_copy_path(const char *in_path, char out_path[], size_t path_max) {
-- 
2.43.0


From 2b5dfb1d99ec2b8adef7daeaa793c2e358597e37 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 06:17:48 +0000
Subject: [PATCH 60/62] fix: log: do not change errno

---
 src/utils/utils_log.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils/utils_log.c b/src/utils/utils_log.c
index 2fd28fc..17904dd 100644
--- a/src/utils/utils_log.c
+++ b/src/utils/utils_log.c
@@ -106,6 +106,9 @@ static void utils_log_internal(utils_log_level_t level, int perror,
         return;
     }
 
+    // the callers use errno after logging an error
+    int saved_errno = errno;
+
     int pid = utils_getpid();
     int tid = utils_gettid();
 
@@ -220,6 +223,8 @@ static void utils_log_internal(utils_log_level_t level, int perror,
     if (level >= loggerConfig.flushLevel) {
         fflush(out);
     }
+
+    errno = saved_errno;
 }
 
 #if defined(_MSC_VER)
-- 
2.43.0


From 6fabdca08271ad0739283de80b98f6aa5173a5f0 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 07:17:29 +0000
Subject: [PATCH 61/62] fix: topology: do not destroy the topology twice, and
 make it again after a failure

---
 src/topology.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/topology.c b/src/topology.c
index eab7992..eb32c26 100644
--- a/src/topology.c
+++ b/src/topology.c
@@ -18,12 +18,13 @@ static UTIL_ONCE_FLAG topology_initialized = UTIL_ONCE_FLAG_INIT;
 void umfDestroyTopology(void) {
     if (topology) {
         hwloc_topology_destroy(topology);
-
-        // portable version of "topology_initialized = UTIL_ONCE_FLAG_INIT;"
-        static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
-        memcpy(&topology_initialized, &is_initialized,
-               sizeof(topology_initialized));
+        topology = NULL;
     }
+
+    // portable version of "topology_initialized = UTIL_ONCE_FLAG_INIT;"
+    static UTIL_ONCE_FLAG is_initialized = UTIL_ONCE_FLAG_INIT;
+    memcpy(&topology_initialized, &is_initialized,
+           sizeof(topology_initialized));
 }
 
 static void umfCreateTopology(void) {
-- 
2.43.0


From 9d327a4f577e22cc682cb70302b58f9043728289 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 07:32:51 +0000
Subject: [PATCH 62/62] fix: ctl: do not read more of a configuration file than
 the buffer holds

---
 src/ctl/ctl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ctl/ctl.c b/src/ctl/ctl.c
index 81146c7..851010e 100644
--- a/src/ctl/ctl.c
+++ b/src/ctl/ctl.c
@@ -543,7 +543,8 @@ int ctl_load_config_from_file(struct ctl *ctl, void *ctx,
         size_t bufpos = 0;
         int c;
         int is_comment_section = 0;
-        while ((c = fgetc(fp)) != EOF) {
+        /* the file may hold more than it did when its size was read */
+        while (bufpos < (size_t)fsize && (c = fgetc(fp)) != EOF) {
             if (c == '#') {
                 is_comment_section = 1;
             } else if (c == '\n') {
-- 
2.43.0

