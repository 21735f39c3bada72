From 287f3998fe9cdd152725ed788260a0599f9696ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:48 +0000
Subject: [PATCH 01/17] fix: unbiased 16-bit bounded random values

-bound was computed as int after promotion, so the rejection threshold was always 0
---
 random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/random.c b/random.c
index 8883531..0ef15d2 100644
--- a/random.c
+++ b/random.c
@@ -90,7 +90,7 @@ u16 get_random_u16_uniform(struct random_state *state, u16 bound) {
     u32 multiresult = random * bound;
     u16 leftover = multiresult;
     if (leftover < bound) {
-        u16 threshold = -bound % bound;
+        u16 threshold = (u16)-bound % bound;
         while (leftover < threshold) {
             random = get_random_u16(state);
             multiresult = random * bound;
-- 
2.43.0


From 1cec6f5ae2dbc856a0ba463ab50eff57645ed036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:48 +0000
Subject: [PATCH 02/17] fix: malloc_object_size on zero size allocations beyond
 the first slab

---
 h_malloc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/h_malloc.c b/h_malloc.c
index 15be0a2..c029fa6 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1801,6 +1801,9 @@ EXPORT size_t h_malloc_object_size(const void *p) {
         struct slab_size_class_info size_class_info = slab_size_class(p);
         size_t class = size_class_info.class;
         size_t size_class = size_classes[class];
+        if (unlikely(size_class == 0)) {
+            size_class = 16;
+        }
         struct size_class *c = &ro.size_class_metadata[size_class_info.arena][class];
 
         mutex_lock(&c->lock);
-- 
2.43.0


From 6bf4ce1f2590da2665bed9e465dd6c71aff6ffce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:48 +0000
Subject: [PATCH 03/17] fix: count over-aligned allocations in the large
 allocation statistics

---
 h_malloc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/h_malloc.c b/h_malloc.c
index c029fa6..92e240e 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1438,6 +1438,7 @@ static int allocate_aligned(unsigned arena, void **memptr, size_t alignment, siz
         deallocate_pages(p, size, guard_size);
         return ENOMEM;
     }
+    stats_large_allocate(ra, size);
     mutex_unlock(&ra->lock);
 
     *memptr = p;
-- 
2.43.0


From 75fe357eca0f46973c9793f31f960f48b9d4df45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:48 +0000
Subject: [PATCH 04/17] fix: set errno when the region table cannot grow
 further

---
 h_malloc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/h_malloc.c b/h_malloc.c
index 92e240e..3d7710a 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1018,6 +1018,7 @@ static int regions_grow(void) {
     struct region_allocator *ra = ro.region_allocator;
 
     if (ra->total > SIZE_MAX / sizeof(struct region_metadata) / 2) {
+        errno = ENOMEM;
         return 1;
     }
 
@@ -1026,6 +1027,7 @@ static int regions_grow(void) {
     size_t mask = newtotal - 1;
 
     if (newtotal > MAX_REGION_TABLE_SIZE) {
+        errno = ENOMEM;
         return 1;
     }
 
-- 
2.43.0


From 70688e86dacb8c616fcb8ff5b393f6ff2bb15a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:48 +0000
Subject: [PATCH 05/17] fix: clear the old region table if it cannot be
 replaced

Stale entries would otherwise be found again once the table is reused by the next growth.
---
 h_malloc.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index 3d7710a..e2a9a4b 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1049,8 +1049,11 @@ static int regions_grow(void) {
         }
     }
 
-    memory_map_fixed(ra->regions, ra->total * sizeof(struct region_metadata));
-    memory_set_name(ra->regions, ra->total * sizeof(struct region_metadata), "malloc allocator_state");
+    if (unlikely(memory_map_fixed(ra->regions, ra->total * sizeof(struct region_metadata)))) {
+        memset(ra->regions, 0, ra->total * sizeof(struct region_metadata));
+    } else {
+        memory_set_name(ra->regions, ra->total * sizeof(struct region_metadata), "malloc allocator_state");
+    }
     ra->free = ra->free + ra->total;
     ra->total = newtotal;
     ra->regions = p;
-- 
2.43.0


From 83c3aed9ebd1b9d25f63d792f9ccb78cbbd97792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:48 +0000
Subject: [PATCH 06/17] fix: do not unmap the released lead again when
 unmapping the trail fails

---
 pages.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pages.c b/pages.c
index 27558de..b97aed3 100644
--- a/pages.c
+++ b/pages.c
@@ -73,7 +73,7 @@ void *allocate_pages_aligned(size_t usable_size, size_t alignment, size_t guard_
 
     if (trail_size) {
         if (unlikely(memory_unmap((char *)base + usable_size + guard_size, trail_size))) {
-            memory_unmap(real, real_alloc_size);
+            memory_unmap((char *)real + lead_size, real_alloc_size - lead_size);
             return NULL;
         }
     }
-- 
2.43.0


From 3499cfc2356e290528666b0928e40617b93441a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:48 +0000
Subject: [PATCH 07/17] fix: reject sizes above the largest slab size class in
 sized deallocation

A huge size overflowed to size class 0 and was accepted for a zero size allocation.
---
 h_malloc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/h_malloc.c b/h_malloc.c
index e2a9a4b..7f256b3 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1713,6 +1713,9 @@ EXPORT void h_free_sized(void *p, size_t expected_size) {
     expected_size = adjust_size_for_canary(expected_size);
 
     if (p < get_slab_region_end() && p >= ro.slab_region_start) {
+        if (unlikely(expected_size > max_slab_size_class)) {
+            fatal_error("sized deallocation mismatch (small)");
+        }
         thread_unseal_metadata();
         expected_size = get_size_info(expected_size).size;
         deallocate_small(p, &expected_size);
-- 
2.43.0


From f79d46bb2392217f45ae449346e13ef0d9ad5e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:48 +0000
Subject: [PATCH 08/17] fix: realloc of small over-aligned allocations

Whether the old allocation is a slab allocation has to be decided by its address: over-aligned
allocations use the region allocator regardless of their size.
---
 h_malloc.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index 7f256b3..1e32a78 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1526,7 +1526,8 @@ EXPORT void *h_realloc(void *old, size_t size) {
     old = untag_pointer(old);
 
     size_t old_size;
-    if (old < get_slab_region_end() && old >= ro.slab_region_start) {
+    bool old_is_small = old < get_slab_region_end() && old >= ro.slab_region_start;
+    if (old_is_small) {
         old_size = slab_usable_size(old);
         if (size <= max_slab_size_class && get_size_info(size).size == old_size) {
             return old_orig;
@@ -1638,12 +1639,10 @@ EXPORT void *h_realloc(void *old, size_t size) {
         thread_seal_metadata();
         return NULL;
     }
-    size_t copy_size = min(size, old_size);
-    if (copy_size > 0 && copy_size <= max_slab_size_class) {
-        copy_size -= canary_size;
-    }
-    memcpy(new, old_orig, copy_size);
-    if (old_size <= max_slab_size_class) {
+    size_t old_usable_size = old_is_small && old_size > 0 ? old_size - canary_size : old_size;
+    size_t new_usable_size = size > 0 && size <= max_slab_size_class ? size - canary_size : size;
+    memcpy(new, old_orig, min(old_usable_size, new_usable_size));
+    if (old_is_small) {
         deallocate_small(old, NULL);
     } else {
         deallocate_large(old, NULL);
-- 
2.43.0


From 1c3964640bc9aefc2c476405e3bb1bd7f5d479a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:48 +0000
Subject: [PATCH 09/17] fix: sized deallocation of aligned allocations

Aligned slab allocations can use a larger size class than the one for the requested size alone, so
the alignment is needed to check the size.
---
 h_malloc.c         | 16 ++++++++++++++--
 include/h_malloc.h |  4 ++++
 new.cc             |  8 ++++----
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index 1e32a78..827773d 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1702,7 +1702,7 @@ EXPORT void h_free(void *p) {
 EXPORT void h_cfree(void *ptr) ALIAS(h_free);
 #endif
 
-EXPORT void h_free_sized(void *p, size_t expected_size) {
+static inline void deallocate_sized(void *p, size_t alignment, size_t expected_size) {
     if (p == NULL) {
         return;
     }
@@ -1716,7 +1716,11 @@ EXPORT void h_free_sized(void *p, size_t expected_size) {
             fatal_error("sized deallocation mismatch (small)");
         }
         thread_unseal_metadata();
-        expected_size = get_size_info(expected_size).size;
+        if (alignment > min_align && alignment <= PAGE_SIZE) {
+            expected_size = get_size_info_align(expected_size, alignment).size;
+        } else {
+            expected_size = get_size_info(expected_size).size;
+        }
         deallocate_small(p, &expected_size);
         thread_seal_metadata();
         return;
@@ -1727,6 +1731,14 @@ EXPORT void h_free_sized(void *p, size_t expected_size) {
     thread_seal_metadata();
 }
 
+EXPORT void h_free_sized(void *p, size_t expected_size) {
+    deallocate_sized(p, min_align, expected_size);
+}
+
+EXPORT void h_free_aligned_sized(void *p, size_t alignment, size_t expected_size) {
+    deallocate_sized(p, alignment, expected_size);
+}
+
 static inline void memory_corruption_check_small(const void *p) {
     struct slab_size_class_info size_class_info = slab_size_class(p);
     size_t class = size_class_info.class;
diff --git a/include/h_malloc.h b/include/h_malloc.h
index 0eee395..4d8f5fa 100644
--- a/include/h_malloc.h
+++ b/include/h_malloc.h
@@ -45,6 +45,7 @@ extern "C" {
 #define h_malloc_object_size malloc_object_size
 #define h_malloc_object_size_fast malloc_object_size_fast
 #define h_free_sized free_sized
+#define h_free_aligned_sized free_aligned_sized
 #endif
 
 // C standard
@@ -122,6 +123,9 @@ size_t h_malloc_object_size_fast(const void *ptr);
 // passed size matches the allocated size.
 void h_free_sized(void *ptr, size_t expected_size);
 
+// Variant of h_free_sized for allocations made with an explicit alignment.
+void h_free_aligned_sized(void *ptr, size_t alignment, size_t expected_size);
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/new.cc b/new.cc
index 165e19e..4f80ab7 100644
--- a/new.cc
+++ b/new.cc
@@ -144,10 +144,10 @@ EXPORT void operator delete[](void *ptr, std::align_val_t, const std::nothrow_t
     h_free(ptr);
 }
 
-EXPORT void operator delete(void *ptr, size_t size, std::align_val_t) noexcept {
-    h_free_sized(ptr, size);
+EXPORT void operator delete(void *ptr, size_t size, std::align_val_t alignment) noexcept {
+    h_free_aligned_sized(ptr, static_cast<size_t>(alignment), size);
 }
 
-EXPORT void operator delete[](void *ptr, size_t size, std::align_val_t) noexcept {
-    h_free_sized(ptr, size);
+EXPORT void operator delete[](void *ptr, size_t size, std::align_val_t alignment) noexcept {
+    h_free_aligned_sized(ptr, static_cast<size_t>(alignment), size);
 }
-- 
2.43.0


From ca7a496b5a36288bffa1496994c58f4beeb318e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:48 +0000
Subject: [PATCH 10/17] fix: support a free slabs quarantine length of 0

The configuration is permitted but wrote past the end of the empty array.
---
 h_malloc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/h_malloc.c b/h_malloc.c
index 827773d..2b7d3e0 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -750,14 +750,18 @@ static size_t slab_usable_size(const void *p) {
 static void enqueue_free_slab(struct size_class *c, struct slab_metadata *metadata) {
     metadata->next = NULL;
 
+    struct slab_metadata *substitute = metadata;
+
+#if FREE_SLABS_QUARANTINE_RANDOM_LENGTH > 0
     static_assert(FREE_SLABS_QUARANTINE_RANDOM_LENGTH < (u16)-1, "free slabs quarantine too large");
     size_t index = get_random_u16_uniform(&c->rng, FREE_SLABS_QUARANTINE_RANDOM_LENGTH);
-    struct slab_metadata *substitute = c->free_slabs_quarantine[index];
+    substitute = c->free_slabs_quarantine[index];
     c->free_slabs_quarantine[index] = metadata;
 
     if (substitute == NULL) {
         return;
     }
+#endif
 
     if (c->free_slabs_tail != NULL) {
         c->free_slabs_tail->next = substitute;
-- 
2.43.0


From 09dea530a7d7a578ecf743fe846a1c4eb3159bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:48 +0000
Subject: [PATCH 11/17] fix: large random slab quarantine lengths

The length scaled to the smallest size classes does not fit u16 for lengths permitted by the
configuration, which reduced it to 0 (a fixed position).
---
 h_malloc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/h_malloc.c b/h_malloc.c
index 2b7d3e0..026d909 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -833,7 +833,9 @@ static inline void deallocate_small(void *p, const size_t *expected_size) {
 #if SLAB_QUARANTINE_RANDOM_LENGTH > 0
     size_t slab_quarantine_random_length = SLAB_QUARANTINE_RANDOM_LENGTH << quarantine_shift;
 
-    size_t random_index = get_random_u16_uniform(&c->rng, slab_quarantine_random_length);
+    size_t random_index = slab_quarantine_random_length <= (u16)-1 ?
+        get_random_u16_uniform(&c->rng, slab_quarantine_random_length) :
+        get_random_u64_uniform(&c->rng, slab_quarantine_random_length);
     void *random_substitute = c->quarantine_random[random_index];
     c->quarantine_random[random_index] = p;
 
-- 
2.43.0


From fd2604e0050aded5d6e0f5341e177733d265eccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:48 +0000
Subject: [PATCH 12/17] fix: preserve errno when labelling a released slab
 fails in free

---
 h_malloc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/h_malloc.c b/h_malloc.c
index 026d909..2dbd430 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -901,6 +901,7 @@ static inline void deallocate_small(void *p, const size_t *expected_size) {
                 stats_slab_deallocate(c, slab_size);
                 enqueue_free_slab(c, metadata);
                 mutex_unlock(&c->lock);
+                errno = saved_errno;
                 return;
             }
             memory_purge(slab, slab_size);
-- 
2.43.0


From e16a4006733f94dfcfd790d7193152a8272c3716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:48 +0000
Subject: [PATCH 13/17] fix: accept tagged pointers in malloc_object_size

---
 h_malloc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/h_malloc.c b/h_malloc.c
index 2dbd430..dc5e4f5 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1821,6 +1821,8 @@ EXPORT size_t h_malloc_object_size(const void *p) {
         return 0;
     }
 
+    p = untag_const_pointer(p);
+
     const void *slab_region_end = get_slab_region_end();
     if (p < slab_region_end && p >= ro.slab_region_start) {
         thread_unseal_metadata();
@@ -1881,6 +1883,8 @@ EXPORT size_t h_malloc_object_size_fast(const void *p) {
         return 0;
     }
 
+    p = untag_const_pointer(p);
+
     const void *slab_region_end = get_slab_region_end();
     if (p < slab_region_end && p >= ro.slab_region_start) {
         size_t size = slab_usable_size(p);
-- 
2.43.0


From a9ffe26dc5d16a9c7704d709261b665c2c8c3e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:25 +0000
Subject: [PATCH 14/17] fix: upper bound from malloc_object_size_fast before
 initialization

---
 h_malloc.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index dc5e4f5..eb861bb 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1891,10 +1891,6 @@ EXPORT size_t h_malloc_object_size_fast(const void *p) {
         return size ? size - canary_size : 0;
     }
 
-    if (unlikely(slab_region_end == NULL)) {
-        return 0;
-    }
-
     return SIZE_MAX;
 }
 
-- 
2.43.0


From fa5a0d14ac4b286a3930d637818bab7c0b4cdf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:23 +0000
Subject: [PATCH 15/17] fix: seal metadata while h_malloc_info writes to the
 stream

---
 h_malloc.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index eb861bb..1deedf6 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -2037,20 +2037,21 @@ EXPORT int h_malloc_info(int options, FILE *fp) {
 
 #if CONFIG_STATS
     if (likely(is_init())) {
-        thread_unseal_metadata();
-
         for (unsigned arena = 0; arena < N_ARENA; arena++) {
             fprintf(fp, "<heap nr=\"%u\">", arena);
 
             for (unsigned class = 0; class < N_SIZE_CLASSES; class++) {
                 struct size_class *c = &ro.size_class_metadata[arena][class];
 
+                // stdio may allocate or call back into the program, so it is only used while sealed
+                thread_unseal_metadata();
                 mutex_lock(&c->lock);
                 u64 nmalloc = c->nmalloc;
                 u64 ndalloc = c->ndalloc;
                 size_t slab_allocated = c->slab_allocated;
                 size_t allocated = c->allocated;
                 mutex_unlock(&c->lock);
+                thread_seal_metadata();
 
                 if (nmalloc || ndalloc || slab_allocated || allocated) {
                     fprintf(fp, "<bin nr=\"%u\" size=\"%" PRIu32 "\">"
@@ -2067,15 +2068,15 @@ EXPORT int h_malloc_info(int options, FILE *fp) {
         }
 
         struct region_allocator *ra = ro.region_allocator;
+        thread_unseal_metadata();
         mutex_lock(&ra->lock);
         size_t region_allocated = ra->allocated;
         mutex_unlock(&ra->lock);
+        thread_seal_metadata();
 
         fprintf(fp, "<heap nr=\"%u\">"
                 "<allocated_large>%zu</allocated_large>"
                 "</heap>", N_ARENA, region_allocated);
-
-        thread_seal_metadata();
     }
 #endif
 
-- 
2.43.0


From 13b82f13f3b36e543a3e61749060ab86ec216c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:23 +0000
Subject: [PATCH 16/17] fix: unseal and seal order in mallinfo_bin_info

---
 h_malloc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index 1deedf6..bec0eaf 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -2152,7 +2152,7 @@ EXPORT struct mallinfo h_mallinfo_bin_info(UNUSED size_t arena, UNUSED size_t bi
     }
 
     if (arena < N_ARENA && bin < N_SIZE_CLASSES) {
-        thread_seal_metadata();
+        thread_unseal_metadata();
 
         struct size_class *c = &ro.size_class_metadata[arena][bin];
 
@@ -2162,7 +2162,7 @@ EXPORT struct mallinfo h_mallinfo_bin_info(UNUSED size_t arena, UNUSED size_t bi
         info.fordblks = c->ndalloc;
         mutex_unlock(&c->lock);
 
-        thread_unseal_metadata();
+        thread_seal_metadata();
     }
 #endif
 
-- 
2.43.0


From 66e6bb0d5ea4dd61fed4f661137a82fd2b00fe0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:07 +0000
Subject: [PATCH 17/17] fix: keep PROT_MTE on slabs which are remapped

A recycled slab was a mapping without PROT_MTE, so blocks in it were neither
tagged on allocation nor retagged on free.
---
 h_malloc.c | 15 +++++++++++++--
 memory.c   | 11 +++++++++++
 memory.h   |  3 +++
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index bec0eaf..57befea 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -771,6 +771,17 @@ static void enqueue_free_slab(struct size_class *c, struct slab_metadata *metada
     c->free_slabs_tail = substitute;
 }
 
+// replace a slab with a fresh inaccessible mapping, which has to keep PROT_MTE for when the slab is
+// used again
+static bool memory_map_fixed_slab(void *slab, size_t slab_size) {
+#ifdef HAS_ARM_MTE
+    if (likely(is_memtag_enabled())) {
+        return memory_map_fixed_mte(slab, slab_size);
+    }
+#endif
+    return memory_map_fixed(slab, slab_size);
+}
+
 // preserves errno
 static inline void deallocate_small(void *p, const size_t *expected_size) {
     struct slab_size_class_info size_class_info = slab_size_class(p);
@@ -896,7 +907,7 @@ static inline void deallocate_small(void *p, const size_t *expected_size) {
 
         if (c->empty_slabs_total + slab_size > max_empty_slabs_total) {
             int saved_errno = errno;
-            if (!memory_map_fixed(slab, slab_size)) {
+            if (!memory_map_fixed_slab(slab, slab_size)) {
                 label_slab(slab, slab_size, class);
                 stats_slab_deallocate(c, slab_size);
                 enqueue_free_slab(c, metadata);
@@ -1925,7 +1936,7 @@ EXPORT int h_malloc_trim(UNUSED size_t pad) {
             struct slab_metadata *iterator = c->empty_slabs;
             while (iterator) {
                 void *slab = get_slab(c, slab_size, iterator);
-                if (memory_map_fixed(slab, slab_size)) {
+                if (memory_map_fixed_slab(slab, slab_size)) {
                     break;
                 }
                 label_slab(slab, slab_size, class);
diff --git a/memory.c b/memory.c
index 5434060..2925e86 100644
--- a/memory.c
+++ b/memory.c
@@ -51,6 +51,17 @@ bool memory_map_fixed(void *ptr, size_t size) {
     return ret;
 }
 
+#ifdef HAS_ARM_MTE
+bool memory_map_fixed_mte(void *ptr, size_t size) {
+    void *p = mmap(ptr, size, PROT_MTE, MAP_ANONYMOUS|MAP_PRIVATE|MAP_FIXED, -1, 0);
+    bool ret = p == MAP_FAILED;
+    if (unlikely(ret) && errno != ENOMEM) {
+        fatal_error("non-ENOMEM MTE MAP_FIXED mmap failure");
+    }
+    return ret;
+}
+#endif
+
 bool memory_unmap(void *ptr, size_t size) {
     bool ret = munmap(ptr, size);
     if (unlikely(ret) && errno != ENOMEM) {
diff --git a/memory.h b/memory.h
index 6e4cd4d..d5e336b 100644
--- a/memory.h
+++ b/memory.h
@@ -15,6 +15,9 @@ void *memory_map(size_t size);
 void *memory_map_mte(size_t size);
 #endif
 bool memory_map_fixed(void *ptr, size_t size);
+#ifdef HAS_ARM_MTE
+bool memory_map_fixed_mte(void *ptr, size_t size);
+#endif
 bool memory_unmap(void *ptr, size_t size);
 bool memory_protect_ro(void *ptr, size_t size);
 bool memory_protect_rw(void *ptr, size_t size);
-- 
2.43.0

