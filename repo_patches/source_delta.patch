From cf5451e39d92bf83c60c9c24222a457a24683aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:25 +0000
Subject: [PATCH 01/14] fix: roaring_bitmap_rank_many leaves ranks past the
 last container unset

---
 src/roaring.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/roaring.c b/src/roaring.c
index 2363afa..57a3587 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -2628,6 +2628,11 @@ void roaring_bitmap_rank_many(const roaring_bitmap_t *bm, const uint32_t *begin,
             iter++;
         }
     }
+    // values beyond the last container
+    while (iter != end) {
+        *(ans++) = size;
+        iter++;
+    }
 }
 
 /**
-- 
2.43.0


From 2453bf512e3e181c4353952fe95253543fc93421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:25 +0000
Subject: [PATCH 02/14] fix: roaring_bitmap_remove_many double-frees shared
 (copy-on-write) containers

---
 src/roaring.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/roaring.c b/src/roaring.c
index 57a3587..6876d38 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -675,6 +675,8 @@ void roaring_bitmap_remove_many(roaring_bitmap_t *r, size_t n_args,
         if (pos >= 0) {
             uint8_t new_typecode;
             container_t *new_container;
+            ra_unshare_container_at_index(&r->high_low_container,
+                                          (uint16_t)pos);
             new_container = container_remove(
                 r->high_low_container.containers[pos], vals[i] & 0xffff,
                 r->high_low_container.typecodes[pos], &new_typecode);
-- 
2.43.0


From eff3151b619f48b0562d44b6a84e960d99038d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:25 +0000
Subject: [PATCH 03/14] fix: roaring_bitmap_range_uint32_array overwrites the
 typecode of shared containers

---
 src/roaring_array.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/roaring_array.c b/src/roaring_array.c
index e3bc6ce..6e0c32e 100644
--- a/src/roaring_array.c
+++ b/src/roaring_array.c
@@ -447,9 +447,10 @@ bool ra_range_uint32_array(const roaring_array_t *ra, size_t offset,
     size_t cur_len = 0;
 
     for (int i = 0; i < ra->size; ++i) {
+        uint8_t typecode = ra->typecodes[i];
         const container_t *c =
-            container_unwrap_shared(ra->containers[i], &ra->typecodes[i]);
-        switch (ra->typecodes[i]) {
+            container_unwrap_shared(ra->containers[i], &typecode);
+        switch (typecode) {
             case BITSET_CONTAINER_TYPE:
                 t_limit = (const_CAST_bitset(c))->cardinality;
                 break;
@@ -487,20 +488,20 @@ bool ra_range_uint32_array(const roaring_array_t *ra, size_t offset,
                 roaring_free(t_ans);
                 t_ans = append_ans;
             }
-            switch (ra->typecodes[i]) {
+            switch (typecode) {
                 case BITSET_CONTAINER_TYPE:
                     container_to_uint32_array(t_ans + dtr, const_CAST_bitset(c),
-                                              ra->typecodes[i],
+                                              typecode,
                                               ((uint32_t)ra->keys[i]) << 16);
                     break;
                 case ARRAY_CONTAINER_TYPE:
                     container_to_uint32_array(t_ans + dtr, const_CAST_array(c),
-                                              ra->typecodes[i],
+                                              typecode,
                                               ((uint32_t)ra->keys[i]) << 16);
                     break;
                 case RUN_CONTAINER_TYPE:
                     container_to_uint32_array(t_ans + dtr, const_CAST_run(c),
-                                              ra->typecodes[i],
+                                              typecode,
                                               ((uint32_t)ra->keys[i]) << 16);
                     break;
             }
-- 
2.43.0


From c4eed6a23a8da157bb13f2f31c88ccba4b65f453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:33 +0000
Subject: [PATCH 04/14] fix: frozen serialization does not handle shared
 (copy-on-write) containers

---
 src/roaring.c | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/roaring.c b/src/roaring.c
index 6876d38..29b92c2 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -2952,19 +2952,21 @@ size_t roaring_bitmap_frozen_size_in_bytes(const roaring_bitmap_t *rb) {
     const roaring_array_t *ra = &rb->high_low_container;
     size_t num_bytes = 0;
     for (int32_t i = 0; i < ra->size; i++) {
-        switch (ra->typecodes[i]) {
+        uint8_t typecode = ra->typecodes[i];
+        const container_t *c =
+            container_unwrap_shared(ra->containers[i], &typecode);
+        switch (typecode) {
             case BITSET_CONTAINER_TYPE: {
                 num_bytes += BITSET_CONTAINER_SIZE_IN_WORDS * sizeof(uint64_t);
                 break;
             }
             case RUN_CONTAINER_TYPE: {
-                const run_container_t *rc = const_CAST_run(ra->containers[i]);
+                const run_container_t *rc = const_CAST_run(c);
                 num_bytes += rc->n_runs * sizeof(rle16_t);
                 break;
             }
             case ARRAY_CONTAINER_TYPE: {
-                const array_container_t *ac =
-                    const_CAST_array(ra->containers[i]);
+                const array_container_t *ac = const_CAST_array(c);
                 num_bytes += ac->cardinality * sizeof(uint16_t);
                 break;
             }
@@ -2995,20 +2997,22 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
     size_t run_zone_size = 0;
     size_t array_zone_size = 0;
     for (int32_t i = 0; i < ra->size; i++) {
-        switch (ra->typecodes[i]) {
+        uint8_t typecode = ra->typecodes[i];
+        const container_t *c =
+            container_unwrap_shared(ra->containers[i], &typecode);
+        switch (typecode) {
             case BITSET_CONTAINER_TYPE: {
                 bitset_zone_size +=
                     BITSET_CONTAINER_SIZE_IN_WORDS * sizeof(uint64_t);
                 break;
             }
             case RUN_CONTAINER_TYPE: {
-                const run_container_t *rc = const_CAST_run(ra->containers[i]);
+                const run_container_t *rc = const_CAST_run(c);
                 run_zone_size += rc->n_runs * sizeof(rle16_t);
                 break;
             }
             case ARRAY_CONTAINER_TYPE: {
-                const array_container_t *ac =
-                    const_CAST_array(ra->containers[i]);
+                const array_container_t *ac = const_CAST_array(c);
                 array_zone_size += ac->cardinality * sizeof(uint16_t);
                 break;
             }
@@ -3027,10 +3031,12 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
 
     for (int32_t i = 0; i < ra->size; i++) {
         uint16_t count;
-        switch (ra->typecodes[i]) {
+        uint8_t typecode = ra->typecodes[i];
+        const container_t *c =
+            container_unwrap_shared(ra->containers[i], &typecode);
+        switch (typecode) {
             case BITSET_CONTAINER_TYPE: {
-                const bitset_container_t *bc =
-                    const_CAST_bitset(ra->containers[i]);
+                const bitset_container_t *bc = const_CAST_bitset(c);
                 memcpy(bitset_zone, bc->words,
                        BITSET_CONTAINER_SIZE_IN_WORDS * sizeof(uint64_t));
                 bitset_zone += BITSET_CONTAINER_SIZE_IN_WORDS;
@@ -3044,7 +3050,7 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
                 break;
             }
             case RUN_CONTAINER_TYPE: {
-                const run_container_t *rc = const_CAST_run(ra->containers[i]);
+                const run_container_t *rc = const_CAST_run(c);
                 size_t num_bytes = rc->n_runs * sizeof(rle16_t);
                 memcpy(run_zone, rc->runs, num_bytes);
                 run_zone += rc->n_runs;
@@ -3052,8 +3058,7 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
                 break;
             }
             case ARRAY_CONTAINER_TYPE: {
-                const array_container_t *ac =
-                    const_CAST_array(ra->containers[i]);
+                const array_container_t *ac = const_CAST_array(c);
                 size_t num_bytes = ac->cardinality * sizeof(uint16_t);
                 memcpy(array_zone, ac->array, num_bytes);
                 array_zone += ac->cardinality;
@@ -3064,9 +3069,9 @@ void roaring_bitmap_frozen_serialize(const roaring_bitmap_t *rb, char *buf) {
                 roaring_unreachable;
         }
         memcpy(&count_zone[i], &count, 2);
+        memcpy(&typecode_zone[i], &typecode, 1);
     }
     memcpy(key_zone, ra->keys, ra->size * sizeof(uint16_t));
-    memcpy(typecode_zone, ra->typecodes, ra->size * sizeof(uint8_t));
     uint32_t header = ((uint32_t)ra->size << 15) | FROZEN_COOKIE;
     memcpy(header_zone, &header, 4);
 }
-- 
2.43.0


From b78a641049f34fef52a127941f752672aa25c42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 05/14] fix: roaring_bitmap_from_range does not terminate when
 min + k * step passes 2^32

---
 src/roaring.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/roaring.c b/src/roaring.c
index 29b92c2..bdd9c5c 100644
--- a/src/roaring.c
+++ b/src/roaring.c
@@ -224,8 +224,8 @@ roaring_bitmap_t *roaring_bitmap_from_range(uint64_t min, uint64_t max,
     if (max <= min) return NULL;
     roaring_bitmap_t *answer = roaring_bitmap_create();
     if (step >= (1 << 16)) {
-        for (uint32_t value = (uint32_t)min; value < max; value += step) {
-            roaring_bitmap_add(answer, value);
+        for (uint64_t value = min; value < max; value += step) {
+            roaring_bitmap_add(answer, (uint32_t)value);
         }
         return answer;
     }
-- 
2.43.0


From ef261e31409ea591088482ca9a7b9994cd31fc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:34 +0000
Subject: [PATCH 06/14] fix: roaring64_bitmap_remove_bulk keeps using a leaf it
 erased

---
 src/roaring64.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/roaring64.c b/src/roaring64.c
index de1009e..cc3bc6c 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -755,12 +755,16 @@ void roaring64_bitmap_remove_bulk(roaring64_bitmap_t *r,
             bool erased = art_erase(art, high48, (art_val_t *)&leaf);
             assert(erased);
             remove_container(r, leaf);
+            context->leaf = NULL;
         }
     } else {
         // We're not positioned anywhere yet or the high bits of the key
         // differ.
         leaf_t *leaf = (leaf_t *)art_find(art, high48);
-        containerptr_roaring64_bitmap_remove(r, high48, low16, leaf);
+        if (containerptr_roaring64_bitmap_remove(r, high48, low16, leaf)) {
+            // The leaf was erased along with its last value.
+            leaf = NULL;
+        }
         context->leaf = leaf;
         memcpy(context->high_bytes, high48, ART_KEY_BYTES);
     }
-- 
2.43.0


From 81bc81011866b11cb04108c7a00f9b65c10e3130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:34 +0000
Subject: [PATCH 07/14] fix: roaring64_iterator_read does not record that it
 ran past the last value

---
 src/roaring64.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/roaring64.c b/src/roaring64.c
index cc3bc6c..0161a1e 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -2703,6 +2703,8 @@ uint64_t roaring64_iterator_read(roaring64_iterator_t *it, uint64_t *buf,
         it->has_value = art_iterator_next(&it->art_it);
         if (it->has_value) {
             roaring64_iterator_init_at_leaf_first(it);
+        } else {
+            it->saturated_forward = true;
         }
     }
     return consumed;
-- 
2.43.0


From 01b25181464fa290e7b9ba76b26190d922cda6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:34 +0000
Subject: [PATCH 08/14] fix: bitset_shift_left/right access out of bounds when
 shifting an empty bitset or past its end

---
 src/bitset.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bitset.c b/src/bitset.c
index 96fee90..0524b7d 100644
--- a/src/bitset.c
+++ b/src/bitset.c
@@ -90,6 +90,9 @@ void bitset_shift_left(bitset_t *bitset, size_t s) {
     size_t extra_words = s / 64;
     int inword_shift = s % 64;
     size_t as = bitset->arraysize;
+    if (as == 0) {
+        return;
+    }
     if (inword_shift == 0) {
         bitset_resize(bitset, as + extra_words, false);
         // could be done with a memmove
@@ -116,6 +119,11 @@ void bitset_shift_right(bitset_t *bitset, size_t s) {
     size_t extra_words = s / 64;
     int inword_shift = s % 64;
     size_t as = bitset->arraysize;
+    if (extra_words >= as) {
+        // all values are deleted
+        bitset_resize(bitset, 0, false);
+        return;
+    }
     if (inword_shift == 0) {
         // could be done with a memmove
         for (size_t i = 0; i < as - extra_words; i++) {
-- 
2.43.0


From 0cbe6d197a7a7ebb60a601719c50a6b177a25e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 09/14] fix: roaring64_bitmap_contains_range ignores a missing
 last container

---
 src/roaring64.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/roaring64.c b/src/roaring64.c
index 0161a1e..57af58a 100644
--- a/src/roaring64.c
+++ b/src/roaring64.c
@@ -540,9 +540,9 @@ bool roaring64_bitmap_contains_range(const roaring64_bitmap_t *r, uint64_t min,
     while (it.value != NULL) {
         uint64_t current_high48_bits = combine_key(it.key, 0);
         if (current_high48_bits > max_high48_bits) {
-            // We've passed the end of the range with all containers containing
-            // the range.
-            return true;
+            // We've passed the end of the range: all containers found so far
+            // contain it, check below that the last one is not missing.
+            break;
         }
         if (current_high48_bits - prev_high48_bits > 0x10000) {
             // There is a gap in the iterator that falls in the range.
-- 
2.43.0


From 416f35c2460b2bd530c2bf7a5b208948a6e9d1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 10/14] fix: bitset_trim leaves a freed array behind when no
 bit is set

---
 src/bitset.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bitset.c b/src/bitset.c
index 0524b7d..6e1943b 100644
--- a/src/bitset.c
+++ b/src/bitset.c
@@ -481,6 +481,14 @@ bool bitset_trim(bitset_t *bitset) {
             break;
     }
     if (bitset->capacity == newsize) return true;  // nothing to do
+    if (newsize == 0) {
+        // realloc(ptr, 0) may free the array and return NULL
+        roaring_free(bitset->array);
+        bitset->array = NULL;
+        bitset->capacity = 0;
+        bitset->arraysize = 0;
+        return true;
+    }
     uint64_t *newarray;
     if ((newarray = (uint64_t *)roaring_realloc(
              bitset->array, sizeof(uint64_t) * newsize)) == NULL) {
-- 
2.43.0


From f386f4a464bc5c0196ecff50840c6eb62e65d195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:26 +0000
Subject: [PATCH 11/14] fix: Roaring64Map iterator comparison dereferences the
 end iterator

---
 cpp/roaring64map.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/roaring64map.hh b/cpp/roaring64map.hh
index 7de53cb..78aac84 100644
--- a/cpp/roaring64map.hh
+++ b/cpp/roaring64map.hh
@@ -1849,12 +1849,14 @@ class Roaring64MapSetBitBiDirectionalIterator {
 
     bool operator==(const Roaring64MapSetBitBiDirectionalIterator &o) const {
         if (map_iter == p->cend() && o.map_iter == o.p->cend()) return true;
+        if (map_iter == p->cend()) return false;
         if (o.map_iter == o.p->cend()) return false;
         return **this == *o;
     }
 
     bool operator!=(const Roaring64MapSetBitBiDirectionalIterator &o) const {
         if (map_iter == p->cend() && o.map_iter == o.p->cend()) return false;
+        if (map_iter == p->cend()) return true;
         if (o.map_iter == o.p->cend()) return true;
         return **this != *o;
     }
-- 
2.43.0


From d75d7d0fca7c4f7a4a1e427dccba5246cbfb1406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:26 +0000
Subject: [PATCH 12/14] fix: Roaring64Map iterator stops on empty inner bitmaps

---
 cpp/roaring64map.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cpp/roaring64map.hh b/cpp/roaring64map.hh
index 78aac84..45c5653 100644
--- a/cpp/roaring64map.hh
+++ b/cpp/roaring64map.hh
@@ -1804,6 +1804,12 @@ class Roaring64MapSetBitBiDirectionalIterator {
                 if (map_iter == p->cend()) return false;
                 roaring_iterator_init(&map_iter->second.roaring, &i);
             }
+            // skip empty inner bitmaps
+            while (!i.has_value) {
+                ++map_iter;
+                if (map_iter == p->cend()) return false;
+                roaring_iterator_init(&map_iter->second.roaring, &i);
+            }
             return true;
         }
         return false;
@@ -1835,7 +1841,7 @@ class Roaring64MapSetBitBiDirectionalIterator {
         if (map_iter == p->cend()) {
             --map_iter;
             roaring_iterator_init_last(&map_iter->second.roaring, &i);
-            return orig;
+            if (i.has_value) return orig;
         }
 
         roaring_uint32_iterator_previous(&i);
-- 
2.43.0


From 622c87ee6e0a79df4fc6e290a6f6e75200c63d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:26 +0000
Subject: [PATCH 13/14] fix: Roaring64Map::read miscomputes the size of a
 non-portable inner bitmap

---
 cpp/roaring64map.hh | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/cpp/roaring64map.hh b/cpp/roaring64map.hh
index 45c5653..9cd882d 100644
--- a/cpp/roaring64map.hh
+++ b/cpp/roaring64map.hh
@@ -1177,7 +1177,20 @@ class Roaring64Map {
             // read map value Roaring
             Roaring read_var = Roaring::read(buf, portable);
             // forward buffer past the last Roaring Bitmap
-            buf += read_var.getSizeInBytes(portable);
+            if (portable) {
+                buf += read_var.getSizeInBytes(true);
+            } else if (*buf == 1) {
+                // Array of uint32_t values: a tag byte, their number, then the
+                // values. The bitmap that was written may have been stored
+                // differently, so the size of read_var is not the size of what
+                // was read.
+                uint32_t card;
+                std::memcpy(&card, buf + 1, sizeof(uint32_t));
+                buf += 1 + sizeof(uint32_t) + card * sizeof(uint32_t);
+            } else {
+                // a tag byte, then the portable format
+                buf += 1 + read_var.getSizeInBytes(true);
+            }
             result.emplaceOrInsert(key, std::move(read_var));
         }
         return result;
-- 
2.43.0


From 19039cb31d69794d414195a785ceb740d98e7620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:44 +0000
Subject: [PATCH 14/14] fix: bitset_container_select wraps at the end of a full
 2^32-value bitmap

---
 src/containers/bitset.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/containers/bitset.c b/src/containers/bitset.c
index b66f880..89d7120 100644
--- a/src/containers/bitset.c
+++ b/src/containers/bitset.c
@@ -1169,7 +1169,7 @@ bool bitset_container_is_subset(const bitset_container_t *container1,
 
 bool bitset_container_select(const bitset_container_t *container, uint32_t *start_rank, uint32_t rank, uint32_t *element) {
     int card = bitset_container_cardinality(container);
-    if(rank >= *start_rank + card) {
+    if(rank - *start_rank >= (uint32_t)card) {
         *start_rank += card;
         return false;
     }
@@ -1177,7 +1177,7 @@ bool bitset_container_select(const bitset_container_t *container, uint32_t *star
     int32_t size;
     for (int i = 0; i < BITSET_CONTAINER_SIZE_IN_WORDS; i += 1) {
         size = roaring_hamming(words[i]);
-        if(rank <= *start_rank + size) {
+        if(rank - *start_rank <= (uint32_t)size) {
             uint64_t w = container->words[i];
             uint16_t base = i*64;
             while (w != 0) {
-- 
2.43.0

