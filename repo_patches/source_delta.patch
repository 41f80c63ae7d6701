From b3f9d43f6b6fafa5b71fbbc4f04a71da9362c3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:40 +0000
Subject: [PATCH 01/23] fix: *_at accessors accept an index equal to the number
 of children

---
 tg.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tg.c b/tg.c
index ca67505..886e664 100644
--- a/tg.c
+++ b/tg.c
@@ -5407,7 +5407,7 @@ int tg_geom_num_geometries(const struct tg_geom *geom) {
 struct tg_point tg_geom_point_at(const struct tg_geom *geom, int index) {
     if (geom && geom->head.base == BASE_GEOM && 
         geom->head.type == TG_MULTIPOINT && 
-        geom->multi &&index >= 0 && index <= geom->multi->ngeoms)
+        geom->multi &&index >= 0 && index < geom->multi->ngeoms)
     {
         return ((struct boxed_point*)geom->multi->geoms[index])->point;
     }
@@ -5424,7 +5424,7 @@ struct tg_point tg_geom_point_at(const struct tg_geom *geom, int index) {
 const struct tg_line *tg_geom_line_at(const struct tg_geom *geom, int index) {
     if (geom && geom->head.base == BASE_GEOM && 
         geom->head.type == TG_MULTILINESTRING && 
-        geom->multi &&index >= 0 && index <= geom->multi->ngeoms)
+        geom->multi &&index >= 0 && index < geom->multi->ngeoms)
     {
         return (struct tg_line*)geom->multi->geoms[index];
     }
@@ -5441,7 +5441,7 @@ const struct tg_line *tg_geom_line_at(const struct tg_geom *geom, int index) {
 const struct tg_poly *tg_geom_poly_at(const struct tg_geom *geom, int index) {
     if (geom && geom->head.base == BASE_GEOM && 
         geom->head.type == TG_MULTIPOLYGON && 
-        geom->multi && index >= 0 && index <= geom->multi->ngeoms)
+        geom->multi && index >= 0 && index < geom->multi->ngeoms)
     {
         return (struct tg_poly *)geom->multi->geoms[index];
     }
@@ -5463,7 +5463,7 @@ const struct tg_geom *tg_geom_geometry_at(const struct tg_geom *geom,
 {
     if (geom && geom->head.base == BASE_GEOM && 
         geom->head.type == TG_GEOMETRYCOLLECTION && 
-        geom->multi && index >= 0 && index <= geom->multi->ngeoms)
+        geom->multi && index >= 0 && index < geom->multi->ngeoms)
     {
         return geom->multi->geoms[index];
     }
-- 
2.43.0


From 57abec8a54eb0834f9fa5b6cff038f5dfe780bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 02/23] fix: tg_line_covers_line never returned for some lines
 with repeated points

When the segment of 'a' under the cursor had both neighbours meeting at the
start of the current segment of 'b' without covering it, the cursor stepped
back and forth between the same two segments forever.
---
 tg.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index 886e664..d344831 100644
--- a/tg.c
+++ b/tg.c
@@ -3481,13 +3481,15 @@ bool tg_line_covers_line(const struct tg_line *a, const struct tg_line *b) {
         return false;
     }
     int bnsegs = tg_line_num_segments(b);
+    bool forwarded = false; // already moved forward for the current segment
     for (int i = 1; i < bnsegs && j < ansegs; i++) {
         struct tg_segment aseg = tg_line_segment_at(a, j);
         struct tg_segment bseg = tg_line_segment_at(b, i);
         if (tg_segment_covers_segment(aseg, bseg)) {
+            forwarded = false;
             continue;
         }
-        if (pteq(bseg.a, aseg.a)) {
+        if (!forwarded && pteq(bseg.a, aseg.a)) {
             // reverse it
             if (j == 0) {
                 return false;
@@ -3496,8 +3498,11 @@ bool tg_line_covers_line(const struct tg_line *a, const struct tg_line *b) {
             i--;
         } else if (pteq(bseg.a, aseg.b)) {
             // forward it
+            forwarded = true;
             j++;
             i--;
+        } else if (forwarded) {
+            return false;
         }
     }
     return true;
-- 
2.43.0


From 58b242068df63e2f84e64f9cea8f8078f8ec2ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:15 +0000
Subject: [PATCH 03/23] fix: copying an object no longer reads its reference
 counter

tg_*_copy used memcpy over the whole head, a plain read of the atomic counter
that races with tg_*_clone and tg_*_free on other threads.
---
 tg.c | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/tg.c b/tg.c
index d344831..f0df4af 100644
--- a/tg.c
+++ b/tg.c
@@ -590,6 +590,18 @@ struct head {
     enum flags flags:8;
 };
 
+// Initialize the head of a new object that is a copy of another object.
+// The reference counter of the source is not accessed because it may be
+// changing in another thread.
+static void head_copy(struct head *head, const struct head *src) {
+    rc_init(&head->rc);
+    rc_retain(&head->rc);
+    head->noheap = 0;
+    head->base = src->base;
+    head->type = src->type;
+    head->flags = src->flags;
+}
+
 /// A ring is series of tg_segment which creates a shape that does not
 /// self-intersect and is fully closed, where the start and end points are the
 /// exact same value.
@@ -15068,10 +15080,9 @@ struct tg_ring *tg_ring_copy(const struct tg_ring *ring) {
     if (!ring2) {
         return NULL;
     }
-    memcpy(ring2, ring, size);
-    rc_init(&ring2->head.rc);
-    rc_retain(&ring2->head.rc);
-    ring2->head.noheap = 0;
+    head_copy(&ring2->head, &ring->head);
+    memcpy((char*)ring2+sizeof(struct head), (char*)ring+sizeof(struct head),
+        size-sizeof(struct head));
     if (ring->ystripes) {
         ring2->ystripes = tg_malloc(ring->ystripes->memsz);
         if (!ring2->ystripes) {
@@ -15113,10 +15124,7 @@ struct tg_poly *tg_poly_copy(const struct tg_poly *poly) {
         goto fail;
     }
     memset(poly2, 0, sizeof(struct tg_poly));
-    memcpy(&poly2->head, &poly->head, sizeof(struct head));
-    rc_init(&poly2->head.rc);
-    rc_retain(&poly2->head.rc);
-    poly2->head.noheap = 0;
+    head_copy(&poly2->head, &poly->head);
     poly2->exterior = tg_ring_copy(poly->exterior);
     if (!poly2->exterior) {
         goto fail;
@@ -15147,10 +15155,7 @@ static struct tg_geom *geom_copy(const struct tg_geom *geom) {
         return NULL;
     }
     memset(geom2, 0, sizeof(struct tg_geom));
-    memcpy(&geom2->head, &geom->head, sizeof(struct head));
-    rc_init(&geom2->head.rc);
-    rc_retain(&geom2->head.rc);
-    geom2->head.noheap = 0;
+    head_copy(&geom2->head, &geom->head);
     switch (geom->head.type) {
     case TG_POINT:
         geom2->point.x = geom->point.x;
@@ -15245,10 +15250,8 @@ static struct boxed_point *boxed_point_copy(const struct boxed_point *point) {
     if (!point2) {
         return NULL;
     }
-    memcpy(point2, point, sizeof(struct boxed_point));
-    rc_init(&point2->head.rc);
-    rc_retain(&point2->head.rc);
-    point2->head.noheap = 0;
+    head_copy(&point2->head, &point->head);
+    point2->point = point->point;
     return point2;
 }
 
-- 
2.43.0


From f5f6f430d7c0f90365934aef8477ae4fb6b02896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 04/23] fix: copied objects kept index pointers into the
 original's memory

tg_*_copy duplicated the spatial indexes byte for byte, leaving the copy using
level rectangles and stripe tables that belong to the original and are gone
once the original is freed.
---
 tg.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index f0df4af..afb5c48 100644
--- a/tg.c
+++ b/tg.c
@@ -2152,6 +2152,17 @@ static void fill_index_struct(struct index *index, int nlevels, int nsegs,
     }
 }
 
+// index_copy copies an index, including all levels and rectangles, to a new
+// location that has at least src->memsz bytes available.
+static void index_copy(struct index *dst, const struct index *src) {
+    memcpy(dst, src, src->memsz);
+    // The level rectangles are stored in the same memory as the index.
+    for (int i = 0; i < src->nlevels; i++) {
+        dst->levels[i].rects = (void*)((char*)dst + 
+            ((char*)src->levels[i].rects - (char*)src));
+    }
+}
+
 static struct tg_ring *series_new(const struct tg_point *points, int npoints, 
     bool closed, enum tg_index ix) 
 {
@@ -15083,6 +15094,11 @@ struct tg_ring *tg_ring_copy(const struct tg_ring *ring) {
     head_copy(&ring2->head, &ring->head);
     memcpy((char*)ring2+sizeof(struct head), (char*)ring+sizeof(struct head),
         size-sizeof(struct head));
+    if (ring->index) {
+        ring2->index = (void*)((char*)ring2 + 
+            ((char*)ring->index - (char*)ring));
+        index_copy(ring2->index, ring->index);
+    }
     if (ring->ystripes) {
         ring2->ystripes = tg_malloc(ring->ystripes->memsz);
         if (!ring2->ystripes) {
@@ -15090,6 +15106,13 @@ struct tg_ring *tg_ring_copy(const struct tg_ring *ring) {
             return NULL;
         }
         memcpy(ring2->ystripes, ring->ystripes, ring->ystripes->memsz);
+        // The stripe indexes are stored in the same memory as the stripes.
+        for (int i = 0; i < ring2->ystripes->nstripes; i++) {
+            ring2->ystripes->stripes[i].indexes = (void*)(
+                (char*)ring2->ystripes + 
+                ((char*)ring->ystripes->stripes[i].indexes - 
+                 (char*)ring->ystripes));
+        }
     }
     return ring2;
 }
@@ -15207,8 +15230,7 @@ static struct tg_geom *geom_copy(const struct tg_geom *geom) {
                 if (!geom2->multi->index) {
                     goto fail;
                 }
-                memcpy(geom2->multi->index, geom->multi->index, 
-                    geom->multi->index->memsz);
+                index_copy(geom2->multi->index, geom->multi->index);
             }
             if (geom->multi->ixgeoms) {
                 geom2->multi->ixgeoms = tg_malloc(
-- 
2.43.0


From e20a6aef9ed390e2aff0c698a0f0b3afbcc5f9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 05/23] fix: tg_geom_copy returned NULL for an empty linestring
 or polygon

---
 tg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index afb5c48..f3b7aa3 100644
--- a/tg.c
+++ b/tg.c
@@ -15188,13 +15188,13 @@ static struct tg_geom *geom_copy(const struct tg_geom *geom) {
         break;
     case TG_LINESTRING:
         geom2->line = tg_line_copy(geom->line);
-        if (!geom2->line) {
+        if (geom->line && !geom2->line) {
             goto fail;
         }
         break;
     case TG_POLYGON:
         geom2->poly = tg_poly_copy(geom->poly);
-        if (!geom2->poly) {
+        if (geom->poly && !geom2->poly) {
             goto fail;
         }
         break;
-- 
2.43.0


From 2540b3e29d22ec885eeb5830ccecb121df865cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:00 +0000
Subject: [PATCH 06/23] fix: the number of ystripes is never more than the
 number of segments

Rounding errors could give tiny rings that are far from the origin a
Polsby-Popper score well over 1, leading to a huge or overflowing allocation.
---
 tg.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tg.c b/tg.c
index f3b7aa3..c4dac22 100644
--- a/tg.c
+++ b/tg.c
@@ -1685,6 +1685,11 @@ struct ystripes {
 
 static bool process_ystripes(struct tg_ring *ring) {
     double score = tg_ring_polsby_popper_score(ring);
+    if (!(score <= 1.0)) {
+        // Not possible for a real area and perimeter, but rounding errors and
+        // overflows can push it to any value, including nan.
+        score = score > 1.0 ? 1.0 : 0.0;
+    }
     int nstripes = ring->nsegs * score;
     nstripes = fmax0(nstripes, 32);
     double height = ring->rect.max.y - ring->rect.min.y;
-- 
2.43.0


From ff2258a3e40d035554a963a5a355bbddfb1061f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:16 +0000
Subject: [PATCH 07/23] fix: TG_NOATOMICS reference counting modified the
 pointer, not the counter

Nothing was ever released when built with TG_NOATOMICS.
---
 tg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tg.c b/tg.c
index c4dac22..0ff0b9f 100644
--- a/tg.c
+++ b/tg.c
@@ -549,11 +549,11 @@ static void rc_init(rc_t *rc) {
     *rc = 0;
 }
 static void rc_retain(rc_t *rc) {
-    *rc++;
+    (*rc)++;
 }
 static bool rc_release(rc_t *rc) {
-    *rc--;
-    return *rc == 1;
+    (*rc)--;
+    return *rc == 0;
 }
 
 #else
-- 
2.43.0


From b4cf280a82e3a3cb5e5939f738b36df2ca617c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:19 +0000
Subject: [PATCH 08/23] fix: tg_poly_memsize counted a whole ring struct for
 each hole pointer

---
 tg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index 0ff0b9f..aaeaf96 100644
--- a/tg.c
+++ b/tg.c
@@ -4304,7 +4304,7 @@ size_t tg_poly_memsize(const struct tg_poly *poly) {
     if (poly->exterior) {
         size += tg_ring_memsize(poly->exterior);
     }
-    size += poly->nholes*sizeof(struct tg_ring);
+    size += poly->nholes*sizeof(struct tg_ring*);
     for (int i = 0; i < poly->nholes; i++) {
         size += tg_ring_memsize(poly->holes[i]);
     }
-- 
2.43.0


From c83544e9a9efbb179ea06ca8e64e611b79e86ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:30 +0000
Subject: [PATCH 09/23] fix: index rectangles did not enclose very large or
 very small coordinates

The 32-bit float rectangles of an index became infinite (minimum above the
segment) or zero (maximum below the segment) outside of the range of a normal
float, so that searches and predicates missed indexed segments there.
---
 tg.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/tg.c b/tg.c
index aaeaf96..2f18ab4 100644
--- a/tg.c
+++ b/tg.c
@@ -1537,13 +1537,29 @@ static double fup(double d) {
     return fnext0(d, 1);
 }
 
+// ixdown/ixup converts to a 32-bit float that is never above/below the input,
+// including when the input is too large or too small for a normal float.
+static float ixdown(double d) {
+    d = fdown(d);
+    if (d > FLT_MAX) return FLT_MAX;
+    if (d > -FLT_MIN && d < FLT_MIN) return d < 0 ? -FLT_MIN : 0;
+    return d;
+}
+
+static float ixup(double d) {
+    d = fup(d);
+    if (d < -FLT_MAX) return -FLT_MAX;
+    if (d > -FLT_MIN && d < FLT_MIN) return d > 0 ? FLT_MIN : 0;
+    return d;
+}
+
 static void tg_rect_to_ixrect(struct tg_rect *rect, 
     struct ixrect *ixrect)
 {
-    ixrect->min.x = fdown(rect->min.x);
-    ixrect->min.y = fdown(rect->min.y);
-    ixrect->max.x = fup(rect->max.x);
-    ixrect->max.y = fup(rect->max.y);
+    ixrect->min.x = ixdown(rect->min.x);
+    ixrect->min.y = ixdown(rect->min.y);
+    ixrect->max.x = ixup(rect->max.x);
+    ixrect->max.y = ixup(rect->max.y);
 }
 
 #else
-- 
2.43.0


From 07c4887e05f6f4666588cc385b3928a5144504b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:19 +0000
Subject: [PATCH 10/23] fix: parse_geobin accepted failed children and trusted
 the feature count

A child or body whose parser reported an error without the failure index was
taken for a geometry (leaking its message and adding metadata to it), a failed
allocation restarted the parse at the first byte, and the feature count made it
allocate up to 32 GB for a few bytes.
---
 tg.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/tg.c b/tg.c
index 2f18ab4..9afa096 100644
--- a/tg.c
+++ b/tg.c
@@ -15561,27 +15561,30 @@ static size_t parse_geobin(const uint8_t *geobin, size_t len, size_t i,
         uint32_t nfeats;
         memcpy(&nfeats, geobin+i, 4);
         i += 4;
-        struct tg_geom **feats = tg_malloc(nfeats*sizeof(struct tg_geom*));
-        if (!feats) {
-            return 0;
-        }
-        memset(feats, 0, nfeats*sizeof(struct tg_geom*));
+        struct gvec feats = { 0 };
         struct tg_geom *feat = 0;
         uint32_t j = 0;
         for (; j < nfeats; j++) {
+            feat = 0;
             i = parse_geobin(geobin, len, i, depth+1, ix, &feat);
-            if (i == PARSE_FAIL) {
+            if (i == PARSE_FAIL || !feat || tg_geom_error(feat)) {
+                break;
+            }
+            if (!gvec_append(&feats, feat)) {
+                tg_geom_free(feat);
+                feat = 0;
                 break;
             }
-            feats[j] = feat;
         }
+        geom = NULL;
         if (j == nfeats) {
-            geom = tg_geom_new_geometrycollection((void*)feats, nfeats);
+            geom = tg_geom_new_geometrycollection(
+                (struct tg_geom const*const*)feats.data, nfeats);
         }
-        for (uint32_t k = 0; k < j; k++) {
-            tg_geom_free(feats[k]);
+        for (size_t k = 0; k < feats.len; k++) {
+            tg_geom_free(feats.data[k]);
         }
-        tg_free(feats);
+        if (feats.data) tg_free(feats.data);
         if (j < nfeats) {
             *g = feat; // return the last failed feature
             return PARSE_FAIL;
@@ -15592,9 +15595,10 @@ static size_t parse_geobin(const uint8_t *geobin, size_t len, size_t i,
         }
         geom->head.flags |= IS_FEATURE_COL;
     } else {
+        geom = NULL;
         i = parse_wkb(geobin, len, i, depth, ix, &geom);
     }
-    if (i == PARSE_FAIL || !geom) {
+    if (i == PARSE_FAIL || !geom || tg_geom_error(geom)) {
         *g = geom;
         return PARSE_FAIL;
     }
-- 
2.43.0


From 2cc3fd92363619478895a7517031ad674ca1d99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:05 +0000
Subject: [PATCH 11/23] fix: count of WKB positions overflowed 32 bits before
 its bounds check

---
 tg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index 9afa096..8892f36 100644
--- a/tg.c
+++ b/tg.c
@@ -13382,11 +13382,11 @@ static size_t parse_wkb_posns(enum base base, int dims,
     uint32_t count;
     read_uint32(count);
     if (count == 0) return i;
-    if (dims == 2 && !swap && len-i >= count*2*8) {
+    if (dims == 2 && !swap && len-i >= (size_t)count*2*8) {
         // Use the point data directly. No allocations. 
         *points = (void*)(wkb+i);
         *npoints = count;
-        i += count*2*8; 
+        i += (size_t)count*2*8; 
     } else {
         for (uint32_t j = 0 ; j < count; j++) {
             read_posn(posn);
-- 
2.43.0


From faa0f43c0321db50ee3d3699d51f2494556a2a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:06 +0000
Subject: [PATCH 12/23] fix: WKB with empty rings or empty children became a
 malformed geometry

An empty ring gave a polygon with an unclosed ring, an empty child of a multi
line or multi polygon a missing child, and an empty point the point (0 0).
---
 tg.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index 8892f36..98147fe 100644
--- a/tg.c
+++ b/tg.c
@@ -13429,6 +13429,7 @@ static size_t parse_wkb_multi_posns(enum base base, int dims,
         i = parse_wkb_posns(base, dims, wkb, len, i, swap, posns, xcoords, 
             &points, &npoints, err);
         if (i == PARSE_FAIL) return PARSE_FAIL;
+        if (npoints == 0) goto invalid;
         struct tg_ring *ring = tg_ring_new_ix(points, npoints, ix);
         if (!ring) return PARSE_FAIL;
         if (!rvec_append(rings, ring)) {
@@ -13610,7 +13611,8 @@ static bool wkb_type_match(const struct tg_geom *child, enum tg_geom_type type,
 {
     bool child_has_z = (child->head.flags&HAS_Z) == HAS_Z;
     bool child_has_m = (child->head.flags&HAS_M) == HAS_M;
-    return child->head.type == type && child_has_z == z && child_has_m == m;
+    return child->head.type == type && child_has_z == z && child_has_m == m &&
+        !tg_geom_is_empty(child);
 }
 
 static size_t parse_wkb_multipoint(const uint8_t *wkb, size_t len, size_t i,
-- 
2.43.0


From 0666009708f61af6f872903a2031283b54dac86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:30 +0000
Subject: [PATCH 13/23] fix: GeoBIN box readers wrote past four dimensions and
 disagreed on empty points

tg_geobin_fullrect() copied as many dimensions as the byte in the data said,
up to 255, into arrays of four, returned dimensions for truncated points it
had not read, and reported NaN for the points that are read as empty.
---
 tg.c | 41 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/tg.c b/tg.c
index 98147fe..359e6fb 100644
--- a/tg.c
+++ b/tg.c
@@ -15889,6 +15889,23 @@ int tg_geom_fullrect(const struct tg_geom *geom, double min[4], double max[4]) {
     return dims;
 }
 
+// Empty points are stored with NaN for all coordinates, see parse_wkb_point.
+static bool geobin_point_empty(const uint8_t *geobin, size_t len, uint32_t type)
+{
+    size_t dims = type == 1 ? 2 : type == 3001 ? 4 : 3;
+    if (len < 5+8*dims) {
+        return false;
+    }
+    for (size_t i = 0; i < dims; i++) {
+        double x;
+        memcpy(&x, geobin+5+i*8, 8);
+        if (!isnan(x)) {
+            return false;
+        }
+    }
+    return true;
+}
+
 /// Returns the minimum bounding rectangle of GeoBIN data.
 /// @param geobin GeoBIN data
 /// @param len Length of data
@@ -15913,10 +15930,20 @@ int tg_geobin_fullrect(const uint8_t *geobin, size_t len, double min[4],
             case 3001: dims = 4; break;
             }
             if (dims > 0 && len >= 5+8*dims) {
-                memcpy(min, geobin+5, 8*dims);
-                memcpy(max, geobin+5, 8*dims);
+                if (geobin_point_empty(geobin, len, type)) {
+                    dims = 2;
+                    min[0] = min[1] = 0;
+                    max[0] = max[1] = 0;
+                } else {
+                    memcpy(min, geobin+5, 8*dims);
+                    memcpy(max, geobin+5, 8*dims);
+                }
+            } else {
+                dims = 0;
             }
-        } else if (geobin[0] != 0x01 && len >= 2+8*(size_t)geobin[1]*2){
+        } else if (geobin[0] != 0x01 && geobin[1] >= 2 && geobin[1] <= 4 &&
+            len >= 2+8*(size_t)geobin[1]*2)
+        {
             // Read MBR
             dims = geobin[1];
             memcpy(min, geobin+2, 8*dims);
@@ -15937,7 +15964,9 @@ struct tg_rect tg_geobin_rect(const uint8_t *geobin, size_t len) {
             // Read Point
             uint32_t type;
             memcpy(&type, geobin+1, 4);
-            if (type == 1 || type == 1001 || type == 2001 || type == 3001) {
+            if ((type == 1 || type == 1001 || type == 2001 || type == 3001) &&
+                !geobin_point_empty(geobin, len, type))
+            {
                 memcpy(&rect.min.x, geobin+5, 8);
                 memcpy(&rect.min.y, geobin+5+8, 8);
                 rect.max.x = rect.min.x;
@@ -15968,7 +15997,9 @@ struct tg_point tg_geobin_point(const uint8_t *geobin, size_t len) {
             // Read Point
             uint32_t type;
             memcpy(&type, geobin+1, 4);
-            if (type == 1 || type == 1001 || type == 2001 || type == 3001) {
+            if ((type == 1 || type == 1001 || type == 2001 || type == 3001) &&
+                !geobin_point_empty(geobin, len, type))
+            {
                 memcpy(&point.x, geobin+5, 8);
                 memcpy(&point.y, geobin+5+8, 8);
             }
-- 
2.43.0


From 50d9e0f89285585158606c7d486816a33b18bf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:44 +0000
Subject: [PATCH 14/23] fix: text writers printed subnormal coordinates as zero

isnormal() is false for subnormal numbers too, so GeoJSON and WKT written for
such coordinates did not read back as the same geometry.
---
 tg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index 359e6fb..2b8f836 100644
--- a/tg.c
+++ b/tg.c
@@ -11372,7 +11372,7 @@ FP_EXTERN bool fp_atof(const char *data, size_t len, float *x) {
 #endif
 
 static void write_string_double(struct writer *wr, double f) {
-    if (!isnormal(f)) {
+    if (f == 0 || !isfinite(f)) {
         write_char(wr, '0');
         return;
     }
-- 
2.43.0


From f73ca2b77d280da582d60117798309d37befd8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:19 +0000
Subject: [PATCH 15/23] fix: WKT with more than 1024 parts was rejected

The depth limit counted every opening parenthesis of a group instead of how
deeply they are nested, so what tg_geom_wkt() writes for geometries with many
parts could not be read back.
---
 tg.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index 2b8f836..b13b62f 100644
--- a/tg.c
+++ b/tg.c
@@ -12068,7 +12068,9 @@ static long wkt_balance_coords(const char *wkt, long len, long i) {
     for (; i < len; i++) {
         if (wkt[i] == '(') {
             depth++;
-            maxdepth++;
+            if (depth > maxdepth) {
+                maxdepth = depth;
+            }
         } else if (wkt[i] == ')') {
             depth--;
             if (depth == 0) {
-- 
2.43.0


From 30ca90117ce4259dc95fa1bcc531f38fab854543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:39 +0000
Subject: [PATCH 16/23] fix: empty GeoJSON multi geometries claimed to have Z
 and M

With no positions the number of dimensions is zero, which fell into the
default case for four dimensions. The flags then went into WKB and GeoBIN.
---
 tg.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tg.c b/tg.c
index b13b62f..53b408b 100644
--- a/tg.c
+++ b/tg.c
@@ -8365,6 +8365,7 @@ static struct tg_geom *parse_geojson_multipoint(struct json json,
     const struct tg_point *points = (struct tg_point*)posns.data;
     int npoints = posns.len/2;
     switch (dims) {
+    case 0: // no positions
     case 2: 
         geom = tg_geom_new_multipoint(points, npoints);
         break;
@@ -8415,6 +8416,7 @@ static struct tg_geom *parse_geojson_multilinestring(struct json json,
         val0 = json_next(val0);
     }
     switch (dims) {
+    case 0: // no positions
     case 2: 
         geom = tg_geom_new_multilinestring(
                 (struct tg_line const*const*)lines.data, lines.len);
@@ -8474,6 +8476,7 @@ static struct tg_geom *parse_geojson_multipolygon(struct json json,
         val0 = json_next(val0);
     }
     switch (dims) {
+    case 0: // no positions
     case 2: 
         geom = tg_geom_new_multipolygon(
                 (struct tg_poly const*const*)polys.data, polys.len);
-- 
2.43.0


From 8b3ae84ad66e882e3e1565fcdbe9f934b5077b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 17/23] fix: tg_poly_new accepted missing holes

---
 tg.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tg.c b/tg.c
index 53b408b..cae1f11 100644
--- a/tg.c
+++ b/tg.c
@@ -3830,6 +3830,9 @@ struct tg_poly *tg_poly_new(const struct tg_ring *exterior,
         memset(poly->holes, 0, sizeof(struct tg_ring*)*poly->nholes);
         for (int i = 0; i < poly->nholes; i++) {
             poly->holes[i] = tg_ring_clone(holes[i]);
+            if (!poly->holes[i]) {
+                goto fail;
+            }
         }
     }
     return poly;
-- 
2.43.0


From 4d37b39efe60d7579f8bbb83ca7a3bd2609cb2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:02 +0000
Subject: [PATCH 18/23] fix: points on the top edge of a ring with a stripe
 index were outside of it

---
 tg.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/tg.c b/tg.c
index cae1f11..9959126 100644
--- a/tg.c
+++ b/tg.c
@@ -1699,6 +1699,16 @@ struct ystripes {
     struct ystripe stripes[];
 };
 
+// ystripe_at returns the stripe that y belongs to. The result is always a
+// valid stripe, also for the top edge and when there is no (finite) height.
+static int ystripe_at(double y, double ymin, double height, int nstripes) {
+    double stripe = (y - ymin) / height * (double)nstripes;
+    if (!(stripe > 0)) {
+        return 0;
+    }
+    return stripe < nstripes ? (int)stripe : nstripes-1;
+}
+
 static bool process_ystripes(struct tg_ring *ring) {
     double score = tg_ring_polsby_popper_score(ring);
     if (!(score <= 1.0)) {
@@ -1727,10 +1737,8 @@ static bool process_ystripes(struct tg_ring *ring) {
     for (int i = 0; i < ring->nsegs; i++) {
         double ymin = fmin0(ring->points[i].y, ring->points[i+1].y);
         double ymax = fmax0(ring->points[i].y, ring->points[i+1].y);
-        int min = (ymin - ring->rect.min.y) / height * (double)nstripes;
-        int max = (ymax - ring->rect.min.y) / height * (double)nstripes;
-        min = fmax0(min, 0);
-        max = fmin0(max, nstripes-1);
+        int min = ystripe_at(ymin, ring->rect.min.y, height, nstripes);
+        int max = ystripe_at(ymax, ring->rect.min.y, height, nstripes);
         for (int j = min; j <= max; j++) {
             ycounts[j]++;
             nmap++;
@@ -1760,10 +1768,8 @@ static bool process_ystripes(struct tg_ring *ring) {
     for (int i = 0; i < ring->nsegs; i++) {
         double ymin = fmin0(ring->points[i].y, ring->points[i+1].y);
         double ymax = fmax0(ring->points[i].y, ring->points[i+1].y);
-        int min = (ymin - ring->rect.min.y) / height * (double)nstripes;
-        int max = (ymax - ring->rect.min.y) / height * (double)nstripes;
-        min = fmax0(min, 0);
-        max = fmin0(max, nstripes-1);
+        int min = ystripe_at(ymin, ring->rect.min.y, height, nstripes);
+        int max = ystripe_at(ymax, ring->rect.min.y, height, nstripes);
         for (int j = min; j <= max; j++) {
             struct ystripe *stripe = &ystripes->stripes[j];
             stripe->indexes[stripe->count++] = i;
@@ -2742,8 +2748,7 @@ static struct ring_result ystripes_pip(const struct tg_ring *ring,
     int idx = -1;
     struct ystripes *ystripes = ring->ystripes;
     double height = ring->rect.max.y-ring->rect.min.y;
-    int y = (point.y - ring->rect.min.y) / height * (double)ystripes->nstripes;
-    y = fclamp0(y, 0, ystripes->nstripes-1);
+    int y = ystripe_at(point.y, ring->rect.min.y, height, ystripes->nstripes);
     struct ystripe *ystripe = &ystripes->stripes[y];
     for (int i = 0; i < ystripe->count; i++) {
         int j = ystripe->indexes[i];
-- 
2.43.0


From ebc31335373a00990d372e87f2f7dde031c3fd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:02 +0000
Subject: [PATCH 19/23] fix: segment pairs found depended on which of the rings
 has an index

---
 tg.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index 9959126..d9ae0af 100644
--- a/tg.c
+++ b/tg.c
@@ -2521,7 +2521,12 @@ struct ring_ring_iter_ctx {
 
 static bool ring_ring_iter(struct tg_segment seg, int index, void *udata) {
     struct ring_ring_iter_ctx *ctx = udata;
-    if (tg_segment_intersects_segment(seg, ctx->seg)) {
+    // Rounding can make the result depend on the order of the segments. Always
+    // use the same order, no matter which of the rings has an index.
+    bool hit = ctx->swapped ? 
+        tg_segment_intersects_segment(ctx->seg, seg) :
+        tg_segment_intersects_segment(seg, ctx->seg);
+    if (hit) {
         bool ok = ctx->swapped ? 
             ctx->iter(ctx->seg, ctx->index, seg, index, ctx->udata):
             ctx->iter(seg, index, ctx->seg, ctx->index, ctx->udata);
-- 
2.43.0


From 02133630dc36cad9245090e8f7e30a4acd9455bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:22 +0000
Subject: [PATCH 20/23] fix: numbers were read with the decimal point of the
 current locale

strtod expects the decimal point of the locale that the program has set.
With another one than '.' every GeoJSON number with a fraction was read as
zero, and WKT lost fractions or took the comma between two positions for a
decimal point: LINESTRING(1 2,5.5 3) was read as (1 2.5, 5 3).
---
 deps/json.c | 26 ++++++++++++++++++----
 tg.c        | 63 ++++++++++++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 79 insertions(+), 10 deletions(-)

diff --git a/deps/json.c b/deps/json.c
index b3e1a96..967537d 100644
--- a/deps/json.c
+++ b/deps/json.c
@@ -4,6 +4,7 @@
 // Use of this source code is governed by an MIT-style
 // license that can be found in the LICENSE file.
 #include <limits.h>
+#include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -777,23 +778,40 @@ JSON_EXTERN struct json json_object_get(struct json json, const char *key) {
     return json_object_getn(json, key, key?strlen(key):0);
 }
 
+// The longest decimal point of a locale, in bytes, that stod makes room for.
+#define STOD_EXTRA 8
+
+// The buf must have room for len+1+STOD_EXTRA bytes.
 static double stod(const uint8_t *str, size_t len, char *buf) {
     memcpy(buf, str, len);
     buf[len] = '\0';
     char *ptr;
     double x = strtod(buf, &ptr);
+    if ((size_t)(ptr-buf) != len && *ptr == '.') {
+        // The current locale has a decimal point other than '.'
+        char pt[16];
+        int n = snprintf(pt, sizeof(pt), "%.1f", 0.0);
+        if (n < 3 || n-2 > STOD_EXTRA) return 0;
+        size_t ptlen = n-2;
+        size_t i = ptr-buf;
+        memcpy(ptr, pt+1, ptlen);
+        memcpy(ptr+ptlen, str+i+1, len-i-1);
+        len += ptlen-1;
+        buf[len] = '\0';
+        x = strtod(buf, &ptr);
+    }
     return (size_t)(ptr-buf) == len ? x : 0;
 }
 
 static double parse_double_big(const uint8_t *str, size_t len) {
-    char buf[512];
-    if (len >= sizeof(buf)) return 0;
+    char buf[512+STOD_EXTRA];
+    if (len >= sizeof(buf)-STOD_EXTRA) return 0;
     return stod(str, len, buf);
 }
 
 static double parse_double(const uint8_t *str, size_t len) {
-    char buf[32];
-    if (len >= sizeof(buf)) return parse_double_big(str, len);
+    char buf[32+STOD_EXTRA];
+    if (len >= sizeof(buf)-STOD_EXTRA) return parse_double_big(str, len);
     return stod(str, len, buf);
 }
 
diff --git a/tg.c b/tg.c
index d9ae0af..9174b02 100644
--- a/tg.c
+++ b/tg.c
@@ -6802,6 +6802,7 @@ const char *tg_geom_type_string(enum tg_geom_type type) {
 // Use of this source code is governed by an MIT-style
 // license that can be found in the LICENSE file.
 #include <limits.h>
+#include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -7575,23 +7576,40 @@ JSON_EXTERN struct json json_object_get(struct json json, const char *key) {
     return json_object_getn(json, key, key?strlen(key):0);
 }
 
+// The longest decimal point of a locale, in bytes, that stod makes room for.
+#define STOD_EXTRA 8
+
+// The buf must have room for len+1+STOD_EXTRA bytes.
 static double stod(const uint8_t *str, size_t len, char *buf) {
     memcpy(buf, str, len);
     buf[len] = '\0';
     char *ptr;
     double x = strtod(buf, &ptr);
+    if ((size_t)(ptr-buf) != len && *ptr == '.') {
+        // The current locale has a decimal point other than '.'
+        char pt[16];
+        int n = snprintf(pt, sizeof(pt), "%.1f", 0.0);
+        if (n < 3 || n-2 > STOD_EXTRA) return 0;
+        size_t ptlen = n-2;
+        size_t i = ptr-buf;
+        memcpy(ptr, pt+1, ptlen);
+        memcpy(ptr+ptlen, str+i+1, len-i-1);
+        len += ptlen-1;
+        buf[len] = '\0';
+        x = strtod(buf, &ptr);
+    }
     return (size_t)(ptr-buf) == len ? x : 0;
 }
 
 static double parse_double_big(const uint8_t *str, size_t len) {
-    char buf[512];
-    if (len >= sizeof(buf)) return 0;
+    char buf[512+STOD_EXTRA];
+    if (len >= sizeof(buf)-STOD_EXTRA) return 0;
     return stod(str, len, buf);
 }
 
 static double parse_double(const uint8_t *str, size_t len) {
-    char buf[32];
-    if (len >= sizeof(buf)) return parse_double_big(str, len);
+    char buf[32+STOD_EXTRA];
+    if (len >= sizeof(buf)-STOD_EXTRA) return parse_double_big(str, len);
     return stod(str, len, buf);
 }
 
@@ -12141,6 +12159,39 @@ static long wkt_vnumber(const char *data, long dlen, long i) {
     return i;
 }
 
+// Converts the number that wkt_vnumber found in data[s] up to data[e].
+static double wkt_number(const char *data, long s, long e) {
+    char *end;
+    double x = strtod(data+s, &end);
+    if (end == data+e) return x;
+    // The current locale has a decimal point other than '.'. The number is
+    // copied with that one. Of a very long number the last decimals are left
+    // out.
+    char pt[16];
+    int ptlen = snprintf(pt, sizeof(pt), "%.1f", 0.0)-2;
+    if (ptlen < 1 || ptlen >= (int)sizeof(pt)-2) return x;
+    char buf[1024];
+    long max = sizeof(buf)-sizeof(pt);
+    long exp = s;
+    while (exp < e && data[exp] != 'e' && data[exp] != 'E') exp++;
+    if (e-exp > max/2) return x;
+    max -= e-exp;
+    long n = 0;
+    for (long i = s; i < exp; i++) {
+        if (data[i] == '.') {
+            memcpy(buf+n, pt+1, ptlen);
+            n += ptlen;
+        } else if (n < max) {
+            buf[n++] = data[i];
+        } else if (!memchr(data+s, '.', i-s)) {
+            return x;
+        }
+    }
+    memcpy(buf+n, data+exp, e-exp);
+    buf[n+e-exp] = '\0';
+    return strtod(buf, NULL);
+}
+
 static const char *err_for_wkt_posn(int dims) {
     if (dims == 2) {
         return "each position must have two numbers";
@@ -12169,7 +12220,7 @@ static struct tg_geom *parse_wkt_point(const char *wkt, long len,
             return make_parse_error(wkt_invalid_err("invalid number"));
         }
         if (pdims < 4) {
-            posn[pdims++] = strtod(wkt+s, NULL);
+            posn[pdims++] = wkt_number(wkt, s, i);
         } else goto bad_dims;
         if (i == len) break;
         if (isws(wkt[i])) {
@@ -12242,7 +12293,7 @@ static int parse_wkt_posns(enum base base, int dims, int depth, const char *wkt,
                     *err = wkt_invalid_err("invalid number");
                     return -1;
                 }
-                num = strtod(wkt+s, NULL);
+                num = wkt_number(wkt, s, i);
             } else if (wkt[i] == ')') {
                 // err: expected a number, got ')'
                 *err = wkt_invalid_err("expected number, got '('");
-- 
2.43.0


From 17b194ecd3f3cf7693abcc9c0e26110168f31b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:22 +0000
Subject: [PATCH 21/23] fix: parsing empty data reported that memory was
 exhausted

The other parsers report a parse error. NULL stands for an allocation that
failed.
---
 tg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index 9174b02..385141f 100644
--- a/tg.c
+++ b/tg.c
@@ -15505,7 +15505,7 @@ struct tg_geom *tg_parse(const void *data, size_t len) {
 /// @see tg_parse()
 struct tg_geom *tg_parse_ix(const void *data, size_t len, enum tg_index ix) {
     if (!data || len == 0) {
-        return 0;
+        return tg_parse_wktn_ix("", 0, ix);
     }
     const char *src = data;
     if (src[0] == '{') {
-- 
2.43.0


From a869d34c8d63f51755c28fa1978080dd26cc96ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:06 +0000
Subject: [PATCH 22/23] fix: the format of a document was detected by the
 current locale

isspace and isalpha depend on the locale, and were given negative values for
bytes above 127.
---
 tg.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/tg.c b/tg.c
index 385141f..728ac68 100644
--- a/tg.c
+++ b/tg.c
@@ -15496,6 +15496,15 @@ struct tg_geom *tg_parse(const void *data, size_t len) {
     return tg_parse_ix(data, len, 0);
 }
 
+// The same as isspace and isalpha in the "C" locale, whatever the current one.
+static bool isspace_ascii(char c) {
+    return c == ' ' || (c >= '\t' && c <= '\r');
+}
+
+static bool isalpha_ascii(char c) {
+    return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
+}
+
 /// Parse data using provided indexing option.
 /// @param data Data
 /// @param len Length of data
@@ -15511,9 +15520,9 @@ struct tg_geom *tg_parse_ix(const void *data, size_t len, enum tg_index ix) {
     if (src[0] == '{') {
         goto geojson;
     }
-    if (isspace(src[0])) {
+    if (isspace_ascii(src[0])) {
         for (size_t i = 1; i < len; i++) {
-            if (isspace(src[i])) {
+            if (isspace_ascii(src[i])) {
                 continue;
             } else if (src[i] == '{') {
                 goto geojson;
@@ -15523,10 +15532,10 @@ struct tg_geom *tg_parse_ix(const void *data, size_t len, enum tg_index ix) {
         }
         goto wkt;
     }
-    if (isalpha(src[0]) || isxdigit(src[0])) {
+    if (isalpha_ascii(src[0]) || isxdigit((unsigned char)src[0])) {
         bool ishex = true;
         for (size_t i = 0; i < len && i < 16; i++) {
-            if (!isxdigit(src[i])) {
+            if (!isxdigit((unsigned char)src[i])) {
                 ishex = false;
                 break;
             }
-- 
2.43.0


From 892c467c40cacea740f713c9f9c73b90c69c5d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:18 +0000
Subject: [PATCH 23/23] fix: the order of hits depended on how the C library
 sorts equals

---
 tg.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index 728ac68..0364f67 100644
--- a/tg.c
+++ b/tg.c
@@ -4582,7 +4582,11 @@ struct hildex {
 static int hilsort(const void *a, const void *b) {
     const struct hildex *ha = a;
     const struct hildex *hb = b;
-    return ha->hilbert < hb->hilbert ? -1 : ha->hilbert > hb->hilbert;
+    if (ha->hilbert != hb->hilbert) {
+        return ha->hilbert < hb->hilbert ? -1 : 1;
+    }
+    // The order of equals is otherwise up to the C library's qsort.
+    return ha->index < hb->index ? -1 : ha->index > hb->index;
 }
 
 static bool multi_geom_inflate_index(struct multi *multi) {
-- 
2.43.0

