From fb08359a218f69a3d615ad5905aaafeb13fcd92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:11 +0000
Subject: [PATCH 01/17] fix: report the rectangles of every dab of a batch, not
 only of the last one

---
 mypaint-tiled-surface.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index b19c4dd..e6014fe 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -794,7 +794,8 @@ int draw_dab (MyPaintSurface *surface, float x, float y,
             break;
         }
     }
-    self->num_bboxes_dirtied = MIN(self->num_bboxes, num_bboxes_used);
+    // Keep the largest count, or earlier rectangles of this batch would be lost
+    self->num_bboxes_dirtied = MAX(self->num_bboxes_dirtied, MIN(self->num_bboxes, num_bboxes_used));
     return surface_modified;
 #undef DDI
 }
@@ -951,6 +952,7 @@ mypaint_tiled_surface_init(MyPaintTiledSurface *self,
     self->num_bboxes = NUM_BBOXES_DEFAULT;
     self->bboxes = self->default_bboxes;
     memset(self->bboxes, 0, sizeof(MyPaintRectangle) * NUM_BBOXES_DEFAULT);
+    self->num_bboxes_dirtied = 0;
 
     self->symmetry_data = mypaint_default_symmetry_data();
     self->operation_queue = operation_queue_new();
-- 
2.43.0


From 59ac1a76850023c7d0d6cb3984e0ff3d8dd0e7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:11 +0000
Subject: [PATCH 02/17] fix: leave room in the dirty tile list for a tile that
 became dirty again

---
 operationqueue.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/operationqueue.c b/operationqueue.c
index 7cbe890..ee329fe 100644
--- a/operationqueue.c
+++ b/operationqueue.c
@@ -68,7 +68,9 @@ operation_queue_resize(OperationQueue *self, int new_size)
         return TRUE;
     } else {
         TileMap *new_tile_map = tile_map_new(new_size, sizeof(Fifo *), free_fifo);
-        const int new_map_size = new_size*2*new_size*2;
+        // One more than there are tiles: the list may already hold every tile
+        // when a tile that has been processed meanwhile is added once more.
+        const int new_map_size = new_size*2*new_size*2 + 1;
         TileIndex *new_dirty_tiles = (TileIndex *)malloc(new_map_size*sizeof(TileIndex));
 
         if (self->tile_map) {
@@ -199,7 +201,7 @@ operation_queue_add(OperationQueue *self, TileIndex index, OperationDataDrawDab
            // Prune duplicate tiles that cause us to almost exceed max
            self->dirty_tiles_n = remove_duplicate_tiles(self->dirty_tiles, self->dirty_tiles_n);
        }
-       assert(self->dirty_tiles_n < self->tile_map->size*2*self->tile_map->size*2);
+       assert(self->dirty_tiles_n <= self->tile_map->size*2*self->tile_map->size*2);
        self->dirty_tiles[self->dirty_tiles_n++] = index;
     }
     fifo_push(op_queue, (void *)op);
-- 
2.43.0


From 4f2f9f65afb0b4c34c0cdb6c49e0ca3733c41268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:11 +0000
Subject: [PATCH 03/17] fix: avoid overflow (and division by zero) when
 colorizing white with black

---
 brushmodes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brushmodes.c b/brushmodes.c
index f0c68b6..5a7f75b 100644
--- a/brushmodes.c
+++ b/brushmodes.c
@@ -209,7 +209,7 @@ set_rgb16_lum_from_rgb16(const uint16_t topr,
     // temporary representation inflation.
     const uint16_t botlum = LUMA(*botr, *botg, *botb) / (1<<15);
     const uint16_t toplum = LUMA(topr, topg, topb) / (1<<15);
-    const int16_t diff = botlum - toplum;
+    const int32_t diff = botlum - toplum;
     int32_t r = topr + diff;
     int32_t g = topg + diff;
     int32_t b = topb + diff;
-- 
2.43.0


From 83c1a4dc1eeed0942d251b1ff75172ae572d71a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:11 +0000
Subject: [PATCH 04/17] fix: keep posterized channels within the pixel's alpha

---
 brushmodes.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/brushmodes.c b/brushmodes.c
index 5a7f75b..575f150 100644
--- a/brushmodes.c
+++ b/brushmodes.c
@@ -149,6 +149,11 @@ void draw_dab_pixels_BlendMode_Posterize (uint16_t * mask,
       uint32_t post_r = (1<<15) * ROUND(r * posterize_num) / posterize_num;
       uint32_t post_g = (1<<15) * ROUND(g * posterize_num) / posterize_num;
       uint32_t post_b = (1<<15) * ROUND(b * posterize_num) / posterize_num;
+
+      // Premultiplied channels must not exceed alpha
+      post_r = MIN(post_r, rgba[3]);
+      post_g = MIN(post_g, rgba[3]);
+      post_b = MIN(post_b, rgba[3]);
       
       uint32_t opa_a = mask[0]*(uint32_t)opacity/(1<<15); // topAlpha
       uint32_t opa_b = (1<<15)-opa_a; // bottomAlpha
-- 
2.43.0


From f7f083f9b0ca73535281dbf0f13e39668ca9896b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:26 +0000
Subject: [PATCH 05/17] fix: end failed tile requests, drop their operations,
 and survive unreadable tiles when picking

---
 mypaint-tiled-surface.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index e6014fe..3b150b1 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -579,6 +579,12 @@ process_tile(MyPaintTiledSurface *self, int tx, int ty)
     uint16_t * rgba_p = request_data.buffer;
     if (!rgba_p) {
         printf("Warning: Unable to get tile!\n");
+        // The tile's operations cannot be carried out
+        while (op) {
+            free(op);
+            op = operation_queue_pop(self->operation_queue, tile_index);
+        }
+        mypaint_tiled_surface_tile_request_end(self, &request_data);
         return;
     }
 
@@ -822,6 +828,7 @@ void get_color (MyPaintSurface *surface, float x, float y,
     *color_r = 0.0f;
     *color_g = 1.0f;
     *color_b = 0.0f;
+    *color_a = 0.0f;
 
     // WARNING: some code duplication with draw_dab
 
@@ -871,7 +878,8 @@ void get_color (MyPaintSurface *surface, float x, float y,
         uint16_t * rgba_p = request_data.buffer;
         if (!rgba_p) {
           printf("Warning: Unable to get tile!\n");
-          break;
+          mypaint_tiled_surface_tile_request_end(self, &request_data);
+          continue;
         }
 
         // first, we calculate the mask (opacity for each pixel)
@@ -898,7 +906,10 @@ void get_color (MyPaintSurface *surface, float x, float y,
       }
     }
 
-    assert(sum_weight > 0.0f);
+    if (sum_weight <= 0.0f) {
+        // None of the tiles could be read
+        return;
+    }
     sum_a /= sum_weight;
 
     // For legacy sampling, we need to divide
-- 
2.43.0


From a1eb362fe808f3d2d2e73bfdf3a1cc672b50bb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:26 +0000
Subject: [PATCH 06/17] fix: free the payload of items left in a queue

---
 fifo.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fifo.c b/fifo.c
index 1d71ab7..3eb365f 100644
--- a/fifo.c
+++ b/fifo.c
@@ -59,7 +59,8 @@ void fifo_free(struct fifo* queue, FifoUserFreeFunction user_free)
     while ((item = queue->first) != NULL)
     {
         queue->first = item->next;
-        user_free(item);
+        user_free(item->payload);
+        free(item);
     }
     free(queue);
 }
-- 
2.43.0


From 34d584ac400d2a5df325d2ab656a67cb49c6aaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:32 +0000
Subject: [PATCH 07/17] fix: keep the snowflake bounding box index in range
 when boxes could not be allocated

---
 mypaint-tiled-surface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index 3b150b1..f12f1aa 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -769,7 +769,7 @@ int draw_dab (MyPaintSurface *surface, float x, float y,
             for (int dab_count = 0; dab_count < symm.num_lines; dab_count++) {
                 // If the number of bboxes cannot fit all snowflake dabs, use half for the rotational dabs
                 // and the other half for the reflected dabs. This is not always optimal, but seldom bad.
-                const int bbox_idx = offset + MIN(roundf(dab_count / dabs_per_bbox), num_bboxes - 1);
+                const int bbox_idx = MIN(offset + (int)roundf(dab_count / dabs_per_bbox), num_bboxes - 1);
                 mypaint_transform_point(&matrices[base_idx + dab_count], x, y, &x_out, &y_out);
                 DDI(x_out, y_out, base_angle - dab_count * rot_angle, bbox_idx);
             }
-- 
2.43.0


From d5b1326a4769c3af4ed98f47f5ffaf593abbe06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:32 +0000
Subject: [PATCH 08/17] fix: initialize save_png of the fixed tiled surface

---
 mypaint-fixed-tiled-surface.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mypaint-fixed-tiled-surface.c b/mypaint-fixed-tiled-surface.c
index 287e324..f5e1546 100644
--- a/mypaint-fixed-tiled-surface.c
+++ b/mypaint-fixed-tiled-surface.c
@@ -107,6 +107,7 @@ mypaint_fixed_tiled_surface_new(int width, int height)
 
     // MyPaintSurface vfuncs
     self->parent.parent.destroy = free_simple_tiledsurf;
+    self->parent.parent.save_png = NULL;
 
     const int tiles_width = ceil((float)width / tile_size_pixels);
     const int tiles_height = ceil((float)height / tile_size_pixels);
-- 
2.43.0


From 60896963a7ce95d404590cd18496aefa7a401cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:32 +0000
Subject: [PATCH 09/17] fix: clear the smudge buckets that were used when
 resetting a brush

---
 mypaint-brush.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 9533265..8f655e7 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -159,7 +159,7 @@ brush_reset(MyPaintBrush *self)
       if (min_index != -1) {
         int max_index = self->max_bucket_used;
         size_t num_bytes = (max_index - min_index + 1) * sizeof(self->smudge_buckets[0]) * SMUDGE_BUCKET_SIZE;
-        memset(self->smudge_buckets + min_index, 0, num_bytes);
+        memset(self->smudge_buckets + min_index * SMUDGE_BUCKET_SIZE, 0, num_bytes);
         self->min_bucket_used = -1;
         self->max_bucket_used = -1;
       }
-- 
2.43.0


From f87e0cf80124f5044ca5947704fd42eae7ce86b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:32 +0000
Subject: [PATCH 10/17] fix: address whole smudge buckets when getting and
 setting their state

---
 mypaint-brush.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 8f655e7..682da8e 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -208,6 +208,8 @@ mypaint_brush_new_with_buckets(int num_smudge_buckets)
     } else {
       self->smudge_buckets = NULL;
       self->num_buckets = 0;
+      self->min_bucket_used = -1;
+      self->max_bucket_used = -1;
     }
 
     self->refcount = 1;
@@ -459,8 +461,14 @@ mypaint_brush_set_smudge_bucket_state(
     float prev_r, float prev_g, float prev_b, float prev_a,
     float prev_color_recentness)
 {
-  if (self->num_buckets > bucket_index) {
-    float* bucket = &self->smudge_buckets[bucket_index];
+  if (bucket_index >= 0 && self->num_buckets > bucket_index) {
+    float* bucket = &self->smudge_buckets[bucket_index * SMUDGE_BUCKET_SIZE];
+    if (self->min_bucket_used == -1 || self->min_bucket_used > bucket_index) {
+      self->min_bucket_used = bucket_index;
+    }
+    if (self->max_bucket_used < bucket_index) {
+      self->max_bucket_used = bucket_index;
+    }
     bucket[SMUDGE_R] = r;
     bucket[SMUDGE_G] = g;
     bucket[SMUDGE_B] = b;
@@ -491,8 +499,8 @@ mypaint_brush_get_smudge_bucket_state(
     float* prev_r, float* prev_g, float* prev_b, float* prev_a,
     float* prev_color_recentness)
 {
-  if (self->num_buckets > bucket_index) {
-    float* bucket = &self->smudge_buckets[bucket_index];
+  if (bucket_index >= 0 && self->num_buckets > bucket_index) {
+    float* bucket = &self->smudge_buckets[bucket_index * SMUDGE_BUCKET_SIZE];
     *r = bucket[SMUDGE_R];
     *g = bucket[SMUDGE_G];
     *b = bucket[SMUDGE_B];
-- 
2.43.0


From 6cba7efafa7ea0203d8fd81c51d7953f3a92a49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:32 +0000
Subject: [PATCH 11/17] fix: initialize the setting values of a new brush

---
 mypaint-brush.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 682da8e..f072b15 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -219,6 +219,7 @@ mypaint_brush_new_with_buckets(int num_smudge_buckets)
     self->rng = rng_double_new(1000);
     self->random_input = 0;
     self->print_inputs = FALSE;
+    memset(self->settings_value, 0, sizeof(self->settings_value));
 
     brush_reset(self);
 
-- 
2.43.0


From 1cc2398a6dada08093349d9b9d51ab2e1a89e061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:32 +0000
Subject: [PATCH 12/17] fix: do not let insane stroke inputs poison the brush
 state

---
 mypaint-brush.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index f072b15..0f1a33d 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1316,6 +1316,8 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
     float tilt_declination = 90.0;
     float tilt_declinationx = 90.0;
     float tilt_declinationy = 90.0;
+    if (!isfinite(xtilt)) xtilt = 0.0;
+    if (!isfinite(ytilt)) ytilt = 0.0;
     if (xtilt != 0 || ytilt != 0) {
       // shield us from insane tilt input
       xtilt = CLAMP(xtilt, -1.0, 1.0);
@@ -1334,7 +1336,7 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
       assert(isfinite(tilt_declinationy));
     }
 
-    if (pressure <= 0.0) pressure = 0.0;
+    if (!isfinite(pressure) || pressure <= 0.0) pressure = 0.0;
     if (!isfinite(x) || !isfinite(y) ||
         (x > 1e10 || y > 1e10 || x < -1e10 || y < -1e10)) {
       // workaround attempt for https://gna.org/bugs/?14372
@@ -1342,7 +1344,7 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
       x = 0.0;
       y = 0.0;
       pressure = 0.0;
-      viewzoom = 0.0;
+      viewzoom = 1.0;
       viewrotation = 0.0;
       barrel_rotation = 0.0;
     }
-- 
2.43.0


From eaa2a172d947c3e8229d1984814aff7410eddb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:32 +0000
Subject: [PATCH 13/17] fix: reject malformed brush files instead of aborting

---
 mypaint-brush.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 0f1a33d..ec5bd3f 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1572,6 +1572,24 @@ obj_get(json_object *self, const gchar *key, json_object **obj_out) {
 #endif
 }
 
+// A mapping has no points, or 2 to 64 of them with increasing x
+static gboolean
+valid_mapping_points(json_object *points)
+{
+    const int n = json_object_array_length(points);
+    if (n == 1 || n > 64) return FALSE;
+
+    float last_x = -INFINITY;
+    for (int i=0; i<n; i++) {
+        json_object *point = json_object_array_get_idx(points, i);
+        if (!json_object_is_type(point, json_type_array) || json_object_array_length(point) < 2) return FALSE;
+        const float x = json_object_get_double(json_object_array_get_idx(point, 0));
+        if (!(x >= last_x)) return FALSE;
+        last_x = x;
+    }
+    return TRUE;
+}
+
 static gboolean
 update_brush_setting_from_json_object(MyPaintBrush *self,
                                       char *setting_name,
@@ -1605,6 +1623,10 @@ update_brush_setting_from_json_object(MyPaintBrush *self,
         fprintf(stderr, "Warning: No 'inputs' field for setting: %s\n", setting_name);
         return FALSE;
     }
+    if (!json_object_is_type(inputs, json_type_object)) {
+        fprintf(stderr, "Warning: Wrong inputs type for setting: %s\n", setting_name);
+        return FALSE;
+    }
     json_object_object_foreach(inputs, input_name, input_obj) {
         MyPaintBrushInput input_id = mypaint_brush_input_from_cname(input_name);
 
@@ -1619,6 +1641,11 @@ update_brush_setting_from_json_object(MyPaintBrush *self,
             return FALSE;
         }
 
+        if (!valid_mapping_points(input_obj)) {
+            fprintf(stderr, "Warning: Invalid mapping points for setting: %s\n", setting_name);
+            return FALSE;
+        }
+
         const int number_of_mapping_points = json_object_array_length(input_obj);
 
         mypaint_brush_set_mapping_n(self, setting_id, input_id, number_of_mapping_points);
@@ -1659,6 +1686,10 @@ update_brush_from_json_object(MyPaintBrush *self)
         fprintf(stderr, "Error: No 'settings' field for brush\n");
         return FALSE;
     }
+    if (!json_object_is_type(settings, json_type_object)) {
+        fprintf(stderr, "Error: Wrong type for brush settings\n");
+        return FALSE;
+    }
 
     gboolean updated_any = FALSE;
     json_object_object_foreach(settings, setting_name, setting_obj) {
-- 
2.43.0


From 0ad578c980b71212ac004684ecd7c964f98f849a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:46 +0000
Subject: [PATCH 14/17] fix: start at the pointer after a reset, not between it
 and the old position

With slow tracking the position of the first event after
mypaint_brush_reset() was filtered against the position from before the
reset, so the next stroke started away from the pointer.
---
 mypaint-brush.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index ec5bd3f..51fa24f 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1401,7 +1401,8 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
         }
       }
 
-      const float fac = 1.0 - exp_decay(BASEVAL(self, SLOW_TRACKING), 100.0 * dtime);
+      // after a reset there is no earlier position to lag behind
+      const float fac = self->reset_requested ? 1.0 : 1.0 - exp_decay(BASEVAL(self, SLOW_TRACKING), 100.0 * dtime);
       x = STATE(self, X) + (x - STATE(self, X)) * fac;
       y = STATE(self, Y) + (y - STATE(self, Y)) * fac;
     }
-- 
2.43.0


From 8308565856836bea01ef1375abaa880e0b41330d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:46 +0000
Subject: [PATCH 15/17] fix: do not mix the result of earlier calls into smudge
 colors

mix_colors() returns a static buffer; with a negative paint factor (from
a mapped Pigment setting) the colors left in it by the previous call,
possibly for another brush, were weighted into the result.
---
 helpers.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/helpers.c b/helpers.c
index d0a227c..18c6ef2 100644
--- a/helpers.c
+++ b/helpers.c
@@ -565,6 +565,9 @@ float * mix_colors(float *a, float *b, float fac, float paint_mode)
 {
   static float result[4] = {0};  
   
+  // a negative factor would mix in whatever was the result of the last call
+  if (paint_mode < 0.0) paint_mode = 0.0;
+
   float opa_a = fac;
   float opa_b = 1.0-opa_a;
   result[3] = CLAMP(opa_a * a[3] + opa_b * b[3], 0.0f, 1.0f);
-- 
2.43.0


From 077c2072bba23c8f3d55c109affb046a7f5281eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:58 +0000
Subject: [PATCH 16/17] fix: put the brush exactly where the pointer is after a
 reset

The position was computed relative to the one before the reset, and rounded
off by as much as that is large.
---
 mypaint-brush.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 51fa24f..225f9ad 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1402,9 +1402,11 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
       }
 
       // after a reset there is no earlier position to lag behind
-      const float fac = self->reset_requested ? 1.0 : 1.0 - exp_decay(BASEVAL(self, SLOW_TRACKING), 100.0 * dtime);
-      x = STATE(self, X) + (x - STATE(self, X)) * fac;
-      y = STATE(self, Y) + (y - STATE(self, Y)) * fac;
+      if (!self->reset_requested) {
+        const float fac = 1.0 - exp_decay(BASEVAL(self, SLOW_TRACKING), 100.0 * dtime);
+        x = STATE(self, X) + (x - STATE(self, X)) * fac;
+        y = STATE(self, Y) + (y - STATE(self, Y)) * fac;
+      }
     }
 
     if (dtime > max_dtime || self->reset_requested) {
-- 
2.43.0


From b3c8963017d7eec4ed2f09e2284cb2ff65132597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:49 +0000
Subject: [PATCH 17/17] fix: handle a pen coming down after a reset like with a
 new brush

The pressure from before the reset decided whether the motion was split
into a movement and a press.
---
 mypaint-brush.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 225f9ad..13bca57 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1354,7 +1354,8 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
     if (dtime < 0) printf("Time jumped backwards by dtime=%f seconds!\n", dtime);
     if (dtime <= 0) dtime = 0.0001; // protect against possible division by zero bugs
 
-    if (dtime > 0.100 && pressure && STATE(self, PRESSURE) == 0) {
+    // (a requested reset makes the pressure from before meaningless)
+    if (dtime > 0.100 && pressure && (STATE(self, PRESSURE) == 0 || self->reset_requested)) {
       // Workaround for tablets that don't report motion events without pressure.
       // This is to avoid linear interpolation of the pressure between two events.
       mypaint_brush_stroke_to (self, surface, x, y, 0.0, 90.0, 0.0, dtime-0.0001, viewzoom, viewrotation, 0.0, linear);
-- 
2.43.0

