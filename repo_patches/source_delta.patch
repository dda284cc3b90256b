From 99ef256a5cd3935c6df5d6ddfffd41e20e6d9ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:54 +0000
Subject: [PATCH 01/25] fix: Tracker.update without detections crashed when
 camera motion was given

---
 norfair/tracker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 275ecee..1aced94 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -176,7 +176,7 @@ class Tracker:
         List[TrackedObject]
             The list of active tracked objects.
         """
-        if coord_transformations is not None:
+        if coord_transformations is not None and detections is not None:
             for det in detections:
                 det.update_coordinate_transformation(coord_transformations)
 
-- 
2.43.0


From f6731671f8c5569ef2966f3c8dcd2b27522e72c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:54 +0000
Subject: [PATCH 02/25] fix: feeding a Detection twice applied the camera
 transformation twice

---
 norfair/tracker.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 1aced94..4edef2f 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -787,6 +787,4 @@ class Detection:
         self, coordinate_transformation: CoordinatesTransformation
     ):
         if coordinate_transformation is not None:
-            self.absolute_points = coordinate_transformation.rel_to_abs(
-                self.absolute_points
-            )
+            self.absolute_points = coordinate_transformation.rel_to_abs(self.points)
-- 
2.43.0


From 1a393f118ea3f8a44c5d897ff7b88901e09f754b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:54 +0000
Subject: [PATCH 03/25] fix: matching never ended for thresholds whose
 increment rounds down in float32

---
 norfair/tracker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 4edef2f..893ec3d 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -376,8 +376,8 @@ class Tracker:
                 obj_idx = flattened_arg_min % distance_matrix.shape[1]
                 det_idxs.append(det_idx)
                 obj_idxs.append(obj_idx)
-                distance_matrix[det_idx, :] = distance_threshold + 1
-                distance_matrix[:, obj_idx] = distance_threshold + 1
+                distance_matrix[det_idx, :] = np.inf
+                distance_matrix[:, obj_idx] = np.inf
                 current_min = distance_matrix.min()
 
             return det_idxs, obj_idxs
-- 
2.43.0


From 49157d71b230a80c00be42bb5428981c1c32360e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:54 +0000
Subject: [PATCH 04/25] fix: an object matched on the last frame of its life
 was later dropped while being tracked

---
 norfair/tracker.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 893ec3d..b0cff53 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -626,6 +626,8 @@ class TrackedObject:
 
         self.last_detection = detection
         self.hit_counter = min(self.hit_counter + 2 * period, self.hit_counter_max)
+        # The object is alive, so it's no longer waiting to be re-identified
+        self.reid_hit_counter = None
 
         if self.is_initializing and self.hit_counter > self.initialization_delay:
             self.is_initializing = False
-- 
2.43.0


From cb146914ff5a9d8c93ad0cc2e93c1ae046508979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:54 +0000
Subject: [PATCH 05/25] fix: never initialized dead objects could swallow a new
 object in the ReID phase

---
 norfair/tracker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index b0cff53..f53c33d 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -195,7 +195,7 @@ class Tracker:
                     tracked_objects.append(o)
                     if o.hit_counter_is_positive:
                         alive_objects.append(o)
-                    else:
+                    elif not o.is_initializing:
                         dead_objects.append(o)
             self.tracked_objects = tracked_objects
 
-- 
2.43.0


From 35c150d392db13df00c186ff9a2a1dbff8237410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:54 +0000
Subject: [PATCH 06/25] fix: points seen for the first time in a partial
 detection did not take the detected position

---
 norfair/tracker.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index f53c33d..7162bfd 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -664,9 +664,7 @@ class TrackedObject:
         detected_at_least_once_mask = np.array(
             [(m,) * self.dim_points for m in self.detected_at_least_once_points]
         ).flatten()
-        now_detected_mask = np.hstack(
-            (points_over_threshold_mask,) * self.dim_points
-        ).flatten()
+        now_detected_mask = np.repeat(points_over_threshold_mask, self.dim_points)
         first_detection_mask = np.logical_and(
             now_detected_mask, np.logical_not(detected_at_least_once_mask)
         )
-- 
2.43.0


From 50e3c4bb9105e53b32e3088e2d134c336cbace2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:54 +0000
Subject: [PATCH 07/25] fix: points of an object matched after a long gap were
 not live

---
 norfair/tracker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 7162bfd..d235d96 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -633,6 +633,9 @@ class TrackedObject:
             self.is_initializing = False
             self._acquire_ids()
 
+        # Points that were not seen for long shouldn't take longer to become live again
+        self.point_hit_counter[self.point_hit_counter < 0] = 0
+
         # We use a kalman filter in which we consider each coordinate on each point as a sensor.
         # This is a hacky way to update only certain sensors (only x, y coordinates for
         # points which were detected).
@@ -654,7 +657,6 @@ class TrackedObject:
         self.point_hit_counter[
             self.point_hit_counter >= self.pointwise_hit_counter_max
         ] = self.pointwise_hit_counter_max
-        self.point_hit_counter[self.point_hit_counter < 0] = 0
         H_vel = np.zeros(H_pos.shape)  # But we don't directly measure velocity
         H = np.hstack([H_pos, H_vel])
         self.filter.update(
-- 
2.43.0


From b85adf2ef01274b6028c114d95c0f40b04eddc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:54 +0000
Subject: [PATCH 08/25] fix: vectorized distances compared labels by their
 text, mixing or failing on labels of other types

---
 norfair/distances.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/norfair/distances.py b/norfair/distances.py
index d7d7e4c..57eed2d 100644
--- a/norfair/distances.py
+++ b/norfair/distances.py
@@ -151,26 +151,24 @@ class VectorizedDistance(Distance):
         if not objects or not candidates:
             return distance_matrix
 
-        object_labels = np.array([o.label for o in objects]).astype(str)
-        candidate_labels = np.array([c.label for c in candidates]).astype(str)
+        object_labels = [o.label for o in objects]
+        candidate_labels = [c.label for c in candidates]
 
         # iterate over labels that are present both in objects and detections
-        for label in np.intersect1d(
-            np.unique(object_labels), np.unique(candidate_labels)
-        ):
+        for label in set(object_labels).intersection(candidate_labels):
             # generate masks of the subset of object and detections for this label
-            obj_mask = object_labels == label
-            cand_mask = candidate_labels == label
+            obj_mask = np.array([l == label for l in object_labels])
+            cand_mask = np.array([l == label for l in candidate_labels])
 
             stacked_objects = []
             for o in objects:
-                if str(o.label) == label:
+                if o.label == label:
                     stacked_objects.append(o.estimate.ravel())
             stacked_objects = np.stack(stacked_objects)
 
             stacked_candidates = []
             for c in candidates:
-                if str(c.label) == label:
+                if c.label == label:
                     if "Detection" in str(type(c)):
                         stacked_candidates.append(c.points.ravel())
                     else:
-- 
2.43.0


From 8d887226783eb8a5decd23785be5c8db58d99af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:54 +0000
Subject: [PATCH 09/25] fix: the output file of a camera was named after the
 literal text of the template

---
 norfair/video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/video.py b/norfair/video.py
index 83abbd4..58828e1 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -258,7 +258,7 @@ class Video:
         if self.input_path is not None:
             file_name = self.input_path.split("/")[-1].split(".")[0]
         else:
-            file_name = "camera_{self.camera}"
+            file_name = f"camera_{self.camera}"
         file_name = f"{file_name}_out.{self.output_extension}"
 
         return os.path.join(self.output_path, file_name)
-- 
2.43.0


From c0d9363e30293d9c1e2aef9298231392e13115cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:54 +0000
Subject: [PATCH 10/25] fix: Video.show failed for every downsample_ratio given
 as a float

---
 norfair/video.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/video.py b/norfair/video.py
index 58828e1..29828d4 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -234,8 +234,8 @@ class Video:
             frame = cv2.resize(
                 frame,
                 (
-                    frame.shape[1] // downsample_ratio,
-                    frame.shape[0] // downsample_ratio,
+                    int(frame.shape[1] // downsample_ratio),
+                    int(frame.shape[0] // downsample_ratio),
                 ),
             )
         cv2.imshow("Output", frame)
-- 
2.43.0


From 2d66a7821e7220d0bb1afbc96eca00ff67bc2411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:54 +0000
Subject: [PATCH 11/25] fix: draw_points returned None instead of the frame
 when there is nothing to draw

---
 norfair/drawing/draw_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/drawing/draw_points.py b/norfair/drawing/draw_points.py
index e513e30..23edaf5 100644
--- a/norfair/drawing/draw_points.py
+++ b/norfair/drawing/draw_points.py
@@ -113,7 +113,7 @@ def draw_points(
     # end
 
     if drawables is None:
-        return
+        return frame
 
     if text_color is not None:
         text_color = parse_color(text_color)
-- 
2.43.0


From b597cb3bdc93c59e938a98a32c803a40819f4315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:54 +0000
Subject: [PATCH 12/25] fix: draw_points failed on objects without live points
 when hide_dead_points is False

---
 norfair/drawing/draw_points.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/norfair/drawing/draw_points.py b/norfair/drawing/draw_points.py
index 23edaf5..3534fb5 100644
--- a/norfair/drawing/draw_points.py
+++ b/norfair/drawing/draw_points.py
@@ -160,7 +160,9 @@ def draw_points(
                     )
 
         if draw_labels or draw_ids or draw_scores:
-            position = d.points[d.live_points].mean(axis=0)
+            position = (
+                d.points[d.live_points] if d.live_points.any() else d.points
+            ).mean(axis=0)
             position -= radius
             text = _build_text(
                 d, draw_labels=draw_labels, draw_ids=draw_ids, draw_scores=draw_scores
-- 
2.43.0


From 7a05119a9213f64a96f84219b1955e78a749e18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:54 +0000
Subject: [PATCH 13/25] fix: upper case hex colors, documented as valid, were
 rejected

---
 norfair/drawing/color.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/drawing/color.py b/norfair/drawing/color.py
index 40fc4d9..b38a9fb 100644
--- a/norfair/drawing/color.py
+++ b/norfair/drawing/color.py
@@ -25,14 +25,14 @@ def hex_to_bgr(hex_value: str) -> ColorType:
     ValueError
         if the string is invalid
     """
-    if re.match("#[a-f0-9]{6}$", hex_value):
+    if re.match("#[a-fA-F0-9]{6}$", hex_value):
         return (
             int(hex_value[5:7], 16),
             int(hex_value[3:5], 16),
             int(hex_value[1:3], 16),
         )
 
-    if re.match("#[a-f0-9]{3}$", hex_value):
+    if re.match("#[a-fA-F0-9]{3}$", hex_value):
         return (
             int(hex_value[3] * 2, 16),
             int(hex_value[2] * 2, 16),
-- 
2.43.0


From 6bde35d8badbcd32f7794657d5a71f0c38a1fe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:54 +0000
Subject: [PATCH 14/25] fix: detection files with a single row could not be
 parsed

---
 norfair/metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index b1e056d..c4ff923 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -110,7 +110,9 @@ class DetectionFileParser:
         # frame, id, bb_left, bb_top, bb_right, bb_down, conf, x, y, z
         detections_path = os.path.join(input_path, "det/det.txt")
 
-        self.matrix_detections = np.loadtxt(detections_path, dtype="f", delimiter=",")
+        self.matrix_detections = np.loadtxt(
+            detections_path, dtype="f", delimiter=",", ndmin=2
+        )
         row_order = np.argsort(self.matrix_detections[:, 0])
         self.matrix_detections = self.matrix_detections[row_order]
         # Coordinates refer to box corners
-- 
2.43.0


From 1f68b3337887fd265a5bb3cb0c055e8670bde60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:54 +0000
Subject: [PATCH 15/25] fix: metrics of a sequence with a single prediction
 could not be computed

---
 norfair/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index c4ff923..b68f9fb 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -205,7 +205,7 @@ class Accumulators:
                 -1,
             ]
             if np.shape(self.matrix_predictions)[0] == 0:
-                self.matrix_predictions = new_row
+                self.matrix_predictions = [new_row]
             else:
                 self.matrix_predictions = np.vstack((self.matrix_predictions, new_row))
         self.frame_number += 1
-- 
2.43.0


From 8c1d8186fb6825df671885922fa358bfcb8c03a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:54 +0000
Subject: [PATCH 16/25] fix: print_objects_as_table failed on objects that were
 not matched yet

---
 norfair/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/utils.py b/norfair/utils.py
index 98e0d90..f495e9e 100644
--- a/norfair/utils.py
+++ b/norfair/utils.py
@@ -41,7 +41,7 @@ def print_objects_as_table(tracked_objects: Sequence):
             str(obj.id),
             str(obj.age),
             str(obj.hit_counter),
-            f"{obj.last_distance:.4f}",
+            "None" if obj.last_distance is None else f"{obj.last_distance:.4f}",
             str(obj.initializing_id),
         )
     console.print(table)
-- 
2.43.0


From 341ced2799bc2d05fccb7aecdddba2b0429825aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:54 +0000
Subject: [PATCH 17/25] fix: get_cutout returned the wrong area for points
 outside of the image

---
 norfair/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/norfair/utils.py b/norfair/utils.py
index f495e9e..6fe3e3f 100644
--- a/norfair/utils.py
+++ b/norfair/utils.py
@@ -60,10 +60,11 @@ def get_terminal_size(default: Tuple[int, int] = (80, 24)) -> Tuple[int, int]:
 
 def get_cutout(points, image):
     """Returns a rectangular cut-out from a set of points on an image"""
-    max_x = int(max(points[:, 0]))
-    min_x = int(min(points[:, 0]))
-    max_y = int(max(points[:, 1]))
-    min_y = int(min(points[:, 1]))
+    # Negative indices would wrap around to the other side of the image
+    max_x = max(int(max(points[:, 0])), 0)
+    min_x = max(int(min(points[:, 0])), 0)
+    max_y = max(int(max(points[:, 1])), 0)
+    min_y = max(int(min(points[:, 1])), 0)
     return image[min_y:max_y, min_x:max_x]
 
 
-- 
2.43.0


From 4531685674e1c26c058e1478f29ac439d52cc153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 18/25] fix: vectorized distances failed on subclasses of
 Detection

---
 norfair/distances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/distances.py b/norfair/distances.py
index 57eed2d..35c9825 100644
--- a/norfair/distances.py
+++ b/norfair/distances.py
@@ -169,7 +169,7 @@ class VectorizedDistance(Distance):
             stacked_candidates = []
             for c in candidates:
                 if c.label == label:
-                    if "Detection" in str(type(c)):
+                    if hasattr(c, "points"):
                         stacked_candidates.append(c.points.ravel())
                     else:
                         stacked_candidates.append(c.estimate.ravel())
-- 
2.43.0


From a5135c60d3a15ed7e1d527387db18c0b011642f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:54 +0000
Subject: [PATCH 19/25] fix: InformationFile.search returned a variable whose
 name merely starts with the requested one

---
 norfair/metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index b68f9fb..29ee608 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -26,7 +26,8 @@ class InformationFile:
 
     def search(self, variable_name):
         for line in self.lines:
-            if line[: len(variable_name)] == variable_name:
+            # Compare the whole name, not just the beginning of it
+            if line[: len(variable_name) + 1] == variable_name + "=":
                 result = line[len(variable_name) + 1 :]
                 break
         else:
-- 
2.43.0


From af2e82a8198f27ca67981153539092b8b5424a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:54 +0000
Subject: [PATCH 20/25] fix: detection files without detections could not be
 parsed

---
 norfair/metrics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index 29ee608..5f72cb8 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -114,6 +114,9 @@ class DetectionFileParser:
         self.matrix_detections = np.loadtxt(
             detections_path, dtype="f", delimiter=",", ndmin=2
         )
+        if self.matrix_detections.size == 0:
+            # The file has no detections, only the columns are known
+            self.matrix_detections = self.matrix_detections.reshape(0, 10)
         row_order = np.argsort(self.matrix_detections[:, 0])
         self.matrix_detections = self.matrix_detections[row_order]
         # Coordinates refer to box corners
-- 
2.43.0


From f8d796fcffc8d0bd96bd5d2e4036e3fdd62fd936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:55 +0000
Subject: [PATCH 21/25] fix: Accumulators.update failed without predictions,
 its default

---
 norfair/metrics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index 5f72cb8..6b2e589 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -194,6 +194,8 @@ class Accumulators:
         )
 
     def update(self, predictions=None):
+        if predictions is None:
+            predictions = []
         # Get the tracked boxes from this frame in an array
         for obj in predictions:
             new_row = [
-- 
2.43.0


From f93025236a97ab875c091c70ce6565f898715aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:31 +0000
Subject: [PATCH 22/25] fix: vectorized distances failed when objects and
 detections shared a NaN label

---
 norfair/distances.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/norfair/distances.py b/norfair/distances.py
index 35c9825..e9d25b0 100644
--- a/norfair/distances.py
+++ b/norfair/distances.py
@@ -159,6 +159,9 @@ class VectorizedDistance(Distance):
             # generate masks of the subset of object and detections for this label
             obj_mask = np.array([l == label for l in object_labels])
             cand_mask = np.array([l == label for l in candidate_labels])
+            # Labels that don't equal themselves (nan) match nothing
+            if not (obj_mask.any() and cand_mask.any()):
+                continue
 
             stacked_objects = []
             for o in objects:
-- 
2.43.0


From b8403ba4ed3aa5fa81f01010afbf6fcbc76c1639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:20 +0000
Subject: [PATCH 23/25] fix: color_by_label=False and random_color=False
 selected the color strategy they switch off

---
 norfair/drawing/draw_boxes.py  | 6 ++++--
 norfair/drawing/draw_points.py | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/norfair/drawing/draw_boxes.py b/norfair/drawing/draw_boxes.py
index 57789db..756fa25 100644
--- a/norfair/drawing/draw_boxes.py
+++ b/norfair/drawing/draw_boxes.py
@@ -100,12 +100,14 @@ def draw_boxes(
         warn_once(
             'Parameter "random_color" is deprecated, set `color="random"` instead'
         )
-        color = "random"
+        if random_color:
+            color = "random"
     if color_by_label is not None:
         warn_once(
             'Parameter "color_by_label" is deprecated, set `color="by_label"` instead'
         )
-        color = "by_label"
+        if color_by_label:
+            color = "by_label"
     if detections is not None:
         warn_once('Parameter "detections" is deprecated, use "drawables" instead')
         drawables = detections
diff --git a/norfair/drawing/draw_points.py b/norfair/drawing/draw_points.py
index 3534fb5..736ba7c 100644
--- a/norfair/drawing/draw_points.py
+++ b/norfair/drawing/draw_points.py
@@ -99,7 +99,8 @@ def draw_points(
         warn_once(
             'Parameter "color_by_label" on function draw_points is deprecated, set `color="by_label"` instead'
         )
-        color = "by_label"
+        if color_by_label:
+            color = "by_label"
     if detections is not None:
         warn_once(
             "Parameter 'detections' on function draw_points is deprecated, use 'drawables' instead"
-- 
2.43.0


From 76745e07f64302acda6bd7c8c388e4d5d0101645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:15 +0000
Subject: [PATCH 24/25] fix: distances rounded to single precision could match
 at the threshold or tie when one is closer

---
 norfair/distances.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/distances.py b/norfair/distances.py
index e9d25b0..afeec84 100644
--- a/norfair/distances.py
+++ b/norfair/distances.py
@@ -87,7 +87,7 @@ class ScalarDistance(Distance):
         distance_matrix = np.full(
             (len(candidates), len(objects)),
             fill_value=np.inf,
-            dtype=np.float32,
+            dtype=np.float64,
         )
         if not objects or not candidates:
             return distance_matrix
@@ -146,7 +146,7 @@ class VectorizedDistance(Distance):
         distance_matrix = np.full(
             (len(candidates), len(objects)),
             fill_value=np.inf,
-            dtype=np.float32,
+            dtype=np.float64,
         )
         if not objects or not candidates:
             return distance_matrix
-- 
2.43.0


From df2024ba1ebee78c07ea6ba3e26e764ec21bd6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:08 +0000
Subject: [PATCH 25/25] fix: load_motchallenge raises the missing dependency
 error without pandas

The stand-in was bound to the name pandas instead of pd, so that without the
metrics extra load_motchallenge failed with a NameError instead of the
ImportError which tells what to install.
---
 norfair/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index 6b2e589..32f284b 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -13,7 +13,7 @@ except ImportError:
     from .utils import DummyMOTMetricsImport
 
     mm = DummyMOTMetricsImport()
-    pandas = DummyMOTMetricsImport()
+    pd = DummyMOTMetricsImport()
 from collections import OrderedDict
 
 
-- 
2.43.0

