From c9291364867629050f9f2affb2b0d05e49da8ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 01/18] fix: subtracting polygonal geometry from linear one
 duplicated segments

---
 rene/_clipping/difference.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/rene/_clipping/difference.py b/rene/_clipping/difference.py
index 5aea7a6..e5b6d91 100644
--- a/rene/_clipping/difference.py
+++ b/rene/_clipping/difference.py
@@ -20,7 +20,7 @@ from rene._utils import (
 from rene.enums import Orientation
 
 from . import linear, mixed, shaped
-from .event import Event, is_event_right
+from .event import Event, is_event_left, is_event_right
 
 
 class LinearDifference(linear.Operation[hints.ScalarT]):
@@ -239,7 +239,8 @@ def subtract_multipolygon_from_multisegmental(
     for event in operation:
         if operation.to_event_start(event).x > minuend_max_x:
             break
-        events.append(event)
+        if is_event_left(event):
+            events.append(event)
     segments = operation.reduce_events(events, segment_cls)
     segments.extend(
         minuend_segments[index]
@@ -382,7 +383,8 @@ def subtract_multipolygon_from_segment(
     for event in operation:
         if operation.to_event_start(event).x > minuend_max_x:
             break
-        events.append(event)
+        if is_event_left(event):
+            events.append(event)
     return collect_maybe_empty_segments(
         operation.reduce_events(events, segment_cls),
         empty_cls,
@@ -689,7 +691,8 @@ def subtract_polygon_from_multisegmental(
     for event in operation:
         if operation.to_event_start(event).x > minuend_max_x:
             break
-        events.append(event)
+        if is_event_left(event):
+            events.append(event)
     segments = operation.reduce_events(events, segment_cls)
     segments.extend(
         minuend_segments[index]
@@ -803,7 +806,8 @@ def subtract_polygon_from_segment(
     for event in operation:
         if operation.to_event_start(event).x > minuend_max_x:
             break
-        events.append(event)
+        if is_event_left(event):
+            events.append(event)
     return collect_maybe_empty_segments(
         operation.reduce_events(events, segment_cls),
         empty_cls,
-- 
2.43.0


From e08c35b27f8bf2c5f9229d1802c65112907edb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 02/18] fix: subtracting polygonal geometry from linear one
 running along bounding box border

---
 rene/_clipping/difference.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rene/_clipping/difference.py b/rene/_clipping/difference.py
index e5b6d91..176e837 100644
--- a/rene/_clipping/difference.py
+++ b/rene/_clipping/difference.py
@@ -178,7 +178,7 @@ def subtract_multipolygon_from_multisegmental(
         minuend.bounding_box,
         subtrahend.bounding_box,
     )
-    if do_boxes_have_no_common_area(
+    if do_boxes_have_no_common_continuum(
         minuend_bounding_box, subtrahend_bounding_box
     ):
         return minuend
@@ -340,7 +340,7 @@ def subtract_multipolygon_from_segment(
         minuend.bounding_box,
         subtrahend.bounding_box,
     )
-    if do_boxes_have_no_common_area(
+    if do_boxes_have_no_common_continuum(
         minuend_bounding_box, subtrahend_bounding_box
     ):
         return minuend
@@ -646,7 +646,7 @@ def subtract_polygon_from_multisegmental(
         minuend.bounding_box,
         subtrahend.bounding_box,
     )
-    if do_boxes_have_no_common_area(
+    if do_boxes_have_no_common_continuum(
         minuend_bounding_box, subtrahend_bounding_box
     ):
         return minuend
@@ -779,7 +779,7 @@ def subtract_polygon_from_segment(
         minuend.bounding_box,
         subtrahend.bounding_box,
     )
-    if do_boxes_have_no_common_area(
+    if do_boxes_have_no_common_continuum(
         minuend_bounding_box, subtrahend_bounding_box
     ):
         return minuend
-- 
2.43.0


From f3c54a07316ac2385f699108155965332eafc076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 03/18] fix: linear-shaped relation sweep never removed ended
 segments

---
 rene/_relating/mixed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rene/_relating/mixed.py b/rene/_relating/mixed.py
index 9719c02..af6ce7b 100644
--- a/rene/_relating/mixed.py
+++ b/rene/_relating/mixed.py
@@ -473,7 +473,7 @@ class Operation(ABC, Generic[hints.ScalarT]):
 
     def _remove(self, event: Event, /) -> None:
         assert is_event_left(event)
-        self._sweep_line_data[self._to_sweep_line_key(event)] = event
+        del self._sweep_line_data[self._to_sweep_line_key(event)]
 
     def _to_left_event(self, event: Event, /) -> Event:
         return (
-- 
2.43.0


From 8099ec6c92c2c09eb8d3e4c420aabc3ebb767a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 04/18] fix: relating multipolygon to multisegmental when no
 polygon bounding box intersects

---
 rene/_relating/multipolygon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rene/_relating/multipolygon.py b/rene/_relating/multipolygon.py
index 9293f59..0e57016 100644
--- a/rene/_relating/multipolygon.py
+++ b/rene/_relating/multipolygon.py
@@ -249,6 +249,8 @@ def relate_to_multisegmental(
     intersecting_polygons_ids = to_boxes_ids_with_intersection(
         multipolygon_boxes, multisegmental_bounding_box
     )
+    if not intersecting_polygons_ids:
+        return Relation.DISJOINT
     min_max_x = min(
         max(
             multipolygon_boxes[polygon_id].max_x
-- 
2.43.0


From f89dfa25af94aabd36962a3cad524de6b1d7e9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 05/18] fix: shaped-linear relation was not complemented

---
 rene/_relating/mixed.py        | 12 ++++++++++++
 rene/_relating/multipolygon.py |  6 +++---
 rene/_relating/polygon.py      |  6 +++---
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/rene/_relating/mixed.py b/rene/_relating/mixed.py
index af6ce7b..0c76293 100644
--- a/rene/_relating/mixed.py
+++ b/rene/_relating/mixed.py
@@ -564,6 +564,18 @@ class ShapedLinearOperation(Operation[hints.ScalarT]):
             self._to_left_event(event)
         )
 
+    def to_relation(
+        self, /, *, linear_is_subset_of_shaped: bool, min_max_x: hints.ScalarT
+    ) -> Relation:
+        return (
+            super()
+            .to_relation(
+                linear_is_subset_of_shaped=linear_is_subset_of_shaped,
+                min_max_x=min_max_x,
+            )
+            .complement
+        )
+
 
 class RelationState(Generic[hints.ScalarT]):
     def update(
diff --git a/rene/_relating/multipolygon.py b/rene/_relating/multipolygon.py
index 0e57016..f249fa2 100644
--- a/rene/_relating/multipolygon.py
+++ b/rene/_relating/multipolygon.py
@@ -232,12 +232,12 @@ def relate_to_multisegmental(
         )
         return (
             Relation.TOUCH
-            if relation is Relation.COMPONENT
+            if relation is Relation.COMPOSITE
             else (
                 Relation.CROSS
                 if (
-                    relation is Relation.ENCLOSED
-                    or relation is Relation.WITHIN
+                    relation is Relation.ENCLOSES
+                    or relation is Relation.COVER
                 )
                 else relation
             )
diff --git a/rene/_relating/polygon.py b/rene/_relating/polygon.py
index 8939f9c..b94d750 100644
--- a/rene/_relating/polygon.py
+++ b/rene/_relating/polygon.py
@@ -168,12 +168,12 @@ def relate_to_multisegmental(
         )
         return (
             Relation.TOUCH
-            if relation is Relation.COMPONENT
+            if relation is Relation.COMPOSITE
             else (
                 Relation.CROSS
                 if (
-                    relation is Relation.ENCLOSED
-                    or relation is Relation.WITHIN
+                    relation is Relation.ENCLOSES
+                    or relation is Relation.COVER
                 )
                 else relation
             )
-- 
2.43.0


From 009d04b7fe855f78f69cfe44fd480fef5aed78b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 06/18] fix: linear-shaped relation missed overlaps of segments
 divided out of order

---
 rene/_relating/mixed.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rene/_relating/mixed.py b/rene/_relating/mixed.py
index 0c76293..51b6415 100644
--- a/rene/_relating/mixed.py
+++ b/rene/_relating/mixed.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
 from abc import ABC, abstractmethod
-from itertools import chain, groupby
+from itertools import groupby
 from typing import Generic, TYPE_CHECKING
 
 from dendroid import red_black
@@ -586,11 +586,12 @@ class RelationState(Generic[hints.ScalarT]):
         if operation.has_border_intersection(same_start_events):
             if not self.linear_intersects_shaped_border:
                 self.linear_intersects_shaped_border = True
-            for _, group in chain(
-                groupby(
+            for _, group in groupby(
+                sorted(
                     filter(is_event_left, same_start_events),
                     key=operation.to_event_end,
-                )
+                ),
+                key=operation.to_event_end,
             ):
                 event = next(group)
                 if next(group, None) is not None:
-- 
2.43.0


From e3fcc14a83c94462a4cacfa91c312c8f283a0b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 07/18] fix: linear relation missed overlaps of segments
 divided out of order

---
 rene/_relating/linear.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rene/_relating/linear.py b/rene/_relating/linear.py
index c03a5f6..6ae96b1 100644
--- a/rene/_relating/linear.py
+++ b/rene/_relating/linear.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from itertools import chain, groupby
+from itertools import groupby
 from typing import Any, Generic, TYPE_CHECKING
 
 from dendroid import red_black
@@ -579,11 +579,12 @@ class RelationState(Generic[hints.ScalarT]):
         same_start_events: Sequence[Event],
         operation: Operation[hints.ScalarT],
     ) -> None:
-        for _, group in chain(
-            groupby(
+        for _, group in groupby(
+            sorted(
                 filter(is_event_left, same_start_events),
                 key=operation.to_event_end,
-            )
+            ),
+            key=operation.to_event_end,
         ):
             event = next(group)
             if next(group, None) is not None:
-- 
2.43.0


From 1c4a19d3e5199cd946dc7025d7c605ed6dd460b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 08/18] fix: linear crossing detection at points with more than
 two rays of operand

---
 rene/_relating/linear.py | 85 ++++++++++++++++------------------------
 1 file changed, 33 insertions(+), 52 deletions(-)

diff --git a/rene/_relating/linear.py b/rene/_relating/linear.py
index 6ae96b1..5de9c9d 100644
--- a/rene/_relating/linear.py
+++ b/rene/_relating/linear.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from itertools import groupby
+from itertools import combinations, groupby
 from typing import Any, Generic, TYPE_CHECKING
 
 from dendroid import red_black
@@ -8,7 +8,7 @@ from prioq.base import PriorityQueue
 from typing_extensions import Self
 
 from rene import hints
-from rene._utils import all_same, is_even, square, to_sorted_pair
+from rene._utils import all_same, is_even, to_sorted_pair
 from rene.enums import Orientation, Relation
 
 from .event import Event, is_event_left, is_event_right, left_event_to_position
@@ -68,31 +68,16 @@ class Operation(Generic[hints.ScalarT]):
                 else from_second_events
             ).append(event)
         start = self.to_event_start(same_start_events[0])
-        base_event = min(
-            from_second_events,
-            key=lambda event: self.to_signed_point_event_squared_cosine(
-                self.to_event_end(from_second_events[0]), event
-            ),
-        )
-        base_end = self.to_event_end(base_event)
-        largest_angle_event = min(
-            from_second_events,
-            key=lambda event: self.to_signed_point_event_squared_cosine(
-                base_end, event
-            ),
-        )
-        largest_angle_end = self.to_event_end(largest_angle_event)
-        base_orientation = self._orienteer(start, base_end, largest_angle_end)
-        return not all_same(
-            is_point_in_angle(
-                self.to_event_end(event),
+        return any(
+            self._divides_angle(
+                from_first_events,
                 start,
-                base_end,
-                largest_angle_end,
-                base_orientation,
-                self._orienteer,
+                self.to_event_end(first_ray_event),
+                self.to_event_end(second_ray_event),
+            )
+            for first_ray_event, second_ray_event in combinations(
+                from_second_events, 2
             )
-            for event in from_first_events
         )
 
     def has_intersection(self, same_start_events: Sequence[Event]) -> bool:
@@ -408,6 +393,29 @@ class Operation(Generic[hints.ScalarT]):
         self._divide_event_by_midpoint(max_start_event, min_end)
         self._divide_event_by_midpoint(min_start_event, max_start)
 
+    def _divides_angle(
+        self,
+        events: Sequence[Event],
+        vertex: hints.Point[hints.ScalarT],
+        first_ray_point: hints.Point[hints.ScalarT],
+        second_ray_point: hints.Point[hints.ScalarT],
+        /,
+    ) -> bool:
+        angle_orientation = self._orienteer(
+            vertex, first_ray_point, second_ray_point
+        )
+        return not all_same(
+            is_point_in_angle(
+                self.to_event_end(event),
+                vertex,
+                first_ray_point,
+                second_ray_point,
+                angle_orientation,
+                self._orienteer,
+            )
+            for event in events
+        )
+
     def _find(self, event: Event, /) -> Event | None:
         assert is_event_left(event)
         return self._sweep_line_data.get(self._to_sweep_line_key(event))
@@ -477,27 +485,6 @@ class Operation(Generic[hints.ScalarT]):
             orienteer=self._orienteer,
         )
 
-    def to_signed_point_event_squared_cosine(
-        self, point: hints.Point[hints.ScalarT], event: Event
-    ) -> hints.ScalarT:
-        start = self.to_event_start(event)
-        end = self.to_event_end(event)
-        dot_product = dot_multiply(start, point, start, end)
-        return (
-            square(dot_product) if dot_product > 0 else -square(dot_product)
-        ) / squared_distance(start, end)
-
-
-def dot_multiply(
-    first_start: hints.Point[hints.ScalarT],
-    first_end: hints.Point[hints.ScalarT],
-    second_start: hints.Point[hints.ScalarT],
-    second_end: hints.Point[hints.ScalarT],
-) -> hints.ScalarT:
-    return (first_end.x - first_start.x) * (second_end.x - second_start.x) + (
-        first_end.y - first_start.y
-    ) * (second_end.y - second_start.y)
-
 
 def has_two_elements(iterator: Iterator[Any]) -> bool:
     return (
@@ -535,12 +522,6 @@ def is_point_in_angle(
     )
 
 
-def squared_distance(
-    start: hints.Point[hints.ScalarT], end: hints.Point[hints.ScalarT]
-) -> hints.ScalarT:
-    return square(start.x - end.x) + square(start.y - end.y)
-
-
 class RelationState(Generic[hints.ScalarT]):
     def update(
         self,
-- 
2.43.0


From 9c29d1ca4c3caae6dacdcf6a81303b740601928f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 09/18] fix: segment-polygon relation for segments passing
 along or through border points

---
 rene/_relating/segment.py           |  89 ++--------
 rene/_relating/segment_endpoints.py | 242 ----------------------------
 2 files changed, 12 insertions(+), 319 deletions(-)

diff --git a/rene/_relating/segment.py b/rene/_relating/segment.py
index 7391910..0c9610b 100644
--- a/rene/_relating/segment.py
+++ b/rene/_relating/segment.py
@@ -10,7 +10,6 @@ from . import mixed
 from .segment_endpoints import (
     relate_to_contour as relate_endpoints_to_contour,
     relate_to_multisegment as relate_endpoints_to_multisegment,
-    relate_to_region as relate_endpoints_to_region,
     relate_to_segment_endpoints as relate_endpoints_to_endpoints,
 )
 from .utils import polygon_to_segments
@@ -74,36 +73,6 @@ def relate_to_multipolygon(
     ).to_relation(linear_is_subset_of_shaped=True, min_max_x=min_max_x)
 
 
-def relate_to_multiregion(
-    segment: hints.Segment[hints.ScalarT],
-    borders: t.Sequence[hints.Contour[hints.ScalarT]],
-    orienteer: Orienteer[hints.ScalarT],
-    segments_intersector: SegmentsIntersector[hints.ScalarT],
-    /,
-) -> Relation:
-    assert len(borders) > 1, borders
-    segment_bounding_box = segment.bounding_box
-    regions_bounding_boxes = [border.bounding_box for border in borders]
-    intersecting_borders_ids = to_boxes_ids_with_intersection(
-        regions_bounding_boxes, segment_bounding_box
-    )
-    if not intersecting_borders_ids:
-        return Relation.DISJOINT
-    min_max_x = min(
-        segment_bounding_box.max_x,
-        max(
-            regions_bounding_boxes[border_id].max_x
-            for border_id in intersecting_borders_ids
-        ),
-    )
-    return mixed.LinearShapedOperation.from_segments_iterables(
-        [segment],
-        [edge for border in borders for edge in border.segments],
-        orienteer,
-        segments_intersector,
-    ).to_relation(linear_is_subset_of_shaped=True, min_max_x=min_max_x)
-
-
 def relate_to_multisegment(
     segment: hints.Segment[hints.ScalarT],
     multisegment: hints.Multisegment[hints.ScalarT],
@@ -127,53 +96,19 @@ def relate_to_polygon(
     segments_intersector: SegmentsIntersector[hints.ScalarT],
     /,
 ) -> Relation:
-    relation_without_holes = relate_to_region(
-        segment, polygon.border, reverse_orientation=False, orienteer=orienteer
-    )
-    holes = polygon.holes
-    if holes and (
-        relation_without_holes is Relation.WITHIN
-        or relation_without_holes is Relation.ENCLOSED
-    ):
-        relation_with_holes = (
-            relate_to_region(
-                segment,
-                holes[0],
-                reverse_orientation=True,
-                orienteer=orienteer,
-            )
-            if len(holes) == 1
-            else relate_to_multiregion(
-                segment, holes, orienteer, segments_intersector
-            )
-        )
-        if relation_with_holes is Relation.DISJOINT:
-            return relation_without_holes
-        if relation_with_holes is Relation.TOUCH:
-            return Relation.ENCLOSED
-        if relation_with_holes is Relation.ENCLOSED:
-            return Relation.TOUCH
-        if relation_with_holes is Relation.WITHIN:
-            return Relation.DISJOINT
-        return relation_with_holes
-    return relation_without_holes
-
-
-def relate_to_region(
-    segment: hints.Segment[hints.ScalarT],
-    border: hints.Contour[hints.ScalarT],
-    /,
-    *,
-    reverse_orientation: bool,
-    orienteer: Orienteer[hints.ScalarT],
-) -> Relation:
-    return relate_endpoints_to_region(
-        segment.start,
-        segment.end,
-        border,
-        reverse_orientation=reverse_orientation,
-        orienteer=orienteer,
+    polygon_bounding_box, segment_bounding_box = (
+        polygon.bounding_box,
+        segment.bounding_box,
     )
+    if polygon_bounding_box.disjoint_with(segment_bounding_box):
+        return Relation.DISJOINT
+    min_max_x = min(segment_bounding_box.max_x, polygon_bounding_box.max_x)
+    return mixed.LinearShapedOperation.from_segments_iterables(
+        [segment],
+        polygon_to_segments(polygon, segment_bounding_box),
+        orienteer,
+        segments_intersector,
+    ).to_relation(linear_is_subset_of_shaped=True, min_max_x=min_max_x)
 
 
 def relate_to_segment(
diff --git a/rene/_relating/segment_endpoints.py b/rene/_relating/segment_endpoints.py
index 493ed13..972819c 100644
--- a/rene/_relating/segment_endpoints.py
+++ b/rene/_relating/segment_endpoints.py
@@ -348,245 +348,3 @@ def relate_to_segment_endpoints(
             return Relation.TOUCH
         return Relation.DISJOINT
     return Relation.CROSS
-
-
-def relate_to_region(
-    start: hints.Point[hints.ScalarT],
-    end: hints.Point[hints.ScalarT],
-    border: hints.Contour[hints.ScalarT],
-    /,
-    *,
-    reverse_orientation: bool,
-    orienteer: Orienteer[hints.ScalarT],
-) -> Relation:
-    edges = border.segments
-    relation_with_border = _relate_to_region_border(
-        start, end, edges, orienteer
-    )
-    if (
-        relation_with_border is Relation.CROSS
-        or relation_with_border is Relation.COMPONENT
-    ):
-        return relation_with_border
-    start_index, start_location = _locate_point_in_region(
-        edges, start, orienteer
-    )
-    if relation_with_border is Relation.DISJOINT:
-        return (
-            Relation.DISJOINT
-            if start_location is Location.EXTERIOR
-            else Relation.WITHIN
-        )
-    if start_location is Location.EXTERIOR:
-        return Relation.TOUCH
-    if start_location is Location.INTERIOR:
-        return Relation.ENCLOSED
-    assert start_index is not None
-    end_index, end_location = _locate_point_in_region(edges, end, orienteer)
-    if end_location is Location.EXTERIOR:
-        return Relation.TOUCH
-    if end_location is Location.INTERIOR:
-        return Relation.ENCLOSED
-    assert end_index is not None
-    assert end_location is Location.BOUNDARY, end_location
-    edge = edges[start_index]
-    edge_start, edge_end = edge.start, edge.end
-    border_orientation = (
-        Orientation.CLOCKWISE
-        if reverse_orientation
-        else Orientation.COUNTERCLOCKWISE
-    )
-    if start == edge_start:
-        prev_start = (
-            edges[(start_index + 1) % len(edges)].end
-            if reverse_orientation
-            else edges[start_index - 1].start
-        )
-        if orienteer(prev_start, edge_start, edge_end) is border_orientation:
-            if (
-                orienteer(edge_start, prev_start, end) is border_orientation
-            ) or (orienteer(edge_end, edge_start, end) is border_orientation):
-                return Relation.TOUCH
-        elif (
-            orienteer(edge_start, prev_start, end)
-            is orienteer(edge_end, edge_start, end)
-            is border_orientation
-        ):
-            return Relation.TOUCH
-    elif start == edge_end:
-        next_end = (
-            edges[start_index - 1].start
-            if reverse_orientation
-            else edges[(start_index + 1) % len(edges)].end
-        )
-        if (
-            orienteer(edge_start, edge_end, next_end) is border_orientation
-        ) and (
-            (orienteer(edge_end, edge_start, end) is border_orientation)
-            or (orienteer(next_end, edge_end, end) is border_orientation)
-            or (
-                orienteer(edge_end, edge_start, end)
-                is orienteer(next_end, edge_end, end)
-                is border_orientation
-            )
-        ):
-            return Relation.TOUCH
-    elif orienteer(edge_end, edge_start, end) is border_orientation:
-        return Relation.TOUCH
-    edge = edges[end_index]
-    edge_start, edge_end = edge.start, edge.end
-    if end == edge_start:
-        prev_start = (
-            edges[(end_index + 1) % len(edges)].end
-            if reverse_orientation
-            else edges[end_index - 1].start
-        )
-        if orienteer(prev_start, edge_start, edge_end) is border_orientation:
-            if (
-                orienteer(edge_start, prev_start, start) is border_orientation
-            ) or (
-                orienteer(edge_end, edge_start, start) is border_orientation
-            ):
-                return Relation.TOUCH
-        elif (
-            orienteer(edge_start, prev_start, start)
-            is orienteer(edge_end, edge_start, start)
-            is border_orientation
-        ):
-            return Relation.TOUCH
-    elif end == edge_end:
-        next_end = (
-            edges[end_index - 1].start
-            if reverse_orientation
-            else edges[(end_index + 1) % len(edges)].end
-        )
-        if orienteer(edge_start, edge_end, next_end) is border_orientation:
-            if (
-                orienteer(edge_end, edge_start, start) is border_orientation
-            ) or (orienteer(next_end, edge_end, start) is border_orientation):
-                return Relation.TOUCH
-        elif (
-            orienteer(edge_end, edge_start, start)
-            is orienteer(next_end, edge_end, start)
-            is border_orientation
-        ):
-            return Relation.TOUCH
-    elif orienteer(edge_end, edge_start, start) is border_orientation:
-        return Relation.TOUCH
-    return Relation.ENCLOSED
-
-
-def _relate_to_region_border(
-    start: hints.Point[hints.ScalarT],
-    end: hints.Point[hints.ScalarT],
-    edges: t.Sequence[hints.Segment[hints.ScalarT]],
-    orienteer: Orienteer[hints.ScalarT],
-    /,
-) -> Relation:
-    # similar to segment-in-contour check
-    # but cross has higher priority over overlap
-    # because cross with border will be considered as cross with region
-    # whereas overlap with border can't be an overlap with region
-    # and should be classified by further analysis
-    has_touch = has_overlap = False
-    last_touched_edge_index = last_touched_edge_start = None
-    for index, edge in enumerate(edges):
-        edge_start, edge_end = edge.start, edge.end
-        relation_with_edge = relate_to_segment_endpoints(
-            edge_start, edge_end, start, end, orienteer
-        )
-        if (
-            relation_with_edge is Relation.COMPONENT
-            or relation_with_edge is Relation.OVERLAP
-        ):
-            if not has_overlap:
-                has_overlap = True
-        elif (
-            relation_with_edge is Relation.COMPOSITE
-            or relation_with_edge is Relation.EQUAL
-        ):
-            return Relation.COMPONENT
-        elif relation_with_edge is Relation.CROSS:
-            return Relation.CROSS
-        elif relation_with_edge is Relation.TOUCH:
-            if not has_touch:
-                has_touch = True
-            else:
-                assert last_touched_edge_index is not None
-                assert last_touched_edge_start is not None
-                if (
-                    index - last_touched_edge_index == 1
-                    and start != edge_start
-                    and start != edge_end
-                    and end != edge_start
-                    and end != edge_end
-                    and (
-                        orienteer(start, end, edge_start)
-                        is Orientation.COLLINEAR
-                    )
-                    and point_vertex_line_divides_angle(
-                        start,
-                        edge_start,
-                        last_touched_edge_start,
-                        edge_end,
-                        orienteer,
-                    )
-                ):
-                    return Relation.CROSS
-            last_touched_edge_index = index
-            last_touched_edge_start = edge_start
-    if has_touch and last_touched_edge_index == len(edges) - 1:
-        first_edge = edges[0]
-        first_edge_start, first_edge_end = first_edge.start, first_edge.end
-        if (
-            (
-                relate_to_segment_endpoints(
-                    first_edge_start, first_edge_end, start, end, orienteer
-                )
-                is Relation.TOUCH
-            )
-            and start != first_edge_start
-            and start != first_edge_end
-            and end != first_edge_start
-            and end != first_edge_end
-            and (
-                orienteer(start, end, first_edge_start)
-                is Orientation.COLLINEAR
-            )
-            and point_vertex_line_divides_angle(
-                start,
-                first_edge_start,
-                edges[-1].start,
-                first_edge_end,
-                orienteer,
-            )
-        ):
-            return Relation.CROSS
-    return (
-        Relation.OVERLAP
-        if has_overlap
-        else (Relation.TOUCH if has_touch else Relation.DISJOINT)
-    )
-
-
-def _locate_point_in_region(
-    edges: t.Sequence[hints.Segment[hints.ScalarT]],
-    point: hints.Point[hints.ScalarT],
-    orienteer: Orienteer[hints.ScalarT],
-    /,
-) -> tuple[int | None, Location]:
-    result = False
-    point_y = point.y
-    for index, edge in enumerate(edges):
-        start, end = edge.start, edge.end
-        if (
-            locate_point_in_segment(start, end, point, orienteer)
-            is Location.BOUNDARY
-        ):
-            return index, Location.BOUNDARY
-        if (start.y > point_y) is not (end.y > point_y) and (
-            (end.y > start.y)
-            is (orienteer(start, end, point) is Orientation.COUNTERCLOCKWISE)
-        ):
-            result = not result
-    return None, (Location.INTERIOR if result else Location.EXTERIOR)
-- 
2.43.0


From addbb30d6013421df795caa8dbacf58c62bd5729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 10/18] fix: trapezoidation of polygon treated closing edge as
 having interior on wrong side

---
 rene/_seidel/trapezoidation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rene/_seidel/trapezoidation.py b/rene/_seidel/trapezoidation.py
index 6e4fc16..32b239a 100644
--- a/rene/_seidel/trapezoidation.py
+++ b/rene/_seidel/trapezoidation.py
@@ -704,14 +704,14 @@ def _populate_from_contour(
         Edge.from_endpoints(
             first_start_index,
             last_end_index,
-            interior_to_left=is_contour_correctly_oriented,
+            interior_to_left=not is_contour_correctly_oriented,
             orienteer=orienteer,
         )
         if first_start < last_end
         else Edge.from_endpoints(
             last_end_index,
             first_start_index,
-            interior_to_left=not is_contour_correctly_oriented,
+            interior_to_left=is_contour_correctly_oriented,
             orienteer=orienteer,
         )
     )
-- 
2.43.0


From 6b6a693b68c0267d19fa302e5134566aba9e3595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 11/18] fix: restoring Delaunay criterion skipped swapped edges

---
 rene/_triangulation/constrained_delaunay.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/rene/_triangulation/constrained_delaunay.py b/rene/_triangulation/constrained_delaunay.py
index 7af4340..1596ee5 100644
--- a/rene/_triangulation/constrained_delaunay.py
+++ b/rene/_triangulation/constrained_delaunay.py
@@ -701,20 +701,13 @@ def restore_delaunay_criterion(
     orienteer: Orienteer[hints.ScalarT],
     /,
 ) -> None:
-    while True:
-        next_target_edges: list[QuadEdge] = []
-        edges_to_swap: list[QuadEdge] = []
+    has_swapped = True
+    while has_swapped:
+        has_swapped = False
         for edge in candidates:
-            (
-                edges_to_swap
-                if edge_should_be_swapped(mesh, edge, orienteer)
-                else next_target_edges
-            ).append(edge)
-        if not edges_to_swap:
-            break
-        for edge in edges_to_swap:
-            mesh.swap_diagonal(edge)
-        candidates = next_target_edges
+            if edge_should_be_swapped(mesh, edge, orienteer):
+                mesh.swap_diagonal(edge)
+                has_swapped = True
 
 
 def set_constraint(
-- 
2.43.0


From 1d48ebdd0f950681ecb8562e01742d5590a96eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 12/18] fix: uniting and symmetric subtracting of segments
 touching at inner point of one of them

---
 rene/_clipping/symmetric_difference.py |  5 ++++-
 rene/_clipping/union.py                |  5 ++++-
 rene/_utils.py                         | 23 +++++++++++++++++++++++
 3 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/rene/_clipping/symmetric_difference.py b/rene/_clipping/symmetric_difference.py
index 5595599..eda6fe8 100644
--- a/rene/_clipping/symmetric_difference.py
+++ b/rene/_clipping/symmetric_difference.py
@@ -10,6 +10,7 @@ from rene._utils import (
     flags_to_false_indices,
     flags_to_true_indices,
     polygon_to_correctly_oriented_segments,
+    split_segments_at_touch,
     to_boxes_have_common_continuum,
     to_sorted_pair,
 )
@@ -377,7 +378,9 @@ def symmetric_subtract_segment_from_segment(
                     segment_cls(subtrahend_end, minuend_end),
                 ]
             )
-    return multisegment_cls([minuend, subtrahend])
+    return multisegment_cls(
+        split_segments_at_touch(minuend, subtrahend, orienteer, segment_cls)
+    )
 
 
 def symmetric_subtract_multisegmental_from_segment(
diff --git a/rene/_clipping/union.py b/rene/_clipping/union.py
index 768b483..e5f425e 100644
--- a/rene/_clipping/union.py
+++ b/rene/_clipping/union.py
@@ -10,6 +10,7 @@ from rene._utils import (
     flags_to_false_indices,
     flags_to_true_indices,
     polygon_to_correctly_oriented_segments,
+    split_segments_at_touch,
     to_boxes_have_common_continuum,
     to_sorted_pair,
 )
@@ -607,4 +608,6 @@ def unite_segment_with_segment(
         return segment_cls(
             min(first_start, second_start), max(first_end, second_end)
         )
-    return multisegment_cls([first, second])
+    return multisegment_cls(
+        split_segments_at_touch(first, second, orienteer, segment_cls)
+    )
diff --git a/rene/_utils.py b/rene/_utils.py
index e5a9478..947909e 100644
--- a/rene/_utils.py
+++ b/rene/_utils.py
@@ -496,6 +496,29 @@ def validate_seed(
     )
 
 
+def split_segments_at_touch(
+    first: hints.Segment[hints.ScalarT],
+    second: hints.Segment[hints.ScalarT],
+    orienteer: Orienteer[hints.ScalarT],
+    segment_cls: type[hints.Segment[hints.ScalarT]],
+    /,
+) -> list[hints.Segment[hints.ScalarT]]:
+    result = []
+    for segment, other in ((first, second), (second, first)):
+        start, end = to_sorted_pair(segment.start, segment.end)
+        for point in (other.start, other.end):
+            if (
+                start < point < end
+                and orienteer(start, end, point) is Orientation.COLLINEAR
+            ):
+                result.append(segment_cls(start, point))
+                result.append(segment_cls(point, end))
+                break
+        else:
+            result.append(segment)
+    return result
+
+
 def subtract_segments_overlap(
     minuend_start: hints.Point[hints.ScalarT],
     minuend_end: hints.Point[hints.ScalarT],
-- 
2.43.0


From 3c35f6f46aa6a0999323a31ef3dbcb9ad765c294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:29 +0000
Subject: [PATCH 13/18] fix: relation of polygons with clockwise borders or
 counterclockwise holes

---
 rene/_relating/multisegmental.py | 11 +----------
 rene/_relating/utils.py          | 21 +++++++++++++++++++--
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/rene/_relating/multisegmental.py b/rene/_relating/multisegmental.py
index a4326ba..6506699 100644
--- a/rene/_relating/multisegmental.py
+++ b/rene/_relating/multisegmental.py
@@ -289,16 +289,7 @@ def relate_to_polygon(
     ]
     return mixed.LinearShapedOperation.from_segments_iterables(
         intersecting_segments,
-        chain(
-            polygon.border.segments,
-            chain.from_iterable(
-                hole.segments
-                for hole in polygon.holes
-                if not hole.bounding_box.disjoint_with(
-                    multisegmental_bounding_box
-                )
-            ),
-        ),
+        polygon_to_segments(polygon, multisegmental_bounding_box),
         orienteer,
         segments_intersector,
     ).to_relation(
diff --git a/rene/_relating/utils.py b/rene/_relating/utils.py
index 8db4c4a..a4eb9de 100644
--- a/rene/_relating/utils.py
+++ b/rene/_relating/utils.py
@@ -3,6 +3,8 @@ from __future__ import annotations
 import typing as t
 from itertools import chain
 
+from rene.enums import Orientation
+
 if t.TYPE_CHECKING:
     from rene import hints
 
@@ -13,10 +15,25 @@ def polygon_to_segments(
     /,
 ) -> t.Iterable[hints.Segment[hints.ScalarT]]:
     return chain(
-        polygon.border.segments,
+        contour_to_oriented_segments(
+            polygon.border, Orientation.COUNTERCLOCKWISE
+        ),
         chain.from_iterable(
-            hole.segments
+            contour_to_oriented_segments(hole, Orientation.CLOCKWISE)
             for hole in polygon.holes
             if not hole.bounding_box.disjoint_with(bounding_box)
         ),
     )
+
+
+def contour_to_oriented_segments(
+    contour: hints.Contour[hints.ScalarT], orientation: Orientation, /
+) -> t.Iterable[hints.Segment[hints.ScalarT]]:
+    return (
+        contour.segments
+        if contour.orientation is orientation
+        else (
+            type(segment)(segment.end, segment.start)
+            for segment in contour.segments
+        )
+    )
-- 
2.43.0


From b8dc7b94f2c8134492e2dd675212e49900a85dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:29 +0000
Subject: [PATCH 14/18] fix: constrained Delaunay triangulation of polygons
 with clockwise borders or counterclockwise holes

---
 rene/_triangulation/constrained_delaunay.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/rene/_triangulation/constrained_delaunay.py b/rene/_triangulation/constrained_delaunay.py
index 1596ee5..e13ea6f 100644
--- a/rene/_triangulation/constrained_delaunay.py
+++ b/rene/_triangulation/constrained_delaunay.py
@@ -33,8 +33,11 @@ class ConstrainedDelaunayTriangulation(Generic[hints.ScalarT]):
         /,
     ) -> Self:
         contours_vertices = [
-            polygon.border.vertices,
-            *[hole.vertices for hole in polygon.holes],
+            to_oriented_vertices(polygon.border, Orientation.COUNTERCLOCKWISE),
+            *[
+                to_oriented_vertices(hole, Orientation.CLOCKWISE)
+                for hole in polygon.holes
+            ],
         ]
         vertices = list(
             chain.from_iterable(
@@ -763,3 +766,13 @@ def to_constraint_index(
         if abs(second_vertex_index - first_vertex_index) == 1
         else 0
     )
+
+
+def to_oriented_vertices(
+    contour: hints.Contour[hints.ScalarT], orientation: Orientation, /
+) -> Sequence[hints.Point[hints.ScalarT]]:
+    return (
+        contour.vertices
+        if contour.orientation is orientation
+        else contour.vertices[::-1]
+    )
-- 
2.43.0


From 03a7d05a341716a3a7e848ed63555c9602f09df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:11 +0000
Subject: [PATCH 15/18] fix: relation of multisegments when single segment of
 one equals the other

---
 rene/_relating/multisegmental.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rene/_relating/multisegmental.py b/rene/_relating/multisegmental.py
index 6506699..389d634 100644
--- a/rene/_relating/multisegmental.py
+++ b/rene/_relating/multisegmental.py
@@ -143,8 +143,10 @@ def relate_to_multisegmental(
         )
         return (
             Relation.OVERLAP
-            if relation is Relation.COMPONENT or relation is Relation.EQUAL
-            else relation
+            if relation is Relation.COMPONENT
+            else (
+                Relation.COMPOSITE if relation is Relation.EQUAL else relation
+            )
         )
     second_segments = second.segments
     second_boxes = [segment.bounding_box for segment in second_segments]
@@ -178,7 +180,11 @@ def relate_to_multisegmental(
                     )
                 )
             )
-            else relation.complement
+            else (
+                Relation.COMPONENT
+                if relation is Relation.EQUAL
+                else relation.complement
+            )
         )
     max_min_x = max(
         min(
-- 
2.43.0


From 29a72f1d7f34009ec8e301f7d3e08d2578f344c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:11 +0000
Subject: [PATCH 16/18] fix: relation of geometries with no parts within common
 range of abscissas

---
 rene/_relating/multipolygon.py   | 6 ++++--
 rene/_relating/multisegmental.py | 9 ++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/rene/_relating/multipolygon.py b/rene/_relating/multipolygon.py
index f249fa2..d7c335c 100644
--- a/rene/_relating/multipolygon.py
+++ b/rene/_relating/multipolygon.py
@@ -266,13 +266,15 @@ def relate_to_multisegmental(
         for polygon_id in intersecting_polygons_ids
         if multipolygon_boxes[polygon_id].min_x <= min_max_x
     ]
-    assert intersecting_polygons
+    if not intersecting_polygons:
+        return Relation.DISJOINT
     intersecting_segments = [
         multisegmental_segments[segment_id]
         for segment_id in intersecting_segments_ids
         if multisegmental_boxes[segment_id].min_x <= min_max_x
     ]
-    assert intersecting_segments
+    if not intersecting_segments:
+        return Relation.DISJOINT
     return mixed.ShapedLinearOperation.from_segments_iterables(
         chain.from_iterable(
             polygon_to_segments(polygon, multisegmental_bounding_box)
diff --git a/rene/_relating/multisegmental.py b/rene/_relating/multisegmental.py
index 389d634..2e1e940 100644
--- a/rene/_relating/multisegmental.py
+++ b/rene/_relating/multisegmental.py
@@ -92,13 +92,15 @@ def relate_to_multipolygon(
         for segment_id in intersecting_segments_ids
         if multisegmental_boxes[segment_id].min_x <= min_max_x
     ]
-    assert intersecting_segments
+    if not intersecting_segments:
+        return Relation.DISJOINT
     intersecting_polygons = [
         multipolygon_polygons[polygon_id]
         for polygon_id in intersecting_polygons_ids
         if multipolygon_boxes[polygon_id].min_x <= min_max_x
     ]
-    assert intersecting_polygons
+    if not intersecting_polygons:
+        return Relation.DISJOINT
     return mixed.LinearShapedOperation.from_segments_iterables(
         intersecting_segments,
         chain.from_iterable(
@@ -224,7 +226,8 @@ def relate_to_multisegmental(
             and second_boxes[segment_id].min_x <= min_max_x
         )
     ]
-    assert second_intersecting_segments
+    if not second_intersecting_segments:
+        return Relation.DISJOINT
     return linear.Operation.from_segments_iterables(
         first_intersecting_segments,
         second_intersecting_segments,
-- 
2.43.0


From f8d2b0efc17f2bca726817085fc6ff4d0c87fd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:11 +0000
Subject: [PATCH 17/18] fix: relation of multisegments and contours with
 multipolygons when some segments are to the right of intersecting polygons

---
 rene/_relating/multipolygon.py   | 2 +-
 rene/_relating/multisegmental.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rene/_relating/multipolygon.py b/rene/_relating/multipolygon.py
index d7c335c..314dac3 100644
--- a/rene/_relating/multipolygon.py
+++ b/rene/_relating/multipolygon.py
@@ -284,7 +284,7 @@ def relate_to_multisegmental(
         orienteer,
         segments_intersector,
     ).to_relation(
-        linear_is_subset_of_shaped=len(intersecting_segments_ids)
+        linear_is_subset_of_shaped=len(intersecting_segments)
         == len(multisegmental_segments),
         min_max_x=min_max_x,
     )
diff --git a/rene/_relating/multisegmental.py b/rene/_relating/multisegmental.py
index 2e1e940..57469bc 100644
--- a/rene/_relating/multisegmental.py
+++ b/rene/_relating/multisegmental.py
@@ -110,7 +110,7 @@ def relate_to_multipolygon(
         orienteer,
         segments_intersector,
     ).to_relation(
-        linear_is_subset_of_shaped=len(intersecting_segments_ids)
+        linear_is_subset_of_shaped=len(intersecting_segments)
         == len(multisegmental_segments),
         min_max_x=min_max_x,
     )
-- 
2.43.0


From 9f9233174ee9233fc88864d71445657d79fe2caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:17 +0000
Subject: [PATCH 18/18] fix: make Delaunay triangulation of less than two
 points falsy

---
 rene/_triangulation/delaunay.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rene/_triangulation/delaunay.py b/rene/_triangulation/delaunay.py
index c67afa8..4f89a91 100644
--- a/rene/_triangulation/delaunay.py
+++ b/rene/_triangulation/delaunay.py
@@ -9,7 +9,7 @@ from rene._utils import deduplicate
 from rene.enums import Orientation
 
 from .mesh import Mesh, build_delaunay_triangulation, orient_point_to_edge
-from .quad_edge import QuadEdge, to_opposite_edge
+from .quad_edge import QuadEdge, UNDEFINED_EDGE, to_opposite_edge
 
 if TYPE_CHECKING:
     from collections.abc import Sequence
@@ -114,3 +114,9 @@ class DelaunayTriangulation(Generic[hints.ScalarT]):
             right_side,
         )
         return self
+
+    def __bool__(self, /) -> bool:
+        result = bool(self.mesh)
+        assert result is (self.left_side != UNDEFINED_EDGE)
+        assert result is (self.right_side != UNDEFINED_EDGE)
+        return result
-- 
2.43.0

