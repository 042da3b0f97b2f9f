From 1b2f1e30ddc40cd30e3091580153296ec224e32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:30 +0000
Subject: [PATCH 1/6] fix: AVL delete held a borrow of the successor while
 restructuring the tree

Deleting a node with two children kept the successor node borrowed during the
recursive delete, so a rotation involving that node panicked ('already
borrowed') and left a reference cycle behind. Read the value first.
---
 src/data_structure/avl_tree.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data_structure/avl_tree.rs b/src/data_structure/avl_tree.rs
index 6a21925..132b831 100644
--- a/src/data_structure/avl_tree.rs
+++ b/src/data_structure/avl_tree.rs
@@ -89,8 +89,9 @@ where
                         temp = temp_left.unwrap();
                     }
                     let right = node.borrow().right.clone();
-                    node.borrow_mut().right = Self::delete(right, temp.borrow().value);
-                    node.borrow_mut().value = temp.borrow().value;
+                    let successor = temp.borrow().value;
+                    node.borrow_mut().right = Self::delete(right, successor);
+                    node.borrow_mut().value = successor;
                 }
                 Self::update_height(Some(node.clone()));
                 node = Self::rotate(Some(node)).unwrap();
-- 
2.43.0


From 2cac33247dd896b4a3fb0f203e3cba424efceadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:30 +0000
Subject: [PATCH 2/6] fix: earcut_2 no longer prints to stdout

A leftover debug println! wrote one line per clipped ear and panicked when
stdout was closed or full.
---
 src/algorithm/triangulation/earcut_2.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/algorithm/triangulation/earcut_2.rs b/src/algorithm/triangulation/earcut_2.rs
index c9ffc08..d2a2ecb 100644
--- a/src/algorithm/triangulation/earcut_2.rs
+++ b/src/algorithm/triangulation/earcut_2.rs
@@ -64,7 +64,6 @@ pub fn earcut_2<T: NumberType>(polygon: Polygon2<T>) -> Vec<Vec<usize>> {
         vec.sort();
         triangles.push(vec);
         vertices.delete(Some(ear));
-        println!("{:?}", ear_index);
         if vertices.len() > 3 {
             let (prev_vertex_type, index) = get_vertex_type(&ears, &reflexes, prev.clone());
             match prev_vertex_type {
-- 
2.43.0


From 21a7d24223022fc2b1c71ac03f23644187c5fdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:30 +0000
Subject: [PATCH 3/6] fix: CircularDoubleLinkedList frees its nodes

The prev/next links are strong references in a ring, so every list, and with
it every earcut_2 call, leaked all its nodes. Cut the links on drop.
---
 .../circular_doubly_linked_list.rs              | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/data_structure/circular_doubly_linked_list.rs b/src/data_structure/circular_doubly_linked_list.rs
index 76b2d85..dac3db3 100644
--- a/src/data_structure/circular_doubly_linked_list.rs
+++ b/src/data_structure/circular_doubly_linked_list.rs
@@ -105,3 +105,20 @@ impl<T: Clone + Copy> CircularDoubleLinkedList<T> {
         self.length
     }
 }
+
+impl<T: Clone + Copy> Drop for CircularDoubleLinkedList<T> {
+    // The links form reference cycles: unless they are cut no node is ever freed.
+    fn drop(&mut self) {
+        self.tail = None;
+        let mut node = self.head.take();
+        while let Some(current) = node {
+            node = match current.try_borrow_mut() {
+                Ok(mut current) => {
+                    current.prev = None;
+                    current.next.take()
+                }
+                Err(_) => None,
+            };
+        }
+    }
+}
-- 
2.43.0


From 2a9c497c1d3ce715b81080d5e7369c386750869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:42 +0000
Subject: [PATCH 4/6] fix: push_segment registers a segment completely or not
 at all

---
 .../sweep_segment_2_intersection.rs           | 73 +++++++++----------
 1 file changed, 36 insertions(+), 37 deletions(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 4f2c14f..3c797d4 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -37,46 +37,43 @@ pub struct SweepSegment2Intersection<T: NumberType> {
 
 impl<T: NumberType> SweepSegment2Intersection<T> {
     pub fn push_segment(&mut self, segment: &impl Segment2<T>) {
+        // Everything that can fail comes first: a registration that is cut short
+        // must not leave half a segment behind.
+        let origin_segment;
+        let mut segments = Vec::new();
         match segment.segment_type() {
             Segment2Type::LineSegment2 => {
                 let source = segment.source();
                 let target = segment.target();
-                self.origin_segments
-                    .push(StatusNodeSegment::LineSegment2(LineSegment2::new(
+                origin_segment =
+                    StatusNodeSegment::LineSegment2(LineSegment2::new(source, target));
+                if source > target {
+                    segments.push(StatusNodeSegment::LineSegment2(LineSegment2::new(
                         source, target,
                     )));
-                if source > target {
-                    self.segments
-                        .push(StatusNodeSegment::LineSegment2(LineSegment2::new(
-                            source, target,
-                        )));
                 } else {
-                    self.segments
-                        .push(StatusNodeSegment::LineSegment2(LineSegment2::new(
-                            target, source,
-                        )));
+                    segments.push(StatusNodeSegment::LineSegment2(LineSegment2::new(
+                        target, source,
+                    )));
                 }
             }
             Segment2Type::CircleSegment2 => {
                 let circle_segment = CircleSegment2::new(segment.center(), segment.radius());
-                self.origin_segments
-                    .push(StatusNodeSegment::ArcSegment2(ArcSegment2::new(
-                        circle_segment.clone(),
-                        T::zero(),
-                        T::pi() * T::from_f64(2.0),
-                    )));
-                self.segments
-                    .push(StatusNodeSegment::ArcSegment2(ArcSegment2::new(
-                        circle_segment.clone(),
-                        T::zero(),
-                        T::pi(),
-                    )));
-                self.segments
-                    .push(StatusNodeSegment::ArcSegment2(ArcSegment2::new(
-                        circle_segment.clone(),
-                        T::pi(),
-                        T::pi() * T::from_f64(2.0),
-                    )));
+                origin_segment = StatusNodeSegment::ArcSegment2(ArcSegment2::new(
+                    circle_segment.clone(),
+                    T::zero(),
+                    T::pi() * T::from_f64(2.0),
+                ));
+                segments.push(StatusNodeSegment::ArcSegment2(ArcSegment2::new(
+                    circle_segment.clone(),
+                    T::zero(),
+                    T::pi(),
+                )));
+                segments.push(StatusNodeSegment::ArcSegment2(ArcSegment2::new(
+                    circle_segment.clone(),
+                    T::pi(),
+                    T::pi() * T::from_f64(2.0),
+                )));
             }
             Segment2Type::ArcSegment2 => {
                 let center = segment.center();
@@ -88,19 +85,21 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
                     segment.source_radian(),
                     segment.target_radian(),
                 );
-                self.origin_segments
-                    .push(StatusNodeSegment::ArcSegment2(ArcSegment2::new(
-                        circle_segment.clone(),
-                        segment.source_radian(),
-                        segment.target_radian(),
-                    )));
+                origin_segment = StatusNodeSegment::ArcSegment2(ArcSegment2::new(
+                    circle_segment.clone(),
+                    segment.source_radian(),
+                    segment.target_radian(),
+                ));
                 let arc_segments = arc_segment.monotone();
                 for arc_segment in arc_segments {
-                    self.segments
-                        .push(StatusNodeSegment::ArcSegment2(arc_segment));
+                    segments.push(StatusNodeSegment::ArcSegment2(arc_segment));
                 }
             }
         }
+        self.origin_segments.reserve(1);
+        self.segments.reserve(segments.len());
+        self.origin_segments.push(origin_segment);
+        self.segments.append(&mut segments);
     }
 
     pub fn new() -> Self {
-- 
2.43.0


From f3d00e9359b6f7acafcf98bf483a8c7531325f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:55 +0000
Subject: [PATCH 5/6] fix: Debug of a linked edge or vertex recursed for ever

---
 src/kernel/edge_2.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/kernel/edge_2.rs b/src/kernel/edge_2.rs
index 32daa48..e6c00b6 100644
--- a/src/kernel/edge_2.rs
+++ b/src/kernel/edge_2.rs
@@ -1,11 +1,11 @@
-use std::{cell::RefCell, rc::Rc};
+use std::{cell::RefCell, fmt, rc::Rc};
 
 use super::{
     arc_segment_2::ArcSegment2, face_2::Face2, line_segment_2::LineSegment2,
     number_type::NumberType, util_enum::Edge2Type, vertex_2::Vertex2,
 };
 
-#[derive(Debug, Clone)]
+#[derive(Clone)]
 pub struct Edge2<T: NumberType> {
     source: Rc<RefCell<Vertex2<T>>>,
     target: Rc<RefCell<Vertex2<T>>>,
@@ -104,6 +104,23 @@ impl<T: NumberType> Edge2<T> {
     }
 }
 
+/// Linked edges and vertices refer to each other in cycles, so only the ends of an edge
+/// are shown, and whether its neighbours are set.
+impl<T: NumberType> fmt::Debug for Edge2<T> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        let point = |v: &Rc<RefCell<Vertex2<T>>>| v.try_borrow().ok().map(|v| v.to_point());
+        f.debug_struct("Edge2")
+            .field("source", &point(&self.source))
+            .field("target", &point(&self.target))
+            .field("twin", &self.twin.is_some())
+            .field("next", &self.next.is_some())
+            .field("prev", &self.prev.is_some())
+            .field("face", &self.face.is_some())
+            .field("edge_type", &self.edge_type)
+            .finish()
+    }
+}
+
 impl<T: NumberType> PartialEq for Edge2<T> {
     fn eq(&self, other: &Self) -> bool {
         if self.edge_type != other.edge_type {
-- 
2.43.0


From b0e4d4609df1d7aeaa7f937422db02d1690101fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:09 +0000
Subject: [PATCH 6/6] fix: earcut_2 kept stale ears, clipped corners twice and
 leaked nodes

---
 src/algorithm/triangulation/earcut_2.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/algorithm/triangulation/earcut_2.rs b/src/algorithm/triangulation/earcut_2.rs
index d2a2ecb..f613efa 100644
--- a/src/algorithm/triangulation/earcut_2.rs
+++ b/src/algorithm/triangulation/earcut_2.rs
@@ -200,9 +200,7 @@ fn get_vertex_type<T: NumberType>(
         Orientation::Clockwise => match vertex.borrow().data.vertex_type {
             VertexType::Reflex => (VertexType::Reflex, None),
             VertexType::Ear => {
-                let ear_index = ears
-                    .iter()
-                    .position(|x| x.borrow().data.point == cur.borrow().data.point);
+                let ear_index = ears.iter().position(|x| Rc::ptr_eq(x, &cur));
                 (VertexType::Reflex, ear_index)
             }
             VertexType::Convex => (VertexType::Reflex, None),
@@ -217,7 +215,12 @@ fn get_vertex_type<T: NumberType>(
                 let location = locate_point_2_triangle_2(&point, &triangle);
                 match location {
                     Point2Triangle2Location::Inside => {
-                        return (VertexType::Convex, None);
+                        let list = match vertex.borrow().data.vertex_type {
+                            VertexType::Reflex => reflexes,
+                            _ => ears,
+                        };
+                        let index = list.iter().position(|x| Rc::ptr_eq(x, &cur));
+                        return (VertexType::Convex, index);
                     }
                     _ => {
                         continue;
@@ -226,9 +229,7 @@ fn get_vertex_type<T: NumberType>(
             }
             match vertex.borrow().data.vertex_type {
                 VertexType::Reflex => {
-                    let reflex_index = reflexes
-                        .iter()
-                        .position(|x| x.borrow().data.point == cur.borrow().data.point);
+                    let reflex_index = reflexes.iter().position(|x| Rc::ptr_eq(x, &cur));
                     (VertexType::Ear, reflex_index)
                 }
                 VertexType::Ear => (VertexType::Ear, None),
-- 
2.43.0

