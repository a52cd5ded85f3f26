From 2026fd9e7627ad552ebabeffafdffe3abbc75657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 01/27] fix: weight at the last keyframe of an animated path is
 0, not 0/0

---
 src/runtime/model/value.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/runtime/model/value.rs b/src/runtime/model/value.rs
index 10ca3cb..a041924 100644
--- a/src/runtime/model/value.rs
+++ b/src/runtime/model/value.rs
@@ -138,7 +138,13 @@ impl Time {
             i: EasingHandle { x: t0_ix, y: t0_iy },
         };
         let hold = t0.hold;
-        let t = (frame - t0.frame) / (t1.frame - t0.frame);
+        // At (or past) the last keyframe there is no interval to divide by.
+        let span = t1.frame - t0.frame;
+        let t = if span > 0.0 {
+            (frame - t0.frame) / span
+        } else {
+            0.0
+        };
         Some(([ix0, ix1], t.clamp(0.0, 1.0), easing, hold))
     }
 }
-- 
2.43.0


From 0a72fbf8f00129a53cebb1750d969a6d9e8c13dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 02/27] fix: an omitted scale is 100 percent, not 1 percent

---
 src/import/converters.rs | 14 +++++++++++---
 src/import/defaults.rs   |  4 ++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index ebd77e5..e219030 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -2,7 +2,9 @@
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
 use super::builders::{setup_layer_base, setup_precomp_layer, setup_shape_layer};
-use super::defaults::{FLOAT_VALUE_ONE_HUNDRED, FLOAT_VALUE_ZERO, MULTIDIM_ONE, POSITION_ZERO};
+use super::defaults::{
+    FLOAT_VALUE_ONE_HUNDRED, FLOAT_VALUE_ZERO, MULTIDIM_ONE_HUNDRED, POSITION_ZERO,
+};
 use crate::import::builders::LayerSetupParams;
 use crate::runtime::model::Easing;
 use crate::runtime::model::animated::{self, Position};
@@ -225,7 +227,7 @@ pub fn conv_transform(
     let transform = animated::Transform {
         anchor: conv_pos_point(value.anchor_point.as_ref().unwrap_or(&POSITION_ZERO)),
         position,
-        scale: conv_vec2(value.scale.as_ref().unwrap_or(&MULTIDIM_ONE)),
+        scale: conv_vec2(value.scale.as_ref().unwrap_or(&MULTIDIM_ONE_HUNDRED)),
         rotation: conv_scalar(rotation_in),
         skew: conv_scalar(value.skew.as_ref().unwrap_or(&FLOAT_VALUE_ZERO)),
         skew_angle: conv_scalar(value.skew_axis.as_ref().unwrap_or(&FLOAT_VALUE_ZERO)),
@@ -262,7 +264,13 @@ pub fn conv_shape_transform(value: &schema::shapes::transform::TransformShape) -
                 .unwrap_or(&POSITION_ZERO),
         ),
         position: Position::Value(conv_pos_point(position_in)),
-        scale: conv_vec2(value.transform.scale.as_ref().unwrap_or(&MULTIDIM_ONE)),
+        scale: conv_vec2(
+            value
+                .transform
+                .scale
+                .as_ref()
+                .unwrap_or(&MULTIDIM_ONE_HUNDRED),
+        ),
         rotation: conv_scalar(rotation_in),
         skew: conv_scalar(value.transform.skew.as_ref().unwrap_or(&FLOAT_VALUE_ZERO)),
         skew_angle: conv_scalar(
diff --git a/src/import/defaults.rs b/src/import/defaults.rs
index 53ee1c5..cca8b7e 100644
--- a/src/import/defaults.rs
+++ b/src/import/defaults.rs
@@ -29,13 +29,13 @@ pub static FLOAT_VALUE_ONE_HUNDRED: LazyLock<FloatValue> = LazyLock::new(|| Floa
     },
 });
 
-pub static MULTIDIM_ONE: LazyLock<MultiDimensional> = LazyLock::new(|| MultiDimensional {
+pub static MULTIDIM_ONE_HUNDRED: LazyLock<MultiDimensional> = LazyLock::new(|| MultiDimensional {
     animated_property: AnimatedProperty {
         property_index: None,
         animated: Some(BoolInt::False),
         expression: None,
         slot_id: None,
-        value: AnimatedPropertyK::Static(vec![1.0, 1.0, 1.0]),
+        value: AnimatedPropertyK::Static(vec![100.0, 100.0, 100.0]),
     },
     length: None,
 });
-- 
2.43.0


From d9769e35f94fc8432714f7312a47693c3b1f3dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 03/27] fix: import layers without a rotation and split
 rotations instead of panicking

---
 src/import/converters.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index e219030..09309c6 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -209,10 +209,12 @@ pub fn conv_transform(
     let rotation_in = match &value.rotation {
         Some(any_trans) => match any_trans {
             schema::helpers::transform::AnyTransformR::Rotation(float_value) => float_value,
-            // todo: need to actually handle split rotations
-            schema::helpers::transform::AnyTransformR::SplitRotation { .. } => todo!(),
+            // The z component is the rotation in the plane of the layer.
+            schema::helpers::transform::AnyTransformR::SplitRotation { z_rotation, .. } => {
+                z_rotation
+            }
         },
-        None => todo!("split rotation"),
+        None => &FLOAT_VALUE_ZERO,
     };
 
     let position = match &value.position {
@@ -240,9 +242,9 @@ pub fn conv_shape_transform(value: &schema::shapes::transform::TransformShape) -
     let rotation_in = match &value.transform.rotation {
         Some(any_trans) => match any_trans {
             schema::helpers::transform::AnyTransformR::Rotation(float_value) => float_value,
-            // todo: need to actually handle split rotations
-            schema::helpers::transform::AnyTransformR::SplitRotation { .. } => {
-                todo!("split rotation")
+            // The z component is the rotation in the plane of the group.
+            schema::helpers::transform::AnyTransformR::SplitRotation { z_rotation, .. } => {
+                z_rotation
             }
         },
         None => &FLOAT_VALUE_ZERO,
-- 
2.43.0


From 2592b1836bce9c394310afd39815bf1500f0ef8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 04/27] fix: import split positions of groups instead of
 panicking

---
 src/import/converters.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 09309c6..9f2ac55 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -249,11 +249,12 @@ pub fn conv_shape_transform(value: &schema::shapes::transform::TransformShape) -
         },
         None => &FLOAT_VALUE_ZERO,
     };
-    let position_in = match &value.transform.position {
-        schema::helpers::transform::AnyTransformP::Position(position) => position,
-        schema::helpers::transform::AnyTransformP::SplitPosition(_) => {
-            // todo: split vectors
-            todo!("split position");
+    let position = match &value.transform.position {
+        schema::helpers::transform::AnyTransformP::Position(position) => {
+            Position::Value(conv_pos_point(position))
+        }
+        schema::helpers::transform::AnyTransformP::SplitPosition(SplitVector { x, y, .. }) => {
+            Position::SplitValues((conv_scalar(x), conv_scalar(y)))
         }
     };
 
@@ -265,7 +266,7 @@ pub fn conv_shape_transform(value: &schema::shapes::transform::TransformShape) -
                 .as_ref()
                 .unwrap_or(&POSITION_ZERO),
         ),
-        position: Position::Value(conv_pos_point(position_in)),
+        position,
         scale: conv_vec2(
             value
                 .transform
-- 
2.43.0


From 296daf5e729e842e971e54f33138d4f312243212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 05/27] fix: import the add and hard mix blend modes instead of
 panicking

---
 src/import/converters.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 9f2ac55..9cf2703 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -21,7 +21,7 @@ use crate::schema::constants::gradient_type::GradientType;
 use crate::schema::helpers::int_boolean::BoolInt;
 use crate::{Composition, schema};
 use kurbo::{Cap, Join, Point, Size, Vec2};
-use peniko::{BlendMode, Color, Mix};
+use peniko::{BlendMode, Color, Compose, Mix};
 use std::collections::HashMap;
 
 fn process_layers(
@@ -813,8 +813,9 @@ pub fn conv_blend_mode(
         Saturation => BlendMode::from(Mix::Saturation),
         Color => BlendMode::from(Mix::Color),
         Luminosity => BlendMode::from(Mix::Luminosity),
-        Add => unimplemented!(),
-        HardMix => unimplemented!(),
+        Add => BlendMode::from(Compose::Plus),
+        // There is no equivalent to hard mix.
+        HardMix => return None,
     })
 }
 
-- 
2.43.0


From d01f774ac69b2fdaca5040b95399eedd0d642e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 06/27] fix: skip image assets instead of panicking

---
 src/import/converters.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 9cf2703..36c2ceb 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -101,9 +101,8 @@ pub fn conv_animation(source: schema::Animation) -> Composition {
                     let layers = process_layers(&precomp.composition.layers, &mut idmap);
                     target.assets.insert(precomp.asset.id.clone(), layers);
                 }
-                asset => {
-                    unimplemented!("asset {:?} is not yet implemented", asset)
-                }
+                // todo: images are not drawn yet
+                schema::assets::AnyAsset::Image(_) => {}
             }
         }
     }
-- 
2.43.0


From 3c638e5046445c1c693c5a213e8f6cd6557dc0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 07/27] fix: import easing handles of any number of components
 instead of panicking

---
 src/import/converters.rs | 52 +++++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 36c2ceb..2fcb45b 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -367,26 +367,22 @@ pub fn conv_keyframes<'a, T: Tween>(
     })
 }
 
-fn conv_keyframe_handle(handle: &KeyframeBezierHandle) -> EasingHandle {
+/// Handles of single values may also be given as arrays. As those values have a
+/// single component, only the first component of their handles is used.
+fn conv_keyframe_handle(handle: &KeyframeBezierHandle) -> Option<EasingHandle> {
     let KeyframeBezierHandle {
         x_coordinate,
         y_coordinate,
     } = handle;
     let x = match x_coordinate {
-        KeyframeComponent::ArrayOfValues(arr) => {
-            assert!(arr.len() == 1, "{arr:?}");
-            arr[0]
-        }
+        KeyframeComponent::ArrayOfValues(arr) => *arr.first()?,
         KeyframeComponent::SingleValue(v) => *v,
     };
     let y = match y_coordinate {
-        KeyframeComponent::ArrayOfValues(arr) => {
-            assert!(arr.len() == 1);
-            arr[0]
-        }
+        KeyframeComponent::ArrayOfValues(arr) => *arr.first()?,
         KeyframeComponent::SingleValue(v) => *v,
     };
-    EasingHandle { x, y }
+    Some(EasingHandle { x, y })
 }
 
 fn conv_gradient_colors(
@@ -427,8 +423,16 @@ fn conv_gradient_colors(
                     .unwrap_or(false);
                 frames.push(Time {
                     frame: value.base.time,
-                    in_tangent: value.base.in_tangent.as_ref().map(conv_keyframe_handle),
-                    out_tangent: value.base.out_tangent.as_ref().map(conv_keyframe_handle),
+                    in_tangent: value
+                        .base
+                        .in_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
+                    out_tangent: value
+                        .base
+                        .out_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
                     hold,
                 });
 
@@ -725,8 +729,16 @@ pub fn conv_shape_geometry(
                 // Add frame time and easing
                 frames.push(Time {
                     frame: value.base.time,
-                    in_tangent: value.base.in_tangent.as_ref().map(conv_keyframe_handle),
-                    out_tangent: value.base.out_tangent.as_ref().map(conv_keyframe_handle),
+                    in_tangent: value
+                        .base
+                        .in_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
+                    out_tangent: value
+                        .base
+                        .out_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
                     hold,
                 });
                 // Get converted spline points for keyframe bezier at the start
@@ -836,8 +848,16 @@ pub fn conv_scalar(float_value: &schema::animated_properties::value::FloatValue)
                     .unwrap_or(false);
                 frames.push(crate::runtime::model::Time {
                     frame: start_time,
-                    in_tangent: keyframe.base.in_tangent.as_ref().map(conv_keyframe_handle),
-                    out_tangent: keyframe.base.out_tangent.as_ref().map(conv_keyframe_handle),
+                    in_tangent: keyframe
+                        .base
+                        .in_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
+                    out_tangent: keyframe
+                        .base
+                        .out_tangent
+                        .as_ref()
+                        .and_then(conv_keyframe_handle),
                     hold,
                 });
                 values.push(data);
-- 
2.43.0


From 0d4832b8fb2840ec522ee4a8a25a9e0276ba3197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 08/27] fix: import scalar keyframes without a value instead of
 panicking

---
 src/import/converters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 2fcb45b..dd65e42 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -839,7 +839,7 @@ pub fn conv_scalar(float_value: &schema::animated_properties::value::FloatValue)
             let mut values = vec![];
             for keyframe in keyframes {
                 let start_time = keyframe.base.time;
-                let data = keyframe.value[0];
+                let data = keyframe.value.first().copied().unwrap_or_default();
                 let hold = keyframe
                     .base
                     .hold
-- 
2.43.0


From 53a9a1e28541b53099c1a557273818e3891a1642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 09/27] fix: ignore an animated path whose first keyframe has
 no start instead of overflowing

---
 src/import/converters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index dd65e42..7a8cb43 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -747,7 +747,7 @@ pub fn conv_shape_geometry(
                         start.first()?.clone()
                     } else {
                         // No keyframe was present - we look for the previous end/start
-                        let prev = animated.get(idx - 1)?;
+                        let prev = animated.get(idx.checked_sub(1)?)?;
                         // Take the previous end if present, otherwise the previous start.
                         if let Some(prev_end) = prev.end.as_ref() {
                             if let Some(prev_end_bezier) = prev_end.first() {
-- 
2.43.0


From 39c7a3635f3cd2fa3e44bbb98422a0463b1d5aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:40 +0000
Subject: [PATCH 10/27] fix: paints of a nested group miss geometry merged into
 the enclosing group

---
 src/runtime/render.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index f9cbe43..f8ecd2b 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -180,6 +180,9 @@ impl Renderer {
         let geometry_start = self.batch.geometries.len();
         // Also keep track of top of draw stack for repeater evaluation.
         let draw_start = self.batch.draws.len();
+        // Geometry of this group must not be merged into geometry outside of it,
+        // which draws and modifiers of this group do not apply to.
+        self.batch.drawn_geometry = geometry_start;
         // Top to bottom, collect geometries and draws.
         for shape in shapes {
             match shape {
-- 
2.43.0


From 17a013dfaab62e9822a53d5b14f5b0604f6a0c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:40 +0000
Subject: [PATCH 11/27] fix: geometry after a trim brings back geometry the
 trim removed

---
 src/runtime/render.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index f8ecd2b..e11b090 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -375,6 +375,8 @@ impl Batch {
     }
 
     fn apply_trim(&mut self, trim: &fixed::Trim, geometry_start: usize) {
+        // Prevent merging into trimmed geometry
+        self.drawn_geometry = self.geometries.len();
         let Some((first, second)) = trim.normalized() else {
             for geometry in &mut self.geometries[geometry_start..] {
                 geometry.elements = 0..0;
-- 
2.43.0


From 86c7912879df00a8016a8152d46878e206660e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:40 +0000
Subject: [PATCH 12/27] fix: trimming a path of several subpaths connects them

---
 src/runtime/render.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index e11b090..fa89887 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -417,8 +417,13 @@ impl Batch {
                 let end_len = norm_end * total_length;
                 let mut current_len = 0.0;
                 let mut need_move = true;
+                let mut last_end = None;
 
                 for seg in &segs {
+                    // Start anew where the path does
+                    if last_end.replace(seg.end()) != Some(seg.start()) {
+                        need_move = true;
+                    }
                     let seg_len = seg.arclen(ACCURACY);
                     let seg_end = current_len + seg_len;
 
-- 
2.43.0


From 18f45f2e84a41fb6cbb1d8a83a8a9941ebdbd911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:40 +0000
Subject: [PATCH 13/27] fix: layers that refer to themselves through mattes or
 precompositions recurse without end

---
 src/runtime/render.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index fa89887..1aba3c1 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -42,6 +42,24 @@ pub trait RenderSink {
     fn end_layer_group(&mut self) {}
 }
 
+/// The layers being rendered at some point, from the innermost to the outermost.
+struct Ancestors<'a> {
+    layer: &'a Layer,
+    parent: Option<&'a Self>,
+}
+
+impl Ancestors<'_> {
+    fn contains(mut this: Option<&Self>, layer: &Layer) -> bool {
+        while let Some(ancestors) = this {
+            if std::ptr::eq(ancestors.layer, layer) {
+                return true;
+            }
+            this = ancestors.parent;
+        }
+        false
+    }
+}
+
 /// Renders a composition into a scene.
 #[derive(Debug, Default)]
 pub struct Renderer {
@@ -81,6 +99,7 @@ impl Renderer {
                 transform,
                 alpha,
                 frame,
+                None,
                 scene,
             );
         }
@@ -97,11 +116,20 @@ impl Renderer {
         transform: Affine,
         alpha: f64,
         frame: f64,
+        ancestors: Option<&Ancestors<'_>>,
         scene: &mut impl RenderSink,
     ) {
         if !layer.frames.contains(&frame) {
             return;
         }
+        // Layers may refer to themselves, by way of mattes or precompositions.
+        if Ancestors::contains(ancestors, layer) {
+            return;
+        }
+        let ancestors = Some(&Ancestors {
+            layer,
+            parent: ancestors,
+        });
         scene.begin_layer_group(&layer.name, layer_index);
         let parent_transform = transform;
         let transform = self.compute_transform(layer_set, layer, parent_transform, frame);
@@ -120,6 +148,7 @@ impl Renderer {
                     parent_transform,
                     alpha,
                     frame,
+                    ancestors,
                     scene,
                 );
             }
@@ -157,6 +186,7 @@ impl Renderer {
                             transform,
                             alpha,
                             frame + frame_delta,
+                            ancestors,
                             scene,
                         );
                     }
-- 
2.43.0


From 2a55e2d645efe81d399b0f059c763655496c6732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:32 +0000
Subject: [PATCH 14/27] fix: every copy of a repeater draws all of its copies

---
 src/runtime/render.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 1aba3c1..859b714 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -364,10 +364,11 @@ impl Batch {
         self.repeat_geometries
             .extend(self.geometries.drain(geometry_start..));
         self.repeat_draws.extend(self.draws.drain(draw_start..));
-        // Next, repeat the geometries and apply the offset transform
-        for geometry in self.repeat_geometries.iter() {
-            for i in 0..repeater.copies {
-                let transform = repeater.transform(i);
+        // Next, repeat the geometries and apply the offset transform. The
+        // geometries of one copy are kept together for its draws.
+        for i in 0..repeater.copies {
+            let transform = repeater.transform(i);
+            for geometry in self.repeat_geometries.iter() {
                 let mut geometry = geometry.clone();
                 geometry.transform *= transform;
                 self.geometries.push(geometry);
@@ -383,6 +384,7 @@ impl Batch {
         } else {
             0.0
         };
+        let geometry_count = self.repeat_geometries.len();
         for i in 0..repeater.copies {
             let alpha = start_alpha + delta_alpha * i as f64;
             if alpha <= 0.0 {
@@ -390,10 +392,8 @@ impl Batch {
             }
             for mut draw in self.repeat_draws.iter().cloned() {
                 draw.alpha *= alpha;
-                let count = draw.geometry.end - draw.geometry.start;
-                draw.geometry.start =
-                    geometry_start + (draw.geometry.start - geometry_start) * repeater.copies;
-                draw.geometry.end = draw.geometry.start + count * repeater.copies;
+                draw.geometry.start += i * geometry_count;
+                draw.geometry.end += i * geometry_count;
                 self.draws.push(draw);
             }
         }
-- 
2.43.0


From 0e255ca3c13bba2e0b161bebf84aef8d3f3430db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:32 +0000
Subject: [PATCH 15/27] fix: a repeater applies its transform inside nested
 groups

---
 src/runtime/render.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index 859b714..d55c8d0 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -242,7 +242,7 @@ impl Renderer {
                 Shape::Repeater(repeater) => {
                     let repeater = repeater.evaluate(frame);
                     self.batch
-                        .repeat(repeater.as_ref(), geometry_start, draw_start);
+                        .repeat(repeater.as_ref(), transform, geometry_start, draw_start);
                 }
                 Shape::Trim(trim) => {
                     let trim = trim.evaluate(frame);
@@ -358,7 +358,13 @@ impl Batch {
         self.drawn_geometry = self.geometries.len();
     }
 
-    fn repeat(&mut self, repeater: &fixed::Repeater, geometry_start: usize, draw_start: usize) {
+    fn repeat(
+        &mut self,
+        repeater: &fixed::Repeater,
+        group_transform: Affine,
+        geometry_start: usize,
+        draw_start: usize,
+    ) {
         // First move the relevant ranges of geometries and draws into side
         // buffers
         self.repeat_geometries
@@ -370,7 +376,16 @@ impl Batch {
             let transform = repeater.transform(i);
             for geometry in self.repeat_geometries.iter() {
                 let mut geometry = geometry.clone();
-                geometry.transform *= transform;
+                // Copies are transformed in the space of the repeater's group,
+                // which geometry of nested groups is not in.
+                if geometry.transform == group_transform || group_transform.determinant() == 0.0 {
+                    geometry.transform *= transform;
+                } else {
+                    geometry.transform = group_transform
+                        * transform
+                        * group_transform.inverse()
+                        * geometry.transform;
+                }
                 self.geometries.push(geometry);
             }
         }
-- 
2.43.0


From 36caef37d1c5081f720e480b644f9d20a49ba8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:32 +0000
Subject: [PATCH 16/27] fix: gradient stop offsets move during hold keyframes

---
 src/runtime/model/animated.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/model/animated.rs b/src/runtime/model/animated.rs
index 94edfdb..46b2fd4 100644
--- a/src/runtime/model/animated.rs
+++ b/src/runtime/model/animated.rs
@@ -486,10 +486,10 @@ impl ColorStops {
         let v1 = self.values.get(ix1)?;
 
         let mut stops: fixed::ColorStops = Default::default();
+        let t = if hold { 0.0 } else { t };
         for i in 0..self.count {
             let j = i * 5;
             let offset = v0.get(j)?.tween(v1.get(j)?, t, &easing);
-            let t = if hold { 0.0 } else { t };
             let r = v0.get(j + 1)?.tween(v1.get(j + 1)?, t, &easing);
             let g = v0.get(j + 2)?.tween(v1.get(j + 2)?, t, &easing);
             let b = v0.get(j + 3)?.tween(v1.get(j + 3)?, t, &easing);
-- 
2.43.0


From 86f8ae50c796fe71c7de4284b87603a11470c6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:32 +0000
Subject: [PATCH 17/27] fix: a gradient of no colors gets one stop

---
 src/import/converters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 7a8cb43..21d38b7 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -967,7 +967,7 @@ pub fn conv_size(value: &MultiDimensional) -> Value<Size> {
 pub fn conv_stops(value: &[f64], count: usize) -> Vec<[f64; 5]> {
     let mut stops: Vec<[f64; 5]> = Vec::new();
     let mut alpha_stops: Vec<(f64, f64)> = Vec::new();
-    for chunk in value.chunks_exact(4) {
+    for chunk in value.chunks_exact(4).take(count) {
         stops.push([chunk[0], chunk[1], chunk[2], chunk[3], 1.0]);
         if stops.len() >= count {
             // there is alpha data at the end of the list, which is a sequence
-- 
2.43.0


From 6f3e60c1fe35e3e112215c77994a4a7c0291552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:32 +0000
Subject: [PATCH 18/27] fix: gradient stops get the alpha of distant alpha
 stops

---
 src/import/converters.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 21d38b7..61f9262 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -980,9 +980,15 @@ pub fn conv_stops(value: &[f64], count: usize) -> Vec<[f64; 5]> {
 
             for stop in stops.iter_mut() {
                 let mut last: Option<(f64, f64)> = None;
-                for &(b, alpha_b) in alpha_stops.iter() {
+                for (i, &(b, alpha_b)) in alpha_stops.iter().enumerate() {
                     if let Some((a, alpha_a)) = last.take() {
                         let x = stop[0];
+                        // Only the alpha stops around the color stop apply to it,
+                        // or the outermost ones if it is beyond them.
+                        if (x < a && i > 1) || (x > b && i + 1 < alpha_stops.len()) {
+                            last = Some((b, alpha_b));
+                            continue;
+                        }
                         let t = normalize_to_range(a, b, x);
 
                         let alpha_interp = alpha_a.tween(&alpha_b, t, &Easing::LERP);
-- 
2.43.0


From d6398857200256c946b7b783ad5f57cb6fcaba4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 19/27] fix: gradient paints apply their opacity

---
 src/import/converters.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 61f9262..6c533f2 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -516,7 +516,7 @@ fn conv_draw(value: &schema::shapes::AnyShape) -> Option<runtime::model::Draw> {
             Some(Draw {
                 stroke: None,
                 brush,
-                opacity: Value::Fixed(100.0),
+                opacity: conv_scalar(&value.shape_style.opacity),
             })
         }
         AnyShape::GradientStroke(value) => {
@@ -564,7 +564,7 @@ fn conv_draw(value: &schema::shapes::AnyShape) -> Option<runtime::model::Draw> {
             Some(Draw {
                 stroke: Some(stroke.into_model()),
                 brush,
-                opacity: Value::Fixed(100.0),
+                opacity: conv_scalar(&value.shape_style.opacity),
             })
         }
         _ => None,
-- 
2.43.0


From 7dced31a5b83b6ac2f16199559ca269064fd0670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:44 +0000
Subject: [PATCH 20/27] fix: limit the number of points of stars

A document asking for 1e12 points made importing it run out of memory.
---
 src/runtime/model/animated.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/runtime/model/animated.rs b/src/runtime/model/animated.rs
index 46b2fd4..9a8a336 100644
--- a/src/runtime/model/animated.rs
+++ b/src/runtime/model/animated.rs
@@ -179,7 +179,8 @@ impl Star {
         use std::f64::consts::{FRAC_PI_2, TAU};
 
         let center = self.position.evaluate(frame);
-        let num_points = self.points.evaluate(frame).round() as usize;
+        // Authoring tools do not allow for more points either.
+        let num_points = self.points.evaluate(frame).round().min(10_000.0) as usize;
         if num_points == 0 {
             return;
         }
-- 
2.43.0


From 9b890d6f8c032d3ca6fcdaa843716a6c201dd523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 21/27] fix: bound the number of elements of huge arcs

The number of elements of ellipses and of the corners of rectangles grows with
their radius, so that rendering a huge one ran out of memory.
---
 src/runtime/model/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/runtime/model/mod.rs b/src/runtime/model/mod.rs
index 0dba5ba..d1560f9 100644
--- a/src/runtime/model/mod.rs
+++ b/src/runtime/model/mod.rs
@@ -128,6 +128,13 @@ impl Default for Transform {
     }
 }
 
+/// Returns the tolerance for converting arcs of the given radius to path
+/// elements. It is relative to the radius for huge arcs, as there would be no
+/// bound on their number of elements otherwise.
+fn tolerance(radius: f64) -> f64 {
+    (radius * 1e-9).max(0.1)
+}
+
 #[derive(Clone, Debug)]
 pub enum Geometry {
     Fixed(Vec<PathEl>),
@@ -144,10 +151,15 @@ impl Geometry {
                 path.extend_from_slice(value);
             }
             Self::Rect(value) => {
-                path.extend(value.evaluate(frame).path_elements(0.1));
+                let rect = value.evaluate(frame);
+                let tolerance = tolerance(rect.radii().top_left);
+                path.extend(rect.path_elements(tolerance));
             }
             Self::Ellipse(value) => {
-                path.extend(value.evaluate(frame).path_elements(0.1));
+                let ellipse = value.evaluate(frame);
+                let radii = ellipse.radii();
+                let tolerance = tolerance(radii.x.max(radii.y));
+                path.extend(ellipse.path_elements(tolerance));
             }
             Self::Spline(value) => {
                 value.evaluate(frame, path);
-- 
2.43.0


From fc9d38174833e955ff5b3fa09a984a5bb6dc7c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:56 +0000
Subject: [PATCH 22/27] fix: trims of huge paths overflow the search for their
 ends

Finding the point at some length of a path of more than 1e18 units with an
accuracy of 0.1 overflows a shift in kurbo.
---
 src/runtime/render.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/runtime/render.rs b/src/runtime/render.rs
index d55c8d0..adee390 100644
--- a/src/runtime/render.rs
+++ b/src/runtime/render.rs
@@ -454,6 +454,9 @@ impl Batch {
                 continue;
             }
 
+            // The search for the ends of the range cannot be more accurate than this.
+            let accuracy = ACCURACY.max(total_length * 1e-9);
+
             let trim_ranges = [Some(first), second];
             let mut trimmed = BezPath::new();
             for range in trim_ranges.into_iter().flatten() {
@@ -469,7 +472,7 @@ impl Batch {
                     if last_end.replace(seg.end()) != Some(seg.start()) {
                         need_move = true;
                     }
-                    let seg_len = seg.arclen(ACCURACY);
+                    let seg_len = seg.arclen(accuracy);
                     let seg_end = current_len + seg_len;
 
                     if seg_end < start_len - 1e-9 {
@@ -481,13 +484,13 @@ impl Batch {
                     }
 
                     let t_start = if current_len < start_len {
-                        seg.inv_arclen(start_len - current_len, ACCURACY)
+                        seg.inv_arclen(start_len - current_len, accuracy)
                             .clamp(0.0, 1.0)
                     } else {
                         0.0
                     };
                     let t_end = if seg_end > end_len {
-                        seg.inv_arclen(end_len - current_len, ACCURACY)
+                        seg.inv_arclen(end_len - current_len, accuracy)
                             .clamp(0.0, 1.0)
                     } else {
                         1.0
-- 
2.43.0


From ab2d9c72943ad3c3299998b374c98de48c3a3675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:25 +0000
Subject: [PATCH 23/27] fix: animated gradients of fewer stops than declared
 lose all of them

---
 src/runtime/model/animated.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/runtime/model/animated.rs b/src/runtime/model/animated.rs
index 9a8a336..99ce1e3 100644
--- a/src/runtime/model/animated.rs
+++ b/src/runtime/model/animated.rs
@@ -488,13 +488,14 @@ impl ColorStops {
 
         let mut stops: fixed::ColorStops = Default::default();
         let t = if hold { 0.0 } else { t };
-        for i in 0..self.count {
-            let j = i * 5;
-            let offset = v0.get(j)?.tween(v1.get(j)?, t, &easing);
-            let r = v0.get(j + 1)?.tween(v1.get(j + 1)?, t, &easing);
-            let g = v0.get(j + 2)?.tween(v1.get(j + 2)?, t, &easing);
-            let b = v0.get(j + 3)?.tween(v1.get(j + 3)?, t, &easing);
-            let a = v0.get(j + 4)?.tween(v1.get(j + 4)?, t, &easing);
+        // There may be fewer stops than declared.
+        let pairs = v0.chunks_exact(5).zip(v1.chunks_exact(5));
+        for (stop0, stop1) in pairs.take(self.count) {
+            let offset = stop0[0].tween(&stop1[0], t, &easing);
+            let r = stop0[1].tween(&stop1[1], t, &easing);
+            let g = stop0[2].tween(&stop1[2], t, &easing);
+            let b = stop0[3].tween(&stop1[3], t, &easing);
+            let a = stop0[4].tween(&stop1[4], t, &easing);
             let stop = peniko::ColorStop::from((
                 offset as f32,
                 peniko::Color::new([r as f32, g as f32, b as f32, a as f32]),
-- 
2.43.0


From 9896799b72b25a3d0af2f402ba39b51d6ddb755b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:34 +0000
Subject: [PATCH 24/27] fix: layers without an index are not layer 0

---
 src/import/builders.rs   |  8 ++++----
 src/import/converters.rs | 11 +++++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/import/builders.rs b/src/import/builders.rs
index 1b03aab..2143274 100644
--- a/src/import/builders.rs
+++ b/src/import/builders.rs
@@ -9,7 +9,7 @@ use crate::{runtime, schema};
 use peniko::{self, BlendMode, Compose, Mix};
 
 pub struct LayerSetupParams {
-    pub layer_index: usize,
+    pub layer_index: Option<usize>,
     pub matte_mode: Option<BlendMode>,
     pub matte_layer_index: Option<usize>,
 }
@@ -93,7 +93,7 @@ pub fn setup_precomp_layer(
     }
 
     LayerSetupParams {
-        layer_index: source.visual_layer.layer.index.unwrap_or(0),
+        layer_index: source.visual_layer.layer.index,
         matte_mode,
         matte_layer_index,
     }
@@ -176,7 +176,7 @@ pub fn setup_shape_layer(
     }
 
     LayerSetupParams {
-        layer_index: source.visual_layer.layer.index.unwrap_or(0),
+        layer_index: source.visual_layer.layer.index,
         matte_mode,
         matte_layer_index,
     }
@@ -240,7 +240,7 @@ pub fn setup_layer_base(
     }
 
     LayerSetupParams {
-        layer_index: source.layer.index.unwrap_or(0),
+        layer_index: source.layer.index,
         matte_mode,
         matte_layer_index,
     }
diff --git a/src/import/converters.rs b/src/import/converters.rs
index 6c533f2..81b125d 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -30,12 +30,15 @@ fn process_layers(
 ) -> Vec<Layer> {
     idmap.clear();
 
-    let mut converted: Vec<(Layer, usize, Option<BlendMode>, Option<usize>)> = vec![];
+    let mut converted: Vec<(Layer, Option<usize>, Option<BlendMode>, Option<usize>)> = vec![];
 
     for layer in source_layers {
         if let Some((layer, id, matte_mode, matte_layer_index)) = conv_layer(layer) {
             let index = converted.len();
-            idmap.insert(id, index);
+            // Nothing can refer to layers that have no index of their own.
+            if let Some(id) = id {
+                idmap.insert(id, index);
+            }
             converted.push((layer, id, matte_mode, matte_layer_index));
         }
     }
@@ -44,7 +47,7 @@ fn process_layers(
         .iter()
         .enumerate()
         .filter(|(_, (layer, _, _, _))| layer.is_mask)
-        .map(|(idx, (_, id, _, _))| (*id, idx))
+        .filter_map(|(idx, (_, id, _, _))| Some(((*id)?, idx)))
         .collect();
 
     let mut layers: Vec<Layer> = Vec::with_capacity(converted.len());
@@ -139,7 +142,7 @@ pub fn conv_animation(source: schema::Animation) -> Composition {
 
 pub fn conv_layer(
     source: &schema::layers::AnyLayer,
-) -> Option<(Layer, usize, Option<BlendMode>, Option<usize>)> {
+) -> Option<(Layer, Option<usize>, Option<BlendMode>, Option<usize>)> {
     let mut layer = Layer::default();
 
     let hidden = is_layer_hidden(source);
-- 
2.43.0


From ab63a1d50ae675b782384c68c760c28839195c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:32 +0000
Subject: [PATCH 25/27] fix: apply the alpha of a gradient with a single alpha
 stop

---
 src/import/converters.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/import/converters.rs b/src/import/converters.rs
index 81b125d..b5a412e 100644
--- a/src/import/converters.rs
+++ b/src/import/converters.rs
@@ -982,6 +982,10 @@ pub fn conv_stops(value: &[f64], count: usize) -> Vec<[f64; 5]> {
             }
 
             for stop in stops.iter_mut() {
+                if let [(_, alpha)] = alpha_stops[..] {
+                    // A single alpha stop applies everywhere.
+                    stop[4] = stop[4].min(alpha);
+                }
                 let mut last: Option<(f64, f64)> = None;
                 for (i, &(b, alpha_b)) in alpha_stops.iter().enumerate() {
                     if let Some((a, alpha_a)) = last.take() {
-- 
2.43.0


From 721304c1cbd12232eafb71f081347cbd5464c22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:48 +0000
Subject: [PATCH 26/27] fix: a star of a NaN number of points has none

---
 src/runtime/model/animated.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/model/animated.rs b/src/runtime/model/animated.rs
index 99ce1e3..cfaec24 100644
--- a/src/runtime/model/animated.rs
+++ b/src/runtime/model/animated.rs
@@ -180,7 +180,7 @@ impl Star {
 
         let center = self.position.evaluate(frame);
         // Authoring tools do not allow for more points either.
-        let num_points = self.points.evaluate(frame).round().min(10_000.0) as usize;
+        let num_points = (self.points.evaluate(frame).round() as usize).min(10_000);
         if num_points == 0 {
             return;
         }
-- 
2.43.0


From 97999f21087bea71800fea47bb03d7f9c997e169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:48 +0000
Subject: [PATCH 27/27] fix: apply the alpha to animated gradients as to fixed
 ones

---
 src/runtime/model/animated.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/model/animated.rs b/src/runtime/model/animated.rs
index cfaec24..bf834b3 100644
--- a/src/runtime/model/animated.rs
+++ b/src/runtime/model/animated.rs
@@ -531,7 +531,7 @@ impl Brush {
                 .evaluate_or(frame, peniko::Color::TRANSPARENT)
                 .multiply_alpha(alpha as f32)
                 .into(),
-            Self::Gradient(value) => value.evaluate(frame),
+            Self::Gradient(value) => value.evaluate(frame).multiply_alpha(alpha as f32),
         }
     }
 
-- 
2.43.0

