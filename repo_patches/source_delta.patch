From 6897916a259a9a713f08d2a50f8625dba118df50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:10 +0000
Subject: [PATCH 01/27] fix: sampling with a context that has room for more
 tracks than the animation

---
 src/sampling_job.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index a87a9de..e6c6823 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -577,18 +577,18 @@ impl SamplingContext {
         UpdateArgs {
             num_tracks: animation.num_tracks(),
             num_soa_tracks: animation.num_soa_tracks(),
-            entries: unsafe { slice::from_raw_parts_mut(inner.translation_entries, inner.max_tracks) },
-            outdated: unsafe { slice::from_raw_parts_mut(inner.translation_outdated, inner.max_outdated) },
+            entries: unsafe { slice::from_raw_parts_mut(inner.translation_entries, animation.num_aligned_tracks()) },
+            outdated: unsafe { slice::from_raw_parts_mut(inner.translation_outdated, animation.num_soa_tracks().div_ceil(8)) },
             next: &mut inner.translation_next,
         }
     }
 
     #[inline]
-    fn translation_decompress_args(&self) -> DecompressArgs<'_, InterpSoaFloat3> {
+    fn translation_decompress_args(&self, animation: &Animation) -> DecompressArgs<'_, InterpSoaFloat3> {
         let inner = self.inner();
         DecompressArgs {
-            entries: unsafe { slice::from_raw_parts(inner.translation_entries, inner.max_tracks) },
-            outdated: unsafe { slice::from_raw_parts_mut(inner.translation_outdated, inner.max_outdated) },
+            entries: unsafe { slice::from_raw_parts(inner.translation_entries, animation.num_aligned_tracks()) },
+            outdated: unsafe { slice::from_raw_parts_mut(inner.translation_outdated, animation.num_soa_tracks().div_ceil(8)) },
             values: unsafe { slice::from_raw_parts_mut(inner.translations, inner.max_soa_tracks) },
         }
     }
@@ -599,18 +599,18 @@ impl SamplingContext {
         UpdateArgs {
             num_tracks: animation.num_tracks(),
             num_soa_tracks: animation.num_soa_tracks(),
-            entries: unsafe { slice::from_raw_parts_mut(inner.rotation_entries, inner.max_tracks) },
-            outdated: unsafe { slice::from_raw_parts_mut(inner.rotation_outdated, inner.max_outdated) },
+            entries: unsafe { slice::from_raw_parts_mut(inner.rotation_entries, animation.num_aligned_tracks()) },
+            outdated: unsafe { slice::from_raw_parts_mut(inner.rotation_outdated, animation.num_soa_tracks().div_ceil(8)) },
             next: &mut inner.rotation_next,
         }
     }
 
     #[inline]
-    fn rotation_decompress_args(&self) -> DecompressArgs<'_, InterpSoaQuaternion> {
+    fn rotation_decompress_args(&self, animation: &Animation) -> DecompressArgs<'_, InterpSoaQuaternion> {
         let inner = self.inner();
         DecompressArgs {
-            entries: unsafe { slice::from_raw_parts(inner.rotation_entries, inner.max_tracks) },
-            outdated: unsafe { slice::from_raw_parts_mut(inner.rotation_outdated, inner.max_outdated) },
+            entries: unsafe { slice::from_raw_parts(inner.rotation_entries, animation.num_aligned_tracks()) },
+            outdated: unsafe { slice::from_raw_parts_mut(inner.rotation_outdated, animation.num_soa_tracks().div_ceil(8)) },
             values: unsafe { slice::from_raw_parts_mut(inner.rotations, inner.max_soa_tracks) },
         }
     }
@@ -621,18 +621,18 @@ impl SamplingContext {
         UpdateArgs {
             num_tracks: animation.num_tracks(),
             num_soa_tracks: animation.num_soa_tracks(),
-            entries: unsafe { slice::from_raw_parts_mut(inner.scale_entries, inner.max_tracks) },
-            outdated: unsafe { slice::from_raw_parts_mut(inner.scale_outdated, inner.max_outdated) },
+            entries: unsafe { slice::from_raw_parts_mut(inner.scale_entries, animation.num_aligned_tracks()) },
+            outdated: unsafe { slice::from_raw_parts_mut(inner.scale_outdated, animation.num_soa_tracks().div_ceil(8)) },
             next: &mut inner.scale_next,
         }
     }
 
     #[inline]
-    fn scale_decompress_args(&self) -> DecompressArgs<'_, InterpSoaFloat3> {
+    fn scale_decompress_args(&self, animation: &Animation) -> DecompressArgs<'_, InterpSoaFloat3> {
         let inner = self.inner();
         DecompressArgs {
-            entries: unsafe { slice::from_raw_parts(inner.scale_entries, inner.max_tracks) },
-            outdated: unsafe { slice::from_raw_parts_mut(inner.scale_outdated, inner.max_outdated) },
+            entries: unsafe { slice::from_raw_parts(inner.scale_entries, animation.num_aligned_tracks()) },
+            outdated: unsafe { slice::from_raw_parts_mut(inner.scale_outdated, animation.num_soa_tracks().div_ceil(8)) },
             values: unsafe { slice::from_raw_parts_mut(inner.scales, inner.max_soa_tracks) },
         }
     }
@@ -1115,17 +1115,17 @@ where
 
         let args = ctx.as_mut().translation_update_args(anim);
         Self::update_cache(args, anim, &anim.translations_ctrl(), self.ratio, prev_ratio);
-        let args = ctx.as_mut().translation_decompress_args();
+        let args = ctx.as_mut().translation_decompress_args(anim);
         Self::decompress_float3(args, anim.timepoints(), &anim.translations_ctrl(), anim.translations());
 
         let args = ctx.as_mut().rotation_update_args(anim);
         Self::update_cache(args, anim, &anim.rotations_ctrl(), self.ratio, prev_ratio);
-        let args = ctx.as_mut().rotation_decompress_args();
+        let args = ctx.as_mut().rotation_decompress_args(anim);
         Self::decompress_quat(args, anim.timepoints(), &anim.rotations_ctrl(), anim.rotations());
 
         let args = ctx.as_mut().scale_update_args(anim);
         Self::update_cache(args, anim, &anim.scales_ctrl(), self.ratio, prev_ratio);
-        let args = ctx.as_mut().scale_decompress_args();
+        let args = ctx.as_mut().scale_decompress_args(anim);
         Self::decompress_float3(args, anim.timepoints(), &anim.scales_ctrl(), anim.scales());
 
         Self::interpolates(anim, ctx.as_mut(), self.ratio, &mut output)?;
-- 
2.43.0


From cbddce14a6f56bc89f05dd7841c801a6c9ffbc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:38 +0000
Subject: [PATCH 02/27] fix: identify animations by content, not by an address
 that can be reused

---
 src/animation.rs    | 44 +++++++++++++++++++++++++++++++++++++++++++-
 src/sampling_job.rs |  4 ++--
 2 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index c7e08c4..276bcf3 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -4,13 +4,14 @@
 
 use glam::{Quat, Vec3, Vec4};
 use std::alloc::{self, Layout};
+use std::hash::{BuildHasher, Hasher};
 use std::io::Read;
 use std::simd::prelude::*;
 use std::simd::*;
 use std::{mem, slice};
 
 use crate::archive::{Archive, ArchiveRead};
-use crate::base::{align_ptr, align_usize, OzzError};
+use crate::base::{align_ptr, align_usize, DeterministicState, OzzError};
 use crate::math::{f16_to_f32, fx4, ix4, simd_f16_to_f32, SoaQuat, SoaVec3, ONE, ZERO};
 
 /// Float3 key for `Animation` track.
@@ -182,6 +183,7 @@ impl ArchiveRead<QuaternionKey> for QuaternionKey {
 #[derive(Debug)]
 pub struct Animation {
     size: usize,
+    id: u64,
     duration: f32,
     num_tracks: u32,
     name: String,
@@ -404,6 +406,7 @@ impl Animation {
         archive.read_slice(animation.s_iframe_desc_mut())?;
         animation.s_iframe_interval = archive.read()?;
         archive.read_slice(animation.scales_mut())?;
+        animation.update_id();
         Ok(animation)
     }
 
@@ -461,6 +464,7 @@ impl Animation {
         animation.s_iframe_interval = raw.s_iframe_interval;
         animation.s_iframe_entries_mut().copy_from_slice(&raw.s_iframe_entries);
         animation.s_iframe_desc_mut().copy_from_slice(&raw.s_iframe_desc);
+        animation.update_id();
         animation
     }
 
@@ -497,6 +501,7 @@ impl Animation {
     fn new(meta: AnimationMeta) -> Animation {
         let mut animation = Animation {
             size: 0,
+            id: 0,
             duration: meta.duration,
             num_tracks: meta.num_tracks,
             name: meta.name,
@@ -607,6 +612,43 @@ impl Animation {
     }
 }
 
+impl Animation {
+    /// Identifies the animation by its content.
+    ///
+    /// An address can not identify an animation, another animation may be moved or loaded to the same address.
+    #[inline]
+    pub(crate) fn id(&self) -> u64 {
+        self.id
+    }
+
+    fn update_id(&mut self) {
+        let mut hasher = DeterministicState::new().build_hasher();
+        hasher.write_u32(self.num_tracks);
+        for timepoint in self.timepoints() {
+            hasher.write_u32(timepoint.to_bits());
+        }
+        for ctrl in [self.translations_ctrl(), self.rotations_ctrl(), self.scales_ctrl()] {
+            hasher.write_u32(ctrl.ratios.len() as u32);
+            for (ratio, previous) in ctrl.ratios.iter().zip(ctrl.previouses) {
+                hasher.write_u16(*ratio);
+                hasher.write_u16(*previous);
+            }
+            hasher.write(ctrl.iframe_entries);
+            for desc in ctrl.iframe_desc {
+                hasher.write_u32(*desc);
+            }
+            hasher.write_u32(ctrl.iframe_interval.to_bits());
+        }
+        for key in self.translations().iter().chain(self.scales()) {
+            key.0.iter().for_each(|v| hasher.write_u16(*v));
+        }
+        for key in self.rotations() {
+            key.0.iter().for_each(|v| hasher.write_u16(*v));
+        }
+        self.id = hasher.finish().max(1); // 0 means no animation
+    }
+}
+
 /// Animation keyframes control structure.
 #[derive(Debug, Default)]
 pub struct KeyframesCtrl<'t> {
diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index e6c6823..6241ffd 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -355,7 +355,7 @@ impl SamplingContext {
     /// * `animation` - The animation to sample. Use `animation.num_tracks()` as max_tracks.
     pub fn from_animation(animation: &Animation) -> SamplingContext {
         let mut ctx = SamplingContext::new(animation.num_tracks());
-        ctx.inner_mut().animation_id = animation as *const _ as u64;
+        ctx.inner_mut().animation_id = animation.id();
         ctx
     }
 
@@ -1134,7 +1134,7 @@ where
 
     #[inline]
     fn step_context(ctx: &mut SamplingContext, animation: &Animation, ratio: f32) -> f32 {
-        let animation_id = animation as *const _ as u64;
+        let animation_id = animation.id();
         if ctx.animation_id() != animation_id {
             ctx.set_animation_id(animation_id);
             ctx.set_translation_next(0);
-- 
2.43.0


From c5f91fbb9758c3b257b2b72a9ffda781364bc102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:38 +0000
Subject: [PATCH 03/27] fix: decoding of the largest finite half float

---
 src/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math.rs b/src/math.rs
index 04afc31..d2629d0 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -930,7 +930,7 @@ pub(crate) fn simd_f16_to_f32(half4: [u16; 4]) -> f32x4 {
     let expmant = MASK_NO_SIGN & int4;
     let shifted = expmant << 13;
     let scaled = fx4(shifted) * MAGIC;
-    let was_infnan = i32x4::simd_ge(expmant, WAS_INFNAN).to_int();
+    let was_infnan = i32x4::simd_gt(expmant, WAS_INFNAN).to_int();
     let sign = (int4 ^ expmant) << 16;
     let infnanexp = was_infnan & EXP_INFNAN;
     let sign_inf = sign | infnanexp;
-- 
2.43.0


From 78bc4dbba92f05d1775305cbff00415140baff26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:30 +0000
Subject: [PATCH 04/27] fix: track triggering lost edges at rounded frame
 limits and never ended far from zero

The loop counter was an f32, which does not advance beyond 2^24, so that the
iterator repeated the same loop for ever. Where key times round to a limit of
the range, the iterator stopped early and the edges behind that key were
reported by no frame.
---
 src/track_triggering_job.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/track_triggering_job.rs b/src/track_triggering_job.rs
index f2cc700..de543c9 100644
--- a/src/track_triggering_job.rs
+++ b/src/track_triggering_job.rs
@@ -178,7 +178,7 @@ where
 {
     job: &'t TrackTriggeringJob<T>,
     track: Option<&'t Track<f32>>, // also used as end marker
-    outer: f32,
+    outer: f64, // f64 so that it always advances, wherever the range lies
     inner: isize,
 }
 
@@ -192,7 +192,7 @@ where
         TrackTriggeringIter {
             job,
             track: if end { None } else { Some(track) },
-            outer: job.from.floor(),
+            outer: job.from.floor() as f64,
             inner: if job.from < job.to {
                 0
             } else {
@@ -247,21 +247,22 @@ where
         let track = self.track?;
 
         let key_count = track.key_count() as isize;
+        let (from, to) = (self.job.from as f64, self.job.to as f64);
+        let date = |ratio: f32, outer: f64| (ratio as f64 + outer) as f32;
         if self.job.to > self.job.from {
             // from => to
-            while self.outer < self.job.to {
+            while self.outer < to {
                 while self.inner < key_count {
                     let it0 = if self.inner == 0 { key_count - 1 } else { self.inner - 1 };
                     if let Some(mut edge) = self.detect_edge(it0 as usize, self.inner as usize, true) {
-                        edge.ratio += self.outer;
-                        if edge.ratio >= self.job.from && (edge.ratio < self.job.to || self.job.to >= 1.0 + self.outer)
-                        {
+                        edge.ratio = date(edge.ratio, self.outer);
+                        if edge.ratio >= self.job.from && (edge.ratio < self.job.to || to >= 1.0 + self.outer) {
                             self.inner += 1;
                             return Some(edge);
                         }
                     }
                     // no edge found
-                    if track.ratios()[self.inner as usize] + self.outer >= self.job.to {
+                    if to < 1.0 + self.outer && date(track.ratios()[self.inner as usize], self.outer) >= self.job.to {
                         break;
                     }
                     self.inner += 1;
@@ -271,20 +272,18 @@ where
             }
         } else {
             // to => from
-            while self.outer + 1.0 > self.job.to {
+            while self.outer + 1.0 > to {
                 while self.inner >= 0 {
                     let it0 = if self.inner == 0 { key_count - 1 } else { self.inner - 1 };
                     if let Some(mut edge) = self.detect_edge(it0 as usize, self.inner as usize, false) {
-                        edge.ratio += self.outer;
-                        if edge.ratio >= self.job.to
-                            && (edge.ratio < self.job.from || self.job.from >= 1.0 + self.outer)
-                        {
+                        edge.ratio = date(edge.ratio, self.outer);
+                        if edge.ratio >= self.job.to && (edge.ratio < self.job.from || from >= 1.0 + self.outer) {
                             self.inner -= 1;
                             return Some(edge);
                         }
                     }
                     // no edge found
-                    if track.ratios()[self.inner as usize] + self.outer <= self.job.to {
+                    if date(track.ratios()[self.inner as usize], self.outer) < self.job.to {
                         break;
                     }
                     self.inner -= 1;
-- 
2.43.0


From 060a9391b38ffa9a48003074f1514abe0bcdfbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:30 +0000
Subject: [PATCH 05/27] fix: a track edge could be dated after the next key

Rounding of the interpolation could place a linear edge one ulp behind the key
that ends its segment, and so out of order with the edge that follows.
---
 src/track_triggering_job.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/track_triggering_job.rs b/src/track_triggering_job.rs
index de543c9..9ba2103 100644
--- a/src/track_triggering_job.rs
+++ b/src/track_triggering_job.rs
@@ -231,7 +231,8 @@ where
             let alpha = (self.job.threshold - val0) / (val1 - val0);
             let ratio0 = track.ratios()[it0];
             let ratio1 = track.ratios()[it1];
-            edge.ratio = ratio0 + (ratio1 - ratio0) * alpha;
+            // rounding must not move the edge behind the next key
+            edge.ratio = (ratio0 + (ratio1 - ratio0) * alpha).min(ratio1);
         }
         Some(edge)
     }
-- 
2.43.0


From f53b52f0ba5544e7d233b853e3cead6d9320981b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:42 +0000
Subject: [PATCH 06/27] fix: blending panicked when the rest pose fills an
 output larger than the skeleton

---
 src/blending_job.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blending_job.rs b/src/blending_job.rs
index 0113f78..252feb9 100644
--- a/src/blending_job.rs
+++ b/src/blending_job.rs
@@ -390,7 +390,7 @@ where
             if bp_weight > 0.0 {
                 if ctx.num_passes == 0 {
                     ctx.accumulated_weight = 1.0;
-                    output.copy_from_slice(joint_rest_poses);
+                    output[..joint_rest_poses.len()].copy_from_slice(joint_rest_poses);
                 } else {
                     ctx.accumulated_weight = threshold;
                     let simd_bp_weight = f32x4::splat(bp_weight);
-- 
2.43.0


From 0c47060bd16e9703feb4c440d5aea686d222078f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:04 +0000
Subject: [PATCH 07/27] fix: local-to-model limits of i32::MAX overflowed

With to = i32::MAX the addition panicked in debug builds and wrapped in release
builds, so that no joint was updated.
---
 src/local_to_model_job.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/local_to_model_job.rs b/src/local_to_model_job.rs
index 8e31875..59ecd04 100644
--- a/src/local_to_model_job.rs
+++ b/src/local_to_model_job.rs
@@ -229,8 +229,8 @@ where
             return Err(OzzError::InvalidJob);
         }
 
-        let begin = i32::max(0, self.from + (self.from_excluded as i32)) as usize;
-        let end = i32::max(0, i32::min(self.to + 1, skeleton.num_joints() as i32)) as usize;
+        let begin = i32::max(0, self.from.saturating_add(self.from_excluded as i32)) as usize;
+        let end = i32::max(0, i32::min(self.to.saturating_add(1), skeleton.num_joints() as i32)) as usize;
 
         let mut idx = begin;
         let mut process = idx < end && (!self.from_excluded || skeleton.joint_parent(idx) as i32 >= self.from);
-- 
2.43.0


From c0cc4a0e5868485bc0e7e090e3ef89e467705a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:51 +0000
Subject: [PATCH 08/27] fix: skinning runs that validation refuses

Without joint matrices a job with several influences panicked, and jobs with no
matrix at all, or with tangents but no normals, were run although validate()
refuses them. validate() now also notices inverse matrices that cannot be read.
---
 src/skinning_job.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/skinning_job.rs b/src/skinning_job.rs
index 9b51d3c..7ff21c9 100644
--- a/src/skinning_job.rs
+++ b/src/skinning_job.rs
@@ -357,6 +357,9 @@ where
                 ok &= in_normals.buf().ok()?.len() >= self.vertex_count;
                 ok &= self.out_normals.as_ref()?.buf().ok()?.len() >= self.vertex_count;
 
+                if let Some(joint_it_matrices) = &self.joint_it_matrices {
+                    joint_it_matrices.buf().ok()?;
+                }
                 if let Some(in_tangents) = &self.in_tangents {
                     ok &= in_tangents.buf().ok()?.len() >= self.vertex_count;
                     ok &= self.out_tangents.as_ref()?.buf().ok()?.len() >= self.vertex_count;
@@ -413,7 +416,7 @@ macro_rules! pnt {
 macro_rules! skinning_1 {
     ($fn:ident, $it:tt, $pnt:tt) => {
         fn $fn(&mut self) -> Result<(), OzzError> {
-            let matrices = self.joint_matrices.as_ref().ok_or(OzzError::InvalidJob)?.buf()?;
+            let matrices = unpack_buf(&self.joint_matrices, 1)?;
             it!($it, let it_matrices = self.joint_it_matrices.as_ref().ok_or(OzzError::InvalidJob)?.buf()?);
             let indices = unpack_buf(&self.joint_indices, self.vertex_count)?;
 
@@ -447,7 +450,7 @@ macro_rules! skinning_1 {
 
 macro_rules! skinning_impl {
     ($self:expr, $n:expr, $it:tt, $pnt:tt) => {
-        let matrices = $self.joint_matrices.as_ref().unwrap().buf()?;
+        let matrices = unpack_buf(&$self.joint_matrices, 1)?;
         it!($it, let it_matrices = $self.joint_it_matrices.as_ref().ok_or(OzzError::InvalidJob)?.buf()?);
         let indices = unpack_buf(&$self.joint_indices, $self.vertex_count * $n)?;
         let weights = unpack_buf(&$self.joint_weights, $self.vertex_count * ($n - 1))?;
@@ -532,6 +535,9 @@ where
         if self.influences_count == 0 {
             return Err(OzzError::InvalidJob);
         }
+        if self.in_normals.is_none() && self.in_tangents.is_some() {
+            return Err(OzzError::InvalidJob);
+        }
 
         let mut branch = (self.influences_count - 1).min(4) * 5;
         if self.in_normals.is_some() {
-- 
2.43.0


From 12c54545664479acba044161bfbc350f4ed40218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:45 +0000
Subject: [PATCH 09/27] fix: loading an empty skeleton read bytes behind it

---
 src/skeleton.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skeleton.rs b/src/skeleton.rs
index 9e675d9..56f1930 100644
--- a/src/skeleton.rs
+++ b/src/skeleton.rs
@@ -124,6 +124,9 @@ impl Skeleton {
     pub fn from_archive(archive: &mut Archive<impl Read>) -> Result<Skeleton, OzzError> {
         let meta = Skeleton::read_meta(archive, false)?;
         let mut skeleton = Skeleton::new(meta);
+        if skeleton.num_joints() == 0 {
+            return Ok(skeleton); // an empty skeleton stores nothing else
+        }
 
         let _char_count: u32 = archive.read()?;
         for idx in 0..skeleton.num_joints() {
-- 
2.43.0


From b16af1d660ffcec31d1ef57aeb1716cf8d7f34a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:31 +0000
Subject: [PATCH 10/27] fix: damaged counts in an archive decided how much
 memory was allocated

---
 src/animation.rs | 102 +++++++++++++++++++++++++++--------------------
 src/archive.rs   |   6 ++-
 src/skeleton.rs  |  25 +++++-------
 3 files changed, 75 insertions(+), 58 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index 276bcf3..ec41754 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -363,51 +363,67 @@ impl Animation {
     /// Reads an `Animation` from an `Archive`.
     pub fn from_archive(archive: &mut Archive<impl Read>) -> Result<Animation, OzzError> {
         let meta = Animation::read_meta(archive)?;
-        let mut animation = Animation::new(meta);
-
-        archive.read_slice(animation.timepoints_mut())?;
-        let is_ratio_u8 = animation.timepoints().len() <= (u8::MAX as usize);
-
-        if is_ratio_u8 {
-            for i in 0..animation.t_ratios().len() {
-                animation.t_ratios_mut()[i] = archive.read::<u8>()? as u16;
-            }
-        } else {
-            archive.read_slice(animation.t_ratios_mut())?;
-        }
-        archive.read_slice(animation.t_previouses_mut())?;
-        archive.read_slice(animation.t_iframe_entries_mut())?;
-        archive.read_slice(animation.t_iframe_desc_mut())?;
-        animation.t_iframe_interval = archive.read()?;
-        archive.read_slice(animation.translations_mut())?;
-
-        if is_ratio_u8 {
-            for i in 0..animation.r_ratios().len() {
-                animation.r_ratios_mut()[i] = archive.read::<u8>()? as u16;
-            }
-        } else {
-            archive.read_slice(animation.r_ratios_mut())?;
-        }
-        archive.read_slice(animation.r_previouses_mut())?;
-        archive.read_slice(animation.r_iframe_entries_mut())?;
-        archive.read_slice(animation.r_iframe_desc_mut())?;
-        animation.r_iframe_interval = archive.read()?;
-        archive.read_slice(animation.rotations_mut())?;
-
-        if is_ratio_u8 {
-            for i in 0..animation.s_ratios().len() {
-                animation.s_ratios_mut()[i] = archive.read::<u8>()? as u16;
+        // Memory is allocated for what has been read, the counts in a damaged archive can be anything.
+        let timepoints: Vec<f32> = archive.read_vec(meta.timepoints_count as usize)?;
+        let is_ratio_u8 = timepoints.len() <= (u8::MAX as usize);
+
+        fn read_ratios<R: Read>(archive: &mut Archive<R>, count: u32, is_ratio_u8: bool) -> Result<Vec<u16>, OzzError> {
+            if is_ratio_u8 {
+                let ratios: Vec<u8> = archive.read_vec(count as usize)?;
+                Ok(ratios.into_iter().map(u16::from).collect())
+            } else {
+                archive.read_vec(count as usize)
             }
-        } else {
-            archive.read_slice(animation.s_ratios_mut())?;
         }
-        archive.read_slice(animation.s_previouses_mut())?;
-        archive.read_slice(animation.s_iframe_entries_mut())?;
-        archive.read_slice(animation.s_iframe_desc_mut())?;
-        animation.s_iframe_interval = archive.read()?;
-        archive.read_slice(animation.scales_mut())?;
-        animation.update_id();
-        Ok(animation)
+
+        let t_ratios = read_ratios(archive, meta.translations_count, is_ratio_u8)?;
+        let t_previouses = archive.read_vec(meta.translations_count as usize)?;
+        let t_iframe_entries = archive.read_vec(meta.t_iframe_entries_count as usize)?;
+        let t_iframe_desc = archive.read_vec(meta.t_iframe_desc_count as usize)?;
+        let t_iframe_interval = archive.read()?;
+        let translations = archive.read_vec(meta.translations_count as usize)?;
+
+        let r_ratios = read_ratios(archive, meta.rotations_count, is_ratio_u8)?;
+        let r_previouses = archive.read_vec(meta.rotations_count as usize)?;
+        let r_iframe_entries = archive.read_vec(meta.r_iframe_entries_count as usize)?;
+        let r_iframe_desc = archive.read_vec(meta.r_iframe_desc_count as usize)?;
+        let r_iframe_interval = archive.read()?;
+        let rotations = archive.read_vec(meta.rotations_count as usize)?;
+
+        let s_ratios = read_ratios(archive, meta.scales_count, is_ratio_u8)?;
+        let s_previouses = archive.read_vec(meta.scales_count as usize)?;
+        let s_iframe_entries = archive.read_vec(meta.s_iframe_entries_count as usize)?;
+        let s_iframe_desc = archive.read_vec(meta.s_iframe_desc_count as usize)?;
+        let s_iframe_interval = archive.read()?;
+        let scales = archive.read_vec(meta.scales_count as usize)?;
+
+        Ok(Animation::from_raw(&AnimationRaw {
+            duration: meta.duration,
+            num_tracks: meta.num_tracks,
+            name: meta.name,
+            timepoints,
+
+            translations,
+            t_ratios,
+            t_previouses,
+            t_iframe_interval,
+            t_iframe_entries,
+            t_iframe_desc,
+
+            rotations,
+            r_ratios,
+            r_previouses,
+            r_iframe_interval,
+            r_iframe_entries,
+            r_iframe_desc,
+
+            scales,
+            s_ratios,
+            s_previouses,
+            s_iframe_interval,
+            s_iframe_entries,
+            s_iframe_desc,
+        }))
     }
 
     /// Reads an `Animation` from a file path.
diff --git a/src/archive.rs b/src/archive.rs
index 528133e..2572e3e 100644
--- a/src/archive.rs
+++ b/src/archive.rs
@@ -120,6 +120,9 @@ impl Archive<Cursor<&[u8]>> {
     }
 }
 
+/// The maximum number of elements allocated before they are read from the archive.
+pub(crate) const MAX_PREALLOC: usize = 1024;
+
 /// Implements `ArchiveRead` to read `T` from Archive.
 pub trait ArchiveRead<T> {
     /// Reads `T` from the archive.
@@ -129,7 +132,8 @@ pub trait ArchiveRead<T> {
     /// * `count` - The number of elements to read.
     #[inline]
     fn read_vec<R: Read>(archive: &mut Archive<R>, count: usize) -> Result<Vec<T>, OzzError> {
-        let mut buffer = Vec::with_capacity(count);
+        // A damaged `count` must not decide how much memory is allocated, grow with the data instead.
+        let mut buffer = Vec::with_capacity(count.min(MAX_PREALLOC));
         for _ in 0..count {
             buffer.push(Self::read(archive)?);
         }
diff --git a/src/skeleton.rs b/src/skeleton.rs
index 56f1930..567d45d 100644
--- a/src/skeleton.rs
+++ b/src/skeleton.rs
@@ -7,7 +7,7 @@ use std::alloc::{self, Layout};
 use std::io::Read;
 use std::{mem, slice};
 
-use crate::archive::Archive;
+use crate::archive::{Archive, MAX_PREALLOC};
 use crate::base::{DeterministicState, OzzError, OzzIndex};
 use crate::math::SoaTransform;
 
@@ -102,7 +102,7 @@ impl Skeleton {
 
         let _char_count: u32 = archive.read()?;
         let mut joint_names = BiHashMap::with_capacity_and_hashers(
-            num_joints as usize,
+            (num_joints as usize).min(MAX_PREALLOC),
             DeterministicState::new(),
             DeterministicState::new(),
         );
@@ -122,19 +122,16 @@ impl Skeleton {
 
     /// Reads a `Skeleton` from a reader.
     pub fn from_archive(archive: &mut Archive<impl Read>) -> Result<Skeleton, OzzError> {
-        let meta = Skeleton::read_meta(archive, false)?;
-        let mut skeleton = Skeleton::new(meta);
-        if skeleton.num_joints() == 0 {
-            return Ok(skeleton); // an empty skeleton stores nothing else
-        }
-
-        let _char_count: u32 = archive.read()?;
-        for idx in 0..skeleton.num_joints() {
-            skeleton.joint_names.insert(archive.read::<String>()?, idx as i16);
-        }
+        // Memory is allocated for what has been read, the counts in a damaged archive can be anything.
+        let mut meta = Skeleton::read_meta(archive, true)?;
+        let joint_names = mem::take(&mut meta.joint_names);
+        let joint_parents = mem::take(&mut meta.joint_parents);
+        let joint_rest_poses: Vec<SoaTransform> = archive.read_vec(meta.num_joints.div_ceil(4) as usize)?;
 
-        archive.read_slice(skeleton.joint_parents_mut())?;
-        archive.read_slice(skeleton.joint_rest_poses_mut())?;
+        let mut skeleton = Skeleton::new(meta);
+        skeleton.joint_rest_poses_mut().copy_from_slice(&joint_rest_poses);
+        skeleton.joint_parents_mut().copy_from_slice(&joint_parents);
+        skeleton.joint_names = joint_names;
         Ok(skeleton)
     }
 
-- 
2.43.0


From 59b1ddc4df0aef349b958c6b4d52cf855fee102d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:11 +0000
Subject: [PATCH 11/27] fix: a fresh sampling context does not expose previous
 memory content

---
 src/sampling_job.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index 6241ffd..f2b17db 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -307,7 +307,7 @@ impl SamplingContext {
 
         unsafe {
             let layout = Layout::from_size_align_unchecked(size, mem::size_of::<f32x4>());
-            let mut ptr = alloc::alloc(layout);
+            let mut ptr = alloc::alloc_zeroed(layout);
             let mut ctx = SamplingContext(ptr as *mut SamplingContextInner);
             let inner = ctx.inner_mut();
             *inner = SamplingContextInner::default();
-- 
2.43.0


From b6d2bc7f9b56bc2844c02b602aab842354d13c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:37 +0000
Subject: [PATCH 12/27] fix: refused memory goes through the standard
 allocation error

---
 src/animation.rs    | 3 +++
 src/sampling_job.rs | 3 +++
 src/skeleton.rs     | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/animation.rs b/src/animation.rs
index ec41754..4f2a007 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -582,6 +582,9 @@ impl Animation {
         unsafe {
             let layout = Layout::from_size_align_unchecked(animation.size, mem::size_of::<f32>());
             let mut ptr = alloc::alloc(layout);
+            if ptr.is_null() {
+                alloc::handle_alloc_error(layout);
+            }
 
             animation.timepoints = ptr as *mut f32;
             ptr = ptr.add(animation.timepoints_count as usize * mem::size_of::<f32>());
diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index f2b17db..99d8cb6 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -308,6 +308,9 @@ impl SamplingContext {
         unsafe {
             let layout = Layout::from_size_align_unchecked(size, mem::size_of::<f32x4>());
             let mut ptr = alloc::alloc_zeroed(layout);
+            if ptr.is_null() {
+                alloc::handle_alloc_error(layout);
+            }
             let mut ctx = SamplingContext(ptr as *mut SamplingContextInner);
             let inner = ctx.inner_mut();
             *inner = SamplingContextInner::default();
diff --git a/src/skeleton.rs b/src/skeleton.rs
index 567d45d..141d552 100644
--- a/src/skeleton.rs
+++ b/src/skeleton.rs
@@ -191,6 +191,9 @@ impl Skeleton {
         unsafe {
             let layout = Layout::from_size_align_unchecked(skeleton.size, ALIGN);
             let mut ptr = alloc::alloc(layout);
+            if ptr.is_null() {
+                alloc::handle_alloc_error(layout);
+            }
 
             skeleton.joint_rest_poses = ptr as *mut SoaTransform;
             ptr = ptr.add(mem::size_of::<SoaTransform>() * skeleton.num_soa_joints());
-- 
2.43.0


From 78e2546ce8aa5971dd5a125a32ef8f60b01ca109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:10 +0000
Subject: [PATCH 13/27] fix: empty animations and skeletons do not request zero
 bytes

---
 src/animation.rs | 17 +++++++++++------
 src/skeleton.rs  | 17 +++++++++++------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index 4f2a007..15297fe 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -224,9 +224,11 @@ pub struct Animation {
 impl Drop for Animation {
     fn drop(&mut self) {
         if !self.timepoints.is_null() {
-            unsafe {
-                let layout = Layout::from_size_align_unchecked(self.size, mem::size_of::<f32>());
-                alloc::dealloc(self.timepoints as *mut u8, layout);
+            if self.size != 0 {
+                unsafe {
+                    let layout = Layout::from_size_align_unchecked(self.size, mem::size_of::<f32>());
+                    alloc::dealloc(self.timepoints as *mut u8, layout);
+                }
             }
             self.timepoints = std::ptr::null_mut();
             self.translations = std::ptr::null_mut();
@@ -581,9 +583,12 @@ impl Animation {
 
         unsafe {
             let layout = Layout::from_size_align_unchecked(animation.size, mem::size_of::<f32>());
-            let mut ptr = alloc::alloc(layout);
-            if ptr.is_null() {
-                alloc::handle_alloc_error(layout);
+            let mut ptr = ALIGN as *mut u8; // dangling, an empty animation has no memory
+            if animation.size != 0 {
+                ptr = alloc::alloc(layout);
+                if ptr.is_null() {
+                    alloc::handle_alloc_error(layout);
+                }
             }
 
             animation.timepoints = ptr as *mut f32;
diff --git a/src/skeleton.rs b/src/skeleton.rs
index 141d552..a91e9f0 100644
--- a/src/skeleton.rs
+++ b/src/skeleton.rs
@@ -41,9 +41,11 @@ unsafe impl Sync for Skeleton {}
 impl Drop for Skeleton {
     fn drop(&mut self) {
         if !self.joint_rest_poses.is_null() {
-            unsafe {
-                let layout = Layout::from_size_align_unchecked(self.size, mem::align_of::<SoaTransform>());
-                alloc::dealloc(self.joint_rest_poses as *mut u8, layout);
+            if self.size != 0 {
+                unsafe {
+                    let layout = Layout::from_size_align_unchecked(self.size, mem::align_of::<SoaTransform>());
+                    alloc::dealloc(self.joint_rest_poses as *mut u8, layout);
+                }
             }
             self.joint_rest_poses = std::ptr::null_mut();
             self.joint_parents = std::ptr::null_mut();
@@ -190,9 +192,12 @@ impl Skeleton {
 
         unsafe {
             let layout = Layout::from_size_align_unchecked(skeleton.size, ALIGN);
-            let mut ptr = alloc::alloc(layout);
-            if ptr.is_null() {
-                alloc::handle_alloc_error(layout);
+            let mut ptr = ALIGN as *mut u8; // dangling, an empty skeleton has no memory
+            if skeleton.size != 0 {
+                ptr = alloc::alloc(layout);
+                if ptr.is_null() {
+                    alloc::handle_alloc_error(layout);
+                }
             }
 
             skeleton.joint_rest_poses = ptr as *mut SoaTransform;
-- 
2.43.0


From d17037c148387dcd9b832b6bb5fca907e5b475bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:40 +0000
Subject: [PATCH 14/27] fix: SoA values are serialised in the form they are
 deserialised from

---
 src/math.rs         | 15 ++-------------
 src/sampling_job.rs |  8 ++------
 2 files changed, 4 insertions(+), 19 deletions(-)

diff --git a/src/math.rs b/src/math.rs
index d2629d0..8b51188 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -220,16 +220,11 @@ const _: () = {
 
 #[cfg(feature = "serde")]
 const _: () = {
-    use serde::ser::SerializeSeq;
     use serde::{Deserialize, Serialize, Serializer};
 
     impl Serialize for SoaVec3 {
         fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-            let mut seq = serializer.serialize_seq(Some(3))?;
-            seq.serialize_element(&self.x.as_array())?;
-            seq.serialize_element(&self.y.as_array())?;
-            seq.serialize_element(&self.z.as_array())?;
-            seq.end()
+            [self.x.as_array(), self.y.as_array(), self.z.as_array()].serialize(serializer)
         }
     }
 
@@ -459,17 +454,11 @@ const _: () = {
 
 #[cfg(feature = "serde")]
 const _: () = {
-    use serde::ser::SerializeSeq;
     use serde::{Deserialize, Serialize, Serializer};
 
     impl Serialize for SoaQuat {
         fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-            let mut seq = serializer.serialize_seq(Some(3))?;
-            seq.serialize_element(&self.x.as_array())?;
-            seq.serialize_element(&self.y.as_array())?;
-            seq.serialize_element(&self.z.as_array())?;
-            seq.serialize_element(&self.w.as_array())?;
-            seq.end()
+            [self.x.as_array(), self.y.as_array(), self.z.as_array(), self.w.as_array()].serialize(serializer)
         }
     }
 
diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index 99d8cb6..4520f4f 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -122,15 +122,11 @@ const _: () = {
 
 #[cfg(feature = "serde")]
 mod serde_interp {
-    use serde::ser::SerializeSeq;
-    use serde::{Deserialize, Deserializer, Serializer};
+    use serde::{Deserialize, Deserializer, Serialize, Serializer};
     use std::simd::prelude::*;
 
     pub(crate) fn serialize<S: Serializer>(value: &[f32x4; 2], serializer: S) -> Result<S::Ok, S::Error> {
-        let mut seq = serializer.serialize_seq(Some(2))?;
-        seq.serialize_element(value[0].as_array())?;
-        seq.serialize_element(value[1].as_array())?;
-        seq.end()
+        [value[0].as_array(), value[1].as_array()].serialize(serializer)
     }
 
     pub(crate) fn deserialize<'de, D: Deserializer<'de>>(deserializer: D) -> Result<[f32x4; 2], D::Error> {
-- 
2.43.0


From f93075f654d2306d12848a862069f4e0b062531f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:07 +0000
Subject: [PATCH 15/27] fix: sampling contexts restore from every serde source,
 whatever the field order

---
 src/sampling_job.rs | 167 +++++++++++++++++++-------------------------
 1 file changed, 72 insertions(+), 95 deletions(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index 4520f4f..f9b8696 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -791,111 +791,88 @@ const _: () = {
 
 #[cfg(feature = "serde")]
 const _: () = {
-    use serde::de::{self, MapAccess, Visitor};
-    use serde::ser::SerializeMap;
+    use serde::de::Error;
+    use serde::ser::SerializeStruct;
     use serde::{Deserialize, Deserializer, Serialize, Serializer};
 
     impl Serialize for SamplingContext {
         fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-            let mut map = serializer.serialize_map(None)?;
-            map.serialize_entry("size", &self.size())?;
-            map.serialize_entry("max_tracks", &self.max_tracks())?;
-            map.serialize_entry("max_soa_tracks", &self.max_soa_tracks())?;
-            map.serialize_entry("max_outdated", &self.max_outdated())?;
-            map.serialize_entry("animation_id", &self.animation_id())?;
-            map.serialize_entry("ratio", &self.ratio())?;
-            map.serialize_entry("translations", self.translations())?;
-            map.serialize_entry("rotations", self.rotations())?;
-            map.serialize_entry("scales", self.scales())?;
-            map.serialize_entry("translation_entries", self.translation_entries())?;
-            map.serialize_entry("translation_outdated", self.translation_outdated())?;
-            map.serialize_entry("translation_next", &self.translation_next())?;
-            map.serialize_entry("rotation_entries", self.rotation_entries())?;
-            map.serialize_entry("rotation_outdated", self.rotation_outdated())?;
-            map.serialize_entry("rotation_next", &self.rotation_next())?;
-            map.serialize_entry("scale_entries", self.scale_entries())?;
-            map.serialize_entry("scale_outdated", self.scale_outdated())?;
-            map.serialize_entry("scale_next", &self.scale_next())?;
-            map.end()
+            let mut st = serializer.serialize_struct("SamplingContext", 18)?;
+            st.serialize_field("size", &self.size())?;
+            st.serialize_field("max_tracks", &self.max_tracks())?;
+            st.serialize_field("max_soa_tracks", &self.max_soa_tracks())?;
+            st.serialize_field("max_outdated", &self.max_outdated())?;
+            st.serialize_field("animation_id", &self.animation_id())?;
+            st.serialize_field("ratio", &self.ratio())?;
+            st.serialize_field("translations", self.translations())?;
+            st.serialize_field("rotations", self.rotations())?;
+            st.serialize_field("scales", self.scales())?;
+            st.serialize_field("translation_entries", self.translation_entries())?;
+            st.serialize_field("translation_outdated", self.translation_outdated())?;
+            st.serialize_field("translation_next", &self.translation_next())?;
+            st.serialize_field("rotation_entries", self.rotation_entries())?;
+            st.serialize_field("rotation_outdated", self.rotation_outdated())?;
+            st.serialize_field("rotation_next", &self.rotation_next())?;
+            st.serialize_field("scale_entries", self.scale_entries())?;
+            st.serialize_field("scale_outdated", self.scale_outdated())?;
+            st.serialize_field("scale_next", &self.scale_next())?;
+            st.end()
         }
     }
 
-    impl<'de> Deserialize<'de> for SamplingContext {
-        fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<SamplingContext, D::Error> {
-            deserializer.deserialize_map(SamplingContextVisitor)
+    // The fields written by `Serialize`, in the same order.
+    #[derive(Deserialize)]
+    #[serde(rename = "SamplingContext")]
+    struct SamplingContextRaw {
+        #[serde(default, rename = "size")]
+        _size: usize,
+        max_tracks: usize,
+        #[serde(default, rename = "max_soa_tracks")]
+        _max_soa_tracks: usize,
+        #[serde(default, rename = "max_outdated")]
+        _max_outdated: usize,
+        animation_id: u64,
+        ratio: f32,
+        translations: Vec<InterpSoaFloat3>,
+        rotations: Vec<InterpSoaQuaternion>,
+        scales: Vec<InterpSoaFloat3>,
+        translation_entries: Vec<u32>,
+        translation_outdated: Vec<u8>,
+        translation_next: usize,
+        rotation_entries: Vec<u32>,
+        rotation_outdated: Vec<u8>,
+        rotation_next: usize,
+        scale_entries: Vec<u32>,
+        scale_outdated: Vec<u8>,
+        scale_next: usize,
+    }
+
+    fn copy<T: Copy, E: Error>(to: &mut [T], from: &[T]) -> Result<(), E> {
+        if to.len() != from.len() {
+            return Err(E::invalid_length(from.len(), &"as many items as max_tracks implies"));
         }
+        to.copy_from_slice(from);
+        Ok(())
     }
 
-    struct SamplingContextVisitor;
-
-    impl<'de> Visitor<'de> for SamplingContextVisitor {
-        type Value = SamplingContext;
-
-        fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
-            formatter.write_str("struct SamplingContext")
-        }
-
-        fn visit_map<V: MapAccess<'de>>(self, mut map: V) -> Result<Self::Value, V::Error> {
-            let mut max_tracks: Option<usize> = None;
-            while let Some(key) = map.next_key::<&str>()? {
-                if key == "max_tracks" {
-                    max_tracks = Some(map.next_value()?);
-                    break;
-                } else {
-                    map.next_value::<serde::de::IgnoredAny>()?;
-                }
-            }
-            let mut ctx: SamplingContext = match max_tracks {
-                Some(max_tracks) => SamplingContext::new(max_tracks),
-                None => return Err(de::Error::custom("Miss field max_tracks")),
-            };
-
-            while let Some(key) = map.next_key()? {
-                match key {
-                    "animation_id" => ctx.set_animation_id(map.next_value()?),
-                    "ratio" => ctx.set_ratio(map.next_value()?),
-                    "translations" => {
-                        ctx.translations_mut()
-                            .copy_from_slice(&map.next_value::<Vec<InterpSoaFloat3>>()?);
-                    }
-                    "translation_entries" => {
-                        ctx.translation_entries_mut()
-                            .copy_from_slice(&map.next_value::<Vec<u32>>()?);
-                    }
-                    "translation_outdated" => {
-                        ctx.translation_outdated_mut()
-                            .copy_from_slice(&map.next_value::<Vec<u8>>()?);
-                    }
-                    "translation_next" => ctx.set_translation_next(map.next_value()?),
-                    "rotations" => {
-                        ctx.rotations_mut()
-                            .copy_from_slice(&map.next_value::<Vec<InterpSoaQuaternion>>()?);
-                    }
-                    "rotation_entries" => {
-                        ctx.rotation_entries_mut()
-                            .copy_from_slice(&map.next_value::<Vec<u32>>()?);
-                    }
-                    "rotation_outdated" => {
-                        ctx.rotation_outdated_mut()
-                            .copy_from_slice(&map.next_value::<Vec<u8>>()?);
-                    }
-                    "rotation_next" => ctx.set_rotation_next(map.next_value()?),
-                    "scales" => {
-                        ctx.scales_mut()
-                            .copy_from_slice(&map.next_value::<Vec<InterpSoaFloat3>>()?);
-                    }
-                    "scale_entries" => {
-                        ctx.scale_entries_mut().copy_from_slice(&map.next_value::<Vec<u32>>()?);
-                    }
-                    "scale_outdated" => {
-                        ctx.scale_outdated_mut().copy_from_slice(&map.next_value::<Vec<u8>>()?);
-                    }
-                    "scale_next" => ctx.set_scale_next(map.next_value()?),
-                    _ => {
-                        map.next_value::<serde::de::IgnoredAny>()?;
-                    }
-                }
-            }
+    impl<'de> Deserialize<'de> for SamplingContext {
+        fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<SamplingContext, D::Error> {
+            let raw = SamplingContextRaw::deserialize(deserializer)?;
+            let mut ctx = SamplingContext::new(raw.max_tracks);
+            ctx.set_animation_id(raw.animation_id);
+            ctx.set_ratio(raw.ratio);
+            copy(ctx.translations_mut(), &raw.translations)?;
+            copy(ctx.translation_entries_mut(), &raw.translation_entries)?;
+            copy(ctx.translation_outdated_mut(), &raw.translation_outdated)?;
+            ctx.set_translation_next(raw.translation_next);
+            copy(ctx.rotations_mut(), &raw.rotations)?;
+            copy(ctx.rotation_entries_mut(), &raw.rotation_entries)?;
+            copy(ctx.rotation_outdated_mut(), &raw.rotation_outdated)?;
+            ctx.set_rotation_next(raw.rotation_next);
+            copy(ctx.scales_mut(), &raw.scales)?;
+            copy(ctx.scale_entries_mut(), &raw.scale_entries)?;
+            copy(ctx.scale_outdated_mut(), &raw.scale_outdated)?;
+            ctx.set_scale_next(raw.scale_next);
             Ok(ctx)
         }
     }
-- 
2.43.0


From dd6c513b23102731eaa27795aa0aad30a160b634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:40 +0000
Subject: [PATCH 16/27] fix: validating an archived sampling context checks its
 own alignment

---
 src/sampling_job.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index f9b8696..afe198d 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -781,8 +781,8 @@ const _: () = {
 
         #[inline]
         unsafe fn check_bytes<'a>(value: *const Self, _: &mut C) -> Result<&'a Self, Self::Error> {
-            if value as usize % mem::align_of::<f32x4>() != 0 {
-                return Err(Error::new(ErrorKind::InvalidData, "must be aligned to 16 bytes"));
+            if value as usize % mem::align_of::<ArchivedSamplingContext>() != 0 {
+                return Err(Error::new(ErrorKind::InvalidData, "must be aligned to 8 bytes"));
             }
             Ok(&*value)
         }
-- 
2.43.0


From ea6a80e23e9df868764b2839267242dc1f717b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:34 +0000
Subject: [PATCH 17/27] fix: animations restored by rkyv get their identity too

---
 src/animation.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/animation.rs b/src/animation.rs
index 15297fe..7189dca 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -1129,6 +1129,7 @@ const _: () = {
                 .s_iframe_desc_mut()
                 .copy_from_slice(archived.s_iframe_desc.as_slice());
             animation.s_iframe_interval = archived.s_iframe_interval;
+            animation.update_id();
 
             Ok(animation)
         }
-- 
2.43.0


From c3c176a5106677e147252c3799dabeab72eb3d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:36 +0000
Subject: [PATCH 18/27] fix: skeletons are saved with their joint names in
 joint order

The order of the name map depends on its capacity and on how it was
filled, so a restored skeleton was saved to other bytes than the
original one.
---
 src/skeleton.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/skeleton.rs b/src/skeleton.rs
index a91e9f0..ffb48d0 100644
--- a/src/skeleton.rs
+++ b/src/skeleton.rs
@@ -67,9 +67,23 @@ pub struct SkeletonMeta {
 pub(crate) struct SkeletonRaw {
     pub joint_rest_poses: Vec<SoaTransform>,
     pub joint_parents: Vec<i16>,
+    #[cfg_attr(feature = "serde", serde(serialize_with = "serialize_joint_names"))]
     pub joint_names: JointHashMap,
 }
 
+/// Joint names ordered by joint index. The map's own order depends on how it was filled.
+#[cfg(any(feature = "rkyv", feature = "serde"))]
+fn sorted_joint_names(joint_names: &JointHashMap) -> Vec<(&String, &i16)> {
+    let mut names: Vec<_> = joint_names.iter().collect();
+    names.sort_unstable_by_key(|(_, index)| **index);
+    names
+}
+
+#[cfg(feature = "serde")]
+fn serialize_joint_names<S: serde::Serializer>(joint_names: &JointHashMap, serializer: S) -> Result<S::Ok, S::Error> {
+    serializer.collect_map(sorted_joint_names(joint_names))
+}
+
 impl Skeleton {
     /// `Skeleton` resource file tag for `Archive`.
     #[inline]
@@ -360,7 +374,9 @@ const _: () = {
             Ok(SkeletonResolver {
                 joint_rest_poses: ArchivedVec::serialize_from_slice(self.joint_rest_poses(), serializer)?,
                 joint_names: ArchivedVec::serialize_from_iter(
-                    self.joint_names().iter().map(|(key, value)| Entry { key, value }),
+                    sorted_joint_names(self.joint_names())
+                        .into_iter()
+                        .map(|(key, value)| Entry { key, value }),
                     serializer,
                 )?,
                 joint_parents: ArchivedVec::serialize_from_slice(self.joint_parents(), serializer)?,
-- 
2.43.0


From 6ac1d09c8b9d466e307eef2453cf8e96fbf856bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:50 +0000
Subject: [PATCH 19/27] fix: blending checks every layer before it writes
 anything

---
 src/blending_job.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/blending_job.rs b/src/blending_job.rs
index 252feb9..2af661d 100644
--- a/src/blending_job.rs
+++ b/src/blending_job.rs
@@ -310,6 +310,11 @@ where
             return Err(OzzError::InvalidJob);
         }
 
+        // Checks all layers before anything is written.
+        for layer in self.layers.iter().chain(&self.additive_layers) {
+            Self::check_layer(skeleton, layer)?;
+        }
+
         ctx.num_partial_passes = 0;
         ctx.num_passes = 0;
         ctx.accumulated_weight = 0.0;
@@ -324,6 +329,17 @@ where
         Ok(())
     }
 
+    fn check_layer(skeleton: &Skeleton, layer: &BlendingLayer<I>) -> Result<(), OzzError> {
+        let mut ok = layer.transform.buf()?.len() >= skeleton.num_soa_joints();
+        if !layer.joint_weights.is_empty() {
+            ok &= layer.joint_weights.len() >= skeleton.num_soa_joints();
+        }
+        match ok {
+            true => Ok(()),
+            false => Err(OzzError::InvalidJob),
+        }
+    }
+
     fn blend_layers(
         skeleton: &Skeleton,
         ctx: &mut BlendingContext,
-- 
2.43.0


From 0501b584438dbcf1e362467696b836268a59ec26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:50 +0000
Subject: [PATCH 20/27] fix: skinning size checks do not overflow

---
 src/skinning_job.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/skinning_job.rs b/src/skinning_job.rs
index 7ff21c9..059ce34 100644
--- a/src/skinning_job.rs
+++ b/src/skinning_job.rs
@@ -343,11 +343,11 @@ where
             ok &= !self.joint_matrices.as_ref()?.buf().ok()?.is_empty();
 
             let joint_indices = self.joint_indices.as_ref()?.buf().ok()?;
-            ok &= joint_indices.len() >= self.vertex_count * self.influences_count;
+            ok &= joint_indices.len() >= self.vertex_count.saturating_mul(self.influences_count);
 
             if self.influences_count > 1 {
                 let joint_weights = self.joint_weights.as_ref()?.buf().ok()?;
-                ok &= joint_weights.len() >= self.vertex_count * (self.influences_count - 1);
+                ok &= joint_weights.len() >= self.vertex_count.saturating_mul(self.influences_count - 1);
             }
 
             ok &= self.in_positions.as_ref()?.buf().ok()?.len() >= self.vertex_count;
@@ -452,8 +452,8 @@ macro_rules! skinning_impl {
     ($self:expr, $n:expr, $it:tt, $pnt:tt) => {
         let matrices = unpack_buf(&$self.joint_matrices, 1)?;
         it!($it, let it_matrices = $self.joint_it_matrices.as_ref().ok_or(OzzError::InvalidJob)?.buf()?);
-        let indices = unpack_buf(&$self.joint_indices, $self.vertex_count * $n)?;
-        let weights = unpack_buf(&$self.joint_weights, $self.vertex_count * ($n - 1))?;
+        let indices = unpack_buf(&$self.joint_indices, $self.vertex_count.saturating_mul($n))?;
+        let weights = unpack_buf(&$self.joint_weights, $self.vertex_count.saturating_mul($n - 1))?;
 
         pnt!($pnt,
             let in_positions = unpack_buf(&$self.in_positions, $self.vertex_count)?;
-- 
2.43.0


From 34bad099bb87196eaa02180f12bcbfa2d5e9d38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:37 +0000
Subject: [PATCH 21/27] fix: joint weights of negative zero blend alike on
 every platform

---
 src/blending_job.rs | 10 +++++-----
 src/math.rs         |  7 +++++++
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/blending_job.rs b/src/blending_job.rs
index 2af661d..5f8a7cf 100644
--- a/src/blending_job.rs
+++ b/src/blending_job.rs
@@ -9,7 +9,7 @@ use std::simd::prelude::*;
 use std::sync::{Arc, RwLock};
 
 use crate::base::{OzzBuf, OzzError, OzzMutBuf, OzzObj};
-use crate::math::{fx4_from_vec4, fx4_sign, SoaQuat, SoaTransform, SoaVec3};
+use crate::math::{fx4_from_vec4, fx4_positive, fx4_sign, SoaQuat, SoaTransform, SoaVec3};
 use crate::skeleton::Skeleton;
 
 const ZERO: f32x4 = f32x4::from_array([0.0; 4]);
@@ -368,13 +368,13 @@ where
 
                 if ctx.num_passes == 0 {
                     for idx in 0..num_soa_joints {
-                        let weight = layer_weight * layer.joint_weight(idx).simd_max(ZERO);
+                        let weight = layer_weight * fx4_positive(layer.joint_weight(idx));
                         ctx.accumulated_weights[idx] = weight;
                         Self::blend_1st_pass(&transform[idx], weight, &mut output[idx]);
                     }
                 } else {
                     for idx in 0..num_soa_joints {
-                        let weight = layer_weight * layer.joint_weight(idx).simd_max(ZERO);
+                        let weight = layer_weight * fx4_positive(layer.joint_weight(idx));
                         ctx.accumulated_weights[idx] += weight;
                         Self::blend_n_pass(&transform[idx], weight, &mut output[idx]);
                     }
@@ -466,7 +466,7 @@ where
 
                 if !layer.joint_weights.is_empty() {
                     for idx in 0..joint_rest_poses.len() {
-                        let weight = layer_weight * layer.joint_weight(idx).simd_max(ZERO);
+                        let weight = layer_weight * fx4_positive(layer.joint_weight(idx));
                         let one_minus_weight = ONE - weight;
                         Self::blend_add_pass(&transform[idx], weight, one_minus_weight, &mut output[idx]);
                     }
@@ -481,7 +481,7 @@ where
 
                 if !layer.joint_weights.is_empty() {
                     for idx in 0..joint_rest_poses.len() {
-                        let weight = layer_weight * layer.joint_weight(idx).simd_max(ZERO);
+                        let weight = layer_weight * fx4_positive(layer.joint_weight(idx));
                         let one_minus_weight = ONE - weight;
                         Self::blend_sub_pass(&transform[idx], weight, one_minus_weight, &mut output[idx]);
                     }
diff --git a/src/math.rs b/src/math.rs
index 8b51188..156bda6 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -1051,6 +1051,13 @@ pub(crate) fn fx4_xor(v: f32x4, s: i32x4) -> f32x4 {
     fx4(ix4(v) ^ s)
 }
 
+/// Zeros all lanes that are not positive (negative zero and NaN included).
+/// `simd_max` may return either of two zeros of different signs, so its result depends on the platform.
+#[inline(always)]
+pub(crate) fn fx4_positive(v: f32x4) -> f32x4 {
+    v.simd_gt(ZERO).select(v, ZERO)
+}
+
 #[inline(always)]
 pub(crate) fn fx4_clamp_or_max(v: f32x4, min: f32x4, max: f32x4) -> f32x4 {
     // f32x4::clamp may produce NaN if self is NaN.
-- 
2.43.0


From a0ac9d882f1aa6fa0f7d95e42ce8b99e7788b71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:55 +0000
Subject: [PATCH 22/27] fix: clamping negative zero gives the same zero on
 every platform

---
 src/math.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/math.rs b/src/math.rs
index 156bda6..9ba08f1 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -1058,28 +1058,43 @@ pub(crate) fn fx4_positive(v: f32x4) -> f32x4 {
     v.simd_gt(ZERO).select(v, ZERO)
 }
 
+// The clamp functions compare and select. With min and max, negative zero clamped to 0.0 would be
+// either zero, depending on the platform.
+
 #[inline(always)]
 pub(crate) fn fx4_clamp_or_max(v: f32x4, min: f32x4, max: f32x4) -> f32x4 {
     // f32x4::clamp may produce NaN if self is NaN.
     // This implementation always returns max if self is NaN.
-    v.simd_min(max).simd_max(min)
+    let v = v.simd_lt(max).select(v, max);
+    v.simd_gt(min).select(v, min)
 }
 
 #[inline(always)]
 pub(crate) fn fx4_clamp_or_min(v: f32x4, min: f32x4, max: f32x4) -> f32x4 {
     // f32x4::clamp may produce NaN if self is NaN.
     // This implementation always returns min if self is NaN.
-    v.simd_max(min).simd_min(max)
+    let v = v.simd_gt(min).select(v, min);
+    v.simd_lt(max).select(v, max)
 }
 
 #[inline(always)]
 pub(crate) fn f32_clamp_or_max(v: f32, min: f32, max: f32) -> f32 {
-    v.min(max).max(min)
+    let v = if v < max { v } else { max };
+    if v > min {
+        v
+    } else {
+        min
+    }
 }
 
 #[inline(always)]
 pub(crate) fn f32_clamp_or_min(v: f32, min: f32, max: f32) -> f32 {
-    v.max(min).min(max)
+    let v = if v > min { v } else { min };
+    if v < max {
+        v
+    } else {
+        max
+    }
 }
 
 #[allow(clippy::excessive_precision)]
-- 
2.43.0


From 1a3e28131b505cf4fc2fc39e0dd9ec987eecaf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:59 +0000
Subject: [PATCH 23/27] fix: sine and cosine of huge angles are the same on
 every processor

---
 src/math.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math.rs b/src/math.rs
index 9ba08f1..3baef9f 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -1154,7 +1154,8 @@ pub(crate) fn fx4_sin_cos(v: f32x4) -> (f32x4, f32x4) {
     // XXX11b	-cos(x')	 sin(x')
     //
     // So: sin_sign = bit2, cos_sign = bit1 ^ bit2, bit1 determines if we use sin or cos Taylor expansion
-    let quadrant_int: i32x4 = unsafe { quadrant.to_int_unchecked() };
+    // saturates, a conversion out of range would depend on the processor
+    let quadrant_int: i32x4 = quadrant.cast();
     let bit1 = quadrant_int << 31;
     let bit2 = (quadrant_int << 30) & SIGN;
 
-- 
2.43.0


From 835f34b32c277dfabd57b732dd33237f96deba1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:53 +0000
Subject: [PATCH 24/27] fix: a bool read from a damaged archive is always a
 valid bool

---
 src/archive.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/archive.rs b/src/archive.rs
index 2572e3e..fbb0029 100644
--- a/src/archive.rs
+++ b/src/archive.rs
@@ -171,7 +171,6 @@ macro_rules! primitive_reader {
     };
 }
 
-primitive_reader!(bool);
 primitive_reader!(u8);
 primitive_reader!(i8);
 primitive_reader!(u16);
@@ -183,6 +182,14 @@ primitive_reader!(i64);
 primitive_reader!(f32);
 primitive_reader!(f64);
 
+impl ArchiveRead<bool> for bool {
+    #[inline]
+    fn read<R: Read>(archive: &mut Archive<R>) -> Result<bool, OzzError> {
+        // A damaged archive can hold other values than 0 and 1, which must not end up in a `bool`.
+        Ok(u8::read(archive)? != 0)
+    }
+}
+
 impl ArchiveRead<Vec2> for Vec2 {
     #[inline]
     fn read<R: Read>(archive: &mut Archive<R>) -> Result<Vec2, OzzError> {
-- 
2.43.0


From 83b84e97881355b4f84063170fa9acac61f9acec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:53 +0000
Subject: [PATCH 25/27] fix: a sampling context for too many tracks to fit in
 memory panics instead of getting too little memory

---
 src/sampling_job.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index afe198d..3a2d67b 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -284,7 +284,16 @@ impl SamplingContext {
     /// * `max_tracks` - The maximum number of tracks that the context can handle.
     pub fn new(max_tracks: usize) -> SamplingContext {
         const ALIGN: usize = mem::size_of::<f32x4>();
+        const SOA_TRACK_SIZE: usize = mem::size_of::<InterpSoaFloat3>() * 2
+            + mem::size_of::<InterpSoaQuaternion>()
+            + mem::size_of::<i32>() * 4 * 3
+            + mem::size_of::<u8>() * 3;
         let max_soa_tracks = max_tracks.div_ceil(4);
+        // Sizes that overflow would end in less memory than the context takes itself to have.
+        assert!(
+            max_soa_tracks <= (isize::MAX as usize - 1024) / SOA_TRACK_SIZE,
+            "capacity overflow"
+        );
         let max_tracks = max_soa_tracks * 4;
         let max_outdated = max_soa_tracks.div_ceil(8);
         let translation_size = mem::size_of::<InterpSoaFloat3>() * max_soa_tracks
-- 
2.43.0


From 9a3cc5716a7c594d34f767f05053d146bb8adb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:27 +0000
Subject: [PATCH 26/27] fix: a damaged snapshot of a sampling context is an
 error, not invalid or endless memory

---
 src/sampling_job.rs | 89 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 69 insertions(+), 20 deletions(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index 3a2d67b..6e80994 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -358,6 +358,15 @@ impl SamplingContext {
         }
     }
 
+    /// Whether a context for `max_tracks` tracks holds these numbers of SoA tracks, entries and outdated flags.
+    #[cfg(any(feature = "rkyv", feature = "serde"))]
+    fn is_layout(max_tracks: usize, soa_tracks: [usize; 3], entries: [usize; 3], outdated: [usize; 3]) -> bool {
+        let max_soa_tracks = max_tracks.div_ceil(4);
+        soa_tracks == [max_soa_tracks; 3]
+            && entries.iter().all(|n| n % 4 == 0 && n / 4 == max_soa_tracks)
+            && outdated == [max_soa_tracks.div_ceil(8); 3]
+    }
+
     /// Create a new `SamplingContext` from an `Animation`.
     ///
     /// * `animation` - The animation to sample. Use `animation.num_tracks()` as max_tracks.
@@ -672,6 +681,7 @@ pub struct ArchivedSamplingContext {
 const _: () = {
     use bytecheck::CheckBytes;
     use rkyv::ser::{ScratchSpace, Serializer};
+    use rkyv::validation::ArchiveContext;
     use rkyv::vec::{ArchivedVec, VecResolver};
     use rkyv::{from_archived, out_field, Archive, Deserialize, Fallible, Serialize};
     use std::io::{Error, ErrorKind};
@@ -785,14 +795,45 @@ const _: () = {
         }
     }
 
-    impl<C: ?Sized> CheckBytes<C> for ArchivedSamplingContext {
+    impl<C> CheckBytes<C> for ArchivedSamplingContext
+    where
+        C: ArchiveContext + ?Sized,
+        C::Error: std::error::Error,
+    {
         type Error = Error;
 
-        #[inline]
-        unsafe fn check_bytes<'a>(value: *const Self, _: &mut C) -> Result<&'a Self, Self::Error> {
+        unsafe fn check_bytes<'a>(value: *const Self, context: &mut C) -> Result<&'a Self, Self::Error> {
             if value as usize % mem::align_of::<ArchivedSamplingContext>() != 0 {
                 return Err(Error::new(ErrorKind::InvalidData, "must be aligned to 8 bytes"));
             }
+
+            macro_rules! check_vec {
+                ($field:ident, $type:ty) => {
+                    <ArchivedVec<$type>>::check_bytes(ptr::addr_of!((*value).$field), context)
+                        .map_err(|_| Error::new(ErrorKind::InvalidData, concat!("invalid ", stringify!($field))))?
+                        .len()
+                };
+            }
+            // In the order of `Serialize`
+            let soa = [
+                check_vec!(translations, InterpSoaFloat3),
+                check_vec!(rotations, InterpSoaQuaternion),
+                check_vec!(scales, InterpSoaFloat3),
+            ];
+            let entries = [
+                check_vec!(translation_entries, u32),
+                check_vec!(rotation_entries, u32),
+                check_vec!(scale_entries, u32),
+            ];
+            let outdated = [
+                check_vec!(translation_outdated, u8),
+                check_vec!(rotation_outdated, u8),
+                check_vec!(scale_outdated, u8),
+            ];
+            let max_tracks = *ptr::addr_of!((*value).max_tracks) as usize;
+            if !SamplingContext::is_layout(max_tracks, soa, entries, outdated) {
+                return Err(Error::new(ErrorKind::InvalidData, "lengths must match max_tracks"));
+            }
             Ok(&*value)
         }
     }
@@ -856,31 +897,39 @@ const _: () = {
         scale_next: usize,
     }
 
-    fn copy<T: Copy, E: Error>(to: &mut [T], from: &[T]) -> Result<(), E> {
-        if to.len() != from.len() {
-            return Err(E::invalid_length(from.len(), &"as many items as max_tracks implies"));
-        }
-        to.copy_from_slice(from);
-        Ok(())
-    }
-
     impl<'de> Deserialize<'de> for SamplingContext {
         fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<SamplingContext, D::Error> {
             let raw = SamplingContextRaw::deserialize(deserializer)?;
+            if !SamplingContext::is_layout(
+                raw.max_tracks,
+                [raw.translations.len(), raw.rotations.len(), raw.scales.len()],
+                [
+                    raw.translation_entries.len(),
+                    raw.rotation_entries.len(),
+                    raw.scale_entries.len(),
+                ],
+                [
+                    raw.translation_outdated.len(),
+                    raw.rotation_outdated.len(),
+                    raw.scale_outdated.len(),
+                ],
+            ) {
+                return Err(D::Error::custom("lengths must match max_tracks"));
+            }
             let mut ctx = SamplingContext::new(raw.max_tracks);
             ctx.set_animation_id(raw.animation_id);
             ctx.set_ratio(raw.ratio);
-            copy(ctx.translations_mut(), &raw.translations)?;
-            copy(ctx.translation_entries_mut(), &raw.translation_entries)?;
-            copy(ctx.translation_outdated_mut(), &raw.translation_outdated)?;
+            ctx.translations_mut().copy_from_slice(&raw.translations);
+            ctx.translation_entries_mut().copy_from_slice(&raw.translation_entries);
+            ctx.translation_outdated_mut().copy_from_slice(&raw.translation_outdated);
             ctx.set_translation_next(raw.translation_next);
-            copy(ctx.rotations_mut(), &raw.rotations)?;
-            copy(ctx.rotation_entries_mut(), &raw.rotation_entries)?;
-            copy(ctx.rotation_outdated_mut(), &raw.rotation_outdated)?;
+            ctx.rotations_mut().copy_from_slice(&raw.rotations);
+            ctx.rotation_entries_mut().copy_from_slice(&raw.rotation_entries);
+            ctx.rotation_outdated_mut().copy_from_slice(&raw.rotation_outdated);
             ctx.set_rotation_next(raw.rotation_next);
-            copy(ctx.scales_mut(), &raw.scales)?;
-            copy(ctx.scale_entries_mut(), &raw.scale_entries)?;
-            copy(ctx.scale_outdated_mut(), &raw.scale_outdated)?;
+            ctx.scales_mut().copy_from_slice(&raw.scales);
+            ctx.scale_entries_mut().copy_from_slice(&raw.scale_entries);
+            ctx.scale_outdated_mut().copy_from_slice(&raw.scale_outdated);
             ctx.set_scale_next(raw.scale_next);
             Ok(ctx)
         }
-- 
2.43.0


From b04be4d45b27a97e58c2e6ea630a8b1e746af669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:23 +0000
Subject: [PATCH 27/27] fix: damaged snapshots of animations and skeletons are
 errors, not panics or endless memory

---
 src/animation.rs | 10 ++++++++++
 src/skeleton.rs  | 36 +++++++++++++++++++++++++++++++++++-
 2 files changed, 45 insertions(+), 1 deletion(-)

diff --git a/src/animation.rs b/src/animation.rs
index 7189dca..4968cb9 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -1138,6 +1138,7 @@ const _: () = {
 
 #[cfg(feature = "serde")]
 const _: () = {
+    use serde::de::Error;
     use serde::{Deserialize, Deserializer, Serialize, Serializer};
 
     impl Serialize for Animation {
@@ -1150,6 +1151,15 @@ const _: () = {
     impl<'de> Deserialize<'de> for Animation {
         fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Animation, D::Error> {
             let raw = AnimationRaw::deserialize(deserializer)?;
+            let translations = [raw.t_ratios.len(), raw.t_previouses.len()];
+            let rotations = [raw.r_ratios.len(), raw.r_previouses.len()];
+            let scales = [raw.s_ratios.len(), raw.s_previouses.len()];
+            if translations != [raw.translations.len(); 2]
+                || rotations != [raw.rotations.len(); 2]
+                || scales != [raw.scales.len(); 2]
+            {
+                return Err(D::Error::custom("ratios and previouses must match the keys"));
+            }
             Ok(Animation::from_raw(&raw))
         }
     }
diff --git a/src/skeleton.rs b/src/skeleton.rs
index ffb48d0..4fe7992 100644
--- a/src/skeleton.rs
+++ b/src/skeleton.rs
@@ -67,7 +67,13 @@ pub struct SkeletonMeta {
 pub(crate) struct SkeletonRaw {
     pub joint_rest_poses: Vec<SoaTransform>,
     pub joint_parents: Vec<i16>,
-    #[cfg_attr(feature = "serde", serde(serialize_with = "serialize_joint_names"))]
+    #[cfg_attr(
+        feature = "serde",
+        serde(
+            serialize_with = "serialize_joint_names",
+            deserialize_with = "deserialize_joint_names"
+        )
+    )]
     pub joint_names: JointHashMap,
 }
 
@@ -84,6 +90,30 @@ fn serialize_joint_names<S: serde::Serializer>(joint_names: &JointHashMap, seria
     serializer.collect_map(sorted_joint_names(joint_names))
 }
 
+/// Memory is allocated for the names read, the count in damaged data can be anything.
+#[cfg(feature = "serde")]
+fn deserialize_joint_names<'de, D: serde::Deserializer<'de>>(deserializer: D) -> Result<JointHashMap, D::Error> {
+    struct NamesVisitor;
+
+    impl<'de> serde::de::Visitor<'de> for NamesVisitor {
+        type Value = JointHashMap;
+
+        fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+            f.write_str("a map")
+        }
+
+        fn visit_map<A: serde::de::MapAccess<'de>>(self, mut entries: A) -> Result<JointHashMap, A::Error> {
+            let mut names = JointHashMap::with_hashers(DeterministicState::new(), DeterministicState::new());
+            while let Some((name, index)) = entries.next_entry()? {
+                names.insert(name, index);
+            }
+            Ok(names)
+        }
+    }
+
+    deserializer.deserialize_map(NamesVisitor)
+}
+
 impl Skeleton {
     /// `Skeleton` resource file tag for `Archive`.
     #[inline]
@@ -417,6 +447,7 @@ const _: () = {
 
 #[cfg(feature = "serde")]
 const _: () = {
+    use serde::de::Error;
     use serde::{Deserialize, Deserializer, Serialize, Serializer};
 
     impl Serialize for Skeleton {
@@ -429,6 +460,9 @@ const _: () = {
     impl<'de> Deserialize<'de> for Skeleton {
         fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Skeleton, D::Error> {
             let raw = SkeletonRaw::deserialize(deserializer)?;
+            if raw.joint_rest_poses.len() != raw.joint_parents.len().div_ceil(4) {
+                return Err(D::Error::custom("joint_rest_poses must match joint_parents"));
+            }
             Ok(Skeleton::from_raw(&raw))
         }
     }
-- 
2.43.0

