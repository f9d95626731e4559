From 3289aeec6e95799a186638c0b2bfe2de6fac9e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:40 +0000
Subject: [PATCH 1/7] fix: keep exactly the most recent blocks when changing
 the maximum history

Setting a maximum history larger than the number of stored blocks padded the
history with zero-energy blocks, which then counted in the integrated loudness
and loudness range. Setting a smaller one dropped nothing, and the history was
unbounded from then on.
---
 src/history.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index de97a0e..c5a2a14 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -179,9 +179,10 @@ impl Queue {
     }
 
     fn set_max_size(&mut self, max: usize) {
-        if self.queue.len() < max {
+        if self.queue.len() > max {
+            // Only keep the most recent blocks
             // FIXME: Use shrink() once stabilized
-            self.queue.resize(max, 0.0);
+            self.queue.drain(..self.queue.len() - max);
             self.queue.shrink_to_fit();
         }
         self.max = max;
-- 
2.43.0


From 62d3c4e79d95d9577e3d7f235f17fd5402c3109a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:40 +0000
Subject: [PATCH 2/7] fix: allocate enough audio data for the first block at
 low sample rates

With rates like 16 or 25 Hz the rounded 100ms blocks are longer than 100ms and
400ms or 3s of them did not fit into the audio data, so that adding frames
panicked or failed with InvalidMode.
---
 src/ebur128.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ebur128.rs b/src/ebur128.rs
index ff7b88c..b771243 100644
--- a/src/ebur128.rs
+++ b/src/ebur128.rs
@@ -265,6 +265,10 @@ impl EbuR128 {
         let samples_in_100ms = (rate as usize + 5) / 10;
 
         let mut audio_data_frames = (rate as usize).checked_mul(window).ok_or(Error::NoMem)? / 1000;
+        // samples_in_100ms is rounded to the nearest frame, so that 400ms or 3s of blocks can be
+        // longer than the window at low rates
+        let min_blocks = std::cmp::min(window, 3000) / 100;
+        audio_data_frames = std::cmp::max(audio_data_frames, samples_in_100ms * min_blocks);
         if audio_data_frames % samples_in_100ms != 0 {
             // round up to multiple of samples_in_100ms
             audio_data_frames = audio_data_frames
-- 
2.43.0


From a0485c0b0685978f47d82ed5814223187cd5b1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:11 +0000
Subject: [PATCH 3/7] fix: refuse planar frames with a wrong number of channels

They passed all checks and panicked in the filter.
---
 src/ebur128.rs | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/ebur128.rs b/src/ebur128.rs
index b771243..d670d6a 100644
--- a/src/ebur128.rs
+++ b/src/ebur128.rs
@@ -572,6 +572,10 @@ impl EbuR128 {
         &mut self,
         mut src: S,
     ) -> Result<(), Error> {
+        if src.channels() != self.channels as usize {
+            return Err(Error::NoMem);
+        }
+
         if src.frames() == 0 {
             return Ok(());
         }
@@ -664,8 +668,17 @@ impl EbuR128 {
         Ok(())
     }
 
-    fn seed_frames<'a, T: Sample + 'a, S: crate::Samples<'a, T>>(&mut self, src: S) {
+    fn seed_frames<'a, T: Sample + 'a, S: crate::Samples<'a, T>>(
+        &mut self,
+        src: S,
+    ) -> Result<(), Error> {
+        if src.channels() != self.channels as usize {
+            return Err(Error::NoMem);
+        }
+
         self.filter.seed(src, &self.channel_map);
+
+        Ok(())
     }
 
     /// Add interleaved frames to be processed.
@@ -711,57 +724,49 @@ impl EbuR128 {
     /// Add interleaved frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_i16(&mut self, frames: &[i16]) -> Result<(), Error> {
-        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?);
-        Ok(())
+        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?)
     }
 
     /// Add interleaved frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_i32(&mut self, frames: &[i32]) -> Result<(), Error> {
-        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?);
-        Ok(())
+        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?)
     }
 
     /// Add interleaved frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_f32(&mut self, frames: &[f32]) -> Result<(), Error> {
-        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?);
-        Ok(())
+        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?)
     }
 
     /// Add interleaved frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_f64(&mut self, frames: &[f64]) -> Result<(), Error> {
-        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?);
-        Ok(())
+        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?)
     }
 
     /// Add planar frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_planar_i16(&mut self, frames: &[&[i16]]) -> Result<(), Error> {
-        self.seed_frames(crate::Planar::new(frames)?);
-        Ok(())
+        self.seed_frames(crate::Planar::new(frames)?)
     }
 
     /// Add planar frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_planar_i32(&mut self, frames: &[&[i32]]) -> Result<(), Error> {
-        self.seed_frames(crate::Planar::new(frames)?);
-        Ok(())
+        self.seed_frames(crate::Planar::new(frames)?)
     }
 
     /// Add planar frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_planar_f32(&mut self, frames: &[&[f32]]) -> Result<(), Error> {
-        self.seed_frames(crate::Planar::new(frames)?);
-        Ok(())
+        self.seed_frames(crate::Planar::new(frames)?)
     }
 
     /// Add planar frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_planar_f64(&mut self, frames: &[&[f64]]) -> Result<(), Error> {
-        self.seed_frames(crate::Planar::new(frames)?);
-        Ok(())
+        self.seed_frames(crate::Planar::new(frames)?)
     }
 
     /// Get global integrated loudness in LUFS.
-- 
2.43.0


From 531074f81e253294f15d0675b9831be2cdbab329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:11 +0000
Subject: [PATCH 4/7] fix: return NoMem instead of aborting if the audio data
 can't be allocated

---
 src/ebur128.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/ebur128.rs b/src/ebur128.rs
index d670d6a..59de070 100644
--- a/src/ebur128.rs
+++ b/src/ebur128.rs
@@ -277,15 +277,17 @@ impl EbuR128 {
                 - (audio_data_frames % samples_in_100ms);
         }
 
-        let audio_data = vec![
-            0.0;
-            audio_data_frames
-                .checked_mul(channels as usize)
-                .ok_or(Error::NoMem)?
-        ]
-        .into_boxed_slice();
+        let audio_data_samples = audio_data_frames
+            .checked_mul(channels as usize)
+            .ok_or(Error::NoMem)?;
+
+        let mut audio_data = Vec::new();
+        audio_data
+            .try_reserve_exact(audio_data_samples)
+            .map_err(|_| Error::NoMem)?;
+        audio_data.resize(audio_data_samples, 0.0);
 
-        Ok(audio_data)
+        Ok(audio_data.into_boxed_slice())
     }
 
     /// Create a new instance with the given configuration.
-- 
2.43.0


From 983c5161fec30eaeda7c51583e8f21624d821500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:11 +0000
Subject: [PATCH 5/7] fix: overwrite the audio window of channels that are
 currently unused

Otherwise audio older than the window was still measured once the channel is
used again.
---
 src/filter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter.rs b/src/filter.rs
index 86b9270..988c5ff 100644
--- a/src/filter.rs
+++ b/src/filter.rs
@@ -204,6 +204,8 @@ impl Filter {
                 Iterator::zip(channel_map.iter(), dest.chunks_exact_mut(dest_stride)).enumerate()
             {
                 if *channel_map == crate::ebur128::Channel::Unused {
+                    // Don't leave old audio behind in case the channel is used again later
+                    dest[dest_index..][..src.frames()].fill(0.0);
                     continue;
                 }
 
-- 
2.43.0


From 47a30e415da47a1c7e7a81bd1e05a18c0220e77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:11 +0000
Subject: [PATCH 6/7] fix: don't truncate the sample rate in the C API

Rates like 2^32 + 48000 were accepted as 48000.
---
 src/capi.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/capi.rs b/src/capi.rs
index 34142a4..8cdf54d 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -26,6 +26,10 @@ pub unsafe extern "C" fn ebur128_init(
     // Same values as our Mode enum
     mode: i32,
 ) -> *mut State {
+    if samplerate > u32::MAX as std::os::raw::c_ulong {
+        return ptr::null_mut();
+    }
+
     let e = match ebur128::EbuR128::new(
         channels,
         samplerate as u32,
@@ -100,6 +104,10 @@ pub unsafe extern "C" fn ebur128_change_parameters(
         return 4; // EBUR128_ERROR_NO_CHANGE
     }
 
+    if samplerate > u32::MAX as std::os::raw::c_ulong {
+        return ebur128::Error::NoMem.into();
+    }
+
     let e = &mut *s.internal;
 
     match e.change_parameters(channels, samplerate as u32) {
-- 
2.43.0


From 7f5247506fe0233dab15f1a696552c9039ab98dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:39 +0000
Subject: [PATCH 7/7] fix: report no change from the C API if the effective
 window or history stays the same

Values below the minimum for the mode are raised to it, and the default history
of ULONG_MAX could not be requested at all.
---
 src/capi.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/capi.rs b/src/capi.rs
index 8cdf54d..c64c3f3 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -132,12 +132,12 @@ pub unsafe extern "C" fn ebur128_set_max_window(
     let s = &mut *state;
     let e = &mut *s.internal;
 
-    if e.max_window() == window as usize {
-        return 4; // EBUR128_ERROR_NO_CHANGE
-    }
+    // the window might be raised to the minimum for the mode
+    let old_window = e.max_window();
 
     match e.set_max_window(window as u32) {
         Err(err) => err.into(),
+        Ok(_) if e.max_window() == old_window => 4, // EBUR128_ERROR_NO_CHANGE
         Ok(_) => 0,
     }
 }
@@ -147,19 +147,23 @@ pub unsafe extern "C" fn ebur128_set_max_history(
     state: *mut State,
     history: std::os::raw::c_ulong,
 ) -> i32 {
-    if history > u32::MAX as std::os::raw::c_ulong {
-        return ebur128::Error::NoMem.into();
-    }
-
     let s = &mut *state;
     let e = &mut *s.internal;
 
-    if e.max_history() == history as usize {
+    // the history might be raised to the minimum for the mode
+    let old_history = e.max_history();
+
+    if old_history as std::os::raw::c_ulong == history {
         return 4; // EBUR128_ERROR_NO_CHANGE
     }
 
+    if history > u32::MAX as std::os::raw::c_ulong {
+        return ebur128::Error::NoMem.into();
+    }
+
     match e.set_max_history(history as u32) {
         Err(err) => err.into(),
+        Ok(_) if e.max_history() == old_history => 4, // EBUR128_ERROR_NO_CHANGE
         Ok(_) => 0,
     }
 }
-- 
2.43.0

