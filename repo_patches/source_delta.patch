From bcb69d51b3773ffc0f8c34ff7e55648c9fa3bea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:25 +0000
Subject: [PATCH 01/26] fix: samples_to_seconds divides by the sampling rate

---
 src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 6b6ea99..6ce7fa5 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -43,7 +43,7 @@ pub fn clerp<T>(x:T, x1:T, x2:T, y1:T, y2:T) -> T
 
 /// Converts a given sample count to seconds.
 pub fn samples_to_seconds(s: usize) -> std::time::Duration {
-    std::time::Duration::from_secs_f64(s as f64 * SAMPLE_RATE as f64)
+    std::time::Duration::from_secs_f64(s as f64 / SAMPLE_RATE as f64)
 }
 
 /// Converts the given duration to samples, rounded to the nearest sample.
-- 
2.43.0


From c3a31f348459d74420ba10b8d677bb59e3eff4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:25 +0000
Subject: [PATCH 02/26] fix: subtracting two Mono samples subtracts

---
 src/sample_format/mono.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sample_format/mono.rs b/src/sample_format/mono.rs
index a473592..83a0903 100644
--- a/src/sample_format/mono.rs
+++ b/src/sample_format/mono.rs
@@ -86,7 +86,7 @@ impl Sub<Mono> for Mono {
 
     fn sub(self, rhs: Mono) -> Self {
         Mono {
-            mono: self.mono + rhs.mono
+            mono: self.mono - rhs.mono
         }
     }
 }
-- 
2.43.0


From 23720be61d80abe369e2a583d515344d0ab0c052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:25 +0000
Subject: [PATCH 03/26] fix: Stereo::into_sample inverts from_sample

---
 src/sample_format/stereo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sample_format/stereo.rs b/src/sample_format/stereo.rs
index 65eb571..a0478a3 100644
--- a/src/sample_format/stereo.rs
+++ b/src/sample_format/stereo.rs
@@ -50,7 +50,7 @@ impl SampleFormat for Stereo
     }
 
     fn into_sample(self) -> SampleT {
-        (self.left + self.right)/SampleT::sqrt(0.5)
+        (self.left + self.right) * SampleT::sqrt(0.5)
     }
 
     fn num_samples() -> usize {
-- 
2.43.0


From 40eacfb4dda0a323a2b2b8ae0fb92cf2ddfa8f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:25 +0000
Subject: [PATCH 04/26] fix: Stereo *= MathT agrees with Stereo * MathT

---
 src/sample_format/stereo.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sample_format/stereo.rs b/src/sample_format/stereo.rs
index a0478a3..d1bee10 100644
--- a/src/sample_format/stereo.rs
+++ b/src/sample_format/stereo.rs
@@ -192,8 +192,8 @@ impl std::ops::Mul<MathT> for Stereo {
 }
 impl std::ops::MulAssign<MathT> for Stereo {
     fn mul_assign(&mut self, rhs: MathT) {
-        self.left *= rhs as SampleT;
-        self.right *= rhs as SampleT;
+        self.left = (self.left as MathT * rhs) as SampleT;
+        self.right = (self.right as MathT * rhs) as SampleT;
     }
 }
 
-- 
2.43.0


From e63270adcfbe1e23ea7c9c4b38cbea82879848de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:25 +0000
Subject: [PATCH 05/26] fix: panning favours the side panned to and is
 continuous at the centre

---
 src/sample_format/stereo.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sample_format/stereo.rs b/src/sample_format/stereo.rs
index d1bee10..e54e7e8 100644
--- a/src/sample_format/stereo.rs
+++ b/src/sample_format/stereo.rs
@@ -65,14 +65,14 @@ impl SampleFormat for Stereo
 impl Panner<f32> for Stereo {
     fn to_sample_format(s: SampleT, g: f32) -> Self {
         let l_lerp = if g <= 0.0 {
-            utils::clerp(g as MathT, -1.0, 0.0, -3.0, -120.0)
+            utils::clerp(g as MathT, -1.0, 0.0, 0.0, -3.0)
         } else {
-            utils::clerp(g as MathT, 0.0, 1.0, 0.0, -3.0)
+            utils::clerp(g as MathT, 0.0, 1.0, -3.0, -120.0)
         };
         let r_lerp = if g >= 0.0 {
-            utils::clerp(g as MathT, 0.0, 1.0, -3.0, -120.0)
+            utils::clerp(g as MathT, 0.0, 1.0, -3.0, 0.0)
         } else {
-            utils::clerp(g as MathT, -1.0, 0.0, 0.0, -3.0)
+            utils::clerp(g as MathT, -1.0, 0.0, -120.0, -3.0)
         };
 
         Stereo {
@@ -84,14 +84,14 @@ impl Panner<f32> for Stereo {
 impl Panner<f64> for Stereo {
     fn to_sample_format(s: SampleT, g: f64) -> Self {
         let l_lerp = if g <= 0.0 {
-            utils::clerp(g as MathT, -1.0, 0.0, -3.0, -120.0)
+            utils::clerp(g as MathT, -1.0, 0.0, 0.0, -3.0)
         } else {
-            utils::clerp(g as MathT, 0.0, 1.0, 0.0, -3.0)
+            utils::clerp(g as MathT, 0.0, 1.0, -3.0, -120.0)
         };
         let r_lerp = if g >= 0.0 {
-            utils::clerp(g as MathT, 0.0, 1.0, -3.0, -120.0)
+            utils::clerp(g as MathT, 0.0, 1.0, -3.0, 0.0)
         } else {
-            utils::clerp(g as MathT, -1.0, 0.0, 0.0, -3.0)
+            utils::clerp(g as MathT, -1.0, 0.0, -120.0, -3.0)
         };
 
         Stereo {
-- 
2.43.0


From 5bcdd91f79c8e135505fb54475d7f98e1e6e52f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:25 +0000
Subject: [PATCH 06/26] fix: 24-bit samples are sign-extended from their low 24
 bits

---
 src/sample_format/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sample_format/mod.rs b/src/sample_format/mod.rs
index abd2375..b471c34 100644
--- a/src/sample_format/mod.rs
+++ b/src/sample_format/mod.rs
@@ -136,11 +136,11 @@ pub fn sample_to_i16_bytes(s: SampleT) -> [u8; 2] {
 
 /// Converts an i32 24-bit sample to a `SampleT`.
 pub fn sample_from_i24(v: i32) -> SampleT {
-    v as SampleT / ((1 << 23) as SampleT - 1.0)
+    ((v << 8) >> 8) as SampleT / ((1 << 23) as SampleT - 1.0)
 }
 /// Converts raw bytes to a `SampleT`.
 pub fn sample_from_i24_bytes(v:[u8;3]) -> SampleT {
-    (i32::from_le_bytes([v[0],v[1],v[2],0]) as SampleT) / ((1 << 23) as SampleT - 1.0)
+    sample_from_i24(i32::from_le_bytes([v[0],v[1],v[2],0]))
 }
 
 /// Converts a `SampleT` to an `i24`.
-- 
2.43.0


From bac32733b145ae0d896a35cc4c1f459c67d91752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:25 +0000
Subject: [PATCH 07/26] fix: sample_to_i24 saturates at the 24-bit range

---
 src/sample_format/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sample_format/mod.rs b/src/sample_format/mod.rs
index b471c34..4a0b5db 100644
--- a/src/sample_format/mod.rs
+++ b/src/sample_format/mod.rs
@@ -145,7 +145,7 @@ pub fn sample_from_i24_bytes(v:[u8;3]) -> SampleT {
 
 /// Converts a `SampleT` to an `i24`.
 pub fn sample_to_i24(s: SampleT) -> i32 {
-    (s * ((1<<23) as SampleT - 1.0)).round() as i32
+    ((s * ((1<<23) as SampleT - 1.0)).round() as i32).max(-(1 << 23)).min((1 << 23) - 1)
 }
 /// Converts a `SampleT` to raw little-endian bytes.
 pub fn sample_to_i24_bytes(s: SampleT) -> [u8; 3] {
-- 
2.43.0


From 5b78f39df01f05f2611891cbf8d09a1aec93eccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:25 +0000
Subject: [PATCH 08/26] fix: normalize silences constant tracks instead of
 producing NaN

---
 src/utils/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 6ce7fa5..6b95309 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -68,10 +68,10 @@ pub fn normalize(db: MathT, t: &mut SampleTrackT) {
     let mut dc = 0.0;
 
     for s in &y {
-        dc += s;
+        dc += *s as MathT;
     }
 
-    dc /= y.len() as SampleT;
+    let dc = (dc / y.len() as MathT) as SampleT;
 
     let mut max = 0.0;
 
@@ -81,10 +81,14 @@ pub fn normalize(db: MathT, t: &mut SampleTrackT) {
         }
     }
 
-    let factor = db_to_linear(db) as SampleT / max;
+    let factor = if max > 0.0 {
+        db_to_linear(db) / max as MathT
+    } else {
+        0.0
+    };
 
     for s in t {
-        *s = (*s - dc) * factor;
+        *s = ((*s - dc) as MathT * factor) as SampleT;
     }
 }
 
-- 
2.43.0


From 06072b89a31a6b11386126f9cfed53ab9f51b3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:44 +0000
Subject: [PATCH 09/26] fix: write_wav never reports success after a partial
 write

---
 src/utils/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 6b95309..0118a41 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -185,6 +185,7 @@ pub fn write_wav(mut tracks: Vec<SampleTrackT>, bps: u16, d: &mut dyn std::io::W
     }
 
     let len = tracks[0].len();
+    let mut out = Vec::new();
 
     for t in &mut tracks {
         if t.len() != len {
@@ -214,7 +215,7 @@ pub fn write_wav(mut tracks: Vec<SampleTrackT>, bps: u16, d: &mut dyn std::io::W
             wav::write_wav(
                 wav::Header::new(1, tracks.len() as u16, SAMPLE_RATE as u32, bps),
                 wav::BitDepth::Eight(v),
-                d
+                &mut out
             )?;
         },
         16 => {
@@ -229,7 +230,7 @@ pub fn write_wav(mut tracks: Vec<SampleTrackT>, bps: u16, d: &mut dyn std::io::W
             wav::write_wav(
                 wav::Header::new(1, tracks.len() as u16, SAMPLE_RATE as u32, bps),
                 wav::BitDepth::Sixteen(v),
-                d
+                &mut out
             )?;
         },
         24 => {
@@ -244,11 +245,11 @@ pub fn write_wav(mut tracks: Vec<SampleTrackT>, bps: u16, d: &mut dyn std::io::W
             wav::write_wav(
                 wav::Header::new(1, tracks.len() as u16, SAMPLE_RATE as u32, bps),
                 wav::BitDepth::TwentyFour(v),
-                d
+                &mut out
             )?;
         },
         _ => return Err(Error::new(ErrorKind::Other, "Unsupported bit depth, aborting.")),
     }
 
-    Ok(())
+    d.write_all(&out)
 }
-- 
2.43.0


From 248f77d14ba33b3e63969d598f30ac29eff108d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:44 +0000
Subject: [PATCH 10/26] fix: sine wraps at the end of its wavetable

---
 src/generators/sine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generators/sine.rs b/src/generators/sine.rs
index 06121c7..542dbcf 100644
--- a/src/generators/sine.rs
+++ b/src/generators/sine.rs
@@ -59,7 +59,7 @@ impl Generator for Sine {
 
         self.ind += self.inc;
 
-        if self.ind >= (WAVETABLE_SIZE as MathT)-1.0 {
+        if self.ind >= WAVETABLE_SIZE as MathT {
             self.ind -= WAVETABLE_SIZE as MathT;
         }
 
-- 
2.43.0


From 966fbce75c4044671a2bd5d030492b2381614611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:44 +0000
Subject: [PATCH 11/26] fix: triangle reports and keeps its frequency on the
 falling slope

---
 src/generators/triangle.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/generators/triangle.rs b/src/generators/triangle.rs
index ecc58d4..71a2ce6 100644
--- a/src/generators/triangle.rs
+++ b/src/generators/triangle.rs
@@ -19,11 +19,11 @@ impl FreqMod for Triangle {
     }
 
     fn set_frequency(&mut self, f: MathT) {
-        self.irate = 4.0 * f * INV_SAMPLE_RATE;
+        self.irate = (4.0 * f * INV_SAMPLE_RATE).copysign(self.irate);
     }
 
     fn get_frequency(&self) -> MathT {
-        self.irate / (4.0 * INV_SAMPLE_RATE)
+        self.irate.abs() / (4.0 * INV_SAMPLE_RATE)
     }
 }
 
@@ -50,7 +50,7 @@ impl Generator for Triangle {
 impl Clone for Triangle {
     fn clone(&self) -> Self {
         Triangle {
-            irate: self.irate,
+            irate: self.irate.abs(),
             inc: 0.0
         }
     }
-- 
2.43.0


From 79a03f7af9ca7375d65e6ddb56690b90f599d1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:44 +0000
Subject: [PATCH 12/26] fix: square keeps its phase when retuned

---
 src/generators/square.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/generators/square.rs b/src/generators/square.rs
index 7a6ad93..306b4ea 100644
--- a/src/generators/square.rs
+++ b/src/generators/square.rs
@@ -19,7 +19,10 @@ impl FreqMod for Square {
     }
 
     fn set_frequency(&mut self, f: MathT) {
-        self.inv = SAMPLE_RATE as MathT/(2.0 * f);
+        let inv = SAMPLE_RATE as MathT/(2.0 * f);
+
+        self.ind *= inv / self.inv;
+        self.inv = inv;
     }
 
     fn get_frequency(&self) -> MathT {
-- 
2.43.0


From c2aa6fcc5edd955a5bf7395fdff02e2e4ed0eaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:44 +0000
Subject: [PATCH 13/26] fix: cloned delay keeps its delay length

---
 src/modifiers/delay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modifiers/delay.rs b/src/modifiers/delay.rs
index 70ff81d..8078dda 100644
--- a/src/modifiers/delay.rs
+++ b/src/modifiers/delay.rs
@@ -45,7 +45,7 @@ impl Clone for Delay {
             delay: {
                 let mut v = VecDeque::new();
 
-                for _ in 0..(self.delay.len() * SAMPLE_RATE as usize) {
+                for _ in 0..self.delay.len() {
                     v.push_back(SampleT::default());
                 }
 
-- 
2.43.0


From e9cc813d08c2d8c3a3d82ab7f91c43c3607ce86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:44 +0000
Subject: [PATCH 14/26] fix: cloned echo keeps its delay length

---
 src/modifiers/echo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modifiers/echo.rs b/src/modifiers/echo.rs
index cfba8e0..6c77e6a 100644
--- a/src/modifiers/echo.rs
+++ b/src/modifiers/echo.rs
@@ -43,7 +43,7 @@ impl Clone for Echo {
             delay: {
                 let mut v = VecDeque::new();
 
-                for _ in 0..(self.delay.len() * SAMPLE_RATE as usize) {
+                for _ in 0..self.delay.len() {
                     v.push_back(SampleT::default());
                 }
 
-- 
2.43.0


From d88dec19c399a4acd4ff6fa66e13d2af3343d218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:44 +0000
Subject: [PATCH 15/26] fix: echo rounds its delay and supports delays below
 one sample

---
 src/modifiers/echo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modifiers/echo.rs b/src/modifiers/echo.rs
index 6c77e6a..8db0012 100644
--- a/src/modifiers/echo.rs
+++ b/src/modifiers/echo.rs
@@ -17,7 +17,7 @@ impl Echo {
     /// [`Echo`]: struct.Echo.html
     pub fn new(d: Duration, g: MathT) -> Self{
         let mut v = VecDeque::new();
-        for _ in 0..((d.as_secs_f64()*SAMPLE_RATE as MathT) as usize) {
+        for _ in 0..((d.as_secs_f64()*SAMPLE_RATE as MathT).round() as usize).max(1) {
             v.push_back(SampleT::default());
         }
 
-- 
2.43.0


From 3bcb7599e288bb7d4ef6f2fb521daaf8444e7b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:44 +0000
Subject: [PATCH 16/26] fix: generic filter keeps enough history for its
 longest tap

---
 src/modifiers/generic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modifiers/generic.rs b/src/modifiers/generic.rs
index 87d4e8d..1162f12 100644
--- a/src/modifiers/generic.rs
+++ b/src/modifiers/generic.rs
@@ -29,12 +29,12 @@ pub struct Generic {
 impl Generic {
     /// Creates a new Generic filter from the given pole and zero parameters.
     pub fn new(zeros: Zeros, poles: Poles) -> Generic {
-        let z_back = if let Some(z) = zeros.back() {
+        let z_back = if let Some(z) = zeros.iter().max_by_key(|z| z.0) {
             z.0 + 1
         } else {
             0
         };
-        let p_back = if let Some(p) = poles.back() {
+        let p_back = if let Some(p) = poles.iter().max_by_key(|p| p.0) {
             p.0 + 1
         } else {
             0
-- 
2.43.0


From 9bcbf8b81f48fc40d1c31a3873d58de8d4ac656a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:49 +0000
Subject: [PATCH 17/26] fix: ADSR is NaN-free when a ramp has no length or
 height

---
 src/modifiers/adsr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modifiers/adsr.rs b/src/modifiers/adsr.rs
index a94f6dd..9ba96f0 100644
--- a/src/modifiers/adsr.rs
+++ b/src/modifiers/adsr.rs
@@ -62,14 +62,14 @@ impl Modifier for ADSR {
         match self.state {
             ADSRState::Attack => {
                 self.g += self.a;
-                if self.g >= 1.0 {
+                if !(self.g < 1.0) {
                     self.state = ADSRState::Decay;
                     self.g = 1.0;
                 }
             },
             ADSRState::Decay => {
                 self.g += self.d;
-                if self.g <= self.s {
+                if !(self.g > self.s) {
                     self.state = ADSRState::Sustain;
                     self.g = self.s;
                 }
@@ -78,7 +78,7 @@ impl Modifier for ADSR {
             },
             ADSRState::Release => {
                 self.g += self.r;
-                if self.g <= 0.0 {
+                if !(self.g > 0.0) {
                     self.state = ADSRState::Stopped;
                     self.g = 0.0;
                 }
-- 
2.43.0


From 6c773c96572d707f27c4344ffe65e60c2b86a95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:49 +0000
Subject: [PATCH 18/26] fix: ADSR releases from its current gain within the
 release time

---
 src/modifiers/adsr.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/modifiers/adsr.rs b/src/modifiers/adsr.rs
index 9ba96f0..50ab16e 100644
--- a/src/modifiers/adsr.rs
+++ b/src/modifiers/adsr.rs
@@ -26,6 +26,7 @@ pub struct ADSR {
     d:SampleT,
     s:SampleT,
     r:SampleT,
+    dr:SampleT,
     state:ADSRState,
     g:SampleT,
 }
@@ -45,7 +46,8 @@ impl ADSR {
             a: 1.0/(a.as_secs_f64() * SAMPLE_RATE as MathT) as SampleT,
             d: ((db_to_linear(s)-1.0)/(d.as_secs_f64() * SAMPLE_RATE as MathT)) as SampleT,
             s: db_to_linear(s) as SampleT,
-            r: ((-db_to_linear(s))/(r.as_secs_f64() * SAMPLE_RATE as MathT)) as SampleT,
+            r: (r.as_secs_f64() * SAMPLE_RATE as MathT) as SampleT,
+            dr: 0.0,
             state: ADSRState::Attack,
             g: 0.0
         }
@@ -53,7 +55,13 @@ impl ADSR {
 
     /// Changes adsr state to release
     pub fn release(&mut self) {
-        self.state = ADSRState::Release;
+        match self.state {
+            ADSRState::Release | ADSRState::Stopped => (),
+            _ => {
+                self.dr = -self.g / self.r;
+                self.state = ADSRState::Release;
+            },
+        }
     }
 }
 
@@ -77,7 +85,7 @@ impl Modifier for ADSR {
             ADSRState::Sustain => {
             },
             ADSRState::Release => {
-                self.g += self.r;
+                self.g += self.dr;
                 if !(self.g > 0.0) {
                     self.state = ADSRState::Stopped;
                     self.g = 0.0;
@@ -97,6 +105,7 @@ impl Clone for ADSR {
             d: self.d,
             s: self.s,
             r: self.r,
+            dr: 0.0,
             state: ADSRState::Attack,
             g: 0.0
         }
-- 
2.43.0


From 3697133698516a0a3c17f969be100eb6d598d460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:49 +0000
Subject: [PATCH 19/26] fix: ADSR keeps its gain in double precision so long
 ramps finish

---
 src/modifiers/adsr.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/modifiers/adsr.rs b/src/modifiers/adsr.rs
index 50ab16e..ef6e8ea 100644
--- a/src/modifiers/adsr.rs
+++ b/src/modifiers/adsr.rs
@@ -22,13 +22,13 @@ pub enum ADSRState {
 /// 
 /// Creates a simple envelope for the given signal.
 pub struct ADSR {
-    a:SampleT,
-    d:SampleT,
-    s:SampleT,
-    r:SampleT,
-    dr:SampleT,
+    a:MathT,
+    d:MathT,
+    s:MathT,
+    r:MathT,
+    dr:MathT,
     state:ADSRState,
-    g:SampleT,
+    g:MathT,
 }
 
 impl ADSR {
@@ -43,10 +43,10 @@ impl ADSR {
     pub fn new(a:Duration,d:Duration,s:MathT,r:Duration) -> Self {
         let s = s.min(0.0);
         ADSR {
-            a: 1.0/(a.as_secs_f64() * SAMPLE_RATE as MathT) as SampleT,
-            d: ((db_to_linear(s)-1.0)/(d.as_secs_f64() * SAMPLE_RATE as MathT)) as SampleT,
-            s: db_to_linear(s) as SampleT,
-            r: (r.as_secs_f64() * SAMPLE_RATE as MathT) as SampleT,
+            a: 1.0/(a.as_secs_f64() * SAMPLE_RATE as MathT),
+            d: (db_to_linear(s)-1.0)/(d.as_secs_f64() * SAMPLE_RATE as MathT),
+            s: db_to_linear(s),
+            r: r.as_secs_f64() * SAMPLE_RATE as MathT,
             dr: 0.0,
             state: ADSRState::Attack,
             g: 0.0
@@ -94,7 +94,7 @@ impl Modifier for ADSR {
             ADSRState::Stopped => return SampleT::default(),
         }
 
-        x * self.g
+        x * self.g as SampleT
     }
 }
 
-- 
2.43.0


From f5c04d46fcd9a4a72a61df2c75c61225dd830e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:49 +0000
Subject: [PATCH 20/26] fix: resampler tracks its position in double precision

---
 src/utils/mono_resampler.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/mono_resampler.rs b/src/utils/mono_resampler.rs
index 39b9759..e4cc814 100644
--- a/src/utils/mono_resampler.rs
+++ b/src/utils/mono_resampler.rs
@@ -7,14 +7,14 @@ use super::*;
 use sample_format::{SampleFormat, MonoTrackT};
 
 /// Type used for fractional indexing.
-type IndexT = SampleT;
+type IndexT = MathT;
 
 /// Struct tracking all of the data required for resampling, with some extra
 /// features like playback speed and looping.
 pub struct MonoResampler {
     data: MonoTrackT,
     ind: IndexT,
-    inc: SampleT,
+    inc: IndexT,
     speed: MathT,
     loop_start: usize,
     loop_end: usize,
@@ -39,7 +39,7 @@ impl MonoResampler {
         MonoResampler {
             data,
             ind: 0.0,
-            inc: (source_sample_rate as MathT * INV_SAMPLE_RATE) as SampleT,
+            inc: source_sample_rate * INV_SAMPLE_RATE,
             speed: 1.0,
             loop_start,
             loop_end,
@@ -75,7 +75,7 @@ impl MonoResampler {
 
         let y = x1 + self.ind.fract() as SampleT * (x2 - x1);
 
-        self.ind += self.inc * self.speed as SampleT;
+        self.ind += self.inc * self.speed;
 
         if self.ind >= self.loop_end as IndexT && self.loop_end != 0 {
             self.ind -= (self.loop_end - self.loop_start) as IndexT;
-- 
2.43.0


From 39495a15e5c61fc7c644cd476ecf78f9f81383e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:49 +0000
Subject: [PATCH 21/26] fix: resampler loops seamlessly and never reads past
 its data

---
 src/utils/mono_resampler.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/utils/mono_resampler.rs b/src/utils/mono_resampler.rs
index e4cc814..b27d0a1 100644
--- a/src/utils/mono_resampler.rs
+++ b/src/utils/mono_resampler.rs
@@ -35,6 +35,7 @@ impl MonoResampler {
         if loop_end < loop_start {
             std::mem::swap(&mut loop_start, &mut loop_end);
         }
+        loop_end = loop_end.min(data.len());
 
         MonoResampler {
             data,
@@ -58,27 +59,33 @@ impl MonoResampler {
 
     /// Calculates and returns the next sample.
     pub fn process(&mut self) -> SampleT {
-        if self.ind as usize >= self.data.len() && self.loop_end == 0 {
+        let looping = self.loop_start < self.loop_end;
+        let end = if looping { self.loop_end } else { self.data.len() };
+
+        if !looping && !(self.ind < end as IndexT) {
             return SampleT::default();
         }
 
-        let p1: SampleT = if self.ind.trunc() as usize + 1 >= self.data.len() && self.loop_end != 0 {
-            self.data[(self.ind - (self.loop_end - self.loop_start) as IndexT) as usize].into_sample()
-        } else if self.ind.trunc() as usize + 1 >= self.data.len() {
-            self.data[self.ind.trunc() as usize].into_sample()
+        let k = (self.ind as usize).min(end - 1);
+        let k1 = if k + 1 < end {
+            k + 1
+        } else if looping {
+            self.loop_start
         } else {
-            self.data[(self.ind + 1.0).trunc() as usize].into_sample()
+            k
         };
 
-        let x1: SampleT = self.data[self.ind.trunc() as usize].into_sample();
-        let x2: SampleT = p1;
+        let x1: SampleT = self.data[k].into_sample();
+        let x2: SampleT = self.data[k1].into_sample();
 
         let y = x1 + self.ind.fract() as SampleT * (x2 - x1);
 
         self.ind += self.inc * self.speed;
 
-        if self.ind >= self.loop_end as IndexT && self.loop_end != 0 {
-            self.ind -= (self.loop_end - self.loop_start) as IndexT;
+        if looping && self.ind >= end as IndexT {
+            let start = self.loop_start as IndexT;
+
+            self.ind = start + (self.ind - start) % (end as IndexT - start);
         }
 
         y
-- 
2.43.0


From 4dafdb0fa6a957d82d9a0ab69879e6ec033fd895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:49 +0000
Subject: [PATCH 22/26] fix: complex sound processes every block after the
 blocks that feed it

---
 src/sounds/complex_sound.rs | 51 +++++++++++++------------------------
 1 file changed, 17 insertions(+), 34 deletions(-)

diff --git a/src/sounds/complex_sound.rs b/src/sounds/complex_sound.rs
index 312cd87..c1549c8 100644
--- a/src/sounds/complex_sound.rs
+++ b/src/sounds/complex_sound.rs
@@ -11,6 +11,7 @@ use super::*;
 use std::sync::Arc;
 use std::collections::VecDeque;
 use petgraph::graph;
+use petgraph::visit::DfsPostOrder;
 
 /// Alias for the graph type used by [`ComplexSound`].
 /// 
@@ -138,41 +139,19 @@ impl ComplexSound {
     fn process_order(&mut self) {
         self.process_order.clear();
 
-        self.process_order.extend(self.graph.externals(petgraph::Direction::Incoming));
-        let mut i = 0;
-        while i < self.process_order.len() {
-            let neighbors = self.graph.neighbors(self.process_order[i]);
-            self.process_order.extend(neighbors);
+        // Output gain first and input gain last so that, reversed, they end up
+        // at the back and at the front wherever the connections allow it.
+        let mut roots = vec![self.output_gain];
+        roots.extend(self.graph.externals(petgraph::Direction::Incoming));
+        roots.push(self.input_gain);
 
-            let mut j = 0;
-            while j < i {
-                Self::remove_dups(&mut self.process_order, j);
-                j += 1;
-            }
-
-            i += 1;
-        }
-
-        let ig = self.input_gain;
-        let og = self.output_gain;
-
-        self.process_order.retain(|e| *e != ig && *e != og);
+        let mut dfs = DfsPostOrder::empty(&self.graph);
 
-        self.process_order.push_front(self.input_gain);
-        self.process_order.push_back(self.output_gain);
-    }
+        for r in roots {
+            dfs.move_to(r);
 
-    /// Removes duplicate [`GraphNode`]s from the process order to prevent parsing cycles
-    /// 
-    /// [`GraphNode`]: type.GraphNode.html
-    fn remove_dups(v: &mut ProcessOrder, whitelist: usize) {
-        let mut i = whitelist + 1;
-
-        while i < v.len() {
-            if v[i] == v[whitelist] {
-                v.remove(i);
-            } else {
-                i += 1;
+            while let Some(n) = dfs.next(&self.graph) {
+                self.process_order.push_front(n);
             }
         }
     }
@@ -216,13 +195,17 @@ impl Sound for ComplexSound {
 
         for b in &self.process_order {
             let block = BlockSP::get_mut(self.graph.node_weight_mut(*b).unwrap()).unwrap();
-            out = block.process();
+            let y = block.process();
+
+            if *b == self.output_gain {
+                out = y;
+            }
 
             let mut neighbors = self.graph.neighbors(*b).detach();
 
             while let Some(t) = neighbors.next(&self.graph) {
                 BlockSP::get_mut(self.graph.node_weight_mut(t.1).unwrap()).unwrap().
-                prime_input(out);
+                prime_input(y);
             }
         }
 
-- 
2.43.0


From faff405751791bd11679f73c0171f191d675a9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:49 +0000
Subject: [PATCH 23/26] fix: complex sound processes its blocks before the
 first connection

---
 src/sounds/complex_sound.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/sounds/complex_sound.rs b/src/sounds/complex_sound.rs
index c1549c8..2748d39 100644
--- a/src/sounds/complex_sound.rs
+++ b/src/sounds/complex_sound.rs
@@ -67,7 +67,7 @@ impl ComplexSound {
             )
         );
 
-        ComplexSound {
+        let mut sound = ComplexSound {
             graph,
             process_order: ProcessOrder::new(),
             input_gain,
@@ -75,7 +75,11 @@ impl ComplexSound {
             id: None,
             is_muted: false,
             is_paused: false
-        }
+        };
+
+        sound.process_order();
+
+        sound
     }
 
     /// Returns the ['GraphNode'] containing the input gain [`Modifier`].
@@ -103,7 +107,11 @@ impl ComplexSound {
     /// [`add_connection]: struct.ComplexSound.html#method.add_connection
     /// [`remove_connection]: struct.ComplexSound.html#method.remove_connection
     pub fn add_block(&mut self, block: BlockSP) -> GraphNode {
-        self.graph.add_node(block)
+        let node = self.graph.add_node(block);
+
+        self.process_order();
+
+        node
     }
 
     /// Adds a new connection (edge) between the two given [`GraphNode`]s.
-- 
2.43.0


From dcb0079ac0c27f1b1ccb55853740c3b28c24721e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:49 +0000
Subject: [PATCH 24/26] fix: channel renders the frames of its process time
 afresh on every call

---
 src/channels/standard_channel.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/channels/standard_channel.rs b/src/channels/standard_channel.rs
index 0b0a1dd..fab83d2 100644
--- a/src/channels/standard_channel.rs
+++ b/src/channels/standard_channel.rs
@@ -30,13 +30,20 @@ impl<SF> StandardChannel<SF>
     /// [`set_process_time`]: ../trait.Channel.html#tymethod.set_process_time
     pub fn new(gain: MathT) -> Self {
         StandardChannel {
-            output: Vec::with_capacity((0.01 * SAMPLE_RATE as MathT) as usize),
+            output: Self::frames(Duration::from_millis(10)),
             sounds: HashMap::new(),
             gain: gain as SampleT,
             id_counter: 0
         }
     }
 
+    fn frames(d: Duration) -> Vec<SF> {
+        let mut v = Vec::new();
+        v.resize_with((d.as_secs_f64() * SAMPLE_RATE as MathT) as usize, SF::default);
+
+        v
+    }
+
     fn get_id(&mut self) -> usize {
         let old = self.id_counter;
 
@@ -50,7 +57,7 @@ impl<SF> Channel<SF> for StandardChannel<SF>
     where SF: SampleFormat
 {
     fn set_process_time(&mut self, d: Duration) {
-        self.output = Vec::with_capacity((d.as_secs_f64() * SAMPLE_RATE as MathT) as usize);
+        self.output = Self::frames(d);
     }
 
     fn get_output(&self) -> &Vec<SF> {
@@ -62,9 +69,9 @@ impl<SF> Channel<SF> for StandardChannel<SF>
     }
 
     fn process(&mut self) {
-        self.output.resize_with(self.output.len(), SF::default);
-
         for sample in &mut self.output {
+            *sample = SF::default();
+
             for mut sound in &mut self.sounds {
                 *sample += SF::from_sample(Arc::get_mut(&mut sound.1).unwrap().process(Default::default()));
             }
-- 
2.43.0


From 8ea045dffc98a3c799b07247cea8f98ab63a17a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:59 +0000
Subject: [PATCH 25/26] fix: keep the sine's table position in range at any
 frequency

---
 src/generators/sine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generators/sine.rs b/src/generators/sine.rs
index 542dbcf..2d19b2e 100644
--- a/src/generators/sine.rs
+++ b/src/generators/sine.rs
@@ -60,7 +60,7 @@ impl Generator for Sine {
         self.ind += self.inc;
 
         if self.ind >= WAVETABLE_SIZE as MathT {
-            self.ind -= WAVETABLE_SIZE as MathT;
+            self.ind %= WAVETABLE_SIZE as MathT;
         }
 
         y
-- 
2.43.0


From 08bd6ee16255af9b5e0aa4f6dbda9643e7aac661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:45 +0000
Subject: [PATCH 26/26] fix: compute the low- and high-pass recursions in
 double precision

With single-precision coefficients the poles of a low cutoff move outside the
unit circle or the gain of constant signals is off: LowPass::new(20.0, 0.0) fed
with ones settles at 0.27, LowPass::new(20.0, 1.0) ends in NaN.
---
 src/modifiers/highpass.rs | 83 ++++++++++++++++++++-------------------
 src/modifiers/lowpass.rs  | 20 +++++-----
 2 files changed, 52 insertions(+), 51 deletions(-)

diff --git a/src/modifiers/highpass.rs b/src/modifiers/highpass.rs
index 599ffcb..75f0b93 100644
--- a/src/modifiers/highpass.rs
+++ b/src/modifiers/highpass.rs
@@ -8,20 +8,20 @@ use super::*;
 /// High pass filter adapted from the 3rd Order Butterworth Low Pass Filter with
 /// resonance.
 pub struct HighPass {
-    a0: SampleT,
-    a1: SampleT,
-    a2: SampleT,
-    a3: SampleT,
-    b1: SampleT,
-    b2: SampleT,
-    b3: SampleT,
-
-    x1: SampleT,
-    x2: SampleT,
-    x3: SampleT,
-    y1: SampleT,
-    y2: SampleT,
-    y3: SampleT,
+    a0: MathT,
+    a1: MathT,
+    a2: MathT,
+    a3: MathT,
+    b1: MathT,
+    b2: MathT,
+    b3: MathT,
+
+    x1: MathT,
+    x2: MathT,
+    x3: MathT,
+    y1: MathT,
+    y2: MathT,
+    y3: MathT,
 
     fc: MathT,
     r: MathT
@@ -40,19 +40,19 @@ impl HighPass {
         let fc = fc.min(SAMPLE_RATE as MathT / 2.0);
         let r = r.min(1.0).max(0.0);
         let mut hp = HighPass {
-            a0: SampleT::default(),
-            a1: SampleT::default(),
-            a2: SampleT::default(),
-            a3: SampleT::default(),
-            b1: SampleT::default(),
-            b2: SampleT::default(),
-            b3: SampleT::default(),
-            x1: SampleT::default(),
-            x2: SampleT::default(),
-            x3: SampleT::default(),
-            y1: SampleT::default(),
-            y2: SampleT::default(),
-            y3: SampleT::default(),
+            a0: MathT::default(),
+            a1: MathT::default(),
+            a2: MathT::default(),
+            a3: MathT::default(),
+            b1: MathT::default(),
+            b2: MathT::default(),
+            b3: MathT::default(),
+            x1: MathT::default(),
+            x2: MathT::default(),
+            x3: MathT::default(),
+            y1: MathT::default(),
+            y2: MathT::default(),
+            y3: MathT::default(),
             fc,
             r,
         };
@@ -95,19 +95,20 @@ impl HighPass {
         let t = w * INV_SAMPLE_RATE;
         let g = t.powf(3.0) + k*t.powf(2.0) + k*t + 1.0;
 
-        self.a0 = ( 1.0/g) as SampleT;
-        self.a1 = (-3.0/g) as SampleT;
-        self.a2 = ( 3.0/g) as SampleT;
-        self.a3 = (-1.0/g) as SampleT;
+        self.a0 = 1.0/g;
+        self.a1 = -3.0/g;
+        self.a2 = 3.0/g;
+        self.a3 = -1.0/g;
 
-        self.b1 = ((k*t.powf(2.0) + 2.0*k*t + 3.0)/g) as SampleT;
-        self.b2 = ((-k*t - 3.0)/g) as SampleT;
-        self.b3 = (1.0/g) as SampleT;
+        self.b1 = (k*t.powf(2.0) + 2.0*k*t + 3.0)/g;
+        self.b2 = (-k*t - 3.0)/g;
+        self.b3 = 1.0/g;
     }
 }
 
 impl Modifier for HighPass {
     fn process(&mut self, x: SampleT) -> SampleT {
+        let x = x as MathT;
         let y = self.a0*x + self.a1*self.x1 + self.a2*self.x2 + self.a3*self.x3 +
             self.b1*self.y1 + self.b2*self.y2 + self.b3*self.y3;
 
@@ -118,7 +119,7 @@ impl Modifier for HighPass {
         self.y2 = self.y1;
         self.y1 = y;
 
-        y
+        y as SampleT
     }
 }
 
@@ -132,12 +133,12 @@ impl Clone for HighPass {
             b1: self.b1,
             b2: self.b2,
             b3: self.b3,
-            x1: SampleT::default(),
-            x2: SampleT::default(),
-            x3: SampleT::default(),
-            y1: SampleT::default(),
-            y2: SampleT::default(),
-            y3: SampleT::default(),
+            x1: MathT::default(),
+            x2: MathT::default(),
+            x3: MathT::default(),
+            y1: MathT::default(),
+            y2: MathT::default(),
+            y3: MathT::default(),
             fc: self.fc,
             r: self.r,
         }
diff --git a/src/modifiers/lowpass.rs b/src/modifiers/lowpass.rs
index 3810279..44cf4f8 100644
--- a/src/modifiers/lowpass.rs
+++ b/src/modifiers/lowpass.rs
@@ -9,8 +9,8 @@ use super::*;
 pub struct LowPass {
     fc: MathT,
     r: MathT,
-    coeff: [SampleT; 4],
-    outs: [SampleT; 3]
+    coeff: [MathT; 4],
+    outs: [MathT; 3]
 }
 
 impl LowPass {
@@ -30,7 +30,7 @@ impl LowPass {
             fc,
             r,
             coeff: [0.0; 4],
-            outs: [SampleT::default(); 3]
+            outs: [MathT::default(); 3]
         };
 
         lp.reset();
@@ -71,16 +71,16 @@ impl LowPass {
         let t = w * INV_SAMPLE_RATE;
         let g = t.powf(3.0) + k*t.powf(2.0) + k*t + 1.0;
 
-        self.coeff[0] = (t.powf(3.0) / g) as SampleT;
-        self.coeff[1] = ((k*t.powf(2.0) + 2.0*k*t + 3.0) / g) as SampleT;
-        self.coeff[2] = ((-k*t - 3.0) / g) as SampleT;
-        self.coeff[3] = (1.0 / g) as SampleT;
+        self.coeff[0] = t.powf(3.0) / g;
+        self.coeff[1] = (k*t.powf(2.0) + 2.0*k*t + 3.0) / g;
+        self.coeff[2] = (-k*t - 3.0) / g;
+        self.coeff[3] = 1.0 / g;
     }
 }
 
 impl Modifier for LowPass {
     fn process(&mut self, x: SampleT) -> SampleT {
-        let y = self.coeff[0]*x +
+        let y = self.coeff[0]*x as MathT +
                 self.coeff[1]*self.outs[0] +
                 self.coeff[2]*self.outs[1] +
                 self.coeff[3]*self.outs[2];
@@ -89,7 +89,7 @@ impl Modifier for LowPass {
         self.outs[1] = self.outs[0];
         self.outs[0] = y;
 
-        y
+        y as SampleT
     }
 }
 
@@ -99,7 +99,7 @@ impl Clone for LowPass {
             fc: self.fc,
             r: self.r,
             coeff: self.coeff,
-            outs: [SampleT::default(); 3]
+            outs: [MathT::default(); 3]
         }
     }
 }
-- 
2.43.0

