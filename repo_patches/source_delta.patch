From 597a99c5d53070d35447dd255aec4b73e81d25cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 01/25] fix: octave one above the highest one is an error, not
 an index panic

---
 src/octave.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/octave.rs b/src/octave.rs
index de23210..60acfd4 100644
--- a/src/octave.rs
+++ b/src/octave.rs
@@ -39,7 +39,7 @@ impl Octave {
     }
 
     pub const fn from_score_offset(idx: i32) -> Result<Octave, OctaveError> {
-        if idx < 0 || Self::ALL.len() < (idx as usize) {
+        if idx < 0 || Self::ALL.len() <= (idx as usize) {
             Err(OctaveError::InvalidValue(idx))
         } else {
             Ok(Self::ALL[idx as usize])
-- 
2.43.0


From 6f19960b5825e2a0be9384521f8bc8eb45d976bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 02/25] fix: sum trimmer values in i32 so that large trimmers
 do not overflow

---
 src/trimmer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trimmer.rs b/src/trimmer.rs
index c3b5da5..582cc83 100644
--- a/src/trimmer.rs
+++ b/src/trimmer.rs
@@ -44,14 +44,14 @@ impl Trimmer {
     pub const fn from_array(values: [i16; 4]) -> Self {
         Self {
             values: values,
-            sum: (values[0] + values[1] + values[2] + values[3]) as i32,
+            sum: values[0] as i32 + values[1] as i32 + values[2] as i32 + values[3] as i32,
         }
     }
 
     pub fn from_vec(values: &Vec<i16>) -> Self {
         Self {
             values: [values[0], values[1], values[2], values[3]],
-            sum: (values[0] + values[1] + values[2] + values[3]) as i32,
+            sum: values[0] as i32 + values[1] as i32 + values[2] as i32 + values[3] as i32,
         }
     }
 
-- 
2.43.0


From dbfd7ba78430f2a9b5b93f1e4e26eb5897f291f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 03/25] fix: compute the product of a rate trimmer from its
 stored rates

---
 src/trimmer.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/trimmer.rs b/src/trimmer.rs
index 582cc83..dc39b89 100644
--- a/src/trimmer.rs
+++ b/src/trimmer.rs
@@ -157,10 +157,9 @@ impl RateTrimmer {
     };
 
     pub fn new(rate0: f32, rate1: f32, rate2: f32, rate3: f32) -> RateTrimmer {
-        RateTrimmer {
-            values: [PercentU16::from(rate0), PercentU16::from(rate1), PercentU16::from(rate2), PercentU16::from(rate3)],
-            sum: PercentU16::from(rate0 * rate1 * rate2 * rate3),
-        }
+        Self::from_array(
+            [PercentU16::from(rate0), PercentU16::from(rate1), PercentU16::from(rate2), PercentU16::from(rate3)]
+        )
     }
 
     pub fn from_array(values: [PercentU16; 4]) -> Self {
-- 
2.43.0


From 2ea192ba8dc88430ccff9600c4b3a0acadbb4ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 04/25] fix: leave notes as they are when the tuplet
 denominator is not representable

---
 src/tuple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tuple.rs b/src/tuple.rs
index e54e080..d851b74 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -12,7 +12,7 @@ pub fn tuplize(notes: Vec<Rc<Note>>) -> Vec<Rc<Note>> {
         let start_tick = work[0].base_start_tick();
         let (total_tick, total_unit) = total_tick_unit(&sorted);
         let denominator = total_unit / min_unit;
-        if denominator < 2 { return notes; }
+        if denominator < 2 || (Duration::MAX_DENOMINATOR as u32) < denominator { return notes; }
         let total_tick = total_tick / denominator * 2;
         let denominator = Denominator::from_value(denominator as u8).unwrap();
         let mut u = 0;
-- 
2.43.0


From 0b3cc3338a2cffc33a8a4e7c30fa0ec80af20df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 05/25] fix: reject a location whose numbers cannot be
 represented instead of panicking

---
 src/location.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/location.rs b/src/location.rs
index 6501c57..1781c44 100644
--- a/src/location.rs
+++ b/src/location.rs
@@ -27,11 +27,11 @@ impl Display for Location {
 
 const LOCATION_PATTERN: once_cell::unsync::Lazy<Regex> = once_cell::unsync::Lazy::new(|| Regex::new(r"^(\d+):(\d+)$").unwrap());
 pub fn parse_location(s: &str) -> Option<Location> {
-    LOCATION_PATTERN.captures(s).map(|c| {
-        Location {
-            bar_no: c.get(1).unwrap().as_str().parse().unwrap(),
-            offset: c.get(2).unwrap().as_str().parse().unwrap(),
-        }
+    LOCATION_PATTERN.captures(s).and_then(|c| {
+        Some(Location {
+            bar_no: c.get(1).unwrap().as_str().parse().ok()?,
+            offset: c.get(2).unwrap().as_str().parse().ok()?,
+        })
     })
 }
 
-- 
2.43.0


From 383ffc17f594581f1e09316056149d03a47ec1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 06/25] fix: keep the notes of a chord together when making a
 tuplet

---
 src/tuple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tuple.rs b/src/tuple.rs
index d851b74..f45dd4f 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -26,9 +26,9 @@ pub fn tuplize(notes: Vec<Rc<Note>>) -> Vec<Rc<Note>> {
                         let mut note = (**n).clone();
                         note.base_start_tick = (start_tick + (total_tick * u / total_unit)) as u32;
                         note.duration = n.duration.with_denominator(denominator);
-                        u += numerator_unit(note.duration);
                         ret.push(Rc::new(note));
                     }
+                    u += e.unit().unwrap_or(0);
                 },
             }
         }
-- 
2.43.0


From c861299a367e75cf9c85d872a381e83a3b759748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 07/25] fix: dragging a tempo below the minimum stops at the
 minimum

---
 src/tempo.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tempo.rs b/src/tempo.rs
index bf1412d..6254a07 100644
--- a/src/tempo.rs
+++ b/src/tempo.rs
@@ -100,7 +100,9 @@ impl Tempo {
     pub fn drag(&self, tick_delta: i32, tempo_delta: i32) -> Self {
         Self {
              start_tick: (self.start_tick as i64 + tick_delta as i64) as u32,
-             value: TempoValue::safe_new((self.value.as_u16() as i32 + tempo_delta) as u16),
+             value: TempoValue::safe_new(
+                (self.value.as_u16() as i64 + tempo_delta as i64).clamp(MIN_TEMPO_VALUE as i64, MAX_TEMPO_VALUE as i64) as u16
+             ),
              ..*self
         }
     }
-- 
2.43.0


From 49761bd64571e8b26513d4e4294332975a321d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 08/25] fix: a tempo typed outside of the valid range is
 clipped instead of panicking

---
 src/tempo.rs      | 2 +-
 src/text_input.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tempo.rs b/src/tempo.rs
index 6254a07..b370e94 100644
--- a/src/tempo.rs
+++ b/src/tempo.rs
@@ -69,7 +69,7 @@ impl TempoValue {
     }
 
     pub fn safe_new(value: u16) -> TempoValue {
-        Self::new(if MAX_TEMPO_VALUE < value { MAX_TEMPO_VALUE } else { value })
+        Self::new(value.clamp(MIN_TEMPO_VALUE, MAX_TEMPO_VALUE))
     }
 }
 
diff --git a/src/text_input.rs b/src/text_input.rs
index 5d4d82e..abde235 100644
--- a/src/text_input.rs
+++ b/src/text_input.rs
@@ -83,7 +83,7 @@ impl FromStr for Validated<Option<TempoValue>> {
         if s.is_empty() {
             Ok(Validated(None))
         } else {
-            s.parse::<u16>().map(|u| Validated(Some(TempoValue::new(u))))
+            s.parse::<u16>().map(|u| Validated(Some(TempoValue::safe_new(u))))
         }
     }
 }
-- 
2.43.0


From 52d7cf8ea9380dd64761be2243854c91582650da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:10 +0000
Subject: [PATCH 09/25] fix: round a rate to the nearest step so that every
 rate survives its text form

---
 src/percent.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/percent.rs b/src/percent.rs
index a8487b2..600cd9b 100644
--- a/src/percent.rs
+++ b/src/percent.rs
@@ -57,7 +57,7 @@ impl From<f32> for PercentU16 {
         } else if MAX_F32_VALUE < rate {
             PercentU16 { value: MAX_VALUE as u16 }
         } else {
-            let i: i32 = (rate * 1000.0) as i32; // 1.0 means 100% = 100.0% = 1000
+            let i: i32 = (rate * 1000.0).round() as i32; // 1.0 means 100% = 100.0% = 1000
             PercentU16 { value: i as u16 }
         }
     }
-- 
2.43.0


From f537bf66c5d2741f277c40f23d5ea32628d9e6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:10 +0000
Subject: [PATCH 10/25] fix: a location with a huge offset is an overflow
 error, not an arithmetic panic

---
 src/project.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/project.rs b/src/project.rs
index c90196c..f6a26c9 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -220,7 +220,7 @@ impl ProjectImpl {
         } else {
             if loc.bar_no() <= self.bar_repo.len() {
                 let (tick, _) = self.bar_repo[loc.bar_no() - 1];
-                let sum = (tick as usize) + loc.offset();
+                let sum = (tick as usize).saturating_add(loc.offset());
                 if (u32::MAX as usize) < sum {
                     Err(LocationError::Overflow)
                 } else {
@@ -229,12 +229,12 @@ impl ProjectImpl {
             } else {
                 let tick = match self.last_bar() {
                     None => {
-                        loc.bar_no() * (self.rhythm.tick_len() as usize) + loc.offset()
+                        (loc.bar_no() * (self.rhythm.tick_len() as usize)).saturating_add(loc.offset())
                     },
                     Some((last_bar_no, last_bar)) => {
                         let last_tick = last_bar.start_tick;
                         let tick_len = self.rhythm_at(last_tick).tick_len() as usize;
-                        (loc.bar_no() - last_bar_no - 1) * tick_len + loc.offset() + last_bar.start_tick as usize
+                        ((loc.bar_no() - last_bar_no - 1) * tick_len + last_bar.start_tick as usize).saturating_add(loc.offset())
                     },
                 };
 
-- 
2.43.0


From 089a1a3ac50180f17459a513b618543296fd8777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:10 +0000
Subject: [PATCH 11/25] fix: a wrong variation index after the fourth variation
 is an error, not a panic

---
 src/repeat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repeat.rs b/src/repeat.rs
index fb0ee3c..261e4de 100644
--- a/src/repeat.rs
+++ b/src/repeat.rs
@@ -460,7 +460,7 @@ pub fn render_region<'a>(tune_rhythm: Rhythm, bars: impl Iterator<Item = &'a Bar
             RenderRegionState::Variation { start_tick: *start_tick, region_start_ticks: rst }
           } else {
             return Err(report!(RenderRegionError::InvalidRegionIndex {
-              tick: bar.base_start_tick(), actual: ri, expected: VarIndex::from_value(current_idx + 1).unwrap()
+              tick: bar.base_start_tick(), actual: ri, expected: VarIndex::from_value(current_idx + 1).unwrap_or(VarIndex::VI4)
             }));
           }
         } else {
-- 
2.43.0


From 23b07ce4cc86cd315ecf3f28158ef47925733c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:10 +0000
Subject: [PATCH 12/25] fix: an empty region does not make rendering of
 D.C./D.S. panic

---
 src/repeat.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/repeat.rs b/src/repeat.rs
index 261e4de..9b11a1d 100644
--- a/src/repeat.rs
+++ b/src/repeat.rs
@@ -148,6 +148,7 @@ impl Region for SequenceRegion {
   }
 
   fn to_iter1_interval_set(&self) -> IntervalSet<u32> {
+    if self.tick_range.is_empty() { return vec![].to_interval_set(); }
     (self.tick_range.start, self.tick_range.end - 1).to_interval_set()
   }
 }
@@ -183,7 +184,7 @@ impl Region for RepeatRegion {
   }
 
   fn to_iter1_interval_set(&self) -> IntervalSet<u32> {
-    (self.region.start_tick(), self.region.end_tick() - 1).to_interval_set()
+    self.region.to_iter1_interval_set()
   }
 }
 
-- 
2.43.0


From 99ba74f22895b73c8f7c23e645a29640a0f65c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:10 +0000
Subject: [PATCH 13/25] fix: Coda and Fine positions that leave an empty range
 do not panic

---
 src/global_repeat.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/global_repeat.rs b/src/global_repeat.rs
index 0a4fa23..cde0025 100644
--- a/src/global_repeat.rs
+++ b/src/global_repeat.rs
@@ -192,18 +192,19 @@ impl GlobalRepeatBuilder {
 
   fn to_interval_set(start_tick: u32, fine: Option<u32>, coda: Option<[u32; 2]>) -> IntervalSet<u32> {
     let end_tick = fine.unwrap_or(u32::MAX);
-    match coda {
-        Some([coda_from, coda_to]) => vec![
-          (start_tick, coda_from - 1), (coda_to, end_tick - 1)
+    let ranges = match coda {
+        // The first Coda is found only when it is not before the Segno.
+        Some([coda_from, coda_to]) if start_tick <= coda_from => vec![
+          (start_tick, coda_from), (coda_to, end_tick)
         ],
-        None => {
-          if end_tick <= start_tick {
-            vec![]
-          } else {
-            vec![(start_tick, end_tick - 1)]
-          }
-        }
-    }.to_interval_set()
+        _ => vec![(start_tick, end_tick)],
+    };
+
+    ranges.into_iter()
+      .filter(|(from, to)| from < to)
+      .map(|(from, to)| (from, to - 1))
+      .collect::<Vec<(u32, u32)>>()
+      .to_interval_set()
   }
 
   pub fn build(self) -> Result<(Option<GlobalRepeat>, Vec<RenderRegionWarning>), RenderRegionError> {
-- 
2.43.0


From f8d68e2d65c9b852896ed362e2ae78c073cca8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:38 +0000
Subject: [PATCH 14/25] fix: D.C./D.S. inside of an implicitly started repeat
 is an error

---
 src/repeat.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/repeat.rs b/src/repeat.rs
index 9b11a1d..3bf929d 100644
--- a/src/repeat.rs
+++ b/src/repeat.rs
@@ -396,6 +396,15 @@ pub fn render_region<'a>(tune_rhythm: Rhythm, bars: impl Iterator<Item = &'a Bar
 
     state = match &state {
       RenderRegionState::Idle => {
+        // The repeat starts implicitly at the top of the tune. D.C. or D.S. should not be inside of it.
+        if bar.repeats.contains(Repeat::End) || bar.repeats.region_index().is_some() {
+          if let Some(ds_dc) = global_repeat.ds_dc {
+            if ds_dc.tick() < bar.base_start_tick() {
+              return Err(report!(RenderRegionError::DcDsWhileRepeat { tick: ds_dc.tick() }));
+            }
+          }
+        }
+
         if bar.repeats.contains(Repeat::Start) && bar.repeats.contains(Repeat::End) {
           regions.push(Box::new(RepeatRegion { region: SequenceRegion { tick_range: 0..bar.base_start_tick() }}));
           RenderRegionState::RepeatStart { start_tick: bar.base_start_tick() }
-- 
2.43.0


From aebe05d965f0435b0eebc4dc0326abadb3b21e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:07 +0000
Subject: [PATCH 15/25] fix: decide the D.C. destination of an auftakt tune by
 the length of the D.C. bar

---
 src/global_repeat.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/global_repeat.rs b/src/global_repeat.rs
index cde0025..35f3091 100644
--- a/src/global_repeat.rs
+++ b/src/global_repeat.rs
@@ -37,6 +37,7 @@ pub struct GlobalRepeatBuilder {
   pub segno: Option<u32>,
   pub coda: Option<Coda>,
   pub first_bar_len: Option<u32>,
+  pub last_bar_tick: u32,
   pub top_rhythm: Rhythm,
   pub warnings: Vec<RenderRegionWarning>,
 }
@@ -72,6 +73,7 @@ impl GlobalRepeatBuilder {
       segno: None,
       coda: None,
       first_bar_len: None,
+      last_bar_tick: 0,
       top_rhythm: tune_rhythm,
       warnings: vec![],
     }
@@ -160,15 +162,10 @@ impl GlobalRepeatBuilder {
     }
 
     if repeats.contains(Repeat::Dc) {
-      match self.first_bar_len {
-        Some(first_bar_len) => {
-          self = self.adding_dc(tick, first_bar_len)?;
-        }
-        None => {
-          self = self.adding_dc(tick, 0)?;
-        }
-      }
+      let dc_bar_len = tick.saturating_sub(self.last_bar_tick);
+      self = self.adding_dc(tick, dc_bar_len)?;
     }
+    self.last_bar_tick = tick;
 
     self = if repeats.contains(Repeat::Ds) { self.adding_ds(tick)? } else { self };
     self = if repeats.contains(Repeat::Fine) { self.adding_fine(tick)? } else { self };
@@ -221,9 +218,7 @@ impl GlobalRepeatBuilder {
                 segno_tick
               } else {
                 let rhythm_tick_len = self.top_rhythm.tick_len();
-                if len + first_bar_len == rhythm_tick_len {
-                  0
-                } else if len == rhythm_tick_len && first_bar_len == rhythm_tick_len {
+                if rhythm_tick_len <= first_bar_len || len + first_bar_len <= rhythm_tick_len {
                   0
                 } else {
                   first_bar_len
-- 
2.43.0


From 1aa71514d6c9ad253827ca11e80e883cf5eb6abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:08 +0000
Subject: [PATCH 16/25] fix: incompatible repeat marks are rejected whichever
 is added first

---
 src/bar.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bar.rs b/src/bar.rs
index 812e7df..89683c2 100644
--- a/src/bar.rs
+++ b/src/bar.rs
@@ -117,10 +117,14 @@ impl RepeatSet {
     );
 
     const DS_DISLIKE: EnumSet<Repeat> = enum_set!(
-        Repeat::Start
+        Repeat::Start | Repeat::Dc
         | Repeat::Var1 | Repeat::Var2 | Repeat::Var3 | Repeat::Var4
     );
 
+    const SEGNO_DISLIKE: EnumSet<Repeat> = enum_set!(
+        Repeat::Dc | Repeat::Var1 | Repeat::Var2 | Repeat::Var3 | Repeat::Var4
+    );
+
     const REGION1_DISLIKE: EnumSet<Repeat> = enum_set!(
         Repeat::Start | Repeat::End | Repeat::Dc | Repeat::Ds | Repeat::Segno | Repeat::Var2 | Repeat::Var3 | Repeat::Var4
     );
@@ -162,7 +166,7 @@ impl RepeatSet {
             Repeat::Dc => self.try_add_repeat(Self::DC_DISLIKE, r),
             Repeat::Fine => self.try_add_repeat(EnumSet::empty(), r),
             Repeat::Ds => self.try_add_repeat(Self::DS_DISLIKE, r),
-            Repeat::Segno => self.try_add_repeat(EnumSet::empty(), r),
+            Repeat::Segno => self.try_add_repeat(Self::SEGNO_DISLIKE, r),
             Repeat::Coda => self.try_add_repeat(EnumSet::empty(), r),
             Repeat::Var1 => self.try_add_repeat(Self::REGION1_DISLIKE, r),
             Repeat::Var2 => self.try_add_repeat(Self::REGION2_DISLIKE, r),
-- 
2.43.0


From 4eeceea517787b6cef402ca75ed2b23aa9db124a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:45 +0000
Subject: [PATCH 17/25] fix: undo restores the project when an edit puts
 several items on one tick

---
 src/project.rs | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/project.rs b/src/project.rs
index f6a26c9..6829ed1 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -1,3 +1,4 @@
+use std::collections::BTreeSet;
 use std::rc::Rc;
 
 use klavier_helper::bag_store::{BagStore, BagStoreEvent};
@@ -372,6 +373,13 @@ pub fn tempo_at(tick: u32, store: &Store<u32, Tempo, ModelChangeMetadata>) -> Te
     }
 }
 
+/// Items located at the specified ticks. An item is returned only once even if its tick is specified more than once.
+fn items_at<T: Clone>(store: &Store<u32, T, ModelChangeMetadata>, ticks: impl Iterator<Item = u32>) -> Vec<T> {
+    ticks.collect::<BTreeSet<u32>>().iter()
+        .filter_map(|tick| store.find(tick).ok().map(|idx| store[idx].1.clone()))
+        .collect()
+}
+
 pub fn ctrl_chg_at(tick: u32, store: &Store<u32, CtrlChg, ModelChangeMetadata>) -> Velocity {
     if store.is_empty() {
         DEFAULT_CTRL_CHG
@@ -723,26 +731,30 @@ impl Project for SqliteUndoStore::<ProjectCmd, ProjectImpl, ProjectCmdErr> {
             for b in to_add.bars.iter() {
                 buf.push((b.start_tick, *b));
             }
-            removed.bars = proj.bar_repo.bulk_add(buf, metadata).iter().map(|(_, bar)| *bar).collect();
+            removed.bars = items_at(&proj.bar_repo, buf.iter().map(|(b, _)| *b));
+            proj.bar_repo.bulk_add(buf, metadata);
     
             let mut buf = Vec::with_capacity(to_add.tempos.len());
             for t in to_add.tempos.iter() {
                 buf.push((t.start_tick, *t));
             }
-            removed.tempos = proj.tempo_repo.bulk_add(buf, metadata).iter().map(|(_, t)| *t).collect();
+            removed.tempos = items_at(&proj.tempo_repo, buf.iter().map(|(t, _)| *t));
+            proj.tempo_repo.bulk_add(buf, metadata);
     
     
             let mut buf = Vec::with_capacity(to_add.dumpers.len());
             for d in to_add.dumpers.iter() {
                 buf.push((d.start_tick, *d));
             }
-            removed.dumpers = proj.dumper_repo.bulk_add(buf, metadata).iter().map(|(_, d)| *d).collect();
+            removed.dumpers = items_at(&proj.dumper_repo, buf.iter().map(|(d, _)| *d));
+            proj.dumper_repo.bulk_add(buf, metadata);
     
             let mut buf = Vec::with_capacity(to_add.softs.len());
             for s in to_add.softs.iter() {
                 buf.push((s.start_tick, *s));
             }
-            removed.softs = proj.soft_repo.bulk_add(buf, metadata).iter().map(|(_, s)| *s).collect();
+            removed.softs = items_at(&proj.soft_repo, buf.iter().map(|(s, _)| *s));
+            proj.soft_repo.bulk_add(buf, metadata);
             
             let replenished_bars = proj.replenish_bars();
             to_add.bars.extend(replenished_bars);
@@ -785,9 +797,9 @@ impl Project for SqliteUndoStore::<ProjectCmd, ProjectImpl, ProjectCmdErr> {
                     &from.start_tick, (to.start_tick, *to)
                 ));
                 added.bars.push(*to);
-                removed.bars.push(*from);
             }
-            removed.bars.extend(proj.bar_repo.change(&bar_change, metadata).iter().map(|(_, b)| *b).collect::<Vec<Bar>>());
+            removed.bars = items_at(&proj.bar_repo, bar_change.iter().flat_map(|(from, (to, _))| [**from, *to]));
+            proj.bar_repo.change(&bar_change, metadata);
 
             let mut tempo_change: Vec<(&u32, (u32, Tempo))> = Vec::with_capacity(from_to.tempos.len());
             for (from, to) in from_to.tempos.iter() {
@@ -795,9 +807,9 @@ impl Project for SqliteUndoStore::<ProjectCmd, ProjectImpl, ProjectCmdErr> {
                     &from.start_tick, (to.start_tick, *to)
                 ));
                 added.tempos.push(*to);
-                removed.tempos.push(*from);
             }
-            removed.tempos.extend(proj.tempo_repo.change(&tempo_change,metadata).iter().map(|(_, t)| *t).collect::<Vec<Tempo>>());
+            removed.tempos = items_at(&proj.tempo_repo, tempo_change.iter().flat_map(|(from, (to, _))| [**from, *to]));
+            proj.tempo_repo.change(&tempo_change, metadata);
 
             let mut dumper_change: Vec<(&u32, (u32, CtrlChg))> = Vec::with_capacity(from_to.dumpers.len());
             for (from, to) in from_to.dumpers.iter() {
@@ -805,9 +817,9 @@ impl Project for SqliteUndoStore::<ProjectCmd, ProjectImpl, ProjectCmdErr> {
                     &from.start_tick, (to.start_tick, *to)
                 ));
                 added.dumpers.push(*to);
-                removed.dumpers.push(*from);
             }
-            removed.dumpers.extend(proj.dumper_repo.change(&dumper_change,metadata).iter().map(|(_, t)| *t).collect::<Vec<CtrlChg>>());
+            removed.dumpers = items_at(&proj.dumper_repo, dumper_change.iter().flat_map(|(from, (to, _))| [**from, *to]));
+            proj.dumper_repo.change(&dumper_change, metadata);
 
             let mut soft_change: Vec<(&u32, (u32, CtrlChg))> = Vec::with_capacity(from_to.softs.len());
             for (from, to) in from_to.softs.iter() {
@@ -815,9 +827,9 @@ impl Project for SqliteUndoStore::<ProjectCmd, ProjectImpl, ProjectCmdErr> {
                     &from.start_tick, (to.start_tick, *to)
                 ));
                 added.softs.push(*to);
-                removed.softs.push(*from);
             }
-            removed.softs.extend(proj.soft_repo.change(&soft_change,metadata).iter().map(|(_, t)| *t).collect::<Vec<CtrlChg>>());
+            removed.softs = items_at(&proj.soft_repo, soft_change.iter().flat_map(|(from, (to, _))| [**from, *to]));
+            proj.soft_repo.change(&soft_change, metadata);
 
             added.bars.extend(proj.replenish_bars());
             Ok(ProjectCmd::ModelChanged {
-- 
2.43.0


From d8b05f931c64b2c46af30e3367145801120b17ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:12 +0000
Subject: [PATCH 18/25] fix: D.C./D.S. at the first ending of a tune is an
 error, not a panic

---
 src/repeat.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/repeat.rs b/src/repeat.rs
index 3bf929d..ee1b66c 100644
--- a/src/repeat.rs
+++ b/src/repeat.rs
@@ -418,6 +418,9 @@ pub fn render_region<'a>(tune_rhythm: Rhythm, bars: impl Iterator<Item = &'a Bar
           if idx != VarIndex::VI1 {
             return Err(report!(RenderRegionError::InvalidRegionIndex { tick: bar.base_start_tick(), actual: idx, expected: VarIndex::VI1 }));
           }
+          if bar.repeats.contains(Repeat::Dc) || bar.repeats.contains(Repeat::Ds) {
+            return Err(report!(RenderRegionError::DcDsWhileVariation { tick: bar.base_start_tick() }));
+          }
           RenderRegionState::Variation { start_tick: 0, region_start_ticks: vec![bar.base_start_tick()] }
         } else {
           state
-- 
2.43.0


From 1a49061a4826ee3cf76b57fd16769835f9eab3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:48 +0000
Subject: [PATCH 19/25] fix: dragging reaches every pitch of the MIDI range,
 also by a huge or zero distance

---
 src/pitch.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pitch.rs b/src/pitch.rs
index 62b2fcd..2088f6f 100644
--- a/src/pitch.rs
+++ b/src/pitch.rs
@@ -162,8 +162,9 @@ impl Pitch {
     }
 
     pub fn with_score_offset_delta(self, score_offset_delta: i32) -> Result<Self, PitchError> {
-        let score_offset = self.score_offset as i32 + score_offset_delta;
-        if score_offset < MIN_SCORE_OFFSET || MAX_SCORE_OFFSET < score_offset {
+        let score_offset = (self.score_offset as i32).saturating_add(score_offset_delta);
+        // Whether a position above MAX_SCORE_OFFSET is available depends on the accidental. value_of() will judge it.
+        if score_offset < MIN_SCORE_OFFSET || (Solfa::ALL.len() * Octave::ALL.len()) as i32 <= score_offset {
             return Err(PitchError::InvalidScoreOffset(score_offset));
         }
 
-- 
2.43.0


From 1741f782dfa1960cd7607f98e6cbf21302ffe234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:48 +0000
Subject: [PATCH 20/25] fix: adding a huge number of dots fails without an
 arithmetic overflow

---
 src/note.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/note.rs b/src/note.rs
index a247256..a366708 100644
--- a/src/note.rs
+++ b/src/note.rs
@@ -148,7 +148,7 @@ impl Note {
     }
 
     pub fn add_dots(&self, dots_to_add: i32) -> Result<Self, InvalidDot> {
-        let new_dots = self.duration.dots.value() as i32 + dots_to_add;
+        let new_dots = (self.duration.dots.value() as i32).saturating_add(dots_to_add);
         if new_dots < 0 || (Duration::MAX_DOT as i32) < new_dots {
             Err(InvalidDot(new_dots))
         } else {
-- 
2.43.0


From eb44f13062ec07402885f7f1c06dc444c8efad4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:48 +0000
Subject: [PATCH 21/25] fix: an undo history without capacity keeps nothing

---
 src/undo.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/undo.rs b/src/undo.rs
index eb0b7e0..8727da9 100644
--- a/src/undo.rs
+++ b/src/undo.rs
@@ -43,10 +43,8 @@ impl UndoStore {
             self.index = 0;
         }
         
-        if self.capacity <= self.store.len() {
-            self.store.pop_back();
-        }
         self.store.push_front(undo);
+        self.store.truncate(self.capacity);
     }
     
     pub fn undo(&mut self) -> Option<&Undo> {
-- 
2.43.0


From ec50053f81d98b8a4fc3287656422d470143edb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:11 +0000
Subject: [PATCH 22/25] fix: a note outside of the MIDI range in a clipboard
 text is an error, not a panic

---
 src/pitch.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pitch.rs b/src/pitch.rs
index 2088f6f..ec0abd2 100644
--- a/src/pitch.rs
+++ b/src/pitch.rs
@@ -29,7 +29,7 @@ impl fmt::Display for PitchError {
 }
 
 #[derive(serde::Deserialize, serde::Serialize)]
-#[serde(from = "PitchSerializedForm")]
+#[serde(try_from = "PitchSerializedForm")]
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Builder)]
 #[builder(default)]
 pub struct Pitch {
@@ -49,9 +49,11 @@ impl Default for Pitch {
     }
 }
 
-impl From<PitchSerializedForm> for Pitch {
-    fn from(from: PitchSerializedForm) -> Self {
-        Self::new(from.solfa, from.octave, from.sharp_flat)
+impl TryFrom<PitchSerializedForm> for Pitch {
+    type Error = PitchError;
+
+    fn try_from(from: PitchSerializedForm) -> Result<Self, Self::Error> {
+        Self::value_of(from.solfa, from.octave, from.sharp_flat)
     }
 }
 
-- 
2.43.0


From cc3d22f0a4707cb216ae50b8e3698c841f2fbb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:14 +0000
Subject: [PATCH 23/25] fix: dots, channels and rhythms that do not exist are
 rejected when a text is read

---
 src/channel.rs  | 13 +++++++++++++
 src/duration.rs |  9 +++++++++
 src/rhythm.rs   |  9 +++++++++
 3 files changed, 31 insertions(+)

diff --git a/src/channel.rs b/src/channel.rs
index 9964692..30bc7a4 100644
--- a/src/channel.rs
+++ b/src/channel.rs
@@ -1,7 +1,20 @@
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from="u8")]
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
 pub struct Channel(u8);
 
+impl TryFrom<u8> for Channel {
+  type Error = String;
+
+  fn try_from(value: u8) -> Result<Self, Self::Error> {
+    if value < 16 {
+      Ok(Self(value))
+    } else {
+      Err(format!("Invalid channel value(={}). Should be < 16.", value))
+    }
+  }
+}
+
 impl Channel {
   pub fn new(value: u8) -> Self {
     if value < 16 {
diff --git a/src/duration.rs b/src/duration.rs
index 441e933..df945dc 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -89,9 +89,18 @@ impl Denominator {
 }
 
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from="u8")]
 #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
 pub struct Dots(u8);
 
+impl TryFrom<u8> for Dots {
+    type Error = String;
+
+    fn try_from(value: u8) -> Result<Self, Self::Error> {
+        Self::from_value(value).ok_or_else(|| format!("Invalid dots(={}).", value))
+    }
+}
+
 impl Default for Dots {
     fn default() -> Self {
         Self::ZERO
diff --git a/src/rhythm.rs b/src/rhythm.rs
index 9397d99..e67d475 100644
--- a/src/rhythm.rs
+++ b/src/rhythm.rs
@@ -6,9 +6,18 @@ pub const MIN_NUMERATOR: u8 = 1;
 pub const MAX_NUMERATOR: u8 = 99;
 
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from="u8")]
 #[derive(Debug, Copy, Clone, PartialEq, Eq)]
 pub struct Numerator(u8);
 
+impl TryFrom<u8> for Numerator {
+    type Error = String;
+
+    fn try_from(value: u8) -> Result<Self, Self::Error> {
+        Self::from_value(value).map_err(|_| format!("Invalid rhythm numerator(={}).", value))
+    }
+}
+
 impl Display for Numerator {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         write!(f, "{}", self.0)
-- 
2.43.0


From e9adfe3fab77931f4b7bb35596b87bea5e76d906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:34 +0000
Subject: [PATCH 24/25] fix: a stored key of more than seven sharps or flats is
 refused when it is read

---
 src/key.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/key.rs b/src/key.rs
index a4dbe23..7bb47f0 100644
--- a/src/key.rs
+++ b/src/key.rs
@@ -5,9 +5,22 @@ use once_cell::unsync::Lazy;
 use crate::solfa::Solfa;
 
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from="i8")]
 #[derive(Debug, PartialEq, Eq, Copy, Clone, Hash)]
 pub struct Key(i8);
 
+impl TryFrom<i8> for Key {
+    type Error = String;
+
+    fn try_from(value: i8) -> Result<Self, Self::Error> {
+        if (-7..=7).contains(&value) {
+            Ok(Self(value))
+        } else {
+            Err(format!("Invalid key(={}).", value))
+        }
+    }
+}
+
 impl Key {
     pub const NONE: Key = Key(0);
     pub const SHARP_1: Key = Key(1);
-- 
2.43.0


From 4ffbeb4b7042b7d403b1893bda4b4b2106b57ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:37 +0000
Subject: [PATCH 25/25] fix: an octave number near the end of i32 is refused
 instead of overflowing

---
 src/octave.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/octave.rs b/src/octave.rs
index 60acfd4..39046ff 100644
--- a/src/octave.rs
+++ b/src/octave.rs
@@ -35,7 +35,7 @@ impl Octave {
     pub const BIAS_VALUE: i32 = 2;
 
     pub const fn value_of(value: i32) -> Result<Octave, OctaveError> {
-        Self::from_score_offset(value + Self::BIAS_VALUE)
+        Self::from_score_offset(value.saturating_add(Self::BIAS_VALUE))
     }
 
     pub const fn from_score_offset(idx: i32) -> Result<Octave, OctaveError> {
-- 
2.43.0

