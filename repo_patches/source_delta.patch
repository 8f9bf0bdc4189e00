From 70d0f56f49696c54e4cee1376dc178eb896ae027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 01/69] fix: write only the characters announced by a text
 length byte

---
 source/IOHaptics/src/IOBinaryPrimitives.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOBinaryPrimitives.cpp b/source/IOHaptics/src/IOBinaryPrimitives.cpp
index 2d6c14b..e8499ac 100644
--- a/source/IOHaptics/src/IOBinaryPrimitives.cpp
+++ b/source/IOHaptics/src/IOBinaryPrimitives.cpp
@@ -54,7 +54,7 @@ auto IOBinaryPrimitives::writeVector(const haptics::types::Vector &vector,
 auto IOBinaryPrimitives::writeString(const std::string &text, std::vector<bool> &output) -> void {
   auto stringSize = static_cast<uint8_t>(text.size() > UINT8_MAX ? UINT8_MAX : text.size());
   writeNBits<uint8_t, BYTE_SIZE>(stringSize, output);
-  for (auto byte : text) {
+  for (auto byte : text.substr(0, stringSize)) {
     for (uint8_t j = 0; j < BYTE_SIZE; j++) {
       output.push_back(((byte >> (BYTE_SIZE - j - 1)) & 1U) == 1);
     }
-- 
2.43.0


From bddb3c75f702154f818676d36f3f0344c14a2e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:38 +0000
Subject: [PATCH 02/69] fix: accept all-zero wavelet bit streams in the JSON
 text conversions

---
 source/IOHaptics/src/IOJson.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index d0b2604..f0be1c1 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -1693,7 +1693,7 @@ auto IOJson::bytes2bits(std::vector<unsigned char> &in, std::vector<unsigned cha
   }
   if (!out.empty()) {
     int index_end = (int)out.size() - 1;
-    while ((int)out.at(index_end) == 0 && index_end >= 0) {
+    while (index_end >= 0 && (int)out.at(index_end) == 0) {
       index_end--;
     }
     out.resize(index_end + 1);
@@ -1749,7 +1749,7 @@ auto IOJson::base642bits(std::vector<unsigned char> &in, std::vector<unsigned ch
   }
   if (!out.empty()) {
     int index_end = (int)out.size() - 1;
-    while ((int)out.at(index_end) == 0 && index_end >= 0) {
+    while (index_end >= 0 && (int)out.at(index_end) == 0) {
       index_end--;
     }
     out.resize(index_end + 1);
-- 
2.43.0


From 9908b407853c7a22a4973b1bde4787fd2b82bacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:38 +0000
Subject: [PATCH 03/69] fix: arithmetic encoder accepts input whose code is all
 zero bits

---
 source/Spiht/src/ArithEnc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Spiht/src/ArithEnc.cpp b/source/Spiht/src/ArithEnc.cpp
index 9eae9eb..0ef911e 100644
--- a/source/Spiht/src/ArithEnc.cpp
+++ b/source/Spiht/src/ArithEnc.cpp
@@ -121,7 +121,7 @@ void ArithEnc::encode(std::vector<unsigned char> &instream, std::vector<int> &co
 
   // cut off unnecessary zeros at end
   int index_end = (int)outstream.size() - 1;
-  while (outstream.at(index_end) == 0 && index_end >= 0) {
+  while (index_end >= 0 && outstream.at(index_end) == 0) {
     index_end--;
   }
   outstream.resize(index_end + 1);
-- 
2.43.0


From d6b3b53d46f653424f26af245a2ffbceb220a166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:56 +0000
Subject: [PATCH 04/69] fix: effect length without any positioned keyframe is
 zero

---
 source/Types/src/Effect.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index 20277af..5dfe04c 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -408,6 +408,9 @@ auto Effect::getEffectTimeLength(types::BandType bandType, double transientDurat
   auto lastKeyframe =
       std::find_if(keyframes.rbegin(), keyframes.rend(),
                    [](haptics::types::Keyframe k) { return k.getRelativePosition().has_value(); });
+  if (lastKeyframe == keyframes.rend()) {
+    return 0;
+  }
   switch (bandType) {
   case types::BandType::Transient:
     return lastKeyframe->getRelativePosition().has_value()
-- 
2.43.0


From 108bc02178dcd29c65cbe55dece436bdb26671df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:56 +0000
Subject: [PATCH 05/69] fix: transient evaluation skips keyframes without
 amplitude

---
 source/Types/src/Effect.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index 5dfe04c..2c2de1b 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -323,6 +323,7 @@ auto Effect::EvaluateTransient(double position, double transientDuration) -> dou
   double res = 0;
   while (it != keyframes.rend() && checkingFunction(*it)) {
     if (!it->getAmplitudeModulation().has_value()) {
+      it++;
       continue;
     }
 
-- 
2.43.0


From 83e44c1de9d6a7b08a83fa4a9a305b75a350898b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:56 +0000
Subject: [PATCH 06/69] fix: evaluate the last transient of a band for its
 duration in ticks

---
 source/Types/src/Band.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index bf5df0f..c6eb5fe 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -127,7 +127,8 @@ auto Band::Evaluate(double position, int lowFrequencyLimit, int highFrequencyLim
   if (effects.empty() ||
       ((this->bandType != types::BandType::WaveletWave) &&
        (position > effects.back().getPosition() +
-                       effects.back().getEffectTimeLength(bandType, TRANSIENT_DURATION_MS) ||
+                       effects.back().getEffectTimeLength(
+                           bandType, Band::getTransientDuration(timescale)) ||
         position < 0))) {
     return 0;
   }
-- 
2.43.0


From 9e605087c71cca3a7bee2c70495109a6a0f3916e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:00 +0000
Subject: [PATCH 07/69] fix: render a band without effects as silence

---
 source/Types/src/Band.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index c6eb5fe..b1c1286 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -172,6 +172,9 @@ auto Band::EvaluationSwitch(double position, haptics::types::Effect *effect, int
 auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int timescale)
     -> std::vector<double> { // TODO: check impact of pad (which is in ms)
   std::vector<double> bandAmp(sampleCount, 0);
+  if (effects.empty()) {
+    return bandAmp;
+  }
   switch (this->bandType) {
   case BandType::Curve:
     for (auto e : effects) {
-- 
2.43.0


From b58eb3f8defc8195e750b8df0860badc2f845187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:00 +0000
Subject: [PATCH 08/69] fix: render curve effects that have two keyframes

---
 source/Types/src/Band.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index b1c1286..823f385 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -215,20 +215,20 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
           effectAmp = haptics::tools::cubicInterpolation2(keyframes);
           break;
         }
+      }
 
-        int count = 0;
-        int position =
-            static_cast<int>((e.getPosition() + pad) * fs *
-                             timescale); // position converted from ticks to samples rel. to fs
-        if (position < 0) {
-          count = -position;
-          position = 0;
-        }
-        for (int i = position;
-             (i < static_cast<int>(sampleCount)) && (count <= keyframes.back().first); i++) {
-          bandAmp[i] += effectAmp[count];
-          count++;
-        }
+      int count = 0;
+      int position =
+          static_cast<int>((e.getPosition() + pad) * fs *
+                           timescale); // position converted from ticks to samples rel. to fs
+      if (position < 0) {
+        count = -position;
+        position = 0;
+      }
+      for (int i = position;
+           (i < static_cast<int>(sampleCount)) && (count <= keyframes.back().first); i++) {
+        bandAmp[i] += effectAmp[count];
+        count++;
       }
     }
     break;
-- 
2.43.0


From 492a24874049024c56b5db1a927d33b1d5b4e368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:00 +0000
Subject: [PATCH 09/69] fix: place rendered curve effects at their time

---
 source/Types/src/Band.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index 823f385..daa609b 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -218,9 +218,13 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
       }
 
       int count = 0;
-      int position =
-          static_cast<int>((e.getPosition() + pad) * fs *
-                           timescale); // position converted from ticks to samples rel. to fs
+      // position converted from ticks to samples rel. to fs
+      const double start =
+          fs * (e.getPosition() / static_cast<double>(timescale) + pad * MS_2_S);
+      if (start >= static_cast<double>(sampleCount)) {
+        continue;
+      }
+      int position = static_cast<int>(start);
       if (position < 0) {
         count = -position;
         position = 0;
-- 
2.43.0


From aabdcdad6afce223079642dbcd9345baaae73b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:00 +0000
Subject: [PATCH 10/69] fix: render curve effects with incomplete or too few
 keyframes and large positions

---
 source/Types/src/Band.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index daa609b..d287a98 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -178,17 +178,25 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
   switch (this->bandType) {
   case BandType::Curve:
     for (auto e : effects) {
-      std::vector<std::pair<int, double>> keyframes(
-          e.getKeyframesSize()); // keyframes converted to position relative to fs
+      std::vector<std::pair<int, double>>
+          keyframes; // keyframes converted to position relative to fs
       for (int i = 0; i < static_cast<int>(e.getKeyframesSize()); i++) {
         types::Keyframe myKeyframe;
         myKeyframe = e.getKeyframeAt(i);
-        keyframes[i].first = static_cast<int>(myKeyframe.getRelativePosition().value() * fs /
-                                              timescale); // assuming position in ticks as input
-        if (i > 0) {
-          keyframes[i].first -= keyframes[0].first;
+        if (!myKeyframe.getRelativePosition().has_value() ||
+            !myKeyframe.getAmplitudeModulation().has_value()) {
+          continue;
         }
-        keyframes[i].second = myKeyframe.getAmplitudeModulation().value();
+        auto keyframePosition =
+            static_cast<int>(static_cast<int64_t>(myKeyframe.getRelativePosition().value()) * fs /
+                             timescale); // assuming position in ticks as input
+        if (!keyframes.empty()) {
+          keyframePosition -= keyframes[0].first;
+        }
+        keyframes.emplace_back(keyframePosition, myKeyframe.getAmplitudeModulation().value());
+      }
+      if (keyframes.size() < 2) {
+        continue;
       }
       keyframes[0].first = 0;
       std::vector<double> effectAmp(static_cast<::std::size_t>(keyframes.back().first) + 1, 0);
-- 
2.43.0


From c88b7eb055a37c8f93b514bc81964bdd560ef923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:26 +0000
Subject: [PATCH 11/69] fix: interpolation between points at the same time is
 finite

---
 source/Tools/src/Tools.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/Tools/src/Tools.cpp b/source/Tools/src/Tools.cpp
index 08e1097..bb4dbce 100644
--- a/source/Tools/src/Tools.cpp
+++ b/source/Tools/src/Tools.cpp
@@ -103,7 +103,7 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
     double t1 = points[i + 1].first;
     double f1 = points[i + 1].second;
     while (t <= t1) {
-      double amp = (f0 * (t1 - t) + f1 * (t - t0)) / (t1 - t0);
+      double amp = t1 > t0 ? (f0 * (t1 - t) + f1 * (t - t0)) / (t1 - t0) : f1;
       Ylinear.push_back(amp);
       t += 1;
     }
@@ -124,7 +124,9 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
     double f1 = points[i + 1].second;
     double h = t1 - t0;
     while (t <= t1) {
-      double amp = f0 + (f1 - f0) * (3 * h + 2 * (t0 - t)) * std::pow(t - t0, 2) / std::pow(h, 3);
+      double amp =
+          h > 0 ? f0 + (f1 - f0) * (3 * h + 2 * (t0 - t)) * std::pow(t - t0, 2) / std::pow(h, 3)
+                : f1;
       Ylinear.push_back(amp);
       t += 1;
     }
@@ -406,11 +408,13 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
     while (t <= t1) {
       switch (curveType) {
       case types::CurveType::Cubic: {
-        amp = f0 + (f1 - f0) * (3 * h + 2 * (t0 - t)) * std::pow(t - t0, 2) / std::pow(h, 3);
+        amp = h > 0
+                  ? f0 + (f1 - f0) * (3 * h + 2 * (t0 - t)) * std::pow(t - t0, 2) / std::pow(h, 3)
+                  : f1;
         break;
       }
       case types::CurveType::Linear: {
-        amp = (f0 * (t1 - t) + f1 * (t - t0)) / (t1 - t0);
+        amp = t1 > t0 ? (f0 * (t1 - t) + f1 * (t - t0)) / (t1 - t0) : f1;
         break;
       }
       default:
-- 
2.43.0


From 435401f158ee183f6493e0eed677f2047816a8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:26 +0000
Subject: [PATCH 12/69] fix: render no more samples of a curve effect than were
 interpolated

---
 source/Types/src/Band.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index d287a98..f23f7a2 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -238,7 +238,8 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
         position = 0;
       }
       for (int i = position;
-           (i < static_cast<int>(sampleCount)) && (count <= keyframes.back().first); i++) {
+           (i < static_cast<int>(sampleCount)) && (count < static_cast<int>(effectAmp.size()));
+           i++) {
         bandAmp[i] += effectAmp[count];
         count++;
       }
-- 
2.43.0


From e036bba03dfb3616b24c304cc889aa0caca6187c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:02 +0000
Subject: [PATCH 13/69] fix: band length covers an effect that outlasts the
 last one

---
 source/Types/src/Band.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index f23f7a2..51ea6f8 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -274,12 +274,13 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
 }
 
 auto Band::getBandTimeLength(unsigned int timescale) -> double {
-  if (this->effects.empty()) {
-    return 0;
+  double length = 0;
+  for (auto &effect : this->effects) {
+    length = std::max(length, effect.getPosition() +
+                                  effect.getEffectTimeLength(this->getBandType(),
+                                                             Band::getTransientDuration(timescale)));
   }
-  return this->effects.back().getPosition() +
-         this->effects.back().getEffectTimeLength(this->getBandType(),
-                                                  Band::getTransientDuration(timescale));
+  return length;
 }
 
 //[[nodiscard]] auto Band::getTimescale() const -> int { return this->timescale; }
-- 
2.43.0


From 29d436c7f57c4fe4f466ff732096469138fbd22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:02 +0000
Subject: [PATCH 14/69] fix: linear interpolation between points at the same
 position is finite

---
 source/Tools/src/Tools.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/Tools/src/Tools.cpp b/source/Tools/src/Tools.cpp
index bb4dbce..9295b3f 100644
--- a/source/Tools/src/Tools.cpp
+++ b/source/Tools/src/Tools.cpp
@@ -56,6 +56,10 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
     std::swap(start_a, end_a);
   }
 
+  if (start == end) {
+    return end_a;
+  }
+
   return (start_a * (end - x) + end_a * (x - start)) / (end - start);
 }
 
-- 
2.43.0


From cae22630046c719b054646cc4a26fcf0c099d69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:06 +0000
Subject: [PATCH 15/69] fix: spline interpolation evaluates every sample at its
 own time

---
 source/Tools/src/Tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Tools/src/Tools.cpp b/source/Tools/src/Tools.cpp
index 9295b3f..fadc6be 100644
--- a/source/Tools/src/Tools.cpp
+++ b/source/Tools/src/Tools.cpp
@@ -190,8 +190,8 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
   double t = 0;
   int i = 0;
   while (t < x.back()) {
-    double delta = t - x[i];
     while (t <= x[i + 1]) {
+      double delta = t - x[i];
       double amp = a[i] + b[i] * delta + c[i] * std::pow(delta, 2) + d[i] * std::pow(delta, 3);
       output.push_back(amp);
       t += 1;
-- 
2.43.0


From c8829c87a0114ef78eaa286f029f68bcefedaf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:08 +0000
Subject: [PATCH 16/69] fix: render experiences without timescale with the
 default timescale

---
 source/Synthesizer/src/Helper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/Synthesizer/src/Helper.cpp b/source/Synthesizer/src/Helper.cpp
index 04b8a82..8327fd9 100644
--- a/source/Synthesizer/src/Helper.cpp
+++ b/source/Synthesizer/src/Helper.cpp
@@ -49,7 +49,7 @@ namespace haptics::synthesizer {
   types::Effect effect;
   double maxLength = 0;
   double currentLength = 0;
-  unsigned int timescale = haptic.getTimescale().value();
+  unsigned int timescale = haptic.getTimescaleOrDefault();
   for (uint32_t perceptionIndex = 0; perceptionIndex < haptic.getPerceptionsSize();
        perceptionIndex++) {
     perception = haptic.getPerceptionAt((int)perceptionIndex);
@@ -95,7 +95,7 @@ namespace haptics::synthesizer {
   }
   std::vector<std::vector<double>> amplitudes;
 
-  unsigned int timescale = haptic.getTimescale().value();
+  unsigned int timescale = haptic.getTimescaleOrDefault();
   for (uint32_t i = 0; i < haptic.getPerceptionsSize(); i++) {
     for (uint32_t j = 0; j < haptic.getPerceptionAt((int)i).getChannelsSize(); j++) {
       types::Channel myChannel;
-- 
2.43.0


From 54d4cab53b7aa6e7272bc4f3ac660def98ba2e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 17/69] fix: interpolation includes the last point one sample
 after its predecessor

---
 source/Tools/src/Tools.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/Tools/src/Tools.cpp b/source/Tools/src/Tools.cpp
index fadc6be..8e29e9f 100644
--- a/source/Tools/src/Tools.cpp
+++ b/source/Tools/src/Tools.cpp
@@ -101,7 +101,7 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
   std::vector<double> Ylinear;
   double t = 0;
   int i = 0;
-  while (t < points.back().first) {
+  while (i + 1 < static_cast<int>(points.size())) {
     double t0 = points[i].first;
     double f0 = points[i].second;
     double t1 = points[i + 1].first;
@@ -121,7 +121,7 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
   std::vector<double> Ylinear;
   double t = 0;
   int i = 0;
-  while (t < points.back().first) {
+  while (i + 1 < static_cast<int>(points.size())) {
     double t0 = points[i].first;
     double f0 = points[i].second;
     double t1 = points[i + 1].first;
@@ -189,7 +189,7 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
   std::vector<double> output;
   double t = 0;
   int i = 0;
-  while (t < x.back()) {
+  while (i + 1 < static_cast<int>(x.size())) {
     while (t <= x[i + 1]) {
       double delta = t - x[i];
       double amp = a[i] + b[i] * delta + c[i] * std::pow(delta, 2) + d[i] * std::pow(delta, 3);
@@ -402,7 +402,7 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
   int i = 0;
   double amp = 0;
 
-  while (t < points.back().first) {
+  while (i + 1 < static_cast<int>(points.size())) {
     double t0 = points[i].first;
     double f0 = points[i].second;
     double t1 = points[i + 1].first;
-- 
2.43.0


From 5900c4e517714204e45ca0b82fdc31ef84f4ca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 18/69] fix: binary library writer recursed on the composite
 effect itself

---
 source/IOHaptics/src/IOBinary.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index 628c2f7..1264139 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -365,7 +365,9 @@ auto IOBinary::writeLibraryEffect(types::Effect &libraryEffect, std::vector<bool
   types::Effect timelineEffect;
   for (unsigned short i = 0; i < timelineEffectCount; i++) {
     timelineEffect = libraryEffect.getTimelineEffectAt(i);
-    writeLibraryEffect(libraryEffect, output);
+    if (!writeLibraryEffect(timelineEffect, output)) {
+      return false;
+    }
   }
   return true;
 }
-- 
2.43.0


From f1209aac5dda91b34722d65546f016414a53b070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 19/69] fix: binary timeline writer wrote the composite effect
 instead of its nested effects

---
 source/IOHaptics/src/IOBinaryBands.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index 92e2821..4166c98 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -463,23 +463,23 @@ auto IOBinaryBands::writeTimelineEffect(types::Effect &effect, types::Band &band
     auto position = static_cast<uint32_t>(timelineEffect.getPosition());
     IOBinaryPrimitives::writeNBits<uint32_t, EFFECT_POSITION>(position, output);
 
-    if (effect.getEffectType() == types::EffectType::Reference) {
-      writeReferenceEffect(effect, output);
-    } else if (effect.getEffectType() == types::EffectType::Composite) {
-      writeTimelineEffect(effect, band, output);
+    if (timelineEffect.getEffectType() == types::EffectType::Reference) {
+      writeReferenceEffect(timelineEffect, output);
+    } else if (timelineEffect.getEffectType() == types::EffectType::Composite) {
+      writeTimelineEffect(timelineEffect, band, output);
     } else {
       switch (band.getBandType()) {
       case types::BandType::Transient:
-        IOBinaryBands::writeTransientEffect(effect, output);
+        IOBinaryBands::writeTransientEffect(timelineEffect, output);
         break;
       case types::BandType::Curve:
-        IOBinaryBands::writeCurveEffect(effect, output);
+        IOBinaryBands::writeCurveEffect(timelineEffect, output);
         break;
       case types::BandType::VectorialWave:
-        IOBinaryBands::writeVectorialEffect(effect, output);
+        IOBinaryBands::writeVectorialEffect(timelineEffect, output);
         break;
       case types::BandType::WaveletWave:
-        IOBinaryBands::writeWaveletEffect(effect, output);
+        IOBinaryBands::writeWaveletEffect(timelineEffect, output);
         break;
       default:
         return false;
-- 
2.43.0


From d8f455f7d5366e763447f08e1335364129552e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 20/69] fix: a channel without reference device was read back
 from binary files as using device 255

---
 source/IOHaptics/src/IOBinary.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index 1264139..6c3e66f 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -598,8 +598,10 @@ auto IOBinary::readChannelsHeader(types::Perception &perception, std::istream &f
     t.setId(IOBinaryPrimitives::readNBits<short, MDCHANNEL_ID>(file, unusedBits));
     std::string channelDescription = IOBinaryPrimitives::readString(file, unusedBits);
     t.setDescription(channelDescription);
-    t.setReferenceDeviceId(
-        IOBinaryPrimitives::readNBits<short, MDCHANNEL_DEVICE_ID>(file, unusedBits));
+    auto deviceId = IOBinaryPrimitives::readNBits<short, MDCHANNEL_DEVICE_ID>(file, unusedBits);
+    if (deviceId < REFDEV_MAX_ID) {
+      t.setReferenceDeviceId(deviceId);
+    }
     t.setGain(IOBinaryPrimitives::readFloatNBits<uint32_t, MDCHANNEL_GAIN>(file, -MAX_FLOAT,
                                                                            MAX_FLOAT, unusedBits));
     t.setMixingWeight(IOBinaryPrimitives::readFloatNBits<uint32_t, MDCHANNEL_MIXING_WEIGHT>(
-- 
2.43.0


From 4d544887584c8c4f6f0923308eea7a6c5e63bfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 21/69] fix: wavelet block length lost a power of two to
 rounding when written to binary files

---
 source/IOHaptics/src/IOBinaryBands.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index 4166c98..aacf859 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -87,8 +87,8 @@ auto IOBinaryBands::writeBandHeader(types::Band &band, std::vector<bool> &output
   } else if (band.getBandType() == types::BandType::WaveletWave) {
     auto bl_ticks = band.getBlockLength().value();
     auto blockLength_samples =
-        (int)((double)bl_ticks / (double)timescale * (double)band.getUpperFrequencyLimit());
-    auto blockLength_code = (int)log2(blockLength_samples) - 4;
+        (double)bl_ticks / (double)timescale * (double)band.getUpperFrequencyLimit();
+    auto blockLength_code = (int)std::round(std::log2(blockLength_samples)) - 4;
     if (blockLength_code < 0) {
       std::cerr << "wavelet blocklength too small" << std::endl;
     }
-- 
2.43.0


From be4d11b5f6822f77ee3efbc6b44ba8668a6b203c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 22/69] fix: wavelet effects were read from binary files at
 wrong positions unless timescale and frequency agree

---
 source/IOHaptics/src/IOBinaryBands.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index aacf859..4a506b3 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -118,8 +118,7 @@ auto IOBinaryBands::readBandBody(types::Band &band, std::istream &file,
     int position = 0;
     if ((myEffect.getEffectType() == types::EffectType::Basis &&
          band.getBandType() == types::BandType::WaveletWave)) {
-      position = effectIndex * band.getBlockLengthOrDefault() * static_cast<int>(timescale) /
-                 band.getUpperFrequencyLimit();
+      position = effectIndex * band.getBlockLengthOrDefault();
     } else {
       position = static_cast<int>(
           IOBinaryPrimitives::readNBits<uint32_t, EFFECT_POSITION>(file, unusedBits));
-- 
2.43.0


From 449669f925b6dbb382dc3ea04b111f1ef8c2d5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 23/69] fix: reading a wavelet band without upper frequency
 limit divided by zero

---
 source/IOHaptics/src/IOBinaryBands.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index 4a506b3..a4bea98 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -63,6 +63,9 @@ auto IOBinaryBands::readBandHeader(types::Band &band, std::istream &file,
   band.setUpperFrequencyLimit(static_cast<int>(upperFrequencyLimit));
 
   if (band.getBandType() == types::BandType::WaveletWave) {
+    if (upperFrequencyLimit == 0) {
+      return false;
+    }
     auto blockLength_ticks = static_cast<int>(blockLength_samp * timescale / upperFrequencyLimit);
     band.setBlockLength(blockLength_ticks);
   }
-- 
2.43.0


From 462a70133a3a06da442022d38778d62a4161e7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:37 +0000
Subject: [PATCH 24/69] fix: writing a vectorial keyframe without position to a
 binary file threw

---
 source/IOHaptics/src/IOBinaryBands.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index a4bea98..f87e591 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -347,7 +347,7 @@ auto IOBinaryBands::writeVectorialEffect(types::Effect &effect, std::vector<bool
       IOBinaryPrimitives::writeFloatNBits<uint8_t, KEYFRAME_AMPLITUDE>(
           amplitude, output, -MAX_AMPLITUDE, MAX_AMPLITUDE);
     }
-    auto position = static_cast<uint16_t>(myKeyframe.getRelativePosition().value() *
+    auto position = static_cast<uint16_t>(myKeyframe.getRelativePosition().value_or(0) *
                                           1); // TODO: convert from MS to ticks
     IOBinaryPrimitives::writeNBits<uint16_t, KEYFRAME_POSITION>(position, output);
 
-- 
2.43.0


From 9eea981e5e988f53222e96e0cdcfda3d85e138f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:03 +0000
Subject: [PATCH 25/69] fix: rendering moved curve effects to their start when
 their first keyframe is later

---
 source/Types/src/Band.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index 51ea6f8..1964cb3 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -198,6 +198,7 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
       if (keyframes.size() < 2) {
         continue;
       }
+      const int firstKeyframePosition = keyframes[0].first;
       keyframes[0].first = 0;
       std::vector<double> effectAmp(static_cast<::std::size_t>(keyframes.back().first) + 1, 0);
       if (keyframes.size() == 2) {
@@ -232,7 +233,7 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
       if (start >= static_cast<double>(sampleCount)) {
         continue;
       }
-      int position = static_cast<int>(start);
+      int position = static_cast<int>(start) + firstKeyframePosition;
       if (position < 0) {
         count = -position;
         position = 0;
-- 
2.43.0


From 5949fab56a89bcf66910ae08d86967b0b569cbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:03 +0000
Subject: [PATCH 26/69] fix: phase of vectorial effects assumed 1000 ticks per
 second

---
 source/Types/src/Effect.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index 2c2de1b..4263521 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -249,11 +249,11 @@ auto Effect::EvaluateVectorial(double position, int lowFrequencyLimit, int highF
             pos - (firstFrequencyKeyframeBeforePositionIt->getRelativePosition().has_value()
                        ? firstFrequencyKeyframeBeforePositionIt->getRelativePosition().value()
                        : 0);
-        phi += M_PI * deltaT * MS_2_S *
+        phi += M_PI * deltaT / static_cast<double>(timescale) *
                (firstFrequencyKeyframeBeforePositionIt->getFrequencyModulation().value() +
                 firstFrequencyKeyframeAfterPositionIt->getFrequencyModulation().value());
       } else if (pos > 0) { // first keyframe with frequency value
-        phi += 2 * M_PI * pos * MS_2_S *
+        phi += 2 * M_PI * pos / static_cast<double>(timescale) *
                firstFrequencyKeyframeAfterPositionIt->getFrequencyModulation().value();
       }
     }
-- 
2.43.0


From 5591ace5bd5aef278c93cc993445036081b1438e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:10 +0000
Subject: [PATCH 27/69] fix: vectorial effects jumped in phase after their last
 frequency keyframe

---
 source/Types/src/Effect.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index 4263521..9b8dcb4 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -291,6 +291,8 @@ auto Effect::EvaluateVectorial(double position, int lowFrequencyLimit, int highF
         });
     if (frequencyKeyframeIt < keyframes.rend()) {
       freq_modulation = frequencyKeyframeIt->getFrequencyModulation().value();
+      // phi already covers the time until this keyframe
+      relativePosition -= frequencyKeyframeIt->getRelativePosition().value_or(0);
     }
   }
 
-- 
2.43.0


From 10241d64f4faeeb25a6f7ed9d13aae5faa845a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:08 +0000
Subject: [PATCH 28/69] fix: spline and Akima interpolation divided by zero
 between points at the same time

---
 source/Tools/src/Tools.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/source/Tools/src/Tools.cpp b/source/Tools/src/Tools.cpp
index 8e29e9f..dec78df 100644
--- a/source/Tools/src/Tools.cpp
+++ b/source/Tools/src/Tools.cpp
@@ -138,8 +138,24 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
   }
   return Ylinear;
 }
-[[nodiscard]] auto cubicInterpolation(const std::vector<std::pair<int, double>> &points)
+// Splines are not defined through several points at the same time: keep the first one
+static auto withoutCoincidentPoints(const std::vector<std::pair<int, double>> &points)
+    -> std::vector<std::pair<int, double>> {
+  std::vector<std::pair<int, double>> res;
+  for (const auto &point : points) {
+    if (res.empty() || point.first > res.back().first) {
+      res.push_back(point);
+    }
+  }
+  return res;
+}
+
+[[nodiscard]] auto cubicInterpolation(const std::vector<std::pair<int, double>> &allPoints)
     -> std::vector<double> {
+  const auto points = withoutCoincidentPoints(allPoints);
+  if (points.size() == 1) {
+    return {points[0].second};
+  }
   std::vector<double> x;
   std::vector<double> y;
   for (auto point : points) {
@@ -201,8 +217,15 @@ auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, dou
   return output;
 }
 
-[[nodiscard]] auto akimaInterpolation(const std::vector<std::pair<int, double>> &points)
+[[nodiscard]] auto akimaInterpolation(const std::vector<std::pair<int, double>> &allPoints)
     -> std::vector<double> {
+  const auto points = withoutCoincidentPoints(allPoints);
+  if (points.size() == 1) {
+    return {points[0].second};
+  }
+  if (points.size() == 2) {
+    return linearInterpolation2(points);
+  }
   auto n = points.size();
   std::vector<double> dx(n - 1);
   std::vector<double> dy(dx.size());
-- 
2.43.0


From 753a17df1f0de0cb603386d135c44e0c9516b7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 29/69] fix: updating the metadata of a perception set its
 avatar to its own id

---
 source/Types/src/Haptics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Types/src/Haptics.cpp b/source/Types/src/Haptics.cpp
index c291d0f..bb79cdb 100644
--- a/source/Types/src/Haptics.cpp
+++ b/source/Types/src/Haptics.cpp
@@ -75,7 +75,7 @@ auto Haptics::replacePerceptionMetadataAt(int index, Perception &newPerception)
     return false;
   }
   perceptions[index].setId(newPerception.getId());
-  perceptions[index].setAvatarId(newPerception.getId());
+  perceptions[index].setAvatarId(newPerception.getAvatarId());
   auto desc = newPerception.getDescription();
   perceptions[index].setDescription(desc);
   perceptions[index].setPerceptionModality(newPerception.getPerceptionModality());
-- 
2.43.0


From 05eef3fc329052693724e6ca3de56c679cb5dd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 30/69] fix: updating the metadata of a channel kept a
 reference device the new metadata does not have

---
 source/Types/include/Channel.h  | 2 +-
 source/Types/src/Channel.cpp    | 2 +-
 source/Types/src/Perception.cpp | 4 +---
 3 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/source/Types/include/Channel.h b/source/Types/include/Channel.h
index 661aeb3..eead091 100644
--- a/source/Types/include/Channel.h
+++ b/source/Types/include/Channel.h
@@ -84,7 +84,7 @@ public:
   [[nodiscard]] auto getBodyPartMask() const -> uint32_t;
   auto setBodyPartMask(uint32_t newBodyPartMask) -> void;
   [[nodiscard]] auto getReferenceDeviceId() const -> std::optional<int>;
-  auto setReferenceDeviceId(int newReferenceDeviceId) -> void;
+  auto setReferenceDeviceId(std::optional<int> newReferenceDeviceId) -> void;
   auto getVerticesSize() -> size_t;
   auto getVertexAt(int index) -> int &;
   auto addVertex(int &newVertice) -> void;
diff --git a/source/Types/src/Channel.cpp b/source/Types/src/Channel.cpp
index b207ef8..79ecb2d 100644
--- a/source/Types/src/Channel.cpp
+++ b/source/Types/src/Channel.cpp
@@ -67,7 +67,7 @@ auto Channel::setBodyPartMask(uint32_t newBodyPartMask) -> void { bodyPartMask =
 [[nodiscard]] auto Channel::getReferenceDeviceId() const -> std::optional<int> {
   return referenceDeviceId;
 }
-auto Channel::setReferenceDeviceId(int newReferenceDeviceId) -> void {
+auto Channel::setReferenceDeviceId(std::optional<int> newReferenceDeviceId) -> void {
   referenceDeviceId = newReferenceDeviceId;
 }
 
diff --git a/source/Types/src/Perception.cpp b/source/Types/src/Perception.cpp
index 1da1137..d65041b 100644
--- a/source/Types/src/Perception.cpp
+++ b/source/Types/src/Perception.cpp
@@ -132,9 +132,7 @@ auto Perception::replaceChannelMetadataAt(int index, haptics::types::Channel &ne
   for (auto i = 0; i < static_cast<int>(newChannel.getVerticesSize()); i++) {
     channels[index].addVertex((newChannel.getVertexAt(i)));
   }
-  if (newChannel.getReferenceDeviceId().has_value()) {
-    channels[index].setReferenceDeviceId(newChannel.getReferenceDeviceId().value());
-  }
+  channels[index].setReferenceDeviceId(newChannel.getReferenceDeviceId());
   channels[index].setFrequencySampling(newChannel.getFrequencySampling());
   channels[index].setSampleCount(newChannel.getSampleCount());
   channels[index].setDirection(newChannel.getDirection());
-- 
2.43.0


From 0eaba40a8f552c87039afa76021ad07960d45a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 31/69] fix: updating the metadata of a perception, channel or
 band kept its old priority

---
 source/Types/include/Band.h       | 2 +-
 source/Types/include/Channel.h    | 2 +-
 source/Types/include/Perception.h | 2 +-
 source/Types/src/Band.cpp         | 2 +-
 source/Types/src/Channel.cpp      | 3 ++-
 source/Types/src/Haptics.cpp      | 1 +
 source/Types/src/Perception.cpp   | 3 ++-
 7 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/source/Types/include/Band.h b/source/Types/include/Band.h
index 5928047..e0a2d61 100644
--- a/source/Types/include/Band.h
+++ b/source/Types/include/Band.h
@@ -72,7 +72,7 @@ public:
   auto setBandType(BandType newBandType) -> void;
   [[nodiscard]] auto getPriority() const -> std::optional<int>;
   [[nodiscard]] auto getPriorityOrDefault() const -> int;
-  auto setPriority(int newPriority) -> void;
+  auto setPriority(std::optional<int> newPriority) -> void;
   [[nodiscard]] auto getCurveTypeOrDefault() const -> CurveType;
   [[nodiscard]] auto getCurveType() const -> std::optional<CurveType>;
   auto setCurveType(CurveType newCurveType) -> void;
diff --git a/source/Types/include/Channel.h b/source/Types/include/Channel.h
index eead091..4eadbef 100644
--- a/source/Types/include/Channel.h
+++ b/source/Types/include/Channel.h
@@ -76,7 +76,7 @@ public:
   auto setDescription(std::string &newDescription) -> void;
   [[nodiscard]] auto getPriority() const -> std::optional<int>;
   [[nodiscard]] auto getPriorityOrDefault() const -> int;
-  auto setPriority(int newPriority) -> void;
+  auto setPriority(std::optional<int> newPriority) -> void;
   [[nodiscard]] auto getGain() const -> float;
   auto setGain(float newGain) -> void;
   [[nodiscard]] auto getMixingWeight() const -> float;
diff --git a/source/Types/include/Perception.h b/source/Types/include/Perception.h
index 14e079c..884624c 100644
--- a/source/Types/include/Perception.h
+++ b/source/Types/include/Perception.h
@@ -118,7 +118,7 @@ public:
   auto setDescription(std::string &newDescription) -> void;
   [[nodiscard]] auto getPriority() const -> std::optional<int>;
   [[nodiscard]] auto getPriorityOrDefault() const -> int;
-  auto setPriority(int newPriority) -> void;
+  auto setPriority(std::optional<int> newPriority) -> void;
   [[nodiscard]] auto getPerceptionModality() const -> PerceptionModality;
   auto setPerceptionModality(PerceptionModality newPerceptionModality) -> void;
   [[nodiscard]] auto getUnitExponent() const -> std::optional<int8_t>;
diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index 1964cb3..1bd6f5f 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -47,7 +47,7 @@ auto Band::getPriorityOrDefault() const -> int {
   }
   return 0;
 }
-auto Band::setPriority(int newPriority) -> void { priority = newPriority; }
+auto Band::setPriority(std::optional<int> newPriority) -> void { priority = newPriority; }
 
 [[nodiscard]] auto Band::getCurveTypeOrDefault() const -> CurveType {
   if (curveType.has_value()) {
diff --git a/source/Types/src/Channel.cpp b/source/Types/src/Channel.cpp
index 79ecb2d..73ff1bd 100644
--- a/source/Types/src/Channel.cpp
+++ b/source/Types/src/Channel.cpp
@@ -50,7 +50,7 @@ auto Channel::getPriorityOrDefault() const -> int {
   }
   return 0;
 }
-auto Channel::setPriority(int newPriority) -> void { priority = newPriority; }
+auto Channel::setPriority(std::optional<int> newPriority) -> void { priority = newPriority; }
 
 [[nodiscard]] auto Channel::getGain() const -> float { return gain; }
 
@@ -95,6 +95,7 @@ auto Channel::replaceBandMetadataAt(int index, haptics::types::Band &newBand) ->
   if (index < 0 || index >= (int)this->getBandsSize()) {
     return false;
   }
+  bands[index].setPriority(newBand.getPriority());
   bands[index].setBandType(newBand.getBandType());
   if (bands[index].getBandType() == BandType::Curve) {
     bands[index].setCurveType(newBand.getCurveTypeOrDefault());
diff --git a/source/Types/src/Haptics.cpp b/source/Types/src/Haptics.cpp
index bb79cdb..64d1ab0 100644
--- a/source/Types/src/Haptics.cpp
+++ b/source/Types/src/Haptics.cpp
@@ -78,6 +78,7 @@ auto Haptics::replacePerceptionMetadataAt(int index, Perception &newPerception)
   perceptions[index].setAvatarId(newPerception.getAvatarId());
   auto desc = newPerception.getDescription();
   perceptions[index].setDescription(desc);
+  perceptions[index].setPriority(newPerception.getPriority());
   perceptions[index].setPerceptionModality(newPerception.getPerceptionModality());
   perceptions[index].setUnitExponent(newPerception.getUnitExponentOrDefault());
   perceptions[index].setPerceptionUnitExponent(newPerception.getPerceptionUnitExponentOrDefault());
diff --git a/source/Types/src/Perception.cpp b/source/Types/src/Perception.cpp
index d65041b..8daa23d 100644
--- a/source/Types/src/Perception.cpp
+++ b/source/Types/src/Perception.cpp
@@ -71,7 +71,7 @@ auto Perception::getPriorityOrDefault() const -> int {
   return 0;
 }
 
-auto Perception::setPriority(int newPriority) -> void { priority = newPriority; }
+auto Perception::setPriority(std::optional<int> newPriority) -> void { priority = newPriority; }
 
 [[nodiscard]] auto Perception::getPerceptionModality() const -> PerceptionModality {
   return perceptionModality;
@@ -125,6 +125,7 @@ auto Perception::replaceChannelMetadataAt(int index, haptics::types::Channel &ne
   channels[index].setId(newChannel.getId());
   auto desc = newChannel.getDescription();
   channels[index].setDescription(desc);
+  channels[index].setPriority(newChannel.getPriority());
   channels[index].setGain(newChannel.getGain());
   channels[index].setMixingWeight(newChannel.getMixingWeight());
   channels[index].setBodyPartMask(newChannel.getBodyPartMask());
-- 
2.43.0


From 5667ae63acb96819400d392365e5957ede72b0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:03 +0000
Subject: [PATCH 32/69] fix: body part masks read from OHM files were corrupted
 by bytes above 127

---
 source/Tools/src/OHMData.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/Tools/src/OHMData.cpp b/source/Tools/src/OHMData.cpp
index 9398652..5563112 100644
--- a/source/Tools/src/OHMData.cpp
+++ b/source/Tools/src/OHMData.cpp
@@ -121,8 +121,10 @@ auto OHMData::loadFile(const std::string &filePath) -> bool {
       std::array<char, 4> bodyPartMaskBytes{};
       file.read(bodyPartMaskBytes.data(), 4);
       channel.bodyPartMask = static_cast<Body>(
-          (bodyPartMaskBytes[0] << threeBytesShift) | (bodyPartMaskBytes[1] << twoBytesShift) |
-          (bodyPartMaskBytes[2] << oneByteShift) | bodyPartMaskBytes[3]);
+          (static_cast<uint32_t>(static_cast<uint8_t>(bodyPartMaskBytes[0])) << threeBytesShift) |
+          (static_cast<uint32_t>(static_cast<uint8_t>(bodyPartMaskBytes[1])) << twoBytesShift) |
+          (static_cast<uint32_t>(static_cast<uint8_t>(bodyPartMaskBytes[2])) << oneByteShift) |
+          static_cast<uint32_t>(static_cast<uint8_t>(bodyPartMaskBytes[3])));
 
       element.channelsMetadata.push_back(channel);
     }
-- 
2.43.0


From 66a0db425d9c43947aff128570ac6b56bed498db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:03 +0000
Subject: [PATCH 33/69] fix: writing an OHM header shorter than four characters
 read beyond it

---
 source/Tools/src/OHMData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Tools/src/OHMData.cpp b/source/Tools/src/OHMData.cpp
index 5563112..94b4403 100644
--- a/source/Tools/src/OHMData.cpp
+++ b/source/Tools/src/OHMData.cpp
@@ -148,7 +148,7 @@ auto OHMData::writeFile(const std::string &filePath) -> bool {
     return false;
   }
   // Writing the header
-  file.write(header.c_str(), 4);
+  file.write(fillString(header, 4).c_str(), 4);
 
   // Writing the version
   std::array<char, 2> versionBytes{};
-- 
2.43.0


From 9102a26f5a23f72a1b2bc3934fa18fa2b93533e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:03 +0000
Subject: [PATCH 34/69] fix: loading an OHM file kept the elements of the
 previous one

---
 source/Tools/src/OHMData.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/Tools/src/OHMData.cpp b/source/Tools/src/OHMData.cpp
index 94b4403..863bb41 100644
--- a/source/Tools/src/OHMData.cpp
+++ b/source/Tools/src/OHMData.cpp
@@ -43,6 +43,7 @@ OHMData::OHMData(const std::string &filePath) { loadFile(filePath); }
 
 auto OHMData::loadFile(const std::string &filePath) -> bool {
   version = 1;
+  elementsMetadata.clear();
   std::ifstream file(filePath, std::ios::binary | std::ifstream::in);
   if (!file) {
     std::cerr << filePath << ": Cannot open file!" << std::endl;
-- 
2.43.0


From 78f03c5d1bbf23e9e18f0dcf7781fd50331f7b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:29 +0000
Subject: [PATCH 35/69] fix: negative audio samples were converted to an
 unsigned type, which is undefined

---
 source/Tools/src/WavParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/Tools/src/WavParser.cpp b/source/Tools/src/WavParser.cpp
index 7d29bf1..43927dc 100644
--- a/source/Tools/src/WavParser.cpp
+++ b/source/Tools/src/WavParser.cpp
@@ -91,7 +91,7 @@ auto WavParser::saveFile(const std::string &filename, const std::vector<double>
     if (v_scaled < -SCALING) {
       return NEG_MAX;
     }
-    return (uint16_t)v_scaled;
+    return (uint16_t)(int16_t)v_scaled;
   });
   drwav_write_pcm_frames(&wav, b_int.size(), b_int.data());
   drwav_uninit(&wav);
@@ -127,7 +127,7 @@ auto WavParser::saveFile(const std::string &filename, const std::vector<std::vec
       } else if (v < -SCALING) {
         b_int.at((i * buff.size()) + c) = NEG_MAX;
       } else {
-        b_int.at((i * buff.size()) + c) = (uint16_t)v;
+        b_int.at((i * buff.size()) + c) = (uint16_t)(int16_t)v;
       }
     }
     c++;
-- 
2.43.0


From 44d22b5ff34677316d28c17aa011e774423f1562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:58 +0000
Subject: [PATCH 36/69] fix: wavelet bands were decoded with a wrong block
 length unless the timescale was 1000

---
 source/WaveletDecoder/include/WaveletDecoder.h |  5 +++--
 source/WaveletDecoder/src/WaveletDecoder.cpp   | 10 ++++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/source/WaveletDecoder/include/WaveletDecoder.h b/source/WaveletDecoder/include/WaveletDecoder.h
index 1e3dc3d..c5caaf5 100644
--- a/source/WaveletDecoder/include/WaveletDecoder.h
+++ b/source/WaveletDecoder/include/WaveletDecoder.h
@@ -53,8 +53,6 @@ using haptics::types::Effect;
 
 namespace haptics::waveletdecoder {
 
-constexpr double MS_2_S_WAVELET = 0.001;
-
 class WaveletDecoder {
 public:
   auto decodeBand(Band &band, int timescale) -> std::vector<double>;
@@ -63,6 +61,9 @@ public:
                           double scalar, int dwtl);
 
 private:
+  // block length of a band in samples
+  auto static blockSamples(const Band &band, unsigned int timescale) -> int;
+
   std::vector<double> sig_rec;
   Spiht_Dec spihtDec = Spiht_Dec();
 };
diff --git a/source/WaveletDecoder/src/WaveletDecoder.cpp b/source/WaveletDecoder/src/WaveletDecoder.cpp
index e1d7fbc..0aa4e4d 100644
--- a/source/WaveletDecoder/src/WaveletDecoder.cpp
+++ b/source/WaveletDecoder/src/WaveletDecoder.cpp
@@ -35,6 +35,13 @@
 
 namespace haptics::waveletdecoder {
 
+auto WaveletDecoder::blockSamples(const Band &band, unsigned int timescale) -> int {
+  // the block length in ticks may be truncated: the coder only uses powers of two
+  auto samples = (double)band.getBlockLengthOrDefault() * (double)band.getUpperFrequencyLimit() /
+                 (double)timescale;
+  return (int)pow(2, round(log2(samples)));
+}
+
 auto WaveletDecoder::decodeBand(Band &band, int timescale) -> std::vector<double> {
   if (band.getBandType() != BandType::WaveletWave || !band.getBlockLength().has_value()) {
     return std::vector<double>();
@@ -64,8 +71,7 @@ void WaveletDecoder::transformBand(Band &band, unsigned int timescale) {
     return;
   }
   size_t numBlocks = band.getEffectsSize();
-  auto bl = (int)(band.getBlockLengthOrDefault() * MS_2_S_WAVELET *
-                  (double)band.getUpperFrequencyLimit());
+  int bl = blockSamples(band, timescale);
   int dwtlevel = (int)log2((double)bl / 4);
 
   for (uint32_t b = 0; b < numBlocks; b++) {
-- 
2.43.0


From a52cc47a30091941543fa714cd906032bbb5a22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:58 +0000
Subject: [PATCH 37/69] fix: wavelet bands with an unusable block length were
 decoded out of bounds

---
 source/WaveletDecoder/include/WaveletDecoder.h | 3 +++
 source/WaveletDecoder/src/WaveletDecoder.cpp   | 9 ++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/source/WaveletDecoder/include/WaveletDecoder.h b/source/WaveletDecoder/include/WaveletDecoder.h
index c5caaf5..b54fde8 100644
--- a/source/WaveletDecoder/include/WaveletDecoder.h
+++ b/source/WaveletDecoder/include/WaveletDecoder.h
@@ -53,6 +53,9 @@ using haptics::types::Effect;
 
 namespace haptics::waveletdecoder {
 
+constexpr int MIN_BLOCK_SAMPLES = 16;
+constexpr int MAX_BLOCK_SAMPLES = 1 << 24;
+
 class WaveletDecoder {
 public:
   auto decodeBand(Band &band, int timescale) -> std::vector<double>;
diff --git a/source/WaveletDecoder/src/WaveletDecoder.cpp b/source/WaveletDecoder/src/WaveletDecoder.cpp
index 0aa4e4d..19a5f5b 100644
--- a/source/WaveletDecoder/src/WaveletDecoder.cpp
+++ b/source/WaveletDecoder/src/WaveletDecoder.cpp
@@ -39,7 +39,11 @@ auto WaveletDecoder::blockSamples(const Band &band, unsigned int timescale) -> i
   // the block length in ticks may be truncated: the coder only uses powers of two
   auto samples = (double)band.getBlockLengthOrDefault() * (double)band.getUpperFrequencyLimit() /
                  (double)timescale;
-  return (int)pow(2, round(log2(samples)));
+  if (!(samples >= MIN_BLOCK_SAMPLES / 2.0 && samples <= MAX_BLOCK_SAMPLES)) {
+    return 0;
+  }
+  auto bl = (int)pow(2, round(log2(samples)));
+  return bl < MIN_BLOCK_SAMPLES ? 0 : bl;
 }
 
 auto WaveletDecoder::decodeBand(Band &band, int timescale) -> std::vector<double> {
@@ -72,6 +76,9 @@ void WaveletDecoder::transformBand(Band &band, unsigned int timescale) {
   }
   size_t numBlocks = band.getEffectsSize();
   int bl = blockSamples(band, timescale);
+  if (bl == 0) {
+    return;
+  }
   int dwtlevel = (int)log2((double)bl / 4);
 
   for (uint32_t b = 0; b < numBlocks; b++) {
-- 
2.43.0


From 70c177ab2aa5175b34bd36d3f69d71644f7aa6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:58 +0000
Subject: [PATCH 38/69] fix: decoding a wavelet band to a signal lost its scale
 and placed blocks at tick positions

---
 source/WaveletDecoder/src/WaveletDecoder.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/WaveletDecoder/src/WaveletDecoder.cpp b/source/WaveletDecoder/src/WaveletDecoder.cpp
index 19a5f5b..99ccfcd 100644
--- a/source/WaveletDecoder/src/WaveletDecoder.cpp
+++ b/source/WaveletDecoder/src/WaveletDecoder.cpp
@@ -51,7 +51,10 @@ auto WaveletDecoder::decodeBand(Band &band, int timescale) -> std::vector<double
     return std::vector<double>();
   }
   size_t numBlocks = band.getEffectsSize();
-  int bl = band.getBlockLength().value() * band.getUpperFrequencyLimit() / timescale;
+  int bl = timescale > 0 ? blockSamples(band, timescale) : 0;
+  if (bl == 0) {
+    return std::vector<double>();
+  }
   int dwtlevel = (int)log2((double)bl / 4);
   std::vector<double> sig_rec(numBlocks * bl, 0);
 
@@ -62,9 +65,10 @@ auto WaveletDecoder::decodeBand(Band &band, int timescale) -> std::vector<double
     double scalar = 0;
     int bits = 0;
     spihtDec.decodeEffect(bitstream, block_dwt, bl, scalar, bits);
+    scalar /= pow(2, (double)bits);
     std::vector<double> block_time(bl);
     decodeBlock(block_dwt, block_time, scalar, dwtlevel);
-    std::copy(block_time.begin(), block_time.end(), sig_rec.begin() + effect.getPosition());
+    std::copy(block_time.begin(), block_time.end(), sig_rec.begin() + (long)b * bl);
   }
   return sig_rec;
 }
-- 
2.43.0


From 22e39dbc725729e76b51d4b0f89bf1386b6915f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:36 +0000
Subject: [PATCH 39/69] fix: the checksum of a single stream packet was refused
 and that of no packet read a missing one

---
 source/IOHaptics/src/IOStream.cpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 333c926..2777a9a 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2273,16 +2273,9 @@ auto IOStream::writeCRC(std::vector<std::vector<bool>> &bitstream, std::vector<b
 
   std::vector<bool> quotient = std::vector<bool>();
   int nbPackets = 0;
-  if (bitstream.empty()) {
-    quotient = bitstream[0];
+  for (auto &packet : bitstream) {
+    quotient.insert(quotient.end(), packet.begin(), packet.end());
     nbPackets++;
-  } else if (bitstream.size() > 1) {
-    for (auto &packet : bitstream) {
-      quotient.insert(quotient.end(), packet.begin(), packet.end());
-      nbPackets++;
-    }
-  } else {
-    return false;
   }
   if (quotient.empty()) {
     return false;
-- 
2.43.0


From 12917b4e0f6d6257b3fe1f71f77d4bbfa7ab3c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:36 +0000
Subject: [PATCH 40/69] fix: stream checksums were verified over the packets in
 reverse order, and again after every later unit

---
 source/IOHaptics/src/IOStream.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 2777a9a..7104859 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2322,14 +2322,15 @@ auto IOStream::readCRC(std::vector<bool> &bitstream, CRC &crc, MIHSPacketType mi
 auto IOStream::checkCRC(std::vector<std::vector<bool>> &bitstream, CRC &crc) -> bool {
   std::vector<bool> protectedPackets = std::vector<bool>();
   if (bitstream.size() < crc.nbPackets) {
+    crc.nbPackets = 0;
     return false;
   }
   int index = 0;
-  while (crc.nbPackets-- > 0) {
-    protectedPackets.insert(protectedPackets.begin(), bitstream[index].begin(),
+  for (; index < static_cast<int>(crc.nbPackets); index++) {
+    protectedPackets.insert(protectedPackets.end(), bitstream[index].begin(),
                             bitstream[index].end());
-    index++;
   }
+  crc.nbPackets = 0;
   bool res = false;
   if (crc.value16 > 0) {
     std::bitset<CRC16_NB_BITS> polynomialBits(crc.polynomial16);
-- 
2.43.0


From 5c98bb21ce49e4d40afc7d696ddf4ef1a7983554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:36 +0000
Subject: [PATCH 41/69] fix: a stream checksum of zero never verified

---
 source/IOHaptics/include/IOStream.h | 1 +
 source/IOHaptics/src/IOStream.cpp   | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index b545703..2bb3aab 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -84,6 +84,7 @@ public:
     uint8_t nbPackets = 0;
     uint16_t value16 = 0;
     uint32_t value32 = 0;
+    bool is32Bits = false;
   };
 
   struct StreamWriter {
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 7104859..3ac3d38 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2296,24 +2296,28 @@ auto IOStream::readCRC(std::vector<bool> &bitstream, CRC &crc, MIHSPacketType mi
     crc.nbPackets = 1;
     crc.value16 = IOBinaryPrimitives::readUInt(bitstream, idx, CRC16_NB_BITS);
     crc.value32 = 0;
+    crc.is32Bits = false;
     return true;
   }
   if (mihsPacketType == MIHSPacketType::CRC32) {
     crc.nbPackets = 1;
     crc.value32 = IOBinaryPrimitives::readUInt(bitstream, idx, CRC32_NB_BITS);
     crc.value16 = 0;
+    crc.is32Bits = true;
     return true;
   }
   if (mihsPacketType == MIHSPacketType::GlobalCRC16) {
     crc.nbPackets = IOBinaryPrimitives::readUInt(bitstream, idx, GCRC_NB_PACKET);
     crc.value16 = IOBinaryPrimitives::readUInt(bitstream, idx, CRC16_NB_BITS);
     crc.value32 = 0;
+    crc.is32Bits = false;
     return true;
   }
   if (mihsPacketType == MIHSPacketType::GlobalCRC32) {
     crc.nbPackets = IOBinaryPrimitives::readUInt(bitstream, idx, GCRC_NB_PACKET);
     crc.value32 = IOBinaryPrimitives::readUInt(bitstream, idx, CRC32_NB_BITS);
     crc.value16 = 0;
+    crc.is32Bits = true;
     return true;
   }
   return false;
@@ -2332,7 +2336,7 @@ auto IOStream::checkCRC(std::vector<std::vector<bool>> &bitstream, CRC &crc) ->
   }
   crc.nbPackets = 0;
   bool res = false;
-  if (crc.value16 > 0) {
+  if (!crc.is32Bits) {
     std::bitset<CRC16_NB_BITS> polynomialBits(crc.polynomial16);
     std::vector<bool> polynomial = std::vector<bool>();
     std::string polynomialStr = polynomialBits.to_string();
@@ -2347,7 +2351,7 @@ auto IOStream::checkCRC(std::vector<std::vector<bool>> &bitstream, CRC &crc) ->
       crc.value16 = 0;
       res = false;
     }
-  } else if (crc.value32 > 0) {
+  } else {
     std::bitset<CRC32_NB_BITS> polynomialBits(crc.polynomial32);
     std::vector<bool> polynomial = std::vector<bool>();
     std::string polynomialStr = polynomialBits.to_string();
-- 
2.43.0


From e6735896d0ba7167b63ed0838792604f5d4ebfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:36 +0000
Subject: [PATCH 42/69] fix: packets starting in the last nine bytes of a
 stream unit were skipped

---
 source/IOHaptics/src/IOStream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 3ac3d38..ca6b986 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -253,6 +253,7 @@ auto IOStream::readMIHSUnit(std::vector<bool> &mihsunit, StreamReader &sreader,
   sreader.packetDuration = IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_DURATION);
   int unitLength = IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_LENGTH) * BYTE_SIZE;
   index += UNIT_RESERVED;
+  unitLength += index;
 
   std::vector<bool> packets = std::vector<bool>(mihsunit.begin() + index, mihsunit.end());
   while (index < unitLength) {
-- 
2.43.0


From 437de875c422ab95d882d35577bb2c41b3d78a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:36 +0000
Subject: [PATCH 43/69] fix: stream readers reported success when a packet
 could not be read

---
 source/IOHaptics/src/IOStream.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index ca6b986..b3aca03 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -62,13 +62,15 @@ auto IOStream::writeFile(types::Haptics &haptic, const std::string &filePath, in
 
 auto IOStream::readFile(const std::string &filePath, types::Haptics &haptic) -> bool {
   std::vector<std::vector<bool>> bitstream = std::vector<std::vector<bool>>();
-  loadFile(filePath, bitstream);
+  if (!loadFile(filePath, bitstream)) {
+    return false;
+  }
   StreamReader sreader = initializeStream();
   CRC crc;
   int index = 0;
   for (auto &packet : bitstream) {
     if (!readMIHSUnit(packet, sreader, crc)) {
-      return EXIT_FAILURE;
+      return false;
     }
     if (crc.nbPackets != 0) {
       if (!checkCRC(bitstream, crc)) {
@@ -258,7 +260,7 @@ auto IOStream::readMIHSUnit(std::vector<bool> &mihsunit, StreamReader &sreader,
   std::vector<bool> packets = std::vector<bool>(mihsunit.begin() + index, mihsunit.end());
   while (index < unitLength) {
     if (!readMIHSPacket(packets, sreader, crc)) {
-      return EXIT_FAILURE;
+      return false;
     }
     index += static_cast<int>(sreader.packetLength) + H_NBITS;
     packets = std::vector<bool>(mihsunit.begin() + index, mihsunit.end());
@@ -2204,7 +2206,7 @@ auto IOStream::readData(StreamReader &sreader, std::vector<bool> &bitstream) ->
   sreader.auType = static_cast<AUType>(IOBinaryPrimitives::readUInt(bitstream, idx, DB_AU_TYPE));
 
   if (sreader.waitSync && sreader.auType == AUType::DAU) {
-    return false;
+    return true; // dropped until the next packet that can be decoded on its own
   }
   if (sreader.waitSync) {
     sreader.waitSync = false;
-- 
2.43.0


From 9d23df81c7bb9d2eb81d64a799c31921612b6ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:15 +0000
Subject: [PATCH 44/69] fix: stream packets of a channel were assigned to a
 channel of another perception with the same id

---
 source/IOHaptics/include/IOStream.h |  2 +-
 source/IOHaptics/src/IOStream.cpp   | 20 +++++++++-----------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index 2bb3aab..aa395ff 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -261,7 +261,7 @@ private:
   template <class T> static auto searchInList(std::vector<T> &list, T &item, int id) -> bool;
   static auto searchInList(std::vector<BandStream> &list, BandStream &item, int id) -> bool;
   static auto searchPerceptionInHaptic(types::Haptics &haptic, int id) -> int;
-  static auto searchChannelInHaptic(types::Haptics &haptic, int id) -> int;
+  static auto searchChannelInHaptic(types::Haptics &haptic, int perceptionIndex, int id) -> int;
   static auto searchBandInHaptic(StreamReader &sreader, int id) -> int;
 
   static auto readListObject(std::vector<bool> &bitstream, int fxCount, types::Band &band,
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index b3aca03..9b19940 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -708,7 +708,7 @@ auto IOStream::readMIHSPacket(std::vector<bool> packet, StreamReader &sreader, C
       return false;
     }
     int perceIndex = searchPerceptionInHaptic(sreader.haptic, sreader.perception.getId());
-    int channelIndex = searchChannelInHaptic(sreader.haptic, sreader.channel.getId());
+    int channelIndex = searchChannelInHaptic(sreader.haptic, perceIndex, sreader.channel.getId());
     if (channelIndex == -1) {
       sreader.haptic.getPerceptionAt(perceIndex).addChannel(sreader.channel);
     } else {
@@ -722,7 +722,7 @@ auto IOStream::readMIHSPacket(std::vector<bool> packet, StreamReader &sreader, C
       return false;
     }
     int perceIndex = searchPerceptionInHaptic(sreader.haptic, sreader.perception.getId());
-    int channelIndex = searchChannelInHaptic(sreader.haptic, sreader.channel.getId());
+    int channelIndex = searchChannelInHaptic(sreader.haptic, perceIndex, sreader.channel.getId());
     int bandIndex = searchBandInHaptic(sreader, sreader.bandStream.id);
     if (bandIndex == -1 ||
         sreader.haptic.getPerceptionAt(perceIndex).getChannelAt(channelIndex).getBandsSize() == 0 ||
@@ -1810,7 +1810,7 @@ auto IOStream::readMetadataBand(StreamReader &sreader, std::vector<bool> &bitstr
   sreader.perception = sreader.haptic.getPerceptionAt(perceIndex);
 
   int channelId = IOBinaryPrimitives::readUInt(bitstream, idx, MDCHANNEL_ID);
-  int channelIndex = searchChannelInHaptic(sreader.haptic, channelId);
+  int channelIndex = searchChannelInHaptic(sreader.haptic, perceIndex, channelId);
   if (channelIndex == -1) {
     return false;
   }
@@ -2221,7 +2221,7 @@ auto IOStream::readData(StreamReader &sreader, std::vector<bool> &bitstream) ->
   sreader.perception = sreader.haptic.getPerceptionAt(perceptionIndex);
 
   int channelId = IOBinaryPrimitives::readUInt(bitstream, idx, MDCHANNEL_ID);
-  auto channelIndex = searchChannelInHaptic(sreader.haptic, channelId);
+  auto channelIndex = searchChannelInHaptic(sreader.haptic, perceptionIndex, channelId);
   if (channelIndex == -1) {
     return false;
   }
@@ -2630,13 +2630,11 @@ auto IOStream::searchPerceptionInHaptic(types::Haptics &haptic, int id) -> int {
   }
   return -1;
 }
-auto IOStream::searchChannelInHaptic(types::Haptics &haptic, int id) -> int {
-  for (auto i = 0; i < static_cast<int>(haptic.getPerceptionsSize()); i++) {
-    types::Perception perception = haptic.getPerceptionAt(i);
-    for (auto j = 0; j < static_cast<int>(perception.getChannelsSize()); j++) {
-      if (id == perception.getChannelAt(j).getId()) {
-        return j;
-      }
+auto IOStream::searchChannelInHaptic(types::Haptics &haptic, int perceptionIndex, int id) -> int {
+  types::Perception &perception = haptic.getPerceptionAt(perceptionIndex);
+  for (auto j = 0; j < static_cast<int>(perception.getChannelsSize()); j++) {
+    if (id == perception.getChannelAt(j).getId()) {
+      return j;
     }
   }
   return -1;
-- 
2.43.0


From 475da35bd128ac7037dffbb00bed09fe6231c554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:15 +0000
Subject: [PATCH 45/69] fix: the stream writer skipped elements after an empty
 one when removing empty elements

---
 source/IOHaptics/src/IOStream.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 9b19940..1f5d718 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -626,14 +626,13 @@ auto IOStream::writeAllBands(StreamWriter &swriter, MIHSPacketType mihsPacketTyp
 }
 
 auto IOStream::checkHapticComponent(types::Haptics &haptic) -> void {
-  for (auto i = 0; i < static_cast<int>(haptic.getPerceptionsSize()); i++) {
+  for (auto i = static_cast<int>(haptic.getPerceptionsSize()) - 1; i >= 0; i--) {
     types::Perception &perception = haptic.getPerceptionAt(i);
-    for (auto j = 0; j < static_cast<int>(perception.getChannelsSize()); j++) {
+    for (auto j = static_cast<int>(perception.getChannelsSize()) - 1; j >= 0; j--) {
       types::Channel &channel = perception.getChannelAt(j);
-      std::vector<types::Band> bands = std::vector<types::Band>();
-      for (auto k = 0; k < static_cast<int>(channel.getBandsSize()); k++) {
+      for (auto k = static_cast<int>(channel.getBandsSize()) - 1; k >= 0; k--) {
         types::Band &band = channel.getBandAt(k);
-        for (auto l = 0; l < static_cast<int>(band.getEffectsSize()); l++) {
+        for (auto l = static_cast<int>(band.getEffectsSize()) - 1; l >= 0; l--) {
           types::Effect &effect = band.getEffectAt(l);
           if (band.getBandType() != types::BandType::WaveletWave &&
               effect.getEffectType() == types::EffectType::Basis &&
-- 
2.43.0


From 34d264aa9f76ebcb08a7fcacb96617fa670d3906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:15 +0000
Subject: [PATCH 46/69] fix: streamed effects were lost or cut when effects of
 a band overlap or start at a packet boundary

---
 source/IOHaptics/src/IOStream.cpp | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 1f5d718..a097c18 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -1975,9 +1975,9 @@ auto IOStream::createWaveletPayload(StreamWriter &swriter,
 }
 auto IOStream::createPayloadPacket(StreamWriter &swriter, std::vector<std::vector<bool>> &bitstream)
     -> bool {
-  // Exit this function only when 1 packet is full or last keyframes of the band is reached
+  // Returns true when nothing of the band is left after this packet
+  bool endBand = true;
   for (auto i = 0; i < static_cast<int>(swriter.bandStream.band.getEffectsSize()); i++) {
-    bool endEffect = false;
     types::Effect &effect = swriter.bandStream.band.getEffectAt(i);
     if (effect.getId() == -1) {
       int nextId = 0;
@@ -1992,11 +1992,8 @@ auto IOStream::createPayloadPacket(StreamWriter &swriter, std::vector<std::vecto
     if (effect.getEffectType() == types::EffectType::Basis) {
       int bufKFCount = 0;
       bool isRAU = true;
-      bool endPacket = false;
-      if (writeEffectBasis(effect, swriter, bufKFCount, isRAU, bufEffect)) {
-        endEffect = true;
-      } else {
-        endPacket = true;
+      if (!writeEffectBasis(effect, swriter, bufKFCount, isRAU, bufEffect)) {
+        endBand = false;
       }
       if (bufKFCount > 0) {
         swriter.keyframesCount.push_back(bufKFCount);
@@ -2004,12 +2001,6 @@ auto IOStream::createPayloadPacket(StreamWriter &swriter, std::vector<std::vecto
         swriter.effects.push_back(effect);
         swriter.auType = isRAU ? AUType::RAU : AUType::DAU;
       }
-      if (endEffect && i == static_cast<int>(swriter.bandStream.band.getEffectsSize()) - 1) {
-        return true;
-      }
-      if (endPacket) {
-        return false;
-      }
     } else if (effect.getEffectType() == types::EffectType::Reference) {
       if (effect.getPosition() >= swriter.time &&
           effect.getPosition() < swriter.time + static_cast<int>(swriter.packetDuration)) {
@@ -2017,15 +2008,12 @@ auto IOStream::createPayloadPacket(StreamWriter &swriter, std::vector<std::vecto
         swriter.effects.push_back(effect);
         swriter.auType = AUType::RAU;
         swriter.keyframesCount.push_back(0);
-      } else if (effect.getPosition() > swriter.time + static_cast<int>(swriter.packetDuration)) {
-        return false;
-      }
-      if (i == static_cast<int>(swriter.bandStream.band.getEffectsSize()) - 1) {
-        return true;
+      } else if (effect.getPosition() >= swriter.time + static_cast<int>(swriter.packetDuration)) {
+        endBand = false;
       }
     }
   }
-  return true;
+  return endBand;
 }
 
 auto IOStream::writeEffectHeader(StreamWriter &swriter) -> std::vector<bool> {
-- 
2.43.0


From 4d0585952a85ff8b4b7ae84c15d45c7e25c57024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:57 +0000
Subject: [PATCH 47/69] fix: wavelet blocks were dropped from streams, or
 streamed forever, unless one packet lasts one block

---
 source/IOHaptics/src/IOStream.cpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index a097c18..a9471ed 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -1958,18 +1958,11 @@ auto IOStream::createWaveletPayload(StreamWriter &swriter,
       !swriter.bandStream.band.getBlockLength().has_value()) {
     return false;
   }
-  int nbWaveBlock = static_cast<int>(swriter.packetDuration) /
-                    static_cast<int>(swriter.bandStream.band.getBlockLength().value());
-  for (auto i = 0; i < static_cast<int>(swriter.bandStream.band.getEffectsSize());
-       i += nbWaveBlock) {
+  for (auto i = 0; i < static_cast<int>(swriter.bandStream.band.getEffectsSize()); i++) {
     std::vector<bool> bufbitstream = std::vector<bool>();
     types::Effect bufEffect = swriter.bandStream.band.getEffectAt(i);
     IOBinaryBands::writeWaveletEffect(bufEffect, bufbitstream);
     bitstream.push_back(bufbitstream);
-    int overflow = static_cast<int>(swriter.bandStream.band.getEffectsSize()) - (i + nbWaveBlock);
-    if (overflow < 0) {
-      nbWaveBlock = static_cast<int>(swriter.bandStream.band.getEffectsSize()) - i;
-    }
   }
   return true;
 }
-- 
2.43.0


From 7f68aa893daa20767f455a280632e253a4932685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:57 +0000
Subject: [PATCH 48/69] fix: streamed wavelet blocks were placed at positions
 that depend on the sampling rate

---
 source/IOHaptics/include/IOStream.h |  2 +-
 source/IOHaptics/src/IOStream.cpp   | 10 ++++------
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index aa395ff..e5c25eb 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -204,7 +204,7 @@ private:
                                         std::vector<bool> &packetBits, StreamWriter &swriter)
       -> std::vector<bool>;
   static auto readWaveletEffect(std::vector<bool> &bitstream, types::Band &band,
-                                types::Effect &effect, int &length, unsigned int timescale) -> bool;
+                                types::Effect &effect, int &length) -> bool;
   static auto writeEffectHeader(StreamWriter &swriter) -> std::vector<bool>;
   static auto writeEffectBasis(types::Effect effect, StreamWriter &swriter, int &kfCount, bool &rau,
                                std::vector<bool> &bitstream) -> bool;
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index a9471ed..b24b16b 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2226,8 +2226,7 @@ auto IOStream::readData(StreamReader &sreader, std::vector<bool> &bitstream) ->
       addTimestampEffect(effects, static_cast<int>(sreader.time));
     } else {
       types::Effect effect;
-      IOStream::readWaveletEffect(effectsBitsList, sreader.bandStream.band, effect, idx,
-                                  sreader.timescale);
+      IOStream::readWaveletEffect(effectsBitsList, sreader.bandStream.band, effect, idx);
       effects.push_back(effect);
     }
     return addEffectToHaptic(sreader.haptic, perceptionIndex, channelIndex,
@@ -2370,8 +2369,7 @@ auto IOStream::computeCRC(std::vector<bool> &bitstream, std::vector<bool> &polyn
 }
 
 auto IOStream::readWaveletEffect(std::vector<bool> &bitstream, types::Band &band,
-                                 types::Effect &effect, int &length, const unsigned int timescale)
-    -> bool {
+                                 types::Effect &effect, int &length) -> bool {
   int idx = 0;
   int id = IOBinaryPrimitives::readUInt(bitstream, idx, EFFECT_ID);
   effect.setId(id);
@@ -2389,8 +2387,8 @@ auto IOStream::readWaveletEffect(std::vector<bool> &bitstream, types::Band &band
     effect.setSemantic(semantic);
   }
 
-  int effectPos = static_cast<int>(timescale) * band.getBlockLength().value() *
-                  static_cast<int>(band.getEffectsSize()) / band.getUpperFrequencyLimit();
+  int effectPos =
+      band.getBlockLengthOrDefault() * static_cast<int>(band.getEffectsSize());
   effect.setPosition(effectPos);
 
   IOBinaryBands::readWaveletEffect(effect, bitstream, idx);
-- 
2.43.0


From 44d91d46fe399eb10b19bf11e555c27b9018c6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:36 +0000
Subject: [PATCH 49/69] fix: stream time drifted when packets of different
 bands are not on one grid

---
 source/IOHaptics/src/IOStream.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index b24b16b..4173efa 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -171,7 +171,10 @@ auto IOStream::writeUnits(types::Haptics &haptic, std::vector<std::vector<bool>>
         bufUnit.push_back(packet);
       } else {
         std::vector<bool> temporalUnit = std::vector<bool>();
+        // the unit lasts until the next packet at most
+        swriter.packetDuration = std::min(packetDuration, packetTS - tLast);
         writeMIHSUnit(MIHSUnitType::Temporal, bufUnit, temporalUnit, swriter);
+        swriter.packetDuration = packetDuration;
         bitstream.push_back(temporalUnit);
         if (syncIdx != -1 && swriter.time == nextSync.getTimestamp()) {
           std::vector<bool> syncUnit = std::vector<bool>();
@@ -442,9 +445,6 @@ auto IOStream::writeMIHSUnitSilent(std::vector<std::vector<bool>> &listPackets,
     int end =
         readPacketTS(std::vector<bool>(listPackets[1].begin() + H_NBITS, listPackets[1].end()));
     int duration = end - start;
-    if (duration % swriter.packetDuration != 0) {
-      duration = duration - (duration % static_cast<int>(swriter.packetDuration));
-    }
     std::bitset<UNIT_DURATION> durationBits(duration);
     std::string durationStr = durationBits.to_string();
     IOBinaryPrimitives::writeStrBits(durationStr, mihsunit);
-- 
2.43.0


From 9d1738866795a0a3330d1706825feafbfa25cdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:43 +0000
Subject: [PATCH 50/69] fix: metadata of a repeated initialization unit
 duplicated avatars and added a semantic scheme

---
 source/IOHaptics/src/IOStream.cpp | 1 +
 source/Types/include/Haptics.h    | 1 +
 source/Types/include/Perception.h | 2 +-
 source/Types/src/Haptics.cpp      | 5 +++--
 source/Types/src/Perception.cpp   | 5 +++--
 5 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 4173efa..095653a 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -940,6 +940,7 @@ auto IOStream::readMetadataHaptics(types::Haptics &haptic, std::vector<bool> &bi
   if (!readListObject(avaratListBits, avatarCount, avatarList)) {
     return false;
   }
+  haptic.clearAvatars();
   for (auto avatar : avatarList) {
     haptic.addAvatar(avatar);
   }
diff --git a/source/Types/include/Haptics.h b/source/Types/include/Haptics.h
index 0b27d7c..74ac615 100644
--- a/source/Types/include/Haptics.h
+++ b/source/Types/include/Haptics.h
@@ -78,6 +78,7 @@ public:
   [[nodiscard]] auto getAvatarsSize() -> size_t;
   [[nodiscard]] auto getAvatarAt(int index) -> Avatar &;
   auto addAvatar(Avatar &newAvatar) -> void;
+  auto clearAvatars() -> void;
   [[nodiscard]] auto getTimescaleOrDefault() const -> unsigned int;
   [[nodiscard]] auto getTimescale() const -> std::optional<unsigned int>;
   auto setTimescale(std::optional<unsigned int> newTimescale) -> void;
diff --git a/source/Types/include/Perception.h b/source/Types/include/Perception.h
index 884624c..37a2e16 100644
--- a/source/Types/include/Perception.h
+++ b/source/Types/include/Perception.h
@@ -111,7 +111,7 @@ public:
   auto setAvatarId(int newAvatarId) -> void;
   [[nodiscard]] auto getEffectSemanticSchemeOrDefault() const -> std::string;
   [[nodiscard]] auto getEffectSemanticScheme() const -> std::optional<std::string>;
-  auto setEffectSemanticScheme(std::string &newEffectSemantic) -> void;
+  auto setEffectSemanticScheme(std::optional<std::string> newEffectSemantic) -> void;
   [[nodiscard]] auto getId() const -> int;
   auto setId(int newId) -> void;
   [[nodiscard]] auto getDescription() const -> std::string;
diff --git a/source/Types/src/Haptics.cpp b/source/Types/src/Haptics.cpp
index 64d1ab0..5a6b63a 100644
--- a/source/Types/src/Haptics.cpp
+++ b/source/Types/src/Haptics.cpp
@@ -82,8 +82,7 @@ auto Haptics::replacePerceptionMetadataAt(int index, Perception &newPerception)
   perceptions[index].setPerceptionModality(newPerception.getPerceptionModality());
   perceptions[index].setUnitExponent(newPerception.getUnitExponentOrDefault());
   perceptions[index].setPerceptionUnitExponent(newPerception.getPerceptionUnitExponentOrDefault());
-  auto semantic = newPerception.getEffectSemanticSchemeOrDefault();
-  perceptions[index].setEffectSemanticScheme(semantic);
+  perceptions[index].setEffectSemanticScheme(newPerception.getEffectSemanticScheme());
   perceptions[index].clearReferenceDevices();
   for (auto i = 0; i < static_cast<int>(newPerception.getReferenceDevicesSize()); i++) {
     perceptions[index].addReferenceDevice(newPerception.getReferenceDeviceAt(i));
@@ -114,6 +113,8 @@ auto Haptics::addPerception(Perception &newPerception) -> void {
 
 auto Haptics::addAvatar(Avatar &newAvatar) -> void { avatars.push_back(newAvatar); }
 
+auto Haptics::clearAvatars() -> void { avatars.clear(); }
+
 [[nodiscard]] auto Haptics::getTimescaleOrDefault() const -> unsigned int {
   return this->getTimescale().value_or(Haptics::DEFAULT_TIMESCALE);
 }
diff --git a/source/Types/src/Perception.cpp b/source/Types/src/Perception.cpp
index 8daa23d..ba860a1 100644
--- a/source/Types/src/Perception.cpp
+++ b/source/Types/src/Perception.cpp
@@ -53,8 +53,9 @@ auto Perception::setAvatarId(int newAvatarId) -> void { avatarId = newAvatarId;
 [[nodiscard]] auto Perception::getEffectSemanticScheme() const -> std::optional<std::string> {
   return effectSemanticScheme;
 }
-auto Perception::setEffectSemanticScheme(std::string &newEffectSemantic) -> void {
-  effectSemanticScheme = newEffectSemantic;
+auto Perception::setEffectSemanticScheme(std::optional<std::string> newEffectSemantic)
+    -> void {
+  effectSemanticScheme = std::move(newEffectSemantic);
 }
 
 [[nodiscard]] auto Perception::getDescription() const -> std::string { return description; }
-- 
2.43.0


From cfe097401ddf8bb9742dc507f363abb7be3227bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:43 +0000
Subject: [PATCH 51/69] fix: the sample count of a streamed channel was lost
 for large sampling frequencies

---
 source/IOHaptics/src/IOStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 095653a..2b6bc31 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -1619,7 +1619,7 @@ auto IOStream::writeMetadataChannel(StreamWriter &swriter, std::vector<bool> &bi
     }
   }
 
-  int freqSampling = static_cast<int>(swriter.channel.getFrequencySampling().value_or(0));
+  uint32_t freqSampling = swriter.channel.getFrequencySampling().value_or(0);
   std::bitset<MDCHANNEL_FREQ_SAMPLING> maxFreqBits(freqSampling);
   valueStr = maxFreqBits.to_string();
   IOBinaryPrimitives::writeStrBits(valueStr, bitstream);
-- 
2.43.0


From c459aca72ee6ab405fe4946e9796f50ac7bfe389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:22 +0000
Subject: [PATCH 52/69] fix: the length of spatial stream units was computed
 from a misaligned packet length

---
 source/IOHaptics/src/IOStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 2b6bc31..8fe94d4 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -778,7 +778,7 @@ auto IOStream::readMIHSPacketType(std::vector<bool> &packet) -> MIHSPacketType {
   return static_cast<MIHSPacketType>(typeInt);
 }
 auto IOStream::readPacketLength(std::vector<bool> &bitstream) -> int {
-  int beginIdx = haptics::io::H_NBITS - haptics::io::H_PAYLOAD_LENGTH;
+  int beginIdx = haptics::io::H_MIHS_PACKET_TYPE;
   std::vector<bool> packetLength = std::vector<bool>(
       bitstream.begin() + beginIdx, bitstream.begin() + beginIdx + haptics::io::H_PAYLOAD_LENGTH);
   std::string packetLengthStr;
-- 
2.43.0


From d50af9ea12e00aa35d595c62b3c63b581ca9b447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:44 +0000
Subject: [PATCH 53/69] fix: streamed keyframes were added to a reference
 effect with the same id

---
 source/IOHaptics/src/IOStream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 8fe94d4..4f0850b 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2707,7 +2707,8 @@ auto IOStream::addEffectToHaptic(types::Haptics &haptic, int perceptionIndex, in
                                           .getBandAt(bandIndex)
                                           .getEffectAt(i);
 
-        if (effect.getId() == hapticEffect.getId()) {
+        if (hapticEffect.getEffectType() == types::EffectType::Basis &&
+            effect.getId() == hapticEffect.getId()) {
           for (size_t j = 0; j < effect.getKeyframesSize(); j++) {
             hapticEffect.addKeyframe(effect.getKeyframeAt(static_cast<int>(j)));
           }
-- 
2.43.0


From dbe501cbcfca9f71b11e2dcb2eaf366ff9d423c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:44 +0000
Subject: [PATCH 54/69] fix: streamed wavelet blocks all got the semantic of
 the first one

---
 source/IOHaptics/include/IOStream.h |  4 ++--
 source/IOHaptics/src/IOStream.cpp   | 16 +++++++++-------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index e5c25eb..810d7a4 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -201,8 +201,8 @@ private:
                                  std::vector<std::vector<bool>> bufPacketBitstream,
                                  std::vector<bool> &packetBits) -> std::vector<bool>;
   static auto writeWaveletPayloadPacket(std::vector<bool> bufPacketBitstream,
-                                        std::vector<bool> &packetBits, StreamWriter &swriter)
-      -> std::vector<bool>;
+                                        std::vector<bool> &packetBits, StreamWriter &swriter,
+                                        types::Effect &effect) -> std::vector<bool>;
   static auto readWaveletEffect(std::vector<bool> &bitstream, types::Band &band,
                                 types::Effect &effect, int &length) -> bool;
   static auto writeEffectHeader(StreamWriter &swriter) -> std::vector<bool>;
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 4f0850b..e888536 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -1923,10 +1923,12 @@ auto IOStream::packetizeBand(StreamWriter &swriter, std::vector<std::vector<bool
   swriter.time = 0;
   if (swriter.bandStream.band.getBandType() == types::BandType::WaveletWave) {
     createWaveletPayload(swriter, bufPacketBitstream);
-    for (auto &bufpacket : bufPacketBitstream) {
+    for (size_t i = 0; i < bufPacketBitstream.size(); i++) {
       swriter.auType = AUType::RAU;
       packetBits = writeEffectHeader(swriter);
-      packetBits = writeWaveletPayloadPacket(bufpacket, packetBits, swriter);
+      packetBits = writeWaveletPayloadPacket(
+          bufPacketBitstream[i], packetBits, swriter,
+          swriter.bandStream.band.getEffectAt(static_cast<int>(i)));
       bitstreams.push_back(packetBits);
       swriter.time += static_cast<int>(swriter.bandStream.band.getBlockLengthOrDefault());
     }
@@ -2034,8 +2036,8 @@ auto IOStream::writeEffectHeader(StreamWriter &swriter) -> std::vector<bool> {
 }
 
 auto IOStream::writeWaveletPayloadPacket(std::vector<bool> bufPacketBitstream,
-                                         std::vector<bool> &packetBits, StreamWriter &swriter)
-    -> std::vector<bool> {
+                                         std::vector<bool> &packetBits, StreamWriter &swriter,
+                                         types::Effect &effect) -> std::vector<bool> {
   std::bitset<DB_EFFECT_COUNT> fxCountBits(1);
   std::string fxCountStr = fxCountBits.to_string();
   IOBinaryPrimitives::writeStrBits(fxCountStr, packetBits);
@@ -2049,13 +2051,13 @@ auto IOStream::writeWaveletPayloadPacket(std::vector<bool> bufPacketBitstream,
   std::string effectTypeStr = effectTypeBits.to_string();
   IOBinaryPrimitives::writeStrBits(effectTypeStr, packetBits);
 
-  if (swriter.bandStream.band.getEffectAt(0).getSemantic().has_value()) {
+  if (effect.getSemantic().has_value()) {
     std::bitset<EFFECT_FLAG_SEMANTIC> flagSemanticBits(1);
     std::string flagSemanticStr = flagSemanticBits.to_string();
     IOBinaryPrimitives::writeStrBits(flagSemanticStr, packetBits);
 
-    types::EffectSemantic semantic = types::stringToEffectSemantic.at(
-        swriter.bandStream.band.getEffectAt(0).getSemantic().value());
+    types::EffectSemantic semantic =
+        types::stringToEffectSemantic.at(effect.getSemantic().value());
     std::bitset<EFFECT_SEMANTIC_LAYER_1 + EFFECT_SEMANTIC_LAYER_2> semanticBits(
         static_cast<int>(semantic));
     std::string semanticStr = semanticBits.to_string();
-- 
2.43.0


From 9e8a062c8d11a04b56289348af139d0a5cf77e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:44 +0000
Subject: [PATCH 55/69] fix: data of spatial perceptions was streamed
 repeatedly and in a format the reader does not know

---
 source/IOHaptics/src/IOStream.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index e888536..8b546e3 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -35,6 +35,7 @@
 #include <IOHaptics/include/IOBinaryFields.h>
 #include <IOHaptics/include/IOBinaryPrimitives.h>
 #include <IOHaptics/include/IOStream.h>
+#include <limits>
 
 namespace haptics::io {
 
@@ -2132,15 +2133,19 @@ auto IOStream::writePayloadPacket(StreamWriter &swriter,
 
 auto IOStream::writeSpatialData(StreamWriter &swriter, std::vector<std::vector<bool>> &bitstream)
     -> bool {
-  swriter.auType = AUType::RAU;
+  // a single packet covers the whole band
+  unsigned int packetDuration = swriter.packetDuration;
+  swriter.packetDuration = std::numeric_limits<int>::max();
   swriter.time = 0;
+  swriter.effects.clear();
+  swriter.keyframesCount.clear();
+  std::vector<std::vector<bool>> effectsBitstream;
+  createPayloadPacket(swriter, effectsBitstream);
+  swriter.packetDuration = packetDuration;
+  swriter.auType = AUType::RAU;
 
   std::vector<bool> bandBitstream = writeEffectHeader(swriter);
-  std::bitset<DB_EFFECT_COUNT> fxCountBits(swriter.bandStream.band.getEffectsSize());
-  std::string fxCountStr = fxCountBits.to_string();
-  IOBinaryPrimitives::writeStrBits(fxCountStr, bandBitstream);
-
-  IOBinaryBands::writeBandBody(swriter.bandStream.band, bandBitstream);
+  bandBitstream = writePayloadPacket(swriter, effectsBitstream, bandBitstream);
   bitstream.push_back(bandBitstream);
 
   return true;
@@ -2168,15 +2173,14 @@ auto IOStream::writeData(StreamWriter &swriter, std::vector<std::vector<bool>> &
         bandStream.id = bandId++;
         bandStream.band = swriter.channel.getBandAt(k);
         swriter.bandStream = bandStream;
-        if (spatial) {
+        linearizeTimeline(swriter.bandStream.band);
+        if (spatial && swriter.bandStream.band.getBandType() != types::BandType::WaveletWave) {
           writeSpatialData(swriter, bandBitstream);
-          expBitstream.push_back(bandBitstream);
         } else {
-          linearizeTimeline(swriter.bandStream.band);
           packetizeBand(swriter, bandBitstream);
-          expBitstream.push_back(bandBitstream);
-          bandBitstream.clear();
         }
+        expBitstream.push_back(bandBitstream);
+        bandBitstream.clear();
       }
     }
   }
-- 
2.43.0


From c6ba724998ad7795b8708f681a522b87117c0bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:04 +0000
Subject: [PATCH 56/69] fix: effects with different semantics or wavelet data
 are not equivalent

---
 source/Types/src/Effect.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index 9b8dcb4..f83ef0d 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -163,7 +163,8 @@ auto Effect::addKeyframe(std::optional<int> position, std::optional<double> ampl
 
 auto Effect::isEquivalent(Effect &effect) -> bool {
   if (effectType != EffectType::Basis || effect.effectType != EffectType::Basis ||
-      phase != effect.getPhase() || baseSignal != effect.getBaseSignal()) {
+      phase != effect.getPhase() || baseSignal != effect.getBaseSignal() ||
+      semantic != effect.getSemantic() || waveletBitstream != effect.getWaveletBitstream()) {
     return false;
   }
 
-- 
2.43.0


From 41aba3b1fa14a38ac3a9c4fc870bfc626952692d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:04 +0000
Subject: [PATCH 57/69] fix: a library effect made from repeated effects could
 get the id of an existing one

---
 source/Types/src/Perception.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/Types/src/Perception.cpp b/source/Types/src/Perception.cpp
index ba860a1..fcc75a0 100644
--- a/source/Types/src/Perception.cpp
+++ b/source/Types/src/Perception.cpp
@@ -342,6 +342,9 @@ auto Perception::refactorEffects() -> void {
         if (sameEffects.size() > 1) {
           Effect basisEffect(refEffect);
           auto newId = static_cast<int>(getEffectLibrarySize());
+          while (getEffectById(newId).has_value()) {
+            newId++;
+          }
           basisEffect.setId(newId);
           basisEffect.setPosition(0);
           for (const auto &t : sameEffects) {
-- 
2.43.0


From aee1aca163950c0ff91a9b8ce6d1d6da56e8fcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:04 +0000
Subject: [PATCH 58/69] fix: references inside composite effects were not
 resolved when expanding the library

---
 source/Types/include/Perception.h |  1 +
 source/Types/src/Perception.cpp   | 35 ++++++++++++++++++++++++-------
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/source/Types/include/Perception.h b/source/Types/include/Perception.h
index 37a2e16..61c96f1 100644
--- a/source/Types/include/Perception.h
+++ b/source/Types/include/Perception.h
@@ -158,6 +158,7 @@ public:
   auto getEffectById(int id) -> std::optional<Effect>;
 
 private:
+  auto resolveReferences(Effect &effect, std::vector<int> &openIds) -> bool;
   static constexpr int8_t DEFAULT_UNIT_EXPONENT = -3;
   static constexpr int8_t DEFAULT_PERCEPTION_UNIT_EXPONENT = 0;
   inline static const std::string DEFAULT_SEMANTIC_SCHEME =
diff --git a/source/Types/src/Perception.cpp b/source/Types/src/Perception.cpp
index fcc75a0..9b221f5 100644
--- a/source/Types/src/Perception.cpp
+++ b/source/Types/src/Perception.cpp
@@ -32,6 +32,7 @@
  */
 
 #include <Types/include/Perception.h>
+#include <algorithm>
 
 namespace haptics::types {
 
@@ -302,6 +303,29 @@ auto Perception::getEffectById(int id) -> std::optional<Effect> {
   return {};
 }
 
+auto Perception::resolveReferences(Effect &effect, std::vector<int> &openIds) -> bool {
+  // openIds are the library effects being expanded: a library effect cannot contain itself
+  if (effect.getEffectType() == EffectType::Reference) {
+    auto id = effect.getId();
+    auto refEffect = getEffectById(id);
+    if (!refEffect.has_value() || std::find(openIds.begin(), openIds.end(), id) != openIds.end()) {
+      return false;
+    }
+    refEffect.value().setPosition(effect.getPosition());
+    refEffect.value().setId(-1);
+    effect = refEffect.value();
+    openIds.push_back(id);
+    resolveReferences(effect, openIds);
+    openIds.pop_back();
+    return true;
+  }
+  bool changed = false;
+  for (int i = 0; i < static_cast<int>(effect.getTimelineSize()); i++) {
+    changed |= resolveReferences(effect.getTimelineEffectAt(i), openIds);
+  }
+  return changed;
+}
+
 auto Perception::linearizeLibrary() -> void {
   for (int i = 0; i < static_cast<int>(getChannelsSize()); i++) {
     auto channel = getChannelAt(i);
@@ -311,14 +335,9 @@ auto Perception::linearizeLibrary() -> void {
       auto numEffects = static_cast<int>(band.getEffectsSize());
       for (int k = 0; k < numEffects; k++) {
         auto effect = band.getEffectAt(k);
-        if (effect.getEffectType() == EffectType::Reference) {
-          auto refEffect = getEffectById(effect.getId());
-          if (refEffect.has_value()) {
-            Effect basisEffect(refEffect.value());
-            basisEffect.setPosition(effect.getPosition());
-            basisEffect.setId(-1);
-            getChannelAt(i).getBandAt(j).replaceEffectAt(k, basisEffect);
-          }
+        std::vector<int> openIds;
+        if (resolveReferences(effect, openIds)) {
+          getChannelAt(i).getBandAt(j).replaceEffectAt(k, effect);
         }
       }
     }
-- 
2.43.0


From e10c6515b43dad14c9d8cd96b515f2fe3918ce40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:59 +0000
Subject: [PATCH 59/69] fix: perceptions with a semantic scheme were always
 rejected

---
 source/IOHaptics/src/IOJson.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index f0be1c1..9a17383 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -279,9 +279,8 @@ auto IOJson::semanticConformanceCheckPerception(types::Perception &perception,
   }
 
   // Check the URN
-  // TODO
   auto semanticSchemeURN = perception.getEffectSemanticScheme();
-  if (semanticSchemeURN) {
+  if (semanticSchemeURN.has_value() && semanticSchemeURN.value().rfind("urn:", 0) != 0) {
     std::cerr << "The semantic scheme URN of perception " << id << " is invalid." << std::endl;
     conformant = false;
   }
-- 
2.43.0


From 774fe52b0598376b6f8c58891d8865f56abebf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:59 +0000
Subject: [PATCH 60/69] fix: the smallest integer was accepted as a power of
 two

---
 source/Tools/src/Tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Tools/src/Tools.cpp b/source/Tools/src/Tools.cpp
index dec78df..6095aed 100644
--- a/source/Tools/src/Tools.cpp
+++ b/source/Tools/src/Tools.cpp
@@ -464,6 +464,6 @@ static auto withoutCoincidentPoints(const std::vector<std::pair<int, double>> &p
   return !s.empty() && it == s.end();
 }
 
-[[nodiscard]] auto isPowerOfTwo(const int n) -> bool { return (n != 0) && ((n & (n - 1)) == 0); }
+[[nodiscard]] auto isPowerOfTwo(const int n) -> bool { return (n > 0) && ((n & (n - 1)) == 0); }
 
 } // namespace haptics::tools
-- 
2.43.0


From 4c87826b905478692dbbe1b57e88a7177004b7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:59 +0000
Subject: [PATCH 61/69] fix: wavelet block lengths and positions of binary
 files overflowed

---
 source/IOHaptics/src/IOBinaryBands.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index f87e591..6dbfb59 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -39,6 +39,9 @@
 
 namespace haptics::io {
 
+// blocks of at most 2^30 samples
+constexpr int MAX_BLOCK_LENGTH_CODE = 26;
+
 auto IOBinaryBands::readBandHeader(types::Band &band, std::istream &file,
                                    std::vector<bool> &unusedBits, const unsigned int timescale)
     -> bool {
@@ -51,6 +54,9 @@ auto IOBinaryBands::readBandHeader(types::Band &band, std::istream &file,
   } else if (band.getBandType() == types::BandType::WaveletWave) {
     auto blockLength_code =
         IOBinaryPrimitives::readNBits<uint8_t, MDBAND_BLK_LEN>(file, unusedBits);
+    if (blockLength_code > MAX_BLOCK_LENGTH_CODE) {
+      return false;
+    }
     blockLength_samp = static_cast<int>(pow(2, blockLength_code + 4));
   }
 
@@ -121,7 +127,8 @@ auto IOBinaryBands::readBandBody(types::Band &band, std::istream &file,
     int position = 0;
     if ((myEffect.getEffectType() == types::EffectType::Basis &&
          band.getBandType() == types::BandType::WaveletWave)) {
-      position = effectIndex * band.getBlockLengthOrDefault();
+      position = static_cast<int>(static_cast<int64_t>(effectIndex) *
+                                  static_cast<int64_t>(band.getBlockLengthOrDefault()));
     } else {
       position = static_cast<int>(
           IOBinaryPrimitives::readNBits<uint32_t, EFFECT_POSITION>(file, unusedBits));
-- 
2.43.0


From 44b3f6e14533be0b0fd090ca2b9ff6819909cccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:18 +0000
Subject: [PATCH 62/69] fix: stream packets that end early were read past their
 end and accepted

---
 source/IOHaptics/include/IOBinaryPrimitives.h |  27 +++-
 source/IOHaptics/src/IOBinaryBands.cpp        |   5 +-
 source/IOHaptics/src/IOStream.cpp             | 138 +++++++++++++-----
 3 files changed, 128 insertions(+), 42 deletions(-)

diff --git a/source/IOHaptics/include/IOBinaryPrimitives.h b/source/IOHaptics/include/IOBinaryPrimitives.h
index 6f94023..b5063c2 100644
--- a/source/IOHaptics/include/IOBinaryPrimitives.h
+++ b/source/IOHaptics/include/IOBinaryPrimitives.h
@@ -138,12 +138,29 @@ public:
     }
   }
 
+  // bits past the end of a bitstream read as 0
+  static auto bitAt(const std::vector<bool> &bitstream, int index) -> bool {
+    return index >= 0 && index < static_cast<int>(bitstream.size()) && bitstream[index];
+  }
+
+  // false when more bits were read than the bitstream holds
+  static auto isComplete(const std::vector<bool> &bitstream, int index) -> bool {
+    return index >= 0 && index <= static_cast<int>(bitstream.size());
+  }
+
+  static auto remainingBits(const std::vector<bool> &bitstream, int index) -> std::vector<bool> {
+    if (!isComplete(bitstream, index)) {
+      return {};
+    }
+    return std::vector<bool>(bitstream.begin() + index, bitstream.end());
+  }
+
   template <size_t length>
   static auto readFloatNBits(std::vector<bool> &bitstream, int &startIdx, float minValue,
                              float maxValue) -> float {
     std::string str;
     for (auto i = startIdx; i < static_cast<int>(startIdx + length); i++) {
-      if (bitstream[i]) {
+      if (bitAt(bitstream, i)) {
         str += "1";
       } else {
         str += "0";
@@ -167,7 +184,7 @@ public:
   static auto readUInt(std::vector<bool> bitstream, int &startIdx, int length) -> int {
     std::string tsBits;
     for (int i = startIdx; i < startIdx + length; i++) {
-      if ((bitstream[i])) {
+      if (bitAt(bitstream, i)) {
         tsBits += "1";
       } else {
         tsBits += "0";
@@ -183,7 +200,7 @@ public:
     if (bitstream.empty()) {
       return EXIT_FAILURE;
     }
-    if (bitstream[startIdx]) {
+    if (bitAt(bitstream, startIdx)) {
       bitstream.flip();
       return -(readUInt(bitstream, startIdx, length) + 1);
     }
@@ -194,8 +211,8 @@ public:
     std::string res;
     for (int i = startIdx; i < startIdx + (BYTE_SIZE * length); i += BYTE_SIZE) {
       std::string bitsStr;
-      for (auto b : std::vector<bool>(bitstream.begin() + i, bitstream.begin() + i + BYTE_SIZE)) {
-        if (b) {
+      for (int j = i; j < i + BYTE_SIZE; j++) {
+        if (bitAt(bitstream, j)) {
           bitsStr += "1";
         } else {
           bitsStr += "0";
diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index 6dbfb59..a0f0eda 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -386,9 +386,12 @@ auto IOBinaryBands::readWaveletEffect(types::Effect &effect, std::vector<bool> &
   outstream.resize(size);
   for (auto &b : outstream) {
     b = static_cast<unsigned char>(IOBinaryPrimitives::readUInt(bitstream, idx, BYTE_SIZE));
+    if (!IOBinaryPrimitives::isComplete(bitstream, idx)) {
+      return false;
+    }
   }
   effect.setWaveletBitstream(outstream);
-  return true;
+  return IOBinaryPrimitives::isComplete(bitstream, idx);
 }
 
 auto IOBinaryBands::writeWaveletEffect(types::Effect &effect, std::vector<bool> &output) -> bool {
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 8b546e3..c878ea4 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -110,11 +110,17 @@ auto IOStream::loadFile(const std::string &filePath, std::vector<std::vector<boo
     // read packet header
     int unitNBits =
         UNIT_TYPE + UNIT_SYNC + UNIT_LAYER + UNIT_DURATION + UNIT_LENGTH + UNIT_RESERVED;
+    if (length - byteCount < static_cast<unsigned int>(unitNBits / BYTE_SIZE)) {
+      return false;
+    }
     IOBinaryPrimitives::readNBytes(file, static_cast<int>(unitNBits / BYTE_SIZE), bufPacket);
     byteCount += static_cast<int>(unitNBits / BYTE_SIZE);
     // read packet payload length
     int lengthIdx = unitNBits - (UNIT_LENGTH + UNIT_RESERVED);
     int bytesToRead = IOBinaryPrimitives::readUInt(bufPacket, lengthIdx, UNIT_LENGTH);
+    if (bytesToRead < 0 || static_cast<unsigned int>(bytesToRead) > length - byteCount) {
+      return false;
+    }
 
     // int bytesToRead = readPacketLength(bufPacket);
     //  read paylaod
@@ -257,17 +263,22 @@ auto IOStream::readMIHSUnit(std::vector<bool> &mihsunit, StreamReader &sreader,
   sreader.layer = IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_LAYER);
 
   sreader.packetDuration = IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_DURATION);
-  int unitLength = IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_LENGTH) * BYTE_SIZE;
+  auto unitLength = static_cast<uint32_t>(
+      IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_LENGTH));
   index += UNIT_RESERVED;
-  unitLength += index;
+  if (!IOBinaryPrimitives::isComplete(mihsunit, index) ||
+      unitLength > (mihsunit.size() - index) / BYTE_SIZE) {
+    return false;
+  }
+  int unitEnd = index + static_cast<int>(unitLength) * BYTE_SIZE;
 
-  std::vector<bool> packets = std::vector<bool>(mihsunit.begin() + index, mihsunit.end());
-  while (index < unitLength) {
+  std::vector<bool> packets(mihsunit.begin() + index, mihsunit.begin() + unitEnd);
+  while (index < unitEnd) {
     if (!readMIHSPacket(packets, sreader, crc)) {
       return false;
     }
     index += static_cast<int>(sreader.packetLength) + H_NBITS;
-    packets = std::vector<bool>(mihsunit.begin() + index, mihsunit.end());
+    packets = std::vector<bool>(mihsunit.begin() + index, mihsunit.begin() + unitEnd);
   }
   sreader.time += sreader.packetDuration;
   return true;
@@ -678,10 +689,16 @@ auto IOStream::readMIHSPacket(std::vector<bool> packet, StreamReader &sreader, C
   int index = H_MIHS_PACKET_TYPE;
   sreader.packetLength = IOBinaryPrimitives::readUInt(packet, index, H_PAYLOAD_LENGTH) * BYTE_SIZE;
   index += H_RESERVED;
-  std::vector<bool> payload = std::vector<bool>(packet.begin() + index, packet.end());
+  if (!IOBinaryPrimitives::isComplete(packet, index + static_cast<int>(sreader.packetLength))) {
+    return false;
+  }
+  std::vector<bool> payload(packet.begin() + index,
+                            packet.begin() + index + static_cast<int>(sreader.packetLength));
   switch (mihsPacketType) {
   case (MIHSPacketType::Timing): {
-    readTiming(sreader, payload);
+    if (!readTiming(sreader, payload) || sreader.timescale == 0) {
+      return false;
+    }
     sreader.time = (sreader.time * TIME_TO_MS) / sreader.timescale;
     return true;
   }
@@ -727,7 +744,7 @@ auto IOStream::readMIHSPacket(std::vector<bool> packet, StreamReader &sreader, C
     if (bandIndex == -1 ||
         sreader.haptic.getPerceptionAt(perceIndex).getChannelAt(channelIndex).getBandsSize() == 0 ||
         static_cast<int>(
-            sreader.haptic.getPerceptionAt(perceIndex).getChannelAt(channelIndex).getBandsSize()) <
+            sreader.haptic.getPerceptionAt(perceIndex).getChannelAt(channelIndex).getBandsSize()) <=
             bandIndex) {
       sreader.haptic.getPerceptionAt(perceIndex)
           .getChannelAt(channelIndex)
@@ -804,6 +821,9 @@ auto IOStream::writeTiming(StreamWriter &swriter, std::vector<bool> &bitstream)
 auto IOStream::readTiming(StreamReader &sreader, std::vector<bool> &bitstream) -> bool {
   int index = 0;
   int timestamp = IOBinaryPrimitives::readUInt(bitstream, index, TIMING_TIME);
+  if (!IOBinaryPrimitives::isComplete(bitstream, index)) {
+    return false;
+  }
 
   auto sync = types::Sync(timestamp);
   sreader.time = timestamp;
@@ -846,6 +866,9 @@ auto IOStream::readInitializationTiming(StreamReader &sreader, std::vector<bool>
   int durationDeviation =
       IOBinaryPrimitives::readUInt(bitstream, index, INITTIMING_DURATIONDEVIATION);
   bool overlapping = IOBinaryPrimitives::readUInt(bitstream, index, INITTIMING_OVERLAPPING) == 1;
+  if (!IOBinaryPrimitives::isComplete(bitstream, index)) {
+    return false;
+  }
   types::Sync sync = types::Sync(timestamp, timescale);
   sreader.haptic.addSync(sync);
   sreader.nominalDuration = nominalDuration;
@@ -937,8 +960,9 @@ auto IOStream::readMetadataHaptics(types::Haptics &haptic, std::vector<bool> &bi
 
   int avatarCount = IOBinaryPrimitives::readUInt(bitstream, index, MDEXP_AVATAR_COUNT);
   std::vector<types::Avatar> avatarList = std::vector<types::Avatar>();
-  std::vector<bool> avaratListBits(bitstream.begin() + index, bitstream.end());
-  if (!readListObject(avaratListBits, avatarCount, avatarList)) {
+  std::vector<bool> avaratListBits = IOBinaryPrimitives::remainingBits(bitstream, index);
+  if (!IOBinaryPrimitives::isComplete(bitstream, index) ||
+      !readListObject(avaratListBits, avatarCount, avatarList)) {
     return false;
   }
   haptic.clearAvatars();
@@ -990,7 +1014,7 @@ auto IOStream::readAvatar(std::vector<bool> &bitstream, types::Avatar &avatar, i
     avatar.setMesh(mesh);
   }
   length += idx;
-  return true;
+  return IOBinaryPrimitives::isComplete(bitstream, idx);
 }
 
 auto IOStream::writeMetadataPerception(StreamWriter &swriter, std::vector<bool> &bitstream)
@@ -1110,8 +1134,9 @@ auto IOStream::readMetadataPerception(StreamReader &sreader, std::vector<bool> &
 
   int refDevCount = IOBinaryPrimitives::readUInt(bitstream, idx, MDPERCE_REFDEVICE_COUNT);
   std::vector<types::ReferenceDevice> referenceDeviceList = std::vector<types::ReferenceDevice>();
-  std::vector<bool> refDeviceListBits(bitstream.begin() + idx, bitstream.end());
-  if (!readListObject(refDeviceListBits, refDevCount, referenceDeviceList, idx)) {
+  std::vector<bool> refDeviceListBits = IOBinaryPrimitives::remainingBits(bitstream, idx);
+  if (!IOBinaryPrimitives::isComplete(bitstream, idx) ||
+      !readListObject(refDeviceListBits, refDevCount, referenceDeviceList, idx)) {
     return false;
   }
   for (auto refDev : referenceDeviceList) {
@@ -1120,7 +1145,7 @@ auto IOStream::readMetadataPerception(StreamReader &sreader, std::vector<bool> &
   // read channel count, unused but could be used for check
   IOBinaryPrimitives::readUInt(bitstream, idx, MDPERCE_CHANNEL_COUNT);
 
-  return true;
+  return IOBinaryPrimitives::isComplete(bitstream, idx);
 }
 
 auto IOStream::writeLibrary(types::Perception &perception, std::vector<bool> &bitstream) -> bool {
@@ -1154,8 +1179,14 @@ auto IOStream::readLibrary(StreamReader &sreader, std::vector<bool> &bitstream)
   for (int i = 0; i < effectCount; i++) {
     types::Effect libraryEffect;
     success &= readLibraryEffect(libraryEffect, idx, bitstream);
+    if (!success) {
+      return false;
+    }
     perception.addBasisEffect(libraryEffect);
   }
+  if (!IOBinaryPrimitives::isComplete(bitstream, idx)) {
+    return false;
+  }
   sreader.haptic.replacePerceptionAt(perceIndex, perception);
   return success;
 }
@@ -1171,8 +1202,12 @@ auto IOStream::readLibraryEffect(types::Effect &libraryEffect, int &idx,
   if (hasSemantic == 1) {
     int semanticCode = IOBinaryPrimitives::readUInt(
         bitstream, idx, EFFECT_SEMANTIC_LAYER_1 + EFFECT_SEMANTIC_LAYER_2);
-    auto semantic = std::string(
-        types::effectSemanticToString.at(static_cast<types::EffectSemantic>(semanticCode)));
+    auto semanticIt =
+        types::effectSemanticToString.find(static_cast<types::EffectSemantic>(semanticCode));
+    if (semanticIt == types::effectSemanticToString.end()) {
+      return false;
+    }
+    auto semantic = std::string(semanticIt->second);
     libraryEffect.setSemantic(semantic);
   }
   int position = IOBinaryPrimitives::readUInt(bitstream, idx, EFFECT_POSITION_STREAMING);
@@ -1204,15 +1239,24 @@ auto IOStream::readLibraryEffect(types::Effect &libraryEffect, int &idx,
     if ((mask & (uint8_t)KeyframeMask::FREQUENCY_MODULATION) != 0) {
       frequency = IOBinaryPrimitives::readUInt(bitstream, idx, KEYFRAME_FREQUENCY);
     }
+    if (!IOBinaryPrimitives::isComplete(bitstream, idx)) {
+      return false;
+    }
     types::Keyframe myKeyframe(position, amplitude, frequency);
     libraryEffect.addKeyframe(myKeyframe);
   }
   bool success = true;
 
   auto timelineEffectCount = IOBinaryPrimitives::readUInt(bitstream, idx, EFFECT_TIMELINE_COUNT);
+  if (!IOBinaryPrimitives::isComplete(bitstream, idx)) {
+    return false;
+  }
   for (int i = 0; i < timelineEffectCount; i++) {
     types::Effect timelineEffect;
     success &= readLibraryEffect(timelineEffect, idx, bitstream);
+    if (!success) {
+      return false;
+    }
     libraryEffect.addTimelineEffect(timelineEffect);
   }
 
@@ -1484,6 +1528,9 @@ auto IOStream::readReferenceDevice(std::vector<bool> &bitstream, types::Referenc
   int bodyPartMask = IOBinaryPrimitives::readUInt(bitstream, idx, REFDEV_BODY_PART_MASK);
   refDevice.setBodyPartMask(static_cast<uint32_t>(bodyPartMask));
 
+  if (!IOBinaryPrimitives::isComplete(bitstream, idx + REFDEV_OPT_FIELDS)) {
+    return false;
+  }
   std::vector<bool> mask(bitstream.begin() + idx, bitstream.begin() + idx + REFDEV_OPT_FIELDS);
   idx += REFDEV_OPT_FIELDS;
   int maskIdx = 0;
@@ -1538,7 +1585,7 @@ auto IOStream::readReferenceDevice(std::vector<bool> &bitstream, types::Referenc
     refDevice.setType(static_cast<types::ActuatorType>(type));
   }
   length += idx;
-  return true;
+  return IOBinaryPrimitives::isComplete(bitstream, idx);
 }
 
 auto IOStream::writeMetadataChannel(StreamWriter &swriter, std::vector<bool> &bitstream) -> bool {
@@ -1747,13 +1794,16 @@ auto IOStream::readMetadataChannel(StreamReader &sreader, std::vector<bool> &bit
   int verticesCount = IOBinaryPrimitives::readUInt(bitstream, idx, MDCHANNEL_VERT_COUNT);
   for (int i = 0; i < verticesCount; i++) {
     int vertex = IOBinaryPrimitives::readUInt(bitstream, idx, MDCHANNEL_VERT);
+    if (!IOBinaryPrimitives::isComplete(bitstream, idx)) {
+      return false;
+    }
     sreader.channel.addVertex(vertex);
   }
 
   // read band count, unused but could be used for check
   IOBinaryPrimitives::readUInt(bitstream, idx, MDCHANNEL_BANDS_COUNT);
 
-  return true;
+  return IOBinaryPrimitives::isComplete(bitstream, idx);
 }
 
 auto IOStream::writeMetadataBand(StreamWriter &swriter, std::vector<bool> &bitstream) -> bool {
@@ -1838,7 +1888,7 @@ auto IOStream::readMetadataBand(StreamReader &sreader, std::vector<bool> &bitstr
 
   // read effects count, unused but could be used for check
   IOBinaryPrimitives::readUInt(bitstream, idx, MDBAND_EFFECT_COUNT);
-  return true;
+  return IOBinaryPrimitives::isComplete(bitstream, idx);
 }
 
 auto IOStream::readListObject(std::vector<bool> &bitstream, int avatarCount,
@@ -2217,12 +2267,16 @@ auto IOStream::readData(StreamReader &sreader, std::vector<bool> &bitstream) ->
   sreader.bandStream.id = -1;
   sreader.bandStream.id = IOBinaryPrimitives::readUInt(bitstream, idx, MDBAND_ID);
   sreader.bandStream.index = searchBandInHaptic(sreader, sreader.bandStream.id);
-  if (sreader.bandStream.index == -1) {
+  if (sreader.bandStream.index == -1 ||
+      sreader.bandStream.index >= static_cast<int>(sreader.channel.getBandsSize())) {
     return false;
   }
   sreader.bandStream.band = sreader.channel.getBandAt(sreader.bandStream.index);
 
   int fxCount = IOBinaryPrimitives::readUInt(bitstream, idx, DB_EFFECT_COUNT);
+  if (!IOBinaryPrimitives::isComplete(bitstream, idx)) {
+    return false;
+  }
   if (fxCount > 0) {
     std::vector<types::Effect> effects;
     std::vector<bool> effectsBitsList(bitstream.begin() + idx, bitstream.end());
@@ -2233,7 +2287,9 @@ auto IOStream::readData(StreamReader &sreader, std::vector<bool> &bitstream) ->
       addTimestampEffect(effects, static_cast<int>(sreader.time));
     } else {
       types::Effect effect;
-      IOStream::readWaveletEffect(effectsBitsList, sreader.bandStream.band, effect, idx);
+      if (!IOStream::readWaveletEffect(effectsBitsList, sreader.bandStream.band, effect, idx)) {
+        return false;
+      }
       effects.push_back(effect);
     }
     return addEffectToHaptic(sreader.haptic, perceptionIndex, channelIndex,
@@ -2286,28 +2342,28 @@ auto IOStream::readCRC(std::vector<bool> &bitstream, CRC &crc, MIHSPacketType mi
     crc.value16 = IOBinaryPrimitives::readUInt(bitstream, idx, CRC16_NB_BITS);
     crc.value32 = 0;
     crc.is32Bits = false;
-    return true;
+    return IOBinaryPrimitives::isComplete(bitstream, idx);
   }
   if (mihsPacketType == MIHSPacketType::CRC32) {
     crc.nbPackets = 1;
     crc.value32 = IOBinaryPrimitives::readUInt(bitstream, idx, CRC32_NB_BITS);
     crc.value16 = 0;
     crc.is32Bits = true;
-    return true;
+    return IOBinaryPrimitives::isComplete(bitstream, idx);
   }
   if (mihsPacketType == MIHSPacketType::GlobalCRC16) {
     crc.nbPackets = IOBinaryPrimitives::readUInt(bitstream, idx, GCRC_NB_PACKET);
     crc.value16 = IOBinaryPrimitives::readUInt(bitstream, idx, CRC16_NB_BITS);
     crc.value32 = 0;
     crc.is32Bits = false;
-    return true;
+    return IOBinaryPrimitives::isComplete(bitstream, idx);
   }
   if (mihsPacketType == MIHSPacketType::GlobalCRC32) {
     crc.nbPackets = IOBinaryPrimitives::readUInt(bitstream, idx, GCRC_NB_PACKET);
     crc.value32 = IOBinaryPrimitives::readUInt(bitstream, idx, CRC32_NB_BITS);
     crc.value16 = 0;
     crc.is32Bits = true;
-    return true;
+    return IOBinaryPrimitives::isComplete(bitstream, idx);
   }
   return false;
 }
@@ -2389,8 +2445,12 @@ auto IOStream::readWaveletEffect(std::vector<bool> &bitstream, types::Band &band
   if (hasSemantic == 1) {
     int semanticCode = IOBinaryPrimitives::readUInt(
         bitstream, idx, EFFECT_SEMANTIC_LAYER_1 + EFFECT_SEMANTIC_LAYER_2);
-    auto semantic = std::string(
-        types::effectSemanticToString.at(static_cast<types::EffectSemantic>(semanticCode)));
+    auto semanticIt =
+        types::effectSemanticToString.find(static_cast<types::EffectSemantic>(semanticCode));
+    if (semanticIt == types::effectSemanticToString.end()) {
+      return false;
+    }
+    auto semantic = std::string(semanticIt->second);
     effect.setSemantic(semantic);
   }
 
@@ -2398,7 +2458,9 @@ auto IOStream::readWaveletEffect(std::vector<bool> &bitstream, types::Band &band
       band.getBlockLengthOrDefault() * static_cast<int>(band.getEffectsSize());
   effect.setPosition(effectPos);
 
-  IOBinaryBands::readWaveletEffect(effect, bitstream, idx);
+  if (!IOBinaryBands::readWaveletEffect(effect, bitstream, idx)) {
+    return false;
+  }
   length += idx;
   return true;
 }
@@ -2422,8 +2484,12 @@ auto IOStream::readEffect(std::vector<bool> &bitstream, types::Effect &effect, t
     if (hasSemantic == 1) {
       int semanticCode = IOBinaryPrimitives::readUInt(
           bitstream, idx, EFFECT_SEMANTIC_LAYER_1 + EFFECT_SEMANTIC_LAYER_2);
-      auto semantic = std::string(
-          types::effectSemanticToString.at(static_cast<types::EffectSemantic>(semanticCode)));
+      auto semanticIt =
+          types::effectSemanticToString.find(static_cast<types::EffectSemantic>(semanticCode));
+      if (semanticIt == types::effectSemanticToString.end()) {
+        return false;
+      }
+      auto semantic = std::string(semanticIt->second);
       effect.setSemantic(semantic);
     }
     if (!readEffectBasis(bitstream, effect, band.getBandType(), idx)) {
@@ -2431,7 +2497,7 @@ auto IOStream::readEffect(std::vector<bool> &bitstream, types::Effect &effect, t
     }
   }
   length += idx;
-  return true;
+  return IOBinaryPrimitives::isComplete(bitstream, idx);
 }
 
 auto IOStream::writeEffectBasis(types::Effect effect, StreamWriter &swriter, int &kfCount,
@@ -2471,8 +2537,8 @@ auto IOStream::readEffectBasis(std::vector<bool> &bitstream, types::Effect &effe
     effect.setBaseSignal(static_cast<types::BaseSignal>(baseSignal));
   }
   std::vector<types::Keyframe> keyframes = std::vector<types::Keyframe>();
-  std::vector<bool> kfBitsList(bitstream.begin() + idx, bitstream.end());
-  if (!readListObject(kfBitsList, kfCount, bandType, keyframes, idx)) {
+  std::vector<bool> kfBitsList = IOBinaryPrimitives::remainingBits(bitstream, idx);
+  if (!IOBinaryPrimitives::isComplete(bitstream, idx) || !readListObject(kfBitsList, kfCount, bandType, keyframes, idx)) {
     return false;
   }
 
@@ -2536,7 +2602,7 @@ auto IOStream::readTransient(std::vector<bool> &bitstream, types::Keyframe &keyf
   int frequency = IOBinaryPrimitives::readUInt(bitstream, idx, KEYFRAME_FREQUENCY);
   keyframe.setFrequencyModulation(frequency);
   length += idx;
-  return true;
+  return IOBinaryPrimitives::isComplete(bitstream, idx);
 }
 
 auto IOStream::writeCurve(types::Keyframe &keyframe, std::vector<bool> &bitstream) -> bool {
@@ -2558,7 +2624,7 @@ auto IOStream::readCurve(std::vector<bool> &bitstream, types::Keyframe &keyframe
   int position = IOBinaryPrimitives::readUInt(bitstream, idx, KEYFRAME_POSITION);
   keyframe.setRelativePosition(position);
   length += idx;
-  return true;
+  return IOBinaryPrimitives::isComplete(bitstream, idx);
 }
 
 auto IOStream::writeVectorial(types::Keyframe &keyframe, std::vector<bool> &bitstream) -> bool {
@@ -2604,7 +2670,7 @@ auto IOStream::readVectorial(std::vector<bool> &bitstream, types::Keyframe &keyf
     keyframe.setFrequencyModulation(frequency);
   }
   length += idx;
-  return true;
+  return IOBinaryPrimitives::isComplete(bitstream, idx);
 }
 
 auto IOStream::searchPerceptionInHaptic(types::Haptics &haptic, int id) -> int {
-- 
2.43.0


From c782f726aebc3837411b6dcc6f85a9fd0a83e1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:37 +0000
Subject: [PATCH 63/69] fix: intensity and sharpness curves that end before or
 begin after an AHAP event were read out of bounds

---
 source/Encoder/src/AhapEncoder.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index b437ccd..8806d06 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -360,6 +360,11 @@ auto AhapEncoder::modulateContinuousOnAmplitude(
         return a.first >= continuous.getPosition();
       });
 
+  // THE CURVE ENDS BEFORE THE EVENT
+  if (first_kf_a == amplitudes->end()) {
+    return;
+  }
+
   // IF FIRST KEYFRAME ON START OF EVENT, UPDATE EVENT
   if (first_kf_a->first == continuous.getPosition() && first_kf_a != amplitudes->end() - 1) {
     continuous.getKeyframeAt(0).setAmplitudeModulation(
@@ -376,6 +381,10 @@ auto AhapEncoder::modulateContinuousOnAmplitude(
   for (auto it = first_kf_a; it < amplitudes->end(); it++) {
     // IF AFTER OR ON THE END OF THE EFFECT, UPDATE END
     if (it->first >= (continuous.getPosition() + lastKeyframe.getRelativePosition().value())) {
+      // THE CURVE BEGINS AFTER THE EVENT
+      if (it == amplitudes->begin()) {
+        break;
+      }
       float amp = static_cast<float>(haptics::tools::linearInterpolation(
           *(it - 1), *it, continuous.getPosition() + lastKeyframe.getRelativePosition().value()));
       lastKeyframe.setAmplitudeModulation(amp * lastKeyframe.getAmplitudeModulation().value());
@@ -410,6 +419,11 @@ auto AhapEncoder::modulateContinuousOnFrequency(
       frequencies->begin(), frequencies->end(),
       [continuous](std::pair<int, double> a) { return a.first >= continuous.getPosition(); });
 
+  // THE CURVE ENDS BEFORE THE EVENT
+  if (first_kf_f == frequencies->end()) {
+    return;
+  }
+
   // IF FIRST KEYFRAME ON START OF EVENT, UPDATE EVENT
   if (first_kf_f->first == continuous.getPosition() && first_kf_f != frequencies->end() - 1) {
     double freq_d = first_kf_f->second + base_freq;
@@ -432,6 +446,10 @@ auto AhapEncoder::modulateContinuousOnFrequency(
   for (auto it = first_kf_f; it < frequencies->end(); it++) {
     // IF AFTER OR ON THE END OF THE EFFECT, UPDATE END
     if (it->first >= (continuous.getPosition() + lastKeyframe.getRelativePosition().value())) {
+      // THE CURVE BEGINS AFTER THE EVENT
+      if (it == frequencies->begin()) {
+        break;
+      }
       double freq = haptics::tools::chirpInterpolation(
           (it - 1)->first, it->first, (it - 1)->second + base_freq, it->second + base_freq,
           continuous.getPosition() + lastKeyframe.getRelativePosition().value());
-- 
2.43.0


From 2957e66cba81aefe71e2b4a6e06563ae5120fbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:37 +0000
Subject: [PATCH 64/69] fix: the sharpness of an AHAP event was added twice at
 its end under a curve

---
 source/Encoder/src/AhapEncoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index 8806d06..2680655 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -453,7 +453,7 @@ auto AhapEncoder::modulateContinuousOnFrequency(
       double freq = haptics::tools::chirpInterpolation(
           (it - 1)->first, it->first, (it - 1)->second + base_freq, it->second + base_freq,
           continuous.getPosition() + lastKeyframe.getRelativePosition().value());
-      freq = std::clamp(freq + base_freq, BASE_FREQUENCY_MIN, BASE_FREQUENCY_MAX);
+      freq = std::clamp(freq, BASE_FREQUENCY_MIN, BASE_FREQUENCY_MAX);
       lastKeyframe.setFrequencyModulation(static_cast<int>(std::round(
           haptics::tools::genericNormalization(BASE_FREQUENCY_MIN, BASE_FREQUENCY_MAX,
                                                ACTUAL_FREQUENCY_MIN, ACTUAL_FREQUENCY_MAX, freq))));
-- 
2.43.0


From 975b519360f6d9fe0a9d5e70b59094233117aefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:37 +0000
Subject: [PATCH 65/69] fix: frequencies of AHAP transients left the actuator
 range under a sharpness curve

---
 source/Encoder/src/AhapEncoder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index 2680655..fb8f334 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -274,7 +274,8 @@ namespace haptics::encoder {
       int freq = static_cast<int>(haptics::tools::genericNormalization(
           BASE_FREQUENCY_MIN, BASE_FREQUENCY_MAX, ACTUAL_FREQUENCY_MIN, ACTUAL_FREQUENCY_MAX, f));
       // SUM FREQUENCY MODULATION
-      k.setFrequencyModulation(freq + k.getFrequencyModulation().value());
+      k.setFrequencyModulation(std::clamp(freq + k.getFrequencyModulation().value(),
+                                          ACTUAL_FREQUENCY_MIN, ACTUAL_FREQUENCY_MAX));
     } else if (first_kf_f == frequencies->begin()) {
       k.setFrequencyModulation(ACTUAL_FREQUENCY_MAX);
     }
-- 
2.43.0


From 939ea0fb4beb375c671110061c18fb1ac5a2da76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:37 +0000
Subject: [PATCH 66/69] fix: nested IVS repeats replaced the repeat tree and
 dropped effects

---
 source/Encoder/src/IvsEncoder.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/Encoder/src/IvsEncoder.cpp b/source/Encoder/src/IvsEncoder.cpp
index 7e91457..0ec7555 100644
--- a/source/Encoder/src/IvsEncoder.cpp
+++ b/source/Encoder/src/IvsEncoder.cpp
@@ -79,20 +79,20 @@ auto IvsEncoder::encode(const std::string &filename, types::Perception &out, uns
     auto repeatTree = RepeatNode{nullptr, {}, {}};
     for (pugi::xml_node &repeatEvent : sortedRepeatEvents) {
       auto currentNode = RepeatNode{&repeatEvent, {}, {}};
-      RepeatNode &researchNode = repeatTree;
+      RepeatNode *researchNode = &repeatTree;
       bool continue_search = false;
       do {
-        if (researchNode.children.empty()) {
+        if (researchNode->children.empty()) {
           break;
         }
 
-        auto lastChild = researchNode.children.back();
+        RepeatNode &lastChild = researchNode->children.back();
         continue_search = isRepeatNested(lastChild.value, currentNode.value);
         if (continue_search) {
-          researchNode = lastChild;
+          researchNode = &lastChild;
         }
       } while (continue_search);
-      researchNode.children.push_back(currentNode);
+      researchNode->children.push_back(currentNode);
     }
 
     pugi::xml_node basisEffect = {};
-- 
2.43.0


From f6f2503653e1f9591971c7263f7279cf48c7df13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:37 +0000
Subject: [PATCH 67/69] fix: IVS repeats with two levels of repeats inside were
 too short

---
 source/Encoder/include/IvsEncoder.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/Encoder/include/IvsEncoder.h b/source/Encoder/include/IvsEncoder.h
index 9cd34f6..ba487d5 100644
--- a/source/Encoder/include/IvsEncoder.h
+++ b/source/Encoder/include/IvsEncoder.h
@@ -152,9 +152,10 @@ private:
           linearized_effects.push_back(e);
           myEffects_it++;
         } else {
+          int delay_before = delay;
           delay_tmp = children_it->linearize(linearized_effects, delay);
-          duration += delay_tmp;
           delay += delay_tmp;
+          duration += delay - delay_before;
           children_it++;
         }
       }
@@ -165,9 +166,10 @@ private:
         linearized_effects.push_back(e);
       }
       for (; children_it < children.end(); children_it++) {
+        int delay_before = delay;
         delay_tmp = children_it->linearize(linearized_effects, delay);
-        duration += delay_tmp;
         delay += delay_tmp;
+        duration += delay - delay_before;
       }
 
       for (int i = 0; i <= count; i++) {
-- 
2.43.0


From 35d2abe6c05378891e15df84b0c58bb1f89a2c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:37 +0000
Subject: [PATCH 68/69] fix: IVS launches that are not in order of time were
 misplaced around repeats

---
 source/Encoder/include/IvsEncoder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Encoder/include/IvsEncoder.h b/source/Encoder/include/IvsEncoder.h
index ba487d5..4f91841 100644
--- a/source/Encoder/include/IvsEncoder.h
+++ b/source/Encoder/include/IvsEncoder.h
@@ -118,7 +118,7 @@ private:
         }
       }
 
-      auto it = myEffects.end();
+      auto it = myEffects.begin();
       auto it_effects = myEffects.begin();
       int effectPosition = myEffect.getPosition();
       for (; it_effects < myEffects.end(); it_effects++) {
-- 
2.43.0


From 1d8a0254590b258e89e5edb2d985cb91cafd85c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:37 +0000
Subject: [PATCH 69/69] fix: IVS times were truncated to one tick less than
 their milliseconds

---
 source/Encoder/src/IvsEncoder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/Encoder/src/IvsEncoder.cpp b/source/Encoder/src/IvsEncoder.cpp
index 0ec7555..d9b8def 100644
--- a/source/Encoder/src/IvsEncoder.cpp
+++ b/source/Encoder/src/IvsEncoder.cpp
@@ -34,6 +34,7 @@
 #include <Encoder/include/IvsEncoder.h>
 #include <Tools/include/Tools.h>
 #include <algorithm>
+#include <cmath>
 #include <fstream>
 #include <limits>
 
@@ -415,7 +416,7 @@ auto IvsEncoder::injectIntoBands(types::Effect &effect, types::Channel &channel,
 }
 
 auto IvsEncoder::millisecondsToTimeScale(int milliseconds, unsigned int timescale) -> int {
-  return static_cast<int>(static_cast<double>(milliseconds) * MS_2_S *
-                          static_cast<double>(timescale));
+  return static_cast<int>(std::round(static_cast<double>(milliseconds) * MS_2_S *
+                                     static_cast<double>(timescale)));
 }
 } // namespace haptics::encoder
-- 
2.43.0

