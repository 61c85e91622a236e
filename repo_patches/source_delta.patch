From 95e9292781fed0f0ce15ad38bae6e293d77c9bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 01/31] fix: CheckIntersection missed crossings with
 axis-parallel segments

---
 src/geometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry.cpp b/src/geometry.cpp
index 259ff3c..f67315d 100644
--- a/src/geometry.cpp
+++ b/src/geometry.cpp
@@ -145,7 +145,7 @@ bool CheckIntersection(double ax, double ay,
   {
     if (a > b) std::swap(a, b);
     if (c > d) std::swap(c, d);
-    return std::max(a,c) < std::min(b,d);
+    return std::max(a,c) <= std::min(b,d);
   };
   return boundBoxCheck(ax, bx, cx, dx) &&
          boundBoxCheck(ay, by, cy, dy) &&
-- 
2.43.0


From b5982dbd347e4804e747ac09b939c11ad560dcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 02/31] fix: a level that cannot be triangulated no longer
 drops the levels after it

---
 src/knn/knn_utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/knn/knn_utils.cpp b/src/knn/knn_utils.cpp
index 1c40fc6..f80af1a 100644
--- a/src/knn/knn_utils.cpp
+++ b/src/knn/knn_utils.cpp
@@ -54,8 +54,8 @@ std::map<LevelId, std::vector<RefPointsTriangle>> triangulate(const std::shared_
       std::vector<Triangle> triangles = TriangulateVertices(vertices, maxedge);
       if (triangles.empty())
       {
-        // triangulation failed!
-        return levelTriangles;
+        // triangulation of this level failed!
+        continue;
       }
 #ifdef DEBUG_OUTPUT_TRIANGULATION
       std::ofstream debugOs;
-- 
2.43.0


From d52439c7b7bc9f88fd98add546840a8d758458db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 03/31] fix: K nearest reference points were never averaged
 (destination of partial_sort_copy was empty)

---
 src/knn/knn_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/knn/knn_utils.cpp b/src/knn/knn_utils.cpp
index f80af1a..3884bfe 100644
--- a/src/knn/knn_utils.cpp
+++ b/src/knn/knn_utils.cpp
@@ -355,7 +355,7 @@ XYPoint calcKHeaviestRefPointsAverage(const Radiomap& radiomap,
 {
   k = std::min(k, rpToWeight.size());
   std::vector<std::pair<ReferencePointId, double>> kHeaviestPoints;
-  kHeaviestPoints.reserve(k);
+  kHeaviestPoints.resize(k);
   std::partial_sort_copy(
       rpToWeight.begin(), rpToWeight.end(),
       kHeaviestPoints.begin(), kHeaviestPoints.end(),
-- 
2.43.0


From 270c5d92517955087008e2fae6cde63e661d7ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 04/31] fix: absolute fingerprint comparison added database and
 measured rssi of the same sign

---
 src/knn/knn_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/knn/knn_utils.cpp b/src/knn/knn_utils.cpp
index 3884bfe..4b8edd3 100644
--- a/src/knn/knn_utils.cpp
+++ b/src/knn/knn_utils.cpp
@@ -254,7 +254,7 @@ std::map<ReferencePointId, double> calcRpWeightsKnn(
       {
         double apW = trWeights[it1->txId];
         rpNormalize[rpId] += apW;
-        double weight = std::max(fabs(it1->rssiDatabase + it1->rssiMeasured) * apW, MIN_RP_WEIGHT);
+        double weight = std::max(fabs(fabs(it1->rssiDatabase) - fabs(it1->rssiMeasured)) * apW, MIN_RP_WEIGHT);
         rpWeights[rpId] += weight;
       }
     }
-- 
2.43.0


From b7dad0c62e8f36497c587a39f515982debe55984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 05/31] fix: sigma filter with an empty window popped from an
 empty deque

---
 src/position_estimator/position_estimator_outdoor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/position_estimator/position_estimator_outdoor.cpp b/src/position_estimator/position_estimator_outdoor.cpp
index aba6627..83c40b7 100644
--- a/src/position_estimator/position_estimator_outdoor.cpp
+++ b/src/position_estimator/position_estimator_outdoor.cpp
@@ -11,6 +11,9 @@ namespace navigation_core {
 
 bool SigmaFilter::add(const XYPoint& point)
 {
+  if (mSigmaWindow == 0)
+    return true; // nothing to compare with
+
   bool pntValid = false;
   if (mGNSSbuffer.size() == mSigmaWindow) {
     double sumX = 0;
-- 
2.43.0


From 16d5bb103bcabbf785740423b9df308fbd88429b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 06/31] fix: a satellite fix was taken as new with every later
 message and never expired

---
 .../position_estimator_outdoor.cpp                | 15 +++++++++++----
 .../position_estimator_outdoor.h                  |  3 ++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/position_estimator/position_estimator_outdoor.cpp b/src/position_estimator/position_estimator_outdoor.cpp
index 83c40b7..820dae9 100644
--- a/src/position_estimator/position_estimator_outdoor.cpp
+++ b/src/position_estimator/position_estimator_outdoor.cpp
@@ -64,7 +64,7 @@ PositionEstimatorOutdoor::PositionEstimatorOutdoor(
   , mMaxGpsDeviation(navProps.commonSettings.maxGpsDeviation)
 { }
 
-GpsPosition PositionEstimatorOutdoor::extractGpsPosition(long long ts, const SensorMeasurement& sensorMsr)
+GpsPosition PositionEstimatorOutdoor::extractGpsPosition(const SensorMeasurement& sensorMsr)
 {
 
   if (sensorMsr.data.type == SensorMeasurementData::Type::LOCATION)
@@ -72,7 +72,7 @@ GpsPosition PositionEstimatorOutdoor::extractGpsPosition(long long ts, const Sen
     double lat = sensorMsr.data.values.x;
     double lng = sensorMsr.data.values.y;
     double dev = std::max(sensorMsr.data.values.z, mMinGpsDeviation);
-    GpsPosition pos = GpsPosition(lat, lng, dev, ts);
+    GpsPosition pos = GpsPosition(lat, lng, dev, sensorMsr.ts);
     return pos;
   }
   else
@@ -96,7 +96,12 @@ Position PositionEstimatorOutdoor::calculatePosition(
   const NmeaMeasurement& nmeaEntry,
   const bool flagIndoorPos)
 {
-  GpsPosition gpsPos = extractGpsPosition(ts, sensorEntry);
+  GpsPosition gpsPos = extractGpsPosition(sensorEntry);
+  // the latest sensor entry is passed along with every message, but each fix counts only once
+  const bool isNewFix = !gpsPos.isEmpty && (gpsPos.ts != mLastFix.ts
+    || gpsPos.latitude != mLastFix.latitude
+    || gpsPos.longitude != mLastFix.longitude
+    || gpsPos.deviation != mLastFix.deviation);
   int totalNumSats = extractNumberOfSatellites(nmeaEntry);
 
   if (flagIndoorPos || (gpsPos.deviation > mMaxGpsDeviation))
@@ -104,7 +109,7 @@ Position PositionEstimatorOutdoor::calculatePosition(
     mSigmaFilter.clear(); //If there is indoor solution then clear sigma filter GNSS buffer.
   }
 
-  if (gpsPos.isEmpty)
+  if (!isNewFix)
   {
     double timeSinceLastGpsPosition = (ts - mLastGpsPosition.ts) / 1000.0;
     if (timeSinceLastGpsPosition > mGpsValidTimeWindowSec)
@@ -113,6 +118,8 @@ Position PositionEstimatorOutdoor::calculatePosition(
         return mLastGpsPosition;
   }
 
+  mLastFix = gpsPos;
+
   //TODO find map closest to previous position (at least check if inside)!!!!
   for (const Level& level: mLevelIndex->levels())
   {
diff --git a/src/position_estimator/position_estimator_outdoor.h b/src/position_estimator/position_estimator_outdoor.h
index 3461cb7..948002e 100644
--- a/src/position_estimator/position_estimator_outdoor.h
+++ b/src/position_estimator/position_estimator_outdoor.h
@@ -76,9 +76,10 @@ public:
     const bool flagIndoorPos);
 
   private:
-    GpsPosition extractGpsPosition(long long ts, const SensorMeasurement& sensorEntry);
+    GpsPosition extractGpsPosition(const SensorMeasurement& sensorEntry);
     int extractNumberOfSatellites(const NmeaMeasurement& nmeaEntry);
     Position mLastGpsPosition;
+    GpsPosition mLastFix;
 
     std::shared_ptr<LevelCollector> mLevelIndex;
     SigmaFilter mSigmaFilter;
-- 
2.43.0


From 8eecc33abfddf23acc0853cf3ccbf95f3a5ed4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 07/31] fix: satellite fixes less accurate than the accepted
 maximum were used

---
 src/position_estimator/position_estimator_outdoor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/position_estimator/position_estimator_outdoor.cpp b/src/position_estimator/position_estimator_outdoor.cpp
index 820dae9..e1caa70 100644
--- a/src/position_estimator/position_estimator_outdoor.cpp
+++ b/src/position_estimator/position_estimator_outdoor.cpp
@@ -120,6 +120,9 @@ Position PositionEstimatorOutdoor::calculatePosition(
 
   mLastFix = gpsPos;
 
+  if (!(gpsPos.deviation <= mMaxGpsDeviation))
+    return Position(); // not accurate enough
+
   //TODO find map closest to previous position (at least check if inside)!!!!
   for (const Level& level: mLevelIndex->levels())
   {
-- 
2.43.0


From 931db38d039a7ba26bb0004a5e0035df7b1d62cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 08/31] fix: with positions outside the map allowed non-finite
 satellite fixes became positions

---
 src/position_estimator/position_estimator_outdoor.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/position_estimator/position_estimator_outdoor.cpp b/src/position_estimator/position_estimator_outdoor.cpp
index e1caa70..fd5911b 100644
--- a/src/position_estimator/position_estimator_outdoor.cpp
+++ b/src/position_estimator/position_estimator_outdoor.cpp
@@ -128,8 +128,10 @@ Position PositionEstimatorOutdoor::calculatePosition(
   {
     XYPoint point = gpsToLocal(GeoPoint(gpsPos.latitude, gpsPos.longitude), level.bindingPoint());
 
-    if ((!std::isnan(point.x) && !std::isnan(point.y)
-      && boost::geometry::covered_by(Point(point.x, point.y), level.geometry().boundingBox())) || mUseGpsOutsideMap)
+    if (!std::isfinite(point.x) || !std::isfinite(point.y))
+      continue;
+
+    if ((boost::geometry::covered_by(Point(point.x, point.y), level.geometry().boundingBox())) || mUseGpsOutsideMap)
     {
       Position outPos;
 
-- 
2.43.0


From 3f414c61087269c538e54b9f09ec5e84caf8b183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 09/31] fix: rotation solver divided zero by zero when two
 column entries were both zero

---
 src/position_postprocessor/polynomial_fit.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/position_postprocessor/polynomial_fit.cpp b/src/position_postprocessor/polynomial_fit.cpp
index c65eb33..296a759 100644
--- a/src/position_postprocessor/polynomial_fit.cpp
+++ b/src/position_postprocessor/polynomial_fit.cpp
@@ -166,6 +166,8 @@ void solveLinearSystem(const std::vector <double>& A, const std::vector <double>
     cosphi = E[k * (n + 1) + k];
     sinphi = E[j * (n + 1) + k];
     norm = sqrt(cosphi * cosphi + sinphi * sinphi);
+    if (norm == 0.0)
+      continue;
     cosphi /= norm;
     sinphi /= norm;
     for (i = k; i < n + 1; ++i)
-- 
2.43.0


From 85c9f2302eb1b10b6fc180fbe6d34eaf55dcf0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 10/31] fix: position of a standing user was projected and
 rounded anew with every message and crept away

---
 src/position_postprocessor/position_postprocessor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/position_postprocessor/position_postprocessor.cpp b/src/position_postprocessor/position_postprocessor.cpp
index 0fc7a76..c45e44e 100644
--- a/src/position_postprocessor/position_postprocessor.cpp
+++ b/src/position_postprocessor/position_postprocessor.cpp
@@ -202,7 +202,9 @@ Position PositionPostprocessor::getProcessedPosition(const Position& fusedPositi
     }
     else
     {
+      // the held position has already been projected, fitted and rounded
       mLastOutPosition.ts = ts;
+      return mLastOutPosition;
     }
   }
   else
-- 
2.43.0


From a2382c2cba0dd2498ff17b0b2110ec9804a2ba6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 11/31] fix: results, states and messages were handed out with
 fields that were never written

---
 include/navigine/navigation-core/geolevel.h          |  2 +-
 include/navigine/navigation-core/navigation_input.h  | 10 +++++-----
 include/navigine/navigation-core/navigation_output.h |  8 ++++----
 include/navigine/navigation-core/navigation_state.h  |  6 +++---
 src/measurements/measurement_preprocessor.h          |  2 +-
 5 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/navigine/navigation-core/geolevel.h b/include/navigine/navigation-core/geolevel.h
index 268e018..3fb80e5 100644
--- a/include/navigine/navigation-core/geolevel.h
+++ b/include/navigine/navigation-core/geolevel.h
@@ -29,7 +29,7 @@ struct GeoLevel
   GeoReferencePoints referencePoints;
   LevelGeometry geometry;
   Graph<GeoPoint> graph;
-  double altitude;
+  double altitude = 0.0;
 };
 
 typedef std::vector<std::shared_ptr<GeoLevel> > GeoLevels;
diff --git a/include/navigine/navigation-core/navigation_input.h b/include/navigine/navigation-core/navigation_input.h
index 3859486..0b4635b 100644
--- a/include/navigine/navigation-core/navigation_input.h
+++ b/include/navigine/navigation-core/navigation_input.h
@@ -22,7 +22,7 @@ template <typename MeasurementData>
 struct MeasurementDataWithTimeStamp
 {
   MeasurementData data;
-  long long ts;
+  long long ts = 0;
 };
 
 struct RadioMeasurementData
@@ -35,7 +35,7 @@ struct RadioMeasurementData
     WIFI_RTT
   };
 
-  Type type;
+  Type type = Type::WIFI;
   TransmitterId id;
   double rssi = 0;
   double power = 0;
@@ -54,14 +54,14 @@ struct SensorMeasurementData
     ORIENTATION
   };
 
-  Type       type;
+  Type       type = Type::ACCELEROMETER;
   Vector3d   values;
 };
 
 struct NmeaMeasurementData
 {
-  int sentenceNumber;
-  int satellitesNumber;
+  int sentenceNumber = 0;
+  int satellitesNumber = 0;
 };
 
 using RadioMeasurementsData = std::vector<RadioMeasurementData>;
diff --git a/include/navigine/navigation-core/navigation_output.h b/include/navigine/navigation-core/navigation_output.h
index 17edabe..f0c3240 100644
--- a/include/navigine/navigation-core/navigation_output.h
+++ b/include/navigine/navigation-core/navigation_output.h
@@ -24,15 +24,15 @@ enum class Provider { GNSS, INDOOR, FUSED, NONE };
 
 struct NavigationOutput
 {
-  NavigationStatus status;
+  NavigationStatus status = NAVIGATION_ERROR;
 
   LevelId posLevel;       // Level identifier
   double posLatitude = 0.0;
   double posLongitude = 0.0;
   double posAltitude = 0.0;
-  double posR;           // Output radius (meters)
-  double posOrientation; // Output orientation in radians (clockwise)
-  Provider provider;
+  double posR = 0.0;           // Output radius (meters)
+  double posOrientation = 0.0; // Output orientation in radians (clockwise)
+  Provider provider = Provider::NONE;
 };
 
 } } // namespace navigine::navigation_core
diff --git a/include/navigine/navigation-core/navigation_state.h b/include/navigine/navigation-core/navigation_state.h
index ab90ba2..b12a31a 100644
--- a/include/navigine/navigation-core/navigation_state.h
+++ b/include/navigine/navigation-core/navigation_state.h
@@ -60,9 +60,9 @@ class NavigationState
     RadioMeasurementsData        mMeasurements;
     std::vector<XYParticle>  mLikelihoodMapPoints;
     std::vector<double>      mLikelihoodMapWeights;
-    double                   mHeading;
-    double                   mStepLen;
-    int                      mStepCounter;
+    double                   mHeading = 0.0;
+    double                   mStepLen = 0.0;
+    int                      mStepCounter = 0;
     XYPoint                  mIndoorPosition;
     XYPoint                  mOutdoorPosition;
 };
diff --git a/src/measurements/measurement_preprocessor.h b/src/measurements/measurement_preprocessor.h
index bdb58f6..145238b 100644
--- a/src/measurements/measurement_preprocessor.h
+++ b/src/measurements/measurement_preprocessor.h
@@ -83,7 +83,7 @@ class MeasurementsPreprocessor: public boost::static_visitor<>
     const bool mUseWifi;
     const bool mUseBle;
     const bool mIsTracking;
-    long long mLastSignalTs;
+    long long mLastSignalTs = 0;
 
     RadioMeasurementBuffer mRadiosBuffer;
     long long mCurrentTs;
-- 
2.43.0


From 27c4ea254effda51e73f6d7d6008e26742a58d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:15 +0000
Subject: [PATCH 12/31] fix: wrapping an infinite angle never ended, a huge one
 took ages

---
 src/sensor_fusion/complementary_filter.cpp                   | 5 ++---
 .../complementary_filter/src/complementary_filter.cpp        | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/sensor_fusion/complementary_filter.cpp b/src/sensor_fusion/complementary_filter.cpp
index b0f74c5..594ca12 100644
--- a/src/sensor_fusion/complementary_filter.cpp
+++ b/src/sensor_fusion/complementary_filter.cpp
@@ -17,9 +17,8 @@ static const double LPF_TIME_CONSTANT_SEC   = 1.0;
 
 double to_minus_Pi_Pi(double x)
 {
-  while ( x >= M_PI ) x -= 2 * M_PI;
-  while ( x < -M_PI ) x += 2 * M_PI;
-  return x;
+  x = std::remainder(x, 2 * M_PI);
+  return x >= M_PI ? x - 2 * M_PI : x;
 }
 
 Quaternion updateQuaternion(const Quaternion& q, const Vector3d& v)
diff --git a/standalone_algorithms/complementary_filter/src/complementary_filter.cpp b/standalone_algorithms/complementary_filter/src/complementary_filter.cpp
index 3fc0d15..56aa5ed 100644
--- a/standalone_algorithms/complementary_filter/src/complementary_filter.cpp
+++ b/standalone_algorithms/complementary_filter/src/complementary_filter.cpp
@@ -9,9 +9,8 @@ static const double DOUBLE_EPSILON          = 1e-8;
 
 double to_minus_Pi_Pi(double x)
 {
-  while ( x >= M_PI ) x -= 2 * M_PI;
-  while ( x < -M_PI ) x += 2 * M_PI;
-  return x;
+  x = std::remainder(x, 2 * M_PI);
+  return x >= M_PI ? x - 2 * M_PI : x;
 }
 
 Quaternion updateQuaternion(const Quaternion& q, const Vector3d& v)
-- 
2.43.0


From fba53f6330d9e027a1c67a70042277b11954ee15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:15 +0000
Subject: [PATCH 13/31] fix: pedometer and orientation filter took the latest
 sensor sample anew with every radio message

---
 src/sensor_fusion/sensor_fusion.cpp | 19 +++++++++++++++----
 src/sensor_fusion/sensor_fusion.h   |  1 +
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/sensor_fusion/sensor_fusion.cpp b/src/sensor_fusion/sensor_fusion.cpp
index a419761..332b996 100644
--- a/src/sensor_fusion/sensor_fusion.cpp
+++ b/src/sensor_fusion/sensor_fusion.cpp
@@ -16,10 +16,21 @@ SensorFusion::SensorFusion(const NavigationSettings& navProps)
 
 MotionInfo SensorFusion::calculateDisplacement(const SensorMeasurement& msr, long long tsMs)
 {
-  mPedometer.update(msr);
-  std::deque<Step> steps = mPedometer.calculateSteps();
-  
-  mComplFilter.update(msr);
+  // the latest sample is passed along with every message, but it is to be used only once
+  const bool isNewMsr = msr.ts != mLastMsr.ts
+    || msr.data.type != mLastMsr.data.type
+    || msr.data.values.x != mLastMsr.data.values.x
+    || msr.data.values.y != mLastMsr.data.values.y
+    || msr.data.values.z != mLastMsr.data.values.z;
+
+  std::deque<Step> steps;
+  if (isNewMsr)
+  {
+    mLastMsr = msr;
+    mPedometer.update(msr);
+    steps = mPedometer.calculateSteps();
+    mComplFilter.update(msr);
+  }
 
   MotionInfo motionInfo;
   motionInfo.heading = -mComplFilter.getFusedAzimuth(); // the counter-clockwise rotation needed
diff --git a/src/sensor_fusion/sensor_fusion.h b/src/sensor_fusion/sensor_fusion.h
index 9cc56b2..58c293e 100644
--- a/src/sensor_fusion/sensor_fusion.h
+++ b/src/sensor_fusion/sensor_fusion.h
@@ -30,6 +30,7 @@ private:
   const double mStepMultiplier;
   ComplementaryFilter mComplFilter;
   Pedometer mPedometer;
+  SensorMeasurement mLastMsr;
   int mStepCounter = 0;
   double mPrevHeading = 0.0;
 };
-- 
2.43.0


From ccbec3fd5114aa0fc5cf63cb252ff0fd4d4fa917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:15 +0000
Subject: [PATCH 14/31] fix: barometer stored the latest pressure anew with
 every radio message

---
 src/level_estimator/barometer.cpp | 8 +++++++-
 src/level_estimator/barometer.h   | 2 ++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/level_estimator/barometer.cpp b/src/level_estimator/barometer.cpp
index 7d04b15..0a42f49 100644
--- a/src/level_estimator/barometer.cpp
+++ b/src/level_estimator/barometer.cpp
@@ -64,8 +64,14 @@ void Barometer::updateBuffers(const SensorMeasurement& sensorMsr)
   debugOutputFile.close();
 #endif
 
-  if (sensorMsr.data.type == SensorMeasurementData::Type::BAROMETER)
+  // the latest sample is passed along with every message, but it is to be stored only once
+  const bool isNewMsr = sensorMsr.ts != mLastBarometerTs || sensorMsr.data.values.x != mLastPressure;
+
+  if (sensorMsr.data.type == SensorMeasurementData::Type::BAROMETER && isNewMsr)
   {
+    mLastBarometerTs = sensorMsr.ts;
+    mLastPressure = sensorMsr.data.values.x;
+
     if (mStoredMeasurements.size() > SIZE_OF_CHUNK)
       mStoredMeasurements.pop_front();
 
diff --git a/src/level_estimator/barometer.h b/src/level_estimator/barometer.h
index fb90a2b..6ac7a83 100644
--- a/src/level_estimator/barometer.h
+++ b/src/level_estimator/barometer.h
@@ -32,6 +32,8 @@ class Barometer
     std::deque<double> mNewMeasurements = {};
     std::deque<double> mStoredMeasurements = {};
 
+    long long mLastBarometerTs = -1;
+    double mLastPressure = 0.0;
     bool mIsInitialized;
     LevelId mLastKnownLevel;
 };
-- 
2.43.0


From 5506c2344664f2eec34e39a34528ff1fcf7a82ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:15 +0000
Subject: [PATCH 15/31] fix: misplaced parenthesis in the vertical offset of
 altitude trilateration

---
 src/trilateration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trilateration.cpp b/src/trilateration.cpp
index f55ee26..5bff23c 100644
--- a/src/trilateration.cpp
+++ b/src/trilateration.cpp
@@ -104,7 +104,7 @@ boost::optional<double> Trilateration::calculateAltitude(const Level& level, con
     for (const auto& msr : radioMsrs)
     {
       Transmitter<XYZPoint> tx = level.transmitter(msr.id);
-      double deltaZ = std::sqrt(pow(msr.distance, 2) - pow((x - tx.point.x), 2 - pow((y - tx.point.y), 2)));
+      double deltaZ = std::sqrt(pow(msr.distance, 2) - pow((x - tx.point.x), 2) - pow((y - tx.point.y), 2));
       if (!std::isnan(deltaZ))
       {
         nanFlag = false;
-- 
2.43.0


From 71d0293197c7514a7e07d65080d255491a8ed988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:15 +0000
Subject: [PATCH 16/31] fix: positions of another level were fitted to the box,
 graph and area of the detected level

---
 src/navigation_client_impl.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/navigation_client_impl.cpp b/src/navigation_client_impl.cpp
index aee6263..f14a1fa 100644
--- a/src/navigation_client_impl.cpp
+++ b/src/navigation_client_impl.cpp
@@ -100,7 +100,9 @@ std::vector<NavigationOutput> NavigationClientImpl::navigate(const std::vector<M
       if (!fusedPos.isEmpty)
         mPrevFusedPosHeading = fusedPos.heading;
 
-      mPosition = mPositionPostprocessor->getProcessedPosition(fusedPos, curTs, motionInfo, level);
+      // the fused position may be an earlier one on another level
+      const Level& fusedLevel = mLevelIndex->hasLevel(fusedPos.levelId) ? mLevelIndex->level(fusedPos.levelId) : level;
+      mPosition = mPositionPostprocessor->getProcessedPosition(fusedPos, curTs, motionInfo, fusedLevel);
       if (!motionInfo.isAzimuthValid) {
         motionInfo.azimuth = - (fusedPos.heading - M_PI_2); // convert from ENU to NED
       }
-- 
2.43.0


From 97270c88ce01e6bb2aeeb8affc4a85f59f67e19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:02 +0000
Subject: [PATCH 17/31] fix: fusing with an unbounded deviation reported a
 position that is not a number

---
 src/position_postprocessor/position_postprocessor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/position_postprocessor/position_postprocessor.cpp b/src/position_postprocessor/position_postprocessor.cpp
index c45e44e..de47b03 100644
--- a/src/position_postprocessor/position_postprocessor.cpp
+++ b/src/position_postprocessor/position_postprocessor.cpp
@@ -1,3 +1,4 @@
+#include <cmath>
 #include <navigine/navigation-core/navigation_settings.h>
 #include "../geometry.h"
 #include "position_postprocessor.h"
@@ -167,6 +168,9 @@ Position PositionPostprocessor::getProcessedPosition(const Position& fusedPositi
   if (fusedPosition.isEmpty)
     return Position(); //TODO error code "fused position is empty!"
 
+  if (!std::isfinite(fusedPosition.x) || !std::isfinite(fusedPosition.y))
+    return Position(); // fusing with an unbounded deviation leaves no position
+
   if (!isInsideMap(fusedPosition, level))
     return Position(); // Position is outside of map!
 
-- 
2.43.0


From d0518e3618e784f8dd2eb828b755a61a427a9835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:26 +0000
Subject: [PATCH 18/31] fix: polynomial fit with a negative time interval
 emptied its sequence and read past it

---
 src/position_postprocessor/polynomial_fit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/position_postprocessor/polynomial_fit.cpp b/src/position_postprocessor/polynomial_fit.cpp
index 296a759..909cfd8 100644
--- a/src/position_postprocessor/polynomial_fit.cpp
+++ b/src/position_postprocessor/polynomial_fit.cpp
@@ -36,7 +36,7 @@ void PolynomialFit::addSequencePoint(double x, double y)
 
 void PolynomialFit::removeOldPoints()
 {
-    while ((mX.back() - mX.front()) > mTimeInterval)
+    while (mX.size() > 1 && (mX.back() - mX.front()) > mTimeInterval)
     {
         mX.pop_front();
         mY.pop_front();
-- 
2.43.0


From 988b81f7703eec83be35268b0e4f38f405598237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:24 +0000
Subject: [PATCH 19/31] fix: Eddystone entries of a log became Wi-Fi ones,
 transmit power and deviation were not read

---
 tools/verification/helpers.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tools/verification/helpers.cpp b/tools/verification/helpers.cpp
index 73ebe23..62c830a 100644
--- a/tools/verification/helpers.cpp
+++ b/tools/verification/helpers.cpp
@@ -22,6 +22,7 @@ NLOHMANN_JSON_SERIALIZE_ENUM(navigine::navigation_core::RadioMeasurementData::Ty
   {navigine::navigation_core::RadioMeasurementData::Type::WIFI, 201},
   {navigine::navigation_core::RadioMeasurementData::Type::BEACON, 203},
   {navigine::navigation_core::RadioMeasurementData::Type::BLUETOOTH, 202},
+  {navigine::navigation_core::RadioMeasurementData::Type::EDDYSTONE, 204},
   {navigine::navigation_core::RadioMeasurementData::Type::WIFI_RTT, 205}
 })
 
@@ -85,6 +86,12 @@ static void from_json(const nlohmann::json& j, RadioMeasurementData& radioMsr)
 
   if (j.count("distance"))
     j.at("distance").get_to(radioMsr.distance);
+
+  if (j.count("power"))
+    j.at("power").get_to(radioMsr.power);
+
+  if (j.count("stddev"))
+    j.at("stddev").get_to(radioMsr.stddev);
 }
 
 static void from_json(const nlohmann::json& j, NmeaMeasurementData& nmeaMsr)
-- 
2.43.0


From 684b26cc2827324601bca14151bbdbe89d19db49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:24 +0000
Subject: [PATCH 20/31] fix: vertices of a route graph were added again for
 their own edges, tearing the graph apart

---
 tools/verification/helpers.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/verification/helpers.cpp b/tools/verification/helpers.cpp
index 62c830a..40f2726 100644
--- a/tools/verification/helpers.cpp
+++ b/tools/verification/helpers.cpp
@@ -443,8 +443,9 @@ std::pair<LevelId, Graph<GeoPoint>> parseGraph(const nlohmann::json& j)
     int v1 = it.first;
     std::set<int> adjacentVertexes = it.second;
     GeoPoint p1 = vertexMap[v1];
-    Graph<GeoPoint>::Vertex vertex1 = graph.addVertex(p1);
-    addedVertices.insert({v1, vertex1});
+    if (addedVertices.find(v1) == addedVertices.end())
+      addedVertices.insert({v1, graph.addVertex(p1)});
+    Graph<GeoPoint>::Vertex vertex1 = addedVertices[v1];
     for (int v2: adjacentVertexes)
     {
       if (addedVertices.find(v2) == addedVertices.end())
-- 
2.43.0


From d69fbc9e50ca00eed8c748de3c34bfc8ed24bc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:24 +0000
Subject: [PATCH 21/31] fix: settings documented as K_neighbors,
 Fuse_gps_border and Use_altitude were not read

---
 tools/verification/helpers.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/verification/helpers.cpp b/tools/verification/helpers.cpp
index 40f2726..312138f 100644
--- a/tools/verification/helpers.cpp
+++ b/tools/verification/helpers.cpp
@@ -196,7 +196,7 @@ static void from_json(const nlohmann::json& j, CommonSettings& commonSettings)
       else if (key == "Use_uniform_sampling")
         j.at(key).get_to(commonSettings.useUniformSampling);
 
-      else if (key == "K")
+      else if (key == "K" || key == "K_neighbors")
         j.at(key).get_to(commonSettings.kNeighbors);
       else if (key == "Use_triangles")
         j.at(key).get_to(commonSettings.useTriangles);
@@ -231,6 +231,8 @@ static void from_json(const nlohmann::json& j, CommonSettings& commonSettings)
       else if (key == "Use_ab_filter")
         j.at(key).get_to(commonSettings.useAbFilter);
 
+      else if (key == "Use_altitude")
+        j.at(key).get_to(commonSettings.useAltitude);
       else if (key == "Use_gps")
         j.at(key).get_to(commonSettings.useGps);
       else if (key == "Use_instant_gps_position")
@@ -256,7 +258,7 @@ static void from_json(const nlohmann::json& j, CommonSettings& commonSettings)
         j.at(key).get_to(commonSettings.minGpsDeviation);
       else if (key == "Maximum_to_accept_gps_measurement")
         j.at(key).get_to(commonSettings.maxGpsDeviation);
-      else if (key == "Fuse_gps_border_m")
+      else if (key == "Fuse_gps_border_m" || key == "Fuse_gps_border")
         j.at(key).get_to(commonSettings.fuseGpsBorderM);
       else if (key == "Position_old_for_fusing_sec")
         j.at(key).get_to(commonSettings.positionIsTooOldSec);
-- 
2.43.0


From 307527081d0f39fb37026c3f4fb7b8683f4e93dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:09 +0000
Subject: [PATCH 22/31] fix: malformed maps and settings aborted, never ended,
 overflowed or read past an array

---
 tools/verification/helpers.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/tools/verification/helpers.cpp b/tools/verification/helpers.cpp
index 312138f..3ad531a 100644
--- a/tools/verification/helpers.cpp
+++ b/tools/verification/helpers.cpp
@@ -359,9 +359,9 @@ GeoPoint removeSame(std::vector<GeoPoint>& allPoints)
 {
   assert(!allPoints.empty());
   GeoPoint p = allPoints.front();
-  auto it = allPoints.begin();
+  auto it = allPoints.erase(allPoints.begin());
 
-  int counter = 0;
+  int counter = 1;
   while (it != allPoints.end())
   {
     if (getGeoDist(*it, p) < GRAPH_SAME_POINTS_GEO_DIST)
@@ -423,7 +423,8 @@ std::pair<LevelId, Graph<GeoPoint>> parseGraph(const nlohmann::json& j)
   std::map<int, std::set<int>> adjset;
   for (std::vector<GeoPoint>& edge: edgesPoints)
   {
-    assert(edge.size() == 2);
+    if (edge.size() != 2)
+      throw std::logic_error("Graph edge does not have two points!");
     GeoPoint p1 = edge[0];
     int v1 = getVertex(p1, vertexMap);
     GeoPoint p2 = edge[1];
@@ -557,9 +558,11 @@ std::pair<LevelId, ReferencePoint<GeoPoint>> parseReferencePoint(const nlohmann:
     for (auto const& pair : distribution)
     {
       nMeas += pair.second;
-      meanRssi += (-pair.first) * pair.second;
-      sumOfSquares += pair.second * pair.first * pair.first;
-      squaredSum += pair.second * pair.first;
+      double rssi = pair.first;
+      double count = pair.second;
+      meanRssi += -rssi * count;
+      sumOfSquares += count * rssi * rssi;
+      squaredSum += count * rssi;
     }
     meanRssi /= nMeas;
     squaredSum *= squaredSum;
@@ -725,7 +728,7 @@ NavigationSettings CreateSettingsFromJson(
   for (const auto& levelSettingsJson: levelsSettingsJson)
   {
     std::string levelId = levelSettingsJson.at("level");
-    navigationSettings.levelsSettings[LevelId(levelId)] = levelSettingsJson.at("settings")[0].get<LevelSettings>();
+    navigationSettings.levelsSettings[LevelId(levelId)] = levelSettingsJson.at("settings").at(0).get<LevelSettings>();
   }
   navigationSettings.commonSettings = j.at("common_settings")[0].get<CommonSettings>();
 
-- 
2.43.0


From 267bec20c1d713c6f426b153cc06a401cdc86f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:09 +0000
Subject: [PATCH 23/31] fix: deeply nested documents overflowed the stack

---
 tools/verification/helpers.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/tools/verification/helpers.cpp b/tools/verification/helpers.cpp
index 3ad531a..d50fd99 100644
--- a/tools/verification/helpers.cpp
+++ b/tools/verification/helpers.cpp
@@ -322,6 +322,26 @@ static void from_json(const nlohmann::json& j, LevelSettings& levelSettings)
 }
 } // nlohmann
 
+// Values of a document are copied and printed recursively
+static nlohmann::json parseDocument(const std::string& text)
+{
+  static const int MAX_DEPTH = 100;
+  return nlohmann::json::parse(text,
+    [](int depth, nlohmann::json::parse_event_t, nlohmann::json&)
+    {
+      if (depth > MAX_DEPTH)
+        throw std::runtime_error("Document is nested too deeply!");
+      return true;
+    });
+}
+
+static nlohmann::json parseDocument(std::istream& is)
+{
+  std::stringstream text;
+  text << is.rdbuf();
+  return parseDocument(text.str());
+}
+
 std::vector<Measurement> GetNavMessages(const std::string& jsonFile)
 {
   std::vector<Measurement> inputs;
@@ -333,7 +353,7 @@ std::vector<Measurement> GetNavMessages(const std::string& jsonFile)
   std::string line;
   while (std::getline(infile, line))
   {
-    auto j = nlohmann::json::parse(line);
+    auto j = parseDocument(line);
     inputs.emplace_back(j.get<Measurement>());
   }
   return inputs;
@@ -614,7 +634,7 @@ GeoLevels ParseGeojson(const std::string& jsonFile, int& errorCode)
 {
   errorCode = 0;
   std::ifstream is(jsonFile);
-  nlohmann::json j = nlohmann::json::parse(is);
+  nlohmann::json j = parseDocument(is);
 
   std::map<LevelId, std::list<Polygon>> levels;
   auto features = j.at("features");
@@ -723,7 +743,7 @@ NavigationSettings CreateSettingsFromJson(
     return navigationSettings;
   }
 
-  nlohmann::json j = nlohmann::json::parse(is);
+  nlohmann::json j = parseDocument(is);
   auto levelsSettingsJson = j.at("level_settings");
   for (const auto& levelSettingsJson: levelsSettingsJson)
   {
-- 
2.43.0


From acec0c6dee628084e5534cd628cf63f831bf221e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:10 +0000
Subject: [PATCH 24/31] fix: a hole without points in an allowed area aborted
 the tree of barriers

---
 src/level_geometry.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/level_geometry.cpp b/src/level_geometry.cpp
index e7603bd..ad55c1d 100644
--- a/src/level_geometry.cpp
+++ b/src/level_geometry.cpp
@@ -11,7 +11,8 @@ LevelGeometry::LevelGeometry(const Multipolygon& allowedArea, const Box& box)
 {
   for (const auto& polygon : mAllowedArea)
     for (const auto& inner : polygon.inners())
-      mInnerBarriers.push_back(inner);
+      if (!inner.empty())
+        mInnerBarriers.push_back(inner);
 
   std::vector<BoxIdx> boxIndices;
   for (std::size_t i = 0; i < mInnerBarriers.size(); i++)
-- 
2.43.0


From ebce65efea48effa5077aaf9ba6a09734efc17f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:48 +0000
Subject: [PATCH 25/31] fix: the standalone pedometer skipped samples when
 updated twice between queries

---
 standalone_algorithms/pedometer/include/pedometer.h | 2 +-
 standalone_algorithms/pedometer/src/pedometer.cpp   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/standalone_algorithms/pedometer/include/pedometer.h b/standalone_algorithms/pedometer/include/pedometer.h
index 9501d03..833ef0e 100644
--- a/standalone_algorithms/pedometer/include/pedometer.h
+++ b/standalone_algorithms/pedometer/include/pedometer.h
@@ -51,7 +51,7 @@ private:
   std::deque<Magnitude>         mFilteredAccMagnitudes; // Array for saving filtered acceleration magnitudes
   std::deque<long long>         mTimes;                 // Array for saving step durations
  
-  std::size_t mMagnitudeSize  =  0;
+  std::size_t mMagnitudeSize  =  1;
   long long   mPossibleStepTs = -1;                     // The time when step possibly occurred (sec in unix)
   long long   mStepTime       = -1;                     // The time when previous step possibly occured (sec in unix)
   bool        mIsStep         = false;                  // We use this variable to mark possible step
diff --git a/standalone_algorithms/pedometer/src/pedometer.cpp b/standalone_algorithms/pedometer/src/pedometer.cpp
index 9624911..5eb8425 100644
--- a/standalone_algorithms/pedometer/src/pedometer.cpp
+++ b/standalone_algorithms/pedometer/src/pedometer.cpp
@@ -22,8 +22,6 @@ namespace {
 
 void Pedometer::update(const std::vector<SensorMeasurement>& msrs)
 {
-  mMagnitudeSize = (std::max)(mFilteredAccMagnitudes.size(), size_t(1));
-
   for (auto msr: msrs)
   {
     mAccelMeasurements.push_back(msr);
@@ -128,6 +126,8 @@ std::deque<Step> Pedometer::calculateSteps()
   while (mTimes.size() > MAXIMUM_NUMBER_OF_STEPS) 
     mTimes.pop_front();  
 
+  mMagnitudeSize = mFilteredAccMagnitudes.size(); // what follows has not been looked at yet
+
   return steps;
 }
 
-- 
2.43.0


From 7d6b03ee6ef6fbad1d27b15725536cc1595b89a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:48 +0000
Subject: [PATCH 26/31] fix: every trilateration was added to the one before

---
 standalone_algorithms/trilateteration/src/trilateration.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/standalone_algorithms/trilateteration/src/trilateration.cpp b/standalone_algorithms/trilateteration/src/trilateration.cpp
index e6d2ede..ce1b547 100644
--- a/standalone_algorithms/trilateteration/src/trilateration.cpp
+++ b/standalone_algorithms/trilateteration/src/trilateration.cpp
@@ -173,6 +173,8 @@ void Trilateration::printXyToFile( char* filename ) const
 
 int Trilateration::calculateTrilaterationCoordinates()
 {
+  mXY.assign( 2, 0.0 );
+
   double normalizeCoefficient = 0.0;
   //take revert values, because lower is the distance, greater the weight gets
   for (unsigned int i = 0; i < mBeaconMeas.size(); i++)
-- 
2.43.0


From fbb8f9929143bb383cb77eb708b1b9e300d4880d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:48 +0000
Subject: [PATCH 27/31] fix: the averaged distance of a repeated beacon was not
 used

---
 standalone_algorithms/trilateteration/src/trilateration.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/standalone_algorithms/trilateteration/src/trilateration.cpp b/standalone_algorithms/trilateteration/src/trilateration.cpp
index ce1b547..a384c16 100644
--- a/standalone_algorithms/trilateteration/src/trilateration.cpp
+++ b/standalone_algorithms/trilateteration/src/trilateration.cpp
@@ -266,6 +266,7 @@ int Trilateration::deleteDuplicateMeasurements( vector<BeaconMeas>& beaconMeas )
     distance /= (std::max)(nOfMeasFromSameAp, 1);
      
     itBeaconMeas->setRssi( rssi );
+    itBeaconMeas->setDistance( distance );
   }
 
   if (beaconMeas.size() < 3)
-- 
2.43.0


From b456c9be1bb6d7c9c1cc280ac7ecff6511370c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:48 +0000
Subject: [PATCH 28/31] fix: a beacon at distance zero made the trilateration
 not a number

---
 .../trilateteration/src/trilateration.cpp                  | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/standalone_algorithms/trilateteration/src/trilateration.cpp b/standalone_algorithms/trilateteration/src/trilateration.cpp
index a384c16..3c526ad 100644
--- a/standalone_algorithms/trilateteration/src/trilateration.cpp
+++ b/standalone_algorithms/trilateteration/src/trilateration.cpp
@@ -175,10 +175,11 @@ int Trilateration::calculateTrilaterationCoordinates()
 {
   mXY.assign( 2, 0.0 );
 
+  const double minDistance = 1e-6; // a beacon at no distance has the greatest finite weight
   double normalizeCoefficient = 0.0;
   //take revert values, because lower is the distance, greater the weight gets
   for (unsigned int i = 0; i < mBeaconMeas.size(); i++)
-    normalizeCoefficient += 1.0 / fabs( mBeaconMeas[ i ].getDistance() );
+    normalizeCoefficient += 1.0 / (std::max)( fabs( mBeaconMeas[ i ].getDistance() ), minDistance );
 
   vector <double> weight( mBeaconMeas.size(), 0.0 );
 
@@ -191,8 +192,8 @@ int Trilateration::calculateTrilaterationCoordinates()
       return ERROR_IN_TRILATER;
     }
     // calculate probability of being at beacons x,y coordinates
-    weight[ i ] += 1.0 / (fabs( mBeaconMeas[ i ].getDistance() *
-      normalizeCoefficient ));
+    weight[ i ] += 1.0 / ((std::max)( fabs( mBeaconMeas[ i ].getDistance() ), minDistance ) *
+      normalizeCoefficient );
 
     double beaconX = 0, beaconY = 0.;
     beaconX = mBeaconMeas[ i ].getBeaconPtr()->getX();
-- 
2.43.0


From d326b2e24ed3b1b2852cfaa4613615f4c9e2baf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:48 +0000
Subject: [PATCH 29/31] fix: the distance of a new measurement was left
 unwritten

---
 standalone_algorithms/trilateteration/src/beacon.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/standalone_algorithms/trilateteration/src/beacon.cpp b/standalone_algorithms/trilateteration/src/beacon.cpp
index 9482fea..4508db1 100644
--- a/standalone_algorithms/trilateteration/src/beacon.cpp
+++ b/standalone_algorithms/trilateteration/src/beacon.cpp
@@ -173,6 +173,7 @@ void IBeacon::setUuid( const char * uuid )
 BeaconMeas::BeaconMeas()
 : mBeaconPtr (0)
 , mRssi      (TRANSMITTER_POINT_UNUSED)
+, mDistance  (-1.0)
 {
 
 }
-- 
2.43.0


From ffb1941039c065080c46a8e6d065d9d69a6b9155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:36 +0000
Subject: [PATCH 30/31] fix: measurements without a finite distance made
 sorting run over its ends

---
 standalone_algorithms/trilateteration/src/trilateration.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/standalone_algorithms/trilateteration/src/trilateration.cpp b/standalone_algorithms/trilateteration/src/trilateration.cpp
index 3c526ad..ad6d98a 100644
--- a/standalone_algorithms/trilateteration/src/trilateration.cpp
+++ b/standalone_algorithms/trilateteration/src/trilateration.cpp
@@ -10,6 +10,7 @@
 #endif
 
 #include <algorithm>
+#include <cmath>
 
 #include "trilateration.h"
 
@@ -232,9 +233,9 @@ int Trilateration::deleteDuplicateMeasurements( vector<BeaconMeas>& beaconMeas )
     {
       nOfMeasFromSameAp++;
 
-      if ( it->getDistance() < 0)
+      if ( !std::isfinite( it->getDistance() ) || it->getDistance() < 0)
       {
-        printf( "beacon id = %s distance = %lf < 0\n", 
+        printf( "beacon id = %s distance = %lf is not a distance\n", 
                 it->getBeaconId(), it->getDistance() );
       
         return ERROR_IN_TRILATER;
-- 
2.43.0


From d550ea23023215290d95642449265ab0c74f3867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:45 +0000
Subject: [PATCH 31/31] fix: a level without fingerprints made KNN navigation
 throw

---
 src/knn/knn_utils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/knn/knn_utils.cpp b/src/knn/knn_utils.cpp
index 4b8edd3..9a12171 100644
--- a/src/knn/knn_utils.cpp
+++ b/src/knn/knn_utils.cpp
@@ -121,6 +121,7 @@ std::map<LevelId, std::set<TransmitterId>> getLevelReferenceTransmittersMap(cons
   for (const auto& level : levelCollector->levels())
   {
     const LevelId levelId = level.id();
+    levelTransmitters[levelId]; // a level without fingerprints has no transmitters, but is known
     for (const ReferencePoint<XYPoint>& rp : level.radiomap().referencePoints())
     {
       const std::map<TransmitterId, SignalStatistics>& rpFingerprint = rp.fingerprints;
-- 
2.43.0

