From 36d828daf4b41041b4c9c050b909a8544ee6ef48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 01/83] fix: do not double-count released unit-hydrograph water
 in GR internal_storage

---
 core/src/processes/ProcessRoutingGR4J.cpp | 10 ++++++++--
 core/src/processes/ProcessRoutingGR6J.cpp | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/core/src/processes/ProcessRoutingGR4J.cpp b/core/src/processes/ProcessRoutingGR4J.cpp
index d6ad324..c190de3 100644
--- a/core/src/processes/ProcessRoutingGR4J.cpp
+++ b/core/src/processes/ProcessRoutingGR4J.cpp
@@ -170,8 +170,14 @@ void ProcessRoutingGR4J::Finalize() {
     _r -= _qr;
     _qd = std::max(0.0, _stuh2[0] + F);
 
-    _processStorage = _r + std::accumulate(_stuh1.begin(), _stuh1.end(), 0.0) +
-                      std::accumulate(_stuh2.begin(), _stuh2.end(), 0.0);
+    // The first ordinate was released into the stores (UH1) or to the outlet (UH2) during this step.
+    _processStorage = _r;
+    for (size_t j = 1; j < _stuh1.size(); ++j) {
+        _processStorage += _stuh1[j];
+    }
+    for (size_t j = 1; j < _stuh2.size(); ++j) {
+        _processStorage += _stuh2[j];
+    }
 }
 
 void ProcessRoutingGR4J::_recomputeUH() {
diff --git a/core/src/processes/ProcessRoutingGR6J.cpp b/core/src/processes/ProcessRoutingGR6J.cpp
index fc8094e..af33221 100644
--- a/core/src/processes/ProcessRoutingGR6J.cpp
+++ b/core/src/processes/ProcessRoutingGR6J.cpp
@@ -213,8 +213,14 @@ void ProcessRoutingGR6J::Finalize() {
     // Direct branch.
     _qd = std::max(0.0, uh2_out + F);
 
-    _processStorage = _r + _rexp + std::accumulate(_stuh1.begin(), _stuh1.end(), 0.0) +
-                      std::accumulate(_stuh2.begin(), _stuh2.end(), 0.0);
+    // The first ordinate was released into the stores (UH1) or to the outlet (UH2) during this step.
+    _processStorage = _r + _rexp;
+    for (size_t j = 1; j < _stuh1.size(); ++j) {
+        _processStorage += _stuh1[j];
+    }
+    for (size_t j = 1; j < _stuh2.size(); ++j) {
+        _processStorage += _stuh2[j];
+    }
 }
 
 void ProcessRoutingGR6J::_recomputeUH() {
-- 
2.43.0


From 27c7c4142233afe27e94df05a2da762ae376c42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 02/83] fix: do not count twice the inputs of directly computed
 bricks in the storage constraints

---
 core/src/base/Processor.cpp            | 5 +++--
 core/src/containers/IceContainer.cpp   | 4 ++--
 core/src/containers/IceContainer.h     | 2 +-
 core/src/containers/WaterContainer.cpp | 9 ++++-----
 core/src/containers/WaterContainer.h   | 4 +++-
 5 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/core/src/base/Processor.cpp b/core/src/base/Processor.cpp
index bb83db0..87e55de 100644
--- a/core/src/base/Processor.cpp
+++ b/core/src/base/Processor.cpp
@@ -307,8 +307,9 @@ void Processor::ApplyDirectChanges(Brick* brick, int& ptIndex, double timeStepIn
             iRateCopy++;
         }
 
-        // Apply constraints for the current brick (e.g. maximum capacity or avoid negative values)
-        process->GetWaterContainer()->ApplyConstraints(timeStepInDays);
+        // Apply constraints for the current brick (e.g. maximum capacity or avoid negative values). The
+        // inputs are part of the content already (UpdateContentFromInputs), so they must not be counted twice.
+        process->GetWaterContainer()->ApplyConstraints(timeStepInDays, true);
 
         // Apply changes
         for (int j = 0; j < rates.size(); ++j) {
diff --git a/core/src/containers/IceContainer.cpp b/core/src/containers/IceContainer.cpp
index 8b6de7d..3765432 100644
--- a/core/src/containers/IceContainer.cpp
+++ b/core/src/containers/IceContainer.cpp
@@ -7,7 +7,7 @@ IceContainer::IceContainer(Brick* brick)
       _noMeltWhenSnowCover(false),
       _relatedSnowpack(nullptr) {}
 
-void IceContainer::ApplyConstraints(double timeStep) {
+void IceContainer::ApplyConstraints(double timeStep, bool inputsInContent) {
     if (_noMeltWhenSnowCover) {
         if (_relatedSnowpack == nullptr) {
             throw ModelConfigError("No snowpack provided for the glacier melt limitation.");
@@ -16,7 +16,7 @@ void IceContainer::ApplyConstraints(double timeStep) {
             SetOutgoingRatesToZero();
         }
     }
-    WaterContainer::ApplyConstraints(timeStep);
+    WaterContainer::ApplyConstraints(timeStep, inputsInContent);
 }
 
 bool IceContainer::ContentAccessible() const {
diff --git a/core/src/containers/IceContainer.h b/core/src/containers/IceContainer.h
index 543a8aa..3facfca 100644
--- a/core/src/containers/IceContainer.h
+++ b/core/src/containers/IceContainer.h
@@ -14,7 +14,7 @@ class IceContainer : public WaterContainer {
     /**
      * @copydoc WaterContainer::ApplyConstraints()
      */
-    void ApplyConstraints(double timeStep) override;
+    void ApplyConstraints(double timeStep, bool inputsInContent = false) override;
 
     /**
      * Set the option to not melt when snow cover is present.
diff --git a/core/src/containers/WaterContainer.cpp b/core/src/containers/WaterContainer.cpp
index 5599f4d..a21c639 100644
--- a/core/src/containers/WaterContainer.cpp
+++ b/core/src/containers/WaterContainer.cpp
@@ -1,7 +1,6 @@
 #include "WaterContainer.h"
 
 #include "Brick.h"
-#include "FluxToBrickInstantaneous.h"
 
 WaterContainer::WaterContainer(Brick* brick)
     : _content(0),
@@ -52,7 +51,7 @@ void WaterContainer::AddAmountToStaticContentChange(double change) {
     _contentChangeStatic += change;
 }
 
-void WaterContainer::ApplyConstraints(double timeStep) {
+void WaterContainer::ApplyConstraints(double timeStep, bool inputsInContent) {
     if (_infiniteStorage) return;
 
     // Change rates are quantities per unit time: the content update integrates them over the
@@ -95,8 +94,8 @@ void WaterContainer::ApplyConstraints(double timeStep) {
     double inputs = 0;
     double inputsStatic = 0;
     for (auto& input : _inputs) {
-        if (input->IsInstantaneous()) {
-            inputsStatic += dynamic_cast<FluxToBrickInstantaneous*>(input)->GetRealAmount();
+        if (inputsInContent || input->IsInstantaneous()) {
+            // Already part of the content (the instantaneous fluxes are added to its static changes).
             continue;
         }
         if (input->IsForcing() || input->IsStatic()) {
@@ -119,7 +118,7 @@ void WaterContainer::ApplyConstraints(double timeStep) {
     }
 
     double change = inputs - outputs;
-    double content = GetContentWithDynamicChanges();
+    double content = GetContentWithChanges();
 
     // Avoid negative content (unless the container is allowed to go negative, e.g. a bottomless
     // routing store whose level can be negative).
diff --git a/core/src/containers/WaterContainer.h b/core/src/containers/WaterContainer.h
index 36bec2d..d4b9f49 100644
--- a/core/src/containers/WaterContainer.h
+++ b/core/src/containers/WaterContainer.h
@@ -52,8 +52,10 @@ class WaterContainer {
      * Apply the constraints to the water container.
      *
      * @param timeStep time step [s]
+     * @param inputsInContent true if the inputs of the time step were already added to the content (bricks computed
+     * directly), so that they are not counted twice.
      */
-    virtual void ApplyConstraints(double timeStep);
+    virtual void ApplyConstraints(double timeStep, bool inputsInContent = false);
 
     /**
      * Set the outgoing rates to zero.
-- 
2.43.0


From d2e6ae559afb0d79565baed2e6dfe3ffd3b4e83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 03/83] fix: accept sub-daily forcing whose last date is not
 exactly representable

---
 core/src/base/TimeSeriesData.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/base/TimeSeriesData.cpp b/core/src/base/TimeSeriesData.cpp
index 42b7ee5..3251df0 100644
--- a/core/src/base/TimeSeriesData.cpp
+++ b/core/src/base/TimeSeriesData.cpp
@@ -2,6 +2,8 @@
 
 #include <utility>
 
+#include "TimeConstants.h"
+
 /*
  * TimeSeriesData
  */
@@ -39,7 +41,8 @@ TimeSeriesDataRegular::TimeSeriesDataRegular(double start, double end, int timeS
 
 bool TimeSeriesDataRegular::SetValues(vecDouble values) {
     double calcEnd = IncrementDateBy(_start, _timeStep * static_cast<int>(values.size() - 1), _timeStepUnit);
-    if (calcEnd != _end) {
+    // The dates are not exactly representable for sub-daily time steps: compare them to the second.
+    if (std::abs(calcEnd - _end) > 0.5 / SECONDS_PER_DAY_D) {
         LogError("The size of the time series data does not match the time properties.");
         LogError("End of the data ({}) != end of the dates ({}).", calcEnd, _end);
         return false;
-- 
2.43.0


From a160aa4e30239858053913c19cc011f6744c036a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 04/83] fix: position the forcing cursor with the time step of
 the data

---
 core/src/base/TimeSeriesData.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/src/base/TimeSeriesData.cpp b/core/src/base/TimeSeriesData.cpp
index 3251df0..4a7dde9 100644
--- a/core/src/base/TimeSeriesData.cpp
+++ b/core/src/base/TimeSeriesData.cpp
@@ -79,17 +79,18 @@ bool TimeSeriesDataRegular::SetCursorToDate(double date) {
         return false;
     }
 
-    double dt = date - _start;
+    // Tolerance of half a second, as the dates are not exactly representable for sub-daily time steps.
+    double dt = date - _start + 0.5 / SECONDS_PER_DAY_D;
 
     switch (_timeStepUnit) {
         case TimeUnit::Day:
-            _cursor = static_cast<int>(dt);
+            _cursor = static_cast<int>(dt / _timeStep);
             break;
         case TimeUnit::Hour:
-            _cursor = static_cast<int>(dt) * 24;
+            _cursor = static_cast<int>(dt * 24 / _timeStep);
             break;
         case TimeUnit::Minute:
-            _cursor = static_cast<int>(dt) * 1440;
+            _cursor = static_cast<int>(dt * 1440 / _timeStep);
             break;
         default:
             throw NotImplemented(std::format("TimeSeriesDataRegular::SetCursorToDate - Time unit {} not supported",
-- 
2.43.0


From 58aa18855626cea40abbf7971201dad47b74890d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 05/83] fix: keep the simulation clock free of accumulated
 rounding errors

---
 core/src/base/TimeMachine.cpp | 17 ++++++++++++++---
 core/src/base/TimeMachine.h   |  1 +
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/core/src/base/TimeMachine.cpp b/core/src/base/TimeMachine.cpp
index 4e3e0d1..0ca1048 100644
--- a/core/src/base/TimeMachine.cpp
+++ b/core/src/base/TimeMachine.cpp
@@ -1,9 +1,15 @@
 #include "TimeMachine.h"
 
+#include "TimeConstants.h"
+
+// Tolerance on the dates [days] (half a second), as they are not exactly representable for sub-daily time steps.
+static constexpr double DATE_TOLERANCE = 0.5 / SECONDS_PER_DAY_D;
+
 TimeMachine::TimeMachine()
     : _date(0),
       _start(0),
       _end(0),
+      _stepCount(0),
       _timeStep(0),
       _timeStepUnit(TimeUnit::Day),
       _timeStepInDays(0),
@@ -14,6 +20,7 @@ void TimeMachine::Initialize(double start, double end, int timeStep, TimeUnit ti
     _date = start;
     _start = start;
     _end = end;
+    _stepCount = 0;
     _timeStep = timeStep;
     _timeStepUnit = timeStepUnit;
     UpdateTimeStepInDays();
@@ -23,6 +30,7 @@ void TimeMachine::Initialize(const TimerSettings& settings) {
     _start = ParseDate(settings.start, guess);
     _end = ParseDate(settings.end, guess);
     _date = _start;
+    _stepCount = 0;
     _timeStep = settings.timeStep;
 
     if (settings.timeStepUnit == "day") {
@@ -40,15 +48,18 @@ void TimeMachine::Initialize(const TimerSettings& settings) {
 
 void TimeMachine::Reset() {
     _date = _start;
+    _stepCount = 0;
 }
 
 bool TimeMachine::IsOver() const {
-    return _date > _end;
+    return _date > _end + DATE_TOLERANCE;
 }
 
 void TimeMachine::IncrementTime() {
     assert(_timeStepInDays > 0);
-    _date += _timeStepInDays;
+    // Computed from the start date in order not to accumulate rounding errors.
+    _stepCount++;
+    _date = _start + _stepCount * _timeStepInDays;
 
     if (_parametersUpdater) {
         _parametersUpdater->DateUpdate(_date);
@@ -60,7 +71,7 @@ void TimeMachine::IncrementTime() {
 
 int TimeMachine::GetTimeStepCount() const {
     assert(_timeStepInDays > 0);
-    return static_cast<int>(1 + (_end - _start) / _timeStepInDays);
+    return static_cast<int>(1 + (_end - _start + DATE_TOLERANCE) / _timeStepInDays);
 }
 
 void TimeMachine::UpdateTimeStepInDays() {
diff --git a/core/src/base/TimeMachine.h b/core/src/base/TimeMachine.h
index 3673196..ebcab0c 100644
--- a/core/src/base/TimeMachine.h
+++ b/core/src/base/TimeMachine.h
@@ -134,6 +134,7 @@ class TimeMachine {
     double _date;
     double _start;
     double _end;
+    int _stepCount;
     int _timeStep;
     TimeUnit _timeStepUnit;
     double _timeStepInDays;
-- 
2.43.0


From 563d8c159a5906a635c5bc06201f601dafd20940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 06/83] fix: convert slopes given as 'degree' or with the
 degree sign

---
 core/src/spatial/HydroUnitProperty.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/spatial/HydroUnitProperty.cpp b/core/src/spatial/HydroUnitProperty.cpp
index 0f329ff..235536b 100644
--- a/core/src/spatial/HydroUnitProperty.cpp
+++ b/core/src/spatial/HydroUnitProperty.cpp
@@ -21,7 +21,7 @@ double HydroUnitProperty::GetValue(std::string_view unit) const {
         return _value;
     }
     if (_unit == "degrees" || _unit == "degree" || _unit == "deg" || _unit == "°") {
-        if (unit == "degrees" || _unit == "degree" || unit == "deg" || _unit == "°") {
+        if (unit == "degrees" || unit == "degree" || unit == "deg" || unit == "°") {
             return _value;
         }
         if (unit == "radians" || unit == "rad") {
-- 
2.43.0


From 402dec0ee7956a383330dd29a759350a0fc1cc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 07/83] fix: read the time of NetCDF forcing in double
 precision and refuse inconsistent axes

---
 core/src/base/TimeSeries.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/core/src/base/TimeSeries.cpp b/core/src/base/TimeSeries.cpp
index c5bf0ee..b283116 100644
--- a/core/src/base/TimeSeries.cpp
+++ b/core/src/base/TimeSeries.cpp
@@ -21,8 +21,8 @@ bool TimeSeries::Parse(const string& path, vector<std::unique_ptr<TimeSeries>>&
         // Get time length
         int timeLength = file.GetDimLen("time");
 
-        // Get time
-        vecFloat time = file.GetVarFloat1D("time", timeLength);
+        // Get time (the dates need the double precision for sub-daily time steps)
+        vecDouble time = file.GetVarDouble1D("time", timeLength);
         Time startSt = GetTimeStructFromMJD(time[0]);
         Time endSt = GetTimeStructFromMJD(time[time.size() - 1]);
         double start = GetMJD(startSt.year, startSt.month, startSt.day, startSt.hour, startSt.min);
@@ -64,7 +64,10 @@ bool TimeSeries::Parse(const string& path, vector<std::unique_ptr<TimeSeries>>&
                 for (int i = 0; i < values.rows(); ++i) {
                     axd valuesUnit = values.row(i);
                     auto forcingData = std::make_unique<TimeSeriesDataRegular>(start, end, timeStep, timeUnit);
-                    forcingData->SetValues(vector<double>(valuesUnit.data(), valuesUnit.data() + valuesUnit.rows()));
+                    if (!forcingData->SetValues(
+                            vector<double>(valuesUnit.data(), valuesUnit.data() + valuesUnit.rows()))) {
+                        return false;
+                    }
                     timeSeries->AddData(std::move(forcingData), ids[i]);
                 }
             } else {
@@ -73,7 +76,9 @@ bool TimeSeries::Parse(const string& path, vector<std::unique_ptr<TimeSeries>>&
                     // A column of a column-major array is contiguous, so copy it straight into the vector.
                     const double* colStart = values.col(i).data();
                     auto forcingData = std::make_unique<TimeSeriesDataRegular>(start, end, timeStep, timeUnit);
-                    forcingData->SetValues(vecDouble(colStart, colStart + values.rows()));
+                    if (!forcingData->SetValues(vecDouble(colStart, colStart + values.rows()))) {
+                        return false;
+                    }
                     timeSeries->AddData(std::move(forcingData), ids[i]);
                 }
             }
-- 
2.43.0


From a9f65f9a04ddef950b95e88a02b9228c23534a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 08/83] fix: refuse forcing with less than two dates instead of
 reading past its end

---
 core/src/base/TimeSeries.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/src/base/TimeSeries.cpp b/core/src/base/TimeSeries.cpp
index b283116..5c661d0 100644
--- a/core/src/base/TimeSeries.cpp
+++ b/core/src/base/TimeSeries.cpp
@@ -20,6 +20,9 @@ bool TimeSeries::Parse(const string& path, vector<std::unique_ptr<TimeSeries>>&
 
         // Get time length
         int timeLength = file.GetDimLen("time");
+        if (timeLength < 2) {
+            throw InputError("The forcing data must contain at least two time steps.");
+        }
 
         // Get time (the dates need the double precision for sub-daily time steps)
         vecDouble time = file.GetVarDouble1D("time", timeLength);
@@ -96,6 +99,10 @@ bool TimeSeries::Parse(const string& path, vector<std::unique_ptr<TimeSeries>>&
 
 std::unique_ptr<TimeSeries> TimeSeries::Create(const string& varName, const axd& time, const axi& ids,
                                                const axxd& data) {
+    if (time.size() < 2) {
+        throw InputError("The forcing data must contain at least two time steps.");
+    }
+
     // Get time
     Time startSt = GetTimeStructFromMJD(time[0]);
     Time endSt = GetTimeStructFromMJD(time[time.size() - 1]);
-- 
2.43.0


From 5808569fb1229917d0e021fed62708e9a8a473c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 09/83] fix: convert slopes given in m/m, percent or radians to
 the requested unit

---
 core/src/spatial/HydroUnitProperty.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/core/src/spatial/HydroUnitProperty.cpp b/core/src/spatial/HydroUnitProperty.cpp
index 235536b..5f5164b 100644
--- a/core/src/spatial/HydroUnitProperty.cpp
+++ b/core/src/spatial/HydroUnitProperty.cpp
@@ -20,18 +20,29 @@ double HydroUnitProperty::GetValue(std::string_view unit) const {
     if (_unit == unit) {
         return _value;
     }
+    // Angles and slopes
+    double degrees = NAN_D;
     if (_unit == "degrees" || _unit == "degree" || _unit == "deg" || _unit == "°") {
+        degrees = _value;
+    } else if (_unit == "radians" || _unit == "rad") {
+        degrees = _value * 180.0 / constants::pi;
+    } else if (_unit == "percent" || _unit == "%") {
+        degrees = atan(_value / 100) * 180.0 / constants::pi;
+    } else if (_unit == "m/m" || _unit == "m_per_m") {
+        degrees = atan(_value) * 180.0 / constants::pi;
+    }
+    if (!std::isnan(degrees)) {
         if (unit == "degrees" || unit == "degree" || unit == "deg" || unit == "°") {
-            return _value;
+            return degrees;
         }
         if (unit == "radians" || unit == "rad") {
-            return _value * constants::pi / 180.0;
+            return degrees * constants::pi / 180.0;
         }
         if (unit == "percent" || unit == "%") {
-            return 100 * tan(_value * constants::pi / 180.0);
+            return 100 * tan(degrees * constants::pi / 180.0);
         }
         if (unit == "m/m" || unit == "m_per_m") {
-            return tan(_value * constants::pi / 180.0);
+            return tan(degrees * constants::pi / 180.0);
         }
     }
     if (_unit == "m2" || _unit == "m^2") {
-- 
2.43.0


From 8c956469d6e1af0f6de2c7187532ae093b09b5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:11 +0000
Subject: [PATCH 10/83] fix: refuse forcing whose time step differs from the
 model's

---
 core/src/base/ModelHydro.cpp            |  5 +++++
 core/src/base/TimeSeries.h              |  8 ++++++++
 core/src/base/TimeSeriesData.cpp        |  4 ++++
 core/src/base/TimeSeriesData.h          | 15 +++++++++++++++
 core/src/base/TimeSeriesDistributed.cpp |  5 +++++
 core/src/base/TimeSeriesDistributed.h   |  5 +++++
 core/src/base/TimeSeriesUniform.cpp     |  5 +++++
 core/src/base/TimeSeriesUniform.h       |  5 +++++
 8 files changed, 52 insertions(+)

diff --git a/core/src/base/ModelHydro.cpp b/core/src/base/ModelHydro.cpp
index 369a304..d72c865 100644
--- a/core/src/base/ModelHydro.cpp
+++ b/core/src/base/ModelHydro.cpp
@@ -276,6 +276,11 @@ bool ModelHydro::AddTimeSeries(std::unique_ptr<TimeSeries> timeSeries) {
         }
     }
 
+    if (!timeSeries->HasTimeStep(*_timer.GetTimeStepPointer())) {
+        LogError("The time step of the data is different from the time step of the model.");
+        return false;
+    }
+
     if (timeSeries->GetStart() > _timer.GetStart()) {
         LogError("The data starts after the beginning of the modelling period.");
         return false;
diff --git a/core/src/base/TimeSeries.h b/core/src/base/TimeSeries.h
index a5c7384..36b071f 100644
--- a/core/src/base/TimeSeries.h
+++ b/core/src/base/TimeSeries.h
@@ -69,6 +69,14 @@ class TimeSeries {
      */
     [[nodiscard]] virtual double GetEnd() const = 0;
 
+    /**
+     * Check that the time step of the time series corresponds to the provided one.
+     *
+     * @param timeStepInDays time step to compare to [days].
+     * @return true if the time steps are the same.
+     */
+    [[nodiscard]] virtual bool HasTimeStep(double timeStepInDays) const = 0;
+
     /**
      * Get the sum of the time series data for the provided basin settings.
      *
diff --git a/core/src/base/TimeSeriesData.cpp b/core/src/base/TimeSeriesData.cpp
index 4a7dde9..2b6f78e 100644
--- a/core/src/base/TimeSeriesData.cpp
+++ b/core/src/base/TimeSeriesData.cpp
@@ -118,6 +118,10 @@ double TimeSeriesDataRegular::GetEnd() const {
     return _end;
 }
 
+bool TimeSeriesDataRegular::HasTimeStep(double timeStepInDays) const {
+    return std::abs(IncrementDateBy(0, _timeStep, _timeStepUnit) - timeStepInDays) < 0.5 / SECONDS_PER_DAY_D;
+}
+
 bool TimeSeriesDataRegular::IsValid() const {
     // Check that values have been set
     if (_values.empty()) {
diff --git a/core/src/base/TimeSeriesData.h b/core/src/base/TimeSeriesData.h
index a33cafe..0ab51bb 100644
--- a/core/src/base/TimeSeriesData.h
+++ b/core/src/base/TimeSeriesData.h
@@ -68,6 +68,16 @@ class TimeSeriesData {
      */
     [[nodiscard]] virtual double GetEnd() const = 0;
 
+    /**
+     * Check that the time step of the time series data corresponds to the provided one.
+     *
+     * @param timeStepInDays time step to compare to [days].
+     * @return true if the time steps are the same.
+     */
+    [[nodiscard]] virtual bool HasTimeStep(double) const {
+        return true;
+    }
+
     /**
      * Check if the time series data is valid.
      * Verifies that the data has values and date range is set correctly.
@@ -135,6 +145,11 @@ class TimeSeriesDataRegular : public TimeSeriesData {
      */
     double GetEnd() const override;
 
+    /**
+     * @copydoc TimeSeriesData::HasTimeStep()
+     */
+    bool HasTimeStep(double timeStepInDays) const override;
+
     /**
      * @copydoc TimeSeriesData::IsValid()
      */
diff --git a/core/src/base/TimeSeriesDistributed.cpp b/core/src/base/TimeSeriesDistributed.cpp
index a3c3bd9..f5b05ff 100644
--- a/core/src/base/TimeSeriesDistributed.cpp
+++ b/core/src/base/TimeSeriesDistributed.cpp
@@ -41,6 +41,11 @@ double TimeSeriesDistributed::GetEnd() const {
     return _data[0]->GetEnd();
 }
 
+bool TimeSeriesDistributed::HasTimeStep(double timeStepInDays) const {
+    return std::all_of(_data.begin(), _data.end(),
+                       [timeStepInDays](const auto& data) { return data->HasTimeStep(timeStepInDays); });
+}
+
 double TimeSeriesDistributed::GetTotal(const SettingsBasin* basinSettings) {
     double total = 0;
     double areaTotal = basinSettings->GetTotalArea();
diff --git a/core/src/base/TimeSeriesDistributed.h b/core/src/base/TimeSeriesDistributed.h
index b457871..2949c79 100644
--- a/core/src/base/TimeSeriesDistributed.h
+++ b/core/src/base/TimeSeriesDistributed.h
@@ -47,6 +47,11 @@ class TimeSeriesDistributed : public TimeSeries {
      */
     [[nodiscard]] double GetEnd() const override;
 
+    /**
+     * @copydoc TimeSeries::HasTimeStep()
+     */
+    [[nodiscard]] bool HasTimeStep(double timeStepInDays) const override;
+
     /**
      * @copydoc TimeSeries::GetTotal()
      */
diff --git a/core/src/base/TimeSeriesUniform.cpp b/core/src/base/TimeSeriesUniform.cpp
index a4b884c..a4ba540 100644
--- a/core/src/base/TimeSeriesUniform.cpp
+++ b/core/src/base/TimeSeriesUniform.cpp
@@ -34,6 +34,11 @@ double TimeSeriesUniform::GetEnd() const {
     return _data->GetEnd();
 }
 
+bool TimeSeriesUniform::HasTimeStep(double timeStepInDays) const {
+    assert(_data);
+    return _data->HasTimeStep(timeStepInDays);
+}
+
 double TimeSeriesUniform::GetTotal(const SettingsBasin*) {
     throw NotImplemented("TimeSeriesUniform::GetTotal - Not yet implemented");
 }
diff --git a/core/src/base/TimeSeriesUniform.h b/core/src/base/TimeSeriesUniform.h
index 8126e99..597009e 100644
--- a/core/src/base/TimeSeriesUniform.h
+++ b/core/src/base/TimeSeriesUniform.h
@@ -49,6 +49,11 @@ class TimeSeriesUniform : public TimeSeries {
      */
     [[nodiscard]] double GetEnd() const override;
 
+    /**
+     * @copydoc TimeSeries::HasTimeStep()
+     */
+    [[nodiscard]] bool HasTimeStep(double timeStepInDays) const override;
+
     /**
      * @copydoc TimeSeries::GetTotal()
      */
-- 
2.43.0


From 043f9174c500ccf7a9f852a9be12713328c339f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 11/83] fix: no undefined ice content for glaciers with an
 initial area of zero

---
 core/src/actions/ActionGlacierEvolutionAreaScaling.cpp | 5 ++++-
 core/src/actions/ActionGlacierEvolutionDeltaH.cpp      | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
index 119a76f..ef5be1b 100644
--- a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
+++ b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
@@ -59,7 +59,10 @@ bool ActionGlacierEvolutionAreaScaling::Init() {
             LogError("The land cover {} was not found in hydro unit {}", _landCoverName, id);
             return false;
         }
-        double iceWE = _tableVolume(0, i) * constants::iceDensity / areaRef;
+        double iceWE = 0;
+        if (!NearlyZero(areaRef, PRECISION)) {
+            iceWE = _tableVolume(0, i) * constants::iceDensity / areaRef;
+        }
         brick->UpdateContent(iceWE, ContentType::Ice);
         brick->SetInitialState(iceWE, ContentType::Ice);
     }
diff --git a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
index ea2f6f7..66c512a 100644
--- a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
+++ b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
@@ -61,7 +61,10 @@ bool ActionGlacierEvolutionDeltaH::Init() {
             LogError("The land cover {} was not found in hydro unit {}", _landCoverName, id);
             return false;
         }
-        double iceWE = _tableVolume(0, i) * constants::iceDensity / areaRef;
+        double iceWE = 0;
+        if (!NearlyZero(areaRef, PRECISION)) {
+            iceWE = _tableVolume(0, i) * constants::iceDensity / areaRef;
+        }
         brick->UpdateContent(iceWE, ContentType::Ice);
         brick->SetInitialState(iceWE, ContentType::Ice);
     }
-- 
2.43.0


From f2bc46fc84f11a53940bfdd097c8846327a06697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 12/83] fix: apply recurring actions once for each of their
 dates, whatever the time step

---
 core/src/actions/Action.cpp         | 12 +++---------
 core/src/actions/ActionsManager.cpp | 20 ++++++++++++++------
 core/src/actions/ActionsManager.h   |  1 +
 3 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/core/src/actions/Action.cpp b/core/src/actions/Action.cpp
index 5478ce4..53265f0 100644
--- a/core/src/actions/Action.cpp
+++ b/core/src/actions/Action.cpp
@@ -40,15 +40,9 @@ bool Action::Apply(double) {
 }
 
 bool Action::ApplyIfRecursive(const Time date) {
-    for (int month : _recursiveMonths) {
-        if (month != date.month) {
-            continue;
-        }
-        for (int day : _recursiveDays) {
-            if (day != date.day) {
-                continue;
-            }
-
+    assert(_recursiveMonths.size() == _recursiveDays.size());
+    for (size_t i = 0; i < _recursiveMonths.size(); ++i) {
+        if (_recursiveMonths[i] == date.month && _recursiveDays[i] == date.day) {
             return Apply();
         }
     }
diff --git a/core/src/actions/ActionsManager.cpp b/core/src/actions/ActionsManager.cpp
index e39a969..b4baa9e 100644
--- a/core/src/actions/ActionsManager.cpp
+++ b/core/src/actions/ActionsManager.cpp
@@ -3,11 +3,13 @@
 #include "Action.h"
 #include "ModelHydro.h"
 #include "SubBasin.h"
+#include "TimeConstants.h"
 #include "Utils.h"
 
 ActionsManager::ActionsManager()
     : _model(nullptr),
-      _cursorManager(0) {}
+      _cursorManager(0),
+      _lastRecursiveDay(0) {}
 
 void ActionsManager::SetModel(ModelHydro* model) {
     _model = model;
@@ -15,6 +17,7 @@ void ActionsManager::SetModel(ModelHydro* model) {
 
 void ActionsManager::Reset() {
     _cursorManager = 0;
+    _lastRecursiveDay = 0;
     for (auto action : _actions) {
         action->ResetCursor();
         action->Reset();
@@ -78,14 +81,19 @@ int ActionsManager::GetSporadicActionItemCount() const {
 }
 
 void ActionsManager::DateUpdate(double date) {
-    // Recursive actions
+    // Recursive actions: applied once for every day reached, whatever the time step.
     if (!_recursiveActionIndices.empty()) {
-        Time dateStruct = GetTimeStructFromMJD(date);
-        for (int actionIndex : _recursiveActionIndices) {
-            if (!_actions[actionIndex]->ApplyIfRecursive(dateStruct)) {
-                throw RuntimeError("Application of a recursive action failed.");
+        double day = std::floor(date + 0.5 / SECONDS_PER_DAY_D);
+        double firstDay = (_lastRecursiveDay > 0 && day >= _lastRecursiveDay) ? _lastRecursiveDay + 1 : day;
+        for (double d = firstDay; d <= day; ++d) {
+            Time dateStruct = GetTimeStructFromMJD(d);
+            for (int actionIndex : _recursiveActionIndices) {
+                if (!_actions[actionIndex]->ApplyIfRecursive(dateStruct)) {
+                    throw RuntimeError("Application of a recursive action failed.");
+                }
             }
         }
+        _lastRecursiveDay = day;
     }
 
     if (_sporadicActionDates.empty()) {
diff --git a/core/src/actions/ActionsManager.h b/core/src/actions/ActionsManager.h
index 57a723b..9dce4cd 100644
--- a/core/src/actions/ActionsManager.h
+++ b/core/src/actions/ActionsManager.h
@@ -107,6 +107,7 @@ class ActionsManager {
   protected:
     ModelHydro* _model;  // non-owning reference
     int _cursorManager;
+    double _lastRecursiveDay;
     vector<Action*> _actions;
     vecDouble _sporadicActionDates;
     vecInt _sporadicActionIndices;
-- 
2.43.0


From 09ee8c2bb373d171c1449b48995eff11b6bf30ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 13/83] fix: reset the state of the snowpack processes (cold
 content, snow density) with the model

---
 core/src/bricks/Snowpack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/bricks/Snowpack.cpp b/core/src/bricks/Snowpack.cpp
index bd305ab..c24dec1 100644
--- a/core/src/bricks/Snowpack.cpp
+++ b/core/src/bricks/Snowpack.cpp
@@ -7,7 +7,7 @@ Snowpack::Snowpack()
 }
 
 void Snowpack::Reset() {
-    _water->Reset();
+    Brick::Reset();
     _snow->Reset();
 }
 
-- 
2.43.0


From 6627e6d2574c17fac86d2cafdf84111226c4c450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:21 +0000
Subject: [PATCH 14/83] fix: save the internal state of the processes with the
 initial state of the model

---
 core/src/bricks/Brick.cpp                      |  3 +++
 core/src/bricks/Snowpack.cpp                   |  2 +-
 core/src/processes/Process.cpp                 | 14 ++++++++++++++
 core/src/processes/Process.h                   | 14 ++++++++++++++
 .../ProcessLateralSnowRedistributionFrey.cpp   |  9 +++++++--
 .../ProcessLateralSnowRedistributionFrey.h     |  7 +++++++
 core/src/processes/ProcessMeltCemaNeige.cpp    |  6 +++++-
 core/src/processes/ProcessMeltCemaNeige.h      |  6 ++++++
 core/src/processes/ProcessRoutingGR4J.cpp      | 15 +++++++++++----
 core/src/processes/ProcessRoutingGR4J.h        | 11 +++++++++++
 core/src/processes/ProcessRoutingGR6J.cpp      | 18 +++++++++++++-----
 core/src/processes/ProcessRoutingGR6J.h        | 12 ++++++++++++
 core/src/processes/ProcessRoutingHBV.cpp       | 11 ++++++++---
 core/src/processes/ProcessRoutingHBV.h         |  9 +++++++++
 14 files changed, 121 insertions(+), 16 deletions(-)

diff --git a/core/src/bricks/Brick.cpp b/core/src/bricks/Brick.cpp
index f916bbb..8929368 100644
--- a/core/src/bricks/Brick.cpp
+++ b/core/src/bricks/Brick.cpp
@@ -53,6 +53,9 @@ void Brick::Reset() {
 
 void Brick::SaveAsInitialState() {
     _water->SaveAsInitialState();
+    for (const auto& process : _processes) {
+        process->SaveAsInitialState();
+    }
 }
 
 bool Brick::IsValid(bool checkProcesses) const {
diff --git a/core/src/bricks/Snowpack.cpp b/core/src/bricks/Snowpack.cpp
index c24dec1..16e6722 100644
--- a/core/src/bricks/Snowpack.cpp
+++ b/core/src/bricks/Snowpack.cpp
@@ -12,7 +12,7 @@ void Snowpack::Reset() {
 }
 
 void Snowpack::SaveAsInitialState() {
-    _water->SaveAsInitialState();
+    Brick::SaveAsInitialState();
     _snow->SaveAsInitialState();
 }
 
diff --git a/core/src/processes/Process.cpp b/core/src/processes/Process.cpp
index d2f847a..2664973 100644
--- a/core/src/processes/Process.cpp
+++ b/core/src/processes/Process.cpp
@@ -448,6 +448,20 @@ void Process::Reset() {
     }
 }
 
+void Process::SaveAsInitialState() {
+    // Nothing to do...
+}
+
+void Process::RestoreSchedule(vecDouble& schedule, const vecDouble& initial) {
+    std::fill(schedule.begin(), schedule.end(), 0.0);
+    if (schedule.empty()) {
+        return;
+    }
+    for (size_t i = 0; i < initial.size(); ++i) {
+        schedule[std::min(i, schedule.size() - 1)] += initial[i];
+    }
+}
+
 void Process::SetHydroUnitProperties(HydroUnit*, Brick*) {
     // Nothing to do...
 }
diff --git a/core/src/processes/Process.h b/core/src/processes/Process.h
index ac51a00..aa1a4ce 100644
--- a/core/src/processes/Process.h
+++ b/core/src/processes/Process.h
@@ -42,6 +42,20 @@ class Process {
      */
     virtual void Reset();
 
+    /**
+     * Save the internal state of the process (if any) as its initial state, restored on reset.
+     */
+    virtual void SaveAsInitialState();
+
+    /**
+     * Restore a saved delivery schedule (e.g. unit hydrograph content). If the schedule became shorter since it was
+     * saved, the water of the extra slots is delivered with the last one.
+     *
+     * @param schedule schedule to fill.
+     * @param initial saved schedule (can be empty).
+     */
+    static void RestoreSchedule(vecDouble& schedule, const vecDouble& initial);
+
     /**
      * Check that everything is correctly defined.
      *
diff --git a/core/src/processes/ProcessLateralSnowRedistributionFrey.cpp b/core/src/processes/ProcessLateralSnowRedistributionFrey.cpp
index a7d9dfe..11c7b4e 100644
--- a/core/src/processes/ProcessLateralSnowRedistributionFrey.cpp
+++ b/core/src/processes/ProcessLateralSnowRedistributionFrey.cpp
@@ -92,8 +92,13 @@ void ProcessLateralSnowRedistributionFrey::AttachForcing(Forcing* forcing) {
 
 void ProcessLateralSnowRedistributionFrey::Reset() {
     ProcessLateral::Reset();
-    _density = constants::snowDensity;
-    _prevSwe = 0.0;
+    _density = _initialDensity;
+    _prevSwe = _initialPrevSwe;
+}
+
+void ProcessLateralSnowRedistributionFrey::SaveAsInitialState() {
+    _initialDensity = _density;
+    _initialPrevSwe = _prevSwe;
 }
 
 double ProcessLateralSnowRedistributionFrey::ComputeFreshSnowDensity() const {
diff --git a/core/src/processes/ProcessLateralSnowRedistributionFrey.h b/core/src/processes/ProcessLateralSnowRedistributionFrey.h
index ab27121..3df12de 100644
--- a/core/src/processes/ProcessLateralSnowRedistributionFrey.h
+++ b/core/src/processes/ProcessLateralSnowRedistributionFrey.h
@@ -80,6 +80,11 @@ class ProcessLateralSnowRedistributionFrey : public ProcessLateral {
      */
     void Reset() override;
 
+    /**
+     * @copydoc Process::SaveAsInitialState()
+     */
+    void SaveAsInitialState() override;
+
     /**
      * @copydoc Process::Finalize()
      */
@@ -108,6 +113,8 @@ class ProcessLateralSnowRedistributionFrey : public ProcessLateral {
     const float* _tScale;           // Density sigmoid shift coefficient (dynamic variant) [°C]
     double _density;                // Tracked bulk snow density (dynamic variant) [kg/m3]
     double _prevSwe;                // Committed SWE at the previous time step (dynamic variant) [mm]
+    double _initialDensity = constants::snowDensity;  // Density restored on reset [kg/m3]
+    double _initialPrevSwe = 0.0;  // SWE restored on reset [mm]
 
     /**
      * @copydoc Process::GetRates()
diff --git a/core/src/processes/ProcessMeltCemaNeige.cpp b/core/src/processes/ProcessMeltCemaNeige.cpp
index 4984a8a..9a7bc31 100644
--- a/core/src/processes/ProcessMeltCemaNeige.cpp
+++ b/core/src/processes/ProcessMeltCemaNeige.cpp
@@ -57,7 +57,11 @@ void ProcessMeltCemaNeige::AttachForcing(Forcing* forcing) {
 
 void ProcessMeltCemaNeige::Reset() {
     ProcessMelt::Reset();
-    _coldContent = 0.0;
+    _coldContent = _initialColdContent;
+}
+
+void ProcessMeltCemaNeige::SaveAsInitialState() {
+    _initialColdContent = _coldContent;
 }
 
 const vecDouble& ProcessMeltCemaNeige::GetRates() {
diff --git a/core/src/processes/ProcessMeltCemaNeige.h b/core/src/processes/ProcessMeltCemaNeige.h
index 038438a..a26ca47 100644
--- a/core/src/processes/ProcessMeltCemaNeige.h
+++ b/core/src/processes/ProcessMeltCemaNeige.h
@@ -57,6 +57,11 @@ class ProcessMeltCemaNeige : public ProcessMelt {
      */
     void Reset() override;
 
+    /**
+     * @copydoc Process::SaveAsInitialState()
+     */
+    void SaveAsInitialState() override;
+
   protected:
     Forcing* _temperature;            // non-owning reference
     const float* _degreeDayFactor;    // Kf [mm/°C/d]
@@ -65,6 +70,7 @@ class ProcessMeltCemaNeige : public ProcessMelt {
     const float* _meanAnnualSnow;     // Cn [mm]
 
     double _coldContent;  // G [°C], persists between timesteps
+    double _initialColdContent = 0.0;  // G restored on reset [°C]
 
     /**
      * @copydoc Process::GetRates()
diff --git a/core/src/processes/ProcessRoutingGR4J.cpp b/core/src/processes/ProcessRoutingGR4J.cpp
index c190de3..5086648 100644
--- a/core/src/processes/ProcessRoutingGR4J.cpp
+++ b/core/src/processes/ProcessRoutingGR4J.cpp
@@ -36,12 +36,19 @@ void ProcessRoutingGR4J::SetParameters(const ProcessSettings& processSettings) {
 void ProcessRoutingGR4J::Reset() {
     ProcessOutflow::Reset();
     _recomputeUH();
-    std::fill(_stuh1.begin(), _stuh1.end(), 0.0);
-    std::fill(_stuh2.begin(), _stuh2.end(), 0.0);
-    _r = 0.0;
+    RestoreSchedule(_stuh1, _initialStuh1);
+    RestoreSchedule(_stuh2, _initialStuh2);
+    _r = _initialR;
     _qr = 0.0;
     _qd = 0.0;
-    _processStorage = 0.0;
+    _processStorage = _initialProcessStorage;
+}
+
+void ProcessRoutingGR4J::SaveAsInitialState() {
+    _initialStuh1 = _stuh1;
+    _initialStuh2 = _stuh2;
+    _initialR = _r;
+    _initialProcessStorage = _processStorage;
 }
 
 double* ProcessRoutingGR4J::GetValuePointer(std::string_view name) {
diff --git a/core/src/processes/ProcessRoutingGR4J.h b/core/src/processes/ProcessRoutingGR4J.h
index 0e7f1f6..c22da41 100644
--- a/core/src/processes/ProcessRoutingGR4J.h
+++ b/core/src/processes/ProcessRoutingGR4J.h
@@ -44,6 +44,11 @@ class ProcessRoutingGR4J : public ProcessOutflow {
      */
     void Reset() override;
 
+    /**
+     * @copydoc Process::SaveAsInitialState()
+     */
+    void SaveAsInitialState() override;
+
     /**
      * Advance UH buffers and routing store once per timestep.
      */
@@ -77,6 +82,12 @@ class ProcessRoutingGR4J : public ProcessOutflow {
     // Cached total process-internal water storage for water balance logging
     double _processStorage;
 
+    // State restored on reset
+    vecDouble _initialStuh1;
+    vecDouble _initialStuh2;
+    double _initialR = 0.0;
+    double _initialProcessStorage = 0.0;
+
     /**
      * @copydoc Process::GetRates()
      *
diff --git a/core/src/processes/ProcessRoutingGR6J.cpp b/core/src/processes/ProcessRoutingGR6J.cpp
index af33221..62737e5 100644
--- a/core/src/processes/ProcessRoutingGR6J.cpp
+++ b/core/src/processes/ProcessRoutingGR6J.cpp
@@ -52,14 +52,22 @@ void ProcessRoutingGR6J::SetParameters(const ProcessSettings& processSettings) {
 void ProcessRoutingGR6J::Reset() {
     ProcessOutflow::Reset();
     _recomputeUH();
-    std::fill(_stuh1.begin(), _stuh1.end(), 0.0);
-    std::fill(_stuh2.begin(), _stuh2.end(), 0.0);
-    _r = 0.0;
-    _rexp = 0.0;
+    RestoreSchedule(_stuh1, _initialStuh1);
+    RestoreSchedule(_stuh2, _initialStuh2);
+    _r = _initialR;
+    _rexp = _initialRexp;
     _qr = 0.0;
     _qrexp = 0.0;
     _qd = 0.0;
-    _processStorage = 0.0;
+    _processStorage = _initialProcessStorage;
+}
+
+void ProcessRoutingGR6J::SaveAsInitialState() {
+    _initialStuh1 = _stuh1;
+    _initialStuh2 = _stuh2;
+    _initialR = _r;
+    _initialRexp = _rexp;
+    _initialProcessStorage = _processStorage;
 }
 
 double* ProcessRoutingGR6J::GetValuePointer(std::string_view name) {
diff --git a/core/src/processes/ProcessRoutingGR6J.h b/core/src/processes/ProcessRoutingGR6J.h
index 27408cd..2c8e4ae 100644
--- a/core/src/processes/ProcessRoutingGR6J.h
+++ b/core/src/processes/ProcessRoutingGR6J.h
@@ -49,6 +49,11 @@ class ProcessRoutingGR6J : public ProcessOutflow {
      */
     void Reset() override;
 
+    /**
+     * @copydoc Process::SaveAsInitialState()
+     */
+    void SaveAsInitialState() override;
+
     /**
      * Advance UH buffers and both routing stores once per timestep.
      */
@@ -94,6 +99,13 @@ class ProcessRoutingGR6J : public ProcessOutflow {
     // Cached total process-internal water storage for water balance logging
     double _processStorage;
 
+    // State restored on reset
+    vecDouble _initialStuh1;
+    vecDouble _initialStuh2;
+    double _initialR = 0.0;
+    double _initialRexp = 0.0;
+    double _initialProcessStorage = 0.0;
+
     /**
      * @copydoc Process::GetRates()
      *
diff --git a/core/src/processes/ProcessRoutingHBV.cpp b/core/src/processes/ProcessRoutingHBV.cpp
index be457f4..83ec79b 100644
--- a/core/src/processes/ProcessRoutingHBV.cpp
+++ b/core/src/processes/ProcessRoutingHBV.cpp
@@ -41,9 +41,14 @@ void ProcessRoutingHBV::SetParameters(const ProcessSettings& processSettings) {
 void ProcessRoutingHBV::Reset() {
     ProcessOutflow::Reset();
     _recomputeUH();
-    std::fill(_stuh.begin(), _stuh.end(), 0.0);
-    _previousContent = 0.0;
-    _processStorage = 0.0;
+    RestoreSchedule(_stuh, _initialStuh);
+    _previousContent = _initialPreviousContent;
+    _processStorage = std::accumulate(_stuh.begin(), _stuh.end(), 0.0);
+}
+
+void ProcessRoutingHBV::SaveAsInitialState() {
+    _initialStuh = _stuh;
+    _initialPreviousContent = _previousContent;
 }
 
 double* ProcessRoutingHBV::GetValuePointer(std::string_view name) {
diff --git a/core/src/processes/ProcessRoutingHBV.h b/core/src/processes/ProcessRoutingHBV.h
index df1d0ac..21fa13c 100644
--- a/core/src/processes/ProcessRoutingHBV.h
+++ b/core/src/processes/ProcessRoutingHBV.h
@@ -54,6 +54,11 @@ class ProcessRoutingHBV : public ProcessOutflow {
      */
     void Reset() override;
 
+    /**
+     * @copydoc Process::SaveAsInitialState()
+     */
+    void SaveAsInitialState() override;
+
     /**
      * Advance the delivery schedule once per timestep, using the committed amounts.
      */
@@ -90,6 +95,10 @@ class ProcessRoutingHBV : public ProcessOutflow {
     // In-transit water (scheduled, not yet delivered) for water balance logging
     double _processStorage;
 
+    // State restored on reset
+    vecDouble _initialStuh;
+    double _initialPreviousContent = 0.0;
+
     /**
      * @copydoc Process::GetRates()
      *
-- 
2.43.0


From 16f3eb91221e6645a6f0ccfcf87a656f4d0febc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 15/83] fix: set parameters by type on the sub-basin bricks
 themselves

---
 core/src/base/SettingsModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/base/SettingsModel.cpp b/core/src/base/SettingsModel.cpp
index 9b73ecd..d015b3c 100644
--- a/core/src/base/SettingsModel.cpp
+++ b/core/src/base/SettingsModel.cpp
@@ -1012,7 +1012,7 @@ bool SettingsModel::SetParameterValueInSelectedStructure(const string& component
         // Set the parameter for all matching bricks - subbasins
         for (auto& brick : _selectedStructure->subBasinBricks) {
             if (typeMatches(brick.type)) {
-                SelectHydroUnitBrick(brick.name);
+                SelectSubBasinBrick(brick.name);
                 if (BrickHasParameter(name)) {
                     SetBrickParameterValue(name, value);
                 } else {
-- 
2.43.0


From ad29567bd9021d2e117edbb9ff127047258071fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:23 +0000
Subject: [PATCH 16/83] fix: link the overflow of a store for both names of the
 process

---
 core/src/base/ModelBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/base/ModelBuilder.cpp b/core/src/base/ModelBuilder.cpp
index 7084646..40c919e 100644
--- a/core/src/base/ModelBuilder.cpp
+++ b/core/src/base/ModelBuilder.cpp
@@ -127,7 +127,7 @@ void ModelBuilder::CreateSubBasinComponents(SettingsModel& modelSettings) {
             process->SetParameters(processSettings);
             brick->AddProcess(std::move(processPtr));
 
-            if (processSettings.type == "overflow") {
+            if (processSettings.type == "overflow" || processSettings.type == "outflow:overflow") {
                 brick->GetWaterContainer()->LinkOverflow(process);
             }
         }
@@ -231,7 +231,7 @@ void ModelBuilder::CreateHydroUnitBrick(SettingsModel& modelSettings, HydroUnit*
         process->SetParameters(processSettings);
         brick->AddProcess(std::move(processPtr));
 
-        if (processSettings.type == "overflow") {
+        if (processSettings.type == "overflow" || processSettings.type == "outflow:overflow") {
             brick->GetWaterContainer()->LinkOverflow(process);
         }
 
-- 
2.43.0


From d1edc5c089f18a9bf98ae3b89822f8e717172512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 17/83] fix: refuse impossible calendar dates

---
 core/src/base/UtilsDateTime.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/base/UtilsDateTime.cpp b/core/src/base/UtilsDateTime.cpp
index 00faf2f..8ed5215 100644
--- a/core/src/base/UtilsDateTime.cpp
+++ b/core/src/base/UtilsDateTime.cpp
@@ -126,6 +126,9 @@ static bool ParseExact(const std::string& s, const char* fmt, std::chrono::sys_t
         auto parsed_sec = static_cast<int>(tm.tm_sec);
 
         auto ymd = std::chrono::year{parsed_year} / std::chrono::month{parsed_month} / std::chrono::day{parsed_day};
+        if (!ymd.ok()) {
+            return false;
+        }
         auto days = std::chrono::sys_days{ymd};
         auto tp = std::chrono::time_point_cast<std::chrono::seconds>(days) + std::chrono::hours{parsed_hour} +
                   std::chrono::minutes{parsed_min} + std::chrono::seconds{parsed_sec};
@@ -152,6 +155,9 @@ static bool ParseDateOnly(const std::string& s, const char* fmt, std::chrono::sy
         auto parsed_day = static_cast<unsigned>(tm.tm_mday);       // tm_mday is 1-based
 
         auto ymd = std::chrono::year{parsed_year} / std::chrono::month{parsed_month} / std::chrono::day{parsed_day};
+        if (!ymd.ok()) {
+            return false;
+        }
         out = std::chrono::sys_days{ymd};
         return true;
     } catch (...) {
-- 
2.43.0


From 9f3392532d2660ea63ff0f3a9f5133cca9017d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 18/83] fix: read the elevation and the property units of basin
 files

---
 core/src/base/SettingsBasin.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/src/base/SettingsBasin.cpp b/core/src/base/SettingsBasin.cpp
index 2791f08..56b2b8d 100644
--- a/core/src/base/SettingsBasin.cpp
+++ b/core/src/base/SettingsBasin.cpp
@@ -92,11 +92,18 @@ bool SettingsBasin::Parse(const string& path) {
         // Get areas
         vecDouble areas = file.GetVarDouble1D("area", unitCount);
 
+        // Get elevations, if any
+        vecDouble elevations;
+        if (file.HasVar("elevation")) {
+            elevations = file.GetVarDouble1D("elevation", unitCount);
+        }
+
         // Store hydro units
         for (int iUnit = 0; iUnit < unitCount; ++iUnit) {
             HydroUnitSettings unit;
             unit.id = ids[iUnit];
             unit.area = areas[iUnit];
+            unit.elevation = elevations.empty() ? NAN_D : elevations[iUnit];
             _hydroUnits.push_back(unit);
         }
 
@@ -134,12 +141,13 @@ bool SettingsBasin::Parse(const string& path) {
             }
 
             vecDouble values = file.GetVarDouble1D(varName, unitCount);
+            string units = file.HasAtt("units", varName) ? file.GetAttText("units", varName) : "";
 
             for (int iUnit = 0; iUnit < unitCount; ++iUnit) {
                 HydroUnitPropertyDouble prop;
                 prop.name = varName;
                 prop.value = values[iUnit];
-                prop.unit = "";
+                prop.unit = units;
                 _hydroUnits[iUnit].propertiesDouble.push_back(prop);
             }
         }
-- 
2.43.0


From 25708d7270274813516d720eb7ef046c8e230ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 19/83] fix: clear the lateral connections with the basin
 settings

---
 core/src/base/SettingsBasin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/base/SettingsBasin.cpp b/core/src/base/SettingsBasin.cpp
index 56b2b8d..89ef609 100644
--- a/core/src/base/SettingsBasin.cpp
+++ b/core/src/base/SettingsBasin.cpp
@@ -59,6 +59,7 @@ void SettingsBasin::AddLateralConnection(int giverHydroUnitId, int receiverHydro
 
 void SettingsBasin::Clear() {
     _hydroUnits.clear();
+    _lateralConnections.clear();
     _selectedHydroUnit = nullptr;
 }
 
-- 
2.43.0


From caf7adf02644afb3599960e61b720110b006769c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:17 +0000
Subject: [PATCH 20/83] fix: weight the inflow rates by their area fraction in
 the storage constraints

---
 core/src/containers/WaterContainer.cpp | 3 ++-
 core/src/fluxes/Flux.h                 | 9 +++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/src/containers/WaterContainer.cpp b/core/src/containers/WaterContainer.cpp
index a21c639..e7ec2de 100644
--- a/core/src/containers/WaterContainer.cpp
+++ b/core/src/containers/WaterContainer.cpp
@@ -114,7 +114,8 @@ void WaterContainer::ApplyConstraints(double timeStep, bool inputsInContent) {
         }
         assert(GreaterThanOrEqual(*changeRate, 0, EPSILON_D));
         incomingRates.push_back(changeRate);
-        inputs += *changeRate;
+        // The rate is relative to the area of the origin (hydro unit, land cover), the content to the one of the target.
+        inputs += *changeRate * input->GetAreaFraction();
     }
 
     double change = inputs - outputs;
diff --git a/core/src/fluxes/Flux.h b/core/src/fluxes/Flux.h
index e6af389..301e3a4 100644
--- a/core/src/fluxes/Flux.h
+++ b/core/src/fluxes/Flux.h
@@ -152,6 +152,15 @@ class Flux {
         _fractionTotal = _fractionUnitArea * _fractionLandCover;
     }
 
+    /**
+     * Get the area fraction applied to the flux (see UpdateFlux()).
+     *
+     * @return the area fraction of the flux.
+     */
+    [[nodiscard]] double GetAreaFraction() const {
+        return std::min(_fractionTotal, 1.0);
+    }
+
     /**
      * Get the flux type.
      *
-- 
2.43.0


From 1e678cccd5e58e055de296e1fc145552715bb06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 21/83] fix: do not use the discharge of the previous time step
 to constrain the sub-basin stores

---
 core/src/base/ModelBuilder.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/base/ModelBuilder.cpp b/core/src/base/ModelBuilder.cpp
index 40c919e..fb94865 100644
--- a/core/src/base/ModelBuilder.cpp
+++ b/core/src/base/ModelBuilder.cpp
@@ -534,7 +534,11 @@ void ModelBuilder::BuildHydroUnitBricksFluxes(SettingsModel& modelSettings, Hydr
 
                     if (toSubBasin) {
                         flux->SetFractionUnitArea(unit->GetArea() / _subBasin->GetArea());
-                        flux->SetAsStatic();
+                        // The amount is known beforehand only for the bricks computed directly. For the other ones, it
+                        // would be the amount of the previous time step.
+                        if (!brick->NeedsSolver()) {
+                            flux->SetAsStatic();
+                        }
                     } else if (output.isStatic) {
                         flux->SetAsStatic();
                     }
-- 
2.43.0


From 3519b80925834a1a3e24a72d1f34a1b7664ce8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:31 +0000
Subject: [PATCH 22/83] fix: count the water from directly computed bricks in
 the storage constraints of the same step

---
 core/src/base/ModelBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/base/ModelBuilder.cpp b/core/src/base/ModelBuilder.cpp
index fb94865..a57a8d4 100644
--- a/core/src/base/ModelBuilder.cpp
+++ b/core/src/base/ModelBuilder.cpp
@@ -539,7 +539,7 @@ void ModelBuilder::BuildHydroUnitBricksFluxes(SettingsModel& modelSettings, Hydr
                         if (!brick->NeedsSolver()) {
                             flux->SetAsStatic();
                         }
-                    } else if (output.isStatic) {
+                    } else if (output.isStatic || !brick->NeedsSolver()) {
                         flux->SetAsStatic();
                     }
 
-- 
2.43.0


From afce0e5f0250f248917a707a0040b2c994dd6adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:28 +0000
Subject: [PATCH 23/83] fix: keep the HBV routing schedule independent of the
 area of the unit

---
 core/src/processes/ProcessRoutingHBV.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/processes/ProcessRoutingHBV.cpp b/core/src/processes/ProcessRoutingHBV.cpp
index 83ec79b..800c01a 100644
--- a/core/src/processes/ProcessRoutingHBV.cpp
+++ b/core/src/processes/ProcessRoutingHBV.cpp
@@ -90,7 +90,12 @@ void ProcessRoutingHBV::Finalize() {
     // Water actually delivered to the outlet and actually received this timestep. The
     // applied rate can deviate from the scheduled delivery (solver stage averaging,
     // rate constraints), so both are measured on the committed amounts.
+    // The flux amount is weighted by the area of the unit, contrary to the content.
     double delivered = *_outputs[0]->GetAmountPointer();
+    double areaFraction = _outputs[0]->GetAreaFraction();
+    if (areaFraction > 0) {
+        delivered /= areaFraction;
+    }
     double content = _container->GetContentWithoutChanges();
     double inflow = content - _previousContent + delivered;
     _previousContent = content;
-- 
2.43.0


From 621d3562c562894b420910d078a63e12395eaf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 24/83] fix: let constant rates drain the remaining content
 with the implicit solvers

---
 core/src/base/SolverCrankNicolson.cpp | 4 +++-
 core/src/base/SolverImplicitEuler.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/src/base/SolverCrankNicolson.cpp b/core/src/base/SolverCrankNicolson.cpp
index 0a545c7..6ab4049 100644
--- a/core/src/base/SolverCrankNicolson.cpp
+++ b/core/src/base/SolverCrankNicolson.cpp
@@ -45,7 +45,9 @@ void SolverCrankNicolson::ComputeBrickRates(Brick* brick, double content, double
                 break;
             }
         }
-        endContent = (lo + hi) / 2;
+        // Keep the upper bound: where a constant rate stops at an empty store, the rates just
+        // above the discontinuity drain what is left (limited by the constraints).
+        endContent = hi;
     } else {
         endContent = lo;
     }
diff --git a/core/src/base/SolverImplicitEuler.cpp b/core/src/base/SolverImplicitEuler.cpp
index 6701357..26d5dcf 100644
--- a/core/src/base/SolverImplicitEuler.cpp
+++ b/core/src/base/SolverImplicitEuler.cpp
@@ -40,7 +40,9 @@ void SolverImplicitEuler::ComputeBrickRates(Brick* brick, double content, double
                 break;
             }
         }
-        endContent = (lo + hi) / 2;
+        // Keep the upper bound: where a constant rate stops at an empty store, the rates just
+        // above the discontinuity drain what is left (limited by the constraints).
+        endContent = hi;
     } else {
         endContent = lo;
     }
-- 
2.43.0


From 0872f54035834551fcb0ece06a7bea7287101150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 25/83] fix: determine the overflow anew each time the storage
 constraints are applied

---
 core/src/containers/WaterContainer.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/src/containers/WaterContainer.cpp b/core/src/containers/WaterContainer.cpp
index e7ec2de..96e7022 100644
--- a/core/src/containers/WaterContainer.cpp
+++ b/core/src/containers/WaterContainer.cpp
@@ -60,6 +60,15 @@ void WaterContainer::ApplyConstraints(double timeStep, bool inputsInContent) {
     // rate (e.g. ProcessOutflowSnowHolding). Here we clamp those rates so the content stays within
     // bounds (no negative content, and below the maximum capacity) over the timestep.
 
+    // The overflow only takes the excess left by the other fluxes: it is determined anew each time the constraints are
+    // applied (several times per timestep).
+    if (HasMaximumCapacity() && HasOverflow()) {
+        double* overflowRate = _overflow->GetOutputFlux(0)->GetChangeRatePointer();
+        if (overflowRate != nullptr) {
+            *overflowRate = 0;
+        }
+    }
+
     // Get outgoing change rates
     vecDoublePt outgoingRates;
     double outputs = 0;
-- 
2.43.0


From b518384d64b04c8bff3d3e5e0e986f0b8b0f0b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 26/83] fix: limit the outflow of an empty store to its inflow
 instead of stopping it

---
 core/src/containers/WaterContainer.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/core/src/containers/WaterContainer.cpp b/core/src/containers/WaterContainer.cpp
index 96e7022..7038afb 100644
--- a/core/src/containers/WaterContainer.cpp
+++ b/core/src/containers/WaterContainer.cpp
@@ -143,11 +143,7 @@ void WaterContainer::ApplyConstraints(double timeStep, bool inputsInContent) {
             if (NearlyZero(*rate, EPSILON_D)) {
                 continue;
             }
-            if (NearlyEqual(diff, change, PRECISION)) {
-                *rate = 0;
-                continue;
-            }
-            *rate += diff * std::abs((*rate) / outputs);
+            *rate = std::max(*rate + diff * std::abs((*rate) / outputs), 0.0);
         }
     }
 
-- 
2.43.0


From 4a82cce36a0c2b1df834a63f1006ad32ef9ddc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 27/83] fix: count the snow received from units computed later
 in the content of the same step

---
 core/src/base/Processor.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/core/src/base/Processor.cpp b/core/src/base/Processor.cpp
index 87e55de..3ec7af3 100644
--- a/core/src/base/Processor.cpp
+++ b/core/src/base/Processor.cpp
@@ -2,6 +2,7 @@
 
 #include "FluxToBrick.h"
 #include "ModelHydro.h"
+#include "Snowpack.h"
 #include "SubBasin.h"
 
 Processor::Processor()
@@ -263,6 +264,17 @@ bool Processor::ProcessTimeStep(double timeStepInDays) {
         }
     }
 
+    // Commit the snow received from hydro units that were computed after the target unit.
+    for (int iUnit = 0; iUnit < hydroUnitCount; ++iUnit) {
+        HydroUnit* unit = basin->GetHydroUnit(iUnit);
+        for (int iBrick = 0; iBrick < unit->GetBrickCount(); ++iBrick) {
+            Brick* brick = unit->GetBrick(iBrick);
+            if (brick->GetCategory() == BrickCategory::Snowpack && !brick->IsNull()) {
+                static_cast<Snowpack*>(brick)->GetSnowContainer()->Finalize();
+            }
+        }
+    }
+
     // Process the bricks that need a solver
     if (!_solver->Solve(timeStepInDays)) {
         return false;
-- 
2.43.0


From 4353399daf3062ce0b88d4d0e8bcbf7bf9823292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:42 +0000
Subject: [PATCH 28/83] fix: respect the rates of processes filling an empty
 store with the exponential Euler solver

---
 core/src/base/SolverExponentialEuler.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/core/src/base/SolverExponentialEuler.cpp b/core/src/base/SolverExponentialEuler.cpp
index 18f12dd..d91c3f2 100644
--- a/core/src/base/SolverExponentialEuler.cpp
+++ b/core/src/base/SolverExponentialEuler.cpp
@@ -15,16 +15,23 @@ void SolverExponentialEuler::ComputeBrickRates(Brick* brick, double content, dou
     double* contentDelta = container->GetDynamicContentChanges()[0];
     assert(*contentDelta == 0);
 
-    // Rates at the start-of-step content.
-    double startTotal = TotalRateAt(brick, contentDelta, 0);
+    double h = timeStepInDays;
+    double scale = std::max(content, content + h * inflow);
+    double eps = std::max(0.001, 0.001 * scale);
+
+    // Rates at the start-of-step content. All rates are null in an empty store, even the ones that do not depend on
+    // the content: the response of a store that is filling up is then taken just above the empty state.
+    bool isEmpty = content <= PRECISION;
+    double start = isEmpty ? eps : 0.0;
+    double startTotal = TotalRateAt(brick, contentDelta, start);
     StoreRatesAtCurrentContent(brick, _startRates);
 
     // Linearize the total outflow around the start-of-step content by forward finite
     // difference: Q(S) ~ Q(S0) + k (S - S0).
-    double h = timeStepInDays;
-    double scale = std::max(content, content + h * inflow);
-    double eps = std::max(0.001, 0.001 * scale);
-    double slope = (TotalRateAt(brick, contentDelta, eps) - startTotal) / eps;
+    double slope = (TotalRateAt(brick, contentDelta, start + eps) - startTotal) / eps;
+    if (isEmpty) {
+        startTotal = std::max(startTotal - slope * start, 0.0);
+    }
 
     if (slope <= 1e-10) {
         // No content dependence detected: fall back to the frozen start-of-step rates.
-- 
2.43.0


From 367b46dfd50e9e6c3c893397506679f8add12756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:46 +0000
Subject: [PATCH 29/83] fix: keep the exponential Euler rates within their
 values at the start and end of the step

---
 core/src/base/SolverExponentialEuler.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/base/SolverExponentialEuler.cpp b/core/src/base/SolverExponentialEuler.cpp
index d91c3f2..881135b 100644
--- a/core/src/base/SolverExponentialEuler.cpp
+++ b/core/src/base/SolverExponentialEuler.cpp
@@ -52,7 +52,8 @@ void SolverExponentialEuler::ComputeBrickRates(Brick* brick, double content, dou
     // Total average outflow rate over the step by mass balance.
     double totalRate = std::max(inflow - (endContent - content) / h, 0.0);
 
-    // Distribute over the connections proportionally to their trapezoidal-average rates.
+    // Distribute over the connections proportionally to their trapezoidal-average rates. The linearization must not
+    // bring a process beyond its rates at the start and at the end of the step (e.g. evapotranspiration above the PET).
     TotalRateAt(brick, contentDelta, endContent - content);
     StoreRatesAtCurrentContent(brick, _endRates);
     assert(_startRates.size() == _endRates.size());
@@ -62,7 +63,7 @@ void SolverExponentialEuler::ComputeBrickRates(Brick* brick, double content, dou
     }
     for (int i = 0; i < _startRates.size(); ++i) {
         double weight = sumWeights > 0 ? (_startRates[i] + _endRates[i]) / sumWeights : 0.0;
-        _rates(iRateStart + i) = totalRate * weight;
+        _rates(iRateStart + i) = std::min(totalRate * weight, std::max(_startRates[i], _endRates[i]));
     }
 
     // Restore the start-of-step state for the constraint and application passes.
-- 
2.43.0


From 4701d91a6b6287f3c725fc9db52b37eea95806d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:52 +0000
Subject: [PATCH 30/83] fix: discard the forcing values updated by an
 interrupted run when starting a new one

---
 core/src/base/ModelHydro.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/base/ModelHydro.cpp b/core/src/base/ModelHydro.cpp
index d72c865..06b684e 100644
--- a/core/src/base/ModelHydro.cpp
+++ b/core/src/base/ModelHydro.cpp
@@ -358,6 +358,9 @@ ModelResult ModelHydro::InitializeTimeSeries() {
         }
     }
 
+    // A run stopped in the middle of a time step leaves updated forcing values behind.
+    _subBasin->ResetForcingUpdates();
+
     return {};
 }
 
-- 
2.43.0


From 9689804bfc62aa7a2094bf23e3d320d47b4258ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:28 +0000
Subject: [PATCH 31/83] fix: attach the actions and parameter updates again
 when the spin-up is interrupted

---
 core/src/base/ModelHydro.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/core/src/base/ModelHydro.cpp b/core/src/base/ModelHydro.cpp
index 06b684e..b3be680 100644
--- a/core/src/base/ModelHydro.cpp
+++ b/core/src/base/ModelHydro.cpp
@@ -143,16 +143,23 @@ ModelResult ModelHydro::RunSpinup() {
     _timer.SetParametersUpdater(nullptr);
 
     ModelResult result{};
-    for (int i = 0; i < _spinupSteps; ++i) {
-        if (!_processor.ProcessTimeStep(*_timer.GetTimeStepPointer())) {
-            result = std::unexpected("Time step processing failed during spin-up.");
-            break;
-        }
-        _timer.IncrementTime();
-        if (auto r = UpdateForcing(); !r) {
-            result = std::unexpected(std::format("Failed updating forcing during spin-up: {}", r.error()));
-            break;
+    try {
+        for (int i = 0; i < _spinupSteps; ++i) {
+            if (!_processor.ProcessTimeStep(*_timer.GetTimeStepPointer())) {
+                result = std::unexpected("Time step processing failed during spin-up.");
+                break;
+            }
+            _timer.IncrementTime();
+            if (auto r = UpdateForcing(); !r) {
+                result = std::unexpected(std::format("Failed updating forcing during spin-up: {}", r.error()));
+                break;
+            }
         }
+    } catch (...) {
+        // Attach them again before reporting the failure, as the model can be run again.
+        _timer.SetActionsManager(&_actionsManager);
+        _timer.SetParametersUpdater(&_parametersUpdater);
+        throw;
     }
 
     _timer.SetActionsManager(&_actionsManager);
-- 
2.43.0


From 8ea8060d02906664c6889c89f1f5b01235a06b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:57 +0000
Subject: [PATCH 32/83] fix: include the flux amounts of the last time step in
 the saved initial state

---
 core/src/bricks/Brick.cpp | 4 ++++
 core/src/fluxes/Flux.cpp  | 6 +++++-
 core/src/fluxes/Flux.h    | 6 ++++++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/core/src/bricks/Brick.cpp b/core/src/bricks/Brick.cpp
index 8929368..4c15c85 100644
--- a/core/src/bricks/Brick.cpp
+++ b/core/src/bricks/Brick.cpp
@@ -55,6 +55,10 @@ void Brick::SaveAsInitialState() {
     _water->SaveAsInitialState();
     for (const auto& process : _processes) {
         process->SaveAsInitialState();
+        // The amounts delivered during the last time step are part of the state (e.g. inflow of a routing).
+        for (int i = 0; i < process->GetOutputFluxCount(); ++i) {
+            process->GetOutputFlux(i)->SaveAsInitialState();
+        }
     }
 }
 
diff --git a/core/src/fluxes/Flux.cpp b/core/src/fluxes/Flux.cpp
index 9ed4502..7a55ba0 100644
--- a/core/src/fluxes/Flux.cpp
+++ b/core/src/fluxes/Flux.cpp
@@ -14,7 +14,11 @@ Flux::Flux()
       _type(ContentType::Water) {}
 
 void Flux::Reset() {
-    _amount = 0;
+    _amount = _initialAmount;
+}
+
+void Flux::SaveAsInitialState() {
+    _initialAmount = _amount;
 }
 
 void Flux::UpdateFlux(double amount) {
diff --git a/core/src/fluxes/Flux.h b/core/src/fluxes/Flux.h
index 301e3a4..181e738 100644
--- a/core/src/fluxes/Flux.h
+++ b/core/src/fluxes/Flux.h
@@ -32,6 +32,11 @@ class Flux {
      */
     virtual void Reset();
 
+    /**
+     * Save the current amount as the initial state, restored on reset.
+     */
+    void SaveAsInitialState();
+
     /**
      * Get the amount of water outgoing the flux.
      *
@@ -199,6 +204,7 @@ class Flux {
 
   protected:
     double _amount{};
+    double _initialAmount{};
     double* _changeRate{};  // non-owning reference
     bool _static{};
     bool _needsWeighting{};
-- 
2.43.0


From 3c5fe3d95202bbd6891e69266ad1cbd7c546fb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:48 +0000
Subject: [PATCH 33/83] fix: allow converting a whole land cover whatever the
 rounding of the fractions

---
 core/src/spatial/HydroUnit.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/src/spatial/HydroUnit.cpp b/core/src/spatial/HydroUnit.cpp
index 4ac2c6d..dde9a45 100644
--- a/core/src/spatial/HydroUnit.cpp
+++ b/core/src/spatial/HydroUnit.cpp
@@ -353,11 +353,11 @@ bool HydroUnit::ChangeLandCoverAreaFraction(std::string_view name, double fracti
         double genericNewFraction = genericOldFraction - delta;
 
         // The generic cover must be able to absorb the change (it cannot go negative).
-        if (LessThan(genericNewFraction, 0, EPSILON_D)) {
+        if (LessThan(genericNewFraction, 0, PRECISION)) {
             LogError(
                 "The generic soil (open) land cover (%.20g) is not large enough to compensate "
                 "the area change (%.20g) with error margin (%.20g).",
-                genericOldFraction, delta, EPSILON_D);
+                genericOldFraction, delta, PRECISION);
             return false;
         }
 
@@ -443,7 +443,7 @@ void HydroUnit::TransferLandCoverContent(LandCover* changed, double oldFraction,
 
     // If the donor cover has fully vanished, clear its now zero-area storages so no
     // stale depth lingers; its volume has already been credited to the receiver.
-    if (NearlyZero(fDonorNew, EPSILON_D)) {
+    if (NearlyZero(fDonorNew, PRECISION)) {
         for (const auto& slot : donorSlots) {
             slot.brick->UpdateContent(0, slot.type);
         }
@@ -471,12 +471,12 @@ bool HydroUnit::FixLandCoverFractionsTotal() {
             LogError("No generic soil (open) land cover found. Cannot fix the land cover fractions.");
             return false;
         }
-        if (LessThan(ground->GetAreaFraction(), diff, EPSILON_D)) {
+        if (LessThan(ground->GetAreaFraction(), diff, PRECISION)) {
             LogError(
                 "The generic soil (open) land cover (%.20g) is not large enough to compensate "
                 "the area fractions (%.20g) with error margin (%.20g)."
                 "(i.e. the sum of the other land cover fractions is too large).",
-                ground->GetAreaFraction(), diff, EPSILON_D);
+                ground->GetAreaFraction(), diff, PRECISION);
             return false;
         }
         if (ground->GetAreaFraction() - diff > 0) {
-- 
2.43.0


From f507f8045ab983fec996adb7bc2d35d0580ff4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:11 +0000
Subject: [PATCH 34/83] fix: stop delivering the last fluxes of a land cover
 that vanished

---
 core/src/base/Processor.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/src/base/Processor.cpp b/core/src/base/Processor.cpp
index 3ec7af3..5a08912 100644
--- a/core/src/base/Processor.cpp
+++ b/core/src/base/Processor.cpp
@@ -257,6 +257,13 @@ bool Processor::ProcessTimeStep(double timeStepInDays) {
                 continue;
             }
             if (brick->IsNull()) {
+                // The amounts delivered before the land cover vanished must not be delivered again.
+                for (int i = 0; i < brick->GetProcessCount(); ++i) {
+                    Process* process = brick->GetProcess(i);
+                    for (int j = 0; j < process->GetOutputFluxCount(); ++j) {
+                        process->GetOutputFlux(j)->UpdateFlux(0);
+                    }
+                }
                 continue;
             }
 
-- 
2.43.0


From b4e7a6bac12fdad6e259a6d7b0422681b87116f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:09 +0000
Subject: [PATCH 35/83] fix: keep the glacier areas initialised from the lookup
 tables when the model is reset

---
 core/src/actions/ActionGlacierEvolutionAreaScaling.cpp | 1 +
 core/src/actions/ActionGlacierEvolutionDeltaH.cpp      | 1 +
 core/src/spatial/HydroUnit.cpp                         | 6 ++++++
 core/src/spatial/HydroUnit.h                           | 5 +++++
 4 files changed, 13 insertions(+)

diff --git a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
index ef5be1b..a4d7360 100644
--- a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
+++ b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
@@ -45,6 +45,7 @@ bool ActionGlacierEvolutionAreaScaling::Init() {
             if (!unit->ChangeLandCoverAreaFraction(_landCoverName, fraction)) {
                 return false;
             }
+            unit->SaveInitialAreaFractions();
         } else if (!NearlyEqual(areaInModel, areaRef, PRECISION)) {
             LogError(
                 "The glacier area fraction in hydro unit %d does not match the lookup table "
diff --git a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
index 66c512a..6e1cdc1 100644
--- a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
+++ b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
@@ -47,6 +47,7 @@ bool ActionGlacierEvolutionDeltaH::Init() {
             if (!unit->ChangeLandCoverAreaFraction(_landCoverName, fraction)) {
                 return false;
             }
+            unit->SaveInitialAreaFractions();
         } else if (!NearlyEqual(areaInModel, areaRef, PRECISION)) {
             LogError(
                 "The glacier area fraction in hydro unit %d does not match the lookup table "
diff --git a/core/src/spatial/HydroUnit.cpp b/core/src/spatial/HydroUnit.cpp
index dde9a45..d9d85ff 100644
--- a/core/src/spatial/HydroUnit.cpp
+++ b/core/src/spatial/HydroUnit.cpp
@@ -450,6 +450,12 @@ void HydroUnit::TransferLandCoverContent(LandCover* changed, double oldFraction,
     }
 }
 
+void HydroUnit::SaveInitialAreaFractions() {
+    for (auto brick : _landCoverBricks) {
+        brick->SetInitialAreaFraction(brick->GetAreaFraction());
+    }
+}
+
 void HydroUnit::RestoreInitialAreaFractions() {
     for (auto brick : _landCoverBricks) {
         brick->RestoreInitialAreaFraction();
diff --git a/core/src/spatial/HydroUnit.h b/core/src/spatial/HydroUnit.h
index aa6b8b0..5858dba 100644
--- a/core/src/spatial/HydroUnit.h
+++ b/core/src/spatial/HydroUnit.h
@@ -307,6 +307,11 @@ class HydroUnit {
      */
     bool FixLandCoverFractionsTotal();
 
+    /**
+     * Save the current area fractions as the initial ones, restored on reset.
+     */
+    void SaveInitialAreaFractions();
+
     /**
      * Restore the area fractions of all land covers to their initial extents without
      * touching the stored contents (used after the spin-up phase).
-- 
2.43.0


From c4939830006f85cfa1195ea537ecacaee27b8bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:46 +0000
Subject: [PATCH 36/83] fix: apply the actions dated on a sub-daily time step
 at that step whatever the rounding of the dates

---
 core/src/actions/ActionsManager.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/actions/ActionsManager.cpp b/core/src/actions/ActionsManager.cpp
index b4baa9e..8ebe4d7 100644
--- a/core/src/actions/ActionsManager.cpp
+++ b/core/src/actions/ActionsManager.cpp
@@ -100,9 +100,10 @@ void ActionsManager::DateUpdate(double date) {
         return;
     }
 
-    // Sporadic actions
+    // Sporadic actions (with half a second of tolerance, as sub-daily dates are not exactly representable).
     assert(_sporadicActionDates.size() == _sporadicActionIndices.size());
-    while (_sporadicActionDates.size() > _cursorManager && _sporadicActionDates[_cursorManager] <= date) {
+    double lastDate = date + 0.5 / SECONDS_PER_DAY_D;
+    while (_sporadicActionDates.size() > _cursorManager && _sporadicActionDates[_cursorManager] <= lastDate) {
         if (!_actions[_sporadicActionIndices[_cursorManager]]->Apply(date)) {
             throw RuntimeError("Application of a sporadic action failed.");
         }
-- 
2.43.0


From b347ec99eedcd34bad5fabe64d8d8dbd6d74cadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:54 +0000
Subject: [PATCH 37/83] fix: apply the yearly actions dated within a first time
 step of several days

---
 core/src/actions/ActionsManager.cpp | 6 +++++-
 core/src/actions/ActionsManager.h   | 3 ++-
 core/src/base/TimeMachine.cpp       | 3 ++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/src/actions/ActionsManager.cpp b/core/src/actions/ActionsManager.cpp
index 8ebe4d7..06d914a 100644
--- a/core/src/actions/ActionsManager.cpp
+++ b/core/src/actions/ActionsManager.cpp
@@ -80,11 +80,15 @@ int ActionsManager::GetSporadicActionItemCount() const {
     return items;
 }
 
-void ActionsManager::DateUpdate(double date) {
+void ActionsManager::DateUpdate(double date, double previousDate) {
     // Recursive actions: applied once for every day reached, whatever the time step.
     if (!_recursiveActionIndices.empty()) {
         double day = std::floor(date + 0.5 / SECONDS_PER_DAY_D);
         double firstDay = (_lastRecursiveDay > 0 && day >= _lastRecursiveDay) ? _lastRecursiveDay + 1 : day;
+        if (_lastRecursiveDay == 0 && previousDate > 0) {
+            // The first time step can also cover several days.
+            firstDay = std::min(day, std::floor(previousDate + 0.5 / SECONDS_PER_DAY_D) + 1);
+        }
         for (double d = firstDay; d <= day; ++d) {
             Time dateStruct = GetTimeStructFromMJD(d);
             for (int actionIndex : _recursiveActionIndices) {
diff --git a/core/src/actions/ActionsManager.h b/core/src/actions/ActionsManager.h
index 9dce4cd..78a73b3 100644
--- a/core/src/actions/ActionsManager.h
+++ b/core/src/actions/ActionsManager.h
@@ -61,8 +61,9 @@ class ActionsManager {
      * Update the date during the simulation. Triggers the actions that are scheduled for the current date.
      *
      * @param date corresponding date of the simulation.
+     * @param previousDate date of the previous time step (optional).
      */
-    void DateUpdate(double date);
+    void DateUpdate(double date, double previousDate = 0);
 
     /**
      * Get the sub basin associated with the model.
diff --git a/core/src/base/TimeMachine.cpp b/core/src/base/TimeMachine.cpp
index 0ca1048..1273ad6 100644
--- a/core/src/base/TimeMachine.cpp
+++ b/core/src/base/TimeMachine.cpp
@@ -59,13 +59,14 @@ void TimeMachine::IncrementTime() {
     assert(_timeStepInDays > 0);
     // Computed from the start date in order not to accumulate rounding errors.
     _stepCount++;
+    double previousDate = _date;
     _date = _start + _stepCount * _timeStepInDays;
 
     if (_parametersUpdater) {
         _parametersUpdater->DateUpdate(_date);
     }
     if (_actionsManager) {
-        _actionsManager->DateUpdate(_date);
+        _actionsManager->DateUpdate(_date, previousDate);
     }
 }
 
-- 
2.43.0


From 2d2b411ab734a4492343cdc798f73abb9c0824a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:38 +0000
Subject: [PATCH 38/83] fix: do not read compact dates with the wrong digits
 per field

---
 core/src/base/UtilsDateTime.cpp | 36 +++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/core/src/base/UtilsDateTime.cpp b/core/src/base/UtilsDateTime.cpp
index 8ed5215..99f9ccb 100644
--- a/core/src/base/UtilsDateTime.cpp
+++ b/core/src/base/UtilsDateTime.cpp
@@ -108,11 +108,43 @@ Time UtilsDateTime::FromMJD(double mjd) {
     return t;
 }
 
+// Formats without separators (e.g. %Y%m%d) need the full width of their fields: otherwise, the digits could be
+// distributed differently among the fields (e.g. 19012010 read as 1901-2-01) and give another date.
+static bool HasFixedWidthFields(const std::string& s, const char* fmt) {
+    bool isCompact = false;
+    for (const char* f = fmt; *f; ++f) {
+        if (f[0] == '%' && f[1] && f[2] == '%') {
+            isCompact = true;
+            break;
+        }
+    }
+    if (!isCompact) return true;
+
+    auto isSpace = [](char c) { return std::isspace(static_cast<unsigned char>(c)) != 0; };
+    size_t pos = 0;
+    for (const char* f = fmt; *f; ++f) {
+        if (*f == '%') {
+            ++f;
+            const int width = *f == 'Y' ? 4 : 2;
+            for (int i = 0; i < width; ++i, ++pos) {
+                if (pos >= s.size() || !std::isdigit(static_cast<unsigned char>(s[pos]))) return false;
+            }
+        } else if (isSpace(*f)) {
+            if (pos >= s.size() || !isSpace(s[pos])) return false;
+            while (pos < s.size() && isSpace(s[pos])) ++pos;
+        } else {
+            if (pos >= s.size() || s[pos] != *f) return false;
+            ++pos;
+        }
+    }
+    return true;
+}
+
 static bool ParseExact(const std::string& s, const char* fmt, std::chrono::sys_time<std::chrono::seconds>& out) {
     try {
         std::tm tm{};
         tm.tm_isdst = -1;  // Let mktime determine DST
-        if (!PlatformParseTm(s, fmt, tm)) {
+        if (!HasFixedWidthFields(s, fmt) || !PlatformParseTm(s, fmt, tm)) {
             return false;
         }
 
@@ -144,7 +176,7 @@ static bool ParseDateOnly(const std::string& s, const char* fmt, std::chrono::sy
         std::tm tm{};
         tm.tm_isdst = -1;  // Let mktime determine DST
 
-        if (!PlatformParseTm(s, fmt, tm)) {
+        if (!HasFixedWidthFields(s, fmt) || !PlatformParseTm(s, fmt, tm)) {
             return false;
         }
 
-- 
2.43.0


From 15b216a4e7847f635c4ecfafa8f28234cc82127e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:11 +0000
Subject: [PATCH 39/83] fix: the period covered by distributed time series is
 the one common to all units

---
 core/src/base/TimeSeriesDistributed.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/core/src/base/TimeSeriesDistributed.cpp b/core/src/base/TimeSeriesDistributed.cpp
index f5b05ff..98cf4d2 100644
--- a/core/src/base/TimeSeriesDistributed.cpp
+++ b/core/src/base/TimeSeriesDistributed.cpp
@@ -33,12 +33,22 @@ bool TimeSeriesDistributed::AdvanceOneTimeStep() {
 
 double TimeSeriesDistributed::GetStart() const {
     assert(!_data.empty());
-    return _data[0]->GetStart();
+    // The period covered is the one common to all units.
+    double start = _data[0]->GetStart();
+    for (const auto& data : _data) {
+        start = std::max(start, data->GetStart());
+    }
+    return start;
 }
 
 double TimeSeriesDistributed::GetEnd() const {
     assert(!_data.empty());
-    return _data[0]->GetEnd();
+    // The period covered is the one common to all units.
+    double end = _data[0]->GetEnd();
+    for (const auto& data : _data) {
+        end = std::min(end, data->GetEnd());
+    }
+    return end;
 }
 
 bool TimeSeriesDistributed::HasTimeStep(double timeStepInDays) const {
-- 
2.43.0


From 9b8883c72e46429782e5e87a9d2b1ab6f32e10db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:05 +0000
Subject: [PATCH 40/83] fix: refuse forcing data with irregular dates, which
 were misread by position

---
 core/src/base/TimeSeries.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/core/src/base/TimeSeries.cpp b/core/src/base/TimeSeries.cpp
index 5c661d0..0630708 100644
--- a/core/src/base/TimeSeries.cpp
+++ b/core/src/base/TimeSeries.cpp
@@ -4,6 +4,21 @@
 #include "TimeSeriesDistributed.h"
 #include "TimeSeriesUniform.h"
 
+// The values are accessed by their position: the dates must be regularly spaced (with a tolerance of a tenth of
+// a time step, as the dates can be stored in single precision).
+static void CheckRegularDates(const double* dates, int count) {
+    const double step = dates[1] - dates[0];
+    if (!(step > 0)) {
+        throw InputError("The dates of the forcing data must be increasing.");
+    }
+    const double regularStep = step < 1 ? std::round(step * 24) / 24 : std::round(step);
+    for (int i = 0; i < count; ++i) {
+        if (!(std::abs(dates[i] - dates[0] - i * regularStep) <= 0.1 * regularStep)) {
+            throw InputError(std::format("The dates of the forcing data are not regular or not supported (position {}).", i));
+        }
+    }
+}
+
 TimeSeries::TimeSeries(VariableType type)
     : _type(type) {}
 
@@ -32,6 +47,7 @@ bool TimeSeries::Parse(const string& path, vector<std::unique_ptr<TimeSeries>>&
         double end = GetMJD(endSt.year, endSt.month, endSt.day, endSt.hour, endSt.min);
 
         // Time step
+        CheckRegularDates(time.data(), timeLength);
         int timeStep;
         TimeUnit timeUnit;
         double timeStepData = time[1] - time[0];
@@ -110,6 +126,7 @@ std::unique_ptr<TimeSeries> TimeSeries::Create(const string& varName, const axd&
     double end = GetMJD(endSt.year, endSt.month, endSt.day, endSt.hour, endSt.min);
 
     // Time step
+    CheckRegularDates(time.data(), static_cast<int>(time.size()));
     int timeStep;
     TimeUnit timeUnit;
     double timeStepData = time[1] - time[0];
-- 
2.43.0


From c0b9c8859fad3b8528df9085a0c0eb734f9ed00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:05 +0000
Subject: [PATCH 41/83] fix: keep the time of the day of sub-daily forcing
 saved to netCDF files

---
 python/src/hydrobricks/forcing.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/python/src/hydrobricks/forcing.py b/python/src/hydrobricks/forcing.py
index 1ebed77..62f5ec9 100644
--- a/python/src/hydrobricks/forcing.py
+++ b/python/src/hydrobricks/forcing.py
@@ -738,7 +738,7 @@ class Forcing:
             var_id = nc.createVariable("id", "int", ("hydro_units",))
             var_id[:] = self.hydro_units["id"]
 
-            var_time = nc.createVariable("time", "float32", ("time",))
+            var_time = nc.createVariable("time", "float64", ("time",))
             var_time[:] = time
             var_time.units = "days since 1858-11-17 00:00:00"
             var_time.comment = "Modified Julian Day Number"
@@ -807,7 +807,18 @@ class Forcing:
 
             # Load time
             ts = num2date(nc.variables["time"][:], units=nc.variables["time"].units)
-            self.data2D.time = [pd.Timestamp(dt.year, dt.month, dt.day) for dt in ts]
+            self.data2D.time = [
+                pd.Timestamp(
+                    dt.year,
+                    dt.month,
+                    dt.day,
+                    dt.hour,
+                    dt.minute,
+                    dt.second,
+                    dt.microsecond,
+                ).round("s")
+                for dt in ts
+            ]
             self.data2D.time = pd.Series(self.data2D.time)
 
             # Load variable names
-- 
2.43.0


From 66bc5e66d3b570f7f88f57178255d101db5471fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:08 +0000
Subject: [PATCH 42/83] fix: FileNetcdf: check the dimensions and size of the
 variables read

---
 core/src/base/FileNetcdf.cpp    | 57 +++++++++++++++++++++++++--------
 core/src/base/FileNetcdf.h      | 19 ++++++++++-
 core/src/base/SettingsBasin.cpp |  4 +++
 3 files changed, 65 insertions(+), 15 deletions(-)

diff --git a/core/src/base/FileNetcdf.cpp b/core/src/base/FileNetcdf.cpp
index 35a0760..da6f568 100644
--- a/core/src/base/FileNetcdf.cpp
+++ b/core/src/base/FileNetcdf.cpp
@@ -68,9 +68,34 @@ string FileNetcdf::GetVarName(int varId) const {
     return {varNameChar};
 }
 
+int FileNetcdf::GetVarDimCount(int varId) const {
+    int dimCount;
+    CheckNcStatus(nc_inq_varndims(_ncId, varId, &dimCount));
+
+    return dimCount;
+}
+
+void FileNetcdf::CheckVarSize(int varId, size_t size) const {
+    vecInt dimIds = GetVarDimIds(varId, GetVarDimCount(varId));
+    size_t varSize = 1;
+    for (int dimId : dimIds) {
+        size_t dimLen;
+        CheckNcStatus(nc_inq_dimlen(_ncId, dimId, &dimLen));
+        varSize *= dimLen;
+    }
+
+    if (varSize != size) {
+        throw InputError(std::format("The variable {} contains {} values instead of {}.", GetVarName(varId), varSize, size));
+    }
+}
+
 vecInt FileNetcdf::GetVarDimIds(int varId, int dimCount) const {
+    if (GetVarDimCount(varId) != dimCount) {
+        throw InputError(std::format("The variable {} does not have {} dimension(s).", GetVarName(varId), dimCount));
+    }
+
     vecInt dimIds(dimCount);
-    CheckNcStatus(nc_inq_vardimid(_ncId, varId, &dimIds[0]));
+    CheckNcStatus(nc_inq_vardimid(_ncId, varId, dimIds.data()));
 
     return dimIds;
 }
@@ -100,7 +125,7 @@ int FileNetcdf::GetDimLen(const string& dimName) const {
 
 int FileNetcdf::DefVarInt(const string& varName, vecInt dimIds, int dimCount, bool compress) {
     int varId;
-    CheckNcStatus(nc_def_var(_ncId, varName.c_str(), NC_INT, dimCount, &dimIds[0], &varId));
+    CheckNcStatus(nc_def_var(_ncId, varName.c_str(), NC_INT, dimCount, dimIds.data(), &varId));
 
     if (compress) {
         CheckNcStatus(nc_def_var_deflate(_ncId, varId, NC_SHUFFLE, true, 7));
@@ -111,7 +136,7 @@ int FileNetcdf::DefVarInt(const string& varName, vecInt dimIds, int dimCount, bo
 
 int FileNetcdf::DefVarFloat(const string& varName, vecInt dimIds, int dimCount, bool compress) {
     int varId;
-    CheckNcStatus(nc_def_var(_ncId, varName.c_str(), NC_FLOAT, dimCount, &dimIds[0], &varId));
+    CheckNcStatus(nc_def_var(_ncId, varName.c_str(), NC_FLOAT, dimCount, dimIds.data(), &varId));
 
     if (compress) {
         CheckNcStatus(nc_def_var_deflate(_ncId, varId, NC_SHUFFLE, true, 7));
@@ -122,7 +147,7 @@ int FileNetcdf::DefVarFloat(const string& varName, vecInt dimIds, int dimCount,
 
 int FileNetcdf::DefVarDouble(const string& varName, vecInt dimIds, int dimCount, bool compress) {
     int varId;
-    CheckNcStatus(nc_def_var(_ncId, varName.c_str(), NC_DOUBLE, dimCount, &dimIds[0], &varId));
+    CheckNcStatus(nc_def_var(_ncId, varName.c_str(), NC_DOUBLE, dimCount, dimIds.data(), &varId));
 
     if (compress) {
         CheckNcStatus(nc_def_var_deflate(_ncId, varId, NC_SHUFFLE, true, 7));
@@ -136,7 +161,8 @@ vecInt FileNetcdf::GetVarInt1D(const string& varName, int size) const {
     vecInt items(size);
 
     CheckNcStatus(nc_inq_varid(_ncId, varName.c_str(), &varId));
-    CheckNcStatus(nc_get_var_int(_ncId, varId, &items[0]));
+    CheckVarSize(varId, items.size());
+    CheckNcStatus(nc_get_var_int(_ncId, varId, items.data()));
 
     return items;
 }
@@ -146,7 +172,8 @@ vecFloat FileNetcdf::GetVarFloat1D(const string& varName, int size) const {
     vecFloat items(size);
 
     CheckNcStatus(nc_inq_varid(_ncId, varName.c_str(), &varId));
-    CheckNcStatus(nc_get_var_float(_ncId, varId, &items[0]));
+    CheckVarSize(varId, items.size());
+    CheckNcStatus(nc_get_var_float(_ncId, varId, items.data()));
 
     return items;
 }
@@ -156,39 +183,41 @@ vecDouble FileNetcdf::GetVarDouble1D(const string& varName, int size) const {
     vecDouble items(size);
 
     CheckNcStatus(nc_inq_varid(_ncId, varName.c_str(), &varId));
-    CheckNcStatus(nc_get_var_double(_ncId, varId, &items[0]));
+    CheckVarSize(varId, items.size());
+    CheckNcStatus(nc_get_var_double(_ncId, varId, items.data()));
 
     return items;
 }
 
 axxd FileNetcdf::GetVarDouble2D(int varId, int rows, int cols) const {
     axxd values = axxd::Zero((long long)rows, (long long)cols);
+    CheckVarSize(varId, values.size());
     CheckNcStatus(nc_get_var_double(_ncId, varId, values.data()));
 
     return values;
 }
 
 void FileNetcdf::PutVar(int varId, const vecInt& values) {
-    CheckNcStatus(nc_put_var_int(_ncId, varId, &values[0]));
+    CheckNcStatus(nc_put_var_int(_ncId, varId, values.data()));
 }
 
 void FileNetcdf::PutVar(int varId, const vecFloat& values) {
-    CheckNcStatus(nc_put_var_float(_ncId, varId, &values[0]));
+    CheckNcStatus(nc_put_var_float(_ncId, varId, values.data()));
 }
 
 void FileNetcdf::PutVar(int varId, const vecDouble& values) {
-    CheckNcStatus(nc_put_var_double(_ncId, varId, &values[0]));
+    CheckNcStatus(nc_put_var_double(_ncId, varId, values.data()));
 }
 
 void FileNetcdf::PutVar(int varId, const axd& values) {
-    CheckNcStatus(nc_put_var_double(_ncId, varId, &values[0]));
+    CheckNcStatus(nc_put_var_double(_ncId, varId, values.data()));
 }
 
 void FileNetcdf::PutVar(int varId, const vecAxd& values) {
     for (size_t i = 0; i < values.size(); ++i) {
         size_t start[] = {i, 0};
         size_t count[] = {1, (size_t)values[i].size()};
-        CheckNcStatus(nc_put_vara_double(_ncId, varId, start, count, &values[i](0)));
+        CheckNcStatus(nc_put_vara_double(_ncId, varId, start, count, values[i].data()));
     }
 }
 
@@ -196,7 +225,7 @@ void FileNetcdf::PutVar(int varId, const vecAxxd& values) {
     for (size_t i = 0; i < values.size(); ++i) {
         size_t start[] = {i, 0, 0};
         size_t count[] = {1, (size_t)values[i].cols(), (size_t)values[i].rows()};
-        CheckNcStatus(nc_put_vara_double(_ncId, varId, start, count, &values[i](0, 0)));
+        CheckNcStatus(nc_put_vara_double(_ncId, varId, start, count, values[i].data()));
     }
 }
 
@@ -244,7 +273,7 @@ void FileNetcdf::PutAttString(const string& attName, const vecStr& values, int v
         const char* str = static_cast<const char*>(label.c_str());
         valuesChar.push_back(str);
     }
-    CheckNcStatus(nc_put_att_string(_ncId, varId, attName.c_str(), values.size(), &valuesChar[0]));
+    CheckNcStatus(nc_put_att_string(_ncId, varId, attName.c_str(), values.size(), valuesChar.data()));
 }
 
 string FileNetcdf::GetAttText(const string& attName, const string& varName) const {
diff --git a/core/src/base/FileNetcdf.h b/core/src/base/FileNetcdf.h
index a2b6d7d..960a8f5 100644
--- a/core/src/base/FileNetcdf.h
+++ b/core/src/base/FileNetcdf.h
@@ -56,7 +56,16 @@ class FileNetcdf {
     string GetVarName(int varId) const;
 
     /**
-     * Get the dimension ids of the provided variable.
+     * Get the number of dimensions of the provided variable.
+     *
+     * @param varId The id of the variable of interest.
+     * @return The number of dimensions of the variable.
+     */
+    int GetVarDimCount(int varId) const;
+
+    /**
+     * Get the dimension ids of the provided variable. Throws an exception if the variable does not have the provided
+     * number of dimensions.
      *
      * @param varId The id of the variable of interest.
      * @param dimCount The number of dimensions of the variable.
@@ -270,6 +279,14 @@ class FileNetcdf {
      * @param status The NetCDF status to check.
      */
     void CheckNcStatus(int status) const;
+
+    /**
+     * Check the total number of values of a variable and throw an exception if it differs from the expected one.
+     *
+     * @param varId The id of the variable of interest.
+     * @param size The expected number of values.
+     */
+    void CheckVarSize(int varId, size_t size) const;
 };
 
 #endif  // HYDROBRICKS_FILE_NETCDF_H
diff --git a/core/src/base/SettingsBasin.cpp b/core/src/base/SettingsBasin.cpp
index 89ef609..66c4167 100644
--- a/core/src/base/SettingsBasin.cpp
+++ b/core/src/base/SettingsBasin.cpp
@@ -136,6 +136,10 @@ bool SettingsBasin::Parse(const string& path) {
                 continue;
             }
 
+            if (file.GetVarDimCount(iVar) != 1) {
+                continue;
+            }
+
             vecInt dimId = file.GetVarDimIds(iVar, 1);
             if (dimId[0] != dimIdHydroUnits) {
                 continue;
-- 
2.43.0


From c3a2ecdf55ea674b8dcd97a23985c51701648e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:08 +0000
Subject: [PATCH 43/83] fix: read the land covers of the basin files written by
 HydroUnits.save_as

---
 core/src/base/FileNetcdf.cpp    | 7 +++++++
 core/src/base/SettingsBasin.cpp | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/core/src/base/FileNetcdf.cpp b/core/src/base/FileNetcdf.cpp
index da6f568..dbc8878 100644
--- a/core/src/base/FileNetcdf.cpp
+++ b/core/src/base/FileNetcdf.cpp
@@ -250,6 +250,13 @@ vecStr FileNetcdf::GetAttString1D(const string& attName, const string& varName)
         CheckNcStatus(nc_inq_varid(_ncId, varName.c_str(), &varId));
     }
 
+    // A single string can be stored as a text attribute.
+    nc_type attType;
+    CheckNcStatus(nc_inq_atttype(_ncId, varId, attName.c_str(), &attType));
+    if (attType == NC_CHAR) {
+        return {GetAttText(attName, varName)};
+    }
+
     size_t itemCount;
     CheckNcStatus(nc_inq_attlen(_ncId, varId, attName.c_str(), &itemCount));
 
diff --git a/core/src/base/SettingsBasin.cpp b/core/src/base/SettingsBasin.cpp
index 66c4167..82b28bf 100644
--- a/core/src/base/SettingsBasin.cpp
+++ b/core/src/base/SettingsBasin.cpp
@@ -80,6 +80,8 @@ bool SettingsBasin::Parse(const string& path) {
         vecStr landCovers;
         if (file.HasAtt("land_covers")) {
             landCovers = file.GetAttString1D("land_covers");
+        } else if (file.HasAtt("land_cover_names")) {
+            landCovers = file.GetAttString1D("land_cover_names");
         } else if (file.HasAtt("surface_names")) {
             landCovers = file.GetAttString1D("surface_names");
         }
-- 
2.43.0


From 1d3dcde66fa31d5c70f770c81e48643e28cb593b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:08 +0000
Subject: [PATCH 44/83] fix: write the CSV results with the full precision

---
 core/src/base/ResultWriter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/base/ResultWriter.cpp b/core/src/base/ResultWriter.cpp
index d173bee..bcb4eaa 100644
--- a/core/src/base/ResultWriter.cpp
+++ b/core/src/base/ResultWriter.cpp
@@ -2,6 +2,8 @@
 
 #include <filesystem>
 #include <fstream>
+#include <iomanip>
+#include <limits>
 
 #include "FileNetcdf.h"
 
@@ -107,6 +109,7 @@ bool ResultWriter::WriteCSV(const string& path, const axd& time, const vecStr& l
         }
 
         // Write header
+        outFile << std::setprecision(std::numeric_limits<double>::max_digits10);
         outFile << "time";
         for (const auto& label : labels) {
             outFile << "," << label;
-- 
2.43.0


From fb7ef861e3e010453b14ccf50914446766c74269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:20 +0000
Subject: [PATCH 45/83] fix: number of spin-up steps for sub-daily time steps

---
 core/src/base/ModelHydro.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/base/ModelHydro.cpp b/core/src/base/ModelHydro.cpp
index b3be680..257366b 100644
--- a/core/src/base/ModelHydro.cpp
+++ b/core/src/base/ModelHydro.cpp
@@ -47,9 +47,10 @@ ModelResult ModelHydro::Initialize(SettingsModel& modelSettings, SettingsBasin&
         }
 
         // Convert the spin-up duration into time steps; a spin-up longer than the
-        // modelling period degrades to replaying the whole period once.
+        // modelling period degrades to replaying the whole period once. The tolerance compensates the rounding of
+        // the sub-daily time steps.
         double timeStepInDays = *_timer.GetTimeStepPointer();
-        _spinupSteps = static_cast<int>(modelSettings.GetTimerSettings().spinupDays / timeStepInDays);
+        _spinupSteps = static_cast<int>(modelSettings.GetTimerSettings().spinupDays / timeStepInDays + PRECISION);
         _spinupSteps = std::min(_spinupSteps, _timer.GetTimeStepCount());
 
         _processor.Initialize(modelSettings.GetSolverSettings());
-- 
2.43.0


From 16c4d8192c8c575555e62ca00c583c743af4be33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:03 +0000
Subject: [PATCH 46/83] fix: refuse unknown brick and splitter types (instead
 of crashing)

---
 core/src/base/ModelBuilder.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/core/src/base/ModelBuilder.cpp b/core/src/base/ModelBuilder.cpp
index a57a8d4..8343342 100644
--- a/core/src/base/ModelBuilder.cpp
+++ b/core/src/base/ModelBuilder.cpp
@@ -111,6 +111,9 @@ void ModelBuilder::CreateSubBasinComponents(SettingsModel& modelSettings) {
         const BrickSettings& brickSettings = modelSettings.GetSubBasinBrickSettings(iBrick);
 
         auto brickPtr = Brick::Factory(brickSettings);
+        if (!brickPtr) {
+            throw ModelConfigError(std::format("The type '{}' of the brick '{}' is not valid.", brickSettings.type, brickSettings.name));
+        }
         Brick* brick = brickPtr.get();
         brick->SetName(brickSettings.name);
         brick->SetParameters(brickSettings);
@@ -138,6 +141,10 @@ void ModelBuilder::CreateSubBasinComponents(SettingsModel& modelSettings) {
         const SplitterSettings& splitterSettings = modelSettings.GetSubBasinSplitterSettings(iSplitter);
 
         auto splitterPtr = Splitter::Factory(splitterSettings);
+        if (!splitterPtr) {
+            throw ModelConfigError(
+                std::format("The type '{}' of the splitter '{}' is not valid.", splitterSettings.type, splitterSettings.name));
+        }
         Splitter* splitter = splitterPtr.get();
         splitter->SetName(splitterSettings.name);
         splitter->SetParameters(splitterSettings);
@@ -183,6 +190,10 @@ void ModelBuilder::CreateHydroUnitsComponents(SettingsModel& modelSettings) {
             const SplitterSettings& splitterSettings = modelSettings.GetHydroUnitSplitterSettings(iSplitter);
 
             auto splitterPtr = Splitter::Factory(splitterSettings);
+            if (!splitterPtr) {
+                throw ModelConfigError(
+                    std::format("The type '{}' of the splitter '{}' is not valid.", splitterSettings.type, splitterSettings.name));
+            }
             Splitter* splitter = splitterPtr.get();
             splitter->SetName(splitterSettings.name);
             splitter->SetParameters(splitterSettings);
@@ -209,6 +220,9 @@ void ModelBuilder::CreateHydroUnitBrick(SettingsModel& modelSettings, HydroUnit*
     const BrickSettings& brickSettings = modelSettings.GetHydroUnitBrickSettings(iBrick);
 
     auto brickPtr = std::unique_ptr<Brick>(Brick::Factory(brickSettings));
+    if (!brickPtr) {
+        throw ModelConfigError(std::format("The type '{}' of the brick '{}' is not valid.", brickSettings.type, brickSettings.name));
+    }
     Brick* brick = brickPtr.get();
     brick->SetName(brickSettings.name);
     brick->SetParameters(brickSettings);
-- 
2.43.0


From a05ecfe1e4c6f5c4817cdda2f097862865c0b935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:03 +0000
Subject: [PATCH 47/83] fix: refuse hydro units with an undefined (NaN) area

---
 core/src/spatial/HydroUnit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/spatial/HydroUnit.cpp b/core/src/spatial/HydroUnit.cpp
index d9d85ff..c2f88ba 100644
--- a/core/src/spatial/HydroUnit.cpp
+++ b/core/src/spatial/HydroUnit.cpp
@@ -289,7 +289,7 @@ bool HydroUnit::IsValid(bool checkProcesses) const {
     for (const auto& splitter : _splitters) {
         if (!splitter->IsValid()) return false;
     }
-    if (_area <= 0) {
+    if (!(_area > 0)) {
         LogError("The hydro unit area has not been defined.");
         return false;
     }
-- 
2.43.0


From 86b5d551b712984ba6de826ba884ece92a3eb265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:03 +0000
Subject: [PATCH 48/83] fix: refuse lateral connections with unknown units or
 an undefined fraction

---
 core/src/spatial/HydroUnit.cpp | 2 +-
 core/src/spatial/SubBasin.cpp  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/spatial/HydroUnit.cpp b/core/src/spatial/HydroUnit.cpp
index c2f88ba..019113a 100644
--- a/core/src/spatial/HydroUnit.cpp
+++ b/core/src/spatial/HydroUnit.cpp
@@ -204,7 +204,7 @@ Forcing* HydroUnit::GetForcing(VariableType type) const {
 
 void HydroUnit::AddLateralConnection(HydroUnit* receiver, double fraction, const string& type) {
     assert(receiver);
-    if (fraction <= 0 || fraction > 1) {
+    if (!(fraction > 0 && fraction <= 1)) {
         throw ModelConfigError(std::format("The fraction ({}) is not in the range ]0 .. 1]", fraction));
     }
     _lateralConnections.push_back(std::make_unique<HydroUnitLateralConnection>(receiver, fraction, type));
diff --git a/core/src/spatial/SubBasin.cpp b/core/src/spatial/SubBasin.cpp
index b88468b..9eab25d 100644
--- a/core/src/spatial/SubBasin.cpp
+++ b/core/src/spatial/SubBasin.cpp
@@ -49,7 +49,8 @@ void SubBasin::BuildBasin(SettingsBasin& basinSettings) {
         if (giver && receiver) {
             giver->AddLateralConnection(receiver, connection.fraction, connection.type);
         } else {
-            LogError("Invalid hydro unit IDs in lateral connection settings.");
+            throw ModelConfigError(std::format("Invalid hydro unit IDs ({}, {}) in lateral connection settings.",
+                                               connection.giverHydroUnitId, connection.receiverHydroUnitId));
         }
     }
 }
-- 
2.43.0


From 8fed1bb4152ab348ef288f01538c38ee38fde038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:04 +0000
Subject: [PATCH 49/83] fix: refuse land covers that are unknown or have an
 invalid fraction

---
 core/src/spatial/SubBasin.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/core/src/spatial/SubBasin.cpp b/core/src/spatial/SubBasin.cpp
index 9eab25d..7bb61ed 100644
--- a/core/src/spatial/SubBasin.cpp
+++ b/core/src/spatial/SubBasin.cpp
@@ -73,10 +73,21 @@ ModelResult SubBasin::AssignFractions(SettingsBasin& basinSettings) {
                 // non-glacier unit on a glacier-free structure); skip it then.
                 auto* genericBrick = _hydroUnits[iUnit]->TryGetBrick(elementSettings.name);
                 if (genericBrick == nullptr) {
+                    if (elementSettings.fraction > TOLERANCE_LOOSE) {
+                        throw ModelConfigError(
+                            std::format("The land cover '{}' of the hydro unit {} is not part of its model structure.",
+                                        elementSettings.name, _hydroUnits[iUnit]->GetId()));
+                    }
                     continue;
                 }
                 auto brick = dynamic_cast<LandCover*>(genericBrick);
-                assert(brick);
+                if (brick == nullptr) {
+                    throw ModelConfigError(std::format("The brick '{}' is not a land cover.", elementSettings.name));
+                }
+                if (!(elementSettings.fraction >= -TOLERANCE_LOOSE && elementSettings.fraction <= 1 + TOLERANCE_LOOSE)) {
+                    throw ModelConfigError(std::format("The fraction ({}) of the land cover '{}' is not in the range [0 .. 1]",
+                                                       elementSettings.fraction, elementSettings.name));
+                }
                 brick->SetAreaFraction(elementSettings.fraction);
                 // Capture the assigned extent as the initial one to restore on reset.
                 brick->SetInitialAreaFraction(elementSettings.fraction);
-- 
2.43.0


From 18c47231054e7798c57f8eac246803d73307cb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:04 +0000
Subject: [PATCH 50/83] fix: refuse hydro unit properties that have no value or
 an unsupported unit

---
 core/src/spatial/HydroUnit.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/src/spatial/HydroUnit.cpp b/core/src/spatial/HydroUnit.cpp
index 019113a..3305ad5 100644
--- a/core/src/spatial/HydroUnit.cpp
+++ b/core/src/spatial/HydroUnit.cpp
@@ -136,7 +136,12 @@ void HydroUnit::AddProperty(std::unique_ptr<HydroUnitProperty> property) {
 double HydroUnit::GetPropertyDouble(std::string_view name, std::string_view unit) const {
     for (const auto& property : _properties) {
         if (property->GetName() == name) {
-            return property->GetValue(unit);
+            double value = property->GetValue(unit);
+            if (std::isnan(value)) {
+                throw ModelConfigError(
+                    std::format("The property '{}' has no value or cannot be converted to '{}'.", name, unit));
+            }
+            return value;
         }
     }
 
-- 
2.43.0


From 3b0df0460c675a776e7578c39f346e2cc0e99a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:16 +0000
Subject: [PATCH 51/83] fix: refuse land cover changes of unknown units or to
 undefined areas

---
 core/src/actions/Action.cpp                | 2 +-
 core/src/actions/ActionLandCoverChange.cpp | 3 +++
 core/src/spatial/HydroUnit.cpp             | 2 +-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/src/actions/Action.cpp b/core/src/actions/Action.cpp
index 53265f0..f7eebf3 100644
--- a/core/src/actions/Action.cpp
+++ b/core/src/actions/Action.cpp
@@ -74,7 +74,7 @@ double Action::CheckLandCoverAreaFraction(const string& name, int id, double fra
     }
 
     // If the fraction is not in the range [0, 1], raise an error.
-    if ((fraction < 0) || (fraction > 1)) {
+    if (!(fraction >= 0 && fraction <= 1)) {
         LogError("The given fraction ({}) for '{}' is not in the allowed range [0 .. 1]", fraction, name);
         LogError("The unit area is {}, and the land cover area to assign is {}.", unitArea, lcArea);
         LogError("Failed to set the '{}' area fraction for hydro unit {}.", name, id);
diff --git a/core/src/actions/ActionLandCoverChange.cpp b/core/src/actions/ActionLandCoverChange.cpp
index e93cbc8..a0eb5fd 100644
--- a/core/src/actions/ActionLandCoverChange.cpp
+++ b/core/src/actions/ActionLandCoverChange.cpp
@@ -30,6 +30,9 @@ bool ActionLandCoverChange::Apply(double) {
     assert(_landCoverNames.size() > _landCoverIds[_cursor]);
 
     HydroUnit* unit = _manager->GetHydroUnitById(_hydroUnitIds[_cursor]);
+    if (unit == nullptr) {
+        return false;
+    }
     string landCoverName = _landCoverNames[_landCoverIds[_cursor]];
     double areaFraction = _areas[_cursor] / unit->GetArea();
     areaFraction = CheckLandCoverAreaFraction(landCoverName, _hydroUnitIds[_cursor], areaFraction, unit->GetArea(),
diff --git a/core/src/spatial/HydroUnit.cpp b/core/src/spatial/HydroUnit.cpp
index 3305ad5..cb3337b 100644
--- a/core/src/spatial/HydroUnit.cpp
+++ b/core/src/spatial/HydroUnit.cpp
@@ -335,7 +335,7 @@ void HydroUnit::Validate() const {
 }
 
 bool HydroUnit::ChangeLandCoverAreaFraction(std::string_view name, double fraction) {
-    if ((fraction < 0) || (fraction > 1)) {
+    if (!(fraction >= 0 && fraction <= 1)) {
         LogError("The given fraction ({}) for '{}' is not in the allowed range [0 .. 1]", fraction, name);
         return false;
     }
-- 
2.43.0


From e4f5c6491b171da6cca2f2c302dd9ef5a2dfe77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:35 +0000
Subject: [PATCH 52/83] fix: refuse to run without the needed forcing data (or
 with deleted data)

---
 core/src/base/Forcing.cpp      |  4 ++++
 core/src/base/Forcing.h        |  5 +++++
 core/src/base/ModelHydro.cpp   | 11 +++++++++++
 core/src/spatial/HydroUnit.cpp | 11 +++++++++++
 core/src/spatial/HydroUnit.h   | 12 ++++++++++++
 5 files changed, 43 insertions(+)

diff --git a/core/src/base/Forcing.cpp b/core/src/base/Forcing.cpp
index b5a7f85..ab74b4d 100644
--- a/core/src/base/Forcing.cpp
+++ b/core/src/base/Forcing.cpp
@@ -9,6 +9,10 @@ void Forcing::AttachTimeSeriesData(TimeSeriesData* timeSeriesData) {
     _timeSeriesData = timeSeriesData;
 }
 
+void Forcing::DetachTimeSeriesData() {
+    _timeSeriesData = nullptr;
+}
+
 double Forcing::GetValue() const {
     assert(_timeSeriesData);
     if (_hasUpdatedValue) return _updatedValue;
diff --git a/core/src/base/Forcing.h b/core/src/base/Forcing.h
index 9c0fa6c..31bcb6d 100644
--- a/core/src/base/Forcing.h
+++ b/core/src/base/Forcing.h
@@ -17,6 +17,11 @@ class Forcing {
      */
     void AttachTimeSeriesData(TimeSeriesData* timeSeriesData);
 
+    /**
+     * Detach the time series data (e.g. before its deletion).
+     */
+    void DetachTimeSeriesData();
+
     /**
      * Get the type of the forcing.
      *
diff --git a/core/src/base/ModelHydro.cpp b/core/src/base/ModelHydro.cpp
index 257366b..77b27f8 100644
--- a/core/src/base/ModelHydro.cpp
+++ b/core/src/base/ModelHydro.cpp
@@ -331,6 +331,10 @@ bool ModelHydro::CreateTimeSeries(const string& varName, const axd& time, const
 }
 
 void ModelHydro::ClearTimeSeries() {
+    // The forcing of the hydro units must not refer to the deleted data.
+    for (int iUnit = 0; _subBasin && iUnit < _subBasin->GetHydroUnitCount(); ++iUnit) {
+        _subBasin->GetHydroUnit(iUnit)->DetachForcingData();
+    }
     _timeSeries.clear();  // Automatic cleanup via unique_ptr
 }
 
@@ -366,6 +370,13 @@ ModelResult ModelHydro::InitializeTimeSeries() {
         }
     }
 
+    for (int iUnit = 0; iUnit < _subBasin->GetHydroUnitCount(); ++iUnit) {
+        HydroUnit* unit = _subBasin->GetHydroUnit(iUnit);
+        if (!unit->HasAllForcingData()) {
+            return std::unexpected(std::format("Forcing data is missing for the hydro unit {}.", unit->GetId()));
+        }
+    }
+
     // A run stopped in the middle of a time step leaves updated forcing values behind.
     _subBasin->ResetForcingUpdates();
 
diff --git a/core/src/spatial/HydroUnit.cpp b/core/src/spatial/HydroUnit.cpp
index cb3337b..a888ca9 100644
--- a/core/src/spatial/HydroUnit.cpp
+++ b/core/src/spatial/HydroUnit.cpp
@@ -1,5 +1,6 @@
 #include "HydroUnit.h"
 
+#include <algorithm>
 #include <cmath>
 #include <utility>
 
@@ -192,6 +193,16 @@ void HydroUnit::AddForcing(std::unique_ptr<Forcing> forcing) {
     _forcing.push_back(std::move(forcing));
 }
 
+bool HydroUnit::HasAllForcingData() const {
+    return std::all_of(_forcing.begin(), _forcing.end(), [](const auto& forcing) { return forcing->IsValid(); });
+}
+
+void HydroUnit::DetachForcingData() {
+    for (const auto& forcing : _forcing) {
+        forcing->DetachTimeSeriesData();
+    }
+}
+
 void HydroUnit::ResetForcingUpdates() {
     for (const auto& forcing : _forcing) {
         forcing->ResetUpdate();
diff --git a/core/src/spatial/HydroUnit.h b/core/src/spatial/HydroUnit.h
index 5858dba..ef010f8 100644
--- a/core/src/spatial/HydroUnit.h
+++ b/core/src/spatial/HydroUnit.h
@@ -115,6 +115,18 @@ class HydroUnit {
      */
     [[nodiscard]] Forcing* GetForcing(VariableType type) const;
 
+    /**
+     * Check if a time series is attached to every forcing needed by the unit.
+     *
+     * @return true if all the needed forcing is available.
+     */
+    [[nodiscard]] bool HasAllForcingData() const;
+
+    /**
+     * Detach the time series from the forcing.
+     */
+    void DetachForcingData();
+
     /**
      * Reset all dynamic forcing overrides set during the current timestep.
      */
-- 
2.43.0


From 6eb61284b0980c4fd49732eea6e17b7b26cfe2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:35 +0000
Subject: [PATCH 53/83] fix: refuse snow to ice transformations on land covers
 that are not glaciers

---
 .../ActionGlacierSnowToIceTransformation.cpp      | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/core/src/actions/ActionGlacierSnowToIceTransformation.cpp b/core/src/actions/ActionGlacierSnowToIceTransformation.cpp
index adafa62..53d9128 100644
--- a/core/src/actions/ActionGlacierSnowToIceTransformation.cpp
+++ b/core/src/actions/ActionGlacierSnowToIceTransformation.cpp
@@ -26,9 +26,20 @@ bool ActionGlacierSnowToIceTransformation::Init() {
 
     for (int i = 0; i < _manager->GetSubBasin()->GetHydroUnitCount(); ++i) {
         auto unit = _manager->GetSubBasin()->GetHydroUnit(i);
-        if (unit->TryGetLandCover(_landCoverName) != nullptr) {
-            _hydroUnitIds.push_back(unit->GetId());
+        LandCover* landCover = unit->TryGetLandCover(_landCoverName);
+        if (landCover == nullptr) {
+            continue;
+        }
+        if (dynamic_cast<Glacier*>(landCover) == nullptr) {
+            LogError("The land cover {} is not a glacier.", _landCoverName);
+            return false;
         }
+        _hydroUnitIds.push_back(unit->GetId());
+    }
+
+    if (_hydroUnitIds.empty()) {
+        LogError("The land cover {} was not found in any hydro unit.", _landCoverName);
+        return false;
     }
 
     return true;
-- 
2.43.0


From 80a74cedd7e70dc21ddcfe02dbd0960bc98e62a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:17 +0000
Subject: [PATCH 54/83] fix: accept the rounding errors of large glacier areas
 in the lookup tables

---
 core/src/actions/ActionGlacierEvolutionAreaScaling.cpp | 2 +-
 core/src/actions/ActionGlacierEvolutionDeltaH.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
index a4d7360..a4bee6b 100644
--- a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
+++ b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
@@ -46,7 +46,7 @@ bool ActionGlacierEvolutionAreaScaling::Init() {
                 return false;
             }
             unit->SaveInitialAreaFractions();
-        } else if (!NearlyEqual(areaInModel, areaRef, PRECISION)) {
+        } else if (!NearlyEqual(areaInModel, areaRef, PRECISION * std::max(1.0, areaRef))) {
             LogError(
                 "The glacier area fraction in hydro unit %d does not match the lookup table "
                 "initial area (%g vs %g).",
diff --git a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
index 6e1cdc1..7f12703 100644
--- a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
+++ b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
@@ -48,7 +48,7 @@ bool ActionGlacierEvolutionDeltaH::Init() {
                 return false;
             }
             unit->SaveInitialAreaFractions();
-        } else if (!NearlyEqual(areaInModel, areaRef, PRECISION)) {
+        } else if (!NearlyEqual(areaInModel, areaRef, PRECISION * std::max(1.0, areaRef))) {
             LogError(
                 "The glacier area fraction in hydro unit %d does not match the lookup table "
                 "initial area (%g vs %g).",
-- 
2.43.0


From d0b79aa98fc12edce3c732cd5f1f3e9dc29926f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:18 +0000
Subject: [PATCH 55/83] fix: check the dimensions of the glacier lookup tables

---
 core/src/actions/ActionGlacierEvolutionAreaScaling.cpp | 4 ++++
 core/src/actions/ActionGlacierEvolutionDeltaH.cpp      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
index a4bee6b..a56926e 100644
--- a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
+++ b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
@@ -8,6 +8,10 @@ ActionGlacierEvolutionAreaScaling::ActionGlacierEvolutionAreaScaling() = default
 
 void ActionGlacierEvolutionAreaScaling::AddLookupTables(int month, const string& landCoverName, const axi& hydroUnitIds,
                                                         const axxd& areas, const axxd& volumes) {
+    if (areas.rows() < 1 || areas.cols() != hydroUnitIds.size() || volumes.rows() != areas.rows() ||
+        volumes.cols() != areas.cols()) {
+        throw InputError("The dimensions of the glacier lookup tables do not match.");
+    }
     AddRecursiveDate(month, 1);
     _landCoverName = landCoverName;
     _hydroUnitIds = hydroUnitIds;
diff --git a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
index 7f12703..6ee8144 100644
--- a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
+++ b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
@@ -8,6 +8,10 @@ ActionGlacierEvolutionDeltaH::ActionGlacierEvolutionDeltaH() = default;
 
 void ActionGlacierEvolutionDeltaH::AddLookupTables(int month, const string& landCoverName, const axi& hydroUnitIds,
                                                    const axxd& areas, const axxd& volumes) {
+    if (areas.rows() < 1 || areas.cols() != hydroUnitIds.size() || volumes.rows() != areas.rows() ||
+        volumes.cols() != areas.cols()) {
+        throw InputError("The dimensions of the glacier lookup tables do not match.");
+    }
     AddRecursiveDate(month, 1);
     _landCoverName = landCoverName;
     _hydroUnitIds = hydroUnitIds;
-- 
2.43.0


From 06ee6a4344323a894579d6c494e238b895ad8195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:55 +0000
Subject: [PATCH 56/83] fix: leave the model unchanged when a glacier evolution
 action is refused

---
 .../ActionGlacierEvolutionAreaScaling.cpp     | 37 +++++++++++++------
 .../actions/ActionGlacierEvolutionDeltaH.cpp  | 37 +++++++++++++------
 2 files changed, 50 insertions(+), 24 deletions(-)

diff --git a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
index a56926e..abdb29f 100644
--- a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
+++ b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
@@ -30,6 +30,7 @@ bool ActionGlacierEvolutionAreaScaling::Init() {
         return false;
     }
 
+    // Check all hydro units first, so that a refused action leaves the model unchanged.
     for (int i = 0; i < _hydroUnitIds.size(); i++) {
         int id = _hydroUnitIds[i];
         HydroUnit* unit = _manager->GetHydroUnitById(id);
@@ -37,10 +38,33 @@ bool ActionGlacierEvolutionAreaScaling::Init() {
             LogError("The hydro unit {} was not found", id);
             return false;
         }
+        LandCover* brick = unit->TryGetLandCover(_landCoverName);
+        if (brick == nullptr) {
+            LogError("The land cover {} was not found in hydro unit {}", _landCoverName, id);
+            return false;
+        }
 
         // Check that the glacier area corresponds to the lookup table initial area.
         double areaRef = _tableArea(0, i);
-        double areaInModel = unit->GetLandCover(_landCoverName)->GetAreaFraction() * unit->GetArea();
+        double areaInModel = brick->GetAreaFraction() * unit->GetArea();
+        if (NearlyZero(areaInModel, PRECISION)) {
+            CheckLandCoverAreaFraction(_landCoverName, id, areaRef / unit->GetArea(), unit->GetArea(), areaRef);
+        } else if (!NearlyEqual(areaInModel, areaRef, PRECISION * std::max(1.0, areaRef))) {
+            LogError(
+                "The glacier area fraction in hydro unit %d does not match the lookup table "
+                "initial area (%g vs %g).",
+                id, areaInModel, areaRef);
+            return false;
+        }
+    }
+
+    for (int i = 0; i < _hydroUnitIds.size(); i++) {
+        int id = _hydroUnitIds[i];
+        HydroUnit* unit = _manager->GetHydroUnitById(id);
+        LandCover* brick = unit->GetLandCover(_landCoverName);
+
+        double areaRef = _tableArea(0, i);
+        double areaInModel = brick->GetAreaFraction() * unit->GetArea();
         if (NearlyZero(areaInModel, PRECISION)) {
             // If the glacier area is zero, initialize the fraction.
             double fraction = areaRef / unit->GetArea();
@@ -50,20 +74,9 @@ bool ActionGlacierEvolutionAreaScaling::Init() {
                 return false;
             }
             unit->SaveInitialAreaFractions();
-        } else if (!NearlyEqual(areaInModel, areaRef, PRECISION * std::max(1.0, areaRef))) {
-            LogError(
-                "The glacier area fraction in hydro unit %d does not match the lookup table "
-                "initial area (%g vs %g).",
-                id, areaInModel, areaRef);
-            return false;
         }
 
         // Initialize the glacier container.
-        LandCover* brick = unit->TryGetLandCover(_landCoverName);
-        if (brick == nullptr) {
-            LogError("The land cover {} was not found in hydro unit {}", _landCoverName, id);
-            return false;
-        }
         double iceWE = 0;
         if (!NearlyZero(areaRef, PRECISION)) {
             iceWE = _tableVolume(0, i) * constants::iceDensity / areaRef;
diff --git a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
index 6ee8144..16ddefb 100644
--- a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
+++ b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
@@ -32,6 +32,7 @@ bool ActionGlacierEvolutionDeltaH::Init() {
         return false;
     }
 
+    // Check all hydro units first, so that a refused action leaves the model unchanged.
     for (int i = 0; i < _hydroUnitIds.size(); i++) {
         int id = _hydroUnitIds[i];
         HydroUnit* unit = _manager->GetHydroUnitById(id);
@@ -39,10 +40,33 @@ bool ActionGlacierEvolutionDeltaH::Init() {
             LogError("The hydro unit {} was not found", id);
             return false;
         }
+        LandCover* brick = unit->TryGetLandCover(_landCoverName);
+        if (brick == nullptr) {
+            LogError("The land cover {} was not found in hydro unit {}", _landCoverName, id);
+            return false;
+        }
 
         // Check that the glacier area corresponds to the lookup table initial area.
         double areaRef = _tableArea(0, i);
-        double areaInModel = unit->GetLandCover(_landCoverName)->GetAreaFraction() * unit->GetArea();
+        double areaInModel = brick->GetAreaFraction() * unit->GetArea();
+        if (NearlyZero(areaInModel, PRECISION)) {
+            CheckLandCoverAreaFraction(_landCoverName, id, areaRef / unit->GetArea(), unit->GetArea(), areaRef);
+        } else if (!NearlyEqual(areaInModel, areaRef, PRECISION * std::max(1.0, areaRef))) {
+            LogError(
+                "The glacier area fraction in hydro unit %d does not match the lookup table "
+                "initial area (%g vs %g).",
+                id, areaInModel, areaRef);
+            return false;
+        }
+    }
+
+    for (int i = 0; i < _hydroUnitIds.size(); i++) {
+        int id = _hydroUnitIds[i];
+        HydroUnit* unit = _manager->GetHydroUnitById(id);
+        LandCover* brick = unit->GetLandCover(_landCoverName);
+
+        double areaRef = _tableArea(0, i);
+        double areaInModel = brick->GetAreaFraction() * unit->GetArea();
         if (NearlyZero(areaInModel, PRECISION)) {
             // If the glacier area is zero, initialize the fraction.
             double fraction = areaRef / unit->GetArea();
@@ -52,20 +76,9 @@ bool ActionGlacierEvolutionDeltaH::Init() {
                 return false;
             }
             unit->SaveInitialAreaFractions();
-        } else if (!NearlyEqual(areaInModel, areaRef, PRECISION * std::max(1.0, areaRef))) {
-            LogError(
-                "The glacier area fraction in hydro unit %d does not match the lookup table "
-                "initial area (%g vs %g).",
-                id, areaInModel, areaRef);
-            return false;
         }
 
         // Initialize the glacier container.
-        LandCover* brick = unit->TryGetLandCover(_landCoverName);
-        if (brick == nullptr) {
-            LogError("The land cover {} was not found in hydro unit {}", _landCoverName, id);
-            return false;
-        }
         double iceWE = 0;
         if (!NearlyZero(areaRef, PRECISION)) {
             iceWE = _tableVolume(0, i) * constants::iceDensity / areaRef;
-- 
2.43.0


From 070919baa1e44d31067f3712c2f9d9bc76124ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:34 +0000
Subject: [PATCH 57/83] fix: refuse glacier lookup tables with undefined or
 negative values, or ice without area

---
 core/src/actions/Action.cpp                   | 21 +++++++++++++++++++
 core/src/actions/Action.h                     | 10 +++++++++
 .../ActionGlacierEvolutionAreaScaling.cpp     |  5 +----
 .../actions/ActionGlacierEvolutionDeltaH.cpp  |  5 +----
 4 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/core/src/actions/Action.cpp b/core/src/actions/Action.cpp
index f7eebf3..f6297ec 100644
--- a/core/src/actions/Action.cpp
+++ b/core/src/actions/Action.cpp
@@ -1,5 +1,7 @@
 #include "Action.h"
 
+#include <cmath>
+
 #include "ModelHydro.h"
 
 Action::Action()
@@ -84,6 +86,25 @@ double Action::CheckLandCoverAreaFraction(const string& name, int id, double fra
     return fraction;
 }
 
+void Action::CheckGlacierLookupTables(const axi& hydroUnitIds, const axxd& areas, const axxd& volumes) {
+    if (areas.rows() < 1 || areas.cols() != hydroUnitIds.size() || volumes.rows() != areas.rows() ||
+        volumes.cols() != areas.cols()) {
+        throw InputError("The dimensions of the glacier lookup tables do not match.");
+    }
+    for (Eigen::Index row = 0; row < areas.rows(); ++row) {
+        for (Eigen::Index col = 0; col < areas.cols(); ++col) {
+            double area = areas(row, col);
+            double volume = volumes(row, col);
+            if (!std::isfinite(area) || !std::isfinite(volume) || area < 0 || volume < 0) {
+                throw InputError("The glacier lookup tables contain undefined or negative values.");
+            }
+            if (area == 0 && volume > 0) {
+                throw InputError("The glacier lookup tables contain an ice volume without area.");
+            }
+        }
+    }
+}
+
 bool Action::IsValid() const {
     // Check that manager is assigned
     if (!_manager) {
diff --git a/core/src/actions/Action.h b/core/src/actions/Action.h
index fae9114..75758a6 100644
--- a/core/src/actions/Action.h
+++ b/core/src/actions/Action.h
@@ -71,6 +71,16 @@ class Action {
      */
     double CheckLandCoverAreaFraction(const string& name, int id, double fraction, double unitArea, double lcArea);
 
+    /**
+     * Check the lookup tables of a glacier evolution.
+     *
+     * @param hydroUnitIds the hydro unit IDs (columns of the tables).
+     * @param areas the table of the glacier areas.
+     * @param volumes the table of the glacier volumes.
+     * @throws InputError if the dimensions do not match or if the values are invalid.
+     */
+    static void CheckGlacierLookupTables(const axi& hydroUnitIds, const axxd& areas, const axxd& volumes);
+
     /**
      * Set the manager of the action.
      *
diff --git a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
index abdb29f..c8f5b30 100644
--- a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
+++ b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
@@ -8,10 +8,7 @@ ActionGlacierEvolutionAreaScaling::ActionGlacierEvolutionAreaScaling() = default
 
 void ActionGlacierEvolutionAreaScaling::AddLookupTables(int month, const string& landCoverName, const axi& hydroUnitIds,
                                                         const axxd& areas, const axxd& volumes) {
-    if (areas.rows() < 1 || areas.cols() != hydroUnitIds.size() || volumes.rows() != areas.rows() ||
-        volumes.cols() != areas.cols()) {
-        throw InputError("The dimensions of the glacier lookup tables do not match.");
-    }
+    CheckGlacierLookupTables(hydroUnitIds, areas, volumes);
     AddRecursiveDate(month, 1);
     _landCoverName = landCoverName;
     _hydroUnitIds = hydroUnitIds;
diff --git a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
index 16ddefb..ed119c0 100644
--- a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
+++ b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
@@ -8,10 +8,7 @@ ActionGlacierEvolutionDeltaH::ActionGlacierEvolutionDeltaH() = default;
 
 void ActionGlacierEvolutionDeltaH::AddLookupTables(int month, const string& landCoverName, const axi& hydroUnitIds,
                                                    const axxd& areas, const axxd& volumes) {
-    if (areas.rows() < 1 || areas.cols() != hydroUnitIds.size() || volumes.rows() != areas.rows() ||
-        volumes.cols() != areas.cols()) {
-        throw InputError("The dimensions of the glacier lookup tables do not match.");
-    }
+    CheckGlacierLookupTables(hydroUnitIds, areas, volumes);
     AddRecursiveDate(month, 1);
     _landCoverName = landCoverName;
     _hydroUnitIds = hydroUnitIds;
-- 
2.43.0


From 09b1a442d5f52b2a795283971c44ce207d95440d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:34 +0000
Subject: [PATCH 58/83] Accept snow to ice transformations when no hydro unit
 holds the land cover (as before)

---
 core/src/actions/ActionGlacierSnowToIceTransformation.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/core/src/actions/ActionGlacierSnowToIceTransformation.cpp b/core/src/actions/ActionGlacierSnowToIceTransformation.cpp
index 53d9128..33066f4 100644
--- a/core/src/actions/ActionGlacierSnowToIceTransformation.cpp
+++ b/core/src/actions/ActionGlacierSnowToIceTransformation.cpp
@@ -37,11 +37,6 @@ bool ActionGlacierSnowToIceTransformation::Init() {
         _hydroUnitIds.push_back(unit->GetId());
     }
 
-    if (_hydroUnitIds.empty()) {
-        LogError("The land cover {} was not found in any hydro unit.", _landCoverName);
-        return false;
-    }
-
     return true;
 }
 
-- 
2.43.0


From 5192c57ed07dcb6d89427b54ac184815c4926235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:44 +0000
Subject: [PATCH 59/83] fix: refuse dates (MJD) that are undefined or out of
 range

---
 core/src/base/Utils.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/base/Utils.cpp b/core/src/base/Utils.cpp
index a54243c..d991855 100644
--- a/core/src/base/Utils.cpp
+++ b/core/src/base/Utils.cpp
@@ -226,7 +226,10 @@ double IncrementDateBy(double date, int amount, TimeUnit unit) {
 }
 
 Time GetTimeStructFromMJD(double mjd) {
-    assert(mjd >= 0);
+    // Years 1 to 9999; also refuses undefined values.
+    if (!(mjd >= -678575 && mjd < 2973484)) {
+        throw InputError(std::format("The date {} (MJD) is out of range.", mjd));
+    }
 
     return UtilsDateTime::FromMJD(mjd);
 }
-- 
2.43.0


From bbdb9d4133270f192a347d0be459bf79fdf4ebef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:26 +0000
Subject: [PATCH 60/83] fix: refuse components or processes defined more than
 once (results were written out of bounds)

---
 core/src/base/SettingsModel.cpp | 34 +++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/core/src/base/SettingsModel.cpp b/core/src/base/SettingsModel.cpp
index d015b3c..3a8b624 100644
--- a/core/src/base/SettingsModel.cpp
+++ b/core/src/base/SettingsModel.cpp
@@ -1044,6 +1044,32 @@ bool SettingsModel::LogAll(const YAML::Node& settings) {
     return true;
 }
 
+static bool HasUniqueNames(const vector<BrickSettings>& bricks, const vector<SplitterSettings>& splitters) {
+    std::set<string> names;
+    for (const auto& brick : bricks) {
+        if (!names.insert(brick.name).second) {
+            LogError("SettingsModel: The brick '{}' is defined more than once.", brick.name);
+            return false;
+        }
+        std::set<string> processNames;
+        for (const auto& process : brick.processes) {
+            if (!processNames.insert(process.name).second) {
+                LogError("SettingsModel: The process '{}' of the brick '{}' is defined more than once.", process.name,
+                         brick.name);
+                return false;
+            }
+        }
+    }
+    for (const auto& splitter : splitters) {
+        if (!names.insert(splitter.name).second) {
+            LogError("SettingsModel: The splitter '{}' is defined more than once.", splitter.name);
+            return false;
+        }
+    }
+
+    return true;
+}
+
 bool SettingsModel::IsValid() const {
     // Check that solver is configured
     if (_solver.name.empty()) {
@@ -1068,6 +1094,14 @@ bool SettingsModel::IsValid() const {
         return false;
     }
 
+    // Check that the components can be identified by their name
+    for (const auto& modelStructure : _modelStructures) {
+        if (!HasUniqueNames(modelStructure.hydroUnitBricks, modelStructure.hydroUnitSplitters) ||
+            !HasUniqueNames(modelStructure.subBasinBricks, modelStructure.subBasinSplitters)) {
+            return false;
+        }
+    }
+
     return true;
 }
 
-- 
2.43.0


From 625242203359e22185b8e17899dee3b3d8457c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:12 +0000
Subject: [PATCH 61/83] fix: runs were aborted by rounding when a store without
 overflow was filled up to its capacity

---
 core/src/containers/WaterContainer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/src/containers/WaterContainer.cpp b/core/src/containers/WaterContainer.cpp
index 7038afb..c295142 100644
--- a/core/src/containers/WaterContainer.cpp
+++ b/core/src/containers/WaterContainer.cpp
@@ -160,8 +160,10 @@ void WaterContainer::ApplyConstraints(double timeStep, bool inputsInContent) {
                 throw ShouldNotHappen(
                     "WaterContainer::ApplyConstraints - Overflow exists but has no change rate pointer");
             }
-            // Check that it is not only due to forcing
-            if (content + inputsStatic > *_capacity) {
+            // Check that it is not only due to forcing. A store filled up to its capacity by other stores can exceed it
+            // slightly, as their rates are limited within PRECISION only.
+            constexpr double tolerance = 1e-6;
+            if (content + inputsStatic > *_capacity + tolerance) {
                 throw ModelConfigError(
                     "Forcing is coming directly into a brick with limited capacity and no overflow.");
             }
-- 
2.43.0


From d16538c0d4de947300c7d7654eece719be973e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:40 +0000
Subject: [PATCH 62/83] fix: running again without a reset after a spin-up
 recorded the results out of bounds

---
 core/src/base/ModelHydro.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/base/ModelHydro.cpp b/core/src/base/ModelHydro.cpp
index 77b27f8..00599df 100644
--- a/core/src/base/ModelHydro.cpp
+++ b/core/src/base/ModelHydro.cpp
@@ -178,6 +178,7 @@ ModelResult ModelHydro::RewindAfterSpinup() {
     // warmed-up storage states. The land cover area fractions are restored to their
     // initial values so the real run starts from the declared extents.
     _timer.Reset();
+    _logger.Reset();  // A model run again without a reset would record past the end.
     _subBasin->RestoreInitialAreaFractions();
     if (auto r = InitializeTimeSeries(); !r) {
         return r;
-- 
2.43.0


From 5f1449dd2202a5170229d65a4472ef9b1a610a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:30 +0000
Subject: [PATCH 63/83] fix: the spin-up of a model run again without a reset
 read the forcing past its end

---
 core/src/base/ModelHydro.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/src/base/ModelHydro.cpp b/core/src/base/ModelHydro.cpp
index 00599df..8564942 100644
--- a/core/src/base/ModelHydro.cpp
+++ b/core/src/base/ModelHydro.cpp
@@ -136,6 +136,13 @@ ModelResult ModelHydro::Run() {
 ModelResult ModelHydro::RunSpinup() {
     LogDebug("Spin-up starting ({} time steps).", _spinupSteps);
 
+    // The spin-up covers the first time steps of the period. A model run again without a reset would otherwise go past
+    // the end of the forcing.
+    _timer.Reset();
+    if (auto r = InitializeTimeSeries(); !r) {
+        return r;
+    }
+
     // Actions and date-driven parameter updates must not fire during the spin-up: the
     // same dates are replayed in the real run, and some of their side effects (e.g.
     // ice redistribution by glacier evolution) cannot be rolled back. Detach them from
-- 
2.43.0


From b9a88f5cbf9bc6e641c748df1179e581fb958a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:37 +0000
Subject: [PATCH 64/83] fix: distinct aliases of the hemisphere parameter when
 several glaciers transform snow to ice

---
 python/src/hydrobricks/parameters.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/src/hydrobricks/parameters.py b/python/src/hydrobricks/parameters.py
index 830d0ec..7e86622 100644
--- a/python/src/hydrobricks/parameters.py
+++ b/python/src/hydrobricks/parameters.py
@@ -2056,11 +2056,16 @@ class ParameterSet:
                                 f"snow_ice_basal_acc_coeff_{c_name_s}",
                                 f"snow_ice_basal_acc_coeff_{i}",
                             ]
+                            a_north = [
+                                f"north_hemisphere_{c_name_s}",
+                                f"north_hemisphere_{i}",
+                            ]
                         else:
                             a_coeff = ["snow_ice_basal_acc_coeff"]
+                            a_north = ["north_hemisphere"]
                         alias_map = {
                             "snow_ice_transformation_basal_acc_coeff": a_coeff,
-                            "north_hemisphere": ["north_hemisphere"],
+                            "north_hemisphere": a_north,
                         }
                     for spec in PROCESS_PARAM_SPECS[algo]:
                         self._register(
-- 
2.43.0


From 83c12ffecfc539eb28f4c710ee6028f82ec8daed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:17 +0000
Subject: [PATCH 65/83] fix: pass the rain/snow partitioning option of the
 model to its structure

---
 python/src/hydrobricks/models/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/src/hydrobricks/models/model.py b/python/src/hydrobricks/models/model.py
index b229454..d9beb6b 100644
--- a/python/src/hydrobricks/models/model.py
+++ b/python/src/hydrobricks/models/model.py
@@ -1211,6 +1211,7 @@ class Model(ABC):
             self.land_cover_types,
             with_snow=with_snow,
             snow_melt_process=snow_melt_process,
+            snow_rain_process=self.options.get("snow_rain_process"),
             snow_ice_transformation=snow_ice_transformation,
             snow_redistribution=snow_redistribution,
             snow_water_retention_process=snow_water_retention_process,
-- 
2.43.0


From 6f61b63fce33044ae64e6af84235314c66e377a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:37 +0000
Subject: [PATCH 66/83] fix: no snow holding capacity for the lakes of HBV-96,
 which have no snowpack

---
 python/src/hydrobricks/models/hbv.py   |  8 ++++++++
 python/src/hydrobricks/models/model.py | 10 +++++++++-
 python/src/hydrobricks/parameters.py   | 22 ++++++++++++++++++----
 3 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/python/src/hydrobricks/models/hbv.py b/python/src/hydrobricks/models/hbv.py
index feffca6..7e5e74a 100644
--- a/python/src/hydrobricks/models/hbv.py
+++ b/python/src/hydrobricks/models/hbv.py
@@ -342,6 +342,14 @@ class HBV(Model):
 
         return variants
 
+    def _get_snow_cover_names(self) -> list[str]:
+        """Get the names of the land covers having a snowpack (all but the lakes)."""
+        return [
+            name
+            for name, cover_type in zip(self.land_cover_names, self.land_cover_types)
+            if cover_type != "lake"
+        ]
+
     @abstractmethod
     def _define_response_structure(self) -> None:
         """Define the version-specific response routine bricks.
diff --git a/python/src/hydrobricks/models/model.py b/python/src/hydrobricks/models/model.py
index d9beb6b..2e181e7 100644
--- a/python/src/hydrobricks/models/model.py
+++ b/python/src/hydrobricks/models/model.py
@@ -721,7 +721,11 @@ class Model(ABC):
         """
         ps = ParameterSet()
         ps.generate_parameters(
-            self.land_cover_types, self.land_cover_names, self.options, self.structure
+            self.land_cover_types,
+            self.land_cover_names,
+            self.options,
+            self.structure,
+            self._get_snow_cover_names(),
         )
 
         for alias_key, alias_value in self.parameter_aliases.items():
@@ -743,6 +747,10 @@ class Model(ABC):
 
         return ps
 
+    def _get_snow_cover_names(self) -> list[str]:
+        """Get the names of the land covers having a snowpack (default: all)."""
+        return self.land_cover_names
+
     def get_structure_graph(
         self, structure_id: int = 1, with_forcing: bool = True
     ) -> StructureGraph:
diff --git a/python/src/hydrobricks/parameters.py b/python/src/hydrobricks/parameters.py
index 7e86622..0202916 100644
--- a/python/src/hydrobricks/parameters.py
+++ b/python/src/hydrobricks/parameters.py
@@ -1536,6 +1536,7 @@ class ParameterSet:
         land_cover_names: list[str],
         options: dict,
         structure: dict,
+        snow_cover_names: list[str] | None = None,
     ):
         """
         Generate a parameters object for the provided model options and structure.
@@ -1550,9 +1551,13 @@ class ParameterSet:
             The model options.
         structure
             The model structure.
+        snow_cover_names
+            The names of the land covers having a snowpack. Default: all land covers.
         """
         # General parameters
-        self._generate_snow_parameters(options, land_cover_types, land_cover_names)
+        self._generate_snow_parameters(
+            options, land_cover_types, land_cover_names, snow_cover_names
+        )
         self._generate_precipitation_correction_parameters(options)
 
         # Parameters for the glaciers
@@ -1903,7 +1908,11 @@ class ParameterSet:
                 self._register(component="rain", spec=spec)
 
     def _generate_snow_parameters(
-        self, options: dict, land_cover_types: list[str], land_cover_names: list[str]
+        self,
+        options: dict,
+        land_cover_types: list[str],
+        land_cover_names: list[str],
+        snow_cover_names: list[str] | None = None,
     ) -> None:
         """
         Register parameters for snow processes.
@@ -1919,7 +1928,12 @@ class ParameterSet:
             List of land cover types (e.g., 'glacier', 'ground').
         land_cover_names
             List of land cover names corresponding to types.
+        snow_cover_names
+            The names of the land covers having a snowpack. Default: all land covers.
         """
+        if snow_cover_names is None:
+            snow_cover_names = land_cover_names
+
         if "snow_melt_process" in options or "with_snow" in options:
             # Snow/rain transition specs (pseudo-process)
             srp = options.get("snow_rain_process")
@@ -2080,13 +2094,13 @@ class ParameterSet:
                 if red is None:
                     return
                 if red in PROCESS_PARAM_SPECS:
-                    multi = len(land_cover_names) > 1
+                    multi = len(snow_cover_names) > 1
                     for spec in PROCESS_PARAM_SPECS[red]:
                         if spec.name == "snow_holding_capacity":
                             # The snow holding capacity is land-cover specific
                             # (vegetation / surface roughness), so register it per
                             # snowpack with a per-cover alias suffix.
-                            for cover_name in land_cover_names:
+                            for cover_name in snow_cover_names:
                                 suffix = f"_{cover_name}" if multi else ""
                                 self._register(
                                     component=f"{cover_name}_snowpack",
-- 
2.43.0


From 6cab3c549e25ebe215a0c490d76c174920565e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:29 +0000
Subject: [PATCH 67/83] fix: do not accumulate the prior corrections of the
 forcing

The corrections were applied on top of the already corrected station data each
time the operations were applied (e.g. for each sample of a calibration), and
only the operations referring to a changing parameter were redone, so that the
spatialised data (or the PET computed from it) ignored the new correction.
---
 python/src/hydrobricks/forcing.py | 103 +++++++++++++++++++++++++++---
 1 file changed, 94 insertions(+), 9 deletions(-)

diff --git a/python/src/hydrobricks/forcing.py b/python/src/hydrobricks/forcing.py
index 62f5ec9..ccd6b64 100644
--- a/python/src/hydrobricks/forcing.py
+++ b/python/src/hydrobricks/forcing.py
@@ -156,6 +156,8 @@ class Forcing:
         self.catchment: Catchment | None = catchment
         self.hydro_units: pd.DataFrame = hydro_units.hydro_units
         self._operations: list[dict[str, Any]] = []
+        # Station data before and after the prior corrections.
+        self._corrections: dict[str, tuple[np.ndarray, np.ndarray]] = {}
         self._is_initialized: bool = False
 
     def is_initialized(self) -> bool:
@@ -684,9 +686,14 @@ class Forcing:
             "compute_pet",
         ]
 
+        variables = None
+        if not apply_to_all:
+            variables = self._get_variables_to_update(parameters)
+        self._reset_prior_corrections(variables)
+
         for operation_type in operation_types:
             logger.debug(f"  Applying {operation_type} operations")
-            self._apply_operations_of_type(operation_type, parameters, apply_to_all)
+            self._apply_operations_of_type(operation_type, parameters, variables)
 
         logger.debug("All forcing operations completed successfully")
         self._is_initialized = True
@@ -856,11 +863,83 @@ class Forcing:
         tot_precip = data * areas.values / areas.sum()
         return tot_precip.sum()
 
+    def _get_operation_variable(self, operation: dict[str, Any]) -> Variable:
+        """
+        Get the variable an operation acts on.
+
+        Parameters
+        ----------
+        operation
+            The operation as stored in the list of operations.
+
+        Returns
+        -------
+        Variable
+            The corresponding Variable enum value.
+        """
+        if operation["type"] == "compute_pet":
+            return self.Variable.PET
+        return self.get_variable_enum(operation["variable"])
+
+    def _get_variables_to_update(
+        self, parameters: ParameterSet | None
+    ) -> set[Variable]:
+        """
+        List the variables related to the parameters in the allow_changing list.
+
+        A computed PET also depends on the variables used to compute it.
+
+        Parameters
+        ----------
+        parameters
+            The parameter object instance.
+
+        Returns
+        -------
+        set[Variable]
+            The variables for which the operations have to be applied again.
+        """
+        changing = [] if parameters is None else parameters.allow_changing
+        references = {f"param:{name}" for name in changing}
+        variables = {
+            self._get_operation_variable(operation)
+            for operation in self._operations
+            if any(
+                isinstance(value, str) and value in references
+                for value in operation.values()
+            )
+        }
+
+        for operation in self._operations:
+            if operation["type"] == "compute_pet":
+                use = self._remove_lat_elevation_options(operation["use"])
+                if any(self.get_variable_enum(v) in variables for v in use):
+                    variables.add(self.Variable.PET)
+
+        return variables
+
+    def _reset_prior_corrections(self, variables: set[Variable] | None) -> None:
+        """
+        Restore the station data as loaded, so that the prior corrections do not
+        accumulate when the operations are applied several times.
+
+        Parameters
+        ----------
+        variables
+            The variables to restore (None for all).
+        """
+        for variable, (raw, corrected) in self._corrections.items():
+            if variables is not None and variable not in variables:
+                continue
+            idx = self.data1D.data_name.index(variable)
+            if self.data1D.data[idx] is corrected:
+                self.data1D.data[idx] = raw
+
     def _apply_operations_of_type(
         self,
         operation_type: str,
         parameters: ParameterSet | None = None,
-        apply_to_all: bool = True,
+        variables: set[Variable] | None = None,
     ) -> None:
         """
         Apply operations of a specific type in sequence.
@@ -880,8 +959,8 @@ class Forcing:
         parameters
             Parameter object for substituting parameter references. Required if
             operations use 'param:' prefix.
-        apply_to_all
-            If False, only apply operations for variables in allow_changing list.
+        variables
+            The variables the operations have to be applied to (None for all).
 
         Raises
         ------
@@ -906,7 +985,6 @@ class Forcing:
             operation.pop("type")
 
             # Extract the operation options
-            apply_operation = False
             for key in operation:
                 value = operation[key]
                 if isinstance(value, str) and value.startswith("param:"):
@@ -920,12 +998,12 @@ class Forcing:
                         )
                     parameter_name = value.replace("param:", "")
                     operation[key] = parameters.get(parameter_name)
-                    if not apply_to_all:  # Restrict to parameters that changed
-                        if parameter_name in parameters.allow_changing:
-                            apply_operation = True
 
             # Apply the operation (or not)
-            if apply_to_all or apply_operation:
+            if (
+                variables is None
+                or self._get_operation_variable(operation_ref) in variables
+            ):
                 if operation_type not in operation_handlers:
                     raise ConfigurationError(
                         f"Unknown operation type: {operation_type}",
@@ -962,6 +1040,11 @@ class Forcing:
         variable = self.get_variable_enum(variable)
         idx = self.data1D.data_name.index(variable)
 
+        # Keep the data as it was before the corrections
+        raw = self.data1D.data[idx]
+        if variable in self._corrections and self._corrections[variable][1] is raw:
+            raw = self._corrections[variable][0]
+
         # Extract kwargs (None if not provided)
         correction_factor = kwargs.get("correction_factor", None)
         if correction_factor is None:
@@ -984,6 +1067,8 @@ class Forcing:
                 method=method,
             )
 
+        self._corrections[variable] = (raw, self.data1D.data[idx])
+
     def _apply_spatialization_from_station_data(
         self, variable: str, method: str = "default", **kwargs: Any
     ) -> None:
-- 
2.43.0


From 7cf1f2652e4de0e3d8bc5a6246bedcc96f627b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:29 +0000
Subject: [PATCH 68/83] fix: accept the dew point temperature as a forcing
 variable

It could not be loaded, nor read back from a file written by save_as().
---
 python/src/hydrobricks/forcing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/hydrobricks/forcing.py b/python/src/hydrobricks/forcing.py
index ccd6b64..564cf6d 100644
--- a/python/src/hydrobricks/forcing.py
+++ b/python/src/hydrobricks/forcing.py
@@ -216,6 +216,9 @@ class Forcing:
             "max_temperature": self.Variable.T_MAX,
             "t_max": self.Variable.T_MAX,
             "tmax": self.Variable.T_MAX,
+            "dew_point_temperature": self.Variable.T_DEW_POINT,
+            "t_dew_point": self.Variable.T_DEW_POINT,
+            "tdew": self.Variable.T_DEW_POINT,
             "pet": self.Variable.PET,
             "relative_humidity": self.Variable.RH,
             "rh": self.Variable.RH,
-- 
2.43.0


From 4c469c75d7042d80a6974b0279670e517001ea8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:29 +0000
Subject: [PATCH 69/83] fix: pass the options of compute_pet to pyet, and the
 sunshine duration by name

---
 python/src/hydrobricks/forcing.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/src/hydrobricks/forcing.py b/python/src/hydrobricks/forcing.py
index 564cf6d..289d59f 100644
--- a/python/src/hydrobricks/forcing.py
+++ b/python/src/hydrobricks/forcing.py
@@ -1408,6 +1408,11 @@ class Forcing:
             else:
                 use_unit_latitude = True
 
+        # The other options are passed to the pyet function
+        pyet_args.update(
+            {k: v for k, v in kwargs.items() if k not in ["latitude", "lat"]}
+        )
+
         use = self._remove_lat_elevation_options(use)
         self._check_variables_available(use)
 
@@ -1498,6 +1503,7 @@ class Forcing:
                 self.Variable.RH_MAX: "rhmax",
                 self.Variable.R_NET: "rn",
                 self.Variable.R_SOLAR: "rs",
+                self.Variable.SD: "n",
                 self.Variable.WIND: "wind",
                 self.Variable.PRESSURE: "pressure",
             }
-- 
2.43.0


From 810e484dd1f00d7da01fb252b3fb9f519342ebf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:29 +0000
Subject: [PATCH 70/83] fix: accept whole numbers as elevation gradients

---
 python/src/hydrobricks/forcing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/hydrobricks/forcing.py b/python/src/hydrobricks/forcing.py
index 289d59f..3997ef8 100644
--- a/python/src/hydrobricks/forcing.py
+++ b/python/src/hydrobricks/forcing.py
@@ -1165,7 +1165,7 @@ class Forcing:
                         reason="Missing required parameter",
                     )
                 if (
-                    isinstance(gradient, float)
+                    isinstance(gradient, (int, float))
                     or isinstance(gradient, list)
                     and len(gradient) == 1
                 ):
@@ -1196,7 +1196,7 @@ class Forcing:
                         reason="Missing required parameter",
                     )
                 if (
-                    isinstance(gradient, float)
+                    isinstance(gradient, (int, float))
                     or isinstance(gradient, list)
                     and len(gradient) == 1
                 ):
-- 
2.43.0


From 10dd625baa575c6f4b14221b669d1a56464af11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:29 +0000
Subject: [PATCH 71/83] fix: replace the gridded data when the operations are
 applied again

---
 python/src/hydrobricks/forcing.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/src/hydrobricks/forcing.py b/python/src/hydrobricks/forcing.py
index 3997ef8..cd7e695 100644
--- a/python/src/hydrobricks/forcing.py
+++ b/python/src/hydrobricks/forcing.py
@@ -1358,7 +1358,12 @@ class Forcing:
                 gradient_type=gradient_type,
                 dem_path=dem_path,
             )
-            self.data2D.data_name.append(variable)
+            if variable in self.data2D.data_name:
+                # Replace the data of a previous spatialization
+                idx = self.data2D.data_name.index(variable)
+                self.data2D.data[idx] = self.data2D.data.pop()
+            else:
+                self.data2D.data_name.append(variable)
         else:
             raise ForcingError(
                 f"Unknown method: {method}", variable=str(variable), method=method
-- 
2.43.0


From 789e780b2779b394187663d23b38b7f42fc68789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:29 +0000
Subject: [PATCH 72/83] fix: do not hand the core the forcing variables it does
 not know

A forcing holding e.g. the humidity used to compute the PET could not be used.
---
 python/src/hydrobricks/models/model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/src/hydrobricks/models/model.py b/python/src/hydrobricks/models/model.py
index 2e181e7..38d81c1 100644
--- a/python/src/hydrobricks/models/model.py
+++ b/python/src/hydrobricks/models/model.py
@@ -29,6 +29,10 @@ if TYPE_CHECKING:
 
 logger = logging.getLogger(__name__)
 
+# Forcing variables handled by the core. The others (e.g. humidity) are only used to
+# prepare the forcing data.
+_CORE_FORCING_VARIABLES = ("p", "t", "t_min", "t_max", "pet", "r_solar")
+
 # Generic (soil-bearing) land cover aliases. ``open`` is the canonical name (the HBV
 # "open areas" class); ``ground`` and the ``generic*`` names are kept as accepted
 # aliases for backward compatibility.
@@ -372,6 +376,9 @@ class Model(ABC):
         ids = self.spatial_structure.get_ids().to_numpy().flatten()
         for data_name, data in zip(forcing.data2D.data_name, forcing.data2D.data):
             data_name = str(data_name)
+            if data_name not in _CORE_FORCING_VARIABLES:
+                logger.debug(f"The forcing {data_name} is not used by the model.")
+                continue
             if data is None:
                 raise ModelError(
                     f"The forcing {data_name} has not been spatialized.",
-- 
2.43.0


From fdec34f66d2a0fefc7ceec32f9fd785bef1f8697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:29 +0000
Subject: [PATCH 73/83] fix: accept a single string as parameter alias

---
 python/src/hydrobricks/parameters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/hydrobricks/parameters.py b/python/src/hydrobricks/parameters.py
index 0202916..f6a105c 100644
--- a/python/src/hydrobricks/parameters.py
+++ b/python/src/hydrobricks/parameters.py
@@ -872,6 +872,9 @@ class ParameterSet:
         if not mandatory and default is not None:
             value = default
 
+        if isinstance(aliases, str):
+            aliases = [aliases]
+
         self._check_aliases_uniqueness(aliases)
         self._check_min_max_consistency(min_val, max_val)
 
-- 
2.43.0


From 31bbe10d1bb219aa89ec7e0b391c93912af93372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:29 +0000
Subject: [PATCH 74/83] fix: refuse adding an alias that another parameter
 already has

---
 python/src/hydrobricks/parameters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/hydrobricks/parameters.py b/python/src/hydrobricks/parameters.py
index f6a105c..830e48c 100644
--- a/python/src/hydrobricks/parameters.py
+++ b/python/src/hydrobricks/parameters.py
@@ -915,6 +915,10 @@ class ParameterSet:
             aliases = [aliases]
         index = self._get_parameter_index(parameter_name)
         current = self.parameters.at[index, "aliases"]
+        own = [] if current is None else [alias.lower() for alias in current]
+        self._check_aliases_uniqueness(
+            [alias for alias in aliases if alias.lower() not in own]
+        )
         if current is None:
             self.parameters.at[index, "aliases"] = aliases
         else:
-- 
2.43.0


From 1a839366e4d050a5124f3a9337f0dd70ff7d071e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:29 +0000
Subject: [PATCH 75/83] fix: do not alter or keep the lists provided as
 parameter values

---
 python/src/hydrobricks/parameters.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/python/src/hydrobricks/parameters.py b/python/src/hydrobricks/parameters.py
index 830e48c..d6f92bd 100644
--- a/python/src/hydrobricks/parameters.py
+++ b/python/src/hydrobricks/parameters.py
@@ -1190,6 +1190,8 @@ class ParameterSet:
                 transform = self._get_transform(index)
                 if transform is not None:
                     value = transform.to_real(value)
+            if isinstance(value, list):
+                value = value.copy()  # Do not alter or keep the provided list
             if check_range:
                 value = self._check_value_range(
                     index, key, value, allow_adapt=allow_adapt
@@ -1422,12 +1424,11 @@ class ParameterSet:
                 max_val = self.parameters.loc[index, "max"]
 
                 if isinstance(min_val, list):
-                    if self.parameters.loc[index, "value"] is None:
-                        self.parameters.loc[index, "value"] = [0] * len(min_val)
-                    for (idx, min_v), max_v in zip(enumerate(min_val), max_val):
-                        self.parameters.loc[index, "value"][idx] = random.uniform(
-                            min_v, max_v
-                        )
+                    # Use a new list, as the current one may be shared
+                    self.parameters.loc[index, "value"] = [
+                        random.uniform(min_v, max_v)
+                        for min_v, max_v in zip(min_val, max_val)
+                    ]
                 else:
                     self.parameters.loc[index, "value"] = random.uniform(
                         min_val, max_val
-- 
2.43.0


From af8095220a33d7019fd397c0e4674a17d0608796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:37 +0000
Subject: [PATCH 76/83] fix: recognise the unit values and the names of units
 made of several words

---
 python/src/hydrobricks/_units.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/src/hydrobricks/_units.py b/python/src/hydrobricks/_units.py
index 4177398..80d6479 100644
--- a/python/src/hydrobricks/_units.py
+++ b/python/src/hydrobricks/_units.py
@@ -134,6 +134,9 @@ def get_unit_enum(unit: str) -> Unit:
     >>> get_unit_enum('square meter')
     Unit.M2
     """
+    if isinstance(unit, Unit):
+        return unit
+
     if unit in Unit.__members__:
         return Unit[unit]
 
@@ -145,6 +148,12 @@ def get_unit_enum(unit: str) -> Unit:
 
     result = _UNIT_ALIASES.get(unit)
     if result is None:
+        # Names of the enum values, and aliases made of several words
+        if unit in list(Unit):
+            return Unit(unit)
+        for alias, value in _UNIT_ALIASES.items():
+            if alias.replace(" ", "") == unit:
+                return value
         raise DataError(
             f"Unknown unit: {unit}", data_type="unit", reason="Unsupported unit type"
         )
-- 
2.43.0


From c2ccefb11d9320084718256c8fa77e2edf8cc61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:37 +0000
Subject: [PATCH 77/83] fix: do not alter the caller's lists of land covers

---
 python/src/hydrobricks/hydro_units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/hydrobricks/hydro_units.py b/python/src/hydrobricks/hydro_units.py
index fc9e53e..447062b 100644
--- a/python/src/hydrobricks/hydro_units.py
+++ b/python/src/hydrobricks/hydro_units.py
@@ -73,8 +73,8 @@ class HydroUnits:
             land_cover_types = ["open"]
         if not land_cover_names:
             land_cover_names = ["open"]
-        self.land_cover_types: list[str] = land_cover_types
-        self.land_cover_names: list[str] = land_cover_names
+        self.land_cover_types: list[str] = list(land_cover_types)
+        self.land_cover_names: list[str] = list(land_cover_names)
         land_cover_cols: list[tuple[str, str]] = []
         for item in land_cover_names:
             land_cover_cols.append((f"{self.FRACTION_PREFIX}{item}", "fraction"))
-- 
2.43.0


From ff12127fc96c723ff8348389f86e7a5b3154b87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:37 +0000
Subject: [PATCH 78/83] fix: give the slopes in percent to the core with a unit
 it knows

---
 python/src/hydrobricks/hydro_units.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/hydrobricks/hydro_units.py b/python/src/hydrobricks/hydro_units.py
index 447062b..e7b5715 100644
--- a/python/src/hydrobricks/hydro_units.py
+++ b/python/src/hydrobricks/hydro_units.py
@@ -705,6 +705,8 @@ class HydroUnits:
                     self.settings.add_hydro_unit_property_str(prop, row[prop].values[0])
                 else:
                     unit = self._get_unit(row[prop])
+                    if unit == str(Unit.PC):
+                        unit = "percent"  # the name known by the core
                     self.settings.add_hydro_unit_property_double(
                         prop, float(row[prop].values[0]), unit
                     )
-- 
2.43.0


From f4395d3af122a08955e3b881565fb436bfd9307e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:37 +0000
Subject: [PATCH 79/83] fix: keep the lateral connections when the hydro units
 are updated

---
 python/src/hydrobricks/hydro_units.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/python/src/hydrobricks/hydro_units.py b/python/src/hydrobricks/hydro_units.py
index e7b5715..7e10511 100644
--- a/python/src/hydrobricks/hydro_units.py
+++ b/python/src/hydrobricks/hydro_units.py
@@ -68,6 +68,7 @@ class HydroUnits:
             If land_cover_types and land_cover_names have different lengths.
         """
         self.settings = SettingsBasin()
+        self._connections: list[tuple[int, int, float]] = []
         self._check_land_cover_definitions(land_cover_types, land_cover_names)
         if not land_cover_types:
             land_cover_types = ["open"]
@@ -737,6 +738,10 @@ class HydroUnits:
                     )
                 self.settings.add_land_cover(cover_name, cover_type, fraction)
 
+        # Clearing the settings removed the lateral connections
+        for giver_id, receiver_id, ratio in self._connections:
+            self.settings.add_lateral_connection(giver_id, receiver_id, ratio)
+
     def set_connectivity(self, connectivity: pd.DataFrame | Path | str) -> None:
         """
         Set the connectivity of the hydro units.
@@ -776,7 +781,8 @@ class HydroUnits:
                 reason="Missing required columns",
             )
 
-        # Loop through the rows and set the connectivity to the basin settings
+        # Loop through the rows and get the connections
+        connections = []
         for _, row in connectivity.iterrows():
             if isinstance(row["id"], pd.Series):
                 hydro_unit_id = int(row["id"].iloc[0])
@@ -844,10 +850,11 @@ class HydroUnits:
                         reason="Undefined connected hydro unit",
                     )
 
-                # Add the connectivity to the settings
-                self.settings.add_lateral_connection(
-                    hydro_unit_id, connected_unit_id, ratio
-                )
+                connections.append((hydro_unit_id, connected_unit_id, ratio))
+
+        # Set the connectivity to the basin settings
+        self._connections = connections
+        self.populate_bounded_instance()
 
     @staticmethod
     def _check_column_names(file_content: pd.DataFrame) -> None:
-- 
2.43.0


From 79a843650462fffd1212ec1f1d7c446b1e0198b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:37 +0000
Subject: [PATCH 80/83] fix: do not lose area when initializing an unknown or
 already initialized land cover

---
 python/src/hydrobricks/hydro_units.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/python/src/hydrobricks/hydro_units.py b/python/src/hydrobricks/hydro_units.py
index 7e10511..9214dab 100644
--- a/python/src/hydrobricks/hydro_units.py
+++ b/python/src/hydrobricks/hydro_units.py
@@ -626,6 +626,14 @@ class HydroUnits:
         ValueError
             If computed land cover fraction is not in the range [0, 1].
         """
+        if land_cover_name not in self.land_cover_names:
+            raise DataError(
+                f"The land cover '{land_cover_name}' was not found in the "
+                f"defined land covers.",
+                data_type="land cover",
+                reason="Undefined land cover",
+            )
+
         # Land cover fraction column name
         field_name = self.FRACTION_PREFIX + land_cover_name
         open_name = self.FRACTION_PREFIX + self.get_generic_cover_name()
@@ -648,6 +656,16 @@ class HydroUnits:
                     reason="Fraction outside valid range",
                 )
 
+            if self.hydro_units.loc[hu_idx, (field_name, "fraction")] > 0:
+                raise DataError(
+                    f"The land cover '{land_cover_name}' of the unit {id} already "
+                    f"has an extent (e.g. compute_initial_ice_thickness "
+                    f"initializes the glacier cover by default; pass "
+                    f"initialize_cover=False to skip it).",
+                    data_type="land cover fraction",
+                    reason="Land cover already initialized",
+                )
+
             # Set the land cover fraction, taking the area from the generic (soil)
             # cover so the unit's fractions still sum to 1.
             self.hydro_units.loc[hu_idx, (field_name, "fraction")] = fraction
-- 
2.43.0


From b30f7c2587a4f27f0b6bec2419ddf5b09bfab747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:37 +0000
Subject: [PATCH 81/83] fix: give back the dates of the glacier actions and
 refuse invalid days

---
 .../action_glacier_evolution_area_scaling.py       |  3 ++-
 .../actions/action_glacier_evolution_delta_h.py    |  3 ++-
 .../action_glacier_snow_to_ice_transformation.py   | 14 ++++++++++++--
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/python/src/hydrobricks/actions/action_glacier_evolution_area_scaling.py b/python/src/hydrobricks/actions/action_glacier_evolution_area_scaling.py
index a879c68..c9d0d26 100644
--- a/python/src/hydrobricks/actions/action_glacier_evolution_area_scaling.py
+++ b/python/src/hydrobricks/actions/action_glacier_evolution_area_scaling.py
@@ -158,7 +158,7 @@ class ActionGlacierEvolutionAreaScaling(Action):
         int
             The month number (1-12) when changes are applied.
         """
-        return self.action.get_month()
+        return self.month
 
     def get_land_cover_name(self) -> str:
         """
@@ -252,5 +252,6 @@ class ActionGlacierEvolutionAreaScaling(Action):
         ), "The areas and volumes tables do not have the same shape."
 
         self.action.add_lookup_tables(month_num, land_cover, hu_ids, areas, volumes)
+        self.month = month_num
 
         self.is_initialized = True
diff --git a/python/src/hydrobricks/actions/action_glacier_evolution_delta_h.py b/python/src/hydrobricks/actions/action_glacier_evolution_delta_h.py
index 04f61f9..fd8cec4 100644
--- a/python/src/hydrobricks/actions/action_glacier_evolution_delta_h.py
+++ b/python/src/hydrobricks/actions/action_glacier_evolution_delta_h.py
@@ -153,7 +153,7 @@ class ActionGlacierEvolutionDeltaH(Action):
         int
             The month number (1-12) when changes are applied.
         """
-        return self.action.get_month()
+        return self.month
 
     def get_land_cover_name(self) -> str:
         """
@@ -247,5 +247,6 @@ class ActionGlacierEvolutionDeltaH(Action):
         ), "The areas and volumes tables do not have the same shape."
 
         self.action.add_lookup_tables(month_num, land_cover, hu_ids, areas, volumes)
+        self.month = month_num
 
         self.is_initialized = True
diff --git a/python/src/hydrobricks/actions/action_glacier_snow_to_ice_transformation.py b/python/src/hydrobricks/actions/action_glacier_snow_to_ice_transformation.py
index 752970b..dd8fb97 100644
--- a/python/src/hydrobricks/actions/action_glacier_snow_to_ice_transformation.py
+++ b/python/src/hydrobricks/actions/action_glacier_snow_to_ice_transformation.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 from hydrobricks._hydrobricks import (
     ActionGlacierSnowToIceTransformation as _ActionGlacierSnowToIceTransformation,
 )
+from hydrobricks._exceptions import ConfigurationError
 from hydrobricks.actions import Action
 
 
@@ -52,7 +53,7 @@ class ActionGlacierSnowToIceTransformation(Action):
         int
             The month number (1-12) when changes are applied.
         """
-        return self.action.get_month()
+        return self.month
 
     def get_day(self) -> int:
         """
@@ -63,7 +64,7 @@ class ActionGlacierSnowToIceTransformation(Action):
         int
             The day of the month (1-31) when changes are applied.
         """
-        return self.action.get_day()
+        return self.day
 
     def get_land_cover_name(self) -> str:
         """
@@ -100,8 +101,17 @@ class ActionGlacierSnowToIceTransformation(Action):
             If month conversion fails or parameters are invalid.
         """
         month_num = self._convert_month_to_number(update_month)
+        if not 1 <= update_day <= 31:
+            raise ConfigurationError(
+                "The day of the month must be between 1 and 31.",
+                item_name="update_day",
+                item_value=update_day,
+                reason="Invalid day",
+            )
         self.action: _ActionGlacierSnowToIceTransformation = (
             _ActionGlacierSnowToIceTransformation(month_num, update_day, land_cover)
         )
 
+        self.month: int = month_num
+        self.day: int = update_day
         self.is_initialized = True
-- 
2.43.0


From 16eeacc981231b57403d4c50681012094f18dc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:03 +0000
Subject: [PATCH 82/83] fix: hydro units given as a table: keep the fractions
 provided, set the others, convert the area

---
 python/src/hydrobricks/hydro_units.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/python/src/hydrobricks/hydro_units.py b/python/src/hydrobricks/hydro_units.py
index 9214dab..09de294 100644
--- a/python/src/hydrobricks/hydro_units.py
+++ b/python/src/hydrobricks/hydro_units.py
@@ -1027,12 +1027,29 @@ class HydroUnits:
         assert "area" in data.columns
         assert "elevation" in data.columns
 
+        data = data.copy()
         if "id" not in data.columns:
-            data["id"] = range(1, 1 + len(data))
+            data[("id", "-")] = range(1, 1 + len(data))
 
         self.hydro_units = data
-        idx = self.FRACTION_PREFIX + self.get_generic_cover_name()
-        self.hydro_units[idx] = np.ones(len(self.hydro_units["area"]))
+
+        # The generic cover takes what is left by the fractions provided (if any)
+        residual = np.ones(len(data))
+        generic = self.get_generic_cover_name()
+        for cover_name in self.land_cover_names:
+            field_name = self.FRACTION_PREFIX + cover_name
+            if cover_name == generic:
+                continue
+            if field_name not in self.hydro_units.columns:
+                self.hydro_units[(field_name, "fraction")] = 0.0
+            residual -= self.hydro_units[field_name].to_numpy(dtype=float).flatten()
+        field_name = self.FRACTION_PREFIX + generic
+        if field_name not in self.hydro_units.columns:
+            self.hydro_units[(field_name, "fraction")] = residual
+
+        if get_unit_from_df_column(self.hydro_units["area"]) != Unit.NO_UNIT:
+            self._convert_area_to_m2()
+
         self.populate_bounded_instance()
 
     @staticmethod
-- 
2.43.0


From f1edf5c77f5cdfa75be9244580e9cf4c64583dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:52 +0000
Subject: [PATCH 83/83] fix: treat all the error metrics of HydroErr as errors
 in the calibration

---
 python/src/hydrobricks/evaluation/metrics.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/python/src/hydrobricks/evaluation/metrics.py b/python/src/hydrobricks/evaluation/metrics.py
index 8141bfe..679fd49 100644
--- a/python/src/hydrobricks/evaluation/metrics.py
+++ b/python/src/hydrobricks/evaluation/metrics.py
@@ -27,8 +27,24 @@ _ERROR_METRICS = frozenset(
         "nrmse_iqr",
         "irmse",
         "mle",
+        "male",
+        "msle",
+        "mde",
         "mdae",
+        "mdse",
+        "maape",
+        "sa",
+        "sc",
+        "sid",
+        "sga",
         "g_mean_diff",
+        "mean_var",
+    }
+    # The H metrics (h1_mhe, h1_mahe, h1_rmshe, ..., h10_rmshe) are errors as well.
+    | {
+        f"h{i}_{kind}"
+        for i in (1, 2, 3, 4, 5, 6, 7, 8, 10)
+        for kind in ("mhe", "mahe", "rmshe")
     }
 )
 
-- 
2.43.0

