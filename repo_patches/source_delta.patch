From cd275dfc20959d8df4c7b6d97ca093830514f03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:47 +0000
Subject: [PATCH 01/35] fix: getDDiffTimeVector returned the first instead of
 the second derivative of the time vector

---
 curves/include/curves/PolynomialSpline.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curves/include/curves/PolynomialSpline.hpp b/curves/include/curves/PolynomialSpline.hpp
index 0695acc..deb5b75 100644
--- a/curves/include/curves/PolynomialSpline.hpp
+++ b/curves/include/curves/PolynomialSpline.hpp
@@ -188,7 +188,7 @@ class PolynomialSpline {
            ddtimeVec.cols() == EigenTimeVectorType::ColsAtCompileTime);
     // https://eigen.tuxfamily.org/dox/TopicFunctionTakingEigenTypes.html
     const_cast<Eigen::MatrixBase<Derived>&>(ddtimeVec) =
-        Eigen::Map<const EigenTimeVectorType>((SplineImplementation::dtau(tk)).data());
+        Eigen::Map<const EigenTimeVectorType>((SplineImplementation::ddtau(tk)).data());
   }
 
   //! Get the second derivative of the time vector evaluated at time tk and add it to the input vector.
-- 
2.43.0


From a108083bcbf513e870df4e7f255dc27f3be29d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:47 +0000
Subject: [PATCH 02/35] fix: define the static time vectors of linear,
 quadratic and quartic splines (link error when used)

---
 curves/src/polynomial_splines_traits.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/curves/src/polynomial_splines_traits.cpp b/curves/src/polynomial_splines_traits.cpp
index 3c1f093..e63ef00 100644
--- a/curves/src/polynomial_splines_traits.cpp
+++ b/curves/src/polynomial_splines_traits.cpp
@@ -14,11 +14,26 @@ namespace spline_traits {
 template<typename Core_, int SplineOrder_>
 constexpr unsigned int spline_rep<Core_, SplineOrder_>::numCoefficients;
 
+using spline1 = spline_rep<double, 1>;
+constexpr std::array<double, spline1::numCoefficients> spline1::tauZero;
+constexpr std::array<double, spline1::numCoefficients> spline1::dtauZero;
+constexpr std::array<double, spline1::numCoefficients> spline1::ddtauZero;
+
+using spline2 = spline_rep<double, 2>;
+constexpr std::array<double, spline2::numCoefficients> spline2::tauZero;
+constexpr std::array<double, spline2::numCoefficients> spline2::dtauZero;
+constexpr std::array<double, spline2::numCoefficients> spline2::ddtauZero;
+
 using spline3 = spline_rep<double, 3>;
 constexpr std::array<double, spline3::numCoefficients> spline3::tauZero;
 constexpr std::array<double, spline3::numCoefficients> spline3::dtauZero;
 constexpr std::array<double, spline3::numCoefficients> spline3::ddtauZero;
 
+using spline4 = spline_rep<double, 4>;
+constexpr std::array<double, spline4::numCoefficients> spline4::tauZero;
+constexpr std::array<double, spline4::numCoefficients> spline4::dtauZero;
+constexpr std::array<double, spline4::numCoefficients> spline4::ddtauZero;
+
 using spline5 = spline_rep<double, 5>;
 constexpr std::array<double, spline5::numCoefficients> spline5::tauZero;
 constexpr std::array<double, spline5::numCoefficients> spline5::dtauZero;
-- 
2.43.0


From 7eaa2657df7d72b3978308baf643d7a6c10048cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:47 +0000
Subject: [PATCH 03/35] fix: vector space curve ignored its start time when
 evaluated (only curves starting at 0 were right)

---
 curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
index ea5f9a9..0459ab1 100644
--- a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
+++ b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
@@ -50,11 +50,12 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
 
   virtual Time getMaxTime() const
   {
-    return containers_.at(0).getContainerDuration();
+    return containers_.at(0).getContainerDuration() + minTime_;
   }
 
   virtual bool evaluate(ValueType& value, Time time) const
   {
+    time -= minTime_;
     for (size_t i = 0; i < N; ++i) {
       value(i) = containers_.at(i).getPositionAtTime(time);
     }
@@ -63,7 +64,7 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
 
   virtual bool evaluateDerivative(DerivativeType& value, Time time, unsigned derivativeOrder) const
   {
-
+    time -= minTime_;
     for (size_t i = 0; i < N; ++i) {
       if (derivativeOrder == 1) {
         value(i) = containers_.at(i).getVelocityAtTime(time);
@@ -149,6 +150,7 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
     for (size_t i = 0; i < N; ++i) {
       containers_.at(i).reset();
     }
+    minTime_ = 0.0;
   }
 
   virtual void transformCurve(const ValueType /*T*/)
-- 
2.43.0


From dfc9904901a3a5709fb4e84659b5a60ae523c162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:47 +0000
Subject: [PATCH 04/35] fix: CSV loaders read the time columns off by one

---
 curves/src/helpers.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/curves/src/helpers.cpp b/curves/src/helpers.cpp
index 1e8a580..8a6ca44 100644
--- a/curves/src/helpers.cpp
+++ b/curves/src/helpers.cpp
@@ -71,7 +71,7 @@ void loadTimeVectorCSV(std::string fileName, std::vector<curves::Time>* outTimes
   const unsigned vDim = temp.at(0).size() - vOffset;
   Eigen::VectorXd tempVec(vDim);
   for (std::vector<std::vector<std::string> >::iterator it = temp.begin() ; it != temp.end(); ++it) {
-    outTimes->push_back((curves::Time)atof(it->at(1).c_str()));
+    outTimes->push_back((curves::Time)atof(it->at(0).c_str()));
     for (unsigned vIdx = 0; vIdx < vDim; vIdx++) {
       tempVec[vIdx] = atof(it->at(vIdx + vOffset).c_str());
     }
@@ -120,8 +120,8 @@ void loadTimeTimeVectorCSV(std::string fileName, std::vector<curves::Time>* outT
   const unsigned vDim = temp.at(0).size() - vOffset;
   Eigen::VectorXd tempVec(vDim);
   for (std::vector<std::vector<std::string> >::iterator it = temp.begin() ; it != temp.end(); ++it) {
-    outTimes0->push_back((curves::Time)atof(it->at(1).c_str()));
-    outTimes1->push_back((curves::Time)atof(it->at(2).c_str()));
+    outTimes0->push_back((curves::Time)atof(it->at(0).c_str()));
+    outTimes1->push_back((curves::Time)atof(it->at(1).c_str()));
     for (unsigned vIdx = 0; vIdx < vDim; vIdx++) {
       tempVec[vIdx] = atof(it->at(vIdx + vOffset).c_str());
     }
-- 
2.43.0


From 8204981a1fe0fbd26551283367edd27753601668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:47 +0000
Subject: [PATCH 05/35] fix: CSV writer kept only 6 significant digits of times
 and values

---
 curves/src/helpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curves/src/helpers.cpp b/curves/src/helpers.cpp
index 8a6ca44..a9802ce 100644
--- a/curves/src/helpers.cpp
+++ b/curves/src/helpers.cpp
@@ -13,7 +13,7 @@ namespace curves {
 
 template <typename T>
 std::string toString(const T& t) {
-  std::ostringstream ss; ss<<t; return ss.str();
+  std::ostringstream ss; ss.precision(17); ss<<t; return ss.str();
 }
 /// \brief Helper function to read CSV files into 'matrix' of strings
 std::vector<std::vector<std::string> > loadCSV(std::string fileName) {
-- 
2.43.0


From 1f49255c808c13874cbb985d522a61aed50bf445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:09 +0000
Subject: [PATCH 06/35] fix: setData with no knots wrapped around to 2^32-1
 splines instead of failing

---
 curves/include/curves/PolynomialSplineContainer.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index 99ac23e..9171295 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -257,7 +257,7 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
   const unsigned int solutionSpaceDimension = numSplines*num_coeffs_spline;
   const unsigned int num_junctions = numSplines-1;
 
-  if (numSplines<1) {
+  if (knotDurations.size()<2) {
     std::cout << "[PolynomialSplineContainer::setData] Not enough knot points available!" << std::endl;
     return false;
   }
@@ -334,7 +334,7 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
   const unsigned int solutionSpaceDimension = numSplines*num_coeffs_spline;
   const unsigned int num_junctions = numSplines-1u;
 
-  if (numSplines<1u) {
+  if (knotDurations.size()<2u) {
     std::cout << "[PolynomialSplineContainer::setData] Not enough knot points available!" << std::endl;
     return false;
   }
-- 
2.43.0


From 5c4570f14ab6bc9c451786787f8f3f87bee10f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:09 +0000
Subject: [PATCH 07/35] fix: a rejected linear setData left the old or a
 partial trajectory in the container

---
 curves/include/curves/PolynomialSplineContainer.tpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index 9171295..3e02d02 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -402,7 +402,7 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
     const std::vector<double>& knotDurations,
     const std::vector<double>& knotPositions) {
 
-  bool success = true;
+  bool success = reset();
   const int numSplines = knotDurations.size()-1;
   constexpr auto num_coeffs_spline = SplineType::coefficientCount;
   typename SplineType::SplineCoefficients coefficients;
@@ -413,14 +413,13 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
 
   std::fill(coefficients.begin(), coefficients.end(), 0.0);
 
-  success &= reset();
-
   this->reserveSplines(numSplines);
 
   for (int splineId = 0; splineId<numSplines; ++splineId) {
     const double duration = knotDurations[splineId+1]-knotDurations[splineId];
 
     if (duration<=0.0) {
+      reset();
       return false;
     }
 
-- 
2.43.0


From 425f4a4563fca08be645446904eed72d3bb4f1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:09 +0000
Subject: [PATCH 08/35] fix: advance by more than one spline duration stopped
 at the next spline

---
 curves/include/curves/PolynomialSplineContainer.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index 3e02d02..0f98633 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -43,8 +43,8 @@ bool PolynomialSplineContainer<splineOrder_>::advance(double dt)
   // Advance in time.
   containerTime_ += dt;
 
-  // Check if spline index needs to be increased.
-  if ((containerTime_ - timeOffset_ >= splines_[activeSplineIdx_].getSplineDuration())) {
+  // Check if spline index needs to be increased (dt may span several splines).
+  while (activeSplineIdx_ < splines_.size() && (containerTime_ - timeOffset_ >= splines_[activeSplineIdx_].getSplineDuration())) {
     if (activeSplineIdx_ < (splines_.size() - 1)) {
       timeOffset_ += splines_[activeSplineIdx_].getSplineDuration();
     }
-- 
2.43.0


From d6eac2949a2e7ac8548d8b3c4f2917cd3232fa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:09 +0000
Subject: [PATCH 09/35] fix: addSpline kept a stale active spline after the
 container time had reached the end

---
 curves/include/curves/PolynomialSplineContainer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curves/include/curves/PolynomialSplineContainer.hpp b/curves/include/curves/PolynomialSplineContainer.hpp
index 5cf5db6..88e8c0d 100644
--- a/curves/include/curves/PolynomialSplineContainer.hpp
+++ b/curves/include/curves/PolynomialSplineContainer.hpp
@@ -50,6 +50,8 @@ class PolynomialSplineContainer {
   bool addSpline(SplineType_&& spline) {
     containerDuration_ += spline.getSplineDuration();
     splines_.emplace_back(std::forward<SplineType_>(spline));
+    // The spline active at the current time may be the new one.
+    setContainerTime(containerTime_);
     return true;
   }
 
-- 
2.43.0


From 3b91cc23b4e496ebb392753b04c04a571d3e9d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:09 +0000
Subject: [PATCH 10/35] fix: fitting a scalar curve to spline options appended
 to the existing curve

---
 curves/include/curves/PolynomialSplineScalarCurve.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curves/include/curves/PolynomialSplineScalarCurve.hpp b/curves/include/curves/PolynomialSplineScalarCurve.hpp
index c85933b..b632dcb 100644
--- a/curves/include/curves/PolynomialSplineScalarCurve.hpp
+++ b/curves/include/curves/PolynomialSplineScalarCurve.hpp
@@ -131,6 +131,7 @@ class PolynomialSplineScalarCurve : public Curve<ScalarCurveConfig>
   virtual void fitCurve(const std::vector<SplineOptions>& optionList,
                         std::vector<Key>* outKeys = NULL)
   {
+    container_.reset();
     container_.reserveSplines(optionList.size());
     for (const auto& options : optionList) {
       container_.addSpline(PolynomialSplineQuintic(options));
-- 
2.43.0


From b66808ba52acaaa1bd85d48d8d9b30b1a99636ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:25 +0000
Subject: [PATCH 11/35] fix: quintic splines shorter than about 1 ms missed
 their final position (singular linear system)

---
 .../include/curves/polynomial_splines_traits.hpp  | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/curves/include/curves/polynomial_splines_traits.hpp b/curves/include/curves/polynomial_splines_traits.hpp
index 78e74d8..e35708e 100644
--- a/curves/include/curves/polynomial_splines_traits.hpp
+++ b/curves/include/curves/polynomial_splines_traits.hpp
@@ -278,15 +278,22 @@ struct spline_rep<double, 5> {
 
   //! Map initial pos/vel/accel and final pos/vel/accel to spline coefficients.
   static inline bool compute(const SplineOptions& opts, SplineCoefficients& coefficients) {
+    // Solve in normalized time t/tf: the system is numerically singular for small tf otherwise.
+    const double tf = (opts.tf_ != 0.0) ? opts.tf_ : 1.0;
     Eigen::Map<Eigen::VectorXd>(coefficients.data(), numCoefficients, 1) =
       (Eigen::Matrix<double, numCoefficients, numCoefficients>() << Eigen::Map<const Eigen::Matrix<double, 1, numCoefficients>>(tauZero.data()),
                Eigen::Map<const Eigen::Matrix<double, 1, numCoefficients>>(dtauZero.data()),
                Eigen::Map<const Eigen::Matrix<double, 1, numCoefficients>>(ddtauZero.data()),
-               Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((tau(opts.tf_)).data()),
-               Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((dtau(opts.tf_)).data()),
-               Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((ddtau(opts.tf_)).data())).finished().
+               Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((tau(1.0)).data()),
+               Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((dtau(1.0)).data()),
+               Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((ddtau(1.0)).data())).finished().
                  colPivHouseholderQr().solve(
-                     (Eigen::Matrix<double, numCoefficients, 1>() << opts.pos0_, opts.vel0_, opts.acc0_, opts.posT_, opts.velT_, opts.accT_).finished());
+                     (Eigen::Matrix<double, numCoefficients, 1>() << opts.pos0_, opts.vel0_*tf, opts.acc0_*tf*tf, opts.posT_, opts.velT_*tf, opts.accT_*tf*tf).finished());
+    double tfPower = 1.0;
+    for (unsigned int i = 1; i < numCoefficients; ++i) {
+      tfPower *= tf;
+      coefficients[numCoefficients-1-i] /= tfPower;
+    }
 
     return true;
   }
-- 
2.43.0


From 74ba64d81f50f4dcfdad2f84118b462f5337dd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:04 +0000
Subject: [PATCH 12/35] fix: removing or looking up a coefficient by key did
 not compile

---
 .../include/curves/LocalSupport2CoefficientManager-inl.hpp   | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index ed9f025..c9edbce 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -195,7 +195,7 @@ void LocalSupport2CoefficientManager<Coefficient>::removeCoefficientWithKey(Key
   typename TimeToKeyCoefficientMap::iterator it1;
   typename boost::unordered_map<Key, CoefficientIter>::iterator it2;
   it2 = keyToCoefficient_.find(key);
-  it1 = timeToCoefficient_.find(it1->second->first);
+  it1 = timeToCoefficient_.find(it2->second->first);
   timeToCoefficient_.erase(it1);
   keyToCoefficient_.erase(it2);
 }
@@ -221,8 +221,7 @@ bool LocalSupport2CoefficientManager<Coefficient>::hasCoefficientAtTime(Time tim
 /// \brief return true if there is a coefficient with this key
 template <class Coefficient>
 bool LocalSupport2CoefficientManager<Coefficient>::hasCoefficientWithKey(Key key) const {
-  CoefficientIter it = keyToCoefficient_.find(key);
-  return it != keyToCoefficient_.end();
+  return keyToCoefficient_.find(key) != keyToCoefficient_.end();
 }
 
 /// \brief set the coefficient associated with this key
-- 
2.43.0


From e00591a9cb73b01dc0c4d48601c5452ef2e9ff1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:04 +0000
Subject: [PATCH 13/35] fix: getCoefficients and getCoefficientsInRange did not
 compile

---
 .../curves/LocalSupport2CoefficientManager-inl.hpp        | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index c9edbce..9642f73 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -289,7 +289,7 @@ template <class Coefficient>
 void LocalSupport2CoefficientManager<Coefficient>::getCoefficientsInRange(
     Time startTime, Time endTime, CoefficientMap* outCoefficients) const {
 
-  if (startTime <= endTime && startTime <= this->getMaxTime()
+  if (!this->empty() && startTime <= endTime && startTime <= this->getMaxTime()
       && endTime >= this->getMinTime()) {
     // be forgiving if start time is lower than definition of curve
     if (startTime < this->getMinTime()) {
@@ -305,10 +305,10 @@ void LocalSupport2CoefficientManager<Coefficient>::getCoefficientsInRange(
     it--;
     // iterate through coefficients
     for (; it != timeToCoefficient_.end() && it->first < endTime; ++it) {
-      (*outCoefficients)[it->second->key] = it->second->coefficient;
+      (*outCoefficients)[it->second.key] = it->second.coefficient;
     }
     if (it != timeToCoefficient_.end()) {
-      (*outCoefficients)[it->second->key] = it->second->coefficient;
+      (*outCoefficients)[it->second.key] = it->second.coefficient;
     }
   }
 }
@@ -320,7 +320,7 @@ void LocalSupport2CoefficientManager<Coefficient>::getCoefficients(CoefficientMa
   CoefficientIter it;
   it = timeToCoefficient_.begin();
   for( ; it != timeToCoefficient_.end(); ++it) {
-    (*outCoefficients)[it->second->key] = it->second->coefficient;
+    (*outCoefficients)[it->second.key] = it->second.coefficient;
   }
 }
 
-- 
2.43.0


From 44a9d629ea863cae7250e8ff3d67160accd1d513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:04 +0000
Subject: [PATCH 14/35] fix: comparing two coefficient managers did not compile

---
 .../curves/LocalSupport2CoefficientManager-inl.hpp | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index 9642f73..4f36361 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -31,24 +31,12 @@ bool LocalSupport2CoefficientManager<Coefficient>::equals(const LocalSupport2Coe
   equal &= keyToCoefficient_.size() == other.keyToCoefficient_.size();
   equal &= timeToCoefficient_.size() == other.timeToCoefficient_.size();
   if (equal) {
-    CoefficientIter it1, it2;
-    it1 = keyToCoefficient_.begin();
-    it2 = other.keyToCoefficient_.begin();
-    for( ; it1 != keyToCoefficient_.end(); ++it1, ++it2) {
-      equal &= it1->first == it2->first;
-      equal &= it1->second.equals(it2->second);
-    }
-
     CoefficientIter it3, it4;
     it3 = timeToCoefficient_.begin();
     it4 = other.timeToCoefficient_.begin();
     for( ; it3 != timeToCoefficient_.end(); ++it3, ++it4) {
       equal &= it3->first == it4->first;
-      if (it3->second && it4->second) {
-        equal &= it3->second->equals(*(it4->second));
-      } else {
-        equal &= it3->second == it4->second;
-      }
+      equal &= it3->second.equals(it4->second);
     }
 
   }
-- 
2.43.0


From ac985448e27919ee2d5a52b48eb9fe23884a3bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:04 +0000
Subject: [PATCH 15/35] fix: a copied coefficient manager kept pointing into
 the original

---
 .../LocalSupport2CoefficientManager-inl.hpp    | 18 ++++++++++++++++++
 .../curves/LocalSupport2CoefficientManager.hpp |  3 +++
 2 files changed, 21 insertions(+)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index 4f36361..8a7ecfe 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -19,6 +19,24 @@ template <class Coefficient>
 LocalSupport2CoefficientManager<Coefficient>::LocalSupport2CoefficientManager() {
 }
 
+template <class Coefficient>
+LocalSupport2CoefficientManager<Coefficient>::LocalSupport2CoefficientManager(const LocalSupport2CoefficientManager& other) {
+  *this = other;
+}
+
+template <class Coefficient>
+LocalSupport2CoefficientManager<Coefficient>&
+LocalSupport2CoefficientManager<Coefficient>::operator=(const LocalSupport2CoefficientManager& other) {
+  if (this != &other) {
+    timeToCoefficient_ = other.timeToCoefficient_;
+    keyToCoefficient_.clear();
+    for (CoefficientIter it = timeToCoefficient_.begin(); it != timeToCoefficient_.end(); ++it) {
+      keyToCoefficient_[it->second.key] = it;
+    }
+  }
+  return *this;
+}
+
 template <class Coefficient>
 LocalSupport2CoefficientManager<Coefficient>::~LocalSupport2CoefficientManager() {
 }
diff --git a/curves/include/curves/LocalSupport2CoefficientManager.hpp b/curves/include/curves/LocalSupport2CoefficientManager.hpp
index 1e769d4..8e91552 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager.hpp
@@ -50,6 +50,9 @@ class LocalSupport2CoefficientManager {
   typedef boost::unordered_map<size_t, Coefficient> CoefficientMap;
 
   LocalSupport2CoefficientManager();
+  /// Copies must not share the iterators of the original.
+  LocalSupport2CoefficientManager(const LocalSupport2CoefficientManager& other);
+  LocalSupport2CoefficientManager& operator=(const LocalSupport2CoefficientManager& other);
   virtual ~LocalSupport2CoefficientManager();
 
   /// Compare this Coefficient manager with another for equality.
-- 
2.43.0


From 9a2d48a7114482bd45a5583a20a9a89a623cfff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:04 +0000
Subject: [PATCH 16/35] fix: modifying a coefficient without changing its time
 lost it

---
 .../include/curves/LocalSupport2CoefficientManager-inl.hpp   | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index 8a7ecfe..f97fad8 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -188,6 +188,11 @@ void LocalSupport2CoefficientManager<Coefficient>::modifyCoefficient(typename Ti
                                                                      Time time, const Coefficient& coefficient) {
   // This is used by slerp sampling policy.
   // In this case a new coefficient should be placed slightly later than the initial one.
+  if (time == it->first) {
+    it->second.coefficient = coefficient;
+    return;
+  }
+  CHECK(!this->hasCoefficientAtTime(time)) << "There is already a coefficient at that time.";
   CoefficientIter newIt = timeToCoefficient_.insert(it,std::pair<Time, KeyCoefficient>(time, KeyCoefficient(it->second.key, coefficient)));
   // Update keyToCoefficient_
   keyToCoefficient_[it->second.key] = newIt;
-- 
2.43.0


From 4b95645bc53bde2d4965b4815bb1c3539504bcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:04 +0000
Subject: [PATCH 17/35] fix: getTimesInWindow never returned the first
 coefficient time and misread single-coefficient managers

---
 .../curves/LocalSupport2CoefficientManager-inl.hpp  | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index f97fad8..31fad25 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -99,16 +99,9 @@ void LocalSupport2CoefficientManager<Coefficient>::getTimesInWindow(std::vector<
   CHECK_NOTNULL(outTimes);
 
   outTimes->clear();
-  CoefficientIter it = --(timeToCoefficient_.end());
-
-  do {
-    if (it->first >= begTime) {
-      outTimes->push_back(it->first);
-    }
-    --it;
-  } while (it->first >= begTime && it != timeToCoefficient_.begin());
-
-  std::reverse(outTimes->begin(),outTimes->end());
+  for (CoefficientIter it = timeToCoefficient_.lower_bound(begTime); it != timeToCoefficient_.end(); ++it) {
+    outTimes->push_back(it->first);
+  }
 }
 
 template <class Coefficient>
-- 
2.43.0


From 6cbba8d787190bee2139d81bb024edb1ee333c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:04 +0000
Subject: [PATCH 18/35] fix: addCoefficientAtEnd failed on an empty manager

---
 curves/include/curves/LocalSupport2CoefficientManager-inl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index 31fad25..ed305d3 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -162,12 +162,12 @@ void LocalSupport2CoefficientManager<Coefficient>::modifyCoefficientsValuesInBat
 
 template <class Coefficient>
 void LocalSupport2CoefficientManager<Coefficient>::addCoefficientAtEnd(Time time, const Coefficient& coefficient, std::vector<Key>* outKeys) {
-  CHECK(time > getMaxTime()) << "Time to add is not greater than curve max time";
+  CHECK(empty() || time > getMaxTime()) << "Time to add is not greater than curve max time";
 
   Key key = KeyGenerator::getNextKey();
 
   // Insert the coefficient with a hint that it goes at the end
-  CoefficientIter it = timeToCoefficient_.insert(--(timeToCoefficient_.end()),
+  CoefficientIter it = timeToCoefficient_.insert(timeToCoefficient_.end(),
                                                  std::pair<Time, KeyCoefficient>(time, KeyCoefficient(key, coefficient)));
 
   keyToCoefficient_.insert(keyToCoefficient_.end(), std::pair<Key, CoefficientIter>(key,it));
-- 
2.43.0


From 3e4640f4be1ede199acb43f7ca08d44d762f3d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:04 +0000
Subject: [PATCH 19/35] fix: consistency check dereferenced the end iterator
 before testing for it

---
 curves/include/curves/LocalSupport2CoefficientManager-inl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index ed305d3..8bb01f7 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -383,8 +383,8 @@ void LocalSupport2CoefficientManager<Coefficient>::checkInternalConsistency(bool
   for(it = timeToCoefficient_.begin() ; it != timeToCoefficient_.end(); ++it) {
     Key key = it->second.key;
     itc = keyToCoefficient_.find(key);
-    CHECK_EQ(itc->first, itc->second->second.key);
     CHECK( itc != keyToCoefficient_.end() ) << "Key " << key << " is not in the map";
+    CHECK_EQ(itc->first, itc->second->second.key);
     // This is probably the important one.
     // Check that the itc->second iterator
     // points to the same object as it->second.
-- 
2.43.0


From 4f09d30d3511d8bfde622d0c2466b8bfa00cea31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:30 +0000
Subject: [PATCH 20/35] fix: splines built from options copied an uninitialised
 flag (undefined behaviour)

---
 curves/include/curves/PolynomialSpline.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curves/include/curves/PolynomialSpline.hpp b/curves/include/curves/PolynomialSpline.hpp
index deb5b75..002691c 100644
--- a/curves/include/curves/PolynomialSpline.hpp
+++ b/curves/include/curves/PolynomialSpline.hpp
@@ -61,11 +61,11 @@ class PolynomialSpline {
 
   }
 
-  explicit PolynomialSpline(const SplineOptions& options) : duration_(options.tf_) {
+  explicit PolynomialSpline(const SplineOptions& options) : duration_(options.tf_), didEvaluateCoeffs_(true) {
     computeCoefficients(options);
   }
 
-  explicit PolynomialSpline(SplineOptions&& options) : duration_(options.tf_) {
+  explicit PolynomialSpline(SplineOptions&& options) : duration_(options.tf_), didEvaluateCoeffs_(true) {
     computeCoefficients(std::move(options));
   }
 
-- 
2.43.0


From 3ce06091bb3d8e68bcafab725389678d6a271a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:25 +0000
Subject: [PATCH 21/35] fix: CubicHermiteE3Curve::fitCurveWithDerivatives kept
 the knots of the earlier curve

---
 curves/src/CubicHermiteE3Curve.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index 60ad7d3..1a82b39 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -146,6 +146,7 @@ void CubicHermiteE3Curve::fitCurveWithDerivatives(const std::vector<Time>& times
                       const DerivativeType& finalDerivative,
                       std::vector<Key>* outKeys) {
   assert(times.size() == values.size());
+  clear();
 
   // construct the Hemrite coefficients
   std::vector<Coefficient> coefficients;
-- 
2.43.0


From f3fad94bd54428418b1a54c7ccd52b448763e520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:03 +0000
Subject: [PATCH 22/35] fix: evaluating an empty Hermite curve at time 0
 dereferenced the end of its coefficients

---
 curves/src/CubicHermiteE3Curve.cpp  | 4 ++--
 curves/src/CubicHermiteSE3Curve.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index 1a82b39..0270c96 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -184,7 +184,7 @@ void CubicHermiteE3Curve::fitCurveWithDerivatives(const std::vector<Time>& times
 /// Evaluate the ambient space of the curve.
 bool CubicHermiteE3Curve::evaluate(ValueType& value, Time time) const {
   // Check if the curve is only defined at this one time
-   if (manager_.getMaxTime() == time && manager_.getMinTime() == time) {
+   if (!manager_.empty() && manager_.getMaxTime() == time && manager_.getMinTime() == time) {
      value =  manager_.coefficientBegin()->second.coefficient.getPosition();
      return true;
    }
@@ -237,7 +237,7 @@ bool CubicHermiteE3Curve::evaluateDerivative(DerivativeType& derivative, Time ti
 {
   if (derivativeOrder == 1) {
     // Check if the curve is only defined at this one time
-      if (manager_.getMaxTime() == time && manager_.getMinTime() == time) {
+      if (!manager_.empty() && manager_.getMaxTime() == time && manager_.getMinTime() == time) {
         derivative = manager_.coefficientBegin()->second.coefficient.getVelocity();
         return true;
       }
diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index b1f9c28..ebfd539 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -194,7 +194,7 @@ void CubicHermiteSE3Curve::extend(const std::vector<Time>& /*times*/,
 
 bool CubicHermiteSE3Curve::evaluate(ValueType& value, Time time) const {
   // Check if the curve is only defined at this one time
-  if (manager_.getMaxTime() == time && manager_.getMinTime() == time) {
+  if (!manager_.empty() && manager_.getMaxTime() == time && manager_.getMinTime() == time) {
     value =  manager_.coefficientBegin()->second.coefficient.getTransformation();
     return true;
   }
@@ -273,7 +273,7 @@ bool CubicHermiteSE3Curve::evaluateDerivative(DerivativeType& derivative,
 {
   if (derivativeOrder == 1) {
     // Check if the curve is only defined at this one time
-    if (manager_.getMaxTime() == time && manager_.getMinTime() == time) {
+    if (!manager_.empty() && manager_.getMaxTime() == time && manager_.getMinTime() == time) {
       derivative = manager_.coefficientBegin()->second.coefficient.getTransformationDerivative();
       return true;
     }
-- 
2.43.0


From 328978057aa0be87533b76e77affa2b4cce2edab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:05 +0000
Subject: [PATCH 23/35] fix: periodic Hermite fits took the slope at the seam
 over a wrong (even zero or negative) time span

---
 curves/src/CubicHermiteE3Curve.cpp  | 4 +++-
 curves/src/CubicHermiteSE3Curve.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index 0270c96..6668cc9 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -136,7 +136,9 @@ void CubicHermiteE3Curve::fitPeriodicCurve(const std::vector<Time>& times,
    */
   const size_t nPoints = times.size();
   //TODO Add a check on nPoints which should be >= 2 otherwise that breaks.
-  DerivativeType derivative = calculateSlope(times[nPoints-2], times[1], values[nPoints-2], values[1]);
+  // The neighbour before the first point is the last but one, one period earlier.
+  const Time period = times[nPoints-1] - times[0];
+  DerivativeType derivative = calculateSlope(times[nPoints-2] - period, times[1], values[nPoints-2], values[1]);
   fitCurveWithDerivatives(times, values, derivative, derivative, outKeys);
 }
 
diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index ebfd539..b771e3e 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -153,7 +153,9 @@ void CubicHermiteSE3Curve::fitPeriodicCurve(const std::vector<Time>& times,
    *
    */
   const size_t nPoints = times.size();
-  CubicHermiteSE3Curve::DerivativeType derivative = calculateSlope(times[nPoints-2], times[1], values[nPoints-2], values[1]);
+  // The neighbour before the first point is the last but one, one period earlier.
+  const Time period = times[nPoints-1] - times[0];
+  CubicHermiteSE3Curve::DerivativeType derivative = calculateSlope(times[nPoints-2] - period, times[1], values[nPoints-2], values[1]);
   fitCurveWithDerivatives(times, values, derivative, derivative, outKeys);
 }
 
-- 
2.43.0


From bafcfe8a80334a128bc8f34de5b83f036d098116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:30 +0000
Subject: [PATCH 24/35] fix: CubicHermiteE3Curve::writeEvalToFile named columns
 it does not write

---
 curves/src/CubicHermiteE3Curve.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index 6668cc9..17df2f0 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -48,9 +48,7 @@ bool CubicHermiteE3Curve::writeEvalToFile(const std::string& filename, int nSamp
   }
   fprintf(fp, "t ");
   fprintf(fp, "px py pz ");
-  fprintf(fp, "rw rx ry rz ");
   fprintf(fp, "vx vy vz ");
-  fprintf(fp, "wx wy wz ");
   fprintf(fp, "\n");
 
   Time dt = (getMaxTime()-getMinTime())/(nSamples-1);
-- 
2.43.0


From 26811b64f3725c9d750e31c8fd3c77b5328a7631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:04 +0000
Subject: [PATCH 25/35] fix: a cleared SlerpSE3Curve kept counting measurements
 of the old curve and dropped a knot of the new one

---
 curves/src/SlerpSE3Curve.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curves/src/SlerpSE3Curve.cpp b/curves/src/SlerpSE3Curve.cpp
index 8dac84e..9dd37d6 100644
--- a/curves/src/SlerpSE3Curve.cpp
+++ b/curves/src/SlerpSE3Curve.cpp
@@ -256,6 +256,7 @@ void SlerpSE3Curve::setSamplingRatio(const int ratio) {
 
 void SlerpSE3Curve::clear() {
   manager_.clear();
+  slerpPolicy_.setMeasurementsSinceLastExtend_(0);
 }
 
 void SlerpSE3Curve::transformCurve(const ValueType T) {
-- 
2.43.0


From 89bf3c58c213d0fa92b1d4cab6365ff0697437f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:04 +0000
Subject: [PATCH 26/35] fix: fromMessage read past the end of the points of a
 message that names no joints

---
 curves_ros/src/RosJointTrajectoryInterface.cpp                  | 2 +-
 curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp          | 2 +-
 .../src/RosMultiDOFJointTrajectoryTranslationInterface.cpp      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/curves_ros/src/RosJointTrajectoryInterface.cpp b/curves_ros/src/RosJointTrajectoryInterface.cpp
index 0998e76..146a1a0 100644
--- a/curves_ros/src/RosJointTrajectoryInterface.cpp
+++ b/curves_ros/src/RosJointTrajectoryInterface.cpp
@@ -31,8 +31,8 @@ bool RosJointTrajectoryInterface::fromMessage(const trajectory_msgs::JointTrajec
   size_t j = 0;
   for (; j < nJoints; ++j) {
     if (message.joint_names[j] == jointName) break;
-    if (j == nJoints - 1) return false; // Joint name not found.
   }
+  if (j == nJoints) return false; // Joint name not found.
 
   std::vector<Time> times;
   std::vector<PolynomialSplineQuinticScalarCurve::ValueType> values;
diff --git a/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp b/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
index dceae8e..e4eff81 100644
--- a/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
+++ b/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
@@ -34,8 +34,8 @@ bool RosMultiDOFJointTrajectoryInterface::fromMessage(
   size_t j = 0;
   for (; j < nJoints; ++j) {
     if (message.joint_names[j] == jointName) break;
-    if (j == nJoints - 1) return false; // Joint name not found.
   }
+  if (j == nJoints) return false; // Joint name not found.
 
   std::vector<Time> times;
   std::vector<CubicHermiteSE3Curve::ValueType> values;
diff --git a/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp b/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
index 8961923..00dbe0c 100644
--- a/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
+++ b/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
@@ -31,8 +31,8 @@ bool RosMultiDOFJointTrajectoryTranslationInterface::fromMessage(
   size_t j = 0;
   for (; j < nJoints; ++j) {
     if (message.joint_names[j] == jointName) break;
-    if (j == nJoints - 1) return false; // Joint name not found.
   }
+  if (j == nJoints) return false; // Joint name not found.
 
   std::vector<Time> times;
   std::vector<PolynomialSplineQuinticVector3Curve::ValueType> values;
-- 
2.43.0


From 12c4c014ff1180b05d2341532d95b413c6d45b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:44 +0000
Subject: [PATCH 27/35] fix: setData accepted knot times that are not a number

---
 curves/include/curves/PolynomialSplineContainer.tpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index 0f98633..b7804b4 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -280,7 +280,7 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
   for (unsigned int splineId=0; splineId<numSplines; splineId++) {
     splineDurations[splineId] = knotDurations[splineId+1]-knotDurations[splineId];
 
-    if (splineDurations[splineId]<=0.0) {
+    if (!(splineDurations[splineId]>0.0)) {
       std::cout << "[PolynomialSplineContainer::setData] Invalid spline duration at index" << splineId << ": " << splineDurations[splineId] << std::endl;
       return false;
     }
@@ -357,7 +357,7 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
   for (unsigned int splineId=0; splineId<numSplines; splineId++) {
     splineDurations[splineId] = knotDurations[splineId+1]-knotDurations[splineId];
 
-    if (splineDurations[splineId]<=0.0) {
+    if (!(splineDurations[splineId]>0.0)) {
       std::cout << "[PolynomialSplineContainer::setData] Invalid spline duration at index" << splineId << ": " << splineDurations[splineId] << std::endl;
       return false;
     }
@@ -418,7 +418,7 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
   for (int splineId = 0; splineId<numSplines; ++splineId) {
     const double duration = knotDurations[splineId+1]-knotDurations[splineId];
 
-    if (duration<=0.0) {
+    if (!(duration>0.0)) {
       reset();
       return false;
     }
-- 
2.43.0


From 09a216c688ab50b4f796a44cd5494d70e2850201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:44 +0000
Subject: [PATCH 28/35] fix: setData read past the end of the knot positions
 when there are fewer positions than times

---
 curves/include/curves/PolynomialSplineContainer.tpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index b7804b4..b7bfb29 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -257,6 +257,11 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
   const unsigned int solutionSpaceDimension = numSplines*num_coeffs_spline;
   const unsigned int num_junctions = numSplines-1;
 
+  if (knotDurations.size()!=knotPositions.size()) {
+    std::cout << "[PolynomialSplineContainer::setData] Number of knot times and positions differ!" << std::endl;
+    return false;
+  }
+
   if (knotDurations.size()<2) {
     std::cout << "[PolynomialSplineContainer::setData] Not enough knot points available!" << std::endl;
     return false;
@@ -334,6 +339,11 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
   const unsigned int solutionSpaceDimension = numSplines*num_coeffs_spline;
   const unsigned int num_junctions = numSplines-1u;
 
+  if (knotDurations.size()!=knotPositions.size()) {
+    std::cout << "[PolynomialSplineContainer::setData] Number of knot times and positions differ!" << std::endl;
+    return false;
+  }
+
   if (knotDurations.size()<2u) {
     std::cout << "[PolynomialSplineContainer::setData] Not enough knot points available!" << std::endl;
     return false;
@@ -407,7 +417,7 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
   constexpr auto num_coeffs_spline = SplineType::coefficientCount;
   typename SplineType::SplineCoefficients coefficients;
 
-  if (splineOrder_==0 || numSplines<1) {
+  if (splineOrder_==0 || numSplines<1 || knotDurations.size()!=knotPositions.size()) {
     return false;
   }
 
-- 
2.43.0


From 250fbd256c8b847942102a1b112440e36c9ea583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:44 +0000
Subject: [PATCH 29/35] fix: loadCSV dropped an empty last field of a row

---
 curves/src/helpers.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/curves/src/helpers.cpp b/curves/src/helpers.cpp
index a9802ce..7c9263f 100644
--- a/curves/src/helpers.cpp
+++ b/curves/src/helpers.cpp
@@ -33,6 +33,10 @@ std::vector<std::vector<std::string> > loadCSV(std::string fileName) {
     while (getline(ss, field,',')) {
       strRow.push_back(field); // add column entry to row
     }
+    // An empty last field leaves nothing to extract after its separator
+    if (line.empty() || line.back() == ',') {
+      strRow.push_back(std::string());
+    }
     strMatrix.push_back(strRow); // add row to matrix
   }
   inFileStream.close();
-- 
2.43.0


From 261d190cff050431ba907b5fecae12cb1791cd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:41 +0000
Subject: [PATCH 30/35] fix: short cubic and quartic splines missed their
 boundary values (singular linear system)

---
 .../curves/polynomial_splines_traits.hpp      | 28 +++++++++++++++----
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/curves/include/curves/polynomial_splines_traits.hpp b/curves/include/curves/polynomial_splines_traits.hpp
index e35708e..d35efc4 100644
--- a/curves/include/curves/polynomial_splines_traits.hpp
+++ b/curves/include/curves/polynomial_splines_traits.hpp
@@ -186,17 +186,25 @@ struct spline_rep<double, 3> {
   //! Map initial pos, initial vel, final pos and final vel to spline coefficients.
   static bool compute(const SplineOptions& opts, SplineCoefficients& coefficients) {
 
+    // Solve in normalized time t/tf: the system is numerically singular for small tf otherwise.
+    const double tf = (opts.tf_ != 0.0) ? opts.tf_ : 1.0;
     Eigen::Matrix<double, numCoefficients, 1> b;
-    b << opts.pos0_, opts.vel0_, opts.posT_, opts.velT_;
+    b << opts.pos0_, opts.vel0_*tf, opts.posT_, opts.velT_*tf;
 
     Eigen::Matrix<double, numCoefficients, numCoefficients> A;
     A << Eigen::Map<const Eigen::Matrix<double, 1, numCoefficients>>(tauZero.data()),
          Eigen::Map<const Eigen::Matrix<double, 1, numCoefficients>>(dtauZero.data()),
-         Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((tau(opts.tf_)).data()),
-         Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((dtau(opts.tf_)).data());
+         Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((tau(1.0)).data()),
+         Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((dtau(1.0)).data());
 
     Eigen::Map<Eigen::VectorXd>(coefficients.data(), numCoefficients, 1) = A.colPivHouseholderQr().solve(b);
 
+    double tfPower = 1.0;
+    for (unsigned int i = 1; i < numCoefficients; ++i) {
+      tfPower *= tf;
+      coefficients[numCoefficients-1-i] /= tfPower;
+    }
+
     return true;
   }
 };
@@ -229,18 +237,26 @@ struct spline_rep<double, 4> {
 
   //! Map initial pos/vel/accel and final pos/vel to spline coefficients.
   static bool compute(const SplineOptions& opts, SplineCoefficients& coefficients) {
+    // Solve in normalized time t/tf: the system is numerically singular for small tf otherwise.
+    const double tf = (opts.tf_ != 0.0) ? opts.tf_ : 1.0;
     Eigen::Matrix<double, numCoefficients, 1> b;
-    b << opts.pos0_, opts.vel0_, opts.acc0_, opts.posT_, opts.velT_;
+    b << opts.pos0_, opts.vel0_*tf, opts.acc0_*tf*tf, opts.posT_, opts.velT_*tf;
 
     Eigen::Matrix<double, numCoefficients, numCoefficients> A;
     A << Eigen::Map<const Eigen::Matrix<double, 1, numCoefficients>>(tauZero.data()),
          Eigen::Map<const Eigen::Matrix<double, 1, numCoefficients>>(dtauZero.data()),
          Eigen::Map<const Eigen::Matrix<double, 1, numCoefficients>>(ddtauZero.data()),
-         Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((tau(opts.tf_)).data()),
-         Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((dtau(opts.tf_)).data());
+         Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((tau(1.0)).data()),
+         Eigen::Map<Eigen::Matrix<double, 1, numCoefficients>>((dtau(1.0)).data());
 
     Eigen::Map<Eigen::VectorXd>(coefficients.data(), numCoefficients, 1) = A.colPivHouseholderQr().solve(b);
 
+    double tfPower = 1.0;
+    for (unsigned int i = 1; i < numCoefficients; ++i) {
+      tfPower *= tf;
+      coefficients[numCoefficients-1-i] /= tfPower;
+    }
+
     return true;
   }
 
-- 
2.43.0


From 181d9a81175b66469e671a915f40e2f1b0842206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:14 +0000
Subject: [PATCH 31/35] fix: writeCSV silently lost the data when the file
 could not be opened

---
 curves/src/helpers.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curves/src/helpers.cpp b/curves/src/helpers.cpp
index 7c9263f..8ef1525 100644
--- a/curves/src/helpers.cpp
+++ b/curves/src/helpers.cpp
@@ -47,6 +47,7 @@ void writeCSV(std::string fileName, const std::vector<std::vector<std::string> >
   CHECK_GE(strMatrix.size(), 1) << "Provided matrix of strings had no entries.";
   std::ofstream outFileStream;
   outFileStream.open(fileName.c_str());
+  CHECK(outFileStream.good()) << "error opening output file " << fileName;
   // Iterate over the rows of the string matrix and write comma-separated fields
   for (std::vector<std::vector<std::string> >::const_iterator itRow = strMatrix.begin() ; itRow != strMatrix.end(); ++itRow) {
     const unsigned fields = itRow->size();
-- 
2.43.0


From 1b7d5cc9cd19915cc4ed6607f614aa99a0b56a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:57 +0000
Subject: [PATCH 32/35] fix: Advancing a spline container by a negative step
 goes back to the earlier spline

Only forward boundaries were looked for, so after stepping back over a
knot the container kept evaluating the later spline.
---
 curves/include/curves/PolynomialSplineContainer.tpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index b7bfb29..8fc0afa 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -43,6 +43,11 @@ bool PolynomialSplineContainer<splineOrder_>::advance(double dt)
   // Advance in time.
   containerTime_ += dt;
 
+  // A negative step may lead back to an earlier spline.
+  if (dt < 0.0) {
+    activeSplineIdx_ = getActiveSplineIndexAtTime(containerTime_, timeOffset_);
+  }
+
   // Check if spline index needs to be increased (dt may span several splines).
   while (activeSplineIdx_ < splines_.size() && (containerTime_ - timeOffset_ >= splines_[activeSplineIdx_].getSplineDuration())) {
     if (activeSplineIdx_ < (splines_.size() - 1)) {
-- 
2.43.0


From 96e07759d4ced3ad4139a5fa1e8e64ede668624e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:11 +0000
Subject: [PATCH 33/35] fix: A measurement after a batch extends a Slerp curve
 instead of moving the batch's last knot

The group count of the sampling policy survived the batch, so the next
single measurement could replace the newest measurement of the batch.
---
 curves/include/curves/SlerpSE3Curve.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/curves/include/curves/SlerpSE3Curve.hpp b/curves/include/curves/SlerpSE3Curve.hpp
index 30dad54..b7169b3 100644
--- a/curves/include/curves/SlerpSE3Curve.hpp
+++ b/curves/include/curves/SlerpSE3Curve.hpp
@@ -212,6 +212,10 @@ inline void SamplingPolicy::extend<SlerpSE3Curve, SE3>(const std::vector<Time>&
   //todo: deal with minSamplingPeriod_ when extending with multiple times
   if (times.size() != 1) {
     curve->manager_.insertCoefficients(times, values, outKeys);
+    if (!times.empty()) {
+      // All measurements of a batch are kept: the next one starts a new group.
+      measurementsSinceLastExtend_ = 0;
+    }
   } else {
     //If the curve is empty or of size 1, simply add the new coefficient
     if (curve->isEmpty() || curve->size() == 1) {
-- 
2.43.0


From 37948fc367ef9a79db205385c2efd3b68f087764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:39 +0000
Subject: [PATCH 34/35] fix: Fitting a scalar or vector curve to no knots read
 past the end of the times

---
 .../include/curves/PolynomialSplineScalarCurve.hpp   |  4 ++--
 .../curves/PolynomialSplineVectorSpaceCurve.hpp      | 12 ++++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineScalarCurve.hpp b/curves/include/curves/PolynomialSplineScalarCurve.hpp
index b632dcb..ef2a192 100644
--- a/curves/include/curves/PolynomialSplineScalarCurve.hpp
+++ b/curves/include/curves/PolynomialSplineScalarCurve.hpp
@@ -115,7 +115,7 @@ class PolynomialSplineScalarCurve : public Curve<ScalarCurveConfig>
                         std::vector<Key>* outKeys = NULL)
   {
     container_.setData(times, values, 0.0, 0.0, 0.0, 0.0);
-    minTime_ = times.front();
+    minTime_ = times.empty() ? 0.0 : times.front();
   }
 
   virtual void fitCurve(const std::vector<Time>& times, const std::vector<ValueType>& values,
@@ -125,7 +125,7 @@ class PolynomialSplineScalarCurve : public Curve<ScalarCurveConfig>
   {
     container_.setData(times, values, initialVelocity, initialAcceleration, finalVelocity,
                        finalAcceleration);
-    minTime_ = times.front();
+    minTime_ = times.empty() ? 0.0 : times.front();
   }
 
   virtual void fitCurve(const std::vector<SplineOptions>& optionList,
diff --git a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
index 0459ab1..f05fd3e 100644
--- a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
+++ b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
@@ -88,6 +88,10 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
   virtual void fitCurve(const std::vector<Time>& times, const std::vector<ValueType>& values,
                         std::vector<Key>* outKeys = NULL)
   {
+    if (times.empty()) {
+      clear();
+      return;
+    }
     minTime_ = times.front();
     for (size_t i = 0; i < N; ++i) {
       std::vector<double> scalarValues;
@@ -104,6 +108,10 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
                         const DerivativeType& finalVelocity,
                         const DerivativeType& finalAcceleration)
   {
+    if (times.empty()) {
+      clear();
+      return;
+    }
     minTime_ = times.front();
     for (size_t i = 0; i < N; ++i) {
       std::vector<double> scalarValues;
@@ -119,6 +127,10 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
                         const std::vector<DerivativeType>& secondDerivatives,
                         std::vector<Key>* outKeys = NULL)
   {
+    if (times.empty()) {
+      clear();
+      return;
+    }
     minTime_ = times.front();
     for (size_t i = 0; i < N; ++i) {
       std::vector<double> scalarValues, scalarFirstDerivates, scalarSecondDerivates;
-- 
2.43.0


From 4f8f40a5656cffea7f281f0f95afbad905eee014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:33 +0000
Subject: [PATCH 35/35] fix: lowering the sampling ratio of a SlerpSE3Curve in
 the middle of a group stopped it from ever keeping another knot

---
 curves/include/curves/SlerpSE3Curve.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/curves/include/curves/SlerpSE3Curve.hpp b/curves/include/curves/SlerpSE3Curve.hpp
index b7169b3..fd12ad7 100644
--- a/curves/include/curves/SlerpSE3Curve.hpp
+++ b/curves/include/curves/SlerpSE3Curve.hpp
@@ -232,7 +232,8 @@ inline void SamplingPolicy::extend<SlerpSE3Curve, SE3>(const std::vector<Time>&
           SlerpSE3Curve::TimeToKeyCoefficientMap::iterator itPrev = (--curve->manager_.coefficientEnd());
           curve->manager_.modifyCoefficient(itPrev, times[0], values[0]);
         }
-        if (measurementsSinceLastExtend_ == minimumMeasurements_) {
+        // The number may have been lowered since the group began.
+        if (measurementsSinceLastExtend_ >= minimumMeasurements_) {
           measurementsSinceLastExtend_ = 0;
         }
       }
-- 
2.43.0

