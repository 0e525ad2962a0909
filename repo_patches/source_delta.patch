From 1fc280f991abc562d547705c8397905f87bdd81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 01/16] fix: addition and subtraction of polynomials

The sum of two polynomials of the same degree called itself without end and the
sum of polynomials of different degrees did not compile: the member and the
friend templates competed with the free operators, which cover all degrees.
---
 matslise/util/polynomial.h | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/matslise/util/polynomial.h b/matslise/util/polynomial.h
index 87389e4..8225ddc 100644
--- a/matslise/util/polynomial.h
+++ b/matslise/util/polynomial.h
@@ -73,24 +73,12 @@ namespace matslise {
 
 #define POLY_SUM_OPERATOR(op) \
         template<int od> \
-        POLY_INPLACE_OPERATOR(op, od, OtherPolynomial<od>, other.coefficients, od <= degree); \
-        template<int od> \
-        POLY_BINARY_OPERATOR(op, OtherPolynomial<od>);
+        POLY_INPLACE_OPERATOR(op, od, OtherPolynomial<od>, other.coefficients, od <= degree);
 
         POLY_SUM_OPERATOR(+)
 
-        template<int od>
-        POLY_BINARY_REV_OPERATOR(+, OtherPolynomial<od>);
-
         POLY_SUM_OPERATOR(-)
 
-
-        template<int od>
-        friend Polynomial<Scalar, degree>
-        operator-(const OtherPolynomial<od> &left, const Polynomial<Scalar, degree> &right) {
-            return -right + left;
-        }
-
         POLY_SCALAR_OPERATOR(+, 0)
 
         POLY_BINARY_REV_OPERATOR(+, Scalar);
-- 
2.43.0


From 7c20a806789025565aa83ef47865bf9e3d687e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 02/16] fix: keep an eigenvalue at the lower end of a search
 interval

When the matching angle at the lower end of a bracket is exactly a multiple of
pi (e.g. eigenvalues(0, ...) with a zero mode, or an eigenvalue at -1, -2, ...
in eigenvaluesByIndex), the eigenvalue lies at that end, but the bisection
continued in the other half and lost it.
---
 matslise/matslise/matslise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index 770d1b3..c25caa4 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -127,7 +127,7 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
             } else {
                 if (abs(tc - ia) < 1e-8)
                     eigenvalues.push_back(newtonIteration<Scalar>(ms, c, left, right, true));
-                else if ((ta - ia) * (tc - ia) < 0)
+                else if ((ta - ia) * (tc - ia) <= 0)
                     toCheck.push(make_tuple(a, ta, c, tc, depth + 1));
                 else
                     toCheck.push(make_tuple(c, tc, b, tb, depth + 1));
-- 
2.43.0


From b4d55fdbf949908c5c5394e29399312bdc9e605f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 03/16] fix: report every eigenvalue of an inseparable cluster

When bisection gives up on an interval that still contains several eigenvalues
(e.g. the pairs of a deep double well), only one of them was reported, so that
indices were missing from the result.
---
 matslise/matslise/matslise.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index c25caa4..9a95d6a 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -116,7 +116,14 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
             ? .5 * (a + b)
             : ((tb - ia) * a - (ta - ia) * b) / (tb - ta);
         if ((tb - ta < 0.01 && depth > 3) || depth > 30) {
-            eigenvalues.push_back(newtonIteration<Scalar>(ms, c, left, right, true));
+            pair<int, Scalar> eigenvalue = newtonIteration<Scalar>(ms, c, left, right, true);
+            if (ia + 1 < ib) {
+                // eigenvalues that are too close to be separated
+                for (int i = max(ia, Imin); i < min(ib, Imax); ++i)
+                    eigenvalues.push_back(make_pair(i, eigenvalue.second));
+            } else {
+                eigenvalues.push_back(eigenvalue);
+            }
         } else {
             tc = get<2>(ms->matchingError(c, left, right)) / constants<Scalar>::PI;
             if (isnan(tc)) {
-- 
2.43.0


From d2ec042086a9dc673b7a6826ecd18d3cd5b1dafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 04/16] fix: check the index range before searching energies

With a negative first index the search for a lower energy bound never succeeds:
it ended only when the energy had overflowed and the conversion of a NaN to int
happened to be small. Reject the request before the search.
---
 matslise/matslise/matslise.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index 9a95d6a..f5e3e0a 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -87,14 +87,18 @@ Scalar Matslise<Scalar>::estimatePotentialMinimum() const {
     return minimal;
 }
 
-template<typename Scalar>
-vector<pair<int, Scalar>>
-computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, int Imin, int Imax,
-                         const Y<Scalar> &left, const Y<Scalar> &right) {
+inline void checkIndexRange(int Imin, int Imax) {
     if (Imin < 0)
         throw runtime_error("Matslise::computeEigenvalues(): Imin has to be at least 0");
     if (Imin > Imax)
         throw runtime_error("Matslise::computeEigenvalues(): Imax can't be less then Imin");
+}
+
+template<typename Scalar>
+vector<pair<int, Scalar>>
+computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, int Imin, int Imax,
+                         const Y<Scalar> &left, const Y<Scalar> &right) {
+    checkIndexRange(Imin, Imax);
     vector<pair<int, Scalar>> eigenvalues;
     queue<tuple<Scalar, Scalar, Scalar, Scalar, int>> toCheck;
 
@@ -152,6 +156,7 @@ template<typename Scalar>
 vector<pair<int, Scalar>>
 Matslise<Scalar>::eigenvaluesByIndex(int Imin, int Imax, const Y<Scalar> &left, const Y<Scalar> &right) const {
     MATSLISE_SCOPED_TIMER("Matslise::eigenvaluesByIndex");
+    checkIndexRange(Imin, Imax);
     Scalar Emin = -1;
     Scalar Emax = 1;
     while (true) {
-- 
2.43.0


From 24b534d7fa958e79093478dd991c8f07939a91c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 05/16] fix: derivative of half-range eigenfunctions left of
 the origin

The derivative of an even function is odd and that of an odd function is even.
The evaluation in a single point had them the wrong way round, unlike the
evaluation in a list of points.
---
 matslise/matslise/halfrange.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matslise/matslise/halfrange.cpp b/matslise/matslise/halfrange.cpp
index 30af658..9c538e3 100644
--- a/matslise/matslise/halfrange.cpp
+++ b/matslise/matslise/halfrange.cpp
@@ -47,8 +47,8 @@ public:
     virtual Array<Scalar, 2, 1> operator()(const Scalar &x) const override {
         Array<Scalar, 2, 1> c = (*eigenfunction)(x < 0 ? -x : x);
         c *= sqrt(Scalar(.5));
-        if (x < 0 && !even)
-            c *= -1;
+        if (x < 0)
+            c[even ? 1 : 0] *= -1;
         return c;
     }
 
-- 
2.43.0


From 55e7d64f51560bea1f4ab8b155b44060b87770f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 06/16] fix: derivative in LiouvilleTransformation::y2z

z = sigma y gives z' = sigma' y + sigma x' y'. The factors were exchanged, so
that y2z was not the inverse of z2y and the derivatives of Sturm-Liouville
eigenfunctions were wrong.
---
 matslise/liouville/liouville.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/matslise/liouville/liouville.cpp b/matslise/liouville/liouville.cpp
index 251ba41..ef50f2f 100644
--- a/matslise/liouville/liouville.cpp
+++ b/matslise/liouville/liouville.cpp
@@ -225,10 +225,10 @@ Y<Scalar> LiouvilleTransformation<Scalar>::y2z(const Scalar &x, const Y<Scalar>
     z.block(None) *= sigma;
     z.block(dE) *= sigma;
 
-    z.block(dX) *= dsigma;
-    z.block(dXdE) *= dsigma;
-    z.block(dX) += sigma * xdr * y.block(None);
-    z.block(dXdE) += sigma * xdr * y.block(dE);
+    z.block(dX) *= sigma * xdr;
+    z.block(dXdE) *= sigma * xdr;
+    z.block(dX) += dsigma * y.block(None);
+    z.block(dXdE) += dsigma * y.block(dE);
 
     return z;
 }
-- 
2.43.0


From 47dec908867c1791a886acac1bb76c4352c106b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 07/16] fix: boundary values in PeriodicMatslise::eigenfunction

The kernel vector of the mismatch holds the coefficients with respect to the
initial values, it is not itself a boundary value, and the right boundary value
has to be multiplied by K: the returned functions were not periodic. Also
removes the debug output.
---
 matslise/matslise/periodic.cpp | 36 +++++++++++++---------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/matslise/matslise/periodic.cpp b/matslise/matslise/periodic.cpp
index 1cf9387..aaa7692 100644
--- a/matslise/matslise/periodic.cpp
+++ b/matslise/matslise/periodic.cpp
@@ -233,31 +233,23 @@ std::vector<std::tuple<int, Scalar, int>> PeriodicMatslise<Scalar>::eigenvaluesB
 template<typename Scalar>
 vector<unique_ptr<typename PeriodicMatslise<Scalar>::Eigenfunction>>
 PeriodicMatslise<Scalar>::eigenfunction(const Scalar &E) const {
-    Array<Scalar, 2, 1> thetaL, thetaR;
-    Scalar &match = matslise.sectors[matslise.matchIndex]->max;
-    Y<Scalar, 1, 2> l = propagate(E, periodicInitialValue<Scalar>(), matslise.domain.min, match).first;
-    Y<Scalar, 1, 2> r = propagate(E, periodicInitialValue<Scalar>(K), matslise.domain.max, match).first;
-    Matrix<Scalar, 2, 2> err = (l.y() - r.y());
-    cout << err << endl;
-
-    EigenSolver<Matrix<Scalar, 2, 2>> solver(err, true);
-    Matrix<complex<Scalar>, 2, 1> eigenvalues = solver.eigenvalues();
-    Matrix<complex<Scalar>, 2, 2> eigenvectors = solver.eigenvectors();
+    const Y<Scalar, 1, 2> l = periodicInitialValue<Scalar>();
+    const Y<Scalar, 1, 2> r = periodicInitialValue<Scalar>(K);
+    const Matrix<Scalar, 2, 2> err = matchingError(E).first.y();
 
     vector<unique_ptr<typename PeriodicMatslise<Scalar>::Eigenfunction>> result;
-    cout << "eigenvalues: " << eigenvalues.transpose() << endl;
-    cout << eigenvectors << endl;
-    cout << endl;
     result.reserve(2);
-    if (norm(eigenvalues[0]) < 1e-4) {
-        Y<Scalar> boundary;
-        boundary.y() = eigenvectors.col(0).real();
-        result.emplace_back(matslise.eigenfunction(E, boundary, boundary));
-    }
-    if (norm(eigenvalues[1]) < 1e-4) {
-        Y<Scalar> boundary;
-        boundary.y() = eigenvectors.col(1).real();
-        result.emplace_back(matslise.eigenfunction(E, boundary, boundary));
+    if (err.squaredNorm() < 1e-4) {
+        // double eigenvalue
+        result.emplace_back(matslise.eigenfunction(E, l.col(0), r.col(0)));
+        result.emplace_back(matslise.eigenfunction(E, l.col(1), r.col(1)));
+    } else {
+        EigenSolver<Matrix<Scalar, 2, 2>> solver(err, true);
+        Eigen::Index kernelIndex;
+        if (solver.eigenvalues().array().abs2().minCoeff(&kernelIndex) < 1e-4) {
+            Matrix<Scalar, 2, 1> c = solver.eigenvectors().real().col(kernelIndex);
+            result.emplace_back(matslise.eigenfunction(E, l * c, r * c));
+        }
     }
 
     return result;
-- 
2.43.0


From aa9819d0aa0cafbb4aeda461548b3e5800c5e08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 08/16] fix: Matscs::propagatePsi against the orientation of a
 sector

Propagating against the orientation of a sector (from within a sector, or
through a sector oriented the other way) used the transfer matrix instead of its
inverse: the branch for negative steps could never be taken, as the sign of the
step had been removed before, and it expected the inverse quotient.
---
 matslise/matscs/sector.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/matslise/matscs/sector.cpp b/matslise/matscs/sector.cpp
index eaac019..0057b9b 100644
--- a/matslise/matscs/sector.cpp
+++ b/matslise/matscs/sector.cpp
@@ -257,21 +257,17 @@ propagatePsi_delta(const typename Matscs<Scalar>::Sector *sector, Scalar E, cons
     if (delta > sector->h)
         delta = sector->h;
 
-    // TODO: verify
-    Scalar extra = sector->direction == Direction::forward ? 1 : -1;
-    if (delta > 0) {
-        T<Scalar, Dynamic> T = sector->calculateT(E, delta);
+    Scalar extra = sector->direction == Direction::backward ? -1 : 1;
+    T<Scalar, Dynamic> T = sector->calculateT(E, delta);
+    if (forward) {
         return extra * (T.getT(1, 1) + extra * T.getT(1, 0) * psi).transpose()
                 .colPivHouseholderQr()
                 .solve((T.getT(0, 1) + extra * T.getT(0, 0) * psi).transpose())
                 .transpose();
-    } else if (delta < 0) {
-        T<Scalar, Dynamic> T = sector->calculateT(E, -delta);
-        return extra * (T.getT(1, 1) - extra * psi * T.getT(0, 1))
-                .colPivHouseholderQr()
-                .solve((extra * psi * T.getT(0, 0) - T.getT(1, 0)));
     } else {
-        return psi;
+        return extra * (T.getT(0, 0) - extra * psi * T.getT(1, 0))
+                .colPivHouseholderQr()
+                .solve(extra * psi * T.getT(1, 1) - T.getT(0, 1));
     }
 }
 
-- 
2.43.0


From 0e6fdbdc960a7c6097f0d33e5d7f68bd65225fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 09/16] fix: refuse Matscs::propagatePsi outside of the domain

Like propagate, instead of using a sector that does not exist.
---
 matslise/matscs/matscs.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/matslise/matscs/matscs.cpp b/matslise/matscs/matscs.cpp
index 8dd09f7..b318ba7 100644
--- a/matslise/matscs/matscs.cpp
+++ b/matslise/matscs/matscs.cpp
@@ -56,6 +56,8 @@ Matscs<Scalar>::propagate(const Scalar &E, const Y<Scalar, Dynamic> &_y,
 template<typename Scalar>
 Matrix<Scalar, Dynamic, Dynamic> Matscs<Scalar>::propagatePsi(
         const Scalar &E, const Matrix<Scalar, Dynamic, Dynamic> &_psi, const Scalar &a, const Scalar &b) const {
+    if (!contains(a) || !contains(b))
+        throw runtime_error("Matscs::propagatePsi(): a and b should be in the interval");
     Matrix<Scalar, Dynamic, Dynamic> psi = _psi;
 
     int sectorIndex = find_sector<Matscs<Scalar>>(this, a);
-- 
2.43.0


From dbb6cb047f27e0d0bbdd4b134905ee8c24d87304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:42 +0000
Subject: [PATCH 10/16] fix: unary plus of a polynomial

The operator handed an Eigen expression without unary plus to the constructor and
did not compile.
---
 matslise/util/polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matslise/util/polynomial.h b/matslise/util/polynomial.h
index 8225ddc..8411dc1 100644
--- a/matslise/util/polynomial.h
+++ b/matslise/util/polynomial.h
@@ -100,7 +100,7 @@ namespace matslise {
         }
 
         Polynomial<Scalar, degree> operator+() const {
-            return Polynomial<Scalar, degree>{+coefficients};
+            return *this;
         }
 
         template<int otherDegree>
-- 
2.43.0


From 54eb2f7bbf0ad99dfbd7224f1ea6cc42e0236b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:21 +0000
Subject: [PATCH 11/16] fix: integral of a Legendre projection

The nodes and weights belong to an interval of half-width h, but the weights add up
to one: the scaled integral was half of the integral over the interval.
---
 matslise/util/legendre.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matslise/util/legendre.h b/matslise/util/legendre.h
index 4641810..af10b0c 100644
--- a/matslise/util/legendre.h
+++ b/matslise/util/legendre.h
@@ -52,7 +52,7 @@ namespace matslise::legendre {
             for (int j = 1; j < weights<Scalar, k>.rows(); ++j)
                 result += weights<Scalar, k>(i, j) * fs[j];
             if constexpr(scaled)
-                result *= h;
+                result *= Scalar(2 * h);
             return result;
         }
 
-- 
2.43.0


From 7820a8e222cb7952aabbcc5b1186dc919308799f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:25 +0000
Subject: [PATCH 12/16] fix: search the lowest periodic eigenvalue from below
 it

---
 matslise/matslise/periodic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matslise/matslise/periodic.cpp b/matslise/matslise/periodic.cpp
index aaa7692..6acf91d 100644
--- a/matslise/matslise/periodic.cpp
+++ b/matslise/matslise/periodic.cpp
@@ -156,7 +156,7 @@ eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, Scalar eMin, Scalar eMax, i
 
     Scalar low = eMin;
     if (i == 0) {
-        for (Scalar step = 1; findHigh(i)(low) > 0; step *= 2)
+        for (Scalar step = 1; findLow(1)(low) > 0; step *= 2)
             low -= step;
 
         Scalar high = binarySearch<Scalar>(low, highest, findHigh(i), eps);
-- 
2.43.0


From 58eeb7d0e48b13c2987118117a25784d0423da8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:25 +0000
Subject: [PATCH 13/16] fix: periodic index ranges may start below zero

---
 matslise/matslise/periodic.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/matslise/matslise/periodic.cpp b/matslise/matslise/periodic.cpp
index 6acf91d..1c8d58c 100644
--- a/matslise/matslise/periodic.cpp
+++ b/matslise/matslise/periodic.cpp
@@ -148,6 +148,7 @@ eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, Scalar eMin, Scalar eMax, i
     for (Scalar step = 1; findHigh(iMax + 1)(highest) < 0; step *= 2)
         highest += step;
 
+    iMin = max(iMin, 0);
     int i = iMin - (iMin % 2);
     if (ms->K(0, 1) > 0 || (ms->K(0, 1) == 0 && ms->K(0, 0) < 0)) {
         // Antiperiodic case
-- 
2.43.0


From 78cd8513a481e27c9aa35f2e6c35111d0cd4e337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:48 +0000
Subject: [PATCH 14/16] fix: look for the maximum between two periodic
 eigenvalues in the right place

---
 matslise/matslise/periodic.cpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/matslise/matslise/periodic.cpp b/matslise/matslise/periodic.cpp
index 1c8d58c..ba3cf5e 100644
--- a/matslise/matslise/periodic.cpp
+++ b/matslise/matslise/periodic.cpp
@@ -76,24 +76,32 @@ Scalar binarySearch(Scalar eMin, Scalar eMax, const Func &f, const Scalar &eps)
 }
 
 template<typename Scalar>
-pair<Scalar, Scalar> eigenvaluePair(const PeriodicMatslise<Scalar> *ms, Scalar Emin, Scalar Emax, Scalar eps) {
-    Scalar h = 0.01 * (Emax - Emin);
+pair<Scalar, Scalar> eigenvaluePair(const PeriodicMatslise<Scalar> *ms, int i, Scalar Emin, Scalar Emax, Scalar eps) {
     auto fError = [ms](Scalar E) {
         return calculateMatchingError(ms->matchingError(E).first).first;
     };
-    Scalar minError = fError(Emin);
-    Scalar fMin = (fError(Emin + h) - minError) / h;
+    // Between the two eigenvalues the error is positive, next to them it is negative. It has no other extrema than
+    // the maximum between the eigenvalues, unless it is below -8.
+    auto fSlope = [ms, i](Scalar E) -> Scalar {
+        auto yTheta = ms->matchingError(E);
+        pair<Scalar, Scalar> error = calculateMatchingError(yTheta.first);
+        if (error.first < -4)
+            return yTheta.second[0] < i ? 1 : -1;
+        return error.second;
+    };
+
+    // An eigenvalue may be an end point of the interval
+    Emin -= abs(Emin) < 1 ? eps : eps * abs(Emin);
+    Emax += abs(Emax) < 1 ? eps : eps * abs(Emax);
 
-    Scalar mid = binarySearch(Emin, Emax, [ms](Scalar E) {
-        return calculateMatchingError(ms->matchingError(E).first).second;
-    }, eps, fMin);
+    Scalar mid = binarySearch<Scalar>(Emin, Emax, fSlope, eps, Scalar(1));
 
     Scalar midError = fError(mid);
-    if (same_sign(minError, midError)) {
+    if (midError <= 0) {
         if (abs(midError) > eps) cout << "PeriodicMatslise::eigenvaluePair wrong result" << endl;
         return {mid, mid};
     } else {
-        return {binarySearch(Emin, mid, fError, eps, minError), binarySearch(mid, Emax, fError, eps, midError)};
+        return {binarySearch<Scalar>(Emin, mid, fError, eps, Scalar(-1)), binarySearch<Scalar>(mid, Emax, fError, eps, Scalar(1))};
     }
 }
 
@@ -173,7 +181,7 @@ eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, Scalar eMin, Scalar eMax, i
             low -= step;
         low = binarySearch<Scalar>(low, highest, findLow(i), eps);
         Scalar high = binarySearch<Scalar>(low, highest, findHigh(i), eps);
-        pair<Scalar, Scalar> p = eigenvaluePair(ms, low, high, eps);
+        pair<Scalar, Scalar> p = eigenvaluePair(ms, i, low, high, eps);
         if (p.second - p.first < eps) {
             addToResult(i - 1, (p.first + p.second) / 2, true);
         } else {
-- 
2.43.0


From 5e22410256d737ce34243a68089db2d17088c830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:09 +0000
Subject: [PATCH 15/16] fix: indices of quasi-periodic eigenvalues when the
 condition mixes values and derivatives

---
 matslise/matslise/periodic.cpp | 76 ++++++++++++++++++++++++++--------
 1 file changed, 59 insertions(+), 17 deletions(-)

diff --git a/matslise/matslise/periodic.cpp b/matslise/matslise/periodic.cpp
index ba3cf5e..98b3005 100644
--- a/matslise/matslise/periodic.cpp
+++ b/matslise/matslise/periodic.cpp
@@ -75,6 +75,48 @@ Scalar binarySearch(Scalar eMin, Scalar eMax, const Func &f, const Scalar &eps)
     return binarySearch<Scalar, Func>(eMin, eMax, f, eps, f(eMin));
 }
 
+// The angles over pi, such that both are between n and n + 1 at the n-th eigenvalue
+template<typename Scalar>
+Array<Scalar, 2, 1> indexAngles(const PeriodicMatslise<Scalar> *ms, Array<Scalar, 2, 1> theta) {
+    const Scalar &k = ms->K(0, 1);
+    if (k != 0) {
+        // The eigenvalues of the problem with separated conditions are above those of this problem
+        if (k * (ms->K(0, 0) + k) >= 0) theta[0] += 1;
+        if (k * (ms->K(0, 0) - k) >= 0) theta[1] += 1;
+    }
+    return theta;
+}
+
+template<typename Scalar>
+Array<Scalar, 2, 1> indexAngles(const PeriodicMatslise<Scalar> *ms, const Scalar &E) {
+    return indexAngles<Scalar>(ms, ms->matchingError(E).second);
+}
+
+// The first index i for which the eigenvalues i - 1 and i are a pair that contains an eigenvalue from iMin on
+template<typename Scalar>
+int firstPair(const PeriodicMatslise<Scalar> *ms, int iMin) {
+    int i = iMin - (iMin % 2);
+    if (ms->K(0, 1) > 0 || (ms->K(0, 1) == 0 && ms->K(0, 0) < 0)) {
+        // Antiperiodic case
+        ++i;
+    }
+    return i;
+}
+
+// Whether E is not above the pair of eigenvalues i - 1 and i
+template<typename Scalar>
+bool isBelowPair(const PeriodicMatslise<Scalar> *ms, int i, const Scalar &E) {
+    auto yTheta = ms->matchingError(E);
+    Array<Scalar, 2, 1> theta = indexAngles<Scalar>(ms, yTheta.second);
+    if (theta.minCoeff() <= std::max(i - 1, 0))
+        return true;
+    if (i > 1 || theta.maxCoeff() >= 1)
+        return false;
+    // The lowest eigenvalue may be below those of the problems with separated conditions
+    Scalar error = calculateMatchingError(yTheta.first).first;
+    return i == 0 ? error > 0 : error < 0;
+}
+
 template<typename Scalar>
 pair<Scalar, Scalar> eigenvaluePair(const PeriodicMatslise<Scalar> *ms, int i, Scalar Emin, Scalar Emax, Scalar eps) {
     auto fError = [ms](Scalar E) {
@@ -86,7 +128,7 @@ pair<Scalar, Scalar> eigenvaluePair(const PeriodicMatslise<Scalar> *ms, int i, S
         auto yTheta = ms->matchingError(E);
         pair<Scalar, Scalar> error = calculateMatchingError(yTheta.first);
         if (error.first < -4)
-            return yTheta.second[0] < i ? 1 : -1;
+            return indexAngles<Scalar>(ms, yTheta.second)[0] < i ? 1 : -1;
         return error.second;
     };
 
@@ -143,12 +185,12 @@ eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, Scalar eMin, Scalar eMax, i
 
     auto findLow = [ms](int i) {
         return [ms, i](Scalar E) {
-            return ms->matchingError(E).second.minCoeff() - i + 1;
+            return indexAngles<Scalar>(ms, E).minCoeff() - i + 1;
         };
     };
     auto findHigh = [ms](int i) {
         return [ms, i](Scalar E) {
-            return ms->matchingError(E).second.maxCoeff() - i - 1;
+            return indexAngles<Scalar>(ms, E).maxCoeff() - i - 1;
         };
     };
 
@@ -157,29 +199,28 @@ eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, Scalar eMin, Scalar eMax, i
         highest += step;
 
     iMin = max(iMin, 0);
-    int i = iMin - (iMin % 2);
-    if (ms->K(0, 1) > 0 || (ms->K(0, 1) == 0 && ms->K(0, 0) < 0)) {
-        // Antiperiodic case
-        ++i;
-    }
+    int i = firstPair(ms, iMin);
 
     Scalar low = eMin;
     if (i == 0) {
-        for (Scalar step = 1; findLow(1)(low) > 0; step *= 2)
+        for (Scalar step = 1; !isBelowPair(ms, i, low); step *= 2)
             low -= step;
 
+        if (findLow(1)(low) <= 0)
+            low = binarySearch<Scalar>(low, highest, findLow(1), eps);
         Scalar high = binarySearch<Scalar>(low, highest, findHigh(i), eps);
-        Scalar E = binarySearch(low, high, [ms](Scalar E) {
+        Scalar E = binarySearch<Scalar>(low, high, [ms](Scalar E) {
             return calculateMatchingError(ms->matchingError(E).first).first;
-        }, eps);
+        }, eps, Scalar(1));
         addToResult(0, E, false);
         i += 2;
     }
 
     for (; i <= iMax + 1; i += 2) {
-        for (Scalar step = 1; findLow(i)(low) > 0; step *= 2)
+        for (Scalar step = 1; !isBelowPair(ms, i, low); step *= 2)
             low -= step;
-        low = binarySearch<Scalar>(low, highest, findLow(i), eps);
+        if (findLow(i)(low) <= 0)
+            low = binarySearch<Scalar>(low, highest, findLow(i), eps);
         Scalar high = binarySearch<Scalar>(low, highest, findHigh(i), eps);
         pair<Scalar, Scalar> p = eigenvaluePair(ms, i, low, high, eps);
         if (p.second - p.first < eps) {
@@ -195,8 +236,8 @@ eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, Scalar eMin, Scalar eMax, i
 template<typename Scalar, bool with_eigenfunctions>
 typename EigenpairsReturn<Scalar, with_eigenfunctions>::type
 eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, const Scalar &eMin, const Scalar &eMax) {
-    int iMin = (int) ms->matchingError(eMin).second.minCoeff() - 1;
-    int iMax = (int) ms->matchingError(eMax).second.maxCoeff() + 1;
+    int iMin = (int) indexAngles<Scalar>(ms, eMin).minCoeff() - 1;
+    int iMax = (int) indexAngles<Scalar>(ms, eMax).maxCoeff() + 1;
 
     return eigenpairsHelper<Scalar, with_eigenfunctions>(ms, eMin, eMax, iMin, iMax, 1e-8);
 }
@@ -207,10 +248,11 @@ eigenpairsByIndexHelper(const PeriodicMatslise<Scalar> *ms, int iMin, int iMax)
     Scalar eMin = -1;
     Scalar eMax = 1;
 
-    while (ms->matchingError(eMin).second.minCoeff() > std::max(iMin - 2, 0))
+    while (!isBelowPair(ms, firstPair(ms, std::max(iMin, 0)), eMin))
         eMin *= 2;
+    eMin *= 2;
 
-    while (ms->matchingError(eMax).second.maxCoeff() < iMax + 2)
+    while (indexAngles<Scalar>(ms, eMax).maxCoeff() < iMax + 2)
         eMax *= 2;
 
     return eigenpairsHelper<Scalar, with_eigenfunctions>(ms, eMin, eMax, iMin, iMax, 1e-8);
-- 
2.43.0


From d4c8c590b53f38b8b84cc41609bf3be45ddc9fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:14 +0000
Subject: [PATCH 16/16] fix: count the turns of a coupled system in the basis
 of the sector

Sector::propagateDelta of Matscs compared the eigenvalues of theta at the end
of the step with those of the product of the rotation for the constant
potential and theta at its start, but took the latter in the original instead
of the diagonal basis, and lost or gained full turns whenever the potential
that is not constant turns an eigenvalue of theta past 1 earlier or later than
the constant one.
---
 matslise/matscs/sector.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/matslise/matscs/sector.cpp b/matslise/matscs/sector.cpp
index 0057b9b..e4cea0c 100644
--- a/matslise/matscs/sector.cpp
+++ b/matslise/matscs/sector.cpp
@@ -181,14 +181,25 @@ pair<Y<Scalar, Dynamic>, Scalar> Matscs<Scalar>::Sector::propagateDelta(
     }
     argdet *= 2;
 
-    MatrixXcs thetaZ0 = theta(y0);
-    MatrixXcs thetaZ = theta(y1);
+    // the solution when the potential is constant, in the basis in which it is diagonal
+    Y<Scalar, Dynamic> yZ0(n), yZ(n);
+    yZ0.block() = diagonalize.transpose() * y0.block();
+    yZ0.block(dX) = diagonalize.transpose() * y0.block(dX);
+    const ArrayXs eta0 = eta.row(0).transpose(), eta1 = d * eta.row(1).transpose();
+    yZ.block() = eta0.matrix().asDiagonal() * yZ0.block() + eta1.matrix().asDiagonal() * yZ0.block(dX);
+    yZ.block(dX) = ((vs[0].diagonal().array() - E) * eta1).matrix().asDiagonal() * yZ0.block()
+                   + eta0.matrix().asDiagonal() * yZ0.block(dX);
+
+    MatrixXcs thetaZ = theta(yZ);
     ArrayXs betas = angle<Scalar>(thetaZ);
     const complex<Scalar> i_delta(0, d);
     ArrayXs alphas = angle<Scalar>(
-            ((eta.row(0) + i_delta * eta.row(1)) / (eta.row(0) - i_delta * eta.row(1))).matrix().asDiagonal() * thetaZ0
+            ((eta.row(0) + i_delta * eta.row(1)) / (eta.row(0) - i_delta * eta.row(1))).matrix().asDiagonal() *
+            theta(yZ0)
     );
     argdet += (betas - alphas).sum();
+    // the potential is not constant: a small correction, which may turn an eigenvalue of theta past 1
+    argdet += arg(theta(y1).determinant() / thetaZ.determinant());
 
     return {y1, argdet};
 }
-- 
2.43.0

