From 0248501f36c0b37cd0fdcd81ddd8bf58f9bf8da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:54 +0000
Subject: [PATCH 01/24] fix: scale the universal anomaly search interval in
 propagate_lagrangian_u with the length unit

The guess (3) and the bracket (+-2 pi) were absolute numbers for a quantity that
scales as sqrt(length), so that any non canonical unit system (e.g. SI) silently
returned a wrong state.
---
 src/core_astro/propagate_lagrangian.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core_astro/propagate_lagrangian.cpp b/src/core_astro/propagate_lagrangian.cpp
index 902be8e..f931d91 100644
--- a/src/core_astro/propagate_lagrangian.cpp
+++ b/src/core_astro/propagate_lagrangian.cpp
@@ -202,10 +202,14 @@ propagate_lagrangian_u(const std::array<std::array<double, 3>, 2> &pos_vel0, con
     double const VR0 = (rf[0] * vf[0] + rf[1] * vf[1] + rf[2] * vf[2]) / R0;
 
     // solve kepler's equation in the universal anomaly DS
+    // DS has the dimension of the square root of a length: its initial guess and bounds must scale accordingly
+    // (DS = sqrt(|a|) * DE or DH, except for parabolas where the only length at hand is R0)
+    double const scale = (alpha != 0.) ? 1. / std::sqrt(std::abs(alpha)) : std::sqrt(R0);
+    double const bound = (alpha > 0.) ? 2 * pi * scale : 50. * scale;
     double IG = 0;
     alpha > 0. ? IG = std::sqrt(mu) * dt_copy * std::abs(alpha)
-               : IG = 3.; // TODO(darioizzo): initial guess for the universal
-                          // anomaly. For hyperbolas is 3 .... can be better?
+               : IG = 3. * scale; // TODO(darioizzo): initial guess for the universal
+                                  // anomaly. For hyperbolas is 3 .... can be better?
 
     // Solve Kepler Equation in DS (univrsal anomaly difference)
     const int digits = std::numeric_limits<double>::digits;
@@ -216,7 +220,7 @@ propagate_lagrangian_u(const std::array<std::array<double, 3>, 2> &pos_vel0, con
         [dt_copy, R0, VR0, alpha, mu](double DS) {
             return std::make_tuple(kepDS(DS, dt_copy, R0, VR0, alpha, mu), d_kepDS(DS, R0, VR0, alpha, mu));
         },
-        IG, IG - 2 * pi, IG + 2 * pi, digits,
+        IG, IG - bound, IG + bound, digits,
         max_iter); // limiting the IG error within
                    // only pi will not work.
     if (max_iter == 100u) {
-- 
2.43.0


From 6514d75d5449269a5928c4692ff2a61e03ea34a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:01 +0000
Subject: [PATCH 02/24] fix: second derivative of the universal Kepler equation
 (dd_kepDS)

The term multiplying (1 - alpha r0) was not the derivative of d_kepDS.
---
 include/kep3/core_astro/kepler_equations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kep3/core_astro/kepler_equations.hpp b/include/kep3/core_astro/kepler_equations.hpp
index e9e9258..e47de2e 100644
--- a/include/kep3/core_astro/kepler_equations.hpp
+++ b/include/kep3/core_astro/kepler_equations.hpp
@@ -110,7 +110,7 @@ inline double dd_kepDS(const double &DS, const double &r0, const double &vr0, co
 {
     double S = stumpff_s(alpha * DS * DS);
     double C = stumpff_c(alpha * DS * DS);
-    double retval = r0 * vr0 / std::sqrt(mu) * (1 - alpha * DS * DS * C) + (1 - alpha * r0) * (1 - DS * DS * S);
+    double retval = r0 * vr0 / std::sqrt(mu) * (1 - alpha * DS * DS * C) + (1 - alpha * r0) * DS * (1 - alpha * DS * DS * S);
 
     return (retval);
 }
-- 
2.43.0


From b9018b171aaeb710042587d9127f3113537b75ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:47 +0000
Subject: [PATCH 03/24] fix: ic2par returned NaN at nodes and apsides

Rounding can push the arguments of acos outside [-1, 1].
---
 src/core_astro/ic2par2ic.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core_astro/ic2par2ic.cpp b/src/core_astro/ic2par2ic.cpp
index ae0b091..909da05 100644
--- a/src/core_astro/ic2par2ic.cpp
+++ b/src/core_astro/ic2par2ic.cpp
@@ -7,6 +7,7 @@
 // Public License v. 2.0. If a copy of the MPL was not distributed
 // with this file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
+#include <algorithm>
 #include <array>
 #include <cmath>
 
@@ -61,25 +62,25 @@ std::array<double, 6> ic2par(const std::array<std::array<double, 3>, 2> &pos_vel
 
     // Inclination is calculated and stored as the third orbital element
     // i = acos(hy/h) in [0, pi]
-    retval[2] = std::acos(h(2) / xt::linalg::norm(h));
+    retval[2] = std::acos(std::clamp(h(2) / xt::linalg::norm(h), -1., 1.));
 
     // Argument of pericentrum is calculated and stored as the fifth orbital
     // element. w = acos(n.e)\|n||e| in [0, 2pi]
     auto temp = dot(n, evett);
-    retval[4] = std::acos(temp(0) / retval[1]);
+    retval[4] = std::acos(std::clamp(temp(0) / retval[1], -1., 1.));
     if (evett(2) < 0) {
         retval[4] = 2 * pi - retval[4];
     }
     // Argument of longitude is calculated and stored as the fourth orbital
     // element in [0, 2pi]
-    retval[3] = std::acos(n(0));
+    retval[3] = std::acos(std::clamp(n(0), -1., 1.));
     if (n(1) < 0) {
         retval[3] = 2 * pi - retval[3];
     }
 
     // 4 - We compute ni: the true anomaly in [0, 2pi]
     temp = dot(evett, r0);
-    auto f = std::acos(temp(0) / retval[1] / R0);
+    auto f = std::acos(std::clamp(temp(0) / retval[1] / R0, -1., 1.));
 
     temp = dot(r0, v0);
     if (temp(0) < 0.0) {
-- 
2.43.0


From 63e56cb1b5370d24340c3377bd8f4b9b6e564acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:48 +0000
Subject: [PATCH 04/24] fix: lambert_problem: single-revolution guess for long
 times of flight

For T > ~2e4 (non-dimensional) the guess is so close to x = -1 that the first
Householder step leaves the domain and all the velocities are NaN.
---
 src/lambert_problem.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lambert_problem.cpp b/src/lambert_problem.cpp
index 77b4a19..5fa466b 100644
--- a/src/lambert_problem.cpp
+++ b/src/lambert_problem.cpp
@@ -140,7 +140,10 @@ lambert_problem::lambert_problem(const std::array<double, 3> &r0_a, const std::a
     // 3.1 0 rev solution
     // 3.1.1 initial guess
     if (T >= T00) {
-        m_x[0] = -(T - T00) / (T - T00 + 4);
+        // For long times of flight this approaches x = -1 faster than the solution does, and the iterations would
+        // leave the domain: there we use the same guess as in the (left) multi rev case.
+        double const tmp0 = std::pow(kep3::pi / (8.0 * T), 2.0 / 3.0);
+        m_x[0] = std::max(-(T - T00) / (T - T00 + 4), (tmp0 - 1) / (tmp0 + 1));
     } else if (T <= T1) {
         m_x[0] = T1 * (T1 - T) / (2.0 / 5.0 * (1 - lambda2 * lambda3) * T) + 1;
     } else {
-- 
2.43.0


From 917c0e470934a5960aa394545a4884ab235a6f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:55 +0000
Subject: [PATCH 05/24] fix: lambert_problem: reject collinear or null
 positions instead of returning NaN

The cross product was normalised before its z component was compared with zero,
so that a null angular momentum gave NaN velocities and no exception.
---
 src/lambert_problem.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lambert_problem.cpp b/src/lambert_problem.cpp
index 5fa466b..d5abf88 100644
--- a/src/lambert_problem.cpp
+++ b/src/lambert_problem.cpp
@@ -63,13 +63,12 @@ lambert_problem::lambert_problem(const std::array<double, 3> &r0_a, const std::a
     auto irs = rs / Rs;
     auto irf = rf / Rf;
     auto ih = cross(irs, irf);
-    ih = ih / xt::linalg::norm(ih);
-
-    if (ih(2) == 0) {
+    if (!(std::abs(ih(2)) > 0)) { // also when undefined (a null position)
         throw std::domain_error("lambert_problem: The angular momentum vector has no z component, "
                                 "impossible to define automatically clock or "
                                 "counterclockwise");
     }
+    ih = ih / xt::linalg::norm(ih);
     double const lambda2 = 1.0 - m_c / m_s;
     m_lambda = std::sqrt(lambda2);
 
-- 
2.43.0


From 4d325790c46d2fd8475ca6a9d870a6060269d54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:49 +0000
Subject: [PATCH 06/24] fix: finite Sims-Flanagan gradients when a throttle is
 null

The mass gradient divided by the throttle norm, so one null throttle (the default
leg has two) filled the gradients with NaN.
---
 src/leg/sims_flanagan.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/leg/sims_flanagan.cpp b/src/leg/sims_flanagan.cpp
index 604e459..e65cf6c 100644
--- a/src/leg/sims_flanagan.cpp
+++ b/src/leg/sims_flanagan.cpp
@@ -332,7 +332,9 @@ std::pair<std::array<double, 49>, std::vector<double>> sims_flanagan::gradients_
         double Dvn = c / m[i] * un;
         dDv[i] = c / m[i] * du[i] - c / m[i] / m[i] * xt::linalg::dot(xt::transpose(u[i]), dm[i])
                  + m_max_thrust / m[i] * xt::linalg::dot(xt::transpose(u[i]), dtof) / nseg;
-        auto dDvn = c / m[i] / un * xt::linalg::dot(u[i], du[i]) - c / m[i] / m[i] * un * dm[i]
+        // At a null throttle the norm has no gradient: we take its zero subgradient rather than 0 / 0.
+        const double dun = (un == 0.) ? 0. : c / m[i] / un;
+        auto dDvn = dun * xt::linalg::dot(u[i], du[i]) - c / m[i] / m[i] * un * dm[i]
                     + m_max_thrust / m[i] * un * dtof / nseg;
         m[i + 1] = m[i] * std::exp(-Dvn * a);
         dm[i + 1] = -m[i + 1] * a * dDvn + std::exp(-Dvn * a) * dm[i];
-- 
2.43.0


From 6945ae623c79b7aa88710c09681953b34fd6656b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:35 +0000
Subject: [PATCH 07/24] fix: sims_flanagan::set checks its arguments, not the
 data it replaces

---
 src/leg/sims_flanagan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/leg/sims_flanagan.cpp b/src/leg/sims_flanagan.cpp
index e65cf6c..34429e7 100644
--- a/src/leg/sims_flanagan.cpp
+++ b/src/leg/sims_flanagan.cpp
@@ -123,7 +123,7 @@ void sims_flanagan::set(const std::array<std::array<double, 3>, 2> &rvs, double
                         const std::array<std::array<double, 3>, 2> &rvf, double mf, double tof, double max_thrust,
                         double isp, double mu, double cut)
 {
-    kep3::leg::_sanity_checks(m_throttles, m_tof, m_max_thrust, m_isp, m_mu, m_cut, m_nseg, m_nseg_fwd, m_nseg_bck);
+    kep3::leg::_sanity_checks(throttles, tof, max_thrust, isp, mu, cut, m_nseg, m_nseg_fwd, m_nseg_bck);
     m_rvs = rvs;
     m_ms = ms;
     m_throttles = throttles;
-- 
2.43.0


From d49349578b3e15e0e80bee1ad498ec82eb4dade1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:56 +0000
Subject: [PATCH 08/24] fix: fly-by turn angle of (anti)parallel velocities is
 not NaN by rounding

---
 src/core_astro/flyby.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/core_astro/flyby.cpp b/src/core_astro/flyby.cpp
index 34094b3..dd5b738 100644
--- a/src/core_astro/flyby.cpp
+++ b/src/core_astro/flyby.cpp
@@ -7,6 +7,7 @@
 // Public License v. 2.0. If a copy of the MPL was not distributed
 // with this file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
+#include <algorithm>
 #include <array>
 #include <cmath>
 #include <utility>
@@ -30,8 +31,9 @@ std::pair<double, double> fb_con(const std::array<double, 3> &v_rel_in, const st
 
     const double e_min = 1 + safe_radius / mu * Vin2;
     const double alpha
-        = std::acos((v_rel_in[0] * v_rel_out[0] + v_rel_in[1] * v_rel_out[1] + v_rel_in[2] * v_rel_out[2])
-                    / std::sqrt(Vin2 * Vout2));
+        = std::acos(std::clamp((v_rel_in[0] * v_rel_out[0] + v_rel_in[1] * v_rel_out[1] + v_rel_in[2] * v_rel_out[2])
+                                   / std::sqrt(Vin2 * Vout2),
+                               -1., 1.));
     const double ineq_delta = alpha - 2 * std::asin(1 / e_min);
     return {eq_V2, ineq_delta};
 }
@@ -51,8 +53,9 @@ double fb_dv(const std::array<double, 3> &v_rel_in, const std::array<double, 3>
 
     const double e_min = 1 + safe_radius / mu * Vin2;
     const double alpha
-        = std::acos((v_rel_in[0] * v_rel_out[0] + v_rel_in[1] * v_rel_out[1] + v_rel_in[2] * v_rel_out[2])
-                    / std::sqrt(Vin2 * Vout2));
+        = std::acos(std::clamp((v_rel_in[0] * v_rel_out[0] + v_rel_in[1] * v_rel_out[1] + v_rel_in[2] * v_rel_out[2])
+                                   / std::sqrt(Vin2 * Vout2),
+                               -1., 1.));
     const double ineq_delta = alpha - 2 * std::asin(1 / e_min);
 
     double dv = 0.;
-- 
2.43.0


From d70792b39c04e60007ef9ebdffab7d5c08b87ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:49 +0000
Subject: [PATCH 09/24] fix: epoch: reject years, months and days that chrono
 would silently truncate

---
 src/epoch.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/epoch.cpp b/src/epoch.cpp
index cb857e8..a4e6c7d 100644
--- a/src/epoch.cpp
+++ b/src/epoch.cpp
@@ -128,20 +128,21 @@ time_point epoch::make_tp(int y, unsigned mon, unsigned d, const std::int32_t h,
                           const std::int32_t s, const std::int32_t ms, const std::int32_t us)
 {
     // Construct and validate year, month and day.
+    // NOTE: chrono stores truncated values, hence the comparison with the values passed in.
     const std::chrono::year chr_y(y);
-    if (!chr_y.ok()) {
+    if (!chr_y.ok() || static_cast<int>(chr_y) != y) {
         throw std::invalid_argument(
             fmt::format("An invalid year value of {} was specified in the construction of a time point", y));
     }
 
     const std::chrono::month chr_mon(mon);
-    if (!chr_mon.ok()) {
+    if (!chr_mon.ok() || static_cast<unsigned>(chr_mon) != mon) {
         throw std::invalid_argument(
             fmt::format("An invalid month value of {} was specified in the construction of a time point", mon));
     }
 
     const std::chrono::day chr_d(d);
-    if (!chr_d.ok()) {
+    if (!chr_d.ok() || static_cast<unsigned>(chr_d) != d) {
         throw std::invalid_argument(
             fmt::format("An invalid day value of {} was specified in the construction of a time point", d));
     }
-- 
2.43.0


From 0940eb485ff543d456896b2cd128cab719b5fa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:49 +0000
Subject: [PATCH 10/24] fix: epoch: a duration is counted from 0 MJD2000, as
 documented

---
 include/kep3/epoch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kep3/epoch.hpp b/include/kep3/epoch.hpp
index 2bde48d..3a6ad94 100644
--- a/include/kep3/epoch.hpp
+++ b/include/kep3/epoch.hpp
@@ -124,7 +124,7 @@ public:
      */
     template <typename Rep, typename Period>
     explicit epoch(std::chrono::duration<Rep, Period> duration)
-        : m_tp{std::chrono::duration_cast<microseconds>(duration)}
+        : m_tp{y2k + std::chrono::duration_cast<microseconds>(duration)}
     {
     }
 
-- 
2.43.0


From 711059ee8be91d63377c6fa2869e048880e6e3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:29 +0000
Subject: [PATCH 11/24] fix: keplerian accepts hyperbolas given as equinoctial
 elements

The a,e consistency check was made on the raw elements: for MEQ and MEQ_R
that is p*(1-f), so that valid orbits with f >= 1 were refused. The elements
are now converted first.
---
 src/udpla/keplerian.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/udpla/keplerian.cpp b/src/udpla/keplerian.cpp
index 7707cec..2511017 100644
--- a/src/udpla/keplerian.cpp
+++ b/src/udpla/keplerian.cpp
@@ -55,6 +55,11 @@ keplerian::keplerian(const epoch &ref_epoch, const std::array<double, 6> &elem,
       m_radius(added_params[1]), m_safe_radius(added_params[2]), m_period(), m_ellipse(), m_pos_vel_0(),
       m_kep_f_elements(elem)
 {
+    // Equinoctial elements do not contain a,e: we convert them before the check
+    if (el_type == kep3::elements_type::MEQ || el_type == kep3::elements_type::MEQ_R) {
+        m_kep_f_elements = kep3::eq2par(elem, el_type == kep3::elements_type::MEQ_R);
+    }
+
     // We check if the input is consistent with the pykep convention of a,e
     if (m_kep_f_elements[0] * (1 - m_kep_f_elements[1]) <= 0) {
         throw std::domain_error("A Keplerian planet constructor was called with with non compatible "
@@ -73,11 +78,8 @@ keplerian::keplerian(const epoch &ref_epoch, const std::array<double, 6> &elem,
             m_kep_f_elements[5] = kep3::m2f(m_kep_f_elements[5], m_kep_f_elements[1]);
             break;
         case kep3::elements_type::MEQ:
-            m_kep_f_elements = kep3::eq2par(m_kep_f_elements, false);
-            break;
         case kep3::elements_type::MEQ_R:
-            m_kep_f_elements = kep3::eq2par(m_kep_f_elements, true);
-            break;
+            break; // already converted above
         default:
             throw std::logic_error("You should not go here!");
     }
-- 
2.43.0


From 4b6bbc5c023e424be6d49edccca847dceca3aadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:29 +0000
Subject: [PATCH 12/24] fix: mean anomaly available for every ellipse, whatever
 the unit of length

elements_from_posvel took any semi-major axis below 1 for a hyperbola, as in
non-dimensional units.
---
 src/planet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/planet.cpp b/src/planet.cpp
index dd45724..05b3d57 100644
--- a/src/planet.cpp
+++ b/src/planet.cpp
@@ -47,7 +47,7 @@ std::array<double, 6> elements_from_posvel(const std::array<std::array<double, 3
         case kep3::elements_type::KEP_F:
             break;
         case kep3::elements_type::KEP_M:
-            if (retval[0] < 1) {
+            if (retval[0] < 0) {
                 throw std::logic_error("Mean anomaly is only available for ellipses.");
             }
             retval[5] = kep3::f2m(retval[5], retval[1]);
-- 
2.43.0


From 6108e52c32d279669e9536ac62c772d38b62bfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:51 +0000
Subject: [PATCH 13/24] fix: one segment high-fidelity legs read past the time
 grid in get_state_history

---
 src/leg/sims_flanagan_hf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index 2cde273..3f69f18 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -771,7 +771,7 @@ std::vector<std::vector<double>> sims_flanagan_hf::get_state_history(unsigned gr
     double timestep = 0.0;
     leg_time_grid.push_back(timestep);
 
-    for (decltype(m_nseg) i = 0; i < grid_points_per_segment * m_nseg - 2; ++i) {
+    for (decltype(m_nseg) i = 0; i < (grid_points_per_segment - 1) * m_nseg; ++i) {
         timestep += (prop_seg_duration / (grid_points_per_segment - 1));
         leg_time_grid.push_back(timestep);
     }
-- 
2.43.0


From 59c2e30beb3397027e62d836d0042e677e489951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:51 +0000
Subject: [PATCH 14/24] fix: high-fidelity leg gradients with respect to the
 throttles lacked the maximum thrust

---
 src/leg/sims_flanagan_hf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index 3f69f18..c96fa08 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -700,8 +700,9 @@ sims_flanagan_hf::get_relevant_gradients(const std::vector<std::array<double, 49
             throw std::runtime_error("During calculation of the throttle derivatives, the index doesn't correspond to "
                                      "any leg and therefore cannot find the corresponding gradients."); // LCOV_EXCL_LINE
         }
+        // The variational equations are with respect to the thrust, the throttles are scaled by the maximum thrust.
         xt::view(xgrad_final_throttle, xt::all(), xt::range(3 * i, 3 * (i + 1)))
-            = xt::linalg::dot(corresponding_M, current_U);
+            = xt::linalg::dot(corresponding_M, current_U) * m_max_thrust;
     }
 
     // ToF derivatives
-- 
2.43.0


From 07099256f0485849f902739989804cb8328c1e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:03 +0000
Subject: [PATCH 15/24] fix: the setters of the high-fidelity leg take effect
 in its thrusts and integrators and reject invalid data unchanged

---
 include/kep3/leg/sims_flanagan_hf.hpp |  5 ++
 src/leg/sims_flanagan_hf.cpp          | 69 ++++++++++++++++++++-------
 2 files changed, 56 insertions(+), 18 deletions(-)

diff --git a/include/kep3/leg/sims_flanagan_hf.hpp b/include/kep3/leg/sims_flanagan_hf.hpp
index fce03a7..7b6cacb 100644
--- a/include/kep3/leg/sims_flanagan_hf.hpp
+++ b/include/kep3/leg/sims_flanagan_hf.hpp
@@ -133,6 +133,11 @@ public:
     [[nodiscard]] std::vector<std::vector<double>> get_state_history(const unsigned grid_points_per_segment) const;
 
 private:
+    // Bring the derived data in line with the parameters of the leg.
+    void _update_thrusts();
+    void _update_pars();
+    void _update_tas();
+
     friend class boost::serialization::access;
     template <class Archive>
     void serialize(Archive &ar, const unsigned)
diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index c96fa08..7845a4a 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -144,6 +144,29 @@ sims_flanagan_hf::sims_flanagan_hf(const std::array<double, 7> &rvms, std::vecto
     std::transform(m_throttles.begin(), m_throttles.end(), m_thrusts.begin(), throttle_to_thrust);
 }
 
+// Brings the thrusts in line with the throttles and the maximum thrust.
+void sims_flanagan_hf::_update_thrusts()
+{
+    m_thrusts.resize(m_throttles.size()); // Ensure that std::vector m_thrusts is same size as m_throttles
+    std::transform(m_throttles.begin(), m_throttles.end(), m_thrusts.begin(),
+                   [this](double throttle) { return throttle * m_max_thrust; });
+}
+// Brings the parameters of the integrators in line with mu and isp.
+void sims_flanagan_hf::_update_pars()
+{
+    *m_tas.get_pars_data() = m_mu;
+    *(m_tas.get_pars_data() + 1) = m_isp * kep3::G0;
+    *m_tas_var.get_pars_data() = m_mu;
+    *(m_tas_var.get_pars_data() + 1) = m_isp * kep3::G0;
+}
+// Brings the integrators in line with the tolerance.
+void sims_flanagan_hf::_update_tas()
+{
+    m_tas = kep3::ta::get_ta_stark(m_tol);
+    m_tas_var = kep3::ta::get_ta_stark_var(m_tol);
+    _update_pars();
+}
+
 // Setters
 void sims_flanagan_hf::set_tof(double tof)
 {
@@ -203,16 +226,19 @@ void sims_flanagan_hf::set_max_thrust(double max_thrust)
 {
     kep3::leg::_check_max_thrust(max_thrust);
     m_max_thrust = max_thrust;
+    _update_thrusts();
 }
 void sims_flanagan_hf::set_isp(double isp)
 {
     kep3::leg::_check_isp(isp);
     m_isp = isp;
+    _update_pars();
 }
 void sims_flanagan_hf::set_mu(double mu)
 {
     kep3::leg::_check_mu(mu);
     m_mu = mu;
+    _update_pars();
 }
 void sims_flanagan_hf::set_cut(double cut)
 {
@@ -225,6 +251,7 @@ void sims_flanagan_hf::set_tol(double tol)
 {
     kep3::leg::_check_tol(tol);
     m_tol = tol;
+    _update_tas();
 }
 void sims_flanagan_hf::set_rvms(const std::array<double, 7> &rvms)
 {
@@ -249,6 +276,14 @@ void sims_flanagan_hf::set(const std::array<std::array<double, 3>, 2> &rvs, doub
                            const std::array<std::array<double, 3>, 2> &rvf, double mf, double tof, double max_thrust,
                            double isp, double mu, double cut, double tol)
 {
+    // Nothing changes when the new data are invalid.
+    kep3::leg::_check_throttles(throttles);
+    kep3::leg::_check_tof(tof);
+    kep3::leg::_check_max_thrust(max_thrust);
+    kep3::leg::_check_isp(isp);
+    kep3::leg::_check_mu(mu);
+    kep3::leg::_check_cut(cut);
+    kep3::leg::_check_tol(tol);
     // Set initial state
     set_rvs(rvs);
     set_ms(ms);
@@ -265,18 +300,22 @@ void sims_flanagan_hf::set(const std::array<std::array<double, 3>, 2> &rvs, doub
     m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
     m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
     m_nseg_bck = m_nseg - m_nseg_fwd;
-    kep3::leg::_sanity_checks(throttles, tof, max_thrust, isp, mu, cut, tol, m_nseg, m_nseg_fwd, m_nseg_bck);
-
-    // Convert throttles to current_thrusts.
-    auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };
-    m_thrusts.resize(m_throttles.size()); // Ensure that std::vector m_thrusts is same size as m_throttles
-    std::transform(m_throttles.begin(), m_throttles.end(), m_thrusts.begin(), throttle_to_thrust);
+    _update_thrusts();
+    _update_tas();
 }
 
 void sims_flanagan_hf::set(const std::array<double, 7> &rvms, const std::vector<double> &throttles,
                            const std::array<double, 7> &rvmf, double tof, double max_thrust, double isp, double mu,
                            double cut, double tol)
 {
+    // Nothing changes when the new data are invalid.
+    kep3::leg::_check_throttles(throttles);
+    kep3::leg::_check_tof(tof);
+    kep3::leg::_check_max_thrust(max_thrust);
+    kep3::leg::_check_isp(isp);
+    kep3::leg::_check_mu(mu);
+    kep3::leg::_check_cut(cut);
+    kep3::leg::_check_tol(tol);
     set_rvms(rvms);
     m_throttles = throttles;
     set_rvmf(rvmf);
@@ -289,17 +328,16 @@ void sims_flanagan_hf::set(const std::array<double, 7> &rvms, const std::vector<
     m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
     m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
     m_nseg_bck = m_nseg - m_nseg_fwd;
-    kep3::leg::_sanity_checks(throttles, tof, max_thrust, isp, mu, cut, tol, m_nseg, m_nseg_fwd, m_nseg_bck);
-
-    // Convert throttles to current_thrusts.
-    auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };
-    m_thrusts.resize(m_throttles.size()); // Ensure that std::vector m_thrusts is same size as m_throttles
-    std::transform(m_throttles.begin(), m_throttles.end(), m_thrusts.begin(), throttle_to_thrust);
+    _update_thrusts();
+    _update_tas();
 }
 
 void sims_flanagan_hf::set(const std::array<double, 7> &rvms, const std::vector<double> &throttles,
                            const std::array<double, 7> &rvmf, double time_of_flight)
 {
+    // Nothing changes when the new data are invalid.
+    kep3::leg::_check_throttles(throttles);
+    kep3::leg::_check_tof(time_of_flight);
     set_rvms(rvms);
     m_throttles = throttles;
     set_rvmf(rvmf);
@@ -307,12 +345,7 @@ void sims_flanagan_hf::set(const std::array<double, 7> &rvms, const std::vector<
     m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
     m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
     m_nseg_bck = m_nseg - m_nseg_fwd;
-    _sanity_checks(throttles, m_tof, m_max_thrust, m_isp, m_mu, m_cut, m_tol, m_nseg, m_nseg_fwd, m_nseg_bck);
-
-    // Convert throttles to current_thrusts.
-    auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };
-    m_thrusts.resize(m_throttles.size()); // Ensure that std::vector m_thrusts is same size as m_throttles
-    std::transform(m_throttles.begin(), m_throttles.end(), m_thrusts.begin(), throttle_to_thrust);
+    _update_thrusts();
 }
 
 // Getters
-- 
2.43.0


From f24a28c270aedecff3235e3b05c309339e33d5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:03 +0000
Subject: [PATCH 16/24] fix: serialise the variational integrator of the
 high-fidelity leg

---
 include/kep3/leg/sims_flanagan_hf.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/kep3/leg/sims_flanagan_hf.hpp b/include/kep3/leg/sims_flanagan_hf.hpp
index 7b6cacb..bfbeca3 100644
--- a/include/kep3/leg/sims_flanagan_hf.hpp
+++ b/include/kep3/leg/sims_flanagan_hf.hpp
@@ -157,6 +157,7 @@ private:
         ar & m_nseg_fwd;
         ar & m_nseg_bck;
         ar & m_tas;
+        ar & m_tas_var;
     }
 
     // Initial rvm state
-- 
2.43.0


From 42e0e595f535a8aeb6eff381edff8b6a6c0e18a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:22 +0000
Subject: [PATCH 17/24] fix: variational integrator cache sizes are read under
 their own mutex

---
 src/ta/cr3bp.cpp | 2 +-
 src/ta/stark.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ta/cr3bp.cpp b/src/ta/cr3bp.cpp
index ae4b742..5cc362c 100644
--- a/src/ta/cr3bp.cpp
+++ b/src/ta/cr3bp.cpp
@@ -116,7 +116,7 @@ size_t get_ta_cr3bp_cache_dim()
 size_t get_ta_cr3bp_var_cache_dim()
 {
     // Lock down for access to cache.
-    std::lock_guard const lock(ta_cr3bp_mutex);
+    std::lock_guard const lock(ta_cr3bp_var_mutex);
     return ta_cr3bp_var_cache.size();
 }
 
diff --git a/src/ta/stark.cpp b/src/ta/stark.cpp
index 9885a34..2b82bf5 100644
--- a/src/ta/stark.cpp
+++ b/src/ta/stark.cpp
@@ -127,7 +127,7 @@ size_t get_ta_stark_cache_dim()
 size_t get_ta_stark_var_cache_dim()
 {
     // Lock down for access to cache.
-    std::lock_guard const lock(ta_stark_mutex);
+    std::lock_guard const lock(ta_stark_var_mutex);
     return ta_stark_var_cache.size();
 }
 
-- 
2.43.0


From 9b15d663753a3c74119a55c8573aae825f4b621f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:50 +0000
Subject: [PATCH 18/24] fix: get_extra_info of the Cassini gym problems
 referred to an undefined name

---
 pykep/trajopt/gym/_cassini_mga.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykep/trajopt/gym/_cassini_mga.py b/pykep/trajopt/gym/_cassini_mga.py
index b45bf75..183a3bb 100644
--- a/pykep/trajopt/gym/_cassini_mga.py
+++ b/pykep/trajopt/gym/_cassini_mga.py
@@ -27,7 +27,7 @@ class _cassini1_udp(_mga):
     def get_extra_info(self):
         retval = "\tTrajectory Optimisation Gym problem (P1): Cassini MGA, single objective, direct encoding\n"
         retval += "\tPlanetary sequence" + \
-            str([pl.get_name() for pl in _seq_cassini1])
+            str([pl.get_name() for pl in _seq_cassini])
         return retval
 
     def __repr__(self):
@@ -52,7 +52,7 @@ class _cassini1a_udp(_mga):
     def get_extra_info(self):
         retval = "\tTrajectory Optimisation Gym problem (P2): Cassini MGA, single objective, alpha encoding\n"
         retval += "\tPlanetary sequence" + \
-            str([pl.get_name() for pl in _seq_cassini1])
+            str([pl.get_name() for pl in _seq_cassini])
         return retval
 
     def __repr__(self):
@@ -77,7 +77,7 @@ class _cassini1n_udp(_mga):
     def get_extra_info(self):
         retval = "\tTrajectory Optimisation Gym problem (P3): Cassini MGA, single objective, eta encoding\n"
         retval += "\tPlanetary sequence" + \
-            str([pl.get_name() for pl in _seq_cassini1])
+            str([pl.get_name() for pl in _seq_cassini])
         return retval
 
     def __repr__(self):
-- 
2.43.0


From d43b89f9a923dd5fe9ed8e2bcff643947ee5ffdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:50 +0000
Subject: [PATCH 19/24] fix: add_lambert drew the complementary arc of
 clockwise Lambert solutions

---
 pykep/plot/_lambert.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykep/plot/_lambert.py b/pykep/plot/_lambert.py
index 14ec8f0..9e8af8c 100644
--- a/pykep/plot/_lambert.py
+++ b/pykep/plot/_lambert.py
@@ -57,9 +57,9 @@ def add_lambert(ax, lp, N: int = 60, sol: int = 0, units=_pk.AU, **kwargs):
     # Compute the cross product to determine the direction
     cross_product = _np.cross(r0, r1)
     
-    # Assuming motion is in the xy-plane (i.e., third component z gives the direction)
-    if cross_product[2] < 0:  # If the z-component is negative, the motion is clockwise
-        theta = 2 * _np.pi - theta  # Adjust the angle to account for counterclockwise motion
+    # The motion goes the long way when its angular momentum is opposite to r0 x r1
+    if _np.dot(cross_product, _np.cross(r0, v0)) < 0:
+        theta = 2 * _np.pi - theta
     
     # We define the integration grid
     if sol == 0:
-- 
2.43.0


From f3ef468b131617da1c83641612170fbd56b9a991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:50 +0000
Subject: [PATCH 20/24] fix: add_solar_system failed on Neptune (undefined
 epoch)

---
 pykep/plot/_planet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykep/plot/_planet.py b/pykep/plot/_planet.py
index 32a0446..459b1e6 100644
--- a/pykep/plot/_planet.py
+++ b/pykep/plot/_planet.py
@@ -179,6 +179,6 @@ def add_solar_system(
             label="",
             plot_range=[-40000, -40000 + 164.8 * 365.25],
         )
-        _pk.plot.add_planet(ax, neptune, when=ep, c="orchid", s=s[7], label = "Neptune")
+        _pk.plot.add_planet(ax, neptune, when=when, c="orchid", s=s[7], label = "Neptune")
 
     return ax
-- 
2.43.0


From 218fd3d73209de01c9a8184d9cb19dfea67792ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:50 +0000
Subject: [PATCH 21/24] fix: add_sf_leg failed on legs without forward (or
 backward) segments

---
 pykep/plot/_sf_leg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pykep/plot/_sf_leg.py b/pykep/plot/_sf_leg.py
index b0b6192..b0fa304 100644
--- a/pykep/plot/_sf_leg.py
+++ b/pykep/plot/_sf_leg.py
@@ -91,8 +91,8 @@ def add_sf_leg(
         rv = _pk.propagate_lagrangian(rv, tof=dt / 2, mu=sf.mu, stm=False)
         pos_fwd.append(rv[0])
     pos_fwd = _np.array(pos_fwd)
-    pos_m_fwd = _np.array(pos_m_fwd)
-    throttles_fwd = _np.array(throttles_fwd)
+    pos_m_fwd = _np.array(pos_m_fwd).reshape(-1, 3)
+    throttles_fwd = _np.array(throttles_fwd).reshape(-1, 3)
 
     # We plot optionally gridpoints, the low-thrust or the mid points
     if show_gridpoints:
@@ -157,8 +157,8 @@ def add_sf_leg(
         rv = _pk.propagate_lagrangian(rv, tof=-dt / 2, mu=sf.mu, stm=False)
         pos_bck.append(rv[0])
     pos_bck = _np.array(pos_bck)
-    pos_bck_m = _np.array(pos_bck_m)
-    throttles_bck = _np.array(throttles_bck)
+    pos_bck_m = _np.array(pos_bck_m).reshape(-1, 3)
+    throttles_bck = _np.array(throttles_bck).reshape(-1, 3)
 
     # We plot optionally gridpoints, the low-thrust or the mid points
     if show_gridpoints:
-- 
2.43.0


From 03b95b68f790309458cdc10d77d1f0dfe9ca4e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:50 +0000
Subject: [PATCH 22/24] fix: add_sf_hf_leg drew the backward thrust arrows on
 the wrong segments

---
 pykep/plot/_sf_leg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pykep/plot/_sf_leg.py b/pykep/plot/_sf_leg.py
index b0fa304..1592b78 100644
--- a/pykep/plot/_sf_leg.py
+++ b/pykep/plot/_sf_leg.py
@@ -313,7 +313,9 @@ def add_sf_hf_leg(
             current_states = state_history_bck[
                 i * N : (i + 1) * N, 0:3
             ]
-            current_throttles = throttles_bck[:, i * 3 : (i + 1) * 3]
+            current_throttles = throttles_bck[
+                :, (nseg_bck - i - 1) * 3 : (nseg_bck - i) * 3
+            ]
             current_quiver_tips = current_states / units + current_throttles * length
             ax.quiver(
                 current_states[:, 0] / units,
-- 
2.43.0


From 85fde91e9a0edef7a75ba8def1fe1db3d8c8116e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:50 +0000
Subject: [PATCH 23/24] fix: the plots of the direct problems ignored the units
 for end points and planets

---
 pykep/trajopt/_direct_pl2pl.py       | 12 ++++++------
 pykep/trajopt/_direct_point2point.py |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pykep/trajopt/_direct_pl2pl.py b/pykep/trajopt/_direct_pl2pl.py
index d35acd0..f6e23a2 100644
--- a/pykep/trajopt/_direct_pl2pl.py
+++ b/pykep/trajopt/_direct_pl2pl.py
@@ -324,14 +324,14 @@ class direct_pl2pl:
             ax = _pk.plot.make_3Daxis(figsize=(7, 7))
         rs, _ = sf.rvs
         rf, _ = sf.rvf
-        ax.scatter(rs[0] / _pk.AU, rs[1] / units, rs[2] / units, c="k", s=20)
-        ax.scatter(rf[0] / _pk.AU, rf[1] / units, rf[2] / units, c="k", s=20)
+        ax.scatter(rs[0] / units, rs[1] / units, rs[2] / units, c="k", s=20)
+        ax.scatter(rf[0] / units, rf[1] / units, rf[2] / units, c="k", s=20)
 
         # Plotting planets
-        ax = _pk.plot.add_planet(ax, self.pls, when=x[0])
-        ax = _pk.plot.add_planet_orbit(ax, self.pls, c="gray", alpha=0.5)
-        ax = _pk.plot.add_planet(ax, self.plf, when=x[0] + x[-1])
-        ax = _pk.plot.add_planet_orbit(ax, self.plf, c="gray", alpha=0.5)
+        ax = _pk.plot.add_planet(ax, self.pls, when=x[0], units=units)
+        ax = _pk.plot.add_planet_orbit(ax, self.pls, c="gray", alpha=0.5, units=units)
+        ax = _pk.plot.add_planet(ax, self.plf, when=x[0] + x[-1], units=units)
+        ax = _pk.plot.add_planet_orbit(ax, self.plf, c="gray", alpha=0.5, units=units)
 
         # Plotting the trajctory leg
         ax = _pk.plot.add_sf_leg(
diff --git a/pykep/trajopt/_direct_point2point.py b/pykep/trajopt/_direct_point2point.py
index 4a7207a..8fc0776 100644
--- a/pykep/trajopt/_direct_point2point.py
+++ b/pykep/trajopt/_direct_point2point.py
@@ -237,8 +237,8 @@ class direct_point2point:
 
         rs, _ = sf.rvs
         rf, _ = sf.rvf
-        ax.scatter(rs[0] / _pk.AU, rs[1] / units, rs[2] / units, c="k", s=20)
-        ax.scatter(rf[0] / _pk.AU, rf[1] / units, rf[2] / units, c="k", s=20)
+        ax.scatter(rs[0] / units, rs[1] / units, rs[2] / units, c="k", s=20)
+        ax.scatter(rf[0] / units, rf[1] / units, rf[2] / units, c="k", s=20)
 
         # Plotting the trajctory leg
         ax = _pk.plot.add_sf_leg(
-- 
2.43.0


From 4f092042bdea605a4c407c11fdb2c9cf13d61787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:50 +0000
Subject: [PATCH 24/24] fix: the plot of an mga problem ignored N for the
 Lambert arcs

---
 pykep/trajopt/_mga.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykep/trajopt/_mga.py b/pykep/trajopt/_mga.py
index a25d449..6d745e8 100644
--- a/pykep/trajopt/_mga.py
+++ b/pykep/trajopt/_mga.py
@@ -494,10 +494,10 @@ class mga:
         
         if len(leg_ids) == 0:
             for lp in lps:
-                _pk.plot.add_lambert(ax, lp, N = 60, sol = 0, units=units, c=c, **kwargs)
+                _pk.plot.add_lambert(ax, lp, N=N, sol = 0, units=units, c=c, **kwargs)
         else:
             for leg_id in leg_ids:
-                _pk.plot.add_lambert(ax, lps[leg_id], N = 60, sol = 0, units=units, c=c, **kwargs)
+                _pk.plot.add_lambert(ax, lps[leg_id], N=N, sol = 0, units=units, c=c, **kwargs)
 
         return ax
 
-- 
2.43.0

