From 8562f2f1272738725ae31fb440acd3d2d870bfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:27 +0000
Subject: [PATCH 01/49] fix: seq_log::find_index on sequences with fewer than
 three elements

---
 types/seq_log.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types/seq_log.h b/types/seq_log.h
index c8d24ec..460d4a0 100755
--- a/types/seq_log.h
+++ b/types/seq_log.h
@@ -82,6 +82,9 @@ class USML_DECLSPEC seq_log : public seq_vector {
      *                      than the argument.
      */
     size_type find_index(value_type value) const override {
+        if (this->size() < 3) {
+            return 0;
+        }
         return (size_type)max(
             (difference_type)0,
             min((difference_type)this->size() - 2,
-- 
2.43.0


From 18c654dc43aabbe243bc343e9d5d040bbbcca1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:27 +0000
Subject: [PATCH 02/49] fix: seq_vector::find_nearest read past the end of one
 element sequences

---
 types/seq_vector.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/seq_vector.cc b/types/seq_vector.cc
index 8b7e5ed..7280936 100755
--- a/types/seq_vector.cc
+++ b/types/seq_vector.cc
@@ -22,7 +22,7 @@ using namespace usml::types;
  */
 seq_vector::size_type seq_vector::find_nearest(value_type value) const {
     size_type n = find_index(value);
-    if (abs(_data[n + 1] - value) <= abs(_data[n] - value)) {
+    if (n + 1 < size() && abs(_data[n + 1] - value) <= abs(_data[n] - value)) {
         n = n + 1;
     }
     return n;
-- 
2.43.0


From 51bda657d69cea5a7bcaac181b67b73df404f240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:27 +0000
Subject: [PATCH 03/49] fix: infinite recursion in seq_vector::rbegin and rend

---
 types/seq_vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/seq_vector.h b/types/seq_vector.h
index ad4442a..c7f6eff 100644
--- a/types/seq_vector.h
+++ b/types/seq_vector.h
@@ -171,14 +171,14 @@ class USML_DECLSPEC seq_vector : public vector_container<seq_vector> {
      * Return reverse iterator to end of sequence.
      */
     const_reverse_iterator rbegin() const {
-        return const_reverse_iterator(rbegin());
+        return const_reverse_iterator(end());
     }
 
     /**
      * Return reverse iterator to start of sequence.
      */
     const_reverse_iterator rend() const {
-        return const_reverse_iterator(rend());
+        return const_reverse_iterator(begin());
     }
 
     /**
-- 
2.43.0


From 9d877511c832b26fb8c0bf4cfef73284855ec96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:27 +0000
Subject: [PATCH 04/49] fix: seq_augment never built the table used by
 find_index

---
 types/seq_augment.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/types/seq_augment.h b/types/seq_augment.h
index 2bb3093..0246ea9 100755
--- a/types/seq_augment.h
+++ b/types/seq_augment.h
@@ -60,6 +60,13 @@ class USML_DECLSPEC seq_augment : public seq_data {
             _increment[i - 1] = _data[i] - _data[i - 1];
         }
         _increment[_max_index] = _data[_max_index] - _data[_max_index - 1];
+
+        // build the lookup table used by find_index()
+
+        _sign = (spacing < 0.0) ? -1.0 : 1.0;
+        for (size_t i = 0; i < size; ++i) {
+            _data_map[_sign * _data[i]] = i;
+        }
     }
 };
 
-- 
2.43.0


From 5ef4015f080f9301836661b8366acc5e21135ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:32 +0000
Subject: [PATCH 05/49] fix: seq_vector::build_best lost irregular and
 logarithmic data

The linear and logarithmic tests skipped elements next to zeros and compared
second differences to the size of the values, so that unevenly spaced data
could be replaced by an evenly spaced sequence.  Logarithmic sequences were
built with the wrong multiplier.
---
 types/seq_vector.cc | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/types/seq_vector.cc b/types/seq_vector.cc
index 7280936..9bd3c6f 100755
--- a/types/seq_vector.cc
+++ b/types/seq_vector.cc
@@ -52,24 +52,34 @@ seq_vector::csptr seq_vector::build_best(const double* data, size_t count) {
     bool isLog = true;
 
     const int N = (int)count;
-    double p1 = data[0];
-    double minValue = p1;
-    double maxValue = p1;
+    const double minValue = data[0];
+    double maxValue = minValue;
+
+    double linearInc = 1.0;
+    double logInc = 1.0;
 
     if (N > 1) {
-        double p2 = data[1];
-        maxValue = p2;
-        for (size_t n = 2; n < N; ++n) {
-            double p3 = data[n];
-            maxValue = p3;
-            if (p2 != 0.0 && abs(((p3 - p2) - (p2 - p1)) / p2) > 1E-4) {
+        maxValue = data[N - 1];
+        linearInc = (maxValue - minValue) / (N - 1);
+        isLog = (minValue != 0.0) && (maxValue / minValue > 0.0);
+        if (isLog) {
+            logInc = pow(maxValue / minValue, 1.0 / (N - 1));
+        }
+
+        // accept a regular sequence if it reproduces all of the data
+        // to within one percent of the local spacing
+
+        double logValue = minValue;
+        for (int n = 1; n < N; ++n) {
+            const double error = 1E-2 * abs(data[n] - data[n - 1]);
+            const double linearValue = minValue + n * linearInc;
+            logValue *= logInc;
+            if (abs(data[n] - linearValue) > error) {
                 isLinear = false;
             }
-            if (p1 != 0.0 && p2 != 0.0 && abs((p3 / p2) - (p2 / p1)) > 1E-5) {
+            if (isLog && abs(data[n] - logValue) > error) {
                 isLog = false;
             }
-            p1 = p2;
-            p2 = p3;
         }
     }
 
@@ -79,9 +89,9 @@ seq_vector::csptr seq_vector::build_best(const double* data, size_t count) {
     if (N < 2) {
         seq = new seq_linear(minValue, 1.0, 1);
     } else if (isLinear) {
-        seq = new seq_linear(minValue, (maxValue - minValue) / (N - 1), N);
+        seq = new seq_linear(minValue, linearInc, N);
     } else if (isLog) {
-        seq = new seq_log(minValue, (maxValue / minValue) / (N - 1), N);
+        seq = new seq_log(minValue, logInc, N);
     } else {
         seq = new seq_data(data, count);
     }
-- 
2.43.0


From a8f94d44aa88714c81bb2d2c66b7a80840aca78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:31 +0000
Subject: [PATCH 06/49] fix: bp_multi sum of patterns started at one instead of
 zero

---
 beampatterns/bp_multi.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beampatterns/bp_multi.cc b/beampatterns/bp_multi.cc
index 16e0198..82a8252 100755
--- a/beampatterns/bp_multi.cc
+++ b/beampatterns/bp_multi.cc
@@ -17,7 +17,8 @@ void bp_multi::beam_level(const bvector& arrival,
                           vector<double>* level, const bvector& steering,
                           double sound_speed) const {
     vector<double> tmp(frequencies->size(), 1.0);
-    *level = vector<double>(frequencies->size(), 1.0);
+    *level = vector<double>(frequencies->size(),
+                            (_type == bp_multi_type::sum) ? 0.0 : 1.0);
 
     for (const auto& pattern : _bp_list) {
         pattern->beam_level(arrival, frequencies, &tmp, steering, sound_speed);
-- 
2.43.0


From cb936d6f99d1606388221a8b4d2756205954af84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:31 +0000
Subject: [PATCH 07/49] fix: bp_solid, bp_gaussian azimuth difference below
 -180 degrees

---
 beampatterns/bp_gaussian.cc | 4 ++--
 beampatterns/bp_solid.cc    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/beampatterns/bp_gaussian.cc b/beampatterns/bp_gaussian.cc
index 727e5a3..9836692 100644
--- a/beampatterns/bp_gaussian.cc
+++ b/beampatterns/bp_gaussian.cc
@@ -33,8 +33,8 @@ void bp_gaussian::beam_level(const bvector& arrival,
     double az = 0.0;
     if (_horz_half < 180.0) {
         az = atan2(steering.front(), steering.right());
-        az = to_degrees(atan2(arrival.front(), arrival.right()) - az);
-        az = abs(fmod(az + 180.0, 360.0) - 180);
+        az = abs(to_degrees(atan2(arrival.front(), arrival.right()) - az));
+        az = min(az, 360.0 - az);
         az /= (_horz_half * 2.0);
     }
 
diff --git a/beampatterns/bp_solid.cc b/beampatterns/bp_solid.cc
index 6047f28..1962d23 100644
--- a/beampatterns/bp_solid.cc
+++ b/beampatterns/bp_solid.cc
@@ -26,8 +26,8 @@ void bp_solid::beam_level(const bvector& arrival,
     double de = asin(steering.up());
     double az = atan2(steering.front(), steering.right());
     de = abs(to_degrees(asin(arrival.up()) - de));
-    az = to_degrees(atan2(arrival.front(), arrival.right()) - az);
-    az = abs(fmod(az + 180.0, 360.0) - 180);
+    az = abs(to_degrees(atan2(arrival.front(), arrival.right()) - az));
+    az = min(az, 360.0 - az);
     const double value = (de <= _vert_half && az <= _horz_half) ? 1.0 : 0.0;
     noalias(*level) = scalar_vector<double>(frequencies->size(), value);
 }
-- 
2.43.0


From e79d2d3926994cf8cca7e2c236499d3fd1115e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:53 +0000
Subject: [PATCH 08/49] fix: kaiser window used an unsquared offset from the
 center

---
 transmit/window.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transmit/window.h b/transmit/window.h
index 38444cf..fe5c004 100755
--- a/transmit/window.h
+++ b/transmit/window.h
@@ -101,7 +101,8 @@ class USML_DECLSPEC window {
         const double M = (N - 1.0) / 2.0;
         vector<double> x = seq_linear(0.0, 1.0, N).data();
         for (int n = 0; n < x.size(); ++n) {
-            x[n] = std::cyl_bessel_i(0.0, beta * sqrt(1.0 - (x[n] - M) / M)) /
+            const double y = (x[n] - M) / M;
+            x[n] = std::cyl_bessel_i(0.0, beta * sqrt(1.0 - y * y)) /
                    std::cyl_bessel_i(0.0, beta);
         }
         return x;
-- 
2.43.0


From 236d02fc879d96649934f4fb088b94f72679786a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:11 +0000
Subject: [PATCH 09/49] fix: wvector1::direction mixed up position and
 direction components

---
 types/wvector1.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/types/wvector1.cc b/types/wvector1.cc
index fba7f5b..26b1806 100755
--- a/types/wvector1.cc
+++ b/types/wvector1.cc
@@ -95,10 +95,10 @@ double wvector1::direction(const wvector1& pos, const wvector1& dir) {
     const double dir_sp = sin(dir.phi());
     const double dir_cp = cos(dir.phi());
 
-    const double pos_st = sin(dir.theta());
-    const double pos_ct = cos(dir.theta());
-    const double pos_sp = sin(dir.phi());
-    const double pos_cp = cos(dir.phi());
+    const double pos_st = sin(pos.theta());
+    const double pos_ct = cos(pos.theta());
+    const double pos_sp = sin(pos.phi());
+    const double pos_cp = cos(pos.phi());
 
     const double x = dir.rho() * dir_cp * dir_st - pos.rho() * pos_cp * pos_st;
     const double y = dir.rho() * dir_sp * dir_st - pos.rho() * pos_sp * pos_st;
@@ -126,9 +126,9 @@ void wvector1::direction(const wvector1& pos, wvector1* dir) const {
     const double sp = sin(pos.phi());
     const double cp = cos(pos.phi());
 
-    const double x = _rho * ct * sp - _theta * st + _phi * ct * cp;
-    const double y = _rho * st * sp + _theta * ct + _phi * st * cp;
-    const double z = _rho * cp - _phi * sp;
+    const double x = _rho * st * cp + _theta * ct * cp - _phi * sp;
+    const double y = _rho * st * sp + _theta * ct * sp + _phi * cp;
+    const double z = _rho * ct - _theta * st;
 
     dir->rho(1.0);
     dir->theta(atan2(sqrt(x * x + y * y), z));
-- 
2.43.0


From 46a09d4cad2a17b10ff4965b7ead4863ca42a299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:11 +0000
Subject: [PATCH 10/49] fix: orientation setters lost the other angles after a
 copy or rotation

---
 types/orientation.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types/orientation.h b/types/orientation.h
index 4c7da12..d7db52c 100755
--- a/types/orientation.h
+++ b/types/orientation.h
@@ -155,6 +155,7 @@ class USML_DECLSPEC orientation {
      * @param y Compass heading. (deg)
      */
     void yaw(double y) {
+        compute_angles();
         _yaw = y;
         apply_rotation();
     }
@@ -173,6 +174,7 @@ class USML_DECLSPEC orientation {
      * @param p Up/down tilt relative to local ocean surface. (deg)
      */
     void pitch(double p) {
+        compute_angles();
         _pitch = p;
         apply_rotation();
     }
@@ -191,6 +193,7 @@ class USML_DECLSPEC orientation {
      * @param r Left/right tilt relative to local ocean surface. (deg)
      */
     void roll(double r) {
+        compute_angles();
         _roll = r;
         apply_rotation();
     }
-- 
2.43.0


From 2fd32bee165942e8b8aa4faea1e457170ad55585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:45 +0000
Subject: [PATCH 11/49] fix: reflection_reinit left the intermediate state of
 the past ray without gradients

---
 waveq3d/reflection_model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waveq3d/reflection_model.cc b/waveq3d/reflection_model.cc
index 79c5310..911b77a 100644
--- a/waveq3d/reflection_model.cc
+++ b/waveq3d/reflection_model.cc
@@ -312,7 +312,7 @@ void reflection_model::reflection_reinit(size_t de, size_t az,
 
     ode_integ::rk2_pos(-time_step, &prev, &next, &temp);
     ode_integ::rk2_ndir(-time_step, &prev, &next, &temp);
-    past.update();
+    temp.update();
 
     ode_integ::rk3_pos(-time_step, &prev, &next, &temp, &past);
     ode_integ::rk3_ndir(-time_step, &prev, &next, &temp, &past);
-- 
2.43.0


From 5bde4c4cecb0ff259cec12c4d8ff4e74c6cf1bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:48 +0000
Subject: [PATCH 12/49] fix: compute_offsets used a wrong determinant for the
 inverse Hessian

---
 waveq3d/wave_queue.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waveq3d/wave_queue.cc b/waveq3d/wave_queue.cc
index eb36bcf..0283d93 100755
--- a/waveq3d/wave_queue.cc
+++ b/waveq3d/wave_queue.cc
@@ -760,7 +760,7 @@ void wave_queue::compute_offsets(size_t t1, size_t t2, size_t de, size_t az,
                       hessian(0, 1) * (hessian(1, 2) * hessian(2, 0) -
                                        hessian(1, 0) * hessian(2, 2)) +
                       hessian(0, 2) * (hessian(1, 0) * hessian(2, 1) -
-                                       hessian(2, 1) * hessian(2, 0)));
+                                       hessian(1, 1) * hessian(2, 0)));
     unstable = unstable || determinant < norm_2(gradient);
 
 #ifdef DEBUG_EIGENRAYS_DETAIL
-- 
2.43.0


From 9cdd95ea7dcdbb75ed22ad12fb400cf48ece4050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 13/49] fix: build_eigenray looked for NaN in a list that is
 still empty

---
 waveq3d/wave_queue.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waveq3d/wave_queue.cc b/waveq3d/wave_queue.cc
index 0283d93..fae46eb 100755
--- a/waveq3d/wave_queue.cc
+++ b/waveq3d/wave_queue.cc
@@ -582,7 +582,7 @@ void wave_queue::build_eigenray(size_t t1, size_t t2, size_t de, size_t az,
 
     const vector<double> spread_intensity = _spreading_model->intensity(
         wposition1(*(_curr->targets), t1, t2), de, az, offset, distance);
-    for (size_t i = 0; i < ray->intensity.size(); ++i) {
+    for (size_t i = 0; i < spread_intensity.size(); ++i) {
         if (std::isnan(spread_intensity(i))) {
             #ifdef USML_DEBUG
                 std::cerr << "warning: wave_queue::build_eigenray()" << endl
-- 
2.43.0


From b32cff74ad57fea58374ab0cb0c44323b45cd06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 14/49] fix: arrival azimuth of southbound eigenrays mixed +180
 and -180 degrees

---
 waveq3d/wave_queue.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/waveq3d/wave_queue.cc b/waveq3d/wave_queue.cc
index fae46eb..69e8ddd 100755
--- a/waveq3d/wave_queue.cc
+++ b/waveq3d/wave_queue.cc
@@ -684,6 +684,21 @@ void wave_queue::build_eigenray(size_t t1, size_t t2, size_t de, size_t az,
         }
     }
 
+    // keep neighbors of southbound rays within 180 degrees of the central ray
+
+    for (size_t n = 0; n < 3; ++n) {
+        for (size_t nde = 0; nde < 3; ++nde) {
+            for (size_t naz = 0; naz < 3; ++naz) {
+                double& value = distance2[n][nde][naz];
+                if (value - distance2[1][1][1] > 180.0) {
+                    value -= 360.0;
+                } else if (value - distance2[1][1][1] < -180.0) {
+                    value += 360.0;
+                }
+            }
+        }
+    }
+
     make_taylor_coeff(distance2, delta, center, gradient, hessian);
     ray->target_az = center + inner_prod(gradient, offset) +
                      0.5 * inner_prod(offset, prod(hessian, offset));
-- 
2.43.0


From 9358fa1e30cdb34099f4ddddd328b4e52eca77dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:45 +0000
Subject: [PATCH 15/49] fix: footprint of the first ray of a fan was built from
 the last gap

---
 waveq3d/wave_queue.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/waveq3d/wave_queue.cc b/waveq3d/wave_queue.cc
index 69e8ddd..a08e881 100755
--- a/waveq3d/wave_queue.cc
+++ b/waveq3d/wave_queue.cc
@@ -1100,14 +1100,16 @@ void wave_queue::build_eigenverb(size_t de, size_t az, double dt,
     const double de_plus =
         de_angle + 0.5 * to_radians(_source_de->increment(de));
     const double de_minus =
-        de_angle - 0.5 * to_radians(_source_de->increment(de - 1));
+        de_angle -
+        0.5 * to_radians(_source_de->increment((de > 0) ? de - 1 : 0));
 
     const double az_angle = to_radians((*_source_az)(az));
     const double az_plus =
         az_angle + 0.5 * to_radians(_source_az->increment(az));
     const size_t az_index = (az == 0 && _az_boundary) ? _max_az : az;
     const double az_minus =
-        az_angle - 0.5 * to_radians(_source_az->increment(az_index - 1));
+        az_angle - 0.5 * to_radians(_source_az->increment(
+                             (az_index > 0) ? az_index - 1 : 0));
 
     const double area = (sin(de_plus) - sin(de_minus)) * (az_plus - az_minus);
     const double de_delta = de_plus - de_minus;  // average height
-- 
2.43.0


From dcf85f6ef1b74728f1a01d8ba81c6799270b8bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:11 +0000
Subject: [PATCH 16/49] fix: interp_type dropped the request when the axis is
 too short for it

---
 types/data_grid.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/types/data_grid.h b/types/data_grid.h
index 4450fde..05cf3ad 100755
--- a/types/data_grid.h
+++ b/types/data_grid.h
@@ -140,9 +140,8 @@ class USML_DLLEXPORT data_grid {
             type = interp_enum::nearest;
         } else if (type > interp_enum::linear && size < 4) {
             type = interp_enum::linear;
-        } else {
-            this->_interp_type[dimension] = type;
         }
+        this->_interp_type[dimension] = type;
     }
 
     /**
-- 
2.43.0


From 9b8e80e67373a6893119de801d1ac925c6d6157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:11 +0000
Subject: [PATCH 17/49] fix: gen_grid read past the end of an axis with one
 element

---
 types/gen_grid.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/types/gen_grid.h b/types/gen_grid.h
index c276910..0f3506d 100755
--- a/types/gen_grid.h
+++ b/types/gen_grid.h
@@ -209,7 +209,9 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
 
         const size_t k = index[dim];
         seq_vector::csptr ax = this->_axis[dim];
-        const double u = (location[dim] - (*ax)(k)) / ax->increment(k);
+        const double u = (ax->size() < 2)
+                             ? 0.0
+                             : (location[dim] - (*ax)(k)) / ax->increment(k);
         if (u < 0.5) {
             result = interp(dim - 1, index, location, da, deriv_vec);
         } else {
-- 
2.43.0


From db7fd10c3239bda410951b34fdabc41e990873f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:11 +0000
Subject: [PATCH 18/49] fix: linear interpolation in 3 dimensions did not blend
 the first derivative

---
 types/gen_grid.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/types/gen_grid.h b/types/gen_grid.h
index 0f3506d..0ec8cd1 100755
--- a/types/gen_grid.h
+++ b/types/gen_grid.h
@@ -256,6 +256,10 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         // build interpolation coefficients
 
         const DATA_TYPE a = interp(dim - 1, index, location, da, deriv_vec);
+        DATA_TYPE lower[NUM_DIMS];  // derivatives before dim-1, at this node
+        if (deriv_vec) {
+            for (int n = 0; n < dim - 1; ++n) lower[n] = deriv_vec[n];
+        }
         size_t next[NUM_DIMS];
         std::copy_n(index, NUM_DIMS, next);
         ++next[dim];
@@ -277,6 +281,9 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
             if (dim > 0) {
                 deriv_vec[dim - 1] = da * (1.0 - u) + db * u;
             }
+            for (int n = 0; n < dim - 1; ++n) {
+                deriv_vec[n] = lower[n] * (1.0 - u) + deriv_vec[n] * u;
+            }
         }
 
         // use results for dim+1 iteration
-- 
2.43.0


From 6127fa43dcd2d80cf20b5a0afe96a45126e0c448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:11 +0000
Subject: [PATCH 19/49] fix: pchip slope at the right node used the widths of
 the wrong intervals

---
 types/gen_grid.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/gen_grid.h b/types/gen_grid.h
index 0ec8cd1..1ba196f 100755
--- a/types/gen_grid.h
+++ b/types/gen_grid.h
@@ -483,8 +483,8 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         // average of deriv1 and deriv2.
 
         if (k <= kmax) {
-            const double w1 = 2.0 * h1 + h0;
-            const double w2 = h1 + 2.0 * h0;
+            const double w1 = 2.0 * h2 + h1;
+            const double w2 = h2 + 2.0 * h1;
             derivative<DATA_TYPE>::compute(deriv1, deriv2, dderiv1, dderiv2, w1,
                                            w2, deriv_vec, slope2, dslope2);
 
-- 
2.43.0


From a31a645a1f3413c0a11454e8d5a09ae9dd74e24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:11 +0000
Subject: [PATCH 20/49] fix: pchip end point slopes did not follow the three
 point formula

---
 types/gen_grid.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/types/gen_grid.h b/types/gen_grid.h
index 1ba196f..a16a62e 100755
--- a/types/gen_grid.h
+++ b/types/gen_grid.h
@@ -464,8 +464,8 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
             // note that the deriv0 value is bogus values when this is true
 
         } else {
-            slope1 = ((2.0 + h1 + h2) * deriv1 - h1 * deriv2) / (h1 + h2);
-            dslope1 = ((2.0 + h1 + h2) * dderiv1 - h1 * dderiv2) / (h1 + h2);
+            slope1 = ((2.0 * h1 + h2) * deriv1 - h1 * deriv2) / (h1 + h2);
+            dslope1 = ((2.0 * h1 + h2) * dderiv1 - h1 * dderiv2) / (h1 + h2);
             end_point_derivative<DATA_TYPE>::compute(
                 deriv1, deriv2, dderiv1, dderiv2, deriv_vec, slope1, dslope1);
         }
@@ -493,8 +493,8 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
             // true
 
         } else {  // otherwise, compute harmonic weighted average
-            slope2 = ((2.0 + h1 + h2) * deriv1 - h1 * deriv0) / (h1 + h0);
-            dslope2 = ((2.0 + h1 + h2) * dderiv1 - h1 * dderiv0) / (h1 + h0);
+            slope2 = ((2.0 * h1 + h0) * deriv1 - h1 * deriv0) / (h1 + h0);
+            dslope2 = ((2.0 * h1 + h0) * dderiv1 - h1 * dderiv0) / (h1 + h0);
             end_point_derivative<DATA_TYPE>::compute(
                 deriv1, deriv0, dderiv1, dderiv0, deriv_vec, slope2, dslope2);
         }
-- 
2.43.0


From eef38ea0627850b49ba3720e3c17f42a7344553d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:11 +0000
Subject: [PATCH 21/49] fix: pchip end point slope was limited to the wrong
 difference

---
 types/gen_grid_utils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/gen_grid_utils.h b/types/gen_grid_utils.h
index ceaa367..7b560a9 100644
--- a/types/gen_grid_utils.h
+++ b/types/gen_grid_utils.h
@@ -148,8 +148,8 @@ struct end_point_derivative {
                         argument_type& dm) {
         if (m * d0 < 0.0) {
             m = 0.0;
-        } else if ((d0 * d1 < 0.0) && (abs(m) > abs(3.0 * d1))) {
-            m = 3.0 * d1;
+        } else if ((d0 * d1 < 0.0) && (abs(m) > abs(3.0 * d0))) {
+            m = 3.0 * d0;
         }
         if (deriv) {
             if (dm * dd0 < 0.0) {
-- 
2.43.0


From c528b674a46f4e7f7e3c61eb3f052b61b213ab12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 22/49] fix: pchip end point slope was not zero next to a flat
 interval

---
 types/gen_grid_utils.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/types/gen_grid_utils.h b/types/gen_grid_utils.h
index 7b560a9..813cfc5 100644
--- a/types/gen_grid_utils.h
+++ b/types/gen_grid_utils.h
@@ -146,13 +146,13 @@ struct end_point_derivative {
     static void compute(argument_type d0, argument_type d1, argument_type dd0,
                         argument_type dd1, bool deriv, argument_type& m,
                         argument_type& dm) {
-        if (m * d0 < 0.0) {
+        if (m * d0 <= 0.0) {
             m = 0.0;
         } else if ((d0 * d1 < 0.0) && (abs(m) > abs(3.0 * d0))) {
             m = 3.0 * d0;
         }
         if (deriv) {
-            if (dm * dd0 < 0.0) {
+            if (dm * dd0 <= 0.0) {
                 dm = 0.0;
             } else if ((dd0 * dd1 < 0.0) && (abs(dm) > abs(3.0 * dd0))) {
                 dm = 3.0 * dd0;
@@ -194,14 +194,14 @@ struct end_point_derivative<boost::numeric::ublas::vector<T> > {
                         argument_type& dm) {
         size_type size(d0.size());
         for (size_type i = 0; i < size; ++i) {
-            if (m(i) * d0(i) < 0.0) {
+            if (m(i) * d0(i) <= 0.0) {
                 m(i) = 0.0;
             } else if ((d0(i) * d1(i) < 0.0) &&
                        (abs(m(i)) > abs(3.0 * d0(i)))) {
                 m(i) = 3.0 * d0(i);
             }
             if (deriv) {
-                if (dm(i) * dd0(i) < 0.0) {
+                if (dm(i) * dd0(i) <= 0.0) {
                     dm(i) = 0.0;
                 } else if ((dd0(i) * dd1(i) < 0.0) &&
                            (abs(dm(i)) > abs(3.0 * dd0(i)))) {
@@ -231,14 +231,14 @@ struct end_point_derivative<boost::numeric::ublas::matrix<T> > {
         size_type size2(d0.size2());
         for (size_type i = 0; i < size1; ++i) {
             for (size_type j = 0; j < size2; ++j) {
-                if (m(i, j) * d0(i, j) < 0.0) {
+                if (m(i, j) * d0(i, j) <= 0.0) {
                     m(i, j) = 0.0;
                 } else if ((d0(i, j) * d1(i, j) < 0.0) &&
                            (abs(m(i, j)) > abs(3.0 * d0(i, j)))) {
                     m(i, j) = 3.0 * d0(i, j);
                 }
                 if (deriv) {
-                    if (dm(i, j) * dd0(i, j) < 0.0) {
+                    if (dm(i, j) * dd0(i, j) <= 0.0) {
                         dm(i, j) = 0.0;
                     } else if ((dd0(i, j) * dd1(i, j) < 0.0) &&
                                (abs(dm(i, j)) > abs(3.0 * dd0(i, j)))) {
-- 
2.43.0


From c41a1611bc13521f7b480aefcf6b578d3e781f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 23/49] fix: data_grid_bathy limited locations to the last but
 one node

---
 types/data_grid_bathy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/data_grid_bathy.h b/types/data_grid_bathy.h
index 667f319..a3dba7f 100755
--- a/types/data_grid_bathy.h
+++ b/types/data_grid_bathy.h
@@ -270,7 +270,7 @@ class USML_DECLSPEC data_grid_bathy : public data_grid<2> {
 
             if (edge_limit(dim)) {
                 double a = ax(0);
-                double b = ax(ax.size() - 2);
+                double b = ax(ax.size() - 1);
                 double sign = (ax.increment(0) < 0) ? -1.0 : 1.0;
                 double d = loc[dim] * sign;
                 if (d <= a * sign) {  // left of the axis
-- 
2.43.0


From 0eb41610c3e17f85b5fa8b768c37b1906aa8e694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 24/49] fix: nearest neighbor of data_grid_bathy mixed up
 locations and indices

---
 types/data_grid_bathy.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/types/data_grid_bathy.h b/types/data_grid_bathy.h
index a3dba7f..eef7db7 100755
--- a/types/data_grid_bathy.h
+++ b/types/data_grid_bathy.h
@@ -295,8 +295,9 @@ class USML_DECLSPEC data_grid_bathy : public data_grid<2> {
             //****nearest****
             case interp_enum::nearest:
                 for (int dim = 0; dim < 2; ++dim) {
-                    double inc = axis(dim).increment(0);
-                    double u = abs(loc[dim] - offset[dim]) / inc;
+                    const seq_vector& ax = axis(dim);
+                    double u = (loc[dim] - ax(offset[dim])) /
+                               ax.increment(offset[dim]);
                     if (u < 0.5) {
                         fast_index[dim] = offset[dim];
                     } else {
-- 
2.43.0


From e7ca538f4d6fef9a2f2b8f4d525bbfaf4567c5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 25/49] fix: slope of data_grid_svp at the last depth mixed up
 the last two intervals

---
 types/data_grid_svp.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/types/data_grid_svp.h b/types/data_grid_svp.h
index 2a52be3..fe6cd06 100755
--- a/types/data_grid_svp.h
+++ b/types/data_grid_svp.h
@@ -91,21 +91,21 @@ class USML_DECLSPEC data_grid_svp : public gen_grid<3> {
                             result = 3.0 * slope_1;
                         }
                     } else if (i == _kzmax) {
-                        inc1 = this->axis(0).increment(i - 1);
-                        inc2 = this->axis(0).increment(i);
+                        inc1 = this->axis(0).increment(i - 2);
+                        inc2 = this->axis(0).increment(i - 1);
                         slope_1 =
                             (data_3d(i - 1, j, k) - data_3d(i - 2, j, k)) /
                             inc1;
                         slope_2 =
                             (data_3d(i, j, k) - data_3d(i - 1, j, k)) / inc2;
                         result =
-                            ((2.0 * inc1 + inc2) * slope_2 - inc1 * slope_1) /
+                            ((2.0 * inc2 + inc1) * slope_2 - inc2 * slope_1) /
                             (inc1 + inc2);
-                        if (result * slope_1 <= 0.0) {
+                        if (result * slope_2 <= 0.0) {
                             result = 0.0;
                         } else if ((slope_1 * slope_2 <= 0.0) &&
-                                   (abs(result) > abs(3.0 * slope_1))) {
-                            result = 3.0 * slope_1;
+                                   (abs(result) > abs(3.0 * slope_2))) {
+                            result = 3.0 * slope_2;
                         }
                     } else {
                         inc1 = this->axis(0).increment(i - 1);
-- 
2.43.0


From 0ba59c9bea86ee00fa35a7f9397fe0dbae3e572f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 26/49] fix: data_grid_svp::interpolate did not override that
 of data_grid

---
 types/data_grid_svp.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/types/data_grid_svp.h b/types/data_grid_svp.h
index fe6cd06..4859a88 100755
--- a/types/data_grid_svp.h
+++ b/types/data_grid_svp.h
@@ -148,11 +148,13 @@ class USML_DECLSPEC data_grid_svp : public gen_grid<3> {
      *
      * Interpolate at a single location.
      *
-     * @param location   Location to do the interpolation at
+     * @param point      Location to do the interpolation at
      * @param derivative Calculates first derivative if not nullptr
      */
-    double interpolate(double* location, double* derivative = nullptr) const {
+    double interpolate(const double point[],
+                       double* derivative = nullptr) const override {
         double result = 0.0;
+        double location[3] = {point[0], point[1], point[2]};
         size_t k0, k1, k2;  // indices of he offset data
         size_t offset[3];
         // bi-linear variables
-- 
2.43.0


From 4eb306794c65498daf0ea13486ede8dac5b6ac89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:37 +0000
Subject: [PATCH 27/49] fix: flat earth correction left out the horizontal
 sound speed gradient

---
 ocean/profile_model.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ocean/profile_model.cc b/ocean/profile_model.cc
index 97aab58..348d139 100644
--- a/ocean/profile_model.cc
+++ b/ocean/profile_model.cc
@@ -20,6 +20,12 @@ void profile_model::adjust_speed(const wposition& location,
                 (element_prod(gradient->rho(), location.rho()) + *speed) /
                     wposition::earth_radius,
                 false);
+            gradient->theta(element_prod(gradient->theta(), location.rho()) /
+                                wposition::earth_radius,
+                            false);
+            gradient->phi(element_prod(gradient->phi(), location.rho()) /
+                              wposition::earth_radius,
+                          false);
         }
         *speed = element_prod(*speed, location.rho()) / wposition::earth_radius;
     }
-- 
2.43.0


From 25d755dbdc377b148f05a4d22df740f45a5a0d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:37 +0000
Subject: [PATCH 28/49] fix: profile_grid left stale values in the horizontal
 gradient of 1-D and 2-D grids

---
 ocean/profile_grid.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ocean/profile_grid.h b/ocean/profile_grid.h
index 2194e53..eb75707 100644
--- a/ocean/profile_grid.h
+++ b/ocean/profile_grid.h
@@ -67,6 +67,9 @@ class profile_grid : public profile_model {
      */
     void sound_speed(const wposition& location, matrix<double>* speed,
                      wvector* gradient = nullptr) const override {
+        if (gradient) {
+            gradient->clear();
+        }
         switch (NUM_DIMS) {
                 //***************
                 // 1-D grids
-- 
2.43.0


From ea6582d813ebfd0e9d5dcf0eb3e2b262a07344d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:30 +0000
Subject: [PATCH 29/49] fix: boundary_slope kept a reference to the caller's
 location

---
 ocean/boundary_slope.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocean/boundary_slope.h b/ocean/boundary_slope.h
index e522a7b..1fc714b 100644
--- a/ocean/boundary_slope.h
+++ b/ocean/boundary_slope.h
@@ -81,7 +81,7 @@ class USML_DECLSPEC boundary_slope : public boundary_model {
 
    private:
     /** Location at which initial depth and slope are specified. */
-    const wposition1& _location;
+    const wposition1 _location;
 
     /** Surface height in spherical earth coords. */
     const double _height;
-- 
2.43.0


From fa3528faa38169184eb2c27dcf1d3effd32f4574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:40 +0000
Subject: [PATCH 30/49] fix: incoherent total of eigenrays added pressures
 instead of intensities

---
 eigenrays/eigenray_collection.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eigenrays/eigenray_collection.cc b/eigenrays/eigenray_collection.cc
index 0f2ec9a..f114c7f 100644
--- a/eigenrays/eigenray_collection.cc
+++ b/eigenrays/eigenray_collection.cc
@@ -142,7 +142,7 @@ void eigenray_collection::sum_eigenrays() {
                         std::complex<double> value(a * cos(p), a * sin(p));
                         phasor += value;
                     } else {
-                        phasor += a;
+                        phasor += a * a;  // intensities add
                     }
 
                     // other eigenray terms
@@ -168,6 +168,9 @@ void eigenray_collection::sum_eigenrays() {
 
                 // convert back into intensity (dB) and phase (radians) values
 
+                if (!_coherent) {
+                    phasor = std::sqrt(phasor.real());
+                }
                 total.intensity(f) = -20.0 * log10(max(1e-15, abs(phasor)));
                 total.phase(f) = arg(phasor);
             }  // end frequency
-- 
2.43.0


From 48fcbf5882041f074ba7f119eb8b86355ef9b479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 31/49] fix: dead reckoning moved the source against its ray
 and used launch angles at the target

---
 eigenrays/eigenray_collection.cc | 22 +++++++++++++++-------
 eigenrays/eigenray_collection.h  |  4 +++-
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/eigenrays/eigenray_collection.cc b/eigenrays/eigenray_collection.cc
index f114c7f..e88fcc7 100644
--- a/eigenrays/eigenray_collection.cc
+++ b/eigenrays/eigenray_collection.cc
@@ -365,9 +365,10 @@ eigenray_list eigenray_collection::dead_reckon(
     size_t t1, size_t t2, const wposition1 &source_new,
     const wposition1 &target_new, const profile_model::csptr &profile) const {
     eigenray_list eigenrays =
-        dead_reckon_one(_eigenrays(t1, t2), _source_pos, source_new, profile);
+        dead_reckon_one(_eigenrays(t1, t2), _source_pos, source_new, profile,
+                        true);
     return dead_reckon_one(eigenrays, wposition1(_target_pos, t1, t2),
-                           target_new, profile);
+                           target_new, profile, false);
 }
 
 /**
@@ -375,7 +376,8 @@ eigenray_list eigenray_collection::dead_reckon(
  */
 eigenray_list eigenray_collection::dead_reckon_one(
     const eigenray_list &eigenrays, const wposition1 &oldpos,
-    const wposition1 &newpos, const profile_model::csptr &profile) {
+    const wposition1 &newpos, const profile_model::csptr &profile,
+    bool source) {
     // compute position change in local tangent plane
 
     double dir[3] = {newpos.rho() - oldpos.rho(),
@@ -408,8 +410,10 @@ eigenray_list eigenray_collection::dead_reckon_one(
 
         // compute ray direction in local tangent plane
 
-        const double de = to_radians(ray->source_de);
-        const double az = to_radians(ray->source_az);
+        const double de =
+            to_radians(source ? ray->source_de : ray->target_de);
+        const double az =
+            to_radians(source ? ray->source_az : ray->target_az);
         const double cos_de = cos(de);
         const double sin_de = sin(de);
         const double cos_az = cos(az);
@@ -417,10 +421,14 @@ eigenray_list eigenray_collection::dead_reckon_one(
         const double raydir[3] = {sin_de, -cos_de * cos_az, cos_de * sin_az};
 
         // change in range is proportional to the component of
-        // slant range along the direction of the ray
+        // slant range along the direction of the ray, a source that
+        // moves along the ray gets closer to the target
 
-        const double dr =
+        double dr =
             (dir[0] * raydir[0] + dir[1] * raydir[1] + dir[2] * raydir[2]);
+        if (source) {
+            dr = -dr;
+        }
         new_ray->travel_time = ray->travel_time + dr / sound_speed;
 
         // compute change in intensity along ray path
diff --git a/eigenrays/eigenray_collection.h b/eigenrays/eigenray_collection.h
index 90380f5..1f1963d 100644
--- a/eigenrays/eigenray_collection.h
+++ b/eigenrays/eigenray_collection.h
@@ -272,6 +272,7 @@ class USML_DECLSPEC eigenray_collection : public eigenray_listener {
      * @param oldpos    Original sensor location.
      * @param newpos    Updated sensor location.
      * @param profile   Ocean profile model used to extract sound speed.
+     * @param source    True for motion of the source, false for the target.
      *
      * @xref E. K. Skarsoullis, "Multi-section matched-peak tomographic
      * inversion with a moving source", J. Acoust. Soc. Am.
@@ -280,7 +281,8 @@ class USML_DECLSPEC eigenray_collection : public eigenray_listener {
     static eigenray_list dead_reckon_one(const eigenray_list &eigenrays,
                                          const wposition1 &oldpos,
                                          const wposition1 &newpos,
-                                         const profile_model::csptr &profile);
+                                         const profile_model::csptr &profile,
+                                         bool source);
 };
 
 /// @}
-- 
2.43.0


From 3dde58ae2099cbd311531aaa83c4f21de08bae72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:30 +0000
Subject: [PATCH 32/49] fix: biverb overlap lost the sign of the offset between
 the patches

---
 biverbs/biverb_collection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/biverbs/biverb_collection.cc b/biverbs/biverb_collection.cc
index 6d19cc9..27132b4 100644
--- a/biverbs/biverb_collection.cc
+++ b/biverbs/biverb_collection.cc
@@ -150,7 +150,7 @@ void biverb_collection::add_biverb(const eigenverb_model::csptr& src_verb,
     const double kappa = -0.25 *
                          (xs2 * (src_sum + new_prod + 2.0 * rcv_length2) +
                           ys2 * (src_sum - new_prod + 2.0 * rcv_width2) -
-                          2.0 * sqrt(xs2 * ys2) * src_diff * sin2alpha) /
+                          2.0 * xs * ys * src_diff * sin2alpha) /
                          det_sr;
 #ifdef DEBUG_BIVERB
     cout << "\tdet_sr=" << det_sr << " kappa=" << kappa
-- 
2.43.0


From b7e77f82f2e55d73742c6dc5b6877dad9abfbf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:50 +0000
Subject: [PATCH 33/49] fix: reverberation time series read and wrote the wrong
 rows for receiver keys that are not 0,1,2...

---
 rvbts/rvbts_collection.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index 9f56918..c7ab5a4 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -102,7 +102,10 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
 
     // add Gaussian to each receiver channel
 
+    size_t channel = 0;
     for (int rcv : this->_receiver->rcv_keys()) {
+        const size_t row = channel++;
+
         // compute received level for this transmission
 
         bp_model::csptr rcv_beam = _receiver->rcv_beam(rcv);
@@ -119,7 +122,7 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
 
         for (size_t n = 0; n < gaussian.size(); ++n) {
             auto t = n + first;
-            _time_series(rcv, t) += rcv_level * gaussian[n];
+            _time_series(row, t) += rcv_level * gaussian[n];
         }
     }
 }
-- 
2.43.0


From 488cafa6f09f37c1c8688ddb981da2cedf9f014b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:50 +0000
Subject: [PATCH 34/49] fix: reverberation time series started from
 uninitialized memory

---
 rvbts/rvbts_collection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index c7ab5a4..84f8ac0 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -47,7 +47,7 @@ rvbts_collection::rvbts_collection(
       _receiver_orient(receiver_orient),
       _receiver_speed(receiver_speed),
       _travel_times(travel_times),
-      _time_series(receiver->rcv_num_keys(), travel_times->size()) {}
+      _time_series(receiver->rcv_num_keys(), travel_times->size(), 0.0) {}
 
 /**
  * Adds the intensity contribution for a single bistatic eigenverb.
-- 
2.43.0


From ad0dcffb0bbafa0378a4c591cf4a335c6a3cbac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:51 +0000
Subject: [PATCH 35/49] fix: biverb angles are radians, and relative to the
 world instead of the array

---
 rvbts/rvbts_collection.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index 84f8ac0..3abec57 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -92,8 +92,10 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
     const seq_vector::csptr frequencies(
         new seq_linear(transmit->fcenter, 1.0, 1));
     vector<double> level(1);
-    bvector src_arrival(verb->source_de, verb->source_az);
-    src_arrival.rotate(_source_orient, src_arrival);
+    bvector src_arrival(to_degrees(verb->source_de),
+                        to_degrees(verb->source_az));
+    src_arrival =
+        bvector(prod(trans(_source_orient.rotation()), src_arrival.data()));
     src_beam->beam_level(src_arrival, frequencies, &level, steering);
     double src_level = transmit->source_level + level[0];
     if (src_level < power_threshold) {
@@ -109,8 +111,10 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
         // compute received level for this transmission
 
         bp_model::csptr rcv_beam = _receiver->rcv_beam(rcv);
-        bvector rcv_arrival(verb->receiver_de, verb->receiver_az);
-        rcv_arrival.rotate(_receiver_orient, rcv_arrival);
+        bvector rcv_arrival(to_degrees(verb->receiver_de),
+                            to_degrees(verb->receiver_az));
+        rcv_arrival = bvector(
+            prod(trans(_receiver_orient.rotation()), rcv_arrival.data()));
         bvector rcv_steering = _receiver->rcv_steering(rcv);
         rcv_beam->beam_level(rcv_arrival, frequencies, &level, rcv_steering);
         double rcv_level = src_level + verb_level + level[0];
-- 
2.43.0


From 4b51127350a43fbff03ead7882b408b43763fe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:51 +0000
Subject: [PATCH 36/49] fix: levels of reverberation were added instead of
 multiplied

---
 rvbts/rvbts_collection.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index 3abec57..4deabe5 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -97,7 +97,7 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
     src_arrival =
         bvector(prod(trans(_source_orient.rotation()), src_arrival.data()));
     src_beam->beam_level(src_arrival, frequencies, &level, steering);
-    double src_level = transmit->source_level + level[0];
+    double src_level = transmit->source_level * level[0];
     if (src_level < power_threshold) {
         return;
     }
@@ -117,7 +117,7 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
             prod(trans(_receiver_orient.rotation()), rcv_arrival.data()));
         bvector rcv_steering = _receiver->rcv_steering(rcv);
         rcv_beam->beam_level(rcv_arrival, frequencies, &level, rcv_steering);
-        double rcv_level = src_level + verb_level + level[0];
+        double rcv_level = src_level * verb_level * level[0];
         if (rcv_level < power_threshold) {
             continue;
         }
-- 
2.43.0


From dae4c9c6af91a8b888f1d733c1228a1ea0d522a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:51 +0000
Subject: [PATCH 37/49] fix: interpolated power of biverbs used the wrong
 interval and left out the pulse length

---
 rvbts/rvbts_collection.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index 4deabe5..e9bf0c7 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -74,17 +74,15 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
 
     // interpolate eigenverb power
 
-    double verb_level = verb->power[0] * transmit->duration;
+    double verb_level = verb->power[0];
     if (verb->frequencies->size() > 1) {
         double freq = transmit->fcenter;
         const seq_vector &axis = *(verb->frequencies);
-        size_t index = axis.find_nearest(freq);
-        if (index >= axis.size()) {
-            --index;
-        }
+        size_t index = axis.find_index(freq);
         double u = (freq - axis[index]) / axis.increment(index);
         verb_level = u * verb->power[index + 1] + (1 - u) * verb->power[index];
     }
+    verb_level *= transmit->duration;
 
     // compute source level for this transmission
 
-- 
2.43.0


From 4061005f40566d65c9b2ced0227c047547ca4a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:51 +0000
Subject: [PATCH 38/49] fix: last times of the reverberation window were left
 out

---
 rvbts/rvbts_collection.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index e9bf0c7..4cd8db7 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -16,6 +16,7 @@
 #include <boost/numeric/ublas/vector.hpp>
 #include <boost/numeric/ublas/vector_expression.hpp>
 #include <boost/numeric/ublas/vector_proxy.hpp>
+#include <algorithm>
 #include <cmath>
 #include <cstddef>
 #include <list>
@@ -63,6 +64,7 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
     const auto delay = transmit->delay + verb->travel_time + duration;
     size_t first = _travel_times->find_index(delay - 5.0 * duration);
     size_t last = _travel_times->find_index(delay + 5.0 * duration);
+    last = std::min(last + 2, _travel_times->size());
     range window(first, last);
 
     // update Gaussian time series in this window
-- 
2.43.0


From 01ea7e2ae474d61a4528b21ad53c986a34c749ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:13 +0000
Subject: [PATCH 39/49] fix: host of platforms was set for refused children and
 kept by removed ones

---
 platforms/platform_model.cc | 7 ++++++-
 platforms/platform_model.h  | 9 +++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/platforms/platform_model.cc b/platforms/platform_model.cc
index cd26d47..8e21c40 100644
--- a/platforms/platform_model.cc
+++ b/platforms/platform_model.cc
@@ -78,7 +78,8 @@ platform_model::key_type platform_model::add_child(
     const platform_model::sptr& child, const bvector& pos,
     const orientation& orient) {
     write_lock_guard guard(mutex());
-    _child_manager.add(std::make_shared<linkage>(this, child, pos, orient));
+    _child_manager.add(std::make_shared<linkage>(child, pos, orient));
+    child->_host = this;
     update_internals(_time, _position, _orient, _speed, NO_UPDATE);
     return child->keyID();
 }
@@ -88,6 +89,10 @@ platform_model::key_type platform_model::add_child(
  */
 bool platform_model::remove_child(platform_model::key_type keyID) {
     write_lock_guard guard(mutex());
+    linkage::sptr link = _child_manager.find(keyID);
+    if (link != nullptr) {
+        link->child->_host = nullptr;
+    }
     return _child_manager.remove(keyID);
 }
 
diff --git a/platforms/platform_model.h b/platforms/platform_model.h
index 7a084db..f75c6e4 100644
--- a/platforms/platform_model.h
+++ b/platforms/platform_model.h
@@ -185,19 +185,16 @@ class platform_model : public managed_obj<uint64_t, platform_model>,
          * already been assigned a keyID and description, and these values can
          * be reused for this map.
          *
-         * @param host		Reference to the platform that owns this child.
          * @param child		Reference to the child to be linked to the host.
          * @param pos		Position of child relative to host.
          * @param orient	Orientation of child relative to host.
          */
-        linkage(const platform_model* host, platform_model::sptr child,
-                const bvector& pos, const orientation& orient)
+        linkage(platform_model::sptr child, const bvector& pos,
+                const orientation& orient)
             : managed_obj(child->keyID(), child->description()),
               child(child),
               position(pos),
-              orient(orient) {
-            child->_host = host;
-        }
+              orient(orient) {}
 
         /// Reference to the child platform.
         platform_model::sptr child;
-- 
2.43.0


From c46bb835ff33278849587cee2dc7bf09a148e805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:13 +0000
Subject: [PATCH 40/49] fix: pairs of removed receivers with sources that are
 no receivers were kept

---
 sensors/sensor_manager.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sensors/sensor_manager.cc b/sensors/sensor_manager.cc
index 0c2415b..6fc1eef 100644
--- a/sensors/sensor_manager.cc
+++ b/sensors/sensor_manager.cc
@@ -282,7 +282,7 @@ void sensor_manager::remove_multistatic_receiver(
     const sensor_model::sptr& receiver,
     update_listener<sensor_pair>* listener) {
     auto receiverID = receiver->keyID();
-    for (auto sourceID : _rcv_list) {
+    for (auto sourceID : _src_list) {
         if (sourceID != receiverID) {
             auto source = platform_manager::instance()->find(sourceID);
             auto hash_key =
-- 
2.43.0


From 2e6ed0ffa7344f6fdda7a50c2269ecf89494d272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:13 +0000
Subject: [PATCH 41/49] fix: direct paths of pairs computed by the receiver had
 the wrong ends and directions

---
 sensors/sensor_pair.cc | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index c7cd34f..68ceb06 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -23,6 +23,15 @@
 
 using namespace usml::sensors;
 
+namespace {
+
+/// Azimuth of the opposite direction, in the range [0,360) degrees.
+double reverse_azimuth(double azimuth) {
+    return (azimuth < 180.0) ? azimuth + 180.0 : azimuth - 180.0;
+}
+
+}  // namespace
+
 /**
  * Construct link between source and receiver.
  */
@@ -87,23 +96,21 @@ void sensor_pair::update_wavefront_data(
         auto targetID = _receiver->keyID();
         wposition1 source_pos(_source->position());
         wposition1 receiver_pos(_receiver->position());
-        eigenray_list raylist = eigenrays->find_eigenrays(targetID);
+        eigenray_list raylist;
 
-        // swap source/receiver sense of direct path eigenrays, if needed
+        // reverse source/receiver sense of direct path eigenrays, if needed
 
-        if (_source != _receiver && sensor->keyID() == _receiver->keyID()) {
-            sourceID = _receiver->keyID();
-            targetID = _source->keyID();
-            source_pos = _receiver->position();
-            receiver_pos = _source->position();
-            eigenray_list new_list;
-            for (const auto& ray : eigenrays->find_eigenrays(targetID)) {
+        if (_source != _receiver && sensor->keyID() == targetID) {
+            for (const auto& ray : eigenrays->find_eigenrays(sourceID)) {
                 auto* copy = new eigenray_model(*ray);
-                std::swap(copy->source_de, copy->target_de);
-                std::swap(copy->source_az, copy->target_az);
-                new_list.push_back(eigenray_model::csptr(copy));
+                copy->source_de = -ray->target_de;
+                copy->source_az = reverse_azimuth(ray->target_az);
+                copy->target_de = -ray->source_de;
+                copy->target_az = reverse_azimuth(ray->source_az);
+                raylist.push_back(eigenray_model::csptr(copy));
             }
-            raylist = new_list;  // replace original list
+        } else {
+            raylist = eigenrays->find_eigenrays(targetID);
         }
 
         // create new direct path collection with just rays for a single target
@@ -112,9 +119,8 @@ void sensor_pair::update_wavefront_data(
         receiverID(0, 0) = targetID;
 
         auto* collection = new eigenray_collection(
-            eigenrays->frequencies(), _source->position(),
-            wposition(receiver_pos), sourceID, receiverID,
-            eigenrays->coherent());
+            eigenrays->frequencies(), source_pos, wposition(receiver_pos),
+            sourceID, receiverID, eigenrays->coherent());
         for (const auto& ray : raylist) {
             collection->add_eigenray(0, 0, ray);
         }
-- 
2.43.0


From 84ee37b700457ad55ca028ca5a1d291102caebb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:27 +0000
Subject: [PATCH 42/49] fix: listeners of pairs without a transmit schedule
 were not notified

---
 sensors/sensor_pair.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index 68ceb06..e90df7d 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -172,6 +172,8 @@ void sensor_pair::notify_update(const biverb_collection::csptr* object) {
         write_lock_guard guard(_mutex);
         _biverbs = *object;
         if (_source->transmit_schedule().empty()) {
+            guard.unlock();
+            notify_update(this);
             return;
         }
 
-- 
2.43.0


From 3ba848a12738e2e7c54da9920772deb2ed229921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:42 +0000
Subject: [PATCH 43/49] fix: superseded computations of pairs were never
 aborted

---
 sensors/sensor_pair.cc | 20 ++++++++++----------
 sensors/sensor_pair.h  |  4 ++--
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index e90df7d..baf94df 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -143,17 +143,17 @@ void sensor_pair::update_wavefront_data(
             // launch a new bistatic eigenverb generator background task
 
             if (_src_eigenverbs != nullptr && _rcv_eigenverbs != nullptr) {
-                if (_biverb_task != nullptr) {  // abort incomplete tasks
-                    _biverb_task->abort();
+                if (auto task = _biverb_task.lock()) {  // abort incomplete task
+                    task->abort();
                 }
                 sensor_pair::sptr reference =
                     sensor_manager::instance()->find(keyID());
                 eigenverb_collection::csptr src_verbs = _src_eigenverbs;
                 eigenverb_collection::csptr rcv_verbs = _rcv_eigenverbs;
-                _biverb_task = std::make_shared<biverb_generator>(
+                auto biverb_task = std::make_shared<biverb_generator>(
                     reference, src_verbs, rcv_verbs);
-                thread_controller::instance()->run(_biverb_task);
-                _biverb_task.reset();  // destroy background task shared pointer
+                thread_controller::instance()->run(biverb_task);
+                _biverb_task = biverb_task;  // does not keep the task alive
             }
         }
     }
@@ -193,14 +193,14 @@ void sensor_pair::notify_update(const biverb_collection::csptr* object) {
         // launch a new reverberation time series generator background task
 
         notify_early = false;
-        if (_rvbts_task != nullptr) {  // abort incomplete tasks
-            _rvbts_task->abort();
+        if (auto task = _rvbts_task.lock()) {  // abort incomplete task
+            task->abort();
         }
         sensor_pair::sptr reference = sensor_manager::instance()->find(keyID());
-        _rvbts_task = std::make_shared<rvbts_generator>(
+        auto rvbts_task = std::make_shared<rvbts_generator>(
             reference, _source, _receiver, treverb, _biverbs);
-        thread_controller::instance()->run(_rvbts_task);
-        _rvbts_task.reset();  // destroy background task shared pointer
+        thread_controller::instance()->run(rvbts_task);
+        _rvbts_task = rvbts_task;  // does not keep the task alive
     }
     if (notify_early) {
         notify_update(this);
diff --git a/sensors/sensor_pair.h b/sensors/sensor_pair.h
index 0674a08..60ed5cc 100755
--- a/sensors/sensor_pair.h
+++ b/sensors/sensor_pair.h
@@ -242,10 +242,10 @@ class USML_DECLSPEC sensor_pair
     rvbts_collection::csptr _rvbts;
 
     /// Background task used to generate biverb objects.
-    std::shared_ptr<biverb_generator> _biverb_task;
+    std::weak_ptr<biverb_generator> _biverb_task;
 
     /// Background task used to generate reverberation time series objects.
-    std::shared_ptr<rvbts_generator> _rvbts_task;
+    std::weak_ptr<rvbts_generator> _rvbts_task;
 };
 
 typedef std::list<sensor_pair::sptr> pair_list;
-- 
2.43.0


From abd3a7caf3e1b030876ae0f218e72e37d39a81ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:42 +0000
Subject: [PATCH 44/49] fix: transmit schedules that were set before the
 biverbs crashed the reverberation task

---
 sensors/sensor_model.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sensors/sensor_model.cc b/sensors/sensor_model.cc
index 7edf8ce..e570461 100644
--- a/sensors/sensor_model.cc
+++ b/sensors/sensor_model.cc
@@ -138,7 +138,9 @@ void sensor_model::transmit_schedule(const transmit_list& schedule,
         sensor_manager* sensor_mgr = sensor_manager::instance();
         for (const sensor_pair::sptr& pair : sensor_mgr->find_source(keyID())) {
             biverb_collection::csptr biverbs = pair->biverbs();
-            pair->notify_update(&biverbs);
+            if (biverbs != nullptr) {
+                pair->notify_update(&biverbs);
+            }
         }
     }
 }
-- 
2.43.0


From 1423844ef3a61935ece8d59ce6a082ca1d74bca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:43 +0000
Subject: [PATCH 45/49] fix: acoustics of sensors without a maximum time were
 computed

---
 sensors/sensor_model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sensors/sensor_model.cc b/sensors/sensor_model.cc
index e570461..16d4fd9 100644
--- a/sensors/sensor_model.cc
+++ b/sensors/sensor_model.cc
@@ -158,7 +158,7 @@ void sensor_model::update_internals(time_t time, const wposition1& pos,
 
     // clang-format off
     bool update_acoustics =
-		update_type != NO_UPDATE && (
+		update_type != NO_UPDATE && _time_maximum > 0.0 && (
         update_type == FORCE_UPDATE || _needs_update
 		|| abs(p1.latitude() - p2.latitude()) >= motion_thresholds::lat_threshold
 		|| abs(p1.longitude() - p2.longitude()) >= motion_thresholds::lon_threshold
-- 
2.43.0


From 8dfb6e9076744b97726d82137cb8b612ea36f2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:43 +0000
Subject: [PATCH 46/49] fix: headings and longitudes that wrap around exceeded
 the motion thresholds

---
 sensors/sensor_model.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/sensors/sensor_model.cc b/sensors/sensor_model.cc
index 16d4fd9..8dee000 100644
--- a/sensors/sensor_model.cc
+++ b/sensors/sensor_model.cc
@@ -16,12 +16,23 @@
 #include <usml/types/wposition.h>
 #include <usml/wavegen/wavefront_generator.h>
 
+#include <algorithm>
 #include <boost/numeric/ublas/matrix.hpp>
 #include <cfloat>
 #include <cmath>
 
 using namespace usml::sensors;
 
+namespace {
+
+/// Smallest angle between two headings or longitudes (degrees).
+double angle_change(double angle1, double angle2) {
+    const double change = std::fmod(std::abs(angle1 - angle2), 360.0);
+    return std::min(change, 360.0 - change);
+}
+
+}  // namespace
+
 /**
  * Reset source beams.
  */
@@ -161,11 +172,11 @@ void sensor_model::update_internals(time_t time, const wposition1& pos,
 		update_type != NO_UPDATE && _time_maximum > 0.0 && (
         update_type == FORCE_UPDATE || _needs_update
 		|| abs(p1.latitude() - p2.latitude()) >= motion_thresholds::lat_threshold
-		|| abs(p1.longitude() - p2.longitude()) >= motion_thresholds::lon_threshold
+		|| angle_change(p1.longitude(), p2.longitude()) >= motion_thresholds::lon_threshold
 		|| abs(p1.altitude() - p2.altitude()) >= motion_thresholds::alt_threshold
-		|| abs(o1.yaw() - o2.yaw()) >= motion_thresholds::yaw_threshold
+		|| angle_change(o1.yaw(), o2.yaw()) >= motion_thresholds::yaw_threshold
 		|| abs(o1.pitch() - o2.pitch()) >= motion_thresholds::pitch_threshold
-		|| abs(o1.roll() - o2.roll()) >= motion_thresholds::roll_threshold);
+		|| angle_change(o1.roll(), o2.roll()) >= motion_thresholds::roll_threshold);
     // clang-format on
 
     // update motion of sensor
-- 
2.43.0


From b952e829a6f06f083f67d59a68988d1f6ada02bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:54 +0000
Subject: [PATCH 47/49] fix: computations of pairs that were removed meanwhile
 crashed

---
 sensors/sensor_pair.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index baf94df..a4d03aa 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -141,13 +141,15 @@ void sensor_pair::update_wavefront_data(
             }
 
             // launch a new bistatic eigenverb generator background task
+            // unless this pair has been removed from the manager
 
-            if (_src_eigenverbs != nullptr && _rcv_eigenverbs != nullptr) {
+            sensor_pair::sptr reference =
+                sensor_manager::instance()->find(keyID());
+            if (reference != nullptr && _src_eigenverbs != nullptr &&
+                _rcv_eigenverbs != nullptr) {
                 if (auto task = _biverb_task.lock()) {  // abort incomplete task
                     task->abort();
                 }
-                sensor_pair::sptr reference =
-                    sensor_manager::instance()->find(keyID());
                 eigenverb_collection::csptr src_verbs = _src_eigenverbs;
                 eigenverb_collection::csptr rcv_verbs = _rcv_eigenverbs;
                 auto biverb_task = std::make_shared<biverb_generator>(
@@ -197,6 +199,9 @@ void sensor_pair::notify_update(const biverb_collection::csptr* object) {
             task->abort();
         }
         sensor_pair::sptr reference = sensor_manager::instance()->find(keyID());
+        if (reference == nullptr) {  // pair removed from the manager
+            return;
+        }
         auto rvbts_task = std::make_shared<rvbts_generator>(
             reference, _source, _receiver, treverb, _biverbs);
         thread_controller::instance()->run(rvbts_task);
-- 
2.43.0


From 100e8d67245fa38556159ff7cf7719ed621c508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:07 +0000
Subject: [PATCH 48/49] fix: copysign changed the sign of the first argument
 instead of replacing it

---
 ublas/math_traits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ublas/math_traits.h b/ublas/math_traits.h
index c547d94..9cc2066 100644
--- a/ublas/math_traits.h
+++ b/ublas/math_traits.h
@@ -174,7 +174,7 @@ struct math_traits<double> {
 
     static inline value_type sqrt(const_reference t) { return std::sqrt(t); }
     static inline value_type copysign(const_reference t1, const_reference t2) {
-        return (t2 < 0.0) ? -t1 : t1;
+        return (t2 < 0.0) ? -std::abs(t1) : std::abs(t1);
     }
 
     //*********************************************************
@@ -288,7 +288,7 @@ struct math_traits<float> {
 
     static inline value_type sqrt(const_reference t) { return std::sqrt(t); }
     static inline value_type copysign(const_reference t1, const_reference t2) {
-        return (t2 < 0.0) ? -t1 : t1;
+        return (t2 < 0.0) ? -std::abs(t1) : std::abs(t1);
     }
 
     //*********************************************************
-- 
2.43.0


From 3bab835a98806b30c30c99381311cf987a7462c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:58 +0000
Subject: [PATCH 49/49] fix: beams were reset without locking the sensor

---
 sensors/sensor_model.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sensors/sensor_model.cc b/sensors/sensor_model.cc
index 8dee000..1f2767f 100644
--- a/sensors/sensor_model.cc
+++ b/sensors/sensor_model.cc
@@ -36,7 +36,10 @@ double angle_change(double angle1, double angle2) {
 /**
  * Reset source beams.
  */
-void sensor_model::reset_src_beams() { _src_beams.clear(); }
+void sensor_model::reset_src_beams() {
+    write_lock_guard guard(mutex());
+    _src_beams.clear();
+}
 
 /**
  * Add source beam pattern to this sensor.
@@ -75,7 +78,10 @@ std::list<int> sensor_model::src_keys() const {
 /**
  * Reset receiver beams.
  */
-void sensor_model::reset_rcv_beams() { _rcv_beams.clear(); }
+void sensor_model::reset_rcv_beams() {
+    write_lock_guard guard(mutex());
+    _rcv_beams.clear();
+}
 
 /**
  * Add receiver beam pattern to this sensor.
-- 
2.43.0

