From 2b80fbb287ae359fa76111d433263c601188339b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:42 +0000
Subject: [PATCH 1/7] fix: djcl, djcal: do the day arithmetic in 64 bits

For dates beyond about MJD 5.3e8, which are accepted, 4 * jd did not fit
a 32-bit int and the result was not a date.
---
 src/djcal.cc | 9 +++++----
 src/djcl.cc  | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/djcal.cc b/src/djcal.cc
index e891a62..6765674 100644
--- a/src/djcal.cc
+++ b/src/djcal.cc
@@ -18,6 +18,7 @@
 #include "slalib.h"
 #include "f77_utils.h"
 #include <cmath>
+#include <cstdint>
 
 namespace sla {
 
@@ -56,12 +57,12 @@ bool djcal(int ndp, double mjd, Date& date) {
         const double d = (df - f) / fd;
 
         // express day in Gregorian calendar.
-        const int jd = f_nint(d) + 2400001;
+        const int64_t jd = (int64_t) f_nint(d) + 2400001;
 
-        const int n4 = 4 * (jd + ((2 * ((4 * jd - 17918) / 146097) * 3) / 4 + 1) / 2 - 37);
-        const int nd10 = 10 * (((n4 - 237) % 1461) / 4) + 5;
+        const int64_t n4 = 4 * (jd + ((2 * ((4 * jd - 17918) / 146097) * 3) / 4 + 1) / 2 - 37);
+        const int nd10 = 10 * (int) (((n4 - 237) % 1461) / 4) + 5;
 
-        date.d_year = n4 / 1461 - 4712;
+        date.d_year = (int) (n4 / 1461) - 4712;
         date.d_month =  ((nd10 / 306 + 2) % 12) + 1;
         date.d_day = (nd10 % 306) / 10 + 1;
         date.d_ifraction = f_nint(f);
diff --git a/src/djcl.cc b/src/djcl.cc
index 2482bf1..c4d3f37 100644
--- a/src/djcl.cc
+++ b/src/djcl.cc
@@ -18,6 +18,7 @@
 #include "slalib.h"
 #include "f77_utils.h"
 #include <cmath>
+#include <cstdint>
 
 namespace sla {
 
@@ -46,12 +47,12 @@ bool djcl(double mjd, Date& date) {
         const double d = f_anint(mjd - f);
 
         // express day in Gregorian calendar.
-        const int jd = f_nint(d) + 2400001;
+        const int64_t jd = (int64_t) f_nint(d) + 2400001;
 
-        const int n4 = 4 * (jd + ((6 * ((4 * jd - 17918) / 146097)) / 4 + 1) / 2 - 37);
-        const int nd10 = 10 * (((n4 - 237) % 1461) / 4) + 5;
+        const int64_t n4 = 4 * (jd + ((6 * ((4 * jd - 17918) / 146097)) / 4 + 1) / 2 - 37);
+        const int nd10 = 10 * (int) (((n4 - 237) % 1461) / 4) + 5;
 
-        date.d_year = n4 / 1461 - 4712;
+        date.d_year = (int) (n4 / 1461) - 4712;
         date.d_month = ((nd10 / 306 + 2) % 12) + 1;
         date.d_day = (nd10 % 306) / 10 + 1;
         date.d_fraction = f;
-- 
2.43.0


From 50a4c543bbf99972f4e5bec2764c561f358708e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:42 +0000
Subject: [PATCH 2/7] fix: epco: accept 'j' for the result and 'b' for the
 given epoch

Both letters are documented for both arguments, but a lower case 'j'
result or 'b' given epoch was treated as invalid.
---
 src/epco.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/epco.cc b/src/epco.cc
index e080738..d89bee6 100644
--- a/src/epco.cc
+++ b/src/epco.cc
@@ -34,11 +34,15 @@ namespace sla {
 double epco(char result, char given, double epoch) {
     if (result == 'b') {
         result = 'B';
+    } else if (result == 'j') {
+        result = 'J';
     }
     if (result != 'B' && result != 'J') {
         return 0.0;
     }
-    if (given == 'j') {
+    if (given == 'b') {
+        given = 'B';
+    } else if (given == 'j') {
         given = 'J';
     }
     if (given != 'B' && given != 'J') {
-- 
2.43.0


From 9f8f7105a386f1f3cfed0f5f7a4cf3615807c493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:06 +0000
Subject: [PATCH 3/7] fix: dpav, pav: return zero for coincident points

Only the first vector was normalized, so that rounding noise decided the
position angle of a vector with respect to itself.
---
 src/dpav.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/dpav.cc b/src/dpav.cc
index 74690d0..97f51a1 100644
--- a/src/dpav.cc
+++ b/src/dpav.cc
@@ -45,10 +45,16 @@ double dpav(const Vector<double> va, const Vector<double> vb) {
         y1 = y1 / length;
         z1 = z1 / length;
     }
-    // vector to point 2
-    const double x2 = vb[0];
-    const double y2 = vb[1];
-    const double z2 = vb[2];
+    // unit vector to point 2 (scaled in the same way, so that coincident points give exact zeros below)
+    double x2 = vb[0];
+    double y2 = vb[1];
+    double z2 = vb[2];
+    const double length2 = std::sqrt(x2 * x2 + y2 * y2 + z2 * z2);
+    if (length2 != 0.0) {
+        x2 = x2 / length2;
+        y2 = y2 / length2;
+        z2 = z2 / length2;
+    }
 
     // position angle
     const double sq = y2 * x1 - x2 * y1;
-- 
2.43.0


From 1dbb21ed3abf745cdbdffd57c2080e0b8d206334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:07 +0000
Subject: [PATCH 4/7] fix: tpv2c: do not underflow for stars very close to a
 pole

---
 src/tpv2c.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tpv2c.cc b/src/tpv2c.cc
index b89755c..e912385 100644
--- a/src/tpv2c.cc
+++ b/src/tpv2c.cc
@@ -56,12 +56,12 @@ int tpv2c(float xi, float eta, const Vector<float> point, Vector<float> solution
     const float r2 = rxy2 * eta2p1 - z * z * xi2;
     if (r2 > 0.0f) {
         float r = std::sqrt(r2);
-        float c = (sdf * eta + r) / (eta2p1 * std::sqrt(rxy2 * (r2 + xi2)));
+        float c = (sdf * eta + r) / (eta2p1 * (std::sqrt(rxy2) * std::sqrt(r2 + xi2)));
         solution1[0] = c * (x * r + y * xi);
         solution1[1] = c * (y * r - x * xi);
         solution1[2] = (sdf - eta * r) / eta2p1;
         r = -r;
-        c = (sdf * eta + r) / (eta2p1 * std::sqrt(rxy2 * (r2 + xi2)));
+        c = (sdf * eta + r) / (eta2p1 * (std::sqrt(rxy2) * std::sqrt(r2 + xi2)));
         solution2[0] = c * (x * r + y * xi);
         solution2[1] = c * (y * r - x * xi);
         solution2[2] = (sdf - eta * r) / eta2p1;
-- 
2.43.0


From 2b533fc6d7417a379d2b826bb1ddd602d0927fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:26 +0000
Subject: [PATCH 5/7] fix: polmo: no division by zero for a site exactly at the
 pole

When the site vector has no equatorial component the longitude is taken
as zero, but its sine and cosine were still computed by dividing by zero
and the azimuth correction came out as NaN.
---
 src/polmo.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/polmo.cc b/src/polmo.cc
index a61911e..6a60942 100644
--- a/src/polmo.cc
+++ b/src/polmo.cc
@@ -104,9 +104,12 @@ void polmo(double m_long, double m_phi, double x_pm, double y_pm, double& t_long
     cos_phi = std::sqrt(xt * xt + yt * yt);
     if (cos_phi == 0.0) {
         xt = 1.0;
+        sin_long = 0.0;
+        cos_long = 1.0;
+    } else {
+        sin_long = yt / cos_phi;
+        cos_long = xt / cos_phi;
     }
-    sin_long = yt / cos_phi;
-    cos_long = xt / cos_phi;
 
     // return true longitude and true geodetic latitude of site
     t_long = (xt != 0.0 || yt != 0.0)? std::atan2(yt, xt): 0.0;
-- 
2.43.0


From f8d3709fa0983b392c73b2c13b1acca368509057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:42 +0000
Subject: [PATCH 6/7] fix: svd: scale the superdiagonal while cancelling a zero
 singular value

The rotations that chase a superdiagonal element out of the row of a zero
diagonal element also scale the next superdiagonal element; that was not
done, so U W VT was not A for some rank-deficient matrices.
---
 src/svd.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/svd.cc b/src/svd.cc
index 49bc8d2..b24a048 100644
--- a/src/svd.cc
+++ b/src/svd.cc
@@ -273,9 +273,11 @@ int svd(int m, int n, int mp, int np, double* a, double* w, double* v, double* w
 
                 // Cancellation of ws[l] if l>1
                 if (cancel) {
+                    c = 0.0;
                     s = 1.0;
                     for (i = l; i <= k; i++) {
                         f = s * ws[i];
+                        ws[i] *= c;
                         if (an + std::fabs(f) == an) {
                             break;
                         }
-- 
2.43.0


From 131ee6683ac08406889d27eb8735756b269805c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:54 +0000
Subject: [PATCH 7/7] fix: fitxy: no rigid model from two coincident
 measurements

---
 src/fitxy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fitxy.cc b/src/fitxy.cc
index 9367044..62d7e55 100644
--- a/src/fitxy.cc
+++ b/src/fitxy.cc
@@ -66,7 +66,7 @@ FITStatus fitxy(bool sbr, int nsamples, const XYSamples expected, const XYSample
     double b_old = 0.0;
     double c_old = 0.0;
     double d_old = 0.0;
-    double sdr2_old = 0.0;
+    double sdr2_old = -1.0;
 
     // get floating-point value of the number of samples
     auto num_samples = (const double) nsamples;
-- 
2.43.0

