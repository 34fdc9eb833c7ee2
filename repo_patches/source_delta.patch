From 36b0373f47aefcf494b7f6bbc0f51427fdbf2ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:24:45 +0000
Subject: [PATCH 01/23] Expose private routines for external checking under
 cfg(cyphus_verif)

The hooks are compiled only with RUSTFLAGS="--cfg cyphus_verif". They wrap
the linear algebra routines and the dense output of both integrators.
---
 src/dorm_prince/dp5/dense.rs |  10 +++
 src/lib.rs                   |   2 +
 src/verif_hooks.rs           | 115 +++++++++++++++++++++++++++++++++++
 3 files changed, 127 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/dorm_prince/dp5/dense.rs b/src/dorm_prince/dp5/dense.rs
index f3e4ee2..90a0494 100644
--- a/src/dorm_prince/dp5/dense.rs
+++ b/src/dorm_prince/dp5/dense.rs
@@ -49,3 +49,13 @@ impl DormandPrince5 {
                                 * (&integrator.cache.rcont4 + &(s1 * &integrator.cache.rcont5)))))))
     }
 }
+
+/// Dense output of the last step, exposed for external checking.
+#[cfg(cyphus_verif)]
+pub fn verif_dense_output<Params>(
+    integrator: &mut OdeIntegrator<Params, DormandPrince5>,
+    t: f64,
+    dt: f64,
+) -> Array1<f64> {
+    DormandPrince5::dense_output(integrator, t, dt)
+}
diff --git a/src/lib.rs b/src/lib.rs
index 4d63955..10f3d80 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4,3 +4,5 @@ pub mod ode;
 pub mod prelude;
 pub mod radau;
 pub mod rodas;
+#[cfg(cyphus_verif)]
+pub mod verif_hooks;
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..d752dcc
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,115 @@
+//! Access to crate-private routines for external checking. Only compiled with
+//! `--cfg cyphus_verif`; nothing here is part of the public interface.
+
+use crate::ode::OdeIntegrator;
+use crate::radau::Radau5;
+use ndarray::prelude::*;
+
+pub use crate::dorm_prince::dp5::dense::verif_dense_output as dp5_dense_output;
+
+pub fn radau_dense_output<Params>(
+    integrator: &mut OdeIntegrator<Params, Radau5>,
+    t: f64,
+) -> Array1<f64> {
+    Radau5.dense_output(t, integrator)
+}
+
+pub mod linalg {
+    use crate::linalg::{dec, sol};
+    use ndarray::prelude::*;
+
+    pub fn dec(n: usize, a: ArrayViewMut2<f64>, ip: ArrayViewMut1<i32>) -> usize {
+        dec::dec(n, a, ip)
+    }
+    pub fn dech(n: usize, a: ArrayViewMut2<f64>, lb: usize, ip: ArrayViewMut1<i32>) -> usize {
+        dec::dech(n, a, lb, ip)
+    }
+    pub fn decc(
+        n: usize,
+        ar: ArrayViewMut2<f64>,
+        ai: ArrayViewMut2<f64>,
+        ip: ArrayViewMut1<i32>,
+    ) -> usize {
+        dec::decc(n, ar, ai, ip)
+    }
+    pub fn dechc(
+        n: usize,
+        ar: ArrayViewMut2<f64>,
+        ai: ArrayViewMut2<f64>,
+        lb: usize,
+        ip: ArrayViewMut1<i32>,
+    ) -> usize {
+        dec::dechc(n, ar, ai, lb, ip)
+    }
+    pub fn decb(
+        n: usize,
+        a: ArrayViewMut2<f64>,
+        lb: usize,
+        ub: usize,
+        ip: ArrayViewMut1<i32>,
+    ) -> usize {
+        dec::decb(n, a, lb, ub, ip)
+    }
+    pub fn decbc(
+        n: usize,
+        ar: ArrayViewMut2<f64>,
+        ai: ArrayViewMut2<f64>,
+        lb: usize,
+        ub: usize,
+        ip: ArrayViewMut1<i32>,
+    ) -> usize {
+        dec::decbc(n, ar, ai, lb, ub, ip)
+    }
+    pub fn elmhes(n: usize, low: usize, igh: usize, a: ArrayViewMut2<f64>, inter: ArrayViewMut1<i32>) {
+        dec::elmhes(n, low, igh, a, inter)
+    }
+    pub fn sol(n: usize, a: ArrayView2<f64>, b: ArrayViewMut1<f64>, ip: ArrayView1<i32>) {
+        sol::sol(n, a, b, ip)
+    }
+    pub fn solh(n: usize, a: ArrayView2<f64>, lb: usize, b: ArrayViewMut1<f64>, ip: ArrayView1<i32>) {
+        sol::solh(n, a, lb, b, ip)
+    }
+    pub fn solc(
+        n: usize,
+        ar: ArrayView2<f64>,
+        ai: ArrayView2<f64>,
+        br: ArrayViewMut1<f64>,
+        bi: ArrayViewMut1<f64>,
+        ip: ArrayView1<i32>,
+    ) {
+        sol::solc(n, ar, ai, br, bi, ip)
+    }
+    pub fn solhc(
+        n: usize,
+        ar: ArrayView2<f64>,
+        ai: ArrayView2<f64>,
+        lb: usize,
+        br: ArrayViewMut1<f64>,
+        bi: ArrayViewMut1<f64>,
+        ip: ArrayView1<i32>,
+    ) {
+        sol::solhc(n, ar, ai, lb, br, bi, ip)
+    }
+    pub fn solb(
+        n: usize,
+        a: ArrayView2<f64>,
+        lb: usize,
+        ub: usize,
+        b: ArrayViewMut1<f64>,
+        ip: ArrayView1<i32>,
+    ) {
+        sol::solb(n, a, lb, ub, b, ip)
+    }
+    pub fn solbc(
+        n: usize,
+        ar: ArrayView2<f64>,
+        ai: ArrayView2<f64>,
+        lb: usize,
+        ub: usize,
+        br: ArrayViewMut1<f64>,
+        bi: ArrayViewMut1<f64>,
+        ip: ArrayView1<i32>,
+    ) {
+        sol::solbc(n, ar, ai, lb, ub, br, bi, ip)
+    }
+}
-- 
2.43.0


From e9405978b495b7616f4c1a05b25368f8dfc45ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:25:41 +0000
Subject: [PATCH 02/23] fix: report a zero pivot in the first elimination stage
 as singular

The decompositions returned the zero-based stage, so a matrix whose first
pivot column is zero was reported as successfully decomposed.
---
 src/linalg/dec.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/linalg/dec.rs b/src/linalg/dec.rs
index ce9925e..8e3944f 100644
--- a/src/linalg/dec.rs
+++ b/src/linalg/dec.rs
@@ -28,7 +28,7 @@ pub(crate) fn dec(n: usize, mut a: ArrayViewMut2<f64>, mut ip: ArrayViewMut1<i32
                 a[[k, k]] = t;
             }
             if t == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -89,7 +89,7 @@ pub(crate) fn dech(
                 a[[k, k]] = t;
             }
             if t == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -152,7 +152,7 @@ pub(crate) fn decc(
                 ai[[k, k]] = ti;
             }
             if tr.abs() + ti.abs() == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -243,7 +243,7 @@ pub(crate) fn dechc(
                 ai[[k, k]] = ti;
             }
             if tr.abs() + ti.abs() == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -341,7 +341,7 @@ pub(crate) fn decb(
                 a[[md, k]] = t;
             }
             if t == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -429,7 +429,7 @@ pub(crate) fn decbc(
                 ai[[md, k]] = ti;
             }
             if tr.abs() + ti.abs() == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
-- 
2.43.0


From eb5ccea0dce932732d5052e753bca1495ceb73b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:25:41 +0000
Subject: [PATCH 03/23] fix: redo the Radau5 decompositions whenever the step
 size changes

After a failed Newton iteration, and when the last step is shortened to hit
the final time, the matrices kept belonging to the previous step size.
---
 src/radau/algorithm.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index e6c8cf4..2177031 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -101,6 +101,7 @@ impl OdeAlgorithm for Radau5 {
         if integrator.t + integrator.dt * 1.0001 - integrator.tfinal * integrator.tdir >= 0.0 {
             integrator.dt = integrator.tfinal - integrator.t;
             integrator.cache.last = true;
+            integrator.cache.decompose = true;
         }
         loop {
             if integrator.cache.decompose {
@@ -130,6 +131,7 @@ impl OdeAlgorithm for Radau5 {
 
             // Solve the non-linear systems using a simplified Newton's method.
             if !Self::newton(integrator) {
+                integrator.cache.decompose = true;
                 continue;
             }
 
-- 
2.43.0


From 7fddcfe37694809eaa4e61ad050953f9d815940e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:25:41 +0000
Subject: [PATCH 04/23] fix: leave the DormandPrince5 step when the step size
 underflows

The return code was set but the loop went on, so a right-hand side that never
gives an acceptable error (e.g. NaN) made the step loop forever.
---
 src/dorm_prince/dp5/algorithm.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index 5de0b3d..fc8929e 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -71,6 +71,7 @@ impl OdeAlgorithm for DormandPrince5 {
             }
             if integrator.dt.abs() <= integrator.t.abs() * f64::EPSILON {
                 integrator.sol.retcode = OdeRetCode::DtLessThanMin;
+                return;
             }
         }
 
-- 
2.43.0


From 1fc480a0419bf9fef006796ff2f9e6eccfabfabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:25:41 +0000
Subject: [PATCH 05/23] fix: honour dtstart, dtmax and the direction in the
 first step

The starting step was always +1e-6, whatever dtstart, dtmax or the sign of
the time span.
---
 src/ode/integrator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ode/integrator.rs b/src/ode/integrator.rs
index 59ddcf7..e26c2a9 100644
--- a/src/ode/integrator.rs
+++ b/src/ode/integrator.rs
@@ -144,6 +144,7 @@ impl<'a, Params, Alg: OdeAlgorithm> OdeIntegratorBuilder<'a, Params, Alg> {
     }
     pub fn dtstart(mut self, val: f64) -> Self {
         self.opts.dtstart = val;
+        self.dt = val;
         self
     }
     pub fn dtmax(mut self, val: f64) -> Self {
@@ -207,6 +208,10 @@ impl<'a, Params, Alg: OdeAlgorithm> OdeIntegratorBuilder<'a, Params, Alg> {
         self
     }
     pub fn build(mut self) -> OdeIntegrator<'a, Params, Alg> {
+        // Start in the direction of integration and within the step limit
+        let tdir = 1f64.copysign(self.tfinal - self.t);
+        self.dt = tdir * self.dt.abs().min(self.opts.dtmax);
+
         let cache = Alg::new_cache(&mut self);
 
         let mut sol = OdeSolution::new();
@@ -224,7 +229,7 @@ impl<'a, Params, Alg: OdeAlgorithm> OdeIntegratorBuilder<'a, Params, Alg> {
             uprev: self.u,
             tprev: self.t,
             dtprev: self.dt,
-            tdir: 1f64.copysign(self.tfinal - self.t),
+            tdir,
             tfinal: self.tfinal,
             opts: self.opts,
             stats: OdeStatistics::new(),
-- 
2.43.0


From 4d249704269a63165666af700e75d35b3422af7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:25:41 +0000
Subject: [PATCH 06/23] fix: orient the Radau5 last-step test for backward
 integration

---
 src/radau/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index 2177031..24c511c 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -98,7 +98,7 @@ impl OdeAlgorithm for Radau5 {
         }
     }
     fn step<Params>(integrator: &mut OdeIntegrator<Params, Self>) {
-        if integrator.t + integrator.dt * 1.0001 - integrator.tfinal * integrator.tdir >= 0.0 {
+        if (integrator.t + integrator.dt * 1.0001 - integrator.tfinal) * integrator.tdir >= 0.0 {
             integrator.dt = integrator.tfinal - integrator.t;
             integrator.cache.last = true;
             integrator.cache.decompose = true;
-- 
2.43.0


From 15163d2acb4d53e1d15494e9808184a4968ee2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:25:41 +0000
Subject: [PATCH 07/23] fix: keep uprev up to date in Radau5

---
 src/radau/step_size_control.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/radau/step_size_control.rs b/src/radau/step_size_control.rs
index 64dd753..0b872a3 100644
--- a/src/radau/step_size_control.rs
+++ b/src/radau/step_size_control.rs
@@ -37,6 +37,7 @@ impl Radau5 {
                 integrator.cache.dtacc = integrator.dt;
                 integrator.cache.erracc = 1e-2f64.max(integrator.cache.err);
             }
+            integrator.uprev.assign(&integrator.u);
             integrator.tprev = integrator.t;
             integrator.dtprev = integrator.dt;
             integrator.t += integrator.dt;
-- 
2.43.0


From d2211907f29845d3d49316e59109fa79905aca79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:25:41 +0000
Subject: [PATCH 08/23] fix: use 0.2 - 0.75 beta as exponent of the
 DormandPrince5 controller

---
 src/dorm_prince/dp5/prepare.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dorm_prince/dp5/prepare.rs b/src/dorm_prince/dp5/prepare.rs
index 2e62a90..c5d154c 100644
--- a/src/dorm_prince/dp5/prepare.rs
+++ b/src/dorm_prince/dp5/prepare.rs
@@ -9,7 +9,7 @@ impl DormandPrince5 {
         integrator: &mut OdeIntegrator<Params, DormandPrince5>,
     ) {
         let beta = integrator.opts.beta;
-        let expo1 = 0.2 - beta.powf(0.75);
+        let expo1 = 0.2 - beta * 0.75;
         let safe = integrator.opts.safe;
         let fac1 = 1.0 / integrator.opts.facl;
         let fac2 = 1.0 / integrator.opts.facr;
-- 
2.43.0


From 731788b7efc5f277748f86998303b03ee848c6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:25:41 +0000
Subject: [PATCH 09/23] fix: scale the Jacobian difference step with the
 magnitude of u

For negative components the increment was that of a component near zero.
---
 src/ode/jacobian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode/jacobian.rs b/src/ode/jacobian.rs
index 81ee302..e93af89 100644
--- a/src/ode/jacobian.rs
+++ b/src/ode/jacobian.rs
@@ -21,7 +21,7 @@ pub(crate) fn jacobian_u<Dudt, Dfdu, Params>(
             dudt(du0.view_mut(), u.view(), t, p);
             for i in 0..u.len() {
                 let usafe = utemp[i];
-                let del = (f64::EPSILON * usafe.max(1e-5)).sqrt();
+                let del = (f64::EPSILON * usafe.abs().max(1e-5)).sqrt();
                 utemp[i] = usafe + del;
                 dudt(du1.view_mut(), utemp.view(), t, p);
                 for j in 0..u.len() {
-- 
2.43.0


From 980585625b32f835abcf1fbea933002c259f25d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:25:41 +0000
Subject: [PATCH 10/23] fix: include the last row in the complex Hessenberg
 back substitution

---
 src/linalg/sol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/sol.rs b/src/linalg/sol.rs
index ee0eb3e..1111545 100644
--- a/src/linalg/sol.rs
+++ b/src/linalg/sol.rs
@@ -152,7 +152,7 @@ pub(crate) fn solhc(
             bi[kb] = prodi / den;
             let tr = -br[kb];
             let ti = -bi[kb];
-            for i in 0..km1 {
+            for i in 0..(km1 + 1) {
                 prodr = ar[[i, kb]] * tr - ai[[i, kb]] * ti;
                 prodi = ai[[i, kb]] * tr + ar[[i, kb]] * ti;
                 br[i] += prodr;
-- 
2.43.0


From 5ae6b4b1d96c06a5f0e6dadec919b9ac92a9f51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:25:41 +0000
Subject: [PATCH 11/23] fix: eliminate the whole band in the banded
 decompositions

The last subdiagonal was skipped in the pivot search and the elimination, and
the row to swap with was not tracked across columns.
---
 src/linalg/dec.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/linalg/dec.rs b/src/linalg/dec.rs
index 8e3944f..da31512 100644
--- a/src/linalg/dec.rs
+++ b/src/linalg/dec.rs
@@ -328,7 +328,7 @@ pub(crate) fn decb(
             let kp1 = k + 1;
             let mut m = md;
             let mdl = lb.min(n - k - 1) + md;
-            for i in md1..mdl {
+            for i in md1..(mdl + 1) {
                 if a[[i, k]].abs() > a[[m, k]].abs() {
                     m = i;
                 }
@@ -350,11 +350,11 @@ pub(crate) fn decb(
                 a[[i, k]] *= -t;
             }
             ju = ju.max(ub + ip[k] as usize + 1).min(n);
-            let mm = md;
+            let mut mm = md;
             if ju >= kp1 {
                 for j in kp1..ju {
-                    m = m - 1;
-                    let mm = mm - 1;
+                    m -= 1;
+                    mm -= 1;
                     t = a[[m, j]];
                     if m != mm {
                         a[[m, j]] = a[[mm, j]];
@@ -362,7 +362,7 @@ pub(crate) fn decb(
                     }
                     if t != 0.0 {
                         let jk = j - k;
-                        for i in md1..mdl {
+                        for i in md1..(mdl + 1) {
                             let ijk = i - jk;
                             a[[ijk, j]] += a[[i, k]] * t;
                         }
@@ -413,7 +413,7 @@ pub(crate) fn decbc(
             let kp1 = k + 1;
             let mut m = md;
             let mdl = lb.min(n - k - 1) + md;
-            for i in md1..mdl {
+            for i in md1..(mdl + 1) {
                 if ar[[i, k]].abs() + ai[[i, k]].abs() > ar[[m, k]].abs() + ai[[m, k]].abs() {
                     m = i;
                 }
@@ -421,7 +421,7 @@ pub(crate) fn decbc(
             ip[k] = (m + k - md) as i32;
             let mut tr = ar[[m, k]];
             let mut ti = ai[[m, k]];
-            if m != k {
+            if m != md {
                 ip[n - 1] = -ip[n - 1];
                 ar[[m, k]] = ar[[md, k]];
                 ai[[m, k]] = ai[[md, k]];
@@ -436,7 +436,7 @@ pub(crate) fn decbc(
             let den = tr * tr + ti * ti;
             tr = tr / den;
             ti = -ti / den;
-            for i in md1..mdl {
+            for i in md1..(mdl + 1) {
                 let prodr = ar[[i, k]] * tr - ai[[i, k]] * ti;
                 let prodi = ai[[i, k]] * tr + ar[[i, k]] * ti;
                 ar[[i, k]] = -prodr;
@@ -459,7 +459,7 @@ pub(crate) fn decbc(
                     if tr.abs() + ti.abs() == 0.0 {
                     } else if ti == 0.0 {
                         let jk = j - k;
-                        for i in md1..mdl {
+                        for i in md1..(mdl + 1) {
                             let ijk = i - jk;
                             let prodr = ar[[i, k]] * tr;
                             let prodi = ai[[i, k]] * tr;
@@ -468,7 +468,7 @@ pub(crate) fn decbc(
                         }
                     } else if tr == 0.0 {
                         let jk = j - k;
-                        for i in md1..mdl {
+                        for i in md1..(mdl + 1) {
                             let ijk = i - jk;
                             let prodr = -ai[[i, k]] * ti;
                             let prodi = ar[[i, k]] * ti;
@@ -477,7 +477,7 @@ pub(crate) fn decbc(
                         }
                     } else {
                         let jk = j - k;
-                        for i in md1..mdl {
+                        for i in md1..(mdl + 1) {
                             let ijk = i - jk;
                             let prodr = ar[[i, k]] * tr - ai[[i, k]] * ti;
                             let prodi = ai[[i, k]] * tr + ar[[i, k]] * ti;
-- 
2.43.0


From e51e6380651edc3246607de45458a78493bfd408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:25:41 +0000
Subject: [PATCH 12/23] fix: avoid index underflow in the banded solves

The solves panicked for systems larger than the band and for diagonal
matrices, and the complex solve did nothing for a single equation.
---
 src/linalg/sol.rs | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/linalg/sol.rs b/src/linalg/sol.rs
index 1111545..eb39811 100644
--- a/src/linalg/sol.rs
+++ b/src/linalg/sol.rs
@@ -176,7 +176,6 @@ pub(crate) fn solb(
 ) {
     let md = lb + ub;
     let md1 = md + 1;
-    let mdm = md - 1;
     let nm1 = n - 1;
     if n != 1 {
         if lb != 0 {
@@ -196,10 +195,9 @@ pub(crate) fn solb(
             let kb = n - k - 1;
             b[kb] = b[kb] / a[[md, kb]];
             let t = -b[kb];
-            let kmd = md - kb;
-            let lm = 0.max(kmd);
-            for i in lm..(mdm + 1) {
-                let imd = i - kmd;
+            let lm = md.saturating_sub(kb);
+            for i in lm..md {
+                let imd = i + kb - md;
                 b[imd] += a[[i, kb]] * t;
             }
         }
@@ -219,7 +217,6 @@ pub(crate) fn solbc(
 ) {
     let md = lb + ub;
     let md1 = md + 1;
-    let mdm = md - 1;
     let nm1 = n - 1;
     if n != 1 {
         if lb != 0 {
@@ -250,22 +247,21 @@ pub(crate) fn solbc(
             bi[kb] = prodi / den;
             let tr = -br[kb];
             let ti = -bi[kb];
-            let kmd = md - kb;
-            let lm = 0.max(kmd);
-            for i in lm..(mdm + 1) {
-                let imd = i - kmd;
+            let lm = md.saturating_sub(kb);
+            for i in lm..md {
+                let imd = i + kb - md;
                 prodr = ar[[i, kb]] * tr - ai[[i, kb]] * ti;
                 prodi = ai[[i, kb]] * tr + ar[[i, kb]] * ti;
                 br[imd] += prodr;
                 bi[imd] += prodi;
             }
         }
-        let den = ar[[md, 0]] * ar[[md, 0]] + ai[[md, 0]] * ai[[md, 0]];
-        let prodr = br[0] * ar[[md, 0]] + bi[0] * ai[[md, 0]];
-        let prodi = bi[0] * ar[[md, 0]] - br[0] * ai[[md, 0]];
-        br[0] = prodr / den;
-        bi[0] = prodi / den;
     }
+    let den = ar[[md, 0]] * ar[[md, 0]] + ai[[md, 0]] * ai[[md, 0]];
+    let prodr = br[0] * ar[[md, 0]] + bi[0] * ai[[md, 0]];
+    let prodi = bi[0] * ar[[md, 0]] - br[0] * ai[[md, 0]];
+    br[0] = prodr / den;
+    bi[0] = prodi / den;
 }
 
 #[cfg(test)]
-- 
2.43.0


From 39ad41157a2cea2107c9cee1f50dafef3b4e309e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:25:41 +0000
Subject: [PATCH 13/23] fix: make elmhes a similarity transformation

The column update changed the wrong entry, a zero entry ended the reduction
early, and a 1x1 matrix underflowed.
---
 src/linalg/dec.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/linalg/dec.rs b/src/linalg/dec.rs
index da31512..486514f 100644
--- a/src/linalg/dec.rs
+++ b/src/linalg/dec.rs
@@ -504,11 +504,11 @@ pub(crate) fn elmhes(
     mut a: ArrayViewMut2<f64>,
     mut inter: ArrayViewMut1<i32>,
 ) {
-    let la = igh - 2;
     let kp1 = low + 1;
-    if la < kp1 {
+    if igh < kp1 + 2 {
         return;
     }
+    let la = igh - 2;
     for m in kp1..(la + 1) {
         let mm1 = m - 1;
         let mut x: f64 = 0.0;
@@ -538,7 +538,7 @@ pub(crate) fn elmhes(
             for i in mp1..igh {
                 let mut y = a[[i, mm1]];
                 if y == 0.0 {
-                    return;
+                    continue;
                 }
                 y = y / x;
                 a[[i, mm1]] = y;
@@ -546,7 +546,7 @@ pub(crate) fn elmhes(
                     a[[i, j]] -= y * a[[m, j]];
                 }
                 for j in 0..igh {
-                    a[[i, m]] += y * a[[j, i]];
+                    a[[j, m]] += y * a[[j, i]];
                 }
             }
         }
-- 
2.43.0


From 6d48c154915d26e28a6b60e012e64ccd2da850be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:25:41 +0000
Subject: [PATCH 14/23] fix: evaluate the Radau5 dense output as the
 collocation polynomial

---
 src/radau/continuous_output.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radau/continuous_output.rs b/src/radau/continuous_output.rs
index 59d5565..38c4771 100644
--- a/src/radau/continuous_output.rs
+++ b/src/radau/continuous_output.rs
@@ -21,7 +21,7 @@ impl Radau5 {
         let mut res: Array1<f64> = Array1::<f64>::zeros(n);
 
         res.assign(&((s - c1m1) * &integrator.cache.cont.slice(s![(3 * n)..])));
-        res = (s - c2m1) * (res + s * &integrator.cache.cont.slice(s![(2 * n)..(3 * n)]));
+        res = (s - c2m1) * (res + &integrator.cache.cont.slice(s![(2 * n)..(3 * n)]));
         res = s * (res + &integrator.cache.cont.slice(s![n..2 * n]));
         res + &integrator.cache.cont.slice(s![0..n])
     }
-- 
2.43.0


From 6ccc114f3316f3041288686e7e77ae8be8ce6eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:25:41 +0000
Subject: [PATCH 15/23] fix: restart from the state a callback leaves behind

The derivative stored at the end of the previous step was reused although the
callback may have changed u, t or the parameters.
---
 src/dorm_prince/dp5/algorithm.rs | 10 ++++++++++
 src/radau/algorithm.rs           | 14 ++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index fc8929e..b18c2da 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -58,6 +58,16 @@ impl OdeAlgorithm for DormandPrince5 {
     where
         Self: Sized,
     {
+        if integrator.callback.is_some() {
+            // The callback may have changed the state since the last step
+            (integrator.dudt)(
+                integrator.cache.du.view_mut(),
+                integrator.u.view(),
+                integrator.t,
+                &integrator.params,
+            );
+            integrator.stats.function_evals += 1;
+        }
         if (integrator.t + 1.01 * integrator.dt - integrator.tfinal) * integrator.tdir > 0.0 {
             integrator.dt = integrator.tfinal - integrator.t;
             integrator.cache.last = true;
diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index 24c511c..dd81ae1 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -98,6 +98,20 @@ impl OdeAlgorithm for Radau5 {
         }
     }
     fn step<Params>(integrator: &mut OdeIntegrator<Params, Self>) {
+        if integrator.callback.is_some() {
+            // The callback may have changed the state since the last step
+            for i in 0..integrator.u.len() {
+                integrator.cache.scal[i] =
+                    integrator.opts.abstol + integrator.opts.reltol * integrator.u[i].abs();
+            }
+            (integrator.dudt)(
+                integrator.cache.u0.view_mut(),
+                integrator.u.view(),
+                integrator.t,
+                &integrator.params,
+            );
+            integrator.stats.function_evals += 1;
+        }
         if (integrator.t + integrator.dt * 1.0001 - integrator.tfinal) * integrator.tdir >= 0.0 {
             integrator.dt = integrator.tfinal - integrator.t;
             integrator.cache.last = true;
-- 
2.43.0


From d37342c20c27bb10d7598dd30fb880986674bcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:25:41 +0000
Subject: [PATCH 16/23] fix: reject a Radau5 step whose error estimate is NaN

f64::max turned NaN into 1e-10, so the step was accepted.
---
 src/radau/error_estimate.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/radau/error_estimate.rs b/src/radau/error_estimate.rs
index 8b6b79d..4169f93 100644
--- a/src/radau/error_estimate.rs
+++ b/src/radau/error_estimate.rs
@@ -30,7 +30,10 @@ impl Radau5 {
         for i in 0..n {
             integrator.cache.err += (integrator.cache.cont[i] / integrator.cache.scal[i]).powi(2);
         }
-        integrator.cache.err = (integrator.cache.err / n as f64).sqrt().max(1.0e-10);
+        integrator.cache.err = (integrator.cache.err / n as f64).sqrt();
+        if integrator.cache.err < 1.0e-10 {
+            integrator.cache.err = 1.0e-10;
+        }
 
         if integrator.cache.err < 1.0 {
             return;
@@ -62,7 +65,10 @@ impl Radau5 {
                 integrator.cache.err +=
                     (integrator.cache.cont[i] / integrator.cache.scal[i]).powi(2);
             }
-            integrator.cache.err = (integrator.cache.err / n as f64).sqrt().max(1.0e-10);
+            integrator.cache.err = (integrator.cache.err / n as f64).sqrt();
+            if integrator.cache.err < 1.0e-10 {
+                integrator.cache.err = 1.0e-10;
+            }
         }
     }
 }
-- 
2.43.0


From e27de4ba9a35bd74a192d8c0ca03884dc63a6e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:25:41 +0000
Subject: [PATCH 17/23] fix: count Jacobian evaluations

---
 src/radau/dec.rs               | 1 +
 src/radau/newton.rs            | 3 +++
 src/radau/step_size_control.rs | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/radau/dec.rs b/src/radau/dec.rs
index 04569fa..10748b6 100644
--- a/src/radau/dec.rs
+++ b/src/radau/dec.rs
@@ -78,6 +78,7 @@ impl Radau5 {
                 integrator.t,
                 &integrator.params,
             );
+            integrator.stats.jacobian_evals += 1;
         }
         return false;
     }
diff --git a/src/radau/newton.rs b/src/radau/newton.rs
index 8eae3fd..9117650 100644
--- a/src/radau/newton.rs
+++ b/src/radau/newton.rs
@@ -77,6 +77,7 @@ impl Radau5 {
                         integrator.t,
                         &integrator.params,
                     );
+                    integrator.stats.jacobian_evals += 1;
                 }
                 return false;
             }
@@ -176,6 +177,7 @@ impl Radau5 {
                                 integrator.t,
                                 &integrator.params,
                             );
+                            integrator.stats.jacobian_evals += 1;
                         }
                         return false;
                     }
@@ -193,6 +195,7 @@ impl Radau5 {
                             integrator.t,
                             &integrator.params,
                         );
+                        integrator.stats.jacobian_evals += 1;
                     }
                     return false;
                 }
diff --git a/src/radau/step_size_control.rs b/src/radau/step_size_control.rs
index 0b872a3..bad7dc1 100644
--- a/src/radau/step_size_control.rs
+++ b/src/radau/step_size_control.rs
@@ -117,6 +117,7 @@ impl Radau5 {
                     integrator.t,
                     &integrator.params,
                 );
+                integrator.stats.jacobian_evals += 1;
             }
         } else {
             // step is rejected
@@ -141,6 +142,7 @@ impl Radau5 {
                     integrator.t,
                     &integrator.params,
                 );
+                integrator.stats.jacobian_evals += 1;
             }
         }
     }
-- 
2.43.0


From 82af56ebc20a493418749c8537f2c03adb1f9b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:25:41 +0000
Subject: [PATCH 18/23] fix: do not panic in DormandPrince5 when max_stiff is
 zero

---
 src/dorm_prince/dp5/prepare.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dorm_prince/dp5/prepare.rs b/src/dorm_prince/dp5/prepare.rs
index c5d154c..7c0668d 100644
--- a/src/dorm_prince/dp5/prepare.rs
+++ b/src/dorm_prince/dp5/prepare.rs
@@ -30,8 +30,9 @@ impl DormandPrince5 {
             integrator.stats.accepts += 1;
 
             /* stiffness detection */
-            if integrator.stats.accepts % integrator.opts.max_stiff == 0
-                || integrator.cache.n_stiff > 0
+            if integrator.cache.n_stiff > 0
+                || (integrator.opts.max_stiff > 0
+                    && integrator.stats.accepts % integrator.opts.max_stiff == 0)
             {
                 let mut stnum = 0.0;
                 let mut stden = 0.0;
-- 
2.43.0


From df67a2fa3eee91bb25498742b753e00dd3164a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:25:41 +0000
Subject: [PATCH 19/23] fix: renew the Jacobian after slow Newton convergence

---
 src/radau/newton.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radau/newton.rs b/src/radau/newton.rs
index 9117650..4c28ec1 100644
--- a/src/radau/newton.rs
+++ b/src/radau/newton.rs
@@ -168,7 +168,7 @@ impl Radau5 {
                         integrator.dt *= integrator.cache.dtfac;
                         integrator.cache.reject = true;
                         integrator.cache.last = false;
-                        if integrator.cache.caljac {
+                        if !integrator.cache.caljac {
                             jacobian_u(
                                 integrator.dudt,
                                 integrator.dfdu,
-- 
2.43.0


From f212a6d1a2503eef28ae9d0723c9ad632f5a0799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:25:41 +0000
Subject: [PATCH 20/23] fix: start the DormandPrince5 controller with a neutral
 history

A stored error of zero made the first accepted step always shrink the step
size to its lower limit.
---
 src/dorm_prince/dp5/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index b18c2da..5b12d1a 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -33,7 +33,7 @@ impl OdeAlgorithm for DormandPrince5 {
             n_nonstiff: 0,
             reject: false,
             last: false,
-            facold: 0.0, // previous ratio of dtnew/dt
+            facold: 1e-4, // previous ratio of dtnew/dt
             dtlamb: 0.0,
             k2: Array1::<f64>::zeros(n),
             k3: Array1::<f64>::zeros(n),
-- 
2.43.0


From af4bcbf47ab70f150a8adf07b0465f14c71c747a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:25:41 +0000
Subject: [PATCH 21/23] fix: yield the final state from the iterators and stop
 there

The state at the final time was never yielded, and stepping a finished
integrator recorded further steps.
---
 src/ode/integrator.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/ode/integrator.rs b/src/ode/integrator.rs
index e26c2a9..61a8d95 100644
--- a/src/ode/integrator.rs
+++ b/src/ode/integrator.rs
@@ -245,6 +245,9 @@ impl<'a, Params, Alg: OdeAlgorithm> OdeIntegrator<'a, Params, Alg> {
     /// Step the ODE to the next state. Returns solution if finished and
     /// None otherwise.
     pub fn step(&mut self) -> Option<usize> {
+        if self.sol.retcode != super::code::OdeRetCode::Continue {
+            return None;
+        }
         Alg::step(self);
         match self.callback {
             Some(f) => f(self),
@@ -305,10 +308,12 @@ impl<'a, Params, Alg: OdeAlgorithm> Iterator for OdeIntegratorIterator<'a, Param
     type Item = (f64, Array1<f64>);
 
     fn next(&mut self) -> Option<(f64, Array1<f64>)> {
-        let res = self.integrator.step();
-        match res {
-            Some(_i) => Some((self.integrator.t, self.integrator.u.clone())),
-            None => None,
+        let accepts = self.integrator.stats.accepts;
+        self.integrator.step();
+        if self.integrator.stats.accepts > accepts {
+            Some((self.integrator.t, self.integrator.u.clone()))
+        } else {
+            None
         }
     }
 }
@@ -356,10 +361,12 @@ impl<'a, Params, Alg: OdeAlgorithm> Iterator for OdeIntegratorMutIterator<'a, Pa
     type Item = (f64, Array1<f64>);
 
     fn next(&mut self) -> Option<(f64, Array1<f64>)> {
-        let res = (*self).integrator.step();
-        match res {
-            Some(_i) => Some((self.integrator.t, self.integrator.u.clone())),
-            None => None,
+        let accepts = self.integrator.stats.accepts;
+        self.integrator.step();
+        if self.integrator.stats.accepts > accepts {
+            Some((self.integrator.t, self.integrator.u.clone()))
+        } else {
+            None
         }
     }
 }
-- 
2.43.0


From 189c386cf517a3ddb8506044af9802ca5f97f041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:25:41 +0000
Subject: [PATCH 22/23] fix: allow exactly max_steps steps

DormandPrince5 took one step more than allowed and Radau5 one less.
---
 src/dorm_prince/dp5/algorithm.rs | 2 +-
 src/radau/algorithm.rs           | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index 5b12d1a..07284bd 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -89,7 +89,7 @@ impl OdeAlgorithm for DormandPrince5 {
         integrator.sol.ts.push(integrator.t);
         integrator.sol.us.push(integrator.u.clone());
 
-        if integrator.stats.steps > integrator.opts.max_steps {
+        if integrator.stats.steps >= integrator.opts.max_steps {
             integrator.sol.retcode = OdeRetCode::MaxIters;
         }
         if integrator.cache.last {
diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index dd81ae1..527ba51 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -130,13 +130,13 @@ impl OdeAlgorithm for Radau5 {
                 }
             }
 
-            integrator.stats.steps += 1;
-
             // Check that we haven't passed max allowed steps
             if integrator.stats.steps >= integrator.opts.max_steps {
                 integrator.sol.retcode = OdeRetCode::MaxIters;
                 return;
             }
+            integrator.stats.steps += 1;
+
             // Check that the step size isn't too small
             if 0.1 * (integrator.dt).abs() <= (integrator.t).abs() * f64::EPSILON {
                 integrator.sol.retcode = OdeRetCode::DtLessThanMin;
-- 
2.43.0


From 1d2c03df9bff0d6115ea5856b48678045dd8cde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:55 +0000
Subject: [PATCH 23/23] fix: decide at the start of a Radau5 step whether it is
 the last

A callback that changes the time after the last step had been chosen made
the integration end, with success, away from the final time.
---
 src/radau/algorithm.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index 527ba51..f2a8f99 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -112,6 +112,8 @@ impl OdeAlgorithm for Radau5 {
             );
             integrator.stats.function_evals += 1;
         }
+        // Whether this is the last step is decided from where the step starts
+        integrator.cache.last = false;
         if (integrator.t + integrator.dt * 1.0001 - integrator.tfinal) * integrator.tdir >= 0.0 {
             integrator.dt = integrator.tfinal - integrator.t;
             integrator.cache.last = true;
-- 
2.43.0

