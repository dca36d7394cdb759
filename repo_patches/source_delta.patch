From efd9d6dfb15507c96f5696cd9d17e917a9e0c77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:16 +0000
Subject: [PATCH 01/15] fix: do not leave order 1 through JumpToOrder0 with a
 delta-shape W

JumpBackToOrder1 draws two independent imaginary times and keeps the delta
flag of the W line, so a delta W (both ends at the same time) that was
removed by JumpToOrder0 came back with two different times: the diagram then
held a delta line between unequal times and the pair of updates was not
reversible.
---
 src/module/markov/markov.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/module/markov/markov.cpp b/src/module/markov/markov.cpp
index 53faf3c..04a5531 100644
--- a/src/module/markov/markov.cpp
+++ b/src/module/markov/markov.cpp
@@ -1586,6 +1586,10 @@ void Markov::JumpToOrder0()
     if (Ver1->R != Ver2->R)
         return;
 
+    //JumpBackToOrder1 draws two independent times, so it can not recreate a delta-shape W
+    if (Ver1->NeighW()->IsDelta)
+        return;
+
     Complex weightRatio;
     weightRatio = weight::Norm::Weight() / Diag->Weight;
 
-- 
2.43.0


From 9e4ef69daa77365ba22ff34e4eb0439dcdff5ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:45 +0000
Subject: [PATCH 02/15] fix: add and subtract a real number only to the real
 part of a complex one

operator+(real, Complex) and operator+(Complex, real) added the real number to the
imaginary part too, operator-(real, Complex) returned the negative of the difference
and operator-(Complex, real) added. arg() of a negative real number was 0 instead of
pi, and pow(Complex, real) tested the constant 0.0 instead of its argument, so it
always returned 0 or 1.
---
 src/utility/complex.cpp | 8 ++++----
 src/utility/complex.h   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/utility/complex.cpp b/src/utility/complex.cpp
index 154eb7b..9799407 100644
--- a/src/utility/complex.cpp
+++ b/src/utility/complex.cpp
@@ -134,12 +134,12 @@ Complex operator+(const Complex& lhs, const Complex& rhs)
 
 Complex operator+(real lhs, const Complex& rhs)
 {
-    return Complex(rhs.Re + lhs, rhs.Im + lhs);
+    return Complex(lhs + rhs.Re, rhs.Im);
 }
 
 Complex operator+(const Complex& lhs, real rhs)
 {
-    return Complex(lhs.Re + rhs, lhs.Im + rhs);
+    return Complex(lhs.Re + rhs, lhs.Im);
 }
 
 Complex operator+(const Complex& lhs)
@@ -154,12 +154,12 @@ Complex operator-(const Complex& lhs, const Complex& rhs)
 
 Complex operator-(real lhs, const Complex& rhs)
 {
-    return Complex(rhs.Re - lhs, rhs.Im - lhs);
+    return Complex(lhs - rhs.Re, -rhs.Im);
 }
 
 Complex operator-(const Complex& lhs, real rhs)
 {
-    return Complex(lhs.Re + rhs, lhs.Im + rhs);
+    return Complex(lhs.Re - rhs, lhs.Im);
 }
 
 Complex operator-(const Complex& c)
diff --git a/src/utility/complex.h b/src/utility/complex.h
index d021ba8..6729483 100644
--- a/src/utility/complex.h
+++ b/src/utility/complex.h
@@ -98,7 +98,7 @@ inline real mod(const Complex& c)
 
 inline real arg(const Complex& c)
 {
-    return c.Im != 0.0 ? atan2(c.Im, c.Re) : 0.0;
+    return c.Im != 0.0 || c.Re < 0.0 ? atan2(c.Im, c.Re) : 0.0;
 }
 
 inline Complex phase(const Complex& c)
@@ -151,7 +151,7 @@ inline Complex pow(const Complex& z, const Complex& w)
 
 inline Complex pow(const Complex& z, real u)
 {
-    if (IsZero(0.0))
+    if (IsZero(z))
         return u == 0.0 ? 1.0 : 0.0;
     real logr = 0.5 * log(mod2(z));
     real theta = u * arg(z);
-- 
2.43.0


From c710adb2950928e0eff05057e4fcd6f64e66eddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:45 +0000
Subject: [PATCH 03/15] fix: refuse to add a component to a full bundle

Add() let the component number MAX_BUNDLE through and read and wrote one past the end
of the table of components.
---
 src/module/diagram/component_bundle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/diagram/component_bundle.cpp b/src/module/diagram/component_bundle.cpp
index d9136b4..46f8780 100644
--- a/src/module/diagram/component_bundle.cpp
+++ b/src/module/diagram/component_bundle.cpp
@@ -32,7 +32,7 @@ string Bundle<T>::BundleName()
 template <typename T>
 T *Bundle<T>::Add()
 {
-    if (_available_space > MAX_BUNDLE)
+    if (_available_space >= MAX_BUNDLE)
         ABORT("Too many objects >=" << MAX_BUNDLE);
     T *address = _component_name[_available_space];
 
-- 
2.43.0


From 52617f5d2f655594735a3bc47fb0fd1ce93e6c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:25 +0000
Subject: [PATCH 04/15] fix: recomputing a diagram without a worm no longer
 marks interactions at the former worm ends

---
 src/module/diagram/diagram.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/diagram/diagram.cpp b/src/module/diagram/diagram.cpp
index ad15532..8568941 100644
--- a/src/module/diagram/diagram.cpp
+++ b/src/module/diagram/diagram.cpp
@@ -146,7 +146,7 @@ bool Diagram::FixDiagram()
         vertex vin = w->NeighVer(IN);
         vertex vout = w->NeighVer(OUT);
 
-        w->IsWorm = (vin==Worm.Ira || vin==Worm.Masha || vout==Worm.Ira ||vout==Worm.Masha);
+        w->IsWorm = IsWorm(vin) || IsWorm(vout);
 
         vin->nW = w;
         vin->Dir = IN;
-- 
2.43.0


From 909c986b61a42255a4045c9ebbea99b5f1676834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:16 +0000
Subject: [PATCH 05/15] fix: return a result from reading the basis files and
 from listening to a message that cannot be applied

---
 src/environment/envMonteCarlo.cpp | 1 +
 src/module/weight/weight.cpp      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/environment/envMonteCarlo.cpp b/src/environment/envMonteCarlo.cpp
index 9f29913..1b164f4 100644
--- a/src/environment/envMonteCarlo.cpp
+++ b/src/environment/envMonteCarlo.cpp
@@ -202,4 +202,5 @@ bool EnvMonteCarlo::ListenToMessage()
 
         return true;
     }
+    return false;
 }
diff --git a/src/module/weight/weight.cpp b/src/module/weight/weight.cpp
index 1445851..f3a85b2 100644
--- a/src/module/weight/weight.cpp
+++ b/src/module/weight/weight.cpp
@@ -198,5 +198,6 @@ bool weight::Weight::_LoadBasis(real Beta)
     _Number=_Basis.Get<real>("Number");
     _basis=_Basis.Get<vector<basis>>("Basis");
     _BoseBasis.swap(_basis);
+    return true;
 }
 
-- 
2.43.0


From 2a87b273607ede3112164c6db48eee2f620a2d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:31 +0000
Subject: [PATCH 06/15] fix: start without vertex functions (the pointers were
 not initialised)

---
 src/module/weight/weight.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/module/weight/weight.cpp b/src/module/weight/weight.cpp
index f3a85b2..3939aa9 100644
--- a/src/module/weight/weight.cpp
+++ b/src/module/weight/weight.cpp
@@ -22,6 +22,8 @@ weight::Weight::Weight(bool IsAllSymmetric)
     Polar = nullptr;
     G = nullptr;
     W = nullptr;
+    GammaG = nullptr;
+    GammaW = nullptr;
 }
 
 weight::Weight::~Weight()
-- 
2.43.0


From cbf48b3b1e2c4d58d1ff7f916cc588d52493dd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:06 +0000
Subject: [PATCH 07/15] fix: keep the normalisation of the measured functions
 consistent when the temperature changes

The normalisation factor and the stored inverse temperature kept their old
values and the accumulated norm was scaled the wrong way, so the measured
functions changed at every annealing step and new samples were normalised
with the old inverse temperature.
---
 src/module/weight/weight_estimator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/module/weight/weight_estimator.cpp b/src/module/weight/weight_estimator.cpp
index fddd18f..35b2a85 100644
--- a/src/module/weight/weight_estimator.cpp
+++ b/src/module/weight/weight_estimator.cpp
@@ -39,7 +39,10 @@ void WeightEstimator::Anneal(real Beta)
     //real NormFactor = 1.0 / _NormAccu * _Norm;
     //has the same value before Beta is changed
     //so that GetWeightArray will give a same weight function
-    _NormAccu *= pow((Beta / _Beta), 2.0);
+    real ratio = pow((_Beta / Beta), 2.0);
+    _Norm *= ratio;
+    _NormAccu *= ratio;
+    _Beta = Beta;
 }
 
 void WeightEstimator::MeasureNorm(real weight)
-- 
2.43.0


From 7a1c521006470a0448c372b9a6f5f45cb85aef82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:32 +0000
Subject: [PATCH 08/15] fix: carry the vertex functions over to the new
 temperature when annealing

Their time bins, period and normalisation kept the old inverse temperature.
---
 src/module/weight/gamma3.cpp | 22 ++++++++++++++++++++++
 src/module/weight/gamma3.h   |  2 ++
 src/module/weight/weight.cpp |  4 ++++
 3 files changed, 28 insertions(+)

diff --git a/src/module/weight/gamma3.cpp b/src/module/weight/gamma3.cpp
index a953a96..885657f 100755
--- a/src/module/weight/gamma3.cpp
+++ b/src/module/weight/gamma3.cpp
@@ -167,6 +167,17 @@ Dictionary GammaGClass::WeightToDict()
 }
 
 
+void GammaGClass::Reset(real Beta)
+{
+    //keep the measured function (_WeightAccu/_NormAccu*_Norm) the same
+    real ratio = pow(_Beta / Beta, 3.0);
+    _Norm *= ratio;
+    _NormAccu *= ratio;
+    _Map = IndexMapSPIN2(Beta, _Map.MaxTauBin, _Map.Lat, _Map.Symmetry);
+    _Beta = Beta;
+    _dBetaInverse = _MaxTauBin/_Beta;
+}
+
 GammaWClass::GammaWClass(const Lattice &lat, real beta, uint MaxTauBinTiny,  std::vector<basis> & BoseBasis, real Norm)
         : _Map(IndexMapSPIN4(beta, MaxTauBinTiny, lat, TauSymmetric))
 {
@@ -541,3 +552,14 @@ Dictionary GammaWClass::WeightToDict()
 {
     return _Weight.ToDict();
 }
+
+void GammaWClass::Reset(real Beta)
+{
+    //keep the measured function (_WeightAccu/_NormAccu*_Norm) the same
+    real ratio = pow(_Beta / Beta, 3.0);
+    _Norm *= ratio;
+    _NormAccu *= ratio;
+    _Map = IndexMapSPIN4(Beta, _Map.MaxTauBin, _Map.Lat, _Map.Symmetry);
+    _Beta = Beta;
+    _dBetaInverse = _MaxTauBinTiny/_Beta;
+}
diff --git a/src/module/weight/gamma3.h b/src/module/weight/gamma3.h
index 2d17c42..ed185d5 100755
--- a/src/module/weight/gamma3.h
+++ b/src/module/weight/gamma3.h
@@ -33,6 +33,7 @@ namespace weight {
 
         Dictionary StatisToDict();
         Dictionary WeightToDict();
+        void Reset(real Beta);
 
         Complex Weight(const Site &, const Site &, const Site &, real, real, real,
                        spin, spin, spin) const;
@@ -71,6 +72,7 @@ namespace weight {
         bool WeightFromDict(const Dictionary &);
         Dictionary StatisToDict();
         Dictionary WeightToDict();
+        void Reset(real Beta);
 
         Complex Weight(const Site &, const Site &, const Site &, real, real, real,
                        spin*, spin*, spin) const;
diff --git a/src/module/weight/weight.cpp b/src/module/weight/weight.cpp
index 3939aa9..748c466 100644
--- a/src/module/weight/weight.cpp
+++ b/src/module/weight/weight.cpp
@@ -66,6 +66,10 @@ void weight::Weight::Anneal(const ParaMC &para)
     W->Reset(para.Beta);
     Sigma->Reset(para.Beta);
     Polar->Reset(para.Beta);
+    if (GammaG != nullptr)
+        GammaG->Reset(para.Beta);
+    if (GammaW != nullptr)
+        GammaW->Reset(para.Beta);
 }
 
 bool weight::Weight::FromDict(const Dictionary &dict, flag _flag, const para::ParaMC &para)
-- 
2.43.0


From c86a7362ab8f298423954a36606e7ed681571287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:32 +0000
Subject: [PATCH 09/15] fix: printing the numbers of configurations no longer
 overwrites the worm reweighting factor

It was set to the bare ratio of the numbers (NaN before the first worm), which
was saved and used after the next reset or restart.
---
 src/module/markov/markov_monitor.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/module/markov/markov_monitor.cpp b/src/module/markov/markov_monitor.cpp
index b78d2ba..e6a0ce9 100644
--- a/src/module/markov/markov_monitor.cpp
+++ b/src/module/markov/markov_monitor.cpp
@@ -126,7 +126,6 @@ void MarkovMonitor::PrintOrderReWeight()
         output << "Order0 :" << weight[0] << " Order" << i << " :" << weight[i] << endl;
     }
 
-    Para->WormSpaceReweight = phyweight / wormweight;
     output << "Worm confs:" << wormweight << " Physics confs: " << phyweight <<  endl;
     LOG_INFO(output.str());
 
-- 
2.43.0


From f6f62e5bfa291c0ba58ad32664cc62e2d33f8f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:01 +0000
Subject: [PATCH 10/15] fix: start the normalisation of the W vertex function
 at zero

The constructor of GammaWClass left _NormAccu uninitialised, and a new run
(EnvMonteCarlo::BuildNew) never clears it: the measured vertex function was
normalised by an arbitrary number.
---
 src/module/weight/gamma3.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/module/weight/gamma3.cpp b/src/module/weight/gamma3.cpp
index 885657f..9e93fff 100755
--- a/src/module/weight/gamma3.cpp
+++ b/src/module/weight/gamma3.cpp
@@ -219,7 +219,8 @@ GammaWClass::GammaWClass(const Lattice &lat, real beta, uint MaxTauBinTiny,  std
     _CacheIndexBasis[4] = _BasisNum*_BasisNum*Vol*Vol;
 
 
-//    ClearStatistics();
+    //_WeightAccu is allocated, filled with zeros, when the weight is loaded
+    _NormAccu = 0.0;
 }
 
 uint GammaWClass::_SpinIndex(spin * L, spin * R) const {
-- 
2.43.0


From 2679ff487c19603c43428c9301b2e7d258399cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:23 +0000
Subject: [PATCH 11/15] fix: the diagram check refuses worm marks when there is
 no worm, whatever the former ends are

---
 src/module/diagram/diagram_check.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/diagram/diagram_check.cpp b/src/module/diagram/diagram_check.cpp
index 2d45d90..75044d4 100644
--- a/src/module/diagram/diagram_check.cpp
+++ b/src/module/diagram/diagram_check.cpp
@@ -89,7 +89,7 @@ bool Diagram::_CheckStatus()
     for (int i = 0; i < W.HowMany(); i++) {
         if (W(i)->IsMeasure)
             totalmeasure += 1;
-        if (W(i)->IsWorm && Worm.Ira->NeighW() != W(i) && Worm.Masha->NeighW() != W(i))
+        if (W(i)->IsWorm && (!Worm.Exist || (Worm.Ira->NeighW() != W(i) && Worm.Masha->NeighW() != W(i))))
             ABORT("W IsWorm status error! no worm!" + W(i)->PrettyString());
         if (Worm.Exist)
             if ((!W(i)->IsWorm) && (Worm.Ira->NeighW() == W(i) || Worm.Masha->NeighW() == W(i)))
-- 
2.43.0


From 0c5349db4a6d43ee7fc4a50e8de78009f0f6f5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:17 +0000
Subject: [PATCH 12/15] fix: the interrupt handler no longer says that it is
 delaying after Resume()

---
 src/utility/abort.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/abort.cpp b/src/utility/abort.cpp
index ebe2f1e..4dc66ef 100644
--- a/src/utility/abort.cpp
+++ b/src/utility/abort.cpp
@@ -50,6 +50,6 @@ void InterruptHandler::Resume()
     if (__IsDelaying && (__Signal == SIGINT || __Signal == SIGTERM)) {
         __SignalHandler(__Signal);
         __Signal = -1;
-        __IsDelaying = false;
     }
+    __IsDelaying = false;
 }
-- 
2.43.0


From 0de067133ba291487452edd112cda11f5e84fe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:53 +0000
Subject: [PATCH 13/15] fix: check the normalisation of a statistics file
 before any of it is merged

---
 dyson/collect.py | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/dyson/collect.py b/dyson/collect.py
index 337cf84..708a247 100644
--- a/dyson/collect.py
+++ b/dyson/collect.py
@@ -31,14 +31,15 @@ class WeightEstimator():
     def MergeFromDict(self, WeightDict):
         """add data from another WeightEstimator, work even if order WeightDict is smaller than MaxOrder"""
         datamat=WeightDict[self.__Weight.Name]
+        Norm, NormAccu, WeightAccu=datamat['Norm'], datamat['NormAccu'], datamat['WeightAccu']
         if hasattr(self, "Norm"):
-            self.WeightAccu+=datamat['WeightAccu']
-            self.NormAccu+=datamat['NormAccu']
-            Assert(self.Norm==datamat['Norm'], "Norm have to be the same to merge statistics")
+            Assert(self.Norm==Norm, "Norm have to be the same to merge statistics")
+            self.WeightAccu+=WeightAccu
+            self.NormAccu+=NormAccu
         else:
-            self.Norm=datamat['Norm']
-            self.NormAccu=datamat['NormAccu']
-            self.WeightAccu=datamat['WeightAccu']
+            self.Norm=Norm
+            self.NormAccu=NormAccu
+            self.WeightAccu=WeightAccu
 
     def UpdateWeight(self, Name, ErrorThreshold, OrderAccepted, DoesSaveFigure=True):
         """ Weight accumulation data will be destroyed here to save memory!!!"""
@@ -182,25 +183,27 @@ def CollectStatis(_map, runGamma3=False):
 
             if runGamma3:
                 dataG=Dict["GammaGStatis"]
+                Norm, NormAccu, WeightAccu=dataG['Norm'], dataG['NormAccu'], dataG['WeightAccu']
                 if GammaGNorm is not None:
-                    GammaGAccu+=dataG['WeightAccu']
-                    GammaGNormAccu+=dataG['NormAccu']
-                    Assert(GammaGNorm==dataG['Norm'], "Norm have to be the same to merge statistics")
+                    Assert(GammaGNorm==Norm, "Norm have to be the same to merge statistics")
+                    GammaGAccu+=WeightAccu
+                    GammaGNormAccu+=NormAccu
                 else:
-                    GammaGAccu=dataG['WeightAccu']
-                    GammaGNormAccu=dataG['NormAccu']
-                    GammaGNorm=dataG['Norm']
+                    GammaGAccu=WeightAccu
+                    GammaGNormAccu=NormAccu
+                    GammaGNorm=Norm
 
                 dataW=Dict["GammaWStatis"]
+                Norm, NormAccu, WeightAccu=dataW['Norm'], dataW['NormAccu'], dataW['WeightAccu']
                 if GammaWNorm is not None:
-                    GammaWAccu+=dataW['WeightAccu']
-                    GammaWNormAccu+=dataW['NormAccu']
-                    Assert(GammaWNorm==dataW['Norm'], "Norm have to be the same to merge statistics")
+                    Assert(GammaWNorm==Norm, "Norm have to be the same to merge statistics")
+                    GammaWAccu+=WeightAccu
+                    GammaWNormAccu+=NormAccu
                     # GammaWFluc.append(dataW['WeightAccu'][0,0,0,0,:]/dataW['NormAccu']*dataW['Norm'])
                 else:
-                    GammaWAccu=dataW['WeightAccu']
-                    GammaWNormAccu=dataW['NormAccu']
-                    GammaWNorm=dataW['Norm']
+                    GammaWAccu=WeightAccu
+                    GammaWNormAccu=NormAccu
+                    GammaWNorm=Norm
                     # GammaWFluc.append(dataW['WeightAccu'][0,0,0,0,:]/dataW['NormAccu']*dataW['Norm'])
         except:
             log.info("Fails to merge\n {0}".format(traceback.format_exc()))
-- 
2.43.0


From d3010538b57ecf09c66b8479d9fee24298cbf8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:05 +0000
Subject: [PATCH 14/15] fix: a failing round of the self-consistency loop
 undoes only what it merged itself

---
 dyson/main.py   | 3 +++
 dyson/weight.py | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/dyson/main.py b/dyson/main.py
index dc2f41b..9ae6626 100755
--- a/dyson/main.py
+++ b/dyson/main.py
@@ -319,6 +319,9 @@ def Dyson(IsDysonOnly, IsNewCalculation, EnforceSumRule, para, Map, Lat):
             #everything works prefectly 
 	    log.info("everything is going well!")
             Gold, Wold = G, W
+            SigmaDeltaT.Commit()
+            Sigma.Commit()
+            Polar.Commit()
             if para["Gamma3"]:
                 Measure(para, Observable, Factory, G0, W0, G, W, SigmaDeltaT, Sigma, Polar, Determ, ChiTensor, GGGammaG, WWGammaW)
             else:
diff --git a/dyson/weight.py b/dyson/weight.py
index 474fbcb..5d9b511 100644
--- a/dyson/weight.py
+++ b/dyson/weight.py
@@ -202,6 +202,11 @@ class Weight():
             self.Data = self.AccuData/self.Norm
         else:
             self.Data=self.BackUpWeight.Data
+        self.Commit()
+
+    def Commit(self):
+        """what has been merged so far is settled, RollBack should not touch it any more"""
+        self.BackUpRatio=None
     
     def FFT(self, *SpaceOrTime):
         if "R" in SpaceOrTime and self.SpaceDomain is "K":
-- 
2.43.0


From 38870c9ed0747ceae17a67d01275af5bcf50a36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:52 +0000
Subject: [PATCH 15/15] fix: transform the accumulated sums with the same phase
 as the function

---
 dyson/weight.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dyson/weight.py b/dyson/weight.py
index 5d9b511..5276b22 100644
--- a/dyson/weight.py
+++ b/dyson/weight.py
@@ -318,6 +318,8 @@ class Weight():
         #if BackForth==-1:
             #PhaseFactor=1/PhaseFactor
         self.Data*=PhaseFactor
+        if hasattr(self, "AccuData"):
+            self.AccuData*=PhaseFactor
 
     def __SpatialShape(self, shape):
         InsertPos=self.VOLDIM
-- 
2.43.0

