From c5bf8d6f772c6a7ae7ee6abe11957d4eaa659402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:51 +0000
Subject: [PATCH 01/84] fix: exact Riemann solver converges for near-vacuum
 star pressures below 1e-20

The pressure floor inside the Newton iteration kept the solver from ever
reaching star pressures below small_number; the star velocity was then wrong
and sampling the fan took powers of a negative sound speed (NaN).
---
 src/Hydrodynamics/RiemannSolver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Hydrodynamics/RiemannSolver.cpp b/src/Hydrodynamics/RiemannSolver.cpp
index 103db5b..0e46aa6 100644
--- a/src/Hydrodynamics/RiemannSolver.cpp
+++ b/src/Hydrodynamics/RiemannSolver.cpp
@@ -234,7 +234,8 @@ void ExactRiemannSolver<ndim>::ComputeStarRegion
     pstar = pstar - (fl + fr + ur - ul)/(flprime + frprime);
 
     // Check if convergence has been achieved
-    if (pstar < small_number) pstar = small_number; //this could also be smaller than zero
+    // (If the step overshoots to a negative pressure, restart from a much smaller one)
+    if (pstar <= (FLOAT) 0.0) pstar = max(small_number*pold, (FLOAT) 1.0e-290);
     else if (2.0*fabs(pstar - pold)/(pstar + pold) < tolerance) break;
 
     // Check the star variables have not become NaNs
-- 
2.43.0


From 9043bc98f0028e124de2b9822ccdf13f9d80f1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:24 +0000
Subject: [PATCH 02/84] fix: Gaussian kernel womega is the smoothing-length
 derivative of the kernel

The term 2 s^2 exp(-s^2) was missing a factor s, so the grad-h correction
was wrong for every Gaussian-kernel run.
---
 src/Headers/SmoothingKernel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Headers/SmoothingKernel.h b/src/Headers/SmoothingKernel.h
index f05c1f8..84fc29d 100644
--- a/src/Headers/SmoothingKernel.h
+++ b/src/Headers/SmoothingKernel.h
@@ -483,7 +483,7 @@ inline FLOAT GaussianKernel<ndim>::womega(const FLOAT s)
 {
   if (s < kernrange)
     return (kernnorm)*
-      ((FLOAT) 2.0*s*exp(-s*s) - (ndim)*exp(-s*s));
+      ((FLOAT) 2.0*s*s*exp(-s*s) - (ndim)*exp(-s*s));
   else
     return (FLOAT) 0.0;
 }
-- 
2.43.0


From dee9fb92ff7767e18bcdf00a200418268194b6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:24 +0000
Subject: [PATCH 03/84] fix: quintic kernel gravity terms have the
 normalisation of the kernel

wgrav and wpot were normalised with 12/359 instead of 1/30 (0.3% too strong
and discontinuous at the kernel edge); wzeta lacked both normalisation and sign.
---
 src/Headers/SmoothingKernel.h | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/Headers/SmoothingKernel.h b/src/Headers/SmoothingKernel.h
index 84fc29d..db3bbe0 100644
--- a/src/Headers/SmoothingKernel.h
+++ b/src/Headers/SmoothingKernel.h
@@ -349,17 +349,17 @@ template <int ndim>
 inline FLOAT QuinticKernel<ndim>::wzeta(const FLOAT s)
 {
   if (s < (FLOAT) 1.0)
-    return (FLOAT) 33.0*s*s - (FLOAT) 15.0*pow(s,4) + (FLOAT) 5.0*pow(s,6) -
-      (FLOAT) 1.42857142857*pow(s,7) - (FLOAT) 34.14285714;
+    return -(1.0/30.0)*(33.0*s*s - 15.0*pow(s,4) + 5.0*pow(s,6) -
+      (10.0/7.0)*pow(s,7) - (478.0/14.0));
   else if (s < 2.0)
-    return (FLOAT) 25.5*s*s + (FLOAT) 25.0*pow(s,3) - (FLOAT) 52.5*pow(s,4)
-      + (FLOAT) 30.0*pow(s,5) - (FLOAT) 7.5*pow(s,6)
-      + (FLOAT) 0.7142857143*pow(s,7) - 33.785714286;
+    return -(1.0/30.0)*(25.5*s*s + 25.0*pow(s,3) - 52.5*pow(s,4)
+      + 30.0*pow(s,5) - 7.5*pow(s,6)
+      + (5.0/7.0)*pow(s,7) - (473.0/14.0));
   else if (s < (FLOAT) 3.0)
-    return (FLOAT) 121.5*s*s - (FLOAT) 135.0*pow(s,3) +
-      (FLOAT) 67.5*pow(s,4) - (FLOAT) 18.0*pow(s,5) +
-      (FLOAT) 2.5*pow(s,6) - (FLOAT) 0.142857143*pow(s,7) -
-      (FLOAT) 52.07142857;
+    return -(1.0/30.0)*(121.5*s*s - 135.0*pow(s,3) +
+      67.5*pow(s,4) - 18.0*pow(s,5) +
+      2.5*pow(s,6) - (1.0/7.0)*pow(s,7) -
+      (729.0/14.0));
   else
     return 0.0;
 }
@@ -374,12 +374,12 @@ template <int ndim>
 inline FLOAT QuinticKernel<ndim>::wgrav(const FLOAT s)
 {
   if (s < 1.0)
-    return (12.0/359.0)*(22.0*s - 12.0*pow(s,3) + (30.0/7.0)*pow(s,5) - (5.0/4.0)*pow(s,6));
+    return (1.0/30.0)*(22.0*s - 12.0*pow(s,3) + (30.0/7.0)*pow(s,5) - (5.0/4.0)*pow(s,6));
   else if (s < 2.0)
-    return (12.0/359.0)*(17.0*s + (75.0/4.0)*s*s - 42.0*pow(s,3) +
+    return (1.0/30.0)*(17.0*s + (75.0/4.0)*s*s - 42.0*pow(s,3) +
       25.0*pow(s,4) - (45.0/7.0)*pow(s,5) + (5.0/8.0)*pow(s,6) + (5.0/56.0)/(s*s));
   else if (s < 3.0)
-    return (12.0/359.0)*(81.0*s - (405.0/4.0)*pow(s,2) + 54.0*pow(s,3) -
+    return (1.0/30.0)*(81.0*s - (405.0/4.0)*pow(s,2) + 54.0*pow(s,3) -
       15.0*pow(s,4) + (15.0/7.0)*pow(s,5) - (1.0/8.0)*pow(s,6) - (507.0/56.0)/(s*s));
   else
     return 1.0/(s*s);
@@ -395,13 +395,13 @@ template <int ndim>
 inline FLOAT QuinticKernel<ndim>::wpot(const FLOAT s)
 {
   if (s < 1.0)
-    return (12.0/359.0)*(-11.0*s*s + 3.0*pow(s,4) - (5.0/7.0)*pow(s,6) +
+    return (1.0/30.0)*(-11.0*s*s + 3.0*pow(s,4) - (5.0/7.0)*pow(s,6) +
       (5.0/28.0)*pow(s,7) + (478.0/14.0));
   else if (s < 2.0)
-    return (12.0/359.0)*(-(17.0/2.0)*s*s - (25.0/4.0)*pow(s,3) + (21.0/2.0)*pow(s,4) -
+    return (1.0/30.0)*(-(17.0/2.0)*s*s - (25.0/4.0)*pow(s,3) + (21.0/2.0)*pow(s,4) -
       5.0*pow(s,5) + (15.0/14.0)*pow(s,6) - (5.0/56.0)*pow(s,7) + (473.0/14.0) + (5.0/56.0)/s);
   else if (s < 3.0)
-    return (12.0/359.0)*(-(81.0/2.0)*s*s + (135.0/4.0)*pow(s,3) - (27.0/2.0)*pow(s,4) +
+    return (1.0/30.0)*(-(81.0/2.0)*s*s + (135.0/4.0)*pow(s,3) - (27.0/2.0)*pow(s,4) +
       3.0*pow(s,5) - (5.0/14.0)*pow(s,6) + (1.0/56.0)*pow(s,7) + (729.0/14.0) - (507.0/56.0)/s);
   else
     return 1.0/s;
-- 
2.43.0


From e58d51db0fc991a9e71ee9ce172562ae60ff946c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:51 +0000
Subject: [PATCH 04/84] fix: GJ, cgs pressure, force and luminosity unit scales

---
 src/Common/SimUnits.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Common/SimUnits.cpp b/src/Common/SimUnits.cpp
index fa423e1..b24154f 100644
--- a/src/Common/SimUnits.cpp
+++ b/src/Common/SimUnits.cpp
@@ -389,7 +389,7 @@ DOUBLE EnergyUnit::SIUnit(string unit_string)
 {
   if (unit_string == "J") return 1.0;
   else if (unit_string == "erg") return 1.0e-7;
-  else if (unit_string == "GJ") return 1.0e12;
+  else if (unit_string == "GJ") return 1.0e9;
   else if (unit_string == "eV") return e_charge;
   else if (unit_string == "10^40erg") return 1.0e33;
   else if (unit_string == "") return 1.0;
@@ -952,14 +952,14 @@ void SimUnits::SetupUnits(Parameters *params)
   press.outscale = (m.outscale*m.outSI) /
     (r.outscale*r.outSI*t.outscale*t.outSI*t.outscale*t.outSI);
   press.outscale = press.outscale / press.outSI;
-  press.outcgs   = 0.1*press.outSI;
+  press.outcgs   = 10.0*press.outSI;
 
   // Force units
   //-----------------------------------------------------------------------------------------------
   f.inunit   = params->stringparams["finunit"];
   f.outunit  = params->stringparams["foutunit"];
-  f.inSI     = f.SIUnit(params->stringparams["forceinunit"]);
-  f.outSI    = f.SIUnit(params->stringparams["forceoutunit"]);
+  f.inSI     = f.SIUnit(params->stringparams["finunit"]);
+  f.outSI    = f.SIUnit(params->stringparams["foutunit"]);
   f.inscale  = (m.inscale*m.inSI*r.inscale*r.inSI)/
     (t.inscale*t.inscale*t.inSI*t.inSI);
   f.inscale  = f.inscale / f.inSI;
@@ -1036,9 +1036,9 @@ void SimUnits::SetupUnits(Parameters *params)
   L.outunit  = params->stringparams["Loutunit"];
   L.inSI     = L.SIUnit(params->stringparams["Linunit"]);
   L.outSI    = L.SIUnit(params->stringparams["Loutunit"]);
-  L.inscale  = m.inscale*m.inSI/(t.inscale*t.inSI);
+  L.inscale  = m.inscale*m.inSI*pow(r.inscale*r.inSI,2)/pow(t.inscale*t.inSI,3);
   L.inscale  = L.inscale / L.inSI;
-  L.outscale = m.outscale*m.outSI/(t.outscale*t.outSI);
+  L.outscale = m.outscale*m.outSI*pow(r.outscale*r.outSI,2)/pow(t.outscale*t.outSI,3);
   L.outscale = L.outscale / L.outSI;
   L.outcgs   = 1.0e7*L.outSI;
 
-- 
2.43.0


From a261da5c38d486a64d08679a958e20e672eb051d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 05/84] fix: opacity-table look-ups use the logarithm of the
 density, as the table stores it

---
 src/Common/OpacityTable.cpp       | 2 +-
 src/Headers/OpacityTable.h        | 6 +++---
 src/Hydrodynamics/EnergyRadws.cpp | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Common/OpacityTable.cpp b/src/Common/OpacityTable.cpp
index a910455..5c481fc 100644
--- a/src/Common/OpacityTable.cpp
+++ b/src/Common/OpacityTable.cpp
@@ -176,7 +176,7 @@ OpacityTable<ndim>::~OpacityTable()
 template <int ndim>
 FLOAT OpacityTable<ndim>::GetEnergyFromPressure(const FLOAT rho, const FLOAT P) {
 
-  int idens = GetIDens(rho);
+  int idens = GetIDens(log10(rho));
 
   FLOAT* p_gamma  = eos_gamma[idens];
   FLOAT* p_energy = eos_energy[idens];
diff --git a/src/Headers/OpacityTable.h b/src/Headers/OpacityTable.h
index fea270d..c137f6f 100644
--- a/src/Headers/OpacityTable.h
+++ b/src/Headers/OpacityTable.h
@@ -156,7 +156,7 @@ template <int ndim>
 inline FLOAT OpacityTable<ndim>::GetMuBar
  (const EosParticleProxy<ndim> &part)
 {
-  int idens = GetIDens(part.rho);
+  int idens = GetIDens(log10(part.rho));
   int iener = GetIEner(part.u, idens);
   return eos_mu[idens][iener];
 }
@@ -171,7 +171,7 @@ template <int ndim>
 inline FLOAT OpacityTable<ndim>::GetGamma
  (const EosParticleProxy<ndim> &part)
 {
-  int idens = GetIDens(part.rho);
+  int idens = GetIDens(log10(part.rho));
   int iener = GetIEner(part.u, idens);
   return eos_gamma[idens][iener];
 }
@@ -188,7 +188,7 @@ template <int ndim>
 inline FLOAT OpacityTable<ndim>::GetGamma1
  (const EosParticleProxy<ndim> &part)
 {
-  int idens = GetIDens(part.rho);
+  int idens = GetIDens(log10(part.rho));
   int iener = GetIEner(part.u, idens);
   return eos_gamma1[idens][iener];
 }
diff --git a/src/Hydrodynamics/EnergyRadws.cpp b/src/Hydrodynamics/EnergyRadws.cpp
index f4dab08..d42b755 100644
--- a/src/Hydrodynamics/EnergyRadws.cpp
+++ b/src/Hydrodynamics/EnergyRadws.cpp
@@ -557,7 +557,7 @@ FLOAT EnergyRadwsBase<ndim>::ImplicitEnergyUpdate
   const FLOAT dudt,                        ///< ..
   const FLOAT dt)
 {
-  int idens = table->GetIDens(rho);
+  int idens = table->GetIDens(log10(rho));
   int itemp = table->GetITemp(log10(temp));
 
   FLOAT tolerance = 1e-12;
-- 
2.43.0


From 6ee30a2d4d2cc5187e717cbab8e2592db7c76bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 06/84] fix: adiabatic temperature includes the mean molecular
 weight

---
 src/Thermal/AdiabaticEOS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Thermal/AdiabaticEOS.cpp b/src/Thermal/AdiabaticEOS.cpp
index 4422fbf..cdaa506 100644
--- a/src/Thermal/AdiabaticEOS.cpp
+++ b/src/Thermal/AdiabaticEOS.cpp
@@ -92,7 +92,7 @@ FLOAT Adiabatic<ndim>::SpecificInternalEnergy(const EosParticleProxy<ndim>&part)
 template <int ndim>
 FLOAT Adiabatic<ndim>::Temperature(const EosParticleProxy<ndim>&part)
 {
-  return gammam1*part.u;
+  return mu_bar*gammam1*part.u;
 }
 
 
-- 
2.43.0


From 4f3947f65a8fb9a40b1589d6150ceb6dd47fe976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 07/84] fix: polytropic pressure uses the polytropic exponent,
 as its internal energy does

---
 src/Thermal/PolytropicEOS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Thermal/PolytropicEOS.cpp b/src/Thermal/PolytropicEOS.cpp
index 8e73688..a7acf4a 100644
--- a/src/Thermal/PolytropicEOS.cpp
+++ b/src/Thermal/PolytropicEOS.cpp
@@ -33,7 +33,7 @@
 template <int ndim>
 Polytropic<ndim>::Polytropic(Parameters* simparams, SimUnits *units):
   EOS<ndim>(simparams->floatparams["eta_eos"]),
-  eta(simparams->floatparams["gamma_eos"]),
+  eta(simparams->floatparams["eta_eos"]),
   Kpoly(simparams->floatparams["Kpoly"])
 {
 }
-- 
2.43.0


From 82d396ee8771f12da1cdd7460f58af09e81307e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:30 +0000
Subject: [PATCH 08/84] fix: parameter values are recorded and passed on in
 full precision

---
 src/Common/Parameters.cpp | 4 +++-
 src/Common/Simulation.cpp | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Common/Parameters.cpp b/src/Common/Parameters.cpp
index df7c847..85c0ae4 100644
--- a/src/Common/Parameters.cpp
+++ b/src/Common/Parameters.cpp
@@ -23,6 +23,7 @@
 
 
 #include <cstdio>
+#include <iomanip>
 #include <iostream>
 #include <fstream>
 #include <sstream>
@@ -558,7 +559,7 @@ string Parameters::GetParameter
   }
   else if (floatparams.count(key) == 1) {
     std::stringstream value;
-    value << floatparams[key];
+    value << setprecision(17) << floatparams[key];
     return value.str();
   }
   else if (stringparams.count(key) == 1) {
@@ -644,6 +645,7 @@ void Parameters::RecordParametersToFile(void)
   debug1("[Parameters::RecordParametersToFile]");
 
   outfile.open(filename.c_str());
+  outfile << setprecision(17);
 
   // Write all integer parameters
   std::map <std::string, int>::iterator it;
diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index b6b3711..0178e75 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -333,7 +333,7 @@ void SimulationBase::SetParam
   double value)                        ///< [in] Parameter float (double) value
 {
   ostringstream convert;
-  convert << value;
+  convert << setprecision(17) << value;
   SetParam (key, convert.str());
 }
 
-- 
2.43.0


From e83ba8a1b183365637faaff89b0d41f5dd1f76cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:30 +0000
Subject: [PATCH 09/84] fix: tabs and carriage returns in parameter files are
 white space

---
 src/Common/Parameters.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Common/Parameters.cpp b/src/Common/Parameters.cpp
index 85c0ae4..b505f5e 100644
--- a/src/Common/Parameters.cpp
+++ b/src/Common/Parameters.cpp
@@ -22,6 +22,7 @@
 //=================================================================================================
 
 
+#include <cctype>
 #include <cstdio>
 #include <iomanip>
 #include <iostream>
@@ -683,7 +684,7 @@ std::string Parameters::TrimWhiteSpace
 
   // Loop over all characters and ignore any white-space characters
   for (unsigned int i=0; i<instr.length(); i++) {
-    if (instr[i] != ' ') outstr += instr[i];
+    if (!isspace((unsigned char) instr[i])) outstr += instr[i];
   }
 
   return outstr;
-- 
2.43.0


From 551a3ee148f02df76b691ff1da4889fe1b6a8727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:30 +0000
Subject: [PATCH 10/84] fix: a trailing comment is not part of a string
 parameter's value

---
 src/Common/Parameters.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Common/Parameters.cpp b/src/Common/Parameters.cpp
index b505f5e..3dbb38b 100644
--- a/src/Common/Parameters.cpp
+++ b/src/Common/Parameters.cpp
@@ -147,6 +147,9 @@ void Parameters::ParseLine
   std::string var_name = paramline.substr(colon_pos+1, equal_pos-colon_pos-1);
   std::string var_value = paramline.substr(equal_pos+1, length-equal_pos-1);
 
+  // Ignore any trailing comment
+  var_value = var_value.substr(0, var_value.find('#'));
+
   // Finally, set parameter value in memory
   SetParameter(var_name, var_value);
 
-- 
2.43.0


From f00151997109027c1b3576c8bb79eb61886a5316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:11 +0000
Subject: [PATCH 11/84] fix: 6th-order Hermite sums the second derivative of
 the acceleration over all stars

---
 src/Nbody/NbodyHermite6TS.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Nbody/NbodyHermite6TS.cpp b/src/Nbody/NbodyHermite6TS.cpp
index 9bd4fa4..2751639 100644
--- a/src/Nbody/NbodyHermite6TS.cpp
+++ b/src/Nbody/NbodyHermite6TS.cpp
@@ -151,6 +151,7 @@ private(a, adot, afac, aperiodic, bfac, da, dr, dr_corr, drdt, drsqd, dv, dvsqd,
       for (int k=0; k<ndim; k++) dr[k] = star[j]->r[k] - star[i]->r[k];
       for (int k=0; k<ndim; k++) dv[k] = star[j]->v[k] - star[i]->v[k];
       for (int k=0; k<ndim; k++) da[k] = star[j]->a[k] - star[i]->a[k];
+      NearestPeriodicVector(simbox, dr, dr_corr);
       drsqd = DotProduct(dr,dr,ndim) + small_number_dp;
       dvsqd = DotProduct(dv,dv,ndim);
       invdrsqd = 1.0/drsqd;
@@ -164,7 +165,7 @@ private(a, adot, afac, aperiodic, bfac, da, dr, dr_corr, drdt, drsqd, dv, dvsqd,
       afac = DotProduct(dv,dr,ndim)*invdrsqd;
       bfac = dvsqd*invdrsqd + afac*afac + DotProduct(da,dr,ndim)*invdrsqd;
 
-      for (int k=0; k<ndim; k++) star[i]->a2dot[k] =
+      for (int k=0; k<ndim; k++) star[i]->a2dot[k] +=
         star[j]->m*da[k]*invdrsqd*invdrmag - 6.0*afac*adot[k] - 3.0*bfac*a[k];
 
     }
-- 
2.43.0


From f3c04ae9b929b3d195f34da0b63e593f44f3d7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:29 +0000
Subject: [PATCH 12/84] fix: perturbers of a sub-system are extrapolated with
 their jerk

---
 src/Nbody/Nbody.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Nbody/Nbody.cpp b/src/Nbody/Nbody.cpp
index bc4b889..67ff492 100644
--- a/src/Nbody/Nbody.cpp
+++ b/src/Nbody/Nbody.cpp
@@ -547,7 +547,7 @@ void Nbody<ndim>::IntegrateInternalMotion
       for (k=0; k<ndim; k++) perturber[i].r0[k]       = systemi->perturber[i]->r0[k];
       for (k=0; k<ndim; k++) perturber[i].v0[k]       = systemi->perturber[i]->v0[k];
       for (k=0; k<ndim; k++) perturber[i].a0[k]       = systemi->perturber[i]->a0[k];
-      for (k=0; k<ndim; k++) perturber[i].adot[k]     = systemi->perturber[i]->adot0[k];
+      for (k=0; k<ndim; k++) perturber[i].adot0[k]    = systemi->perturber[i]->adot0[k];
 
       // Set properties of perturbers at beginning of current step
       tpert = tlocal - perturber[i].tlast;
-- 
2.43.0


From baf39cad19bfd0e88714b1da36ab8cdd01080f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:29 +0000
Subject: [PATCH 13/84] fix: members of stellar sub-systems are advanced over
 their own local steps, and moved to the new centre of mass once

---
 src/Nbody/Nbody.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/Nbody/Nbody.cpp b/src/Nbody/Nbody.cpp
index 67ff492..9b79fb8 100644
--- a/src/Nbody/Nbody.cpp
+++ b/src/Nbody/Nbody.cpp
@@ -614,6 +614,7 @@ void Nbody<ndim>::IntegrateInternalMotion
     for (i=0; i<Nchildren; i++) {
       children[i]->nlast = n - 1;
       children[i]->nstep = 1;
+      children[i]->tlast = tlocal;
       dt = std::min(dt, (FLOAT) Timestep(children[i]));
     }
     nsteps_local += 1;
@@ -692,22 +693,23 @@ void Nbody<ndim>::IntegrateInternalMotion
     //  CorrectionTerms(n, Nchildren, tlocal, dt, children);
     //}
 
-    // Correct positions of all child stars in any hierarchical systems
-    this->UpdateChildStars(systemi);
-    //for (i=0; i<Nchildren; i++) {
-      //cout << "NCOMP? : " << i << "   " << children[i]->Ncomp << "    " << Nchildren << endl;
-    //  if (children[i]->Ncomp > 1) {
-    //    this->UpdateChildStars(static_cast<SystemParticle<ndim>* > (children[i]));
-    //  }
-    //}
-
     // Set end-of-step variables
+    for (i=0; i<Nchildren; i++) children[i]->flags.set(end_timestep);
     EndTimestep(n, Nchildren, tlocal, dt, children);
 
 
   } while (tlocal < tend);
   //===============================================================================================
 
+  // Correct positions of all child stars in any hierarchical systems
+  this->UpdateChildStars(systemi);
+  //for (i=0; i<Nchildren; i++) {
+    //cout << "NCOMP? : " << i << "   " << children[i]->Ncomp << "    " << Nchildren << endl;
+  //  if (children[i]->Ncomp > 1) {
+  //    this->UpdateChildStars(static_cast<SystemParticle<ndim>* > (children[i]));
+  //  }
+  //}
+
 
   // Copy children back to main coordinate system
   //-----------------------------------------------------------------------------------------------
-- 
2.43.0


From a94ceebc9f31c7828b4ded66c6c4e5310f80048b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:29 +0000
Subject: [PATCH 14/84] fix: sub-system integrator has a timer

---
 src/Nbody/NbodySimulation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Nbody/NbodySimulation.cpp b/src/Nbody/NbodySimulation.cpp
index 26b7332..65c5b26 100644
--- a/src/Nbody/NbodySimulation.cpp
+++ b/src/Nbody/NbodySimulation.cpp
@@ -163,6 +163,7 @@ void NbodySimulation<ndim>::ProcessParameters(void)
 
   // Set pointers to timing object
   nbody->timing   = timing;
+  if (intparams["sub_systems"] == 1) subsystem->timing = timing;
 
   sinks = new Sinks<ndim>(0);
 
-- 
2.43.0


From 32764d66b7ed254368a33f322117b94d85f80739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:29 +0000
Subject: [PATCH 15/84] fix: forces on stellar systems are calculated the same
 way at both ends of their step

---
 src/Nbody/NbodySimulation.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/Nbody/NbodySimulation.cpp b/src/Nbody/NbodySimulation.cpp
index 65c5b26..51ab295 100644
--- a/src/Nbody/NbodySimulation.cpp
+++ b/src/Nbody/NbodySimulation.cpp
@@ -299,6 +299,30 @@ void NbodySimulation<ndim>::MainLoop(void)
       // Now create nearest neighbour tree and build any sub-systems from tree
       nbodytree.CreateNbodySystemTree(nbody);
       nbodytree.BuildSubSystems(n,level_max,t,nbody);
+
+      // Recompute the forces on the new systems (only) with the systems themselves as sources, so
+      // that the forces at the start and at the end of a step are calculated in the same way.
+      for (i=0; i<nbody->Nnbody; i++) {
+        if (nbody->nbodydata[i]->Ncomp > 1) {
+          for (k=0; k<ndim; k++) nbody->nbodydata[i]->a[k]    = 0.0;
+          for (k=0; k<ndim; k++) nbody->nbodydata[i]->adot[k] = 0.0;
+          nbody->nbodydata[i]->gpot = 0.0;
+          nbody->nbodydata[i]->flags.set(active);
+        }
+        else nbody->nbodydata[i]->flags.unset(active);
+      }
+      if (nbody->nbody_softening == 1) {
+        nbody->CalculateDirectSmoothedGravForces(nbody->Nnbody, nbody->nbodydata, simbox, ewald);
+      }
+      else {
+        nbody->CalculateDirectGravForces(nbody->Nnbody, nbody->nbodydata, simbox, ewald);
+      }
+      for (i=0; i<nbody->Nnbody; i++) {
+        if (nbody->nbodydata[i]->Ncomp > 1) {
+          for (k=0; k<ndim; k++) nbody->nbodydata[i]->a0[k]    = nbody->nbodydata[i]->a[k];
+          for (k=0; k<ndim; k++) nbody->nbodydata[i]->adot0[k] = nbody->nbodydata[i]->adot[k];
+        }
+      }
     }
 
     // Find list of perturbers for all sub-systems
-- 
2.43.0


From dcb69eb24cee7a80adadc9b05c76b5870fc5bdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:02 +0000
Subject: [PATCH 16/84] fix: binary star set-ups pass psirot as the rotation
 angle and start inbound phases inbound

---
 src/Ic/HierarchicalSystemIc.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/Ic/HierarchicalSystemIc.cpp b/src/Ic/HierarchicalSystemIc.cpp
index d304e8a..c62535f 100644
--- a/src/Ic/HierarchicalSystemIc.cpp
+++ b/src/Ic/HierarchicalSystemIc.cpp
@@ -80,8 +80,8 @@ void HierarchicalSystemIc<ndim>::Generate(void)
     sim->AllocateParticleMemory();
 
     // Add binary star
-    Ic<ndim>::AddBinaryStar(abin, ebin, m1, m2, (FLOAT) 0.01, (FLOAT) 0.01, phirot, thetarot, psirot,
-                            (FLOAT) 0.0, rbinary, vbinary, nbody->stardata[0], nbody->stardata[1]);
+    Ic<ndim>::AddBinaryStar(abin, ebin, m1, m2, (FLOAT) 0.01, (FLOAT) 0.01, phirot, thetarot,
+                            (FLOAT) 0.0, psirot, rbinary, vbinary, nbody->stardata[0], nbody->stardata[1]);
 
   }
   //-----------------------------------------------------------------------------------------------
@@ -107,11 +107,11 @@ void HierarchicalSystemIc<ndim>::Generate(void)
 
     // Compute main binary orbit
     Ic<ndim>::AddBinaryStar(abin1, ebin1, m1+m2, m3, (FLOAT) 0.0001, (FLOAT) 0.0001, phirot, thetarot,
-                            psirot, (FLOAT) 0.0, rbinary, vbinary, b1, nbody->stardata[2]);
+                            (FLOAT) 0.0, psirot, rbinary, vbinary, b1, nbody->stardata[2]);
 
     // Now compute both components
     Ic<ndim>::AddBinaryStar(abin2, ebin2, m1, m2, (FLOAT) 0.0001, (FLOAT) 0.0001, phirot, thetarot,
-                            psirot, (FLOAT) 0.0, b1.r, b1.v, nbody->stardata[0], nbody->stardata[1]);
+                            (FLOAT) 0.0, psirot, b1.r, b1.v, nbody->stardata[0], nbody->stardata[1]);
 
 
   }
@@ -140,13 +140,13 @@ void HierarchicalSystemIc<ndim>::Generate(void)
 
     // Compute main binary orbit
     Ic<ndim>::AddBinaryStar(abin1, ebin1, m1+m2, m3+m4, (FLOAT) 0.01, (FLOAT) 0.01, phirot,
-                            thetarot, psirot, (FLOAT) 0.0, rbinary, vbinary, b1, b2);
+                            thetarot, (FLOAT) 0.0, psirot, rbinary, vbinary, b1, b2);
 
     // Now compute components of both inner binaries
     Ic<ndim>::AddBinaryStar(abin2, ebin2, m1, m2, (FLOAT) 0.0001, (FLOAT) 0.0001, phirot, thetarot,
-                            psirot, (FLOAT) 0.0, b1.r, b1.v, nbody->stardata[0], nbody->stardata[1]);
+                            (FLOAT) 0.0, psirot, b1.r, b1.v, nbody->stardata[0], nbody->stardata[1]);
     Ic<ndim>::AddBinaryStar(abin2, ebin2, m3, m4, (FLOAT) 0.0001, (FLOAT) 0.0001, phirot, thetarot,
-                            psirot, (FLOAT) 0.0, b2.r, b2.v, nbody->stardata[2], nbody->stardata[3]);
+                            (FLOAT) 0.0, psirot, b2.r, b2.v, nbody->stardata[2], nbody->stardata[3]);
 
   }
   //-----------------------------------------------------------------------------------------------
-- 
2.43.0


From b7706a9ad8ad84b2e90f12bf5cdbc00aa0a3777e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:02 +0000
Subject: [PATCH 17/84] fix: binary stars on the inbound half of the orbit
 start moving inwards

---
 src/Ic/Ic.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Ic/Ic.cpp b/src/Ic/Ic.cpp
index 8139b49..4c87c00 100644
--- a/src/Ic/Ic.cpp
+++ b/src/Ic/Ic.cpp
@@ -316,7 +316,8 @@ void Ic<ndim>::AddBinaryStar
 
     // ..
     FLOAT hc = sqrt(((FLOAT) 1.0 + eccent*cos(theta))/((FLOAT) 2.0 - sep/sma));
-    FLOAT phi = acos(hc);
+    FLOAT phi = acos(min(hc, (FLOAT) 1.0));
+    if (theta < (FLOAT) 0.0) phi = -phi;   // inbound half of the orbit
 
     // Set properties of star 1
     // put on x-y plane to start
-- 
2.43.0


From 7a15b88cebece7d3bc04ddf62ef0d704e368a09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:02 +0000
Subject: [PATCH 18/84] fix: 3D hexagonal lattice stays inside its box

---
 src/Ic/Ic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ic/Ic.cpp b/src/Ic/Ic.cpp
index 4c87c00..6543839 100644
--- a/src/Ic/Ic.cpp
+++ b/src/Ic/Ic.cpp
@@ -753,7 +753,7 @@ void Ic<ndim>::AddHexagonalLattice
         for (ii=0; ii<Nlattice[0]; ii++) {
           i = kk*Nlattice[0]*Nlattice[1] + jj*Nlattice[0] + ii;
           r[ndim*i] = box.min[0] + (FLOAT) 0.5*rad[0] +
-            ((FLOAT) 2.0*(FLOAT) ii + (FLOAT) (jj%2) + (FLOAT) ((kk+1)%2))*rad[0];
+            ((FLOAT) 2.0*(FLOAT) ii + (FLOAT) ((jj + kk + 1)%2))*rad[0];
           r[ndim*i + 1] = box.min[1] + (FLOAT) 0.5*sqrt((FLOAT) 3.0)*rad[1] +
             (FLOAT) jj*sqrt((FLOAT) 3.0)*rad[1] + (FLOAT) (kk%2)*rad[1]/sqrt((FLOAT) 3.0);
           r[ndim*i + 2] = box.min[2] + sqrt((FLOAT) 6.0)*rad[2]/(FLOAT) 3.0 +
-- 
2.43.0


From e392d1e285dbff0d0bc2ca89f5be21938082a610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:02 +0000
Subject: [PATCH 19/84] fix: Evrard sphere has the requested radius for radii
 other than one

---
 src/Ic/EvrardCollapseIc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ic/EvrardCollapseIc.cpp b/src/Ic/EvrardCollapseIc.cpp
index fe8e8a0..b0316a3 100644
--- a/src/Ic/EvrardCollapseIc.cpp
+++ b/src/Ic/EvrardCollapseIc.cpp
@@ -100,7 +100,7 @@ void EvrardCollapseIc<ndim>::Generate(void)
     FLOAT* ri = pos + ndim * i ;
 
     FLOAT r = sqrt(DotProduct(ri, ri, ndim) + small_number) ;
-    FLOAT rnew = radius * r * sqrt(r) ;
+    FLOAT rnew = r * sqrt(r / radius) ;
     for (k=0; k < ndim; k++){
       P.r[k] = ri[k] * rnew / r ;
       P.v[k] = 0 ;
-- 
2.43.0


From 49ade9ce2a0badf9f8b0e7330eb4dc4d71040b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:02 +0000
Subject: [PATCH 20/84] fix: Rayleigh-Taylor set-up accepts dimensionless units

---
 src/Ic/RayleighTaylorIc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Ic/RayleighTaylorIc.cpp b/src/Ic/RayleighTaylorIc.cpp
index 3c7c1f6..e019a96 100644
--- a/src/Ic/RayleighTaylorIc.cpp
+++ b/src/Ic/RayleighTaylorIc.cpp
@@ -42,8 +42,8 @@ RayleighTaylorIc<ndim>::RayleighTaylorIc(Simulation<ndim>* _sim, FLOAT _invndim)
   if (simparams->intparams["ndim"] != 2) {
     ExceptionHandler::getIstance().raise("RTI only run in 2d");
   }
-  if (simparams->intparams["dimensionless"] != 0) {
-    ExceptionHandler::getIstance().raise("dimensionless units not permitted");
+  if (simparams->intparams["dimensionless"] == 0) {
+    ExceptionHandler::getIstance().raise("dimensionless units required");
   }
 }
 
-- 
2.43.0


From 4c313d909a9a58394e9ac8ab3faf29615b9aa4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:02 +0000
Subject: [PATCH 21/84] fix: Boss-Bodenheimer cloud has the requested mass for
 lattice spheres

---
 src/Ic/BossBodenheimerIc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Ic/BossBodenheimerIc.cpp b/src/Ic/BossBodenheimerIc.cpp
index 99a7d68..48db5b5 100644
--- a/src/Ic/BossBodenheimerIc.cpp
+++ b/src/Ic/BossBodenheimerIc.cpp
@@ -88,7 +88,6 @@ void BossBodenheimerIc<ndim>::Generate(void)
 
     FLOAT *r = new FLOAT[ndim*Npart];
     FLOAT *v = new FLOAT[ndim*Npart];
-    FLOAT mp = mcloud / (FLOAT) Npart;
 
     // Add a sphere of random particles with origin 'rcentre' and radius 'radius'
     for (k=0; k<ndim; k++) rcentre[k] = (FLOAT) 0.0;
@@ -110,6 +109,8 @@ void BossBodenheimerIc<ndim>::Generate(void)
       ExceptionHandler::getIstance().raise(message);
     }
 
+    const FLOAT mp = mcloud / (FLOAT) Npart;
+
     // Allocate local and main particle memory
     hydro->Nhydro = Npart;
     if (dusty_collapse) hydro->Nhydro *= 2;
-- 
2.43.0


From 45bfa2670f979efb65a73635437a1977697a621d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:02 +0000
Subject: [PATCH 22/84] fix: 3D shear flow fills the 3D box

---
 src/Ic/ShearflowIc.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Ic/ShearflowIc.cpp b/src/Ic/ShearflowIc.cpp
index 5c4b072..d9102ea 100644
--- a/src/Ic/ShearflowIc.cpp
+++ b/src/Ic/ShearflowIc.cpp
@@ -64,7 +64,7 @@ void ShearflowIc<ndim>::Generate(void)
     int i;                             // Particle counter
     int k;                             // Dimension counter
     int Nbox;                          // No. of particles in box
-    int Nlattice1[ndim];               // Lattice size
+    int Nlattice1[3];                  // Lattice size
     FLOAT lambda;                      // Wavelength if velocity perturbation
     FLOAT kwave;                       // Wavenumber
     FLOAT volume;                      // Volume of box
@@ -73,6 +73,7 @@ void ShearflowIc<ndim>::Generate(void)
     // Make local copies of important parameters
     Nlattice1[0]    = simparams->intparams["Nlattice1[0]"];
     Nlattice1[1]    = simparams->intparams["Nlattice1[1]"];
+    Nlattice1[2]    = simparams->intparams["Nlattice1[2]"];
     FLOAT amp       = simparams->floatparams["amp"];
     FLOAT gammaone  = simparams->floatparams["gamma_eos"] - (FLOAT) 1.0;
     FLOAT press1    = simparams->floatparams["press1"];
@@ -81,8 +82,12 @@ void ShearflowIc<ndim>::Generate(void)
     debug2("[ShearflowIc::Generate]");
 
     // Compute size and range of fluid bounding boxes
-    volume = (icBox.max[0] - icBox.min[0])*(icBox.max[1] - icBox.min[1]);
-    Nbox   = Nlattice1[0]*Nlattice1[1];
+    volume = (FLOAT) 1.0;
+    Nbox   = 1;
+    for (k=0; k<ndim; k++) {
+      volume *= icBox.max[k] - icBox.min[k];
+      Nbox   *= Nlattice1[k];
+    }
     lambda = icBox.max[1] - icBox.min[1];
     kwave  = twopi/lambda;
 
-- 
2.43.0


From a4d7ade0309d0331a63907130464f35b62d61117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:39 +0000
Subject: [PATCH 23/84] fix: binary accretion set-up passes psirot as the
 rotation angle

---
 src/Ic/BinaryAccretionIc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ic/BinaryAccretionIc.cpp b/src/Ic/BinaryAccretionIc.cpp
index 70af5ae..adff5c8 100644
--- a/src/Ic/BinaryAccretionIc.cpp
+++ b/src/Ic/BinaryAccretionIc.cpp
@@ -284,7 +284,7 @@ void BinaryAccretionIc<ndim>::Generate(void)
         rbinary[0] = icBox.min[0] + (FLOAT) 0.0625*icBox.size[0];
       }
       vbinary[0] = vmachbin*hydro->eos->SoundSpeed(hydro->GetParticlePointer(0));
-      Ic<ndim>::AddBinaryStar(abin,ebin,m1,m2,hsink,hsink,phirot,thetarot,psirot,0.0,
+      Ic<ndim>::AddBinaryStar(abin,ebin,m1,m2,hsink,hsink,phirot,thetarot,0.0,psirot,
                               rbinary,vbinary,nbody->stardata[0],nbody->stardata[1]);
       sinks->sink[0].star = &(nbody->stardata[0]);
       sinks->sink[1].star = &(nbody->stardata[1]);
-- 
2.43.0


From 7ed06cc60f2b8461de931fe0c2c135029d303f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:50 +0000
Subject: [PATCH 24/84] fix: oct-tree reports how many leaf cells it can hold

---
 src/Tree/OctTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Tree/OctTree.cpp b/src/Tree/OctTree.cpp
index 9aadf5e..fd1c88f 100644
--- a/src/Tree/OctTree.cpp
+++ b/src/Tree/OctTree.cpp
@@ -109,7 +109,7 @@ void OctTree<ndim,ParticleType,TreeCell>::AllocateTreeMemory(int Nparticles, int
     Ncells = max(Ncells,Ncellmax);
     Nparticles = max(Nparticles,Ntotmax);
     Ncells    = max((int) ((FLOAT) 2.0*(FLOAT) Ncells), 4*Nparticles);
-    gtot        = Ntotmax;
+    gtot        = Nparticles;
 
     firstCell = new int[lmax];
     lastCell  = new int[lmax];
-- 
2.43.0


From 7ff6c9b8fdd1243b82005daf714dd879ecb77995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:50 +0000
Subject: [PATCH 25/84] fix: oct-tree root cell is set up from the particles it
 holds, also when empty

---
 src/Tree/OctTree.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Tree/OctTree.cpp b/src/Tree/OctTree.cpp
index fd1c88f..3a56ad4 100644
--- a/src/Tree/OctTree.cpp
+++ b/src/Tree/OctTree.cpp
@@ -272,15 +272,19 @@ void OctTree<ndim,ParticleType,TreeCell>::BuildTree
   // Set properties for root cell before constructing tree
   Ncell  = 1;
   ltot   = 0;
+  firstCell[0] = 0;
+  lastCell[0]  = 0;
   celldata[0].N      = Ntot;
-  celldata[0].ifirst = _ifirst;
-  celldata[0].ilast  = _ilast;
+  celldata[0].ifirst = ifirst;
+  celldata[0].ilast  = ilast;
   celldata[0].level  = 0;
   celldata[0].copen  = -1;
   celldata[0].hmax = 0;
   for (k=0; k<ndim; k++) celldata[0].cexit[0][k] = -1;
   for (k=0; k<ndim; k++) celldata[0].cexit[1][k] = -1;
   for (k=0; k<ndim; k++) celldata[0].v[k]= (FLOAT) 0.0;
+  for (k=0; k<ndim; k++) celldata[0].bb.min[k] = bbmin[k];
+  for (k=0; k<ndim; k++) celldata[0].bb.max[k] = bbmax[k];
   for (k=0; k<ndim; k++) {
     celldata[0].rcentre[k] = (FLOAT) 0.5*(celldata[0].bb.min[k] + celldata[0].bb.max[k]);
     cellSize = max(cellSize, celldata[0].bb.max[k] - celldata[0].rcentre[k]);
@@ -295,8 +299,6 @@ void OctTree<ndim,ParticleType,TreeCell>::BuildTree
     celllist     = new int[Npartmax];
     Nlist        = 1;
     celllist[0]  = 0;
-    firstCell[0] = 0;
-    lastCell[0]  = 0;
 
 
     // Recursively divide tree to lower levels until all leaf cells contain maximum no. of ptcls.
-- 
2.43.0


From 4fee1b137157662d88a2de5410c6f631a1b53716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:50 +0000
Subject: [PATCH 26/84] fix: oct-tree grows its cell memory instead of
 overrunning it

---
 src/Tree/OctTree.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/Tree/OctTree.cpp b/src/Tree/OctTree.cpp
index 3a56ad4..103202b 100644
--- a/src/Tree/OctTree.cpp
+++ b/src/Tree/OctTree.cpp
@@ -306,6 +306,23 @@ void OctTree<ndim,ParticleType,TreeCell>::BuildTree
     while (!allDone) {
       cellSize *= (FLOAT) 0.5;
 
+      // Ensure there is enough memory for all of the new child cells on this level
+      if (Ncell + Noctchild*Nlist > Ncellmax) {
+        const int Ncellmax_old = Ncellmax;
+        ReallocateMemory(Ntotmax, 2*(Ncell + Noctchild*Nlist));
+        for (c=0; c<Ncell; c++) {
+          if (celldata[c].cnext == Ncellmax_old) celldata[c].cnext = Ncellmax;
+        }
+        for (c=Ncell; c<Ncellmax; c++) {
+          celldata[c].N      = 0;
+          celldata[c].ifirst = -1;
+          celldata[c].ilast  = -1;
+          celldata[c].copen  = -1;
+          celldata[c].cnext  = Ncellmax;
+          celldata[c].id     = c;
+        }
+      }
+
 
       // Loop over all unfinished cells to find new child cell occupancy
       //-------------------------------------------------------------------------------------------
-- 
2.43.0


From 1ca2ca27a896edd2399113c0806a25bf9786b58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:50 +0000
Subject: [PATCH 27/84] fix: oct-tree velocity boxes are reset before they are
 accumulated

---
 src/Tree/OctTree.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Tree/OctTree.cpp b/src/Tree/OctTree.cpp
index 103202b..e24742d 100644
--- a/src/Tree/OctTree.cpp
+++ b/src/Tree/OctTree.cpp
@@ -525,6 +525,8 @@ void OctTree<ndim,ParticleType,TreeCell>::StockTree
       for (k=0; k<ndim; k++) cell.bb.max[k]   = -big_number;
       for (k=0; k<ndim; k++) cell.hbox.min[k] = big_number;
       for (k=0; k<ndim; k++) cell.hbox.max[k] = -big_number;
+      for (k=0; k<ndim; k++) cell.vbox.min[k] = big_number;
+      for (k=0; k<ndim; k++) cell.vbox.max[k] = -big_number;
       for (k=0; k<5; k++) cell.q[k] = (FLOAT) 0.0;
 
 
-- 
2.43.0


From 67003329a1dcbd24ece871e2ac39fc5123d17b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:50 +0000
Subject: [PATCH 28/84] fix: oct-tree cell extents do not depend on the cell
 having mass

---
 src/Tree/OctTree.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Tree/OctTree.cpp b/src/Tree/OctTree.cpp
index e24742d..58ea14d 100644
--- a/src/Tree/OctTree.cpp
+++ b/src/Tree/OctTree.cpp
@@ -590,6 +590,8 @@ void OctTree<ndim,ParticleType,TreeCell>::StockTree
         if (cell.m > 0) {
           for (k=0; k<ndim; k++) cell.r[k] /= cell.m;
           for (k=0; k<ndim; k++) cell.v[k] /= cell.m;
+        }
+        if (cell.N > 0) {
           for (k=0; k<ndim; k++) cell.rcell[k] = (FLOAT) 0.5*(cell.bb.min[k] + cell.bb.max[k]);
           for (k=0; k<ndim; k++) dr[k] = (FLOAT) 0.5*(cell.bb.max[k] - cell.bb.min[k]);
           cell.cdistsqd = max(DotProduct(dr,dr,ndim),cell.hmax*cell.hmax)/thetamaxsqd;
-- 
2.43.0


From e57c67504934ea843ce397188260ebcd4595c390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:50 +0000
Subject: [PATCH 29/84] fix: empty brute-force tree has no active particles

---
 src/Tree/BruteForceTree.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Tree/BruteForceTree.cpp b/src/Tree/BruteForceTree.cpp
index 1f97d05..1cbd64b 100644
--- a/src/Tree/BruteForceTree.cpp
+++ b/src/Tree/BruteForceTree.cpp
@@ -265,6 +265,7 @@ void BruteForceTree<ndim,ParticleType,TreeCell>::BuildTree
   celldata[0].id     = 0;
   celldata[0].level  = 0;
   celldata[0].hmax = 0;
+  celldata[0].Nactive = 0;
   for (k=0; k<ndim; k++) celldata[0].bb.min[k] = bbmin[k];
   for (k=0; k<ndim; k++) celldata[0].bb.max[k] = bbmax[k];
   for (k=0; k<ndim; k++) celldata[0].v[k]= (FLOAT) 0.0;
-- 
2.43.0


From 3cefa165f51f317eb48fceb09bf563bfbc6d2f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:50 +0000
Subject: [PATCH 30/84] fix: brute-force tree has a quadrupole moment in 1D

---
 src/Tree/BruteForceTree.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Tree/BruteForceTree.cpp b/src/Tree/BruteForceTree.cpp
index 1cbd64b..ab0f313 100644
--- a/src/Tree/BruteForceTree.cpp
+++ b/src/Tree/BruteForceTree.cpp
@@ -457,6 +457,9 @@ void BruteForceTree<ndim,ParticleType,TreeCell>::StockTreeProperties
 		  cell.q[1] += mi*(FLOAT) 3.0*dr[0]*dr[1];
 		  cell.q[2] += mi*((FLOAT) 3.0*dr[1]*dr[1] - drsqd);
 		}
+		else if (ndim == 1) {
+		  cell.q[0] += mi*((FLOAT) 3.0*dr[0]*dr[0] - drsqd);
+		}
 	  }
 	  if (i == cell.ilast) break;
 	  i = inext[i];
-- 
2.43.0


From 4e4172bfae700d02a28449d60303690039f9da40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:44 +0000
Subject: [PATCH 31/84] fix: periodic box overlap leaves no uninitialised shift
 in non-periodic dimensions

---
 src/Headers/GhostNeighbours.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Headers/GhostNeighbours.hpp b/src/Headers/GhostNeighbours.hpp
index 297ea0c..412309b 100644
--- a/src/Headers/GhostNeighbours.hpp
+++ b/src/Headers/GhostNeighbours.hpp
@@ -177,6 +177,7 @@ public:
       if (_any_periodic)
         {
           for (int k=0; k<ndim; k++) {
+            dr_corr[k] = 0 ;
             if (_periodic_bound[k]) {
               if (dr[k] > _domain.half[k]) {
                 dr_corr[k] =- _domain.size[k];
@@ -186,8 +187,6 @@ public:
                 dr_corr[k] = _domain.size[k];
                 bound.set(periodic_bound_flags[k][0]) ;
               }
-              else
-                dr_corr[k] = 0 ;
             }
           }
         }
-- 
2.43.0


From 5d2bded2034aea54e686ca66762147850285e749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:44 +0000
Subject: [PATCH 32/84] fix: mirror image construction no longer reads through
 a reference into a vector that can reallocate

---
 src/Headers/GhostNeighbours.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Headers/GhostNeighbours.hpp b/src/Headers/GhostNeighbours.hpp
index 412309b..43aff66 100644
--- a/src/Headers/GhostNeighbours.hpp
+++ b/src/Headers/GhostNeighbours.hpp
@@ -410,7 +410,7 @@ private:
 	int _MakeReflectedScatterGatherGhosts(vector<ParticleType>& ngbs) const {
 	  int nc = 1 ;
 	  const int old_size = ngbs.size()-1;
-	  const ParticleType& real_particle = ngbs.back();
+	  const ParticleType real_particle = ngbs.back();   // n.b. a copy, since ngbs can reallocate
 	  FLOAT h2 = real_particle.hrangesqd ;
 
 	  // Loop over the possible directions for reflections
-- 
2.43.0


From 51383afb46716bd6b0e703b8b0957c26276d1d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:44 +0000
Subject: [PATCH 33/84] fix: gravity demotion of hydro candidates looks at the
 candidate's own type

---
 src/Headers/NeighbourManager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Headers/NeighbourManager.h b/src/Headers/NeighbourManager.h
index 2223acf..efd37b0 100644
--- a/src/Headers/NeighbourManager.h
+++ b/src/Headers/NeighbourManager.h
@@ -460,7 +460,7 @@ private:
         neiblist.push_back(Nneib);
         neib_idx.push_back(i);
         Nneib++;
-      } else if (keep_direct && gravmask[neibdata[Nneib].ptype]) {
+      } else if (keep_direct && gravmask[partdata[i].ptype]) {
         // Hydro candidates that fail the test get demoted to direct neighbours
         neibdata.push_back(partdata[i]);
         directlist.push_back(Nneib);
-- 
2.43.0


From ebed9e8d4fa7f741184c095e6e4dd12cf8667255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:44 +0000
Subject: [PATCH 34/84] fix: point neighbour search passes on the overflow of
 an earlier search

---
 src/Tree/Tree.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Tree/Tree.cpp b/src/Tree/Tree.cpp
index 6796d3b..e7edc51 100644
--- a/src/Tree/Tree.cpp
+++ b/src/Tree/Tree.cpp
@@ -224,6 +224,9 @@ int Tree<ndim,ParticleType,TreeCell>::ComputeGatherNeighbourList
   assert(partdata != NULL);
   assert(neiblist != NULL);
 
+  // Exit immediately if we have overflowed the neighbour list buffer
+  if (Nneib == -1) return -1;
+
 
   //===============================================================================================
   while (cc < Ncell) {
-- 
2.43.0


From 29c094823ccd8db03a0d5667314daa45b267eed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:04 +0000
Subject: [PATCH 35/84] fix: reflect the conserved variables of meshless
 particles at mirror and wall boundaries

---
 src/Common/Integration.cpp        |  2 ++
 src/Headers/Integration.h         |  2 ++
 src/MeshlessFV/MfvIntegration.cpp | 20 ++++++++++++++++++++
 3 files changed, 24 insertions(+)

diff --git a/src/Common/Integration.cpp b/src/Common/Integration.cpp
index de29dcd..4967a68 100644
--- a/src/Common/Integration.cpp
+++ b/src/Common/Integration.cpp
@@ -48,6 +48,7 @@ void TimeIntegration<ndim>::CheckBoundaries
           part.v0[k] = -part.v0[k];
           part.a[k]  = -part.a[k];
           part.a0[k] = -part.a0[k];
+          ReflectIntegrationVariables(part, k);
         }
 
       }
@@ -70,6 +71,7 @@ void TimeIntegration<ndim>::CheckBoundaries
           part.v0[k] = -part.v0[k];
           part.a[k]  = -part.a[k];
           part.a0[k] = -part.a0[k];
+          ReflectIntegrationVariables(part, k);
         }
 
       }
diff --git a/src/Headers/Integration.h b/src/Headers/Integration.h
index 0313092..b0b792e 100644
--- a/src/Headers/Integration.h
+++ b/src/Headers/Integration.h
@@ -60,6 +60,7 @@ class TimeIntegration
                              Hydrodynamics<ndim> *) = 0;
   virtual DOUBLE Timestep(Particle<ndim> &, Hydrodynamics<ndim> *) = 0;
   virtual void CheckBoundaries(DomainBox<ndim> &, Hydrodynamics<ndim> *);
+  virtual void ReflectIntegrationVariables(Particle<ndim> &, const int) {};
 
   static const int vdim=ndim;
   CodeTiming *timing;               ///< Pointer to code timing object
@@ -186,6 +187,7 @@ public:
   void EndTimestep(const int, const FLOAT, const FLOAT, Hydrodynamics<ndim> *);
   int CheckTimesteps(const int, const int, const int, const FLOAT, Hydrodynamics<ndim> *);
   DOUBLE Timestep(Particle<ndim> &, Hydrodynamics<ndim> *);
+  void ReflectIntegrationVariables(Particle<ndim> &, const int);
 
  private:
   const DOUBLE accel_mult ;
diff --git a/src/MeshlessFV/MfvIntegration.cpp b/src/MeshlessFV/MfvIntegration.cpp
index 293df49..4a66ca6 100644
--- a/src/MeshlessFV/MfvIntegration.cpp
+++ b/src/MeshlessFV/MfvIntegration.cpp
@@ -296,6 +296,26 @@ void MfvIntegration<ndim, ParticleType>::SetActiveParticles
   }
 }
 
+//=================================================================================================
+//  MfvIntegration::ReflectIntegrationVariables
+/// Reflect the conserved variables (and their exchanges in the current step) of a particle whose
+/// velocity has been reversed in direction k at a mirror or wall boundary.
+//=================================================================================================
+template <int ndim, template <int> class ParticleType>
+void MfvIntegration<ndim, ParticleType>::ReflectIntegrationVariables
+(Particle<ndim>& part,                ///< [inout] Particle which has crossed the boundary
+ const int k)                         ///< [in] Direction normal to the boundary
+{
+  MeshlessFVParticle<ndim>& mfvpart = static_cast<MeshlessFVParticle<ndim>&>(part);
+
+  mfvpart.Wprim[k]   = -mfvpart.Wprim[k];
+  mfvpart.Qcons0[k]  = -mfvpart.Qcons0[k];
+  mfvpart.dQ[k]      = -mfvpart.dQ[k];
+  mfvpart.dQdt[k]    = -mfvpart.dQdt[k];
+  mfvpart.rdmdt[k]   = -mfvpart.rdmdt[k];
+  mfvpart.rdmdt0[k]  = -mfvpart.rdmdt0[k];
+}
+
 template class MfvIntegration<1,MeshlessFVParticle>;
 template class MfvIntegration<2,MeshlessFVParticle>;
 template class MfvIntegration<3,MeshlessFVParticle>;
-- 
2.43.0


From 665398924e52c2c2bf6abf06f37942efcf05c493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:23 +0000
Subject: [PATCH 36/84] fix: boundary images gathered by particles with larger
 smoothing lengths are created

---
 src/Headers/Hydrodynamics.h         | 1 +
 src/Hydrodynamics/Hydrodynamics.cpp | 3 ++-
 src/Tree/HydroTree.cpp              | 9 +++++++++
 src/Tree/Tree.cpp                   | 5 +++--
 4 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/Headers/Hydrodynamics.h b/src/Headers/Hydrodynamics.h
index a2edd85..34080f0 100644
--- a/src/Headers/Hydrodynamics.h
+++ b/src/Headers/Hydrodynamics.h
@@ -136,6 +136,7 @@ public:
   int NImportedParticles;              ///< No. of imported particles
                                        ///< (to compute forces on behalf of other processors)
   int Nmpighost;                       ///< No. of MPI ghost particles
+  FLOAT hmin_ghost;                    ///< Min. h used in ghost search (images gathered by others)
   int NPeriodicGhost;                  ///< No. of periodic ghost particles
   int Nhydro;                          ///< No. of hydro particles in simulation
   int Nhydromax;                       ///< Max. no. of hydro particles in array
diff --git a/src/Hydrodynamics/Hydrodynamics.cpp b/src/Hydrodynamics/Hydrodynamics.cpp
index 8fde04a..7fcba76 100644
--- a/src/Hydrodynamics/Hydrodynamics.cpp
+++ b/src/Hydrodynamics/Hydrodynamics.cpp
@@ -72,6 +72,7 @@ Hydrodynamics<ndim>::Hydrodynamics(int hydro_forces_aux, int self_gravity_aux, F
   NImportedParticles = 0;
   Nmpighost          = 0;
   NPeriodicGhost     = 0;
+  hmin_ghost         = (FLOAT) 0.0;
   rho_sink           = params->floatparams["rho_sink"]/(units.rho.outscale*units.rho.outcgs);
   create_sinks       = params->intparams["create_sinks"];
   sink_particles     = params->intparams["sink_particles"];
@@ -225,7 +226,7 @@ void Hydrodynamics<ndim>::CheckBoundaryGhostParticle
   Particle<ndim>& part = GetParticlePointer(i);
   const FLOAT r = part.r[j];
   const FLOAT v = part.v[j];
-  const FLOAT h = part.h;
+  const FLOAT h = max(part.h, hmin_ghost);
 
   if (r + min((FLOAT) 0.0, v*tghost) < simbox.min[j] + ghost_range*kernrange*h) {
     if (simbox.boundary_lhs[j] == periodicBoundary) {
diff --git a/src/Tree/HydroTree.cpp b/src/Tree/HydroTree.cpp
index 9d6ff30..a441951 100644
--- a/src/Tree/HydroTree.cpp
+++ b/src/Tree/HydroTree.cpp
@@ -515,6 +515,15 @@ void HydroTree<ndim,ParticleType>::SearchBoundaryGhostParticles
 
   debug2("[HydroTree::SearchBoundaryGhostParticles]");
 
+  // Images must also be created for particles which lie outside their own range of the boundary, but
+  // which are gathered by others with larger smoothing lengths (plus a margin for growing h).
+  FLOAT hmax = (FLOAT) 0.0;
+  for (i=0; i<hydro->Nhydro; i++) {
+    Particle<ndim>& part = hydro->GetParticlePointer(i);
+    if (!part.flags.is_dead()) hmax = max(hmax, part.h);
+  }
+  hydro->hmin_ghost = (FLOAT) 1.25*hmax/ghost_range;
+
 
   // Create ghost particles in x-dimension
   //===============================================================================================
diff --git a/src/Tree/Tree.cpp b/src/Tree/Tree.cpp
index e7edc51..5c71465 100644
--- a/src/Tree/Tree.cpp
+++ b/src/Tree/Tree.cpp
@@ -1111,13 +1111,14 @@ void Tree<ndim,ParticleType,TreeCell>::GenerateBoundaryGhostParticles
   //---------------------------------------------------------------------------------------------
   while (c < Ncell) {
     TreeCell<ndim>* cellptr = &(celldata[c]);
+    const FLOAT hmax = max(cellptr->hmax, hydro->hmin_ghost);
 
     // If x-bounding box overlaps edge of x-domain, open cell
     //-------------------------------------------------------------------------------------------
     if (cellptr->bb.min[j] + min((FLOAT) 0.0,cellptr->v[j]*tghost) <
-        simbox.min[j] + ghost_range*cellptr->hmax ||
+        simbox.min[j] + ghost_range*hmax ||
         cellptr->bb.max[j] + max((FLOAT) 0.0,cellptr->v[j]*tghost) >
-        simbox.max[j] - ghost_range*cellptr->hmax) {
+        simbox.max[j] - ghost_range*hmax) {
 
       // If not a leaf-cell, then open cell to first child cell
       if (cellptr->copen != -1) {
-- 
2.43.0


From 840cf4d73277f16f0fbfdbba346bb790f75bcff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:15 +0000
Subject: [PATCH 37/84] fix: DKD particles woken by their neighbours end their
 step in phase with the new level

---
 src/Hydrodynamics/SphLeapfrogDKD.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Hydrodynamics/SphLeapfrogDKD.cpp b/src/Hydrodynamics/SphLeapfrogDKD.cpp
index 5375fec..65317fb 100644
--- a/src/Hydrodynamics/SphLeapfrogDKD.cpp
+++ b/src/Hydrodynamics/SphLeapfrogDKD.cpp
@@ -255,9 +255,8 @@ int SphLeapfrogDKD<ndim, ParticleType>::CheckTimesteps
       level_new = part.levelneib - level_diff_max;
       nnewstep = pow(2,level_step - level_new);
 
-      // If new level is correctly synchronised at the half-step of the
-      // new-step (where acceleration is computed), then change all quantities
-      if ((2*dn)%nnewstep == 0) {
+      // If new level is correctly synchronised, then change all quantities
+      if (dn%nnewstep == 0) {
         if (dn > 0) part.nstep = dn;
         part.level = level_new;
         part.flags.set(active);
-- 
2.43.0


From b47f2a603d0f88c77a23b4212f1b723d57b580d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:15 +0000
Subject: [PATCH 38/84] fix: KDK particles woken by their neighbours are
 corrected over the step they did make

---
 src/Hydrodynamics/SphLeapfrogKDK.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Hydrodynamics/SphLeapfrogKDK.cpp b/src/Hydrodynamics/SphLeapfrogKDK.cpp
index 88fb25b..81c8cc6 100644
--- a/src/Hydrodynamics/SphLeapfrogKDK.cpp
+++ b/src/Hydrodynamics/SphLeapfrogKDK.cpp
@@ -317,6 +317,7 @@ int SphLeapfrogKDK<ndim, ParticleType>::CheckTimesteps
       // If new level is correctly synchronised, then change all quantities
       if (dn%nnewstep == 0) {
         if (dn > 0) part.nstep = dn;
+        if (dn > 0) part.dt = dn*timetep;
         part.level  = level_new;
         part.flags.set(active);
         activecount++;
-- 
2.43.0


From ecdf7071f756513fc3a7a76befe7b953903e4e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:15 +0000
Subject: [PATCH 39/84] fix: step lengths follow when new timestep levels
 appear

---
 src/Common/Simulation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index 0178e75..c9957bb 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -2141,12 +2141,14 @@ void Simulation<ndim>::ComputeBlockTimesteps(void)
         Particle<ndim>& part = hydro->GetParticlePointer(i);
         if (part.flags.is_dead()) continue;
         if (part.nlast == n) part.nstep = pow(2, level_step - part.level);
+        if (part.nlast == n) part.dt_next = part.nstep * timestep;
       }
     }
     if (nbody != NULL) {
       for (i=0; i<nbody->Nnbody; i++) {
         if (nbody->nbodydata[i]->nlast == n) {
           nbody->nbodydata[i]->nstep = pow(2, level_step - nbody->nbodydata[i]->level);
+          nbody->nbodydata[i]->dt_next = nbody->nbodydata[i]->nstep * timestep;
         }
       }
     }
-- 
2.43.0


From 20c1dab130cbba30416e8f86b20fd6a6c70dfe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:15 +0000
Subject: [PATCH 40/84] fix: a global DKD step is one minimum timestep long,
 not two

---
 src/Common/Simulation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index c9957bb..88d6390 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -1737,13 +1737,13 @@ void Simulation<ndim>::ComputeGlobalTimestep() {
      dt = dt_min;
      MPI_Allreduce(&dt, &dt_min, 1, MPI_DOUBLE, MPI_MIN, MPI_COMM_WORLD);
  #endif
-     timestep = dt_min;
+     timestep = dt_min / (DOUBLE) integration_step;
 
      // Set minimum timestep for all hydro and N-body particles
      if (hydro != NULL)
-       for (i=0; i<hydro->Nhydro; i++) hydro->GetParticlePointer(i).dt_next = timestep;
+       for (i=0; i<hydro->Nhydro; i++) hydro->GetParticlePointer(i).dt_next = dt_min;
      if (nbody != NULL)
-       for (i=0; i<nbody->Nnbody; i++) nbody->nbodydata[i]->dt_next = timestep;
+       for (i=0; i<nbody->Nnbody; i++) nbody->nbodydata[i]->dt_next = dt_min;
 
    }
    //-----------------------------------------------------------------------------------------------
-- 
2.43.0


From ba63a9398780a085b5a4b0f008d339fa37301367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:26 +0000
Subject: [PATCH 41/84] fix: exchanges with mirror images follow the pair-once
 rule and reach the image's particle

---
 src/Headers/NeighbourManager.h    |  4 ++--
 src/MeshlessFV/MeshlessFVTree.cpp | 30 +++++++++++++++++++++++++-----
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/Headers/NeighbourManager.h b/src/Headers/NeighbourManager.h
index efd37b0..acb66b0 100644
--- a/src/Headers/NeighbourManager.h
+++ b/src/Headers/NeighbourManager.h
@@ -546,12 +546,12 @@ private:
   bool _first_appearance(const InParticleType& p, const ParticleType& neibpart, _true_type) {
     // Get the neighbour only if this is it's first appearance, which will be true if any of
     // the following criteria are met.
-    // (i)   the particle is a ghost
+    // (i)   the neighbour is a mirror image of the particle itself
     // (ii)  same i.d. as current active particle
     // (iii) neighbour is on lower timestep level
     // (iv)  the neighbour is on same timestep level as current particle but has larger id value
     return
-        (neibpart.flags.is_mirror()) ||
+        (neibpart.flags.is_mirror() && p.iorig == neibpart.iorig) ||
         (p.level > neibpart.level) ||
         (p.level == neibpart.level &&  p.iorig < neibpart.iorig);
   }
diff --git a/src/MeshlessFV/MeshlessFVTree.cpp b/src/MeshlessFV/MeshlessFVTree.cpp
index e7d1a50..3b2ce35 100644
--- a/src/MeshlessFV/MeshlessFVTree.cpp
+++ b/src/MeshlessFV/MeshlessFVTree.cpp
@@ -582,9 +582,22 @@ void MeshlessFVTree<ndim,ParticleType>::UpdateGodunovFluxes
         neibmanager.VerifyNeighbourList(i, mfv->Nhydro, mfvdata, "all");
 #endif
 
+        // Keep the particle's own mirror images as they are
+        vector<FluxParticle> ownimages;
+        for (int jj=0; jj<(int) neiblist.size(); jj++) {
+          if (neiblist[jj].flags.is_mirror() && neiblist[jj].iorig == activepart[j].iorig)
+            ownimages.push_back(neiblist[jj]);
+        }
+
         // Compute all neighbour contributions to hydro fluxes
         mfv->ComputeGodunovFlux(activepart[j], neiblist, timestep);
 
+        // Exchanges with its own mirror images are recorded by the particle itself only
+        for (int jj=0, m=0; jj<(int) neiblist.size() && m<(int) ownimages.size(); jj++) {
+          if (neiblist[jj].flags.is_mirror() && neiblist[jj].iorig == activepart[j].iorig)
+            neiblist[jj] = ownimages[m++];
+        }
+
       }
       //-------------------------------------------------------------------------------------------
 
@@ -594,12 +607,19 @@ void MeshlessFVTree<ndim,ParticleType>::UpdateGodunovFluxes
     	std::pair<int,FluxParticle*> neighbour=neibmanager.GetNeibI(jj);
     	const int i=neighbour.first;
     	FluxParticle& neibpart=*(neighbour.second);
-        if (!neibpart.flags.is_mirror()) {
-	        if (neibpart.flags.check(active))
-	          for (k=0; k<ndim+2; k++) fluxBuffer[i][k] += neibpart.dQdt[k];
-          for (k=0; k<ndim+2; k++) dQBuffer[i][k] += neibpart.dQ[k];
-          for (k=0; k<ndim; k++) rdmdtBuffer[i][k] += neibpart.rdmdt[k];
+        // Exchanges with a mirror image belong, reflected back, to the particle itself
+        for (k=0; k<ndim; k++) {
+          if (neibpart.flags.check(mirror_bound_flags[k][0]) !=
+              neibpart.flags.check(mirror_bound_flags[k][1])) {
+            neibpart.dQdt[k]  *= (FLOAT) -1.0;
+            neibpart.dQ[k]    *= (FLOAT) -1.0;
+            neibpart.rdmdt[k] *= (FLOAT) -1.0;
+          }
         }
+        if (neibpart.flags.check(active))
+          for (k=0; k<ndim+2; k++) fluxBuffer[i][k] += neibpart.dQdt[k];
+        for (k=0; k<ndim+2; k++) dQBuffer[i][k] += neibpart.dQ[k];
+        for (k=0; k<ndim; k++) rdmdtBuffer[i][k] += neibpart.rdmdt[k];
       }
       // Add all active particles contributions to main array
       for (int j=0; j<Nactive; j++) {
-- 
2.43.0


From 73014953bf93167c02b09e3d7bddd170a08a8a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:02 +0000
Subject: [PATCH 42/84] fix: Runge-Kutta meshless fluxes flow across the face
 from the particle to its neighbour

---
 src/MeshlessFV/MfvRungeKutta.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MeshlessFV/MfvRungeKutta.cpp b/src/MeshlessFV/MfvRungeKutta.cpp
index 4753401..dc144e7 100644
--- a/src/MeshlessFV/MfvRungeKutta.cpp
+++ b/src/MeshlessFV/MfvRungeKutta.cpp
@@ -133,7 +133,7 @@ void MfvRungeKutta<ndim, kernelclass,SlopeLimiter>::ComputeGodunovFlux
 
     // Compute the face area
     for (k=0; k<ndim; k++)
-      Aij[k] = volume_i*psitildaj[k] - volume_j*psitildai[k];
+      Aij[k] = volume_j*psitildai[k] - volume_i*psitildaj[k];
 
     // Calculate position and velocity of the face
     if (staticParticles) {
-- 
2.43.0


From 067b6764a8cc9bede1a267f0d481e8013cffea75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:02 +0000
Subject: [PATCH 43/84] fix: Runge-Kutta meshless fluxes evolve the left state
 with its own gradients

---
 src/MeshlessFV/MfvRungeKutta.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/MeshlessFV/MfvRungeKutta.cpp b/src/MeshlessFV/MfvRungeKutta.cpp
index dc144e7..edf4202 100644
--- a/src/MeshlessFV/MfvRungeKutta.cpp
+++ b/src/MeshlessFV/MfvRungeKutta.cpp
@@ -83,6 +83,7 @@ void MfvRungeKutta<ndim, kernelclass,SlopeLimiter>::ComputeGodunovFlux
   FLOAT Wright[nvar];                  // Primitive vector for RHS of Riemann problem
   FLOAT Wdot[nvar];                    // Time derivative of primitive vector
   FLOAT gradW[nvar][ndim];             // Gradient of primitive vector
+  FLOAT gradWright[nvar][ndim];        // Gradient of primitive vector on the RHS
   FLOAT dW[nvar];                      // Change in primitive quantities
   const FLOAT dt = timestep*(FLOAT) part.nstep;    // Timestep of given particle
 
@@ -157,7 +158,7 @@ void MfvRungeKutta<ndim, kernelclass,SlopeLimiter>::ComputeGodunovFlux
 
     // Compute slope-limited values for RHS
     for (k=0; k<ndim; k++) draux[k] = rface[k] - neibpart[j].r[k];
-    limiter.ComputeLimitedSlopes(neibpart[j], part, draux, gradW, dW);
+    limiter.ComputeLimitedSlopes(neibpart[j], part, draux, gradWright, dW);
     for (var=0; var<nvar; var++) Wright[var] = neibpart[j].Wprim[var] + dW[var];
     for (k=0; k<ndim; k++) Wright[k] -= vface[k];
 
@@ -184,7 +185,7 @@ void MfvRungeKutta<ndim, kernelclass,SlopeLimiter>::ComputeGodunovFlux
     for (var=0; var<nvar; var++) Wleft[var] += (FLOAT) Wdot[var]*dt;
 
     // Time-integrate RHS state to half-timestep value
-    this->CalculatePrimitiveTimeDerivative(Wright, gradW, neibpart[j].sound, Wdot);
+    this->CalculatePrimitiveTimeDerivative(Wright, gradWright, neibpart[j].sound, Wdot);
     for (k=0; k<ndim; k++) Wdot[k] += neibpart[j].a[k];
     for (var=0; var<nvar; var++) Wright[var] += (FLOAT) Wdot[var]*dt;
 
-- 
2.43.0


From e30ac70155f314e0603d0b2064ee92449457a505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:26 +0000
Subject: [PATCH 44/84] fix: the Runge-Kutta main loop sets the next timesteps
 before it ends the current ones

---
 src/MeshlessFV/MfvRungeKuttaSimulation.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/MeshlessFV/MfvRungeKuttaSimulation.cpp b/src/MeshlessFV/MfvRungeKuttaSimulation.cpp
index 074980c..ffb3e57 100644
--- a/src/MeshlessFV/MfvRungeKuttaSimulation.cpp
+++ b/src/MeshlessFV/MfvRungeKuttaSimulation.cpp
@@ -64,13 +64,6 @@ void MfvRungeKuttaSimulation<ndim>::MainLoop(void)
   debug2("[MfvRungeKuttaSimulation::MainLoop]");
 
 
-  // Compute timesteps for all particles
-  if (Nlevels == 1) {
-    this->ComputeGlobalTimestep();
-  }
-  else {
-    this->ComputeBlockTimesteps();
-  }
   LocalGhosts->CopyHydroDataToGhosts(simbox,mfv);
 
   // Update the numerical fluxes of all active particles
@@ -181,6 +174,14 @@ void MfvRungeKuttaSimulation<ndim>::MainLoop(void)
   //-----------------------------------------------------------------------------------------------
 
 
+  // Compute timesteps for all particles (for the next step)
+  if (Nlevels == 1) {
+    this->ComputeGlobalTimestep();
+  }
+  else {
+    this->ComputeBlockTimesteps();
+  }
+
   // End-step terms for all hydro particles
   hydroint->EndTimestep(n, t, timestep, mfv);
   nbody->EndTimestep(n, nbody->Nnbody, t, timestep, nbody->nbodydata);
-- 
2.43.0


From 65bb108c755dd34bb36e8cefe294d09fcca06a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:03 +0000
Subject: [PATCH 45/84] fix: the meshless density iteration tests the
 convergence of the smoothing length it iterates

---
 src/MeshlessFV/MfvCommon.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MeshlessFV/MfvCommon.cpp b/src/MeshlessFV/MfvCommon.cpp
index 5747412..6156964 100644
--- a/src/MeshlessFV/MfvCommon.cpp
+++ b/src/MeshlessFV/MfvCommon.cpp
@@ -169,8 +169,8 @@ int MfvCommon<ndim, kernelclass,SlopeLimiter>::ComputeH
     rho       = part.m*ndens;
 
     // If h changes below some fixed tolerance, exit iteration loop
-    if (part.rho > (FLOAT) 0.0 && part.h > h_lower_bound &&
-        fabs(part.h - h_fac*pow(volume,MeshlessFV<ndim>::invndim)) < h_converge) break;
+    if (ndens > (FLOAT) 0.0 && h > h_lower_bound &&
+        fabs(h - h_fac*pow(volume,MeshlessFV<ndim>::invndim))*invh < h_converge) break;
 
 
     // Use fixed-point iteration, i.e. h_new = h_fac*(m/rho_old)^(1/ndim), for now.  If this does
-- 
2.43.0


From 528131c6010d0140c4fd9e485e9233d592a76265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:03 +0000
Subject: [PATCH 46/84] fix: meshless omega and zeta are computed from the sums
 over the neighbours

---
 src/MeshlessFV/MfvCommon.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MeshlessFV/MfvCommon.cpp b/src/MeshlessFV/MfvCommon.cpp
index 6156964..607352e 100644
--- a/src/MeshlessFV/MfvCommon.cpp
+++ b/src/MeshlessFV/MfvCommon.cpp
@@ -217,9 +217,9 @@ int MfvCommon<ndim, kernelclass,SlopeLimiter>::ComputeH
   part.hfactor   = pow(1/part.h, ndim+1);
   part.hrangesqd = kern.kernrangesqd*part.h*part.h;
   part.div_v     = (FLOAT) 0.0;
-  part.invomega  = (FLOAT) 1.0 + (FLOAT) MeshlessFV<ndim>::invndim*part.h*part.invomega/part.ndens;
+  part.invomega  = (FLOAT) 1.0 + (FLOAT) MeshlessFV<ndim>::invndim*part.h*invomega/part.ndens;
   part.invomega  = (FLOAT) 1.0/part.invomega;
-  part.zeta      = -(FLOAT) MeshlessFV<ndim>::invndim*part.m*part.h*part.zeta*part.invomega/part.ndens;
+  part.zeta      = -(FLOAT) MeshlessFV<ndim>::invndim*part.m*part.h*zeta*part.invomega/part.ndens;
   
 
   // Set important thermal variables here
-- 
2.43.0


From 48040769313bf45b169eabf286a8cbfb38d5a736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:51 +0000
Subject: [PATCH 47/84] fix: block DKD steps set at resynchronisation are as
 long as their levels say

---
 src/Common/Simulation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index 88d6390..2353899 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -1852,6 +1852,7 @@ void Simulation<ndim>::ComputeBlockTimesteps(void)
     level_max  = Nlevels - 1;
     level_step = level_max + integration_step - 1;
     dt_max     = timestep*pow(2.0, level_max);
+    timestep   = dt_max/pow(2.0, level_step);
 
     // Calculate the maximum level occupied by all SPH particles
     level_max_hydro = min(ComputeTimestepLevel(dt_min_hydro, dt_max), level_max);
-- 
2.43.0


From e1f28fa0a68d65eedcc9be813eb5eadedac2e9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:06 +0000
Subject: [PATCH 48/84] fix: a particle exchanges no mass or energy with its
 own corner images

---
 src/MeshlessFV/MeshlessFVTree.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/MeshlessFV/MeshlessFVTree.cpp b/src/MeshlessFV/MeshlessFVTree.cpp
index 3b2ce35..e19bee3 100644
--- a/src/MeshlessFV/MeshlessFVTree.cpp
+++ b/src/MeshlessFV/MeshlessFVTree.cpp
@@ -592,10 +592,19 @@ void MeshlessFVTree<ndim,ParticleType>::UpdateGodunovFluxes
         // Compute all neighbour contributions to hydro fluxes
         mfv->ComputeGodunovFlux(activepart[j], neiblist, timestep);
 
-        // Exchanges with its own mirror images are recorded by the particle itself only
+        // Momentum exchanged with its own mirror images (along the directions of reflection) is
+        // recorded by the particle itself only; all other exchanges with them cancel
         for (int jj=0, m=0; jj<(int) neiblist.size() && m<(int) ownimages.size(); jj++) {
-          if (neiblist[jj].flags.is_mirror() && neiblist[jj].iorig == activepart[j].iorig)
-            neiblist[jj] = ownimages[m++];
+          if (neiblist[jj].flags.is_mirror() && neiblist[jj].iorig == activepart[j].iorig) {
+            for (k=0; k<ndim; k++) {
+              if (neiblist[jj].flags.check(mirror_bound_flags[k][0]) !=
+                  neiblist[jj].flags.check(mirror_bound_flags[k][1])) {
+                neiblist[jj].dQ[k]   = ownimages[m].dQ[k];
+                neiblist[jj].dQdt[k] = ownimages[m].dQdt[k];
+              }
+            }
+            m++;
+          }
         }
 
       }
-- 
2.43.0


From 8313032a338fbc28f52a745a31cebd7055db46d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:27 +0000
Subject: [PATCH 49/84] fix: the second Runge-Kutta state of a pair uses the
 same working face as the first

---
 src/MeshlessFV/MfvRungeKutta.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/MeshlessFV/MfvRungeKutta.cpp b/src/MeshlessFV/MfvRungeKutta.cpp
index edf4202..8f7a047 100644
--- a/src/MeshlessFV/MfvRungeKutta.cpp
+++ b/src/MeshlessFV/MfvRungeKutta.cpp
@@ -167,6 +167,9 @@ void MfvRungeKutta<ndim, kernelclass,SlopeLimiter>::ComputeGodunovFlux
     assert(Wright[irho] > 0.0);
     assert(Wright[ipress] > 0.0);
 
+    FLOAT vface0[ndim];
+    for (k=0; k<ndim; k++) vface0[k] = vface[k];
+
     // Calculate Godunov flux using the selected Riemann solver
     if (RiemannSolverType == exact)
       riemannExact.ComputeFluxes(Wright, Wleft, dr_unit, vface, flux);
@@ -179,6 +182,9 @@ void MfvRungeKutta<ndim, kernelclass,SlopeLimiter>::ComputeGodunovFlux
       neibpart[j].dQ[var] += 0.5*DotProduct(flux[var], Aij, ndim)*dt;
     }
 
+    // The Riemann solver may have moved the face (zero mass flux); restore it for the second state
+    for (k=0; k<ndim; k++) vface[k] = vface0[k];
+
     // Time-integrate LHS state to half-timestep value
     this->CalculatePrimitiveTimeDerivative(Wleft, gradW, part.sound, Wdot);
     for (k=0; k<ndim; k++) Wdot[k] += part.a[k];
-- 
2.43.0


From dc50d056b9b550deafc8c400b8fdc3de35825620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:39 +0000
Subject: [PATCH 50/84] fix: the rate of change of the mm97 viscosity does not
 add up over steps

---
 src/Hydrodynamics/Sph.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Hydrodynamics/Sph.cpp b/src/Hydrodynamics/Sph.cpp
index 8230698..f06a25f 100644
--- a/src/Hydrodynamics/Sph.cpp
+++ b/src/Hydrodynamics/Sph.cpp
@@ -133,6 +133,7 @@ void Sph<ndim>::ZeroAccelerations()
       part.dudt      = (FLOAT) 0.0;
       part.gpot      = (FLOAT) 0.0;
       part.gpot_hydro= (FLOAT) 0.0;
+      if (tdavisc == mm97) part.dalphadt = (FLOAT) 0.0;
       for (int k=0; k<ndim; k++) part.a[k] = (FLOAT) 0.0;
       for (int k=0; k<ndim; k++) part.atree[k] = (FLOAT) 0.0;
     }
-- 
2.43.0


From 3b35e820ed86816784a7d5297f08de64adb2f830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:39 +0000
Subject: [PATCH 51/84] fix: mm97 viscosity grows in compression with
 self-gravity, as without

---
 src/GradhSph/GradhSph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GradhSph/GradhSph.cpp b/src/GradhSph/GradhSph.cpp
index 17e7049..f30868a 100644
--- a/src/GradhSph/GradhSph.cpp
+++ b/src/GradhSph/GradhSph.cpp
@@ -578,7 +578,7 @@ void GradhSph<ndim, kernelclass>::ComputeSphHydroGravForces
   parti.dudt    -= eos->Pressure(parti)*parti.div_v*invrho_i*parti.invomega;
   if (tdavisc == mm97) {
     parti.dalphadt = (FLOAT) 0.1*parti.sound*(alpha_visc_min - parti.alpha)*invh_i +
-        max(parti.div_v,(FLOAT) 0.0)*(alpha_visc - parti.alpha);
+        max(-parti.div_v,(FLOAT) 0.0)*(alpha_visc - parti.alpha);
   }
 
   return;
-- 
2.43.0


From ca6fd1ade99ae25fa8f7acba2ad023545e96ca4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:38 +0000
Subject: [PATCH 52/84] fix: no reference to the first of no gravity cells

---
 src/Headers/NeighbourManagerBase.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Headers/NeighbourManagerBase.h b/src/Headers/NeighbourManagerBase.h
index e40aa66..cf9853c 100644
--- a/src/Headers/NeighbourManagerBase.h
+++ b/src/Headers/NeighbourManagerBase.h
@@ -72,7 +72,7 @@ public:
 	/// \brief Get the number of multipole moments stored, and return a pointer to them.
 	//===============================================================================================
 	int GetGravCell (MultipoleMoment<ndim>** gravcell_p) {
-	  *gravcell_p = &gravcell[0];
+	  *gravcell_p = gravcell.empty() ? NULL : &gravcell[0];
 	  return gravcell.size();
 	}
 
-- 
2.43.0


From 0629e713cbe070597fb6861db488c5f23de2163b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:09 +0000
Subject: [PATCH 53/84] fix: the rate of change of the viscosity is kept in
 runs with self-gravity

---
 src/GradhSph/GradhSphTree.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GradhSph/GradhSphTree.cpp b/src/GradhSph/GradhSphTree.cpp
index 671f1bc..d842e75 100644
--- a/src/GradhSph/GradhSphTree.cpp
+++ b/src/GradhSph/GradhSphTree.cpp
@@ -616,6 +616,7 @@ void GradhSphTree<ndim,ParticleType>::UpdateAllSphForces
         sphdata[i].gpot_hydro += activepart[j].gpot_hydro;
         sphdata[i].dudt  += activepart[j].dudt;
         sphdata[i].div_v += activepart[j].div_v;
+        sphdata[i].dalphadt = activepart[j].dalphadt;
         levelneib[i]      = max(levelneib[i],activepart[j].levelneib);
       }
 
-- 
2.43.0


From aa3e433fffce7dbc61aa691d50ce9f7421d4c888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:57 +0000
Subject: [PATCH 54/84] fix: the self-potential of gas is counted once

---
 src/GradhSph/GradhSphTree.cpp     | 2 +-
 src/MeshlessFV/MeshlessFVTree.cpp | 7 ++-----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/GradhSph/GradhSphTree.cpp b/src/GradhSph/GradhSphTree.cpp
index d842e75..0ee90a3 100644
--- a/src/GradhSph/GradhSphTree.cpp
+++ b/src/GradhSph/GradhSphTree.cpp
@@ -509,7 +509,7 @@ void GradhSphTree<ndim,ParticleType>::UpdateAllSphForces
         activepart[j].div_v     = (FLOAT) 0.0;
         activepart[j].dudt      = (FLOAT) 0.0;
         activepart[j].levelneib = 0;
-        activepart[j].gpot      = (activepart[j].m/activepart[j].h)*sph->kernp->wpot(0.0);
+        activepart[j].gpot      = (FLOAT) 0.0;
         for (int k=0; k<ndim; k++) activepart[j].a[k]     = (FLOAT) 0.0;
         for (int k=0; k<ndim; k++) activepart[j].atree[k] = (FLOAT) 0.0;
       }
diff --git a/src/MeshlessFV/MeshlessFVTree.cpp b/src/MeshlessFV/MeshlessFVTree.cpp
index e19bee3..766cc46 100644
--- a/src/MeshlessFV/MeshlessFVTree.cpp
+++ b/src/MeshlessFV/MeshlessFVTree.cpp
@@ -764,11 +764,8 @@ void MeshlessFVTree<ndim,ParticleType>::UpdateAllGravForces
       // Do the self-gravity contribution, or just the stars
       if (self_gravity) {
 
-        // Include self-term for potential
-        // TODO:
-        //   Check: Is this now accounted for in the neighbour list?
-        for (int j=0; j<Nactive; j++)
-          activepart[j].gpot = (activepart[j].m/activepart[j].h)*mfv->kernp->wpot((FLOAT) 0.0);
+        // The self-term of the potential comes with the neighbour list, which contains the particle
+        for (int j=0; j<Nactive; j++) activepart[j].gpot = (FLOAT) 0.0;
 
 
         // Compute neighbour list for cell depending on physics options
-- 
2.43.0


From c91a912bcdcea0cb7ca196669cacbf5fc3f7a94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:57 +0000
Subject: [PATCH 55/84] fix: gravity neighbours' levels are those of the
 neighbours

---
 src/GradhSph/GradhSph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GradhSph/GradhSph.cpp b/src/GradhSph/GradhSph.cpp
index f30868a..21a094d 100644
--- a/src/GradhSph/GradhSph.cpp
+++ b/src/GradhSph/GradhSph.cpp
@@ -638,7 +638,7 @@ void GradhSph<ndim, kernelclass>::ComputeSphGravForces
     for (k=0; k<ndim; k++) parti.atree[k] += neibpart[j].m*dr[k]*paux;
     parti.gpot += neibpart[j].m*gaux;
 
-    parti.levelneib = max(parti.levelneib,sphdata[j].level);
+    parti.levelneib = max(parti.levelneib,neibpart[j].level);
   }
 
   //===============================================================================================
-- 
2.43.0


From 1bbba899febb64e018484d5607823deb9e02342b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:57 +0000
Subject: [PATCH 56/84] fix: softened gravity neighbours are taken at their
 nearest periodic image

---
 src/Headers/NeighbourManager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Headers/NeighbourManager.h b/src/Headers/NeighbourManager.h
index acb66b0..3b4418d 100644
--- a/src/Headers/NeighbourManager.h
+++ b/src/Headers/NeighbourManager.h
@@ -509,7 +509,7 @@ private:
 
       // Compute relative position and distance quantities for pair
       for (int k=0; k<ndim; k++) draux[k] = neibpart.r[k] - rp[k];
-      if (j < _NPeriodicGhosts && hydromask[neibpart.ptype])
+      if (j < _NPeriodicGhosts)
         GhostFinder.ApplyPeriodicDistanceCorrection(neibpart.r, draux);
 
       const FLOAT drsqd = DotProduct(draux,draux,ndim);
-- 
2.43.0


From c992122dd7367804d68db28008fe560693247eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:57 +0000
Subject: [PATCH 57/84] fix: the walk for stars always has room for the last
 leaf (endless loop)

---
 src/Tree/HydroTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Tree/HydroTree.cpp b/src/Tree/HydroTree.cpp
index a441951..bcb33a1 100644
--- a/src/Tree/HydroTree.cpp
+++ b/src/Tree/HydroTree.cpp
@@ -599,7 +599,7 @@ void HydroTree<ndim,ParticleType>::UpdateAllStarGasForces
     int Ndirect;                                 // No. of direct-sum gravity particles
     int Ngravcell;                               // No. of gravity cells
     int Nneib;                                   // No. of neighbours
-    int Nneibmax = Ntot; //Nneibmaxbuf[ithread];
+    int Nneibmax = Ntot + Nleafmax;              // (Walk needs room for another full leaf)
     int Ngravcellmax = Ngravcellmaxbuf[ithread]; // ..
     FLOAT macfactor;                             // Gravity MAC factor
     int* neiblist = new int[Nneibmax];           // ..
-- 
2.43.0


From 63b443060385d4583e5c4e69f94d2fe532a888f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:14 +0000
Subject: [PATCH 58/84] fix: the periodic correction's potential is
 interpolated, and is finite at the origin

---
 src/Common/Ewald.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/Common/Ewald.cpp b/src/Common/Ewald.cpp
index d3c941c..bf3e2f0 100644
--- a/src/Common/Ewald.cpp
+++ b/src/Common/Ewald.cpp
@@ -314,6 +314,13 @@ Ewald<ndim>::Ewald(DomainBox<ndim> &simbox, int _gr_bhewaldseriesn, int _in, int
                   rni     = sqrt(rni2);
                   nterms++;
 
+                  // At the origin, the 1/r term of the central particle itself is left out below and
+                  // its short-range part is the limit of (erfc(alpha*r) - 1)/r
+                  if (rni2 == 0.0) {
+                    ewald_field[ewald_index] -= 2.0*ewald_alpha/sqrt(pi);
+                    continue;
+                  }
+
                   ewald_field[ewald_index] = ewald_field[ewald_index] + erfc(ewald_alpha*rni)/rni;
 
                   for (jj=1; jj<4; jj++) {
@@ -409,6 +416,7 @@ Ewald<ndim>::Ewald(DomainBox<ndim> &simbox, int _gr_bhewaldseriesn, int _in, int
 
           // subtract the 1/r term from potential and 1/r**2 from acceleration
           rni = sqrt(pow(x,2)+pow(y,2)+pow(z,2));
+          if (rni == 0.0) continue;
           assert(ewald_index + 3*one_component < 4*one_component);
           ewald_field[ewald_index] -= 1.0/rni;
           ewald_field[ewald_index + one_component] -= x/pow(rni,3);
@@ -418,12 +426,11 @@ Ewald<ndim>::Ewald(DomainBox<ndim> &simbox, int _gr_bhewaldseriesn, int _in, int
       }
     }
 
-    // omit NaN caused by 1/0 at the origin
-    ewald_field[0] = 0.0;
+    // there is no acceleration at the origin
     ewald_field[one_component] = 0.0;
     ewald_field[2*one_component] = 0.0;
     ewald_field[3*one_component] = 0.0;
-    assert(ewald_field[0] == 0.0 && ewald_field[one_component] == 0.0 &&
+    assert(ewald_field[one_component] == 0.0 &&
            ewald_field[2*one_component] == 0 && ewald_field[3*one_component] == 0);
 
     // write the Ewald field into file
@@ -651,7 +658,7 @@ void Ewald<ndim>::CalculatePeriodicCorrection
         wf[6]*ewald_field[indexBase3 + Ngrid[0]] + wf[7] * ewald_field[indexBase3 + Ngrid[0] + 1];
     }
 
-    gpotcorr += m*ewald_field[indexBase0];
+    gpotcorr += m*grEwald[0];
     for (k=0; k<ndim; k++) {
       acorr[k] += m*grEwald[k+1]*sgn(dr[k]);
     }
-- 
2.43.0


From cce5e891e7a8ccff2851cdecfb5cff0203aad7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:14 +0000
Subject: [PATCH 59/84] fix: only periodic directions have a nearest image in
 the Ewald correction

---
 src/Common/Ewald.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Common/Ewald.cpp b/src/Common/Ewald.cpp
index bf3e2f0..470fa19 100644
--- a/src/Common/Ewald.cpp
+++ b/src/Common/Ewald.cpp
@@ -529,8 +529,10 @@ void Ewald<ndim>::CalculatePeriodicCorrection
     gpotcorr = 0 ;
 
     // Correct the distance and pre-computed force if position used wasn't the nearest periodic
-    // distance
-    if (fabs(dr[0]) > 0.5*lx_per || fabs(dr[1]) > 0.5*ly_per || fabs(dr[2]) > 0.5*lz_per) {
+    // distance (there is none nearer in the directions that are not periodic)
+    double size[3] = { 0.5*lx_per, 0.5*ly_per, 0.5*lz_per } ;
+    for (k=0; k<ndim; k++) if (!(ewald_periodicity & (1 << k))) size[k] = big_number_dp;
+    if (fabs(dr[0]) > size[0] || fabs(dr[1]) > size[1] || fabs(dr[2]) > size[2]) {
       // Subract off the old force:
       double inv_dr = 1 / sqrt(DotProduct(dr, dr, ndim) + small_number);
       double inv_dr3 = inv_dr*inv_dr*inv_dr;
@@ -539,7 +541,6 @@ void Ewald<ndim>::CalculatePeriodicCorrection
       gpotcorr -= m*inv_dr ;
 
       // Correct the distance
-      double size[3] = { 0.5*lx_per, 0.5*ly_per, 0.5*lz_per } ;
       for (k=0; k<ndim;k++) {
         if (dr[k] > size[k])
           dr[k] -= 2*size[k] ;
-- 
2.43.0


From 3318eef867175b833895ab74bdf8940c40d8bd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:50 +0000
Subject: [PATCH 60/84] fix: cells without gravitating particles are centred on
 their particles (NaN or wrong fast multipoles)

---
 src/Tree/BruteForceTree.cpp | 1 +
 src/Tree/KDTree.cpp         | 2 ++
 src/Tree/OctTree.cpp        | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/src/Tree/BruteForceTree.cpp b/src/Tree/BruteForceTree.cpp
index ab0f313..3ad656a 100644
--- a/src/Tree/BruteForceTree.cpp
+++ b/src/Tree/BruteForceTree.cpp
@@ -430,6 +430,7 @@ void BruteForceTree<ndim,ParticleType,TreeCell>::StockTreeProperties
   }
   if (cell.N > 0) {
     for (k=0; k<ndim; k++) cell.rcell[k] = (FLOAT) 0.5*(cell.bb.min[k] + cell.bb.max[k]);
+    if (!(cell.m > 0)) for (k=0; k<ndim; k++) cell.r[k] = cell.rcell[k];
     for (k=0; k<ndim; k++) dr[k] = (FLOAT) 0.5*(cell.bb.max[k] - cell.bb.min[k]);
     cell.cdistsqd = max(DotProduct(dr,dr,ndim),cell.hmax*cell.hmax)/thetamaxsqd;
     cell.rmax = sqrt(DotProduct(dr,dr,ndim));
diff --git a/src/Tree/KDTree.cpp b/src/Tree/KDTree.cpp
index 771d5b3..0def087 100644
--- a/src/Tree/KDTree.cpp
+++ b/src/Tree/KDTree.cpp
@@ -913,6 +913,7 @@ void KDTree<ndim,ParticleType,TreeCell>::StockCellProperties
     }
     if (cell.N > 0) {
       for (k=0; k<ndim; k++) cell.rcell[k] = (FLOAT) 0.5*(cell.bb.min[k] + cell.bb.max[k]);
+      if (!(cell.m > 0)) for (k=0; k<ndim; k++) cell.r[k] = cell.rcell[k];
       for (k=0; k<ndim; k++) dr[k] = (FLOAT) 0.5*(cell.bb.max[k] - cell.bb.min[k]);
       cell.cdistsqd = max(DotProduct(dr,dr,ndim),cell.hmax*cell.hmax)/thetamaxsqd;
       cell.rmax = sqrt(DotProduct(dr,dr,ndim));
@@ -993,6 +994,7 @@ void KDTree<ndim,ParticleType,TreeCell>::StockCellProperties
     }
     if (cell.N > 0) {
       for (k=0; k<ndim; k++) cell.rcell[k] = (FLOAT) 0.5*(cell.bb.min[k] + cell.bb.max[k]);
+      if (!(cell.m > 0)) for (k=0; k<ndim; k++) cell.r[k] = cell.rcell[k];
       for (k=0; k<ndim; k++) dr[k] = (FLOAT) 0.5*(cell.bb.max[k] - cell.bb.min[k]);
       cell.cdistsqd = max(DotProduct(dr,dr,ndim),cell.hmax*cell.hmax)/thetamaxsqd;
       cell.rmax = sqrt(DotProduct(dr,dr,ndim));
diff --git a/src/Tree/OctTree.cpp b/src/Tree/OctTree.cpp
index 58ea14d..2efc4ce 100644
--- a/src/Tree/OctTree.cpp
+++ b/src/Tree/OctTree.cpp
@@ -593,6 +593,7 @@ void OctTree<ndim,ParticleType,TreeCell>::StockTree
         }
         if (cell.N > 0) {
           for (k=0; k<ndim; k++) cell.rcell[k] = (FLOAT) 0.5*(cell.bb.min[k] + cell.bb.max[k]);
+          if (!(cell.m > 0)) for (k=0; k<ndim; k++) cell.r[k] = cell.rcell[k];
           for (k=0; k<ndim; k++) dr[k] = (FLOAT) 0.5*(cell.bb.max[k] - cell.bb.min[k]);
           cell.cdistsqd = max(DotProduct(dr,dr,ndim),cell.hmax*cell.hmax)/thetamaxsqd;
           cell.rmax = sqrt(DotProduct(dr,dr,ndim));
@@ -667,6 +668,7 @@ void OctTree<ndim,ParticleType,TreeCell>::StockTree
           for (k=0; k<ndim; k++) cell.v[k] /= cell.m;
         }
         for (k=0; k<ndim; k++) cell.rcell[k] = (FLOAT) 0.5*(cell.bb.min[k] + cell.bb.max[k]);
+        if (!(cell.m > 0)) for (k=0; k<ndim; k++) cell.r[k] = cell.rcell[k];
         for (k=0; k<ndim; k++) dr[k] = (FLOAT) 0.5*(cell.bb.max[k] - cell.bb.min[k]);
         cell.cdistsqd = max(DotProduct(dr, dr, ndim),cell.hmax*cell.hmax)/thetamaxsqd;
         cell.rmax = sqrt(DotProduct(dr, dr, ndim));
-- 
2.43.0


From 6355181cd4c429bd49e810856301a9982ed30912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:58 +0000
Subject: [PATCH 61/84] fix: the potential-minimum test compares each
 neighbour's own distance

---
 src/GradhSph/GradhSph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GradhSph/GradhSph.cpp b/src/GradhSph/GradhSph.cpp
index 21a094d..81a7ad4 100644
--- a/src/GradhSph/GradhSph.cpp
+++ b/src/GradhSph/GradhSph.cpp
@@ -272,8 +272,8 @@ int GradhSph<ndim, kernelclass>::ComputeH
     parti.flags.set(potmin);
     for (j=0; j<Nneib; j++) {
       const DensityParticle &ngb = ngbs[j];
-      FLOAT drsqd = DotProduct(dr,dr,ndim);
       for (k=0; k<ndim; k++) dr[k] = ngb.r[k] - parti.r[k];
+      FLOAT drsqd = DotProduct(dr,dr,ndim);
       if (ngb.gpot > (FLOAT) 1.000000001*parti.gpot &&
           drsqd*invhsqd < kern.kernrangesqd) parti.flags.unset(potmin);
     }
-- 
2.43.0


From 250bd2f1a4d89a8f04e01f60bcb4dbfc265ca5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:58 +0000
Subject: [PATCH 62/84] fix: enlarge the neighbour list when the smallest
 allowed smoothing length lies beyond it

---
 src/GradhSph/GradhSphTree.cpp     | 2 +-
 src/MeshlessFV/MeshlessFVTree.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GradhSph/GradhSphTree.cpp b/src/GradhSph/GradhSphTree.cpp
index 0ee90a3..2e4cd95 100644
--- a/src/GradhSph/GradhSphTree.cpp
+++ b/src/GradhSph/GradhSphTree.cpp
@@ -229,7 +229,7 @@ void GradhSphTree<ndim,ParticleType>::UpdateAllSphProperties
 
           // If h-computation is invalid, then break from loop and recompute
           // larger neighbour lists
-          if (okflag == 0) {
+          if (okflag != 1) {
             celldone = 0;
             break;
           }
diff --git a/src/MeshlessFV/MeshlessFVTree.cpp b/src/MeshlessFV/MeshlessFVTree.cpp
index 766cc46..253f31d 100644
--- a/src/MeshlessFV/MeshlessFVTree.cpp
+++ b/src/MeshlessFV/MeshlessFVTree.cpp
@@ -258,7 +258,7 @@ void MeshlessFVTree<ndim,ParticleType>::UpdateAllProperties
           okflag = mfv->ComputeH(i, Ngather, hmax, m2, mu2, drsqd, gpot, activepart[j], nbody);
 
           // If h-computation is invalid, then break from loop and recompute larger neighbour lists
-          if (okflag == 0) {
+          if (okflag != 1) {
             celldone = 0;
             break;
           }
-- 
2.43.0


From 50c9c31354bdd4f5fabb61c63beac35a8b4ef934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:58 +0000
Subject: [PATCH 63/84] fix: meshless gas partially accreted by a sink keeps
 its velocity and specific energy, and its loss within a step

---
 src/Headers/MeshlessFV.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Headers/MeshlessFV.h b/src/Headers/MeshlessFV.h
index e0933fe..fd592d9 100644
--- a/src/Headers/MeshlessFV.h
+++ b/src/Headers/MeshlessFV.h
@@ -111,10 +111,15 @@ public:
   }
   virtual void AccreteMassFromParticle(const FLOAT dm, Particle<ndim> &part) {
     MeshlessFVParticle<ndim>& mfvpart = static_cast<MeshlessFVParticle<ndim>& > (part);
+    // The gas left behind keeps its velocity and specific energy, also when it is predicted
+    // from the start of its current timestep
+    const FLOAT frac = (mfvpart.m - dm)/mfvpart.m;
     mfvpart.m -= dm;
-    mfvpart.dQ[irho] -= dm;
-    //mfvpart.dQ[ietot] -= dm*part.u;
-    for (int k=0; k<ndim; k++) mfvpart.dQ[k] -= dm*mfvpart.v[k];
+    for (int k=0; k<ndim+2; k++) {
+      mfvpart.Qcons0[k] *= frac;
+      mfvpart.dQ[k]     *= frac;
+      mfvpart.dQdt[k]   *= frac;
+    }
   }
 
   virtual void ZeroAccelerations();
-- 
2.43.0


From 1e3ed4775979c0d65f1f82e4ecf5ae2d4ef18620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:21 +0000
Subject: [PATCH 64/84] fix: the overlap test of a new sink uses the radius the
 sink will have

---
 src/Nbody/Sinks.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Nbody/Sinks.cpp b/src/Nbody/Sinks.cpp
index f6b33c6..39c4417 100644
--- a/src/Nbody/Sinks.cpp
+++ b/src/Nbody/Sinks.cpp
@@ -187,7 +187,10 @@ void Sinks<ndim>::SearchForNewSinkParticles
         if (part.rho < -dadr/drsqd ) sink_flag = false;
 
         // If hydro particle neighbours a nearby sink, skip to next particle
-        if (drsqd < pow(sink_radius*part.h + sink[s].radius, 2)) sink_flag = false;
+        FLOAT rnew = sink_radius*part.h;
+        if (sink_radius_mode == "fixed") rnew = sink_radius;
+        else if (sink_radius_mode != "hmult") rnew = hydro->kernp->kernrange*part.h;
+        if (drsqd < pow(rnew + sink[s].radius, 2)) sink_flag = false;
 
         // Skip looping over other sinks if sink candidate has already been excluded
         if (!sink_flag) break;
-- 
2.43.0


From 76a917e861416dcd2540c74d4cc3edace57022ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:21 +0000
Subject: [PATCH 65/84] fix: sinks do not accrete boundary images of gas
 particles (mass was created)

---
 src/Nbody/Sinks.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Nbody/Sinks.cpp b/src/Nbody/Sinks.cpp
index 39c4417..089f3a6 100644
--- a/src/Nbody/Sinks.cpp
+++ b/src/Nbody/Sinks.cpp
@@ -456,6 +456,7 @@ void Sinks<ndim>::AccreteMassToSinks
         i = neiblist[j];
         Particle<ndim>& part = hydro->GetParticlePointer(i);
         if (part.flags.is_dead()) continue;
+        if (part.flags.is_boundary()) continue;
 
         for (k=0; k<ndim; k++) dr[k] = part.r[k] - sink[s].star->r[k];
         drsqd = DotProduct(dr, dr, ndim);
-- 
2.43.0


From b69235281946bbc1319c70269e7ca30a82bbc06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:03 +0000
Subject: [PATCH 66/84] fix: missing, truncated and damaged snapshot files are
 reported as errors

---
 src/Common/SimulationIO.hpp | 42 +++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/Common/SimulationIO.hpp b/src/Common/SimulationIO.hpp
index 05ea562..8779dbb 100644
--- a/src/Common/SimulationIO.hpp
+++ b/src/Common/SimulationIO.hpp
@@ -44,6 +44,18 @@ static const string ascii_tag("SERENASCIIDUMPV2");
 static const int string_length = 20;
 
 
+//=================================================================================================
+//  CheckSnapshotStream
+/// Report an error if anything could not be read from a snapshot file.
+//=================================================================================================
+static void CheckSnapshotStream(const ifstream& infile, const string& filename)
+{
+  if (infile.fail()) {
+    ExceptionHandler::getIstance().raise("Snapshot file missing, truncated or damaged : " + filename);
+  }
+}
+
+
 struct Ptype_info
 {
     Ptype_info()
@@ -78,7 +90,7 @@ bool SimulationBase::ReadSnapshotFile
     return ReadSerenUnformSnapshotFile(filename);
   }
   else {
-    cout << "Unrecognised file format" << endl;
+    ExceptionHandler::getIstance().raise("Unrecognised file format : " + fileform);
     return false;
   }
 
@@ -147,6 +159,7 @@ HeaderInfo SimulationBase::ReadHeaderSnapshotFile
   else {
     ExceptionHandler::getIstance().raise("Unrecognised file format");
   }
+  CheckSnapshotStream(infile, filename);
 
   return info;
 }
@@ -203,6 +216,7 @@ bool Simulation<ndim>::ReadColumnSnapshotFile
   infile.open(filename.c_str());
 
   ReadColumnHeaderFile(infile, info);
+  CheckSnapshotStream(infile, filename);
   t = info.t;
   tsnaplast = t;
 
@@ -212,7 +226,7 @@ bool Simulation<ndim>::ReadColumnSnapshotFile
 
   // Read in data depending on dimensionality
   //-----------------------------------------------------------------------------------------------
-  while (infile.good() && i < hydro->Nhydro) {
+  while (i < hydro->Nhydro) {
     Particle<ndim>& part = hydro->GetParticlePointer(i);
     if (ndim == 1) {
       infile >> part.r[0] >> part.v[0] >> part.m >> part.h >> part.rho >> part.u;
@@ -237,7 +251,7 @@ bool Simulation<ndim>::ReadColumnSnapshotFile
 
   // Read in data depending on dimensionality
   //-----------------------------------------------------------------------------------------------
-  while (infile.good() && i < nbody->Nstar) {
+  while (i < nbody->Nstar) {
     if (ndim == 1) {
       infile >> nbody->stardata[i].r[0] >> nbody->stardata[i].v[0] >> nbody->stardata[i].m
              >> nbody->stardata[i].h >> raux >> raux;
@@ -256,7 +270,7 @@ bool Simulation<ndim>::ReadColumnSnapshotFile
     sinks->sink[i].star = &(nbody->stardata[i]);
     i++;
   }
-
+  CheckSnapshotStream(infile, filename);
 
   infile.close();
 
@@ -666,6 +680,7 @@ bool Simulation<ndim>::ReadSerenFormSnapshotFile(string filename)
   for (i=0; i<50; i++) infile >> ilpdata[i];
   for (i=0; i<50; i++) infile >> rdata[i];
   for (i=0; i<50; i++) infile >> ddata[i];
+  CheckSnapshotStream(infile, filename);
 
   hydro->Nhydro      = idata[0];
   nbody->Nstar   = idata[1];
@@ -731,6 +746,8 @@ bool Simulation<ndim>::ReadSerenFormSnapshotFile(string filename)
     }
   }
 
+  CheckSnapshotStream(infile, filename);
+
   // Allocate memory now we know particle numbers
   AllocateParticleMemory();
 
@@ -780,7 +797,7 @@ bool Simulation<ndim>::ReadSerenFormSnapshotFile(string filename)
       for (i=0; i<hydro->Nhydro; i++) {
         Particle<ndim>& part = hydro->GetParticlePointer(i);
         infile >> part.m;
-        assert(part.m > (FLOAT) 0.0);
+        assert(!infile.good() || part.m > (FLOAT) 0.0);
       }
     }
 
@@ -851,7 +868,7 @@ bool Simulation<ndim>::ReadSerenFormSnapshotFile(string filename)
       for (ii=0; ii<6; ii++) {
         int itmp;
         infile >> itmp;
-        assert(itmp == junk[ii]);
+        assert(!infile.good() || itmp == junk[ii]);
       }
       if (nbody->Nstar > 0) {
         for (i=0; i<nbody->Nstar; i++) {
@@ -885,6 +902,8 @@ bool Simulation<ndim>::ReadSerenFormSnapshotFile(string filename)
   }
   //===============================================================================================
 
+  CheckSnapshotStream(infile, filename);
+
   // Finally set the ptype based on the number of types in the snapshot
   int n=0;
   for (int type=2; type < 8; type++) {
@@ -1363,6 +1382,7 @@ bool Simulation<ndim>::ReadSerenUnformSnapshotFile(string filename)
   // Read infile header integer data
   {
     for (int i=0; i<50; i++) reader.read_value(idata[i]);
+    CheckSnapshotStream(infile, filename);
     hydro->Nhydro  = idata[0];
     nbody->Nstar   = idata[1];
     sinks->Nsink    = idata[1];
@@ -1414,6 +1434,8 @@ bool Simulation<ndim>::ReadSerenUnformSnapshotFile(string filename)
     for (int j=0; j<5; j++) reader.read_value(typedata[i][j]);
   }
 
+  CheckSnapshotStream(infile, filename);
+
   // Allocate memory now we know particle numbers
   AllocateParticleMemory();
 
@@ -1451,7 +1473,7 @@ bool Simulation<ndim>::ReadSerenUnformSnapshotFile(string filename)
       for (int i=0; i<hydro->Nhydro; i++) {
         Particle<ndim>& part = hydro->GetParticlePointer(i);
         reader.read_value(part.m);
-        assert(part.m > (FLOAT) 0.0);
+        assert(!infile.good() || part.m > (FLOAT) 0.0);
       }
     }
 
@@ -1508,7 +1530,7 @@ bool Simulation<ndim>::ReadSerenUnformSnapshotFile(string filename)
       for (ii=0; ii<6; ii++) {
         int itmp;
         reader.read_value(itmp);
-        assert(itmp == junk[ii]);
+        assert(!infile.good() || itmp == junk[ii]);
       }
       if (nbody->Nstar > 0) {
         for (int i=0; i<nbody->Nstar; i++) {
@@ -1527,7 +1549,7 @@ bool Simulation<ndim>::ReadSerenUnformSnapshotFile(string filename)
           sinks->sink[i].radius = sdata[3+2*ndim];
           sinks->sink[i].star = &(nbody->stardata[i]);
           nbody->nbodydata[i] = &(nbody->stardata[i]);
-          assert(nbody->stardata[i].m > 0.0);
+          assert(!infile.good() || nbody->stardata[i].m > 0.0);
         }
       }
     }
@@ -1541,6 +1563,8 @@ bool Simulation<ndim>::ReadSerenUnformSnapshotFile(string filename)
   }
   //===============================================================================================
 
+  CheckSnapshotStream(infile, filename);
+
   // Finally set the ptype based on the number of types in the snapshot
   int n=0 ;
   for (int type=2; type < 8; type++) {
-- 
2.43.0


From d2c6b52e4e539685eda95b0b42ccb1978ef86706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:03 +0000
Subject: [PATCH 67/84] fix: the time of column snapshots was converted to code
 units twice

---
 src/Common/SimulationIO.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Common/SimulationIO.hpp b/src/Common/SimulationIO.hpp
index 8779dbb..e09adc0 100644
--- a/src/Common/SimulationIO.hpp
+++ b/src/Common/SimulationIO.hpp
@@ -217,7 +217,7 @@ bool Simulation<ndim>::ReadColumnSnapshotFile
 
   ReadColumnHeaderFile(infile, info);
   CheckSnapshotStream(infile, filename);
-  t = info.t;
+  t = info.t*simunits.t.inscale;
   tsnaplast = t;
 
   hydro->Nhydro = info.Nhydro;
-- 
2.43.0


From d8e4294c5c26f0602b8f75bf8119e1711b943fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:03 +0000
Subject: [PATCH 68/84] fix: the time of seren_form snapshots was only read for
 restarts

---
 src/Common/SimulationIO.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Common/SimulationIO.hpp b/src/Common/SimulationIO.hpp
index e09adc0..cb8df43 100644
--- a/src/Common/SimulationIO.hpp
+++ b/src/Common/SimulationIO.hpp
@@ -688,6 +688,7 @@ bool Simulation<ndim>::ReadSerenFormSnapshotFile(string filename)
   //dmdt_range_aux = idata[29];
   nunit          = idata[19];
   ndata          = idata[20];
+  t              = ddata[0];
 
   // Variables that should be remembered for restarts
   if (restart) {
-- 
2.43.0


From 25e2439fb45e74cce47bc6e9e1c5ea997a31ce34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:03 +0000
Subject: [PATCH 69/84] fix: snapshot headers did not tell the dust of
 seren_unform files, and counted dust as gas

---
 src/Common/SimulationIO.hpp | 6 ++++--
 src/Common/SphSnapshot.cpp  | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Common/SimulationIO.hpp b/src/Common/SimulationIO.hpp
index cb8df43..f8ae5de 100644
--- a/src/Common/SimulationIO.hpp
+++ b/src/Common/SimulationIO.hpp
@@ -1286,8 +1286,10 @@ void Simulation<ndim>::ReadSerenUnformHeaderFile
   // Read number of star particles
   reader.read_value(info.Nstar);
 
-  // Skip the remaining 48 idata, ilpdata and rdata
-  infile.seekg(48*sizeof(int) + 50*sizeof(long) + 50*sizeof(FLOAT), ios_base::cur);
+  // Skip to the number of dust particles, and over the remaining idata, ilpdata and rdata
+  infile.seekg(4*sizeof(int), ios_base::cur);
+  reader.read_value(info.Ndust);
+  infile.seekg(43*sizeof(int) + 50*sizeof(long) + 50*sizeof(FLOAT), ios_base::cur);
 
   // Read time and convert to code units
   reader.read_value(info.t);
diff --git a/src/Common/SphSnapshot.cpp b/src/Common/SphSnapshot.cpp
index aa61fcf..5443059 100644
--- a/src/Common/SphSnapshot.cpp
+++ b/src/Common/SphSnapshot.cpp
@@ -98,7 +98,7 @@ SphSnapshot<ndims>::SphSnapshot
     HeaderInfo info;
     info = sim->ReadHeaderSnapshotFile(filename, this->fileform);
     this->t = info.t;
-    int Nhydro = info.Nhydro;
+    int Nhydro = info.Nhydro - info.Ndust;
     if (Nhydro>0) {
       this->data["sph"]=Species(Nhydro,"sph");
       Species::maptype& sph_values=data["sph"].values;
-- 
2.43.0


From 62b8779b50bb487f4a4dff2110922187f7b10857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:03 +0000
Subject: [PATCH 70/84] fix: the gas arrays of buffered snapshots had room for
 particles of other types, filled with zeros

---
 src/Common/SphSnapshot.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Common/SphSnapshot.cpp b/src/Common/SphSnapshot.cpp
index 5443059..a94d223 100644
--- a/src/Common/SphSnapshot.cpp
+++ b/src/Common/SphSnapshot.cpp
@@ -232,6 +232,7 @@ void SphSnapshot<ndims>::CopyDataFromSimulation()
   int Nhydro=0;
   int Nstar=0;
   int Ndust=0;
+  int Ngas=0;
 
   debug2("[SphSnapshotBase::CopyDataFromSimulation]");
 
@@ -247,9 +248,10 @@ void SphSnapshot<ndims>::CopyDataFromSimulation()
     for (int n=0; n < Nhydro; n++){
       int ptype = simulation->hydro->GetParticlePointer(n).ptype;
       if (ptype == dust_type) Ndust++;
+      if (ptype == gas_type) Ngas++;
     }
     // And now Nhydro becomes Ngas
-    Nhydro -= Ndust;
+    Nhydro = Ngas;
     if (Nhydro != 0) {
       _species.push_back("sph");
       data["sph"]=Species(Nhydro,"sph");
-- 
2.43.0


From 63ee0037442759dec8e259744af41cf9f715c53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:02 +0000
Subject: [PATCH 71/84] fix: seren_lite snapshots list their particles in the
 order of the types counted in the header

---
 src/Common/SimulationIO.hpp | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/Common/SimulationIO.hpp b/src/Common/SimulationIO.hpp
index f8ae5de..62c03c6 100644
--- a/src/Common/SimulationIO.hpp
+++ b/src/Common/SimulationIO.hpp
@@ -2452,43 +2452,49 @@ bool Simulation<ndim>::WriteSerenLiteSnapshotFile(string filename)
   //-----------------------------------------------------------------------------------------------
   if (hydro->Nhydro > 0) {
 
+    // Live particles in the order of their types, as counted in the header
+    const int ptypes[4] = {icm_type, gas_type, cdm_type, dust_type};
+    std::vector<int> ids;
+    for (k=0; k<4; k++) {
+      for (i=0; i<hydro->Nhydro; i++) {
+        Particle<ndim>& part = hydro->GetParticlePointer(i);
+        if (part.ptype == ptypes[k] && !part.flags.is_dead()) ids.push_back(i);
+      }
+    }
+    assert((int) ids.size() == Nlivehydro);
+
     // Positions
     //---------------------------------------------------------------------------------------------
-    for (i=0; i<hydro->Nhydro; i++) {
-      Particle<ndim>& part = hydro->GetParticlePointer(i);
-      if (part.flags.is_dead()) continue;
+    for (i=0; i<Nlivehydro; i++) {
+      Particle<ndim>& part = hydro->GetParticlePointer(ids[i]);
       for (int k=0; k<ndim; k++) writer.write_value((float) (part.r[k]*simunits.r.outscale));
     }
 
     // Masses
     //---------------------------------------------------------------------------------------------
-    for (i=0; i<hydro->Nhydro; i++) {
-      Particle<ndim>& part = hydro->GetParticlePointer(i);
-      if (part.flags.is_dead()) continue;
+    for (i=0; i<Nlivehydro; i++) {
+      Particle<ndim>& part = hydro->GetParticlePointer(ids[i]);
       writer.write_value((float) (part.m*simunits.m.outscale));
     }
 
     // Smoothing lengths
     //---------------------------------------------------------------------------------------------
-    for (i=0; i<hydro->Nhydro; i++) {
-      Particle<ndim>& part = hydro->GetParticlePointer(i);
-      if (part.flags.is_dead()) continue;
+    for (i=0; i<Nlivehydro; i++) {
+      Particle<ndim>& part = hydro->GetParticlePointer(ids[i]);
       writer.write_value((float) (part.h*simunits.r.outscale));
     }
 
     // Densities
     //---------------------------------------------------------------------------------------------
-    for (i=0; i<hydro->Nhydro; i++) {
-      Particle<ndim>& part = hydro->GetParticlePointer(i);
-      if (part.flags.is_dead()) continue;
+    for (i=0; i<Nlivehydro; i++) {
+      Particle<ndim>& part = hydro->GetParticlePointer(ids[i]);
       writer.write_value((float) (part.rho*simunits.rho.outscale));
     }
 
     // Specific internal energies
     //--------------------------------------------------------------------------------------------
-    for (i=0; i<hydro->Nhydro; i++) {
-      Particle<ndim>& part = hydro->GetParticlePointer(i);
-      if (part.flags.is_dead()) continue;
+    for (i=0; i<Nlivehydro; i++) {
+      Particle<ndim>& part = hydro->GetParticlePointer(ids[i]);
       writer.write_value((float) (part.u*simunits.u.outscale));
     }
 
-- 
2.43.0


From 5c2b0d81c037b79298837bc79cae7fab4cd542df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:02 +0000
Subject: [PATCH 72/84] fix: accreted particles were written to column
 snapshots as particles without mass

---
 src/Common/SimulationIO.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Common/SimulationIO.hpp b/src/Common/SimulationIO.hpp
index 62c03c6..939eb7c 100644
--- a/src/Common/SimulationIO.hpp
+++ b/src/Common/SimulationIO.hpp
@@ -458,6 +458,7 @@ template <int ndim>
 bool Simulation<ndim>::WriteColumnSnapshotFile(string filename)
 {
   int i;
+  int Nlivehydro = 0;                  // No. of live (i.e. non-accreted) particles
   ofstream outfile;
 
   debug2("[Simulation::WriteColumnSnapshotFile]");
@@ -466,7 +467,10 @@ bool Simulation<ndim>::WriteColumnSnapshotFile(string filename)
 
   // Open file and read header information
   outfile.open(filename.c_str());
-  outfile << hydro->Nhydro << endl;
+  for (i=0; i<hydro->Nhydro; i++) {
+    if (!hydro->GetParticlePointer(i).flags.is_dead()) Nlivehydro++;
+  }
+  outfile << Nlivehydro << endl;
   outfile << nbody->Nstar << endl;
   outfile << ndim << endl;
   outfile << t*simunits.t.outscale << endl;
@@ -475,6 +479,7 @@ bool Simulation<ndim>::WriteColumnSnapshotFile(string filename)
   //-----------------------------------------------------------------------------------------------
   for (i=0; i<hydro->Nhydro; i++) {
     Particle<ndim>& part = hydro->GetParticlePointer(i);
+    if (part.flags.is_dead()) continue;
     if (ndim == 1) {
       outfile << part.r[0]*simunits.r.outscale << "   "
               << part.v[0]*simunits.v.outscale << "   "
-- 
2.43.0


From cd42c3c008ddda5296729df4b2873272f2d22b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:50 +0000
Subject: [PATCH 73/84] fix: N-body text snapshots could hold an uninitialised
 number that cannot be read back

---
 src/Hydrodynamics/Hydrodynamics.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Hydrodynamics/Hydrodynamics.cpp b/src/Hydrodynamics/Hydrodynamics.cpp
index 7fcba76..1562aaa 100644
--- a/src/Hydrodynamics/Hydrodynamics.cpp
+++ b/src/Hydrodynamics/Hydrodynamics.cpp
@@ -73,6 +73,7 @@ Hydrodynamics<ndim>::Hydrodynamics(int hydro_forces_aux, int self_gravity_aux, F
   Nmpighost          = 0;
   NPeriodicGhost     = 0;
   hmin_ghost         = (FLOAT) 0.0;
+  mmean              = (FLOAT) 0.0;
   rho_sink           = params->floatparams["rho_sink"]/(units.rho.outscale*units.rho.outcgs);
   create_sinks       = params->intparams["create_sinks"];
   sink_particles     = params->intparams["sink_particles"];
-- 
2.43.0


From b7311a5154f6d7df19f19d3989697c0fcb6f73a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:50 +0000
Subject: [PATCH 74/84] fix: restarted N-body runs numbered their snapshots
 from one again, overwriting earlier ones

---
 src/Nbody/NbodySimulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Nbody/NbodySimulation.cpp b/src/Nbody/NbodySimulation.cpp
index 51ab295..5dc1235 100644
--- a/src/Nbody/NbodySimulation.cpp
+++ b/src/Nbody/NbodySimulation.cpp
@@ -189,7 +189,7 @@ void NbodySimulation<ndim>::PostInitialConditionsSetup(void)
   debug2("[NbodySimulation::PostInitialConditionsSetup]");
 
   // Set time variables here (for now)
-  Noutsnap = 0;
+  if (!restart) Noutsnap = 0;
   nresync = 0;
   //tsnapnext = dt_snap;
 
-- 
2.43.0


From e5b870c1b96e5ebf944eaa19f2b866ba4381b45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:50 +0000
Subject: [PATCH 75/84] fix: a run restarted before its first snapshot ignored
 the time the first one is due

---
 src/Common/SimulationIO.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Common/SimulationIO.hpp b/src/Common/SimulationIO.hpp
index 939eb7c..37ff2cd 100644
--- a/src/Common/SimulationIO.hpp
+++ b/src/Common/SimulationIO.hpp
@@ -2589,8 +2589,9 @@ void Simulation<ndim>::ConvertToCodeUnits(void)
   tlitesnaplast /= simunits.t.inscale;
   hydro->mmean  /= simunits.m.inscale;
   if (restart) {
-    tsnapnext = tsnaplast + dt_snap;
-    tlitesnapnext = tlitesnaplast + dt_litesnap;
+    // (before the first snapshot, the next is due at the times given by the parameters)
+    if (Noutsnap > 0 || tsnaplast > 0.0) tsnapnext = tsnaplast + dt_snap;
+    if (Noutlitesnap > 0) tlitesnapnext = tlitesnaplast + dt_litesnap;
   }
 
   return;
-- 
2.43.0


From 93ac689822f15a5d76e10d1380257a2f0af7bc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:50 +0000
Subject: [PATCH 76/84] fix: snapshots that could not be written completely
 were reported as written

---
 src/Common/SimulationIO.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Common/SimulationIO.hpp b/src/Common/SimulationIO.hpp
index 37ff2cd..aa34dbe 100644
--- a/src/Common/SimulationIO.hpp
+++ b/src/Common/SimulationIO.hpp
@@ -555,7 +555,7 @@ bool Simulation<ndim>::WriteColumnSnapshotFile(string filename)
 
   outfile.close();
 
-  return true;
+  return !outfile.fail();
 }
 #endif
 
@@ -1255,7 +1255,7 @@ bool Simulation<ndim>::WriteSerenFormSnapshotFile
   // Close file
   outfile.close();
 
-  return true;
+  return !outfile.fail();
 }
 
 
@@ -2281,7 +2281,7 @@ bool Simulation<ndim>::WriteSerenUnformSnapshotFile(string filename)
 
   outfile.close();
 
-  return true;
+  return !outfile.fail();
 }
 #endif
 
@@ -2532,7 +2532,7 @@ bool Simulation<ndim>::WriteSerenLiteSnapshotFile(string filename)
 
   outfile.close();
 
-  return true;
+  return !outfile.fail();
 }
 
 
-- 
2.43.0


From bb55145ef1df52f29f76657e371eea0626d47382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:50 +0000
Subject: [PATCH 77/84] fix: a restarted run wrote a second snapshot for the
 time it was restarted from

---
 src/Common/Simulation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index 2353899..55b693d 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -687,8 +687,8 @@ void SimulationBase::SetupSimulation(void)
   // quantities and setting up trees.
   PostInitialConditionsSetup();
 
-  // Initial output before simulation begins
-  Output();
+  // Initial output before simulation begins (a restarted run has written it before)
+  if (!restart) Output();
 
   return;
 }
-- 
2.43.0


From 1b1cf404929df98b0685e29e8c4973273113b4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:50 +0000
Subject: [PATCH 78/84] fix: restart records and temporary snapshots are
 replaced only by complete ones

---
 src/Common/Simulation.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index 55b693d..08ac71f 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -553,17 +553,19 @@ string SimulationBase::Output(void)
     nostring = ss.str();
     filename = run_id + '.' + out_file_form + '.' + nostring;
     ss.str(std::string());
-    WriteSnapshotFile(filename,out_file_form);
+    const bool written = WriteSnapshotFile(filename,out_file_form);
 
-    // Now write name and format of snapshot to file (for restarts)
+    // Now write name and format of snapshot to file (for restarts).  The old record stays in place
+    // until the new one is complete.
     if (rank == 0) {
 
       fileend = "restart";
       filename2 = run_id + "." + fileend;
-      outfile.open(filename2.c_str());
+      outfile.open((filename2 + ".new").c_str());
       outfile << out_file_form << endl;
       outfile << filename << endl;
       outfile.close();
+      if (written && !outfile.fail()) rename((filename2 + ".new").c_str(), filename2.c_str());
 
       // Finally, calculate wall-clock time interval since last output snapshot
       if (tsnap_wallclock > 0.0) dt_snap_wall = timing->RunningTime() - tsnap_wallclock;
@@ -618,14 +620,19 @@ void SimulationBase::RestartSnapshot(void)
   // Prepare filename for new snapshot
   filename = run_id + "." + out_file_form + ".tmp";
   ss.str(std::string());
-  WriteSnapshotFile(filename,out_file_form);
+  const bool written = WriteSnapshotFile(filename + ".new",out_file_form);
+  if (rank == 0) {
+    if (!written || rename((filename + ".new").c_str(), filename.c_str()) != 0) return;
+  }
 
-  // Now write name and format of snapshot to file (for restarts)
+  // Now write name and format of snapshot to file (for restarts).  The old snapshot and the old
+  // record stay in place until the new ones are complete.
   filename2 = run_id + ".restart";
-  outfile.open(filename2.c_str());
+  outfile.open((filename2 + ".new").c_str());
   outfile << out_file_form << endl;
   outfile << filename << endl;
   outfile.close();
+  if (!outfile.fail()) rename((filename2 + ".new").c_str(), filename2.c_str());
 
   return;
 }
-- 
2.43.0


From 6643222e7f5385db2d71a52a8a4525f533a32c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:56 +0000
Subject: [PATCH 79/84] fix: small particle arrays did not grow before a
 particle was created beyond their end

---
 src/Hydrodynamics/Hydrodynamics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Hydrodynamics/Hydrodynamics.cpp b/src/Hydrodynamics/Hydrodynamics.cpp
index 1562aaa..b799683 100644
--- a/src/Hydrodynamics/Hydrodynamics.cpp
+++ b/src/Hydrodynamics/Hydrodynamics.cpp
@@ -142,7 +142,7 @@ Particle<ndim>& Hydrodynamics<ndim>::CreateNewParticle
   // First, check if there is space for the new particle.
   // If not, then increase particle memory by 20% by reallocating arrays.
   if (Nhydro >= Nhydromax) {
-    const int _Nhydromax = (int) (1.2*Nhydromax);
+    const int _Nhydromax = (int) (1.2*Nhydromax) + 1;
     AllocateMemory(_Nhydromax);
   }
 
-- 
2.43.0


From c34c6b5e46b5804589c13e9e04908cd60ee9fc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:56 +0000
Subject: [PATCH 80/84] fix: creating and deleting particles kept ghosts over
 real particles, reused identifiers and stale attributes

---
 src/Headers/Hydrodynamics.h         |  2 ++
 src/Hydrodynamics/Hydrodynamics.cpp | 17 ++++++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/Headers/Hydrodynamics.h b/src/Headers/Hydrodynamics.h
index 34080f0..bdfad76 100644
--- a/src/Headers/Hydrodynamics.h
+++ b/src/Headers/Hydrodynamics.h
@@ -132,6 +132,7 @@ public:
   int sink_particles;                  ///< Are using sink particles?
   
   int Ngather;                         ///< No. of gather neighbours
+  int iorigmax;                        ///< Largest identifier in use (-1 before any is created)
   int Nghost;                          ///< No. of ghost particles (total among all kinds of ghosts)
   int NImportedParticles;              ///< No. of imported particles
                                        ///< (to compute forces on behalf of other processors)
@@ -190,6 +191,7 @@ int Hydrodynamics<ndim>::DoDeleteDeadParticles() {
 
   // Reduce hydro particle counters once dead particles have been removed and reset all
   // other particle counters since a ghost and tree rebuild is required.
+  Nghost          = 0;
   NPeriodicGhost  = 0;
   Nmpighost       = 0;
   Nhydro         -= Ndead;
diff --git a/src/Hydrodynamics/Hydrodynamics.cpp b/src/Hydrodynamics/Hydrodynamics.cpp
index b799683..3b3b035 100644
--- a/src/Hydrodynamics/Hydrodynamics.cpp
+++ b/src/Hydrodynamics/Hydrodynamics.cpp
@@ -74,6 +74,7 @@ Hydrodynamics<ndim>::Hydrodynamics(int hydro_forces_aux, int self_gravity_aux, F
   NPeriodicGhost     = 0;
   hmin_ghost         = (FLOAT) 0.0;
   mmean              = (FLOAT) 0.0;
+  iorigmax           = -1;
   rho_sink           = params->floatparams["rho_sink"]/(units.rho.outscale*units.rho.outcgs);
   create_sinks       = params->intparams["create_sinks"];
   sink_particles     = params->intparams["sink_particles"];
@@ -148,12 +149,22 @@ Particle<ndim>& Hydrodynamics<ndim>::CreateNewParticle
 
   // Find space for new particle at the end of the array and increment relevant counters.
   sim->rebuild_tree = true;
+  // Any ghosts are discarded since their space is now used by real particles.
   int inew = Nhydro++;
-  Ntot++;
+  Nghost         = 0;
+  NPeriodicGhost = 0;
+  Nmpighost      = 0;
+  Ntot           = Nhydro;
   Particle<ndim> &part = GetParticlePointer(inew);
 
-  // Set all particle properties from given arguments
-  part.iorig     = inew;
+  // The identifiers of particles which have been deleted are not used again
+  if (iorigmax < 0) {
+    for (int i=0; i<inew; i++) iorigmax = max(iorigmax, GetParticlePointer(i).iorig);
+  }
+
+  // Set all particle properties from given arguments (and all others to their initial values)
+  part = Particle<ndim>();
+  part.iorig     = ++iorigmax;
   part.ptype     = ptype;
   part.level     = sim->level_max;
   part.levelneib = sim->level_max;
-- 
2.43.0


From 379265f8366edffc39cbd396244846b90bb3980d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:29 +0000
Subject: [PATCH 81/84] fix: the meshless drag update moved particles by a
 momentum instead of a velocity

---
 src/Common/Dust.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Common/Dust.cpp b/src/Common/Dust.cpp
index 3f11433..fed2901 100644
--- a/src/Common/Dust.cpp
+++ b/src/Common/Dust.cpp
@@ -126,7 +126,7 @@ void update_particle(MeshlessFVParticle<ndim>& part, FLOAT* acc, FLOAT dudt, dou
 
   // Update the particle position according to the drag terms.
   for(int k=0; k<ndim; k++) {
-    part.v[k] = part.v0[k] + part.dQ[k] + part.a0[k]*dt ;
+    part.v[k] = part.v0[k] + part.dQ[k] / part.m + part.a0[k]*dt ;
     part.r[k] = part.r0[k] + 0.5*(part.v0[k] + part.v[k])*dt;
     part.flags.set(update_density) ;
   }
-- 
2.43.0


From ed275317415cbfcedb2bf251952e5c5e7bd89df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:29 +0000
Subject: [PATCH 82/84] fix: the heating of the provisional first drag
 calculation was never taken back

---
 src/Hydrodynamics/SphSimulation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Hydrodynamics/SphSimulation.cpp b/src/Hydrodynamics/SphSimulation.cpp
index 0f6b149..ae3ea5b 100644
--- a/src/Hydrodynamics/SphSimulation.cpp
+++ b/src/Hydrodynamics/SphSimulation.cpp
@@ -521,6 +521,7 @@ void SphSimulation<ndim>::PostInitialConditionsSetup(void)
     for (i=0; i<sph->Nhydro; i++) {
       SphParticle<ndim>& part = sph->GetSphParticlePointer(i);
       part.flags.set(active);
+      part.dudt0 = part.dudt;
     }
 
     // Copy properties from original particles to ghost particles
@@ -541,10 +542,11 @@ void SphSimulation<ndim>::PostInitialConditionsSetup(void)
   // Compute the time-averaged initial dust forces.
   if (sphdust != NULL){
 
-    // Set the acceleration to the pre-drag value
+    // Set the acceleration and heating rate to the pre-drag values
     for (i=0; i<sph->Nhydro; i++) {
       SphParticle<ndim>& part = sph->GetSphParticlePointer(i);
       for (k=0; k <ndim; k++) part.a[k] = part.a0[k] ;
+      part.dudt = part.dudt0;
     }
 
     sphdust->UpdateAllDragForces(sph) ;
-- 
2.43.0


From b6faa728a4d5dd36e2b6e5c42e4701996f030af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:49 +0000
Subject: [PATCH 83/84] fix: snapshots had no readable mean mass once all the
 gas was accreted

---
 src/Hydrodynamics/SphSimulation.cpp        | 4 ++--
 src/MeshlessFV/MeshlessFVSimulation.cpp    | 2 +-
 src/MeshlessFV/MfvMusclSimulation.cpp      | 2 +-
 src/MeshlessFV/MfvRungeKuttaSimulation.cpp | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Hydrodynamics/SphSimulation.cpp b/src/Hydrodynamics/SphSimulation.cpp
index ae3ea5b..6f9e407 100644
--- a/src/Hydrodynamics/SphSimulation.cpp
+++ b/src/Hydrodynamics/SphSimulation.cpp
@@ -259,7 +259,7 @@ void SphSimulation<ndim>::PostInitialConditionsSetup(void)
   // Compute instantaneous mean mass (used for smooth sink accretion)
   sph->mmean = (FLOAT) 0.0;
   for (i=0; i<sph->Nhydro; i++) sph->mmean += sph->GetSphParticlePointer(i).m;
-  sph->mmean /= (FLOAT) sph->Nhydro;
+  if (sph->Nhydro > 0) sph->mmean /= (FLOAT) sph->Nhydro;
 
   // Compute minimum smoothing length of sinks
   sph->hmin_sink = big_number;
@@ -827,7 +827,7 @@ void SphSimulation<ndim>::MainLoop(void)
     if (sinks->Nsink > 0) {
       sph->mmean = (FLOAT) 0.0;
       for (i=0; i<sph->Nhydro; i++) sph->mmean += sph->GetSphParticlePointer(i).m;
-      sph->mmean /= (FLOAT) sph->Nhydro;
+      if (sph->Nhydro > 0) sph->mmean /= (FLOAT) sph->Nhydro;
       sph->hmin_sink = big_number;
       for (i=0; i<sinks->Nsink; i++) {
         sph->hmin_sink = min(sph->hmin_sink, (FLOAT) sinks->sink[i].star->h);
diff --git a/src/MeshlessFV/MeshlessFVSimulation.cpp b/src/MeshlessFV/MeshlessFVSimulation.cpp
index 9705427..8591dae 100644
--- a/src/MeshlessFV/MeshlessFVSimulation.cpp
+++ b/src/MeshlessFV/MeshlessFVSimulation.cpp
@@ -571,7 +571,7 @@ void MeshlessFVSimulation<ndim>::PostInitialConditionsSetup(void)
     MeshlessFVParticle<ndim> *partdata = mfv->GetMeshlessFVParticleArray();
     mfv->mmean = (FLOAT) 0.0;
     for (i=0; i<mfv->Nhydro; i++) mfv->mmean += partdata[i].m;
-    mfv->mmean /= (FLOAT) mfv->Nhydro;
+    if (mfv->Nhydro > 0) mfv->mmean /= (FLOAT) mfv->Nhydro;
   }
 
   // Compute all initial N-body terms
diff --git a/src/MeshlessFV/MfvMusclSimulation.cpp b/src/MeshlessFV/MfvMusclSimulation.cpp
index c23281c..da22b85 100644
--- a/src/MeshlessFV/MfvMusclSimulation.cpp
+++ b/src/MeshlessFV/MfvMusclSimulation.cpp
@@ -261,7 +261,7 @@ void MfvMusclSimulation<ndim>::MainLoop(void)
     if (sinks->Nsink > 0) {
       mfv->mmean = (FLOAT) 0.0;
       for (i=0; i<mfv->Nhydro; i++) mfv->mmean += mfv->GetMeshlessFVParticlePointer(i).m;
-      mfv->mmean /= (FLOAT) mfv->Nhydro;
+      if (mfv->Nhydro > 0) mfv->mmean /= (FLOAT) mfv->Nhydro;
       mfv->hmin_sink = big_number;
       for (i=0; i<sinks->Nsink; i++) {
         mfv->hmin_sink = min(mfv->hmin_sink, (FLOAT) sinks->sink[i].star->h);
diff --git a/src/MeshlessFV/MfvRungeKuttaSimulation.cpp b/src/MeshlessFV/MfvRungeKuttaSimulation.cpp
index ffb3e57..337a29c 100644
--- a/src/MeshlessFV/MfvRungeKuttaSimulation.cpp
+++ b/src/MeshlessFV/MfvRungeKuttaSimulation.cpp
@@ -100,7 +100,7 @@ void MfvRungeKuttaSimulation<ndim>::MainLoop(void)
     if (sinks->Nsink > 0) {
       mfv->mmean = (FLOAT) 0.0;
       for (i=0; i<mfv->Nhydro; i++) mfv->mmean += mfv->GetMeshlessFVParticlePointer(i).m;
-      mfv->mmean /= (FLOAT) mfv->Nhydro;
+      if (mfv->Nhydro > 0) mfv->mmean /= (FLOAT) mfv->Nhydro;
       mfv->hmin_sink = big_number;
       for (i=0; i<sinks->Nsink; i++) {
         mfv->hmin_sink = min(mfv->hmin_sink, (FLOAT) sinks->sink[i].star->h);
@@ -267,7 +267,7 @@ void MfvRungeKuttaSimulation<ndim>::MainLoop(void)
     if (sinks->Nsink > 0) {
       mfv->mmean = (FLOAT) 0.0;
       for (i=0; i<mfv->Nhydro; i++) mfv->mmean += mfv->GetMeshlessFVParticlePointer(i).m;
-      mfv->mmean /= (FLOAT) mfv->Nhydro;
+      if (mfv->Nhydro > 0) mfv->mmean /= (FLOAT) mfv->Nhydro;
       mfv->hmin_sink = big_number;
       for (i=0; i<sinks->Nsink; i++) {
         mfv->hmin_sink = min(mfv->hmin_sink, (FLOAT) sinks->sink[i].star->h);
-- 
2.43.0


From b17f33fbc8fde45d5d4e3e4bd23416f42a707855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:57 +0000
Subject: [PATCH 84/84] fix: the system random number generator ignored its
 seed

---
 src/Headers/RandomNumber.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Headers/RandomNumber.h b/src/Headers/RandomNumber.h
index 5f1b8c3..4fa634d 100644
--- a/src/Headers/RandomNumber.h
+++ b/src/Headers/RandomNumber.h
@@ -147,7 +147,7 @@ class DefaultSystemRand : public RandomNumber
  public:
 
   // Constructor and destructor
-  DefaultSystemRand(int _seed) : RandomNumber() {};
+  DefaultSystemRand(int _seed) : RandomNumber() {srand(_seed);};
   //~DefaultSystemRand();
 
   inline int intrand(void) {return (int) rand()%RAND_MAX;}
-- 
2.43.0

