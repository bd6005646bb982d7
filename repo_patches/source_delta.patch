From bb0f3140c1cffa86846c7bf6ade2ac218175d17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 01/31] fix: report errors of parallel workers to the caller,
 always use at least one worker

An exception in a worker thread terminated the process, a thread that could not
be started did so too, and no child was advanced if the number of cores is unknown.
---
 src/utility/parallelisation.hpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/utility/parallelisation.hpp b/src/utility/parallelisation.hpp
index 42ef21e..6567393 100644
--- a/src/utility/parallelisation.hpp
+++ b/src/utility/parallelisation.hpp
@@ -12,6 +12,8 @@
 
 #include "../settings/settings.hpp"
 
+#include <algorithm>
+#include <exception>
 #include <thread>
 #include <vector>
 
@@ -35,22 +37,43 @@ void run(Tfun task_indv, int i_end, unsigned int numMaxParallelWorkers = setting
       if (numMaxParallelWorkers < 1)
         numMaxParallelWorkers = std::thread::hardware_concurrency();
 
-      const unsigned int N_th_max = std::min(numMaxParallelWorkers, std::thread::hardware_concurrency());
+      //!< hardware_concurrency() may return 0 if it is not computable, there must always be one worker.
+      const unsigned int N_th_max = std::max(1u, std::min(numMaxParallelWorkers, std::thread::hardware_concurrency()));
 
       std::vector<std::thread> threads;
       threads.reserve(N_th_max);
 
+      //!< An exception cannot leave a thread (std::terminate), so every worker keeps its own, the first one is thrown on after joining.
+      std::vector<std::exception_ptr> errors(N_th_max);
+      auto task_worker = [&](unsigned int i_begin) noexcept {
+        try {
+          task_par(i_begin, i_end, N_th_max);
+        } catch (...) {
+          errors[i_begin] = std::current_exception();
+        }
+      };
+
       for (unsigned int i_begin = 0; i_begin < N_th_max; i_begin++) //!< indices for the threads
       {
         //!< Multi threaded simul:
 
-        threads.emplace_back(task_par, i_begin, i_end, N_th_max);
+        bool started{ true };
+        try {
+          threads.emplace_back(task_worker, i_begin);
+        } catch (...) {
+          started = false; //!< the thread could not be started, e.g. too many threads.
+        }
+
+        if (!started) task_worker(i_begin); //!< so the calling thread does its work.
       }
 
       for (auto &th : threads) {
         if (th.joinable())
           th.join();
       }
+
+      for (auto &error : errors)
+        if (error) std::rethrow_exception(error);
     }
   } else {
     task_par(0, i_end, 1);
-- 
2.43.0


From f7cb17a2f6896ca5700d6dbaf6b11433dfd9076e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:12 +0000
Subject: [PATCH 02/31] fix: setBlockDegAndTherm reaches the children of a unit
 accessed as StorageUnit

---
 src/StorageUnit.hpp    | 2 +-
 src/modules/Module.hpp | 2 +-
 src/system/Battery.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/StorageUnit.hpp b/src/StorageUnit.hpp
index 2bd8e99..0e0f373 100644
--- a/src/StorageUnit.hpp
+++ b/src/StorageUnit.hpp
@@ -61,7 +61,7 @@ public:
 
   virtual void getStates(getStates_t s) = 0;       //!< returns one long array with the states
   virtual viewStates_t viewStates() { return {}; } //!< Only for cells to see individual states.
-  void setBlockDegAndTherm(bool block) { blockDegAndTherm = block; }
+  virtual void setBlockDegAndTherm(bool block) { blockDegAndTherm = block; }
   virtual void setParent(StorageUnit *p) { parent = p; }                             //!< set the parent
   virtual Status setCurrent(double Inew, bool checkV = true, bool print = true) = 0; //
   virtual Status setVoltage(double Vnew, bool checkI = true, bool print = true)
diff --git a/src/modules/Module.hpp b/src/modules/Module.hpp
index 731d1f7..cf04b5f 100644
--- a/src/modules/Module.hpp
+++ b/src/modules/Module.hpp
@@ -170,7 +170,7 @@ public:
 #endif
   }
 
-  void setBlockDegAndTherm(bool block)
+  void setBlockDegAndTherm(bool block) override
   {
     for (auto &SU : SUs)
       SU->setBlockDegAndTherm(block);
diff --git a/src/system/Battery.hpp b/src/system/Battery.hpp
index 12673f4..507eed6 100644
--- a/src/system/Battery.hpp
+++ b/src/system/Battery.hpp
@@ -54,7 +54,7 @@ public:
   Module *getCells() { return cells.get(); }
   //!< int getNstates() { return cells->getNstates() + 1; } //!< +1 for the temperature of this battery
   void getStates(getStates_t &s) override; //!< returns one long array with the states
-  void setBlockDegAndTherm(bool block);
+  void setBlockDegAndTherm(bool block) override;
 
   Status setCurrent(double Inew, bool checkV = true, bool print = true) override
   {
-- 
2.43.0


From 62cbdd7b4c7ade1175d26a33dab87de3ca481992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:12 +0000
Subject: [PATCH 03/31] fix: Module_p preserves the total current and restores
 the old currents on failure

Equalising with an unweighted mean voltage changed the sum of the currents if the
capacities differ, failures left some children changed and were partly reported
as success.
---
 src/modules/Module_p.cpp | 64 +++++++++++++++++++++++++++++++---------
 1 file changed, 50 insertions(+), 14 deletions(-)

diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index 612d1bf..4c551a8 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -113,18 +113,21 @@ Status Module_p::redistributeCurrent(bool checkV, bool print)
 
   if (nSU <= 1) return Status::Success;
 
-  double Itot{ 0 };
+  double Captot{ 0 };
   getVall(Va, print);
   for (size_t i = 0; i < nSU; i++) {
-    Ia[i] = SUs[i]->I();
-    Itot += Ia[i]; // We also need to preserve sum of the currents!
+    Ia[i] = Ib[i] = SUs[i]->I();
+    Captot += SUs[i]->Cap();
   }
 
   int iter{ 0 };
   for (; iter < maxIteration; iter++) {
     double error{ 0 };
 
-    const auto Vmean = std::accumulate(Va.begin(), Va.begin() + nSU, 0.0) / nSU; // Compute the mean voltage
+    // Compute the mean voltage, weighted like the updates below so that they preserve the sum of the currents.
+    double Vmean{ 0 };
+    for (size_t i = 0; i < nSU; i++)
+      Vmean += Va[i] * SUs[i]->Cap() / Captot;
 
     for (size_t i = 0; i < nSU; i++) // Compute the error between mean voltage and individual cell voltages
       error += std::abs(Vmean - Va[i]);
@@ -136,12 +139,21 @@ Status Module_p::redistributeCurrent(bool checkV, bool print)
     // Update the currents based on the difference between mean and individual voltages
     for (size_t i = 0; i < nSU; i++) {
       Ia[i] = Ia[i] - (Vmean - Va[i]) * SUs[i]->Cap();
-      SUs[i]->setCurrent(Ia[i]);
+      StatusNow = SUs[i]->setCurrent(Ia[i]);
+
+      if (isStatusBad(StatusNow)) { // A child refused its current, so the sum would not be preserved.
+        for (size_t j = 0; j < nSU; j++)
+          SUs[j]->setCurrent(Ib[j], false, false);
+
+        return StatusNow;
+      }
     }
 
     getVall(Va, print);
   }
 
+  StatusNow = Status::RedistributeCurrent_failed;
+
   if constexpr (settings::printNumIterations)
     std::cout << "redistributeCurrent iterations: " << iter << '\n';
 
@@ -176,10 +188,20 @@ Status Module_p::setVoltage(double Vnew, bool checkI, bool print)
 
     for (size_t i = 0; i < nSU; i++) {
       Ia[i] += -0.2 * (Vnew - Va[i]) / 0.001;
-      SUs[i]->setCurrent(Ia[i]);
+      const auto status = SUs[i]->setCurrent(Ia[i]);
+
+      if (isStatusBad(status)) {
+        StatusNow = status;
+        iter = maxIteration; // Stop, this voltage cannot be set.
+        break;
+      }
     }
   }
 
+  if (isStatusBad(StatusNow)) // Revert to the old currents.
+    for (size_t i = 0; i < nSU; i++)
+      SUs[i]->setCurrent(Iolds[i], false, false);
+
   if constexpr (settings::printNumIterations)
     std::cout << "setVoltage iterations: " << iter << '\n';
 
@@ -218,24 +240,33 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
     Itot += Iolds[i];
   }
 
+  const auto restore = [&]() { //!< revert to the old currents.
+    for (size_t i{}; i < SUs.size(); i++)
+      SUs[i]->setCurrent(Iolds[i], false, false);
+  };
+
   const auto dI = (Inew - Itot) / nSU; // #TODO must change if charge/discharge.
+  double Captot{ 0 };
 
   for (size_t i{}; i < SUs.size(); i++) {
     Ia[i] += dI;
     StatusNow = SUs[i]->setCurrent(Ia[i]); // #TODO worse status should be here.
-    if (!isStatusOK(StatusNow)) return StatusNow;
+    if (isStatusBad(StatusNow)) {
+      restore();
+      return StatusNow;
+    }
+    Captot += SUs[i]->Cap();
   }
 
   getVall(Va, print);
+  StatusNow = Status::RedistributeCurrent_failed;
 
   int iter{ 0 };
   for (; iter < maxIteration; iter++) {
     double Vmean{ 0 }, error{ 0 };
 
-    for (size_t i = 0; i < nSU; i++)
-      Vmean += Va[i];
-
-    Vmean /= nSU;
+    for (size_t i = 0; i < nSU; i++) //!< weighted like the updates below so that they preserve the sum of the currents.
+      Vmean += Va[i] * SUs[i]->Cap() / Captot;
 
     for (size_t i = 0; i < nSU; i++)
       error += std::abs(Vmean - Va[i]);
@@ -247,8 +278,11 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
 
     for (size_t i = 0; i < nSU; i++) {
       Ia[i] = Ia[i] - (Vmean - Va[i]) * SUs[i]->Cap();
-      if (!isStatusSuccessful(SUs[i]->setCurrent(Ia[i])))
-        std::cout << "This should not happen!!" << std::endl; // #TODO
+      const auto status = SUs[i]->setCurrent(Ia[i]);
+      if (isStatusBad(status)) {
+        restore();
+        return status;
+      }
     }
     getVall(Va, print);
   }
@@ -272,7 +306,9 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
 
   if constexpr (settings::printNumIterations)
     if (iter != 0) std::cout << "setCurrent iterations: " << iter << '\n';
-  // #TODO set old currents back here!
+
+  if (isStatusBad(StatusNow)) restore();
+
   return StatusNow; //!< #TODO problem
 }
 
-- 
2.43.0


From b959ecf4d8a3e1d62d12feec6393b6385ed21da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:12 +0000
Subject: [PATCH 04/31] fix: restore all children when setting a current or
 states fails

---
 src/cells/Cell_SPM/Cell_SPM.cpp |  2 +-
 src/modules/Module.cpp          | 21 ++++++++++++++++-----
 src/modules/Module_s.cpp        |  2 +-
 src/system/Battery.cpp          |  2 ++
 4 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/cells/Cell_SPM/Cell_SPM.cpp b/src/cells/Cell_SPM/Cell_SPM.cpp
index ce31e03..6e6285c 100644
--- a/src/cells/Cell_SPM/Cell_SPM.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM.cpp
@@ -434,7 +434,7 @@ bool Cell_SPM::validStates(bool print)
   if (st.LLI() < 0) {
     std::cerr << "Error in State::validState. The lost lithium LLI is " << st.LLI()
               << ", which is too low. Only non-negative values are allowed.\n";
-    throw 15;
+    range = false;
   }
 
   const double app = 3 * st.ep() / geo.Rp;
diff --git a/src/modules/Module.cpp b/src/modules/Module.cpp
index 511d075..ae6ab70 100644
--- a/src/modules/Module.cpp
+++ b/src/modules/Module.cpp
@@ -84,7 +84,7 @@ void Module::setSUs(SUs_span_t c, bool checkCells, bool print)
     {
       if (verb)
         std::cerr << "ERROR in Module::setCells, SU " << i << ", already has a parent "
-                  << "with full ID: " << parent->getFullID() << ". Throwing 10.\n";
+                  << "with full ID: " << p->getFullID() << ". Throwing 10.\n";
       std::cout << "Throwed in File: " << __FILE__ << ", line: " << __LINE__ << '\n';
       throw 10;
     }
@@ -220,6 +220,11 @@ Status Module::setStates(setStates_t s, bool checkV, bool print)
 
   Vmodule_valid = false; //!< we are changing the states, so the stored voltage is no longer valid
 
+  const auto restoreUntil = [&](size_t i_last) { //!< restore the original states without checking validity (they should be valid)
+    for (size_t j = 0; j <= i_last; j++)
+      SUs[j]->setStates(spn_orig, false, print);
+  };
+
   //!< set the new cell states
   for (size_t i = 0; i < getNSUs(); i++) {
 
@@ -233,16 +238,22 @@ Status Module::setStates(setStates_t s, bool checkV, bool print)
         std::cerr << "ERROR in Module::setStates when setting the state of cell " << i
                   << ". Restoring the old states, status: " << getStatusMessage(status) << '\n';
 
-      for (size_t j = 0; j <= i; j++)
-        SUs[i]->setStates(spn_orig, false, print); //!< restore the original states without checking validity (they should be valid)
-
+      restoreUntil(i);
       return status;
     }
 
   } //!< end loop to set the cell states
 
   //!< set the module temperature
-  assert(s[0] >= PhyConst::Kelvin); //!< #TODO here we are checking but should we?
+  if (!(s[0] >= PhyConst::Kelvin)) {
+    if (verb)
+      std::cerr << "ERROR in Module::setStates, illegal module temperature " << s[0] << ". Restoring the old states.\n";
+
+    if (!SUs.empty()) restoreUntil(SUs.size() - 1);
+    s = s.last(s.size() - 1);
+    return Status::Invalid_states;
+  }
+
   setT(s[0]);
   s = s.last(s.size() - 1);
 
diff --git a/src/modules/Module_s.cpp b/src/modules/Module_s.cpp
index 1d8e466..b38c3a3 100644
--- a/src/modules/Module_s.cpp
+++ b/src/modules/Module_s.cpp
@@ -106,7 +106,7 @@ Status Module_s::setCurrent(double Inew, bool checkV, bool print)
                   << getStatusMessage(status) << '\n';
 
 
-      for (int j{ i }; j > 0; j--)
+      for (int j{ i }; j >= 0; j--)
         SUs[j]->setCurrent(Iolds[j], false, false); // #TODO this can start from j{i-1} since probably SUs[i] failed to assign any currents.
 
       return status; // #TODO setCurrent here may be costly.
diff --git a/src/system/Battery.cpp b/src/system/Battery.cpp
index 0581721..61926e4 100644
--- a/src/system/Battery.cpp
+++ b/src/system/Battery.cpp
@@ -106,6 +106,8 @@ void Battery::setBlockDegAndTherm(bool block)
 Status Battery::setStates(setStates_t s, bool checkStates, bool print)
 {
   auto status = cells->setStates(s, checkStates, print);
+  if (isStatusBad(status)) return status; //!< the old states are restored, so keep the temperature too.
+
   setT(s.back()); //!< #TODO probably here we need to check?
   return status;
 }
-- 
2.43.0


From c09468e68afa56924285ac081bf792652e56e62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:12 +0000
Subject: [PATCH 05/31] fix: Module_s::V is always up to date, children can
 change without the module knowing

---
 src/modules/Module_s.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/modules/Module_s.cpp b/src/modules/Module_s.cpp
index b38c3a3..bd128d4 100644
--- a/src/modules/Module_s.cpp
+++ b/src/modules/Module_s.cpp
@@ -55,11 +55,7 @@ double Module_s::V()
   //!< sum of the voltage of all cells
   //!< bool verb = print && (settings::printBool::printCrit); //!< print if the (global) verbose-setting is above the threshold
 
-  //!< if the stored value is up to date, return that one
-  if (Vmodule_valid)
-    return Vmodule;
-
-  //!< else calculate the voltage
+  //!< always calculate the voltage, the connected SUs may have been changed without this module knowing it
   Vmodule = 0;
   for (size_t i = 0; i < getNSUs(); i++) {
     const auto v_i = SUs[i]->V();
-- 
2.43.0


From a656da2571b50d42961954a1bcac3c4d6feac474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:49 +0000
Subject: [PATCH 06/31] fix: setVoltage_iterative restores the old current if
 the voltage cannot be set, checkVoltage of modules does not terminate

---
 src/modules/Module.cpp         |  7 ++++++-
 src/utility/free_functions.hpp | 17 +++++++++++++----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/modules/Module.cpp b/src/modules/Module.cpp
index ae6ab70..18efc5e 100644
--- a/src/modules/Module.cpp
+++ b/src/modules/Module.cpp
@@ -124,7 +124,12 @@ Status Module::checkVoltage(double &v, bool print) noexcept
   //!< const bool printNonCrit = print && (settings::printBool::printNonCrit); //!< print if the (global) verbose-setting is above the threshold
 
   //!< check the voltage of the module
-  v = V(); // -> Hey we dont need to calculate this anymore.
+  try {
+    v = V(); // -> Hey we dont need to calculate this anymore.
+  } catch (int) { //!< e.g. a cell outside the range of its OCV curves
+    return Status::V_not_calculated;
+  }
+
   //!< #TODO here was a not useful chuck of code for repeated checking.
   //!< We may have constant limits for module voltage.
 
diff --git a/src/utility/free_functions.hpp b/src/utility/free_functions.hpp
index a37613c..e704350 100644
--- a/src/utility/free_functions.hpp
+++ b/src/utility/free_functions.hpp
@@ -12,6 +12,7 @@
 #include "../settings/settings.hpp"
 #include "../types/Status.hpp"
 
+#include <cmath>
 #include <fstream>
 #include <string>
 #include <numeric>
@@ -27,7 +28,9 @@ inline Status setVoltage_iterative(Tsu *su, double Vset)
   // New redistributeCurrent without PI control:
   //!< get cell voltages
   constexpr int maxIteration = 50;
-  double Ia{ su->I() };
+  const double Iold{ su->I() }; //!< get the old current so we can revert if needed
+  double Ia{ Iold };
+  auto status = Status::RedistributeCurrent_failed; // #TODO change to setVoltage failed.
 
   for (int iter{ 0 }; iter < maxIteration; iter++) {
     const auto Va = su->V();
@@ -35,15 +38,21 @@ inline Status setVoltage_iterative(Tsu *su, double Vset)
       return Status::Success;
 
     const auto Ib = (Vset > Va) ? Ia - 0.01 * su->Cap() : Ia + 0.01 * su->Cap();
-    su->setCurrent(Ib);
+    status = su->setCurrent(Ib);
+    if (isStatusBad(status)) break;
+
     const auto Vb = su->V();
 
     const double slope = (Ia - Ib) / (Va - Vb);
     Ia = Ib - (Vb - Vset) * slope; //!< False-Position method.
-    su->setCurrent(Ia);
+    status = std::isfinite(Ia) ? su->setCurrent(Ia) : Status::RedistributeCurrent_failed;
+    if (isStatusBad(status)) break;
+
+    status = Status::RedistributeCurrent_failed;
   }
 
-  return Status::RedistributeCurrent_failed; // #TODO change to setVoltage failed.
+  su->setCurrent(Iold, false, false);
+  return status;
 }
 
 inline void write_data(std::ofstream &file, std::vector<double> &data, size_t N = 1)
-- 
2.43.0


From 8607de0a68fc06ef0cffa689d8ff1ea998457746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:36 +0000
Subject: [PATCH 07/31] fix: Cycler stops when the current or voltage could not
 be set instead of continuing with the old one

---
 src/procedures/Cycler.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 7aab5d5..245c176 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -192,7 +192,7 @@ Status Cycler::setCurrent(double I, double vlim)
   //!< Try setting the current
   const auto status = su->setCurrent(I, checkCellV, settings::printBool::printNonCrit); //!< throws error if checkCellv == true and voltage out of range of a cell
 
-  if (isStatusVoltageLimitsViolated(status)) {
+  if (isStatusFailed(status)) {
     if constexpr (settings::printBool::printNonCrit)
       std::cout << "Error caught in Cycler::setCurrent of SU " << su->getFullID() << " when trying to set a current of "
                 << I << " A. This current cannot be set without violating the voltage limits of one of the cells" << '\n';
@@ -205,7 +205,7 @@ Status Cycler::setCurrent(double I, double vlim)
   if (I < 0 && Vini <= vlim && Vnew > vlim) //!< charging -> exceeded if Vini < vlim  & Vnew > vlim
     return Status::ReachedVoltageLimit;
   else {
-    if (Vini >= vlim && Vnew < vlim) return Status::ReachedVoltageLimit; //!< #TODO why Vini check?
+    if (I > 0 && Vini >= vlim && Vnew < vlim) return Status::ReachedVoltageLimit; //!< #TODO why Vini check?
   }
 
   return Status::Success; //!< if none of the above, we could set the current without exceeding any voltage limit
@@ -265,7 +265,9 @@ Status Cycler::CC(double I, double vlim, double tlim, double dt, int ndt_data, T
 
   //!< apply current
   while (ttot < tlim) {
-    auto succ = setCurrent(I, vlim); // #TODO this was not here I added to get nice results from
+    succ = setCurrent(I, vlim); // #TODO this was not here I added to get nice results from
+    if (succ > Status::VMAXsafety_violation) return succ; //!< the current is not set, so we cannot continue
+
     //!< change length of the time step in the last iteration to get exactly tlim seconds
     if (nOnce * dti > tlim - ttot) //!< we are close to the total time -> set nOnce to 1
       nOnce = 1;
@@ -441,7 +443,8 @@ Status Cycler::CV(double Vset, double Ilim, double tlim, double dt, int ndt_data
   bool reach;
 
   for (size_t i = 0; i < nt; i++) {
-    su->setVoltage(Vset);
+    const auto status = su->setVoltage(Vset);
+    if (status > Status::VMAXsafety_violation) return status; //!< the voltage is not set, so we cannot continue
 
     //!< change length of the time step in the last iteration to get exactly tlim seconds
     if (i + 1 == nt)
-- 
2.43.0


From 5344342774a47db797576d71d805d4abe5e4296d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:36 +0000
Subject: [PATCH 08/31] fix: Cycler throughput counts the time of all phases
 and all steps which were simulated

---
 src/procedures/Cycler.cpp | 43 +++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 245c176..19b4e4b 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -133,6 +133,7 @@ Status Cycler::rest(double tlim, double dt, int ndt_data, ThroughputData &th)
 
     //!< Increase the throughput
     ttot += dti * nOnce;
+    th.time() += dti * nOnce; //!< there is no throughput during resting
     idat += nOnce;
 
     //!< Store a data point if needed
@@ -170,8 +171,6 @@ Status Cycler::rest(double tlim, double dt, int ndt_data, ThroughputData &th)
 
   if (boolStoreData) storeData();
 
-  th.time() += ttot; //!< there is no throughput during resting
-
   return succ;
 }
 
@@ -286,6 +285,13 @@ Status Cycler::CC(double I, double vlim, double tlim, double dt, int ndt_data, T
       return Status::timeStep_CC_failed;
     }
 
+    //!< Increase the throughput
+    const auto dt_now = dti * nOnce;
+    th.time() += dt_now;
+    ttot += dt_now;
+    th.Ah() += std::abs(I) * dt_now / 3600.0;
+    idat += nOnce;
+
     //!< get the voltage
     if (diagnostic) {
       const auto status = su->checkVoltage(vi, true);
@@ -293,6 +299,7 @@ Status Cycler::CC(double I, double vlim, double tlim, double dt, int ndt_data, T
         if constexpr (settings::printBool::printNonCrit)
           std::cout << "in Cycler::CC, the voltage of a cell became invalid in time step when the total voltage was "
                     << vi << '\n';
+        th.Wh() += std::abs(I) * dt_now / 3600 * vi;
         return status; //!< previously -4
       }
     } else {
@@ -306,13 +313,6 @@ Status Cycler::CC(double I, double vlim, double tlim, double dt, int ndt_data, T
       }
     }
 
-    auto myVnow = su->V();
-    //!< Increase the throughput
-    const auto dt_now = dti * nOnce;
-    th.time() += dt_now;
-    ttot += dt_now;
-    th.Ah() += std::abs(I) * dt_now / 3600.0;
-    idat += nOnce;
     th.Wh() += std::abs(I) * dt_now / 3600 * vi;
 
     //!< Store a data point if needed
@@ -464,6 +464,7 @@ Status Cycler::CV(double Vset, double Ilim, double tlim, double dt, int ndt_data
     const auto dAh = std::abs(su->I() * dti / 3600.0);
     vi = su->V();
     ttot += dti;
+    th.time() += dti;
     th.Ah() += dAh;
     th.Wh() += dAh * vi;
 
@@ -498,21 +499,13 @@ Status Cycler::CV(double Vset, double Ilim, double tlim, double dt, int ndt_data
   //!< *********************************************************** TERMINATE ******************************************************************************
   //!< check why we stopped the time integration
   Status succ;
-  if (ttot >= tlim)
+  if (ttot >= tlim || !Itot) //!< the loop above only ends after all time steps or if the current limit was reached
     succ = Status::ReachedTimeLimit; //!< time limit
-  else if (Itot)                     //!< #TODO why a bool named Itot? It looks like double.
-  {
+  else { //!< current limit
     if (Vtolerance)
       succ = Status::ReachedCurrentLimit; //!< current limit
     else
       succ = Status::ReachedSmallCurrent; //!< #TODO is this ever possible? current became way too small, but voltage limit still not reached
-  } else {
-    if constexpr (settings::printBool::printCrit)
-      std::cerr << "Error in Cycler::CV, stopped time integration for unclear reason after "
-                << ttot << "s and voltage " << vi << "V, we were running with time limit " << tlim
-                << " and current limit " << Ilim << "V and set voltage " << Vset << '\n';
-
-    throw 100;
   }
 
   //!< store data point
@@ -574,6 +567,12 @@ Status Cycler::CCCV_with_tlim(double I, double Vset, double Ilim, double tlim, d
       std::cout << "Cycler::CCCV could not complete the CC phase, terminated with "
                 << getStatusMessage(succ) << ". Trying to do a CV phase.\n";
 
+  th.time() += th1.time();
+  th.Ah() += th1.Ah();
+  th.Wh() += th1.Wh();
+
+  if (succ == Status::timeStep_CC_failed) return succ;
+
   const auto t_remaining = tlim - th1.time();
   succ = CV(Vset, Ilim, t_remaining, dt, ndt_data, th2);
   if constexpr (settings::printBool::printNonCrit)
@@ -581,9 +580,9 @@ Status Cycler::CCCV_with_tlim(double I, double Vset, double Ilim, double tlim, d
       std::cout << "Cycler::CCCV could not complete the CV phase, terminated with "
                 << getStatusMessage(succ) << '\n';
 
-  th.time() = th1.time() + th2.time();
-  th.Ah() = th1.Ah() + th2.Ah();
-  th.Wh() = th1.Wh() + th2.Wh();
+  th.time() += th2.time();
+  th.Ah() += th2.Ah();
+  th.Wh() += th2.Wh();
 
   return succ;
 }
-- 
2.43.0


From ce26807998aca58bc60359216cdcd5b91ff35e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:58 +0000
Subject: [PATCH 09/31] fix: a failed write of cell data is reported and loses
 no data, every data point is on its own line

---
 src/modules/Module.hpp                     |  4 ++--
 src/types/data_storage/CellDataStorage.hpp | 11 ++++-------
 src/types/data_storage/CellDataWriter.hpp  |  5 ++++-
 src/utility/free_functions.hpp             | 16 ++++++++++++++--
 4 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/modules/Module.hpp b/src/modules/Module.hpp
index cf04b5f..b312a8d 100644
--- a/src/modules/Module.hpp
+++ b/src/modules/Module.hpp
@@ -160,8 +160,8 @@ public:
       }
 
       free::write_data(file, data, 6);
-
-      file.close();
+      free::closeFile(file);
+      data.clear(); //!< we can overwrite the stored data, but only if it has arrived in the file
     }
 
 //!< Write data for the cooling system
diff --git a/src/types/data_storage/CellDataStorage.hpp b/src/types/data_storage/CellDataStorage.hpp
index ae9810e..2f86339 100644
--- a/src/types/data_storage/CellDataStorage.hpp
+++ b/src/types/data_storage/CellDataStorage.hpp
@@ -63,13 +63,10 @@ struct CellDataStorage<settings::cellDataStorageLevel::storeTimeData>
   {
     const auto throughputs = cell.getThroughputs();
     // #TODO just write all states, throughputs will be included.
-    data.push_back(cell.I());
-    data.push_back(cell.V());
-    data.push_back(cell.SOC());
-    data.push_back(cell.T());
-    data.push_back(throughputs.time()); // time
-    data.push_back(throughputs.Ah());   // Ah
-    data.push_back(throughputs.Wh());   // Wh
+    //!< Get all values first and add them at once, such that there is never a part of a data point
+    const std::array<double, 7> point{ cell.I(), cell.V(), cell.SOC(), cell.T(),
+                                       throughputs.time(), throughputs.Ah(), throughputs.Wh() };
+    data.insert(data.end(), point.begin(), point.end());
   }
 };
 } // namespace slide
\ No newline at end of file
diff --git a/src/types/data_storage/CellDataWriter.hpp b/src/types/data_storage/CellDataWriter.hpp
index 546cd25..ef63649 100644
--- a/src/types/data_storage/CellDataWriter.hpp
+++ b/src/types/data_storage/CellDataWriter.hpp
@@ -67,7 +67,10 @@ struct CellDataWriter
     constexpr auto suffix = "cellData.csv";
     auto file = free::openFile(cell, PathVar::results, prefix, suffix);
     writeDataImpl<N>(file, cell, storage);
-    file.close();
+    free::closeFile(file);
+
+    if constexpr (N >= settings::cellDataStorageLevel::storeTimeData)
+      storage.data.clear(); //!< we can overwrite the stored data, but only if it has arrived in the file
   }
 };
 
diff --git a/src/utility/free_functions.hpp b/src/utility/free_functions.hpp
index e704350..8445946 100644
--- a/src/utility/free_functions.hpp
+++ b/src/utility/free_functions.hpp
@@ -55,8 +55,9 @@ inline Status setVoltage_iterative(Tsu *su, double Vset)
   return status;
 }
 
-inline void write_data(std::ofstream &file, std::vector<double> &data, size_t N = 1)
+inline void write_data(std::ofstream &file, const std::vector<double> &data, size_t N = 1)
 {
+  //!< note: the data is not erased, do that once the file has been written successfully.
   for (size_t i{}; i < data.size(); i++) {
     if (i % N == 0) {
       if (i != 0)
@@ -67,7 +68,18 @@ inline void write_data(std::ofstream &file, std::vector<double> &data, size_t N
     file << data[i];
   }
 
-  data.clear(); //!< reset the index to 0 since we can overwrite the stored data
+  if (!data.empty()) //!< end the last line, what is written next has to start on its own line
+    file << '\n';
+}
+
+inline void closeFile(std::ofstream &file) //!< close the file and check that everything has arrived there
+{
+  file.close();
+
+  if (!file) {
+    std::cerr << "ERROR when writing data, not all data could be written to the file.\n";
+    throw 11;
+  }
 }
 
 template <typename T>
-- 
2.43.0


From 34960e1cb403a64886342b35e9b6a60635bf249d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:16 +0000
Subject: [PATCH 10/31] fix: throughput entries which could not be written are
 kept for the next time

---
 src/procedures/Procedure.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index 6eaf862..4f3a574 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -631,7 +631,11 @@ void Procedure::writeThroughput(const std::string &SUID, double Ahtot)
   //!< close the file
   file.close();
 
-  //!< erase the vectors
-  throughput.clear();
+  //!< erase the vectors, but only if the data has arrived in the file. Else write it next time
+  if (file)
+    throughput.clear();
+  else
+    std::cerr << "Error in Procedure::writeThroughput, the file " << PathVar::results / name
+              << " could not be written. Keeping the data for the next time.\n";
 }
 } // namespace slide
\ No newline at end of file
-- 
2.43.0


From 3b5ce3dab05d1af362af4c308d008e9ab92d35a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:37 +0000
Subject: [PATCH 11/31] fix: testCapacity restores the original states also
 after success and exceptions

---
 src/procedures/Cycler.cpp | 60 +++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 19b4e4b..7647f5e 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -610,39 +610,45 @@ double Cycler::testCapacity(double &Ah, double &ttot)
 
   //!< *********************************************************** 2 full charge / discharge cycle ***********************************************************************
 
-  //!< fully charge and discharge the cell
-  const auto cap = su->Cap();
-  //!< fully charge battery to its specified maximum voltage )
-  auto status = CC(-crate * cap, su->Vmax(), TIME_INF, dt, 0, th1);
-  ttot += th1.time();
-
-  if (status != Status::ReachedVoltageLimit) {
-    if constexpr (settings::printBool::printCrit)
-      std::cout << "Error in a subfunction of Cycler::getCapacity "
-                << getStatusMessage(status) << ".\n";
+  auto measure = [&]() -> double {
+    //!< fully charge and discharge the cell
+    const auto cap = su->Cap();
+    //!< fully charge battery to its specified maximum voltage )
+    auto status = CC(-crate * cap, su->Vmax(), TIME_INF, dt, 0, th1);
+    ttot += th1.time();
+
+    if (status != Status::ReachedVoltageLimit) {
+      if constexpr (settings::printBool::printCrit)
+        std::cout << "Error in a subfunction of Cycler::getCapacity "
+                  << getStatusMessage(status) << ".\n";
+      return 0;
+    }
 
-    //!< restore the original states
-    su->setStates(sini_span, false, true);
+    //!< fully discharge the battery
+    status = CC(crate * cap, su->Vmin(), TIME_INF, dt, 0, th2);
+    ttot += th2.time();
 
-    return 0;
-  }
-
-  //!< fully discharge the battery
-  status = CC(crate * cap, su->Vmin(), TIME_INF, dt, 0, th2);
-  ttot += th2.time();
+    if (status != Status::ReachedVoltageLimit) {
+      if constexpr (settings::printBool::printCrit)
+        std::cout << "Error in a subfunction of Cycler::getCapacity "
+                  << getStatusMessage(status) << ".\n";
+      return 0;
+    }
 
-  if (status != Status::ReachedVoltageLimit) {
-    if constexpr (settings::printBool::printCrit)
-      std::cout << "Error in a subfunction of Cycler::getCapacity "
-                << getStatusMessage(status) << ".\n";
+    Ah = th1.Ah() + th2.Ah();
+    return th2.Ah();
+  };
 
-    //!< restore the original states
-    su->setStates(sini_span, false, true);
-    return 0;
+  double cap_measured{ 0 };
+  try {
+    cap_measured = measure();
+  } catch (...) {
+    su->setStates(sini_span, false, true); //!< restore the original states
+    throw;
   }
 
-  Ah = th1.Ah() + th2.Ah();
-  return th2.Ah();
+  su->setStates(sini_span, false, true); //!< restore the original states
+  return cap_measured;
 }
 
 Status Cycler::Profile(std::span<double> I_vec, double vlim, double tlim, double dt, int ndt_data, double &Ah, double &Wh)
-- 
2.43.0


From e9ee53b9c629a81c5b34c32623c76150056dfbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:37 +0000
Subject: [PATCH 12/31] fix: children of a copied module or battery belong to
 the copy

---
 src/modules/Module.hpp   | 6 ++++++
 src/modules/Module_p.hpp | 7 ++++++-
 src/modules/Module_s.hpp | 7 ++++++-
 src/system/Battery.hpp   | 7 ++++++-
 4 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/modules/Module.hpp b/src/modules/Module.hpp
index b312a8d..6331a40 100644
--- a/src/modules/Module.hpp
+++ b/src/modules/Module.hpp
@@ -69,6 +69,12 @@ protected:
     return Ncells = transform_sum(SUs, free::get_Ncells<SU_t>);
   }
 
+  void adoptSUs() //!< (after copying) the children belong to this module, not to the module they were copied from
+  {
+    for (auto &SU : SUs)
+      SU->setParent(this);
+  }
+
   double thermalModel_cell();
   double thermalModel_coupled(int Nneighbours, double Tneighbours[], double Kneighbours[], double Aneighb[], double tim);
 
diff --git a/src/modules/Module_p.hpp b/src/modules/Module_p.hpp
index 00a187b..a824544 100644
--- a/src/modules/Module_p.hpp
+++ b/src/modules/Module_p.hpp
@@ -44,6 +44,11 @@ public:
 
   void timeStep_CC(double dt, int steps = 1) override;
 
-  Module_p *copy() override { return new Module_p(*this); }
+  Module_p *copy() override
+  {
+    auto m = new Module_p(*this);
+    m->adoptSUs();
+    return m;
+  }
 };
 } // namespace slide
\ No newline at end of file
diff --git a/src/modules/Module_s.hpp b/src/modules/Module_s.hpp
index 2f481c2..416a27f 100644
--- a/src/modules/Module_s.hpp
+++ b/src/modules/Module_s.hpp
@@ -45,6 +45,11 @@ public:
   Status setCurrent(double Inew, bool checkV = true, bool print = true) override; //!< set a module current
   void timeStep_CC(double dt, int steps = 1) override;
 
-  Module_s *copy() override { return new Module_s(*this); }
+  Module_s *copy() override
+  {
+    auto m = new Module_s(*this);
+    m->adoptSUs();
+    return m;
+  }
 };
 } // namespace slide
diff --git a/src/system/Battery.hpp b/src/system/Battery.hpp
index 507eed6..6e2a3d5 100644
--- a/src/system/Battery.hpp
+++ b/src/system/Battery.hpp
@@ -92,7 +92,12 @@ public:
   void storeData() override;
   void writeData(const std::string &prefix) override;
 
-  Battery *copy() override { return new Battery(*this); }
+  Battery *copy() override
+  {
+    auto b = new Battery(*this);
+    if (b->cells) b->cells->setParent(b); //!< the module belongs to the copy, not to the original battery
+    return b;
+  }
 };
 
 } // namespace slide
-- 
2.43.0


From 3c516fcdee65645779ea4e4e414b43660288fee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:03 +0000
Subject: [PATCH 13/31] fix: the stored voltage and stress of an SPM cell are
 invalid after its temperature or states have changed

---
 src/cells/Cell_SPM/Cell_SPM.cpp        | 5 +++++
 src/cells/Cell_SPM/Cell_SPM_dstate.cpp | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/cells/Cell_SPM/Cell_SPM.cpp b/src/cells/Cell_SPM/Cell_SPM.cpp
index 6e6285c..e8a82c9 100644
--- a/src/cells/Cell_SPM/Cell_SPM.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM.cpp
@@ -365,6 +365,10 @@ Status Cell_SPM::setStates(setStates_t s, bool checkV, bool print)
   s = s.last(s.size() - st.size());                        //!< Remove first Nstates elements from span.
   Vcell_valid = false;
 
+  //!< the stress values stored in the class variables for stress are no longer valid because the state has changed
+  sparam.s_dai_update = false;
+  sparam.s_lares_update = false;
+
   const Status status = free::check_Cell_states(*this, checkV);
 
   if (isStatusBad(status)) {
@@ -553,6 +557,7 @@ void Cell_SPM::setT(double Ti)
    */
 
   st.T() = Ti; //!< #TODO if we need to check if we are in limits.  if T is in limits.
+  Vcell_valid = false; //!< the voltage depends on the temperature
 
   //!< the stress values stored in the class variables for stress are no longer valid because the state has changed
   sparam.s_dai_update = false;
diff --git a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
index 6239d8b..a32a104 100644
--- a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
@@ -358,6 +358,8 @@ void Cell_SPM::timeStep_CC(double dt, int nstep)
     //!< degradation accumulation
     for (size_t i = 0; i < st.size(); i++)
       st[i] += d_st[i] * dt * nstep;
+
+    Vcell_valid = false; //!< the voltage depends on the states which have just been changed
   }
 }
 
-- 
2.43.0


From 15896db1d6825a3756e7715c1a065c300ccd81f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:12 +0000
Subject: [PATCH 14/31] fix: contact heat of parallel modules uses the current
 of each resistor

---
 src/modules/Module_p.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index 4c551a8..68dd5f0 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -350,10 +350,10 @@ void Module_p::timeStep_CC(double dt, int nstep)
     therm.time += nstep * dt;
 
     //!< Increase the heat from the contact resistances
-    double Ii = 0; //!< current through resistor I
     for (size_t i = 0; i < SUs.size(); i++) {
-      for (size_t j = i; j < SUs.size(); j++) // #TODO very important! Not calculating current for Rcontact properly!!!!!!!!!!
-        Ii += SUs[j]->I();                    //!< resistor i sees the currents through the cells 'behind' them
+      double Ii = 0; //!< current through resistor I
+      for (size_t j = i; j < SUs.size(); j++)
+        Ii += SUs[j]->I(); //!< resistor i sees the currents through the cells 'behind' them
 
       therm.Qcontact += Rcontact[i] * sqr(Ii) * nstep * dt;
     }
-- 
2.43.0


From 7a2237c8cf14b49d3dc38969c650d843753f6104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 15/31] fix: CSV readers report unreadable or empty files and
 can be used by several threads

---
 src/utility/io/read_CSVfiles.hpp | 41 +++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/utility/io/read_CSVfiles.hpp b/src/utility/io/read_CSVfiles.hpp
index b62717e..d6a17d6 100644
--- a/src/utility/io/read_CSVfiles.hpp
+++ b/src/utility/io/read_CSVfiles.hpp
@@ -20,6 +20,7 @@
 #include <sstream>
 #include <vector>
 #include <map>
+#include <mutex>
 #include <span>
 #include <cstring> //!< -> for memcpy
 
@@ -64,7 +65,7 @@ void loadCSV_mat(const Tpath &name, Matrix<T, ROW, COL> &x)
   //!< 	 * x 		matrix in which the data from the file will be put.
   //!< 	 *
   //!< 	 * THROWS
-  //!< 	 * 2 		could not open the file
+  //!< 	 * 2 		could not open or read the file
   //!< 	 */
   std::ifstream in(name, std::ios_base::in);
 
@@ -76,8 +77,8 @@ void loadCSV_mat(const Tpath &name, Matrix<T, ROW, COL> &x)
 
   char c = '.';
 
-  while (in.peek() <= 32) //!< Ignore byte order mark (BOM) at the beginning
-    in >> c;
+  while (in.good() && in.peek() <= 32) //!< Ignore white space at the beginning
+    in.get();
 
   for (size_t i = 0; i < ROW; i++) {
     //!< read all but the last column
@@ -87,6 +88,12 @@ void loadCSV_mat(const Tpath &name, Matrix<T, ROW, COL> &x)
     in >> x[i][COL - 1]; //!< Read only number since there is no comma.
   }
 
+  if (!in) //!< check if we could read all numbers
+  {
+    std::cerr << "Error in ReadCSVfiles::loadCSV_mat. File " << name << " could not be read.\n";
+    throw 2;
+  }
+
   in.close();
 }
 
@@ -103,9 +110,8 @@ inline void ignoreBOM(std::ifstream &in)
 {
   char c = '.';
 
-  do {
-    in >> c;
-  } while (c < 45); //!< Ignore byte order mark (BOM) at the beginning
+  while (in >> c && c < 45) //!< Ignore byte order mark (BOM) at the beginning
+    ;
 
   in.putback(c);
 }
@@ -125,7 +131,7 @@ void loadCSV_2col(const Tpath &name, Tx &x, Ty &y, int n = 0)
    * y 		array in which the data from the second column will be put
    *
    * THROWS
-   * 2 		could not open the specified file
+   * 2 		could not open or read the specified file
    */
 
   std::ifstream in(name, std::ios_base::in);
@@ -156,6 +162,13 @@ void loadCSV_2col(const Tpath &name, Tx &x, Ty &y, int n = 0)
     while ((n == 0 || j < n) && (in >> x[j] >> c >> y[j])) //!< Read file.
       j++;
   }
+
+  if (in.bad() || j == 0) //!< check if we could read the file
+  {
+    std::cerr << "Error in ReadCSVfiles::loadCSV_2col. File " << name
+              << " could not be read.\n";
+    throw 2;
+  }
 }
 
 template <typename Tpath, typename Tx>
@@ -173,7 +186,7 @@ void loadCSV_Ncol(const Tpath &name, DynamicMatrix<Tx> &x, int n = 0)
    * y 		array in which the data from the second column will be put
    *
    * THROWS
-   * 2 		could not open the specified file
+   * 2 		could not open or read the specified file
    */
 
   std::ifstream in(name, std::ios_base::in);
@@ -204,6 +217,13 @@ void loadCSV_Ncol(const Tpath &name, DynamicMatrix<Tx> &x, int n = 0)
     }
   }
 
+  if (in.bad() || n_rows == 0) //!< check if we could read the file
+  {
+    std::cerr << "Error in ReadCSVfiles::loadCSV_Ncol. File " << name
+              << " could not be read.\n";
+    throw 2;
+  }
+
   int n_cols = x.data.size() / n_rows;
 
   x.reshape(n_cols, n_rows);
@@ -232,10 +252,13 @@ void loadCSV_2col(const Tpath &name, std::span<double> &x, std::span<double> &y,
    * y 		array in which the data from the second column will be put
    *
    * THROWS
-   * 2 		could not open the specified file
+   * 2 		could not open or read the specified file
    */
 
   static std::map<std::string, XYplain> XYdataMap;
+  static std::mutex XYdataMutex; //!< the map is shared between all threads
+
+  std::lock_guard lock(XYdataMutex);
 
   auto name_str = name.string();
 
-- 
2.43.0


From 0ff9eda61f880fd3cd574e2fdfa153c57ba135da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:22 +0000
Subject: [PATCH 16/31] hook: simulator can select the data flush threshold and
 the thermal model (SLIDE_SIM, off by default)

---
 src/settings/derived_settings.hpp | 7 ++++++-
 src/settings/settings.hpp         | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/settings/derived_settings.hpp b/src/settings/derived_settings.hpp
index b28a96c..4cc92a2 100644
--- a/src/settings/derived_settings.hpp
+++ b/src/settings/derived_settings.hpp
@@ -11,7 +11,12 @@
 #pragma once
 
 namespace slide::settings {
-constexpr size_t CELL_NDATA_MAX = DATASTORE_CELL <= cellDataStorageLevel::storeHistogramData ? CELL_NDATA_HIST_MAX : CELL_NDATA_INST_MAX;
+#ifdef SLIDE_SIM //!< the simulator selects after how many points the data is written
+inline
+#else
+constexpr
+#endif
+  size_t CELL_NDATA_MAX = DATASTORE_CELL <= cellDataStorageLevel::storeHistogramData ? CELL_NDATA_HIST_MAX : CELL_NDATA_INST_MAX;
 //!< length of arrays in which we store cycling data at every time step
 } // namespace slide::settings
 
diff --git a/src/settings/settings.hpp b/src/settings/settings.hpp
index edb4e0b..c72621e 100644
--- a/src/settings/settings.hpp
+++ b/src/settings/settings.hpp
@@ -89,7 +89,11 @@ constexpr size_t CELL_NSTATE_MAX{ 30 }; //!< maximum number of states of all typ
                          //!< if 2, current, voltage, temperature, soc is stored at every time step, as well as overall utilisation (throughput)
 
 //!< temperature
+#ifdef SLIDE_SIM_T_MODEL //!< the simulator selects the thermal model
+constexpr int T_MODEL{ SLIDE_SIM_T_MODEL };
+#else
 constexpr int T_MODEL{ 0 }; //!< which thermal model to use
+#endif
                             //!< 	0 no thermal model
                             //!< 	1 individual cell bulk thermal model
                             //!< 	2 coupled cell thermal model with cooling from modules
-- 
2.43.0


From f0e71bd202d4b575896bafba65aaf78271e90763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:39 +0000
Subject: [PATCH 17/31] fix: CCCV keeps the throughput of a phase that ends
 with an exception

---
 src/procedures/Cycler.cpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 7647f5e..2e29568 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -560,29 +560,43 @@ Status Cycler::CCCV_with_tlim(double I, double Vset, double Ilim, double tlim, d
   I = (su->V() > Vset) ? I : -I; //!< OCV larger than Vset so we need to discharge
 
   ThroughputData th1{}, th2{};
-  auto succ = CC(I, Vset, tlim, dt, ndt_data, th1); //!< do the CC phase
+  const auto addThroughput = [&th](const ThroughputData &thi) {
+    th.time() += thi.time();
+    th.Ah() += thi.Ah();
+    th.Wh() += thi.Wh();
+  };
+
+  auto succ = Status::Unknown_problem;
+  try {
+    succ = CC(I, Vset, tlim, dt, ndt_data, th1); //!< do the CC phase
+  } catch (...) {
+    addThroughput(th1); //!< what was done before the error counts too
+    throw;
+  }
 
   if constexpr (settings::printBool::printNonCrit)
     if (succ != Status::ReachedVoltageLimit)
       std::cout << "Cycler::CCCV could not complete the CC phase, terminated with "
                 << getStatusMessage(succ) << ". Trying to do a CV phase.\n";
 
-  th.time() += th1.time();
-  th.Ah() += th1.Ah();
-  th.Wh() += th1.Wh();
+  addThroughput(th1);
 
   if (succ == Status::timeStep_CC_failed) return succ;
 
   const auto t_remaining = tlim - th1.time();
-  succ = CV(Vset, Ilim, t_remaining, dt, ndt_data, th2);
+  try {
+    succ = CV(Vset, Ilim, t_remaining, dt, ndt_data, th2);
+  } catch (...) {
+    addThroughput(th2);
+    throw;
+  }
+
   if constexpr (settings::printBool::printNonCrit)
     if (succ != Status::ReachedCurrentLimit)
       std::cout << "Cycler::CCCV could not complete the CV phase, terminated with "
                 << getStatusMessage(succ) << '\n';
 
-  th.time() += th2.time();
-  th.Ah() += th2.Ah();
-  th.Wh() += th2.Wh();
+  addThroughput(th2);
 
   return succ;
 }
-- 
2.43.0


From e8731a6837c47ceb8fecdbe590308f294e5018a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:19 +0000
Subject: [PATCH 18/31] fix: a failed change of the current or voltage restores
 the currents of all cells

---
 src/StorageUnit.hpp            |  7 +++++++
 src/modules/Module.hpp         | 14 ++++++++++++++
 src/modules/Module_p.cpp       | 35 ++++++++++++++++++++--------------
 src/modules/Module_s.cpp       |  8 ++++----
 src/system/Battery.hpp         |  3 +++
 src/utility/free_functions.hpp |  9 ++++++---
 6 files changed, 55 insertions(+), 21 deletions(-)

diff --git a/src/StorageUnit.hpp b/src/StorageUnit.hpp
index 0e0f373..6d1c47c 100644
--- a/src/StorageUnit.hpp
+++ b/src/StorageUnit.hpp
@@ -72,6 +72,13 @@ public:
 
   virtual Status setStates(setStates_t s, bool checkStates = true, bool print = true) = 0; //!< opposite of getStates, check the states are valid?
 
+  virtual void getCurrents(std::vector<double> &Is) { Is.push_back(I()); } //!< append the currents of all cells
+  virtual void restoreCurrents(std::span<const double> &Is)               //!< opposite of getCurrents: undo a failed change of the current
+  {
+    setCurrent(Is.front(), false, false);
+    Is = Is.subspan(1);
+  }
+
   virtual void backupStates() {}  //!< Back-up states.
   virtual void restoreStates() {} //!< restore backed-up states.
 
diff --git a/src/modules/Module.hpp b/src/modules/Module.hpp
index 6331a40..2d5922a 100644
--- a/src/modules/Module.hpp
+++ b/src/modules/Module.hpp
@@ -94,6 +94,20 @@ public:
   virtual Status checkVoltage(double &v, bool print) noexcept override; //!< get the voltage and check if it is valid
   double getVhigh() override;                                           //!< return the voltage of the cell with the highest voltage
   double getVlow() override;                                            //!< return the voltage of the cell with the lowest voltage
+  void getCurrents(std::vector<double> &Is) override
+  {
+    for (auto &SU : SUs)
+      SU->getCurrents(Is);
+  }
+
+  void restoreCurrents(std::span<const double> &Is) override //!< cell by cell, setCurrent might not find the old distribution between parallel cells again
+  {
+    for (auto &SU : SUs)
+      SU->restoreCurrents(Is);
+
+    Vmodule_valid = false;
+  }
+
   void getStates(getStates_t &s) override;                              //!< returns one long array with the states: getStates-array of each cell followed by the states of the module (Tmod)
                                                                         //	[s0 s1 s2 ... sn T], where s1 = cells[0].getStates()
 
diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index 68dd5f0..2010e8d 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -103,7 +103,8 @@ Status Module_p::redistributeCurrent(bool checkV, bool print)
 {
   // New redistributeCurrent without PI control:
   //!< get cell voltages
-  std::array<double, settings::MODULE_NSUs_MAX> Va, Vb, Ia, Ib; //!< #TODO if we should make them vector.
+  std::array<double, settings::MODULE_NSUs_MAX> Va, Ia; //!< #TODO if we should make them vector.
+  std::vector<double> Iolds;                            //!< the old currents so we can revert if needed
 
   //!< voltage and initial current of each cell //!< #TODO it is a constant value SU.
   constexpr int maxIteration = 2500;
@@ -115,8 +116,9 @@ Status Module_p::redistributeCurrent(bool checkV, bool print)
 
   double Captot{ 0 };
   getVall(Va, print);
+  getCurrents(Iolds);
   for (size_t i = 0; i < nSU; i++) {
-    Ia[i] = Ib[i] = SUs[i]->I();
+    Ia[i] = SUs[i]->I();
     Captot += SUs[i]->Cap();
   }
 
@@ -142,8 +144,8 @@ Status Module_p::redistributeCurrent(bool checkV, bool print)
       StatusNow = SUs[i]->setCurrent(Ia[i]);
 
       if (isStatusBad(StatusNow)) { // A child refused its current, so the sum would not be preserved.
-        for (size_t j = 0; j < nSU; j++)
-          SUs[j]->setCurrent(Ib[j], false, false);
+        std::span<const double> Ispan{ Iolds };
+        restoreCurrents(Ispan);
 
         return StatusNow;
       }
@@ -167,11 +169,13 @@ Status Module_p::setVoltage(double Vnew, bool checkI, bool print)
 
   auto StatusNow = Status::RedistributeCurrent_failed;
 
-  std::array<double, settings::MODULE_NSUs_MAX> Iolds, Ia, Va;
+  std::array<double, settings::MODULE_NSUs_MAX> Ia, Va;
 
   //!< get the old currents so we can revert if needed
+  std::vector<double> Iolds;
+  getCurrents(Iolds);
   for (size_t i{}; i < SUs.size(); i++)
-    Ia[i] = Iolds[i] = SUs[i]->I();
+    Ia[i] = SUs[i]->I();
 
   int iter{ 0 };
   for (; iter < maxIteration; iter++) {
@@ -198,9 +202,10 @@ Status Module_p::setVoltage(double Vnew, bool checkI, bool print)
     }
   }
 
-  if (isStatusBad(StatusNow)) // Revert to the old currents.
-    for (size_t i = 0; i < nSU; i++)
-      SUs[i]->setCurrent(Iolds[i], false, false);
+  if (isStatusBad(StatusNow)) { // Revert to the old currents.
+    std::span<const double> Ispan{ Iolds };
+    restoreCurrents(Ispan);
+  }
 
   if constexpr (settings::printNumIterations)
     std::cout << "setVoltage iterations: " << iter << '\n';
@@ -230,19 +235,21 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
 
   auto StatusNow = Status::Success;
 
-  std::array<double, settings::MODULE_NSUs_MAX> Iolds, Ia, Va;
+  std::array<double, settings::MODULE_NSUs_MAX> Ia, Va;
 
   double Itot{ 0 };
 
   //!< get the old currents so we can revert if needed
+  std::vector<double> Iolds;
+  getCurrents(Iolds);
   for (size_t i{}; i < SUs.size(); i++) {
-    Ia[i] = Iolds[i] = SUs[i]->I();
-    Itot += Iolds[i];
+    Ia[i] = SUs[i]->I();
+    Itot += Ia[i];
   }
 
   const auto restore = [&]() { //!< revert to the old currents.
-    for (size_t i{}; i < SUs.size(); i++)
-      SUs[i]->setCurrent(Iolds[i], false, false);
+    std::span<const double> Ispan{ Iolds };
+    restoreCurrents(Ispan);
   };
 
   const auto dI = (Inew - Itot) / nSU; // #TODO must change if charge/discharge.
diff --git a/src/modules/Module_s.cpp b/src/modules/Module_s.cpp
index bd128d4..82ba51e 100644
--- a/src/modules/Module_s.cpp
+++ b/src/modules/Module_s.cpp
@@ -88,10 +88,10 @@ Status Module_s::setCurrent(double Inew, bool checkV, bool print)
   //!< Set the current, if checkVi this also gets the cell voltages
   Vmodule_valid = false; //!< we are changing the current, so the stored voltage is no longer valid
 
-  std::array<double, settings::MODULE_NSUs_MAX> Iolds;
+  std::vector<double> Iolds; //!< the old currents so we can revert if needed
+  getCurrents(Iolds);
 
   for (int i = 0; i < getNSUs(); i++) {
-    Iolds[i] = SUs[i]->I();
     const auto status = SUs[i]->setCurrent(Inew, checkV, print);
 
     if (isStatusBad(status)) {
@@ -102,8 +102,8 @@ Status Module_s::setCurrent(double Inew, bool checkV, bool print)
                   << getStatusMessage(status) << '\n';
 
 
-      for (int j{ i }; j >= 0; j--)
-        SUs[j]->setCurrent(Iolds[j], false, false); // #TODO this can start from j{i-1} since probably SUs[i] failed to assign any currents.
+      std::span<const double> Ispan{ Iolds };
+      restoreCurrents(Ispan);
 
       return status; // #TODO setCurrent here may be costly.
     }
diff --git a/src/system/Battery.hpp b/src/system/Battery.hpp
index 6e2a3d5..c29e9f1 100644
--- a/src/system/Battery.hpp
+++ b/src/system/Battery.hpp
@@ -61,6 +61,9 @@ public:
     return cells->setCurrent(Inew / nparallel, checkV, print);
   }
 
+  void getCurrents(std::vector<double> &Is) override { cells->getCurrents(Is); }
+  void restoreCurrents(std::span<const double> &Is) override { cells->restoreCurrents(Is); }
+
   Status setStates(setStates_t s, bool checkStates = true, bool print = true) override; //!< opposite of getStates, check the states are valid?
   double getAndResetConvLosses();
   double getConvLosses_total() { return convlosses_tot; }
diff --git a/src/utility/free_functions.hpp b/src/utility/free_functions.hpp
index 8445946..c79cd42 100644
--- a/src/utility/free_functions.hpp
+++ b/src/utility/free_functions.hpp
@@ -16,6 +16,7 @@
 #include <fstream>
 #include <string>
 #include <numeric>
+#include <span>
 #include <vector>
 #include <fstream>
 #include <iostream>
@@ -28,8 +29,9 @@ inline Status setVoltage_iterative(Tsu *su, double Vset)
   // New redistributeCurrent without PI control:
   //!< get cell voltages
   constexpr int maxIteration = 50;
-  const double Iold{ su->I() }; //!< get the old current so we can revert if needed
-  double Ia{ Iold };
+  double Ia{ su->I() };
+  std::vector<double> Iolds; //!< get the old currents so we can revert if needed
+  su->getCurrents(Iolds);
   auto status = Status::RedistributeCurrent_failed; // #TODO change to setVoltage failed.
 
   for (int iter{ 0 }; iter < maxIteration; iter++) {
@@ -51,7 +53,8 @@ inline Status setVoltage_iterative(Tsu *su, double Vset)
     status = Status::RedistributeCurrent_failed;
   }
 
-  su->setCurrent(Iold, false, false);
+  std::span<const double> Ispan{ Iolds };
+  su->restoreCurrents(Ispan);
   return status;
 }
 
-- 
2.43.0


From 197e14e45f6869ff6573ce3da0e44c2071fae5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 19/31] fix: curves with a single row or fewer rows than asked
 for were read out of bounds

---
 src/types/XYdata.hpp             |  2 ++
 src/utility/io/read_CSVfiles.hpp | 13 ++++++-------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/types/XYdata.hpp b/src/types/XYdata.hpp
index 0f535ef..59c9931 100644
--- a/src/types/XYdata.hpp
+++ b/src/types/XYdata.hpp
@@ -25,6 +25,8 @@ namespace slide {
 template <typename Tx>
 bool check_is_fixed(Tx &xdat) //!< Checks if steps are fixed length. #TODO should not be here.
 {
+  if (xdat.size() < 2) return false; //!< a single point has no step.
+
   const double dt = xdat[1] - xdat[0];
   const double tol = 0.01 * dt; //!< Tolerance.
 
diff --git a/src/utility/io/read_CSVfiles.hpp b/src/utility/io/read_CSVfiles.hpp
index d6a17d6..d1cbd93 100644
--- a/src/utility/io/read_CSVfiles.hpp
+++ b/src/utility/io/read_CSVfiles.hpp
@@ -13,6 +13,7 @@
 #include "../../types/matrix.hpp"
 #include "../util_debug.hpp"
 
+#include <algorithm>
 #include <string>
 #include <iostream>
 #include <fstream>
@@ -271,13 +272,11 @@ void loadCSV_2col(const Tpath &name, std::span<double> &x, std::span<double> &y,
     XYdataMap[name_str] = std::move(xyp);
   }
 
-  if (n == 0) {
-    x = std::span<double>(XYdataMap[name_str].x_vec);
-    y = std::span<double>(XYdataMap[name_str].y_vec);
-  } else {
-    x = std::span<double>(&XYdataMap[name_str].x_vec[0], &XYdataMap[name_str].x_vec[0] + n); // #TODO temporary solution using pointers instead of iterators.
-    y = std::span<double>(&XYdataMap[name_str].y_vec[0], &XYdataMap[name_str].y_vec[0] + n);
-  }
+  auto &data = XYdataMap[name_str];
+  const size_t n_read = (n == 0) ? data.x_vec.size() : std::min<size_t>(n, data.x_vec.size()); //!< there may be fewer rows than asked for.
+
+  x = std::span<double>(data.x_vec).first(n_read);
+  y = std::span<double>(data.y_vec).first(n_read);
 }
 
 } // namespace slide
\ No newline at end of file
-- 
2.43.0


From 0d75ad6a70bfab8501c1da3a8012d9267c65550a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 20/31] fix: a time step of 0 s gave not-a-number states with
 the stress-based degradation models (division by the length of the step)

---
 src/cells/Cell_SPM/Cell_SPM_dstate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
index a32a104..85f8235 100644
--- a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
@@ -302,7 +302,8 @@ void Cell_SPM::timeStep_CC(double dt, int nstep)
   }
 
   //!< **************************************************** Calculate the thermal model once for the nstep * dt time period *****************************************************************
-  if (!blockDegAndTherm) {
+  //!< (nothing happens in a time step of 0 s; the stress-based degradation models divide by its length)
+  if (!blockDegAndTherm && sparam.s_dt > 0) {
 
     //!< Calculate the internal heat generation of the cell
     double dQgen;
-- 
2.43.0


From c1cc8766e5dff4ab0cb0660ca303696042364ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 21/31] fix: a cell aged by LAM model 4 was refused by its own
 state check, so its saved states could not be restored

---
 src/cells/Cell_SPM/Cell_SPM.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cells/Cell_SPM/Cell_SPM.cpp b/src/cells/Cell_SPM/Cell_SPM.cpp
index e8a82c9..729878d 100644
--- a/src/cells/Cell_SPM/Cell_SPM.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM.cpp
@@ -441,9 +441,11 @@ bool Cell_SPM::validStates(bool print)
     range = false;
   }
 
+  //!< effective surface, a = 3e/R. Only LAM model 4 decreases the surface without decreasing the volume fraction
+  const bool surface_lost = std::find(deg_id.LAM_id.begin(), deg_id.LAM_id.end(), 4) != deg_id.LAM_id.end();
   const double app = 3 * st.ep() / geo.Rp;
 
-  if (std::abs(st.ap() - app) / st.ap() > tol) {
+  if (!(st.ap() > 0) || (st.ap() - app) / st.ap() > tol || (!surface_lost && (app - st.ap()) / st.ap() > tol)) {
     if (verb)
       std::cerr << "SOME ERROR #TODO!\n";
     range = false;
@@ -451,7 +453,7 @@ bool Cell_SPM::validStates(bool print)
 
   const double ann = 3 * st.en() / geo.Rn;
 
-  if (std::abs(st.an() - ann) / st.an() > tol) {
+  if (!(st.an() > 0) || (st.an() - ann) / st.an() > tol || (!surface_lost && (ann - st.an()) / st.an() > tol)) {
     if (verb)
       std::cerr << "SOME ERROR #TODO!\n";
     range = false;
-- 
2.43.0


From 2c7540030a8cbae5f13eaaded62dc891f34b12cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 22/31] fix: currents are also restored if setting them throws

E.g. if there is no memory left half of the cells kept the new current.
---
 src/modules/Module_p.cpp       | 43 ++++++++++------------------------
 src/modules/Module_s.cpp       |  8 ++-----
 src/utility/free_functions.hpp | 32 +++++++++++++++++++++----
 3 files changed, 42 insertions(+), 41 deletions(-)

diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index 2010e8d..4eb9de6 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -104,7 +104,6 @@ Status Module_p::redistributeCurrent(bool checkV, bool print)
   // New redistributeCurrent without PI control:
   //!< get cell voltages
   std::array<double, settings::MODULE_NSUs_MAX> Va, Ia; //!< #TODO if we should make them vector.
-  std::vector<double> Iolds;                            //!< the old currents so we can revert if needed
 
   //!< voltage and initial current of each cell //!< #TODO it is a constant value SU.
   constexpr int maxIteration = 2500;
@@ -116,7 +115,7 @@ Status Module_p::redistributeCurrent(bool checkV, bool print)
 
   double Captot{ 0 };
   getVall(Va, print);
-  getCurrents(Iolds);
+  free::RestoreCurrents<Module> currents{ *this }; //!< the old currents so we can revert if needed
   for (size_t i = 0; i < nSU; i++) {
     Ia[i] = SUs[i]->I();
     Captot += SUs[i]->Cap();
@@ -135,26 +134,25 @@ Status Module_p::redistributeCurrent(bool checkV, bool print)
       error += std::abs(Vmean - Va[i]);
 
 
-    if (error < 1e-10) // Return success if the error is below the threshold
+    if (error < 1e-10) { // Return success if the error is below the threshold
+      currents.accept();
       return Status::Success;
+    }
 
     // Update the currents based on the difference between mean and individual voltages
     for (size_t i = 0; i < nSU; i++) {
       Ia[i] = Ia[i] - (Vmean - Va[i]) * SUs[i]->Cap();
       StatusNow = SUs[i]->setCurrent(Ia[i]);
 
-      if (isStatusBad(StatusNow)) { // A child refused its current, so the sum would not be preserved.
-        std::span<const double> Ispan{ Iolds };
-        restoreCurrents(Ispan);
-
+      if (isStatusBad(StatusNow)) // A child refused its current, so the sum would not be preserved.
         return StatusNow;
-      }
     }
 
     getVall(Va, print);
   }
 
   StatusNow = Status::RedistributeCurrent_failed;
+  currents.accept();
 
   if constexpr (settings::printNumIterations)
     std::cout << "redistributeCurrent iterations: " << iter << '\n';
@@ -172,8 +170,7 @@ Status Module_p::setVoltage(double Vnew, bool checkI, bool print)
   std::array<double, settings::MODULE_NSUs_MAX> Ia, Va;
 
   //!< get the old currents so we can revert if needed
-  std::vector<double> Iolds;
-  getCurrents(Iolds);
+  free::RestoreCurrents<Module> currents{ *this };
   for (size_t i{}; i < SUs.size(); i++)
     Ia[i] = SUs[i]->I();
 
@@ -202,10 +199,7 @@ Status Module_p::setVoltage(double Vnew, bool checkI, bool print)
     }
   }
 
-  if (isStatusBad(StatusNow)) { // Revert to the old currents.
-    std::span<const double> Ispan{ Iolds };
-    restoreCurrents(Ispan);
-  }
+  if (!isStatusBad(StatusNow)) currents.accept();
 
   if constexpr (settings::printNumIterations)
     std::cout << "setVoltage iterations: " << iter << '\n';
@@ -240,28 +234,20 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
   double Itot{ 0 };
 
   //!< get the old currents so we can revert if needed
-  std::vector<double> Iolds;
-  getCurrents(Iolds);
+  free::RestoreCurrents<Module> currents{ *this };
   for (size_t i{}; i < SUs.size(); i++) {
     Ia[i] = SUs[i]->I();
     Itot += Ia[i];
   }
 
-  const auto restore = [&]() { //!< revert to the old currents.
-    std::span<const double> Ispan{ Iolds };
-    restoreCurrents(Ispan);
-  };
-
   const auto dI = (Inew - Itot) / nSU; // #TODO must change if charge/discharge.
   double Captot{ 0 };
 
   for (size_t i{}; i < SUs.size(); i++) {
     Ia[i] += dI;
     StatusNow = SUs[i]->setCurrent(Ia[i]); // #TODO worse status should be here.
-    if (isStatusBad(StatusNow)) {
-      restore();
-      return StatusNow;
-    }
+    if (isStatusBad(StatusNow)) return StatusNow;
+
     Captot += SUs[i]->Cap();
   }
 
@@ -286,10 +272,7 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
     for (size_t i = 0; i < nSU; i++) {
       Ia[i] = Ia[i] - (Vmean - Va[i]) * SUs[i]->Cap();
       const auto status = SUs[i]->setCurrent(Ia[i]);
-      if (isStatusBad(status)) {
-        restore();
-        return status;
-      }
+      if (isStatusBad(status)) return status;
     }
     getVall(Va, print);
   }
@@ -314,7 +297,7 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
   if constexpr (settings::printNumIterations)
     if (iter != 0) std::cout << "setCurrent iterations: " << iter << '\n';
 
-  if (isStatusBad(StatusNow)) restore();
+  if (!isStatusBad(StatusNow)) currents.accept();
 
   return StatusNow; //!< #TODO problem
 }
diff --git a/src/modules/Module_s.cpp b/src/modules/Module_s.cpp
index 82ba51e..2fb6fa0 100644
--- a/src/modules/Module_s.cpp
+++ b/src/modules/Module_s.cpp
@@ -88,8 +88,7 @@ Status Module_s::setCurrent(double Inew, bool checkV, bool print)
   //!< Set the current, if checkVi this also gets the cell voltages
   Vmodule_valid = false; //!< we are changing the current, so the stored voltage is no longer valid
 
-  std::vector<double> Iolds; //!< the old currents so we can revert if needed
-  getCurrents(Iolds);
+  free::RestoreCurrents<Module> currents{ *this }; //!< the old currents so we can revert if needed
 
   for (int i = 0; i < getNSUs(); i++) {
     const auto status = SUs[i]->setCurrent(Inew, checkV, print);
@@ -101,13 +100,10 @@ Status Module_s::setCurrent(double Inew, bool checkV, bool print)
                   << Inew << ". Restoring the old currents and throwing on error "
                   << getStatusMessage(status) << '\n';
 
-
-      std::span<const double> Ispan{ Iolds };
-      restoreCurrents(Ispan);
-
       return status; // #TODO setCurrent here may be costly.
     }
   }
+  currents.accept();
   //!< Check if the voltage is valid  #TODO
   //!< #TODO Here we need module specific voltage.
   return Status::Success;
diff --git a/src/utility/free_functions.hpp b/src/utility/free_functions.hpp
index c79cd42..60ae47a 100644
--- a/src/utility/free_functions.hpp
+++ b/src/utility/free_functions.hpp
@@ -23,6 +23,29 @@
 
 namespace slide::free {
 
+template <typename Tsu>
+class RestoreCurrents //!< Restores the currents of all cells of a SU unless the new ones are accepted, also if an error is thrown.
+{
+  Tsu &su;
+  std::vector<double> Iolds; //!< the old currents
+  bool accepted{ false };
+
+public:
+  explicit RestoreCurrents(Tsu &su_) : su(su_) { su.getCurrents(Iolds); }
+  RestoreCurrents(const RestoreCurrents &) = delete;
+  RestoreCurrents &operator=(const RestoreCurrents &) = delete;
+
+  void accept() { accepted = true; }
+
+  ~RestoreCurrents()
+  {
+    if (accepted) return;
+
+    std::span<const double> Ispan{ Iolds };
+    su.restoreCurrents(Ispan);
+  }
+};
+
 template <typename Tsu>
 inline Status setVoltage_iterative(Tsu *su, double Vset)
 {
@@ -30,14 +53,15 @@ inline Status setVoltage_iterative(Tsu *su, double Vset)
   //!< get cell voltages
   constexpr int maxIteration = 50;
   double Ia{ su->I() };
-  std::vector<double> Iolds; //!< get the old currents so we can revert if needed
-  su->getCurrents(Iolds);
+  RestoreCurrents currents{ *su }; //!< the old currents so we can revert if needed
   auto status = Status::RedistributeCurrent_failed; // #TODO change to setVoltage failed.
 
   for (int iter{ 0 }; iter < maxIteration; iter++) {
     const auto Va = su->V();
-    if (std::abs(Vset - Va) < 1e-6)
+    if (std::abs(Vset - Va) < 1e-6) {
+      currents.accept();
       return Status::Success;
+    }
 
     const auto Ib = (Vset > Va) ? Ia - 0.01 * su->Cap() : Ia + 0.01 * su->Cap();
     status = su->setCurrent(Ib);
@@ -53,8 +77,6 @@ inline Status setVoltage_iterative(Tsu *su, double Vset)
     status = Status::RedistributeCurrent_failed;
   }
 
-  std::span<const double> Ispan{ Iolds };
-  su->restoreCurrents(Ispan);
   return status;
 }
 
-- 
2.43.0


From b27e0a839cbb8e53fef04ef604d7865e0e502421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:49 +0000
Subject: [PATCH 23/31] fix: restoring the currents never ends the process

---
 src/utility/free_functions.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utility/free_functions.hpp b/src/utility/free_functions.hpp
index 60ae47a..81249ea 100644
--- a/src/utility/free_functions.hpp
+++ b/src/utility/free_functions.hpp
@@ -41,8 +41,13 @@ public:
   {
     if (accepted) return;
 
-    std::span<const double> Ispan{ Iolds };
-    su.restoreCurrents(Ispan);
+    try {
+      std::span<const double> Ispan{ Iolds };
+      su.restoreCurrents(Ispan);
+    } catch (...) { //!< nothing can leave a destructor, the caller is already told that it failed.
+      if constexpr (settings::printBool::printCrit)
+        std::cerr << "ERROR, the old currents could not be restored.\n";
+    }
   }
 };
 
-- 
2.43.0


From 5d6863e66ab177b28f2d170bc48c2e8ea768374a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:35 +0000
Subject: [PATCH 24/31] fix: a failed flush of the cell data ended the ageing
 procedure instead of being skipped

---
 src/procedures/Procedure.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index 4f3a574..a07ec78 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -342,8 +342,8 @@ void Procedure::balanceCheckup(StorageUnit *su, bool balance, bool checkup, doub
     //!< push a write such that if cells still have cycling data, this is written
     if constexpr (settings::DATASTORE_CELL == settings::cellDataStorageLevel::storeTimeData)
       if (Ahtot > 0) {
-        su->writeData(pref); //!< only do if cycling data. Usage statistics are written by the checkup
         try {
+          su->writeData(pref); //!< only do if cycling data. Usage statistics are written by the checkup
         } catch (...) {
           std::cerr << "Error when flushing the data from the cells, skipping for now\n";
           //!< note: this might result in corrupt data collection until the next write since some cells finished
-- 
2.43.0


From de36aeb28bdec60591c3aea45bd0d56264c4e842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:35 +0000
Subject: [PATCH 25/31] fix: the throughput report of useCaseAge had no header
 and was appended to an older report

---
 src/procedures/Procedure.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index a07ec78..60f68e0 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -361,7 +361,7 @@ void Procedure::balanceCheckup(StorageUnit *su, bool balance, bool checkup, doub
 
     checkMod(su);
     //!< write the throughput parameters
-    writeThroughput(su->getFullID(), Ahtot);
+    writeThroughput(su->getFullID(), (nrCycle == 0) ? 0 : Ahtot); //!< start a new file in the first cycle (there can already be some throughput)
     checkUp(su, Ahtot, nrCycle);
   }
 }
-- 
2.43.0


From cee9b12c9639f25bcb98260aab7a30af63a05fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:35 +0000
Subject: [PATCH 26/31] fix: after a torn write of the throughput report the
 first rewritten entry was lost in the torn line

---
 src/procedures/Procedure.cpp | 5 ++++-
 src/procedures/Procedure.hpp | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index 60f68e0..9e7e06d 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -620,8 +620,10 @@ void Procedure::writeThroughput(const std::string &SUID, double Ahtot)
          << "Cells energy throughput" << ','
          << "total energy to operate the thermal management system" << ','
          << "losses in the converter" << '\n';
-  } else
+  } else {
     file.open(PathVar::results / name, std::ios_base::app); //!< append to the existing file
+    if (brokenLine) file << '\n';
+  }
 
   //!< Write the data
   for (const auto &th : throughput)
@@ -632,6 +634,7 @@ void Procedure::writeThroughput(const std::string &SUID, double Ahtot)
   file.close();
 
   //!< erase the vectors, but only if the data has arrived in the file. Else write it next time
+  brokenLine = !file;
   if (file)
     throughput.clear();
   else
diff --git a/src/procedures/Procedure.hpp b/src/procedures/Procedure.hpp
index 6b0231b..bb89b11 100644
--- a/src/procedures/Procedure.hpp
+++ b/src/procedures/Procedure.hpp
@@ -28,6 +28,7 @@ protected:
   double balance_voltage{ 3.65 };
 
   std::vector<ProcedureThroughputData> throughput;
+  bool brokenLine{ false }; //!< writing the throughput has failed, the file may end in the middle of a line
   void storeThroughput(ThroughputData th, StorageUnit *su);
 
 public:
-- 
2.43.0


From c3d8bd3e4284e6616d62cd51a963bbca19b0df42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:35 +0000
Subject: [PATCH 27/31] fix: the check-up wrote the concentrations of SPM cells
 instead of their ageing states, and skipped states of other cells in mixed
 units

---
 src/procedures/Procedure.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index 9e7e06d..b99472d 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -459,7 +459,6 @@ void Procedure::checkUp(StorageUnit *su, double Ah, int nrCycle)
   //  open and clear whatever was there since we want to write the most recent stats only
 
   //!< do the main checkup, which writes the throughput, capacity and state of every cell
-  const size_t start = (typeid(*cells[0]) == typeid(Cell_SPM)) ? 2 * settings::nch : 0; // #TODO : Consider having different type of cells.
   //!< Write the throughput of each cell
 
   //!< If this is the first checkup, start by writing the cell IDs and cell-to-cell parameters
@@ -485,9 +484,11 @@ void Procedure::checkUp(StorageUnit *su, double Ah, int nrCycle)
 
     file << th.time() << ',' << th.Ah() << ',' << th.Wh() << ',' << cap;
 
-    const auto st_view = cell->viewStates();         //!< write the state of a cell, if an SPM cell, skip the concentration states since they don't give info
-    for (size_t i{ start }; i < st_view.size(); i++) //!< loop for each state variable (rows)
-      file << ',' << st_view[i];
+    const auto st_view = cell->viewStates(); //!< write the state of a cell, if an SPM cell, skip the concentration states since they don't give info
+    const bool isSPM = dynamic_cast<Cell_SPM *>(cell) != nullptr;
+    for (size_t i{ 0 }; i < st_view.size(); i++) //!< loop for each state variable (rows)
+      if (!isSPM || i < State_SPM::i_zp || i >= State_SPM::i_rDCp)
+        file << ',' << st_view[i];
 
     file << '\n'
          << '\n';
-- 
2.43.0


From 4a93ec1ed1ff5c5f898174eee5433c983ec96a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 28/31] fix: a capacity test did not restore a unit whose
 states are not accepted by setStates (e.g. a SOC slightly above 1 after a
 full charge), measure a copy

---
 src/procedures/Cycler.cpp | 68 ++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 41 deletions(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 2e29568..dcf491a 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -605,7 +605,7 @@ double Cycler::testCapacity(double &Ah, double &ttot)
 {
   /*
    * Calculate the charge capacity of the connected SU.
-   * note, this function does not affect the Cell, it restores the original states at the end
+   * note, this function does not affect the Cell, it uses a copy
    *
    * in diagnostic mode, we cannot really do a CV since the small voltage errors during CV will cause some cells to exceed their voltage limit
    * therefore, we have to measure it with a slow (dis)charge
@@ -614,55 +614,41 @@ double Cycler::testCapacity(double &Ah, double &ttot)
   constexpr double crate = 1.0 / 25.0;
   ThroughputData th1{}, th2{};
 
-  std::vector<double> sini; //!< #TODO if it is avoidable.
-  sini.clear();
-
-  su->getStates(sini);
-
-  std::span<double> sini_span{ sini };
+  //!< Measure a copy, such that the original is not affected. (Not every state can be set again:
+  //!< after a full charge the SOC of a cell can be slightly above 1, which setStates does not accept.)
+  const std::unique_ptr<StorageUnit> su_copy{ su->copy() };
+  Cycler tester{ *this };
+  tester.su = su_copy.get();
   //!< #TODO once we introduce a different temperature, set T to Tref
 
   //!< *********************************************************** 2 full charge / discharge cycle ***********************************************************************
 
-  auto measure = [&]() -> double {
-    //!< fully charge and discharge the cell
-    const auto cap = su->Cap();
-    //!< fully charge battery to its specified maximum voltage )
-    auto status = CC(-crate * cap, su->Vmax(), TIME_INF, dt, 0, th1);
-    ttot += th1.time();
-
-    if (status != Status::ReachedVoltageLimit) {
-      if constexpr (settings::printBool::printCrit)
-        std::cout << "Error in a subfunction of Cycler::getCapacity "
-                  << getStatusMessage(status) << ".\n";
-      return 0;
-    }
+  //!< fully charge and discharge the cell
+  const auto cap = su->Cap();
+  //!< fully charge battery to its specified maximum voltage )
+  auto status = tester.CC(-crate * cap, su->Vmax(), TIME_INF, dt, 0, th1);
+  ttot += th1.time();
 
-    //!< fully discharge the battery
-    status = CC(crate * cap, su->Vmin(), TIME_INF, dt, 0, th2);
-    ttot += th2.time();
-
-    if (status != Status::ReachedVoltageLimit) {
-      if constexpr (settings::printBool::printCrit)
-        std::cout << "Error in a subfunction of Cycler::getCapacity "
-                  << getStatusMessage(status) << ".\n";
-      return 0;
-    }
+  if (status != Status::ReachedVoltageLimit) {
+    if constexpr (settings::printBool::printCrit)
+      std::cout << "Error in a subfunction of Cycler::getCapacity "
+                << getStatusMessage(status) << ".\n";
+    return 0;
+  }
 
-    Ah = th1.Ah() + th2.Ah();
-    return th2.Ah();
-  };
+  //!< fully discharge the battery
+  status = tester.CC(crate * cap, su->Vmin(), TIME_INF, dt, 0, th2);
+  ttot += th2.time();
 
-  double cap_measured{ 0 };
-  try {
-    cap_measured = measure();
-  } catch (...) {
-    su->setStates(sini_span, false, true); //!< restore the original states
-    throw;
+  if (status != Status::ReachedVoltageLimit) {
+    if constexpr (settings::printBool::printCrit)
+      std::cout << "Error in a subfunction of Cycler::getCapacity "
+                << getStatusMessage(status) << ".\n";
+    return 0;
   }
 
-  su->setStates(sini_span, false, true); //!< restore the original states
-  return cap_measured;
+  Ah = th1.Ah() + th2.Ah();
+  return th2.Ah();
 }
 
 Status Cycler::Profile(std::span<double> I_vec, double vlim, double tlim, double dt, int ndt_data, double &Ah, double &Wh)
-- 
2.43.0


From 8afe8e5c78d85af16aa4626d6d015d18b9e37dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:34 +0000
Subject: [PATCH 29/31] hook: simulator can search fewer points in the OCV fit
 (SLIDE_SIM_OCV_POINTS, off by default)

---
 src/procedures/determine_OCV.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/procedures/determine_OCV.cpp b/src/procedures/determine_OCV.cpp
index 87cf711..494e81d 100644
--- a/src/procedures/determine_OCV.cpp
+++ b/src/procedures/determine_OCV.cpp
@@ -707,13 +707,19 @@ void estimateOCVparameters() // #TODO this function is slow and hand-tuned. Chan
   constexpr double AMmax = 2.5; //!< the maximum amount of active material is 5 times the guessed amount
   constexpr double AMmin = 1;   //!< the minimum amount of active material is 0, actually should not be zero since it is a divisor.
 
+#ifdef SLIDE_SIM_OCV_POINTS //!< the simulator searches fewer points
+  constexpr int n_AM{ SLIDE_SIM_OCV_POINTS }, n_s{ SLIDE_SIM_OCV_POINTS };
+#else
+  constexpr int n_AM{ 100 }, n_s{ 51 };
+#endif
+
   //!< Define the search space for the initial lithium fractions at each electrode
-  auto sp_space = slide::linspace_fix(0.38, 0.4, 51); //!< From 0 to 1 lithium fraction 5% increase of the lithium fraction
-  auto sn_space = slide::linspace_fix(0.55, 0.58, 51);
+  auto sp_space = slide::linspace_fix(0.38, 0.4, n_s); //!< From 0 to 1 lithium fraction 5% increase of the lithium fraction
+  auto sn_space = slide::linspace_fix(0.55, 0.58, n_s);
 
   //!< Define the search space for the amount of active material on each electrode
-  auto AMp_space = slide::linspace_fix(AMmin * AMp_guess, AMmax * AMp_guess, 100); //!< From 0 to 5x of guessed active material with 10% steps.
-  auto AMn_space = slide::linspace_fix(AMmin * AMn_guess, AMmax * AMn_guess, 100);
+  auto AMp_space = slide::linspace_fix(AMmin * AMp_guess, AMmax * AMp_guess, n_AM); //!< From 0 to 5x of guessed active material with 10% steps.
+  auto AMn_space = slide::linspace_fix(AMmin * AMn_guess, AMmax * AMn_guess, n_AM);
 
 
   //!< ***************************************************** 3 Fit the parameters ***********************************************************************
-- 
2.43.0


From dddbd77c3ca9449301d96c3cdd875b0ca077f3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:01 +0000
Subject: [PATCH 30/31] fix: the OCV fit tells when its results could not be
 written

---
 src/procedures/determine_OCV.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/procedures/determine_OCV.cpp b/src/procedures/determine_OCV.cpp
index 494e81d..5a7b0ba 100644
--- a/src/procedures/determine_OCV.cpp
+++ b/src/procedures/determine_OCV.cpp
@@ -740,7 +740,7 @@ void estimateOCVparameters() // #TODO this function is slow and hand-tuned. Chan
          << "AMn" << ',' << par[1] << '\n'
          << "start pos" << ',' << par[2] << '\n'
          << "start neg" << ',' << par[3] << '\n';
-  output.close();
+  free::closeFile(output); //!< an error is thrown if the result could not be written
 
   //!< Simulate the best-fit OCV curve
   const double Vend = OCVcell.y.back(); //!< minimum voltage of the OCV curve
@@ -756,7 +756,7 @@ void estimateOCVparameters() // #TODO this function is slow and hand-tuned. Chan
   for (size_t i = 0; i < OCVsim.x.size(); i++)
     output << OCVsim.x[i] << ',' << OCVsim.y[i] << ',' << OCVnsim.x[i] << ','
            << OCVnsim.y[i] << ',' << OCVpsim.x[i] << ',' << OCVpsim.y[i] << '\n';
-  output.close();
+  free::closeFile(output); //!< an error is thrown if the result could not be written
 
   //!< From the 4 fitted values, we need to determine the following parameters, needed by the single particle model implemented in Cell
   //!< elec_surf 	the geometric surface area of the electrode
@@ -814,7 +814,7 @@ void estimateOCVparameters() // #TODO this function is slow and hand-tuned. Chan
   output << "minimum li-fraction" << ',' << 0.0 << '\n';
   output << "maximum li-fraction" << ',' << 1.0 << '\n';
   output << "number of levels in the search hierarchy" << ',' << hmax << '\n';
-  output.close();
+  free::closeFile(output); //!< an error is thrown if the result could not be written
 }
 
 void writeOCVParam(int h, const std::array<double, 4> &par)
@@ -830,7 +830,7 @@ void writeOCVParam(int h, const std::array<double, 4> &par)
   output << "AMn" << ',' << par[1] << '\n';
   output << "start pos" << ',' << par[2] << '\n';
   output << "start neg" << ',' << par[3] << '\n';
-  output.close();
+  free::closeFile(output); //!< an error is thrown if the result could not be written
 }
 
 } // namespace slide
\ No newline at end of file
-- 
2.43.0


From e1ad884c8a693ee86b845b72a637202815fddb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:15 +0000
Subject: [PATCH 31/31] fix: do not report a voltage limit or a time limit when
 the voltage could not be determined

---
 src/procedures/Cycler.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index dcf491a..85d992f 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -204,7 +204,8 @@ Status Cycler::setCurrent(double I, double vlim)
   if (I < 0 && Vini <= vlim && Vnew > vlim) //!< charging -> exceeded if Vini < vlim  & Vnew > vlim
     return Status::ReachedVoltageLimit;
   else {
-    if (I > 0 && Vini >= vlim && Vnew < vlim) return Status::ReachedVoltageLimit; //!< #TODO why Vini check?
+    if (I > 0 && Vini >= vlim && Vnew < vlim) //!< #TODO why Vini check?
+      return (Vnew > 0) ? Status::ReachedVoltageLimit : Status::V_not_calculated;
   }
 
   return Status::Success; //!< if none of the above, we could set the current without exceeding any voltage limit
@@ -260,7 +261,7 @@ Status Cycler::CC(double I, double vlim, double tlim, double dt, int ndt_data, T
 
   //!< check the voltage limit
   if ((I < 0 && vi > vlim) || (I > 0 && vi < vlim)) //!< charging -> exceeded if Vnew > vlim
-    return Status::ReachedVoltageLimit;
+    return (vi > 0) ? Status::ReachedVoltageLimit : Status::V_not_calculated;
 
   //!< apply current
   while (ttot < tlim) {
@@ -581,9 +582,10 @@ Status Cycler::CCCV_with_tlim(double I, double Vset, double Ilim, double tlim, d
 
   addThroughput(th1);
 
-  if (succ == Status::timeStep_CC_failed) return succ;
-
   const auto t_remaining = tlim - th1.time();
+
+  if (succ == Status::timeStep_CC_failed || (t_remaining <= 0 && succ > Status::VMAXsafety_violation)) return succ;
+
   try {
     succ = CV(Vset, Ilim, t_remaining, dt, ndt_data, th2);
   } catch (...) {
-- 
2.43.0

