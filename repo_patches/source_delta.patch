From afd0e85a3df75479dfe3748559580b2af1443b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:40 +0000
Subject: [PATCH 01/57] fix: OA and FP cutoff decrement vanished (assert
 failure or endless loop) when the best value is 0

---
 src/Algorithms/OaGenerators/BonFpForMinlp.cpp      | 5 ++---
 src/Algorithms/OaGenerators/BonOACutGenerator2.cpp | 3 ++-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
index cab337f..aa2b3ee 100644
--- a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
+++ b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
@@ -158,9 +158,8 @@ namespace Bonmin
            //nlp is solved and feasible
            // Update the cutoff
            ub = std::min(ub, nlp_->getObjValue());
-           cutoff = ub > 0 ?
-                    ub * (1 - parameters_.cbcCutoffIncrement_):
-                    ub * (1 + parameters_.cbcCutoffIncrement_);
+           // (the decrement must not vanish when ub is close to 0).
+           cutoff = ub - parameters_.cbcCutoffIncrement_ * std::max(1., fabs(ub));
            assert(cutoff < ub);
            
            numSols_++;
diff --git a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
index 33d9c80..7489fba 100644
--- a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
+++ b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
@@ -146,7 +146,8 @@ namespace Bonmin
         //nlp solved and feasible
         // Update the cutoff
         ub = std::min(nlp_->getObjValue(), ub);
-        cutoff = ub > 0 ? ub *(1 - parameters_.cbcCutoffIncrement_) : ub*(1 + parameters_.cbcCutoffIncrement_);
+        // (the decrement must not vanish when ub is close to 0).
+        cutoff = ub - parameters_.cbcCutoffIncrement_ * std::max(1., fabs(ub));
         assert(cutoff < ub);
         // Update the lp solver cutoff
         lp->setDblParam(OsiDualObjectiveLimit, cutoff);
-- 
2.43.0


From 3eaca146a8f424db1635a7596c651ded1795b4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:40 +0000
Subject: [PATCH 02/57] fix: ECP cut generation aborted when integrality cuts
 lift the LP objective above f(x)

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 7271c30..a647af5 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -1870,7 +1870,7 @@ OsiTMINLPInterface::getNonLinearitiesViolation(const double *x, const double obj
 {
   double f;
   double norm = getConstraintsViolation(x, f);
-  assert((f - obj) > -1e-08);
+  // obj may exceed f when the linear relaxation contains integrality cuts.
   norm =  (f - obj) > norm ? f - obj : norm;
   return norm;
 }
-- 
2.43.0


From b211d64a7ce58cdb7fb66c88b59db43af8658656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:55 +0000
Subject: [PATCH 03/57] fix: Benders cut discarded the right-hand side of its
 constraint part when the objective is nonlinear

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index a647af5..486b6eb 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2176,7 +2176,7 @@ OsiTMINLPInterface::getBendersCut(OsiCuts &cs,
     double f;
     problem_to_optimize_->eval_f(n, x, 1, f);
 
-    ub = -f;
+    ub -= f;
     //double minCoeff = 1e50;
     for(int i = 0; i<n ; i++) {
       if(cleanNnz(obj[i],colLower[i], colUpper[i], -getInfinity(), 0,
-- 
2.43.0


From ff3a1c7f8fdd13f026b2f960c305e7b67395371f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:55 +0000
Subject: [PATCH 04/57] fix: Benders cut generation aborted on multipliers
 whose sign matches no side of the row

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 486b6eb..8f14d12 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2138,15 +2138,13 @@ OsiTMINLPInterface::getBendersCut(OsiCuts &cs,
     if(constTypes_[rowIdx] == TNLP::NON_LINEAR && fabs(duals[rowIdx]) > 1e-06)
     {
       const double & lam = duals[rowIdx];
+      // Skip multipliers of the wrong sign (NLP not solved to optimality): no valid cut with them.
+      if(lam < 0 ? rowLower[rowIdx] <= -1e10 : rowUpper[rowIdx] >= 1e10) continue;
       keep[rowIdx] = true;
-      assert(lam < 0 || rowUpper[rowIdx] < 1e10);
-      assert(lam > 0 || rowLower[rowIdx] > -1e10);
       if(lam < 0){
-        assert(rowLower[rowIdx] > -1e10);
         ub += lam*(rowLower[rowIdx] -g[rowIdx]);
       }
       else {
-        assert(rowUpper[rowIdx] < 1e10);
         ub += lam*(rowUpper[rowIdx] -g[rowIdx]);
       }
     }
-- 
2.43.0


From a7fe754d113fc8e89a6555835358a6148fff6b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:55 +0000
Subject: [PATCH 05/57] fix: OA decomposition and feasibility pump aborted on
 problems without nonlinear function

---
 src/Algorithms/OaGenerators/BonFpForMinlp.cpp      | 4 ++--
 src/Algorithms/OaGenerators/BonOACutGenerator2.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
index aa2b3ee..8920369 100644
--- a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
+++ b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
@@ -197,8 +197,8 @@ namespace Bonmin
 #endif
       
       int numberCuts = cs.sizeRowCuts() - numberCutsBefore;
-      assert(numberCuts);
-      installCuts(*lp, cs, numberCuts);
+      if(numberCuts > 0) // there is no cut if everything is linear
+        installCuts(*lp, cs, numberCuts);
       numberCutsBefore = cs.sizeRowCuts();
      
       //check time
diff --git a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
index 7489fba..ac8b48d 100644
--- a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
+++ b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
@@ -167,8 +167,8 @@ namespace Bonmin
       }
 
       int numberCuts = cs.sizeRowCuts() - numberCutsBefore;
-      assert(numberCuts);
-      installCuts(*lp, cs, numberCuts);
+      if(numberCuts > 0) // there is no cut if everything is linear
+        installCuts(*lp, cs, numberCuts);
 
       lp->resolve();
 
-- 
2.43.0


From 20cec7e424870d3d5d349f9f16efe124e2228267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:55 +0000
Subject: [PATCH 06/57] fix: B-QG/B-Ecp/B-Hyb cycled forever on an integer
 point whose cuts do not cut it off

---
 src/Algorithms/OaGenerators/BonOaFeasChecker.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
index 1149a5d..cce3ae9 100644
--- a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
+++ b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
@@ -105,6 +105,11 @@ namespace Bonmin
                                         0.1,
                                         nlp_->getColSolution(), lp->getColSolution());
       }
+      if (!feasible && !lp->isAbandoned() && !lp->isIterationLimitReached()) {
+        //no better solution below this node: fathom it (the cuts may not cut
+        //the current point and the node would then be checked over and over)
+        milpBound = 1e200;
+      }
       if (changed) {
        branch_info.solution_ = lp->getColSolution();
        isInteger = integerFeasible(*lp,branch_info, parameters_.cbcIntegerTolerance_,
-- 
2.43.0


From 38c83afca8cd184efd675863e0a68b3c580ebd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:13 +0000
Subject: [PATCH 07/57] fix: outer approximation cuts were dropped for
 one-sided rows whose infinite side is a finite large number The two-sidedness
 test compared the row bounds with COIN_DBL_MAX instead of the NLP solver's
 notion of infinity used just above, so that a row such as -1e300 <= g(x) <= b
 with a zero multiplier lost its only finite side.

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 8f14d12..3f9b1e9 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -1965,7 +1965,7 @@ OsiTMINLPInterface::getOuterApproximation(OsiCuts &cs, const double * x,
         ub[numCuts] = rowUpper[rowIdx] - g[rowIdx];
       else
         ub[numCuts] = infty;
-      if(rowLower[rowIdx] > -infty && rowUpper[rowIdx] < infty)
+      if(rowLower[rowIdx] > -infty_ && rowUpper[rowIdx] < infty_)
       {
         if(duals[rowIdx] >= 0)// <= inequality
           lb[numCuts] = - infty;
@@ -2233,7 +2233,7 @@ OsiTMINLPInterface::getConstraintOuterApproximation(OsiCuts &cs, int rowIdx,
     ub = rowUpper - g;
   else
     ub = infty;
-  if(rowLower > -infty && rowUpper < infty)
+  if(rowLower > -infty_ && rowUpper < infty_)
   {
     if(dual >= 0)// <= inequality
       lb = - infty;
-- 
2.43.0


From 19fdb5ad9914167a073e451aaaad18463659739f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:14 +0000
Subject: [PATCH 08/57] fix: oa_rhs_relax was never applied to the lower side
 of outer approximation rows

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 3f9b1e9..8108956 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2040,7 +2040,7 @@ OsiTMINLPInterface::getOuterApproximation(OsiCuts &cs, const double * x,
     if(global) {
       newCut.setGloballyValidAsInteger(1);
     }
-    if(lb[cutIdx] > infty) lb[cutIdx] -= rhsRelax_*std::max(fabs(lb[cutIdx]), 1.);
+    if(lb[cutIdx] > -infty) lb[cutIdx] -= rhsRelax_*std::max(fabs(lb[cutIdx]), 1.);
     if(ub[cutIdx] < infty) ub[cutIdx] += rhsRelax_*std::max(fabs(ub[cutIdx]), 1.);
     newCut.setLb(lb[cutIdx]);
     newCut.setUb(ub[cutIdx]);
@@ -2502,7 +2502,7 @@ OsiTMINLPInterface::extractLinearRelaxation(OsiSolverInterface &si,
 
   //Relax rhs's by tiny_
   for(size_t i = 0 ; i < rowLow.size() ; i++){
-     if(rowLow[i] > infty) rowLow[i] -= rhsRelax_*std::max(fabs(rowLow[i]), 1.);
+     if(rowLow[i] > -infty) rowLow[i] -= rhsRelax_*std::max(fabs(rowLow[i]), 1.);
      if(rowUp[i] < infty) rowUp[i] += rhsRelax_*std::max(fabs(rowUp[i]), 1.);
   }
 
-- 
2.43.0


From d3458193ec7580ecd667dd96aeccbfb0b379d053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:14 +0000
Subject: [PATCH 09/57] fix: linear relaxation got the row bounds of other rows
 when a two-sided row is not binding

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 8108956..b06db04 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2490,6 +2490,11 @@ OsiTMINLPInterface::extractLinearRelaxation(OsiSolverInterface &si,
   
   //remove non-bindings equality constraints
   mat.deleteRows(numNonBindings, nonBindings());
+  //and their bounds, to keep them in step with the rows of the matrix
+  for(int i = numNonBindings - 1 ; i >= 0 ; i--){
+    rowLow.erase(rowLow.begin() + nonBindings[i]);
+    rowUp.erase(rowUp.begin() + nonBindings[i]);
+  }
 
   int numcols=getNumCols();
   vector<double> obj(numcols);
-- 
2.43.0


From 2f40c09ed5dc24ad4539e4936d5e0a4e71732ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:52 +0000
Subject: [PATCH 10/57] fix: strong branching aborted at a node proved
 infeasible by one candidate and fixed by a later one

---
 src/Algorithms/Branching/BonChooseVariable.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Algorithms/Branching/BonChooseVariable.cpp b/src/Algorithms/Branching/BonChooseVariable.cpp
index 02f0b9d..55d36e5 100644
--- a/src/Algorithms/Branching/BonChooseVariable.cpp
+++ b/src/Algorithms/Branching/BonChooseVariable.cpp
@@ -919,7 +919,8 @@ namespace Bonmin
         //break; // exit loop
       } else if (status0==1||status1==1) {
         numberStrongFixed_++;
-  	returnCode=1;
+        if (returnCode != -1) // an earlier candidate may have proved the node infeasible
+          returnCode=1;
       }
       bool hitMaxTime = ( CoinCpuTime()-timeStart > info->timeRemaining_)
                         || ( CoinCpuTime() - start_time_ > time_limit_);
-- 
2.43.0


From ba210cde8f0243f51745631e8a0d486dff995c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:08 +0000
Subject: [PATCH 11/57] fix: LP strong branching set the upper bound of a
 branched variable to its lower bound

---
 src/Algorithms/Branching/BonLpBranchingSolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithms/Branching/BonLpBranchingSolver.cpp b/src/Algorithms/Branching/BonLpBranchingSolver.cpp
index 4faaa63..7a7bbc7 100644
--- a/src/Algorithms/Branching/BonLpBranchingSolver.cpp
+++ b/src/Algorithms/Branching/BonLpBranchingSolver.cpp
@@ -145,7 +145,7 @@ namespace Bonmin
           diff_up_bnd_index.push_back(i);
           diff_up_bnd_value.push_back(colUp_orig[i]);
         }
-        lin->setColUpper(i,lo);
+        lin->setColUpper(i,up);
       }
     }
 
-- 
2.43.0


From 822de4e9bc19f5fd50cae0848273ef2f3be75600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:45 +0000
Subject: [PATCH 12/57] fix: dfs-dive lost a node at every selection once it
 had switched to closing the bound

---
 src/CbcBonmin/BonDiver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CbcBonmin/BonDiver.cpp b/src/CbcBonmin/BonDiver.cpp
index 2f3054e..8d5965f 100644
--- a/src/CbcBonmin/BonDiver.cpp
+++ b/src/CbcBonmin/BonDiver.cpp
@@ -514,7 +514,7 @@ namespace Bonmin
 #endif
     if (mode_ != CbcDfsDiver::FindSolutions) {
       assert(dive_.empty());
-      CbcTree::top();
+      return CbcTree::top();
     }
     if (diveListSize_) {
       return dive_.front();
@@ -599,7 +599,7 @@ namespace Bonmin
     }
     if (mode_ != CbcDfsDiver::FindSolutions) {
       assert(dive_.empty());
-      CbcTree::bestNode(cutoff);
+      return CbcTree::bestNode(cutoff);
     }
     assert(nBacktracks_ < maxDiveBacktracks_);
     CbcNode * node = NULL;
-- 
2.43.0


From 3d3639ba63f9128f653c2158b3ba5382a3a51eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:45 +0000
Subject: [PATCH 13/57] fix: probed-dive put a null node in the heap when
 stopping a dive on cutoff

---
 src/CbcBonmin/BonDiver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CbcBonmin/BonDiver.cpp b/src/CbcBonmin/BonDiver.cpp
index 8d5965f..8e77494 100644
--- a/src/CbcBonmin/BonDiver.cpp
+++ b/src/CbcBonmin/BonDiver.cpp
@@ -345,7 +345,8 @@ namespace Bonmin
           CbcTree::push(nextOnBranch_);
           nextOnBranch_ = NULL;
           //Also have to cleanup candidateChild_
-          CbcTree::push(candidateChild_);
+          if (candidateChild_ != NULL)
+            CbcTree::push(candidateChild_);
           candidateChild_ = NULL;
           return CbcTree::bestNode(cutoff);
         }
-- 
2.43.0


From 92fb18582ab0ccc995c46660a55b18c6682e004f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:45 +0000
Subject: [PATCH 14/57] fix: dfs-dive aborted when a node exceeded
 max_dive_depth or when max_backtracks_in_dive is 0

---
 src/CbcBonmin/BonDiver.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/CbcBonmin/BonDiver.cpp b/src/CbcBonmin/BonDiver.cpp
index 8e77494..7b52000 100644
--- a/src/CbcBonmin/BonDiver.cpp
+++ b/src/CbcBonmin/BonDiver.cpp
@@ -602,7 +602,7 @@ namespace Bonmin
       assert(dive_.empty());
       return CbcTree::bestNode(cutoff);
     }
-    assert(nBacktracks_ < maxDiveBacktracks_);
+    assert(nBacktracks_ < maxDiveBacktracks_ || maxDiveBacktracks_ == 0);
     CbcNode * node = NULL;
     while (diveListSize_ > 0) {
 #ifdef DIVE_DEBUG
@@ -614,7 +614,6 @@ namespace Bonmin
       dive_.pop_front();
       diveListSize_ --;
       assert(node);
-      assert((node->depth() - divingBoardDepth_) <= maxDiveDepth_);
       if (node->objectiveValue() > cutoff) {//throw away node for now just put it on the heap as deleting a node is
         //more complicated than that (has to delete nodeInfo, cuts...)
 #ifdef DIVE_DEBUG
-- 
2.43.0


From e4ef05d0865973152b77369a2b610fe2598d4c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:45 +0000
Subject: [PATCH 15/57] fix: dfs-dive-dynamic stopped with an exception when
 its tree was sorted before the first dive

---
 src/CbcBonmin/BonDiver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CbcBonmin/BonDiver.cpp b/src/CbcBonmin/BonDiver.cpp
index 7b52000..5a7c554 100644
--- a/src/CbcBonmin/BonDiver.cpp
+++ b/src/CbcBonmin/BonDiver.cpp
@@ -817,7 +817,7 @@ namespace Bonmin
     assert(comparisonDive_);
     assert(comparisonBound_);
     CbcDfsDiver::ComparisonModes mode = diver_->getComparisonMode();
-    if (mode == CbcDfsDiver::FindSolutions) {
+    if (mode == CbcDfsDiver::FindSolutions || mode == CbcDfsDiver::Enlarge) {
       return comparisonDive_->test(x,y);
     }
     else if (mode == CbcDfsDiver::CloseBound) {
-- 
2.43.0


From cc6c4e0add01dc2a37b72f44fbc8cd9600505f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:45 +0000
Subject: [PATCH 16/57] fix: assignment of a dfs-dive tree did not copy its
 maximum dive depth

---
 src/CbcBonmin/BonDiver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CbcBonmin/BonDiver.cpp b/src/CbcBonmin/BonDiver.cpp
index 5a7c554..dac319c 100644
--- a/src/CbcBonmin/BonDiver.cpp
+++ b/src/CbcBonmin/BonDiver.cpp
@@ -488,7 +488,7 @@ namespace Bonmin
       nBacktracks_ = rhs.nBacktracks_;
       maxDepthBFS_ = rhs.maxDepthBFS_;
       maxDiveBacktracks_ = rhs.maxDiveBacktracks_;
-      maxDiveDepth_ = maxDiveDepth_;
+      maxDiveDepth_ = rhs.maxDiveDepth_;
       mode_ = rhs.mode_;
     }
     return *this;
-- 
2.43.0


From 2472c11f90403d3d4dd08516548f1b4f6da8509b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:45 +0000
Subject: [PATCH 17/57] fix: branching direction was undefined (assertion
 failure) when no strong branching is done

---
 src/Algorithms/Branching/BonChooseVariable.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Algorithms/Branching/BonChooseVariable.cpp b/src/Algorithms/Branching/BonChooseVariable.cpp
index 55d36e5..a6015d4 100644
--- a/src/Algorithms/Branching/BonChooseVariable.cpp
+++ b/src/Algorithms/Branching/BonChooseVariable.cpp
@@ -755,6 +755,8 @@ namespace Bonmin
       }
       else {
         bestObjectIndex_=list_[0];
+        if (bestWhichWay_ < 0)
+          bestWhichWay_ = solver->object(bestObjectIndex_)->whichWay();
       }
       if ( bestObjectIndex_ >=0 ) {
         OsiObject * obj = solver->objects()[bestObjectIndex_];
-- 
2.43.0


From 953275f16f4cbb45b4c243d8e2aaa5a4d9d082b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:45 +0000
Subject: [PATCH 18/57] fix: look-ahead strong branching aborted on a candidate
 with an infeasible or unsolved branch

---
 src/Algorithms/Branching/BonChooseVariable.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Algorithms/Branching/BonChooseVariable.cpp b/src/Algorithms/Branching/BonChooseVariable.cpp
index a6015d4..5ad42bc 100644
--- a/src/Algorithms/Branching/BonChooseVariable.cpp
+++ b/src/Algorithms/Branching/BonChooseVariable.cpp
@@ -931,8 +931,7 @@ namespace Bonmin
         break;
       }
       // stop if look ahead heuristic tells us so
-      if (!isRoot && numberLookAhead_) {
-	assert(status0==0 && status1==0);
+      if (!isRoot && numberLookAhead_ && status0==0 && status1==0) {
 	double upEstimate = result->upChange();
 	double downEstimate = result->downChange();
 	double MAXMIN_CRITERION = maxminCrit(info);
-- 
2.43.0


From 966f166ae44f7763f800876ac419f4bd0f383a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:22 +0000
Subject: [PATCH 19/57] fix: cut strengthening exited on problems declaring
 Fortran-style indices

---
 src/Interfaces/BonCutStrengthener.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/Interfaces/BonCutStrengthener.cpp b/src/Interfaces/BonCutStrengthener.cpp
index 9a0ca49..85348e1 100644
--- a/src/Interfaces/BonCutStrengthener.cpp
+++ b/src/Interfaces/BonCutStrengthener.cpp
@@ -265,6 +265,19 @@ namespace Bonmin
 	delete [] jCol;
 	return false;
       }
+      // the cut has C-style indices
+      Index n_nlp, m_nlp, nnz_jac_g, nnz_h_lag;
+      TNLP::IndexStyleEnum index_style;
+      if (!tminlp->get_nlp_info(n_nlp, m_nlp, nnz_jac_g, nnz_h_lag,
+				index_style)) {
+	delete [] jCol;
+	return false;
+      }
+      if (index_style == TNLP::FORTRAN_STYLE) {
+	for (Index i=0; i<nele_grad_gi; i++) {
+	  jCol[i]--;
+	}
+      }
     }
 
     bool lower_bound;
-- 
2.43.0


From fffd82bce10a84339511cea9d1ab4368b8e4d271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:53 +0000
Subject: [PATCH 20/57] fix: size() of the diving trees did not override Cbc's,
 which ignored the nodes of the current dive

---
 src/CbcBonmin/BonDiver.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CbcBonmin/BonDiver.hpp b/src/CbcBonmin/BonDiver.hpp
index 2e06559..a16007a 100644
--- a/src/CbcBonmin/BonDiver.hpp
+++ b/src/CbcBonmin/BonDiver.hpp
@@ -59,7 +59,7 @@ namespace Bonmin
     /** Test if empty. */
     virtual bool empty();
     /** Give size of the tree.*/
-    virtual int size()
+    virtual int size() const
     {
       return (static_cast<int>(nodes_.size()) + (nextOnBranch_ != NULL) );
     }
@@ -141,7 +141,7 @@ namespace Bonmin
     /** Test if empty. */
     virtual bool empty();
     /** Give size of the tree.*/
-    virtual int size()
+    virtual int size() const
     {
       return (static_cast<int>(nodes_.size()) + (nextOnBranch_ != NULL) + (candidateChild_ != NULL) );
     }
@@ -237,7 +237,7 @@ namespace Bonmin
     /** Test if empty. */
     virtual bool empty();
     /** Give size of the tree.*/
-    virtual int size()
+    virtual int size() const
     {
       return static_cast<int>(nodes_.size()) + diveListSize_;
     }
-- 
2.43.0


From c157d86f47ce8ab21b21f3063ded29839add9606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:34 +0000
Subject: [PATCH 21/57] fix: probed-dive returned no node although its tree
 held one, when the last candidate child is above the cutoff

---
 src/CbcBonmin/BonDiver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CbcBonmin/BonDiver.cpp b/src/CbcBonmin/BonDiver.cpp
index dac319c..d5b2266 100644
--- a/src/CbcBonmin/BonDiver.cpp
+++ b/src/CbcBonmin/BonDiver.cpp
@@ -387,6 +387,8 @@ namespace Bonmin
         return ret_val;
       }
       assert(true && "Should not get here.");
+      CbcTree::push(candidateChild_);//For safety
+      candidateChild_ = NULL;
    }
    CbcNode * ret_val = CbcTree::bestNode(cutoff);
 #ifdef DIVE_DEBUG
-- 
2.43.0


From eac22935d4d269642781053db966bc771bcf84be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:48 +0000
Subject: [PATCH 22/57] fix: evaluating a single appended row reports success

---
 src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp b/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
index 62e71ff..6be92bc 100644
--- a/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
+++ b/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
@@ -202,7 +202,7 @@ namespace Bonmin {
     }
     i -= m_orig;
      gi = quadRows_[i]->eval_f(x, new_x);
-     return false;
+     return true;
   }
 
 
@@ -278,7 +278,7 @@ namespace Bonmin {
       assert(jCol == NULL);
       quadRows_[i]->eval_grad(nele_grad_gi, x, new_x, values);
     }
-    return false;
+    return true;
   }
     /** Return the hessian of the
      *  lagrangian. The vectors iRow and jCol only need to be set once
-- 
2.43.0


From a6b65322bde289e4c84b2663955ed5ebaff91e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:48 +0000
Subject: [PATCH 23/57] fix: a row made from a quadratic cut keeps the cut's
 constant

---
 src/Algorithms/QuadCuts/BonQuadRow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithms/QuadCuts/BonQuadRow.cpp b/src/Algorithms/QuadCuts/BonQuadRow.cpp
index c473701..efe95a6 100644
--- a/src/Algorithms/QuadCuts/BonQuadRow.cpp
+++ b/src/Algorithms/QuadCuts/BonQuadRow.cpp
@@ -52,7 +52,7 @@ QuadRow & QuadRow::operator=(const QuadRow &rhs){
 }
 
 QuadRow::QuadRow(const QuadCut &cut):
-  c_(0),
+  c_(cut.c()),
   a_(cut.row()),
   Q_(cut.Q(), cut.type())
   {
-- 
2.43.0


From 225fcc744eba3d867f076690feeeb9696f809f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:48 +0000
Subject: [PATCH 24/57] fix: copies keep the constant of a replaced objective

---
 src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp b/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
index 6be92bc..528a46a 100644
--- a/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
+++ b/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
@@ -55,7 +55,8 @@ namespace Bonmin {
       quadRows_(other.quadRows_),
       H_(),
       curr_nnz_jac_(other.curr_nnz_jac_),
-      obj_(other.obj_)
+      obj_(other.obj_),
+      c_(other.c_)
       {
        // Get the number of nonzoeroes in the matrix
        const size_t nnz_h = TMINLP2TNLP::nnz_h_lag();
-- 
2.43.0


From 92ba6e8baf335d2062c867ef5fafac210fd5702e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:48 +0000
Subject: [PATCH 25/57] fix: get_scaling_parameters calls the parent class
 instead of itself

---
 src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp b/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
index 528a46a..da6c0bb 100644
--- a/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
+++ b/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
@@ -153,7 +153,7 @@ namespace Bonmin {
                                         bool& use_g_scaling, Index m,
                                         Number* g_scaling){
            assert(num_constraints() == m);
-           bool retval = get_scaling_parameters(obj_scaling, use_x_scaling, n, x_scaling, use_g_scaling, m - (int)quadRows_.size(), g_scaling);
+           bool retval = TMINLP2TNLP::get_scaling_parameters(obj_scaling, use_x_scaling, n, x_scaling, use_g_scaling, m - (int)quadRows_.size(), g_scaling);
            if(use_g_scaling){
              g_scaling += m - (int)quadRows_.size();
              CoinFillN(g_scaling, (int)quadRows_.size(), 1.);}
-- 
2.43.0


From 4d78fc3fcfd98f3eec87b30852ba7b298680df3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:29 +0000
Subject: [PATCH 26/57] fix: quadratic cuts given by the full matrix (endless
 loop, entries lost, violation)

---
 src/Algorithms/QuadCuts/BonQuadCut.cpp |  2 +-
 src/Algorithms/QuadCuts/BonTMatrix.cpp | 32 +++++++++++++++-----------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/Algorithms/QuadCuts/BonQuadCut.cpp b/src/Algorithms/QuadCuts/BonQuadCut.cpp
index c723953..c3f0d1f 100644
--- a/src/Algorithms/QuadCuts/BonQuadCut.cpp
+++ b/src/Algorithms/QuadCuts/BonQuadCut.cpp
@@ -59,7 +59,7 @@ namespace Bonmin {
     	int s=start[i];
 	int l=length[i];
       for(int k = s ; k < s+l ; k++){
-        if(i == indice[k]) rhs += solution[i] * solution[indice[k]] * val[k];
+        if(i == indice[k] || type_ == Full) rhs += solution[i] * solution[indice[k]] * val[k];
         else rhs += 2*solution[i] * solution[indice[k]] * val[k];
       }
     }
diff --git a/src/Algorithms/QuadCuts/BonTMatrix.cpp b/src/Algorithms/QuadCuts/BonTMatrix.cpp
index 12ab75b..2f9d47f 100644
--- a/src/Algorithms/QuadCuts/BonTMatrix.cpp
+++ b/src/Algorithms/QuadCuts/BonTMatrix.cpp
@@ -137,23 +137,27 @@ TMat::numNonEmptyCols(){
 /** Remove the duplicated entries.*/
 void 
 TMat::removeDuplicates(){
+  if(nnz_ == 0) return;
   orderByRows();
-  int j = 0;
-  for(int i = 1; i < nnz_ ; i++){
-    if((jCol_[rowOrdering_[i]] == jCol_[rowOrdering_[j]]) && 
-       (iRow_[rowOrdering_[i]] == iRow_[rowOrdering_[j]])){
-       value_[rowOrdering_[j]] += value_[rowOrdering_[i]];
+  std::vector<int> iRow, jCol;
+  std::vector<double> value;
+  for(int i = 0; i < nnz_ ; i++){
+    const int k = rowOrdering_[i];
+    if(!value.empty() && jCol_[k] == jCol.back() && iRow_[k] == iRow.back()){
+      value.back() += value_[k];
     }
     else{
-      jCol_[rowOrdering_[++j]] = jCol_[rowOrdering_[i]];
-      iRow_[rowOrdering_[j]] = iRow_[rowOrdering_[i]];
-      value_[rowOrdering_[j]] = value_[rowOrdering_[i]];
+      iRow.push_back(iRow_[k]);
+      jCol.push_back(jCol_[k]);
+      value.push_back(value_[k]);
     }
   }
-  resizeAndCopyArray(jCol_, j, capacity_);
-  resizeAndCopyArray(iRow_, j, capacity_);
-  resizeAndCopyArray(value_, j, capacity_);
-  nnz_ = j;
+  nnz_ = (int) value.size();
+  std::copy(iRow.begin(), iRow.end(), iRow_);
+  std::copy(jCol.begin(), jCol.end(), jCol_);
+  std::copy(value.begin(), value.end(), value_);
+  rowOrdering_.clear();
+  columnOrdering_.clear();
 }
 
 void
@@ -192,8 +196,8 @@ TMat::make_lower_to_be_upper(){
 void
 TMat::make_full_upper_triangular(){
   // Make it upper triangular
-  for(int i = 0 , j = 0; i < nnz_ && j < nnz_ ;){
-    if(iRow_[i] < jCol_[i]){//swap the two entries
+  for(int i = 0 ; i < nnz_ ; i++){
+    if(iRow_[i] > jCol_[i]){//swap the two entries
       int buf = iRow_[i];
       iRow_[i] = jCol_[i];
       jCol_[i] = buf;
-- 
2.43.0


From 3db9e0a99d6926c4c48c6b6f9a7275f7ef23f01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:29 +0000
Subject: [PATCH 27/57] fix: the cutoff row of the feasibility problem bounds
 the original objective

---
 src/Interfaces/BonTNLP2FPNLP.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Interfaces/BonTNLP2FPNLP.cpp b/src/Interfaces/BonTNLP2FPNLP.cpp
index 913f8e6..0d8fb93 100644
--- a/src/Interfaces/BonTNLP2FPNLP.cpp
+++ b/src/Interfaces/BonTNLP2FPNLP.cpp
@@ -206,7 +206,7 @@ namespace Bonmin
       ret_code = tnlp_->eval_g(n, x, new_x, m-2, g);
       // compute the value of the cutoff constraint
       Number obj_value;
-      if(eval_f(n, x, new_x, obj_value))
+      if(tnlp_->eval_f(n, x, new_x, obj_value))
 	g[m-2] = obj_value;
       else
 	ret_code = false;
@@ -223,7 +223,7 @@ namespace Bonmin
     else if(use_cutoff_constraint_) {
       ret_code = tnlp_->eval_g(n, x, new_x, m-1, g);
       Number obj_value;
-      if(eval_f(n, x, new_x, obj_value))
+      if(tnlp_->eval_f(n, x, new_x, obj_value))
 	g[m-1] = obj_value;
       else
 	ret_code = false;
@@ -279,7 +279,7 @@ namespace Bonmin
       else if (!iRow & !jCol && values) { //computation phase
 	// compute the jacobian contribution of the cutoff constraint
 	Number* grad_f = new Number[n];
-	bool ret_code_grad_f = eval_grad_f(n, x, new_x, grad_f);
+	bool ret_code_grad_f = tnlp_->eval_grad_f(n, x, new_x, grad_f);
 	if(ret_code_grad_f) {
 	  int k = nele_jac - n - n_integers;
 	  values += k;
@@ -320,7 +320,7 @@ namespace Bonmin
       }
       else if (!iRow & !jCol && values) { //computation phase
 	Number* grad_f = new Number[n];
-	bool ret_code_grad_f = eval_grad_f(n, x, new_x, grad_f);
+	bool ret_code_grad_f = tnlp_->eval_grad_f(n, x, new_x, grad_f);
 	if(ret_code_grad_f) {
 	  int k = nele_jac - n;
 	  values += k;
-- 
2.43.0


From 678a2fda810075ee012e7ade2099102b5de6d7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:29 +0000
Subject: [PATCH 28/57] fix: pass the number of rows of the wrapped problem
 when evaluating its jacobian

---
 src/Interfaces/BonTNLP2FPNLP.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Interfaces/BonTNLP2FPNLP.cpp b/src/Interfaces/BonTNLP2FPNLP.cpp
index 0d8fb93..0a607e9 100644
--- a/src/Interfaces/BonTNLP2FPNLP.cpp
+++ b/src/Interfaces/BonTNLP2FPNLP.cpp
@@ -254,7 +254,7 @@ namespace Bonmin
 
     if(use_cutoff_constraint_ && use_local_branching_constraint_) {
       int n_integers = (int)vals_.size();
-      ret_code = tnlp_->eval_jac_g(n, x, new_x, m, nele_jac - n - n_integers, 
+      ret_code = tnlp_->eval_jac_g(n, x, new_x, m - 2, nele_jac - n - n_integers, 
 				   iRow, jCol, values);
 
       if (iRow && jCol && !values) { //Initialization phase 
@@ -305,7 +305,7 @@ namespace Bonmin
       }
     }
     else if(use_cutoff_constraint_) {
-      ret_code = tnlp_->eval_jac_g(n, x, new_x, m, nele_jac - n, 
+      ret_code = tnlp_->eval_jac_g(n, x, new_x, m - 1, nele_jac - n, 
 				   iRow, jCol, values);
       
       if (iRow && jCol && !values) { //Initialization phase 
@@ -338,7 +338,7 @@ namespace Bonmin
     }
     else if(use_local_branching_constraint_) {
       int n_integers = (int)vals_.size();
-      ret_code = tnlp_->eval_jac_g(n, x, new_x, m, nele_jac - n_integers, 
+      ret_code = tnlp_->eval_jac_g(n, x, new_x, m - 1, nele_jac - n_integers, 
 				   iRow, jCol, values);
       
       if (iRow && jCol && !values) { //Initialization phase 
-- 
2.43.0


From 93e8b9a3fedf56c1e052ea62d962c505a45f2229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:29 +0000
Subject: [PATCH 29/57] fix: position of the local-branching entries in the
 jacobian when there is a cutoff row too

---
 src/Interfaces/BonTNLP2FPNLP.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Interfaces/BonTNLP2FPNLP.cpp b/src/Interfaces/BonTNLP2FPNLP.cpp
index 0a607e9..04a0caa 100644
--- a/src/Interfaces/BonTNLP2FPNLP.cpp
+++ b/src/Interfaces/BonTNLP2FPNLP.cpp
@@ -268,7 +268,7 @@ namespace Bonmin
 	  jCol[i] = i + index_correction;
 	}
 	// compute the jacobian contribution of the local branching constraint
-	k = nele_jac - n_integers;
+	k = n;
 	iRow += k;
 	jCol += k;
 	for(int i = 0; i< n_integers; i++) {
@@ -291,7 +291,7 @@ namespace Bonmin
 	  ret_code = false;
 	delete [] grad_f;
 	// compute the jacobian contribution of the local branching constraint
-	int k = nele_jac - n_integers;
+	int k = n;
 	values += k;
 	for(int i = 0; i< n_integers; i++) {
 	  if(vals_[i] <= 0.1)
-- 
2.43.0


From a5d64e375a49a36abb41738b74a499328001b40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:29 +0000
Subject: [PATCH 30/57] fix: hessian of the feasibility problem when it keeps
 the original objective

---
 src/Interfaces/BonTNLP2FPNLP.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/Interfaces/BonTNLP2FPNLP.cpp b/src/Interfaces/BonTNLP2FPNLP.cpp
index 04a0caa..871d235 100644
--- a/src/Interfaces/BonTNLP2FPNLP.cpp
+++ b/src/Interfaces/BonTNLP2FPNLP.cpp
@@ -380,27 +380,30 @@ namespace Bonmin
   {
     bool ret_code;
 
-    int  nnz_obj_h = (norm_ == 2) ? (int)inds_.size() : 0;
+    int  nnz_obj_h = (use_feasibility_pump_objective_ && norm_ == 2) ? (int)inds_.size() : 0;
+    Number obj_factor_orig = obj_factor;
+    if(use_feasibility_pump_objective_)
+      obj_factor_orig *= (1-lambda_)*sigma_;
 
     if(use_cutoff_constraint_ && use_local_branching_constraint_) {
       double coef_obj = (iRow != NULL)?0 : lambda[m - 2];
-      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*(1-lambda_)*sigma_ + coef_obj, 
+      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor_orig + coef_obj, 
 			       m - 2, lambda, new_lambda, nele_hess - nnz_obj_h, 
 			       iRow, jCol, values);
     }
     else if(use_cutoff_constraint_) {
       double coef_obj = (iRow != NULL)?0 : lambda[m - 1];
-      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*(1-lambda_)*sigma_ + coef_obj, 
+      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor_orig + coef_obj, 
 			       m - 1, lambda, new_lambda, nele_hess - nnz_obj_h, 
 			       iRow, jCol, values);
     }
     else if(use_local_branching_constraint_) {
-      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*(1-lambda_)*sigma_, 
+      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor_orig, 
 			       m - 1, lambda, new_lambda, nele_hess - nnz_obj_h, 
 			       iRow, jCol, values);
     }
     else { // this is the original feasibility pump implementation
-      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*(1-lambda_)*sigma_, 
+      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor_orig, 
 			       m, lambda, new_lambda, nele_hess - nnz_obj_h, 
 			       iRow, jCol, values);
     }
-- 
2.43.0


From f3228e86798937d7f2a8fe9aae2a81b1cb72bfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:37 +0000
Subject: [PATCH 31/57] fix: gradient of the objective row of TMINLPLinObj
 (number of entries, structure-only calls)

---
 src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp b/src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp
index 2dd7729..0153bdc 100644
--- a/src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp
+++ b/src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp
@@ -196,11 +196,15 @@ namespace Bonmin{
      assert(i < m_);
      assert(n == n_);
      if(i == 0){
+      nele_grad_gi = n;
       if(jCol != NULL){
-        for(int i = 0 ; i < n ; i++) jCol[i] = i + offset_;
+        for(int k = 0 ; k < n ; k++) jCol[k] = k + offset_;
+      }
+      bool ret_val = true;
+      if(values != NULL){
+        ret_val = tminlp_->eval_grad_f(n-1, x, new_x, values);
+        values[n-1] = -1;
       }
-      bool ret_val= tminlp_->eval_grad_f(n-1, x, new_x, values);
-      values[n-1] = -1;
       return ret_val;}
       else
         return tminlp_->eval_grad_gi(n - 1, x, new_x, i - 1, nele_grad_gi,
-- 
2.43.0


From 90b77e2c097c91504aef10142736276cd0a0349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:16 +0000
Subject: [PATCH 32/57] fix: enable_dynamic_nlp crashed when the root
 relaxation of a problem with a linear objective is infeasible

---
 src/CbcBonmin/BonCbc.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/CbcBonmin/BonCbc.cpp b/src/CbcBonmin/BonCbc.cpp
index 65fcb20..f7082b4 100644
--- a/src/CbcBonmin/BonCbc.cpp
+++ b/src/CbcBonmin/BonCbc.cpp
@@ -464,8 +464,10 @@ namespace Bonmin
                                             // can be solved
         OsiTMINLPInterface * tmpOsi = dynamic_cast<OsiTMINLPInterface *> (model_.solver());
         TMINLPLinObj * tmp_tminlp = dynamic_cast<TMINLPLinObj *> (tmpOsi->model());
-        tmpOsi->setModel(tmp_tminlp->tminlp());
-        model_.initialSolve();
+        if(tmp_tminlp != NULL){//the objective was linear already when there is no alternate model
+          tmpOsi->setModel(tmp_tminlp->tminlp());
+          model_.initialSolve();
+        }
       } 
       else {
         LinearCutsGenerator cgl;
-- 
2.43.0


From b084ee160c32250bcd8fbd1427376b806e866e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:38 +0000
Subject: [PATCH 33/57] fix: a warm start made before cuts were added or
 removed aborted the solve

---
 src/Interfaces/Ipopt/BonIpoptSolver.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/Interfaces/Ipopt/BonIpoptSolver.cpp b/src/Interfaces/Ipopt/BonIpoptSolver.cpp
index 235e6b3..8b89791 100644
--- a/src/Interfaces/Ipopt/BonIpoptSolver.cpp
+++ b/src/Interfaces/Ipopt/BonIpoptSolver.cpp
@@ -379,19 +379,21 @@ IpoptSolver::getUsedWarmStart(Ipopt::SmartPtr<TMINLP2TNLP> tnlp) const
       disableWarmStart();
       return 1;
     }
+    int numcols = tnlp->num_variables();
+    int numrows = tnlp->num_constraints();
+    if(numcols != ws->primalSize() ||
+       (ws->dualSize() > 0 && 2*numcols + numrows != ws->dualSize()))
+    {// made for the problem with other rows (cuts were added or removed since)
+      disableWarmStart();
+      return 0;
+    }
     if(ws->dualSize() > 0){
       tnlp->setDualsInit(ws->dualSize(), ws->dual());
       enableWarmStart();
     }
     else
       disableWarmStart();
-#ifndef NDEBUG
-    int numcols = tnlp->num_variables();
-    int numrows = tnlp->num_constraints();
-#endif
 
-    assert(numcols == ws->primalSize());
-    assert(2*numcols + numrows == ws->dualSize());
     tnlp->setxInit(ws->primalSize(), ws->primal());
 
     if (IsValid(ws->warm_starter()))
-- 
2.43.0


From 206dffaa3abd6b905d01483b9c4ee88b37d68505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:19 +0000
Subject: [PATCH 34/57] fix: copies of the solver interface keep the status of
 the last solve

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index b06db04..d36be05 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -588,6 +588,7 @@ OsiTMINLPInterface::OsiTMINLPInterface (const OsiTMINLPInterface &source):
     newCutoffDecr(source.newCutoffDecr),
     strong_branching_solver_(source.strong_branching_solver_)
 {
+  optimizationStatus_ = source.optimizationStatus_;
   if(IsValid(source.tminlp_)) {
     problem_ = source.problem_->clone();
     feasibilityProblem_ = new TNLP2FPNLP
-- 
2.43.0


From a8397a423a3309c5df9102ca9a514ecebc4b5443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:03 +0000
Subject: [PATCH 35/57] fix: assigning a solver interface keeps the bounds,
 rows, status and feasibility mode of the source

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 51 ++++++++----------------
 1 file changed, 17 insertions(+), 34 deletions(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index d36be05..1f31b36 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -653,47 +653,30 @@ OsiTMINLPInterface & OsiTMINLPInterface::operator=(const OsiTMINLPInterface& rhs
     if(IsValid(rhs.tminlp_)) {
 
       tminlp_ = rhs.tminlp_;
-      problem_ = new TMINLP2TNLP(tminlp_);
-      problem_to_optimize_ = GetRawPtr(problem_);
+      problem_ = rhs.problem_->clone();
       app_ = rhs.app_->clone();
 
       warmstart_ = rhs.warmstart_ ? rhs.warmstart_->clone() : NULL;
 
       feasibilityProblem_ = new TNLP2FPNLP
-          (SmartPtr<TNLP>(GetRawPtr(problem_)));
+          (SmartPtr<TNLP>(GetRawPtr(problem_)), rhs.feasibilityProblem_);
+      feasibility_mode_ = rhs.feasibility_mode_;
+      if(feasibility_mode_)
+        problem_to_optimize_ = GetRawPtr(feasibilityProblem_);
+      else
+        problem_to_optimize_ = GetRawPtr(problem_);
+      optimizationStatus_ = rhs.optimizationStatus_;
       nnz_jac = rhs.nnz_jac;
 
-      if(constTypes_ != NULL) {
-        delete [] constTypes_;
-        constTypes_ = NULL;
-      }
-      if(rhs.constTypes_ != NULL) {
-        constTypes_ = new TNLP::LinearityType[getNumRows()];
-        CoinCopyN(rhs.constTypes_, getNumRows(), constTypes_);
-      }
-/*
-      if(constTypesNum_ != NULL) {
-        delete [] constTypesNum_;
-        constTypesNum_ = NULL;
-      }
-      if(rhs.constTypesNum_ != NULL) {
-        constTypesNum_ = new int[getNumRows()];
-        CoinCopyN(rhs.constTypesNum_, getNumRows(), constTypesNum_);
-      }
-*/
-      if(rhs.jValues_!=NULL && rhs.jRow_ != NULL && rhs.jCol_ != NULL && nnz_jac>0) {
-        jValues_ = new double [nnz_jac];
-        jCol_    = new Index [nnz_jac];
-        jRow_    = new Index [nnz_jac];
-        CoinCopyN(rhs.jValues_ , nnz_jac,jValues_ );
-        CoinCopyN(rhs.jCol_    , nnz_jac,jCol_    );
-        CoinCopyN(rhs.jRow_    , nnz_jac,jRow_    );
-      }
-      else if(nnz_jac > 0) {
-        throw CoinError("Arrays for storing jacobian are inconsistent.",
-            "copy constructor",
-            "IpoptOAInterface");
-      }
+      //These are set up again when they are needed
+      delete [] constTypes_;
+      constTypes_ = NULL;
+      delete [] jValues_;
+      jValues_ = NULL;
+      delete [] jCol_;
+      jCol_ = NULL;
+      delete [] jRow_;
+      jRow_ = NULL;
       tiny_ = rhs.tiny_;
       veryTiny_ = rhs.veryTiny_;
       rhsRelax_ = rhs.rhsRelax_;
-- 
2.43.0


From 00629ffa7ee631ee14ca5e97e415cb493a60682c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:03 +0000
Subject: [PATCH 36/57] fix: resetting the starting point left a dangling
 pointer to the dual part

---
 src/Interfaces/BonTMINLP2TNLP.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Interfaces/BonTMINLP2TNLP.cpp b/src/Interfaces/BonTMINLP2TNLP.cpp
index e5ee820..7bb9e2a 100644
--- a/src/Interfaces/BonTMINLP2TNLP.cpp
+++ b/src/Interfaces/BonTMINLP2TNLP.cpp
@@ -281,6 +281,7 @@ namespace Bonmin
   {
     curr_warm_starter_ = NULL;
     x_init_.clear();
+    duals_init_ = NULL;
   }
 
   void TMINLP2TNLP::setxInit(Index n,const Number* x_init)
-- 
2.43.0


From 9dd2f5a8d3da88353c82a5928ab93cde2151f5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:03 +0000
Subject: [PATCH 37/57] fix: copying a problem whose rows changed since its
 last solve read past the activities

---
 src/Interfaces/BonTMINLP2TNLP.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Interfaces/BonTMINLP2TNLP.cpp b/src/Interfaces/BonTMINLP2TNLP.cpp
index 7bb9e2a..479dfe2 100644
--- a/src/Interfaces/BonTMINLP2TNLP.cpp
+++ b/src/Interfaces/BonTMINLP2TNLP.cpp
@@ -213,8 +213,8 @@ namespace Bonmin
       IpBlasDcopy(m, other.g_l_(), 1, g_l_(), 1);
       IpBlasDcopy(m, other.g_u_(), 1, g_u_(), 1);
       if(!other.g_sol_.empty()) {
-        g_sol_.resize(m);
-        IpBlasDcopy(m, other.g_sol_(), 1, g_sol_(), 1);
+        g_sol_ = other.g_sol_;
+        g_sol_.resize(m, 0.);//rows may have been added or removed since the solve
       }
     }
 
-- 
2.43.0


From 6a65b1a2d4076a6edd5c33aac5af888c3100d372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:03 +0000
Subject: [PATCH 38/57] fix: removing rows left the warm start of the problem
 with its old size

---
 src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp b/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
index da6c0bb..fc0327e 100644
--- a/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
+++ b/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
@@ -481,6 +481,9 @@ namespace Bonmin {
     quadRows_.erase(quadRows_.begin() + i, quadRows_.end());
     g_l_.erase(g_l_.begin() + m_tminlp + i, g_l_.end());
     g_u_.erase(g_u_.begin() + m_tminlp + i, g_u_.end());
+    duals_sol_.resize(g_l_.size() + 2*x_l_.size(), 0.);
+    x_init_.resize(g_l_.size() + 3*x_l_.size(), 0.);
+    duals_init_ = x_init_() + x_l_.size();
  }
 
 void
-- 
2.43.0


From 749cefe7987d290ee6e72ee78b71c3fe7f081adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:32 +0000
Subject: [PATCH 39/57] fix: outer approximation after rows were added or
 removed used the jacobian structure of the old rows

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 6 ++++++
 src/Interfaces/BonOsiTMINLPInterface.hpp | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 1f31b36..55dd358 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -793,6 +793,11 @@ OsiTMINLPInterface::freeCachedRowRim()
     delete []  rowrange_;
     rowrange_ = NULL;
   }
+  // the rows of the jacobian and their types
+  delete [] jRow_;
+  jRow_ = NULL;
+  delete [] constTypes_;
+  constTypes_ = NULL;
   //   if(dualsol_!=NULL)
   //     {
   //       delete []  dualsol_; dualsol_ = NULL;
@@ -1807,6 +1812,7 @@ int OsiTMINLPInterface::initializeJacobianArrays()
 //  if(constTypesNum_ != NULL) delete [] constTypesNum_;
 
   constTypes_ = new TNLP::LinearityType[getNumRows()];
+  nNonLinear_ = 0;
   problem_to_optimize_->get_constraints_linearity(getNumRows(), constTypes_);
 //  constTypesNum_ = new int[getNumRows()];
   for(int i = 0; i < getNumRows() ; i++) {
diff --git a/src/Interfaces/BonOsiTMINLPInterface.hpp b/src/Interfaces/BonOsiTMINLPInterface.hpp
index eb81628..3aadb5b 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.hpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.hpp
@@ -1124,6 +1124,7 @@ protected:
   */
   virtual void applyRowCut( const OsiRowCut & rc )
   {
+    freeCachedRowRim();
     const OsiRowCut * cut = &rc;
     problem_->addCuts(1, &cut);
   }
-- 
2.43.0


From a776f2f826facf5068278781c56d7a10fc101c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:32 +0000
Subject: [PATCH 40/57] fix: tiny coefficients moved into the right-hand side
 of the linear relaxation stayed in the matrix too

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 55dd358..520b49f 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2466,6 +2466,8 @@ OsiTMINLPInterface::extractLinearRelaxation(OsiSolverInterface &si,
           if(rowUp[jRow_[i]] < infty)
           rowUp[jRow_[i]] += jValues_[i] *x[jCol_[i]];
        }
+       else
+          jValues_[i] = 0.;//accounted for in the bounds of the row
     }
     else {
       //double value = jValues_[i] * x[jCol_[i]];
-- 
2.43.0


From 4c57f4bd6c146ac72497953c8277a17795e6af97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:32 +0000
Subject: [PATCH 41/57] fix: tiny coefficients of rows bounded from below were
 dropped from Benders cuts without relaxing the cut

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 520b49f..005dcdc 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2149,7 +2149,7 @@ OsiTMINLPInterface::getBendersCut(OsiCuts &cs,
     const double & lam = duals[rowIdx];
     double coeff = lam*jValues_[i];
     if(cleanNnz(coeff,colLower[colIdx], colUpper[colIdx],
-      	  rowLower[rowIdx], rowUpper[rowIdx], x[colIdx], lb,
+      	  -getInfinity(), 0, x[colIdx], lb,
       	  ub, tiny_, veryTiny_, infty_)) {
       cut[colIdx] += coeff;
       ub += coeff * x[colIdx];
-- 
2.43.0


From c32fc8364b4fc4550d18f7340810479b6c05a89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:43 +0000
Subject: [PATCH 42/57] fix: cut of a single constraint: structure and values
 of the gradient are asked for separately, in C or Fortran style

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 005dcdc..98c5e60 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2200,7 +2200,14 @@ OsiTMINLPInterface::getConstraintOuterApproximation(OsiCuts &cs, int rowIdx,
   int * indices = new int[getNumCols()];
   double * values = new double[getNumCols()];
   int nnz;
-  problem_->eval_grad_gi(getNumCols(), x, 1, rowIdx, nnz, indices, values);
+  problem_->eval_grad_gi(getNumCols(), x, 1, rowIdx, nnz, indices, NULL);
+  problem_->eval_grad_gi(getNumCols(), x, 0, rowIdx, nnz, NULL, values);
+  int n, m, nnz_jac_g, nnz_h_lag;
+  TNLP::IndexStyleEnum index_style;
+  problem_->get_nlp_info(n, m, nnz_jac_g, nnz_h_lag, index_style);
+  if(index_style == Ipopt::TNLP::FORTRAN_STYLE) {//put C-style
+    for(int i = 0 ; i < nnz ; i++) indices[i]--;
+  }
   problem_->eval_gi(getNumCols(),x,1, rowIdx, g);
 
   CoinPackedVector cut;
-- 
2.43.0


From 463740d92d09ac8a5e9ed132247b9df7d94bb3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:10 +0000
Subject: [PATCH 43/57] fix: cut strengthening aborted on a nonlinear row
 without bounds

---
 src/Interfaces/BonCutStrengthener.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Interfaces/BonCutStrengthener.cpp b/src/Interfaces/BonCutStrengthener.cpp
index 85348e1..b4c2988 100644
--- a/src/Interfaces/BonCutStrengthener.cpp
+++ b/src/Interfaces/BonCutStrengthener.cpp
@@ -144,6 +144,8 @@ namespace Bonmin
 				    double infty)
   {
     //printf("before: lb = %e ub = %e rl = %e ru = %e g = %e\n", lb[i], ub[i], rowLower[bindi], rowUpper[bindi], g[bindi]);
+    // A cut of a row without bounds can not be strengthened
+    if (cut_lb <= -infty && cut_ub >= infty) return true;
     // First check if the cut is indeed away from the constraint
     bool is_tight = false;
     if (gindex==-1) {
-- 
2.43.0


From 0a2e1c2fd65039541ded7e233cc25490f334de1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:27 +0000
Subject: [PATCH 44/57] fix: B-OA declared feasible problems infeasible when a
 linear equality fixes the integers (relaxed to a sliver in the MILP)

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 98c5e60..b3f9d56 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2506,6 +2506,7 @@ OsiTMINLPInterface::extractLinearRelaxation(OsiSolverInterface &si,
 
   //Relax rhs's by tiny_
   for(size_t i = 0 ; i < rowLow.size() ; i++){
+     if(rowLow[i] == rowUp[i]) continue;//linear equality: a sliver in its place is taken for infeasible by the preprocessing of MILPs
      if(rowLow[i] > -infty) rowLow[i] -= rhsRelax_*std::max(fabs(rowLow[i]), 1.);
      if(rowUp[i] < infty) rowUp[i] += rhsRelax_*std::max(fabs(rowUp[i]), 1.);
   }
-- 
2.43.0


From 2d7b3a29a47945694077cafaf89681873e666754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:12 +0000
Subject: [PATCH 45/57] fix: after one failed solve, later failures of the same
 interface were not reported as abandoned

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index b3f9d56..c3d56d5 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2612,6 +2612,7 @@ OsiTMINLPInterface::solveAndCheckErrors(bool warmStarted, bool throwOnFailure,
     const char * whereFrom)
 {
   if (BonminAbortAll == true) return;
+  pretendSucceededNext_ = false;
   totalNlpSolveTime_-=CoinCpuTime();
   if(warmStarted)
     optimizationStatus_ = app_->ReOptimizeTNLP(GetRawPtr(problem_to_optimize_));
@@ -2911,7 +2912,6 @@ bool OsiTMINLPInterface::isAbandoned() const
 {
   if (pretendSucceededNext_)
     return false;
-  pretendSucceededNext_ = false;
   return ( 
         (optimizationStatus_==TNLPSolver::iterationLimit)||
         (optimizationStatus_==TNLPSolver::computationError)||
-- 
2.43.0


From b2a9c1e7270ddabd8ffde79c71e516f0d5d9ad24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:12 +0000
Subject: [PATCH 46/57] fix: an NLP on which the solver does not converge was
 taken for infeasible

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index c3d56d5..51bb5e7 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2914,6 +2914,7 @@ bool OsiTMINLPInterface::isAbandoned() const
     return false;
   return ( 
         (optimizationStatus_==TNLPSolver::iterationLimit)||
+        (optimizationStatus_==TNLPSolver::doesNotConverge)||
         (optimizationStatus_==TNLPSolver::computationError)||
         (optimizationStatus_==TNLPSolver::illDefinedProblem)||
         (optimizationStatus_==TNLPSolver::illegalOption)||
-- 
2.43.0


From 21391d7baf6e549c5bbc7299b55cd31bb1e15ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:12 +0000
Subject: [PATCH 47/57] fix: B-BB fathomed relaxations it could not solve,
 without warning, also when asked to stop on failures

---
 src/CbcBonmin/BonCbc.cpp                 |  2 ++
 src/CbcBonmin/BonCbcNlpStrategy.cpp      | 14 ++++++++++++++
 src/Interfaces/BonOsiTMINLPInterface.hpp |  5 +++++
 3 files changed, 21 insertions(+)

diff --git a/src/CbcBonmin/BonCbc.cpp b/src/CbcBonmin/BonCbc.cpp
index f7082b4..4c5fb09 100644
--- a/src/CbcBonmin/BonCbc.cpp
+++ b/src/CbcBonmin/BonCbc.cpp
@@ -452,6 +452,8 @@ namespace Bonmin
       model_.initialSolve();
       if(tmpOsi != NULL){
         tmpOsi->setSolverOutputToDefault(); 
+        // Cbc does not ask the strategy about this first solve
+        if (model_.strategy()) model_.strategy()->status(&model_, NULL, 0);
       }
     }
 
diff --git a/src/CbcBonmin/BonCbcNlpStrategy.cpp b/src/CbcBonmin/BonCbcNlpStrategy.cpp
index 729bf57..2f6b18f 100644
--- a/src/CbcBonmin/BonCbcNlpStrategy.cpp
+++ b/src/CbcBonmin/BonCbcNlpStrategy.cpp
@@ -84,6 +84,20 @@ namespace Bonmin
     int feasible = 1;
     bool solved = true;
     int returnStatus = -1;
+
+    OsiTMINLPInterface * nlp = dynamic_cast<OsiTMINLPInterface *>(solver);
+    if (nlp && nlp->lastSolveFailed()) {
+      // The relaxation could not be solved in spite of all retries
+      hasFailed_ = true;
+      if (!pretendFailIsInfeasible_) {
+        std::string probName;
+        nlp->getStrParam(OsiProbName,probName);
+        throw nlp->newUnsolvedError(0, nlp->problem(), probName);
+      }
+      nlp->forceInfeasible();
+      return 2;
+    }
+
     BonCbcPartialNodeInfo * bmNodeInfo = dynamic_cast<BonCbcPartialNodeInfo *>(parent);
     if (!bmNodeInfo) return -1;
 
diff --git a/src/Interfaces/BonOsiTMINLPInterface.hpp b/src/Interfaces/BonOsiTMINLPInterface.hpp
index 3aadb5b..4d5ef3e 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.hpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.hpp
@@ -273,6 +273,11 @@ class Messages : public CoinMessages
   {
     return hasContinuedAfterNlpFailure_;
   }
+  /// Did the last solve fail, all retries included (whether or not isAbandoned() says so)
+  bool lastSolveFailed() const
+  {
+    return pretendSucceededNext_ || isAbandoned();
+  }
   /// tell to ignore the failures (don't throw, don't fathom, don't report)
   void ignoreFailures()
   {
-- 
2.43.0


From 7c890a29d84721117cd96fc0d0c19b5d88cac45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:57 +0000
Subject: [PATCH 48/57] fix: after a user interrupt the LP-based algorithms and
 dives looped forever, stale solves were taken for solutions, and a run
 interrupted at the root claimed optimality or a wrong bound

---
 src/Algorithms/OaGenerators/BonFpForMinlp.cpp |  4 ++++
 .../OaGenerators/BonOACutGenerator2.cpp       |  3 +++
 .../OaGenerators/BonOaFeasChecker.cpp         |  6 ++++++
 src/CbcBonmin/BonCbc.cpp                      | 19 ++++++++++++-------
 src/Interfaces/BonOsiTMINLPInterface.cpp      | 18 +++++++++++++++---
 src/Interfaces/BonTMINLP2TNLP.hpp             |  5 +++++
 6 files changed, 45 insertions(+), 10 deletions(-)

diff --git a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
index 8920369..145422a 100644
--- a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
+++ b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
@@ -22,6 +22,8 @@
 
 #include <climits>
 
+extern bool BonminAbortAll;
+
 namespace Bonmin
 {
    static const char * txt_id = "FP for MINLP";
@@ -141,6 +143,8 @@ namespace Bonmin
 
       double dist = nlp_->solveFeasibilityProblem(indices.size(), x_bar(), indices(), 1, 0, 2);
 
+      if (BonminAbortAll) break;//interrupted by user
+
       handler_->message(FP_DISTANCE, messages_) 
       <<dist<<CoinMessageEol;
 
diff --git a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
index ac8b48d..9e7defa 100644
--- a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
+++ b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
@@ -22,6 +22,8 @@
 
 #include <climits>
 
+extern bool BonminAbortAll;
+
 namespace Bonmin
 {
    static const char * txt_id = "OA decomposition";
@@ -142,6 +144,7 @@ namespace Bonmin
       fixIntegers(*nlp_,branch_info, parameters_.cbcIntegerTolerance_,objects_, nObjects_);
 
       nlp_->resolve(txt_id);
+      if (BonminAbortAll) break;//interrupted by user
       if (post_nlp_solve(babInfo, cutoff)) {
         //nlp solved and feasible
         // Update the cutoff
diff --git a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
index cce3ae9..26182b9 100644
--- a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
+++ b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
@@ -13,6 +13,8 @@
 #include "OsiAuxInfo.hpp"
 #include "BonSolverHelp.hpp"
 
+extern bool BonminAbortAll;
+
 namespace Bonmin
 {
    static const char * txt_id = "check integer sol.";
@@ -62,6 +64,10 @@ namespace Bonmin
 
       //Now solve the NLP get the cuts, and intall them in the local LP
       nlp_->resolve(txt_id);
+      if (BonminAbortAll) {//interrupted by user: leave the node
+        milpBound = 1e200;
+        break;
+      }
       if (post_nlp_solve(babInfo, cutoff)) {
         //nlp solved and feasible
         // Update the cutoff
diff --git a/src/CbcBonmin/BonCbc.cpp b/src/CbcBonmin/BonCbc.cpp
index 4c5fb09..75d8bbf 100644
--- a/src/CbcBonmin/BonCbc.cpp
+++ b/src/CbcBonmin/BonCbc.cpp
@@ -439,6 +439,7 @@ namespace Bonmin
 #endif
 
     currentBranchModel = &model_;
+    continuousRelaxation_ = -DBL_MAX;
 
 
     try {
@@ -492,7 +493,8 @@ namespace Bonmin
 
     }
 
-    continuousRelaxation_ =model_.solver()->getObjValue();
+    if(!BonminAbortAll)
+      continuousRelaxation_ =model_.solver()->getObjValue();
     if (specOpt==16)//Set warm start point for Ipopt
     {
 #if 1
@@ -596,7 +598,10 @@ namespace Bonmin
     }
     TMINLP::SolverReturn status = TMINLP::MINLP_ERROR;
 
-    if(BonminAbortAll) status = TMINLP::USER_INTERRUPT;
+    if(BonminAbortAll) {//what was not finished is not known
+      status = TMINLP::USER_INTERRUPT;
+      bestBound_ = continuousRelaxation_;
+    }
     if (model_.numberObjects()==0) {
       if (bestSolution_)
         delete [] bestSolution_;
@@ -605,13 +610,13 @@ namespace Bonmin
              model_.solver() : s.nonlinearSolver();
       if(! solver->isProvenOptimal()){
          bestSolution_ = NULL;
-         if ( solver->isProvenPrimalInfeasible () ) {
+         if ( !BonminAbortAll && solver->isProvenPrimalInfeasible () ) {
            status = TMINLP::INFEASIBLE;
            mipStatus_ = ProvenInfeasible;
            bestObj_ = DBL_MAX;
            bestBound_ = DBL_MAX;
          }
-         else if ( solver->isProvenDualInfeasible () ) {
+         else if ( !BonminAbortAll && solver->isProvenDualInfeasible () ) {
            status = TMINLP::CONTINUOUS_UNBOUNDED;
            mipStatus_ = UnboundedOrInfeasible;
            bestObj_ = - DBL_MAX;
@@ -659,7 +664,7 @@ namespace Bonmin
            mipStatus_ = NoSolutionKnown;
          }
        }
-       else if (model_.status() == 0) {
+       else if (model_.status() == 0 && !BonminAbortAll) {
          if(model_.isContinuousUnbounded()){
            status = TMINLP::CONTINUOUS_UNBOUNDED;
            mipStatus_ = UnboundedOrInfeasible;
@@ -674,8 +679,8 @@ namespace Bonmin
            mipStatus_ = ProvenInfeasible;
          }
        }
-       else if (model_.status() == 1 || model_.status() == 5) {
-         status = model_.status() == 1 ? TMINLP::LIMIT_EXCEEDED : TMINLP::USER_INTERRUPT;
+       else if (BonminAbortAll || model_.status() == 1 || model_.status() == 5) {
+         status = !BonminAbortAll && model_.status() == 1 ? TMINLP::LIMIT_EXCEEDED : TMINLP::USER_INTERRUPT;
          if (bestSolution_) {
            mipStatus_ = Feasible;
          }
diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 51bb5e7..846336e 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2611,7 +2611,11 @@ void
 OsiTMINLPInterface::solveAndCheckErrors(bool warmStarted, bool throwOnFailure,
     const char * whereFrom)
 {
-  if (BonminAbortAll == true) return;
+  if (BonminAbortAll == true) {//not solved: the last status is not the one of this problem
+    optimizationStatus_ = TNLPSolver::provenInfeasible;
+    problem_->setInterrupted();
+    return;
+  }
   pretendSucceededNext_ = false;
   totalNlpSolveTime_-=CoinCpuTime();
   if(warmStarted)
@@ -2785,7 +2789,11 @@ void OsiTMINLPInterface::initialSolve(const char * whereFrom)
   assert(IsValid(app_));
   assert(IsValid(problem_));
 
-  if (BonminAbortAll == true) return;
+  if (BonminAbortAll == true) {//not solved: the last status is not the one of this problem
+    optimizationStatus_ = TNLPSolver::provenInfeasible;
+    problem_->setInterrupted();
+    return;
+  }
   // Discard warmstart_ if we had one
   delete warmstart_;
   warmstart_ = NULL;
@@ -2851,7 +2859,11 @@ OsiTMINLPInterface::resolve(const char * whereFrom)
 {
   assert(IsValid(app_));
   assert(IsValid(problem_));
-  if (BonminAbortAll == true) return;
+  if (BonminAbortAll == true) {//not solved: the last status is not the one of this problem
+    optimizationStatus_ = TNLPSolver::provenInfeasible;
+    problem_->setInterrupted();
+    return;
+  }
   int has_warmstart = warmstart_ == NULL ? 0 : 1;
   if(warmstart_ == NULL) has_warmstart = 0;
   else if(!app_->warmStartIsValid(warmstart_)) has_warmstart = 1;
diff --git a/src/Interfaces/BonTMINLP2TNLP.hpp b/src/Interfaces/BonTMINLP2TNLP.hpp
index f158ad8..c259640 100644
--- a/src/Interfaces/BonTMINLP2TNLP.hpp
+++ b/src/Interfaces/BonTMINLP2TNLP.hpp
@@ -155,6 +155,11 @@ namespace Bonmin
     {
       return return_status_;
     }
+    /** Note that the user interrupted: the last solution is not one of the current problem.*/
+    void setInterrupted()
+    {
+      return_status_ = Ipopt::USER_REQUESTED_STOP;
+    }
 
     /** Get the objective value */
     Ipopt::Number obj_value() const
-- 
2.43.0


From d3c145216207898906fe631b0c70ce12eea51d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:44 +0000
Subject: [PATCH 49/57] fix: the feasibility checker took an LP point up to 0.1
 away from the last integer point for that point and fathomed the node

---
 src/Algorithms/OaGenerators/BonOaFeasChecker.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
index 26182b9..cbf76bf 100644
--- a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
+++ b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
@@ -108,7 +108,7 @@ namespace Bonmin
       //           milpBound = 1e200;
       if (feasible) {
         changed = isDifferentOnIntegers(*nlp_, objects_, nObjects_,
-                                        0.1,
+                                        1000*parameters_.cbcIntegerTolerance_,//as integerFeasible
                                         nlp_->getColSolution(), lp->getColSolution());
       }
       if (!feasible && !lp->isAbandoned() && !lp->isIterationLimitReached()) {
-- 
2.43.0


From ba90b5c8d46483e00ccfc64b847e41593a6688ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:44 +0000
Subject: [PATCH 50/57] fix: strong branching aborted when fixing a special
 ordered set also fixed another candidate

---
 src/Algorithms/Branching/BonChooseVariable.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/Algorithms/Branching/BonChooseVariable.cpp b/src/Algorithms/Branching/BonChooseVariable.cpp
index 5ad42bc..7b9908d 100644
--- a/src/Algorithms/Branching/BonChooseVariable.cpp
+++ b/src/Algorithms/Branching/BonChooseVariable.cpp
@@ -703,9 +703,12 @@ namespace Bonmin
               numberFixed++;
               if (fixVariables) {
                 const OsiObject * obj = solver->object(iObject);
-                OsiBranchingObject * branch = obj->createBranch(solver,info,0);
-                branch->branch(solver);
-                delete branch;
+                int way;
+                if (obj->infeasibility(info,way) > 0.) {// else already fixed with another object (SOS)
+                  OsiBranchingObject * branch = obj->createBranch(solver,info,0);
+                  branch->branch(solver);
+                  delete branch;
+                }
               }
             }
             double downEstimate;
@@ -726,9 +729,12 @@ namespace Bonmin
               numberFixed++;
               if (fixVariables) {
                 const OsiObject * obj = solver->object(iObject);
-                OsiBranchingObject * branch = obj->createBranch(solver,info,1);
-                branch->branch(solver);
-                delete branch;
+                int way;
+                if (obj->infeasibility(info,way) > 0.) {// else already fixed with another object (SOS)
+                  OsiBranchingObject * branch = obj->createBranch(solver,info,1);
+                  branch->branch(solver);
+                  delete branch;
+                }
               }
             }
             double MAXMIN_CRITERION = maxminCrit(info);
-- 
2.43.0


From 6919d1681f5efb873982ac37024e0aa6460b52bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:44 +0000
Subject: [PATCH 51/57] fix: RINS (and other sub-searches) threw on problems
 with SOS although there is no priority to set

---
 src/Algorithms/BonBabSetupBase.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Algorithms/BonBabSetupBase.cpp b/src/Algorithms/BonBabSetupBase.cpp
index 391480e..178e95f 100644
--- a/src/Algorithms/BonBabSetupBase.cpp
+++ b/src/Algorithms/BonBabSetupBase.cpp
@@ -779,8 +779,7 @@ namespace Bonmin
     const int * priorities = nonlinearSolver()->getPriorities();
     const double * upPsCosts = nonlinearSolver()->getUpPsCosts();
     const int * directions = nonlinearSolver()->getBranchingDirections();
-    bool hasPseudo = (upPsCosts!=NULL);
-    if ((priorities == NULL) && (directions == NULL) && hasPseudo)
+    if ((priorities == NULL) && (directions == NULL))
       return;
     int n = nonlinearSolver()->numberObjects();
     OsiObject ** objects = nonlinearSolver()->objects();
-- 
2.43.0


From bdd2a89379f534ef97f8bb4e2026aa94633b54f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:19 +0000
Subject: [PATCH 52/57] fix: a run stopped by a limit or the user lost the
 solution the outer-approximation generators had passed but Cbc not yet taken

---
 src/CbcBonmin/BonCbc.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/CbcBonmin/BonCbc.cpp b/src/CbcBonmin/BonCbc.cpp
index 75d8bbf..72f516a 100644
--- a/src/CbcBonmin/BonCbc.cpp
+++ b/src/CbcBonmin/BonCbc.cpp
@@ -541,6 +541,17 @@ namespace Bonmin
     }
     numNodes_ = model_.getNodeCount();
     bestObj_ = model_.getObjValue();
+    // When the search is stopped, the cut generators may have passed a solution that Cbc did not get to take.
+    std::vector<double> passedSolution;
+    OsiBabSolver * passedInfo = dynamic_cast<OsiBabSolver *>(model_.solver()->getAuxiliaryInfo());
+    if (passedInfo != NULL && (BonminAbortAll || model_.status() != 0)) {
+      double value = std::min(bestObj_, model_.getCutoff());
+      passedSolution.resize(model_.solver()->getNumCols());
+      if (passedInfo->solution(value, passedSolution.data(), (int) passedSolution.size()))
+        bestObj_ = value;
+      else
+        passedSolution.clear();
+    }
     bestBound_ = model_.getBestPossibleObjValue();
     mipIterationCount_ = model_.getIterationCount();
 
@@ -649,11 +660,12 @@ namespace Bonmin
           (*s.nonlinearSolver()->messageHandler())<<"\nReal objective function: "
                                                <<bestObj_<<CoinMessageEol;
        }
-       else if (model_.bestSolution()) {
+       else if (!passedSolution.empty() || model_.bestSolution()) {
          if (bestSolution_)
            delete [] bestSolution_;
          bestSolution_ = new double[s.nonlinearSolver()->getNumCols()];
-         CoinCopyN(model_.bestSolution(), s.nonlinearSolver()->getNumCols(), bestSolution_);
+         CoinCopyN(passedSolution.empty() ? model_.bestSolution() : passedSolution.data(),
+                   s.nonlinearSolver()->getNumCols(), bestSolution_);
        }
        if(remaining_time <= 0.){
          status = TMINLP::LIMIT_EXCEEDED;
-- 
2.43.0


From 3c9445615f031d2fd6ddd9342b8db69b9587474f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:19 +0000
Subject: [PATCH 53/57] fix: a cut generator replaced a better solution already
 passed to the branch-and-bound

---
 src/Algorithms/OaGenerators/BonOaDecBase.cpp  | 7 +++++--
 src/Algorithms/OaGenerators/BonOaNlpOptim.cpp | 5 ++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Algorithms/OaGenerators/BonOaDecBase.cpp b/src/Algorithms/OaGenerators/BonOaDecBase.cpp
index fec4831..2ec3867 100644
--- a/src/Algorithms/OaGenerators/BonOaDecBase.cpp
+++ b/src/Algorithms/OaGenerators/BonOaDecBase.cpp
@@ -382,8 +382,11 @@ OaDecompositionBase::post_nlp_solve(BabInfo * babInfo, double cutoff) const{
         double * lpSolution = new double[numcols + 1];
         CoinCopyN(nlp_->getColSolution(), numcols, lpSolution);
         lpSolution[numcols] = nlp_->getObjValue();
-        babInfo->setSolution(lpSolution,
-            numcols + 1, lpSolution[numcols]);
+        double value = nlp_->getObjValue();
+        // keep the solution already passed if it is better (not taken by the branch-and-bound yet)
+        if (!babInfo->solution(value, lpSolution, numcols + 1))
+          babInfo->setSolution(lpSolution,
+              numcols + 1, lpSolution[numcols]);
         delete [] lpSolution;
       }
     }
diff --git a/src/Algorithms/OaGenerators/BonOaNlpOptim.cpp b/src/Algorithms/OaGenerators/BonOaNlpOptim.cpp
index 82635e2..ff737ab 100644
--- a/src/Algorithms/OaGenerators/BonOaNlpOptim.cpp
+++ b/src/Algorithms/OaGenerators/BonOaNlpOptim.cpp
@@ -127,7 +127,10 @@ namespace Bonmin
           double * lpSolution = new double[numcols + 1];
           CoinCopyN(colsol2, numcols, lpSolution);
           lpSolution[numcols] = nlp_->getObjValue();
-          auxiliaryInfo->setSolution(lpSolution, numcols + 1, lpSolution[numcols]);
+          double value = nlp_->getObjValue();
+          // keep the solution already passed if it is better (not taken by the branch-and-bound yet)
+          if (!auxiliaryInfo->solution(value, lpSolution, numcols + 1))
+            auxiliaryInfo->setSolution(lpSolution, numcols + 1, lpSolution[numcols]);
           delete [] lpSolution;
         }
         else
-- 
2.43.0


From 5823ec8b25b901e62ebf814e3d06f8e3ca525655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:15 +0000
Subject: [PATCH 54/57] fix: solution_limit 0 and iteration_limit 0 stopped the
 run at once instead of deactivating the limit

---
 src/Algorithms/BonBabSetupBase.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Algorithms/BonBabSetupBase.cpp b/src/Algorithms/BonBabSetupBase.cpp
index 178e95f..ee2d21c 100644
--- a/src/Algorithms/BonBabSetupBase.cpp
+++ b/src/Algorithms/BonBabSetupBase.cpp
@@ -360,6 +360,11 @@ namespace Bonmin
     options->GetIntegerValue("node_limit",intParam_[MaxNodes],prefix_.c_str());
     options->GetIntegerValue("solution_limit",intParam_[MaxSolutions],prefix_.c_str());
     options->GetIntegerValue("iteration_limit",intParam_[MaxIterations],prefix_.c_str());
+    // 0 deactivates these limits (see registerAllOptions)
+    if (intParam_[MaxSolutions] == 0)
+      intParam_[MaxSolutions] = COIN_INT_MAX;
+    if (intParam_[MaxIterations] == 0)
+      intParam_[MaxIterations] = COIN_INT_MAX;
     options->GetEnumValue("sos_constraints",intParam_[DisableSos],prefix_.c_str());
     options->GetIntegerValue("num_cut_passes",intParam_[NumCutPasses],prefix_.c_str());
     options->GetIntegerValue("num_cut_passes_at_root",intParam_[NumCutPassesAtRoot],prefix_.c_str());
-- 
2.43.0


From b2768c018b8624b8bd81ff878207689d6052734b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:28 +0000
Subject: [PATCH 55/57] fix: B-BB with most-fractional or reliability branching
 used strong branching parameters read from a file, and crashed

---
 src/Algorithms/BonBonminSetup.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Algorithms/BonBonminSetup.cpp b/src/Algorithms/BonBonminSetup.cpp
index ae60d2f..701df9c 100644
--- a/src/Algorithms/BonBonminSetup.cpp
+++ b/src/Algorithms/BonBonminSetup.cpp
@@ -420,6 +420,14 @@ namespace Bonmin
       options_->SetStringValue(o_name.c_str(), "nlp-strong-branching",true,true);
       varSelection = NLP_STRONG_BRANCHING;
     }
+    // The parameters these rules impose (see gatherParametersValues) stay imposed.
+    if (varSelection == MOST_FRACTIONAL) {
+      intParam_[BabSetupBase::NumberStrong] = 0;
+      intParam_[BabSetupBase::MinReliability] = 0;
+    }
+    else if (varSelection == RELIABILITY_BRANCHING) {
+      intParam_[BabSetupBase::MinReliability] = 10;
+    }
 
     switch (varSelection) {
 #ifdef BONMIN_CURVATURE_BRANCHING
-- 
2.43.0


From 6e95d9ae24d652aca408d5c774507ddaff726cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:20 +0000
Subject: [PATCH 56/57] fix: node_comparison best-guess crashed with the
 branching rules of Cbc

---
 src/CbcBonmin/BonGuessHeuristic.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CbcBonmin/BonGuessHeuristic.cpp b/src/CbcBonmin/BonGuessHeuristic.cpp
index 157eca7..f10e952 100644
--- a/src/CbcBonmin/BonGuessHeuristic.cpp
+++ b/src/CbcBonmin/BonGuessHeuristic.cpp
@@ -24,7 +24,9 @@ namespace Bonmin
   GuessHeuristic::solution(double &solutionValue, double *betterSolution)
   {
     // Get pointer to pseudo costs object
-    const BonChooseVariable* chooseMethod = dynamic_cast<BonChooseVariable*>(model_->branchingMethod()->chooseMethod());
+    // (there is none with the branching rules of Cbc)
+    const BonChooseVariable* chooseMethod = model_->branchingMethod() ?
+        dynamic_cast<BonChooseVariable*>(model_->branchingMethod()->chooseMethod()) : NULL;
 
     if (!chooseMethod) {
       (*model_->messageHandler()) << "Can't get pseudo costs!!!\n";
-- 
2.43.0


From 52db2f258babf2ba0265d96d270604305f52169f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:28 +0000
Subject: [PATCH 57/57] fix: B-BB ignored heuristic_feasibility_pump on
 problems with general integers

---
 src/Algorithms/BonBonminSetup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithms/BonBonminSetup.cpp b/src/Algorithms/BonBonminSetup.cpp
index 701df9c..3de6a39 100644
--- a/src/Algorithms/BonBonminSetup.cpp
+++ b/src/Algorithms/BonBonminSetup.cpp
@@ -548,7 +548,7 @@ namespace Bonmin
       heuristics_.push_back(h);
     }
     Ipopt::Index doHeuristicFPump = false;
-    if(!nonlinearSolver_->model()->hasGeneralInteger() && !options()->GetEnumValue("heuristic_feasibility_pump",doHeuristicFPump,prefix_.c_str())){
+    if(!options()->GetEnumValue("heuristic_feasibility_pump",doHeuristicFPump,prefix_.c_str()) && !nonlinearSolver_->model()->hasGeneralInteger()){
       doHeuristicFPump = true;
       std::string o_name = prefix_ + "heuristic_feasibility_pump";
       options_->SetStringValue(o_name.c_str(), "yes",true,true);
-- 
2.43.0

