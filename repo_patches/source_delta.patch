From 06855e831d226ae64fdb87cbe490182e3f775971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 01/50] fix: --counterStrategy took the input file name for the
 output file name

With two file names, the constructor took the first one as the output
file and left the second one to be read as the specification, the other
way round compared to all other extractors and to the usage text.
---
 src/extensionExtractExplicitCounterstrategy.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/extensionExtractExplicitCounterstrategy.hpp b/src/extensionExtractExplicitCounterstrategy.hpp
index 30163b5..8d2198c 100644
--- a/src/extensionExtractExplicitCounterstrategy.hpp
+++ b/src/extensionExtractExplicitCounterstrategy.hpp
@@ -41,8 +41,11 @@ protected:
     using T::postOutputVars;
     using T::doesVariableInheritType;
 
-    XExtractExplicitCounterStrategy<T>(std::list<std::string> &filenames) : T(filenames) {
-        if (filenames.size()==1) {
+    XExtractExplicitCounterStrategy<T>(std::list<std::string> &filenames) : T(filenames) {}
+
+    void init(std::list<std::string> &filenames) {
+        T::init(filenames);
+        if (filenames.size()==0) {
             outputFilename = "";
         } else {
             outputFilename = filenames.front();
-- 
2.43.0


From bbcc90565158e91f96ad00ee16ddfd1f073ec96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:24 +0000
Subject: [PATCH 02/50] fix: a read error in an input file was treated as the
 end of the file

std::getline also stops on a read error. The specification read so far
was then synthesised as if it were complete (for a directory: the empty
specification, which is reported to be realizable).
---
 src/extensionAnalyzeAssumptions.hpp                      | 3 +++
 src/extensionAnalyzeInitialPositions.hpp                 | 3 +++
 src/extensionIROSfastslow.hpp                            | 3 +++
 src/extensionIncompleteInformationEstimatorSynthesis.hpp | 3 +++
 src/extensionNondeterministicMotion.hpp                  | 3 +++
 src/extensionTwoDimensionalCost.hpp                      | 3 +++
 src/synthesisContextBasics.cpp                           | 3 +++
 7 files changed, 21 insertions(+)

diff --git a/src/extensionAnalyzeAssumptions.hpp b/src/extensionAnalyzeAssumptions.hpp
index f9941e9..d702d00 100644
--- a/src/extensionAnalyzeAssumptions.hpp
+++ b/src/extensionAnalyzeAssumptions.hpp
@@ -162,6 +162,9 @@ protected:
             }
         }
 
+        // A read error must not be mistaken for the end of the file
+        if (inFile.bad()) throw "Reading the input file failed.";
+
         // Check if variable names have been used twice
         std::set<std::string> variableNameSet(variableNames.begin(),variableNames.end());
         if (variableNameSet.size()!=variableNames.size()) throw SlugsException(false,"Error in input file: some variable name has been used twice!\nPlease keep in mind that for every variable used, a second one with the same name but with a \"'\" appended to it is automacically created.");
diff --git a/src/extensionAnalyzeInitialPositions.hpp b/src/extensionAnalyzeInitialPositions.hpp
index fe0cad2..548da36 100644
--- a/src/extensionAnalyzeInitialPositions.hpp
+++ b/src/extensionAnalyzeInitialPositions.hpp
@@ -360,6 +360,9 @@ public:
             }
         }
 
+        // A read error must not be mistaken for the end of the file
+        if (inFile.bad()) throw "Reading the input file failed.";
+
         // Check if variable names have been used twice
         std::set<std::string> variableNameSet(variableNames.begin(),variableNames.end());
         if (variableNameSet.size()!=variableNames.size()) throw SlugsException(false,"Error in input file: some variable name has been used twice!\nPlease keep in mind that for every variable used, a second one with the same name but with a \"'\" appended to it is automacically created.");
diff --git a/src/extensionIROSfastslow.hpp b/src/extensionIROSfastslow.hpp
index 50b81ad..9591a60 100644
--- a/src/extensionIROSfastslow.hpp
+++ b/src/extensionIROSfastslow.hpp
@@ -190,6 +190,9 @@ void init(std::list<std::string> &filenames) {
         }
     }
 
+    // A read error must not be mistaken for the end of the file
+    if (inFile.bad()) throw "Reading the input file failed.";
+
     // Check if variable names have been used twice
     std::set<std::string> variableNameSet(variableNames.begin(),variableNames.end());
     if (variableNameSet.size()!=variableNames.size()) throw SlugsException(false,"Error in input file: some variable name has been used twice!\nPlease keep in mind that for every variable used, a second one with the same name but with a \"'\" appended to it is automacically created.");
diff --git a/src/extensionIncompleteInformationEstimatorSynthesis.hpp b/src/extensionIncompleteInformationEstimatorSynthesis.hpp
index f3bccec..0648f44 100644
--- a/src/extensionIncompleteInformationEstimatorSynthesis.hpp
+++ b/src/extensionIncompleteInformationEstimatorSynthesis.hpp
@@ -146,6 +146,9 @@ protected:
             }
         }
 
+        // A read error must not be mistaken for the end of the file
+        if (inFile.bad()) throw "Reading the input file failed.";
+
         // Check if variable names have been used twice
         std::set<std::string> variableNameSet(variableNames.begin(),variableNames.end());
         if (variableNameSet.size()!=variableNames.size()) throw SlugsException(false,"Error in input file: some variable name has been used twice!\nPlease keep in mind that for every variable used, a second one with the same name but with a \"'\" appended to it is automacically created.");
diff --git a/src/extensionNondeterministicMotion.hpp b/src/extensionNondeterministicMotion.hpp
index 1e4cb03..5fa5da9 100644
--- a/src/extensionNondeterministicMotion.hpp
+++ b/src/extensionNondeterministicMotion.hpp
@@ -329,6 +329,9 @@ public:
             }
         }
 
+        // A read error must not be mistaken for the end of the file
+        if (inFile.bad()) throw "Reading the input file failed.";
+
         std::vector<BF> varsBDDread;
         // Invert all order to get the least significant bit first
         for (int i=variables.size()-1;i>=0;i--) {
diff --git a/src/extensionTwoDimensionalCost.hpp b/src/extensionTwoDimensionalCost.hpp
index 55b1caa..ab79da4 100644
--- a/src/extensionTwoDimensionalCost.hpp
+++ b/src/extensionTwoDimensionalCost.hpp
@@ -209,6 +209,9 @@ public:
                 }
             }
         }
+
+        // A read error must not be mistaken for the end of the file
+        if (inFile.bad()) throw "Reading the cost file failed.";
     }
 
     /**
diff --git a/src/synthesisContextBasics.cpp b/src/synthesisContextBasics.cpp
index d14ada0..5f45668 100644
--- a/src/synthesisContextBasics.cpp
+++ b/src/synthesisContextBasics.cpp
@@ -217,6 +217,9 @@ void GR1Context::init(std::list<std::string> &filenames) {
         }
     }
 
+    // A read error must not be mistaken for the end of the file
+    if (inFile.bad()) throw "Reading the input file failed.";
+
     // Check if variable names have been used twice
     std::set<std::string> variableNameSet(variableNames.begin(),variableNames.end());
     if (variableNameSet.size()!=variableNames.size()) throw SlugsException(false,"Error in input file: some variable name has been used twice!\nPlease keep in mind that for every variable used, a second one with the same name but with a \"'\" appended to it is automacically created.");
-- 
2.43.0


From 541ad4d2a6e4b2734ebaf51b8ccdac029dd3ff1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 03/50] fix: failed writes of a result were not reported

A write error that only shows up when buffered output is flushed (full disk,
broken standard output) was noticed neither for the output file nor for the
standard output, so that slugs returned 0 with a truncated result.
---
 src/BFAbstractionLibrary/BFCuddManager.cpp      | 4 +++-
 src/extensionExtractExplicitCounterstrategy.hpp | 2 +-
 src/extensionExtractExplicitStrategy.hpp        | 2 +-
 src/extensionPermissiveExplicitStrategy.hpp     | 2 +-
 src/main.cpp                                    | 4 ++++
 5 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/BFAbstractionLibrary/BFCuddManager.cpp b/src/BFAbstractionLibrary/BFCuddManager.cpp
index 094e486..23acbce 100644
--- a/src/BFAbstractionLibrary/BFCuddManager.cpp
+++ b/src/BFAbstractionLibrary/BFCuddManager.cpp
@@ -186,7 +186,9 @@ void BFBddManager::writeBDDToFile(const char *filename, std::string fileprefix,
     );
 
     delete[] idMatcher;
-    fclose(file);
+
+    // Buffered data may only fail to be written when closing the file
+    if (fclose(file)!=0) throw "Error: Unable to write BDD to file.";
 
     if (storeReturnValue!=DDDMP_SUCCESS) throw "Error: Unable to write BDD to file.";
 
diff --git a/src/extensionExtractExplicitCounterstrategy.hpp b/src/extensionExtractExplicitCounterstrategy.hpp
index 8d2198c..dac6ebf 100644
--- a/src/extensionExtractExplicitCounterstrategy.hpp
+++ b/src/extensionExtractExplicitCounterstrategy.hpp
@@ -76,12 +76,12 @@ void execute() {
                     throw ex;
                 }
                 computeAndPrintExplicitStateStrategy(of);
+                of.close();
                 if (of.fail()) {
                     SlugsException ex(false);
                     ex << "Error: Writing to output file'" << outputFilename << "failed. \n";
                     throw ex;
                 }
-                of.close();
             }
         }
 }
diff --git a/src/extensionExtractExplicitStrategy.hpp b/src/extensionExtractExplicitStrategy.hpp
index e2f71c8..4aeffb3 100644
--- a/src/extensionExtractExplicitStrategy.hpp
+++ b/src/extensionExtractExplicitStrategy.hpp
@@ -62,12 +62,12 @@ public:
                     throw ex;
                 }
                 computeAndPrintExplicitStateStrategy(of);
+                of.close();
                 if (of.fail()) {
                     SlugsException ex(false);
                     ex << "Error: Writing to output file'" << outputFilename << "failed. \n";
                     throw ex;
                 }
-                of.close();
             }
         }
     }
diff --git a/src/extensionPermissiveExplicitStrategy.hpp b/src/extensionPermissiveExplicitStrategy.hpp
index 8695ccc..111d86c 100644
--- a/src/extensionPermissiveExplicitStrategy.hpp
+++ b/src/extensionPermissiveExplicitStrategy.hpp
@@ -65,12 +65,12 @@ public:
                     throw ex;
                 }
                 computeAndPrintExplicitStateStrategy(of);
+                of.close();
                 if (of.fail()) {
                     SlugsException ex(false);
                     ex << "Error: Writing to output file'" << outputFilename << "failed. \n";
                     throw ex;
                 }
-                of.close();
             }
         }
     }
diff --git a/src/main.cpp b/src/main.cpp
index 792b039..783ad38 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -347,6 +347,10 @@ int main(int argc, const char **args) {
                 context->computeVariableInformation();
                 context->execute();
                 delete context;
+
+                // Results are printed to stdout, so check that they got there.
+                std::cout.flush();
+                if (std::cout.fail()) throw "Writing to the standard output failed.";
                 return 0;
             } // else { std::cerr << optionCombinations[i].params << ":" << totalParameters << "!\n"; }
         }
-- 
2.43.0


From b49a0307361f64cd8253de62fe7eaca5a105dcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:32 +0000
Subject: [PATCH 04/50] fix: interactive session hung or read out of bounds on
 unexpected input

After a value that could not be parsed (or a read error on the standard input)
the prompt loop never terminated; an out-of-range goal number given to
XSTRATEGYTRANSITION, CHECKTRANS, MOVE or XMAKETRANSRANDOM indexed past the end
of the strategy vector; MOVE left a next-position bit unconstrained for a value
other than 0 and 1, although it announces that it assumes 1; XGETINIT announces
goal 0 but kept the previously pursued goal.
---
 src/extensionInteractiveStrategy.hpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index 9c56b3a..2115a0e 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -140,13 +140,16 @@ public:
 
         while(true) {
 
+            // A value that could not be parsed must not render all following commands unreadable
+            if (std::cin.fail() && !std::cin.bad() && !std::cin.eof()) std::cin.clear();
+
             // The prompt
             std::cout << "> ";
             std::cout.flush();
             std::string command = "";
             while (command=="") {
                 std::getline(std::cin,command);
-                if (std::cin.eof()) return;
+                if (std::cin.eof() || std::cin.fail()) return;
             }
 
             // Check the command
@@ -260,7 +263,7 @@ public:
                 // Analyse if it is part of a possible strategy
                 std::cout << "- The transition is a possible transition in a strategy for the following goals: ";
                 foundOne = false;
-                for (unsigned int i=0;i<livenessGuarantees.size();i++) {
+                for (unsigned int i=0;i<positionalStrategiesForTheIndividualGoals.size();i++) {
                     if (!(positionalStrategiesForTheIndividualGoals[i] & from & to).isFalse()) {
                         if (foundOne) std::cout << ", ";
                         foundOne = true;
@@ -307,7 +310,7 @@ public:
                     std::cin >> guarantee;
                     if (std::cin.fail()) {
                         std::cout << "    -> Error reading value. Aborting \n";
-                    } else if (guarantee>=livenessGuarantees.size()) {
+                    } else if (guarantee>=positionalStrategiesForTheIndividualGoals.size()) {
                         std::cout << "    -> Number too large. Aborting \n";
                     } else {
 
@@ -339,6 +342,7 @@ public:
                                     } else {
                                         std::cout << "    -> Value != 0 or 1. Assuming 1.\n";
                                         to &= variables[i];
+                                        nextPosition &= variables[i];
                                     }
                                 }
                             }
@@ -399,7 +403,7 @@ public:
                                 // Analyse if it is part of a possible strategy
                                 std::cout << "- The transition is a possible transition in a strategy for the following goals: ";
                                 foundOne = false;
-                                for (unsigned int i=0;i<livenessGuarantees.size();i++) {
+                                for (unsigned int i=0;i<positionalStrategiesForTheIndividualGoals.size();i++) {
                                     if (!(positionalStrategiesForTheIndividualGoals[i] & transition).isFalse()) {
                                         if (foundOne) std::cout << ", ";
                                         foundOne = true;
@@ -426,7 +430,7 @@ public:
                 BF postInput = mgr.constantTrue();
                 for (unsigned int i=0;i<variables.size();i++) {
                     if (doesVariableInheritType(i,PostInput)) {
-                        char c;
+                        char c = ' ';
                         std::cin >> c;
                         if (c=='0') {
                             postInput &= !variables[i];
@@ -484,10 +488,11 @@ public:
                 std::cout.flush();
             } else if (command=="XMAKETRANSRANDOM") {
                 std::cout << "\n"; // Get rid of the prompt
+                if (!realizable) throw "Error: XMAKETRANSRANDOM is only supported for realizable specifications";
                 BF postInput = mgr.constantTrue();
                 for (unsigned int i=0;i<variables.size();i++) {
                     if (doesVariableInheritType(i,PostInput)) {
-                        char c;
+                        char c = ' ';
                         std::cin >> c;
                         if (c=='0') {
                             postInput &= !variables[i];
@@ -584,6 +589,7 @@ public:
                 }
                 std::cout << ",0" << std::endl; // Flushes, too.
                 currentPosition = initialPosition;
+                currentLivenessGuarantee = 0;
             } else if (command=="XCOMPLETEINIT") {
 
                 // This command takes a set of forced values and completes it such that
@@ -598,7 +604,7 @@ public:
                 for (const VariableType &type: {PreInput, PreOutput}) {
                     for (unsigned int i=0;i<variables.size();i++) {
                         if (doesVariableInheritType(i,type)) {
-                            char c;
+                            char c = ' ';
                             std::cin >> c;
                             if (c=='0') {
                                 forced &= !variables[i];
@@ -811,7 +817,7 @@ public:
                 for (const VariableType &type: {PreInput, PreOutput}) {
                     for (unsigned int i=0;i<variables.size();i++) {
                         if (doesVariableInheritType(i,type)) {
-                            char c;
+                            char c = ' ';
                             std::cin >> c;
                             if (c=='0') {
                                 startingPoint &= !variables[i];
@@ -829,7 +835,7 @@ public:
                 for (const VariableType &type: {PostInput, PostOutput}) {
                     for (unsigned int i=0;i<variables.size();i++) {
                         if (doesVariableInheritType(i,type)) {
-                            char c;
+                            char c = ' ';
                             std::cin >> c;
                             if (c=='0') {
                                 forced &= !variables[i];
@@ -861,7 +867,9 @@ public:
                 //   finite time correctly.
                 BF allSoFar = startingPoint & safetyEnv & forced;
 
-                if (allSoFar.isFalse()) {
+                if ((realizable?livenessGuarantee:livenessAssumption)>=positionalStrategiesForTheIndividualGoals.size()) {
+                    std::cout << "ERROR" << std::endl;
+                } else if (allSoFar.isFalse()) {
                     std::cout << "FAILASSUMPTIONS" << std::endl;
                 } else {
 
-- 
2.43.0


From 575faf2057736442c03fd388485d22cdf1a7834e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:32 +0000
Subject: [PATCH 05/50] fix: unopenable or malformed BDD files aborted slugs

The std::runtime_error thrown by the BDD file functions was caught nowhere, and
a BDD file that could not be parsed led to dereferencing a null pointer.
---
 src/BFAbstractionLibrary/BFCuddManager.cpp | 5 +++++
 src/main.cpp                               | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/src/BFAbstractionLibrary/BFCuddManager.cpp b/src/BFAbstractionLibrary/BFCuddManager.cpp
index 23acbce..ccebda3 100644
--- a/src/BFAbstractionLibrary/BFCuddManager.cpp
+++ b/src/BFAbstractionLibrary/BFCuddManager.cpp
@@ -146,6 +146,11 @@ BFBdd BFBddManager::readBDDFromFile(const char *filename, std::vector<BFBdd> &va
     DdNode *node = Dddmp_cuddBddLoad(mgr, DDDMP_VAR_COMPOSEIDS, NULL, NULL, idMatcher, DDDMP_MODE_DEFAULT,NULL,file);
     fclose(file);
     delete[] idMatcher;
+    if (node == NULL) {
+        std::ostringstream os;
+        os << "Error in BFBddManager::readBDDFromFile(const char *filename, std::vector<BFBdd> &vars) - The file '" << filename << "' could not be read as a BDD file.";
+        throw std::runtime_error(os.str().c_str());
+    }
     Cudd_Deref(node);
     return BFBdd(this,node);   
 }
diff --git a/src/main.cpp b/src/main.cpp
index 783ad38..41f2a4a 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -374,6 +374,9 @@ int main(int argc, const char **args) {
     } catch (BFDumpDotException e) {
         std::cerr << "Error: " << e.getMessage() << std::endl;
         return 1;
+    } catch (std::exception const &e) {
+        std::cerr << "Error: " << e.what() << std::endl;
+        return 1;
     }
 
 }
-- 
2.43.0


From 9176bca4a105f232f860fcb345f8dfee637e00f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:40 +0000
Subject: [PATCH 06/50] fix: a failed read in an interactive session was
 treated as its end

---
 src/extensionInteractiveStrategy.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index 2115a0e..6685687 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -149,6 +149,7 @@ public:
             std::string command = "";
             while (command=="") {
                 std::getline(std::cin,command);
+                if (std::cin.bad()) throw "Reading the next command failed.";
                 if (std::cin.eof() || std::cin.fail()) return;
             }
 
-- 
2.43.0


From debf6682f6978878cd4b3e4514f3cc2ca482e79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:28 +0000
Subject: [PATCH 07/50] fix: --computeInterestingRunOfTheSystem printed a run
 that does not exist

The printed successor was drawn independently of the transition for which the
goal and violation flags were computed, the flags of the last row were read past
the end of their vectors, a flag was set for transitions that do not exist, a
violation of the guarantees was written to the wrong column, and a transition
that is the only one satisfying a goal was not recognised as satisfying it. Also,
the environment was considered to make progress by inputs that violate its
safety assumptions, so that the run ended with a claim that the system loses.
---
 ...ensionComputeInterestingRunOfTheSystem.hpp | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/extensionComputeInterestingRunOfTheSystem.hpp b/src/extensionComputeInterestingRunOfTheSystem.hpp
index 48dba8d..141c5f2 100644
--- a/src/extensionComputeInterestingRunOfTheSystem.hpp
+++ b/src/extensionComputeInterestingRunOfTheSystem.hpp
@@ -88,7 +88,7 @@ public:
             BF moves = mgr.constantFalse();
             do {
                 oldWinning = winning;
-                BF newMoves = (((livenessAssumptions[i] | oldWinning.SwapVariables(varVectorPre,varVectorPost)) & nonDeadlockingTransitions) | (!safetySys)).UnivAbstract(varCubePostOutput);
+                BF newMoves = (((livenessAssumptions[i] | oldWinning.SwapVariables(varVectorPre,varVectorPost)) & nonDeadlockingTransitions) | (!safetySys)).UnivAbstract(varCubePostOutput) & safetyEnv;
                 winning = newMoves.ExistAbstract(varCubePostInput);
                 moves |= winning & !oldWinning & newMoves;
             } while (winning!=oldWinning);
@@ -129,7 +129,7 @@ public:
             //BF_newDumpDot(*this,currentPosition,"Pre Post",flexname.str().c_str());
 
             // Sys Liveness progress
-            if (edge < livenessGuarantees[systemGoals.back()]) {
+            if (!(edge.isFalse()) && (edge <= livenessGuarantees[systemGoals.back()])) {
                 systemGoals.push_back((systemGoals.back() + 1) % livenessGuarantees.size());
                 systemGoalsSat.push_back(true);
             } else {
@@ -139,7 +139,7 @@ public:
             }
 
             // Env Liveness progress
-            if (edge < livenessAssumptions[environmentGoals.back()]) {
+            if (!(edge.isFalse()) && (edge <= livenessAssumptions[environmentGoals.back()])) {
                 environmentGoals.push_back((environmentGoals.back() + 1) % livenessAssumptions.size());
                 environmentGoalsSat.push_back(true);
             } else {
@@ -149,12 +149,12 @@ public:
             }
 
             // Violations
-            safetyEnvViolation.push_back(!(edge < safetyEnv));
-            safetySysViolation.push_back(!(edge < safetySys));
+            safetyEnvViolation.push_back(!(edge.isFalse()) && !(edge <= safetyEnv));
+            safetySysViolation.push_back(!(edge.isFalse()) && !(edge <= safetySys));
 
-            // Compute next position
+            // Compute next position. It has to be the one that the chosen transition leads to.
             assert(nextPosition < safetySys);
-            nextPosition = determinizeRandomized(nextPosition.ExistAbstract(varCubePre).SwapVariables(varVectorPre,varVectorPost),preVars);
+            nextPosition = edge.ExistAbstract(varCubePre).SwapVariables(varVectorPre,varVectorPost);
             trace.push_back(nextPosition);
 
             //std::ostringstream npname;
@@ -162,7 +162,11 @@ public:
             //BF_newDumpDot(*this,nextPosition,NULL,npname.str().c_str());
         }
 
+        // No transition has been taken from the last position of the run
         systemGoalsSat.push_back(false);
+        environmentGoalsSat.push_back(false);
+        safetyEnvViolation.push_back(false);
+        safetySysViolation.push_back(false);
 
         //========================
         // Compute variable groups
@@ -233,7 +237,7 @@ public:
             std::ostringstream systemGoalNumber;
             systemGoalNumber << systemGoals[runPart];
             systemGoalNumber << ((systemGoalsSat[runPart])?"+":" ");
-            if (safetySysViolation[runPart]) environmentGoalNumber << " (safety prop. violation)";
+            if (safetySysViolation[runPart]) systemGoalNumber << " (safety prop. violation)";
             thisLine.push_back(systemGoalNumber.str());
             thisLine.push_back("|");
 
-- 
2.43.0


From 7aae3723fa7388ad5a0f48c934016f67628c56af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:37 +0000
Subject: [PATCH 08/50] fix: XSTRATEGYTRANSITION mishandled goal numbers

Both goal numbers index a vector and thus both have to be checked. Moreover, a
goal that is satisfied by exactly the chosen transition was not recognised as
satisfied, so that the session never proceeded to the next goal.
---
 src/extensionInteractiveStrategy.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index 6685687..335f8ce 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -868,7 +868,7 @@ public:
                 //   finite time correctly.
                 BF allSoFar = startingPoint & safetyEnv & forced;
 
-                if ((realizable?livenessGuarantee:livenessAssumption)>=positionalStrategiesForTheIndividualGoals.size()) {
+                if ((livenessAssumption>=livenessAssumptions.size()) || (livenessGuarantee>=livenessGuarantees.size())) {
                     std::cout << "ERROR" << std::endl;
                 } else if (allSoFar.isFalse()) {
                     std::cout << "FAILASSUMPTIONS" << std::endl;
@@ -1061,8 +1061,8 @@ public:
                             std::cout << std::endl;
 
                             // Print new assumption and guarantee goal counters
-                            if (allSoFar < livenessAssumptions[livenessAssumption]) livenessAssumption++;
-                            if (allSoFar < livenessGuarantees[livenessGuarantee]) livenessGuarantee++;
+                            if (allSoFar <= livenessAssumptions[livenessAssumption]) livenessAssumption++;
+                            if (allSoFar <= livenessGuarantees[livenessGuarantee]) livenessGuarantee++;
                             std::cout << livenessAssumption % livenessAssumptions.size() << std::endl;
                             std::cout << livenessGuarantee % livenessGuarantees.size() << std::endl;
 
-- 
2.43.0


From f45001779140bcd1585170104a1d89527d9dce6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:50 +0000
Subject: [PATCH 09/50] fix: counterstrategy could satisfy all guarantees in a
 cycle

---
 ...xtensionExtractExplicitCounterstrategy.hpp | 30 +++++++++++++++----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/extensionExtractExplicitCounterstrategy.hpp b/src/extensionExtractExplicitCounterstrategy.hpp
index dac6ebf..a2e7408 100644
--- a/src/extensionExtractExplicitCounterstrategy.hpp
+++ b/src/extensionExtractExplicitCounterstrategy.hpp
@@ -120,6 +120,16 @@ void computeAndPrintExplicitStateStrategy(std::ostream &outputStream) {
         positionalStrategiesForTheIndividualGoals[i] = strategy;
     }
     
+    // For every position, find a liveness guarantee that can be prevented with the lowest rank in the outermost
+    // fixed point. The data in "strategyDumpingData" is sorted by that rank.
+    std::vector<std::pair<unsigned int,BF> > guaranteesByRank;
+    BF positionsWithRank = mgr.constantFalse();
+    for (auto it = strategyDumpingData.begin();it!=strategyDumpingData.end();it++) {
+        BF newPositions = boost::get<2>(*it).ExistAbstract(varCubePost) & !positionsWithRank;
+        guaranteesByRank.push_back(std::pair<unsigned int,BF>(boost::get<1>(*it),newPositions));
+        positionsWithRank |= newPositions;
+    }
+
     // Prepare initial to-do list from the allowed initial states. Select a single initial input valuation.
 
     // TODO: Support for non-special-robotics semantics
@@ -193,12 +203,7 @@ void computeAndPrintExplicitStateStrategy(std::ostream &outputStream) {
                     nextLivenessAssumption  = (nextLivenessAssumption + 1) % livenessAssumptions.size();
                     firstTry = false;
                 }
-                unsigned int nextLivenessGuarantee = current.second.second;
-                firstTry = true;
-                while (((nextLivenessGuarantee != current.second.second) | firstTry) && !((livenessGuarantees[nextLivenessGuarantee] & newCombination).isFalse())) {
-                    nextLivenessGuarantee  = (nextLivenessGuarantee + 1) % livenessGuarantees.size();
-                    firstTry = false;
-                }
+                bool guaranteeReached = !((livenessGuarantees[current.second.second] & newCombination).isFalse());
 
                 //Mark which input has been captured by this case. Use the same input for other successors
                 remainingTransitions &= !newCombination;
@@ -206,6 +211,19 @@ void computeAndPrintExplicitStateStrategy(std::ostream &outputStream) {
                 // We don't need the pre information from the point onwards anymore.
                 newCombination = newCombination.ExistAbstract(varCubePre).SwapVariables(varVectorPre,varVectorPost);
 
+                // If the guarantee could not be prevented, then a position of lower rank has been reached.
+                // Continue with a guarantee that can be prevented from there with that lower rank, as otherwise
+                // the guarantees could be satisfied one after the other in a cycle.
+                unsigned int nextLivenessGuarantee = current.second.second;
+                if (guaranteeReached) {
+                    for (auto it = guaranteesByRank.begin();it!=guaranteesByRank.end();it++) {
+                        if (!(newCombination & it->second).isFalse()) {
+                            nextLivenessGuarantee = it->first;
+                            break;
+                        }
+                    }
+                }
+
                 unsigned int tn;
 
                 std::pair<size_t, std::pair<unsigned int, unsigned int> > target;
-- 
2.43.0


From aae597302d436d6917d07b86a811a2417b24566e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:50 +0000
Subject: [PATCH 10/50] fix: counterstrategy without output propositions
 confused deadlocks with states

---
 src/extensionExtractExplicitCounterstrategy.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extensionExtractExplicitCounterstrategy.hpp b/src/extensionExtractExplicitCounterstrategy.hpp
index a2e7408..26a407f 100644
--- a/src/extensionExtractExplicitCounterstrategy.hpp
+++ b/src/extensionExtractExplicitCounterstrategy.hpp
@@ -263,7 +263,8 @@ void computeAndPrintExplicitStateStrategy(std::ostream &outputStream) {
     
     newCombination  = (newCombination.ExistAbstract(varCubePostOutput).ExistAbstract(varCubePre)).SwapVariables(varVectorPre,varVectorPost);
     
-    std::pair<size_t, std::pair<unsigned int, unsigned int> > target = std::pair<size_t, std::pair<unsigned int, unsigned int> >(newCombination.getHashCode(),std::pair<unsigned int, unsigned int>(current.second.first, current.second.second));
+    // Without output propositions, the BF for a deadlock-causing input is also the BF of an ordinary state. Keep them apart.
+    std::pair<size_t, std::pair<unsigned int, unsigned int> > target = std::pair<size_t, std::pair<unsigned int, unsigned int> >(newCombination.getHashCode(),std::pair<unsigned int, unsigned int>(current.second.first, livenessGuarantees.size()+current.second.second));
     unsigned int tn;
     
     if (lookupTableForPastStates.count(target)==0) {
-- 
2.43.0


From 67ab742a29f5fdaf866069cfa7e3591f45a0a002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:23 +0000
Subject: [PATCH 11/50] fix: --analyzeInterleaving listed the last output
 although it cannot be set early

---
 src/extensionInterleave.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extensionInterleave.hpp b/src/extensionInterleave.hpp
index 004d9e4..7583099 100644
--- a/src/extensionInterleave.hpp
+++ b/src/extensionInterleave.hpp
@@ -190,7 +190,7 @@ public:
             std::cout << "Starting point is a realizable specification.\n\n";
 
             // Try to "pre" Some variables
-            bool foundOne;
+            bool foundOne = false;
             for (unsigned int i=0;i<variables.size();i++) {
                 if (doesVariableInheritType(i,PreOutput)) {
                     variableTypes[i] = PreOutputBefore;
@@ -201,6 +201,7 @@ public:
                     if (!realizable) {
                         variableTypes[i] = PreOutputAfter;
                         variableTypes[i+1] = PostOutputAfter;
+                        computeVariableInformation();
                     } else {
                         foundOne = true;
                     }
-- 
2.43.0


From ab37222fe572b8a7222ae5bc311c58d60c25c00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:23 +0000
Subject: [PATCH 12/50] fix: XMAKETRANS answered a made-up position when the
 strategy has no move

---
 src/extensionInteractiveStrategy.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index 335f8ce..013d286 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -442,13 +442,13 @@ public:
                         }
                     }
                 }
-                BF trans = currentPosition & postInput & safetyEnv;
+                // From a position that is not winning, there may be no move even for an allowed input
+                BF trans = currentPosition & postInput & safetyEnv & positionalStrategiesForTheIndividualGoals[currentLivenessGuarantee];
                 if (trans.isFalse()) {
                     std::cout << "ERROR\n";
                     if (currentPosition.isFalse()) {
                     }
                 } else {
-                    trans &= positionalStrategiesForTheIndividualGoals[currentLivenessGuarantee];
 
                     // Switching goals
                     BF newCombination = determinize(trans,postVars);
@@ -504,13 +504,13 @@ public:
                         }
                     }
                 }
-                BF trans = currentPosition & postInput & safetyEnv;
+                // From a position that is not winning, there may be no move even for an allowed input
+                BF trans = currentPosition & postInput & safetyEnv & positionalStrategiesForTheIndividualGoals[currentLivenessGuarantee];
                 if (trans.isFalse()) {
                     std::cout << "ERROR\n";
                     if (currentPosition.isFalse()) {
                     }
                 } else {
-                    trans &= positionalStrategiesForTheIndividualGoals[currentLivenessGuarantee];
 
                     // Switching goals
                     BF newCombination = determinizeRandomized(trans,postVars);
-- 
2.43.0


From 395663ba352fde91b0327d6c51a82c9a866c7bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:36 +0000
Subject: [PATCH 13/50] fix: abstract countertrace must start with an input
 that the initial assumptions allow

---
 src/extensionAbstractWinningTraceGenerator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionAbstractWinningTraceGenerator.hpp b/src/extensionAbstractWinningTraceGenerator.hpp
index c09daa6..cdf56b2 100644
--- a/src/extensionAbstractWinningTraceGenerator.hpp
+++ b/src/extensionAbstractWinningTraceGenerator.hpp
@@ -118,7 +118,7 @@ protected:
                 winningPositions |= (safetyEnv & (winningPositions.SwapVariables(varVectorPre,varVectorPost) | !safetySys).UnivAbstract(varCubePostOutput)).ExistAbstract(varCubePostInput);
                 round++;
                 if ((roundFoundInitPos==-1) &&
-                        ((!initSys) | (initEnv & winningPositions)).UnivAbstract(varCubePreOutput).ExistAbstract(varCubePreInput).isTrue()) {
+                        (initEnv & ((!initSys) | winningPositions)).UnivAbstract(varCubePreOutput).ExistAbstract(varCubePreInput).isTrue()) {
                     roundFoundInitPos = round;
                 }
             }
-- 
2.43.0


From 1933ecedaf0eb99e31406f1fe7a3ee16a6289c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:36 +0000
Subject: [PATCH 14/50] fix: wrong initial condition in the non-strict and
 falsification analyses

---
 src/extensionAnalyzeSafetyLivenessInteraction.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensionAnalyzeSafetyLivenessInteraction.hpp b/src/extensionAnalyzeSafetyLivenessInteraction.hpp
index e7d0693..ec5a3a9 100644
--- a/src/extensionAnalyzeSafetyLivenessInteraction.hpp
+++ b/src/extensionAnalyzeSafetyLivenessInteraction.hpp
@@ -118,7 +118,7 @@ protected:
             computeWinningPositions();
 
             bool isWinningTraditionalSemantics = initEnv.Implies((winningPositions & initSys).ExistAbstract(varCubePreOutput)).UnivAbstract(varCubePreInput).isTrue();
-            bool isWinningRoboticsSemantics = (initEnv & initSys).Implies(winningPositions).UnivAbstract(varCubePreOutput).UnivAbstract(varCubePreInput).isTrue();
+            bool isWinningRoboticsSemantics = (initEnv & initSys & !variables[varGuaFailPre]).Implies(winningPositions).UnivAbstract(varCubePreOutput).UnivAbstract(varCubePreInput).isTrue();
 
 
             std::cout << "With a non-strict implication,\n";
@@ -151,7 +151,7 @@ protected:
                 winningPositions |= (safetyEnv & (winningPositions.SwapVariables(varVectorPre,varVectorPost) | !safetySys).UnivAbstract(varCubePostOutput)).ExistAbstract(varCubePostInput);
                 round++;
                 if ((roundFoundInitPos==-1) &&
-                        ((!initSys) | (initEnv & winningPositions)).UnivAbstract(varCubePreOutput).ExistAbstract(varCubePreInput).isTrue()) {
+                        (initEnv & ((!initSys) | winningPositions)).UnivAbstract(varCubePreOutput).ExistAbstract(varCubePreInput).isTrue()) {
                     roundFoundInitPos = round;
                 }
             }
-- 
2.43.0


From 083f0685e9b892714f406befd6defc2783c81d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:36 +0000
Subject: [PATCH 15/50] fix: assumption analysis dropped all safety assumptions
 for the liveness part

---
 src/extensionAnalyzeAssumptions.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extensionAnalyzeAssumptions.hpp b/src/extensionAnalyzeAssumptions.hpp
index d702d00..bc8fe13 100644
--- a/src/extensionAnalyzeAssumptions.hpp
+++ b/src/extensionAnalyzeAssumptions.hpp
@@ -379,11 +379,12 @@ protected:
 
             //if (i==1) throw "Aaargh!";
 
-            safetyEnv = mgr.constantTrue();
             livenessAssumptions.clear();
             for (unsigned int j=0;j<oldLivenessAssumptions.size();j++) {
                 if (i!=j) livenessAssumptions.push_back(oldLivenessAssumptions[j]);
             }
+            // The synthesis algorithm needs at least one liveness assumption
+            if (livenessAssumptions.size()==0) livenessAssumptions.push_back(mgr.constantTrue());
             std::cout << "\"" << livenessEnvPartNames.at(i) << "\" ";
 
             std::vector<std::vector<BF> > newDistances;
-- 
2.43.0


From c856a116dcc684808f4a0cfadd6b962e48c75dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:36 +0000
Subject: [PATCH 16/50] fix: number of losing initial inputs counted positions
 instead of inputs

---
 src/extensionAnalyzeInitialPositions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionAnalyzeInitialPositions.hpp b/src/extensionAnalyzeInitialPositions.hpp
index 548da36..4e4a423 100644
--- a/src/extensionAnalyzeInitialPositions.hpp
+++ b/src/extensionAnalyzeInitialPositions.hpp
@@ -210,7 +210,7 @@ public:
         double nofWPosAG = (initEnv & initSys & winningPositions & variableLimits).getNofSatisfyingAssignments(varCubePre);
 
         double nofInputs = variableLimits.ExistAbstract(varCubePreOutput).getNofSatisfyingAssignments(varCubePreInput);
-        double nofInputsSystemLosing = (initEnv & variableLimits & !((winningPositions & initSys).ExistAbstract(varCubePreOutput))).getNofSatisfyingAssignments(varCubePreInput);
+        double nofInputsSystemLosing = (initEnv & variableLimits.ExistAbstract(varCubePreOutput) & !((winningPositions & initSys).ExistAbstract(varCubePreOutput))).getNofSatisfyingAssignments(varCubePreInput);
         double nofAllowedInitialInputs = (initEnv & variableLimits.ExistAbstract(varCubePreOutput)).getNofSatisfyingAssignments(varCubePreInput);
 
         std::cout << "Number of winning positions: " << nofWPos << " out of " << nofPos << std::endl;
-- 
2.43.0


From bf3ce4e3e876189445b2cb2c3c3657f5067c549d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:36 +0000
Subject: [PATCH 17/50] fix: literal filtering used the wrong clause and
 treated absent literals as negative ones

---
 src/extensionWeakenSafetyAssumptions.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/extensionWeakenSafetyAssumptions.hpp b/src/extensionWeakenSafetyAssumptions.hpp
index 95783e4..ee17bc4 100644
--- a/src/extensionWeakenSafetyAssumptions.hpp
+++ b/src/extensionWeakenSafetyAssumptions.hpp
@@ -117,9 +117,9 @@ public:
             for (auto it = clausesFoundSoFarInt.begin();it!=clausesFoundSoFarInt.end();it++) {
                 BF thisClauseBF = mgr.constantFalse();
                 for (unsigned int i=0;i<variables.size();i++) {
-                    if (thisClause[i]>0) {
+                    if ((*it)[i]>0) {
                         thisClauseBF |= variables[i];
-                    } else if (thisClause[i]<0) {
+                    } else if ((*it)[i]<0) {
                         thisClauseBF |= !variables[i];
                     }
                 }
@@ -130,6 +130,10 @@ public:
             std::vector<int> filteredLiterals;
             BF committedLiterals = mgr.constantFalse();
             for (unsigned int i=0;i<variables.size();i++) {
+                if (thisClause[i]==0) {
+                    filteredLiterals.push_back(0);
+                    continue;
+                }
                 BF restOfClause = committedLiterals;
                 for (unsigned int j=i+1;j<variables.size();j++) {
                     if (thisClause[j]>0) {
-- 
2.43.0


From 44865b628313945858c8af7a9b844a92e482ef83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:36 +0000
Subject: [PATCH 18/50] fix: do not leave debugging dumps under fixed names in
 /tmp

---
 ...extensionAbstractWinningTraceGenerator.hpp |  1 -
 src/extensionAnalyzeAssumptions.hpp           |  3 ---
 src/extensionAnalyzeInitialPositions.hpp      |  4 ----
 ...ensionComputeInterestingRunOfTheSystem.hpp |  2 --
 ...ncompleteInformationEstimatorSynthesis.hpp |  4 ----
 src/extensionInteractiveStrategy.hpp          | 20 -------------------
 src/extensionInterleave.hpp                   |  1 -
 src/extensionNondeterministicMotion.hpp       |  3 ---
 8 files changed, 38 deletions(-)

diff --git a/src/extensionAbstractWinningTraceGenerator.hpp b/src/extensionAbstractWinningTraceGenerator.hpp
index cdf56b2..3ce3d66 100644
--- a/src/extensionAbstractWinningTraceGenerator.hpp
+++ b/src/extensionAbstractWinningTraceGenerator.hpp
@@ -136,7 +136,6 @@ protected:
                 }
             }
         }
-        BF_newDumpDot(*this,winningPositions,NULL,"/tmp/winningPos.dot");
         // std::cerr << "RoundWinningPos: " << roundFoundInitPos << std::endl;
 
         // Debugging output
diff --git a/src/extensionAnalyzeAssumptions.hpp b/src/extensionAnalyzeAssumptions.hpp
index bc8fe13..92745b5 100644
--- a/src/extensionAnalyzeAssumptions.hpp
+++ b/src/extensionAnalyzeAssumptions.hpp
@@ -282,7 +282,6 @@ protected:
                 casesCovered |= newCases;
             }
             goalStrategies.push_back(strategy);
-            BF_newDumpDot(*this,strategy,"PreInput PreOutput PostInput PostOutput","/tmp/generalStrategy.dot");
         }
 
         // Now compute the set of reachable positions
@@ -302,8 +301,6 @@ protected:
             mu.update(all);
         }
         BF reachablePositionsInMostGeneralStrategy = mu.getValue();
-        BF_newDumpDot(*this,mu.getValue(),NULL,"/tmp/testing.dot");
-        BF_newDumpDot(*this,transitionPoints,NULL,"/tmp/tps.dot");
 
 
 
diff --git a/src/extensionAnalyzeInitialPositions.hpp b/src/extensionAnalyzeInitialPositions.hpp
index 4e4a423..052e49e 100644
--- a/src/extensionAnalyzeInitialPositions.hpp
+++ b/src/extensionAnalyzeInitialPositions.hpp
@@ -222,12 +222,8 @@ public:
 
         std::cout << "\nSome cubes of winning positions: \n";
         printLargePreCubes(winningPositions, variableLimits);
-        BF_newDumpDot(*this,winningPositions,"PreOutput PreInput","/tmp/winningInitialPositions.dot");
-        BF_newDumpDot(*this,variableLimits,"PreOutput PreInput","/tmp/variableLimits.dot");
         std::cout << "\nSome cubes of non-winning positions: \n";
         printLargePreCubes(!winningPositions, variableLimits);
-        BF_newDumpDot(*this,winningPositions,NULL,"/tmp/w.dot");
-        BF_newDumpDot(*this,!winningPositions,NULL,"/tmp/nw.dot");
         std::cout << "\nSome cubes of winning positions satisfying the initialization assumptions: \n";
         printLargePreCubes(winningPositions & initEnv, variableLimits);
         std::cout << "\nSome cubes of non-winning positions satisfying the initialization assumptions: \n";
diff --git a/src/extensionComputeInterestingRunOfTheSystem.hpp b/src/extensionComputeInterestingRunOfTheSystem.hpp
index 141c5f2..f26e4af 100644
--- a/src/extensionComputeInterestingRunOfTheSystem.hpp
+++ b/src/extensionComputeInterestingRunOfTheSystem.hpp
@@ -92,8 +92,6 @@ public:
                 winning = newMoves.ExistAbstract(varCubePostInput);
                 moves |= winning & !oldWinning & newMoves;
             } while (winning!=oldWinning);
-            BF_newDumpDot(*this,winning,NULL,"/tmp/uga.dot");
-            BF_newDumpDot(*this,moves,NULL,"/tmp/moves.dot");
             environmentStrategyForAchievingTheLivenessAssumptions.push_back(moves | !winning);
         }
 
diff --git a/src/extensionIncompleteInformationEstimatorSynthesis.hpp b/src/extensionIncompleteInformationEstimatorSynthesis.hpp
index 0648f44..865eafc 100644
--- a/src/extensionIncompleteInformationEstimatorSynthesis.hpp
+++ b/src/extensionIncompleteInformationEstimatorSynthesis.hpp
@@ -371,16 +371,12 @@ protected:
             std::cerr << "============================================================\n";
             std::cerr << "WARNING! There are environment dead-ends in the abstraction!\n";
             std::cerr << "============================================================\n";
-            BF_newDumpDot(*this,deadEnds,NULL,"/tmp/envDeadEnd.dot");
-            BF_newDumpDot(*this,weakDeterminize(deadEnds,preVars),NULL,"/tmp/envDeadEndDet.dot");
         }
         deadEnds = (!deadEnds) & ((!strategy).UnivAbstract(varCubeEstimationPost)) & reachableStates;
         if (!(deadEnds.isFalse())) {
             std::cerr << "============================================================\n";
             std::cerr << "WARNING! There are system dead-ends in the abstraction!\n";
             std::cerr << "============================================================\n";
-            BF_newDumpDot(*this,deadEnds,NULL,"/tmp/envDeadEnd.dot");
-            BF_newDumpDot(*this,weakDeterminize(deadEnds,preVars),NULL,"/tmp/envDeadEndDet.dot");
         }
 
         //========================================================
diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index 013d286..dc5e822 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -75,9 +75,6 @@ public:
                     }
                 }
                 positionalStrategiesForTheIndividualGoals.push_back(strategy);
-                std::ostringstream filename;
-                filename << "/tmp/realizableStratForSystemGoal" << i << ".dot";
-                BF_newDumpDot(*this,strategy,"Pre Post",filename.str().c_str());
             }
         } else {
 
@@ -127,9 +124,6 @@ public:
                     }
                 }
                 positionalStrategiesForTheIndividualGoals.push_back(strategy);
-                std::ostringstream filename;
-                filename << "/tmp/realizableStratForEnvironmentGoal" << i << ".dot";
-                BF_newDumpDot(*this,strategy,"Pre Post",filename.str().c_str());
             }
         }
 
@@ -319,8 +313,6 @@ public:
                         if (allowedInputs.isFalse()) {
                             std::cout << "No move possible. There is no allowed next input!\n";
                         } else {
-                            BF_newDumpDot(*this,allowedInputs,"Pre Post","/tmp/allowedInputs.dot");
-
                             std::cout << "To: \n";
                             BF to = mgr.constantTrue();
                             BF nextPosition = mgr.constantTrue();
@@ -645,8 +637,6 @@ public:
                 if (possibleInitialPositions.isFalse()) {
                     std::cout << "FAILASSUMPTIONS" << std::endl;
                 } else {
-                    BF_newDumpDot(*this,possibleInitialPositions,NULL,"/tmp/init.dot");
-
                     // Find the newly forced values
                     BF oldInitialPositions = possibleInitialPositions;
                     if (realizable) {
@@ -661,7 +651,6 @@ public:
 
                             resultPtr = 0;
                             // Print variable assignment that satisfies forced and assumptions
-                            BF_newDumpDot(*this,oldInitialPositions,NULL,"/tmp/init.dot");
                             for (const VariableType &type: {PreInput, PreOutput}) {
                                 for (unsigned int i=0;i<variables.size();i++) {
                                     if (doesVariableInheritType(i,type)) {
@@ -724,7 +713,6 @@ public:
                                 std::cout << "FAILGUARANTEES" << std::endl;
 
                                 resultPtr = 0;
-                                BF_newDumpDot(*this,oldInitialPositions,NULL,"/tmp/init.dot");
                                 // Print variable assignment that satisfies forced and assumptions
                                 for (const VariableType &type: {PreInput, PreOutput}) {
                                     for (unsigned int i=0;i<variables.size();i++) {
@@ -755,8 +743,6 @@ public:
                             }
                         } else {
 
-                            BF_newDumpDot(*this,possibleInitialPositions,NULL,"/tmp/afterInitSys.dot");
-
                             // Determinize part 3
                             resultPtr = 0;
                             for (const VariableType &type: {PreInput, PreOutput}) {
@@ -797,7 +783,6 @@ public:
                                     }
                                 }
                             }
-                            BF_newDumpDot(*this,possibleInitialPositions,NULL,"/tmp/finalPossibleInitialPositions.dot");
                             assert(!(possibleInitialPositions.isFalse()));
                             assert(determinize(possibleInitialPositions,preVars)==possibleInitialPositions);
 
@@ -958,7 +943,6 @@ public:
                         assert(resultPtr==postVars.size());
 
                         // Then combine with the strategy (or safetySys)
-                        BF_newDumpDot(*this,allSoFar,NULL,"/tmp/allSoFarPre.dot");
                         oldAllSoFar = allSoFar;
                         if (realizable) {
                             allSoFar &= positionalStrategiesForTheIndividualGoals[livenessGuarantee];
@@ -966,8 +950,6 @@ public:
                             allSoFar &= safetySys;
                         }
 
-                        BF_newDumpDot(*this,allSoFar,NULL,"/tmp/allSoFarIncludingStrategy.dot");
-
                         if (allSoFar.isFalse()) {
                             if (realizable) {
                                 std::cout << "FORCEDNONWINNING" << std::endl;
@@ -1052,8 +1034,6 @@ public:
                                 }
                             }
 
-                            BF_newDumpDot(*this,allSoFar,NULL,"/tmp/finalTransitionChosen.dot");
-
                             // Print position result
                             for (unsigned int i=0;i<preVars.size();i++) {
                                 std::cout << result[i];
diff --git a/src/extensionInterleave.hpp b/src/extensionInterleave.hpp
index 7583099..952c6f6 100644
--- a/src/extensionInterleave.hpp
+++ b/src/extensionInterleave.hpp
@@ -166,7 +166,6 @@ public:
 
         // We found the set of winning positions
         winningPositions = nu2.getValue();
-        BF_newDumpDot(*this,winningPositions,NULL,"/tmp/wp.dot");
     }
 
     void execute() {
diff --git a/src/extensionNondeterministicMotion.hpp b/src/extensionNondeterministicMotion.hpp
index 5fa5da9..24987f1 100644
--- a/src/extensionNondeterministicMotion.hpp
+++ b/src/extensionNondeterministicMotion.hpp
@@ -439,7 +439,6 @@ public:
 
         // We found the set of winning positions
         winningPositions = nu2.getValue();
-        BF_newDumpDot(*this,winningPositions,NULL,"/tmp/winningPositions.dot");
 
         // Check if for every possible environment initial position the system has a good system initial position
         BF result;
@@ -479,14 +478,12 @@ public:
         if (!(newLivenessAssumption.isTrue())) {
             std::cerr << "Note: Added a liveness assumption that always eventually, we are moving if an action is taken at allows moving.\n";
         }
-        BF_newDumpDot(*this,newLivenessAssumption,"PreMotionState PostMotionControlOutput PostMotionState","/tmp/changeMotionStateLivenessAssumption.dot");
 
         // Make sure that there is at least one liveness assumption and one liveness guarantee
         // The synthesis algorithm might be unsound otherwise
         if (livenessGuarantees.size()==0) livenessGuarantees.push_back(mgr.constantTrue());
         if (livenessAssumptions.size()==0) livenessAssumptions.push_back(mgr.constantTrue());
 
-        BF_newDumpDot(*this,robotBDD,"PreMotionState PostMotionControlOutput PostMotionState","/tmp/sometestbdd.dot");
     }
 
 
-- 
2.43.0


From e411124ebbb7b34e9d302e18fdde75a33a92ac03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 19/50] fix: do not give up a node creation when automatic
 reordering has too few live nodes to reorder

A ZDD reordering sets the common threshold nextDyn from the number of ZDD nodes; with few nodes the next
BDD (or ZDD) node creation calls the reordering, which does nothing below 10 live nodes, and the operation
returned NULL without an error code.
---
 lib/cudd-3.0.0/cudd/cuddTable.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddTable.c b/lib/cudd-3.0.0/cudd/cuddTable.c
index a627574..58f24f1 100644
--- a/lib/cudd-3.0.0/cudd/cuddTable.c
+++ b/lib/cudd-3.0.0/cudd/cuddTable.c
@@ -1187,6 +1187,7 @@ cuddUniqueInter(
     /* countDead is 0 if deads should be counted and ~0 if they should not. */
     if (unique->autoDyn &&
         unique->keys - (unique->dead & unique->countDead) >= unique->nextDyn &&
+        unique->keys - unique->dead >= 10 && /* else nothing is reordered */
         unique->maxReorderings > 0) {
         unsigned long cpuTime;
 #ifdef DD_DEBUG
@@ -1448,7 +1449,8 @@ cuddUniqueInterZdd(
 
     /* countDead is 0 if deads should be counted and ~0 if they should not. */
     if (unique->autoDynZ &&
-        unique->keysZ - (unique->deadZ & unique->countDead) >= unique->nextDyn) {
+        unique->keysZ - (unique->deadZ & unique->countDead) >= unique->nextDyn &&
+        unique->keysZ - unique->deadZ >= 10) { /* else nothing is reordered */
 #ifdef DD_DEBUG
 	retval = Cudd_DebugCheck(unique);
 	if (retval != 0) return(NULL);
-- 
2.43.0


From 75d1ab38f11e796c6a68d89ac2dabdda8efeccb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:18 +0000
Subject: [PATCH 20/50] fix: do not release two factors twice when a
 decomposition step fails

---
 lib/cudd-3.0.0/cudd/cuddDecomp.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddDecomp.c b/lib/cudd-3.0.0/cudd/cuddDecomp.c
index b772142..8f380f6 100644
--- a/lib/cudd-3.0.0/cudd/cuddDecomp.c
+++ b/lib/cudd-3.0.0/cudd/cuddDecomp.c
@@ -1880,10 +1880,8 @@ BuildConjuncts(
 
     h2 = cuddBddIteRecur(dd, topv, factorsNv->h, factorsNnv->g);
     if (h2 == NULL) {
-	Cudd_RecursiveDeref(dd, factorsNv->g);
 	Cudd_RecursiveDeref(dd, factorsNv->h);
 	Cudd_RecursiveDeref(dd, factorsNnv->g);
-	Cudd_RecursiveDeref(dd, factorsNnv->h);
 	Cudd_RecursiveDeref(dd, g1);
 	Cudd_RecursiveDeref(dd, h1);
 	Cudd_RecursiveDeref(dd, g2);
-- 
2.43.0


From 9a5f1b9b0332669f702727e3619fe0b6a7e1f7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:30 +0000
Subject: [PATCH 21/50] fix: --nonDeterministicMotion left the values of [OTHER
 OUTPUT] variables unquantified

---
 src/extensionNondeterministicMotion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionNondeterministicMotion.hpp b/src/extensionNondeterministicMotion.hpp
index 24987f1..5daf03c 100644
--- a/src/extensionNondeterministicMotion.hpp
+++ b/src/extensionNondeterministicMotion.hpp
@@ -35,7 +35,7 @@ protected:
     SlugsVectorOfVarBFs postMotionStateVars{PostMotionState,this};
     SlugsVarCube varCubePreMotionState{PreMotionState,this};
     SlugsVarCube varCubePostMotionState{PostMotionState,this};
-    SlugsVarCube varCubePostControllerOutput{PostMotionControlOutput,this};
+    SlugsVarCube varCubePostControllerOutput{PostMotionControlOutput,PostOtherOutput,this};
 
 public:
     static GR1Context* makeInstance(std::list<std::string> &filenames) {
-- 
2.43.0


From e629bc2e69a2d4bd2ccdd46be53806f5f002b66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:03 +0000
Subject: [PATCH 22/50] fix: a decision diagram file that ends within its
 header crashed the loader

---
 lib/cudd-3.0.0/dddmp/dddmpLoad.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpLoad.c b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
index d00502e..5d8cc8e 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpLoad.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
@@ -411,6 +411,7 @@ Dddmp_cuddHeaderLoad (
 
   Hdr = DddmpBddReadHeader (NULL, fp);
 
+  Dddmp_CheckAndGotoLabel (Hdr==NULL, "Error reading header.", failure);
   Dddmp_CheckAndGotoLabel (Hdr->nnodes==0, "Zero number of nodes.",
     failure);
 
@@ -649,6 +650,7 @@ DddmpCuddDdArrayLoad (
 
   Hdr = DddmpBddReadHeader (NULL, fp);
 
+  Dddmp_CheckAndGotoLabel (Hdr==NULL, "Error reading header.", failure);
   Dddmp_CheckAndGotoLabel (Hdr->nnodes==0, "Zero number of nodes.",
     failure);
 
@@ -1177,7 +1179,9 @@ DddmpCuddDdArrayLoad (
 
 load_end:
 
-  DddmpFreeHeader(Hdr);
+  if (Hdr != NULL) {
+    DddmpFreeHeader(Hdr);
+  }
 
   DDDMP_FREE (pnodes);
   DDDMP_FREE (pvars1byte);
@@ -1235,7 +1239,7 @@ DddmpBddReadHeader (
 {
   Dddmp_Hdr_t *Hdr = NULL;
   char buf[DDDMP_MAXSTRLEN];
-  int retValue, fileToClose = 0;
+  int retValue, fileToClose = 0, endOfHeader = 0;
   char *retval;
 
   if (fp == NULL) {
@@ -1432,11 +1436,15 @@ DddmpBddReadHeader (
     if (matchkeywd(buf, ".nodes")) {
       retval = fgets(buf,DDDMP_MAXSTRLEN,fp);
       Dddmp_CheckAndGotoLabel (!retval, "Error on reading nodes.", failure);
+      endOfHeader = 1;
       break;
     }
 
   }
 
+  Dddmp_CheckAndGotoLabel (!endOfHeader, "Unexpected end of header.",
+    failure);
+
   /* END HEADER */
 
   return (Hdr);
@@ -1447,7 +1455,9 @@ failure:
     fclose (fp);
   }
 
-  DddmpFreeHeader(Hdr);
+  if (Hdr != NULL) {
+    DddmpFreeHeader(Hdr);
+  }
 
   return (NULL);
 }
-- 
2.43.0


From d3fb84e76ec3f1dc45ed5d1e71bbb5b6d3479f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:39 +0000
Subject: [PATCH 23/50] fix: the decision diagram loader trusted the counts and
 ids in a damaged file

---
 lib/cudd-3.0.0/dddmp/dddmpLoad.c           | 69 ++++++++++++++--------
 lib/cudd-3.0.0/dddmp/dddmpUtil.c           |  4 +-
 src/BFAbstractionLibrary/BFCuddManager.cpp |  8 ++-
 3 files changed, 52 insertions(+), 29 deletions(-)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpLoad.c b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
index 5d8cc8e..e7cb92a 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpLoad.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
@@ -651,8 +651,17 @@ DddmpCuddDdArrayLoad (
   Hdr = DddmpBddReadHeader (NULL, fp);
 
   Dddmp_CheckAndGotoLabel (Hdr==NULL, "Error reading header.", failure);
-  Dddmp_CheckAndGotoLabel (Hdr->nnodes==0, "Zero number of nodes.",
+  Dddmp_CheckAndGotoLabel (Hdr->nnodes<=0, "Zero number of nodes.",
     failure);
+  Dddmp_CheckAndGotoLabel (Hdr->ids==NULL || Hdr->permids==NULL,
+    "Variable ids missing.", failure);
+  Dddmp_CheckAndGotoLabel (Hdr->nRoots<=0 || Hdr->rootids==NULL,
+    "Root ids missing.", failure);
+  for (i=0; i<Hdr->nRoots; i++) {
+    Dddmp_CheckAndGotoLabel (Hdr->rootids[i]>Hdr->nnodes ||
+      Hdr->rootids[i]<-Hdr->nnodes || Hdr->rootids[i]==0,
+      "Wrong root id.", failure);
+  }
 
   nRoots = Hdr->nRoots;
 
@@ -694,7 +703,8 @@ DddmpCuddDdArrayLoad (
       }
     }
   }
-  Dddmp_Assert (k==Hdr->nsuppvars, "k==Hdr->nsuppvars");
+  Dddmp_CheckAndGotoLabel (k!=Hdr->nsuppvars, "Wrong variable positions.",
+    failure);
 
   if (Hdr->suppVarNames != NULL) {
     /*
@@ -838,6 +848,8 @@ DddmpCuddDdArrayLoad (
       break;
     case DDDMP_VAR_COMPOSEIDS:
       for (i=0; i<Hdr->nsuppvars; i++) {
+        Dddmp_CheckAndGotoLabel (Hdr->ids[i]<0 || Hdr->ids[i]>=nddvars,
+          "Wrong variable id.", failure);
         convertids[permsupport[i]] = varcomposeids[Hdr->ids[i]];
       }
       break;
@@ -845,6 +857,7 @@ DddmpCuddDdArrayLoad (
 
   maxv = (-1);
   for (i=0; i<Hdr->nsuppvars; i++) {
+    Dddmp_CheckAndGotoLabel (convertids[i]<0, "Wrong variable id.", failure);
     if (convertids[i] > maxv) {
       maxv = convertids[i];
     }
@@ -902,21 +915,25 @@ DddmpCuddDdArrayLoad (
           case DDDMP_VARPERMIDS:
           case DDDMP_VARAUXIDS:
           case DDDMP_VARNAMES:
-            retValue = fscanf(fp, "%d %*s %s %d %d\n", &id, buf, &idT, &idE); 
+            retValue = fscanf(fp, "%d %*s %499s %d %d\n", &id, buf, &idT,
+              &idE);
             Dddmp_CheckAndGotoLabel (retValue<4,
               "Error Reading Nodes in Text Mode.", failure);
             break;
           case DDDMP_VARDEFAULT:
-            retValue = fscanf(fp, "%d %s %d %d\n", &id, buf, &idT, &idE);
+            retValue = fscanf(fp, "%d %499s %d %d\n", &id, buf, &idT, &idE);
             Dddmp_CheckAndGotoLabel (retValue<4,
               "Error Reading Nodes in Text Mode.", failure);
             break;
+          default:
+            Dddmp_CheckAndGotoLabel (1, "Wrong variable information.",
+              failure);
         }
-#ifdef DDDMP_DEBUG
-        Dddmp_Assert (id==i, "id == i");
-#endif
+        Dddmp_CheckAndGotoLabel (id!=i, "Wrong node id.", failure);
         if (idT==0 && idE==0) {
           /* leaf node: a constant */
+          Dddmp_CheckAndGotoLabel (ddType==DDDMP_BDD && strcmp(buf,"1")!=0,
+            "Wrong constant.", failure);
           if (strcmp(buf, "1") == 0) {
             pnodes[i] = Cudd_ReadOne (ddMgr);       
           } else {
@@ -937,9 +954,8 @@ DddmpCuddDdArrayLoad (
             failure);
           continue;
         } else {
-#ifdef DDDMP_DEBUG
-          Dddmp_Assert (idT>0, "id > 0");
-#endif
+          Dddmp_CheckAndGotoLabel (idT<=0 || idT>=i || idE==0 || idE>=i ||
+            idE<=-i, "Wrong child node id.", failure);
           var = atoi(buf);
           T = pnodes[idT];
           if(idE<0) {
@@ -1018,9 +1034,8 @@ DddmpCuddDdArrayLoad (
           break;
         }
 
-#ifdef DDDMP_DEBUG
-      Dddmp_Assert (idT<i, "id<i");
-#endif
+      Dddmp_CheckAndGotoLabel (idT<=0 || idT>=i || idE<=0 || idE>=i,
+        "Wrong child node id.", failure);
       T = pnodes[idT];
       if (cuddIsConstant(T))
         vT = Hdr->nsuppvars;
@@ -1037,9 +1052,6 @@ DddmpCuddDdArrayLoad (
       Dddmp_Assert (vT<=Hdr->nsuppvars, "vT <= Hdr->nsuppvars");
 #endif
 
-#ifdef DDDMP_DEBUG
-      Dddmp_Assert (idE<i, "idE < i");
-#endif
       E = pnodes[idE];
       if (cuddIsConstant(E))
         vE = Hdr->nsuppvars;
@@ -1072,13 +1084,15 @@ DddmpCuddDdArrayLoad (
         E = Cudd_Not(E);
       }
 
-#ifdef DDDMP_DEBUG
-      Dddmp_Assert (var<Hdr->nsuppvars, "var < Hdr->nsuppvars");
-#endif
-
       break;
+
+    default:
+      Dddmp_CheckAndGotoLabel (1, "Wrong file mode.", failure);
     }
 
+    Dddmp_CheckAndGotoLabel (var<0 || var>=Hdr->nsuppvars,
+      "Wrong variable in node.", failure);
+
     if (pvars1byte != NULL) {
       pvars1byte[i] = (unsigned char) var;
     } else {
@@ -1276,7 +1290,7 @@ DddmpBddReadHeader (
   Hdr->nVarsCnf = 0;
   Hdr->nClausesCnf = 0;
 
-  while (fscanf(fp, "%s", buf)!=EOF) {
+  while (fscanf(fp, "%499s", buf)!=EOF) {
 
     /* comment */
     if (buf[0] == '#') {
@@ -1291,7 +1305,7 @@ DddmpBddReadHeader (
 
     if (matchkeywd(buf, ".ver")) {    
       /* this not checked so far: only read */
-      retValue = fscanf (fp, "%s", buf);
+      retValue = fscanf (fp, "%499s", buf);
       Dddmp_CheckAndGotoLabel (retValue==EOF, "Error reading from file.",
         failure);
 
@@ -1313,7 +1327,7 @@ DddmpBddReadHeader (
     }
 
     if (matchkeywd(buf, ".mode")) {    
-      retValue = fscanf (fp, "%s", buf);
+      retValue = fscanf (fp, "%499s", buf);
       Dddmp_CheckAndGotoLabel (retValue==EOF, "Error reading to file.",
         failure);
 
@@ -1332,7 +1346,7 @@ DddmpBddReadHeader (
     }
 
     if (matchkeywd(buf, ".dd")) {    
-      retValue = fscanf (fp, "%s", buf);
+      retValue = fscanf (fp, "%499s", buf);
       Dddmp_CheckAndGotoLabel (retValue==EOF, "Error reading file.",
         failure);
 
@@ -1352,6 +1366,8 @@ DddmpBddReadHeader (
     }
 
     if (matchkeywd(buf, ".nvars")) {   
+      Dddmp_CheckAndGotoLabel (Hdr->orderedVarNames!=NULL,
+        "Wrong order of header lines.", failure);
       retValue = fscanf (fp, "%d", &(Hdr->nVars));
       Dddmp_CheckAndGotoLabel (retValue==EOF, "Error reading file.",
         failure);
@@ -1360,6 +1376,9 @@ DddmpBddReadHeader (
     }
 
     if (matchkeywd(buf, ".nsuppvars")) {
+      Dddmp_CheckAndGotoLabel (Hdr->suppVarNames!=NULL || Hdr->ids!=NULL ||
+        Hdr->permids!=NULL || Hdr->auxids!=NULL,
+        "Wrong order of header lines.", failure);
       retValue = fscanf (fp, "%d", &(Hdr->nsuppvars));
       Dddmp_CheckAndGotoLabel (retValue==EOF, "Error reading file.",
         failure);
@@ -1410,6 +1429,8 @@ DddmpBddReadHeader (
     }
 
     if (matchkeywd(buf, ".nroots")) {
+      Dddmp_CheckAndGotoLabel (Hdr->rootids!=NULL || Hdr->rootnames!=NULL,
+        "Wrong order of header lines.", failure);
       retValue = fscanf (fp, "%d", &(Hdr->nRoots));
       Dddmp_CheckAndGotoLabel (retValue==EOF, "Error reading file.",
         failure);
diff --git a/lib/cudd-3.0.0/dddmp/dddmpUtil.c b/lib/cudd-3.0.0/dddmp/dddmpUtil.c
index feff439..a3a4a5c 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpUtil.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpUtil.c
@@ -234,7 +234,7 @@ DddmpStrArrayRead (
     array[i] = NULL;
 
   for (i=0; i < n; i++) { 
-    if (fscanf (fp, "%s", buf)==EOF) {
+    if (fscanf (fp, "%499s", buf)==EOF) {
       fprintf (stderr, "DddmpStrArrayRead: Error reading file - EOF found\n");
       fflush (stderr);
       DddmpStrArrayFree (array, n);
@@ -384,7 +384,7 @@ DddmpIntArrayRead (
   }
 
   for (i=0; i < n; i++) { 
-    if (fscanf (fp, "%d", &array[i])==EOF) {
+    if (fscanf (fp, "%d", &array[i])!=1) {
       (void) fprintf (stderr,
         "DddmpIntArrayRead: Error reading file - EOF found\n");
       fflush (stderr);
diff --git a/src/BFAbstractionLibrary/BFCuddManager.cpp b/src/BFAbstractionLibrary/BFCuddManager.cpp
index ccebda3..aa252b4 100644
--- a/src/BFAbstractionLibrary/BFCuddManager.cpp
+++ b/src/BFAbstractionLibrary/BFCuddManager.cpp
@@ -139,9 +139,11 @@ BFBdd BFBddManager::readBDDFromFile(const char *filename, std::vector<BFBdd> &va
         throw std::runtime_error(os.str().c_str());
     }
 
-    int *idMatcher = new int[vars.size()];
-    for (unsigned int i=0;i<vars.size();i++) {
-        idMatcher[i] = vars[i].readNodeIndex();
+    // The loader needs one entry for each variable of the manager
+    int nofManagerVars = Cudd_ReadSize(mgr);
+    int *idMatcher = new int[nofManagerVars];
+    for (int i=0;i<nofManagerVars;i++) {
+        idMatcher[i] = (i<(int)vars.size())?vars[i].readNodeIndex():-1;
     }
     DdNode *node = Dddmp_cuddBddLoad(mgr, DDDMP_VAR_COMPOSEIDS, NULL, NULL, idMatcher, DDDMP_MODE_DEFAULT,NULL,file);
     fclose(file);
-- 
2.43.0


From 136be087575e1756d95cf2338af7ba0112619cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:46 +0000
Subject: [PATCH 24/50] fix: a formula could recall a memory element that was
 not stored yet

---
 src/extensionNondeterministicMotion.hpp | 6 +++---
 src/synthesisContextBasics.cpp          | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/extensionNondeterministicMotion.hpp b/src/extensionNondeterministicMotion.hpp
index 5daf03c..a9fe9bd 100644
--- a/src/extensionNondeterministicMotion.hpp
+++ b/src/extensionNondeterministicMotion.hpp
@@ -70,14 +70,14 @@ public:
         if (operation=="$") {
             unsigned nofElements;
             is >> nofElements;
-            if (is.fail()) {
+            if (is.fail() || (nofElements==0)) {
                 SlugsException e(false);
                 e << "Error reading line " << lineNumberCurrentlyRead << ". Expected number of memory elements.";
                 throw e;
             }
-            std::vector<BF> memoryNew(nofElements);
+            std::vector<BF> memoryNew;
             for (unsigned int i=0;i<nofElements;i++) {
-                memoryNew[i] = parseBooleanFormulaRecurseEx(is,allowedTypes,memoryNew,readBDDs);
+                memoryNew.push_back(parseBooleanFormulaRecurseEx(is,allowedTypes,memoryNew,readBDDs));
             }
             return memoryNew[nofElements-1];
         }
diff --git a/src/synthesisContextBasics.cpp b/src/synthesisContextBasics.cpp
index 5f45668..fea755e 100644
--- a/src/synthesisContextBasics.cpp
+++ b/src/synthesisContextBasics.cpp
@@ -38,14 +38,14 @@ BF GR1Context::parseBooleanFormulaRecurse(std::istringstream &is,std::set<Variab
     if (operation=="$") {
         unsigned nofElements;
         is >> nofElements;
-        if (is.fail()) {
+        if (is.fail() || (nofElements==0)) {
             SlugsException e(false);
             e << "Error reading line " << lineNumberCurrentlyRead << ". Expected number of memory elements.";
             throw e;
         }
-        std::vector<BF> memoryNew(nofElements);
+        std::vector<BF> memoryNew;
         for (unsigned int i=0;i<nofElements;i++) {
-            memoryNew[i] = parseBooleanFormulaRecurse(is,allowedTypes,memoryNew);
+            memoryNew.push_back(parseBooleanFormulaRecurse(is,allowedTypes,memoryNew));
         }
         return memoryNew[nofElements-1];
     }
-- 
2.43.0


From 7b3aa23e7704faf264dac107bc3594d5ee795557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:07 +0000
Subject: [PATCH 25/50] fix: storing a diagram to a file cut the collision
 lists of the table of constants

---
 lib/cudd-3.0.0/dddmp/dddmpInt.h     |  2 +
 lib/cudd-3.0.0/dddmp/dddmpNodeAdd.c |  9 ++--
 lib/cudd-3.0.0/dddmp/dddmpNodeBdd.c | 78 +++++++++++++++++++++++++++--
 lib/cudd-3.0.0/dddmp/dddmpNodeCnf.c |  9 ++--
 4 files changed, 86 insertions(+), 12 deletions(-)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpInt.h b/lib/cudd-3.0.0/dddmp/dddmpInt.h
index 7d0f54d..caef575 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpInt.h
+++ b/lib/cudd-3.0.0/dddmp/dddmpInt.h
@@ -183,6 +183,8 @@ extern int DddmpNumberBddNodes(DdManager *ddMgr, DdNode **f, int n);
 extern void DddmpUnnumberBddNodes(DdManager *ddMgr, DdNode **f, int n);
 extern void DddmpWriteNodeIndexBdd(DdNode *f, int id);
 extern int DddmpReadNodeIndexBdd(DdNode *f);
+extern void DddmpUnlinkConstant(DdManager *ddMgr, DdNode *f);
+extern void DddmpRelinkConstant(DdManager *ddMgr, DdNode *f);
 extern int DddmpVisitedBdd(DdNode *f);
 extern void DddmpSetVisitedBdd(DdNode *f);
 extern void DddmpClearVisitedBdd(DdNode *f);
diff --git a/lib/cudd-3.0.0/dddmp/dddmpNodeAdd.c b/lib/cudd-3.0.0/dddmp/dddmpNodeAdd.c
index 5185c57..52d5d4f 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpNodeAdd.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpNodeAdd.c
@@ -361,6 +361,10 @@ RemoveFromUniqueRecurAdd (
 
     f->next = NULL;
 
+  } else {
+
+    DddmpUnlinkConstant (ddMgr, f);
+
   }
 
   DddmpSetVisitedAdd (f);
@@ -403,10 +407,7 @@ RestoreInUniqueRecurAdd (
   }
 
   if (cuddIsConstant (f)) {
-    /* StQ 11.02.2004:
-       Bug fixed --> restore NULL within the next field */
-    /*DddmpClearVisitedAdd (f);*/
-    f->next = NULL;
+    DddmpRelinkConstant (ddMgr, f);
 
     return;
   }
diff --git a/lib/cudd-3.0.0/dddmp/dddmpNodeBdd.c b/lib/cudd-3.0.0/dddmp/dddmpNodeBdd.c
index 8699a91..2291c64 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpNodeBdd.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpNodeBdd.c
@@ -258,6 +258,75 @@ DddmpClearVisitedBdd (
   return;
 }
 
+/**Function********************************************************************
+
+  Synopsis    [Removes a constant from the table of constants]
+
+  Description [The next field of the constant is needed for its number, so
+    the constant must not be in a collision list meanwhile.
+    ]
+
+  SideEffects [None]
+
+  SeeAlso     [DddmpRelinkConstant ()]
+
+******************************************************************************/
+
+void
+DddmpUnlinkConstant (
+  DdManager *ddMgr  /* IN: DD Manager */,
+  DdNode *f         /* IN: constant */
+  )
+{
+  int pos;
+
+  for (pos=0; pos<(int)ddMgr->constants.slots; pos++) {
+    DdNodePtr *previousP = &(ddMgr->constants.nodelist[pos]);
+    while (*previousP != NULL && *previousP != f) {
+      previousP = &((*previousP)->next);
+    }
+    if (*previousP == f) {
+      *previousP = f->next;
+      break;
+    }
+  }
+  f->next = NULL;
+
+  return;
+}
+
+/**Function********************************************************************
+
+  Synopsis    [Puts a constant back into the table of constants]
+
+  Description [Puts a constant back into the table of constants]
+
+  SideEffects [None]
+
+  SeeAlso     [DddmpUnlinkConstant ()]
+
+******************************************************************************/
+
+void
+DddmpRelinkConstant (
+  DdManager *ddMgr  /* IN: DD Manager */,
+  DdNode *f         /* IN: constant */
+  )
+{
+  union {
+    CUDD_VALUE_TYPE value;
+    unsigned int bits[2];
+  } split;
+  int pos;
+
+  split.value = cuddV (f);
+  pos = ddHash (split.bits[0], split.bits[1], ddMgr->constants.shift);
+  f->next = ddMgr->constants.nodelist[pos];
+  ddMgr->constants.nodelist[pos] = f;
+
+  return;
+}
+
 /*---------------------------------------------------------------------------*/
 /* Definition of static functions                                            */
 /*---------------------------------------------------------------------------*/
@@ -362,6 +431,10 @@ RemoveFromUniqueRecurBdd (
 
     f->next = NULL;
 
+  } else {
+
+    DddmpUnlinkConstant (ddMgr, f);
+
   }
 
   DddmpSetVisitedBdd (f);
@@ -404,10 +477,7 @@ RestoreInUniqueRecurBdd (
   }
 
   if (cuddIsConstant (f)) {
-    /* StQ 11.02.2004:
-       Bug fixed --> restore NULL within the next field */
-    /*DddmpClearVisitedBdd (f);*/   
-    f->next = NULL;
+    DddmpRelinkConstant (ddMgr, f);
 
     return;
   }
diff --git a/lib/cudd-3.0.0/dddmp/dddmpNodeCnf.c b/lib/cudd-3.0.0/dddmp/dddmpNodeCnf.c
index 1aacadc..2d22789 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpNodeCnf.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpNodeCnf.c
@@ -787,6 +787,10 @@ RemoveFromUniqueRecurCnf (
 
     f->next = NULL;
 
+  } else {
+
+    DddmpUnlinkConstant (ddMgr, f);
+
   }
 
   DddmpSetVisitedCnf (f);
@@ -829,10 +833,7 @@ RestoreInUniqueRecurCnf (
   }
 
   if (cuddIsConstant (f)) {
-    /* StQ 11.02.2004:
-       Bug fixed --> restore NULL within the next field */
-    /*DddmpClearVisitedCnf (f);*/
-    f->next = NULL;
+    DddmpRelinkConstant (ddMgr, f);
 
     return;
   }
-- 
2.43.0


From a5ff3458db616197e9df1148e46e85c5c36cac41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 26/50] fix: a failed store left the nodes of the diagram
 outside the unique table

---
 lib/cudd-3.0.0/dddmp/dddmpNodeAdd.c  | 39 ++++++++++++++++++++++++++++
 lib/cudd-3.0.0/dddmp/dddmpNodeBdd.c  | 39 ++++++++++++++++++++++++++++
 lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c |  8 ++++++
 lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c |  8 ++++++
 4 files changed, 94 insertions(+)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpNodeAdd.c b/lib/cudd-3.0.0/dddmp/dddmpNodeAdd.c
index 52d5d4f..2a11afa 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpNodeAdd.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpNodeAdd.c
@@ -53,6 +53,7 @@
 static int NumberNodeRecurAdd(DdNode *f, int id);
 static void RemoveFromUniqueRecurAdd(DdManager *ddMgr, DdNode *f);
 static void RestoreInUniqueRecurAdd(DdManager *ddMgr, DdNode *f);
+static void MarkNodeRecurAdd(DdNode *f);
 
 /**AutomaticEnd***************************************************************/
 
@@ -125,6 +126,11 @@ DddmpUnnumberAddNodes (
 {
   int i;
 
+  /* storing may have stopped early: mark all nodes as to be restored */
+  for (i=0; i<n; i++) {
+    MarkNodeRecurAdd (f[i]);
+  }
+
   for (i=0; i<n; i++) {
     RestoreInUniqueRecurAdd (ddMgr, f[i]);
   }
@@ -449,4 +455,37 @@ RestoreInUniqueRecurAdd (
   return;
 }
 
+/**Function********************************************************************
+
+  Synopsis    [Marks all numbered nodes as visited]
+
+  Description [Replaces the number of each node by a mark, with which
+    RestoreInUniqueRecurAdd finds it. Node numbers start at 1, hence no
+    numbered node carries the mark.
+    ]
 
+  SideEffects [Node numbers are lost.]
+
+  SeeAlso     [RestoreInUniqueRecurAdd ()]
+
+******************************************************************************/
+
+static void
+MarkNodeRecurAdd (
+  DdNode *f  /* IN: root of the diagram */
+  )
+{
+  f = Cudd_Regular (f);
+
+  if (f->next == (DdNode *) (ptruint) 01) {
+    return;
+  }
+
+  f->next = (DdNode *) (ptruint) 01;
+  if (!cuddIsConstant (f)) {
+    MarkNodeRecurAdd (cuddT (f));
+    MarkNodeRecurAdd (cuddE (f));
+  }
+
+  return;
+}
diff --git a/lib/cudd-3.0.0/dddmp/dddmpNodeBdd.c b/lib/cudd-3.0.0/dddmp/dddmpNodeBdd.c
index 2291c64..7e2a69a 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpNodeBdd.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpNodeBdd.c
@@ -53,6 +53,7 @@
 static int NumberNodeRecurBdd(DdNode *f, int id);
 static void RemoveFromUniqueRecurBdd(DdManager *ddMgr, DdNode *f);
 static void RestoreInUniqueRecurBdd(DdManager *ddMgr, DdNode *f);
+static void MarkNodeRecurBdd(DdNode *f);
 
 /**AutomaticEnd***************************************************************/
 
@@ -125,6 +126,11 @@ DddmpUnnumberBddNodes(
 {
   int i;
 
+  /* storing may have stopped early: mark all nodes as to be restored */
+  for (i=0; i<n; i++) {
+    MarkNodeRecurBdd (f[i]);
+  }
+
   for (i=0; i<n; i++) {
     RestoreInUniqueRecurBdd (ddMgr, f[i]);
   }
@@ -519,4 +525,37 @@ RestoreInUniqueRecurBdd (
   return;
 }
 
+/**Function********************************************************************
+
+  Synopsis    [Marks all numbered nodes as visited]
+
+  Description [Replaces the number of each node by a mark, with which
+    RestoreInUniqueRecurBdd finds it. Node numbers start at 1, hence no
+    numbered node carries the mark.
+    ]
 
+  SideEffects [Node numbers are lost.]
+
+  SeeAlso     [RestoreInUniqueRecurBdd ()]
+
+******************************************************************************/
+
+static void
+MarkNodeRecurBdd (
+  DdNode *f  /* IN: root of the diagram */
+  )
+{
+  f = Cudd_Regular (f);
+
+  if (f->next == (DdNode *) (ptruint) 01) {
+    return;
+  }
+
+  f->next = (DdNode *) (ptruint) 01;
+  if (!cuddIsConstant (f)) {
+    MarkNodeRecurBdd (cuddT (f));
+    MarkNodeRecurBdd (cuddE (f));
+  }
+
+  return;
+}
diff --git a/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c b/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c
index b304a88..ec7d946 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c
@@ -240,6 +240,7 @@ DddmpCuddDdArrayStoreBdd (
   int retValue;
   int i, var;
   int fileToClose = 0;
+  int numbered = 0;
 
   /* 
    *  Check DD Type and Mode
@@ -370,6 +371,7 @@ DddmpCuddDdArrayStoreBdd (
    */
 
   nnodes = DddmpNumberAddNodes (ddMgr, f, nRoots);
+  numbered = 1;
 
   /* 
    * Start Header
@@ -639,6 +641,12 @@ DddmpCuddDdArrayStoreBdd (
 
   failure:
 
+    if (numbered) {
+      DddmpUnnumberAddNodes (ddMgr, f, nRoots);
+    }
+    if (fileToClose) {
+      fclose (fp);
+    }
     if (ids != NULL) {
       DDDMP_FREE (ids);
     }
diff --git a/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c b/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c
index aa9ee44..0a93a2e 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c
@@ -253,6 +253,7 @@ DddmpCuddBddArrayStore (
   int retValue;
   int i, var;
   int fileToClose = 0;
+  int numbered = 0;
 
   /* 
    *  Check DD Type
@@ -381,6 +382,7 @@ DddmpCuddBddArrayStore (
    */
 
   nnodes = DddmpNumberBddNodes (ddMgr, f, nRoots);
+  numbered = 1;
 
   /* 
    * Start Header
@@ -646,6 +648,12 @@ DddmpCuddBddArrayStore (
 
   failure:
 
+    if (numbered) {
+      DddmpUnnumberBddNodes (ddMgr, f, nRoots);
+    }
+    if (fileToClose) {
+      fclose (fp);
+    }
     if (ids != NULL) {
       DDDMP_FREE (ids);
     }
-- 
2.43.0


From bcdd438f1632c038c456d1ee720253c79323ef6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 27/50] fix: storing a diagram by file name reported success
 although closing the file failed

---
 lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c | 4 +++-
 lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c b/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c
index ec7d946..987910d 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c
@@ -628,7 +628,9 @@ DddmpCuddDdArrayStoreBdd (
     failure);
 
   if (fileToClose) {
-    fclose (fp);
+    fileToClose = 0;
+    Dddmp_CheckAndGotoLabel (fclose (fp)!=0, "Error closing file.",
+      failure);
   }
 
   DddmpUnnumberAddNodes (ddMgr, f, nRoots);
diff --git a/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c b/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c
index 0a93a2e..a8025f4 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c
@@ -635,7 +635,9 @@ DddmpCuddBddArrayStore (
     failure);
 
   if (fileToClose) {
-    fclose (fp);
+    fileToClose = 0;
+    Dddmp_CheckAndGotoLabel (fclose (fp)!=0, "Error closing file.",
+      failure);
   }
 
   DddmpUnnumberBddNodes (ddMgr, f, nRoots);
-- 
2.43.0


From 85d2b75996c8c39406a0d5c7555802f9f64a14e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:33 +0000
Subject: [PATCH 28/50] fix: write and read errors in binary diagram files went
 unnoticed

---
 lib/cudd-3.0.0/dddmp/dddmpBinary.c   | 14 +++++++-------
 lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c |  6 +++---
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpBinary.c b/lib/cudd-3.0.0/dddmp/dddmpBinary.c
index a7cd674..6f4f00a 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpBinary.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpBinary.c
@@ -262,30 +262,30 @@ WriteByteBinary (
     case 0x00: /* Escape */
       BinaryEscape = 0x00;
       if (fwrite (&BinaryEscape, sizeof(char), 1, fp) != sizeof(char))
-        return (0);
+        return (EOF);
       c = 0x00;
       break;
     case 0x0a: /* <LF> */
       BinaryEscape = 0x00;
       if (fwrite (&BinaryEscape, sizeof(char), 1, fp) != sizeof(char))
-        return (0);
+        return (EOF);
       c = 0x01;
       break;
     case 0x0d: /* <CR> */
       BinaryEscape = 0x00;
       if (fwrite (&BinaryEscape, sizeof(char), 1, fp) != sizeof(char))
-        return (0);
+        return (EOF);
       c = 0x02;
       break;
     case 0x1a: /* <ctrl-Z> */
       BinaryEscape = 0x00;
       if (fwrite (&BinaryEscape, sizeof(char), 1, fp) != sizeof(char))
-        return (0);
+        return (EOF);
       c = 0x03;
       break;
   }
   if (fwrite (&c, sizeof(char), 1, fp) != sizeof(char))
-    return (0);
+    return (EOF);
 
   return (1);
 }
@@ -313,12 +313,12 @@ ReadByteBinary (
 {
  
   if (fread (cp, sizeof(char), 1, fp) != sizeof(char)) {
-    return (0);
+    return (EOF);
   }
 
   if (*cp == 0x00) { /* Escape */
     if (fread (cp, sizeof(char), 1, fp) != sizeof(char)) {
-      return (0);
+      return (EOF);
     }
 
     switch (*cp) {
diff --git a/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c b/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c
index a8025f4..b9e3459 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c
@@ -1103,21 +1103,21 @@ NodeBinaryStoreBdd (
 
   if ((code.V == DDDMP_ABSOLUTE_ID) || (code.V == DDDMP_RELATIVE_ID)) { 
     retValue = DddmpWriteInt (fp, var);
-    if (retValue == EOF) {
+    if (retValue == 0) {
       return (DDDMP_FAILURE);
     }
   }
 
   if ((code.T == DDDMP_ABSOLUTE_ID) || (code.T == DDDMP_RELATIVE_ID)) { 
     retValue = DddmpWriteInt(fp,idT);
-    if (retValue == EOF) {
+    if (retValue == 0) {
       return (DDDMP_FAILURE);
     }
   }
 
   if ((code.E == DDDMP_ABSOLUTE_ID) || (code.E == DDDMP_RELATIVE_ID)) { 
     retValue = DddmpWriteInt(fp,idE);
-    if (retValue == EOF) {
+    if (retValue == 0) {
       return (DDDMP_FAILURE);
     }
   }
-- 
2.43.0


From 48feaf2b57a56aee333eede3ae1dd4eb4c0a4c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:33 +0000
Subject: [PATCH 29/50] fix: loading a binary diagram file took a reference
 from the constant one

---
 lib/cudd-3.0.0/dddmp/dddmpLoad.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpLoad.c b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
index e7cb92a..163c7f4 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpLoad.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
@@ -982,6 +982,7 @@ DddmpCuddDdArrayLoad (
         case DDDMP_TERMINAL:     
           /* only 1 terminal presently supported */    
           pnodes[i] = Cudd_ReadOne (ddMgr);       
+          Cudd_Ref (pnodes[i]);
           continue; 
           break;
         case DDDMP_RELATIVE_1:
-- 
2.43.0


From da5b4753b5252bfa8bab983f91295ee8f05c25d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:03 +0000
Subject: [PATCH 30/50] fix: a failed load kept references on the nodes it had
 built

---
 lib/cudd-3.0.0/dddmp/dddmpLoad.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpLoad.c b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
index 163c7f4..a919c16 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpLoad.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
@@ -629,7 +629,7 @@ DddmpCuddDdArrayLoad (
   int *invconvertids = NULL;
   int *invauxids = NULL;
   char **sortedvarnames = NULL;
-  int  nddvars, nRoots;
+  int  nddvars, nRoots, nLoaded = 0;
   DdNode **pnodes = NULL;
   unsigned char *pvars1byte = NULL;
   unsigned short *pvars2byte = NULL;
@@ -949,9 +949,10 @@ DddmpCuddDdArrayLoad (
 
           /* StQ 11.02.2004:
              Bug fixed --> Reference All Nodes for ADD */
-          Cudd_Ref (pnodes[i]);       
           Dddmp_CheckAndGotoLabel (pnodes[i]==NULL, "NULL pnodes.",
             failure);
+          Cudd_Ref (pnodes[i]);       
+          nLoaded = i;
           continue;
         } else {
           Dddmp_CheckAndGotoLabel (idT<=0 || idT>=i || idE==0 || idE>=i ||
@@ -983,6 +984,7 @@ DddmpCuddDdArrayLoad (
           /* only 1 terminal presently supported */    
           pnodes[i] = Cudd_ReadOne (ddMgr);       
           Cudd_Ref (pnodes[i]);
+          nLoaded = i;
           continue; 
           break;
         case DDDMP_RELATIVE_1:
@@ -1111,6 +1113,7 @@ DddmpCuddDdArrayLoad (
       case DDDMP_ADD: 
         { 
         DdNode *tmp = Cudd_addIthVar (ddMgr, var);
+        Dddmp_CheckAndGotoLabel (tmp==NULL, "NULL variable.", failure);
         Cudd_Ref (tmp);
         pnodes[i] = Cudd_addIte (ddMgr, tmp, T, E);
         Cudd_RecursiveDeref (ddMgr, tmp);
@@ -1122,7 +1125,9 @@ DddmpCuddDdArrayLoad (
         break;
      }
 
+    Dddmp_CheckAndGotoLabel (pnodes[i]==NULL, "NULL pnodes.", failure);
     cuddRef (pnodes[i]);
+    nLoaded = i;
   }
 
   /*------------------------ Deal With the File Tail -----------------------*/
@@ -1135,6 +1140,7 @@ DddmpCuddDdArrayLoad (
   /* Close File IFF Necessary */
   if (fileToClose) {
     fclose (fp);
+    fileToClose = 0;
   }
 
   /* BDD Roots */
@@ -1225,6 +1231,10 @@ failure:
 
   nRoots = 0; /* return 0 on error ! */
 
+  for (i=1; i<=nLoaded; i++) {
+    Cudd_RecursiveDeref (ddMgr, pnodes[i]);
+  }
+
   DDDMP_FREE (proots);
 
   goto load_end; /* this is done to free memory */
-- 
2.43.0


From 28a93118b78e3a368adceaac283754331511052d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:03 +0000
Subject: [PATCH 31/50] fix: matching the roots of a diagram file by name had
 no effect

---
 lib/cudd-3.0.0/dddmp/dddmpLoad.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpLoad.c b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
index a919c16..d854cd5 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpLoad.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
@@ -1159,6 +1159,7 @@ DddmpCuddDdArrayLoad (
           /* rootname not found */
           fprintf (stderr, "Warning: unable to match root name <%s>\n",
             rootmatchnames[i]);
+          j = i;
         }
         break; 
       case DDDMP_ROOT_MATCHLIST:
@@ -1166,7 +1167,7 @@ DddmpCuddDdArrayLoad (
         break;
     }
 
-    id = Hdr->rootids[i];
+    id = Hdr->rootids[j];
     if (id==0) {
       (void) fprintf (stderr, "DdLoad Warning: NULL root found in file\n");
       fflush (stderr);
-- 
2.43.0


From 7b794eed698f7269a37e505aa3af2da269f2bde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:03 +0000
Subject: [PATCH 32/50] fix: matching variables by auxiliary ids ignored all
 variables of the manager but those with ids in the file

---
 lib/cudd-3.0.0/dddmp/dddmpLoad.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpLoad.c b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
index d854cd5..4804ec1 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpLoad.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
@@ -773,13 +773,16 @@ DddmpCuddDdArrayLoad (
         invauxids[i] = -1;
       }
 
-      for (i=0; i<Hdr->nsuppvars; i++) {
-        invauxids[varmatchauxids[Hdr->ids[i]]] = Hdr->ids[i];
+      for (i=0; i<nddvars; i++) {
+        if (varmatchauxids[i] >= 0) {
+          invauxids[varmatchauxids[i]] = i;
+        }
       }
 
       /* generate convertids array */
       for (i=0; i<Hdr->nsuppvars; i++) {
-        if ((Hdr->auxids[i]>maxaux) || (invauxids[Hdr->auxids[i]]<0)) {
+        if ((Hdr->auxids[i]<0) || (Hdr->auxids[i]>maxaux) ||
+          (invauxids[Hdr->auxids[i]]<0)) {
           (void) fprintf (stderr,
             "DdLoad Error: auxid %d not found in DD manager.\n", 
             Hdr->auxids[i]);
-- 
2.43.0


From 43fbc11ae60472ad72220936e0ad0ac4724d7556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:03 +0000
Subject: [PATCH 33/50] fix: constants of stored ADDs were rounded to six
 digits

---
 lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c b/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c
index 987910d..5013133 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c
@@ -901,9 +901,9 @@ NodeTextStoreAdd (
      */
 
     if ((varnames != NULL) || (outids != NULL)) {
-      retValue = fprintf (fp, "%d T %g 0 0\n",idf,Cudd_V(f));
+      retValue = fprintf (fp, "%d T %.17g 0 0\n",idf,Cudd_V(f));
     } else {
-      retValue = fprintf (fp, "%d %g 0 0\n",idf, Cudd_V(f));
+      retValue = fprintf (fp, "%d %.17g 0 0\n",idf, Cudd_V(f));
     }
 
     if (retValue == EOF) {
-- 
2.43.0


From 584504b3898b7535f7b5d1c0286ad359f2d6996a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:11 +0000
Subject: [PATCH 34/50] fix: an automatic reordering while the supports of
 several roots are computed mixed up variable positions in the stored file

---
 lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c | 10 ++++++++--
 lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c b/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c
index 5013133..63ff92d 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c
@@ -317,8 +317,6 @@ DddmpCuddDdArrayStoreBdd (
     scan = support;
     while (!cuddIsConstant(scan)) {
       ids[scan->index] = scan->index;
-      permids[scan->index] = ddMgr->perm[scan->index];
-      invpermids[ddMgr->perm[scan->index]] = scan->index;
       scan = cuddT (scan);
     }
     Cudd_RecursiveDeref (ddMgr, support);
@@ -326,6 +324,14 @@ DddmpCuddDdArrayStoreBdd (
   /* so that we do not try to free it in case of failure */
   support = NULL;
 
+  /* computing the supports may have reordered the variables */
+  for (i=0; i<nVars; i++) {
+    if (ids[i] >= 0) {
+      permids[i] = ddMgr->perm[i];
+      invpermids[ddMgr->perm[i]] = i;
+    }
+  }
+
   /*
    *  Set supportids to incremental (shrinked) values following the ordering.
    */
diff --git a/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c b/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c
index b9e3459..e07127b 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c
@@ -328,8 +328,6 @@ DddmpCuddBddArrayStore (
     scan = support;
     while (!cuddIsConstant(scan)) {
       ids[scan->index] = scan->index;
-      permids[scan->index] = ddMgr->perm[scan->index];
-      invpermids[ddMgr->perm[scan->index]] = scan->index;
       scan = cuddT (scan);
     }
     Cudd_RecursiveDeref (ddMgr, support);
@@ -337,6 +335,14 @@ DddmpCuddBddArrayStore (
   /* so that we do not try to free it in case of failure */
   support = NULL;
 
+  /* computing the supports may have reordered the variables */
+  for (i=0; i<nVars; i++) {
+    if (ids[i] >= 0) {
+      permids[i] = ddMgr->perm[i];
+      invpermids[ddMgr->perm[i]] = i;
+    }
+  }
+
   /*
    *  Set supportids to incremental (shrinked) values following the ordering.
    */
-- 
2.43.0


From c5f605dcf67e2b0e4aaddc59631880d63843346f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:21 +0000
Subject: [PATCH 35/50] fix: composing variables while a binary diagram file is
 loaded mixed up the variables of nodes above collapsed ones

---
 lib/cudd-3.0.0/dddmp/dddmpLoad.c | 38 +++++++++++++++++---------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpLoad.c b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
index 4804ec1..4ff8412 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpLoad.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
@@ -988,6 +988,10 @@ DddmpCuddDdArrayLoad (
           pnodes[i] = Cudd_ReadOne (ddMgr);       
           Cudd_Ref (pnodes[i]);
           nLoaded = i;
+          if (pvars1byte != NULL)
+            pvars1byte[i] = (unsigned char) Hdr->nsuppvars;
+          else if (pvars2byte != NULL)
+            pvars2byte[i] = (unsigned short) Hdr->nsuppvars;
           continue; 
           break;
         case DDDMP_RELATIVE_1:
@@ -1043,32 +1047,30 @@ DddmpCuddDdArrayLoad (
       Dddmp_CheckAndGotoLabel (idT<=0 || idT>=i || idE<=0 || idE>=i,
         "Wrong child node id.", failure);
       T = pnodes[idT];
-      if (cuddIsConstant(T))
+      /* The stored variable: composition may have changed the node. */
+      if (pvars1byte != NULL)
+        vT = pvars1byte[idT];
+      else if (pvars2byte != NULL)
+        vT = pvars2byte[idT];
+      else if (cuddIsConstant(T))
         vT = Hdr->nsuppvars;
-      else {
-        if (pvars1byte != NULL)
-          vT = pvars1byte[idT];
-        else if (pvars2byte != NULL)
-          vT = pvars2byte[idT];
-        else
-          vT = invconvertids[T->index];
-      }
+      else
+        vT = invconvertids[T->index];
 #ifdef DDDMP_DEBUG
       Dddmp_Assert (vT>0, "vT > 0");
       Dddmp_Assert (vT<=Hdr->nsuppvars, "vT <= Hdr->nsuppvars");
 #endif
 
       E = pnodes[idE];
-      if (cuddIsConstant(E))
+      /* The stored variable: composition may have changed the node. */
+      if (pvars1byte != NULL)
+        vE = pvars1byte[idE];
+      else if (pvars2byte != NULL)
+        vE = pvars2byte[idE];
+      else if (cuddIsConstant(E))
         vE = Hdr->nsuppvars;
-      else {
-        if (pvars1byte != NULL)
-          vE = pvars1byte[idE];
-        else if (pvars2byte != NULL)
-          vE = pvars2byte[idE];
-        else
-          vE = invconvertids[E->index];
-      }
+      else
+        vE = invconvertids[E->index];
 #ifdef DDDMP_DEBUG
       Dddmp_Assert (vE>0, "vE > 0");
       Dddmp_Assert (vE<=Hdr->nsuppvars, "vE <= Hdr->nsuppvars");
-- 
2.43.0


From 84dcc93476f1d5bde350625e09cdad06e14fa7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:38 +0000
Subject: [PATCH 36/50] fix: a read error in the text of a diagram file could
 go unnoticed

---
 lib/cudd-3.0.0/dddmp/dddmpLoad.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpLoad.c b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
index 4ff8412..b86f1be 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpLoad.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
@@ -1141,6 +1141,7 @@ DddmpCuddDdArrayLoad (
   Dddmp_CheckAndGotoLabel (!retval, "Error on reading file tail.", failure);
   Dddmp_CheckAndGotoLabel (!matchkeywd(buf, ".end"),
     "Error .end not found.", failure);
+  Dddmp_CheckAndGotoLabel (ferror(fp), "Error reading the file.", failure);
 
   /* Close File IFF Necessary */
   if (fileToClose) {
-- 
2.43.0


From 34c3b6630eff48f435617badb263483e70f8fc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 37/50] fix: the structured specification translator rejected
 exclusive disjunctions

---
 tools/StructuredSlugsParser/compiler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/StructuredSlugsParser/compiler.py b/tools/StructuredSlugsParser/compiler.py
index e8d3f6b..4cef0b2 100755
--- a/tools/StructuredSlugsParser/compiler.py
+++ b/tools/StructuredSlugsParser/compiler.py
@@ -412,6 +412,11 @@ def parseSimpleFormula(tree, isPrimed):
         for a in tree[2:]:
             ret = ["|"]+ret+parseSimpleFormula(a,isPrimed)
         return ret
+    if (tree[0]=="Xor"):
+        ret = parseSimpleFormula(tree[1],isPrimed)
+        for a in tree[2:]:
+            ret = ["^"]+ret+parseSimpleFormula(a,isPrimed)
+        return ret
     if (tree[0]=="UnaryFormula"):
         if tree[1][0]=="NotOperator":
             return ["!"]+parseSimpleFormula(tree[2],isPrimed)
-- 
2.43.0


From bc83d952cf639cd87c918880445b92f53adcb41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:21 +0000
Subject: [PATCH 38/50] fix: the structured specification translator did not
 end for conditions on variables with a negative minimum

---
 tools/StructuredSlugsParser/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/StructuredSlugsParser/compiler.py b/tools/StructuredSlugsParser/compiler.py
index 4cef0b2..b03320b 100755
--- a/tools/StructuredSlugsParser/compiler.py
+++ b/tools/StructuredSlugsParser/compiler.py
@@ -272,6 +272,8 @@ def recurseCalculationSubformula(tree,memoryStructureParts, isPrimed):
     # Parse Numeral
     elif (tree[0]=="numeral"): 
         parameter = int(tree[1])
+        if parameter < 0:
+            raise Exception("Calculations with negative numbers are currently unsupported: "+tree[1])
         result = []
         while parameter != 0:
             if (parameter % 2)==1:
-- 
2.43.0


From e4e54f44f5c872a71448a0bd8d56db619bf61674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:09 +0000
Subject: [PATCH 39/50] fix: the structured specification translator passed on
 lines with a trailing negation

---
 tools/StructuredSlugsParser/compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/StructuredSlugsParser/compiler.py b/tools/StructuredSlugsParser/compiler.py
index b03320b..8a22c35 100755
--- a/tools/StructuredSlugsParser/compiler.py
+++ b/tools/StructuredSlugsParser/compiler.py
@@ -471,7 +471,8 @@ def isValidRecursiveSlugsProperty(tokens):
                 return (False,"Rejected part due to stack underflow")
             stacksize -= 1
         elif currentToken=="!":
-            pass
+            if stacksize<1:
+                return (False,"Rejected part due to stack underflow")
         elif currentToken=="1" or currentToken=="0":
             stacksize += 1
         else:
-- 
2.43.0


From 5afe01fd434353ffc83a28816ee380093f7a347c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:31 +0000
Subject: [PATCH 40/50] fix: groups of encoded-number propositions without a
 master proposition crashed the analyses

The master of such a group was read at index -1 (out of bounds). The
specification is now rejected with an error.
---
 src/extensionAbstractWinningTraceGenerator.hpp    | 3 +++
 src/extensionAnalyzeInitialPositions.hpp          | 3 +++
 src/extensionComputeInterestingRunOfTheSystem.hpp | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/extensionAbstractWinningTraceGenerator.hpp b/src/extensionAbstractWinningTraceGenerator.hpp
index 3ce3d66..2f6b7d5 100644
--- a/src/extensionAbstractWinningTraceGenerator.hpp
+++ b/src/extensionAbstractWinningTraceGenerator.hpp
@@ -474,6 +474,9 @@ public:
                 }
             }
         }
+        for (auto it=variableGroups.begin();it!=variableGroups.end();it++) {
+            if (it->second.masterVariable==(unsigned int)-1) throw std::string("Error: in the variable groups introduced by the structured slugs parser, a master variable is missing: ")+it->first;
+        }
 
         // Now the real work can be done.
         computeAbstractStrategyTrace(true);
diff --git a/src/extensionAnalyzeInitialPositions.hpp b/src/extensionAnalyzeInitialPositions.hpp
index 052e49e..ee2c172 100644
--- a/src/extensionAnalyzeInitialPositions.hpp
+++ b/src/extensionAnalyzeInitialPositions.hpp
@@ -115,6 +115,9 @@ protected:
                 varPointer++;
             }
         }
+        for (auto it=variableGroups.begin();it!=variableGroups.end();it++) {
+            if (it->second.masterVariable==(unsigned int)-1) throw std::string("Error: in the variable groups introduced by the structured slugs parser, a master variable is missing: ")+it->first;
+        }
 
         // Now enumerate cubes. Due to the fact that different binary
         // cubes could have a/the same interpretation with grouped variables,
diff --git a/src/extensionComputeInterestingRunOfTheSystem.hpp b/src/extensionComputeInterestingRunOfTheSystem.hpp
index f26e4af..ea5e551 100644
--- a/src/extensionComputeInterestingRunOfTheSystem.hpp
+++ b/src/extensionComputeInterestingRunOfTheSystem.hpp
@@ -212,6 +212,9 @@ public:
                 }
             }
         }
+        for (auto it=variableGroups.begin();it!=variableGroups.end();it++) {
+            if (it->second.masterVariable==(unsigned int)-1) throw std::string("Error: in the variable groups introduced by the structured slugs parser, a master variable is missing: ")+it->first;
+        }
 
         //===========================
         // Compute table for the run
-- 
2.43.0


From d33ae651211c05eeb4c53ea1d4a438360ff490f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:31 +0000
Subject: [PATCH 41/50] fix: a proposition whose name ends in '@' was left out
 of the output of the analyses

It was entered as a member of a group although it belongs to none.
---
 src/extensionAbstractWinningTraceGenerator.hpp    | 2 +-
 src/extensionAnalyzeInitialPositions.hpp          | 2 +-
 src/extensionComputeInterestingRunOfTheSystem.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/extensionAbstractWinningTraceGenerator.hpp b/src/extensionAbstractWinningTraceGenerator.hpp
index 2f6b7d5..44c306c 100644
--- a/src/extensionAbstractWinningTraceGenerator.hpp
+++ b/src/extensionAbstractWinningTraceGenerator.hpp
@@ -469,8 +469,8 @@ public:
                             if (is.fail()) throw std::string("Error parsing bound-encoded variable name ")+variableNames[i]+" (reason 4)";
                             if (number!=variableGroups[prefix].slaveVariables.size()) throw std::string("Error: in the variable groups introduced by the structured slugs parser, the slave variables are not in the right order: ")+variableNames[i];
                         }
+                        variablesInSomeGroup.insert(i);
                     }
-                    variablesInSomeGroup.insert(i);
                 }
             }
         }
diff --git a/src/extensionAnalyzeInitialPositions.hpp b/src/extensionAnalyzeInitialPositions.hpp
index ee2c172..67db541 100644
--- a/src/extensionAnalyzeInitialPositions.hpp
+++ b/src/extensionAnalyzeInitialPositions.hpp
@@ -108,8 +108,8 @@ protected:
                             if (is.fail()) throw std::string("Error parsing bound-encoded variable name ")+variableNames[i]+" (reason 4)";
                             if (number!=variableGroups[prefix].slaveVariables.size()) throw std::string("Error: in the variable groups introduced by the structured slugs parser, the slave variables are not in the right order: ")+variableNames[i];
                         }
+                        variablesInSomeGroup.insert(i);
                     }
-                    variablesInSomeGroup.insert(i);
                 }
                 assert(variables[i]==preVars[varPointer]);
                 varPointer++;
diff --git a/src/extensionComputeInterestingRunOfTheSystem.hpp b/src/extensionComputeInterestingRunOfTheSystem.hpp
index ea5e551..b8fb9af 100644
--- a/src/extensionComputeInterestingRunOfTheSystem.hpp
+++ b/src/extensionComputeInterestingRunOfTheSystem.hpp
@@ -207,8 +207,8 @@ public:
                             if (is.fail()) throw std::string("Error parsing bound-encoded variable name ")+variableNames[i]+" (reason 4)";
                             if (number!=variableGroups[prefix].slaveVariables.size()) throw std::string("Error: in the variable groups introduced by the structured slugs parser, the slave variables are not in the right order: ")+variableNames[i];
                         }
+                        variablesInSomeGroup.insert(i);
                     }
-                    variablesInSomeGroup.insert(i);
                 }
             }
         }
-- 
2.43.0


From fbba7ce9c535b80e5d89bf7b636c38657f340631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:49 +0000
Subject: [PATCH 42/50] fix: a variable reordering while a belief space
 abstraction is printed could change the printed formulas

Parts of the formula were looked up by the addresses of BDD nodes that were no longer in use.
---
 ...ensionIncompleteInformationEstimatorSynthesis.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/extensionIncompleteInformationEstimatorSynthesis.hpp b/src/extensionIncompleteInformationEstimatorSynthesis.hpp
index 865eafc..b5d7ef2 100644
--- a/src/extensionIncompleteInformationEstimatorSynthesis.hpp
+++ b/src/extensionIncompleteInformationEstimatorSynthesis.hpp
@@ -159,12 +159,15 @@ protected:
     //===========================================
     std::map<int,int> varIndicesByNodeIndex;
 
-    int recursePrintBFAsSlugsExpression(BF bf,std::map<size_t,int> &nodes,std::vector<std::string> &parts) {
+    int recursePrintBFAsSlugsExpression(BF bf,std::map<size_t,int> &nodes,std::vector<BF> &numberedNodes,std::vector<std::string> &parts) {
 
         std::map<size_t,int>::iterator it = nodes.find(bf.getHashCode());
         if (it!=nodes.end()) {
             return it->second;
         } else {
+            // Hash codes only identify BFs that are still in use (a cofactor need not be
+            // a part of the whole BF any more after a variable reordering)
+            numberedNodes.push_back(bf);
             if (bf.isFalse()) {
                 parts.push_back("0");
                 nodes[bf.getHashCode()] = parts.size()-1;
@@ -178,8 +181,8 @@ protected:
                 int varNumber = varIndicesByNodeIndex.at(bf.readNodeIndex());
                 BF trueSucc = (bf & variables[varNumber]).ExistAbstractSingleVar(variables[varNumber]);
                 BF falseSucc = (bf & !variables[varNumber]).ExistAbstractSingleVar(variables[varNumber]);
-                int qTrue = recursePrintBFAsSlugsExpression(trueSucc,nodes,parts);
-                int qFalse = recursePrintBFAsSlugsExpression(falseSucc,nodes,parts);
+                int qTrue = recursePrintBFAsSlugsExpression(trueSucc,nodes,numberedNodes,parts);
+                int qFalse = recursePrintBFAsSlugsExpression(falseSucc,nodes,numberedNodes,parts);
                 std::ostringstream os;
                 os << "| & " << variableNames[varNumber] << " ? " << qTrue << " & ! " << variableNames[varNumber] << " ? " << qFalse;
                 parts.push_back(os.str());
@@ -198,10 +201,11 @@ protected:
 
         // Allocate Node counters
         std::map<size_t,int> nodes;
+        std::vector<BF> numberedNodes;
         std::vector<std::string> parts;
 
         // Recurse
-        int part = recursePrintBFAsSlugsExpression(bf,nodes,parts);
+        int part = recursePrintBFAsSlugsExpression(bf,nodes,numberedNodes,parts);
 
         // Dummy instruction for the case that the following "assert" stateent is not executed
         (void)part;
-- 
2.43.0


From 23873abb1c2fa6ce32cd973085adcafeb287fc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:45 +0000
Subject: [PATCH 43/50] fix: an encoded number with missing propositions
 crashed the estimator computation

The missing proposition was looked up at index -1. It is now reported as an error.
---
 src/extensionIncompleteInformationEstimatorSynthesis.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/extensionIncompleteInformationEstimatorSynthesis.hpp b/src/extensionIncompleteInformationEstimatorSynthesis.hpp
index b5d7ef2..420434c 100644
--- a/src/extensionIncompleteInformationEstimatorSynthesis.hpp
+++ b/src/extensionIncompleteInformationEstimatorSynthesis.hpp
@@ -473,7 +473,9 @@ protected:
                                         std::ostringstream varName;
                                         varName << referenceVarPrefix << "@" << i;
                                         if (doesVariableInheritType(referenceVar,Post)) varName << "'";
-                                        BF thisVar = variables[findVariableNumber(varName.str())];
+                                        int thisVarNumber = findVariableNumber(varName.str());
+                                        if (thisVarNumber==-1) throw std::string("Error: A proposition of an encoded number is missing: ")+varName.str();
+                                        BF thisVar = variables[thisVarNumber];
                                         if ((normalizedValue & (1 << i))>0) {
                                             bfReference &= thisVar;
                                         } else {
@@ -500,7 +502,9 @@ protected:
                                             std::ostringstream varName;
                                             varName << simulatedVarPrefix << "@" << i;
                                             if (doesVariableInheritType(simulatedVar,Post)) varName << "'";
-                                            BF thisVar = variables[findVariableNumber(varName.str())];
+                                            int thisVarNumber = findVariableNumber(varName.str());
+                                            if (thisVarNumber==-1) throw std::string("Error: A proposition of an encoded number is missing: ")+varName.str();
+                                            BF thisVar = variables[thisVarNumber];
                                             if ((normalizedValue & (1 << i))>0) {
                                                 bfSimulated &= thisVar;
                                             } else {
-- 
2.43.0


From b61010c2656b1b6e278aec323439063933686faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:42 +0000
Subject: [PATCH 44/50] fix: factored forms written to a file had an opening
 instead of a closing parenthesis after an else branch

---
 lib/cudd-3.0.0/cudd/cuddExport.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddExport.c b/lib/cudd-3.0.0/cudd/cuddExport.c
index 4107b2d..621b3c6 100644
--- a/lib/cudd-3.0.0/cudd/cuddExport.c
+++ b/lib/cudd-3.0.0/cudd/cuddExport.c
@@ -1384,7 +1384,7 @@ ddDoDumpFactoredForm(
 	if (retval == EOF) return(0);
 	retval = ddDoDumpFactoredForm(dd,E,fp,names);
 	if (retval != 1) return(retval);
-	retval = fprintf(fp, "%s", Cudd_bddIsVar(dd, E) ? "" : "(");
+	retval = fprintf(fp, "%s", Cudd_bddIsVar(dd, E) ? "" : ")");
 	if (retval == EOF) return(0);
     }
     return(1);
-- 
2.43.0


From 1176e2bd5df99cc7cf58dc181e2895d2d167f152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:42 +0000
Subject: [PATCH 45/50] fix: Cudd_CofMinterm read past the end of an array for
 constant functions

---
 lib/cudd-3.0.0/cudd/cuddSign.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddSign.c b/lib/cudd-3.0.0/cudd/cuddSign.c
index e2d50f8..63ffb2a 100644
--- a/lib/cudd-3.0.0/cudd/cuddSign.c
+++ b/lib/cudd-3.0.0/cudd/cuddSign.c
@@ -127,7 +127,7 @@ Cudd_CofMinterm(
 	result = ALLOC(double,size + 1);
 	if (result != NULL) {
 	    if (Cudd_IsConstantInt(node))
-		firstLevel = 1;
+		firstLevel = size;
 	    else
 		firstLevel = cuddI(dd,Cudd_Regular(node)->index);
 	    for (i = 0; i < size; i++) {
-- 
2.43.0


From 9354a91d747e8c3594ec29ac00c79c25f0a73f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:51 +0000
Subject: [PATCH 46/50] fix: the converter of strategies to GraphViz ended with
 an exception for a state without successors

---
 tools/explicitStrategyToGraphviz.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/explicitStrategyToGraphviz.py b/tools/explicitStrategyToGraphviz.py
index 29f59e2..08b9556 100755
--- a/tools/explicitStrategyToGraphviz.py
+++ b/tools/explicitStrategyToGraphviz.py
@@ -32,9 +32,9 @@ for line in sys.stdin.readlines():
     propositions = thesePropositions
     
     states[stateNo] = (rank,theseValues)
-  if line.strip().startswith("With successors : "):
-    successors = line.strip()[18:]
-    successors = [a.strip() for a in successors.split(",")]
+  if line.strip().startswith("With successors :"):
+    successors = line.strip()[17:]
+    successors = [a.strip() for a in successors.split(",") if a.strip()!=""]
     transitions[stateNo] = successors
 
 # Empty output
-- 
2.43.0


From f966b0105d3adc6ab54e8fe93b53e9acfa7c1e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:59 +0000
Subject: [PATCH 47/50] fix: keep the first cofactor alive while the second one
 is computed in cuddZddGetCofactors2

---
 lib/cudd-3.0.0/cudd/cuddZddFuncs.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/cudd-3.0.0/cudd/cuddZddFuncs.c b/lib/cudd-3.0.0/cudd/cuddZddFuncs.c
index 5f6d63c..6cf20cd 100644
--- a/lib/cudd-3.0.0/cudd/cuddZddFuncs.c
+++ b/lib/cudd-3.0.0/cudd/cuddZddFuncs.c
@@ -1444,11 +1444,13 @@ cuddZddGetCofactors2(
     *f1 = cuddZddSubset1(dd, f, v);
     if (*f1 == NULL)
 	return(1);
+    Cudd_Ref(*f1);
     *f0 = cuddZddSubset0(dd, f, v);
     if (*f0 == NULL) {
 	Cudd_RecursiveDerefZdd(dd, *f1);
 	return(1);
     }
+    Cudd_Deref(*f1);
     return(0);
 
 } /* end of cuddZddGetCofactors2 */
-- 
2.43.0


From a88486129dad31db96be72aa2a14326638c431bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:59 +0000
Subject: [PATCH 48/50] fix: do not reorder inside the recursion of
 Cudd_addOuterSum, and check for failures

---
 lib/cudd-3.0.0/cudd/cuddMatMult.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddMatMult.c b/lib/cudd-3.0.0/cudd/cuddMatMult.c
index 2b1e547..c1ceb36 100644
--- a/lib/cudd-3.0.0/cudd/cuddMatMult.c
+++ b/lib/cudd-3.0.0/cudd/cuddMatMult.c
@@ -633,6 +633,7 @@ cuddAddOuterSumRecur(
 
     if (cuddIsConstant(c) && cuddIsConstant(r)) {
 	R = cuddUniqueConst(dd,Cudd_V(c)+Cudd_V(r));
+	if (R == NULL) return(NULL);
 	cuddRef(R);
 	if (cuddIsConstant(M)) {
 	    if (cuddV(R) <= cuddV(M)) {
@@ -643,7 +644,11 @@ cuddAddOuterSumRecur(
 		return(M);
 	    }
 	} else {
-	    P = Cudd_addApply(dd,Cudd_addMinimum,R,M);
+	    P = cuddAddApplyRecur(dd,Cudd_addMinimum,R,M);
+	    if (P == NULL) {
+		Cudd_RecursiveDeref(dd,R);
+		return(NULL);
+	    }
 	    cuddRef(P);
 	    Cudd_RecursiveDeref(dd,R);
 	    cuddDeref(P);
-- 
2.43.0


From 1f4d93283b22eab18224f926d9c580d8df6aef97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:21 +0000
Subject: [PATCH 49/50] fix: do not lose a reference when an intersection
 inside a division of sets fails or is interrupted by a reordering

---
 lib/cudd-3.0.0/cudd/cuddZddFuncs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/cudd-3.0.0/cudd/cuddZddFuncs.c b/lib/cudd-3.0.0/cudd/cuddZddFuncs.c
index 6cf20cd..94e469b 100644
--- a/lib/cudd-3.0.0/cudd/cuddZddFuncs.c
+++ b/lib/cudd-3.0.0/cudd/cuddZddFuncs.c
@@ -1170,6 +1170,7 @@ cuddZddDivide(
 	    Cudd_RecursiveDerefZdd(dd, f0);
 	    Cudd_RecursiveDerefZdd(dd, g1);
 	    Cudd_RecursiveDerefZdd(dd, g0);
+	    Cudd_RecursiveDerefZdd(dd, tmp);
 	    return(NULL);
 	}
 	Cudd_Ref(q);
@@ -1180,6 +1181,7 @@ cuddZddDivide(
 	    Cudd_RecursiveDerefZdd(dd, g1);
 	    Cudd_RecursiveDerefZdd(dd, g0);
 	    Cudd_RecursiveDerefZdd(dd, q);
+	    Cudd_RecursiveDerefZdd(dd, tmp);
 	    return(NULL);
 	}
 	Cudd_Ref(r);
@@ -1267,6 +1269,7 @@ cuddZddDivideF(
 	    Cudd_RecursiveDerefZdd(dd, f0);
 	    Cudd_RecursiveDerefZdd(dd, g1);
 	    Cudd_RecursiveDerefZdd(dd, g0);
+	    Cudd_RecursiveDerefZdd(dd, tmp);
 	    return(NULL);
 	}
 	Cudd_Ref(q);
@@ -1277,6 +1280,7 @@ cuddZddDivideF(
 	    Cudd_RecursiveDerefZdd(dd, g1);
 	    Cudd_RecursiveDerefZdd(dd, g0);
 	    Cudd_RecursiveDerefZdd(dd, q);
+	    Cudd_RecursiveDerefZdd(dd, tmp);
 	    return(NULL);
 	}
 	Cudd_Ref(r);
-- 
2.43.0


From b2d138ad5c897a85106576f9c526283e7f7ff603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:43 +0000
Subject: [PATCH 50/50] fix: keep the partial quotient alive while the
 remaining quotients are computed in cuddZddWeakDiv and cuddZddWeakDivF

---
 lib/cudd-3.0.0/cudd/cuddZddFuncs.c | 66 +++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 24 deletions(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddZddFuncs.c b/lib/cudd-3.0.0/cudd/cuddZddFuncs.c
index 94e469b..771928d 100644
--- a/lib/cudd-3.0.0/cudd/cuddZddFuncs.c
+++ b/lib/cudd-3.0.0/cudd/cuddZddFuncs.c
@@ -794,29 +794,34 @@ cuddZddWeakDiv(
     }
 
     if (g1 != zero) {
-	Cudd_RecursiveDerefZdd(dd, q);
 	tmp = cuddZddWeakDiv(dd, f1, g1);
 	if (tmp == NULL) {
 	    Cudd_RecursiveDerefZdd(dd, f1);
 	    Cudd_RecursiveDerefZdd(dd, g1);
 	    Cudd_RecursiveDerefZdd(dd, fd);
 	    Cudd_RecursiveDerefZdd(dd, gd);
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    return(NULL);
 	}
 	Cudd_Ref(tmp);
 	Cudd_RecursiveDerefZdd(dd, f1);
 	Cudd_RecursiveDerefZdd(dd, g1);
-	if (q == g)
+	if (q == g) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    q = tmp;
-	else {
-	    q = cuddZddIntersect(dd, q, tmp);
-	    if (q == NULL) {
+	} else {
+	    r = cuddZddIntersect(dd, q, tmp);
+	    if (r == NULL) {
 		Cudd_RecursiveDerefZdd(dd, fd);
 		Cudd_RecursiveDerefZdd(dd, gd);
+		Cudd_RecursiveDerefZdd(dd, q);
+		Cudd_RecursiveDerefZdd(dd, tmp);
 		return(NULL);
 	    }
-	    Cudd_Ref(q);
+	    Cudd_Ref(r);
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, tmp);
+	    q = r;
 	}
     }
     else {
@@ -833,26 +838,30 @@ cuddZddWeakDiv(
     }
 
     if (gd != zero) {
-	Cudd_RecursiveDerefZdd(dd, q);
 	tmp = cuddZddWeakDiv(dd, fd, gd);
 	if (tmp == NULL) {
 	    Cudd_RecursiveDerefZdd(dd, fd);
 	    Cudd_RecursiveDerefZdd(dd, gd);
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    return(NULL);
 	}
 	Cudd_Ref(tmp);
 	Cudd_RecursiveDerefZdd(dd, fd);
 	Cudd_RecursiveDerefZdd(dd, gd);
-	if (q == g)
+	if (q == g) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    q = tmp;
-	else {
-	    q = cuddZddIntersect(dd, q, tmp);
-	    if (q == NULL) {
+	} else {
+	    r = cuddZddIntersect(dd, q, tmp);
+	    if (r == NULL) {
+		Cudd_RecursiveDerefZdd(dd, q);
 		Cudd_RecursiveDerefZdd(dd, tmp);
 		return(NULL);
 	    }
-	    Cudd_Ref(q);
+	    Cudd_Ref(r);
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, tmp);
+	    q = r;
 	}
     }
     else {
@@ -1029,29 +1038,34 @@ cuddZddWeakDivF(
     }
 
     if (g1 != zero) {
-	Cudd_RecursiveDerefZdd(dd, q);
 	tmp = cuddZddWeakDivF(dd, f1, g1);
 	if (tmp == NULL) {
 	    Cudd_RecursiveDerefZdd(dd, f1);
 	    Cudd_RecursiveDerefZdd(dd, g1);
 	    Cudd_RecursiveDerefZdd(dd, fd);
 	    Cudd_RecursiveDerefZdd(dd, gd);
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    return(NULL);
 	}
 	Cudd_Ref(tmp);
 	Cudd_RecursiveDerefZdd(dd, f1);
 	Cudd_RecursiveDerefZdd(dd, g1);
-	if (q == g)
+	if (q == g) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    q = tmp;
-	else {
-	    q = cuddZddIntersect(dd, q, tmp);
-	    if (q == NULL) {
+	} else {
+	    r = cuddZddIntersect(dd, q, tmp);
+	    if (r == NULL) {
 		Cudd_RecursiveDerefZdd(dd, fd);
 		Cudd_RecursiveDerefZdd(dd, gd);
+		Cudd_RecursiveDerefZdd(dd, q);
+		Cudd_RecursiveDerefZdd(dd, tmp);
 		return(NULL);
 	    }
-	    Cudd_Ref(q);
+	    Cudd_Ref(r);
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, tmp);
+	    q = r;
 	}
     }
     else {
@@ -1068,26 +1082,30 @@ cuddZddWeakDivF(
     }
 
     if (gd != zero) {
-	Cudd_RecursiveDerefZdd(dd, q);
 	tmp = cuddZddWeakDivF(dd, fd, gd);
 	if (tmp == NULL) {
 	    Cudd_RecursiveDerefZdd(dd, fd);
 	    Cudd_RecursiveDerefZdd(dd, gd);
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    return(NULL);
 	}
 	Cudd_Ref(tmp);
 	Cudd_RecursiveDerefZdd(dd, fd);
 	Cudd_RecursiveDerefZdd(dd, gd);
-	if (q == g)
+	if (q == g) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    q = tmp;
-	else {
-	    q = cuddZddIntersect(dd, q, tmp);
-	    if (q == NULL) {
+	} else {
+	    r = cuddZddIntersect(dd, q, tmp);
+	    if (r == NULL) {
+		Cudd_RecursiveDerefZdd(dd, q);
 		Cudd_RecursiveDerefZdd(dd, tmp);
 		return(NULL);
 	    }
-	    Cudd_Ref(q);
+	    Cudd_Ref(r);
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, tmp);
+	    q = r;
 	}
     }
     else {
-- 
2.43.0

