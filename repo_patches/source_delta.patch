From 1cde9756d4c48f1adc48cc8b704a5e9ed2bc1bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:02 +0000
Subject: [PATCH 01/66] fix: scale an imposed displacement once, not once per
 imposed component

---
 Abstract/Loading.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index 580e093..5716471 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -271,10 +271,7 @@ double ImposedDisplacement::getDoubleForDOF(const DOF& dof) const {
 }
 
 void ImposedDisplacement::scale(const double factor) {
-    for(DOF dof : DOFS::ALL_DOFS) {
-        if (not is_equal(displacements[dof.position], Globals::UNAVAILABLE_DOUBLE))
-            displacements *= factor;
-    }
+    displacements *= factor; // leaves the unavailable components alone
 }
 
 NodalForce::NodalForce(Model& model, const std::shared_ptr<LoadSet> loadset, const VectorialValue& force,
-- 
2.43.0


From 6e6cd6db3018475a0306a141eba8d7ed03b39479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:02 +0000
Subject: [PATCH 02/66] fix: scaling a set of values replaces them instead of
 adding scaled copies

---
 Abstract/Value.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Abstract/Value.h b/Abstract/Value.h
index 45a3adc..fba96e6 100644
--- a/Abstract/Value.h
+++ b/Abstract/Value.h
@@ -177,7 +177,9 @@ public:
         return aset.empty();
     }
     void scale(double factor) override {
-        std::transform(aset.begin(), aset.end(), std::inserter(aset, aset.begin()), [factor](T d) -> T { return static_cast<T>(d * factor); });
+        std::set<T> scaledSet;
+        std::transform(aset.begin(), aset.end(), std::inserter(scaledSet, scaledSet.begin()), [factor](T d) -> T { return static_cast<T>(d * factor); });
+        aset.swap(scaledSet);
     }
     bool iszero() const override {
         return aset.empty();
-- 
2.43.0


From a4ede2dbafd08397238525c86ecb7720055e521c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:50 +0000
Subject: [PATCH 03/66] fix: write the reference node of an RBE3 with its own
 id

The node position of the master was converted to a node id twice, so the card referred to another node (or an unknown one) and the degrees of freedom of another node.
---
 Nastran/NastranWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 0e16330..d9e9261 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -476,7 +476,7 @@ void NastranWriter::writeConstraints(const Model& model, ofstream& out) const
             Line rbe3("RBE3");
             rbe3.add(rbe3Constraint->bestId());
             rbe3.add();
-            const int masterPosition = model.mesh.findNodeId(rbe3Constraint->getMaster());
+            const auto masterPosition = rbe3Constraint->getMaster();
             rbe3.add(model.mesh.findNodeId(masterPosition));
             rbe3.add(rbe3Constraint->getDOFSForNode(masterPosition));
             for (const auto slavePosition : rbe3Constraint->getSlaves()) {
-- 
2.43.0


From 887c52a395c7b00f9d71575850ef3d4fe15afcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:50 +0000
Subject: [PATCH 04/66] fix: give each RBE2 written for a quasi rigid
 constraint its own id

All of them took the id of their constraint set, hence the same element id for several elements.
---
 Nastran/NastranWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index d9e9261..a608a4c 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -456,7 +456,7 @@ void NastranWriter::writeConstraints(const Model& model, ofstream& out) const
                 out << rbar;
             } else {
                 Line rbe2("RBE2");
-                rbe2.add(constraintSet->bestId());
+                rbe2.add(quasiRigid->bestId());
                 const int masterId = model.mesh.findNodeId(quasiRigid->getMaster());
                 rbe2.add(masterId);
                 rbe2.add(quasiRigid->getDOFS());
-- 
2.43.0


From e8de028a564881ae046bf9b66260b00005f24b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:22 +0000
Subject: [PATCH 05/66] fix: traverse the materials of an element set in the
 order of their references

They were ordered by their address, so the order of the written assignments changed from run to run.
---
 Abstract/Element.cpp | 4 ++--
 Abstract/Element.h   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index e8a46b3..2e6d81d 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -93,8 +93,8 @@ void CellElementSet::unassignMaterial(const shared_ptr<Material>& material) {
     materialRefs.erase(material->getReference());
 }
 
-set<shared_ptr<Material>> ElementSet::getMaterials() const {
-    set<shared_ptr<Material>> materials;
+set<shared_ptr<Material>, ptrLess<Material>> ElementSet::getMaterials() const {
+    set<shared_ptr<Material>, ptrLess<Material>> materials;
     for (const auto& materialRef : materialRefs) {
         materials.insert(this->model.materials.find(materialRef));
     }
diff --git a/Abstract/Element.h b/Abstract/Element.h
index 0f286c5..1b8d679 100644
--- a/Abstract/Element.h
+++ b/Abstract/Element.h
@@ -79,7 +79,7 @@ public:
     const ModelType& modelType;
 
     ModelType getModelType() const;
-    std::set<std::shared_ptr<Material>> getMaterials() const;
+    std::set<std::shared_ptr<Material>, ptrLess<Material>> getMaterials() const;
     std::shared_ptr<Material> mainMaterial() const;
     bool hasMaterials() const;
     virtual bool validate() const override;
-- 
2.43.0


From f174c8355050f07c3fdc3ce774ab07a93580daae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:43 +0000
Subject: [PATCH 06/66] fix: write the PROD card of a truss

The address of the truss was written in place of the card.
---
 Nastran/NastranWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index a608a4c..bed31f8 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -795,7 +795,7 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 		prod.add(truss->mainMaterial()->bestId());
 		prod.add(truss->getAreaCrossSection());
 		prod.add(truss->getTorsionalConstant());
-		out << truss;
+		out << prod;
 		truss->markAsWritten();
 	}
 	for (const auto& beam : model.getBeams()) {
-- 
2.43.0


From d3481898993740a01d9aa0870b6513691c019b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:43 +0000
Subject: [PATCH 07/66] fix: name the origin of generated groups by the entity,
 not by its address

The comment of the groups created for added masses, displayed constraints and replaced matrices changed from run to run.
---
 Abstract/Model.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index e3eb356..2b7708d 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -920,7 +920,7 @@ void Model::emulateAdditionalMass() {
             cellElementSet->assignMaterial(newMaterial);
             // copy and assign new cellGroup
             ostringstream oss;
-            oss << "created by emulateAdditionalMass() because of elementSet: " << elementSet << " additional rho:" << rho;
+            oss << "created by emulateAdditionalMass() because of elementSet: " << *elementSet << " additional rho:" << rho;
             const auto& newCellGroup = mesh.createCellGroup(
                     "VAM_" + to_string(newElementSets.size()), Group::NO_ORIGINAL_ID, oss.str());
             const auto& cellContainer = dynamic_pointer_cast<CellContainer>(elementSet);
@@ -955,7 +955,7 @@ void Model::generateBeamsToDisplayMasterSlaveConstraint() {
                         virtualBeam->assignMaterial(getVirtualMaterial());
                     }
                     ostringstream oss;
-                    oss << "created by generateBeamsToDisplayMasterSlaveConstraint() because of rigid constraint: " << constraint;
+                    oss << "created by generateBeamsToDisplayMasterSlaveConstraint() because of rigid constraint: " << *constraint;
                     virtualGroupRigid = mesh.createCellGroup("VRigid", Group::NO_ORIGINAL_ID, oss.str());
                     virtualBeam->add(*virtualGroupRigid);
                     this->add(virtualBeam);
@@ -979,7 +979,7 @@ void Model::generateBeamsToDisplayMasterSlaveConstraint() {
                         virtualBeam->assignMaterial(getVirtualMaterial());
                     }
                     ostringstream oss;
-                    oss << "created by generateBeamsToDisplayMasterSlaveConstraint() because of rbe3 constraint: " << constraint;
+                    oss << "created by generateBeamsToDisplayMasterSlaveConstraint() because of rbe3 constraint: " << *constraint;
                     virtualGroupRBE3 = mesh.createCellGroup("VRBE3", Group::NO_ORIGINAL_ID, oss.str());
                     virtualBeam->add(*virtualGroupRBE3);
                     this->add(virtualBeam);
@@ -1238,7 +1238,7 @@ void Model::replaceDirectMatrices()
                 }
                 matrix_count++;
                 ostringstream oss;
-                oss << "created by replaceDirectMatrices() because of matrix element on same node: " << matrix;
+                oss << "created by replaceDirectMatrices() because of matrix element on same node: " << *matrix;
                 const auto& matrixGroup = mesh.createCellGroup(
                         "MTN" + to_string(matrix_count), Group::NO_ORIGINAL_ID, oss.str());
                 discrete->add(*matrixGroup);
@@ -1267,7 +1267,7 @@ void Model::replaceDirectMatrices()
 
                 const auto& discrete = make_shared<DiscreteSegment>(*this, matrix->matrixType);
                 ostringstream oss;
-                oss << "created by replaceDirectMatrices() because of matrix element on node couple: " << matrix;
+                oss << "created by replaceDirectMatrices() because of matrix element on node couple: " << *matrix;
                 const auto& matrixGroup = mesh.createCellGroup(
                         "MTL" + to_string(matrix_count), Group::NO_ORIGINAL_ID, oss.str());
                 matrix_count++;
-- 
2.43.0


From 80c241c2ba47d5cce956102551816a77a35cb398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:18 +0000
Subject: [PATCH 08/66] fix: give the Systus modal search defaults when its
 type is not supported

In the best effort mode, the frequencies and the number of modes were written without having been given a value.
---
 Systus/SystusDat.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Systus/SystusDat.cpp b/Systus/SystusDat.cpp
index a92d28f..4f9186c 100644
--- a/Systus/SystusDat.cpp
+++ b/Systus/SystusDat.cpp
@@ -100,9 +100,9 @@ int SystusWriter::writeLinearModalAnalysis(ostream& out, const SystusModel& syst
 
     // Parameters of the analysis
     const auto& frequencySearch = linearModal->getFrequencySearch();
-    double upperF;
-    double lowerF;
-    int nmodes;
+    double upperF = vega::Globals::UNAVAILABLE_DOUBLE;
+    double lowerF = vega::Globals::UNAVAILABLE_DOUBLE;
+    int nmodes = defaultNbDesiredRoots;
     switch(frequencySearch->frequencyType) {
     case FrequencySearch::FrequencyType::BAND: {
       const auto& band = static_pointer_cast<BandRange>(frequencySearch->getValue());
-- 
2.43.0


From 0eea98a69871e529b0e382f2791abdeb775d7148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:18 +0000
Subject: [PATCH 09/66] fix: report a Systus run without any DAT file as a
 failure

The exit code was not set when there was nothing to run.
---
 Systus/SystusRunner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Systus/SystusRunner.cpp b/Systus/SystusRunner.cpp
index 9950680..fe1342a 100644
--- a/Systus/SystusRunner.cpp
+++ b/Systus/SystusRunner.cpp
@@ -62,7 +62,7 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
         }
     }
 
-    ExitCode exitCode;
+    ExitCode exitCode = Runner::ExitCode::SOLVER_RESULT_NOT_FOUND;
     if (configuration.systusOutputProduct=="systus") {
         string command = "systus -batch -exec " + modelFile + " > " + fname + ".stdout 2> " + fname
                 + ".stderr";
-- 
2.43.0


From f0dce93aef0c430fcd8288fbf2d10d816ad46a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:18 +0000
Subject: [PATCH 10/66] fix: give an offset to the cells which are not shells

Mesh::findCell copied an unset value for them.
---
 Abstract/Mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Mesh.cpp b/Abstract/Mesh.cpp
index 07de406..bcbf0c2 100644
--- a/Abstract/Mesh.cpp
+++ b/Abstract/Mesh.cpp
@@ -525,7 +525,7 @@ Cell Mesh::findCell(const pos_t cellPosition) const {
 	if (cellData.csPos!=CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID)
         ocs = static_pointer_cast<OrientationCoordinateSystem>(coordinateSystemStorage.findByPosition(cellData.csPos));
 
-    double offset;
+    double offset = 0;
     switch (cellType->dimension.code) {
     case SpaceDimension::Code::DIMENSION0D_CODE: {
         const auto& additional0Ddata = cells.additional0DdataByCelltype.at(*cellType)[cellData.cellTypePosition];
-- 
2.43.0


From 6acfcc59379f061fd6375d355ed1e023b590055d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:27 +0000
Subject: [PATCH 11/66] fix: refuse to run a solver which has no runner

The error was printed, then the missing runner was used all the same.
---
 Commandline/VegaCommandLine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Commandline/VegaCommandLine.cpp b/Commandline/VegaCommandLine.cpp
index cd846de..243cd49 100644
--- a/Commandline/VegaCommandLine.cpp
+++ b/Commandline/VegaCommandLine.cpp
@@ -425,7 +425,7 @@ VegaCommandLine::ExitCode VegaCommandLine::runSolver(const ConfigurationParamete
     const auto& runnerIterator = runnerBySolverType.find(configuration.outputSolver.getSolverName());
     if (runnerIterator == runnerBySolverType.end()) {
         cerr << "Output runner " << configuration.outputSolver << "not supported." << endl;
-        result = ExitCode::INVALID_COMMAND_LINE;
+        return ExitCode::INVALID_COMMAND_LINE;
     }
     //Little hack: return codes are the same.
     result = static_cast<VegaCommandLine::ExitCode>(runnerIterator->second->execSolver(configuration, modelFile));
-- 
2.43.0


From 79fa363ee8114a88951def177fdf41851aa5d231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:27 +0000
Subject: [PATCH 12/66] fix: compare a zero component of a matrix with a
 missing one

The component which was not found in the other matrix was read all the same.
---
 Abstract/Dof.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Dof.cpp b/Abstract/Dof.cpp
index 80084b2..9b0a14b 100644
--- a/Abstract/Dof.cpp
+++ b/Abstract/Dof.cpp
@@ -457,7 +457,7 @@ bool DOFMatrix::isEqual(const DOFMatrix& other) const noexcept {
         if (otherit == other.componentByDofs.end() and not is_zero(entry.second)) {
             return false;
         }
-        if (not is_equal(entry.second, otherit->second)) {
+        if (otherit != other.componentByDofs.end() and not is_equal(entry.second, otherit->second)) {
             return false;
         }
     }
-- 
2.43.0


From 77553003b6decb962bf18e33751f66417cb69501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:27 +0000
Subject: [PATCH 13/66] fix: compute the statistics of a mesh with a cell type
 of coincident nodes only

The smallest of an empty list of distances was read.
---
 Abstract/Mesh.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Abstract/Mesh.cpp b/Abstract/Mesh.cpp
index bcbf0c2..4f58125 100644
--- a/Abstract/Mesh.cpp
+++ b/Abstract/Mesh.cpp
@@ -895,7 +895,8 @@ MeshStatistics Mesh::calcStats() {
         squareDistances.erase(remove_if(squareDistances.begin(), squareDistances.end(), [](double x){return is_zero(x);}), squareDistances.end());
         const auto mmnz = min_element(squareDistances.begin(), squareDistances.end());
         double sum = accumulate( squareDistances.begin(), squareDistances.end(), 0.0);
-        minSquareDistanceNonZero = min(minSquareDistanceNonZero, *mmnz);
+        if (mmnz != squareDistances.end())
+            minSquareDistanceNonZero = min(minSquareDistanceNonZero, *mmnz);
         sumSquareDistance += sum;
         countSquareDistance += squareDistances.size();
         squareDistances.clear();
-- 
2.43.0


From e3f28bb0d7e4eb90f4bb4bfcc395caa0b0db6c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:27 +0000
Subject: [PATCH 14/66] fix: report a SUBCOM without a SUBSEQ

The missing command was read all the same.
---
 Nastran/NastranParser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index fa2ccab..2cbc0ee 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -995,6 +995,10 @@ void NastranParser::addCombinationAnalysis(NastranTokenizer& tok, Model& model,
 
     // A SUBSEQ command must follow this command.
     const auto& subseq = context.find("SUBSEQ");
+    if (subseq == context.end()) {
+        handleParsingError("SUBCOM without a SUBSEQ command", tok, model);
+        return;
+    }
     vector<string> coefStrings(model.analyses.size());
     boost::split(coefStrings,subseq->second,boost::is_any_of(","));
     for (size_t i = 0; i < coefStrings.size(); i++) {
-- 
2.43.0


From b38495fd1bd179a09df8fcccf4442d80b5869c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:27 +0000
Subject: [PATCH 15/66] fix: combine every subcase of a SUBSEQ

The index was incremented twice for each coefficient, so every second subcase was left out of the combination.
---
 Nastran/NastranParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 2cbc0ee..2d7f7c8 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1005,7 +1005,7 @@ void NastranParser::addCombinationAnalysis(NastranTokenizer& tok, Model& model,
         auto it = model.analyses.begin();
         advance(it, i);
         const auto& analysis = *it;
-        double coef = stod(coefStrings[i++]);
+        double coef = stod(coefStrings[i]);
         if (model.configuration.logLevel >= LogLevel::TRACE) {
             cout << "Assigning analysis " << *analysis << " to combination " << *combination << " with coefficient " << to_string(coef) << endl;
         }
-- 
2.43.0


From 32f68b764a167f5df2305ef6647b896ac3661b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:13 +0000
Subject: [PATCH 16/66] fix: write the transverse tensile strength of an
 orthotropic material

---
 Aster/AsterWriter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index ee03f05..99baea4 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -1006,6 +1006,9 @@ void AsterWriter::writeMaterials() {
 			if (is_defined(orthoNature->getXt())) {
 			    comm_file_ofs << "                         XT=" << orthoNature->getXt() << "," << endl;
 			}
+			if (is_defined(orthoNature->getYt())) {
+			    comm_file_ofs << "                         YT=" << orthoNature->getYt() << "," << endl;
+			}
 			if (is_defined(orthoNature->getYc())) {
 			    comm_file_ofs << "                         YC=" << orthoNature->getYc() << "," << endl;
 			}
-- 
2.43.0


From 6a16a383857d03d805309941f838909cb1a60572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:13 +0000
Subject: [PATCH 17/66] fix: read the laminate option of a PCOMP from its own
 field

---
 Nastran/NastranParser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 2d7f7c8..20d224f 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2581,13 +2581,13 @@ void NastranParser::parsePCOMP(NastranTokenizer& tok, Model& model) {
         laminateOption = Composite::LaminateOption::FULL;
     } else if (lam == "SYM") {
         laminateOption = Composite::LaminateOption::SYM;
-    } else if (ft == "HCS") {
+    } else if (lam == "HCS") {
         laminateOption = Composite::LaminateOption::HCS;
-    } else if (ft == "FCS") {
+    } else if (lam == "FCS") {
         laminateOption = Composite::LaminateOption::FCS;
-    } else if (ft == "ACS") {
+    } else if (lam == "ACS") {
         laminateOption = Composite::LaminateOption::ACS;
-    } else if (ft == "SME") {
+    } else if (lam == "SME") {
         laminateOption = Composite::LaminateOption::SME;
     } else if (ft == "SMC") {
         laminateOption = Composite::LaminateOption::SMC;
-- 
2.43.0


From 9237c911ed7e7a122dec5bdc031f5fe2ee0d3c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:13 +0000
Subject: [PATCH 18/66] fix: keep DOFCoefs within its six coefficients

---
 Abstract/Dof.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Dof.cpp b/Abstract/Dof.cpp
index 9b0a14b..a266952 100644
--- a/Abstract/Dof.cpp
+++ b/Abstract/Dof.cpp
@@ -537,7 +537,7 @@ DOFCoefs& DOFCoefs::operator*=(const double factor) noexcept {
 }
 
 double DOFCoefs::operator[](const dof_int i) noexcept {
-    if (i > 6)
+    if (i >= 6)
         return 0; // TODO LD: why this case ???
     return coefs[i];
 }
-- 
2.43.0


From 2c0fd96656c9ef70c62b8a6b20597ee1fe2cd321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:13 +0000
Subject: [PATCH 19/66] fix: write the nodes of a cell to the stream it is
 written to

---
 Abstract/MeshComponents.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/MeshComponents.cpp b/Abstract/MeshComponents.cpp
index 4d8fcbf..8f833f4 100644
--- a/Abstract/MeshComponents.cpp
+++ b/Abstract/MeshComponents.cpp
@@ -600,7 +600,7 @@ ostream &operator<<(ostream &out, const Cell& cell) noexcept {
 	out << ",type:" << static_cast<int>(cell.type.code);
 	out << ",nodeIds:[";
 	for (const int nodeId : cell.nodeIds) {
-		cout << "," << nodeId;
+		out << "," << nodeId;
 	}
 	out << "]";
 	return out;
-- 
2.43.0


From 1bfda00e1f3a997c70fd9cbd37e93aa9059ea01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:13 +0000
Subject: [PATCH 20/66] fix: removing a node which is not in a container does
 nothing

---
 Abstract/MeshComponents.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/MeshComponents.cpp b/Abstract/MeshComponents.cpp
index 8f833f4..6ec8a89 100644
--- a/Abstract/MeshComponents.cpp
+++ b/Abstract/MeshComponents.cpp
@@ -952,7 +952,7 @@ void NodeContainer::addNodeGroup(const string& groupName) {
 }
 
 void NodeContainer::removeNodePositionExcludingGroups(const pos_t nodePosition) noexcept {
-	nodePositions.erase(nodePositions.find(nodePosition));
+	nodePositions.erase(nodePosition);
 }
 
 void NodeContainer::add(const Node& node) noexcept {
-- 
2.43.0


From b88c7ef00ea5df0eb48ba80cba79b7036cf4855c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:13 +0000
Subject: [PATCH 21/66] fix: name the invalid code of degrees of freedom

---
 Abstract/Dof.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Dof.cpp b/Abstract/Dof.cpp
index a266952..6cab7a1 100644
--- a/Abstract/Dof.cpp
+++ b/Abstract/Dof.cpp
@@ -190,7 +190,7 @@ DOFS DOFS::nastranCodeToDOFS(int nastranCode) {
 		number = number / 10;
 		auto codeiter = DOF_BY_NASTRANCODE.left.find(nastranDigit);
 		if (codeiter == DOF_BY_NASTRANCODE.left.end()) {
-			throw invalid_argument("Invalid Nastran code: " + nastranCode);
+			throw invalid_argument("Invalid Nastran code: " + to_string(nastranCode));
 		}
 		DOFS internalDOFCode {static_cast<char>(codeiter->second)};
 		dofs += internalDOFCode;
-- 
2.43.0


From a627831386ec2dba2c326c63f1cfd414d55a125d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:14 +0000
Subject: [PATCH 22/66] fix: report a truncated Nastran file with an exception
 that is handled

---
 Nastran/NastranTokenizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 71eb511..6e5c2ab 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -379,7 +379,7 @@ void NastranTokenizer::splitFixedFormat(string& line, const bool longFormat, con
 		if (!iseof) {
 			splitFixedFormat(line2, longFormat, false);
 		} else {
-			throw "Continuation Expected: Line N " + to_string(this->lineNumber);
+			throw vega::ParsingException("Continuation expected", this->fileName, lineNumber);
 		}
 	} else {
 		/** Test for automatic continuation : we allow tabulation
@@ -415,7 +415,7 @@ string NastranTokenizer::nextString(bool returnDefaultIfNotFoundOrBlank, string
 
 void NastranTokenizer::skip(int fields) {
 	if (this->nextSymbolType == SymbolType::SYMBOL_EOF) {
-		throw "Attempt to read past the end of file. Line:" + this->lineNumber;
+		throw vega::ParsingException("Attempt to read past the end of file", this->fileName, lineNumber);
 	}
 
 	this->currentField = min(static_cast<unsigned int>(this->currentLineVector.size()),
-- 
2.43.0


From 1c0eec3ce11863a01cb71db49d35e559b628e146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:31 +0000
Subject: [PATCH 23/66] fix: read every mass of a CONM1, also after a blank one

---
 Nastran/NastranParser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 20d224f..4dcaa4f 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1194,14 +1194,14 @@ void NastranParser::parseCONM1(NastranTokenizer& tok, Model& model) {
 
     const auto& nodalMassMatrix = make_shared<DiscretePoint>(model, MatrixType::SYMMETRIC, eid);
 
-    for (dof_int row = 0; row < 5; row++) {
+    for (dof_int row = 0; row < 6; row++) {
         const DOF rowdof = DOF::findByPosition(row);
         for (dof_int col = 0; col <= row; col++) {
             const DOF coldof = DOF::findByPosition(col);
-            if (!tok.isNextDouble()) {
-                break;
+            const double mass = tok.nextDouble(true, 0.0);
+            if (!is_zero(mass)) {
+                nodalMassMatrix->addMass(rowdof, coldof, mass);
             }
-            nodalMassMatrix->addMass(rowdof, coldof, tok.nextDouble(true, 0.0));
         }
     }
 
-- 
2.43.0


From d40432ee392d11113f8261654ecee71ddea6c495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:31 +0000
Subject: [PATCH 24/66] fix: recognise BCONTACT, OFREQUENCY and STRESS case
 control commands

---
 Nastran/NastranParser.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 4dcaa4f..104840a 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -887,7 +887,7 @@ void NastranParser::addAnalysis(NastranTokenizer& tok, Model& model, map<string,
                 loadSet->setInputContext(tok.getInputContext());
                 model.add(loadSet);
             }
-        } else if (!key.compare(0, 4, "BCONTACT")) {
+        } else if (!key.compare(0, 8, "BCONTACT")) {
             Reference<ConstraintSet> constraintReference(ConstraintSet::Type::CONTACT, id);
             analysis->add(constraintReference);
             if (!model.find(constraintReference)) { // constraintSet is added in the model if not found in the model
@@ -914,7 +914,7 @@ void NastranParser::addAnalysis(NastranTokenizer& tok, Model& model, map<string,
                 nodalOutput->setInputContext(tok.getInputContext());
                 model.add(nodalOutput);
             }
-        } else if (!key.compare(0, 4, "OFREQUENCY")) {
+        } else if (!key.compare(0, 10, "OFREQUENCY")) {
             if (id != 0) {
                 Reference<ObjectiveSet> objectiveSetReference(ObjectiveSet::Type::OFREQ, id);
                 analysis->add(objectiveSetReference);
@@ -928,7 +928,7 @@ void NastranParser::addAnalysis(NastranTokenizer& tok, Model& model, map<string,
                 frequencyOutput->setInputContext(tok.getInputContext());
                 model.add(frequencyOutput);
             }
-        } else if (!key.compare(0, 4, "STRESS")) {
+        } else if (!key.compare(0, 6, "STRESS")) {
             if (id != 0) {
                 Reference<ObjectiveSet> objectiveSetReference(ObjectiveSet::Type::STRESS, id);
                 analysis->add(objectiveSetReference);
@@ -947,11 +947,13 @@ void NastranParser::addAnalysis(NastranTokenizer& tok, Model& model, map<string,
                         stressOutput = make_shared<VonMisesStressOutput>(model, objectiveSet, make_shared<Reference<NamedValue>>(Value::Type::SET, id));
                     }
                 }
-                if (model.configuration.logLevel >= LogLevel::TRACE) {
-                    cout << "Adding output " << *stressOutput << endl;
+                if (stressOutput != nullptr) {
+                    if (model.configuration.logLevel >= LogLevel::TRACE) {
+                        cout << "Adding output " << *stressOutput << endl;
+                    }
+                    stressOutput->setInputContext(tok.getInputContext());
+                    model.add(stressOutput);
                 }
-                stressOutput->setInputContext(tok.getInputContext());
-                model.add(stressOutput);
             }
         }
     }
-- 
2.43.0


From 84e3880780587609dff0c974858f967d54f027ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:05 +0000
Subject: [PATCH 25/66] fix: a spherical coordinate system said it was
 cylindrical (and was used as one by the Systus writer)

---
 Abstract/CoordinateSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/CoordinateSystem.cpp b/Abstract/CoordinateSystem.cpp
index 2fb85f6..a0838c7 100644
--- a/Abstract/CoordinateSystem.cpp
+++ b/Abstract/CoordinateSystem.cpp
@@ -242,7 +242,7 @@ VectorialValue CylindricalCoordinateSystem::getLocalEulerAnglesIntrinsicZYX(cons
 SphericalCoordinateSystem::SphericalCoordinateSystem(const Mesh& mesh,
         const VectorialValue origin, const VectorialValue ex, const VectorialValue ey, const Reference<CoordinateSystem> rcs,
         int original_id) :
-        CoordinateSystem(mesh, CoordinateSystem::Type::ABSOLUTE, CoordinateSystem::CoordinateType::CYLINDRICAL, origin, ex, ey, rcs, original_id) {
+        CoordinateSystem(mesh, CoordinateSystem::Type::ABSOLUTE, CoordinateSystem::CoordinateType::SPHERICAL, origin, ex, ey, rcs, original_id) {
 }
 
 // TODO : LD What's this ? Should this method be renamed moveOrigin ?
-- 
2.43.0


From 7c72976639f35c67aab50a85332b3ba6378bf537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:05 +0000
Subject: [PATCH 26/66] fix: --mesh-at-least together with --strict is refused,
 as the message says

---
 Commandline/VegaCommandLine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Commandline/VegaCommandLine.cpp b/Commandline/VegaCommandLine.cpp
index 243cd49..72a1552 100644
--- a/Commandline/VegaCommandLine.cpp
+++ b/Commandline/VegaCommandLine.cpp
@@ -181,6 +181,7 @@ ConfigurationParameters VegaCommandLine::readCommandLineParameters(const po::var
                     " parameter can be specified at once.");
         }
         translationMode = ConfigurationParameters::TranslationMode::MESH_AT_LEAST;
+        hasParamMeshAtLeast = true;
     }
     if (vm.count("strict")) {
         if (hasParamBestEffort || hasParamMeshAtLeast) {
-- 
2.43.0


From c91bba95fb1d52cda3e4cabc297a020878dea2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:05 +0000
Subject: [PATCH 27/66] fix: failures to write the node and cell numbers of the
 MED mesh are reported

---
 Aster/MedWriter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Aster/MedWriter.cpp b/Aster/MedWriter.cpp
index 3c1f062..c337d0f 100644
--- a/Aster/MedWriter.cpp
+++ b/Aster/MedWriter.cpp
@@ -244,7 +244,9 @@ void MedWriter::writeMED(const Model& model, const string& medFileName) {
     for(med_int i=0; i<nnodes;i++){
         numnoe.push_back(i+1);
     }
-    MEDmeshEntityNumberWr(fid, meshname, MED_NO_DT, MED_NO_IT, MED_NODE, MED_NONE,nnodes, numnoe.data());
+    if (MEDmeshEntityNumberWr(fid, meshname, MED_NO_DT, MED_NO_IT, MED_NODE, MED_NONE,nnodes, numnoe.data()) < 0) {
+        throw logic_error("ERROR : writing node numbers ...");
+    }
     numnoe.clear();
 
 	for (const auto& kv : model.mesh.cellPositionsByType) {
@@ -296,7 +298,7 @@ void MedWriter::writeMED(const Model& model, const string& medFileName) {
         for (const auto cellPosition : cellPositions) {
             cellnums.push_back(static_cast<med_int>(cellPosition)+1);
         }
-        MEDmeshEntityNumberWr(fid, meshname, MED_NO_DT, MED_NO_IT, MED_CELL, code, numCells, cellnums.data());
+        result = MEDmeshEntityNumberWr(fid, meshname, MED_NO_DT, MED_NO_IT, MED_CELL, code, numCells, cellnums.data());
         cellnums.clear();
 
         if (result < 0) {
-- 
2.43.0


From 614f0dd334336b27081e7c11d8a7dff22e22fd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:05 +0000
Subject: [PATCH 28/66] fix: a graph file that cannot be opened is reported

---
 Aster/AsterWriter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 99baea4..781de88 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -63,6 +63,10 @@ string AsterWriter::writeModel(Model& model,
             string png_path = asterModel->getOutputFileName("_" + to_string(analysis->getId()) + ".png");
             ofstream graphviz_file_ofs;
             graphviz_file_ofs.open(graphviz_path.c_str(), ios::out | ios::trunc);
+            if (!graphviz_file_ofs.is_open()) {
+                string message = "Can't open file " + graphviz_path + " for writing.";
+                throw ios::failure(message);
+            }
             analysis->createGraph(graphviz_file_ofs);
             if (boost::filesystem::exists( DOXYGEN_DOT_EXECUTABLE )) {
                 string dot_cmd = string(DOXYGEN_DOT_EXECUTABLE) + " -Tpng " + graphviz_path + " -o " + png_path;
-- 
2.43.0


From 7610044ccb64bfaba8fcbc683283ba2dff90aba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:50 +0000
Subject: [PATCH 29/66] fix: every face of the 20 node hexahedron has its own
 middle nodes and points outwards

---
 Abstract/MeshComponents.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Abstract/MeshComponents.cpp b/Abstract/MeshComponents.cpp
index 6ec8a89..cafb433 100644
--- a/Abstract/MeshComponents.cpp
+++ b/Abstract/MeshComponents.cpp
@@ -382,8 +382,8 @@ unordered_map<CellType::Code, vector<vector<int>>, EnumClassHash > Cell::init_fa
     };
     vector<vector<int> > hexa20list = { //
         {1,2,3,4,9,10,11,12}, //
-        {5,8,7,6,16,15,14,16}, //
-        {1,2,6,5,9,18,13,17}, //
+        {5,8,7,6,16,15,14,13}, //
+        {1,5,6,2,17,13,18,9}, //
         {2,6,7,3,18,14,19,10}, //
         {3,7,8,4,19,15,20,11}, //
         {1,4,8,5,12,20,16,17} //
-- 
2.43.0


From ccc1487d70c3045b801fddaaa2537a59861597e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:50 +0000
Subject: [PATCH 30/66] fix: the description of the 27 node hexahedron is its
 name

---
 Abstract/MeshComponents.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/MeshComponents.cpp b/Abstract/MeshComponents.cpp
index cafb433..dddfe9c 100644
--- a/Abstract/MeshComponents.cpp
+++ b/Abstract/MeshComponents.cpp
@@ -113,7 +113,7 @@ const CellType CellType::PENTA15 = CellType(CellType::Code::PENTA15_CODE, 15, Sp
 		"PENTA15");
 const CellType CellType::HEXA20 = CellType(CellType::Code::HEXA20_CODE, 20, SpaceDimension::DIMENSION_3D, "HEXA20");
 const CellType CellType::HEXA27 = CellType(CellType::Code::HEXA27_CODE, 27, SpaceDimension::DIMENSION_3D,
-		"DIMENSION_3D");
+		"HEXA27");
 //const CellType CellType::POLYHED = CellType(CellType::Code::POLYHED_CODE, -1, SpaceDimension::DIMENSION_3D,
 //		"POLYHED");
 
-- 
2.43.0


From aa0520fe66bde2528e27dba4f06d0b9f2c5c438a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:50 +0000
Subject: [PATCH 31/66] fix: the Nastran writer keeps the node order of shells,
 as the parser does

---
 Nastran/NastranWriter.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index bed31f8..1eaf53d 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -153,11 +153,11 @@ Line& Line::add(const VectorialValue vector) noexcept {
 
 const unordered_map<CellType::Code, vector<int>, EnumClassHash> NastranWriter::med2nastranNodeConnectByCellType =
         {
-                { CellType::Code::TRI3_CODE, { 0, 2, 1 } },
-                { CellType::Code::TRI6_CODE, { 0, 2, 1, 5, 4, 3 } },
-                { CellType::Code::QUAD4_CODE, { 0, 3, 2, 1 } },
-                { CellType::Code::QUAD8_CODE, { 0, 3, 2, 1, 7, 6, 5, 4 } },
-                { CellType::Code::QUAD9_CODE, { 0, 3, 2, 1, 7, 6, 5, 4, 8 } },
+                { CellType::Code::TRI3_CODE, { 0, 1, 2 } },
+                { CellType::Code::TRI6_CODE, { 0, 1, 2, 3, 4, 5 } },
+                { CellType::Code::QUAD4_CODE, { 0, 1, 2, 3 } },
+                { CellType::Code::QUAD8_CODE, { 0, 1, 2, 3, 4, 5, 6, 7 } },
+                { CellType::Code::QUAD9_CODE, { 0, 1, 2, 3, 4, 5, 6, 7, 8 } },
                 { CellType::Code::TETRA4_CODE, { 0, 2, 1, 3 } },
                 { CellType::Code::TETRA10_CODE, { 0, 2, 1, 3, 6, 5, 4, 7, 9, 8 } },
                 { CellType::Code::PYRA5_CODE, { 0, 3, 2, 1, 4 } },
-- 
2.43.0


From 748e7f71d931300d052159196d8de1a59557e577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:50 +0000
Subject: [PATCH 32/66] fix: the two nodes standing for a quadrangular face of
 a pentahedron or pyramid are opposite

---
 Abstract/MeshComponents.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Abstract/MeshComponents.cpp b/Abstract/MeshComponents.cpp
index dddfe9c..973f336 100644
--- a/Abstract/MeshComponents.cpp
+++ b/Abstract/MeshComponents.cpp
@@ -579,7 +579,8 @@ pair<int, int> Cell::two_nodeids_from_facenum(int faceNum) const {
     case CellType::Code::PYRA13_CODE:
     case CellType::Code::PENTA15_CODE: {
         if (faceNodeIds.size() == 4 or faceNodeIds.size() == 8) {
-            return {faceNodeIds[0], faceNodeIds[1]};
+            // the nodes must be opposite: two adjacent nodes belong to two faces
+            return {faceNodeIds[0], faceNodeIds[2]};
         } else {
             int nodeId2 = Globals::UNAVAILABLE_INT;
             return {faceNodeIds[0], nodeId2};
-- 
2.43.0


From c3e20e1d382e3a49ee94919717599422c0fb29e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:51 +0000
Subject: [PATCH 33/66] fix: a nodal force defined by two nodes is effective
 when its magnitude is not null

---
 Abstract/Loading.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index 5716471..968ccd7 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -372,7 +372,7 @@ void NodalForceTwoNodes::scale(const double factor) {
 }
 
 bool NodalForceTwoNodes::ineffective() const {
-	return is_zero(magnitude) or force.iszero();
+	return is_zero(magnitude);
 }
 
 NodalForceFourNodes::NodalForceFourNodes(Model& model, const std::shared_ptr<LoadSet> loadset, const int node1_id,
-- 
2.43.0


From 4bfa03d7dbec1c005a12ab15d2b5532e6995b2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:51 +0000
Subject: [PATCH 34/66] fix: a static pressure no longer takes its id for a
 force

---
 Abstract/Loading.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index 968ccd7..fbf13f6 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -409,7 +409,7 @@ bool NodalForceFourNodes::ineffective() const {
 
 StaticPressure::StaticPressure(Model& model, const std::shared_ptr<LoadSet> loadset, const int node1_id,
         const int node2_id, const int node3_id, const int node4_id, double magnitude, const int original_id) :
-        NodalForce(model, loadset, original_id, 0.0, 0.0, 0.0, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID),
+        NodalForce(model, loadset, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, original_id, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM),
                 node_position1(model.mesh.findOrReserveNode(node1_id)),
                 node_position2(model.mesh.findOrReserveNode(node2_id)),
                 node_position3(model.mesh.findOrReserveNode(node3_id)),
-- 
2.43.0


From b8c503b61484779e5a115391b136c6a6b7b1cc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:05 +0000
Subject: [PATCH 35/66] fix: THRU ... BY lists step from their first value and
 need a positive increment

---
 Nastran/NastranTokenizer.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 6e5c2ab..0f748fc 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -480,10 +480,18 @@ list<int> NastranTokenizer::nextInts() {
             if (isNextBY()) {
                 skip(1);
                 step = nextInt();
+                if (step <= 0) {
+                    handleParsingError("The increment following BY must be positive, not " + to_string(step));
+                    step = 1;
+                }
             }
-            for(int i=start+1;i<=endint;i+=step) {
+            for(int i=start+step;i<endint;i+=step) {
                 result.push_back(i);
             }
+            // both bounds belong to the list
+            if (start < endint) {
+                result.push_back(endint);
+            }
         }
 	}
 	return result;
-- 
2.43.0


From 4f89f26f64cf072cc78f7af8e2ea94fd6dfee1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:51 +0000
Subject: [PATCH 36/66] fix: a removed group is forgotten under its original id
 too

---
 Abstract/Mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Mesh.cpp b/Abstract/Mesh.cpp
index 4f58125..c4f2508 100644
--- a/Abstract/Mesh.cpp
+++ b/Abstract/Mesh.cpp
@@ -786,7 +786,7 @@ void Mesh::removeGroup(const string& name) noexcept {
     if (it != this->groupByName.end()) {
         std::shared_ptr<Group> group = it->second;
         this->groupByName.erase(name);
-        const int gId= group->getId();
+        const int gId= group->getOriginalId();
         if (gId!= Group::NO_ORIGINAL_ID){
             this->groupById.erase(gId);
         }
-- 
2.43.0


From d016e162bf3a61927b4ec31b8201366178459e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:51 +0000
Subject: [PATCH 37/66] fix: all the imposed displacements of a node count when
 constraints are removed

---
 Abstract/Model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 2b7708d..191cc2c 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -1470,7 +1470,7 @@ void Model::removeConstrainedImposed() {
             for (const auto& load : loads) {
                 const auto& impo = static_pointer_cast<ImposedDisplacement>(load);
                 for (const auto nodePosition : impo->nodePositions()) {
-                    imposedDofsByNodePosition[nodePosition] = impo->getDOFSForNode(nodePosition);
+                    imposedDofsByNodePosition[nodePosition] += impo->getDOFSForNode(nodePosition);
                 }
             }
         }
-- 
2.43.0


From 080ca010ef5e8e5243565c54986f6d1c7c7c5db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:51 +0000
Subject: [PATCH 38/66] fix: CMETHOD is not taken for METHOD

---
 Nastran/NastranParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 104840a..a4ca768 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -737,7 +737,7 @@ void NastranParser::addAnalysis(NastranTokenizer& tok, Model& model, map<string,
         map<string, string>::iterator it;
         int frequency_search_sid = 0;
         for (it = context.begin(); it != context.end(); it++) {
-            if (it->first.find("METHOD") != string::npos) {
+            if (it->first.find("METHOD") == 0) {
                 frequency_search_sid = stoi(it->second);
                 break;
             }
@@ -761,7 +761,7 @@ void NastranParser::addAnalysis(NastranTokenizer& tok, Model& model, map<string,
         map<string, string>::iterator it;
         int frequency_search_sid = 0;
         for (it = context.begin(); it != context.end(); it++) {
-            if (it->first.find("METHOD") != string::npos) {
+            if (it->first.find("METHOD") == 0) {
                 frequency_search_sid = stoi(it->second);
                 break;
             }
-- 
2.43.0


From a8e8ea1754afab4c56528750a4fac31fabc5ddd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:40 +0000
Subject: [PATCH 39/66] fix: a reading error of an F06 section keeps its type
 and message when it is passed on

---
 ResultReaders/F06Parser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ResultReaders/F06Parser.cpp b/ResultReaders/F06Parser.cpp
index 54c5288..6eac0a4 100644
--- a/ResultReaders/F06Parser.cpp
+++ b/ResultReaders/F06Parser.cpp
@@ -110,7 +110,7 @@ int F06Parser::readDisplacementSection(int currentSubCase, Model& model,
 		message += " Line: " + currentLine;
 		cerr << message << endl;
 		if (ConfigurationParameters::TranslationMode::MODE_STRICT == configuration.translationMode) {
-			throw e;
+			throw;
 		} else {
 			//cerr << "Conditions not added, parsing next section" << endl;
 		}
@@ -181,7 +181,7 @@ int F06Parser::readEigenvalueSection(int currentSubCase, Model& model,
 		message += " Line: " + currentLine;
 		cerr << message << endl;
 		if (ConfigurationParameters::TranslationMode::MODE_STRICT == configuration.translationMode) {
-			throw e;
+			throw;
 		} else {
 			//cerr << "Conditions not added, parsing next section" << endl;
 		}
@@ -254,7 +254,7 @@ int F06Parser::readComplexDisplacementSection(int currentSubCase, Model& model,
 		message += " Line: " + currentLine;
 		cerr << message << endl;
 		if (ConfigurationParameters::TranslationMode::MODE_STRICT == configuration.translationMode) {
-			throw e;
+			throw;
 		} else {
 			//cerr << "Conditions not added, parsing next section" << endl;
 		}
@@ -355,7 +355,7 @@ int F06Parser::readStressesForSolidsSection(int currentSubCase, Model& model,
 		message += " Line: " + currentLine;
 		cerr << message << endl;
 		if (ConfigurationParameters::TranslationMode::MODE_STRICT == configuration.translationMode) {
-			throw e;
+			throw;
 		} else {
 			//cerr << "Conditions not added, parsing next section" << endl;
 		}
-- 
2.43.0


From 77a2e248e02beaa0f675a547d27a9e599cb2497c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:40 +0000
Subject: [PATCH 40/66] fix: the number of values of a case control parameter
 is checked, not that of the parameters

---
 Nastran/NastranParser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index a4ca768..3ad1c8f 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -485,9 +485,13 @@ void NastranParser::parseExecutiveSection(NastranTokenizer& tok, Model& model,
                     split(parts, currentRawDataLine, boost::is_any_of("="), boost::algorithm::token_compress_on);
                     if (parts.size() == 1) {
                         vector<string> parvalparts;
+                        trim(parts[0]);
                         split(parvalparts, parts[0], boost::is_any_of(" "), boost::algorithm::token_compress_on);
-                        if (parts.size() >= 2) {
-                            handleParsingError("multiple spaces in parameter not yet implemented", tok, model);
+                        if (parvalparts.size() < 2) {
+                            handleParsingError("parameter without value", tok, model);
+                        }
+                        if (parvalparts.size() > 2) {
+                            handleParsingWarning("multiple spaces in parameter not yet implemented", tok, model);
                         }
                         context[keyword] = parvalparts[1];
                     } else {
-- 
2.43.0


From 574cfce7e2def66e193b26070b903627d62c8abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:43 +0000
Subject: [PATCH 41/66] fix: an output file that could not be written entirely
 is an error

---
 Aster/AsterWriter.cpp     | 10 ++++++++++
 Nastran/NastranWriter.cpp |  3 +++
 Systus/SystusWriter.cpp   | 18 ++++++++++++++++++
 3 files changed, 31 insertions(+)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 781de88..b5e47cf 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -68,6 +68,10 @@ string AsterWriter::writeModel(Model& model,
                 throw ios::failure(message);
             }
             analysis->createGraph(graphviz_file_ofs);
+            graphviz_file_ofs.close();
+            if (graphviz_file_ofs.fail()) {
+                throw ios::failure("Error while writing file " + graphviz_path);
+            }
             if (boost::filesystem::exists( DOXYGEN_DOT_EXECUTABLE )) {
                 string dot_cmd = string(DOXYGEN_DOT_EXECUTABLE) + " -Tpng " + graphviz_path + " -o " + png_path;
                 system(dot_cmd.c_str());
@@ -89,6 +93,9 @@ string AsterWriter::writeModel(Model& model,
 	}
 	this->writeExport();
 	exp_file_ofs.close();
+	if (exp_file_ofs.fail()) {
+		throw ios::failure("Error while writing file " + exp_path);
+	}
 
 	comm_file_ofs.open(comm_path.c_str(), ios::out | ios::trunc);
 
@@ -98,6 +105,9 @@ string AsterWriter::writeModel(Model& model,
 	}
 	this->writeComm();
 	comm_file_ofs.close();
+	if (comm_file_ofs.fail()) {
+		throw ios::failure("Error while writing file " + comm_path);
+	}
 
 	MedWriter medWriter;
 	medWriter.writeMED(model, med_path.c_str());
diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 1eaf53d..1fdef80 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -1072,6 +1072,9 @@ string NastranWriter::writeModel(Model& model,
 	out << "ENDDATA" << endl;
 
 	out.close();
+	if (out.fail()) {
+		throw ios::failure("Error while writing file " + nasPath);
+	}
 	return nasPath;
 }
 
diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 5cb70f4..c4a81bd 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -387,6 +387,9 @@ string SystusWriter::writeModel(Model& model,
         }
         this->writeAsc(systusModel, idSubcase, asc_file_ofs);
         asc_file_ofs.close();
+        if (asc_file_ofs.fail()) {
+            throw ios::failure("Error while writing file " + asc_path);
+        }
 
         /* Write some matrix files, if needed */
         this->writeMatrixFiles(systusModel, idSubcase);
@@ -402,6 +405,9 @@ string SystusWriter::writeModel(Model& model,
         }
         this->writeDat(systusModel, configuration, idSubcase, analyse_file_ofs);
         analyse_file_ofs.close();
+        if (analyse_file_ofs.fail()) {
+            throw ios::failure("Error while writing file " + analyse_path);
+        }
 
         if (configuration.systusOutputProduct=="systus"){
             dat_file_ofs << "READ " << systusModel.getName() << "_SC" << to_string(idSubcase+1) << ".DAT" << endl;
@@ -410,6 +416,9 @@ string SystusWriter::writeModel(Model& model,
 
     if (configuration.systusOutputProduct=="systus"){
         dat_file_ofs.close();
+        if (dat_file_ofs.fail()) {
+            throw ios::failure("Error while writing file " + dat_path);
+        }
     }
     return dat_path;
 }
@@ -3367,6 +3376,9 @@ void SystusWriter::writeMatrixFiles(const SystusModel& systusModel, const int id
         }
         ofsMatrixFile << dampingMatrices<<endl;
         ofsMatrixFile.close();
+        if (ofsMatrixFile.fail()) {
+            throw ios::failure("Error while writing file " + matrixFile);
+        }
         filebyAccessId[SystusWriter::DampingAccessId]= systusModel.getName()+"_SC" + to_string(idSubcase+1) + "_DAMGEN";
     }
 
@@ -3382,6 +3394,9 @@ void SystusWriter::writeMatrixFiles(const SystusModel& systusModel, const int id
         }
         ofsMatrixFile << massMatrices << endl;
         ofsMatrixFile.close();
+        if (ofsMatrixFile.fail()) {
+            throw ios::failure("Error while writing file " + matrixFile);
+        }
         filebyAccessId[SystusWriter::MassAccessId]= systusModel.getName()+"_SC" + to_string(idSubcase+1) + "_MASGEN";
     }
 
@@ -3397,6 +3412,9 @@ void SystusWriter::writeMatrixFiles(const SystusModel& systusModel, const int id
         }
         ofsMatrixFile << stiffnessMatrices <<endl;
         ofsMatrixFile.close();
+        if (ofsMatrixFile.fail()) {
+            throw ios::failure("Error while writing file " + matrixFile);
+        }
         filebyAccessId[SystusWriter::StiffnessAccessId]=systusModel.getName()+"_SC" + to_string(idSubcase+1) + "_STIGEN";
     }
 }
-- 
2.43.0


From 86220e48abc05517e114033f4cbc3b97335c920b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:43 +0000
Subject: [PATCH 42/66] fix: an error of the command line is reported with its
 exit code instead of aborting

---
 Commandline/VegaCommandLine.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Commandline/VegaCommandLine.cpp b/Commandline/VegaCommandLine.cpp
index 72a1552..a827e4f 100644
--- a/Commandline/VegaCommandLine.cpp
+++ b/Commandline/VegaCommandLine.cpp
@@ -465,7 +465,7 @@ VegaCommandLine::ExitCode VegaCommandLine::process(int ac, const char* av[]) {
 #if Backtrace_FOUND
     signal(SIGSEGV, handler);
 #endif
-    LogLevel logLevel = LogLevel::TRACE;
+    LogLevel logLevel = LogLevel::INFO;
     try {
         string config_file;
 
@@ -638,6 +638,12 @@ VegaCommandLine::ExitCode VegaCommandLine::process(int ac, const char* av[]) {
         if (result == ExitCode::OK && configuration.runSolver) {
             result = runSolver(configuration, modelFile);
         }
+    } catch (po::error &e) {   // An option is unknown, incomplete or has a wrong value.
+        if (logLevel >= LogLevel::DEBUG) {
+            throw;
+        } else
+            cerr  << endl << "Invalid command line: " << e.what()  << endl;
+        return ExitCode::INVALID_COMMAND_LINE;
     } catch (invalid_argument &e) {
         if (logLevel >= LogLevel::DEBUG) {
             throw;
-- 
2.43.0


From 22dabe92d27c4bb34cc87607110d09e402ee993f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:37 +0000
Subject: [PATCH 43/66] fix: an unknown verbosity is refused like every other
 unknown option value

---
 Commandline/VegaCommandLine.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Commandline/VegaCommandLine.cpp b/Commandline/VegaCommandLine.cpp
index a827e4f..9d53a57 100644
--- a/Commandline/VegaCommandLine.cpp
+++ b/Commandline/VegaCommandLine.cpp
@@ -134,10 +134,11 @@ ConfigurationParameters VegaCommandLine::readCommandLineParameters(const po::var
         string verbosity= vm["verbosity"].as<string>();
         boost::to_upper(verbosity);
         if (verbosity=="ERROR") logLevel = LogLevel::ERROR;
-        if (verbosity=="WARN") logLevel = LogLevel::WARN;
-        if (verbosity=="INFO") logLevel = LogLevel::INFO;
-        if (verbosity=="DEBUG") logLevel = LogLevel::DEBUG;
-        if (verbosity=="TRACE") logLevel = LogLevel::TRACE;
+        else if (verbosity=="WARN") logLevel = LogLevel::WARN;
+        else if (verbosity=="INFO") logLevel = LogLevel::INFO;
+        else if (verbosity=="DEBUG") logLevel = LogLevel::DEBUG;
+        else if (verbosity=="TRACE") logLevel = LogLevel::TRACE;
+        else throw invalid_argument("Unknown verbosity: " + verbosity);
     }
 
     if (vm.count("debug") > 0) {
-- 
2.43.0


From ad529f7d3ae57277da3abdf680336586202287bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:25 +0000
Subject: [PATCH 44/66] fix: an analysis whose METHOD or FREQ does not exist is
 invalid, instead of undefined behaviour

---
 Abstract/Analysis.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/Abstract/Analysis.cpp b/Abstract/Analysis.cpp
index 6dd8896..a7b14f7 100644
--- a/Abstract/Analysis.cpp
+++ b/Abstract/Analysis.cpp
@@ -628,7 +628,13 @@ LinearModal::LinearModal(Model& model, const Reference<ObjectiveSet>& frequencyS
 
 shared_ptr<FrequencySearch> LinearModal::getFrequencySearch() const noexcept {
     const auto& objectiveSet = model.find(frequencySearchRef);
+    if (objectiveSet == nullptr) {
+        return nullptr;
+    }
     const auto& objectives = objectiveSet->getObjectivesByType(Objective::Type::FREQUENCY_SEARCH);
+    if (objectives.empty()) {
+        return nullptr;
+    }
     return static_pointer_cast<FrequencySearch>(*objectives.begin());
 }
 
@@ -680,6 +686,9 @@ shared_ptr<ModalDamping> LinearDynaModalFreq::getModalDamping() const {
         return nullptr;
     }
     const auto& objectives = objectiveSet->getObjectivesByType(Objective::Type::MODAL_DAMPING);
+    if (objectives.empty()) {
+        return nullptr;
+    }
     return static_pointer_cast<ModalDamping>(*objectives.begin());
 }
 
@@ -689,12 +698,18 @@ bool LinearDynaModalFreq::hasModalDamping() const {
 
 shared_ptr<FrequencyExcit> LinearDynaModalFreq::getExcitationFrequencies() const {
     const auto& objectiveSet = model.find(frequencyExcitationRef);
+    if (objectiveSet == nullptr) {
+        return nullptr;
+    }
     const auto& objectives = objectiveSet->getObjectivesByType(Objective::Type::FREQUENCY_EXCIT);
+    if (objectives.empty()) {
+        return nullptr;
+    }
     return static_pointer_cast<FrequencyExcit>(*objectives.begin());
 }
 
 bool LinearDynaModalFreq::validate() const {
-    bool isValid = Analysis::validate();
+    bool isValid = LinearModal::validate();
     if (getExcitationFrequencies() == nullptr) {
         if (model.configuration.logLevel >= LogLevel::INFO) {
             cout << "Modal analysis is not valid: cannot find frenquency excitation:" << frequencyExcitationRef << endl;
@@ -739,7 +754,13 @@ LinearDynaDirectFreq::LinearDynaDirectFreq(Model& model,
 
 shared_ptr<FrequencyExcit> LinearDynaDirectFreq::getExcitationFrequencies() const {
     const auto& objectiveSet = model.find(frequencyExcitationRef);
+    if (objectiveSet == nullptr) {
+        return nullptr;
+    }
     const auto& objectives = objectiveSet->getObjectivesByType(Objective::Type::FREQUENCY_EXCIT);
+    if (objectives.empty()) {
+        return nullptr;
+    }
     return static_pointer_cast<FrequencyExcit>(*objectives.begin());
 }
 
-- 
2.43.0


From c7febf38d409db07a052bb565f6b41387e5e841f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:51 +0000
Subject: [PATCH 45/66] fix: a subcase of the F06 file which is not in the
 model is reported, instead of dereferencing a null pointer

---
 ResultReaders/F06Parser.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/ResultReaders/F06Parser.cpp b/ResultReaders/F06Parser.cpp
index 6eac0a4..2d4b7d8 100644
--- a/ResultReaders/F06Parser.cpp
+++ b/ResultReaders/F06Parser.cpp
@@ -371,8 +371,9 @@ int F06Parser::addAssertionsToModel(int currentSubcase, double loadStep, Model &
 	shared_ptr<Analysis> analysis;
 	if (currentSubcase != NO_SUBCASE) {
 		analysis = model.analyses.find(currentSubcase);
-		analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubcase});
-		if (analysis == nullptr and model.configuration.logLevel >= LogLevel::INFO) {
+		if (analysis != nullptr) {
+			analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubcase});
+		} else if (model.configuration.logLevel >= LogLevel::INFO) {
 			cout << "Could not find subcase : " << currentSubcase << " in model." << endl;
 		}
 	} else if (not model.analyses.empty()) {
@@ -441,15 +442,16 @@ int F06Parser::addComplexAssertionsToModel(int currentSubCase, double frequency,
 	shared_ptr<Analysis> analysis;
 	if (currentSubCase != NO_SUBCASE) {
 		analysis = model.analyses.find(currentSubCase);
-		analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubCase});
-		if (analysis == nullptr and model.configuration.logLevel >= LogLevel::INFO) {
+		if (analysis != nullptr) {
+			analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubCase});
+		} else if (model.configuration.logLevel >= LogLevel::INFO) {
 			cout << "Could not find subcase : " << currentSubCase << " in model." << endl;
 		}
-	} else {
+	} else if (not model.analyses.empty()) {
 		// LD If no subcase indicated, the first one is used.
 		// FIXME: what if the model don't have an analysis and the default one is
 		// created inside the finish()? GC
-		analysis = *model.analyses.begin();
+		analysis = model.analyses.first();
 	}
 	for (const auto& assertion : assertions) {
 		if (analysis != nullptr) {
@@ -474,8 +476,9 @@ int F06Parser::addVonMisesAssertionsToModel(int currentSubcase, Model &model,
 	shared_ptr<Analysis> analysis;
 	if (currentSubcase != NO_SUBCASE) {
 		analysis = model.analyses.find(currentSubcase);
-		analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubcase});
-		if (analysis == nullptr and model.configuration.logLevel >= LogLevel::INFO) {
+		if (analysis != nullptr) {
+			analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubcase});
+		} else if (model.configuration.logLevel >= LogLevel::INFO) {
 			cout << "Could not find subcase : " << currentSubcase << " in model." << endl;
 		}
 	} else if (not model.analyses.empty()) {
-- 
2.43.0


From 909c688837d8382f823efeda4fdca3493c12581e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:02 +0000
Subject: [PATCH 46/66] fix: the cells of a second stress output on the same
 set were taken from a null group

---
 Abstract/Objective.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Abstract/Objective.cpp b/Abstract/Objective.cpp
index 67147cd..502c241 100644
--- a/Abstract/Objective.cpp
+++ b/Abstract/Objective.cpp
@@ -349,6 +349,11 @@ shared_ptr<CellContainer> VonMisesStressOutput::getCellContainer() const {
                     cellGroup->addCellId(cellId);
                 }
                 setValue->markAsWritten();
+            } else {
+                cellGroup = dynamic_pointer_cast<CellGroup>(model.mesh.findGroup(groupName));
+            }
+            if (cellGroup == nullptr) {
+                throw logic_error("Group " + groupName + " is not a group of cells");
             }
             lazyCellContainer->add(*cellGroup);
         }
-- 
2.43.0


From 9138ae25b7c5dbef32968f80e40c4d558ab5e2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:02 +0000
Subject: [PATCH 47/66] fix: the Nastran writer dereferenced the first analysis
 of a model without any

---
 Nastran/NastranWriter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 1fdef80..aaea091 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -196,6 +196,10 @@ string NastranWriter::getNasFilename(const Model& model,
 
 void NastranWriter::writeSOL(const Model& model, ofstream& out) const
     {
+	if (model.analyses.empty()) {
+		handleWritingError("No analysis to be written");
+		return;
+	}
 	auto& firstAnalysis = *model.analyses.begin();
 	string analysisLabel;
 	if (isCosmic()) {
-- 
2.43.0


From 489f0253b70ce032fd180b7082b0321cc98a68f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:33 +0000
Subject: [PATCH 48/66] fix: a contact whose master or slave does not exist is
 an error, instead of undefined behaviour

---
 Abstract/Constraint.cpp | 26 ++++++++++++++++++++++----
 Abstract/Model.cpp      | 10 ++++++++--
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/Abstract/Constraint.cpp b/Abstract/Constraint.cpp
index e46fc35..5f96c61 100644
--- a/Abstract/Constraint.cpp
+++ b/Abstract/Constraint.cpp
@@ -761,7 +761,13 @@ void SlideContact::removeNodePosition(const pos_t nodePosition) {
 
 bool SlideContact::ineffective() const {
     const auto& masterLine = dynamic_pointer_cast<BoundaryNodeLine>(model.find(master));
+    if (masterLine == nullptr) {
+        throw logic_error("Cannot find master node list");
+    }
     const auto& slaveLine = dynamic_pointer_cast<BoundaryNodeLine>(model.find(slave));
+    if (slaveLine == nullptr) {
+        throw logic_error("Cannot find slave node list");
+    }
     return masterLine->nodeids.empty() or slaveLine->nodeids.empty();
 }
 
@@ -799,8 +805,14 @@ void SurfaceContact::removeNodePosition(const pos_t nodePosition) {
 }
 
 bool SurfaceContact::ineffective() const {
-    const auto& masterSurface = static_pointer_cast<BoundaryNodeSurface>(model.find(master));
-    const auto& slaveSurface = static_pointer_cast<BoundaryNodeSurface>(model.find(slave));
+    const auto& masterSurface = dynamic_pointer_cast<BoundaryNodeSurface>(model.find(master));
+    if (masterSurface == nullptr) {
+        throw logic_error("Cannot find master node list");
+    }
+    const auto& slaveSurface = dynamic_pointer_cast<BoundaryNodeSurface>(model.find(slave));
+    if (slaveSurface == nullptr) {
+        throw logic_error("Cannot find slave node list");
+    }
     return masterSurface->nodeids.empty() or slaveSurface->nodeids.empty();
 }
 
@@ -980,7 +992,10 @@ void SurfaceSlide::makeCellsFromSurfaceSlide() {
     model.add(elementsetSlide);
     this->markAsWritten();
 
-    const auto& masterSurface = static_pointer_cast<BoundaryElementFace>(model.find(this->master));
+    const auto& masterSurface = dynamic_pointer_cast<BoundaryElementFace>(model.find(this->master));
+    if (masterSurface == nullptr) {
+        throw logic_error("Cannot find master surface");
+    }
     vector<node_polygon> masterFaces;
     vector<vector<int>> masterFaceNodeIds;
     bgi::rtree< value, bgi::rstar<16> > rtree;
@@ -1004,7 +1019,10 @@ void SurfaceSlide::makeCellsFromSurfaceSlide() {
         }
     }
     masterSurface->markAsWritten();
-    const auto& slaveSurface = static_pointer_cast<BoundaryElementFace>(model.find(this->slave));
+    const auto& slaveSurface = dynamic_pointer_cast<BoundaryElementFace>(model.find(this->slave));
+    if (slaveSurface == nullptr) {
+        throw logic_error("Cannot find slave surface");
+    }
     for (const auto& faceInfo : slaveSurface->faceInfos) {
         const Cell& slaveCell = model.mesh.findCell(model.mesh.findCellPosition(faceInfo.cellId));
         const auto& faceIds = slaveCell.faceids_from_two_nodes(faceInfo.nodeid1, faceInfo.nodeid2);
diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 191cc2c..fc5a80a 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -1968,7 +1968,10 @@ void Model::makeBoundarySegments() {
             const auto& slide = static_pointer_cast<SlideContact>(constraint);
             const auto& masterCellGroup = mesh.createCellGroup("SLIDE_M_"+to_string(slide->bestId()), Group::NO_ORIGINAL_ID, "created by makeBoundarySegments() for the master in a SLIDE contact");
             const auto& slaveCellGroup = mesh.createCellGroup("SLIDE_S_"+to_string(slide->bestId()), Group::NO_ORIGINAL_ID, "created by makeBoundarySegments() for the slave in a SLIDE contact");
-            const auto& masterNodeLine = static_pointer_cast<BoundaryNodeLine>(this->find(slide->master));
+            const auto& masterNodeLine = dynamic_pointer_cast<BoundaryNodeLine>(this->find(slide->master));
+            if (masterNodeLine == nullptr) {
+                throw logic_error("Cannot find master node list");
+            }
             const auto& masterNodeIds = masterNodeLine->nodeids;
             auto it = masterNodeIds.begin();
             for(unsigned int i = 0; i < masterNodeIds.size() - 1;++i) {
@@ -1979,7 +1982,10 @@ void Model::makeBoundarySegments() {
             }
             slide->masterCellGroup = masterCellGroup;
             masterNodeLine->markAsWritten();
-            const auto& slaveNodeLine = static_pointer_cast<BoundaryNodeLine>(this->find(slide->slave));
+            const auto& slaveNodeLine = dynamic_pointer_cast<BoundaryNodeLine>(this->find(slide->slave));
+            if (slaveNodeLine == nullptr) {
+                throw logic_error("Cannot find slave node list");
+            }
             const auto& slaveNodeIds = slaveNodeLine->nodeids;
             auto it2 = slaveNodeIds.begin();
             for(unsigned int i = 0; i < slaveNodeIds.size() - 1;++i) {
-- 
2.43.0


From a73c3689f2a16f9a90acf60c6413decce721a2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:00 +0000
Subject: [PATCH 49/66] fix: a coordinate system defined in one which does not
 exist is an error, instead of undefined behaviour

---
 Abstract/CoordinateSystem.cpp | 27 +++++++++++++++++----------
 Abstract/CoordinateSystem.h   |  1 +
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/Abstract/CoordinateSystem.cpp b/Abstract/CoordinateSystem.cpp
index a0838c7..b5bc278 100644
--- a/Abstract/CoordinateSystem.cpp
+++ b/Abstract/CoordinateSystem.cpp
@@ -58,6 +58,14 @@ ostream &operator<<(ostream &out, const CoordinateSystem& coordinateSystem) {
     return out;
 }
 
+shared_ptr<CoordinateSystem> CoordinateSystem::findReferenceSystem() const {
+    const auto& coordSystem = mesh.findCoordinateSystem(rcs);
+    if (coordSystem == nullptr) {
+        throw logic_error("Coordinate system: " + to_str(rcs) + " referenced by " + to_str(*this) + " not found.");
+    }
+    return coordSystem;
+}
+
 VectorialValue CoordinateSystem::getEulerAnglesIntrinsicZYX(const CoordinateSystem *cs) const {
     double ax, ay, az = 0;
     VectorialValue EX, EY, EZ;
@@ -109,7 +117,7 @@ VectorialValue CartesianCoordinateSystem::positionToGlobal(const VectorialValue&
     if (rcs == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM) {
         return this->getOrigin()+ global;
     } else {
-        shared_ptr<CoordinateSystem> coordSystem = mesh.findCoordinateSystem(rcs);
+        const auto& coordSystem = findReferenceSystem();
         return coordSystem->positionToGlobal(this->getOrigin())+global;
     }
 }
@@ -123,8 +131,7 @@ VectorialValue CartesianCoordinateSystem::vectorToGlobal(const VectorialValue& l
     if (rcs == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM) {
         return vect;
     } else {
-        shared_ptr<CoordinateSystem> coordSystem = mesh.findCoordinateSystem(rcs);
-        assert(coordSystem != nullptr);
+        const auto& coordSystem = findReferenceSystem();
         return coordSystem->vectorToGlobal(vect);
     }
 }
@@ -135,7 +142,7 @@ VectorialValue CartesianCoordinateSystem::vectorToLocal(const VectorialValue& gl
     if (rcs == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM) {
         vect = global;
     } else {
-        shared_ptr<CoordinateSystem> coordSystem = mesh.findCoordinateSystem(rcs);
+        const auto& coordSystem = findReferenceSystem();
         vect = coordSystem->vectorToLocal(global);
     }
 
@@ -205,7 +212,7 @@ VectorialValue CylindricalCoordinateSystem::positionToGlobal(const VectorialValu
     if (rcs == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM) {
         return position;
     } else {
-        shared_ptr<CoordinateSystem> coordSystem = mesh.findCoordinateSystem(rcs);
+        const auto& coordSystem = findReferenceSystem();
         return coordSystem->positionToGlobal(position);
     }
 }
@@ -219,7 +226,7 @@ VectorialValue CylindricalCoordinateSystem::vectorToGlobal(
     if (rcs == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM) {
         return vect;
     } else {
-        shared_ptr<CoordinateSystem> coordSystem = mesh.findCoordinateSystem(rcs);
+        const auto& coordSystem = findReferenceSystem();
         return coordSystem->vectorToGlobal(vect);
     }
 }
@@ -266,7 +273,7 @@ VectorialValue SphericalCoordinateSystem::positionToGlobal(const VectorialValue&
     if (rcs == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM) {
         return position;
     } else {
-        shared_ptr<CoordinateSystem> coordSystem = mesh.findCoordinateSystem(rcs);
+        const auto& coordSystem = findReferenceSystem();
         return coordSystem->positionToGlobal(position);
     }
 }
@@ -376,7 +383,7 @@ VectorialValue OrientationCoordinateSystem::positionToGlobal(const VectorialValu
     if (rcs == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM) {
         return origin + global;
     } else {
-        shared_ptr<CoordinateSystem> coordSystem = mesh.findCoordinateSystem(rcs);
+        const auto& coordSystem = findReferenceSystem();
         return coordSystem->positionToGlobal(origin + global);
     }
 }
@@ -392,7 +399,7 @@ VectorialValue OrientationCoordinateSystem::vectorToGlobal(const VectorialValue&
     if (rcs == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM) {
         return vect;
     } else {
-        shared_ptr<CoordinateSystem> coordSystem = mesh.findCoordinateSystem(rcs);
+        const auto& coordSystem = findReferenceSystem();
         return coordSystem->vectorToGlobal(vect);
     }
 }
@@ -403,7 +410,7 @@ VectorialValue OrientationCoordinateSystem::vectorToLocal(const VectorialValue&
     if (rcs == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM) {
         vect = global;
     } else {
-        shared_ptr<CoordinateSystem> coordSystem = mesh.findCoordinateSystem(rcs);
+        const auto& coordSystem = findReferenceSystem();
         vect = coordSystem->vectorToLocal(global);
     }
     double x = vect.x() * this->inverseMatrix(0,0) + vect.y() * this->inverseMatrix(0,1) + vect.z() * this->inverseMatrix(0,2);
diff --git a/Abstract/CoordinateSystem.h b/Abstract/CoordinateSystem.h
index 6105b3f..9a1f307 100644
--- a/Abstract/CoordinateSystem.h
+++ b/Abstract/CoordinateSystem.h
@@ -66,6 +66,7 @@ protected:
     bool isVirtual = false;
     std::vector<int> nodesId;
     boost::numeric::ublas::matrix<double> inverseMatrix;
+    std::shared_ptr<CoordinateSystem> findReferenceSystem() const; /** The coordinate system rcs, which must exist */
 
 public:
     static const std::string name;
-- 
2.43.0


From 4764baea6290962195ea89e29359d5364b774561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:03 +0000
Subject: [PATCH 50/66] fix: a node or cell placed in a coordinate system which
 does not exist crashed the writers

---
 Abstract/Constraint.cpp     | 3 +++
 Aster/AsterWriter.cpp       | 4 ++--
 Aster/MedWriter.cpp         | 7 +++++--
 ResultReaders/F06Parser.cpp | 3 +++
 Systus/SystusWriter.cpp     | 4 ++++
 5 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/Abstract/Constraint.cpp b/Abstract/Constraint.cpp
index 5f96c61..1ed0656 100644
--- a/Abstract/Constraint.cpp
+++ b/Abstract/Constraint.cpp
@@ -494,6 +494,9 @@ void SinglePointConstraint::emulateLocalDisplacementConstraint() {
         const Node& node = model.mesh.findNode(nodePosition);
         if (node.displacementCS != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID) {
             const auto& coordSystem = model.mesh.getCoordinateSystemByPosition(node.displacementCS);
+            if (coordSystem == nullptr) {
+                throw logic_error("Displacement coordinate system of node " + to_string(node.id) + " not found.");
+            }
             // TODO LD: this should be done differently: is used to compute different nodes but every this it changes the coordinate system instance!
             coordSystem->updateLocalBase(VectorialValue(node.x, node.y, node.z));
             const DOFS& dofs = this->getDOFSForNode(nodePosition);
diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index b5e47cf..87259cd 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -405,7 +405,7 @@ void AsterWriter::writeAnalyses() {
                         continue;
                     }
                     const auto& cs= asterModel->model.mesh.getCoordinateSystemByPosition(it.first);
-                    if (cs->type!=CoordinateSystem::Type::RELATIVE){
+                    if (cs == nullptr or cs->type!=CoordinateSystem::Type::RELATIVE){
                        //handleWritingError("Coordinate System of Group "+ it.second+" is not an ORIENTATION.");
                        continue;
                     }
@@ -1371,7 +1371,7 @@ void AsterWriter::writeAffeCaraElem() {
             continue;
         }
         const auto& cs= asterModel->model.mesh.getCoordinateSystemByPosition(it.first);
-		if (cs->type!=CoordinateSystem::Type::RELATIVE){
+		if (cs == nullptr or cs->type!=CoordinateSystem::Type::RELATIVE){
 		   //handleWritingError("Coordinate System of Group "+ it.second+" is not an ORIENTATION.");
 		   continue;
 		}
diff --git a/Aster/MedWriter.cpp b/Aster/MedWriter.cpp
index c337d0f..7e17f5b 100644
--- a/Aster/MedWriter.cpp
+++ b/Aster/MedWriter.cpp
@@ -212,12 +212,15 @@ void MedWriter::writeMED(const Model& model, const string& medFileName) {
 	vector<med_float> coordinates;
 	coordinates.reserve(nnodes);
 	for (const NodeData& nodeData : model.mesh.nodes.getNodeDatas()) {
-	    if (nodeData.cpPos == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID){
+	    shared_ptr<CoordinateSystem> coordSystem;
+	    if (nodeData.cpPos != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID) {
+	        coordSystem = model.mesh.getCoordinateSystemByPosition(nodeData.cpPos);
+	    }
+	    if (coordSystem == nullptr) { // global, or not found: see Mesh::findNode
             coordinates.push_back(nodeData.x);
             coordinates.push_back(nodeData.y);
             coordinates.push_back(nodeData.z);
 	    } else {
-	        shared_ptr<CoordinateSystem> coordSystem = model.mesh.getCoordinateSystemByPosition(nodeData.cpPos);
             VectorialValue gCoord = coordSystem->positionToGlobal(VectorialValue(nodeData.x,nodeData.y,nodeData.z));
             coordinates.push_back(gCoord.x());
             coordinates.push_back(gCoord.y());
diff --git a/ResultReaders/F06Parser.cpp b/ResultReaders/F06Parser.cpp
index 2d4b7d8..c2ec9dd 100644
--- a/ResultReaders/F06Parser.cpp
+++ b/ResultReaders/F06Parser.cpp
@@ -84,6 +84,9 @@ int F06Parser::readDisplacementSection(int currentSubCase, Model& model,
 				const Node& node = model.mesh.findNode(model.mesh.findNodePosition(nodeId));
 				if (node.displacementCS != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID) {
 					const auto& coordSystem = model.mesh.getCoordinateSystemByPosition(node.displacementCS);
+					if (coordSystem == nullptr) {
+						throw logic_error("Displacement coordinate system of node " + to_string(nodeId) + " not found.");
+					}
 					coordSystem->updateLocalBase(VectorialValue(node.x, node.y, node.z));
 					translation = coordSystem->vectorToGlobal(translation);
 					rotation = coordSystem->vectorToGlobal(rotation);
diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index c4a81bd..399a55b 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -1574,6 +1574,10 @@ void SystusWriter::fillCoordinatesVectors(const SystusModel& systusModel, const
             }
 
             const auto& cs = systusModel.model.mesh.getCoordinateSystemByPosition(node.displacementCS);
+            if (cs == nullptr) {
+                handleWritingError("Unknown coordinate system of position " + to_string(node.displacementCS) + " for node " + to_string(node.id), "Nodes");
+                continue;
+            }
             vector<double> vec;
             switch (cs->type) {
             case CoordinateSystem::Type::ABSOLUTE: {
-- 
2.43.0


From 2930d661da57a4bed7e385dcaad47d7f2150b71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:03 +0000
Subject: [PATCH 51/66] fix: a PLOAD4 or a line force in a coordinate system
 which does not exist was valid, and crashed the Nastran writer

---
 Abstract/Loading.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index fbf13f6..6c10e3f 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -634,7 +634,7 @@ bool ForceSurface::ineffective() const {
 }
 
 bool ForceSurface::validate() const {
-	return true;
+	return Loading::validate();
 }
 
 ForceSurfaceTwoNodes::ForceSurfaceTwoNodes(Model& model, const std::shared_ptr<LoadSet> loadset, int nodeId1, int nodeId2,
@@ -699,7 +699,7 @@ bool ForceLine::ineffective() const {
 }
 
 bool ForceLine::validate() const {
-	return true;
+	return Loading::validate();
 }
 
 NormalPressionFace::NormalPressionFace(Model& model, const std::shared_ptr<LoadSet> loadset, double intensity, const int original_id) :
-- 
2.43.0


From 8ee9e0929faefa4795bf90dff95ed1fd9915bbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:51 +0000
Subject: [PATCH 52/66] fix: a property whose material does not exist crashed
 the Nastran and Systus writers

---
 Abstract/Element.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index 2e6d81d..05339af 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -110,7 +110,13 @@ bool ElementSet::hasMaterials() const {
 }
 
 std::shared_ptr<Material> ElementSet::mainMaterial() const {
+    if (materialRefs.empty()) {
+        throw logic_error("No material is assigned to " + to_str(*this));
+    }
     const auto& mainMaterial = this->model.materials.find(*(materialRefs.begin()));
+    if (mainMaterial == nullptr) {
+        throw logic_error("The material assigned to " + to_str(*this) + " does not exist or is empty");
+    }
     if (model.configuration.logLevel >= LogLevel::TRACE)
         cout << "ElementSet:" << *this << " has main material:" << *mainMaterial << endl;
     return mainMaterial;
-- 
2.43.0


From 5e89e7e1cfcc8a3b74d6abffe157ca04cded4c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:25 +0000
Subject: [PATCH 53/66] fix: a SET whose last line ends with a comma at the end
 of the file was read for ever

---
 Nastran/NastranParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 3ad1c8f..ea1899e 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -275,7 +275,7 @@ string NastranParser::parseSubcom(NastranTokenizer& tok, Model& model,
 
 void NastranParser::addSet(NastranTokenizer& tok, Model& model) {
     string line = trim_copy(tok.currentRawDataLine());
-    while (line.back() == ',') {
+    while (tok.nextSymbolType != NastranTokenizer::SymbolType::SYMBOL_EOF and line.back() == ',') {
         tok.nextLine();
         line += trim_copy(tok.currentRawDataLine());
     }
-- 
2.43.0


From 5bbb23757e8e0324b7e347b54928424901f091dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:25 +0000
Subject: [PATCH 54/66] fix: isNextEmpty looked at fields beyond the end of the
 line

---
 Nastran/NastranTokenizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 0f748fc..b63fd50 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -263,6 +263,9 @@ bool NastranTokenizer::isNextEmpty(int n) {
             result = false;
             break;
         }
+        if (currentField + i >= currentLineVector.size()) {
+            break; // fields that are not there are empty
+        }
         string curField = trim_copy(currentLineVector[currentField + i]);
         result &= curField.empty();
     }
-- 
2.43.0


From 7ae1c380124630e922df0f19d41f74b066a61b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:25 +0000
Subject: [PATCH 55/66] fix: a list which begins with THRU took its first value
 from an empty list

---
 Nastran/NastranTokenizer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index b63fd50..3e11bd1 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -472,6 +472,10 @@ list<int> NastranTokenizer::nextInts() {
             result.push_back(nextInt());
         } else if (isNextTHRU()) {
             skip(1);
+            if (result.empty()) {
+                handleParsingError("THRU without a first value");
+                continue;
+            }
             int start = result.back();
             int endint = nextInt();
             int step = 1;
-- 
2.43.0


From c42312915648c182ad6202052de433669d6caecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:52 +0000
Subject: [PATCH 56/66] fix: a constraint or objective set which does not exist
 was a null pointer among those of its analysis

---
 Abstract/Analysis.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Abstract/Analysis.cpp b/Abstract/Analysis.cpp
index a7b14f7..e327e18 100644
--- a/Abstract/Analysis.cpp
+++ b/Abstract/Analysis.cpp
@@ -266,7 +266,9 @@ vector<shared_ptr<ConstraintSet>> Analysis::getConstraintSets() const noexcept {
     if (commonConstraintSet != nullptr and not commonConstraintSet->empty())
         result.push_back(commonConstraintSet);
     for (const auto& constraintSetReference : this->constraintSet_references) {
-        result.push_back(model.find(constraintSetReference));
+        const auto& constraintSet = model.find(constraintSetReference);
+        if (constraintSet != nullptr)
+            result.push_back(constraintSet);
     }
 
     return result;
@@ -278,7 +280,9 @@ vector<shared_ptr<ObjectiveSet>> Analysis::getObjectiveSets() const noexcept {
     if (commonObjectiveSet != nullptr and not commonObjectiveSet->empty())
         result.push_back(commonObjectiveSet);
     for (const auto& objectiveSetReference : this->objectiveSet_references) {
-        result.push_back(model.find(objectiveSetReference));
+        const auto& objectiveSet = model.find(objectiveSetReference);
+        if (objectiveSet != nullptr)
+            result.push_back(objectiveSet);
     }
 
     return result;
-- 
2.43.0


From d71f36c097a95a5439fc5f1726d431005e3ff4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:43 +0000
Subject: [PATCH 57/66] fix: an invalid loading, constraint or objective
 removed from the model stayed in its sets, and crashed the writers

---
 Abstract/Model.cpp | 20 ++++++++++++++++++++
 Abstract/Model.h   |  2 +-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index fc5a80a..9d043ba 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -311,6 +311,26 @@ void Model::remove(const Reference<Objective> objectiveReference) {
     objectives.erase(objectiveReference);
 }
 
+template<>
+void Model::remove(const Reference<Material> materialReference) {
+    materials.erase(materialReference);
+}
+
+template<>
+void Model::remove(const Reference<ElementSet> elementSetReference) {
+    elementSets.erase(elementSetReference);
+}
+
+template<>
+void Model::remove(const Reference<Analysis> analysisReference) {
+    analyses.erase(analysisReference);
+}
+
+template<>
+void Model::remove(const Reference<Target> targetReference) {
+    targets.erase(targetReference);
+}
+
 template<>
 shared_ptr<Objective> Model::find(const Reference<Objective> reference) const {
     return objectives.find(reference);
diff --git a/Abstract/Model.h b/Abstract/Model.h
index e3c551f..1afb4d8 100644
--- a/Abstract/Model.h
+++ b/Abstract/Model.h
@@ -524,7 +524,7 @@ bool Model::Container<T>::validate() {
         }
     }
     for(const auto& t: toBeRemoved) {
-        this->erase(*t);
+        model.remove(t->getReference()); // the sets it belongs to forget it, too
     }
     return isValid;
 }
-- 
2.43.0


From 5ab37d216351a0b610f356c04f3e1613bbd41c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:43 +0000
Subject: [PATCH 58/66] fix: a cell which is not in the mesh was put in a group
 at an unavailable position

---
 Abstract/MeshComponents.cpp | 41 ++++++++++++++++---------------------
 Abstract/MeshComponents.h   |  8 ++++----
 2 files changed, 22 insertions(+), 27 deletions(-)

diff --git a/Abstract/MeshComponents.cpp b/Abstract/MeshComponents.cpp
index 973f336..9170af8 100644
--- a/Abstract/MeshComponents.cpp
+++ b/Abstract/MeshComponents.cpp
@@ -678,35 +678,30 @@ void CellContainer::addCellPosition(pos_t cellPosition) noexcept {
 	cellPositions.insert(cellPosition);
 }
 
-void CellContainer::addCellId(int cellId) noexcept {
-	cellPositions.insert(mesh.findCellPosition(cellId));
+void CellContainer::addCellId(int cellId) {
+    const pos_t cellPosition = mesh.findCellPosition(cellId);
+    if (cellPosition == Cell::UNAVAILABLE_CELL) {
+        throw logic_error("Cell id : " + to_string(cellId) + " is not in the mesh.");
+    }
+    cellPositions.insert(cellPosition);
 }
 
-void CellContainer::addCellIds(const vector<int>& otherIds) noexcept {
-	transform(otherIds.begin(),
-              otherIds.end(),
-              std::inserter(cellPositions, cellPositions.begin()),
-              [&](const int cellId) {
-                  return mesh.findCellPosition(cellId);
-              });
+void CellContainer::addCellIds(const vector<int>& otherIds) {
+    for (const int cellId : otherIds) {
+        addCellId(cellId);
+    }
 }
 
-void CellContainer::addCellIds(const set<int>& otherIds) noexcept {
-	transform(otherIds.begin(),
-              otherIds.end(),
-              std::inserter(cellPositions, cellPositions.begin()),
-              [&](const int cellId) {
-                  return mesh.findCellPosition(cellId);
-              });
+void CellContainer::addCellIds(const set<int>& otherIds) {
+    for (const int cellId : otherIds) {
+        addCellId(cellId);
+    }
 }
 
-void CellContainer::addCellIds(const list<int>& otherIds) noexcept {
-	transform(otherIds.begin(),
-              otherIds.end(),
-              std::inserter(cellPositions, cellPositions.begin()),
-              [&](const int cellId) {
-                  return mesh.findCellPosition(cellId);
-              });
+void CellContainer::addCellIds(const list<int>& otherIds) {
+    for (const int cellId : otherIds) {
+        addCellId(cellId);
+    }
 }
 
 
diff --git a/Abstract/MeshComponents.h b/Abstract/MeshComponents.h
index b163664..ad3d74a 100644
--- a/Abstract/MeshComponents.h
+++ b/Abstract/MeshComponents.h
@@ -448,11 +448,11 @@ public:
      * Adds a cellId to the current set
      */
     void addCellPosition(pos_t cellPosition) noexcept;
-    void addCellId(int cellId) noexcept;
+    void addCellId(int cellId);
     // These methods should be templated but this class is based on incomplete types (Mesh) so cannot move the function implementation inside header :..(
-    void addCellIds(const std::vector<int>&) noexcept;
-    void addCellIds(const std::set<int>&)  noexcept;
-    void addCellIds(const std::list<int>&) noexcept;
+    void addCellIds(const std::vector<int>&);
+    void addCellIds(const std::set<int>&);
+    void addCellIds(const std::list<int>&);
     void addCellPositions(const std::vector<pos_t>&) noexcept;
     void addCellPositions(const std::set<pos_t>&) noexcept;
     void addCellPositions(const std::list<pos_t>&) noexcept;
-- 
2.43.0


From a1545e3b4fbec5afd71fd9817edf8b7f3f06f2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:43 +0000
Subject: [PATCH 59/66] fix: a nonlinear strategy or a material which does not
 exist crashed the Aster writer

---
 Aster/AsterWriter.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 87259cd..f521d5a 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -1084,6 +1084,9 @@ void AsterWriter::writeMaterials() {
                 continue;
             }
             for (const auto& material : cells->getMaterials()) {
+                if (material == nullptr) {
+                    throw logic_error("Material not found for an element set");
+                }
                 comm_file_ofs << "                          _F(MATER=M" << material->getId() << ",";
                 writeCellContainer(cells);
                 comm_file_ofs << ")," << endl;
@@ -2238,13 +2241,14 @@ void AsterWriter::writeCellContainer(const shared_ptr<CellContainer>& cellContai
 
 shared_ptr<NonLinearStrategy> AsterWriter::getNonLinearStrategy(
 		const std::shared_ptr<NonLinearMecaStat>& nonLinAnalysis) {
-	shared_ptr<NonLinearStrategy> nonLinearStrategy = nullptr;
-	const auto& strategy = nonLinAnalysis->model.find(nonLinAnalysis->strategy_reference);
-    if (strategy == nullptr) {
-        handleWritingError("Cannot find nonlinear strategy" + to_str(nonLinAnalysis->strategy_reference));
-    }
     const auto& objectiveSet = nonLinAnalysis->model.find(nonLinAnalysis->strategy_reference);
+    if (objectiveSet == nullptr) {
+        throw WritingException("Cannot find nonlinear strategy" + to_str(nonLinAnalysis->strategy_reference));
+    }
     const auto& objectives = objectiveSet->getObjectivesByType(Objective::Type::NONLINEAR_PARAMETERS);
+    if (objectives.empty()) {
+        throw WritingException("No nonlinear parameters in " + to_str(nonLinAnalysis->strategy_reference));
+    }
 	return static_pointer_cast<NonLinearStrategy>(*objectives.begin());
 }
 
@@ -2549,6 +2553,9 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
 		comm_file_ofs << "                    COMPORTEMENT=(" << endl;
 		for (const auto& elementSet : asterModel->model.elementSets) {
             for (const auto& material : elementSet->getMaterials()) {
+                if (material == nullptr) {
+                    throw logic_error("Material not found for an element set");
+                }
                 if (elementSet->hasMaterials() and elementSet->effective()) {
                     comm_file_ofs << "                          _F(";
                     const auto& cellElementSet = dynamic_pointer_cast<CellElementSet>(elementSet);
-- 
2.43.0


From 6e89c3a5d6feeb4be6f3cffc277b541ba1037bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:59 +0000
Subject: [PATCH 60/66] fix: an empty continuation line was read beyond its end

---
 Nastran/NastranTokenizer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 3e11bd1..5b54726 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -348,7 +348,9 @@ void NastranTokenizer::splitFixedFormat(string& line, const bool longFormat, con
 	int count = 0;
 	if (!firstLine) {
 		//todo:check that explicit continuation tokens are the same
-		++beg;
+		if (beg != tok.end()) {
+			++beg;
+		}
 		count++;
 	}
 	bool explicitContinuation = false;
-- 
2.43.0


From 548180680019911c46fa44a2efb23cfa4579bfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:59 +0000
Subject: [PATCH 61/66] fix: a SUBSEQ with more coefficients than subcases read
 beyond the last analysis

---
 Nastran/NastranParser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index ea1899e..aa60efc 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1007,6 +1007,10 @@ void NastranParser::addCombinationAnalysis(NastranTokenizer& tok, Model& model,
     }
     vector<string> coefStrings(model.analyses.size());
     boost::split(coefStrings,subseq->second,boost::is_any_of(","));
+    if (coefStrings.size() > model.analyses.size()) {
+        handleParsingError("SUBSEQ with more coefficients than subcases", tok, model);
+        return;
+    }
     for (size_t i = 0; i < coefStrings.size(); i++) {
         auto it = model.analyses.begin();
         advance(it, i);
-- 
2.43.0


From 55f86200263c074e40b65f53cd0258ff6b18503b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:22 +0000
Subject: [PATCH 62/66] fix: a sliding contact whose friction does not exist
 crashed the Aster writer

---
 Abstract/Constraint.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Abstract/Constraint.cpp b/Abstract/Constraint.cpp
index 1ed0656..4c7b855 100644
--- a/Abstract/Constraint.cpp
+++ b/Abstract/Constraint.cpp
@@ -728,6 +728,9 @@ double SlideContact::getFriction() const {
     if (friction != ValueOrReference::EMPTY_VALUE) {
         if (friction.isReference()) {
             const auto& val = static_pointer_cast<const ScalarValue<double>>(model.find(friction.getReference()));
+            if (val == nullptr) {
+                throw logic_error("Friction not found for a sliding contact");
+            }
             return val->number;
 
         } else {
-- 
2.43.0


From 060797fa49c2f9e9b0725edc98996ffddf0350e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:48 +0000
Subject: [PATCH 63/66] fix: a composite layer whose material is neither
 elastic nor orthotropic was a null pointer

---
 Abstract/Model.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 9d043ba..b93c450 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -2221,6 +2221,9 @@ void Model::replaceIsotropicMaterialsInComposites() {
             }
             if (not material->hasNature(Nature::NatureType::NATURE_ORTHOTROPIC)) {
                 const auto& elasticNature = static_pointer_cast<ElasticNature>(material->findNature(Nature::NatureType::NATURE_ELASTIC));
+                if (elasticNature == nullptr) {
+                    throw logic_error("Material: " + to_str(*material) + " of a composite layer is neither elastic nor orthotropic.");
+                }
                 const auto& orthoMaterial = make_shared<Material>(*this);
                 orthoMaterial->addNature(make_shared<OrthotropicNature>(*this,
                                                                    elasticNature->getE(),
-- 
2.43.0


From 5d9f700ceb614e7c6086c46f1063ce3a41ba9f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:48 +0000
Subject: [PATCH 64/66] fix: a buckling analysis without a static one crashed
 the Aster writer

---
 Aster/AsterWriter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index f521d5a..8aaf8d9 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -3048,6 +3048,9 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
 	}
     case Analysis::Type::LINEAR_BUCKLING: {
         const auto& linearBuckling = static_pointer_cast<LinearBuckling>(analysis);
+        if (linearBuckling->getStaticSubAnalysis() == nullptr) {
+            throw WritingException("Static analysis not found for " + to_str(*linearBuckling));
+        }
 
         comm_file_ofs << "FSIG" << linearBuckling->getId() << " = CREA_CHAMP(OPERATION='EXTR'," << endl;
         comm_file_ofs << "            TYPE_CHAM='ELGA_SIEF_R'," << endl;
-- 
2.43.0


From 74d952e4c9700ca36f225180c7ffde075a8d5b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:48 +0000
Subject: [PATCH 65/66] fix: an OFREQUENCY whose SET does not exist crashed the
 Aster writer

---
 Abstract/Objective.cpp    | 4 ++++
 Abstract/Objective.h      | 1 +
 Nastran/NastranWriter.cpp | 1 +
 3 files changed, 6 insertions(+)

diff --git a/Abstract/Objective.cpp b/Abstract/Objective.cpp
index 502c241..5f5cfa3 100644
--- a/Abstract/Objective.cpp
+++ b/Abstract/Objective.cpp
@@ -378,5 +378,9 @@ std::shared_ptr<NamedValue> FrequencyOutput::getCollection() const {
     return nullptr;
 }
 
+bool FrequencyOutput::validate() const {
+    return getCollection() != nullptr;
+}
+
 } /* namespace vega */
 
diff --git a/Abstract/Objective.h b/Abstract/Objective.h
index 53c14eb..f8b756f 100644
--- a/Abstract/Objective.h
+++ b/Abstract/Objective.h
@@ -336,6 +336,7 @@ private:
 public:
     FrequencyOutput(Model& model, const std::shared_ptr<ObjectiveSet>, std::shared_ptr<Reference<NamedValue>> collection = nullptr, int original_id = NO_ORIGINAL_ID);
     std::shared_ptr<NamedValue> getCollection() const;
+    bool validate() const override;
 };
 
 
diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index aaea091..ec10d7f 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -592,6 +592,7 @@ void NastranWriter::writeLoadings(const Model& model, ofstream& out) const
             const auto& forceSurface = dynamic_pointer_cast<ForceSurfaceTwoNodes>(loading);
             if (forceSurface == nullptr) {
                 handleWritingError("Need to implement writing other ForceSurface subclasses");
+                continue;
             }
             const auto& cellPositions = forceSurface->getCellPositionsIncludingGroups();
             for (const pos_t cellPosition: cellPositions) {
-- 
2.43.0


From f1f39b6ef3eac271bc1049e06af3d3044f066a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:19 +0000
Subject: [PATCH 66/66] fix: an unknown normalisation of EIGB, EIGR or EIGRL
 was MAX, not the default it announced

---
 Nastran/NastranParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index aa60efc..8020ce8 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1569,7 +1569,7 @@ void NastranParser::parseEIGB(NastranTokenizer& tok, Model& model) {
         norm = FrequencySearch::NormType::MAX;
     else {
         handleParsingWarning("Only MASS and MAX normalizing method (NORM) supported. Default (MASS) assumed.", tok, model);
-        norm = FrequencySearch::NormType::MAX;
+        norm = FrequencySearch::NormType::MASS;
     }
     int g = tok.nextInt(true);
     if (g!=Globals::UNAVAILABLE_INT){
@@ -1618,7 +1618,7 @@ void NastranParser::parseEIGR(NastranTokenizer& tok, Model& model) {
         norm = FrequencySearch::NormType::MAX;
     else {
         handleParsingWarning("Only MASS and MAX normalizing method (NORM) supported. Default (MASS) assumed.", tok, model);
-        norm = FrequencySearch::NormType::MAX;
+        norm = FrequencySearch::NormType::MASS;
     }
     int g = tok.nextInt(true);
     if (g!=Globals::UNAVAILABLE_INT){
@@ -1674,7 +1674,7 @@ void NastranParser::parseEIGRL(NastranTokenizer& tok, Model& model) {
         norm = FrequencySearch::NormType::MAX;
     else {
         handleParsingWarning("Only MASS and MAX normalizing method (NORM) supported. Default (MASS) assumed.", tok, model);
-        norm = FrequencySearch::NormType::MAX;
+        norm = FrequencySearch::NormType::MASS;
     }
     const auto& bandRange = make_shared<BandRange>(model, lower, nd, upper);
     //bandRange.setParaX(Function::ParaName::FREQ);
-- 
2.43.0

