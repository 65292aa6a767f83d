From d809ce27d5ba28f4f3f379277d8559c92736b05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:49 +0000
Subject: [PATCH 01/12] fix: zero-fill short vectors read from the case file
 and refuse long ones

A vector given with fewer than three entries left the remaining components
uninitialised, and one with more than three wrote past the end.
---
 src/driver/driver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index c5c2323..ed0ab13 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -345,7 +345,9 @@ mfem::Vector assembleCenterVector(const json& source_center)
 
 mfem::Vector assemble3DVector(const json& input)
 {
+	checkIfThrows(input.size() <= 3, "A vector with more than three components has been defined in the JSON.");
 	mfem::Vector res(3);
+	res = 0.0;
 	for (int i = 0; i < input.size(); i++) {
 		res[i] = input[i];
 	}
-- 
2.43.0


From 4452858ea1ea0ea01bb0555aa1cb8daf6b9d7237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:49 +0000
Subject: [PATCH 02/12] fix: refuse initial sources with an unknown magnitude
 type

Such a source was silently dropped and the run started from a zero field.
---
 src/driver/driver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index ed0ab13..a55a208 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -563,6 +563,9 @@ Sources buildSources(const json& case_data, const mfem::Mesh* mesh)
 					assemble3DVector(case_data["sources"][s]["polarization"]))
 				);
 			}
+			else {
+				throw std::runtime_error("Unknown initial source magnitude type in Json.");
+			}
 		}
 		else if (case_data["sources"][s]["type"] == "planewave") {
 			const auto& mag = case_data["sources"][s]["magnitude"];
-- 
2.43.0


From 9c354390ce99d154efec445481efde56812fd4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:49 +0000
Subject: [PATCH 03/12] fix: keep probe intervals defined for every case file

An interval of zero steps reached the export cadence as a modulo by zero, and
asking for a number of saves read the final time and time step of the case
file even when they were left to their defaults.
---
 src/driver/driver.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index a55a208..7c22a90 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -721,14 +721,15 @@ Probes buildProbes(const json& case_data)
     // call ProbesManager::recalculateExportSteps() once the real dt is known.
     auto calculate_interval = [&](const json& probe_data) -> int {
         if (probe_data.contains("steps")) {
-            return probe_data["steps"]; // Legacy manual step interval
+            return std::max(1, probe_data["steps"].get<int>()); // Legacy manual step interval
         }
         else if (probe_data.contains("saves")) {
             int requested_saves = probe_data["saves"];
             if (requested_saves <= 0) return 1;
 
-            double t_final = case_data["solver_options"]["final_time"].get<double>();
-            double dt = case_data["solver_options"]["time_step"].get<double>();
+            const auto opts = buildSolverOptions(case_data);
+            double t_final = opts.final_time;
+            double dt = opts.time_step;
             if (dt <= 0.0) return 1; // Placeholder; will be corrected by recalculateExportSteps
 
             int total_simulation_steps = static_cast<int>(std::ceil(t_final / dt));
-- 
2.43.0


From ef2cb4f059e5fb3bcfddd070a6c1557189391731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:44 +0000
Subject: [PATCH 04/12] fix: validate the boundary section before reading its
 tags

---
 src/driver/driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index 7c22a90..4eb0e4f 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -1254,8 +1254,8 @@ Model buildModel(const json& case_data, const std::string& case_path, const bool
         mesh = assembleMesh(assembleLauncherMeshString(case_data["model"]["filename"], case_path));
     }
 
-    auto att_to_material{ assembleAttributeToMaterial(case_data, mesh) };
     auto att_to_bdr_info{ assembleAttributeToBoundary(case_data, mesh) };
+    auto att_to_material{ assembleAttributeToMaterial(case_data, mesh) };
 
     if (!att_to_bdr_info.gt2b.empty() && !att_to_material.gt2m.empty()) {
         if (isTest) {
-- 
2.43.0


From 5443b1e5976b8a27a311e8b1c353e88a2dfa379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:44 +0000
Subject: [PATCH 05/12] fix: refuse boundary tags beyond the attributes of the
 mesh

---
 src/components/Model.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/components/Model.cpp b/src/components/Model.cpp
index 5dcb966..2a00b4d 100644
--- a/src/components/Model.cpp
+++ b/src/components/Model.cpp
@@ -186,6 +186,9 @@ void Model::assembleGeomTagToTypeMap(
 		if (geomTag <= 0) {
 			throw std::runtime_error("geomTag <= 0 in GeomTagToTypeMap assembly.");
 		}
+		if (geomTag > pmesh_.bdr_attributes.Max()) {
+			throw std::runtime_error("geomTag beyond the boundary attributes of the mesh in GeomTagToTypeMap assembly.");
+		}
 
 		auto& marker{ getMarker(bdr, isInterior) };
 
-- 
2.43.0


From ad840f1ba26fb883f5e474625066d358744e84b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:26:28 +0000
Subject: [PATCH 06/12] fix: skip point and field probes that no element
 contains

A probe outside the mesh gets element -1 from the point search. The export
and update code only skipped -2 (found by another process), so it evaluated
the field on element -1.
---
 src/solver/ProbesManager.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/solver/ProbesManager.cpp b/src/solver/ProbesManager.cpp
index e338b0e..edf283a 100644
--- a/src/solver/ProbesManager.cpp
+++ b/src/solver/ProbesManager.cpp
@@ -199,7 +199,7 @@ void ProbesManager::initPointFieldProbeExport()
         for (const auto& p : probes.pointProbes) {
             if(p.write){
                 const auto& it{ pointProbesCollection_.find(&p) };
-                if (it != pointProbesCollection_.end() && it->second.fesPoint.elementId != -2) {
+                if (it != pointProbesCollection_.end() && it->second.fesPoint.elementId >= 0) {
                     std::ofstream myfile;
                     std::string path(base_path + "PointProbe" + std::to_string(p.getProbeID()) + ".dat");
                     std::vector<double> position = std::vector<double>({0.0, 0.0, 0.0});
@@ -236,7 +236,7 @@ void ProbesManager::initPointFieldProbeExport()
         for (const auto& p : probes.fieldProbes) {
             if(p.write){
                 const auto& it{ fieldProbesCollection_.find(&p) };
-                if (it != fieldProbesCollection_.end() && it->second.fesPoint.elementId != -2) {
+                if (it != fieldProbesCollection_.end() && it->second.fesPoint.elementId >= 0) {
                     std::ofstream myfile;
                     std::string path(base_path + "FieldProbe" + std::to_string(p.getProbeID()) + ".dat");
                     std::vector<double> position = std::vector<double>({0.0, 0.0, 0.0});
@@ -352,7 +352,7 @@ void ProbesManager::updateProbe(FieldProbe& p, Time time)
     const auto& it{ fieldProbesCollection_.find(&p) };
     assert(it != fieldProbesCollection_.end());
     const auto& pC{ it->second };
-    if (pC.fesPoint.elementId != -2){
+    if (pC.fesPoint.elementId >= 0){
 
         real_t gf_value = pC.field.GetValue(pC.fesPoint.elementId, pC.fesPoint.iP);
 
@@ -383,7 +383,7 @@ void ProbesManager::updateProbe(PointProbe& p, Time time)
     const auto& it{ pointProbesCollection_.find(&p) };
     assert(it != pointProbesCollection_.end());
     const auto& pC{ it->second };
-    if (pC.fesPoint.elementId != -2){
+    if (pC.fesPoint.elementId >= 0){
         FieldsForMovie f4FP;
         {
             f4FP.Ex = pC.field_Ex.GetValue(pC.fesPoint.elementId, pC.fesPoint.iP);
-- 
2.43.0


From 02cb58d64b3a517633dad83d2778983928656a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:40:48 +0000
Subject: [PATCH 07/12] fix: refuse to normalise cross sections when the case
 has no plane wave

---
 src/components/FarField.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/components/FarField.cpp b/src/components/FarField.cpp
index 290eb3a..b35776e 100644
--- a/src/components/FarField.cpp
+++ b/src/components/FarField.cpp
@@ -208,9 +208,11 @@ PlaneWaveData buildPlaneWaveData(const json& json, const std::string& meshDir)
 	double spread(-1e5);
 	double projMean(-1e5);
 	double frequency(0.0);
+	bool found{ false };
 
 	for (auto s{ 0 }; s < json["sources"].size(); s++) {
 		if (json["sources"][s]["type"] == "planewave") {
+			found = true;
 			const auto& mag = json["sources"][s]["magnitude"];
 			spread = mag["spread"].get<double>();
 			mfem::Vector propagation = driver::assemble3DVector(json["sources"][s]["propagation"]);
@@ -260,7 +262,7 @@ PlaneWaveData buildPlaneWaveData(const json& json, const std::string& meshDir)
 		}
 	}
 
-	if (std::abs(spread - 1e5) < 1e-6 || std::abs(projMean - 1e5) < 1e-6) {
+	if (!found) {
 		throw std::runtime_error("Verify PlaneWaveData inputs for RCS normalization term.");
 	}
 
-- 
2.43.0


From 5c76db1d12fe985787129bcb968d48b917e75a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:40:48 +0000
Subject: [PATCH 08/12] fix: ignore an incomplete last snapshot and refuse
 incomplete surface geometry

---
 src/components/RCSSurfacePostProcessor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/components/RCSSurfacePostProcessor.cpp b/src/components/RCSSurfacePostProcessor.cpp
index e39d8ce..0ecf517 100644
--- a/src/components/RCSSurfacePostProcessor.cpp
+++ b/src/components/RCSSurfacePostProcessor.cpp
@@ -81,6 +81,7 @@ RCSSurfacePostProcessor::readRankData(const std::string& rankPath) const
 
     int32_t hdr[5];
     f.read(reinterpret_cast<char*>(hdr), sizeof(hdr));
+    if (!f) throw std::runtime_error("Incomplete surface data in " + rankPath);
     rd.geometry.spaceDimension = hdr[0];
     rd.geometry.numDofs        = hdr[1];
     rd.geometry.numBdrElements = hdr[2];
@@ -100,6 +101,7 @@ RCSSurfacePostProcessor::readRankData(const std::string& rankPath) const
            nqp * 3 * sizeof(double));
     f.read(reinterpret_cast<char*>(rd.geometry.weights.data()),
            nqp * sizeof(double));
+    if (!f) throw std::runtime_error("Incomplete surface data in " + rankPath);
 
     const int ndofs = rd.geometry.numDofs;
     while (f.peek() != EOF) {
@@ -112,6 +114,7 @@ RCSSurfacePostProcessor::readRankData(const std::string& rankPath) const
             vec->resize(ndofs);
             f.read(reinterpret_cast<char*>(vec->data()), ndofs * sizeof(double));
         }
+        if (!f) break;
         rd.snapshots.push_back(std::move(snap));
     }
     return rd;
-- 
2.43.0


From 1759b728894e960e37dcb4d917f5b832a088327b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:14:15 +0000
Subject: [PATCH 09/12] fix: refuse surface probes on tags the mesh does not
 have

---
 src/solver/ProbesManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/ProbesManager.cpp b/src/solver/ProbesManager.cpp
index edf283a..68b129a 100644
--- a/src/solver/ProbesManager.cpp
+++ b/src/solver/ProbesManager.cpp
@@ -533,6 +533,9 @@ Array<int> buildSurfaceMarker(const std::vector<int>& tags, const ParFiniteEleme
     Array<int> res(fes.GetMesh()->bdr_attributes.Max());
     res = 0;
     for (const auto& t : tags) {
+        if (t < 1 || t > res.Size()) {
+            throw std::runtime_error("Surface probe tag " + std::to_string(t) + " is not a boundary attribute of the mesh.");
+        }
         res[t - 1] = 1;
     }
     return res;
-- 
2.43.0


From 26836d9a13a67db1c7b08a1535ed102cc671aa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:56:39 +0000
Subject: [PATCH 10/12] fix: automatic time step for piecewise constant
 elements

For order 0 the reference line has a single node, so the spacing of its
first two nodes was read past the end of the node vector. Use the length
of the reference element, as the one dimensional case already does.
---
 src/solver/Solver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/Solver.cpp b/src/solver/Solver.cpp
index 9504984..7a703be 100644
--- a/src/solver/Solver.cpp
+++ b/src/solver/Solver.cpp
@@ -259,6 +259,10 @@ double getJacobiGQ_RMin(const int order) {
     mfem::GridFunction nodes(&fes);
     mesh.GetNodes(nodes);
 
+    if (nodes.Size() == 1) {
+        return mesh.GetElementSize(0);
+    }
+
     return std::abs(nodes(0) - nodes(1));
 }
 std::vector<Source::Position> getVerticesCoordsForElem(const mfem::ParFiniteElementSpace& fes, const ElementId& e, const std::vector<Source::Position>& positions)
-- 
2.43.0


From 62949a88db62db41616e710c00bb7ecbaf522018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:04:28 +0000
Subject: [PATCH 11/12] fix: reference square of the element-wise operator has
 side two

The reference matrices of quadrilaterals were assembled on a square of side
one while they are scaled as those of a square of side two, so the rates of
straight quadrilaterals came out four times too large.
---
 src/evolution/HesthavenEvolution.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evolution/HesthavenEvolution.cpp b/src/evolution/HesthavenEvolution.cpp
index f678a83..e5184a2 100644
--- a/src/evolution/HesthavenEvolution.cpp
+++ b/src/evolution/HesthavenEvolution.cpp
@@ -32,7 +32,7 @@ Mesh getRefMeshForGeomType(const Element::Type elType, const int dimension)
 		case Element::Type::TRIANGLE:
 			return Mesh::MakeCartesian2D(1, 1, elType, true, 2.0, 2.0);
 		case Element::Type::QUADRILATERAL:
-			return Mesh::MakeCartesian2D(1, 1, elType);
+			return Mesh::MakeCartesian2D(1, 1, elType, true, 2.0, 2.0);
 		default:
 			throw std::runtime_error("Incorrect Element Type for dimension 2 mesh.");
 		}
-- 
2.43.0


From a4b559b86259047c964a0def1bfe24160d2225a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:53:05 +0000
Subject: [PATCH 12/12] fix: solve implicit stages of a distributed run over
 all processes

The dense solver was chosen on processes without neighbour unknowns even
though other processes of the run used the iterative solver. The iterative
solver took its norms over the local unknowns only. Both made processes
disagree on how many field exchanges an implicit stage needs.
---
 src/evolution/GlobalEvolution.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evolution/GlobalEvolution.cpp b/src/evolution/GlobalEvolution.cpp
index db84650..b29a8dc 100644
--- a/src/evolution/GlobalEvolution.cpp
+++ b/src/evolution/GlobalEvolution.cpp
@@ -1147,7 +1147,7 @@ void GlobalEvolution::ImplicitSolve(const double dt,
     // For small serial systems (SGBC sub-solver), use cached dense LU
     // factorization. One-time cost: form A as dense + LU factor.
     // Per-solve cost: O(n^2) back-substitution instead of ~30 GMRES iterations.
-    if (nbrDofs == 0 && n <= dense_solve_threshold_) {
+    if (fes_.GetNRanks() == 1 && n <= dense_solve_threshold_) {
         // One-time: form dense copy of globalOperator_
         if (!dense_A_formed_) {
             globalOperator_->ToDenseMatrix(A_dense_);
@@ -1218,7 +1218,7 @@ void GlobalEvolution::ImplicitSolve(const double dt,
             }
         } J(n, std::function<void(const mfem::Vector&, mfem::Vector&)>(applyA_parallel), dt);
 
-        mfem::GMRESSolver gmres;
+        mfem::GMRESSolver gmres(fes_.GetComm());
         gmres.SetOperator(J);
         gmres.SetRelTol(1e-8);
         gmres.SetMaxIter(400);
-- 
2.43.0

