From 0e0dfd947af58010febac61f4488c9b9ff780f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:15:26 +0000
Subject: [PATCH 01/35] fix: initialise the missing components of short vectors
 in case files

---
 src/driver/driver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index c5c2323..83b1a25 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -346,6 +346,7 @@ mfem::Vector assembleCenterVector(const json& source_center)
 mfem::Vector assemble3DVector(const json& input)
 {
 	mfem::Vector res(3);
+	res = 0.0;
 	for (int i = 0; i < input.size(); i++) {
 		res[i] = input[i];
 	}
-- 
2.43.0


From 5afed8d505a3d47668a8adc560fa30fc967956a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:15:26 +0000
Subject: [PATCH 02/35] fix: recognise quadrilateral and hexahedral meshes when
 repairing mesh files

---
 src/driver/driver.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index 83b1a25..ec8d204 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -1060,6 +1060,8 @@ static const std::unordered_set<int> kLineTypes     = {1, 8, 26, 27, 28};
 // Element types that define the problem dimension.
 static const std::unordered_set<int> kTetTypes      = {4, 11, 29};  // tet4, tet10, tet20
 static const std::unordered_set<int> kTriTypes      = {2, 9, 20, 21}; // tri3, tri6, tri9, tri10
+static const std::unordered_set<int> kHexTypes      = {5, 12, 17, 92}; // hex8, hex27, hex20, hex64
+static const std::unordered_set<int> kQuadTypes     = {3, 10, 16, 36}; // quad4, quad9, quad8, quad16
 
 static int detectMeshDimension(const std::vector<std::string>& element_lines)
 {
@@ -1068,8 +1070,8 @@ static int detectMeshDimension(const std::vector<std::string>& element_lines)
         std::istringstream iss(line);
         int id, etype;
         if (!(iss >> id >> etype)) continue;
-        if (kTetTypes.count(etype))  return 3;
-        if (kTriTypes.count(etype))  dim = std::max(dim, 2);
+        if (kTetTypes.count(etype) || kHexTypes.count(etype))  return 3;
+        if (kTriTypes.count(etype) || kQuadTypes.count(etype))  dim = std::max(dim, 2);
     }
     return dim;
 }
-- 
2.43.0


From e533e30103f7671970aeecf73de23f4bfed2fd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:51:50 +0000
Subject: [PATCH 03/35] fix: keep the sources when a collection is assigned to
 itself

---
 src/components/Sources.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/components/Sources.h b/src/components/Sources.h
index 1499ba2..6e5264e 100644
--- a/src/components/Sources.h
+++ b/src/components/Sources.h
@@ -85,6 +85,9 @@ public:
 	}
 	Sources& operator=(const Sources& rhs)
 	{
+		if (this == &rhs) {
+			return *this;
+		}
 		v_.clear();
 		for (auto& v : rhs) {
 			v_.push_back(v->clone());
-- 
2.43.0


From a5e64647e81d8c545628329e943553a5d9584b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:51:50 +0000
Subject: [PATCH 04/35] fix: leave a moved-from source collection empty instead
 of full of null sources

---
 src/components/Sources.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/components/Sources.h b/src/components/Sources.h
index 6e5264e..0421088 100644
--- a/src/components/Sources.h
+++ b/src/components/Sources.h
@@ -82,6 +82,7 @@ public:
 		for (auto& v: rhs) {
 			v_.push_back(std::move(v));
 		}
+		rhs.v_.clear();
 	}
 	Sources& operator=(const Sources& rhs)
 	{
@@ -101,6 +102,7 @@ public:
 			for (auto& v : rhs) {
 				v_.push_back(std::move(v));
 			}
+			rhs.v_.clear();
 		}
 		return *this;
 	}
-- 
2.43.0


From b9b09e1b2eb1219117fb57582cbb874045e45acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:54:26 +0000
Subject: [PATCH 05/35] fix: add up the fields of several total-field sources
 instead of injecting the last one repeatedly

---
 src/evolution/MaxwellEvolution.cpp | 3 +++
 src/solver/SourcesManager.cpp      | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/evolution/MaxwellEvolution.cpp b/src/evolution/MaxwellEvolution.cpp
index 3c5b7f9..4c385f6 100644
--- a/src/evolution/MaxwellEvolution.cpp
+++ b/src/evolution/MaxwellEvolution.cpp
@@ -325,6 +325,9 @@ void MaxwellEvolution::Mult(const Vector& in, Vector& out) const
 				eMap.TransferAdd(eTemp[x], eNew[x]);
 
 			}
+
+			// The evaluated function already holds the sum over all total-field sources.
+			break;
 		}
 	}
 }
diff --git a/src/solver/SourcesManager.cpp b/src/solver/SourcesManager.cpp
index 77bf290..9971f94 100644
--- a/src/solver/SourcesManager.cpp
+++ b/src/solver/SourcesManager.cpp
@@ -65,7 +65,9 @@ FieldGridFuncs SourcesManager::evalTimeVarField(const Time time, FiniteElementSp
                 };
                 FunctionCoefficient func(f);
                 func.SetTime(time);
-                cached_tfsf_fields_[ft][d].ProjectCoefficient(func);
+                GridFunction gf(fes);
+                gf.ProjectCoefficient(func);
+                cached_tfsf_fields_[ft][d] += gf;
             }
         }
     }
-- 
2.43.0


From 534179e9909e4cf34bf306c681a4e891faa3c088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:18:38 +0000
Subject: [PATCH 06/35] fix: use the reference quadrilateral of side two in the
 element-wise formulation

The volume and face scalings assume a reference cell of side two, but the
reference mass matrix was built on the unit square, so every rate of change on
a quadrilateral mesh was wrong.
---
 src/evolution/HesthavenEvolution.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evolution/HesthavenEvolution.cpp b/src/evolution/HesthavenEvolution.cpp
index f678a83..e5184a2 100644
--- a/src/evolution/HesthavenEvolution.cpp
+++ b/src/evolution/HesthavenEvolution.cpp
@@ -32,7 +32,7 @@ Mesh getRefMeshForGeomType(const Element::Type elType, const int dimension)
 		case Element::Type::TRIANGLE:
 			return Mesh::MakeCartesian2D(1, 1, elType, true, 2.0, 2.0);
 		case Element::Type::QUADRILATERAL:
-			return Mesh::MakeCartesian2D(1, 1, elType);
+			return Mesh::MakeCartesian2D(1, 1, elType, true, 2.0, 2.0);
 		default:
 			throw std::runtime_error("Incorrect Element Type for dimension 2 mesh.");
 		}
-- 
2.43.0


From af8f2f81d690613b91c2ae14749c84af32d38a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:18:38 +0000
Subject: [PATCH 07/35] fix: mirror the fields fully at interior walls in the
 element-wise formulation

Interior conducting, magnetic and absorbing faces used half of the jump that
exterior ones and the other formulations use.
---
 src/evolution/HesthavenEvolution.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/evolution/HesthavenEvolution.cpp b/src/evolution/HesthavenEvolution.cpp
index e5184a2..5969322 100644
--- a/src/evolution/HesthavenEvolution.cpp
+++ b/src/evolution/HesthavenEvolution.cpp
@@ -306,9 +306,9 @@ void HesthavenEvolution::applyBoundaryConditionsToNodes(const BoundaryMaps& bdrM
 		}
 	};
 
-	applyIntBdrBC(bdrMaps.intPEC, -1.0, 0.0);
-	applyIntBdrBC(bdrMaps.intPMC, 0.0, -1.0);
-	applyIntBdrBC(bdrMaps.intSMA, -0.5, -0.5);
+	applyIntBdrBC(bdrMaps.intPEC, -2.0, 0.0);
+	applyIntBdrBC(bdrMaps.intPMC, 0.0, -2.0);
+	applyIntBdrBC(bdrMaps.intSMA, -1.0 / opts_.alpha, -1.0 / opts_.alpha);
 
 }
 
-- 
2.43.0


From d4d43a8b9851c24fb2fe43b93f7262cedee3cee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:18:38 +0000
Subject: [PATCH 08/35] fix: give absorbing boundaries the full upwind flux in
 the element-wise formulation

With a partial upwind parameter the whole jump was divided by the parameter,
which also scaled the centred part of the flux and let energy grow.
---
 src/evolution/HesthavenEvolution.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/evolution/HesthavenEvolution.cpp b/src/evolution/HesthavenEvolution.cpp
index 5969322..0180d38 100644
--- a/src/evolution/HesthavenEvolution.cpp
+++ b/src/evolution/HesthavenEvolution.cpp
@@ -289,7 +289,7 @@ void HesthavenEvolution::applyBoundaryConditionsToNodes(const BoundaryMaps& bdrM
 
 	applyBdrBC(bdrMaps.PEC, -2.0, 0.0);
 	applyBdrBC(bdrMaps.PMC, 0.0, -2.0);
-	applyBdrBC(bdrMaps.SMA, -1.0 / opts_.alpha, -1.0 / opts_.alpha);
+	applyBdrBC(bdrMaps.SMA, -1.0, -1.0);
 
 	auto applyIntBdrBC = [&](const auto& bc, double e_coeff, double h_coeff) {
 		for (int m = 0; m < bc.mapBElem1.size(); m++) {
@@ -308,7 +308,7 @@ void HesthavenEvolution::applyBoundaryConditionsToNodes(const BoundaryMaps& bdrM
 
 	applyIntBdrBC(bdrMaps.intPEC, -2.0, 0.0);
 	applyIntBdrBC(bdrMaps.intPMC, 0.0, -2.0);
-	applyIntBdrBC(bdrMaps.intSMA, -1.0 / opts_.alpha, -1.0 / opts_.alpha);
+	applyIntBdrBC(bdrMaps.intSMA, -1.0, -1.0);
 
 }
 
@@ -449,7 +449,6 @@ void loadOutVectors(const Eigen::VectorXd& data, const FiniteElementSpace& fes,
 
 void HesthavenEvolution::Mult(const Vector& in, Vector& out) const
 {
-	double alpha = opts_.alpha;
 	in.UseDevice(true);
 	out.UseDevice(true);
 
@@ -482,6 +481,16 @@ void HesthavenEvolution::Mult(const Vector& in, Vector& out) const
 
 	applyBoundaryConditionsToNodes(connectivity_.boundary, fieldsIn, jumps);
 	
+	// Absorbing boundaries always use the full upwind flux.
+	Eigen::VectorXd upwind{ Eigen::VectorXd::Constant(connectivity_.global.size(), opts_.alpha) };
+	for (const auto* maps : { &connectivity_.boundary.SMA.mapB, &connectivity_.boundary.intSMA.mapBElem1, &connectivity_.boundary.intSMA.mapBElem2 }) {
+		for (const auto& nodes : *maps) {
+			for (const auto& v : nodes) {
+				upwind[v] = 1.0;
+			}
+		}
+	}
+
 	// --TOTAL FIELD SCATTERED FIELD-- //
 	
 	evaluateTFSF(jumps);
@@ -505,6 +514,7 @@ void HesthavenEvolution::Mult(const Vector& in, Vector& out) const
 		}
 
 		HesthavenFields elemFlux(elemFluxSize);
+		const Eigen::VectorXd alpha{ upwind.segment(hestElemLinearStorage_[e].id * elemFluxSize, elemFluxSize) };
 
 		for (int x = X; x <= Z; x++) {
 			int y = (x + 1) % 3;
@@ -514,8 +524,8 @@ void HesthavenEvolution::Mult(const Vector& in, Vector& out) const
 			const Eigen::VectorXd& nory = hestElemLinearStorage_[e].normals[y];
 			const Eigen::VectorXd& norz = hestElemLinearStorage_[e].normals[z];
 
-			elemFlux.h_[x] = -1.0 * nory.asDiagonal() * jumpsElem.e_[z] +       norz.asDiagonal() * jumpsElem.e_[y] + alpha * (jumpsElem.h_[x] - ndotdH.asDiagonal() * norx);
-			elemFlux.e_[x] =        nory.asDiagonal() * jumpsElem.h_[z] - 1.0 * norz.asDiagonal() * jumpsElem.h_[y] + alpha * (jumpsElem.e_[x] - ndotdE.asDiagonal() * norx);
+			elemFlux.h_[x] = -1.0 * nory.asDiagonal() * jumpsElem.e_[z] +       norz.asDiagonal() * jumpsElem.e_[y] + alpha.asDiagonal() * (jumpsElem.h_[x] - ndotdH.asDiagonal() * norx);
+			elemFlux.e_[x] =        nory.asDiagonal() * jumpsElem.h_[z] - 1.0 * norz.asDiagonal() * jumpsElem.h_[y] + alpha.asDiagonal() * (jumpsElem.e_[x] - ndotdE.asDiagonal() * norx);
 
 		}
 
-- 
2.43.0


From ac7457fea8d7110b84f67393fbde18b638028afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:21:10 +0000
Subject: [PATCH 09/35] fix: refuse meshes of hexahedra in the element-wise
 formulation

The reference cell in three dimensions is always the tetrahedron, so matrices of
the wrong size were multiplied.
---
 src/evolution/HesthavenEvolution.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evolution/HesthavenEvolution.cpp b/src/evolution/HesthavenEvolution.cpp
index 0180d38..5dc0e3d 100644
--- a/src/evolution/HesthavenEvolution.cpp
+++ b/src/evolution/HesthavenEvolution.cpp
@@ -37,6 +37,9 @@ Mesh getRefMeshForGeomType(const Element::Type elType, const int dimension)
 			throw std::runtime_error("Incorrect Element Type for dimension 2 mesh.");
 		}
 	case 3:
+		if (elType != Element::Type::TETRAHEDRON) {
+			throw std::runtime_error("Hesthaven Evolution Operator only supports tetrahedra in dimension 3.");
+		}
 		return buildHesthavenRefTetrahedra();
 	default:
 		throw std::runtime_error("Hesthaven Evolution Operator only supports dimensions 2 or 3.");
-- 
2.43.0


From 3a2742c430b486ad2da6c39bcbb2455a82a7b21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:27:22 +0000
Subject: [PATCH 10/35] fix: treat elements without a declared material as
 vacuum

Their permittivity and permeability were read as zero, or from beyond the end of
the table when their tag was larger than every declared one.
---
 src/components/Model.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/components/Model.cpp b/src/components/Model.cpp
index 5dcb966..982b233 100644
--- a/src/components/Model.cpp
+++ b/src/components/Model.cpp
@@ -130,7 +130,7 @@ std::size_t Model::numberOfBoundaryMaterials() const
 
 mfem::Vector Model::initialiseGeomTagVector() const
 {
-	int size{ 0 };
+	int size{ pmesh_.attributes.Size() > 0 ? pmesh_.attributes.Max() : 0 };
 	for (auto const& [geomTag, mat] : attToMatMap_) {
 		if (geomTag >= size) {
 			size = geomTag;
@@ -145,6 +145,7 @@ mfem::Vector Model::initialiseGeomTagVector() const
 mfem::Vector Model::buildEpsMuPiecewiseVector(const FieldType& f) const
 {
 	auto res{ initialiseGeomTagVector() };
+	res = 1.0; // Elements without a declared material are vacuum.
 
 	for (auto const& [geomTag, mat] : attToMatMap_) {
 		switch (f) {
-- 
2.43.0


From 4c2c09af8316380fe5949fedb3cb521596c7d5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:27:22 +0000
Subject: [PATCH 11/35] fix: refuse boundary tags that the mesh does not have

A condition for a tag beyond the largest one in the mesh wrote past the end of
the boundary markers.
---
 src/driver/driver.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index ec8d204..a0f3897 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -1020,6 +1020,14 @@ GeomTagToBoundaryInfo assembleAttributeToBoundary(const json& case_data, const m
 	checkBoundaryInputProperties(case_data);
 	auto face2BdrEl{ mesh.GetFaceToBdrElMap() };
 
+	for (const auto& boundary : case_data["model"]["boundaries"]) {
+		for (const auto& tag : boundary["tags"]) {
+			checkIfThrows(mesh.bdr_attributes.Find(tag.get<int>()) != -1,
+				"There is no bdr_attribute " + std::to_string(tag.get<int>()) +
+				" defined in the mesh, but it is defined in the JSON.");
+		}
+	}
+
 	geomTag2Info gt2i;
 
 	for (auto b = 0; b < case_data["model"]["boundaries"].size(); b++) {
-- 
2.43.0


From eab7ef54efe8e1dbb733230da69640a6bd5cd3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:27:22 +0000
Subject: [PATCH 12/35] fix: apply a boundary condition to every face of a tag
 used both inside and outside

When some face of a tag lies inside the mesh, the faces of that tag on the outer
boundary were left without their condition.
---
 src/driver/driver.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index a0f3897..57c072a 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -1015,6 +1015,7 @@ GeomTagToBoundaryInfo assembleAttributeToBoundary(const json& case_data, const m
 	struct geomTag2Info {
 		std::map<GeomTag, BdrCond> geomTag2BdrCond;
 		std::map<GeomTag, isInterior> geomTag2IsInterior;
+		std::map<GeomTag, bool> geomTag2IsExterior;
 	};
 
 	checkBoundaryInputProperties(case_data);
@@ -1036,10 +1037,13 @@ GeomTagToBoundaryInfo assembleAttributeToBoundary(const json& case_data, const m
 			gt2i.geomTag2IsInterior.emplace(case_data["model"]["boundaries"][b]["tags"][a], false);
 			for (auto f = 0; f < mesh.GetNumFaces(); f++) {
 				if (face2BdrEl[f] != -1) {
-					if (mesh.GetBdrAttribute(face2BdrEl[f]) == case_data["model"]["boundaries"][b]["tags"][a] 
-						&& mesh.FaceIsInterior(f)) {
-						gt2i.geomTag2IsInterior[case_data["model"]["boundaries"][b]["tags"][a]] = true;
-						break;
+					if (mesh.GetBdrAttribute(face2BdrEl[f]) == case_data["model"]["boundaries"][b]["tags"][a]) {
+						if (mesh.FaceIsInterior(f)) {
+							gt2i.geomTag2IsInterior[case_data["model"]["boundaries"][b]["tags"][a]] = true;
+						}
+						else {
+							gt2i.geomTag2IsExterior[case_data["model"]["boundaries"][b]["tags"][a]] = true;
+						}
 					}
 				}
 			}
@@ -1054,6 +1058,9 @@ GeomTagToBoundaryInfo assembleAttributeToBoundary(const json& case_data, const m
 			break;
 		case true:
 			res.gt2ib.emplace(att, gt2i.geomTag2BdrCond[att]);
+			if (gt2i.geomTag2IsExterior[att]) {
+				res.gt2b.emplace(att, gt2i.geomTag2BdrCond[att]);
+			}
 			break;
 		}
 	}
-- 
2.43.0


From 2ee506ee6c97a562a5361ded3f186f7b0cf8be98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:38 +0000
Subject: [PATCH 13/35] fix: refuse initial sources with an unknown magnitude
 type

Such a source was dropped without a word and the run went on without it.
---
 src/driver/driver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index 57c072a..cae4f6f 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -562,6 +562,9 @@ Sources buildSources(const json& case_data, const mfem::Mesh* mesh)
 					assemble3DVector(case_data["sources"][s]["polarization"]))
 				);
 			}
+			else {
+				throw std::runtime_error("Unknown magnitude type for initial source in Json.");
+			}
 		}
 		else if (case_data["sources"][s]["type"] == "planewave") {
 			const auto& mag = case_data["sources"][s]["magnitude"];
-- 
2.43.0


From 23d9fadda26fa822d3d54a45bdd7e099811852d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:38 +0000
Subject: [PATCH 14/35] fix: refuse vectors with more than three components in
 case files

The extra components were written past the end of the vector.
---
 src/driver/driver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index cae4f6f..ff98ab6 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -345,6 +345,7 @@ mfem::Vector assembleCenterVector(const json& source_center)
 
 mfem::Vector assemble3DVector(const json& input)
 {
+	checkIfThrows(input.size() <= 3, "A vector in the JSON has more than three components.");
 	mfem::Vector res(3);
 	res = 0.0;
 	for (int i = 0; i < input.size(); i++) {
-- 
2.43.0


From 7a35317c83984c3f5f7c04cf6126c1c6cbe4e027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:38 +0000
Subject: [PATCH 15/35] fix: handle probe intervals when times are left at
 their defaults

A probe with 'saves' read final_time and time_step even if they were not
in the file, and 'steps' below one divided by zero in the first step.
---
 src/driver/driver.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index ff98ab6..266d3c2 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -721,14 +721,17 @@ Probes buildProbes(const json& case_data)
     // call ProbesManager::recalculateExportSteps() once the real dt is known.
     auto calculate_interval = [&](const json& probe_data) -> int {
         if (probe_data.contains("steps")) {
-            return probe_data["steps"]; // Legacy manual step interval
+            int steps = probe_data["steps"]; // Legacy manual step interval
+            checkIfThrows(steps > 0, "Probe 'steps' must be at least 1.");
+            return steps;
         }
         else if (probe_data.contains("saves")) {
             int requested_saves = probe_data["saves"];
             if (requested_saves <= 0) return 1;
 
-            double t_final = case_data["solver_options"]["final_time"].get<double>();
-            double dt = case_data["solver_options"]["time_step"].get<double>();
+            const auto opts = buildSolverOptions(case_data);
+            double t_final = opts.final_time;
+            double dt = opts.time_step;
             if (dt <= 0.0) return 1; // Placeholder; will be corrected by recalculateExportSteps
 
             int total_simulation_steps = static_cast<int>(std::ceil(t_final / dt));
-- 
2.43.0


From 57952ada27d531f4c46d30f3f7fac3d5e79f7baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:38 +0000
Subject: [PATCH 16/35] fix: refuse negative time steps and CFL numbers above
 one

The README gives (0, 1] as the range of cfl.  A negative step made the
run go backwards without ever reaching the final time.
---
 src/solver/Solver.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/solver/Solver.cpp b/src/solver/Solver.cpp
index 9504984..94f7c49 100644
--- a/src/solver/Solver.cpp
+++ b/src/solver/Solver.cpp
@@ -152,12 +152,13 @@ void Solver::checkOptionsAreValid(const SolverOptions& opts) const
 {
     
     if ((opts.evolution.order < 0) ||
-        (opts.final_time < 0)) {
+        (opts.final_time < 0) ||
+        (opts.time_step < 0)) {
         throw std::runtime_error("Incorrect parameters in Options");
     }
 
-    if (opts.cfl <= 0.0) {
-        throw std::runtime_error("CFL must be positive");
+    if (opts.cfl <= 0.0 || opts.cfl > 1.0) {
+        throw std::runtime_error("CFL must be in the range (0, 1]");
     }
 
 }
-- 
2.43.0


From 15bde91710bbccc0bb9840824756c9bdcc396465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:38 +0000
Subject: [PATCH 17/35] fix: document the default order the solver really uses

---
 README.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/README.md b/README.md
index 1f76262..21b6152 100644
--- a/README.md
+++ b/README.md
@@ -117,7 +117,7 @@ An OpenSEMBA/dgtd JSON file must have the following structure; **bold** entries
 		- cfl:
 			- Double. Courant–Friedrichs–Lewy condition used to compute the automatic time step in 1D. Not available for 2D or 3D. Ignored if `time_step` is also defined. Must be in the range (0.0, 1.0].
 		- order:
-			- Integer. Polynomial order of the finite element basis. If undefined, defaults to `3`.
+			- Integer. Polynomial order of the finite element basis. If undefined, defaults to `2`.
 		- spectral:
 			- Boolean. Use a spectral evolution operator that assembles the full E/H system matrix and derives the time step from its eigenvalues. High computational cost; does not support all features. If undefined, defaults to `false`.
 		- export_operator:
-- 
2.43.0


From 014f37625d2614e0024af945c84e652a57e3b4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:38 +0000
Subject: [PATCH 18/35] fix: refuse total field surfaces that cannot be
 honoured

A source whose tags are not in the mesh was never injected, and a second
source with other tags was injected through the surface of the first.
---
 src/driver/driver.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index 266d3c2..d39da4f 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -9,6 +9,7 @@
 #include <cmath>
 #include <iomanip>
 #include <limits>
+#include <set>
 #include <sstream>
 #include <filesystem>
 #include <fstream>
@@ -1577,12 +1578,20 @@ maxwell::Solver buildSolverJson(const std::string& case_name, const bool isTest)
 
 void postProcessInformation(const json& case_data, maxwell::Model& model, maxwell::SolverOptions& solverOpts) 
 {
+	std::set<int> total_field_surface;
 	for (auto s{ 0 }; s < case_data["sources"].size(); s++) {
 		mfem::Array<int> tfsf_tags;
 		if (case_data["sources"][s]["type"] == "planewave" || case_data["sources"][s]["type"] == "dipole") {
 			for (auto t{ 0 }; t < case_data["sources"][s]["tags"].size(); t++) {
 				tfsf_tags.Append(case_data["sources"][s]["tags"][t]);
+				checkIfThrows(model.getConstSerialMesh().bdr_attributes.Find(tfsf_tags.Last()) != -1,
+					"There is no bdr_attribute " + std::to_string(tfsf_tags.Last()) +
+					" defined in the mesh, but it is used by a source in the JSON.");
 			}
+			std::set<int> surface(tfsf_tags.begin(), tfsf_tags.end());
+			checkIfThrows(total_field_surface.empty() || surface == total_field_surface,
+				"All the total field sources in the JSON must use the same tags.");
+			total_field_surface = surface;
 			auto tfsf_atts_present_in_partition_marker{ model.getMarker(maxwell::BdrCond::TotalFieldIn, true) };
 			tfsf_atts_present_in_partition_marker.SetSize(model.getConstMesh().bdr_attributes.Max());
 			tfsf_atts_present_in_partition_marker = 0;
-- 
2.43.0


From 5dfa52c37b1d2602b73088668f09a886bd8d7030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:47 +0000
Subject: [PATCH 19/35] fix: refuse case files that lack required entries

Reading an entry that is not there is undefined behaviour in the JSON
library for constant documents.  The entries marked as required in the
README are now looked for before anything is read.
---
 src/driver/driver.cpp | 72 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 71 insertions(+), 1 deletion(-)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index d39da4f..a781d52 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -531,6 +531,75 @@ std::unique_ptr<TotalField> buildDerivGaussDipole(
 	return std::make_unique<TotalField>(dip);
 }
 
+void checkEntry(const json& data, const std::string& key, const std::string& where)
+{
+	checkIfThrows(data.contains(key), "JSON data does not include '" + key + "' in " + where + ".");
+	checkIfThrows(!data[key].empty(), "JSON data has an empty '" + key + "' in " + where + ".");
+}
+
+// Entries without which a case has no meaning.
+void checkCaseIsComplete(const json& case_data)
+{
+	checkEntry(case_data, "model", "the case");
+	const auto& model = case_data["model"];
+	checkEntry(model, "filename", "model");
+	checkEntry(model, "materials", "model");
+	for (const auto& material : model["materials"]) {
+		checkEntry(material, "tags", "material");
+	}
+	checkEntry(model, "boundaries", "model");
+	for (const auto& boundary : model["boundaries"]) {
+		checkEntry(boundary, "tags", "boundary");
+		checkEntry(boundary, "type", "boundary");
+		if (boundary.contains("layers")) {
+			checkEntry(boundary, "layers", "boundary");
+		}
+	}
+
+	checkEntry(case_data, "sources", "the case");
+	for (const auto& source : case_data["sources"]) {
+		checkEntry(source, "type", "source");
+		checkEntry(source, "magnitude", "source");
+		const auto& magnitude = source["magnitude"];
+		if (source["type"] == "initial") {
+			checkEntry(source, "field_type", "initial source");
+			checkEntry(source, "polarization", "initial source");
+			checkEntry(magnitude, "type", "magnitude of initial source");
+			if (magnitude["type"] == "gaussian") {
+				checkEntry(magnitude, "spread", "magnitude of initial source");
+				checkEntry(source, "center", "initial source");
+				checkEntry(source, "dimension", "initial source");
+			}
+			if (magnitude["type"] == "resonant") {
+				checkEntry(magnitude, "modes", "magnitude of initial source");
+			}
+		}
+		else {
+			checkEntry(source, "tags", "total field source");
+			checkEntry(magnitude, "spread", "magnitude of total field source");
+		}
+		if (source["type"] == "planewave") {
+			checkEntry(source, "polarization", "planewave source");
+			checkEntry(source, "propagation", "planewave source");
+		}
+		if (source["type"] == "dipole") {
+			checkEntry(magnitude, "length", "magnitude of dipole source");
+		}
+	}
+
+	if (case_data.contains("probes")) {
+		for (const std::string kind : { "point", "field" }) {
+			for (const auto& probe : case_data["probes"].value(kind, json::array())) {
+				checkEntry(probe, "position", kind + " probe");
+			}
+		}
+		for (const auto& probe : case_data["probes"].value("field", json::array())) {
+			checkEntry(probe, "field_type", "field probe");
+			checkEntry(probe, "polarization", "field probe");
+		}
+	}
+}
+
 Sources buildSources(const json& case_data, const mfem::Mesh* mesh)
 {
 	Sources res;
@@ -1680,7 +1749,8 @@ void prepareExportDirectories(Model& model)
 
 maxwell::Solver buildSolver(const json& case_data, const std::string& case_path, const bool isTest)
 {
-	
+	checkCaseIsComplete(case_data);
+
 	maxwell::SolverOptions solverOpts{ buildSolverOptions(case_data) };
 	maxwell::Probes probes{ buildProbes(case_data) };
 	// Model (mesh) must be built before sources so that auto-mean computation
-- 
2.43.0


From ea1b367210bf38184e06b7350015b16696ac80c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:43:57 +0000
Subject: [PATCH 20/35] fix: refuse Gaussian sources whose dimension does not
 fit their center

---
 src/driver/driver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index a781d52..ce9cc8d 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -375,6 +375,9 @@ std::unique_ptr<InitialField> buildGaussianInitialField(
 	const Source::Polarization& p = Source::Polarization({ 0.0,0.0,1.0 }),
 	const int dimension = 1)
 {
+	checkIfThrows(1 <= dimension && dimension <= center_.Size(),
+		"The dimension of a Gaussian must be between one and the number of coordinates of its center.");
+
 	mfem::Vector gaussianCenter(dimension);
 	gaussianCenter = 0.0;
 
-- 
2.43.0


From 1220536d31b804b3b50698327107ea349591087a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:08:07 +0000
Subject: [PATCH 21/35] fix: keep both sides of far-field surfaces on one rank

A far-field surface takes its fields from the elements on one side. When a
face of the surface lay between two ranks, the element that happened to be on
the rank holding the face was taken instead, with the opposite normal.
---
 src/driver/driver.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index ce9cc8d..8031f64 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -1320,6 +1320,23 @@ Array<int> getSGBCTags(const json& case_data)
     return res;
 }
 
+Array<int> getFarFieldSurfaceTags(const json& case_data)
+{
+    Array<int> res;
+    if (!case_data.contains("probes")) return res;
+
+    for (const auto& kind : { "farfield", "rcssurface" }) {
+        if (!case_data["probes"].contains(kind)) continue;
+        for (const auto& probe : case_data["probes"][kind]) {
+            if (!probe.contains("tags")) continue;
+            for (const auto& tag : probe["tags"]) {
+                res.Append(tag.get<int>());
+            }
+        }
+    }
+    return res;
+}
+
 BdrCond assignBoundaryType(const std::string& sgbc_bdr_type)
 {
 	if (sgbc_bdr_type == "PEC"){
@@ -1368,6 +1385,10 @@ Model buildModel(const json& case_data, const std::string& case_path, const bool
     mfem::Array<int> tfsf_tags = getTFSFTags(case_data);
     mfem::Array<int> sgbc_tags  = getSGBCTags(case_data);
 
+    // A far-field surface takes its fields from one side only, so that both
+    // sides of each of its faces have to be known to the rank exporting it.
+    tfsf_tags.Append(getFarFieldSurfaceTags(case_data));
+
     if (tfsf_tags.Size() || sgbc_tags.Size()){
         applyPairwiseConstraintsPartitioning(mesh, partitioning, tfsf_tags, sgbc_tags);
     }
-- 
2.43.0


From a5ba7258ee43168fd6ab4174e76b5555ca1268ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:12:48 +0000
Subject: [PATCH 22/35] fix: let ranks without a piece of the surface skip its
 export

A rank that owns no face of an rcssurface probe failed with an empty submesh,
and with it the whole run. Such a rank now writes nothing, and files an
earlier run left in its folder are removed.
---
 src/solver/ProbesManager.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/solver/ProbesManager.cpp b/src/solver/ProbesManager.cpp
index e338b0e..ada7a1c 100644
--- a/src/solver/ProbesManager.cpp
+++ b/src/solver/ProbesManager.cpp
@@ -562,6 +562,18 @@ void ProbesManager::updateProbe(RCSSurfaceProbe& p, Time t)
     }
 }
 
+// The attributes of a mesh are known to all ranks, its boundary elements only to their owners.
+static bool surfaceIsOnOtherRanks(const std::vector<int>& tags, const Mesh& mesh)
+{
+    for (int be = 0; be < mesh.GetNBE(); ++be) {
+        if (std::find(tags.begin(), tags.end(), mesh.GetBdrAttribute(be)) != tags.end()) {
+            return false;
+        }
+    }
+    return std::any_of(tags.begin(), tags.end(),
+        [&mesh](int tag) { return mesh.bdr_attributes.Find(tag) >= 0; });
+}
+
 void ProbesManager::initRCSSurfaceExporters()
 {
     if (!fields_) return;
@@ -570,6 +582,12 @@ void ProbesManager::initRCSSurfaceExporters()
         if (!dgfec) {
             throw std::runtime_error("The FiniteElementCollection in the FiniteElementSpace is not DG.");
         }
+        if (surfaceIsOnOtherRanks(p.tags, *fes_.GetMesh())) {
+            // What an earlier run left for this rank does not belong to this one.
+            std::filesystem::remove_all("Exports/" + getRunModeTag() + "/" + caseName_ + "/RCSSurface/" + p.name +
+                "/rank" + std::to_string(Mpi::WorldRank()));
+            continue;
+        }
         rcsSurfaceExporters_.emplace(&p,
             std::make_unique<RCSSurfaceExporter>(p, dgfec, fes_, *fields_, caseName_));
     }
-- 
2.43.0


From 520cb9094a5d6a2fc16b397ae22d37d0a3ec0dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:17:48 +0000
Subject: [PATCH 23/35] fix: ignore incomplete snapshots of interrupted surface
 exports

A file cut short by an interruption contributed a partly read last snapshot,
and ranks cut at different snapshots were combined with different numbers of
them. Use the snapshots that are complete on all ranks, and refuse exports
without any.
---
 src/components/RCSSurfacePostProcessor.cpp | 34 +++++++++++++++++++---
 src/components/RCSSurfacePostProcessor.h   |  2 +-
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/components/RCSSurfacePostProcessor.cpp b/src/components/RCSSurfacePostProcessor.cpp
index e39d8ce..0a460c1 100644
--- a/src/components/RCSSurfacePostProcessor.cpp
+++ b/src/components/RCSSurfacePostProcessor.cpp
@@ -72,8 +72,27 @@ static T dot3(const std::array<double,3>& a, const std::array<T,3>& b)
 // I/O
 // ------------------------------------------------------------------
 
+// Number of snapshots completely written to the file of a rank. A run that was
+// interrupted leaves an incomplete one at the end.
+static size_t countCompleteSnapshots(const std::string& rankPath)
+{
+    const std::string name = rankPath + "/surface_data.bin";
+    std::ifstream f(name, std::ios::binary);
+    if (!f) throw std::runtime_error("Cannot open " + name);
+
+    int32_t hdr[5];
+    f.read(reinterpret_cast<char*>(hdr), sizeof(hdr));
+    if (!f) throw std::runtime_error("Incomplete header in " + name);
+
+    const uintmax_t geometry = sizeof(hdr) + sizeof(double) * uintmax_t(hdr[3]) * (hdr[0] + 3 + 1);
+    const uintmax_t snapshot = sizeof(double) * (1 + 6 * uintmax_t(hdr[1]));
+    const uintmax_t size = std::filesystem::file_size(name);
+    if (size < geometry) throw std::runtime_error("Incomplete geometry in " + name);
+    return static_cast<size_t>((size - geometry) / snapshot);
+}
+
 RCSSurfacePostProcessor::RankData
-RCSSurfacePostProcessor::readRankData(const std::string& rankPath) const
+RCSSurfacePostProcessor::readRankData(const std::string& rankPath, size_t numSnapshots) const
 {
     RankData rd;
     std::ifstream f(rankPath + "/surface_data.bin", std::ios::binary);
@@ -102,16 +121,16 @@ RCSSurfacePostProcessor::readRankData(const std::string& rankPath) const
            nqp * sizeof(double));
 
     const int ndofs = rd.geometry.numDofs;
-    while (f.peek() != EOF) {
+    for (size_t s = 0; s < numSnapshots; ++s) {
         SurfaceSnapshot snap;
         f.read(reinterpret_cast<char*>(&snap.time), sizeof(double));
-        if (!f) break;
 
         for (auto* vec : {&snap.Ex, &snap.Ey, &snap.Ez,
                           &snap.Hx, &snap.Hy, &snap.Hz}) {
             vec->resize(ndofs);
             f.read(reinterpret_cast<char*>(vec->data()), ndofs * sizeof(double));
         }
+        if (!f) throw std::runtime_error("Cannot read " + rankPath + "/surface_data.bin");
         rd.snapshots.push_back(std::move(snap));
     }
     return rd;
@@ -186,6 +205,13 @@ void RCSSurfacePostProcessor::computeAndWriteResults(
     if (rankPaths.empty())
         throw std::runtime_error("No rank folders in " + dataPath);
 
+    // Only snapshots that all ranks have completed can be used.
+    size_t numSnapshots = countCompleteSnapshots(rankPaths.front());
+    for (const auto& rp : rankPaths)
+        numSnapshots = std::min(numSnapshots, countCompleteSnapshots(rp));
+    if (numSnapshots == 0)
+        throw std::runtime_error("No complete snapshots in " + dataPath);
+
     std::cout << "[RCS] Post-processing started.\n"
               << "  Data path  : " << dataPath << "\n"
               << "  Ranks      : " << rankPaths.size()
@@ -223,7 +249,7 @@ void RCSSurfacePostProcessor::computeAndWriteResults(
         ++rankIdx;
         std::cout << "\n  [Rank " << rankIdx << "/" << rankPaths.size()
                   << "] Reading surface data..." << std::flush;
-        auto rd = readRankData(rp);
+        auto rd = readRankData(rp, numSnapshots);
         spaceDim = rd.geometry.spaceDimension;
         const int nDofs = rd.geometry.numDofs;
         std::cout << " done. (" << spaceDim << "D, " << nDofs
diff --git a/src/components/RCSSurfacePostProcessor.h b/src/components/RCSSurfacePostProcessor.h
index cffbcb0..f0c5348 100644
--- a/src/components/RCSSurfacePostProcessor.h
+++ b/src/components/RCSSurfacePostProcessor.h
@@ -63,7 +63,7 @@ private:
         std::vector<SurfaceSnapshot> snapshots;
     };
 
-    RankData readRankData(const std::string& rankPath) const;
+    RankData readRankData(const std::string& rankPath, size_t numSnapshots) const;
     PlaneWaveData extractPlaneWaveData(const std::string& jsonPath) const;
 
     std::vector<double> computeIncidentPowerSpectrum(
-- 
2.43.0


From fbae16bb82ca5b6a76c0d4c2a7f8b1d7c4bdbe64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:38:48 +0000
Subject: [PATCH 24/35] fix: skip outer faces when connecting interior ones of
 the same tag

The element-wise formulation paired the two elements of every face whose tag has an
interior condition. Faces of that tag on the outer boundary have only one element, and
the attribute of a nonexistent one was overwritten.
---
 src/evolution/HesthavenEvolutionMethods.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evolution/HesthavenEvolutionMethods.cpp b/src/evolution/HesthavenEvolutionMethods.cpp
index ce6e6b0..8f47201 100644
--- a/src/evolution/HesthavenEvolutionMethods.cpp
+++ b/src/evolution/HesthavenEvolutionMethods.cpp
@@ -598,6 +598,9 @@ namespace maxwell {
 		double ori{ 0.0 };
 		auto intBdrNodeMesh{ Mesh(model_.getConstMesh()) };
 		for (auto b{ 0 }; b < model_.getConstMesh().GetNBE(); b++) {
+			if (!model_.getConstMesh().FaceIsInterior(model_.getConstMesh().GetBdrElementFaceIndex(b))) {
+				continue; // Tags can be shared with faces on the outer boundary, which have only one element.
+			}
 			for (const auto& marker : markers) {
 				if (marker.second[model_.getConstMesh().GetBdrAttribute(b) - 1] == 1) {
 					FaceElementTransformations* faceTrans;
-- 
2.43.0


From a5692cd17e2c9180f85fefb05425c0990fabdf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:38:48 +0000
Subject: [PATCH 25/35] fix: keep thin layers that share an element apart

The flux of layered faces was injected in two passes, one for all first elements and one
for all second ones. An element that is first at one layered face and second at another
got the fluxes of both faces in both passes, with wrong values on its other side. At a
node shared by two layered faces, one face overwrote what the other had put there.
Inject the flux element by element instead.
---
 src/evolution/GlobalEvolution.cpp | 160 ++++++++----------------------
 src/evolution/GlobalEvolution.h   |  12 ++-
 2 files changed, 46 insertions(+), 126 deletions(-)

diff --git a/src/evolution/GlobalEvolution.cpp b/src/evolution/GlobalEvolution.cpp
index db84650..c5db637 100644
--- a/src/evolution/GlobalEvolution.cpp
+++ b/src/evolution/GlobalEvolution.cpp
@@ -276,35 +276,15 @@ GlobalEvolution::GlobalEvolution(
 #endif
     }
 
-    // Pre-compute unique element DOF sets for SGBC flux gathering.
-    // Instead of copying only face DOFs from sgbcOut_ to out, we need ALL DOFs
-    // of elements touching SGBC faces, because the DG face integral distributes
-    // flux to all test functions in the element (not just the face node).
-    {
-        std::unordered_set<int> elem1_set, elem2_set;
-        for (const auto& [tag, states] : sgbc_states_) {
-            for (const auto& s : states) {
-                elem1_set.insert(s.element_pair.first);
-                if (s.element_pair.second != -1) {
-                    elem2_set.insert(s.element_pair.second);
-                }
-            }
+    // Collect the SGBC faces of each element for the flux injection. The flux of an
+    // element goes to ALL its DOFs, because the DG face integral distributes it to
+    // all test functions in the element (not just the face node).
+    for (const auto& task : sgbc_tasks_) {
+        const auto& elements = sgbc_states_[task.tag][task.state_index].element_pair;
+        sgbc_element_sides_[elements.first].push_back({task.tag, task.state_index, true});
+        if (elements.second != -1) {
+            sgbc_element_sides_[elements.second].push_back({task.tag, task.state_index, false});
         }
-        const mfem::Table& elem_dof_table = fes_.GetElementToDofTable();
-        auto collectDofs = [&](const std::unordered_set<int>& elems, std::vector<int>& out_dofs) {
-            std::unordered_set<int> dof_set;
-            for (int el : elems) {
-                const int* dofs = elem_dof_table.GetRow(el);
-                const int n = elem_dof_table.RowSize(el);
-                for (int i = 0; i < n; ++i) {
-                    dof_set.insert(dofs[i]);
-                }
-            }
-            out_dofs.assign(dof_set.begin(), dof_set.end());
-            std::sort(out_dofs.begin(), out_dofs.end());
-        };
-        collectDofs(elem1_set, sgbc_elem1_dofs_);
-        collectDofs(elem2_set, sgbc_elem2_dofs_);
     }
 
     globalOperator_ = std::make_unique<mfem::SparseMatrix>(
@@ -825,7 +805,7 @@ void GlobalEvolution::Mult(const mfem::Vector& in, mfem::Vector& out) const
     timerTFSF.Stop();
 #endif
 
-    // 6) SGBC flux injection (two-pass face coupling)
+    // 6) SGBC flux injection (face coupling, element by element)
     //    Sub-solve was done in step 1; here we only inject interface values as flux.
     //    Skip entirely when all SGBC faces are quiescent.
     if (SGBCOperator_ && !sgbcWrappers_.empty() && !sgbc_all_quiescent){
@@ -880,92 +860,34 @@ void GlobalEvolution::Mult(const mfem::Vector& in, mfem::Vector& out) const
             }
         };
 
-        for (auto& [tag, states] : sgbc_states_) {
-            auto it = sgbc_wrapper_map_.find(tag);
-            if (it == sgbc_wrapper_map_.end()) continue;
-            auto w = it->second;
-            int local_size = w->getLocalFieldSize();
-            int idx_left = w->getLeftInterfaceIndex();
-            const auto& left_info = w->getProperties().sgbc_bdr_info.first;
-            const auto left_bdr = left_info.isOn ? left_info.bdrCond : BdrCond::SGBC;
-
-            for (const auto& state : states) {
-                int gl = state.global_pair.first;
-                int gr = state.global_pair.second;
-                // Elem1 slot: global field value (u_L) — already in global frame
-                copyGlobalSlot(gl, gl);
-                // Elem2 slot: what Elem1 sees from the slab's left side
-                if (gr != -1) {
-                    fillBCSlot(left_bdr, gl, gr, state.rot,
-                               state.fields_state.GetData(), local_size, idx_left);
-                }
-            }
-        }
-        // Targeted SpMV: only compute rows for Elem1 DOFs, add directly to out.
-        {
-            const double* sv = multWorkVec_.HostRead();
-            double* op = out.HostReadWrite();
-            for (int comp = 0; comp < 6; ++comp) {
-                for (int dof : sgbc_elem1_dofs_) {
-                    const int row = comp * ndofs + dof;
-                    const int nnz = SGBCOperator_->RowSize(row);
-                    const int* cols = SGBCOperator_->GetRowColumns(row);
-                    const double* vals = SGBCOperator_->GetRowEntries(row);
-                    double sum = 0.0;
-                    for (int j = 0; j < nnz; ++j) {
-                        sum += vals[j] * sv[cols[j]];
-                    }
-                    op[row] += sum;
-                }
-            }
-        }
-
-        // Clear only the entries that were written in Pass 1
-        for (auto& [tag, states] : sgbc_states_) {
-            for (const auto& state : states) {
-                int gl = state.global_pair.first;
-                int gr = state.global_pair.second;
-                for (int d = X; d <= Z; ++d) {
-                    multWorkVec_[d * blockSize + gl] = 0.0;
-                    multWorkVec_[(3 + d) * blockSize + gl] = 0.0;
-                    if (gr != -1) {
-                        multWorkVec_[d * blockSize + gr] = 0.0;
-                        multWorkVec_[(3 + d) * blockSize + gr] = 0.0;
-                    }
+        // One element at a time: its own side of a face holds its own field, the other
+        // side what it sees of the slab. The neighbour's view of the same face differs,
+        // and so does that of other faces sharing a node.
+        const mfem::Table& elem_dof = fes_.GetElementToDofTable();
+        for (const auto& [el, sides] : sgbc_element_sides_) {
+            for (const auto& side : sides) {
+                const auto& state = sgbc_states_.at(side.tag)[side.state_index];
+                const auto w = sgbc_wrapper_map_.at(side.tag);
+                const auto& bdr_info = w->getProperties().sgbc_bdr_info;
+                const auto& info = side.is_first ? bdr_info.first : bdr_info.second;
+                const int own   = side.is_first ? state.global_pair.first : state.global_pair.second;
+                const int other = side.is_first ? state.global_pair.second : state.global_pair.first;
+
+                copyGlobalSlot(own, own);
+                if (other != -1) {
+                    fillBCSlot(info.isOn ? info.bdrCond : BdrCond::SGBC, own, other, state.rot,
+                               state.fields_state.GetData(), w->getLocalFieldSize(),
+                               side.is_first ? w->getLeftInterfaceIndex() : w->getRightInterfaceIndex());
                 }
             }
-        }
-
-        // --- Pass 2: Elem2 (R) flux ---
-        // Input: u_slab_right at gl (Elem1), u_R at gr (Elem2)
-        // Keep only Elem2 DOF contributions from the result
-        for (auto& [tag, states] : sgbc_states_) {
-            auto it = sgbc_wrapper_map_.find(tag);
-            if (it == sgbc_wrapper_map_.end()) continue;
-            auto w = it->second;
-            int local_size = w->getLocalFieldSize();
-            int idx_right = w->getRightInterfaceIndex();
-            const auto& right_info = w->getProperties().sgbc_bdr_info.second;
-            const auto right_bdr = right_info.isOn ? right_info.bdrCond : BdrCond::SGBC;
 
-            for (const auto& state : states) {
-                int gl = state.global_pair.first;
-                int gr = state.global_pair.second;
-                if (gr == -1) continue;
-
-                fillBCSlot(right_bdr, gr, gl, state.rot,
-                           state.fields_state.GetData(), local_size, idx_right);
-                // Elem2 slot: global field value (u_R) — already in global frame
-                copyGlobalSlot(gr, gr);
-            }
-        }
-        // Targeted SpMV: only compute rows for Elem2 DOFs, add directly to out.
-        {
+            // Targeted SpMV: only compute rows of this element, add directly to out.
             const double* sv = multWorkVec_.HostRead();
             double* op = out.HostReadWrite();
+            const int* dofs = elem_dof.GetRow(el);
             for (int comp = 0; comp < 6; ++comp) {
-                for (int dof : sgbc_elem2_dofs_) {
-                    const int row = comp * ndofs + dof;
+                for (int i = 0; i < elem_dof.RowSize(el); ++i) {
+                    const int row = comp * ndofs + dofs[i];
                     const int nnz = SGBCOperator_->RowSize(row);
                     const int* cols = SGBCOperator_->GetRowColumns(row);
                     const double* vals = SGBCOperator_->GetRowEntries(row);
@@ -976,19 +898,15 @@ void GlobalEvolution::Mult(const mfem::Vector& in, mfem::Vector& out) const
                     op[row] += sum;
                 }
             }
-        }
 
-        // Clear entries written in Pass 2 so multWorkVec_ stays zeroed for next call
-        for (auto& [tag, states] : sgbc_states_) {
-            for (const auto& state : states) {
-                int gl = state.global_pair.first;
-                int gr = state.global_pair.second;
-                if (gr == -1) continue;
-                for (int d = X; d <= Z; ++d) {
-                    multWorkVec_[d * blockSize + gl] = 0.0;
-                    multWorkVec_[(3 + d) * blockSize + gl] = 0.0;
-                    multWorkVec_[d * blockSize + gr] = 0.0;
-                    multWorkVec_[(3 + d) * blockSize + gr] = 0.0;
+            // Clear the entries written for this element so multWorkVec_ stays zeroed
+            for (const auto& side : sides) {
+                const auto& pair = sgbc_states_.at(side.tag)[side.state_index].global_pair;
+                for (int comp = 0; comp < 6; ++comp) {
+                    multWorkVec_[comp * blockSize + pair.first] = 0.0;
+                    if (pair.second != -1) {
+                        multWorkVec_[comp * blockSize + pair.second] = 0.0;
+                    }
                 }
             }
         }
diff --git a/src/evolution/GlobalEvolution.h b/src/evolution/GlobalEvolution.h
index 9113e79..4017859 100644
--- a/src/evolution/GlobalEvolution.h
+++ b/src/evolution/GlobalEvolution.h
@@ -65,11 +65,13 @@ private:
 
     std::map<int, int> sgbc_coupling_map_;
 
-    // Pre-computed element DOF ranges for SGBC flux gathering.
-    // Maps element ID -> list of DOF indices belonging to that element.
-    // Separated by pass: elem1 DOFs (pass 1) and elem2 DOFs (pass 2).
-    std::vector<int> sgbc_elem1_dofs_;  // All DOFs of unique Elem1s touching SGBC faces
-    std::vector<int> sgbc_elem2_dofs_;  // All DOFs of unique Elem2s touching SGBC faces
+    // The SGBC faces of each element, and the side of them the element is on.
+    struct SGBCSide {
+        GeomTag tag;
+        size_t state_index;
+        bool is_first;
+    };
+    std::map<ElementId, std::vector<SGBCSide>> sgbc_element_sides_;
 
     // Cached indices of sources that are TotalField (avoids dynamic_cast per Mult)
     std::vector<int> tfsfSourceIndices_;
-- 
2.43.0


From e495c67afbd2f1f6ceeb658a8886bbc941d18f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:38:49 +0000
Subject: [PATCH 26/35] fix: keep accepted thin-layer states when rates are
 evaluated between steps

Evaluating the right-hand side works on the thin-layer states and starts from those at the
beginning of the step. Before the first step there were none, and the evaluation failed.
After a step, the next one started from whatever the last evaluation had left behind,
and evaluations before it started from the step before.
---
 src/evolution/GlobalEvolution.cpp | 39 +++++++++++++++----------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/evolution/GlobalEvolution.cpp b/src/evolution/GlobalEvolution.cpp
index c5db637..0bfca1a 100644
--- a/src/evolution/GlobalEvolution.cpp
+++ b/src/evolution/GlobalEvolution.cpp
@@ -238,6 +238,8 @@ GlobalEvolution::GlobalEvolution(
         }
     }
     
+    sgbc_states_checkpoint_ = sgbc_states_;
+
     MPI_Barrier(fes_.GetParMesh()->GetComm());
 
     // Build flattened SGBC task list and per-thread wrapper clones for OpenMP.
@@ -382,26 +384,10 @@ void GlobalEvolution::commitSGBCCheckpoint(double base_time, double dt,
     sgbc_step_base_time_ = base_time;
     sgbc_step_dt_ = dt;
 
-    // First call: structurally clone the checkpoint map (allocate once)
-    if (sgbc_states_checkpoint_.empty()) {
-        for (const auto& [tag, states] : sgbc_states_) {
-            auto& cp = sgbc_states_checkpoint_[tag];
-            cp.resize(states.size());
-            for (size_t i = 0; i < states.size(); ++i) {
-                cp[i].global_pair  = states[i].global_pair;
-                cp[i].element_pair = states[i].element_pair;
-                cp[i].fields_state.SetSize(states[i].fields_state.Size());
-            }
-        }
-    }
-    // Fast path: only copy field data (no alloc/dealloc)
+    // The checkpointed states are already those accepted by the last finalizeSGBCStep.
     for (const auto& [tag, states] : sgbc_states_) {
         auto& cp = sgbc_states_checkpoint_[tag];
         for (size_t i = 0; i < states.size(); ++i) {
-            std::memcpy(cp[i].fields_state.GetData(),
-                        states[i].fields_state.GetData(),
-                        states[i].fields_state.Size() * sizeof(double));
-
             // Extract face-local ghost values at time t for interpolation.
             const auto& s = states[i];
             rotateGlobalFieldsToLocal(s.rot, fields, s.global_pair.first, cp[i].ghost_old);
@@ -463,11 +449,13 @@ void GlobalEvolution::finalizeSGBCStep(
         }
         if (!all_quiescent) break;
     }
-    if (all_quiescent) return;
+    double dt = sgbc_step_dt_;
+    if (all_quiescent) {
+        sgbc_step_base_time_ += dt;
+        return;
+    }
 
     // Advance SGBC for full dt with linearly interpolated ghost boundary data
-
-    double dt = sgbc_step_dt_;
 #ifdef SEMBA_DGTD_ENABLE_OPENMP
     if (!sgbc_thread_pool_.empty()) {
         #pragma omp parallel for schedule(dynamic) num_threads(sgbc_omp_threads_)
@@ -526,6 +514,17 @@ void GlobalEvolution::finalizeSGBCStep(
             w->setOldTime(sgbc_step_base_time_ + dt);
         }
     }
+
+    // The accepted states are what evaluations before the next step start from.
+    sgbc_step_base_time_ += dt;
+    for (auto& [tag, states] : sgbc_states_) {
+        auto& cp = sgbc_states_checkpoint_.at(tag);
+        for (size_t i = 0; i < states.size(); ++i) {
+            std::memcpy(cp[i].fields_state.GetData(),
+                        states[i].fields_state.GetData(),
+                        states[i].fields_state.Size() * sizeof(double));
+        }
+    }
 }
 
 void GlobalEvolution::applyTFSFSourceToVector(double t_stage, int ndofs, int nbrDofs,
-- 
2.43.0


From 4b705415cd2f26d3f38639b120859d35289732c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:52:05 +0000
Subject: [PATCH 27/35] fix: make absorbing sides of thin layers absorb

The cell next to an absorbing side saw its own field beyond the face. Without a jump
there is no flux, so nothing was absorbed and the cell could gain energy. Beyond an
absorbing boundary there is nothing coming in, as on the other absorbing boundaries.
---
 src/evolution/GlobalEvolution.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/evolution/GlobalEvolution.cpp b/src/evolution/GlobalEvolution.cpp
index 0bfca1a..ae53265 100644
--- a/src/evolution/GlobalEvolution.cpp
+++ b/src/evolution/GlobalEvolution.cpp
@@ -817,7 +817,7 @@ void GlobalEvolution::Mult(const mfem::Vector& in, mfem::Vector& out) const
         multWorkVec_.HostReadWrite();
 
         // Helper: fill multWorkVec_ slot for a given BC type.
-        // For PEC/PMC/SMA: mirror/absorb from global field at source_dof.
+        // For PEC/PMC: mirror the global field at source_dof. For SMA: nothing comes in.
         // For transparent (SGBC): rotate slab interior field at slab_idx to global frame.
         auto fillBCSlot = [&](BdrCond bdr, int source_dof, int target_slot,
                               const double* rot, const double* fields_state,
@@ -834,8 +834,8 @@ void GlobalEvolution::Mult(const mfem::Vector& in, mfem::Vector& out) const
                 }
             } else if (bdr == BdrCond::SMA) {
                 for (int d = X; d <= Z; ++d) {
-                    multWorkVec_[d * blockSize + target_slot]       = in[d * ndofs + source_dof];
-                    multWorkVec_[(3 + d) * blockSize + target_slot] = in[(3 + d) * ndofs + source_dof];
+                    multWorkVec_[d * blockSize + target_slot]       = 0.0;
+                    multWorkVec_[(3 + d) * blockSize + target_slot] = 0.0;
                 }
             } else {
                 // Transparent: rotate slab local→global
-- 
2.43.0


From 2f02d184070a6e0e7a43befdce0cf7a7431f738b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:30:29 +0000
Subject: [PATCH 28/35] fix: decide the total-field side in 3D by the plane of
 each face

The side was chosen by which of the two barycentres is closer to the
centre of the surface. Skewed tetrahedra and flat boxes have faces for
which the outside element is the closer one, so the incident field was
injected with the wrong sign there. Compare sides of the face's plane
instead. The distance rule remains for surfaces lying on one plane.
---
 src/components/SubMesher.cpp | 74 +++++++++++++++++++-----------------
 src/components/SubMesher.h   |  2 +
 2 files changed, 41 insertions(+), 35 deletions(-)

diff --git a/src/components/SubMesher.cpp b/src/components/SubMesher.cpp
index 29ea54e..7971b12 100644
--- a/src/components/SubMesher.cpp
+++ b/src/components/SubMesher.cpp
@@ -674,13 +674,9 @@ void TotalFieldScatteredFieldSubMesher::setIndividualTFSFAttributesForSubMeshing
 	}
 }
 
-void TotalFieldScatteredFieldSubMesher::setIndividualTFSFAttributesForSubMeshing3D(Mesh& m, const Array<int>& marker)
+Vector getTFSFCenter(Mesh& m, const Array<int>& marker)
 {
-	// Compute centroid of all TFSF boundary vertices.
-	// For a convex TFSF surface the centroid lies inside the TF region,
-	// so the element whose barycenter is closer to it is the TF element.
-	// This is invariant to face-normal orientation and handles corner
-	// elements (adjacent to multiple TFSF faces) consistently.
+	// Centroid of all TFSF boundary vertices.
 	Vector tfsf_center(3);
 	tfsf_center = 0.0;
 	int n_verts = 0;
@@ -698,6 +694,41 @@ void TotalFieldScatteredFieldSubMesher::setIndividualTFSFAttributesForSubMeshing
 		}
 	}
 	if (n_verts > 0) tfsf_center /= double(n_verts);
+	return tfsf_center;
+}
+
+bool isElem1TotalField3D(Mesh& m, int be, const Vector& tfsf_center)
+{
+	// For a convex TFSF surface the centroid lies inside the TF region,
+	// so the element on the same side of the face as it is the TF element.
+	// This is invariant to face-normal orientation and handles corner
+	// elements (adjacent to multiple TFSF faces) consistently.
+	auto fe_trans{ getFaceElementTransformation(m, be) };
+	const Vector bary1 = getBarycenterOfElement(m, fe_trans->Elem1No);
+	const Vector face_bary = getBarycenterOfFaceElement(m, m.GetBdrElementFaceIndex(be));
+	const Vector normal = buildNormal3D(m, be);
+	double center_side = 0.0, elem1_side = 0.0;
+	for (int d = 0; d < 3; d++) {
+		center_side += (tfsf_center[d] - face_bary[d]) * normal[d];
+		elem1_side += (bary1[d] - face_bary[d]) * normal[d];
+	}
+	if (std::abs(center_side) > 1e-6 * std::abs(elem1_side)) {
+		return (center_side > 0.0) == (elem1_side > 0.0);
+	}
+
+	// All TFSF faces lie on one plane: the element whose barycenter is closer to the centroid.
+	const Vector bary2 = fe_trans->Elem2No >= 0 ? getBarycenterOfElement(m, fe_trans->Elem2No) : face_bary;
+	double dist1_sq = 0.0, dist2_sq = 0.0;
+	for (int d = 0; d < 3; d++) {
+		dist1_sq += (bary1[d] - tfsf_center[d]) * (bary1[d] - tfsf_center[d]);
+		dist2_sq += (bary2[d] - tfsf_center[d]) * (bary2[d] - tfsf_center[d]);
+	}
+	return dist1_sq < dist2_sq;
+}
+
+void TotalFieldScatteredFieldSubMesher::setIndividualTFSFAttributesForSubMeshing3D(Mesh& m, const Array<int>& marker)
+{
+	const Vector tfsf_center = getTFSFCenter(m, marker);
 
 	for (int be = 0; be < m.GetNBE(); be++) {
 		if (marker[m.GetBdrAttribute(be) - 1] == 1) {
@@ -706,38 +737,11 @@ void TotalFieldScatteredFieldSubMesher::setIndividualTFSFAttributesForSubMeshing
 			m.GetBdrElementVertices(be, be_vert);
 			be_vert.Sort();
 
+			const bool elem1_is_tf = isElem1TotalField3D(m, be, tfsf_center);
+
 			auto fe_trans{ getFaceElementTransformation(m,be) };
 			m.GetElementFaces(fe_trans->Elem1No, el1_face, el1_ori);
 
-			// Determine TF/SF by centroid distance: closer to center = TF.
-			Vector bary1 = getBarycenterOfElement(m, fe_trans->Elem1No);
-			double dist1_sq = 0.0;
-			for (int d = 0; d < 3; d++) {
-				double diff = bary1[d] - tfsf_center[d];
-				dist1_sq += diff * diff;
-			}
-
-			bool elem1_is_tf;
-			if (fe_trans->Elem2No >= 0) {
-				Vector bary2 = getBarycenterOfElement(m, fe_trans->Elem2No);
-				double dist2_sq = 0.0;
-				for (int d = 0; d < 3; d++) {
-					double diff = bary2[d] - tfsf_center[d];
-					dist2_sq += diff * diff;
-				}
-				elem1_is_tf = dist1_sq < dist2_sq;
-			}
-			else {
-				// Boundary face with no Elem2: compare element to face barycenter
-				Vector face_bary = getBarycenterOfFaceElement(m, m.GetBdrElementFaceIndex(be));
-				double face_dist_sq = 0.0;
-				for (int d = 0; d < 3; d++) {
-					double diff = face_bary[d] - tfsf_center[d];
-					face_dist_sq += diff * diff;
-				}
-				elem1_is_tf = dist1_sq < face_dist_sq;
-			}
-
 			std::pair<FaceId, IsTF> set_v1;
 			for (int f = 0; f < el1_face.Size(); f++) {
 				m.GetFaceVertices(el1_face[f], face_vert);
diff --git a/src/components/SubMesher.h b/src/components/SubMesher.h
index 3470e3a..55585e9 100644
--- a/src/components/SubMesher.h
+++ b/src/components/SubMesher.h
@@ -107,6 +107,8 @@ double calculateCrossBaryVertexSign(Mesh& m, FaceElementTransformations& fet, in
 double buildFaceOrientation(Mesh& mesh, int be);
 const Vector buildTangent2D(Mesh& m, int be);
 const Vector buildNormal3D(Mesh& m, int be);
+Vector getTFSFCenter(Mesh& m, const Array<int>& marker);
+bool isElem1TotalField3D(Mesh& m, int be, const Vector& tfsf_center);
 const std::pair<Vector, Vector> calculateBarycenters(Mesh& m, int be);
 const Vector buildElem1ToElem2BarycenterVector(Mesh& m, int be);
 
-- 
2.43.0


From 2cbc405c39b003cdec6557d862f955b3cb0c7709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:30:29 +0000
Subject: [PATCH 29/35] fix: choose the total-field side by geometry in the
 element-wise operator

In 3D the element-wise operator took the side from the numbering of the
elements, unlike the other operators, and injected with the wrong sign
whenever an inside element had the lower number.
---
 src/evolution/HesthavenEvolutionMethods.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evolution/HesthavenEvolutionMethods.cpp b/src/evolution/HesthavenEvolutionMethods.cpp
index 8f47201..708537f 100644
--- a/src/evolution/HesthavenEvolutionMethods.cpp
+++ b/src/evolution/HesthavenEvolutionMethods.cpp
@@ -606,6 +606,9 @@ namespace maxwell {
 					FaceElementTransformations* faceTrans;
 					model_.getConstMesh().FaceIsInterior(model_.getMesh().GetFaceElementTransformations(model_.getConstMesh().GetBdrElementFaceIndex(b))->ElementNo) ? faceTrans = model_.getMesh().GetInternalBdrFaceTransformations(b) : faceTrans = model_.getMesh().GetBdrFaceTransformations(b);
 					fes_.GetMesh()->Dimension() == 2 ? ori = calculateCrossBaryVertexSign(*fes_.GetMesh(), *faceTrans, b) : ori = buildFaceOrientation(*fes_.GetMesh(), b);
+					if (marker.first == BdrCond::TotalFieldIn && fes_.GetMesh()->Dimension() == 3) {
+						isElem1TotalField3D(*fes_.GetMesh(), b, getTFSFCenter(*fes_.GetMesh(), marker.second)) ? ori = -1.0 : ori = 1.0;
+					}
 					auto twoElemSubMesh{ assembleInteriorFaceSubMesh(model_.getMesh(), *faceTrans, attMap) };
 					FiniteElementSpace subFES(&twoElemSubMesh, fec);
 					auto nodePairs{ buildConnectivityForInteriorBdrFace(*faceTrans, fes_, subFES) };
-- 
2.43.0


From 9d2dcb97d74ddf415e09ab293006dbf6cb1294a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:30:29 +0000
Subject: [PATCH 30/35] fix: inject at a single total-field point next to the
 first or last element

In 1D such a point was mistaken for the end of the mesh, and nothing was
injected by it.
---
 src/components/SubMesher.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/SubMesher.cpp b/src/components/SubMesher.cpp
index 7971b12..5396d3e 100644
--- a/src/components/SubMesher.cpp
+++ b/src/components/SubMesher.cpp
@@ -504,11 +504,11 @@ void TotalFieldScatteredFieldSubMesher::assignIndividualTFSFAttsOnePoint1D(Mesh&
 			auto be_trans{ getFaceElementTransformation(m, be) };
 			std::pair<FaceId, IsTF> set_e1;
 			std::pair<FaceId, IsTF> set_e2;
-			if (be_trans->Elem1No == 0) {
+			if (be_trans->Elem1No == 0 && be_trans->Elem2No < 0) {
 				set_e1 = std::make_pair(0, true);
 				set_e2 = std::make_pair(NotFound, false);
 			}
-			else if (be_trans->Elem1No == m.GetNE() - 1) {
+			else if (be_trans->Elem1No == m.GetNE() - 1 && be_trans->Elem2No < 0) {
 				set_e1 = std::make_pair(1, true);
 				set_e2 = std::make_pair(NotFound, false);
 			}
-- 
2.43.0


From a398a6f09219da2494557b3e924463bba427e84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:30:29 +0000
Subject: [PATCH 31/35] fix: keep both sides of interior walls on one rank

A wall on an interior face cut by the partition was applied to one side
only, and the rates differed from those of a serial run.
---
 src/driver/driver.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index 8031f64..0340bec 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -1389,6 +1389,12 @@ Model buildModel(const json& case_data, const std::string& case_path, const bool
     // sides of each of its faces have to be known to the rank exporting it.
     tfsf_tags.Append(getFarFieldSurfaceTags(case_data));
 
+    // Conditions on interior faces are applied by the rank that holds the face,
+    // to both of its sides.
+    for (const auto& kv : att_to_bdr_info.gt2ib) {
+        tfsf_tags.Append(kv.first);
+    }
+
     if (tfsf_tags.Size() || sgbc_tags.Size()){
         applyPairwiseConstraintsPartitioning(mesh, partitioning, tfsf_tags, sgbc_tags);
     }
-- 
2.43.0


From e5860b25db1b4bfe30e2603a6a8ddaf69f27297b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:30:29 +0000
Subject: [PATCH 32/35] fix: solve implicit steps with inner products over all
 ranks

The linear solver was created without a communicator, so each rank
stopped iterating on its own criterion and the exchange of the
neighbours' values ran out of step. Small systems split over ranks that
share no face took the serial path on some ranks only.
---
 src/evolution/GlobalEvolution.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evolution/GlobalEvolution.cpp b/src/evolution/GlobalEvolution.cpp
index ae53265..e60cdfa 100644
--- a/src/evolution/GlobalEvolution.cpp
+++ b/src/evolution/GlobalEvolution.cpp
@@ -1064,7 +1064,7 @@ void GlobalEvolution::ImplicitSolve(const double dt,
     // For small serial systems (SGBC sub-solver), use cached dense LU
     // factorization. One-time cost: form A as dense + LU factor.
     // Per-solve cost: O(n^2) back-substitution instead of ~30 GMRES iterations.
-    if (nbrDofs == 0 && n <= dense_solve_threshold_) {
+    if (fes_.GetNRanks() == 1 && n <= dense_solve_threshold_) {
         // One-time: form dense copy of globalOperator_
         if (!dense_A_formed_) {
             globalOperator_->ToDenseMatrix(A_dense_);
@@ -1135,7 +1135,7 @@ void GlobalEvolution::ImplicitSolve(const double dt,
             }
         } J(n, std::function<void(const mfem::Vector&, mfem::Vector&)>(applyA_parallel), dt);
 
-        mfem::GMRESSolver gmres;
+        mfem::GMRESSolver gmres(fes_.GetComm());
         gmres.SetOperator(J);
         gmres.SetRelTol(1e-8);
         gmres.SetMaxIter(400);
-- 
2.43.0


From ea783ac8e179e89960c50d924ed0e9117d637c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:50:29 +0000
Subject: [PATCH 33/35] fix: tell the total-field side by the whole surface on
 every rank

With the mesh split over ranks the sides were told apart by the rank's
own part of the surface. Parts lying in one plane, and one of two points
in 1D, were then injected from the wrong side.
---
 src/components/SubMesher.cpp                | 37 +++++++++------------
 src/components/SubMesher.h                  | 12 ++++---
 src/driver/driver.cpp                       |  4 +++
 src/evolution/GlobalEvolution.cpp           |  2 +-
 src/evolution/HesthavenEvolutionMethods.cpp |  2 +-
 src/evolution/MaxwellEvolution.cpp          |  2 +-
 src/solver/SourcesManager.cpp               |  8 ++---
 src/solver/SourcesManager.h                 |  4 +--
 8 files changed, 35 insertions(+), 36 deletions(-)

diff --git a/src/components/SubMesher.cpp b/src/components/SubMesher.cpp
index 5396d3e..1fe1aad 100644
--- a/src/components/SubMesher.cpp
+++ b/src/components/SubMesher.cpp
@@ -356,7 +356,7 @@ SubMesh createSubMeshFromParent(const Mesh& parent, const std::pair<Array<int>,
 	return res;
 }
 
-TotalFieldScatteredFieldSubMesher::TotalFieldScatteredFieldSubMesher(const Mesh& m, const Array<int>& marker)
+TotalFieldScatteredFieldSubMesher::TotalFieldScatteredFieldSubMesher(const Mesh& m, const Array<int>& marker, const Mesh& whole)
 {
 	Mesh parent_for_global(m);
 	Mesh parent_for_individual(m);
@@ -365,13 +365,13 @@ TotalFieldScatteredFieldSubMesher::TotalFieldScatteredFieldSubMesher(const Mesh&
 
 	switch (m.Dimension()) {
 	case 1:
-		setIndividualTFSFAttributesForSubMeshing1D(parent_for_individual, marker);
+		setIndividualTFSFAttributesForSubMeshing1D(parent_for_individual, marker, whole);
 		break;
 	case 2:
 		setIndividualTFSFAttributesForSubMeshing2D(parent_for_individual, marker);
 		break;
 	default:
-		setIndividualTFSFAttributesForSubMeshing3D(parent_for_individual, marker);
+		setIndividualTFSFAttributesForSubMeshing3D(parent_for_individual, marker, whole);
 		break;
 	}
 
@@ -523,21 +523,14 @@ void TotalFieldScatteredFieldSubMesher::assignIndividualTFSFAttsOnePoint1D(Mesh&
 	}
 }
 
-void TotalFieldScatteredFieldSubMesher::assignIndividualTFSFAttsTwoPoints1D(Mesh& m, const Array<int>& marker)
+void TotalFieldScatteredFieldSubMesher::assignIndividualTFSFAttsTwoPoints1D(Mesh& m, const Array<int>& marker, const Mesh& whole)
 {
-	auto flag{ false };
+	const Vector tfsf_center = getTFSFCenter(whole, marker);
 	for (int be = 0; be < m.GetNBE(); be++) {
 		if (marker[m.GetBdrAttribute(be) - 1] == 1) {
-			SetPairs sets;
-			switch (flag) {
-			case false:
-				sets = twoPointAssignator(m, be, flag);
-				flag = true;
-				break;
-			case true:
-				sets = twoPointAssignator(m, be, flag);
-				break;
-			}
+			Array<int> be_vert(1);
+			m.GetBdrElementVertices(be, be_vert);
+			SetPairs sets = twoPointAssignator(m, be, m.GetVertex(be_vert[0])[0] > tfsf_center[0]);
 
 			std::pair<FaceId, FaceId> facesInfo = std::make_pair(sets.first.first, sets.second.first);
 			std::pair<IsTF, IsTF> dirInfo = std::make_pair(sets.first.second, sets.second.second);
@@ -546,11 +539,11 @@ void TotalFieldScatteredFieldSubMesher::assignIndividualTFSFAttsTwoPoints1D(Mesh
 	}
 }
 
-void TotalFieldScatteredFieldSubMesher::setIndividualTFSFAttributesForSubMeshing1D(Mesh& m, const Array<int>& marker)
+void TotalFieldScatteredFieldSubMesher::setIndividualTFSFAttributesForSubMeshing1D(Mesh& m, const Array<int>& marker, const Mesh& whole)
 {
 	auto be_counter{ 0 };
-	for (int be = 0; be < m.GetNBE(); be++) {
-		if (marker[m.GetBdrAttribute(be) - 1] == 1) {
+	for (int be = 0; be < whole.GetNBE(); be++) {
+		if (marker[whole.GetBdrAttribute(be) - 1] == 1) {
 			be_counter++;
 		}
 	}
@@ -559,7 +552,7 @@ void TotalFieldScatteredFieldSubMesher::setIndividualTFSFAttributesForSubMeshing
 		assignIndividualTFSFAttsOnePoint1D(m, marker);
 		break;
 	case 2:
-		assignIndividualTFSFAttsTwoPoints1D(m, marker);
+		assignIndividualTFSFAttsTwoPoints1D(m, marker, whole);
 		break;
 	default:
 		throw std::runtime_error("Only one or two TFSF points can be declared in a 1D Mesh.");
@@ -674,7 +667,7 @@ void TotalFieldScatteredFieldSubMesher::setIndividualTFSFAttributesForSubMeshing
 	}
 }
 
-Vector getTFSFCenter(Mesh& m, const Array<int>& marker)
+Vector getTFSFCenter(const Mesh& m, const Array<int>& marker)
 {
 	// Centroid of all TFSF boundary vertices.
 	Vector tfsf_center(3);
@@ -726,9 +719,9 @@ bool isElem1TotalField3D(Mesh& m, int be, const Vector& tfsf_center)
 	return dist1_sq < dist2_sq;
 }
 
-void TotalFieldScatteredFieldSubMesher::setIndividualTFSFAttributesForSubMeshing3D(Mesh& m, const Array<int>& marker)
+void TotalFieldScatteredFieldSubMesher::setIndividualTFSFAttributesForSubMeshing3D(Mesh& m, const Array<int>& marker, const Mesh& whole)
 {
-	const Vector tfsf_center = getTFSFCenter(m, marker);
+	const Vector tfsf_center = getTFSFCenter(whole, marker);
 
 	for (int be = 0; be < m.GetNBE(); be++) {
 		if (marker[m.GetBdrAttribute(be) - 1] == 1) {
diff --git a/src/components/SubMesher.h b/src/components/SubMesher.h
index 55585e9..4fc8793 100644
--- a/src/components/SubMesher.h
+++ b/src/components/SubMesher.h
@@ -18,7 +18,9 @@ class TotalFieldScatteredFieldSubMesher
 public:
 
 	TotalFieldScatteredFieldSubMesher(){};
-	TotalFieldScatteredFieldSubMesher(const Mesh&, const Array<int>& marker);
+	TotalFieldScatteredFieldSubMesher(const Mesh& m, const Array<int>& marker) : TotalFieldScatteredFieldSubMesher(m, marker, m) {}
+	// If the mesh is one rank's part only, the surface is to be taken from the whole mesh.
+	TotalFieldScatteredFieldSubMesher(const Mesh&, const Array<int>& marker, const Mesh& whole);
 
 	SubMesh* getTFSubMesh() { return tf_mesh_.get(); }
 	SubMesh* getSFSubMesh() { return sf_mesh_.get(); }
@@ -36,10 +38,10 @@ private:
 	
 	SetPairs twoPointAssignator(                    Mesh&, int be, bool flag);
 	void assignIndividualTFSFAttsOnePoint1D(        Mesh&, const Array<int>& marker);
-	void assignIndividualTFSFAttsTwoPoints1D(       Mesh&, const Array<int>& marker);
-	void setIndividualTFSFAttributesForSubMeshing1D(Mesh&, const Array<int>& marker);
+	void assignIndividualTFSFAttsTwoPoints1D(       Mesh&, const Array<int>& marker, const Mesh& whole);
+	void setIndividualTFSFAttributesForSubMeshing1D(Mesh&, const Array<int>& marker, const Mesh& whole);
 	void setIndividualTFSFAttributesForSubMeshing2D(Mesh&, const Array<int>& marker);
-	void setIndividualTFSFAttributesForSubMeshing3D(Mesh&, const Array<int>& marker);
+	void setIndividualTFSFAttributesForSubMeshing3D(Mesh&, const Array<int>& marker, const Mesh& whole);
 
 
 	std::vector<El2Face> elem_to_face_tf_;
@@ -107,7 +109,7 @@ double calculateCrossBaryVertexSign(Mesh& m, FaceElementTransformations& fet, in
 double buildFaceOrientation(Mesh& mesh, int be);
 const Vector buildTangent2D(Mesh& m, int be);
 const Vector buildNormal3D(Mesh& m, int be);
-Vector getTFSFCenter(Mesh& m, const Array<int>& marker);
+Vector getTFSFCenter(const Mesh& m, const Array<int>& marker);
 bool isElem1TotalField3D(Mesh& m, int be, const Vector& tfsf_center);
 const std::pair<Vector, Vector> calculateBarycenters(Mesh& m, int be);
 const Vector buildElem1ToElem2BarycenterVector(Mesh& m, int be);
diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index 0340bec..890d4ff 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -1702,6 +1702,10 @@ void postProcessInformation(const json& case_data, maxwell::Model& model, maxwel
 				}
 			}
 			if (tfsf_atts_present_in_partition_marker.Sum() != 0){
+				// Sides are told apart by the whole surface, not by the part of it in this partition.
+				for (auto t = 0; t < tfsf_tags.Size(); t++){
+					tfsf_atts_present_in_partition_marker[tfsf_tags[t] - 1] = 1;
+				}
 				model.getTotalFieldScatteredFieldToMarker().insert(std::make_pair(maxwell::BdrCond::TotalFieldIn, tfsf_atts_present_in_partition_marker));
 			}
 		}
diff --git a/src/evolution/GlobalEvolution.cpp b/src/evolution/GlobalEvolution.cpp
index e60cdfa..0fb809c 100644
--- a/src/evolution/GlobalEvolution.cpp
+++ b/src/evolution/GlobalEvolution.cpp
@@ -298,7 +298,7 @@ GlobalEvolution::GlobalEvolution(
 
     // Keep TFSF submesh infrastructure for planewave source evaluation
     if (model_.getTotalFieldScatteredFieldToMarker().find(BdrCond::TotalFieldIn) != model_.getTotalFieldScatteredFieldToMarker().end()) {
-        srcmngr_.initTFSFPreReqs(model_.getConstMesh(), model_.getTotalFieldScatteredFieldToMarker().at(BdrCond::TotalFieldIn));
+        srcmngr_.initTFSFPreReqs(model_.getConstMesh(), model_.getTotalFieldScatteredFieldToMarker().at(BdrCond::TotalFieldIn), model_.getConstSerialMesh());
         srcmngr_.initDirectPlanewaveEval();
         auto src_sm = static_cast<mfem::SubMesh*>(srcmngr_.getGlobalTFSFSpace()->GetMesh());
         mfem::SubMeshUtils::BuildVdofToVdofMap(*srcmngr_.getGlobalTFSFSpace(), fes_, src_sm->GetFrom(), src_sm->GetParentElementIDMap(), tfsf_sub_to_parent_ids_);
diff --git a/src/evolution/HesthavenEvolutionMethods.cpp b/src/evolution/HesthavenEvolutionMethods.cpp
index 708537f..e6d4c34 100644
--- a/src/evolution/HesthavenEvolutionMethods.cpp
+++ b/src/evolution/HesthavenEvolutionMethods.cpp
@@ -607,7 +607,7 @@ namespace maxwell {
 					model_.getConstMesh().FaceIsInterior(model_.getMesh().GetFaceElementTransformations(model_.getConstMesh().GetBdrElementFaceIndex(b))->ElementNo) ? faceTrans = model_.getMesh().GetInternalBdrFaceTransformations(b) : faceTrans = model_.getMesh().GetBdrFaceTransformations(b);
 					fes_.GetMesh()->Dimension() == 2 ? ori = calculateCrossBaryVertexSign(*fes_.GetMesh(), *faceTrans, b) : ori = buildFaceOrientation(*fes_.GetMesh(), b);
 					if (marker.first == BdrCond::TotalFieldIn && fes_.GetMesh()->Dimension() == 3) {
-						isElem1TotalField3D(*fes_.GetMesh(), b, getTFSFCenter(*fes_.GetMesh(), marker.second)) ? ori = -1.0 : ori = 1.0;
+						isElem1TotalField3D(*fes_.GetMesh(), b, getTFSFCenter(model_.getConstSerialMesh(), marker.second)) ? ori = -1.0 : ori = 1.0;
 					}
 					auto twoElemSubMesh{ assembleInteriorFaceSubMesh(model_.getMesh(), *faceTrans, attMap) };
 					FiniteElementSpace subFES(&twoElemSubMesh, fec);
diff --git a/src/evolution/MaxwellEvolution.cpp b/src/evolution/MaxwellEvolution.cpp
index 4c385f6..3234a48 100644
--- a/src/evolution/MaxwellEvolution.cpp
+++ b/src/evolution/MaxwellEvolution.cpp
@@ -59,7 +59,7 @@ MaxwellEvolution::MaxwellEvolution(
 #endif
 
 		if (pd_.model.getTotalFieldScatteredFieldToMarker().find(BdrCond::TotalFieldIn) != pd_.model.getTotalFieldScatteredFieldToMarker().end()) {
-			srcmngr.initTFSFPreReqs(pd_.model.getConstMesh(), pd_.model.getTotalFieldScatteredFieldToMarker().at(BdrCond::TotalFieldIn));
+			srcmngr.initTFSFPreReqs(pd_.model.getConstMesh(), pd_.model.getTotalFieldScatteredFieldToMarker().at(BdrCond::TotalFieldIn), pd_.model.getConstSerialMesh());
 			auto globalTFSFfes{ srcmngr.getGlobalTFSFSpace() };			
 			Model tfsfModel(*globalTFSFfes->GetMesh(), GeomTagToMaterialInfo(), GeomTagToBoundaryInfo(GeomTagToBoundary{}, GeomTagToInteriorBoundary{}));
 			ProblemDescription tfsfPD(tfsfModel, pd_.probes, pd_.sources, pd_.opts);
diff --git a/src/solver/SourcesManager.cpp b/src/solver/SourcesManager.cpp
index 9971f94..ea737f9 100644
--- a/src/solver/SourcesManager.cpp
+++ b/src/solver/SourcesManager.cpp
@@ -105,15 +105,15 @@ void SourcesManager::markDoFSforTForSF(FieldGridFuncs& gfs, bool isTF)
     }
 }
 
-void SourcesManager::initTFSFPreReqs(const ParMesh& m, const Array<int>& marker)
+void SourcesManager::initTFSFPreReqs(const ParMesh& m, const Array<int>& marker, const Mesh& whole)
 {
-    initTFSFSubMesher(m, marker);
+    initTFSFSubMesher(m, marker, whole);
     initTFSFSpaces();
 }
 
-void SourcesManager::initTFSFSubMesher(const ParMesh& m, const Array<int>& marker)
+void SourcesManager::initTFSFSubMesher(const ParMesh& m, const Array<int>& marker, const Mesh& whole)
 {
-    auto sm = TotalFieldScatteredFieldSubMesher(m, marker);
+    auto sm = TotalFieldScatteredFieldSubMesher(m, marker, whole);
     tfsf_submesher_ = std::move(sm);
 }
 
diff --git a/src/solver/SourcesManager.h b/src/solver/SourcesManager.h
index adea39f..41b7055 100644
--- a/src/solver/SourcesManager.h
+++ b/src/solver/SourcesManager.h
@@ -12,7 +12,7 @@ public:
     SourcesManager(const Sources&, mfem::ParFiniteElementSpace&, Fields<ParFiniteElementSpace, ParGridFunction>& fields);
 
     FieldGridFuncs evalTimeVarField(const Time, FiniteElementSpace*);
-    void initTFSFPreReqs(const ParMesh&, const Array<int>& marker);
+    void initTFSFPreReqs(const ParMesh&, const Array<int>& marker, const Mesh& whole);
     FiniteElementSpace* getTFSpace() { return tf_fes_.get(); }
     FiniteElementSpace* getSFSpace() { return sf_fes_.get(); }
     FiniteElementSpace* getGlobalTFSFSpace() { return global_tfsf_fes_.get(); }
@@ -35,7 +35,7 @@ public:
 
 private:
 
-    void initTFSFSubMesher(const ParMesh&, const Array<int>& marker);
+    void initTFSFSubMesher(const ParMesh&, const Array<int>& marker, const Mesh& whole);
     void initTFSFSpaces();
     void setInitialFields(Fields<ParFiniteElementSpace, ParGridFunction>&);
 
-- 
2.43.0


From 004c78575e786f087f0e480bda7ed26a13036c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:16:57 +0000
Subject: [PATCH 34/35] fix: put automatic delays before every point of the
 total-field surface

Delays were measured from the centres of the surface's faces. Corners of
large faces lie upstream of them, so that the pulse had already reached
the surface at the start.
---
 src/driver/driver.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index 890d4ff..8982d86 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -447,7 +447,15 @@ static double minRadiusOnTFSFSurface(const mfem::Mesh& mesh, const json& tags)
 	double min_r = std::numeric_limits<double>::max();
 	for (int be = 0; be < mesh.GetNBE(); ++be) {
 		if (!bdrElemHasTag(mesh, be, tags)) continue;
-		min_r = std::min(min_r, bdrElemCentroid(mesh, be).Norml2());
+		// No point of the element is closer than its centroid by more than its farthest vertex.
+		const auto c = bdrElemCentroid(mesh, be);
+		mfem::Array<int> verts;
+		mesh.GetBdrElementVertices(be, verts);
+		double size = 0.0;
+		for (int v = 0; v < verts.Size(); ++v) {
+			size = std::max(size, c.DistanceTo(mesh.GetVertex(verts[v])));
+		}
+		min_r = std::min(min_r, std::max(0.0, c.Norml2() - size));
 	}
 	double global_min_r;
 	MPI_Allreduce(&min_r, &global_min_r, 1, MPI_DOUBLE, MPI_MIN, MPI_COMM_WORLD);
@@ -466,11 +474,15 @@ static double minPhaseOnTFSFSurface(const mfem::Mesh& mesh, const json& tags,
 	int dim = mesh.Dimension();
 	for (int be = 0; be < mesh.GetNBE(); ++be) {
 		if (!bdrElemHasTag(mesh, be, tags)) continue;
-		auto x = bdrElemCentroid(mesh, be);
-		double phase = 0.0;
-		for (int d = 0; d < dim && d < d_hat.Size(); ++d) phase += x[d] * d_hat[d];
-		phase /= c;
-		min_phase = std::min(min_phase, phase);
+		mfem::Array<int> verts;
+		mesh.GetBdrElementVertices(be, verts);
+		for (int v = 0; v < verts.Size(); ++v) {
+			const double* x = mesh.GetVertex(verts[v]);
+			double phase = 0.0;
+			for (int d = 0; d < dim && d < d_hat.Size(); ++d) phase += x[d] * d_hat[d];
+			phase /= c;
+			min_phase = std::min(min_phase, phase);
+		}
 	}
 	double global_min_phase;
 	MPI_Allreduce(&min_phase, &global_min_phase, 1, MPI_DOUBLE, MPI_MIN, MPI_COMM_WORLD);
-- 
2.43.0


From eb67b4e9717787d81a7ed673a66c817cc11a69a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:52:15 +0000
Subject: [PATCH 35/35] fix: replace repaired mesh files at once

Every load of a mesh repairs the file on disk first. The file was cut and
written again in place, while other ranks could still be reading it from
the load before, and an interruption in between lost the mesh. The
repaired mesh is now written next to the file and takes its place.
---
 src/driver/driver.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index 8982d86..ccb61ae 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -1274,13 +1274,24 @@ void fixGmshMesh(const std::string& filepath)
     auto& count_line = header_lines.back();
     count_line = std::to_string(fixed_elements.size());
 
-    // Write back.
+    // Write back. The file is replaced at once: other ranks may still be reading
+    // it, and it must survive if writing is interrupted.
+    const auto target = std::filesystem::canonical(filepath);
+    auto temporary = target;
+    temporary += ".tmp";
     {
-        std::ofstream out(filepath, std::ios::trunc);
+        std::ofstream out(temporary, std::ios::trunc);
         for (const auto& l : header_lines) out << l << '\n';
         for (const auto& l : fixed_elements) out << l << '\n';
         for (const auto& l : footer_lines) out << l << '\n';
+        out.close();
+        if (!out) {
+            std::filesystem::remove(temporary);
+            return;
+        }
     }
+    std::filesystem::permissions(temporary, std::filesystem::status(target).permissions());
+    std::filesystem::rename(temporary, target);
 }
 
 mfem::Mesh assembleMesh(const std::string& mesh_string)
-- 
2.43.0

