// Meshes: topology, geometry, generation, input and output.
#include "mfem.hpp"
#include <map>

namespace mfem {

// -------------------------------------------------------- reference topology
static const int TRI_E[3][2] = {{0, 1}, {1, 2}, {2, 0}};
static const int SQ_E[4][2] = {{0, 1}, {1, 2}, {2, 3}, {3, 0}};
static const int TET_E[6][2] = {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}};
static const int CUB_E[12][2] = {{0, 1}, {1, 2}, {3, 2}, {0, 3}, {4, 5}, {5, 6}, {7, 6}, {4, 7}, {0, 4}, {1, 5}, {2, 6}, {3, 7}};
static const int SEG_E[1][2] = {{0, 1}};
static const int TET_F[4][3] = {{1, 2, 3}, {0, 3, 2}, {0, 1, 3}, {0, 2, 1}};
static const int CUB_F[6][4] = {{3, 2, 1, 0}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}, {4, 5, 6, 7}};
static const int SEG_O[2][2] = {{0, 1}, {1, 0}};
static const int TRI_O[6][3] = {{0, 1, 2}, {1, 0, 2}, {2, 0, 1}, {2, 1, 0}, {1, 2, 0}, {0, 2, 1}};
static const int SQ_O[8][4] = {{0, 1, 2, 3}, {0, 3, 2, 1}, {1, 2, 3, 0}, {1, 0, 3, 2}, {2, 3, 0, 1}, {2, 1, 0, 3}, {3, 0, 1, 2}, {3, 2, 1, 0}};

static const int* edge_of(Geometry::Type g, int i) {
  switch (g) {
    case Geometry::SEGMENT: return SEG_E[i];
    case Geometry::TRIANGLE: return TRI_E[i];
    case Geometry::SQUARE: return SQ_E[i];
    case Geometry::TETRAHEDRON: return TET_E[i];
    case Geometry::CUBE: return CUB_E[i];
    default: mfem_fail("edges of this geometry are not provided");
  }
}
static int nfaces_of(Geometry::Type g) {  // codimension-one faces
  switch (g) {
    case Geometry::SEGMENT: return 2;
    case Geometry::TRIANGLE: return 3;
    case Geometry::SQUARE: return 4;
    case Geometry::TETRAHEDRON: return 4;
    case Geometry::CUBE: return 6;
    default: mfem_fail("faces of this geometry are not provided");
  }
}
static Geometry::Type facegeom_of(Geometry::Type g) {
  switch (g) {
    case Geometry::SEGMENT: return Geometry::POINT;
    case Geometry::TRIANGLE: case Geometry::SQUARE: return Geometry::SEGMENT;
    case Geometry::TETRAHEDRON: return Geometry::TRIANGLE;
    case Geometry::CUBE: return Geometry::SQUARE;
    default: mfem_fail("faces of this geometry are not provided");
  }
}
static const int* facev_of(Geometry::Type g, int i) {
  static const int ends[2] = {0, 1};
  switch (g) {
    case Geometry::SEGMENT: return ends + i;
    case Geometry::TRIANGLE: return TRI_E[i];
    case Geometry::SQUARE: return SQ_E[i];
    case Geometry::TETRAHEDRON: return TET_F[i];
    case Geometry::CUBE: return CUB_F[i];
    default: mfem_fail("faces of this geometry are not provided");
  }
}

int Element::GetNEdges() const { return Geometry::Dimension[g_] == 1 ? 0 : Geometry::NumEdges[g_]; }
const int* Element::GetEdgeVertices(int i) const { return edge_of(g_, i); }
int Element::GetNFaceVertices(int) const { return g_ == Geometry::TETRAHEDRON ? 3 : g_ == Geometry::CUBE ? 4 : 0; }
const int* Element::GetFaceVertices(int fi) const { return facev_of(g_, fi); }

int Mesh::FaceOrientation(Geometry::Type g, const int* base, const int* test) {
  int n = Geometry::NumVerts[g];
  if (g == Geometry::POINT) return 0;
  int no = g == Geometry::SEGMENT ? 2 : g == Geometry::TRIANGLE ? 6 : 8;
  for (int o = 0; o < no; o++) {
    const int* p = g == Geometry::SEGMENT ? SEG_O[o] : g == Geometry::TRIANGLE ? TRI_O[o] : SQ_O[o];
    bool ok = true;
    for (int j = 0; j < n && ok; j++) ok = test[p[j]] == base[j];
    if (ok) return o;
  }
  mfem_fail("face orientation: the vertices do not match");
}

void Mesh::LocalFaceTransf(Geometry::Type elem, int info, IsoparametricTransformation& T) {
  Geometry::Type fg = facegeom_of(elem);
  T.SetFE(LinearElement(fg));
  const auto* v = Geometries.GetVertices(elem);
  const int* tv = facev_of(elem, info / 64);
  int o = info % 64, n = Geometry::NumVerts[fg], d = Geometry::Dimension[elem];
  DenseMatrix& pm = T.GetPointMat();
  pm.SetSize(d, n);
  for (int j = 0; j < n; j++) {
    int col = j, src = j;
    if (fg == Geometry::SEGMENT) col = SEG_O[o][j];
    if (fg == Geometry::TRIANGLE) src = TRI_O[o][j];
    if (fg == Geometry::SQUARE) src = SQ_O[o][j];
    const auto& p = (*v)[tv[src]];
    double c[3] = {p.x, p.y, p.z};
    for (int i = 0; i < d; i++) pm(i, col) = c[i];
  }
}

// ---------------------------------------------------------------- life cycle
Mesh::Mesh(int dim, int, int, int, int sdim) : Dim(dim), spaceDim(sdim < 0 ? dim : sdim) {}
Mesh::~Mesh() = default;
Mesh::Mesh(const Mesh& m) { CopyFrom(m); }
Mesh::Mesh(Mesh&& m) { *this = std::move(m); }
Mesh& Mesh::operator=(const Mesh& m) { if (this != &m) CopyFrom(m); return *this; }
Mesh& Mesh::operator=(Mesh&& m) {
  if (this == &m) return *this;
  Nodes.reset(); nfes.reset();
  attributes = m.attributes; bdr_attributes = m.bdr_attributes;
  Dim = m.Dim; spaceDim = m.spaceDim;
  vertices = std::move(m.vertices); elements = std::move(m.elements); boundary = std::move(m.boundary); faces = std::move(m.faces);
  faces_info = std::move(m.faces_info); edge_v = std::move(m.edge_v);
  el_to_edge = std::move(m.el_to_edge); el_to_face = std::move(m.el_to_face); el_to_el = std::move(m.el_to_el);
  be_to_face = std::move(m.be_to_face);
  nfec = m.nfec; nfes = std::move(m.nfes); Nodes = std::move(m.Nodes);
  RebindNodes();
  return *this;
}
void Mesh::CopyFrom(const Mesh& m) {
  auto dup = [](const std::vector<std::unique_ptr<Element>>& a) { std::vector<std::unique_ptr<Element>> b; for (auto& e : a) b.push_back(e ? std::make_unique<Element>(*e) : nullptr); return b; };
  Nodes.reset(); nfes.reset();
  attributes = m.attributes; bdr_attributes = m.bdr_attributes;
  Dim = m.Dim; spaceDim = m.spaceDim;
  vertices = m.vertices; elements = dup(m.elements); boundary = dup(m.boundary); faces = dup(m.faces);
  faces_info = m.faces_info; edge_v = m.edge_v; el_to_edge = m.el_to_edge; el_to_face = m.el_to_face; el_to_el = m.el_to_el; be_to_face = m.be_to_face;
  nfec = m.nfec;
  if (m.Nodes) {
    nfes = std::make_unique<FiniteElementSpace>(this, nfec.get(), spaceDim, m.nfes->GetOrdering());
    Nodes = std::make_unique<GridFunction>(nfes.get());
    for (int i = 0; i < Nodes->Size(); i++) (*Nodes)(i) = (*m.Nodes)(i);
  }
}
void Mesh::RebindNodes() {
  if (nfes) nfes->mesh = this;
}

// ------------------------------------------------------------------- topology
void Mesh::GenerateTopology() {
  faces.clear(); faces_info.clear(); edge_v.clear(); be_to_face.clear();
  el_to_edge = Table(GetNE()); el_to_face = Table(GetNE()); el_to_el = Table();
  std::map<std::pair<int, int>, int> emap;
  if (Dim > 1) {
    for (int e = 0; e < GetNE(); e++) {
      const Element& el = *elements[e];
      const int* v = el.GetVertices();
      for (int i = 0; i < Geometry::NumEdges[el.GetGeometryType()]; i++) {
        const int* p = edge_of(el.GetGeometryType(), i);
        int a = v[p[0]], b = v[p[1]];
        auto key = std::minmax(a, b);
        auto it = emap.emplace(key, (int)edge_v.size());
        if (it.second) edge_v.push_back({key.first, key.second});
        el_to_edge.Push(e, it.first->second);
      }
    }
  }
  std::map<std::vector<int>, int> fmap;
  if (Dim == 1) { faces.resize(GetNV()); faces_info.resize(GetNV()); }
  if (Dim == 2) { faces.resize(edge_v.size()); faces_info.resize(edge_v.size()); }
  auto find = [&](Geometry::Type fg, const int* v, bool make) -> int {
    if (Dim == 1) return v[0] >= 0 && v[0] < GetNV() ? v[0] : -1;
    if (Dim == 2) { auto it = emap.find(std::minmax(v[0], v[1])); return it == emap.end() ? -1 : it->second; }
    std::vector<int> k(v, v + Geometry::NumVerts[fg]);
    std::sort(k.begin(), k.end());
    auto it = fmap.find(k);
    if (it != fmap.end()) return it->second;
    if (!make) return -1;
    fmap[k] = (int)faces.size();
    faces.emplace_back();
    faces_info.emplace_back();
    return (int)faces.size() - 1;
  };
  for (int e = 0; e < GetNE(); e++) {
    const Element& el = *elements[e];
    Geometry::Type g = el.GetGeometryType(), fg = facegeom_of(g);
    if (Geometry::Dimension[g] != Dim) mfem_fail("element dimension differs from the mesh dimension");
    const int* v = el.GetVertices();
    for (int lf = 0; lf < nfaces_of(g); lf++) {
      const int* p = facev_of(g, lf);
      int fv[4];
      for (int k = 0; k < Geometry::NumVerts[fg]; k++) fv[k] = v[p[k]];
      int f = find(fg, fv, true);
      FaceInfo& fi = faces_info[f];
      if (!faces[f]) {
        faces[f] = std::make_unique<Element>(fg, fv, 1);
        fi.Elem1No = e; fi.Elem1Inf = 64 * lf; fi.Elem2No = -1; fi.Elem2Inf = -1;
      } else {
        if (fi.Elem2No >= 0) mfem_fail("Invalid mesh topology. Interior face shared by more than two elements");
        fi.Elem2No = e;
        fi.Elem2Inf = 64 * lf + FaceOrientation(fg, faces[f]->GetVertices(), fv);
      }
      el_to_face.Push(e, f);
    }
  }
  for (int b = 0; b < GetNBE(); b++) {
    int f = find(boundary[b]->GetGeometryType(), boundary[b]->GetVertices(), false);
    if (f < 0 || !faces[f]) mfem_fail("boundary element " + std::to_string(b) + " is not a face of the mesh");
    be_to_face.push_back(f);
  }
}

void Mesh::FinalizeTopology(bool generate_bdr) {
  if (spaceDim == 0) spaceDim = Dim;
  GenerateTopology();
  if (GetNBE() == 0 && generate_bdr) { GenerateBoundaryElements(); GenerateTopology(); }
  SetAttributes();
}
void Mesh::GenerateBoundaryElements() {
  for (auto& b : boundary) b.reset();
  boundary.clear();
  for (size_t f = 0; f < faces_info.size(); f++)
    if (faces[f] && faces_info[f].Elem2No < 0) boundary.push_back(std::make_unique<Element>(*faces[f]));
}
void Mesh::SetAttributes() {
  std::set<int> a, b;
  for (auto& e : elements) a.insert(e->GetAttribute());
  for (auto& e : boundary) b.insert(e->GetAttribute());
  attributes.SetSize((int)a.size());
  bdr_attributes.SetSize((int)b.size());
  int k = 0;
  for (int x : a) attributes[k++] = x;
  k = 0;
  for (int x : b) bdr_attributes[k++] = x;
}
int Mesh::CheckElementOrientation(bool fix) {
  int wo = 0;
  if (Dim != spaceDim || Dim == 1 || Nodes) return 0;
  for (int e = 0; e < GetNE(); e++) {
    IsoparametricTransformation T;
    GetElementTransformation(e, &T);
    T.SetIntPoint(&Geometries.GetCenter(GetElementGeometry(e)));
    if (T.Weight() < 0) {
      wo++;
      int* v = elements[e]->GetVertices();
      if (!fix) continue;
      switch (GetElementGeometry(e)) {
        case Geometry::TRIANGLE: case Geometry::TETRAHEDRON: std::swap(v[0], v[1]); break;
        case Geometry::SQUARE: std::swap(v[1], v[3]); break;
        default: break;
      }
    }
  }
  return wo;
}
int Mesh::CheckBdrElementOrientation(bool fix) {
  int wo = 0;
  for (int b = 0; b < GetNBE(); b++) {
    int f = be_to_face[b];
    if (faces_info[f].Elem2No >= 0) continue;
    int* bv = boundary[b]->GetVertices();
    const int* fv = faces[f]->GetVertices();
    Geometry::Type g = boundary[b]->GetGeometryType();
    if (g == Geometry::SEGMENT) { if (bv[0] != fv[0]) { wo++; if (fix) std::swap(bv[0], bv[1]); } }
    else if (g != Geometry::POINT) {
      if (FaceOrientation(g, fv, bv) % 2) { wo++; if (fix) { if (g == Geometry::TRIANGLE) std::swap(bv[0], bv[1]); else std::swap(bv[0], bv[2]); } }
    }
  }
  return wo;
}
void Mesh::MarkTriMeshForRefinement() {
  auto len = [&](int a, int b) { double s = 0; for (int i = 0; i < 3; i++) { double d = vertices[a](i) - vertices[b](i); s += d * d; } return s; };
  for (auto& e : elements) {
    if (e->GetGeometryType() != Geometry::TRIANGLE) continue;
    int* v = e->GetVertices();
    double l[3] = {len(v[0], v[1]), len(v[1], v[2]), len(v[2], v[0])};
    int j = 0;
    for (int k = 1; k < 3; k++) if (l[k] > l[j] * (1 + 1e-12)) j = k;
    int w[3] = {v[0], v[1], v[2]};
    for (int k = 0; k < 3; k++) v[k] = w[(k + j) % 3];
  }
}
void Mesh::Finalize(bool refine, bool fix) {
  bool changed = CheckElementOrientation(fix) > 0 && fix;
  if (refine && Dim == 2 && !Nodes) { MarkTriMeshForRefinement(); changed = true; }
  if (changed) GenerateTopology();
  CheckBdrElementOrientation(true);
  SetAttributes();
}
void Mesh::FinalizeMesh(int refine, bool fix) {
  FinalizeTopology();
  Finalize(refine, fix);
}

void Mesh::GetVertices(Vector& v) const {
  v.SetSize(GetNV() * spaceDim);
  for (int i = 0; i < GetNV(); i++) for (int d = 0; d < spaceDim; d++) v(d * GetNV() + i) = vertices[i](d);
}
void Mesh::GetElementEdges(int i, Array<int>& e, Array<int>& cor) const {
  if (Dim == 1) { e.SetSize(1); e[0] = i; cor.SetSize(1); cor[0] = 1; return; }
  el_to_edge.GetRow(i, e);
  cor.SetSize(e.Size());
  const int* v = elements[i]->GetVertices();
  for (int k = 0; k < e.Size(); k++) { const int* p = edge_of(GetElementGeometry(i), k); cor[k] = v[p[0]] < v[p[1]] ? 1 : -1; }
}
void Mesh::GetElementFaces(int i, Array<int>& f, Array<int>& ori) const {
  if (Dim < 3) mfem_fail("GetElementFaces: only for three-dimensional meshes");
  el_to_face.GetRow(i, f);
  ori.SetSize(f.Size());
  for (int k = 0; k < f.Size(); k++) {
    const auto& fi = faces_info[f[k]];
    ori[k] = fi.Elem1No == i ? fi.Elem1Inf % 64 : fi.Elem2Inf % 64;
  }
}
const Table& Mesh::ElementToElementTable() {
  if (el_to_el.Size() == GetNE() && GetNE() > 0) return el_to_el;
  el_to_el = Table(GetNE());
  for (auto& f : faces_info) if (f.Elem1No >= 0 && f.Elem2No >= 0) { el_to_el.Push(f.Elem1No, f.Elem2No); el_to_el.Push(f.Elem2No, f.Elem1No); }
  for (auto& r : el_to_el.Rows()) std::sort(r.begin(), r.end());
  return el_to_el;
}
void Mesh::GetBdrElementFace(int i, int* f, int* o) const {
  *f = be_to_face[i];
  *o = FaceOrientation(boundary[i]->GetGeometryType(), faces[*f]->GetVertices(), boundary[i]->GetVertices());
}
Array<int> Mesh::GetFaceToBdrElMap() const {
  Array<int> m(GetNumFaces());
  m = -1;
  for (int b = 0; b < GetNBE(); b++) m[be_to_face[b]] = b;
  return m;
}
Mesh::FaceInformation Mesh::GetFaceInformation(int f) const {
  FaceInformation r;
  const FaceInfo& fi = faces_info[f];
  r.element[0].location = ElementLocation::Local;
  r.element[0].index = fi.Elem1No;
  r.element[0].local_face_id = fi.Elem1Inf / 64;
  r.element[0].orientation = fi.Elem1Inf % 64;
  if (fi.Elem2No >= 0) {
    r.topology = FaceTopology::Conforming;
    r.element[1].location = ElementLocation::Local;
    r.element[1].index = fi.Elem2No;
    r.element[1].local_face_id = fi.Elem2Inf / 64;
    r.element[1].orientation = fi.Elem2Inf % 64;
    r.tag = FaceInfoTag::LocalConforming;
  } else if (fi.Elem2Inf >= 0) {
    r.topology = FaceTopology::Conforming;
    r.element[1].location = ElementLocation::FaceNbr;
    r.element[1].index = -1 - fi.Elem2No;
    r.element[1].local_face_id = fi.Elem2Inf / 64;
    r.element[1].orientation = fi.Elem2Inf % 64;
    r.tag = FaceInfoTag::SharedConforming;
  } else {
    r.topology = FaceTopology::Boundary;
  }
  return r;
}

// ------------------------------------------------------------------- geometry
void Mesh::GetElementTransformation(int i, IsoparametricTransformation* T) const {
  T->Attribute = GetAttribute(i); T->ElementNo = i; T->ElementType = ElementTransformation::ELEMENT; T->mesh = this;
  DenseMatrix& pm = T->GetPointMat();
  if (!Nodes) {
    const Element& e = *elements[i];
    T->SetFE(LinearElement(e.GetGeometryType()));
    pm.SetSize(spaceDim, e.GetNVertices());
    for (int j = 0; j < e.GetNVertices(); j++) for (int d = 0; d < spaceDim; d++) pm(d, j) = vertices[e.GetVertices()[j]](d);
  } else {
    const FiniteElement* fe = nfes->GetFE(i);
    T->SetFE(fe);
    pm.SetSize(spaceDim, fe->GetDof());
    Array<int> dofs;
    nfes->GetElementDofs(i, dofs);
    for (int j = 0; j < fe->GetDof(); j++) for (int d = 0; d < spaceDim; d++) pm(d, j) = (*Nodes)(nfes->DofToVDof(dofs[j], d));
  }
  T->Reset();
}
ElementTransformation* Mesh::GetElementTransformation(int i) { GetElementTransformation(i, &Transformation); return &Transformation; }

// Geometry of a codimension-one entity given the positions, in element el, of
// its vertices.
static void sub_transformation(const Mesh& m, int el, Geometry::Type g, const DenseMatrix& loc, IsoparametricTransformation* T) {
  int order = m.GetNodalFESpace()->FEColl()->GetOrder();
  const FiniteElement* fe = NodalElement(g, order, BasisType::GaussLobatto);
  IsoparametricTransformation L, E;
  L.SetFE(LinearElement(g));
  L.GetPointMat() = loc;
  m.GetElementTransformation(el, &E);
  DenseMatrix pm(m.SpaceDimension(), fe->GetDof());
  Vector x;
  for (int j = 0; j < fe->GetDof(); j++) {
    IntegrationPoint ip;
    L.Transform(fe->GetNodes().IntPoint(j), ip);
    E.Transform(ip, x);
    for (int d = 0; d < x.Size(); d++) pm(d, j) = x(d);
  }
  T->SetFE(fe);
  T->GetPointMat() = pm;
}

void Mesh::GetFaceTransformation(int f, IsoparametricTransformation* T) const {
  T->Attribute = Dim == 1 ? 1 : 1; T->ElementNo = f; T->ElementType = ElementTransformation::FACE; T->mesh = this;
  const Element& e = *faces[f];
  if (!Nodes) {
    T->SetFE(LinearElement(e.GetGeometryType()));
    DenseMatrix& pm = T->GetPointMat();
    pm.SetSize(spaceDim, e.GetNVertices());
    for (int j = 0; j < e.GetNVertices(); j++) for (int d = 0; d < spaceDim; d++) pm(d, j) = vertices[e.GetVertices()[j]](d);
  } else {
    IsoparametricTransformation L;
    LocalFaceTransf(GetElementGeometry(faces_info[f].Elem1No), faces_info[f].Elem1Inf, L);
    sub_transformation(*this, faces_info[f].Elem1No, e.GetGeometryType(), L.GetPointMat(), T);
  }
  T->Reset();
}
ElementTransformation* Mesh::GetFaceTransformation(int f) { GetFaceTransformation(f, &FaceTransformation); return &FaceTransformation; }
ElementTransformation* Mesh::GetEdgeTransformation(int i) {
  if (Dim == 2) { GetFaceTransformation(i, &EdgeTransformation); EdgeTransformation.ElementType = ElementTransformation::EDGE; return &EdgeTransformation; }
  if (Dim == 1) mfem_fail("GetEdgeTransformation: not defined in one dimension");
  auto& T = EdgeTransformation;
  T.Attribute = 1; T.ElementNo = i; T.ElementType = ElementTransformation::EDGE; T.mesh = this;
  T.SetFE(LinearElement(Geometry::SEGMENT));
  DenseMatrix& pm = T.GetPointMat();
  pm.SetSize(spaceDim, 2);
  for (int j = 0; j < 2; j++) for (int d = 0; d < spaceDim; d++) pm(d, j) = vertices[edge_v[i][j]](d);
  T.Reset();
  return &T;
}
void Mesh::GetBdrElementTransformation(int i, IsoparametricTransformation* T) const {
  T->Attribute = GetBdrAttribute(i); T->ElementNo = i; T->ElementType = ElementTransformation::BDR_ELEMENT; T->mesh = this;
  const Element& e = *boundary[i];
  if (!Nodes) {
    T->SetFE(LinearElement(e.GetGeometryType()));
    DenseMatrix& pm = T->GetPointMat();
    pm.SetSize(spaceDim, e.GetNVertices());
    for (int j = 0; j < e.GetNVertices(); j++) for (int d = 0; d < spaceDim; d++) pm(d, j) = vertices[e.GetVertices()[j]](d);
  } else {
    int el = faces_info[be_to_face[i]].Elem1No;
    const Element& E = *elements[el];
    const auto* rv = Geometries.GetVertices(E.GetGeometryType());
    DenseMatrix loc(Dim, e.GetNVertices());
    for (int j = 0; j < e.GetNVertices(); j++)
      for (int k = 0; k < E.GetNVertices(); k++)
        if (E.GetVertices()[k] == e.GetVertices()[j]) { double c[3] = {(*rv)[k].x, (*rv)[k].y, (*rv)[k].z}; for (int d = 0; d < Dim; d++) loc(d, j) = c[d]; }
    sub_transformation(*this, el, e.GetGeometryType(), loc, T);
  }
  T->Reset();
}
ElementTransformation* Mesh::GetBdrElementTransformation(int i) { GetBdrElementTransformation(i, &BdrTransformation); return &BdrTransformation; }

FaceElementTransformations* Mesh::GetFaceElementTransformations(int f, int mask) {
  FaceInfo& fi = faces_info[f];
  auto& T = FaceElemTr;
  T.SetConfigurationMask(0);
  T.Elem1 = nullptr; T.Elem2 = nullptr;
  T.Elem1No = fi.Elem1No;
  T.Elem2No = fi.Elem2No;
  int cmask = 0;
  GetElementTransformation(fi.Elem1No, &Transformation);
  T.Elem1 = &Transformation;
  cmask |= FaceElementTransformations::HAVE_ELEM1;
  if ((mask & FaceElementTransformations::HAVE_ELEM2) && fi.Elem2No >= 0) {
    GetElementTransformation(fi.Elem2No, &Transformation2);
    T.Elem2 = &Transformation2;
    cmask |= FaceElementTransformations::HAVE_ELEM2;
  }
  GetFaceTransformation(f, &T);
  cmask |= FaceElementTransformations::HAVE_FACE;
  LocalFaceTransf(GetElementGeometry(fi.Elem1No), fi.Elem1Inf, T.Loc1.Transf);
  cmask |= FaceElementTransformations::HAVE_LOC1;
  if ((mask & FaceElementTransformations::HAVE_LOC2) && fi.Elem2No >= 0) {
    LocalFaceTransf(GetElementGeometry(fi.Elem2No), fi.Elem2Inf, T.Loc2.Transf);
    cmask |= FaceElementTransformations::HAVE_LOC2;
  }
  T.SetConfigurationMask(cmask);
  return &T;
}
FaceElementTransformations* Mesh::GetBdrFaceTransformations(int be) {
  int f = be_to_face[be];
  if (FaceIsTrueInterior(f)) return nullptr;
  auto* T = GetFaceElementTransformations(f, 21);
  T->Attribute = boundary[be]->GetAttribute();
  T->ElementNo = be;
  T->ElementType = ElementTransformation::BDR_FACE;
  T->mesh = this;
  return T;
}
FaceElementTransformations* Mesh::GetInternalBdrFaceTransformations(int be) {
  int f = be_to_face[be];
  if (!FaceIsInterior(f)) return nullptr;
  auto* T = GetFaceElementTransformations(f, 31);
  T->Attribute = boundary[be]->GetAttribute();
  T->ElementNo = be;
  T->ElementType = ElementTransformation::BDR_FACE;
  T->mesh = this;
  return T;
}

static void singular_values(const DenseMatrix& J, std::vector<double>& s) {
  int n = J.Width();
  DenseMatrix A(n);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double t = 0; for (int k = 0; k < J.Height(); k++) t += J(k, i) * J(k, j); A(i, j) = t; }
  for (int sweep = 0; sweep < 60; sweep++)
    for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
      if (std::abs(A(p, q)) < 1e-300) continue;
      double th = (A(q, q) - A(p, p)) / (2 * A(p, q)), t = (th >= 0 ? 1 : -1) / (std::abs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), sn = t * c;
      for (int k = 0; k < n; k++) { double a = A(k, p), b = A(k, q); A(k, p) = c * a - sn * b; A(k, q) = sn * a + c * b; }
      for (int k = 0; k < n; k++) { double a = A(p, k), b = A(q, k); A(p, k) = c * a - sn * b; A(q, k) = sn * a + c * b; }
    }
  s.clear();
  for (int i = 0; i < n; i++) s.push_back(std::sqrt(std::max(0.0, A(i, i))));
  std::sort(s.rbegin(), s.rend());
}
real_t Mesh::GetElementSize(ElementTransformation* T, int type) const {
  T->SetIntPoint(&Geometries.GetCenter(T->GetGeometryType()));
  const DenseMatrix& J = T->Jacobian();
  if (type == 0) return std::pow(std::abs(J.Weight()), 1. / Dim);
  std::vector<double> s;
  singular_values(J, s);
  return type == 1 ? s.back() : s.front();
}
real_t Mesh::GetElementSize(int i, int type) { return GetElementSize(GetElementTransformation(i), type); }
real_t Mesh::GetElementVolume(int i) {
  auto* T = GetElementTransformation(i);
  const auto& ir = IntRules.Get(GetElementGeometry(i), T->OrderJ());
  double v = 0;
  for (int q = 0; q < ir.GetNPoints(); q++) { T->SetIntPoint(&ir.IntPoint(q)); v += ir.IntPoint(q).weight * T->Weight(); }
  return v;
}
void Mesh::GetElementCenter(int i, Vector& c) {
  auto* T = GetElementTransformation(i);
  T->Transform(Geometries.GetCenter(GetElementGeometry(i)), c);
}
void Mesh::GetBoundingBox(Vector& mn, Vector& mx, int) {
  mn.SetSize(spaceDim); mx.SetSize(spaceDim);
  mn = infinity(); mx = -infinity();
  auto put = [&](int d, double v) { mn(d) = std::min(mn(d), v); mx(d) = std::max(mx(d), v); };
  if (!Nodes) for (auto& v : vertices) for (int d = 0; d < spaceDim; d++) put(d, v(d));
  else for (int i = 0; i < nfes->GetNDofs(); i++) for (int d = 0; d < spaceDim; d++) put(d, (*Nodes)(nfes->DofToVDof(i, d)));
}
void Mesh::GetCharacteristics(real_t& hmin, real_t& hmax, real_t& kmin, real_t& kmax) {
  hmin = kmin = infinity(); hmax = kmax = 0;
  for (int i = 0; i < GetNE(); i++) {
    double h = GetElementSize(i, 0), k = GetElementSize(i, 2) / GetElementSize(i, 1);
    hmin = std::min(hmin, h); hmax = std::max(hmax, h); kmin = std::min(kmin, k); kmax = std::max(kmax, k);
  }
}
int Mesh::FindPoints(DenseMatrix& pts, Array<int>& elem, Array<IntegrationPoint>& ips, bool, void*) {
  int n = pts.Width(), found = 0;
  elem.SetSize(n); ips.SetSize(n);
  elem = -1;
  std::vector<Vector> c(GetNE());
  for (int e = 0; e < GetNE(); e++) GetElementCenter(e, c[e]);
  for (int k = 0; k < n; k++) {
    Vector p(spaceDim);
    for (int d = 0; d < spaceDim; d++) p(d) = pts(d, k);
    std::vector<std::pair<double, int>> ord;
    for (int e = 0; e < GetNE(); e++) { double s = 0; for (int d = 0; d < spaceDim; d++) s += (c[e](d) - p(d)) * (c[e](d) - p(d)); ord.push_back({s, e}); }
    std::sort(ord.begin(), ord.end());
    for (auto& o : ord) {
      IsoparametricTransformation T;
      GetElementTransformation(o.second, &T);
      IntegrationPoint ip;
      if (T.TransformBack(p, ip) == 0) { elem[k] = o.second; ips[k] = ip; found++; break; }
    }
  }
  return found;
}

// ---------------------------------------------------------------------- nodes
const FiniteElementSpace* Mesh::GetNodalFESpace() const { return nfes.get(); }
void Mesh::SetNodesL2(int order, const std::vector<DenseMatrix>& pe, int basis) {
  Nodes.reset(); nfes.reset();
  nfec = std::make_shared<L2_FECollection>(order, Dim, basis);
  nfes = std::make_unique<FiniteElementSpace>(this, nfec.get(), spaceDim, Ordering::byVDIM);
  Nodes = std::make_unique<GridFunction>(nfes.get());
  *Nodes = 0.0;
  for (int e = 0; e < GetNE(); e++) {
    Array<int> d;
    nfes->GetElementDofs(e, d);
    for (int j = 0; j < d.Size(); j++) for (int k = 0; k < spaceDim; k++) (*Nodes)(nfes->DofToVDof(d[j], k)) = pe[e](k, j);
  }
}
void Mesh::SetCurvature(int order, bool, int, int) {
  std::vector<DenseMatrix> pe(GetNE());
  if (order < 1) order = 1;
  for (int e = 0; e < GetNE(); e++) {
    IsoparametricTransformation T;
    GetElementTransformation(e, &T);
    T.Transform(NodalElement(GetElementGeometry(e), order, BasisType::GaussLobatto)->GetNodes(), pe[e]);
  }
  SetNodesL2(order, pe, BasisType::GaussLobatto);
}
void Mesh::GetNodes(GridFunction& nodes) const {
  const FiniteElementSpace* f = nodes.FESpace();
  if (Nodes && f->FEColl() == nfec.get()) { nodes = *Nodes; return; }
  for (int e = 0; e < GetNE(); e++) {
    IsoparametricTransformation T;
    GetElementTransformation(e, &T);
    Array<int> d;
    f->GetElementDofs(e, d);
    Vector x;
    for (int j = 0; j < d.Size(); j++) {
      T.Transform(f->GetFE(e)->GetNodes().IntPoint(j), x);
      for (int k = 0; k < f->GetVDim(); k++) nodes(f->DofToVDof(d[j], k)) = k < spaceDim ? x(k) : 0.0;
    }
  }
}
void Mesh::Transform(std::function<void(const Vector&, Vector&)> fn) {
  Vector x(spaceDim), y(spaceDim);
  for (auto& v : vertices) { for (int d = 0; d < spaceDim; d++) x(d) = v(d); fn(x, y); for (int d = 0; d < spaceDim; d++) v(d) = y(d); }
  if (Nodes) for (int i = 0; i < nfes->GetNDofs(); i++) {
    for (int d = 0; d < spaceDim; d++) x(d) = (*Nodes)(nfes->DofToVDof(i, d));
    fn(x, y);
    for (int d = 0; d < spaceDim; d++) (*Nodes)(nfes->DofToVDof(i, d)) = y(d);
  }
}

// ----------------------------------------------------------------- refinement
void Mesh::UniformRefinement(int) {
  auto mid = [&](std::map<std::vector<int>, int>& mp, std::vector<int> k) {
    std::sort(k.begin(), k.end());
    auto it = mp.find(k);
    if (it != mp.end()) return it->second;
    Vertex v;
    for (int d = 0; d < 3; d++) { double s = 0; for (int i : k) s += vertices[i](d); v(d) = s / k.size(); }
    vertices.push_back(v);
    return mp[k] = GetNV() - 1;
  };
  if (Nodes) mfem_fail("UniformRefinement of curved meshes is not provided");
  std::map<std::vector<int>, int> mp;
  std::vector<std::unique_ptr<Element>> ne, nb;
  auto add = [](std::vector<std::unique_ptr<Element>>& l, Geometry::Type g, std::vector<int> v, int a) { l.push_back(std::make_unique<Element>(g, v.data(), a)); };
  auto split = [&](std::vector<std::unique_ptr<Element>>& out, const Element& e) {
    const int* v = e.GetVertices();
    int a = e.GetAttribute();
    auto m = [&](int i, int j) { return mid(mp, {v[i], v[j]}); };
    switch (e.GetGeometryType()) {
      case Geometry::POINT: add(out, Geometry::POINT, {v[0]}, a); break;
      case Geometry::SEGMENT: { int c = m(0, 1); add(out, Geometry::SEGMENT, {v[0], c}, a); add(out, Geometry::SEGMENT, {c, v[1]}, a); break; }
      case Geometry::TRIANGLE: {
        int x = m(0, 1), y = m(1, 2), z = m(2, 0);
        add(out, Geometry::TRIANGLE, {v[0], x, z}, a); add(out, Geometry::TRIANGLE, {y, z, x}, a);
        add(out, Geometry::TRIANGLE, {x, v[1], y}, a); add(out, Geometry::TRIANGLE, {z, y, v[2]}, a);
        break;
      }
      case Geometry::SQUARE: {
        int e0 = m(0, 1), e1 = m(1, 2), e2 = m(2, 3), e3 = m(3, 0), c = mid(mp, {v[0], v[1], v[2], v[3]});
        add(out, Geometry::SQUARE, {v[0], e0, c, e3}, a); add(out, Geometry::SQUARE, {e0, v[1], e1, c}, a);
        add(out, Geometry::SQUARE, {c, e1, v[2], e2}, a); add(out, Geometry::SQUARE, {e3, c, e2, v[3]}, a);
        break;
      }
      case Geometry::TETRAHEDRON: {
        int m01 = m(0, 1), m02 = m(0, 2), m03 = m(0, 3), m12 = m(1, 2), m13 = m(1, 3), m23 = m(2, 3);
        int t[8][4] = {{v[0], m01, m02, m03}, {m01, v[1], m12, m13}, {m02, m12, v[2], m23}, {m03, m13, m23, v[3]},
                       {m01, m02, m03, m13}, {m01, m12, m02, m13}, {m02, m03, m13, m23}, {m02, m13, m12, m23}};
        for (auto& q : t) add(out, Geometry::TETRAHEDRON, {q[0], q[1], q[2], q[3]}, a);
        break;
      }
      case Geometry::CUBE: {
        int E[12], F[6], c = mid(mp, std::vector<int>(v, v + 8));
        for (int i = 0; i < 12; i++) E[i] = m(CUB_E[i][0], CUB_E[i][1]);
        for (int i = 0; i < 6; i++) F[i] = mid(mp, {v[CUB_F[i][0]], v[CUB_F[i][1]], v[CUB_F[i][2]], v[CUB_F[i][3]]});
        int h[8][8] = {{v[0], E[0], F[0], E[3], E[8], F[1], c, F[4]}, {E[0], v[1], E[1], F[0], F[1], E[9], F[2], c},
                       {F[0], E[1], v[2], E[2], c, F[2], E[10], F[3]}, {E[3], F[0], E[2], v[3], F[4], c, F[3], E[11]},
                       {E[8], F[1], c, F[4], v[4], E[4], F[5], E[7]}, {F[1], E[9], F[2], c, E[4], v[5], E[5], F[5]},
                       {c, F[2], E[10], F[3], F[5], E[5], v[6], E[6]}, {F[4], c, F[3], E[11], E[7], F[5], E[6], v[7]}};
        for (auto& q : h) add(out, Geometry::CUBE, std::vector<int>(q, q + 8), a);
        break;
      }
      default: mfem_fail("UniformRefinement: geometry not provided");
    }
  };
  for (auto& e : elements) split(ne, *e);
  for (auto& b : boundary) split(nb, *b);
  elements = std::move(ne);
  boundary = std::move(nb);
  GenerateTopology();
  Finalize(false, true);
}

std::function<void(Mesh&, int, int*)>& Mesh::partition_script() { static std::function<void(Mesh&, int, int*)> f; return f; }
std::function<void(const Mesh&, const int*)>& Mesh::partition_watch() { static std::function<void(const Mesh&, const int*)> f; return f; }
int* Mesh::GeneratePartitioning(int nparts, int) {
  // Contiguous blocks of elements; every part gets within one element of the same share.
  int* p = new int[std::max(1, GetNE())];
  for (int i = 0; i < GetNE(); i++) p[i] = nparts <= 1 ? 0 : int((long long)i * nparts / GetNE());
  if (partition_script()) partition_script()(*this, nparts, p);
  return p;
}
int* Mesh::CartesianPartitioning(int nxyz[]) {
  Vector mn, mx, c;
  GetBoundingBox(mn, mx);
  int* p = new int[std::max(1, GetNE())];
  for (int e = 0; e < GetNE(); e++) {
    GetElementCenter(e, c);
    int part = 0;
    for (int i = spaceDim - 1; i >= 0; i--) {
      int idx = (int)std::floor(nxyz[i] * ((c(i) - mn(i)) / (mx(i) - mn(i))));
      idx = std::max(0, std::min(nxyz[i] - 1, idx));
      part = part * nxyz[i] + idx;
    }
    p[e] = part;
  }
  return p;
}

// ----------------------------------------------------------------- generators
Mesh Mesh::MakeCartesian1D(int n, real_t sx) {
  Mesh m(1, 0, 0, 0, 1);
  for (int i = 0; i <= n; i++) m.AddVertex(double(i) / n * sx);
  for (int i = 0; i < n; i++) m.AddSegment(i, i + 1, 1);
  m.AddBdrPoint(0, 1);
  m.AddBdrPoint(n, 2);
  m.FinalizeTopology(false);
  m.SetAttributes();
  return m;
}
Mesh Mesh::MakeCartesian2D(int nx, int ny, Element::Type type, bool, real_t sx, real_t sy, bool) {
  Mesh m(2, 0, 0, 0, 2);
  int M = nx + 1;
  for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) m.AddVertex(double(i) / nx * sx, double(j) / ny * sy);
  for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
    int a = i + j * M, b = a + 1, c = b + M, d = a + M;
    if (type == Element::QUADRILATERAL) m.AddQuad(a, b, c, d);
    else { m.AddTriangle(a, c, d); m.AddTriangle(a, b, c); }
  }
  for (int i = 0; i < nx; i++) m.AddBdrSegment(i, i + 1, 1);
  for (int i = 0; i < nx; i++) m.AddBdrSegment(M * ny + i + 1, M * ny + i, 3);
  for (int j = 0; j < ny; j++) m.AddBdrSegment((j + 1) * M, j * M, 4);
  for (int j = 0; j < ny; j++) m.AddBdrSegment(j * M + nx, (j + 1) * M + nx, 2);
  if (type == Element::TRIANGLE) m.MarkTriMeshForRefinement();
  m.FinalizeTopology(false);
  m.CheckBdrElementOrientation(true);
  return m;
}
Mesh Mesh::MakeCartesian3D(int nx, int ny, int nz, Element::Type type, real_t sx, real_t sy, real_t sz, bool) {
  Mesh m(3, 0, 0, 0, 3);
  auto V = [&](int i, int j, int k) { return i + (nx + 1) * (j + (ny + 1) * k); };
  for (int k = 0; k <= nz; k++) for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) m.AddVertex(double(i) / nx * sx, double(j) / ny * sy, double(k) / nz * sz);
  static const int H2T[6][4] = {{0, 1, 2, 6}, {0, 5, 1, 6}, {0, 4, 5, 6}, {0, 2, 3, 6}, {0, 3, 7, 6}, {0, 7, 4, 6}};
  bool hex = type == Element::HEXAHEDRON;
  for (int k = 0; k < nz; k++) for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
    int v[8] = {V(i, j, k), V(i + 1, j, k), V(i + 1, j + 1, k), V(i, j + 1, k), V(i, j, k + 1), V(i + 1, j, k + 1), V(i + 1, j + 1, k + 1), V(i, j + 1, k + 1)};
    if (hex) m.AddHex(v); else for (auto& t : H2T) m.AddTet(v[t[0]], v[t[1]], v[t[2]], v[t[3]]);
  }
  auto bq = [&](int a, int b, int c, int d, int at) { if (hex) m.AddBdrQuad(a, b, c, d, at); else { m.AddBdrTriangle(a, b, c, at); m.AddBdrTriangle(a, c, d, at); } };
  for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) bq(V(i, j, 0), V(i, j + 1, 0), V(i + 1, j + 1, 0), V(i + 1, j, 0), 1);
  for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) bq(V(i, j, nz), V(i + 1, j, nz), V(i + 1, j + 1, nz), V(i, j + 1, nz), 6);
  for (int k = 0; k < nz; k++) for (int j = 0; j < ny; j++) bq(V(0, j, k), V(0, j, k + 1), V(0, j + 1, k + 1), V(0, j + 1, k), 5);
  for (int k = 0; k < nz; k++) for (int j = 0; j < ny; j++) bq(V(nx, j, k), V(nx, j + 1, k), V(nx, j + 1, k + 1), V(nx, j, k + 1), 3);
  for (int k = 0; k < nz; k++) for (int i = 0; i < nx; i++) bq(V(i, 0, k), V(i + 1, 0, k), V(i + 1, 0, k + 1), V(i, 0, k + 1), 2);
  for (int k = 0; k < nz; k++) for (int i = 0; i < nx; i++) bq(V(i, ny, k), V(i, ny, k + 1), V(i + 1, ny, k + 1), V(i + 1, ny, k), 4);
  m.FinalizeTopology(false);
  m.CheckBdrElementOrientation(true);
  return m;
}

// ---------------------------------------------------------------------- input
void Mesh::RemoveUnusedVertices() {
  std::vector<int> map(GetNV(), -1);
  for (auto* l : {&elements, &boundary}) for (auto& e : *l) for (int k = 0; k < e->GetNVertices(); k++) map[e->GetVertices()[k]] = 0;
  std::vector<Vertex> nv;
  for (int i = 0; i < GetNV(); i++) if (map[i] == 0) { map[i] = (int)nv.size(); nv.push_back(vertices[i]); }
  for (auto* l : {&elements, &boundary}) for (auto& e : *l) for (int k = 0; k < e->GetNVertices(); k++) e->GetVertices()[k] = map[e->GetVertices()[k]];
  vertices = nv;
}

namespace {
struct GmshType { Geometry::Type g; int order, n; };
bool gmsh_type(int t, GmshType& r) {
  switch (t) {
    case 15: r = {Geometry::POINT, 1, 1}; return true;
    case 1: r = {Geometry::SEGMENT, 1, 2}; return true;
    case 8: r = {Geometry::SEGMENT, 2, 3}; return true;
    case 26: r = {Geometry::SEGMENT, 3, 4}; return true;
    case 27: r = {Geometry::SEGMENT, 4, 5}; return true;
    case 2: r = {Geometry::TRIANGLE, 1, 3}; return true;
    case 9: r = {Geometry::TRIANGLE, 2, 6}; return true;
    case 21: r = {Geometry::TRIANGLE, 3, 10}; return true;
    case 23: r = {Geometry::TRIANGLE, 4, 15}; return true;
    case 3: r = {Geometry::SQUARE, 1, 4}; return true;
    case 10: r = {Geometry::SQUARE, 2, 9}; return true;
    case 36: r = {Geometry::SQUARE, 3, 16}; return true;
    case 4: r = {Geometry::TETRAHEDRON, 1, 4}; return true;
    case 11: r = {Geometry::TETRAHEDRON, 2, 10}; return true;
    case 29: r = {Geometry::TETRAHEDRON, 3, 20}; return true;
    case 5: r = {Geometry::CUBE, 1, 8}; return true;
  }
  return false;
}
typedef std::array<double, 3> P3;
P3 mix(const P3& a, const P3& b, double t) { return {a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]), a[2] + t * (b[2] - a[2])}; }
// Reference positions of Gmsh's nodes, in Gmsh's order.
void gmsh_simplex(std::vector<P3> v, int p, std::vector<P3>& out) {
  int n = (int)v.size();
  if (p < 0) return;
  if (p == 0) { P3 c = {0, 0, 0}; for (auto& q : v) for (int i = 0; i < 3; i++) c[i] += q[i] / n; out.push_back(c); return; }
  for (auto& q : v) out.push_back(q);
  auto edge = [&](int a, int b) { for (int i = 1; i < p; i++) out.push_back(mix(v[a], v[b], double(i) / p)); };
  auto inner = [&](std::vector<P3> w, int q) {  // interior lattice of the simplex w of order q
    int m = (int)w.size();
    if (q - m < 0) return;
    // shrink to the interior simplex
    std::vector<P3> s(m);
    for (int a = 0; a < m; a++) {
      P3 r = {0, 0, 0};
      for (int b = 0; b < m; b++) { double l = (a == b) ? double(q - (m - 1)) / q : 1.0 / q; for (int i = 0; i < 3; i++) r[i] += l * w[b][i]; }
      s[a] = r;
    }
    gmsh_simplex(s, q - m, out);
  };
  if (n == 2) { edge(0, 1); return; }
  if (n == 3) { edge(0, 1); edge(1, 2); edge(2, 0); inner({v[0], v[1], v[2]}, p); return; }
  edge(0, 1); edge(1, 2); edge(2, 0); edge(3, 0); edge(3, 2); edge(3, 1);
  inner({v[0], v[2], v[1]}, p); inner({v[0], v[1], v[3]}, p); inner({v[0], v[3], v[2]}, p); inner({v[3], v[1], v[2]}, p);
  inner(v, p);
}
void gmsh_quad(double lo, double hi, int p, std::vector<P3>& out) {
  if (p < 0) return;
  if (p == 0) { out.push_back({(lo + hi) / 2, (lo + hi) / 2, 0}); return; }
  P3 v[4] = {{lo, lo, 0}, {hi, lo, 0}, {hi, hi, 0}, {lo, hi, 0}};
  for (auto& q : v) out.push_back(q);
  for (int e = 0; e < 4; e++) for (int i = 1; i < p; i++) out.push_back(mix(v[e], v[(e + 1) % 4], double(i) / p));
  double h = (hi - lo) / p;
  gmsh_quad(lo + h, hi - h, p - 2, out);
}
}  // namespace

void Mesh::ReadGmsh(std::istream& in, int& curved_order) {
  std::string line;
  std::map<int, int> idx;
  std::vector<P3> nodes;
  struct El { GmshType t; int attr; std::vector<int> n; };
  std::vector<El> els;
  double version = 0; int binary = 0, dsize = 0;
  in >> version >> binary >> dsize;
  if (version < 2.2 || version >= 3) mfem_fail("Gmsh file version must be 2.2");
  if (binary) mfem_fail("binary Gmsh files are not provided");
  while (in >> line) {
    if (line == "$Nodes") {
      int n;
      if (!(in >> n)) mfem_fail("Gmsh file: bad node count");
      for (int i = 0; i < n; i++) { int id; P3 p; if (!(in >> id >> p[0] >> p[1] >> p[2])) mfem_fail("Gmsh file: bad node"); idx[id] = (int)nodes.size(); nodes.push_back(p); }
      if ((int)idx.size() != n) mfem_fail("Gmsh file : vertices indices are not unique");
    } else if (line == "$Elements") {
      int n;
      if (!(in >> n)) mfem_fail("Gmsh file: bad element count");
      int zero_attr = 0;
      for (int i = 0; i < n; i++) {
        int id, type, nt;
        if (!(in >> id >> type >> nt)) mfem_fail("Gmsh file: bad element");
        El e;
        std::vector<int> tags(nt);
        for (auto& t : tags) in >> t;
        if (!gmsh_type(type, e.t)) mfem_fail("Gmsh file: unsupported element type " + std::to_string(type));
        e.attr = nt > 0 ? tags[0] : 1;
        if (e.attr < 0) mfem_fail("Non-positive element attribute in Gmsh mesh!");
        if (e.attr == 0) { zero_attr++; e.attr = 1; }
        for (int k = 0; k < e.t.n; k++) {
          int v;
          if (!(in >> v)) mfem_fail("Gmsh file: bad element");
          auto it = idx.find(v);
          if (it == idx.end()) mfem_fail("Gmsh file : vertex index doesn't exist");
          e.n.push_back(it->second);
        }
        els.push_back(e);
      }
      if (zero_attr && zero_attr != n) mfem_fail("Non-positive element attribute in Gmsh mesh!");
    }
  }
  if (nodes.empty() || els.empty()) mfem_fail("Gmsh file: no nodes or no elements");
  Dim = 0;
  curved_order = 1;
  for (auto& e : els) Dim = std::max(Dim, Geometry::Dimension[e.t.g]);
  if (Dim == 0) mfem_fail("Gmsh file : no elements found");
  P3 mn = nodes[0], mx = nodes[0];
  for (auto& p : nodes) for (int i = 0; i < 3; i++) { mn[i] = std::min(mn[i], p[i]); mx[i] = std::max(mx[i], p[i]); }
  spaceDim = Dim;
  for (int i = 0; i < 3; i++) if (mx[i] > mn[i]) spaceDim = std::max(spaceDim, i + 1);
  for (auto& p : nodes) vertices.emplace_back(p[0], p[1], p[2]);
  std::vector<DenseMatrix> pe;
  for (auto& e : els) {
    int d = Geometry::Dimension[e.t.g];
    if (d == Dim) { AddElement(e.t.g, e.n.data(), e.attr); curved_order = std::max(curved_order, e.t.order); }
    else if (d == Dim - 1) AddBdr(e.t.g, e.n.data(), e.attr);
  }
  if (curved_order > 1) {
    for (auto& e : els) if (Geometry::Dimension[e.t.g] == Dim) {
      std::vector<P3> ref;
      const auto* rv = Geometries.GetVertices(e.t.g);
      if (e.t.g == Geometry::SQUARE) gmsh_quad(0, 1, e.t.order, ref);
      else if (e.t.g == Geometry::CUBE) mfem_fail("curved hexahedra in Gmsh files are not provided");
      else { std::vector<P3> v; for (int i = 0; i < rv->Size(); i++) v.push_back({(*rv)[i].x, (*rv)[i].y, (*rv)[i].z}); gmsh_simplex(v, e.t.order, ref); }
      int space = e.t.g == Geometry::SQUARE ? FunctionSpace::Qk : FunctionSpace::Pk;
      LagrangeElement le(e.t.g, e.t.order, space, ref);
      const auto& nd = NodalElement(e.t.g, curved_order, BasisType::GaussLobatto)->GetNodes();
      DenseMatrix pm(spaceDim, nd.Size());
      Vector sh;
      for (int j = 0; j < nd.Size(); j++) {
        le.CalcShape(nd.IntPoint(j), sh);
        for (int k = 0; k < spaceDim; k++) { double s = 0; for (int q = 0; q < sh.Size(); q++) s += sh(q) * nodes[e.n[q]][k]; pm(k, j) = s; }
      }
      pe.push_back(pm);
    }
  }
  RemoveUnusedVertices();
  FinalizeTopology();
  if (curved_order > 1) SetNodesL2(curved_order, pe, BasisType::GaussLobatto);
}

void Mesh::ReadMFEM(std::istream& in) {
  std::string s;
  auto next = [&]() { while (in >> s) { if (s[0] == '#') { std::string r; std::getline(in, r); continue; } return true; } return false; };
  auto want = [&](const char* w) { if (!next() || s != w) mfem_fail(std::string("mesh file: expected ") + w); };
  want("dimension");
  in >> Dim;
  auto list = [&](std::vector<std::unique_ptr<Element>>& l) {
    int n;
    in >> n;
    for (int i = 0; i < n; i++) {
      int a, g;
      in >> a >> g;
      if (!in || g < 0 || g > Geometry::CUBE) mfem_fail("mesh file: bad element");
      std::vector<int> v(Geometry::NumVerts[g]);
      for (auto& x : v) in >> x;
      l.push_back(std::make_unique<Element>((Geometry::Type)g, v.data(), a));
    }
  };
  want("elements"); list(elements);
  want("boundary"); list(boundary);
  want("vertices");
  int nv;
  in >> nv;
  if (!in) mfem_fail("mesh file: bad vertices");
  next();
  if (s != "nodes") {
    spaceDim = atoi(s.c_str());
    for (int i = 0; i < nv; i++) { Vertex v; for (int d = 0; d < spaceDim; d++) in >> v(d); vertices.push_back(v); }
    if (!in) mfem_fail("mesh file: bad vertices");
    FinalizeTopology();
    return;
  }
  vertices.resize(nv);
  spaceDim = Dim;
  GenerateTopology();
  std::string w, coll;
  int vd, ord;
  in >> w >> w >> coll >> w >> vd >> w >> ord;
  if (!in) mfem_fail("mesh file: bad nodes");
  spaceDim = vd;
  nfec.reset(FiniteElementCollection::New(coll.c_str()));
  nfes = std::make_unique<FiniteElementSpace>(this, nfec.get(), spaceDim, ord);
  Nodes = std::make_unique<GridFunction>(nfes.get());
  for (int i = 0; i < Nodes->Size(); i++) in >> (*Nodes)(i);
  if (!in) mfem_fail("mesh file: bad nodes");
  for (int e = 0; e < GetNE(); e++) {
    IsoparametricTransformation T;
    GetElementTransformation(e, &T);
    const auto* rv = Geometries.GetVertices(GetElementGeometry(e));
    Vector x;
    for (int k = 0; k < rv->Size(); k++) { T.Transform((*rv)[k], x); for (int d = 0; d < spaceDim; d++) vertices[elements[e]->GetVertices()[k]](d) = x(d); }
  }
  FinalizeTopology();
}

Mesh Mesh::Load_(const std::string& file, int refine, bool fix, bool fix_bdr) {
  std::ifstream in(file);
  if (!in) mfem_fail("Mesh file not found: " + file);
  Mesh m;
  std::string first;
  std::getline(in, first);
  filter_dos(first);
  if (first == "$MeshFormat") { int o; m.ReadGmsh(in, o); }
  else if (first.rfind("MFEM mesh v1.", 0) == 0) m.ReadMFEM(in);
  else mfem_fail("Unknown input mesh format: " + first);
  bool changed = m.CheckElementOrientation(fix) > 0 && fix;
  if (refine && m.Dim == 2 && !m.Nodes) { m.MarkTriMeshForRefinement(); changed = true; }
  if (changed) m.GenerateTopology();
  if (fix_bdr) m.CheckBdrElementOrientation(true);
  m.SetAttributes();
  return m;
}
Mesh Mesh::LoadFromFile(const std::string& f, int, int refine, bool fix) { return Load_(f, refine, fix, true); }
Mesh Mesh::LoadFromFileNoBdrFix(const std::string& f, int, int refine, bool fix) { return Load_(f, refine, fix, false); }
void Mesh::Load(std::istream& in, int, int, bool fix) {
  std::string first;
  std::getline(in, first);
  *this = Mesh();
  ReadMFEM(in);
  if (CheckElementOrientation(fix) > 0 && fix) GenerateTopology();
  CheckBdrElementOrientation(true);
}

// --------------------------------------------------------------------- output
void Mesh::Print(std::ostream& os, const std::string&) const {
  os << "MFEM mesh v1.0\n\ndimension\n" << Dim << "\n\nelements\n" << GetNE() << '\n';
  auto put = [&](const Element& e) { os << e.GetAttribute() << ' ' << (int)e.GetGeometryType(); for (int k = 0; k < e.GetNVertices(); k++) os << ' ' << e.GetVertices()[k]; os << '\n'; };
  for (auto& e : elements) put(*e);
  os << "\nboundary\n" << GetNBE() << '\n';
  for (auto& e : boundary) put(*e);
  os << "\nvertices\n" << GetNV() << '\n';
  if (!Nodes) {
    os << spaceDim << '\n';
    for (auto& v : vertices) { for (int d = 0; d < spaceDim; d++) os << (d ? " " : "") << v(d); os << '\n'; }
  } else {
    os << "\nnodes\n";
    Nodes->Save(os);
  }
}
void Mesh::Save(const std::string& f, int precision) const {
  std::ofstream os(f);
  os.precision(precision);
  Print(os);
}

}  // namespace mfem
