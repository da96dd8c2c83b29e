// Spaces, grid functions, integrators, forms, sub-meshes and output.
#include "mfem.hpp"
#include <filesystem>

namespace mfem {

// -------------------------------------------------------------------- spaces
void FiniteElementSpace::Build() {
  if (!mesh || !fec) return;
  off.assign(1, 0);
  e2d = Table(mesh->GetNE());
  for (int e = 0; e < mesh->GetNE(); e++) {
    int n = fec->FiniteElementForGeometry(mesh->GetElementGeometry(e))->GetDof();
    for (int k = 0; k < n; k++) e2d.Push(e, off.back() + k);
    off.push_back(off.back() + n);
  }
}
void FiniteElementSpace::DofsToVDofs(Array<int>& d) const {
  if (vdim == 1) return;
  int n = d.Size();
  Array<int> v(n * vdim);
  for (int k = 0; k < vdim; k++) for (int i = 0; i < n; i++) v[k * n + i] = DofToVDof(d[i], k);
  d.SetSize(v.Size());
  for (int i = 0; i < v.Size(); i++) d[i] = v[i];
}
void FiniteElementSpace::Save(std::ostream& os) const {
  os << "FiniteElementSpace\nFiniteElementCollection: " << fec->Name() << "\nVDim: " << vdim << "\nOrdering: " << ordering << "\n";
}
FiniteElementCollection* FiniteElementSpace::Load(Mesh* m, std::istream& in) {
  std::string w, coll;
  int vd = 0, ord = 0;
  in >> w;
  if (w != "FiniteElementSpace") mfem_fail("input stream is not a FiniteElementSpace");
  in >> w >> coll >> w >> vd >> w >> ord;
  if (!in) mfem_fail("bad FiniteElementSpace in input stream");
  auto* f = FiniteElementCollection::New(coll.c_str());
  mesh = m; fec = f; vdim = vd; ordering = ord;
  Build();
  return f;
}

// ------------------------------------------------------------ grid functions
GridFunction::GridFunction(Mesh* m, std::istream& in) {
  own_fes = std::make_shared<FiniteElementSpace>();
  own_fec.reset(own_fes->Load(m, in));
  fes = own_fes.get();
  SetSize(fes->GetVSize());
  for (int i = 0; i < Size(); i++) in >> (*this)(i);
}
real_t GridFunction::GetValue(int i, const IntegrationPoint& ip, int vd) const {
  const FiniteElement* fe = fes->GetFE(i);
  Array<int> d;
  fes->GetElementDofs(i, d);
  Vector sh;
  fe->CalcShape(ip, sh);
  double s = 0;
  for (int k = 0; k < d.Size(); k++) s += sh(k) * (*this)(fes->DofToVDof(d[k], vd - 1));
  return s;
}
void GridFunction::GetVectorValue(int i, const IntegrationPoint& ip, Vector& v) const {
  v.SetSize(fes->GetVDim());
  for (int k = 0; k < v.Size(); k++) v(k) = GetValue(i, ip, k + 1);
}
void GridFunction::ProjectCoefficient(Coefficient& c) {
  Array<int> d;
  for (int e = 0; e < fes->GetNE(); e++) {
    IsoparametricTransformation T;
    fes->GetMesh()->GetElementTransformation(e, &T);
    const auto& nd = fes->GetFE(e)->GetNodes();
    fes->GetElementDofs(e, d);
    for (int k = 0; k < d.Size(); k++) {
      T.SetIntPoint(&nd.IntPoint(k));
      (*this)(d[k]) = c.Eval(T, nd.IntPoint(k));
    }
  }
}
void GridFunction::ProjectCoefficient(VectorCoefficient& c) {
  Array<int> d;
  Vector v;
  for (int e = 0; e < fes->GetNE(); e++) {
    IsoparametricTransformation T;
    fes->GetMesh()->GetElementTransformation(e, &T);
    const auto& nd = fes->GetFE(e)->GetNodes();
    fes->GetElementDofs(e, d);
    for (int k = 0; k < d.Size(); k++) {
      T.SetIntPoint(&nd.IntPoint(k));
      c.Eval(v, T, nd.IntPoint(k));
      for (int j = 0; j < fes->GetVDim(); j++) (*this)(fes->DofToVDof(d[k], j)) = v(j);
    }
  }
}
real_t GridFunction::ComputeL2Error(Coefficient& c, const IntegrationRule**) const {
  double s = 0;
  for (int e = 0; e < fes->GetNE(); e++) {
    const FiniteElement* fe = fes->GetFE(e);
    const auto& ir = IntRules.Get(fe->GetGeomType(), 2 * fe->GetOrder() + 3);
    IsoparametricTransformation T;
    fes->GetMesh()->GetElementTransformation(e, &T);
    for (int q = 0; q < ir.GetNPoints(); q++) {
      T.SetIntPoint(&ir.IntPoint(q));
      double err = GetValue(e, ir.IntPoint(q)) - c.Eval(T, ir.IntPoint(q));
      s += ir.IntPoint(q).weight * T.Weight() * err * err;
    }
  }
  return std::sqrt(std::abs(s));
}
void GridFunction::Save(std::ostream& os) const {
  fes->Save(os);
  os << '\n';
  for (int i = 0; i < Size(); i++) os << (*this)(i) << '\n';
  os.flush();
}
real_t GridFunctionCoefficient::Eval(ElementTransformation& T, const IntegrationPoint& ip) { return g_->GetValue(T.ElementNo, ip, c_); }

// --------------------------------------------------------------- integrators
void MassIntegrator::AssembleElementMatrix(const FiniteElement& el, ElementTransformation& T, DenseMatrix& m) {
  int n = el.GetDof();
  m.SetSize(n);
  m = 0.0;
  const IntegrationRule* ir = IntRule ? IntRule : &IntRules.Get(el.GetGeomType(), 2 * el.GetOrder() + T.OrderW());
  Vector s;
  for (int q = 0; q < ir->GetNPoints(); q++) {
    const auto& ip = ir->IntPoint(q);
    T.SetIntPoint(&ip);
    el.CalcShape(ip, s);
    double w = T.Weight() * ip.weight;
    if (Q) w *= Q->Eval(T, ip);
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) m(i, j) += w * s(i) * s(j);
  }
}
void DerivativeIntegrator::AssembleElementMatrix2(const FiniteElement& tr, const FiniteElement& te, ElementTransformation& T, DenseMatrix& m) {
  int dim = tr.GetDim(), sd = T.GetSpaceDim();
  m.SetSize(te.GetDof(), tr.GetDof());
  m = 0.0;
  const IntegrationRule* ir = IntRule;
  if (!ir) ir = &IntRules.Get(tr.GetGeomType(), tr.Space() == FunctionSpace::Pk ? tr.GetOrder() + te.GetOrder() - 1 : tr.GetOrder() + te.GetOrder() + dim);
  DenseMatrix ds, inv(dim, sd), gs;
  Vector s;
  for (int q = 0; q < ir->GetNPoints(); q++) {
    const auto& ip = ir->IntPoint(q);
    tr.CalcDShape(ip, ds);
    T.SetIntPoint(&ip);
    CalcInverse(T.Jacobian(), inv);
    double w = T.Weight() * ip.weight * Q->Eval(T, ip);
    gs.SetSize(ds.Height(), inv.Width());
    mfem::Mult(ds, inv, gs);
    te.CalcShape(ip, s);
    for (int j = 0; j < tr.GetDof(); j++) for (int i = 0; i < te.GetDof(); i++) m(i, j) += w * s(i) * gs(j, xi);
  }
}
void ConvectionIntegrator::AssembleElementMatrix(const FiniteElement& el, ElementTransformation& T, DenseMatrix& m) {
  int n = el.GetDof();
  m.SetSize(n);
  m = 0.0;
  const IntegrationRule* ir = IntRule ? IntRule : &IntRules.Get(el.GetGeomType(), T.OrderGrad(&el) + T.Order() + el.GetOrder());
  Vector s, v;
  DenseMatrix g;
  for (int q = 0; q < ir->GetNPoints(); q++) {
    const auto& ip = ir->IntPoint(q);
    T.SetIntPoint(&ip);
    el.CalcShape(ip, s);
    el.CalcPhysDShape(T, g);
    Q->Eval(v, T, ip);
    double w = alpha * T.Weight() * ip.weight;
    for (int j = 0; j < n; j++) { double d = 0; for (int k = 0; k < g.Width(); k++) d += g(j, k) * v(k); for (int i = 0; i < n; i++) m(i, j) += w * s(i) * d; }
  }
}
void DGTraceIntegrator::AssembleFaceMatrix(const FiniteElement& e1, const FiniteElement& e2, FaceElementTransformations& T, DenseMatrix& m) {
  int dim = e1.GetDim(), n1 = e1.GetDof(), n2 = T.Elem2No >= 0 ? e2.GetDof() : 0;
  m.SetSize(n1 + n2);
  m = 0.0;
  const IntegrationRule* ir = IntRule;
  if (!ir) {
    int order = T.Elem2No >= 0 ? std::min(T.Elem1->OrderW(), T.Elem2->OrderW()) + 2 * std::max(e1.GetOrder(), e2.GetOrder()) : T.Elem1->OrderW() + 2 * e1.GetOrder();
    if (e1.Space() == FunctionSpace::Pk) order++;
    ir = &IntRules.Get(T.GetGeometryType(), order);
  }
  Vector s1, s2, v, nor(dim);
  for (int q = 0; q < ir->GetNPoints(); q++) {
    const auto& ip = ir->IntPoint(q);
    T.SetAllIntPoints(&ip);
    const auto& p1 = T.GetElement1IntPoint();
    e1.CalcShape(p1, s1);
    u->Eval(v, *T.Elem1, p1);
    if (dim == 1) nor(0) = 2 * p1.x - 1.0; else CalcOrtho(T.Jacobian(), nor);
    double un = v * nor, a = 0.5 * alpha * un, b = beta * std::abs(un);
    double w = ip.weight * (a + b);
    for (int i = 0; i < n1; i++) for (int j = 0; j < n1; j++) m(i, j) += w * s1(i) * s1(j);
    if (n2) {
      e2.CalcShape(T.GetElement2IntPoint(), s2);
      for (int i = 0; i < n2; i++) for (int j = 0; j < n1; j++) m(n1 + i, j) -= w * s2(i) * s1(j);
      w = ip.weight * (b - a);
      for (int i = 0; i < n2; i++) for (int j = 0; j < n2; j++) m(n1 + i, n1 + j) += w * s2(i) * s2(j);
      for (int i = 0; i < n1; i++) for (int j = 0; j < n2; j++) m(i, n1 + j) -= w * s1(i) * s2(j);
    }
  }
}
void DomainLFIntegrator::AssembleRHSElementVect(const FiniteElement& el, ElementTransformation& T, Vector& v) {
  v.SetSize(el.GetDof());
  v = 0.0;
  const IntegrationRule* ir = IntRule ? IntRule : &IntRules.Get(el.GetGeomType(), 2 * el.GetOrder());
  Vector s;
  for (int q = 0; q < ir->GetNPoints(); q++) {
    const auto& ip = ir->IntPoint(q);
    T.SetIntPoint(&ip);
    el.CalcShape(ip, s);
    v.Add(ip.weight * T.Weight() * Q.Eval(T, ip), s);
  }
}

// --------------------------------------------------------------------- forms
BilinearForm::~BilinearForm() {
  delete mat;
  for (auto* l : {&domain_integs, &boundary_integs, &interior_face_integs, &boundary_face_integs, &internal_bdr_integs}) for (auto& i : *l) delete i.b;
}
std::map<int, int> BilinearForm::FaceAttributes() const {
  std::map<int, int> r;
  Mesh* m = fes->GetMesh();
  for (int b = 0; b < m->GetNBE(); b++) r[m->GetBdrElementFaceIndex(b)] = m->GetBdrAttribute(b);
  return r;
}
static bool marked(const Array<int>* m, int attr) {
  if (!m) return true;
  if (attr < 1) mfem_fail("attribute below one");
  return attr <= m->Size() && (*m)[attr - 1] != 0;
}
void BilinearForm::Assemble(int skip) {
  Mesh* mesh = fes->GetMesh();
  if (!mat) mat = new SparseMatrix(height);
  if (!domain_integs.empty()) {
    DenseMatrix em;
    for (int e = 0; e < fes->GetNE(); e++) {
      fes->GetElementVDofs(e, vdofs);
      bool any = false;
      for (auto& i : domain_integs) {
        if (!marked(i.marker, mesh->GetAttribute(e))) continue;
        i.b->AssembleElementMatrix(*fes->GetFE(e), *fes->GetElementTransformation(e), em);
        if (!any) elemmat = em; else elemmat += em;
        any = true;
      }
      if (any) mat->AddSubMatrix(vdofs, vdofs, elemmat, skip);
    }
  }
  if (!boundary_integs.empty()) mfem_fail("boundary integrators of discontinuous spaces are not provided");
  if (!interior_face_integs.empty()) {
    auto fa = FaceAttributes();
    Array<int> v2;
    for (int f = 0; f < mesh->GetNumFaces(); f++) {
      auto* tr = mesh->GetInteriorFaceTransformations(f);
      if (!tr) continue;
      fes->GetElementVDofs(tr->Elem1No, vdofs);
      fes->GetElementVDofs(tr->Elem2No, v2);
      vdofs.Append(v2);
      for (auto& i : interior_face_integs) {
        if (i.marker && IgnoredFace(*i.marker, fa, f)) continue;
        i.b->AssembleFaceMatrix(*fes->GetFE(tr->Elem1No), *fes->GetFE(tr->Elem2No), *tr, elemmat);
        mat->AddSubMatrix(vdofs, vdofs, elemmat, skip);
      }
    }
  }
  if (!boundary_face_integs.empty()) {
    for (int b = 0; b < fes->GetNBE(); b++) {
      int attr = mesh->GetBdrAttribute(b);
      bool any = false;
      for (auto& i : boundary_face_integs) any = any || marked(i.marker, attr);
      if (!any) continue;
      auto* tr = mesh->GetBdrFaceTransformations(b);
      if (!tr) continue;
      fes->GetElementVDofs(tr->Elem1No, vdofs);
      const FiniteElement* fe1 = fes->GetFE(tr->Elem1No);
      for (auto& i : boundary_face_integs) {
        if (!marked(i.marker, attr)) continue;
        i.b->AssembleFaceMatrix(*fe1, *fe1, *tr, elemmat);
        mat->AddSubMatrix(vdofs, vdofs, elemmat, skip);
      }
    }
  }
  if (!internal_bdr_integs.empty()) {
    Array<int> v2;
    for (int b = 0; b < fes->GetNBE(); b++) {
      int attr = mesh->GetBdrAttribute(b);
      bool any = false;
      for (auto& i : internal_bdr_integs) any = any || marked(i.marker, attr);
      if (!any) continue;
      auto* tr = mesh->GetInternalBdrFaceTransformations(b);
      if (!tr) continue;
      fes->GetElementVDofs(tr->Elem1No, vdofs);
      fes->GetElementVDofs(tr->Elem2No, v2);
      vdofs.Append(v2);
      for (auto& i : internal_bdr_integs) {
        if (!marked(i.marker, attr)) continue;
        i.b->AssembleFaceMatrix(*fes->GetFE(tr->Elem1No), *fes->GetFE(tr->Elem2No), *tr, elemmat);
        mat->AddSubMatrix(vdofs, vdofs, elemmat, skip);
      }
    }
  }
}

LinearForm::~LinearForm() { for (auto* l : {&dom, &bdr, &bdrf, &intf, &ibf}) for (auto& i : *l) delete i.l; }
void LinearForm::Assemble() {
  Vector::operator=(0.0);
  Mesh* mesh = fes->GetMesh();
  Array<int> d, d2;
  Vector ev;
  for (auto& i : dom) for (int e = 0; e < fes->GetNE(); e++) {
    fes->GetElementVDofs(e, d);
    i.l->AssembleRHSElementVect(*fes->GetFE(e), *fes->GetElementTransformation(e), ev);
    AddElementVector(d, ev);
  }
  if (!bdr.empty() || !intf.empty()) mfem_fail("LinearForm: this kind of integrator is not provided");
  for (auto& i : bdrf) for (int b = 0; b < fes->GetNBE(); b++) {
    if (!marked(i.marker, mesh->GetBdrAttribute(b))) continue;
    auto* tr = mesh->GetBdrFaceTransformations(b);
    if (!tr) continue;
    fes->GetElementVDofs(tr->Elem1No, d);
    i.l->AssembleRHSElementVect(*fes->GetFE(tr->Elem1No), *tr, ev);
    AddElementVector(d, ev);
  }
  for (auto& i : ibf) for (int b = 0; b < fes->GetNBE(); b++) {
    if (!marked(i.marker, mesh->GetBdrAttribute(b))) continue;
    auto* tr = mesh->GetInternalBdrFaceTransformations(b);
    if (!tr) continue;
    fes->GetElementVDofs(tr->Elem1No, d);
    fes->GetElementVDofs(tr->Elem2No, d2);
    d.Append(d2);
    i.l->AssembleRHSElementVect(*fes->GetFE(tr->Elem1No), *fes->GetFE(tr->Elem2No), *tr, ev);
    AddElementVector(d, ev);
  }
}

// ---------------------------------------------------------------- sub-meshes
void SubMeshUtils::BuildSubMesh(const Mesh& parent, const Array<int>& attrs, Mesh& out, Array<int>& elems, Array<int>& verts) {
  std::map<int, int> vmap;
  std::vector<int> el, ve;
  for (int e = 0; e < parent.GetNE(); e++) {
    bool in = false;
    for (int i = 0; i < attrs.Size(); i++) in = in || attrs[i] == parent.GetAttribute(e);
    if (!in) continue;
    Array<int> v;
    parent.GetElementVertices(e, v);
    for (int i = 0; i < v.Size(); i++) {
      auto it = vmap.emplace(v[i], (int)ve.size());
      if (it.second) { ve.push_back(v[i]); const double* c = parent.GetVertex(v[i]); out.AddVertex(c[0], c[1], c[2]); }
      v[i] = it.first->second;
    }
    out.AddElement(parent.GetElementGeometry(e), v.GetData(), parent.GetAttribute(e));
    el.push_back(e);
  }
  elems.SetSize((int)el.size());
  for (size_t i = 0; i < el.size(); i++) elems[(int)i] = el[i];
  verts.SetSize((int)ve.size());
  for (size_t i = 0; i < ve.size(); i++) verts[(int)i] = ve[i];
}
Array<int> SubMeshUtils::BuildFaceMap(const Mesh& parent, const Mesh& sub, const Array<int>& ids) {
  Array<int> m(sub.GetNumFaces());
  m = -1;
  for (int e = 0; e < sub.GetNE(); e++) {
    const auto& a = sub.ElementToFaceTable().Rows()[e];
    const auto& b = parent.ElementToFaceTable().Rows()[ids[e]];
    for (size_t k = 0; k < a.size(); k++) m[a[k]] = b[k];
  }
  return m;
}
static void finish_sub(const Mesh& parent, Mesh& sub, const Array<int>& ids) {
  sub.FinalizeTopology(false);
  Array<int> fm = SubMeshUtils::BuildFaceMap(parent, sub, ids), f2b = parent.GetFaceToBdrElMap();
  int generated = (parent.bdr_attributes.Size() > 0 ? parent.bdr_attributes.Max() : 0) + 1;
  for (int f = 0; f < sub.GetNumFaces(); f++) {
    if (sub.FInfo(f).Elem1No < 0 || sub.FInfo(f).Elem2No >= 0) continue;
    int b = f2b[fm[f]];
    const Element* e = sub.GetFace(f);
    sub.AddBdr(e->GetGeometryType(), e->GetVertices(), b >= 0 ? parent.GetBdrAttribute(b) : generated);
  }
  sub.FinalizeTopology(false);
}
static std::vector<DenseMatrix> parent_nodes(const Mesh& parent, const Array<int>& ids, int order) {
  std::vector<DenseMatrix> pe(ids.Size());
  for (int e = 0; e < ids.Size(); e++) {
    IsoparametricTransformation T;
    parent.GetElementTransformation(ids[e], &T);
    T.Transform(NodalElement(parent.GetElementGeometry(ids[e]), order, BasisType::GaussLobatto)->GetNodes(), pe[e]);
  }
  return pe;
}
SubMesh SubMesh::CreateFromDomain(const Mesh& parent, const Array<int>& attrs) {
  SubMesh s;
  s.Dim = parent.Dimension();
  s.spaceDim = parent.SpaceDimension();
  s.parent_ = &parent;
  SubMeshUtils::BuildSubMesh(parent, attrs, s, s.parent_element_ids, s.parent_vertex_ids);
  finish_sub(parent, s, s.parent_element_ids);
  s.parent_face_ids = SubMeshUtils::BuildFaceMap(parent, s, s.parent_element_ids);
  if (parent.GetNodes()) { int o = parent.GetNodalFESpace()->FEColl()->GetOrder(); s.SetNodesL2(o, parent_nodes(parent, s.parent_element_ids, o), BasisType::GaussLobatto); }
  return s;
}
ParSubMesh ParSubMesh::CreateFromDomain(const ParMesh& parent, const Array<int>& attrs) {
  ParSubMesh s;
  s.Dim = parent.Dimension();
  s.spaceDim = parent.SpaceDimension();
  s.parent_ = &parent;
  s.comm_ = parent.GetComm();
  s.nranks_ = parent.GetNRanks();
  s.rank_ = parent.GetMyRank();
  SubMeshUtils::BuildSubMesh(parent, attrs, s, s.parent_element_ids, s.parent_vertex_ids);
  finish_sub(parent, s, s.parent_element_ids);
  if (parent.GetNodes()) { int o = parent.GetNodalFESpace()->FEColl()->GetOrder(); s.SetNodesL2(o, parent_nodes(parent, s.parent_element_ids, o), BasisType::GaussLobatto); }
  return s;
}
void SubMeshUtils::BuildVdofToVdofMap(const FiniteElementSpace& sub, const FiniteElementSpace& par, const SubMesh::From&, const Array<int>& ids, Array<int>& map) {
  map.SetSize(sub.GetVSize());
  Array<int> a, b;
  for (int e = 0; e < sub.GetMesh()->GetNE(); e++) {
    sub.GetElementVDofs(e, a);
    par.GetElementVDofs(ids[e], b);
    for (int k = 0; k < a.Size(); k++) map[a[k]] = b[k];
  }
}
static const Array<int>* parent_ids(const Mesh* m) {
  if (auto* s = dynamic_cast<const SubMesh*>(m)) return &s->GetParentElementIDMap();
  if (auto* s = dynamic_cast<const ParSubMesh*>(m)) return &s->GetParentElementIDMap();
  return nullptr;
}
void TransferMap::Build(const FiniteElementSpace& src, const FiniteElementSpace& dst) {
  if (auto* ids = parent_ids(dst.GetMesh())) { to_parent_ = false; SubMeshUtils::BuildVdofToVdofMap(dst, src, SubMesh::From::Domain, *ids, map_); }
  else if (auto* ids2 = parent_ids(src.GetMesh())) { to_parent_ = true; SubMeshUtils::BuildVdofToVdofMap(src, dst, SubMesh::From::Domain, *ids2, map_); }
  else mfem_fail("Trying to do a transfer between GridFunctions but none of them is defined on a SubMesh");
}
TransferMap::TransferMap(const GridFunction& s, const GridFunction& d) { Build(*s.FESpace(), *d.FESpace()); }
TransferMap::TransferMap(const FiniteElementSpace& s, const FiniteElementSpace& d) { Build(s, d); }
void TransferMap::Transfer(const GridFunction& s, GridFunction& d) const {
  for (int i = 0; i < map_.Size(); i++) { if (to_parent_) d(map_[i]) = s(i); else d(i) = s(map_[i]); }
}

// -------------------------------------------------------------------- output
DataCollection::DataCollection(const std::string& n, Mesh* m) : mesh(m) {
  size_t p = n.rfind('/');
  if (p == std::string::npos) name = n; else { prefix_path = n.substr(0, p + 1); name = n.substr(p + 1); }
  if (auto* pm = dynamic_cast<ParMesh*>(m)) { serial = false; rank = pm->GetMyRank(); }
}
void DataCollection::Save() {
  std::string dir = prefix_path + name;
  if (cycle != -1) dir += "_" + to_padded_string(cycle, pad);
  std::error_code ec;
  std::filesystem::create_directories(dir, ec);
  std::string suffix = serial ? "" : "." + to_padded_string(rank, 6);
  {
    std::ofstream os(dir + "/mesh" + suffix);
    os.precision(precision);
    mesh->Print(os);
  }
  for (auto& f : fields) {
    std::ofstream os(dir + "/" + f.first + suffix);
    os.precision(precision);
    f.second->Save(os);
  }
}
void ParaViewDataCollection::Save() {
  std::string base = prefix_path + name, cyc = "Cycle" + to_padded_string(cycle, 6), dir = base + "/" + cyc;
  std::error_code ec;
  std::filesystem::create_directories(dir, ec);
  if (rank == 0) {
    std::ofstream os(base + "/" + name + ".pvd", started ? std::ios::app : std::ios::trunc);
    os.precision(17);
    os << "<DataSet timestep=\"" << time << "\" file=\"" << cyc << "/data.pvtu\"/>\n";
    std::ofstream(dir + "/data.pvtu") << "<VTKFile type=\"PUnstructuredGrid\"/>\n";
  }
  started = true;
  std::ofstream os(dir + "/proc" + to_padded_string(rank, 6) + ".vtu");
  os.precision(17);
  os << "elements " << mesh->GetNE() << " levels " << lod << " high_order " << ho << "\n";
  for (auto& f : fields) {
    os << "field " << f.first << " " << f.second->Size() << "\n";
    for (int i = 0; i < f.second->Size(); i++) os << (*f.second)(i) << "\n";
  }
}

}  // namespace mfem
