// Distributed meshes, spaces and forms.
#include "mfem.hpp"

namespace mfem {

ParMesh::ParMesh(MPI_Comm comm, Mesh& m, const int* partitioning, int) {
  comm_ = comm;
  MPI_Comm_size(comm, &nranks_);
  MPI_Comm_rank(comm, &rank_);
  Dim = m.Dim;
  spaceDim = m.spaceDim;
  std::unique_ptr<int[]> own;
  if (!partitioning) { own.reset(m.GeneratePartitioning(nranks_)); partitioning = own.get(); }
  const int* part = partitioning;
  if (Mesh::partition_watch()) Mesh::partition_watch()(m, part);
  std::vector<int> vg(m.GetNV(), -1), eg(m.GetNE(), -1);
  for (int e = 0; e < m.GetNE(); e++) {
    if (part[e] < 0 || part[e] >= nranks_) mfem_fail("partitioning names a rank that does not exist");
    if (part[e] != rank_) continue;
    eg[e] = (int)l2g_elem_.size();
    l2g_elem_.push_back(e);
    const Element& el = *m.elements[e];
    for (int k = 0; k < el.GetNVertices(); k++) vg[el.GetVertices()[k]] = 0;
  }
  for (int v = 0; v < m.GetNV(); v++) if (vg[v] == 0) { vg[v] = (int)vertices.size(); vertices.push_back(m.vertices[v]); }
  std::vector<int> l2g_v(vertices.size());
  for (int v = 0; v < m.GetNV(); v++) if (vg[v] >= 0) l2g_v[vg[v]] = v;
  auto local = [&](const Element& e) {
    std::vector<int> v;
    for (int k = 0; k < e.GetNVertices(); k++) v.push_back(vg[e.GetVertices()[k]]);
    return std::make_unique<Element>(e.GetGeometryType(), v.data(), e.GetAttribute());
  };
  for (int e : l2g_elem_) elements.push_back(local(*m.elements[e]));
  for (int b = 0; b < m.GetNBE(); b++) {
    int f = m.be_to_face[b];
    const FaceInfo& fi = m.faces_info[f];
    int o = FaceOrientation(m.boundary[b]->GetGeometryType(), m.faces[f]->GetVertices(), m.boundary[b]->GetVertices());
    int owner = part[(o % 2 == 0 || fi.Elem2No < 0) ? fi.Elem1No : fi.Elem2No];
    if (owner == rank_) boundary.push_back(local(*m.boundary[b]));
  }
  GenerateTopology();
  if (m.Nodes) {
    std::vector<DenseMatrix> pe;
    for (int e : l2g_elem_) { IsoparametricTransformation T; m.GetElementTransformation(e, &T); pe.push_back(T.GetPointMat()); }
    SetNodesL2(m.nfec->GetOrder(), pe, m.nfec->GetBasisType());
  }
  // Attributes are the same on every rank.
  Mesh::SetAttributes();
  attributes = m.attributes;
  bdr_attributes = m.bdr_attributes;
  if (nranks_ == 1) return;
  // Faces shared with other ranks.
  std::map<int, std::set<int>> need, give;  // rank -> global elements
  struct SF { int lface, gelem; };
  std::map<int, std::vector<SF>> per;
  for (int f = 0; f < m.GetNumFaces(); f++) {
    const FaceInfo& fi = m.faces_info[f];
    if (fi.Elem1No < 0 || fi.Elem2No < 0) continue;
    int a = part[fi.Elem1No], b = part[fi.Elem2No];
    if (a == b || (a != rank_ && b != rank_)) continue;
    int mine = a == rank_ ? fi.Elem1No : fi.Elem2No, other = a == rank_ ? fi.Elem2No : fi.Elem1No, r = a == rank_ ? b : a;
    const auto& grow = m.el_to_face.Rows()[mine];
    int lf = int(std::find(grow.begin(), grow.end(), f) - grow.begin());
    per[r].push_back({el_to_face.Rows()[eg[mine]][lf], other});
    need[r].insert(other);
    give[r].insert(mine);
  }
  std::vector<int> lcount(nranks_, 0), loc(m.GetNE());
  for (int e = 0; e < m.GetNE(); e++) loc[e] = lcount[part[e]]++;
  for (auto& kv : need) {
    nbr_ranks_.push_back(kv.first);
    std::map<int, int> where;
    for (int g : kv.second) {
      NbrElem n;
      n.rank = kv.first; n.global = g; n.remote_local = loc[g]; n.geom = m.GetElementGeometry(g); n.attr = m.GetAttribute(g);
      IsoparametricTransformation T;
      m.GetElementTransformation(g, &T);
      n.pm = T.GetPointMat();
      n.fe = T.GetFE();
      where[g] = (int)nbr_elems_.size();
      nbr_elems_.push_back(n);
    }
    std::vector<int> s;
    for (int g : give[kv.first]) s.push_back(eg[g]);
    send_.push_back(s);
    for (auto& sf : per[kv.first]) {
      const Element& el = *m.elements[sf.gelem];
      std::vector<int> fv;
      const Element& face = *faces[sf.lface];
      for (int k = 0; k < face.GetNVertices(); k++) fv.push_back(l2g_v[face.GetVertices()[k]]);
      std::set<int> key(fv.begin(), fv.end());
      static const int ends[2] = {0, 1};
      int nf = Dim == 1 ? 2 : Dim == 2 ? el.GetNEdges() : el.GetNFaces(), inf = -1;
      for (int lf = 0; lf < nf && inf < 0; lf++) {
        const int* p = Dim == 1 ? ends + lf : el.GetFaceVertices(lf);
        std::vector<int> ov;
        for (size_t k = 0; k < fv.size(); k++) ov.push_back(el.GetVertices()[p[k]]);
        if (std::set<int>(ov.begin(), ov.end()) == key) inf = 64 * lf + FaceOrientation(face.GetGeometryType(), fv.data(), ov.data());
      }
      if (inf < 0) mfem_fail("shared face without counterpart");
      shared_.push_back({sf.lface, where[sf.gelem], inf});
    }
  }
}

void ParMesh::CopyPar(const ParMesh& p) {
  comm_ = p.comm_; nranks_ = p.nranks_; rank_ = p.rank_; have_nbr_ = p.have_nbr_;
  l2g_elem_ = p.l2g_elem_; nbr_ranks_ = p.nbr_ranks_; nbr_elems_ = p.nbr_elems_; shared_ = p.shared_; send_ = p.send_;
}
long long ParMesh::ReduceInt(int v) const {
  long a = v, b = 0;
  MPI_Allreduce(&a, &b, 1, MPI_LONG, MPI_SUM, comm_);
  return b;
}
long long ParMesh::GetGlobalNE() const { return ReduceInt(GetNE()); }
void ParMesh::ExchangeFaceNbrData() {
  if (have_nbr_) return;
  have_nbr_ = true;
  for (auto& s : shared_) { faces_info[s.lface].Elem2No = -1 - s.nbr; faces_info[s.lface].Elem2Inf = s.inf2; }
}
FaceElementTransformations* ParMesh::GetSharedFaceTransformations(int sf, bool) {
  auto& s = shared_[sf];
  const FaceInfo& fi = faces_info[s.lface];
  auto& T = FaceElemTr;
  T.SetConfigurationMask(0);
  T.Elem1No = fi.Elem1No;
  GetElementTransformation(fi.Elem1No, &Transformation);
  T.Elem1 = &Transformation;
  T.Elem2No = GetNE() + s.nbr;
  const NbrElem& n = nbr_elems_[s.nbr];
  Transformation2.Attribute = n.attr;
  Transformation2.ElementNo = GetNE() + s.nbr;
  Transformation2.mesh = this;
  Transformation2.SetFE(n.fe);
  Transformation2.GetPointMat() = n.pm;
  Transformation2.Reset();
  T.Elem2 = &Transformation2;
  GetFaceTransformation(s.lface, &T);
  LocalFaceTransf(GetElementGeometry(fi.Elem1No), fi.Elem1Inf, T.Loc1.Transf);
  LocalFaceTransf(n.geom, s.inf2, T.Loc2.Transf);
  T.SetConfigurationMask(31);
  return &T;
}
int ParMesh::FindPoints(DenseMatrix& pts, Array<int>& elem, Array<IntegrationPoint>& ips, bool warn, void* inv) {
  Mesh::FindPoints(pts, elem, ips, warn, inv);
  int n = pts.Width();
  std::vector<int> mine(n), best(n);
  for (int k = 0; k < n; k++) mine[k] = elem[k] >= 0 ? rank_ : nranks_;
  MPI_Allreduce(mine.data(), best.data(), n, MPI_INT, MPI_MIN, comm_);
  int found = 0;
  for (int k = 0; k < n; k++) {
    if (best[k] == nranks_) elem[k] = -1;
    else { found++; if (best[k] != rank_) elem[k] = -2; }
  }
  return found;
}

// --------------------------------------------------------------------- spaces
void ParFiniteElementSpace::ExchangeFaceNbrData() {
  if (num_face_nbr_dofs >= 0) return;
  pmesh->ExchangeFaceNbrData();
  nbr_off.assign(1, 0);
  for (int i = 0; i < pmesh->GetNFaceNeighborElements(); i++) nbr_off.push_back(nbr_off.back() + GetFaceNbrFE(i)->GetDof());
  num_face_nbr_dofs = nbr_off.back() * vdim;
}
void ParFiniteElementSpace::GetFaceNbrElementVDofs(int i, Array<int>& d) const {
  if (vdim != 1) mfem_fail("face neighbour dofs of vector spaces are not provided");
  d.SetSize(nbr_off[i + 1] - nbr_off[i]);
  for (int k = 0; k < d.Size(); k++) d[k] = nbr_off[i] + k;
}

// ------------------------------------------------------------- grid functions
ParGridFunction::ParGridFunction(ParMesh* m, std::istream& in) : GridFunction(m, in) {
  auto p = std::make_shared<ParFiniteElementSpace>(m, fes->FEColl(), fes->GetVDim(), fes->GetOrdering());
  pfes = p.get();
  own_fes = p;
  fes = pfes;
}
void ParGridFunction::ExchangeFaceNbrData() {
  if (!pfes) mfem_fail("ParGridFunction without space");
  pfes->ExchangeFaceNbrData();
  ParMesh* m = pfes->GetParMesh();
  face_nbr_data.SetSize(pfes->num_face_nbr_dofs);
  if (m->NbrRanks().empty()) return;
  std::vector<std::vector<char>> out, in;
  Array<int> d;
  for (auto& l : m->SendElems()) {
    std::vector<char> b;
    for (int e : l) {
      pfes->GetElementDofs(e, d);
      for (int k = 0; k < d.Size(); k++) { double v = (*this)(d[k]); b.insert(b.end(), (char*)&v, (char*)&v + 8); }
    }
    out.push_back(b);
  }
  minimpi_pairwise(m->NbrRanks(), out, in);
  size_t pos = 0;
  for (auto& b : in) { if (pos + b.size() / 8 > (size_t)face_nbr_data.Size()) mfem_fail("neighbour data of unexpected length"); if (!b.empty()) std::memcpy(face_nbr_data.GetData() + pos, b.data(), b.size()); pos += b.size() / 8; }
  if ((int)pos != face_nbr_data.Size()) mfem_fail("neighbour data of unexpected length");
}
real_t ParGridFunction::ComputeL2Error(Coefficient& c, const IntegrationRule* irs[]) const {
  double l = GridFunction::ComputeL2Error(c, irs), g = 0;
  l *= l;
  MPI_Allreduce(&l, &g, 1, MPI_DOUBLE, MPI_SUM, pfes->GetComm());
  return std::sqrt(g);
}

// ---------------------------------------------------------------------- forms
void ParBilinearForm::Assemble(int skip) {
  if (!interior_face_integs.empty()) {
    pfes->ExchangeFaceNbrData();
    if (!mat) { int n = pfes->GetFaceNbrVSize(); mat = new SparseMatrix(height + (keep ? n : 0), width + n); }
  }
  BilinearForm::Assemble(skip);
  if (interior_face_integs.empty()) return;
  ParMesh* m = pfes->GetParMesh();
  Array<int> v1, v2, all;
  for (int s = 0; s < m->GetNSharedFaces(); s++) {
    auto* T = m->GetSharedFaceTransformations(s);
    int nb = T->Elem2No - m->GetNE();
    pfes->GetElementVDofs(T->Elem1No, v1);
    pfes->GetFaceNbrElementVDofs(nb, v2);
    v1.Copy(all);
    for (int k = 0; k < v2.Size(); k++) v2[k] += height;
    all.Append(v2);
    for (auto& i : interior_face_integs) {
      i.b->AssembleFaceMatrix(*pfes->GetFE(T->Elem1No), *pfes->GetFaceNbrFE(nb), *T, elemmat);
      mat->AddSubMatrix(keep ? all : v1, all, elemmat, skip);
    }
  }
}

}  // namespace mfem
