// Quadrature rules, nodal elements and coordinate transformations.
#include "mfem.hpp"
#include <mutex>

namespace mfem {

IntegrationRules IntRules(0, Quadrature1D::GaussLegendre);
IntegrationRules RefinedIntRules(1, Quadrature1D::GaussLegendre);
Geometry Geometries;

const int Geometry::Dimension[NumGeom] = {0, 1, 2, 2, 3, 3, 3, 3};
const int Geometry::DimStart[5] = {POINT, SEGMENT, TRIANGLE, TETRAHEDRON, NUM_GEOMETRIES};
const int Geometry::NumVerts[NumGeom] = {1, 2, 3, 4, 4, 8, 6, 5};
const int Geometry::NumEdges[NumGeom] = {0, 1, 3, 4, 6, 12, 9, 8};
const int Geometry::NumFaces[NumGeom] = {0, 0, 1, 1, 4, 6, 5, 5};
const real_t Geometry::Volume[NumGeom] = {1., 1., .5, 1., 1. / 6, 1., .5, 1. / 3};
const char* Geometry::Name[NumGeom] = {"Point", "Segment", "Triangle", "Square", "Tetrahedron", "Cube", "Prism", "Pyramid"};

Geometry::Geometry() : v_(NumGeom), c_(NumGeom) {
  static const double seg[][3] = {{0, 0, 0}, {1, 0, 0}};
  static const double tri[][3] = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}};
  static const double sq[][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}};
  static const double tet[][3] = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
  static const double cub[][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
  static const double pt[][3] = {{0, 0, 0}};
  auto put = [&](int g, const double (*p)[3], int n) {
    v_[g] = IntegrationRule(n);
    c_[g] = IntegrationPoint();
    for (int i = 0; i < n; i++) {
      v_[g][i].Set3(p[i]);
      c_[g].x += p[i][0] / n; c_[g].y += p[i][1] / n; c_[g].z += p[i][2] / n;
    }
  };
  put(POINT, pt, 1); put(SEGMENT, seg, 2); put(TRIANGLE, tri, 3); put(SQUARE, sq, 4); put(TETRAHEDRON, tet, 4); put(CUBE, cub, 8);
}

bool Geometry::CheckPoint(int geom, const IntegrationPoint& ip, real_t eps) {
  auto in = [&](double v) { return v >= -eps && v <= 1 + eps; };
  switch (geom) {
    case POINT: return std::abs(ip.x) <= eps;
    case SEGMENT: return in(ip.x);
    case TRIANGLE: return ip.x >= -eps && ip.y >= -eps && ip.x + ip.y <= 1 + eps;
    case SQUARE: return in(ip.x) && in(ip.y);
    case TETRAHEDRON: return ip.x >= -eps && ip.y >= -eps && ip.z >= -eps && ip.x + ip.y + ip.z <= 1 + eps;
    case CUBE: return in(ip.x) && in(ip.y) && in(ip.z);
  }
  mfem_fail("Geometry::CheckPoint: geometry not provided");
}

// -------------------------------------------------------------- 1D point sets
static void legendre(int n, double x, double& p, double& dp) {  // on [-1,1]
  double a = 1, b = x;
  if (n == 0) { p = 1; dp = 0; return; }
  double da = 0, db = 1;
  for (int k = 2; k <= n; k++) {
    double c = ((2 * k - 1) * x * b - (k - 1) * a) / k;
    double dc = da + (2 * k - 1) * b;
    a = b; b = c; da = db; db = dc;
  }
  p = b; dp = db;
}

static void gauss(int n, std::vector<double>& x, std::vector<double>& w) {  // on [0,1]
  x.resize(n); w.resize(n);
  for (int i = 0; i < (n + 1) / 2; i++) {
    double z = std::cos(M_PI * (i + 0.75) / (n + 0.5)), p, dp;
    if (n % 2 && i == n / 2) z = 0;
    for (int it = 0; it < 100; it++) {
      legendre(n, z, p, dp);
      double dz = p / dp;
      if (n % 2 && i == n / 2) break;
      z -= dz;
      if (std::abs(dz) < 1e-16) break;
    }
    legendre(n, z, p, dp);
    double ww = 1.0 / ((1 - z * z) * dp * dp);
    x[i] = 0.5 * (1 - z); x[n - 1 - i] = 0.5 * (1 + z);
    w[i] = w[n - 1 - i] = ww;
  }
}

static std::vector<double> lobatto(int p) {
  if (p == 0) return {0.5};
  std::vector<double> x(p + 1);
  x[0] = 0; x[p] = 1;
  for (int i = 1; i < p; i++) {
    if (2 * i == p) { x[i] = 0.5; continue; }
    if (2 * i > p) { x[i] = 1 - x[p - i]; continue; }
    double z = -std::cos(M_PI * i / p);
    for (int it = 0; it < 100; it++) {
      double v, d;
      legendre(p, z, v, d);
      // (1-z^2) P'' = 2 z P' - p(p+1) P
      double dd = (2 * z * d - p * (p + 1.0) * v) / (1 - z * z);
      double dz = d / dd;
      z -= dz;
      if (std::abs(dz) < 1e-16) break;
    }
    x[i] = 0.5 * (1 + z);
  }
  return x;
}

static std::recursive_mutex mtx;

const std::vector<double>& Points1D(int p, int basis) {
  static std::map<std::pair<int, int>, std::vector<double>> cache;
  std::lock_guard<std::recursive_mutex> l(mtx);
  auto it = cache.find({p, basis});
  if (it != cache.end()) return it->second;
  std::vector<double> x;
  switch (basis) {
    case BasisType::GaussLegendre: { std::vector<double> w; gauss(p + 1, x, w); break; }
    case BasisType::GaussLobatto: case BasisType::ClosedGL: x = lobatto(p); break;
    case BasisType::OpenUniform: for (int i = 0; i <= p; i++) x.push_back((i + 1.0) / (p + 2)); break;
    case BasisType::ClosedUniform: if (p == 0) x = {0.5}; else for (int i = 0; i <= p; i++) x.push_back(double(i) / p); break;
    case BasisType::OpenHalfUniform: for (int i = 0; i <= p; i++) x.push_back((i + 0.5) / (p + 1)); break;
    default: mfem_fail("Points1D: basis type not provided");
  }
  return cache[{p, basis}] = x;
}

const IntegrationRule& IntegrationRules::Get(int geom, int order) {
  std::lock_guard<std::recursive_mutex> l(mtx);
  if (order < 0) order = 0;
  auto& slot = cache_[{geom, order}];
  if (slot) return *slot;
  auto npts = [](int o) { return o / 2 + 1; };
  std::vector<double> x, w, y, v, z, u;
  auto out = std::make_unique<IntegrationRule>();
  std::vector<IntegrationPoint> pts;
  auto add = [&](double a, double b, double c, double ww) { IntegrationPoint ip; ip.Set(a, b, c, ww); ip.index = (int)pts.size(); pts.push_back(ip); };
  switch (geom) {
    case Geometry::POINT: add(0, 0, 0, 1); break;
    case Geometry::SEGMENT: gauss(npts(order), x, w); for (size_t i = 0; i < x.size(); i++) add(x[i], 0, 0, w[i]); break;
    case Geometry::SQUARE:
      gauss(npts(order), x, w);
      for (size_t j = 0; j < x.size(); j++) for (size_t i = 0; i < x.size(); i++) add(x[i], x[j], 0, w[i] * w[j]);
      break;
    case Geometry::CUBE:
      gauss(npts(order), x, w);
      for (size_t k = 0; k < x.size(); k++) for (size_t j = 0; j < x.size(); j++) for (size_t i = 0; i < x.size(); i++) add(x[i], x[j], x[k], w[i] * w[j] * w[k]);
      break;
    case Geometry::TRIANGLE:
      if (order <= 1) { add(1. / 3, 1. / 3, 0, .5); break; }
      gauss(npts(order), x, w); gauss(npts(order + 1), y, v);
      for (size_t j = 0; j < y.size(); j++) for (size_t i = 0; i < x.size(); i++) add(x[i] * (1 - y[j]), y[j], 0, w[i] * v[j] * (1 - y[j]));
      break;
    case Geometry::TETRAHEDRON:
      if (order <= 1) { add(.25, .25, .25, 1. / 6); break; }
      gauss(npts(order), x, w); gauss(npts(order + 1), y, v); gauss(npts(order + 2), z, u);
      for (size_t k = 0; k < z.size(); k++) for (size_t j = 0; j < y.size(); j++) for (size_t i = 0; i < x.size(); i++) {
        double Z = z[k], Y = y[j] * (1 - Z), X = x[i] * (1 - y[j]) * (1 - Z);
        add(X, Y, Z, w[i] * v[j] * (1 - y[j]) * u[k] * (1 - Z) * (1 - Z));
      }
      break;
    default: mfem_fail("IntegrationRules::Get: geometry not provided");
  }
  *out = IntegrationRule((int)pts.size());
  for (int i = 0; i < out->Size(); i++) (*out)[i] = pts[i];
  out->SetOrder(order);
  slot = std::move(out);
  return *slot;
}

// ------------------------------------------------------------------- elements
static bool is_tensor(Geometry::Type g) { return g == Geometry::SEGMENT || g == Geometry::SQUARE || g == Geometry::CUBE; }

LagrangeElement::LagrangeElement(Geometry::Type g, int p, int space, const std::vector<std::array<double, 3>>& nodes)
    : FiniteElement(g, (int)nodes.size(), p, space) {
  int d = Geometry::Dimension[g];
  for (int k = 0; k <= (d > 2 ? p : 0); k++)
    for (int j = 0; j <= (d > 1 ? p : 0); j++)
      for (int i = 0; i <= p; i++)
        if (is_tensor(g) || i + j + k <= p) idx_.push_back({i, j, k});
  if ((int)idx_.size() != dof_) mfem_fail("LagrangeElement: wrong number of nodes");
  DenseMatrix V(dof_);
  std::vector<double> phi;
  for (int n = 0; n < dof_; n++) {
    Nodes[n].Set3(nodes[n][0], nodes[n][1], nodes[n][2]);
    Modal(Nodes[n], &phi, nullptr);
    for (int m = 0; m < dof_; m++) V(n, m) = phi[m];
  }
  V.Invert();
  vinv_ = V;
}

void LagrangeElement::Modal(const IntegrationPoint& ip, std::vector<double>* v, std::vector<double>* d) const {
  const double c[3] = {ip.x, ip.y, ip.z};
  const int dim = GetDim();
  double P[3][32], D[3][32];
  for (int a = 0; a < 3; a++) {
    for (int k = 0; k <= order_; k++) {
      if (a >= dim) { P[a][k] = k == 0; D[a][k] = 0; continue; }
      legendre(k, 2 * c[a] - 1, P[a][k], D[a][k]);
      D[a][k] *= 2;
    }
  }
  const int n = (int)idx_.size();
  if (v) v->resize(n);
  if (d) d->resize((size_t)n * dim);
  for (int m = 0; m < n; m++) {
    const auto& q = idx_[m];
    if (v) (*v)[m] = P[0][q[0]] * P[1][q[1]] * P[2][q[2]];
    if (d) {
      (*d)[(size_t)m * dim] = D[0][q[0]] * P[1][q[1]] * P[2][q[2]];
      if (dim > 1) (*d)[(size_t)m * dim + 1] = P[0][q[0]] * D[1][q[1]] * P[2][q[2]];
      if (dim > 2) (*d)[(size_t)m * dim + 2] = P[0][q[0]] * P[1][q[1]] * D[2][q[2]];
    }
  }
}

void LagrangeElement::CalcShape(const IntegrationPoint& ip, Vector& shape) const {
  std::vector<double> phi;
  Modal(ip, &phi, nullptr);
  shape.SetSize(dof_);
  for (int n = 0; n < dof_; n++) { double s = 0; for (int m = 0; m < dof_; m++) s += vinv_(m, n) * phi[m]; shape(n) = s; }
}

void LagrangeElement::CalcDShape(const IntegrationPoint& ip, DenseMatrix& ds) const {
  std::vector<double> dphi;
  Modal(ip, nullptr, &dphi);
  const int dim = GetDim();
  ds.SetSize(dof_, dim);
  for (int n = 0; n < dof_; n++) for (int k = 0; k < dim; k++) { double s = 0; for (int m = 0; m < dof_; m++) s += vinv_(m, n) * dphi[(size_t)m * dim + k]; ds(n, k) = s; }
}

void FiniteElement::CalcPhysShape(ElementTransformation& T, Vector& shape) const { CalcShape(T.GetIntPoint(), shape); }
void FiniteElement::CalcPhysDShape(ElementTransformation& T, DenseMatrix& dshape) const {
  DenseMatrix ds;
  CalcDShape(T.GetIntPoint(), ds);
  dshape.SetSize(dof_, T.InverseJacobian().Width());
  mfem::Mult(ds, T.InverseJacobian(), dshape);
}

const FiniteElement* NodalElement(Geometry::Type g, int p, int basis) {
  static std::map<std::tuple<int, int, int>, std::unique_ptr<FiniteElement>> cache;
  std::lock_guard<std::recursive_mutex> l(mtx);
  auto& slot = cache[std::make_tuple((int)g, p, basis)];
  if (slot) return slot.get();
  if (g == Geometry::POINT) { slot = std::make_unique<PointFiniteElement>(); return slot.get(); }
  const auto& op = Points1D(p, basis);
  std::vector<std::array<double, 3>> n;
  switch (g) {
    case Geometry::SEGMENT: for (int i = 0; i <= p; i++) n.push_back({op[i], 0, 0}); break;
    case Geometry::SQUARE: for (int j = 0; j <= p; j++) for (int i = 0; i <= p; i++) n.push_back({op[i], op[j], 0}); break;
    case Geometry::CUBE: for (int k = 0; k <= p; k++) for (int j = 0; j <= p; j++) for (int i = 0; i <= p; i++) n.push_back({op[i], op[j], op[k]}); break;
    case Geometry::TRIANGLE:
      for (int j = 0; j <= p; j++) for (int i = 0; i + j <= p; i++) { double w = op[i] + op[j] + op[p - i - j]; n.push_back({op[i] / w, op[j] / w, 0}); }
      break;
    case Geometry::TETRAHEDRON:
      for (int k = 0; k <= p; k++) for (int j = 0; j + k <= p; j++) for (int i = 0; i + j + k <= p; i++) { double w = op[i] + op[j] + op[k] + op[p - i - j - k]; n.push_back({op[i] / w, op[j] / w, op[k] / w}); }
      break;
    default: mfem_fail("NodalElement: geometry not provided");
  }
  int space = (g == Geometry::SQUARE || g == Geometry::CUBE) ? FunctionSpace::Qk : FunctionSpace::Pk;
  slot = std::make_unique<LagrangeElement>(g, p, space, n);
  return slot.get();
}

const FiniteElement* LinearElement(Geometry::Type g) {
  static std::map<int, std::unique_ptr<FiniteElement>> cache;
  std::lock_guard<std::recursive_mutex> l(mtx);
  auto& slot = cache[(int)g];
  if (slot) return slot.get();
  if (g == Geometry::POINT) { slot = std::make_unique<PointFiniteElement>(); return slot.get(); }
  std::vector<std::array<double, 3>> n;
  const auto* v = Geometries.GetVertices(g);
  for (int i = 0; i < v->Size(); i++) n.push_back({(*v)[i].x, (*v)[i].y, (*v)[i].z});
  int space = (g == Geometry::SQUARE || g == Geometry::CUBE) ? FunctionSpace::Qk : FunctionSpace::Pk;
  slot = std::make_unique<LagrangeElement>(g, 1, space, n);
  return slot.get();
}

L2_FECollection::L2_FECollection(const int p, const int dim, const int btype, const int) : FiniteElementCollection(p, dim, btype) {
  std::ostringstream os;
  if (p < 0) mfem_fail("L2_FECollection: order is negative");
  if (btype == BasisType::GaussLegendre) os << "L2_" << dim << "D_P" << p; else os << "L2_T" << btype << "_" << dim << "D_P" << p;
  name_ = os.str();
}
const FiniteElement* L2_FECollection::FiniteElementForGeometry(Geometry::Type g) const {
  if (Geometry::Dimension[g] == dim_ || Geometry::Dimension[g] == dim_ - 1) return NodalElement(g, p_, b_);
  return nullptr;
}
H1_FECollection::H1_FECollection(const int p, const int dim, const int btype) : FiniteElementCollection(p, dim, btype) { name_ = "H1_" + std::to_string(dim) + "D_P" + std::to_string(p); }
const FiniteElement* H1_FECollection::FiniteElementForGeometry(Geometry::Type g) const { return NodalElement(g, p_, b_); }

FiniteElementCollection* FiniteElementCollection::New(const char* name) {
  int t, d, p;
  if (sscanf(name, "L2_T%d_%dD_P%d", &t, &d, &p) == 3) return new L2_FECollection(p, d, t);
  if (sscanf(name, "L2_%dD_P%d", &d, &p) == 2) return new L2_FECollection(p, d);
  if (sscanf(name, "H1_%dD_P%d", &d, &p) == 2) return new H1_FECollection(p, d);
  mfem_fail(std::string("unknown FiniteElementCollection: ") + name);
}

// ------------------------------------------------------------ transformations
real_t ElementTransformation::Weight() {
  const DenseMatrix& J = EvalJacobian();
  if (J.Width() == 0) return 1.0;
  return J.Weight();
}
const DenseMatrix& ElementTransformation::InverseJacobian() {
  const DenseMatrix& J = EvalJacobian();
  invJ.SetSize(J.Width(), J.Height());
  CalcInverse(J, invJ);
  return invJ;
}
const DenseMatrix& ElementTransformation::AdjugateJacobian() {
  const DenseMatrix& J = EvalJacobian();
  adjJ.SetSize(J.Width(), J.Height());
  CalcAdjugate(J, adjJ);
  return adjJ;
}

int ElementTransformation::TransformBack(const Vector& pt, IntegrationPoint& ip) {
  ip = Geometries.GetCenter(geom);
  const int d = GetDimension();
  Vector x;
  for (int it = 0; it < 60; it++) {
    SetIntPoint(&ip);
    Transform(ip, x);
    Vector r(x.Size());
    for (int i = 0; i < x.Size(); i++) r(i) = pt(i) - x(i);
    const DenseMatrix& Ji = InverseJacobian();
    double q[3] = {ip.x, ip.y, ip.z}, m = 0;
    for (int i = 0; i < d; i++) { double s = 0; for (int j = 0; j < r.Size(); j++) s += Ji(i, j) * r(j); q[i] += s; m = std::max(m, std::abs(s)); }
    ip.Set3(q);
    if (!(m < 1e3)) return 1;
    if (m < 1e-15) break;
  }
  Transform(ip, x);
  double e = 0, sc = 0;
  for (int i = 0; i < x.Size(); i++) { e = std::max(e, std::abs(pt(i) - x(i))); sc = std::max(sc, std::abs(pt(i))); }
  if (e > 1e-9 * (1 + sc)) return 2;
  return Geometry::CheckPoint(geom, ip, 1e-10) ? 0 : 1;
}

void IsoparametricTransformation::SetIdentityTransformation(Geometry::Type g) {
  SetFE(LinearElement(g));
  int d = Geometry::Dimension[g];
  const auto* v = Geometries.GetVertices(g);
  PointMat.SetSize(d, v->Size());
  for (int j = 0; j < v->Size(); j++) { double c[3] = {(*v)[j].x, (*v)[j].y, (*v)[j].z}; for (int i = 0; i < d; i++) PointMat(i, j) = c[i]; }
}
void IsoparametricTransformation::Transform(const IntegrationPoint& ip, Vector& x) {
  FElem->CalcShape(ip, shape);
  x.SetSize(PointMat.Height());
  PointMat.Mult(shape, x);
}
void IsoparametricTransformation::Transform(const IntegrationPoint& a, IntegrationPoint& b) {
  FElem->CalcShape(a, shape);
  double c[3] = {0, 0, 0};
  for (int i = 0; i < PointMat.Height() && i < 3; i++) for (int j = 0; j < PointMat.Width(); j++) c[i] += PointMat(i, j) * shape(j);
  b.x = c[0]; b.y = c[1]; b.z = c[2];
}
void IsoparametricTransformation::Transform(const IntegrationRule& ir, DenseMatrix& m) {
  m.SetSize(PointMat.Height(), ir.GetNPoints());
  Vector x;
  for (int k = 0; k < ir.GetNPoints(); k++) { Transform(ir[k], x); for (int i = 0; i < x.Size(); i++) m(i, k) = x(i); }
}
const DenseMatrix& IsoparametricTransformation::EvalJacobian() {
  if (!IntPoint) mfem_fail("transformation without integration point");
  FElem->CalcDShape(*IntPoint, dshape);
  dFdx.SetSize(PointMat.Height(), dshape.Width());
  if (dshape.Width() > 0) mfem::Mult(PointMat, dshape, dFdx);
  return dFdx;
}
int IsoparametricTransformation::OrderW() const {
  int p = FElem->GetOrder(), d = FElem->GetDim();
  return FElem->Space() == FunctionSpace::Qk ? p * d - 1 : (p - 1) * d;
}
int IsoparametricTransformation::OrderGrad(const FiniteElement* fe) const {
  int k = FElem->GetOrder(), l = fe->GetOrder(), d = FElem->GetDim();
  return FElem->Space() == FunctionSpace::Qk ? k * (d - 1) + (l - 1) : (k - 1) * (d - 1) + (l - 1);
}
void IsoparametricTransformation::Assign(const IsoparametricTransformation& o) {
  Attribute = o.Attribute; ElementNo = o.ElementNo; ElementType = o.ElementType; mesh = o.mesh;
  PointMat = o.PointMat;
  SetFE(o.FElem);
}

void FaceElementTransformations::SetAllIntPoints(const IntegrationPoint* face_ip) {
  IsoparametricTransformation::SetIntPoint(face_ip);
  if (mask & HAVE_LOC1) { Loc1.Transform(*face_ip, eip1); if (Elem1) Elem1->SetIntPoint(&eip1); }
  if (mask & HAVE_LOC2) { Loc2.Transform(*face_ip, eip2); if (Elem2) Elem2->SetIntPoint(&eip2); }
}

}  // namespace mfem
