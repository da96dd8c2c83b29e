#include "mfem_la.hpp"

namespace mfem {

std::ostream& out = std::cout;
std::ostream& err = std::cerr;

// MFEM aborts the process; throwing keeps the harness alive and is reported by
// it as an abort.
void mfem_fail(const std::string& what) { throw std::runtime_error("mfem abort: " + what); }
void mfem_error(const char* m) { mfem_fail(m ? m : ""); }
void mfem_warning(const char*) {}

void Device::Configure(const std::string& d, const int) {
  static const std::set<std::string> ok{"cpu", "omp", "raja-cpu", "raja-omp", "occa-cpu", "occa-omp", "debug"};
  std::stringstream ss(d);
  std::string t;
  while (std::getline(ss, t, ',')) if (!ok.count(t)) mfem_fail("invalid backend name: '" + t + "'");
  name_ = d;
}

std::string to_padded_string(int i, int digits) {
  std::ostringstream o;
  o << std::setw(digits) << std::setfill('0') << i;
  return o.str();
}

real_t InnerProduct(MPI_Comm comm, const Vector& a, const Vector& b) {
  real_t l = a * b, g = 0;
  MPI_Allreduce(&l, &g, 1, MPI_DOUBLE, MPI_SUM, comm);
  return g;
}

void Vector::Print(std::ostream& os, int width) const {
  for (int i = 0; i < size_; i++) {
    os << data_[i];
    os << (((i + 1) % width == 0 || i + 1 == size_) ? '\n' : ' ');
  }
}

DenseMatrix::DenseMatrix(std::initializer_list<std::initializer_list<real_t>> v)
    : Matrix((int)v.size(), v.size() ? (int)v.begin()->size() : 0), d_((size_t)height * width) {
  int i = 0;
  for (auto& r : v) { int j = 0; for (auto x : r) (*this)(i, j++) = x; i++; }
}

static bool luFactor(DenseMatrix& a, std::vector<int>& p) {
  const int n = a.Height();
  p.resize(n);
  bool ok = true;
  for (int k = 0; k < n; k++) {
    int m = k;
    for (int i = k + 1; i < n; i++) if (std::abs(a(i, k)) > std::abs(a(m, k))) m = i;
    p[k] = m;
    if (m != k) for (int j = 0; j < n; j++) std::swap(a(k, j), a(m, j));
    if (a(k, k) == 0.0) { ok = false; continue; }
    for (int i = k + 1; i < n; i++) {
      const real_t l = a(i, k) /= a(k, k);
      if (l != 0.0) for (int j = k + 1; j < n; j++) a(i, j) -= l * a(k, j);
    }
  }
  return ok;
}

static void luSolve(const DenseMatrix& a, const std::vector<int>& p, real_t* x) {
  const int n = a.Height();
  for (int k = 0; k < n; k++) if (p[k] != k) std::swap(x[k], x[p[k]]);
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) x[i] -= a(i, j) * x[j];
  for (int i = n - 1; i >= 0; i--) { for (int j = i + 1; j < n; j++) x[i] -= a(i, j) * x[j]; x[i] /= a(i, i); }
}

real_t DenseMatrix::Det() const {
  const auto& a = *this;
  switch (height) {
    case 0: return 1;
    case 1: return a(0, 0);
    case 2: return a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0);
    case 3: return a(0, 0) * (a(1, 1) * a(2, 2) - a(2, 1) * a(1, 2)) + a(1, 0) * (a(2, 1) * a(0, 2) - a(0, 1) * a(2, 2)) + a(2, 0) * (a(0, 1) * a(1, 2) - a(1, 1) * a(0, 2));
  }
  DenseMatrix l(a);
  std::vector<int> p;
  if (!luFactor(l, p)) return 0;
  real_t d = 1;
  for (int i = 0; i < height; i++) { d *= l(i, i); if (p[i] != i) d = -d; }
  return d;
}

real_t DenseMatrix::Weight() const {
  if (width == 0) return 1.0;
  if (height == width) return Det();
  if (height == 2 && width == 1) return std::sqrt((*this)(0, 0) * (*this)(0, 0) + (*this)(1, 0) * (*this)(1, 0));
  if (height == 3 && width == 1) { real_t s = 0; for (int i = 0; i < 3; i++) s += (*this)(i, 0) * (*this)(i, 0); return std::sqrt(s); }
  if (height == 3 && width == 2) {
    const real_t* d = GetData();
    const real_t E = d[0] * d[0] + d[1] * d[1] + d[2] * d[2], G = d[3] * d[3] + d[4] * d[4] + d[5] * d[5], F = d[0] * d[3] + d[1] * d[4] + d[2] * d[5];
    return std::sqrt(E * G - F * F);
  }
  mfem_fail("DenseMatrix::Weight");
}

void DenseMatrix::Invert() { DenseMatrixInverse i(*this); DenseMatrix r; i.GetInverseMatrix(r); *this = r; }

void DenseMatrix::Print(std::ostream& os, int w) const {
  for (int i = 0; i < height; i++) {
    os << "[row " << i << "]\n";
    for (int j = 0; j < width; j++) { os << (*this)(i, j); os << ((j + 1 == width || (j + 1) % w == 0) ? '\n' : ' '); }
  }
}

void DenseMatrixInverse::Factor() { if (src_) Factor(*src_); }
void DenseMatrixInverse::Factor(const DenseMatrix& m) {
  height = m.Height(); width = m.Width(); lu_ = m;
  if (!luFactor(lu_, piv_)) mfem_fail("DenseMatrix::Invert() : singular matrix");
}
void DenseMatrixInverse::Mult(const real_t* x, real_t* y) const {
  if (x != y) std::copy(x, x + height, y);
  luSolve(lu_, piv_, y);
}
void DenseMatrixInverse::GetInverseMatrix(DenseMatrix& A) const {
  A.SetSize(height);
  A = 0.0;
  for (int j = 0; j < height; j++) { A(j, j) = 1.0; luSolve(lu_, piv_, A.GetColumn(j)); }
}

void Mult(const DenseMatrix& b, const DenseMatrix& c, DenseMatrix& a) { a = 0.0; AddMult(b, c, a); }
void AddMult(const DenseMatrix& b, const DenseMatrix& c, DenseMatrix& a) {
  for (int j = 0; j < c.Width(); j++) for (int k = 0; k < b.Width(); k++) { const real_t v = c(k, j); for (int i = 0; i < b.Height(); i++) a(i, j) += b(i, k) * v; }
}
void MultABt(const DenseMatrix& A, const DenseMatrix& B, DenseMatrix& C) { for (int i = 0; i < A.Height(); i++) for (int j = 0; j < B.Height(); j++) { real_t s = 0; for (int k = 0; k < A.Width(); k++) s += A(i, k) * B(j, k); C(i, j) = s; } }
void MultAtB(const DenseMatrix& A, const DenseMatrix& B, DenseMatrix& C) { for (int i = 0; i < A.Width(); i++) for (int j = 0; j < B.Width(); j++) { real_t s = 0; for (int k = 0; k < A.Height(); k++) s += A(k, i) * B(k, j); C(i, j) = s; } }
void AddMult_a_VVt(const real_t a, const Vector& v, DenseMatrix& M) { AddMult_a_VWt(a, v, v, M); }
void MultVVt(const Vector& v, DenseMatrix& M) { MultVWt(v, v, M); }
void MultVWt(const Vector& v, const Vector& w, DenseMatrix& M) { for (int i = 0; i < v.Size(); i++) for (int j = 0; j < w.Size(); j++) M(i, j) = v[i] * w[j]; }
void AddMultVWt(const Vector& v, const Vector& w, DenseMatrix& M) { AddMult_a_VWt(1.0, v, w, M); }
void AddMult_a_VWt(const real_t a, const Vector& v, const Vector& w, DenseMatrix& M) { for (int j = 0; j < w.Size(); j++) { const real_t s = a * w[j]; for (int i = 0; i < v.Size(); i++) M(i, j) += v[i] * s; } }
void AddMult_a_AAt(real_t a, const DenseMatrix& A, DenseMatrix& M) { for (int i = 0; i < A.Height(); i++) for (int j = 0; j < A.Height(); j++) { real_t s = 0; for (int k = 0; k < A.Width(); k++) s += A(i, k) * A(j, k); M(i, j) += a * s; } }
void MultAAt(const DenseMatrix& A, DenseMatrix& M) { M = 0.0; AddMult_a_AAt(1.0, A, M); }
void CalcInverse(const DenseMatrix& a, DenseMatrix& inva) {
  if (a.Height() != a.Width()) {  // left inverse
    DenseMatrix ata(a.Width());
    MultAtB(a, a, ata);
    ata.Invert();
    DenseMatrix at(a, 't');
    inva.SetSize(a.Width(), a.Height());
    Mult(ata, at, inva);
    return;
  }
  CalcAdjugate(a, inva);
  inva *= 1.0 / a.Det();
}
void CalcAdjugate(const DenseMatrix& a, DenseMatrix& b) {
  b.SetSize(a.Width(), a.Height());
  if (a.Width() != a.Height()) {  // as in MFEM: adj(J^t J) J^t
    if (a.Width() == 1) { for (int i = 0; i < a.Height(); i++) b(0, i) = a(i, 0); return; }
    DenseMatrix ata(a.Width()), adj;
    MultAtB(a, a, ata);
    CalcAdjugate(ata, adj);
    DenseMatrix at(a, 't');
    Mult(adj, at, b);
    return;
  }
  switch (a.Height()) {
    case 0: return;
    case 1: b(0, 0) = 1.0; return;
    case 2: b(0, 0) = a(1, 1); b(0, 1) = -a(0, 1); b(1, 0) = -a(1, 0); b(1, 1) = a(0, 0); return;
    case 3:
      b(0, 0) = a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1); b(0, 1) = a(0, 2) * a(2, 1) - a(0, 1) * a(2, 2); b(0, 2) = a(0, 1) * a(1, 2) - a(0, 2) * a(1, 1);
      b(1, 0) = a(1, 2) * a(2, 0) - a(1, 0) * a(2, 2); b(1, 1) = a(0, 0) * a(2, 2) - a(0, 2) * a(2, 0); b(1, 2) = a(0, 2) * a(1, 0) - a(0, 0) * a(1, 2);
      b(2, 0) = a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0); b(2, 1) = a(0, 1) * a(2, 0) - a(0, 0) * a(2, 1); b(2, 2) = a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0);
      return;
  }
  mfem_fail("CalcAdjugate");
}
void CalcOrtho(const DenseMatrix& J, Vector& n) {
  const real_t* d = J.GetData();
  if (J.Height() == 2) { n(0) = d[1]; n(1) = -d[0]; }
  else { n(0) = d[1] * d[5] - d[2] * d[4]; n(1) = d[2] * d[3] - d[0] * d[5]; n(2) = d[0] * d[4] - d[1] * d[3]; }
}

SparseMatrix::SparseMatrix(int* i, int* j, real_t* d, int m, int n, bool ownij, bool owna, bool) : Matrix(m, n) {
  I_.assign(i, i + m + 1);
  J_.assign(j, j + I_[m]);
  A_.assign(I_[m], 0.0);
  if (d) std::copy(d, d + I_[m], A_.begin());
  if (ownij) { delete[] i; delete[] j; }
  if (owna) delete[] d;
  fin_ = true;
}
SparseMatrix& SparseMatrix::operator=(real_t a) {
  for (int i = 0; i < height; i++) ForRowM(i, [&](int, real_t& v) { v = a; });
  return *this;
}
real_t& SparseMatrix::operator()(int i, int j) {
  if (!fin_) { auto it = rows_[i].find(j); if (it != rows_[i].end()) return it->second; }
  else for (int k = I_[i]; k < I_[i + 1]; k++) if (J_[k] == j) return A_[k];
  mfem_fail("SparseMatrix::operator(): entry not present");
}
const real_t& SparseMatrix::operator()(int i, int j) const {
  static const real_t zero = 0.0;
  if (!fin_) { auto it = rows_[i].find(j); return it != rows_[i].end() ? it->second : zero; }
  for (int k = I_[i]; k < I_[i + 1]; k++) if (J_[k] == j) return A_[k];
  return zero;
}
real_t& SparseMatrix::Ref(int i, int j) {
  if (i < 0 || i >= height || j < 0 || j >= width) mfem_fail("SparseMatrix: index out of range");
  if (!fin_) return rows_[i][j];
  for (int k = I_[i]; k < I_[i + 1]; k++) if (J_[k] == j) return A_[k];
  mfem_fail("SparseMatrix: entry not in the finalized pattern");
}
void SparseMatrix::AddSubMatrix(const Array<int>& r, const Array<int>& c, const DenseMatrix& sm, int skip_zeros) {
  for (int i = 0; i < r.Size(); i++)
    for (int j = 0; j < c.Size(); j++) {
      real_t a = sm(i, j);
      const int gi = r[i] >= 0 ? r[i] : -1 - r[i], gj = c[j] >= 0 ? c[j] : -1 - c[j];
      if ((r[i] < 0) != (c[j] < 0)) a = -a;
      if (skip_zeros && a == 0.0) {
        // MFEM keeps symmetric zeros when the transpose is non-zero; a zero
        // entry in the pattern changes no result.
        continue;
      }
      Ref(gi, gj) += a;
    }
}
void SparseMatrix::SetSubMatrix(const Array<int>& r, const Array<int>& c, const DenseMatrix& sm, int skip_zeros) {
  for (int i = 0; i < r.Size(); i++) for (int j = 0; j < c.Size(); j++) { if (skip_zeros && sm(i, j) == 0.0) continue; Ref(r[i], c[j]) = sm(i, j); }
}
void SparseMatrix::SetRow(const int r, const Array<int>& cols, const Vector& v) {
  if (!fin_) { for (int i = 0; i < cols.Size(); i++) Ref(r, cols[i]) = v[i]; return; }
  if (cols.Size() != RowSize(r)) mfem_fail("SparseMatrix::SetRow: size mismatch");
  for (int i = 0; i < cols.Size(); i++) { J_[I_[r] + i] = cols[i]; A_[I_[r] + i] = v[i]; }
}
int SparseMatrix::GetRow(const int r, Array<int>& cols, Vector& v) const {
  const int n = RowSize(r);
  cols.SetSize(n); v.SetSize(n);
  int k = 0;
  ForRow(r, [&](int c, real_t x) { cols[k] = c; v[k++] = x; });
  return 0;
}
void SparseMatrix::Finalize(int skip_zeros) {
  if (fin_) return;
  I_.assign(1, 0); J_.clear(); A_.clear();
  for (int i = 0; i < height; i++) {
    for (auto& p : rows_[i]) if (!(skip_zeros && p.second == 0.0 && (skip_zeros != 2 || p.first != i))) { J_.push_back(p.first); A_.push_back(p.second); }
    I_.push_back((int)J_.size());
  }
  rows_.clear();
  fin_ = true;
}
void SparseMatrix::Threshold(real_t tol, bool fix) {
  Need();
  std::vector<int> I(1, 0), J; std::vector<real_t> A;
  for (int i = 0; i < height; i++) {
    bool any = false;
    ForRow(i, [&](int c, real_t v) { if (std::abs(v) > tol || (i == c && fix)) { J.push_back(c); A.push_back(v); any = true; } });
    (void)any;
    I.push_back((int)J.size());
  }
  I_ = I; J_ = J; A_ = A;
}
void SparseMatrix::Print(std::ostream& os, int w) const {
  for (int i = 0; i < height; i++) {
    os << "[row " << i << "]\n";
    int n = 0;
    ForRow(i, [&](int c, real_t v) { os << " (" << c << "," << v << ")"; if (++n % w == 0) os << '\n'; });
    if (n % w) os << '\n';
  }
}
void SparseMatrix::PrintMatlab(std::ostream& os) const {
  os << "% size " << height << " " << width << "\n% Non Zeros " << NumNonZeroElems() << "\n";
  const auto f = os.flags(); const auto p = os.precision();
  os.setf(std::ios::scientific); os.precision(14);
  for (int i = 0; i < height; i++) ForRow(i, [&](int c, real_t v) { os << i + 1 << " " << c + 1 << " " << v << '\n'; });
  os << height << " " << width << " 0.0\n";
  os.flags(f); os.precision(p);
}
void SparseMatrix::PrintCSR(std::ostream& os) const {
  os << height << '\n';
  for (int i = 0; i <= height; i++) os << I_[i] + 1 << '\n';
  for (int j : J_) os << j + 1 << '\n';
  for (real_t a : A_) os << a << '\n';
}

void SparseMatrix::PrintCSR2(std::ostream& os) const {
  os << height << '\n' << width << '\n';
  for (int i = 0; i <= height; i++) os << I_[i] << '\n';
  for (int j : J_) os << j << '\n';
  for (real_t a : A_) os << a << '\n';
}

SparseMatrix* Mult(const SparseMatrix& A, const SparseMatrix& B, SparseMatrix*) {
  auto* C = new SparseMatrix(A.Height(), B.Width());
  for (int i = 0; i < A.Height(); i++) A.ForRow(i, [&](int k, real_t a) { B.ForRow(k, [&](int j, real_t b) { C->Add(i, j, a * b); }); });
  C->Finalize(0);
  return C;
}
SparseMatrix* Transpose(const SparseMatrix& A) {
  auto* C = new SparseMatrix(A.Width(), A.Height());
  for (int i = 0; i < A.Height(); i++) A.ForRow(i, [&](int j, real_t a) { C->Add(j, i, a); });
  C->Finalize(0);
  return C;
}
SparseMatrix* Add(const SparseMatrix& A, const SparseMatrix& B) { return Add(1.0, A, 1.0, B); }
SparseMatrix* Add(real_t a, const SparseMatrix& A, real_t b, const SparseMatrix& B) {
  auto* C = new SparseMatrix(A.Height(), A.Width());
  for (int i = 0; i < A.Height(); i++) { A.ForRow(i, [&](int j, real_t v) { C->Add(i, j, a * v); }); B.ForRow(i, [&](int j, real_t v) { C->Add(i, j, b * v); }); }
  C->Finalize(0);
  return C;
}

// Restarted GMRES, left preconditioner as in MFEM.
void GMRESSolver::Mult(const Vector& b, Vector& x) const {
  const int n = b.Size();
  auto dot = [&](const Vector& u, const Vector& v) { return InnerProduct(comm, u, v); };
  if (!iterative_mode) x = 0.0;
  Vector r(n), w(n);
  auto apply = [&](const Vector& v, Vector& o) {
    oper->Mult(v, o);
    if (prec) { Vector c(o); prec->Mult(c, o); }
  };
  auto resid = [&]() {
    oper->Mult(x, w);
    subtract(b, w, r);
    if (prec) { Vector c(r); prec->Mult(c, r); }
  };
  resid();
  real_t beta = std::sqrt(dot(r, r));
  final_norm = beta;
  converged = false;
  final_iter = 0;
  real_t tol = std::max(rel_tol * beta, abs_tol);
  if (beta <= tol) { converged = true; return; }
  int it = 0;
  while (it < max_iter) {
    std::vector<Vector> V;
    std::vector<std::vector<real_t>> H;
    std::vector<real_t> cs, sn, s(1, beta);
    V.emplace_back(r);
    V[0] *= 1.0 / beta;
    int k = 0;
    bool done = false;
    for (; k < m && it < max_iter; k++, it++) {
      Vector u(n);
      apply(V[k], u);
      std::vector<real_t> h(k + 2, 0.0);
      for (int j = 0; j <= k; j++) { h[j] = dot(u, V[j]); u.Add(-h[j], V[j]); }
      h[k + 1] = std::sqrt(dot(u, u));
      if (h[k + 1] > 0) u *= 1.0 / h[k + 1];
      for (int j = 0; j < k; j++) { const real_t t = cs[j] * h[j] + sn[j] * h[j + 1]; h[j + 1] = -sn[j] * h[j] + cs[j] * h[j + 1]; h[j] = t; }
      const real_t d = std::hypot(h[k], h[k + 1]);
      cs.push_back(d > 0 ? h[k] / d : 1.0); sn.push_back(d > 0 ? h[k + 1] / d : 0.0);
      h[k] = d; const real_t hk1 = h[k + 1]; h[k + 1] = 0;
      s.push_back(-sn[k] * s[k]); s[k] = cs[k] * s[k];
      H.push_back(h);
      V.emplace_back(u);
      final_norm = std::abs(s[k + 1]);
      if (final_norm <= tol || hk1 == 0.0) { k++; it++; done = true; break; }
    }
    std::vector<real_t> y(k);
    for (int i = k - 1; i >= 0; i--) { real_t t = s[i]; for (int j = i + 1; j < k; j++) t -= H[j][i] * y[j]; y[i] = t / H[i][i]; }
    for (int i = 0; i < k; i++) x.Add(y[i], V[i]);
    final_iter = it;
    if (done) { converged = true; return; }
    resid();
    beta = std::sqrt(dot(r, r));
    final_norm = beta;
    if (beta <= tol) { converged = true; return; }
  }
}

// ---- time integration ----
void ForwardEulerSolver::Init(TimeDependentOperator& o) { f = &o; dxdt.SetSize(o.Width()); }
void ForwardEulerSolver::Step(Vector& x, real_t& t, real_t& dt) { StepWatch watch(x, t, dt, f); f->SetTime(t); f->Mult(x, dxdt); x.Add(dt, dxdt); t += dt; }
void RK2Solver::Init(TimeDependentOperator& o) { f = &o; dxdt.SetSize(o.Width()); x1.SetSize(o.Width()); }
void RK2Solver::Step(Vector& x, real_t& t, real_t& dt) { StepWatch watch(x, t, dt, f);
  const real_t b = 0.5 / a;
  f->SetTime(t); f->Mult(x, dxdt);
  add(x, (1. - b) * dt, dxdt, x1);
  x.Add(a * dt, dxdt);
  f->SetTime(t + a * dt); f->Mult(x, dxdt);
  add(x1, b * dt, dxdt, x);
  t += dt;
}
void RK3SSPSolver::Init(TimeDependentOperator& o) { f = &o; y.SetSize(o.Width()); k.SetSize(o.Width()); }
void RK3SSPSolver::Step(Vector& x, real_t& t, real_t& dt) { StepWatch watch(x, t, dt, f);
  f->SetTime(t); f->Mult(x, k);
  add(x, dt, k, y);
  f->SetTime(t + dt); f->Mult(y, k);
  y.Add(dt, k); add(3. / 4, x, 1. / 4, y, y);
  f->SetTime(t + dt / 2); f->Mult(y, k);
  y.Add(dt, k); add(1. / 3, x, 2. / 3, y, x);
  t += dt;
}
void RK4Solver::Init(TimeDependentOperator& o) { f = &o; y.SetSize(o.Width()); k.SetSize(o.Width()); z.SetSize(o.Width()); }
void RK4Solver::Step(Vector& x, real_t& t, real_t& dt) { StepWatch watch(x, t, dt, f);
  f->SetTime(t); f->Mult(x, k);
  add(x, dt / 2, k, y);
  add(x, dt / 6, k, z);
  f->SetTime(t + dt / 2); f->Mult(y, k);
  add(x, dt / 2, k, y);
  z.Add(dt / 3, k);
  f->Mult(y, k);
  add(x, dt, k, y);
  z.Add(dt / 3, k);
  f->SetTime(t + dt); f->Mult(y, k);
  add(z, dt / 6, k, x);
  t += dt;
}
void ExplicitRKSolver::Init(TimeDependentOperator& o) { f = &o; y.SetSize(o.Width()); for (auto& v : k) v.SetSize(o.Width()); }
void ExplicitRKSolver::Step(Vector& x, real_t& t, real_t& dt) { StepWatch watch(x, t, dt, f);
  f->SetTime(t); f->Mult(x, k[0]);
  for (int l = 0, i = 1; i < s; i++) {
    add(x, a[l++] * dt, k[0], y);
    for (int j = 1; j < i; j++) y.Add(a[l++] * dt, k[j]);
    f->SetTime(t + c[i - 1] * dt); f->Mult(y, k[i]);
  }
  for (int i = 0; i < s; i++) x.Add(b[i] * dt, k[i]);
  t += dt;
}
// Verner 6(5), eight stages; Dormand-Prince 8, twelve stages.  MFEM uses other
// tables of the same order; no check depends on the particular table.
static const double RK6_a[] = {1. / 6,
  4. / 75, 16. / 75,
  5. / 6, -8. / 3, 5. / 2,
  -165. / 64, 55. / 6, -425. / 64, 85. / 96,
  12. / 5, -8., 4015. / 612, -11. / 36, 88. / 255,
  -8263. / 15000, 124. / 75, -643. / 680, -81. / 250, 2484. / 10625, 0.,
  3501. / 1720, -300. / 43, 297275. / 52632, -319. / 2322, 24068. / 84065, 0., 3850. / 26703};
static const double RK6_b[] = {3. / 40, 0., 875. / 2244, 23. / 72, 264. / 1955, 0., 125. / 11592, 43. / 616};
static const double RK6_c[] = {1. / 6, 4. / 15, 2. / 3, 5. / 6, 1., 1. / 15, 1.};
RK6Solver::RK6Solver() : ExplicitRKSolver(8, RK6_a, RK6_b, RK6_c) {}
static const double RK8_a[] = {
0.05260015195876773,
0.0197250569845379,
0.0591751709536137,
0.02958758547680685,
0.0,
0.08876275643042054,
0.2413651341592667,
0.0,
-0.8845494793282861,
0.924834003261792,
0.037037037037037035,
0.0,
0.0,
0.17082860872947386,
0.12546768756682242,
0.037109375,
0.0,
0.0,
0.17025221101954405,
0.06021653898045596,
-0.017578125,
0.03709200011850479,
0.0,
0.0,
0.17038392571223998,
0.10726203044637328,
-0.015319437748624402,
0.008273789163814023,
0.6241109587160757,
0.0,
0.0,
-3.3608926294469414,
-0.868219346841726,
27.59209969944671,
20.154067550477894,
-43.48988418106996,
0.47766253643826434,
0.0,
0.0,
-2.4881146199716677,
-0.590290826836843,
21.230051448181193,
15.279233632882423,
-33.28821096898486,
-0.020331201708508627,
-0.9371424300859873,
0.0,
0.0,
5.186372428844064,
1.0914373489967295,
-8.149787010746927,
-18.52006565999696,
22.739487099350505,
2.4936055526796523,
-3.0467644718982196,
2.273310147516538,
0.0,
0.0,
-10.53449546673725,
-2.0008720582248625,
-17.9589318631188,
27.94888452941996,
-2.8589982771350235,
-8.87285693353063,
12.360567175794303,
0.6433927460157636};
static const double RK8_b[] = {0.054293734116568765, 0.0, 0.0, 0.0, 0.0, 4.450312892752409, 1.8915178993145003, -5.801203960010585, 0.3111643669578199, -0.1521609496625161, 0.20136540080403034, 0.04471061572777259};
static const double RK8_c[] = {0.05260015195876773, 0.0789002279381516, 0.1183503419072274, 0.2816496580927726, 0.3333333333333333, 0.25, 0.3076923076923077, 0.6512820512820513, 0.6, 0.8571428571428571, 1.0};
RK8Solver::RK8Solver() : ExplicitRKSolver(12, RK8_a, RK8_b, RK8_c) {}

void BackwardEulerSolver::Init(TimeDependentOperator& o) { f = &o; k.SetSize(o.Width()); k = 0.0; }
void BackwardEulerSolver::Step(Vector& x, real_t& t, real_t& dt) { StepWatch watch(x, t, dt, f); f->SetTime(t + dt); f->ImplicitSolve(dt, x, k); x.Add(dt, k); t += dt; }
void ImplicitMidpointSolver::Init(TimeDependentOperator& o) { f = &o; k.SetSize(o.Width()); k = 0.0; }
void ImplicitMidpointSolver::Step(Vector& x, real_t& t, real_t& dt) { StepWatch watch(x, t, dt, f); f->SetTime(t + dt / 2); f->ImplicitSolve(dt / 2, x, k); x.Add(dt, k); t += dt; }
void TrapezoidalRuleSolver::Init(TimeDependentOperator& o) { f = &o; k.SetSize(o.Width()); y.SetSize(o.Width()); k = 0.0; y = 0.0; }
void TrapezoidalRuleSolver::Step(Vector& x, real_t& t, real_t& dt) { StepWatch watch(x, t, dt, f);
  f->SetTime(t); f->Mult(x, k);
  add(x, dt / 2., k, y);
  x.Add(dt / 2., k);
  f->SetTime(t + dt); f->ImplicitSolve(dt / 2., y, k);
  x.Add(dt / 2., k);
  t += dt;
}
SDIRK23Solver::SDIRK23Solver(int g) {
  if (g == 0) gamma = (3. - std::sqrt(3.)) / 6.;
  else if (g == 2) gamma = (2. - std::sqrt(2.)) / 2.;
  else if (g == 3) gamma = (2. + std::sqrt(2.)) / 2.;
  else gamma = (3. + std::sqrt(3.)) / 6.;
}
void SDIRK23Solver::Init(TimeDependentOperator& o) { f = &o; k.SetSize(o.Width()); y.SetSize(o.Width()); k = 0.0; y = 0.0; }
void SDIRK23Solver::Step(Vector& x, real_t& t, real_t& dt) { StepWatch watch(x, t, dt, f);
  f->SetTime(t + gamma * dt); f->ImplicitSolve(gamma * dt, x, k);
  add(x, (1. - 2. * gamma) * dt, k, y);
  x.Add(dt / 2, k);
  f->SetTime(t + (1. - gamma) * dt); f->ImplicitSolve(gamma * dt, y, k);
  x.Add(dt / 2, k);
  t += dt;
}
void SDIRK34Solver::Init(TimeDependentOperator& o) { f = &o; k.SetSize(o.Width()); y.SetSize(o.Width()); z.SetSize(o.Width()); k = 0.0; y = 0.0; z = 0.0; }
void SDIRK34Solver::Step(Vector& x, real_t& t, real_t& dt) { StepWatch watch(x, t, dt, f);
  const real_t a = 1. / std::sqrt(3.) * std::cos(M_PI / 18.) + 0.5, b = 1. / (6. * (2. * a - 1.) * (2. * a - 1.));
  f->SetTime(t + a * dt); f->ImplicitSolve(a * dt, x, k);
  add(x, (0.5 - a) * dt, k, y);
  add(x, (2. * a) * dt, k, z);
  x.Add(b * dt, k);
  f->SetTime(t + dt / 2); f->ImplicitSolve(a * dt, y, k);
  z.Add((1. - 4. * a) * dt, k);
  x.Add((1. - 2. * b) * dt, k);
  f->SetTime(t + (1. - a) * dt); f->ImplicitSolve(a * dt, z, k);
  x.Add(b * dt, k);
  t += dt;
}
void SDIRK33Solver::Init(TimeDependentOperator& o) { f = &o; k.SetSize(o.Width()); y.SetSize(o.Width()); k = 0.0; y = 0.0; }
void SDIRK33Solver::Step(Vector& x, real_t& t, real_t& dt) { StepWatch watch(x, t, dt, f);
  const real_t a = 0.435866521508458999416019, b = 1.20849664917601007033648, c = 0.717933260754229499708010;
  f->SetTime(t + a * dt); f->ImplicitSolve(a * dt, x, k);
  add(x, (c - a) * dt, k, y);
  x.Add(b * dt, k);
  f->SetTime(t + c * dt); f->ImplicitSolve(a * dt, y, k);
  x.Add((1. - a - b) * dt, k);
  f->SetTime(t + dt); f->ImplicitSolve(a * dt, x, k);
  x.Add(a * dt, k);
  t += dt;
}

}  // namespace mfem
