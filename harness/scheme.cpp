// Rates of change of chosen states, reported per cell and node.
#include "problem.h"

#include <algorithm>
#include <numeric>

using vh::json;

namespace {

struct Dofs {
  int nd = 0;
  std::vector<int> cell;                       // of each element
  std::vector<mfem::Array<int>> of;            // dofs of each element
  std::vector<std::vector<std::array<double, 3>>> at;  // their positions
};

Dofs locate(maxwell::Solver& s, const json& p) {
  auto& fes = s.getFES();
  auto& mesh = *fes.GetMesh();
  Dofs r;
  r.nd = fes.GetNDofs();
  const int sd = mesh.SpaceDimension();
  for (int e = 0; e < mesh.GetNE(); e++) {
    mfem::Array<int> v, d;
    mesh.GetElementVertices(e, v);
    double c[3] = {0, 0, 0};
    for (int i = 0; i < v.Size(); i++)
      for (int k = 0; k < sd; k++) c[k] += mesh.GetVertex(v[i])[k] / v.Size();
    int best = -1;
    double dist = 1e300;
    for (size_t q = 0; q < p["centres"].size(); q++) {
      double z = 0;
      for (int k = 0; k < sd; k++) z += std::pow(c[k] - (double)p["centres"][q][k], 2);
      if (z < dist) dist = z, best = (int)q;
    }
    r.cell.push_back(best);
    fes.GetElementDofs(e, d);
    r.of.push_back(d);
    auto* T = fes.GetElementTransformation(e);
    const auto& ns = fes.GetFE(e)->GetNodes();
    std::vector<std::array<double, 3>> at;
    for (int i = 0; i < ns.GetNPoints(); i++) {
      mfem::Vector x(sd);
      T->Transform(ns.IntPoint(i), x);
      std::array<double, 3> a{0, 0, 0};
      for (int k = 0; k < sd; k++) a[k] = x[k];
      at.push_back(a);
    }
    r.at.push_back(at);
  }
  return r;
}

// Integral over element e of each of the six components.
std::array<double, 6> integral(maxwell::Solver& s, const Dofs& d, int e, const mfem::Vector& r) {
  auto& fes = s.getFES();
  auto* fe = fes.GetFE(e);
  auto* T = fes.GetElementTransformation(e);
  const auto& ir = mfem::IntRules.Get(fe->GetGeomType(), 2 * fe->GetOrder() + 1);
  mfem::Vector sh(fe->GetDof());
  std::array<double, 6> res{};
  for (int q = 0; q < ir.GetNPoints(); q++) {
    const auto& ip = ir.IntPoint(q);
    T->SetIntPoint(&ip);
    fe->CalcShape(ip, sh);
    for (int k = 0; k < 6; k++) {
      double v = 0;
      for (int i = 0; i < sh.Size(); i++) v += sh[i] * r[k * d.nd + d.of[e][i]];
      res[k] += v * ip.weight * T->Weight();
    }
  }
  return res;
}

// Positions of the nodes of a box element along its lines: 0..order in each direction, as one number.
int boxNode(const Dofs& d, int e, int i, int order, int dim) {
  double lo[3], hi[3];
  for (int k = 0; k < 3; k++) {
    lo[k] = 1e300, hi[k] = -1e300;
    for (auto& a : d.at[e]) lo[k] = std::min(lo[k], a[k]), hi[k] = std::max(hi[k], a[k]);
  }
  int r = 0, m = 1;
  for (int k = 0; k < dim; k++) {
    r += m * (int)std::lround(order * (d.at[e][i][k] - lo[k]) / (hi[k] - lo[k]));
    m *= order + 1;
  }
  return r;
}

double poly(const json& a, const json& b, const std::array<double, 3>& x) {
  double r = a[0];
  for (int k = 0; k < 3; k++) r += (double)a[1 + k] * x[k];
  int q = 0;
  for (int i = 0; i < 3; i++)
    for (int j = i; j < 3; j++) r += (double)b[q++] * x[i] * x[j];
  return r;
}

// Extreme eigenvalues of a symmetric matrix (cyclic Jacobi).
std::pair<double, double> extremes(std::vector<double>& a, int n) {
  for (int sweep = 0; sweep < 40; sweep++) {
    double off = 0, dia = 0;
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) (i == j ? dia : off) += a[i * n + j] * a[i * n + j];
    if (off <= 1e-24 * (dia + off) || off == 0) break;
    for (int p = 0; p < n; p++)
      for (int q = p + 1; q < n; q++) {
        const double x = a[p * n + q];
        if (std::abs(x) < 1e-300) continue;
        const double th = (a[q * n + q] - a[p * n + p]) / (2 * x);
        const double t = (th >= 0 ? 1 : -1) / (std::abs(th) + std::sqrt(th * th + 1));
        const double c = 1 / std::sqrt(t * t + 1), s = t * c;
        for (int k = 0; k < n; k++) {
          const double u = a[k * n + p], v = a[k * n + q];
          a[k * n + p] = c * u - s * v;
          a[k * n + q] = s * u + c * v;
        }
        for (int k = 0; k < n; k++) {
          const double u = a[p * n + k], v = a[q * n + k];
          a[p * n + k] = c * u - s * v;
          a[q * n + k] = s * u + c * v;
        }
      }
  }
  double lo = 1e300, hi = -1e300;
  for (int i = 0; i < n; i++) lo = std::min(lo, a[i * n + i]), hi = std::max(hi, a[i * n + i]);
  return {lo, hi};
}

// The same problem, state and times in several formulations.
void agree(const json& p) {
  for (const std::string op : p["ops"]) {
    auto model = vh::makeModel(p);
    maxwell::Sources sources;
    if (p.contains("sources"))
      for (auto& s : p["sources"]) sources.add(vh::makeSource(s));
    json o = p["opts"];
    o["op"] = op;
    maxwell::Solver solver(model, maxwell::Probes(), sources, vh::makeOptions(o));
    const int n = 6 * solver.getFES().GetNDofs();
    const auto x = vh::trial(n, p["seed"]);
    mfem::Vector r(n);
    for (double t : p["times"]) {
      r = 0.0;
      solver.getEvolTDO()->SetTime(t);
      solver.getEvolTDO()->Mult(x, r);
      vh::emit({{"e", "rate"}, {"op", op}, {"t", vh::near(t, 1000)}, {"r", vh::scaled(r, p["S"])}});
    }
  }
}

json snapshot(const mfem::Mesh& m) {
  json el = json::array(), bd = json::array(), at = json::array();
  for (int e = 0; e < m.GetNE(); e++) {
    mfem::Array<int> v;
    m.GetElementVertices(e, v);
    json x = {m.GetAttribute(e)};
    for (int i = 0; i < v.Size(); i++) x.push_back(v[i]);
    el.push_back(x);
  }
  for (int b = 0; b < m.GetNBE(); b++) bd.push_back(m.GetBdrAttribute(b));
  for (int v = 0; v < m.GetNV(); v++)
    for (int k = 0; k < m.SpaceDimension(); k++) at.push_back(vh::near(m.GetVertex(v)[k], 4096));
  return {{"el", el}, {"bd", bd}, {"at", at}};
}

// Total-field sources acting on elements at rest, and on the incident field itself.
void sides(const json& p) {
  auto model = vh::makeModel(p);
  vh::emit({{"e", "before"}, {"mesh", snapshot(model.getMesh())}});
  maxwell::Sources sources;
  sources.add(vh::makeSource(p["source"]));
  maxwell::Solver solver(model, maxwell::Probes(), sources, vh::makeOptions(p["opts"]));
  const Dofs d = locate(solver, p);
  const int ne = (int)d.cell.size(), nd = d.nd;
  mfem::Vector x(6 * nd), r(6 * nd);
  double unit = 1;
  for (int q : p["times"]) {
    const double t = q / 4.0;
    for (bool still : {false, true}) {
      if (still && !p["still"]) continue;
      x = 0.0;
      if (still)
        for (int e = 0; e < ne; e++)
          if (std::find(p["inside"].begin(), p["inside"].end(), d.cell[e] + 1) != p["inside"].end())
            for (int i = 0; i < d.of[e].Size(); i++)
              for (int k = 0; k < 6; k++)
                x[k * nd + d.of[e][i]] = (double)p["source"]["c"][k / 3][k % 3][0] + (double)p["source"]["c"][k / 3][k % 3][4] * t;
      r = 0.0;
      solver.getEvolTDO()->SetTime(t);
      solver.getEvolTDO()->Mult(x, r);
      if (still) {
        double top = 0;
        for (int i = 0; i < r.Size(); i++) top = std::max(top, std::abs(r[i]));
        vh::emit({{"e", "still"}, {"t", q}, {"top", vh::near(top / unit, 1e6)}});
        continue;
      }
      json m(ne, json::array()), quiet(ne, 0);
      for (int e = 0; e < ne; e++) {
        const auto w = integral(solver, d, e, r);
        json u = json::array();
        for (int k = 0; k < 6; k++) u.push_back(vh::near(w[k], p["S"]));
        m[d.cell[e]] = u;
        double top = 0;
        for (int i = 0; i < d.of[e].Size(); i++)
          for (int k = 0; k < 6; k++) top = std::max(top, std::abs(r[k * nd + d.of[e][i]]));
        quiet[d.cell[e]] = top < 1e-9 ? 1 : 0;
        unit = std::max(unit, top);
      }
      vh::emit({{"e", "inject"}, {"t", q}, {"m", m}, {"quiet", quiet}});
    }
  }
  vh::emit({{"e", "after"}, {"mesh", snapshot(model.getMesh())}});
  vh::emit({{"e", "after"}, {"mesh", snapshot(*solver.getFES().GetMesh())}});
}

void scenario(const json& p) {
  if (p["mode"] == "agree") return agree(p);
  if (p["mode"] == "sides") return sides(p);
  auto model = vh::makeModel(p);
  maxwell::Sources none;
  maxwell::Solver solver(model, maxwell::Probes(), none, vh::makeOptions(p["opts"]));
  const Dofs d = locate(solver, p);
  const int ne = (int)d.cell.size(), nd = d.nd;
  auto* op = solver.getEvolTDO();
  mfem::Vector x(6 * nd), r(6 * nd);
  x = 0.0;
  auto rate = [&](double t) {
    r = 0.0;
    op->SetTime(t);
    op->Mult(x, r);
  };
  const std::string mode = p["mode"];
  const int order = p["opts"]["order"];
  if (mode == "boxes") {
    const int dim = p["dim"];
    for (int e = 0; e < ne; e++)
      for (int i = 0; i < d.of[e].Size(); i++)
        for (int k = 0; k < 6; k++) x[k * nd + d.of[e][i]] = p["x"][d.cell[e]][boxNode(d, e, i, order, dim)][k];
    rate(p["t"]);
    json out(ne, json::array());
    for (int e = 0; e < ne; e++) {
      json c(d.of[e].Size(), json::array());
      for (int i = 0; i < d.of[e].Size(); i++) {
        json u = json::array();
        for (int k = 0; k < 6; k++) u.push_back(vh::grid(r[k * nd + d.of[e][i]], p["S"], 1e-5));
        c[boxNode(d, e, i, order, dim)] = u;
      }
      out[d.cell[e]] = c;
    }
    vh::emit({{"e", "boxes"}, {"r", out}});
  } else if (mode == "balance") {
    for (int e = 0; e < ne; e++)
      for (int i = 0; i < d.of[e].Size(); i++)
        for (int k = 0; k < 6; k++) x[k * nd + d.of[e][i]] = p["u"][d.cell[e]][k];
    rate(p["t"]);
    json out(ne, json::array());
    for (int e = 0; e < ne; e++) {
      const int c = d.cell[e];
      const auto m = integral(solver, d, e, r);
      json u = json::array();
      for (int k = 0; k < 6; k++) u.push_back(vh::near(m[k] * (double)p[k < 3 ? "eps" : "mu"][c], p["S"]));
      out[c] = u;
    }
    vh::emit({{"e", "balance"}, {"m", out}});
  } else if (mode == "smooth") {
    for (int e = 0; e < ne; e++)
      for (int i = 0; i < d.of[e].Size(); i++)
        for (int k = 0; k < 6; k++) x[k * nd + d.of[e][i]] = poly(p["a"][k], p["b"][k], d.at[e][i]);
    rate(p["t"]);
    json at = json::array(), rr = json::array();
    for (int e = 0; e < ne; e++) {
      const int c = d.cell[e];
      if (std::find(p["inside"].begin(), p["inside"].end(), c + 1) == p["inside"].end()) continue;
      for (int i = 0; i < d.of[e].Size(); i++) {
        json u = json::array(), a = json::array();
        for (int k = 0; k < 3; k++) a.push_back(vh::near(d.at[e][i][k], p["S"]));
        for (int k = 0; k < 6; k++)
          u.push_back(vh::near(r[k * nd + d.of[e][i]] * (double)p[k < 3 ? "eps" : "mu"][c], p["S"]));
        at.push_back(a);
        rr.push_back(u);
      }
    }
    vh::emit({{"e", "smooth"}, {"at", at}, {"r", rr}});
  } else if (mode == "energy") {
    const int n = 6 * nd;
    rate(0.5);
    double rest = 0;
    for (int i = 0; i < n; i++) rest = std::max(rest, std::abs(r[i]));
    std::vector<double> A((size_t)n * n);
    for (int j = 0; j < n; j++) {
      x = 0.0;
      x[j] = 1.0;
      rate(0.25 * j);
      for (int i = 0; i < n; i++) A[(size_t)i * n + j] = r[i];
    }
    // a trial state: the rate is linear in the state
    x = vh::trial(n, 7);
    rate(1.0);
    double nonlin = 0, big = 0;
    for (int i = 0; i < n; i++) {
      double v = 0;
      for (int j = 0; j < n; j++) v += A[(size_t)i * n + j] * x[j];
      nonlin = std::max(nonlin, std::abs(v - r[i]));
      big = std::max(big, std::abs(v));
    }
    // weight with the mass matrix and the material
    std::vector<double> B((size_t)n * n);
    auto& fes = solver.getFES();
    for (int e = 0; e < ne; e++) {
      auto* fe = fes.GetFE(e);
      auto* T = fes.GetElementTransformation(e);
      const auto& ir = mfem::IntRules.Get(fe->GetGeomType(), 2 * fe->GetOrder() + 1);
      const int m = fe->GetDof();
      std::vector<double> M(m * m);
      mfem::Vector sh(m);
      for (int q = 0; q < ir.GetNPoints(); q++) {
        const auto& ip = ir.IntPoint(q);
        T->SetIntPoint(&ip);
        fe->CalcShape(ip, sh);
        for (int i = 0; i < m; i++)
          for (int j = 0; j < m; j++) M[i * m + j] += sh[i] * sh[j] * ip.weight * T->Weight();
      }
      for (int k = 0; k < 6; k++) {
        const double w = p[k < 3 ? "eps" : "mu"][d.cell[e]];
        for (int i = 0; i < m; i++)
          for (int j = 0; j < m; j++) {
            const double f = w * M[i * m + j];
            const size_t ri = (size_t)(k * nd + d.of[e][i]) * n, rj = (size_t)(k * nd + d.of[e][j]) * n;
            for (int c = 0; c < n; c++) B[ri + c] += f * A[rj + c];
          }
      }
    }
    double unit = 1e-30;
    for (auto v : B) unit = std::max(unit, std::abs(v));
    std::vector<double> C((size_t)n * n);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) C[(size_t)i * n + j] = (B[(size_t)i * n + j] + B[(size_t)j * n + i]) / (2 * unit);
    const auto ex = extremes(C, n);
    vh::emit({{"e", "energy"}, {"low", vh::near(ex.first, 1e8)}, {"top", vh::near(ex.second, 1e8)},
              {"rest", vh::near(rest, 1e8)}, {"nonlin", vh::near(nonlin / std::max(big, 1.0), 1e8)}});
  }
}
}  // namespace

int main() { return vh::serve(scenario); }
