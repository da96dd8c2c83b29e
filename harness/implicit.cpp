// Histories of implicit stage solves.
#include "problem.h"

#include <algorithm>

using vh::json;

namespace {
void scenario(const json& p) {
  auto model = vh::makeModel(p);
  maxwell::Sources sources;
  if (p.contains("sources"))
    for (auto& s : p["sources"]) sources.add(vh::makeSource(s));
  maxwell::Solver solver(model, maxwell::Probes(), sources, vh::makeOptions(p["opts"]));
  auto* op = solver.getEvolTDO();
  const int nd = solver.getFES().GetNDofs(), n = 6 * nd;
  mfem::Vector kept, first;
  for (auto& c : p["calls"]) {
    const double t = (int)c["t"] / 4.0;
    const auto x = vh::trial(n, c["x"]);
    if (c["do"] == "rate") {
      mfem::Vector r(n);
      r = 0.0;
      op->SetTime(0.5);
      op->Mult(vh::trial(n, 99), r);
      double off = 0;
      if (first.Size() == 0) first = r;
      for (int i = 0; i < n; i++) off = std::max(off, std::abs(r[i] - first[i]));
      vh::emit({{"e", "rate"}, {"off", vh::near(off, 1e6)}});
      continue;
    }
    const double dt = (int)c["dt"] / 1048576.0;
    mfem::Vector k;
    if (c["start"] == "zero") k.SetSize(n), k = 0.0;
    if (c["start"] == "kept" && kept.Size() == n) k = kept;
    op->SetTime(t);
    op->ImplicitSolve(dt, x, k);
    kept = k;
    mfem::Vector y(x), r(n);
    y.Add(dt, k);
    r = 0.0;
    op->SetTime(t);
    op->Mult(y, r);
    double res = 0, big = 1;
    for (int i = 0; i < n; i++) {
      const double d = std::abs(k[i] - r[i]);
      res = d == d ? std::max(res, d) : 1e9;
      big = std::max(big, std::abs(r[i]));
    }
    json few = json::array();
    for (int i = 0; i < n; i += std::max(1, n / 200)) few.push_back(vh::near(k[i] / big, 1e6));
    vh::emit({{"e", "solve"}, {"dt", c["dt"]}, {"x", c["x"]}, {"t", c["t"]}, {"size", k.Size()}, {"res", vh::near(res / big, 1e6)}, {"k", few}});
    if (!p.contains("order")) continue;
    const int order = p["order"], dim = p["dim"];
    auto& fes = solver.getFES();
    json ys(fes.GetNE(), json::array()), ks(fes.GetNE(), json::array());
    for (int e = 0; e < fes.GetNE(); e++) {
      mfem::Array<int> d;
      fes.GetElementDofs(e, d);
      auto* T = fes.GetElementTransformation(e);
      const auto& ns = fes.GetFE(e)->GetNodes();
      double mid[3] = {0, 0, 0}, lo[3] = {1e9, 1e9, 1e9}, hi[3] = {-1e9, -1e9, -1e9};
      std::vector<mfem::Vector> at;
      for (int i = 0; i < ns.GetNPoints(); i++) {
        mfem::Vector z(dim);
        T->Transform(ns.IntPoint(i), z);
        for (int q = 0; q < dim; q++) mid[q] += z[q] / ns.GetNPoints(), lo[q] = std::min(lo[q], z[q]), hi[q] = std::max(hi[q], z[q]);
        at.push_back(z);
      }
      int cell = -1;
      double best = 1e300;
      for (size_t q = 0; q < p["centres"].size(); q++) {
        double z = 0;
        for (int a = 0; a < dim; a++) z += std::pow(mid[a] - (double)p["centres"][q][a], 2);
        if (z < best) best = z, cell = (int)q;
      }
      json yc(d.Size(), json::array()), kc(d.Size(), json::array());
      for (int i = 0; i < d.Size(); i++) {
        int w = 0, m = 1;
        for (int q = 0; q < dim; q++) w += m * (int)std::lround(order * (at[i][q] - lo[q]) / (hi[q] - lo[q])), m *= order + 1;
        json a = json::array(), b = json::array();
        for (int f = 0; f < 6; f++) {
          a.push_back(vh::near(y[f * nd + d[i]], p["S"]));
          b.push_back(vh::near(k[f * nd + d[i]], p["S"]));
        }
        yc[w] = a;
        kc[w] = b;
      }
      ys[cell] = yc;
      ks[cell] = kc;
    }
    vh::emit({{"e", "stage"}, {"y", ys}, {"k", ks}});
  }
}
}  // namespace

int main() { return vh::serve(scenario); }
