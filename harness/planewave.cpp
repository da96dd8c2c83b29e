// Plane waves: built directly and from case files, and sampled.
#include "common.h"

#include <mfem.hpp>

#include "components/Sources.h"
#include "driver/driver.h"

using namespace maxwell;
using vh::json;

namespace {

class Affine : public maxwell::Function {
public:
  std::unique_ptr<maxwell::Function> clone() const override { return std::make_unique<Affine>(*this); }
  double eval(const maxwell::Position& p) const override { return 3.0 + p[0]; }
  int dimension() const override { return 1; }
};

mfem::Vector vec(const json& a, int n = 3) {
  mfem::Vector v(n);
  for (int i = 0; i < n; i++) v[i] = a[i];
  return v;
}

void scenario(const json& p) {
  const auto k = vec(p["k"]), pol = vec(p["p"]);
  const int N = p["N"];
  const int dim = p["dim"];
  std::unique_ptr<Source> src;
  if (p["via"] == "direct") {
    src = TotalField(Planewave(Affine(), pol, k, p["spec"] == "E" ? E : H)).clone();
    for (auto& s : p["samples"]) {
      const auto r = vec(s["r"], dim);
      const int j = s["j"];
      json o[2];
      for (int f = 0; f < 2; f++)
        for (int d = 0; d < 3; d++)
          o[f].push_back(vh::grid(src->eval(r, j / 4.0, f ? H : E, d), 4.0 * N * N, 1e-4));
      json rr = json::array();
      for (int d = 0; d < 3; d++) rr.push_back(d < dim ? (int)s["r"][d] : 0);
      vh::emit({{"e", "sample"}, {"r", rr}, {"j", j}, {"E", o[0]}, {"H", o[1]}});
    }
    return;
  }
  auto sources = driver::buildSources(p["case"], nullptr);
  mfem::Vector u(k);
  u *= 1.0 / u.Norml2();
  for (auto& s : p["samples"]) {
    mfem::Vector r = vec(s["r"]);
    const double t = (int)s["j"] / 4.0;
    const Source& w = **sources.begin();
    double e[3], h[3], e2[3], h2[3];
    mfem::Vector r2(r);
    const double go = 0.7;
    for (int d = 0; d < 3; d++) r2[d] += go * u[d];
    for (int d = 0; d < 3; d++) {
      e[d] = w.eval(r, t, E, d);
      h[d] = w.eval(r, t, H, d);
      e2[d] = w.eval(r2, t + go, E, d);
      h2[d] = w.eval(r2, t + go, H, d);
    }
    auto dot = [](const double* a, const double* b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; };
    const double x[3] = {e[1] * h[2] - e[2] * h[1], e[2] * h[0] - e[0] * h[2], e[0] * h[1] - e[1] * h[0]};
    const double uu[3] = {u[0], u[1], u[2]};
    double off = 0, mv = 0;
    for (int d = 0; d < 3; d++) {
      off = std::max(off, std::abs(x[d] - dot(e, e) * uu[d]));
      mv = std::max({mv, std::abs(e2[d] - e[d]), std::abs(h2[d] - h[d])});
    }
    // the direction of the electric field is the requested one
    double al = 0;
    const auto pn = pol.Norml2();
    const double a = dot(e, std::array<double, 3>{pol[0] / pn, pol[1] / pn, pol[2] / pn}.data());
    for (int d = 0; d < 3; d++) al = std::max(al, std::abs(e[d] - a * pol[d] / pn));
    json res = {vh::near(dot(e, uu), 1e9), vh::near(dot(h, uu), 1e9), vh::near(dot(e, h), 1e9),
                vh::near(dot(e, e) - dot(h, h), 1e9), vh::near(off, 1e9), vh::near(mv, 1e9), vh::near(al, 1e9)};
    vh::emit({{"e", "related"}, {"res", res}});
  }
}
}  // namespace

int main() { return vh::serve(scenario); }
