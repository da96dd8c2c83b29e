// Sources as the driver builds them from a case, watched at points of their
// total-field surface.
#include "problem.h"

using vh::json;
using namespace maxwell;

namespace {

double level(const Source& s, const mfem::Vector& x, double t) {
  double r = 0;
  for (auto f : {E, H})
    for (auto d : {X, Y, Z}) r += std::pow(s.eval(x, t, f, d), 2);
  return std::sqrt(r);
}

void scenario(const json& p) {
  const auto path = vh::writeCase("delay", p["case"], p["nodes"], p["els"]);
  auto model = driver::buildModel(p["case"], path, false);
  const Sources sources = driver::buildSources(p["case"], &model.getConstMesh());
  const Source& s = **sources.begin();
  const double w = p["spread"];
  std::unique_ptr<TotalField> same;
  if (p["given"] && p["kind"] == "dipole")
    same = std::make_unique<TotalField>(DerivGaussDipole((double)p["length"], w, (double)p["mean"]));
  json quiet = json::array(), top = json::array();
  double differs = 0;
  for (auto& q : p["points"]) {
    const mfem::Vector x = vh::vec(q);
    const int n = (int)((double)p["until"] / w * 16) + 2;
    std::vector<double> v(n);
    for (int k = 0; k < n; k++) {
      v[k] = level(s, x, k * w / 16);
      if (same)
        for (auto f : {E, H})
          for (auto d : {X, Y, Z}) differs = std::max(differs, std::abs(s.eval(x, k * w / 16, f, d) - same->eval(x, k * w / 16, f, d)));
    }
    const int m = (int)(std::max_element(v.begin(), v.end()) - v.begin());
    quiet.push_back(v[0] > 0 ? vh::near(std::min(-10 * std::log10(v[0] / v[m]), 1e4), 1) : 10000LL);
    double t = -1;
    if (m > 0 && m < n - 1) {
      const double a = std::log(v[m - 1]), b = std::log(v[m]), c = std::log(v[m + 1]);
      t = (m + 0.5 * (a - c) / (a - 2 * b + c)) * w / 16;
    }
    top.push_back(t < 0 ? (m == 0 ? 0LL : -1LL) : vh::near(t, 1000));
  }
  vh::emit({{"e", "watch"}, {"quiet", quiet}, {"top", top}, {"differs", vh::near(differs, 1e6)}});
}
}  // namespace

int main() { return vh::serve(scenario); }
