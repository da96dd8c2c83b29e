// Pole-residue fits of surface impedances.
// uses: components/SIBCPoleResidueFitting.cpp components/Material.cpp components/Model.cpp
#include "common.h"

#include <algorithm>
#include <complex>

#include "components/SIBCPoleResidueFitting.h"

using vh::json;
using namespace maxwell;
using Cx = std::complex<double>;

namespace {

using Vec = Eigen::VectorXcd;
using Mat = Eigen::MatrixXcd;

// The impedance of a conducting sheet.
struct Samples {
  Vec s, z;
  explicit Samples(const json& p) {
    const double eps0 = 8.8541878176203892e-12, mu0 = 1.2566370614359173e-06, pi = std::acos(-1.0);
    const int n = p["points"];
    const double f0 = p["from"], f1 = p["to"];
    s.resize(n);
    z.resize(n);
    for (int i = 0; i < n; i++) {
      const double w = 2 * pi * f0 * std::pow(f1 / f0, (double)i / (n - 1));
      const Cx eps = eps0 * (double)p["eps"] - Cx(0, (double)p["sigma"] / w), mu = mu0 * (double)p["mu"];
      s[i] = Cx(0, w);
      z[i] = std::sqrt(mu / eps) / std::tanh(s[i] * std::sqrt(mu * eps) * (double)p["width"]);
    }
  }
  double error(const Vec& poles, const Vec& residues) const {
    double top = 0;
    for (int i = 0; i < s.size(); i++) {
      Cx fit = 0;
      for (int k = 0; k < std::min(poles.size(), residues.size()); k++) fit += residues[k] / (s[i] - poles[k]);
      top = std::max(top, std::abs(fit - z[i]) / std::abs(z[i]));
    }
    return top;
  }
};

// The fit of one order: poles by linear least squares for numerator and denominator, then the residues.
struct Own { double err = 0, right = 0; };   // error, and the pole farthest to the right in units of the highest frequency
Own fitOwn(const Samples& q, int order, double noise, double pitch, bool plain) {
  const int n = q.s.size();
  const double top = std::abs(q.s[n - 1]);
  const bool relative = std::abs(q.z[0]) < std::abs(q.z[n - 1]);
  Mat A(n, 2 * order + 1);
  Vec b(n);
  for (int i = 0; i < n; i++) {
    const Cx z = q.z[i] * (1.0 + noise * std::sin(pitch * i * (i + 1.0))), s = q.s[i] / top;
    const double w = relative ? 1.0 / std::abs(z) : 1.0;
    for (int j = 0; j <= order; j++) A(i, j) = w * std::pow(s, j);
    for (int j = 1; j <= order; j++) A(i, order + j) = -w * z * std::pow(s, j);
    b(i) = w * z;
  }
  const Vec x = A.bdcSvd(Eigen::ComputeThinU | Eigen::ComputeThinV).solve(b);
  // 1 + a1 s + ... + aN s^N = 0
  Mat C = Mat::Zero(order, order);
  for (int i = 1; i < order; i++) C(i, i - 1) = 1.0;
  // plain: with roots in physical units, which loses digits when they differ in size
  for (int i = 0; i < order; i++) C(i, order - 1) = -(i ? x(order + i) : Cx(1)) / x(2 * order) * (plain ? std::pow(top, order - i) : 1.0);
  Vec poles = Eigen::ComplexEigenSolver<Mat>(C, false).eigenvalues();
  if (!plain) poles *= top;
  Own r;
  r.right = poles.real().maxCoeff() / top;
  Mat R(n, order);
  for (int i = 0; i < n; i++) for (int k = 0; k < order; k++) R(i, k) = 1.0 / (q.s[i] - poles[k]);
  r.err = q.error(poles, R.bdcSvd(Eigen::ComputeThinU | Eigen::ComputeThinV).solve(q.z));
  return r;
}

void scenario(const json& p) {
  SGBCProperties sheet;
  sheet.layers.emplace_back(Material(p["eps"], p["mu"], p["sigma"]), (double)p["width"]);
  const Samples q(p);
  std::vector<json> out;
  std::vector<double> errors{0.0};
  // fits that any search has to come across; those that depend on rounding say nothing
  for (int k = 1; k <= (int)p["limit"]; k++) {
    const Own a = fitOwn(q, k, 0, 0, false);
    auto same = [&](const Own& o) { return std::abs(o.err / a.err - 1) < 5e-3 && o.right < 0 && std::abs(o.right / a.right - 1) < 5e-3; };
    bool clear = a.right < -1e-9 && a.err > 1e-7;
    for (double pitch : {0.37, 1.1, 2.3, 5.7}) 
      for (bool plain : {false, true}) clear = clear && same(fitOwn(q, k, 1e-9, pitch, plain));
    if (!clear) continue;
    errors.push_back(a.err * 1.1);
    out.push_back({{"e", "known"}, {"n", k}, {"err", a.err * 1.1}});
  }
  auto fit = [&](const std::string& name, int limit, double tol) {
    const FitResult r = findOptimalPoles(sheet, p["from"], p["to"], p["points"], limit, tol);
    int growing = 0;
    for (int k = 0; k < r.poles.size(); k++) growing += !(r.poles[k].real() <= 1.0);
    const double e = r.N > 0 ? q.error(r.poles, r.residues) : 0.0;
    errors.push_back(r.max_error);
    errors.push_back(tol);
    out.push_back({{"e", name}, {"limit", limit}, {"tol", tol}, {"n", r.N}, {"err", r.max_error}, {"stable", r.stable},
                   {"poles", r.poles.size()}, {"residues", r.residues.size()}, {"growing", growing},
                   {"off", r.N > 0 ? vh::near(std::abs(e - r.max_error) / (e + 1e-6), 1000) : 0LL}});
  };
  for (int k = 1; k <= (int)p["limit"]; k++) fit("limited", k, 0.0);
  for (auto& a : p["asks"]) fit("asked", a[0], a[1]);
  std::sort(errors.begin(), errors.end());
  errors.erase(std::unique(errors.begin(), errors.end()), errors.end());
  auto rank = [&](double x) { return std::lower_bound(errors.begin(), errors.end(), x) - errors.begin(); };
  for (auto& o : out) {
    o["err"] = rank(o["err"]);
    if (o.contains("tol")) o["tol"] = rank(o["tol"]);
    vh::emit(o);
  }
}
}  // namespace

int main() { return vh::serve(scenario); }
