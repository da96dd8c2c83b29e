// The field of a dipole source around points, as whole numbers relative to the
// largest value met there.
#include "problem.h"

using vh::json;

namespace {

using Six = std::array<double, 6>;

Six at(const maxwell::Source& s, double x, double y, double z, double t) {
  mfem::Vector p({x, y, z});
  Six r;
  for (int d = 0; d < 3; d++) {
    r[d] = s.eval(p, t, maxwell::E, d);
    r[3 + d] = s.eval(p, t, maxwell::H, d);
  }
  return r;
}

int out = 0;  // values that are no numbers, or far above the others

json whole(const Six& v, double scale) {
  json r = json::array();
  for (double x : v) {
    const bool fits = std::abs(x * scale) < 9e7;
    if (!fits) out++;
    r.push_back(fits ? vh::near(x, scale) : 0);
  }
  return r;
}

double top(const Six& v) {
  double m = 0;
  for (double x : v) m = std::max(m, std::abs(x));
  return m;
}

std::unique_ptr<maxwell::Source> dipole(double length, double spread, double delay) {
  return vh::makeSource({{"kind", "dipole"}, {"length", length}, {"spread", spread}, {"mean", delay}});
}

void scenario(const json& p) {
  const double len = p["length"], spread = p["spread"], delay = p["delay"];
  auto s = dipole(len, spread, delay), longer = dipole(2 * len, spread, delay), later = dipole(len, spread, delay + 1.5 * spread);
  for (auto& q : p["points"]) {
    const double x = q["at"][0], y = q["at"][1], z = q["at"][2];
    const double r = std::sqrt(x * x + y * y + z * z), h = std::min(r, spread) / 32;
    const double t = delay + r + (double)q["late"] * spread;
    // along x, y, z and in time: two points on each side
    std::vector<std::vector<Six>> f(4, std::vector<Six>(4));
    double m = 0;
    const int k[4] = {-2, -1, 1, 2};
    for (int a = 0; a < 4; a++)
      for (int i = 0; i < 4; i++) {
        double w[4] = {x, y, z, t};
        w[a] += k[i] * h;
        f[a][i] = at(*s, w[0], w[1], w[2], w[3]);
        m = std::max(m, top(f[a][i]));
      }
    const Six c = at(*s, x, y, z, t);
    m = std::max(m, top(c));
    if (!(m > 0)) m = 1;
    const double g = 2e7 / m;
    out = 0;
    json lines = json::array();
    for (auto& l : f) {
      json line = json::array();
      for (auto& v : l) line.push_back(whole(v, g));
      lines.push_back(line);
    }
    json ev = {{"e", "field"}, {"lines", lines}, {"here", whole(c, g)},
               {"turned", whole(at(*s, 0.6 * x - 0.8 * y, 0.8 * x + 0.6 * y, z, t), g)},
               {"longer", whole(at(*longer, x, y, z, t), g)},
               {"later", whole(at(*later, x, y, z, t + 1.5 * spread), g)}};
    ev["out"] = out;
    vh::emit(ev);
    // long before and long after, against the largest meanwhile
    double peak = 0;
    for (int i = -64; i <= 64; i++) peak = std::max(peak, top(at(*s, x, y, z, delay + r + i * spread / 16)));
    vh::emit({{"e", "still"}, {"before", vh::near(top(at(*s, x, y, z, delay + r - 8 * spread)), 1e9 / peak)},
              {"after", vh::near(top(at(*s, x, y, z, delay + r + 8 * spread)), 1e9 / peak)}});
  }
}
}  // namespace

int main() { return vh::serve(scenario); }
