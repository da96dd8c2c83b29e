// Makes, copies and asks materials.
// uses: components/Material.cpp nomfem
#include "common.h"

#include "components/Material.h"

#include <map>
#include <memory>

using namespace maxwell;
using vh::json;

namespace {

double number(const json& x) {
  double v = std::ldexp((double)(int)x["n"] / (double)(int)x["d"], (int)x["p"]);
  const int u = x["ulp"];
  if (u) v = std::nextafter(v, u > 0 ? INFINITY : -INFINITY);
  return v;
}
double conductivity(const json& g) { return strtod(std::string(g["v"]).c_str(), nullptr); }

struct Held {
  std::shared_ptr<Material> m;
  json in;
};

void scenario(const json& p) {
  std::map<int, Held> shelf;
  // what a value read back equals, bit for bit
  auto which = [](double v, const json& in, bool cond) -> json {
    const double w = cond ? conductivity(in) : number(in);
    if (v == w) return in;
    return json{{"other", v}};
  };
  auto ask = [&](int k, const std::string& what, const std::function<double(const Material&)>& f, int num, int den, int pow) {
    try {
      const double v = f(*shelf[k].m);
      const double w = std::ldexp(v * v, -pow) * den;
      vh::emit({{"e", "asked"}, {"k", k}, {"what", what}, {"den", den}, {"num", vh::grid(w, 1.0, 1e-9 * (1 + std::abs(num)))}});
    } catch (const std::exception&) {
      vh::emit({{"e", "declined"}, {"k", k}, {"what", what}});
    }
  };
  for (auto& op : p["ops"]) {
    const std::string o = op["op"];
    if (o == "make") {
      const int k = op["k"];
      try {
        auto m = std::make_shared<Material>(number(op["in"]["e"]), number(op["in"]["m"]), conductivity(op["in"]["g"]));
        shelf[k] = {m, op["in"]};
        vh::emit({{"e", "made"}, {"k", k}, {"in", op["in"]}});
      } catch (const std::exception&) {
        vh::emit({{"e", "refused"}, {"k", k}, {"in", op["in"]}});
      }
    } else if (o == "copy") {
      const int a = op["a"], b = op["b"];
      if (!shelf.count(a)) continue;
      if (shelf.count(b)) *shelf[b].m = *shelf[a].m, shelf[b].in = shelf[a].in;
      else shelf[b] = {std::make_shared<Material>(*shelf[a].m), shelf[a].in};
      vh::emit({{"e", "copied"}, {"a", a}, {"b", b}});
    } else {
      const int k = op["k"];
      if (!shelf.count(k)) continue;
      const auto& in = shelf[k].in;
      const auto &e = in["e"], &m = in["m"];
      const int en = e["n"], ed = e["d"], ep = e["p"], mn = m["n"], md = m["d"], mp = m["p"];
      if (o == "holds") {
        const Material& x = *shelf[k].m;
        vh::emit({{"e", "holds"}, {"k", k}, {"eps", which(x.getPermittivity(), e, false)},
                  {"mu", which(x.getPermeability(), m, false)}, {"sigma", which(x.getConductivity(), in["g"], true)}});
      } else if (o == "impedance") {
        ask(k, o, [](const Material& x) { return x.getImpedance(); }, mn * ed, md * en, mp - ep);
      } else if (o == "admittance") {
        ask(k, o, [](const Material& x) { return x.getAdmittance(); }, en * md, ed * mn, ep - mp);
      } else if (o == "speed") {
        ask(k, o, [](const Material& x) { return x.getSpeedOfWave(); }, ed * md, en * mn, -ep - mp);
      } else if (o == "pair") {
        try {
          const Material& x = *shelf[k].m;
          const double z = x.getImpedance(), y = x.getAdmittance(), v = x.getSpeedOfWave();
          vh::emit({{"e", "pair"}, {"k", k}, {"zy", vh::near(z * y, 1e6)},
                    {"v", vh::near(v * std::sqrt(x.getPermittivity()) * std::sqrt(x.getPermeability()), 1e6)},
                    {"positive", z > 0 && y > 0 && v > 0}});
        } catch (const std::exception&) {
          vh::emit({{"e", "declined"}, {"k", k}, {"what", o}});
        }
      }
    }
  }
}
}  // namespace

int main() { return vh::serve(scenario); }
