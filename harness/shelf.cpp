// Operations on collections of sources.
// uses: components/Sources.cpp components/Spherical.cpp
// flags: -fsanitize=address
#include "common.h"

#include <mfem.hpp>

#include "components/Sources.h"

#include <map>
#include <memory>

using namespace maxwell;
using vh::json;

namespace {

// Counts its live instances and remembers whether it was destroyed.
struct Canary {
  unsigned magic = 0x5eed5eed;
  Canary() = default;
  Canary(const Canary&) {}
  ~Canary() { magic = 0xdead; }
  void check() const { if (magic != 0x5eed5eed) throw std::runtime_error("a destroyed function was evaluated"); }
};

class OwnFunction : public maxwell::Function {
public:
  explicit OwnFunction(double v) : v_(v) {}
  std::unique_ptr<maxwell::Function> clone() const override { c_.check(); return std::make_unique<OwnFunction>(*this); }
  double eval(const maxwell::Position& p) const override { c_.check(); return v_ + p[0]; }
  int dimension() const override { return 1; }
private:
  double v_;
  Canary c_;
};

class OwnField : public EHFieldFunction {
public:
  explicit OwnField(double v) : v_(v) {}
  std::unique_ptr<EHFieldFunction> clone() const override { c_.check(); return std::make_unique<OwnField>(*this); }
  double eval(const maxwell::Position& p, const maxwell::Time& t, const FieldType& f, const Direction& d) const override {
    c_.check();
    return v_ + t * p[0] + f + 10 * d;
  }
private:
  double v_;
  Canary c_;
};

mfem::Vector vec(std::initializer_list<double> l) {
  mfem::Vector v((int)l.size());
  int i = 0;
  for (double x : l) v[i++] = x;
  return v;
}

std::unique_ptr<Source> make(int kind) {
  const auto c = vec({0.1, -0.2, 0.3}), px = vec({1, 0, 0}), py = vec({0, 0.6, 0.8});
  switch (kind) {
    case 1: return std::make_unique<InitialField>(Gaussian(0.7, vec({0.2}), 1), E, py, c);
    case 2: return std::make_unique<InitialField>(Gaussian(0.7, vec({0.2, 0.1, -0.3}), 3), H, px, c);
    case 3: return std::make_unique<InitialField>(SinusoidalMode({1, 2, 1}), E, px, c);
    case 4: return std::make_unique<InitialField>(BesselJ6(), E, px, c);
    case 5: return std::make_unique<InitialField>(OwnFunction(3.5), H, py, c);
    case 6: return std::make_unique<TotalField>(Planewave(Gaussian(1.5, vec({-1.0}), 1), py, px, E));
    case 7: return std::make_unique<TotalField>(Planewave(ModulatedGaussian(1.5, vec({-1.0}), 0.3, 1), vec({2, 0, 0}), vec({0, -3, 4}), H));
    case 8: return std::make_unique<TotalField>(DerivGaussDipole(0.3, 0.9, 1.2));
    case 9: return std::make_unique<TotalField>(OwnField(-4.25));
    default: return std::make_unique<TotalField>(Planewave(OwnFunction(0.25), px, vec({0, 0, 1}), E));
  }
}

std::vector<double> answers(const Source& s) {
  std::vector<double> r;
  for (auto& p : {vec({0.31, 0.17, 0.23}), vec({-0.4, 0.9, 0.6})})
    for (double t : {0.0, 0.75, 2.5})
      for (auto f : {E, H})
        for (auto d : {X, Y, Z}) r.push_back(s.eval(p, t, f, d));
  return r;
}

std::map<int, std::vector<double>> reference() {
  std::map<int, std::vector<double>> r;
  for (int k = 1; k <= 10; k++) r[k] = answers(*make(k));
  return r;
}

void scenario(const json& p) {
  static const auto ref = reference();
  std::map<int, std::unique_ptr<Sources>> box;
  for (auto& op : p["ops"]) {
    const std::string o = op["op"];
    json ev = op;
    ev.erase("op");
    ev.erase("how");
    ev["e"] = o;
    if (o == "make") box[op["b"]] = std::make_unique<Sources>();
    else if (o == "destroy") box[op["b"]].reset();
    else if (o == "add") {
      auto& b = *box[op["b"]];
      const int k = op["k"];
      const std::string how = op["how"];
      if (how == "owned") b.add(make(k));
      else if (how == "copied") { auto s = make(k); b.add(*s); }
      else {  // by way of a clone of a clone whose originals are gone
        std::unique_ptr<Source> s;
        { auto t = make(k); s = t->clone(); }
        b.add(*s);
      }
    } else if (o == "copynew") box[op["b"]] = std::make_unique<Sources>(*box[op["a"]]);
    else if (o == "assign") *box[op["b"]] = *box[op["a"]];
    else if (o == "movenew") box[op["b"]] = std::make_unique<Sources>(std::move(*box[op["a"]]));
    else if (o == "moveassign") *box[op["b"]] = std::move(*box[op["a"]]);
    else if (o == "look") {
      json has = json::array();
      const Sources& b = *box[op["b"]];
      for (const auto& s : b) {
        int k = -1;
        if (!s) k = -2;
        else {
          const auto a = answers(*s);
          for (auto& r : ref) if (r.second == a) k = r.first;
        }
        has.push_back(k);
      }
      if (has.size() != b.size()) has.push_back(-3);
      ev["has"] = has;
    }
    vh::emit(ev);
  }
}
}  // namespace

int main() { return vh::serve(scenario); }
