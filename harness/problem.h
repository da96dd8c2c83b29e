// Whole problems from JSON: case, mesh, sources, options; shared by the drivers
// that look at initial states and rates of change.
#pragma once
#include "gmsh.h"

#include "components/Sources.h"
#include "driver/driver.h"
#include "solver/Solver.h"

namespace vh {

// Affine in position and time, with small integer coefficients: c[f][d] = [c0, cx, cy, cz, ct].
class AffineField : public maxwell::EHFieldFunction {
public:
  explicit AffineField(const json& c) : c_(c) {}
  std::unique_ptr<maxwell::EHFieldFunction> clone() const override { return std::make_unique<AffineField>(c_); }
  double eval(const maxwell::Position& p, const maxwell::Time& t, const maxwell::FieldType& f,
              const maxwell::Direction& d) const override {
    const json& c = c_[f == maxwell::E ? 0 : 1][d];
    double r = (double)c[0] + (double)c[4] * t;
    for (int i = 0; i < p.Size() && i < 3; i++) r += (double)c[1 + i] * p[i];
    return r;
  }

private:
  json c_;
};

class AffineScalar : public maxwell::Function {
public:
  explicit AffineScalar(const json& c) : c_(c) {}
  std::unique_ptr<maxwell::Function> clone() const override { return std::make_unique<AffineScalar>(c_); }
  double eval(const maxwell::Position& p) const override {
    double r = c_[0];
    for (int i = 0; i < p.Size() && i < 3; i++) r += (double)c_[1 + i] * p[i];
    return r;
  }
  int dimension() const override { return 3; }

private:
  json c_;
};

inline mfem::Vector vec(const json& a) {
  mfem::Vector v((int)a.size());
  for (int i = 0; i < v.Size(); i++) v[i] = a[i];
  return v;
}

inline std::unique_ptr<maxwell::Source> makeSource(const json& s) {
  using namespace maxwell;
  const std::string k = s["kind"];
  if (k == "affine") return std::make_unique<TotalField>(AffineField(s["c"]));
  if (k == "wave")
    return std::make_unique<TotalField>(Planewave(Gaussian((double)s["spread"], mfem::Vector({(double)s["mean"]})),
                                                  vec(s["pol"]), vec(s["prop"]), s["f"] == "E" ? E : H));
  if (k == "dipole")
    return std::make_unique<TotalField>(DerivGaussDipole((double)s["length"], (double)s["spread"], (double)s["mean"]));
  const FieldType f = s["f"] == "E" ? E : H;
  if (k == "start") return std::make_unique<InitialField>(AffineScalar(s["c"]), f, vec(s["pol"]), vec(s["center"]));
  if (k == "bump")
    return std::make_unique<InitialField>(Gaussian((double)s["spread"], vec(s["at"]), (int)s["at"].size()), f,
                                          vec(s["pol"]), vec(s["center"]));
  throw std::runtime_error("driver: unknown source kind");
}

inline maxwell::Model makeModel(const json& p) {
  using namespace maxwell;
  const auto path = writeCase("problem", p["case"], p["nodes"], p["els"]);
  auto model = driver::buildModel(p["case"], path, false);
  auto& mesh = model.getMesh();
  if (p.contains("tfsf") && p["tfsf"].size()) {
    mfem::Array<int> m(mesh.bdr_attributes.Max());
    m = 0;
    for (int t : p["tfsf"]) m[t - 1] = 1;
    model.getTotalFieldScatteredFieldToMarker().insert(std::make_pair(BdrCond::TotalFieldIn, m));
  }
  if (p.contains("sgbc") && p["sgbc"].size()) {
    mfem::Array<int> m(mesh.bdr_attributes.Max());
    m = 0;
    for (int t : p["sgbc"]) m[t - 1] = 1;
    model.getSGBCToMarker().insert(std::make_pair(BdrCond::SGBC, m));
  }
  return model;
}

inline maxwell::SolverOptions makeOptions(const json& o) {
  using namespace maxwell;
  SolverOptions r;
  r.setOrder(o.value("order", 1));
  r.setTimeStep(o.value("dt", 0.01));
  r.setFinalTime(o.value("final", 1.0));
  r.setUpwindAlpha(o.value("alpha", 1.0));
  r.basis_type = o.value("basis", (int)mfem::BasisType::GaussLobatto);
  r.ode_type = o.value("ode", 0);
  const std::string op = o.value("op", "global");
  r.evolution.op = op == "global" ? EvolutionOperatorType::Global
                   : op == "maxwell" ? EvolutionOperatorType::Maxwell : EvolutionOperatorType::Hesthaven;
  return r;
}

inline json scaled(const mfem::Vector& v, double scale) {
  json r = json::array();
  const double* d = v.HostRead();
  for (int i = 0; i < v.Size(); i++) r.push_back(near(d[i], scale));
  return r;
}

// Small multiples of 1/4, the same for the same seed.
inline mfem::Vector trial(int n, unsigned seed) {
  mfem::Vector x(n);
  unsigned long long z = seed * 2654435761ULL + 12345;
  for (int i = 0; i < n; i++) {
    z = z * 6364136223846793005ULL + 1442695040888963407ULL;
    x[i] = ((int)((z >> 40) % 33) - 16) / 4.0;
  }
  return x;
}

}  // namespace vh
