// Loads case files through the launcher's entry point and reports what was understood.
#include "problem.h"

#include <filesystem>

using namespace maxwell;
using vh::json;

namespace {

long long milli(double x) { return vh::grid(x, 1000, 1e-6); }

json point(const std::vector<double>& p) {
  json r = json::array();
  for (double x : p) r.push_back(milli(x));
  return r;
}

json six(const Source& s, const json& at, double t) {
  json r = json::array();
  const auto p = vh::vec(at);
  for (auto f : {E, H})
    for (auto d : {X, Y, Z}) r.push_back(vh::near(s.eval(p, t, f, d), 1000));
  return r;
}

bool same(const Source& a, const Source& b, const json& at) {
  for (auto& q : at)
    for (double t : {0.0, 0.75, 2.5})
      for (auto f : {E, H})
        for (auto d : {X, Y, Z}) {
          const double x = a.eval(vh::vec(q), t, f, d), y = b.eval(vh::vec(q), t, f, d);
          if (!(std::abs(x - y) <= 1e-9 * (1 + std::abs(x)))) return false;
        }
  return true;
}

std::unique_ptr<Source> reference(const json& w) {
  const std::string k = w["ref"];
  if (k == "dipole") return std::make_unique<TotalField>(DerivGaussDipole(w["length"], w["spread"], w["mean"]));
  const FieldType f = w["f"] == "electric" ? E : H;
  if (k == "besselj6_2D") return std::make_unique<InitialField>(BesselJ6(), f, vh::vec(w["pol"]), vh::vec({0.0, 0.0, 0.0}));
  return std::make_unique<InitialField>(SphericalBesselJ6(), f, vh::vec(w["pol"]), vh::vec({0.0, 0.0, 0.0}));
}

const char* name(EvolutionOperatorType t) {
  return t == EvolutionOperatorType::Global ? "global" : t == EvolutionOperatorType::Maxwell ? "maxwell" : "hesthaven";
}

void scenario(const json& p) {
  namespace fs = std::filesystem;
  const std::string folder = p["folder"], file = folder + "/" + (std::string)p["json"] + ".json";
  fs::remove_all("Exports");
  fs::remove_all(folder);
  fs::create_directories(folder);
  if (p.contains("msh")) vh::writeGmsh(folder + "/" + (std::string)p["msh"], p["nodes"], p["els"]);
  const json& c = p["case"];
  { std::ofstream(file) << c.dump(1); }
  try {
    auto solver = driver::buildSolverJson(file, false);
    const SolverOptions& o = solver.getSolverOptions();
    json ev = {{"e", "loaded"}};
    ev["opts"] = {{"alpha", milli(o.evolution.alpha)}, {"dt", milli(o.time_step)}, {"final", milli(o.final_time)},
                  {"cfl", milli(o.cfl)}, {"order", o.evolution.order}, {"spectral", (bool)o.evolution.spectral},
                  {"export", (bool)o.evolution.export_evolution_operator}, {"op", name(o.evolution.op)},
                  {"basis", (int)o.basis_type}, {"ode", (int)o.ode_type}};
    // the number of steps of the run, which the number of saves is shared out over
    const long total = (long)std::ceil(o.final_time / solver.getTimeStep());
    ev["total"] = total;
    ev["step"] = o.time_step > 0 ? milli(solver.getTimeStep()) : 0;

    const auto pr = driver::buildProbes(c);
    json pj;
    pj["exporter"] = json::array();
    for (auto& x : pr.exporterProbes) pj["exporter"].push_back({{"name", x.name}, {"every", x.visSteps}, {"saves", x.saves}});
    pj["domain_snapshot"] = json::array();
    for (auto& x : pr.domainSnapshotProbes) pj["domain_snapshot"].push_back({{"name", x.name}, {"every", x.expSteps}, {"saves", x.saves}});
    pj["farfield"] = json::array();
    for (auto& x : pr.nearFieldProbes) pj["farfield"].push_back({{"name", x.name}, {"every", x.expSteps}, {"saves", x.saves}, {"tags", x.tags}});
    pj["rcssurface"] = json::array();
    for (auto& x : pr.rcsSurfaceProbes) pj["rcssurface"].push_back({{"name", x.name}, {"every", x.expSteps}, {"saves", x.saves}, {"tags", x.tags}});
    pj["mor_state"] = json::array();
    for (auto& x : pr.morStateProbes)
      pj["mor_state"].push_back({{"name", x.name}, {"from", milli(x.record_time_start)}, {"to", milli(x.record_time_final)}, {"saves", x.saves}});
    // the point-like ones as the solver ended up with them
    pj["point"] = json::array();
    for (size_t i = 0; i < pr.pointProbes.size(); i++) {
      const auto& x = solver.getPointProbe(i);
      pj["point"].push_back({{"at", point(x.getPoint())}, {"every", x.getVisSteps()}});
    }
    pj["field"] = json::array();
    for (size_t i = 0; i < pr.fieldProbes.size(); i++) {
      const auto& x = solver.getFieldProbe(i);
      pj["field"].push_back({{"at", point(x.getPoint())}, {"every", x.getVisSteps()},
                             {"f", x.getFieldType() == E ? "electric" : "magnetic"},
                             {"d", std::string(1, "XYZ"[x.getDirection()])}});
    }
    ev["probes"] = pj;

    auto& mesh = solver.getModel().getMesh();
    json tf = json::array();
    auto& tm = solver.getModel().getTotalFieldScatteredFieldToMarker();
    auto it = tm.find(BdrCond::TotalFieldIn);
    if (it != tm.end())
      for (int a = 0; a < it->second.Size(); a++)
        if (it->second[a]) tf.push_back(a + 1);
    ev["tfsf"] = tf;
    ev["cells"] = mesh.GetNE();

    const auto src = driver::buildSources(c, &mesh);
    json sj = json::array();
    size_t k = 0;
    for (const auto& s : src) {
      const json w = k < p["look"].size() ? p["look"][k] : json::object();
      k++;
      if (w.contains("ref")) sj.push_back({{"same", same(*s, *reference(w), w["at"])}});
      else {
        json v = json::array();
        if (w.contains("at"))
          for (auto& q : w["at"]) v.push_back(six(*s, q, 0.0));
        sj.push_back({{"v", v}});
      }
    }
    ev["sources"] = sj;
    vh::emit(ev);
  } catch (const std::exception& e) {
    vh::emit({{"e", "refused"}, {"what", std::string(e.what()).substr(0, 160)}});
  }
  fs::remove_all(folder);
  fs::remove_all("Exports");
}

}  // namespace

int main() { return vh::serve(scenario); }
