// Runs small simulations and reports every integrator step, every time a source
// is asked for, and everything the probes recorded.
#include "common.h"
#include "meshes.h"

#include "solver/Solver.h"

#include <filesystem>
#include <set>

using namespace maxwell;
using vh::json;
namespace fs = std::filesystem;

namespace {

std::vector<double> asked;  // times at which a source was evaluated

class Recorder : public EHFieldFunction {
public:
  std::unique_ptr<EHFieldFunction> clone() const override { return std::make_unique<Recorder>(*this); }
  double eval(const maxwell::Position& p, const maxwell::Time& t, const FieldType&, const Direction&) const override {
    asked.push_back(t);
    return 0.01 * std::sin(5 * p[0] + t);
  }
};

class Bumps : public maxwell::Function {
public:
  explicit Bumps(double s) : s_(s) {}
  std::unique_ptr<maxwell::Function> clone() const override { return std::make_unique<Bumps>(*this); }
  double eval(const maxwell::Position& p) const override {
    return std::sin(3.1 * p[0] + s_) + 0.5 * std::cos(2.3 * (p.Size() > 1 ? p[1] : 0.0) - 1.7 * s_ + p[0]);
  }
  int dimension() const override { return 2; }
private:
  double s_;
};

struct State {
  double t;
  std::vector<double> x;
};
std::vector<State> states;

bool close(double a, double b, double rel) { return std::abs(a - b) <= rel * (1e-3 + std::max(std::abs(a), std::abs(b))); }

// The step whose state has these values: block >= 0 compares a whole component,
// block < 0 the whole vector; subset asks only that the values occur.
int stateOf(const std::vector<double>& v, int block, int nblocks, bool subset, double rel, double t) {
  std::vector<std::pair<double, int>> order;
  for (int k = 0; k < (int)states.size(); k++) order.push_back({std::abs(states[k].t - t), k});
  std::stable_sort(order.begin(), order.end(), [](auto& a, auto& b) { return a.first < b.first; });
  for (auto& o : order) {
    const auto& x = states[o.second].x;
    const int n = (int)x.size() / 6;
    const int lo = block * n, len = nblocks * n;
    bool ok = true;
    if (!subset) {
      ok = (int)v.size() == len;
      for (int i = 0; ok && i < len; i++) ok = close(v[i], x[lo + i], rel);
    } else {
      for (double a : v) {
        bool hit = false;
        for (int i = 0; !hit && i < len; i++) hit = close(a, x[lo + i], rel);
        if (!hit) { ok = false; break; }
      }
      ok = ok && !v.empty();
    }
    if (ok) return o.second;
  }
  return -7;
}

std::vector<double> readGf(const std::string& path) {
  std::ifstream in(path);
  std::string line;
  std::vector<double> r;
  bool body = false;
  while (std::getline(in, line)) {
    if (line.empty()) { body = true; continue; }
    if (body) { std::istringstream is(line); double d; while (is >> d) r.push_back(d); }
  }
  return r;
}

int agree(const std::vector<int>& v) {
  for (int x : v) if (x != v[0]) return -8;
  return v.empty() ? -9 : v[0];
}

double fraction(const std::string& s) {
  const auto k = s.find('/');
  return std::stod(s.substr(0, k)) / std::stod(s.substr(k + 1));
}

void scenario(const json& p) {
  states.clear();
  asked.clear();
  fs::remove_all("Exports");
  const double u = fraction(p["unit"]);
  const int nx = 5, ny = 3;
  auto mesh = vh::blocks2D(nx, ny, 5, 3, {{1, 1, 2, 2, 2}, {3, 1, 4, 2, 3}});
  GeomTagToBoundary b{{1, BdrCond::PEC}};
  GeomTagToInteriorBoundary ib;
  if (p["sourced"]) ib[3] = BdrCond::TotalFieldIn;
  Model model(mesh, GeomTagToMaterialInfo(), GeomTagToBoundaryInfo(b, ib));
  model.meshName_ = "case";
  if (p["sourced"]) {
    mfem::Array<int> m(3);
    m = 0;
    m[2] = 1;
    model.getTotalFieldScatteredFieldToMarker().insert({BdrCond::TotalFieldIn, m});
  }

  Sources src;
  for (auto ft : {E, H})
    for (int d = 0; d < 3; d++) {
      mfem::Vector pol(3), c(3);
      pol = 0.0;
      c = 0.0;
      pol[d] = 1.0;
      src.add(std::make_unique<InitialField>(Bumps(0.3 + ft * 3 + d), ft, pol, c));
    }
  if (p["sourced"]) src.add(std::make_unique<TotalField>(Recorder()));

  Probes probes;
  int fieldId = 0, pointId = 0;
  const auto& plist = p["probes"];
  std::vector<std::pair<std::string, int>> where;  // kind, index within its list
  for (auto& q : plist) {
    const std::string k = q["kind"];
    const int steps = q["steps"], saves = q["saves"];
    if (k == "field") {
      FieldProbe f(E, Y, {2.3, 1.4}, steps, true);
      f.setProbeID(fieldId);
      f.setSaves(saves);
      where.push_back({k, fieldId++});
      probes.fieldProbes.push_back(f);
    } else if (k == "point") {
      PointProbe f({2.3, 1.4}, steps, true);
      f.setProbeID(pointId);
      f.setSaves(saves);
      where.push_back({k, pointId++});
      probes.pointProbes.push_back(f);
    } else if (k == "view") {
      ExporterProbe e;
      e.name = "view" + std::to_string(probes.exporterProbes.size());
      e.visSteps = steps;
      e.saves = saves;
      where.push_back({k, (int)probes.exporterProbes.size()});
      probes.exporterProbes.push_back(e);
    } else if (k == "near") {
      NearFieldProbe e;
      e.name = "near" + std::to_string(probes.nearFieldProbes.size());
      e.expSteps = steps;
      e.saves = saves;
      e.tags = {2};
      where.push_back({k, (int)probes.nearFieldProbes.size()});
      probes.nearFieldProbes.push_back(e);
    } else if (k == "snap") {
      DomainSnapshotProbe e;
      e.expSteps = steps;
      e.saves = saves;
      where.push_back({k, (int)probes.domainSnapshotProbes.size()});
      probes.domainSnapshotProbes.push_back(e);
    } else if (k == "surf") {
      RCSSurfaceProbe e;
      e.name = "surf" + std::to_string(probes.rcsSurfaceProbes.size());
      e.expSteps = steps;
      e.saves = saves;
      e.tags = {2};
      where.push_back({k, (int)probes.rcsSurfaceProbes.size()});
      probes.rcsSurfaceProbes.push_back(e);
    }
  }
  for (auto& q : p["mor"]) {
    MORStateProbe m;
    m.name = "mor" + std::to_string(probes.morStateProbes.size());
    m.record_time_start = (double)q["start"] * u;
    m.record_time_final = (double)q["final"] * u;
    m.saves = q["saves"];
    probes.morStateProbes.push_back(m);
  }
  fs::create_directories("Exports/single-core/case/SimulationStats");

  SolverOptions opts;
  opts.setOrder(1).setODEType((size_t)p["ode"]);
  double unit = u;
  if (p["auto"]) {
    SolverOptions o2 = opts;
    o2.setTimeStep(0.0).setFinalTime(1.0);
    maxwell::Solver pre(model, Probes(), src, o2);
    unit = pre.getTimeStep() / (double)p["dt"];
    opts.setTimeStep(0.0).setFinalTime((double)p["tf"] * unit);
    asked.clear();
  } else {
    opts.setTimeStep((double)p["dt"] * u).setFinalTime((double)p["tf"] * u);
  }

  const double scale = 1.0 / unit;
  mfem::StepWatch::hook() = [&](const mfem::Vector& x, double t0, double dt, double t1) {
    State s;
    s.t = t1;
    s.x.assign(x.GetData(), x.GetData() + x.Size());
    states.push_back(s);
    std::vector<long long> st;
    std::set<long long> seen;
    for (double a : asked) {
      const long long c = vh::near((a - t0) / dt, 10000);
      if (seen.insert(c).second) st.push_back(c);
    }
    asked.clear();
    vh::emit({{"e", "step"}, {"t0", vh::grid(t0, scale)}, {"dt", vh::grid(dt, scale)}, {"t1", vh::grid(t1, scale)}, {"stages", st}});
  };
  struct Unhook { ~Unhook() { mfem::StepWatch::hook() = nullptr; } } unhook;

  json rec = json::array(), mor = json::array();
  {
    maxwell::Solver solver(model, probes, src, opts);
    State s0;
    s0.t = 0;
    const auto& all = solver.getFields().allDOFs();
    s0.x.assign(all.GetData(), all.GetData() + all.Size());
    states.push_back(s0);
    asked.clear();
    vh::emit({{"e", "shown"}, {"t", vh::grid(solver.getTime(), scale)}});
    for (auto& c : p["calls"]) {
      if (c == 0)
        solver.run();
      else
        for (int i = 0; i < (int)c; i++) solver.step();
      vh::emit({{"e", "shown"}, {"t", vh::grid(solver.getTime(), scale)}});
    }

    // movies: value at a point; the state is identified through the same evaluation
    auto pointValue = [&](const State& s, int comp) {
      static mfem::DenseMatrix pt(2, 1);
      pt(0, 0) = 2.3;
      pt(1, 0) = 1.4;
      mfem::Array<int> el;
      mfem::Array<mfem::IntegrationPoint> ip;
      solver.getModel().getMesh().FindPoints(pt, el, ip);
      auto& fes = solver.getFES();
      mfem::ParGridFunction g(&fes);
      const int n = fes.GetNDofs();
      for (int i = 0; i < n; i++) g[i] = s.x[comp * n + i];
      return g.GetValue(el[0], ip[0]);
    };
    for (auto& w : where) {
      json r = json::array();
      if (w.first == "field") {
        for (auto& [t, v] : solver.getFieldProbe(w.second).getFieldMovie()) {
          int id = -7;
          for (int k = 0; k < (int)states.size(); k++)
            if (std::abs(states[k].t - t) < 0.25 * unit && close(pointValue(states[k], 1), v, 1e-9)) id = k;
          r.push_back({id, vh::grid(t, scale), id});
        }
      } else if (w.first == "point") {
        for (auto& [t, f] : solver.getPointProbe(w.second).getFieldMovies()) {
          const double v[6] = {f.Ex, f.Ey, f.Ez, f.Hx, f.Hy, f.Hz};
          int id = -7;
          for (int k = 0; k < (int)states.size(); k++) {
            bool ok = std::abs(states[k].t - t) < 0.25 * unit;
            for (int c = 0; ok && c < 6; c++) ok = close(pointValue(states[k], c), v[c], 1e-9);
            if (ok) id = k;
          }
          r.push_back({id, vh::grid(t, scale), id});
        }
      }
      rec.push_back(r);
    }
  }  // files are complete once the solver is gone

  for (size_t i = 0; i < where.size(); i++) {
    const auto& w = where[i];
    json r = json::array();
    auto cyclesIn = [](const std::string& dir, const std::string& prefix) {
      std::vector<std::pair<int, std::string>> v;
      if (fs::exists(dir))
        for (auto& e : fs::directory_iterator(dir)) {
          const std::string n = e.path().filename().string();
          if (n.rfind(prefix, 0) == 0 && n.size() > prefix.size() && isdigit(n[prefix.size()])) v.push_back({std::stoi(n.substr(prefix.size())), e.path().string()});
        }
      std::sort(v.begin(), v.end());
      return v;
    };
    const char* names[6] = {"Ex.gf", "Ey.gf", "Ez.gf", "Hx.gf", "Hy.gf", "Hz.gf"};
    if (w.first == "field" || w.first == "point") {
      // the file must repeat the movie
      const bool fld = w.first == "field";
      std::ifstream in(std::string("Exports/single-core/case/") + (fld ? "FieldProbes/FieldProbe" : "PointProbes/PointProbe") + std::to_string(w.second) + ".dat");
      std::string line;
      int rows = 0, header = 0;
      bool same = true;
      while (std::getline(in, line)) {
        if (header < 4) { header++; continue; }
        std::istringstream is(line);
        double t;
        is >> t;
        const double tt = t * physicalConstants::speedOfLight_SI;
        if (rows < (int)rec[i].size()) {
          const double want = (double)(long long)rec[i][rows][1] * unit;
          if (std::abs(tt - want) > 1e-4 * std::max(1e-3, std::abs(want))) same = false;
        }
        rows++;
      }
      if (rows != (int)rec[i].size() || !same) rec[i].push_back({-5, -5, -5});
      continue;
    }
    if (w.first == "view") {
      const std::string base = "Exports/ParaView/single-core/view" + std::to_string(w.second);
      std::ifstream pvd(base + "/view" + std::to_string(w.second) + ".pvd");
      std::string line;
      while (std::getline(pvd, line)) {
        const auto a = line.find('"');
        if (a == std::string::npos) continue;
        const double t = std::stod(line.substr(a + 1));
        const auto c = line.find("Cycle");
        if (c == std::string::npos) continue;
        const int cyc = std::stoi(line.substr(c + 5));
        char dir[64];
        snprintf(dir, sizeof dir, "/Cycle%06d/proc000000.vtu", cyc);
        std::ifstream in(base + dir);
        std::string tok;
        std::map<std::string, std::vector<double>> f;
        while (in >> tok)
          if (tok == "field") {
            std::string n;
            int k;
            in >> n >> k;
            for (int j = 0; j < k; j++) { double d; in >> d; f[n].push_back(d); }
          }
        // the exported time is rounded to a thousandth: report the step whose time it is
        long long tk = -6;
        for (auto& s : states)
          if (std::abs(std::round(s.t * 1e3) / 1e3 - t) < 1e-9 && (tk < 0 || std::abs(s.t - states[std::min<size_t>(cyc, states.size() - 1)].t) < 1e-15)) tk = vh::grid(s.t, scale);
        const int id = agree({stateOf(f["E"], 0, 3, false, 1e-9, t), stateOf(f["H"], 3, 3, false, 1e-9, t)});
        r.push_back({cyc, tk, id});
      }
    } else if (w.first == "near") {
      const std::string nm = "near" + std::to_string(w.second);
      for (auto& [cyc, dir] : cyclesIn("Exports/single-core/case/NearToFarFieldProbes/" + nm + "/rank0", nm + "_")) {
        double t = -1;
        std::ifstream(dir + "/time.txt") >> t;
        std::vector<int> ids;
        for (int c = 0; c < 6; c++) ids.push_back(stateOf(readGf(dir + "/" + names[c]), c, 1, true, 2e-5, t));
        r.push_back({cyc, vh::grid(t, scale, 1e-3), agree(ids)});
      }
    } else if (w.first == "snap") {
      for (auto& [cyc, dir] : cyclesIn("Exports/single-core/case/DomainSnapshotProbes/rank_0", "cycle_")) {
        double t = -1;
        std::ifstream(dir + "/time.txt") >> t;
        std::vector<int> ids;
        for (int c = 0; c < 6; c++) ids.push_back(stateOf(readGf(dir + "/" + names[c]), c, 1, false, 2e-5, t));
        r.push_back({cyc, vh::grid(t, scale, 1e-3), agree(ids)});
      }
    } else if (w.first == "surf") {
      std::ifstream in("Exports/single-core/case/RCSSurface/surf" + std::to_string(w.second) + "/rank0/surface_data.bin", std::ios::binary);
      int32_t h[5] = {0, 0, 0, 0, 0};
      in.read((char*)h, sizeof h);
      in.ignore((std::streamsize)h[3] * (h[0] + 3 + 1) * 8);
      double t;
      while (in.read((char*)&t, 8)) {
        std::vector<int> ids;
        for (int c = 0; c < 6; c++) {
          std::vector<double> v(h[1]);
          in.read((char*)v.data(), 8 * h[1]);
          ids.push_back(stateOf(v, c, 1, true, 1e-12, t));
        }
        const int id = agree(ids);
        r.push_back({id, vh::grid(t, scale), id});
      }
    }
    rec[i] = r;
  }
  for (size_t k = 0; k < p["mor"].size(); k++) {
    json r = json::array();
    const std::string dir = "Exports/single-core/case/MORStateProbes/mor" + std::to_string(k);
    int files = 0;
    if (fs::exists(dir))
      for (auto& e : fs::directory_iterator(dir)) files += e.path().filename().string().rfind("x_", 0) == 0;
    for (int n = 0; n < files; n++) {
      std::ifstream in(dir + "/x_" + std::to_string(n));
      double t = -1;
      int size = -1;
      in >> t >> size;
      std::vector<double> v;
      double d;
      while (in >> d) v.push_back(d);
      const int id = (int)v.size() == size ? stateOf(v, 0, 6, false, 1e-12, t) : -4;
      r.push_back({id, vh::grid(t, scale), id});
    }
    mor.push_back(r);
  }
  vh::emit({{"e", "records"}, {"rec", rec}, {"mor", mor}});
  vh::emit({{"e", "end"}, {"t", vh::grid(states.back().t, scale)}});
  fs::remove_all("Exports");
}

}  // namespace

int main() { return vh::serve(scenario); }
