// Exports surface fields rank by rank, reads the files back, cuts them short and
// has the far field computed from what is left.
#include "gmsh.h"

#include "components/RCSSurfacePostProcessor.h"
#include "driver/driver.h"
#include "math/PhysicalConstants.h"
#include "solver/ProbesManager.h"

namespace fs = std::filesystem;
using namespace maxwell;
using vh::json;

namespace {

struct Pretend {
  Pretend(int size, int rank, const json& part) {
    minimpi_pretend() = size;
    minimpi_pretend_rank() = rank;
    mfem::Mesh::partition_script() = [&part](mfem::Mesh& m, int n, int* p) {
      for (int e = 0; e < m.GetNE(); e++) p[e] = (int)part[e] % n;
    };
  }
  ~Pretend() {
    minimpi_pretend() = 0;
    minimpi_pretend_rank() = 0;
    mfem::Mesh::partition_script() = nullptr;
  }
};

// c: per component [constant, slopes]
double value(const json& c, const mfem::Vector& x) {
  double r = c[0];
  for (int i = 0; i < x.Size(); i++) r += (double)c[1 + i] * x[i];
  return r;
}

void exportRank(const json& s, const std::string& path, int rank) {
  Pretend as(s["ranks"], rank, s["part"]);
  auto model = driver::buildModel(s["case"], path, false);
  auto probes = driver::buildProbes(s["case"]);
  mfem::DG_FECollection fec(s["order"], model.getMesh().Dimension(), mfem::BasisType::GaussLobatto);
  mfem::ParFiniteElementSpace fes(&model.getMesh(), &fec);
  Fields<mfem::ParFiniteElementSpace, mfem::ParGridFunction> fields(fes);
  SolverOptions o;
  o.setFinalTime(1e6);
  ProbesManager pm(probes, fes, fields, o);
  pm.setCaseName("surf");
  for (auto& snap : s["snaps"]) {
    for (auto f : {E, H})
      for (auto d : {X, Y, Z}) {
        const json& c = snap["c"][3 * (f == H) + d];
        mfem::FunctionCoefficient fc([&c](const mfem::Vector& x) { return value(c, x); });
        fields.get(f, d).ProjectCoefficient(fc);
      }
    pm.updateProbes((double)snap["t"]);
  }
}

// What a rank's file holds, in multiples of 1/16 and with every position next to its values.
void readBack(const std::string& dir, const std::string& name) {
  std::ifstream in(dir + "/surface_data.bin", std::ios::binary);
  int32_t h[5];
  in.read((char*)h, sizeof h);
  auto take = [&in](size_t n) {
    std::vector<double> v(n);
    in.read((char*)v.data(), n * sizeof(double));
    return v;
  };
  const int dim = h[0], nq = h[3];
  auto pos = take(nq * dim), nor = take(nq * 3), w = take(nq);
  // Faces by plane: axis, place, side, area, moments.
  std::map<std::array<long long, 3>, std::array<double, 4>> planes;
  for (int q = 0; q < nq; q++) {
    int ax = -1;
    for (int d = 0; d < 3; d++) if (std::abs(std::abs(nor[3 * q + d]) - 1) < 1e-9) ax = d;
    long long at = ax < 0 || ax >= dim ? -1 : vh::grid(pos[q * dim + ax], 16);
    auto& a = planes[{ax, at, ax < 0 ? 0 : nor[3 * q + ax] > 0 ? 1 : -1}];
    a[0] += w[q];
    for (int d = 0; d < dim; d++) a[1 + d] += w[q] * pos[q * dim + d];
  }
  json pl = json::array();
  for (auto& [k, a] : planes) {
    json m = json::array();
    for (int d = 0; d < dim; d++) m.push_back(vh::grid(a[1 + d], 48));
    pl.push_back({{"axis", k[0]}, {"at", k[1]}, {"side", k[2]}, {"area", vh::grid(a[0], 16)}, {"moment", m}});
  }
  auto mesh = mfem::Mesh::LoadFromFile((dir + "/mesh").c_str(), 1, 0);
  json head = {{"e", "file"}, {"rank", name}, {"dim", dim}, {"dofs", h[1]}, {"points", nq}, {"planes", pl},
               {"bytes", (long long)fs::file_size(dir + "/surface_data.bin")}};
  vh::emit(head);
  std::unique_ptr<mfem::DG_FECollection> fec;
  std::unique_ptr<mfem::FiniteElementSpace> fes;
  for (int p = 1; p < 6; p++) {
    auto c = std::make_unique<mfem::DG_FECollection>(p, mesh.Dimension(), h[4]);
    auto f = std::make_unique<mfem::FiniteElementSpace>(&mesh, c.get());
    if (f->GetNDofs() == h[1]) { fec = std::move(c); fes = std::move(f); break; }
  }
  if (!fes) { vh::emit({{"e", "mesh and data disagree"}}); return; }
  std::vector<mfem::GridFunction> x;
  for (int d = 0; d < dim; d++) {
    x.emplace_back(fes.get());
    mfem::FunctionCoefficient fc([d](const mfem::Vector& p) { return p[d]; });
    x.back().ProjectCoefficient(fc);
  }
  for (int k = 1;; k++) {
    auto t = take(1);
    if (!in) break;
    std::vector<std::vector<double>> v;
    for (int c = 0; c < 6; c++) v.push_back(take(h[1]));
    if (!in) { vh::emit({{"e", "partial snapshot"}}); return; }
    json at = json::array(), val = json::array();
    for (int i = 0; i < h[1]; i++) {
      json p = json::array(), q = json::array();
      for (int d = 0; d < dim; d++) p.push_back(vh::grid(x[d][i], 16));
      for (int c = 0; c < 6; c++) q.push_back(vh::grid(v[c][i], 16));
      at.push_back(p);
      val.push_back(q);
    }
    vh::emit({{"e", "snapshot"}, {"rank", name}, {"k", k}, {"time", vh::grid(t[0], 16)}, {"at", at}, {"v", val}});
  }
}

const double PI = std::acos(-1.0);

void post(const json& s, const json& r, const std::vector<std::string>& names) {
  fs::remove_all("work");
  fs::create_directories("work");
  json sizes = json::array();
  for (size_t i = 0; i < names.size(); i++) {
    const std::string to = "work/" + (r.contains("names") && i < r["names"].size() ? (std::string)r["names"][i] : names[i]);
    fs::create_directories(to);
    fs::copy("Exports/" + (std::string)s["mode"] + "/surf/RCSSurface/skin/" + names[i], to);
    const long long cut = r.contains("cut") ? (long long)r["cut"][i] : -1;
    const long long full = (long long)fs::file_size(to + "/surface_data.bin");
    if (cut >= 0 && cut < full) fs::resize_file(to + "/surface_data.bin", cut);
    sizes.push_back(std::min(full, cut < 0 ? full : cut));
  }
  json pc = {{"sources", json::array({s["wave"]})}};
  std::ofstream("work/case.json") << pc.dump();
  std::vector<Frequency> freqs;
  for (int m : s["m"]) freqs.push_back(m * 0.25 * physicalConstants::speedOfLight_SI);
  std::vector<SphericalAngles> angles;
  for (auto& a : s["angles"]) {
    SphericalAngles g;
    g.theta = (int)a[0] * PI / 2;
    g.phi = (int)a[1] * PI / 2;
    angles.push_back(g);
  }
  std::optional<double> upto;
  if (r.contains("upto")) upto = (double)r["upto"];
  json ev = {{"e", "post"}, {"sizes", sizes}, {"upto", upto ? (int)*upto : 1000}};
  try {
    RCSSurfacePostProcessor p("work", "work/case.json", freqs, angles, upto);
    json out = json::array(), raw = json::array();
    bool filed = true;
    for (auto& a : angles) {
      json row = json::array();
      std::vector<double> onfile;
      const std::string sfx = "Th_" + std::to_string(a.theta) + "_Phi_" + std::to_string(a.phi) + "_dgtd.dat";
      for (auto& f : freqs) {
        const double nf = f / physicalConstants::speedOfLight_SI, k = 2 * PI * nf;
        const double ff = p.getFarField(a, nf), rcs = p.getRCS(a, nf);
        const double u = s["dim"] == 2 ? k * k / 32 : k * k / (32 * PI * PI);
        row.push_back({{"far", vh::grid(4 * ff / u, 144, 1e-2)}, {"rcs", vh::grid(4 * rcs / (s["dim"] == 2 ? k / 4 : 8 * PI * u), 1, 1e-4)}});
        raw.push_back(vh::near(ff / u, 1000));
        raw.push_back(vh::near(rcs / u, 100));
        onfile.push_back(ff);
        onfile.push_back(rcs);
      }
      out.push_back(row);
      // the same numbers in the files
      size_t n = 0;
      for (std::string kind : {"farfield/farfieldData_", "rcs/rcsData_"}) {
        std::ifstream in("work/" + kind + sfx);
        std::string line;
        std::getline(in, line);
        for (size_t i = 0; i < freqs.size(); i++, n++) {
          double th, ph, fr, v;
          std::string num;
          if (!(in >> th >> ph >> fr >> num)) { filed = false; break; }
          v = std::strtod(num.c_str(), nullptr);
          std::getline(in, line);
          const double want = onfile[2 * i + (kind[0] == 'r')];
          if (!std::isfinite(want) || std::abs(want) > 1e200) continue;
          if (std::abs(v - want) > 1e-4 * std::abs(want) + 1e-9 || std::abs(fr - freqs[i]) > 1e-3 * freqs[i]) filed = false;
        }
      }
    }
    ev[s["judge"] == "length" ? "raw" : "out"] = s["judge"] == "length" ? raw : out;
    ev["refused"] = false;
    ev["filed"] = filed;
  } catch (const std::exception& e) {
    ev["refused"] = true;
    ev["what"] = std::string(e.what()).substr(0, 100);
  }
  vh::emit(ev);
}

void run(const json& s) {
  static int n = 0;
  const auto home = fs::current_path();
  const auto dir = home / ("r" + std::to_string(n++));
  fs::create_directories(dir);
  fs::current_path(dir);
  try {
    const auto path = vh::writeCase("surf", s["case"], s["nodes"], s["els"]);
    for (int r = 0; r < (int)s["ranks"]; r++) exportRank(s, path, r);
    std::vector<std::string> names;
    for (auto& e : fs::directory_iterator("Exports/" + (std::string)s["mode"] + "/surf/RCSSurface/skin")) names.push_back(e.path().filename());
    std::sort(names.begin(), names.end());
    vh::emit({{"e", "exported"}, {"ranks", names}});
    for (auto& d : names) readBack("Exports/" + (std::string)s["mode"] + "/surf/RCSSurface/skin/" + d, d);
    for (auto& r : s["runs"]) {
      json q = r;
      if (q.contains("cut") && q["cut"].size() != names.size()) continue;
      post(s, q, names);
    }
  } catch (...) {
    fs::current_path(home);
    fs::remove_all(dir);
    throw;
  }
  fs::current_path(home);
  fs::remove_all(dir);
}

}  // namespace

int main() {
  std::ostream null(nullptr);
  std::cout.rdbuf(null.rdbuf());
  return vh::serve(run);
}
