// The same problem from several viewpoints.  Elements and nodes are found again by
// their positions, and the trial states are those of the first run, seen from there.
#include "problem.h"

using vh::json;

namespace {

struct First {
  std::vector<std::vector<std::array<double, 3>>> at;       // nodes by cell
  std::vector<std::vector<std::array<double, 6>>> x;        // trial state
};

double trial(int seed, int cell, int i, int k) {
  unsigned long long z = seed * 2654435761ULL + cell * 40503ULL + i * 97ULL + k * 7919ULL + 12345;
  for (int n = 0; n < 3; n++) z = z * 6364136223846793005ULL + 1442695040888963407ULL;
  return ((int)((z >> 40) % 33) - 16) / 4.0;
}

void look(const json& p, const json& v, First& first) {
  double m[3][3], shift[3];
  for (int i = 0; i < 3; i++) {
    shift[i] = v["shift"][i];
    for (int j = 0; j < 3; j++) m[i][j] = (double)v["m"][i][j] / (double)v["den"];
  }
  const double hand = (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) +
                       m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])) < 0 ? -1 : 1;
  const auto path = vh::writeCase("problem", v["case"], v["nodes"], v["els"]);
  maxwell::Solver solver = maxwell::driver::buildSolver(v["case"], path, false);
  auto& fes = solver.getFES();
  auto& mesh = *fes.GetMesh();
  const int nd = fes.GetNDofs(), ne = mesh.GetNE(), sd = mesh.SpaceDimension();
  const bool begin = first.at.empty();
  if (begin) {
    first.at.resize(ne);
    first.x.resize(ne);
  }
  // dof[cell][node of the first run]
  std::vector<std::vector<int>> dof(ne);
  for (int e = 0; e < ne; e++) {
    mfem::Array<int> d;
    fes.GetElementDofs(e, d);
    const mfem::IntegrationRule& nodes = fes.GetFE(e)->GetNodes();
    mfem::ElementTransformation* tr = mesh.GetElementTransformation(e);
    std::vector<std::array<double, 3>> at;
    std::array<double, 3> mid{};
    for (int i = 0; i < nodes.GetNPoints(); i++) {
      mfem::Vector y;
      tr->Transform(nodes.IntPoint(i), y);
      std::array<double, 3> q{}, x{};
      for (int k = 0; k < sd && k < y.Size(); k++) q[k] = y[k];
      for (int k = 0; k < 3; k++)
        for (int j = 0; j < 3; j++) x[k] += m[j][k] * (q[j] - shift[j]);
      at.push_back(x);
      for (int k = 0; k < 3; k++) mid[k] += x[k] / nodes.GetNPoints();
    }
    int cell = -1;
    double dist = 1e300;
    for (size_t c = 0; c < p["centres"].size(); c++) {
      double z = 0;
      for (int k = 0; k < 3; k++) z += std::pow(mid[k] - (double)p["centres"][c][k], 2);
      if (z < dist) dist = z, cell = (int)c;
    }
    if (!dof.at(cell).empty()) throw std::runtime_error("two elements in one place");
    if (begin) {
      first.at[cell] = at;
      first.x[cell].resize(at.size());
      for (size_t i = 0; i < at.size(); i++)
        for (int k = 0; k < 6; k++) first.x[cell][i][k] = trial(p["seed"], cell, (int)i, k);
    }
    if (first.at[cell].size() != at.size()) throw std::runtime_error("an element of another kind");
    dof[cell].assign(at.size(), -1);
    for (size_t i = 0; i < at.size(); i++) {
      size_t best = 0;
      double z = 1e300;
      for (size_t j = 0; j < at.size(); j++) {
        double s = 0;
        for (int k = 0; k < 3; k++) s += std::pow(at[i][k] - first.at[cell][j][k], 2);
        if (s < z) z = s, best = j;
      }
      if (z > 1e-12 || dof[cell][best] != -1) throw std::runtime_error("nodes elsewhere");
      dof[cell][best] = d[(int)i];
    }
  }
  int out = 0;
  json what = json::array();
  auto put = [&](const std::string& name, const mfem::Vector& r) {
    json all = json::array();
    for (int c = 0; c < ne; c++) {
      json cell = json::array();
      for (int q : dof[c]) {
        json node = json::array();
        for (int k = 0; k < 6; k++) {
          const double z = r[k * nd + q] * (double)p["S"];
          const bool fits = std::abs(z) < 5e7;
          out += !fits;
          node.push_back(fits ? std::llround(z) : 0);
        }
        cell.push_back(node);
      }
      all.push_back(cell);
    }
    what.push_back({{"name", name}, {"v", all}});
  };
  mfem::Vector x(6 * nd), r(6 * nd);
  for (int c = 0; c < ne; c++)
    for (size_t i = 0; i < dof[c].size(); i++)
      for (int k = 0; k < 3; k++) {
        double e = 0, h = 0;
        for (int j = 0; j < 3; j++) {
          e += m[k][j] * first.x[c][i][j];
          h += hand * m[k][j] * first.x[c][i][3 + j];
        }
        x[k * nd + dof[c][i]] = e;
        x[(3 + k) * nd + dof[c][i]] = h;
      }
  auto* op = solver.getEvolTDO();
  for (double t : p["times"]) {
    r = 0.0;
    op->SetTime(t);
    op->Mult(x, r);
    put("rate", r);
  }
  op->SetTime(0.0);
  auto& all = solver.getFields().allDOFs();
  std::copy_n(x.GetData(), 6 * nd, all.GetData());
  solver.setFinalTime(1e6);
  for (int n = 0; n < (int)p["steps"]; n++) {
    solver.step();
    put("state", all);
  }
  vh::emit({{"e", "view"}, {"m", v["m"]}, {"den", v["den"]}, {"what", what}, {"out", out}});
}

void scenario(const json& p) {
  First first;
  for (auto& v : p["views"]) look(p, v, first);
}
}  // namespace

int main() { return vh::serve(scenario); }
