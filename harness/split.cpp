// The same problem on one rank and spread over several.  Every run has its own
// processes; what each rank sees is put together by element.
#include "problem.h"

#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>

using vh::json;
namespace fs = std::filesystem;

namespace {

// Small multiples of 1/4 that depend on the element, not on who owns it.
double trial(int seed, int cell, int i, int k) {
  unsigned long long z = seed * 2654435761ULL + cell * 40503ULL + i * 97ULL + k * 7919ULL + 12345;
  for (int n = 0; n < 3; n++) z = z * 6364136223846793005ULL + 1442695040888963407ULL;
  return ((int)((z >> 40) % 33) - 16) / 4.0;
}

void rankWork(const json& p, const json& run) {
  const json& part = run["part"];
  mfem::Mesh::partition_script() = [&part](mfem::Mesh& m, int n, int* q) {
    // layers have meshes of their own, which are not split
    for (int e = 0; e < m.GetNE(); e++) q[e] = n == 1 ? 0 : (int)part[e];
  };
  const auto path = vh::writeCase("problem", p["case"], p["nodes"], p["els"]);
  maxwell::Solver solver = maxwell::driver::buildSolver(p["case"], path, false);
  auto& fes = solver.getFES();
  auto& mesh = *fes.GetMesh();
  const int nd = fes.GetNDofs(), ne = mesh.GetNE(), sd = mesh.SpaceDimension();
  std::vector<int> cell;
  std::vector<mfem::Array<int>> of(ne);
  for (int e = 0; e < ne; e++) {
    mfem::Array<int> v;
    mesh.GetElementVertices(e, v);
    int best = -1;
    double dist = 1e300;
    for (size_t q = 0; q < p["centres"].size(); q++) {
      double z = 0;
      for (int k = 0; k < sd; k++) {
        double c = 0;
        for (int i = 0; i < v.Size(); i++) c += mesh.GetVertex(v[i])[k] / v.Size();
        z += std::pow(c - (double)p["centres"][q][k], 2);
      }
      if (z < dist) dist = z, best = (int)q;
    }
    cell.push_back(best);
    fes.GetElementDofs(e, of[e]);
  }
  json out = {{"cells", cell}, {"dt", vh::near(solver.getTimeStep(), 1e7)}, {"what", json::array()}};
  auto put = [&](const std::string& name, const mfem::Vector& r) {
    json all = json::array();
    for (int e = 0; e < ne; e++) {
      json c = json::array();
      for (int i = 0; i < of[e].Size(); i++)
        for (int k = 0; k < 6; k++) c.push_back(vh::near(r[k * nd + of[e][i]], p["S"]));
      all.push_back(c);
    }
    out["what"].push_back({{"name", name}, {"v", all}});
  };
  auto* op = solver.getEvolTDO();
  put("start", solver.getFields().allDOFs());
  mfem::Vector x(6 * nd), r(6 * nd);
  for (int e = 0; e < ne; e++)
    for (int i = 0; i < of[e].Size(); i++)
      for (int k = 0; k < 6; k++) x[k * nd + of[e][i]] = trial(p["seed"], cell[e], i, k);
  for (double t : p["times"]) {
    r = 0.0;
    op->SetTime(t);
    op->Mult(x, r);
    put("rate", r);
  }
  auto& all = solver.getFields().allDOFs();
  std::copy_n(x.GetData(), 6 * nd, all.GetData());
  solver.setFinalTime(1e6);
  for (int n = 0; n < (int)p["steps"]; n++) {
    solver.step();
    put("state", all);
  }
  std::ofstream("out.json") << out.dump();
}

void child(const json& p, const json& run, const std::string& dir) {
  setenv("MINIMPI_SIZE", std::to_string((int)run["ranks"]).c_str(), 1);
  setenv("MINIMPI_TIMEOUT", "30", 1);
  MPI_Init(nullptr, nullptr);
  int rank = 0;
  MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  const std::string own = dir + "/" + std::to_string(rank);
  fs::create_directories(own);
  fs::current_path(own);
  int status = 0;
  try {
    rankWork(p, run);
  } catch (const std::exception& e) {
    std::ofstream("failed.txt") << e.what();
    status = 9;
  }
  if (status) MPI_Abort(MPI_COMM_WORLD, status);
  MPI_Finalize();
  minimpi_collect();
  _exit(0);
}

void scenario(const json& p) {
  int n = 0;
  for (auto& run : p["runs"]) {
    const std::string dir = (fs::current_path() / ("run" + std::to_string(n++))).string();
    fs::remove_all(dir);
    fs::create_directories(dir);
    const pid_t pid = fork();
    if (pid < 0) throw std::runtime_error("driver: no process");
    if (pid == 0) child(p, run, dir);
    int st = 0;
    waitpid(pid, &st, 0);
    json ev = {{"e", "run"}, {"ranks", run["ranks"]}, {"status", WIFEXITED(st) ? WEXITSTATUS(st) : 1000}};
    if (ev["status"] == 0) {
      const size_t nc = p["centres"].size();
      std::vector<int> owners(nc, 0);
      json dts = json::array(), what = json::array();
      for (int r = 0; r < (int)run["ranks"]; r++) {
        std::ifstream f(dir + "/" + std::to_string(r) + "/out.json");
        const json o = json::parse(f);
        dts.push_back(o["dt"]);
        for (size_t e = 0; e < o["cells"].size(); e++) {
          const int c = o["cells"][e];
          owners[c]++;
          for (size_t w = 0; w < o["what"].size(); w++) {
            while (what.size() <= w) what.push_back({{"name", o["what"][w]["name"]}, {"v", json(nc, json::array())}});
            what[w]["v"][c] = o["what"][w]["v"][e];
          }
        }
      }
      ev["owners"] = owners;
      ev["dts"] = dts;
      ev["what"] = what;
    } else {
      std::string why;
      for (int r = 0; r < (int)run["ranks"]; r++) {
        std::ifstream f(dir + "/" + std::to_string(r) + "/failed.txt");
        std::string l;
        if (std::getline(f, l)) why = l.substr(0, 200);
      }
      ev["why"] = why;
    }
    fs::remove_all(dir);
    vh::emit(ev);
  }
}
}  // namespace

int main() { return vh::serve(scenario); }
