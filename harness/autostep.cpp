// Time steps the solver selects: each question has its own processes, and every
// rank tells its step.
#include "problem.h"

#include <sys/wait.h>
#include <unistd.h>

using vh::json;
namespace fs = std::filesystem;

namespace {

void child(const json& q, const json& unit, const std::string& dir) {
  setenv("MINIMPI_SIZE", std::to_string((int)q["ranks"]).c_str(), 1);
  setenv("MINIMPI_TIMEOUT", "30", 1);
  MPI_Init(nullptr, nullptr);
  int rank = 0;
  MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  const std::string own = dir + "/" + std::to_string(rank);
  fs::create_directories(own);
  fs::current_path(own);
  int status = 0;
  try {
    mfem::Mesh::partition_script() = [&q](mfem::Mesh& m, int n, int* p) {
      for (int e = 0; e < m.GetNE(); e++) p[e] = n == 1 ? 0 : (int)q["part"][e];
    };
    const auto path = vh::writeCase("problem", q["case"], q["nodes"], q["els"]);
    maxwell::Solver solver = maxwell::driver::buildSolver(q["case"], path, false);
    std::ofstream("out.json") << vh::near(solver.getTimeStep(), unit);
  } catch (const std::exception& e) {
    std::ofstream("failed.txt") << e.what();
    status = 9;
  }
  if (status) MPI_Abort(MPI_COMM_WORLD, status);
  MPI_Finalize();
  minimpi_collect();
  _exit(0);
}

void scenario(const json& p) {
  int n = 0;
  for (auto& q : p["asks"]) {
    const std::string dir = (fs::current_path() / ("ask" + std::to_string(n++))).string();
    fs::remove_all(dir);
    fs::create_directories(dir);
    const pid_t pid = fork();
    if (pid < 0) throw std::runtime_error("driver: no process");
    if (pid == 0) child(q, p["unit"], dir);
    int st = 0;
    waitpid(pid, &st, 0);
    json ev = {{"e", "chose"}, {"status", WIFEXITED(st) ? WEXITSTATUS(st) : 1000}, {"dts", json::array()}};
    if (ev["status"] == 0)
      for (int r = 0; r < (int)q["ranks"]; r++) {
        std::ifstream f(dir + "/" + std::to_string(r) + "/out.json");
        ev["dts"].push_back(json::parse(f));
      }
    fs::remove_all(dir);
    vh::emit(ev);
  }
}
}  // namespace

int main() { return vh::serve(scenario); }
