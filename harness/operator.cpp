// Operators that simulations export, and the rates of change they compute.  The
// simulations of a scenario follow each other in one directory.
#include "problem.h"

using vh::json;
namespace fs = std::filesystem;

namespace {

int out = 0;

long long whole(double x, double scale) {
  if (std::abs(x * scale) < 5e5) return std::llround(x * scale);
  out++;
  return 0;
}

double trial(int seed, int i) {
  unsigned long long z = seed * 2654435761ULL + i * 97ULL + 12345;
  for (int n = 0; n < 3; n++) z = z * 6364136223846793005ULL + 1442695040888963407ULL;
  return ((int)((z >> 40) % 17) - 8) / 4.0;
}

mfem::Vector rate(maxwell::Solver& s, int seed, double t) {
  const int n = s.getFields().allDOFs().Size();
  mfem::Vector x(n), r(n);
  for (int i = 0; i < n; i++) x[i] = trial(seed, i);
  r = 0.0;
  s.getEvolTDO()->SetTime(t);
  s.getEvolTDO()->Mult(x, r);
  return r;
}

void scenario(const json& p) {
  fs::remove_all("Exports");
  for (auto& q : p["runs"]) {
    const auto path = vh::writeCase("problem", q["case"], q["nodes"], q["els"]);
    json plain = q["case"];
    plain["solver_options"].erase("export_operator");
    maxwell::Solver with = maxwell::driver::buildSolver(q["case"], path, false);
    std::vector<fs::path> files;
    for (auto& e : fs::recursive_directory_iterator("Exports/Operators"))
      if (e.is_regular_file() && e.path().filename().string().find("global") != std::string::npos) files.push_back(e.path());
    if (files.size() != 1) throw std::runtime_error("no or several operator files");
    out = 0;
    json f = json::array();
    {
      std::ifstream in(files[0]);
      double v;
      long long head = 0, starts = 0;
      for (long long n = 0; in >> v; n++) {
        // rows, columns, starts and columns of the entries are whole numbers
        if (n == 0) head = starts = 3 + (long long)v;
        if (n > 0 && n == starts - 1) head += (long long)v;
        f.push_back(n < head ? (std::floor(v) == v ? (long long)v : -1) : whole(v, 1000));
      }
      if (!in.eof()) out++;
    }
    vh::emit({{"e", "file"}, {"f", f}, {"out", out}});
    maxwell::Solver without = maxwell::driver::buildSolver(plain, path, false);
    for (int k = 0; k < 2; k++) {
      const int seed = (int)q["seed"] + k;
      const double t = k * 0.75;
      const mfem::Vector a = rate(with, seed, t), b = rate(without, seed, t);
      bool same = a.Size() == b.Size();
      json x = json::array(), r = json::array();
      out = 0;
      for (int i = 0; i < a.Size(); i++) {
        same = same && std::memcmp(&a[i], &b[i], sizeof(double)) == 0;
        x.push_back(std::llround(4 * trial(seed, i)));
        r.push_back(whole(a[i], 1000));
      }
      vh::emit({{"e", "rate"}, {"x", x}, {"r", r}, {"same", same}, {"out", out}});
    }
  }
}
}  // namespace

int main() { return vh::serve(scenario); }
