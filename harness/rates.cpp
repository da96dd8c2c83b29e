// Initial states and rates of change of one problem with several sets of sources.
#include "problem.h"

using vh::json;

namespace {
const double SCALE = 65536;

void scenario(const json& p) {
  for (auto& who : p["sets"]) {
    auto model = vh::makeModel(p);
    maxwell::Sources sources;
    for (int k : who) sources.add(vh::makeSource(p["sources"][k - 1]));
    maxwell::Solver solver(model, maxwell::Probes(), sources, vh::makeOptions(p["opts"]));
    const auto& all = solver.getFields().allDOFs();
    json ev = {{"e", "seen"}, {"who", who}, {"init", vh::scaled(all, SCALE)}, {"rates", json::array()}};
    auto* op = solver.getEvolTDO();
    const auto x = vh::trial(all.Size(), p["x"]);
    mfem::Vector r(all.Size());
    for (double t : p["times"]) {
      r = 0.0;
      op->SetTime(t);
      op->Mult(x, r);
      ev["rates"].push_back(vh::scaled(r, SCALE));
    }
    vh::emit(ev);
  }
}
}  // namespace

int main() { return vh::serve(scenario); }
