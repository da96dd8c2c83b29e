// Steps problems with thin layers, evaluates rates of change at odd moments, and
// reports the rates, the states and every step of the layers' own solvers.
#include "problem.h"

#include <omp.h>

#include <atomic>
#include <chrono>
#include <mutex>
#include <thread>

using namespace maxwell;
using vh::json;

namespace {

const double TICK = 1 << 24;   // times are reported in these

unsigned fold(const double* x, int n, unsigned h) {
  for (int i = 0; i < n; i++) {
    double v = x[i] == 0 ? 0 : x[i];
    unsigned long long b;
    std::memcpy(&b, &v, 8);
    if (!b) continue;
    b ^= (unsigned long long)(i + 1) * 0x9E3779B97F4A7C15ULL;
    b = (b ^ (b >> 31)) * 0xBF58476D1CE4E5B9ULL;
    h += (unsigned)(b >> 33);
  }
  return h & 0x3fffffff;
}

// A number for the inner part of a layer's state; 0 for a layer at rest.
int mark(const mfem::Vector& x, int inner) {
  const int n = x.Size() / 6;
  if (inner > n) return -1;
  unsigned h = 0;
  for (int c = 0; c < 6; c++) h = fold(x.GetData() + c * n + (n - inner) / 2, inner, h * 31);
  return (int)(h & 0x3fffffff);
}

void fill(mfem::Vector& x, const mfem::Vector& y) { std::memcpy(x.GetData(), y.GetData(), x.Size() * sizeof(double)); }

struct Run {
  maxwell::Solver* solver = nullptr;
  int outer = 0;             // size of the state of the whole problem
  int inner = 0;
  bool subs = true;
  const char* phase = "";
  int k = 0;
  double base = 0;
  std::mutex lock;
  std::map<std::pair<std::thread::id, const void*>, int> before;
  std::map<std::thread::id, int> threads;
  std::atomic<unsigned> jitter{0};
};
Run* now = nullptr;

void pause(unsigned& z) {
  z = z * 1664525u + 1013904223u;
  const unsigned r = z >> 24;
  if (r < 80) std::this_thread::sleep_for(std::chrono::microseconds(r * 5));
  else if (r < 160) std::this_thread::yield();
}

void evaluate(const json& s, const json& list, const char* when) {
  auto* f = now->solver->getEvolTDO();
  const double t = f->GetTime();
  for (auto& q : list) {
    mfem::Vector x = vh::trial(now->outer, q["seed"]), y(now->outer);
    if (q.value("still", false)) x = 0.0;
    const int at = q["at"];
    {
      std::lock_guard<std::mutex> g(now->lock);
      vh::emit({{"e", "eval"}, {"at", at}, {"when", when}});
    }
    f->SetTime(now->base + at / TICK);
    now->phase = "trial";
    f->Mult(x, y);
    now->phase = "";
    vh::emit({{"e", "rate"}, {"step", now->k}, {"at", at}, {"seed", q["seed"]}, {"out", vh::scaled(y, s.value("scale", 1e4))}});
  }
  f->SetTime(t);
}

void variant(const json& s, const json& v) {
  omp_set_num_threads(v.value("threads", 1));
  json p = s["problem"];
  // only the named faces are layered
  json b = json::array();
  json tags = json::array();
  for (auto q : p["case"]["model"]["boundaries"]) {
    if (q["type"] == "SGBC") {
      json keep = json::array();
      for (auto& t : q["tags"])
        for (auto& w : v["layered"])
          if (t == w) keep.push_back(t);
      if (keep.empty()) continue;
      q["tags"] = keep;
      for (auto& t : keep) tags.push_back(t);
    }
    b.push_back(q);
  }
  p["case"]["model"]["boundaries"] = b;
  p["sgbc"] = tags;
  auto model = vh::makeModel(p);
  Sources none;
  Probes probes;
  maxwell::Solver solver(model, probes, none, vh::makeOptions(s["opts"]));
  Run r;
  now = &r;
  struct Reset {
    ~Reset() {
      mfem::StepWatch::hook() = nullptr;
      mfem::StepWatch::start() = nullptr;
      now = nullptr;
    }
  } reset;
  r.solver = &solver;
  r.outer = solver.getFields().allDOFs().Size();
  r.inner = s["inner"];
  r.jitter = v.value("jitter", 0);
  r.subs = s.value("subs", true);
  solver.setFinalTime(1e6);
  const double* outerData = solver.getFields().allDOFs().GetData();
  const json* step = nullptr;

  mfem::StepWatch::start() = [&](const mfem::Vector& x, double t0, double dt, double) {
    if (x.GetData() == outerData) {
      evaluate(s, (*step)["start"], "start");
      now->phase = "trial";
      return;
    }
    if (now->jitter) {
      thread_local unsigned z = now->jitter + (unsigned)std::hash<std::thread::id>()(std::this_thread::get_id());
      pause(z);
    }
    if (!r.subs) return;
    std::lock_guard<std::mutex> g(r.lock);
    r.before[{std::this_thread::get_id(), x.GetData()}] = mark(x, r.inner);
  };
  mfem::StepWatch::hook() = [&](const mfem::Vector& x, double t0, double dt, double t1) {
    if (x.GetData() == outerData) {
      now->phase = "";
      if ((*step).contains("impose")) {
        auto z = vh::trial(r.outer, (*step)["impose"]);
        if ((*step).value("still", false)) z = 0.0;
        fill(solver.getFields().allDOFs(), z);
      }
      evaluate(s, (*step)["end"], "end");
      now->phase = "accept";
      return;
    }
    if (now->jitter) {
      thread_local unsigned z = 7 * now->jitter + (unsigned)std::hash<std::thread::id>()(std::this_thread::get_id());
      pause(z);
    }
    if (!r.subs) return;
    std::lock_guard<std::mutex> g(r.lock);
    const int th = r.threads.emplace(std::this_thread::get_id(), (int)r.threads.size() + 1).first->second;
    vh::emit({{"e", "sub"}, {"phase", r.phase}, {"th", th}, {"from", vh::near(t0, TICK)}, {"to", vh::near(t1, TICK)},
              {"in", r.before[{std::this_thread::get_id(), x.GetData()}]}, {"out", mark(x, r.inner)}});
  };

  vh::emit({{"e", "variant"}, {"layered", v["layered"]}, {"nodes", v["nodes"]}});
  auto& x = solver.getFields().allDOFs();
  fill(x, vh::trial(r.outer, s["start"]));
  if (s.value("still", false)) x = 0.0;
  for (auto& st : v["steps"]) {
    r.k++;
    step = &st;
    r.base = solver.getTime();
    evaluate(s, st["before"], "before");
    solver.setTimeStep((double)st["dt"] / TICK);
    double sum = 0;
    for (int i = 0; i < x.Size(); i++) sum += std::abs(x[i]);
    vh::emit({{"e", "step"}, {"k", r.k}, {"base", vh::near(r.base, TICK)}, {"dt", st["dt"]}, {"still", sum == 0}});
    solver.step();
    now->phase = "";
    sum = 0;
    for (int i = 0; i < x.Size(); i++) sum += std::abs(x[i]);
    vh::emit({{"e", "accepted"}, {"k", r.k}, {"to", vh::near(solver.getTime(), TICK)}, {"still", sum == 0}, {"hash", (int)fold(x.GetData(), x.Size(), 0)},
              {"x", vh::scaled(x, s.value("scale", 1e4))}});
  }
}

void run(const json& s) {
  for (auto& v : s["variants"]) variant(s, v);
}

}  // namespace

int main() {
  std::ostream null(nullptr);
  std::cout.rdbuf(null.rdbuf());
  return vh::serve(run);
}
