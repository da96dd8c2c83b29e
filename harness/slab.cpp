// Looks into thin layers: their own rates of change, the fields they are fed, and
// what the cells next to them see of them.
#include "problem.h"

using namespace maxwell;
using vh::json;

namespace {

const double S = 2048;

// Small integers, the same for the same seed.
mfem::Vector whole(int n, unsigned seed) {
  auto x = vh::trial(n, seed);
  x *= 4.0;
  return x;
}
void fill(mfem::Vector& x, const mfem::Vector& y) { std::memcpy(x.GetData(), y.GetData(), x.Size() * sizeof(double)); }

// [cell][node][component] of a state of cells with np nodes each
json cells(const mfem::Vector& x, int np, double scale, bool exact) {
  const int n = x.Size() / 6;
  json r = json::array();
  for (int c = 0; c < n / np; c++) {
    json cell = json::array();
    for (int k = 0; k < np; k++) {
      json node = json::array();
      for (int f = 0; f < 6; f++) {
        const double v = x[f * n + c * np + k];
        node.push_back(exact ? vh::grid(v, scale) : vh::near(v, scale));
      }
      cell.push_back(node);
    }
    r.push_back(cell);
  }
  return r;
}

struct Fed {
  std::array<double, 12> v;   // next to the layers, on both sides
};

struct Bench {
  Model model;
  Sources sources;
  Probes probes;
  std::unique_ptr<maxwell::Solver> solver;
  int n = 0, inner = 0;
  const double* outer = nullptr;
  double base = 0;
  std::string phase;
  mfem::Vector hold;                                          // state of the problem, held during a step
  std::vector<Fed> fed;
  std::function<void(mfem::Vector& x)> impose;                 // on accepted states of layers
  std::function<void(const mfem::Vector& x, mfem::TimeDependentOperator& f)> look;

  explicit Bench(const json& s, bool layered) : model(vh::makeModel(problem(s, layered))) {
    solver = std::make_unique<maxwell::Solver>(model, probes, sources, vh::makeOptions(s["opts"]));
    solver->setFinalTime(1e6);
    outer = solver->getFields().allDOFs().GetData();
    n = solver->getFields().allDOFs().Size();
    inner = s["inner"];
    mfem::StepWatch::start() = [this](const mfem::Vector& x, double t0, double, double) {
      if (x.GetData() == outer) return;
      if (look) {
        auto f = mfem::StepWatch::op();
        look(x, *f);
      }
      if (std::abs(t0 - base) < 1e-12) fed.push_back(ends(x));
    };
    mfem::StepWatch::hook() = [this](const mfem::Vector& x, double, double, double) {
      if (x.GetData() == outer) {
        phase = "accept";
        fed.clear();
        fill(solver->getFields().allDOFs(), hold);
        return;
      }
      if (phase == "accept" && impose) impose(const_cast<mfem::Vector&>(x));
    };
  }
  ~Bench() {
    mfem::StepWatch::start() = nullptr;
    mfem::StepWatch::hook() = nullptr;
  }
  static json problem(const json& s, bool layered) {
    json p = s["problem"], b = json::array(), tags = json::array();
    for (auto& q : p["case"]["model"]["boundaries"]) {
      if (q["type"] == "SGBC") {
        if (!layered) continue;
        for (auto& t : q["tags"]) tags.push_back(t);
      }
      b.push_back(q);
    }
    p["case"]["model"]["boundaries"] = b;
    p["sgbc"] = tags;
    return p;
  }
  Fed ends(const mfem::Vector& x) const {
    const int m = x.Size() / 6, pad = (m - inner) / 2;
    if (pad < 1) throw std::runtime_error("a layer without padding");
    Fed r;
    for (int f = 0; f < 6; f++) {
      r.v[f] = x[f * m + pad - 1];
      r.v[6 + f] = x[f * m + pad + inner];
    }
    return r;
  }
  // what layers are fed when the rates of state x are asked for at a later time
  void ask(const mfem::Vector& x, double later, mfem::Vector& y) {
    auto* f = solver->getEvolTDO();
    base = solver->getTime();
    fed.clear();
    phase = "trial";
    f->SetTime(base + later);
    f->Mult(x, y);
    f->SetTime(base);
    phase = "";
  }
  // one step with the state of the problem held at x
  void step(const mfem::Vector& x) {
    base = solver->getTime();
    hold = x;
    fill(solver->getFields().allDOFs(), x);
    phase = "";
    solver->step();
    phase = "";
  }
};

// C13: layers against their declaration
void stack(const json& s) {
  Bench b(s, true);
  const int np = s["order"], onp = (int)s["opts"]["order"] + 1;
  mfem::Vector x = whole(b.n, s["seed"]), y(b.n);
  bool seen = false;
  b.look = [&](const mfem::Vector& u, mfem::TimeDependentOperator& f) {
    if (seen) return;
    seen = true;
    mfem::Vector v = whole(u.Size(), 17 + (int)s["seed"]), r(u.Size());
    f.Mult(v, r);
    vh::emit({{"e", "slab"}, {"x", cells(v, np + 1, 1, true)}, {"r", cells(r, np + 1, S, true)}, {"p", cells(r, np + 1, 16, false)}});
  };
  const double dt = s["opts"]["dt"];
  auto report = [&](const char* when, const mfem::Vector& u) {
    json f = json::array();
    for (auto& e : b.fed) {
      json q = json::array();
      for (double v : e.v) q.push_back(vh::grid(v, 16));
      f.push_back(q);
    }
    vh::emit({{"e", "feed"}, {"when", when}, {"x", cells(u, onp, 1, true)}, {"fed", f}});
  };
  b.ask(x, dt / 2, y);
  report("asked", x);
  mfem::Vector state;
  b.impose = [&](mfem::Vector& u) {
    fill(u, whole(u.Size(), 29 + (int)s["seed"]));
    state = u;
  };
  b.step(x);
  report("stepped", x);
  fill(x, whole(b.n, 41 + (int)s["seed"]));
  b.ask(x, 0, y);
  vh::emit({{"e", "see"}, {"x", cells(x, onp, 1, true)}, {"slab", cells(state, np + 1, 1, true)}, {"r", cells(y, onp, S, true)}});
}

// C14: frames, and layers that let everything through
void frame(const json& s) {
  mfem::Vector plain;
  std::vector<int> index;
  mfem::Vector x;
  {
    Bench b(s, false);
    plain.SetSize(b.n);
    x = whole(b.n, s["seed"]);
    b.ask(x, 0, plain);
  }
  Bench b(s, true);
  auto& mesh = b.model.getConstMesh();
  const int ne = mesh.GetNE(), nd = b.n / 6;
  auto& fes = *b.solver->getFields().get(E, X).ParFESpace();
  // number of a cell in the scenario
  for (int e = 0; e < ne; e++) {
    mfem::Vector c;
    const_cast<mfem::Mesh&>(static_cast<const mfem::Mesh&>(mesh)).GetElementCenter(e, c);
    int best = -1;
    for (int k = 0; k < (int)s["centres"].size(); k++) {
      double d = 0;
      for (int i = 0; i < c.Size(); i++) d += std::abs(c[i] - (double)s["centres"][k][i]);
      if (d < 1e-9) best = k + 1;
    }
    index.push_back(best);
  }
  mfem::Vector y(b.n), u(b.n);
  const double dt = s["opts"]["dt"];
  for (std::string when : {"asked", "stepped"}) {
    std::vector<std::vector<Fed>> seq;
    for (int k = 0; k < 7; k++) {
      u = 0.0;
      if (k < 6) {
        for (int i = 0; i < nd; i++) u[k * nd + i] = 1.0;
      } else {
        for (int e = 0; e < ne; e++) {
          mfem::Array<int> dofs;
          fes.GetElementDofs(e, dofs);
          for (int d : dofs) u[d] = index[e];
        }
      }
      if (when == "asked") b.ask(u, dt / 2, y); else b.step(u);
      seq.push_back(b.fed);
    }
    for (auto& q : seq)
      if (q.size() != seq[0].size()) throw std::runtime_error("driver: layers fed a different number of times");
    for (size_t i = 0; i < seq[0].size(); i++) {
      // column k of the map from fields to the frame, for E and H on each side
      json m = json::array();
      bool mixed = false;
      for (int side = 0; side < 2; side++)
        for (int f = 0; f < 2; f++) {
          json cols = json::array();
          for (int k = 0; k < 3; k++) {
            json col = json::array();
            for (int d = 0; d < 3; d++) {
              col.push_back(vh::near(seq[3 * f + k][i].v[6 * side + 3 * f + d], 4096));
              if (std::abs(seq[3 * f + k][i].v[6 * side + 3 * (1 - f) + d]) > 1e-9) mixed = true;
            }
            cols.push_back(col);
          }
          m.push_back(cols);
        }
      auto& c = seq[6][i].v;
      auto norm = [&](int o) { return vh::near(std::sqrt(c[o] * c[o] + c[o + 1] * c[o + 1] + c[o + 2] * c[o + 2]), 1); };
      vh::emit({{"e", "frame"}, {"when", when}, {"left", norm(0)}, {"right", norm(6)}, {"maps", m}, {"mixed", mixed}});
    }
  }
  // layers that show each side what is on the other one
  b.impose = [&](mfem::Vector& v) {
    const int m = v.Size() / 6, pad = (m - b.inner) / 2;
    for (int f = 0; f < 6; f++) {
      const double l = b.fed.back().v[f], r = b.fed.back().v[6 + f];
      v[f * m + pad] = r;
      v[f * m + pad + b.inner - 1] = l;
    }
  };
  b.step(x);
  b.impose = nullptr;
  b.ask(x, 0, y);
  vh::emit({{"e", "through"}, {"plain", vh::scaled(plain, S)}, {"layered", vh::scaled(y, S)}});
}

void run(const json& s) {
  if (s["mode"] == "stack") stack(s); else frame(s);
}

}  // namespace

int main() {
  std::ostream null(nullptr);
  std::cout.rdbuf(null.rdbuf());
  return vh::serve(run);
}
