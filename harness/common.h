// Shared by the drivers: scenarios come in as JSON lines on standard input,
// events leave as JSON lines in the file named by $EVENTS.
#pragma once
#include <nlohmann/json.hpp>

#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <string>
#include <vector>

namespace vh {

using json = nlohmann::json;

inline FILE*& sink() {
  static FILE* f = nullptr;
  return f;
}
inline long& current() {
  static long s = 0;
  return s;
}

inline void emit(json ev) {
  ev["s"] = current();
  const std::string t = ev.dump() + "\n";
  fwrite(t.data(), 1, t.size(), sink());
  fflush(sink());
}

// The integer nearest to x*scale, or a value no specification expects when x is
// not within tol of a multiple of 1/scale.
inline long long grid(double x, double scale, double tol = 1e-6) {
  const double y = x * scale;
  if (!(std::abs(y) < 2.0e9)) return -999999999;
  const double r = std::round(y);
  if (std::abs(y - r) > tol) return -999999998;
  return (long long)r;
}
// The integer nearest to x*scale.
inline long long near(double x, double scale) {
  const double y = x * scale;
  if (!(std::abs(y) < 2.0e9)) return -999999999;
  return (long long)std::llround(y);
}

inline int serve(const std::function<void(const json&)>& run) {
  const char* ev = getenv("EVENTS");
  sink() = ev ? fopen(ev, "a") : stderr;
  if (!sink()) return 97;
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    json j = json::parse(line);
    current() = j["s"];
    try {
      run(j["v"]);
    } catch (const std::exception& e) {
      emit({{"e", "throw"}, {"what", std::string(e.what()).substr(0, 200)}});
    }
    emit({{"e", "__end"}});
  }
  return 0;
}

}  // namespace vh
