// Loads cases through the driver and reports how their meshes were split.
#include "gmsh.h"

#include "driver/driver.h"

using vh::json;

namespace {
struct Seen {};

void scenario(const json& p) {
  const auto path = vh::writeCase("split", p["case"], p["nodes"], p["els"]);
  minimpi_pretend() = p["ranks"];
  mfem::Mesh::partition_script() = [&](mfem::Mesh& m, int nparts, int* part) {
    for (int e = 0; e < m.GetNE(); e++) part[e] = p["first"][e];
  };
  mfem::Mesh::partition_watch() = [&](const mfem::Mesh& m, const int* part) {
    json r = json::array();
    for (int e = 0; e < m.GetNE(); e++) r.push_back(part[e]);
    vh::emit({{"e", "split"}, {"part", r}});
    throw Seen();
  };
  try {
    maxwell::driver::buildModel(p["case"], path, false);
  } catch (Seen&) {
  }
  minimpi_pretend() = 0;
}
}  // namespace

int main() { return vh::serve(scenario); }
