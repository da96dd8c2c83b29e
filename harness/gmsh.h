// Gmsh 2.2 files and case folders for the drivers.
#pragma once
#include "common.h"

#include <filesystem>

namespace vh {

// nodes: [[x,y,z]...]; els: [[type, physical tag, elementary tag, nodes from 1...]...]
inline void writeGmsh(const std::string& path, const json& nodes, const json& els) {
  std::ofstream o(path);
  o.precision(17);
  o << "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n" << nodes.size() << "\n";
  int k = 1;
  for (auto& n : nodes) o << k++ << " " << (double)n[0] << " " << (double)n[1] << " " << (double)n[2] << "\n";
  o << "$EndNodes\n$Elements\n" << els.size() << "\n";
  k = 1;
  for (auto& e : els) {
    o << k++ << " " << (int)e[0] << " 2 " << (int)e[1] << " " << (int)e[2];
    for (size_t i = 3; i < e.size(); i++) o << " " << (int)e[i];
    o << "\n";
  }
  o << "$EndElements\n";
}

// A case folder <name>/<name>.{json,msh} below the working directory; returns the path of the json file.
inline std::string writeCase(const std::string& name, const json& data, const json& nodes, const json& els) {
  std::filesystem::create_directories(name);
  writeGmsh(name + "/" + name + ".msh", nodes, els);
  std::ofstream(name + "/" + name + ".json") << data.dump(1);
  return name + "/" + name + ".json";
}

}  // namespace vh
