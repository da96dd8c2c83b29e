// Loads mesh files through the driver and reports what became of the files.
#include "gmsh.h"

#include "driver/driver.h"

#include <sys/ptrace.h>
#include <sys/wait.h>
#include <unistd.h>

using vh::json;

namespace {

std::vector<std::string> lines(const std::string& path) {
  std::ifstream in(path);
  std::vector<std::string> r;
  std::string s;
  while (std::getline(in, s)) r.push_back(s);
  return r;
}

struct File {
  std::vector<std::string> rest;  // every line that is not an element or their count
  std::string count;
  std::vector<std::string> els;
};

File split(const std::vector<std::string>& ls) {
  File f;
  size_t i = 0;
  for (; i < ls.size(); i++) {
    if (ls[i] == "$Elements") {
      f.rest.push_back(ls[i]);
      if (i + 1 < ls.size()) f.count = ls[++i];
      while (i + 1 < ls.size() && ls[i + 1] != "$EndElements") f.els.push_back(ls[++i]);
    } else
      f.rest.push_back(ls[i]);
  }
  return f;
}

json entities(const File& f, bool& distinct) {
  json els = json::array();
  std::set<int> ids;
  for (auto& s : f.els) {
    std::istringstream is(s);
    int id, t, ng;
    is >> id >> t >> ng;
    ids.insert(id);
    json g = json::array(), n = json::array();
    int v;
    for (int i = 0; i < ng && is >> v; i++) g.push_back(v);
    while (is >> v) n.push_back(v);
    els.push_back({{"t", t}, {"g", g}, {"n", n}});
  }
  distinct = ids.size() == f.els.size();
  return els;
}

std::string bytes(const std::string& path) {
  std::ifstream in(path, std::ios::binary);
  return in ? std::string(std::istreambuf_iterator<char>(in), {}) : std::string("(none)");
}

// Loads the mesh in another process and looks at the file whenever that enters
// or leaves the kernel: what anyone else would find, or what would be left.
void watch(const json& p, const std::string& msh, const File& before) {
  const pid_t pid = fork();
  if (pid == 0) {
    if (ptrace(PTRACE_TRACEME, 0, 0, 0)) _exit(0);
    raise(SIGSTOP);
    try {
      maxwell::driver::buildModel(p["case"], "repair/repair.json", false);
    } catch (...) {
    }
    _exit(0);
  }
  int st = 0;
  std::string last = bytes(msh);
  int stops = 0;
  while (waitpid(pid, &st, 0) == pid && WIFSTOPPED(st)) {
    const std::string now = bytes(msh);
    if (now != last) {
      last = now;
      const auto f = split(lines(msh));
      bool distinct = false;
      const json els = entities(f, distinct);
      vh::emit({{"e", "moment"}, {"els", els}, {"count", f.count.empty() ? -1 : std::atoi(f.count.c_str())}, {"distinct", distinct}, {"rest", f.rest == before.rest}});
    }
    stops++;
    const int sig = WSTOPSIG(st);
    ptrace(PTRACE_SYSCALL, pid, 0, sig == SIGTRAP || sig == SIGSTOP ? 0 : sig);
  }
  vh::emit({{"e", "watched"}, {"stops", stops}});
}

void scenario(const json& p) {
  std::filesystem::remove_all("repair");
  std::filesystem::create_directories("repair");
  const std::string msh = "repair/repair.msh";
  {
    std::ofstream o(msh);
    o.precision(17);
    o << "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n";
    for (auto& x : p["before"]) o << x.get<std::string>() << "\n";
    o << "$Nodes\n" << p["nodes"].size() << "\n";
    int k = 1;
    for (auto& n : p["nodes"]) o << k++ << " " << (double)n[0] << " " << (double)n[1] << " " << (double)n[2] << "\n";
    o << "$EndNodes\n$Elements\n" << p["els"].size() << "\n";
    k = 1;
    for (auto& e : p["els"]) {
      o << k++ << " " << (int)e["t"] << " " << e["g"].size();
      for (auto& g : e["g"]) o << " " << (int)g;
      for (auto& n : e["n"]) o << " " << (int)n;
      o << "\n";
    }
    o << "$EndElements\n";
    for (auto& x : p["after"]) o << x.get<std::string>() << "\n";
  }
  std::ofstream("repair/repair.json") << p["case"].dump();
  const auto before = split(lines(msh));
  if (p.value("watch", false)) watch(p, msh, before);
  for (int load = 0; load < (int)p["loads"]; load++) {
    json mesh;
    try {
      auto m = maxwell::driver::buildModel(p["case"], "repair/repair.json", false);
      json el = json::array(), bd = json::array();
      for (int e = 0; e < m.getMesh().GetNE(); e++) el.push_back(m.getMesh().GetAttribute(e));
      for (int e = 0; e < m.getMesh().GetNBE(); e++) bd.push_back(m.getMesh().GetBdrAttribute(e));
      mesh = {{"e", "mesh"}, {"dim", m.getMesh().Dimension()}, {"elements", el}, {"boundary", bd}};
    } catch (const std::exception& e) {
      if (p["valid"]) throw;
    }
    const auto f = split(lines(msh));
    bool distinct = false;
    const json els = entities(f, distinct);
    vh::emit({{"e", "file"}, {"els", els}, {"count", f.count.empty() ? -1 : std::atoi(f.count.c_str())}, {"distinct", distinct}, {"rest", f.rest == before.rest}});
    if (p["valid"] && !mesh.is_null()) vh::emit(mesh);
  }
}
}  // namespace

int main() { return vh::serve(scenario); }
