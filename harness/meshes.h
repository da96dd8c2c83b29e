// Small meshes built by hand, shared by the drivers.
#pragma once
#include <mfem.hpp>

#include <functional>
#include <map>
#include <set>
#include <vector>

namespace vh {

// nx x ny rectangles over [0,lx]x[0,ly]; the outer boundary has tag 1 and the
// edges of each listed block of cells get the block's tag.
struct Block {
  int x0, y0, x1, y1, tag;
};
inline mfem::Mesh blocks2D(int nx, int ny, double lx, double ly, const std::vector<Block>& bs, bool tri = false,
                           const std::function<int(int, int)>& attr = [](int, int) { return 1; }) {
  const int nb = 2 * (nx + ny);
  int extra = 0;
  for (auto& b : bs) extra += 2 * (b.x1 - b.x0 + b.y1 - b.y0);
  mfem::Mesh m(2, (nx + 1) * (ny + 1), nx * ny * (tri ? 2 : 1), nb + extra, 2);
  auto id = [&](int i, int j) { return j * (nx + 1) + i; };
  for (int j = 0; j <= ny; j++)
    for (int i = 0; i <= nx; i++) m.AddVertex(lx * i / nx, ly * j / ny);
  for (int j = 0; j < ny; j++)
    for (int i = 0; i < nx; i++) {
      if (tri) {
        m.AddTriangle(id(i, j), id(i + 1, j), id(i + 1, j + 1), attr(i, j));
        m.AddTriangle(id(i, j), id(i + 1, j + 1), id(i, j + 1), attr(i, j));
      } else
        m.AddQuad(id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1), attr(i, j));
    }
  for (int i = 0; i < nx; i++) {
    m.AddBdrSegment(id(i, 0), id(i + 1, 0), 1);
    m.AddBdrSegment(id(i + 1, ny), id(i, ny), 1);
  }
  for (int j = 0; j < ny; j++) {
    m.AddBdrSegment(id(nx, j), id(nx, j + 1), 1);
    m.AddBdrSegment(id(0, j + 1), id(0, j), 1);
  }
  for (auto& b : bs) {
    for (int i = b.x0; i < b.x1; i++) {
      m.AddBdrSegment(id(i, b.y0), id(i + 1, b.y0), b.tag);
      m.AddBdrSegment(id(i + 1, b.y1), id(i, b.y1), b.tag);
    }
    for (int j = b.y0; j < b.y1; j++) {
      m.AddBdrSegment(id(b.x1, j), id(b.x1, j + 1), b.tag);
      m.AddBdrSegment(id(b.x0, j + 1), id(b.x0, j), b.tag);
    }
  }
  m.FinalizeMesh(0, false);
  return m;
}

}  // namespace vh
