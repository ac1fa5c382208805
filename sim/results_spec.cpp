#include "results_spec.hpp"
#include "mesh_text.hpp"
#include "model_spec.hpp"
#include <numeric>
#include <um2/common/logger.hpp>

namespace sim
{

Results
drawResults(uint32_t max_cells)
{
  static int const vtk[] = {5, 9, 22, 23};
  Results q;
  q.kind = static_cast<int>(pick(4));
  int const nblocks = range(1, 3);
  bool const soup = pick(2) != 0;      // every face has its own vertices
  bool const jitter = soup && pick(2) != 0;
  Rng r(pick(1U << 30));
  double x0 = r.below(3) == 0 ? -3.0 : 0.0;
  double y0 = r.below(3) == 0 ? 1.5 : 0.0;
  std::vector<std::array<double, 2>> verts;
  std::vector<std::vector<int>> faces;
  for (int b = 0; b < nblocks; ++b) {
    FvmSpec f;
    f.kind = q.kind;
    f.nx = 1 + static_cast<int>(r.below(max_cells));
    f.ny = 1 + static_cast<int>(r.below(max_cells));
    f.w = 0.5 + 0.25 * r.below(8);
    f.h = 0.5 + 0.25 * r.below(8);
    makeFaces(f, r);
    int const base = static_cast<int>(verts.size());
    for (auto const & v : f.verts) {
      verts.push_back({v[0] + x0, v[1] + y0});
    }
    for (auto fc : f.faces) {
      for (int & i : fc) {
        i += base;
      }
      faces.push_back(fc);
    }
    x0 += f.w + 0.125;
    y0 += r.below(2) == 0 ? 0.0 : f.h / 2;
  }
  // any order of the faces
  for (size_t i = faces.size(); i > 1; --i) {
    std::swap(faces[i - 1], faces[r.below(static_cast<uint32_t>(i))]);
  }
  for (auto const & fc : faces) {
    q.area.push_back(0);
    q.centroid.push_back({0, 0});
    size_t const n = q.kind >= 2 ? fc.size() / 2 : fc.size();
    q.corner.emplace_back(fc.begin(), fc.begin() + static_cast<long>(n));
    q.mesh.types.push_back(vtk[q.kind]);
  }
  if (soup) {
    for (auto const & fc : faces) {
      std::vector<int> own;
      for (int const i : fc) {
        own.push_back(static_cast<int>(q.mesh.verts.size()));
        auto v = verts[static_cast<size_t>(i)];
        if (jitter) {
          v[0] += 2e-7 * (r.unit() - 0.5);
          v[1] += 2e-7 * (r.unit() - 0.5);
        }
        q.mesh.verts.push_back({v[0], v[1], 0.0});
      }
      q.mesh.conn.push_back(own);
    }
  } else {
    for (auto const & v : verts) {
      q.mesh.verts.push_back({v[0], v[1], 0.0});
    }
    q.mesh.conn = faces;
  }
  std::vector<std::array<double, 2>> stored;
  for (auto const & v : q.mesh.verts) {
    stored.push_back({v[0], v[1]});
  }
  for (size_t i = 0; i < faces.size(); ++i) {
    q.area[i] = faceArea(stored, q.mesh.conn[i], &q.centroid[i]);
  }
  return q;
}

void
addData(MeshSpec & m, std::string const & name, std::vector<double> const & data)
{
  ElsetSpec e;
  e.name = name;
  e.ids.resize(data.size());
  std::iota(e.ids.begin(), e.ids.end(), 0);
  e.data = data;
  m.elsets.push_back(e);
}

bool
storeResults(MeshSpec const & m, std::string const & path)
{
  if (path.size() > 4 && path.compare(path.size() - 4, 4, ".vtk") == 0) {
    TextStyle st = drawTextStyle();
    std::vector<size_t> a;
    std::vector<size_t> b;
    diskWrite(path.c_str(), vtkText(m, st, a, b));
    return true;
  }
  Proc const p = process({}, [&] {
    quietLogger(1, true);
    auto const s = build(m);
    step("prepare", [&] { s.write(um2::String(path.c_str())); });
  });
  return p.ok("prepare") && p.success();
}

} // namespace sim
