// G03: from pins and a coarse grid to a saved reactor model (real gmsh in the simulated process).
#include "model_spec.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <map>
#include <um2/common/logger.hpp>
#include <um2/gmsh/base_gmsh_api.hpp>
#include <um2/gmsh/io.hpp>
#include <um2/gmsh/mesh.hpp>
#include <um2/gmsh/model.hpp>

using namespace sim;

namespace
{

//--------------------------------------------------------------------------------------------------
// What is drawn
//--------------------------------------------------------------------------------------------------

struct Pin {
  double x = 0, y = 0;
  int k0 = 0, k1 = 99; // the layers it goes through (cylinders)
  std::vector<double> radii;
  std::vector<int> mats;
};

struct PinSpec {
  int nx = 1, ny = 1;
  std::vector<double> xs, ys; // the lines of the grid
  std::vector<double> zs;     // the planes between layers
  bool plain = true;          // made by addCoarseGrid
  // Modules of rx x ry cells, lattices of ax x ay modules.  What is used again has the contents of its first place.
  int rx = 1, ry = 1, ax = 1, ay = 1;
  struct Cell {
    int i, j, k; // first place
  };
  std::vector<Cell> cells;
  std::vector<std::vector<int>> rtms; // cells, lower row first
  std::vector<std::vector<int>> lats; // modules, lower row first
  std::vector<std::vector<int>> asys; // lattices
  std::vector<int> core;              // assemblies, lower row first
  std::vector<MatSpec> mats;
  int fill = 0;
  int how = 0; // 0 pin by pin, 1 as a lattice, 2 cylinders
  // a lattice of lx x ly pins of a pitch of its own
  int lx = 1, ly = 1;
  double pw = 1, ph = 1, ox = 0, oy = 0;
  std::vector<Pin> kinds;            // of a lattice
  std::vector<std::vector<int>> ids; // top row first
  std::vector<Pin> pins;
  double size = 0.2; // of the mesh
  int mesh = 0;      // 0 tri, 1 quadratic tri (gmsh itself crashes on many quadrilateral meshes)
};

// Circles that nearly touch a line of the grid would be cut into slivers.
bool
clear(PinSpec const & s, double x, double y, double r)
{
  double const gap = 0.12 * r;
  for (double const l : s.xs) {
    double const d = std::abs(x - l);
    if (std::abs(d - r) < gap || (d < gap && d > 1e-9)) {
      return false;
    }
  }
  for (double const l : s.ys) {
    double const d = std::abs(y - l);
    if (std::abs(d - r) < gap || (d < gap && d > 1e-9)) {
      return false;
    }
  }
  for (double const lx : s.xs) {
    for (double const ly : s.ys) {
      if (std::abs(std::hypot(x - lx, y - ly) - r) < gap) {
        return false;
      }
    }
  }
  return true;
}

int
divisor(int n)
{
  std::vector<int> d;
  for (int i = 1; i <= n; ++i) {
    if (n % i == 0) {
      d.push_back(i);
    }
  }
  return d[pick(static_cast<uint32_t>(d.size()))];
}

// Sizes and structure of the grid.
void
drawGrid(PinSpec & s)
{
  s.nx = range(1, pick(4) == 3 ? 4 : 2);
  s.ny = range(1, s.nx < 3 && pick(4) == 3 ? 4 : 2);
  s.plain = pick(2) == 0;
  std::vector<double> cw(1, realIn(1.0, 1.6));
  std::vector<double> ch(1, pick(2) == 0 ? cw[0] : realIn(1.0, 1.6));
  s.zs = {-0.5, 0.5};
  int nz = 1;
  if (s.plain) {
    s.ax = s.nx;
    s.ay = s.ny;
  } else {
    s.rx = divisor(s.nx);
    s.ry = divisor(s.ny);
    s.ax = divisor(s.nx / s.rx);
    s.ay = divisor(s.ny / s.ry);
    for (int i = 1; i < s.rx; ++i) {
      cw.push_back(pick(2) == 0 ? cw[0] : realIn(1.0, 1.6));
    }
    for (int i = 1; i < s.ry; ++i) {
      ch.push_back(pick(2) == 0 ? ch[0] : realIn(1.0, 1.6));
    }
    if (s.how == 2 && pick(2) != 0) {
      nz = range(1, 3);
      s.zs = {0};
      for (int k = 0; k < nz; ++k) {
        s.zs.push_back(s.zs.back() + realIn(1.0, 3.0));
      }
    }
  }
  s.xs = {0};
  s.ys = {0};
  for (int i = 0; i < s.nx; ++i) {
    s.xs.push_back(s.xs.back() + cw[static_cast<size_t>(i % s.rx)]);
  }
  for (int j = 0; j < s.ny; ++j) {
    s.ys.push_back(s.ys.back() + ch[static_cast<size_t>(j % s.ry)]);
  }
  bool const again = !s.plain && pick(3) == 2;
  auto reuse = [&](size_t have, uint32_t oneIn) -> int {
    return again && have > 0 && pick(oneIn) == oneIn - 1 ? static_cast<int>(pick(static_cast<uint32_t>(have))) : -1;
  };
  for (int Y = 0; Y < s.ny / s.ry / s.ay; ++Y) {
    for (int X = 0; X < s.nx / s.rx / s.ax; ++X) {
      int const ra = reuse(s.asys.size(), 3);
      if (ra >= 0) {
        s.core.push_back(ra);
        continue;
      }
      std::vector<int> asy;
      for (int k = 0; k < nz; ++k) {
        int const rl = reuse(s.lats.size(), 5);
        if (rl >= 0) {
          asy.push_back(rl);
          continue;
        }
        std::vector<int> lat;
        for (int y = 0; y < s.ay; ++y) {
          for (int x = 0; x < s.ax; ++x) {
            int const rr = reuse(s.rtms.size(), 5);
            if (rr >= 0) {
              lat.push_back(rr);
              continue;
            }
            std::vector<int> rtm;
            for (int j = 0; j < s.ry; ++j) {
              for (int i = 0; i < s.rx; ++i) {
                int const rc = reuse(s.cells.size(), 6);
                if (rc >= 0 && s.cells[static_cast<size_t>(rc)].i % s.rx == i && s.cells[static_cast<size_t>(rc)].j % s.ry == j) {
                  rtm.push_back(rc);
                  continue;
                }
                rtm.push_back(static_cast<int>(s.cells.size()));
                s.cells.push_back({(X * s.ax + x) * s.rx + i, (Y * s.ay + y) * s.ry + j, k});
              }
            }
            lat.push_back(static_cast<int>(s.rtms.size()));
            s.rtms.push_back(rtm);
          }
        }
        asy.push_back(static_cast<int>(s.lats.size()));
        s.lats.push_back(lat);
      }
      s.core.push_back(static_cast<int>(s.asys.size()));
      s.asys.push_back(asy);
    }
  }
}

Pin
drawPin(size_t nmats, double rmax)
{
  Pin p;
  int const n = range(1, 3);
  double const r = rmax * realIn(0.7, 1.0);
  for (int i = 0; i < n; ++i) {
    p.radii.push_back(r * (0.6 + 0.4 * (i + 1) / n));
    p.mats.push_back(static_cast<int>(pick(static_cast<uint32_t>(nmats))));
  }
  return p;
}

PinSpec
drawPins()
{
  PinSpec s;
  s.how = static_cast<int>(pick(3));
  drawGrid(s);
  static char const * const names[] = {"Fuel", "Clad", "Gap", "Moderator", "Fuel2", "UO2_3.1", "He", "B4C"};
  int const nm = range(2, 6);
  uint32_t const first = pick(8);
  for (int i = 0; i < nm; ++i) {
    MatSpec m;
    m.name = names[(first + static_cast<uint32_t>(i) * 3) % 8];
    m.zaid = {92235 + i};
    m.nd = {0.01 * (i + 1)};
    m.a = {0.1 + 0.05 * i};
    m.f = {i == 0 ? 0.02 : 0.0};
    m.nuf = {i == 0 ? 0.05 : 0.0};
    m.s = {0.3};
    m.tr = {m.a[0] + m.s[0]};
    s.mats.push_back(m);
  }
  s.fill = static_cast<int>(pick(static_cast<uint32_t>(nm)));
  double const W = s.xs.back();
  double const H = s.ys.back();
  int const nz = static_cast<int>(s.zs.size()) - 1;
  double rmin = 10;
  if (s.how == 1) {
    s.lx = pick(3) == 0 ? range(1, 3) : s.nx;
    s.ly = pick(3) == 0 ? range(1, 3) : s.ny;
    s.pw = W / s.lx;
    s.ph = H / s.ly;
    if (pick(3) == 2) {
      s.ox = s.pw * realIn(-0.5, 0.5);
      s.oy = s.ph * realIn(-0.5, 0.5);
    }
    int const nk = range(1, 3);
    for (int k = 0; k < nk; ++k) {
      Pin p = drawPin(s.mats.size(), 0.45 * std::min(s.pw, s.ph));
      if (k > 0 && pick(4) == 3) {
        p.radii.clear(); // an empty place
        p.mats.clear();
      }
      s.kinds.push_back(p);
    }
    for (int j = 0; j < s.ly; ++j) {
      s.ids.emplace_back();
      for (int i = 0; i < s.lx; ++i) {
        int const k = static_cast<int>(pick(static_cast<uint32_t>(nk)));
        s.ids.back().push_back(k);
        Pin p = s.kinds[static_cast<size_t>(k)];
        p.x = s.ox + (i + 0.5) * s.pw;
        p.y = s.oy + (s.ly - 1 - j + 0.5) * s.ph;
        bool fits = true;
        for (double const r : p.radii) {
          fits = fits && clear(s, p.x, p.y, r);
        }
        if (!fits) {
          // cannot leave out one place: draw the pins one by one instead
          s.how = 0;
          continue;
        }
        if (!p.radii.empty()) {
          s.pins.push_back(p);
        }
      }
    }
  } else {
    int const n = range(1, 4);
    for (int i = 0; i < n; ++i) {
      size_t const ci = pick(static_cast<uint32_t>(s.nx));
      size_t const cj = pick(static_cast<uint32_t>(s.ny));
      Pin p = drawPin(s.mats.size(), 0.45 * std::min(s.xs[ci + 1] - s.xs[ci], s.ys[cj + 1] - s.ys[cj]));
      if (nz > 1 && pick(2) != 0) {
        p.k0 = range(0, nz - 1);
        p.k1 = range(p.k0, nz - 1);
      }
      if (pick(2) == 0) {
        // in the middle of a cell
        p.x = 0.5 * (s.xs[ci] + s.xs[ci + 1]);
        p.y = 0.5 * (s.ys[cj] + s.ys[cj + 1]);
      } else {
        p.x = W * realIn(-0.1, 1.1);
        p.y = H * realIn(-0.1, 1.1);
      }
      bool fits = true;
      for (double const r : p.radii) {
        fits = fits && clear(s, p.x, p.y, r);
      }
      for (auto const & q : s.pins) {
        fits = fits && std::hypot(p.x - q.x, p.y - q.y) > 1.1 * (p.radii.back() + q.radii.back());
      }
      if (fits) {
        s.pins.push_back(p);
      }
    }
  }
  if (s.pins.empty()) {
    Pin p;
    p.x = 0.5 * s.xs[1];
    p.y = 0.5 * s.ys[1];
    p.radii = {0.3};
    p.mats = {0};
    s.pins.push_back(p);
    s.how = s.how == 1 ? 0 : s.how;
  }
  for (auto const & p : s.pins) {
    rmin = std::min(rmin, p.radii[0]);
  }
  s.size = std::min(rmin / realIn(1.6, 3.0), 0.35);
  s.size = std::min(std::max(s.size, std::sqrt(W * H * nz / 250)), rmin / 1.6); // not too many faces
  s.mesh = static_cast<int>(pick(2));
  return s;
}

std::string
describePins(PinSpec const & s)
{
  static char const * const hows[] = {"pins", "lattice", "cylinders"};
  static char const * const meshes[] = {"triangles", "quadratic triangles"};
  return fmt("%d x %d x %zu places for %zu cells (%zu modules, %zu assemblies), %zu %s, %zu materials, %s of size %g", s.nx, s.ny,
             s.zs.size() - 1, s.cells.size(), s.rtms.size(), s.asys.size(), s.pins.size(), hows[s.how], s.mats.size(),
             meshes[s.mesh], s.size);
}

//--------------------------------------------------------------------------------------------------
// The programs
//--------------------------------------------------------------------------------------------------

um2::mpact::Model
gridModel(PinSpec const & s)
{
  um2::mpact::Model m;
  for (auto const & x : s.mats) {
    m.addMaterial(buildMaterial(x));
  }
  if (s.plain) {
    m.addCoarseGrid({s.xs.back(), s.ys.back()}, {s.nx, s.ny});
    return m;
  }
  auto rows = [](std::vector<int> const & ids, int nx) {
    um2::Vector<um2::Vector<Int>> out; // the top row first
    for (size_t j = ids.size() / static_cast<size_t>(nx); j > 0; --j) {
      um2::Vector<Int> row;
      for (size_t i = 0; i < static_cast<size_t>(nx); ++i) {
        row.emplace_back(ids[(j - 1) * static_cast<size_t>(nx) + i]);
      }
      out.emplace_back(row);
    }
    return out;
  };
  for (auto const & c : s.cells) {
    auto const i = static_cast<size_t>(c.i);
    auto const j = static_cast<size_t>(c.j);
    m.addCoarseCell({s.xs[i + 1] - s.xs[i], s.ys[j + 1] - s.ys[j]});
  }
  for (auto const & r : s.rtms) {
    m.addRTM(rows(r, s.rx));
  }
  for (auto const & l : s.lats) {
    m.addLattice(rows(l, s.ax));
  }
  um2::Vector<Float> z;
  for (double const x : s.zs) {
    z.emplace_back(x);
  }
  for (auto const & a : s.asys) {
    um2::Vector<Int> ids;
    for (int const l : a) {
      ids.emplace_back(l);
    }
    m.addAssembly(ids, z);
  }
  m.addCore(rows(s.core, s.nx / s.rx / s.ax));
  return m;
}

// Draws the pins, lays the grid over them and writes the mesh.
void
makeMesh(PinSpec const & s, std::string const & inp)
{
  namespace gm = um2::gmsh;
  static um2::MeshType const types[] = {um2::MeshType::Tri, um2::MeshType::QuadraticTri};
  gm::initialize();
  gm::option::setNumber("General.Terminal", 0);
  int st = step("draw", [&] {
    std::vector<um2::Material> mats;
    for (auto const & x : s.mats) {
      mats.push_back(buildMaterial(x));
    }
    if (s.how == 1) {
      um2::Vector<um2::Vector<Int>> ids;
      for (auto const & row : s.ids) {
        um2::Vector<Int> r;
        for (int const k : row) {
          r.emplace_back(k);
        }
        ids.emplace_back(r);
      }
      um2::Vector<um2::Vec2F> ext;
      um2::Vector<um2::Vector<Float>> radii;
      um2::Vector<um2::Vector<um2::Material>> pm;
      for (auto const & k : s.kinds) {
        ext.emplace_back(s.pw, s.ph);
        um2::Vector<Float> r;
        um2::Vector<um2::Material> mm;
        for (size_t i = 0; i < k.radii.size(); ++i) {
          r.emplace_back(k.radii[i]);
          mm.emplace_back(mats[static_cast<size_t>(k.mats[i])]);
        }
        radii.emplace_back(r);
        pm.emplace_back(mm);
      }
      gm::model::occ::addCylindricalPinLattice2D(ids, ext, radii, pm, um2::Vec2F(s.ox, s.oy));
      return;
    }
    for (auto const & p : s.pins) {
      if (s.how == 0) {
        um2::Vector<Float> r;
        um2::Vector<um2::Material> mm;
        for (size_t i = 0; i < p.radii.size(); ++i) {
          r.emplace_back(p.radii[i]);
          mm.emplace_back(mats[static_cast<size_t>(p.mats[i])]);
        }
        gm::model::occ::addCylindricalPin2D(um2::Vec2F(p.x, p.y), r, mm);
        continue;
      }
      // cylinders, each ring without the ones inside it
      std::vector<int> tags;
      double z0 = s.zs.front() - 2;
      double dz = s.zs.back() + 2 - z0;
      if (p.k1 < 99) {
        auto const a = static_cast<size_t>(p.k0);
        auto const b = static_cast<size_t>(p.k1);
        z0 = 0.8 * s.zs[a] + 0.2 * s.zs[a + 1];
        dz = 0.2 * s.zs[b] + 0.8 * s.zs[b + 1] - z0;
      }
      for (size_t i = 0; i < p.radii.size(); ++i) {
        int const t = gm::model::occ::addCylinder(p.x, p.y, z0, 0, 0, dz, p.radii[i]);
        if (i == 0) {
          tags.push_back(t);
          continue;
        }
        int const inner = gm::model::occ::addCylinder(p.x, p.y, z0, 0, 0, dz, p.radii[i - 1]);
        gm::vectorpair out;
        std::vector<gm::vectorpair> map;
        gm::model::occ::cut(
            {
                {3, t}
        },
            {{3, inner}}, out, map);
        tags.push_back(out[0].second);
      }
      gm::model::occ::synchronize();
      for (size_t i = 0; i < tags.size(); ++i) {
        gm::model::addToPhysicalGroup(3, {tags[i]}, -1, "Material_" + s.mats[static_cast<size_t>(p.mats[i])].name);
      }
    }
  });
  if (st != ST_OK) {
    return;
  }
  st = step("overlay",
            [&] { gm::model::occ::overlayCoarseGrid(gridModel(s), buildMaterial(s.mats[static_cast<size_t>(s.fill)])); });
  if (st != ST_OK) {
    return;
  }
  st = step("mesh", [&] {
    gm::model::mesh::setGlobalMeshSize(s.size);
    gm::model::mesh::generateMesh(types[s.mesh]);
  });
  if (st != ST_OK) {
    return;
  }
  step("write", [&] { gm::write(inp); });
  gm::finalize();
}

// Puts the meshes into the model and saves it.
void
makeModel(PinSpec const & s, std::string const & inp, std::string const & path)
{
  auto m = gridModel(s);
  if (step("import", [&] { m.importCoarseCellMeshes(um2::String(inp.c_str())); }) == ST_OK) {
    step("save", [&] { m.write(um2::String(path.c_str()), false, false); });
  }
}

//--------------------------------------------------------------------------------------------------
// What the geometry says
//--------------------------------------------------------------------------------------------------

// The material at a point, -1 near a circle.
int
materialAt(PinSpec const & s, double x, double y, int k)
{
  for (auto const & p : s.pins) {
    if (k < p.k0 || k > p.k1) {
      continue;
    }
    double const d = std::hypot(x - p.x, y - p.y);
    for (size_t i = 0; i < p.radii.size(); ++i) {
      double const r = p.radii[i];
      double const seg = std::min(2.0, 1.7 * s.size / r);
      if (d < r && d > r * std::cos(seg / 2)) {
        return -1;
      }
      if (d < r) {
        return p.mats[i];
      }
    }
  }
  return s.fill;
}

std::string
judge(PinSpec const & s, um2::mpact::Model const & m)
{
  if (m.numCoarseCells() != static_cast<Int>(s.cells.size())) {
    return fmt("%d cells instead of %zu", static_cast<int>(m.numCoarseCells()), s.cells.size());
  }
  if (m.materials().size() != static_cast<Int>(s.mats.size())) {
    return "another number of materials";
  }
  for (size_t i = 0; i < s.mats.size(); ++i) {
    if (s.mats[i].name != m.materials()[static_cast<Int>(i)].getName().data()) {
      return fmt("material %zu is not %s", i, s.mats[i].name.c_str());
    }
  }
  double judged = 0;
  double total = 0;
  int const nax = s.nx / s.rx / s.ax;
  int const nay = s.ny / s.ry / s.ay;
  if (m.getCore().grid().numCells(0) != nax || m.getCore().grid().numCells(1) != nay) {
    return "the core has another size";
  }
  for (int j = 0; j < s.ny; ++j) {
    for (int i = 0; i < s.nx; ++i) {
      for (int k = 0; k + 1 < static_cast<int>(s.zs.size()); ++k) {
        // what is at this place
        int const X = i / s.rx / s.ax;
        int const Y = j / s.ry / s.ay;
        int const x = i / s.rx % s.ax;
        int const y = j / s.ry % s.ay;
        int const id = s.rtms[static_cast<size_t>(s.lats[static_cast<size_t>(s.asys[static_cast<size_t>(
            s.core[static_cast<size_t>(Y * nax + X)])][static_cast<size_t>(k)])][static_cast<size_t>(y * s.ax + x)])]
                             [static_cast<size_t>(j % s.ry * s.rx + i % s.rx)];
        auto const & first = s.cells[static_cast<size_t>(id)];
        double const x0 = s.xs[static_cast<size_t>(first.i)];
        double const y0 = s.ys[static_cast<size_t>(first.j)];
        double const w = s.xs[static_cast<size_t>(first.i) + 1] - x0;
        double const h = s.ys[static_cast<size_t>(first.j) + 1] - y0;
        auto const & asy = m.getAssembly(m.getCore().getChild(X, Y));
        if (asy.children().size() + 1 != static_cast<Int>(s.zs.size())) {
          return fmt("an assembly has %d layers", static_cast<int>(asy.children().size()));
        }
        auto const & lat = m.getLattice(asy.getChild(k));
        if (lat.grid().numCells(0) != s.ax || lat.grid().numCells(1) != s.ay) {
          return "a lattice has another size";
        }
        auto const & rtm = m.getRTM(lat.getChild(x, y));
        if (rtm.grid().numCells(0) != s.rx || rtm.grid().numCells(1) != s.ry) {
          return "a module has another size";
        }
        Int const c = rtm.getChild(i % s.rx, j % s.ry);
        auto const & cell = m.getCoarseCell(c);
        std::vector<std::array<double, 2>> v;
        std::vector<std::vector<int>> f;
        static int const kinds[] = {0, 2};
        if (!meshOfCell(m, c, kinds[s.mesh], v, f)) {
          return fmt("cell %d, %d, %d has another kind of mesh", i, j, k);
        }
        if (static_cast<size_t>(cell.material_ids.size()) != f.size()) {
          return fmt("cell %d, %d has %zu faces but %d materials", i, j, f.size(), static_cast<int>(cell.material_ids.size()));
        }
        if (std::abs(cell.xy_extents[0] - w) > 1e-9 || std::abs(cell.xy_extents[1] - h) > 1e-9) {
          return fmt("cell %d, %d has another size", i, j);
        }
        double area = 0;
        std::map<std::pair<int, int>, int> edges;
        for (size_t q = 0; q < f.size(); ++q) {
          std::array<double, 2> cen{};
          double const a = faceArea(v, f[q], &cen);
          if (!(a > 0)) {
            return fmt("face %zu of cell %d, %d has the area %g", q, i, j, a);
          }
          area += a;
          size_t const n = 3;
          for (size_t e = 0; e < n; ++e) {
            int const p = f[q][e];
            int const r = f[q][(e + 1) % n];
            ++edges[{std::min(p, r), std::max(p, r)}];
          }
          int const want = materialAt(s, x0 + cen[0], y0 + cen[1], first.k);
          int const got = cell.material_ids[static_cast<Int>(q)];
          if (want >= 0 && want != got) {
            return fmt("the face at %g, %g of cell %d, %d is of material %d instead of %s", cen[0], cen[1], i, j, got,
                       s.mats[static_cast<size_t>(want)].name.c_str());
          }
          judged += want >= 0 ? a : 0;
        }
        if (std::abs(area - w * h) > 1e-6 * w * h) {
          return fmt("the faces of cell %d, %d cover %.9g instead of %.9g", i, j, area, w * h);
        }
        total += area;
        for (auto const & [e, n] : edges) {
          auto const & a = v[static_cast<size_t>(e.first)];
          auto const & b = v[static_cast<size_t>(e.second)];
          bool const rim = (std::abs(a[0]) < 1e-7 && std::abs(b[0]) < 1e-7) || (std::abs(a[1]) < 1e-7 && std::abs(b[1]) < 1e-7) ||
                           (std::abs(a[0] - w) < 1e-7 && std::abs(b[0] - w) < 1e-7) ||
                           (std::abs(a[1] - h) < 1e-7 && std::abs(b[1] - h) < 1e-7);
          if (n != (rim ? 1 : 2)) {
            return fmt("an edge of cell %d, %d belongs to %d faces", i, j, n);
          }
        }
      }
    }
  }
  if (judged < 0.5 * total) {
    return "harness: most faces lie near a circle";
  }
  return "";
}

bool
bad(Proc const & p, char const * what)
{
  if (violated()) {
    return true;
  }
  if (p.livelock) {
    violate("G03:hang", "%s did not finish", what);
    return true;
  }
  return false;
}

void
g03()
{
  std::string const inp = pick(2) == 0 ? "/sim/a/pins.inp" : "/sim/cwd/v1.2.inp";
  std::string const path = pick(2) == 0 ? "/sim/a/pins.xdmf" : "/sim/cwd/core.xdmf";
  drawFill();
  int const n = pick(4) == 3 ? 2 : 1;
  for (int k = 0; k < n; ++k) {
    PinSpec const s = drawPins();
    int const level = 1 + static_cast<int>(pick(4));
    bool const eoe = pick(2) == 0;
    probe(s.how);
    probe(3 + s.mesh);
    if (!s.plain) {
      probe(5);
    }
    if (s.zs.size() > 2) {
      probe(10);
    }
    if (static_cast<size_t>(s.nx * s.ny) * (s.zs.size() - 1) > s.cells.size()) {
      probe(11);
    }
    auto mesh = [&](Cfg cfg) {
      cfg.cpu_s = 60;
      return process(cfg, [&] {
        quietLogger(level, eoe);
        makeMesh(s, inp);
      });
    };
    auto model = [&](Cfg const & cfg) {
      return process(cfg, [&] {
        quietLogger(level, eoe);
        makeModel(s, inp, path);
      });
    };
    auto load = [&](std::string const & why) {
      Proc const p = process({}, [&] {
        quietLogger(1, true);
        um2::mpact::Model m;
        int const st = step("load", [&] { m.read(um2::String(path.c_str())); });
        std::string const d = st == ST_OK ? judge(s, m) : std::string("it cannot be loaded");
        if (!d.empty()) {
          violate("G03:wrong", "the model made%s from %s is wrong: %s", why.c_str(), describePins(s).c_str(), d.c_str());
        }
      });
      if (!bad(p, "loading a model") && !p.success()) {
        violate("G03:wrong", "the model made%s from %s cannot be loaded: %s", why.c_str(), describePins(s).c_str(),
                lastWords(p).c_str());
      }
    };
    auto complete = [&](Proc const & p) {
      return p.success() && p.ok("draw") && p.ok("overlay") && p.ok("mesh") && p.ok("write");
    };
    Proc const a = mesh(pick(2) == 0 ? Cfg{} : drawBenign());
    if (bad(a, "meshing")) {
      return;
    }
    if (!complete(a)) {
      violate("G03:failed", "meshing %s failed (status %d, signal %d): %s", describePins(s).c_str(), a.code, a.sig,
              lastWords(a).c_str());
      return;
    }
    if (pick(3) == 2) {
      // meshing is interrupted and started again
      Cfg cfg;
      drawCrash(cfg, a);
      Proc const b = mesh(cfg);
      if (bad(b, "meshing")) {
        return;
      }
      if (b.crashed) {
        probe(6);
        nontrivial();
      }
      Proc const c = mesh({});
      if (bad(c, "meshing")) {
        return;
      }
      if (!complete(c)) {
        violate("G03:failed", "meshing %s again failed: %s", describePins(s).c_str(), lastWords(c).c_str());
        return;
      }
    }
    auto const disk0 = diskSnapshot();
    Proc const b = model(pick(2) == 0 ? Cfg{} : drawBenign());
    if (bad(b, "making a model")) {
      return;
    }
    if (!b.ok("import") || !b.ok("save") || !b.success()) {
      violate("G03:failed", "making a model from %s failed: %s", describePins(s).c_str(), lastWords(b).c_str());
      return;
    }
    load("");
    if (violated()) {
      return;
    }
    nontrivial();
    stateMix(static_cast<uint64_t>(s.how * 2 + s.mesh) * 64 + static_cast<uint64_t>(s.nx * 8 + s.ny));
    stateMix(s.pins.size());
    int const rounds = range(0, 4);
    for (int i = 0; i < rounds; ++i) {
      diskRestore(disk0);
      Cfg cfg = pick(3) == 0 ? drawBenign() : Cfg{};
      uint32_t const mode = pick(4);
      if (mode == 0) {
        drawReadFault(cfg, b);
      } else if (mode == 3) {
        drawCrash(cfg, b);
      } else {
        drawWriteFault(cfg, b);
      }
      Proc const c = model(cfg);
      if (bad(c, "making a model")) {
        return;
      }
      if (c.injected > 0) {
        nontrivial();
        probe(7 + (mode == 0 ? 0 : mode == 3 ? 2 : 1));
      }
      stateMix(static_cast<uint64_t>(c.code) + 3 * static_cast<uint64_t>(c.sig));
      if (!c.crashed && c.ok("import") && c.ok("save")) {
        load(" under" + sim::describe(cfg));
      } else if (pick(2) == 0) {
        // without the fault it works again
        Proc const e = model({});
        if (bad(e, "making a model")) {
          return;
        }
        if (!e.ok("import") || !e.ok("save") || !e.success()) {
          violate("G03:failed", "making a model from %s again after%s failed: %s", describePins(s).c_str(),
                  sim::describe(cfg).c_str(), lastWords(e).c_str());
          return;
        }
        load(" again after" + sim::describe(cfg));
      }
      if (violated()) {
        return;
      }
    }
  }
}
Register const r3("G03", g03);

} // namespace
