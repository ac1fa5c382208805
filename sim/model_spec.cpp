#include "model_spec.hpp"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <sstream>

namespace sim
{

//--------------------------------------------------------------------------------------------------
// Generation
//--------------------------------------------------------------------------------------------------

void
makeFaces(FvmSpec & f, Rng & r)
{
  int const nx = f.nx;
  int const ny = f.ny;
  bool const quad = f.kind == 1 || f.kind == 3;
  bool const second = f.kind >= 2;
  f.verts.clear();
  f.faces.clear();
  for (int j = 0; j <= ny; ++j) {
    for (int i = 0; i <= nx; ++i) {
      double x = f.w * i / nx;
      double y = f.h * j / ny;
      if (i > 0 && i < nx) {
        x += f.w / nx * 0.2 * (r.unit() - 0.5);
      }
      if (j > 0 && j < ny) {
        y += f.h / ny * 0.2 * (r.unit() - 0.5);
      }
      if (i == nx) {
        x = f.w;
      }
      if (j == ny) {
        y = f.h;
      }
      f.verts.push_back({x, y});
    }
  }
  auto id = [&](int i, int j) { return j * (nx + 1) + i; };
  for (int j = 0; j < ny; ++j) {
    for (int i = 0; i < nx; ++i) {
      int const a = id(i, j);
      int const b = id(i + 1, j);
      int const c = id(i + 1, j + 1);
      int const d = id(i, j + 1);
      if (quad) {
        f.faces.push_back({a, b, c, d});
      } else if (r.below(2) == 0) {
        f.faces.push_back({a, b, c});
        f.faces.push_back({a, c, d});
      } else {
        f.faces.push_back({a, b, d});
        f.faces.push_back({b, c, d});
      }
    }
  }
  // Rotate the start corner
  for (auto & fc : f.faces) {
    std::rotate(fc.begin(), fc.begin() + r.below(static_cast<uint32_t>(fc.size())), fc.end());
  }
  if (second) {
    std::map<std::pair<int, int>, int> mids;
    for (auto & fc : f.faces) {
      size_t const n = fc.size();
      for (size_t k = 0; k < n; ++k) {
        int const p = fc[k];
        int const q = fc[(k + 1) % n];
        auto const key = std::minmax(p, q);
        auto it = mids.find(key);
        if (it == mids.end()) {
          auto const P = f.verts[static_cast<size_t>(p)];
          auto const Q = f.verts[static_cast<size_t>(q)];
          double mx = (P[0] + Q[0]) / 2;
          double my = (P[1] + Q[1]) / 2;
          auto edge = [](double a1, double a2, double lim) {
            return (a1 == 0 && a2 == 0) || (a1 == lim && a2 == lim);
          };
          bool const on_boundary = edge(P[0], Q[0], f.w) || edge(P[1], Q[1], f.h);
          if (!on_boundary && r.below(2) == 0) {
            // a bulge that is small against the thin side of the face
            double const dx = Q[0] - P[0];
            double const dy = Q[1] - P[1];
            double const thin = std::min(f.w / nx, f.h / ny);
            double const s = 0.1 * (r.unit() - 0.5) * thin / std::hypot(dx, dy);
            mx += -dy * s;
            my += dx * s;
          }
          it = mids.emplace(key, static_cast<int>(f.verts.size())).first;
          f.verts.push_back({mx, my});
        }
        fc.push_back(it->second);
      }
    }
  }
  // Shuffle vertices and faces
  std::vector<int> perm(f.verts.size());
  for (size_t i = 0; i < perm.size(); ++i) {
    perm[i] = static_cast<int>(i);
  }
  for (size_t i = perm.size(); i > 1; --i) {
    std::swap(perm[i - 1], perm[r.below(static_cast<uint32_t>(i))]);
  }
  auto const old = f.verts;
  for (size_t i = 0; i < perm.size(); ++i) {
    f.verts[static_cast<size_t>(perm[i])] = old[i];
  }
  for (auto & fc : f.faces) {
    for (auto & v : fc) {
      v = perm[static_cast<size_t>(v)];
    }
  }
  for (size_t i = f.faces.size(); i > 1; --i) {
    std::swap(f.faces[i - 1], f.faces[r.below(static_cast<uint32_t>(i))]);
  }
  f.nfaces = static_cast<int>(f.faces.size());
}

namespace
{

MatSpec
drawMat(Rng & r, int i, int groups, bool safe)
{
  MatSpec m;
  char const * const stems[] = {"Fuel", "H2O", "Clad-", "B4C.x", "UO2_3.3", "m"};
  m.name = stems[r.below(6)] + std::to_string(i);
  if (!safe && r.below(5) == 0) {
    m.name += " (hot) & <b>";
  }
  if (r.below(8) == 0) {
    m.name += std::string(40, 'q');
  }
  m.temperature = 273 + static_cast<double>(r.below(2000)) / 2;
  m.density = 0.5 + static_cast<double>(r.below(30000)) / 1000;
  static int const zaids[] = {1001, 8016, 92235, 92238, 40000, 5010, 64155};
  uint32_t const nn = r.below(12) == 0 ? 5 + r.below(60) : r.below(5);
  for (uint32_t k = 0; k < nn; ++k) {
    m.zaid.push_back(k < 7 ? zaids[(k + static_cast<uint32_t>(i)) % 7] : static_cast<int>(10020 + 1002 * k));
    m.nd.push_back((1 + r.below(99999)) * 1e-7);
  }
  for (int g = 0; g < groups; ++g) {
    m.a.push_back(0.01 + r.unit());
    bool const fis = i % 2 == 0;
    m.f.push_back(fis ? r.unit() * 0.3 : 0);
    m.nuf.push_back(fis ? m.f.back() * 2.4 : 0);
    m.s.push_back(0.1 + r.unit());
    m.tr.push_back(m.a.back() + m.s.back());
  }
  return m;
}

// Renumber: new_id = perm[old_id]
template <class T>
std::vector<int>
shuffle(std::vector<T> & v, Rng & r)
{
  size_t const n = v.size();
  std::vector<int> perm(n);
  for (size_t i = 0; i < n; ++i) {
    perm[i] = static_cast<int>(i);
  }
  for (size_t i = n; i > 1; --i) {
    std::swap(perm[i - 1], perm[r.below(static_cast<uint32_t>(i))]);
  }
  std::vector<T> out(n);
  for (size_t i = 0; i < n; ++i) {
    out[static_cast<size_t>(perm[i])] = v[i];
  }
  v = out;
  return perm;
}

} // namespace

ModelSpec
drawModel(ModelOpts const & o)
{
  ModelSpec m;
  uint32_t const size = pick(o.small ? 3 : 6);
  bool const axial = pick(2) != 0;
  uint32_t const nm = pick(12);
  int const nmat = nm == 11 ? 100 : 1 + static_cast<int>(nm % 5);
  uint32_t const kinds = pick(15) + 1; // which mesh kinds occur
  bool const reuse_much = pick(2) != 0;
  bool const in_order = pick(3) == 2;
  uint32_t const gsel = pick(4);
  // now and then: 1 many layers, 2 many cells in a module, 3 many modules in a lattice, 4 a wide core,
  // 5 a core of more than 100 different assemblies, 6 cells of hundreds of faces,
  // 7 up to 144 different modules
  uint32_t const bsel = o.small ? 0 : pick(42);
  uint32_t const big = bsel >= 35 ? bsel - 34 : 0;
  Rng r(pick(1U << 30));
  int const groups = o.groups > 0 ? o.groups : (gsel == 3 ? 7 : 1 + static_cast<int>(gsel));
  for (int i = 0; i < nmat; ++i) {
    m.mats.push_back(drawMat(r, i, groups, o.mats_safe));
  }
  static double const units[] = {1.26, 1.0, 0.6, 2.5, 1.0 / 3.0};
  double const W = units[r.below(5)] * (1 + r.below(3));
  double const H = r.below(3) == 0 ? W * 1.5 : W;
  uint32_t const reuse = reuse_much ? 6 : 2;

  auto newMesh = [&](double w, double h) {
    FvmSpec f;
    do {
      f.kind = static_cast<int>(r.below(4));
    } while ((kinds >> f.kind & 1U) == 0);
    f.w = w;
    f.h = h;
    if (w == h && (f.kind == 1 || f.kind == 3) && r.below(2) == 0) {
      f.how = 1;
      f.naz = 8;
      double const p = w;
      if (r.below(2) == 0) {
        f.radii = {0.3 * p};
        f.rings = {1 + static_cast<int>(r.below(2))};
      } else {
        f.radii = {0.25 * p, 0.375 * p};
        f.rings = {1 + static_cast<int>(r.below(2)), 1};
      }
      int total = 0;
      for (int const k : f.rings) {
        total += k;
      }
      f.nfaces = f.naz * (total + 1);
    } else {
      uint32_t const most = big == 6 && m.meshes.size() < 2 ? 20 : 3;
      f.nx = 1 + static_cast<int>(r.below(most));
      f.ny = 1 + static_cast<int>(r.below(most));
      if (f.kind == 1 && r.below(3) == 0) {
        f.how = 2;
        f.nfaces = f.nx * f.ny;
      } else {
        makeFaces(f, r);
      }
    }
    m.meshes.push_back(f);
    return static_cast<int>(m.meshes.size()) - 1;
  };
  auto pickShape = [&](auto const & v, auto same) {
    std::vector<int> ok;
    for (size_t i = 0; i < v.size(); ++i) {
      if (same(v[i])) {
        ok.push_back(static_cast<int>(i));
      }
    }
    if (ok.empty() || r.below(8) >= reuse) {
      return -1;
    }
    return ok[r.below(static_cast<uint32_t>(ok.size()))];
  };
  auto cellOf = [&](double w, double h) {
    int c = big == 7 ? -1 : pickShape(m.cells, [&](CellSpec const & s) {
      auto const & f = m.meshes[static_cast<size_t>(s.mesh)];
      return f.w == w && f.h == h;
    });
    if (c < 0) {
      int g = pickShape(m.meshes, [&](FvmSpec const & f) { return f.w == w && f.h == h; });
      if (g < 0) {
        g = newMesh(w, h);
      }
      CellSpec s;
      s.mesh = g;
      for (int i = 0; i < m.meshes[static_cast<size_t>(g)].nfaces; ++i) {
        s.mats.push_back(static_cast<int>(r.below(static_cast<uint32_t>(nmat))));
      }
      m.cells.push_back(s);
      c = static_cast<int>(m.cells.size()) - 1;
    }
    return c;
  };
  auto cuts = [&](double L) {
    std::vector<double> d;
    if (big == 7 && r.below(8) != 0) {
      return std::vector<double>{L};
    }
    if (big == 2) {
      for (int left = 8; left > 0;) {
        int const n = std::min(left, 1 + static_cast<int>(r.below(4)) / 3);
        d.push_back(L / 8 * n);
        left -= n;
      }
      return d;
    }
    switch (r.below(4)) {
    case 0:
      d = {L};
      break;
    case 1:
      d = {L / 2, L / 2};
      break;
    case 2:
      d = {L / 4, L / 2, L / 4};
      break;
    default:
      d = {L / 2, L / 4, L / 4};
    }
    return d;
  };
  uint32_t const max_rtm = big == 7 ? 144 : big == 5 ? 1 : size < 2 || big == 2 ? 2 : 4;
  auto rtmOf = [&]() {
    if (!m.rtms.empty() && (m.rtms.size() >= max_rtm || (big != 7 && r.below(8) < reuse))) {
      return static_cast<int>(r.below(static_cast<uint32_t>(m.rtms.size())));
    }
    Rows rows;
    std::vector<double> xs = cuts(W);
    std::vector<double> ys = cuts(H);
    if (size < 2 && r.below(2) == 0) {
      xs = {W};
    }
    for (size_t j = 0; j < ys.size(); ++j) {
      std::vector<int> row;
      for (size_t i = 0; i < xs.size(); ++i) {
        row.push_back(cellOf(xs[i], ys[j]));
      }
      rows.push_back(row);
    }
    m.rtms.push_back(rows);
    return static_cast<int>(m.rtms.size()) - 1;
  };
  auto latOf = [&](int nx, int ny) {
    int l = pickShape(m.lats, [&](Rows const & q) {
      return static_cast<int>(q.size()) == ny && static_cast<int>(q[0].size()) == nx;
    });
    if (l < 0) {
      Rows rows;
      for (int j = 0; j < ny; ++j) {
        std::vector<int> row;
        for (int i = 0; i < nx; ++i) {
          row.push_back(rtmOf());
        }
        rows.push_back(row);
      }
      m.lats.push_back(rows);
      l = static_cast<int>(m.lats.size()) - 1;
    }
    return l;
  };
  // heights
  double const top = axial ? 10 + r.below(100) + r.below(1000000) * 1e-6 : 0.5;
  std::map<int, std::pair<int, int>> asy_dims;
  auto asyOf = [&](int nx, int ny) {
    std::vector<int> ok;
    for (auto const & [id, d] : asy_dims) {
      if (d == std::make_pair(nx, ny)) {
        ok.push_back(id);
      }
    }
    if (!ok.empty() && big != 5 && r.below(8) < reuse) {
      return ok[r.below(static_cast<uint32_t>(ok.size()))];
    }
    AsySpec a;
    if (axial) {
      int const nz = 1 + static_cast<int>(r.below(big == 1 ? 16 : size < 2 ? 2 : 3));
      a.z.push_back(0);
      for (int k = 1; k < nz; ++k) {
        a.z.push_back(a.z.back() + std::round((top - a.z.back()) / 3 * r.unit() * 1e6 + 10) * 1e-6);
      }
      a.z.push_back(top);
      for (int k = 0; k < nz; ++k) {
        a.lats.push_back(latOf(nx, ny));
      }
    } else {
      a.z = {-0.5, 0.5};
      a.lats = {latOf(nx, ny)};
    }
    m.asys.push_back(a);
    int const id = static_cast<int>(m.asys.size()) - 1;
    asy_dims[id] = {nx, ny};
    return id;
  };
  int ncx = size == 0 ? 1 : 1 + static_cast<int>(r.below(size < 3 ? 2 : 3));
  int ncy = size == 0 ? 1 : 1 + static_cast<int>(r.below(size < 3 ? 2 : 3));
  std::vector<int> colx;
  std::vector<int> rowy;
  uint32_t lim = size < 3 ? 1 : (ncx * ncy > 4 ? 2 : 3);
  if (big == 2 || big == 6) {
    lim = std::min(lim, 2U);
    ncx = std::min(ncx, 2);
    ncy = 1;
  } else if (big == 3) {
    lim = 7;
    ncx = 1 + static_cast<int>(r.below(2));
    ncy = 1;
  } else if (big == 7) {
    lim = 12;
    ncx = 1;
    ncy = 1;
  } else if (big == 4) {
    lim = 1;
    ncx = 4 + static_cast<int>(r.below(9));
    ncy = 1 + static_cast<int>(r.below(3));
    if (r.below(2) == 0) {
      std::swap(ncx, ncy);
    }
  } else if (big == 5) {
    lim = 1;
    ncx = 11;
    ncy = 10;
  }
  for (int i = 0; i < ncx; ++i) {
    colx.push_back(1 + static_cast<int>(r.below(lim)));
  }
  for (int j = 0; j < ncy; ++j) {
    rowy.push_back(1 + static_cast<int>(r.below(lim)));
  }
  for (int j = 0; j < ncy; ++j) {
    std::vector<int> row;
    for (int i = 0; i < ncx; ++i) {
      row.push_back(asyOf(colx[static_cast<size_t>(i)], rowy[static_cast<size_t>(j)]));
    }
    m.core.push_back(row);
  }
  // Drop meshes nobody uses is not needed: every mesh was made for a cell.
  if (!in_order) {
    auto apply = [](Rows & rows, std::vector<int> const & p) {
      for (auto & row : rows) {
        for (auto & x : row) {
          x = p[static_cast<size_t>(x)];
        }
      }
    };
    auto pm = shuffle(m.meshes, r);
    for (auto & c : m.cells) {
      c.mesh = pm[static_cast<size_t>(c.mesh)];
    }
    auto pc = shuffle(m.cells, r);
    for (auto & q : m.rtms) {
      apply(q, pc);
    }
    auto pr = shuffle(m.rtms, r);
    for (auto & q : m.lats) {
      apply(q, pr);
    }
    auto pl = shuffle(m.lats, r);
    for (auto & q : m.asys) {
      for (auto & x : q.lats) {
        x = pl[static_cast<size_t>(x)];
      }
    }
    auto pa = shuffle(m.asys, r);
    apply(m.core, pa);
  }
  return m;
}

std::string
describe(ModelSpec const & m)
{
  return fmt("core %zux%zu, %zu assemblies, %zu lattices, %zu modules, %zu cells, %zu meshes, %zu materials",
             m.core[0].size(), m.core.size(), m.asys.size(), m.lats.size(), m.rtms.size(), m.cells.size(),
             m.meshes.size(), m.mats.size());
}

//--------------------------------------------------------------------------------------------------
// Building with the library
//--------------------------------------------------------------------------------------------------

um2::Material
buildMaterial(MatSpec const & s)
{
  um2::Material m;
  m.setName(um2::String(s.name.c_str()));
  m.setTemperature(s.temperature);
  m.setDensity(s.density);
  for (size_t i = 0; i < s.zaid.size(); ++i) {
    m.zaids().emplace_back(s.zaid[i]);
    m.numDensities().emplace_back(s.nd[i]);
  }
  auto const ng = static_cast<Int>(s.a.size());
  if (ng == 0) {
    return m;
  }
  um2::XSec x(ng);
  x.isMacro() = true;
  for (Int g = 0; g < ng; ++g) {
    auto const k = static_cast<size_t>(g);
    x.a()[g] = s.a[k];
    x.f()[g] = s.f[k];
    x.nuf()[g] = s.nuf[k];
    x.tr()[g] = s.tr[k];
    x.s()[g] = s.s[k];
    x.ss()(g, g) = s.s[k];
    if (s.f[k] > 0) {
      x.isFissile() = true;
    }
  }
  m.xsec() = x;
  return m;
}

namespace
{

template <Int N>
void
toLib(FvmSpec const & f, um2::Vector<um2::Point2F> & v, um2::Vector<um2::Vec<N, Int>> & fv)
{
  for (auto const & p : f.verts) {
    v.emplace_back(p[0], p[1]);
  }
  for (auto const & c : f.faces) {
    um2::Vec<N, Int> q;
    for (Int i = 0; i < N; ++i) {
      q[i] = static_cast<Int>(c[static_cast<size_t>(i)]);
    }
    fv.emplace_back(q);
  }
}

um2::MeshType const mesh_types[] = {um2::MeshType::Tri, um2::MeshType::Quad, um2::MeshType::QuadraticTri,
                                    um2::MeshType::QuadraticQuad};

Int
addMesh(um2::mpact::Model & m, FvmSpec const & f)
{
  if (f.how == 1) {
    um2::Vector<Float> radii;
    um2::Vector<Int> rings;
    for (double const x : f.radii) {
      radii.emplace_back(x);
    }
    for (int const x : f.rings) {
      rings.emplace_back(static_cast<Int>(x));
    }
    return m.addCylindricalPinMesh(f.w, radii, rings, f.naz, f.kind == 1 ? 1 : 2);
  }
  if (f.how == 2) {
    return m.addRectangularPinMesh(um2::Vec2F(f.w, f.h), f.nx, f.ny);
  }
  um2::Vector<um2::Point2F> v;
  switch (f.kind) {
  case 0: {
    um2::Vector<um2::Vec<3, Int>> fv;
    toLib<3>(f, v, fv);
    return m.addTriMesh(um2::TriFVM(v, fv));
  }
  case 1: {
    um2::Vector<um2::Vec<4, Int>> fv;
    toLib<4>(f, v, fv);
    return m.addQuadMesh(um2::QuadFVM(v, fv));
  }
  case 2: {
    um2::Vector<um2::Vec<6, Int>> fv;
    toLib<6>(f, v, fv);
    return m.addTri6Mesh(um2::Tri6FVM(v, fv));
  }
  default: {
    um2::Vector<um2::Vec<8, Int>> fv;
    toLib<8>(f, v, fv);
    return m.addQuad8Mesh(um2::Quad8FVM(v, fv));
  }
  }
}

um2::Vector<um2::Vector<Int>>
toLibRows(Rows const & r)
{
  um2::Vector<um2::Vector<Int>> out;
  for (auto const & row : r) {
    um2::Vector<Int> v;
    for (int const x : row) {
      v.emplace_back(static_cast<Int>(x));
    }
    out.emplace_back(v);
  }
  return out;
}

} // namespace

um2::mpact::Model
build(ModelSpec const & s)
{
  um2::mpact::Model m;
  for (auto const & q : s.mats) {
    m.addMaterial(buildMaterial(q));
  }
  std::vector<Int> ids;
  for (auto const & f : s.meshes) {
    ids.push_back(addMesh(m, f));
  }
  for (auto const & c : s.cells) {
    auto const & f = s.meshes[static_cast<size_t>(c.mesh)];
    um2::Vector<MatID> mats;
    for (int const x : c.mats) {
      mats.emplace_back(static_cast<MatID>(x));
    }
    m.addCoarseCell(um2::Vec2F(f.w, f.h), mesh_types[f.kind], ids[static_cast<size_t>(c.mesh)], mats);
  }
  for (auto const & q : s.rtms) {
    m.addRTM(toLibRows(q));
  }
  for (auto const & q : s.lats) {
    m.addLattice(toLibRows(q));
  }
  for (auto const & q : s.asys) {
    um2::Vector<Int> lats;
    um2::Vector<Float> z;
    for (int const x : q.lats) {
      lats.emplace_back(static_cast<Int>(x));
    }
    for (double const x : q.z) {
      z.emplace_back(x);
    }
    m.addAssembly(lats, z);
  }
  m.addCore(toLibRows(s.core));
  return m;
}

//--------------------------------------------------------------------------------------------------
// Comparison
//--------------------------------------------------------------------------------------------------

namespace
{

template <class M>
void
fromLib(M const & mesh, std::vector<std::array<double, 2>> & verts, std::vector<std::vector<int>> & faces)
{
  verts.clear();
  faces.clear();
  for (Int i = 0; i < mesh.numVertices(); ++i) {
    auto const & p = mesh.getVertex(i);
    verts.push_back({p[0], p[1]});
  }
  for (Int i = 0; i < mesh.numFaces(); ++i) {
    auto const & c = mesh.getFaceConn(i);
    std::vector<int> q;
    for (auto const v : c) {
      q.push_back(v);
    }
    faces.push_back(q);
  }
}

void
meshOf(um2::mpact::Model const & m, um2::MeshType t, Int id, std::vector<std::array<double, 2>> & verts,
       std::vector<std::vector<int>> & faces)
{
  switch (t) {
  case um2::MeshType::Tri:
    fromLib(m.getTriMesh(id), verts, faces);
    break;
  case um2::MeshType::Quad:
    fromLib(m.getQuadMesh(id), verts, faces);
    break;
  case um2::MeshType::QuadraticTri:
    fromLib(m.getTri6Mesh(id), verts, faces);
    break;
  case um2::MeshType::QuadraticQuad:
    fromLib(m.getQuad8Mesh(id), verts, faces);
    break;
  default:
    verts.clear();
    faces.clear();
  }
}

template <class P>
std::string
compareRows(char const * what, size_t id, Rows const & want, P const & got)
{
  if (got.grid().numCells(0) != static_cast<Int>(want[0].size()) ||
      got.grid().numCells(1) != static_cast<Int>(want.size())) {
    return fmt("%s %zu: size expected %zux%zu, got %dx%d", what, id, want[0].size(), want.size(),
               static_cast<int>(got.grid().numCells(0)), static_cast<int>(got.grid().numCells(1)));
  }
  if (got.children().size() != static_cast<Int>(want.size() * want[0].size())) {
    return fmt("%s %zu: wrong number of children", what, id);
  }
  auto const ny = static_cast<Int>(want.size());
  for (Int j = 0; j < ny; ++j) {
    for (Int i = 0; i < static_cast<Int>(want[0].size()); ++i) {
      int const w = want[static_cast<size_t>(ny - 1 - j)][static_cast<size_t>(i)];
      int const g = got.getChild(i, j);
      if (w != g) {
        return fmt("%s %zu: at column %d, row %d from the bottom expected %d, got %d", what, id, i, j, w, g);
      }
    }
  }
  return "";
}

bool
close(double a, double b, double tol)
{
  return std::abs(a - b) <= tol;
}

} // namespace

Int
addMeshTo(um2::mpact::Model & m, FvmSpec const & f)
{
  return addMesh(m, f);
}

bool
meshOfCell(um2::mpact::Model const & m, Int cell, int kind, std::vector<std::array<double, 2>> & verts,
           std::vector<std::vector<int>> & faces)
{
  auto const & c = m.getCoarseCell(cell);
  if (c.mesh_type != mesh_types[kind]) {
    return false;
  }
  meshOf(m, c.mesh_type, c.mesh_id, verts, faces);
  return true;
}

void
realise(FvmSpec const & f, std::vector<std::array<double, 2>> & verts, std::vector<std::vector<int>> & faces)
{
  if (f.how == 0) {
    verts = f.verts;
    faces = f.faces;
    return;
  }
  um2::mpact::Model m;
  Int const id = addMesh(m, f);
  meshOf(m, mesh_types[f.kind], id, verts, faces);
}

double
coreVolume(ModelSpec const & m)
{
  double v = 0;
  for (auto const & row : m.core) {
    for (int const a : row) {
      auto const & asy = m.asys[static_cast<size_t>(a)];
      for (size_t k = 0; k < asy.lats.size(); ++k) {
        double const dz = asy.z[k + 1] - asy.z[k];
        for (auto const & lr : m.lats[static_cast<size_t>(asy.lats[k])]) {
          for (int const t : lr) {
            for (auto const & rr : m.rtms[static_cast<size_t>(t)]) {
              for (int const c : rr) {
                auto const & f = m.meshes[static_cast<size_t>(m.cells[static_cast<size_t>(c)].mesh)];
                v += f.w * f.h * dz;
              }
            }
          }
        }
      }
    }
  }
  return v;
}

std::string
compare(ModelSpec const & s, um2::mpact::Model const & got, bool rounded_z)
{
  if (got.materials().size() != static_cast<Int>(s.mats.size())) {
    return fmt("number of materials: expected %zu, got %d", s.mats.size(), static_cast<int>(got.materials().size()));
  }
  for (size_t i = 0; i < s.mats.size(); ++i) {
    std::string const g(got.materials()[static_cast<Int>(i)].getName().data());
    if (g != s.mats[i].name) {
      return fmt("material %zu: expected name '%s', got '%s'", i, s.mats[i].name.c_str(), g.c_str());
    }
  }
  auto count = [&](char const * what, size_t w, Int g) {
    return static_cast<Int>(w) == g ? std::string() : fmt("number of %s: expected %zu, got %d", what, w, static_cast<int>(g));
  };
  std::string d = count("assemblies", s.asys.size(), got.numAssemblies());
  if (d.empty()) {
    d = count("lattices", s.lats.size(), got.numLattices());
  }
  if (d.empty()) {
    d = count("modules", s.rtms.size(), got.numRTMs());
  }
  if (d.empty()) {
    d = count("cells", s.cells.size(), got.numCoarseCells());
  }
  if (d.empty()) {
    d = compareRows("core", 0, s.core, got.getCore());
  }
  for (size_t i = 0; d.empty() && i < s.lats.size(); ++i) {
    d = compareRows("lattice", i, s.lats[i], got.getLattice(static_cast<Int>(i)));
  }
  for (size_t i = 0; d.empty() && i < s.rtms.size(); ++i) {
    d = compareRows("module", i, s.rtms[i], got.getRTM(static_cast<Int>(i)));
  }
  if (!d.empty()) {
    return d;
  }
  for (size_t i = 0; i < s.asys.size(); ++i) {
    auto const & a = got.getAssembly(static_cast<Int>(i));
    auto const & w = s.asys[i];
    if (a.children().size() != static_cast<Int>(w.lats.size()) || a.grid().divs(0).size() != static_cast<Int>(w.z.size())) {
      return fmt("assembly %zu: wrong number of slices", i);
    }
    for (size_t k = 0; k < w.lats.size(); ++k) {
      if (a.getChild(static_cast<Int>(k)) != w.lats[k]) {
        return fmt("assembly %zu slice %zu: expected lattice %d, got %d", i, k, w.lats[k],
                   static_cast<int>(a.getChild(static_cast<Int>(k))));
      }
    }
    for (size_t k = 0; k < w.z.size(); ++k) {
      double const g = a.grid().divs(0)[static_cast<Int>(k)];
      if (!close(g, w.z[k], rounded_z ? 5.1e-7 : 0)) {
        return fmt("assembly %zu: height %zu expected %.9g, got %.9g", i, k, w.z[k], g);
      }
    }
  }
  double scale = 1;
  {
    auto const e = got.getCore().grid().extents();
    scale += e[0] + e[1];
  }
  double const tol = 1e-13 * scale * 16;
  std::vector<std::array<double, 2>> wv;
  std::vector<std::array<double, 2>> gv;
  std::vector<std::vector<int>> wf;
  std::vector<std::vector<int>> gf;
  for (size_t i = 0; i < s.cells.size(); ++i) {
    auto const & c = got.getCoarseCell(static_cast<Int>(i));
    auto const & f = s.meshes[static_cast<size_t>(s.cells[i].mesh)];
    if (c.mesh_type != mesh_types[f.kind]) {
      return fmt("cell %zu: wrong mesh kind", i);
    }
    if (!close(c.xy_extents[0], f.w, tol) || !close(c.xy_extents[1], f.h, tol)) {
      return fmt("cell %zu: expected size %.17g x %.17g, got %.17g x %.17g", i, f.w, f.h, c.xy_extents[0], c.xy_extents[1]);
    }
    if (c.material_ids.size() != static_cast<Int>(s.cells[i].mats.size())) {
      return fmt("cell %zu: number of faces expected %zu, got %d", i, s.cells[i].mats.size(),
                 static_cast<int>(c.material_ids.size()));
    }
    for (size_t k = 0; k < s.cells[i].mats.size(); ++k) {
      if (static_cast<int>(c.material_ids[static_cast<Int>(k)]) != s.cells[i].mats[k]) {
        return fmt("cell %zu face %zu: expected material %d, got %d", i, k, s.cells[i].mats[k],
                   static_cast<int>(c.material_ids[static_cast<Int>(k)]));
      }
    }
    realise(f, wv, wf);
    meshOf(got, c.mesh_type, c.mesh_id, gv, gf);
    if (wv.size() != gv.size() || wf.size() != gf.size()) {
      return fmt("cell %zu: expected %zu vertices and %zu faces, got %zu and %zu", i, wv.size(), wf.size(), gv.size(),
                 gf.size());
    }
    for (size_t k = 0; k < wf.size(); ++k) {
      if (wf[k] != gf[k]) {
        return fmt("cell %zu face %zu: wrong corners", i, k);
      }
    }
    for (size_t k = 0; k < wv.size(); ++k) {
      if (!close(wv[k][0], gv[k][0], tol) || !close(wv[k][1], gv[k][1], tol)) {
        return fmt("cell %zu vertex %zu: expected (%.17g, %.17g), got (%.17g, %.17g)", i, k, wv[k][0], wv[k][1], gv[k][0],
                   gv[k][1]);
      }
    }
  }
  return "";
}

//--------------------------------------------------------------------------------------------------
// Companion files
//--------------------------------------------------------------------------------------------------

double
faceArea(std::vector<std::array<double, 2>> const & verts, std::vector<int> const & face, std::array<double, 2> * centroid)
{
  // Green's theorem with three-point Gauss quadrature on each edge (exact for straight and quadratic edges).
  size_t const n = face.size() >= 6 ? face.size() / 2 : face.size();
  bool const second = face.size() >= 6;
  static double const gx[] = {0.5 - 0.3872983346207417, 0.5, 0.5 + 0.3872983346207417};
  static double const gw[] = {5.0 / 18, 8.0 / 18, 5.0 / 18};
  double area = 0;
  double cx = 0;
  double cy = 0;
  auto const o = verts[static_cast<size_t>(face[0])];
  for (size_t k = 0; k < n; ++k) {
    auto p = verts[static_cast<size_t>(face[k])];
    auto q = verts[static_cast<size_t>(face[(k + 1) % n])];
    std::array<double, 2> mid = {(p[0] + q[0]) / 2, (p[1] + q[1]) / 2};
    if (second) {
      mid = verts[static_cast<size_t>(face[n + k])];
    }
    for (int c = 0; c < 2; ++c) {
      auto const u = static_cast<size_t>(c);
      p[u] -= o[u];
      q[u] -= o[u];
      mid[u] -= o[u];
    }
    for (int g = 0; g < 3; ++g) {
      double const t = gx[g];
      double const a = (2 * t - 1) * (t - 1);
      double const b = t * (2 * t - 1);
      double const m = 4 * t * (1 - t);
      double const da = 4 * t - 3;
      double const db = 4 * t - 1;
      double const dm = 4 - 8 * t;
      double const x = a * p[0] + b * q[0] + m * mid[0];
      double const y = a * p[1] + b * q[1] + m * mid[1];
      double const dx = da * p[0] + db * q[0] + dm * mid[0];
      double const dy = da * p[1] + db * q[1] + dm * mid[1];
      area += gw[g] * 0.5 * (x * dy - y * dx);
      cx += gw[g] * 0.5 * x * x * dy;
      cy -= gw[g] * 0.5 * y * y * dx;
    }
  }
  if (centroid != nullptr) {
    (*centroid) = {o[0] + cx / area, o[1] + cy / area};
  }
  return area;
}

namespace
{
std::vector<double>
volumesOf(ModelSpec const & m)
{
  std::vector<double> v(m.mats.size(), 0.0);
  // how much height each cell occupies
  std::vector<double> height(m.cells.size(), 0.0);
  for (auto const & row : m.core) {
    for (int const a : row) {
      auto const & asy = m.asys[static_cast<size_t>(a)];
      for (size_t k = 0; k < asy.lats.size(); ++k) {
        for (auto const & lr : m.lats[static_cast<size_t>(asy.lats[k])]) {
          for (int const t : lr) {
            for (auto const & rr : m.rtms[static_cast<size_t>(t)]) {
              for (int const c : rr) {
                height[static_cast<size_t>(c)] += asy.z[k + 1] - asy.z[k];
              }
            }
          }
        }
      }
    }
  }
  std::vector<std::array<double, 2>> verts;
  std::vector<std::vector<int>> faces;
  for (size_t c = 0; c < m.cells.size(); ++c) {
    realise(m.meshes[static_cast<size_t>(m.cells[c].mesh)], verts, faces);
    for (size_t i = 0; i < faces.size(); ++i) {
      v[static_cast<size_t>(m.cells[c].mats[i])] += faceArea(verts, faces[i]) * height[c];
    }
  }
  return v;
}

std::vector<std::string>
lines(std::string const & text)
{
  std::vector<std::string> out;
  std::istringstream is(text);
  std::string l;
  while (std::getline(is, l)) {
    out.push_back(l);
  }
  return out;
}

bool
numbers(std::string const & s, std::vector<double> & out)
{
  out.clear();
  char const * p = s.c_str();
  while (true) {
    while (*p == ' ' || *p == '\t') {
      ++p;
    }
    if (*p == '\0') {
      return true;
    }
    char * e = nullptr;
    double const v = strtod(p, &e);
    if (e == p) {
      return false;
    }
    out.push_back(v);
    p = e;
  }
}

bool
near(double got, double want, double rel)
{
  return std::abs(got - want) <= rel * std::abs(want) + 1e-300;
}
} // namespace

std::string
checkVolumes(ModelSpec const & m, std::string const & text)
{
  auto const l = lines(text);
  if (l.size() != m.mats.size()) {
    return fmt("volume file has %zu lines for %zu materials", l.size(), m.mats.size());
  }
  auto const want = volumesOf(m);
  double sum = 0;
  double total = 0;
  for (size_t i = 0; i < l.size(); ++i) {
    size_t const sp = l[i].rfind(' ');
    if (sp == std::string::npos || l[i].substr(0, sp) != m.mats[i].name) {
      return fmt("volume file line %zu does not name material '%s'", i + 1, m.mats[i].name.c_str());
    }
    std::vector<double> v;
    if (!numbers(l[i].substr(sp), v) || v.size() != 1) {
      return fmt("volume file line %zu has no volume", i + 1);
    }
    if (std::abs(v[0] - want[i]) > 1e-11 * (std::abs(want[i]) + coreVolume(m) * 1e-3)) {
      return fmt("material '%s': volume expected %.15g, got %.15g", m.mats[i].name.c_str(), want[i], v[0]);
    }
    sum += v[0];
  }
  total = coreVolume(m);
  if (!near(sum, total, 1e-10)) {
    return fmt("volumes add up to %.15g, the core has %.15g", sum, total);
  }
  return "";
}

std::string
checkXS(ModelSpec const & m, std::string const & text)
{
  auto const l = lines(text);
  size_t const ng = m.mats[0].a.size();
  std::vector<double> v;
  if (l.empty() || !numbers(l[0], v) || v.size() != 2 || v[0] != static_cast<double>(m.mats.size()) ||
      v[1] != static_cast<double>(ng)) {
    return "cross-section file does not start with the number of materials and groups";
  }
  if (l.size() != 1 + m.mats.size() * (1 + ng)) {
    return fmt("cross-section file has %zu lines instead of %zu", l.size(), 1 + m.mats.size() * (1 + ng));
  }
  size_t p = 1;
  for (auto const & mat : m.mats) {
    if (l[p] != mat.name) {
      return fmt("cross-section file line %zu does not name material '%s'", p + 1, mat.name.c_str());
    }
    ++p;
    for (size_t g = 0; g < ng; ++g, ++p) {
      double const want[] = {mat.a[g], mat.f[g], mat.nuf[g], mat.tr[g], mat.s[g]};
      if (!numbers(l[p], v) || v.size() != 5) {
        return fmt("cross-section file line %zu does not hold five values", p + 1);
      }
      for (size_t k = 0; k < 5; ++k) {
        if (!near(v[k], want[k], 1e-13)) {
          return fmt("material '%s' group %zu value %zu: expected %.15g, got %.15g", mat.name.c_str(), g, k, want[k], v[k]);
        }
      }
    }
  }
  return "";
}

std::string
checkInput(ModelSpec const & m, std::string const & text, std::string const & path)
{
  auto const l = lines(text);
  auto find = [&](std::string const & what, size_t from) {
    for (size_t i = from; i < l.size(); ++i) {
      if (l[i] == what) {
        return i;
      }
    }
    return l.size();
  };
  size_t const sl = path.rfind('/');
  std::string const name = path.substr(sl == std::string::npos ? 0 : sl + 1, path.rfind('.') - (sl == std::string::npos ? 0 : sl + 1));
  if (l.empty() || l[0].rfind("CASEID", 0) != 0 || l[0].find(name) == std::string::npos) {
    return "input file does not start with the name of the case";
  }
  size_t p = find("MATERIAL", 0);
  if (p == l.size()) {
    return "input file has no MATERIAL section";
  }
  ++p;
  for (size_t i = 0; i < m.mats.size(); ++i) {
    auto const & mat = m.mats[i];
    if (p + 1 >= l.size() || l[p].find("! " + mat.name) == std::string::npos) {
      return fmt("input file line %zu does not name material '%s'", p + 1, mat.name.c_str());
    }
    ++p;
    int id = 0;
    double dens = 0;
    double temp = 0;
    int used = 0;
    if (sscanf(l[p].c_str(), " mat %d <type> %lf g/cc %lf K \\ %n", &id, &dens, &temp, &used) < 3 || used == 0) {
      return fmt("input file line %zu is not a material line", p + 1);
    }
    if (id != static_cast<int>(i) + 1 || std::abs(dens - mat.density) > 1e-6 || std::abs(temp - mat.temperature) > 1e-6) {
      return fmt("input file: material '%s' has the wrong number, density or temperature", mat.name.c_str());
    }
    std::string rest = l[p].substr(static_cast<size_t>(used));
    for (size_t k = 0; k < mat.zaid.size(); ++k) {
      std::vector<double> v;
      if (!numbers(rest, v) || v.size() != 2 || v[0] != mat.zaid[k] || !near(v[1], mat.nd[k], 6e-6)) {
        return fmt("input file line %zu: wrong nuclide %zu of material '%s'", p + 1, k, mat.name.c_str());
      }
      ++p;
      rest = p < l.size() ? l[p] : "";
    }
    if (mat.zaid.empty()) {
      ++p;
      if (!rest.empty()) {
        return fmt("input file line %zu: material '%s' has no nuclides", p, mat.name.c_str());
      }
    }
  }
  size_t const g = find("GEOM", p);
  if (g + 2 >= l.size() || l[g + 2].find(path) == std::string::npos) {
    return "input file does not name the model file";
  }
  for (char const * const s : {"XSEC", "OPTION"}) {
    if (find(s, p) == l.size()) {
      return fmt("input file has no %s section", s);
    }
  }
  return "";
}

} // namespace sim
