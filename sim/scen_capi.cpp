// K01: the C interface.
#include "model_spec.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <um2/common/logger.hpp>
#include <um2c.h>

using namespace sim;

namespace
{

double const canary = -12345.678;

struct Geo {
  std::vector<std::array<double, 2>> v;
  std::vector<std::vector<int>> f;
};

// Every crossing of a ray with every edge of every face; false if the case is too close to call.
bool
crossings(Geo const & g, double ox, double oy, double dx, double dy, std::vector<double> & out)
{
  out.clear();
  for (auto const & face : g.f) {
    size_t const n = face.size() >= 6 ? face.size() / 2 : face.size();
    for (size_t k = 0; k < n; ++k) {
      auto const p = g.v[static_cast<size_t>(face[k])];
      auto const q = g.v[static_cast<size_t>(face[(k + 1) % n])];
      std::array<double, 2> m = {(p[0] + q[0]) / 2, (p[1] + q[1]) / 2};
      if (face.size() >= 6) {
        m = g.v[static_cast<size_t>(face[n + k])];
      }
      // P(s) = p + s b + s^2 a
      double const ax = 2 * (p[0] + q[0] - 2 * m[0]);
      double const ay = 2 * (p[1] + q[1] - 2 * m[1]);
      double const bx = 4 * m[0] - 3 * p[0] - q[0];
      double const by = 4 * m[1] - 3 * p[1] - q[1];
      double const A = ax * dy - ay * dx;
      double const B = bx * dy - by * dx;
      double const C = (p[0] - ox) * dy - (p[1] - oy) * dx;
      double roots[2];
      int nr = 0;
      if (std::abs(A) < 1e-9 * std::abs(B)) {
        double s = -C / B;
        for (int it = 0; it < 3; ++it) {
          s -= (A * s * s + B * s + C) / (2 * A * s + B);
        }
        roots[nr++] = s;
      } else {
        double const D = B * B - 4 * A * C;
        if (std::abs(D) < 1e-6 * (B * B + std::abs(4 * A * C))) {
          return false;
        }
        if (D > 0) {
          double const w = -0.5 * (B + (B >= 0 ? std::sqrt(D) : -std::sqrt(D)));
          roots[nr++] = w / A;
          roots[nr++] = C / w;
        }
      }
      for (int i = 0; i < nr; ++i) {
        double const s = roots[i];
        if (!(s > -1e-4 && s < 1 + 1e-4)) {
          if (std::isnan(s)) {
            return false;
          }
          continue;
        }
        if (s < 1e-4 || s > 1 - 1e-4) {
          return false;
        }
        double const x = p[0] + s * bx + s * s * ax;
        double const y = p[1] + s * by + s * s * ay;
        double const t = (x - ox) * dx + (y - oy) * dy;
        if (std::abs(t) < 1e-6) {
          return false;
        }
        if (t > 0) {
          out.push_back(t);
        }
      }
    }
  }
  std::sort(out.begin(), out.end());
  return true;
}

struct Pair {
  int id;
  double dz;
};

std::string
checkHeights(char const * what, std::vector<Pair> const & want_all, Int n, Int const * ids, Float const * h)
{
  // distinct (id, height) pairs; heights closer than 1e-4 may be one
  std::vector<Pair> want;
  bool clear = true;
  for (auto const & w : want_all) {
    bool have = false;
    for (auto const & x : want) {
      if (x.id == w.id) {
        double const d = std::abs(x.dz - w.dz);
        have = have || d < 1e-5;
        clear = clear && (d < 1e-5 || d > 1e-3);
      }
    }
    if (!have) {
      want.push_back(w);
    }
  }
  if (n < 1 || n > static_cast<Int>(want.size()) || (clear && n != static_cast<Int>(want.size()))) {
    return fmt("%s: %d pairs of id and height instead of %zu", what, static_cast<int>(n), want.size());
  }
  for (auto const & w : want) {
    bool found = false;
    for (Int i = 0; i < n; ++i) {
      found = found || (ids[i] == w.id && std::abs(h[i] - w.dz) < (clear ? 2e-6 : 1.1e-4));
    }
    if (!found) {
      return fmt("%s: id %d with height %.9g is missing", what, w.id, w.dz);
    }
  }
  for (Int i = 1; i < n; ++i) {
    if (h[i] < h[i - 1] - 1.1e-4 || (std::abs(h[i] - h[i - 1]) < 1e-9 && ids[i] <= ids[i - 1])) {
      return fmt("%s: not in order at entry %d", what, static_cast<int>(i));
    }
  }
  return "";
}

#define NEED(cond, ...)                                                                                                \
  if (!(cond)) {                                                                                                       \
    return fmt(__VA_ARGS__);                                                                                           \
  }

std::string
checkLayout(ModelSpec const & s, void * m)
{
  Int n = -1;
  um2MPACTNumCoarseCells(m, &n);
  NEED(n == static_cast<Int>(s.cells.size()), "number of cells: expected %zu, got %d", s.cells.size(), n)
  um2MPACTNumRTMs(m, &n);
  NEED(n == static_cast<Int>(s.rtms.size()), "number of modules: expected %zu, got %d", s.rtms.size(), n)
  um2MPACTNumLattices(m, &n);
  NEED(n == static_cast<Int>(s.lats.size()), "number of lattices: expected %zu, got %d", s.lats.size(), n)
  um2MPACTNumAssemblies(m, &n);
  NEED(n == static_cast<Int>(s.asys.size()), "number of assemblies: expected %zu, got %d", s.asys.size(), n)
  auto rows = [](Rows const & r, auto num, auto child, char const * what, size_t id) {
    Int nx = -1;
    Int ny = -1;
    num(&nx, &ny);
    NEED(nx == static_cast<Int>(r[0].size()) && ny == static_cast<Int>(r.size()), "%s %zu: size %dx%d", what, id, nx, ny)
    for (Int j = 0; j < ny; ++j) {
      for (Int i = 0; i < nx; ++i) {
        Int c = -1;
        child(i, j, &c);
        int const w = r[static_cast<size_t>(ny - 1 - j)][static_cast<size_t>(i)];
        NEED(c == w, "%s %zu at (%d, %d): expected %d, got %d", what, id, i, j, w, c)
      }
    }
    return std::string();
  };
  std::string d = rows(
      s.core, [&](Int * x, Int * y) { um2MPACTCoreNumCells(m, x, y); },
      [&](Int i, Int j, Int * c) { um2MPACTCoreGetChild(m, i, j, c); }, "core", 0);
  for (size_t k = 0; d.empty() && k < s.lats.size(); ++k) {
    auto const id = static_cast<Int>(k);
    d = rows(
        s.lats[k], [&](Int * x, Int * y) { um2MPACTLatticeNumCells(m, id, x, y); },
        [&](Int i, Int j, Int * c) { um2MPACTLatticeGetChild(m, id, i, j, c); }, "lattice", k);
  }
  for (size_t k = 0; d.empty() && k < s.rtms.size(); ++k) {
    auto const id = static_cast<Int>(k);
    d = rows(
        s.rtms[k], [&](Int * x, Int * y) { um2MPACTRTMNumCells(m, id, x, y); },
        [&](Int i, Int j, Int * c) { um2MPACTRTMGetChild(m, id, i, j, c); }, "module", k);
    double w = 0;
    double h = 0;
    for (int const c : s.rtms[k][0]) {
      w += s.meshes[static_cast<size_t>(s.cells[static_cast<size_t>(c)].mesh)].w;
    }
    for (auto const & row : s.rtms[k]) {
      h += s.meshes[static_cast<size_t>(s.cells[static_cast<size_t>(row[0])].mesh)].h;
    }
    Float gw = -1;
    Float gh = -1;
    um2MPACTRTMWidth(m, id, &gw);
    um2MPACTRTMHeight(m, id, &gh);
    if (d.empty()) {
      NEED(std::abs(gw - w) < 1e-9 && std::abs(gh - h) < 1e-9, "module %zu: expected %.12g x %.12g, got %.12g x %.12g", k,
           w, h, gw, gh)
    }
  }
  for (size_t k = 0; d.empty() && k < s.asys.size(); ++k) {
    auto const id = static_cast<Int>(k);
    auto const & a = s.asys[k];
    Int nz = -1;
    um2MPACTAssemblyNumCells(m, id, &nz);
    NEED(nz == static_cast<Int>(a.lats.size()), "assembly %zu: %d slices", k, nz)
    std::vector<Float> h(a.lats.size() + 2, canary);
    um2MPACTAssemblyHeights(m, id, h.data());
    for (size_t i = 0; i < a.lats.size(); ++i) {
      Int c = -1;
      um2MPACTAssemblyGetChild(m, id, static_cast<Int>(i), &c);
      NEED(c == a.lats[i], "assembly %zu slice %zu: expected lattice %d, got %d", k, i, a.lats[i], c)
      NEED(std::abs(h[i] - (a.z[i + 1] - a.z[i])) < 2e-6, "assembly %zu slice %zu: expected height %.9g, got %.9g", k, i,
           a.z[i + 1] - a.z[i], h[i])
    }
    NEED(h[a.lats.size()] == canary, "assembly heights written past the end")
  }
  return d;
}

std::string
checkCell(ModelSpec const & s, void * m, size_t c, Rng & r)
{
  auto const id = static_cast<Int>(c);
  auto const & f = s.meshes[static_cast<size_t>(s.cells[c].mesh)];
  Geo g;
  realise(f, g.v, g.f);
  size_t const n = g.f.size();
  Int nf = -1;
  um2MPACTCoarseCellNumFaces(m, id, &nf);
  NEED(nf == static_cast<Int>(n), "cell %zu: %d faces instead of %zu", c, nf, n)
  Float w = -1;
  Float h = -1;
  um2MPACTCoarseCellWidth(m, id, &w);
  um2MPACTCoarseCellHeight(m, id, &h);
  NEED(std::abs(w - f.w) < 1e-9 && std::abs(h - f.h) < 1e-9, "cell %zu: size %.12g x %.12g instead of %.12g x %.12g", c, w,
       h, f.w, f.h)
  std::vector<Float> areas(n + 3, canary);
  um2MPACTCoarseCellFaceAreas(m, id, areas.data());
  std::vector<MatID> mats(n + 3, static_cast<MatID>(99));
  um2MPACTCoarseCellMaterialIDs(m, id, mats.data());
  NEED(areas[n] == canary && mats[n] == 99, "cell %zu: results written past the end", c)
  for (size_t k = 0; k < n; ++k) {
    std::array<double, 2> cen{};
    double const a = faceArea(g.v, g.f[k], &cen);
    NEED(std::abs(areas[k] - a) < 1e-9 * (1 + a), "cell %zu face %zu: area %.12g instead of %.12g", c, k, areas[k], a)
    NEED(static_cast<int>(mats[k]) == s.cells[c].mats[k], "cell %zu face %zu: material %d instead of %d", c, k,
         static_cast<int>(mats[k]), s.cells[c].mats[k])
    Float x = canary;
    Float y = canary;
    um2MPACTCoarseCellFaceCentroid(m, id, static_cast<Int>(k), &x, &y);
    NEED(std::abs(x - cen[0]) < 1e-8 && std::abs(y - cen[1]) < 1e-8,
         "cell %zu face %zu: centroid (%.12g, %.12g) instead of (%.12g, %.12g)", c, k, x, y, cen[0], cen[1])
    Int in = -7;
    um2MPACTCoarseCellFaceContaining(m, id, cen[0], cen[1], &in);
    NEED(in == static_cast<Int>(k), "cell %zu: the centroid of face %zu is said to be in face %d", c, k, in)
  }
  Int out = -7;
  um2MPACTCoarseCellFaceContaining(m, id, f.w * 1.5, f.h * 1.25, &out);
  NEED(out == -1, "cell %zu: a point outside is said to be in face %d", c, out)
  for (int k = 0; k < 2; ++k) {
    double const phi = r.unit() * 6.283185307179586;
    double const dx = std::cos(phi);
    double const dy = std::sin(phi);
    double const px = f.w * r.unit();
    double const py = f.h * r.unit();
    double const back = k == 0 ? 2 * (f.w + f.h) : 0; // from outside or from inside
    double const ox = px - back * dx;
    double const oy = py - back * dy;
    std::vector<double> want;
    if (!crossings(g, ox, oy, dx, dy, want)) {
      continue;
    }
    std::vector<Float> got(want.size() * 2 + 64, canary);
    Int nx = -1;
    um2MPACTIntersectCoarseCell(m, id, ox, oy, dx, dy, got.data(), &nx);
    NEED(nx == static_cast<Int>(want.size()), "cell %zu: ray from (%.9g, %.9g) along (%.9g, %.9g) has %d crossings instead of %zu",
         c, ox, oy, dx, dy, nx, want.size())
    for (size_t i = 0; i < want.size(); ++i) {
      NEED(std::abs(got[i] - want[i]) < 1e-7, "cell %zu: ray crossing %zu at %.12g instead of %.12g", c, i, got[i], want[i])
    }
    probe(1);
  }
  return "";
}

// Arrays handed out by the library, with a copy of what they held.
struct Held {
  void * p;
  std::string copy;
};

template <class T>
void
hold(std::vector<Held> & held, T * p, size_t n)
{
  held.push_back({p, std::string(reinterpret_cast<char const *>(p), n * sizeof(T))});
}

std::string
checkArrays(ModelSpec const & s, void * m, std::vector<Held> & held, Rng & r)
{
  std::vector<Pair> lat;
  std::vector<Pair> rtm;
  std::vector<Pair> cell;
  for (auto const & a : s.asys) {
    for (size_t k = 0; k < a.lats.size(); ++k) {
      double const dz = a.z[k + 1] - a.z[k];
      lat.push_back({a.lats[k], dz});
      for (auto const & lr : s.lats[static_cast<size_t>(a.lats[k])]) {
        for (int const t : lr) {
          rtm.push_back({t, dz});
          for (auto const & rr : s.rtms[static_cast<size_t>(t)]) {
            for (int const c : rr) {
              cell.push_back({c, dz});
            }
          }
        }
      }
    }
  }
  struct {
    char const * what;
    void (*get)(void *, Int *, Int **, Float **);
    std::vector<Pair> const * want;
  } const q[] = {{"lattice heights", um2MPACTLatticeHeights, &lat},
                 {"module heights", um2MPACTRTMHeights, &rtm},
                 {"cell heights", um2MPACTCoarseCellHeights, &cell}};
  for (auto const & x : q) {
    Int n = -1;
    Int * ids = nullptr;
    Float * h = nullptr;
    x.get(m, &n, &ids, &h);
    NEED(ids != nullptr && h != nullptr, "%s: no memory handed out", x.what)
    std::string const d = checkHeights(x.what, *x.want, n, ids, h);
    if (!d.empty()) {
      return d;
    }
    hold(held, ids, static_cast<size_t>(n));
    hold(held, h, static_cast<size_t>(n));
  }
  size_t const c = r.below(static_cast<uint32_t>(s.cells.size()));
  auto const & f = s.meshes[static_cast<size_t>(s.cells[c].mesh)];
  Geo g;
  realise(f, g.v, g.f);
  Int type = -1;
  Int nv = -1;
  Int nf = -1;
  Float * v = nullptr;
  Int * fv = nullptr;
  um2MPACTCoarseCellFaceData(m, static_cast<Int>(c), &type, &nv, &nf, &v, &fv);
  static um2::MeshType const types[] = {um2::MeshType::Tri, um2::MeshType::Quad, um2::MeshType::QuadraticTri,
                                        um2::MeshType::QuadraticQuad};
  NEED(type == static_cast<Int>(types[f.kind]) && nv == static_cast<Int>(g.v.size()) && nf == static_cast<Int>(g.f.size()),
       "face data of cell %zu: wrong kind or counts", c)
  double const tol = 1e-10;
  for (size_t i = 0; i < g.v.size(); ++i) {
    NEED(std::abs(v[2 * i] - g.v[i][0]) < tol && std::abs(v[2 * i + 1] - g.v[i][1]) < tol,
         "face data of cell %zu: vertex %zu differs", c, i)
  }
  size_t p = 0;
  for (size_t i = 0; i < g.f.size(); ++i) {
    for (int const x : g.f[i]) {
      NEED(fv[p] == x, "face data of cell %zu: face %zu differs", c, i)
      ++p;
    }
  }
  hold(held, v, g.v.size() * 2);
  hold(held, fv, p);
  return "";
}

void
k01()
{
  int const nmodel = range(1, 3);
  std::vector<std::string> const paths = drawPaths(nmodel, ".xdmf");
  std::vector<ModelSpec> models;
  for (int i = 0; i < nmodel; ++i) {
    ModelOpts o;
    o.small = i > 0;
    models.push_back(drawModel(o));
  }
  drawFill();
  Proc const sp = process({}, [&] {
    quietLogger(1, true);
    for (size_t i = 0; i < models.size(); ++i) {
      auto const m = build(models[i]);
      step("save", [&] { m.write(um2::String(paths[i].c_str()), false, false); });
    }
  });
  if (!sp.success()) {
    violate("K01:prepare", "saving without faults failed: %s", lastWords(sp).c_str());
    return;
  }
  // a history of calls
  struct Call {
    int kind; // 0 open, 1 query, 2 delete, 3 arrays, 4 release arrays, 5 memory, 6 failing open
    int slot;
    int model;
    uint32_t arg;
  };
  int const ncalls = range(3, 24);
  std::vector<Call> calls;
  for (int i = 0; i < ncalls; ++i) {
    uint32_t const k = pick(10);
    static int const kinds[] = {0, 1, 1, 2, 3, 4, 5, 6, 0, 3};
    calls.push_back({kinds[k], static_cast<int>(pick(3)), static_cast<int>(pick(static_cast<uint32_t>(nmodel))),
                     pick(1U << 16)});
  }
  Cfg cfg = drawBenign();
  cfg.track = true;
  cfg.reuse = pick(2) != 0;
  int const level = 1 + static_cast<int>(pick(3));
  uint32_t const fail_at = pick(12);
  if (fail_at < 6) {
    cfg.add(OP_ALLOC, F_ALLOC_FAIL, fail_at, 0);
  }
  bool did = false;
  Proc const p = process(cfg, [&] {
    quietLogger(level, false);
    void * slot[3] = {nullptr, nullptr, nullptr};
    int holds[3] = {-1, -1, -1};
    std::vector<Held> held;
    auto open = [&](int s, int m) {
      void * h = nullptr;
      int const st = step("open", [&] { um2ReadMPACTModel(paths[static_cast<size_t>(m)].c_str(), &h); });
      if (st != ST_OK || h == nullptr) {
        violate("K01:open", "opening %s failed: %s", paths[static_cast<size_t>(m)].c_str(), shm->steps[shm->nsteps - 1].what);
      }
      slot[s] = h;
      holds[s] = m;
    };
    auto release = [&] {
      for (auto const & h : held) {
        if (memcmp(h.p, h.copy.data(), h.copy.size()) != 0) {
          violate("K01:array", "an array handed out earlier has changed");
        }
        um2Free(h.p);
      }
      held.clear();
    };
    // once, so that libraries have set up what they keep
    open(0, 0);
    um2DeleteMPACTModel(slot[0]);
    slot[0] = nullptr;
    int64_t const base = liveNew();
    auto history = [&] {
    for (auto const & c : calls) {
      if (c.kind == 0) {
        if (slot[c.slot] == nullptr) {
          open(c.slot, c.model);
        }
      } else if (c.kind == 2) {
        if (slot[c.slot] != nullptr) {
          um2DeleteMPACTModel(slot[c.slot]);
          slot[c.slot] = nullptr;
        }
      } else if (c.kind == 4) {
        release();
      } else if (c.kind == 5) {
        // memory through the C interface
        static Int const sizes[] = {1, 8, 1000, 65536, -1, -8, 2147483647, 16, -2147483647 - 1, -2147483632};
        Int const n = sizes[c.arg % 10];
        void * q = &q;
        alloc_armed = true;
        um2Malloc(&q, n);
        alloc_armed = false;
        bool const failed = shm->fired[F_ALLOC_FAIL] != 0 && q == nullptr;
        if (n < 0 || n > (1 << 30)) {
          if (q != nullptr) {
            violate("K01:malloc", "a request for %d bytes gave %s instead of null", static_cast<int>(n),
                    q == &q ? "nothing" : "a pointer");
          }
        } else if (q == nullptr) {
          if (!failed) {
            violate("K01:malloc", "a request for %d bytes gave null", static_cast<int>(n));
          }
        } else if (q == &q) {
          violate("K01:malloc", "a request for %d bytes left the pointer as it was", static_cast<int>(n));
        } else {
          memset(q, 0x5A, static_cast<size_t>(n));
          if (c.arg & 1024U) {
            held.push_back({q, std::string(static_cast<size_t>(n), 0x5A)});
          } else {
            um2Free(q);
          }
        }
      } else if (c.kind == 6) {
        if (slot[c.slot] == nullptr) {
          void * h = nullptr;
          int const st = step("open missing", [&] { um2ReadMPACTModel("/sim/a/none.xdmf", &h); });
          if (st == ST_OK) {
            violate("K01:missing", "opening a file that does not exist reported nothing");
          }
          if (h != nullptr) {
            um2DeleteMPACTModel(h);
          }
        }
      } else if (slot[c.slot] != nullptr) {
        auto const & s = models[static_cast<size_t>(holds[c.slot])];
        Rng r(c.arg);
        std::string d = checkLayout(s, slot[c.slot]);
        if (d.empty()) {
          if (c.kind == 1) {
            d = checkCell(s, slot[c.slot], r.below(static_cast<uint32_t>(s.cells.size())), r);
          } else {
            d = checkArrays(s, slot[c.slot], held, r);
          }
        }
        if (!d.empty()) {
          violate("K01:wrong", "the C interface reports something else than was saved (%s): %s", describe(s).c_str(),
                  d.c_str());
        }
        probe(0);
      }
    }
    // every model that is still open is intact
    for (int i = 0; i < 3; ++i) {
      if (slot[i] != nullptr) {
        auto const & s = models[static_cast<size_t>(holds[i])];
        std::string d = checkLayout(s, slot[i]);
        Rng r(7);
        for (size_t c = 0; d.empty() && c < s.cells.size(); ++c) {
          d = checkCell(s, slot[i], c, r);
        }
        if (!d.empty()) {
          violate("K01:wrong", "at the end of the history a model reports something else than was saved (%s): %s",
                  describe(s).c_str(), d.c_str());
        }
        um2DeleteMPACTModel(slot[i]);
        slot[i] = nullptr;
      }
    }
    release();
    held = std::vector<Held>();
    };
    history();
    // (what the library keeps once for its own use is not a leak; what grows with every history is)
    int64_t const first = liveNew();
    if (first != base) {
      history();
    }
    if (liveNew() > first) {
      violate("K01:leak", "%lld blocks of memory remain after every model was deleted and every array released",
              static_cast<long long>(liveNew() - first));
    }
  });
  for (auto const & c : calls) {
    did = did || c.kind == 0;
    stateMix(static_cast<uint64_t>(c.kind * 16 + c.slot * 4 + c.model));
  }
  if (violated()) {
    return;
  }
  if (!p.memory.empty()) {
    violate("K01:memory", "%s", p.memory.c_str());
    return;
  }
  if (p.livelock) {
    violate("K01:hang", "a history of calls did not finish");
    return;
  }
  if (!p.success()) {
    violate("K01:died", "a history of calls ended with status %d signal %d: %s", p.code, p.sig, lastWords(p).c_str());
    return;
  }
  if (did) {
    nontrivial();
  }
}
Register const rk("K01", k01);

} // namespace
