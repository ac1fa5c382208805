// A01: memory running out while containers, meshes and models are built, changed, saved, loaded and queried.
//
// A history runs once with plenty of memory: every result is compared with plain reference data and its
// digest is kept.  Then it runs again with allocations failing at seeded points: everything that
// completes without a sign of failure must give the same digest, memory must not be misused, and files
// must load as the old or the new contents or with an error.
#include "model_spec.hpp"
#include <algorithm>
#include <cstring>
#include <um2/common/logger.hpp>
#include <um2/mesh/face_vertex_mesh.hpp>
#include <um2c.h>

using namespace sim;

namespace
{

//--------------------------------------------------------------------------------------------------
// Digests of results, kept by position in the history
//--------------------------------------------------------------------------------------------------

constexpr uint32_t max_digests = 512;
struct Record {
  uint32_t n;        // digests of the run with plenty of memory
  uint32_t done;     // the process came to its end
  uint64_t d[max_digests];
};
Record &
record()
{
  return *reinterpret_cast<Record *>(shm->scratch);
}

struct Digest {
  uint64_t h = 1469598103934665603ULL;
  void
  num(uint64_t v)
  {
    h = mix64(h ^ v);
  }
  void
  real(double v)
  {
    uint64_t u = 0;
    memcpy(&u, &v, 8);
    num(u);
  }
  void
  text(char const * s, Int n)
  {
    num(static_cast<uint64_t>(n));
    for (Int i = 0; i < n; ++i) {
      num(static_cast<uint8_t>(s[i]));
    }
  }
};

// In a process: what every operation of a history goes through.
struct Hist {
  bool reference;
  uint32_t at = 0;
  bool stop = false;

  // false if the operation failed visibly (the history ends there)
  bool
  op(char const * name, std::function<void()> const & f)
  {
    if (stop) {
      return false;
    }
    int const st = step(name, [&] {
      alloc_armed = true;
      f();
      alloc_armed = false;
    });
    if (st != ST_OK) {
      if (reference) {
        violate("A01:reference", "%s failed although memory was plentiful: %s", name, shm->steps[shm->nsteps - 1].what);
      }
      stop = true;
    }
    return !stop;
  }
  void
  result(char const * name, Digest const & g)
  {
    auto & r = record();
    if (at >= max_digests) {
      return;
    }
    if (reference) {
      r.d[at] = g.h;
      r.n = at + 1;
    } else if (r.d[at] != g.h) {
      violate("A01:result", "after an allocation failed, %s finished without any sign of failure but with a wrong result",
              name);
    }
    ++at;
  }
  void
  expect(char const * name, std::string const & d)
  {
    if (!d.empty()) {
      violate("A01:result", "%s finished without any sign of failure but with a wrong result%s: %s", name,
              reference ? "" : " after an allocation failed", d.c_str());
    }
  }
};

//--------------------------------------------------------------------------------------------------
// Containers
//--------------------------------------------------------------------------------------------------

// Elements: numbers, strings and lists of numbers.
struct NumElem {
  using Lib = Int;
  using Ref = int;
  static Ref
  draw(Rng & r)
  {
    return static_cast<int>(r.below(1000)) - 500;
  }
  static Lib
  make(Ref const & x)
  {
    return x;
  }
  static bool
  same(Lib const & a, Ref const & b)
  {
    return a == b;
  }
};
struct StrElem {
  using Lib = um2::String;
  using Ref = std::string;
  static Ref
  draw(Rng & r)
  {
    static uint32_t const lens[] = {1, 5, 21, 22, 23, 24, 40, 100};
    std::string s;
    uint32_t const n = lens[r.below(8)];
    for (uint32_t i = 0; i < n; ++i) {
      s.push_back(static_cast<char>('a' + r.below(26)));
    }
    return s;
  }
  static Lib
  make(Ref const & x)
  {
    return um2::String(x.c_str());
  }
  static bool
  same(Lib const & a, Ref const & b)
  {
    return static_cast<size_t>(a.size()) == b.size() && memcmp(a.data(), b.data(), b.size()) == 0 &&
           a.data()[b.size()] == 0;
  }
};
struct ListElem {
  using Lib = um2::Vector<Int>;
  using Ref = std::vector<int>;
  static Ref
  draw(Rng & r)
  {
    std::vector<int> v(1 + r.below(9));
    for (auto & x : v) {
      x = static_cast<int>(r.below(1000));
    }
    return v;
  }
  static Lib
  make(Ref const & x)
  {
    um2::Vector<Int> v;
    for (int const k : x) {
      v.emplace_back(k);
    }
    return v;
  }
  static bool
  same(Lib const & a, Ref const & b)
  {
    if (static_cast<size_t>(a.size()) != b.size()) {
      return false;
    }
    for (size_t i = 0; i < b.size(); ++i) {
      if (a[static_cast<Int>(i)] != b[i]) {
        return false;
      }
    }
    return true;
  }
};

template <class E>
void
containers(Hist & h, uint64_t seed, int n)
{
  using V = um2::Vector<typename E::Lib>;
  using R = std::vector<typename E::Ref>;
  Rng r(seed);
  V a;
  V b;
  R ra;
  R rb;
  auto differs = [](V const & x, R const & y) -> std::string {
    if (static_cast<size_t>(x.size()) != y.size()) {
      return fmt("%d elements instead of %zu", static_cast<int>(x.size()), y.size());
    }
    if (x.capacity() < x.size()) {
      return "less room than elements";
    }
    for (size_t i = 0; i < y.size(); ++i) {
      if (!E::same(x[static_cast<Int>(i)], y[i])) {
        return fmt("element %zu of %zu differs", i, y.size());
      }
    }
    return {};
  };
  for (int k = 0; k < n && !h.stop; ++k) {
    char const * name = "";
    auto const x = E::draw(r);
    auto lx = E::make(x);
    switch (r.below(16)) {
    case 0:
    case 1:
    case 2:
      name = "push_back";
      if (h.op(name, [&] { a.push_back(lx); })) {
        ra.push_back(x);
      }
      break;
    case 3:
    case 4:
      name = "emplace_back";
      if (h.op(name, [&] { a.emplace_back(um2::move(lx)); })) {
        ra.push_back(x);
      }
      break;
    case 5: {
      name = "resize";
      auto const m = r.below(static_cast<uint32_t>(ra.size()) + 12);
      if (h.op(name, [&] { a.resize(static_cast<Int>(m)); })) {
        // (the library's strings are not meant to be empty)
        for (size_t i = ra.size(); i < m; ++i) {
          if (!E::same(a[static_cast<Int>(i)], typename E::Ref())) {
            h.expect(name, "a new element is not empty");
          }
          a[static_cast<Int>(i)] = lx;
        }
        ra.resize(m, x);
      }
      break;
    }
    case 6: {
      name = "reserve";
      auto const m = r.below(40);
      h.op(name, [&] { a.reserve(static_cast<Int>(m)); });
      if (!h.stop && a.capacity() < static_cast<Int>(m)) {
        h.expect(name, "less room than asked for");
      }
      break;
    }
    case 7:
      name = "copy";
      h.op(name, [&] {
        V c(a);
        b = um2::move(c);
      });
      rb = ra;
      break;
    case 8:
      name = "assignment";
      h.op(name, [&] { b = a; });
      rb = ra;
      break;
    case 9:
      name = "move";
      h.op(name, [&] { b = um2::move(a); });
      if (!h.stop) {
        rb = ra;
        ra.clear();
        a.clear();
      }
      break;
    case 10: {
      name = "assign";
      auto const lo = rb.empty() ? 0 : r.below(static_cast<uint32_t>(rb.size()));
      h.op(name, [&] { a.assign(b.cbegin() + lo, b.cend()); });
      ra.assign(rb.begin() + lo, rb.end());
      break;
    }
    case 11: {
      name = "construct";
      auto const m = 1 + r.below(20);
      h.op(name, [&] { a = V(static_cast<Int>(m), lx); });
      ra.assign(m, x);
      break;
    }
    case 12:
      name = "clear";
      h.op(name, [&] { a.clear(); });
      ra.clear();
      break;
    case 13:
      name = "pop_back";
      if (!ra.empty()) {
        h.op(name, [&] { a.pop_back(); });
        ra.pop_back();
      }
      break;
    case 14:
      name = "overwrite";
      if (!ra.empty()) {
        auto const i = r.below(static_cast<uint32_t>(ra.size()));
        h.op(name, [&] { a[static_cast<Int>(i)] = lx; });
        ra[i] = x;
      }
      break;
    default:
      name = "swap";
      h.op(name, [&] {
        V c(um2::move(a));
        a = um2::move(b);
        b = um2::move(c);
      });
      std::swap(ra, rb);
      break;
    }
    if (!h.stop) {
      std::string d = differs(a, ra);
      if (d.empty()) {
        d = differs(b, rb);
      }
      h.expect(name, d);
    }
  }
}

void
strings(Hist & h, uint64_t seed, int n)
{
  Rng r(seed);
  um2::String a;
  um2::String b("start");
  std::string ra;
  std::string rb = "start";
  for (int k = 0; k < n && !h.stop; ++k) {
    char const * name = "";
    std::string const x = StrElem::draw(r);
    um2::String const lx(x.c_str());
    switch (r.below(9)) {
    case 0:
    case 1:
      name = "append";
      h.op(name, [&] { a += lx; });
      ra += x;
      break;
    case 2:
      name = "append text";
      h.op(name, [&] { a += x.c_str(); });
      ra += x;
      break;
    case 3:
      name = "string assignment";
      h.op(name, [&] { a = lx; });
      ra = x;
      break;
    case 4:
      name = "string copy";
      h.op(name, [&] {
        um2::String c(a);
        b = um2::move(c);
      });
      rb = ra;
      break;
    case 5: {
      name = "substr";
      auto const p = r.below(static_cast<uint32_t>(ra.size()) + 1);
      auto const c = r.below(60);
      h.op(name, [&] { b = a.substr(static_cast<Int>(p), static_cast<Int>(c)); });
      rb = ra.substr(p, c);
      break;
    }
    case 6:
      name = "concatenation";
      if (!rb.empty()) {
        h.op(name, [&] { a = a + b; });
        ra = ra + rb;
      }
      break;
    case 7: {
      name = "number";
      auto const v = static_cast<int32_t>(r.below(2000000)) - 1000000;
      h.op(name, [&] { a = um2::String(v); });
      ra = std::to_string(v);
      break;
    }
    default:
      name = "string move";
      h.op(name, [&] {
        um2::String c(um2::move(a));
        a = um2::move(b);
        b = um2::move(c);
      });
      std::swap(ra, rb);
      break;
    }
    if (ra.size() > 3000) {
      a = um2::String("x");
      ra = "x";
    }
    if (!h.stop) {
      if (!StrElem::same(a, ra)) {
        h.expect(name, "expected '" + ra.substr(0, 60) + "', got '" + std::string(a.data()).substr(0, 60) + "'");
      }
      if (!StrElem::same(b, rb)) {
        h.expect(name, "expected '" + rb.substr(0, 60) + "', got '" + std::string(b.data()).substr(0, 60) + "'");
      }
    }
  }
}

//--------------------------------------------------------------------------------------------------
// Meshes
//--------------------------------------------------------------------------------------------------

void
digest(Digest & g, um2::PolytopeSoup const & s)
{
  for (Int i = 0; i < s.numVertices(); ++i) {
    auto const & p = s.vertices()[i];
    for (Int k = 0; k < 3; ++k) {
      g.real(p[k]);
    }
  }
  um2::VTKElemType t = um2::VTKElemType::Invalid;
  um2::Vector<Int> c;
  for (Int i = 0; i < s.numElements(); ++i) {
    s.getElement(i, t, c);
    g.num(static_cast<uint64_t>(t));
    for (auto const v : c) {
      g.num(static_cast<uint64_t>(v));
    }
  }
  for (Int i = 0; i < s.numElsets(); ++i) {
    um2::String name;
    um2::Vector<Int> ids;
    um2::Vector<Float> data;
    s.getElset(i, name, ids, data);
    g.text(name.data(), name.size());
    g.num(static_cast<uint64_t>(ids.size()));
    for (auto const v : ids) {
      g.num(static_cast<uint64_t>(v));
    }
    g.num(static_cast<uint64_t>(data.size()));
    for (auto const v : data) {
      g.real(v);
    }
  }
}

struct SoupHist {
  MeshSpec a, b, old;
  std::string path;
  bool had_old = false;
  std::vector<int> ops;
};

void
soups(Hist & h, SoupHist const & q)
{
  um2::PolytopeSoup s;
  if (!h.op("build", [&] { s = build(q.a); })) {
    return;
  }
  h.expect("build", compare(q.a, s));
  um2::PolytopeSoup t;
  um2::String const path(q.path.c_str());
  auto keep = [&](char const * name, um2::PolytopeSoup const & x) {
    if (!h.stop) {
      Digest g;
      digest(g, x);
      h.result(name, g);
    }
  };
  for (int const k : q.ops) {
    switch (k) {
    case 0:
      if (h.op("copy mesh", [&] {
            um2::PolytopeSoup c(s);
            t = um2::move(c);
          })) {
        keep("copy mesh", t);
      }
      break;
    case 1: {
      um2::PolytopeSoup o = build(q.b);
      // sets must be in order of their names
      if (o.numElsets() > 0) {
        o.sortElsets();
      }
      if (t.numElsets() > 0) {
        t.sortElsets();
      }
      if (h.op("merge meshes", [&] { t += o; })) {
        keep("merge meshes", t);
      }
      break;
    }
    case 2:
      if (t.numElsets() > 0 && h.op("sort sets", [&] { t.sortElsets(); })) {
        keep("sort sets", t);
      }
      break;
    case 3:
      for (size_t i = 0; i < q.a.elsets.size() && i < 3; ++i) {
        auto const & e = q.a.elsets[i];
        um2::PolytopeSoup u;
        um2::String const name(e.name.c_str());
        if (h.op("subset", [&] { s.getSubset(name, u); })) {
          keep("subset", u);
          if (static_cast<size_t>(u.numElements()) != e.ids.size()) {
            h.expect("subset", "wrong number of elements");
          }
        }
      }
      break;
    case 4:
      if (h.op("save mesh", [&] { s.write(path); })) {
        keep("save mesh", s);
      }
      break;
    case 5:
      if (diskExists(q.path.c_str())) {
        um2::PolytopeSoup u;
        if (q.a.verts.size() % 2 == 0 ? h.op("load mesh", [&] { u.read(path); })
                           : h.op("load mesh", [&] { u = um2::PolytopeSoup(path); })) {
          keep("load mesh", u);
        }
      }
      break;
    case 6: {
      um2::Vector<um2::VTKElemType> types;
      if (h.op("element kinds", [&] { types = s.getElemTypes(); })) {
        Digest g;
        for (auto const x : types) {
          g.num(static_cast<uint64_t>(x));
        }
        h.result("element kinds", g);
      }
      break;
    }
    default:
      if (h.op("assign mesh", [&] { t = s; })) {
        h.expect("assign mesh", compare(q.a, t));
      }
      break;
    }
    if (h.stop) {
      return;
    }
  }
  h.expect("the history", compare(q.a, s));
}

//--------------------------------------------------------------------------------------------------
// Face meshes
//--------------------------------------------------------------------------------------------------

template <Int P, Int N>
void
digest(Digest & g, um2::FaceVertexMesh<P, N> const & m)
{
  for (auto const & v : m.vertices()) {
    g.real(v[0]);
    g.real(v[1]);
  }
  for (auto const & f : m.faceVertexConn()) {
    for (Int k = 0; k < N; ++k) {
      g.num(static_cast<uint64_t>(f[k]));
    }
  }
  for (auto const x : m.vertexFaceOffsets()) {
    g.num(static_cast<uint64_t>(x));
  }
  for (auto const x : m.vertexFaceConn()) {
    g.num(static_cast<uint64_t>(x));
  }
}

template <Int P, Int N>
void
faces(Hist & h, FvmSpec const & f, uint64_t seed, std::vector<int> const & ops)
{
  using M = um2::FaceVertexMesh<P, N>;
  um2::Vector<um2::Point2F> v;
  um2::Vector<um2::Vec<N, Int>> fv;
  for (auto const & p : f.verts) {
    v.emplace_back(p[0], p[1]);
  }
  for (auto const & c : f.faces) {
    um2::Vec<N, Int> q;
    for (Int i = 0; i < N; ++i) {
      q[i] = static_cast<Int>(c[static_cast<size_t>(i)]);
    }
    fv.emplace_back(q);
  }
  M m;
  if (!h.op("make face mesh", [&] { m = M(v, fv); })) {
    return;
  }
  Rng r(seed);
  for (int const k : ops) {
    Digest g;
    char const * name = "";
    switch (k) {
    case 0:
      name = "sort along the curve";
      h.op(name, [&] { m.mortonSort(); });
      digest(g, m);
      break;
    case 1:
      name = "vertex to face table";
      h.op(name, [&] { m.populateVF(); });
      digest(g, m);
      break;
    case 2: {
      name = "copy face mesh";
      M c;
      h.op(name, [&] { c = m; });
      digest(g, c);
      break;
    }
    case 3: {
      name = "face mesh to soup";
      um2::PolytopeSoup s;
      h.op(name, [&] { s = static_cast<um2::PolytopeSoup>(m); });
      digest(g, s);
      break;
    }
    case 4: {
      name = "face mesh from soup";
      um2::PolytopeSoup const s = m;
      M c;
      h.op(name, [&] { c = M(s); });
      digest(g, c);
      break;
    }
    case 5: {
      name = "trace ray";
      um2::Vector<Float> coords(8 * static_cast<Int>(f.faces.size()) + 8);
      um2::Ray2F const ray(um2::Point2F(-0.1 * f.w, r.unit() * f.h),
                           um2::Vec2F(1.0, r.unit() - 0.5).normalized());
      Int n = 0;
      h.op(name, [&] { n = m.intersect(ray, coords.data()); });
      g.num(static_cast<uint64_t>(n));
      std::vector<double> c(coords.data(), coords.data() + n);
      std::sort(c.begin(), c.end());
      for (auto const x : c) {
        g.real(x);
      }
      break;
    }
    default: {
      name = "validate";
      h.op(name, [&] { m.validate(); });
      digest(g, m);
      break;
    }
    }
    if (h.stop) {
      return;
    }
    h.result(name, g);
  }
}

//--------------------------------------------------------------------------------------------------
// Models
//--------------------------------------------------------------------------------------------------

struct ModelHist {
  ModelSpec a, old;
  std::string path;
  bool had_old = false;
  bool extra = false;
  std::vector<int> ops;
};

void
digest(Digest & g, um2::XSec const & x)
{
  for (Int i = 0; i < x.numGroups(); ++i) {
    g.real(x.a()[i]);
    g.real(x.f()[i]);
    g.real(x.nuf()[i]);
    g.real(x.tr()[i]);
    g.real(x.s()[i]);
  }
}

void
models(Hist & h, ModelHist const & q)
{
  um2::mpact::Model m;
  um2::String const path(q.path.c_str());
  if (!h.op("build model", [&] { m = build(q.a); })) {
    return;
  }
  h.expect("build model", compare(q.a, m, false));
  for (int const k : q.ops) {
    switch (k) {
    case 0: {
      um2::mpact::Model c;
      if (h.op("copy model", [&] { c = m; })) {
        h.expect("copy model", compare(q.a, c, false));
      }
      break;
    }
    case 1:
      h.op("save model", [&] { m.write(path, q.extra, q.extra); });
      break;
    case 2:
      if (diskExists(q.path.c_str())) {
        um2::mpact::Model c;
        if (h.op("load model", [&] { c.read(path); })) {
          std::string d = compare(q.a, c, true);
          if (!d.empty() && q.had_old) {
            d = compare(q.old, c, true);
          }
          h.expect("load model", d);
        }
      }
      break;
    case 3: {
      if (diskExists(q.path.c_str())) {
        void * c = nullptr;
        if (h.op("open model", [&] { um2ReadMPACTModel(q.path.c_str(), &c); })) {
          Int n = 0;
          Int * ids = nullptr;
          Float * heights = nullptr;
          if (h.op("cell heights", [&] { um2MPACTCoarseCellHeights(c, &n, &ids, &heights); })) {
            if (n > 0 && (ids == nullptr || heights == nullptr)) {
              h.expect("cell heights", "null arrays");
            }
            Digest g;
            for (Int i = 0; i < n; ++i) {
              g.num(static_cast<uint64_t>(ids[i]));
              g.real(heights[i]);
            }
            h.result("cell heights", g);
            um2Free(ids);
            um2Free(heights);
          }
          um2DeleteMPACTModel(c);
        }
      }
      break;
    }
    default:
      for (Int c = 0; c < m.numCoarseCells() && c < 3; ++c) {
        Digest g;
        if (!q.a.mats[0].a.empty()) {
          um2::XSec x(static_cast<Int>(q.a.mats[0].a.size()));
          if (h.op("homogenise", [&] { x = m.getCoarseCellHomogenizedXSec(c); })) {
            digest(g, x);
            h.result("homogenise", g);
          }
        }
      }
      break;
    }
    if (h.stop) {
      return;
    }
  }
  h.expect("the history", compare(q.a, m, false));
}

//--------------------------------------------------------------------------------------------------

void
a01()
{
  drawFill();
  uint32_t const kind = pick(8);
  int const level = 1 + static_cast<int>(pick(2));
  bool const eoe = pick(2) == 0;
  uint64_t const seed = pick(1U << 30);
  int const n = range(5, 30);
  SoupHist sh;
  ModelHist mh;
  FvmSpec fs;
  std::vector<int> fops;
  if (kind == 4 || kind == 5) {
    MeshOpts o;
    o.big = pick(4) == 3;
    sh.a = drawMesh(o);
    sh.b = drawMesh(o);
    sh.old = pick(2) == 0 ? drawVariation(sh.a) : drawMesh(o);
    sh.path = drawPaths(1, ".xdmf")[0];
    sh.had_old = pick(2) == 1;
    int const k = range(1, 6);
    for (int i = 0; i < k; ++i) {
      sh.ops.push_back(static_cast<int>(pick(8)));
    }
  } else if (kind == 6) {
    fs.kind = static_cast<int>(pick(4));
    fs.nx = range(1, 4);
    fs.ny = range(1, 4);
    fs.w = 1 + realIn(0, 2);
    fs.h = 1 + realIn(0, 2);
    Rng r(seed);
    makeFaces(fs, r);
    int const k = range(1, 8);
    for (int i = 0; i < k; ++i) {
      fops.push_back(static_cast<int>(pick(7)));
    }
  } else if (kind == 7) {
    ModelOpts o;
    o.small = pick(3) != 2;
    mh.a = drawModel(o);
    mh.old = drawModel(o);
    mh.path = drawPaths(1, ".xdmf")[0];
    mh.had_old = pick(2) == 1;
    mh.extra = pick(2) == 1;
    int const k = range(1, 5);
    for (int i = 0; i < k; ++i) {
      mh.ops.push_back(static_cast<int>(pick(5)));
    }
  }
  stateMix(kind);

  if (sh.had_old || mh.had_old) {
    Proc const p = process(Cfg(), [&] {
      quietLogger(1, true);
      step("save", [&] {
        if (sh.had_old) {
          build(sh.old).write(um2::String(sh.path.c_str()));
        } else {
          build(mh.old).write(um2::String(mh.path.c_str()), mh.extra, mh.extra);
        }
      });
    });
    if (!p.success() || !p.ok("save")) {
      violate("A01:reference", "saving the older file failed: %s", lastWords(p).c_str());
      return;
    }
  }
  DiskImage const before = diskSnapshot();

  auto body = [&](bool reference) {
    quietLogger(level, eoe);
    record().done = 0;
    Hist h{reference};
    switch (kind) {
    case 0:
      containers<NumElem>(h, seed, n);
      break;
    case 1:
      containers<StrElem>(h, seed, n);
      break;
    case 2:
      containers<ListElem>(h, seed, n);
      break;
    case 3:
      strings(h, seed, n);
      break;
    case 4:
    case 5:
      soups(h, sh);
      break;
    case 6:
      if (fs.kind == 0) {
        faces<1, 3>(h, fs, seed, fops);
      } else if (fs.kind == 1) {
        faces<1, 4>(h, fs, seed, fops);
      } else if (fs.kind == 2) {
        faces<2, 6>(h, fs, seed, fops);
      } else {
        faces<2, 8>(h, fs, seed, fops);
      }
      break;
    default:
      models(h, mh);
      break;
    }
    record().done = 1;
  };

  Cfg plain;
  plain.track = true;
  record().n = 0;
  Proc const ref = process(plain, [&] { body(true); });
  if (violated()) {
    return;
  }
  if (!ref.memory.empty()) {
    violate("A01:memory", "with plentiful memory: %s", ref.memory.c_str());
    return;
  }
  if (ref.livelock || !ref.success()) {
    violate("A01:reference", "with plentiful memory the history ended with status %d signal %d: %s", ref.code, ref.sig,
            lastWords(ref).c_str());
    return;
  }
  auto const total = static_cast<uint32_t>(ref.ops[OP_ALLOC]);
  stateMix(total);
  if (total == 0) {
    return;
  }
  int const nfail = range(1, kind < 4 ? 3 : 6);
  for (int k = 0; k < nfail; ++k) {
    diskRestore(before);
    Cfg c;
    c.track = true;
    c.new_only = true;
    int const nf = pick(4) == 3 ? 2 : 1;
    for (int i = 0; i < nf; ++i) {
      static uint32_t const limits[] = {0, 0, 1, 64, 4096, 16384 | large_only, 4096 | large_only, 200 | large_only};
      // biased to the end, where results are put together
      uint32_t const at = pick(3) == 2 ? total - 1 - pick(total < 12 ? total : 12) : pick(total);
      c.add(OP_ALLOC, F_ALLOC_FAIL, at, limits[pick(8)]);
    }
    Proc const p = process(c, [&] { body(false); });
    if (violated()) {
      return;
    }
    if (!p.memory.empty()) {
      violate("A01:memory", "%s,%s", p.memory.c_str(), describe(c).c_str());
      return;
    }
    if (p.livelock) {
      violate("A01:hang", "the history did not finish,%s", describe(c).c_str());
      return;
    }
    if (p.success() && record().done == 0) {
      violate("A01:silent", "the program ended with success in the middle of the history,%s", describe(c).c_str());
      return;
    }
    if (p.injected != 0) {
      nontrivial();
      probe(static_cast<int>(kind));
    }
    stateMix(static_cast<uint64_t>(p.code) * 64 + static_cast<uint64_t>(p.sig));
    probe(p.success() ? 10 : p.sig != 0 ? 11 : 12);
    // what a later process makes of the file
    std::string const & path = kind == 7 ? mh.path : sh.path;
    if (path.empty() || !diskExists(path.c_str())) {
      continue;
    }
    Proc const l = process(Cfg(), [&] {
      quietLogger(1, true);
      if (kind == 7) {
        um2::mpact::Model m;
        if (step("load", [&] { m.read(um2::String(path.c_str())); }) == ST_OK) {
          probe(14);
          std::string const d = compare(mh.a, m, true);
          if (!d.empty() && (!mh.had_old || !compare(mh.old, m, true).empty())) {
            violate("A01:file", "after%s, the file loads as neither the new nor an older model: %s", describe(c).c_str(),
                    d.c_str());
          }
        }
      } else {
        um2::PolytopeSoup s;
        if (step("load", [&] { s.read(um2::String(path.c_str())); }) == ST_OK) {
          probe(15);
          std::string const d = compare(sh.a, s);
          if (!d.empty() && (!sh.had_old || !compare(sh.old, s).empty())) {
            violate("A01:file", "after%s, the file loads as neither the new nor an older mesh: %s", describe(c).c_str(),
                    d.c_str());
          }
        }
      }
    });
    if (violated()) {
      return;
    }
    if (l.livelock) {
      violate("A01:hang", "loading the file afterwards did not finish,%s", describe(c).c_str());
      return;
    }
  }
}
Register const ra("A01", a01);

} // namespace
