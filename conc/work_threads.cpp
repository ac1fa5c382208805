// C01, C02: threads that query shared objects, and threads that work on their own objects.
//
// What each thread computes is first computed by that thread alone in a fresh process.  Then all threads
// run in one process, interleaved by the choices of the run: same results, no conflicting accesses.
#include "mesh_text.hpp"
#include "model_spec.hpp"
#include "sched.hpp"
#include <algorithm>
#include <cstring>
#include <memory>
#include <um2/common/logger.hpp>
#include <um2/mesh/face_vertex_mesh.hpp>
#include <um2/mpact/source.hpp>
#include <um2c.h>

using namespace sim;

namespace
{

//--------------------------------------------------------------------------------------------------
// Results, by thread and position
//--------------------------------------------------------------------------------------------------

constexpr uint32_t max_results = 64;
struct Results {
  uint32_t n;
  uint32_t done;
  uint64_t d[max_results];
};
// 0: alone, 1: together
Results &
results(int phase, int thread)
{
  return reinterpret_cast<Results *>(shm->scratch)[phase * conc::max_threads + thread];
}

struct Digest {
  uint64_t h = 1469598103934665603ULL;
  void
  num(uint64_t v)
  {
    h = mix64(h ^ v);
  }
  void
  real(double v)
  {
    uint64_t u = 0;
    memcpy(&u, &v, 8);
    num(u);
  }
  void
  text(char const * s, Int n)
  {
    num(static_cast<uint64_t>(n));
    for (Int i = 0; i < n; ++i) {
      num(static_cast<uint8_t>(s[i]));
    }
  }
  template <class V>
  void
  ints(V const & v)
  {
    num(static_cast<uint64_t>(v.size()));
    for (auto const x : v) {
      num(static_cast<uint64_t>(x));
    }
  }
  template <class V>
  void
  reals(V const & v)
  {
    num(static_cast<uint64_t>(v.size()));
    for (auto const x : v) {
      real(x);
    }
  }
};

void
digest(Digest & g, um2::PolytopeSoup const & s)
{
  for (Int i = 0; i < s.numVertices(); ++i) {
    auto const & p = s.vertices()[i];
    for (Int k = 0; k < 3; ++k) {
      g.real(p[k]);
    }
  }
  um2::VTKElemType t = um2::VTKElemType::Invalid;
  um2::Vector<Int> c;
  for (Int i = 0; i < s.numElements(); ++i) {
    s.getElement(i, t, c);
    g.num(static_cast<uint64_t>(t));
    g.ints(c);
  }
  for (Int i = 0; i < s.numElsets(); ++i) {
    um2::String name;
    um2::Vector<Int> ids;
    um2::Vector<Float> data;
    s.getElset(i, name, ids, data);
    g.text(name.data(), name.size());
    g.ints(ids);
    g.reals(data);
  }
}

template <Int P, Int N>
void
digest(Digest & g, um2::FaceVertexMesh<P, N> const & m)
{
  for (auto const & v : m.vertices()) {
    g.real(v[0]);
    g.real(v[1]);
  }
  for (auto const & f : m.faceVertexConn()) {
    for (Int k = 0; k < N; ++k) {
      g.num(static_cast<uint64_t>(f[k]));
    }
  }
  g.ints(m.vertexFaceOffsets());
  g.ints(m.vertexFaceConn());
}

void
digest(Digest & g, um2::XSec const & x)
{
  g.num(static_cast<uint64_t>(x.numGroups()));
  g.num(x.isMacro() ? 1 : 0);
  g.num(x.isFissile() ? 1 : 0);
  g.reals(x.a());
  g.reals(x.f());
  g.reals(x.nuf());
  g.reals(x.tr());
  g.reals(x.s());
  for (Int i = 0; i < x.numGroups(); ++i) {
    for (Int j = 0; j < x.numGroups(); ++j) {
      g.real(x.ss()(i, j));
    }
  }
}

void
digest(Digest & g, um2::Material const & m)
{
  g.text(m.getName().data(), m.getName().size());
  g.real(m.getTemperature());
  g.real(m.getDensity());
  g.ints(m.zaids());
  g.reals(m.numDensities());
  digest(g, m.xsec());
}

void
digest(Digest & g, um2::mpact::Model const & m)
{
  g.ints(m.core().children());
  for (auto const & a : m.assemblies()) {
    g.ints(a.children());
    g.reals(a.grid().divs(0));
  }
  for (auto const & l : m.lattices()) {
    g.ints(l.children());
    g.real(l.grid().spacing()[0]);
  }
  for (auto const & r : m.rtms()) {
    g.ints(r.children());
    g.reals(r.grid().divs(0));
    g.reals(r.grid().divs(1));
  }
  for (auto const & c : m.coarseCells()) {
    g.real(c.xy_extents[0]);
    g.real(c.xy_extents[1]);
    g.num(static_cast<uint64_t>(c.mesh_type));
    g.num(static_cast<uint64_t>(c.mesh_id));
    g.ints(c.material_ids);
  }
  for (auto const & x : m.materials()) {
    digest(g, x);
  }
  for (auto const & x : m.triMeshes()) {
    digest(g, x);
  }
  for (auto const & x : m.quadMeshes()) {
    digest(g, x);
  }
  for (auto const & x : m.tri6Meshes()) {
    digest(g, x);
  }
  for (auto const & x : m.quad8Meshes()) {
    digest(g, x);
  }
}

//--------------------------------------------------------------------------------------------------
// Face meshes
//--------------------------------------------------------------------------------------------------

template <Int P, Int N>
um2::FaceVertexMesh<P, N>
makeMesh(FvmSpec const & f)
{
  um2::Vector<um2::Point2F> v;
  um2::Vector<um2::Vec<N, Int>> fv;
  for (auto const & p : f.verts) {
    v.emplace_back(p[0], p[1]);
  }
  for (auto const & c : f.faces) {
    um2::Vec<N, Int> q;
    for (Int i = 0; i < N; ++i) {
      q[i] = static_cast<Int>(c[static_cast<size_t>(i)]);
    }
    fv.emplace_back(q);
  }
  return um2::FaceVertexMesh<P, N>(v, fv);
}

um2::Ray2F
drawRay(Rng & r, double w, double h)
{
  if (r.below(2) == 0) {
    return {um2::Point2F(-0.1 * w, r.unit() * h), um2::Vec2F(1.0, r.unit() - 0.5).normalized()};
  }
  return {um2::Point2F(r.unit() * w, -0.1 * h), um2::Vec2F(r.unit() - 0.5, 1.0).normalized()};
}

template <Int P, Int N>
void
queryMesh(Digest & g, um2::FaceVertexMesh<P, N> const & m, double w, double h, int op, Rng & r)
{
  Int const nf = m.numFaces();
  switch (op % 9) {
  case 0: {
    um2::Vector<Float> coords(8 * nf + 8);
    for (int k = 0; k < 3; ++k) {
      Int const n = m.intersect(drawRay(r, w, h), coords.data());
      g.num(static_cast<uint64_t>(n));
      for (Int i = 0; i < n; ++i) {
        g.real(coords[i]);
      }
    }
    break;
  }
  case 1: {
    um2::Vector<Float> coords(8 * nf + 8);
    um2::Vector<Float> sorted(8 * nf + 8);
    um2::Vector<Int> offsets(nf + 1);
    um2::Vector<Int> faces(nf + 1);
    um2::Vector<Int> soffsets(nf + 1);
    um2::Vector<Int> sfaces(nf + 1);
    um2::Vector<Int> perm(nf + 1);
    for (int k = 0; k < 2; ++k) {
      auto const hf = m.intersect(drawRay(r, w, h), coords.data(), offsets.data(), faces.data());
      g.num(static_cast<uint64_t>(hf[0]));
      g.num(static_cast<uint64_t>(hf[1]));
      if (hf[1] == 0) {
        continue;
      }
      um2::sortRayMeshIntersections(coords.data(), offsets.data(), faces.data(), sorted.data(), soffsets.data(),
                                    sfaces.data(), perm.data(), hf);
      for (Int i = 0; i < hf[0]; ++i) {
        g.real(sorted[i]);
      }
      for (Int i = 0; i < hf[1]; ++i) {
        g.num(static_cast<uint64_t>(sfaces[i]));
        g.num(static_cast<uint64_t>(soffsets[i + 1]));
      }
    }
    break;
  }
  case 2:
    for (int k = 0; k < 4; ++k) {
      g.num(static_cast<uint64_t>(m.faceContaining(um2::Point2F(w * r.unit(), h * r.unit()))));
    }
    break;
  case 3: {
    auto const b = m.boundingBox();
    g.real(b.minima()[0]);
    g.real(b.minima()[1]);
    g.real(b.maxima()[0]);
    g.real(b.maxima()[1]);
    break;
  }
  case 4:
    for (Int i = 0; i < nf; ++i) {
      auto const f = m.getFace(i);
      g.real(f.area());
      g.real(f.centroid()[0]);
      g.real(f.centroid()[1]);
      g.real(f.perimeter());
    }
    break;
  case 5:
    for (Int i = 0; i < nf && i < 4; ++i) {
      auto const f = m.getFace(i);
      g.real(f.meanChordLength());
      g.num(f.isCCW() ? 1 : 0);
      auto const b = f.boundingBox();
      g.real(b.minima()[0]);
      g.num(f.contains(um2::Point2F(w * r.unit(), h * r.unit())) ? 1 : 0);
    }
    break;
  case 6:
    for (Int i = 0; i < nf; ++i) {
      for (Int k = 0; k < um2::polygonNumEdges<P, N>(); ++k) {
        auto const e = m.getEdge(i, k);
        g.real(e.length());
        auto const c = m.getEdgeConn(i, k);
        g.num(static_cast<uint64_t>(c[0]));
      }
    }
    break;
  case 7: {
    um2::PolytopeSoup const s = m;
    digest(g, s);
    break;
  }
  default: {
    auto const c = m;
    digest(g, c);
    break;
  }
  }
}

template <Int P, Int N>
void
changeMesh(Digest & g, um2::FaceVertexMesh<P, N> & m, double w, double h, int op, Rng & r)
{
  switch (op % 6) {
  case 0:
    m.mortonSort();
    break;
  case 1:
    m.populateVF();
    break;
  case 2:
    if (m.numFaces() > 0) {
      auto const i = static_cast<Int>(r.below(static_cast<uint32_t>(m.numFaces())));
      m.flipFace(i);
      m.validate();
    }
    break;
  case 3: {
    um2::PolytopeSoup const s = m;
    m = um2::FaceVertexMesh<P, N>(s);
    break;
  }
  case 4:
    m.mortonSortVertices();
    m.mortonSortFaces();
    m.validate();
    break;
  default:
    queryMesh(g, m, w, h, static_cast<int>(r.below(9)), r);
    break;
  }
  digest(g, m);
}

//--------------------------------------------------------------------------------------------------
// Meshes with sets
//--------------------------------------------------------------------------------------------------

void
querySoup(Digest & g, um2::PolytopeSoup const & s, int op, Rng & r)
{
  switch (op % 7) {
  case 0:
  case 1:
    for (Int i = 0; i < s.numElsets(); ++i) {
      um2::Vector<Int> ids;
      um2::Vector<Float> data;
      if (op % 7 == 0) {
        um2::String const name(s.elsetNames()[i].data());
        s.getElset(name, ids, data);
      } else {
        um2::String name;
        s.getElset(i, name, ids, data);
        g.text(name.data(), name.size());
      }
      g.ints(ids);
      g.reals(data);
    }
    break;
  case 2:
    for (int k = 0; k < 5; ++k) {
      um2::VTKElemType t = um2::VTKElemType::Invalid;
      um2::Vector<Int> c;
      s.getElement(static_cast<Int>(r.below(static_cast<uint32_t>(s.numElements()))), t, c);
      g.num(static_cast<uint64_t>(t));
      g.ints(c);
    }
    break;
  case 3:
    g.ints(s.getElemTypes());
    break;
  case 4:
    for (Int i = 0; i < s.numElsets() && i < 3; ++i) {
      um2::PolytopeSoup u;
      um2::String const name(s.elsetNames()[i].data());
      s.getSubset(name, u);
      digest(g, u);
    }
    break;
  case 5: {
    um2::PolytopeSoup const c(s);
    g.num(static_cast<uint64_t>(c.compare(s)));
    g.num(static_cast<uint64_t>(s.compare(c)));
    break;
  }
  default: {
    um2::PolytopeSoup const c(s);
    digest(g, c);
    break;
  }
  }
}

void
changeSoup(Digest & g, um2::PolytopeSoup & s, MeshSpec const & other, int op, Rng & r)
{
  switch (op % 6) {
  case 0: {
    um2::PolytopeSoup o = build(other);
    if (o.numElsets() > 0) {
      o.sortElsets();
    }
    if (s.numElsets() > 0) {
      s.sortElsets();
    }
    if (s.numElements() < 5000) {
      s += o;
    }
    break;
  }
  case 1:
    if (s.numElsets() > 0) {
      s.sortElsets();
    }
    break;
  case 2:
    s = build(other);
    break;
  case 3: {
    um2::PolytopeSoup c(s);
    s = um2::move(c);
    break;
  }
  case 4:
    s.translate(um2::Point3F(r.unit(), r.unit(), 0.0));
    break;
  default:
    querySoup(g, s, static_cast<int>(r.below(7)), r);
    break;
  }
  digest(g, s);
}

//--------------------------------------------------------------------------------------------------
// Models
//--------------------------------------------------------------------------------------------------

void
queryModel(Digest & g, um2::mpact::Model const & m, int op, Rng & r)
{
  switch (op % 7) {
  case 0:
    g.reals(m.getMeanChordLengths());
    break;
  case 1:
    for (Int c = 0; c < m.numCoarseCells() && c < 3; ++c) {
      if (!m.materials().empty() && m.materials()[0].xsec().numGroups() > 0) {
        digest(g, m.getCoarseCellHomogenizedXSec(c));
      }
    }
    break;
  case 2:
    g.num(static_cast<uint64_t>(m.numAssembliesTotal()));
    g.num(static_cast<uint64_t>(m.numLatticesTotal()));
    g.num(static_cast<uint64_t>(m.numRTMsTotal()));
    g.num(static_cast<uint64_t>(m.numCoarseCellsTotal()));
    g.num(static_cast<uint64_t>(m.numFineCellsTotal()));
    break;
  case 3:
    digest(g, m);
    break;
  case 4:
    for (auto const & x : m.materials()) {
      if (x.xsec().numGroups() > 0) {
        digest(g, x.xsec().collapseTo1GroupAvg());
      }
      g.num(x.hasXSec() ? 1 : 0);
    }
    break;
  case 5:
    if (m.numFineCellsTotal() < 2000) {
      um2::PolytopeSoup const s(m);
      digest(g, s);
    }
    break;
  default: {
    for (Int c = 0; c < m.numCoarseCells() && c < 4; ++c) {
      auto const & cc = m.getCoarseCell(c);
      auto const op2 = static_cast<int>(r.below(9));
      if (cc.mesh_type == um2::MeshType::Tri) {
        queryMesh(g, m.getTriMesh(cc.mesh_id), cc.xy_extents[0], cc.xy_extents[1], op2, r);
      } else if (cc.mesh_type == um2::MeshType::Quad) {
        queryMesh(g, m.getQuadMesh(cc.mesh_id), cc.xy_extents[0], cc.xy_extents[1], op2, r);
      } else if (cc.mesh_type == um2::MeshType::QuadraticTri) {
        queryMesh(g, m.getTri6Mesh(cc.mesh_id), cc.xy_extents[0], cc.xy_extents[1], op2, r);
      } else if (cc.mesh_type == um2::MeshType::QuadraticQuad) {
        queryMesh(g, m.getQuad8Mesh(cc.mesh_id), cc.xy_extents[0], cc.xy_extents[1], op2, r);
      }
    }
    break;
  }
  }
}

void
queryHandle(Digest & g, void * m, int op, Rng & r)
{
  Int ncc = 0;
  Int nrtm = 0;
  Int nlat = 0;
  Int nasy = 0;
  um2MPACTNumCoarseCells(m, &ncc);
  um2MPACTNumRTMs(m, &nrtm);
  um2MPACTNumLattices(m, &nlat);
  um2MPACTNumAssemblies(m, &nasy);
  auto const cc = static_cast<Int>(r.below(static_cast<uint32_t>(ncc)));
  Int nf = 0;
  um2MPACTCoarseCellNumFaces(m, cc, &nf);
  Float w = 0;
  Float h = 0;
  um2MPACTCoarseCellWidth(m, cc, &w);
  um2MPACTCoarseCellHeight(m, cc, &h);
  switch (op % 8) {
  case 0: {
    g.num(static_cast<uint64_t>(ncc));
    g.num(static_cast<uint64_t>(nrtm));
    g.num(static_cast<uint64_t>(nlat));
    g.num(static_cast<uint64_t>(nasy));
    Int nx = 0;
    Int ny = 0;
    Int child = 0;
    um2MPACTCoreNumCells(m, &nx, &ny);
    for (Int i = 0; i < nx; ++i) {
      for (Int j = 0; j < ny; ++j) {
        um2MPACTCoreGetChild(m, i, j, &child);
        g.num(static_cast<uint64_t>(child));
      }
    }
    for (Int a = 0; a < nasy; ++a) {
      um2MPACTAssemblyNumCells(m, a, &nx);
      for (Int i = 0; i < nx; ++i) {
        um2MPACTAssemblyGetChild(m, a, i, &child);
        g.num(static_cast<uint64_t>(child));
      }
    }
    break;
  }
  case 1: {
    Int nx = 0;
    Int ny = 0;
    Int child = 0;
    for (Int a = 0; a < nlat; ++a) {
      um2MPACTLatticeNumCells(m, a, &nx, &ny);
      for (Int i = 0; i < nx; ++i) {
        um2MPACTLatticeGetChild(m, a, i, ny - 1, &child);
        g.num(static_cast<uint64_t>(child));
      }
    }
    for (Int a = 0; a < nrtm; ++a) {
      um2MPACTRTMNumCells(m, a, &nx, &ny);
      for (Int i = 0; i < nx; ++i) {
        um2MPACTRTMGetChild(m, a, i, 0, &child);
        g.num(static_cast<uint64_t>(child));
      }
      Float x = 0;
      um2MPACTRTMWidth(m, a, &x);
      g.real(x);
      um2MPACTRTMHeight(m, a, &x);
      g.real(x);
    }
    break;
  }
  case 2: {
    um2::Vector<Float> areas(nf);
    um2MPACTCoarseCellFaceAreas(m, cc, areas.data());
    g.reals(areas);
    um2::Vector<MatID> ids(nf);
    um2MPACTCoarseCellMaterialIDs(m, cc, ids.data());
    g.ints(ids);
    break;
  }
  case 3:
    for (int k = 0; k < 4; ++k) {
      Int f = -1;
      um2MPACTCoarseCellFaceContaining(m, cc, w * r.unit(), h * r.unit(), &f);
      g.num(static_cast<uint64_t>(f));
    }
    break;
  case 4:
    for (Int f = 0; f < nf; ++f) {
      Float x = 0;
      Float y = 0;
      um2MPACTCoarseCellFaceCentroid(m, cc, f, &x, &y);
      g.real(x);
      g.real(y);
    }
    break;
  case 5: {
    um2::Vector<Float> coords(8 * nf + 8);
    for (int k = 0; k < 3; ++k) {
      auto const ray = drawRay(r, w, h);
      Int n = 0;
      um2MPACTIntersectCoarseCell(m, cc, ray.origin()[0], ray.origin()[1], ray.direction()[0], ray.direction()[1],
                                  coords.data(), &n);
      g.num(static_cast<uint64_t>(n));
      for (Int i = 0; i < n; ++i) {
        g.real(coords[i]);
      }
    }
    break;
  }
  case 6: {
    using F = void (*)(void *, Int *, Int **, Float **);
    static F const fs[] = {um2MPACTCoarseCellHeights, um2MPACTRTMHeights, um2MPACTLatticeHeights};
    for (auto const f : fs) {
      Int n = 0;
      Int * ids = nullptr;
      Float * dz = nullptr;
      f(m, &n, &ids, &dz);
      for (Int i = 0; i < n; ++i) {
        g.num(static_cast<uint64_t>(ids[i]));
        g.real(dz[i]);
      }
      um2Free(ids);
      um2Free(dz);
    }
    for (Int a = 0; a < nasy; ++a) {
      Int n = 0;
      um2MPACTAssemblyNumCells(m, a, &n);
      um2::Vector<Float> dz(n);
      um2MPACTAssemblyHeights(m, a, dz.data());
      g.reals(dz);
    }
    break;
  }
  default: {
    Int type = 0;
    Int nv = 0;
    Int n = 0;
    Float * vertices = nullptr;
    Int * fv = nullptr;
    um2MPACTCoarseCellFaceData(m, cc, &type, &nv, &n, &vertices, &fv);
    g.num(static_cast<uint64_t>(type));
    for (Int i = 0; i < 2 * nv; ++i) {
      g.real(vertices[i]);
    }
    static Int const per[] = {0, 0, 0, 3, 4, 0, 6, 0, 8};
    Int const k = type >= 0 && type < 9 ? per[type] : 0;
    for (Int i = 0; i < k * n; ++i) {
      g.num(static_cast<uint64_t>(fv[i]));
    }
    break;
  }
  }
}

//--------------------------------------------------------------------------------------------------
// Cross-section data and materials
//--------------------------------------------------------------------------------------------------

int const zaids[] = {92234, 92235, 92236, 92238, 8016, 1001, 64155, 64157, 40090, 5010};

um2::XSLibrary
makeLibrary(uint64_t seed, int groups)
{
  Rng r(seed);
  um2::XSLibrary lib;
  for (int g = 0; g < groups; ++g) {
    lib.groupBounds().push_back(1e7 / (g + 1.0));
    lib.chi().push_back(1.0 / groups);
  }
  for (int const z : zaids) {
    um2::Nuclide n;
    n.zaid() = z;
    n.mass() = z % 1000;
    n.isFissile() = z == 92235;
    int const nt = 1 + static_cast<int>(r.below(4));
    for (int t = 0; t < nt; ++t) {
      n.temperatures().push_back(300.0 + 200.0 * t);
      um2::XSec x(groups);
      x.isFissile() = z == 92235;
      for (Int i = 0; i < groups; ++i) {
        x.f()[i] = z == 92235 ? 1 + r.unit() : 0;
        x.nuf()[i] = 2.5 * x.f()[i];
        x.a()[i] = x.f()[i] + r.unit();
        for (Int j = 0; j < groups; ++j) {
          x.ss()(j, i) = r.unit();
          x.s()[i] += x.ss()(j, i);
        }
        x.tr()[i] = x.a()[i] + x.s()[i];
      }
      n.xs().push_back(x);
    }
    lib.nuclides().push_back(n);
  }
  return lib;
}

um2::Material
makeMaterial(Rng & r)
{
  static char const * const symbols[] = {"U235", "U238", "O16", "H1", "Gd155", "B10", "Zr90"};
  um2::Material m;
  m.setName(um2::String(r.below(2) == 0 ? "fuel" : "a material with a rather long name"));
  m.setTemperature(290 + 700 * r.unit());
  m.setDensity(1 + 10 * r.unit());
  m.setColor(um2::orange);
  uint32_t const first = r.below(7);
  switch (r.below(4)) {
  case 0:
    m.setUO2(0.01 + 0.1 * r.unit(), r.below(2) == 0 ? 0 : 0.05);
    break;
  case 1:
    for (uint32_t i = 0; i < 3; ++i) {
      m.addNuclide(um2::String(symbols[(first + i) % 7]), 0.001 + r.unit());
    }
    break;
  case 2:
    for (uint32_t i = 0; i < 2; ++i) {
      m.addNuclideWt(um2::String(symbols[(first + i) % 7]), 0.1 + 0.4 * r.unit());
    }
    break;
  default: {
    um2::Vector<um2::String> names;
    um2::Vector<Float> at;
    for (uint32_t i = 0; i < 3; ++i) {
      names.emplace_back(symbols[(first + i) % 7]);
      at.emplace_back(1.0 / 3);
    }
    m.addNuclidesAtomPercent(names, at);
    break;
  }
  }
  return m;
}

void
queryLibrary(Digest & g, um2::XSLibrary const & lib, int op, Rng & r)
{
  switch (op % 4) {
  case 0: {
    auto const & n = lib.getNuclide(zaids[r.below(10)]);
    g.num(static_cast<uint64_t>(n.zaid()));
    g.reals(n.temperatures());
    n.validate();
    break;
  }
  case 1:
    for (int k = 0; k < 3; ++k) {
      digest(g, lib.getNuclide(zaids[r.below(10)]).interpXS(250 + 900 * r.unit()));
    }
    break;
  case 2: {
    auto m = makeMaterial(r);
    bool all = true; // the library must know every nuclide
    for (auto const z : m.zaids()) {
      all = all && std::find(std::begin(zaids), std::end(zaids), z) != std::end(zaids);
    }
    if (all) {
      m.populateXSec(lib);
    }
    digest(g, m);
    break;
  }
  default: {
    um2::XSLibrary const c = lib;
    for (auto const & n : c.nuclides()) {
      for (auto const & x : n.xs()) {
        digest(g, x);
      }
    }
    break;
  }
  }
}

void
ownMaterials(Digest & g, int op, Rng & r)
{
  switch (op % 4) {
  case 0:
    digest(g, makeMaterial(r));
    break;
  case 1: {
    auto const lib = makeLibrary(r.next(), 1 + static_cast<int>(r.below(8)));
    queryLibrary(g, lib, static_cast<int>(r.below(4)), r);
    break;
  }
  case 2:
    if (r.below(2) == 0) {
      for (auto const & m : um2::getC5G7Materials()) {
        digest(g, m);
      }
    } else {
      for (auto const & x : um2::getC5G7XSecs()) {
        digest(g, x);
      }
    }
    break;
  default: {
    static char const * const names[] = {"U235", "Pu239", "H1", "Am242", "Xe135", "Zr90", "O16"};
    for (int k = 0; k < 4; ++k) {
      g.num(static_cast<uint64_t>(um2::toZAID(um2::String(names[r.below(7)]))));
    }
    break;
  }
  }
}

// A mesh as the transport code gives it back: one material and a flux per group for every face.
um2::PolytopeSoup
fluxMesh(uint64_t seed, int nx, int ny, int groups, int nmats)
{
  Rng r(seed);
  um2::PolytopeSoup s;
  for (int j = 0; j <= ny; ++j) {
    for (int i = 0; i <= nx; ++i) {
      s.addVertex(i, j);
    }
  }
  um2::Vector<Int> ids;
  for (int j = 0; j < ny; ++j) {
    for (int i = 0; i < nx; ++i) {
      Int const a = j * (nx + 1) + i;
      um2::Vector<Int> c;
      c.push_back(a);
      c.push_back(a + 1);
      c.push_back(a + nx + 2);
      c.push_back(a + nx + 1);
      s.addElement(um2::VTKElemType::Quad, c);
      ids.push_back(j * nx + i);
    }
  }
  um2::Vector<Float> data(ids.size());
  for (auto & x : data) {
    x = 1 + r.below(static_cast<uint32_t>(nmats));
  }
  s.addElset(um2::String("material"), ids, data);
  for (int k = 1; k <= groups; ++k) {
    for (auto & x : data) {
      x = r.unit();
    }
    s.addElset(um2::String(fmt("flux_%03d", k).c_str()), ids, data);
  }
  return s;
}

um2::Vector<um2::Material>
fluxMaterials(uint64_t seed, int groups, int nmats)
{
  Rng r(seed);
  um2::Vector<um2::Material> ms;
  for (int k = 0; k < nmats; ++k) {
    um2::Material m;
    m.setName(um2::String("m"));
    um2::XSec x(groups);
    for (Int i = 0; i < groups; ++i) {
      x.s()[i] = r.unit();
      x.nuf()[i] = r.unit();
    }
    m.xsec() = x;
    ms.push_back(m);
  }
  return ms;
}

void
sources(Digest & g, um2::PolytopeSoup const & s, um2::Vector<um2::Material> const & ms)
{
  for (auto const & q : um2::mpact::getSource(s, ms)) {
    g.real(q[0]);
    g.real(q[1]);
  }
}

//--------------------------------------------------------------------------------------------------
// Containers
//--------------------------------------------------------------------------------------------------

void
containers(Digest & g, int op, Rng & r)
{
  if (op % 2 == 0) {
    um2::Vector<um2::String> v;
    for (int k = 0; k < 12; ++k) {
      um2::String s("name_");
      s += um2::String(static_cast<int32_t>(r.below(1000000)));
      if (r.below(2) == 0) {
        s += " and quite a lot more text than fits in place";
      }
      v.push_back(s);
      if (r.below(3) == 0) {
        v.emplace_back(s.substr(1, 4));
      }
    }
    um2::Vector<um2::String> const w = v;
    v.resize(3);
    for (auto const & s : w) {
      g.text(s.data(), s.size());
    }
    g.num(w[0] == v[0] ? 1 : 0);
    g.num(w[0] < w[1] ? 1 : 0);
    um2::String const x(3.25 + r.unit());
    g.text(x.data(), x.size());
  } else {
    um2::Vector<um2::Vector<Float>> v;
    for (int k = 0; k < 10; ++k) {
      um2::Vector<Float> u(static_cast<Int>(1 + r.below(20)), r.unit());
      u.push_back(r.unit());
      v.push_back(u);
      if (r.below(4) == 0) {
        v.pop_back();
      }
    }
    auto const w = v;
    v.clear();
    for (auto const & u : w) {
      g.reals(u);
    }
  }
}

//--------------------------------------------------------------------------------------------------
// Scripts
//--------------------------------------------------------------------------------------------------

struct Script {
  std::vector<int> ops;
  uint64_t seed = 0;
  int subject = 0;
  MeshSpec a, b;
  FvmSpec f;
  ModelSpec m;
  int groups = 1;
  bool vtk = false;
  std::string text; // a mesh file of this thread alone
};

void
drawFaces(FvmSpec & f, uint64_t seed)
{
  f.kind = static_cast<int>(pick(4));
  f.nx = range(1, 4);
  f.ny = range(1, 4);
  f.w = 1 + realIn(0, 2);
  f.h = 1 + realIn(0, 2);
  Rng r(seed);
  makeFaces(f, r);
}

void
drawSubject(Script & s, int subjects)
{
  s.seed = pick(1U << 30);
  s.subject = static_cast<int>(pick(static_cast<uint32_t>(subjects)));
  s.groups = range(1, 8);
  switch (s.subject) {
  case 0:
    drawFaces(s.f, s.seed);
    break;
  case 1: {
    MeshOpts o;
    o.big = false;
    s.a = drawMesh(o);
    s.b = drawMesh(o);
    break;
  }
  case 2:
  case 3: {
    ModelOpts o;
    o.small = true;
    s.m = drawModel(o);
    break;
  }
  case 7: {
    MeshOpts o;
    o.big = false;
    s.vtk = pick(2) == 1;
    o.vtk = s.vtk;
    o.abaqus = !s.vtk;
    o.xdmf = false;
    s.a = drawMesh(o);
    for (size_t i = 0; s.vtk && i < s.a.elsets.size(); ++i) {
      // every data set covers all cells and has a one-word name
      auto & e = s.a.elsets[i];
      e.name = fmt("data%zu", i);
      e.ids.clear();
      e.data.clear();
      for (size_t k = 0; k < s.a.types.size(); ++k) {
        e.ids.push_back(static_cast<int>(k));
        e.data.push_back(static_cast<double>((k * 7 + i) % 23));
      }
    }
    TextStyle const st = drawTextStyle();
    std::vector<size_t> marks;
    std::vector<size_t> starts;
    s.text = s.vtk ? vtkText(s.a, st, marks, starts) : abaqusText(s.a, st);
    break;
  }
  default:
    break;
  }
}

struct Shared {
  um2::TriFVM tri;
  um2::QuadFVM quad;
  um2::Tri6FVM tri6;
  um2::Quad8FVM quad8;
  um2::PolytopeSoup soup;
  um2::mpact::Model model;
  void * handle = nullptr;
  um2::XSLibrary lib;
  um2::Vector<um2::Material> mats;
};

void
setUp(Shared & s, Script const & q)
{
  switch (q.subject) {
  case 0:
    if (q.f.kind == 0) {
      s.tri = makeMesh<1, 3>(q.f);
    } else if (q.f.kind == 1) {
      s.quad = makeMesh<1, 4>(q.f);
    } else if (q.f.kind == 2) {
      s.tri6 = makeMesh<2, 6>(q.f);
    } else {
      s.quad8 = makeMesh<2, 8>(q.f);
    }
    break;
  case 1:
    s.soup = build(q.a);
    break;
  case 2:
    s.model = build(q.m);
    break;
  case 3: {
    auto const m = build(q.m);
    m.write(um2::String("/sim/model.xdmf"));
    um2ReadMPACTModel("/sim/model.xdmf", &s.handle);
    break;
  }
  case 4:
    s.lib = makeLibrary(q.seed, q.groups);
    break;
  default:
    s.soup = fluxMesh(q.seed, 1 + static_cast<int>(q.seed % 4), 1 + static_cast<int>(q.seed / 4 % 4), q.groups, 3);
    s.mats = fluxMaterials(q.seed, q.groups, 3);
    break;
  }
}

void
digest(Digest & g, Shared const & s)
{
  digest(g, s.tri);
  digest(g, s.quad);
  digest(g, s.tri6);
  digest(g, s.quad8);
  digest(g, s.soup);
  digest(g, s.handle != nullptr ? *static_cast<um2::mpact::Model const *>(s.handle) : s.model);
  for (auto const & n : s.lib.nuclides()) {
    for (auto const & x : n.xs()) {
      digest(g, x);
    }
  }
  for (auto const & m : s.mats) {
    digest(g, m);
  }
}

void
keep(int phase, int thread, Digest const & g)
{
  auto & r = results(phase, thread);
  if (r.n < max_results) {
    r.d[r.n++] = g.h;
  }
}

// One thread's queries on what is shared.
void
queries(int phase, int thread, Shared const & s, Script const & shared, Script const & mine)
{
  results(phase, thread).n = 0;
  Rng r(mine.seed);
  for (int const op : mine.ops) {
    Digest g;
    switch (shared.subject) {
    case 0:
      if (shared.f.kind == 0) {
        queryMesh(g, s.tri, shared.f.w, shared.f.h, op, r);
      } else if (shared.f.kind == 1) {
        queryMesh(g, s.quad, shared.f.w, shared.f.h, op, r);
      } else if (shared.f.kind == 2) {
        queryMesh(g, s.tri6, shared.f.w, shared.f.h, op, r);
      } else {
        queryMesh(g, s.quad8, shared.f.w, shared.f.h, op, r);
      }
      break;
    case 1:
      querySoup(g, s.soup, op, r);
      break;
    case 2:
      queryModel(g, s.model, op, r);
      break;
    case 3:
      queryHandle(g, s.handle, op, r);
      break;
    case 4:
      queryLibrary(g, s.lib, op, r);
      break;
    default:
      if (op % 2 == 0) {
        sources(g, s.soup, s.mats);
      } else {
        querySoup(g, s.soup, op / 2, r);
      }
      break;
    }
    keep(phase, thread, g);
  }
  results(phase, thread).done = 1;
}

template <Int P, Int N>
void
ownMesh(int phase, int thread, Script const & q)
{
  Rng r(q.seed);
  auto m = makeMesh<P, N>(q.f);
  for (int const op : q.ops) {
    Digest g;
    changeMesh(g, m, q.f.w, q.f.h, op, r);
    keep(phase, thread, g);
  }
}

// One thread's work on its own objects.
void
ownWork(int phase, int thread, Script const & q)
{
  results(phase, thread).n = 0;
  Rng r(q.seed);
  switch (q.subject) {
  case 0:
    if (q.f.kind == 0) {
      ownMesh<1, 3>(phase, thread, q);
    } else if (q.f.kind == 1) {
      ownMesh<1, 4>(phase, thread, q);
    } else if (q.f.kind == 2) {
      ownMesh<2, 6>(phase, thread, q);
    } else {
      ownMesh<2, 8>(phase, thread, q);
    }
    break;
  case 1: {
    um2::PolytopeSoup s = build(q.a);
    for (int const op : q.ops) {
      Digest g;
      changeSoup(g, s, q.b, op, r);
      keep(phase, thread, g);
    }
    break;
  }
  case 2:
  case 3:
    for (int const op : q.ops) {
      Digest g;
      if (op % 3 == 2) {
        um2::mpact::Model m;
        m.addCoarseGrid(um2::Vec2F(1 + r.unit(), 1 + r.unit()),
                        um2::Vec2I(static_cast<Int>(1 + r.below(4)), static_cast<Int>(1 + r.below(4))));
        digest(g, m);
      } else {
        auto const m = build(q.m);
        queryModel(g, m, op / 3, r);
      }
      keep(phase, thread, g);
    }
    break;
  case 4:
    for (int const op : q.ops) {
      Digest g;
      ownMaterials(g, op, r);
      keep(phase, thread, g);
    }
    break;
  case 5:
    for (int const op : q.ops) {
      Digest g;
      int const groups = 1 + op % 12;
      sources(g, fluxMesh(r.next(), 1 + op % 3, 1 + op % 4, groups, 2), fluxMaterials(r.next(), groups, 2));
      keep(phase, thread, g);
    }
    break;
  case 7:
    for (int const op : q.ops) {
      Digest g;
      um2::PolytopeSoup s;
      s.read(um2::String(fmt("/sim/mesh%d.%s", thread, q.vtk ? "vtk" : "inp").c_str()));
      querySoup(g, s, op, r);
      digest(g, s);
      keep(phase, thread, g);
    }
    break;
  default:
    for (int const op : q.ops) {
      Digest g;
      containers(g, op, r);
      keep(phase, thread, g);
    }
    break;
  }
  results(phase, thread).done = 1;
}

//--------------------------------------------------------------------------------------------------

char const * const subject_name[] = {"face mesh", "mesh with sets", "model", "model handle", "materials", "source",
                                     "containers", "text mesh"};

// For the record of the run.
void
note(std::string const & text)
{
  if (shm->nsteps < max_steps) {
    auto & s = shm->steps[shm->nsteps++];
    snprintf(s.name, sizeof s.name, "%s", text.c_str());
    s.status = ST_OK;
    s.what[0] = 0;
  }
}

// alone(t): what thread t computes when it is alone; together(): all of them
void
decide(char const * id, int n, std::function<void(int)> const & alone, std::function<void()> const & together)
{
  memset(shm->scratch, 0, sizeof(Results) * 2 * conc::max_threads);
  for (int t = 0; t < n; ++t) {
    Proc const p = process(Cfg(), [&] {
      quietLogger(0, true);
      alone(t);
    });
    if (violated()) {
      return;
    }
    if (!p.success() || results(0, t).done == 0) {
      violate(fmt("%s:alone", id).c_str(), "thread %d's work fails even alone: status %d signal %d: %s", t, p.code, p.sig,
              lastWords(p).c_str());
      return;
    }
  }
  Cfg c;
  c.cpu_s = 60;
  Proc const p = process(c, [&] {
    quietLogger(0, true);
    together();
  });
  if (violated()) {
    return;
  }
  if (p.livelock) {
    violate(fmt("%s:hang", id).c_str(), "the threads did not finish");
    return;
  }
  for (int t = 0; t < n; ++t) {
    auto const & a = results(0, t);
    auto const & b = results(1, t);
    for (uint32_t i = 0; i < a.n && i < b.n; ++i) {
      if (a.d[i] != b.d[i]) {
        violate(fmt("%s:result", id).c_str(), "operation %u of thread %d gives another result than alone", i, t);
        return;
      }
    }
    if (p.success() && (b.done == 0 || a.n != b.n)) {
      violate(fmt("%s:result", id).c_str(), "thread %d did not come to its end", t);
      return;
    }
    stateMix(a.n > 0 ? a.d[a.n - 1] : 0);
  }
  if (!p.success()) {
    violate(fmt("%s:died", id).c_str(), "alone every thread succeeds, together the process ends with status %d signal %d: %s",
            p.code, p.sig, lastWords(p).c_str());
    return;
  }
  note(fmt("together, %llu interruptions", static_cast<unsigned long long>(shm->fired[F_SWITCH])));
  if (shm->fired[F_SWITCH] > 0) {
    nontrivial();
  }
}

void
drawOps(Script & s, int lo, int hi, uint32_t kinds)
{
  int const n = range(lo, hi);
  for (int i = 0; i < n; ++i) {
    s.ops.push_back(static_cast<int>(pick(kinds)));
  }
}

void
c01()
{
  static uint8_t const fills[] = {0xA5, 0, 0xFF, 0x41};
  shm->fill = fills[pick(4)];
  int const n = range(2, conc::max_threads);
  Script shared;
  drawSubject(shared, 6);
  std::vector<Script> mine(static_cast<size_t>(n));
  bool const same = pick(3) == 0; // all do the same
  for (auto & q : mine) {
    if (same && &q != &mine[0]) {
      q = mine[0];
      q.seed = pick(1U << 30);
      continue;
    }
    q.seed = pick(1U << 30);
    drawOps(q, 1, 5, 504);
  }
  stateMix(static_cast<uint64_t>(shared.subject * 8 + n));
  probe(shared.subject);
  for (int t = 0; t < n; ++t) {
    note(fmt("thread %d: %zu queries, shared %s", t, mine[static_cast<size_t>(t)].ops.size(),
             subject_name[shared.subject]));
  }
  decide(
      "C01", n,
      [&](int t) {
        Shared s;
        setUp(s, shared);
        queries(0, t, s, shared, mine[static_cast<size_t>(t)]);
      },
      [&] {
        Shared s;
        setUp(s, shared);
        Digest before;
        digest(before, s);
        std::vector<std::function<void()>> bodies;
        for (int t = 0; t < n; ++t) {
          bodies.push_back([&, t] { queries(1, t, s, shared, mine[static_cast<size_t>(t)]); });
        }
        conc::runThreads("C01", bodies);
        Digest after;
        digest(after, s);
        if (before.h != after.h) {
          violate("C01:changed", "the shared object is not the same after the queries");
        }
      });
}
Register const r1("C01", c01);

void
c02()
{
  static uint8_t const fills[] = {0xA5, 0, 0xFF, 0x41};
  shm->fill = fills[pick(4)];
  int const n = range(2, conc::max_threads);
  std::vector<Script> mine(static_cast<size_t>(n));
  bool const same = pick(2) == 0; // all do the same kind of work
  for (auto & q : mine) {
    if (same && &q != &mine[0]) {
      q = mine[0];
      q.seed = pick(1U << 30);
      if (q.subject == 0) {
        q.f = FvmSpec();
        drawFaces(q.f, q.seed);
      }
      continue;
    }
    drawSubject(q, 8);
    drawOps(q, 1, 5, 504);
  }
  stateMix(static_cast<uint64_t>(mine[0].subject * 8 + n));
  for (size_t t = 0; t < mine.size(); ++t) {
    auto const & q = mine[t];
    probe(q.subject);
    note(fmt("thread %zu: %zu operations, own %s", t, q.ops.size(), subject_name[q.subject]));
    if (q.subject == 7) {
      diskWrite(fmt("/sim/mesh%zu.%s", t, q.vtk ? "vtk" : "inp").c_str(), q.text);
    }
  }
  decide(
      "C02", n, [&](int t) { ownWork(0, t, mine[static_cast<size_t>(t)]); },
      [&] {
        std::vector<std::function<void()>> bodies;
        for (int t = 0; t < n; ++t) {
          bodies.push_back([&, t] { ownWork(1, t, mine[static_cast<size_t>(t)]); });
        }
        conc::runThreads("C02", bodies);
      });
}
Register const r2("C02", c02);

} // namespace
