#include "mesh_spec.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <set>
#include <um2/common/logger.hpp>

namespace sim
{

int
vertsOf(int const t)
{
  switch (t) {
  case 1:
    return 1;
  case 3:
    return 2;
  case 5:
  case 21:
    return 3;
  case 9:
    return 4;
  case 22:
    return 6;
  default:
    return 8;
  }
}

std::string
drawName(Rng & r, int const style)
{
  static char const * const plain[] = {"Material_UO2", "Material_H2O", "A",      "B_1",      "Coarse_Cell_00001",
                                       "all",          "fuel",         "Region", "power_01", "z"};
  std::string s;
  switch (style) {
  case 0:
    s = plain[r.below(10)];
    s += std::to_string(r.below(1000));
    break;
  case 1: {
    // long enough to leave any small-string storage
    int const n = 16 + static_cast<int>(r.below(90));
    for (int i = 0; i < n; ++i) {
      s += static_cast<char>('a' + r.below(26));
    }
    break;
  }
  case 2: {
    static char const alphabet[] = "abcXYZ0189 _-+.,;:()[]{}=#@!%^*~|<>&'\"";
    int const n = 2 + static_cast<int>(r.below(20));
    s = "n";
    for (int i = 0; i < n; ++i) {
      s += alphabet[r.below(sizeof(alphabet) - 1)];
    }
    s += "x";
    break;
  }
  default: {
    int const n = 1 + static_cast<int>(r.below(24));
    for (int i = 0; i < n; ++i) {
      s += static_cast<char>('A' + r.below(26));
    }
  }
  }
  return s;
}

namespace
{
double
coordinate(Rng & r, int const style)
{
  switch (style) {
  case 0:
    return static_cast<double>(r.below(50));
  case 1:
    return r.unit() * 20 - 10;
  case 2:
    return static_cast<double>(r.below(2000)) / 100.0 - 5;
  default: {
    double const m = r.unit() * 2 - 1;
    return std::ldexp(m, static_cast<int>(r.below(120)) - 60);
  }
  }
}
} // namespace

MeshSpec
drawMesh(MeshOpts const & o)
{
  MeshSpec m;
  // structure
  static int const xdmf_homog[] = {5, 9, 22, 23, 21};
  static int const mixed[] = {5, 9, 22, 23, 21, 3, 1};
  static int const cps[] = {5, 9, 22, 23};
  static int const vtkk[] = {5, 9, 22, 23, 3, 1};
  std::vector<int> kinds;
  // 0..7 small, 8..10 medium, 11 large
  uint32_t const size_class = o.large && pick(6) == 5 ? 11 : pick(o.big ? 12 : 8);
  uint32_t const nkinds = 1 + pick(4);
  if (o.abaqus) {
    for (uint32_t i = 0; i < nkinds; ++i) {
      kinds.push_back(cps[pick(4)]);
    }
  } else if (o.vtk) {
    for (uint32_t i = 0; i < nkinds; ++i) {
      kinds.push_back(vtkk[pick(6)]);
    }
  } else {
    if (nkinds == 1) {
      kinds.push_back(xdmf_homog[pick(5)]);
    } else {
      for (uint32_t i = 0; i < nkinds; ++i) {
        kinds.push_back(mixed[pick(7)]);
      }
    }
  }
  int ne = 0;
  int nv = 0;
  if (size_class < 8) {
    ne = range(1, 12);
    nv = range(8, 24);
  } else if (size_class < 11) {
    ne = range(50, 400);
    nv = range(40, 300);
  } else if (pick(8) != 7) {
    ne = range(2000, 9000);
    nv = range(1500, 9000);
  } else {
    ne = range(30000, 70000);
    nv = range(30000, 70000);
  }
  uint32_t const dims = pick(4); // 0,1: flat; 2: three-dimensional; 3: nearly flat
  auto const cstyle = static_cast<int>(pick(4));
  int nsets = o.elsets ? range(0, 5) : 0;
  if (nsets == 5 && size_class < 11 && pick(6) == 5) {
    nsets = range(6, 120);
  }
  Rng r(pick(1U << 30));
  for (int i = 0; i < nv; ++i) {
    double const x = coordinate(r, cstyle);
    double const y = coordinate(r, cstyle);
    double z = 0;
    if (dims == 2) {
      z = coordinate(r, cstyle);
    } else if (dims == 3) {
      z = (r.unit() - 0.5) * 1e-7;
    }
    m.verts.push_back({x, y, z});
  }
  // Elements: either in blocks of a kind or interleaved
  bool const interleave = pick(2) != 0;
  for (int i = 0; i < ne; ++i) {
    size_t const k = interleave ? r.below(static_cast<uint32_t>(kinds.size()))
                                : static_cast<size_t>(i) * kinds.size() / static_cast<size_t>(ne);
    int const t = kinds[k];
    std::vector<int> c;
    for (int j = 0; j < vertsOf(t); ++j) {
      c.push_back(static_cast<int>(r.below(static_cast<uint32_t>(nv))));
    }
    m.types.push_back(t);
    m.conn.push_back(c);
  }
  if (!o.abaqus && !o.vtk) {
    // The XDMF writer has no homogeneous form for single points and lines and says so.
    std::set<int> const seen(m.types.begin(), m.types.end());
    if (seen.size() == 1 && (*seen.begin() == 1 || *seen.begin() == 3)) {
      int const t = 5;
      m.types[0] = t;
      m.conn[0] = {0, 1, 2};
      if (ne == 1) {
        return m;
      }
    }
  }
  if (o.abaqus) {
    // Elements of one kind form one block
    std::vector<size_t> idx(m.types.size());
    for (size_t i = 0; i < idx.size(); ++i) {
      idx[i] = i;
    }
    std::stable_sort(idx.begin(), idx.end(), [&](size_t a, size_t b) { return m.types[a] < m.types[b]; });
    MeshSpec n = m;
    for (size_t i = 0; i < idx.size(); ++i) {
      n.types[i] = m.types[idx[i]];
      n.conn[i] = m.conn[idx[i]];
    }
    m = n;
  }
  std::set<std::string> names;
  for (int i = 0; i < nsets; ++i) {
    ElsetSpec e;
    auto const style = static_cast<int>(pick(4));
    bool const with_data = o.data && pick(2) != 0;
    uint32_t const cover = pick(4); // all, few, half, one
    do {
      e.name = drawName(r, o.abaqus ? (style == 2 ? 0 : style) : style);
    } while (names.count(e.name) != 0 || names.count(e.name + "_data") != 0);
    names.insert(e.name);
    names.insert(e.name + "_data");
    for (int k = 0; k < ne; ++k) {
      bool const in = cover == 0 ? true : cover == 1 ? r.below(8) == 0 : cover == 2 ? r.below(2) == 0 : false;
      if (in) {
        e.ids.push_back(k);
      }
    }
    if (e.ids.empty()) {
      e.ids.push_back(static_cast<int>(r.below(static_cast<uint32_t>(ne))));
    }
    if (with_data) {
      for (size_t k = 0; k < e.ids.size(); ++k) {
        e.data.push_back(coordinate(r, cstyle));
      }
    }
    m.elsets.push_back(e);
  }
  return m;
}

MeshSpec
drawVariation(MeshSpec m)
{
  auto drop_set = [&] {
    if (!m.elsets.empty()) {
      m.elsets.erase(m.elsets.begin() + static_cast<long>(pick(static_cast<uint32_t>(m.elsets.size()))));
    }
  };
  auto renumber = [&] {
    for (auto & v : m.verts) {
      v[0] += 1;
    }
    for (auto & e : m.elsets) {
      for (auto & d : e.data) {
        d = -d - 3;
      }
    }
  };
  switch (pick(6)) {
  case 0:
    renumber();
    break;
  case 1:
    drop_set();
    break;
  case 2: {
    std::set<int> const kinds(m.types.begin(), m.types.end() - 1);
    if (kinds.empty() || (kinds.size() == 1 && (*kinds.begin() == 1 || *kinds.begin() == 3))) {
      break;
    }
    m.types.pop_back();
    m.conn.pop_back();
    int const n = static_cast<int>(m.types.size());
    for (size_t i = m.elsets.size(); i-- > 0;) {
      auto & e = m.elsets[i];
      if (!e.ids.empty() && e.ids.back() == n) {
        e.ids.pop_back();
        if (!e.data.empty()) {
          e.data.pop_back();
        }
      }
      if (e.ids.empty()) {
        m.elsets.erase(m.elsets.begin() + static_cast<long>(i));
      }
    }
    break;
  }
  case 3:
    for (auto & e : m.elsets) {
      if (!e.data.empty()) {
        e.data.clear();
        break;
      }
    }
    break;
  case 4:
    renumber();
    drop_set();
    break;
  default:
    if (m.verts.size() > 8) {
      m.verts.pop_back();
      for (auto & c : m.conn) {
        for (int & i : c) {
          if (i == static_cast<int>(m.verts.size())) {
            i = 0;
          }
        }
      }
    }
  }
  return m;
}

std::string
describe(MeshSpec const & m)
{
  std::set<int> const seen(m.types.begin(), m.types.end());
  std::string s = fmt("%zu vertices, %zu elements of kinds", m.verts.size(), m.types.size());
  for (int const t : seen) {
    s += fmt(" %d", t);
  }
  s += fmt(", %zu sets", m.elsets.size());
  return s;
}

um2::PolytopeSoup
build(MeshSpec const & m)
{
  um2::PolytopeSoup s;
  for (auto const & v : m.verts) {
    s.addVertex(v[0], v[1], v[2]);
  }
  um2::Vector<Int> c;
  for (size_t i = 0; i < m.types.size(); ++i) {
    c.resize(static_cast<Int>(m.conn[i].size()));
    for (size_t j = 0; j < m.conn[i].size(); ++j) {
      c[static_cast<Int>(j)] = m.conn[i][j];
    }
    s.addElement(static_cast<um2::VTKElemType>(m.types[i]), c);
  }
  for (auto const & e : m.elsets) {
    um2::Vector<Int> ids;
    for (int const k : e.ids) {
      ids.emplace_back(k);
    }
    um2::Vector<Float> data;
    for (double const d : e.data) {
      data.emplace_back(d);
    }
    s.addElset(um2::String(e.name.c_str()), ids, data);
  }
  return s;
}

std::string
compare(MeshSpec const & m, um2::PolytopeSoup const & s)
{
  if (static_cast<size_t>(s.numVertices()) != m.verts.size()) {
    return fmt("number of vertices: expected %zu, got %d", m.verts.size(), static_cast<int>(s.numVertices()));
  }
  for (size_t i = 0; i < m.verts.size(); ++i) {
    auto const & p = s.vertices()[static_cast<Int>(i)];
    for (int k = 0; k < 3; ++k) {
      double const want = m.verts[i][static_cast<size_t>(k)];
      double const got = p[k];
      bool same = want == got;
      if (k == 2 && std::abs(want) < 1e-6 && got == 0) {
        same = true;
      }
      if (!same) {
        return fmt("vertex %zu coordinate %d: expected %.17g, got %.17g", i, k, want, got);
      }
    }
  }
  if (static_cast<size_t>(s.numElements()) != m.types.size()) {
    return fmt("number of elements: expected %zu, got %d", m.types.size(), static_cast<int>(s.numElements()));
  }
  um2::VTKElemType t = um2::VTKElemType::Invalid;
  um2::Vector<Int> c;
  for (size_t i = 0; i < m.types.size(); ++i) {
    s.getElement(static_cast<Int>(i), t, c);
    if (static_cast<int>(t) != m.types[i]) {
      return fmt("element %zu kind: expected %d, got %d", i, m.types[i], static_cast<int>(t));
    }
    if (static_cast<size_t>(c.size()) != m.conn[i].size()) {
      return fmt("element %zu: expected %zu vertices, got %d", i, m.conn[i].size(), static_cast<int>(c.size()));
    }
    for (size_t j = 0; j < m.conn[i].size(); ++j) {
      if (c[static_cast<Int>(j)] != m.conn[i][j]) {
        return fmt("element %zu vertex %zu: expected %d, got %d", i, j, m.conn[i][j],
                   static_cast<int>(c[static_cast<Int>(j)]));
      }
    }
  }
  if (static_cast<size_t>(s.numElsets()) != m.elsets.size()) {
    return fmt("number of element sets: expected %zu, got %d", m.elsets.size(), static_cast<int>(s.numElsets()));
  }
  for (auto const & e : m.elsets) {
    bool found = false;
    for (Int i = 0; i < s.numElsets(); ++i) {
      um2::String name;
      um2::Vector<Int> ids;
      um2::Vector<Float> data;
      s.getElset(i, name, ids, data);
      if (e.name != name.data()) {
        continue;
      }
      found = true;
      if (static_cast<size_t>(ids.size()) != e.ids.size()) {
        return fmt("set '%s': expected %zu members, got %d", e.name.c_str(), e.ids.size(), static_cast<int>(ids.size()));
      }
      for (size_t k = 0; k < e.ids.size(); ++k) {
        if (ids[static_cast<Int>(k)] != e.ids[k]) {
          return fmt("set '%s' member %zu: expected %d, got %d", e.name.c_str(), k, e.ids[k],
                     static_cast<int>(ids[static_cast<Int>(k)]));
        }
      }
      if (static_cast<size_t>(data.size()) != e.data.size()) {
        return fmt("set '%s': expected %zu values, got %d", e.name.c_str(), e.data.size(), static_cast<int>(data.size()));
      }
      for (size_t k = 0; k < e.data.size(); ++k) {
        if (data[static_cast<Int>(k)] != e.data[k]) {
          return fmt("set '%s' value %zu: expected %.17g, got %.17g", e.name.c_str(), k, e.data[k],
                     data[static_cast<Int>(k)]);
        }
      }
      break;
    }
    if (!found) {
      return "set '" + e.name + "' is missing";
    }
  }
  return {};
}

bool
sameMesh(MeshSpec const & a, MeshSpec const & b)
{
  if (a.verts != b.verts || a.types != b.types || a.conn != b.conn || a.elsets.size() != b.elsets.size()) {
    return false;
  }
  for (size_t i = 0; i < a.elsets.size(); ++i) {
    if (a.elsets[i].name != b.elsets[i].name || a.elsets[i].ids != b.elsets[i].ids ||
        a.elsets[i].data != b.elsets[i].data) {
      return false;
    }
  }
  return true;
}

std::vector<std::string>
drawPaths(int n, char const * ext)
{
  static char const * const stems[] = {"/sim/a/m",         "mesh",        "/sim/a/deep.dir/x.y", "sub/a b",
                                       "./sub/../other",   "/rooted",     "/sim/a/a_rather_long_file_name_for_a_mesh",
                                       "/sim/a/m.xdmf.old", "d/short", "d/d/d"};
  std::vector<std::string> v;
  uint32_t k = pick(10);
  for (int i = 0; i < n; ++i) {
    v.push_back(std::string(stems[k % 10]) + ext);
    k += 3; // distinct
  }
  return v;
}

void
quietLogger(int level, bool exit_on_error)
{
  um2::logger::reset(); // the elapsed time starts in this process
  um2::logger::level = level;
  um2::logger::exit_on_error = exit_on_error;
}

} // namespace sim
