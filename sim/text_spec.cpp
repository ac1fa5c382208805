#include "mesh_text.hpp"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <hdf5.h>
#include <set>

namespace sim
{

TextStyle
drawTextStyle(bool long_lines)
{
  TextStyle st;
  st.number = static_cast<int>(pick(3));
  st.spacing = static_cast<int>(pick(3));
  st.comments = pick(2) != 0;
  st.no_final_newline = pick(4) == 3;
  st.per_line = 1 + static_cast<int>(pick(12));
  if (long_lines && pick(8) == 7) {
    st.per_line *= 40;
  }
  return st;
}

std::string
number(double v, int style)
{
  char b[64];
  if (style == 1) {
    snprintf(b, sizeof(b), "%.17e", v);
    return b;
  }
  if (style == 2) {
    snprintf(b, sizeof(b), "%.3f", v);
    if (strtod(b, nullptr) == v) {
      return b;
    }
  }
  for (int p = 1; p <= 17; ++p) {
    snprintf(b, sizeof(b), "%.*g", p, v);
    if (strtod(b, nullptr) == v) {
      break;
    }
  }
  return b;
}

std::string
abaqusText(MeshSpec const & m, TextStyle const & st)
{
  std::string t = "*Heading\n some mesh\n";
  char const * sep = st.spacing == 1 ? "," : ", ";
  auto comment = [&](size_t i) {
    if (st.comments && i % 3 == 1) {
      t += "** a comment, with, commas\n";
    }
  };
  t += "*NODE\n";
  for (size_t i = 0; i < m.verts.size(); ++i) {
    comment(i + static_cast<size_t>(st.per_line));
    t += std::to_string(i + 1);
    for (double const c : m.verts[i]) {
      t += sep + number(c, st.number);
    }
    t += "\n";
  }
  if (st.comments) {
    t += "******* E L E M E N T S *************\n";
  }
  int last = -1;
  int block = 0;
  for (size_t i = 0; i < m.types.size(); ++i) {
    if (m.types[i] != last || (st.spacing == 2 && i % 7 == 3)) {
      last = m.types[i];
      int const n = vertsOf(last);
      t += fmt("*ELEMENT, type=CPS%d", n);
      if (st.spacing != 1) {
        t += fmt(", ELSET=Surface%d", ++block);
      }
      t += "\n";
    }
    comment(i + static_cast<size_t>(st.per_line));
    t += std::to_string(i + 1);
    for (int const c : m.conn[i]) {
      t += sep + std::to_string(c + 1);
    }
    t += "\n";
  }
  for (size_t e = 0; e < m.elsets.size(); ++e) {
    comment(e);
    t += "*ELSET,ELSET=" + m.elsets[e].name + "\n";
    size_t k = 0;
    for (int const id : m.elsets[e].ids) {
      if (k % static_cast<size_t>(st.per_line) == 0) {
        comment(k + e);
      }
      t += std::to_string(id + 1);
      ++k;
      bool const eol = k % static_cast<size_t>(st.per_line) == 0 || k == m.elsets[e].ids.size();
      t += eol ? (st.spacing == 1 ? ",\n" : ", \n") : sep;
    }
  }
  if (st.no_final_newline) {
    t.pop_back();
  }
  return t;
}

std::string
vtkText(MeshSpec const & m, TextStyle const & st, std::vector<size_t> & marks,
        std::vector<size_t> & last_value_start, int big_set, int64_t big)
{
  std::string t = "# vtk DataFile Version 3.0\nsome header\nASCII\nDATASET UNSTRUCTURED_GRID\n";
  char const * sep = st.spacing == 1 ? "  " : " ";
  t += fmt("POINTS %zu %s\n", m.verts.size(), st.number == 1 ? "double" : "float");
  for (auto const & v : m.verts) {
    if (st.spacing == 2) {
      t += "  ";
    }
    t += number(v[0], st.number) + sep + number(v[1], st.number) + sep + number(v[2], st.number);
    t += st.spacing == 1 ? "   \n" : "\n";
  }
  size_t len = 0;
  for (auto const & c : m.conn) {
    len += c.size() + 1;
  }
  t += fmt("\nCELLS %zu %zu\n", m.types.size(), len);
  for (auto const & c : m.conn) {
    t += std::to_string(c.size());
    for (int const v : c) {
      t += sep + std::to_string(v);
    }
    t += "\n";
  }
  t += fmt("\nCELL_TYPES %zu\n", m.types.size());
  for (size_t i = 0; i < m.types.size(); ++i) {
    t += (i == 0 ? "" : " ") + std::to_string(m.types[i]);
  }
  t += "\n";
  marks.push_back(t.size() - 1);
  last_value_start.push_back(t.size());
  for (size_t is = 0; is < m.elsets.size(); ++is) {
    auto const & e = m.elsets[is];
    bool const has_big = static_cast<int>(is) == big_set;
    bool integral = true;
    size_t k0 = 0;
    for (double const d : e.data) {
      integral = integral && ((has_big && k0 == 0) || (d == std::floor(d) && std::abs(d) < 1e9));
      ++k0;
    }
    t += fmt("\nCELL_DATA %zu\n", e.data.size());
    t += "SCALARS " + e.name + (integral && (st.spacing != 2 || has_big) ? " int" : " float") + (st.spacing == 1 ? " 1\n" : "\n");
    t += "LOOKUP_TABLE " + e.name + "_table\n";
    size_t k = 0;
    size_t start = 0;
    for (double const d : e.data) {
      start = t.size();
      t += has_big && k == 0 ? std::to_string(big)
           : integral        ? fmt("%d", static_cast<int>(d))
                             : number(d, st.number);
      ++k;
      t += k % static_cast<size_t>(st.per_line) == 0 || k == e.data.size() ? "\n" : sep;
    }
    marks.push_back(t.size() - 1);
    last_value_start.push_back(start);
  }
  if (st.no_final_newline && !m.elsets.empty()) {
    t.pop_back();
  }
  return t;
}

XdmfStyle
drawXdmfStyle()
{
  XdmfStyle s;
  s.float32 = pick(2) != 0;
  s.int64 = pick(2) != 0;
  s.force_mixed = pick(3) == 2;
  s.force_xyz = pick(3) == 2;
  return s;
}

void
applyStyle(MeshSpec & m, XdmfStyle const & st)
{
  if (st.float32) {
    for (auto & v : m.verts) {
      for (auto & c : v) {
        c = static_cast<double>(static_cast<float>(c));
      }
    }
    for (auto & e : m.elsets) {
      for (auto & d : e.data) {
        d = static_cast<double>(static_cast<float>(d));
      }
    }
  }
}

namespace
{
void
h5put(hid_t g, std::string const & name, hid_t file_type, hid_t mem_type, std::vector<hsize_t> const & dims,
      void const * data)
{
  hid_t const sp = H5Screate_simple(static_cast<int>(dims.size()), dims.data(), nullptr);
  hid_t const ds = H5Dcreate2(g, name.c_str(), file_type, sp, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
  H5Dwrite(ds, mem_type, H5S_ALL, H5S_ALL, H5P_DEFAULT, data);
  H5Dclose(ds);
  H5Sclose(sp);
}
std::string
esc(std::string const & s)
{
  std::string o;
  for (char const c : s) {
    if (c == '&') {
      o += "&amp;";
    } else if (c == '<') {
      o += "&lt;";
    } else if (c == '>') {
      o += "&gt;";
    } else if (c == '"') {
      o += "&quot;";
    } else {
      o += c;
    }
  }
  return o;
}
} // namespace

void
writeXdmfIndependently(std::string const & path, MeshSpec const & m, XdmfStyle const & st)
{
  std::string const full = path.substr(0, path.size() - 5) + ".h5";
  size_t const sl = path.rfind('/');
  std::string const h5name = sl == std::string::npos || sl == 0 ? full : full.substr(sl + 1);
  hid_t const f = H5Fcreate(full.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
  hid_t const g = H5Gcreate2(f, "/grid", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
  bool const flat = std::all_of(m.verts.begin(), m.verts.end(), [](auto const & v) { return v[2] == 0; });
  int const dim = flat && !st.force_xyz ? 2 : 3;
  std::vector<double> xyz;
  for (auto const & v : m.verts) {
    for (int k = 0; k < dim; ++k) {
      xyz.push_back(v[static_cast<size_t>(k)]);
    }
  }
  hid_t const ft = st.float32 ? H5T_IEEE_F32LE : H5T_IEEE_F64LE;
  hid_t const it = st.int64 ? H5T_STD_I64LE : H5T_STD_I32LE;
  int const fp = st.float32 ? 4 : 8;
  int const ip = st.int64 ? 8 : 4;
  h5put(g, "Geometry", ft, H5T_NATIVE_DOUBLE, {m.verts.size(), static_cast<hsize_t>(dim)}, xyz.data());
  std::set<int> const kinds(m.types.begin(), m.types.end());
  std::string x = "<?xml version=\"1.0\"?>\n<Xdmf Version=\"3.0\">\n<Domain>\n<Grid Name=\"grid\" GridType=\"Uniform\">\n";
  x += fmt("<Geometry GeometryType=\"%s\"><DataItem DataType=\"Float\" Dimensions=\"%zu %d\" Precision=\"%d\" Format=\"HDF\">",
           dim == 3 ? "XYZ" : "XY", m.verts.size(), dim, fp) +
       esc(h5name) + ":/grid/Geometry</DataItem></Geometry>\n";
  std::vector<int> topo;
  bool const mixed = kinds.size() > 1 || st.force_mixed || *kinds.begin() == 1 || *kinds.begin() == 3;
  std::string tname = "Mixed";
  std::string dims;
  if (mixed) {
    for (size_t i = 0; i < m.types.size(); ++i) {
      int t = 0;
      switch (m.types[i]) {
      case 1:
        t = 1;
        break;
      case 3:
        t = 2;
        break;
      case 5:
        t = 4;
        break;
      case 9:
        t = 5;
        break;
      case 21:
        t = 34;
        break;
      case 22:
        t = 36;
        break;
      default:
        t = 37;
      }
      topo.push_back(t);
      topo.insert(topo.end(), m.conn[i].begin(), m.conn[i].end());
    }
    dims = std::to_string(topo.size());
    h5put(g, "Topology", it, H5T_NATIVE_INT, {topo.size()}, topo.data());
  } else {
    int const t = *kinds.begin();
    tname = t == 5 ? "Triangle" : t == 9 ? "Quadrilateral" : t == 22 ? "Triangle_6" : t == 23 ? "Quadrilateral_8" : "Edge_3";
    for (auto const & c : m.conn) {
      topo.insert(topo.end(), c.begin(), c.end());
    }
    dims = fmt("%zu %d", m.types.size(), vertsOf(t));
    h5put(g, "Topology", it, H5T_NATIVE_INT, {m.types.size(), static_cast<hsize_t>(vertsOf(t))}, topo.data());
  }
  x += fmt("<Topology TopologyType=\"%s\" NumberOfElements=\"%zu\"><DataItem DataType=\"Int\" Dimensions=\"%s\" Precision=\"%d\" Format=\"HDF\">",
           tname.c_str(), m.types.size(), dims.c_str(), ip) +
       esc(h5name) + ":/grid/Topology</DataItem></Topology>\n";
  int k = 0;
  for (auto const & e : m.elsets) {
    std::string const dn = fmt("set%d", k++);
    h5put(g, dn, it, H5T_NATIVE_INT, {e.ids.size()}, e.ids.data());
    x += "<Set Name=\"" + esc(e.name) + "\" SetType=\"Cell\">" +
         fmt("<DataItem DataType=\"Int\" Dimensions=\"%zu\" Precision=\"%d\" Format=\"HDF\">", e.ids.size(), ip) +
         esc(h5name) + ":/grid/" + dn + "</DataItem>";
    if (!e.data.empty()) {
      h5put(g, dn + "_data", ft, H5T_NATIVE_DOUBLE, {e.data.size()}, e.data.data());
      x += fmt("<Attribute Name=\"v\" Center=\"Cell\"><DataItem DataType=\"Float\" Dimensions=\"%zu\" Precision=\"%d\" Format=\"HDF\">",
               e.data.size(), fp) +
           esc(h5name) + ":/grid/" + dn + "_data</DataItem></Attribute>";
    }
    x += "</Set>\n";
  }
  x += "</Grid>\n</Domain>\n</Xdmf>\n";
  H5Gclose(g);
  H5Fclose(f);
  diskWrite(path.c_str(), x);
}

} // namespace sim
