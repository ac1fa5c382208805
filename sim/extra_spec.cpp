#include "extra_spec.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <hdf5.h>
#include <map>
#include <pugixml.hpp>

namespace sim
{

namespace
{

std::vector<std::vector<int>>
upwards(Rows const & rows)
{
  return {rows.rbegin(), rows.rend()};
}

// Width and height of a module and of a lattice.
std::array<double, 2>
sizeOfRtm(ModelSpec const & m, int id)
{
  auto const & rows = m.rtms[static_cast<size_t>(id)];
  std::array<double, 2> s = {0, 0};
  auto mesh = [&](int c) -> FvmSpec const & {
    return m.meshes[static_cast<size_t>(m.cells[static_cast<size_t>(c)].mesh)];
  };
  for (int const c : rows[0]) {
    s[0] += mesh(c).w;
  }
  for (auto const & r : rows) {
    s[1] += mesh(r[0]).h;
  }
  return s;
}

std::array<double, 2>
sizeOfLat(ModelSpec const & m, int id)
{
  auto const & rows = m.lats[static_cast<size_t>(id)];
  auto const r = sizeOfRtm(m, rows[0][0]);
  return {r[0] * static_cast<double>(rows[0].size()), r[1] * static_cast<double>(rows.size())};
}

} // namespace

std::vector<Place>
placesOf(ModelSpec const & m)
{
  std::vector<Place> out;
  std::vector<int> na(m.asys.size(), 0);
  std::vector<int> nl(m.lats.size(), 0);
  std::vector<int> nr(m.rtms.size(), 0);
  std::vector<int> nc(m.cells.size(), 0);
  double ya = 0;
  for (auto const & arow : upwards(m.core)) {
    double xa = 0;
    double ha = 0;
    for (int const a : arow) {
      auto const & asy = m.asys[static_cast<size_t>(a)];
      int const ca = na[static_cast<size_t>(a)]++;
      for (size_t k = 0; k < asy.lats.size(); ++k) {
        int const l = asy.lats[k];
        int const cl = nl[static_cast<size_t>(l)]++;
        double yr = 0;
        for (auto const & lrow : upwards(m.lats[static_cast<size_t>(l)])) {
          double xr = 0;
          double hr = 0;
          for (int const t : lrow) {
            int const ct = nr[static_cast<size_t>(t)]++;
            double yc = 0;
            for (auto const & trow : upwards(m.rtms[static_cast<size_t>(t)])) {
              double xc = 0;
              double hc = 0;
              for (int const c : trow) {
                auto const & f = m.meshes[static_cast<size_t>(m.cells[static_cast<size_t>(c)].mesh)];
                out.push_back({a, l, t, c, ca, cl, ct, nc[static_cast<size_t>(c)]++, xa + xr + xc, ya + yr + yc,
                               (asy.z[k] + asy.z[k + 1]) / 2});
                xc += f.w;
                hc = f.h;
              }
              yc += hc;
            }
            auto const s = sizeOfRtm(m, t);
            xr += s[0];
            hr = s[1];
          }
          yr += hr;
        }
      }
      auto const s = sizeOfLat(m, asy.lats[0]);
      xa += s[0];
      ha = s[1];
    }
    ya += ha;
  }
  return out;
}

double
edgeLength(std::array<double, 2> p, std::array<double, 2> q, std::array<double, 2> const * mid)
{
  if (mid == nullptr) {
    return std::hypot(q[0] - p[0], q[1] - p[1]);
  }
  std::array<double, 2> const m = *mid;
  double const ax = 2 * (p[0] + q[0] - 2 * m[0]);
  double const ay = 2 * (p[1] + q[1] - 2 * m[1]);
  double const bx = 4 * m[0] - 3 * p[0] - q[0];
  double const by = 4 * m[1] - 3 * p[1] - q[1];
  // Gauss points on 32 pieces
  static double const gx[] = {0.1834346424956498, 0.5255324099163290, 0.7966664774136267, 0.9602898564975363};
  static double const gw[] = {0.3626837833783620, 0.3137066458778873, 0.2223810344533745, 0.1012285362903763};
  double sum = 0;
  int const pieces = 32;
  for (int i = 0; i < pieces; ++i) {
    double const c = (i + 0.5) / pieces;
    double const h = 0.5 / pieces;
    for (int k = 0; k < 4; ++k) {
      for (int s = -1; s <= 1; s += 2) {
        double const t = c + s * h * gx[k];
        sum += gw[k] * h * std::hypot(2 * ax * t + bx, 2 * ay * t + by);
      }
    }
  }
  return sum;
}

double
meanChord(std::vector<std::array<double, 2>> const & verts, std::vector<int> const & face)
{
  bool const second = face.size() >= 6;
  size_t const ne = second ? face.size() / 2 : face.size();
  double per = 0;
  for (size_t e = 0; e < ne; ++e) {
    per += edgeLength(verts[static_cast<size_t>(face[e])], verts[static_cast<size_t>(face[(e + 1) % ne])],
                      second ? &verts[static_cast<size_t>(face[ne + e])] : nullptr);
  }
  return M_PI * faceArea(verts, face) / per;
}

namespace
{

double
mean(std::vector<double> const & v)
{
  double s = 0;
  for (double const x : v) {
    s += x;
  }
  return s / static_cast<double>(v.size());
}

// What is the same for every place of a cell.
struct CellData {
  std::vector<std::array<double, 2>> verts;
  std::vector<std::vector<int>> faces;
  std::vector<std::array<double, 2>> centroid;
  std::map<std::string, std::vector<double>> data;
};

std::vector<CellData>
cellData(ModelSpec const & m, bool knudsen, bool xsec, bool flat)
{
  std::vector<CellData> out;
  for (auto const & cell : m.cells) {
    CellData d;
    realise(m.meshes[static_cast<size_t>(cell.mesh)], d.verts, d.faces);
    for (size_t i = 0; i < d.faces.size(); ++i) {
      auto const & mat = m.mats[static_cast<size_t>(cell.mats[i])];
      std::array<double, 2> c{};
      faceArea(d.verts, d.faces[i], &c);
      d.centroid.push_back(c);
      d.data["Material_ID"].push_back(cell.mats[i]);
      double const t = mean(mat.a) + mean(mat.s);
      if (flat) {
        d.data["One_Group_XS"].push_back(t);
      } else if (knudsen || xsec) {
        d.data["One_Group_Avg_XS_a"].push_back(mean(mat.a));
        d.data["One_Group_Avg_XS_f"].push_back(mean(mat.f));
        d.data["One_Group_Avg_XS_s"].push_back(mean(mat.s));
        d.data["One_Group_Avg_XS_t"].push_back(t);
      }
      if (xsec) {
        for (size_t g = 0; g < mat.a.size(); ++g) {
          d.data[fmt("Group_%05zu_Total_XS", g)].push_back(mat.a[g] + mat.s[g]);
        }
      }
      if (knudsen) {
        double const l = meanChord(d.verts, d.faces[i]);
        d.data["Mean_Chord_Length"].push_back(l);
        d.data["Knudsen_Number"].push_back(1 / (t * l));
      }
    }
    out.push_back(d);
  }
  return out;
}

bool
near(double a, double b, double tol)
{
  return std::abs(a - b) <= tol * (1 + std::abs(b));
}

// The numbers of an item "file.h5:/path/to/set"; its size per dimension.
template <class T>
bool
item(hid_t file, char const * text, hid_t type, std::vector<T> & v, std::vector<hsize_t> & dims)
{
  char const * const colon = strchr(text, ':');
  if (colon == nullptr) {
    return false;
  }
  hid_t const ds = H5Dopen2(file, colon + 1, H5P_DEFAULT);
  if (ds < 0) {
    return false;
  }
  hid_t const sp = H5Dget_space(ds);
  dims.assign(static_cast<size_t>(std::max(0, H5Sget_simple_extent_ndims(sp))), 0);
  H5Sget_simple_extent_dims(sp, dims.data(), nullptr);
  size_t n = 1;
  for (auto const d : dims) {
    n *= d;
  }
  v.assign(n, T{});
  bool const ok = H5Dread(ds, type, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()) >= 0;
  H5Sclose(sp);
  H5Dclose(ds);
  return ok;
}

void
leaves(pugi::xml_node const & n, std::vector<pugi::xml_node> & out)
{
  for (auto const & c : n.children("Grid")) {
    if (strcmp(c.attribute("GridType").value(), "Tree") == 0) {
      leaves(c, out);
    } else {
      out.push_back(c);
    }
  }
}

} // namespace

std::string
checkStored(ModelSpec const & m, std::string const & path, bool knudsen, bool xsec)
{
  pugi::xml_document doc;
  if (!doc.load_file(path.c_str())) {
    return "the XML file cannot be parsed";
  }
  std::vector<pugi::xml_node> grids;
  leaves(doc.child("Xdmf").child("Domain"), grids);
  auto const places = placesOf(m);
  if (grids.size() != places.size()) {
    return fmt("%zu cells are stored instead of %zu", grids.size(), places.size());
  }
  hid_t const file = H5Fopen((path.substr(0, path.size() - 5) + ".h5").c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
  if (file < 0) {
    return "the data file cannot be opened";
  }
  auto const cells = cellData(m, knudsen, xsec, false);
  std::vector<double> v;
  std::vector<int> ids;
  std::vector<hsize_t> dims;
  for (size_t p = 0; p < places.size(); ++p) {
    auto const & pl = places[p];
    auto const & want = cells[static_cast<size_t>(pl.cell)];
    auto const & g = grids[p];
    std::string const where = fmt("cell %d at place %zu", pl.cell, p);
    double const scale = 1 + std::abs(pl.x) + std::abs(pl.y) + std::abs(pl.z);
    if (!item(file, g.child("Geometry").child("DataItem").child_value(), H5T_NATIVE_DOUBLE, v, dims) || dims.size() != 2) {
      return where + ": the vertices cannot be read";
    }
    auto const nd = static_cast<size_t>(dims[1]);
    if (dims[0] != want.verts.size() || nd < 2 || nd > 3) {
      return where + fmt(": %zu vertices instead of %zu", static_cast<size_t>(dims[0]), want.verts.size());
    }
    for (size_t i = 0; i < want.verts.size(); ++i) {
      double const z = nd == 3 ? v[i * nd + 2] : 0;
      if (std::abs(v[i * nd] - (pl.x + want.verts[i][0])) > 1e-11 * scale ||
          std::abs(v[i * nd + 1] - (pl.y + want.verts[i][1])) > 1e-11 * scale || std::abs(z - pl.z) > 1e-11 * scale) {
        return where + fmt(": vertex %zu is at %.12g, %.12g, %.12g instead of %.12g, %.12g, %.12g", i, v[i * nd], v[i * nd + 1],
                           z, pl.x + want.verts[i][0], pl.y + want.verts[i][1], pl.z);
      }
    }
    if (!item(file, g.child("Topology").child("DataItem").child_value(), H5T_NATIVE_INT, ids, dims)) {
      return where + ": the faces cannot be read";
    }
    size_t const nv = want.faces[0].size();
    if (ids.size() != nv * want.faces.size()) {
      return where + ": the number of faces differs";
    }
    for (size_t i = 0; i < ids.size(); ++i) {
      if (ids[i] != want.faces[i / nv][i % nv]) {
        return where + fmt(": face %zu has other corners", i / nv);
      }
    }
    size_t found = 0;
    for (auto const & s : g.children("Set")) {
      auto const it = want.data.find(s.attribute("Name").value());
      if (it == want.data.end()) {
        continue;
      }
      ++found;
      std::string const name = it->first;
      if (!item(file, s.child("DataItem").child_value(), H5T_NATIVE_INT, ids, dims) ||
          !item(file, s.child("Attribute").child("DataItem").child_value(), H5T_NATIVE_DOUBLE, v, dims)) {
        return where + ": " + name + " cannot be read";
      }
      if (ids.size() != it->second.size() || v.size() != it->second.size()) {
        return where + fmt(": %s has %zu values for %zu faces", name.c_str(), v.size(), it->second.size());
      }
      std::vector<bool> seen(v.size(), false);
      for (size_t i = 0; i < v.size(); ++i) {
        auto const f = static_cast<size_t>(ids[i]);
        if (f >= v.size() || seen[f]) {
          return where + fmt(": %s names face %d wrongly", name.c_str(), ids[i]);
        }
        seen[f] = true;
        if (!near(v[i], it->second[f], 1e-9)) {
          return where + fmt(": %s of face %zu is %.12g instead of %.12g", name.c_str(), f, v[i], it->second[f]);
        }
      }
    }
    if (found != want.data.size()) {
      return where + fmt(": %zu of %zu sets of data", found, want.data.size());
    }
  }
  H5Fclose(file);
  return "";
}

std::string
checkFlat(ModelSpec const & m, um2::PolytopeSoup const & s)
{
  auto const places = placesOf(m);
  auto const cells = cellData(m, true, false, true);
  size_t total = 0;
  for (auto const & p : places) {
    total += cells[static_cast<size_t>(p.cell)].faces.size();
  }
  if (static_cast<size_t>(s.numElements()) != total) {
    return fmt("the mesh has %d faces instead of %zu", static_cast<int>(s.numElements()), total);
  }
  // sets: face -> value
  std::map<std::string, std::map<int, double>> sets;
  for (Int i = 0; i < s.numElsets(); ++i) {
    um2::String name;
    um2::Vector<Int> ids;
    um2::Vector<Float> data;
    s.getElset(i, name, ids, data);
    auto & e = sets[name.data()];
    for (Int k = 0; k < ids.size(); ++k) {
      e[ids[k]] = data.empty() ? 0 : data[k];
    }
  }
  std::map<std::string, size_t> members;
  // each expected face at its place in the order of the core, else anywhere
  std::vector<bool> used(total, false);
  std::vector<std::array<double, 3>> cen(total);
  std::vector<size_t> nv(total);
  for (size_t i = 0; i < total; ++i) {
    um2::VTKElemType type{};
    um2::Vector<Int> conn;
    s.getElement(static_cast<Int>(i), type, conn);
    std::vector<std::array<double, 2>> v;
    std::vector<int> f;
    double z = 0;
    for (Int k = 0; k < conn.size(); ++k) {
      auto const & q = s.getVertex(conn[k]);
      v.push_back({q[0], q[1]});
      f.push_back(static_cast<int>(k));
      z = q[2];
    }
    std::array<double, 2> c{};
    if (!(faceArea(v, f, &c) > 0)) {
      return fmt("face %zu of the mesh has no area", i);
    }
    cen[i] = {c[0], c[1], z};
    nv[i] = f.size();
  }
  size_t next = 0;
  for (size_t p = 0; p < places.size(); ++p) {
    auto const & pl = places[p];
    auto const & want = cells[static_cast<size_t>(pl.cell)];
    double const tol = 1e-8 * (1 + std::abs(pl.x) + std::abs(pl.y) + std::abs(pl.z));
    std::string const in[] = {fmt("Assembly_%05d_%05d", pl.asy, pl.nasy), fmt("Lattice_%05d_%05d", pl.lat, pl.nlat),
                              fmt("RTM_%05d_%05d", pl.rtm, pl.nrtm), fmt("Coarse_Cell_%05d_%05d", pl.cell, pl.ncell)};
    for (size_t i = 0; i < want.faces.size(); ++i) {
      auto const & c = want.centroid[i];
      auto fits = [&](size_t k) {
        return !used[k] && nv[k] == want.faces[i].size() && std::abs(cen[k][0] - pl.x - c[0]) < tol &&
               std::abs(cen[k][1] - pl.y - c[1]) < tol && std::abs(cen[k][2] - pl.z) < tol;
      };
      size_t k = next;
      if (k >= total || !fits(k)) {
        for (k = 0; k < total && !fits(k); ++k) {
        }
      }
      if (k == total) {
        return fmt("no face of the mesh is at %.10g, %.10g, %.10g (cell %d)", pl.x + c[0], pl.y + c[1], pl.z, pl.cell);
      }
      used[k] = true;
      next = k + 1;
      for (auto const & name : in) {
        ++members[name];
        auto const it = sets.find(name);
        if (it == sets.end() || it->second.count(static_cast<int>(k)) == 0) {
          return fmt("the face at %.10g, %.10g, %.10g is not in %s", pl.x + c[0], pl.y + c[1], pl.z, name.c_str());
        }
      }
      for (auto const & [name, values] : want.data) {
        auto const it = sets.find(name);
        if (it == sets.end() || it->second.count(static_cast<int>(k)) == 0) {
          return fmt("the face at %.10g, %.10g, %.10g has no %s", pl.x + c[0], pl.y + c[1], pl.z, name.c_str());
        }
        double const got = it->second[static_cast<int>(k)];
        if (!near(got, values[i], 1e-9)) {
          return fmt("%s of the face at %.10g, %.10g, %.10g is %.12g instead of %.12g", name.c_str(), pl.x + c[0], pl.y + c[1],
                     pl.z, got, values[i]);
        }
      }
    }
  }
  for (auto const & [name, n] : members) {
    if (sets[name].size() != n) {
      return fmt("%s has %zu faces instead of %zu", name.c_str(), sets[name].size(), n);
    }
  }
  return "";
}

} // namespace sim
