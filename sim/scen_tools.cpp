// T01: the post-processing programs; F01: extracted region powers.
#include "extra_spec.hpp"
#include "mesh_text.hpp"
#include "results_spec.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <numeric>
#include <um2/common/logger.hpp>
#include <um2/mpact/powers.hpp>

int um2_tool_extract_cmfd_info(int argc, char ** argv);
int um2_tool_extract_edge_length(int argc, char ** argv);
int um2_tool_extract_meanchordlength(int argc, char ** argv);
int um2_tool_extract_powers(int argc, char ** argv);
int um2_tool_extract_spectrum(int argc, char ** argv);

using namespace sim;

namespace
{

// Power densities with a given total power; some faces without power.
std::vector<double>
drawPowers(Results const & q, double total)
{
  Rng r(pick(1U << 30));
  uint32_t const density = 1 + pick(8); // of 8
  bool const spread = pick(3) == 2;     // over many orders of magnitude
  std::vector<double> p;
  double sum = 0;
  for (size_t i = 0; i < q.area.size(); ++i) {
    double v = r.below(8) < density ? 0.01 + r.unit() * (r.below(10) == 0 ? 100 : 1) : 0;
    if (spread && r.below(2) == 0) {
      v *= std::pow(10.0, -1.0 * r.below(14));
    }
    if (i + 1 == q.area.size() && sum == 0) {
      v = 1;
    }
    p.push_back(v);
    sum += v * q.area[i];
  }
  for (double & v : p) {
    v *= total / sum;
  }
  return p;
}

struct Region {
  double power = 0;
  double area = 0;
  std::array<double, 2> c = {0, 0};
  int nfaces = 0;
};

std::vector<Region>
regions(Results const & q, std::vector<double> const & p)
{
  size_t const n = q.area.size();
  std::vector<size_t> root(n);
  std::iota(root.begin(), root.end(), 0);
  std::function<size_t(size_t)> find = [&](size_t i) { return root[i] == i ? i : root[i] = find(root[i]); };
  std::vector<std::pair<int, size_t>> by;
  for (size_t i = 0; i < n; ++i) {
    if (p[i] > 0) {
      for (int const c : q.corner[i]) {
        by.emplace_back(c, i);
      }
    }
  }
  std::sort(by.begin(), by.end());
  for (size_t k = 1; k < by.size(); ++k) {
    if (by[k].first == by[k - 1].first) {
      root[find(by[k].second)] = find(by[k - 1].second);
    }
  }
  std::vector<int> slot(n, -1);
  std::vector<Region> out;
  for (size_t i = 0; i < n; ++i) {
    if (!(p[i] > 0)) {
      continue;
    }
    size_t const f = find(i);
    if (slot[f] < 0) {
      slot[f] = static_cast<int>(out.size());
      out.emplace_back();
    }
    auto & g = out[static_cast<size_t>(slot[f])];
    g.power += p[i] * q.area[i];
    g.area += q.area[i];
    g.c[0] += q.area[i] * q.centroid[i][0];
    g.c[1] += q.area[i] * q.centroid[i][1];
    ++g.nfaces;
  }
  for (auto & g : out) {
    g.c[0] /= g.area;
    g.c[1] /= g.area;
  }
  return out;
}

std::string
matchRegions(std::vector<Region> const & want, std::vector<std::array<double, 3>> const & got, double floor)
{
  std::vector<bool> used(got.size(), false);
  for (size_t i = 0; i < want.size(); ++i) {
    bool found = false;
    for (size_t k = 0; k < got.size() && !found; ++k) {
      if (!used[k] && std::abs(got[k][0] - want[i].power) <= 1e-9 * (floor + want[i].power) &&
          std::abs(got[k][1] - want[i].c[0]) < 1e-9 && std::abs(got[k][2] - want[i].c[1]) < 1e-9) {
        used[k] = true;
        found = true;
      }
    }
    if (!found) {
      return fmt("no region with power %.10g and centroid %.8g, %.8g (%d joined faces) among the %zu reported; expected %zu",
                 want[i].power, want[i].c[0], want[i].c[1], want[i].nfaces, got.size(), want.size());
    }
  }
  if (want.size() != got.size()) {
    return fmt("%zu regions instead of %zu", got.size(), want.size());
  }
  return "";
}

//--------------------------------------------------------------------------------------------------
// F01
//--------------------------------------------------------------------------------------------------

void
f01()
{
  uint32_t const size = pick(24);
  Results q = drawResults(size < 18 ? 4 : size < 23 ? 7 : 18);
  drawFill();
  double const totals[] = {1.0, 17.0, 1e-3, 0.5};
  std::vector<double> p = drawPowers(q, totals[pick(4)]);
  uint32_t const spoiled = pick(12); // 9 no power set, 10 all zero, 11 two kinds of faces
  if (spoiled == 10) {
    std::fill(p.begin(), p.end(), 0.0);
  }
  Rng r(pick(1U << 30));
  std::vector<double> other;
  for (size_t i = 0; i < p.size(); ++i) {
    other.push_back(r.below(5));
  }
  if (pick(2) != 0) {
    addData(q.mesh, "material", other);
  }
  if (spoiled != 9) {
    addData(q.mesh, "power", p);
  }
  if (pick(2) != 0) {
    addData(q.mesh, "flux_001", other);
  }
  bool const text = pick(2) == 0;
  if (spoiled == 11) {
    // one more face of another kind
    auto const & c = q.mesh.conn[0];
    q.mesh.types.push_back(q.kind == 0 ? 9 : 5);
    if (q.kind == 0) {
      int const extra = static_cast<int>(q.mesh.verts.size());
      q.mesh.verts.push_back({50, 50, 0});
      q.mesh.conn.push_back({c[0], c[1], c[2], extra});
    } else {
      q.mesh.conn.push_back({c[0], c[1], c[2]});
    }
    for (auto & e : q.mesh.elsets) {
      e.ids.push_back(static_cast<int>(e.ids.size()));
      e.data.push_back(1);
    }
  }
  if (q.mesh.elsets.empty()) {
    addData(q.mesh, "nothing", other);
  }
  std::string const path = text ? "/sim/a/fsr.vtk" : "/sim/a/fsr.xdmf";
  if (!storeResults(q.mesh, path)) {
    if (!violated()) {
      violate("F01:prepare", "storing the results failed");
    }
    return;
  }
  auto const want = regions(q, p);
  // other results, extracted in the same process after an extraction that failed
  bool const after = pick(3) == 0;
  std::vector<Region> want2;
  if (after) {
    Results q2 = drawResults(3);
    auto const p2 = drawPowers(q2, 2.0);
    addData(q2.mesh, "power", p2);
    want2 = regions(q2, p2);
    if (!storeResults(q2.mesh, "/sim/a/second.vtk")) {
      if (!violated()) {
        violate("F01:prepare", "storing the results failed");
      }
      return;
    }
  }
  int const level = 1 + static_cast<int>(pick(4));
  bool const eoe = pick(2) == 0;
  bool const must_fail = spoiled >= 9;
  auto run = [&](Cfg const & cfg, std::string const & why) {
    return process(cfg, [&] {
      quietLogger(level, eoe);
      um2::Vector<um2::Pair<Float, um2::Point2F>> got;
      int const st = step("powers", [&] { got = um2::mpact::getPowers(um2::String(path.c_str())); });
      if (st != ST_OK && after && (!must_fail || cfg.faults.empty())) {
        um2::Vector<um2::Pair<Float, um2::Point2F>> got2;
        int const st2 = step("after", [&] { got2 = um2::mpact::getPowers(um2::String("/sim/a/second.vtk")); });
        std::vector<std::array<double, 3>> g;
        for (auto const & x : got2) {
          g.push_back({x.first, x.second[0], x.second[1]});
        }
        std::string const d = st2 == ST_OK ? matchRegions(want2, g, 1e-12) : std::string("it fails");
        if (!d.empty()) {
          violate("F01:after", "extracting powers %s reported an error, but then extracting others goes wrong: %s", why.c_str(),
                  d.c_str());
        }
      }
      if (st != ST_OK) {
        return;
      }
      if (must_fail) {
        violate("F01:no-error", "extracting powers from a file with %s reported nothing",
                spoiled == 9 ? "no power" : (spoiled == 10 ? "only zero power" : "two kinds of faces"));
      }
      std::vector<std::array<double, 3>> g;
      for (auto const & x : got) {
        g.push_back({x.first, x.second[0], x.second[1]});
      }
      std::string const d = matchRegions(want, g, 1e-12);
      if (!d.empty()) {
        violate("F01:regions", "extracting powers (%zu faces, kind %d) %s: %s", q.area.size(), q.kind, why.c_str(),
                d.c_str());
      }
    });
  };
  auto bad = [&](Proc const & pr, std::string const & why) {
    if (violated()) {
      return true;
    }
    if (pr.livelock) {
      violate("F01:hang", "extracting powers %s did not finish", why.c_str());
      return true;
    }
    if (pr.find("after") != nullptr) {
      probe(6);
      if (!pr.ok("after")) {
        violate("F01:after", "extracting powers %s reported an error, but then extracting others ends the program", why.c_str());
        return true;
      }
    }
    if (pr.sig != 0 && pr.sig != 6) {
      violate("F01:signal", "extracting powers %s died with signal %d", why.c_str(), pr.sig);
      return true;
    }
    return false;
  };
  Proc const prof = run({}, "without faults");
  if (bad(prof, "without faults")) {
    return;
  }
  bool const fine = prof.ok("powers") && prof.success();
  if (!must_fail && !fine) {
    violate("F01:rejected", "extracting powers from proper results failed: %s", lastWords(prof).c_str());
    return;
  }
  nontrivial();
  probe(must_fail ? 4 : 0);
  probe(want.size() > 1 ? 1 : 5);
  stateMix(want.size() * 1000 + q.area.size());
  int const rounds = range(0, 3);
  auto const disk0 = diskSnapshot();
  for (int k = 0; k < rounds; ++k) {
    diskRestore(disk0);
    Cfg cfg = pick(2) != 0 ? drawBenign() : Cfg{};
    bool const faulty = pick(3) != 0;
    std::string why;
    if (faulty && !text && pick(3) == 0) {
      std::string const target = pick(3) == 0 ? path : "/sim/a/fsr.h5";
      size_t const n = diskRead(target.c_str()).size();
      size_t const cut = pick(static_cast<uint32_t>(n));
      diskTruncate(target.c_str(), cut);
      why = fmt("after %s was cut to %zu bytes", target.c_str(), cut);
      probe(3);
    } else if (faulty) {
      drawReadFault(cfg, prof);
    }
    why += " under" + sim::describe(cfg);
    Proc const pr = run(cfg, why);
    if (bad(pr, why)) {
      return;
    }
    if (!faulty && (pr.ok("powers") && pr.success()) != fine) {
      violate("F01:split", "the result depends on how reads are split: %s", lastWords(pr).c_str());
      return;
    }
    if (pr.injected > 0) {
      probe(2);
    }
    stateMix(std::hash<std::string>{}(why));
  }
}
Register const rf("F01", f01);

//--------------------------------------------------------------------------------------------------
// T01
//--------------------------------------------------------------------------------------------------

struct ToolCase {
  std::string input;
  // output file -> expected values (one list per column), lines with a group number in front
  struct Out {
    std::string name;
    std::vector<double> values;
    bool numbered = false;
    double tol = 1e-11; // relative
  };
  std::vector<Out> out;
  std::vector<Region> regions; // for the powers
  bool ok = true;              // the input is acceptable
};

std::string
checkNumbers(std::string const & text, ToolCase::Out const & o)
{
  size_t at = 0;
  for (size_t i = 0; i < o.values.size(); ++i) {
    size_t const e = text.find('\n', at);
    if (e == std::string::npos) {
      return fmt("%s ends after %zu of %zu values", o.name.c_str(), i, o.values.size());
    }
    std::string line = text.substr(at, e - at);
    at = e + 1;
    char * end = nullptr;
    if (o.numbered) {
      long const g = strtol(line.c_str(), &end, 10);
      if (g != static_cast<long>(i) || *end != ',') {
        return fmt("%s line %zu has the wrong group: %s", o.name.c_str(), i, line.c_str());
      }
      line = std::string(end + 1);
    }
    double const v = strtod(line.c_str(), &end);
    while (*end == ' ') {
      ++end;
    }
    if (end == line.c_str() || *end != 0) {
      return fmt("%s line %zu is not a number: %s", o.name.c_str(), i, line.c_str());
    }
    if (!(std::abs(v - o.values[i]) <= o.tol * (1e-3 + std::abs(o.values[i])))) {
      return fmt("%s line %zu says %.17g instead of %.17g", o.name.c_str(), i, v, o.values[i]);
    }
  }
  if (at != text.size()) {
    return fmt("%s has more than the %zu values", o.name.c_str(), o.values.size());
  }
  return "";
}

std::string
checkPowers(std::string const & text, std::vector<Region> const & want)
{
  std::vector<std::array<double, 3>> got;
  size_t at = text.find('\n');
  if (at == std::string::npos) {
    return "power_centroid.txt has no complete line";
  }
  ++at;
  while (at < text.size()) {
    size_t const e = text.find('\n', at);
    if (e == std::string::npos) {
      return "power_centroid.txt ends inside a line";
    }
    std::array<double, 3> v{};
    int used = 0;
    if (sscanf(text.substr(at, e - at).c_str(), "%lf, %lf, %lf%n", &v[0], &v[1], &v[2], &used) != 3 ||
        at + static_cast<size_t>(used) != e) {
      return "power_centroid.txt has a malformed line: " + text.substr(at, e - at);
    }
    got.push_back(v);
    at = e + 1;
  }
  return matchRegions(want, got, 1e-3);
}

std::string
checkTool(ToolCase const & c, int tool)
{
  if (tool == 0) {
    if (!diskExists("/sim/cwd/power_centroid.txt")) {
      return "power_centroid.txt is missing";
    }
    return checkPowers(diskRead("/sim/cwd/power_centroid.txt"), c.regions);
  }
  for (auto const & o : c.out) {
    std::string const path = "/sim/cwd/" + o.name;
    if (!diskExists(path.c_str())) {
      return o.name + " is missing";
    }
    std::string const d = checkNumbers(diskRead(path.c_str()), o);
    if (!d.empty()) {
      return d;
    }
  }
  return "";
}

ToolCase
drawToolCase(int tool, int index)
{
  ToolCase c;
  if (tool <= 2) {
    uint32_t const size = pick(24);
    Results q = drawResults(size < 18 ? 3 : size < 23 ? 8 : 24);
    size_t const n = q.area.size();
    Rng r(pick(1U << 30));
    auto values = [&](double lo, double hi) {
      std::vector<double> v;
      for (size_t i = 0; i < n; ++i) {
        v.push_back(lo + (hi - lo) * r.unit());
      }
      return v;
    };
    std::vector<std::pair<std::string, std::vector<double>>> sets;
    if (tool == 0) {
      auto const p = drawPowers(q, 1.0);
      c.regions = regions(q, p);
      sets.emplace_back("power", p);
    } else if (tool == 1) {
      int const ng = range(1, 12);
      ToolCase::Out o;
      o.name = "spectrum.txt";
      o.numbered = true;
      for (int g = 0; g < ng; ++g) {
        auto const v = values(0, ng > 1 && r.below(6) == 0 ? 0 : g % 3 == 0 ? 10 : 0.1);
        double sum = 0;
        for (size_t i = 0; i < n; ++i) {
          sum += v[i] * q.area[i];
        }
        o.values.push_back(sum);
        sets.emplace_back(fmt("flux_%03d", g + 1), v);
      }
      c.out.push_back(o);
      if (pick(2) != 0) {
        sets.emplace_back("power", values(0, 1));
      }
    } else {
      char const * const names[] = {"Homogenized_Total_XS_Group_", "Homogenized_Scattering_Ratio_Group_",
                                    "1D_odCMFD_Spectral_Radius_Group_"};
      char const * const files[] = {"total_xs.txt", "scattering_ratio.txt", "spectral_radius.txt"};
      int const ng = range(1, 7);
      for (int k = 0; k < 3; ++k) {
        ToolCase::Out o;
        o.name = files[k];
        int const have = pick(4) == 3 ? static_cast<int>(pick(static_cast<uint32_t>(ng + 1))) : ng;
        for (int g = 0; g < have; ++g) {
          auto const v = values(-1, 3);
          o.values.insert(o.values.end(), v.begin(), v.end());
          sets.emplace_back(names[k] + fmt("%05d", g), v);
        }
        c.out.push_back(o);
      }
    }
    // any order of the data sets
    for (size_t i = sets.size(); i > 1; --i) {
      std::swap(sets[i - 1], sets[r.below(static_cast<uint32_t>(i))]);
    }
    for (auto const & s : sets) {
      addData(q.mesh, s.first, s.second);
    }
    if (sets.empty()) {
      addData(q.mesh, "other", values(0, 1));
    }
    c.input = fmt("/sim/a/results%d", index) + (pick(2) == 0 ? ".vtk" : ".xdmf");
    if (!storeResults(q.mesh, c.input) && !violated()) {
      violate("T01:prepare", "storing the results failed");
    }
    return c;
  }
  ModelOpts mo;
  mo.small = pick(4) != 3;
  ModelSpec const m = drawModel(mo);
  c.input = fmt("/sim/a/model%d.xdmf", index);
  // values per coarse cell, computed in a process because pins are made by the library
  Proc const p = process({}, [&] {
    quietLogger(1, true);
    auto const model = build(m);
    step("prepare", [&] { model.write(um2::String(c.input.c_str())); });
    // hand the vertices and faces over
    size_t k = 0;
    auto * w = reinterpret_cast<double *>(shm->scratch);
    size_t const cap = sizeof(shm->scratch) / sizeof(double);
    for (auto const & cell : m.cells) {
      std::vector<std::array<double, 2>> verts;
      std::vector<std::vector<int>> faces;
      auto const & f = m.meshes[static_cast<size_t>(cell.mesh)];
      realise(f, verts, faces);
      size_t const k0 = k;
      ++k;
      for (auto const & fc : faces) {
        bool const second = f.kind >= 2;
        size_t const ne = second ? fc.size() / 2 : fc.size();
        double per = 0;
        for (size_t e = 0; e < ne; ++e) {
          auto const & a = verts[static_cast<size_t>(fc[e])];
          auto const & b = verts[static_cast<size_t>(fc[(e + 1) % ne])];
          double const len = edgeLength(a, b, second ? &verts[static_cast<size_t>(fc[ne + e])] : nullptr);
          per += len;
          if (tool == 3 && k < cap) {
            w[k++] = len;
          }
        }
        if (tool == 4 && k < cap) {
          w[k++] = M_PI * faceArea(verts, fc) / per;
        }
      }
      w[k0] = static_cast<double>(k - k0 - 1);
    }
    if (k + 8 >= cap) {
      violate("harness", "model too large for the scratch space");
    }
  });
  if (violated()) {
    return c;
  }
  if (!p.ok("prepare") || !p.success()) {
    violate("T01:prepare", "saving a model failed: %s", lastWords(p).c_str());
    return c;
  }
  std::vector<std::vector<double>> cells;
  auto const * w = reinterpret_cast<double const *>(shm->scratch);
  for (size_t i = 0; i < m.cells.size(); ++i) {
    auto const n = static_cast<size_t>(*w++);
    cells.emplace_back(w, w + n);
    w += n;
  }
  ToolCase::Out o;
  o.name = tool == 3 ? "edge_lens.txt" : "mcls.txt";
  o.tol = 1e-9; // (arc lengths and chords are worked out in another way here)
  auto flat = [](Rows const & rows) {
    std::vector<int> v;
    for (size_t j = rows.size(); j-- > 0;) {
      v.insert(v.end(), rows[j].begin(), rows[j].end());
    }
    return v;
  };
  for (int const a : flat(m.core)) {
    for (int const l : m.asys[static_cast<size_t>(a)].lats) {
      for (int const rt : flat(m.lats[static_cast<size_t>(l)])) {
        for (int const cc : flat(m.rtms[static_cast<size_t>(rt)])) {
          auto const & v = cells[static_cast<size_t>(cc)];
          o.values.insert(o.values.end(), v.begin(), v.end());
        }
      }
    }
  }
  c.out.push_back(o);
  return c;
}

void
t01()
{
  static char const * const names[] = {"extract_powers", "extract_spectrum", "extract_cmfd_info", "extract_edge_length",
                                       "extract_meanchordlength"};
  static int (*const mains[])(int, char **) = {um2_tool_extract_powers, um2_tool_extract_spectrum,
                                               um2_tool_extract_cmfd_info, um2_tool_extract_edge_length,
                                               um2_tool_extract_meanchordlength};
  int const tool = static_cast<int>(pick(5));
  drawFill();
  int const ncases = range(1, 2);
  std::vector<ToolCase> cases;
  for (int i = 0; i < ncases; ++i) {
    cases.push_back(drawToolCase(tool, i));
    if (violated()) {
      return;
    }
  }
  auto run = [&](Cfg const & cfg, std::string const & input, int args) {
    return process(cfg, [&] {
      std::string const name = names[tool];
      std::vector<std::string> words = {"./" + name, input, "more"};
      std::vector<char *> argv;
      for (int i = 0; i < args; ++i) {
        argv.push_back(words[static_cast<size_t>(i)].data());
      }
      argv.push_back(nullptr);
      int const code = mains[tool](args, argv.data());
      exit(code);
    });
  };
  auto bad = [&](Proc const & p, std::string const & why) {
    if (violated()) {
      return true;
    }
    if (p.livelock) {
      violate("T01:hang", "%s %s did not finish", names[tool], why.c_str());
      return true;
    }
    return false;
  };
  std::vector<Proc> prof;
  for (auto const & c : cases) {
    Proc const p = run({}, c.input, 2);
    if (bad(p, "without faults")) {
      return;
    }
    if (!p.success()) {
      violate("T01:rejected", "%s on a proper input ended with status %d signal %d: %s", names[tool], p.code, p.sig,
              lastWords(p).c_str());
      return;
    }
    std::string const d = checkTool(c, tool);
    if (!d.empty()) {
      violate("T01:output", "%s succeeded without faults, but %s", names[tool], d.c_str());
      return;
    }
    prof.push_back(p);
  }
  nontrivial();
  probe(tool);
  int const rounds = range(1, 4);
  auto disk = diskSnapshot();
  for (int k = 0; k < rounds; ++k) {
    size_t const i = pick(static_cast<uint32_t>(cases.size()));
    auto const & c = cases[i];
    Cfg cfg = pick(3) != 0 ? drawBenign() : Cfg{};
    std::string why;
    std::string input = c.input;
    bool must_fail = false;
    bool may_fail = true;
    int args = 2;
    switch (pick(8)) {
    case 0:
      may_fail = false;
      break;
    case 1:
      input = "/sim/a/missing.xdmf";
      must_fail = true;
      break;
    case 2:
      args = pick(2) == 0 ? 1 : 3;
      must_fail = true;
      break;
    case 3:
    case 4:
      drawReadFault(cfg, prof[i]);
      break;
    case 5: {
      bool const xdmf = input.compare(input.size() - 5, 5, ".xdmf") == 0;
      if (xdmf) {
        std::string const target = pick(3) == 0 ? input : input.substr(0, input.size() - 5) + ".h5";
        size_t const n = diskRead(target.c_str()).size();
        size_t const cut = pick(static_cast<uint32_t>(n));
        diskTruncate(target.c_str(), cut);
        why = fmt("after %s was cut to %zu bytes", target.c_str(), cut);
      } else {
        drawReadFault(cfg, prof[i]);
      }
      break;
    }
    default:
      drawWriteFault(cfg, prof[i]);
      break;
    }
    why += " under" + sim::describe(cfg);
    Proc const p = run(cfg, input, args);
    if (bad(p, why)) {
      return;
    }
    if (p.injected > 0) {
      probe(8);
    }
    stateMix(static_cast<uint64_t>(p.code) * 8 + static_cast<uint64_t>(tool));
    stateMix(std::hash<std::string>{}(why));
    if (p.success()) {
      probe(9);
      if (must_fail) {
        violate("T01:no-failure", "%s succeeded %s", names[tool],
                args == 2 ? "although the input does not exist" : "with a wrong number of arguments");
        return;
      }
      std::string const d = checkTool(c, tool);
      if (!d.empty()) {
        violate("T01:silent", "%s succeeded %s, but %s", names[tool], why.c_str(), d.c_str());
        return;
      }
    } else {
      probe(10);
      if (!may_fail) {
        violate("T01:split", "%s failed %s: %s", names[tool], why.c_str(), lastWords(p).c_str());
        return;
      }
    }
    // the outputs that were left behind stay; the inputs are whole again
    auto left = diskSnapshot();
    diskRestore(disk);
    static char const * const outs[] = {"power_centroid.txt", "spectrum.txt",  "total_xs.txt", "scattering_ratio.txt",
                                        "spectral_radius.txt", "edge_lens.txt", "mcls.txt"};
    if (pick(2) == 0) {
      for (auto const * o : outs) {
        std::string const path = std::string("/sim/cwd/") + o;
        for (size_t f = 0; f < left.files.size(); ++f) {
          if (path == left.files[f].path && left.files[f].used != 0) {
            diskWrite(path.c_str(), left.data[f]);
          }
        }
      }
    }
  }
}
Register const rt("T01", t01);

} // namespace
