// T02: the programs that extract the neutron sources from results.
#include "lib_spec.hpp"
#include "results_spec.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <um2/common/logger.hpp>
#include <um2/common/settings.hpp>

int um2_tool_c5g7_extract_source(int argc, char ** argv);
int um2_tool_crocus_2d_extract_source(int argc, char ** argv);
int um2_tool_fnr_leu_2d_extract_source(int argc, char ** argv);
int um2_tool_vera_4_rodded_extract_source(int argc, char ** argv);

using namespace sim;

namespace
{

//--------------------------------------------------------------------------------------------------
// The materials of the programs
//--------------------------------------------------------------------------------------------------

struct Part {
  int zaid;
  double density; // atoms per barn and centimetre
};

struct Mat {
  double temperature;
  std::vector<Part> parts;
};

struct Program {
  char const * name;
  int (*run)(int, char **);
  double k_eff;
  char const * output; // without extension
  std::vector<Mat> mats;
  int groups; // of the built-in cross sections, 0: from a library
};

double constexpr avo = 0.602214076;

double
wt(double rho, double fraction, double mass)
{
  return fraction * rho * avo / mass;
}

// Scattering and fission production of the seven-group benchmark materials
double const c5g7[7][2][7] = {
    {{0.1699244429163, 0.3260874031427, 0.4536192, 0.4581314, 0.281781260021, 0.2839078, 0.2816258},
     {0.020059984287, 0.00202730297343, 0.015705991756, 0.04518301024, 0.04334208392, 0.20209009624, 0.5257105352}},
    {{0.1702972340405, 0.3270915015982, 0.4558022, 0.4627124, 0.2862871691656, 0.2698171, 0.2735018},
     {0.0217530045136, 0.00253510334902, 0.016267991481, 0.065474099656, 0.030724087845, 0.66665096155, 0.7139904304}},
    {{0.1722575156329, 0.3300716022017, 0.4609041, 0.4691856, 0.2912180990016, 0.265141, 0.2683935},
     {0.0238139520108, 0.0038586887635, 0.0241340013544, 0.09436621999, 0.045769876104, 0.92818140452, 1.04320011817}},
    {{0.1735587023938, 0.3320493026006, 0.4642669, 0.473454, 0.294354278928, 0.2623276, 0.2650611},
     {0.0251860041034, 0.004739509467, 0.029478053976, 0.112249998477, 0.0553030128, 1.07499883776, 1.23929836992}},
    {{0.125520722842, 0.2930845479, 0.28393393, 0.2798525, 0.33106234, 0.55645142, 1.148893},
     {1.32340109566e-08, 1.43449976796e-08, 1.1285993022e-06, 1.2762993228e-05, 3.53850182e-07, 1.7400988536e-06,
      5.063301858e-06}},
    {{0.125520722842, 0.2930845479, 0.28392457, 0.2798018, 0.331042533, 0.55645226, 1.148912}, {}},
    {{0.158604973084, 0.4129538961, 0.58997274, 0.5824094, 0.712258437, 1.2394487, 2.61314}, {}}};

std::vector<Program>
makePrograms()
{
  std::vector<Program> p;
  p.push_back({"c5g7_extract_source", um2_tool_c5g7_extract_source, 1.1864063, "c5g7_source", std::vector<Mat>(7), 7});
  p.push_back({"crocus_2d_extract_source",
               um2_tool_crocus_2d_extract_source,
               1.0305077,
               "source",
               {{293.15, {{92235, 4.30565e-04}, {92238, 2.31145e-02}, {8016, 4.70902e-02}}},
                {293.15, {{13027, 6.02611e-02}}},
                {293.15, {{92235, 4.53160e-04}, {92238, 4.68003e-02}}},
                {293.15, {{1001, 6.67578e-02}, {8016, 3.33789e-02}}}},
               0});
  double const al = 2.7;
  double const fu = 2.89924;
  double const total = 140.61 + 1.51 + 0.75 + 8.04 + 908 + 3.7;
  double const ah = 908 / total;
  double const light = (2.0 / 3.0) * 1.00783 + (1.0 / 3.0) * 15.9949;
  double const heavy = (0.005 / 3.0) * 1.00783 + (1.995 / 3.0) * 2.0141 + (1.0 / 3.0) * 15.9949;
  p.push_back({"fnr_leu_2d_extract_source",
               um2_tool_fnr_leu_2d_extract_source,
               1.1165101,
               "source",
               {{300,
                 {{13027, wt(al, 0.9725, 26.9815)},
                  {12000, wt(al, 0.01, 24.3051)},
                  {14000, wt(al, 0.006, 28.0859)},
                  {26000, wt(al, 0.0035, 55.8447)},
                  {29063, wt(al, 0.00205437585615717, 62.9296)},
                  {29065, wt(al, 0.00094562414384283, 64.9278)},
                  {24000, wt(al, 0.003, 51.9959)},
                  {22000, wt(al, 0.0005, 47.8933)},
                  {25055, wt(al, 0.0005, 54.938)}}},
                {300, {{1001, wt(0.99821, 2.0 / 3.0, light)}, {8016, wt(0.99821, 1.0 / 3.0, light)}}},
                {300,
                 {{1001, wt(1.11, 0.005 / 3.0, heavy)},
                  {1002, wt(1.11, 1.995 / 3.0, heavy)},
                  {8016, wt(1.11, 1.0 / 3.0, heavy)}}},
                {300,
                 {{92235, wt(fu, 140.61 / total, 235.044)},
                  {92234, wt(fu, 1.51 / total, 234.041)},
                  {92236, wt(fu, 0.75 / total, 236.046)},
                  {92238, wt(fu, 8.04 / total, 238.051)},
                  {13027, wt(fu, 0.9725 * ah, 26.9815)},
                  {12000, wt(fu, 0.01 * ah, 24.3051)},
                  {14000, wt(fu, 0.006 * ah, 28.0859)},
                  {29063, wt(fu, 0.00205437585615717 * ah, 62.9296)},
                  {29065, wt(fu, 0.00094562414384283 * ah, 64.9278)},
                  {24000, wt(fu, 0.003 * ah, 51.9959)},
                  {22000, wt(fu, 0.0005 * ah, 47.8933)},
                  {25055, wt(fu, 0.0005 * ah, 54.938)},
                  {26000, wt(fu, 3.7 / total + 0.0035 * ah, 55.8447)}}},
                {300, {{5010, 0.001108}, {5011, 0.005184}, {26000, 0.05644}, {28000, 0.0113}, {24000, 0.0164}}},
                {300, {{26000, 0.05644}, {28000, 0.0113}, {24000, 0.0164}}}},
               0});
  p.push_back(
      {"vera_4_rodded_extract_source",
       um2_tool_vera_4_rodded_extract_source,
       0.9482152,
       "source",
       {{565, {{8016, 4.57591e-02}, {92234, 4.04814e-06}, {92235, 4.88801e-04}, {92236, 2.23756e-06}, {92238, 2.23844e-02}}},
        {565, {{8016, 4.57617e-02}, {92234, 5.09503e-06}, {92235, 6.06733e-04}, {92236, 2.76809e-06}, {92238, 2.22663e-02}}},
        {565, {{2004, wt(0.00012768, 1.0, 4.0026)}}},
        {565,
         {{24050, 3.30121e-06}, {24052, 6.36606e-05}, {24053, 7.21860e-06}, {24054, 1.79686e-06}, {26054, 8.68307e-06},
          {26056, 1.36306e-04}, {26057, 3.14789e-06}, {26058, 4.18926e-07}, {40090, 2.18865e-02}, {40091, 4.77292e-03},
          {40092, 7.29551e-03}, {40094, 7.39335e-03}, {40096, 1.19110e-03}, {50112, 4.68066e-06}, {50114, 3.18478e-06},
          {50115, 1.64064e-06}, {50116, 7.01616e-05}, {50117, 3.70592e-05}, {50118, 1.16872e-04}, {50119, 4.14504e-05},
          {50120, 1.57212e-04}, {50122, 2.23417e-05}, {50124, 2.79392e-05}, {72174, 3.54138e-09}, {72176, 1.16423e-07},
          {72177, 4.11686e-07}, {72178, 6.03806e-07}, {72179, 3.01460e-07}, {72180, 7.76449e-07}}},
        {565, {{1001, 4.96194e-02}, {5010, 1.12012e-05}, {5011, 4.50862e-05}, {8016, 2.48097e-02}}},
        {565, {{5010, 9.63266e-04}, {5011, 3.90172e-03}, {8016, 4.67761e-02}, {14000, 1.97326e-02}}},
        {565,
         {{6000, 3.20895e-04}, {14000, 1.71537e-03}, {15031, 6.99938e-05}, {24050, 7.64915e-04}, {24052, 1.47506e-02},
          {24053, 1.67260e-03}, {24054, 4.16346e-04}, {25055, 1.75387e-03}, {26054, 3.44776e-03}, {26056, 5.41225e-02},
          {26057, 1.24992e-03}, {26058, 1.66342e-04}, {28058, 5.30854e-03}, {28060, 2.04484e-03}, {28061, 8.88879e-05},
          {28062, 2.83413e-04}, {28064, 7.21770e-05}}},
        {565, {{47107, 2.36159e-02}, {47109, 2.19403e-02}, {48000, 2.73220e-03}, {49113, 3.44262e-04}, {49115, 7.68050e-03}}}},
       0});
  return p;
}

//--------------------------------------------------------------------------------------------------
// A library with what a program needs
//--------------------------------------------------------------------------------------------------

LibSpec
drawLibFor(Program const & pr)
{
  int const ng = pick(6) == 5 ? range(4, 12) : range(1, 3);
  Rng r(pick(1U << 30));
  LibSpec l;
  double b = 2e7;
  for (int g = 0; g < ng; ++g) {
    l.bounds.push_back(b);
    b *= 0.1 + 0.8 * (r.below(1000) / 1000.0);
    l.chi.push_back(libValue(r, false));
  }
  std::vector<int> zaids;
  for (auto const & m : pr.mats) {
    for (auto const & p : m.parts) {
      zaids.push_back(p.zaid);
    }
  }
  for (uint32_t k = r.below(4); k-- > 0;) {
    zaids.push_back(94239 + static_cast<int>(k)); // not needed
  }
  std::sort(zaids.begin(), zaids.end());
  zaids.erase(std::unique(zaids.begin(), zaids.end()), zaids.end());
  for (size_t i = zaids.size(); i > 1; --i) {
    std::swap(zaids[i - 1], zaids[r.below(static_cast<uint32_t>(i))]);
  }
  for (int const z : zaids) {
    NucSpec n;
    n.zaid = z;
    n.mass = z % 1000 + 0.5;
    int const nt = 1 + static_cast<int>(r.below(4));
    double t = 200 + r.below(8) * 20;
    for (int k = 0; k < nt; ++k) {
      t += r.below(4) == 0 ? 50 : 1 + r.below(2400) / 8.0;
      n.temps.push_back(t);
    }
    uint32_t const kind = r.below(5); // 0: absorption only, 1, 2: not fissile
    for (int g = 0; g < ng; ++g) {
      n.rows.emplace_back();
      for (int k = 0; k < nt; ++k) {
        XsRow row;
        row.full = kind != 0;
        row.v[0] = libValue(r, false);
        if (row.full) {
          row.v[1] = kind >= 3 ? 0.25 + r.below(64) / 8.0 : 0;
          row.v[2] = kind >= 3 ? row.v[1] * 2.5 : 0;
          row.v[3] = libValue(r, false);
          row.v[4] = libValue(r, false);
          row.lo = 1 + static_cast<int>(r.below(static_cast<uint32_t>(ng)));
          row.hi = row.lo + static_cast<int>(r.below(static_cast<uint32_t>(ng - row.lo + 1)));
          for (int c = row.lo; c <= row.hi; ++c) {
            row.ss.push_back(libValue(r, false));
          }
        }
        n.rows.back().push_back(row);
      }
    }
    l.nuc.push_back(n);
  }
  return l;
}

// Value j of a nuclide in group g at temperature t, between two temperatures in proportion to the
// square root of the temperature.
double
atTemperature(NucSpec const & n, size_t g, int j, double t)
{
  auto v = [&](size_t k) { return n.rows[g][k].v[j]; };
  if (t <= n.temps.front()) {
    return v(0);
  }
  if (t >= n.temps.back()) {
    return v(n.temps.size() - 1);
  }
  size_t k = 1;
  while (n.temps[k] <= t) {
    ++k;
  }
  double const d = (std::sqrt(t) - std::sqrt(n.temps[k - 1])) / (std::sqrt(n.temps[k]) - std::sqrt(n.temps[k - 1]));
  return (1 - d) * v(k - 1) + d * v(k);
}

// xs[material][group] = {scattering, fission production, largest contribution}
std::vector<std::vector<std::array<double, 3>>>
macroscopic(Program const & pr, LibSpec const & l)
{
  std::vector<std::vector<std::array<double, 3>>> out;
  for (size_t m = 0; m < pr.mats.size(); ++m) {
    out.emplace_back();
    size_t const ng = pr.groups > 0 ? static_cast<size_t>(pr.groups) : l.bounds.size();
    for (size_t g = 0; g < ng; ++g) {
      std::array<double, 3> x = {0, 0, 0};
      if (pr.groups > 0) {
        x = {c5g7[m][0][g], c5g7[m][1][g], 1};
      } else {
        for (auto const & p : pr.mats[m].parts) {
          for (auto const & n : l.nuc) {
            if (n.zaid == p.zaid) {
              x[0] += p.density * atTemperature(n, g, 4, pr.mats[m].temperature);
              x[1] += p.density * atTemperature(n, g, 2, pr.mats[m].temperature);
              for (auto const & row : n.rows[g]) {
                x[2] = std::max({x[2], p.density * row.v[4], p.density * row.v[2]});
              }
            }
          }
        }
      }
      out.back().push_back(x);
    }
  }
  return out;
}

//--------------------------------------------------------------------------------------------------
// One input with what must come out
//--------------------------------------------------------------------------------------------------

char const * const lib_path = "/sim/xs/mpact51g_71_v4.2m5_12062016_sph.fmt";

char const * const wrongs[] = {"nothing wrong",          "no material numbers",     "a group without flux",
                               "two kinds of faces",     "a material number beyond the materials",
                               "a material number of zero", "sources already present"};

struct Input {
  std::string path;
  int wrong = 0;
  MeshSpec mesh; // with the input's sets
  std::vector<double> s, f, scale;
};

Input
drawInput(Program const & pr, LibSpec const & lib, int index)
{
  Input in;
  Results q = drawResults(pick(4) == 3 ? 6 : 3);
  in.wrong = pick(4) == 3 ? 1 + static_cast<int>(pick(6)) : 0;
  auto const xs = macroscopic(pr, lib);
  size_t const ng = xs[0].size();
  size_t n = q.area.size();
  Rng r(pick(1U << 30));
  if (in.wrong == 3) {
    // one more face of another kind
    auto const c = q.mesh.conn[0];
    q.mesh.types.push_back(q.kind == 0 ? 9 : 5);
    if (q.kind == 0) {
      int const extra = static_cast<int>(q.mesh.verts.size());
      q.mesh.verts.push_back({50, 50, 0});
      q.mesh.conn.push_back({c[0], c[1], c[2], extra});
    } else {
      q.mesh.conn.push_back({c[0], c[1], c[2]});
    }
    ++n;
  }
  std::vector<double> mat(n);
  for (auto & m : mat) {
    m = 1 + r.below(static_cast<uint32_t>(pr.mats.size()));
  }
  if (in.wrong == 4) {
    mat[r.below(static_cast<uint32_t>(n))] = static_cast<double>(pr.mats.size() + 1 + r.below(3));
  } else if (in.wrong == 5) {
    mat[r.below(static_cast<uint32_t>(n))] = 0;
  }
  in.s.assign(n, 0);
  in.f.assign(n, 0);
  in.scale.assign(n, 0);
  std::vector<std::pair<std::string, std::vector<double>>> sets;
  size_t const absent = in.wrong == 2 ? r.below(static_cast<uint32_t>(ng)) : ng;
  for (size_t g = 0; g < ng; ++g) {
    std::vector<double> v(n);
    for (auto & x : v) {
      x = r.below(6) == 0 ? 0 : r.unit() * (g % 3 == 0 ? 10 : 0.1);
    }
    for (size_t i = 0; i < n; ++i) {
      size_t const m = std::min(static_cast<size_t>(std::max(mat[i], 1.0)), pr.mats.size()) - 1;
      in.s[i] += v[i] * xs[m][g][0];
      in.f[i] += v[i] * xs[m][g][1] / pr.k_eff;
      in.scale[i] += v[i] * xs[m][g][2];
    }
    if (g != absent) {
      sets.emplace_back(fmt("flux_%03zu", g + 1), v);
    }
  }
  if (in.wrong != 1) {
    sets.emplace_back("material", mat);
  }
  if (in.wrong == 6) {
    char const * const names[] = {"scattering_source", "fission_source", "total_source"};
    sets.emplace_back(names[r.below(3)], mat);
  }
  if (pick(2) != 0) {
    sets.emplace_back("power", mat);
  }
  for (size_t i = sets.size(); i > 1; --i) {
    std::swap(sets[i - 1], sets[r.below(static_cast<uint32_t>(i))]);
  }
  for (auto const & s : sets) {
    addData(q.mesh, s.first, s.second);
  }
  if (sets.empty()) {
    addData(q.mesh, "nothing", mat);
  }
  in.mesh = q.mesh;
  in.path = fmt("/sim/a/results%d", index) + (pick(2) == 0 ? ".vtk" : ".xdmf");
  if (!storeResults(q.mesh, in.path) && !violated()) {
    violate("T02:prepare", "storing the results failed");
  }
  return in;
}

// The output as it can be loaded; "" if it is what the input asks for.
std::string
checkOutput(Program const & pr, Input const & in)
{
  std::string const path = fmt("/sim/cwd/%s.xdmf", pr.output);
  auto const before = diskSnapshot();
  shm->scratch[0] = 0;
  Proc const p = process({}, [&] {
    quietLogger(1, true);
    um2::PolytopeSoup soup;
    step("load", [&] { soup.read(um2::String(path.c_str())); });
    MeshSpec want = in.mesh;
    static char const * const names[] = {"scattering_source", "fission_source", "total_source"};
    std::string d;
    for (int k = 0; k < 3 && d.empty(); ++k) {
      um2::Vector<Int> ids;
      um2::Vector<Float> data;
      soup.getElset(um2::String(names[k]), ids, data);
      ElsetSpec e;
      e.name = names[k];
      if (static_cast<size_t>(ids.size()) != in.s.size() || static_cast<size_t>(data.size()) != in.s.size()) {
        d = fmt("%s has %d ids and %d values for %zu faces", names[k], static_cast<int>(ids.size()),
                static_cast<int>(data.size()), in.s.size());
        break;
      }
      for (size_t i = 0; i < in.s.size(); ++i) {
        double const w = k == 0 ? in.s[i] : (k == 1 ? in.f[i] : in.s[i] + in.f[i]);
        double const have = data[static_cast<Int>(i)];
        if (!(std::abs(have - w) <= 1e-10 * (std::abs(w) + in.scale[i]))) {
          d = fmt("%s of face %zu is %.12g instead of %.12g", names[k], i, have, w);
          break;
        }
        e.ids.push_back(static_cast<int>(i));
        e.data.push_back(have);
      }
      want.elsets.push_back(e);
    }
    if (d.empty()) {
      d = compare(want, soup);
    }
    strncpy(reinterpret_cast<char *>(shm->scratch), d.c_str(), 400);
    reinterpret_cast<char *>(shm->scratch)[400] = 0;
  });
  diskRestore(before);
  if (!p.ok("load") || !p.success()) {
    return fmt("%s.xdmf cannot be loaded: %s", pr.output, lastWords(p).c_str());
  }
  return reinterpret_cast<char const *>(shm->scratch);
}

void
t02()
{
  static std::vector<Program> const programs = makePrograms();
  auto const & pr = programs[pick(4)];
  bool const lib_used = pr.groups == 0;
  drawFill();
  LibSpec lib;
  LibText lt;
  if (lib_used) {
    lib = drawLibFor(pr);
    lt = libText(lib, pick(1U << 30), lib.nuc.size(), false, false);
    diskWrite(lib_path, lt.text);
  }
  int const ninputs = range(1, 2);
  std::vector<Input> inputs;
  for (int i = 0; i < ninputs; ++i) {
    inputs.push_back(drawInput(pr, lib, i));
    if (violated()) {
      return;
    }
  }
  auto run = [&](Cfg const & cfg, std::string const & input, int args) {
    return process(cfg, [&] {
      std::string const name = pr.name;
      std::vector<std::string> words = {"./" + name, input, "more"};
      std::vector<char *> argv;
      for (int i = 0; i < args; ++i) {
        argv.push_back(words[static_cast<size_t>(i)].data());
      }
      argv.push_back(nullptr);
      int const code = pr.run(args, argv.data());
      exit(code);
    });
  };
  auto hung = [&](Proc const & p, std::string const & why) {
    if (violated()) {
      return true;
    }
    if (p.livelock) {
      violate("T02:hang", "%s %s did not finish", pr.name, why.c_str());
      return true;
    }
    return false;
  };
  auto const disk = diskSnapshot();
  std::vector<Proc> prof;
  for (auto const & in : inputs) {
    Proc const p = run({}, in.path, 2);
    if (hung(p, "without faults")) {
      return;
    }
    if (in.wrong == 0) {
      if (!p.success()) {
        violate("T02:rejected", "%s on proper results ended with status %d signal %d: %s", pr.name, p.code, p.sig,
                lastWords(p).c_str());
        return;
      }
      std::string const d = checkOutput(pr, in);
      if (violated()) {
        return;
      }
      if (!d.empty()) {
        violate("T02:output", "%s succeeded without faults, but %s", pr.name, d.c_str());
        return;
      }
    } else if (p.success()) {
      violate("T02:no-failure", "%s succeeded on results with %s", pr.name, wrongs[in.wrong]);
      return;
    }
    probe(in.wrong == 0 ? 4 : 5);
    prof.push_back(p);
  }
  nontrivial();
  probe(static_cast<int>(&pr - programs.data()));
  int const rounds = range(1, 4);
  for (int k = 0; k < rounds; ++k) {
    size_t const i = pick(static_cast<uint32_t>(inputs.size()));
    auto const & in = inputs[i];
    Cfg cfg = pick(3) != 0 ? drawBenign() : Cfg{};
    std::string why;
    std::string input = in.path;
    bool must_fail = in.wrong != 0;
    bool may_fail = must_fail;
    int args = 2;
    switch (pick(10)) {
    case 0:
      break;
    case 1:
      input = "/sim/a/missing.xdmf";
      why = "without its results file";
      must_fail = true;
      break;
    case 2:
      args = pick(2) == 0 ? 1 : 3;
      why = "with a wrong number of arguments";
      must_fail = true;
      break;
    case 3:
    case 4:
      drawReadFault(cfg, prof[i]);
      may_fail = true;
      break;
    case 5: {
      may_fail = true;
      bool const xdmf = input.compare(input.size() - 5, 5, ".xdmf") == 0;
      bool const cut_lib = lib_used && pick(2) != 0;
      if (!xdmf && !cut_lib) {
        drawReadFault(cfg, prof[i]);
        break;
      }
      std::string const target =
          cut_lib ? lib_path : (pick(3) == 0 ? input : input.substr(0, input.size() - 5) + ".h5");
      size_t const n = diskRead(target.c_str()).size();
      size_t const cut = pick(static_cast<uint32_t>(n));
      diskTruncate(target.c_str(), cut);
      why = fmt("after %s was cut to %zu bytes", target.c_str(), cut);
      must_fail = must_fail || (cut_lib && cut < lt.complete);
      break;
    }
    case 6:
      if (lib_used) {
        // a library without one of the nuclides
        std::vector<int> needed;
        for (auto const & m : pr.mats) {
          for (auto const & p : m.parts) {
            needed.push_back(p.zaid);
          }
        }
        LibSpec l2 = lib;
        int const z = oneOf(needed);
        l2.nuc.erase(std::remove_if(l2.nuc.begin(), l2.nuc.end(), [&](NucSpec const & n) { return n.zaid == z; }),
                     l2.nuc.end());
        if (pick(3) == 2) {
          diskRemove(lib_path);
          why = "without the library";
        } else if (!l2.nuc.empty()) {
          diskWrite(lib_path, libText(l2, 5, l2.nuc.size(), false, false).text);
          why = fmt("with a library without nuclide %d", z);
        }
        must_fail = true;
        probe(6);
      }
      break;
    case 7:
      drawCrash(cfg, prof[i]);
      may_fail = true;
      break;
    default:
      drawWriteFault(cfg, prof[i]);
      may_fail = true;
      break;
    }
    why += " under" + sim::describe(cfg);
    Proc const p = run(cfg, input, args);
    if (hung(p, why)) {
      return;
    }
    if (p.injected > 0) {
      probe(8);
    }
    if (p.crashed) {
      probe(7);
    }
    stateMix(static_cast<uint64_t>(p.code) * 8 + static_cast<uint64_t>(&pr - programs.data()));
    stateMix(std::hash<std::string>{}(why));
    if (p.success()) {
      probe(9);
      if (must_fail) {
        violate("T02:no-failure", "%s succeeded %s on results with %s", pr.name, why.c_str(), wrongs[in.wrong]);
        return;
      }
      std::string const d = checkOutput(pr, in);
      if (violated()) {
        return;
      }
      if (!d.empty()) {
        violate("T02:silent", "%s succeeded %s, but %s", pr.name, why.c_str(), d.c_str());
        return;
      }
    } else {
      probe(10);
      if (!may_fail && !must_fail) {
        violate("T02:split", "%s failed %s: %s", pr.name, why.c_str(), lastWords(p).c_str());
        return;
      }
    }
    // the outputs that were left behind stay, or go; the inputs are whole again
    auto const left = diskSnapshot();
    diskRestore(disk);
    if (pick(3) != 0) {
      for (size_t f = 0; f < left.files.size(); ++f) {
        if (strncmp(left.files[f].path, "/sim/cwd/", 9) == 0 && left.files[f].used != 0) {
          diskWrite(left.files[f].path, left.data[f]);
        }
      }
    }
  }
}
Register const rt2("T02", t02);

} // namespace
