// P01 - P05: saving, loading and importing reactor models.
#include "extra_spec.hpp"
#include "mesh_text.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <map>
#include <um2/common/logger.hpp>

using namespace sim;

namespace
{

bool
badEnd(Proc const & p, char const * id, char const * what)
{
  if (violated()) {
    return true;
  }
  if (p.livelock) {
    violate((std::string(id) + ":hang").c_str(), "%s did not finish (%s)", what,
            p.cpu ? "processor time used up" : "endless system calls");
    return true;
  }
  return false;
}

void
loadModel(std::string const & path, ModelSpec const & want, char const * sig, char const * when)
{
  um2::mpact::Model m;
  int const st = step("load", [&] { m.read(um2::String(path.c_str())); });
  if (st != ST_OK) {
    violate(sig, "%s: loading %s (%s) failed: %s", when, path.c_str(), describe(want).c_str(),
            shm->steps[shm->nsteps - 1].what);
  }
  std::string const d = compare(want, m, true);
  if (!d.empty()) {
    violate(sig, "%s: loading %s gave something else than was saved (%s): %s", when, path.c_str(),
            describe(want).c_str(), d.c_str());
  }
}

std::string
companion(std::string const & path, char const * ext)
{
  return path.substr(0, path.size() - 5) + ext;
}

//--------------------------------------------------------------------------------------------------
// P01
//--------------------------------------------------------------------------------------------------

struct Op {
  int kind; // 0 save, 1 load, 2 load and save elsewhere
  int path, path2, model;
  bool knudsen, xsec;
};

void
p01()
{
  int const npaths = range(1, 2);
  int const nmodel = range(1, 3);
  std::vector<std::string> const paths = drawPaths(npaths, ".xdmf");
  std::vector<ModelSpec> models;
  for (int i = 0; i < nmodel; ++i) {
    ModelOpts o;
    o.small = i > 0;
    models.push_back(drawModel(o));
  }
  drawFill();
  int const nproc = range(1, 3);
  std::vector<int> state(static_cast<size_t>(npaths), -1);
  for (int p = 0; p < nproc; ++p) {
    int const nops = range(1, 4);
    std::vector<Op> ops;
    for (int k = 0; k < nops; ++k) {
      Op o{};
      o.kind = static_cast<int>(pick(4)) % 3;
      o.path = static_cast<int>(pick(static_cast<uint32_t>(npaths)));
      o.path2 = static_cast<int>(pick(static_cast<uint32_t>(npaths)));
      o.model = static_cast<int>(pick(static_cast<uint32_t>(nmodel)));
      uint32_t const fl = pick(4);
      o.knudsen = (fl & 1U) != 0;
      o.xsec = (fl & 2U) != 0;
      ops.push_back(o);
    }
    int const level = 1 + static_cast<int>(pick(4));
    bool const eoe = pick(2) == 0;
    Cfg const cfg = drawBenign();
    std::vector<int> after = state;
    std::vector<int> const before = state;
    for (auto const & o : ops) {
      if (o.kind == 0) {
        after[static_cast<size_t>(o.path)] = o.model;
      } else if (o.kind == 2 && after[static_cast<size_t>(o.path)] >= 0) {
        after[static_cast<size_t>(o.path2)] = after[static_cast<size_t>(o.path)];
      }
    }
    Proc const r = process(cfg, [&] {
      quietLogger(level, eoe);
      std::vector<int> cur = before;
      auto save = [&](um2::mpact::Model const & m, std::string const & path, bool k, bool x) {
        int const st = step("save", [&] { m.write(um2::String(path.c_str()), k, x); });
        if (st != ST_OK) {
          violate("P01:save-failed", "saving to %s failed although every operation of the system works: %s (%s)",
                  path.c_str(), shm->steps[shm->nsteps - 1].what, sim::describe(cfg).c_str());
        }
      };
      for (auto const & o : ops) {
        std::string const & path = paths[static_cast<size_t>(o.path)];
        int & c = cur[static_cast<size_t>(o.path)];
        if (o.kind == 0) {
          auto const & spec = models[static_cast<size_t>(o.model)];
          auto const m = build(spec);
          save(m, path, o.knudsen, o.xsec);
          // saving leaves the model in memory as it was
          std::string const d = compare(spec, m, false);
          if (!d.empty()) {
            violate("P01:memory", "the model in memory differs after saving: %s", d.c_str());
          }
          c = o.model;
        } else if (c >= 0) {
          auto const & spec = models[static_cast<size_t>(c)];
          if (o.kind == 1) {
            loadModel(path, spec, "P01:mismatch", "same history");
          } else {
            um2::mpact::Model m;
            step("load", [&] { m.read(um2::String(path.c_str())); });
            save(m, paths[static_cast<size_t>(o.path2)], false, false);
            cur[static_cast<size_t>(o.path2)] = c;
          }
        }
      }
    });
    if (badEnd(r, "P01", "a history of saves and loads")) {
      return;
    }
    if (!r.success()) {
      violate("P01:died", "a process that saves and loads models ended with status %d signal %d: %s", r.code, r.sig,
              lastWords(r).c_str());
      return;
    }
    state = after;
  }
  Cfg const cfg = drawBenign();
  bool any = false;
  Proc const r = process(cfg, [&] {
    quietLogger(1, true);
    for (size_t i = 0; i < paths.size(); ++i) {
      if (state[i] >= 0) {
        loadModel(paths[i], models[static_cast<size_t>(state[i])], "P01:mismatch", "after restart");
      }
    }
  });
  for (int const s : state) {
    any = any || s >= 0;
    stateMix(static_cast<uint64_t>(s + 1));
  }
  stateMix(diskHash());
  if (badEnd(r, "P01", "loading after a restart")) {
    return;
  }
  if (!r.success()) {
    violate("P01:died", "a process that loads saved models ended with status %d signal %d: %s", r.code, r.sig,
            lastWords(r).c_str());
    return;
  }
  if (any) {
    nontrivial();
  }
}
Register const r01("P01", p01);

//--------------------------------------------------------------------------------------------------
// P02
//--------------------------------------------------------------------------------------------------

char const * const companions[] = {".input", ".volumes", ".xs"};

void
p02()
{
  std::string const path = drawPaths(1, ".xdmf")[0];
  ModelOpts small;
  small.small = pick(4) != 3;
  ModelSpec const model = drawModel(small);
  bool const over = pick(2) != 0;
  ModelOpts tiny;
  tiny.small = true;
  ModelSpec const old = over ? drawModel(tiny) : ModelSpec{};
  uint32_t const flags = pick(4);
  int const level = 1 + static_cast<int>(pick(3));
  bool const eoe = pick(2) == 0;
  drawFill();
  if (over) {
    Proc const p = process({}, [&] {
      quietLogger(1, true);
      auto const m = build(old);
      step("save old", [&] { m.write(um2::String(path.c_str()), false, false); });
    });
    if (!p.ok("save old")) {
      violate("P02:fault-free", "saving without faults failed: %s", lastWords(p).c_str());
      return;
    }
  }
  auto const disk0 = diskSnapshot();
  auto save = [&](Cfg const & cfg, char const * name) {
    return process(cfg, [&] {
      quietLogger(level, eoe);
      auto const m = build(model);
      step(name, [&] { m.write(um2::String(path.c_str()), (flags & 1U) != 0, (flags & 2U) != 0); });
    });
  };
  Proc const prof = save({}, "save (no faults)");
  if (!prof.ok("save (no faults)")) {
    violate("P02:fault-free", "saving without faults failed: %s", lastWords(prof).c_str());
    return;
  }
  std::string good[3];
  for (size_t i = 0; i < 3; ++i) {
    good[i] = diskRead(companion(path, companions[i]).c_str());
  }
  auto check = [&](char const * sig, std::string const & why) {
    for (size_t i = 0; i < 3; ++i) {
      std::string const f = companion(path, companions[i]);
      std::string const got = diskRead(f.c_str());
      if (got != good[i]) {
        violate(sig, "%s, but %s has %zu bytes instead of %zu%s", why.c_str(), f.c_str(), got.size(), good[i].size(),
                got.size() == good[i].size() ? " (contents differ)" : "");
        return;
      }
    }
    Proc const p = process({}, [&] {
      quietLogger(1, true);
      um2::mpact::Model m;
      int const st = step("load", [&] { m.read(um2::String(path.c_str())); });
      if (st != ST_OK) {
        violate(sig, "%s, but loading the files fails: %s", why.c_str(), shm->steps[shm->nsteps - 1].what);
      }
      std::string const d = compare(model, m, true);
      if (!d.empty()) {
        violate(sig, "%s, but the files hold something else: %s", why.c_str(), d.c_str());
      }
      if (flags != 0) {
        std::string const e = checkStored(model, path, (flags & 1U) != 0, (flags & 2U) != 0);
        if (!e.empty()) {
          violate(sig, "%s, but %s", why.c_str(), e.c_str());
        }
      }
    });
    if (!violated() && !p.success()) {
      violate(sig, "%s, but loading the files ends with status %d signal %d: %s", why.c_str(), p.code, p.sig,
              lastWords(p).c_str());
    }
  };
  int const rounds = range(1, 4);
  for (int k = 0; k < rounds; ++k) {
    diskRestore(disk0);
    Cfg cfg = pick(4) == 3 ? drawBenign() : Cfg{};
    uint32_t const target = pick(6);
    if (target >= 3) {
      // aim at one of the companion files
      cfg.path[1] = companions[target - 3];
      switch (pick(4)) {
      case 0:
        cfg.add(OP_WRITE, F_EIO_WRITE, pick(3), pick(2), 1);
        break;
      case 1:
        cfg.add(OP_WRITE, F_ENOSPC_ONCE, pick(3), pick(1U << 16), 1);
        break;
      case 2:
        cfg.add(OP_WRITE, F_DISK_FULL, 0, pick(2000), 1);
        break;
      default:
        cfg.add(OP_CLOSE, F_CLOSE_LOSE, 0, pick(1U << 16), 1);
      }
    } else {
      drawWriteFault(cfg, prof);
    }
    if (pick(4) == 3) {
      drawWriteFault(cfg, prof);
    }
    Proc const p = save(cfg, "save");
    if (badEnd(p, "P02", "a save with failing storage")) {
      return;
    }
    if (p.injected > 0) {
      nontrivial();
    }
    bool const silent = p.ok("save"); // whatever happens when the program ends is too late
    stateMix(silent ? 1 : 2);
    stateMix(diskHash());
    if (silent) {
      probe(0);
      check("P02:silent-loss", "a save reported nothing under" + sim::describe(cfg));
    } else {
      probe(1);
      if (p.sig != 0) {
        probe(2);
      }
      if (!violated() && pick(3) == 0) {
        Proc const q = save({}, "save again");
        if (!violated() && !(q.ok("save again") && q.success())) {
          violate("P02:retry", "after%s, saving again without faults failed: %s", sim::describe(cfg).c_str(),
                  lastWords(q).c_str());
        }
        if (!violated()) {
          check("P02:retry", "a retried save reported nothing after" + sim::describe(cfg));
        }
      }
    }
    if (violated()) {
      return;
    }
  }
}
Register const r02("P02", p02);

//--------------------------------------------------------------------------------------------------
// P03
//--------------------------------------------------------------------------------------------------

void
p03()
{
  auto const paths = drawPaths(2, ".xdmf");
  std::string const path = paths[0];
  ModelOpts o;
  o.small = pick(4) != 3;
  ModelSpec const model = drawModel(o);
  ModelOpts tiny;
  tiny.small = true;
  uint32_t const before = pick(4); // 0 nothing, 1 other model, 2 other materials, 3 other size and axial divisions
  ModelSpec old = before == 1 ? drawModel(tiny) : model;
  if (before == 2) {
    for (auto & c : old.cells) {
      for (auto & x : c.mats) {
        x = static_cast<int>((static_cast<size_t>(x) + 1) % old.mats.size());
      }
    }
    for (auto & m : old.mats) {
      m.name += "x";
    }
  }
  if (before == 3) {
    for (auto & f : old.meshes) {
      f.w *= 2;
      f.h *= 2;
      for (auto & v : f.verts) {
        v[0] *= 2;
        v[1] *= 2;
      }
      for (auto & x : f.radii) {
        x *= 2;
      }
    }
    for (auto & a : old.asys) {
      for (auto & z : a.z) {
        z *= a.z[0] == 0 ? 2 : 1;
      }
    }
  }
  bool const keep = pick(2) != 0;
  ModelSpec const other = keep ? drawModel(tiny) : ModelSpec{};
  drawFill();
  // a load that failed is followed by another in the same process
  uint32_t const after = pick(3); // 1 of the same model elsewhere, 2 of another model
  ModelSpec const twin = after == 2 ? drawModel(tiny) : model;
  auto saveTo = [&](Cfg const & cfg, ModelSpec const & s, std::string const & where) {
    return process(cfg, [&] {
      quietLogger(1, true);
      auto const m = build(s);
      step("save", [&] { m.write(um2::String(where.c_str()), false, false); });
    });
  };
  auto save = [&](Cfg const & cfg, ModelSpec const & s) { return saveTo(cfg, s, path); };
  if (after != 0 && !saveTo({}, twin, paths[1]).success()) {
    violate("P03:prepare", "saving without faults failed");
    return;
  }
  if (before != 0) {
    Proc const p = save({}, old);
    if (!p.success()) {
      violate("P03:prepare", "saving without faults failed: %s", lastWords(p).c_str());
      return;
    }
  }
  auto const disk0 = diskSnapshot();
  Proc const prof_save = save({}, model);
  if (!prof_save.success()) {
    violate("P03:prepare", "saving without faults failed: %s", lastWords(prof_save).c_str());
    return;
  }
  auto const disk1 = diskSnapshot();
  auto load = [&](Cfg const & cfg, bool accept_old, std::string const & why) {
    return process(cfg, [&] {
      quietLogger(1, false);
      um2::mpact::Model first;
      if (keep) {
        first = build(other);
      }
      um2::mpact::Model m;
      int const st = step("load", [&] { m.read(um2::String(path.c_str())); });
      if (st == ST_OK) {
        std::string const d = compare(model, m, true);
        if (!d.empty() && !(accept_old && compare(old, m, true).empty())) {
          violate("P03:wrong", "%s, loading reported nothing but gives something else (%s): %s", why.c_str(),
                  describe(model).c_str(), d.c_str());
        }
      } else if (after != 0) {
        um2::mpact::Model m2;
        int const st2 = step("after", [&] { m2.read(um2::String(paths[1].c_str())); });
        std::string const d = st2 == ST_OK ? compare(twin, m2, true) : std::string("it fails");
        if (!d.empty()) {
          violate("P03:after", "%s, loading reported an error, but then loading another file (%s) goes wrong: %s", why.c_str(),
                  describe(twin).c_str(), d.c_str());
        }
      }
      if (keep) {
        std::string const d = compare(other, first, false);
        if (!d.empty()) {
          violate("P03:other", "%s, loading changed another model in memory: %s", why.c_str(), d.c_str());
        }
      }
    });
  };
  Proc const prof = load({}, false, "without faults");
  if (badEnd(prof, "P03", "a load")) {
    return;
  }
  if (!(prof.ok("load") && prof.success())) {
    violate("P03:rejected", "loading a saved model without faults failed: %s", lastWords(prof).c_str());
    return;
  }
  int const rounds = range(1, 4);
  for (int k = 0; k < rounds; ++k) {
    uint32_t const mode = pick(3);
    std::string why;
    Cfg cfg = pick(4) == 3 ? drawBenign() : Cfg{};
    bool accept_old = false;
    if (mode == 0) {
      // crash while saving
      diskRestore(disk0);
      Cfg crash;
      drawCrash(crash, prof_save);
      Proc const p = save(crash, model);
      if (badEnd(p, "P03", "a save")) {
        return;
      }
      if (p.crashed) {
        nontrivial();
        probe(0);
      }
      accept_old = before != 0;
      why = "after" + sim::describe(crash);
    } else if (mode == 1) {
      diskRestore(disk1);
      drawReadFault(cfg, prof);
      why = "under" + sim::describe(cfg);
    } else {
      diskRestore(disk1);
      std::string const target = pick(3) == 0 ? path : companion(path, ".h5");
      std::string const text = diskRead(target.c_str());
      size_t cut = 0;
      if (pick(2) == 0) {
        cut = pick(static_cast<uint32_t>(text.size()));
      } else {
        cut = text.size() - 1 - pick(static_cast<uint32_t>(std::min<size_t>(text.size(), 300)));
      }
      diskTruncate(target.c_str(), cut);
      nontrivial();
      probe(1);
      why = fmt("after %s was cut to %zu of %zu bytes", target.c_str(), cut, text.size());
    }
    Proc const q = load(cfg, accept_old, why);
    if (badEnd(q, "P03", "a load of damaged files")) {
      return;
    }
    if (q.injected > 0) {
      nontrivial();
      probe(2);
    }
    stateMix(static_cast<uint64_t>(q.code) + (q.ok("load") ? 100 : 0));
    stateMix(std::hash<std::string>{}(why));
    if (q.ok("load")) {
      probe(3);
    } else {
      probe(4);
    }
    if (q.find("after") != nullptr) {
      probe(5);
      if (!q.ok("after")) {
        violate("P03:after", "%s, loading reported an error, but then loading another file (%s) ends the program", why.c_str(),
                describe(twin).c_str());
        return;
      }
    }
    if (q.sig != 0 && q.sig != 6) {
      violate("P03:signal", "%s, loading died with signal %d", why.c_str(), q.sig);
      return;
    }
    if (mode == 0 && pick(3) == 0) {
      Proc const s = save({}, model);
      if (!violated() && !s.success()) {
        violate("P03:again", "%s, saving again failed: %s", why.c_str(), lastWords(s).c_str());
        return;
      }
      Proc const l = load({}, false, why + ", saved again");
      if (!violated() && !(l.ok("load") && l.success())) {
        violate("P03:again", "%s, saving again and loading failed: %s", why.c_str(), lastWords(l).c_str());
      }
    }
    if (violated()) {
      return;
    }
  }
}
Register const r03("P03", p03);

//--------------------------------------------------------------------------------------------------
// P04
//--------------------------------------------------------------------------------------------------

void
p04()
{
  std::string const path = drawPaths(1, ".xdmf")[0];
  int const n = range(1, 3);
  drawFill();
  uint32_t const junk = pick(4);
  for (size_t i = 0; i < 3; ++i) {
    if (junk == 1 || (junk == 2 && i == 1)) {
      std::string t;
      for (int k = 0; k < 300; ++k) {
        t += fmt("left over line %d from an earlier and much longer file\n", k);
      }
      diskWrite(companion(path, companions[i]).c_str(), t);
    }
  }
  for (int k = 0; k < n; ++k) {
    ModelOpts o;
    o.small = k > 0;
    ModelSpec const s = drawModel(o);
    uint32_t const flags = pick(4);
    Cfg const cfg = drawBenign();
    int const level = 1 + static_cast<int>(pick(4));
    Proc const p = process(cfg, [&] {
      quietLogger(level, true);
      auto const m = build(s);
      step("save", [&] { m.write(um2::String(path.c_str()), (flags & 1U) != 0, (flags & 2U) != 0); });
    });
    if (badEnd(p, "P04", "a save")) {
      return;
    }
    if (!p.ok("save") || !p.success()) {
      violate("P04:save-failed", "saving failed although every operation of the system works: %s",
              lastWords(p).c_str());
      return;
    }
    nontrivial();
    Proc const q = process({}, [&] {
      quietLogger(1, true);
      struct {
        char const * ext;
        char const * sig;
        std::string d;
      } c[] = {{".volumes", "P04:volumes", checkVolumes(s, diskRead(companion(path, ".volumes").c_str()))},
               {".xs", "P04:xs", checkXS(s, diskRead(companion(path, ".xs").c_str()))},
               {".input", "P04:input", checkInput(s, diskRead(companion(path, ".input").c_str()), path)}};
      for (auto const & x : c) {
        if (!x.d.empty()) {
          violate(x.sig, "after saving (%s): %s", describe(s).c_str(), x.d.c_str());
        }
      }
    });
    stateMix(diskHash());
    if (badEnd(q, "P04", "the comparison")) {
      return;
    }
    if (!q.success()) {
      violate("P04:died", "reading the companion files ended with status %d signal %d: %s", q.code, q.sig,
              lastWords(q).c_str());
      return;
    }
  }
}
Register const r04("P04", p04);

//--------------------------------------------------------------------------------------------------
// P05
//--------------------------------------------------------------------------------------------------

struct Import {
  std::vector<MatSpec> mats;
  std::vector<FvmSpec> meshes;               // one per cell
  std::vector<std::vector<int>> face_mats;   // per cell, by face
  MeshSpec file;
};

Import
drawImport(bool abaqus)
{
  Import im;
  int nc = range(1, 6);
  bool const many = nc == 6 && pick(8) == 7;
  if (many) {
    nc = range(7, 240);
  }
  uint32_t const nmsel = pick(8);
  int const nm = nmsel == 7 ? 12 : 1 + static_cast<int>(nmsel % 5);
  uint32_t const kinds = pick(15) + 1;
  uint32_t const order = pick(4);
  uint32_t const extra = pick(3);
  Rng r(pick(1U << 30));
  for (int i = 0; i < nm; ++i) {
    MatSpec m;
    // names that begin alike
    m.name = r.below(2) == 0 ? fmt("Fuel%d", i) : fmt("mat_%d%s", i, i % 3 == 0 ? "_Coarse_Cell_00000" : "");
    im.mats.push_back(m);
  }
  static int const vtk[] = {5, 9, 22, 23};
  double x0 = r.below(3) == 0 ? -3.75 : 0;
  double const y0 = r.below(3) == 0 ? 2.5 : 0;
  double const unit = 1;
  double const h = 1.26 * unit;
  std::map<std::pair<double, double>, int> at;
  struct El {
    int cell;
    int face;
    int type;
    std::vector<int> conn;
  };
  std::vector<El> els;
  for (int c = 0; c < nc; ++c) {
    FvmSpec f;
    do {
      f.kind = static_cast<int>(r.below(4));
    } while ((kinds >> f.kind & 1U) == 0);
    f.w = (r.below(2) == 0 ? 1.26 : 0.63) * unit;
    f.h = h;
    f.nx = 1 + static_cast<int>(r.below(many ? 2 : 4));
    f.ny = 1 + static_cast<int>(r.below(many ? 2 : 4));
    makeFaces(f, r);
    std::vector<int> ids;
    for (auto const & v : f.verts) {
      std::pair<double, double> const p(x0 + v[0], y0 + v[1]);
      auto it = at.find(p);
      if (it == at.end()) {
        it = at.emplace(p, static_cast<int>(im.file.verts.size())).first;
        im.file.verts.push_back({p.first, p.second, 0});
      }
      ids.push_back(it->second);
    }
    std::vector<int> fm;
    for (size_t k = 0; k < f.faces.size(); ++k) {
      fm.push_back(static_cast<int>(r.below(static_cast<uint32_t>(nm))));
      El e{c, static_cast<int>(k), vtk[f.kind], {}};
      for (int const v : f.faces[k]) {
        e.conn.push_back(ids[static_cast<size_t>(v)]);
      }
      els.push_back(e);
    }
    im.face_mats.push_back(fm);
    im.meshes.push_back(f);
    x0 += f.w;
  }
  if (order != 0) {
    for (size_t i = els.size(); i > 1; --i) {
      std::swap(els[i - 1], els[r.below(static_cast<uint32_t>(i))]);
    }
  }
  std::vector<ElsetSpec> sets;
  for (int c = 0; c < nc; ++c) {
    sets.push_back({fmt("Coarse_Cell_%05d", c), {}, {}});
  }
  for (auto const & m : im.mats) {
    sets.push_back({"Material_" + m.name, {}, {}});
  }
  for (size_t i = 0; i < els.size(); ++i) {
    auto const & e = els[i];
    im.file.types.push_back(e.type);
    im.file.conn.push_back(e.conn);
    sets[static_cast<size_t>(e.cell)].ids.push_back(static_cast<int>(i));
    sets[static_cast<size_t>(nc + im.face_mats[static_cast<size_t>(e.cell)][static_cast<size_t>(e.face)])].ids.push_back(
        static_cast<int>(i));
  }
  sets.erase(std::remove_if(sets.begin(), sets.end(), [](ElsetSpec const & e) { return e.ids.empty(); }), sets.end());
  if (extra != 0) {
    ElsetSpec e{extra == 1 ? "AllFaces" : "Zone_Material_x", {}, {}};
    for (size_t i = 0; i < els.size(); ++i) {
      if (extra == 1 || r.below(2) == 0) {
        e.ids.push_back(static_cast<int>(i));
      }
    }
    if (!e.ids.empty()) {
      sets.push_back(e);
    }
  }
  if (order >= 2) {
    for (size_t i = sets.size(); i > 1; --i) {
      std::swap(sets[i - 1], sets[r.below(static_cast<uint32_t>(i))]);
    }
  }
  (void)abaqus;
  im.file.elsets = sets;
  return im;
}

std::string
compareImport(Import const & im, um2::mpact::Model const & m)
{
  if (m.numCoarseCells() != static_cast<Int>(im.meshes.size())) {
    return fmt("%d cells instead of %zu", static_cast<int>(m.numCoarseCells()), im.meshes.size());
  }
  for (size_t c = 0; c < im.meshes.size(); ++c) {
    auto const & cc = m.getCoarseCell(static_cast<Int>(c));
    auto const & f = im.meshes[c];
    std::vector<std::array<double, 2>> v;
    std::vector<std::vector<int>> faces;
    if (!meshOfCell(m, static_cast<Int>(c), f.kind, v, faces)) {
      return fmt("cell %zu has the wrong mesh kind", c);
    }
    if (faces.size() != f.faces.size() || cc.material_ids.size() != static_cast<Int>(f.faces.size())) {
      return fmt("cell %zu: %zu faces and %d materials instead of %zu", c, faces.size(),
                 static_cast<int>(cc.material_ids.size()), f.faces.size());
    }
    if (v.size() != f.verts.size()) {
      return fmt("cell %zu: %zu vertices instead of %zu", c, v.size(), f.verts.size());
    }
    // match faces as sequences of points, in any order
    std::vector<char> used(faces.size(), 0);
    for (size_t k = 0; k < f.faces.size(); ++k) {
      auto const & w = f.faces[k];
      size_t const nc = f.kind >= 2 ? w.size() / 2 : w.size();
      bool found = false;
      for (size_t g = 0; g < faces.size() && !found; ++g) {
        if (used[g] != 0 || faces[g].size() != w.size()) {
          continue;
        }
        for (size_t rot = 0; rot < nc && !found; ++rot) {
          bool same = true;
          for (size_t i = 0; i < w.size() && same; ++i) {
            size_t const j = i < nc ? (i + rot) % nc : nc + (i - nc + rot) % nc;
            auto const & a = f.verts[static_cast<size_t>(w[i])];
            auto const & b = v[static_cast<size_t>(faces[g][j])];
            same = std::abs(a[0] - b[0]) < 1e-12 * (1 + f.h) && std::abs(a[1] - b[1]) < 1e-12 * (1 + f.h);
          }
          if (same) {
            found = true;
            used[g] = 1;
            int const got = cc.material_ids[static_cast<Int>(g)];
            if (got != im.face_mats[c][k]) {
              return fmt("cell %zu: a face has material %d instead of %d", c, got, im.face_mats[c][k]);
            }
          }
        }
      }
      if (!found) {
        return fmt("cell %zu: face %zu is missing or in the wrong place", c, k);
      }
    }
  }
  return "";
}

void
p05()
{
  bool const abaqus = pick(2) == 0;
  Import im = drawImport(abaqus);
  drawFill();
  std::string const path = drawPaths(1, abaqus ? ".inp" : ".xdmf")[0];
  TextStyle const st = abaqus ? drawTextStyle() : TextStyle{};
  bool const indep = !abaqus && pick(2) != 0;
  uint32_t const prior = pick(3); // meshes the model already has
  int const level = 1 + static_cast<int>(pick(3));
  bool const eoe = pick(2) == 0;
  auto putAt = [&](MeshSpec const & file, std::string const & where) {
    if (abaqus) {
      diskWrite(where.c_str(), abaqusText(file, st));
      return true;
    }
    Proc const p = process({}, [&] {
      quietLogger(1, true);
      if (indep) {
        XdmfStyle const xs{};
        writeXdmfIndependently(where, file, xs);
      } else {
        auto const s = build(file);
        step("save", [&] { s.write(um2::String(where.c_str())); });
      }
    });
    return p.success();
  };
  auto put = [&](MeshSpec const & file) { return putAt(file, path); };
  // an import that failed may be followed by another in the same process
  std::string const twin = drawPaths(2, abaqus ? ".inp" : ".xdmf")[1];
  bool const after = path != twin && pick(2) != 0;
  auto prepare = [&](um2::mpact::Model & m) {
    for (auto const & x : im.mats) {
      m.addMaterial(buildMaterial(x), false);
    }
    if (prior == 1) {
      m.addRectangularPinMesh(um2::Vec2F(2, 1), 2, 2);
    } else if (prior == 2) {
      FvmSpec f;
      f.kind = 3;
      f.how = 1;
      f.w = f.h = 1.26;
      f.radii = {0.4};
      f.rings = {1};
      addMeshTo(m, f);
      m.addRectangularPinMesh(um2::Vec2F(1, 1), 1, 1);
    }
    for (auto const & f : im.meshes) {
      m.addCoarseCell(um2::Vec2F(f.w, f.h));
    }
  };
  auto run = [&](Cfg const & cfg, bool must_fail, std::string const & why) {
    return process(cfg, [&] {
      quietLogger(level, eoe);
      um2::mpact::Model m;
      prepare(m);
      int const s = step("import", [&] { m.importCoarseCellMeshes(um2::String(path.c_str())); });
      if (s == ST_OK) {
        if (must_fail) {
          violate("P05:accepted", "importing %s although %s reported nothing", path.c_str(), why.c_str());
        }
        std::string const d = compareImport(im, m);
        if (!d.empty()) {
          violate("P05:wrong", "importing %s (%zu cells, %s) %s reported nothing but gives something else: %s", path.c_str(),
                  im.meshes.size(), describe(im.file).c_str(), why.c_str(), d.c_str());
        }
      } else if (after) {
        um2::mpact::Model m2;
        prepare(m2);
        int const s2 = step("after", [&] { m2.importCoarseCellMeshes(um2::String(twin.c_str())); });
        std::string const d = s2 == ST_OK ? compareImport(im, m2) : std::string("it fails");
        if (!d.empty()) {
          violate("P05:after", "importing %s reported an error, but then importing another file (%zu cells, %s) goes wrong: %s",
                  why.c_str(), im.meshes.size(), describe(im.file).c_str(), d.c_str());
        }
      }
    });
  };
  auto afterBad = [&](Proc const & p) {
    if (p.find("after") != nullptr) {
      probe(3);
      if (!p.ok("after")) {
        violate("P05:after", "an import after one that reported an error ends the program");
      }
    }
    return violated();
  };
  if (!put(im.file) || (after && !putAt(im.file, twin))) {
    violate("P05:prepare", "preparing the file failed");
    return;
  }
  Proc const prof = run({}, false, "without faults");
  if (badEnd(prof, "P05", "an import")) {
    return;
  }
  if (!(prof.ok("import") && prof.success())) {
    violate("P05:rejected", "importing a proper file (%zu cells, %s) failed: status %d signal %d %s", im.meshes.size(),
            describe(im.file).c_str(), prof.code, prof.sig, lastWords(prof).c_str());
    return;
  }
  nontrivial();
  stateMix(diskHash());
  int const rounds = range(1, 4);
  for (int k = 0; k < rounds; ++k) {
    uint32_t const mode = pick(3);
    Cfg cfg = pick(3) == 2 ? drawBenign() : Cfg{};
    if (mode == 2) {
      // damage the marking
      MeshSpec bad = im.file;
      uint32_t const how = pick(3);
      std::string why;
      std::vector<size_t> cs;
      std::vector<size_t> ms;
      for (size_t i = 0; i < bad.elsets.size(); ++i) {
        if (bad.elsets[i].name.rfind("Coarse_Cell_", 0) == 0) {
          cs.push_back(i);
        } else if (bad.elsets[i].name.rfind("Material_", 0) == 0) {
          ms.push_back(i);
        }
      }
      if (how == 0) {
        size_t const i = cs[pick(static_cast<uint32_t>(cs.size()))];
        why = bad.elsets[i].name + " is missing";
        bad.elsets.erase(bad.elsets.begin() + static_cast<long>(i));
      } else if (how == 1) {
        size_t const i = ms[pick(static_cast<uint32_t>(ms.size()))];
        auto & e = bad.elsets[i];
        size_t const j = pick(static_cast<uint32_t>(e.ids.size()));
        why = fmt("element %d has no material", e.ids[j]);
        e.ids.erase(e.ids.begin() + static_cast<long>(j));
        if (e.ids.empty()) {
          bad.elsets.erase(bad.elsets.begin() + static_cast<long>(i));
        }
      } else {
        size_t const i = ms[pick(static_cast<uint32_t>(ms.size()))];
        why = bad.elsets[i].name + " was renamed to a material the model does not have";
        bad.elsets[i].name += "q";
      }
      if (bad.elsets.empty() || !put(bad)) {
        continue;
      }
      probe(2);
      Proc const p = run(cfg, true, why);
      if (badEnd(p, "P05", "an import")) {
        return;
      }
      if (afterBad(p)) {
        return;
      }
      if (p.sig != 0 && p.sig != 6) {
        violate("P05:signal", "importing although %s died with signal %d", why.c_str(), p.sig);
        return;
      }
      put(im.file);
      continue;
    }
    if (mode == 1) {
      drawReadFault(cfg, prof);
    }
    Proc const p = run(cfg, false, "under" + sim::describe(cfg));
    if (badEnd(p, "P05", "an import")) {
      return;
    }
    stateMix(static_cast<uint64_t>(p.code) + (p.ok("import") ? 100 : 0));
    probe(p.ok("import") ? 0 : 1);
    if (afterBad(p)) {
      return;
    }
    if (p.sig != 0 && p.sig != 6) {
      violate("P05:signal", "importing under%s died with signal %d", sim::describe(cfg).c_str(), p.sig);
      return;
    }
    if (mode == 0 && !(p.ok("import") && p.success())) {
      violate("P05:benign-rejected", "importing with short or interrupted reads failed: %s", lastWords(p).c_str());
      return;
    }
  }
}
Register const r05("P05", p05);

} // namespace
