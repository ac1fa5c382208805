// M01 - M04: saving and loading meshes.
#include "mesh_spec.hpp"
#include "mesh_text.hpp"
#include <cstring>
#include <um2/common/logger.hpp>

using namespace sim;

namespace
{

struct HistOp {
  int kind; // 0 save, 1 load, 2 load and save elsewhere
  int path;
  int path2;
  int mesh;
};

void
loadAndCompare(std::string const & path, MeshSpec const & want, char const * sig, char const * when)
{
  um2::PolytopeSoup s;
  int const st = step("load", [&] { s.read(um2::String(path.c_str())); });
  if (st != ST_OK) {
    violate(sig, "%s: loading %s (%s) failed: %s", when, path.c_str(), describe(want).c_str(),
            shm->steps[shm->nsteps - 1].what);
  }
  std::string const d = compare(want, s);
  if (!d.empty()) {
    violate(sig, "%s: loading %s gave something else than was saved (%s): %s", when, path.c_str(),
            describe(want).c_str(), d.c_str());
  }
}

// A simulated process that only loads must end by itself, whatever it says.
bool
endedBadly(Proc const & p, char const * id, char const * what)
{
  if (violated()) {
    return true;
  }
  if (p.livelock) {
    violate((std::string(id) + ":hang").c_str(), "%s did not finish (%s)", what,
            p.cpu ? "processor time used up" : "endless system calls");
    return true;
  }
  return false;
}

void
m01()
{
  int const npaths = range(1, 3);
  int const nmesh = range(1, 4);
  std::vector<std::string> const paths = drawPaths(npaths, ".xdmf");
  std::vector<MeshSpec> meshes;
  for (int i = 0; i < nmesh; ++i) {
    meshes.push_back(i > 0 && pick(3) == 2 ? drawVariation(meshes[pick(static_cast<uint32_t>(i))]) : drawMesh({}));
  }
  drawFill();
  int const nproc = range(1, 4);
  std::vector<int> state(static_cast<size_t>(npaths), -1);
  bool any = false;
  for (int p = 0; p < nproc; ++p) {
    int const nops = range(1, 5);
    std::vector<HistOp> ops;
    for (int k = 0; k < nops; ++k) {
      HistOp o{};
      o.kind = static_cast<int>(pick(4));
      o.path = static_cast<int>(pick(static_cast<uint32_t>(npaths)));
      o.path2 = static_cast<int>(pick(static_cast<uint32_t>(npaths)));
      o.mesh = static_cast<int>(pick(static_cast<uint32_t>(nmesh)));
      if (o.kind == 3) {
        o.kind = 0;
      }
      ops.push_back(o);
    }
    int const level = static_cast<int>(pick(5));
    bool const eoe = pick(2) == 0;
    Cfg const cfg = drawBenign();
    std::vector<int> after = state;
    std::vector<int> const before = state;
    for (auto const & o : ops) {
      if (o.kind == 0) {
        after[static_cast<size_t>(o.path)] = o.mesh;
      } else if (o.kind == 2 && after[static_cast<size_t>(o.path)] >= 0) {
        after[static_cast<size_t>(o.path2)] = after[static_cast<size_t>(o.path)];
      }
    }
    bool const last = p == nproc - 1;
    Proc const r = process(cfg, [&] {
      quietLogger(level, eoe);
      std::vector<int> cur = before;
      auto save = [&](um2::PolytopeSoup const & s, std::string const & path) {
        int const st = step("save", [&] { s.write(um2::String(path.c_str())); });
        if (st != ST_OK) {
          violate("M01:save-failed", "saving to %s failed although every operation of the system works:%s (%s)",
                  path.c_str(), shm->steps[shm->nsteps - 1].what, sim::describe(cfg).c_str());
        }
      };
      for (auto const & o : ops) {
        std::string const & path = paths[static_cast<size_t>(o.path)];
        int & c = cur[static_cast<size_t>(o.path)];
        if (o.kind == 0) {
          auto const s = build(meshes[static_cast<size_t>(o.mesh)]);
          save(s, path);
          c = o.mesh;
        } else if (c >= 0) {
          if (o.kind == 1) {
            loadAndCompare(path, meshes[static_cast<size_t>(c)], "M01:mismatch", "same history");
          } else {
            um2::PolytopeSoup s;
            step("load", [&] { s.read(um2::String(path.c_str())); });
            save(s, paths[static_cast<size_t>(o.path2)]);
            cur[static_cast<size_t>(o.path2)] = c;
            // a copy of a flattened mesh is flat; the comparison allows for that
          }
        }
      }
      if (last) {
        for (size_t i = 0; i < paths.size(); ++i) {
          if (cur[i] >= 0) {
            loadAndCompare(paths[i], meshes[static_cast<size_t>(cur[i])], "M01:mismatch", "end of history");
          }
        }
      }
    });
    if (endedBadly(r, "M01", "a history of saves and loads")) {
      return;
    }
    if (!r.success()) {
      violate("M01:died", "a process that saves and loads meshes ended with status %d signal %d: %s", r.code, r.sig,
              lastWords(r).c_str());
      return;
    }
    state = after;
  }
  // A last process finds everything.
  Cfg const cfg = drawBenign();
  Proc const r = process(cfg, [&] {
    quietLogger(1, true);
    for (size_t i = 0; i < paths.size(); ++i) {
      if (state[i] >= 0) {
        loadAndCompare(paths[i], meshes[static_cast<size_t>(state[i])], "M01:mismatch", "after restart");
      }
    }
  });
  for (int const s : state) {
    any = any || s >= 0;
    stateMix(static_cast<uint64_t>(s + 1));
  }
  stateMix(diskHash());
  if (endedBadly(r, "M01", "loading after a restart")) {
    return;
  }
  if (!r.success()) {
    violate("M01:died", "a process that loads saved meshes ended with status %d signal %d: %s", r.code, r.sig,
            lastWords(r).c_str());
    return;
  }
  if (any) {
    nontrivial();
  }
}
Register const r01("M01", m01);

//--------------------------------------------------------------------------------------------------
// M02: storage failures while saving
//--------------------------------------------------------------------------------------------------

void
m02()
{
  std::string const path = drawPaths(1, ".xdmf")[0];
  MeshOpts opts;
  opts.large = true;
  MeshSpec const mesh = drawMesh(opts);
  bool const over = pick(2) != 0;
  MeshSpec const old = over ? drawMesh({}) : MeshSpec{};
  int const level = 1 + static_cast<int>(pick(3));
  bool const eoe = pick(2) == 0;
  drawFill();
  if (over) {
    Proc const p = process({}, [&] {
      quietLogger(1, true);
      auto const s = build(old);
      step("save old", [&] { s.write(um2::String(path.c_str())); });
    });
    if (!p.ok("save old")) {
      violate("M02:fault-free", "saving without faults failed: %s", lastWords(p).c_str());
      return;
    }
  }
  auto const disk0 = diskSnapshot();
  auto save = [&](Cfg const & cfg, char const * name) {
    return process(cfg, [&] {
      quietLogger(level, eoe);
      auto const s = build(mesh);
      step(name, [&] { s.write(um2::String(path.c_str())); });
    });
  };
  auto check = [&](char const * sig, std::string const & why) {
    Proc const p = process({}, [&] {
      quietLogger(1, true);
      um2::PolytopeSoup s;
      int const st = step("load", [&] { s.read(um2::String(path.c_str())); });
      if (st != ST_OK) {
        violate(sig, "%s, but loading the files fails: %s", why.c_str(), shm->steps[shm->nsteps - 1].what);
      }
      std::string const d = compare(mesh, s);
      if (!d.empty()) {
        violate(sig, "%s, but the files hold something else: %s", why.c_str(), d.c_str());
      }
    });
    if (!violated() && !p.success()) {
      violate(sig, "%s, but loading the files ends with status %d signal %d: %s", why.c_str(), p.code, p.sig,
              lastWords(p).c_str());
    }
  };
  Proc const prof = save({}, "save (no faults)");
  if (!prof.ok("save (no faults)")) {
    violate("M02:fault-free", "saving without faults failed: %s", lastWords(prof).c_str());
    return;
  }
  int const rounds = range(1, 4);
  for (int k = 0; k < rounds; ++k) {
    diskRestore(disk0);
    Cfg cfg = pick(4) == 3 ? drawBenign() : Cfg{};
    drawWriteFault(cfg, prof);
    if (pick(4) == 3) {
      drawWriteFault(cfg, prof);
    }
    Proc const p = save(cfg, "save");
    if (endedBadly(p, "M02", "a save with failing storage")) {
      return;
    }
    if (p.injected > 0) {
      nontrivial();
    }
    bool const silent = p.ok("save"); // whatever happens when the program ends is too late
    stateMix(silent ? 1 : 2);
    stateMix(diskHash());
    if (silent) {
      probe(0);
      check("M02:silent-loss", "a save reported nothing under" + sim::describe(cfg));
    } else {
      probe(1);
      // (dying inside the HDF5 library after a failed flush is a failing exit as well)
      if (p.sig != 0) {
        probe(2);
      }
      // the fault is gone: a retry works
      if (!violated() && pick(3) == 0) {
        Proc const q = save({}, "save again");
        if (!violated() && !(q.ok("save again") && q.success())) {
          violate("M02:retry", "after%s, saving again without faults failed: %s", sim::describe(cfg).c_str(),
                  lastWords(q).c_str());
        }
        if (!violated()) {
          check("M02:retry", "a retried save reported nothing after" + sim::describe(cfg));
        }
      }
    }
    if (violated()) {
      return;
    }
  }
}
Register const r02("M02", m02);

//--------------------------------------------------------------------------------------------------
// M03: loads under read faults and truncation
//--------------------------------------------------------------------------------------------------

void
m03()
{
  uint32_t const format = pick(3); // 0 Abaqus, 1 VTK, 2 XDMF
  MeshOpts o;
  o.xdmf = format == 2;
  o.abaqus = format == 0;
  o.vtk = format == 1;
  o.data = format != 0;
  MeshSpec mesh = drawMesh(o);
  drawFill();
  char const * const ext[] = {".inp", ".vtk", ".xdmf"};
  auto const paths = drawPaths(2, ext[format]);
  std::string const & path = paths[0];
  std::string const & twin = paths[1]; // a copy, loaded in the same process after a load that failed
  std::vector<size_t> marks;
  std::vector<size_t> lastv;
  int big_set = -1;
  int64_t big = 0;
  bool representable = true; // the file's numbers can be held exactly
  TextStyle st;
  if (format == 0) {
    st = drawTextStyle(true);
    diskWrite(path.c_str(), abaqusText(mesh, st));
  } else if (format == 1) {
    st = drawTextStyle(true);
    // every data set covers all cells and has a one-word name
    for (size_t i = 0; i < mesh.elsets.size(); ++i) {
      auto & e = mesh.elsets[i];
      e.name = fmt("data%zu_", i) + std::string(1 + i * 9, static_cast<char>('a' + i));
      e.ids.clear();
      std::vector<double> d;
      for (size_t k = 0; k < mesh.types.size(); ++k) {
        e.ids.push_back(static_cast<int>(k));
        d.push_back(e.data.empty() ? static_cast<double>((k * 7 + i) % 23) : e.data[k % e.data.size()]);
      }
      e.data = d;
    }
    if (!mesh.elsets.empty() && pick(8) == 7) {
      // an integer that needs more digits than a floating-point number has
      big_set = static_cast<int>(pick(static_cast<uint32_t>(mesh.elsets.size())));
      int const bits = range(50, 61);
      int64_t const v = (1LL << bits) + static_cast<int64_t>(pick(64)) - 8;
      big = pick(2) != 0 ? -v : v;
      auto & d = mesh.elsets[static_cast<size_t>(big_set)].data;
      for (size_t k = 0; k < d.size(); ++k) {
        d[k] = static_cast<double>((k * 11) % 37);
      }
      d[0] = static_cast<double>(big);
      representable = static_cast<int64_t>(d[0]) == big;
      probe(4);
    }
    diskWrite(path.c_str(), vtkText(mesh, st, marks, lastv, big_set, big));
  } else {
    bool const indep = pick(2) != 0;
    XdmfStyle const xs = indep ? drawXdmfStyle() : XdmfStyle{};
    if (indep) {
      applyStyle(mesh, xs);
    }
    Proc const p = process({}, [&] {
      quietLogger(1, true);
      if (indep) {
        writeXdmfIndependently(path, mesh, xs);
        writeXdmfIndependently(twin, mesh, xs);
      } else {
        auto const s = build(mesh);
        step("save", [&] { s.write(um2::String(path.c_str())); });
        step("save", [&] { s.write(um2::String(twin.c_str())); });
      }
    });
    if (!p.success()) {
      violate("M03:prepare", "preparing an XDMF file failed");
      return;
    }
  }
  int const level = 1 + static_cast<int>(pick(3));
  bool const eoe = pick(2) == 0;
  bool const by_constructor = pick(3) == 2;
  if (format != 2) {
    diskWrite(twin.c_str(), diskRead(path.c_str()));
  }
  bool after = pick(2) != 0;
  // The load; an unreported result must match one of the expectations.
  auto load = [&](Cfg const & cfg, std::vector<MeshSpec> const & want, char const * sig, std::string const & why) {
    return process(cfg, [&] {
      quietLogger(level, eoe);
      um2::PolytopeSoup s;
      int const status = by_constructor ? step("load", [&] { s = um2::PolytopeSoup(um2::String(path.c_str())); })
                                        : step("load", [&] { s.read(um2::String(path.c_str())); });
      if (status == ST_OK) {
        std::string d = "an error must be reported";
        for (auto const & w : want) {
          d = compare(w, s);
          if (d.empty()) {
            return;
          }
        }
        violate(sig, "loading %s (%s) %s reported nothing but is not what the file says: %s", path.c_str(),
                describe(mesh).c_str(), why.c_str(), d.c_str());
      } else if (after) {
        um2::PolytopeSoup s2;
        int const st2 = step("after", [&] { s2.read(um2::String(twin.c_str())); });
        std::string const d = st2 == ST_OK ? compare(mesh, s2) : std::string("it fails");
        if (!d.empty()) {
          violate("M03:after", "loading %s reported an error, but then loading another file (%s) goes wrong: %s", why.c_str(),
                  describe(mesh).c_str(), d.c_str());
        }
      }
    });
  };
  Cfg const b = drawBenign();
  // Numbers that cannot be held exactly and over-long lines may be refused, but never misread.
  bool over_long = false;
  if (format != 2) {
    std::string const text = diskRead(path.c_str());
    size_t start = 0;
    for (size_t i = 0; i < text.size(); ++i) {
      if (text[i] == '\n') {
        over_long = over_long || i - start > 1000;
        start = i + 1;
      }
    }
  }
  bool const refusable = over_long || big_set >= 0;
  after = after && !refusable;
  std::vector<MeshSpec> whole;
  if (representable) {
    whole.push_back(mesh);
  }
  Proc const prof = load({}, whole, "M03:exact", "without faults");
  if (endedBadly(prof, "M03", "a load")) {
    return;
  }
  if (!refusable && !(prof.ok("load") && prof.success())) {
    violate("M03:rejected", "loading a proper file without faults failed (%s): %s", ext[format],
            lastWords(prof).c_str());
    return;
  }
  if (b.p_short != 0 || b.p_eintr != 0) {
    Proc const q = load(b, whole, "M03:exact", "with" + sim::describe(b));
    if (endedBadly(q, "M03", "a load")) {
      return;
    }
    if (!refusable && !(q.ok("load") && q.success())) {
      violate("M03:benign-rejected", "loading with short or interrupted reads failed: %s", lastWords(q).c_str());
      return;
    }
  }
  auto const disk0 = diskSnapshot();
  int const rounds = range(1, 4);
  for (int k = 0; k < rounds; ++k) {
    diskRestore(disk0);
    Cfg cfg = pick(4) == 3 ? drawBenign() : Cfg{};
    std::vector<MeshSpec> want = whole;
    std::string why;
    uint32_t const mode = pick(4);
    if (mode == 3 && format != 0) {
      // cut the file short
      std::string target = path;
      if (format == 2 && pick(3) != 0) {
        target = path.substr(0, path.size() - 5) + ".h5";
      }
      std::string const text = diskRead(target.c_str());
      size_t cut = 0;
      if (pick(2) == 0) {
        cut = pick(static_cast<uint32_t>(text.size()));
      } else {
        cut = text.size() - 1 - pick(static_cast<uint32_t>(std::min<size_t>(text.size(), 200)));
      }
      diskTruncate(target.c_str(), cut);
      nontrivial();
      probe(2);
      why = fmt("after %s was cut to %zu of %zu bytes", target.c_str(), cut, text.size());
      if (format == 1) {
        // What is left: the mesh if its cell types are complete, plus the complete data sets.
        want.clear();
        if (cut >= marks[0]) {
          MeshSpec w = mesh;
          w.elsets.clear();
          bool inside = false;
          for (size_t i = 0; i < mesh.elsets.size() && !inside; ++i) {
            if (cut >= marks[i + 1]) {
              w.elsets.push_back(mesh.elsets[i]);
            } else if (cut > lastv[i + 1]) {
              // the last number itself was cut
              w.elsets.push_back(mesh.elsets[i]);
              w.elsets.back().data.back() = strtod(text.substr(lastv[i + 1], cut - lastv[i + 1]).c_str(), nullptr);
              inside = true;
            } else {
              // inside (or just before) a data set: acceptable only if its size is not yet declared
              size_t const head = text.rfind("CELL_DATA", cut == 0 ? 0 : cut - 1);
              size_t const prev_end = marks[i];
              bool const declared = head != std::string::npos && head > prev_end && cut >= head + 10;
              if (declared) {
                w.types.clear(); // marks "no acceptable result"
              }
              inside = true;
            }
          }
          bool const has_big = big_set >= 0 && w.elsets.size() > static_cast<size_t>(big_set) &&
                               w.elsets[static_cast<size_t>(big_set)].data == mesh.elsets[static_cast<size_t>(big_set)].data;
          if (!w.types.empty() && (representable || !has_big)) {
            want.push_back(w);
          }
        }
      }
    } else {
      drawReadFault(cfg, prof);
      why = "under" + sim::describe(cfg);
    }
    Proc const p = load(cfg, want, "M03:silent-wrong", why);
    if (endedBadly(p, "M03", "a load")) {
      return;
    }
    if (p.injected > 0) {
      nontrivial();
      probe(3);
    }
    stateMix(static_cast<uint64_t>(p.code) + (p.ok("load") ? 100 : 0));
    stateMix(std::hash<std::string>{}(why + describe(mesh)));
    if (p.find("after") != nullptr) {
      probe(5);
      if (!p.ok("after")) {
        violate("M03:after", "loading %s reported an error, but then loading another file ends the program", why.c_str());
        return;
      }
    }
    if (p.ok("load")) {
      probe(0);
    } else {
      probe(1);
      if (p.sig != 0 && p.sig != 6) {
        violate("M03:signal", "a load %s died with signal %d", why.c_str(), p.sig);
        return;
      }
    }
  }
}
Register const r03("M03", m03);

//--------------------------------------------------------------------------------------------------
// M04: crash while saving
//--------------------------------------------------------------------------------------------------

void
m04()
{
  std::vector<std::string> const paths = drawPaths(2, ".xdmf");
  MeshSpec mesh = drawMesh({});
  bool const over = pick(4) != 0;
  MeshSpec old;
  MeshSpec const other = drawMesh({});
  if (over) {
    // much alike: the hardest mixtures to notice
    old = pick(3) != 0 ? drawVariation(mesh) : drawMesh({});
    if (pick(2) != 0) {
      std::swap(old, mesh);
    }
  }
  drawFill();
  Proc const p0 = process({}, [&] {
    quietLogger(1, true);
    step("save other", [&] { build(other).write(um2::String(paths[1].c_str())); });
    if (over) {
      step("save old", [&] { build(old).write(um2::String(paths[0].c_str())); });
    }
  });
  if (!p0.success()) {
    violate("M04:prepare", "saving without faults failed: %s", lastWords(p0).c_str());
    return;
  }
  auto const disk0 = diskSnapshot();
  std::string const other_h5 = diskRead((paths[1].substr(0, paths[1].size() - 5) + ".h5").c_str());
  auto save = [&](Cfg const & cfg) {
    return process(cfg, [&] {
      quietLogger(1, true);
      step("save new", [&] { build(mesh).write(um2::String(paths[0].c_str())); });
    });
  };
  Proc const prof = save({});
  if (!prof.success()) {
    violate("M04:prepare", "saving without faults failed: %s", lastWords(prof).c_str());
    return;
  }
  int const rounds = range(1, 5);
  for (int k = 0; k < rounds; ++k) {
    diskRestore(disk0);
    Cfg cfg = pick(4) == 3 ? drawBenign() : Cfg{};
    drawCrash(cfg, prof);
    Proc const p = save(cfg);
    if (endedBadly(p, "M04", "a save")) {
      return;
    }
    if (p.crashed) {
      nontrivial();
    }
    stateMix(diskHash());
    Proc const q = process({}, [&] {
      quietLogger(1, false);
      um2::PolytopeSoup s;
      int const st = step("load after crash", [&] { s.read(um2::String(paths[0].c_str())); });
      if (st == ST_OK) {
        std::string const dn = compare(mesh, s);
        if (dn.empty()) {
          probe(1);
          return;
        }
        if (over && compare(old, s).empty()) {
          probe(2);
          return;
        }
        violate("M04:mixture", "after%s, loading gives neither the new mesh (%s) nor the old one: %s",
                sim::describe(cfg).c_str(), describe(mesh).c_str(), dn.c_str());
      }
    });
    if (endedBadly(q, "M04", "a load after a crash")) {
      return;
    }
    if (!q.ok("load after crash")) {
      probe(0);
    }
    if (q.sig != 0 && q.sig != 6) {
      violate("M04:signal", "after%s, loading died with signal %d", sim::describe(cfg).c_str(), q.sig);
      return;
    }
    // the other mesh, and saving again
    Proc const q2 = process({}, [&] {
      quietLogger(1, true);
      loadAndCompare(paths[1], other, "M04:other", "after a crash while saving another mesh");
      step("save again", [&] { build(mesh).write(um2::String(paths[0].c_str())); });
      loadAndCompare(paths[0], mesh, "M04:again", "saved again after a crash");
    });
    if (!violated() && !q2.success()) {
      violate("M04:again", "after%s, using the files failed: %s", sim::describe(cfg).c_str(),
              lastWords(q2).c_str());
    }
    if (violated()) {
      return;
    }
  }
}
Register const r04("M04", m04);

} // namespace
