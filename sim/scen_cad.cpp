// G01: CAD models keep groups and colours; G02: group and colour files fail loudly.
#include "harness.hpp"
#include "mesh_spec.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <map>
#include <um2/common/logger.hpp>
#include <um2/gmsh/base_gmsh_api.hpp>
#include <um2/gmsh/io.hpp>

using namespace sim;

namespace
{

//--------------------------------------------------------------------------------------------------
// What a CAD model is made of
//--------------------------------------------------------------------------------------------------

struct Shape {
  int kind = 0; // rectangle, disk, box, cylinder
  double x = 0, y = 0, z = 0, sx = 1, sy = 1, sz = 1;
  int tag = -1;
};

struct CadSpec {
  std::vector<Shape> shapes;
  std::vector<size_t> removed;
  bool fragment = false;
  struct Group {
    std::string name;
    int dim = 2;
    uint32_t seed = 0, share = 1; // members drawn from the entities, share of 8
    int tag = -1;
  };
  std::vector<Group> groups;
  struct Paint {
    int r = 255, g = 0, b = 0, a = 255;
    uint32_t seed = 0, share = 1;
    bool recursive = false;
  };
  std::vector<Paint> paints;
};

CadSpec
drawCad()
{
  CadSpec s;
  bool const three = pick(3) == 2;
  int const n = pick(4) == 3 ? range(9, 20) : range(1, 6);
  Rng r(pick(1U << 30));
  bool const own_tags = pick(4) == 3;
  bool const overlap = pick(4) == 3;
  bool const mixed = three && pick(3) == 2;
  std::vector<int> tags;
  for (int i = 0; i < n; ++i) {
    tags.push_back(static_cast<int>(3 + 2 * i + static_cast<int>(r.below(2))));
  }
  for (size_t i = tags.size(); i > 1; --i) {
    std::swap(tags[i - 1], tags[r.below(static_cast<uint32_t>(i))]);
  }
  for (int i = 0; i < n; ++i) {
    Shape h;
    h.kind = static_cast<int>(r.below(2)) + (three && !(mixed && r.below(2) == 0) ? 2 : 0);
    h.x = (overlap ? 0.75 : 2.0) * i;
    h.y = overlap ? 0.25 * r.below(3) : 2.0 * r.below(4);
    h.z = 0;
    h.sx = 0.5 + 0.125 * r.below(5);
    h.sy = 0.5 + 0.125 * r.below(5);
    h.sz = 0.5 + 0.125 * r.below(5);
    h.tag = own_tags && (!three || h.kind >= 2) ? tags[static_cast<size_t>(i)] : -1;
    s.shapes.push_back(h);
  }
  s.fragment = overlap && n > 1;
  if (pick(4) == 3 && n > 1 && !s.fragment) {
    for (size_t i = 0; i + 1 < s.shapes.size(); ++i) {
      if (r.below(3) == 0) {
        s.removed.push_back(i);
      }
    }
  }
  static char const * const names[] = {"A",        "Material_UO2",   "Coarse_Cell_00001", "with space", "2 3 4",
                                       "Material", "PHYSICAL_GROUP", "ENTITY_COLORS 7",   "x\"y",       "Coarse_Cell_00002"};
  int const ng = pick(5) == 4 ? range(7, 20) : range(0, 4);
  for (int i = 0; i < ng; ++i) {
    CadSpec::Group g;
    g.name = i < 10 ? names[pick(10)] : "group";
    for (auto const & o : s.groups) {
      if (o.name == g.name) {
        g.name += fmt("_%d", i);
      }
    }
    g.dim = three ? 3 : 2;
    if (pick(3) == 2) {
      g.dim = static_cast<int>(pick(three ? 4 : 3));
    }
    g.seed = pick(1U << 16);
    g.share = 1 + pick(8);
    if (pick(5) == 4) {
      g.tag = 100 - i;
    }
    s.groups.push_back(g);
  }
  int const nc = pick(5) == 4 ? range(5, 12) : range(0, 3);
  for (int i = 0; i < nc; ++i) {
    CadSpec::Paint p;
    p.seed = pick(1U << 16);
    p.share = 1 + pick(8);
    p.recursive = pick(2) != 0;
    Rng c(pick(1U << 16));
    p.r = static_cast<int>(c.below(256));
    p.g = static_cast<int>(c.below(256));
    p.b = static_cast<int>(c.below(256));
    p.a = c.below(2) == 0 ? 255 : static_cast<int>(c.below(256));
    if (c.below(3) == 0) {
      // colours much like the one that means "no colour" (0 0 255 0)
      static int const like[6][4] = {{0, 0, 255, 255}, {0, 0, 255, 1}, {0, 0, 254, 0}, {1, 0, 255, 0}, {0, 1, 255, 0}, {255, 0, 0, 0}};
      auto const & q = like[c.below(6)];
      p.r = q[0];
      p.g = q[1];
      p.b = q[2];
      p.a = q[3];
    }
    s.paints.push_back(p);
  }
  return s;
}

void
buildCad(CadSpec const & s)
{
  namespace gm = um2::gmsh;
  gm::vectorpair made;
  for (auto const & h : s.shapes) {
    int tag = 0;
    switch (h.kind) {
    case 0:
      tag = gm::model::occ::addRectangle(h.x, h.y, h.z, h.sx, h.sy, h.tag);
      break;
    case 1:
      tag = gm::model::occ::addDisk(h.x, h.y, h.z, h.sx, h.sx, h.tag);
      break;
    case 2:
      tag = gm::model::occ::addBox(h.x, h.y, h.z, h.sx, h.sy, h.sz, h.tag);
      break;
    default:
      tag = gm::model::occ::addCylinder(h.x, h.y, h.z, 0, 0, h.sz, h.sx, h.tag);
      break;
    }
    made.emplace_back(h.kind < 2 ? 2 : 3, tag);
  }
  for (size_t const i : s.removed) {
    gm::model::occ::remove({made[i]}, true);
  }
  if (s.fragment) {
    gm::vectorpair out;
    std::vector<gm::vectorpair> map;
    gm::model::occ::fragment({made[0]}, gm::vectorpair(made.begin() + 1, made.end()), out, map);
  }
  gm::model::occ::synchronize();
  for (auto const & g : s.groups) {
    gm::vectorpair ents;
    gm::model::getEntities(ents, g.dim);
    if (ents.empty()) {
      continue;
    }
    Rng r(g.seed);
    std::vector<int> tags;
    for (auto const & e : ents) {
      if (r.below(8) < g.share) {
        tags.push_back(e.second);
      }
    }
    if (tags.empty()) {
      tags.push_back(ents.back().second);
    }
    gm::model::addPhysicalGroup(g.dim, tags, g.tag, g.name);
  }
  for (auto const & p : s.paints) {
    gm::vectorpair ents;
    gm::model::getEntities(ents);
    Rng r(p.seed);
    gm::vectorpair some;
    for (auto const & e : ents) {
      if (e.first >= 2 && r.below(8) < p.share) {
        some.push_back(e);
      }
    }
    if (!some.empty()) {
      gm::model::setColor(some, p.r, p.g, p.b, p.a, p.recursive);
    }
  }
}

//--------------------------------------------------------------------------------------------------
// What a process sees of a CAD model
//--------------------------------------------------------------------------------------------------

struct Seen {
  struct Entity {
    int dim = 0, tag = 0;
    double box[6] = {};
    double mass = 0;
    int rgba[4] = {};
  };
  std::vector<Entity> ents;
  struct Group {
    int dim = 0;
    std::string name;
    std::vector<int> tags;
  };
  std::vector<Group> groups;
};

Seen
look()
{
  namespace gm = um2::gmsh;
  Seen s;
  gm::vectorpair ents;
  gm::model::getEntities(ents);
  for (auto const & e : ents) {
    Seen::Entity x;
    x.dim = e.first;
    x.tag = e.second;
    gm::model::getBoundingBox(e.first, e.second, x.box[0], x.box[1], x.box[2], x.box[3], x.box[4], x.box[5]);
    if (x.dim > 0) {
      gm::model::occ::getMass(e.first, e.second, x.mass);
    }
    gm::model::getColor(e.first, e.second, x.rgba[0], x.rgba[1], x.rgba[2], x.rgba[3]);
    s.ents.push_back(x);
  }
  gm::vectorpair groups;
  gm::model::getPhysicalGroups(groups);
  for (auto const & g : groups) {
    Seen::Group x;
    x.dim = g.first;
    gm::model::getPhysicalName(g.first, g.second, x.name);
    gm::model::getEntitiesForPhysicalGroup(g.first, g.second, x.tags);
    s.groups.push_back(x);
  }
  return s;
}

// The scratch area carries what a process saw.
void
put(Seen const & s)
{
  std::string o;
  auto raw = [&](void const * p, size_t n) { o.append(static_cast<char const *>(p), n); };
  auto num = [&](uint64_t v) { raw(&v, 8); };
  num(s.ents.size());
  for (auto const & e : s.ents) {
    raw(&e, sizeof e);
  }
  num(s.groups.size());
  for (auto const & g : s.groups) {
    num(static_cast<uint64_t>(g.dim));
    num(g.name.size());
    o += g.name;
    num(g.tags.size());
    raw(g.tags.data(), g.tags.size() * sizeof(int));
  }
  if (o.size() > sizeof(shm->scratch)) {
    violate("harness", "CAD model too large");
  }
  memcpy(shm->scratch, o.data(), o.size());
}

Seen
get()
{
  Seen s;
  char const * p = shm->scratch;
  auto raw = [&](void * to, size_t n) {
    memcpy(to, p, n);
    p += n;
  };
  auto num = [&] {
    uint64_t v = 0;
    raw(&v, 8);
    return v;
  };
  s.ents.resize(num());
  for (auto & e : s.ents) {
    raw(&e, sizeof e);
  }
  s.groups.resize(num());
  for (auto & g : s.groups) {
    g.dim = static_cast<int>(num());
    g.name.resize(num());
    raw(g.name.data(), g.name.size());
    g.tags.resize(num());
    raw(g.tags.data(), g.tags.size() * sizeof(int));
  }
  return s;
}

// Opening a file numbers the entities of each dimension anew from 1, and the group and colour file
// relies on that order being the order of the saved tags.  Where gmsh numbers them differently,
// `renumbered` is set and groups and colours are compared by number (see known_findings.txt).
std::string
compareSeen(Seen const & want, Seen const & got, bool * renumbered)
{
  if (want.ents.size() != got.ents.size()) {
    return fmt("%zu entities instead of %zu", got.ents.size(), want.ents.size());
  }
  std::map<std::pair<int, int>, size_t> there; // (dim, tag) in the opened model -> the same saved entity
  std::map<std::pair<int, int>, size_t> ranked; // (dim, tag) in the opened model -> saved entity of that rank
  std::vector<int> tags[4];
  for (auto const & w : want.ents) {
    tags[w.dim].push_back(w.tag);
  }
  for (auto & t : tags) {
    std::sort(t.begin(), t.end());
  }
  for (size_t i = 0; i < want.ents.size(); ++i) {
    auto const & t = tags[want.ents[i].dim];
    ranked[{want.ents[i].dim,
            static_cast<int>(std::lower_bound(t.begin(), t.end(), want.ents[i].tag) - t.begin()) + 1}] = i;
  }
  bool other_order[4] = {};
  std::vector<bool> used(want.ents.size(), false);
  auto same = [&](Seen::Entity const & w, Seen::Entity const & g) {
    bool r = w.dim == g.dim && std::abs(w.mass - g.mass) < 1e-5;
    for (int k = 0; k < 6 && r; ++k) {
      r = std::abs(w.box[k] - g.box[k]) < 1e-5;
    }
    return r;
  };
  for (auto const & g : got.ents) {
    auto const it = ranked.find({g.dim, g.tag});
    size_t found = want.ents.size();
    if (it != ranked.end() && !used[it->second] && same(want.ents[it->second], g)) {
      found = it->second;
    } else {
      other_order[g.dim] = true;
      for (size_t i = 0; i < want.ents.size() && found == want.ents.size(); ++i) {
        if (!used[i] && same(want.ents[i], g)) {
          found = i;
        }
      }
    }
    if (found == want.ents.size()) {
      return fmt("an entity of dimension %d at %g %g %g that was not saved", g.dim, g.box[0], g.box[1], g.box[2]);
    }
    used[found] = true;
    there[{g.dim, g.tag}] = found;
  }
  for (auto const & g : got.ents) {
    auto const wrong = [&](size_t i) { return memcmp(want.ents[i].rgba, g.rgba, sizeof g.rgba) != 0; };
    if (g.dim < 2 || !wrong(there[{g.dim, g.tag}])) {
      continue;
    }
    if (other_order[g.dim] && !wrong(ranked[{g.dim, g.tag}])) {
      *renumbered = true;
      continue;
    }
    auto const & w = want.ents[there[{g.dim, g.tag}]];
    return fmt("entity of dimension %d, tag %d (saved as %d) has colour %d %d %d %d instead of %d %d %d %d", g.dim,
               g.tag, w.tag, g.rgba[0], g.rgba[1], g.rgba[2], g.rgba[3], w.rgba[0], w.rgba[1], w.rgba[2], w.rgba[3]);
  }
  if (want.groups.size() != got.groups.size()) {
    return fmt("%zu groups instead of %zu", got.groups.size(), want.groups.size());
  }
  for (auto const & w : want.groups) {
    bool found = false;
    for (auto const & g : got.groups) {
      if (g.name != w.name || g.dim != w.dim) {
        continue;
      }
      found = true;
      std::vector<int> mine = w.tags;
      std::sort(mine.begin(), mine.end());
      auto members = [&](std::map<std::pair<int, int>, size_t> const & map) {
        std::vector<int> v;
        for (int const t : g.tags) {
          auto const it = map.find({g.dim, t});
          v.push_back(it == map.end() ? -1 : want.ents[it->second].tag);
        }
        std::sort(v.begin(), v.end());
        return v;
      };
      if (members(there) == mine) {
        continue;
      }
      if (other_order[g.dim] && members(ranked) == mine) {
        *renumbered = true;
        continue;
      }
      return fmt("group \"%s\" of dimension %d with %zu members has other members than the %zu saved ones",
                 w.name.c_str(), w.dim, g.tags.size(), mine.size());
    }
    if (!found) {
      return fmt("group \"%s\" of dimension %d is missing", w.name.c_str(), w.dim);
    }
  }
  return "";
}

std::string
describeCad(CadSpec const & s)
{
  return fmt("%zu shapes%s%s%s, %zu groups, %zu colours", s.shapes.size(), s.fragment ? " fragmented" : "",
             s.removed.empty() ? "" : " some removed", s.shapes[0].tag > 0 ? " with given tags" : "", s.groups.size(),
             s.paints.size());
}

struct Saved {
  Proc proc;
  Seen seen;
};

Saved
save(CadSpec const & s, std::string const & path, Cfg const & cfg, int level = 1, bool eoe = true)
{
  Saved r;
  r.proc = process(cfg, [&] {
    quietLogger(level, eoe);
    um2::gmsh::initialize();
    buildCad(s);
    put(look());
    step("save", [&] { um2::gmsh::write(path, true); });
    um2::gmsh::finalize();
  });
  r.seen = get();
  return r;
}

Saved
openCad(std::string const & path, Cfg const & cfg, int level = 1, bool eoe = true)
{
  Saved r;
  r.proc = process(cfg, [&] {
    quietLogger(level, eoe);
    um2::gmsh::initialize();
    int const st = step("open", [&] { um2::gmsh::open(path, true); });
    if (st == ST_OK) {
      put(look());
    }
    um2::gmsh::finalize();
  });
  if (r.proc.ok("open")) {
    r.seen = get();
  }
  return r;
}

bool
badProc(char const * id, Proc const & p, char const * what)
{
  if (violated()) {
    return true;
  }
  if (p.livelock) {
    violate(fmt("%s:hang", id).c_str(), "%s did not finish", what);
    return true;
  }
  return false;
}

//--------------------------------------------------------------------------------------------------
// G01
//--------------------------------------------------------------------------------------------------

void
g01()
{
  std::vector<std::string> const paths = {"/sim/a/core.brep", "/sim/cwd/v1.2.brep", "/sim/a/other.brep"};
  std::map<std::string, Seen> saved;
  bool renumbered = false;
  int const n = range(1, 3);
  for (int i = 0; i < n; ++i) {
    CadSpec const s = drawCad();
    std::string const path = oneOf(paths);
    Saved const a = save(s, path, pick(2) != 0 ? drawBenign() : Cfg{});
    if (badProc("G01", a.proc, "saving a CAD model")) {
      return;
    }
    if (!a.proc.ok("save") || !a.proc.success()) {
      violate("G01:save", "saving a CAD model (%s) failed: %s", describeCad(s).c_str(), lastWords(a.proc).c_str());
      return;
    }
    saved[path] = a.seen;
    for (auto const & [p, want] : saved) {
      if (p != path && pick(2) == 0) {
        continue;
      }
      Saved const b = openCad(p, pick(2) != 0 ? drawBenign() : Cfg{});
      if (badProc("G01", b.proc, "opening a CAD model")) {
        return;
      }
      if (!b.proc.ok("open") || !b.proc.success()) {
        violate("G01:open", "opening a saved CAD model (%s) failed: %s", describeCad(s).c_str(),
                lastWords(b.proc).c_str());
        return;
      }
      std::string const d = compareSeen(want, b.seen, &renumbered);
      if (!d.empty()) {
        violate("G01:differs", "an opened CAD model (%s) differs: %s", describeCad(s).c_str(), d.c_str());
        return;
      }
      nontrivial();
    }
    probe(a.seen.groups.empty() ? 0 : 1);
    probe(s.paints.empty() ? 2 : 3);
    stateMix(a.seen.ents.size() * 64 + a.seen.groups.size());
  }
  if (renumbered) {
    violate("G01:renumbered", "groups or colours of points, curves or surfaces moved to other entities because opening "
                              "the file numbered the entities in another order than they were saved in");
  }
}
Register const rg1("G01", g01);

//--------------------------------------------------------------------------------------------------
// G02
//--------------------------------------------------------------------------------------------------

void
g02()
{
  std::string const path = pick(2) == 0 ? "/sim/a/core.brep" : "/sim/cwd/v1.2.brep";
  std::string const info = path.substr(0, path.size() - 5) + ".info";
  CadSpec s = drawCad();
  if (pick(4) == 3) {
    // enough groups to fill the stream buffer
    int const n = range(20, 120);
    for (int i = 0; i < n; ++i) {
      CadSpec::Group g;
      g.name = fmt("Coarse_Cell_with_a_rather_long_name_that_fills_the_buffer_%05d", i);
      g.dim = s.groups.empty() ? 2 : s.groups[0].dim;
      g.seed = static_cast<uint32_t>(i);
      s.groups.push_back(g);
    }
  }
  bool renumbered = false;
  int const level = 1 + static_cast<int>(pick(4));
  bool const eoe = pick(2) == 0;
  drawFill();
  if (pick(2) == 0) {
    // an earlier model in the same place
    CadSpec const t = drawCad();
    Saved const a = save(t, path, {});
    if (badProc("G02", a.proc, "saving a CAD model")) {
      return;
    }
  }
  auto const before = diskSnapshot();
  Saved const prof = save(s, path, {}, level, eoe);
  if (badProc("G02", prof.proc, "saving a CAD model")) {
    return;
  }
  if (!prof.proc.ok("save") || !prof.proc.success()) {
    violate("G02:save", "saving a CAD model (%s) failed: %s", describeCad(s).c_str(), lastWords(prof.proc).c_str());
    return;
  }
  auto const whole = diskSnapshot();
  std::string const text = diskRead(info.c_str());
  Saved const rprof = openCad(path, {}, level, eoe);
  if (badProc("G02", rprof.proc, "opening a CAD model")) {
    return;
  }
  std::string d = rprof.proc.ok("open") ? compareSeen(prof.seen, rprof.seen, &renumbered) : "not opened";
  if (!d.empty()) {
    violate("G02:open", "a CAD model saved without faults (%s) came back wrong: %s", describeCad(s).c_str(), d.c_str());
    return;
  }
  int const rounds = range(1, 4);
  for (int k = 0; k < rounds; ++k) {
    Cfg cfg = pick(3) == 0 ? drawBenign() : Cfg{};
    cfg.path[1] = info;
    if (pick(2) == 0) {
      // a failing save
      diskRestore(before);
      uint32_t const nwrites = static_cast<uint32_t>(text.size() / 4096 + 2);
      switch (pick(6)) {
      case 0:
        cfg.add(OP_WRITE, F_EIO_WRITE, pick(nwrites), pick(2), 1);
        break;
      case 1:
        cfg.add(OP_WRITE, F_DISK_FULL, pick(nwrites), pick(2) * pick(6000), 1);
        break;
      case 2:
        cfg.add(OP_WRITE, F_ENOSPC_ONCE, pick(nwrites), pick(1U << 16), 1);
        break;
      case 3:
        cfg.add(OP_OPEN, F_OPEN_FAIL, 0, pick(5), 1);
        break;
      case 4:
        // if it is put in place under its name afterwards
        cfg.add(OP_NAME, F_META_FAIL, 0, 0, 1);
        break;
      default:
        cfg.add(OP_CLOSE, F_CLOSE_LOSE, 0, pick(1U << 16), 1);
        break;
      }
      Saved const a = save(s, path, cfg, level, eoe);
      if (badProc("G02", a.proc, "saving a CAD model")) {
        return;
      }
      if (a.proc.injected > 0) {
        nontrivial();
        probe(0);
      }
      stateMix(static_cast<uint64_t>(a.proc.code) + 2);
      if (a.proc.ok("save")) {
        std::string const now = diskExists(info.c_str()) ? diskRead(info.c_str()) : "";
        if (now != text) {
          violate("G02:silent-write", "saving a CAD model (%s) under%s reported nothing, but its group and colour file has "
                                      "%zu bytes instead of %zu or others",
                  describeCad(s).c_str(), sim::describe(cfg).c_str(), now.size(), text.size());
          return;
        }
        probe(1);
      }
      continue;
    }
    // a failing open
    diskRestore(whole);
    bool must_fail = false;
    std::string why;
    switch (pick(5)) {
    case 0:
      diskRemove(info.c_str());
      why = "without its group and colour file";
      must_fail = true;
      break;
    case 1:
      cfg.add(OP_OPEN, F_OPEN_FAIL, 0, pick(5), 1);
      break;
    case 2:
      cfg.add(OP_READ, F_EIO_READ, pick(static_cast<uint32_t>(text.size() / 4096 + 2)), 0, 1);
      break;
    default: {
      size_t const cut = pick(2) == 0 ? text.size() - 1 - pick(static_cast<uint32_t>(std::min<size_t>(12, text.size() - 1)))
                                      : pick(static_cast<uint32_t>(text.size()));
      diskTruncate(info.c_str(), cut);
      why = fmt("with its group and colour file cut to %zu of %zu bytes", cut, text.size());
      nontrivial();
      probe(2);
      break;
    }
    }
    why += " under" + sim::describe(cfg);
    Saved const b = openCad(path, cfg, level, eoe);
    if (badProc("G02", b.proc, "opening a CAD model")) {
      return;
    }
    if (b.proc.injected > 0) {
      nontrivial();
      probe(3);
    }
    stateMix(static_cast<uint64_t>(b.proc.code) + 20);
    if (b.proc.ok("open") && b.proc.success()) {
      probe(4);
      d = compareSeen(prof.seen, b.seen, &renumbered);
      if (must_fail) {
        d = "no error was reported";
      }
      if (!d.empty()) {
        violate("G02:silent-read", "opening a CAD model (%s) %s reported nothing: %s", describeCad(s).c_str(), why.c_str(),
                d.c_str());
        return;
      }
    }
  }
}
Register const rg2("G02", g02);

} // namespace
