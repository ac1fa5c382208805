// P06: the data stored with a model for every place of the core, and the flat mesh of a model.
#include "extra_spec.hpp"
#include <cstring>

using namespace sim;

namespace
{

struct Save {
  size_t model = 0;
  bool knudsen = false, xsec = false;
  bool flat = false; // the flat mesh is saved, too
  bool first = false; // ... before the model
};

std::string
describeSave(Save const & s)
{
  return fmt("%s%s%s", s.knudsen ? " with chord lengths" : "", s.xsec ? " with cross sections" : "",
             s.flat ? " and as a flat mesh" : "");
}

void
p06()
{
  auto const paths = drawPaths(2, ".xdmf");
  std::vector<ModelSpec> models;
  int const n = range(1, 2);
  for (int i = 0; i < n; ++i) {
    ModelOpts o;
    o.small = pick(5) != 4;
    models.push_back(drawModel(o));
  }
  drawFill();
  int const level = 1 + static_cast<int>(pick(4));
  bool const eoe = pick(2) == 0;
  auto run = [&](Cfg const & cfg, Save const & s) {
    return process(cfg, [&] {
      quietLogger(level, eoe);
      auto const & spec = models[s.model];
      auto const m = build(spec);
      auto flat = [&] {
        um2::PolytopeSoup soup;
        if (step("convert", [&] { soup = static_cast<um2::PolytopeSoup>(m); }) != ST_OK) {
          return;
        }
        std::string const d = checkFlat(spec, soup);
        if (!d.empty()) {
          violate("P06:flat", "the flat mesh of a model (%s) is wrong: %s", describe(spec).c_str(), d.c_str());
        }
        step("save flat", [&] { soup.write(um2::String(paths[1].c_str())); });
      };
      if (s.flat && s.first) {
        flat();
      }
      step("save", [&] { m.write(um2::String(paths[0].c_str()), s.knudsen, s.xsec); });
      if (s.flat && !s.first) {
        flat();
      }
    });
  };
  auto bad = [&](Proc const & p, char const * what) {
    if (violated()) {
      return true;
    }
    if (p.livelock) {
      violate("P06:hang", "%s did not finish", what);
      return true;
    }
    return false;
  };
  auto look = [&](Save const & s, bool model, bool flat, char const * sig, std::string const & why) {
    auto const & spec = models[s.model];
    Proc const p = process({}, [&] {
      quietLogger(1, true);
      if (model) {
        std::string const d = checkStored(spec, paths[0], s.knudsen, s.xsec);
        if (!d.empty()) {
          violate(sig, "a model (%s) was saved%s%s without a report, but %s", describe(spec).c_str(), describeSave(s).c_str(),
                  why.c_str(), d.c_str());
        }
      }
      if (flat) {
        um2::PolytopeSoup soup;
        int const st = step("load flat", [&] { soup.read(um2::String(paths[1].c_str())); });
        std::string const d = st == ST_OK ? checkFlat(spec, soup) : std::string("it cannot be loaded");
        if (!d.empty()) {
          violate(sig, "the flat mesh of a model (%s) was saved%s without a report, but %s", describe(spec).c_str(), why.c_str(),
                  d.c_str());
        }
      }
    });
    if (!bad(p, "reading what was stored") && !p.success()) {
      violate(sig, "what was stored%s%s cannot be read: %s", describeSave(s).c_str(), why.c_str(), lastWords(p).c_str());
    }
  };
  int const rounds = range(1, 4);
  for (int k = 0; k < rounds; ++k) {
    Save s;
    s.model = pick(static_cast<uint32_t>(models.size()));
    uint32_t const fl = pick(8) ^ 1U;
    s.knudsen = (fl & 1U) != 0;
    s.xsec = (fl & 2U) != 0;
    s.flat = (fl & 4U) != 0;
    s.first = s.flat && pick(2) != 0;
    uint32_t const mode = pick(5);
    if (mode >= 2) {
      // first an execution that fails or is killed
      Proc const prof = [&] {
        auto const disk = diskSnapshot();
        Proc const p = run({}, s);
        diskRestore(disk);
        return p;
      }();
      if (bad(prof, "saving")) {
        return;
      }
      Cfg cfg = pick(4) == 3 ? drawBenign() : Cfg{};
      if (mode == 2) {
        drawCrash(cfg, prof);
      } else {
        drawWriteFault(cfg, prof);
      }
      Proc const p = run(cfg, s);
      if (bad(p, "saving with failing storage")) {
        return;
      }
      if (p.injected > 0) {
        nontrivial();
        probe(mode == 2 ? 2 : 1);
      }
      stateMix(static_cast<uint64_t>(p.code) + 3 * static_cast<uint64_t>(p.sig));
      bool const model = p.ok("save") && !p.crashed;
      bool const flat = s.flat && p.ok("convert") && p.ok("save flat") && !p.crashed;
      if (model || flat) {
        probe(3);
        look(s, model, flat, "P06:silent", " under" + sim::describe(cfg));
        if (violated()) {
          return;
        }
      }
    }
    Cfg const cfg = drawBenign();
    Proc const p = run(cfg, s);
    if (bad(p, "saving")) {
      return;
    }
    if (!p.ok("save") || (s.flat && (!p.ok("convert") || !p.ok("save flat"))) || !p.success()) {
      violate("P06:failed", "saving a model (%s)%s failed although every operation of the system works: %s",
              describe(models[s.model]).c_str(), describeSave(s).c_str(), lastWords(p).c_str());
      return;
    }
    look(s, true, s.flat, "P06:stored", "");
    if (violated()) {
      return;
    }
    nontrivial();
    probe(0);
    if (s.flat) {
      probe(4);
    }
    stateMix(diskHash());
  }
}
Register const r06("P06", p06);

} // namespace
