// X01: loading multigroup cross-section libraries.
#include "lib_spec.hpp"
#include "mesh_text.hpp"
#include <cmath>
#include <cstring>
#include <um2/common/logger.hpp>
#include <um2/physics/cross_section_library.hpp>

using namespace sim;

namespace
{

std::string
compareLib(LibSpec const & l, um2::XSLibrary const & x)
{
  auto const ng = static_cast<Int>(l.bounds.size());
  if (x.numGroups() != ng || x.chi().size() != ng) {
    return fmt("%d groups and %d fission spectrum values instead of %d", static_cast<int>(x.numGroups()),
               static_cast<int>(x.chi().size()), static_cast<int>(ng));
  }
  for (Int g = 0; g < ng; ++g) {
    if (x.groupBounds()[g] != l.bounds[static_cast<size_t>(g)]) {
      return fmt("group bound %d is %.17g instead of %.17g", static_cast<int>(g), x.groupBounds()[g],
                 l.bounds[static_cast<size_t>(g)]);
    }
    if (x.chi()[g] != l.chi[static_cast<size_t>(g)]) {
      return fmt("chi %d is %.17g instead of %.17g", static_cast<int>(g), x.chi()[g], l.chi[static_cast<size_t>(g)]);
    }
  }
  if (x.nuclides().size() != static_cast<Int>(l.nuc.size())) {
    return fmt("%d nuclides instead of %zu", static_cast<int>(x.nuclides().size()), l.nuc.size());
  }
  for (size_t i = 0; i < l.nuc.size(); ++i) {
    auto const & n = l.nuc[i];
    auto const & y = x.nuclides()[static_cast<Int>(i)];
    if (y.zaid() != n.zaid || y.mass() != n.mass) {
      return fmt("nuclide %zu is %d with mass %.17g instead of %d with %.17g", i, static_cast<int>(y.zaid()), y.mass(),
                 n.zaid, n.mass);
    }
    auto const nt = static_cast<Int>(n.temps.size());
    if (y.temperatures().size() != nt || y.xs().size() != nt) {
      return fmt("nuclide %zu has %d temperatures and %d cross sections instead of %d", i,
                 static_cast<int>(y.temperatures().size()), static_cast<int>(y.xs().size()), static_cast<int>(nt));
    }
    bool fissile_nuc = false;
    for (Int k = 0; k < nt; ++k) {
      if (y.temperatures()[k] != n.temps[static_cast<size_t>(k)]) {
        return fmt("nuclide %zu temperature %d is %.17g instead of %.17g", i, static_cast<int>(k), y.temperatures()[k],
                   n.temps[static_cast<size_t>(k)]);
      }
      auto const & xs = y.xs()[k];
      if (xs.numGroups() != ng || xs.a().size() != ng || xs.f().size() != ng || xs.nuf().size() != ng ||
          xs.tr().size() != ng || xs.s().size() != ng || xs.ss().rows() != ng || xs.ss().cols() != ng) {
        return fmt("nuclide %zu temperature %d has the wrong number of groups", i, static_cast<int>(k));
      }
      bool fissile = false;
      for (Int g = 0; g < ng; ++g) {
        auto const & row = n.rows[static_cast<size_t>(g)][static_cast<size_t>(k)];
        fissile = fissile || row.v[1] > 0;
        double const have[5] = {xs.a()[g], xs.f()[g], xs.nuf()[g], xs.tr()[g], xs.s()[g]};
        for (int j = 0; j < 5; ++j) {
          if (have[j] != row.v[j]) {
            return fmt("nuclide %zu temperature %d group %d value %d is %.17g instead of %.17g", i, static_cast<int>(k),
                       static_cast<int>(g), j, have[j], row.v[j]);
          }
        }
        for (Int c = 0; c < ng; ++c) {
          double want = 0;
          if (c + 1 >= row.lo && c + 1 <= row.hi) {
            want = row.ss[static_cast<size_t>(c + 1 - row.lo)];
          }
          if (xs.ss()(g, c) != want) {
            return fmt("nuclide %zu temperature %d scattering entry %d,%d is %.17g instead of %.17g", i,
                       static_cast<int>(k), static_cast<int>(g), static_cast<int>(c), xs.ss()(g, c), want);
          }
        }
      }
      if (xs.isFissile() != fissile || xs.isMacro()) {
        return fmt("nuclide %zu temperature %d is marked as fissile wrongly", i, static_cast<int>(k));
      }
      fissile_nuc = fissile_nuc || fissile;
    }
    if (y.isFissile() != fissile_nuc) {
      return fmt("nuclide %zu is marked as fissile wrongly", i);
    }
    if (&x.getNuclide(n.zaid) != &y) {
      return fmt("looking up nuclide %d gives another one", n.zaid);
    }
  }
  return "";
}

void
x01()
{
  LibSpec lib = drawLib(pick(4) == 3 ? 1 : 0);
  bool const trailing = pick(3) == 2;
  bool const wide = pick(8) == 7;
  uint64_t const style = pick(1U << 30);
  std::string const path = "/work/" + std::string(pick(4) == 3 ? "a library dir/" : "") + "lib" + (pick(2) != 0 ? ".fmt" : "");
  size_t shown = lib.nuc.size();
  if (pick(10) == 9) {
    shown -= 1 + pick(static_cast<uint32_t>(shown)); // the file lacks nuclides that it declares
  }
  bool const lacking = shown < lib.nuc.size();
  LibText const lt = libText(lib, style, shown, trailing, wide);
  // a second, different library loaded in the same process before
  bool const before = pick(3) == 2;
  LibSpec lib2;
  LibText lt2;
  if (before) {
    lib2 = drawLib(0);
    lt2 = libText(lib2, style + 1, lib2.nuc.size(), trailing, false);
  }
  drawFill();
  int const level = 1 + static_cast<int>(pick(4));
  bool const eoe = pick(2) == 0;
  diskWrite(path.c_str(), lt.text);
  bool const after = before && pick(2) != 0; // it is loaded again after a load that failed
  if (before) {
    diskWrite("/work/first.fmt", lt2.text);
  }
  auto load = [&](Cfg const & cfg, bool any_ok, std::string const & why) {
    return process(cfg, [&] {
      quietLogger(level, eoe);
      um2::XSLibrary first;
      int s2 = ST_LOGGED;
      if (before) {
        s2 = step("first", [&] { first = um2::XSLibrary(um2::String("/work/first.fmt")); });
      }
      um2::XSLibrary x;
      int const status = step("load", [&] { x = um2::XSLibrary(um2::String(path.c_str())); });
      if (status == ST_OK) {
        std::string const d = any_ok ? compareLib(lib, x) : "an error must be reported";
        if (!d.empty()) {
          violate("X01:silent-wrong", "loading a library (%zu groups, %zu nuclides) %s reported nothing, but: %s",
                  lib.bounds.size(), lib.nuc.size(), why.c_str(), d.c_str());
        }
      } else if (after && s2 == ST_OK && ((!lacking && !lt.long_lines) || cfg.faults.empty())) {
        um2::XSLibrary y;
        int const s3 = step("after", [&] { y = um2::XSLibrary(um2::String("/work/first.fmt")); });
        std::string const d = s3 == ST_OK ? compareLib(lib2, y) : std::string("it fails");
        if (!d.empty()) {
          violate("X01:after", "loading a library %s reported an error, but then loading another one goes wrong: %s", why.c_str(),
                  d.c_str());
        }
      }
      if (s2 == ST_OK) {
        std::string const d = compareLib(lib2, first);
        if (!d.empty()) {
          violate("X01:first", "a library loaded earlier is wrong after loading another %s: %s", why.c_str(), d.c_str());
        }
      }
    });
  };
  auto bad = [&](Proc const & p, std::string const & why) {
    if (violated()) {
      return true;
    }
    if (p.livelock) {
      violate("X01:hang", "loading a library %s did not finish", why.c_str());
      return true;
    }
    if (p.find("after") != nullptr) {
      probe(6);
      if (!p.ok("after")) {
        violate("X01:after", "loading a library %s reported an error, but then loading another one ends the program", why.c_str());
        return true;
      }
    }
    if (p.sig != 0 && p.sig != 6) {
      violate("X01:signal", "loading a library %s died with signal %d", why.c_str(), p.sig);
      return true;
    }
    return false;
  };
  Cfg const b = drawBenign();
  std::string const kind = lacking ? fmt("with %zu of its nuclides missing", lib.nuc.size() - shown) : "without faults";
  Proc const prof = load({}, !lacking, kind);
  if (bad(prof, kind)) {
    return;
  }
  bool const fine = prof.ok("load") && prof.success();
  if (!fine && !lacking && !lt.long_lines) {
    violate("X01:rejected", "loading a proper library without faults failed: %s", lastWords(prof).c_str());
    return;
  }
  if (lacking) {
    nontrivial();
    probe(4);
  }
  if (b.p_short != 0 || b.p_eintr != 0) {
    std::string const w = kind + " and with" + sim::describe(b);
    Proc const q = load(b, !lacking, w);
    if (bad(q, w)) {
      return;
    }
    nontrivial();
    probe(5);
    if ((q.ok("load") && q.success()) != fine) {
      violate("X01:split", "the result of loading depends on how reads are split: %s", lastWords(q).c_str());
      return;
    }
  }
  auto const disk0 = diskSnapshot();
  int const rounds = range(1, 5);
  for (int k = 0; k < rounds; ++k) {
    diskRestore(disk0);
    Cfg cfg = pick(3) == 2 ? drawBenign() : Cfg{};
    std::string why;
    bool any_ok = !lacking;
    if (pick(2) == 1) {
      size_t const n = lt.text.size();
      size_t cut = 0;
      switch (pick(3)) {
      case 0:
        cut = pick(static_cast<uint32_t>(n));
        break;
      case 1:
        cut = n - 1 - pick(static_cast<uint32_t>(std::min<size_t>(n, 120)));
        break;
      default: {
        // at the end of a line
        cut = pick(static_cast<uint32_t>(n));
        size_t const e = lt.text.find('\n', cut);
        cut = e == std::string::npos ? cut : e + pick(2);
        cut = std::min(cut, n - 1);
      }
      }
      diskTruncate(path.c_str(), cut);
      any_ok = any_ok && cut >= lt.complete;
      nontrivial();
      probe(2);
      why = fmt("after it was cut to %zu of %zu bytes", cut, n) + sim::describe(cfg);
    } else {
      drawReadFault(cfg, prof);
      why = "under" + sim::describe(cfg);
    }
    Proc const p = load(cfg, any_ok, why);
    if (bad(p, why)) {
      return;
    }
    if (p.injected > 0) {
      nontrivial();
      probe(3);
    }
    probe(p.ok("load") ? 0 : 1);
    stateMix(static_cast<uint64_t>(p.code) + (p.ok("load") ? 100 : 0));
    stateMix(std::hash<std::string>{}(why));
  }
}
Register const rx("X01", x01);

} // namespace
