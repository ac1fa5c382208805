#include "lib_spec.hpp"
#include "mesh_text.hpp"
#include <algorithm>
#include <cmath>

namespace sim
{

double
libValue(Rng & r, bool negative_ok)
{
  double v = 0;
  switch (r.below(6)) {
  case 0:
    v = r.below(1000) / 1000.0;
    break;
  case 1:
    v = std::ldexp(1.0 + r.below(1U << 20), -static_cast<int>(r.below(40)));
    break;
  case 2:
    v = 0;
    break;
  case 3:
    v = r.below(100000);
    break;
  case 4:
    v = std::pow(10.0, static_cast<double>(r.below(30)) - 20);
    break;
  default:
    v = 1.0 / (1 + r.below(5000));
    break;
  }
  return negative_ok && r.below(12) == 0 ? -v : v;
}

LibSpec
drawLib(uint32_t size)
{
  Rng r(pick(1U << 30));
  LibSpec l;
  int ng = size == 0 ? range(1, 4) : range(1, 23);
  int nn = range(1, size == 0 ? 3 : 6);
  // now and then: 1 larger, 2 hundreds of nuclides, 3 hundreds of groups
  uint32_t const large = size != 0 && nn == 6 ? pick(8) : 0;
  if (large == 1) {
    ng = range(24, 60);
    nn = range(7, 30);
  } else if (large == 2) {
    ng = range(1, 4);
    nn = range(31, 400);
  } else if (large == 3) {
    ng = range(61, 300);
    nn = range(1, 3);
  }
  double b = 2e7;
  for (int g = 0; g < ng; ++g) {
    l.bounds.push_back(b);
    b *= 0.1 + 0.8 * (r.below(1000) / 1000.0);
    l.chi.push_back(libValue(r, false));
  }
  if (r.below(8) == 0) {
    l.bounds.back() = ng > 1 ? 0 : l.bounds.back();
  }
  int zaid = 1001;
  for (int i = 0; i < nn; ++i) {
    NucSpec n;
    n.zaid = zaid;
    zaid += 1 + static_cast<int>(r.below(30000));
    n.mass = 0.001 + libValue(r, false);
    int const nt = 1 + static_cast<int>(r.below(r.below(20) == 0 ? 12 : 4));
    double t = 250;
    for (int k = 0; k < nt; ++k) {
      t += 1 + r.below(4000) / 8.0;
      n.temps.push_back(t);
    }
    uint32_t const kind = r.below(4); // 0: mixed, 1: absorption only, 2,3: full
    for (int g = 0; g < ng; ++g) {
      n.rows.emplace_back();
      for (int k = 0; k < nt; ++k) {
        XsRow row;
        row.full = kind >= 2 || (kind == 0 && r.below(3) != 0);
        for (int j = 0; j < (row.full ? 5 : 1); ++j) {
          row.v[j] = libValue(r, true);
        }
        if (kind == 3 && row.full) {
          row.v[1] = row.v[2] = 0; // not fissile
        }
        if (row.v[1] <= 0) {
          row.v[2] = 0; // no neutrons from fission without fission
        }
        if (row.full) {
          row.lo = 1 + static_cast<int>(r.below(static_cast<uint32_t>(ng)));
          // the lines of a library are at most 1023 characters long
          int const widest = large == 3 ? std::min(ng, row.lo + 24) : ng;
          row.hi = row.lo + static_cast<int>(r.below(static_cast<uint32_t>(widest - row.lo + 1)));
          for (int c = row.lo; c <= row.hi; ++c) {
            row.ss.push_back(libValue(r, true));
          }
        }
        n.rows.back().push_back(row);
      }
    }
    l.nuc.push_back(n);
  }
  return l;
}

LibText
libText(LibSpec const & l, uint64_t style_seed, size_t shown, bool trailing, bool may_be_long)
{
  Rng r(style_seed);
  LibText o;
  std::string & t = o.text;
  int const num = static_cast<int>(r.below(2));
  int const per_line = 1 + static_cast<int>(r.below(9));
  auto pad = [&]() -> std::string { return std::string(1 + r.below(may_be_long ? 6 : 3), ' '); };
  auto lead = [&]() -> std::string { return std::string(r.below(5), ' '); };
  auto eol = [&]() -> std::string { return (trailing && r.below(2) == 0 ? std::string(1 + r.below(3), ' ') : "") + "\n"; };
  t += "%VER:\n" + lead() + (r.below(2) != 0 ? "4.2m5" : "4") + eol();
  t += "%DIM:\n" + lead();
  int const dims[10] = {static_cast<int>(l.bounds.size()),
                        static_cast<int>(r.below(5)),
                        static_cast<int>(r.below(5)),
                        static_cast<int>(r.below(5)),
                        static_cast<int>(l.nuc.size()),
                        static_cast<int>(r.below(5)),
                        static_cast<int>(r.below(5)),
                        static_cast<int>(r.below(5)),
                        static_cast<int>(r.below(5)),
                        static_cast<int>(r.below(5))};
  for (int i = 0; i < 10; ++i) {
    t += std::to_string(dims[i]) + (i < 9 ? pad() : eol());
  }
  auto wrapped = [&](std::vector<double> const & v) {
    for (size_t i = 0; i < v.size(); ++i) {
      t += (i % static_cast<size_t>(per_line) == 0 ? lead() : pad()) + number(v[i], num);
      if (i + 1 == v.size() || (i + 1) % static_cast<size_t>(per_line) == 0) {
        t += eol();
      }
    }
  };
  t += "%GRP:\n";
  wrapped(l.bounds);
  t += "%CHI:\n";
  wrapped(l.chi);
  t += "%DIR:\n";
  for (size_t i = 0; i < l.nuc.size(); ++i) {
    t += fmt("%5zu %6d some text %g", i + 1, l.nuc[i].zaid, l.nuc[i].mass) + eol();
  }
  for (size_t i = 0; i < shown; ++i) {
    auto const & n = l.nuc[i];
    t += "%NUC" + pad() + std::to_string(i + 1) + pad() + std::to_string(n.zaid) + pad() + number(n.mass, num) + pad() +
         "2" + pad() + "0" + pad() + "1" + pad() + "0" + pad() + std::to_string(n.temps.size());
    if (r.below(2) == 0) {
      t += pad() + "0" + pad() + "NAME-" + std::to_string(n.zaid);
    }
    t += eol();
    t += lead() + "TP1+" + (r.below(2) == 0 ? pad() + std::to_string(n.temps.size()) : "") + "\n" + lead();
    for (size_t k = 0; k < n.temps.size(); ++k) {
      t += (k > 0 ? pad() : "") + number(n.temps[k], num);
    }
    t += eol() + lead() + "XSD+" + eol();
    for (size_t g = 0; g < n.rows.size(); ++g) {
      for (size_t k = 0; k < n.temps.size(); ++k) {
        auto const & row = n.rows[g][k];
        std::string s = lead() + std::to_string(g + 1) + pad() + std::to_string(k + 1) + pad() + number(row.v[0], num);
        if (row.full) {
          for (int j = 1; j < 5; ++j) {
            s += pad() + number(row.v[j], num);
          }
          s += pad() + std::to_string(row.lo) + pad() + std::to_string(row.hi);
          for (double const x : row.ss) {
            s += pad() + number(x, num);
          }
        }
        s += eol();
        o.long_lines = o.long_lines || s.size() > 1000;
        t += s;
      }
    }
    if (r.below(3) != 0) {
      // other sections
      for (uint32_t k = r.below(4); k-- > 0;) {
        t += lead() + (k % 2 == 0 ? "RES+" : "SUB+") + eol();
        t += lead() + fmt("%u %u 0.5 %g", i + 1 > 0 ? static_cast<unsigned>(i + 2) : 0U, 92235U, 1.5) + eol();
      }
    }
  }
  t += "%END";
  o.complete = t.size();
  t += r.below(2) == 0 ? ":" : "";
  t += r.below(4) == 0 ? "" : "\n";
  if (r.below(4) == 0) {
    t += "trailing remarks\n";
  }
  return o;
}

} // namespace sim
