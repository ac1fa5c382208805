// A multigroup cross-section library: reference description, generation and its text.
#pragma once
#include "mesh_spec.hpp"

namespace sim
{

struct XsRow {
  bool full = false;
  double v[5] = {}; // a f nuf tr s
  int lo = 0, hi = -1;
  std::vector<double> ss;
};

struct NucSpec {
  int zaid = 1001;
  double mass = 1;
  std::vector<double> temps;
  std::vector<std::vector<XsRow>> rows; // [group][temperature]
};

struct LibSpec {
  std::vector<double> bounds, chi;
  std::vector<NucSpec> nuc;
};

struct LibText {
  std::string text;
  size_t complete = 0; // number of characters after which the end mark is complete
  bool long_lines = false;
};

// A number with few digits, so that its text is its exact value.
double libValue(Rng & r, bool negative_ok);
LibSpec drawLib(uint32_t size);
// The text of the library; `shown` nuclides of those declared are really there.
LibText libText(LibSpec const & l, uint64_t style_seed, size_t shown, bool trailing, bool may_be_long);

} // namespace sim
