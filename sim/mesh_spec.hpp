// Reference description of a mesh (plain data), generation, and comparison with the real thing.
#pragma once
#include "harness.hpp"
#include <array>
#include <um2/mesh/polytope_soup.hpp>

namespace sim
{

// A small generator for bulk content; seeded by one choice.
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed)
      : s(mix64(seed))
  {
  }
  uint64_t
  next()
  {
    s += 0x9E3779B97F4A7C15ULL;
    return mix64(s);
  }
  uint32_t
  below(uint32_t m)
  {
    return static_cast<uint32_t>((next() >> 32) % m);
  }
  double
  unit()
  {
    return static_cast<double>(next() >> 11) * 0x1.0p-53;
  }
};

struct ElsetSpec {
  std::string name;
  std::vector<int> ids; // sorted, unique
  std::vector<double> data;
};

struct MeshSpec {
  std::vector<std::array<double, 3>> verts;
  std::vector<int> types; // VTK numbers
  std::vector<std::vector<int>> conn;
  std::vector<ElsetSpec> elsets;
};

int vertsOf(int vtk_type);

struct MeshOpts {
  bool xdmf = true;    // restrict to what the XDMF writer supports
  bool abaqus = false; // CPS3/4/6/8 only
  bool vtk = false;    // kinds that are inferable from the number of vertices
  bool big = true;     // allow large meshes
  bool large = false;  // prefer large meshes
  bool data = true;
  bool elsets = true;
};

MeshSpec drawMesh(MeshOpts const & o);
// A mesh much like the given one: other numbers, or a set, an element, a vertex or values fewer.
MeshSpec drawVariation(MeshSpec m);
std::string describe(MeshSpec const & m);
um2::PolytopeSoup build(MeshSpec const & m); // in a process
// "" if equal, else what differs
std::string compare(MeshSpec const & m, um2::PolytopeSoup const & s);
bool sameMesh(MeshSpec const & a, MeshSpec const & b);
std::string drawName(Rng & r, int style);

// Paths used by histories
std::vector<std::string> drawPaths(int n, char const * ext);

void quietLogger(int level, bool exit_on_error); // in a process

} // namespace sim
