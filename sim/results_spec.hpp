// Result files: faces of one kind with values.
#pragma once
#include "mesh_spec.hpp"

namespace sim
{

struct Results {
  int kind = 0;
  MeshSpec mesh;
  std::vector<double> area;
  std::vector<std::array<double, 2>> centroid;
  std::vector<int> component; // of corners: faces with a common corner have a common group
  std::vector<std::vector<int>> corner; // per face, ids of geometric corners
};

Results drawResults(uint32_t max_cells);
void addData(MeshSpec & m, std::string const & name, std::vector<double> const & data); // for all faces
// Store results as VTK text or, through the library, as XDMF.
bool storeResults(MeshSpec const & m, std::string const & path);

} // namespace sim
