// The data stored with a saved model for every place of the core, and the flat mesh of a model.
#pragma once
#include "model_spec.hpp"

namespace sim
{

// One cell at one place of the core.
struct Place {
  int asy, lat, rtm, cell;       // numbers
  int nasy, nlat, nrtm, ncell;   // how often each occurred before
  double x, y, z;                // lower left corner, middle of the layer
};
std::vector<Place> placesOf(ModelSpec const & m);

// Mean chord of a face, computed independently of the library.
double meanChord(std::vector<std::array<double, 2>> const & verts, std::vector<int> const & face);
double edgeLength(std::array<double, 2> p, std::array<double, 2> q, std::array<double, 2> const * mid);

// In a process: what the saved model's files hold for every place; "" or what is wrong.
std::string checkStored(ModelSpec const & m, std::string const & path, bool knudsen, bool xsec);
// In a process: the flat mesh of the model; "" or what is wrong.
std::string checkFlat(ModelSpec const & m, um2::PolytopeSoup const & s);

} // namespace sim
