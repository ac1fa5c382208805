// Reference description of a reactor model (plain data), generation, and comparison with the real thing.
#pragma once
#include "mesh_spec.hpp"
#include <um2/mpact/model.hpp>

namespace sim
{

struct MatSpec {
  std::string name;
  double temperature = 300;
  double density = 1;
  std::vector<int> zaid;
  std::vector<double> nd;
  std::vector<double> a, f, nuf, tr, s;
};

// One mesh that fills a w x h box with its corner at the origin.
struct FvmSpec {
  int kind = 0;   // 0 tri, 1 quad, 2 quadratic tri, 3 quadratic quad
  int how = 0;    // 0 given below, 1 cylindrical pin made by the library, 2 rectangular pin made by the library
  double w = 1;
  double h = 1;
  int nx = 1;
  int ny = 1;
  std::vector<double> radii;
  std::vector<int> rings;
  int naz = 8;
  std::vector<std::array<double, 2>> verts;
  std::vector<std::vector<int>> faces;
  int nfaces = 0;
};

struct CellSpec {
  int mesh = 0;
  std::vector<int> mats;
};

using Rows = std::vector<std::vector<int>>; // top row first

struct AsySpec {
  std::vector<int> lats;
  std::vector<double> z;
};

struct ModelSpec {
  std::vector<MatSpec> mats;
  std::vector<FvmSpec> meshes;
  std::vector<CellSpec> cells;
  std::vector<Rows> rtms;
  std::vector<Rows> lats;
  std::vector<AsySpec> asys;
  Rows core;
};

struct ModelOpts {
  bool small = false;
  int groups = 0;      // 0: draw
  bool mats_safe = false; // one-word names
};

// Fill nx x ny cells of a w x h box with faces of the given kind (vertex and face order shuffled).
void makeFaces(FvmSpec & f, Rng & r);

ModelSpec drawModel(ModelOpts const & o);
std::string describe(ModelSpec const & m);

// In a process:
um2::mpact::Model build(ModelSpec const & m);
um2::Material buildMaterial(MatSpec const & m);
// "" if equal, else what differs.  z is compared to six decimals if rounded.
std::string compare(ModelSpec const & m, um2::mpact::Model const & got, bool rounded_z);

// Vertices and faces of a mesh of the model (asks the library for the pins it makes).
void realise(FvmSpec const & f, std::vector<std::array<double, 2>> & verts, std::vector<std::vector<int>> & faces);
Int addMeshTo(um2::mpact::Model & m, FvmSpec const & f);
// The mesh of a cell; false if it is of another kind.
bool meshOfCell(um2::mpact::Model const & m, Int cell, int kind, std::vector<std::array<double, 2>> & verts,
                std::vector<std::vector<int>> & faces);
// Area and centroid of a face, computed independently of the library.
double faceArea(std::vector<std::array<double, 2>> const & verts, std::vector<int> const & face,
                std::array<double, 2> * centroid = nullptr);

// Companion files; "" or what is wrong.
std::string checkVolumes(ModelSpec const & m, std::string const & text);
std::string checkXS(ModelSpec const & m, std::string const & text);
std::string checkInput(ModelSpec const & m, std::string const & text, std::string const & path);

// Total area of a lattice's RTM etc.
double coreVolume(ModelSpec const & m);

} // namespace sim
