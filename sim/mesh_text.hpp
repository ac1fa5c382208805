// Text mesh files (Abaqus, VTK) and independently written XDMF files, together with what they say.
#pragma once
#include "mesh_spec.hpp"

namespace sim
{

struct TextStyle {
  bool crlf = false;
  int number = 0;      // 0: shortest exact, 1: exponent form, 2: fixed if exact
  int spacing = 0;     // how tokens are separated
  bool comments = false;
  bool no_final_newline = false;
  int per_line = 8;
};
TextStyle drawTextStyle(bool long_lines = false); // long_lines: perhaps longer than the readers accept

std::string number(double v, int style);
std::string abaqusText(MeshSpec const & m, TextStyle const & st);

// The VTK text; marks[i] = text length after which section i is complete:
// 0 mesh with cell types, then one per data set.  Data set big_set (if any) is written as integers and
// its first value is big.
std::string vtkText(MeshSpec const & m, TextStyle const & st, std::vector<size_t> & marks,
                    std::vector<size_t> & last_value_start, int big_set = -1, int64_t big = 0);

// In a process: write m as XDMF with the HDF5 and file interfaces directly (not the library's
// writer).  Values are rounded to what the chosen precision can hold; m is updated accordingly.
struct XdmfStyle {
  bool float32 = false;
  bool int64 = false;
  bool force_mixed = false;
  bool force_xyz = false;
};
XdmfStyle drawXdmfStyle();
void applyStyle(MeshSpec & m, XdmfStyle const & st);
void writeXdmfIndependently(std::string const & path, MeshSpec const & m, XdmfStyle const & st);

} // namespace sim
