From e581bb77e42627dbe88301967c5341a8ad324891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:00 +0000
Subject: [PATCH 01/27] fix: read back meshes that consist of quadratic edges
 only

The XDMF writer stores such a mesh with topology type Edge_3.
The reader did not know that type and rejected the file.
---
 src/mesh/polytope_soup.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index f9af604..30c19d6 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -1644,6 +1644,8 @@ addElementsToSoup(Int const num_elements, String const & topology_type,
       elem_type = VTKElemType::Triangle;
     } else if (topology_type == "Quadrilateral") {
       elem_type = VTKElemType::Quad;
+    } else if (topology_type == "Edge_3") {
+      elem_type = VTKElemType::QuadraticEdge;
     } else if (topology_type == "Triangle_6") {
       elem_type = VTKElemType::QuadraticTriangle;
     } else if (topology_type == "Quadrilateral_8") {
-- 
2.43.0


From 4c146d4a9ace74cc1c4546a100e8f86a2d92430c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:41 +0000
Subject: [PATCH 02/27] fix: report a mesh save whose XML file could not be
 written

The result of saving the XML document was ignored, so a full or failing
disk left an incomplete .xdmf file without any message. The HDF5 file is
also flushed before it is closed: when the flush inside the close fails,
the library's destructor closes the same file a second time and crashes
before the error reaches the caller.
---
 src/mesh/polytope_soup.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index 30c19d6..bd247dc 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -1473,9 +1473,12 @@ writeXDMFFile(String const & filepath, PolytopeSoup const & soup)
   String const name = h5filename.substr(0, h5filename.size() - 3);
   writeXDMFUniformGrid(name, xdomain, h5file, h5filename, h5path, soup);
   // Write the XML file
-  xdoc.save_file(filepath.data(), "  ");
+  if (!xdoc.save_file(filepath.data(), "  ")) {
+    LOG_ERROR("Could not write file: ", filepath);
+  }
 
-  // Close the HDF5 file
+  // Flush and close the HDF5 file
+  h5file.flush(H5F_SCOPE_GLOBAL);
   h5file.close();
 } // writeXDMFFile
 
-- 
2.43.0


From 8d4c64695488d3e6f749999fe991877f4a9084af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:41 +0000
Subject: [PATCH 03/27] fix: report Abaqus and VTK meshes that could not be
 read to the end

A read error or an over-long line ends the reading loops in the same way
as the end of the file. The mesh read so far was then returned as if it
were complete.
---
 src/mesh/polytope_soup.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index bd247dc..6f125ac 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -834,6 +834,12 @@ readAbaqusFile(String const & filename, PolytopeSoup & soup)
     }
   }
 
+  // The loop also ends if a read fails or a line is too long
+  if (!file.eof()) {
+    LOG_ERROR("Could not read all of file: ", filename);
+    return;
+  }
+
   if (soup.numElsets() > 0) {
     soup.sortElsets();
   }
@@ -1136,6 +1142,12 @@ readVTKFile(String const & filename, PolytopeSoup & soup)
     }
   }
 
+  // The loop also ends if a read fails or a line is too long
+  if (!file.eof()) {
+    LOG_ERROR("Could not read all of file: ", filename);
+    return;
+  }
+
   if (soup.numElsets() > 0) {
     soup.sortElsets();
   }
-- 
2.43.0


From c322a5dd70a10f44e2c26287f3d5271de9a8b02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:57 +0000
Subject: [PATCH 04/27] fix: keep reading an Abaqus block after a comment line

A comment between the data lines of a block ended the block, and the rest
of its lines were dropped without a message.
---
 src/mesh/polytope_soup.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index 6f125ac..bf0827d 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -619,13 +619,30 @@ PolytopeSoup::getSubset(String const & elset_name, PolytopeSoup & subset) const
 namespace
 {
 
+// Get the next line of the current block, skipping comments. Return false if the block
+// has ended.
+auto
+abaqusGetBlockLine(std::ifstream & file, char * const line,
+                   int64_t const max_line_length) -> bool
+{
+  while (file.getline(line, max_line_length)) {
+    if (line[0] != '*') {
+      return true;
+    }
+    if (line[1] != '*') {
+      return false;
+    }
+  }
+  return false;
+}
+
 auto
 abaqusParseNodes(PolytopeSoup & soup, std::ifstream & file, char * const line,
                  uint64_t const max_line_length) -> StringView
 {
   // line starts with "*NODE"
   auto const smax_line_length = static_cast<int64_t>(max_line_length);
-  while (file.getline(line, smax_line_length) && line[0] != '*') {
+  while (abaqusGetBlockLine(file, line, smax_line_length)) {
     StringView line_view(line);
     // Format: node_id, x, y, z
     // Skip ID
@@ -702,7 +719,7 @@ abaqusParseElements(PolytopeSoup & soup, std::ifstream & file, char * const line
   Int const verts_per_elem = verticesPerElem(this_type);
   Vector<Int> conn(verticesPerElem(this_type));
   auto const smax_line_length = static_cast<int64_t>(max_line_length);
-  while (file.getline(line, smax_line_length) && line[0] != '*') {
+  while (abaqusGetBlockLine(file, line, smax_line_length)) {
     StringView line_view(line);
     // For each element, read the element ID and the node IDs
     // Format: id, n1, n2, n3, n4, n5 ...
@@ -738,7 +755,7 @@ abaqusParseElsets(PolytopeSoup & soup, std::ifstream & file, char * const line,
   String const elset_name(info_line_view.substr(13, info_line_view.size() - 13));
   Vector<Int> elset_ids;
   auto const smax_line_length = static_cast<int64_t>(max_line_length);
-  while (file.getline(line, smax_line_length) && line[0] != '*') {
+  while (abaqusGetBlockLine(file, line, smax_line_length)) {
     StringView line_view(line);
     // Add each element ID to the elset
     // Format: id, id, id, id, id,
-- 
2.43.0


From ae3d595f144978503e81357cb67241e345db60ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:46 +0000
Subject: [PATCH 05/27] fix: reject mesh lines that lack their last number

A VTK or Abaqus vertex line without the third coordinate, or a CELL_DATA
line without a count, made the reader parse a null pointer.
---
 src/mesh/polytope_soup.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index bf0827d..5a7392d 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -666,6 +666,7 @@ abaqusParseNodes(PolytopeSoup & soup, std::ifstream & file, char * const line,
     end = nullptr;
 
     // Only final token left of the form " zzzz\n"
+    ASSERT(!line_view.empty());
     Float const z = strto<Float>(line_view.data(), &end);
     ASSERT(end != nullptr);
     soup.addVertex(x, y, z);
@@ -926,6 +927,7 @@ vtkParseUnstructuredGrid(PolytopeSoup & soup, std::ifstream & file, char * const
     end = nullptr;
 
     // Only final token left of the form " zzzz\n"
+    ASSERT(!line_view.empty());
     Float const z = strto<Float>(line_view.data(), &end);
     ASSERT(end != nullptr);
     end = nullptr;
@@ -1017,6 +1019,7 @@ vtkParseCellData(PolytopeSoup & soup, std::ifstream & file, char * const line,
   // Get the number of cells in the dataset. It should be
   // equal to the number of elements in the soup.
   line_view.getTokenAndShrink(); // Remove "CELL_DATA"
+  ASSERT(!line_view.empty());
   char * end = nullptr;
   Int const num_data = strto<Int>(line_view.data(), &end);
   ASSERT(end != nullptr);
-- 
2.43.0


From a45cf5f72d54b470327ecfc0411aca42f45ffb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:02 +0000
Subject: [PATCH 06/27] fix: record lattice ids when loading a model

The reader noted the id of the assembly instead of the id of the lattice
it had just met. A lattice used more than once was then loaded several
times or not found at all.
---
 src/mpact/model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 9e4a9b8..724c1d0 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -2596,7 +2596,7 @@ readXDMFFile(String const & filename, Model & model)
       }
 
       LOG_DEBUG("New lattice ID: ", lattice_id);
-      lattice_ids.emplace_back(assembly_id);
+      lattice_ids.emplace_back(lattice_id);
 
       // Get NX by NY size of the lattice
       Int lattice_nx = 0;
-- 
2.43.0


From 3231346246a743f75dc63932f2ce0efdfdfbf28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:02 +0000
Subject: [PATCH 07/27] fix: report a model save whose XML file could not be
 written

The result of saving the XML document was ignored. The HDF5 file is also
flushed before it is closed, because a flush that fails inside the close
ends in a crash in the destructor before the error is reported.
---
 src/mpact/model.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 724c1d0..f9db43c 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -1940,9 +1940,12 @@ writeXDMFFile(String const & filepath, Model const & model,
   } // for (iyasy)
 
   // Write the XML file
-  xdoc.save_file(filepath.data(), "  ");
+  if (!xdoc.save_file(filepath.data(), "  ")) {
+    logger::error("Failed to write file: ", filepath);
+  }
 
-  // Close the HDF5 file
+  // Flush and close the HDF5 file
+  h5file.flush(H5F_SCOPE_GLOBAL);
   h5file.close();
 
   LOG_INFO("XDMF file written successfully");
-- 
2.43.0


From d04fa0a0de8b65ee2ce722a08d01a7ab76e4a1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:23 +0000
Subject: [PATCH 08/27] fix: report model companion files that could not be
 written

The input, volume and cross-section files were closed without looking at
the state of the stream, so a full or failing disk left them empty or cut
short without any message.
---
 src/mpact/model.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index f9db43c..188c648 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -2045,6 +2045,9 @@ writeInputFile(String const & filename, Model const & model)
 
   // Close the file
   file.close();
+  if (!file) {
+    logger::error("Failed to write file: ", input_filename);
+  }
 
 } // writeInputFile
 
@@ -2165,6 +2168,9 @@ writeMaterialVolumes(String const & filename, Model const & model)
 
   // Close the file
   file.close();
+  if (!file) {
+    logger::error("Failed to write file: ", volumes_filename);
+  }
 
 } // writeMaterialVolumes
 
@@ -2208,6 +2214,9 @@ writeCrossSections(String const & filename, Model const & model)
 
   // Close the file
   file.close();
+  if (!file) {
+    logger::error("Failed to write file: ", xs_filename);
+  }
 } // writeCrossSections
 
 } // namespace
-- 
2.43.0


From c7692528e95d95f9182e8cf9a02d6ae1c603e807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:23 +0000
Subject: [PATCH 09/27] fix: save models with a material that no face uses

The volumes of an unused material are an empty list, which sum does not
accept. Its total volume is zero.
---
 src/mpact/model.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 188c648..7991feb 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -2150,6 +2150,9 @@ writeMaterialVolumes(String const & filename, Model const & model)
   // Reduce the volumes to the total volume of each material
   Vector<Float> total_volumes(nmats, 0);
   for (Int imat = 0; imat < nmats; ++imat) {
+    if (volumes[imat].empty()) {
+      continue;
+    }
     // Sort and use the sum function for minimal floating point error
     // (sum uses pairwise summation)
     std::sort(volumes[imat].begin(), volumes[imat].end());
-- 
2.43.0


From 214b1f8e69f29aab6b5a0ca3f3fa1694ebaaf19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:23 +0000
Subject: [PATCH 10/27] fix: end the input line of a material without nuclides

The next material, or the GEOM card, was put on the same line.
---
 src/mpact/model.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 7991feb..ca1d7a3 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -2010,6 +2010,8 @@ writeInputFile(String const & filename, Model const & model)
         }
         file << zaids[i] << " " << densities[i] << '\n';
       }
+    } else {
+      file << '\n';
     }
   } // for (imat)
 
-- 
2.43.0


From c60622503ac0c5dd93e096293f29b39406c916d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:26 +0000
Subject: [PATCH 11/27] fix: reject cross-section libraries that are cut short

A line that lacks a value gives an empty token without characters, and
its null pointer was handed to strtod. A library that ended early or
could not be read completely crashed the program.
---
 src/physics/cross_section_library.cpp | 44 ++++++++++++++++-----------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/physics/cross_section_library.cpp b/src/physics/cross_section_library.cpp
index 1be97eb..28d0056 100644
--- a/src/physics/cross_section_library.cpp
+++ b/src/physics/cross_section_library.cpp
@@ -24,6 +24,14 @@ isSpace(char c) -> bool
   return std::isspace(static_cast<unsigned char>(c)) != 0;
 }
 
+// The characters of a token that must be there.
+auto
+tokenData(StringView const token) -> char const *
+{
+  ASSERT(!token.empty());
+  return token.data();
+}
+
 void
 // NOLINTNEXTLINE(readability-function-cognitive-complexity)
 readMPACTLibrary(String const & filename, XSLibrary & lib)
@@ -89,7 +97,7 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
   char * end = nullptr;
   for (Int idim = 0; idim < 10; ++idim) {
     StringView const token = line_view.getTokenAndShrink();
-    dims[idim] = strto<Int>(token.data(), &end);
+    dims[idim] = strto<Int>(tokenData(token), &end);
     ASSERT(end != nullptr);
     end = nullptr;
     ASSERT(dims[idim] >= 0);
@@ -131,7 +139,7 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
       }
     }
 
-    group_bounds[ig] = strto<Float>(token.data(), &end);
+    group_bounds[ig] = strto<Float>(tokenData(token), &end);
     ASSERT(end != nullptr);
     end = nullptr;
     ASSERT(group_bounds[ig] >= 0);
@@ -171,7 +179,7 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
       }
     }
 
-    chi[ig] = strto<Float>(token.data(), &end);
+    chi[ig] = strto<Float>(tokenData(token), &end);
     ASSERT(end != nullptr);
     end = nullptr;
     ASSERT(chi[ig] >= 0);
@@ -223,7 +231,7 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
     // Get the index of the nuclide
     token = line_view.getTokenAndShrink();
 #if UM2_ENABLE_ASSERTS
-    Int const index = strto<Int>(token.data(), &end);
+    Int const index = strto<Int>(tokenData(token), &end);
     ASSERT(end != nullptr);
     end = nullptr;
     ASSERT(index == nuclide_ctr + 1);
@@ -232,7 +240,7 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
 
     // Get the ZAID of the nuclide
     token = line_view.getTokenAndShrink();
-    Int const zaid = strto<Int>(token.data(), &end);
+    Int const zaid = strto<Int>(tokenData(token), &end);
     ASSERT(end != nullptr);
     end = nullptr;
     ASSERT(zaid > 0);
@@ -240,7 +248,7 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
 
     // Get the atomic mass of the nuclide
     token = line_view.getTokenAndShrink();
-    Float const atomic_mass = strto<Float>(token.data(), &end);
+    Float const atomic_mass = strto<Float>(tokenData(token), &end);
     ASSERT(end != nullptr);
     end = nullptr;
     ASSERT(atomic_mass > 0);
@@ -253,7 +261,7 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
 
     // Get the number of temperatures
     token = line_view.getTokenAndShrink();
-    Int const num_temps = strto<Int>(token.data(), &end);
+    Int const num_temps = strto<Int>(tokenData(token), &end);
     ASSERT(end != nullptr);
     end = nullptr;
     ASSERT(num_temps > 0);
@@ -277,7 +285,7 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
       if (token.empty()) {
         token = line_view;
       }
-      Float const temp = strto<Float>(token.data(), &end);
+      Float const temp = strto<Float>(tokenData(token), &end);
       ASSERT(end != nullptr);
       end = nullptr;
       ASSERT(temp > 0);
@@ -307,7 +315,7 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
         // Group index
         token = line_view.getTokenAndShrink();
 #if UM2_ENABLE_ASSERTS
-        Int const group_index = strto<Int>(token.data(), &end);
+        Int const group_index = strto<Int>(tokenData(token), &end);
         ASSERT(end != nullptr);
         end = nullptr;
         ASSERT(group_index == ig + 1);
@@ -316,7 +324,7 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
         // Temperature index
         token = line_view.getTokenAndShrink();
 #if UM2_ENABLE_ASSERTS
-        Int const temp_index = strto<Int>(token.data(), &end);
+        Int const temp_index = strto<Int>(tokenData(token), &end);
         ASSERT(end != nullptr);
         end = nullptr;
         ASSERT(temp_index == itemp + 1);
@@ -326,7 +334,7 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
 
         // Absorption
         token = line_view.getTokenAndShrink();
-        Float const absorption = strto<Float>(token.data(), &end);
+        Float const absorption = strto<Float>(tokenData(token), &end);
         ASSERT(end != nullptr);
         end = nullptr;
         if (absorption < 0) {
@@ -342,7 +350,7 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
         if (!absorption_only) {
 
           // Fission
-          Float const fission = strto<Float>(token.data(), &end);
+          Float const fission = strto<Float>(tokenData(token), &end);
           ASSERT(end != nullptr);
           end = nullptr;
           if (fission > 0) {
@@ -358,7 +366,7 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
 
           // nu-fission
           token = line_view.getTokenAndShrink();
-          Float const nu_fission = strto<Float>(token.data(), &end);
+          Float const nu_fission = strto<Float>(tokenData(token), &end);
           ASSERT(end != nullptr);
           end = nullptr;
           if (nu_fission < 0) {
@@ -370,7 +378,7 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
 
           // Transport
           token = line_view.getTokenAndShrink();
-          Float const transport = strto<Float>(token.data(), &end);
+          Float const transport = strto<Float>(tokenData(token), &end);
           ASSERT(end != nullptr);
           end = nullptr;
           if (transport < 0) {
@@ -382,7 +390,7 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
 
           // Total scattering
           token = line_view.getTokenAndShrink();
-          Float const total_scatter = strto<Float>(token.data(), &end);
+          Float const total_scatter = strto<Float>(tokenData(token), &end);
           ASSERT(end != nullptr);
           end = nullptr;
           if (total_scatter < 0) {
@@ -395,7 +403,7 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
           // Scattering matrix
           // Minimum column index
           token = line_view.getTokenAndShrink();
-          Int const min_col = strto<Int>(token.data(), &end);
+          Int const min_col = strto<Int>(tokenData(token), &end);
           ASSERT(end != nullptr);
           end = nullptr;
           ASSERT(min_col >= 1); // MPACT is 1-based
@@ -403,7 +411,7 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
 
           // Maximum column index
           token = line_view.getTokenAndShrink();
-          Int const max_col = strto<Int>(token.data(), &end);
+          Int const max_col = strto<Int>(tokenData(token), &end);
           ASSERT(end != nullptr);
           end = nullptr;
           ASSERT(max_col >= min_col);
@@ -414,7 +422,7 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
           // Read the scattering matrix elements
           for (Int icol = 0; icol < num_cols; ++icol) {
             token = line_view.getTokenAndShrink();
-            Float const value = strto<Float>(token.data(), &end);
+            Float const value = strto<Float>(tokenData(token), &end);
             ASSERT(end != nullptr);
             end = nullptr;
             if (value < 0) {
-- 
2.43.0


From a27b483fe754572e1eed8a263d9449924b248791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:26 +0000
Subject: [PATCH 12/27] fix: report a cross-section library with too few
 nuclides

The nuclides that the header declares but the file does not contain were
left empty without a message.
---
 src/physics/cross_section_library.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/physics/cross_section_library.cpp b/src/physics/cross_section_library.cpp
index 28d0056..eb23440 100644
--- a/src/physics/cross_section_library.cpp
+++ b/src/physics/cross_section_library.cpp
@@ -449,6 +449,10 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
 
     ++nuclide_ctr;
   } // while (!line.starts_with("%END"))
+  if (nuclide_ctr != num_nuclides) {
+    LOG_ERROR("Expected ", num_nuclides, " nuclides but found ", nuclide_ctr, " in ",
+              filename);
+  }
 
   // close the file
   file.close();
-- 
2.43.0


From 3e78a9c180804939669efabe0d41f8b10acc7fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:10 +0000
Subject: [PATCH 13/27] fix: read group bounds and chi from lines with trailing
 spaces

A line of the cross-section library that ended in spaces made the reader
take a stale piece of its line buffer as the next value.
---
 src/physics/cross_section_library.cpp | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/src/physics/cross_section_library.cpp b/src/physics/cross_section_library.cpp
index eb23440..3aea733 100644
--- a/src/physics/cross_section_library.cpp
+++ b/src/physics/cross_section_library.cpp
@@ -126,17 +126,10 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
 
     // If the token is empty, we have reached the end of the line
     if (token.empty()) {
-      bool const one_more_token = !line_view.empty();
-      if (one_more_token) {
-        token = line_view;
-      }
-      // If this is the last group, we don't need to read another line
       file.getline(line, max_line_length);
       line_view = StringView(line);
       line_view.removeLeadingSpaces();
-      if (!one_more_token) {
-        token = line_view.getTokenAndShrink();
-      }
+      token = line_view.getTokenAndShrink();
     }
 
     group_bounds[ig] = strto<Float>(tokenData(token), &end);
@@ -166,17 +159,10 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
 
     // If the token is empty, we have reached the end of the line
     if (token.empty()) {
-      bool const one_more_token = !line_view.empty();
-      if (one_more_token) {
-        token = line_view;
-      }
-      // If this is the last group, we don't need to read another line
       file.getline(line, max_line_length);
       line_view = StringView(line);
       line_view.removeLeadingSpaces();
-      if (!one_more_token) {
-        token = line_view.getTokenAndShrink();
-      }
+      token = line_view.getTokenAndShrink();
     }
 
     chi[ig] = strto<Float>(tokenData(token), &end);
-- 
2.43.0


From f3ac842d343e16fc873259d9b7f5713f162f62c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:12 +0000
Subject: [PATCH 14/27] fix: measure the logger's elapsed time with a steady
 clock

Setting the system clock back made the elapsed time negative, and the
timestamp was filled with characters that are not digits.
---
 include/um2/common/logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/um2/common/logger.hpp b/include/um2/common/logger.hpp
index 266fda8..c1f1bc5 100644
--- a/include/um2/common/logger.hpp
+++ b/include/um2/common/logger.hpp
@@ -23,7 +23,7 @@
 namespace um2::logger
 {
 
-using Clock = std::chrono::system_clock;
+using Clock = std::chrono::steady_clock;
 using TimePoint = std::chrono::time_point<Clock>;
 using Duration = std::chrono::duration<double>;
 
-- 
2.43.0


From 0567176d9528800288a3d0dc8ed6f147fa3d7ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:12 +0000
Subject: [PATCH 15/27] fix: keep log timestamps readable in long runs

The milliseconds overflowed after 24 days and the hours ran out of
digits after 99 hours, so the timestamp showed other characters.
---
 include/um2/common/logger.hpp |  2 +-
 src/common/logger.cpp         | 55 ++++++-----------------------------
 2 files changed, 10 insertions(+), 47 deletions(-)

diff --git a/include/um2/common/logger.hpp b/include/um2/common/logger.hpp
index c1f1bc5..a01c414 100644
--- a/include/um2/common/logger.hpp
+++ b/include/um2/common/logger.hpp
@@ -25,7 +25,7 @@ namespace um2::logger
 
 using Clock = std::chrono::steady_clock;
 using TimePoint = std::chrono::time_point<Clock>;
-using Duration = std::chrono::duration<double>;
+using Milliseconds = std::chrono::milliseconds;
 
 namespace levels
 {
diff --git a/src/common/logger.cpp b/src/common/logger.cpp
index 29be0e0..5020cba 100644
--- a/src/common/logger.cpp
+++ b/src/common/logger.cpp
@@ -8,6 +8,7 @@
 #include <um2/stdlib/string.hpp>
 #include <um2/stdlib/string_view.hpp>
 
+#include <chrono>
 #include <cstdint>
 #include <cstdio>
 
@@ -222,52 +223,14 @@ auto
 addTimestamp(char * buffer_pos) noexcept -> char *
 {
   if (timestamped) {
-    Duration const elapsed_seconds = Clock::now() - start_time;
-    Int const hours = static_cast<Int>(elapsed_seconds.count()) / 3600;
-    Int const minutes = (static_cast<Int>(elapsed_seconds.count()) / 60) % 60;
-    Int const seconds = static_cast<Int>(elapsed_seconds.count()) % 60;
-    Int const milliseconds = static_cast<Int>(elapsed_seconds.count() * 1000) % 1000;
-    buffer_pos[0] = '[';
-    if (hours < 10) {
-      buffer_pos[1] = '0';
-      buffer_pos[2] = static_cast<char>(hours + '0');
-    } else {
-      buffer_pos[1] = static_cast<char>(hours / 10 + '0');
-      buffer_pos[2] = static_cast<char>(hours % 10 + '0');
-    }
-    buffer_pos[3] = ':';
-    if (minutes < 10) {
-      buffer_pos[4] = '0';
-      buffer_pos[5] = static_cast<char>(minutes + '0');
-    } else {
-      buffer_pos[4] = static_cast<char>(minutes / 10 + '0');
-      buffer_pos[5] = static_cast<char>(minutes % 10 + '0');
-    }
-    buffer_pos[6] = ':';
-    if (seconds < 10) {
-      buffer_pos[7] = '0';
-      buffer_pos[8] = static_cast<char>(seconds + '0');
-    } else {
-      buffer_pos[7] = static_cast<char>(seconds / 10 + '0');
-      buffer_pos[8] = static_cast<char>(seconds % 10 + '0');
-    }
-    buffer_pos[9] = '.';
-    if (milliseconds < 10) {
-      buffer_pos[10] = '0';
-      buffer_pos[11] = '0';
-      buffer_pos[12] = static_cast<char>(milliseconds + '0');
-    } else if (milliseconds < 100) {
-      buffer_pos[10] = '0';
-      buffer_pos[11] = static_cast<char>(milliseconds / 10 + '0');
-      buffer_pos[12] = static_cast<char>(milliseconds % 10 + '0');
-    } else {
-      buffer_pos[10] = static_cast<char>(milliseconds / 100 + '0');
-      buffer_pos[11] = static_cast<char>((milliseconds % 100) / 10 + '0');
-      buffer_pos[12] = static_cast<char>((milliseconds % 100) % 10 + '0');
-    }
-    buffer_pos[13] = ']';
-    buffer_pos[14] = ' ';
-    buffer_pos += 15;
+    auto const elapsed = Clock::now() - start_time;
+    auto const ms =
+        static_cast<int64_t>(std::chrono::duration_cast<Milliseconds>(elapsed).count());
+    int32_t const written = snprintf(
+        buffer_pos, static_cast<uint64_t>(buffer_end - buffer_pos),
+        "[%02ld:%02ld:%02ld.%03ld] ", ms / 3600000, (ms / 60000) % 60, (ms / 1000) % 60,
+        ms % 1000);
+    buffer_pos += written;
   } // timestamped
   return buffer_pos;
 } // addTimestamp
-- 
2.43.0


From a8b1c952d79309230797b1afc56e77f085c85535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:37 +0000
Subject: [PATCH 16/27] fix: cut over-long log messages instead of ending the
 program

A message that does not fit in the fixed-size buffer ended the program
with a failed assertion, or overran the buffer without assertions.
---
 src/common/logger.cpp | 88 ++++++++++++++++---------------------------
 1 file changed, 33 insertions(+), 55 deletions(-)

diff --git a/src/common/logger.cpp b/src/common/logger.cpp
index 5020cba..b3a86fc 100644
--- a/src/common/logger.cpp
+++ b/src/common/logger.cpp
@@ -65,13 +65,35 @@ reset() noexcept
 namespace
 {
 
+// The color reset and the null terminator
+ptrdiff_t constexpr postamble_size = 5;
+
+// Append as many characters as fit. The rest of an over-long message is cut.
+auto
+appendToBuffer(char * buffer_pos, char const * const first, ptrdiff_t const n) noexcept
+    -> char *
+{
+  ptrdiff_t const room = buffer_end - buffer_pos - postamble_size;
+  char const * const last = first + (n < room ? n : room);
+  return um2::copy(first, last, buffer_pos);
+}
+
 auto
 appendStringViewToBuffer(char * buffer_pos, StringView const sv) noexcept -> char *
 {
-  auto * const new_pos = buffer_pos + sv.size();
-  ASSERT(new_pos < buffer_end);
-  um2::copy(sv.begin(), sv.end(), buffer_pos);
-  return new_pos;
+  return appendToBuffer(buffer_pos, sv.data(), static_cast<ptrdiff_t>(sv.size()));
+}
+
+// Use snprintf to convert the value to a string and store it in the buffer
+template <class T>
+auto
+appendFormatted(char * buffer_pos, char const * const format, T const value) noexcept
+    -> char *
+{
+  char text[buffer_size];
+  int32_t const len = snprintf(text, buffer_size, format, value);
+  ASSERT(len > 0);
+  return appendToBuffer(buffer_pos, text, len < buffer_size ? len : buffer_size - 1);
 }
 
 } // namespace
@@ -91,23 +113,14 @@ template <>
 auto
 toBuffer(char * buffer_pos, char const & value) noexcept -> char *
 {
-  *buffer_pos = value;
-  ++buffer_pos;
-  ASSERT(buffer_pos < buffer_end);
-  return buffer_pos;
+  return appendToBuffer(buffer_pos, &value, 1);
 }
 
-// Use snprintf to convert the value to a string and store it in the buffer
 template <>
 auto
 toBuffer(char * buffer_pos, int32_t const & value) noexcept -> char *
 {
-  int32_t const len = snprintf(nullptr, 0, "%d", value);
-  int32_t const written =
-      snprintf(buffer_pos, static_cast<uint64_t>(buffer_end - buffer_pos), "%d", value);
-  ASSERT(len == written);
-  ASSERT(buffer_pos + len < buffer_end);
-  return buffer_pos + len;
+  return appendFormatted(buffer_pos, "%d", value);
 }
 
 template <>
@@ -123,48 +136,28 @@ template <>
 auto
 toBuffer(char * buffer_pos, uint32_t const & value) noexcept -> char *
 {
-  int32_t const len = snprintf(nullptr, 0, "%u", value);
-  int32_t const written =
-      snprintf(buffer_pos, static_cast<uint64_t>(buffer_end - buffer_pos), "%u", value);
-  ASSERT(len == written);
-  ASSERT(buffer_pos + len < buffer_end);
-  return buffer_pos + len;
+  return appendFormatted(buffer_pos, "%u", value);
 }
 
 template <>
 auto
 toBuffer(char * buffer_pos, int64_t const & value) noexcept -> char *
 {
-  int32_t const len = snprintf(nullptr, 0, "%ld", value);
-  int32_t const written =
-      snprintf(buffer_pos, static_cast<uint64_t>(buffer_end - buffer_pos), "%ld", value);
-  ASSERT(len == written);
-  ASSERT(buffer_pos + len < buffer_end);
-  return buffer_pos + len;
+  return appendFormatted(buffer_pos, "%ld", value);
 }
 
 template <>
 auto
 toBuffer(char * buffer_pos, uint64_t const & value) noexcept -> char *
 {
-  int32_t const len = snprintf(nullptr, 0, "%lu", value);
-  int32_t const written =
-      snprintf(buffer_pos, static_cast<uint64_t>(buffer_end - buffer_pos), "%lu", value);
-  ASSERT(len == written);
-  ASSERT(buffer_pos + len < buffer_end);
-  return buffer_pos + len;
+  return appendFormatted(buffer_pos, "%lu", value);
 }
 
 template <>
 auto
 toBuffer(char * buffer_pos, double const & value) noexcept -> char *
 {
-  int32_t const len = snprintf(nullptr, 0, "%f", value);
-  int32_t const written =
-      snprintf(buffer_pos, static_cast<uint64_t>(buffer_end - buffer_pos), "%f", value);
-  ASSERT(len == written);
-  ASSERT(buffer_pos + len < buffer_end);
-  return buffer_pos + len;
+  return appendFormatted(buffer_pos, "%f", value);
 }
 
 template <>
@@ -180,22 +173,7 @@ template <>
 auto
 toBuffer(char * buffer_pos, bool const & value) noexcept -> char *
 {
-  if (value) {
-    buffer_pos[0] = 't';
-    buffer_pos[1] = 'r';
-    buffer_pos[2] = 'u';
-    buffer_pos[3] = 'e';
-    buffer_pos += 4;
-  } else {
-    buffer_pos[0] = 'f';
-    buffer_pos[1] = 'a';
-    buffer_pos[2] = 'l';
-    buffer_pos[3] = 's';
-    buffer_pos[4] = 'e';
-    buffer_pos += 5;
-  }
-  ASSERT(buffer_pos < buffer_end);
-  return buffer_pos;
+  return appendStringViewToBuffer(buffer_pos, value ? "true" : "false");
 }
 
 template <>
-- 
2.43.0


From 12937fcd4d63b4d474b4ed3ba6f453cf9f476264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:11 +0000
Subject: [PATCH 17/27] fix: log empty strings

A message with an empty string in it ended the program, because a string
view must not be empty.
---
 src/common/logger.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/common/logger.cpp b/src/common/logger.cpp
index b3a86fc..828288a 100644
--- a/src/common/logger.cpp
+++ b/src/common/logger.cpp
@@ -11,6 +11,7 @@
 #include <chrono>
 #include <cstdint>
 #include <cstdio>
+#include <cstring>
 
 namespace um2::logger
 {
@@ -103,9 +104,7 @@ template <>
 auto
 toBuffer(char * buffer_pos, char const * const & value) noexcept -> char *
 {
-  char const * p = value;
-  StringView const sv(p);
-  return appendStringViewToBuffer(buffer_pos, sv);
+  return appendToBuffer(buffer_pos, value, static_cast<ptrdiff_t>(strlen(value)));
 }
 
 // char
@@ -187,8 +186,7 @@ template <>
 auto
 toBuffer(char * buffer_pos, String const & value) noexcept -> char *
 {
-  StringView const sv(value);
-  return toBuffer(buffer_pos, sv);
+  return appendToBuffer(buffer_pos, value.data(), static_cast<ptrdiff_t>(value.size()));
 }
 
 // NOLINTEND(clang-analyzer-deadcode.DeadStores,clang-diagnostic-unused-variable)
-- 
2.43.0


From 44e17719cde8a948c30538ac564a0c5322e48cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:55 +0000
Subject: [PATCH 18/27] fix: do not report another quantity's values for a
 missing CMFD quantity

extract_cmfd_info kept the ids and values of the previous element set when
the next one did not exist, and wrote them to the wrong output file.
---
 post-process/extract_cmfd_info.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/post-process/extract_cmfd_info.cpp b/post-process/extract_cmfd_info.cpp
index 61b05e8..ef2a863 100644
--- a/post-process/extract_cmfd_info.cpp
+++ b/post-process/extract_cmfd_info.cpp
@@ -43,6 +43,8 @@ main(int argc, char ** argv) -> int
     }
     um2::String const elset_name2 =
         "Homogenized_Scattering_Ratio_Group_" + um2::mpact::getASCIINumber(i);
+    ids.clear();
+    tmp.clear();
     soup.getElset(elset_name2, ids, tmp);
     if (!ids.empty()) {
       group_scattering_ratio.push_back(tmp);
@@ -50,6 +52,8 @@ main(int argc, char ** argv) -> int
     }
     um2::String const elset_name3 =
         "1D_odCMFD_Spectral_Radius_Group_" + um2::mpact::getASCIINumber(i);
+    ids.clear();
+    tmp.clear();
     soup.getElset(elset_name3, ids, tmp);
     if (!ids.empty()) {
       group_spectral_radius.push_back(tmp);
-- 
2.43.0


From 548c314146586c06c4124f745eccf4ac1f041120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:53:56 +0000
Subject: [PATCH 19/27] fix: read back physical group names that contain a
 quote

Opening a CAD model with such a group failed, because the name was taken
to end at the first quote.
---
 src/gmsh/io.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gmsh/io.cpp b/src/gmsh/io.cpp
index 35e31ef..62a76b3 100644
--- a/src/gmsh/io.cpp
+++ b/src/gmsh/io.cpp
@@ -210,7 +210,8 @@ addPhysicalGroups(std::ifstream & info_file, std::string const & info_filename)
       return;
     }
     size_t const name_start = line.find('"') + 1;
-    size_t const name_end = line.find('"', name_start);
+    // The name is the last quoted item on the line and may itself contain quotes.
+    size_t const name_end = line.rfind('"');
     std::string const name = line.substr(name_start, name_end - name_start);
     // dim is 1, 2, or 3 and is 2 characters after the end of the name.
     size_t const dim_start = name_end + 2;
-- 
2.43.0


From c02290c67a5a559ddd2726ac60c9444deaad7b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:53:56 +0000
Subject: [PATCH 20/27] fix: accept physical groups of points when opening a
 CAD model

Such groups are saved, but opening the model ended the program.
---
 src/gmsh/io.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gmsh/io.cpp b/src/gmsh/io.cpp
index 62a76b3..7be0f7c 100644
--- a/src/gmsh/io.cpp
+++ b/src/gmsh/io.cpp
@@ -213,10 +213,10 @@ addPhysicalGroups(std::ifstream & info_file, std::string const & info_filename)
     // The name is the last quoted item on the line and may itself contain quotes.
     size_t const name_end = line.rfind('"');
     std::string const name = line.substr(name_start, name_end - name_start);
-    // dim is 1, 2, or 3 and is 2 characters after the end of the name.
+    // dim is 0, 1, 2, or 3 and is 2 characters after the end of the name.
     size_t const dim_start = name_end + 2;
     int const dim = std::stoi(line.substr(dim_start, 1));
-    ASSERT(dim > 0);
+    ASSERT(dim >= 0);
     ASSERT(dim < 4);
 
     size_t const num_tags_start = dim_start + 2;
-- 
2.43.0


From dd04c26515f327070b48509a81161e4ae7215aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:53:56 +0000
Subject: [PATCH 21/27] fix: report a failed write of the CAD group and colour
 file

A full disk or a write error left a partial .info file without a message.
---
 src/gmsh/io.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gmsh/io.cpp b/src/gmsh/io.cpp
index 7be0f7c..6bedbb4 100644
--- a/src/gmsh/io.cpp
+++ b/src/gmsh/io.cpp
@@ -185,6 +185,9 @@ write(std::string const & filename, bool const extra_info)
   }
   // Finished. Close file.
   info_file.close();
+  if (info_file.fail()) {
+    LOG_ERROR("Could not write file ", info_filename.c_str());
+  }
 } // write
 
 namespace
-- 
2.43.0


From 2c0b93d9226d08cf96c30e7d69a58b9701eaaa67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:54:08 +0000
Subject: [PATCH 22/27] fix: report a CAD group and colour file that is cut
 short or unreadable

A file cut inside its last number, or a read error, gave wrong groups
without a message.
---
 src/gmsh/io.cpp | 46 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/gmsh/io.cpp b/src/gmsh/io.cpp
index 6bedbb4..242f65f 100644
--- a/src/gmsh/io.cpp
+++ b/src/gmsh/io.cpp
@@ -192,6 +192,20 @@ write(std::string const & filename, bool const extra_info)
 
 namespace
 {
+
+// Read a line. Every line ends with a newline, so a line without one is incomplete.
+auto
+readLine(std::ifstream & info_file, std::string const & info_filename, std::string & line)
+    -> bool
+{
+  std::getline(info_file, line);
+  if (!info_file.good()) {
+    LOG_ERROR("Unexpected end of file or read error in ", info_filename.c_str());
+    return false;
+  }
+  return true;
+}
+
 void
 addPhysicalGroups(std::ifstream & info_file, std::string const & info_filename)
 {
@@ -199,7 +213,9 @@ addPhysicalGroups(std::ifstream & info_file, std::string const & info_filename)
   // PHYSICAL_GROUPS
   //==============================================================================
   std::string line;
-  std::getline(info_file, line);
+  if (!readLine(info_file, info_filename, line)) {
+    return;
+  }
   if (!line.starts_with("PHYSICAL_GROUPS")) {
     LOG_ERROR("Could not read PHYSICAL_GROUPS from ", info_filename.c_str());
     return;
@@ -207,7 +223,9 @@ addPhysicalGroups(std::ifstream & info_file, std::string const & info_filename)
   size_t const num_groups = std::stoul(line.substr(16));
   std::vector<int> tags;
   for (size_t i = 0; i < num_groups; ++i) {
-    std::getline(info_file, line);
+    if (!readLine(info_file, info_filename, line)) {
+      return;
+    }
     if (!line.starts_with("PHYSICAL_GROUP")) {
       LOG_ERROR("Could not read PHYSICAL_GROUP from ", info_filename.c_str());
       return;
@@ -228,7 +246,9 @@ addPhysicalGroups(std::ifstream & info_file, std::string const & info_filename)
     size_t const num_full_lines = num_tags / 8;
     size_t const num_remaining_tags = num_tags % 8;
     for (size_t j = 0; j < num_full_lines; ++j) {
-      std::getline(info_file, line);
+      if (!readLine(info_file, info_filename, line)) {
+        return;
+      }
       size_t token_start = 0;
       size_t token_end = line.find(' ');
       for (size_t k = 0; k < 7; ++k) {
@@ -239,7 +259,9 @@ addPhysicalGroups(std::ifstream & info_file, std::string const & info_filename)
       tags[8 * j + 7] = std::stoi(line.substr(token_start));
     }
     if (num_remaining_tags != 0) {
-      std::getline(info_file, line);
+      if (!readLine(info_file, info_filename, line)) {
+        return;
+      }
       size_t token_start = 0;
       for (size_t k = 0; k + 1 < num_remaining_tags; ++k) {
         size_t const token_end = line.find(' ', token_start);
@@ -293,14 +315,18 @@ open(std::string const & filename, bool const extra_info)
   //==============================================================================
   {
     std::string line;
-    std::getline(info_file, line);
+    if (!readLine(info_file, info_filename, line)) {
+      return;
+    }
     if (!line.starts_with("ENTITY_COLORS")) {
       LOG_ERROR("Could not read ENTITY_COLORS from ", info_filename.c_str());
       return;
     }
     size_t const num_colors = std::stoul(line.substr(14));
     for (size_t i = 0; i < num_colors; ++i) {
-      std::getline(info_file, line);
+      if (!readLine(info_file, info_filename, line)) {
+        return;
+      }
       if (!line.starts_with("ENTITY_COLOR")) {
         LOG_ERROR("Could not read ENTITY_COLOR from ", info_filename.c_str());
         return;
@@ -323,7 +349,9 @@ open(std::string const & filename, bool const extra_info)
       size_t const num_full_lines = num_dimtags / 8;
       size_t const num_remaining_dimtags = num_dimtags % 8;
       for (size_t j = 0; j < num_full_lines; ++j) {
-        std::getline(info_file, line);
+        if (!readLine(info_file, info_filename, line)) {
+          return;
+        }
         token_start = 0;
         for (size_t k = 0; k < 7; ++k) {
           // Dim
@@ -344,7 +372,9 @@ open(std::string const & filename, bool const extra_info)
         dimtags[8 * j + 7].second = std::stoi(line.substr(token_start));
       }
       if (num_remaining_dimtags != 0) {
-        std::getline(info_file, line);
+        if (!readLine(info_file, info_filename, line)) {
+          return;
+        }
         token_start = 0;
         for (size_t k = 0; k + 1 < num_remaining_dimtags; ++k) {
           // Dim
-- 
2.43.0


From 9d09b1a320403bce116084f85a423082ae8772a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:27:22 +0000
Subject: [PATCH 23/27] fix: report data lost when an HDF5 data set is closed

Small data sets are buffered and written when the data set is closed.
The HDF5 C++ destructor ignores a failure there, so a mesh or model
could be saved incomplete without any error. Close the data sets
explicitly, which throws.
---
 src/mesh/polytope_soup.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index 5a7392d..0e0226e 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -1259,7 +1259,7 @@ writeXDMFGeometry(pugi::xml_node & xgrid, H5::Group & h5group, String const & h5
   // Create HDF5 data type
   H5::DataType const h5type = getH5DataType<Float>();
   // Create HDF5 data set
-  H5::DataSet const h5dataset = h5group.createDataSet("Geometry", h5type, h5space);
+  H5::DataSet h5dataset = h5group.createDataSet("Geometry", h5type, h5space);
   // Create an xy or xyz array
   Vector<Float> xyz(num_verts * dim);
   if (dim == 2) {
@@ -1274,8 +1274,10 @@ writeXDMFGeometry(pugi::xml_node & xgrid, H5::Group & h5group, String const & h5
       xyz[3 * i + 2] = vertices[i][2] + origin[2];
     }
   }
-  // Write HDF5 data set
+  // Write HDF5 data set. Buffered data is written when the data set is closed, and only an
+  // explicit close reports a failure to do so.
   h5dataset.write(xyz.data(), h5type, h5space);
+  h5dataset.close();
 } // writeXDMFgeometry
 
 void
@@ -1363,17 +1365,19 @@ writeXDMFTopology(pugi::xml_node & xgrid, H5::Group & h5group, String const & h5
     hsize_t dims[2] = {static_cast<hsize_t>(nelems), static_cast<hsize_t>(nverts)};
     H5::DataSpace const h5space(2, dims);
     // Create HDF5 data set
-    H5::DataSet const h5dataset = h5group.createDataSet("Topology", h5type, h5space);
+    H5::DataSet h5dataset = h5group.createDataSet("Topology", h5type, h5space);
     // Write HDF5 data set
     h5dataset.write(soup.elementConnectivity().data(), h5type, h5space);
+    h5dataset.close();
   } else {
     // Create HDF5 data space
     auto const dims = static_cast<hsize_t>(topology.size());
     H5::DataSpace const h5space(1, &dims);
     // Create HDF5 data set
-    H5::DataSet const h5dataset = h5group.createDataSet("Topology", h5type, h5space);
+    H5::DataSet h5dataset = h5group.createDataSet("Topology", h5type, h5space);
     // Write HDF5 data set
     h5dataset.write(topology.data(), h5type, h5space);
+    h5dataset.close();
   }
 } // writeXDMFTopology
 
@@ -1395,9 +1399,10 @@ writeXDMFElsets(pugi::xml_node & xgrid, H5::Group & h5group, String const & h5fi
     // Create HDF5 data type
     H5::DataType const h5type = getH5DataType<Int>();
     // Create HDF5 data set
-    H5::DataSet const h5dataset = h5group.createDataSet(name.data(), h5type, h5space);
+    H5::DataSet h5dataset = h5group.createDataSet(name.data(), h5type, h5space);
     // Write HDF5 data set.
     h5dataset.write(&(elset_ids[start]), h5type, h5space);
+    h5dataset.close();
 
     // Create XDMF Elset node
     auto xelset = xgrid.append_child("Set");
@@ -1419,10 +1424,11 @@ writeXDMFElsets(pugi::xml_node & xgrid, H5::Group & h5group, String const & h5fi
       // Create HDF5 data type
       H5::DataType const h5type_data = getH5DataType<Float>();
       // Create HDF5 data set
-      H5::DataSet const h5dataset_data =
+      H5::DataSet h5dataset_data =
           h5group.createDataSet((name + "_data").data(), h5type_data, h5space_data);
       // Write HDF5 data set
       h5dataset_data.write(elset_data[i].data(), h5type_data, h5space_data);
+      h5dataset_data.close();
 
       // Create XDMF data node
       auto xatt = xelset.append_child("Attribute");
-- 
2.43.0


From dcd37d323e535b41997366030e46d166b1572d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:01:57 +0000
Subject: [PATCH 24/27] fix: do not leave an old XML file beside new HDF5 data

Saving a mesh or model writes an HDF5 file and then an XML file that
describes it. When a save stopped part-way, for example because memory ran
out, the XML file of an earlier save stayed next to the new HDF5 file. The
two could then be loaded together as a mixture of both saves. The old XML
file is now removed as soon as the new HDF5 file is started.
---
 src/mesh/polytope_soup.cpp | 7 +++++++
 src/mpact/model.cpp        | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index 0e0226e..c932546 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -23,6 +23,7 @@
 #endif
 
 #include <algorithm>
+#include <cerrno>
 #include <cstdint>
 #include <cstdio>
 #include <cstdlib>
@@ -1496,6 +1497,12 @@ writeXDMFFile(String const & filepath, PolytopeSoup const & soup)
   String const h5fullpath = h5filepath + h5filename;
   H5::H5File h5file(h5fullpath.data(), H5F_ACC_TRUNC);
 
+  // An older XML file does not describe the new HDF5 file. Remove it, so that a save that is
+  // not completed cannot be read as a mixture of the two.
+  if (std::remove(filepath.data()) != 0 && errno != ENOENT) {
+    LOG_ERROR("Could not replace file: ", filepath);
+  }
+
   // Setup XML file
   pugi::xml_document xdoc;
 
diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index ca1d7a3..6d10d23 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -38,6 +38,8 @@
 #endif
 
 #include <algorithm>
+#include <cerrno>
+#include <cstdio>
 #include <cstring>
 #include <fstream>
 #include <iomanip>
@@ -1715,6 +1717,12 @@ writeXDMFFile(String const & filepath, Model const & model,
   String const h5fullpath = h5filepath + h5filename;
   H5::H5File h5file(h5fullpath.data(), H5F_ACC_TRUNC);
 
+  // An older XML file does not describe the new HDF5 file. Remove it, so that a save that is
+  // not completed cannot be read as a mixture of the two.
+  if (std::remove(filepath.data()) != 0 && errno != ENOENT) {
+    logger::error("Could not replace file: ", filepath);
+  }
+
   // Setup XML file
   pugi::xml_document xdoc;
 
-- 
2.43.0


From 8b311ae83f62b4e1d25cd9d12e5e8ee79d3fa1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:28:10 +0000
Subject: [PATCH 25/27] fix: report a model save whose HDF5 file could not be
 closed

---
 src/mpact/model.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 6d10d23..13bb971 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -1754,7 +1754,7 @@ writeXDMFFile(String const & filepath, Model const & model,
   pugi::xml_node xcore_grid = xdomain.append_child("Grid");
   xcore_grid.append_attribute("Name") = name.data();
   xcore_grid.append_attribute("GridType") = "Tree";
-  H5::Group const h5core_group = h5file.createGroup(name.data());
+  H5::Group h5core_group = h5file.createGroup(name.data());
   String const h5core_grouppath = "/" + name;
 
   // Allocate counters for each assembly, lattice, etc.
@@ -1953,6 +1953,9 @@ writeXDMFFile(String const & filepath, Model const & model,
   }
 
   // Flush and close the HDF5 file
+  // The file is only closed once no object in it is open, and only an explicit close
+  // reports failure.
+  h5core_group.close();
   h5file.flush(H5F_SCOPE_GLOBAL);
   h5file.close();
 
-- 
2.43.0


From 87fefefed8d8847e1280be9f8f46b25777e035b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:41:58 +0000
Subject: [PATCH 26/27] fix: report results without the flux of a group instead
 of reusing another group's

getSource kept the flux of the previous group when the element set of a group was
missing, so the sources were silently wrong.
---
 src/mpact/source.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mpact/source.cpp b/src/mpact/source.cpp
index 2e91285..5e7efd1 100644
--- a/src/mpact/source.cpp
+++ b/src/mpact/source.cpp
@@ -60,9 +60,14 @@ getSource(PolytopeSoup const & soup, Vector<Material> const & materials) -> Vect
   Int const ngroups = materials[0].xsec().numGroups();
   for (Int ig = 0; ig < ngroups; ++ig) {
     // Get the flux data for group ig
+    // Drop the data of the previous group, since it is kept if the elset is missing
+    ids.clear();
+    flux.clear();
     soup.getElset(elset_name, ids, flux);
-    ASSERT(ids.size() == num_faces);
-    ASSERT(flux.size() == num_faces);
+    if (ids.size() != num_faces || flux.size() != num_faces) {
+      LOG_ERROR("No flux data for all faces in ", elset_name);
+      return {};
+    }
     // For each face, reduce onto the source
     for (Int i = 0; i < num_faces; ++i) {
       // Get the material
-- 
2.43.0


From 54b3722cc4f21b95ff6db92e1098562d46a5b5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:01:51 +0000
Subject: [PATCH 27/27] fix: do not let gmsh free physical groups twice when a
 program ends

gmsh frees the groups again on finalize when single groups have been removed
before all groups are removed with one call. Laying a grid over pins whose
materials include the fill material does both, and the program crashed at its
end. Remove the groups by their tags instead.
---
 src/gmsh/model.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/gmsh/model.cpp b/src/gmsh/model.cpp
index 34b9e75..d7ab774 100644
--- a/src/gmsh/model.cpp
+++ b/src/gmsh/model.cpp
@@ -236,6 +236,23 @@ groupPreservingInputChecking(gmsh::vectorpair const & object_dimtags,
   return object_dim;
 }
 
+//=============================================================================
+// removeAllPhysicalGroups
+//=============================================================================
+// gmsh frees the groups a second time on finalize when single groups have been
+// removed before removePhysicalGroups() is called without arguments, so the groups
+// are given explicitly.
+
+void
+removeAllPhysicalGroups()
+{
+  gmsh::vectorpair dimtags;
+  gmsh::model::getPhysicalGroups(dimtags);
+  if (!dimtags.empty()) {
+    gmsh::model::removePhysicalGroups(dimtags);
+  }
+}
+
 //=============================================================================
 // getPhysicalGroupInfo
 //=============================================================================
@@ -451,7 +468,7 @@ groupPreservingFragment(gmsh::vectorpair const & object_dimtags,
   size_t const ntool = tool_dimtags.size();
 
   LOG_INFO("Fragmenting ", nobject, " object entities and ", ntool, " tool entities");
-  gmsh::model::removePhysicalGroups();
+  removeAllPhysicalGroups();
 
   gmsh::model::occ::fragment(object_dimtags, tool_dimtags, out_dimtags, out_dimtags_map,
                              tag, remove_object, remove_tool);
@@ -540,7 +557,7 @@ groupPreservingIntersect(gmsh::vectorpair const & object_dimtags,
   size_t const nobject = object_dimtags.size();
   size_t const ntool = tool_dimtags.size();
   LOG_INFO("Intersecting ", nobject, " object entities and ", ntool, " tool entities");
-  gmsh::model::removePhysicalGroups();
+  removeAllPhysicalGroups();
   gmsh::model::occ::intersect(object_dimtags, tool_dimtags, out_dimtags, out_dimtags_map,
                               tag, remove_object, remove_tool);
   gmsh::model::occ::synchronize();
@@ -622,7 +639,7 @@ groupPreservingCut(gmsh::vectorpair const & object_dimtags,
   size_t const nobject = object_dimtags.size();
   size_t const ntool = tool_dimtags.size();
   LOG_INFO("Cutting ", nobject, " object entities and ", ntool, " tool entities");
-  gmsh::model::removePhysicalGroups();
+  removeAllPhysicalGroups();
   gmsh::model::occ::cut(object_dimtags, tool_dimtags, out_dimtags, out_dimtags_map, tag,
                         remove_object, remove_tool);
   gmsh::model::occ::synchronize();
-- 
2.43.0

