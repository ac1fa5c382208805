import json
P=[]
def p(id,title,statement,over,qtext,why,files,state,mech,observe,hook=False):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
SOUP='src/mesh/polytope_soup.cpp'; SOUPH='include/um2/mesh/polytope_soup.hpp'; MODEL='src/mpact/model.cpp'; MODELH='include/um2/mpact/model.hpp'
p('M01','Saved meshes come back unchanged in every later process',
 'After a mesh is saved to an XDMF file without any error being reported, loading that file in the same or any later process gives back the same vertices, the same elements (kind, order and vertex numbers) and the same named element sets with their members and per-member values. This holds for every history of saves, overwrites by smaller or different meshes, loads and restarts, for every supported mix of element kinds, for flat and three-dimensional meshes, for files in any directory, and however the operating system splits or interrupts the transfers. Coordinates and values come back as the identical numbers, except that an out-of-plane coordinate too small to matter (below one millionth) may be flattened to zero.',
 ['histories','configurations','fault_sequences'],'all histories of saves, overwrites, loads and process restarts over several paths, with every legal splitting and interruption of reads and writes',
 'A unit test writes one mesh once and reads it back in the same process through an operating system that happens to complete every transfer; it cannot cover overwrite histories, restarts, or short and interrupted transfers, nor the product of element kinds, sets and data.',
 [SOUP,SOUPH],['vertex, element and element-set arrays of a mesh','the XML file and the HDF5 file of a saved mesh'],
 [('XDMF writer',SOUP+': writeXDMFgeometry, writeXDMFtopology, writeXDMFelsets, writeXDMFUniformGrid, PolytopeSoup::write'),('XDMF reader',SOUP+': addNodesToMesh, addElementsToMesh, addElsetsToMesh, readXDMFUniformGrid, PolytopeSoup::read')],
 ['the mesh returned by a load compared with the mesh that was saved','log output, exceptions and exit status of the save'])
p('M02','A mesh save that loses data is always reported',
 'If the storage fails at any point while a mesh is being saved to XDMF (a file cannot be created, the device fills up, a write, resize or close fails), then either the failure is reported to the caller by an error message, an exception or a failing exit, or the saved files are nevertheless complete and load as the saved mesh. A save that finishes without reporting anything never leaves missing or partial data behind. Retrying after the fault is gone succeeds.',
 ['fault_sequences'],'all placements of open, write, resize and close failures and of the device becoming full during a save',
 'Unit tests run on a disk that never fails, so the behaviour at the n-th failing system call of a save is never executed.',
 [SOUP],['the XML file and the HDF5 file of a saved mesh','error state of the file libraries'],
 [('saving of the XML document',SOUP+': end of the XDMF writer'),('HDF5 data set and file close',SOUP+': writeXDMF* functions'),('error reporting','include/um2/common/logger.hpp: printMessage')],
 ['log output, exceptions and exit status of the save','what a fresh process loads from the files left behind'])
p('M03','Loading a mesh never yields something other than what the file says',
 'Loading a mesh from an Abaqus, VTK or XDMF file either yields exactly the vertices, elements, element sets and values that the file describes or reports an error. This holds when the file cannot be opened, when a read fails part-way, when reads are short or interrupted, and when the file is cut short inside a section whose size it declares (VTK and XDMF). A load never presents a partial mesh as a success, and a load that failed does not affect later loads in the same process.',
 ['fault_sequences','inputs'],'all placements of open and read failures, short and interrupted reads and truncation points, over generated files in all three formats',
 'Unit tests read intact files from a disk that never fails; a failing read looks like end of file to a stream, and only an injected failure shows whether the reader tells the two apart.',
 [SOUP],['line buffer and stream state of the text readers','vertex, element and element-set arrays of the mesh being loaded'],
 [('Abaqus reader',SOUP+': abaqusParseNodes, abaqusParseElements, abaqusParseElsets, readAbaqusFile'),('VTK reader',SOUP+': readVTKFile and helpers'),('XDMF reader',SOUP+': readXDMFFile and helpers')],
 ['the loaded mesh compared with an independent parse of the same bytes','log output, exceptions and exit status of the load'])
p('M04','A crash while saving a mesh never leaves a wrong mesh behind',
 'If the process is killed at any moment while saving a mesh to XDMF, a later process that loads that path gets a reported error, the mesh that was there before, or the mesh that was being saved. It never gets a partial mesh or a mixture of the two. Other saved files are not affected.',
 ['crash_points','histories'],'all points between and inside the system calls of a save, at a new path or over an existing mesh',
 'A unit test cannot kill the process between two system calls of a save and inspect what a new process makes of the files.',
 [SOUP],['the XML file and the HDF5 file of a saved mesh, in their partially written states'],
 [('order in which the two files are truncated, filled and closed',SOUP+': XDMF writer'),('consistency checks on load',SOUP+': XDMF reader')],
 ['what a fresh process loads after the crash'])
p('P01','Saved reactor models come back unchanged',
 'After a reactor model is saved without an error being reported, loading it in the same or any later process gives the same core, assembly, lattice, ray-tracing-module and coarse-cell layout, the same axial divisions (to six decimals), the same material names, and for each coarse cell the same mesh kind, size, faces and per-face materials. This holds for every model in which all parts are used, including parts shared, reused and stacked in any arrangement, with or without the optional extra data, for all histories of saves, overwrites, loads and restarts, and however transfers are split or interrupted.',
 ['histories','configurations','inputs'],'all generated model hierarchies and save/load/restart histories with every legal splitting and interruption of transfers',
 'The unit test saves and loads one hard-coded benchmark whose numbering happens to coincide at several levels; arrangement-dependent mistakes and overwrite or restart histories stay invisible.',
 [MODEL,MODELH],['core, assembly, lattice, module and coarse-cell grids','per-cell meshes and material numbers','the XML and HDF5 files of a saved model'],
 [('model writer',MODEL+': writeXDMFFile'),('model reader',MODEL+': readXDMFFile, getNXbyNY, mapFlatIndexToLattice2D')],
 ['the loaded model compared with the saved model level by level','log output, exceptions and exit status'])
p('P02','A model save that loses data is always reported',
 'If the storage fails at any point while a reactor model is saved (creating, writing, resizing or closing any of the mesh, input, volume or cross-section files), then either the failure is reported by an error message, an exception or a failing exit, or every file is nevertheless complete. A model save that reports nothing never leaves any of its files missing, empty or cut short.',
 ['fault_sequences'],'all placements of storage failures over all files written by a model save',
 'No unit test lets a write fail, so unchecked stream and file states are never noticed.',
 [MODEL,SOUP],['the XML, HDF5, input, volume and cross-section files of a saved model'],
 [('model writer',MODEL+': writeXDMFFile'),('companion file writers',MODEL+': writeInputFile, writeMaterialVolumes, writeCrossSections')],
 ['log output, exceptions and exit status of the save','bytes of every file compared with a fault-free save'])
p('P03','Interrupted or damaged model files never load as a different model',
 'If saving a reactor model is cut off by a crash at any moment, or a read fails or is cut short while a model is loaded, then loading gives exactly the saved model (the old or the new one) or reports an error. It never gives a model with missing, mixed or wrong parts. A failed load of one model leaves other models already in memory unchanged and does not affect later loads in the same process.',
 ['crash_points','fault_sequences'],'all crash points of a model save and all placements of read failures, short reads and truncations during a load',
 'Unit tests load intact files from a perfect disk in the process that wrote them.',
 [MODEL,SOUP],['the XML and HDF5 files of a saved model in partially written states','the model being loaded'],
 [('order of file updates',MODEL+': writeXDMFFile'),('checks on load',MODEL+': readXDMFFile; '+SOUP+': readXDMFUniformGrid')],
 ['what a fresh process loads after the crash or under the fault'])
p('P04','Companion files describe the saved model exactly',
 'The material volume file written with a model lists every material once, with the total volume of that material over the whole core, so the volumes add up to the core volume. The cross-section file lists every material with every group and all five values, and the input file names the saved model and lists every material with density, temperature and number densities. This holds after any history of saves over earlier, longer or different files and with any splitting or interruption of the writes.',
 ['histories','inputs','configurations'],'all generated models and save histories with every legal splitting and interruption of writes',
 'No unit test reads these files back, and a test could only look at one model written once.',
 [MODEL],['input, volume and cross-section files'],
 [('input writer',MODEL+': writeInputFile'),('volume accumulation and writer',MODEL+': writeMaterialVolumes'),('cross-section writer',MODEL+': writeCrossSections')],
 ['contents of the files compared with values computed independently from the model'])
p('P05','Importing generated cell meshes puts every face in its cell and material',
 'Importing a mesh file that marks coarse cells and materials by element sets gives every coarse cell exactly the faces marked for it, placed relative to the cell corner, each with the material marked for it, in every order and interleaving of the sets in the file. If the file cannot be read completely, or lacks one of the coarse cells, or leaves a face of a cell without a material, an error is reported instead. Cells of every mesh kind can be mixed in one model, and a failed import does not affect later imports into other models.',
 ['fault_sequences','inputs','histories'],'all generated cell/material mesh files under open and read failures, short and interrupted reads',
 'Unit tests import a handful of fixed files from a perfect disk.',
 [MODEL,SOUP],['coarse-cell meshes and material numbers'],
 [('import',MODEL+': importCoarseCellMeshes'),('subsets',SOUP+': getSubset')],
 ['faces and materials per coarse cell compared with the generated marking'])
p('P06','Data saved with a model describes every face of the core',
 'A model saved with cross-section or chord-length data stores, for every cell at every place in the core, its faces at that place (global x and y, middle of the layer in z) with, for each face, the material number, the mean absorption, fission, scattering and total cross section over the groups, with cross-section data the total of every group, and with chord-length data the mean chord length and the Knudsen number (one over mean total cross section times mean chord length). Converting the model to a flat mesh gives the same faces with material number, mean total cross section, mean chord length and Knudsen number, each face in the sets of its assembly, lattice, module and cell (number and how often it occurred before), and this mesh survives saving and loading. This holds for all histories of saves over earlier files and with any splitting or interruption of transfers; if the storage fails, either that is reported or everything is stored.',
 ['histories','fault_sequences','crash_points','inputs'],'all generated models and combinations of optional data over save/overwrite/restart histories, with storage failures and kills at any point',
 'One unit test converts a fixed core of a single module and looks at its vertices, two faces and five sets; one saves cross-section data but only loads the model back, which ignores that data.',
 [MODEL,SOUP,'src/physics/cross_section.cpp'],['per-cell data sets','the XML and HDF5 files of a saved model'],
 [('optional data',MODEL+': writeXDMFFile, Model::write'),('flat mesh',MODEL+': Model::operator PolytopeSoup'),('one-group averages','src/physics/cross_section.cpp: collapseTo1GroupAvg')],
 ['stored vertices, faces and data of every place compared with the reference model','the flat mesh before saving and after loading in a fresh process'])
p('K01','The C interface reports exactly the model that was loaded',
 'Through the C interface, a caller that loads a saved model sees the same counts, cell layout, sizes, heights, materials, face areas, centroids and ray crossings as the model that was saved. Several models can be open at once, loaded, queried and deleted in any order without affecting each other, and memory handed out is fully owned by the caller and released exactly once. An allocation request that cannot be met returns null instead of an unusable pointer.',
 ['histories','fault_sequences'],'all interleaved histories of create, load, query, delete, allocate and free calls over several handles, with injected allocation failures in the allocation entry points',
 'Unit tests exercise one handle on one fixed model with unlimited memory.',
 ['src/um2c.cpp','include/um2c.h',MODEL],['models owned by handles','caller-owned arrays'],
 [('handle management','src/um2c.cpp: um2NewMPACTModel, um2DeleteMPACTModel, um2ReadMPACTModel'),('queries','src/um2c.cpp: um2MPACT*'),('allocation','src/um2c.cpp: um2Malloc, um2Free')],
 ['values returned through the C interface compared with the saved model'])
p('X01','A cross-section library is loaded completely or an error is reported',
 'Loading a multigroup cross-section library gives every nuclide the file declares, with its mass, temperatures and all cross sections and scattering entries of every group exactly as written, or reports an error. A library that is cut short, fails to open or fails during a read is never presented as loaded. The result does not depend on how reads are split, nor on loads, successful or failed, made before in the same process.',
 ['fault_sequences','inputs'],'all generated library files under open and read failures, short and interrupted reads and truncation at any byte before the final value',
 'The unit tests for libraries are disabled for lack of the proprietary files, and would only cover intact files on a perfect disk.',
 ['src/physics/cross_section_library.cpp','src/physics/nuclide.cpp'],['group bounds, fission spectrum and nuclide list of a library'],
 [('library reader','src/physics/cross_section_library.cpp: readMPACTLibrary')],
 ['the loaded library compared with the generated one','log output and exit status'])
p('G01','CAD models keep their groups and colours across save and open',
 'A CAD model saved together with its extra information and opened in a later process has the same entities, the same named physical groups containing the same entities, and the same entity colours. This holds for any number and size of groups and colours, for any history of saves over earlier files, and for any splitting or interruption of transfers.',
 ['histories','configurations'],'all generated CAD models, groupings and colourings over save/open/restart histories with every legal splitting of transfers',
 'The unit test saves one disk with one group in one process.',
 ['src/gmsh/io.cpp'],['physical groups and colours of the current CAD model','the CAD file and its information file'],
 [('information writer and reader','src/gmsh/io.cpp: write, open')],
 ['groups and colours after opening compared with those saved'])
p('G02','CAD group and colour files fail loudly, never partially',
 'If writing the group and colour information of a CAD model fails, the failure is reported by an error message, an exception or a failing exit, or the file is nevertheless complete. If that information is missing, cut short or unreadable when the model is opened, an error is reported and no partial set of groups is presented as success.',
 ['fault_sequences','crash_points'],'all placements of open, write, read and close failures, crashes and truncation points in the information file',
 'No unit test fails a write or reads a partial file.',
 ['src/gmsh/io.cpp'],['the information file'],[('information writer and reader','src/gmsh/io.cpp: write, open')],
 ['log output, exceptions, exit status and the resulting groups'])
p('G03','Pins and a grid become a correct saved reactor model',
 'Pins drawn as concentric discs or cylinders (one by one or as a lattice), overlaid with the coarse cells of a model (modules, lattices and assemblies of any structure; layers at different heights; what is used again counts at its first place) and a fill material, meshed with linear or quadratic triangles, written as an Abaqus mesh file, imported into a model in a later process and saved, give a model that loads with every cell of the grid filled exactly by its faces and with every face of the material the geometry has at that place: the fill material outside the pins, the ring\'s material inside; each of the programs ends normally. If the mesh file cannot be opened or read, or the model cannot be completely written, the failure is reported by an error message, an exception or a failing exit, or has no effect, and what killed or earlier executions left behind does not matter. Storage failures while the CAD library itself writes the mesh file, and quadrilateral meshes, are not covered.',
 ['configurations','fault_sequences','crash_points','histories'],'all generated pin, lattice, grid and fill arrangements over draw/mesh/import/save/load histories, with failures in the mesh and model files and kills and reruns at any point',
 'Unit tests draw and overlay in one process and count groups; none takes a geometry through meshing, import, save and load.',
 ['src/gmsh/model.cpp','src/gmsh/mesh.cpp','src/gmsh/io.cpp','src/mpact/model.cpp',SOUP],['physical groups of the CAD model','the mesh file','the model files'],
 [('drawing and overlaying','src/gmsh/model.cpp: addCylindricalPin2D, addCylindricalPinLattice2D, overlayCoarseGrid'),('meshing','src/gmsh/mesh.cpp: generateMesh'),('import and save','src/mpact/model.cpp: importCoarseCellMeshes, write')],
 ['extents, coverage and the material of every face of the loaded model compared with the geometry','log output, exceptions and exit status'])
p('T01','Post-processing tools succeed only with complete, correct output',
 'A post-processing program that exits with success has written an output file containing every extracted value (chord lengths, edge lengths, region powers, spectrum, grid data) of the given input, in order and to the printed precision. If the input cannot be read or the output cannot be completely written, the program exits with failure. This holds under any failing, short or interrupted read, write or close.',
 ['fault_sequences','inputs'],'all placements of storage failures over complete runs of each tool on generated inputs',
 'The tools have no unit tests; their behaviour is only visible by running the whole program under a failing disk.',
 ['post-process/extract_powers.cpp','post-process/extract_meanchordlength.cpp','post-process/extract_edge_length.cpp','post-process/extract_spectrum.cpp','post-process/extract_cmfd_info.cpp'],
 ['output files of the tools'],[('tool main programs','post-process/*.cpp: main')],
 ['exit status and output file contents compared with independently computed values'])
p('T02','Source extraction programs succeed only with complete, correct sources',
 'A source extraction program (c5g7, crocus, fnr, vera) that exits with success has written a mesh file in its working directory that holds the mesh and every element set of the given results, plus scattering_source, fission_source and total_source for every face: the flux of each group times the scattering (or fission production) cross section of the material numbered in the set "material" (from one), summed over the groups, the fission part divided by the multiplication factor of the program; the total is their sum. It exits with failure if the arguments are wrong, if the results or the cross-section library cannot be read completely, if a nuclide, the material numbers or the flux of a group are missing, if a material number names no material, if faces are of two kinds, or if the output cannot be written completely. What earlier or killed executions left behind does not matter.',
 ['fault_sequences','crash_points','inputs','histories'],'all placements of storage failures and crashes over complete executions of each program on generated results and libraries',
 'The programs have no unit tests, and the function that computes the sources is never run by one.',
 ['models/c5g7/2d/c5g7_extract_source.cpp','models/crocus/crocus_2d_extract_source.cpp','models/fnr/fnr_leu_2d_extract_source.cpp','models/vera/problem_4/2d/vera_4_rodded_extract_source.cpp','src/mpact/source.cpp','src/physics/cross_section_library.cpp',SOUP],
 ['the source file written by the programs'],[('program mains','models/**/*extract_source.cpp: main'),('source extraction','src/mpact/source.cpp: getSource')],
 ['exit status and the loaded output compared with independently computed sources'])
p('F01','Extracted region powers conserve the power in the results file',
 'The power regions extracted from a results file partition exactly the faces with non-zero power into groups of faces joined by shared corners, whatever the order of the faces, and their powers add up to the total power of the file. Each region centroid is the area-weighted centroid of its faces. If the results cannot be read completely or contain no power, an error is reported instead, and later extractions in the same process are not affected.',
 ['inputs','fault_sequences'],'all generated results files (face orders, region shapes, mesh kinds) under open and read failures and short or interrupted reads',
 'Unit tests extract from one fixed file on a perfect disk.',
 ['src/mpact/powers.cpp',SOUP],['region lists and bounding boxes'],[('region growing and merging','src/mpact/powers.cpp: getPowers')],
 ['regions compared with connected components computed independently','log output and exit status'])
p('L01','Log timestamps stay well formed and correct under any clock',
 'Every timestamped log line carries the time elapsed since the logger was last reset as hours, minutes, seconds and milliseconds in a fixed readable form. This holds for runs of any length and when the system clock is stepped, and a clock stepped back never produces a malformed or negative time. The message text and level are never disturbed by the clock.',
 ['schedules','fault_sequences'],'all sequences of log calls, resets and clock movements (progress, jumps forward, steps back, multi-day runs)',
 'A unit test runs for milliseconds with a monotonic clock; hour, day and backwards-step behaviour needs a controlled clock.',
 ['src/common/logger.cpp','include/um2/common/logger.hpp'],['start time','message buffer'],[('timestamp formatting','src/common/logger.cpp: addTimestamp'),('reset','src/common/logger.cpp: reset')],
 ['characters printed for each message compared with the simulated elapsed time'])
p('L02','Messages are delivered whole and errors stop the program when asked',
 'Every message at or below the chosen verbosity is printed exactly once, whole, in order and on the right stream (errors to the error stream, others to standard output), and no other message is printed. When stopping on errors is enabled, an error message is printed and the program then ends with a failing status; when it is disabled, the program continues. This holds for any sequence of setting changes and resets, for messages of any length (over-long messages are cut, never corrupted), when the system takes the output only piece by piece, and a failed write to an output stream never corrupts other output.',
 ['histories','fault_sequences','configurations'],'all sequences of log calls, argument kinds, settings changes and resets, with short or failing writes on the output streams',
 'The unit test prints a few short lines and checks none of the output.',
 ['src/common/logger.cpp','include/um2/common/logger.hpp','src/common/settings.cpp'],['message buffer','logger settings'],[('message assembly and printing','include/um2/common/logger.hpp: printMessage'),('argument conversion','src/common/logger.cpp: toBuffer')],
 ['bytes on standard output and standard error','exit status'])
p('A01','Running out of memory is never silent',
 'If a memory allocation fails at any point while building, copying, growing, merging, sorting, loading or querying a mesh, model or container, the operation either still completes with exactly the right result or the failure surfaces as an exception or an abnormal end of the program. It never yields a wrong result, never overwrites a saved file with wrong contents that loads as valid, and never frees or uses memory twice.',
 ['fault_sequences'],'all placements of failing allocations in generated operation histories',
 'Unit tests never fail an allocation, so the behaviour at the n-th failing allocation is never executed.',
 ['include/um2/stdlib/vector.hpp','include/um2/stdlib/string.hpp',SOUP,MODEL,'src/mesh/face_vertex_mesh.cpp'],['container storage','mesh and model arrays'],
 [('container storage','include/um2/stdlib/vector.hpp: allocate and growth paths'),('string storage','include/um2/stdlib/string.hpp'),('temporary arrays',SOUP+': getSubset')],
 ['results of the operations compared with a fault-free reference','exceptions, exit status, allocator accounting'])
p('C01','Threads may query shared meshes and models concurrently',
 'Any number of caller threads may at the same time run read-only queries (ray tracing, face location, areas, chord lengths, element-set lookups, layout queries, through the C++ or the C interface) on the same mesh, model or cross-section data without locking. Every query returns the same result as when run alone, and no two queries conflict on memory, in every interleaving of the threads.',
 ['schedules'],'all interleavings of read-only queries from several threads on shared objects',
 'Unit tests are single-threaded, and running threads natively explores only the few interleavings the hardware happens to produce.',
 ['src/mesh/face_vertex_mesh.cpp',SOUP,MODEL,'src/um2c.cpp','src/physics/cross_section_library.cpp'],['meshes, models and cross-section data shared between threads'],
 [('ray tracing and face queries','src/mesh/face_vertex_mesh.cpp: intersect, faceContaining, validate'),('model queries',MODEL+': getMeanChordLengths, getCoarseCellHomogenizedXSec'),('C queries','src/um2c.cpp')],
 ['query results per thread compared with the single-threaded results','conflicting unsynchronised memory accesses'])
p('C02','Threads working on separate objects never affect one another',
 'Caller threads that each build, modify, sort, merge and query their own meshes, models, materials and containers, or read their own Abaqus or VTK files, with no object or file in common and logging quiet, always get the results of running alone. No hidden shared state is touched, in every interleaving of the threads.',
 ['schedules'],'all interleavings of threads working on disjoint objects',
 'Unit tests are single-threaded; hidden shared state shows only when operations of two threads overlap.',
 ['src/mesh/face_vertex_mesh.cpp',SOUP,MODEL,'src/physics/material.cpp','src/physics/cross_section.cpp','include/um2/stdlib/vector.hpp'],['any static or global variable reachable from these operations'],
 [('mesh building and sorting','src/mesh/face_vertex_mesh.cpp; include/um2/geometry/morton_sort_points.hpp'),('soup building',SOUP),('model building',MODEL)],
 ['per-thread results compared with the results of running alone','conflicting unsynchronised memory accesses'])
p('I01','Start-up and shut-down work in any number and order',
 'The library can be initialised and finalised any number of times and in any order without failing, and each initialisation restores the default logging settings and restarts the elapsed time. Coloured output is used only when both output streams are terminals. If buffered standard output cannot be written at shut-down, that is reported as an error.',
 ['histories','configurations','fault_sequences'],'all sequences of initialise, finalise, settings changes, logging and clock movements, for all terminal configurations, with failing output writes',
 'Unit tests initialise once at most, never on a terminal, and never with a failing output stream.',
 ['src/um2.cpp','src/um2c.cpp','src/common/logger.cpp'],['logger settings','CAD library initialisation state'],[('start-up and shut-down','src/um2.cpp: initialize, finalize')],
 ['settings and output after each call','exit status'])
# not applicable
p('N01','Rays cross each mesh exactly along the cells they pass through',
 'For every ray and every valid mesh, the ordered crossing points reported for the ray bound exactly the segments inside each cell, so the segment lengths add up to the chord of the whole mesh and each segment midpoint lies in the reported cell.',
 ['inputs'],'all rays and valid meshes','Tests use a few hand-placed rays; degenerate incidences are an infinite input space.',
 ['src/mesh/face_vertex_mesh.cpp','include/um2/geometry/ray.hpp'],['mesh arrays'],[('ray-face intersection','src/mesh/face_vertex_mesh.cpp: intersect')],['crossing points and face numbers'])
p('N02','Areas, centroids and chord lengths are consistent for all shapes',
 'For every valid polygon, straight or curved, the area, centroid, bounding box, mean chord length and point-containment results agree with the exact geometry, and the cells of a partition have areas that add up to the whole.',
 ['inputs'],'all valid polygons and partitions','Tests check a few unit shapes.',
 ['include/um2/geometry/polygon.hpp','include/um2/geometry/quadratic_quadrilateral.hpp'],['polygon vertices'],[('closed-form geometry','include/um2/geometry/*.hpp')],['returned values'])
p('N03','Sorting and validating a mesh never changes what it describes',
 'Reordering a mesh along a space-filling curve or validating it keeps the same set of faces and vertices up to renumbering and orientation, and accepts exactly the watertight, counter-clockwise, non-self-intersecting meshes.',
 ['inputs'],'all meshes','Tests use a few small meshes.',
 ['src/mesh/face_vertex_mesh.cpp','include/um2/geometry/morton_sort_points.hpp'],['mesh arrays'],[('Morton sorting','src/mesh/face_vertex_mesh.cpp: mortonSort'),('validation','src/mesh/face_vertex_mesh.cpp: validate')],['mesh after the operation'])
p('N04','Modular rays tile space and connect across module boundaries',
 'For every module size, angle and spacing, the generated rays are evenly spaced parallel lines whose exit points coincide with entry points of the neighbouring module or of the reflected direction.',
 ['inputs'],'all modules, angles and spacings','Tests check a few angles.',
 ['include/um2/geometry/modular_rays.hpp'],['ray set'],[('modularisation','include/um2/geometry/modular_rays.hpp')],['ray end points'])
p('N05','Collapsing and homogenising cross sections preserves reaction rates',
 'Collapsing energy groups or averaging over a cell preserves the total reaction rate of every reaction for the given weights, and material densities convert to number densities consistently.',
 ['inputs'],'all materials, groups and weights','Tests check benchmark materials only.',
 ['src/physics/cross_section.cpp','src/physics/material.cpp',MODEL],['cross-section arrays'],[('homogenisation',MODEL+': getCoarseCellHomogenizedXSec')],['returned cross sections'])
p('N06','CAD overlap resolution keeps material ownership',
 'When overlapping CAD volumes are fragmented, every resulting piece belongs to the group of highest priority among the originals that covered it, and no other group membership changes.',
 ['inputs'],'all CAD models and hierarchies','Tests cover a few overlaps.',
 ['src/gmsh/model.cpp'],['physical groups'],[('group-preserving fragment','src/gmsh/model.cpp')],['groups after the operation'])
p('N07','Pin meshes preserve ring areas exactly',
 'Every generated cylindrical pin mesh preserves the area of each material ring and fills the pin cell without gaps or overlaps.',
 ['inputs'],'all pin pitches, radii, ring counts and orders','Tests check a few pins.',
 [MODEL,'include/um2/mesh/face_vertex_mesh.hpp'],['pin meshes'],[('pin mesh generation',MODEL+': addCylindricalPinMesh')],['face areas'])
p('N08','Linear algebra and root finding are accurate for all inputs',
 'Matrix products, solves and eigenvalues, polynomial roots, summations and statistics agree with exact arithmetic to within rounding for all well-conditioned inputs.',
 ['inputs'],'all well-conditioned inputs','Tests check a few matrices and polynomials.',
 ['src/math/matrix.cpp','include/um2/math/stats.hpp'],['matrix storage'],[('BLAS wrappers','src/math/matrix.cpp')],['returned values'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
import re
for x in P:
    n=len(re.findall(r'[.!?](?:\s|$)',x['statement']))
    if n>3: print('sentences',x['id'],n)
