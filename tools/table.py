"""What each claimed property's check runs.

runs/seconds: (quick, thorough); the number of seeds is the target, the seconds are a cap.
"""

COMMON_ASSUME = [
    "one process or thread of the library runs at a time; the simulator decides every system call result, "
    "clock reading, allocation result and interleaving it models",
    "a killed process loses its memory and buffered output; data handed to write() survives (process crash, "
    "not power loss: the library never asks for durability)",
]
REAL = {
    "io": ["all of /repo's library sources, compiled from the working tree",
           "post-process and source extraction programs (main renamed)", "HDF5 1.10", "pugixml", "libstdc++ streams", "gmsh and OpenCASCADE",
           "OpenBLAS"],
    "conc": ["all of /repo's library sources, compiled from the working tree with access instrumentation",
             "thread-local storage and thread stacks (real threads, one runs at a time)"],
}
STUB = {
    "io": ["file system and file descriptors (in memory)", "standard output and error, terminal test", "clocks",
           "malloc/new (real memory, simulated failure and contents)", "process death and restart (fork)"],
    "conc": ["scheduler (seeded hand-over at memory accesses and synchronisation)",
             "thread sanitizer run-time (own vector-clock race detection)"],
}

T = {}


def add(pid, runs, seconds, rule, technique, note, exe="io", assume=()):
    T[pid] = dict(runs=runs, seconds=seconds, rule=rule, technique=technique, note=note, exe=exe,
                  assume=COMMON_ASSUME + list(assume))


SIM = "deterministic simulation with fault injection: "

add("M01", (4000, 120000), (60, 600),
    "one run = one seeded history of saves, overwrites, copies, loads and process restarts over up to three paths with "
    "seeded short and interrupted transfers; non-trivial = at least one saved mesh was loaded back and compared; "
    "distinct = different hash of the full sequence of choices, system calls, results and written bytes",
    SIM + "random save/overwrite/load/restart histories against a reference model, with short and interrupted transfers",
    "Seeded sampling, not exhaustive. Trusts the simulated file system and the comparison with the plain reference mesh.")

add("M02", (4000, 150000), (60, 600),
    "one run = one mesh saved repeatedly under one to two seeded storage failures each (open, write, resize, close "
    "failing, disk filling up), placed by operation index; non-trivial = at least one failure actually fired; "
    "distinct = different hash of choices, system calls, results and bytes",
    SIM + "seeded placement of storage failures in a save; files left behind are loaded in a fresh process; retry",
    "Seeded sampling. Dying inside HDF5 after a failed flush counts as a failing exit.")
add("M03", (5000, 200000), (60, 600),
    "one run = one generated Abaqus, VTK or XDMF file loaded several times with seeded open and read failures, short "
    "and interrupted reads, or cut short; non-trivial = a failure fired or the file was cut; distinct = different hash "
    "of choices, system calls and results",
    SIM + "seeded placement of read failures and truncation in a load, compared with what the generated file says",
    "Seeded sampling. Abaqus files declare no sizes, so truncation is applied to VTK and XDMF files only.")
add("M04", (3000, 80000), (60, 600),
    "one run = one to five saves killed at a seeded point (before, inside or after a system call), each followed by "
    "loads in fresh processes and another save; non-trivial = the process was killed; distinct = different hash of "
    "choices, system calls, results and bytes",
    SIM + "seeded crash points in a save; a fresh process must see an error, the old or the new mesh",
    "Seeded sampling. Process crash, not power loss: data handed to write() survives in order.")

add("P01", (2500, 60000), (60, 600),
    "one run = one seeded history of model saves (with and without extra data), overwrites, copies, loads and process "
    "restarts over up to two paths with seeded short and interrupted transfers; non-trivial = at least one saved model "
    "was loaded back and compared; distinct = different hash of choices, system calls, results and written bytes",
    SIM + "random save/overwrite/load/restart histories of generated reactor models against a plain reference description",
    "Seeded sampling. Trusts the simulated file system and the comparison with the plain reference model.")
add("P02", (2200, 50000), (60, 600),
    "one run = one model saved repeatedly under one to two seeded storage failures each, aimed at any of its five files; "
    "non-trivial = at least one failure actually fired; distinct = different hash of choices, system calls, results and "
    "bytes",
    SIM + "seeded placement of storage failures in a model save; all files left behind are compared or loaded; retry",
    "Seeded sampling. Dying inside HDF5 after a failed flush counts as a failing exit.")
add("P03", (3000, 80000), (60, 600),
    "one run = several damaged situations of one model: save killed at a seeded point, failing or short reads, files cut "
    "short, each followed by a load in a fresh process; non-trivial = killed, cut, or a failure fired; distinct = "
    "different hash of choices, system calls, results and bytes",
    SIM + "seeded crash points, read failures and truncation of model files; the load must give an error, the old or the "
    "new model", "Seeded sampling. Process crash, not power loss: data handed to write() survives in order.")
add("P04", (2500, 60000), (60, 600),
    "one run = one to three models saved over each other and over left-over files with seeded short and interrupted "
    "writes; non-trivial = a save finished and its companion files were compared; distinct = different hash of choices, "
    "system calls, results and bytes",
    SIM + "histories of model saves with split and interrupted writes; companion files parsed and compared with volumes "
    "computed independently from the reference description",
    "Seeded sampling. The mesh of a pin made by the library is taken from the library; its areas are computed independently.")
add("P05", (4000, 150000), (60, 600),
    "one run = one generated Abaqus or XDMF file with interleaved cell and material sets imported several times with "
    "seeded read failures, short and interrupted reads, or with a cell or material mark removed; non-trivial = an import "
    "finished and every cell was compared; distinct = different hash of choices, system calls and results",
    SIM + "seeded set orders, interleavings, missing marks and read failures in an import, compared with the generated cells",
    "Seeded sampling.")
add("P06", (900, 40000), (60, 600),
    "one run = one to four saves of up to two models with drawn optional data over each other, also as a flat mesh, each "
    "possibly preceded by an execution with a seeded storage failure or kill, with short and interrupted transfers; "
    "non-trivial = the stored data of every place were compared; distinct = different hash of choices, system calls, "
    "results and bytes",
    SIM + "histories of model saves with optional data under storage failures, kills and split transfers; every stored place "
    "compared with the reference model",
    "Seeded sampling. The files are read by the harness with HDF5 and pugixml directly.")
add("K01", (3000, 80000), (60, 600),
    "one run = one seeded history of C-interface calls (new, open, query, delete, allocate) over up to three saved models "
    "in tracked memory, with seeded short and interrupted transfers and refused allocations; non-trivial = a loaded model "
    "was queried and compared; distinct = different hash of choices, system calls and results",
    SIM + "random call histories over several open models with refused allocations, guarded and counted memory, compared "
    "with the reference description",
    "Seeded sampling. Ray crossings too close to a corner to call are not compared.")
add("X01", (5000, 150000), (60, 600),
    "one run = one generated library loaded several times, with nuclides missing, with seeded open and read failures, short "
    "and interrupted reads, or cut short; non-trivial = a failure fired, reads were split, or the file was damaged; "
    "distinct = different hash of choices, system calls and results",
    SIM + "seeded placement of read failures, read splits and truncation in a library load, compared with every generated value",
    "Seeded sampling. Libraries up to 60 groups and 30 nuclides.")
add("L01", (10000, 400000), (60, 600),
    "one run = one or two processes that log, reset and change settings while time passes (microseconds to years) and the "
    "system clock is set back or forth between and inside calls; non-trivial = a message was logged after the clock moved; "
    "distinct = different hash of choices, clock readings and results",
    SIM + "seeded clock steps and long simulated times between log calls; every timestamp compared with the simulated elapsed time",
    "Seeded sampling. Elapsed times up to some centuries; one millisecond of tolerance for rounding.")
add("L02", (10000, 400000), (60, 600),
    "one run = one sequence of up to 30 messages of all levels, argument kinds and lengths, setting changes and resets, with "
    "output accepted piece by piece or failing at a seeded write; non-trivial = something had to be printed or a write "
    "failed; distinct = different hash of choices, system calls and results",
    SIM + "seeded message and setting histories with short and failing output writes, compared with a reference model of both streams",
    "Seeded sampling. Messages up to 200 characters must be whole, longer ones at least their first 190.")
add("I01", (10000, 300000), (60, 600),
    "one run = one sequence of up to 14 starts, stops, messages, setting changes, clock movements and output failures for one "
    "terminal configuration; non-trivial = at least one start or stop; distinct = different hash of choices, system calls "
    "and results",
    SIM + "seeded start/stop histories with clock steps, terminal configurations and failing standard output",
    "Seeded sampling. Runs the real CAD library's start and stop.")

add("T01", (3500, 100000), (60, 600),
    "one run = one of the five post-process programs run several times in one directory on generated result files or "
    "saved models, with seeded read, write, open and close failures, truncated or missing inputs and short or "
    "interrupted transfers; non-trivial = the output of a fault-free run was compared value by value; distinct = "
    "different hash of choices, system calls, results and bytes",
    SIM + "the real programs under seeded input and output failures; success must mean a complete, correct output",
    "Seeded sampling. Expected values come from the generated input by plain formulas; dying on a signal counts as a "
    "failing exit.")
add("T02", (4000, 100000), (60, 600),
    "one run = one of the four source extraction programs executed several times in one directory on generated results "
    "and cross-section libraries, with seeded read, write, open and close failures, crashes, truncated, missing or "
    "deficient inputs and short or interrupted transfers; non-trivial = the fault-free executions were judged; "
    "distinct = different hash of choices, system calls, results and bytes",
    SIM + "the real programs under seeded input and output failures and crashes; success must mean a complete, correct "
    "output",
    "Seeded sampling. Expected sources come from the generated fluxes, libraries and the programs' stated compositions; "
    "dying on a signal counts as a failing exit.")
add("F01", (5000, 150000), (60, 600),
    "one run = one generated results file (blocks of faces in any order, shared or separate vertices) from which powers "
    "are extracted several times under seeded read failures, truncation and short or interrupted reads; non-trivial = "
    "the extraction without faults was compared with the expected regions; distinct = different hash of choices, "
    "system calls and results",
    SIM + "region powers from generated results under seeded read failures, compared with an independent computation",
    "Seeded sampling. Regions are joined by shared corners of the generator, not by the library's tolerance.")

add("G01", (2500, 70000), (60, 600),
    "one run = one to three CAD models of seeded shapes, groups and colours saved over each other in up to three places "
    "and opened in later processes, with seeded short and interrupted transfers; non-trivial = an opened model was "
    "compared with the saved one; distinct = different hash of choices, system calls, results and bytes",
    SIM + "random save/overwrite/open histories of CAD models through real gmsh, compared entity by entity by geometry",
    "Seeded sampling. Entities are matched by dimension, bounding box and mass. One known finding (renumbering).")
add("G02", (2500, 70000), (60, 600),
    "one run = one CAD model saved and opened several times with seeded failures of its group and colour file (open, "
    "write, close and read failures, full disk, file missing or cut); non-trivial = a failure fired or the file was cut; "
    "distinct = different hash of choices, system calls, results and bytes",
    SIM + "seeded failures and truncation of the group and colour file while saving and opening through real gmsh",
    "Seeded sampling. Failures are injected in the group and colour file, not in the geometry file gmsh writes.")

add("G03", (200, 6000), (60, 600),
    "one run = one or two arrangements of pins drawn, overlaid with a grid and meshed by gmsh in one process, imported and "
    "saved in another and loaded in a third, with meshing killed and repeated, and with seeded read, write, open and "
    "close failures, kills and short or interrupted transfers while importing and saving; non-trivial = a loaded model "
    "was compared with the geometry; distinct = different hash of choices, system calls, results and bytes",
    SIM + "seeded geometries through real gmsh meshing, import, save and load with storage failures, kills and reruns",
    "Seeded sampling. Faces whose centroid lies between a circle and its chords are not judged. Triangles and quadratic "
    "triangles only; failures are not injected in the mesh file while gmsh writes it.")

add("A01", (4000, 150000), (60, 600),
    "one run = one seeded history of operations on containers, meshes or models, first without faults to record the "
    "results, then in one to six processes in which seeded allocations fail (one, all from some point, or only large "
    "ones); non-trivial = an allocation failed; distinct = different hash of choices, system calls, results and bytes",
    SIM + "seeded allocation failures in operation histories, compared step by step with the run without faults",
    "Seeded sampling. Block misuse is reported for operator-new blocks only; HDF5 misuses its own malloc blocks when one "
    "of its allocations fails.")

add("C01", (8000, 400000), (60, 600),
    "one run = one shared mesh, model, handle or cross-section library queried by two to four threads; every thread's "
    "results are first computed alone in a fresh process, then the threads run together, interrupted at seeded memory "
    "accesses; non-trivial = at least one thread was interrupted; distinct = different hash of the choices and of the "
    "sequence of hand-overs (access number, thread)",
    SIM + "seeded interleavings of reading threads at single memory accesses, with conflict detection by vector clocks",
    "Seeded sampling of schedules; conflicts are found from the order of accesses, not from their timing. Code in "
    "binary libraries is not instrumented.", exe="conc")
add("C02", (8000, 400000), (60, 600),
    "one run = two to four threads, each building, changing and querying meshes, models, materials and containers of its "
    "own or reading a text mesh of its own; results first computed alone in fresh processes, then together, interrupted "
    "at seeded memory accesses; non-trivial = at least one thread was interrupted; distinct = different hash of the "
    "choices and of the sequence of hand-overs (access number, thread)",
    SIM + "seeded interleavings of independent threads at single memory accesses, with conflict detection by vector clocks",
    "Seeded sampling of schedules; conflicts are found from the order of accesses, not from their timing. Code in "
    "binary libraries is not instrumented.", exe="conc")

# What the reach counters of each scenario count.
PROBES = {
    "M02": {0: "saves that reported nothing", 1: "saves that reported a failure", 2: "of those, ended inside HDF5 by a signal"},
    "M03": {0: "loads without a report", 1: "loads that reported an error", 2: "files cut short", 3: "loads with a fired fault",
            4: "files with large integers", 5: "loads after one that failed"},
    "M04": {0: "loads after a crash that reported an error", 1: "loads that gave the new mesh", 2: "loads that gave the old mesh"},
    "P02": {0: "saves that reported nothing", 1: "saves that reported a failure", 2: "of those, ended inside HDF5 by a signal"},
    "P03": {0: "saves killed", 1: "files cut short", 2: "loads with a fired fault", 3: "loads without a report",
            4: "loads that reported an error", 5: "loads after one that failed"},
    "P05": {0: "imports without a report", 1: "imports that reported an error", 2: "files with a mark removed",
            3: "imports after one that failed"},
    "P06": {0: "saves compared", 1: "executions with a fired fault", 2: "executions killed", 3: "silent saves under a fault",
            4: "flat meshes compared"},
    "K01": {0: "whole-model comparisons", 1: "rays compared"},
    "X01": {0: "loads without a report", 1: "loads that reported an error", 2: "files cut short", 3: "loads with a fired fault",
            4: "libraries lacking nuclides", 5: "loads with split reads", 6: "loads after one that failed"},
    "L01": {0: "messages", 1: "passages of time", 2: "clock steps", 3: "resets", 4: "timestamp switches", 5: "colour switches"},
    "L02": {0: "messages to print", 1: "over-long messages to print", 2: "runs with a failed write", 3: "runs ended by an error"},
    "I01": {0: "initialisations", 1: "finalisations", 2: "messages", 3: "setting changes", 4: "passages of time",
            5: "output failures begun", 6: "clock steps", 10: "runs in which a write failed"},
    "T01": {0: "extract_powers", 1: "extract_spectrum", 2: "extract_cmfd_info", 3: "extract_edge_length",
            4: "extract_meanchordlength", 8: "executions with a fired fault", 9: "executions that succeeded",
            10: "executions that failed"},
    "T02": {0: "c5g7", 1: "crocus", 2: "fnr", 3: "vera", 4: "proper results", 5: "unusable results",
            6: "library without a nuclide, or none", 7: "executions killed", 8: "executions with a fired fault",
            9: "executions that succeeded", 10: "executions that failed"},
    "F01": {0: "proper results", 1: "results with several regions", 2: "extractions with a fired fault", 3: "files cut short",
            4: "results without power or unusable", 5: "results with one or no region",
            6: "extractions after one that failed"},
    "G01": {0: "opened without groups", 1: "opened with groups", 2: "opened without colours", 3: "opened with colours"},
    "G02": {0: "saves with a fired fault", 1: "saves that reported nothing", 2: "files cut short", 3: "opens with a fired fault",
            4: "opens without a report"},
    "G03": {0: "pins one by one", 1: "pins as a lattice", 2: "cylinders", 3: "triangles", 4: "quadratic triangles",
            5: "grids of modules and assemblies", 10: "grids of several layers", 11: "grids with parts used again", 6: "meshing killed", 7: "models made with a read fault", 8: "models made with a write fault",
            9: "making a model killed"},
    "A01": {0: "containers of numbers", 1: "containers of strings", 2: "containers of lists", 3: "strings",
            4: "mesh histories", 5: "more mesh histories", 6: "face mesh histories", 7: "model histories",
            10: "processes that finished", 11: "processes ended by a signal", 12: "processes ended otherwise",
            14: "models loaded afterwards", 15: "meshes loaded afterwards"},
    "C01": {0: "face mesh", 1: "mesh with sets", 2: "model", 3: "model handle", 4: "materials", 5: "source"},
    "C02": {0: "face mesh", 1: "mesh with sets", 2: "model", 3: "model handle", 4: "materials", 5: "source",
            6: "containers", 7: "text mesh"},
}
