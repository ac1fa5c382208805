#!/usr/bin/env python3
"""Builds the simulators from /repo's working tree into /verif/build (ninja, incremental).

usage: build.py io|conc|all
"""
import fcntl, glob, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "build")

DEFS = ["-DNDEBUG"]
WARN = ["-w"]
BASE = ["-std=gnu++20", "-O2", "-march=x86-64-v3", "-fopenmp", "-fno-math-errno", "-fno-trapping-math",
        "-fno-signed-zeros", "-fno-signaling-nans", "-fno-rounding-math"]
INC_SYS = ["/usr/include/hdf5/serial", "/usr/include/x86_64-linux-gnu"]
LIBDIR = "/usr/lib/x86_64-linux-gnu"


def sources():
    """The library's sources as the build lists them (every .cpp under src if the list cannot be read)."""
    try:
        text = open(os.path.join(REPO, "CMakeLists.txt")).read()
        m = re.search(r"set\(UM2_SOURCES(.*?)\)", text, re.S)
        names = re.findall(r"[\w./${}-]+\.cpp", m.group(1))
        names = [n.replace("${CMAKE_CURRENT_SOURCE_DIR}/", "").replace("${PROJECT_SOURCE_DIR}/", "") for n in names]
        # sources appended conditionally elsewhere in the file
        for n in re.findall(r"(src/[\w./-]+\.cpp)", text):
            if n not in names:
                names.append(n)
        names = [n for n in names if os.path.exists(os.path.join(REPO, n))]
        if names:
            return names
    except Exception:
        pass
    return sorted(os.path.relpath(p, REPO) for p in glob.glob(os.path.join(REPO, "src/**/*.cpp"), recursive=True))


def config(gen):
    """config.hpp from the project's template, with the options of the project's build."""
    text = open(os.path.join(REPO, "cmake/config.hpp.in")).read()
    on = {"UM2_ENABLE_ASSERTS": 1, "UM2_ENABLE_BMI2": 1, "UM2_ENABLE_FASTMATH": 0, "UM2_ENABLE_FLOAT64": 1,
          "UM2_ENABLE_SIMD_VEC": 1, "UM2_USE_BLAS_LAPACK": 1, "UM2_USE_CUDA": 0, "UM2_USE_GMSH": 1,
          "UM2_USE_MPACT_XSLIBS": 0, "UM2_USE_HDF5": 1, "UM2_USE_OPENMP": 1, "UM2_USE_PUGIXML": 1}
    def rep(m):
        return "#define %s %d" % (m.group(1), on.get(m.group(1), 0))
    text = re.sub(r"#cmakedefine01 (\w+)", rep, text)
    subst = {"UM2_MAX_LOG_LEVEL": "4", "MPACT_DATA": "/sim/xs"}
    text = re.sub(r"@(\w+)@|\$\{(\w+)\}", lambda m: subst.get(m.group(1) or m.group(2), ""), text)
    path = os.path.join(gen, "um2/config.hpp")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)


def main():
    what = sys.argv[1] if len(sys.argv) > 1 else "all"
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    gen = os.path.join(OUT, "gen")
    config(gen)
    inc = ["-I" + gen, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "sim")] + \
          ["-isystem" + d for d in INC_SYS]
    flags = " ".join(BASE + DEFS + WARN + inc)
    simflags = " ".join([f for f in BASE if f != "-fopenmp"] + DEFS + ["-Wall", "-Wextra", "-Wno-unused-parameter"] + inc)
    tools = sorted(glob.glob(os.path.join(REPO, "post-process/*.cpp")) +
                   glob.glob(os.path.join(REPO, "models/**/*extract_source.cpp"), recursive=True))
    n = ["ninja_required_version = 1.5", "builddir = " + OUT,
         "rule cxx", "  command = g++ $flags -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule link", "  command = g++ -rdynamic -o $out $in $libs", ""]
    libs = "%s/libhdf5_serial_cpp.so %s/libhdf5_serial.so %s/libpugixml.so -lgmsh -lopenblas -llapacke -lgomp -lpthread -ldl" % ((LIBDIR,) * 3)
    seen = []
    def obj(src, variant, fl):
        rel = os.path.relpath(src, REPO) if src.startswith(REPO + "/") else "verif/" + os.path.relpath(src, VERIF)
        o = os.path.join(OUT, variant, rel + ".o")
        n.append("build %s: cxx %s" % (o, src))
        n.append("  flags = " + fl)
        return o
    repo_src = [os.path.join(REPO, s) for s in sources()]
    io = [obj(s, "io", flags) for s in repo_src]
    for t in tools:
        name = os.path.basename(t)[:-4].replace("-", "_")
        io.append(obj(t, "io", flags + " -Dmain=um2_tool_%s" % name))
    sim_src = ["main", "harness", "simos"] + sorted(os.path.basename(p)[:-4] for p in
               glob.glob(os.path.join(VERIF, "sim", "scen_*.cpp")) + glob.glob(os.path.join(VERIF, "sim", "*_spec.cpp")))
    io += [obj(os.path.join(VERIF, "sim", s + ".cpp"), "io", simflags) for s in sim_src]
    n.append("build %s: link %s" % (os.path.join(OUT, "dst_io"), " ".join(io)))
    n.append("  libs = " + libs)
    n.append("build io: phony " + os.path.join(OUT, "dst_io"))
    conc_dir = os.path.join(VERIF, "conc")
    targets = ["io"]
    if os.path.isdir(conc_dir):
        tsan = flags + " -fsanitize=thread -fno-omit-frame-pointer"
        co = [obj(s, "conc", tsan) for s in repo_src]
        # instrumented objects first: the linker keeps the first copy of an inline function
        own = [(s, tsan) for s in sorted(glob.glob(os.path.join(conc_dir, "work_*.cpp")))]
        own += [(os.path.join(VERIF, "sim", s + ".cpp"), tsan) for s in ("mesh_spec", "model_spec", "text_spec")]
        own += [(os.path.join(VERIF, "sim", s + ".cpp"), simflags) for s in ("main", "harness", "simos")]
        own += [(os.path.join(conc_dir, "sched.cpp"),
                 simflags + " -fno-threadsafe-statics -fno-builtin -fno-tree-loop-distribute-patterns")]
        co += [obj(s, "conc", f + " -I" + conc_dir) for s, f in own]
        n.append("build %s: link %s" % (os.path.join(OUT, "dst_conc"), " ".join(co)))
        n.append("  libs = " + libs)
        n.append("build conc: phony " + os.path.join(OUT, "dst_conc"))
        targets.append("conc")
    n.append("build all: phony " + " ".join(targets))
    path = os.path.join(OUT, "build.ninja")
    text = "\n".join(n) + "\n"
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)
    r = subprocess.run(["ninja", "-C", OUT, "-f", path, "--quiet", what], capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:] + r.stderr[-3000:])
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
