"""Builds what the checks need from /repo's current working tree, in /verif/build."""
import fcntl, hashlib, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LUE_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LUE = os.path.join(BUILD, "lue")
VENV = "/opt/lue-venv"

HDF5_INC = "/usr/include/hdf5/serial"
HDF5_LIB = "/usr/lib/x86_64-linux-gnu/hdf5/serial"


class BuildError(Exception):
    pass


def env():
    e = {k: v for k, v in os.environ.items()
         if k in ("HOME", "TMPDIR", "VERIF_SEED", "VERIF_TIER", "TERM")}
    e["PATH"] = VENV + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["CC"], e["CXX"] = "/usr/bin/gcc", "/usr/bin/g++"
    e["LC_ALL"] = "C.UTF-8"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["HDF5_USE_FILE_LOCKING"] = "TRUE"
    ccache = os.path.join(BUILD, "ccache")
    os.makedirs(ccache, exist_ok=True)
    e["CCACHE_DIR"] = ccache
    e["CCACHE_MAXSIZE"] = "3G"
    return e


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env(), **kw)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def configure():
    # Same options as the project's own build of these parts (assertions on, no optimisation)
    run(["cmake", "-S", REPO, "-B", LUE, "-G", "Ninja",
         "-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_CXX_FLAGS_DEBUG=-O0",
         "-DFETCHCONTENT_FULLY_DISCONNECTED=ON", "-DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS",
         "-DLUE_BUILD_DATA_MODEL=ON", "-DLUE_DATA_MODEL_WITH_PYTHON_API=ON",
         "-DLUE_DATA_MODEL_WITH_UTILITIES=OFF",
         "-DLUE_BUILD_GDAL=ON", "-DLUE_GDAL_REQUIRED=ON",
         "-DLUE_BUILD_FRAMEWORK=OFF", "-DLUE_BUILD_VIEW=OFF", "-DLUE_BUILD_DOCUMENTATION=OFF",
         "-DLUE_BUILD_QUALITY_ASSURANCE=ON", "-DLUE_QUALITY_ASSURANCE_WITH_PYTHON_API=ON",
         "-DLUE_QUALITY_ASSURANCE_WITH_TESTS=OFF",
         "-DPython_EXECUTABLE=%s/bin/python3" % VENV,
         "-Dpybind11_DIR=%s/lib/python3.12/site-packages/pybind11/share/cmake/pybind11" % VENV])


def lue(targets):
    """Build targets of the project itself."""
    with lock():
        t0 = time.time()
        configure()
        run(["ninja", "-C", LUE, "-j", str(os.cpu_count() or 8)] + list(targets))
        return time.time() - t0


CPP_TARGETS = ["lue_hdf5", "lue_data_model", "lue_data_model_hl", "lue_gdal", "lue_qa"]


def include_flags():
    s = REPO + "/source"
    b = LUE + "/source"
    dirs = []
    for root in (s, b):
        for part in ("shared", "data_model/hdf5", "data_model/cxx", "data_model/hl", "data_model/gdal",
                     "quality_assurance/cxx"):
            for d in ("include",):
                p = os.path.join(root, part, d)
                if os.path.isdir(p):
                    dirs.append(p)
            p = os.path.join(root, part)
            if root == b and os.path.isdir(p):
                dirs.append(p)
    dirs += [HDF5_INC, "/usr/include/gdal"]
    return ["-I" + d for d in dirs]


def harness(name, sources=None, libs=(), extra=(), opt="-O0", targets=None, cxxflags=(), ldflags=()):
    """Build /verif/harness/<name>.cpp against the project's libraries; returns the executable's path."""
    lue(targets if targets is not None else CPP_TARGETS)
    out = os.path.join(BUILD, "harness", name)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    srcs = sources or [os.path.join(VERIF, "harness", name + ".cpp")]
    objs, procs = [], []
    with lock():
        for src in srcs:
            obj = os.path.join(BUILD, "harness", name + "__" + os.path.basename(src) + ".o")
            objs.append(obj)
            cmd = (["ccache", "/usr/bin/g++", "-std=c++20", opt, "-g0", "-UNDEBUG", "-w", "-c", src, "-o", obj,
                    "-I" + os.path.join(VERIF, "harness")] + list(cxxflags) + include_flags())
            procs.append((cmd, subprocess.Popen(cmd, env=env(), stdout=subprocess.PIPE,
                                                stderr=subprocess.STDOUT, text=True)))
        for cmd, p in procs:
            o, _ = p.communicate()
            if p.returncode:
                raise BuildError(" ".join(cmd) + "\n" + o[-6000:])
        libdirs = [LUE + "/source/" + d for d in ("data_model/hdf5", "data_model/cxx", "data_model/hl",
                                                  "data_model/gdal")]
        cmd = ["/usr/bin/g++"] + objs + ["-o", out] + ["-L" + d for d in libdirs] + \
              ["-Wl,-rpath," + ":".join(libdirs)] + ["-l" + l for l in libs] + \
              ["-L" + HDF5_LIB, "-lhdf5", LUE + "/source/shared/liblue_shared.a"] + list(extra) + list(ldflags)
        run(cmd)
    return out


# The modelling framework, compiled against hpxmock (see hpxmock/hpx/mock.hpp)

FW_GEN = os.path.join(BUILD, "fwgen")


def fw_generate():
    """Headers the framework's own build generates."""
    offset = "lue/framework/partitioned_route/server/serial_route_partition.hpp"
    with open(os.path.join(REPO, "source/framework/partitioned_route/include", offset + ".in")) as f:
        text = f.read()
    i, j = text.index("{%"), text.rindex("%}") + 2  # Registration of component types: not needed
    text = text[:i] + text[j:]
    path = os.path.join(FW_GEN, offset)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)


def fw_include_flags():
    s = REPO + "/source"
    dirs = [VERIF + "/hpxmock", FW_GEN] + \
        [s + "/framework/%s/include" % p for p in ("core", "partitioned_array", "partitioned_route", "algorithm", "model",
                                                   "io")] + [s + "/shared/include"]
    return ["-I" + d for d in dirs]


def fw_harness(name, parts, libs=(), opt="-O1", cxxflags=(), project=False, ldflags=()):
    """Build a harness that runs the framework's code on hpxmock. parts: (source, number of the part or None)."""
    t0 = time.time()
    if project:
        lue(CPP_TARGETS)
    with lock():
        fw_generate()
        out = os.path.join(BUILD, "harness", name)
        os.makedirs(os.path.dirname(out), exist_ok=True)
        todo, running, objs = [], [], []
        for src, part in parts:
            obj = os.path.join(BUILD, "harness", "%s__%s_%s.o" % (name, os.path.basename(src), part))
            objs.append(obj)
            src = src if src.startswith("/") else os.path.join(VERIF, "harness", src)
            todo.append(["ccache", "/usr/bin/g++", "-std=c++23", opt, "-g0", "-UNDEBUG", "-w", "-c", src, "-o", obj,
                         "-I" + os.path.join(VERIF, "harness")] + ([] if part is None else ["-DFW_PART=%d" % part]) +
                        list(cxxflags) + fw_include_flags() + (include_flags() if project else []))
        n = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))
        try:
            while todo or running:
                while todo and len(running) < n:
                    cmd = todo.pop(0)
                    log = open(os.path.join(BUILD, "harness", "%s_%d.log" % (name, len(todo))), "w+")
                    running.append((cmd, log, subprocess.Popen(cmd, env=env(), stdout=log, stderr=subprocess.STDOUT)))
                for item in list(running):
                    cmd, log, p = item
                    if p.poll() is not None:
                        running.remove(item)
                        if p.returncode:
                            log.seek(0)
                            raise BuildError(" ".join(cmd) + "\n" + log.read()[:6000])
                        log.close()
                time.sleep(0.05)
        finally:
            for _, _, p in running:
                p.kill()
        libdirs = [LUE + "/source/" + d for d in ("data_model/hdf5", "data_model/cxx", "data_model/hl",
                                                  "data_model/gdal")] if project else []
        run(["/usr/bin/g++"] + objs + ["-o", out] + ["-L" + d for d in libdirs] +
            (["-Wl,-rpath," + ":".join(libdirs), "-L" + HDF5_LIB] if project else []) + ["-l" + l for l in libs] +
            (["-lhdf5", LUE + "/source/shared/liblue_shared.a"] if project else []) + list(ldflags) +
            ["-lboost_context"])
    return out
