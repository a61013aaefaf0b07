"""Content-addressed parallel C++ builder.

Objects are cached by the content of the source, of every header it pulled in
from /repo or /verif, and of the command line, so a check rebuilds exactly what
a change to /repo's working tree touches, whatever the file times say.
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, shutil, subprocess, sys, sysconfig, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TRACK = (REPO + "/", VERIF + "/")

COMMON = ["-std=c++17", "-fPIC", "-w", "-pthread",
          "-I" + REPO + "/solver/include", "-I" + REPO + "/solver_lqr/include",
          "-I" + REPO + "/momentumopt/include", "-I" + VERIF + "/stubs",
          "-I" + VERIF + "/harness", "-isystem", "/usr/include/eigen3",
          "-DEIGEN_NO_STATIC_ASSERT", "-D_GLIBCXX_ASSERTIONS"]
# run-time location of the solver_lqr defaults: /repo's own config directory
COMMON += ['-DVERIF_REPO_DIR="%s"' % REPO, '-DCFG_PATH="%s/solver_lqr/config/"' % REPO, '-DCFG_SRC_PATH="%s/solver_lqr/config/"' % REPO,
           '-DTEST_PATH="%s/solver_lqr/tests/"' % REPO]
VARIANTS = {
    # Eigen's own assertions stay on: an index outside a matrix aborts
    "fast": ["-O2"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=all", "-fno-sanitize=vptr",
             # memory nobody set: matrices hold NaN, variables and the heap a pattern
             "-DEIGEN_INITIALIZE_MATRICES_BY_NAN", "-ftrivial-auto-var-init=pattern"],
}
LINK = {"fast": [], "asan": ["-fsanitize=address,undefined"]}
LIBS = ["-lyaml-cpp", "-lboost_thread", "-lboost_system", "-pthread"]


def sh(data):
    return hashlib.sha256(data).hexdigest()[:32]


_hashes = {}


def filehash(p):
    if p not in _hashes:
        try:
            with open(p, "rb") as f:
                _hashes[p] = sh(f.read())
        except OSError:
            _hashes[p] = "missing"
    return _hashes[p]


def sources(lib):
    root = {"solver": REPO + "/solver/src", "solver_lqr": REPO + "/solver_lqr/src",
            "momentumopt": REPO + "/momentumopt/src",
            "pysolver": REPO + "/solver/srcpy", "pysolverlqr": REPO + "/solver_lqr/srcpy",
            "pymomentum": REPO + "/momentumopt/srcpy"}[lib]
    return sorted(p for p in glob.glob(root + "/**/*.cpp", recursive=True))


class BuildError(Exception):
    pass


def compile_one(src, variant, extra=()):
    if src.startswith(REPO + "/momentumopt/"):
        extra = tuple(extra) + ("-UCFG_SRC_PATH", '-DCFG_SRC_PATH="%s/momentumopt/config/"' % REPO)
    cmd = ["g++"] + VARIANTS[variant] + COMMON + list(extra) + ["-c", src]
    key = sh("\0".join(cmd).encode())
    man = os.path.join(BUILD, "dep", key + ".json")
    entries = []
    if os.path.exists(man):
        try:
            entries = json.load(open(man))
        except ValueError:
            entries = []
    for e in entries:
        if os.path.exists(e["obj"]) and all(filehash(p) == h for p, h in e["deps"].items()):
            return e["obj"]
    os.makedirs(os.path.join(BUILD, "tmp"), exist_ok=True)
    fd, tmp = tempfile.mkstemp(suffix=".o", dir=os.path.join(BUILD, "tmp"))
    os.close(fd)
    dep = tmp + ".d"
    r = subprocess.run(cmd + ["-MMD", "-MF", dep, "-o", tmp], capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("cannot compile %s\n%s" % (src, r.stderr[-6000:]))
    words = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split()
    deps = {}
    for w in words:
        p = os.path.normpath(w)
        if p.startswith(TRACK):
            deps[p] = filehash(p)
    obj = os.path.join(BUILD, "obj", variant, os.path.basename(src)[:-4] + "-" +
                       sh((key + json.dumps(deps, sort_keys=True)).encode()) + ".o")
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    os.replace(tmp, obj)
    os.unlink(dep)
    entries = [e for e in entries if e["obj"] != obj][-5:] + [{"obj": obj, "deps": deps}]
    os.makedirs(os.path.dirname(man), exist_ok=True)
    with open(man + ".tmp", "w") as f:
        json.dump(entries, f)
    os.replace(man + ".tmp", man)
    return obj


def compile_all(jobs):
    """jobs: list of (src, variant, extra). Returns objects in order."""
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        fs = [ex.submit(compile_one, *j) for j in jobs]
        err = []
        out = []
        for f in fs:
            try:
                out.append(f.result())
            except BuildError as e:
                err.append(str(e))
        if err:
            raise BuildError("\n".join(err[:3]))
        return out


def link(objs, variant, out, shared=False, libs=()):
    cmd = ["g++"] + LINK[variant] + (["-shared"] if shared else []) + objs + ["-o"]
    tail = list(libs) + LIBS
    key = sh("\0".join(cmd + tail).encode())
    stamp = out + ".key"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    r = subprocess.run(cmd + [out + ".tmp"] + tail, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("cannot link %s\n%s" % (out, r.stderr[-4000:]))
    os.replace(out + ".tmp", out)
    with open(stamp, "w") as f:
        f.write(key)
    return out


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        _hashes.clear()
        return self

    def __exit__(self, *a):
        self.f.close()


def harness(name, libs, variant="fast"):
    """Build /verif/harness/<name>.cpp against the libraries; returns the binary."""
    with Lock():
        jobs = [(os.path.join(VERIF, "harness", name + ".cpp"), variant, ())]
        for lib in libs:
            jobs += [(s, variant, ()) for s in sources(lib)]
        return link(compile_all(jobs), variant, os.path.join(BUILD, variant, name))


def pybind_headers():
    """pybind11 2.11 predates numpy 2 (which the tests' interpreter has): its
    array casters call through a table slot that has moved.  A copy of the
    installed headers with the slot and the descriptor layout of numpy 2."""
    src, dst = "/usr/include/pybind11", os.path.join(BUILD, "pybind", "pybind11")
    with open(src + "/numpy.h") as f:
        t = f.read()
    if "PyArrayDescr2_Proxy" in t:
        return ()      # a pybind11 which knows numpy 2
    t = t.replace("API_PyArray_CopyInto = 82", "API_PyArray_CopyInto = 50")
    t = t.replace("numpy.core.multiarray", "numpy._core.multiarray").replace("numpy.core._internal", "numpy._core._internal")
    t = t.replace("""    char flags;
    int type_num;
    int elsize;
    int alignment;
    char *subarray;""", """    char former_flags;
    int type_num;
    std::uint64_t flags;
    ssize_t elsize;
    ssize_t alignment;
    PyObject *metadata;
    ssize_t hash;
    void *reserved_null[2];
    char *subarray;""")
    cur = dst + "/numpy.h"
    if not (os.path.exists(cur) and open(cur).read() == t):
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(src, dst)
        with open(cur, "w") as f:
            f.write(t)
    return ("-I" + os.path.dirname(dst),)


def pymodule(name, libs):
    """Build a pybind11 module of /repo (pysolver, pysolverlqr, pymomentum)."""
    with Lock():
        inc = pybind_headers() + ("-I" + sysconfig.get_paths()["include"],)
        jobs = [(s, "fast", inc) for s in sources(name)]
        for lib in libs:
            jobs += [(s, "fast", ()) for s in sources(lib)]
        objs = compile_all(jobs)
        suffix = sysconfig.get_config_var("EXT_SUFFIX")
        return link(objs, "fast", os.path.join(BUILD, "py", name + suffix), shared=True)


if __name__ == "__main__":
    for a in sys.argv[1:]:
        parts = a.split(",")
        print(harness(parts[0], parts[1:]))
