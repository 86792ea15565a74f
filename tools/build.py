"""Builds /repo's working tree together with a property driver.

Objects are cached under /verif/.build by the content of everything that goes
into them (source, every header of the tree and of the harness, flags), so a
stale object can never be linked; the cache is an accelerator only.
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src", "tinymesh")
HARNESS = os.path.join(VERIF, "harness")
CACHE = os.path.join(VERIF, ".build")

COMMON = ["-std=c++17", "-g1", "-w", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
          '-DREPO="%s"' % REPO]
INCLUDES = ["-I" + os.path.join(HARNESS, "shim"), "-I" + SRC, "-I" + os.path.join(REPO, "src"),
            "-I" + HARNESS, "-I/usr/include/eigen3"]
CONFIGS = {
    # address + undefined behaviour, real OpenMP runtime
    "asan": dict(cc=["g++", "-O1", "-fopenmp", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"],
                 ld=["-fopenmp", "-fsanitize=address,undefined,float-cast-overflow"]),
    # data races; OpenMP regions run on the harness's own runtime (see vgomp.cpp)
    "tsan": dict(cc=["g++", "-O1", "-fopenmp", "-fsanitize=thread", "-DEIGEN_DONT_PARALLELIZE"],
                 ld=["-fsanitize=thread", "-pthread"]),
    # the library as the Python module builds it, run in an embedded interpreter
    "py": dict(cc=["g++", "-O1", "-fopenmp", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all",
                   "-DTINYMESH_PYTHON_MODULE", "-fvisibility=hidden", "@PYINC@"],
               ld=["-fopenmp", "-fsanitize=address,undefined,float-cast-overflow", "@PYLIB@"]),
    # order-exploring OpenMP runtime, no sanitizer
    "sched": dict(cc=["g++", "-O1", "-fopenmp", "-DEIGEN_DONT_PARALLELIZE"], ld=["-pthread"]),
}
# Slow to compile and needed only by the drivers that use them.
HEAVY = {"ops/features.cpp", "restore/completion.cpp"}
# third-party implementation unit: replaced by the header-only stand-ins in shim/
EXCLUDE = {"core/external.cpp"}


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _headers():
    hs = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.h"), recursive=True) +
                glob.glob(os.path.join(REPO, "src", "**", "*.hpp"), recursive=True) +
                glob.glob(os.path.join(REPO, "src", "**", "*.inl"), recursive=True))
    return hs


def _harness_headers():
    return sorted(glob.glob(os.path.join(HARNESS, "**", "*.h"), recursive=True))


def sources():
    r = []
    for p in sorted(glob.glob(os.path.join(SRC, "**", "*.cpp"), recursive=True)):
        rel = os.path.relpath(p, SRC)
        if rel.startswith("ext/") or rel in EXCLUDE:
            continue
        r.append(rel)
    return r


def _hash(parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:24]


def _python_flags():
    """Compiler and linker flags for embedding Python with pybind11.

    The packaged pybind11 (2.11) reads element sizes at the place where numpy 1 kept
    them; the copy made here reads them where numpy 2 does.
    """
    inc, src = os.path.join(CACHE, "pyinc"), "/usr/include/pybind11"
    text = _read(os.path.join(src, "numpy.h")).decode()
    new = text.replace("    int type_num;\n    int elsize;\n    int alignment;\n",
                       "    int type_num;\n    unsigned long long flags2;\n    Py_ssize_t elsize;\n    Py_ssize_t alignment;\n")
    new = new.replace('"numpy.core.', '"numpy._core.')
    if not os.path.exists(os.path.join(inc, "pybind11", "numpy.h")):
        tmp = inc + ".%d" % os.getpid()
        shutil.copytree(src, os.path.join(tmp, "pybind11"))
        with open(os.path.join(tmp, "pybind11", "numpy.h"), "w") as f:
            f.write(new)
        try:
            os.rename(tmp, inc)
        except OSError:
            shutil.rmtree(tmp)
    return ["-I" + inc, "-I" + sysconfig.get_paths()["include"]], ["-lpython" + sysconfig.get_config_var("LDVERSION")]


def _compile(cmd, out):
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("compile failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    os.replace(tmp, out)


def build(driver, config="asan", full=False, extra_src=(), extra_cc=(), extra_ld=(), name=None):
    """driver: path of the driver source. Returns the executable's path."""
    cfg = CONFIGS[config]
    os.makedirs(CACHE, exist_ok=True)
    if config == "py":
        inc, lib = _python_flags()
        cfg = dict(cc=[f for x in cfg["cc"] for f in (inc if x == "@PYINC@" else [x])],
                   ld=[f for x in cfg["ld"] for f in (lib if x == "@PYLIB@" else [x])])
    repo_h = b"".join(_hash([os.path.relpath(p, REPO).encode(), _read(p)]).encode() for p in _headers())
    harness_h = b"".join(_hash([os.path.relpath(p, HARNESS).encode(), _read(p)]).encode()
                         for p in _harness_headers())
    shim_h = b"".join(_hash([p.encode(), _read(p)]).encode() for p in _harness_headers() if "/shim/" in p)

    def job(path, hdr, extra=()):
        flags = cfg["cc"] + COMMON + INCLUDES + list(extra)
        key = _hash([" ".join(flags).encode(), path.encode(), _read(path), hdr])
        obj = os.path.join(CACHE, key + ".o")
        return flags + ["-c", path], obj

    srcs = sources()
    if not srcs:
        raise BuildError("no sources under " + SRC)
    light = [s for s in srcs if s not in HEAVY]

    def repo_jobs(rels):
        return [job(os.path.join(SRC, r), repo_h + shim_h) for r in rels]

    drv = [job(driver, repo_h + harness_h, extra_cc)]
    drv += [job(p, repo_h + harness_h, extra_cc) for p in extra_src]

    def run(jobs):
        todo = [(c, o) for c, o in jobs if not os.path.exists(o)]
        # slowest first
        todo.sort(key=lambda j: -sum(w in j[0][-1] for w in ("features", "restore/", "eigen.cpp", "completion", "mesh.cpp", "props/")))
        with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
            list(ex.map(lambda j: _compile(*j), todo))
        return [o for _, o in jobs]

    def link(objs, libobjs):
        key = _hash([" ".join(cfg["ld"]).encode(), " ".join(extra_ld).encode()] + [o.encode() for o in objs + libobjs])
        exe = os.path.join(CACHE, (name or os.path.basename(driver).split(".")[0]) + "-" + key)
        if os.path.exists(exe):
            return exe
        lib = os.path.join(CACHE, "lib" + key + ".%d.a" % os.getpid())
        if os.path.exists(lib):
            os.unlink(lib)
        r = subprocess.run(["ar", "rcs", lib] + libobjs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError(r.stdout)
        tmp = exe + ".tmp%d" % os.getpid()
        r = subprocess.run(["g++"] + objs + [lib] + cfg["ld"] + list(extra_ld) + ["-o", tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        os.unlink(lib)
        if r.returncode != 0:
            raise BuildError("link failed:\n" + r.stdout[-4000:])
        os.replace(tmp, exe)
        return exe

    if not full:
        objs = run(drv + repo_jobs(light))
        try:
            return link(objs[:len(drv)], objs[len(drv):])
        except BuildError as e:
            if "undefined reference" not in str(e):
                raise
    objs = run(drv + repo_jobs(srcs))
    return link(objs[:len(drv)], objs[len(drv):])


if __name__ == "__main__":
    print(build(sys.argv[1], *(sys.argv[2:3] or ["asan"]), full=len(sys.argv) > 3))
