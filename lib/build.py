"""Builds the simulator from /repo's working tree, by content hash.

Every object is keyed by its flags and by the contents of every non-system
file it was made from, so an unchanged tree costs nothing and any change is
picked up.  All output goes to /verif/build (git-ignored).
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
GEN = os.path.join(BUILD, "gen")
SIM = os.path.join(VERIF, "sim")

CXX = "/usr/bin/g++"
SYSINC = ["-isystem", "/usr/include/eigen3", "-isystem",
          "/usr/include/hdf5/serial"]
REPO_FLAGS = ["-O2", "-g1", *SYSINC, "-include", os.path.join(SIM, "compat.hpp"),
              "-w", "-std=c++14", "-fopenmp", "-fsanitize=thread",
              "--param", "tsan-instrument-func-entry-exit=0",
              "-fno-tree-loop-distribute-patterns", "-fno-pie",
              "-I", GEN, "-I", os.path.join(REPO, "src"),
              "-I", os.path.join(REPO, "src/core"),
              "-I", os.path.join(REPO, "src/sweepers"),
              "-I", os.path.join(REPO, "src/solvers"),
              "-I", os.path.join(REPO, "src/util")]
SIM_FLAGS = ["-O2", "-g1", *SYSINC, "-Wall", "-std=c++17", "-fPIC",
             "-mfsgsbase",
             "-fno-builtin-malloc", "-fno-threadsafe-statics", "-fno-use-cxa-atexit"]
HDF5_LIB = "/usr/lib/x86_64-linux-gnu/hdf5/serial"


class BuildError(Exception):
    pass


_fh = {}


def _filehash(p):
    try:
        st = os.stat(p)
    except OSError:
        return "missing"
    k = (p, st.st_mtime_ns, st.st_size, st.st_ino)
    if k not in _fh:
        with open(p, "rb") as f:
            _fh[k] = hashlib.sha256(f.read()).hexdigest()
    return _fh[k]


def _key(flags, deps):
    h = hashlib.sha256("\0".join(flags).encode())
    for d in sorted(deps):
        h.update(d.encode() + b"=" + _filehash(d).encode())
    return h.hexdigest()[:32]


def _parse_d(path):
    txt = open(path).read().replace("\\\n", " ")
    out = []
    for tok in txt.split(":", 1)[1].split():
        t = os.path.abspath(tok)
        if t.startswith(REPO + "/") or t.startswith(VERIF + "/"):
            out.append(t)
    return sorted(set(out))


def _compile(src, flags):
    name = src.replace("/", "_")
    d = os.path.join(BUILD, "obj", name)
    os.makedirs(d, exist_ok=True)
    for man in glob.glob(os.path.join(d, "*.deps")):
        deps = open(man).read().split("\n")
        o = os.path.join(d, _key(flags, deps) + ".o")
        if os.path.exists(o):
            os.utime(o)
            return o
    tmp = os.path.join(d, "tmp%d" % os.getpid())
    r = subprocess.run([CXX, *flags, "-MD", "-MF", tmp + ".d", "-c", src, "-o",
                        tmp + ".o"], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-3000:]))
    deps = _parse_d(tmp + ".d")
    k = _key(flags, deps)
    with open(os.path.join(d, hashlib.sha256("\n".join(deps).encode())
                           .hexdigest()[:16] + ".deps"), "w") as f:
        f.write("\n".join(deps))
    os.rename(tmp + ".o", os.path.join(d, k + ".o"))
    os.unlink(tmp + ".d")
    # keep a few versions only
    objs = sorted(glob.glob(os.path.join(d, "*.o")), key=os.path.getmtime)
    for o in objs[:-6]:
        os.unlink(o)
    return os.path.join(d, k + ".o")


def _generate():
    os.makedirs(os.path.join(GEN, "util"), exist_ok=True)

    def put(path, text):
        if not os.path.exists(path) or open(path).read() != text:
            with open(path, "w") as f:
                f.write(text)
    src = os.path.join(REPO, "src")
    t = open(os.path.join(src, "git_SHA1.cpp.in")).read()
    put(os.path.join(GEN, "git_SHA1.cpp"), t.replace("@GIT_SHA1@", "0" * 40))
    t = open(os.path.join(src, "util/force_inline.hpp.in")).read()
    t = t.replace("${mocc_force_inline}", "__attribute__((always_inline)) inline")
    put(os.path.join(GEN, "util/force_inline.hpp"), t)
    put(os.path.join(GEN, "force_inline.hpp"), t)


def repo_sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs[:] = sorted(d for d in dirs if d != "tests")
        for f in sorted(files):
            if f.endswith(".cpp") and f != "git_SHA1.cpp":
                out.append(os.path.join(root, f))
    return out


def build(verbose=False):
    """Returns the path of the simulator executable for the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        _generate()
        jobs = []
        for s in repo_sources():
            fl = list(REPO_FLAGS)
            if s.endswith("/src/mocc.cpp"):
                fl.append("-Dmain=mocc_main")
            jobs.append((s, fl))
        jobs.append((os.path.join(GEN, "git_SHA1.cpp"), REPO_FLAGS))
        jobs.append((os.path.join(SIM, "main.cpp"), ["-O1", "-fno-pie"]))
        nrepo = len(jobs)
        for s in ("sched.cpp", "vfs.cpp", "misc.cpp", "serve.cpp"):
            jobs.append((os.path.join(SIM, s), SIM_FLAGS))
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            objs = list(ex.map(lambda a: _compile(*a), jobs))
        h = hashlib.sha256()
        for o in objs:
            h.update(o.encode())
        h.update(_filehash(os.path.join(SIM, "libsim.map")).encode())
        h.update(_filehash(os.path.abspath(__file__)).encode())
        out = os.path.join(BUILD, "bin", h.hexdigest()[:24])
        exe = os.path.join(out, "sim")
        if not os.path.exists(exe):
            tmp = out + ".tmp%d" % os.getpid()
            os.makedirs(tmp, exist_ok=True)

            def link(cmd):
                r = subprocess.run(cmd, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    raise BuildError("linking failed:\n" + r.stdout[-3000:])
            # The runtime outlives every destructor of the program: its own
            # globals are never destroyed.
            simobjs = []
            for i, o in enumerate(objs[nrepo:]):
                c = os.path.join(tmp, "s%d.o" % i)
                link(["objcopy", "-R", ".fini_array", "-R", ".rela.fini_array",
                      "-R", ".fini_array.*", "-R", ".rela.fini_array.*", o, c])
                simobjs.append(c)
            link([CXX, "-shared", "-o", os.path.join(tmp, "libsim.so"),
                  *simobjs, "-Wl,-Bsymbolic",
                  "-Wl,--version-script=" + os.path.join(SIM, "libsim.map"),
                  "-L" + HDF5_LIB, "-lhdf5", "-ldl"])
            link([CXX, "-no-pie", "-o", os.path.join(tmp, "sim"),
                  *objs[:nrepo], "-L" + tmp, "-lsim",
                  "-Wl,-rpath,$ORIGIN", "-Wl,--as-needed",
                  "-L" + HDF5_LIB, "-lhdf5_cpp", "-lhdf5", "-lpugixml", "-ldl"])
            if os.path.isdir(out):
                shutil.rmtree(out)
            os.rename(tmp, out)
        os.utime(out)
        old = sorted(glob.glob(os.path.join(BUILD, "bin", "*")),
                     key=os.path.getmtime)
        for o in old[:-5]:
            shutil.rmtree(o, ignore_errors=True)
        return exe


if __name__ == "__main__":
    try:
        print(build())
    except BuildError as e:
        print(e)
        sys.exit(2)
