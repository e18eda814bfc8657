"""Builds the code under test from /repo's working tree into /verif/.build (git-ignored).

Nothing is written to /repo. A build is keyed by the content of every file that goes into it, so a
stale product can never be used; concurrent checks serialise on a lock.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HL_REPO", "/repo")
ROOT = os.path.join(VERIF, ".build")
NPROC = os.cpu_count() or 4
GUARD = "HUMANLEAGUE_VERIFY"


class BuildError(Exception):
    pass


def _files(*pats):
    out = []
    for p in pats:
        out += glob.glob(os.path.join(REPO, p), recursive=True)
    return sorted(f for f in out if os.path.isfile(f) and not f.endswith((".o", ".so", ".pyc")))


def _key(files, extra):
    h = hashlib.sha256()
    h.update(repr(extra).encode())
    for f in files:
        h.update(os.path.relpath(f, REPO if f.startswith(REPO) else VERIF).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def _env():
    env = dict(os.environ)
    for v in ("CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS", "PYTHONPATH", "R_LIBS", "R_LIBS_SITE"):
        env.pop(v, None)
    return env


def _cached(kind, key, make):
    """make(tmpdir) fills tmpdir, which is then renamed into place."""
    os.makedirs(ROOT, exist_ok=True)
    dest = os.path.join(ROOT, "%s-%s" % (kind, key))
    with open(os.path.join(ROOT, kind + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.isdir(dest):
            os.utime(dest)
            return dest
        # keep only a few products around
        olds = sorted(glob.glob(os.path.join(ROOT, kind + "-*")), key=os.path.getmtime)
        for o in olds[:-3]:
            shutil.rmtree(o, ignore_errors=True)
        tmp = os.path.join(ROOT, "tmp-%s-%d" % (kind, os.getpid()))
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        try:
            make(tmp)
            os.rename(tmp, dest)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return dest


def _compile_all(sources, flags, tmp, env):
    objs = []

    def one(src):
        obj = os.path.join(tmp, os.path.basename(src) + ".o")
        _run(["g++"] + flags + ["-c", src, "-o", obj], env=env)
        return obj

    # the biggest translation unit first
    sources = sorted(sources, key=lambda s: -os.path.getsize(s) * (10 if "module" in s else 1))
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for o in ex.map(one, sources):
            objs.append(o)
    return objs


def python_ext(variant="std"):
    """The Python extension plus the pure Python package, importable from the returned directory.

    std:  as setup.py builds it (optimised, asserts off), with the verification hook compiled in
    asan: the same sources under AddressSanitizer and UndefinedBehaviorSanitizer
    """
    files = _files("src/**/*", "humanleague/*.py", "humanleague/*.pyi")
    import pybind11

    base = ["-std=c++20", "-fPIC", "-fvisibility=hidden", "-w", "-DPYTHON_MODULE", "-DNDEBUG", "-D" + GUARD,
            "-I" + os.path.join(REPO, "src"), "-I" + sysconfig.get_paths()["include"], "-I" + pybind11.get_include()]
    if variant == "std":
        flags = base + ["-O2"]
        link = []
    elif variant == "asan":
        flags = base + ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]
        link = ["-fsanitize=address,undefined"]
    else:
        raise ValueError(variant)

    def make(tmp):
        env = _env()
        srcs = [f for f in glob.glob(os.path.join(REPO, "src/*.cpp"))
                if os.path.basename(f) not in ("RcppExports.cpp", "rcpp_api.cpp")]
        objs = _compile_all(srcs, flags, tmp, env)
        so = os.path.join(tmp, "_humanleague" + sysconfig.get_config_var("EXT_SUFFIX"))
        _run(["g++", "-shared", "-o", so] + objs + link, env=env)
        for o in objs:
            os.unlink(o)
        _hook_shim(tmp, env)
        shutil.copytree(os.path.join(REPO, "humanleague"), os.path.join(tmp, "humanleague"),
                        ignore=shutil.ignore_patterns("__pycache__"))
        di = os.path.join(tmp, "humanleague-0.0.0.dist-info")
        os.makedirs(di)
        with open(os.path.join(di, "METADATA"), "w") as f:
            f.write("Metadata-Version: 2.1\nName: humanleague\nVersion: 0.0.0\n")

    return _cached("py-" + variant, _key(files + [os.path.join(VERIF, "lib", f) for f in ("shim.c", "newcount.cpp", "faults.cpp")], flags), make)


def _hook_shim(tmp, env):
    _run(["gcc", "-O2", "-shared", "-fPIC", "-o", os.path.join(tmp, "hlshim.so"),
          os.path.join(VERIF, "lib/shim.c")], env=env)
    for name in ("newcount", "faults"):
        _run(["g++", "-O2", "-w", "-shared", "-fPIC", "-o", os.path.join(tmp, name + ".so"),
              os.path.join(VERIF, "lib", name + ".cpp")], env=env)


R_CACHE = """        inline void update( const VECTOR& v ) {
            start = ::Rcpp::internal::r_vector_start<RTYPE>(v) ;
            len = ::Rf_xlength(v) ;
        }
        inline R_xlen_t in(R_xlen_t i) const {
            // (the address of the first element of an empty vector is not followed)
            if (i < 0 || (i >= len && i + len != 0)) { fprintf(stderr, "R vector of %ld elements read or written at %ld\\n", (long)len, (long)i); abort(); }
            return i;
        }
        R_xlen_t len = 0;
"""


def _checked_rcpp(tmp):
    """A copy of Rcpp's headers in which an element of a vector can only be reached if it exists. None if these headers are not the known ones."""
    inc = subprocess.run(["Rscript", "--vanilla", "-e", 'cat(system.file("include", package="Rcpp"))'], stdout=subprocess.PIPE, text=True).stdout.strip()
    dest = os.path.join(tmp, "rcpp")
    shutil.copytree(inc, dest)
    f = os.path.join(dest, "Rcpp/vector/traits.h")
    s = open(f).read()
    a = s.find("		inline void update( const VECTOR& v ) {\n		    start = ")
    b = s.find("		inline iterator get() const { return start; }", a)
    if a < 0 or b < 0 or s.count("{ return start[i] ; }") != 2:
        return None
    s = s[:a] + R_CACHE + s[b:]
    s = s.replace("{ return start[i] ; }", "{ return start[in(i)] ; }")
    with open(f, "w") as fh:
        fh.write("#include <cstdio>\n#include <cstdlib>\n" + s)
    return dest


def r_package(variant="std"):
    """Installs the R package into a private library; returns that library's directory.

    std:     as R CMD INSTALL builds it
    checked: under AddressSanitizer and UndefinedBehaviorSanitizer, with checked containers, R's vectors included
    """
    files = _files("src/**/*", "R/**/*", "man/**/*", "DESCRIPTION", "NAMESPACE", "LICENCE")

    def make(tmp):
        env = _env()
        env["MAKEFLAGS"] = "-j%d" % NPROC
        env["CCACHE_DISABLE"] = "1"
        if os.path.exists("/opt/vp/lib/Makevars"):
            env["R_MAKEVARS_USER"] = "/opt/vp/lib/Makevars"
        if variant == "checked":
            rcpp = _checked_rcpp(tmp)
            san = "-O1 -g1 -fno-omit-frame-pointer -fPIC -w -fsanitize=address,undefined,float-cast-overflow -fno-sanitize=vptr -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS"
            mk = os.path.join(tmp, "Makevars")
            with open(mk, "w") as f:
                for n in ("", "11", "14", "17", "20", "23"):
                    f.write("CXX%s = g++%s%s\nCXX%sFLAGS = %s\n" % (n, " -I" + rcpp if rcpp else "", " -std=gnu++17" if not n else "", n, san))
                f.write("LDFLAGS = -fsanitize=address,undefined\n")
            env["R_MAKEVARS_USER"] = mk
        pkg = os.path.join(tmp, "rpkg")
        os.makedirs(pkg)
        for f in files:
            d = os.path.join(pkg, os.path.relpath(f, REPO))
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copy(f, d)
        lib = os.path.join(tmp, "rlib")
        os.makedirs(lib)
        if variant == "checked":
            env["LD_PRELOAD"] = asan_preload()
            env["ASAN_OPTIONS"] = "detect_leaks=0"
        _run(["R", "--vanilla", "CMD", "INSTALL", "--no-docs", "--no-multiarch", "--no-test-load", "--no-byte-compile",
              "--library=" + lib, pkg], env=env)
        shutil.rmtree(pkg)
        shutil.rmtree(os.path.join(tmp, "rcpp"), ignore_errors=True)

    return os.path.join(_cached("r" if variant == "std" else "rchecked", _key(files, "r3" + variant + R_CACHE), make), "rlib")


def asan_preload():
    lib = [os.path.realpath(subprocess.run(["gcc", "-print-file-name=" + n], stdout=subprocess.PIPE, text=True).stdout.strip()) for n in ("libasan.so", "libstdc++.so")]
    return " ".join(lib)


def cxx_harness(name, sources, flags=("-O2",), std="c++20"):
    """Compiles a C++ harness from /verif against /repo's sources. Returns the binary's path."""
    files = _files("src/**/*")
    mine = [os.path.join(VERIF, s) for s in sources if s.startswith("harness/")]
    rep = [os.path.join(REPO, s) for s in sources if not s.startswith("harness/")]

    def make(tmp):
        env = _env()
        fl = ["-std=" + std, "-w", "-DNDEBUG", "-I" + os.path.join(REPO, "src")] + list(flags)
        objs = _compile_all(mine + rep, fl, tmp, env)
        _run(["g++", "-o", os.path.join(tmp, name)] + objs + [f for f in flags if f.startswith("-fsanitize")], env=env)
        for o in objs:
            os.unlink(o)

    return os.path.join(_cached("cxx-" + name, _key(files + mine, (tuple(sources), tuple(flags), std)), make), name)


def cxx_groups(name, source, groups, flags, std="c++20"):
    """Compiles one harness once per group (-DGROUP=n), linked with the sources it needs. Returns {group: binary} and {group: why it could not be built}."""
    files = _files("src/**/*")
    mine = os.path.join(VERIF, source)
    libs = [f for f in glob.glob(os.path.join(REPO, "src/*.cpp"))
            if os.path.basename(f) not in ("RcppExports.cpp", "rcpp_api.cpp", "module.cpp", "UnitTester.cpp") and not os.path.basename(f).startswith("Test")]

    def make(tmp):
        env = _env()
        fl = ["-std=" + std, "-w", "-I" + os.path.join(REPO, "src")] + list(flags)
        link = [f for f in flags if f.startswith("-fsanitize")]

        def one(job):
            src, extra, obj = job
            try:
                _run(["g++"] + fl + extra + ["-c", src, "-o", os.path.join(tmp, obj)], env=env)
                return None
            except BuildError as e:
                return str(e)
        jobs = [(mine, ["-DGROUP=%d" % g], "g%d.o" % g) for g in groups] + [(s, [], "lib-" + os.path.basename(s) + ".o") for s in libs]
        with cf.ThreadPoolExecutor(NPROC) as ex:
            err = dict(zip((j[2] for j in jobs), ex.map(one, jobs)))
        for s in libs:
            if err["lib-" + os.path.basename(s) + ".o"]:
                raise BuildError(err["lib-" + os.path.basename(s) + ".o"])
        # an archive, so that a group links with no more than it uses
        _run(["ar", "rcs", os.path.join(tmp, "lib.a")] + [os.path.join(tmp, j[2]) for j in jobs if j[2].startswith("lib-")], env=env)
        for g in groups:
            e = err["g%d.o" % g]
            if not e:
                try:
                    _run(["g++", "-o", os.path.join(tmp, "g%d" % g), os.path.join(tmp, "g%d.o" % g), os.path.join(tmp, "lib.a")] + link, env=env)
                except BuildError as x:
                    e = str(x)
            if e:
                with open(os.path.join(tmp, "g%d.err" % g), "w") as f:
                    f.write(e[-3000:])
        for f in glob.glob(os.path.join(tmp, "*.o")) + [os.path.join(tmp, "lib.a")]:
            os.unlink(f)

    d = _cached("cxx-" + name, _key(files + [mine], (source, tuple(groups), tuple(flags), std)), make)
    bins = {g: os.path.join(d, "g%d" % g) for g in groups if os.path.exists(os.path.join(d, "g%d" % g))}
    errs = {g: open(os.path.join(d, "g%d.err" % g)).read() for g in groups if g not in bins}
    return bins, errs


if __name__ == "__main__":
    for what in sys.argv[1:] or ["std"]:
        print(r_package("checked" if what == "r-checked" else "std") if what[0] == "r" else python_ext(what))
