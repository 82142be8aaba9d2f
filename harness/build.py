"""Builds the server under test, straight from /repo's working tree, in several variants.

Objects and binaries live in /verif/build (ignored by git), keyed by the content of the
sources and the flags, so a changed tree is always rebuilt and an unchanged one is reused.
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SCV_REPO", "/repo")
BUILD = os.environ.get("SCV_BUILD", os.path.join(VERIF, "build"))
SHIM = os.path.join(VERIF, "harness", "shim", "shim.c")

WRAP = ("gettimeofday clock_gettime time write pwrite pwrite64 writev send sendfile sendfile64 "
        "copy_file_range rename unlink remove link mkdir ftruncate ftruncate64 fallocate system posix_spawn posix_spawnp open open64 "
        "fopen fopen64 fork _exit epoll_wait accept4 accept").split()
WRAP_ALLOC = "malloc calloc realloc free strdup strndup _Znwm _ZdlPv _ZdlPvm _Znam _ZdaPv".split()

REL = "-DNDEBUG -DRELEASE"
# Only the release build's own optimisation level is kept for the plain variants.
VARIANTS = {
    "asan":   dict(cc="clang++", flags=REL + " -O1 -fno-omit-frame-pointer -fsanitize=address,bounds -fno-sanitize-recover=bounds", ld="-fsanitize=address,bounds"),
    "asanbig": dict(cc="clang++", flags=REL + " -O1 -fno-omit-frame-pointer -fsanitize=address,bounds -fno-sanitize-recover=bounds -DDB_LRU_EVERY=1000000", ld="-fsanitize=address,bounds"),
    "rel":    dict(cc="g++", flags=REL + " -O2", ld="", alloc=True),
    "relbig": dict(cc="g++", flags=REL + " -O2 -DDB_LRU_EVERY=1000000", ld="", alloc=True),
    "rel5":   dict(cc="g++", flags=REL + " -O2 -DDB_LRU_EVERY=5", ld=""),
    "nocow":  dict(cc="g++", flags=REL + " -O2 -DDB_ENABLE_COPY_ON_WRITE=false", ld=""),
    "nocowbig": dict(cc="g++", flags=REL + " -O2 -DDB_ENABLE_COPY_ON_WRITE=false -DDB_LRU_EVERY=1000000", ld=""),
    "debug":  dict(cc="g++", flags="-DDEBUG_BUILD -O0", ld=""),
    "small":  dict(cc="clang++", flags=REL + " -O1 -fno-omit-frame-pointer -fsanitize=address,bounds -fno-sanitize-recover=bounds -DBUFFER_SIZE=256 -DDB_LRU_EVERY=1000000", ld="-fsanitize=address,bounds"),
    "small1k":  dict(cc="clang++", flags=REL + " -O1 -fno-omit-frame-pointer -fsanitize=address,bounds -fno-sanitize-recover=bounds -DBUFFER_SIZE=1024 -DDB_LRU_EVERY=1000000", ld="-fsanitize=address,bounds"),
}

class BuildError(Exception):
    pass

def sources():
    c = sorted(glob.glob(REPO + "/src/core/*.cpp")) + sorted(glob.glob(REPO + "/src/core/*.c"))
    s = sorted(glob.glob(REPO + "/src/server/*.cpp"))
    return c, s

def tree_hash():
    h = hashlib.sha256()
    for p in sorted(glob.glob(REPO + "/src/**/*", recursive=True)):
        if p.endswith((".cpp", ".c", ".h", ".hpp")):
            h.update(p.encode()); h.update(open(p, "rb").read())
    h.update(open(SHIM, "rb").read())
    return h

def tree_hash_bytes():
    return tree_hash().digest()

def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-4000:])

def build(name):
    """Returns the path of the server binary of a variant."""
    v = VARIANTS[name]
    h = tree_hash()
    h.update(repr(sorted(v.items())).encode()); h.update(repr((WRAP, WRAP_ALLOC)).encode())
    out = os.path.join(BUILD, "%s-%s" % (name, h.hexdigest()[:16]))
    exe = os.path.join(out, "scache")
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, name + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        for old in glob.glob(os.path.join(BUILD, name + "-" + "?" * 16)):
            shutil.rmtree(old, ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
        try:
            try:
                _compile(v, v["cc"], tmp)
            except BuildError:
                # a tree that only g++ (the project's compiler) accepts is still testable
                if v["cc"] == "g++":
                    raise
                _compile(v, "g++", tmp, extra_ld="-static-libasan")
            os.rename(tmp, out)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return exe

def _compile(v, cc, tmp, extra_ld=""):
    core, srv = sources()
    base = [cc, "-std=c++11", "-w", "-g", "-fPIC", "-I" + REPO + "/src/core"] + v["flags"].split()
    objs, jobs = [], []
    for s in core + srv:
        o = os.path.join(tmp, os.path.basename(s) + ".o")
        objs.append(o); jobs.append(base + ["-c", s, "-o", o])
    so = os.path.join(tmp, "shim.o")
    jobs.append(["gcc", "-O1", "-g", "-w", "-fPIC", "-c", SHIM, "-o", so] + (["-DSCV_COUNT_ALLOC"] if v.get("alloc") else []))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(_run, jobs))
    wraps = WRAP + (WRAP_ALLOC if v.get("alloc") else [])
    _run([cc, "-g"] + v["ld"].split() + extra_ld.split() + objs + [so] + ["-Wl,--wrap=" + w for w in wraps]
         + ["-o", os.path.join(tmp, "scache"), "-lpthread"])
    for o in objs + [so]:
        os.unlink(o)

# Drivers that link parts of the project directly.  name -> (driver source, project sources, compiler, flags)
ASAN = "-O1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=alignment -fno-sanitize-recover=all"
DRIVERS = {}
for _n, _sz in (("16k", 16384), ("256", 256), ("1k", 1024)):
    DRIVERS["rbuf" + _n] = ("rbuf_driver.cpp", ["read_buffer.cpp"], "clang++", REL + " -DBUFFER_SIZE=%d " % _sz + ASAN)
    DRIVERS["rbuf" + _n + "rel"] = ("rbuf_driver.cpp", ["read_buffer.cpp"], "g++", REL + " -O2 -DBUFFER_SIZE=%d" % _sz)
DRIVERS["rbufdebug"] = ("rbuf_driver.cpp", ["read_buffer.cpp"], "g++", "-DDEBUG_BUILD -O0 -DBUFFER_SIZE=256")
DRIVERS["hash"] = ("hash_driver.cpp", ["hash.cpp"], "clang++", REL + " " + ASAN)
DRIVERS["hashrel"] = ("hash_driver.cpp", ["hash.cpp"], "g++", REL + " -O2")
DRIVERS["hashO3"] = ("hash_driver.cpp", ["hash.cpp"], "g++", REL + " -O3 -march=native")
DRIVERS["hashdebug"] = ("hash_driver.cpp", ["hash.cpp"], "g++", "-DDEBUG_BUILD -O0")

def build_driver(name):
    src, parts, cc, flags = DRIVERS[name]
    src = os.path.join(VERIF, "harness", "cxx", src)
    h = hashlib.sha256(repr(DRIVERS[name]).encode() + tree_hash_bytes() + open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "drv-%s-%s" % (name, h))
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "drv-" + name + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        for old in glob.glob(os.path.join(BUILD, "drv-" + name + "-" + "?" * 16)):
            os.unlink(old)
        tmp = exe + ".tmp"
        _run([cc, "-std=c++11", "-w", "-g", "-I" + REPO + "/src/core"] + flags.split() + [src] + [os.path.join(REPO, "src/core", p) for p in parts] + ["-o", tmp])
        os.rename(tmp, exe)
    return exe

if __name__ == "__main__":
    names = sys.argv[1:] or list(VARIANTS) + list(DRIVERS)
    with ThreadPoolExecutor(4) as ex:
        for n, p in zip(names, ex.map(lambda n: build(n) if n in VARIANTS else build_driver(n), names)):
            print(n, p)
