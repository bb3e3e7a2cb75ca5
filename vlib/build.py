"""Builds /repo's current sources, plain or instrumented, together with the monitors in /verif/src.

Objects are cached in /verif/.build under a hash of everything that went into them, so a change in
/repo always leads to a rebuild of what it touches."""
import glob, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
TOOLS = os.path.join(REPO, "tools")
BUILD = os.path.join(VERIF, ".build")
LIBS = ["-lblas", "-llapack", "-lgivaro", "-lgmpxx", "-lgmp", "-lm"]
CENV = dict(os.environ, LC_ALL="C.UTF-8")
for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CPATH", "LIBRARY_PATH"):
    CENV.pop(k, None)

class BuildError(Exception):
    pass

UBSAN = "-fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all -fno-omit-frame-pointer"
# c: flags for the C files, cc: flags for the C++ files of /repo, ld: link flags, extra: runtime sources of /verif
VARIANTS = {
    # as the project builds it
    "plain": dict(c="-O3 -g -fopenmp", cc="-O2 -g", ld="-fopenmp", extra=[]),
    "asan": dict(c="-O1 -g -fopenmp " + UBSAN, cc="-O0 -g1 " + UBSAN.replace(",undefined,float-cast-overflow", ""), ld="-fopenmp " + UBSAN, extra=[]),
    # real threads, every lock/barrier/atomic visible to the race detector (own OpenMP runtime)
    "tsan": dict(c="-O1 -g -fopenmp -fsanitize=thread", cc="-O1 -g1", ld="-fsanitize=thread -pthread", extra=["rt/miniomp.cpp"]),
    # one thread at a time, switched by a seeded scheduler at instrumented memory accesses
    "chaos": dict(c="-O1 -g -fopenmp -fsanitize=thread", cc="-O2 -g1", ld="-pthread", extra=["rt/chaos.cpp", "rt/miniomp.cpp"], extraflags={"rt/miniomp.cpp": "-DCHAOS"}, redefine=["realloc"]),
    # allocation functions of /repo's own code go through an injector
    "fail": dict(c="-O1 -g -fopenmp", cc="-O1 -g1", ld="-fopenmp", extra=["rt/failalloc.cpp"], redefine=["malloc", "calloc", "realloc", "free"]),
    "gcov": dict(c="-O0 -g -fopenmp --coverage -fprofile-update=atomic", cc="-O0 -g", ld="-fopenmp --coverage", extra=[]),
    "valgrind": dict(c="-O1 -g -fopenmp", cc="-O1 -g", ld="-fopenmp", extra=[]),
}

def _h(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]

def _read(p):
    with open(p, "rb") as f:
        return f.read()

def _run(cmd, what):
    r = subprocess.run(cmd, env=CENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError("%s failed:\n%s\n%s" % (what, " ".join(cmd), r.stdout.decode(errors="replace")[-3000:]))

def _headers(d):
    return b"".join(_read(p) for p in sorted(glob.glob(os.path.join(d, "*.h")) + glob.glob(os.path.join(d, "*.hpp"))))

_pkg = None
def pkg_cflags():
    global _pkg
    if _pkg is None:
        r = subprocess.run(["pkg-config", "--cflags", "givaro", "fflas-ffpack"], stdout=subprocess.PIPE)
        _pkg = r.stdout.decode().split() if r.returncode == 0 else []
    return _pkg

class Builder:
    """Collects compile jobs, runs them in parallel, then links."""
    def __init__(self):
        os.makedirs(os.path.join(BUILD, "o"), exist_ok=True)
        os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
        self.jobs = {}     # object path -> (cmd, post)
        self.links = {}

    def obj(self, src, compiler, flags, deps, redefine=()):
        key = _h(_read(src), src, compiler, " ".join(flags), deps, ",".join(redefine))
        out = os.path.join(BUILD, "o", os.path.basename(src).replace(".", "_") + "-" + key + ".o")
        if not os.path.exists(out):
            self.jobs[out] = ([compiler] + flags + ["-c", src], redefine, os.path.getsize(src) + (10 ** 7 if "ffpack" in src else 0) + (10 ** 5 if src.endswith("cpp") else 0))
        return out

    def repo_lib(self, variant):
        v = VARIANTS[variant]
        deps = _headers(SRC)
        red = v.get("redefine", [])
        objs = []
        for s in sorted(glob.glob(os.path.join(SRC, "*.c"))):
            objs.append(self.obj(s, "gcc", ["-std=gnu99", "-w", "-fPIC", "-I" + SRC] + v["c"].split(), deps, red))
        for s in sorted(glob.glob(os.path.join(SRC, "*.cpp")) + glob.glob(os.path.join(SRC, "*.cc"))):
            objs.append(self.obj(s, "g++", ["-std=gnu++11", "-w", "-fPIC", "-I" + SRC] + pkg_cflags() + v["cc"].split(), deps))
        return objs

    def harness(self, variant, sources, name="mon"):
        """an executable made of /repo's library and /verif/src/<sources>"""
        v = VARIANTS[variant]
        deps = _headers(os.path.join(VERIF, "src")) + _headers(os.path.join(VERIF, "src", "rt")) + _headers(SRC)
        objs = self.repo_lib(variant)
        for s in sources:
            objs.append(self.obj(os.path.join(VERIF, "src", s), "g++", ["-std=c++17", "-O1", "-g1", "-w", "-I" + SRC, "-I" + os.path.join(VERIF, "src")], deps))
        for s in v["extra"]:
            fl = v.get("extraflags", {}).get(s, "")
            objs.append(self.obj(os.path.join(VERIF, "src", s), "g++", ["-std=c++17", "-O1", "-g1", "-w", "-I" + os.path.join(VERIF, "src")] + fl.split(), deps))
        return self.link(objs, v["ld"].split(), name + "-" + variant)

    def tool(self, variant, name):
        v = VARIANTS[variant]
        deps = _headers(SRC) + _headers(TOOLS)
        fl = ["-std=gnu99", "-w", "-fPIC", "-I" + SRC, "-I" + TOOLS] + v["c"].split()
        fl = [x for x in fl if x != "-fopenmp"]       # the project compiles its tools without it
        own = self.obj(os.path.join(TOOLS, name + ".c"), "gcc", fl + ["-fopenmp"], deps)
        objs = [own]
        if os.path.exists(os.path.join(TOOLS, "common.c")) and b"common.h" in _read(os.path.join(TOOLS, name + ".c")):
            objs.append(self.obj(os.path.join(TOOLS, "common.c"), "gcc", fl + ["-fopenmp"], deps))
        return self.link(objs + self.repo_lib(variant), v["ld"].split(), "tool-" + name + "-" + variant)

    def link(self, objs, flags, name):
        out = os.path.join(BUILD, "bin", name + "-" + _h(" ".join(objs), " ".join(flags)))
        if not os.path.exists(out):
            self.links[out] = (objs, flags)
        return out

    def run(self):
        def comp(item):
            out, (cmd, red, _) = item
            tmp = out + ".%d.tmp" % os.getpid()
            _run(cmd + ["-o", tmp], "compiling " + cmd[-1])
            if red:
                rc = ["objcopy"]
                for s in red:
                    rc += ["--redefine-sym", "%s=vf_%s" % (s, s)]
                _run(rc + [tmp], "objcopy")
            os.replace(tmp, out)
        jobs = sorted(self.jobs.items(), key=lambda kv: -kv[1][2])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(comp, jobs))
        def lk(item):
            out, (objs, flags) = item
            tmp = out + ".%d.tmp" % os.getpid()
            _run(["g++", "-o", tmp] + objs + flags + LIBS + ["-rdynamic"], "linking")
            os.replace(tmp, out)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lk, self.links.items()))
        self.jobs, self.links = {}, {}

if __name__ == "__main__":
    b = Builder()
    variant = sys.argv[1]
    if sys.argv[2] == "tool":
        outs = [b.tool(variant, t) for t in sys.argv[3:]]
    else:
        outs = [b.harness(variant, sys.argv[2:])]
    b.run()
    print("\n".join(outs))
