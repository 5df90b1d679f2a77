"""Builds from /repo's current working tree: verification bitcode and the executable harness."""
import glob, hashlib, os, re, shutil, subprocess, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NPV_REPO", "/repo")
BUILD = os.environ.get("NPV_BUILD") or os.path.join(ROOT, "build")
NPROC = os.cpu_count() or 4


class BuildError(Exception):
    pass


def _mpi(kind):
    try:
        return subprocess.run(["mpicxx", "--showme:" + kind], capture_output=True, text=True).stdout.split()
    except OSError:
        return []


DEFS = ["-DRESTRICT=__restrict__", "-DNESO_PARTICLES_DEVICE_TYPE_CPU", "-DNESO_PARTICLES_VERSION_MAJOR=0",
        "-DNESO_PARTICLES_VERSION_MINOR=0", "-DNESO_PARTICLES_VERSION_PATCH=0", "-DNDEBUG"]


def base_flags():
    return ["-std=c++17", "-w", "-fno-access-control", "-I" + os.path.join(ROOT, "shim"), "-I" + REPO + "/include", "-I" + REPO] + DEFS + _mpi("compile") + \
        ["-include", os.path.join(ROOT, "shim", "npv_pre.hpp")]


def run(cmd, what, cwd=None, timeout=600):
    r = subprocess.run(cmd, capture_output=True, text=True, cwd=cwd, timeout=timeout)
    if r.returncode != 0:
        raise BuildError("%s failed: %s" % (what, (r.stderr or r.stdout)[-3000:]))
    return r


_tree = None


def tree_hash():
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        fs = sorted(glob.glob(REPO + "/include/**/*", recursive=True) + glob.glob(REPO + "/src/**/*", recursive=True) +
                    glob.glob(ROOT + "/shim/**/*", recursive=True) + glob.glob(ROOT + "/native/*"))
        for f in fs:
            if os.path.isfile(f):
                h.update(f.encode())
                h.update(open(f, "rb").read())
        _tree = h.hexdigest()
    return _tree


def key(*xs):
    h = hashlib.sha256(tree_hash().encode())
    for x in xs:
        h.update(repr(x).encode() + b"\0")
    return h.hexdigest()[:20]


def cached(path, fn):
    """fn(tmp) builds into tmp; path is content-addressed"""
    if os.path.exists(path):
        return path
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = "%s.%d.%d.tmp" % (path, os.getpid(), threading.get_ident())
    fn(tmp)
    os.replace(tmp, path)
    return path


def lib_sources():
    return sorted(f for f in glob.glob(REPO + "/src/**/*.cpp", recursive=True) if "petsc" not in f.lower())


NATIVE = ["-O0", "-g1", "-fPIC", "-fsanitize=address"]


def native_lib():
    """objects of the whole (non-PETSc) library plus the runtime"""
    fs = lib_sources()
    fs.sort(key=lambda f: -os.path.getsize(f))
    n = 14
    bins = [[] for _ in range(n)]
    size = [0] * n
    for f in fs:
        i = size.index(min(size))
        bins[i].append(f)
        size[i] += os.path.getsize(f) + 2000
    fl = base_flags() + NATIVE
    jobs = []
    for b in bins:
        if b:
            jobs.append(b)
    d = os.path.join(BUILD, "lib_" + key(fl, bins))

    def unit(args):
        i, b = args
        out = []

        def comp(tmp):
            src = tmp + ".cpp"
            with open(src, "w") as f:
                f.write("".join('#include "%s"\n' % x for x in b))
            run(["clang++-18"] + fl + ["-c", src, "-o", tmp], "library build")
            os.unlink(src)
        try:
            return [cached(os.path.join(d, "u%d.o" % i), comp)]
        except BuildError:
            if len(b) == 1:
                raise
        for j, f in enumerate(b):  # name clash inside the unity unit: one object per file
            out.append(cached(os.path.join(d, "u%d_%d.o" % (i, j)),
                              lambda tmp, f=f: run(["clang++-18"] + fl + ["-x", "c++", "-c", f, "-o", tmp], "library build")))
        return out
    objs = []
    with ThreadPoolExecutor(NPROC) as ex:
        for r in ex.map(unit, enumerate(jobs)):
            objs += r
    return objs


def native_exe(name, cpps, extra=()):
    fl = base_flags() + NATIVE + list(extra)
    srcs = list(cpps) + [ROOT + "/native/runtime.cpp", ROOT + "/native/main.cpp"]
    d = os.path.join(BUILD, "exe_%s_%s" % (name, key(fl, [open(s).read() for s in srcs], [open(f).read() for f in sorted(glob.glob(ROOT + "/contracts/*.hpp"))])))
    objs = []
    with ThreadPoolExecutor(NPROC) as ex:
        lib = ex.submit(native_lib)
        fs = [ex.submit(cached, os.path.join(d, os.path.basename(s) + ".o"),
                        lambda tmp, s=s: run(["clang++-18"] + fl + ["-c", s, "-o", tmp], "harness build")) for s in srcs]
        objs = [f.result() for f in fs]
        lib = lib.result()
    return cached(os.path.join(d, "prog"),
                  lambda tmp: run(["clang++-18", "-fsanitize=address"] + objs + lib + ["-o", tmp] + _mpi("link") + ["-lpthread"], "harness link"))


VCF = ["-DNPV_VC", "-gline-tables-only", "-fignore-exceptions", "-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm"]


def vc_bitcode(name, cpp, repo_srcs=(), opaque=(), inline="100000"):
    """bitcode of the contracts in `cpp` and of the real code they call (inlined, mechanically)"""
    fl = base_flags() + VCF
    srcs = [cpp] + [os.path.join(REPO, s) for s in repo_srcs]
    hdr = [open(f).read() for f in sorted(glob.glob(ROOT + "/contracts/*.hpp"))]
    md = os.path.join(BUILD, "vc_%s_%s" % (name, key(fl, open(cpp).read(), repo_srcs, hdr)))
    d = os.path.join(BUILD, "vc_%s_%s" % (name, key(fl, open(cpp).read(), repo_srcs, opaque, inline, [open(f).read() for f in sorted(glob.glob(ROOT + "/contracts/*.hpp"))])))
    out = os.path.join(d, "o.bc")
    if os.path.exists(out):
        return out
    os.makedirs(d, exist_ok=True)
    os.makedirs(md, exist_ok=True)
    with ThreadPoolExecutor(NPROC) as ex:
        bcs = list(ex.map(lambda a: cached(os.path.join(md, "m%d.bc" % a[0]), lambda tmp: run(["clang++-18"] + fl + ["-c", a[1], "-o", tmp], "verification build")),
                          enumerate(srcs)))

    def link(tmp):
        cur = tmp + ".l.bc"
        run(["llvm-link-18"] + bcs + ["-o", cur], "llvm-link")
        nm = run(["llvm-nm-18", "-j", cur], "llvm-nm").stdout.split()
        dm = subprocess.run(["c++filt"], input="\n".join(nm), capture_output=True, text=True).stdout.split("\n")
        api = [n for n in nm if n.startswith(("vc_", "npvr_"))]
        if not any(n.startswith("vc_") for n in api):
            raise BuildError("no contracts in " + cpp)
        if opaque:
            rx = re.compile("|".join(opaque))
            dl = [n for n, q in zip(nm, dm) if rx.search(q)]
            if dl:
                run(["llvm-extract-18", "--delete"] + ["--func=" + x for x in dl] + [cur, "-o", cur], "llvm-extract")
        run(["opt-18", "-passes=internalize,globaldce,default<O2>", "-internalize-public-api-list=" + ",".join(api),
             "-inline-threshold=" + inline, "-vectorize-loops=false", "-vectorize-slp=false", cur, "-o", tmp], "opt", timeout=300)
        os.unlink(cur)
    return cached(out, link)


def functions_in(bc):
    """names of the /repo functions whose code is in the bitcode (from its line tables)"""
    t = run(["llvm-dis-18", bc, "-o", "-"], "llvm-dis").stdout
    files = {m.group(1): m.group(2) for m in re.finditer(r'^(!\d+) = !DIFile\(filename: "([^"]*)"', t, re.M)}
    out = {}
    for m in re.finditer(r'^!\d+ = (?:distinct )?!DISubprogram\(name: "([^"]*)"(?:, linkageName: "([^"]*)")?.*?file: (!\d+), line: (\d+)', t, re.M):
        f = files.get(m.group(3), "")
        if f.startswith(REPO):
            out[(m.group(1), os.path.relpath(f, REPO), int(m.group(4)))] = 1
    return ["%s (%s:%d)" % k for k in sorted(out, key=lambda k: (k[1], k[2]))]
