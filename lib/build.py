"""Builds the analysed program representation from /repo's current working tree.

Nothing of drons/nbody is executed: sources are parsed by clang to LLVM bitcode, linked, normalised by
tool/nbx (inlining of repository helpers, SSA construction, simplification) and exported as JSON.
"""
import hashlib, json, os, shutil, subprocess, sys, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NBSA_REPO", "/repo")
CLANG = "/usr/bin/clang-18" if os.path.exists("/usr/bin/clang-18") else "clang"
CLANGXX = "/usr/bin/clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"
LINK = "/usr/bin/llvm-link-18" if os.path.exists("/usr/bin/llvm-link-18") else "llvm-link"
CONFIG = "/usr/bin/llvm-config-18" if os.path.exists("/usr/bin/llvm-config-18") else "llvm-config"
QT = "/usr/include/x86_64-linux-gnu/qt5"
WORK = os.path.join(VERIF, ".work")


class AnalysisError(Exception):
    """The analysis itself could not be carried out (neither pass nor violation)."""


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise AnalysisError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def tool():
    """Builds tool/nbx if it is missing or older than its source."""
    src = os.path.join(VERIF, "tool", "nbx.cpp")
    out = os.path.join(WORK, "nbx-" + _sha(open(src, "rb").read())[:16])
    if not os.path.exists(out):
        os.makedirs(WORK, exist_ok=True)
        flags = run([CONFIG, "--cppflags"]).split()
        libdir = run([CONFIG, "--libdir"]).strip()
        tmp = out + ".tmp%d" % os.getpid()
        run(["g++", "-O1", "-std=c++17", "-fno-rtti", "-fno-exceptions", "-w"] + flags +
            [src, "-o", tmp, "-L" + libdir, "-lLLVM-18", "-Wl,-rpath," + libdir])
        os.rename(tmp, out)
    return out


def _sha(b):
    return hashlib.sha256(b).hexdigest()


def lib_sources():
    d = os.path.join(REPO, "nbody")
    r = sorted(f for f in os.listdir(d) if f.endswith(".cpp") and "cuda" not in f)
    if len(r) < 10:
        raise AnalysisError("only %d library sources found in %s" % (len(r), d))
    return [os.path.join(d, f) for f in r]


def player_sources():
    d = os.path.join(REPO, "player")
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cpp")]


def tree_hash(extra=""):
    h = hashlib.sha256()
    for sub in ("nbody", "player"):
        for root, dirs, files in os.walk(os.path.join(REPO, sub)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                if os.path.isfile(p):
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    for f in ("tool/nbx.cpp", "lib/build.py", "tool/include/omp.h", "tool/include/clshim.h"):
        h.update(open(os.path.join(VERIF, f), "rb").read())
    h.update(extra.encode())
    return h.hexdigest()[:20]


BASE = ["-std=gnu++11", "-fgnuc-version=9.4.0", "-fPIC", "-w", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-fno-math-errno",
        "-ffp-contract=off", "-fno-discard-value-names", "-emit-llvm", "-c",
        "-DQT_DISABLE_DEPRECATED_BEFORE=0", "-DHAVE_OPENMP", "-DHAVE_OPENCL", "-DHAVE_OPENCL2",
        "-DNBODY_EXPORT_DLL", "-DQT_NO_DEBUG", "-DQT_GUI_LIB", "-DQT_CORE_LIB"]


def _flags(variant):
    f = list(BASE)
    if variant in ("seq", "player"):
        f += ["-flto", "-fwhole-program-vtables", "-Wno-unknown-pragmas"]
    if variant == "omp":
        f += ["-fopenmp", "-nogpulib"]
    f += ["-I" + os.path.join(REPO, "nbody")]
    if variant == "player":
        f += ["-I" + os.path.join(REPO, "player"), "-isystem", "/usr/include/opencv4", "-DQT_OPENGL_LIB", "-DQT_WIDGETS_LIB", "-DQT_CONCURRENT_LIB"]
    for q in ("", "QtGui", "QtCore") + (("QtOpenGL", "QtWidgets", "QtConcurrent") if variant == "player" else ()):
        f += ["-isystem", os.path.join(QT, q)]
    f += ["-idirafter", os.path.join(VERIF, "tool", "include")]
    return f


TUCACHE = os.environ.get("NBSA_TUCACHE")        # development only: reuse parsed translation units between scratch trees


def _compile(args):
    src, out, flags = args
    if TUCACHE:
        h = hashlib.sha256(repr([f.replace(REPO, "/repo") for f in flags]).encode() + os.path.basename(src).encode() + open(src, "rb").read())
        for sub in ("nbody", "player"):
            for f in sorted(os.listdir(os.path.join(REPO, sub))):
                if f.endswith((".h", ".ui")):
                    h.update(f.encode() + open(os.path.join(REPO, sub, f), "rb").read())
        c = os.path.join(TUCACHE, h.hexdigest()[:24] + ".bc")
        if not os.path.exists(c):
            t = c + ".%d" % os.getpid()
            p = subprocess.run([CLANGXX] + flags + ["-ffile-prefix-map=" + REPO + "/=/repo/", src, "-o", t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                return src, p.returncode, p.stdout
            os.rename(t, c)
        shutil.copy(c, out)
        return src, 0, ""
    p = subprocess.run([CLANGXX] + flags + [src, "-o", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return src, p.returncode, p.stdout


def module(variant="seq", only=None, nbx_args=()):
    """Returns the path of the exported JSON for the library ('seq': pragmas ignored, 'omp': with OpenMP
    outlining) or the player. `only` restricts to sources whose basename is listed."""
    srcs = player_sources() if variant == "player" else lib_sources()
    if only:
        srcs = [s for s in srcs if os.path.basename(s) in only]
    key = tree_hash(variant + repr(sorted(only) if only else None) + repr(nbx_args) + REPO)
    d = os.path.join(WORK, "cache", variant + "-" + key)
    out = os.path.join(d, "module.json")
    if os.path.exists(out):
        return out
    nbx = tool()
    tmp = d + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    try:
        flags = _flags(variant)
        jobs = [(s, os.path.join(tmp, os.path.basename(s)[:-4] + ".bc"), flags) for s in srcs]
        with cf.ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 4)) as ex:
            for src, rc, txt in ex.map(_compile, jobs):
                if rc != 0:
                    raise AnalysisError("clang cannot parse %s\n%s" % (src, txt[-3000:]))
        run([LINK] + [j[1] for j in jobs] + ["-o", os.path.join(tmp, "all.bc")])
        run([nbx, os.path.join(tmp, "all.bc"), "-o", os.path.join(tmp, "module.json"), "--root=" + ("/repo" if TUCACHE else REPO) + "/"] + list(nbx_args))
        for f in os.listdir(tmp):
            if f.endswith(".bc"):
                os.remove(os.path.join(tmp, f))
        try:
            os.rename(tmp, d)
        except OSError:
            if not os.path.exists(out):
                raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    _prune()
    return out


# as the default of nbx, with vectors taken apart
PB = ("always-inline,function(sroa<modify-cfg>,early-cse<memssa>,scalarizer,simplifycfg,sccp,instcombine,jump-threading,correlated-propagation,simplifycfg,"
      "early-cse<memssa>,gvn<no-pre;no-load-pre>,scalarizer,instcombine,sroa<modify-cfg>,sccp,jump-threading,correlated-propagation,simplifycfg,gvn<no-pre;no-load-pre>,instcombine,simplifycfg,"
      "loop-simplify,lcssa,loop-mssa(licm),gvn<no-pre;no-load-pre>,instcombine,simplifycfg,adce,loop-simplify,lcssa)")
KERNELS = ("nbody_space_heap_func_priv.h", "nbody_engine_opencl.cl")


def kernels(std="CL1.2"):
    """exported JSON for the OpenCL kernels, put together as the engine does (double precision, block of 64)"""
    key = tree_hash("cl" + std + REPO)
    d = os.path.join(WORK, "cache", "cl-" + key)
    out = os.path.join(d, "module.json")
    if os.path.exists(out):
        return out
    nbx = tool()
    tmp = d + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    try:
        with open(os.path.join(tmp, "all.cl"), "w") as o:
            root = "/repo" if TUCACHE else REPO
            o.write('#line 1 "%s/clshim"\n' % root)        # so that they are inlined like the repository's own functions
            o.write(open(os.path.join(VERIF, "tool", "include", "clshim.h")).read() + "\n")
            for k in KERNELS:
                o.write('#line 1 "%s/nbody/%s"\n' % (root, k))
                o.write(open(os.path.join(REPO, "nbody", k)).read() + "\n")
        p = subprocess.run([CLANG, "-x", "cl", "-cl-std=" + std, "-D__OPENCL_VERSION__=" + std[2] + std[4] + "0", "-cl-no-stdinc", "-fno-builtin", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-w", "-ffp-contract=off",
                            "-fno-math-errno", "-fno-discard-value-names", "-emit-llvm", "-c", "-target", "x86_64-unknown-linux-gnu", "-DNBODY_DATA_BLOCK_SIZE=64", "-DNBODY_MIN_R=1e-08",
                            "-DNBODY_HEAP_ROOT_INDEX=1", "-DNB_CALL_TYPE=", "-Dindex_t=int", "-Dnbcoord_t=double", "-Dnbcoord3_t=double3",
                            os.path.join(tmp, "all.cl"), "-o", os.path.join(tmp, "all.bc")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise AnalysisError("clang cannot parse the kernels\n%s" % p.stdout[-3000:])
        run([nbx, os.path.join(tmp, "all.bc"), "-o", os.path.join(tmp, "module.json"), "--root=" + root + "/", "--pb=" + PB])
        os.remove(os.path.join(tmp, "all.bc"))
        try:
            os.rename(tmp, d)
        except OSError:
            if not os.path.exists(out):
                raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    _prune()
    return out


def _prune(keep=12):
    c = os.path.join(WORK, "cache")
    ent = sorted((os.path.join(c, e) for e in os.listdir(c) if ".tmp" not in e), key=lambda p: os.stat(p).st_mtime)
    for e in ent[:-keep]:
        shutil.rmtree(e, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1:] == ["setup"]:
        tool()
        print("ok")
    else:
        print(module(*sys.argv[1:2], nbx_args=tuple(sys.argv[2:])))
