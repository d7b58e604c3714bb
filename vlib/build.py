"""Builds, from /repo's current working tree, everything the checks run on:
 - the native toolchain (runtime + extra primitives, standard library, compiler, linker) in a scratch copy,
 - LLVM bitcode of the real runtime sources, linked with the C library model,
 - the symbolic executor itself.
Results are cached under /verif/.build by content hash of the inputs."""
import hashlib, os, shutil, subprocess, sys, fcntl, time, glob, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENG = f"{VERIF}/engine"
ROOT = os.environ.get("VERIF_BUILD", f"{VERIF}/.build")
Z3D = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
ENV = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "HOME": "/root", "LC_ALL": "C", "TZ": "UTC"}
CLANG = ["clang", "-O1", "-emit-llvm", "-c", "-std=gnu89", "-w", "-fwrapv", "-fno-strict-aliasing", "-fno-vectorize",
         "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-builtin", "-fno-stack-protector", "-ffp-contract=off",
         "-fno-inline-functions", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-D__NO_CTYPE", "-fno-delete-null-pointer-checks",
         "-fno-jump-tables"]

def run(cmd, cwd=None, env=None, timeout=600, check=True, inp=None):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                       stdin=subprocess.DEVNULL if inp is None else None, input=inp)
    if check and p.returncode:
        raise RuntimeError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout.decode("latin1")[-4000:]))
    return p

def files():
    try:
        names = subprocess.run(["git", "-C", REPO, "-c", f"safe.directory={REPO}", "ls-files", "-z", "-co", "--exclude-standard", "src"],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, check=True).stdout.decode("utf-8", "surrogateescape").split("\0")
        names = sorted(set(filter(None, names)))
    except Exception:
        names = []
    if len(names) < 50:
        names = []
        for d, ds, fs in os.walk(f"{REPO}/src"):
            for f in fs:
                names.append(os.path.relpath(os.path.join(d, f), REPO))
        names.sort()
    return [n for n in names if os.path.lexists(f"{REPO}/{n}")]

def fhash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        h.update((os.readlink(p).encode() if os.path.islink(p) else open(p, "rb").read()) + b"\0")
    return h.hexdigest()[:20]

class Lock:
    def __init__(self, path): self.path = path
    def __enter__(self):
        os.makedirs(os.path.dirname(self.path), exist_ok=True)
        self.f = open(self.path, "w"); fcntl.flock(self.f, fcntl.LOCK_EX); return self
    def __exit__(self, *a): self.f.close()

def engine():
    src = [f"{ENG}/symex.cpp", f"{ENG}/expr.h"]
    key = fhash(src); out = f"{ROOT}/symex-{key}"
    with Lock(f"{ROOT}/lock-engine"):
        if not os.path.exists(out):
            for o in glob.glob(f"{ROOT}/symex-*"): os.unlink(o)
            run(["g++", "-O2", "-std=c++17", "-w", "-I/usr/lib/llvm-18/include", f"-I{Z3D}/include", src[0], "-o", out + ".tmp",
                 f"-L{Z3D}/lib", "-lz3", f"-Wl,-rpath,{Z3D}/lib", "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-Wl,-rpath,/usr/lib/llvm-18/lib"])
            os.rename(out + ".tmp", out)
    return out

WRAP = "gcc -Wl,--wrap=read,--wrap=write,--wrap=gettimeofday,--wrap=time"
RTSKIP = {"graph.c", "msdos.c", "debugger.c", "reverse.c"}

def tree():
    """Returns the directory of the build tree for the current sources."""
    fs = files()
    key = fhash([f"{REPO}/{n}" for n in fs] + [f"{ENG}/stubs.c", f"{ENG}/symprims.c", f"{ENG}/sml/Sym.sml", f"{ENG}/sml/Sym.sig", __file__])
    B = f"{ROOT}/tree-{key}"
    with Lock(f"{ROOT}/lock-tree"):
        if os.path.exists(f"{B}/ok"):
            os.utime(B)
            return B
        olds = sorted(glob.glob(f"{ROOT}/tree-*"), key=os.path.getmtime)
        for o in olds[:-1]: shutil.rmtree(o, ignore_errors=True)
        shutil.rmtree(B, ignore_errors=True)
        os.makedirs(B)
        t = time.time() - 100
        for n in fs:
            d = f"{B}/{n}"; os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copy(f"{REPO}/{n}", d, follow_symlinks=False)
            if not os.path.islink(d): os.utime(d, (t, t))
        S = f"{B}/src"
        shutil.copy(f"{ENG}/symprims.c", f"{S}/runtime/symprims.c")
        j = ["make", "-j8"]
        V = ["CC=gcc", f"PREFIX={B}/inst"]
        P = ["ADDPRIMS=dynlib.c symprims.c", "ADDOBJS=dynlib.o symprims.o"]
        run(["make", "-C", f"{S}/config", "all"] + V)
        run(["make", "-C", f"{S}/runtime", "jumptbl.h", "opnames.h", "prims.c"] + P + V)
        with cf.ThreadPoolExecutor(16) as ex:
            bcs = runtime_bc(B, ex)
            run(["make", "-C", f"{S}/runtime", "minor_gc.o", "CC=gcc -Dminor_collection=real_minor_collection"] + P)
            run(["make", "-C", f"{S}/runtime", "misc.o", "CC=gcc -Dmalloc=se_malloc"] + P)
            run(["make", "-C", f"{S}/runtime", "symprims.o", "CC=gcc -DREALMINOR"] + P)
            run(j + ["-C", f"{S}/runtime", "all", f"LD={WRAP}"] + P + V)
            shutil.copy(f"{S}/runtime/camlrunm", f"{S}/camlrunm")
            run(j + ["-C", f"{S}/mosmlyac", "all"] + V)
            run(j + ["-C", f"{S}/mosmllib", "all"] + V)
            run(j + ["-C", f"{S}/compiler", "all"] + V)
            for f in bcs: f.result()
        link_bc(B)
        os.makedirs(f"{B}/lib")
        for f in glob.glob(f"{S}/mosmllib/*.u[io]") : shutil.copy(f, f"{B}/lib")
        for f in ("Sym.sig", "Sym.sml"): shutil.copy(f"{ENG}/sml/{f}", f"{B}/lib")
        for f in ("Sym.sig", "Sym.sml"): mosmlcmp(B, f"{B}/lib", f, [])
        open(f"{B}/ok", "w").close()
    return B

def runtime_bc(B, ex):
    S = f"{B}/src/runtime"; D = f"{B}/bc"; os.makedirs(D, exist_ok=True); fut = []
    base = ["-Dunix", "-DTHREADED", "-DSYMEX", f"-I{S}"]
    for c in sorted(glob.glob(f"{S}/*.c")):
        n = os.path.basename(c)
        if n in RTSKIP: continue
        extra = {"minor_gc.c": ["-Dminor_collection=real_minor_collection"], "symprims.c": ["-DREALMINOR"], "misc.c": ["-Dmalloc=se_malloc"]}.get(n, [])
        fut.append(ex.submit(run, CLANG + base + extra + [c, "-o", f"{D}/{n[:-2]}.bc"], S))
    fut.append(ex.submit(run, CLANG + [f"{ENG}/stubs.c", "-o", f"{D}/stubs.bc"]))
    return fut

def link_bc(B):
    D = f"{B}/bc"
    run(["llvm-link-18", "-o", f"{D}/rt.bc.tmp"] + sorted(f for f in glob.glob(f"{D}/*.bc") if not f.endswith("rt.bc")))
    os.rename(f"{D}/rt.bc.tmp", f"{D}/rt.bc")

def camlrunm(B): return f"{B}/src/runtime/camlrunm"

def mosmlcmp(B, d, f, ctx, opts=("-conservative",), mode="-structure"):
    L = f"{B}/lib"
    return run([camlrunm(B), f"{B}/src/compiler/mosmlcmp", "-stdlib", L, *opts, mode, *ctx, f], cwd=d)

def mosmllnk(B, d, out, objs):
    return run([camlrunm(B), f"{B}/src/compiler/mosmllnk", "-stdlib", f"{B}/lib", "-noheader", "-exec", out, *objs], cwd=d)
