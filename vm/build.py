"""Builds the code under test from /repo's current working tree, outside /repo.

build(mode, targets) -> build directory.   mode: plain | asan
package(mode) -> directory to put on PYTHONPATH (copy of /repo/pymbs with the fresh extension module)
Builds are cached under /verif/.build by the hash of everything that goes into them, so a repeated
run on an unchanged tree is cheap; nothing depends on the cache being there.
"""
import fcntl, hashlib, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".build")
PY = "/opt/pymbs-venv/bin/python"
FLAGS = {
    "plain": "-w -O1 -g1 -DNDEBUG",
    "asan": "-w -O1 -g1 -DNDEBUG -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr,alignment "
            "-fno-sanitize-recover=undefined",
    "dbg": "-w -O0 -g1 -DNDEBUG",     # for valgrind memcheck
}

class BuildError(Exception):
    pass

def _files(root, exts=None):
    out = []
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "_build", ".git"))
        for f in sorted(files):
            if f.endswith((".so", ".pyc")):
                continue
            if exts is None or f.endswith(exts):
                out.append(os.path.join(d, f))
    return out

def _hash(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode()); h.update(b"\0")
        try:
            with open(p, "rb") as f: h.update(f.read())
        except OSError:
            h.update(b"?")
        h.update(b"\1")
    return h.hexdigest()[:20]

def env():
    e = dict(os.environ)
    e["PATH"] = "/opt/pymbs-venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["CC"], e["CXX"] = "/usr/bin/gcc", "/usr/bin/g++"
    e["LANG"] = e["LC_ALL"] = "C.UTF-8"
    return e

def _prune(keep):
    try:
        ds = [os.path.join(CACHE, d) for d in os.listdir(CACHE) if os.path.isdir(os.path.join(CACHE, d))]
    except OSError:
        return
    ds = [d for d in ds if os.path.basename(d).split("-")[0] in ("pkg",) + tuple(FLAGS)]
    ds.sort(key=lambda d: os.path.getmtime(d))
    for d in ds[:-14]:
        if d != keep: shutil.rmtree(d, ignore_errors=True)

def build(mode="plain", targets=("SympyWrapper",)):
    srcs = _files(os.path.join(REPO, "symbolics"), (".cpp", ".h", ".txt", ".def", ".c", ".in"))
    mine = _files(os.path.join(VERIF, "vm", "cmake"))
    key = mode + "-" + _hash(srcs + mine, FLAGS[mode])
    os.makedirs(CACHE, exist_ok=True)
    bdir = os.path.join(CACHE, key)
    with open(os.path.join(CACHE, key + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        log = os.path.join(CACHE, key + ".log")
        def run(cmd):
            with open(log, "ab") as f:
                r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=env())
            if r.returncode:
                sys.stderr.write(open(log, errors="replace").read()[-6000:])
                raise BuildError("build failed: " + " ".join(cmd))
        if not os.path.exists(os.path.join(bdir, "build.ninja")):
            run(["cmake", "-S", os.path.join(VERIF, "vm", "cmake"), "-B", bdir, "-G", "Ninja",
                 "-DREPO=" + REPO, "-DVCPP=" + os.path.join(VERIF, "vm", "cpp"), "-DCMAKE_BUILD_TYPE=None",
                 "-DRUN_TESTS=OFF", "-DCMAKE_CXX_FLAGS=" + FLAGS[mode], "-DPython_EXECUTABLE=" + PY])
        run(["ninja", "-C", bdir] + list(targets))
        os.utime(bdir)
        _prune(bdir)
    return bdir

def package(mode="plain"):
    """Directory holding the package pymbs as in /repo now, with a freshly built symbolics.so."""
    bdir = build(mode, ("SympyWrapper",))
    so = None
    for d, _, fs in os.walk(os.path.join(bdir, "symbolics", "wrapper")):
        for f in fs:
            if f == "symbolics.so": so = os.path.join(d, f)
    if so is None: raise BuildError("extension module not found")
    pys = _files(os.path.join(REPO, "pymbs"))
    key = "pkg-" + mode + "-" + _hash(pys + [so], "3")
    pdir = os.path.join(CACHE, key)
    with open(os.path.join(CACHE, key + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(pdir, "ok")):
            shutil.rmtree(pdir, ignore_errors=True)
            shutil.copytree(os.path.join(REPO, "pymbs"), os.path.join(pdir, "pymbs"),
                            ignore=shutil.ignore_patterns("__pycache__", "*.so", "*.pyc"))
            shutil.copy2(so, os.path.join(pdir, "pymbs", "symbolics", "symbolics.so"))
            open(os.path.join(pdir, "ok"), "w").close()
        os.utime(pdir)
    return pdir

def pyenv(pdir, mode="plain"):
    e = env()
    e.update(PYTHONPATH=pdir + ":" + VERIF, PYTHONDONTWRITEBYTECODE="1", QT_QPA_PLATFORM="offscreen", MPLBACKEND="agg",
             PYTHONHASHSEED=e.get("PYTHONHASHSEED", "0"), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
             MPLCONFIGDIR=os.path.join(CACHE, "mpl"))
    os.makedirs(e["MPLCONFIGDIR"], exist_ok=True)
    if mode == "asan":
        lib = subprocess.check_output(["gcc", "-print-file-name=libasan.so"], text=True).strip()
        ub = subprocess.check_output(["gcc", "-print-file-name=libubsan.so"], text=True).strip()
        e.update(LD_PRELOAD=os.path.realpath(lib) + " " + os.path.realpath(ub),
                 ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0",
                 UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=98", PYTHONMALLOC="malloc")
    return e

if __name__ == "__main__":
    import time
    t = time.time()
    m = sys.argv[1] if len(sys.argv) > 1 else "plain"
    print(package(m) if len(sys.argv) < 3 else build(m, sys.argv[2:]), round(time.time() - t, 1), "s")
