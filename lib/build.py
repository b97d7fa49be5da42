"""Builds, from /repo's working tree, (1) the Nature compiler, (2) the instrumented runtime linked
against the simulator, (3) workload binaries.  Content-addressed caching under /verif/.cache."""
import concurrent.futures as cf
import glob
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
SIM = os.path.join(VERIF, "sim")
_hc = {}
_lock = threading.Lock()


class BuildError(Exception):
    pass


def fhash(p):
    h = _hc.get(p)
    if h is None:
        try:
            with open(p, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hc[p] = h
    return h


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
    return r.stdout


def put(src, dst):
    tmp = dst + ".tmp%d.%d" % (os.getpid(), threading.get_ident())
    shutil.copyfile(src, tmp)
    shutil.copymode(src, tmp)
    os.rename(tmp, dst)


def compile_one(cc, flags, src):
    """Compile src, cached on the contents of the source and every header it includes. Returns (objpath, key)."""
    k0 = hashlib.sha256(("\0".join([cc] + flags + [src]) + fhash(src)).encode()).hexdigest()
    man = os.path.join(CACHE, "man", k0)
    if os.path.exists(man):
        with open(man) as f:
            lines = f.read().split("\n")
        for variant in "\n".join(lines).split("\n--\n"):
            deps = [l.split("\t") for l in variant.split("\n") if "\t" in l]
            if deps and all(fhash(p) == h for h, p in deps):
                key = hashlib.sha256((k0 + variant).encode()).hexdigest()
                obj = os.path.join(CACHE, "obj", key + ".o")
                if os.path.exists(obj):
                    return obj, key
    d = tempfile.mkdtemp(dir=os.path.join(CACHE, "tmp"))
    try:
        o, dep = os.path.join(d, "o.o"), os.path.join(d, "o.d")
        sh([cc] + flags + ["-MD", "-MF", dep, "-c", src, "-o", o])
        toks = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split()
        variant = "\n".join("%s\t%s" % (fhash(p), p) for p in sorted(set(toks)))
        key = hashlib.sha256((k0 + variant).encode()).hexdigest()
        obj = os.path.join(CACHE, "obj", key + ".o")
        put(o, obj)
        with _lock:
            old = open(man).read() if os.path.exists(man) else ""
            parts = [v for v in old.split("\n--\n") if v and v != variant][-6:]
            with open(man + ".t", "w") as f:
                f.write("\n--\n".join(parts + [variant]))
            os.rename(man + ".t", man)
        return obj, key
    finally:
        shutil.rmtree(d, ignore_errors=True)


def compile_many(jobs):
    for s in ("man", "obj", "tmp", "out", "work"):
        os.makedirs(os.path.join(CACHE, s), exist_ok=True)
    with cf.ThreadPoolExecutor(max(2, os.cpu_count() or 4)) as ex:
        return list(ex.map(lambda j: compile_one(*j), jobs))


INC = ["-I" + os.path.join(REPO, p) for p in ("runtime/mbedtls/include", "include", "")]
RTDEF = ["-DLLHTTP_STATIC_LIB", "-DRUNTIME", "-DTEST_MODE", "-D_GNU_SOURCE", "-D__AMD64=1", "-D__LINUX=1", "-DNATURE_SIM"]
# Debug flags of runtime/CMakeLists.txt (asserts on); -g0 keeps the cache small
RTFLAGS = ["-static", "-g0", "-O2", "-fno-omit-frame-pointer", "-std=gnu11", "-w", "-fno-pie", "-ffile-prefix-map=" + REPO + "=."]
TSAN = ["-fsanitize=thread", "--param=tsan-instrument-func-entry-exit=0", "--param=tsan-distinguish-volatile=0"]


def runtime_sources():
    rt = os.path.join(REPO, "runtime")
    src = sorted(glob.glob(rt + "/**/*.c", recursive=True)) + [rt + "/aco/acosw.S"] + sorted(glob.glob(REPO + "/utils/*.c"))
    return [s for s in src if os.path.exists(s)]


def build_root():
    """NATURE_ROOT with the simulated runtime. Returns its path."""
    jobs = []
    for s in runtime_sources():
        plain = "/mbedtls/" in s or "/llhttp/" in s or s.endswith(".S") or (s.startswith(REPO + "/utils/") and os.path.basename(s) in ("toml.c", "picohttpparser.c"))
        jobs.append(("musl-gcc", RTFLAGS + ([] if plain else TSAN) + RTDEF + INC, s))
    nrt = len(jobs)
    for s in sorted(glob.glob(SIM + "/*.c")):
        jobs.append(("musl-gcc", ["-static", "-g0", "-O2", "-fno-pie", "-w", "-std=gnu11", "-D_GNU_SOURCE", "-fno-stack-protector", "-I" + SIM] + INC + ["-D__LINUX=1", "-D__AMD64=1"], s))
    res = compile_many(jobs)
    redir = open(os.path.join(SIM, "redir.txt")).read().split()
    libdir = os.path.join(REPO, "lib/linux_amd64")
    key = hashlib.sha256(("|".join(k for _, k in res) + " ".join(redir) + "".join(fhash(p) for p in sorted(glob.glob(libdir + "/*.[ao]")) if not p.endswith("libruntime.a")) + REPO + "v3").encode()).hexdigest()[:24]
    root = os.path.join(CACHE, "out", "root-" + key)
    if not os.path.exists(root + "/.ok"):
        tmp = tempfile.mkdtemp(dir=os.path.join(CACHE, "tmp"))
        try:
            lib = os.path.join(tmp, "lib/linux_amd64")
            os.makedirs(lib)
            os.symlink(os.path.join(REPO, "std"), os.path.join(tmp, "std"))
            for p in glob.glob(libdir + "/*"):
                b = os.path.basename(p)
                if b not in ("libruntime.a", "libuv.a"):
                    os.symlink(p, os.path.join(lib, b))
            objs = []
            od = os.path.join(tmp, "objs")
            os.mkdir(od)
            for i, ((o, _), j) in enumerate(zip(res, jobs)):
                n = os.path.join(od, "%03d_%s.o" % (i, os.path.basename(j[2]).rsplit(".", 1)[0]))
                shutil.copyfile(o, n)
                objs.append(n)
            rt = os.path.join(od, "rt.a")
            sh(["ar", "rcs", rt] + objs[:nrt])
            with open(os.path.join(od, "rt.syms"), "w") as f:
                f.write("".join("%s sim_%s\n" % (s, s) for s in redir) + "main sim_app_main\n")
            with open(os.path.join(od, "uv.syms"), "w") as f:
                f.write("".join("%s sim_%s\n" % (s, s) for s in redir if not s.startswith("uv_")))
            sh(["objcopy", "--redefine-syms=" + os.path.join(od, "rt.syms"), rt, rt + "2"])
            sh(["objcopy", "--redefine-syms=" + os.path.join(od, "uv.syms"), os.path.join(libdir, "libuv.a"), os.path.join(lib, "libuv.a")])
            shutil.move(rt + "2", os.path.join(lib, "libruntime.a"))
            sh(["ar", "rcs", os.path.join(lib, "libruntime.a")] + objs[nrt:])
            shutil.rmtree(od)
            open(os.path.join(tmp, ".ok"), "w").close()
            os.chmod(tmp, 0o755)
            try:
                os.rename(tmp, root)
            except OSError:
                if not os.path.exists(root + "/.ok"):
                    raise
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    os.utime(root)
    return root


def _compiler_objects():
    src = [REPO + "/main.c"] + sorted(glob.glob(REPO + "/src/**/*.c", recursive=True)) + sorted(glob.glob(REPO + "/cmd/*.c"))
    for d in ("utils", "utils/yaml", "utils/llhttp"):
        src += sorted(glob.glob(REPO + "/" + d + "/*.c"))
    cfgdir = os.path.join(CACHE, "out", "ccfg")
    os.makedirs(cfgdir + "/config", exist_ok=True)
    t = open(REPO + "/config/config.h.in").read()
    ver = open(REPO + "/VERSION").read().strip()
    for k, v in {"PROJECT_VERSION": ver, "BUILD_TIME": "2000-01-01", "BUILD_TYPE": "release"}.items():
        t = t.replace("@%s@" % k, v).replace("${%s}" % k, v)
    dst = cfgdir + "/config/config.h"
    if not os.path.exists(dst) or open(dst).read() != t:
        with open(dst + ".%d" % os.getpid(), "w") as f:
            f.write(t)
        os.rename(dst + ".%d" % os.getpid(), dst)
        _hc.pop(dst, None)
    fl = ["-O2", "-std=gnu11", "-w", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-D_GNU_SOURCE", "-D__AMD64=1", "-D__LINUX=1", "-I" + cfgdir, "-I" + REPO + "/include", "-I" + REPO]
    return compile_many([("gcc", fl, s) for s in src])


def build_compiler():
    res = _compiler_objects()
    key = hashlib.sha256("|".join(k for _, k in res).encode()).hexdigest()[:24]
    out = os.path.join(CACHE, "out", "nature-" + key)
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        sh(["gcc", "-o", tmp] + [o for o, _ in res] + ["-lm"])
        os.rename(tmp, out)
    os.utime(out)
    return out


def build_simc():
    """The compiler over the simulated disk (simc/disk.c)."""
    wrap = open(os.path.join(VERIF, "simc/wrap.txt")).read().split()
    res = _compiler_objects() + compile_many([("gcc", ["-O2", "-std=gnu11", "-w", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0"], os.path.join(VERIF, "simc/disk.c"))])
    key = hashlib.sha256(("|".join(k for _, k in res) + " ".join(wrap)).encode()).hexdigest()[:24]
    out = os.path.join(CACHE, "out", "simc-" + key)
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        sh(["gcc", "-o", tmp] + ["-Wl,--wrap=" + w for w in wrap] + [o for o, _ in res] + ["-lm"])
        os.rename(tmp, out)
    os.utime(out)
    return out


def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for base, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(base, f)
                h.update(p.encode() + b"\0" + fhash(p).encode())
    return h.hexdigest()


def build_workload(name, nature=None, root=None, srcs=None):
    """Compile /verif/work/<name>.n (and sim.n next to it) to an executable under the simulator."""
    if name == "compiler":
        return build_simc()
    nature = nature or build_compiler()
    root = root or build_root()
    wd = os.path.join(VERIF, "work")
    files = srcs or [os.path.join(wd, name + ".n"), os.path.join(wd, "sim.n")]
    key = hashlib.sha256((nature + root + name + tree_hash(REPO + "/std") + "".join(fhash(f) for f in files) + "v2").encode()).hexdigest()[:24]
    out = os.path.join(CACHE, "work", "%s-%s" % (name, key))
    if not os.path.exists(out):
        # the directory's name ends up in the executable: one name per input, so that the same input gives the same executable
        tmp = os.path.join(CACHE, "tmp", "w-" + key)
        lock = open(tmp + ".lock", "w")
        fcntl.flock(lock, fcntl.LOCK_EX)
        try:
            shutil.rmtree(tmp, ignore_errors=True)
            os.mkdir(tmp)
            for f in files:
                shutil.copyfile(f, os.path.join(tmp, os.path.basename(f)))
            with open(tmp + "/package.toml", "w") as f:
                f.write('name = "wl"\nversion = "1.0.0"\nauthors = ["x"]\ndescription = "x"\nlicense = "MIT"\ntype = "bin"\n')
            env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "NATURE_ROOT": root, "HOME": tmp, "TMPDIR": tmp}
            sh([nature, "build", "-o", "a.out", name + ".n"], cwd=tmp, env=env)
            os.chmod(tmp + "/a.out", 0o755)
            put(tmp + "/a.out", out)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
            lock.close()
    os.utime(out)
    return out


def prune(keep=400 << 20):
    """Bound the size of derived outputs: drop the oldest roots/workloads/objects beyond a budget."""
    for sub, lim in (("out", 24), ("work", 200)):
        d = os.path.join(CACHE, sub)
        try:
            es = sorted((e for e in os.scandir(d) if e.name != "ccfg"), key=lambda e: -e.stat().st_mtime)
        except OSError:
            continue
        import time
        for e in es[lim:]:
            if time.time() - e.stat().st_mtime > 3600:
                shutil.rmtree(e.path, ignore_errors=True) if e.is_dir() else os.unlink(e.path)


if __name__ == "__main__":
    import time
    t = time.time()
    r = build_root()
    print(r, time.time() - t)
    c = build_compiler()
    print(c, time.time() - t)
    for w in sys.argv[1:]:
        print(build_workload(w, c, r), time.time() - t)
