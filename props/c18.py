"""C18 a build that reports success has written the whole program; a failing disk makes it fail cleanly."""
import functools
import hashlib
import os
import shutil

from lib import build
from lib.driver import Prop, Scenario, V, events
from lib.simrun import Runner

JOBS = {  # name: (program, entry, output, arguments)
    "one": ("one", "main.n", "prog", ["-o", "prog"]),
    "pkg": ("pkg", "pkg.n", "prog", ["-o", "prog"]),
    "win": ("pkg", "pkg.n", "libmain.a", ["--target", "windows_amd64", "--archive"]),
    "arm": ("pkg", "pkg.n", "libmain.a", ["--target", "linux_arm64", "--archive"]),
    "riscv": ("one", "main.n", "libmain.a", ["--target", "linux_riscv64", "--archive"]),
    "mac": ("one", "main.n", "libmain.a", ["--target", "darwin_arm64", "--archive"]),
    "amd": ("pkg", "pkg.n", "libmain.a", ["--archive"]),
}
NAMES = sorted(JOBS)
# a call that fails; the others only change how much is transferred, in which order, when, and what memory held before
ERR = ("fs_open_err", "fs_read_err", "fs_write_err", "fs_enospc", "fs_close_err", "fs_fsync_err", "fs_rename_err", "fs_opendir_err", "fs_readdir_err", "fs_unlink_err", "fs_mkdir_err", "crash", "power_loss", "tool_fail")
ERRSEL = tuple(x for x in ERR if x not in ("fs_unlink_err",))


def setup(d, job, ref):
    prog, entry, out, args = JOBS[job]
    shutil.copytree(os.path.join(build.VERIF, "work/c18", prog), d + "/w")
    with open(d + "/job", "w") as f:
        f.write("root %s\nref %s\nout %s\n" % (_root(), ref, out))
        for a in ["nature", "build"] + args + [entry]:
            f.write("arg %s\n" % a)


@functools.lru_cache(None)
def _root():
    return build.build_root()


@functools.lru_cache(None)
def _key():
    src = os.path.join(build.VERIF, "work/c18")
    return hashlib.sha256((build.build_simc() + _root() + build.tree_hash(build.REPO + "/std") + build.tree_hash(src)).encode()).hexdigest()[:24]


@functools.lru_cache(None)
def reference(job):
    """The output of the same command on a disk without faults, built once per tree."""
    p = os.path.join(build.CACHE, "work", "c18-%s-%s" % (job, _key()))
    if not os.path.exists(p):
        run = Runner()
        try:
            res = run.run(build.build_simc(), {"makeref": 1, "seed": 1}, timeout=200, prepare=lambda d, c: setup(d, job, "/nonexistent"))
            e = events(res, 1)
            if not e or e[0][3] != 0:
                raise V("reference", "building %s on a working disk failed: %s %s" % (job, e, res.out[-1500:]))
            build.put(os.path.join(run.dir, "w", JOBS[job][2]), p)
        finally:
            run.close()
    return p


def prepare(d, cfg):
    job = NAMES[cfg["job"]]
    try:
        ref = reference(job)
    except V:
        ref = "/nonexistent"
    setup(d, job, ref)


def sched(rng):
    return {"heap_shift": rng.choice([0, 0, 16, 4096, 123456, 5000000]), "mem_junk": rng.choice([0, 0, 1, 85, 255]), "clock0": rng.choice([0, 1, 1000000000, 4000000000])}


def quiet(names):
    def f(rng):
        c = {"job": NAMES.index(rng.choice(names)), "old": rng.choice([0, 1])}
        for k in ("fs_short_read", "fs_short_write", "dir_order"):
            if rng.random() < 0.7:
                c[k] = rng.choice([20000, 200000, 700000])
        return c
    return f


def faulty(names):
    def f(rng):
        c = quiet(names)(rng)
        rate = {"fs_open_err": 8000, "fs_read_err": 4000, "fs_write_err": 15000, "fs_enospc": 15000, "fs_close_err": 20000, "fs_fsync_err": 300000, "fs_rename_err": 300000, "fs_opendir_err": 50000, "fs_readdir_err": 50000, "fs_unlink_err": 20000, "fs_mkdir_err": 300000, "crash": 1500, "power_loss": 1500, "tool_fail": 500000}
        for k in rng.sample(ERR, rng.choice([1, 1, 2, 3])):
            c[k] = min(900000, rate[k] * rng.choice([1, 3, 10]))
        return c
    return f


def handover(names):
    """One failure, where the data of a file is finally handed over."""
    def f(rng):
        c = quiet(names)(rng)
        c["once"] = 1
        c["aim"] = rng.choice([1, 2, 3, 3, 3, 4])
        c[rng.choice(["fs_write_err", "fs_enospc", "fs_close_err", "fs_read_err"])] = rng.choice([200000, 500000]) if c["aim"] & 2 else rng.choice([10000, 100000])
        return c
    return f


WHAT = {0: "absent", 1: "the previous file", 2: "complete", 3: "something else"}


def oracle(res, cfg):
    job = NAMES[cfg["job"]]
    exe = JOBS[job][2] == "prog"
    failed = any(res.faults.get(x) for x in ERR)
    if events(res, 9):
        raise V("hang", "%s: the build never ends" % job)
    for t, tid, k, st, s, det in events(res):
        if k == 1:
            if st == 0 and s != 2:
                raise V("success-without-program", "%s: the build reported success but the output is %s (%d)" % (job, WHAT[s], det))
            if st in (1000 + 11, 1000 + 7, 1000 + 4, 1000 + 8):
                raise V("crash", "%s: the build crashed with signal %d | %s" % (job, st - 1000, res.out[-300:]))
            if st in (1000 + 24, 1000 + 9) and not res.faults.get("crash") and not res.faults.get("power_loss"):
                raise V("hang", "%s: the build never ends (signal %d)" % (job, st - 1000))
            if st and not failed:
                raise V("failed-without-cause", "%s: the build failed (%d) though nothing failed on the disk | %s" % (job, st, res.out[-600:]))
            if st and exe and s not in ((1, 2) if cfg["old"] else (0, 2)):
                raise V("previous-output-lost", "%s: the failed build left %s where %s was (%d)" % (job, WHAT[s], "the previous program" if cfg["old"] else "nothing", det))
        if k == 2 and (st != 0 or s != 2):
            raise V("no-recovery", "%s: after the failed build the same command ended with %d and the output is %s (%d) | %s" % (job, st, WHAT[s], det, res.out[-600:]))
        if k == 3 and not res.faults.get("fs_unlink_err") and not res.faults.get("fs_opendir_err") and not res.faults.get("fs_readdir_err") and (st or s):
            raise V("leftovers", "%s: the successful build left %d temporary entries and %d more files" % (job, st, s))


REAL = ["the compiler, assembler, object writers and linker, compiled from /repo", "standard library sources"]
STUBS = ["disk: every open, read, write, close, sync, rename, remove and directory listing of the compiler goes through a layer that injects faults over scratch files", "clock, working directory, temporary names, directory order, initial contents of memory", "ar (archive tool): the real one, on the scratch files, or a failure in its place"]

PROP = Prop("C18", [
    Scenario("quiet-exe", "compiler", quiet(["one", "pkg"]), oracle, 1, sched=sched, prepare=prepare, timeout=200),
    Scenario("faulty-exe", "compiler", faulty(["one", "pkg"]), oracle, 3, nontrivial=lambda r, c: any(r.faults.get(x) for x in ERR), sched=sched, prepare=prepare, timeout=200),
    Scenario("quiet-archive", "compiler", quiet(["win", "arm", "riscv", "mac", "amd"]), oracle, 1, sched=sched, prepare=prepare, timeout=200),
    Scenario("faulty-archive", "compiler", faulty(["win", "arm", "riscv", "mac", "amd"]), oracle, 3, nontrivial=lambda r, c: any(r.faults.get(x) for x in ERR), sched=sched, prepare=prepare, timeout=200),
    Scenario("handover", "compiler", handover(["win", "win", "one", "pkg", "amd", "mac"]), oracle, 3, nontrivial=lambda r, c: any(r.faults.get(x) for x in ERR), sched=sched, prepare=prepare, timeout=200),
], 300, 6000, "at least one disk call failed (fault configurations) or was cut short or reordered", REAL, STUBS)
