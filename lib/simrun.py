"""Run one simulated execution and parse what it recorded."""
import os
import random
import resource
import shutil
import signal
import subprocess
import tempfile

PERSONALITY = 0x0040000  # ADDR_NO_RANDOMIZE


class Result:
    __slots__ = ("kind", "code", "msg", "stat", "faults", "probes", "events", "rc", "raw", "out")

    def __repr__(self):
        return "<%s %s %s rc=%s>" % (self.kind, self.code, self.msg, self.rc)


import ctypes

_libc = ctypes.CDLL(None)


def _pre():
    _libc.personality(PERSONALITY)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_STACK, (8 << 20, 8 << 20))


class Runner:
    """Owns a scratch directory; every run starts from an empty one. Layout (cwd, argv, env) is
    identical for every run so that the initial stack and address space are identical."""

    def __init__(self, cpu=None):
        self.base = tempfile.mkdtemp(prefix="simrun-")
        self.dir = os.path.join(self.base, "r")
        self.cpu = cpu
        if cpu is not None:
            try:
                os.sched_setaffinity(0, {cpu})
            except OSError:
                pass
        _libc.personality(PERSONALITY)

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)

    def run(self, binary, cfg, decisions=None, dump=False, trace=False, timeout=60, prepare=None):
        d = self.dir
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.mkdir(d)
        c = dict(cfg)
        if decisions is not None:
            c["replay"] = 1
            with open(d + "/dec_in", "w") as f:
                f.write("".join("%s %d %d %d\n" % x for x in decisions))
        if dump:
            c["dump"] = 1
        if trace:
            c["trace"] = 1
        with open(d + "/cfg", "w") as f:
            f.write("".join("%s=%s\n" % kv for kv in c.items()))
        if prepare:
            prepare(d, cfg)
        r = Result()
        with open(d + "/stdio", "wb") as so:
            p = subprocess.Popen(["w"], executable=binary, cwd=d, env={"SIM": "1"}, stdin=subprocess.DEVNULL, stdout=so, stderr=so, close_fds=True)
            try:
                r.rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                r.rc = None
        r.kind, r.code, r.msg = ("walltimeout" if r.rc is None else "nolog"), r.rc or 0, ""
        r.stat, r.faults, r.probes, r.events = {}, {}, {}, []
        r.raw = None
        try:
            with open(d + "/out") as f:
                text = f.read()
        except OSError:
            text = ""
        for line in text.split("\n"):
            t = line.split(" ")
            if t[0] == "E":
                r.events.append((t[1], int(t[2]), int(t[3]), int(t[4]), int(t[5]), int(t[6]), int(t[7])))
            elif t[0] == "END":
                r.kind, r.code, r.msg = t[1], int(t[2]), " ".join(t[3:])
            elif t[0] == "STAT":
                for kv in t[1:]:
                    k, v = kv.split("=")
                    r.stat[k] = v if k.endswith("hash") else int(v)
            elif t[0] == "FAULT":
                r.faults[t[1]] = int(t[2])
            elif t[0] == "PROBE":
                r.probes[t[1]] = int(t[2])
        with open(d + "/stdio", "rb") as f:
            r.out = f.read(20000).decode(errors="replace")
        return r

    def decisions(self):
        res = []
        with open(self.dir + "/dec") as f:
            for line in f:
                a = line.split()
                if len(a) == 4:
                    res.append((a[0], int(a[1]), int(a[2]), int(a[3])))
        return res


def mix(*xs):
    m = (1 << 64) - 1
    h = 0x9E3779B97F4A7C15
    for x in xs:
        if isinstance(x, str):
            for ch in x.encode():
                h = ((h ^ ch) * 0x100000001B3) & m
        else:
            h ^= x & m
        h = (h + 0x9E3779B97F4A7C15) & m
        h = ((h ^ (h >> 30)) * 0xBF58476D1CE4E5B9) & m
        h = ((h ^ (h >> 27)) * 0x94D049BB133111EB) & m
        h ^= h >> 31
    return h


def sched_cfg(rng):
    """Swarm choice of scheduling knobs for one run."""
    c = {}
    c["nproc"] = rng.choice([1, 2, 2, 3, 3, 4, 5])
    c["mean"] = rng.choice([0, 12, 40, 40, 120, 120, 400, 1500, 6000])
    c["w_atomic"] = rng.choice([1, 4, 10, 30])
    c["w_sync"] = rng.choice([1, 10, 40, 100])
    c["unit_ns"] = rng.choice([2, 5, 5, 20, 100])
    c["sleep_gran_us"] = rng.choice([60, 60, 200, 1000])
    c["pick"] = rng.choice([0, 1, 1])
    c["mem_quarantine"] = rng.choice([0, 0, 8, 100000])
    if rng.random() < 0.35:
        c["stall_ppm"] = rng.choice([200, 2000, 20000])
        c["stall_max_us"] = rng.choice([200, 3000, 40000, 120000])
    return c


def calm_sched(rng):
    """Scheduling without stalls: the machine keeps up with the program."""
    c = sched_cfg(rng)
    c.pop("stall_ppm", None)
    c.pop("stall_max_us", None)
    c["unit_ns"] = rng.choice([2, 5])
    return c
