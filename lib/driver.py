"""Seeded search over simulated executions for one property.

A property module defines PROP = Prop(...).  Each run i of a check draws its scenario, scheduling knobs,
fault rates and workload parameters from Random(mix(VERIF_SEED, id, i)); the simulator draws every
interleaving / delay / fault from the same seed.  A violation is accepted only if the same seed gives the
same execution hash in a fresh process and the recorded decision list alone reproduces it; it is then
minimised and written as a replay file."""
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import random
import re
import sys
import time
import traceback

from . import build
from .simrun import Runner, mix, sched_cfg

VERIF = build.VERIF
ERR = 3
CRASH = {"assert", "signal", "abort", "deadlock", "selfdeadlock", "badunlock", "hang", "oracle", "spin", "heap", "walltimeout", "nolog"}


class V(Exception):
    """A violation: sig is a stable class, msg the details."""

    def __init__(self, sig, msg):
        super().__init__("%s: %s" % (sig, msg))
        self.sig, self.msg = sig, msg


class Scenario:
    def __init__(self, name, workload, cfg, oracle, weight=1, nontrivial=None, sched=None, prepare=None, timeout=60, ok_exit=(0,)):
        self.name, self.workload, self.cfg, self.oracle = name, workload, cfg, oracle
        self.weight, self.nontrivial, self.sched, self.prepare = weight, nontrivial, sched or sched_cfg, prepare
        self.timeout, self.ok_exit = timeout, ok_exit


REAL = ["language runtime (scheduler, coroutine switching, garbage collector, allocator, channels, mutexes, timers, I/O wrappers), compiled from /repo/runtime",
        "libuv event loop and handles from the bundled library", "standard library and workload compiled by the compiler built from /repo"]
STUBS = ["kernel: threads are released one at a time, futex/mutex/condition waits, clocks and sleeps, epoll/eventfd/pipes/sockets are simulated", "OS preemption and core timing: seeded scheduler"]


class Prop:
    def __init__(self, id, scenarios, quick, thorough, rule, real=REAL, stubs=STUBS, assumptions=(), level="exploration"):
        self.id, self.scenarios, self.quick, self.thorough = id, scenarios, quick, thorough
        self.rule, self.real, self.stubs, self.assumptions, self.level = rule, real, stubs, list(assumptions), level

    def pick(self, rng):
        if os.environ.get("VERIF_SCEN"):
            return self.scen(os.environ["VERIF_SCEN"])
        tot = sum(s.weight for s in self.scenarios)
        r = rng.random() * tot
        for s in self.scenarios:
            r -= s.weight
            if r < 0:
                return s
        return self.scenarios[-1]

    def scen(self, name):
        return [s for s in self.scenarios if s.name == name][0]


def events(res, k=None):
    """workload events as (time, tid, kind, a, b, c)"""
    return [(e[1], e[2], e[3], e[4], e[5], e[6]) for e in res.events if e[0] == "w" and (k is None or e[3] == k)]


def evaluate(sc, res, cfg):
    """Returns None or V. 'stepcap'/'timecap'/'simlimit' are inconclusive and reported separately."""
    try:
        if res.kind in ("stepcap", "timecap", "simlimit"):
            return None
        if res.kind in CRASH:
            m = res.msg
            if res.kind == "nolog":
                m = "process ended without a log, rc=%s out=%s" % (res.rc, res.out[-300:])
            cls = res.kind
            if res.kind == "assert":
                cls += ":" + (m.split(" ")[0].split(":")[0] + ":" + m.split(" ")[1] if " " in m else m)
            if res.kind == "oracle":
                cls += ":%d" % res.code
            raise V(cls, "%s %s" % (res.kind, m) + (" | stdio: " + res.out[-400:].strip() if res.out.strip() else ""))
        if res.kind != "exit":
            raise V("end:" + res.kind, res.msg)
        if sc.ok_exit is not None and res.code not in sc.ok_exit:
            raise V("exit", "exit code %d | stdio: %s" % (res.code, res.out[-400:].strip()))
        if sc.oracle:
            sc.oracle(res, cfg)
        return None
    except V as v:
        return v


def make_run(prop, seed, i):
    rng = random.Random(mix(seed, prop.id, i))
    sc = prop.pick(rng)
    cfg = sc.sched(rng)
    cfg.update(sc.cfg(rng))
    cfg["seed"] = mix(seed, prop.id, i, 7) >> 1
    cfg["wseed"] = mix(seed, prop.id, i, 11) >> 1
    return sc, cfg


def _bins(prop):
    nature, root = build.build_compiler(), build.build_root()
    return {s.workload: build.build_workload(s.workload, nature, root) for s in prop.scenarios}


def _cpus():
    try:
        return sorted(os.sched_getaffinity(0))
    except OSError:
        return list(range(os.cpu_count() or 1))


def _worker(modname, bins, seed, cpu, nxt, n, stop, q, tend, recheck):
    try:
        prop = importlib.import_module(modname).PROP
        run = Runner(cpu)
        try:
            while not stop.is_set() and time.time() < tend:
                with nxt.get_lock():
                    lo = nxt.value
                    if lo >= n:
                        break
                    nxt.value = hi = min(n, lo + 8)
                out = []
                for i in range(lo, hi):
                    if stop.is_set() or time.time() > tend:
                        break
                    sc, cfg = make_run(prop, seed, i)
                    res = run.run(bins[sc.workload], cfg, timeout=sc.timeout, prepare=sc.prepare)
                    v = evaluate(sc, res, cfg)
                    nt = bool(sc.nontrivial(res, cfg)) if sc.nontrivial and not v else True
                    det = None
                    if recheck and i % recheck == 0 and not v:
                        r2 = run.run(bins[sc.workload], cfg, dump=True, timeout=sc.timeout, prepare=sc.prepare)
                        dec = run.decisions()
                        r3 = run.run(bins[sc.workload], cfg, decisions=dec, timeout=sc.timeout, prepare=sc.prepare)
                        det = (r2.stat.get("hash") == res.stat.get("hash") and r2.events == res.events, r3.events == res.events and r3.kind == res.kind)
                    out.append((i, sc.name, res.kind, res.stat, res.faults, res.probes, nt, v and (v.sig, v.msg), det))
                q.put(out)
        finally:
            run.close()
        q.put(None)
    except Exception:
        q.put(("error", traceback.format_exc()))


def reproduce(run, sc, binary, cfg, decs=None, dump=False, trace=False):
    res = run.run(binary, cfg, decisions=decs, dump=dump, trace=trace, timeout=sc.timeout, prepare=sc.prepare)
    return res, evaluate(sc, res, cfg)


def gate_and_minimise(prop, sc, binary, cfg, v, budget_s):
    """Returns replay dict or (None, reason)."""
    run = Runner(_cpus()[0])
    try:
        r1, v1 = reproduce(run, sc, binary, cfg, dump=True)
        decs = run.decisions() if r1.rc is not None else []
        r2, v2 = reproduce(run, sc, binary, cfg)
        if not v1 or not v2 or v1.sig != v.sig or r1.stat.get("hash") != r2.stat.get("hash"):
            return None, "same seed did not reproduce (%s vs %s / %s)" % (v.sig, v1 and v1.sig, v2 and v2.sig)
        r3, v3 = reproduce(run, sc, binary, cfg, decs)
        if not v3 or v3.sig != v.sig:
            return None, "decision list did not reproduce (%s vs %s)" % (v.sig, v3 and v3.sig)
        n0 = len(decs)
        t0 = time.time()
        tests = 0

        def bad(ds):
            nonlocal tests
            tests += 1
            _, vv = reproduce(run, sc, binary, cfg, ds)
            return vv is not None and vv.sig == v.sig

        cur = list(decs)
        if bad([]):
            cur = []
        n = 2
        while len(cur) >= 1 and time.time() - t0 < budget_s:
            chunk = max(1, (len(cur) + n - 1) // n)
            done = False
            for s in range(0, len(cur), chunk):
                if time.time() - t0 > budget_s:
                    break
                cand = cur[:s] + cur[s + chunk:]
                if bad(cand):
                    cur = cand
                    n = max(n - 1, 2)
                    done = True
                    break
            if not done:
                if chunk == 1:
                    break
                n = min(len(cur), n * 2)
        ra, va = reproduce(run, sc, binary, cfg, cur)
        rb, vb = reproduce(run, sc, binary, cfg, cur)
        if not va or not vb or ra.stat.get("hash") != rb.stat.get("hash"):
            return None, "minimised replay is not stable"
        return {
            "property": prop.id, "scenario": sc.name, "workload": sc.workload, "cfg": cfg,
            "violation": {"class": va.sig, "detail": va.msg[:2000]},
            "decisions": ["%s %d %d %d" % d for d in cur],
            "decisions_recorded": n0, "minimise_runs": tests,
            "hash": ra.stat.get("hash"), "faults": ra.faults,
            "history_tail": [list(e) for e in ra.events[-200:]],
        }, None
    finally:
        run.close()


def known_findings():
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)", line.strip())
            if m:
                res.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return res


def run_check(modname, tier, seed):
    t0 = time.time()
    prop = importlib.import_module(modname).PROP
    n = prop.quick if tier == "quick" else prop.thorough
    n = int(os.environ.get("VERIF_RUNS", n))
    wall_cap = float(os.environ.get("VERIF_WALL", 480 if tier == "quick" else 6 * 3600))
    try:
        bins = _bins(prop)
    except build.BuildError as e:
        print("build failed:\n%s" % e)
        return ERR
    tb = time.time() - t0
    cpus = _cpus()
    ctx = mp.get_context("fork")
    nxt, stop, q = ctx.Value("q", 0), ctx.Event(), ctx.Queue()
    tend = t0 + wall_cap
    recheck = max(1, n // int(os.environ.get("VERIF_RECHECK", 60)))
    ws = [ctx.Process(target=_worker, args=(modname, bins, seed, c, nxt, n, stop, q, tend, recheck), daemon=True) for c in cpus]
    for w in ws:
        w.start()
    live = len(ws)
    evals = 0
    inter, ntset = set(), set()
    ends, faults, probes, per_sc = (collections.Counter() for _ in range(4))
    vt = units = switches = dets = detbad = repbad = 0
    viols, samples, known, unrepro = [], [], collections.Counter(), []
    kf = [(r, w) for p, r, w in known_findings() if p == prop.id]
    err = None
    tv = None
    while live:
        try:
            it = q.get(timeout=1)
        except queue.Empty:
            if not any(w.is_alive() for w in ws):
                break
            continue
        if it is None:
            live -= 1
            continue
        if it and it[0] == "error":
            err = it[1]
            stop.set()
            live -= 1
            continue
        for i, scn, kind, stat, fl, pr, nt, v, det in it:
            evals += 1
            ends[kind] += 1
            per_sc[scn] += 1
            h = (scn, stat.get("ihash"), stat.get("hash"))
            inter.add(h)
            if nt:
                ntset.add(h)
            for k, c in fl.items():
                faults[k] += c
            for k, c in pr.items():
                probes[k] += c
            vt += stat.get("vtime_ns", 10 ** 9) - 10 ** 9
            units += stat.get("units", 0)
            switches += stat.get("switches", 0)
            if det is not None:
                if os.environ.get("VERIF_SURVEY") and not all(det):
                    print("recheck mismatch run", i, scn, det)
                dets += 1
                detbad += not det[0]
                repbad += not det[1]
            if len(samples) < 6 and nt and not v:
                sc, cfg = make_run(prop, seed, i)
                samples.append({"run": i, "scenario": scn, "cfg": cfg, "end": kind, "faults": fl, "switches": stat.get("switches"), "virtual_ms": (stat.get("vtime_ns", 0) - 10 ** 9) / 1e6, "history_events": stat.get("nev")})
            if v:
                hit = [w for r, w in kf if r.search("%s: %s" % v)]
                if hit:
                    known[hit[0]] += 1
                else:
                    viols.append((i, scn, v))
                    if tv is None:
                        tv = time.time()
        if viols and not os.environ.get("VERIF_SURVEY") and (len(viols) >= 24 or time.time() - tv > 4):
            stop.set()
    for w in ws:
        w.join(5)
        if w.is_alive():
            w.terminate()
    if err:
        print("worker error:\n" + err)
        return ERR
    search_s = time.time() - t0 - tb
    if os.environ.get("VERIF_SURVEY"):
        cl = collections.defaultdict(list)
        for i, scn, v in sorted(viols):
            cl[(scn, v[0])].append((i, v[1]))
        print("%d runs %.1fs ends %s det %d/%d/%d faults %s probes %s" % (evals, search_s, dict(ends), dets, detbad, repbad, dict(faults), dict(probes)))
        for k, l in sorted(cl.items(), key=lambda x: -len(x[1])):
            print("%5d %s e.g. runs %s\n        %s" % (len(l), k, [x[0] for x in l[:4]], l[0][1][:500]))
        return 0
    rc = 0
    replay = None
    if viols:
        viols.sort()
        mb = 60 if tier == "quick" else 240
        for i, scn, v in viols[:12]:
            sc, cfg = make_run(prop, seed, i)
            rep, why = gate_and_minimise(prop, sc, bins[sc.workload], cfg, V(*v), mb)
            if rep:
                os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
                rep["run"], rep["verif_seed"] = i, seed
                replay = os.path.join(VERIF, "replays", "%s-%d-%d.json" % (prop.id, seed, i))
                with open(replay, "w") as f:
                    json.dump(rep, f, indent=1)
                print("run %d scenario %s: %s: %s" % (i, scn, rep["violation"]["class"], rep["violation"]["detail"][:1200]))
                print("seed %d, %d decisions minimised from %d; replay: ./check --replay %s" % (cfg["seed"], len(rep["decisions"]), rep["decisions_recorded"], replay))
                rc = 1
                break
            unrepro.append("run %d %s: %s" % (i, v[0], why))
        if rc == 0:
            print("violations seen but none reproduced exactly:\n" + "\n".join(unrepro))
            rc = ERR
    for w, c in known.items():
        print("KNOWN-FINDING: property=%s %s (seen in %d runs)" % (prop.id, w, c))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    wall = time.time() - t0
    ev = {
        "property": prop.id, "tier": tier, "seed": seed, "level": prop.level,
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(ntset), "rule": prop.rule, "samples": samples,
            "distinct_executions_all": len(inter),
            "distinct_measure": "an execution is identified by (scenario, hash of every context switch with the switching thread's instruction-point count, hash of all decisions and history events)",
            "runs_per_hour": int(evals / max(search_s, .001) * 3600),
            "seeds_per_hour_note": "one seed per run",
            "simulated_time_s": round(vt / 1e9, 3), "schedule_points": units, "context_switches": switches,
            "faults_injected": dict(faults), "rare_condition_probes": dict(probes), "scenario_runs": dict(per_sc), "run_ends": dict(ends),
            "determinism_rechecks": dets, "determinism_mismatches": detbad, "replay_mismatches": repbad,
            "real_components": prop.real, "stubbed_components": prop.stubs, "search_s": round(search_s, 2), "build_s": round(tb, 2),
            "known_finding_hits": dict(known), "unreproduced": unrepro,
        },
        "assumptions": prop.assumptions + ["memory model: one instruction-level interleaving at a time (sequential consistency); weak-memory reorderings are not simulated"],
        "violations": len(viols), "wall_s": round(wall, 2),
    }
    p = os.path.join(VERIF, "evidence", prop.id + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(p + ".tmp", p)
    print("%s %s: %d runs, %d distinct non-trivial, %d virtual s, %.0f runs/h, ends %s, %.1fs (build %.1fs)" % (prop.id, tier, evals, len(ntset), vt / 1e9, evals / max(search_s, .001) * 3600, dict(ends), wall, tb))
    if rc == 1:
        print("VIOLATION property=%s replay=%s" % (prop.id, replay))
    elif rc == 0 and evals == 0:
        rc = ERR
    return rc


def run_replay(path, trace=False):
    rep = json.load(open(path))
    prop = importlib.import_module("props." + rep["property"].lower()).PROP
    sc = prop.scen(rep["scenario"])
    b = build.build_workload(sc.workload)
    run = Runner(_cpus()[0])
    try:
        decs = []
        for d in rep["decisions"]:
            a = d.split()
            decs.append((a[0], int(a[1]), int(a[2]), int(a[3])))
        res, v = reproduce(run, sc, b, rep["cfg"], decs, trace=trace)
        for e in res.events:
            print("t=%dns thr=%d %s" % (e[1], e[2], " ".join(str(x) for x in e[3:])))
        if trace:
            os.system("cp %s/trace /tmp/sim.trace" % run.dir)
        print("end:", res.kind, res.code, res.msg)
        print("hash %s (recorded %s)" % (res.stat.get("hash"), rep["hash"]))
        if v:
            print("reproduced: %s: %s" % (v.sig, v.msg))
            print("VIOLATION property=%s replay=%s" % (rep["property"], path))
            return 1
        print("not reproduced on this tree")
        return 0
    finally:
        run.close()


def main(argv):
    sys.path.insert(0, VERIF)
    if argv and argv[0] == "--build":
        for f in sorted(os.listdir(os.path.join(VERIF, "props"))):
            if re.match(r"c\d+\.py$", f):
                _bins(importlib.import_module("props." + f[:-3]).PROP)
        build.prune()
        return 0
    if len(argv) >= 2 and argv[0] == "--replay":
        return run_replay(argv[1], "--trace" in argv)
    if len(argv) == 2 and argv[0] == "--one":
        # debugging aid: ID:index
        pid, i = argv[1].split(":")
        prop = importlib.import_module("props." + pid.lower()).PROP
        sc, cfg = make_run(prop, int(os.environ.get("VERIF_SEED", "1")), int(i))
        run = Runner(_cpus()[0])
        res, v = reproduce(run, sc, build.build_workload(sc.workload), cfg, dump=True, trace=True)
        os.system("cp %s/trace /tmp/sim.trace" % run.dir)
        run.close()
        print(sc.name, cfg)
        for e in res.events:
            print("t=%dns thr=%d %s" % (e[1], e[2], " ".join(str(x) for x in e[3:])))
        print(res.kind, res.code, res.msg, res.stat, res.faults)
        print(res.out)
        print("V:", v)
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return run_check("props." + argv[0].lower(), tier, seed)
