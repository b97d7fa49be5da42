"""C15 files: reads and writes do exactly what they report, for every schedule and every I/O fault."""
from lib.driver import Prop, Scenario, V, events

OP = ["open", "write", "write_at", "read", "read_at", "seek", "stat", "content", "append", "use after close", "use while it is closed"]
ERR = {0: ("fs_open_err",), 1: ("fs_write_err", "fs_enospc", "fs_notsup"), 2: ("fs_write_err", "fs_enospc", "fs_notsup"), 3: ("fs_read_err", "fs_notsup"), 4: ("fs_read_err", "fs_notsup"),
       5: (), 6: ("fs_stat_err",), 7: ("fs_read_err", "fs_stat_err", "fs_short_read", "fs_notsup"), 8: ("fs_write_err", "fs_enospc", "fs_notsup")}


def base(rng):
    return {"wp0": rng.choice([1, 2, 4, 6]), "wp1": rng.choice([5, 15, 40]), "wp2": rng.choice([1, 30, 500, 5000]), "wp3": rng.choice([0, 10, 50]),
            "wp4": rng.choice([0, 20]), "wp5": rng.choice([0, 0, 1, 2, 2]), "wp6": rng.choice([0, 1])}


def cfg(rng):
    c = base(rng)
    for k in ("fs_eintr", "fs_delay", "work", "epoll_eintr", "epoll_order"):
        if rng.random() < 0.5:
            c[k] = rng.choice([20000, 200000])
    return c


def faulty(rng):
    c = cfg(rng)
    for k in ("fs_open_err", "fs_read_err", "fs_short_read", "fs_write_err", "fs_short_write", "fs_stat_err", "fs_close_err", "fs_enospc", "fs_notsup"):
        if rng.random() < 0.4:
            c[k] = rng.choice([10000, 100000, 300000])
    return c


def oracle(res, cfg):
    f = res.faults.get
    for t, tid, k, a, b, c in events(res):
        if k == 7:
            raise V("wrong-" + OP[b].replace(" ", "-"), "worker %d: %s does not agree with what was written (%d)" % (a, OP[b], c))
        if k == 8 and not any(f(x) for x in ERR[b]):
            raise V("error-" + OP[b], "worker %d: %s failed without a fault" % (a, OP[b]))
        if k == 2 and not f("fs_short_read"):
            raise V("short-read", "worker %d: %s returned %d bytes only, without a fault" % (a, OP[b], c))
        if k == 3 and not f("fs_short_write"):
            raise V("short-write", "worker %d: %s wrote %d bytes only, without a fault" % (a, OP[b], c))
        if k == 21 and b > a:
            raise V("leak", "%d descriptors open at the start, %d after all files were closed" % (a, b))
    if not events(res, 9):
        raise V("unfinished", "main did not finish")


nt = lambda r, c: r.stat.get("switches", 0) > 10 and len(r.events) > 8
RULE = "Each run draws 1-6 coroutines, their sequences of open, write, read, positioned read and write, seek, stat, content, append, close and use after close on own files, on one shared handle (offsets beyond 2 GB included) or on handles that others close meanwhile, chunk sizes, sleeps, collections, and rates of delays and interrupted calls, plus (faulty) failing and short reads and writes, full disk, failing open, stat, close and unsupported calls. Non-trivial: more than 10 context switches and more than 8 history events."
PROP = Prop("C15", [Scenario("clean", "fs", cfg, oracle, nontrivial=nt), Scenario("faulty", "fs", faulty, oracle, nontrivial=nt)], quick=6000, thorough=200000, rule=RULE)
