"""C08 what a program no longer uses is given back: repeating bounded work does not make it grow."""
from lib.driver import Prop, Scenario, V, events
from lib.simrun import calm_sched

WHAT = {1: "collected heap", 2: "runtime's own heap", 3: "open descriptors", 4: "ended threads nobody released", 5: "address space"}


def cfg(rng):
    return {"wp0": rng.choice([1, 2, 3]), "wp1": 12, "wp2": rng.choice([1, 2, 4]), "wp3": rng.choice([rng.randrange(1, 4096), rng.randrange(1, 1 << 20) & rng.randrange(1 << 20) | 1 << rng.randrange(20), 1 << rng.randrange(20), 1 << rng.randrange(20)]),
            "wp4": rng.choice([0, 30]), "wp5": rng.choice([4, 300, 6000])}


def faulty(rng):
    c = cfg(rng)
    c["wp3"] = rng.choice([128, 512, 1024, 2048, 512 + 128, 2048 + 512, 4095, 16384, 32768, 16384 + 32768 + 512, 1 << 18, 1 << 19])
    for k in ("net_rst", "accept_fail", "net_refuse", "sock_fail", "fs_open_err", "fs_read_err", "fs_write_err", "fs_stat_err", "udp_loss", "spawn_fail", "child_kill", "dns_fail", "udp_sendfail", "net_short_read", "net_eagain"):
        if rng.random() < 0.5:
            c[k] = rng.choice([20000, 200000])
    return c


def oracle(res, cfg):
    for t, tid, k, a, b, c in events(res, 7):
        raise V("grew%d" % a, "%s grew from %d to %d over repeated rounds of the same work (kinds %s)" % (WHAT[a], b, c, bin(cfg["wp3"])))
    if not events(res, 9):
        raise V("unfinished", "main did not reach its end")


nt = lambda r, c: r.stat.get("switches", 0) > 20
PROP = Prop("C08", [Scenario("rounds", "leak", cfg, oracle, weight=2, nontrivial=nt, sched=calm_sched), Scenario("faulty", "leak", faulty, oracle, nontrivial=nt, sched=calm_sched)], quick=1800, thorough=30000,
            rule="Each run draws a mix of kinds of work (objects, strings, coroutines, channels, mutexes, sleeps, errors, files, closures, TCP, UDP, HTTP, child processes, name lookups, large objects, operations that fail every time), worker count, amount and object sizes, scheduler knobs and, in the second scenario, network and file fault rates. Non-trivial: more than 20 context switches.")
