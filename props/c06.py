"""C06 scheduling: every started coroutine runs once and gets its turn; the program ends with main, with the right status."""
from lib.driver import Prop, Scenario, V, events


def cfg(rng):
    return {"wp0": rng.choice([1, 2, 4]), "wp1": rng.choice([0, 1, 3, 8, 70]), "wp2": rng.choice([0, 8, 40, 200]), "wp3": rng.choice([0, 0, 3]),
            "wp4": rng.choice([0, 0, 1, 2]), "wp5": rng.choice([0, 1, 4, 8]), "wp6": rng.choice([0, 50, 100]), "wp7": rng.choice([1, 5, 20]), "wp8": rng.choice([1, 6, 20])}


def oracle(res, cfg):
    sets, spins = set(), set()
    for t, tid, k, a, b, c in events(res):
        if k == 2:
            sets.add(a)
        if k == 3:
            if (a, b) in spins:
                raise V("ran-twice", "coroutine %d.%d ended twice" % (a, b))
            spins.add((a, b))
    if not events(res, 9):
        raise V("early-exit", "the program ended with status %d before main reached its end; output %r" % (res.code, res.out[-200:]))
    if len(sets) != cfg["wp0"] or len(spins) != cfg["wp0"] * cfg["wp1"]:
        raise V("lost", "main ended its waits, but only %d of %d coroutines had finished" % (len(spins) + len(sets), cfg["wp0"] * (cfg["wp1"] + 1)))
    want = 1 if cfg["wp4"] else 0
    if res.code != want:
        raise V("status", "exit status %d instead of %d" % (res.code, want))
    if "all done 12" not in res.out:
        raise V("output", "what main printed is missing from standard output: %r" % res.out[-200:])
    if want and "last words 4711" not in res.out:
        raise V("output", "the uncaught error was not reported: %r" % res.out[-200:])


nt = lambda r, c: r.stat.get("switches", 0) > 20 and (c["wp1"] > 0 or c["wp2"] > 0)
PROP = Prop("C06", [Scenario("sched", "sched", cfg, oracle, nontrivial=nt, ok_exit=(0, 1))], quick=8000, thorough=200000, rule='Each run draws groups of yielding coroutines, what wakes the one they wait for (timer, channel, mutex, await, spawn chain, select, collection), a spawn storm, leftover coroutines and how the program ends, plus scheduler knobs and stalls, from its seed. Non-trivial: more than 20 context switches and at least one spinner or spawned coroutine.')
