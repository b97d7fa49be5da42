"""C05 sleep: never early, every sleeper wakes exactly once, not late when the machine is not stalled."""
from lib.driver import Prop, Scenario, V, events
from lib.simrun import calm_sched

LATE_MS = 400


def cfg(rng):
    return {"wp0": rng.choice([1, 3, 6, 10]), "wp1": rng.choice([2, 4, 8]), "wp2": rng.choice([5, 20, 100, 1500]), "wp3": rng.choice([0, 30, 70]),
            "wp4": rng.choice([0, 0, 0, 10]), "wp5": rng.choice([0, 30]), "wp6": rng.choice([0, 0, 1, 3]),
            "wp7": rng.choice([0, 0, 0, 1, 3]), "wp8": rng.choice([33, 66]) if rng.random() < 0.003 else 0}


def calmcfg(rng):
    c = cfg(rng)
    c.update(wp4=0, wp6=0)
    return c


def oracle(res, cfg):
    open_ = {}
    for t, tid, k, a, b, c in events(res):
        if k == 1:
            open_[a] = b
        if k == 2:
            if open_.pop(a, None) is None:
                raise V("woke-twice", "sleep %d returned twice" % a)
            if c < (b - 1) * 1000000:
                raise V("early", "sleep(%d ms) returned after %.3f ms" % (b, c / 1e6))
        if k == 4 and c < (b - 1) * 1000000:
            raise V("early", "sleep(%d ms) returned after %.3f ms" % (b, c / 1e6))
    if open_ or not events(res, 9):
        raise V("unfinished", "sleeps %r did not return" % sorted(open_)[:5])


def calm(res, cfg):
    oracle(res, cfg)
    for t, tid, k, a, b, c in events(res, 2):
        if c > (b + LATE_MS) * 1000000:
            raise V("late", "sleep(%d ms) on an idle machine returned after %.3f ms" % (b, c / 1e6))


nt = lambda r, c: r.stat.get("switches", 0) > 20 and len(r.events) > 10
PROP = Prop("C05", [Scenario("faulty", "timer", cfg, oracle, weight=2, nontrivial=nt), Scenario("calm", "timer", calmcfg, calm, nontrivial=nt, sched=calm_sched)],
            quick=20000, thorough=400000, rule='Each run draws sleeper count, sleeps per sleeper, durations (some far longer than the run), busy work, wall-clock jumps and collections, plus scheduler knobs and stalls, from its seed. Non-trivial: more than 20 context switches and more than 10 history events.')
