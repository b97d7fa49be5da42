"""C19 a coroutine's own values and errors: unchanged by whatever else runs while it is suspended."""
from lib.driver import Prop, Scenario, V, events


def cfg(rng):
    return {"wp0": rng.choice([1, 2, 4, 6]), "wp1": rng.choice([2, 4, 8]), "wp2": rng.choice([0, 10, 40]), "wp3": rng.choice([0, 0, 5]),
            "wp4": rng.choice([0, 3, 12, 40]), "wp5": rng.choice([0, 30, 100]), "wp6": rng.choice([0, 20, 60]), "wp7": rng.choice([0, 50])}


def oracle(res, cfg):
    seen = {}
    for t, tid, k, a, b, c in events(res):
        if k == 1:
            if b != seen.get(a, 0):
                raise V("steps", "coroutine %d did step %d after step %d" % (a, b, seen.get(a, 0) - 1))
            seen[a] = b + 1
    if not events(res, 9) or len(events(res, 2)) != cfg["wp0"]:
        raise V("unfinished", "main or a coroutine did not finish")
    if any(v != cfg["wp1"] for v in seen.values()):
        raise V("steps", "a coroutine skipped steps: %r" % seen)


nt = lambda r, c: r.stat.get("switches", 0) > 20 and c["wp0"] > 1
PROP = Prop("C19", [Scenario("locals", "locals", cfg, oracle, nontrivial=nt)], quick=8000, thorough=200000, rule='Each run draws the number of coroutines, steps, recursion depth, throw rate and the mix of suspension kinds (yield, sleep, channel, mutex, await, collection), plus scheduler knobs and stalls, from its seed. Non-trivial: more than one worker and more than 20 context switches.')
