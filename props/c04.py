"""C04 await: returns after the coroutine ended, with its result or error, for every waiter."""
from lib.driver import Prop, Scenario, V, events
from lib.simrun import calm_sched


def cfg(rng):
    return {"wp0": rng.choice([1, 2, 3, 4]), "wp1": rng.choice([2, 3, 5]), "wp2": 0, "wp3": rng.choice([0, 20, 60]),
            "wp4": rng.choice([0, 0, 0, 8]), "wp5": rng.choice([1, 1, 2, 3]), "wp6": rng.choice([0, 1, 2]), "wp7": rng.choice([0, 0, 50])}


def errcfg(rng):
    c = cfg(rng)
    c["wp2"] = rng.choice([30, 60, 100])
    return c


def oracle(res, cfg):
    ran, ended, aw = set(), set(), {}
    for t, tid, k, a, b, c in events(res):
        if k == 7:
            raise V("wrong-result", "await of task %d gave v=%d nv=%d" % (a, b, c))
        if k == 6:
            raise V("wrong-error", "await of failing task %d gave a result or another error (v=%d)" % (a, b))
        if k == 1:
            if a in ran:
                raise V("ran-twice", "task %d was run twice" % a)
            ran.add(a)
        if k == 2:
            ended.add(a)
        if k == 4:
            if a not in ended:
                raise V("early", "await of task %d returned before the task ended" % a)
            if (a, b) in aw:
                raise V("twice", "one await of task %d returned twice" % a)
            aw[(a, b)] = 1
    if not events(res, 9) or len(events(res, 8)) != cfg["wp0"]:
        raise V("unfinished", "main or a driver did not finish")
    if ran != ended:
        raise V("unfinished", "tasks %r did not end" % sorted(ran - ended)[:5])


nt = lambda r, c: r.stat.get("switches", 0) > 20 and len(r.events) > 10
# the failing task throws 60 ms after it was let go: without stalls its awaiter is parked by then (an error nobody awaits ends the program)
PROP = Prop("C04", [Scenario("results", "await", cfg, oracle, weight=2, nontrivial=nt), Scenario("errors", "await", errcfg, oracle, nontrivial=nt, sched=calm_sched)],
            quick=20000, thorough=500000, rule='Each run draws driver count, tasks per driver, result type, failing tasks, number of awaiters per task, delays and placement, plus scheduler knobs and stalls, from its seed. Non-trivial: more than 20 context switches and more than 10 history events.')
