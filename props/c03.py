"""C03 mutex: mutual exclusion, no lost wake-up, no starvation."""
from lib.driver import Prop, Scenario, V, events


def cfg(rng):
    return {"wp0": rng.choice([2, 3, 4, 6]), "wp1": rng.choice([2, 4, 6, 10]), "wp2": rng.choice([1, 1, 2, 3]), "wp3": rng.choice([0, 0, 20, 60]),
            "wp4": rng.choice([0, 0, 0, 8]), "wp5": rng.choice([0, 0, 40]), "wp6": 0, "wp7": rng.choice([0, 30, 80]), "wp8": rng.choice([0, 1, 4]), "wp9": rng.choice([0, 0, 30, 100])}


def hogcfg(rng):
    c = cfg(rng)
    c.update(wp6=rng.choice([1, 1, 2]), wp0=rng.choice([1, 2, 3]), wp1=rng.choice([1, 2, 3]))
    return c


def oracle(res, cfg):
    held, done, n = {}, {}, 0
    for t, tid, k, a, b, c in events(res):
        if k == 7:
            raise V("not-exclusive", "mutex %d: coroutine %d inside saw state of coroutine %d" % (a, b, c))
        if k == 8:
            raise V("try-lock", "a try on a mutex nobody else uses %s" % ("failed although it is free" if a == 1 else "succeeded although it is held"))
        if k == 1:
            if a in held:
                raise V("not-exclusive", "mutex %d entered by %d while %d is inside" % (a, b, held[a]))
            held[a] = b
        if k == 2:
            if held.pop(a, None) != b:
                raise V("not-exclusive", "mutex %d left by %d which is not inside" % (a, b))
            done[a] = done.get(a, 0) + 1
            if c != done[a]:
                raise V("lost-update", "mutex %d: counter is %d after %d critical sections" % (a, c, done[a]))
        if k == 4:
            n += 1
            if b != done.get(a, 0) or c != 0:
                raise V("lost-update", "mutex %d: final counter %d after %d critical sections" % (a, b, done.get(a, 0)))
    if n != cfg["wp2"] or not events(res, 9) or sum(done.values()) < cfg["wp0"] * cfg["wp1"]:
        raise V("unfinished", "main did not finish or sections are missing")


nt = lambda r, c: r.stat.get("switches", 0) > 20 and len(r.events) > 10
PROP = Prop("C03", [Scenario("mutex", "mutex", cfg, oracle, weight=3, nontrivial=nt), Scenario("hog", "mutex", hogcfg, oracle, nontrivial=nt)],
            quick=30000, thorough=600000, rule='Each run draws the number of contending coroutines, mutexes, critical sections, hold times, sleeps, yields and collections inside the section and nested sections, plus scheduler knobs and stalls, from its seed. Non-trivial: more than 20 context switches and more than 10 history events.')
