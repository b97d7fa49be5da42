"""C07 GC safety."""
from lib.driver import Prop, Scenario, V, events


def cfg(rng):
    return {"wp0": rng.choice([1, 2, 3, 4]), "wp1": rng.choice([20, 40, 80]), "wp2": rng.choice([0, 3, 10]), "wp3": rng.choice([0, 3, 10, 30]),
            "wp4": rng.choice([0, 10, 40]), "wp5": rng.choice([1, 3]), "wp6": rng.choice([0, 60]), "wp7": rng.choice([0, 60])}


def moves(rng):
    few = 0
    for i in range(rng.choice([2, 3, 4])):
        few |= 1 << rng.choice([rng.randrange(25), rng.randrange(25), 21])
    # one reference to each value, handed from place to place while a large structure is being marked
    return {"wp0": rng.choice([1, 2, 3, 4]), "wp1": rng.choice([15, 30, 60]), "wp2": rng.choice([0, 100, 600, 1500]), "wp3": rng.choice([0, 2, 6]),
            "wp4": rng.choice([0, 10, 40]), "wp5": rng.choice([1, 3, 16]), "wp6": rng.choice([(1 << 25) - 1, few, few, rng.randrange(1, 1 << 25)]), "wp7": rng.choice([0, 1, 1, 5])}


def answers(rng):
    # values the event loop makes for a waiting coroutine
    return {"wp0": rng.choice([1, 2, 4]), "wp1": rng.choice([4, 8, 16]), "wp2": rng.choice([0, 20, 300]), "wp3": rng.choice([0, 2, 6]),
            "wp4": rng.choice([0, 30]), "wp5": rng.choice([1, 3, 7, 15, 15]), "wp6": rng.choice([0, 0, 1, 3]), "wp7": rng.choice([0, 1, 2])}


def oracle(res, cfg):
    if not events(res, 9):
        raise V("unfinished", "main did not reach its end")
    done = {e[3] for e in events(res, 3)}
    if len(done) != cfg["wp0"]:
        raise V("early", "await returned before the coroutine was done: %s of %d" % (sorted(done), cfg["wp0"]))


PROP = Prop("C07", [Scenario("gc", "gc", cfg, oracle, 2), Scenario("moves", "gcmv", moves, oracle, 3), Scenario("answers", "gcio", answers, oracle, 1)], quick=10000, thorough=200000, rule='Each run draws mutator count, mutation steps, allocation volume, forced collections and data shapes (lists, maps, vectors, closures, channels, unions), plus scheduler knobs and stalls, from its seed. Non-trivial: every run that ended, since each one performs collections while the mutators run.')
