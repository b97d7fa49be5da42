"""C01 channels: linearizable bounded FIFO with close."""
from lib import lin
from lib.driver import Prop, Scenario, V, events


def cfg(rng):
    c = {"wp0": rng.choice([0, 0, 1, 2, 3]), "wp1": rng.choice([1, 2, 2, 3]), "wp2": rng.choice([1, 2, 2, 3]), "wp3": rng.choice([2, 3, 4, 6]),
         "wp4": rng.choice([0, 0, 1, 1, 2]), "wp5": rng.choice([0, 20, 50, 80]), "wp6": rng.choice([0, 0, 20, 60]), "wp7": rng.choice([0, 0, 0, 15])}
    return c


def crowd(rng):
    # hundreds waiting at once
    c = cfg(rng)
    c.update(wp1=rng.choice([2, 60, 150, 300]), wp2=rng.choice([2, 60, 150, 300]), wp3=rng.choice([1, 2]), wp5=rng.choice([0, 0, 10]), wp7=rng.choice([0, 0, 2]), wp9=rng.choice([1, 200, 400]))
    return c


def oracle(res, cfg):
    counts(res)
    ok = lin.check_channel(lin.ops_from(events(res)), cfg["wp0"])
    if ok is False:
        ops = lin.ops_from(events(res))
        raise V("not-linearizable", "history of %d ops has no legal order for a FIFO channel of capacity %d: %s" % (len(ops), cfg["wp0"], ops[:40]))


def counts(res, cfg=None):
    ev = events(res)
    for e in ev:
        if e[2] == 7:
            raise V("torn-message", "message of op %d arrived as v=%d nv=%d" % (e[3], e[4], e[5]))
    ops = lin.ops_from(ev)
    for o in ops:
        if o.ret is None:
            raise V("unfinished", "operation never returned: %r" % o)
    sent = {o.val: o for o in ops if o.op in (1, 2) and o.res == 0}
    got = {}
    for o in ops:
        if o.op in (3, 4) and o.res == 0:
            if o.out in got:
                raise V("duplicate", "value %d received twice: %r %r" % (o.out, got[o.out], o))
            if o.out not in sent:
                raise V("phantom", "received %d that no completed send produced (%r)" % (o.out, o))
            got[o.out] = o
    # receivers only stop on a closed and drained channel, so every accepted value must come out
    lost = [v for v in sent if v not in got]
    if lost:
        raise V("lost", "values accepted by send but never received: %s" % lost)


PROP = Prop(
    "C01",
    [Scenario("chan", "chan", cfg, oracle, nontrivial=lambda r, c: r.stat.get("switches", 0) > 20 and len(r.events) > 10, weight=60),
     Scenario("crowd", "chan", crowd, counts, nontrivial=lambda r, c: r.stat.get("switches", 0) > 20)],
    quick=24000, thorough=600000,
    rule='Each run draws channel capacity 0-3, 1-3 senders, 1-3 receivers, 2-6 operations each, the mix of blocking and non-blocking operations, closes and delays (or, in one run of about sixty, up to 300 coroutines waiting on one channel), plus scheduler knobs and stalls, from its seed; the simulator then picks every interleaving. Non-trivial: more than 20 context switches and more than 10 history events.')
