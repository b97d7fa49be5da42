"""C02 select: exactly one ready case takes effect, atomically, on its channel."""
from lib import lin
from lib.driver import Prop, Scenario, V, events


def cfg(rng):
    return {"wp0": rng.choice([1, 2, 2, 3]), "wp1": rng.choice([1, 2, 2, 3]), "wp2": rng.choice([2, 3, 5, 7]), "wp3": rng.choice([0, 0, 20, 60]),
            "wp4": rng.choice([0, 0, 0, 12]), "wp5": rng.choice([0, 0, 1, 2]), "wp6": rng.choice([0, 0, 1, 2]), "wp7": rng.choice([0, 1, 3]),
            "wp8": rng.choice([0, 0, 0, 1, 2]), "wp9": rng.choice([0, 30, 70])}


def oracle(res, cfg):
    ev = events(res)
    inv, chans = {}, [[], [], []]
    sent, got, maybe = {}, {}, set()
    closed_run = cfg["wp8"] > 0
    for n, (t, tid, k, a, b, c) in enumerate(ev):
        if k == 7:
            raise V("torn-message", "message received by op %d arrived as v=%d nv=%d" % (a, b, c))
        if k == 5 and b != c:
            raise V("forced-choice", "with nobody else running select %d took outcome %d, the only ready case gives %d" % (a, b, c))
        if k == 1:
            if a in inv:
                raise V("workload", "op reused")
            inv[a] = [n, b, c, None]
        if k == 2:
            if a not in inv:
                raise V("two-cases", "op %d ended without start" % a)
            r = inv[a]
            if r[3] is not None:
                raise V("two-cases", "one select ran two cases: %r then %r" % (r[3], (b, c)))
            r[3] = (b, c, n)
    for a, (n, var, base, end) in sorted(inv.items()):
        if end is None:
            raise V("no-case", "select %d (variant %d) ended without running a case" % (a, var))
        out, val, m = end
        o = lin.Op()
        o.id, o.inv, o.ret, o.out, o.val, o.res = a, n, m, None, 0, lin.OK
        if out in (0, 1, 2, 3):
            ch = 0 if out == 3 else out
            o.op, o.val = lin.SEND, base + out + 1
            o.chosen_on = ch
            sent[o.val] = o
        elif 10 <= out <= 12:
            ch = out - 10
            o.op, o.out = lin.RECV, val
            if val in got:
                raise V("duplicate", "value %d received twice (ops %d and %d)" % (val, got[val].id, a))
            got[val] = o
        elif 20 <= out <= 22:
            ch = out - 20
            o.op, o.res = lin.RECV, lin.ERR
        elif 30 <= out <= 32:
            ch = out - 30
            o.op, o.res = lin.SEND, lin.ERR
        elif 50 <= out <= 51:
            ch = var - 40
            o.op, o.res = lin.CLOSE, lin.OK if out == 50 else lin.ERR
        else:
            continue
        chans[ch].append(o)
    for v in got:
        if v not in sent:
            raise V("phantom", "value %d was received although its send case was not the one that ran" % v)
        if (got[v].ret < sent[v].inv):
            raise V("phantom", "value %d was received before its send started" % v)
    closes = {ch for ch in range(3) if any(o.op == lin.CLOSE and o.res == lin.OK for o in chans[ch])}
    for v, o in sent.items():
        if v not in got and o.chosen_on not in closes:
            raise V("lost", "send case of value %d ran but the value was never received" % v)
    for ch in range(3):
        ops = chans[ch]
        if ch in closes:
            # a send case on a closed channel is chosen too: it did not deliver
            for o in ops:
                if o.op == lin.SEND and o.res == lin.OK and o.val not in got:
                    o.res = lin.ERR
        for o in ops:
            if o.op in (lin.RECV, lin.SEND) and o.res == lin.ERR and ch not in closes:
                raise V("closed-result", "op %d saw channel %d closed, nobody closed it" % (o.id, ch))
        if lin.check_channel(ops, cfg["wp%d" % (5 + ch)]) is False:
            raise V("not-linearizable", "operations on channel %d (capacity %d) have no legal order: %s" % (ch, cfg["wp%d" % (5 + ch)], ops[:40]))
    if not events(res, 9):
        raise V("unfinished", "main did not finish")


def wide(rng):
    p, c = rng.choice([(1, 1), (2, 1), (2, 2), (3, 3), (4, 2), (1, 2)])
    return {"wp0": p, "wp1": 2 * rng.choice([1, 2, 4]), "wp2": c, "wp3": rng.choice([0, 20, 60]), "wp4": rng.choice([0, 1, 3]), "wp5": rng.choice([0, 0, 10]), "wp6": rng.choice([0, 40])}


def wide_oracle(res, cfg):
    sent = {}
    for t, tid, k, a, b, c in events(res, 1):
        sent[a] = b
    got = {}
    for t, tid, k, a, b, c in events(res, 2):
        if a in got:
            raise V("duplicate", "value %d received twice, on channels %d and %d" % (a, got[a], b))
        got[a] = b
    if not events(res, 9):
        raise V("unfinished", "main did not reach its end")
    for v, ch in sent.items():
        if v not in got:
            raise V("lost", "value %d went into channel %d and never came out" % (v, ch))
        if got[v] != ch:
            raise V("wrong-case", "value %d was sent by the case of channel %d and received by the case of channel %d" % (v, ch, got[v]))
    if len(got) != len(sent) or len(sent) != cfg["wp0"] * cfg["wp1"]:
        raise V("count", "%d values sent, %d received" % (len(sent), len(got)))


PROP = Prop("C02", [Scenario("select", "select", cfg, oracle, nontrivial=lambda r, c: r.stat.get("switches", 0) > 20 and len(r.events) > 14, weight=5), Scenario("wide", "selw", wide, wide_oracle, nontrivial=lambda r, c: r.stat.get("switches", 0) > 20)],
            quick=20000, thorough=500000, rule='Each run draws 1-3 channels with capacities, selecting and plain coroutines, select shapes (send, receive, default, same channel twice, unbound receive, or all or some of eight channels with cases in different orders), closes and delays, plus scheduler knobs and stalls, from its seed. Non-trivial: more than 20 context switches and more than 10 history events.')
