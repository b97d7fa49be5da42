"""C20 operating-system signals: registered channels get every signal, nobody else does, nothing deadlocks."""
from lib.driver import Prop, Scenario, V, events


def cfg(rng):
    c = {"wp0": rng.choice([1, 1, 2, 3]), "wp1": rng.choice([1, 3, 6, 12]), "wp2": rng.choice([0, 40, 100, 100]), "wp3": rng.choice([0, 1, 2]),
            "wp4": rng.choice([0, 0, 10]), "wp5": rng.choice([0, 1, 1, 2]), "wp6": rng.choice([0, 0, 50]), "wp7": rng.choice([0, 0, 0, 1]), "wp8": 0,
            "sig_delay": rng.choice([0, 500000, 950000])}
    if rng.random() < 0.06:
        c.update(wp8=1, wp1=rng.choice([1, 2, 3]))  # costly: the sender polls
    return c


ALL = (1, 2, 10, 12, 15, 28)


def oracle(res, cfg):
    sent, got, reg, last, sends, recvs = {}, {}, {}, None, [], []
    for n, (t, tid, k, a, b, c) in enumerate(events(res)):
        if k == 1:
            sent[a] = sent.get(a, 0) + 1
            sends.append((n, a))
        if k == 3:
            reg[a] = [s for i, s in enumerate(ALL) if b >> i & 1]
        if k == 2:
            if b not in reg.get(a, ALL):
                raise V("not-asked-for", "listener %d received signal %d, for which it is not registered" % (a, b))
            got[a, b] = got.get((a, b), 0) + 1
            if got[a, b] > sent.get(b, 0):
                raise V("too-many", "listener %d received signal %d %d times, it was sent %d times" % (a, b, got[a, b], sent.get(b, 0)))
            recvs.append((n, a, b))
        if k == 6:
            if not any(s == b and c >> i & 1 for i, s in enumerate(ALL)) or not sent.get(b):
                raise V("not-asked-for", "a channel received signal %d, for which it was not registered or which was not sent" % b)
        if k == 7:
            if a == 2:
                raise V("too-many", "signal %d was sent, signal %d received" % (b, c))
            raise V("after-stop", "a channel received a signal after its registration was withdrawn")
        if k == 10:
            last = a
    for l in reg:
        for s in reg[l]:
            ns = [n for n, x in sends if x == s]
            if ns and not any(n > ns[-1] and a == l and b == s for n, a, b in recvs):
                raise V("lost", "listener %d never received signal %d after it was sent" % (l, s))
            if cfg["wp2"] == 100 and not cfg["wp8"] and got.get((l, s), 0) != len(ns):
                raise V("lost", "listener %d received signal %d %d times, sent one after the other %d times" % (l, s, got.get((l, s), 0), len(ns)))
    if last:
        if res.kind != "exit" or res.code != 128 + last:
            raise V("not-ended", "signal %d without a listener: program ended with %s %s" % (last, res.kind, res.code))
    elif res.code != 0 or not events(res, 9):
        raise V("unfinished", "the program ended with %s %s" % (res.kind, res.code))


nt = lambda r, c: r.stat.get("switches", 0) > 20 and len(r.events) > 6
PROP = Prop("C20", [Scenario("signals", "signal", cfg, oracle, nontrivial=nt, ok_exit=(0, 129, 130, 143))],
            quick=12000, thorough=300000, rule="Each run draws listeners and the sets of signals they register for, the signals sent, whether the next one waits for delivery, coroutines that register and withdraw channels all the time, repeated registrations, channels only the registration refers to, collections, how the program ends, signals sent the moment the one before was delivered, scheduler knobs, stalls and after how many points of which thread a signal arrives. Non-trivial: more than 20 context switches and more than 6 history events.")
