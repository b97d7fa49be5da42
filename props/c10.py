"""C10 TCP: byte streams arrive in order, complete and unmodified, in both directions, or an error is reported."""
from lib.driver import Prop, Scenario, V, events


def length_of(res, s):
    return None


def base(rng):
    return {"wp0": rng.choice([1, 1, 2, 3, 5]), "wp1": rng.choice([1, 10, 200, 3000]), "wp2": rng.choice([1, 7, 100, 2000]), "wp3": rng.choice([0, 1, 1, 2]),
            "wp4": rng.choice([0, 0, 10]), "wp5": rng.choice([0, 20]), "wp6": rng.choice([1, 2]), "wp7": rng.choice([1, 16, 300, 4096])}


def cfg(rng):
    c = base(rng)
    if c["wp1"] > 50 * min(c["wp2"], c["wp7"]):
        c["wp1"] = 50 * min(c["wp2"], c["wp7"])
    for k in ("net_segment", "net_delay", "net_short_read", "net_short_write", "net_eagain", "epoll_eintr"):
        if rng.random() < 0.5:
            c[k] = rng.choice([20000, 200000, 700000])
    if rng.random() < 0.4:
        c["net_small_sndbuf"] = 800000
    return c


def lossy(rng):
    c = cfg(rng)
    c["net_rst"] = rng.choice([2000, 20000, 100000])
    if rng.random() < 0.4:
        c["accept_fail"] = 200000
    if rng.random() < 0.4:
        c["net_refuse"] = 200000
    return c


def oracle(res, cfg):
    strict = not any(res.faults.get(k) for k in ("net_rst", "accept_fail", "net_refuse"))
    wrote, read = {}, {}
    for t, tid, k, a, b, c in events(res):
        if k == 7:
            raise V("corrupt", "stream %d: wrong byte %d at offset %d (or impossible length)" % (a, c, b))
        if k == 6:
            raise V("short-write", "write of %d bytes on stream %d reported %d without an error" % (b, a, c))
        if k in (1,):
            wrote[a] = [b, 0]
        if k == 3:
            wrote[a] = [b, c]
        if k == 4:
            read[a] = [b, 0]
        if k == 2:
            read[a] = [b, c]
        if k == 10 and a > b:
            raise V("reported-unsent", "%d bytes were reported as written, the network took %d" % (a, b))
        if k == 8 and strict:
            raise V("connect", "connect or first write of client %d failed without a fault" % a)
    if not events(res, 9):
        raise V("unfinished", "main did not finish")
    for s, (n, st) in read.items():
        if s not in wrote:
            if cfg["wp3"] == 2 and s & 1:
                continue
            if n:
                raise V("phantom", "stream %d delivered %d bytes, none were written" % (s, n))
            continue
        if strict and cfg["wp3"] == 0 and n != wrote[s][0]:
            raise V("lost", "stream %d: %d bytes written and closed, %d read before end of stream" % (s, wrote[s][0], n))
        if strict and st == 2:
            raise V("spurious-error", "reading stream %d failed after %d bytes without a fault" % (s, n))
    if strict:
        for s, (n, st) in wrote.items():
            if st == 2:
                raise V("spurious-error", "writing stream %d failed after %d bytes without a fault" % (s, n))
            if s not in read or read[s][0] < n:
                raise V("lost", "stream %d: %d bytes written, %d read" % (s, n, read.get(s, [0])[0]))
        if len(events(res, 5)) != 2 * cfg["wp0"]:
            raise V("unfinished", "not every connection ended on both sides")


nt = lambda r, c: r.stat.get("switches", 0) > 20 and len(r.events) > 10
RULE = "Each run draws 1-5 connections, stream lengths, chunk and buffer sizes, one-way / full-duplex / echo use, acceptors, sleeps and collections, and rates for segmentation, delay, short reads and writes, full send buffers, spurious wakeups (clean scenario) plus resets, aborted accepts and refused connections (lossy scenario). Non-trivial: more than 20 context switches and more than 10 history events."
PROP = Prop("C10", [Scenario("clean", "tcp", cfg, oracle, weight=2, nontrivial=nt), Scenario("lossy", "tcp", lossy, oracle, nontrivial=nt)],
            quick=6000, thorough=200000, rule=RULE)
