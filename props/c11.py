"""C11 TCP life cycle: connects, listens, timeouts and closes end as promised and give their sockets back."""
from lib.driver import Prop, Scenario, V, events
from lib.simrun import calm_sched

STORY = ["connect to a port nobody listens on", "connect with a timeout to a host that does not answer", "listen on a port in use", "read with a timeout",
         "close during reads and writes", "close of a server", "write to a connection the peer closed", "repeated connect and close", "close during reads and writes"]
LATE_MS = 400


def base(rng):
    return {"wp0": rng.choice([1, 1, 2, 4, 7]), "wp1": rng.choice([511, 511, 511, 1 << rng.randrange(9), 0b110110000, 0b010101000]), "wp2": 0, "wp3": rng.choice([0, 20, 60])}


def cfg(rng):
    c = base(rng)
    for k in ("net_segment", "net_delay", "net_short_read", "net_short_write", "net_eagain", "epoll_eintr"):
        if rng.random() < 0.4:
            c[k] = rng.choice([20000, 200000, 700000])
    if rng.random() < 0.4:
        c["net_small_sndbuf"] = 800000
    return c


def lossy(rng):
    c = cfg(rng)
    c["wp2"] = 1
    for k in ("net_rst", "accept_fail", "net_refuse", "sock_fail"):
        if rng.random() < 0.5:
            c[k] = rng.choice([20000, 200000, 500000])
    return c


def common(res, cfg, strict):
    for t, tid, k, a, b, c in events(res):
        if k == 20 and c != 1 and strict:
            raise V("story%d-%d" % (b, c), "%s: outcome %d" % (STORY[b], c))
        if k == 22 and c < (b - 1) * 1000000:
            raise V("early", "a timeout of %d ms fired after %.3f ms" % (b, c / 1e6))
        if k == 21 and b > a:
            raise V("leak", "%d descriptors open before the first connection, %d after the last one closed" % (a, b))
    if not events(res, 9):
        raise V("unfinished", "main did not finish")


def oracle(res, cfg):
    common(res, cfg, True)


def lossy_oracle(res, cfg):
    for t, tid, k, a, b, c in events(res, 20):
        if (b, c) in ((0, 2), (1, 2), (2, 2), (3, 5), (3, 6), (4, 2), (6, 2), (5, 2), (5, 5)):
            raise V("story%d-%d" % (b, c), "%s: outcome %d" % (STORY[b], c))
    common(res, cfg, False)


def calm(res, cfg):
    oracle(res, cfg)
    for t, tid, k, a, b, c in events(res, 22):
        if c > (b + LATE_MS) * 1000000:
            raise V("late", "a timeout of %d ms fired after %.3f ms on an idle machine" % (b, c / 1e6))


nt = lambda r, c: r.stat.get("switches", 0) > 20 and len(r.events) > 3
RULE = "Each run draws 1-7 concurrent connection stories (refused connect, unanswered connect with a timeout, second listen on one port, read timeout, close against blocked reads and writes, server close with waiting accepts and unaccepted connections, write to a closed peer, churn), their delays and collections, and network fault rates. Non-trivial: more than 20 context switches and more than 3 history events."
PROP = Prop("C11", [Scenario("clean", "tcpl", cfg, oracle, weight=2, nontrivial=nt), Scenario("lossy", "tcpl", lossy, lossy_oracle, nontrivial=nt),
                    Scenario("calm", "tcpl", base, calm, nontrivial=nt, sched=calm_sched)],
            quick=6000, thorough=200000, rule=RULE)
