"""C13 HTTP server: every request is answered from exactly what was sent, however it is cut up and whatever other clients do."""
from lib.driver import Prop, Scenario, V, events

WHY = {1: "no end of headers", 2: "wrong status", 3: "wrong length header", 4: "wrong body", 5: "body cut short"}


def base(rng):
    return {"wp0": rng.choice([1, 2, 4, 7]), "wp1": rng.choice([0, 20, 800, 6000, 14000]), "wp2": rng.choice([0, 3, 12, 40]), "wp3": rng.choice([5, 60, 900, 20000]),
            "wp4": rng.choice([0, 40]), "wp5": rng.choice([0, 0, 20]), "wp6": rng.choice([0, 30, 70]), "wp7": rng.choice([0, 0, 0, 1])}


def cfg(rng):
    c = base(rng)
    for k in ("net_segment", "net_delay", "net_short_read", "net_short_write", "net_eagain", "epoll_eintr"):
        if rng.random() < 0.4:
            c[k] = rng.choice([20000, 200000, 600000])
    if rng.random() < 0.3:
        c["net_small_sndbuf"] = 600000
    return c


def lossy(rng):
    c = cfg(rng)
    for k in ("net_rst", "accept_fail", "net_refuse"):
        if rng.random() < 0.5:
            c[k] = rng.choice([5000, 50000, 200000])
    return c


def oracle(res, cfg):
    broken = any(res.faults.get(k) for k in ("net_rst", "accept_fail", "net_refuse")) or cfg["wp7"]
    kind, handled, answered = {}, {}, {}
    for t, tid, k, a, b, c in events(res):
        if k == 1:
            kind[a] = b
        if k == 3:
            handled[a] = handled.get(a, 0) + 1
            if handled[a] > 1:
                raise V("handled-twice", "the handler ran twice for request %d" % a)
            if a not in kind or kind[a] in (1, 2):
                raise V("phantom", "the handler ran for a request nobody completed (%d)" % a)
        if k == 2:
            answered[a] = b
            if b == 2 and (kind[a] == 0 or kind[a] == 4 and c not in (1, 5)) and not (broken and c in (1, 5)):
                raise V("answer%d" % c, "request %d was answered wrongly: %s" % (a, WHY[c]))
            if b == 3 and not broken and (a not in kind or kind[a] == 0):
                raise V("no-answer", "request %d got no answer" % a)
        if k == 4 and b == 2:
            raise V("listen", "listening failed")
        if k == 21 and b > a:
            raise V("leak", "%d descriptors open before the server started, %d after it closed" % (a, b))
    if not events(res, 9):
        raise V("unfinished", "main did not finish")


nt = lambda r, c: r.stat.get("switches", 0) > 20 and len(r.events) > 4
RULE = "Each run draws 1-7 clients, request shapes (method, path, query, headers, plain or chunked body), the pieces requests are sent in, handler delays and collections, rude clients (leave half way, not HTTP, too many headers, second request behind the first), server close while busy, and network fault rates. Non-trivial: more than 20 context switches and more than 4 history events."
PROP = Prop("C13", [Scenario("clean", "http", cfg, oracle, weight=2, nontrivial=nt), Scenario("lossy", "http", lossy, oracle, nontrivial=nt)], quick=3000, thorough=100000, rule=RULE)
