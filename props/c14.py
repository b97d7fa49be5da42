"""C14 HTTP client: what it reports is what the server sent, complete or an error; names resolve to what the resolver said."""
from lib.driver import Prop, Scenario, V, events
from lib.simrun import calm_sched

REQ = {1: "request line", 2: "host", 3: "header", 4: "body", 9: "framing"}
ANS = {1: "status", 2: "reason", 3: "header", 4: "length", 5: "body cut short", 6: "body"}
BROKEN = ("net_rst", "accept_fail", "net_refuse", "dns_fail")


def base(rng):
    return {"wp0": rng.choice([1, 2, 4, 6]), "wp1": rng.choice([1, 3, 6]), "wp2": rng.choice([0, 30, 900, 5000, 12000]), "wp3": rng.choice([5, 60, 900, 20000]),
            "wp4": rng.choice([0, 0, 40]), "wp5": rng.choice([0, 0, 20, 60]), "wp6": 0, "wp7": rng.choice([0, 0, 300]), "wp8": rng.choice([0, 0, 20]), "wp9": rng.choice([0, 1, 2]),
            "dns_delay": rng.choice([0, 300000])}


def net(rng, c):
    for k in ("net_segment", "net_delay", "net_short_read", "net_short_write", "net_eagain", "epoll_eintr"):
        if rng.random() < 0.4:
            c[k] = rng.choice([20000, 200000, 600000])
    if rng.random() < 0.3:
        c["net_small_sndbuf"] = 600000
    return c


def plain(rng):
    return net(rng, base(rng))


def slow(rng):
    return net(rng, dict(base(rng), wp6=rng.choice([30, 70]), wp7=rng.choice([20, 100, 300])))


def lossy(rng):
    c = plain(rng)
    for k in BROKEN:
        if rng.random() < 0.5:
            c[k] = rng.choice([5000, 50000, 200000])
    return c


def oracle(calm):
    def check(res, cfg):
        broken = any(res.faults.get(k) for k in BROKEN)
        plan, out = {}, {}
        why, stalled = {}, {}
        for t, tid, k, a, b, c in events(res):
            if k == 1:
                plan[a] = c
            if k == 2 and b == 2:
                raise V("request-%s" % REQ[c].replace(" ", "-"), "the server got request %d with the wrong %s" % (a, REQ[c]))
            if k == 5:
                why[a] = (b, c)
                if b == 1 and cfg["wp7"] == 0:
                    raise V("timeout-unasked", "request %d timed out without a limit" % a)
                if b == 1 and c < cfg["wp7"] - 2:
                    raise V("timeout-early", "request %d gave up after %d ms, the limit is %d ms" % (a, c, cfg["wp7"]))
                if calm and a in stalled and t - stalled[a] > (2 * cfg["wp7"] + 280) * 1000000:
                    raise V("timeout-missed", "the client still waited %d ms after the server stalled, the limit is %d ms" % ((t - stalled[a]) / 1000000, cfg["wp7"]))
            if k == 10:
                stalled[a] = t
            if k == 4:
                out[a] = b
                if b == 2:
                    raise V("answer-%s" % ANS[c].replace(" ", "-"), "request %d: the answer was reported with the wrong %s" % (a, ANS[c]))
                late = cfg["wp7"] and why.get(a, (0, 0))[1] >= cfg["wp7"] - 2
                if b == 3 and plan[a] == 0 and not broken and not cfg["wp8"] and not late:
                    raise V("error", "request %d failed without a fault" % a)
            if k == 6 and b != 0:
                raise V("request-extra", "the server got %d more bytes behind request %d" % (b, a))
            if k == 7:
                if b == 2:
                    raise V("lookup", "lookup %d returned something else than the resolver gave (%d)" % (a, c))
                if b == 3 and not broken:
                    raise V("lookup-error", "lookup %d failed without a fault" % a)
            if k == 21 and b > a:
                raise V("leak", "%d descriptors open before, %d after every request was closed or had failed" % (a, b))
        if not events(res, 9):
            raise V("unfinished", "main did not finish")
        if set(plan) != set(out):
            raise V("unfinished", "a request got neither an answer nor an error")
    return check


nt = lambda r, c: r.stat.get("switches", 0) > 20 and len(r.events) > 4
RULE = "Each run draws 1-6 clients with 1-6 requests or name lookups each: method, address, headers, body; answers with a length or in chunks (extensions, trailers, any case of header names), written in pieces, complete, broken off at any byte or stalled; time limits; ways of reading the body; collections; network and resolver faults. Non-trivial: more than 20 context switches and more than 4 history events."
PROP = Prop("C14", [Scenario("plain", "httpc", plain, oracle(False), weight=2, nontrivial=nt), Scenario("slow", "httpc", slow, oracle(True), nontrivial=nt, sched=calm_sched),
                    Scenario("lossy", "httpc", lossy, oracle(False), nontrivial=nt)], quick=3000, thorough=100000, rule=RULE)
