"""C12 UDP: a received datagram is a whole datagram some socket sent here; nothing is lost, repeated or reordered by the program itself."""
from lib.driver import Prop, Scenario, V, events


def base(rng):
    return {"wp0": rng.choice([1, 2, 3, 5]), "wp1": rng.choice([1, 2, 4, 6]), "wp2": rng.choice([1, 4, 12]), "wp3": rng.choice([0, 20, 1400]),
            "wp4": rng.choice([0, 30, 80]), "wp5": rng.choice([0, 0, 15]), "wp6": rng.choice([0, 0, 1])}


def lossy(rng):
    c = base(rng)
    for k in ("udp_loss", "udp_dup", "udp_delay", "udp_sendfail", "sock_fail", "epoll_eintr"):
        if rng.random() < 0.5:
            c[k] = rng.choice([10000, 100000, 400000])
    return c


def oracle(res, cfg):
    f = res.faults.get
    sent, ok, got, order, closed_at, empty, egot = {}, {}, {}, {}, None, {}, {}
    for t, tid, k, a, b, c in events(res):
        if k == 3:
            raise V("corrupt", "socket %d received a datagram nobody sent (%d, %d)" % (a, b, c))
        if k == 1:
            sent[a] = (b // 100, b % 100)
            if c:
                empty[a] = b
        if k == 7:
            egot[b] = egot.get(b, 0) + 1
            if egot[b] > sum(1 for w in empty.values() if w == b) and not f("udp_dup"):
                raise V("empty", "socket %d received an empty datagram from port %d that was not sent" % (a, 7000 + b // 100))
        if k == 8:
            closed_at = t
        if k == 4:
            if c == 3:
                raise V("short-send", "datagram %d was reported as partly sent" % a)
            if c == 2 and not f("udp_sendfail") and not cfg["wp6"]:
                raise V("send-error", "sending datagram %d failed without a fault" % a)
            ok[a] = c
        if k == 2:
            if a not in sent or sent[a][1] != b:
                raise V("misdelivered", "socket %d received datagram %d, which was not sent to it" % (b, a))
            if c != 7000 + sent[a][0]:
                raise V("sender", "datagram %d from port %d is reported as coming from port %d" % (a, 7000 + sent[a][0], c))
            got[a] = got.get(a, 0) + 1
            if got[a] > 1 and not f("udp_dup"):
                raise V("duplicate", "datagram %d was received twice" % a)
            if not (f("udp_dup") or f("udp_delay")):
                key = (a // 1000, sent[a][1])
                if order.get(key, 0) > a:
                    raise V("reordered", "datagram %d of one sender was received after datagram %d" % (a, order[key]))
                order[key] = a
        if k == 6:
            if b in (2, 3) or (b in (4, 5) and not f("sock_fail")):
                raise V("socket%d" % b, {2: "a second socket was bound to a port in use", 3: "a closed socket accepted a datagram for sending", 4: "binding a free port failed", 5: "the port of a closed socket could not be bound again"}[b])
        if k == 21 and b > a:
            raise V("leak", "%d descriptors open before the first socket, %d after the last one closed" % (a, b))
    if not events(res, 9):
        raise V("unfinished", "main did not finish")
    if not cfg["wp6"] and not f("udp_loss"):
        eok = {}
        for a, st in ok.items():
            if st == 1 and a in empty:
                eok[empty[a]] = eok.get(empty[a], 0) + 1
            elif st == 1 and a not in got:
                raise V("lost", "datagram %d was sent and never received" % a)
        for w, n in eok.items():
            if egot.get(w, 0) < n:
                raise V("lost", "%d empty datagrams were sent from socket %d to socket %d, %d were received" % (n, w // 100, w % 100, egot.get(w, 0)))


nt = lambda r, c: r.stat.get("switches", 0) > 20 and len(r.events) > 5
RULE = "Each run draws sockets, senders, datagrams, sizes (empty to 60000 bytes), sleeps, collections, whether sockets close while in use, bind and close stories, and (lossy scenario) rates of network loss, duplication, delay, send failure and socket failure. Non-trivial: more than 20 context switches and more than 5 history events."
PROP = Prop("C12", [Scenario("clean", "udp", base, oracle, nontrivial=nt), Scenario("lossy", "udp", lossy, oracle, nontrivial=nt)], quick=8000, thorough=200000, rule=RULE)
