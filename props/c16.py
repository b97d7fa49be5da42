"""C16 child processes: output and exit status arrive complete, every waiter returns, nothing stays behind."""
from lib.driver import Prop, Scenario, V, events


def base(rng):
    return {"wp0": rng.choice([1, 1, 2, 4]), "wp1": rng.choice([1, 3, 6]), "wp2": rng.choice([0, 10, 1500, 5000]), "wp3": rng.choice([0, 20, 60]), "wp4": rng.choice([0, 20, 50]), "wp5": rng.choice([255, 255, 255, 3, 2, 4, 65, 129])}


def cfg(rng):
    c = base(rng)
    for k in ("child_delay", "child_segment", "sig_delay", "net_short_read", "net_short_write", "net_segment", "net_eagain", "epoll_eintr", "epoll_order"):
        if rng.random() < 0.5:
            c[k] = rng.choice([20000, 200000, 600000])
    return c


def faulty(rng):
    c = cfg(rng)
    if rng.random() < 0.7:
        c["spawn_fail"] = rng.choice([50000, 300000])
    if rng.random() < 0.7:
        c["child_kill"] = rng.choice([5000, 50000])
    return c


def oracle(res, cfg):
    f = res.faults.get
    kind, out, end, want, start = {}, {}, {}, {}, {}
    for t, tid, k, a, b, c in events(res):
        if k == 1:
            kind[a] = b
        if k == 7:
            raise V("wrong:%d" % b, "job %d: %s" % (a, {1: "a program that does not exist was started", 2: "a started process has no id", 3: "unrelated memory changed", 90: "output was delivered after the wait had returned"}.get(b, b)))
        if k == 4:
            if not f("spawn_fail"):
                raise V("no-start", "job %d could not start its program, without a fault" % a)
            start[a] = 0
        if k == 3:
            out.setdefault(a, []).append((b, c))
        if k == 2:
            end[a] = (b, c)
        if k == 8 and kind[a] == 6:
            out.setdefault(a, [])
            end.setdefault(a, (b, c))
        if k == 5:
            if a in want and want[a] != (b, c) and end[a] != (b, c):
                raise V("status-changed", "job %d: exit status %s, asked again %s" % (a, end[a], (b, c)))
            want.setdefault(a, (b, c))
        if k == 21:
            if c:
                raise V("not-reaped", "%d processes are still unreaped at the end" % c)
            if b > a:
                raise V("leak", "%d descriptors at the start, %d at the end" % (a, b))
    if not events(res, 9):
        raise V("unfinished", "main did not finish")
    killed = 0
    for a, e in end.items():
        if a not in want:
            continue
        k9 = e == (0, 9)
        if k9 and want[a] != e:
            killed += 1
        elif e != want[a]:
            raise V("status", "job %d (kind %d): exit status %d signal %d reported, %d/%d expected" % (a, kind[a], e[0], e[1], want[a][0], want[a][1]))
        for s, r in out.get(a, ()):
            if r == -1 or (r == 1 and not k9):
                raise V("output", "job %d (kind %d): stream %d %s" % (a, kind[a], s, "differs from what the program wrote" if r == -1 else "is incomplete although the wait returned"))
    if killed > f("child_kill", 0):
        raise V("status", "%d jobs report a kill, %d programs were killed" % (killed, f("child_kill", 0)))
    for a in kind:
        if a not in end and a not in start:
            raise V("unfinished", "job %d (kind %d) did not end" % (a, kind[a]))


nt = lambda r, c: r.stat.get("switches", 0) > 10 and len(r.events) > 6
RULE = "Each run draws 1-4 coroutines with 1-6 jobs each (captured run, missing program, input copied back, program that stops reading, closes its outputs, prints arguments, environment and directory, several waiters, nobody waiting), amounts of data, pauses and collections, and rates of delays and cuts in the program's output, late signals, short and full pipes, plus (faulty) failing starts and killed programs. Non-trivial: more than 10 context switches and more than 6 history events."
PROP = Prop("C16", [Scenario("clean", "proc", cfg, oracle, nontrivial=nt), Scenario("faulty", "proc", faulty, oracle, nontrivial=nt)], quick=4000, thorough=150000, rule=RULE)
