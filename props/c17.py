"""C17 buffered readers and writers: exactly the bytes of the stream below, in order, however it is cut up."""
from lib.driver import Prop, Scenario, V, events

OP = {0: "open or connect", 1: "write result", 2: "flush", 3: "flush after a failure", 4: "read", 5: "read_exact", 6: "read_byte", 7: "read_until", 8: "read_line", 9: "a line kept by the caller", 17: "read_until", 18: "read_line"}
BROKEN_NET = ("net_rst", "accept_fail", "net_refuse")
BROKEN_WR = ("fs_write_err", "fs_enospc", "fs_notsup", "fs_open_err")
BROKEN_RD = ("fs_read_err", "fs_notsup", "fs_open_err")


def base(rng):
    return {"wp0": rng.choice([1, 1, 2, 4]), "wp1": rng.choice([1, 3, 10, 40]), "wp2": rng.choice([0, 3, 60, 1000, 4200]), "wp3": rng.choice([1, 10, 200, 5000, 9000]),
            "wp5": rng.choice([0, 0, 10]), "wp6": rng.choice([0, 20]), "wp7": rng.choice([31, 31, 1, 2, 4, 8, 16, 24, 23])}


def trim(c):
    # few enough calls per run
    per = min(c["wp2"] + 1, c["wp3"])
    if c["wp7"] == 4 or c["wp3"] == 1:
        per = 1
    while c["wp0"] * c["wp1"] * (c["wp2"] + 1) / per > 400 and c["wp1"] > 1:
        c["wp1"] //= 2
    while c["wp0"] * c["wp1"] * (c["wp2"] + 1) / per > 400 and c["wp2"] > 1:
        c["wp2"] //= 2
    return c


def net(rng):
    c = trim(dict(base(rng), wp4=0))
    for k in ("net_segment", "net_delay", "net_short_read", "net_short_write", "net_eagain", "epoll_eintr"):
        if rng.random() < 0.5:
            c[k] = rng.choice([20000, 200000, 700000])
    if rng.random() < 0.4:
        c["net_small_sndbuf"] = 800000
    if rng.random() < 0.3:
        c["net_rst"] = rng.choice([2000, 20000])
    return c


def file(rng):
    c = trim(dict(base(rng), wp4=1))
    for k in ("fs_eintr", "fs_delay", "work", "fs_short_read", "fs_short_write"):
        if rng.random() < 0.5:
            c[k] = rng.choice([20000, 200000, 700000])
    if rng.random() < 0.4:
        for k in ("fs_read_err", "fs_write_err", "fs_enospc", "fs_notsup", "fs_open_err"):
            if rng.random() < 0.3:
                c[k] = rng.choice([10000, 100000])
    return c


def oracle(res, cfg):
    f = res.faults.get
    wr_ok = not any(f(x) for x in (BROKEN_WR if cfg["wp4"] else BROKEN_NET))
    rd_ok = wr_ok and not any(f(x) for x in (BROKEN_RD if cfg["wp4"] else BROKEN_NET))
    wrote, end = {}, {}
    for t, tid, k, a, b, c in events(res):
        if k == 7:
            raise V("wrong-" + OP[b].replace(" ", "-"), "stream %d: %s does not agree with the bytes of the stream (%d)" % (a, OP[b], c))
        if k == 3:
            if c == 2 and wr_ok:
                raise V("write-error", "stream %d: writing failed without a fault" % a)
            wrote[a] = (b, c)
        if k == 4:
            end[a] = (b, c)
        if k == 8 and rd_ok and b in (0, 17, 18):
            raise V("cut-" + OP[b], "stream %d: %s stopped in the middle at offset %d without a fault" % (a, OP[b], c))
    if not events(res, 9):
        raise V("unfinished", "main did not finish")
    for s, (n, total) in end.items():
        if rd_ok and n != total:
            raise V("lost", "stream %d: %d bytes written and flushed, the reader saw the end after %d" % (s, total, n))
    if rd_ok and (len(end) != cfg["wp0"] or len(wrote) != cfg["wp0"]):
        raise V("unfinished", "not every stream was written and read")


nt = lambda r, c: r.stat.get("switches", 0) > 10 and len(r.events) > 8
RULE = "Each run draws 1-4 streams of lines (lengths around and above the buffer size, both line endings, unterminated last line), chunk sizes of the buffered writer and its flushes, the mix of reading calls, pauses and collections, over TCP (segmentation, delay, short reads and writes, full send buffers, resets) or over files (short, interrupted, failing reads and writes, full disk). Non-trivial: more than 10 context switches and more than 8 history events."
PROP = Prop("C17", [Scenario("net", "buf", net, oracle, nontrivial=nt), Scenario("file", "buf", file, oracle, nontrivial=nt)], quick=5000, thorough=150000, rule=RULE)
