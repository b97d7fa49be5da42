"""Linearizability search (Wing & Gong with memoisation) for one bounded channel."""
import sys

sys.setrecursionlimit(10000)
SEND, TRYSEND, RECV, TRYRECV, CLOSE, ISCLOSED = 1, 2, 3, 4, 5, 6
OK, FALSE, ERR = 0, 1, 2


class Op:
    __slots__ = ("id", "op", "val", "res", "out", "inv", "ret", "chosen_on")

    def __repr__(self):
        return "%s(%s)@%s..%s=%s,%s" % ({1: "send", 2: "try_send", 3: "recv", 4: "try_recv", 5: "close", 6: "is_closed"}[self.op], self.val, self.inv, self.ret, self.res, self.out)


def ops_from(events, INV=1, RET=2):
    ops = {}
    for n, (t, tid, k, a, b, c) in enumerate(events):
        if k == INV:
            o = Op()
            o.id, o.op, o.val, o.inv, o.ret, o.res, o.out = a, b, c, n, None, None, None
            ops[a] = o
        elif k == RET:
            o = ops[a]
            o.ret, o.res, o.out = n, b, c
    return list(ops.values())


def check_channel(ops, cap, limit=400000):
    """True / False / None (search limit hit). All ops must have returned."""
    ops = sorted(ops, key=lambda o: o.inv)
    n = len(ops)
    inf = 1 << 60
    full = (1 << n) - 1
    seen = set()
    budget = [limit]

    def rec(done, q, closed):
        # iterative DFS
        stack = [(done, q, closed)]
        while stack:
            done, q, closed = stack.pop()
            if done == full:
                return True
            st = (done, q, closed)
            if st in seen:
                continue
            seen.add(st)
            budget[0] -= 1
            if budget[0] < 0:
                return None
            # minimal ops: invoked before the earliest return among the remaining
            mr = inf
            for i in range(n):
                if not done >> i & 1:
                    r = ops[i].ret
                    if r < mr:
                        mr = r
                    if ops[i].inv > mr:
                        break
            cand = []
            for i in range(n):
                if done >> i & 1:
                    continue
                if ops[i].inv > mr:
                    break
                cand.append(i)
            nxt = []
            for i in cand:
                o = ops[i]
                d = done | 1 << i
                if o.op in (SEND, TRYSEND):
                    if o.res == OK:
                        if closed:
                            continue
                        if cap > 0:
                            if len(q) < cap:
                                nxt.append((d, q + (o.val,), closed))
                            # a blocked sender may also hand its value over directly: with a full queue the value
                            # enters the queue in the same step in which a receiver takes the head
                        else:
                            for j in cand:
                                r = ops[j]
                                if j != i and r.op in (RECV, TRYRECV) and r.res == OK and r.out == o.val:
                                    if o.op == TRYSEND and r.op == TRYRECV:
                                        continue
                                    nxt.append((d | 1 << j, q, closed))
                    elif o.res == FALSE:
                        if closed or o.op != TRYSEND:
                            continue
                        if cap > 0 and len(q) < cap:
                            continue
                        nxt.append((d, q, closed))
                    else:
                        if closed:
                            nxt.append((d, q, closed))
                elif o.op in (RECV, TRYRECV):
                    if o.res == OK:
                        if cap > 0 and q and q[0] == o.out:
                            nxt.append((d, q[1:], closed))
                    elif o.res == FALSE:
                        if o.op == TRYRECV and not q:
                            nxt.append((d, q, closed))
                    else:
                        if closed and not q:
                            nxt.append((d, q, closed))
                elif o.op == CLOSE:
                    if o.res == OK and not closed:
                        nxt.append((d, q, True))
                    elif o.res == ERR and closed:
                        nxt.append((d, q, closed))
                elif o.op == ISCLOSED:
                    if bool(o.res) == closed:
                        nxt.append((d, q, closed))
            stack.extend(nxt)
        return False

    return rec(0, (), False)
