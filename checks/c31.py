#!/usr/bin/env python3
"""C31: the real channel code run by real threads under a controlled scheduler: every class of equivalent schedules (dynamic partial-order reduction) of every small set of channel scripts, each execution watched for data races, use of freed memory and deadlock; the outcomes reached must be exactly those of an abstract bounded queue, whose states are all explored too."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from msched import *
def model(caps, scripts, fill=0):
    """All outcomes of the scripts over abstract channels: a channel is a queue of at most cap values and a closed flag."""
    caps = [max(1, x) for x in caps]; seen = set(); outs = set(); states = 0
    start = (tuple(tuple(-i for i in range(1, fill + 1)) for _ in caps), tuple(False for _ in caps), tuple(0 for _ in scripts), tuple(() for _ in scripts))
    todo = [start]; seen.add(start)
    while todo:
        q, cl, pc, res = todo.pop(); states += 1; moved = False
        for t, sc in enumerate(scripts):
            if pc[t] == len(sc): continue
            op, ch, v = sc[pc[t]]; Q = q[ch]; nq, ncl = q, cl
            if op == "s":
                if cl[ch]: r = "s"
                elif len(Q) < caps[ch]: r = "s"; nq = q[:ch] + (Q + (v,),) + q[ch + 1:]
                else: continue
            elif op == "r":
                if Q: r = "r %d" % Q[0]; nq = q[:ch] + (Q[1:],) + q[ch + 1:]
                elif cl[ch]: r = "r 0"
                else: continue
            elif op == "t":
                if not cl[ch] and len(Q) < caps[ch]: r = "t 1"; nq = q[:ch] + (Q + (v,),) + q[ch + 1:]
                else: r = "t 0"
            elif op == "y":
                if Q: r = "y %d 1" % Q[0]; nq = q[:ch] + (Q[1:],) + q[ch + 1:]
                else: r = "y 0 0"
            else: r = "c"; ncl = cl[:ch] + (True,) + cl[ch + 1:]
            moved = True
            n = (nq, ncl, pc[:t] + (pc[t] + 1,) + pc[t + 1:], res[:t] + (res[t] + (r,),) + res[t + 1:])
            if n not in seen: seen.add(n); todo.append(n)
        if not moved:
            lines = ["%d.%d %s" % (t, k, r) for t, rs in enumerate(res) for k, r in enumerate(rs)]
            bl = [t for t in range(len(scripts)) if pc[t] < len(scripts[t])]
            outs.add(tuple(sorted(lines)) + (("BLOCKED",) + tuple(bl) if bl else ("end",)))
    return outs, states
def number(shape):
    """Gives every send a value of its own."""
    n = itertools.count(1)
    return tuple(tuple((o, ch, next(n) * 0x100000001 if o in "st" else None) for o, ch in sc) for sc in shape)
def words(sc): return " ".join("%s%d%s" % (o, ch, ":%d" % v if v is not None else "") for o, ch, v in sc)
def canon(o, n):
    lines = [l for l in o["lines"] if l[:1].isdigit()]; rest = [l for l in o["lines"] if not l[:1].isdigit()]
    dl = [l for l in rest if l.startswith("DEADLOCK")]
    if dl:
        b = dict(x.split(":") for x in dl[0].split()[1:]); bl = [int(t) for t, k in b.items() if k == "resume"]
        if any(k not in ("resume", "join") for k in b.values()): return tuple(sorted(lines)) + ("STUCK " + dl[0],)
        return tuple(sorted(lines)) + ("BLOCKED",) + tuple(sorted(bl))
    return tuple(sorted(lines)) + tuple(rest)
def body(c):
    c.rule = "one evaluation = one execution of the real code under one schedule class; distinct = distinct (scripts, schedule)"
    S = Sched(c); exe = S.build_c(os.path.join(VERIF, "lib/c/chan_main.c"), "chan"); states = [0]; cut = [0]; maxlen = [0]
    def scenario(a):
        part, caps, shape, env = a[:4]; fill = a[4] if len(a) > 4 else 0
        if c.expired(10) or c.too_many(): return
        sc = number(shape); want, ns = model(caps, sc, fill)
        st, outs = S.explore(exe, [",".join("%d*%d" % (x, fill) if fill else str(x) for x in caps)] + [words(x) for x in sc], env=env, limit=60000 if c.thorough else 20000, timeout=300)
        c.count(part, st["execs"] - st["blocked"]); states[0] += ns; cut[0] += st["cut"]; maxlen[0] = max(maxlen[0], st["maxlen"])
        def bad(what, o=None): c.violation(part, "capacities %s%s, threads %s: %s" % (caps, " holding %d" % fill if fill else "", " | ".join(words(x) for x in sc), what), {"caps": caps, "scripts": [words(x) for x in sc], "schedule": o["sched"] if o else None, "env": env})
        got = {}
        for o in outs:
            if o["bad"]: bad("%s (outcome %s)" % ("; ".join(o["bad"][:3]), o["lines"]), o); return
            if o["status"] not in (0, 77): bad("status %s %s" % (o["status"], o["lines"]), o); return
            k = canon(o, len(sc)); got[k] = o
        extra = [k for k in got if k not in want]
        if extra: bad("outcome %s is not one of the abstract channel (%d outcomes)" % (list(extra[0]), len(want)), got[extra[0]]); return
        if st["over"]: bad("an execution does not end"); return
        miss = [k for k in want if k not in got]
        if miss and not st["cut"]: bad("the outcome %s of the abstract channel is never reached" % (list(miss[0]),))
    J = []
    A1 = [((o, 0),) for o in "srtyc"]; A2 = [(a[0], b[0]) for a in A1 for b in A1]; A3 = [a + b for a in A2 for b in A1]
    def pairs(X, Y): return list(itertools.combinations_with_replacement(X, 2)) if X is Y else list(itertools.product(X, Y))
    T2 = A1 + A2
    for cap in (1, 2): J += [("two threads", (cap,), p, {}) for p in pairs(T2, T2)]
    J += [("spurious wake-ups", (1,), p, {"MS_SPUR": "1"}) for p in pairs(T2, T2) if any(o in "sr" for s in p for o, _ in s)]
    J += [("odd capacities", (cap,), p, {}) for cap in (0, -1, -2**63) for p in pairs(A2, A1)]
    for cap in (1, 2): J += [("three threads", (cap,), p, {}) for p in itertools.combinations_with_replacement(A1, 3)] + [("three threads", (cap,), (x,) + p, {}) for x in A2 for p in itertools.combinations_with_replacement(A1, 2)]
    # blocking operations only, longer: every distribution of sends, receives and closes
    B = [((o, 0),) for o in "src"]
    L3 = [a + b + d for a in B for b in B for d in B]
    J += [("long scripts", (cap,), p, {}) for cap in ((1, 2, 3) if c.thorough else (1, 2)) for p in pairs(L3, L3) if not all(o == "c" for o, _ in p[0])]
    # two channels
    D = [((o, k),) for o in "src" for k in (0, 1)]; D2 = [a + b for a in D for b in D]
    J += [("two channels", (1, 1), p, {}) for p in pairs(D2, D2)]
    # four threads: senders, receivers, closers
    J += [("four threads", (1,), p, {}) for p in itertools.combinations_with_replacement(B, 4)]
    # channels that already hold values, so that several threads can be blocked at once
    for cap, fill in ((1, 1), (2, 2), (2, 1)) if not c.thorough else ((1, 1), (2, 1), (2, 2), (3, 3)):
        J += [("prefilled", (cap,), p + (x,), {}, fill) for p in itertools.combinations_with_replacement(A1 if c.thorough else (A1[0], A1[2]), 2) for x in A2]
    J += [("nobody to wait for", (1,), p + (x,), {}) for p in itertools.combinations_with_replacement((A1[1],), 2) for x in A2]
    if c.thorough:
        J += [("three threads of two", (1,), p, {}) for p in itertools.combinations_with_replacement([a + b for a in B for b in B], 3)]
        J += [("three by one", (cap,), p, {}) for cap in (1, 2) for p in pairs(A3, A2)]
        J += [("five threads", (1,), p, {}) for p in itertools.combinations_with_replacement(B[:2], 5)]
        J += [("spurious, three threads", (1,), p, {"MS_SPUR": "1"}) for p in itertools.combinations_with_replacement(A1, 3)]
    # ---- the same through a compiled program: values sent, received and returned by the language's own calls
    gx = S.tc.must_compile(open(os.path.join(VERIF, "lib/c/chan_driver.gray")).read())
    NUM = {"r": 10, "y": 11, "c": 12}
    def gray(a):
        cap, shape = a
        if c.expired(10) or c.too_many(): return
        sc = number(shape); n = itertools.count(1)
        # small values: the driver packs a script into one number
        val = itertools.count(1); sc = tuple(tuple((o, ch, next(val) if v is not None else None) for o, ch, v in s) for s in sc)
        def code(i, s):
            k = 0
            for o, ch, v in reversed(s): k = k * 32 + (v if o == "s" else 20 + v if o == "t" else NUM[o])
            return str(k * 10 + i)
        want, ns = model((cap,), sc); name = {"s": "send", "r": "receive", "t": "try_send", "y": "try_receive", "c": "close"}
        def rend(l):
            h, op, *r = l.split(" ")
            t, k = map(int, h.split(".")); v = sc[t][k][2]
            if op == "s": r = [str(v)]
            elif op == "t": r = [str(v), "true" if r[0] == "1" else "false"]
            elif op == "y": r[1] = "true" if r[1] == "1" else "false"
            return " ".join([h, name[op]] + r)
        W = {tuple(sorted(rend(l) for l in w if l and isinstance(l, str) and l[0].isdigit())) + tuple(x for x in w if not (isinstance(x, str) and x[:1].isdigit())) for w in want}
        st, outs = S.explore(gx, [str(cap)] + [code(i, s) for i, s in enumerate(sc)], limit=1500, timeout=300); c.count("compiled program", st["execs"] - st["blocked"]); states[0] += ns
        def bad(what, o): c.violation("compiled program", "capacity %d, threads %s: %s" % (cap, " | ".join(words(x) for x in sc), what), {"cap": cap, "scripts": [words(x) for x in sc], "schedule": o["sched"]})
        for o in outs:
            if o["bad"]: bad("; ".join(o["bad"][:3]), o); return
            k = canon(o, len(sc))
            if "BLOCKED" in k: i = k.index("BLOCKED"); k = k[:i + 1] + tuple(t - 1 for t in k[i + 1:])   # here thread 0 of the process only joins
            if k not in W: bad("outcome %s, not one of %d" % (list(k), len(W)), o); return
        if not st["cut"] and len({canon(o, 2) for o in outs}) != len(W): bad("%d outcomes instead of %d" % (len(outs), len(W)), outs[0])
    GJ = [(cap, p) for cap in (1, 2) for p in pairs(A1, A1)] + [(1, p) for p in pairs(A2, A1)] + [(2, (a,)) for a in A3[:: 1 if c.thorough else 2]]
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(gray, GJ)); list(ex.map(scenario, J))
    c.sample({"scenarios": len(J) + len(GJ), "model_states": states[0], "explorations_cut": cut[0], "longest_execution": maxlen[0]})
if __name__ == "__main__": main("C31", body, level="exploration", quick_s=240, thorough_s=840)
