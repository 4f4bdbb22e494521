#!/usr/bin/env python3
"""C33: the real mutexes and spinlocks under a controlled scheduler: every class of equivalent schedules of every small set of lock scripts, whose outcomes must be exactly those of a model of locks, each execution watched for data races on the cells the locks guard, freed memory and lost memory; and language-level programs sharing data under locks."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from msched import *
def model(scripts):
    """All outcomes of the scripts: what each try and each look at a cell gave, the final cells, and the threads left waiting."""
    n = len(scripts); start = ((None,) * 8, (0,) * 8, (0,) * n, ((),) * n, tuple(frozenset() for _ in range(n)))
    seen = {start}; todo = [start]; outs = set()
    while todo:
        own, cell, pc, res, held = todo.pop(); moved = False
        for t, sc in enumerate(scripts):
            if pc[t] == len(sc): continue
            op, c = sc[pc[t]]; no, nc, r, h = own, cell, None, held[t]
            if op == "l":
                if own[c] is not None: continue
                no = own[:c] + (t,) + own[c + 1:]; h = h | {c}
            elif op == "t":
                if own[c] is None: no = own[:c] + (t,) + own[c + 1:]; h = h | {c}; r = "t 1"
                else: h = h - {c}; r = "t 0"
            elif op == "u":
                if c in h: no = own[:c] + (None,) + own[c + 1:]; h = h - {c}
            elif op == "i":
                if c in h: nc = cell[:c] + (cell[c] + 1,) + cell[c + 1:]; r = "i %d" % nc[c]
            moved = True
            s = (no, nc, pc[:t] + (pc[t] + 1,) + pc[t + 1:], res[:t] + (res[t] + (("%d.%d %s" % (t, pc[t], r),) if r else ()),) + res[t + 1:], held[:t] + (h,) + held[t + 1:])
            if s not in seen: seen.add(s); todo.append(s)
        if not moved:
            bl = [t for t in range(n) if pc[t] < len(scripts[t])]; ls = sorted(x for rs in res for x in rs)
            outs.add(tuple(ls) + (("BLOCKED",) + tuple(bl) if bl else ("cells %d %d %d %d" % cell[:4],)))
    return outs, len(seen)
def words(sc): return " ".join("%s%d" % x for x in sc)
def canon(o):
    lines = sorted(l for l in o["lines"] if l[:1].isdigit()); rest = [l for l in o["lines"] if not l[:1].isdigit()]
    dl = [l for l in rest if l.startswith("DEADLOCK")]
    if dl:
        b = dict(x.split(":") for x in dl[0].split()[1:] if ":" in x)
        if any(k not in ("lock", "spinlock", "join") for k in b.values()): return tuple(lines) + (dl[0],)
        return tuple(lines) + ("BLOCKED",) + tuple(sorted(int(t) for t, k in b.items() if k != "join"))
    return tuple(lines) + tuple(rest)
def sec(kind, c, inner=()): return ((kind, c), ("i", c)) + tuple(inner) + (("u", c),)
P = '''import @threads
import @sync
import @atomic
%s
do main() {
%s    mut a = threads.spawn(()w, 1)
    mut b = threads.spawn(()w, 2)
    threads.join(a)
    threads.join(b)
%s}
'''
PROGS = [
 ("mutex guards a map, an array and text", P % ('''import @arrays
mut m sync.Mutex
mut t map[string:int] = {"x": 0}
mut ar [int] = {}
mut s string = ""
do w(n int) {
    for i in range(0, 2) {
        sync.lock(m)
        t["x"] = t["x"] + n
        arrays.append(ar, n)
        s = "${s}."
        sync.unlock(m)
    }
}''', "    m = sync.mutex()\n", '    println("${t["x"]} ${len(ar)} ${s}")\n    sync.destroy(m)\n'), {("6 4 ....",)}),
 ("spinlock guards a struct", P % ('''const S struct {
    a int
    b int
}
mut k atomic.SpinLock
mut s S = S{a: 0, b: 0}
do w(n int) {
    atomic.spin_lock(k)
    mut o = s.a
    s.a = o + n
    s.b = s.b + s.a - o
    atomic.spin_unlock(k)
}''', "    k = atomic.spinlock()\n", '    println("${s.a} ${s.b}")\n'), {("3 3",)}),
 ("try_lock", P % ('''mut m sync.Mutex
mut n2 int = 0
do w(n int) {
    if sync.try_lock(m) {
        n2 += n
        sync.unlock(m)
    } otherwise {
        sync.lock(m)
        n2 += 10 * n
        sync.unlock(m)
    }
}''', "    m = sync.mutex()\n", '    println("${n2}")\n    sync.destroy(m)\n'), {("3",), ("12",), ("21",)}),
 ("spin_trylock", P % ('''mut k atomic.SpinLock
mut n2 int = 0
do w(n int) {
    if atomic.spin_trylock(k) {
        n2 += n
        atomic.spin_unlock(k)
    } otherwise {
        atomic.spin_lock(k)
        n2 += 10 * n
        atomic.spin_unlock(k)
    }
}''', "    k = atomic.spinlock()\n", '    println("${n2}")\n'), {("3",), ("12",), ("21",)}),
 ("unlock by ensure on every way out", P % ('''mut m sync.Mutex
mut n2 int = 0
do leave() {
    sync.unlock(m)
}
do f(n int) -> int {
    sync.lock(m)
    ensure leave()
    n2 += 1
    if n == 1 {
        return n2 * 0 + 5
    }
    for i in range(0, 3) {
        if i == 1 {
            return n2 * 0 + 6
        }
    }
    return 0
}
mut r map[int:int] = {:}
do w(n int) {
    mut x = f(n)
    sync.lock(m)
    r[n] = x
    sync.unlock(m)
}''', "    m = sync.mutex()\n", '    println("${n2} ${r[1]} ${r[2]}")\n    sync.destroy(m)\n'), {("2 5 6",)}),
 ("lock handed over between two locks", P % ('''mut m sync.Mutex
mut k atomic.SpinLock
mut n2 int = 0
do w(n int) {
    sync.lock(m)
    atomic.spin_lock(k)
    n2 = n2 * 2 + n
    sync.unlock(m)
    n2 = n2 + 1
    atomic.spin_unlock(k)
}''', "    m = sync.mutex()\n    k = atomic.spinlock()\n", '    println("${n2}")\n    sync.destroy(m)\n'), {("7",), ("8",)}),
 ("a mutex passed by value is the same mutex", P % ('''mut m sync.Mutex
mut n2 int = 0
do add(x sync.Mutex, v int) {
    sync.lock(x)
    n2 += v
    sync.unlock(x)
}
do w(n int) {
    if n == 1 {
        add(m, n)
    } otherwise {
        mut y = m
        add(y, n)
    }
}''', "    m = sync.mutex()\n", '    println("${n2}")\n    sync.destroy(m)\n'), {("3",)}),
]
def body(c):
    c.rule = "one evaluation = one execution of the real code under one schedule class; distinct = distinct (scripts, schedule)"
    S = Sched(c); exe = S.build_c(os.path.join(VERIF, "lib/c/sync_main.c"), "sync"); states = [0]; cut = [0]; maxlen = [0]; want_n = [0]; lim = 60000 if c.thorough else 6000
    def scenario(a):
        part, sc = a
        if c.expired(10) or c.too_many(): return
        want, ns = model(sc); st, outs = S.explore(exe, [words(x) for x in sc], limit=lim, timeout=400)
        states[0] += ns; want_n[0] += len(want); c.count(part, st["execs"] - st["blocked"]); cut[0] += st["cut"]; maxlen[0] = max(maxlen[0], st["maxlen"])
        def bad(what, o): c.violation(part, "scripts %s: %s" % (" | ".join(words(x) for x in sc), what), {"scripts": [words(x) for x in sc], "schedule": o and o["sched"]})
        got = set()
        for o in outs:
            k = canon(o); got.add(k)
            if o["bad"]: bad("; ".join(o["bad"][:3]), o); return
            if k not in want: bad("outcome %s, which no order of lock operations gives" % (k,), o); return
            if "BLOCKED" not in k and (o["status"] or o["live"]): bad("status %s, %s blocks of memory never freed" % (o["status"], o["live"]), o); return
        if not st["cut"] and want - got: bad("outcome %s can never happen" % (sorted(want - got)[0],), None)
    J = []
    for m in (0, 1):
        one = [sec("l", m), sec("t", m), sec("l", m) + sec("l", m), sec("l", m) + sec("t", m), sec("t", m) + sec("l", m), sec("t", m) + sec("t", m)]
        J += [("one lock", x) for x in itertools.combinations_with_replacement(one, 2)]
        J += [("three threads", x) for x in itertools.combinations_with_replacement(one[:2] if not c.thorough else one[:4], 3)]
    for a, b in ((0, 2), (1, 3), (0, 1), (1, 0)):
        nest = [sec("l", a, sec("l", b)), sec("l", b, sec("l", a)), sec("l", a, sec("t", b)), sec("t", b, sec("l", a)), sec("t", a, sec("t", b)), sec("l", a) + sec("l", b), sec("l", b), sec("t", a)]
        hand = [(("l", a), ("i", a), ("l", b), ("i", b), ("u", a), ("u", b)), (("l", a), ("l", b), ("u", a), ("i", b), ("u", b), ("l", a), ("i", a), ("u", a))]
        J += [("two locks", x) for x in itertools.combinations_with_replacement(nest + hand, 2)]
        if c.thorough: J += [("two locks, three threads", x) for x in itertools.combinations_with_replacement(nest, 3)]
    for m in (4, 5):
        J += [("made in a thread", ((("n", m),) + sec("l", m) + sec("t", m) + (("d", m),), sec("l", m - 4))), ("made in a thread", (sec("l", m - 4), (("n", m),) + sec("t", m) + (("d", m), ("n", m)) + sec("l", m) + (("d", m),)))]
    def prog(a):
        name, src, want = a
        if c.expired(10) or c.too_many(): return
        x = S.tc.must_compile(src); st, outs = S.explore(x, [], limit=6000 if c.thorough else 600, timeout=400); c.count("programs", st["execs"] - st["blocked"]); cut[0] += st["cut"]
        for o in outs:
            if o["bad"] or o["status"] or tuple(o["lines"]) not in want:
                c.violation("program:" + name, "%s: status %s, output %s, expected one of %s; %s" % (name, o["status"], o["lines"], sorted(want), "; ".join(o["bad"][:3])), {"schedule": o["sched"], "source": src}); return
        if not st["cut"] and want - set(tuple(o["lines"]) for o in outs): c.violation("program:" + name, "%s: the output %s never happens" % (name, sorted(want - set(tuple(o["lines"]) for o in outs))[0]), {"source": src})
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(prog, PROGS)); list(ex.map(scenario, J))
    c.sample({"scripts": len(J), "programs": len(PROGS), "model_states": states[0], "model_outcomes": want_n[0], "explorations_cut": cut[0], "longest_execution": maxlen[0]})
if __name__ == "__main__": main("C33", body, level="exploration", quick_s=240, thorough_s=840)
