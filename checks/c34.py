#!/usr/bin/env python3
"""C34: every interleaving of the machine instructions of the atomic operations: the functions built from the current tree are run one instruction at a time on the processor by an explicit-state exploration (registers, stacks, memory, store buffers), and the reachable outcomes must be exactly those of indivisible operations; every operation on grids of values and positions; and the language's operations, alone and in threads."""
import sys, os, itertools, re, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from msched import *
REG = {}
for i, n in enumerate("a c d si di 8 9 10 11 b bp 12 13 14 15 sp".split()):
    if n.isdigit():
        for x, w in (("r%s", 8), ("r%sd", 4), ("r%sw", 2), ("r%sb", 1)): REG[x % n] = (i, w)
    elif len(n) == 1:
        for x, w in (("r%sx", 8), ("e%sx", 4), ("%sx", 2), ("%sl", 1), ("%sh", 1)): REG[x % n] = (i, w)
    else:
        for x, w in (("r%s", 8), ("e%s", 4), ("%s", 2), ("%sl", 1)): REG[x % n] = (i, w)
W = {"b": 1, "w": 2, "l": 4, "q": 8}
def table(exe, path):
    """What each instruction of the program does to memory."""
    txt = subprocess.run(["objdump", "-d", "--no-show-raw-insn", "-M", "att", "-j", ".text", exe], capture_output=True, text=True).stdout; rows = []; addrs = []
    for l in txt.split("\n"):
        m = re.match(r"\s*([0-9a-f]+):\t(.*)", l)
        if not m: continue
        ad = int(m.group(1), 16); addrs.append(ad); ins = re.sub(r"\s*[#<].*", "", m.group(2)).strip().split(None, 1); pre = set()
        while ins and ins[0] in ("lock", "rep", "repz", "repnz", "notrack", "bnd", "data16", "cs", "ds", "es"): pre.add(ins[0]); ins = ins[1].split(None, 1) if len(ins) > 1 else []
        if not ins: continue
        op = ins[0]; args = ins[1] if len(ins) > 1 else ""
        if op in ("mfence", "cpuid", "serialize") or "lock" in pre: rows.append((ad, "X", 8, -1, -1, 0, 0)); continue
        m = re.search(r"(?:%(\w+):)?(-?0x[0-9a-f]+)?\((%\w+)?(?:,(%\w+)(?:,(\d))?)?\)", args)
        if not m or m.group(1) in ("fs", "gs") or (m.group(3) or "") == "%rip" or op.startswith(("lea", "nop", "jmp", "call", "push", "pop", "prefetch")): continue
        last = m.end() == len(args); rest = (args[:m.start()] + args[m.end():]); r = re.search(r"%(\w+)", rest); q = re.match(r"mov([sz])([bwlq])([wlq])$", op)
        w = W[q.group(2)] if q else REG[r.group(1)][1] if r and r.group(1) in REG else 16 if r and r.group(1).startswith("xmm") else W.get(op[-1], 8)
        if op.startswith("xchg"): kind = "X"
        elif not last or op.startswith(("cmp", "test")) and not op.startswith("cmpxchg") or "," not in args and op.startswith(("mul", "div", "imul", "idiv")) or op in ("bt", "btq", "btl"): kind = "L"
        elif op.startswith(("mov", "set", "stos")): kind = "S"
        else: kind = "M"
        rows.append((ad, kind, w, REG[m.group(3)[1:]][0] if m.group(3) else -1, REG[m.group(4)[1:]][0] if m.group(4) else -1, int(m.group(5) or 1), int(m.group(2) or "0", 16)))
    if len(rows) < 20: raise CheckError("objdump gave no instructions")
    with open(path, "w") as f: f.write("%x %x\n" % (min(addrs), max(addrs) + 1) + "".join("%x %s %d %d %d %d %d\n" % r for r in rows))
def sgn(v, w): v &= (1 << 8 * w) - 1; return v - (1 << 8 * w) if v >> (8 * w - 1) else v
WID = lambda n: 4 if "spin" in n else 1 if n.endswith("8") else 4 if n.endswith("32") else 8
def effect(n, mem, word, byte, a, b):
    """(new memory, result) of one indivisible operation, or None when it waits."""
    w = WID(n); k = re.sub(r"\d+$", "", n.split("_")[-1]) if "spin" not in n and "plain" not in n else n.replace("gray_atomic_mod_", "").replace("gray_", "")
    if k == "fence": return mem, 0
    M = bytearray(b"".join((x & (1 << 64) - 1).to_bytes(8, "little") for x in mem)); p = word * 8 + byte; o = int.from_bytes(M[p:p + w], "little"); A = a & (1 << 8 * w) - 1; new = o; res = o; f = 0
    if k in ("load", "plain_get"): pass
    elif k in ("store", "plain_set"): new = A; res = 0
    elif k == "add": new = o + A
    elif k == "sub": new = o - A
    elif k == "exchange": new = A
    elif k == "and": new = o & A
    elif k == "or": new = o | A
    elif k == "xor": new = o ^ A
    elif k == "cas": f = 1; res = int(o == A); new = b if o == A else o
    elif k == "plain_inc": new = o + 1; res = 0
    elif k == "spin_lock":
        if o: return None
        new = 1; res = 0
    elif k == "spin_trylock": f = 1; res = int(o == 0); new = 1 if o == 0 else o
    elif k == "spin_unlock": new = 0; res = 0
    M[p:p + w] = (new & (1 << 8 * w) - 1).to_bytes(w, "little")
    return tuple(int.from_bytes(M[i:i + 8], "little", signed=True) for i in range(0, 32, 8)), res if f or w == 1 else sgn(res, w)
def model(init, ths):
    start = (tuple(init), (0,) * len(ths), tuple(() for _ in ths)); seen = {start}; todo = [start]; outs = set(); waits = False
    while todo:
        mem, pc, res = todo.pop(); fin = True; moved = False
        for t, sc in enumerate(ths):
            if pc[t] == len(sc): continue
            fin = False; e = effect(*((sc[pc[t]][0], mem) + sc[pc[t]][1:]))
            if e is None: continue
            moved = True; s = (e[0], pc[:t] + (pc[t] + 1,) + pc[t + 1:], res[:t] + (res[t] + (e[1],),) + res[t + 1:])
            if s not in seen: seen.add(s); todo.append(s)
        if fin: outs.add((tuple(x for r in res for x in r), mem))
        elif not moved: waits = True
    return outs, waits
MOD = ["gray_atomic_mod_" + x for x in "load store add sub exchange cas and or xor".split()]
RAW = [x.replace("mod_", "") for x in MOD]
W32 = ["gray_atomic_%s32" % x for x in "load store add sub exchange cas".split()]
W8 = ["gray_atomic_%s8" % x for x in "load store exchange cas".split()]
def body(c):
    c.rule = "one evaluation = one state of an instruction-level exploration, one operation on one combination of values and position, or one program execution; distinct states and combinations"
    S = Sched(c); exe = os.path.join(c.tmp, "astep"); tab = exe + ".tab"
    p = run(["/usr/bin/gcc", "-std=gnu11", "-w", "-O1", "-no-pie", "-static", "-I" + os.path.join(S.tc.src, "src"), os.path.join(VERIF, "lib/c/astep.c"), "-o", exe, Toolchain(os.path.join(c.tmp, "plain")).lib, "-lm", "-lpthread"])
    if p.returncode: raise CheckError(p.stderr.decode()[-2000:])
    table(exe, tab); tot = {"states": 0, "transitions": 0, "scenarios": 0, "outcomes": 0, "cut": 0}
    V = {8: [3, -2, 1 << 62, -(1 << 63), (1 << 63) - 1, 0x00ff00ff00ff00ff], 4: [3, -2, 1 << 30, -(1 << 31), (1 << 31) - 1, 0x00ff00ff], 1: [3, 254, 64, 128, 127, 240]}
    J = []
    def give(names, word=0, byte=0, variant=0, init0=0):
        """Arguments for the operations of all threads, distinct, with expectations of compare-and-swap that others can meet."""
        k = variant; out = []; vals = []
        for th in names: out.append([]); [vals.append(None) for _ in th]
        for i, th in enumerate(names):
            for n in th:
                v = V[WID(n)]; a, b = v[k % len(v)], v[(k + 2) % len(v)]
                if "cas" in n: a, b = (init0 if (k + variant) % 3 == 0 else v[(k + 1) % len(v)] if (k + variant) % 3 == 1 else v[k % len(v)]), v[(k + 3) % len(v)]
                out[i].append((n, word, byte, a, b)); k += 1
        return out
    def put(part, init, ths, tso=0): J.append((part, tso, tuple(init), [list(t) for t in ths]))
    for fam in (MOD, RAW, W32, W8):
        w = WID(fam[0]); i0 = {8: 7, 4: 7, 1: 7}[w]; nv = 6 if c.thorough else 3
        for var in range(nv):
            for a, b in itertools.combinations_with_replacement(fam, 2): put("pairs", (i0, -1, 5, 6), give([[a], [b]], variant=var, init0=i0), var & 1)
            for x in itertools.combinations_with_replacement(fam, 3): 
                if var < 2 or c.thorough: put("three at once", (i0, -1, 5, 6), give([[y] for y in x], variant=var, init0=i0), var & 1)
        two = list(itertools.product(fam, repeat=2))
        for a, b in itertools.combinations_with_replacement(two, 2):
            if fam is not RAW or c.thorough: put("two each", (i0, -1, 5, 6), give([a, b], variant=1, init0=i0))
        if c.thorough:
            for a, b in itertools.combinations_with_replacement(two, 2): put("two each", (i0, -1, 5, 6), give([a, b], variant=2, init0=i0), 1)
            for a in two:
                for b, d in itertools.combinations_with_replacement(fam[1:], 2): put("two, one, one", (i0, -1, 5, 6), give([a, [b], [d]], variant=3, init0=i0))
        # neighbours: operations on different words and on different bytes of one word
        pos = [(0, 0), (1, 0)] + ([(0, 4)] if w == 4 else [(0, 1), (0, 7)] if w == 1 else [])
        for a, b in itertools.product(fam, repeat=2):
            for (w1, b1) in pos[1:]:
                x = give([[a], [b]], variant=2, init0=i0); y = [[(n, w1, b1, p, q) for n, _, _, p, q in x[1]]]; put("neighbours", (i0 if w == 8 else -1, -1, 5, 6), [x[0]] + y)
    # two words: with each operation a full barrier, no outcome needs a store to wait behind a later load
    for st in MOD[1:]:
        for ld in MOD[:1] + MOD[2:5]:
            A = lambda n, wd, v: (n, wd, 0, v, v + 10)
            put("ordering", (0, 0, 0, 0), [[A(st, 0, 1 if "cas" not in st else 0), A(ld, 1, 0)], [A(st, 1, 1 if "cas" not in st else 0), A(ld, 0, 0)]], 1)
            put("ordering", (0, 0, 0, 0), [[("plain_set", 0, 0, 9, 0), A(st, 1, 1 if "cas" not in st else 0)], [A(ld, 1, 0), ("plain_get", 0, 0, 0, 0)]], 1)
    for fam in (W32, W8): put("ordering", (0, 0, 0, 0), [[(fam[1], 0, 0, 1, 0), (fam[0], 1, 0, 0, 0)], [(fam[1], 1, 0, 1, 0), (fam[0], 0, 0, 0, 0)]], 1)
    for fe in ("gray_atomic_fence", "gray_atomic_mod_fence"):
        put("ordering", (0, 0, 0, 0), [[("plain_set", 0, 0, 1, 0), (fe, 0, 0, 0, 0), ("plain_get", 1, 0, 0, 0)], [("plain_set", 1, 0, 1, 0), (fe, 0, 0, 0, 0), ("plain_get", 0, 0, 0, 0)]], 1)
        put("ordering", (0, 0, 0, 0), [[("plain_set", 0, 0, 1, 0), (fe, 0, 0, 0, 0), ("plain_get", 1, 0, 0, 0)], [("gray_atomic_mod_exchange", 1, 0, 1, 0), ("plain_get", 0, 0, 0, 0)]], 1)
    # spinlocks guarding a word
    for pre in ("gray_", "gray_atomic_mod_"):
        L, T, U = [(pre + x, 2, 0, 0, 0) for x in ("spin_lock", "spin_trylock", "spin_unlock")]; I = ("plain_inc", 0, 0, 0, 0); G = ("plain_get", 0, 0, 0, 0)
        for tso in (0, 1):
            put("spinlock", (0, 0, 0, 0), [[L, I, U], [L, I, U]], tso); put("spinlock", (0, 0, 0, 0), [[L, I, U, T], [L, I, G, U]], tso)
            put("spinlock", (0, 0, 0, 0), [[T], [T]], tso); put("spinlock", (0, 0, 0, 0), [[T], [L, I, G, U]], tso); put("spinlock", (0, 0, 0, 0), [[T, T], [T]], tso)
            put("spinlock", (0, 0, 1, 0), [[T], [U, L], [T]], tso)
            put("spinlock", (0, 0, 0, 0), [[L, I, U], [L, I, U], [L, I, U]], tso)
            put("spinlock", (0, 0, 1 | 5 << 32, 0), [[U, L, I, U], [L, I, U]], tso)
            if c.thorough: put("spinlock", (0, 0, 0, 0), [[L, I, U, L, I, U], [L, I, U, L, I, U]], tso); put("spinlock", (0, 0, 0, 0), [[L, I, U], [L, I, U], [T]], tso)
    def chunk(js):
        if c.expired(10) or c.too_many(): return
        inp = "".join("%d %s%s\n" % (tso, " ".join(map(str, init)), "".join(" ; " + " ".join("%s,%d,%d,%d,%d" % o for o in t) for t in ths)) for part, tso, init, ths in js)
        r = run([exe, tab, "400000"], input=inp.encode(), timeout=600); blocks = r.stdout.decode().split("\n.\n")
        if r.returncode or len(blocks) != len(js) + 1: raise CheckError("the instruction explorer failed (%s): %s" % (r.returncode, (r.stderr + r.stdout)[-300:]))
        for (part, tso, init, ths), b in zip(js, blocks):
            ls = b.split("\n"); x = ls[0].split(); tot["states"] += int(x[1]); tot["transitions"] += int(x[3]); tot["cut"] += int(x[5]); tot["scenarios"] += 1; c.count(part, int(x[1]))
            d = " | ".join(", ".join("%s(word %d+%d, %d, %d)" % o for o in t) for t in ths); rp = {"init": init, "threads": ths, "store_buffers": tso}
            tr = [l for l in ls if l.startswith("TROUBLE")]
            if tr: c.violation(part, "%s: %s" % (d, tr[0][8:]), rp); continue
            if int(x[5]): continue
            want, waits = model(init, ths); got = set()
            for l in ls:
                if l.startswith("END"): q = l[3:].split("|"); got.add((tuple(map(int, q[0].split())), tuple(map(int, q[1].split()))))
            tot["outcomes"] += len(got)
            if got - want: o = sorted(got - want)[0]; c.violation(part, "%s from %s can give results %s and memory %s, which no order of indivisible operations gives" % (d, init, o[0], o[1]), rp)
            elif want - got: o = sorted(want - got)[0]; c.violation(part, "%s from %s can never give results %s and memory %s, which an order of indivisible operations gives" % (d, init, o[0], o[1]), rp)
            elif not waits and [l for l in ls if l.startswith("STUCK")]: c.violation(part, "%s from %s: %s states from which the threads cannot finish" % (d, init, ls[-1].split()[-1]), rp)
    # the explorer itself: without barriers a store may wait behind a later load exactly when store buffers are modelled, and an unlocked increment loses updates
    for tso, ths, must in ((0, [[("plain_set", 0, 0, 1, 0), ("plain_get", 1, 0, 0, 0)], [("plain_set", 1, 0, 1, 0), ("plain_get", 0, 0, 0, 0)]], (1, 0, 1, 0)), (1, [[("plain_set", 0, 0, 1, 0), ("plain_get", 1, 0, 0, 0)], [("plain_set", 1, 0, 1, 0), ("plain_get", 0, 0, 0, 0)]], (0, 0))):
        inp = "%d 0 0 0 0 %s\n" % (tso, " ".join("; " + " ".join("%s,%d,%d,%d,%d" % o for o in t) for t in ths)); o = run([exe, tab], input=inp.encode()).stdout.decode()
        if (" 0 0 0 0 |" in o) != (tso == 1): raise CheckError("the store buffer model is wrong: " + o[:300])
    pass
    with ThreadPoolExecutor(NCPU) as ex: list(ex.map(chunk, [J[i::NCPU * 8] for i in range(NCPU * 8)]))
    r = run([exe, "grid"] + (["deep"] if c.thorough else []), timeout=600); g = r.stdout.decode().split("\n")
    gl = [l for l in g if l.startswith("GRID")]
    if not gl: raise CheckError("the value grid failed: %s" % r.stdout[-300:])
    c.count("values", int(gl[0].split()[1]))
    for l in g:
        if l.startswith("BAD"): c.violation("values", l[4:], {"operation": l[4:]})
    language(c, S)
    tot["longest"] = len(J); c.sample(tot)
GRAY = [0, 1, -1, 5, 9223372036854775807, -9223372036854775807, 4611686018427387904, 255, -256]
def language(c, S):
    """The language's operations: variables, globals, fields and elements as targets."""
    s64 = lambda v: sgn(v, 8); lines = []; want = []
    for t, (decl, place, peek) in {"local": ("mut x int = {o}", "addr(x)", "x"), "field": ("mut s S = S{{a: 1, b: {o}, c: 3}}", "addr(s.b)", "s.b"), "element": ("mut r [int] = {{1, {o}, 3}}", "addr(r[1])", "r[1]"), "global": ("g = {o}", "addr(g)", "g")}.items():
        for o in GRAY:
            for a in GRAY if t == "local" or c.thorough else GRAY[1:4]:
                for op, f in (("add", lambda o, a: o + a), ("sub", lambda o, a: o - a), ("exchange", lambda o, a: a), ("and", lambda o, a: o & a), ("or", lambda o, a: o | a), ("xor", lambda o, a: o ^ a)):
                    lines.append(([decl.format(o=o), "mut v = atomic.%s(%s, %d)" % (op, place, a)], '${v} ${%s}' % peek)); want.append("%d %d" % (o, s64(f(o, a))))
                lines.append(([decl.format(o=o), "mut v = atomic.cas(%s, %d, 77)" % (place, a)], '${v} ${%s}' % peek)); want.append("%s %d" % ("true" if o == a else "false", 77 if o == a else o))
            lines.append(([decl.format(o=o), "mut v = atomic.load(%s)" % place], '${v} ${%s}' % peek)); want.append("%d %d" % (o, o))
            lines.append(([decl.format(o=0), "atomic.store(%s, %d)" % (place, o), "atomic.fence()"], '1 ${%s}' % peek)); want.append("1 %d" % o)
    tc = Toolchain(os.path.join(c.tmp, "lang"))
    def go(k):
        n = 150; part = list(zip(lines, want))[k * n:(k + 1) * n]
        src = "import @atomic\nmut g int = 0\nconst S struct {\n    a int\n    b int\n    c int\n}\n" + "".join("do t_%d() {\n%s\n    println(\"%s\")\n}\n" % (i, "\n".join("    " + x for x in b), out) for i, ((b, out), _) in enumerate(part)) + "do main() {\n%s\n}\n" % "\n".join("    t_%d()" % i for i in range(len(part)))
        x = tc.must_compile(src); r = run([x]); got = r.stdout.decode().split("\n")
        for i, ((b, out), wv) in enumerate(part):
            c.count("language", 1)
            if i >= len(got) or got[i] != wv: c.violation("language", "%s gives %s instead of %s" % ("; ".join(b), got[i] if i < len(got) else "nothing", wv), {"statements": b})
    with ThreadPoolExecutor(NCPU) as ex: list(ex.map(go, range((len(lines) + 149) // 150)))
    src = '''import @threads
import @atomic
mut n int = 0
mut m int = 0
do w(k int) {
    mut a = atomic.%s(addr(n), k)
    mut b = atomic.%s(addr(n), k + 2)
    mut q = atomic.add(addr(m), a * 100 + b)
}
do main() {
    mut a = threads.spawn(()w, 1)
    mut b = threads.spawn(()w, 2)
    threads.join(a)
    threads.join(b)
    println("${n} ${m}")
}
'''
    F = {"add": lambda o, a: o + a, "sub": lambda o, a: o - a, "exchange": lambda o, a: a, "and": lambda o, a: o & a, "or": lambda o, a: o | a, "xor": lambda o, a: o ^ a}
    def thr(ab):
        want = set()
        for od in set(itertools.permutations((0, 0, 1, 1))):
            n = 0; m = 0; st = [[], []]
            for t in od: k = t + 1; st[t].append(n); n = F[ab[len(st[t]) - 1]](n, k if len(st[t]) == 1 else k + 2)
            want.add("%d %d" % (n, sum(a * 100 + b for a, b in st)))
        x = S.tc.must_compile(src % ab); st, outs = S.explore(x, [], limit=3000, timeout=300); c.count("threads", st["execs"] - st["blocked"])
        for o in outs:
            if o["bad"] or o["status"] or o["lines"][0] not in want: c.violation("threads", "two threads doing %s, %s: %s %s, expected one of %s" % (ab + (o["lines"], o["bad"][:2], sorted(want))), {"source": src % ab, "schedule": o["sched"]}); return
    with ThreadPoolExecutor(NCPU) as ex: list(ex.map(thr, list(itertools.product(F, repeat=2)) if c.thorough else [("add", "add"), ("sub", "exchange"), ("or", "and"), ("xor", "add")]))
if __name__ == "__main__": main("C34", body, level="model_checking", quick_s=240, thorough_s=840)
