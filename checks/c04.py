"""C04: expressions follow the documented precedence, associativity and order."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from grid import *

# the table of STANDARD 5.3, highest first
LEVEL = {}
for n, l in enumerate([["*", "/", "%"], ["+", "-"], ["bit_shift_left", "bit_shift_right"], ["in", "not_in"],
                       ["<", ">", "<=", ">="], ["bit_and", "bit_or", "bit_xor"], ["==", "!="], ["&&"], ["||"]]):
    for o in l: LEVEL[o] = 9 - n
OPS = list(LEVEL)
REP = ["*", "/", "%", "+", "-", "bit_shift_left", "in", "<", "bit_xor", "bit_and", "==", "!=", "&&", "||"]
UN = ["-", "bit_not", "!"]
MIN, MAX = -2**63, 2**63 - 1

def climb(toks):
    """toks: leaf | op | unary tuples | '(' ')'; returns a tree"""
    pos = 0
    def prim():
        nonlocal pos
        t = toks[pos]; pos += 1
        if t == "(":
            e = expr(0)
            assert toks[pos] == ")"; pos += 1
            return e
        if isinstance(t, tuple): return ("u", t[1], prim())
        return ("v", t)
    def expr(lo):
        nonlocal pos
        l = prim()
        while pos < len(toks) and toks[pos] in LEVEL and LEVEL[toks[pos]] > lo:
            o = toks[pos]; pos += 1
            l = ("b", o, l, expr(LEVEL[o]))
        return l
    e = expr(0)
    assert pos == len(toks), toks
    return e

def typ(t):
    """the type of a tree whose leaves are typed by their first letter, or None"""
    if t[0] == "v": return t[1][0]
    if t[0] == "u":
        x = typ(t[2])
        return {"-": "i", "bit_not": "i", "!": "b"}[t[1]] if x == {"-": "i", "bit_not": "i", "!": "b"}[t[1]] else None
    o, l, r = t[1], typ(t[2]), typ(t[3])
    if o in ("in", "not_in"): return "b" if l == "i" and r in ("r", "l") else None
    if l is None or r is None or l in "rl" or r in "rl": return None
    if o in ("&&", "||"): return "b" if l == r == "b" else None
    if o in ("==", "!="): return "b" if l == r else None
    if l != "i" or r != "i": return None
    return "b" if o in ("<", ">", "<=", ">=") else "i"

class P(Exception): pass
def chk(x):
    if not MIN <= x <= MAX: raise P()
    return x
def wrap(x): return (x + 2**63) % 2**64 - 2**63
def tdiv(a, b):
    if b == 0: raise P()
    q = abs(a) // abs(b)
    return chk(q if (a < 0) == (b < 0) else -q)
def ev(t, env):
    if t[0] == "v": return env[t[1]]
    if t[0] == "u":
        x = ev(t[2], env)
        return chk(-x) if t[1] == "-" else ~x if t[1] == "bit_not" else not x
    o = t[1]; a = ev(t[2], env)
    if o == "&&": return a and ev(t[3], env)
    if o == "||": return a or ev(t[3], env)
    b = ev(t[3], env)
    if o == "+": return chk(a + b)
    if o == "-": return chk(a - b)
    if o == "*": return chk(a * b)
    if o == "/": return tdiv(a, b)
    if o == "%": return a - b * tdiv(a, b)
    if o in ("bit_shift_left", "bit_shift_right"):
        if not 0 <= b < 64: raise P()
        return wrap(a << b) if o == "bit_shift_left" else a >> b
    if o == "in": return a in b
    if o == "not_in": return a not in b
    if o == "bit_and": return a & b
    if o == "bit_or": return a | b
    if o == "bit_xor": return a ^ b
    return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[o]
def show(x): return ("true" if x else "false") if isinstance(x, bool) else str(x)

RNG = ("range(-1, 6, 2)", range(-1, 6, 2))
LST = ("list", [0, 3, -2, 8])
def src(toks, names):
    o = []
    for t in toks:
        if isinstance(t, tuple): o.append(t[1] if t[1] != "bit_not" else "bit_not ")
        else: o.append(names.get(t, t) if t not in LEVEL else " " + t + " ")
        if o[-1] in ("-", "!"): pass
    return "".join(o).replace("--", "- -").replace("  ", " ")

def leaves(toks):
    return [t for t in toks if isinstance(t, str) and t not in LEVEL and t not in "()"]

def shapes(ops):
    """token lists over leaf slots: plain, each unary at each place, each grouping"""
    n = len(ops) + 1
    L = ["?%d" % i for i in range(n)]
    def seq(l): return sum(([x, o] for x, o in zip(l, ops)), []) + [l[-1]]
    yield "plain", seq(L)
    if n == 2: return
    for i in range(n - 1):
        for j in range(i + 1, n):
            if (i, j) == (0, n - 1): continue
            t = seq(L); a = 2 * i; b = 2 * j
            yield "group", t[:a] + ["("] + t[a:b + 1] + [")"] + t[b + 1:]

def with_unary(ops):
    n = len(ops) + 1
    for i in range(n):
        for u in UN:
            t = []
            for k in range(n):
                if k == i: t.append(("u", u))
                t.append("?%d" % k)
                if k < n - 1: t.append(ops[k])
            yield "unary", t
    for u in UN:                       # a unary operator on a group
        t = [("u", u), "("]
        for k in range(n):
            t.append("?%d" % k)
            if k < n - 1: t.append(ops[k])
        yield "ugroup", t + [")"]

IV = [-3, 0, 2, 5]
def instances(toks, n):
    """all leaf typings that make the expression well typed"""
    pos = [i for i, t in enumerate(toks) if isinstance(t, str) and t.startswith("?")]
    for ty in itertools.product("ib" , repeat=n):
        ty = list(ty)
        tk = list(toks)
        for k, p in enumerate(pos):
            c = ty[k]
            if p > 0 and toks[p - 1] in ("in", "not_in"):
                if c == "b": break
                c = "r" if toks[p - 1] == "in" else "l"
            tk[p] = c + str(k)
        else:
            if typ(climb(tk)): yield tk

def body(c):
    c.rule = ("every sequence of one to three binary operators (all operators up to two, one per kind and level at three), with every unary at every "
              "place and every grouping, over every tuple of operand values, against a precedence climber of the standard's table; every operator on "
              "boundary values of every type; the evaluation order of every operator, call, literal and interpolation with calls, reads and writes as operands")
    tc = Toolchain(c.tmp)
    g = Grid(c, tc, part="precedence", per_file=60)
    seen = set()
    def put(kind, ops):
        gen = list(shapes(ops)) if kind == "bin" else list(with_unary(ops))
        for name, toks in gen:
            for tk in instances(toks, len(ops) + 1):
                tree = climb(tk)
                lv = leaves(tk); names = {}; params = []; slots = []
                for x in lv:
                    if x[0] == "r": names[x] = "range(-1, 6, 2)"
                    elif x[0] == "l": names[x] = "list"
                    else:
                        names[x] = "a%d" % len(params)
                        vals = IV if len(ops) < 3 or c.thorough else [-3, 2, 5] if len(ops) == 3 else IV
                        params.append(ints(vals) if x[0] == "i" else bools()); slots.append(x)
                s = src(tk, names)
                if s in seen: continue
                seen.add(s)
                fixed = {x: RNG[1] if x[0] == "r" else LST[1] for x in lv if x[0] in "rl"}
                def orc(*vs, tree=tree, slots=slots, fixed=fixed):
                    try: return show(ev(tree, dict(fixed, **dict(zip(slots, vs)))))
                    except P: return PANIC
                code = (" mut list [int] = {0, 3, -2, 8}\n" if "list" in names.values() else "") + " println(%s)" % s
                g.add("expr " + s, params, code, orc)
    for o in OPS:
        put("bin", [o]); put("un", [o])
    for o in itertools.product(OPS, repeat=2): put("bin", list(o))
    for o in itertools.product(OPS if c.thorough else REP, repeat=2): put("un", list(o))
    plain3 = itertools.product(OPS if c.thorough else REP, repeat=3)
    for ops in plain3:
        toks = []
        for k, o in enumerate(ops): toks += ["?%d" % k, o]
        toks.append("?3")
        for tk in instances(toks, 4):
            tree = climb(tk); lv = leaves(tk); names = {}; params = []; slots = []
            vals = [-3, 2, 5]
            for x in lv:
                if x[0] == "r": names[x] = "range(-1, 6, 2)"
                elif x[0] == "l": names[x] = "list"
                else:
                    names[x] = "a%d" % len(params); params.append(ints(vals) if x[0] == "i" else bools()); slots.append(x)
            s = src(tk, names)
            fixed = {x: RNG[1] if x[0] == "r" else LST[1] for x in lv if x[0] in "rl"}
            def orc(*vs, tree=tree, slots=slots, fixed=fixed):
                try: return show(ev(tree, dict(fixed, **dict(zip(slots, vs)))))
                except P: return SKIP if not c.thorough else PANIC
            g.add("expr " + s, params, (" mut list [int] = {0, 3, -2, 8}\n" if "list" in names.values() else "") + " println(%s)" % s, orc)
    c.sample({"expressions": sorted(seen)[:6], "count": len(g.items)})
    g.go()
    # value semantics of each operator on each operand type
    v = Grid(c, tc, part="types", per_file=10)
    W = {"i8": (-2**7, 2**7 - 1), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (MIN, MAX), "int": (MIN, MAX),
         "u8": (0, 255), "byte": (0, 255), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "uint": (0, 2**64 - 1)}
    def fit(x, lo, hi): return (x - lo) % (hi - lo + 1) + lo
    for T, (lo, hi) in W.items():
        V = sorted({lo, lo + 1, lo // 2, lo // 2 - 1 if lo else 0, 0, 1, 2, 5, 85, 100, hi // 3, hi // 2, hi // 2 + 1, hi - 1, hi} | ({-1, -2, -86} if lo else set()))
        for o, f in [("bit_and", lambda a, b: a & b), ("bit_or", lambda a, b: a | b), ("bit_xor", lambda a, b: a ^ b)]:
            v.add("%s[%s]" % (o, T), [ints(V, T), ints(V, T)], " mut r %s = a0 %s a1\n println(r)\n println(a0 %s a1)\n println(\"${a0 %s a1}\")" % (T, o, o, o),
                  lambda a, b, f=f: "\n".join([str(f(a, b))] * 3))
        v.add("bit_not[%s]" % T, [ints(V, T)], " mut r %s = bit_not a0\n println(r)\n println(bit_not a0)\n println(bit_not bit_not a0 == a0)" % T,
              lambda a, lo=lo, hi=hi: "%d\n%d\ntrue" % (fit(~a, lo, hi), fit(~a, lo, hi)))
        S = [-1, 0, 1, 2, 7, 8, 15, 16, 31, 32, 33, 62, 63, 64, MAX, MIN, 2**32, 2**32 + 1]
        v.add("shl[%s]" % T, [ints(V, T), ints(S)], " mut r %s = a0 bit_shift_left a1\n println(r)\n println(a0 bit_shift_left a1)" % T,
              lambda a, n, lo=lo, hi=hi: PANIC if not 0 <= n < 64 else "\n".join([str(fit(a << n, lo, hi))] * 2))
        v.add("shr[%s]" % T, [ints(V, T), ints(S)], " mut r %s = a0 bit_shift_right a1\n println(r)\n println(a0 bit_shift_right a1)" % T,
              lambda a, n: PANIC if not 0 <= n < 64 else "\n".join([str(a >> n)] * 2))
        v.add("cmp[%s]" % T, [ints(V, T), ints(V, T)], ' println("${a0 < a1} ${a0 > a1} ${a0 <= a1} ${a0 >= a1} ${a0 == a1} ${a0 != a1}")',
              lambda a, b: " ".join(show(x) for x in (a < b, a > b, a <= b, a >= b, a == b, a != b)))
        if lo >= MIN and hi <= MAX:
            v.add("range[%s]" % T, [ints(V, T)] + [ints([lo, -1 if lo else 0, 3, hi])] * 2 + [ints([-3, -1, 0, 1, 2, 100])], ' println("${a0 in range(a1, a2, a3)} ${a0 not_in range(a1, a2)}")',
                  lambda a, s, e, k: PANIC if k == 0 else "%s %s" % (show(a in range(s, e, k)), show(a not in range(s, e))))
    F = [-1e300, -2.5, -1.0, -0.0, 0.0, 0.1, 0.5, 1.0, 2.5, 1e16, 1e300]
    for T in ("float",):
        fl = (T, floats(F)[1])
        v.add("fcmp[%s]" % T, [fl, fl], ' println("${a0 < a1} ${a0 > a1} ${a0 <= a1} ${a0 >= a1} ${a0 == a1} ${a0 != a1}")',
              lambda a, b: " ".join(show(x) for x in (a < b, a > b, a <= b, a >= b, a == b, a != b)))
        def num(x): return lambda got: float(got) == x or abs(float(got) - x) <= abs(x) * 1e-5
        for o, f in [("+", lambda a, b: a + b), ("-", lambda a, b: a - b), ("*", lambda a, b: a * b)]:
            v.add("f%s[%s]" % (o, T), [fl, fl], " println(a0 %s a1)" % o, lambda a, b, f=f: num(f(a, b)))
            v.add("f%sexact[%s]" % (o, T), [fl, fl, fl], " println(a0 %s a1 == a2)" % o, lambda a, b, r, f=f: show(f(a, b) == r))
        v.add("f/[%s]" % T, [fl, fl], " println(a0 / a1)", lambda a, b: PANIC if b == 0 else num(a / b) if abs(a) < abs(b) * 1e300 or True and abs(a / b) != float("inf") else SKIP)
    SV = ["", "a", "b", "ab", "aa", "b\x00", "b\x00c", "é", "a" * 300]
    v.add("scmp", [strings(SV), strings(SV)], ' println("${a0 == a1} ${a0 != a1} ${a0 in a1} ${a0 not_in a1}")',
          lambda a, b: " ".join(show(x) for x in (a == b, a != b, a in b, a not in b)))
    CH = "ab\x7f 0Z"
    v.add("ccmp", [("char", [(repr(x) if x != "\x7f" else "char(127)", x) for x in CH])] * 2 + [strings(SV)], ' println("${a0 < a1} ${a0 == a1} ${a0 >= a1} ${a0 in a2} ${a1 not_in a2}")',
          lambda a, b, s: " ".join(show(x) for x in (a < b, a == b, a >= b, a in s, b not in s)))
    v.add("logic", [bools()] * 3, ' println("${a0 && a1 || a2} ${a0 || a1 && a2} ${!a0 && a1} ${!(a0 && a1)} ${a0 == a1 && a2} ${a0 != a1}")',
          lambda a, b, d: " ".join(show(x) for x in (a and b or d, a or b and d, (not a) and b, not (a and b), a == b and d, a != b)))
    v.go()
    order(c, tc)

PRE = '''import @math
import @strings
import @arrays
mut g int = 2
mut h string = "s"
const Q struct {
 a int
 b int
}
const W struct {
 x int
 do put(self W, a, b int) -> int {
  return self.x * 10000 + a * 100 + b
 }
}
do t(n int) -> int {
 println("t${n}")
 g = g * 5 % 97 + n
 return n
}
do tb(n int, r bool) -> bool {
 println("b${n}")
 g = g * 5 % 97 + n
 return r
}
do ts(n int) -> string {
 println("s${n}")
 g = g * 5 % 97 + n
 h = "h${n}"
 return "${n}"
}
do ta(n int) -> [int] {
 println("l${n}")
 g = g * 5 % 97 + n
 return {n, n + 1, n + 2}
}
do up(&x int, n int) -> int {
 println("u${n}")
 x = x * 3 + n
 return x
}
do f2(a, b int) -> int { return a * 1000 + b }
do f3(a, b, k int) -> int { return a * 10000 + b * 100 + k }
do fd(a int, b int = t(8), k int = t(9)) -> int { return a * 10000 + b * 100 + k }
do fs(a, b string) -> string { return "${a}|${b}" }
do gen(a ?, b ?) -> int { return 3 }
do two(a, b int) -> (int, int) { return a, b }
'''
class M:
    """effects of an operand: mutates the model and logs"""
    def __init__(s): s.g = 2; s.h = "s"; s.x = 1; s.out = []; s.fld = 4
    def t(s, n): s.out.append("t%d" % n); s.g = s.g * 5 % 97 + n; return n
    def tb(s, n, r): s.out.append("b%d" % n); s.g = s.g * 5 % 97 + n; return r
    def ts(s, n): s.out.append("s%d" % n); s.g = s.g * 5 % 97 + n; s.h = "h%d" % n; return str(n)
    def ta(s, n): s.out.append("l%d" % n); s.g = s.g * 5 % 97 + n; return [n, n + 1, n + 2]
    def up(s, n): s.out.append("u%d" % n); s.x = s.x * 3 + n; return s.x
    def upf(s, n): s.out.append("u%d" % n); s.fld = s.fld * 3 + n; return s.fld

# operand atoms: source with a number, model
INT = [("t(%d)", lambda m, n: m.t(n)), ("g", lambda m, n: m.g), ("%d", lambda m, n: n), ("x", lambda m, n: m.x), ("up(x, %d)", lambda m, n: m.up(n)),
       ("p.a", lambda m, n: m.fld), ("up(p.a, %d)", lambda m, n: m.upf(n)), ("(t(%d) + g)", lambda m, n: (m.t(n) + m.g)), ("-t(%d)", lambda m, n: -m.t(n)),
       ("ta(%d)[t(1)]", lambda m, n: m.ta(n)[m.t(1)]), ("len(ta(%d))", lambda m, n: len(m.ta(n))), ("arr[t(2)]", lambda m, n: [10, 20, 30][m.t(2)]),
       ("int(ts(%d))", lambda m, n: int(m.ts(n))), ("f2(t(%d), g)", lambda m, n: m.t(n) * 1000 + m.g), ("fn(g, t(%d))", lambda m, n: m.g * 1000 + m.t(n))]
STR = [("ts(%d)", lambda m, n: m.ts(n)), ("h", lambda m, n: m.h), ('"k%d"', lambda m, n: "k%d" % n), ('"<${ts(%d)}${g}>"', lambda m, n: "<" + m.ts(n) + str(m.g) + ">")]

def order(c, tc):
    b = Batch(c, tc, PRE, part="order", per_file=150)
    def add(key, code, fn):
        m = M()
        try:
            r = fn(m)
            pan = False; res = r if isinstance(r, str) else show(r)
        except P: pan = True; res = ""
        exp = "\n".join(m.out + ([res] if not pan else []) + (["%d %s %d %d" % (m.g, m.h, m.x, m.fld)] if not pan else []))
        b.add(key, ' g = 2\n h = "s"\n mut x int = 1\n mut p Q = Q{a: 4, b: 0}\n mut arr [int] = {10, 20, 30}\n const fn = ()f2\n mut w W = W{x: 7}\n %s\n println("${g} ${h} ${x} ${p.a}")' % code, exp, panic=pan, desc=code)
    def at(a, n): return a[0] % n if "%" in a[0] else a[0]
    PR = lambda s: "println(%s)" % s
    BIN = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": tdiv, "%": lambda a, b: a - b * tdiv(a, b), "<": lambda a, b: a < b,
           ">=": lambda a, b: a >= b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b, "bit_and": lambda a, b: a & b, "bit_xor": lambda a, b: a ^ b}
    def shift(a, n):
        if not 0 <= n < 64: raise P()
        return wrap(a << n)
    BIN["bit_shift_left"] = shift
    for o, f in BIN.items():
        for i, l in enumerate(INT):
            for j, r in enumerate(INT):
                if o in ("/", "%") and at(r, 6) == "0": continue
                s = "%s %s %s" % (at(l, 3), o, at(r, 6))
                add("order %s" % s, PR(s), lambda m: f(l[1](m, 3), r[1](m, 6)))
    for l, r, k in itertools.product(INT[:7] if not c.thorough else INT, repeat=3):
        s = "%s - %s * %s" % (at(l, 3), at(r, 6), at(k, 7))
        def fn(m):
            a = l[1](m, 3); q = r[1](m, 6); z = k[1](m, 7)
            return chk(a - chk(q * z))
        add("order " + s, PR(s), fn)
        s = "f3(%s, %s, %s)" % (at(l, 3), at(r, 6), at(k, 7))
        add("order " + s, PR(s), lambda m: l[1](m, 3) * 10000 + r[1](m, 6) * 100 + k[1](m, 7))
        s = '"${%s}-${%s}-${%s}"' % (at(l, 3), at(r, 6), at(k, 7))
        add("order " + s, PR(s), lambda m: "%d-%d-%d" % (l[1](m, 3), r[1](m, 6), k[1](m, 7)))
        s = "%s in range(%s, %s)" % (at(l, 3), at(r, 1), at(k, 7))
        def fn(m):
            a = l[1](m, 3); q = r[1](m, 1); z = k[1](m, 7)
            return q <= a < z
        if not (at(r, 1).isdigit() and at(k, 7).isdigit()): add("order " + s, PR(s), fn)
        s = "{%s, %s, %s}" % (at(l, 3), at(r, 6), at(k, 7))
        add("order array " + s, "mut z [int] = %s\n println(z)" % s, lambda m: "{%d, %d, %d}" % (l[1](m, 3), r[1](m, 6), k[1](m, 7)))
    for l, r in itertools.product(INT, repeat=2):
        A, B = at(l, 3), at(r, 6)
        L = lambda m: l[1](m, 3)
        R = lambda m: r[1](m, 6)
        add("order call " + A + B, PR("f2(%s, %s)" % (A, B)), lambda m: L(m) * 1000 + R(m))
        add("order ref " + A + B, PR("fn(%s, %s)" % (A, B)), lambda m: L(m) * 1000 + R(m))
        add("order method " + A + B, PR("w.put(%s, %s)" % (A, B)), lambda m: 70000 + L(m) * 100 + R(m))
        add("order static " + A + B, PR("W.put(w, %s, %s)" % (A, B)), lambda m: 70000 + L(m) * 100 + R(m))
        add("order named " + A + B, PR("f2(a: %s, b: %s)" % (A, B)), lambda m: L(m) * 1000 + R(m))
        add("order max " + A + B, PR("math.max(%s, %s)" % (A, B)), lambda m: max(L(m), R(m)))
        add("order struct " + A + B, "mut z Q = Q{a: %s, b: %s}\n println(\"${z.a} ${z.b}\")" % (A, B), lambda m: "%d %d" % (L(m), R(m)))
        add("order two " + A + B, "mut y, z = two(%s, %s)\n println(\"${y} ${z}\")" % (A, B), lambda m: "%d %d" % (L(m), R(m)))
        add("order default " + A + B, PR("fd(%s, %s)" % (A, B)), lambda m: L(m) * 10000 + R(m) * 100 + m.t(9))
        add("order map " + A + B, "mut z map[int:int] = {%s: %s}\n for_each k, v in z { println(\"${k} ${v}\") }" % (A, B), lambda m: "%d %d" % (L(m), R(m)))
        for sc, so, f in (("&&", "and", lambda a, b: a and b()), ("||", "or", lambda a, b: a or b())):
            for av, bv in itertools.product((True, False), repeat=2):
                av2, bv2 = show(av), show(bv)
                def fn(m):
                    L(m)
                    def rhs():
                        return m.tb(5, bv) == (R(m) > -10**9)
                    m2 = m.tb(4, av)
                    return f(m2, rhs)
                if A.isdigit(): continue
                if l is INT[0]:
                    add("order short %s %s %s %s" % (A, B, av2, bv2 + sc), "mut q int = f2(%s, 0)\n println(tb(4, %s) %s tb(5, %s) == (%s > -1000000000))" % (A, av2, sc, bv2, B), fn)
    for l, r in itertools.product(STR, repeat=2):
        A, B = at(l, 3), at(r, 6)
        L = lambda m: l[1](m, 3)
        R = lambda m: r[1](m, 6)
        for o in ("==", "!=", "in", "not_in"):
            add("order %s %s %s" % (A, o, B), PR("%s %s %s" % (A, o, B)),
                lambda m: (lambda x, y: {"==": x == y, "!=": x != y, "in": x in y, "not_in": x not in y}[o])(L(m), R(m)))
        add("order fs %s %s" % (A, B), PR("fs(%s, %s)" % (A, B)), lambda m: L(m) + "|" + R(m))
        add("order interp %s %s" % (A, B), "mut z string = %s\n mut zz string = %s\n println(\"${z}${zz}\")" % (A, B), lambda m: L(m) + R(m))
        for k in STR:
            K = at(k, 9)
            add("order replace %s %s %s" % (A, B, K), PR("strings.replace(%s, %s, %s)" % (A, B, K)), lambda m: (lambda x, y, z: x.replace(y, z))(L(m), R(m), k[1](m, 9)))
    for i in INT:
        A = at(i, 3); L = lambda m: i[1](m, 3)
        add("order in arr " + A, PR("%s in ta(2)" % A), lambda m: (lambda x, y: x in y)(L(m), m.ta(2)))
        add("order notin arr " + A, PR("%s not_in ta(2)" % A), lambda m: (lambda x, y: x not in y)(L(m), m.ta(2)))
    add("order char in", PR("'2' in ts(123)"), lambda m: (m.ts(123), True)[1])
    b.go()
main("C04", body)
