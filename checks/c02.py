"""C02: 128- and 256-bit integers compute exactly or panic."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from grid import *
RNG = {"i128": (-2**127, 2**127 - 1), "u128": (0, 2**128 - 1), "i256": (-2**255, 2**255 - 1), "u256": (0, 2**256 - 1),
       "int": (-2**63, 2**63 - 1), "uint": (0, 2**64 - 1), "i8": (-128, 127), "u8": (0, 255), "i16": (-2**15, 2**15 - 1), "u16": (0, 2**16 - 1),
       "i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1), "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1), "byte": (0, 255)}
WIDE = ["i128", "u128", "i256", "u256"]
def fit(t, v): return v if RNG[t][0] <= v <= RNG[t][1] else None
def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q
def tmod(a, b):
    m = abs(a) % abs(b)
    return -m if a < 0 else m
OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b,
       "/": lambda a, b: None if b == 0 else tdiv(a, b), "%": lambda a, b: None if b == 0 else tmod(a, b)}
CMP = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b}

def lattice(t, big):
    lo, hi = RNG[t]; n = int(t[1:])
    s = {0, 1, 2, 3, 5, 7, 10, lo, lo + 1, lo + 2, hi, hi - 1, hi - 2, hi // 2, hi // 2 + 1, hi // 3, hi // 10, 10**19, 10**20 - 1, 10**(n // 4)}
    for k in ([31, 32, 63, 64, 65, 96, 127, 128, 129, 191, 192, 193, 254, 255] if not big else list(range(8, 257, 8)) + [31, 63, 65, 127, 129, 191, 193, 255]):
        s |= {2**k, 2**k - 1, 2**k + 1}
        if big: s |= {2**k - 2, 2**k + 2, 3 * 2**k, 2**k * (2**30 + 1)}
    # limbs alternating between empty and full, and carry chains across the middle
    W = n // 64; F = 2**64 - 1
    for m in range(2**W):
        s.add(sum((F if m >> i & 1 else 0) << (64 * i) for i in range(W)))
        if big: s.add(sum((F if m >> i & 1 else 1) << (64 * i) for i in range(W)))
    s.add(sum(1 << (64 * i + 32) for i in range(W)))
    for v in range(2): s.add(10**38 + v); s.add(10**77 + v)
    s |= {int("123456789" * 14), 6700417 * 2**61 + 12345, 2**61 - 1, 2**89 - 1, 2**107 - 1}
    s |= {-x for x in s} | {-x - 1 for x in s if x in (hi // 2,)}
    if n == 256 and not big:
        s = {x for x in s if abs(x) not in (2**31, 2**32 + 1, 2**65 + 1, 2**96 + 1, 2**129, 2**191 + 1, 2**32, 2**31 + 1, 2**65)}
    return sorted(v for v in s if lo <= v <= hi)
def few(t):
    lo, hi = RNG[t]
    s = {0, 1, 2, 7, lo, lo + 1, hi, hi - 1, hi // 2 + 1, -1, -5, 2**63 - 1, 2**63, -2**63, -2**63 - 1, 2**64 - 1, 2**64, 2**64 + 1, 10**19, 2**127 - 1, 2**127, -2**127, -2**127 - 1, 2**128 - 1, 2**128, 2**192, 255, 256, -128, -129, 127, 128,
         2**31, 2**31 - 1, -2**31 - 1, 2**32 - 1, 2**32, 65535, 65536, -32769, -2**128, 2**255 - 1, 2**255, 2**191 - 1}
    return sorted(v for v in s if lo <= v <= hi)
def W(t, vs): return (t, [(str(v), v) for v in vs])
def num(t, v): return PANIC if v is None or fit(t, v) is None else str(v)

def fa(xs): return "{%s}" % ", ".join(map(str, xs))
def rm(xs, v): xs = list(xs); xs.remove(v); return xs
def dd(xs): return list(dict.fromkeys(xs))

def body(c):
    tc = Toolchain(c.tmp, san=True)
    c.rule = "one evaluation = one operation on one operand tuple (or one conversion, or one use of a wide value in a context) in a compiled program under AddressSanitizer and UBSan, compared with Python's exact integers; tuples are distinct"
    T = c.thorough
    g = Grid(c, tc, part="arithmetic", per_file=2, opt="-O1" )
    for t in WIDE:
        L = lattice(t, T)
        for op, f in OPS.items():
            g.add("%s %s" % (t, op), [W(t, L), W(t, L)], " println(a0 %s a1)" % op, lambda a, b, f=f, t=t: num(t, f(a, b)))
        g.add("%s compare" % t, [W(t, L), W(t, L)], "".join(" println(a0 %s a1)\n" % o for o in CMP), lambda a, b: "\n".join(str(f(a, b)).lower() for f in CMP.values()))
        if t[0] == "i":
            g.add("%s neg" % t, [W(t, L)], " println(-a0)", lambda a, t=t: num(t, -a))
            g.add("%s sub from zero" % t, [W(t, L)], " println(0 - a0)", lambda a, t=t: num(t, -a))
        g.add("%s ++" % t, [W(t, L)], " mut x %s = a0\n x++\n println(x)" % t, lambda a, t=t: num(t, a + 1))
        g.add("%s --" % t, [W(t, L)], " mut x %s = a0\n x--\n println(x)" % t, lambda a, t=t: num(t, a - 1))
        g.add("%s text" % t, [W(t, L)], " println(a0)\n println(string(a0))\n println(\"[${a0}]\")\n mut a [%s] = {a0, a0}\n println(a)" % t, lambda a: "%d\n%d\n[%d]\n{%d, %d}" % (a, a, a, a, a))
        g.add("%s identity" % t, [W(t, L), W(t, [v for v in L if v][:: max(1, len(L) // 12)])], " println((a0 / a1) * a1 + a0 %% a1)", lambda a, b, t=t: PANIC if fit(t, tdiv(a, b)) is None else str(a)) if False else None
    g.go()
    g = Grid(c, tc, part="compound and mixed", per_file=6, opt="-O1")
    for t in WIDE:
        F = few(t)
        for op, f in OPS.items():
            g.add("%s %s=" % (t, op), [W(t, F), W(t, F)], " mut x %s = a0\n x %s= a1\n println(x)" % (t, op), lambda a, b, f=f, t=t: num(t, f(a, b)))
        narrow = "int" if t[0] == "i" else "uint"
        ns = [v for v in (0, 1, 2, 3, -1, -7, 2**63 - 1, -2**63, 2**64 - 1, 2**63, 10**18) if fit(narrow, v) is not None]
        for op, f in OPS.items():
            g.add("%s %s %s" % (t, op, narrow), [W(t, F), W(narrow, ns)], " println(a0 %s a1)" % op, lambda a, b, f=f, t=t: num(t, f(a, b)))
            g.add("%s %s %s" % (narrow, op, t), [W(narrow, ns), W(t, F)], " println(a0 %s a1)" % op, lambda a, b, f=f, t=t: num(t, f(a, b)))
            for lit in (0, 1, 3, 10, 2**63 - 1, 2**64 - 1, 2**64, 2**127 - 1):
                if lit == 0 and op in "/%": continue   # rejected by the checker
                g.add("%s %s literal %d" % (t, op, lit), [W(t, F)], " println(a0 %s %d)" % (op, lit), lambda a, f=f, t=t, lit=lit: num(t, f(a, lit)))
    for w, n in (("i256", "i128"), ("u256", "u128")):
        for op, f in OPS.items():
            g.add("%s %s %s" % (w, op, n), [W(w, few(w)), W(n, few(n))], " println(a0 %s a1)" % op, lambda a, b, f=f, t=w: num(t, f(a, b)))
    g.go()
    # conversions between every pair of integer types with at least one wide
    g = Grid(c, tc, part="conversion", per_file=8, opt="-O1")
    NAR = ["int", "uint", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "byte"]
    for s in WIDE:
        for d in WIDE + NAR:
            g.add("cast %s->%s" % (s, d), [W(s, few(s))], " println(cast(a0, %s))" % d, lambda v, d=d: num(d, v))
            if d in WIDE + ["int", "uint"] :
                g.add("call %s->%s" % (s, d), [W(s, few(s))], " println(%s(a0))" % d, lambda v, d=d: num(d, v))
    for s in NAR:
        vs = [v for v in {0, 1, -1, 5, RNG[s][0], RNG[s][1], RNG[s][1] // 2 + 1} if fit(s, v) is not None]
        for d in WIDE:
            g.add("cast %s->%s" % (s, d), [W(s, vs)], " println(cast(a0, %s))" % d, lambda v, d=d: num(d, v))
            if s[0] == d[0] or (s in ("uint", "u8", "u16", "u32", "u64")) or (s == "int" and d[0] == "i"):
                g.add("assign %s->%s" % (s, d), [W(s, vs)], " mut x %s = a0\n println(x)\n x = a0 \n println(x)" % d, lambda v, d=d: "%d\n%d" % (v, v))
    # literals in every base, with separators
    for t in WIDE:
        for v in few(t):
            for b, p in ((10, ""), (16, "0x"), (2, "0b"), (8, "0o")):
                if v < 0: continue
                txt = {10: "%d", 16: "%x", 8: "%o"}.get(b)
                txt = txt % v if txt else bin(v)[2:]
                for u in (False, True):
                    q = txt if not u else "_".join([txt[max(0, i - 3):i] for i in range(len(txt), 0, -3)][::-1])
                    if u and len(txt) < 4: continue
                    g.add("literal %s %s%s" % (t, p, q), [], " mut x %s = %s%s\n println(x)" % (t, p, q), lambda v=v: str(v))
            g.add("literal %s %d twice" % (t, v), [], " mut x %s = %d\n const y %s = %d\n println(x)\n println(y)" % (t, v, t, v), lambda v=v: "%d\n%d" % (v, v))
    g.per_file = 60
    g.go()
    # a wide value goes unchanged through every kind of place
    pre = "".join("""
const S_%(t)s struct {
 b bool
 v %(t)s
 n i8
 w %(t)s
}
const ID_%(t)s = ()id_%(t)s
do id_%(t)s(x %(t)s) -> %(t)s { return x }
do two_%(t)s(x %(t)s, y %(t)s) -> (%(t)s, %(t)s) { return y, x }
do dfl_%(t)s(x %(t)s = 7) -> %(t)s { return x }
do lit_%(t)s() -> %(t)s { return 9 }
do inc_%(t)s(&x %(t)s) { x += 1 }
do sum_%(t)s(xs [%(t)s]) -> %(t)s {
 mut s %(t)s = 0
 for_each x in xs { s += x }
 return s
}
do mk_%(t)s(x %(t)s) -> S_%(t)s { return S_%(t)s{v: x, w: x} }
""" % {"t": t} for t in WIDE)
    g = Grid(c, tc, imports=["arrays", "maps", "binary"], prelude=pre, part="places", per_file=6, opt="-O1")
    for t in WIDE:
        lo, hi = RNG[t]
        F = few(t); P = [(W(t, F))]; n = "%s " % t
        def add(name, code, f, params=P): g.add(n + name, params, code.replace("@T", t), f)
        S1 = lambda v: str(v)
        add("argument", " println(id_@T(a0))\n println(id_@T(cast(5, @T)))\n println(lit_@T())\n println(dfl_@T())\n println(dfl_@T(a0))", lambda v: "%d\n5\n9\n7\n%d" % (v, v))
        add("function value", " mut f func(@T) -> @T = ()id_@T\n println(f(a0))", S1) if False else None
        add("multiple results", " mut p, q = two_@T(a0, cast(3, @T))\n println(p)\n println(q)", lambda v: "3\n%d" % v)
        add("reference parameter", " mut x @T = a0\n inc_@T(x)\n println(x)", lambda v, t=t: num(t, v + 1))
        add("fields", " mut s S_@T = S_@T{b: true, v: a0, n: -3, w: a0}\n println(s.v)\n println(s.w)\n s.w = a0\n s.v = s.w\n println(s.v == a0)\n println(s.n)\n println(s)", lambda v, t=t: "%d\n%d\ntrue\n-3\nS_%s{b: true, v: %d, n: -3, w: %d}" % (v, v, t, v, v))
        add("field default", " mut s S_@T = S_@T{}\n println(s.v)\n mut k = mk_@T(a0)\n println(k.w)\n println(mk_@T(a0).v)", lambda v: "0\n%d\n%d" % (v, v))
        add("field compound", " mut s S_@T = S_@T{v: a0}\n s.v += 1\n println(s.v)", lambda v, t=t: num(t, v + 1))
        add("array", " mut a [@T] = {a0, 1, a0}\n a[1] = a0\n arrays.append(a, a0)\n arrays.append(a, 4)\n println(a[1])\n println(a[3])\n println(a[4])\n println(len(a))\n println(a)", lambda v: "%d\n%d\n4\n5\n{%d, %d, %d, %d, 4}" % ((v,) * 6))
        add("array compound", " mut a [@T] = {1, a0}\n a[1] += 1\n println(a[1])", lambda v, t=t: num(t, v + 1))
        add("array iteration", " mut a [@T] = {a0, 3}\n for_each i, x in a { println(\"${i}:${x}\") }", lambda v: "0:%d\n1:3" % v)
        add("array sum", " mut a [@T] = {a0, 1, 2}\n println(sum_@T(a))", lambda v, t=t: num(t, v + 3) if fit(t, v + 1) is not None else PANIC)
        add("array membership", " mut a [@T] = {1, a0}\n println(a0 in a)\n println(1 in a)\n println(99 in a)\n println(99 !in a)", lambda v: "true\ntrue\n%s\n%s" % (str(v == 99).lower(), str(v != 99).lower()))
        add("nested array", " mut a [[@T]] = {{a0}, {a0, a0}}\n println(a[1][1])\n a[0][0] = 8\n println(a[0][0])\n println(a)", lambda v: "%d\n8\n{{8}, {%d, %d}}" % (v, v, v))
        add("array copy", " mut a [@T] = {a0}\n mut b [@T] = copy(a)\n b[0] = 1\n println(a[0])\n println(b[0])", lambda v: "%d\n1" % v)
        add("map value", " mut m map[string:@T] = {\"k\": a0, \"z\": 2}\n println(m[\"k\"])\n m[\"n\"] = a0\n m[\"z\"] = 6\n println(m[\"n\"])\n println(m[\"z\"])\n println(maps.get_or_default(m, \"q\", a0))\n println(maps.get_or_default(m, \"q\", 11))", lambda v: "%d\n%d\n6\n%d\n11" % (v, v, v))
        add("map compound", " mut m map[string:@T] = {\"k\": a0}\n m[\"k\"] += 1\n println(m[\"k\"])", lambda v, t=t: num(t, v + 1))
        add("map key", " mut m map[@T:int] = {:}\n m[a0] = 3\n m[77] = 4\n println(m[a0])\n println(m[77])\n println(a0 in m)\n println(maps.has_key(m, a0))\n maps.remove_key(m, a0)\n println(len(m))", lambda v: "3\n4\ntrue\ntrue\n1")
        add("pointer", " mut x @T = a0\n mut p ^@T = addr(x)\n println(p^)\n p^ = 12\n println(x)\n p^ = a0\n println(x)", lambda v: "%d\n12\n%d" % (v, v))
        add("pointer arithmetic value", " mut x @T = a0\n mut p ^@T = addr(x)\n println(p^ + 1)", lambda v, t=t: num(t, v + 1))
        add("when", " when a0 {\n is 1 { println(\"one\") }\n is %d, 7 { println(\"max or 7\") }\n default { println(\"other\") }\n }" % hi, lambda v, hi=hi: "one" if v == 1 else "max or 7" if v in (7, hi) else "other")
        add("condition", " if a0 > 100 { println(\"big\") } or a0 == 7 { println(\"seven\") } otherwise { println(\"small\") }\n if a0 >= 0 && a0 < 10 { println(\"digit\") }", lambda v: ("big" if v > 100 else "seven" if v == 7 else "small") + ("\ndigit" if 0 <= v < 10 else ""))
        add("while loop", " mut x @T = a0\n mut n int = 0\n as_long_as x != 0 { x = x / 10\n n++ }\n println(n)", lambda v: str(len(str(abs(v))) if v else 0))
        add("type_of", " println(type_of(a0))\n println(type_of(a0 + 0))", lambda v, t=t: "%s\n%s" % (t, t))
        add("inferred", " mut x = a0\n mut y = x\n println(y)\n mut z = a0 - a0\n println(z)", lambda v: "%d\n0" % v)
        add("array functions", " mut a [@T] = {5, a0, 3, a0}\n println(arrays.index_of(a, a0))\n println(arrays.count(a, a0))\n println(arrays.contains(a, 6))\n println(arrays.get_max(a))\n println(arrays.get_min(a))\n arrays.sort_asc(a)\n println(a)\n arrays.sort_desc(a)\n println(a)\n arrays.remove(a, 5)\n println(len(a))\n arrays.prepend(a, 8)\n println(arrays.get_first(a))\n println(arrays.reverse(a))\n println(arrays.deduplicate(a))",
            lambda v: "%d\n%d\n%s\n%d\n%d\n%s\n%s\n%d\n8\n%s\n%s" % ((lambda L: (L.index(v), L.count(v), str(6 in L).lower(), max(L), min(L), fa(sorted(L)), fa(sorted(L)[::-1]), 3, fa(rm(sorted(L)[::-1], 5)[::-1] + [8]), fa(dd([8] + rm(sorted(L)[::-1], 5)))))([5, v, 3, v])))
        add("array total", " mut a [@T] = {a0, 1, a0}\n println(arrays.get_sum(a))", lambda v, t=t: PANIC if fit(t, v + 1) is None else num(t, 2 * v + 1))
        add("literal argument", " println(sum_@T({1, 2}))\n println(sum_@T({1, %d}))\n println(len({a0, 1}))" % (hi - 1), lambda v, hi=hi: "3\n%d\n2" % hi)
        for e in ("le", "be"):
            add("bytes " + e, " println(binary.decode_@T_%s(binary.encode_@T_%s(a0)))\n println(binary.encode_@T_%s(a0))" % (e, e, e),
                lambda v, t=t, e=e: "%d\n{%s}" % (v, ", ".join(str(b) for b in (v % 2**int(t[1:])).to_bytes(int(t[1:]) // 8, {"le": "little", "be": "big"}[e]))))
        add("nested expression", " println((a0 - 1) + (1 - 0) * 1)", lambda v, t=t: num(t, v) if fit(t, v - 1) is not None else PANIC)
        add("order", " mut x @T = 3\n x = x * 2 + a0 / 2 - 1\n println(x)", lambda v, t=t: num(t, 5 + tdiv(v, 2)))
        add("stderr", " println(a0)\n eprintln(a0)", S1)
    g.go()
    c.sample({"operations": sorted(OPS) + sorted(CMP), "types": WIDE, "lattice_i128": [str(x) for x in lattice("i128", T)[:6]]})
if __name__ == "__main__": main("C02", body, level="exploration")
