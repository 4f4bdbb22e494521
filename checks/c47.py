"""C47: calls bind arguments, defaults, names and results exactly."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from grid import *
import itertools
PRE = """
const St struct {
 x int
 s string
}
const En enum {
 A
 B
 C
}
const Es enum {
 X = "ex"
 Y = "wy"
}
"""
# type -> ([literals], [texts], how to show variable %s, may have a default)
TY = {
    "int": (["11", "-7", "300", "4", "5"], ["11", "-7", "300", "4", "5"], '"${%s}"', True),
    "string": (['"p"', '"q\\"r"', '""', '"tt"', '"${1 + 1}z"'], ["p", 'q"r', "", "tt", "2z"], '"${%s}"', True),
    "bool": (["true", "false", "true", "false", "true"], ["true", "false", "true", "false", "true"], '"${%s}"', True),
    "float": (["1.5", "-0.25", "2.0", "3.75", "8.5"], ["1.5", "-0.25", "2.0", "3.75", "8.5"], '"${%s}"', True),
    "char": (["'c'", "'d'", "'\\n'", "'f'", "'g'"], ["c", "d", "\n", "f", "g"], '"${%s}"', True),
    "uint": (["7", "18446744073709551615", "9", "0", "3"], ["7", "18446744073709551615", "9", "0", "3"], '"${%s}"', True),
    "byte": (["200", "1", "255", "0", "9"], ["200", "1", "255", "0", "9"], '"${%s}"', False),
    "i8": (["cast(-128, i8)", "cast(5, i8)", "cast(127, i8)", "cast(0, i8)", "cast(-1, i8)"], ["-128", "5", "127", "0", "-1"], '"${%s}"', False),
    "u16": (["cast(65535, u16)", "cast(5, u16)", "cast(8, u16)", "cast(0, u16)", "cast(1, u16)"], ["65535", "5", "8", "0", "1"], '"${%s}"', False),
    "f32": (["cast(1.5, f32)", "cast(-2.5, f32)", "cast(0.25, f32)", "cast(4.0, f32)", "cast(0.5, f32)"], ["1.5", "-2.5", "0.25", "4.0", "0.5"], '"${%s}"', False),
    "i128": (["i128(-9)", "i128(8)", "i128(0)", "i128(77)", "i128(6)"], ["-9", "8", "0", "77", "6"], '"${%s}"', False),
    "u256": (["u256(9)", "u256(8)", "u256(0)", "u256(77)", "u256(6)"], ["9", "8", "0", "77", "6"], '"${%s}"', False),
    "[int]": (["{1, 2}", "{3}", "{4, 5, 6}", "{7}", "{8, 9}"], ["{1, 2}", "{3}", "{4, 5, 6}", "{7}", "{8, 9}"], '"${%s}"', False),
    "[string]": (['{"a", "b"}', '{""}', '{"c"}', '{"d", "e"}', '{"f"}'], ['{"a", "b"}', '{""}', '{"c"}', '{"d", "e"}', '{"f"}'], '"${%s}"', False),
    "map[string:int]": (['{"k": 1}', '{"l": 2, "m": 3}', '{"n": 4}', '{"o": 5}', '{"p": 6}'], ['{"k": 1}', '{"l": 2, "m": 3}', '{"n": 4}', '{"o": 5}', '{"p": 6}'], '"${%s}"', False),
    "St": (['St{x: 1, s: "a"}', 'St{x: 2, s: "b"}', 'St{x: 3, s: "c"}', 'St{x: 4, s: ""}', 'St{x: 5, s: "e"}'], ["1/a", "2/b", "3/c", "4/", "5/e"], '"${%s.x}/${%s.s}"', False),
    "En": (["En.A", "En.B", "En.C", "En.A", "En.B"], ["0", "1", "2", "0", "1"], '"${%s}"', False),
    "Es": (["Es.X", "Es.Y", "Es.X", "Es.Y", "Es.X"], ["ex", "wy", "ex", "wy", "ex"], '"${%s}"', False),
}
NAMES = list(TY)
for t in NAMES:
    f = "".join(ch if ch.isalnum() else "_" for ch in t)
    PRE += "do tr%s(k string, v %s) -> %s {\n print(k)\n return v\n}\ndo sh%s(v %s) -> string {\n return %s\n}\n" % (f, t, t, f, t, TY[t][2].replace("%s", "v"))
    for i, l in enumerate(TY[t][0]): PRE += "do mk%s%d() -> %s {\n mut v %s = %s\n return v\n}\n" % (f, i, t, t, l)
fn = lambda t: "".join(ch if ch.isalnum() else "_" for ch in t)
def mk(t, i): return "mk%s%d()" % (fn(t), i)
def tx(t, i): return TY[t][1][i]
def tr(k, t, i): return 'tr%s("%s", %s)' % (fn(t), k, mk(t, i))
def sh(t, e): return "sh%s(%s)" % (fn(t), e)
PN = ["alpha", "register", "z", "alpha2", "count"]
def sig(ts, nd, dv=3):
    return ", ".join("%s %s%s" % (PN[i], t, " = " + TY[t][0][dv] if i >= len(ts) - nd else "") for i, t in enumerate(ts))
def showall(ts): return ' return "' + "|".join("${%s}" % sh(t, PN[i]) for i, t in enumerate(ts)) + '"'
def shapes(k, nd):
    """every accepted call: positional prefix length and an order of the named rest"""
    for p in range(0, k + 1):
        rest = range(p, k); req = [i for i in rest if i < k - nd]; opt = [i for i in rest if i >= k - nd]
        for n in range(len(opt) + 1):
            for sub in itertools.combinations(opt, n):
                for order in itertools.permutations(req + list(sub)): yield p, order
def body(c):
    tc = Toolchain(c.tmp, san=True)
    c.rule = "one evaluation = one call of one signature, accepted (run under AddressSanitizer) or rejected; all distinct"
    th = c.thorough
    b = Batch(c, tc, prelude=PRE, part="calls", per_file=120, opt="-O0")
    def call(name, ts, p, order, skip=0):
        a = [tr("p%d;" % i, ts[i], 0) for i in range(p)] + ["%s: %s" % (PN[i], tr("n%d;" % i, ts[i], 1)) for i in order]
        return "%s(%s)" % (name, ", ".join(a[skip:]))
    def want(ts, p, order, first=0):
        ev = "".join("p%d;" % i for i in range(first, p)) + "".join("n%d;" % i for i in order)
        v = [tx(t, 0) if i < p else tx(t, 1) if i in order else tx(t, 3) for i, t in enumerate(ts)]
        return ev + "|".join(v)
    kinds = [t for t in NAMES if TY[t][3]]
    seen = set()
    def one(ts, nd, p, order, forms):
        key = "%s/%d/%d/%s" % (",".join(ts), nd, p, "".join(map(str, order)))
        for form in forms:
            kk = form + ":" + key
            if kk in seen: continue
            seen.add(kk)
            w = want(ts, p, order)
            if form == "plain": b.add(kk, " println(%s)" % call("f@@", ts, p, order), w, decls="do f@@(%s) -> string {\n%s\n}" % (sig(ts, nd), showall(ts)), desc=kk)
            elif form == "nested": b.add(kk, ' println("${%s}${%s}")' % (call("f@@", ts, p, order), call("f@@", ts, p, order)), (lambda ev, v: ev + ev + v + v if False else None)(0, 0) or nested(ts, p, order), decls="do f@@(%s) -> string {\n%s\n}" % (sig(ts, nd), showall(ts)), desc=kk)
            elif form == "static": b.add(kk, " println(%s)" % call("S@@.f", ts, p, order), w, decls="const S@@ struct {\n q int\n do f(%s) -> string {\n%s\n}\n}" % (sig(ts, nd), showall(ts)), desc=kk)
            elif form == "instance":
                b.add(kk, " mut v S@@ = S@@{q: 42}\n println(%s)" % call("v.f", ts, p, order), w.replace("@", "@") + "|42", decls="const S@@ struct {\n q int\n do f(self S@@%s) -> string {\n%s\n}\n}" % (", " + sig(ts, nd) if ts else "", showall(ts)[:-1] + '|${self.q}"'), desc=kk)
            elif form == "ref" and p == len(ts): b.add(kk, " const r = ()f@@\n println(%s)\n println(%s)" % (call("r", ts, p, order), call("()f@@", ts, p, order)), w + "\n" + w, decls="do f@@(%s) -> string {\n%s\n}" % (sig(ts, nd), showall(ts)), desc=kk)
            elif form == "param" and p == len(ts): b.add(kk, " println(g@@(()f@@))\n println(g@@(ref(f@@)))", w + "\n" + w, decls="do f@@(%s) -> string {\n%s\n}\ndo g@@(h func(%s) -> string) -> string {\n return %s\n}" % (sig(ts, 0), showall(ts), ", ".join(ts), call("h", ts, p, order)), desc=kk)
            elif form == "composite" and p == len(ts):
                b.add(kk, " mut m map[string:func] = {:}\n m[\"a\"] = ()f@@\n const ar [func, 2] = {()h@@, ()f@@}\n mut s string = %s\n println(s)\n s = %s\n println(s)\n const w = W@@{f: ()f@@}\n println(%s)" % (call('m["a"]', ts, p, order), call("ar[1]", ts, p, order), call("w.f", ts, p, order)), w + "\n" + w + "\n" + w,
                      decls="do f@@(%s) -> string {\n%s\n}\ndo h@@(%s) -> string {\n return \"wrong\"\n}\nconst W@@ struct {\n f func(%s) -> string\n}" % (sig(ts, 0), showall(ts), sig(ts, 0), ", ".join(ts)), desc=kk)
    def nested(ts, p, order):
        w = want(ts, p, order); i = w.rfind(";") + 1
        return w[:i] * 2 + w[i:] * 2
    # every call shape of every arity; the types rotate
    for k in range(0, 4 if not th else 5):
        for nd in range(0, k + 1):
            for n, (p, order) in enumerate(shapes(k, nd)):
                rots = range(2 if not th else len(kinds)) if k else [0]
                for r in rots:
                    ts = [(NAMES if i < k - nd else kinds)[(n + r * 5 + i * 7) % len(NAMES if i < k - nd else kinds)] for i in range(k)]
                    one(ts, nd, p, order, ("plain", "static", "instance") if r == 0 else ("plain", "nested"))
    # every type at every position, passed every way
    for t in NAMES:
        for pos in range(3):
            for other in (["int", "string"] if not th else ["int", "string", "float", "St", "u256", "f32"]):
                ts = [other] * 3; ts[pos] = t
                one(ts, 0, 3, (), ("plain", "ref", "param", "composite", "instance", "static"))
                one(ts, 0, 0, (2, 1, 0), ("plain", "instance"))
                one(ts, 0, 1, (2, 1), ("plain",))
                if TY[t][3] and TY[other][3]:
                    for p, order in ((0, ()), (0, (1,)), (1, (2,)), (2, ())): one(ts, 3, p, order, ("plain", "static"))
    for t in NAMES: one([t], 0, 1, (), ("plain", "nested", "ref", "param", "composite", "static", "instance"))
    # grouped parameters
    for t in NAMES:
        i = "gp:" + t
        b.add(i, " println(f@@(%s, %s, %s))\n println(f@@(%s, zz: %s, bb: %s))" % (mk(t, 0), mk(t, 1), mk(t, 2), mk(t, 2), mk(t, 0), mk(t, 1)), "%s|%s|%s\n%s|%s|%s" % (tx(t, 0), tx(t, 1), tx(t, 2), tx(t, 2), tx(t, 1), tx(t, 0)), decls='do f@@(aa, bb, zz %s) -> string {\n return "${%s}|${%s}|${%s}"\n}' % (t, sh(t, "aa"), sh(t, "bb"), sh(t, "zz")))
    # & parameters: written through, by position and by name, beside value parameters
    PL = [("local", " mut v %(t)s = %(i)s", "v"), ("field", " mut s H@@ = H@@{f: %(i)s, g: %(i)s}", "s.f"), ("element", " mut a [%(t)s] = {%(i)s, %(i)s}", "a[1]"), ("mapvalue", ' mut m map[string:%(t)s] = {"a": %(i)s, "b": %(i)s}', 'm["b"]'), ("deep", " mut q [H@@] = {H@@{f: %(i)s, g: %(i)s}, H@@{f: %(i)s, g: %(i)s}}", "q[1].g")]
    for t in NAMES:
        for nm, dl, pl in PL:
            if t[0] in "[m" and nm in ("mapvalue",) : continue
            d = "const H@@ struct {\n f %s\n g %s\n}\n" % (t, t)
            d += "do set@@(k int, &dst %s, v %s) {\n dst = v\n}\ndo two@@(&a %s, &b %s) {\n mut z %s = a\n a = b\n b = z\n}\n" % ((t,) * 5)
            other = {"local": None, "field": "s.g", "element": "a[0]", "mapvalue": 'm["a"]', "deep": "q[1].f"}[nm]
            L = [dl % {"t": t, "i": mk(t, 0)}, " set@@(1, %s, %s)" % (pl, mk(t, 1)), " println(%s)" % sh(t, pl)]
            W = [tx(t, 1)]
            if other: L.append(" println(%s)" % sh(t, other)); W.append(tx(t, 0))
            L += [" set@@(v: %s, dst: %s, k: 3)" % (mk(t, 2), pl), " println(%s)" % sh(t, pl)]; W.append(tx(t, 2))
            L += [" mut o %s = %s" % (t, mk(t, 3)), " two@@(o, %s)" % pl, " println(%s)" % sh(t, "o"), " println(%s)" % sh(t, pl)]; W += [tx(t, 2), tx(t, 3)]
            if other: L.append(" println(%s)" % sh(t, other)); W.append(tx(t, 0)); L += [" two@@(%s, %s)" % (pl, other), " println(%s)" % sh(t, pl), " println(%s)" % sh(t, other)]; W += [tx(t, 0), tx(t, 3)]
            b.add("byref:%s:%s" % (nm, t), "\n".join(L), "\n".join(W), decls=d)
    # several results: every pair of types, every discard set, through every call form
    def results(ts, tag):
        k = len(ts)
        d = "do f@@() -> (%s) {\n return %s\n}\n" % (", ".join(ts), ", ".join(mk(t, i) for i, t in enumerate(ts)))
        d += "do n@@() -> (%s) {\n%s\n return %s\n}\n" % (", ".join("r%d %s" % (i, t) for i, t in enumerate(ts)), "\n".join(" mut r%d %s = %s" % (i, t, mk(t, i)) for i, t in enumerate(ts)), ", ".join("r%d" % i for i in range(k)))
        d += "const S@@ struct {\n q int\n do f() -> (%s) {\n  return %s\n }\n}\n" % (", ".join(ts), ", ".join(mk(t, i) for i, t in enumerate(ts)))
        L = []; W = []; u = 0
        for src in ("f@@()", "n@@()", "S@@.f()"):
            for m in range(1, 2 ** k):
                if src != "f@@()" and m != 2 ** k - 1: continue
                names = ["v%d_%d" % (u, i) if m >> i & 1 else "_" for i in range(k)]; u += 1
                L.append(" %s %s = %s" % ("mut" if u % 2 else "const", ", ".join(names), src))
                for i, n in enumerate(names):
                    if n != "_": L.append(" println(%s)" % sh(ts[i], n)); W.append(tx(ts[i], i))
        b.add("results:%s:%s" % (tag, ",".join(ts)), "\n".join(L), "\n".join(W), decls=d)
    for x in NAMES:
        for y in NAMES: results([x, y], "pair")
    for i, x in enumerate(NAMES):
        for y in (NAMES if th else NAMES[i % 3::3]): results([x, y, NAMES[(i * 5 + 3) % len(NAMES)]], "triple"); results([y, NAMES[(i * 7 + 1) % len(NAMES)], x, "int"], "quad")
    # generic functions: every type, several instantiations in one program
    for t in NAMES:
        for u in (NAMES if th else ["int", "string", "St", "f32", "u256", "[int]"]):
            d = "do idf@@(x ?) -> ? {\n return x\n}\ndo sec@@(a ?, n int, b ?) -> ? {\n if n == 0 {\n  return a\n }\n return b\n}\ndo fst@@(a [?]) -> ? {\n return a[0]\n}\n"
            L = []; W = []
            for q in (t, u):
                L += [" println(%s)" % sh(q, "idf@@(%s)" % mk(q, 0)), " println(%s)" % sh(q, "sec@@(%s, 0, %s)" % (mk(q, 0), mk(q, 1))), " println(%s)" % sh(q, "sec@@(b: %s, n: 1, a: %s)" % (mk(q, 1), mk(q, 0)))]
                W += [tx(q, 0), tx(q, 0), tx(q, 1)]
                if q[0] not in "[m":
                    L += [" mut ar%d [%s] = {%s, %s}" % (len(L), q, mk(q, 2), mk(q, 1)), None]; L[-1] = " println(%s)" % sh(q, "fst@@(ar%d)" % (len(L) - 2)); W.append(tx(q, 2))
                if t == u: break
            b.add("generic:%s:%s" % (t, u), "\n".join(L), "\n".join(W), decls=d)
    # recursion keeps each activation's parameters
    for t in NAMES:
        d = "do rec@@(n int, v %s, w %s) -> string {\n if n == 0 {\n  return %s\n }\n mut r string = rec@@(n - 1, w, v)\n return \"${r},${n}${%s}\"\n}\n" % (t, t, sh(t, "v"), sh(t, "v"))
        def r(n, v, w): return tx(t, v) if n == 0 else r(n - 1, w, v) + "," + str(n) + tx(t, v)
        b.add("rec:" + t, " println(rec@@(4, %s, %s))\n println(rec@@(w: %s, n: 3, v: %s))" % (mk(t, 0), mk(t, 1), mk(t, 1), mk(t, 0)), r(4, 0, 1) + "\n" + r(3, 0, 1), decls=d)
    # defaults are evaluated anew and by value
    b.add("defaults:fresh", ' println(f@@())\n println(f@@("x"))\n println(f@@())\n println(f@@(b: 3))', "d7\nx7\nd7\nd3", decls='do f@@(a string = "d", b int = 7) -> string {\n return "${a}${b}"\n}')
    b.go()
    # rejected calls
    rej = []
    F = "do f(a int, b string, d int = 5, e bool = true) -> int {\n return a + d\n}\n"
    for args, why in (("", "none"), ("1", "missing b"), ('b: "x"', "missing a"), ("a: 1", "missing b named"), ("1, d: 3", "missing b, default named"), ('1, "x", 2, true, 5', "too many"), ('1, "x", a: 1', "a twice"), ('1, "x", b: "y"', "b twice"), ('a: 1, a: 2, b: "x"', "a named twice"), ('1, "x", d: 1, d: 2', "d named twice"), ('a: 1, "x"', "positional after named"), ('b: "x", 1', "positional after named 2"), ('1, "x", c: 1', "unknown"), ('1, "x", A: 1', "wrong case"), ('a: 1, b: "x", f: 1', "unknown 2"), ('1, "x", 2, d: 3', "d twice"), ('1, "x", 2, true, e: false', "e twice"), ('"x", 1', "swapped"), ('a: "x", b: 1', "swapped named"), ('1, "x", e: 1', "wrong type named 2"), ('1, 2', "wrong type"), ("1.5, \"x\"", "float for int"), ("nil, \"x\"", "nil for int")):
        rej.append(("call:" + why, F + "do main() {\n println(f(%s))\n}\n" % args))
        rej.append(("static:" + why, "const S struct {\n q int\n " + F + "}\ndo main() {\n println(S.f(%s))\n}\n" % args))
        rej.append(("instance:" + why, "const S struct {\n q int\n " + F.replace("(a", "(self S, a") + "}\ndo main() {\n mut s S = S{q: 1}\n println(s.f(%s))\n}\n" % args))
        if ":" not in args:
            rej.append(("param:" + why, "do g(h func(int, string, int, bool) -> int) -> int {\n return h(%s)\n}\ndo f(a int, b string, d int, e bool) -> int {\n return a\n}\ndo main() {\n println(g(()f))\n}\n" % args))
            rej.append(("inline:" + why, "do f(a int, b string, d int, e bool) -> int {\n return a\n}\ndo main() {\n println(()f(%s))\n}\n" % args))
            rej.append(("ref:" + why, "do f(a int, b string, d int, e bool) -> int {\n return a\n}\ndo main() {\n const r = ()f\n println(r(%s))\n}\n" % args))
    for why, src in (("default before required", "do f(a int = 1, b int) -> int {\n return a\n}\ndo main() {\n println(f(1, 2))\n}\n"), ("default wrong type", 'do f(a int = "x") -> int {\n return a\n}\ndo main() {\n println(f())\n}\n'), ("duplicate parameter", "do f(a int, a int) -> int {\n return a\n}\ndo main() {\n println(f(1, 2))\n}\n"),
                     ("too few results", "do f() -> (int, int) {\n return 1\n}\ndo main() {\n mut a, b = f()\n println(a + b)\n}\n"), ("too many results", "do f() -> (int, int) {\n return 1, 2, 3\n}\ndo main() {\n mut a, b = f()\n println(a + b)\n}\n"), ("swapped results", 'do f() -> (int, string) {\n return "x", 1\n}\ndo main() {\n mut a, b = f()\n println("${a}${b}")\n}\n'),
                     ("bind too few", "do f() -> (int, int, int) {\n return 1, 2, 3\n}\ndo main() {\n mut a, b = f()\n println(a + b)\n}\n"), ("bind too many", "do f() -> (int, int) {\n return 1, 2\n}\ndo main() {\n mut a, b, d = f()\n println(a + b + d)\n}\n"), ("bind single", "do f() -> (int, int) {\n return 1, 2\n}\ndo main() {\n mut a int = f()\n println(a)\n}\n"), ("no result", "do f() {\n println(1)\n}\ndo main() {\n mut a int = f()\n println(a)\n}\n"), ("missing return", "do f(a int) -> int {\n if a > 1 {\n  return 2\n }\n}\ndo main() {\n println(f(1))\n}\n"), ("return in void", "do f() {\n return 1\n}\ndo main() {\n f()\n}\n"),
                     ("generic conflict", 'do f(a ?, b ?) -> ? {\n return a\n}\ndo main() {\n println(f(1, "x"))\n}\n'), ("generic result", "do f(a ?) -> ? {\n return a\n}\ndo main() {\n mut s string = f(1)\n println(s)\n}\n"), ("func signature args", "do g(h func(int) -> int) -> int {\n return h(1)\n}\ndo f(a string) -> int {\n return 1\n}\ndo main() {\n println(g(()f))\n}\n"), ("func signature result", 'do g(h func(int) -> int) -> int {\n return h(1)\n}\ndo f(a int) -> string {\n return ""\n}\ndo main() {\n println(g(()f))\n}\n'), ("func signature count", "do g(h func(int) -> int) -> int {\n return h(1)\n}\ndo f(a int, b int) -> int {\n return 1\n}\ndo main() {\n println(g(()f))\n}\n"),
                     ("func const type", "do f(a int) -> int {\n return 1\n}\ndo main() {\n const h func(string) -> int = ()f\n println(h(\"x\"))\n}\n"), ("func field type", "const W struct {\n f func(int) -> int\n}\ndo f(a string) -> int {\n return 1\n}\ndo main() {\n const w = W{f: ()f}\n println(w.f(1))\n}\n"), ("byref literal", "do f(&a int) {\n a = 2\n}\ndo main() {\n f(1)\n}\n"), ("byref const", "do f(&a int) {\n a = 2\n}\ndo main() {\n const q int = 1\n f(q)\n}\n"), ("byref call", "do g() -> int {\n return 1\n}\ndo f(&a int) {\n a = 2\n}\ndo main() {\n f(g())\n}\n"), ("byref other type", "do f(&a int) {\n a = 2\n}\ndo main() {\n mut q string = \"\"\n f(q)\n}\n"), ("byref sized", "do f(&a int) {\n a = 2\n}\ndo main() {\n mut q i8 = cast(1, i8)\n f(q)\n println(q)\n}\n"), ("byref float", "do f(&a float) {\n a = 2.0\n}\ndo main() {\n mut q int = 1\n f(q)\n println(q)\n}\n"), ("value parameter assigned", "do f(a int) {\n a = 2\n}\ndo main() {\n f(1)\n}\n"),
                     ("builtin named", 'do main() {\n println(value: "x")\n}\n'), ("undefined", "do main() {\n println(zork(1))\n}\n"), ("reading blank", "do f() -> (int, int) {\n return 1, 2\n}\ndo main() {\n mut a, _ = f()\n println(a + _)\n}\n")):
        rej.append(("decl:" + why, src))
    d = os.path.join(c.tmp, "rej"); os.makedirs(d, exist_ok=True)
    def reject(i):
        p = os.path.join(d, "r%d.gray" % i); open(p, "w").write(rej[i][1])
        q = run([tc.grayc, "check", p], 20, env=tc.env)
        o = os.path.join(d, "x%d" % i)
        if q.returncode == 0:
            q2 = run([tc.grayc, "build", p, "-o", o], 60, env=tc.env)
            return "accepted by check; build exit %d %s" % (q2.returncode, (q2.stderr or b"").decode(errors="replace")[:200])
        if b"error[" not in q.stdout + q.stderr: return "rejected without an error code: exit %d %s" % (q.returncode, (q.stdout + q.stderr)[:200])
        return None
    for (k, src), r in zip(rej, pmap(reject, range(len(rej)))):
        c.count("reject", 1)
        if r: c.violation("reject:" + k, r, {"program": src})
main("C47", body, level="exploration", quick_s=140, thorough_s=800)
