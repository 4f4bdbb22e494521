"""C06: ensure runs once per exit, or_return propagates errors."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from grid import *

PRE = '''
mut g int = 0
do mark(k int) {
 println("e${k}")
 g = g * 3 + k
}
do markv(k int) -> int {
 println("e${k}")
 g = g * 3 + k
 return g
}
do fall(bad bool, v int) -> (int, Error) {
 println("f${v}")
 if bad { return 0 - v, error("bad${v}") }
 return v, nil
}
do clear(&q [int]) {
 println("clr")
 if len(q) > 0 { q[0] = 77 }
 arrays.append(q, 5)
}
do inner(a int) -> int {
 ensure mark(7)
 if a % 2 == 0 { return 40 + a }
 ensure mark(8)
 return 50 + a
}
'''
# kind -> (return type, return expression at exit n, python value)
KINDS = {
 "void": ("", "", None),
 "int": (" -> int", "g * 100 + %d", lambda g, n: str(g * 100 + n)),
 "str": (" -> string", '"r${g}-%d"', lambda g, n: "r%d-%d" % (g, n)),
 "arr": (" -> [int]", "{g, %d}", lambda g, n: "{%d, %d}" % (g, n)),
 "err": (" -> (int, Error)", "g * 100 + %d, nil", lambda g, n: "%d nil" % (g * 100 + n)),
 "err3": (" -> (int, string, Error)", 'g * 100 + %d, "s${g}", nil', lambda g, n: "%d s%d nil" % (g * 100 + n, g)),
}
def item_src(it, j, kind):
    r = "return" + (" " + (KINDS[kind][1].replace("%d", str(j))) if KINDS[kind][1] else "")
    if it == "E": return " ensure mark(%d)" % (j + 1)
    if it == "EA": return " ensure markv(g + %d)" % (j + 1)
    if it == "P": return ' println("p%d")\n g += %d' % (j, j + 2)
    if it == "C": return " mut c%d int = inner(a)\n println(c%d)" % (j, j)
    if it == "Rif": return ' if a == %d {\n  println("x%d")\n  %s\n }' % (j, j, r)
    if it == "Rfor": return ' for i%d in range(0, 3) {\n  for_each s%d in "ab" {\n   if a == %d && i%d == 1 && s%d == \'b\' { %s }\n  }\n }' % (j, j, j, j, j, r)
    if it == "Rwhen": return ' when a {\n  is %d {\n   mut w%d int = 0\n   while true {\n    w%d++\n    if w%d > 2 { %s }\n   }\n  }\n  default { g += 1 }\n }' % (j, j, j, j, r)
    if it == "O": return " mut o%d int = fall(a == %d, %d) or_return\n g += o%d" % (j, j, j + 1, j)
    if it == "Oin": return " for k%d in range(0, 2) {\n  if a >= 0 {\n   mut o%d int = fall(a == %d && k%d == 1, %d) or_return\n   g += o%d\n  }\n }" % (j, j, j, j, j + 1, j)
    if it == "OF":
        fb = "g * 7" if kind == "err" else 'g * 7, "fb${g}"'
        return " mut o%d int = fall(a == %d, %d) or_return %s\n g += o%d" % (j, j, j + 1, fb, j)
    raise KeyError(it)

class Out(Exception): pass

def run(items, kind, a, g, out):
    """reference: returns (value text, g)"""
    st = {"g": g}; ens = []
    def mark(k): out.append("e%d" % k); st["g"] = st["g"] * 3 + k
    val = None
    def ret(n):
        f = KINDS[kind][2]
        return f(st["g"], n) if f else None
    for j, it in enumerate(items):
        if it == "E": ens.append(lambda j=j: mark(j + 1))
        elif it == "EA": ens.append(lambda j=j: mark(st["g"] + j + 1))
        elif it == "P": out.append("p%d" % j); st["g"] += j + 2
        elif it == "C":
            if a % 2 == 0: v = 40 + a; mark(7)
            else: v = 50 + a; mark(8); mark(7)
            out.append(str(v))
        elif it == "Rif":
            if a == j: out.append("x%d" % j); val = (ret(j),); break
        elif it == "Rfor":
            if a == j: val = (ret(j),); break
        elif it == "Rwhen":
            if a == j: val = (ret(j),); break
            st["g"] += 1
        elif it in ("O", "OF", "Oin"):
            for k in range(2 if it == "Oin" else 1):
                out.append("f%d" % (j + 1))
                if a == j and (it != "Oin" or k == 1):
                    z = ("%d" % (st["g"] * 7) if it == "OF" else "0")
                    if kind == "err3": z += " " + ("fb%d" % st["g"] if it == "OF" else "")
                    val = ("%s bad%d" % (z, j + 1),); break
                st["g"] += j + 1
            if val: break
    if val is None: val = (ret(len(items)),)
    for e in reversed(ens): e()
    return val[0], st["g"]

def caller(kind, n):
    t = [" for a in range(0, %d) {\n  g = a" % (n + 1)]
    if kind == "void": t.append("  fn@@(a)")
    elif kind in ("int", "str", "arr"):
        t.append("  mut r %s = fn@@(a)\n  println(\"=${r}\")" % KINDS[kind][0][4:])
    elif kind == "err": t.append("  mut r int, e Error = fn@@(a)\n  if e == nil { println(\"=${r} nil\") } otherwise { println(\"=${r} ${e.message}\") }")
    else: t.append("  mut r int, s string, e Error = fn@@(a)\n  if e == nil { println(\"=${r} ${s} nil\") } otherwise { println(\"=${r} ${s} ${e.message}\") }")
    t.append("  println(\"g${g}\")\n }")
    return "\n".join(t)

def body(c):
    tc = Toolchain(c.tmp)
    c.rule = ("one evaluation = one function (a sequence of ensures, conditional exits of every kind and or_returns, for one result type) called so that it leaves through each of its exits, "
              "or one propagation shape; all distinct")
    b = Batch(c, tc, prelude=PRE, imports=["arrays"], part="exits", per_file=200, opt="-O0")
    seqs = []
    for kind in KINDS:
        err = kind.startswith("err")
        A = ["E", "Rif", "Rfor", "Rwhen", "P"] + (["O", "OF", "Oin"] if err else ["EA", "C"])
        for n in range(0, 4):
            seqs += [(kind, s) for s in itertools.product(A, repeat=n)]
        B = ["E", "Rif", "O"] if err else ["E", "Rif", "Rwhen"]
        if c.thorough: B = ["E", "Rif", "Rwhen", "P"] + (["O", "OF"] if err else ["EA"])
        seqs += [(kind, s) for s in itertools.product(B, repeat=4) if "E" in s]
        if c.thorough: seqs += [(kind, s) for s in itertools.product(["E", "Rif", "O" if err else "Rfor"], repeat=5) if "E" in s]
    for kind, items in seqs:
        n = len(items)
        fin = "" if kind == "void" else " return " + KINDS[kind][1].replace("%d", str(n)) + "\n"
        decl = "do fn@@(a int)%s {\n%s\n%s}" % (KINDS[kind][0], "\n".join(item_src(it, j, kind) for j, it in enumerate(items)), fin)
        out = []
        for a in range(n + 1):
            v, g = run(items, kind, a, a, out)
            if v is not None: out.append("=" + v)
            out.append("g%d" % g)
        b.add("exit:%s:%s" % (kind, ",".join(items)), caller(kind, n), "\n".join(out), decls=decl)
    b.go()
    # propagation of every value type, through one and two levels, with zero and given fallbacks
    b = Batch(c, tc, prelude=PRE + "\nconst Pt struct {\n x int\n name string\n}\nconst Col enum {\n RED\n BLUE\n}\n", imports=["arrays"], part="or_return", per_file=60, opt="-O0")
    T = {"int": ("5", "5", "0", "9", "9"), "string": ('"ok"', "ok", "", '"fb${n}"', "fb3"), "bool": ("true", "true", "false", "true", "true"), "float": ("2.5", "2.5", None, "1.25", "1.25"),
         "[int]": ("{1, 2}", "{1, 2}", "{}", "{7}", "{7}"), "[string]": ('{"a", "b"}', '{"a", "b"}', "{}", '{"q${n}"}', '{"q3"}'), "map[string:int]": ('{"k": 1}', "1", "0", '{"z": 1, "y": 2}', "2"),
         "Pt": ('Pt{x: 3, name: "n${n}"}', "3 n3", "0 ", 'Pt{x: 8, name: "m${n}"}', "8 m3"), "i128": ("cast(77, i128)", "77", "0", "cast(5, i128)", "5"), "char": ("'c'", "c", None, "'d'", "d"),
         "u8": ("200", "200", "0", "7", "7"), "uint": ("cast(3, uint)", "3", "0", "cast(4, uint)", "4")}
    def show(t, v):
        return {"map[string:int]": "println(len(%s))" % v, "Pt": 'println("${%s.x} ${%s.name}")' % (v, v)}.get(t, 'println("${%s}")' % v)
    for (t, (ok, okt, zero, fb, fbt)), form, lvl, deepnest in itertools.product(T.items(), ("bare", "fb"), (1, 2), (0, 1)):
        d = ["do src@@(bad bool, n int) -> (%s, Error) {\n if bad { return %s, error(\"no ${n}\") }\n mut churn string = \"x${n}\"\n return %s, nil\n}" % (t, fb, ok)]
        use = "or_return" + (" " + fb if form == "fb" else "")
        inner = "   mut v %s = src@@(bad, n) %s\n   return v, nil" % (t, use)
        if deepnest: inner = "   for i in range(0, 2) {\n    if i == 1 {\n  %s\n    }\n   }\n   return %s, nil" % (inner, ok)
        d.append("do mid@@(bad bool, n int) -> (%s, Error) {\n ensure mark(1)\n%s\n}" % (t, inner))
        top = "mid@@"
        if lvl == 2:
            d.append("do top@@(bad bool, n int) -> (%s, Error) {\n ensure mark(2)\n mut w %s = mid@@(bad, n) or_return\n return w, nil\n}" % (t, t)); top = "top@@"
        z = zero if form == "bare" or lvl == 2 else fbt
        if z is None and (form == "bare" or lvl == 2): z = {"float": "0.0", "char": "\0"}[t]
        e = ["e1"] + (["e2"] if lvl == 2 else [])
        exp = e + [okt, "nil"] + e + ([z] if t != "char" or z != "\0" else []) + ["no 3"]
        sh = show(t, "v")
        code = (" g = 0\n mut v %s, x Error = %s(false, 3)\n %s\n if x == nil { println(\"nil\") }\n" % (t, top, sh) +
                " g = 0\n mut v2 %s, x2 Error = %s(true, 3)\n %s if x2 != nil { println(x2.message) }" % (t, top, (show(t, "v2") + "\n") if not (t == "char" and z == "\0") else ""))
        b.add("prop:%s:%s:%d:%d" % (t, form, lvl, deepnest), code, "\n".join(exp), decls="\n".join(d))
    # forms of the call, discarded values, results of different types, ensures that change what is returned
    H = PRE
    def one(key, decl, code, exp): b.add("form:" + key, code, exp, decls=decl)
    one("discard", "do d@@(bad bool) -> (int, Error) {\n _ = fall(bad, 4) or_return\n println(\"on\")\n return 1, nil\n}", " mut r int, e Error = d@@(false)\n println(\"${r}\")\n mut r2 int, e2 Error = d@@(true)\n println(\"${r2} ${e2.message}\")", "f4\non\n1\nf4\n0 bad4")
    one("untyped", "do d@@(bad bool) -> (string, Error) {\n mut v = fall(bad, 4) or_return\n return \"<${v}>\", nil\n}", " mut r string, e Error = d@@(false)\n println(r)\n mut r2 string, e2 Error = d@@(true)\n println(\"[${r2}] ${e2.message}\")", "f4\n<4>\nf4\n[] bad4")
    one("ensure-array", "do d@@() -> [int] {\n mut q [int] = {1, 2}\n ensure clear(q)\n return q\n}", " mut r [int] = d@@()\n println(\"${r}\")", "clr\n{1, 2}")
    one("ensure-array2", "do d@@() -> ([int], Error) {\n mut q [int] = {1, 2}\n ensure clear(q)\n return q, nil\n}", " mut r [int], e Error = d@@()\n println(\"${r}\")", "clr\n{1, 2}")
    one("ensure-param", "do d@@(&q [int]) -> int {\n ensure clear(q)\n return len(q)\n}", " mut r [int] = {1, 2}\n mut n int = d@@(r)\n println(\"${n} ${r}\")", "clr\n2 {77, 2, 5}")
    one("ensure-rec", "do d@@(n int) -> int {\n ensure mark(n)\n if n == 0 { return 0 }\n return n + d@@(n - 1)\n}", " println(d@@(4))", "e0\ne1\ne2\ne3\ne4\n10")
    one("ensure-loopcall", "do d@@(n int) {\n ensure mark(n)\n if n == 1 { return }\n println(\"b${n}\")\n}", " for i in range(0, 3) { d@@(i) }", "b0\ne0\ne1\nb2\ne2")
    one("ensure-method", "const S@@ struct {\n v int\n do go(self S@@) -> int {\n  ensure mark(self.v)\n  if self.v > 2 { return 1 }\n  ensure mark(9)\n  return 2\n }\n}", " mut s S@@ = S@@{v: 1}\n println(s.go())\n s.v = 3\n println(s.go())", "e9\ne1\n2\ne3\n1")
    one("ensure-generic", "do d@@(x ?) -> ? {\n ensure mark(6)\n return x\n}", " println(d@@(3))\n println(d@@(\"s\"))", "e6\n3\ne6\ns")
    one("ensure-only", "do d@@() {\n ensure mark(1)\n ensure mark(2)\n ensure mark(1)\n}", " d@@()\n d@@()", "e1\ne2\ne1\ne1\ne2\ne1")
    one("ensure-named", "do d@@() -> (res int) {\n mut res int = 4\n ensure mark(3)\n return res\n}", " println(d@@())", "e3\n4")
    b.go()
main("C06", body)
