"""C11: copies are independent and mutable references alias exactly."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import copy as cp, re

# A shape: (type, literal, python value, [(mutation of an l-value, python mutation)], dump expression text builder)
# Values are modelled in Python: list, dict, int, str, Obj (struct).
class Obj(dict): pass
def dump(v):
    if isinstance(v, Obj): return "<" + ";".join(dump(x) for x in v.values()) + ">"
    if isinstance(v, list): return "{" + ", ".join(dumpq(x) for x in v) + "}"
    if isinstance(v, dict): return "{:}" if not v else "{" + ", ".join("%s: %s" % (dumpq(k), dumpq(x)) for k, x in v.items()) + "}"
    if isinstance(v, bool): return "true" if v else "false"
    if isinstance(v, float): return repr(v)
    return str(v)
def dumpq(v): return '"%s"' % v if isinstance(v, str) else dump(v)

PRE = """
const P struct {
 x int
 s string
}
const A struct {
 a [int]
 n int
}
const M struct {
 m map[string:int]
}
const N struct {
 p P
 q A
}
const D struct {
 pa [P]
 aa [A]
 mp map[string:P]
}
const W struct {
 b i8
 u u16
 f f32
 big i128
 w [i8]
}
do dP(v P) -> string { return "<${v.x};${v.s}>" }
do dA(v A) -> string { return "<${v.a};${v.n}>" }
do dM(v M) -> string { return "<${v.m}>" }
do dN(v N) -> string { return "<${dP(v.p)};${dA(v.q)}>" }
do dD(v D) -> string {
 mut r string = "<{"
 for_each i, p in v.pa {
  if i > 0 { r = "${r}, " }
  r = "${r}${dP(p)}"
 }
 r = "${r}};{"
 for_each i, p in v.aa {
  if i > 0 { r = "${r}, " }
  r = "${r}${dA(p)}"
 }
 r = "${r}};{"
 mut i int = 0
 for_each k, p in v.mp {
  if i > 0 { r = "${r}, " }
  r = "${r}\\"${k}\\": ${dP(p)}"
  i++
 }
 return "${r}}>"
}
do dW(v W) -> string { return "<${v.b};${v.u};${v.f};${v.big};${v.w}>" }
do dPS(v [P]) -> string {
 mut r string = "{"
 for_each i, p in v {
  if i > 0 { r = "${r}, " }
  r = "${r}${dP(p)}"
 }
 return "${r}}"
}
do dAS(v [A]) -> string {
 mut r string = "{"
 for_each i, p in v {
  if i > 0 { r = "${r}, " }
  r = "${r}${dA(p)}"
 }
 return "${r}}"
}
"""
def setp(*path):
    def f(v, new):
        for k in path[:-1]: v = v[k]
        v[path[-1]] = new
        return None
    return f
def S(code, *path, new=None):
    """an assignment of a constant below the value"""
    return (code, lambda v: setp(*path)(v, new))
def app(l, x): l.append(x)
P1 = lambda: Obj(x=1, s="a"); 
SH = {
 "int": ("int", "5", lambda: 5, [("@ = 9", lambda v: 9), ("@ += 3", lambda v: v + 3), ("@++", lambda v: v + 1)], "${@}"),
 "string": ("string", '"ab"', lambda: "ab", [('@ = "new"', lambda v: "new"), ('@ = "${@}!"', lambda v: v + "!")], "${@}"),
 "[int]": ("[int]", "{1, 2}", lambda: [1, 2], [S("@[0] = 9", 0, new=9), ("@[1] += 5", lambda v: setp(1)(v, 7)), ("arrays.append(@, 3)", lambda v: app(v, 3)), ("arrays.clear(@)", lambda v: v.clear()), ("arrays.remove_at(@, 0)", lambda v: v.pop(0) and None), ("@ = {7}", lambda v: [7]), ("arrays.prepend(@, 4)", lambda v: v.insert(0, 4)), ("arrays.sort_desc(@)", lambda v: v.sort(reverse=True))], "${@}"),
 "[string]": ("[string]", '{"p", "q"}', lambda: ["p", "q"], [S('@[0] = "z${1}"', 0, new="z1"), ('arrays.append(@, "w")', lambda v: app(v, "w"))], "${@}"),
 "[i8]": ("[i8]", "{cast(1, i8), cast(-2, i8)}", lambda: [1, -2], [S("@[0] = cast(9, i8)", 0, new=9), ("@[1]++", lambda v: setp(1)(v, -1)), ("arrays.append(@, cast(3, i8))", lambda v: app(v, 3))], "${@}"),
 "[[int]]": ("[[int]]", "{{1}, {2, 3}}", lambda: [[1], [2, 3]], [S("@[0][0] = 9", 0, 0, new=9), ("arrays.append(@[1], 4)", lambda v: app(v[1], 4)), S("@[0] = {5}", 0, new=[5]), ("arrays.append(@, {6})", lambda v: app(v, [6]))], "${@}"),
 "[P]": ("[P]", '{P{x: 1, s: "a"}, P{x: 2, s: "b"}}', lambda: [P1(), Obj(x=2, s="b")], [S("@[0].x = 9", 0, "x", new=9), S('@[1].s = "k"', 1, "s", new="k"), ("arrays.append(@, P{x: 3, s: \"c\"})", lambda v: app(v, Obj(x=3, s="c")))], "${dPS(@)}"),
 "[A]": ("[A]", '{A{a: {1}, n: 1}}', lambda: [Obj(a=[1], n=1)], [S("@[0].n = 9", 0, "n", new=9), S("@[0].a[0] = 8", 0, "a", 0, new=8), ("arrays.append(@[0].a, 5)", lambda v: app(v[0]["a"], 5))], "${dAS(@)}"),
 "map": ("map[string:int]", '{"k": 1}', lambda: {"k": 1}, [S('@["k"] = 9', "k", new=9), ('@["k"] += 4', lambda v: setp("k")(v, 5)), S('@["z"] = 2', "z", new=2), ('maps.remove_key(@, "k")', lambda v: v.pop("k") and None), ("maps.clear(@)", lambda v: v.clear())], "${@}"),
 "mapa": ("map[string:[int]]", '{"k": {1}}', lambda: {"k": [1]}, [S('@["k"] = {9}', "k", new=[9]), ('@["k"][0] = 4', lambda v: setp("k", 0)(v, 4)), S('@["z"] = {}', "z", new=[])], "${@}"),
 "P": ("P", 'P{x: 1, s: "a"}', P1, [S("@.x = 9", "x", new=9), S('@.s = "q${3}"', "s", new="q3"), ("@.x += 6", lambda v: setp("x")(v, 7)), ('@ = P{x: 7, s: "n"}', lambda v: Obj(x=7, s="n"))], "${dP(@)}"),
 "A": ("A", 'A{a: {1, 2}, n: 3}', lambda: Obj(a=[1, 2], n=3), [S("@.a[0] = 9", "a", 0, new=9), S("@.n = 4", "n", new=4), ("arrays.append(@.a, 7)", lambda v: app(v["a"], 7)), S("@.a = {8}", "a", new=[8])], "${dA(@)}"),
 "M": ("M", 'M{m: {"k": 1}}', lambda: Obj(m={"k": 1}), [S('@.m["k"] = 9', "m", "k", new=9), S('@.m["z"] = 2', "m", "z", new=2), ('maps.remove_key(@.m, "k")', lambda v: v["m"].pop("k") and None)], "${dM(@)}"),
 "N": ("N", 'N{p: P{x: 1, s: "a"}, q: A{a: {1}, n: 2}}', lambda: Obj(p=P1(), q=Obj(a=[1], n=2)), [S("@.p.x = 9", "p", "x", new=9), S("@.q.a[0] = 8", "q", "a", 0, new=8), ("arrays.append(@.q.a, 5)", lambda v: app(v["q"]["a"], 5)), S("@.q.n = 6", "q", "n", new=6), S('@.p = P{x: 4, s: "z"}', "p", new=Obj(x=4, s="z"))], "${dN(@)}"),
 "D": ("D", 'D{pa: {P{x: 1, s: "a"}}, aa: {A{a: {1}, n: 1}}, mp: {"k": P{x: 2, s: "m"}}}', lambda: Obj(pa=[P1()], aa=[Obj(a=[1], n=1)], mp={"k": Obj(x=2, s="m")}),
       [S("@.pa[0].x = 9", "pa", 0, "x", new=9), S("@.aa[0].a[0] = 8", "aa", 0, "a", 0, new=8), ("arrays.append(@.aa[0].a, 5)", lambda v: app(v["aa"][0]["a"], 5)), S('@.mp["k"] = P{x: 6, s: "r"}', "mp", "k", new=Obj(x=6, s="r"))], "${dD(@)}"),
 "W": ("W", "W{b: cast(-3, i8), u: cast(60000, u16), f: cast(1.5, f32), big: 77, w: {cast(1, i8)}}",
       lambda: Obj(b=-3, u=60000, f=1.5, big=77, w=[1]), [S("@.b = cast(7, i8)", "b", new=7), S("@.u = cast(1, u16)", "u", new=1), S("@.f = cast(2.5, f32)", "f", new=2.5), S("@.big = cast(5, i128)", "big", new=5), ("@.b++", lambda v: setp("b")(v, -2)), S("@.w[0] = cast(4, i8)", "w", 0, new=4)], "${dW(@)}"),
}
FIELD = {k: "F%d" % i for i, k in enumerate(SH)}
def shape_prelude(k):
    T, lit, mk, muts, d = SH[k]; F = FIELD[k]
    o = ["const %s struct {\n v %s\n z int\n}\nconst G%s struct {\n f %s\n}" % (F, T, F, F)]
    for i, (code, _) in enumerate(muts): o.append("do mut_%s_%d(&v %s) {\n %s\n}" % (F, i, T, code.replace("@", "v")))
    o.append("do show_%s(v %s) { println(\"%s\") }" % (F, T, d.replace("@", "v")))
    o.append("do id_%s(v %s) -> %s {\n mut w %s = v\n return w\n}" % (F, T, T, T))
    o.append("do fresh_%s() -> %s {\n mut w %s = %s\n return w\n}" % (F, T, T, lit))
    o.append("do two_%s() -> (%s, int) {\n mut w %s = %s\n return w, 5\n}" % (F, T, T, lit))
    o.append("mut glob_%s %s = %s" % (F, T, {"int": "0", "string": '""'}.get(T, "{:}" if T.startswith("map") else "{}" if T.startswith("[") else lit)))
    return PRE + "\n".join(o) + "\n"

# how a second value comes from the first: (statements that make b from a, owner and copy expressions)
def transfers(T, k, lit):
    F = FIELD[k]
    yield "decl", " mut a %s = %s\n mut b %s = a\n" % (T, lit, T), "a", "b"
    yield "assign", " mut a %s = %s\n mut b %s = fresh_%s()\n b = a\n" % (T, lit, T, F), "a", "b"
    yield "assign-in-if", " mut a %s = %s\n mut b %s = fresh_%s()\n if len(\"x\") == 1 { b = a }\n" % (T, lit, T, F), "a", "b"
    yield "assign-in-loop", " mut a %s = %s\n mut b %s = fresh_%s()\n for i in range(0, 2) { b = a }\n" % (T, lit, T, F), "a", "b"
    yield "copy", " mut a %s = %s\n mut b %s = copy(a)\n" % (T, lit, T), "a", "b"
    yield "copy-assign", " mut a %s = %s\n mut b %s = fresh_%s()\n b = copy(a)\n" % (T, lit, T, F), "a", "b"
    yield "copy-field", " mut h %s = %s{v: %s, z: 1}\n mut b %s = copy(h.v)\n" % (F, F, lit, T), "h.v", "b"
    yield "copy-into-field", " mut a %s = %s\n mut h %s = %s{v: copy(a), z: 1}\n" % (T, lit, F, F), "a", "h.v"
    yield "copy-field-assign", " mut a %s = %s\n mut h %s = %s{v: fresh_%s(), z: 1}\n h.v = copy(a)\n" % (T, lit, F, F, F), "a", "h.v"
    yield "struct-decl", " mut h %s = %s{v: %s, z: 1}\n mut g %s = h\n" % (F, F, lit, F), "h.v", "g.v"
    yield "struct-assign", " mut h %s = %s{v: %s, z: 1}\n mut g %s = %s{v: fresh_%s(), z: 2}\n g = h\n" % (F, F, lit, F, F, F), "h.v", "g.v"
    yield "struct-copy", " mut h %s = %s{v: %s, z: 1}\n mut g %s = copy(h)\n" % (F, F, lit, F), "h.v", "g.v"
    yield "field-decl", " mut h %s = %s{v: %s, z: 1}\n mut b %s = h.v\n" % (F, F, lit, T), "h.v", "b"
    yield "field-assign", " mut h %s = %s{v: %s, z: 1}\n mut b %s = fresh_%s()\n b = h.v\n" % (F, F, lit, T, F), "h.v", "b"
    yield "nested-decl", " mut h G%s = G%s{f: %s{v: %s, z: 1}}\n mut g G%s = h\n" % (F, F, F, lit, F), "h.f.v", "g.f.v"
    yield "nested-field", " mut h G%s = G%s{f: %s{v: %s, z: 1}}\n mut b %s = h.f.v\n" % (F, F, F, lit, T), "h.f.v", "b"
    yield "by-value", " mut a %s = %s\n mut b %s = id_%s(a)\n" % (T, lit, T, F), "a", "b"
    yield "copy-elem", " mut r [%s] = {%s}\n mut b %s = copy(r[0])\n" % (T, lit, T), "r[0]", "b"
    yield "copy-array", " mut r [%s] = {%s}\n mut t [%s] = copy(r)\n" % (T, lit, T), "r[0]", "t[0]"
    yield "array-decl", " mut r [%s] = {%s}\n mut t [%s] = r\n" % (T, lit, T), "r[0]", "t[0]"
    yield "map-copy", " mut r map[string:%s] = {\"q\": %s}\n mut t map[string:%s] = copy(r)\n" % (T, lit, T), 'r["q"]', 't["q"]'
    yield "map-decl", " mut r map[string:%s] = {\"q\": %s}\n mut t map[string:%s] = r\n" % (T, lit, T), 'r["q"]', 't["q"]'
    yield "fresh-calls", " mut a %s = fresh_%s()\n mut b %s = fresh_%s()\n" % (T, F, T, F), "a", "b"
    yield "multi", " mut a, n1 = two_%s()\n mut b, n2 = two_%s()\n" % (F, F), "a", "b"
    yield "global", " glob_%s = %s\n mut b %s = glob_%s\n" % (F, lit, T, F), "glob_" + F, "b"
    yield "literals", " mut r [%s] = {}\n for i in range(0, 2) { arrays.append(r, %s) }\n" % (T, lit), "r[0]", "r[1]"

def body(c):
    tc = Toolchain(c.tmp, san=c.thorough)
    c.rule = ("one evaluation = one program that makes a second value from a first by one transfer form, modifies one of them by one modification and prints both; "
              "all (shape, transfer, modification, side) combinations are distinct")
    def shape(k):
        T, lit, mk, muts, d = SH[k]; F = FIELD[k]
        b = Batch(c, tc, prelude=shape_prelude(k), imports=["arrays", "maps"], per_file=60, part="independence", workers=2)
        for name, setup, x, y in transfers(T, k, lit):
            for i, (code, fn) in enumerate(muts):
                for side, (p, q) in (("copy", (y, x)), ("original", (x, y))):
                    v = mk(); r = fn(v); v = v if r is None else r
                    b.add("%s:%s:%s:%s" % (k, name, code, side), setup + " %s\n" % code.replace("@", p) + " show_%s(%s)\n show_%s(%s)" % (F, p, F, q), dump(v) + "\n" + dump(mk()))
        b.go()
        # aliases: every way to reach the owner's storage; the modification is visible in the owner and not in a bystander
        b = Batch(c, tc, prelude=shape_prelude(k), imports=["arrays", "maps"], per_file=60, part="aliasing", workers=2)
        for i, (code, fn) in enumerate(muts):
            v = mk(); r = fn(v); v = v if r is None else r
            places = [("var", " mut a %s = %s\n mut o %s = %s\n" % (T, lit, T, lit), "a", "o"),
                      ("field", " mut h %s = %s{v: %s, z: 1}\n mut o %s = %s{v: %s, z: 1}\n" % (F, F, lit, F, F, lit), "h.v", "o.v"),
                      ("nested", " mut h G%s = G%s{f: %s{v: %s, z: 1}}\n mut o G%s = h\n" % (F, F, F, lit, F), "h.f.v", "o.f.v"),
                      ("elem", " mut r [%s] = {%s, %s}\n" % (T, lit, lit), "r[0]", "r[1]"),
                      ("elem-field", " mut r [%s] = {%s{v: %s, z: 1}, %s{v: %s, z: 2}}\n" % (F, F, lit, F, lit), "r[1].v", "r[0].v"),
                      ("global", " glob_%s = %s\n mut o %s = %s\n" % (F, lit, T, lit), "glob_" + F, "o")]
            for pn, setup, place, other in places:
                sh = " show_%s(%s)\n show_%s(%s)" % (F, place, F, other)
                e = dump(v) + "\n" + dump(mk())
                b.add("%s:%s:&param:%s" % (k, pn, code), setup + " mut_%s_%d(%s)\n" % (F, i, place) + sh, e)
                b.add("%s:%s:ref:%s" % (k, pn, code), setup + " mut p = ref(%s)\n %s\n" % (place, code.replace("@", "p")) + sh, e)
                b.add("%s:%s:direct:%s" % (k, pn, code), setup + " %s\n" % code.replace("@", place) + sh, e)
                if "@++" not in code and not re.search(r"@\.\w+\+\+|@\[\d\]\+\+", code): b.add("%s:%s:ptr:%s" % (k, pn, code), setup + " mut p ^%s = addr(%s)\n %s\n" % (T, place, code.replace("@", "p^")) + sh, e)
            # a value parameter keeps its value while the caller's variable is modified through another alias
            b.add("%s:value-param:%s" % (k, code), " mut a %s = %s\n vp_%s_%d(a, a)\n show_%s(a)" % (T, lit, F, i, F), dump(mk()) + "\n" + dump(v))
            b.prelude += "do vp_%s_%d(v %s, &w %s) {\n %s\n show_%s(v)\n}\n" % (F, i, T, T, code.replace("@", "w"), F)
            b.add("%s:two-refs:%s" % (k, code), " mut a %s = %s\n tr_%s_%d(a, a)\n show_%s(a)" % (T, lit, F, i, F), dump(v) + "\n" + dump(v))
            b.prelude += "do tr_%s_%d(&v %s, &w %s) {\n %s\n show_%s(v)\n}\n" % (F, i, T, T, code.replace("@", "w"), F)
            b.add("%s:deep-ref:%s" % (k, code), " mut a %s = %s\n dr_%s_%d(a)\n show_%s(a)" % (T, lit, F, i, F), dump(v))
            b.prelude += "do dr_%s_%d(&v %s) { mut_%s_%d(v) }\n" % (F, i, T, F, i)
        b.go()
    pmap(shape, list(SH), workers=5)

if __name__ == "__main__": main("C11", body)
