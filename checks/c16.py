#!/usr/bin/env python3
"""C16 – immutability and visibility: every mutation form on every kind of place under every kind of root, and every use of every kind of private declaration."""
import sys, os, itertools, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
PRE = """import @arrays
import @maps
const In struct {
 n int
 a [int]
}
const S struct {
 x int
 t string
 a [int]
 m map[string:int]
 inn In
 ss [In]
 p ^In
 do bump(&v S) { v.x += 1 }
 do look(v S) -> int { return v.x }
}
const E enum {
 A
 B
}
do inc(&x int) { x += 1 }
do sets(&x string) { x = "z" }
do grow(&x [int]) { arrays.append(x, 1) }
do putm(&x map[string:int]) { x["q"] = 1 }
do hits(&x S) { x.x = 5 }
do hitin(&x In) { x.n = 5 }
do opp(p ^int) { p^ = 9 }
do two() -> (int, int) { return 1, 2 }
do geti(x int) -> int { return x }
do geta(x [int]) -> int { return len(x) }
"""
INT = ["@ = 7", "@ += 2", "@ -= 2", "@ *= 2", "@ /= 2", "@ %= 2", "@++", "@--", "inc(@)", "if @ > 0 { @ = 7 }"]
ADDR = ["opp(addr(@))", "mut pp ^int = addr(@)\n pp^ = 4", "mut r = ref(@)\n r = 4"]
ARR = ["@ = {7, 8}", "arrays.append(@, 1)", "arrays.prepend(@, 1)", "arrays.insert_at(@, 0, 1)", "arrays.remove(@, 1)", "arrays.remove_at(@, 0)", "mut q = arrays.remove_first(@)\n println(\"${q}\")", "mut q = arrays.remove_last(@)\n println(\"${q}\")",
       "arrays.clear(@)", "arrays.fill(@, 3, 4)", "arrays.sort_asc(@)", "arrays.sort_desc(@)", "grow(@)", "mut r = ref(@)\n r[0] = 1"]
MAP = ["@ = {\"z\": 1}", "maps.remove_key(@, \"a\")", "maps.clear(@)", "putm(@)", "mut r = ref(@)\n r[\"a\"] = 1"]
STR = ["@ = \"other\"", "sets(@)"]
INN = ["@ = In{n: 5, a: {1}}", "hitin(@)"]
STC = ["@ = S{x: 1, t: \"\", a: {1}, m: {\"a\": 1}, inn: In{n: 1, a: {1}}, ss: {}, p: nil}", "hits(@)", "@.bump()", "S.bump(@)", "mut r = ref(@)\n r.x = 4"]
def forms(kind, place, addr=True):
    if kind == "int": return [(f, place) for f in INT + (ADDR if addr else [])]
    if kind == "string": return [(f, place) for f in STR]
    if kind == "arr": return [(f, place) for f in ARR] + forms("int", place + "[0]")
    if kind == "map": return [(f, place) for f in MAP if addr or "ref(" not in f] + forms("int", place + "[\"a\"]", False)
    if kind == "arrarr": return [("@ = {{1}, {2}}", place), ("arrays.append(@, {1})", place), ("arrays.clear(@)", place)] + forms("arr", place + "[0]")
    if kind == "in": return [(f, place) for f in INN] + forms("int", place + ".n", addr) + (forms("arr", place + ".a") if addr else [])
    if kind == "arrin": return [("@ = {}", place), ("arrays.clear(@)", place)] + forms("in", place + "[0]")
    if kind == "mapin": return [("maps.clear(@)", place)] + forms("in", place + "[\"a\"]", False)
    if kind == "maparr": return [("maps.clear(@)", place), ("@[\"a\"] = {1, 2}", place), ("@[\"a\"][0] = 3", place), ("@[\"a\"][0]++", place), ("arrays.append(@[\"a\"], 2)", place)]
    if kind == "struct": return [(f, place) for f in STC] + forms("int", place + ".x") + forms("string", place + ".t") + forms("arr", place + ".a") + forms("map", place + ".m") + forms("in", place + ".inn") + forms("arrin", place + ".ss")
    if kind == "enum": return [("@ = E.B", place)]
    if kind == "ptr": return [("@ = nil", place)]
    if kind in ("float", "bool", "char"): return [("@ = %s" % {"float": "2.5", "bool": "false", "char": "'q'"}[kind], place)]
TYPES = {"int": ("int", "5"), "string": ("string", '"a"'), "arr": ("[int]", "{1, 2, 3}"), "map": ("map[string:int]", '{"a": 1}'), "arrarr": ("[[int]]", "{{1}, {2}}"), "in": ("In", "In{n: 1, a: {1, 2}}"), "arrin": ("[In]", "{In{n: 1, a: {1}}}"),
         "mapin": ("map[string:In]", '{"a": In{n: 1, a: {1}}}'), "maparr": ("map[string:[int]]", '{"a": {1}}'), "struct": ("S", 'S{x: 1, t: "a", a: {1, 2}, m: {"a": 1}, inn: In{n: 1, a: {1}}, ss: {In{n: 1, a: {1}}}, p: nil}'), "enum": ("E", "E.A"), "ptr": ("^In", "new(In)"),
         "float": ("float", "1.5"), "bool": ("bool", "true"), "char": ("char", "'a'")}
FIXED = {"arr": "[int, 3]", "arrarr": "[[int]]", "arrin": "[In, 1]"}
NEST = [("plain", "%s"), ("if", "if true {\n %s\n }"), ("or", "if false { print(\"\") } or true {\n %s\n }"), ("otherwise", "if false { print(\"\") } otherwise {\n %s\n }"), ("for", "for i9 in range(0, 2) {\n %s\n }"), ("while", "mut w9 = 0\n as_long_as w9 < 1 {\n  w9++\n %s\n }"), ("when", "when geti(1) {\n is 1 {\n %s\n }\n default { print(\"\") }\n }"), ("default", "when geti(1) {\n is 2 { print(\"\") }\n default {\n %s\n }\n }"), ("loop", "loop {\n %s\n break\n }"), ("foreach", "mut z9 [int] = {1}\n for_each y9 in z9 {\n println(\"${y9}\")\n %s\n }")]
def roots(kind):
    """(name, mutable?, program with MUT for the mutation and the name of the place)"""
    t, v = TYPES[kind]; ct = FIXED.get(kind, t)
    use = "\n println(\"end\")"
    yield "mut local", True, "do main() {\n mut v %s = %s\n MUT%s\n}\n" % (t, v, use), "v"
    yield "mut inferred", True, "do mk() -> %s {\n mut z %s = %s\n return z\n}\ndo main() {\n mut v = mk()\n MUT%s\n}\n" % (t, t, v, use), "v"
    if kind not in ("map", "mapin", "maparr"): yield "const local", False, "do main() {\n const v %s = %s\n MUT%s\n}\n" % (ct, v, use), "v"
    yield "parameter", False, "do f(v %s) {\n MUT%s\n}\ndo main() {\n mut z %s = %s\n f(z)\n}\n" % (t, use, t, v), "v"
    yield "grouped parameter", False, "do f(u, v %s) {\n MUT%s\n}\ndo main() {\n mut z %s = %s\n f(z, z)\n}\n" % (t, use, t, v), "v"
    yield "& parameter", True, "do f(&v %s) {\n MUT%s\n}\ndo main() {\n mut z %s = %s\n f(z)\n}\n" % (t, use, t, v), "v"
    if kind != "ptr":
        yield "mut global", True, "mut v %s = %s\ndo main() {\n MUT%s\n}\n" % (t, v, use), "v"
        if kind not in ("map", "mapin", "maparr"): yield "const global", False, "const v %s = %s\ndo main() {\n MUT%s\n}\n" % (ct, v, use), "v"
    yield "method parameter", False, "const H struct {\n q int\n do f(h H, v %s) {\n MUT%s\n }\n}\ndo main() {\n mut z %s = %s\n mut h = H{q: 1}\n h.f(z)\n}\n" % (t, use, t, v), "v"
    yield "shadowed", False, "do f(v %s) {\n if true {\n MUT\n }%s\n}\ndo main() {\n mut v %s = %s\n f(v)\n}\n" % (t, use, t, v), "v"
    if kind in ("int", "string", "arr", "map", "struct", "in"):
        yield "const ref", False, "do main() {\n mut z %s = %s\n const v = ref(z)\n MUT%s\n}\n" % (t, v, use), "v"
def key_of(f): return re.sub(r"\s+", " ", f)
def mutations(c, tc, jobs):
    for kind in TYPES:
        for rn, mutable, prog, place in roots(kind):
            for f, pl in forms(kind, place):
                if rn == "& parameter" and ("addr(" in f or "ref(" in f): continue
                if rn == "const ref" and pl == "v" and "ref(" in f: continue
                for nn, nest in (NEST if c.thorough or (kind in ("struct", "arr") and f in ("@ = 7", "@++", "arrays.append(@, 1)", "inc(@)", "hits(@)")) else NEST[:1]):
                    m = f.replace("@", pl)
                    jobs.append(("mutate:%s:%s:%s:%s:%s" % (rn, kind, pl, key_of(f), nn), PRE + prog.replace("MUT", nest % m), mutable, None))
    # loop variables, values of for_each and bindings are values of their own; uses that only read an immutable place are fine
    for kind in TYPES:
        for rn, mutable, prog, place in roots(kind):
            reads = {"int": ["println(\"${@}\")", "mut q = @\n q++", "println(\"${geti(@)}\")", "mut q = @ + 1\n q += @"], "string": ["println(@)", "mut q = @\n q = \"\""], "arr": ["println(\"${geta(@)}\")", "mut q = copy(@)\n arrays.append(q, 1)", "mut q = arrays.concat(@, @)\n q[0] = 4", "for_each y in @ { println(\"${y}\") }", "println(\"${@[0]}\")", "mut q = arrays.reverse(@)\n q[0] = 1"],
                     "map": ["println(\"${@[\"a\"]}\")", "mut q = copy(@)\n q[\"b\"] = 1", "for_each k, y in @ { println(\"${k}${y}\") }", "mut q = maps.merge(@, @)\n q[\"b\"] = 1"], "struct": ["println(\"${@.x}\")", "mut q = copy(@)\n q.x = 1", "println(\"${@.look()}\")", "mut q = @.x\n q++", "println(\"${@.ss[0].n}\")"], "in": ["println(\"${@.n}\")", "mut q = copy(@)\n q.n = 1"]}
            for f in reads.get(kind, []):
                jobs.append(("read:%s:%s:%s" % (rn, kind, key_of(f)), PRE + prog.replace("MUT", f.replace("@", place)), True, None))
    # a pointer held in an immutable place: what it points to is mutable, the pointer is not
    for rn, head in (("const local", "do main() {\n mut z = In{n: 1, a: {1}}\n const p ^In = addr(z)\n MUT\n}\n"), ("parameter", "do f(p ^In) {\n MUT\n}\ndo main() {\n mut z = In{n: 1, a: {1}}\n f(addr(z))\n}\n")):
        for f in ("p^.n = 3", "p^.n++", "p.n = 3", "p.n++", "p^.a[0] = 2", "arrays.append(p^.a, 1)", "inc(p^.n)"):
            jobs.append(("pointee:%s:%s" % (rn, f), PRE + head.replace("MUT", f), True, None))
        jobs.append(("pointer:%s" % rn, PRE + head.replace("MUT", "p = nil"), False, None))
    for f in ("math.PI = 3.0", "E.A = 1", "two() = 3", "5 = 4", "main = 3", "inc = 3", "geti(1) = 2", "inc(5)", "inc(geti(1))", "grow({1})", "inc(1 + 2)", "sets(\"a\")", "S = 3", "hits(S{x: 1, t: \"\", a: {}, m: {:}, inn: In{n: 1, a: {}}, ss: {}, p: nil})", "nil = 1", "true = false", "\"a\"[0] = 'b'"):
        jobs.append(("not a place:" + f[:30], "import @math\n" + PRE + "do main() {\n println(\"${math.PI}\")\n %s\n}\n" % f, False, None))
MOD = {"lib/lib.gray": """private const SECRET int = 5
const OPEN int = 6
private mut hidden int = 1
mut shown int = 1
const LIST [int, 2] = {1, 2}
mut mlist [int] = {1, 2}
private do priv(x int) -> int { return x }
do pub(x int) -> int { return priv(x) + SECRET + hidden }
private const PS struct {
 x int
}
const OS struct {
 x int
 do open(o OS) -> int { return OS.shut(o) }
 private do shut(o OS) -> int { return o.x }
}
private const PE enum {
 A
 B
}
const OE enum {
 A
 B
}
do mk() -> OS { return OS{x: 1} }
do usep() -> int {
 mut p = PS{x: 4}
 mut e PE = PE.A
 if e == PE.B { return 1 }
 return p.x
}
""", "lib2/lib2.gray": "do other() -> int { return 3 }\n"}
VIS = [('function', 'println("${@priv(1)}")', False), ('public function', 'println("${@pub(1)}")', True), ('constant', 'println("${@SECRET}")', False), ('constant in expression', 'mut x = @SECRET + 1\n println("${x}")', False), ('public constant', 'println("${@OPEN}")', True), ('variable', 'println("${@hidden}")', False), ('variable write', '@hidden = 3', False), ('variable increment', '@hidden++', False), ('function reference', 'const f = ()@priv\n println("${f(1)}")', False), ('ref of function', 'const f = ref(@priv)\n println("${f(1)}")', False), ('public struct', 'mut s @OS = @OS{x: 1}\n println("${s.x}")', True), ('public enum', 'mut e @OE = @OE.A\n println("${e}")', True), ('struct function', 'mut s = @mk()\n println("${@OS.shut(s)}")', False), ('method', 'mut s = @mk()\n println("${s.shut()}")', False), ('public struct function', 'mut s = @mk()\n println("${@OS.open(s)}")', True), ('public method', 'mut s = @mk()\n println("${s.open()}")', True), ('argument', 'println("${@pub(@SECRET)}")', False), ('condition', 'if @SECRET > 1 { println("a") }', False), ('when', 'when @SECRET {\n is 5 { println("a") }\n default { println("b") }\n }', False), ('when case', 'when 5 {\n is @SECRET { println("a") }\n default { println("b") }\n }', False), ('range', 'for i in range(0, @SECRET) { println("${i}") }', False), ('array literal', 'mut a [int] = {@SECRET}\n println("${len(a)}")', False), ('index', 'mut a [int] = {1}\n println("${a[@hidden - 1]}")', False), ('ensure', 'ensure @priv(1)', False), ('cast', 'mut f = cast(@SECRET, float)\n println("${f}")', False), ('unknown', 'println("${@nothing(1)}")', False), ('unknown constant', 'println("${@NOTHING}")', False), ('const write', '@OPEN = 3', False), ('const increment', '@OPEN++', False), ('const compound', '@OPEN += 1', False), ('const by reference', 'bump(@OPEN)', False), ('const element', '@LIST[0] = 4', False), ('const element increment', '@LIST[0]++', False), ('const append', 'arrays.append(@LIST, 3)', False), ('const sort', 'arrays.sort_desc(@LIST)', False), ('address of const', 'mut p = addr(@OPEN)\n println("${p^}")', False), ('reference of const', 'mut p = ref(@OPEN)\n println("${p}")', False), ('read element', 'println("${@LIST[0]}")', True)]
DECL = [('global', 'const g int = @SECRET\n', False), ('default value', 'do f(x int = @SECRET) -> int { return x }\n', False)]
def visibility(c, tc, jobs):
    head = [("qualified", 'import "./lib"\n', "lib."), ("alias", 'import q"./lib"\n', "q."), ("using", 'import "./lib"\nusing lib\n', ""), ("import and use", 'import and use "./lib"\n', ""), ("two modules", 'import "./lib2"\nimport "./lib"\n', "lib.")]
    for hn, h, q in head:
        for n, st, ok in VIS:
            if ok is None: continue
            jobs.append(("visible:%s:%s" % (hn, n), "import @arrays\n" + h + "do bump(&x int) { x += 1 }\ndo main() {\n %s\n println(\"${%spub(2)}\")%s\n}\n" % (st.replace("@", q).replace(q + "arrays", "arrays") if q else st.replace("@", ""), q, "\n println(\"${lib2.other()}\")" if "two" in hn else ""), ok, MOD))
        for n, d, ok in DECL:
            jobs.append(("visible:%s:%s" % (hn, n), h + d.replace("@", q) + "do main() {\n println(\"${%spub(2)}\")%s\n}\n" % (q, "\n println(\"${lib2.other()}\")" if "two" in hn else ""), ok, MOD))
    # inside the module everything is visible; inside the struct its private functions are
    S = "const T struct {\n x int\n do open(t T) -> int { return T.shut(t) }\n private do shut(t T) -> int { return t.x }\n}\n"
    for n, st, ok in (("open", "println(\"${T.open(t)}\")", True), ("open method", "println(\"${t.open()}\")", True), ("shut", "println(\"${T.shut(t)}\")", False), ("shut method", "println(\"${t.shut()}\")", False), ("shut of element", "mut a [T] = {t}\n println(\"${a[0].shut()}\")", False), ("shut reference", "const f = ()T.shut\n println(\"${f(t)}\")", False)):
        jobs.append(("struct private:" + n, S + "do main() {\n mut t = T{x: 1}\n %s\n}\n" % st, ok, None))
    jobs.append(("struct private:other struct", S + "const U struct {\n y int\n do f(t T) -> int { return T.shut(t) }\n}\ndo main() {\n mut t = T{x: 1}\n println(\"${U.f(t)}\")\n}\n", False, None))
def body(c):
    c.rule = "one evaluation = the check command's verdict on one program that changes, or only reads, one place under one kind of root, or uses one declaration of another module; all distinct"
    tc = Toolchain(c.tmp); jobs = []
    mutations(c, tc, jobs); visibility(c, tc, jobs)
    def go(j):
        key, src, ok, extra = j
        if c.expired(6) or c.too_many(): return
        d = tempfile.mkdtemp(dir=c.tmp)
        for n, t in (extra or {}).items():
            os.makedirs(os.path.join(d, os.path.dirname(n)), exist_ok=True); open(os.path.join(d, n), "w").write(t)
        p = os.path.join(d, "p.gray"); open(p, "w").write(src)
        r = subprocess.run([tc.grayc, "check", p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=tc.env, cwd=d, timeout=60)
        c.count("verdicts"); o = r.stdout.decode(errors="replace")
        if (r.returncode == 0) != ok or r.returncode not in (0, 1) or (r.returncode == 1 and "error[" not in o):
            c.violation(key, "%s: check exits %d on a program that %s: %s" % (key, r.returncode, "breaks no rule" if ok else "breaks the rules", o[:200]), {"program": src})
        shutil.rmtree(d, ignore_errors=True)
    pmap(go, jobs)
if __name__ == "__main__": main("C16", body, level="exploration", quick_s=240, thorough_s=840)
