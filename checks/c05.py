"""C05: statements execute with the documented control flow."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from grid import *
from mini import *

KINDS = ["if", "ifelse", "ifor", "for", "forstep", "each", "eachi", "eachs", "eachm", "while", "loop", "when"]
LOOPS = {"for", "forstep", "each", "eachi", "eachs", "eachm", "while", "loop"}

def build(kinds, leaf, guard, order):
    """nest of statement kinds around a leaf control statement"""
    def rec(d, v):
        L = "abcd"[d]
        if d == len(kinds):
            s = {"none": [], "brk": [N("brk")], "cont": [N("cont")], "ret": [N("ret", E("a * 10 + %d" % d, lambda e: e["a"] * 10 + d))]}[leaf]
            if guard and s: s = [N("if", [(eq(v, 1), s)], None)]
            return ([N("t", L, v)] if order != 1 or not s or guard else []) + s + ([N("t", L + "'", v)] if guard or not s else [])
        k = kinds[d]; w = "v%d" % d
        pre, post = [N("t", L + "<", v)], [N("t", L + ">", v)]
        other = [N("t", L + "-", v)]
        if k == "if": st = [N("if", [(eq(v, 1), rec(d + 1, v))], None)]
        elif k == "ifelse": st = [N("if", [(eq(v, 1), other)], rec(d + 1, v))]
        elif k == "ifor": st = [N("if", [(eq(v, 0), other), (eq(v, 1), rec(d + 1, v))], [N("t", L + "~", v)])]
        elif k == "for": st = [N("for", w, [lit(0), lit(3)], rec(d + 1, w))]
        elif k == "forstep": st = [N("for", w, [lit(4), lit(-1), lit(-2)], rec(d + 1, w) + [N("t", L + "s", w)])]
        elif k == "each": st = [N("each", None, w, E("{2, 1, 0}", lambda e: [2, 1, 0]), rec(d + 1, w))]
        elif k == "eachi": st = [N("each", w, "x%d" % d, E("q", lambda e: [5, 6, 7]), rec(d + 1, w) + [N("t", L + "i", "x%d" % d)])]
        elif k == "eachs": st = [N("each", w, "_", E('"xyz"', lambda e: "xyz"), rec(d + 1, w))]
        elif k == "eachm": st = [N("each", None, w, E("m", lambda e: [1]), rec(d + 1, w))]
        elif k == "while": st = [N("decl", w, lit(0)), N("while", E("%s < 3" % w, lambda e: e[w] < 3), [N("inc", w)] + rec(d + 1, w))]
        elif k == "loop": st = [N("decl", w, lit(-1)), N("loop", [N("inc", w), N("if", [(eq(w, 3), [N("brk")])], None)] + rec(d + 1, w))]
        elif k == "when": st = [N("when", E(v, lambda e: e[v]), [([0], other), ([1, 2], rec(d + 1, v))], [N("t", L + "~", v)])]
        return pre + st + (post if not ends(st[-1]) else [])
    return rec(0, "a")

def ends(s):
    """statements whose end cannot be reached (the checker rejects code after them)"""
    return False

def main_part(c, tc):
    b = Batch(c, tc, part="nesting", per_file=150, opt="-O0")
    depths = [1, 2, 3] if not c.thorough else [1, 2, 3, 4]
    n = 0
    for d in depths:
        K = KINDS if d <= 2 or c.thorough and d == 3 else ["if", "ifelse", "for", "each", "eachs", "while", "loop", "when"]
        if d == 4: K = ["ifelse", "for", "each", "while", "when"]
        for ks in itertools.product(K, repeat=d):
            for leaf in ("none", "brk", "cont", "ret"):
                if leaf in ("brk", "cont") and not any(k in LOOPS for k in ks): continue
                for guard in ((True, False) if leaf != "none" else (False,)):
                    if d == 3 and not guard and leaf != "none" and not c.thorough: continue
                    body = build(ks, leaf, guard, 0)
                    decl = "do fn@@(a int) -> int {\n mut q [int] = {5, 6, 7}\n mut m map[int:int] = {1: 1}\n" + "\n".join(src(body)) + "\n return 0 - 1\n}"
                    out = []
                    for a in (0, 1, 2):
                        o = []
                        v, p = call(body, {"a": a}, o)
                        out += o + ["=> %d" % (-1 if v is None else v)]
                    b.add("nest:%s:%s:%s" % ("/".join(ks), leaf, guard), " for a in range(0, 3) {\n mut r int = fn@@(a)\n println(\"=> ${r}\")\n }",
                          "\n".join(out), decls=decl)
                    n += 1
    b.go()

def unordered(lines):
    want = sorted(lines)
    def p(got): return sorted(got.decode().split("\n")) == want
    return p

def body(c):
    tc = Toolchain(c.tmp)
    c.rule = ("one evaluation = one statement nest (all kinds, every depth up to the bound, every leaf) run on all its inputs, or one range/when argument tuple; "
              "all distinct, all compared with an independent interpreter")
    g = Grid(c, tc, part="ranges", per_file=6, opt="-O0", prelude="do say(s string, v int) -> int {\n println(s)\n return v\n}")
    M = 2**63
    small = list(range(-3, 5))
    def rng(lo, hi, st):
        if st == 0: return PANIC
        r = range(lo, hi, st)
        o = ["%d" % x for x in r[:9]]
        if 0 < len(o) < 9 and not -M <= r[-1] + st < M: return PANIC     # the next value does not fit
        return "\n".join(o + ["end"])
    cap = " n++\n  if n == 9 { break }\n }\n println(\"end\")"
    g.add("range3", [ints(small), ints(small), ints([-3, -2, -1, 0, 1, 2, 3])], " mut n int = 0\n for i in range(a0, a1, a2) {\n  println(i)\n " + cap, rng)
    ext = [-M, -M + 1, -M + 3, -1, 0, 1, M - 4, M - 2, M - 1]
    g.add("range3_extreme", [ints(ext), ints(ext), ints([-M, -M + 1, -M // 2, -3, -1, 0, 1, 3, M // 2, M - 1])], " mut n int = 0\n for i in range(a0, a1, a2) {\n  println(i)\n " + cap, rng)
    g.add("range2", [ints(small + ext), ints(small + ext)], " mut n int = 0\n for i in range(a0, a1) {\n  println(i)\n " + cap,
          lambda lo, hi: "\n".join(["%d" % x for x in range(lo, hi)[:9]] + ["end"]))
    g.add("range1", [ints([0, 1, 2, 9, 100])], " mut n int = 0\n for i in range(a0) {\n  println(i)\n " + cap, lambda hi: "\n".join(["%d" % x for x in range(hi)[:9]] + ["end"]))
    g.add("range_blank", [ints(small), ints(small)], " mut n int = 0\n for _ in range(a0, a1) {\n  n++\n }\n println(n)", lambda lo, hi: str(len(range(lo, hi))))
    g.add("range_typed", [ints(small), ints(small)], " for i in range(a0, a1) {\n  println(i)\n }\n for (j in range(a0, a1)) {\n  println(j)\n }", lambda lo, hi: "\n".join(str(x) for x in 2 * list(range(lo, hi))))
    g.add("range_bounds_once", [ints([0, 1, 3]), ints([2, 3, 6]), ints([1, 2])], " mut k int = a1\n mut s int = a2\n mut b int = a0\n for i in range(say(\"lo\", b), say(\"hi\", k), say(\"st\", s)) {\n  k = 100\n  s = 5\n  b = 50\n  println(i)\n }",
          lambda lo, hi, st: "\n".join(["lo", "hi", "st"] + [str(x) for x in range(lo, hi, st)]))
    g.add("loopvar_assign", [ints([0, 1, 2, 3])], " mut tot int = 0\n for i in range(0, a0) {\n  mut j int = i\n  j += 10\n  tot += j\n }\n println(tot)", lambda n: str(sum(i + 10 for i in range(n))))
    g.add("while_cond", [ints([0, 1, 2, 5])], " mut i int = 0\n while say(\"c\", i) < a0 {\n  i++\n  if i == 2 { continue }\n  println(i)\n }\n println(\"end\")",
          lambda n: "\n".join(sum((["c"] + ([str(i)] if i != 2 else []) for i in range(1, n + 1)), []) + ["c", "end"]))
    g.add("each_snapshot", [ints([0, 1, 2])], " mut q [int] = {1, 2, 3}\n for_each i, x in q {\n  println(\"${i} ${x}\")\n  if i == a0 { q = {7} \n break }\n }\n println(\"${q}\")",
          lambda k: "\n".join("%d %d" % (i, i + 1) for i in range(k + 1)) + "\n{7}")
    arrs = [[], [4], [4, 5], [4, 5, 6], list(range(40))]
    g.add("each_array", [ints(range(5))], " mut q [int] = {}\n when a0 { is 1 { q = {4} } is 2 { q = {4, 5} } is 3 { q = {4, 5, 6} } is 4 { for i in range(0, 40) { q = append1(q, i) } } default { q = {} } }\n for_each x in q { println(x) }\n for_each i, x in q { println(\"${i}:${x}\") }\n for_each i, _ in q { println(i) }\n for_each _, x in q { println(x) }\n println(\"end\")",
          lambda k: "\n".join([str(x) for x in arrs[k]] + ["%d:%d" % t for t in enumerate(arrs[k])] + [str(i) for i in range(len(arrs[k]))] + [str(x) for x in arrs[k]] + ["end"]))
    strs = ["", "a", "ab", "hello", "x" * 300]
    g.add("each_string", [strings(strs)], " for_each ch in a0 { println(ch) }\n for_each i, ch in a0 { println(\"${i}${ch}\") }\n println(\"end\")",
          lambda s: (lambda s: "\n".join(list(s) + ["%d%s" % t for t in enumerate(s)] + ["end"]))(s if isinstance(s, str) else s.decode()))
    g.add("each_map", [ints(range(0, 40))], " mut m map[int:int] = {:}\n for i in range(0, a0) { m[i * 7] = i }\n for_each k in m { println(k) }\n for_each k, v in m { println(\"${k}=${v}\") }",
          lambda n: unordered([str(i * 7) for i in range(n)] + ["%d=%d" % (i * 7, i) for i in range(n)]) if n else "")
    g.prelude += "\ndo append1(q [int], v int) -> [int] {\n mut r [int] = copy(q)\n arrays.append(r, v)\n return r\n}"
    g.imports = ["arrays"]
    # when: every subject value against ordered, overlapping patterns
    g.add("when_int", [ints(range(-3, 14))], " when a0 {\n  is 0 { println(\"zero\") }\n  is 1, 2 { println(\"few\") }\n  is range(2, 6) { println(\"range\") }\n  is range(8, 10), 13 { println(\"mix\") }\n  is range(-2, 0) { println(\"neg\") }\n  default { println(\"other\") }\n }\n when a0 {\n  is 3 { println(\"three\") }\n }",
          lambda x: ("zero" if x == 0 else "few" if x in (1, 2) else "range" if 2 <= x < 6 else "mix" if x in (8, 9, 13) else "neg" if -2 <= x < 0 else "other") + ("\nthree" if x == 3 else ""))
    W = ints(range(-8, 9))
    g.prelude += "\nconst CLO int = -3\nconst CHI int = 4"
    for nm, pat, f in [("negend", "range(-5, -2)", lambda x: -5 <= x < -2), ("const", "range(CLO, CHI)", lambda x: -3 <= x < 4), ("expr", "range(1 - 4, 2 * 3)", lambda x: -3 <= x < 6),
                       ("step2", "range(0, 7, 2)", lambda x: x in range(0, 7, 2)), ("step3neg", "range(-7, 8, 3)", lambda x: x in range(-7, 8, 3)), ("down", "range(6, -3, -1)", lambda x: x in range(6, -3, -1)),
                       ("down2", "range(6, -5, -2)", lambda x: x in range(6, -5, -2)), ("two", "range(-6, -3), range(3, 6)", lambda x: -6 <= x < -3 or 3 <= x < 6), ("vals", "-4, -1, 3", lambda x: x in (-4, -1, 3)), ("consts", "CLO, CHI", lambda x: x in (-3, 4))]:
        g.add("when_pat:" + nm, [W], " when a0 {\n  is %s { println(1) }\n  is 100, range(50, 60) { println(9) }\n  default { println(0) }\n }\n when a0 + 1 {\n  is 55 { println(9) }\n  is %s { println(1) }\n }\n println(\"end\")" % (pat, pat), lambda x, f=f: ("1" if f(x) else "0") + ("\n1" if f(x + 1) else "") + "\nend")
    g.add("when_extreme", [ints([-M, -M + 1, -1, 0, 1, M - 2, M - 1])], " when a0 {\n  is -9223372036854775807 { println(1) }\n  is 9223372036854775807 { println(2) }\n  is range(-9223372036854775806, 1) { println(3) }\n  is range(1, 9223372036854775807) { println(4) }\n  default { println(0) }\n }",
          lambda x: "1" if x == -M + 1 else "2" if x == M - 1 else "0" if x == -M else "3" if x < 1 else "4")
    g.add("when_string", [strings(["", "a", "b", "ab", "aa", "A", "b ", "abc"])], " when a0 {\n  is \"a\", \"b\" { println(1) }\n  is \"ab\" { println(2) }\n  is \"\" { println(3) }\n  default { println(4) }\n }",
          lambda s: str({b"a": 1, b"b": 1, b"ab": 2, b"": 3, "a": 1, "b": 1, "ab": 2, "": 3}.get(s, 4)))
    g.add("when_char", [("char", [("'%s'" % ch, ch) for ch in "abcxyz"])], " when a0 {\n  is 'a' { println(1) }\n  is 'b', 'x' { println(2) }\n  default { println(3) }\n }", lambda ch: {"a": "1", "b": "2", "x": "2"}.get(ch, "3"))
    g.add("when_bool", [bools(), bools()], " when a0 {\n  is true { println(1) }\n  is false { println(2) }\n }\n when a0 && a1 {\n  is false { println(3) }\n  default { println(4) }\n }", lambda p, q: "%d\n%d" % (1 if p else 2, 4 if p and q else 3))
    g.add("when_uint", [ints([0, 1, 2, 255], "uint")], " when a0 {\n  is 1 { println(1) }\n  is 255, 2 { println(2) }\n  default { println(3) }\n }", lambda x: {1: "1", 2: "2", 255: "2"}.get(x, "3"))
    g.add("when_float", [floats([0.5, 1.5, 2.0, -1.5])], " when a0 {\n  is 1.5 { println(1) }\n  is 2.0, 0.5 { println(2) }\n  default { println(3) }\n }", lambda x: {1.5: "1", 2.0: "2", .5: "2"}.get(x, "3"))
    g.add("when_once", [ints(range(0, 5))], " when say(\"e\", a0) {\n  is 1 { println(1) }\n  is range(2, 4) { println(2) }\n  is 4 { println(4) }\n  default { println(0) }\n }", lambda x: "e\n%d" % {1: 1, 2: 2, 3: 2, 4: 4}.get(x, 0))
    g.add("if_chain", [bools(), bools(), bools()], " if t(1, a0) { println(1) } or t(2, a1) { println(2) } or t(3, a2) { println(3) } otherwise { println(4) }\n if t(5, a0) && t(6, a1) || t(7, a2) { println(8) }",
          lambda x, y, z: "\n".join((["e1", "1"] if x else ["e1", "e2", "2"] if y else ["e1", "e2", "e3", "3"] if z else ["e1", "e2", "e3", "4"]) +
                                    ["e5"] + (["e6"] if x else []) + ([] if x and y else ["e7"]) + (["8"] if x and y or z else [])))
    g.prelude += "\ndo t(n int, b bool) -> bool {\n println(\"e${n}\")\n return b\n}"
    g.go()
    main_part(c, tc)

main("C05", body)
