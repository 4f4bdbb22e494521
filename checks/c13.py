#!/usr/bin/env python3
"""C13: enums, tagged unions and when: every small enum declaration, payload shape, position and branch list is compiled by the real compiler and run; results are compared with a model of values and first-match selection, and #strict's verdict with the set of covered variants."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
def values(forms):
    out = []; nxt = 0
    for f in forms:
        v = nxt if f is None else f; out.append(v); nxt = v + 1
    return out
def plain(c, tc):
    """Declared values, equality, casts, printing and every position an enum value can take."""
    b = Batch(c, tc, part="plain", imports=["maps", "arrays"], per_file=60, opt="-O0"); n = 0
    F = [None, 0, 7, -3, 1 << 40]
    for size in range(1, 5 if c.thorough else 4):
        for forms in itertools.product(F, repeat=size):
            vs = values(forms)
            if len(set(vs)) < size: continue
            names = "ABCD"[:size]; d = "const E@@ enum {\n%s\n}\nconst S@@ struct {\n e E@@\n}\ndo id@@(e E@@) -> E@@ {\n return e\n}\ndo two@@(e E@@) -> (E@@, int) {\n return e, 4\n}\nmut g@@ E@@ = E@@.%s\n" % ("\n".join(" %s%s" % (x, "" if f is None else " = %d" % f) for x, f in zip(names, forms)), names[0])
            body = []; exp = []
            for x, v in zip(names, vs):
                for how in ("mut e E@@ = .%s", "mut e = E@@.%s", "mut e = id@@(.%s)", "mut e E@@ = E@@.A\n e = .%s", "mut s S@@ = S@@{e: .%s}\n mut e = s.e", "mut r [E@@] = {.%s}\n mut e = r[0]", "mut m map[string:E@@] = {\"k\": E@@.%s}\n mut e = m[\"k\"]", "mut e, k = two@@(.%s)\n if k != 4 {\n  println(\"k\")\n }", "g@@ = .%s\n mut e = g@@", "mut e = cast(cast(E@@.%s, int), E@@)"):
                    k = len(body); body.append("do p@@_%d() {\n %s\n println(\"${e} ${cast(e, int)} %s\")\n when e {\n%s\n }\n}" % (k, how % x, " ".join("${e == E@@.%s}${e != .%s}" % (y, y) for y in names), "\n".join("  is .%s { println(\"%s\") }" % (y, y) for y in names)))
                    exp.append("%d %d %s\n%s" % (v, v, " ".join("%s%s" % (("true", "false") if x == y else ("false", "true")) for y in names), x))
            b.add("plain:%s" % (forms,), "\n".join(" p@@_%d()" % i for i in range(len(body))), "\n".join(exp), decls=d + "\n".join(body), desc="enum with forms %s" % (forms,)); n += 1
    # keys of a map, string enums and flags
    for k in (1, 2, 5, 10, 40):
        vs = [1 << i for i in range(k)]; nm = ["V%d" % i for i in range(k)]
        d = "#flags\nconst F@@ enum {\n%s\n}\ndo which@@(f F@@) -> string {\n when f {\n%s\n  default { return \"none\" }\n }\n return \"end\"\n}\n" % ("\n".join(" " + x for x in nm), "\n".join("  is .%s { return \"%s\" }" % (x, x) for x in nm))
        b.add("flags:%d" % k, "\n".join(' println("${F@@.%s} ${cast(F@@.%s, int)} ${which@@(.%s)}")' % (x, x, x) for x in nm), "\n".join("%d %d %s" % (v, v, x) for v, x in zip(vs, nm)), decls=d)
    for size in (1, 2, 3):
        for txt in itertools.product(["", "a", "A", "a b", "z", "\\n|", "aa"], repeat=size):
            if len(set(txt)) < size: continue
            nm = "PQR"[:size]; real = [t.replace("\\n", "\n") for t in txt]
            d = "const T@@ enum {\n%s\n}\ndo which@@(f T@@) -> string {\n when f {\n%s\n  default { return \"none\" }\n }\n return \"end\"\n}\n" % ("\n".join(' %s = "%s"' % x for x in zip(nm, txt)), "\n".join("  is .%s { return \"%s\" }" % (x, x) for x in nm))
            b.add("text:%s" % (txt,), "\n".join(' mut t%s T@@ = .%s\n println("[${T@@.%s}] [${t%s}] ${which@@(t%s)} %s")' % (x, x, x, x, x, " ".join("${t%s == T@@.%s}" % (x, y) for y in nm)) for x in nm),
                  "\n".join("[%s] [%s] %s %s" % (t, t, x, " ".join("true" if x == y else "false" for y in nm)) for x, t in zip(nm, real)), decls=d)
    return b
PAY = [("int", ["5", "-9223372036854775807"], "${@}", str), ("float", ["1.5", "-0.25"], "${@}", str), ("string", ['"x y"', '""'], "${@}", lambda s: s[1:-1]), ("bool", ["true", "false"], "${@}", str), ("u8", ["255", "0"], "${@}", str), ("i128", ["170141183460469231731687303715884105727", "-1"], "${@}", str),
       ("[int]", ["ai", "aj"], "${len(@)}${@[0]}", {"ai": "23", "aj": "17"}.get), ("P", ["pa", "pb"], "${@.x}${@.y}", {"pa": "1q", "pb": "2"}.get), ("In", ["In.Z", "In.Y"], "${@}", {"In.Z": "1", "In.Y": "0"}.get), ("map[string:int]", ["ma", "mb"], "${len(@)}", {"ma": "1", "mb": "2"}.get), ("char", ["'c'", "'z'"], "${@}", lambda s: s[1:-1])]
PRE = 'const P struct {\n x int\n y string\n}\nconst In enum {\n Y\n Z\n}\n'
VARS = ' mut ai [int] = {3, 4}\n mut aj [int] = {7}\n mut pa = P{x: 1, y: "q"}\n mut pb = P{x: 2, y: ""}\n mut ma map[string:int] = {"a": 1}\n mut mb map[string:int] = {"a": 1, "b": 2}\n'
PRIV = {"ai": "23"}
def tagged(c, tc):
    """Every payload shape built and taken apart in every position."""
    b = Batch(c, tc, PRE, imports=["arrays"], part="tagged", per_file=60, opt="-O0"); names = [p[0] for p in PAY]
    shapes = [(x,) for x in PAY] + list(itertools.product(PAY, repeat=2)) + ([x for x in itertools.product(PAY, repeat=3)] if c.thorough else [x for x in itertools.product(PAY[:4], repeat=3)])
    for sh in shapes:
        tys = [p[0] for p in sh]; key = "tagged:" + ",".join(tys)
        bind = ["b%d" % i for i in range(len(sh))]; show = "|".join(p[2].replace("@", bd) for p, bd in zip(sh, bind))
        d = "const U@@ enum {\n No\n V(%s)\n W(int)\n}\nconst H@@ struct {\n k int\n u U@@\n}\ndo id@@(u U@@) -> U@@ {\n return u\n}\nmut g@@ U@@ = U@@.No\ndo show@@(u U@@) {\n when u {\n  is .V(%s) { println(\"%s\") }\n  is .W(n) { println(\"W${n}\") }\n  is .No { println(\"No\") }\n }\n}\ndo show2@@(u U@@) -> string {\n #strict\n when u {\n  is U@@.No { return \"No\" }\n  is U@@.W(w) { return \"W${w}\" }\n  is U@@.V(%s) { return \"%s\" }\n }\n return \"?\"\n}\n" % (", ".join(tys), ", ".join(bind), show, ", ".join(bind), show)
        body = VARS; exp = []
        for w in (0, 1):
            args = ", ".join(p[1][w] for p in sh); ex = "|".join(p[3](p[1][w]) for p in sh)
            body += " mut u%d U@@ = .V(%s)\n show@@(u%d)\n mut v%d = U@@.V(%s)\n println(show2@@(v%d))\n show@@(.V(%s))\n show@@(id@@(u%d))\n mut h%d = H@@{k: 1, u: .V(%s)}\n show@@(h%d.u)\n g@@ = U@@.V(%s)\n show@@(g@@)\n mut r%d [U@@] = {.No, .V(%s), .W(8)}\n for_each e in r%d {\n  show@@(e)\n }\n arrays.append(r%d, u%d)\n show@@(r%d[3])\n mut m%d map[string:U@@] = {\"a\": U@@.V(%s)}\n show@@(m%d[\"a\"])\n u%d = .W(%d)\n show@@(u%d)\n println(show2@@(h%d.u))\n" % (w, args, w, w, args, w, args, w, w, args, w, args, w, args, w, w, w, w, w, args, w, w, w, w, w)
            exp += [ex, ex, ex, ex, ex, ex, "No", ex, "W8", ex, ex, "W%d" % w, ex]
        b.add(key, body, "\n".join(exp), decls=d, desc="payload " + ", ".join(tys))
    return b
DOM = {"int": (["-1", "0", "1", "2", "3", "4", "9223372036854775807"], ["0", "1", "2, 3", "range(1, 3)", "range(-1, 1)", "range(4)", "4, 0", "range(0, 5, 2)"]),
       "uint": (["0", "1", "5", "18446744073709551615"], ["0", "1, 5", "range(0, 5)", "18446744073709551615"]),
       "u8": (["0", "1", "255"], ["0", "1", "255", "range(1, 255)"]),
       "char": (["'a'", "'b'", "'z'"], ["'a'", "'b', 'c'", "'z'"]), "string": (['""', '"a"', '"ab"', '"b"'], ['""', '"a"', '"ab", "b"', '"c"']), "bool": (["true", "false"], ["true", "false"]), "byte": (["0", "7", "255"], ["0", "7, 255", "255"]), "float": (["0.5", "1.0", "-2.0"], ["0.5", "1.0, 3.0", "-2.0"])}
def items(txt):
    if txt.startswith("range"):
        a = [int(x) for x in txt[6:-1].split(",")]
        return range(*a)
    return [x.strip() for x in txt.split(",")]
def matches(val, txt):
    it = items(txt); return int(val) in it if isinstance(it, range) else val in it
def selection(c, tc):
    """Every list of up to three branches over every value: the first that matches runs, otherwise the default, otherwise nothing."""
    b = Batch(c, tc, part="selection", per_file=120, opt="-O0")
    for ty, (vals, brs) in DOM.items():
        for k in range(1, 4 if c.thorough or ty != "int" else 3):
            for bl in itertools.product(brs, repeat=k):
                single = [x for t in bl if not t.startswith("range") for x in items(t)]
                if len(set(single)) < len(single): continue   # duplicates are rejected
                for dflt in (True, False):
                    d = "do w@@(x %s) {\n when x {\n%s%s\n }\n println(\".\")\n}\n" % (ty, "\n".join("  is %s { println(\"%d\") }" % (t, i) for i, t in enumerate(bl)), "\n  default { println(\"d\") }" if dflt else "")
                    exp = []
                    for v in vals:
                        hit = [str(i) for i, t in enumerate(bl) if matches(v, t)]; exp += (hit[:1] or (["d"] if dflt else [])) + ["."]
                    b.add("when:%s:%s:%s" % (ty, "/".join(bl), dflt), "\n".join(" mut v%d %s = %s\n w@@(v%d)" % (i, ty, v, i) for i, v in enumerate(vals)), "\n".join(exp), decls=d)
    # nested, inside loops, with return, break and continue in branches
    for ctl, ex in (("break", "0 1"), ("continue", "0 1 3"), ("return", "0 1"), ("", "0 1 2 3")):
        b.add("when:control:" + ctl, " for i in range(0, 4) {\n  when i {\n   is 2 {\n    %s\n   }\n   default { when i + 10 {\n     is 99 { println(\"?\") }\n     default {\n     }\n    }\n   }\n  }\n  println(\"${i}\")\n }\n" % (ctl or "mut z = i"), ex.replace(" ", "\n"))
    b.add("when:once", " mut n int = 0\n mut a [int] = {5}\n when bump@@(n) {\n  is 1 { println(\"one\") }\n  is 2 { println(\"two\") }\n  is 3 { println(\"three\") }\n }\n println(\"${n}\")\n", "one\n1", decls="do bump@@(&n int) -> int {\n n += 1\n return n\n}\n")
    return b
def strict(c, tc):
    """#strict accepts exactly the whens that name every variant."""
    jobs = []
    kinds = {"plain": ("", ["A", "B", "C", "D"], "E"), "values": ("", ["A = 3", "B = 9", "C = 1", "D"], "E"), "flags": ("#flags\n", ["A", "B", "C", "D"], "E"), "text": ("", ['A = "x"', 'B = "y"', 'C = ""', 'D = "A"'], "E"), "tagged": ("", ["A", "B(int)", "C(string, int)", "D"], "E")}
    pat = {"A": "", "B": "(x)", "C": "(x, y)", "D": ""}
    for kind, (attr, vs, nm) in kinds.items():
        for n in (1, 2, 3, 4):
            if kind == "tagged" and n < 2: continue
            names = [v.split()[0].split("(")[0] for v in vs[:n]]
            for sub in itertools.chain.from_iterable(itertools.combinations(names, k) for k in range(1, n + 1)):
                for form in (".", "E.", "mixed") if kind != "tagged" else (".", "E."):
                    for group in ((False, True) if kind != "tagged" and len(sub) > 1 else (False,)):
                        for st, df in ((True, False), (True, True), (False, False)):
                            ref = [(("E." if form == "E." or (form == "mixed" and i % 2) else ".") + x + (pat[x] if kind == "tagged" else "")) for i, x in enumerate(reversed(sub))]
                            brs = ([", ".join(ref)] if group else ref)
                            src = "%sconst E enum {\n%s\n}\ndo f(e E) {\n %swhen e {\n%s%s\n }\n}\ndo main() {\n f(E.A)\n}\n" % (attr, "\n".join(" " + v for v in vs[:n]), "#strict\n " if st else "", "\n".join("  is %s { println(\"x\") }" % r for r in brs), "\n  default { println(\"d\") }" if df else "")
                            jobs.append(("strict:%s:%d:%s:%s:%s:%s:%s" % (kind, n, "".join(sub), form, group, st, df), src, not st or df or len(sub) == n))
    # things of another enum, or outside the enum, are not variants of this one
    two = "const E enum {\n A\n B\n}\nconst X enum {\n A\n B\n C\n}\n"
    for key, st, ok in (("foreign", "when e {\n is X.A { println(\"x\") }\n default { println(\"d\") }\n }", False), ("foreign strict", "#strict\n when e {\n is X.A { println(\"x\") }\n is X.B { println(\"y\") }\n }", False), ("unknown", "when e {\n is .C { println(\"x\") }\n default { println(\"d\") }\n }", False), ("own", "when e {\n is E.A { println(\"x\") }\n default { println(\"d\") }\n }", True),
                        ("compare foreign", "println(\"${e == X.A}\")", False), ("assign foreign", "mut q E = X.A\n println(\"${q}\")", False), ("assign int", "mut q E = 1\n println(\"${q}\")", False), ("compare int", "println(\"${e == 0}\")", False), ("argument foreign", "f(X.A)", False), ("argument int", "f(0)", False), ("foreign by order", "println(\"${e < X.B}\")", False), ("arith", "mut q = e + 1\n println(\"${q}\")", False)):
        jobs.append(("typing:" + key, two + "do f(e E) {\n %s\n}\ndo main() {\n f(E.A)\n}\n" % st, ok))
    tg = "const U enum {\n A(int)\n B\n}\nconst V enum {\n A(int)\n C\n}\n"
    for key, st, ok in (("too few", "is .A { println(\"x\") }", None), ("too many", "is .A(x, y) { println(\"x\") }", False), ("payload of none", "is .B(x) { println(\"x\") }", False), ("foreign", "is V.A(x) { println(\"x\") }", False), ("unknown", "is .C(x) { println(\"x\") }", False), ("right", "is U.A(x) { println(\"${x}\") }", True)):
        if ok is not None: jobs.append(("pattern:" + key, tg + "do f(u U) {\n when u {\n  %s\n  default { println(\"d\") }\n }\n}\ndo main() {\n f(U.B)\n}\n" % st, ok))
    for key, st, ok in (("none", "U.A()", False), ("two", "U.A(1, 2)", False), ("wrong type", 'U.A("x")', False), ("payload to none", "U.B(1)", False), ("right", "U.A(1)", True), ("bare", "U.A", False), ("foreign", "V.A(1)", False)):
        jobs.append(("construct:" + key, tg + "do f(u U) {\n println(\"x\")\n}\ndo main() {\n f(%s)\n}\n" % st, ok))
    def go(j):
        key, src, ok = j
        if c.expired(5) or c.too_many(): return
        _, r, d = tc.compile(src, check_only=True); c.count("verdicts")
        if (r.returncode == 0) != ok or r.returncode not in (0, 1): c.violation(key, "%s: check exits %d on a program that is %s: %s" % (key, r.returncode, "right" if ok else "wrong", (r.stdout + r.stderr).decode(errors="replace")[:150]), {"source": src})
    pmap(go, jobs)
def body(c):
    c.rule = "one evaluation = one declared enum, payload shape or branch list exercised in all positions and values, or one #strict or typing verdict; all distinct"
    tc = Toolchain(c.tmp)
    strict(c, tc)
    for f in (plain, tagged, selection):
        f(c, tc).go()
if __name__ == "__main__": main("C13", body, level="exploration", quick_s=240, thorough_s=840)
