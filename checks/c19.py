#!/usr/bin/env python3
"""C19: every import graph of up to three modules, in every import style and several layouts, with the same names declared everywhere."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
M = ["aa", "bb", "cc"]
STYLES = ["plain", "ext", "alias", "use", "using", "funcusing"]
def mod(m, imps, split=False):
    """the files of one module; imps: [(module, style, path)]; every name but only_<m> is declared in every module, and in main"""
    n = {"main": 9}.get(m) or M.index(m) + 1
    calls = "".join('    mut t_%s string = %s.go()\n' % (i, q(i, st)) for i, st, _ in imps)
    inner = ",".join("${t_%s}" % i for i, _, _ in imps)
    one = ("const K int = %d\nconst E enum {\n    FIRST = %d\n    SECOND = %d\n}\nconst S struct {\n    v int\n    e E\n    k [int]\n    do twice(s S) -> int {\n        return s.v * 2 + K\n    }\n}\n"
           % (n, n * 10, n * 10 + 1))
    two = ("do who() -> string {\n    return \"%s\"\n}\nprivate do hidden() -> int {\n    return K * 100\n}\n"
           "do mk(v int = K) -> S {\n    return S{v: v, e: E.SECOND, k: {v, hidden()}}\n}\ndo read(s S) -> int {\n    if s.e == E.SECOND {\n        return s.v + s.k[1]\n    }\n    return -1\n}\n"
           "do pick(e E) -> int {\n    when e {\n        is E.FIRST { return K }\n        default { return 0 - K }\n    }\n    return 0\n}\n"
           "do only_%s(x int) -> int {\n    return x + hidden()\n}\n"
           "do apply(f func(int) -> int, x int) -> int {\n    return f(x)\n}\n" % (m, m))
    go = "do go() -> string {\n%s    mut me string = who()\n    return \"${me}${K}(%s)\"\n}\n" % (calls, inner)
    imp = lambda: "".join(imp_line(*i) for i in imps)
    if not split: return [imp() + one + two + go]
    return [one, two, imp() + go]
def q(i, st): return "q" + i if st == "alias" else i
def imp_line(i, st, path):
    if st == "alias": return 'import q%s "%s"\n' % (i, path)
    if st == "use": return 'import and use "%s"\n' % path
    if st == "using": return 'import "%s"\nusing %s\n' % (path, i)
    return 'import "%s"\n' % (path + ".gray" if st == "ext" else path)
def go_of(m, graph): return "%s%d(%s)" % (m, M.index(m) + 1, ",".join(go_of(i, graph) for i in graph[m]))
def main_src(imps, graph, clash=True):
    """main uses every member of every imported module; names of its own coincide with theirs"""
    b = ""; exp = []
    own = mod("main", [])[0] if clash else ""
    fu = [i for i, st, _ in imps if st == "funcusing"]
    for i, st, _ in imps:
        m = q(i, st); n = M.index(i) + 1
        def p(e, v): nonlocal b; b += "    println(%s)\n" % e; exp.append(str(v))
        p(m + ".go()", go_of(i, graph)); p(m + ".K", n); p(m + ".mk().v", n); p("%s.mk(5).k[1]" % m, n * 100)
        b += "    mut s_%s %s.S = %s.S{v: 3, e: %s.E.FIRST, k: {1, 2}}\n" % (i, m, m, m)
        p("%s.read(s_%s)" % (m, i), -1)
        b += "    s_%s.e = %s.E.SECOND\n" % (i, m)
        p("%s.read(s_%s)" % (m, i), 5); p("%s.pick(%s.E.FIRST)" % (m, m), n); p("cast(%s.E.SECOND, int)" % m, n * 10 + 1)
        b += "    mut l_%s [%s.S] = {%s.mk(7), s_%s}\n" % (i, m, m, i)
        p("l_%s[0].v + l_%s[1].v" % (i, i), 10)
        if st in ("use", "using") or st == "funcusing": p("only_%s(1)" % i, 1 + n * 100)
        p("%s.only_%s(2)" % (m, i), 2 + n * 100)
    if clash:
        for e, v in (("who()", "main"), ("K", 9), ("mk().k[1]", 900), ("read(mk(4))", 904), ("pick(E.FIRST)", 9), ("only_main(1)", 901), ("cast(E.SECOND, int)", 91)): b += "    println(%s)\n" % e; exp.append(str(v))
    return "".join(imp_line(*i) for i in imps) + own + "do main() {\n" + ("    using %s\n" % ", ".join(fu) if fu else "") + b + "}\n", "\n".join(exp) + "\n"
# where a module's files are and what its importers write; d: directory of the importer when it is itself in a directory module
LAYOUTS = {
    "flat": (lambda m: m + ".gray", lambda m, by: "./" + m),
    "below": (lambda m: "lib/%s.gray" % m, lambda m, by: "./lib/" + m if by == "main" else "./" + m),
    "apart": (lambda m: "d_%s/x/%s.gray" % (m, m), lambda m, by: "./d_%s/x/%s" % (m, m) if by == "main" else "../../d_%s/x/%s" % (m, m)),
    "dirs": (lambda m: m + "/", lambda m, by: "./" + m if by == "main" else "../" + m),
    "deep dirs": (lambda m: "p/%s/" % m, lambda m, by: "./p/" + m if by == "main" else "../" + m),
}
def build(graph, order, style, layout, clash=True):
    """files and expected output; style(importer, imported)"""
    place, path = LAYOUTS[layout]; files = {}
    def st(by, i):
        s = style(by, i)
        if place(i).endswith("/") and s == "ext": return "plain"
        return "using" if s == "funcusing" and by != "main" else s
    for m in M:
        if m not in graph: continue
        imps = [(i, st(m, i), path(i, m)) for i in graph[m]]
        at = place(m)
        if at.endswith("/"):
            for k, t in enumerate(mod(m, imps, True)): files["%spart%d.gray" % (at, k)] = t
        else: files[at] = mod(m, imps)[0]
    src, exp = main_src([(i, st("main", i), path(i, "main")) for i in order], graph, clash)
    return src, files, exp
def body(c):
    c.rule = "one evaluation = one program of several modules built and run (or refused); all distinct"
    tc = Toolchain(c.tmp); T = c.thorough
    def show(src, files): return {"main.gray": src, **files}
    def good(j):
        key, (src, files, exp) = j
        if c.expired(20): return
        exe, r, d = tc.compile(src, files, opt="-O0")
        if exe is None: return key, "refused: %s" % (r.stdout + r.stderr).decode(errors="replace")[:400], show(src, files)
        x = run([exe], timeout=30)
        import shutil; shutil.rmtree(d, ignore_errors=True)
        if x.returncode or x.stdout.decode(errors="replace") != exp: return key, "expected %r, got exit %d %r %r" % (exp, x.returncode, x.stdout.decode(errors="replace")[:600], x.stderr[:200]), show(src, files)
        return True
    jobs = {}
    def add(key, *a, **k):
        b = build(*a, **k); jobs.setdefault(key, b)
    # every graph on up to three modules, every module reachable from main
    graphs = []
    for n in (1, 2, 3):
        ms = M[:n]; pairs = [(x, y) for x in ms for y in ms if x < y]
        for k in range(1 << len(pairs)):
            es = [p for b, p in enumerate(pairs) if k >> b & 1]
            g = {m: [y for x, y in es if x == m] for m in ms}
            for direct in itertools.chain.from_iterable(itertools.combinations(ms, r) for r in range(1, n + 1)):
                seen = set(direct)
                for m in ms:
                    if m in seen: seen |= set(g[m])
                if len(seen) == n: graphs.append((g, direct))
    name = lambda g, d: "%s|%s" % (";".join("%s>%s" % (m, ",".join(g[m])) for m in g), ",".join(d))
    for g, direct in graphs:
        for lay in LAYOUTS:
            for s in STYLES if T or len(g) < 3 or lay == "flat" else STYLES[:4]:
                for order in (itertools.permutations(direct) if T or s == "plain" else (direct, direct[::-1]) if len(direct) > 1 else (direct,)):
                    add("graph:%s:%s:%s:%s" % (name(g, direct), ",".join(order), lay, s), g, order, lambda by, i: s, lay)
        # the style of each import on its own
        es = [("main", i) for i in direct] + [(m, i) for m in g for i in g[m]]
        if len(es) <= (4 if T else 3):
            for ss in itertools.product(STYLES[:5], repeat=len(es)):
                add("styles:%s:%s" % (name(g, direct), ",".join(ss)), g, direct, lambda by, i: ss[es.index((by, i))], "flat")
    tot = list(jobs.items()); done = 0
    for res in pmap(good, tot):
        if res is None: continue
        done += 1; c.count("graphs")
        if res is not True: c.violation(*res)
    c.sample({"program": tot[-1][0], "output": tot[-1][1][2]})
    # cycles: refused, or every module once with its own names
    cyc = []
    for n in (2, 3):
        ms = M[:n]; pairs = [(x, y) for x in ms for y in ms]
        for k in range(1 << len(pairs)):
            es = [p for b, p in enumerate(pairs) if k >> b & 1]
            if n == 3 and not T and len(es) > 4: continue
            g = {m: [y for x, y in es if x == m] for m in ms}
            # has a cycle?
            left = set(ms)
            while True:
                f = {m for m in left if not any(y in left for y in g[m])}
                if not f: break
                left -= f
            if left: cyc.append((g, es))
    def cycle(j):
        (g, es), lay = j
        if c.expired(20): return
        place, path = LAYOUTS[lay]; files = {}
        for m in g:
            t = "".join('import "%s"\n' % path(i, m) for i in g[m]) + "const K int = %d\ndo go(n int) -> string {\n    if n == 0 { return \"%s\" }\n%s    return \"%s(%s)\"\n}\n" % (
                M.index(m) + 1, m, "".join("    mut t_%s string = %s.go(n - 1)\n" % (i, i) for i in g[m]), m, ",".join("${t_%s}${%s.K}" % (i, i) for i in g[m]))
            at = place(m); files[at + "one.gray" if at.endswith("/") else at] = t
        src = "".join('import "%s"\n' % path(m, "main") for m in g) + "do main() {\n" + "".join("    println(%s.go(2))\n" % m for m in g) + "}\n"
        def ev(m, n): return m if n == 0 else "%s(%s)" % (m, ",".join("%s%d" % (ev(i, n - 1), M.index(i) + 1) for i in g[m]))
        exp = "".join(ev(m, 2) + "\n" for m in g)
        key = "cycle:%s:%s" % (lay, name(g, ()))
        exe, r, d = tc.compile(src, files, opt="-O0", timeout=30)
        if exe is None:
            if r.returncode == 1 and b"error[E" in r.stderr + r.stdout: return True
            return key, "ends with %d: %s" % (r.returncode, (r.stdout + r.stderr).decode(errors="replace")[:400]), show(src, files)
        x = run([exe], timeout=30)
        if x.returncode or x.stdout.decode() != exp: return key, "expected %r (or an error), got exit %d %r" % (exp, x.returncode, x.stdout.decode(errors="replace")[:300]), show(src, files)
        return True
    for res in pmap(cycle, [(x, l) for x in cyc for l in (LAYOUTS if T else ("flat", "dirs"))]):
        if res is None: continue
        c.count("cycles")
        if res is not True: c.violation(*res)
    # what must be refused: every module file missing in turn, unknown members through every kind of use
    bad = []
    for g, direct in graphs:
        for lay in LAYOUTS:
            src, files, exp = build(g, direct, lambda by, i: "plain", lay)
            for m in g:
                left = {f: t for f, t in files.items() if not (f == LAYOUTS[lay][0](m) or LAYOUTS[lay][0](m).endswith("/") and f.startswith(LAYOUTS[lay][0](m)))}
                if T or len(g) < 3 or lay == "flat": bad.append(("missing:%s:%s:%s" % (name(g, direct), lay, m), src, left))
            if lay not in ("flat", "dirs") and not T: continue
            if len(g) > 2 and not T and lay != "flat": continue
            for m in g:
                e = "aa" if m == "aa" else m
                for w, line in (("function", "println(%s.nope())"), ("constant", "println(%s.NOPE)"), ("struct", "mut z %s.Nope = %s.mk()"), ("literal", "mut z = %s.Nope{v: 1}"), ("enum", "println(cast(%s.E.NOPE, int))"), ("field", "println(%s.mk().nope)"), ("reference", "const z func(int) -> int = ()%s.nope\n    println(z(1))")):
                    if m in direct: bad.append(("unknown %s:%s:%s:%s" % (w, name(g, direct), lay, m), src.replace("do main() {\n", "do main() {\n    " + line.replace("%s", m) + "\n"), files))
    one = {"aa": []}
    for lay in LAYOUTS:
        src, files, exp = build(one, ("aa",), lambda by, i: "plain", lay)
        imp = src.split("\n")[0]; pth = imp.split('"')[1]
        for w, repl in (("two of one name", imp + '\nimport "./other/aa"'), ("one alias twice", imp + '\nimport aa "./other/bb"'), ("alias of two", 'import aa "./other/bb", aa "./other/cc"'),
                        ("directory without sources", imp + '\nimport "./void"'), ("itself", imp + '\nimport "./PROG"'), ("stdlib name", imp + '\nimport @nosuchmodule'), ("using unknown", imp + "\nusing bb"), ("with slash", imp.replace(pth, pth + "/nope"))):
            bad.append(("%s:%s" % (w, lay), src.replace(imp, repl), dict(files, **{"other/aa.gray": mod("aa", [])[0], "other/bb.gray": mod("bb", [])[0], "other/cc.gray": mod("cc", [])[0], "void/readme.txt": "x\n"})))
        if lay.endswith("dirs"):
            at = LAYOUTS[lay][0]("aa")
            for w, t in (("function", "do who() -> string {\n    return \"x\"\n}\n"), ("constant", "const K int = 4\n"), ("struct", "const S struct {\n    z int\n}\n"), ("enum", "const E enum {\n    Z\n}\n"), ("variable", "mut K int = 4\n"), ("private", "private do hidden() -> int {\n    return 1\n}\n")):
                bad.append(("twice in a directory %s:%s" % (w, lay), src, dict(files, **{at + "part9.gray": t}))); bad.append(("twice in a directory, first %s:%s" % (w, lay), src, dict(files, **{at + "aart.gray": t})))
    def refuse(j):
        key, src, files = j
        if c.expired(10): return
        exe, r, d = tc.compile(src, files, opt="-O0", timeout=30, check_only=True)
        if r.returncode == 1 and b"error[E" in r.stderr + r.stdout: return True
        if r.returncode == 0: return key, "accepted by check", show(src, files)
        return key, "check ends with %d: %s" % (r.returncode, (r.stdout + r.stderr).decode(errors="replace")[:300]), show(src, files)
    for res in pmap(refuse, bad):
        if res is None: continue
        c.count("refusals")
        if res is not True: c.violation(*res)
    # rules of resolution: file before directory, hidden files, subdirectories, one file reached twice
    A, B = mod("aa", [])[0], mod("bb", [])[0]
    say = lambda w: "do w() -> string {\n    return \"%s\"\n}\n" % w
    cnt = "mut n int = 0\ndo next() -> int {\n    n += 1\n    return n\n}\n"
    RULES = [("file before directory", 'import "./aa"\ndo main() {\n    println(aa.w())\n}\n', {"aa.gray": say("file"), "aa/x.gray": say("dir")}, "file\n"),
             ("file before directory, alias", 'import z "./aa"\ndo main() {\n    println(z.w())\n}\n', {"aa.gray": say("file"), "aa/x.gray": say("dir")}, "file\n"),
             ("hidden file", 'import "./aa"\ndo main() {\n    println(aa.w())\n}\n', {"aa/x.gray": say("x"), "aa/.y.gray": say("y")}, "x\n"),
             ("other files", 'import "./aa"\ndo main() {\n    println(aa.w())\n}\n', {"aa/x.gray": say("x"), "aa/y.gray.bak": say("y"), "aa/z.txt": "?? {", "aa/gray": "x"}, "x\n"),
             ("subdirectory apart", 'import "./aa", "./aa/sub"\ndo main() {\n    println(aa.w())\n    println(sub.w())\n}\n', {"aa/x.gray": say("x"), "aa/sub/y.gray": say("y")}, "x\ny\n"),
             ("subdirectory not read", 'import "./aa"\ndo main() {\n    println(aa.w())\n}\n', {"aa/x.gray": say("x"), "aa/sub/y.gray": "this is no program ("}, "x\n"),
             ("one module, one state", 'import "./aa", "./bb", "./cc"\ndo main() {\n    println(bb.go())\n    println(cc.go())\n    println(aa.next())\n}\n', {"aa.gray": cnt, "bb.gray": 'import "./aa"\ndo go() -> int {\n    return aa.next()\n}\n', "cc.gray": 'import q "./aa.gray"\ndo go() -> int {\n    return q.next()\n}\n'}, "1\n2\n3\n"),
             ("one directory, one state", 'import "./aa", "./bb"\ndo main() {\n    println(bb.go())\n    println(aa.next())\n    println(aa.next2())\n}\n', {"aa/x.gray": cnt, "aa/y.gray": "do next2() -> int {\n    n += 10\n    return n\n}\n", "bb.gray": 'import "./aa"\ndo go() -> int {\n    return aa.next2()\n}\n'}, "10\n11\n21\n"),
             ("siblings import each other", 'import "./aa"\ndo main() {\n    println(aa.w())\n    println(aa.v())\n}\n', {"aa/x.gray": 'import "./y.gray"\ndo w() -> int {\n    return v() + 1\n}\n', "aa/y.gray": "do v() -> int {\n    return 4\n}\n"}, "5\n4\n"),
             ("two aliased of one name", 'import "./aa", o "./other/aa"\ndo main() {\n    println(aa.w())\n    println(o.w())\n}\n', {"aa.gray": say("one"), "other/aa.gray": say("two")}, "one\ntwo\n"),
             ("comma separated", 'import "./aa", z "./bb.gray", @strings\ndo main() {\n    println(aa.w())\n    println(z.w())\n    println(strings.to_upper("x"))\n}\n', {"aa.gray": say("a"), "bb.gray": say("b")}, "a\nb\nX\n"),
             ("imports of a module are its own", 'import "./aa"\ndo main() {\n    println(aa.up("x"))\n}\n', {"aa.gray": "import @strings\ndo up(s string) -> string {\n    return strings.to_upper(s)\n}\n"}, "X\n"),
             ("the same stdlib under other names", 'import @strings, "./aa", "./bb"\ndo main() {\n    println(aa.up("x"))\n    println(bb.up("y"))\n    println(strings.to_upper("z"))\n}\n', {"aa.gray": "import s @strings\ndo up(t string) -> string {\n    return s.to_upper(t)\n}\n", "bb.gray": "import and use @strings\ndo up(t string) -> string {\n    return to_upper(t)\n}\n"}, "X\nY\nZ\n")]
    for n, src, files, exp in RULES:
        res = good(("rule:" + n, (src, files, exp)))
        if res is not None:
            c.count("rules")
            if res is not True: c.violation(*res)
if __name__ == "__main__": main("C19", body, level="exploration", quick_s=300, thorough_s=840)
