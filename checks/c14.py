#!/usr/bin/env python3
"""C14 – faults: every fault kind at every place of a program, with output buffered before it, run on the real runtime."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
PRE = """const P struct {
 x int
 n ^P
 a [int]
}
const H struct {
 v int
 do hit(k int) -> int { return k }
}
do zero() -> int { return 0 }
do rec(n int) -> int { return rec(n + 1) + 1 }
do reca(n int) -> int { return recb(n + 1) + 1 }
do recb(n int) -> int {
 mut s string = "${n}"
 mut t = reca(n + len(s))
 return t + 1
}
do recwide(a int, b int, c int, d int, e int, f string, g float, h bool, i [int], j map[string:int]) -> int {
 mut x = recwide(b, c, d, e, a, "${f}x", g + 1.0, !h, i, j)
 return x + a
}
do recvoid(n int) { recvoid(n + 1) }
do recloop(n int) -> int {
 mut t = 0
 for i in range(0, 3) {
  if i >= 0 { t += recloop(n + 1) }
 }
 return t
}
do rec256(a i256, b i256, c u256, d u256) -> i256 {
 mut e i256 = rec256(b, a, d, c)
 mut f i256 = rec256(e, a, d, c)
 return f
}
"""
# kind, statement, code, expression form or None (type int)
FAULTS = [
 ("nil read", "mut p ^P = nil\n println(\"${p^.x}\")", "P0080", None),
 ("nil write", "mut p ^P = nil\n p^.x = 1", "P0080", None),
 ("nil chain", "mut p ^P = new(P)\n println(\"${p^.n^.x}\")", "P0080", None),
 ("index high", "mut a [int] = {1, 2}\n mut i = 2\n println(\"${a[i]}\")", "P0033", None),
 ("index negative", "mut a [int] = {1, 2}\n mut i = 0 - 1\n println(\"${a[i]}\")", "P0033", None),
 ("index write", "mut a [int] = {1, 2}\n mut i = 5\n a[i] = 3", "P0033", None),
 ("index empty", "mut a [string] = {}\n mut i = 0\n println(a[i])", "P0033", None),
 ("index fixed", "const a [int, 3] = {1, 2, 3}\n mut i = 3\n println(\"${a[i]}\")", "P0033", None),
 ("index nested", "mut a [[int]] = {{1}, {2, 3}}\n mut i = 1\n println(\"${a[0][i]}\")", "P0033", None),
 ("string index", "mut s = \"ab\"\n mut i = 2\n println(\"${s[i]}\")", "P0", None),
 ("key", "mut m map[string:int] = {\"a\": 1}\n println(\"${m[\"b\"]}\")", "P0081", None),
 ("assert", "assert(zero() == 1, \"no\")", "P0075", None),
 ("panic", "panic(\"stop\")", "P0076", None),
 ("divide", "mut z = zero()\n println(\"${5 / z}\")", "P0078", "(5 / zero())"),
 ("modulo", "mut z = zero()\n println(\"${5 % z}\")", "P0078", "(5 % zero())"),
 ("divide min", "mut z = zero() - 1\n mut m = -9223372036854775807 - 1\n println(\"${m / z}\")", "P00", None),
 ("add", "mut z = zero() + 9223372036854775807\n z += 1\n println(\"${z}\")", "P0004", "(9223372036854775807 + (zero() + 1))"),
 ("subtract", "mut z = zero() - 9223372036854775807\n z = z - 2\n println(\"${z}\")", "P0005", None),
 ("multiply", "mut z = zero() + 9223372036854775807\n println(\"${z * 2}\")", "P0006", None),
 ("increment", "mut z = zero() + 9223372036854775807\n z++\n println(\"${z}\")", "P0004", None),
 ("cast", "mut z = zero() + 300\n mut b u8 = cast(z, u8)\n println(\"${b}\")", "P00", None),
 ("to int", "mut f = 1000000000000000000000000000000.0\n println(\"${int(f)}\")", "P0020", "int(1000000000000000000000000000000.0)"),
 ("text to int", "mut s = \"x\"\n println(\"${int(s)}\")", "P0", "int(\"x\")"),
 ("first of empty", "mut a [int] = {}\n println(\"${arrays.get_first(a)}\")", "P0045", None),
 ("remove of empty", "mut a [int] = {}\n mut q = arrays.remove_last(a)\n println(\"${q}\")", "P0048", None),
 ("change in loop", "mut a [int] = {1, 2}\n for_each x in a { arrays.append(a, x) }", "P0034", None),
 ("change map in loop", "mut m map[string:int] = {\"a\": 1}\n for_each k, v in m { m[\"${k}b\"] = v }", "P0035", None),
 ("wide", "mut w i128 = 170141183460469231731687303715884105727\n w += 1\n println(\"${w}\")", "P0021", None),
 ("byte", "mut w u8 = 255\n w += 1\n println(\"${w}\")", "P0015", None),
]
RECS = [("self", "println(\"${rec(0)}\")"), ("mutual", "println(\"${reca(0)}\")"), ("void", "recvoid(0)"), ("loop", "println(\"${recloop(0)}\")"),
        ("wide frame", "mut e [int] = {1}\n mut m map[string:int] = {\"a\": 1}\n println(\"${recwide(1, 2, 3, 4, 5, \"s\", 1.0, true, e, m)}\")"),
        ("256", "mut b i256 = 1\n mut u u256 = 2\n mut r i256 = rec256(b, b, u, u)\n println(\"${r}\")")]
AFTER = "println(\"AFTER\")"
# place: declarations (@ = unique number, FAULT = statement), statement in main's branch
PLACES = [
 ("main", "", "FAULT\n AFTER"),
 ("callee", "do p@() {\n FAULT\n AFTER\n}", "p@()\n AFTER"),
 ("deep callee", "do q@() {\n FAULT\n AFTER\n}\ndo r@() { q@()\n AFTER\n}\ndo p@() {\n mut k = 0\n if k == 0 { r@()\n AFTER\n }\n AFTER\n}", "p@()\n AFTER"),
 ("loop", "do p@() {\n for i in range(0, 3) {\n  if i == 1 {\n FAULT\n AFTER\n }\n }\n}", "p@()\n AFTER"),
 ("while", "do p@() {\n mut j = 0\n as_long_as j < 2 {\n  j++\n FAULT\n AFTER\n }\n}", "p@()\n AFTER"),
 ("for each", "do p@() {\n mut xs [string] = {\"u\", \"v\"}\n for_each x in xs {\n FAULT\n println(x)\n AFTER\n }\n}", "p@()\n AFTER"),
 ("when", "do p@(k int) {\n when k {\n  is 3 {\n FAULT\n AFTER\n }\n  default { AFTER }\n }\n}", "p@(3)\n AFTER"),
 ("otherwise", "do p@(k int) {\n if k == 1 { AFTER } otherwise {\n FAULT\n AFTER\n }\n}", "p@(3)\n AFTER"),
 ("after ensure", "do c@() { print(\"\") }\ndo p@() {\n ensure c@()\n FAULT\n AFTER\n}", "p@()\n AFTER"),
 ("in ensure", "do c@() {\n FAULT\n AFTER\n}\ndo p@() {\n ensure c@()\n}", "p@()\n AFTER"),
 ("function reference", "do p@() {\n FAULT\n AFTER\n}\ndo w@(f func) {\n f()\n AFTER\n}", "w@(()p@)\n AFTER"),
 ("value call", "do p@() -> int {\n FAULT\n AFTER\n return 1\n}", "mut v = 1 + p@()\n println(\"${v}\")\n AFTER"),
 ("two results", "do p@() -> (int, Error) {\n FAULT\n AFTER\n return 1, nil\n}", "mut v, e = p@()\n println(\"${v}\")\n if e != nil { AFTER }\n AFTER"),
 ("thread", "do p@() {\n FAULT\n AFTER\n}", "mut t = threads.spawn(()p@)\n threads.join(t)\n AFTER"),
 ("thread callee", "do q@() {\n FAULT\n AFTER\n}\ndo p@() {\n q@()\n AFTER\n}", "mut t = threads.spawn(()p@)\n threads.join(t)\n AFTER"),
]
EXPRS = [("condition", "", "if EXPR == 1 { AFTER }\n AFTER"), ("argument", "do p@(a int, b int) { AFTER\n println(\"${a + b}\") }", "p@(1, EXPR)\n AFTER"),
         ("array literal", "", "mut a [int] = {1, EXPR}\n println(\"${len(a)}\")\n AFTER"), ("map literal", "", "mut m map[string:int] = {\"a\": EXPR}\n println(\"${len(m)}\")\n AFTER"),
         ("struct literal", "", "mut h = H{v: EXPR}\n println(\"${h.v}\")\n AFTER"), ("return", "do p@() -> int { return EXPR }", "println(\"${p@()}\")\n AFTER"),
         ("interpolation", "", "println(\"v ${EXPR}\")\n AFTER"), ("range", "", "for i in range(0, EXPR) { println(\"${i}\") }\n AFTER"), ("when value", "", "when EXPR {\n is 1 { AFTER }\n default { AFTER }\n }\n AFTER"),
         ("index", "", "mut a [int] = {1, 2}\n println(\"${a[EXPR]}\")\n AFTER"), ("assignment", "", "mut v = 1\n v = EXPR\n println(\"${v}\")\n AFTER"), ("compound", "", "mut v = 1\n v += EXPR\n println(\"${v}\")\n AFTER"),
         ("loop condition", "", "as_long_as EXPR == 0 { AFTER }\n AFTER"), ("default", "do p@(a int = EXPR) { AFTER\n println(\"${a}\") }", "p@()\n AFTER"), ("element", "", "mut a [int] = {1, 2}\n a[0] = EXPR\n println(\"${a[0]}\")\n AFTER"),
         ("and", "", "if true && EXPR == 1 { AFTER }\n AFTER"), ("struct function", "", "println(\"${H.hit(EXPR)}\")\n AFTER"), ("spare result", "", "mut v, _ = strconv.to_int(\"${EXPR}\")\n println(\"${v}\")\n AFTER")]
# output written before the fault: statement, text on stdout
BEFORE = [("none", "", ""), ("line", "println(\"one\")", "one\n"), ("partial", "print(\"no newline\")", "no newline"),
          ("long", "for i in range(0, 3000) { println(\"line ${i}\") }", "".join("line %d\n" % i for i in range(3000))), ("both", "eprintln(\"err\")\n println(\"out\")\n print(\"x\")", "out\nx")]
# functions left in every way; 25000 calls of each are no fault
LEAVE = [("end", "do fx@() {\n mut a = 1\n a++\n}", "fx@()"), ("value", "do fx@() -> int { return 1 }", "mut v = fx@()\n v++"), ("branch", "do fx@(i int) -> int {\n if i % 2 == 0 { return 1 }\n return 2\n}", "mut v = fx@(i)\n v++"),
 ("loop", "do fx@(i int) -> int {\n for j in range(0, 5) {\n  if j == i % 3 { return j }\n }\n return 9\n}", "mut v = fx@(i)\n v++"), ("when", "do fx@(i int) -> int {\n when i % 3 {\n  is 0 { return 1 }\n  is 1 { return 2 }\n  default { return 3 }\n }\n return 4\n}", "mut v = fx@(i)\n v++"),
 ("early void", "do fx@(i int) {\n if i % 2 == 1 { return }\n mut s = \"x${i}\"\n s = \"\"\n}", "fx@(i)"), ("ensure", "do cx@() { print(\"\") }\ndo fx@(i int) -> int {\n ensure cx@()\n if i % 2 == 1 { return 1 }\n return 2\n}", "mut v = fx@(i)\n v++"), ("ensure void", "do cx@() { print(\"\") }\ndo fx@(i int) {\n ensure cx@()\n if i % 2 == 1 { return }\n}", "fx@(i)"),
 ("two", "do fx@(i int) -> (int, string) {\n if i % 2 == 1 { return 1, \"a\" }\n return 2, \"b\"\n}", "mut v, w = fx@(i)\n v += len(w)"), ("or_return", "do gx@(i int) -> (int, Error) {\n if i % 2 == 0 { return 1, error(\"e\") }\n return 2, nil\n}\ndo fx@(i int) -> (int, Error) {\n mut a = gx@(i) or_return\n return a, nil\n}", "mut v, _ = fx@(i)\n v++"),
 ("recursive", "do fx@(n int) -> int {\n if n == 0 { return 0 }\n return fx@(n - 1) + 1\n}", "mut v = fx@(3)\n v++"), ("nested", "do gx@(i int) -> int { return i }\ndo fx@(i int) -> int { return gx@(gx@(i) + gx@(1)) }", "mut v = fx@(i)\n v++"), ("reference", "do fx@(i int) -> int { return i }\ndo ux@(h func(int) -> int, i int) -> int { return h(i) }", "mut v = ux@(()fx@, i)\n v++"),
 ("struct", "", "mut v = H.hit(i)\n v++"), ("string", "do fx@(i int) -> string { return \"v${i}\" }", "mut v = fx@(i)\n v = \"\""), ("array", "do fx@(i int) -> [int] {\n mut a [int] = {i}\n return a\n}", "mut v = fx@(i)\n v[0] = 1"), ("reference argument", "do fx@(&x int) {\n x += 1\n if x > 5 { return }\n}", "mut v = i\n fx@(v)"),
 ("generic", "do fx@(x ?) -> ? {\n return x\n}", "mut v = fx@(i)\n v++"), ("short circuit", "do fx@(i int) -> bool { return i % 2 == 0 }", "if fx@(i) && fx@(i + 1) { print(\"\") }")]
HOW = [("main", "", "mut i = 0\n as_long_as i < 25000 {\n STMT\n i++\n }"), ("for", "", "for i in range(0, 25000) {\n STMT\n }"), ("callee", "do p@() {\n for i in range(0, 25000) {\n STMT\n }\n}", "p@()\n p@()"), ("thread", "do p@() {\n for i in range(0, 25000) {\n STMT\n }\n}", "mut t = threads.spawn(()p@)\n threads.join(t)")]
class Prog:
    def __init__(self): self.decls = []; self.arms = []; self.exp = []
    def add(self, key, decl, stmt, before, code, status, line_of=None):
        n = len(self.arms)
        self.decls.append(decl.replace("@", str(n)).replace("AFTER", AFTER))
        self.arms.append(" if k == %d {\n %s\n %s\n }" % (n, before[1], stmt.replace("@", str(n)).replace("AFTER", AFTER)))
        self.exp.append((key, before[2], code, status))
    def source(self):
        return "import @os\nimport @arrays\nimport @threads\nimport @strconv\n" + PRE + "\n".join(self.decls) + "\ndo main() {\n mut args = os.args()\n mut k = int(args[1])\n" + "\n".join(self.arms) + "\n}\n"
def programs(c):
    cur = Prog()
    def add(*a):
        nonlocal cur
        cur.add(*a)
        if len(cur.arms) >= 60:
            p, cur = cur, Prog(); return [p]
        return []
    bi = 0
    for f in FAULTS:
        for pl in PLACES:
            for b in (BEFORE if c.thorough or pl[0] in ("main", "thread", "callee") else [BEFORE[1 + bi % 4]]):
                bi += 1
                yield from add("%s/%s/%s" % (f[0], pl[0], b[0]), pl[1].replace("FAULT", f[1]), pl[2].replace("FAULT", f[1]), b, f[2], 1)
        if f[3]:
            for pl in EXPRS:
                b = BEFORE[1 + bi % 4]; bi += 1
                yield from add("%s/%s/%s" % (f[0], pl[0], b[0]), pl[1].replace("EXPR", f[3]), pl[2].replace("EXPR", f[3]), b, f[2], 1)
    for r in RECS:
        for pl in PLACES:
            b = BEFORE[1 + bi % 4]; bi += 1
            yield from add("recursion %s/%s/%s" % (r[0], pl[0], b[0]), pl[1].replace("FAULT", r[1]), pl[2].replace("FAULT", r[1]), b, "P0003", 1)
    for s in (0, 1, 2, 7, 127, 128, 255) if not c.thorough else range(256):
        for pl in PLACES:
            b = BEFORE[1 + bi % 4]; bi += 1
            yield from add("exit %d/%s/%s" % (s, pl[0], b[0]), pl[1].replace("FAULT", "exit(%d)" % s), pl[2].replace("FAULT", "exit(%d)" % s), b, None, s)
    for pl in PLACES:
        for b in BEFORE:
            ok = "mut z@ = zero()\n if z@ == 1 { AFTER }"
            decl, st = pl[1].replace("AFTER", "print(\"\")").replace("FAULT", "mut zz = zero()\n zz++"), pl[2].replace("AFTER", "print(\"\")").replace("FAULT", "mut zz = zero()\n zz++")
            yield from add("end/%s/%s" % (pl[0], b[0]), decl, st, b, None, 0)
    for l in LEAVE:
        for h in HOW:
            yield from add("leave %s/%s/line" % (l[0], h[0]), l[1] + "\n" + h[1].replace("STMT", l[2]), h[2].replace("STMT", l[2]), BEFORE[1], None, 0)
    if cur.arms: yield cur
def body(c):
    c.rule = "one evaluation = one fault (or exit status, or normal end) at one place after one kind of earlier output, run in a process of its own; all distinct"
    tc = Toolchain(c.tmp)
    def go(p):
        if c.expired(8) or c.too_many(): return
        src = p.source()
        exe, r, d = tc.compile(src)
        if exe is None:
            c.violation("build", "program does not build: " + (r.stdout + r.stderr).decode(errors="replace")[:900], {"program": src}); return
        for i, ((key, out, code, status), (st, o, e)) in enumerate(zip(p.exp, tc.forkrun(exe, [[str(i)] for i in range(len(p.exp))], timeout=30, workers=2))):
            c.count("runs")
            if key.startswith("end/"): o2, want = o.decode(errors="replace"), None
            o = o.decode(errors="replace"); e = e.decode(errors="replace"); bad = None
            base = {"u\nv\n": ""}
            if status != st: bad = "exit status %s instead of %s" % (st, status)
            elif key.startswith("end/"):
                if not o.startswith(out): bad = "output %r does not start with %r" % (o[-80:], out[-80:])
            elif o != out: bad = "standard output ends in %r instead of %r" % (o[-120:], out[-60:])
            elif code and not any(l.startswith("panic[" + code) for l in e.splitlines()): bad = "no panic message %s on standard error: %r" % (code, e[-200:])
            elif code and e.count("panic[") != 1: bad = "panic message not exactly once: %r" % e[-300:]
            elif code is None and "panic" in e: bad = "a panic message without a fault: %r" % e[-200:]
            elif ("/both" in key) != e.startswith("err\n"): bad = "earlier standard error output lost: %r" % e[:100]
            if bad: c.violation(key, "%s: %s" % (key, bad), {"program": src, "args": [str(i)]})
            # on one shared stream the message follows what was printed before it
            if code and not bad and ("/main/" in key or "/thread/" in key) and "/both" not in key and out:
                r = subprocess.run([exe, str(i)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=60)
                c.count("shared stream")
                t = r.stdout.decode(errors="replace")
                if not t.startswith(out + "panic[" + code): c.violation("stream:" + key, "%s: on one stream the output before the fault does not precede the message: %r" % (key, t[:200]), {"program": src, "args": [str(i)]})
        shutil.rmtree(d, ignore_errors=True)
    pmap(go, list(programs(c)))
if __name__ == "__main__": main("C14", body, level="exploration", quick_s=240, thorough_s=840)
