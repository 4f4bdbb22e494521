"""C25: regular expressions agree with POSIX leftmost-longest matching."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from grid import *
import itertools
# ---- patterns as syntax trees: (text, precedence, ends(text, position) -> set of end positions)
class P:
    __slots__ = ("t", "p", "f", "n")
    def __init__(s, t, p, f, n): s.t = t; s.p = p; s.f = f; s.n = n
def lit(ch, esc=None): return P(esc or ch, 3, lambda x, i: {i + 1} if x[i:i + 1] == ch else set(), 1)
def cls(t, chars=None, neg=None): return P(t, 3, lambda x, i: {i + 1} if i < len(x) and (x[i] in chars if neg is None else x[i] not in neg) else set(), 1)
ANY = cls(".", neg="\0")
BOL = P("^", 3, lambda x, i: {i} if i == 0 else set(), 1)
EOL = P("$", 3, lambda x, i: {i} if i == len(x) else set(), 1)
def par(a): return P("(" + a.t + ")", 3, a.f, a.n)
def rep(a, t, lo, hi):
    def f(x, i):
        cur = {i}; out = {i} if lo == 0 else set(); seen = {i}
        k = 0
        while cur and (hi is None or k < hi):
            cur = set().union(*[a.f(x, j) for j in cur]); k += 1
            if k >= lo:
                new = cur - out; out |= cur
                if hi is None: cur = new
        return out
    b = a if a.p >= 3 else par(a)
    return P(b.t + t, 2.5, f, a.n + 1)
def cat(a, b):
    x, y = (q if q.p >= 1 else par(q) for q in (a, b))
    if x.p < 1: x = par(x)
    return P(x.t + y.t, 1, lambda s, i: set().union(*[b.f(s, j) for j in a.f(s, i)]) if a.f(s, i) else set(), a.n + b.n)
def alt(a, b): return P(a.t + "|" + b.t, 0, lambda s, i: a.f(s, i) | b.f(s, i), a.n + b.n)
REPS = [("*", 0, None), ("+", 1, None), ("?", 0, 1), ("{2}", 2, 2), ("{1,2}", 1, 2), ("{2,}", 2, None), ("{0,1}", 0, 1)]
def matches(p, x):
    out = []; i = 0
    while i <= len(x):
        for s in range(i, len(x) + 1):
            e = p.f(x, s)
            if e: break
        else: break
        e = max(e); out.append((s, e)); i = e + (e == s)
    return out
PRE = """
do show(a [string]) -> string {
 mut o string = "${len(a)}"
 for_each x in a { o = "${o}<${x}>" }
 return o
}
do all(p string, t string) -> string {
 mut f, e1 = regex.find(p, t)
 mut m, e2 = regex.find_all(p, t)
 mut r, e3 = regex.replace(p, t, "#&")
 mut s, e4 = regex.split(p, t)
 if regex.is_valid(p) != (e1 == nil) || (e1 == nil) != (e2 == nil) || (e1 == nil) != (e3 == nil) || (e1 == nil) != (e4 == nil) { return "ERRORS" }
 if e1 != nil { 
  if regex.is_match(p, t) { return "INVALIDMATCH" }
  return "INVALID" 
 }
 if regex.find(p, t) != f || show(regex.find_all(p, t)) != show(m) || regex.replace(p, t, "#&") != r || show(regex.split(p, t)) != show(s) { return "FORMS" }
 return "${regex.is_match(p, t)};${f};${show(m)};${r};${show(s)}"
}
"""
def expect(p, x):
    m = matches(p, x); r = ""; sp = []; c = 0
    for s, e in m: r += x[c:s] + "#&"; sp.append(x[c:s]); c = e
    r += x[c:]; sp.append(x[c:])
    show = lambda a: str(len(a)) + "".join("<%s>" % q for q in a)
    return "%s;%s;%s;%s;%s" % ("true" if m else "false", x[m[0][0]:m[0][1]] if m else "", show([x[s:e] for s, e in m]), r, show(sp))
def body(c):
    tc = Toolchain(c.tmp, san=True)
    c.rule = "one evaluation = one pattern against all its texts through every regex function of a compiled program under AddressSanitizer; all distinct"
    th = c.thorough
    A, B = lit("a"), lit("b")
    atoms = [A, B, ANY, cls("[ab]", chars="ab"), cls("[^a]", neg="a"), BOL, EOL]
    by = {1: atoms}
    depth = 4 if th else 3
    for n in range(2, depth + 1):
        out = []
        if n <= 3 or th:
            for p in by[n - 1]:
                if p.t in ("^", "$"): continue
                for t, lo, hi in (REPS if n <= 3 else REPS[:3]):
                    if p.t.startswith("^") or "^" in p.t.replace("[^", "") or "$" in p.t: continue
                    if p.p == 2.5: out.append(rep(par(p), t, lo, hi)); continue
                    out.append(rep(p, t, lo, hi))
        for k in range(1, n):
            for p in by[k]:
                for q in by[n - k]:
                    if k + (n - k) > 3 and not th: continue
                    if n == 4 and (p.n == 1 and p.t in ("[ab]", "[^a]") or q.n == 1 and q.t in ("[ab]", "[^a]")): continue
                    if q.t.startswith("^") or p.t.endswith("$") and p.t != "[$]": 
                        if q.t[:1] == "^" and p.t == "^": continue
                    out.append(cat(p, q)); out.append(alt(p, q))
        by[n] = out
    pats = {}
    for n in by:
        for p in by[n]: pats.setdefault(p.t, p)
    # repetition directly after an anchor is undefined in POSIX
    pats = [p for t, p in pats.items() if not any(z in t for z in ("^*", "^+", "^?", "^{", "$*", "$+", "$?", "${"))]
    base = ["".join(w) for n in range(0, 4 if not th else 5) for w in itertools.product("ab", repeat=n)] + ["abab", "aabba"]
    # libc's own treatment of a newline next to an anchor inside a pattern differs between implementations
    for part, texts, ps in (("plain", base + ["xay\nab", "\n"], [p for p in pats if "^" not in p.t.replace("[^", "") and "$" not in p.t]), ("anchored", base + ["xayab"], [p for p in pats if "^" in p.t.replace("[^", "") or "$" in p.t])):
        g = Grid(c, tc, imports=["regex"], prelude=PRE, part=part, per_file=1, opt="-O0", chunk=150)
        code = " mut ts [string] = {%s}\n for_each t in ts { println(all(a0, t)) }" % ", ".join(glit(t.encode()) for t in texts)
        byt = {p.t.encode(): p for p in ps}
        CH = 600
        for k in range(0, len(ps), CH):
            g.add("%s%d" % (part, k // CH), [strings([p.t.encode() for p in ps[k:k + CH]])], code, lambda b, byt=byt, texts=texts: "\n".join(expect(byt[b], x) for x in texts))
        g.go()
    # every short string over the pattern alphabet: consistent functions, and agreement with the texts' own reconstruction
    SYM = "ab.*+?()[]{}|^$\\1,-" if th else "ab.*(?)[]{|^\\2"
    raw = [b"".join(w) for n in range(0, 4) for w in itertools.product([s.encode() for s in SYM], repeat=n)]
    raw += [b"(" * 30 + b"a" + b")" * 30, b"a{1,255}", b"a{256}", b"[[:alpha:]]", b"[[:digit:]b]", b"[]a]", b"[^]a]", b"[a-]", b"\\.", b"\\(", b"\\\\", b"[[.a.]]"]
    DEF_BAD = [b"(", b"(a", b"((a)", b"[", b"[a", b"[]", b"[^]", b"a{2,1}", b"[b-a]", b"\\", b"a\\", b"[[:foo:]]", b"a{1,2", b"a\0b", b"\0", b"[a\0]"]
    GOOD = [b"a", b"(a)", b"[a]", b"a{2}", b"a{1,2}", b"a|b", b"^a$", b"", b"a*", b"()", b".", b"[a-b]", b"\\*", b"[[:alpha:]]", b"[]a]", b"[^]a]"]
    g2 = Grid(c, tc, imports=["regex", "strings"], prelude=PRE + """
do check(p string, t string) -> string {
 if !regex.is_valid(p) { return all(p, t) }
 mut m, _ = regex.find_all(p, t)
 mut s, _ = regex.split(p, t)
 mut r, _ = regex.replace(p, t, "<>")
 if len(s) != len(m) + 1 { return "COUNT" }
 mut back string = s[0]
 mut rr string = s[0]
 for k in range(0, len(m)) {
  back = "${back}${m[k]}${s[k + 1]}"
  rr = "${rr}<>${s[k + 1]}"
 }
 if back != t { return "REBUILD" }
 if rr != r { return "REPLACE" }
 if regex.is_match(p, t) != (len(m) > 0) { return "MATCH" }
 if len(m) > 0 && regex.find(p, t) != m[0] { return "FIND" }
 if len(m) == 0 && regex.find(p, t) != "" { return "NOFIND" }
 return "ok"
}
""", part="strings", per_file=1, opt="-O0", chunk=500)
    T2 = ["", "a", "ab", "b.a", "(a)*{1}", "aab\nba", "[\\2]^|a"]
    code2 = " mut ts [string] = {%s}\n for_each t in ts { println(check(a0, t)) }" % ", ".join(glit(t.encode()) for t in T2)
    for k in range(0, len(raw), 2000):
        g2.add("raw%d" % (k // 2000), [strings(raw[k:k + 2000])], code2, lambda b: lambda out: (lambda L: len(L) == len(T2) and (L == ["ok"] * len(T2) or L == ["INVALID"] * len(T2)))(out.decode(errors="replace").split("\n")))
    g2.add("bad", [strings(DEF_BAD)], ' println(regex.is_valid(a0))\n println(check(a0, "ab"))', lambda b: "false\nINVALID")
    g2.add("good", [strings(GOOD)], ' println(regex.is_valid(a0))\n println(check(a0, "ab"))', lambda b: "true\nok")
    # literal patterns over arbitrary bytes: matching is byte search
    TX = [b"", b"a", b"a\0b\0a", "éa😀é".encode(), b"\n\r\n", b"a\n\na", b"\xff\xfe a", b"aaaa", b"a.b.c"]
    PT = [(b"a", b"a"), ("é".encode(), "é".encode()), ("😀".encode(), "😀".encode()), (b"\n", b"\n"), (b"aa", b"aa"), (b"[.]", b"."), (b"\\.", b"."), (b" ", b" "), (b"b", b"b")]
    dct = dict(PT)
    def lits(p, t):
        w = dct[p]; n = t.count(w)
        return b"%d|%d|%s|%s|%s" % (n, len(t.split(w)), b"<>".join(t.split(w)), b"true" if n else b"false", b"!".join(t.split(w)))
    g2.add("literal", [strings([p for p, _ in PT]), strings(TX)], ' mut s, _ = regex.split(a0, a1)\n println("${len(regex.find_all(a0, a1))}|${len(s)}|${strings.join(s, "<>")}|${regex.is_match(a0, a1)}|${regex.replace(a0, a1, "!")}")', lits)
    g2.add("replacement", [strings([b"", b"\\1", b"&", b"$1", b"a\0b", b"%s", b"aa", b"x" * 5000])], ' println(regex.replace("a", "bab", a0))\n println(regex.replace("(a)(b)", "ababx", a0))\n println(regex.replace("$", "ab", a0))\n println(regex.replace("^a", "aaa", a0))', lambda r: b"\n".join([b"b" + r + b"b", r + r + b"x", b"ab" + r, r + b"aa"]))
    # sizes around internal limits
    SZ = [0, 1, 100, 4094, 4095, 4096, 8190, 8191, 8192, 8193, 12287, 16383, 16384, 16385, 40000] + ([200000] if th else [])
    def size(n):
        t = "ab" * n + "c"
        return "%d %d %d %d %s %d %d %d" % (n, n + 1, 2 * n + 1, n * 3 + 1, "true", 2 * n + 1, 1, n * 2 + 1 + 4 * n)
    g2.add("size", [ints(SZ)], ' mut t string = "${strings.repeat("ab", a0)}c"\n println("${len(regex.find_all("a", t))} ${len(regex.split("b", t))} ${len(regex.replace("a", t, "z"))} ${len(regex.replace("b", t, "bb"))} ${regex.is_match("c$", t)} ${len(regex.find("(ab)*c", t))} ${len(regex.find_all("c", t))} ${len(regex.replace("a", t, "12345"))}")', size)
    g2.add("patsize", [ints([1, 100, 4094, 4095, 4096, 5000, 20000])], ' mut p string = strings.repeat("a", a0)\n println("${regex.is_match("${p}b", "x${p}b")} ${regex.is_match("${p}b", "${p}c")} ${len(regex.find(p, "${p}${p}a"))} ${regex.is_valid("${p}(")} ${len(regex.find_all(p, "${p}${p}a"))}")', lambda n: "true false %d false %d" % (n, 2 + (n == 1)))
    g2.go()
main("C25", body, level="exploration", quick_s=140, thorough_s=800)
