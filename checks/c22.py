"""C22: CSV text round-trips every table."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from grid import *
import csv, io
BLANK = object()
def parse(b):
    """RFC 4180 reading of conforming text -> rows of byte fields; None when not conforming"""
    rows = []; row = []; i = 0; n = len(b)
    if n == 0: return []
    while True:
        j0 = i
        if i < n and b[i:i + 1] == b'"':
            i += 1; f = b""
            while True:
                if i >= n: return None
                if b[i:i + 2] == b'""': f += b'"'; i += 2; continue
                if b[i:i + 1] == b'"': i += 1; break
                f += b[i:i + 1]; i += 1
            if i < n and b[i:i + 1] not in (b",", b"\n", b"\r"): return None
        else:
            j = i
            while i < n and b[i:i + 1] not in (b",", b"\n", b"\r"):
                if b[i:i + 1] == b'"': return None
                i += 1
            f = b[j:i]
        row.append(f); blank = not row[1:] and f == b"" and b[j0:i] == b""
        if i < n and b[i:i + 1] == b",": i += 1; continue
        rows.append([BLANK] if blank else row); row = []
        if i >= n: return rows
        if b[i:i + 2] == b"\r\n": i += 2
        elif b[i:i + 1] == b"\n": i += 1
        else: return None
        if i >= n: return rows
def shape(rows): return b"".join(b"[" + b"".join(b"<" + f + b">" for f in r) + b"]" for r in rows) + b"%d" % len(rows)
PRE = """
do show(t [[string]]) -> string {
 mut o string = ""
 for_each r in t {
  o = "${o}["
  for_each f in r { o = "${o}<${f}>" }
  o = "${o}]"
 }
 return "${o}${len(t)}"
}
do same(a [[string]], b [[string]]) -> bool {
 if len(a) != len(b) { return false }
 for i in range(0, len(a)) {
  if len(a[i]) != len(b[i]) { return false }
  for j in range(0, len(a[i])) {
   if a[i][j] != b[i][j] { return false }
  }
 }
 return true
}
"""
def allb(alpha, n):
    r = [b""]; lvl = [b""]
    for _ in range(n):
        lvl = [x + a for x in lvl for a in alpha]; r += lvl
    return r
def body(c):
    tc = Toolchain(c.tmp, san=True)
    c.rule = "one evaluation = one table encoded and parsed back, or one text parsed, by a compiled program under AddressSanitizer; all distinct"
    T = c.thorough
    g = Grid(c, tc, imports=["csv", "arrays", "io"], prelude=PRE, part="csv", per_file=3, opt="-O0")
    def p1(text):
        r = parse(text)
        if r is None: return lambda out: True     # malformed: any answer, no crash
        want = shape([[b""] if x == [BLANK] else x for x in r])
        alt = shape([[] if x == [BLANK] else x for x in r])   # a blank line is a row of no fields or of one empty field
        return lambda out: out.rstrip(b"\n") in (want.rstrip(b"\n"), alt.rstrip(b"\n"))
    g.add("parse", [strings(allb([b"a", b",", b'"', b"\n"], 6 if not T else 7) + allb([b"a", b",", b"\r\n", b"b"], 4) + [b"x" * 5000 + b"," + b'"' + b'""' * 2000 + b'"\n', b"a,b\r\nc,d\r\n", "é,日\n".encode(), b"a" + b",b" * 500])],
          " println(show(csv.parse(a0)))", p1)
    F = allb([b"a", b",", b'"', b"\n"], 3 if not T else 4) + [b"\r", b"a\r\nb", b" ", b" a ", "é".encode(), b"x" * 3000, b'"' * 500, b"\r\n", b"'", b"\t", b";"]
    g.add("field", [strings(F)], " mut t [[string]] = {{a0}}\n println(same(csv.parse(csv.encode(t)), t))\n mut u [[string]] = {{a0, \"z\"}, {\"y\", a0}, {a0, a0, a0}}\n println(same(csv.parse(csv.encode(u)), u))", lambda f: "true\ntrue")
    F2 = [b"", b"a", b",", b'"', b"\n", b'a"b', b",,", b'""', b"\r"] + ([b" ", b"ab", b'",'] if T else [])
    g.add("row2", [strings(F2)] * 2, " mut t [[string]] = {{a0, a1}}\n println(same(csv.parse(csv.encode(t)), t))\n mut u [[string]] = {{a0}, {a1}}\n println(same(csv.parse(csv.encode(u)), u))", lambda *a: "true\ntrue")
    g.add("table4", [strings(F2[:6])] * 4, " mut t [[string]] = {{a0, a1}, {a2, a3}}\n println(same(csv.parse(csv.encode(t)), t))\n mut u [[string]] = {{a0}, {a1, a2}, {a3}}\n println(same(csv.parse(csv.encode(u)), u))", lambda *a: "true\ntrue")
    g.add("ragged", [ints(list(range(0, 4)))] * 3 + [strings([b"", b"q", b","])],
          " mut t [[string]] = {}\n for i in range(0, 3) {\n  mut r [string] = {}\n  mut n int = a0\n  if i == 1 { n = a1 }\n  if i == 2 { n = a2 }\n  for j in range(0, n) { arrays.append(r, \"${a3}\") }\n  arrays.append(t, r)\n }\n println(same(csv.parse(csv.encode(t)), t))", lambda *a: "true")
    # the text itself is what other CSV readers read
    def text(a, b):
        want = [[a, b], [b, a]]
        return lambda out: parse(out) == want or parse(out[:-1]) == want
    g.add("interop", [strings(F2)] * 2, " mut t [[string]] = {{a0, a1}, {a1, a0}}\n println(csv.encode(t))", text)
    g.add("empty", [ints([0])], " mut t [[string]] = {}\n println(len(csv.parse(csv.encode(t))))\n println(len(csv.parse(\"\")))", lambda a: "0\n0")
    g.add("file", [strings(F2), strings(F2)], " mut t [[string]] = {{a0, a1}, {a1}}\n mut ok, e = csv.write_file(\"t_${a0 == a1}.csv\", t)\n println(\"${ok} ${e == nil}\")\n mut r, e2 = csv.read_file(\"t_${a0 == a1}.csv\")\n println(\"${same(r, t)} ${e2 == nil}\")", lambda a, b: "true true\ntrue true")
    g.add("nofile", [strings([b"/nonexistent/x.csv", b"/", b"."])], " mut t [[string]] = {{\"a\"}}\n mut ok, e = csv.write_file(a0, t)\n println(\"${ok} ${e == nil}\")\n mut r, e2 = csv.read_file(a0)\n println(\"${len(r)} ${e2 == nil}\")", lambda p: "false false\n0 false")
    g.add("full-device", [ints([0])], " mut t [[string]] = {{\"a\", \"b\"}}\n mut ok, e = csv.write_file(\"/dev/full\", t)\n println(\"${ok} ${e == nil}\")", lambda a: "false false")
    g.add("headers", [strings(F2[:5])] * 2, " mut t [[string]] = {{a0, a1}, {\"x\"}}\n mut h [string] = csv.headers(t)\n println(\"${len(h)} ${h[0] == a0} ${h[1] == a1}\")\n mut u [[string]] = {}\n println(len(csv.headers(u)))", lambda a, b: "2 true true\n0")
    c.sample({"table": "fields", "values": [x.decode() for x in F[:40]]})
    g.go()
main("C22", body)
