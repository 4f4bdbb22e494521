"""C46: printing and interpolation render every value completely."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from grid import *
import struct as st, re
PRE = """
const En enum {
 A
 B
 C
}
const Es enum {
 X = "ex"
 Y = "w\\"y\\\\"
 Z = "é"
}
"""
F32 = lambda v: st.unpack("f", st.pack("f", v))[0]
def S(b): return glit(b)
# base type -> [(literal, text inside a container, text on its own)]
def same(t, lits): return [(l, x, x) for l, x in lits]
BASE = {
    "int": same("int", [("0", "0"), ("-7", "-7"), ("9223372036854775807", "9223372036854775807"), ("(0 - 9223372036854775807) - 1", "-9223372036854775808")]),
    "bool": same("bool", [("true", "true"), ("false", "false")]),
    "float": same("float", [("0.0", "0.0"), ("-2.5", "-2.5"), ("0.1", "0.1"), ("123456789.125", "123456789.125")]),
    "f32": same("f32", [("cast(1.5, f32)", "1.5"), ("cast(0.25, f32)", "0.25")]),
    "string": [(S(b), b'"' + b + b'"', b) for b in (b"", b"ab", b"a\0b", b'q"\\', b"%s%d%%", "é😀".encode(), b"x" * 300, b"\n\t??/")],
    "char": [("'a'", "'a'", "a"), ("char(233)", "'é'", "é"), ("'\\''", "'''", "'"), ("char(128512)", "'😀'", "😀")],
    "uint": same("uint", [("cast(u128(18446744073709551615), uint)", "18446744073709551615"), ("cast(0, uint)", "0")]),
    "byte": same("byte", [("cast(255, byte)", "255"), ("cast(0, byte)", "0")]),
    "i8": same("i8", [("cast(-128, i8)", "-128"), ("cast(127, i8)", "127")]),
    "u16": same("u16", [("cast(65535, u16)", "65535"), ("cast(1, u16)", "1")]),
    "i32": same("i32", [("cast(-2147483648, i32)", "-2147483648"), ("cast(5, i32)", "5")]),
    "u64": same("u64", [("cast(u128(18446744073709551615), u64)", "18446744073709551615"), ("cast(2, u64)", "2")]),
    "i128": same("i128", [("i128(-5)", "-5"), ("i128(0)", "0")]),
    "u256": same("u256", [("u256(12345678901234567890)", "12345678901234567890"), ("u256(3)", "3")]),
    "En": same("En", [("En.A", "0"), ("En.C", "2")]),
    "Es": [("Es.X", '"ex"', "ex"), ("Es.Y", '"w"y\\"', 'w"y\\'), ("Es.Z", '"é"', "é")],
}
def enc(x): return x if isinstance(x, bytes) else x.encode()
class T:
    def __init__(s, name, vals, interp=True, decl=""): s.name = name; s.vals = [(l, enc(i), enc(o)) for l, i, o in vals]; s.interp = interp; s.decl = decl
def rot(v, n): return [v[i % len(v)] for i in range(n)]
def first(t):  # an empty literal in first position gives no element type
    return T(t.name, [], t.interp, t.decl), sorted(t.vals, key=lambda v: v[0] in ("{}", "{:}"))
def arr(t, sizes=(0, 1, 2, 3, 5)):
    vals = []; t, t.vals = first(t)
    for k in sizes:
        for off in (0, 1):
            e = rot(t.vals[off:] + t.vals[:off], k)
            if k and e[0][0] in ("{}", "{:}"): continue
            x = b"{" + b", ".join(i for _, i, _ in e) + b"}"
            if k or not off: vals.append(("{" + ", ".join(l for l, _, _ in e) + "}", x, x))
    if len(t.vals) <= 8:
        x = b"{" + b", ".join(i for _, i, _ in t.vals) + b"}"
        vals.append(("{" + ", ".join(l for l, _, _ in t.vals) + "}", x, x))
    return T("[%s]" % t.name, vals, t.interp, t.decl)
KEYS = {"string": [(S(b), b'"' + b + b'"') for b in (b"k", b"", b"a\0", "é".encode(), b"%d")], "int": [("1", b"1"), ("-9", b"-9"), ("0", b"0"), ("77", b"77"), ("4", b"4")], "bool": [("true", b"true"), ("false", b"false")], "char": [("'z'", b"'z'"), ("'a'", b"'a'")]}
def mp(k, t, sizes=(0, 1, 2, 5)):
    vals = []; t, t.vals = first(t)
    for n in sizes:
        ks = KEYS[k][:n]
        if len(ks) < n: continue
        e = rot(t.vals, n)
        x = b"{" + (b", ".join(a[1] + b": " + b[1] for a, b in zip(ks, e)) if n else b":") + b"}"
        vals.append(("{" + (", ".join(a[0] + ": " + b[0] for a, b in zip(ks, e)) if n else ":") + "}", x, x))
    return T("map[%s:%s]" % (k, t.name), vals, t.interp, t.decl)
NS = [0]
FN = ["a", "default", "int32_t", "items", "data", "register", "s", "val"]
def struct(*ts):
    NS[0] += 1; n = "R%dx##" % NS[0]
    d = "".join(dict.fromkeys(t.decl for t in ts)) + "const %s struct {\n%s}\n" % (n, "".join(" %s %s\n" % (FN[i], t.name) for i, t in enumerate(ts)))
    vals = []
    for r in range(max(len(t.vals) for t in ts)):
        e = [t.vals[r % len(t.vals)] for t in ts]
        x = n.encode() + b"{" + b", ".join(FN[i].encode() + b": " + v[1] for i, v in enumerate(e)) + b"}"
        vals.append((n + "{" + ", ".join(FN[i] + ": " + v[0] for i, v in enumerate(e)) + "}", x, x))
    return T(n, vals[:6], False, d)
def body(c):
    tc = Toolchain(c.tmp, san=True)
    c.rule = "one evaluation = one value printed through every output form by a compiled program under AddressSanitizer; all distinct"
    th = c.thorough
    b = Batch(c, tc, prelude=PRE, part="values", per_file=60, opt="-O0")
    L0 = [T(k, v) for k, v in BASE.items()]
    D = {t.name: t for t in L0}
    L1 = [arr(t) for t in L0] + [mp("string", t) for t in L0] + [mp("int", t) for t in L0] + [mp(k, D["int"]) for k in ("bool", "char")] + [struct(t) for t in L0]
    L1 += [struct(D[x], D[y]) for x in ("int", "string", "float", "i8", "bool", "u256") for y in ("byte", "string", "f32", "Es")]
    mid = [arr(D[x], (0, 2)) for x in ("int", "string", "i8", "f32", "bool", "char", "Es", "u256")] + [mp("string", D[x], (0, 2)) for x in ("int", "string", "byte", "float")] + [struct(D["i8"], D["string"]), struct(D["float"], D["bool"], D["Es"], D["uint"])]
    L2 = [arr(t) for t in mid] + [mp("string", t) for t in mid] + [mp("int", t) for t in mid] + [struct(t) for t in mid] + [struct(D["int"], t, D["char"]) for t in mid] + [struct(mid[0], mid[8], mid[12])]
    deep = [arr(arr(arr(D["int"], (0, 2)), (0, 2)), (0, 2)), mp("string", arr(mp("int", D["string"], (0, 2)), (0, 1, 2)), (0, 2)), struct(struct(struct(D["string"], D["byte"]), arr(D["f32"], (0, 2)))), arr(struct(mp("string", arr(D["Es"], (0, 2)), (0, 2))), (0, 2)), mp("string", struct(arr(struct(D["i8"]), (0, 2))), (0, 2))]
    types = L0 + L1 + L2 + deep
    if th: types += [arr(t, (0, 2)) for t in L2] + [mp("string", t, (0, 2)) for t in L2] + [struct(t, D["byte"]) for t in L2]
    uid = [0]
    for t in types:
        for k, (lit, inn, own) in enumerate(t.vals):
            uid[0] += 1; q = "%d" % uid[0]
            lit, inn, own = lit.replace("##", q), inn.replace(b"##", q.encode()), own.replace(b"##", q.encode())
            tn, td = t.name.replace("##", q), t.decl.replace("##", q)
            lines = [" mut v %s = %s" % (tn, lit), " println(v)", " print(v)", ' println("|")', " print(v)", ' println("")', " println(g@@())", " eprintln(v)"]
            exp = [own, own + b"|", own, own]
            if t.interp:
                lines += [' println("${v}")', ' println("<${v}>${v}%d\\n${g@@()}${1}")']
                exp += [own, b"<" + own + b">" + own + b"%d\n" + own + b"1"]
            lines += [" mut w [%s] = {v, v}" % tn, " println(w)"]
            exp += [b"{" + inn + b", " + inn + b"}"]
            b.add("%s#%d" % (t.name.replace("x##",""), k), "\n".join(lines), b"\n".join(exp), decls=td + "do g@@() -> %s {\n mut v %s = %s\n return v\n}" % (tn, tn, lit), desc=tn + " = " + lit)
    run_batch(b)
    # strings and arrays around buffer sizes
    g = Grid(c, tc, imports=["strings", "arrays", "uuid"], prelude=PRE, part="sizes", per_file=4, opt="-O0")
    SZ = sorted(set([0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 62, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 65535, 65536, 65537, 1000000]))
    g.add("string", [ints(SZ)], ' mut s string = strings.repeat("ab%", a0)\n println(s)\n println("${s}")\n println("<${s}${s}>")\n mut t [string] = {s}\n println(t)\n println("${t}")\n mut m map[string:string] = {s: s}\n println(m)\n println("${m}")',
          lambda n: (lambda s: "\n".join([s, s, "<" + s + s + ">", '{"' + s + '"}', '{"' + s + '"}', '{"' + s + '": "' + s + '"}', '{"' + s + '": "' + s + '"}']))("ab%" * n))
    AS = [n for n in SZ if n <= 20000]
    for ty, mk, tx in (("int", "q * 1000003", lambda q: str(q * 1000003)), ("float", "cast(q, float) / 8.0", lambda q: repr(q / 8)), ("bool", "q % 2 == 0", lambda q: "true" if q % 2 == 0 else "false"), ("string", '"s${q}"', lambda q: '"s%d"' % q), ("i8", "cast(q % 128, i8)", lambda q: str(q % 128)), ("u128", "u128(q)", str)):
        g.add("array_" + ty, [ints(AS)], ' mut t [%s] = {}\n for q in range(0, a0) { arrays.append(t, %s) }\n println(t)\n println("${t}")' % (ty, mk), lambda n, tx=tx: "\n".join(["{" + ", ".join(tx(q) for q in range(n)) + "}"] * 2))
        g.add("map_" + ty, [ints([n for n in AS if n <= 5000])], ' mut t map[string:%s] = {:}\n for q in range(0, a0) { t["k${q}"] = %s }\n println(t)\n println("${t}")' % (ty, mk), lambda n, tx=tx: "\n".join(["{" + (", ".join('"k%d": ' % q + tx(q) for q in range(n)) or ":") + "}"] * 2))
    FV = [0.0, -0.0, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1e300, 1e15, 1e16, 1e17, 1e21, 1e22, 123456789012345678.0, 0.1, 0.2, 0.30000000000000004, 1e-5, 1e-4, 1e-7, 2 / 3, 1e5, 1e6, 999999.9999999999, 4.35, 2.0**53, 2.0**63, -2.0**63, 9007199254740993.0, 1.0000000000000002]
    FV += [x * s for x in (3.3e-10, 7.7e9, 5.5e100) for s in (1, -1)]
    def fl(v):
        def ok(out):
            L = out.decode().split("\n")
            def eq(s):
                try: return st.pack("d", float(s)) == st.pack("d", v)
                except ValueError: return False
            return len(L) == 4 and eq(L[0]) and (len(L[0]) <= len(repr(v)) + 2 or "e" not in L[0] or abs(v) < 1e-300) and L[1] == L[0] and L[2] == "{" + L[0] + "}" and L[3] == "{" + L[0] + "}"
        return ok
    g.add("float", [("float", [(flit(v), v) for v in FV])], ' println(a0)\n println("${a0}")\n mut t [float] = {a0}\n println(t)\n print("${t}")', fl)
    g.add("nonfinite", [ints([0, 1, 2])], " mut b float = %s\n mut x float = b * 10.0\n if a0 == 1 { x = -x }\n if a0 == 2 { x = x - x }\n println(x)\n println(\"${x}\")\n mut t [float] = {x}\n println(t)" % flit(1e308),
          lambda k: lambda out: (lambda L: L[0].lstrip("-").lower() in (("inf",) if k < 2 else ("nan",)) and (L[0][0] == "-") == (k == 1) or k == 2 and L[0].lstrip("-").lower() == "nan")(out.decode().split("\n")) and (lambda L: L[1] == L[0] and L[2] == "{" + L[0] + "}")(out.decode().split("\n")))
    g.add("char", [ints([0, 9, 10, 34, 37, 39, 65, 92, 127, 128, 255, 256, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff])], ' mut x char = char(a0)\n println(x)\n println("${x}")\n mut t [char] = {x}\n println(t)\n println("${t}")\n print(x)\n print("|")',
          lambda v: "\n".join([chr(v), chr(v), "{'" + chr(v) + "'}", "{'" + chr(v) + "'}", chr(v) + "|"]))
    g.add("byte", [ints(list(range(256)))], ' mut x byte = cast(a0, byte)\n println(x)\n println("${x}")\n mut t [byte] = {x, x}\n println(t)\n println("${t}")', lambda v: "%d\n%d\n{%d, %d}\n{%d, %d}" % ((v,) * 6))
    g.add("error", [strings([b"", b"m", b"a\0b", b"%s", b"x" * 5000])], ' mut e Error = error(a0)\n println(e)\n println("${e}|")\n print(e)\n println("")\n mut n Error = nil\n println(n)\n println("${n}")', lambda s: s + b"\n" + s + b"|\n" + s + b"\nnil\nnil")
    g.add("nil", [ints([1])], ' println(nil)\n mut p ^int = nil\n println(p)\n mut q int = a0\n println(addr(q) == nil)', lambda v: "nil\nnil\nfalse")
    g.add("pointer", [ints([1, 2])], ' mut q int = a0\n mut p ^int = addr(q)\n println(p)\n println(p)\n println(p^)\n println("${p^}")', lambda v: lambda out: (lambda L: re.fullmatch("0x[0-9a-f]+", L[0]) is not None and L[1] == L[0] and L[2:] == [str(v), str(v)])(out.decode().split("\n")))
    g.add("uuid", [ints([0])], ' println(uuid.NIL_UUID)\n mut t [UUID] = {uuid.NIL_UUID}\n println(len(t))', lambda v: "00000000-0000-0000-0000-000000000000\n1")
    LIT = ["??/", "??=", "??'x", "%", "%%", "%n", "%S%lld", "\\x41B", "\\x00", "\\x0012", "\\0", "\\07", "a\\\\", "\\\"", "\\t\\r", "é", "#{", "$", "\\$", "{}", "$$", "//", "/*", "*/", "'", "\\xff", "\\xe9z"]
    def unesc(t):
        out = b""; i = 0
        while i < len(t):
            if t[i] == "\\":
                e = t[i + 1]
                if e == "x": out += bytes([int(t[i + 2:i + 4], 16)]); i += 4; continue
                out += {"0": b"\0", "t": b"\t", "r": b"\r", "\\": b"\\", '"': b'"', "$": b"$"}[e]; i += 2
            else: out += t[i].encode(); i += 1
        return out
    bb = Batch(c, tc, part="literals", per_file=120, opt="-O0")
    for i, x in enumerate(LIT):
        for y in LIT:
            if x.endswith("$") and (y.startswith("{") or y[0].isalpha()) and x != "\\$": continue
            u = unesc(x) + unesc(y)
            bb.add("lit %s|%s" % (x, y), ' println("%s%s")\n mut v int = 1\n println("%s${v}%s")\n println("${v}%s%s${v}")\n println(len("%s${v}%s"))' % (x, y, x, y, x, y, x, y), b"\n".join([u, unesc(x) + b"1" + unesc(y), b"1" + u + b"1", b"%d" % (len(u) + 1)]))
    run_batch(bb)
    g.go()
    # side effects of a printed expression happen once, and all four functions write the same bytes
    src = PRE + """
const P struct {
 a int
 s string
}
do e() -> Error {
 eprint("E")
 return error("m\\x00n")
}
do s() -> string { 
 eprint("S")
 return "t\\x00u" 
}
do p() -> P {
 eprint("P")
 return P{a: 1, s: "z"}
}
do a() -> [float] {
 eprint("A")
 return {1.5, 2.0}
}
do w() -> i256 {
 eprint("W")
 return i256(-9)
}
do k() -> Es {
 eprint("K")
 return Es.Y
}
do main() {
"""
    want = b""; err = b""
    for f, tag, x in (("e", b"E", b"m\0n"), ("s", b"S", b"t\0u"), ("p", b"P", b'P{a: 1, s: "z"}'), ("a", b"A", b"{1.5, 2.0}"), ("w", b"W", b"-9"), ("k", b"K", b'w"y\\')):
        for fn in ("println", "print", "eprintln", "eprint"):
            src += " %s(%s())\n" % (fn, f)
            nl = b"\n" if fn.endswith("ln") else b""
            if fn[0] == "e": err += tag + x + nl
            else: err += tag; want += x + nl
        if f != "p":
            src += ' println("${%s()}")\n' % f; err += tag; want += x + b"\n"
    src += "}\n"
    exe, r, d = tc.compile(src)
    c.count("effects")
    if exe is None: c.violation("effects:build", (r.stdout + r.stderr).decode(errors="replace")[:500], {"program": src})
    else:
        q = run([exe], 20, env=tc.env)
        if q.stdout != want or q.stderr != err or q.returncode: c.violation("effects", "expected stdout %r stderr %r, got %r %r rc %s" % (want, err, q.stdout, q.stderr, q.returncode), {"program": src})
def run_batch(b): b.go()
main("C46", body, level="exploration", quick_s=140, thorough_s=800)
