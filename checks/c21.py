"""C21: JSON encoding and decoding are lossless inverses."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from grid import *
import json, struct, re
SUR = re.compile("[\ud800-\udfff]")
class Bad(Exception): pass
def nope(x): raise Bad()
class Raw(str): pass
def loads(t):
    """Python's strict parser; objects as lists of pairs, numbers as their text"""
    try: return json.loads(t, parse_constant=nope, parse_int=Raw, parse_float=Raw, object_pairs_hook=lambda p: ("obj", p))
    except (ValueError, Bad, RecursionError): return Bad
def depth(t):
    d = m = 0; q = False; i = 0
    while i < len(t):
        ch = t[i]
        if q:
            if ch == "\\": i += 1
            elif ch == '"': q = False
        elif ch == '"': q = True
        elif ch in "[{": d += 1; m = max(m, d)
        elif ch in "]}": d -= 1
        i += 1
    return m
def u8(s): return SUR.sub("\ufffd", s).encode()
DEC = json.JSONDecoder()
def split(t):
    """(key, raw value text) pairs of a valid object"""
    out = []; i = t.index("{") + 1
    def ws(i):
        while t[i] in " \t\r\n": i += 1
        return i
    i = ws(i)
    if t[i] == "}": return out
    while True:
        k, i = DEC.raw_decode(t, i); i = ws(i); i = ws(i + 1)
        v, j = DEC.raw_decode(t, i)
        out.append((k, v if isinstance(v, str) else t[i:j], isinstance(v, str))); i = ws(j)
        if t[i] == "}": return out
        i = ws(i + 1)
def decoded(t):
    v = loads(t)
    if v is Bad or not (isinstance(v, tuple) and v[0] == "obj"): return None
    d = {}
    for k, val, s in split(t): d[u8(k)] = u8(val)
    return d
def show(d): return b"".join(b"<" + k + b"=" + v + b">" for k, v in d.items())
PRE = """
do toks() -> [string] {
 mut t [string] = {%s}
 return t
}
do show(m map[string:string]) -> string {
 mut o string = ""
 for_each k, v in m { o = "${o}<${k}=${v}>" }
 return o
}
#json
const P struct {
 s string
 n u8
}
#json
const U struct {
 name string
 age int
 u uint
 f float
 ok bool
 p P
 ps [P]
 b i8
}
"""
def body(c):
    tc = Toolchain(c.tmp, san=True)
    c.rule = "one evaluation = one JSON text judged and decoded, or one value encoded and read back, by a compiled program under AddressSanitizer; all distinct"
    T = c.thorough
    TOK = ["{", "}", "[", "]", ":", ",", '"a"', '"', "\\", "1", "0", "-", ".", "e", "true", "null", " ", "\n", "u0", "\v", "\x01", "+"]
    pre = PRE % ", ".join(glit(t.encode()) for t in TOK)
    g = Grid(c, tc, imports=["json", "arrays", "strings"], prelude=pre, part="json", per_file=4, opt="-O0")
    P1 = [""] + [a + b for a in TOK for b in TOK] + TOK + (["[" + a for a in TOK] if 0 else [])
    def valid_rows(pfx):
        return "".join("1" if loads(pfx.decode() + a + b) is not Bad else "0" for a in TOK for b in TOK)
    g.add("is_valid", [strings([p.encode() for p in P1] + [p.encode() for p in ['[1,', '{"a":', '{"a":1', '{"a":1,', '[[', '[1', '"\\u00', '"\\', '"\\ud8', '-1', '1.', '1e', '1E-', '0.1', ' [ ', 'tru', 'nul', 'fals', '{"a" ', '[[]', '[{}', '{"a":[', '{"a":{', '"a', '"\u00e9', '{ ', '[true,', '{"a":1 , ', '-0', '[-', '1.5e+', '[""', '{"":']] +
              ([(a + b + d).encode() for a in TOK[:16] for b in TOK[:16] for d in TOK[:16]] if T else []))],
          " mut t [string] = toks()\n mut o string = \"\"\n for_each x in t {\n  for_each y in t {\n   if json.is_valid(\"${a0}${x}${y}\") { o = \"${o}1\" } otherwise { o = \"${o}0\" }\n  }\n }\n println(o)", valid_rows)
    # every object over short member texts
    MEM = ['"a":1', '"bb":"x"', '"a":"\\n"', '"c":[1,{"x":"]"}]', '"d":{"y":"}"}', '"\\u00e9":null', ' "e" : true ', '"f":-0.5e+3', '"":""', '"g":"\\ud83d\\ude00\\u0001z"', '"h":"\\ud800x"', '"i":"\\"\\\\\\/\\b\\f\\n\\r\\t"', '"a":2', 'a:1', '"z"', '"z":', '"k":"\\udc00\\ud800"', '"l":"\\u20AC"', '"m":[ ]', '"n":01', '"o":"\t"', '"p":{"a":{"b":[[]]}}', '"q":"é"']
    OBJ = ["{}", " { } ", "{", "", "[]", "1", "null", '"a"', "{} x", "{,}", '{"a":1,}'] + ["{" + m + "}" for m in MEM] + ["{" + m + "," + n + "}" for m in MEM for n in MEM] + [' {\n"a"\t:\r"b" , "c":2 }\n', "\v{}", "{}\f", "\ufeff{}", "{\"a\":" + "[" * 500 + "]" * 500 + "}", "{\"a\":\"" + "x" * 5000 + "\\n\"}"]
    def dec(t):
        d = decoded(t.decode())
        return b"E" if d is None else b"V" + show(d)
    def dec_p(t):
        d = decoded(t.decode())
        return PANIC if d is None else show(d)
    g.add("decode", [strings([t.encode() for t in OBJ])], " mut m, e = json.decode(a0)\n if e != nil { println(\"E\") } otherwise { println(\"V${show(m)}\") }", lambda t: dec(t).replace(b"\0", b"\0"))
    g.add("decode_panic", [strings([t.encode() for t in OBJ[:40] + OBJ[-6:]])], " println(show(json.decode(a0)))", dec_p)
    # encoding: text must be valid JSON meaning exactly the value
    SV = [b"", b"a", b'"', b"\\", b"/", b"\n", b"\x01", b"\x1f\x7f", "é😀".encode(), b"\\u0041", b"</x>", b"a\tb\rc\bd\fe", b"x" * 3000, b'"' * 700, b"\0", b"a\0b"] + [bytes([i]) for i in range(1, 128)]
    def enc(s): return lambda out: loads(out.decode()) == s.decode() if True else None
    def is_str(s): return lambda out: isinstance(loads(out.decode().rstrip("\n")), str) and loads(out.decode().rstrip("\n")) == s.decode()
    g.add("enc_string", [strings(SV)], " println(json.encode(a0))", is_str)
    g.add("enc_strings", [strings(SV[:16])] * 2, " mut t [string] = {a0, a1, a0}\n println(json.encode(t))\n mut m map[string:string] = {a0: a1, \"k\": a0}\n println(json.encode(m))\n println(json.stringify(m))",
          lambda a, b: lambda out: (lambda L: len(L) == 3 and loads(L[0]) == [a.decode(), b.decode(), a.decode()] and loads(L[1]) == ("obj", [(a.decode(), b.decode()), ("k", a.decode())]) and L[2] == L[1])(out.decode().rstrip("\n").split("\n")))
    g.add("str_inverse", [strings(SV)] , " mut m map[string:string] = {a0: a0}\n mut d, e = json.decode(json.encode(m))\n println(e == nil && len(d) == 1 && d[a0] == a0)\n mut d2, e2 = json.decode(json.pretty_print(m, 3))\n println(e2 == nil && len(d2) == 1 && d2[a0] == a0)", lambda a: "true\ntrue")
    IV = [0, 1, -1, 9, 10, 127, 128, -128, 2**31 - 1, -2**31, 2**53, 2**53 + 1, 2**63 - 1, -2**63, 123456789]
    g.add("enc_int", [ints(IV)], " println(json.encode(a0))\n mut t [int] = {a0, 0}\n println(json.encode(t))\n println(json.encode({\"a\": a0}))\n mut n [[int]] = {{a0}, {}, {1, a0}}\n println(json.encode(n))\n mut m map[string:[int]] = {\"q\": {a0, a0}}\n println(json.encode(m))",
          lambda v: "%d\n[%d,0]\n{\"a\":%d}\n[[%d],[],[1,%d]]\n{\"q\":[%d,%d]}" % ((v,) * 7))
    for t, w, sg in (("i8", 8, 1), ("u8", 8, 0), ("i16", 16, 1), ("u16", 16, 0), ("i32", 32, 1), ("u32", 32, 0), ("i64", 64, 1), ("u64", 64, 0), ("uint", 64, 0), ("byte", 8, 0)):
        lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if sg else (0, (1 << w) - 1)
        g.add("enc_" + t, [ints(sorted({lo, hi, 0, 1, hi // 2 + 1, max(lo, -1), hi - 1}), t)], " println(json.encode(a0))\n mut t [%s] = {a0, a0}\n println(json.encode(t))\n mut m map[string:%s] = {\"a\": a0}\n println(json.encode(m))" % (t, t),
              lambda v: "%d\n[%d,%d]\n{\"a\":%d}" % (v, v, v, v))
    FV = [0.0, -0.0, 0.1, 1.5, -2.25, 1.0, 1e15, 1e16, 123456789.125, 1e22, 3.141592653589793, 2.0**53 + 2, 1e300, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 1 / 3, 100000.0, 1000000.0, 1234567.0, 1e-5, 0.30000000000000004]
    def feq(s, v):
        try: x = float(s)
        except ValueError: return False
        return struct.pack("d", x) == struct.pack("d", v) and loads(s) is not Bad
    def fenc(v):
        def ok(out):
            L = out.decode().split("\n")
            return len(L) >= 3 and feq(L[0], v) and L[1][:1] == "[" and all(feq(x, v) for x in L[1][1:-1].split(",")) and L[2].startswith('{"a":') and feq(L[2][5:-1], v)
        return ok
    g.add("enc_float", [("float", [(flit(v), v) for v in FV])], " println(json.encode(a0))\n mut t [float] = {a0, a0}\n println(json.encode(t))\n mut m map[string:float] = {\"a\": a0}\n println(json.encode(m))", fenc)
    g.add("enc_nonfinite", [ints([0, 1, 2, 3, 4, 5])], " mut z float = 0.0\n mut big float = %s\n mut x float = big * 10.0\n if a0 %% 3 == 1 { x = -x }\n if a0 %% 3 == 2 { x = x - x }\n if a0 < 3 { println(json.encode(x)) } otherwise {\n  mut t [float] = {z, x}\n  println(json.encode(t))\n }" % flit(1e308), lambda a: PANIC)
    g.add("enc_bool", [bools()] * 2, " println(json.encode(a0))\n mut t [bool] = {a0, a1}\n println(json.encode(t))\n println(json.encode({\"a\": a0, \"b\": a1}))", lambda a, b: "%s\n[%s,%s]\n{\"a\":%s,\"b\":%s}" % tuple(json.dumps(x) for x in (a, a, b, a, b)))
    g.add("enc_size", [ints(list(range(0, 40)) + [1000])], " mut t [int] = {}\n mut m map[string:int] = {:}\n for i in range(0, a0) {\n  arrays.append(t, i * 7)\n  m[\"k${i}\"] = i\n }\n println(json.encode(t))\n println(json.encode(m))",
          lambda n: json.dumps([i * 7 for i in range(n)], separators=(",", ":")) + "\n" + json.dumps({"k%d" % i: i for i in range(n)}, separators=(",", ":")))
    g.add("pretty", [ints([0, 1, 2, 4, 8]), ints([1, 2, 3])], " mut m map[string:string] = {:}\n for i in range(0, a1) { m[\"k${i}\"] = \"v\\\"${i}\" }\n println(json.pretty_print(m, a0))",
          lambda ind, n: "{\n" + ",\n".join(" " * ind + '"k%d": "v\\"%d"' % (i, i) for i in range(n)) + "\n}")
    # #json structs: every combination of field texts and of missing fields
    F = {"name": [None, '"x"', '"\\u00e9\\n\\"q"', "null", "5"], "age": [None, "0", "-9223372036854775808", "9223372036854775807", "9223372036854775808", '"1"', "true"], "u": [None, "18446744073709551615", "18446744073709551616", "-1"], "f": [None, "0.1", "-3", "1e300", "1e400", "[]"],
         "ok": [None, "true", "false", "1"], "p": [None, '{"s":"t","n":255}', '{"n":256}', "{}", "null", "[]"], "ps": [None, "[]", '[{"n":1},{"s":"z"},{}]', "{}", "[1]"], "b": [None, "-128", "127", "128", "-129"]}
    def good(t, v, lo, hi):
        if v is None or v == "null": return 0
        if not re.fullmatch(r"-?\d+", v) or not lo <= int(v) <= hi: raise Bad()
        return int(v)
    def st(v):
        if v is None or v == "null": return ""
        x = loads(v)
        if isinstance(x, Raw) or not isinstance(x, str): raise Bad()
        return x
    def getp(v):
        if v is None or v == "null": return {"s": "", "n": 0}
        x = loads(v)
        if not (isinstance(x, tuple)): raise Bad()
        d = {k: val for k, val in x[1]}
        return {"s": d.get("s", ""), "n": good(0, d.get("n"), 0, 255)}
    def model(d):
        r = {"name": st(d["name"]), "age": good(0, d["age"], -2**63, 2**63 - 1), "u": good(0, d["u"], 0, 2**64 - 1)}
        if d["f"] is None: r["f"] = 0.0
        else:
            x = loads(d["f"])
            if not isinstance(x, Raw) or abs(float(x)) == float('inf'): raise Bad()
            r["f"] = float(x)
        if d["ok"] not in (None, "true", "false"): raise Bad()
        r["ok"] = d["ok"] == "true"
        r["p"] = getp(d["p"])
        if d["ps"] is None: r["ps"] = []
        else:
            a = json.loads(d["ps"])
            if not isinstance(a, list) or any(not isinstance(x, dict) for x in a): raise Bad()
            r["ps"] = [{"s": x.get("s", ""), "n": x.get("n", 0)} for x in a]
        r["b"] = good(0, d["b"], -128, 127)
        return r
    base = {"name": '"n"', "age": "1", "u": "2", "f": "1.5", "ok": "true", "p": '{"s":"p","n":3}', "ps": '[{"s":"a","n":1},{"s":"b","n":2}]', "b": "-4"}
    docs = []; names = list(F)
    for i, x in enumerate(names):
        for y in names[i + 1:]:
            for vx in F[x]:
                for vy in F[y]:
                    docs.append(dict(base, **{x: vx, y: vy}))
    for mask in range(256): docs.append({n: base[n] if mask >> i & 1 else None for i, n in enumerate(names)})
    uniq = {}
    for d in docs:
        for order in (names, names[::-1]):
            uniq["{" + ",".join('"%s":%s' % (n, d[n]) for n in order if d[n] is not None) + "}"] = d
    def want(t):
        try: r = model(uniq[t.decode()])
        except Bad: return PANIC
        def ok(out):
            L = out.decode().split("\n")
            try: return json.loads(L[0]) == r and list(json.loads(L[0])) == names and L[1] == "true" and json.loads(L[2]) == [r, r] and L[3] == "true" and L[4] == L[0]
            except (ValueError, IndexError): return False
        return ok
    code = " mut x U = json.parse(a0)\n mut t string = json.stringify(x)\n println(t)\n mut y U = json.parse(t)\n println(json.stringify(y) == t && y.name == x.name && y.age == x.age && y.u == x.u && y.f == x.f && y.ok == x.ok && y.p.s == x.p.s && y.p.n == x.p.n && len(y.ps) == len(x.ps) && y.b == x.b)\n mut a [U] = json.parse(\"[${a0}, ${t}]\")\n println(json.encode(a))\n println(len(a) == 2)\n arrays.append(x.ps, P{s: \"w\", n: cast(9, u8)})\n x.ps = y.ps\n println(json.stringify(x))"
    keys = list(uniq)
    for i in range(0, len(keys), 600):
        g.add("struct%d" % (i // 600), [strings([k.encode() for k in keys[i:i + 600]])], code, want, key="struct")
    BADT = ["", " ", "[]", "1", '"a"', "{", '{"name":}', '{"name":"x"', '{"name":"x",}', '{name:1}', '{"name":"\\x"}', '{"name":"x"}}', "nul", '{"q":01}', '{"q":[1,]}', '{"name":"a\nb"}', "[{}]"]
    g.add("nul", [strings([b'{"a":"x\\u0000y"}'])], " mut m, e = json.decode(a0)\n println(e == nil)\n println(len(m[\"a\"]))\n println(json.encode(m))\n mut p P = json.parse(strings.replace(a0, \"a\", \"s\"))\n println(len(p.s))\n println(json.stringify(p))", lambda t: "true\n3\n{\"a\":\"x\\u0000y\"}\n3\n{\"s\":\"x\\u0000y\",\"n\":0}")
    g.add("parse_bad", [strings([b.encode() for b in BADT])], " mut x U = json.parse(a0)\n println(x.age)", lambda t: PANIC)
    g.add("parse_arr_bad", [strings([b.encode() for b in ["", "{}", "[", "[{]", "[{},]", "[1]", '["a"]', "[{}", "[{}}", "null x"]])], " mut x [U] = json.parse(a0)\n println(len(x))", lambda t: PANIC)
    g.add("extra", [strings([m.encode() for m in MEM if m not in ('a:1', '"z"', '"z":', '"n":01', '"o":"\t"', '"f":-0.5e+3', '"p":{"a":{"b":[[]]}}')])], " mut x U = json.parse(\"{${a0},\\\"age\\\":7}\")\n println(x.age)", lambda m: "7")
    g.add("depth", [ints(list(range(505, 520)) + [1, 2, 100, 5000, 100000])], " mut s string = strings.repeat(\"[\", a0)\n mut e string = strings.repeat(\"]\", a0)\n println(json.is_valid(\"${s}${e}\"))", lambda n: "true" if n <= 505 else SKIP if n < 520 else "false")
    g.go()
main("C21", body, level="exploration", quick_s=140, thorough_s=800)
