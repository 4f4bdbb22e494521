"""C24: strconv accepts exactly the well-formed literals and gives their value."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from grid import *
import re, struct
I = 2**63
def allstr(alpha, n):
    r = [b""]; lvl = [b""]
    for _ in range(n):
        lvl = [x + a for x in lvl for a in alpha]; r += lvl
    return r
def parse(s, base, lo, hi, minus=True):
    """value | None (not a literal or out of range) | SKIP (0x style prefix, which the standard does not mention)"""
    try: t = s.decode("ascii")
    except UnicodeDecodeError: return None
    if re.match(r"^[+-]?0[xXbBoO]", t) and (t.lower().lstrip("+-")[1] == {16: "x", 2: "b", 8: "o"}.get(base)): return SKIP
    m = re.match(r"^([+-]?)([0-9a-zA-Z]+)\Z", t)
    if not m or (m.group(1) == "-" and not minus): return None
    v = 0
    for ch in m.group(2):
        d = int(ch, 36)
        if d >= base: return None
        v = v * base + d
    if m.group(1) == "-": v = -v
    return v if lo <= v <= hi else None
def itoa(v, b):
    s = ""; n = abs(v)
    while True:
        s = "0123456789abcdefghijklmnopqrstuvwxyz"[n % b] + s; n //= b
        if not n: break
    return ("-" if v < 0 else "") + s
FLT = re.compile(r"^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\Z")
def fval(s):
    try: t = s.decode("ascii")
    except UnicodeDecodeError: return None
    if re.match(r"^[+-]?(inf|infinity|nan)\Z", t, re.I): return float(t)
    if not FLT.match(t): return None
    v = float(t)
    return None if v in (float("inf"), float("-inf")) else v
def flit2(v): return flit(v)

def body(c):
    tc = Toolchain(c.tmp, san=True)
    c.rule = "one evaluation = one strconv function on one text (and base) in a compiled program under AddressSanitizer, compared with exact parsing; texts are distinct"
    g = Grid(c, tc, imports=["strconv"], part="strconv", per_file=4, opt="-O0")
    T = c.thorough
    txt = allstr([b"0", b"9", b"-", b"+", b" ", b"a", b"."], 4 if not T else 5)
    lim = []
    for v in (I - 1, I, I + 1, -I, -I - 1, 2 * I - 1, 2 * I, 10**18, 10**19, 10**20): lim += [b"%d" % v, b"+%d" % abs(v), b"0" * 50 + b"%d" % abs(v), b"-" + b"0" * 70 + b"%d" % abs(v)]
    odd = [b"12x", b"x12", b"1 2", b"12 ", b" 12", b"\t12", b"12\n", b"1_000", b"1,000", b"--5", b"+-5", b"0x10", b"1e3", b"12\x0034", b"12\x00", b"\x0012", b"5" + b"\xc3\xa9", b"9" * 400, b"1" + b" " * 100, b"7" * 62 + b"x", b"7" * 63 + b"x", b"0" * 63 + b"8x", b"0" * 62 + b"12", b"0" * 63 + b"12", b"0" * 64 + b"12", b"1" * 63 + b" ", b"0" * 300 + b"7"]
    def two(call): return " mut n, e = %s\n if e == nil { println(\"ok ${n}\") } otherwise { println(\"err ${n}\") }" % call
    def ri(s, b=10):
        v = parse(s, b, -I, I - 1)
        return v if v is SKIP else "err 0" if v is None else "ok %d" % v
    def ru(s, b=10):
        v = parse(s, b, 0, 2 * I - 1, minus=False)
        return v if v is SKIP else "err 0" if v is None else "ok %d" % v
    g.add("to_int", [strings(txt + lim + odd)], two("strconv.to_int(a0)"), ri)
    g.add("to_uint", [strings(txt + lim + odd)], two("strconv.to_uint(a0)"), ru)
    pan = lambda f: lambda s: (lambda r: r if r is SKIP else PANIC if r.startswith("err") else r[3:])(f(s))
    g.add("to_int-panic", [strings(txt[:400] + lim + odd)], " println(strconv.to_int(a0) + 0)", pan(ri))
    g.add("to_uint-panic", [strings(txt[:400] + lim + odd)], " println(strconv.to_uint(a0) + cast(0, uint))", pan(ru))
    for b in range(2, 37):
        dg = "0123456789abcdefghijklmnopqrstuvwxyz"
        xs = [b"", b"-", b"+"] + [ch.encode() for ch in dg] + [ch.upper().encode() for ch in dg[10:]] + [("1" + ch).encode() for ch in dg] + [b"@", b"/", b":", b"[", b"`", b"{"]
        for v in (I - 1, I, -I, -I - 1, 2 * I - 1, 2 * I, 12345): xs += [itoa(v, b).encode(), itoa(v, b).upper().encode()]
        g.add("to_int-base", [strings(xs), ints([b])], two("strconv.to_int(a0, a1)"), ri)
        g.add("to_uint-base", [strings(xs), ints([b])], two("strconv.to_uint(a0, a1)"), ru)
    g.add("bad-base", [strings([b"1", b"", b"zz"]), ints([-1, 0, 1, 37, 100, 2**32 + 10])], two("strconv.to_int(a0, a1)"), lambda s, b: "err 0")
    g.add("bad-base-panic", [strings([b"1"]), ints([-1, 0, 1, 37, 2**32 + 10])], " println(strconv.to_int(a0, a1) + 0)", lambda s, b: PANIC)
    ft = [x for x in allstr([b"1", b".", b"e", b"-", b"0"], 4 if not T else 5)] + [b"1e5", b"1.5e-3", b"2E+10", b"1e308", b"1e309", b"-1e400", b"1e-300", b"5e-324", b"0.1", b"0.30000000000000004", b"123456789.123456789", b"9007199254740993", b"1.7976931348623157e308", b"2.2250738585072014e-308", b"2.2250738585072011e-308",
         b"inf", b"-INF", b"Infinity", b"nan", b"NaN", b"nan(1)", b"infx", b"in", b"0x1p3", b"0X10", b"1f", b" 1.5", b"1.5 ", b"1.5\x00", b"1\x002", b"1" * 100, b"0." + b"1" * 100, b"1" * 62 + b"x", b"1" * 63 + b"x", b"0." + b"0" * 70 + b"1", b"1" * 400, b"1" + b"0" * 308, b"3." + b"1" * 61 + b"e5", b"1.0" + b"0" * 70 + b"x", b"\xc3\xa9"]
    for s in ft:
        v = fval(s)
        if v is None or v != v or v in (float("inf"), float("-inf")):
            ok = "false" if v is None else "true"
            g.add("to_float", [strings([s])], " mut n, e = strconv.to_float(a0)\n println(\"${e == nil} ${n == 0.0}\")", lambda x, v=v: "false true" if v is None else "true false")
            if v is None: g.add("to_float-panic", [strings([s])], " println(strconv.to_float(a0) + 0.0)", lambda x: PANIC)
        else:
            g.add("to_float-value", [strings([s]), floats([v])], " mut n, e = strconv.to_float(a0)\n println(\"${e == nil} ${n == a1}\")\n println(strconv.to_float(a0) == a1)", lambda x, v: "true true\ntrue")
    bt = [b"true", b"false", b"TRUE", b"False", b"tRuE", b"", b"t", b"truex", b"xtrue", b" true", b"true ", b"1", b"0", b"yes", b"true\x00", b"fals", b"falsey", b"nil"]
    g.add("to_bool", [strings(bt)], two("strconv.to_bool(a0)"), lambda s: "ok " + s.lower().decode() if s.lower() in (b"true", b"false") else "err false")
    g.add("to_bool-panic", [strings(bt)], " println(strconv.to_bool(a0) == true)", lambda s: s.lower().decode() if s.lower() in (b"true", b"false") else PANIC)
    g.add("is_numeric", [strings(txt + odd)], " println(strconv.is_numeric(a0))", lambda s: "true" if re.match(rb"^[+-]?(\d+\.?\d*|\.\d+)\Z", s) else "false")
    g.add("is_integer", [strings(txt + odd)], " println(strconv.is_integer(a0))", lambda s: "true" if re.match(rb"^[+-]?\d+\Z", s) else "false")
    V = [0, 1, -1, 9, 10, -10, I - 1, -I, 10**18, 2**32] + list(range(-50, 50))
    g.add("from_int", [ints(V)], " println(strconv.from_int(a0))\n println(strconv.to_int(strconv.from_int(a0)) == a0)", lambda v: "%d\ntrue" % v)
    g.add("from_uint", [ints([0, 1, 10, I, 2 * I - 1], "uint")], " println(strconv.from_uint(a0))\n println(strconv.to_uint(strconv.from_uint(a0)) == a0)", lambda v: "%d\ntrue" % v)
    g.add("from_bool", [bools()], " println(strconv.from_bool(a0))", lambda v: str(v).lower())
    FV = [0.0, 1.0, -1.0, 0.1, 0.2, 0.30000000000000004, 1/3, 2/3, 123456.0, 1234567.0, 1234567.8, 1e15, 1e16, 1e17, 1e21, 1e22, 1e100, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 3.141592653589793, -2.718281828459045, 9007199254740991.0, 9007199254740993.0, 0.000001, 0.0000001, 1e-10]
    FV += [k / 7 for k in range(-20, 20)] + [struct.unpack("<d", struct.pack("<Q", (0x3ff << 52) + (k * 0x1234567890ab) % (1 << 52)))[0] for k in range(60)]
    g.add("from_float", [floats(FV)], " mut s string = strconv.from_float(a0)\n println(s)\n println(strconv.to_float(s) == a0)", lambda v: lambda out: (lambda l: len(l) == 2 and l[1] == b"true" and float(l[0]) == v)(out.split()))
    c.sample({"function": "to_int", "texts": [t.decode() for t in txt[:30]]})
    g.go()
main("C24", body)
