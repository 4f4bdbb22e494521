"""C26: @fmt renders every value exactly."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from grid import *
from decimal import Decimal, ROUND_HALF_EVEN, localcontext
I = 2**63
def fixed(v, d):
    with localcontext() as ctx:
        ctx.prec = 3000
        return format(Decimal(v).quantize(Decimal(1).scaleb(-d), rounding=ROUND_HALF_EVEN), "f") if d else format(Decimal(v).quantize(Decimal(1), rounding=ROUND_HALF_EVEN), "f")
def sgn0(v, s): return ("-" + s) if (v < 0 or str(v)[0] == "-") and not s.startswith("-") else s
def body(c):
    tc = Toolchain(c.tmp, san=True)
    c.rule = "one evaluation = one @fmt call on one argument tuple in a compiled program under AddressSanitizer, compared with the exact rendering"
    g = Grid(c, tc, imports=["fmt", "strings"], part="fmt", per_file=4, opt="-O0")
    T = c.thorough
    S = [b"", b"a", b"ab", b"abc", "é".encode(), b"%d %s", b"x" * 63, b"x" * 64, b"x" * 300, b"\\"]
    W = [-I, -1, 0, 1, 2, 3, 4, 5, 6, 7, 62, 63, 64, 65, 127, 128, 299, 300, 301, 1000, 5000]
    for f, o in (("pad_left", lambda s, w: b"*" * max(0, w - len(s)) + s), ("pad_right", lambda s, w: s + b"*" * max(0, w - len(s))),
                 ("center", lambda s, w: b"*" * (max(0, w - len(s)) // 2) + s + b"*" * (max(0, w - len(s)) - max(0, w - len(s)) // 2))):
        def pred(s, w, o=o):
            want = o(s, w)
            if f == "center":  # either side may take the odd character
                n = max(0, w - len(s))
                alt = b"*" * (n - n // 2) + s + b"*" * (n // 2)
                return lambda out: out in (b"<" + want + b">\n%d" % len(want) + b"\n", b"<" + alt + b">\n%d" % len(want) + b"\n", b"<" + want + b">\n%d" % len(want), b"<" + alt + b">\n%d" % len(want))
            return (b"<" + want + b">\n%d" % len(want)).decode("utf-8", "surrogateescape")
        g.add(f, [strings(S), ints(W)], " mut s string = fmt.%s(a0, a1, '*')\n println(\"<${s}>\")\n println(len(s))" % f, pred)
        g.add(f + "-huge", [strings([b"a"]), ints([2**31, 2**32, 2**32 + 5, 2**40, I - 1])], " println(len(fmt.%s(a0, a1, '*')))" % f, lambda s, w: PANIC)
        for ch in range(33, 127):
            if chr(ch) in "'\\": continue
            g.add(f + "-char", [strings([b"mid"]), ints([4])], " println(fmt.%s(a0, a1, '%s'))" % (f, chr(ch)), lambda s, w, ch=ch, f=f: (lambda k: k)(chr(ch) + "mid" if f == "pad_left" else "mid" + chr(ch)) if f != "center" else (lambda out: out.strip() in (b"mid" + bytes([ch]), bytes([ch]) + b"mid")))
        g.add(f + "-chain", [strings([b"q", b"abc"]), ints([0, 5, 40])], " println(strings.contains(fmt.%s(a0, a1, '.'), a0))\n println(strings.to_upper(fmt.%s(a0, a1, '.')))" % (f, f),
              (lambda s, w, o=o, f=f: "true\n" + o(s, w).decode().replace("*", ".").upper()) if f != "center" else lambda s, w: lambda out: out.startswith(b"true\n"))
    N = [0, 1, -1, 2, 7, 8, 9, 15, 16, 255, 256, -2, -255, 2**31, 2**32 - 1, 2**32, 2**53, I - 1, -I, -I + 1] + [1 << k for k in range(63)] + [(1 << k) - 1 for k in range(1, 64)] + [-(1 << k) for k in range(64)]
    N = sorted(set(N))
    u = lambda n: n % (2 * I)
    g.add("hex", [ints(N)], " println(fmt.int_to_hex(a0))\n println(len(fmt.int_to_hex(a0)))", lambda n: "%x\n%d" % (u(n), len("%x" % u(n))))
    g.add("octal", [ints(N)], " println(fmt.int_to_octal(a0))", lambda n: "%o" % u(n))
    g.add("binary", [ints(N)], " println(fmt.int_to_binary(a0))\n println(strings.to_upper(fmt.int_to_binary(a0)))", lambda n: "%s\n%s" % (bin(u(n))[2:], bin(u(n))[2:]))
    F = [0.0, 1.0, -1.0, 0.5, 0.25, 0.125, 1.005, 2.675, 0.1, 1/3, 99.995, 0.999999, 9.5, 10.5, 123456789.123456789, 1e15, 1e16, 1e22, 1e50, 1e100, 1e300, 1.7976931348623157e308, -1.7976931348623157e308, 5e-324, 1e-10, -2.5, -0.05, 0.05]
    D = [0, 1, 2, 3, 6, 10, 15, 16, 17, 20, 40, 55, 60, 61, 62, 63, 64, 100, 400] + ([1000, 1100] if T else [])
    g.add("float_fixed", [floats(F), ints(D)], " mut s string = fmt.float_fixed(a0, a1)\n println(s)\n println(len(s))", lambda v, d: (lambda s: "%s\n%d" % (s, len(s)))("%.*f" % (d, v)))
    g.add("float_sci", [floats(F)], " println(fmt.float_sci(a0))", lambda v: "%e" % v)
    # printf family
    def spec(conv, vals, mk):
        for flags in ("", "-", "0", "+", "#", "-+", "+0"):
            for w in ("", "1", "5", "12", "70", "300"):
                for p in ("", ".0", ".1", ".3", ".20") if conv in "fegdxou" or conv == "s" else ("",):
                    if conv in "xou" and "+" in flags: continue
                    if conv in "dius" and "#" in flags: continue
                    if conv == "s" and ("0" in flags or "+" in flags): continue
                    if "0" in flags and p and conv in "dxou": continue
                    sp = "%" + flags + w + p + conv
                    g.add("sprintf" + sp, [vals], " println(fmt.sprintf(\"<%s>\", a0))\n println(fmt.format(\"%s\", a0))" % (sp, sp), lambda v, sp=sp: (lambda r: "<%s>\n%s" % (r, r))(mk(sp, v)))
    def cint(sp, v):
        import re
        m = re.match(r"%([-+0#]*)(\d*)(?:\.(\d+))?(.)", sp); fl, w, p, k = m.groups(); w = int(w or 0)
        n = v % (2 * I) if k in "xou" else v
        d = ("%x" % n if k == "x" else "%o" % n if k == "o" else "%d" % abs(n))
        if p is not None:
            p = int(p)
            d = "" if p == 0 and n == 0 else d.rjust(p, "0")
        if "#" in fl:
            if k == "x" and n: d = "0x" + d
            if k == "o" and not d.startswith("0"): d = "0" + d
        s = "-" if n < 0 else "+" if "+" in fl and k in "di" else ""
        if "-" in fl: return (s + d).ljust(w)
        if "0" in fl and p is None:
            if d.startswith("0x"): return "0x" + d[2:].rjust(w - 2, "0")
            return s + d.rjust(w - len(s), "0")
        return (s + d).rjust(w)
    small = ints([0, 1, -1, 255, I - 1, -I])
    spec("d", small, cint); spec("x", ints([0, 1, 255, I - 1, -1]), cint); spec("o", ints([0, 8, I - 1]), cint)
    spec("u", ints([0, 9, 2 * I - 1], "uint"), cint)
    def cf(sp, v): return sp % v
    spec("f", floats([0.0, -1.5, 3.14159, 1e20, 1e300]), cf); spec("e", floats([0.0, -1.5, 12345.678, 1e300]), cf); spec("g", floats([0.0, 0.0001, 1e-5, 123456.0, 1234567.0, 1.5]), cf)
    def cs(sp, v):
        import re
        m = re.match(r"%([-]*)(\d*)(?:\.(\d+))?s", sp); fl, w, p = m.groups()
        b = v if p is None else v[:int(p)]
        return (b.ljust(int(w or 0)) if "-" in fl else b.rjust(int(w or 0))).decode("utf-8", "surrogateescape")
    spec("s", strings([b"", b"abc", b"a much longer text than the precision", b"x" * 400]), cs)
    g.add("mixed", [strings([b"k", b"", b"y" * 5000]), ints([7, -I]), floats([2.5]), bools()], " println(fmt.sprintf(\"%s=%d %f %s|%%|%5s|\", a0, a1, a2, a0, \"${a3}\"))\n fmt.printf(\"%s-%d\", a0, a1)\n fmt.printfln(\"[%s]\", a0)\n mut z string = fmt.sprintfln(\"%d\", a1)\n println(len(z))",
          lambda s, n, f, b: (s + b"=%d %f " % (n, f) + s + b"|%|" + str(b).lower().rjust(5).encode() + b"|\n" + s + b"-%d" % n + b"[" + s + b"]\n%d" % (len(str(n)) + 1)).decode())
    g.add("char", [ints(list(range(33, 127)))], " println(fmt.sprintf(\"%c|%c\", char(a0), char(a0)))", lambda n: chr(n) + "|" + chr(n))
    c.sample({"function": "float_fixed", "values": F, "decimals": D})
    g.go()
main("C26", body)
