#!/usr/bin/env python3
"""C03: every conversion between numeric types, in every form and place, on every boundary value of both sides; strings to numbers over every short text."""
import sys, os, itertools, struct, math, re
from fractions import Fraction
from decimal import Decimal
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
R = {"i8": (-2**7, 2**7 - 1), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1), "int": (-2**63, 2**63 - 1), "u8": (0, 255), "byte": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "uint": (0, 2**64 - 1), "i128": (-2**127, 2**127 - 1), "u128": (0, 2**128 - 1), "i256": (-2**255, 2**255 - 1), "u256": (0, 2**256 - 1), "char": (0, 0x10ffff)}
F = {"f32": 24, "f64": 53, "float": 53}
WIDE = ("i128", "u128", "i256", "u256")
NUM = [t for t in R if t != "char"] + list(F)
def f32(x): return struct.unpack("f", struct.pack("f", x))[0]
def tofloat(v, t):
    """nearest value of the float type"""
    if isinstance(v, float):
        if v != v or math.isinf(v): return v
        if t == "f32":
            try: return f32(v)
            except OverflowError: return math.copysign(math.inf, v)
        return v
    if t != "f32": return float(v)
    # one rounding from the integer
    n = abs(v); k = max(n.bit_length() - 24, 0); q, r = divmod(n, 1 << k)
    if k and (r > 1 << (k - 1) or (r == 1 << (k - 1) and q & 1)): q += 1
    return math.copysign(float(q << k), v) if v else 0.0
def lit(v, t):
    if t in F:
        if v != v: return "(math.INF - math.INF)"
        if math.isinf(v): return "math.INF" if v > 0 else "math.NEG_INF"
        s = format(Decimal(v), "f"); return s if "." in s else s + ".0"
    return str(v)
INTS = sorted({s * (2**k + d) for k in (0, 3, 7, 8, 15, 16, 24, 31, 32, 53, 63, 64, 127, 128, 255, 256) for d in (-1, 0, 1) for s in (1, -1)} | {65, 100, 1000, 0x10ffff, 0x110000, 0xd800})
INTS = sorted(set(INTS) | {s * (2**k + 2**(k - 53) + d) for k in (62, 63, 126, 130, 200, 254) for d in (-1, 0, 1) for s in (1, -1)} | {s * (2**k + 2**(k - 24) + d) for k in (30, 62, 100, 126) for d in (-1, 0, 1) for s in (1, -1)})
FLTS = [0.0, -0.0, 0.5, 0.999999, 1.0, 1.5, -0.5, -0.999999, -1.0, -1.5, 127.0, 127.9, 128.0, -128.0, -128.9, -129.0, 255.0, 255.5, 256.0, 32767.9, 32768.0, -32768.9, -32769.0, 65535.5, 65536.0, 2.0**31 - 0.5, 2.0**31, -2.0**31 - 0.5, -2.0**31 - 1, 2.0**32 - 0.5, 2.0**32, 2.0**53 - 1, 2.0**53, 16777217.0, 0.1, 3.7, -3.7, 2.0**63 - 1024, 2.0**63 - 513, 2.0**63, 2.0**63 + 2048, -2.0**63, -2.0**63 + 1024, -2.0**63 - 2048, 2.0**64 - 2048, 2.0**64, 2.0**127, 2.0**128, 3.4028234663852886e38, 3.5e38, 1.7e300, math.inf, -math.inf, math.nan]
FLTS += [sg * float(2**53 - 1) * 2.0**k for k in (-60, -53, -20, 9, 11, 70, 73, 74, 75, 140, 150, 190, 201, 202, 203) for sg in (1, -1)]
def convert(v, S, T):
    """the value of type T, or None for a panic"""
    if T in F: return tofloat(v, T)
    if isinstance(v, float):
        if v != v or math.isinf(v): return None
        v = int(v)
    lo, hi = R[T]
    return v if lo <= v <= hi else None
FORMS = {
 "cast": ("", "mut y %(T)s = cast(x, %(T)s)"), "cast inferred": ("", "mut y = cast(x, %(T)s)"), "cast nested": ("", "mut y %(T)s = cast(cast(x, %(S)s), %(T)s)"),
 "constructor": ("", "mut y %(T)s = %(T)s(x)"), "constructor inferred": ("", "mut y = %(T)s(x)"),
 "declaration": ("", "mut y %(T)s = x"), "assignment": ("", "mut y %(T)s = %(Z)s\n y = x"),
 "argument": ("do g@@(a %(T)s) -> %(T)s { return a }", "mut y %(T)s = g@@(x)"), "cast argument": ("do g@@(a %(T)s) -> %(T)s { return a }", "mut y %(T)s = g@@(cast(x, %(T)s))"),
 "default": ("do g@@(a %(S)s, b %(T)s = %(Z)s) -> %(T)s { return b }", "mut y %(T)s = g@@(x, x)"),
 "return": ("do g@@(a %(S)s) -> %(T)s { return a }", "mut y %(T)s = g@@(x)"), "two returns": ("do g@@(a %(S)s) -> (int, %(T)s) { return 1, a }", "mut n, y = g@@(x)\n println(n)"),
 "field": ("const S@@ struct {\n    f %(T)s\n}", "mut s = S@@{f: x}\n mut y %(T)s = s.f"), "field assignment": ("const S@@ struct {\n    f %(T)s\n}", "mut s = S@@{f: %(Z)s}\n s.f = x\n mut y %(T)s = s.f"),
 "element": ("", "mut a [%(T)s] = {x}\n mut y %(T)s = a[0]"), "element assignment": ("", "mut a [%(T)s] = {%(Z)s}\n a[0] = x\n mut y %(T)s = a[0]"), "append": ("", "mut a [%(T)s] = {%(Z)s}\n arrays.append(a, x)\n mut y %(T)s = a[1]"), "map value": ("", "mut m [string:%(T)s] = {\"a\": x}\n mut y %(T)s = m[\"a\"]"), "map assignment": ("", "mut m [string:%(T)s] = {\"a\": %(Z)s}\n m[\"a\"] = x\n mut y %(T)s = m[\"a\"]"),
 "array cast": ("", "mut a [%(S)s] = {x, x}\n mut b [%(T)s] = cast(a, [%(T)s])\n println(len(b))\n mut y %(T)s = b[1]"), "array cast inferred": ("", "mut a [%(S)s] = {x, x}\n mut b = cast(a, [%(T)s])\n println(len(b))\n mut y %(T)s = b[1]"),
}
PRE = {"array cast": "2\n", "array cast inferred": "2\n", "two returns": "1\n"}
def body(c):
    c.rule = "one evaluation = one conversion executed, or one pair of types and form checked; all distinct"
    tc = Toolchain(c.tmp)
    os.rename(tc.grayc, tc.grayc + ".plain")
    r = run(["make", "-s", "LDFLAGS=-lm %s -Wl,--wrap=main" % tc.fork_o, "grayc"], cwd=tc.src, env=dict(ENV))
    if r.returncode: raise CheckError(r.stderr.decode()[-2000:])
    forked = tc.grayc + ".forked"; os.rename(tc.grayc, forked); os.rename(tc.grayc + ".plain", tc.grayc)
    work = os.path.join(c.tmp, "acc"); os.makedirs(work)
    z = lambda T: "0.0" if T in F else "0"
    def parts(form, S, T):
        d = {"S": S, "T": T, "Z": z(T)}; return FORMS[form][0] % d, FORMS[form][1] % d
    # which are accepted
    combos = [(f, S, T) for f in FORMS for S in NUM for T in NUM]
    if not c.thorough: combos = [k for k in combos if not (k[1] in WIDE and k[2] in WIDE)]
    cases = []
    for n, (f, S, T) in enumerate(combos):
        d, b = parts(f, S, T); p = os.path.join(work, "a%d.gray" % n)
        open(p, "w").write("import @arrays, @math\n%s\ndo main() {\n mut x %s = %s\n %s\n println(y)\n}\n" % (d.replace("@@", "0"), S, z(S), b.replace("@@", "0"))); cases.append(["check", p])
    res = tc.forkrun(forked, cases, timeout=20, chunk=200); ok = []
    for k, (st, o, e) in zip(combos, res):
        c.count("type pairs")
        if st == 0: ok.append(k)
        elif st != 1 or b"error[" not in e: c.violation("accept:%s:%s:%s" % k, "check ends with %s: %s" % (st, e[:200].decode(errors="replace")), {"form": k})
        elif "cast" in k[0] or k[0] == "constructor" or (k[1] == k[2] and k[0] == "declaration"):
            if k[0].startswith("constructor") and k[2] not in ("int", "uint", "float", "byte", "i128", "u128", "i256", "u256"): continue
            c.violation("rejected:%s:%s:%s" % k, "rejected: %s" % e[:200].decode(errors="replace"), {"form": k})
    b = Batch(c, tc, prelude="const ZERO int = 0", imports=["arrays", "math"], per_file=150, opt="-O0", part="conversions")
    for f, S, T in ok:
        d, bd = parts(f, S, T)
        if S in F:
            vals = [v for v in FLTS if S != "f32" or v != v or math.isinf(v) or (abs(v) < 3.5e38 and f32(v) == v)]
        else: vals = [v for v in INTS if R[S][0] <= v <= R[S][1]]
        near = lambda v: (T in F and abs(v) in (1, 100, 2**24 + 1, 2**53 + 1, 2**64 - 1, 2**64 + 1)) or T not in F and any(abs(v - m) <= 1 for m in R[T]) or abs(v) < 2 or v in (R[S] if S in R else ())
        if S in R and not c.thorough and f != "cast": vals = [v for v in vals if near(v)]
        if S in F and not c.thorough and f not in ("cast", "array cast", "constructor"): vals = [v for v in vals if v != v or math.isinf(v) or T in F and v in (0.5, -1.5, 127.9, 128.0) or T not in F and any(abs(v - m) < 2 + abs(m) / 2**52 for m in R[T]) or abs(v) < 2]
        for v in vals:
            r = convert(v, S, T)
            if T in F and r is not None and not (isinstance(v, float) and math.isinf(v)) and abs(r) > 3.4028235e38 and T == 'f32': continue # larger than every f32
            if T in F and r is not None: exp = PRE.get(f, "") + ("true\ntrue" if r == r else "false\ntrue"); out = " println(y == %s)\n println(%s)" % (lit(r, T) if r == r else "y", "y == 0.0 || (y > 0.0) == %s" % ("true" if r > 0 else "false") if r == r else "y != y")
            else: exp = None if r is None else PRE.get(f, "") + str(r); out = " println(y)"
            src = lit(v, S)
            b.add("%s:%s:%s:%s" % (f, S, T, src[:60]), " mut x %s = %s\n %s\n%s" % (S, src, bd, out), exp, panic=r is None, decls=d, desc="%s from %s %s to %s" % (f, S, src[:60], T))
    b.go()
    # strings
    b = Batch(c, tc, imports=["strings"], per_file=250, opt="-O0", part="texts")
    def s(t): return '"' + "".join(ch if ch.isalnum() or ch in " .+-_" else "\\x%02x" % ord(ch) for ch in t) + '"'
    texts = {"".join(p) for k in range(0, 4 if c.thorough else 3) for p in itertools.product("09-+. ex_n\x00\t", repeat=k)}
    for n in INTS:
        if abs(n) <= 2**65: texts |= {str(n), "+%d" % n if n >= 0 else "-0%d" % -n, "%d " % n, " %d" % n, "%dx" % n, "%d\x00" % n, "%d.0" % n, "%d 1" % n}
    texts |= {"0" * 70 + "7", "-" + "0" * 80 + "5", "1" * 62, "1" * 63, "1" * 64 + "x", "1" + "0" * 62 + "x", "0x10", "0b1", "0o7", "1_000", "1e3", "1e400", "1e-400", "-1e400", "inf", "nan", "INF", "NaN", "infinity", "1.5", "-.5", ".5", "5.", "1.5.2", "1e", "1e+", "1e+2", "0x1p3", "1.5" + "0" * 70, "1." + "0" * 70 + "x", "3.14abc", "٣"}
    IL = re.compile(r"[+-]?[0-9]+\Z"); FL = re.compile(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?\Z")
    def istr(t): return int(t) if IL.match(t) else None
    for t in sorted(texts):
        if not all(ord(ch) < 128 for ch in t): continue
        v = istr(t)
        for T in ("int", "uint"):
            for form, ex in (("constructor", "%s(s)" % T),):
                if v is None and IL.match(t.strip(' \t')): continue # blanks around a number may or may not belong to it
                if v is None and re.match(r"[+-]?0[xXbBoO]|.*_", t): continue
                r = v if v is not None and R[T][0] <= v <= R[T][1] else None
                if v == 0 and t.startswith("-") and R[T][0] == 0: continue
                b.add("text:%s:%s:%r" % (form, T, t), " mut s string = %s\n mut y %s = %s\n println(y)" % (s(t), T, ex), None if r is None else str(r), panic=r is None, desc="%s of %r" % (ex, t))
        if re.match(r"[+-]?(0[xX]|inf|nan|INF|NaN|n|i)|.*_", t): continue
        if FL.match(t.strip(' \t')) and t != t.strip(' \t'): continue
        m = FL.match(t); fv = float(t) if m else None
        for form, ex in (("constructor", "float(s)"),):
            if fv is not None and math.isinf(fv): b.add("text:%s:%r" % (ex, t), " mut s string = %s\n mut y float = %s\n println(y)" % (s(t), ex), None, panic=True, desc="%s of %r" % (ex, t)); continue
            b.add("text:%s:%r" % (ex, t), " mut s string = %s\n mut y float = %s\n println(y == %s)" % (s(t), ex, lit(fv, "float") if fv is not None else "0.0"), None if fv is None else "true", panic=fv is None, desc="%s of %r" % (ex, t))
    # and back
    for T in ("int", "uint", "i8", "u8", "i32", "u32", "i64", "u64", "i128", "u256"):
        for n in INTS:
            if R[T][0] <= n <= R[T][1]:
                for ex in ("string(x)", "cast(x, string)", '"${x}"'): b.add("string:%s:%s:%d" % (ex, T, n), " mut x %s = %d\n mut y string = %s\n println(y)" % (T, n, ex), str(n), desc="%s of %s %d" % (ex, T, n))
    # characters, booleans
    for n in (0, 1, 65, 127, 128, 233, 255, 256, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff):
        for f, e in (("int of char", "mut ch = char(x)\n println(int(ch))"), ("cast of char", "mut ch = cast(x, char)\n println(cast(ch, int))")): b.add("char:%s:%d" % (f, n), " mut x int = %d\n %s" % (n, e), str(n))
    for v in ("true", "false"):
        for e in ("int(x)", "cast(x, int)"): b.add("bool:%s:%s" % (e, v), " mut x bool = %s\n println(%s)" % (v, e), "1" if v == "true" else "0")
        b.add("bool:string:%s" % v, " mut x bool = %s\n mut y string = string(x)\n println(y)" % v, v)
    b.go()
if __name__ == "__main__": main("C03", body, level="exploration", quick_s=300, thorough_s=840)
