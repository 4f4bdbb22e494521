"""C30: @math is exact on integers or panics; rounding and predicates are exact on floats."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from grid import *
import math
I = 2**63
def fit(x): return str(x) if -I <= x < I else PANIC
def fitu(x): return str(x) if 0 <= x < 2 * I else PANIC
def isprime(n):
    if n < 2: return False
    if n < 4: return True
    if n % 2 == 0: return False
    d, r = n - 1, 0
    while d % 2 == 0: d //= 2; r += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n == a: return True
        if n % a == 0: return False
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(r - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True
def b2(x): return "true" if x else "false"
def close(want):
    """the printed text names exactly this float"""
    return lambda out: float(out) == want
def body(c):
    tc = Toolchain(c.tmp, san=True)
    c.rule = "one evaluation = one @math function on one argument tuple in a compiled program, compared with exact integer arithmetic (or panic when it does not fit) or the IEEE definition"
    g = Grid(c, tc, imports=["math"], part="math", per_file=6, opt="-O0")
    T = c.thorough
    small = list(range(-20, 21)) if not T else list(range(-150, 151))
    edge = [I - 1, I - 2, -I, -I + 1, -I + 2, 2**62, -2**62, 2**62 + 1, 2**32, -2**32, 2**31, 2**31 - 1, -2**31, 3037000499, 3037000500, 4294967297, 10**18, -10**18, 2**53 + 1]
    N = small + edge
    UE = [0, 1, 2, 5, I - 1, I, I + 1, 2 * I - 1, 2 * I - 2, 2**32]
    g.add("abs", [ints(N)], " println(math.abs(a0))", lambda n: fit(abs(n)))
    g.add("neg", [ints(N)], " println(math.neg(a0))", lambda n: fit(-n))
    g.add("sign", [ints(N)], " println(math.sign(a0))", lambda n: str((n > 0) - (n < 0)))
    g.add("abs-uint", [ints(UE, "uint")], " println(math.abs(a0))", lambda n: str(n))
    g.add("sign-uint", [ints(UE, "uint")], " println(math.sign(a0))", lambda n: str(int(n > 0)))
    g.add("neg-uint", [ints(UE, "uint")], " println(math.neg(a0))", lambda n: fitu(-n))
    for f in ("min", "max"):
        g.add(f, [ints(N), ints(N)], " println(math.%s(a0, a1))" % f, lambda a, b, f=f: str(eval(f)(a, b)))
        g.add(f + "-uint", [ints(UE, "uint"), ints(UE, "uint")], " println(math.%s(a0, a1))" % f, lambda a, b, f=f: str(eval(f)(a, b)))
    s3 = [-3, -1, 0, 1, 2, 7, I - 1, -I]
    g.add("clamp", [ints(s3), ints(s3), ints(s3)], " println(math.clamp(a0, a1, a2))", lambda v, lo, hi: SKIP if lo > hi else str(max(lo, min(v, hi))))
    u3 = [0, 1, 7, I, 2 * I - 1]
    g.add("clamp-uint", [ints(u3, "uint")] * 3, " println(math.clamp(a0, a1, a2))", lambda v, lo, hi: SKIP if lo > hi else str(max(lo, min(v, hi))))
    for t, lo, hi in (("i8", -128, 127), ("i16", -2**15, 2**15 - 1), ("i32", -2**31, 2**31 - 1), ("u8", 0, 255), ("u16", 0, 65535), ("u32", 0, 2**32 - 1)):
        V = sorted({lo, lo + 1, 0, 1, 5, hi - 1, hi} | ({-1, -5} if lo < 0 else set()))
        p = (t, [("cast(%d, %s)" % (v, t), v) for v in V])
        rg = lambda x, lo=lo, hi=hi: str(x) if lo <= x <= hi else PANIC
        g.add("abs-" + t, [p], " mut r %s = math.abs(a0)\n println(r)" % t, lambda n, rg=rg: rg(abs(n)))
        g.add("neg-" + t, [p], " mut r %s = math.neg(a0)\n println(r)" % t, lambda n, rg=rg: rg(-n))
        for f in ("min", "max"): g.add(f + "-" + t, [p, p], " mut r %s = math.%s(a0, a1)\n println(r)" % (t, f), lambda a, b, f=f: str(eval(f)(a, b)))
        g.add("is_even-" + t, [p], " println(math.is_even(a0))", lambda n: b2(n % 2 == 0))
    g.add("gcd", [ints(N), ints(N)], " println(math.gcd(a0, a1))", lambda a, b: fit(math.gcd(a, b)))
    g.add("lcm", [ints(N), ints(N)], " println(math.lcm(a0, a1))", lambda a, b: fit(math.lcm(a, b)))
    g.add("factorial", [ints(list(range(-3, 30)) + [64, 65, 66, 100, 170, 1000])], " println(math.factorial(a0))", lambda n: PANIC if n < 0 else fit(math.factorial(n)))
    primes = list(range(-5, 2000 if not T else 20000)) + [p * p for p in (3, 5, 7, 11, 13, 101, 997, 7919)] + [2**31 - 1, 2**31 + 1, 10**9 + 7, 10**9 + 8, 4294967291, 4294967297, 999999000001, 25326001, 3215031751, -I, -7]
    if T: primes += [1000000007 * 1000000009, I - 25]
    g.add("is_prime", [ints(primes)], " println(math.is_prime(a0))", lambda n: b2(isprime(n)))
    g.add("is_even", [ints(N)], " println(math.is_even(a0))", lambda n: b2(n % 2 == 0))
    g.add("is_odd", [ints(N)], " println(math.is_odd(a0))", lambda n: b2(n % 2 != 0))
    F = [0.0, -0.0, 0.5, -0.5, 1.5, -1.5, 2.5, -2.5, 0.49999999999999994, -0.49999999999999994, 0.9999999999999999, 1.0, -1.0, 3.7, -3.7, 4503599627370495.5, 4503599627370497.5, 9007199254740993.0, 1e15, 123456.5, -123456.5, 1e300, 1e-300, 5e-324, 1.7976931348623157e308]
    if T: F += [i / 8 for i in range(-80, 81)]
    rnd = lambda x: x if abs(x) >= 2**52 else math.copysign(math.floor(abs(x)) + (1 if abs(x) - math.floor(abs(x)) >= 0.5 else 0), x)
    def pf(fn):
        # "%a"-exactness without text: compare with a float literal, both printed and by ==
        return lambda x: lambda out: abs(float(out) - fn(x)) <= 1e-5 * max(1, abs(fn(x)))
    for n, f in (("floor", lambda x: float(math.floor(x))), ("ceil", lambda x: float(math.ceil(x))), ("trunc", lambda x: float(math.trunc(x))), ("round", rnd)):
        for x in F:
            g.add(n, [floats([x]), floats([f(x)])], " println(math.%s(a0) == a1)" % n, lambda x, y: "true")
    for x in F:
        g.add("absf", [floats([x]), floats([abs(x)])], " println(\"${math.abs(a0) == a1} ${math.neg(a0) == -a0} ${math.sign(a0)}\")", lambda x, y: "true true %d" % ((x > 0) - (x < 0)))
    g.add("minmaxf", [floats(F[:14]), floats(F[:14])], " println(\"${math.min(a0, a1) <= a0} ${math.min(a0, a1) <= a1} ${math.max(a0, a1) >= a0} ${math.max(a0, a1) >= a1} ${math.min(a0, a1) == a0 || math.min(a0, a1) == a1} ${math.max(a0, a1) == a0 || math.max(a0, a1) == a1}\")", lambda a, b: " ".join(["true"] * 6))
    pre = " mut x float = a0\n if a1 == 1 { x = math.INF }\n if a1 == 2 { x = math.NEG_INF }\n if a1 == 3 { x = math.INF - math.INF }\n"
    g.add("predicates", [floats(F[:6]), ints([0, 1, 2, 3])], pre + " println(\"${math.is_infinite(x)} ${math.is_nan(x)} ${math.is_finite(x)}\")",
          lambda x, k: " ".join(b2(v) for v in (k in (1, 2), k == 3, k == 0)))
    g.add("powint", [ints(list(range(-12, 13))), ints(list(range(0, 13)))], " println(math.pow(float(a0), float(a1)) == float(a2))" if False else " println(int(math.pow(a0, a1)))", lambda b, e: str(b**e))
    g.add("sqrt", [ints(list(range(0, 200)) + [2**52, (2**26 - 1)**2, 94906265**2])], " println(int(math.sqrt(a0 * a0)))\n println(math.sqrt(a0 * a0) == float(a0))" if False else " println(int(math.floor(math.sqrt(a0))))", lambda n: str(math.isqrt(n)))
    c.sample({"function": "gcd/lcm", "values": N[:6] + edge[:6]})
    g.go()
main("C30", body)
