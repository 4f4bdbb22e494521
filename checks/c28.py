"""C28: random values stay in range and shuffles are permutations."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from grid import *
import itertools, math
V = os.path.dirname(os.path.abspath(__file__)) + "/../lib/c/rand_script.c"
def body(c):
    tc = Toolchain(c.tmp, san=True)
    T = c.thorough
    obj = os.path.join(c.tmp, "script.o")
    p = run(["gcc", "-O1", "-c", V, "-o", obj])
    if p.returncode: raise CheckError(p.stderr.decode())
    tc.set_cc_extra(obj)
    c.rule = ("one evaluation = one @random call for one argument tuple and one script of the underlying generator's draws (the C library's rand is replaced by an enumerated one: "
              "every sequence of extreme values for the first draws, then a fixed tail), judged against the documented range, or one comparison of a permutation with its source")
    g = Grid(c, tc, imports=["random", "arrays"], part="ranges", per_file=4)
    K = list(range(0, 2401, 1 if T else 5)) + list(range(3000, 3040))
    S = ints(K)
    I = 2**63
    mx = [1, 2, 3, 4, 5, 6, 7, 8, 10, 16, 31, 64, 95, 100, 255, 256, 257, 1000, 32767, 32768, 65536, 2**30, 2**31 - 2, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32, 2**32 + 1, 2**32 + 5, 10**12, 2**53, 2**62, I - 2, I - 1]
    sd = " random.seed(a%d)\n"
    def inr(lo, hi, incl=False):
        def f(out):
            try: v = int(out)
            except ValueError: return False
            return lo <= v <= hi if incl else lo <= v < hi
        return f
    def orc_max(m, k): return inr(0, m)
    g.add("rand_int(max)", [ints(mx), S], sd % 1 + " println(random.rand_int(a0))", orc_max)
    nonpos = [0, -1, -2, -2**31, -2**32, -I]
    def panic_or(v):
        class P: pass
        return v
    lo = [-I + 1, -2**32, -2**31 - 1, -2**31, -1000, -2, -1, 0, 1, 5, 2**31 - 1, 2**31, 2**32, I - 3]
    spans = [1, 2, 3, 10, 256, 2**31 - 1, 2**31, 2**31 + 1, 2**32, 2**32 + 1, 2**63 - 1, 2**63, 2**64 - 3]
    pairs = [(a, a + s) for a in lo for s in spans if a + s < I] + [(-I + 1, I - 1), (-I + 1, -I + 2), (I - 2, I - 1)]
    PP = ("int", [(str(i), p) for i, p in enumerate(pairs)])
    g.prelude = "const LO [int, %d] = {%s}\nconst HI [int, %d] = {%s}" % (len(pairs), ", ".join(str(a) for a, b in pairs), len(pairs), ", ".join(str(b) for a, b in pairs))
    g.add("rand_int(min, max)", [PP, ints(K[:: 1 if T else 3])], sd % 1 + " println(random.rand_int(LO[a0], HI[a0]))", lambda p, k: inr(*p))
    # an empty range has no value: its lower bound is returned
    g.add("rand_int of empty", [ints(nonpos), ints(K[::40])], sd % 1 + " println(random.rand_int(a0))", lambda m, k: "0")
    g.add("rand_int of empty pair", [ints([-5, 0, 7]), ints([-6, -5, 0, -2**40]), ints(K[::60])], sd % 2 + " println(random.rand_int(a0, a1))", lambda a, b, k: str(a) if b <= a else inr(a, b))
    g.add("rand_float()", [S], sd % 0 + " mut v float = random.rand_float()\n println(v >= 0.0 && v < 1.0)", lambda k: "true")
    fl = [(0.0, 1.0), (-1.0, 1.0), (1.0, 1.5), (0.1, 0.3), (-1e308, 1e308), (-1.7e308, 1.7e308), (5.0, 5.000000000000001), (0.0, 5e-324), (1e15, 1e15 + 1), (-3.0, -2.0), (0.0, 1e-300), (1.0, 2.0**60), (-0.1, 0.1), (4503599627370496.0, 4503599627370497.0)]
    FL = ("int", [(str(i), p) for i, p in enumerate(fl)])
    g.prelude += "\nconst FLO [float, %d] = {%s}\nconst FHI [float, %d] = {%s}" % (len(fl), ", ".join(flit(a) for a, b in fl), len(fl), ", ".join(flit(b) for a, b in fl))
    g.add("rand_float(min, max)", [FL, S], sd % 1 + " mut v float = random.rand_float(FLO[a0], FHI[a0])\n println(v >= FLO[a0])\n println(v < FHI[a0])", lambda p, k: "true\ntrue")
    g.add("rand_byte", [S], sd % 0 + " println(random.rand_byte())", lambda k: inr(0, 256))
    g.add("rand_bool", [S], sd % 0 + " println(random.rand_bool())", lambda k: lambda o: o.strip() in (b"true", b"false"))
    g.add("rand_char()", [S], sd % 0 + " println(int(random.rand_char()))", lambda k: inr(32, 127))
    cr = [(97, 98), (97, 122), (0x20, 0x7e), (65, 65), (0, 0x10ffff), (0xe9, 0x20ac), (0x61, 0x63)]
    CR = ("int", [(str(i), p) for i, p in enumerate(cr)])
    g.prelude += "\nconst CLO [int, %d] = {%s}\nconst CHI [int, %d] = {%s}" % (len(cr), ", ".join(str(a) for a, b in cr), len(cr), ", ".join(str(b) for a, b in cr))
    g.add("rand_char(min, max)", [CR, S], sd % 1 + " println(int(random.rand_char(char(CLO[a0]), char(CHI[a0]))))", lambda p, k: inr(p[0], p[1], True))
    # small ranges: every value is reached
    N = 20000
    for nm, expr, want in (("rand_int(n)", "random.rand_int(a0)", lambda n: range(n)), ("rand_int(-n, n)", "random.rand_int(0 - a0, a0) + a0", lambda n: range(2 * n)),
                           ("rand_int(2^31*n)", "random.rand_int(a0 * 2147483648) / 2147483648", lambda n: range(n)), ("rand_float bucket", "int(random.rand_float() * float(a0))", lambda n: range(n)),
                           ("rand_float range bucket", "int(random.rand_float(1.0, float(a0) + 1.0)) - 1", lambda n: range(n))):
        g.add("reach " + nm, [ints(list(range(1, 65)))], " mut seen map[int:int] = {:}\n random.seed(5000 + a0)\n for q in range(0, %d) {\n  mut v int = %s\n  seen[v] = 1\n }\n mut n int = 0\n for i in range(0, 2 * a0) { if i in seen { n += 1 } }\n println(\"${len(seen)} ${n}\")" % (N, expr),
              lambda n, want=want: "%d %d" % (len(want(n)), len(want(n))))
    g.add("reach rand_bool, rand_byte, rand_char", [ints(list(range(6000, 6010)))], " mut a map[bool:int] = {:}\n mut b map[int:int] = {:}\n mut d map[char:int] = {:}\n random.seed(a0)\n for q in range(0, 20000) {\n  a[random.rand_bool()] = 1\n  b[int(random.rand_byte())] = 1\n  d[random.rand_char()] = 1\n }\n println(\"${len(a)} ${len(b)} ${len(d)}\")", lambda k: "2 256 95")
    g.go()
    # collections: every element type, lengths 0..6
    g = Grid(c, tc, imports=["random", "arrays"], part="collections", per_file=3, prelude="""const P struct {
 x int
 s string
}
const E enum {
 A
 B
 C
 D
 F
 G
}
const SE enum {
 A = "aa"
 B = "bb"
 C = "cc"
 D = "dd"
 F = "ff"
 G = "gg"
}""")
    types = {
        "int": ["1", "-2", "3000000000", "4", "5", "6"], "i8": ["cast(1, i8)", "cast(-2, i8)", "cast(127, i8)", "cast(-128, i8)", "cast(5, i8)", "cast(6, i8)"],
        "i16": ["cast(%d, i16)" % x for x in (1, -2, 32767, -32768, 5, 6)], "i32": ["cast(%d, i32)" % x for x in (1, -2, 2147483647, -2147483648, 5, 6)],
        "u8": ["cast(%d, u8)" % x for x in (1, 2, 255, 0, 5, 6)], "u16": ["cast(%d, u16)" % x for x in (1, 2, 65535, 0, 5, 6)], "u32": ["cast(%d, u32)" % x for x in (1, 2, 4294967295, 0, 5, 6)],
        "u64": ["cast(%d, u64)" % x for x in (1, 2, 3, 0, 5, 6)], "uint": ["cast(%d, uint)" % x for x in (1, 2, 3, 0, 5, 6)], "byte": ["cast(%d, byte)" % x for x in (1, 2, 255, 0, 5, 6)],
        "float": ["1.5", "2.5", "3.5", "-4.5", "0.0", "6.5"], "f32": ["cast(1.5, f32)", "cast(2.5, f32)", "cast(3.5, f32)", "cast(-4.5, f32)", "cast(0.0, f32)", "cast(6.5, f32)"],
        "bool": ["true", "false", "true", "true", "false", "false"], "char": ["'a'", "'b'", "'c'", "'d'", "'e'", "'f'"], "string": ['"a"', '"bb"', '""', '"dddd"', '"e"', '"f"'],
        "i128": ["i128(%d)" % x for x in (1, -2, 3, 4, 5, 6)], "u256": ["u256(%d)" % x for x in (1, 2, 3, 4, 5, 6)],
        "P": ['P{x: %d, s: "%s"}' % (i, "z" * i) for i in range(6)], "[int]": ["{1}", "{2, 3}", "{}", "{4}", "{5, 6, 7}", "{8}"], "E": ["E.%s" % x for x in "ABCDFG"], "SE": ["SE.%s" % x for x in "ABCDFG"],
    }
    KS = ints(list(range(0, 2401, 20 if T else 97)) + list(range(3000, 3400 if T else 3060)))
    for t, vals in types.items():
        eq = {"P": "(%s.x == %s.x && %s.s == %s.s)", "[int]": "arrays.is_equal(%s, %s)"}.get(t, "(%s == %s)")
        def e(a, b): return eq % ((a, b) if eq.count("%s") == 2 else (a, b, a, b))
        # used[i]: one source element is matched by at most one result element
        perm = """do isperm(src [@], r [@]) -> bool {
 mut used [bool] = {}
 for i in range(0, len(src)) { arrays.append(used, false) }
 for j in range(0, len(r)) {
  mut found bool = false
  for i in range(0, len(src)) {
   if !found && !used[i] {
    if %s { found = true
     used[i] = true }
   }
  }
  if !found { return false }
 }
 return true
}
""".replace("@", t)
        nm = "isperm%d" % list(types).index(t)
        g.prelude += "\n" + (perm.replace("isperm", nm) % e("src[i]", "r[j]"))
        fill = " mut s [%s] = {}\n" % t + "".join(" if a0 > %d { mut e%d %s = %s\n  arrays.append(s, e%d) }\n" % (i, i, t, v, i) for i, v in enumerate(vals)) + " mut o [%s] = copy(s)\n" % t
        same = " mut k int = 0\n for i in range(0, len(s)) { if %s { k += 1 } }\n println(k == len(o) && len(s) == len(o))" % e("s[i]", "o[i]")
        g.add("shuffle [%s]" % t, [ints(list(range(0, 7))), KS], fill + " random.seed(a1)\n mut r [%s] = random.shuffle(s)\n println(len(r))\n println(%s(o, r))\n" % (t, nm) + same, lambda n, k: "%d\ntrue\ntrue" % n)
        g.add("sample [%s]" % t, [ints([0, 1, 3, 6]), ints([-1, 0, 1, 2, 3, 6, 7, 2**32, 2**32 + 1]), ints([0, 48, 2400, 3001, 3002])], fill + " random.seed(a2)\n mut r [%s] = random.sample(s, a1)\n println(len(r))\n println(%s(o, r))\n" % (t, nm) + same,
              lambda n, m, k: PANIC if m < 0 or m > n else "%d\ntrue\ntrue" % m)
        g.add("choice [%s]" % t, [ints(list(range(0, 7))), ints([0, 6, 48, 2400] + list(range(3001, 3020)))], fill + " random.seed(a1)\n mut r %s = random.choice(s)\n mut q [%s] = {}\n arrays.append(q, r)\n println(%s(o, q))\n" % (t, t, nm) + same, lambda n, k: PANIC if n == 0 else "true\ntrue")
    g.go()
    g = Grid(c, tc, imports=["random", "arrays"], part="reach", per_file=2)
    key = " mut t int = 0\n for i in range(0, len(r)) { t = t * 10 + r[i] }\n seen[t] = 1\n"
    for nm, expr, cnt in (("shuffle", "random.shuffle(s)", lambda n: math.factorial(n)), ("sample", "random.sample(s, a0 / 2)", lambda n: math.perm(n, n // 2)), ("choice", "{random.choice(s)}", lambda n: max(n, 1))):
        g.add("reach " + nm, [ints([1, 2, 3, 4, 5])], " mut s [int] = {}\n for i in range(0, a0) { arrays.append(s, i + 1) }\n mut seen map[int:int] = {:}\n random.seed(7000 + a0)\n for q in range(0, 20000) {\n mut r [int] = %s\n%s }\n println(len(seen))" % (expr, key), lambda n, cnt=cnt: str(cnt(n)))
    once = " mut k int = 0\n random.seed(a0)\n"
    g.prelude = "mut calls int = 0\ndo src() -> [int] {\n calls += 1\n return {1, 2, 3}\n}\ndo rows() -> int {\n calls += 1\n return 1\n}"
    g.add("argument evaluated once", [ints(K[::25])], " calls = 0\n random.seed(a0)\n mut r int = random.choice(src())\n mut s [int] = random.shuffle(src())\n mut t [int] = random.sample(src(), 2)\n mut m [[int]] = {{9}, {1, 2, 3}}\n mut u int = random.choice(m[rows()])\n mut x [int] = random.shuffle(m[rows()])\n println(\"${calls} ${r >= 1 && r <= 3} ${len(s)} ${len(t)} ${s[0] + s[1] + s[2]} ${u >= 1 && u <= 3} ${x[0] + x[1] + x[2]} ${t[0] != t[1]}\")",
          lambda k: "5 true 3 2 6 true 6 true")
    g.go()
    # a seed fixes the sequence (real generator)
    tc.set_cc_extra("")
    g = Grid(c, tc, imports=["random", "arrays"], part="seed", prelude="""do draw(k int) -> string {
 random.seed(k)
 mut s string = ""
 mut a [int] = {1, 2, 3, 4, 5}
 for i in range(0, 20) {
  mut b [int] = random.shuffle(a)
  mut d [int] = random.sample(a, 2)
  s = "${s} ${random.rand_int(1000)} ${random.rand_float()} ${random.rand_bool()} ${random.rand_byte()} ${random.rand_char()} ${random.choice(a)} ${b} ${d} ${random.rand_int(-5, 4000000000)}"
 }
 return s
}""")
    g.add("seed fixes the sequence", [ints(list(range(-20, 300)) + [2**31, 2**32 - 1, 10**15])], " mut x string = draw(a0)\n mut y string = draw(a0)\n println(x == y)", lambda k: "true")
    g.go()
if __name__ == "__main__":
    main("C28", body, level="exploration", quick_s=240, thorough_s=800)
