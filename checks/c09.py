"""C09: arrays behave as bounds-checked growable lists."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from grid import *

def b2(x): return "true" if x else "false"
# element types: (literals of three values in increasing order, their text inside an array, alone)
TYPES = {
    "int": (["-5", "2", "7000000000"], ["-5", "2", "7000000000"]),
    "string": (['"a"', '"ab"', '"b"'], ['"a"', '"ab"', '"b"']),
    "float": (["-1.5", "0.25", "3.0"], ["-1.5", "0.25", "3.0"]),
    "uint": (["cast(1, uint)", "cast(9, uint)", "cast(9223372036854775807, uint) + cast(5, uint)"], ["1", "9", "9223372036854775812"]),
    "byte": (["cast(0, byte)", "cast(7, byte)", "cast(200, byte)"], ["0", "7", "200"]),
    "char": (["'a'", "'b'", "'z'"], ["'a'", "'b'", "'z'"]),
    "bool": (["false", "true", "true"], ["false", "true", "true"]),
    "i8": (["cast(-100, i8)", "cast(3, i8)", "cast(100, i8)"], ["-100", "3", "100"]),
    "u32": (["cast(1, u32)", "cast(70000, u32)", "cast(4000000000, u32)"], ["1", "70000", "4000000000"]),
    "f32": (["cast(-1.5, f32)", "cast(0.5, f32)", "cast(2.0, f32)"], ["-1.5", "0.5", "2.0"]),
}
def ops(T, V):
    """(statement, model: list -> new list or PANIC); values are indices 0..2"""
    n = 2 if T == "bool" else 3
    O = []
    for k in (0, 1): O.append((f"arrays.append(a, {V[k]})", lambda l, k=k: l + [k]))
    O.append((f"arrays.prepend(a, {V[n-1]})", lambda l, k=n-1: [k] + l))
    O.append((f"arrays.insert_at(a, 1, {V[0]})", lambda l: PANIC if len(l) < 1 else l[:1] + [0] + l[1:]))
    O.append((f"arrays.insert_at(a, 2, {V[n-1]})", lambda l, k=n-1: PANIC if len(l) < 2 else l[:2] + [k] + l[2:]))
    def rem(l, k):
        l = list(l)
        if k in l: l.remove(k)
        return l
    O.append((f"arrays.remove(a, {V[0]})", lambda l: rem(l, 0)))
    O.append((f"arrays.remove(a, {V[n-1]})", lambda l, k=n-1: rem(l, k)))
    O.append(("arrays.remove_at(a, 0)", lambda l: PANIC if not l else l[1:]))
    O.append(("arrays.remove_at(a, 1)", lambda l: PANIC if len(l) < 2 else l[:1] + l[2:]))
    O.append(("_ = arrays.remove_first(a)", lambda l: PANIC if not l else l[1:]))
    O.append(("_ = arrays.remove_last(a)", lambda l: PANIC if not l else l[:-1]))
    O.append(("arrays.clear(a)", lambda l: []))
    O.append((f"arrays.fill(a, {V[1]}, 3)", lambda l: [1] * 3))
    O.append(("arrays.sort_asc(a)", lambda l: sorted(l)))
    O.append(("arrays.sort_desc(a)", lambda l: sorted(l)[::-1]))
    O.append(("a = arrays.reverse(a)", lambda l: l[::-1]))
    O.append(("a = arrays.slice(a, 1, 3)", lambda l: l[1:3]))
    O.append(("a = arrays.concat(a, a)", lambda l: l + l))
    O.append(("a = arrays.deduplicate(a)", lambda l: list(dict.fromkeys(l))))
    O.append((f"a[1] = {V[0]}", lambda l: PANIC if len(l) < 2 else l[:1] + [0] + l[2:]))
    O.append(("a[len(a) - 1] = a[0]", lambda l: PANIC if not l else l[:-1] + [l[0]]))
    O.append(("a = copy(a)", lambda l: l))
    return O

def body(c):
    tc = Toolchain(c.tmp, san=True)
    fast = Toolchain(c.tmp, name="tc_fast")
    c.rule = ("one evaluation = one operation history (or one call with one argument tuple) executed by a compiled program and compared after every step "
              "with a Python list; all histories are distinct; histories that stop with a panic before their last step are left out, their prefixes are counted")
    T_ = c.thorough
    # A. all operation histories to the depth bound, every element type
    for T, (V, txt) in TYPES.items():
        O = ops(T, V)
        depth = (4 if T in ("int", "string") else 3) if T_ else 3 if T in ("int", "string", "byte") else 2
        sw = "\n".join("  is %d { %s }" % (i, s) for i, (s, _) in enumerate(O))
        q = "${x}"
        prelude = f"""
do step(&a [{T}], op int) {{
 when op {{
{sw}
  default {{ }}
 }}
}}
do probe(a [{T}], b [{T}]) {{
 println("${{a}} ${{len(a)}} ${{b}}")
}}
do queries(a [{T}]) {{
 println("${{arrays.contains(a, {V[0]})}} ${{{V[0]} in a}} ${{arrays.index_of(a, {V[1]})}} ${{arrays.count(a, {V[0]})}} ${{arrays.is_empty(a)}}")
}}"""
        for init in ([], [0, 1], [1, 0, 0, 1] if T == "bool" else [2, 0, 1, 0]):
            code = [f" mut a [{T}] = {{{', '.join(V[k] for k in init)}}}", f" mut b [{T}] = copy(a)"]
            for d in range(depth): code.append(f" step(a, a{d})\n probe(a, b)")
            code.append(" queries(a)")
            def show(l, txt=txt): return "{" + ", ".join(txt[k] for k in l) + "}"
            def orc(*seq, O=O, init=init, show=show):
                l = list(init); out = []
                for i, op in enumerate(seq):
                    l = O[op][1](l)
                    if l is PANIC: return PANIC if i == len(seq) - 1 else SKIP
                    if len(l) > 200: return SKIP
                    out.append("%s %d %s" % (show(l), len(l), show(init)))
                out.append("%s %s %d %d %s" % (b2(0 in l), b2(0 in l), l.index(1) if 1 in l else -1, l.count(0), b2(not l)))
                return "\n".join(out)
            g = Grid(c, fast, imports=["arrays"], prelude=prelude, part="histories", per_file=1)
            g.add("history[%s,%s]" % (T, init), [ints(range(len(O)))] * depth, "\n".join(code), orc,
                  key=lambda *s, T=T, O=O, init=init: "history[%s]%s %s" % (T, init, "; ".join(O[i][0] for i in s)))
            HIST.append(g)
    with ThreadPoolExecutor(6) as ex: list(ex.map(lambda g: g.go(), HIST))
    # B. each function on all small arrays and boundary arguments
    MK = """
do mk(code int) -> [int] {
 mut r [int] = {}
 mut c int = code
 while c > 0 {
  arrays.append(r, c % 5 - 2)
  c = c / 5
 }
 return r
}
do show(a [int]) {
 println("${a} ${len(a)}")
}
do tr(x int) -> int {
 println("t${x}")
 return x * 3
}
do pos(x int) -> bool {
 println("p${x}")
 return x > 0
}
do acc(a int, x int) -> int {
 println("r${a},${x}")
 return a * 10 + x
}
"""
    def dec(code):
        r = []
        while code > 0: r.append(code % 5 - 2); code //= 5
        return r
    def st(l): return "{" + ", ".join(map(str, l)) + "}"
    def sh(l): return "%s %d" % (st(l), len(l))
    allc = ints([x for x in range(5 ** (4 if T_ else 3))] + [5**6 - 1, 5**9 + 7])
    small = ints(range(5 ** 2))
    B = ints([-2**63, -2**32, -2**31 - 1, -2, -1, 0, 1, 2, 3, 4, 5, 2**31 - 1, 2**31, 2**32, 2**32 + 1, 2**63 - 1])
    g = Grid(c, tc, imports=["arrays"], prelude=MK, part="functions", per_file=3, opt="-O0")
    def clampslice(l, a, b): a = max(a, 0); b = min(b, len(l)); return l[a:b] if a < b else []
    g.add("slice", [small, B, B], " mut a = mk(a0)\n show(arrays.slice(a, a1, a2))\n show(a)", lambda x, a, b: sh(clampslice(dec(x), a, b)) + "\n" + sh(dec(x)))
    def at(l, i): return 0 <= i < len(l)
    g.add("read", [small, B], " mut a = mk(a0)\n println(a[a1])", lambda x, i: str(dec(x)[i]) if at(dec(x), i) else PANIC)
    g.add("write", [small, B], " mut a = mk(a0)\n a[a1] = 77\n show(a)", lambda x, i: sh(dec(x)[:i] + [77] + dec(x)[i + 1:]) if at(dec(x), i) else PANIC)
    g.add("compound", [small, B], " mut a = mk(a0)\n a[a1] += 77\n show(a)", lambda x, i: sh(dec(x)[:i] + [dec(x)[i] + 77] + dec(x)[i + 1:]) if at(dec(x), i) else PANIC)
    g.add("increment", [small, B], " mut a = mk(a0)\n a[a1]++\n show(a)", lambda x, i: sh(dec(x)[:i] + [dec(x)[i] + 1] + dec(x)[i + 1:]) if at(dec(x), i) else PANIC)
    g.add("insert_at", [small, B], " mut a = mk(a0)\n arrays.insert_at(a, a1, 77)\n show(a)", lambda x, i: sh(dec(x)[:i] + [77] + dec(x)[i:]) if 0 <= i <= len(dec(x)) else PANIC)
    g.add("remove_at", [small, B], " mut a = mk(a0)\n arrays.remove_at(a, a1)\n show(a)", lambda x, i: sh(dec(x)[:i] + dec(x)[i + 1:]) if at(dec(x), i) else PANIC)
    g.add("fill", [small, ints([-2**63, -2**32, -1, 0, 1, 2, 5, 9, 70])], " mut a = mk(a0)\n arrays.fill(a, 6, a1)\n show(a)", lambda x, n: sh([6] * max(n, 0)))
    def chunks(x, n):
        l = dec(x); n = max(n, 1); return "{" + ", ".join(st(l[i:i + n]) for i in range(0, len(l), n)) + "}"
    g.add("split_every", [allc, ints([1, 2, 3, 7, 2**31 - 1, 2**31, 2**32 + 1, 2**63 - 1])], " mut a = mk(a0)\n println(\"${arrays.split_every(a, a1)}\")", chunks)
    g.add("concat", [small, small], " mut a = mk(a0)\n mut b = mk(a1)\n mut r [int] = arrays.concat(a, b)\n arrays.append(r, 9)\n show(r)\n show(a)\n show(b)", lambda x, y: "\n".join([sh(dec(x) + dec(y) + [9]), sh(dec(x)), sh(dec(y))]))
    g.add("pair", [small, small], " mut a = mk(a0)\n mut b = mk(a1)\n println(\"${arrays.pair(a, b)}\")", lambda x, y: "{" + ", ".join(st(p) for p in zip(dec(x), dec(y))) + "}")
    g.add("flatten", [small, small, small], " mut n [[int]] = {mk(a0), mk(a1), mk(a2)}\n show(arrays.flatten(n))", lambda x, y, z: sh(dec(x) + dec(y) + dec(z)))
    g.add("is_equal", [small, small], " mut a = mk(a0)\n mut b = mk(a1)\n println(arrays.is_equal(a, b))", lambda x, y: b2(dec(x) == dec(y)))
    g.add("search", [allc, ints([-2, -1, 0, 1, 2, 9])], " mut a = mk(a0)\n println(\"${arrays.contains(a, a1)} ${arrays.index_of(a, a1)} ${arrays.count(a, a1)} ${a1 in a} ${a1 not_in a} ${arrays.is_empty(a)}\")",
          lambda x, v: "%s %d %d %s %s %s" % (b2(v in dec(x)), dec(x).index(v) if v in dec(x) else -1, dec(x).count(v), b2(v in dec(x)), b2(v not in dec(x)), b2(not dec(x))))
    g.add("remove", [allc, ints([-2, -1, 0, 1, 2, 9])], " mut a = mk(a0)\n mut b [int] = copy(a)\n arrays.remove(a, a1)\n show(a)\n show(b)",
          lambda x, v: sh((lambda l: l[:l.index(v)] + l[l.index(v) + 1:] if v in l else l)(dec(x))) + "\n" + sh(dec(x)))
    g.add("folds", [allc], " mut a = mk(a0)\n println(arrays.get_sum(a))\n if len(a) > 0 {\n  println(\"${arrays.get_min(a)} ${arrays.get_max(a)} ${arrays.get_first(a)} ${arrays.get_last(a)}\")\n }\n show(a)",
          lambda x: (lambda l: "%d\n%s%s" % (sum(l), "%d %d %d %d\n" % (min(l), max(l), l[0], l[-1]) if l else "", sh(l)))(dec(x)))
    g.add("ends", [allc, ints([0, 1, 2, 3])], " mut a = mk(a0)\n mut r int = 0\n if a1 == 0 { r = arrays.get_first(a) } or a1 == 1 { r = arrays.get_last(a) } or a1 == 2 { r = arrays.remove_first(a) } otherwise { r = arrays.remove_last(a) }\n println(r)\n show(a)",
          lambda x, k: PANIC if not dec(x) else "%d\n%s" % (dec(x)[0 if k in (0, 2) else -1], sh(dec(x)[1:] if k == 2 else dec(x)[:-1] if k == 3 else dec(x))))
    g.add("reorder", [allc], " mut a = mk(a0)\n mut b [int] = copy(a)\n show(arrays.reverse(a))\n show(arrays.deduplicate(a))\n show(a)\n arrays.sort_asc(a)\n show(a)\n arrays.sort_desc(a)\n show(a)\n show(b)",
          lambda x: (lambda l: "\n".join(map(sh, [l[::-1], list(dict.fromkeys(l)), l, sorted(l), sorted(l)[::-1], l])))(dec(x)))
    def hof(x):
        l = dec(x); o = ["t%d" % v for v in l] + [sh([v * 3 for v in l])]
        o += ["p%d" % v for v in l] + [sh([v for v in l if v > 0])]
        a = 7
        for v in l: o.append("r%d,%d" % (a, v)); a = a * 10 + v
        o.append(str(a))
        r = False
        for v in l:
            o.append("p%d" % v)
            if v > 0: r = True; break
        o.append(b2(r)); r = True
        for v in l:
            o.append("p%d" % v)
            if not v > 0: r = False; break
        return "\n".join(o + [b2(r), sh(l)])
    g.add("hof", [allc], " mut a = mk(a0)\n show(arrays.map(a, ()tr))\n show(arrays.filter(a, ()pos))\n println(arrays.reduce(a, 7, ()acc))\n println(arrays.any(a, ()pos))\n println(arrays.all(a, ()pos))\n show(a)", hof)
    g.add("sum_overflow", [ints([2**63 - 1, -2**63, 2**62, -2**62, 1, -1, 0]), ints([2**63 - 1, -2**63, 2**62, -2**62, 1, -1, 0]), ints([2**62, -1, 0])],
          " mut a [int] = {a0, a1, a2}\n println(arrays.get_sum(a))",
          lambda x, y, z: SKIP if -2**63 <= x + y + z < 2**63 and not -2**63 <= x + y < 2**63 else str(x + y + z) if -2**63 <= x + y + z < 2**63 else PANIC)
    # growth: lengths around every capacity step
    g.add("growth", [ints(list(range(0, 40)) + [63, 64, 65, 127, 128, 129, 1000]), ints([0, 1, 2, 3])],
          " mut a [int] = {}\n mut b [int] = {}\n mut i int = 0\n while i < a0 {\n  if a1 == 0 { arrays.append(a, i) } or a1 == 1 { arrays.prepend(a, i) } or a1 == 2 { arrays.insert_at(a, i / 2, i) } otherwise { a = arrays.concat(a, {i}) }\n  arrays.append(b, 0 - i)\n  i++\n }\n mut s int = 0\n for_each j, x in a {\n  s = s * 7 % 1000003 + x * (j + 1)\n }\n println(\"${len(a)} ${s} ${arrays.get_sum(b)}\")",
          lambda n, k: grow(n, k))
    # mutation during iteration
    muts = ["arrays.append(a, 1)", "arrays.prepend(a, 1)", "arrays.insert_at(a, 0, 1)", "arrays.remove(a, 1)", "arrays.remove_at(a, 0)", "_ = arrays.remove_first(a)", "_ = arrays.remove_last(a)",
            "arrays.clear(a)", "arrays.fill(a, 1, 2)", "arrays.sort_asc(a)", "arrays.sort_desc(a)", "a[0] = 5", "grow(a)"]
    for i, m in enumerate(muts):
        g2 = Grid(c, tc, imports=["arrays"], prelude="do grow(&z [int]) {\n arrays.append(z, 4)\n}", part="iteration", per_file=20, opt="-O0")
        if i == 0: ITER.append(g2)
        ITER[0].add("during:" + m, [ints([0, 1, 2, 3])], f" mut a [int] = {{1, 2, 3}}\n for_each i, x in a {{\n  println(x)\n  if i == a0 {{ {m} }}\n }}\n println(\"end\")", lambda k: PANIC if k < 3 else "1\n2\n3\nend")
        ITER[0].add("after:" + m, [ints([0, 1, 2])], f" mut a [int] = {{1, 2, 3}}\n mut n int = 0\n for_each x in a {{\n  n += x\n  if a0 == 1 and x == 2 {{ break }}\n  if a0 == 2 {{ continue }}\n }}\n {m}\n println(\"${{n}} ok\")".replace(" and ", " && "),
                    lambda k: "%d ok" % (3 if k == 1 else 6))
        ITER[0].add("other:" + m, [ints([0])], f" mut b [int] = {{1, 2, 3}}\n mut a [int] = copy(b)\n for_each x in b {{\n  {m}\n  println(\"${{x}}\")\n  if len(a) == 0 {{ a = {{1}} }}\n }}\n println(\"${{b}}\")",
                    lambda k: "1\n2\n3\n{1, 2, 3}")
    # typed storage: min/max/sum/sort/first/last/equality/split/pair per element type
    for T, (V, txt) in TYPES.items():
        n = 2 if T == "bool" else 3
        for perm in itertools.product(range(n), repeat=3):
            pass
        P = f"""
do val{T}(k int) -> {T} {{
 when k {{
  is 0 {{ return {V[0]} }}
  is 1 {{ return {V[1]} }}
  default {{ return {V[2]} }}
 }}
 return {V[2]}
}}
"""
        K = ints(range(n))
        def show(l, txt=txt): return "{" + ", ".join(txt[k] for k in l) + "}"
        gt = Grid(c, tc, imports=["arrays"], prelude=P, part="typed", per_file=8, opt="-O0")
        mkl = f" mut a [{T}] = {{val{T}(a0), val{T}(a1), val{T}(a2)}}\n"
        def tx(l, show=show):
            return "\n".join([show(sorted(l)), show(sorted(l)[::-1]), show(l[::-1]), show(list(dict.fromkeys(l))), show([l[0]]), show([l[-1]]), "{%s, %s}" % (show(l[:2]), show(l[2:])),
                              "{%s, %s, %s}" % tuple(show([x, x]) for x in l), show(l + l), "true"])
        gt.add("typed[%s]" % T, [K] * 3, mkl + f" mut s [{T}] = copy(a)\n arrays.sort_asc(s)\n println(\"${{s}}\")\n arrays.sort_desc(s)\n println(\"${{s}}\")\n println(\"${{arrays.reverse(a)}}\")\n println(\"${{arrays.deduplicate(a)}}\")\n"
               f" mut f [{T}] = {{arrays.get_first(a)}}\n println(\"${{f}}\")\n mut l [{T}] = {{arrays.get_last(a)}}\n println(\"${{l}}\")\n println(\"${{arrays.split_every(a, 2)}}\")\n println(\"${{arrays.pair(a, a)}}\")\n"
               f" mut nn [[{T}]] = {{a, a}}\n println(\"${{arrays.flatten(nn)}}\")\n println(arrays.is_equal(a, copy(a)))", lambda *l, tx=tx: tx(list(l)))
        gt.add("equal[%s]" % T, [K] * 4, f" mut a [{T}] = {{val{T}(a0), val{T}(a1)}}\n mut b [{T}] = {{val{T}(a2), val{T}(a3)}}\n println(\"${{arrays.is_equal(a, b)}} ${{val{T}(a2) in a}} ${{val{T}(a2) not_in b}}\")",
               lambda p, q, r, s: "%s %s false" % (b2((p, q) == (r, s)), b2(r in (p, q))))
        gt.add("search[%s]" % T, [K] * 4, mkl + f" mut x {T} = val{T}(a3)\n println(\"${{arrays.contains(a, x)}} ${{arrays.index_of(a, x)}} ${{arrays.count(a, x)}} ${{x in a}}\")\n arrays.remove(a, x)\n println(\"${{a}}\")",
               lambda p, q, r, v, show=show: (lambda l: "%s %d %d %s\n%s" % (b2(v in l), l.index(v) if v in l else -1, l.count(v), b2(v in l), show((lambda z: (z.remove(v) if v in z else None, z)[1])(list(l)))))([p, q, r]))
        gt.add("store[%s]" % T, [K] * 4, mkl + f" a[1] = val{T}(a3)\n arrays.insert_at(a, 0, a[2])\n arrays.prepend(a, a[1])\n arrays.append(a, a[0])\n println(\"${{a}}\")",
               lambda p, q, r, v, show=show: show((lambda m: (lambda z: [z[1]] + z + [z[1]])([m[2]] + m))([p, v, r])))
        if T not in ("bool", "string", "char"):
            vals = {"int": [-5, 2, 7000000000], "float": [-1.5, .25, 3.0], "uint": [1, 9, 2**63 + 4], "byte": [0, 7, 200], "i8": [-100, 3, 100], "u32": [1, 70000, 4000000000], "f32": [-1.5, .5, 2.0]}[T]
            def fold(p, q, r, T=T, vals=vals):
                l = [vals[k] for k in (p, q, r)]
                s = sum(l)
                if T == "uint" and s >= 2**64: return PANIC
                return "%s %s %s" % (s, min(l), max(l))
            gt.add("fold[%s]" % T, [K] * 3, mkl + " println(\"${arrays.get_sum(a)} ${arrays.get_min(a)} ${arrays.get_max(a)}\")", fold)
        TYPED.append(gt)
    # values that agree in part of their representation, in every order
    M = 2**63
    wide = {"int": [-M, -2**32 - 1, -2**32, -257, -1, 0, 1, 256, 257, 2**31, 2**32, 2**32 + 1, M - 1],
            "uint": [0, 1, 256, 257, 2**32, 2**32 + 1, M - 1, M, M + 1, 2**64 - 1],
            "i16": [-32768, -257, -256, -1, 0, 1, 255, 256, 257, 32767],
            "u32": [0, 1, 65535, 65536, 65537, 2**31 - 1, 2**31, 2**32 - 1],
            "byte": [0, 1, 127, 128, 129, 254, 255], "i64": [-M, -1, 0, 2**32, M - 1]}
    gw = Grid(c, tc, imports=["arrays"], part="wide_values", per_file=2, opt="-O1")
    for T, V in wide.items():
        def orc(p, q, r, v):
            l = [p, q, r]; z = list(l)
            if v in z: z.remove(v)
            f = lambda m: "{" + ", ".join(map(str, m)) + "}"
            return "\n".join([f(sorted(l)), f(sorted(l)[::-1]), "%d %d" % (min(l), max(l)), f(list(dict.fromkeys(l))), "%s %d %d" % (b2(v in l), l.index(v) if v in l else -1, l.count(v)), f(z), b2(v == p and q == r)])
        gw.add("wide[%s]" % T, [ints(V, T)] * (4 if c.thorough or len(V) < 9 else 3) + ([] if c.thorough or len(V) < 9 else [ints(V[::3] + V[1:2], T)]),
               f" mut a [{T}] = {{a0, a1, a2}}\n mut s [{T}] = copy(a)\n arrays.sort_asc(s)\n println(\"${{s}}\")\n arrays.sort_desc(s)\n println(\"${{s}}\")\n println(\"${{arrays.get_min(a)}} ${{arrays.get_max(a)}}\")\n println(\"${{arrays.deduplicate(a)}}\")\n println(\"${{arrays.contains(a, a3)}} ${{arrays.index_of(a, a3)}} ${{arrays.count(a, a3)}}\")\n mut x [{T}] = {{a0, a1}}\n mut y [{T}] = {{a3, a2}}\n arrays.remove(a, a3)\n println(\"${{a}}\")\n println(arrays.is_equal(x, y))",
               orc)
    # every order of up to 6 (7) elements, and long arrays of a fixed pattern
    perms = [p for n in range(7 if not c.thorough else 8) for p in itertools.product(range(3), repeat=n)] + list(itertools.permutations(range(6 if not c.thorough else 7)))
    gw.add("sort_all", [strings(["".join(map(str, p)) for p in perms])], " mut a [int] = {}\n for_each ch in a0 { arrays.append(a, int(ch) - 48) }\n arrays.sort_asc(a)\n println(\"${a}\")\n arrays.sort_desc(a)\n println(\"${a}\")\n mut d [int] = arrays.deduplicate(a)\n println(\"${d}\")",
           lambda x: "\n".join("{" + ", ".join(m) + "}" for m in (sorted(x), sorted(x)[::-1], list(dict.fromkeys(sorted(x)[::-1])))))
    gw.add("sort_long", [ints([0, 1, 2, 7, 8, 9, 31, 32, 33, 64, 100, 1000]), ints([1, 7, 37, 1009])], " mut a [int] = {}\n for i in range(0, a0) { arrays.append(a, i * a1 % 101) }\n arrays.sort_asc(a)\n println(\"${a}\")",
           lambda n, m: "{" + ", ".join(map(str, sorted(i * m % 101 for i in range(n)))) + "}")
    TYPED.append(gw)
    c.sample({"history": [s for s, _ in ops("int", TYPES["int"][0])][:12]})
    g.go()
    for x in ITER: x.go()
    with ThreadPoolExecutor(8) as ex: list(ex.map(lambda x: x.go(), TYPED))
    # leaving a for_each by return, or_return or break lets the array be modified again; replacing it inside does not change what is visited
    B = Batch(c, tc, imports=["arrays"], part="programs", prelude="""
mut ga [int] = {1, 2, 3}
const S struct {
 a [int]
}
do chk(bad bool) -> (int, Error) {
 if bad { return 0, error("x") }
 return 1, nil
}
do find(&a [int], w int) -> int {
 for_each x in a { if x == w { return x * 10 } }
 return -1
}
do find2(&a [int], w int) -> int {
 for_each x in a { for_each y in a { if x + y == w { return x * 10 + y } } }
 return -1
}
do findg(w int) -> int {
 for_each x in ga { if x == w { return x * 10 } }
 return -1
}
do finds(&s S, w int) -> int {
 for_each x in s.a { if x == w { return x * 10 } }
 return -1
}
do findo(&a [int], w int) -> (int, Error) {
 for_each x in a {
  mut r = chk(x == w) or_return
  if r > 5 { return r, nil }
 }
 return -1, nil
}
""")
    D = " mut a [int] = {1, 2, 3}\n"
    MODS = [("arrays.append(a, 4)", [1, 2, 3, 4]), ("arrays.remove_at(a, 0)", [2, 3]), ("arrays.clear(a)", []), ("arrays.prepend(a, 9)", [9, 1, 2, 3]), ("arrays.insert_at(a, 1, 7)", [1, 7, 2, 3]), ("_ = arrays.remove_last(a)", [1, 2])]
    for mod, res in MODS:
        t = "{" + ", ".join(map(str, res)) + "}"
        for w in (1, 2, 3, 9):
            B.add("return:%s:%d" % (mod, w), D + " println(find(a, %d))\n %s\n println(a)" % (w, mod), "%d\n%s" % (w * 10 if w < 4 else -1, t))
            B.add("or_return:%s:%d" % (mod, w), D + " mut r, e = findo(a, %d)\n println(\"${r} ${e == nil}\")\n %s\n println(a)" % (w, mod), "%s\n%s" % ("0 false" if w < 4 else "-1 true", t))
            B.add("nested:%s:%d" % (mod, w), D + " println(find2(a, %d))\n %s\n println(a)" % (w, mod), "%d\n%s" % ({1: -1, 2: 11, 3: 12, 9: -1}[w], t))
            B.add("break:%s:%d" % (mod, w), D + " for_each x in a { if x == %d { break } }\n %s\n println(a)" % (w, mod), t)
    for w in (1, 3, 8):
        B.add("return:global:%d" % w, " ga = {1, 2, 3}\n println(findg(%d))\n arrays.append(ga, 4)\n println(ga)" % w, "%d\n{1, 2, 3, 4}" % (w * 10 if w < 4 else -1))
        B.add("return:field:%d" % w, " mut s S = S{a: {1, 2, 3}}\n println(finds(s, %d))\n arrays.append(s.a, 4)\n println(s.a)" % w, "%d\n{1, 2, 3, 4}" % (w * 10 if w < 4 else -1))
    for rep in ("{}", "{9}", "{7, 8, 9, 10}"):
        B.add("replace:" + rep, D + " for_each x in a {\n  println(x)\n  a = %s\n }\n println(a)\n arrays.append(a, 5)\n println(len(a))" % rep, "1\n2\n3\n%s\n%d" % (rep, rep.count(",") + 2 if rep != "{}" else 1))
    B.go()
HIST = []; ITER = []; TYPED = []
def grow(n, k):
    a = []
    for i in range(n):
        if k == 1: a.insert(0, i)
        elif k == 2: a.insert(i // 2, i)
        else: a.append(i)
    s = 0
    for j, x in enumerate(a): s = s * 7 % 1000003 + x * (j + 1)
    return "%d %d %d" % (len(a), s, -n * (n - 1) // 2)
main("C09", body)
