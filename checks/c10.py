"""C10: maps behave as dictionaries under every operation history."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from grid import *

def b2(x): return "true" if x else "false"
def fnv(b):
    h = 14695981039346656037
    for c in b: h = ((h ^ c) * 1099511628211) & ((1 << 64) - 1)
    return h
def collide(enc, pool, n=4, cap=8):
    """n keys of the pool that start probing at one slot of the smallest table, when there are such"""
    g = {}
    for k in pool: g.setdefault(fnv(enc(k)) % cap, []).append(k)
    return max(g.values(), key=len)[:n]
i8b = lambda k: (k & (2**64 - 1)).to_bytes(8, "little")
KI = collide(i8b, range(-3, 200))
KS = collide(lambda s: s.encode(), [a + b for a in "abcdefgh" for b in ["", "x", "y", "z", "ab"]])
# key types: (four literals, their text)
KEYS = {
    "int": ([str(k) for k in KI], [str(k) for k in KI]),
    "string": (['"%s"' % s for s in KS[:3]] + ['""'], ['%s' % s for s in KS[:3]] + ['']),
    "uint": (["cast(1, uint)", "cast(9223372036854775807, uint) + cast(1, uint)", "cast(0, uint)", "cast(9223372036854775807, uint) + cast(9223372036854775807, uint)"],
             ["1", "9223372036854775808", "0", "18446744073709551614"]),
    "char": (["'a'", "'b'", "'i'", "char(233)"], ["a", "b", "i", "é"]),
    "byte": (["cast(0, byte)", "cast(255, byte)", "cast(128, byte)", "cast(7, byte)"], ["0", "255", "128", "7"]),
    "float": (["0.0", "-1.5", "1.5", "1234567.25"], ["0.0", "-1.5", "1.5", "1234567.25"]),
    "bool": (["true", "false"], ["true", "false"]),
}
# value types: (three literals, their text)
VALS = {
    "int": (["-1", "20", "9223372036854775806"], ["-1", "20", "9223372036854775806"]),
    "string": (['"p"', '""', '"q${1 + 1}"'], ["p", "", "q2"]),
    "float": (["0.5", "-2.25", "100.0"], ["0.5", "-2.25", "100.0"]),
    "[int]": (["{1}", "{}", "{2, 3}"], ["{1}", "{}", "{2, 3}"]),
    "P": (['P{x: 1, s: "a"}', 'P{x: 2, s: "b"}', 'P{x: 3, s: ""}'], ["1a", "2b", "3"]),
    "bool": (["true", "false", "true"], ["true", "false", "true"]),
    "char": (["'x'", "char(223)", "'z'"], ["x", "ß", "z"]),
    "byte": (["cast(1, byte)", "cast(255, byte)", "cast(3, byte)"], ["1", "255", "3"]),
    "i8": (["cast(-128, i8)", "cast(5, i8)", "cast(127, i8)"], ["-128", "5", "127"]),
    "u64": (["cast(1, u64)", "cast(9223372036854775807, u64) + cast(9, u64)", "cast(3, u64)"], ["1", "9223372036854775816", "3"]),
    "map[string:int]": (['{"k": 1}', '{:}', '{"z": 2}'], ['{"k": 1}', '{:}', '{"z": 2}']),
}
DEF = {"int": "77", "string": '"dd"', "float": "7.5", "bool": "false", "char": "'d'", "byte": "cast(9, byte)", "i8": "cast(9, i8)", "u64": "cast(9, u64)",
       "[int]": "{9}", "P": 'P{x: 9, s: "d"}'}
DEFT = {"int": "77", "string": "dd", "float": "7.5", "bool": "false", "char": "d", "byte": "9", "i8": "9", "u64": "9", "[int]": "{9}", "P": "9d"}

def sh(V, e): return "${%s.x}${%s.s}" % (e, e) if V == "P" else "${%s}" % e
def opsof(K, V):
    kl, kt = KEYS[K]; vl, vt = VALS[V]
    O = []
    n = len(kl)
    def put(d, k, v): d = dict(d); d[k] = v; return d
    def rem(d, k): d = dict(d); d.pop(k, None); return d
    for k in range(n): O.append(("m[%s] = %s" % (kl[k], vl[k % 3]), lambda d, k=k: put(d, k, k % 3)))
    O.append(("m[%s] = %s" % (kl[0], vl[2]), lambda d: put(d, 0, 2)))
    for k in range(min(n, 3)): O.append(("maps.remove_key(m, %s)" % kl[k], lambda d, k=k: rem(d, k)))
    O.append(("maps.clear(m)", lambda d: {}))
    if V != "map[string:int]":
        O.append(("mut other map[%s:%s] = {%s: %s%s}\n   m = maps.merge(m, other)" % (K, V, kl[1], vl[2], ", %s: %s" % (kl[3], vl[0]) if n > 3 else ""), lambda d: {**d, 1: 2, 3: 0} if n > 3 else {**d, 1: 2}))
    O.append(("m = copy(m)", lambda d: d))
    if V == "int":
        O.append(("m[%s] += 2" % kl[0], None)); O.append(("m[%s]++" % kl[1], None))
    return O

def canon(out):
    r = []; buf = []
    for l in out.split("\n"):
        if l.startswith("~"): buf.append(l)
        else: r += sorted(buf); buf = []; r.append(l)
    return "\n".join(r + sorted(buf))

def history_grid(c, tc, K, V, depth):
    kl, kt = KEYS[K]; vl, vt = VALS[V]
    O = opsof(K, V)
    sw = "\n".join("  is %d {\n   %s\n  }" % (i, s) for i, (s, _) in enumerate(O))
    obs = []
    for i, k in enumerate(kl):
        god = ""
        if V in DEF:
            god = "  mut gd%d %s = maps.get_or_default(m, %s, %s)\n  println(\"%s\")\n" % (i, V, k, DEF[V], sh(V, "gd%d" % i))
        obs.append("  println(\"${maps.has_key(m, %s)} ${%s in m} ${%s !in m}\")\n%s" % (kl[i].replace('"', '\\"') if 0 else k, k, k, god) if '"' not in k else
                   "  mut q%d string = %s\n  println(\"${maps.has_key(m, q%d)} ${q%d in m} ${q%d !in m}\")\n%s" % (i, k, i, i, i, god))
    scalar = V not in ("[int]", "P", "map[string:int]")
    vals = "  mut vs [%s] = maps.get_values(m)\n  for_each v in vs { println(\"~v %s\") }\n" % (V, sh(V, "v")) if V != "map[string:int]" else ""
    cv = "\n".join("  println(maps.contains_value(m, %s))" % vl[i] for i in range(2)) if scalar else ""
    prelude = f"""
const P struct {{
 x int
 s string
}}
do step(&m map[{K}:{V}], op int) {{
 when op {{
{sw}
  default {{ }}
 }}
}}
do obs(m map[{K}:{V}]) {{
  println("#${{len(m)}} ${{maps.is_empty(m)}}")
{chr(10).join(obs)}
{cv}
  println("it")
  for_each k, v in m {{ println("~${{k}}={sh(V, 'v')}") }}
  println("k")
  mut ks [{K}] = maps.get_keys(m)
  for_each k in ks {{ println("~k ${{k}}") }}
  println("s")
  for_each k in m {{ println("~s ${{k}}") }}
  println("v")
{vals}  println("e")
}}"""
    code = [f" mut m map[{K}:{V}] = {{:}}"]
    for d in range(depth): code.append(f" step(m, a{d})\n obs(m)")
    def text(d):
        o = ["#%d %s" % (len(d), b2(not d))]
        vtx = lambda v: vt[v] if v < 10 else str(v - 1000)
        for k in range(len(kl)):
            o.append("%s %s %s" % (b2(k in d), b2(k in d), b2(k not in d)))
            if V in DEF: o.append(vtx(d[k]) if k in d else DEFT[V])
        if scalar:
            for i in range(2): o.append(b2(any(vtx(v) == vt[i] for v in d.values())))
        o.append("it"); o += ["~%s=%s" % (kt[k], vtx(v)) for k, v in d.items()]
        o.append("k"); o += ["~k " + kt[k] for k in d]
        o.append("s"); o += ["~s " + kt[k] for k in d]
        o.append("v")
        if V != "map[string:int]": o += ["~v " + vtx(v) for v in d.values()]
        o.append("e")
        return o
    cache = {}
    def apply(d, op):
        f = O[op][1]
        if f: return f(d)
        k = 0 if "+= 2" in O[op][0] else 1
        if k not in d: return PANIC
        v = d[k]; v = (int(vt[v]) if v < 10 else v - 1000) + (2 if k == 0 else 1)
        if v > 2**63 - 1: return PANIC
        d = dict(d); d[k] = 1000 + v; return d
    def orc(*seq):
        d = {}; out = []
        for i, op in enumerate(seq):
            d = apply(d, op)
            if d is PANIC: return PANIC if i == len(seq) - 1 else SKIP
            kk = tuple(sorted(d.items()))
            if kk not in cache: cache[kk] = "\n".join(text(d))
            out.append(cache[kk])
        e = canon("\n".join(out))
        def pred(got): return canon(got.decode("utf-8", "replace")) == e
        pred.__doc__ = e[-300:]
        return pred
    g = Grid(c, tc, imports=["maps"], prelude=prelude, part="histories", per_file=1, chunk=1500)
    g.add("history[%s:%s]" % (K, V), [ints(range(len(O)))] * depth, "\n".join(code), orc,
          key=lambda *s: "history[%s:%s] %s" % (K, V, "; ".join(O[i][0] for i in s)))
    return g

def body(c):
    fast = Toolchain(c.tmp, name="tc_fast")
    tc = Toolchain(c.tmp, san=True)
    T_ = c.thorough
    c.rule = ("one evaluation = one operation history (or one growth pattern, one read, or one modification during iteration) executed by a compiled program and "
              "compared with a Python dict after every step; order of iteration is not compared; all histories are distinct")
    gs = []
    combos = [(k, "int") for k in KEYS] + [("string", v) for v in VALS if v != "int"] + [("int", "string"), ("int", "P"), ("int", "[int]"), ("char", "string"), ("byte", "i8"), ("float", "string")]
    for K, V in combos:
        deep = (K, V) in (("int", "int"), ("string", "int"), ("string", "string"))
        d = 3 if deep else 2
        if T_: d += 1
        gs.append(history_grid(c, fast if deep else tc, K, V, d))
    with ThreadPoolExecutor(6) as ex: list(ex.map(lambda g: g.go(), gs))

    # growth, tombstones and reinsertion: all (size, stride, offset, rounds)
    FK = {"int": "q * 8 - 40", "string": 'string(q) + ""', "uint": "cast(q, uint)", "float": "cast(q, float) / 2.0", "char": "char(q + 33)"}
    FK["string"] = '"k${q}"'
    pre = ""
    for K, e in FK.items():
        nm = K
        pre += f"""
do key_{nm}(q int) -> {K} {{
 return {e}
}}
do churn_{nm}(n int, st int, off int, rounds int) {{
 mut m map[{K}:int] = {{:}}
 for r in range(0, rounds) {{
  for q in range(0, n) {{ m[key_{nm}(q)] = q * 3 + r }}
  mut q int = off
  while q < n {{
   maps.remove_key(m, key_{nm}(q))
   q += st
  }}
 }}
 mut c map[{K}:int] = copy(m)
 mut u map[{K}:int] = maps.merge(m, c)
 for q in range(0, n) {{ if q % 2 == 0 {{ c[key_{nm}(q)] = -1 }} }}
 mut hits int = 0
 mut sum int = 0
 for q in range(0, n + 5) {{
  if maps.has_key(m, key_{nm}(q)) {{
   hits++
   sum += m[key_{nm}(q)] * (q + 1)
  }}
 }}
 mut it int = 0
 mut vs int = 0
 mut seen map[{K}:int] = {{:}}
 for_each k, v in m {{
  it++
  vs += v
  seen[k] = v
 }}
 println("${{len(m)}} ${{hits}} ${{sum}} ${{it}} ${{vs}} ${{len(seen)}} ${{len(maps.get_keys(u))}} ${{maps.is_equal(m, u)}} ${{len(c)}}")
 maps.clear(m)
 m[key_{nm}(1)] = 5
 println("${{len(m)}} ${{m[key_{nm}(1)]}} ${{maps.has_key(m, key_{nm}(0))}}")
}}"""
    def churn(n, st, off, rounds):
        m = {}
        for r in range(rounds):
            for q in range(n): m[q] = q * 3 + r
            for q in range(off, n, st): m.pop(q, None)
        cc = dict(m)
        for q in range(0, n, 2): cc[q] = -1
        return "%d %d %d %d %d %d %d true %d\n1 5 false" % (len(m), len(m), sum(v * (k + 1) for k, v in m.items()), len(m), sum(m.values()), len(m), len(m), len(cc))
    sizes = list(range(0, 120)) + [127, 128, 129, 191, 192, 193, 383, 384, 385, 1000] if T_ else [0, 1, 2, 5, 6, 7, 8, 11, 12, 13, 23, 24, 25, 47, 48, 49, 60, 96, 97, 193, 300]
    g = Grid(c, tc, imports=["maps"], prelude=pre, part="growth", per_file=1, chunk=500)
    for K in FK:
        g.add("churn_" + K, [ints(sizes), ints([1, 2, 3, 7]), ints([0, 1]), ints([1, 2, 3, 9] if T_ else [1, 4])], " churn_%s(a0, a1, a2, a3)" % K, churn)
    g.go()

    # reads of absent keys, updates in place, nested maps, aliases, iteration rules
    B = Batch(c, tc, imports=["maps", "arrays"], part="programs", prelude="""
const P struct {
 x int
 s string
}
const Q struct {
 m map[string:int]
 a [int]
}
mut gm map[string:int] = {"a": 1, "b": 2}
do find(&m map[string:int], want int) -> int {
 for_each k, v in m { if v == want { return 10 } }
 return 20
}
do findp(&m map[string:int], want int) -> (int, Error) {
 for_each k, v in m {
  mut r = chk(v == want) or_return
  if r > 100 { return 1, nil }
 }
 return 20, nil
}
do chk(bad bool) -> (int, Error) {
 if bad { return 0, error("x") }
 return 1, nil
}
do add(&m map[string:int], k string) { m[k] = 99 }
""")
    for K, (kl, kt) in KEYS.items():
        for V, (vl, vt) in VALS.items():
            if V in ("map[string:int]",): continue
            if K not in ("int", "string") and V != "int": continue
            D = " mut m map[%s:%s] = {%s: %s}\n" % (K, V, kl[0], vl[0])
            B.add("read[%s:%s]" % (K, V), D + " mut x %s = m[%s]\n println(\"%s\")" % (V, kl[0], sh(V, "x")), vt[0])
            B.add("absent[%s:%s]" % (K, V), D + " println(\"a\")\n mut x %s = m[%s]\n println(\"%s\")" % (V, kl[1], sh(V, "x")), "a", panic=True)
            B.add("absent-removed[%s:%s]" % (K, V), D + " maps.remove_key(m, %s)\n println(\"a\")\n mut x %s = m[%s]\n println(\"%s\")" % (kl[0], V, kl[0], sh(V, "x")), "a", panic=True)
            B.add("absent-empty[%s:%s]" % (K, V), " mut m map[%s:%s] = {:}\n mut x %s = m[%s]\n println(\"%s\")" % (K, V, V, kl[0], sh(V, "x")), "", panic=True)
            B.add("lit[%s:%s]" % (K, V), " mut m map[%s:%s] = {%s: %s, %s: %s}\n println(len(m))\n mut x %s = m[%s]\n println(\"%s\")" % (K, V, kl[0], vl[0], kl[1], vl[1], V, kl[1], sh(V, "x")), "2\n" + vt[1])
    MODS = [("insert", 'm["new"] = 5'), ("remove", 'maps.remove_key(m, "a")'), ("clear", "maps.clear(m)"), ("param", 'add(m, "new")')]
    for form in ("for_each k, v in m", "for_each k in m"):
        for nm, mod in MODS:
            for where in ("%s", "if len(m) > 0 { %s }", "for i in range(0, 1) { %s }", "for_each z in m { %s }"):
                w = where % mod
                D = ' mut m map[string:int] = {"a": 1, "b": 2, "c": 3}\n'
                B.add("iter:%s:%s:%s" % (form, nm, where), D + ' println("s")\n %s {\n  %s\n }\n println("no")' % (form, w), "s", panic=True, code="P0035")
            B.add("after:%s:%s" % (form, nm), D + ' %s { println("~") }\n %s\n println(len(m))' % (form, mod), "~\n~\n~\n" + {"insert": "4", "param": "4", "remove": "2", "clear": "0"}[nm])
            B.add("break:%s:%s" % (form, nm), D + ' %s { break }\n %s\n println(len(m))' % (form, mod), {"insert": "4", "param": "4", "remove": "2", "clear": "0"}[nm])
            B.add("cont:%s:%s" % (form, nm), D + ' %s { continue }\n %s\n println(len(m))' % (form, mod), {"insert": "4", "param": "4", "remove": "2", "clear": "0"}[nm])
    D = ' mut m map[string:int] = {"a": 1, "b": 2, "c": 3}\n'
    for w in (1, 2, 3, 7):
        B.add("return-in-loop:%d" % w, D + ' println(find(m, %d))\n m["n"] = 1\n maps.remove_key(m, "a")\n println(len(m))' % w, "%d\n3" % (10 if w < 4 else 20))
        B.add("or_return-in-loop:%d" % w, D + ' mut r, e = findp(m, %d)\n println("${r} ${e == nil}")\n m["n"] = 1\n println(len(m))' % w, "%s\n4" % ("0 false" if w < 4 else "20 true"))
    B.add("return-global", ' println(find(gm, 2))\n gm["z"] = 5\n println(len(gm))', "10\n3")
    B.add("field-iter", ' mut q Q = Q{m: {"a": 1}, a: {1, 2}}\n println("s")\n for_each k, v in q.m { q.m["b"] = 2 }', "s", panic=True)
    B.add("field-iter-clear", ' mut q Q = Q{m: {"a": 1}, a: {1, 2}}\n println("s")\n for_each k, v in q.m { maps.clear(q.m) }', "s", panic=True)
    B.add("field-after", ' mut q Q = Q{m: {"a": 1}, a: {1, 2}}\n for_each k, v in q.m { println(k) }\n q.m["b"] = 2\n println(len(q.m))', "a\n2")
    B.add("iter-other", D + ' mut n map[string:int] = {:}\n for_each k, v in m { n[k] = v + 1 }\n println("${len(n)} ${n["a"]} ${n["c"]}")'.replace('n["a"]', 'n[ka]').replace('n["c"]', 'n[kc]').replace(" mut n", ' mut ka string = "a"\n mut kc string = "c"\n mut n'), "3 2 4")
    B.add("iter-replace", D + ' mut s int = 0\n for_each k, v in m {\n  s += v\n  m = {:}\n }\n println("${s} ${len(m)}")\n m["k"] = 4\n println(len(m))', "6 0\n1")
    B.add("nested", ' mut m map[string:map[string:int]] = {:}\n m["a"] = {"x": 1}\n m["b"] = {"y": 2}\n mut i map[string:int] = m["a"]\n println("${len(m)} ${len(i)} ${i}")\n maps.remove_key(m, "a")\n println(len(m))', '2 1 {"x": 1}\n1')
    B.add("copy-independent", D + ' mut n map[string:int] = copy(m)\n n["a"] = 100\n maps.remove_key(n, "b")\n m["q"] = 9\n println("${len(m)} ${len(n)}")\n println(m["a"])\n println(n["a"])', "4 2\n1\n100")
    B.add("merge-independent", D + ' mut e map[string:int] = {"a": 50, "z": 60}\n mut n map[string:int] = maps.merge(m, e)\n n["b"] = 0\n println("${len(m)} ${len(e)} ${len(n)}")\n println(m["a"])\n println(m["b"])\n println(n["a"])\n println(e["a"])', "3 2 4\n1\n2\n50\n50")
    B.add("float-zero", ' mut m map[float:int] = {0.0: 1}\n mut z float = -0.0\n println(m[z])\n m[z] = 5\n println(len(m))', "1\n1")
    B.add("contains-float-zero", ' mut m map[string:float] = {"a": 0.0}\n mut z float = -0.0\n println(maps.contains_value(m, z))\n mut n map[string:float] = {"a": z}\n println(maps.is_equal(m, n))', "true\ntrue")
    B.add("default-evaluated-once", ' mut m map[string:int] = {"a": 1}\n println(maps.get_or_default(m, "a", tick()))\n println(maps.get_or_default(m, "b", tick()))', "t\n1\nt\n7", decls="")
    B.prelude += '\ndo tick() -> int {\n println("t")\n return 7\n}\n'
    vals = ["1", "2"]
    for a in ({}, {"a": 1}, {"a": 2}, {"b": 1}, {"a": 1, "b": 2}, {"b": 2, "a": 1}, {"a": 1, "b": 1}):
        for b in ({}, {"a": 1}, {"a": 2}, {"b": 1}, {"b": 2, "a": 1}, {"a": 1, "c": 2}):
            for V in ("int", "string", "float", "byte", "bool", "char"):
                f = {"int": str, "string": lambda v: '"v${%d}"' % v, "float": lambda v: "%d.5" % v, "byte": lambda v: "cast(%d, byte)" % v, "bool": lambda v: b2(v == 1), "char": lambda v: "'%d'" % v}[V]
                lit = lambda d: "{%s}" % ", ".join('"%s": %s' % (k, f(v)) for k, v in d.items()) if d else "{:}"
                B.add("eq:%s:%s:%s" % (V, a, b), " mut a map[string:%s] = %s\n mut b map[string:%s] = %s\n println(maps.is_equal(a, b))" % (V, lit(a), V, lit(b)), b2(a == b))
    B.go()

if __name__ == "__main__": main("C10", body)
