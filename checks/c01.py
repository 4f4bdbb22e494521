"""C01: fixed-width integer arithmetic is exact or panics."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

TYPES = {"i8": (-2**7, 2**7-1), "i16": (-2**15, 2**15-1), "i32": (-2**31, 2**31-1), "i64": (-2**63, 2**63-1),
         "int": (-2**63, 2**63-1), "u8": (0, 2**8-1), "u16": (0, 2**16-1), "u32": (0, 2**32-1),
         "u64": (0, 2**64-1), "uint": (0, 2**64-1), "byte": (0, 255)}
SKIP = "either"
OPS = ["+", "-", "*", "/", "%"]

def lattice(T, thorough):
    lo, hi = TYPES[T]
    s = {0, 1, 2, 3, 7, 10, hi, hi-1, hi//2, hi//2+1, int(hi**.5), int(hi**.5)+1, lo, lo+1, -1, -2, -3, -7, lo//2, lo//2-1, -int(hi**.5)-1}
    if thorough:
        s |= {hi-2, hi//3, hi//3+1, lo//3, lo+2, 100, -100, 16, 255, 256, 2**31, 2**32, 2**31-1, 2**32-1, -2**31, -2**31-1, 13, -13}
    return sorted(v for v in s if lo <= v <= hi)

def ev(op, a, b, T):
    lo, hi = TYPES[T]
    if op == "%" and a == lo < 0 and b == -1: return SKIP   # 0, or the panic the runtime documents for it
    if op in "/%":
        if b == 0: return None
        q = abs(a) // abs(b); q = -q if (a < 0) != (b < 0) else q
        r = q if op == "/" else a - q * b
        # the quotient min/-1 does not fit; its remainder is mathematically 0
        if op == "%" : return r
    else:
        r = a + b if op == "+" else a - b if op == "-" else a * b
    return r if lo <= r <= hi else None

# place forms: (name, code) printing the result; A B operand variables of type T
def forms(T):
    F = []
    for op in OPS:
        F.append(("expr", op, f"mut r {T} = a {op} b\n println(r)"))
        F.append(("direct", op, f"println(a {op} b)"))
        F.append(("interp", op, "println(\"${a %s b}\")" % op))
        F.append(("ret", op, f"println(ret_{T}_{OPS.index(op)}(a, b))"))
        F.append(("arg", op, f"println(id_{T}(a {op} b))"))
        F.append(("assign", op, f"mut x {T} = a\n x = x {op} b\n println(x)"))
        F.append(("fieldexpr", op, f"mut s S_{T} = S_{T}{{f: a, g: b}}\n mut r {T} = s.f {op} s.g\n println(r)"))
        F.append(("elemexpr", op, f"mut v [{T}] = {{a, b}}\n mut r {T} = v[0] {op} v[1]\n println(r)"))
        F.append(("mapexpr", op, f"mut m [string:{T}] = {{\"p\": a, \"q\": b}}\n mut r {T} = m[\"p\"] {op} m[\"q\"]\n println(r)"))
        F.append(("ptrexpr", op, f"mut x {T} = a\n mut y {T} = b\n mut p ^{T} = addr(x)\n mut q ^{T} = addr(y)\n mut r {T} = p^ {op} q^\n println(r)"))
        F.append(("mixexpr", op, f"mut v [{T}] = {{b}}\n mut s S_{T} = S_{T}{{f: a, g: z0}}\n println(s.f {op} v[0])"))
        F.append(("nested", op, f"mut z {T} = 0\n mut r {T} = (a + z) {op} (b - z)\n println(r)"))
        F.append(("cond", op, f"if a {op} b == a {{\n println(\"same\")\n }} otherwise {{\n println(\"diff\")\n }}"))
        F.append(("cvar", op, f"mut x {T} = a\n x {op}= b\n println(x)"))
        F.append(("cfield", op, f"mut s S_{T} = S_{T}{{f: a, g: z0}}\n s.f {op}= b\n println(s.f)"))
        F.append(("cnested", op, f"mut n N_{T} = N_{T}{{s: S_{T}{{f: a, g: z0}}}}\n n.s.f {op}= b\n println(n.s.f)"))
        F.append(("celem", op, f"mut v [{T}] = {{0, a, 0}}\n v[1] {op}= b\n println(v[1])"))
        F.append(("cmatrix", op, f"mut v [[{T}]] = {{{{a}}, {{0}}}}\n v[0][0] {op}= b\n println(v[0][0])"))
        F.append(("celemfield", op, f"mut v [S_{T}] = {{S_{T}{{f: a, g: z0}}}}\n v[0].f {op}= b\n println(v[0].f)"))
        F.append(("cfieldelem", op, f"mut s A_{T} = A_{T}{{v: {{a, 0}}}}\n s.v[0] {op}= b\n println(s.v[0])"))
        F.append(("cmap", op, f"mut m [string:{T}] = {{\"k\": a}}\n m[\"k\"] {op}= b\n println(m[\"k\"])"))
        F.append(("cmapint", op, f"mut m [int:{T}] = {{5: a}}\n m[5] {op}= b\n println(m[5])"))
        F.append(("cptr", op, f"mut x {T} = a\n mut p ^{T} = addr(x)\n p^ {op}= b\n println(x)"))
        F.append(("cptrfield", op, f"mut p = new(S_{T})\n p.f = a\n p.f {op}= b\n println(p.f)"))
        F.append(("cparam", op, f"mut x {T} = a\n par_{T}_{OPS.index(op)}(x, b)\n println(x)"))
        F.append(("cparamfield", op, f"mut s S_{T} = S_{T}{{f: a, g: z0}}\n par_{T}_{OPS.index(op)}(s.f, b)\n println(s.f)"))
        F.append(("cglobal", op, f"g_{T} = a\n g_{T} {op}= b\n println(g_{T})"))
        F.append(("cloop", op, f"mut x {T} = a\n for i in range(0, 1) {{\n x {op}= b\n }}\n println(x)"))
        F.append(("celemloop", op, f"mut v [{T}] = {{a}}\n for i in range(0, 1) {{\n v[i] {op}= b\n }}\n println(v[0])"))
        F.append(("cmaploop", op, f"mut m [string:{T}] = {{\"k\": a}}\n for i in range(0, 1) {{\n m[\"k\"] {op}= b\n }}\n println(m[\"k\"])"))
    return F
def uforms(T):
    F = []
    for op, d in (("++", 1), ("--", -1)):
        F.append(("var", op, f"mut x {T} = a\n x{op}\n println(x)"))
        F.append(("field", op, f"mut s S_{T} = S_{T}{{f: a, g: z0}}\n s.f{op}\n println(s.f)"))
        F.append(("elem", op, f"mut v [{T}] = {{0, a, 0}}\n v[1]{op}\n println(v[1])"))
        F.append(("matrix", op, f"mut v [[{T}]] = {{{{a}}, {{0}}}}\n v[0][0]{op}\n println(v[0][0])"))
        F.append(("elemfield", op, f"mut v [S_{T}] = {{S_{T}{{f: a, g: z0}}}}\n v[0].f{op}\n println(v[0].f)"))
        F.append(("fieldelem", op, f"mut s A_{T} = A_{T}{{v: {{a, 0}}}}\n s.v[0]{op}\n println(s.v[0])"))
        F.append(("map", op, f"mut m [string:{T}] = {{\"k\": a}}\n m[\"k\"]{op}\n println(m[\"k\"])"))
        F.append(("ptrfield", op, f"mut p = new(S_{T})\n p.f = a\n p.f{op}\n println(p.f)"))
        F.append(("param", op, f"mut x {T} = a\n upar_{T}_{0 if d > 0 else 1}(x)\n println(x)"))
        F.append(("global", op, f"g_{T} = a\n g_{T}{op}\n println(g_{T})"))
        F.append(("loop", op, f"mut x {T} = a\n for i in range(0, 1) {{\n x{op}\n }}\n println(x)"))
    if TYPES[T][0] < 0:
        F.append(("neg", "-", f"mut r {T} = -a\n println(r)"))
        F.append(("negdirect", "-", "println(-a)"))
        F.append(("negret", "-", f"println(neg_{T}(a))"))
        F.append(("negfield", "-", f"mut s S_{T} = S_{T}{{f: a, g: z0}}\n mut r {T} = -s.f\n println(r)"))
        F.append(("negelem", "-", f"mut v [{T}] = {{a}}\n println(-v[0])"))
        F.append(("negexpr", "-", f"mut z {T} = 0\n println(-(a + z))"))
    return F

def prelude(T, lat):
    s = [f"mut g_{T} {T} = 0",
         f"const S_{T} struct {{\n f {T}\n g {T}\n}}", f"const N_{T} struct {{\n s S_{T}\n}}", f"const A_{T} struct {{\n v [{T}]\n}}",
         f"do id_{T}(x {T}) -> {T} {{\n return x\n}}"]
    for i, op in enumerate(OPS):
        s.append(f"do ret_{T}_{i}(a {T}, b {T}) -> {T} {{\n return a {op} b\n}}")
        s.append(f"do par_{T}_{i}(&a {T}, b {T}) {{\n a {op}= b\n}}")
    s.append(f"do upar_{T}_0(&a {T}) {{\n a++\n}}\ndo upar_{T}_1(&a {T}) {{\n a--\n}}")
    if TYPES[T][0] < 0: s.append(f"do neg_{T}(a {T}) -> {T} {{\n return -a\n}}")
    s.append(f"do val(k int) -> {T} {{\n mut v [{T}] = {{{', '.join(map(str, lat))}}}\n return v[k]\n}}")
    return "\n".join(s)

def main_src(nf, unary):
    d = ["do disp(f int, i int, j int) {\n when f {"]
    for k in range(nf): d.append(f"  is {k} {{ f{k}(val(i), val(j)) }}")
    d.append("  default { println(\"?\") }\n }\n}")
    d.append("do main() {\n mut a [string] = os.args()\n mut f int = int(a[1])\n mut i int = int(a[2])\n for_each k, x in a {\n  if k > 2 {\n   disp(f, i, int(x))\n  }\n }\n}")
    return "\n".join(d)

def body(c):
    tc = Toolchain(c.tmp)
    c.rule = ("one evaluation = one operator applied in one place form to one operand pair in the compiled program; all are distinct "
              "(type, form, operator, operands); non-trivial = result or panic compared with exact arithmetic")
    jobs = []
    for T in TYPES:
        lat = lattice(T, c.thorough)
        allf = [(n, op, code, False) for n, op, code in forms(T)] + [(n, op, code, True) for n, op, code in uforms(T)]
        jobs.append((T, lat, allf))
    def build(T, lat, fs):
        src = "import @os\n" + prelude(T, lat) + "\n" + "\n".join(
            f"do f{k}(a {T}, b {T}) {{\n mut z0 {T} = 0\n z0 = a - a\n {code}\n}}" for k, (n, op, code, u) in enumerate(fs)) + "\n" + main_src(len(fs), False)
        return tc.compile(src, opt="-O1") + (src,)
    def work(job):
        T, lat, fs = job
        if c.expired() or c.too_many(): return
        exe, r, d, src = build(T, lat, fs)
        if exe is None:
            if len(fs) == 1:
                n, op, code, u = fs[0]
                c.count("forms"); c.violation(f"{T}:{n}:{op}:build", "does not build: " + code + " :: " + (r.stdout + r.stderr).decode(errors="replace")[:400], {"program": src})
                return
            h = len(fs) // 2
            work((T, lat, fs[:h])); work((T, lat, fs[h:])); return
        cases = []; exps = []
        for k, (n, op, code, u) in enumerate(fs):
            for i, a in enumerate(lat):
                good = []
                for j, b in enumerate(lat):
                    if u:
                        if j: continue
                        e = (a + 1 if op == "++" else a - 1 if op == "--" else -a)
                        e = e if TYPES[T][0] <= e <= TYPES[T][1] else None
                    else: e = ev(op, a, b, T)
                    if e is SKIP: continue
                    if n == "cond" and e is not None: e = "same" if e == a else "diff"
                    if e is None: cases.append([str(k), str(i), str(j)]); exps.append((k, a, [b], None))
                    else: good.append((j, b, e))
                if good:
                    cases.append([str(k), str(i)] + [str(j) for j, _, _ in good])
                    exps.append((k, a, [b for _, b, _ in good], [str(e) for _, _, e in good]))
        res = tc.forkrun(exe, cases, workers=2)
        for (k, a, bs, e), (st, out, err), cs in zip(exps, res, cases):
            n, op, code, u = fs[k]
            c.count("forms", len(bs))
            if e is None:
                if st != 1 or b"panic" not in err:
                    c.violation(f"{T}:{n}:{op}", f"{T} {a} {op} {bs[0]} ({n}) must panic, got exit {st} stdout {out[:80]!r} stderr {err[:200]!r}",
                                {"program": src, "args": cs})
            else:
                lines = out.decode(errors="replace").split("\n")[:-1]
                if st != 0 or lines != e:
                    bad = next((q for q in range(len(e)) if q >= len(lines) or lines[q] != e[q]), 0)
                    c.violation(f"{T}:{n}:{op}", f"{T} {a} {op} {bs[bad]} ({n}) must be {e[bad]}, got {lines[bad:bad+1]} exit {st} stderr {err[:200]!r}",
                                {"program": src, "args": cs})
    split = []
    for T, lat, fs in jobs:
        for q in range(0, len(fs), 45): split.append((T, lat, fs[q:q+45]))
    pmap(work, split)
    c.sample({"type": "i8", "lattice": lattice("i8", c.thorough), "form": forms("i8")[0][2]})
    # complete 8-bit operand squares
    def full(T):
        lo, hi = TYPES[T]
        src = "import @os\n" + f"do val(k int) -> {T} {{\n return cast(k + ({lo}), {T})\n}}\n" + "\n".join(
            f"do f{k}(a {T}, b {T}) {{\n mut r {T} = a {op} b\n println(r)\n}}\ndo f{k+5}(a {T}, b {T}) {{\n mut v [{T}] = {{a}}\n v[0] {op}= b\n println(v[0])\n}}"
            for k, op in enumerate(OPS)) + "\n" + main_src(10, False)
        exe = tc.must_compile(src)
        for k in range(10 if c.thorough else 5):
            op = OPS[k % 5]; cases = []; exps = []
            if c.expired() or c.too_many(): return
            for a in range(lo, hi + 1):
                good = []
                for b in range(lo, hi + 1):
                    e = ev(op, a, b, T)
                    if e is SKIP: continue
                    if e is None:
                        # quick: the multiplication fringe only (results beyond the type by more than a factor 4 wait for thorough)
                        if op == "*" and not c.thorough and abs(a * b) > 4 * (hi + 1): continue
                        cases.append([str(k), str(a - lo), str(b - lo)]); exps.append((a, [b], None))
                    else: good.append((b, e))
                if good:
                    cases.append([str(k), str(a - lo)] + [str(b - lo) for b, _ in good]); exps.append((a, [b for b, _ in good], [str(e) for _, e in good]))
            for (a, bs, e), (st, out, err), cs in zip(exps, tc.forkrun(exe, cases), cases):
                c.count("8bit-square", len(bs))
                ok = (st == 1 and b"panic" in err) if e is None else (st == 0 and out.decode(errors="replace").split("\n")[:-1] == e)
                if not ok:
                    c.violation(f"{T}:square:{op}:{k//5}", f"{T} {a} {op} {bs if len(bs) == 1 else '...'}: exit {st} stdout {out[:60]!r} {err[:100]!r}", {"program": src, "args": cs})
                    if c.too_many(): return
    for T in ("i8", "u8") + (("byte",) if c.thorough else ()): full(T)
    # a narrow operand with an int operand: exact or a panic, never a wrapped value
    def mixed(T):
        la, lb = lattice(T, c.thorough), lattice("int", c.thorough)
        src = "import @os\n" + "".join(f"do val{n}(k int) -> {t} {{\n mut v [{t}] = {{{', '.join(map(str, l))}}}\n return v[k]\n}}\n" for n, t, l in (("a", T, la), ("b", "int", lb))) + \
            "".join(f"do f{k}(a {T}, b int) {{\n println(a {op} b)\n}}\n" for k, op in enumerate(OPS)) + \
            "do main() {\n mut a [string] = os.args()\n mut f int = int(a[1])\n mut i int = int(a[2])\n mut j int = int(a[3])\n when f {\n" + \
            "".join(f"is {k} {{ f{k}(vala(i), valb(j)) }}\n" for k in range(5)) + "default { }\n }\n}\n"
        exe = tc.must_compile(src)
        cs = [(k, i, j) for k in range(5) for i in range(len(la)) for j in range(len(lb))]
        for (k, i, j), (st, out, err) in zip(cs, tc.forkrun(exe, [[str(x) for x in q] for q in cs])):
            a, b = la[i], lb[j]; op = OPS[k]
            c.count("mixed")
            e = ev(op, a, b, "int")
            if st == 1 and b"panic" in err: continue
            if st != 0 or e is None or out.strip() != str(e).encode():
                c.violation(f"{T}:mixed:{op}", f"{T} {a} {op} int {b}: exact result {e}, got {out!r} exit {st} {err[:100]!r}", {"program": src, "args": [str(k), str(i), str(j)]})
    for T in ("i8", "u8", "i32", "u32") if not c.thorough else ("i8", "i16", "i32", "u8", "u16", "u32", "byte"): mixed(T)
    # literal operands: constant folding must be exact or a check-time error
    b = Batch(c, tc, part="literals")
    for T in ("i8", "u8", "i32", "int", "uint") if not c.thorough else TYPES:
        lo, hi = TYPES[T]; vals = [v for v in (lo, lo + 1, -1, 0, 1, 2, 3, 7, hi // 2 + 1, hi - 1, hi) if lo <= v <= hi]
        for op in OPS:
            for x in vals:
                for y in vals:
                    e = ev(op, x, y, T)
                    if e is SKIP: continue
                    # a run-time operand on one side keeps the error a run-time matter
                    # (a literal zero divisor is rejected at check time)
                    ys = str(y) if y >= 0 else f"({y})"
                    if not (op in "/%" and y == 0): b.add(f"lit:{T}:{op}", f" mut x {T} = {x}\n mut r {T} = x {op} {ys}\n println(r)", "" if e is None else str(e), panic=e is None)
                    xs = str(x) if x >= 0 else f"({x})"
                    b.add(f"litl:{T}:{op}", f" mut y {T} = {y}\n mut r {T} = {xs} {op} y\n println(r)", "" if e is None else str(e), panic=e is None)
    b.go()
main("C01", body)
