"""Complete products of argument domains for one expression or statement list,
evaluated by a compiled program and compared line by line with an oracle."""
import itertools, os, shutil
from concurrent.futures import ThreadPoolExecutor
from vlib import *

PANIC = ("panic",)
SKIP = ("skip",)

def glit(s):
    """a Grayscale string literal for a str or bytes"""
    if isinstance(s, str): s = s.encode("utf-8", "surrogateescape")
    o = []
    for b in s:
        c = chr(b)
        if c == '"': o.append('\\"')
        elif c == "\\": o.append("\\\\")
        elif c == "$": o.append("\\$")
        elif c == "\n": o.append("\\n")
        elif c == "\t": o.append("\\t")
        elif c == "\r": o.append("\\r")
        elif b < 32 or b >= 127: o.append("\\x%02x" % b)
        else: o.append(c)
    return '"' + "".join(o) + '"'

def strings(xs): return ("string", [(glit(x), x) for x in xs])
def ints(xs, t="int"): return (t, [(str(x), x) for x in xs])
def bools(): return ("bool", [("true", True), ("false", False)])
def flit(x):
    """a Grayscale float literal (there is no exponent notation)"""
    from decimal import Decimal
    t = format(Decimal(repr(float(x))), "f")
    return t if "." in t else t + ".0"
def floats(xs): return ("float", [(flit(x), float(x)) for x in xs])

class Grid:
    """add(name, params, code, oracle): params = [(gray type, [(literal, value)])]; code uses a0, a1...;
    oracle(*values) -> text printed | PANIC | SKIP | predicate(bytes) -> bool."""
    def __init__(self, check, tc, imports=(), prelude="", part="grid", opt="-O1", per_file=12, using=(), timeout=120, chunk=20000):
        self.c = check; self.tc = tc; self.imports = imports; self.prelude = prelude; self.part = part
        self.opt = opt; self.per_file = per_file; self.using = using; self.items = []; self.timeout = timeout; self.chunk = chunk
    def add(self, name, params, code, oracle, key=None):
        self.items.append((name, params, code, oracle, key))
    def source(self, items):
        s = ["import @os"] + ["import @" + m for m in self.imports if m != "os"] + ["using " + u for u in self.using] + [self.prelude]
        for k, (name, params, code, orc, key) in enumerate(items):
            args = ", ".join("a%d %s" % (i, t) for i, (t, _) in enumerate(params))
            s.append("do f%d(%s) {\n%s\n}" % (k, args, code))
            b = ["do g%d(lo int, hi int) {" % k]
            for i, (t, vals) in enumerate(params):
                b.append(" mut d%d [%s] = {%s}" % (i, t, ", ".join(l for l, _ in vals)))
            b.append(" for q in range(lo, hi) {")
            div = 1; idx = []
            for t, vals in reversed(params):
                idx.append("q / %d %% %d" % (div, len(vals))); div *= len(vals)
            idx.reverse()
            for i, (t, vals) in enumerate(params):
                b.append("  mut a%d %s = d%d[(%s)]" % (i, t, i, idx[i]))
            b.append("  f%d(%s)\n  println(\"@@\")\n }\n}" % (k, ", ".join("a%d" % i for i in range(len(params)))))
            s.append("\n".join(b))
        s.append("do main() {\n mut a [string] = os.args()\n mut f int = int(a[1])\n mut lo int = int(a[2])\n mut hi int = int(a[3])\n when f {")
        for k in range(len(items)): s.append("  is %d { g%d(lo, hi) }" % (k, k))
        s.append("  default { println(\"?\") }\n }\n}")
        return "\n".join(s)
    def go(self, workers=None):
        files = [self.items[i:i + self.per_file] for i in range(0, len(self.items), self.per_file)]
        self.items = []
        with ThreadPoolExecutor(workers or NCPU) as ex:
            list(ex.map(self.run_file, files))
    def run_file(self, items):
        c = self.c
        if c.too_many() or c.expired(): return
        src = self.source(items)
        exe, r, d = self.tc.compile(src, opt=self.opt)
        if exe is None:
            if len(items) == 1:
                c.count(self.part)
                c.violation((items[0][4] if isinstance(items[0][4], str) else items[0][0]) + ":build", "program does not build: " + items[0][2] + " :: " + (r.stdout + r.stderr).decode(errors="replace")[:600], {"program": src})
            else:
                h = len(items) // 2
                self.run_file(items[:h]); self.run_file(items[h:])
            shutil.rmtree(d, ignore_errors=True); return
        for k, it in enumerate(items):
            self.run_item(exe, src, k, it)
        shutil.rmtree(d, ignore_errors=True)
    def run_item(self, exe, src, k, it):
        name, params, code, orc, key = it
        c = self.c
        tuples = list(itertools.product(*[[v for _, v in vals] for _, vals in params]))
        exp = [orc(*t) for t in tuples]
        known = set(kk for e in c.known for kk in e["keys"])
        def fkey(t): return key(*t) if callable(key) else "%s(%s)" % (name, ", ".join(short(x) for x in t))
        cases = []; meta = []
        run = None
        def flush(hi):
            nonlocal run
            if run is not None:
                cases.append([str(k), str(run), str(hi)]); meta.append((run, hi)); run = None
        for i, e in enumerate(exp):
            if e is SKIP: flush(i); continue
            if e is PANIC or (known and fkey(tuples[i]) in known):
                flush(i); cases.append([str(k), str(i), str(i + 1)]); meta.append((i, i + 1)); continue
            if run is None: run = i
            elif i - run >= self.chunk: flush(i); run = i
        flush(len(exp))
        res = self.tc.forkrun(exe, cases, timeout=self.timeout, workers=2)
        retry = []
        for (lo, hi), (st, out, err) in zip(meta, res):
            if hi - lo == 1:
                c.count(self.part); self.judge(src, k, it, tuples[lo], exp[lo], st, out, err, fkey, lo); continue
            lines = out.split(b"@@\n")
            bad = st != 0 or len(lines) != hi - lo + 1
            for i in range(lo, hi):
                j = i - lo
                if bad and j >= len(lines) - 1: retry.append(i); continue
                if not self.ok(exp[i], lines[j]): retry.append(i)
                else: c.count(self.part)
            if c.too_many(): return
        if retry:
            retry = retry[:3000]
            res = self.tc.forkrun(exe, [[str(k), str(i), str(i + 1)] for i in retry], timeout=self.timeout, workers=2)
            n = 0
            for i, (st, out, err) in zip(retry, res):
                c.count(self.part)
                n += self.judge(src, k, it, tuples[i], exp[i], st, out, err, fkey, i)
                if c.too_many(): return
            if not n and any(True for _ in retry):
                for (lo, hi), (st, out, err) in zip(meta, res): pass
                # right alone, wrong in a run: confirm with the same run again
                for (lo, hi), cs in zip(meta, cases):
                    if hi - lo > 1 and any(lo <= i < hi for i in retry):
                        st, out, err = self.tc.forkrun(exe, [cs], timeout=self.timeout, workers=1)[0]
                        lines = out.split(b"@@\n")
                        badi = next((i for i in range(lo, hi) if i - lo >= len(lines) - 1 or not self.ok(exp[i], lines[i - lo])), None)
                        if badi is not None or st != 0:
                            c.violation("run:" + name, "%s gives a wrong result only after other calls in the same process: exit %s %r, first at %r" %
                                        (name, st, err[:200], badi is not None and tuples[badi]), {"program": src, "args": cs})
    @staticmethod
    def ok(e, got):
        if got.endswith(b"\n"): got = got[:-1]
        if callable(e): return e(got)
        if isinstance(e, str): e = e.encode("utf-8", "surrogateescape")
        return got == e
    def judge(self, src, k, it, t, e, st, out, err, fkey, i):
        name, params, code, orc, key = it
        c = self.c; v = None
        er = err.decode(errors="replace")
        if st == 2000: v = "does not end"
        elif st in (98, 99) or "AddressSanitizer" in er or "runtime error:" in er: v = "sanitizer: " + er[:400]
        elif e is PANIC:
            if st != 1 or "panic" not in er: v = "must panic, got exit %s output %r stderr %r" % (st, out[:200], er[:200])
        else:
            ls = out.split(b"@@\n")
            if st != 0 or len(ls) != 2: v = "expected %s, got exit %s output %r stderr %r" % (short(e), st, out[:200], er[:300])
            elif not self.ok(e, ls[0]): v = "expected %s, got %r" % (short(e), ls[0][:300])
        if v is None: return 0
        c.violation(fkey(t), "%s(%s) [%s]: %s" % (name, ", ".join(short(x) for x in t), code.strip().replace("\n", "; ")[:120], v),
                    {"program": src, "args": [str(k), str(i), str(i + 1)]})
        return 1

def short(x):
    if callable(x): return getattr(x, "__doc__", None) or "a value satisfying the predicate"
    r = repr(x)
    return r if len(r) < 80 else r[:40] + "...(%d)" % len(x)
