"""A small statement language: the same program as Grayscale source and as a
Python interpretation (the reference for control flow)."""
class Brk(Exception): pass
class Cont(Exception): pass
class Ret(Exception):
    def __init__(self, v): self.v = v
class Panic(Exception): pass

class Node:
    """k: kind, a: arguments"""
    def __init__(self, k, *a): self.k = k; self.a = a
    def __repr__(self): return "%s%r" % (self.k, self.a)
def N(k, *a): return Node(k, *a)

# expressions: ("text", fn(env)) pairs
def E(text, fn): return (text, fn)
def var(n): return E(n, lambda e: e[n])
def lit(n): return E(str(n), lambda e: n)
def eq(n, k): return E("%s == %d" % (n, k), lambda e: e[n] == k)

class Gen:
    def __init__(self): self.n = 0
    def name(self, p):
        self.n += 1; return "%s%d" % (p, self.n)

def src(body, ind=1):
    o = []
    p = " " * ind
    for s in body:
        k, a = s.k, s.a
        if k == "t": o.append('%sprintln("%s")' % (p, a[0] + "".join(" ${%s}" % v for v in a[1:])))
        elif k == "set": o.append("%s%s = %s" % (p, a[0], a[1][0]))
        elif k == "decl": o.append("%smut %s %s = %s" % (p, a[0], a[2] if len(a) > 2 else "int", a[1][0]))
        elif k == "inc": o.append("%s%s++" % (p, a[0]))
        elif k == "raw": o.append(p + a[0].replace("\n", "\n" + p))
        elif k == "if":
            for i, (c, b) in enumerate(a[0]):
                o.append("%s%s %s {" % (p, "if" if i == 0 else "} or", c[0])); o += src(b, ind + 1)
            if a[1] is not None: o.append(p + "} otherwise {"); o += src(a[1], ind + 1)
            o.append(p + "}")
        elif k == "for":
            v, args, b = a
            o.append("%sfor %s in range(%s) {" % (p, v, ", ".join(x[0] for x in args))); o += src(b, ind + 1); o.append(p + "}")
        elif k == "each":
            iv, v, (text, _), b = a
            o.append("%sfor_each %s%s in %s {" % (p, iv + ", " if iv else "", v, text)); o += src(b, ind + 1); o.append(p + "}")
        elif k == "while":
            c, b = a; o.append("%swhile %s {" % (p, c[0])); o += src(b, ind + 1); o.append(p + "}")
        elif k == "loop": o.append(p + "loop {"); o += src(a[0], ind + 1); o.append(p + "}")
        elif k == "when":
            e, br, d = a
            o.append("%swhen %s {" % (p, e[0]))
            for pats, b in br:
                o.append("%s is %s {" % (p, ", ".join("range(%d, %d)" % x if isinstance(x, tuple) else str(x) for x in pats))); o += src(b, ind + 2); o.append(p + " }")
            if d is not None: o.append(p + " default {"); o += src(d, ind + 2); o.append(p + " }")
            o.append(p + "}")
        elif k == "brk": o.append(p + "break")
        elif k == "cont": o.append(p + "continue")
        elif k == "ret": o.append(p + ("return " + a[0][0] if a else "return"))
        else: raise KeyError(k)
    return o

def execute(body, env, out, budget=None):
    budget = budget if budget is not None else [100000]
    for s in body:
        budget[0] -= 1
        if budget[0] < 0: raise RuntimeError("budget")
        k, a = s.k, s.a
        if k == "t": out.append(a[0] + "".join(" %s" % show(env[v]) for v in a[1:]))
        elif k in ("set", "decl"): env[a[0]] = a[1][1](env)
        elif k == "inc": env[a[0]] += 1
        elif k == "raw": a[1](env, out)
        elif k == "if":
            for c, b in a[0]:
                if c[1](env): execute(b, env, out, budget); break
            else:
                if a[1] is not None: execute(a[1], env, out, budget)
        elif k == "for":
            v, args, b = a
            x = [q[1](env) for q in args]
            lo, hi = (x[0], x[1]) if len(x) > 1 else (0, x[0])
            st = x[2] if len(x) > 2 else 1
            if st == 0: raise Panic()
            i = lo
            while (i < hi) if st > 0 else (i > hi):
                if v != "_": env[v] = i
                try: execute(b, env, out, budget)
                except Brk: break
                except Cont: pass
                i += st
        elif k == "each":
            iv, v, (_, f), b = a
            for i, x in enumerate(list(f(env))):
                if iv and iv != "_": env[iv] = i
                if v != "_": env[v] = x
                try: execute(b, env, out, budget)
                except Brk: break
                except Cont: pass
        elif k in ("while", "loop"):
            c, b = (a if k == "while" else (None, a[0]))
            while c is None or c[1](env):
                try: execute(b, env, out, budget)
                except Brk: break
                except Cont: pass
        elif k == "when":
            e, br, d = a; v = e[1](env)
            for pats, b in br:
                if any(x[0] <= v < x[1] if isinstance(x, tuple) else x == v for x in pats): execute(b, env, out, budget); break
            else:
                if d is not None: execute(d, env, out, budget)
        elif k == "brk": raise Brk()
        elif k == "cont": raise Cont()
        elif k == "ret": raise Ret(a[0][1](env) if a else None)

def show(v):
    if v is True: return "true"
    if v is False: return "false"
    return str(v)

def call(body, env, out):
    """Runs a function body; returns (value, panicked)."""
    try:
        execute(body, env, out)
    except Ret as r: return r.v, False
    except Panic: return None, True
    return None, False
