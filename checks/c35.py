#!/usr/bin/env python3
"""C35: the real io module through one compiled Gray program: every sequence of file operations to a depth on a small tree against a model of the documentation, every file size and line structure, every limit on the file size, and every system call of every operation failing or falling short."""
import sys, os, itertools, shutil, subprocess, resource, signal, stat, errno
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from gotree import ftrace
from concurrent.futures import ThreadPoolExecutor
REP = lambda n: b"0123456789abcdef" * n
def lit(q): return REP(int(q[5:])) if q.startswith("@rep:") else q.encode("utf-8", "surrogateescape")
def lines_of(data):
    if not data: return []
    l = data.split(b"\n")
    if l[-1] == b"": l.pop()
    return [x[:-1] if x.endswith(b"\r") else x for x in l]
def rawsum(b):
    s = 0
    for x in b: s = (s * 31 + x) % 1000003
    return s
def snap(d):
    r = {}
    for dp, dn, fn in os.walk(d):
        for n in dn + fn:
            p = os.path.join(dp, n); k = os.path.relpath(p, d)
            if os.path.islink(p): r[k] = ("l", os.readlink(p))
            elif os.path.isdir(p): r[k] = ("d",)
            elif os.path.isfile(p): r[k] = ("f", open(p, "rb").read())
            else: r[k] = ("?",)
    return r
FAIL = "false true"
def model(d, op, p, q):
    """does to the twin tree what the documentation says; returns the line the driver must print, 'PANIC', or a tuple of allowed lines"""
    plain = op[0] == "p"; o = op[1:] if plain else op; P = os.path.join(d, p); Q = os.path.join(d, q)
    ok = "%s true false" % op; bad = "%s false %s" % (op, "false" if plain else "true")
    try:
        if o in ("write", "writeb", "append", "appendb"):
            if os.path.isdir(P): return "PANIC" if plain else bad
            with open(P, "wb" if o[0] == "w" else "ab") as f: f.write(lit(q))
            return ok
        if o in ("read", "readb", "lines"):
            if os.path.isdir(P): return "PANIC" if plain else "%s %s true" % (op, "0:" if o == "read" else "0 0" if o == "readb" else "0 ")
            try: b = open(P, "rb").read(); e = "false"
            except OSError: b = b""; e = "false" if plain else "true"
            if o == "read": return "%s %d:%s %s" % (op, len(b), b.decode("latin1"), e)
            if o == "readb": return "%s %d %d %s" % (op, len(b), rawsum(b), e)
            l = lines_of(b); return "%s %d %s %s" % (op, len(l), "".join("%d:%s" % (len(x), x.decode("latin1")) for x in l), e)
        if o == "size":
            try: return "%s %d false" % (op, os.stat(P).st_size)
            except OSError: return "%s -1 %s" % (op, "false" if plain else "true")
        if op == "exists": return "%s %s false" % (op, str(os.path.exists(P)).lower())
        if op == "isfile": return "%s %s false" % (op, str(os.path.isfile(P)).lower())
        if op == "isdir": return "%s %s false" % (op, str(os.path.isdir(P)).lower())
        if o == "delete":
            if os.path.isdir(P) and not os.path.islink(P): return "PANIC" if plain else bad
            os.unlink(P); return ok
        if o == "copy":
            if os.path.isdir(P): return "PANIC" if plain else bad
            if os.path.exists(P) and os.path.exists(Q) and os.path.samefile(P, Q): return (ok, bad)
            b = open(P, "rb").read()
            with open(Q, "wb") as f: f.write(b)
            return ok
        if o in ("move", "rename"):
            os.rename(P, Q); return ok
    except OSError: return bad
    raise CheckError("no model of " + op)
def body(c):
    c.rule = "one evaluation = one operation of one sequence, one file content read or written, or one operation under one fault; all distinct"
    tc = Toolchain(c.tmp); drv = tc.must_compile(open(os.path.join(VERIF, "lib/c/io_driver.gray")).read()); ft = ftrace(c)
    ctr = itertools.count()
    def go(args, cwd, pre=None, cmd=(), timeout=60, env=None):
        p = subprocess.run(list(cmd) + [drv] + args, cwd=cwd, stdin=subprocess.DEVNULL, capture_output=True, timeout=timeout, preexec_fn=pre, env=env)
        return p.returncode, p.stdout, p.stderr
    def build(d, t):
        os.makedirs(d)
        for n, v in t:
            p = os.path.join(d, n)
            if v is None: os.mkdir(p)
            elif isinstance(v, tuple): (os.link if v[0] == "hard" else os.symlink)(*((os.path.join(d, v[1]), p) if v[0] == "hard" else (v[1], p)))
            else: open(p, "wb").write(v)
    TREE = [("a", b"first\r\nsecond\n"), ("b", b""), ("d", None), ("d/x", b"deep"), ("l", ("sym", "a")), ("ld", ("sym", "d")), ("gone", ("sym", "nowhere"))]
    PATHS = ["a", "b", "new", "d", "d/x", "d/new", "l", "ld", "gone", "no/x"]
    MUTP = ["a", "new", "d/x", "d", "l"] if not c.thorough else ["a", "b", "new", "d", "d/x", "l", "ld", "gone"]
    writes = [(o, p, q) for o in ("write", "append") for p in MUTP for q in (("two\n",) if not c.thorough else ("", "two\n"))]
    muts = writes + [("delete", p, "") for p in MUTP] + [(o, p, q) for o in ("copy", "move") for p in MUTP for q in MUTP]
    reads = [(o, p, "") for o in ("read", "lines", "size", "exists", "isfile", "isdir", "readb") for p in PATHS]
    wide = [(o, p, q) for o in ("write", "writeb", "append", "appendb") for p in PATHS for q in ("", "x", "@rep:300", "é\n")] + [("delete", p, "") for p in PATHS] + [(o, p, q) for o in ("copy", "move", "rename") for p in PATHS for q in PATHS] + reads
    plain = lambda t: ("p" + t[0],) + t[1:] if t[0] not in ("exists", "isfile", "isdir") else t
    seqs = [(t,) for t in wide] + [(plain(t),) for t in wide] + list(itertools.product(muts, muts)) + list(itertools.product(muts, [plain(r) for r in reads][::3] + reads[::4]))
    if c.thorough:
        sm = [(o, p, q) for o in ("copy", "move") for p in ("a", "new", "d/x") for q in ("a", "new", "d/x", "l") if p != q] + [("delete", "a", ""), ("append", "a", "z"), ("write", "new", "w")]
        seqs += list(itertools.product(sm, repeat=3))
    seqs = list(dict.fromkeys(seqs))
    def chunk(g):
        if c.expired(20) or c.too_many(): return
        base = os.path.join(c.tmp, "s%d" % next(ctr)); os.makedirs(base); args = []; want = []; multi = True
        for i, sq in enumerate(g):
            for w in ("r", "m"): build(os.path.join(base, "%s%d" % (w, i)), TREE)
            for o, p, q in sq:
                want.append((i, (o, p, q), model(os.path.join(base, "m%d" % i), o, p, q)))
                pre = "r%d/" % i; two = o.lstrip("p") in ("copy", "move", "rename")
                args += [o, pre + p, pre + q if two else q]
                if want[-1][2] == "PANIC": break
        rc, out, err = go(args, base); c.count("sequences", len(want))
        got = out.decode("latin1").replace("r%d/" % 0, "r0/")
        exp = ""; pos = 0
        for i, t, w in want:
            if w == "PANIC":
                if rc == 1 and b"panic[" in err and pos == len(got): continue
                c.violation("sequence:%s" % t[0], "%s: expected a panic, got status %d, %r %r" % (g[i], rc, got[pos:pos + 60], err[:100]), {"sequence": g[i]}); return
            for x in (w if isinstance(w, tuple) else (w,)):
                if got.startswith(x + "\n", pos): pos += len(x) + 1; break
            else:
                c.violation("sequence:%s" % t[0], "%s: %s prints %r, expected %r (status %d %r)" % (g[i], t, got[pos:pos + 80], w[:80], rc, err[:100]), {"sequence": g[i]}); shutil.rmtree(base); return
        if pos != len(got) or (rc != 0) != any(w == "PANIC" for _, _, w in want): c.violation("sequence:end", "%s: status %d, further output %r %r" % (g[-1], rc, got[pos:][:80], err[:100]), {"sequence": g})
        for i, sq in enumerate(g):
            a, b = snap(os.path.join(base, "r%d" % i)), snap(os.path.join(base, "m%d" % i))
            if a != b:
                k = [x for x in sorted(set(a) | set(b)) if a.get(x) != b.get(x)][0]
                c.violation("tree:%s" % sq[-1][0], "after %s the tree has %r as %r, expected %r" % (sq, k, str(a.get(k))[:80], str(b.get(k))[:80]), {"sequence": sq})
        shutil.rmtree(base)
    groups = []; cur = []
    for s in seqs:
        risky = any(t[0] in ("pwrite", "pwriteb", "pappend", "pappendb", "pread", "preadb", "plines", "pdelete", "pcopy") for t in s)
        if risky: groups.append([s])
        else:
            cur.append(s)
            if len(cur) == 60: groups.append(cur); cur = []
    if cur: groups.append(cur)
    # --- contents: every line structure, sizes around every buffer, every byte
    contents = [bytes(t) for n in range(0, 7 if not c.thorough else 9) for t in itertools.product(b"a\r\n", repeat=n)]
    contents += [b"", b"\0", b"a\0b\n\0", bytes(range(256)), b"\xff\xfe\n\x80", b"\xc3\xa9\r\n"]
    sizes = sorted(set(list(range(0, 20)) + [n + k for n in (1024, 2048, 4096, 8192, 16384, 65536) for k in range(-3, 4)] + [100000, 1000000] + ([2 ** k + j for k in range(7, 21) for j in (-1, 0, 1)] + [5000000] if c.thorough else [])))
    pat = bytes((i * 31 + (i >> 8) * 7) & 255 for i in range(5000001))
    contents += [pat[:n] for n in sizes]
    def cont(g):
        if c.expired(20) or c.too_many(): return
        base = os.path.join(c.tmp, "c%d" % next(ctr)); os.makedirs(base); args = []; exp = b""
        for i, b in enumerate(g):
            open(os.path.join(base, "f%d" % i), "wb").write(b); f = "f%d" % i
            for o in ("read", "readb", "lines", "size", "pread", "preadb", "plines", "psize"):
                args += [o, f, ""]; exp += model(base, o, f, "").encode("latin1") + b"\n"
            args += ["copy", f, "g%d" % i, "copy", "g%d" % i, f]; exp += b"copy true false\ncopy true false\n"
        rc, out, err = go(args, base); c.count("contents", 9 * len(g))
        if rc or out != exp:
            ol, el = out.split(b"\n"), exp.split(b"\n"); k = next((j for j, (x, y) in enumerate(zip(ol, el)) if x != y), -1)
            c.violation("contents", "reading or copying %r: status %d, line %d is %r, expected %r %r" % (g[0][:30], rc, k, ol[k][:80], el[k][:80] if k < len(el) else "", err[:100]), {"contents": repr(g[0][:200]), "n": len(g)})
        for i, b in enumerate(g):
            for x in "fg":
                if open(os.path.join(base, "%s%d" % (x, i)), "rb").read() != b: c.violation("contents", "a copy of %d bytes %r is different" % (len(b), b[:30]), {}); break
        shutil.rmtree(base)
    cg = [contents[i:i + 40] for i in range(0, len(contents), 40)]
    # --- files that are no plain files
    def special():
        base = os.path.join(c.tmp, "sp"); os.makedirs(base)
        for o in ("read", "readb", "lines", "pread"):
            for p in ("/proc/version", "/proc/filesystems", "/dev/null"):
                rc, out, err = go([o, p, ""], base); c.count("special", 1); w = model(base, o, p, "").encode("latin1") + b"\n"
                if rc or out != w: c.violation("special", "%s of %s prints %r, expected %r" % (o, p, out[:80], w[:80]), {"path": p})
            for n in (0, 1, 4095, 4096, 4097, 70000, 300000):
                f = os.path.join(base, "fifo%d%s" % (n, o)); os.mkfifo(f)
                w = subprocess.Popen([sys.executable, "-c", "import sys;f=open(sys.argv[1],'wb');n=int(sys.argv[2]);d=bytes((i*31+(i>>8)*7)&255 for i in range(n));f.write(d[:n//2]);f.flush();f.write(d[n//2:])", f, str(n)])
                rc, out, err = go([o, f, ""], base, timeout=30); w.wait(); c.count("special", 1)
                t = os.path.join(base, "twin"); open(t, "wb").write(pat[:n]); x = model(base, o, "twin", "").encode("latin1") + b"\n"
                if rc or out != x: c.violation("special", "%s of a pipe with %d bytes prints %r, expected %r" % (o, n, out[:80], x[:80]), {"n": n})
        # a NUL byte in a path is no path; nothing else is touched
        open(os.path.join(base, "k"), "wb").write(b"keep"); before = snap(base)
        for o in ("write", "append", "writeb", "appendb", "delete", "read", "readb", "lines", "size", "exists", "isfile", "isdir", "pwrite", "pappend", "pdelete", "pread", "psize", "plines"):
            rc, out, err = go([o, "k@NULz", "data"], base); c.count("special", 1)
            good = {"exists": b"exists false false\n", "isfile": b"isfile false false\n", "isdir": b"isdir false false\n", "read": b"read 0: true\n", "readb": b"readb 0 0 true\n", "lines": b"lines 0  true\n", "size": b"size -1 true\n", "psize": b"psize -1 false\n", "pread": b"pread 0: false\n", "plines": b"plines 0  false\n"}.get(o, ("%s false %s\n" % (o, "false" if o[0] == "p" else "true")).encode())
            if rc or out != good or snap(base) != before: c.violation("nul in path", "%s of a path with a NUL byte prints %r, expected %r, tree changed: %s" % (o, out[:80], good, snap(base) != before), {"op": o})
        for o in ("copy", "move", "rename", "pcopy", "pmove", "prename"):
            for p, q in (("k@NULz", "n"), ("k", "n@NULz")):
                rc, out, err = go([o, p, q], base); c.count("special", 1)
                if rc or out.split()[1] != b"false" or snap(base) != before: c.violation("nul in path", "%s %s %s prints %r, tree changed: %s" % (o, p, q, out[:80], snap(base) != before), {"op": o})
        # contents with NUL bytes
        rc, out, err = go(["write", "z", "a@NULb", "append", "z", "@NUL", "read", "z", ""], base); c.count("special", 3)
        if out != b"write true false\nappend true false\nread 4:a\0b\0 false\n": c.violation("nul in content", "writing text with NUL bytes: %r" % out, {})
        # descriptors are given back: many failing and succeeding operations under a small limit
        ops = []
        for o in ("write", "append", "writeb", "appendb", "read", "readb", "lines", "size", "copy", "move", "delete", "list", "walk", "glob", "mkdirs", "rmall"):
            ops += [[o, "nosuch/x", "y"], [o, "d1", "y"], [o, "f1", "f1"], [o, "f1", "nosuch/x"]]
        os.makedirs(os.path.join(base, "lim/d1/e")); open(os.path.join(base, "lim/f1"), "w").write("1"); open(os.path.join(base, "lim/d1/e/f"), "w").write("1")
        def pre(): os.closerange(3, 200); resource.setrlimit(resource.RLIMIT_NOFILE, (20, 20))
        for op in ops:
            os.makedirs(os.path.join(base, "lim/d1/e"), exist_ok=True); open(os.path.join(base, "lim/f1"), "w").write("1"); open(os.path.join(base, "lim/d1/e/f"), "w").write("1")
            rc, out, err = go(op * 60 + ["write", "last", "ok", "read", "last", ""], os.path.join(base, "lim"), pre=pre); c.count("descriptors", 60)
            if rc or not out.endswith(b"write true false\nread 2:ok false\n"): c.violation("descriptors", "after %s 60 times, with 20 descriptors, writing gives %r (status %d %r)" % (op, out[-60:], rc, err[:80]), {"op": op})
    # --- every limit on the size of files: a write is a success exactly when all of it is there
    def limits(a):
        op, n, L = a
        if c.expired(20): return
        base = os.path.join(c.tmp, "l%d" % next(ctr)); os.makedirs(base); old = b"" if op[0] != "a" and op[1] != "a" else b"old"
        if old: open(os.path.join(base, "f"), "wb").write(old)
        src = REP(n); open(os.path.join(base, "src"), "wb").write(src)
        def pre(): signal.signal(signal.SIGXFSZ, signal.SIG_IGN); resource.setrlimit(resource.RLIMIT_FSIZE, (L, L))
        two = op.endswith("copy"); rc, out, err = go([op, "src" if two else "f", "f" if two else "@rep:%d" % n], base, pre=pre); c.count("size limits", 1)
        got = open(os.path.join(base, "f"), "rb").read() if os.path.exists(os.path.join(base, "f")) else b""
        full = old + src; fits = len(full) <= L; f = out.split()
        if rc or len(f) != 3 or (f[1] == b"true") != fits or (fits and got != full) or open(os.path.join(base, "src"), "rb").read() != src:
            c.violation("size limit:" + op, "%s of %d bytes with a limit of %d: prints %r, the file has %d bytes" % (op, len(full), L, out, len(got)), {"op": op, "n": n, "limit": L})
        shutil.rmtree(base)
    lim = [(o, n, L) for o in ("write", "append", "writeb", "appendb", "copy", "pwrite", "pappend", "pwriteb", "pappendb", "pcopy") for n in (1, 255, 256, 257, 512, 513, 5000) for L in sorted(set([0, 1, 3, 4096, 8192, 16 * n - 1, 16 * n, 16 * n + 2, 16 * n + 3, 65536])) ]
    # --- faults: every system call of every operation fails once, and moves fewer bytes once
    big = 6250
    FT = {"a": REP(313), "other": b"other"}
    faultops = [("write", "a", "@rep:%d" % n) for n in (1, 300, big)] + [("write", "new", "@rep:300")] + [("append", "a", "@rep:%d" % n) for n in (1, big)] + [("writeb", "a", "@rep:300"), ("appendb", "a", "@rep:300"), ("copy", "a", "new"), ("copy", "bigf", "new"), ("copy", "a", "other"), ("move", "a", "new"), ("move", "a", "other"), ("rename", "a", "new"), ("delete", "a", ""), ("read", "a", ""), ("read", "bigf", ""), ("readb", "a", ""), ("readb", "bigf", ""), ("lines", "a", ""), ("lines", "bigf", ""), ("size", "a", "")]
    faultops += [("p" + o, p, q) for o, p, q in faultops if o in ("write", "append", "writeb", "appendb", "copy", "move", "rename", "delete")]
    ALL = dict(FT, bigf=REP(big))
    def want_state(op, p, q, st):
        st = dict(st); o = op.lstrip("p") if op != "pwrite" else "write"; o = op[1:] if op[0] == "p" else op
        if o in ("write", "writeb"): st[p] = lit(q)
        elif o in ("append", "appendb"): st[p] = st.get(p, b"") + lit(q)
        elif o == "copy": st[q] = st[p]
        elif o in ("move", "rename"): st[q] = st.pop(p)
        elif o == "delete": st.pop(p)
        return st
    xdev = {}
    def trace(op, p, q, fopts, cross=False):
        k = next(ctr); base = os.path.join(c.tmp, "f%d" % k); os.makedirs(base)
        for n, b in ALL.items(): open(os.path.join(base, n), "wb").write(b)
        log = os.path.join(c.tmp, "flog%d" % k)
        rc, out, err = go([op, os.path.join(base, p), os.path.join(base, q) if q and not q.startswith("@") and op.lstrip("p") in ("copy", "move", "rename") or op in ("pcopy", "pmove", "prename") else q], base, cmd=[ft, "-p", base + "/", "-o", log, "-r"] + fopts + ["--"], env=dict(os.environ, FT_LIMIT="20"))
        ev = [l.split(" ", 2) for l in open(log, errors="replace").read().split("\n") if l[:1].isdigit()]; os.unlink(log)
        st = {n: open(os.path.join(base, n), "rb").read() for n in os.listdir(base)}
        shutil.rmtree(base); return rc, out, err, ev, st
    def fault(job):
        (op, p, q), opts, what, ref = job
        if c.expired(10) or c.too_many(): return
        rc, out, err, ev, st = trace(op, p, q, opts); c.count("faults", 1)
        want = want_state(op, p, q, ALL); key = "fault:%s" % op
        if rc == 1 and b"panic[" in err: c.violation(key, "%s with %s: panic %r" % ((op, p, q), what, err[:120]), {"op": [op, p, q], "fault": opts}); return
        if rc: c.violation(key, "%s with %s: status %d %r %r" % ((op, p, q), what, rc, out[:80], err[:80]), {"op": [op, p, q], "fault": opts}); return
        o = op[1:] if op[0] == "p" else op
        if o in ("read", "readb", "lines", "size"):
            if not out.endswith(b" true\n") and out != ref: c.violation(key, "%s with %s reports success with %r, not %r" % ((op, p), what, out[:60], ref[:60]), {"op": [op, p, q], "fault": opts})
            if st != ALL: c.violation(key, "%s with %s changed files" % ((op, p), what), {"op": [op, p, q], "fault": opts})
            return
        okd = out == ("%s true false\n" % op).encode()
        if not okd and out != ("%s false %s\n" % (op, "false" if op[0] == "p" else "true")).encode(): c.violation(key, "%s with %s prints %r" % ((op, p, q), what, out[:80]), {"op": [op, p, q], "fault": opts}); return
        tgt = q if o in ("copy", "move", "rename") else p
        if okd and st != want: c.violation(key, "%s with %s reports success, but %s" % ((op, p, q), what, ["%s has %s bytes instead of %s" % (n, len(st[n]) if n in st else None, len(want[n]) if n in want else None) for n in sorted(set(st) | set(want)) if st.get(n) != want.get(n)]), {"op": [op, p, q], "fault": opts})
        if not okd:
            for n in ALL:
                if n != tgt and st.get(n) != ALL[n] and not (n == p and o in ("move", "rename") and st.get(q) == ALL[p]): c.violation(key, "%s with %s reports failure and destroyed %s" % ((op, p, q), what, n), {"op": [op, p, q], "fault": opts})
            if o in ("rename", "delete") and st != ALL: c.violation(key, "%s with %s reports failure but did something" % ((op, p, q), what), {"op": [op, p, q], "fault": opts})
            if set(st) - set(ALL) - {tgt}: c.violation(key, "%s with %s leaves %s" % ((op, p, q), what, set(st) - set(ALL)), {"op": [op, p, q], "fault": opts})
    def prep(o):
        rc, out, err, ev, st = trace(*o, [])
        if rc or not ev: raise CheckError("no events for %s: %r %r" % (o, out, err))
        jobs = []; errs = (28, 5, 13) if not c.thorough else (28, 5, 13, 4, 24, 122)
        def every(ev, extra, tag):
            for i, e in enumerate(ev):
                for x in errs if e[2].startswith(("write", "open", "close", "read")) else (13, 18, 5):
                    if e[2].startswith("stat") and x != 13: continue
                    jobs.append((o, extra + ["-e", "%d:%d" % (i, x)], "%s%s failing with %s" % (tag, e[2][:60], errno.errorcode[x]), out))
                if e[2].split()[0] in ("write", "read"):
                    for b in (0, 1, 100, 4095) if e[2].startswith("write") else (1, 100, 4095): jobs.append((o, extra + ["-s", "%d:%d" % (i, b)], "%s%s moving %d bytes" % (tag, e[2][:60], b), out))
        every(ev, [], "")
        if o[0].endswith("move"):     # another file system: rename refuses, and then everything else fails in turn
            k = next(i for i, e in enumerate(ev) if e[2].startswith("rename")); x = ["-e", "%d:18" % k]
            rc, out2, err, ev2, st = trace(*o, x)
            if rc == 0 and b"true false" in out2:
                for i, e in enumerate(ev2):
                    if i > k:
                        for y in (28, 5, 13): jobs.append((o, x + ["-e", "%d:%d" % (i, y)], "another file system and %s failing with %s" % (e[2][:60], errno.errorcode[y]), out))
                        if e[2].split()[0] in ("write", "read"):
                            for b in (0, 1, 100) if e[2].startswith("write") else (1, 100): jobs.append((o, x + ["-s", "%d:%d" % (i, b)], "another file system and %s moving %d bytes" % (e[2][:60], b), out))
            else: c.violation("fault:move across", "a move to another file system fails: %r" % out2, {"op": o})
        return jobs
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(chunk, groups)); list(ex.map(cont, cg)); special(); list(ex.map(limits, lim))
        fj = [j for js in ex.map(prep, faultops) for j in js]; list(ex.map(fault, fj))
    c.sample({"sequences": len(seqs), "contents": len(contents), "faults": len(fj), "limits": len(lim)})
if __name__ == "__main__": main("C35", body, level="fault_enumeration", quick_s=240, thorough_s=840)
