#!/usr/bin/env python3
"""C37: one compiled Gray program runs a scripted child through the real os.exec for every argument string, exit, output size, stream interleaving, start-up state and environment history of bounded sets; the child's bytes are recomputed independently."""
import sys, os, itertools, subprocess, time, resource, platform, socket
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
LIB = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib", "c")
def pat(fd, start, n): return bytes(((i * 7) + (i >> 8) + (65 if fd == 1 else 5)) & 255 for i in range(start, start + n))
PAT = {1: pat(1, 0, 1100000), 2: pat(2, 0, 1100000)}
def lp(bs): return b"".join(b"%d:%s" % (len(b), b) for b in bs)
def model(ops):
    """what the child script prints to its two streams and how it ends"""
    pos = {1: 0, 2: 0}; out = {1: b"", 2: b""}; code = 0; left = None
    for o in ops:
        if o[0] in "oe":
            fd = 1 if o[0] == "o" else 2; n = int(o[1:])
            out[fd] += PAT[fd][pos[fd]:pos[fd] + n]; pos[fd] += n
        elif o[0] == "x": code = int(o[1:]); break
        elif o[0] == "k": code = 128 + int(o[1:]); break
        elif o[0] == "g": left = int(o[1:])
    return (left if left is not None else code), out[1], out[2]
def parse(data):
    r = []; i = 0
    while i < len(data):
        j = data.index(b"\n", i); c, ok, a, b = data[i:j].split(b" "); a = int(a); b = int(b)
        r.append((int(c), data[j + 1:j + 1 + a], data[j + 1 + a:j + 1 + a + b], ok == b"true")); i = j + 1 + a + b
    return r
def short(x): return tuple((y if len(y) < 50 else y[:20] + b"...%d bytes" % len(y)) if isinstance(y, bytes) else y for y in x) if isinstance(x, tuple) else x
def body(c):
    c.rule = "one evaluation = one launched program (or one environment operation, argument or piece of process state read back); all distinct"
    tc = Toolchain(c.tmp); tmp = c.tmp
    drv = tc.must_compile(open(os.path.join(LIB, "c37_driver.gray")).read())
    child = os.path.join(tmp, "child")
    p = subprocess.run(["gcc", "-O1", "-o", child, os.path.join(LIB, "echild.c")], capture_output=True)
    if p.returncode: raise CheckError(p.stderr.decode())
    ctr = itertools.count()
    def go(args, pre=None, env=None, cwd=None, stdin=subprocess.DEVNULL, close=(), timeout=60, exe=drv, mode="run", keep=()):
        res = os.path.join(tmp, "r%d" % next(ctr)); e = dict(os.environ) if env is None else env
        def pe():
            if pre: pre()
            for f in close: os.close(f)
        t = time.time()
        p = subprocess.Popen([exe, mode, res] + list(args), stdin=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd, preexec_fn=pe, close_fds=False, start_new_session=True)
        try: o, er = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9); p.kill(); p.communicate()
            return None, None, b"TIMEOUT", p.pid
        data = b""
        if os.path.exists(res): data = open(res, "rb").read(); os.unlink(res)
        return p.returncode, data, o + er, p.pid
    def check(part, key, cases, **kw):
        """cases: list of (argv list, (code, out, err, ok)); all in one driver process"""
        args = []
        for i, (av, _) in enumerate(cases): args += (["@@"] if i else []) + list(av)
        rc, data, noise, pid = go(args, **kw); c.count(part, len(cases))
        rp = {"argv": [repr(a) for a in args][:60]}
        try: got = parse(data) if data else []
        except Exception as e: got = ["unparsable"]
        if rc != 0 or len(got) != len(cases) or noise:
            c.violation(key, "%s: status %s, %d of %d results, output %r" % (key, rc, len(got), len(cases), noise[:200]), rp); return
        for i, ((av, want), g) in enumerate(zip(cases, got)):
            if want[3] is False: g = (0, b"", b"", g[3]); want = (0, b"", b"", False)
            if g != want:
                c.violation(key, "%s: running %r as number %d gives %r, expected %r" % (key, av[:6], i, short(g), short(want)), rp); return
    jobs = []
    def job(*a, **k): jobs.append((a, k))
    # --- arguments: every string of the alphabet to the length bound, verbatim, in every position
    AL = [b" ", b"'", b'"', b"$", b"`", b"\\", b";", b"|", b"&", b"<", b">", b"*", b"?", b"(", b")", b"{", b"~", b"#", b"!", b"\n", b"\t", b"=", b"-", b"%", b"a", b"0", b"\xc3\xa9", b"\xff", b"\x01", b"@"]
    strs = [b""] + [b"".join(t) for n in (1, 2) for t in itertools.product(AL, repeat=n)]
    strs += [b"".join(t) for t in itertools.product(AL if c.thorough else AL[:12] + [b"\n", b"a"], repeat=3)]
    strs = list(dict.fromkeys(s for s in strs if s not in (b"@@", b"%%")))
    for i in range(0, len(strs), 40):
        g = strs[i:i + 40]; cs = [([child, "a"] + g, (0, lp([child.encode()] + g), b"", True))]
        cs += [([child, "a", s], (0, lp([child.encode(), s]), b"", True)) for s in g[:40 if i < 1000 or c.thorough else 4]]
        job("arguments", "arguments", cs)
    for n in range(0, 5):
        for t in itertools.product([b"", b"x", b"-c"], repeat=n): job("positions", "argument positions", [([child, "a"] + list(t), (0, lp([child.encode()] + list(t)), b"", True))])
    # --- the driver's own arguments
    def ownargs(g):
        rc, data, noise, pid = go(g, mode="args"); c.count("os.args", len(g))
        if rc != 0 or noise or data != lp(g): c.violation("os.args", "os.args() of %r gives %r (status %s, output %r)" % (g[:4], data[:200], rc, noise[:100]), {"args": repr(g)})
    # --- program names
    nd = os.path.join(tmp, "names"); os.makedirs(nd)
    names = [b"p", b"a b", b"a;b", b"$(id)", b"'q'", b"*", b"-n", b"\xff", b"a\nb", b"~", b"|x", b"p.gray"]
    for n in names: os.symlink(child.encode(), os.path.join(nd.encode(), n))
    env = dict(os.environ, PATH=nd + ":/usr/bin:/bin")
    for n in names:
        for form in (b"./" + n, nd.encode() + b"/" + n, n, b"../names/" + n):
            job("names", "program names", [([form, "a", "x"], (0, lp([form, b"x"]), b"", True))], env=env, cwd=nd)
    bad = os.path.join(tmp, "bad"); os.makedirs(os.path.join(bad, "dir")); open(os.path.join(bad, "noexec"), "w").write("#!/bin/sh\n"); os.chmod(os.path.join(bad, "noexec"), 0o644)
    open(os.path.join(bad, "nointerp"), "w").write("#!/nonexistent/sh\n"); os.chmod(os.path.join(bad, "nointerp"), 0o755); os.symlink("loop", os.path.join(bad, "loop"))
    FAIL = (0, b"", b"", False)
    bads = ["", "nosuch", "./nosuch", "./dir", ".", "/", "./noexec", "./nointerp", "./loop", "./noexec/x", "true ", " true", "true;true", "echo hi", "$(echo true)", "`echo true`", "true&&true", "tru?", "/bin/tru*", "~/x", "x" * 300, "/" + "x" * 5000, "true\n", "A=1 true", "!", "\\true", "'true'", '"true"']
    for b in bads:
        job("launch failures", "launch failures", [([b], FAIL)], cwd=bad); job("launch failures", "launch failures", [([b, "o1"], FAIL), ([child, "o3", "x5"], model(["o3", "x5"]) + (True,)), ([b], FAIL)], cwd=bad)
    # --- endings
    job("status", "exit status", [([child, "x%d" % i], (i, b"", b"", True)) for i in range(256)])
    job("status", "exit status with output", [([child, "o3", "e2", "x%d" % i], model(["o3", "e2", "x%d" % i]) + (True,)) for i in range(256)])
    job("status", "sh exit status", [(["/bin/sh", "-c", "exit %d" % i], (i, b"", b"", True)) for i in range(0, 256, 1 if c.thorough else 9)] + [(["sh", "-c", "nosuchcommand 2>/dev/null"], (127, b"", b"", True))])
    sigs = [s for s in range(1, 32) if s not in (17, 18, 19, 20, 21, 22, 23, 28)]
    job("status", "killed by a signal", [([child, "o5", "e6", "k%d" % s], model(["o5", "e6", "k%d" % s]) + (True,)) for s in sigs], pre=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
    # --- sizes and orders of the two streams
    K = 65536
    sizes = [0, 1, 4095, 4096, 4097, 8192, K - 1, K, K + 1, 2 * K + 1] + ([3 * 4096 + 1, 1000000] if c.thorough else [300000])
    for so in sizes:
        for se in sizes:
            orders = [["o%d" % so, "e%d" % se], ["e%d" % se, "o%d" % so]]
            alt = []
            for i in range(7): alt += ["o%d" % (so * (i + 1) // 7 - so * i // 7), "e%d" % (se * (i + 1) // 7 - se * i // 7)]
            orders.append(alt)
            job("sizes", "output sizes", [([child] + o + ["x%d" % x], model(o + ["x%d" % x]) + (True,)) for o in orders for x in ((3,) if not c.thorough else (0, 3))])
    ops = ["o1", "e1", "o%d" % (K + 1), "e%d" % (K + 1), "s", "S", "co", "ce"]
    ends = ["x0", "x127", "k9"]
    def sane(t):
        oc = ec = False
        for o in t:
            if o == "co":
                if oc: return False
                oc = True
            elif o == "ce":
                if ec: return False
                ec = True
            elif o[0] == "o" and oc or o[0] == "e" and ec: return False
        return True
    seqs = [t for n in range(0, 5 if c.thorough else 4) for t in itertools.product(ops, repeat=n) if sane(t)]
    for i in range(0, len(seqs), 12):
        g = []
        for t in seqs[i:i + 12]:
            for e in ends if len(t) < 3 or c.thorough else ends[len(g) % 3:][:1]: g.append(([child] + list(t) + [e], model(list(t) + [e]) + (True,)))
        job("interleavings", "stream interleavings", g)
    # a descendant goes on writing: the output is complete when every writer is gone
    for t in itertools.product(["o3", "e3", "o%d" % (K + 1), "s"], repeat=2):
        for f in ("f", "g0", "g7", "g127"):
            o = ["o2", f] + list(t) + ["x5"]
            job("descendants", "descendants", [([child] + o, model(o) + (True,))])
    # --- the state the program is started in
    FDS = [(1, 0), (0, 1), (2, 0), (0, 2), (1, 2), (2, 1)]
    for n in range(4):
        for cl in itertools.combinations((0, 1, 2), n):
            for o in (["o5", "e7", "x3"], ["o%d" % (K + 1), "e%d" % (K + 1), "x0"], ["e9", "o1", "k9"]):
                job("closed streams", "closed standard streams %s" % (cl,), [([child] + o, model(o) + (True,))] * 2 + [(["nosuch"], FAIL)], close=cl)
    def manyfds(n):
        def pre():
            s, h = resource.getrlimit(resource.RLIMIT_NOFILE); resource.setrlimit(resource.RLIMIT_NOFILE, (min(h, 4096), h))
            f = os.open("/dev/null", os.O_RDONLY)
            for i in range(n):
                d = os.dup2(f, 3 + i, inheritable=True)
        return pre
    for n in (0, 1, 60, 1015, 1018, 1020, 1021, 1022, 1030, 2000):
        o = ["o70000", "e70000", "x4"]; job("many files", "started with %d open files" % n, [([child] + o, model(o) + (True,))] * 3, pre=manyfds(n))
    # what the child inherits: the standard streams and what the program itself was started with, nothing else, whatever ran before
    def nofds():
        os.closerange(3, 4096)
    base = [([child, "F"], (3, b"0,1,2,", b"", True))]
    hist = [([child, "o70000"], model(["o70000"]) + (True,)), (["nosuch"], FAIL), ([child, "k9"], model(["k9"]) + (True,)), ([child, "ce", "co", "x1"], (1, b"", b"", True))]
    for n in range(0, 4):
        for t in itertools.product(hist, repeat=n): job("inherited files", "files inherited by the child", base + list(t) + base, exe=drv, nofd=1)
    job("inherited files", "files inherited after many", base + [(["nosuch"], FAIL), ([child, "o9"], model(["o9"]) + (True,))] * (400 if c.thorough else 120) + base, nofd=1)
    # few descriptors: either the whole result or a clean failure, and the next call works
    def limited(n):
        def pre():
            os.closerange(3, 4096); resource.setrlimit(resource.RLIMIT_NOFILE, (n, n))
        return pre
    def limits(n):
        args = [child, "o70000", "e5", "x3"]; rc, data, noise, pid = go((args + ["@@"]) * 20 + args, pre=limited(n)); c.count("few descriptors", 21)
        try: got = parse(data)
        except Exception: got = []
        full = model(["o70000", "e5", "x3"]) + (True,)
        if rc == 77 or b"error while loading" in noise: return      # the driver itself could not work
        if rc != 0 or len(got) != 21 or any(g != full and g != FAIL for g in got) or len(set(got)) != 1 or n > 12 and got[0] != full:
            c.violation("few descriptors", "with a limit of %d descriptors: status %s, %d results, %r" % (n, rc, len(got), [short(g) for g in got[:3]]), {"limit": n})
    import signal as S
    for name, pre in (("SIGCHLD ignored", lambda: S.signal(S.SIGCHLD, S.SIG_IGN)), ("SIGPIPE default", lambda: S.signal(S.SIGPIPE, S.SIG_DFL)), ("SIGCHLD blocked", lambda: S.pthread_sigmask(S.SIG_BLOCK, [S.SIGCHLD]))):
        for o in (["o5", "x3"], ["x0"], ["k9"], ["o70000", "e70000", "x127"], ["s", "x1"]):
            job("signals", name, [([child] + o, model(o) + (True,))] * 3 + [(["nosuch"], FAIL)], pre=pre)
    # standard input passes to the child; parent and child process numbers
    for n in (0, 1, 4096, 70000):
        f = os.path.join(tmp, "in%d" % n); open(f, "wb").write(PAT[1][:n])
        def one(f=f, n=n):
            with open(f, "rb") as fh: check("stdin", "standard input", [([child, "i"], (0, PAT[1][:n], b"", True))], stdin=fh)
        jobs.append((one, None))
    # --- sizes of arguments
    def argsize(n):
        rc, data, noise, pid = go([child, str(n)], mode="size"); c.count("argument sizes", 1)
        got = parse(data) if data else []
        av = [b"x" * n] if n >= 0 else [b"a%d" % i for i in range(-n)]
        ok = n <= 131071 and n >= -100000
        want = (0, lp([child.encode()] + av), b"", True) if ok else FAIL
        if n == 131072: ok = None
        if rc != 0 or noise or ok is not None and got != [want]: c.violation("argument sizes", "an argument of %d bytes%s: status %s, %r instead of %r" % (n, " (many if negative)", rc, [short(g) for g in got], short(want)), {"n": n})
    # --- environment: every history of operations to the depth against a dictionary
    NM = ["A", "B_", "a b"]; VL = [b"", b"1", b"=x", b" $A\n\xff"]
    def envhist(h):
        e = {b"B_": b"start", b"PATH": b"/usr/bin:/bin"}; env0 = {k.decode(): v for k, v in e.items()}
        args = []; want = []
        for o in h:
            args += list(o)
            if o[0] == "set":
                k = o[1].encode()
                if k and b"=" not in k: e[k] = o[2]
            elif o[0] == "unset":
                k = o[1].encode()
                if k and b"=" not in k: e.pop(k, None)
            for k in NM:
                args += ["get", k]; want.append((0, e.get(k.encode(), b""), b"", True))
        for k in NM:
            args += ["exec", child, k]; v = e.get(k.encode()); want.append((0, b"-" if v is None else lp([v]), b"", True))
        rc, data, noise, pid = go(args, mode="env", env=env0); c.count("environment", len(want))
        got = parse(data) if data else []
        if rc != 0 or noise or got != want:
            j = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), -1)
            c.violation("environment", "after %r: status %s, reading %d gives %r, expected %r" % (h, rc, j, got[j:j + 1], want[j:j + 1]), {"history": repr(h)})
    eops = [("set", k, v) for k in NM for v in VL] + [("unset", k) for k in NM] + [("set", "", b"1"), ("set", "A=B", b"1"), ("unset", ""), ("unset", "A=B")]
    hists = [h for n in range(0, 3) for h in itertools.product(eops, repeat=n)]
    sm = [("set", "A", b"1"), ("set", "A", b"22"), ("unset", "A"), ("set", "B_", b""), ("unset", "B_")]
    hists += list(itertools.product(sm, repeat=4 if c.thorough else 3))
    # --- process state
    def info(d):
        dd = os.path.join(tmp.encode(), d); os.makedirs(dd, exist_ok=True)
        rc, data, noise, pid = go([], mode="info", cwd=dd); c.count("process state", 6)
        got = parse(data) if data else []; m = platform.machine().encode()
        want = [(pid, dd, socket.gethostname().encode(), True), (1, {b"aarch64": b"arm64"}.get(m, m), b"", True)]
        if rc != 0 or noise or got != want: c.violation("process state", "in directory %r: status %s, %r instead of %r" % (dd, rc, got, want), {"dir": repr(dd)})
    def parent():
        rc, data, noise, pid = go([child, "p"]); c.count("process state", 1); got = parse(data) if data else []
        if got != [(0, b"%d" % pid, b"", True)]: c.violation("process state", "the parent of the launched program is %r, not the program %d" % (got, pid), {})
    # --- two threads launch programs at the same time: neither waits for, nor is held up by, the other's
    def threads(k):
        a, b = k; fl = os.path.join(tmp, "flag%d" % next(ctr)); sub = lambda o: [x.replace("FLAG", fl) for x in o]
        A = [[child] + sub(o) for o in a]; B = [[child] + sub(o) for o in b]; args = []
        for i, x in enumerate(A): args += (["@@"] if i else []) + x
        args.append("%%")
        for i, x in enumerate(B): args += (["@@"] if i else []) + x
        res0 = next(ctr); rc = None
        res = os.path.join(tmp, "t%d" % res0)
        p = subprocess.Popen([drv, "threads", res] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        try: o, _ = p.communicate(timeout=9)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9); p.kill(); o = b"TIMEOUT"; p.wait()
        c.count("threads", len(a) + len(b)); got = []
        for i in (0, 1):
            f = res + ".%d" % i; got.append(parse(open(f, "rb").read()) if os.path.exists(f) else None)
        want = [[model(x) + (True,) for x in a], [model(x) + (True,) for x in b]]
        if o or got != want: c.violation("threads", "threads running %r and %r: output %r, results %r" % (a, b, o[:100], [[short(y) for y in g] if g is not None else None for g in got]), {"a": repr(a), "b": repr(b)})
    tl = []
    for big in ("o3", "o70000", "e70000"):
        for pre in ([], [["x0"]], [["o70000"]]):
            tl.append((pre + [["wFLAG", big, "x1"]], [["s", "tFLAG", big, "x2"], ["x3"]]))                 # A's program needs B's to run
            tl.append((pre + [["s", "wFLAG", big]], [[big, "x127"], ["s"], ["tFLAG"]]))                     # B finishes several while A's runs
            tl.append(([["wFLAG", "co", "ce", "s", "x1"]], pre + [["x4"], ["co", "ce", "x5"], ["tFLAG"]]))
    allj = [lambda a=a, k=k: (check(*a, **({kk: v for kk, v in k.items() if kk != "nofd"} if not k.get("nofd") else dict({kk: v for kk, v in k.items() if kk != "nofd"}, pre=nofds)))) if k is not None else a() for a, k in jobs]
    own = [s for s in strs]
    allj += [lambda g=own[i:i + 60]: ownargs(g) for i in range(0, len(own), 60)]
    allj += [lambda n=n: limits(n) for n in range(4, 24)]
    allj += [lambda n=n: argsize(n) for n in (0, 1, 4096, 65536, 131070, 131071, 131072, 131073, 300000, -1, -10, -1000, -10000)]
    allj += [lambda h=h: envhist(h) for h in hists]
    allj += [lambda d=d: info(d) for d in (b"d", b"a b", b"\xff", b"a\nb", b"$x", b"x" * 200, b"/".join([b"y" * 100] * 12), b"/".join([b"y" * 200] * 18))]
    allj += [parent]; allj += [lambda k=k: threads(k) for k in tl * (3 if c.thorough else 1)]
    def safe(j):
        if c.expired() or c.too_many(): return
        j()
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(safe, j) for j in allj]: f.result()
    c.sample(["jobs", len(allj)])
if __name__ == "__main__": main("C37", body, level="exploration", quick_s=120, thorough_s=800)
