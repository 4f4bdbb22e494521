#!/usr/bin/env python3
"""C18: the real grayc: every interleaving, to a preemption bound, of the file-system steps of two and three compilers under a system-call-level scheduler, and repeated builds of the whole corpus under every bounded change of surroundings."""
import sys, os, itertools, shutil, glob, hashlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from gotree import ftrace
from concurrent.futures import ThreadPoolExecutor
LIB = os.path.join(VERIF, "lib/c")
def P(mark, extra=""): return "do main() {\n    println(\"%s\")\n%s}\n" % (mark, extra)
def body(c):
    c.rule = "one evaluation = one run of one or more real compilers under one schedule, or one build of one corpus program in one changed surrounding; all distinct"
    tc = Toolchain(c.tmp); ft = ftrace(c); ctr = itertools.count()
    bind = os.path.join(c.tmp, "bin"); os.makedirs(bind)
    r = run(["gcc", "-O1", "-w", "-o", os.path.join(bind, "cc"), os.path.join(LIB, "ccstub.c")])
    if r.returncode: raise CheckError(r.stderr.decode())
    # everything the compilers touch lies below one prefix: their temporary directories and this check's own
    root = "/tmp/gray_v%d" % os.getpid(); shutil.rmtree(root, ignore_errors=True); os.makedirs(root)
    env = dict(tc.env, PATH=bind + ":/usr/bin:/bin", FT_LIMIT="40")
    before = set(glob.glob("/tmp/gray_*"))
    def trial(sc, sched, tag="", ccenv=None):
        """sc: (files, [(cwd, args), ...], [outputs of interest])"""
        d = os.path.join(root, "w%d" % next(ctr)); os.makedirs(d)
        for n, t in sc["files"].items():
            p = os.path.join(d, n); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(t)
        for w, a in sc["runs"]: os.makedirs(os.path.join(d, w), exist_ok=True)
        op = os.path.join(c.tmp, "o%d/" % next(ctr)); os.makedirs(op)
        cmd = [ft, "-p", "/tmp/gray_", "-o", op + "log", "-O", op] + (["-S", sched] if sched else [])
        for w, a in sc["runs"]: cmd += ["--", "/bin/sh", "-c", 'cd "$0" && exec "$@"', os.path.join(d, w), tc.grayc] + [x.replace("@", d) for x in a]
        r = run(cmd, 70, env=ccenv or env, cwd=c.tmp)
        log = open(op + "log", errors="replace").read().split("\n")
        st = [int(l.split()[2]) for l in log if l.startswith("exit ")]
        if r.returncode < 0 or len(st) != len(sc["runs"]) or "TIMEOUT" in log: raise CheckError("ftrace %r %r %r" % (r.returncode, log[-6:], r.stderr[-200:]))
        import re
        clean = lambda b: re.sub(rb"/tmp/gray_\w{6}/", b"TMP/", re.sub(rb"in \d+ms", b"in ms", b.replace(d.encode(), b"@")))
        outs = []
        for k in range(len(sc["runs"])):
            o = []
            for s in ("out", "err"):
                f = op + ".%d.%s" % (k, s); o.append(clean(open(f, "rb").read()) if os.path.exists(f) else b"")
            outs.append((st[k], o[0], o[1]))
        files = {}
        for dp, dn, fn in os.walk(d):
            for f in fn:
                p = os.path.join(dp, f); rel = os.path.relpath(p, d)
                if rel not in sc["files"]: files[rel] = (open(p, "rb").read(), bool(os.stat(p).st_mode & 0o100))
        shutil.rmtree(d); shutil.rmtree(op)
        return (outs, files), log
    A = P("MARK_A"); B = P("MARK_BB", "    println(\"more\")\n" * 40); BAD = P("MARK_C", "    undefined_name()\n"); MOD = "import \"./m\"\n" + P("MARK_${m.f()}".replace("${m.f()}", "M"), "    println(\"${m.f()}\")\n")
    m1 = "do f() -> int {\n    return 1\n}\n"; m2 = "do f() -> int {\n    return 22\n}\n"
    S = [
        ("run same name", {"x/p.gray": A, "y/p.gray": B}, [("x", ["run", "p.gray", "1"]), ("y", ["run", "p.gray", "2"])]),
        ("run same source", {"x/p.gray": A}, [("x", ["run", "p.gray", "1"]), ("x", ["run", "p.gray", "2"])]),
        ("build same base name", {"x/p.gray": A, "y/p.gray": B, "o1/.": "", "o2/.": ""}, [("x", ["build", "p.gray", "-o", "@/o1/prog"]), ("y", ["build", "p.gray", "-o", "@/o2/prog"])]),
        ("build default names", {"x/p.gray": A, "y/p.gray": B}, [("x", ["build", "p.gray"]), ("y", ["build", "p.gray"])]),
        ("build one directory", {"p.gray": A, "q.gray": B}, [(".", ["build", "p.gray"]), (".", ["build", "q.gray"])]),
        ("build prefix names", {"p.gray": A, "q.gray": B}, [(".", ["build", "p.gray", "-o", "z"]), (".", ["build", "q.gray", "-o", "z.c"])]),
        ("build run names", {"p.gray": A, "q.gray": B}, [(".", ["run", "p.gray"]), (".", ["build", "q.gray", "-o", "gray_run"])]),
        ("run with output", {"x/p.gray": A, "y/p.gray": B}, [("x", ["run", "p.gray", "-o", "@/x/t"]), ("y", ["run", "p.gray", "-o", "@/y/t"])]),
        ("build and emit C", {"p.gray": A, "q.gray": B}, [(".", ["build", "p.gray", "-o", "z"]), (".", ["q.gray", "-c", "-o", "z2.c"])]),
        ("emit C", {"x/p.gray": A, "y/p.gray": B}, [("x", ["p.gray", "-c"]), ("y", ["p.gray", "-c"])]),
        ("failing build", {"x/p.gray": A, "y/p.gray": BAD}, [("x", ["build", "p.gray", "-o", "@/x/prog"]), ("y", ["build", "p.gray", "-o", "@/y/prog"])]),
        ("failing C compiler", {"x/p.gray": A, "y/p.gray": P("BADC_")}, [("x", ["build", "p.gray", "-o", "@/x/prog"]), ("y", ["build", "p.gray", "-o", "@/y/prog"])]),
        ("check", {"x/p.gray": A, "y/p.gray": B}, [("x", ["run", "p.gray"]), ("y", ["check", "p.gray"])]),
        ("modules", {"x/p.gray": MOD, "x/m.gray": m1, "y/p.gray": MOD, "y/m.gray": m2}, [("x", ["run", "p.gray"]), ("y", ["run", "p.gray"])]),
        ("same output directory", {"x/p.gray": A, "y/p.gray": B}, [("x", ["build", "p.gray", "-o", "@/bin1"]), ("y", ["run", "p.gray"])]),
    ]
    three = ("three runs", {"x/p.gray": A, "y/p.gray": B, "z/p.gray": MOD, "z/m.gray": m2}, [("x", ["run", "p.gray", "1"]), ("y", ["run", "p.gray", "2"]), ("z", ["run", "p.gray"])])
    work = []
    for name, files, runs in S + [three]:
        files = {k: v for k, v in files.items() if not k.endswith("/.")}
        for k in list(files): pass
        sc = {"files": files, "runs": runs}
        for w, a in runs:
            for x in a:
                if x.startswith("@/o"): sc["files"].setdefault(os.path.dirname(x[2:]) + "/keep", "")
        # alone, each compiler in turn
        want_o = []; want_f = {}; ok = True
        for i, rn in enumerate(runs):
            (o, f), log = trial(dict(sc, runs=[rn]), ""); want_o.append(o[0]); want_f.update(f)
        for (st, o, e), (w, a) in zip(want_o, runs):
            if ("fail" not in name and (st or a[0] == "run" and b"MARK_" not in o)): raise CheckError("%s: alone: %r" % (name, (st, o, e)))
        base, log = trial(sc, ""); c.count("schedules", 1)
        n = sum(1 for l in log if l.startswith("@ "))
        if n < 3 and "check" not in name and "fail" not in name and "C" not in name: raise CheckError("%s: only %d decision points" % (name, n))
        np = len(runs); scheds = set()
        tot = sum(1 for l in log if l[:1].isdigit())
        if np == 2:
            for first in (0, 1):
                # run `first` until its i-th step, the other one j steps, the first k, ... : all with at most 2 (3) switches
                for i in range(0, tot):
                    scheds.add(".".join([str(first)] * i + [str(1 - first)] * tot))
                    if not c.thorough and len(work) not in (0, 2, 4, 6, 11, 13): continue     # one switch only
                    for j in range(1, tot):
                        scheds.add(".".join([str(first)] * i + [str(1 - first)] * j + [str(first)] * tot))
                        if c.thorough:
                            for k in range(1, tot - j): scheds.add(".".join([str(first)] * i + [str(1 - first)] * j + [str(first)] * k + [str(1 - first)] * tot))
        else:
            for pm in itertools.permutations(range(3)):
                for i in range(0, tot // 3 + 3):
                    for j in range(0, tot // 3 + 3) if c.thorough or i % 2 == 0 else ():
                        scheds.add(".".join([str(pm[0])] * i + [str(pm[1])] * j + [str(pm[2])] * tot))
        work.append((name, sc, sorted(scheds), want_o, want_f, tot))
    seen = {}
    def one(a):
        name, sc, s, want_o, want_f, tot = a
        if c.expired(60) or c.too_many(): return
        (o, f), log = trial(sc, s); c.count("schedules", 1)
        tr = tuple(l.split(" ")[1] for l in log if l[:1].isdigit())
        seen.setdefault(name, set()).add(tr)
        if o != want_o or f != want_f:
            bad = [(i, x, y) for i, (x, y) in enumerate(zip(o, want_o)) if x != y] or [(k, f.get(k), want_f.get(k)) for k in sorted(set(f) | set(want_f)) if f.get(k) != want_f.get(k)]
            c.violation("interference:" + name, "%s: under schedule %s: %r" % (name, "".join(tr), str(bad[0])[:400]), {"scenario": sc, "schedule": s, "order": "".join(tr)})
    with ThreadPoolExecutor(8) as ex:
        # skip schedules which cannot differ: more steps of a compiler than it makes
        allw = []
        for name, sc, scheds, wo, wf, tot in work:
            scheds = [s for s in scheds]
            runs_len = tot
            keep = []
            keys = set()
            half = tot if len(sc["runs"]) == 2 else tot
            for s in scheds:
                # normal form: run lengths, with the last one open
                k = tuple((x, len(list(g))) for x, g in itertools.groupby(s.split(".")))
                k = k[:-1] + ((k[-1][0], "*"),)
                per = {}
                for x, l in k[:-1]: per[x] = per.get(x, 0) + l
                if any(v > tot // len(sc["runs"]) + 2 for v in per.values()): continue
                if k in keys: continue
                keys.add(k); keep.append(s)
            allw += [(name, sc, s, wo, wf, tot) for s in keep]
        list(ex.map(one, allw))
    c.sample({"schedules run": len(allw), "different orders seen": {k: len(v) for k, v in seen.items()}, "steps": {w[0]: w[5] for w in work}})
    if not c.expired(60):
        for k, v in seen.items():
            if len(v) < 4: c.sample("%s: few orders" % k)
    # --- real C compiler: overlapping real builds agree with separate ones
    # --- determinism over the corpus
    corp = sorted(glob.glob(os.path.join(REPO, "integration-tests/**/*.gray"), recursive=True) + glob.glob(os.path.join(REPO, "cli/templates/**/*.gray"), recursive=True) + glob.glob(os.path.join(REPO, "examples/**/*.gray"), recursive=True))
    if not c.thorough: corp = [f for i, f in enumerate(corp) if "/fail/errors" not in f or i % 6 == 0]
    e0 = dict(tc.env)
    deep = os.path.join(c.tmp, "a b", "c"); os.makedirs(deep)
    variants = [("again", dict(e0), c.tmp), ("other directory", dict(e0), "/"), ("deep directory", dict(e0), deep), ("dirty memory", dict(e0, MALLOC_PERTURB_="165"), c.tmp), ("dirty memory 2", dict(e0, MALLOC_PERTURB_="90", MALLOC_ARENA_MAX="1"), c.tmp), ("environment", dict(e0, HOME="/nonexistent", LANG="de_DE.UTF-8", LC_ALL="C.UTF-8", TZ="Asia/Tokyo", TERM="dumb", X="y" * 5000, COLUMNS="20"), c.tmp), ("environment 2", {"PATH": e0["PATH"], "GRAY_RUNTIME": e0.get("GRAY_RUNTIME", "")} if e0.get("GRAY_RUNTIME") else {"PATH": e0["PATH"]}, c.tmp)]
    if not c.thorough: variants = variants[:2] + variants[3:6]
    def emit(f, env, cwd, out):
        r = run([tc.grayc, f, "-c", "-o", out], 60, env=env, cwd=cwd); t = None
        if os.path.exists(out): t = open(out, "rb").read(); os.unlink(out)
        return r.returncode, t, r.stderr.replace(out.encode(), b"OUT"), r.stdout.replace(out.encode(), b"OUT")
    def det(f):
        if c.expired(20) or c.too_many(): return
        out = os.path.join(c.tmp, "e%d.c" % next(ctr)); rel = os.path.relpath(f, REPO)
        a = emit(f, e0, c.tmp, out)
        for n, e, w in variants:
            b = emit(f, e, w, out if n != "again" else os.path.join(deep, "other%d.c" % next(ctr))); c.count("corpus", 1)
            if n != "environment 2" and a != b or a[:2] != b[:2]: c.violation("nondeterministic:" + n, "%s: %s: %s" % (rel, n, "C output differs" if a[1] != b[1] else "%r instead of %r" % (b[0:1] + b[2:], a[0:1] + a[2:])), {"file": rel, "variant": n}); return
    with ThreadPoolExecutor(8) as ex: list(ex.map(det, corp))
    # directory modules: the order in which the directory lists its files does not matter; nor does where the tree lies
    mods = {"a.gray": "do fa() -> int {\n    return 1\n}\n", "b.gray": "const P struct {\n    x int\n}\n\ndo fb() -> int {\n    return fa() + 1\n}\n", "c.gray": "const E enum {\n    U\n    V\n}\n", "d.gray": "do fd(p P) -> int {\n    return p.x\n}\n"}
    main_ = "import \"./lib\"\n\ndo main() {\n    println(\"${lib.fa() + lib.fb()}\")\n}\n"; ref = None
    for pm in itertools.permutations(sorted(mods)):
        for base in (c.tmp, root):
            d = os.path.join(base, "dm%d" % next(ctr)); os.makedirs(os.path.join(d, "lib"))
            for n in pm: open(os.path.join(d, "lib", n), "w").write(mods[n])
            open(os.path.join(d, "main.gray"), "w").write(main_)
            got = emit("main.gray", e0, d, os.path.join(d, "out.c")); got = (got[0], got[1]); c.count("directory order", 1)
            if ref is None:
                ref = got
                if got[0] or not got[1]: raise CheckError("directory module does not build %r" % (got,))
            if got != ref: c.violation("nondeterministic:directory order", "files created in the order %s below %s give different C" % (pm, base), {"order": pm})
            shutil.rmtree(d)
    shutil.rmtree(root, ignore_errors=True)
    left = set(glob.glob("/tmp/gray_*")) - before
    for f in left:
        if os.path.isdir(f) and len(os.path.basename(f)) == 11: shutil.rmtree(f, ignore_errors=True)
if __name__ == "__main__": main("C18", body, level="exploration", quick_s=300, thorough_s=850)
