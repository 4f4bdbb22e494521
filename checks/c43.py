#!/usr/bin/env python3
"""C43: extraction of the embedded runtime: every prior state of the cache, every crash point, torn write and failing system call, and every schedule of two extractors with at most two preemptions, on the real code under a system-call-level scheduler."""
import sys, os, shutil, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from gotree import *
FILES = {"grayc": b"#!/bin/sh\necho compiler\n" + b"C" * 40, "libgrayrt.a": b"!<arch>\n" + b"L" * 30,
         "src/runtime/a.h": b"int a;\n", "src/stdlib/b.c": b"int b(void);\nint c;\n"}
def body(c):
    c.rule = "one evaluation = one run of one or two real extractor processes from one cache state under one crash point, fault or schedule; all distinct"
    d = gotree(c, stage=FILES)
    t = gotest(d, "internal/grayc", open(os.path.join(VERIF, "lib/go/c43_test.go")).read())
    ft = ftrace(c)
    # the directory one good extraction makes
    def call(home, opts=(), n=1, limit=60):
        log = home + ".log"
        env = {"PATH": "/nonexistent", "HOME": home, "FT_LIMIT": str(limit)}
        cmd = [ft, "-p", home + "/", "-o", log, "-O", home + ".out"] + list(opts) + ["--", t]
        for _ in range(n - 1): cmd += ["--", t]
        r = run(cmd, limit + 30, env=env, cwd=c.tmp)
        ls = open(log, errors="replace").read().split("\n"); os.unlink(log)
        outs = []
        for k in range(n):
            p = "%s.out.%d.out" % (home, k); outs.append(open(p).read().strip() if os.path.exists(p) else "")
            for q in (p, p[:-3] + "err"):
                if os.path.exists(q): os.unlink(q)
        st = {l.split()[1]: int(l.split()[2]) for l in ls if l.startswith("exit ")}
        if r.returncode < 0 or len(st) != n: raise CheckError("ftrace: %d %r %s" % (r.returncode, r.stderr[-300:], ls[-5:]))
        return ls, outs, [st[str(k)] for k in range(n)]
    ctr = itertools.count()
    def fresh(state=None):
        h = os.path.join(c.tmp, "h%d" % next(ctr)); os.makedirs(h)
        if state is not None: shutil.copytree(state, os.path.join(h, ".gray"))
        return h
    def again(h, key, how):
        """afterwards, and with no fault, the runtime must be found complete"""
        ls, o, st = call(h)
        if not o[0].startswith("OK "): c.violation(key, "%s: the next, undisturbed run reports %r (status %d)" % (how, o[0], st[0]), {"how": how})
    h0 = fresh(); ls, o, st = call(h0, ["-r"])
    if not o[0].startswith("OK "):
        c.violation("plain", "an undisturbed extraction into an empty directory: %r" % o[0], {}); return
    tag = os.path.basename(os.path.dirname(o[0].split()[1])); dist0 = os.path.join(h0, ".gray")
    evr = [l for l in ls if l[:1].isdigit()]; c.sample({"events of one extraction": len(evr)})
    c.count("states", 1)
    # --- prior states of the cache
    rt = lambda base: os.path.join(base, "runtime", tag)
    variants = [("absent", None)]
    def var(f, kind):
        def mk(base):
            p = os.path.join(rt(base), f); data = FILES[f]
            if kind == "missing": os.unlink(p)
            elif kind == "empty": open(p, "wb").close()
            elif kind == "cut": open(p, "wb").write(data[:-1])
            elif kind == "half": open(p, "wb").write(data[:len(data) // 2])
            elif kind == "longer": open(p, "wb").write(data + b"x")
            elif kind == "zeros": open(p, "wb").write(b"\0" * len(data))
            elif kind == "lastbyte": open(p, "wb").write(data[:-1] + b"?")
            elif kind == "firstbyte": open(p, "wb").write(b"?" + data[1:])
            elif kind == "noexec": os.chmod(p, 0o644)
            elif kind == "tmpleft": open(p + ".tmp", "wb").write(b"junk"); open(p + ".tmp123456", "wb").write(b"junk")
            elif kind == "tmpdir": os.mkdir(p + ".tmp")
        return mk
    kinds = ["missing", "empty", "cut", "half", "longer", "zeros", "firstbyte", "lastbyte", "noexec", "tmpleft", "tmpdir"]
    single = [(f, k) for f in FILES for k in kinds if not (k == "noexec" and f != "grayc")]
    combos = [()] + [(x,) for x in single] + [(x, y) for x, y in itertools.combinations(single, 2) if x[0] != y[0]]
    def state(combo):
        h = fresh(dist0)
        for f, k in combo: var(f, k)(os.path.join(h, ".gray"))
        ls, o, st = call(h)
        name = "+".join("%s:%s" % x for x in combo) or "complete"
        if not o[0].startswith("OK "): c.violation("state:" + name, "cache with %s: %r" % (name, o[0]), {"state": name})
        c.count("states", 1); shutil.rmtree(h, ignore_errors=True)
    pmap(state, combos)
    # caches of other versions side by side: another tag directory with wrong files must not matter, and other contents get another tag
    tags = {tag: "base"}
    for f in FILES:
        for how in ("changed", "shorter"):
            st2 = dict(FILES); st2[f] = (FILES[f][:-2] + b"zz") if how == "changed" else FILES[f][:-2]
            d2 = gotree(c, "go-%s-%s" % (f.replace("/", "_"), how), stage=st2)
            t2 = gotest(d2, "internal/grayc", open(os.path.join(VERIF, "lib/go/c43_test.go")).read())
            h = fresh(dist0); r = run([t2], 60, env={"PATH": "/nonexistent", "HOME": h}, cwd=c.tmp); out = r.stdout.decode().strip()
            if not out.startswith("OK "): c.violation("version:%s:%s" % (f, how), "after another version (%s %s) was extracted: %r" % (f, how, out), {})
            r = run([t], 60, env={"PATH": "/nonexistent", "HOME": h}, cwd=c.tmp); out = r.stdout.decode().strip()
            if not out.startswith("OK "): c.violation("version:back:%s:%s" % (f, how), "back on the first version after %s was %s: %r" % (f, how, out), {})
            c.count("versions", 2); shutil.rmtree(d2)
    # --- crash points, torn writes, failing calls
    h = fresh(); ls, o, st = call(h); ev = [l.split(" ", 2) for l in ls if l[:1].isdigit()]; N = len(ev)
    starts = [("empty", None)]
    hp = fresh(dist0); [var(f, "half")(os.path.join(hp, ".gray")) for f in FILES]; starts.append(("half", os.path.join(hp, ".gray")))
    jobs = []
    for sn, sd in starts:
        hh = fresh(sd); ls, o, st = call(hh); ev = [l.split(" ", 2) for l in ls if l[:1].isdigit()]
        if not o[0].startswith("OK "): c.violation("start:" + sn, repr(o[0]), {})
        for n, p, desc in ev:
            jobs.append((sn, sd, ["-k", n], "crash before step %s (%s)" % (n, desc)))
            w = desc.split()
            if w[0] == "write":
                for b in sorted({1, int(w[1]) // 2, int(w[1]) - 1, int(w[1])}): jobs.append((sn, sd, ["-k", "%s:%d" % (n, b)], "crash in step %s (%s) after %d bytes" % (n, desc, b)))
                jobs.append((sn, sd, ["-s", "%s:%d" % (n, max(1, int(w[1]) // 2))], "step %s (%s) transfers half" % (n, desc)))
            for e in ((28, 5, 13) if w[0] != "close" else (28, 5)): jobs.append((sn, sd, ["-e", "%s:%d" % (n, e)], "step %s (%s) fails with errno %d" % (n, desc, e)))
        jobs.append((sn, sd, ["-k", str(len(ev))], "crash at the end"))
    def fault(j):
        sn, sd, opts, how = j
        h = fresh(sd); ls, o, st = call(h, opts); short = how.split(" (")[0]
        import re
        word = re.search(r"\((\w+)", how); key = "%s:%s:%s:%s" % (sn, opts[0][1:], opts[1], word.group(1) if word else "")
        if opts[0] == "-s":
            if not o[0].startswith("OK "): c.violation("fault:" + key, "%s: %r" % (how, o[0]), {"how": how})
        elif opts[0] == "-e":
            if o[0] and not o[0].startswith(("OK ", "ERR ")): c.violation("fault:" + key, "%s: the call returned a path although %r" % (how, o[0]), {"how": how})
            if not o[0]: c.violation("fault:" + key, "%s: no answer (status %d)" % (how, st[0]), {"how": how})
        again(h, "recover:" + key, how)
        c.count("faults", 1); shutil.rmtree(h, ignore_errors=True)
    pmap(fault, jobs)
    # --- two extractors: every schedule with at most two preemptions
    def sched(j):
        sn, sd, s, extra = j
        h = fresh(sd); ls, o, st = call(h, ["-r", "-S", s] + extra, n=2)
        dead = extra and extra[0] == "-k"
        for k in (0, 1):
            if not o[k].startswith("OK ") and not dead: c.violation("schedule:%s:%s:%d" % (sn, s if len(s) < 40 else "%d" % len(s), k), "extractor %d: %r" % (k, o[k]), {"schedule": s, "start": sn, "log": ls[-40:]})
        if dead: again(h, "schedule-crash:%s:%s" % (sn, s), "schedule %s %s" % (s, extra))
        c.count("schedules", 1); shutil.rmtree(h, ignore_errors=True)
        return sum(1 for l in ls if l.startswith("@"))
    for sn, sd in starts:
        n0 = sched((sn, sd, "0", []))
        runs = []
        # switch to the second extractor after i decisions and back after k more; i + k beyond the end means at most one switch
        for i in range(0, n0 + 1):
            runs.append((sn, sd, ".".join(["0"] * i + ["1"]), []))
            if sn == "empty" or c.thorough:
                for k in range(1, n0 + 1): runs.append((sn, sd, ".".join(["0"] * i + ["1"] * k + ["0"]), []))
        c.sample({"start": sn, "decision points": n0, "schedules": len(runs)})
        if not c.expired(): pmap(sched, runs)
    shutil.rmtree(h0, ignore_errors=True)
main("C43", body, level="fault_enumeration", quick_s=140, thorough_s=800)
