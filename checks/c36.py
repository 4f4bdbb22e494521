#!/usr/bin/env python3
"""C36: the real directory and path functions through one compiled Gray program run as an unprivileged user: every small tree with directories, files and links of every kind against a model of its entries, every path text to a length bound against lexical definitions, and every system call of the recursive operations failing once."""
import sys, os, itertools, shutil, subprocess, resource, posixpath, glob as pyglob, stat
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from gotree import ftrace
from concurrent.futures import ThreadPoolExecutor
UID = 65534
SEP = "/\\"
def r_dirname(p):
    if not p: return "."
    n = len(p)
    while n > 1 and p[n - 1] in SEP: n -= 1
    k = max((i for i in range(n) if p[i] in SEP), default=-1)
    if k < 0: return "."
    while k > 0 and p[k - 1] in SEP: k -= 1
    return "/" if k == 0 else p[:k]
def r_base(p):
    if not p: return "."
    q = p.rstrip(SEP)
    return q.replace("\\", "/").rsplit("/", 1)[-1] if q else "/"
def r_ext(p):
    s = p.replace("\\", "/").rsplit("/", 1)[-1]; k = s.rfind(".")
    return "" if k <= 0 or k == len(s) - 1 else s[k:]
def r_norm(p):
    if not p: return "."
    q = posixpath.normpath(p.replace("\\", "/"))
    return "/" + q.lstrip("/") if q.startswith("/") else q
def r_join(ps):
    r = ps[0]
    for s in ps[1:]:
        if not s: continue
        if s[0] in SEP: r = s
        elif not r or r[-1] in SEP: r += s
        else: r += "/" + s
    return r
def lp(s): return "%d:%s" % (len(s.encode("utf-8", "surrogateescape")), s)
def snap(d):
    r = {}
    def rec(rel):
        for e in os.scandir(os.path.join(d, rel) if rel else d):
            k = os.path.join(rel, e.name)
            if e.is_symlink(): r[k] = ("l", os.readlink(e.path))
            elif e.is_dir(): r[k] = ("d",); rec(k)
            else: r[k] = ("f", open(e.path, "rb").read())
    rec(""); return r
def body(c):
    c.rule = "one evaluation = one operation on one tree (with at most one fault), or one path text put to all path functions; all distinct"
    tc = Toolchain(c.tmp); drv0 = tc.must_compile(open(os.path.join(VERIF, "lib/c/io_driver.gray")).read()); ft0 = ftrace(c)
    # everything the driver may touch belongs to a user who owns nothing else
    os.chmod(c.tmp, 0o711); U = os.path.join(c.tmp, "user"); os.makedirs(U); os.chown(U, UID, UID)
    drv = os.path.join(c.tmp, "drv"); ft = os.path.join(c.tmp, "ft"); shutil.copy(drv0, drv); shutil.copy(ft0, ft); os.chmod(drv, 0o755); os.chmod(ft, 0o755)
    def drop():
        os.setgroups([]); os.setgid(UID); os.setuid(UID)
    p = subprocess.run(["/usr/bin/id", "-u"], capture_output=True, preexec_fn=drop, cwd="/")
    if p.stdout.strip() != b"%d" % UID: raise CheckError("cannot become an unprivileged user: %r" % p.stderr)
    ctr = itertools.count()
    def go(args, cwd, cmd=(), env=None, pre=None, timeout=60):
        def pe():
            if pre: pre()
            drop()
        p = subprocess.run(list(cmd) + [drv] + args, cwd=cwd, stdin=subprocess.DEVNULL, capture_output=True, timeout=timeout, preexec_fn=pe, env=env)
        return p.returncode, p.stdout, p.stderr
    def own(path): os.lchown(path, UID, UID)
    # ---- path functions
    AL = "a./\\" ; strs = ["".join(t) for n in range(0, 9 if c.thorough else 7) for t in itertools.product(AL, repeat=n)]
    strs += ["".join(t) for n in range(1, 5) for t in itertools.product(["..", "/", "é", "x.tar.gz", " "], repeat=n)]
    for n in (1, 2, 254, 255, 256, 257, 258, 300, 1000, 5000):
        for seg in ("..", "a", ".", "ab.c", "a/.."):
            for lead in ("", "/", "x/"): strs += [lead + "/".join([seg] * n), lead + "/".join([seg] * n) + "/"]
    for n in (4094, 4095, 4096, 4097, 20000): strs += ["a" * n, "/" + "a" * n + ".x", "b/" * (n // 2)]
    strs = list(dict.fromkeys(strs))
    def paths(g):
        if c.expired(20) or c.too_many(): return
        args = []
        for s in g: args += ["paths", s, ""]
        rc, out, err = go(args, U); c.count("path functions", 5 * len(g))
        exp = ["%s %s %s %s %s" % (lp(r_dirname(s)), lp(r_base(s)), lp(r_ext(s)), str(s.startswith("/")).lower(), lp(r_norm(s))) for s in g]
        got = out.decode("utf-8", "replace").split("\n")
        for i, e in enumerate(exp):
            if i >= len(got) or got[i] != e:
                what = ["dirname", "basename", "extension", "is_absolute", "normalize"]; k = 0
                if i < len(got):
                    for k, (x, y) in enumerate(zip(got[i].split(" "), e.split(" "))):
                        if x != y: break
                c.violation("path:" + what[min(k, 4)], "%r (%d characters): dirname, basename, extension, absolute, normalize are %r, expected %r (status %d %r)" % (g[i][:60], len(g[i]), got[i][-150:] if i < len(got) else None, e[-150:], rc, err[:100]), {"path": g[i][:300]}); return
    batches = []; cur = []; size = 0
    for s in strs:
        if cur and (len(cur) >= 300 or size + len(s) > 60000): batches.append(cur); cur = []; size = 0
        cur.append(s); size += len(s)
    batches.append(cur)
    parts = ["", "a", "/", "/b", "a/", "..", "c.d", "\\e", "f\\", "//"]
    joins = [t for n in range(1, 5 if c.thorough else 4) for t in itertools.product(parts, repeat=n) if t != ("",)]
    def join(g):
        args = []
        for t in g: args += ["join", "|".join(t), ""]
        rc, out, err = go(args, U); c.count("path join", len(g)); got = out.decode().split("\n")
        for i, t in enumerate(g):
            e = "join %s false" % lp(r_join(t))
            if i >= len(got) or got[i] != e: c.violation("path:join", "path_join%r is %r, expected %r (status %d)" % (t, got[i] if i < len(got) else None, e, rc), {"parts": t}); return
    # ---- trees
    KINDS = [("d", None), ("f", b"1"), ("l", "."), ("l", ".."), ("l", "../out"), ("l", "ABS/out"), ("l", "nowhere"), ("l", "x"), ("l", "../../out"), ("l", "../other/f")]
    names = ["x", "y"]
    def trees(limit):
        """all sets of entries: each (path, kind) with its parent a directory of the set"""
        res = []
        def rec(cur, slots, left):
            res.append(dict(cur))
            if not left: return
            for i, s in enumerate(slots):
                for k, v in KINDS:
                    if k == "l" and v == s.split("/")[-1]: pass
                    cur[s] = (k, v); rec(cur, slots[i + 1:] + ([s + "/" + n for n in names] if k == "d" else []), left - 1); del cur[s]
        rec({}, list(names), limit); return res
    T = trees(4 if c.thorough else 3)
    T = list({tuple(sorted(t.items())): t for t in T}.values())
    def place(base, t, root="r"):
        """base/r is the tree; base/out and base/other must survive"""
        for d in (base, base + "/" + root, base + "/out", base + "/out/deep", base + "/other"): os.makedirs(d, exist_ok=True); own(d)
        for f in ("out/keep", "out/deep/keep", "other/f"):
            p = base + "/" + f; open(p, "wb").write(b"keep"); own(p)
        for k in sorted(t):
            kind, v = t[k]; p = "%s/%s/%s" % (base, root, k)
            if kind == "d": os.mkdir(p)
            elif kind == "f": open(p, "wb").write(v)
            else: os.symlink(v.replace("ABS", base), p)
            own(p)
    def parse_list(line, op):
        f = line.split(" ", 2)
        if len(f) < 3 or f[0] != op: return None
        n = int(f[1]); s = f[2]; r = []
        for _ in range(n):
            k = s.index(":"); m = int(s[:k]); r.append(s[k + 1:k + 1 + m]); s = s[k + 1 + m:]
        return sorted(r), s.strip()
    def tree(g):
        if c.expired(20) or c.too_many(): return
        base = os.path.join(U, "t%d" % next(ctr)); os.makedirs(base); own(base); args = []
        for i, t in enumerate(g):
            b = "%s/%d" % (base, i); place(b, t); os.symlink("r", b + "/rl"); own(b + "/rl"); r = "%d/r" % i
            args += ["walk", r, "", "pwalk", r + "/", "", "list", r, "", "plist", r, "", "walk", "%d/rl" % i, "", "rmall", "%d/rl" % i, "", "prmall", "%d/rl/" % i, "", "rmdir", r, "", "rmall", r + ("/" if i % 3 == 2 else ""), "", "walk", r, "", "list", r, "", "rmall", r, ""]
            if i % 2: args[-12 * 3 + 8 * 3] = "prmall"
        before = [snap("%s/%d" % (base, i)) for i in range(len(g))]
        rc, out, err = go(args, base); c.count("trees", 12 * len(g)); L = out.decode("latin1").split("\n")
        if rc or len(L) != 12 * len(g) + 1: c.violation("tree", "trees %s...: status %d, %d lines, %r" % (g[0], rc, len(L), err[:100]), {"trees": g}); shutil.rmtree(base); return
        for i, t in enumerate(g):
            l = L[12 * i:12 * i + 12]; top = sorted({k.split("/")[0] for k in t}); allk = sorted(t)
            def bad(what, got, want):
                c.violation("tree:" + what, "%s of %s: %r, expected %r" % (what, {k: v[1] if v[0] == "l" else v[0] for k, v in t.items()}, got, want), {"tree": repr(t)})
            for j, op, want in ((0, "walk", allk), (1, "pwalk", allk), (2, "list", top), (3, "plist", top), (4, "walk", allk)):
                if parse_list(l[j], op) != (want, "false"): bad(op, l[j][:150], want)
            if l[5] != "rmall false true" : bad("remove through a link", l[5], "rmall false true")
            if l[6] != "prmall false false": bad("remove through a link", l[6], "prmall false false")
            if l[7] != ("rmdir true false" if not t else "rmdir false true"): bad("rmdir", l[7], not t)
            op8 = "prmall" if i % 2 else "rmall"
            want8 = "%s %s %s" % (op8, str(bool(t)).lower(), "true" if not t and op8 == "rmall" else "false")
            if l[8] != want8: bad("remove_dir_all", l[8], want8)
            if l[9] != "walk 0  true" or l[10] != "list 0  true" or l[11] != "rmall false true": bad("after removal", l[9:12], "errors")
            after = snap("%s/%d" % (base, i)); want = {k: v for k, v in before[i].items() if k != "r" and not k.startswith("r/")}
            if after != want: bad("what is left", sorted(set(after) ^ set(want))[:5] or "changed contents", "all but the tree")
        shutil.rmtree(base)
    # ---- make_dir_all, make_dir, remove_dir, remove_dir_all on every path of segments
    SEGS = ["x", "d", "f", "l", "lo", "dang", ".", "..", "", "b\\c"]
    mk = [t for n in range(1, 4) for t in itertools.product(SEGS, repeat=n) if t.count("..") <= 1]
    def setup(b):
        place(b, {"d": ("d", None), "d/e": ("d", None), "f": ("f", b"2"), "l": ("l", "d"), "lo": ("l", "../out"), "dang": ("l", "nowhere")})
    def mkone(P):
        cur = P[:1]
        for k in range(1, len(P)):
            if P[k] == "/":
                try: os.mkdir(P[:k])
                except OSError: pass
        try: os.mkdir(P)
        except OSError: pass
        return os.path.isdir(P)
    def mkdirs(g):
        if c.expired(20) or c.too_many(): return
        base = os.path.join(U, "m%d" % next(ctr)); os.makedirs(base); own(base); args = []; want = []
        for i, (op, t) in enumerate(g):
            for w in "rm": setup("%s/%s%d" % (base, w, i))
            rel = "/r/" + "/".join(t); args += [op, "r%d%s" % (i, rel), ""]; P = "%s/m%d%s" % (base, i, rel); o = op[1:] if op[0] == "p" else op
            if o == "mkdirs": ok = mkone(P)
            else:
                try: (os.mkdir if o == "mkdir" else os.rmdir)(P); ok = True
                except OSError: ok = False
            want.append("%s %s %s" % (op, str(ok).lower(), str(not ok and op[0] != "p").lower()))
        rc, out, err = go(args, base); c.count("directories", len(g)); L = out.decode().split("\n")
        for i, (op, t) in enumerate(g):
            a, b = snap("%s/r%d" % (base, i)), snap("%s/m%d" % (base, i))
            if i >= len(L) or L[i] != want[i] or a != b:
                c.violation("directories:" + op, "%s of r/%s: %r, expected %r; differing entries %s (status %d)" % (op, "/".join(t), L[i] if i < len(L) else None, want[i], sorted(set(a) ^ set(b))[:4], rc), {"op": op, "path": t})
        shutil.rmtree(base)
    mkw = [(o, t) for t in mk for o in ("mkdirs", "pmkdirs", "mkdir", "rmdir")] if c.thorough else [(o, t) for i, t in enumerate(mk) for o in ("mkdirs", ("pmkdirs", "mkdir", "rmdir")[i % 3])]
    # ---- big trees
    def bigs():
        base = os.path.join(U, "big"); os.makedirs(base); own(base)
        for depth, nm in ((300, "d"), (900, "e"), (40, "n" * 200)) + (((3000, "g"),) if c.thorough else ()):
            r = base + "/r"; os.mkdir(r); own(r); fd = os.open(r, os.O_RDONLY)
            for i in range(depth):
                os.mkdir(nm, dir_fd=fd); os.chown(nm, UID, UID, dir_fd=fd); nf = os.open(nm, os.O_RDONLY, dir_fd=fd); os.close(fd); fd = nf
            f = os.open("leaf", os.O_CREAT | os.O_WRONLY, dir_fd=fd); os.close(f); os.close(fd)
            rc, out, err = go(["walk", "r", "", "rmall", "r", ""], base, pre=lambda: resource.setrlimit(resource.RLIMIT_NOFILE, (4096, 4096))); c.count("big trees", 2)
            w = sorted(["/".join([nm] * k) for k in range(1, depth + 1)] + ["/".join([nm] * depth) + "/leaf"]); L = out.decode().split("\n")
            if rc or parse_list(L[0], "walk") != (w, "false") or L[1] != "rmall true false" or os.path.exists(r): c.violation("big trees", "a chain of %d directories of %d characters: status %d, walk %s entries, %r" % (depth, len(nm), rc, L[0].split(" ")[1:2], L[1:2]), {"depth": depth}); subprocess.run(["rm", "-rf", r])
        r = base + "/r"; os.mkdir(r); own(r)
        n = 30000 if c.thorough else 6000
        for i in range(n): os.close(os.open(r + "/file%d" % i, os.O_CREAT | os.O_WRONLY))
        rc, out, err = go(["list", "r", "", "walk", "r", "", "glob", "r/file1*", "", "rmall", "r", ""], base); c.count("big trees", 4); L = out.decode().split("\n"); w = sorted("file%d" % i for i in range(n))
        if rc or parse_list(L[0], "list") != (w, "false") or parse_list(L[1], "walk") != (w, "false") or parse_list(L[2], "glob") != (sorted("r/" + x for x in w if x.startswith("file1")), "false") or L[3] != "rmall true false" or os.path.exists(r): c.violation("big trees", "a directory of %d files: status %d %s" % (n, rc, [x[:40] for x in L]), {"n": n})
        shutil.rmtree(base, ignore_errors=True)
    # ---- glob
    PAT = ["".join(t) for n in range(1, 5 if c.thorough else 4) for t in itertools.product(["*", "?", "a", "[ab]", "[!a]", "/", ".", "b"], repeat=n)]
    PAT = [p for p in PAT if not p.startswith("/") and "//" not in p and not any(s in (".", "..") for s in p.split("/")) and not p.startswith("./") and not p.endswith("/") and not any(s[0] == "." for s in p.split("/"))]
    def globs(g):
        base = os.path.join(U, "glob"); args = []
        for p in g: args += ["glob", p, ""]
        rc, out, err = go(args, base); c.count("glob", len(g)); L = out.decode().split("\n")
        for i, p in enumerate(g):
            w = sorted(x for x in pyglob.glob(p, root_dir=base)); got = parse_list(L[i], "glob") if i < len(L) else None
            if got != (w, "false"): c.violation("glob", "glob(%r) is %r, expected %r" % (p, got, w), {"pattern": p}); return
    gb = os.path.join(U, "glob")
    for d in ("", "a", "b", ".h", "a/b", "ab"): os.makedirs(os.path.join(gb, d), exist_ok=True)
    for f in ("aa", "bb", "a/a", "a/b/b", ".a", "b/.b", "c"): open(os.path.join(gb, f), "w").close()
    # ---- temporary files and directories are gone after every kind of end
    def temps():
        for n in (1, 2, 255, 256, 257, 300):
            for op in ("tmpf", "tmpd"):
                for end, code in (([], 0), (["exit", "0", ""], 0), (["exit", "3", ""], 3), (["panic", "", ""], 1)):
                    rc, out, err = go([op, str(n), "data"] + end, U); c.count("temporary", n)
                    ps = [l.split(b" ")[1].split(b":", 1)[1] for l in out.split(b"\n") if l.startswith(op.encode())]
                    left = [p for p in ps if os.path.lexists(p)]
                    if rc != code or len(set(ps)) != n or left or any(l.endswith(b"true") for l in out.split(b"\n")[:n]): c.violation("temporary:" + op, "%d times %s, then %s: status %d, %d paths, %d left, %r" % (n, op, end, rc, len(set(ps)), len(left), err[:100]), {"n": n})
                    for p in left:
                        if p.startswith(b"/tmp/gray_") and len(p) == 16: subprocess.run(["rm", "-rf", p.decode()])
    # ---- faults
    FT = {"x": ("d", None), "x/x": ("f", b"1"), "x/y": ("l", "../../out"), "y": ("f", b"2"), "x/z": ("d", None), "z": ("d", None)}
    def trace(ops, fo):
        k = next(ctr); base = os.path.join(U, "f%d" % k); os.makedirs(base); own(base); place(base, FT); log = os.path.join(U, "log%d" % k)
        before = snap(base)
        rc, out, err = go([x.replace("@", base) for x in ops], base, cmd=[ft, "-p", base + "/", "-o", log, "-r"] + fo + ["--"], env=dict(os.environ, FT_LIMIT="20"))
        ev = [l.split(" ", 2) for l in open(log, errors="replace").read().split("\n") if l[:1].isdigit()]; os.unlink(log)
        after = snap(base); shutil.rmtree(base); return rc, out.decode("latin1"), err, ev, before, after
    FO = [["walk", "@/r", ""], ["list", "@/r", ""], ["rmall", "@/r", ""], ["prmall", "@/r", ""], ["rmdir", "@/r/z", ""], ["mkdirs", "@/r/z/p/q", ""], ["mkdir", "@/r/n", ""], ["pmkdirs", "@/r/n/m", ""], ["glob", "@/r/*", ""]]
    def fault(a):
        ops, i, e, ref, full = a
        if c.expired(10) or c.too_many(): return
        rc, out, err, ev, before, after = trace(ops, ["-e", "%d:%d" % (i, e)]); c.count("faults", 1); op = ops[0]
        if e == 2 and i < len(ref) and 'getdents' in ref[i][2]: return   # the kernel's answer for a directory that is gone: an end, not a failure
        def bad(what): c.violation("fault:" + op, "%s with %s failing with %d: %s" % (op, ev[i][2][-60:] if i < len(ev) else "?", e, what), {"op": ops, "event": i, "errno": e})
        if rc: bad("status %d %r" % (rc, err[:100])); return
        out_of = lambda s: {k: v for k, v in s.items() if k != "r" and not k.startswith("r/")}
        if out_of(before) != out_of(after): bad("something outside changed"); return
        if op in ("walk", "list", "glob"):
            # a failing look at a glob match may hide it; a directory which cannot be read is an error
            if before != after: bad("a listing changed the tree")
            if op != "glob" and out.rstrip().endswith("false") and (parse_list(out.split("\n")[0], op) or [None])[0] != parse_list(full.split("\n")[0], op)[0]: bad("success with %r" % out[:150])
            return
        ok = " true " in out
        if op.endswith("rmall"):
            if ok and "r" in after: bad("success, but the tree is still there: %s" % sorted(after))
        elif op == "rmdir":
            if ok == ("r/z" in after): bad("%r but the directory is %sthere" % (out, "" if "r/z" in after else "not "))
        else:
            d = ops[1][2:]
            if ok and after.get(d) != ("d",): bad("success, but no directory")
            if any(k in before and after.get(k) != before[k] for k in before): bad("something that existed changed")
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(paths, batches)); list(ex.map(join, [joins[i:i + 200] for i in range(0, len(joins), 200)]))
        list(ex.map(tree, [T[i:i + 40] for i in range(0, len(T), 40)])); list(ex.map(mkdirs, [mkw[i:i + 40] for i in range(0, len(mkw), 40)]))
        bigs(); list(ex.map(globs, [PAT[i:i + 200] for i in range(0, len(PAT), 200)])); temps()
        jobs = []
        for o in FO:
            rc, out, err, ev, b, a = trace(o, [])
            if rc or not ev: raise CheckError("no events for %s %r %r" % (o, out, err))
            jobs += [(o, i, e, ev, out) for i in range(len(ev)) for e in (13, 5, 24, 39, 2)[:5 if c.thorough else 3]]
        list(ex.map(fault, jobs))
    c.sample({"trees": len(T), "paths": len(strs), "faults": len(jobs), "directories": len(mkw)})
if __name__ == "__main__": main("C36", body, level="exploration", quick_s=240, thorough_s=840)
