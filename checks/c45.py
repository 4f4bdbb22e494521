#!/usr/bin/env python3
"""C45: the real gray watch on every import syntax and graph of a bounded set, and every history of one or two file operations; the compiler is a recorder that notes the sources it would have compiled, and which files matter is asked of the real compiler."""
import sys, os, shutil, itertools, hashlib, subprocess, time, signal, threading
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from gotree import *
REC = '''#!/bin/sh
# stands in for the compiler: notes the state of all sources at the moment it runs
cd "$TREE" || exit 1
d=$(find . -name '*.gray' -type f -print0 | LC_ALL=C sort -z | while IFS= read -r -d '' f; do printf '%s\\n' "$f"; cat "$f"; done | sha1sum | cut -d' ' -f1)
echo "$d" >> "$RECLOG"
exit ${RECEXIT:-0}
'''
REC = REC.replace("#!/bin/sh", "#!/bin/bash")
def digest(tree):
    fs = []
    for dp, dn, fn in os.walk(tree):
        for f in fn:
            if f.endswith(".gray"): fs.append(os.path.relpath(os.path.join(dp, f), tree))
    h = hashlib.sha1()
    for f in sorted(("./" + f).encode() for f in fs): h.update(f + b"\n" + open(os.path.join(tree, f.decode()), "rb").read())
    return h.hexdigest()
def fn(name, val, extra=""): return "do %s() -> int {\n    return %s%s\n}\n" % (name, val, extra)
def body(c):
    c.rule = "one evaluation = one history of file operations below a running gray watch, or one import syntax put to the real compiler; all distinct"
    tc = Toolchain(c.tmp); d = gotree(c); gray = gobuild(d, "cli")
    rec = os.path.join(c.tmp, "recorder"); open(rec, "w").write(REC); os.chmod(rec, 0o755)
    home = os.path.join(c.tmp, "home"); os.makedirs(home); ctr = itertools.count()
    def put(p, text):
        os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(text)
    def tree(files):
        w = os.path.join(c.tmp, "t%d" % next(ctr)); os.makedirs(w)
        for n, t in files.items(): put(os.path.join(w, n), t)
        return w
    # --- programs: main file, files, the files whose content matters
    progs = []
    def main_(imp, expr): return imp + "\n\ndo main() {\n    println(\"${%s}\")\n}\n" % expr
    A = fn("f", 1); one = {"a.gray": A}
    syn = ['import "./lib/a"', 'import "./lib/a.gray"', 'import m "./lib/a"', 'import m "./lib/a.gray"', 'import and use "./lib/a"', 'import @math, "./lib/a"', 'import "./lib/a", @math', 'import @math, m "./lib/a"', 'import "./lib/a" // note', '    import "./lib/a"', '\timport "./lib/a"', 'import   "./lib/a"', 'import\t"./lib/a"', 'import m\t"./lib/a"', 'import  m   "./lib/a"', '/* c */ import "./lib/a"', 'import /* c */ "./lib/a"', 'import "./lib/a" /* c */', 'import @math,"./lib/a"', 'import @math ,  "./lib/a"', 'import @math,\n       "./lib/a"', 'import\n    "./lib/a"', '// import "./b"\nimport "./lib/a"', 'import "././lib/a"', 'import ".//lib/a"', 'import "./sub/../lib/a"', 'import "lib/a"', 'import "lib/a.gray"', 'import ./lib/a', 'import @math\nimport "./lib/a"', 'import @math import "./lib/a"', 'import "./lib/a"\nusing a', 'import @math, and use "./lib/a"', 'import and use @math, "./lib/a"', 'import and use "./lib/a", @math', 'import and use m "./lib/a"', 'import m@math, n"./lib/a"', 'import @math // , "./b"\nimport "./lib/a"', '#doc("x")\nimport "./lib/a"', '\n\n\nimport "./lib/a"', 'import "./lib/a"\r', "import '" "./lib/a'"]
    for s in syn:
        for ex in ("a.f()", "m.f()", "f()", "n.f()"): progs.append(("syntax:%r" % s, "main.gray", {"lib/a.gray": A, "main.gray": main_(s, ex), "sub/x.gray": fn("g", 2)}, ["lib/a.gray"]))
    B2 = {"a.gray": 'import "./b"\n\n' + fn("f", 1, " + b.g()"), "b.gray": fn("g", 2)}
    progs.append(("chain2", "main.gray", dict(B2, **{"main.gray": main_('import "./a"', "a.f()")}), ["a.gray", "b.gray"]))
    progs.append(("chain3", "main.gray", {"main.gray": main_('import "./x/a"', "a.f()"), "x/a.gray": 'import "./y/b"\n\n' + fn("f", 1, " + b.g()"), "x/y/b.gray": 'import "../../z/k"\n\n' + fn("g", 2, " + k.h()"), "z/k.gray": fn("h", 3)}, ["x/a.gray", "x/y/b.gray", "z/k.gray"]))
    progs.append(("chain3-entry", "main.gray", {"main.gray": main_('import "./x/a"', "a.f()"), "x/a.gray": 'import "./x/y/b"\n\n' + fn("f", 1, " + b.g()"), "x/y/b.gray": fn("g", 2)}, ["x/a.gray", "x/y/b.gray"]))
    progs.append(("diamond", "main.gray", {"main.gray": main_('import "./a", "./b"', "a.f() + b.g()"), "a.gray": 'import "./k"\n\n' + fn("f", 1, " + k.h()"), "b.gray": 'import "./k"\n\n' + fn("g", 2, " + k.h()"), "k.gray": fn("h", 3)}, ["a.gray", "b.gray", "k.gray"]))
    progs.append(("up", "app/main.gray", {"app/main.gray": main_('import "../lib/a"', "a.f()"), "lib/a.gray": A}, ["lib/a.gray"]))
    progs.append(("subdir", "main.gray", {"main.gray": main_('import "./lib/a"', "a.f()"), "lib/a.gray": A}, ["lib/a.gray"]))
    progs.append(("dirmod", "main.gray", {"main.gray": main_('import "./lib"', "lib.f() + lib.g()"), "lib/a.gray": A, "lib/b.gray": fn("g", 2)}, ["lib/a.gray", "lib/b.gray"]))
    progs.append(("dirmod-alias", "main.gray", {"main.gray": main_('import m "./lib"', "m.f() + m.g()"), "lib/a.gray": A, "lib/b.gray": fn("g", 2)}, ["lib/a.gray", "lib/b.gray"]))
    progs.append(("dirmod-chain", "main.gray", {"main.gray": main_('import "./lib"', "lib.f()"), "lib/a.gray": 'import "../other/k"\n\n' + fn("f", 1, " + k.h()"), "other/k.gray": fn("h", 3)}, ["lib/a.gray", "other/k.gray"]))
    progs.append(("spaces", "my app/main.gray", {"my app/main.gray": main_('import m "./my lib/a b"', "m.f()"), "my app/my lib/a b.gray": A}, ["my app/my lib/a b.gray"]))
    progs.append(("two", "main.gray", {"main.gray": main_('import "./a"\nimport "./b"', "a.f() + b.g()"), "a.gray": A, "b.gray": fn("g", 2)}, ["a.gray", "b.gray"]))
    longl = "// " + "x" * 70000 + "\n"
    progs.append(("longline", "main.gray", {"main.gray": longl + main_('import "./a"', "a.f()"), "a.gray": A}, ["a.gray"]))
    # what the compiler says: does the program run, and does each file matter?
    def ask(p):
        name, mainf, files, deps = p
        w = tree(files)
        def go():
            r = run([tc.grayc, "run", "--quiet", os.path.join(w, mainf)], 60, env=tc.env, cwd=w)
            return r.stdout if r.returncode == 0 else None
        o = go(); ok = o is not None
        if ok:
            for f in deps:
                t = files[f]; t2 = t.replace("return ", "return 40 + ", 1)
                put(os.path.join(w, f), t2)
                if go() == o: ok = False
                put(os.path.join(w, f), t)
        shutil.rmtree(w); return p if ok else None
    got = pmap(ask, progs); live = [p for p in got if p]
    uniq = []
    for p in live:
        if p[0] not in [q[0] for q in uniq]: uniq.append(p)
    c.count("syntaxes", len(progs)); c.sample({"programs the compiler accepts": len(uniq), "names": [p[0] for p in uniq][:60]})
    if len(uniq) < 15: raise CheckError("only %d programs compile: %s" % (len(uniq), [p[0] for p in uniq]))
    # --- operations on one file
    ver = itertools.count(100)
    def edit(t): return t.replace("return ", "return %d + " % next(ver), 1) if "return " in t else t + "// %d\n" % next(ver)
    def op_write(w, f): p = os.path.join(w, f); t = edit(open(p).read()); h = open(p, "r+"); h.truncate(0); h.write(t); h.close()
    def op_parts(w, f):
        p = os.path.join(w, f); t = edit(open(p).read()); h = open(p, "w")
        for i in range(0, len(t), max(1, len(t) // 3)): h.write(t[i:i + max(1, len(t) // 3)]); h.flush(); time.sleep(0.06)
        h.close()
    def op_append(w, f): h = open(os.path.join(w, f), "a"); h.write("// %d\n" % next(ver)); h.close()
    def op_inplace(w, f):
        p = os.path.join(w, f); t = open(p).read(); h = open(p, "r+"); h.seek(len(t) - 1); h.write(" \n"); h.close()
    def op_rename(w, f): p = os.path.join(w, f); t = edit(open(p).read()); open(p + "~tmp", "w").write(t); os.rename(p + "~tmp", p)
    def op_backup(w, f): p = os.path.join(w, f); t = edit(open(p).read()); os.rename(p, p + "~"); open(p, "w").write(t); os.unlink(p + "~")
    def op_recreate(w, f): p = os.path.join(w, f); t = edit(open(p).read()); os.unlink(p); time.sleep(0.02); open(p, "w").write(t)
    def op_late(w, f): p = os.path.join(w, f); t = edit(open(p).read()); os.unlink(p); time.sleep(0.4); open(p, "w").write(t)
    def op_delete(w, f): os.unlink(os.path.join(w, f))
    def op_link(w, f): p = os.path.join(w, f); t = edit(open(p).read()); open(p + "~new", "w").write(t); os.unlink(p); os.link(p + "~new", p); os.unlink(p + "~new")
    def op_burst(w, f):
        for _ in range(8): op_rename(w, f); time.sleep(0.015)
    ops = dict(write=op_write, parts=op_parts, append=op_append, inplace=op_inplace, rename=op_rename, backup=op_backup, recreate=op_recreate, late=op_late, delete=op_delete, link=op_link, burst=op_burst)
    def session(j):
        name, target, files, steps, gap, prog = j
        w = tree(files); log = w + ".log"; open(log, "w").close()
        env = dict(ENV, HOME=home, GRAY_COMPILER_PATH=rec, TREE=w, RECLOG=log)
        p = subprocess.Popen([gray, "watch", os.path.join(w, target)], cwd=w, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
        def runs(): return open(log).read().split()
        def wait(want, limit):
            t0 = time.time()
            while time.time() - t0 < limit:
                r = runs()
                if r and r[-1] == want: return True
                if p.poll() is not None: return False
                time.sleep(0.02)
            return False
        try:
            if not wait(digest(w), 30):
                c.violation("watch:%s:start" % name, "%s: the first run does not happen (%r)" % (name, runs()), {}); return
            done = []
            for k, s in enumerate(steps):
                s(w); done.append(getattr(s, "what", "?"))
                if gap == "settled" or k == len(steps) - 1:
                    if not wait(digest(w), 12):
                        c.violation("watch:%s:%s" % (name, "+".join(done)), "%s: after %s the last of %d runs was not on the final sources" % (name, ", ".join(done), len(runs())), {"files": files, "steps": done, "stderr": ""}); return
                elif gap: time.sleep(gap)
            n = len(runs())
            if prog: # nothing changes any more: the runs have to end
                time.sleep(0.7); m = len(runs())
                if m - n > 4: c.violation("watch:%s:loop" % name, "%s: %d runs within 0.7 s after the last change" % (name, m - n), {})
        finally:
            c.count("histories", 1)
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            p.wait(); p.stderr.close(); shutil.rmtree(w, ignore_errors=True); os.path.exists(log) and os.unlink(log)
    def S(opname, f):
        def s(w): ops[opname](w, f)
        s.what = "%s %s" % (opname, f); return s
    def T(what, fnc): fnc.what = what; return fnc
    jobs = []
    for name, mainf, files, deps in uniq:
        every = [mainf] + deps
        if name.startswith("syntax"):
            jobs.append((name, mainf, files, [S("write", "lib/a.gray"), S("rename", "lib/a.gray"), S("write", mainf), S("recreate", "lib/a.gray")], "settled", False)); continue
        for f in every:
            for o in ops: jobs.append((name, mainf, files, [S(o, f)], 0, o == "write"))
        for f in every: jobs.append((name, mainf, files, [S("rename", f), S("write", f), S("backup", f), S("write", f)], "settled", False))
        # directory mode
        if os.path.dirname(mainf) == "":
            for o in ("write", "rename", "recreate", "late"):
                for f in every: jobs.append((name + ":dir", ".", files, [S(o, f)], 0, False))
        else:
            for f in every: jobs.append((name + ":dir", os.path.dirname(mainf), files, [S("write", f), S("rename", f)], "settled", False))
    # all pairs of operations, on the same and on different files, one right after the other, within and after the quiet interval
    pname, pmain, pfiles, pdeps = next(p for p in uniq if p[0] == "chain3")
    pairops = ["write", "rename", "recreate", "late", "backup", "append"] if not c.thorough else [o for o in ops if o != "delete"]
    for a, b in itertools.product(pairops, repeat=2):
        for fa, fb in itertools.product([pmain, "x/a.gray", "z/k.gray"], repeat=2):
            for gap in ((0, 0.1, "settled") if c.thorough else ((0.1,) if (fa, fb) != ("x/a.gray", "x/a.gray") else (0, 0.1, "settled"))): jobs.append((pname + ":%s" % gap, pmain, pfiles, [S(a, fa), S(b, fb)], gap, False))
    # the graph changes while it is watched
    base = {"main.gray": main_('import "./a"', "a.f()"), "a.gray": A}
    def newimport(where, path, text):
        def s(w):
            p = os.path.join(w, "main.gray"); t = open(p).read(); put(os.path.join(w, path), text)
            open(p, "w").write('import %s\n' % where + t.replace("a.f()", "a.f() + b.g()"))
        return T("import %s (%s)" % (where, path), s)
    def importfirst(where, path, text, delay):
        def s(w):
            p = os.path.join(w, "main.gray"); t = open(p).read(); open(p, "w").write('import %s\n' % where + t.replace("a.f()", "a.f() + b.g()")); time.sleep(delay)
            put(os.path.join(w, path), text)
        return T("import %s, then create %s after %g s" % (where, path, delay), s)
    for where, path in (('"./b"', "b.gray"), ('b "./lib/b"', "lib/b.gray"), ('b "./lib/deep/b"', "lib/deep/b.gray"), ('b "./lib"', "lib/b.gray"), ('b "../ext/b"', None)):
        if path is None: continue
        for o in ("write", "rename", "recreate", "late"):
            jobs.append(("new import", "main.gray", base, [newimport(where, path, fn("g", 2)), S(o, path), S("write", "a.gray")], "settled", False))
        for dl in (0, 0.05, 0.4): jobs.append(("new import", "main.gray", base, [importfirst(where, path, fn("g", 2), dl), S("write", path)], "settled", False))
        for pre in ("lib/other.gray", None): jobs.append(("late import", "main.gray", dict(base, **({pre: fn("z", 1)} if pre else {})), [importfirst(where, path, fn("g", 2), 0.4), S("rename", path)], "settled", False))
    def chain(w):
        p = os.path.join(w, "a.gray"); put(os.path.join(w, "q/r.gray"), fn("g", 5)); open(p, "w").write('import "./q/r"\n\n' + fn("f", 1, " + r.g()"))
    for o in ("write", "rename", "recreate"): jobs.append(("new transitive", "main.gray", base, [T("a imports q/r", chain), S(o, "q/r.gray"), S(o, "a.gray")], "settled", False))
    def addmod(w): put(os.path.join(w, "lib/c.gray"), fn("h", 9))
    dm = next(p for p in uniq if p[0] == "dirmod")
    for o in ("write", "rename", "recreate"): jobs.append(("module grows", "main.gray", dm[2], [T("create lib/c.gray", addmod), S(o, "lib/c.gray"), S("delete", "lib/c.gray")], "settled", False))
    def adddir(w): put(os.path.join(w, "fresh/n.gray"), fn("h", 9))
    jobs.append(("directory grows", ".", base, [T("create fresh/n.gray", adddir), S("write", "fresh/n.gray"), S("write", "a.gray")], "settled", False)) if False else None
    # failing runs do not end the watch
    seen = set(); todo = []
    for j in jobs:
        k = (j[0], j[1], tuple(s.what for s in j[3]), j[4])
        if k not in seen: seen.add(k); todo.append(j)
    c.sample({"histories": len(todo)})
    with ThreadPoolExecutor(32) as ex: list(ex.map(session, todo))
main("C45", body, level="exploration", quick_s=200, thorough_s=800)
