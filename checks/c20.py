#!/usr/bin/env python3
"""C20: the real formatter on every sequence of source pieces up to a length, against an independent reading of the text; the real command with every failing, shortened and last system call of a run."""
import sys, os, itertools, stat, glob, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from gotree import *
PIECES = ["x", "{", "}", "}{", '"s"', '"{"', '"a`b"', '"\\""', '"\\\\"', '"${f("}")}"', '"${ {', '} z"', "`", "'{'", "'\"'", "'`'", "'\\''", "// it's \"a ` {", "/*", "*/", "/* ` \" { */", "/", "$", "\\", "@", "é", "\"", "'"]
CORE = ["x", "{", "}", '"{"', '"${f("}")}"', "`", "'\"'", "// \" ` {", "/*", "*/", '"${ {', '} z"']
SEPS = ["\n", " ", "\n \t", "\n\n"]
def scan(s):
    """(kind, start, end) of comments, literals and other text; kinds: string raw char line block word brace"""
    i = 0; n = len(s); out = []
    while i < n:
        ch = s[i]
        if ch in " \t\r\n": i += 1; continue
        b = i
        if s.startswith("//", i):
            while i < n and s[i] != "\n": i += 1
            k = "line"
        elif s.startswith("/*", i):
            j = s.find("*/", i + 2); i = n if j < 0 else j + 2; k = "block"
        elif ch == "`":
            j = s.find("`", i + 1); i = n if j < 0 else j + 1; k = "raw"
        elif ch == '"':
            i += 1; depth = 0; k = "string"
            while i < n:
                if s[i] == "\\" and i + 1 < n: i += 2; continue
                if s.startswith("${", i): depth += 1; i += 2; continue
                if s[i] == "{" and depth: depth += 1
                elif s[i] == "}" and depth: depth -= 1
                elif s[i] == '"' and not depth: i += 1; break
                elif s[i] == "\n" and not depth: break
                i += 1
        elif ch == "'":
            i += 1; k = "char"
            if i < n and s[i] == "\\": i += 1
            i += 1
            while i < n and s[i] not in "'\n": i += 1
            if i < n and s[i] == "'": i += 1
            i = min(i, n)
        elif ch in "{}": i += 1; k = "brace"
        else:
            i += 1; k = "word"
            if ch.isalnum() or ch == "_":
                while i < n and (s[i].isalnum() or s[i] == "_"): i += 1
        out.append((k, b, i))
    return out
def toks(s):
    return [(k, "\n".join(l.lstrip(" \t") if n else l for n, l in enumerate(s[b:e].split("\n"))) if k == "block" else s[b:e]) for k, b, e in scan(s)]
def unclear(s):
    """escaped line ends, and char literals that do not end on their line, are read in more than one way"""
    s += "\n"
    return "\\\n" in s or "'\n" in s and re.search(r"'\\?\n", s) is not None
def expect(s, o):
    """None or what is wrong with o as the formatted s"""
    if s and s[-1] != "\n": s += "\n"
    if toks(o) != toks(s): return "the tokens, comments or literals change: %r become %r" % (toks(s), toks(o))
    si = s.split("\n"); so = o.split("\n")
    if s == "": return None if o == "" else "an empty file becomes %r" % o
    if len(so) != len(si): return "%d lines become %d" % (len(si), len(so))
    lit = set(); depth = 0; want = {}; t = scan(s); ln = [0]
    for chx in s: ln.append(ln[-1] + (chx == "\n"))
    for k, b, e in t:
        if k in ("raw", "string"): lit |= set(range(ln[b] + 1, ln[e] + 1))
        if k in ("line", "block"): continue
        if s[b] == "}" and k == "brace": depth = max(0, depth - 1)
        if not s[s.rfind("\n", 0, b) + 1:b].strip(" \t"): want.setdefault(ln[b], depth)
        if s[b] == "{" and k == "brace": depth += 1
    for n, (a, b) in enumerate(zip(si, so)):
        if n in lit:
            if a != b: return "line %d lies in a literal and changes from %r to %r" % (n + 1, a, b)
        elif a.lstrip(" \t") != b.lstrip(" \t"): return "line %d changes from %r to %r" % (n + 1, a, b)
        elif n in want and b != " " * (4 * want[n]) + a.lstrip(" \t"): return "line %d is %r, at depth %d" % (n + 1, b, want[n])
    return None
def do_part(ts): return PART(ts)
def body(c):
    c.rule = "one evaluation = one source text formatted (twice) or one run of the command under one fault, crash or file arrangement; all distinct"
    tc = Toolchain(c.tmp); src = tc.src if os.path.exists(os.path.join(tc.src, "fmt")) else os.path.join(REPO, "grayc/src")
    drv = os.path.join(c.tmp, "fmtd")
    r = run(["gcc", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-w", "-I", src, "-o", drv, os.path.join(VERIF, "lib/c/fmt_driver.c")] + [os.path.join(src, f) for f in ("fmt/fmt.c", "lexer/lexer.c", "lexer/token.c", "util/arena.c")])
    if r.returncode: raise CheckError(r.stderr.decode()[-2000:])
    def texts():
        n = 3 if not c.thorough else 4
        for k in range(0, n):
            for ps in itertools.product(PIECES, repeat=k):
                for ss in itertools.product(SEPS, repeat=max(0, k - 1)): yield "".join(a + b for a, b in itertools.zip_longest(ps, ss, fillvalue=""))
        for ps in itertools.product(CORE, repeat=n):
            for ss in itertools.product(SEPS[:3], repeat=n - 1):
                yield "".join(a + b for a, b in itertools.zip_longest(ps, ss, fillvalue=""))
        for ps in itertools.product(PIECES, repeat=3):
            yield "\n".join(ps); yield "\n  " + "\n \t".join(ps) + " \t\n"
    def part(ts):
        if c.expired(15): return 0, []
        V = []; N = 0
        ts = [t for t in dict.fromkeys(ts) if not unclear(t)]
        r = subprocess.run([drv], input=b"".join(t.encode() + b"\0" for t in ts), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        o = r.stdout; p = 0
        for t in ts:
            e = o.find(b"\n", p)
            if e < 0:
                V.append(("crash:%r" % t, "the formatter ends with %d on %r: %s" % (r.returncode, t, r.stderr.decode(errors="replace")[:300]), {"text": t})); break
            r1, n1, r2, n2 = map(int, o[p:e].split()); a = o[e + 1:e + 1 + n1]; b = o[e + 1 + n1:e + 1 + n1 + n2]; p = e + 1 + n1 + n2
            N += 1
            if r1 or r2: V.append(("refused:%r" % t, "formatting %r fails (%d %d)" % (t, r1, r2), {"text": t})); continue
            w = expect(t, a.decode(errors="surrogateescape"))
            if w: V.append(("changed:%r" % t, "formatting %r gives %r: %s" % (t, a.decode(errors="replace"), w), {"text": t}))
            elif a != b: V.append(("not idempotent:%r" % t, "formatting %r gives %r, and formatting that gives %r" % (t, a, b), {"text": t}))
        return N, V
    # the command
    d = gotree(c); gray = gobuild(d, "cli"); ft = ftrace(c); env = dict(tc.env, GRAY_COMPILER_PATH=tc.grayc, HOME=c.tmp, FT_LIMIT="60")
    def one(s):
        r = subprocess.run([drv], input=s + b"\0", stdout=subprocess.PIPE, stderr=subprocess.PIPE); e = r.stdout.find(b"\n")
        if e < 0 or r.returncode: raise CheckError("formatter driver on %r: %s" % (s[:80], r.stderr[-800:]))
        return r.stdout[e + 1:e + 1 + int(r.stdout[:e].split()[1])]
    ctr = itertools.count()
    def scratch():
        h = os.path.join(c.tmp, "w%d" % next(ctr)); os.makedirs(h); return h
    for t in ("if(a){\nf( )\n}", "x :=1 //c"): c.sample({"text": t, "formatted": one(t.encode()).decode()})
    corpus = []
    for f in sorted(glob.glob(os.path.join(REPO, "integration-tests/**/*.gray"), recursive=True)):
        b = open(f, "rb").read()
        if b"\0" not in b and len(b) < 60000: corpus.append((os.path.relpath(f, REPO), b))
    if not c.thorough: corpus = corpus[::6]
    def variants(b):
        yield "as is", b
        yield "flush left", b"\n".join(l.lstrip(b" \t") for l in b.split(b"\n")) if b"`" not in b else b + b"\n"
        yield "tabs", b.replace(b"    ", b"\t") if b"`" not in b and b'"' not in b else b + b" \t"
        yield "CRLF", b.replace(b"\r\n", b"\n").replace(b"\n", b"\r\n")
        yield "no end of line", b.rstrip(b"\n")
    def files(j):
        name, b = j
        if c.expired(15) or c.too_many(): return
        for vn, v in variants(b):
            t = v.decode(errors="surrogateescape"); o = one(v); c.count("files")
            w = None if unclear(t) else expect(t, o.decode(errors="surrogateescape"))
            if w: c.violation("file:%s:%s" % (name, vn), "%s (%s): %s" % (name, vn, w), {"text": t}); continue
            if one(o) != o: c.violation("file idempotent:%s:%s" % (name, vn), "formatting %s (%s) twice differs from once" % (name, vn), {"text": t})
    def cli():
        """arrangements of files, with and without --check"""
        ok = b"do main() {\n    println(\"a\")\n}\n"; bad = b"do main() {\nprintln(\"a\")\n}\n"; raw = b"const s = `\n x {\n`\n"; nul = b"do main() {\nx\0y\n}\n"; empty = b""; noeol = b"do main() {\n}"
        kinds = {"ok": ok, "bad": bad, "raw": raw, "nul": nul, "empty": empty, "noeol": noeol, "missing": None, "dir": "dir", "link": "link", "dangling": "dangling"}
        jobs = []
        for ks in list(itertools.product(kinds, repeat=1)) + list(itertools.product(kinds, repeat=2)):
            for chk in (0, 1):
                for how in ("args", "dir", "tree"): jobs.append((ks, chk, how))
        def go(j):
            ks, chk, how = j
            if c.expired(15) or c.too_many(): return
            h = scratch(); sub = os.path.join(h, "s"); os.makedirs(sub); paths = []; before = {}; changes = set(); fails = 0
            for n, k in enumerate(ks):
                dirn = sub if how == "tree" and n else h; p = os.path.join(dirn, "f%d.gray" % n); paths.append(p); v = kinds[k]
                if v == "dir": os.makedirs(p); 
                elif v == "link": open(os.path.join(h, "target%d" % n), "wb").write(bad); os.chmod(os.path.join(h, "target%d" % n), 0o640); os.symlink(os.path.join(h, "target%d" % n), p)
                elif v == "dangling": os.symlink(os.path.join(h, "nothing"), p)
                elif v is not None: open(p, "wb").write(v); os.chmod(p, 0o600 + 0o11 * n)
                if k in ("bad", "noeol", "link"): changes.add(p)
                if k == "nul" or k == "dangling" and how != "x" or k == "missing" and how == "args": fails += 1
            tgt = paths if how == "args" else [h] if how == "dir" else [h + "/..."]
            def snap():
                m = {}
                for root, ds, fs in os.walk(h):
                    for f in fs:
                        p = os.path.join(root, f); st = os.lstat(p); m[p] = (stat.S_IFMT(st.st_mode), st.st_mode & 0o777, os.readlink(p) if os.path.islink(p) else open(p, "rb").read())
                return m
            b = snap(); r = subprocess.run([gray, "fmt"] + (["--check"] if chk else []) + tgt, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=h, timeout=60); a = snap()
            key = "cli:%s:%s:%s" % ("+".join(ks), "check" if chk else "write", how); out = r.stdout.decode(errors="replace"); err = r.stderr.decode(errors="replace"); c.count("command runs")
            want = dict(b)
            if not chk:
                for p in b:
                    q = b[p]
                    if q[0] == stat.S_IFREG and b"\0" not in q[2]: want[p] = (q[0], q[1], one(q[2]))
            if a != want: c.violation(key, "%s: files afterwards: %r instead of %r" % (key, sorted(a.items()), sorted(want.items())), {"files": list(ks)})
            word = "would format: " if chk else "formatted: "
            said = {l[len(word):] for l in out.split("\n") if l.startswith(word)}
            if {os.path.basename(x) for x in said} != {os.path.basename(x) for x in changes}: c.violation(key, "%s: reports %r, formatting changes %r" % (key, sorted(said), sorted(changes)), {"files": list(ks), "output": out + err})
            wantx = 1 if fails or (chk and changes) else 0
            if r.returncode != wantx or (fails and not err.strip()): c.violation(key, "%s: exits %d with %d unreadable files and %d to change; stderr %r" % (key, r.returncode, fails, len(changes), err[:200]), {"files": list(ks), "output": out + err})
            shutil.rmtree(h, ignore_errors=True)
        pmap(go, jobs)
    def faults():
        big = b"do main() {\n" + b"println(\"abc\")\n" * 3000 + b"}\n"; small = b"do main() {\nprintln(\"abc\")\n}\n"; same = b"do main() {\n}\n"
        for name, text in (("small", small), ("big", big), ("unchanged", same), ("raw", b"const s = `\n x\n`\ndo main() {\nprintln(s)\n}\n")):
            new = one(text)
            def run1(opts):
                h = scratch(); p = os.path.join(h, "f.gray"); open(p, "wb").write(text); os.chmod(p, 0o640)
                r = subprocess.run([ft, "-p", h + "/", "-o", h + ".log"] + opts + ["--", tc.grayc, "--fmt", p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=c.tmp, timeout=120)
                now = open(p, "rb").read() if os.path.exists(p) else None; mode = os.stat(p).st_mode & 0o777 if now is not None else 0
                left = [x for x in os.listdir(h) if x != "f.gray"]; log = open(h + ".log").read().split("\n")
                shutil.rmtree(h); os.unlink(h + ".log"); return r.returncode, r.stderr.decode(errors="replace"), now, mode, left, log
            code, err, now, mode, left, log = run1([])
            ev = [l.split(" ", 2) for l in log if l[:1].isdigit()]
            if code or now != new or left: c.violation("plain:" + name, "formatting %s: exit %d, left %r" % (name, code, left), {"text": name}); continue
            jobs = []
            for n, _, what in ev:
                jobs.append(("killed before", n, what, ["-k", n]))
                if what.startswith("write"): jobs += [("killed within", n, what, ["-k", "%s:%d" % (n, b)]) for b in (0, 1, 7, 100)] + [("shortened", n, what, ["-s", "%s:%d" % (n, b)]) for b in (1, 5)]
                for e in (5, 28, 13, 4): jobs.append(("failing %d" % e, n, what, ["-e", "%s:%d" % (n, e)]))
            def go(j):
                how, n, what, opts = j; code, err, now, mode, left, log = run1(opts); c.count("faults"); key = "fault:%s:%s:%s" % (name, how, re.sub(r"/\S*/", "", what)[:60])
                if now not in (text, new): c.violation(key, "%s, %s at %s: the file is left with %s" % (name, how, what, "nothing" if now is None else "%d bytes, neither old nor new" % len(now)), {"event": what}); return
                if mode != 0o640: c.violation(key, "%s, %s at %s: the mode becomes %o" % (name, how, what, mode), {"event": what})
                if how.startswith("killed"): return
                if code == 0 and now != new: c.violation(key, "%s, %s at %s: success is reported but the file is unchanged" % (name, how, what), {"event": what})
                if code and not err.strip(): c.violation(key, "%s, %s at %s: failure without a message" % (name, how, what), {"event": what})
                if code and now != text: c.violation(key, "%s, %s at %s: failure is reported but the file is changed" % (name, how, what), {"event": what})
                if left and not what.startswith("unlink"): c.violation(key, "%s, %s at %s: %r left behind" % (name, how, what, left), {"event": what})
            pmap(go, jobs)
    cli(); faults(); pmap(files, corpus)
    def chunks():
        it = iter(texts())
        while True:
            b = list(itertools.islice(it, 4000))
            if not b: return
            yield b
    import multiprocessing
    global PART; PART = part
    with multiprocessing.get_context("fork").Pool(NCPU) as pool:
        for n, v in pool.imap_unordered(do_part, chunks(), chunksize=1):
            c.count("texts", n)
            for x in v:
                if not c.too_many(): c.violation(*x)
if __name__ == "__main__": main("C20", body, level="exploration", quick_s=240, thorough_s=840)
