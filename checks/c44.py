#!/usr/bin/env python3
"""C44: the gray and grayc commands end to end: every exit status, every argument of a metacharacter alphabet, every command with every kind of operand, and project creation over every prior directory state."""
import sys, os, shutil, itertools, hashlib, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from gotree import *
ECHO = '''import @os
import @strconv

do main() {
    mut a = os.args()
    mut i int = 1
    as_long_as i < len(a) {
        println("<${a[i]}>")
        i = i + 1
    }
    eprintln("count ${len(a) - 1}")
    mut line string = input()
    println("in:${line}")
    if len(a) > 2 && a[1] == "exit" {
        mut c, _ = strconv.to_int(a[2])
        exit(c)
    }
}
'''
CC = '''#!/bin/sh
# a compiler that compiles each program once: the key is the source and the other arguments
out=; src=; prev=; key=
for a in "$@"; do
  case "$prev" in -o) out=$a;; *) case "$a" in /tmp/gray_*.c) src=$a;; -o) ;; *) key="$key $a";; esac;; esac
  prev=$a
done
if [ -n "$src" ] && [ -n "$out" ]; then
  h=$(cat "$src" - <<EOF_KEY | sha256sum | cut -d' ' -f1
$key
EOF_KEY
)
  if [ -f CACHE/$h ]; then exec cp -T CACHE/$h "$out"; fi
  REAL "$@"; rc=$?
  if [ $rc = 0 ]; then cp "$out" CACHE/$h.$$ && mv CACHE/$h.$$ CACHE/$h; fi
  exit $rc
fi
exec REAL "$@"
'''
def body(c):
    c.rule = "one evaluation = one command run on one set of operands in a directory of its own; all distinct"
    tc = Toolchain(c.tmp)
    d = gotree(c); gray = gobuild(d, "cli")
    home = os.path.join(c.tmp, "home"); os.makedirs(home); cache = os.path.join(c.tmp, "cc"); os.makedirs(cache); pbin = os.path.join(c.tmp, "pbin"); os.makedirs(pbin)
    for n in ("cc", "gcc", "clang"):
        real = shutil.which(n)
        if real: open(pbin + "/" + n, "w").write(CC.replace("CACHE", cache).replace("REAL", real)); os.chmod(pbin + "/" + n, 0o755)
    env = dict(tc.env, HOME=home, GRAY_COMPILER_PATH=tc.grayc, PATH=pbin + ":" + os.environ["PATH"], http_proxy="http://127.0.0.1:9", https_proxy="http://127.0.0.1:9")
    ctr = itertools.count()
    def wd(files=()):
        w = os.path.join(c.tmp, "w%d" % next(ctr)); os.makedirs(w)
        for n, t in dict(files).items():
            p = os.path.join(w, n); os.makedirs(os.path.dirname(p), exist_ok=True)
            if t is None: os.makedirs(p)
            else: open(p, "wb").write(t if isinstance(t, bytes) else t.encode())
        return w
    def ex(cmd, cwd, stdin=b"", timeout=60):
        try: p = subprocess.run(cmd, cwd=cwd, env=env, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired: return None, b"", b"(no end after %d s)" % timeout
        return p.returncode, p.stdout, p.stderr
    def tree(w):
        r = {}
        for dp, dn, fn in os.walk(w):
            for n in dn: r[os.path.relpath(os.path.join(dp, n), w) + "/"] = None
            for n in fn: r[os.path.relpath(os.path.join(dp, n), w)] = open(os.path.join(dp, n), "rb").read()
        return r
    base = wd({"p.gray": ECHO})
    code, o, e = ex([gray, "build", "p.gray", "-o", "direct"], base)
    if code: c.violation("build", "gray build fails: %d %s" % (code, (o + e).decode(errors="replace")[-300:]), {}); return
    ex([tc.grayc, "run", "p.gray"], base)
    def forms(args):
        yield "gray --", [gray, "p.gray", "--"] + args
        yield "grayc --", [tc.grayc, "run", "p.gray", "--"] + args
        if args and not args[0].startswith("-"): yield "grayc", [tc.grayc, "run", "p.gray"] + args
        if args and not any(a.startswith("-") for a in args): yield "gray", [gray, "p.gray"] + args
        yield "binary", [os.path.join(base, "direct")] + args
    def rest(o): return o
    def one(j):
        name, cmd, args, stdin, want = j
        code, o, e = ex(cmd, base, stdin)
        exp = b"".join(b"<" + a.encode() + b">\n" for a in args) + b"in:" + stdin.split(b"\n")[0] + b"\n"
        key = "args:%s:%r" % (name, args)
        if len(key) > 80: key = key[:60] + hashlib.sha1(key.encode()).hexdigest()[:8]
        if o != exp: c.violation(key, "%s with arguments %r: output %r instead of %r" % (name, args, o[:200], exp[:200]), {"args": args})
        if code != want: c.violation(key, "%s with arguments %r: exit status %r instead of %d" % (name, args, code, want), {"args": args})
        if e != b"count %d\n" % len(args): c.violation(key, "%s with arguments %r: error output %r" % (name, args, e[:200]), {"args": args})
        c.count("programs", 1)
    alpha = ["", " ", "a", "a b", "$HOME", "`id`", "$(id)", "'", '"', "\\", "\\n", "\n", "\t", ";", "&&", "|", "*", "?", "~", "#", "!", "%s", "%", "<", ">", "=", "a=b", "{}", "[a]", "é", "日本", "\x01", "\x7f", "0", "x.gray", "other.c", "run", "check", "/", ".", "a" * 200, "a" * 5000]
    dash = ["-", "--", "-q", "--quiet", "-o", "-c", "-v", "--help", "-h", "--version", "--no-color", "-O0", "-g", "--time", "-x", "--check", "--fmt", "-1", "--=", "-o=x"]
    vecs = [[]] + [[a] for a in alpha + dash] + [list(p) for p in itertools.product(["", "a b", "'\"", "$x", "\n", "x.gray"], repeat=2)] + [list(p) for p in itertools.product(["a", "--", "-q", "-o", ""], repeat=2)] + [[str(i) for i in range(n)] for n in (3, 9, 10, 64, 300)]
    if c.thorough: vecs += [list(p) for p in itertools.product(alpha[:34] + dash, repeat=2)]
    jobs = []
    for v in vecs:
        for name, cmd in forms(v):
            if name == "gray" and "--" in v: continue
            jobs.append((name, cmd, v, b"", 0))
    for st in (b"", b"line\n", b"two words\nmore\n", b"no newline", b"x" * 1000 + b"\n"):
        for name, cmd in forms(["a"]): jobs.append((name, cmd, ["a"], st, 0))
    for n in range(256):
        for name, cmd in forms(["exit", str(n)]):
            if name in ("gray --", "grayc --", "binary"): jobs.append((name, cmd, ["exit", str(n)], b"", n))
    for n in (256, 257, 1000, 65535):
        for name, cmd in forms(["exit", str(n)]):
            if name in ("gray --", "grayc --"): jobs.append((name, cmd, ["exit", str(n)], b"", n % 256))
    seen = set(); uj = []
    for j in jobs:
        k = (j[0], tuple(j[2]), j[3])
        if k not in seen: seen.add(k); uj.append(j)
    pmap(one, uj)
    # --- ends by panic or signal
    ends = {"panic": ('do main() {\n    println("before")\n    panic("stop")\n}\n', 1), "index": ('do main() {\n    println("before")\n    mut a [int] = {1}\n    mut i int = 5\n    println("${a[i]}")\n}\n', 1)}
    import signal as sg
    for s in (sg.SIGTERM, sg.SIGKILL, sg.SIGINT, sg.SIGHUP, sg.SIGUSR1, sg.SIGABRT, sg.SIGSEGV):
        ends["signal%d" % s] = ('import @os\n\ndo main() {\n    println("before")\n    mut code, out, err, ok = os.exec("sh", {"k.sh", "%d"})\n    println("after ${code}${out}${err}${ok}")\n}\n' % s, 128 + s)
    def end(k):
        src, want = ends[k]; w = wd({"p.gray": src, "k.sh": "kill -$1 $PPID\n"})
        for name, cmd in (("gray", [gray, "p.gray"]), ("grayc", [tc.grayc, "run", "p.gray"])):
            code, o, e = ex(cmd, w)
            if code != want: c.violation("end:%s:%s" % (name, k), "a program ending by %s under %s: exit status %r instead of %d %r" % (k, name, code, want, (o + e)[-200:]), {})
            if k in ("panic", "index") and (o != b"before\n" or b"panic" not in e): c.violation("end:%s:%s" % (name, k), "a program ending by %s under %s: output %r %r" % (k, name, o, e), {})
            left = set(tree(w)) - {"p.gray", "k.sh"}
            if left: c.violation("end:left:%s:%s" % (name, k), "running leaves %r" % left, {})
            c.count("programs", 1)
    pmap(end, list(ends))
    # --- commands and operands: what each must do
    OK = 'do main() {\n    println("hi")\n}\n'; OK2 = 'do main() {\n    println("hi")\n   println("there")\n}\n'
    DOC = '#doc("does it")\ndo helper() {\n    println("x")\n}\n\n' + OK
    TY = 'do main() {\n    mut x int = "a"\n    println("${x}")\n}\n'; SYN = "do main( {\n"
    FILES = {"ok.gray": OK, "un.gray": OK2, "doc.gray": DOC, "ty.gray": TY, "syn.gray": SYN, "empty.gray": "", "t.txt": "x\n", "nomain.gray": "do f() {\n    println(\"x\")\n}\n", "okdir/main.gray": OK, "okdir/lib.gray": "do f() -> int {\n    return 1\n}\n",
             "badimp.gray": 'import "./nosuch"\n\n' + OK, "tydir/main.gray": TY, "emptydir": None, "sub dir/ok it.gray": OK, "dash-name.gray": OK, "imp.gray": 'import "./okdir/lib.gray"\n\ndo main() {\n    println("${lib.f()}")\n}\n', "locked": None}
    good = ["ok.gray", "un.gray", "doc.gray", "sub dir/ok it.gray", "dash-name.gray", "./ok.gray"]
    bad = ["ty.gray", "syn.gray", "empty.gray", "badimp.gray", "nosuch.gray", "nosuch/x.gray", "t.txt", "nosuch", "nomain.gray"]
    cases = []   # name, argv, want success, expected new/changed files (None: do not care), output to contain
    def case(name, argv, ok, new=(), out=None, stdin=b""): cases.append((name, argv, ok, new, out, stdin))
    stem = lambda f: os.path.basename(f)[:-5]
    for f in good:
        case("run", [gray, f], True, (), b"hi\n"); case("run", [tc.grayc, "run", f], True, (), b"hi\n")
        case("check", [gray, "check", f], True); case("check", [tc.grayc, "check", f], True)
        case("build", [gray, "build", f], True, None); case("build", [tc.grayc, "build", f], True, None)
        case("build -o", [gray, "build", f, "-o", "out.bin"], True, ("out.bin",)); case("build -o", [gray, "build", "-o", "out dir/x y", f], False, ()) ; case("build -o", [tc.grayc, "build", f, "-o", "out.bin"], True, ("out.bin",))
        case("build -o sub", [gray, "build", f, "-o", "emptydir/out"], True, ("emptydir/out",)); case("build -o nodir", [gray, "build", f, "-o", "nodir/out"], False); case("build -o dir", [gray, "build", f, "-o", "emptydir"], False)
        case("emit-c -o", [gray, "build", f, "--emit-c", "-o", "x.c"], True, ("x.c",)); case("emit-c -o nodir", [gray, "build", f, "--emit-c", "-o", "nodir/x.c"], False)
        case("emit-c", [gray, "build", f, "--emit-c"], True, (stem(f) + ".c",))
        case("run flags", [gray, "--no-color", f], True, (), b"hi\n"); case("run flags", [gray, "-q", "all", f], True, (), b"hi\n"); case("run flags", [gray, f, "-q", "W1001", "--no-color"], True, (), b"hi\n"); case("build flags", [gray, "build", f, "-o", "out.bin", "-q", "all", "--time", "--no-color"], True, ("out.bin",))
        case("doc", [gray, "doc", f], True, ("DOCS.md",) if f == "doc.gray" else ()); case("doc -o", [gray, "doc", f, "-o", "a/b/API.md"], True, ("a/", "a/b/", "a/b/API.md") if f == "doc.gray" else ())
        case("fmt", [gray, "fmt", f], True, ("un.gray",) if f == "un.gray" else ()); case("fmt --check", [gray, "fmt", "--check", f], f != "un.gray")
    for f in bad:
        case("run", [gray, f], False); case("run", [tc.grayc, "run", f], False)
        for o in ([], ["-o", "out.bin"], ["-o", "keep.bin"], ["--emit-c"], ["--emit-c", "-o", "x.c"], ["-q", "all"]): case("build", [gray, "build", f] + o, False)
        case("build", [tc.grayc, "build", f], False); case("check", [gray, "check", f], False); case("check", [tc.grayc, "check", f], False); case("check -q", [gray, "check", f, "-q", "all"], False)
    for f in ("nosuch.gray", "nosuch", "t.txt", "nosuch/..."):
        case("fmt", [gray, "fmt", f], False); case("fmt --check", [gray, "fmt", "--check", f], False); case("fmt 2", [gray, "fmt", "ok.gray", f], False); case("fmt 2", [gray, "fmt", f, "ok.gray"], False)
        case("doc", [gray, "doc", f], False); case("doc 2", [gray, "doc", "ok.gray", f], False)
    case("doc 2", [gray, "doc", "nosuch.gray", "doc.gray"], False, None)
    case("check dir", [gray, "check", "okdir"], True); case("check dir", [gray, "check", "okdir/"], True); case("check dir", [gray, "check", "tydir"], False); case("check dir", [gray, "check", "emptydir"], False)
    case("run dir", [gray, "okdir"], False); case("build dir", [gray, "build", "okdir"], False); case("watch", [gray, "watch", "nosuch.gray"], False); case("watch", [gray, "watch", "emptydir"], False); case("watch", [gray, "watch", "t.txt"], False)
    case("fmt dir", [gray, "fmt", "okdir"], True); case("fmt dir", [gray, "fmt", "./..."], True, ("un.gray",)); case("fmt dir", [gray, "fmt", "--check", "./..."], False); case("fmt dir", [gray, "fmt", "--check", "okdir"], True); case("fmt dir", [gray, "fmt", "--check", "."], False)
    case("doc dir", [gray, "doc", "."], True, ("DOCS.md",)); case("doc dir", [gray, "doc", "./..."], True, ("DOCS.md",)); case("doc dir", [gray, "doc", "okdir"], True); case("doc -o dir", [gray, "doc", "doc.gray", "-o", "emptydir"], False); case("doc -o file", [gray, "doc", "doc.gray", "-o", "t.txt/x.md"], False)
    for a in (["build"], ["check"], ["fmt"], ["doc"], ["watch"], ["install"], ["build", "ok.gray", "un.gray"], ["check", "ok.gray", "un.gray"], ["verify", "x"], ["new", "a", "b"], ["install", "1.2"], ["install", "1.2.3", "1.2.4"], ["install", "latest"], ["install", "1.2.3"], ["update"], ["man", "nosuch"], ["man", "math.nosuch"], ["bogus"], ["Build", "ok.gray"], ["--bogus"], ["build", "--bogus", "ok.gray"], ["check", "--bogus", "ok.gray"], ["fmt", "--bogus", "ok.gray"], ["build", "ok.gray", "-o"], ["--bogus", "ok.gray"], ["new", "x", "-t"], ["update", "--confirm"], ["update", "--confirm", "http://127.0.0.1/x"]):
        case("usage", [gray] + a, False)
    for a in ([], ["help"], ["--help"], ["-h"], ["version"], ["man"], ["man", "builtins"], ["man", "println"], ["man", "math"], ["man", "strings.contains"], ["man", "lang"], ["man", "keywords"], ["man", "types"], ["man", "symbols"], ["man", "attributes"], ["man", "struct"], ["man", "i8"], ["man", "flags"], ["help", "build"], ["build", "--help"], ["report"]):
        case("info", [gray] + a, True, (), b"")
    case("imports", [gray, "imp.gray"], True, (), b"1\n")
    def cmd(k):
        name, argv, ok, new, out, stdin = k
        w = wd(dict(FILES, **{"keep.bin": "previous"})); before = tree(w)
        code, o, e = ex(argv, w, stdin); after = tree(w)
        tool = "gray" if argv[0] == gray else "grayc"; key = "cmd:%s:%s" % (name, " ".join([tool] + argv[1:]))
        if code is None or (code != 0) != (not ok) or (code or 0) < 0 or b"goroutine " in e: c.violation(key, "%s: exit status %r, %s expected: %r" % (key[4:], code, "success" if ok else "failure", (o + e)[-200:]), {"argv": argv})
        if not ok and not (o + e).strip(): c.violation(key + ":silent", "%s fails without a message" % key[4:], {"argv": argv})
        if ok and out is not None:
            if not (o.startswith(out) if out else o + e): c.violation(key + ":output", "%s: output %r" % (key[4:], o[:200]), {"argv": argv})
        ch = sorted(p for p in set(before) | set(after) if before.get(p, 0) != after.get(p, 0))
        if name == "build" and ok: new = (stem(argv[2]),) if (stem(argv[2])) in after else (argv[2][:-5],)
        if new is not None and ch != sorted(new): c.violation(key + ":files", "%s: changes the files %r instead of %r" % (key[4:], ch, sorted(new)), {"argv": argv})
        if name.startswith("build") and ok and new:
            bp = os.path.join(w, new[0])
            if os.path.exists(bp):
                code, o, e = ex([bp], w)
                if code or not o.startswith(b"hi\n"): c.violation(key + ":program", "%s: the program gives %r %r" % (key[4:], code, o[:100]), {"argv": argv})
        c.count("commands", 1); shutil.rmtree(w)
    pmap(cmd, cases)
    # --- new projects
    tpls = [("basic", None), ("cli", None), ("lib", None), ("multi", None), ("server", "minimal"), ("server", "normal"), ("client", "minimal"), ("client", "normal"), ("nosuch", None), ("server", "nosuch"), ("", None)]
    states = {"absent": {}, "emptydir": {"proj": None}, "dir": {"proj/main.gray": "mine\n", "proj/sub/x": "y"}, "file": {"proj": "mine\n"}}
    forces = [([], b""), (["--force"], b"y\n"), (["--force"], b"n\n"), (["--force"], b""), (["-f"], b"yes\n"), (["-f"], b"yesterday\n")]
    newcases = []
    for (t, s), st, (fo, ans), com in itertools.product(tpls, states, forces, (0, 1)):
        if not c.thorough and com and st != "absent": continue
        newcases.append((t, s, st, fo, ans, com))
    def new(k):
        t, s, st, fo, ans, com = k
        w = wd(dict(states[st], other="keep\n")); before = tree(w)
        argv = [gray, "new", "proj", "-t", t] + (["-s", s] if s else []) + fo + (["-c"] if com else [])
        code, o, e = ex(argv, w, ans); after = tree(w)
        key = "new:%s:%s:%s:%s:%s:%d" % (t, s, st, "".join(fo), ans.decode().strip(), com)
        valid = t in ("basic", "cli", "lib", "multi", "server", "client") and s != "nosuch"
        agreed = st == "absent" or (fo and ans in (b"y\n", b"yes\n"))
        made = valid and agreed
        if (code == 0) != (made or bool(valid and fo and st != "absent")): c.violation(key, "%s: exit status %r: %r" % (key, code, (o + e)[-200:]), {"argv": argv})
        if code and not (o + e).strip(): c.violation(key, "%s fails without a message" % key, {})
        if not made and before != after: c.violation(key, "%s: changes %r" % (key, sorted(set(after) ^ set(before))), {})
        if made:
            if after.get("other") != b"keep\n" or any(not p.startswith("proj/") and p != "other" for p in after): c.violation(key, "%s: touches files outside the project: %r" % (key, sorted(after)), {})
            pw = os.path.join(w, "proj")
            if b"mine\n" in after.values() or "proj/sub/x" in after: c.violation(key, "%s: keeps old files" % key, {})
            code, o, e = ex([gray, "build", "main.gray", "-o", "app"], pw)
            if code or not os.path.exists(pw + "/app"): c.violation(key, "%s: the new project does not build: %r" % (key, (o + e)[-300:]), {})
            code, o, e = ex([gray, "check", "main.gray"], pw)
            if code: c.violation(key, "%s: the new project does not check: %r" % (key, (o + e)[-300:]), {})
            code, o, e = ex([gray, "fmt", "--check", "."], pw)
            if code: c.violation(key, "%s: the new project is not formatted: %r" % (key, (o + e)[-300:]), {})
            if t in ("basic", "lib", "multi"):
                code, o, e = ex([pw + "/app"], pw)
                if code or not o: c.violation(key, "%s: the new program: status %r, output %r" % (key, code, (o + e)[-200:]), {})
        c.count("projects", 1); shutil.rmtree(w)
    pmap(new, newcases)
    names = ["..", ".", "", "/", "a/b", "a\\b", "../x", "/tmp/x", "~", "~x", "a..b", "...", "a/..", "a/", "./a", "-x", " ", "x y", "é", ".hidden", "a.gray", "name\n", "a'b", 'a"b', "$(id)", "*", "con", "x" * 255, "x" * 256]
    def nm(n):
        w = wd({"in/other": "keep\n"}); before = tree(w); inn = os.path.join(w, "in")
        for argv in ([gray, "new", "--", n], [gray, "new"]):
            code, o, e = ex(argv, inn, b"" if len(argv) == 4 else n.encode() + b"\nbasic\nn\n"); after = tree(w)
            key = "name:%r:%d" % (n[:20], len(argv))
            tops = {p.split("/")[1] for p in after if p.startswith("in/") and p != "in/"} - {"other"}
            if code == 0 and len(tops) != 1: c.violation(key, "gray new %r succeeds, but creates %r" % (n, tops), {})
            if code == 0 and tops and tops != {n} and len(argv) == 4: c.violation(key, "gray new %r creates %r" % (n, tops), {})
            if code != 0 and after != before: c.violation(key, "gray new %r fails (%r), but leaves %r" % (n, code, tops), {})
            if code not in (0, 1) or (code and not (o + e).strip()): c.violation(key, "gray new %r: status %r, %r" % (n, code, e[-200:]), {})
            if any(not p.startswith("in/") for p in after) or after.get("in/other") != b"keep\n": c.violation(key, "gray new %r touches files outside: %r" % (n, sorted(after)[:5]), {})
            for x in tops: shutil.rmtree(os.path.join(inn, x), ignore_errors=True)
            c.count("projects", 1)
        shutil.rmtree(w)
    pmap(nm, names)
    shutil.rmtree(base)
main("C44", body, level="exploration", quick_s=140, thorough_s=800)
