#!/usr/bin/env python3
"""C17: the sanitised compiler front end on every token sequence up to a length, every single-token change and every prefix of valid programs, every byte in every kind of place, and deep nestings."""
import sys, os, itertools, re, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
TOK = ["do", "const", "mut", "struct", "enum", "if", "or", "otherwise", "for", "for_each", "as_long_as", "loop", "when", "is", "default", "return", "break", "continue", "ensure", "import", "using", "in", "range", "new", "cast", "nil", "true", "private", "and", "use", "or_return", "ref", "copy", "error",
       "x", "main", "S", "f", "int", "string", "map", "1", "0", "2.5", '"s"', '"${x}"', '"${', "'c'", "`r`", "+", "-", "*", "/", "%", "=", "+=", "++", "--", "==", "<", "&&", "||", "!", "!in", "&", "^", "?", "(", ")", "[", "]", "{", "}", ",", ":", ".", "->", "#", "#strict", "#json", "@", "@os", "_", "\n", "..", "$", "\\", "\"", "`", "'", "/*", "//"]
CORE = ["do", "const", "mut", "if", "for", "when", "is", "return", "x", "S", "int", "1", '"${x}"', "+", "=", "(", ")", "[", "]", "{", "}", ",", ":", ".", "->", "^", "?", "\n"]
SUB = ["x", "1", '"s"', "(", ")", "{", "}", "[", "]", ",", ".", "=", "+", "int", "^", "?", ":", "do", "nil", "when", "#strict", "\n", "->", "&"]
CTX = [("file", "%s\n"), ("statement", "const S struct {\n    a int\n}\ndo f(x int) -> int { return x }\ndo main() {\n    mut x = 1\n    %s\n}\n"), ("expression", "const S struct {\n    a int\n}\ndo f(x int) -> int { return x }\ndo main() {\n    mut x = 1\n    mut y = %s\n    println(y)\n}\n"),
       ("type", "const S struct {\n    a int\n}\ndo f(x %s) {\n}\ndo main() {\n}\n"), ("field", "const S struct {\n    %s\n}\ndo main() {\n}\n"), ("case", "do main() {\n    mut x = 1\n    when x {\n        is %s { }\n        default { }\n    }\n}\n"), ("interpolation", "do main() {\n    mut x = 1\n    println(\"${%s}\")\n}\n"), ("variant", "const E enum {\n    A\n    %s\n}\ndo main() {\n}\n"), ("attribute", "#%s\nconst S struct {\n    a int\n}\ndo main() {\n}\n"), ("import", "import %s\ndo main() {\n}\n"), ("argument", "do f(x int, y string = \"a\") -> int { return x }\ndo main() {\n    mut x = 1\n    println(f(%s))\n}\n")]
TRE = re.compile(r'\n|[ \t]+|//[^\n]*|`[^`]*`|"(?:\\.|\$\{[^}]*\}|[^"\\])*"|\'(?:\\.|[^\'])\'|[A-Za-z_]\w*|\d[\w.]*|->|\+\+|--|[-+*/%=!<>]=|&&|\|\||.', re.S)
def body(c):
    c.rule = "one evaluation = one source text given to the sanitised compiler; all distinct"
    tc = Toolchain(c.tmp, compiler_san=True)
    def relink(t, flags, name):
        os.unlink(t.grayc)
        r = run(["make", "-s", "LDFLAGS=-lm %s %s -Wl,--wrap=main" % (flags, t.fork_o), "CFLAGS=-std=c11 -D_POSIX_C_SOURCE=200809L -w -O1 -g1 -fno-omit-frame-pointer %s -DGRAY_VERSION=\\\"verif\\\"" % flags, "grayc"], cwd=t.src, env=dict(ENV))
        if r.returncode: raise CheckError(r.stderr.decode()[-2000:])
    relink(tc, "-fsanitize=address,undefined -fno-sanitize-recover=undefined", "san")
    env = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:detect_stack_use_after_return=0:handle_segv=1:allocator_may_return_null=1", "UBSAN_OPTIONS": "halt_on_error=1:exitcode=98:print_stacktrace=0", "LD_LIBRARY_PATH": tc.src}
    work = os.path.join(c.tmp, "in"); os.makedirs(work); ctr = itertools.count(); seen = set()
    def batch(part, items, t=tc, tmo=10):
        """items: (key, text)"""
        items = [(k, (s if isinstance(s, bytes) else s.encode("utf-8", "surrogateescape"))) for k, s in items]
        items = [x for x in items if x[1] not in seen and not seen.add(x[1])]
        for n in range(0, len(items), 4000):
            if c.expired(20) or c.too_many(): return
            part_items = items[n:n + 4000]; cases = []; ps = []
            for k, s in part_items:
                p = os.path.join(work, "p%d.gray" % next(ctr)); open(p, "wb").write(s); ps.append(p); cases.append(["-c", p, "-o", p + ".c"])
            res = t.forkrun(t.grayc, cases, timeout=tmo, env=env, chunk=250)
            chk = t.forkrun(t.grayc, [["check", p] for p, r in zip(ps, res) if r[0] == 0], timeout=tmo, env=env, chunk=250); it = iter(chk)
            for (k, s), p, (st, o, e) in zip(part_items, ps, res):
                c.count(part); err = e.decode(errors="replace"); what = None
                if st == 0:
                    s2, _, e2 = next(it)
                    if s2 != 0: what = "emitting C succeeds and check exits %d: %s" % (s2, e2.decode(errors="replace")[:200])
                elif st == 1:
                    if "error[" not in err and not re.search(r"^gray: .*", err, re.M): what = "rejected without a diagnostic: %r" % err[:200]
                    elif os.path.exists(p + ".c"): what = "rejected, but a result is written"
                else:
                    m = re.search(r"(SUMMARY: .*|runtime error: .*|ERROR: AddressSanitizer: .*)", err)
                    what = "does not end within %d s" % tmo if st == 2000 else "ends with %d: %s" % (st, m.group(1)[:200] if m else err[:200])
                if what is None:
                    lines = s.count(b"\n") + 1
                    for m in re.finditer(r"--> [^\n]*?p\d+\.gray:(-?\d+):(-?\d+)", err):
                        if not 1 <= int(m.group(1)) <= lines or int(m.group(2)) < 0: what = "a diagnostic names line %s:%s of %d lines: %s" % (m.group(1), m.group(2), lines, err[:150]); break
                if what:
                    site = re.search(r"#\d+ 0x\w+ in (\w+) [^\n]*grayc/src", err)
                    c.violation("%s:%s" % (part, k), "%s on %r" % (what, s[:160] + (b"..." if len(s) > 160 else b"")), {"text": s[:4000].decode(errors="replace"), "stderr": err[:2000]})
            for p in ps:
                os.unlink(p)
                if os.path.exists(p + ".c"): os.unlink(p + ".c")
    progs = [(os.path.basename(f), open(f).read()) for f in sorted(glob.glob(os.path.join(VERIF, "lib/c17/*.gray")))]
    for n, s in progs: c.sample(s[:200])
    batch("whole", progs)
    # deep and long things
    deep = []
    for k in (10, 60, 100, 250, 1000, 5000, 20000) + ((100000,) if c.thorough else ()):
        M = "do main() {\n    mut x = %s\n    println(x)\n}\n"
        for n, s in (("parens", M % ("(" * k + "1" + ")" * k)), ("open parens", M % ("(" * k)), ("brackets", M % ("{" * k + "1" + "}" * k)), ("open braces", M % ("{" * k)), ("index", M % ("x" + "[0]" * k)), ("index in", M % ("x[" * k + "0" + "]" * k)), ("members", M % ("x" + ".a" * k)), ("negation", M % ("- " * k + "1")), ("not", M % ("!" * k + "true")), ("sum", M % ("1" + " + 1" * k)), ("compare", M % ("1" + " == 1" * k)), ("and", M % ("true" + " && true" * k)), ("calls", "do f(x int) -> int { return x }\n" + M % ("f(" * k + "1" + ")" * k)), ("call chain", M % ("f" + "()" * k)),
                     ("if", "do main() {\n" + "if true {\n" * k + "}\n" * k + "}\n"), ("if open", "do main() {\n" + "if true {\n" * k), ("or", "do main() {\n if true { }" + " or true { }" * k + "\n}\n"), ("for", "do main() {\n" + "for _ in range(0, 2) {\n" * k + "}\n" * k + "}\n"), ("loop", "do main() {\n" + "loop {\n" * k + "}\n" * k + "}\n"), ("when", "do main() {\n" + "when 1 {\nis 1 {\n" * k + "}\ndefault { }\n}\n" * k + "}\n"), ("array type", "do f(x " + "[" * k + "int" + "]" * k + ") { }\ndo main() {\n}\n"), ("pointer type", "do f(x " + "^" * k + "int) { }\ndo main() {\n}\n"), ("map type", "do f(x " + "map[int:" * k + "int" + "]" * k + ") { }\ndo main() {\n}\n"),
                     ("interpolation", M % ('"${' * k + "1" + '}"' * k)), ("interpolation open", M % ('"${' * k)), ("parts", M % ('"' + "${1}" * k + '"')), ("identifier", "do main() {\n    mut %s = 1\n    println(%s)\n}\n" % ("a" * k, "a" * k)), ("function name", "do %s() { }\ndo main() {\n    %s()\n}\n" % ("a" * k, "a" * k)), ("struct name", "const %s struct {\n    a int\n}\ndo main() {\n    mut x = %s{a: 1}\n    println(x.a)\n}\n" % ("A" * k, "A" * k)), ("field name", "const S struct {\n    %s int\n}\ndo main() {\n    mut x = S{%s: 1}\n    println(x.%s)\n}\n" % (("a" * k,) * 3)), ("enum name", "const %s enum {\n    A\n    B\n}\ndo main() {\n    mut x = %s.A\n    println(x)\n}\n" % ("E" * k, "E" * k)), ("variant name", "const E enum {\n    %s\n    B\n}\ndo main() {\n    mut x = E.%s\n    println(x)\n}\n" % ("A" * k, "A" * k)), ("unknown name", "do main() {\n    println(%s)\n}\n" % ("a" * k)), ("unknown type", "do f(x %s) { }\ndo main() {\n}\n" % ("A" * k)), ("unknown function", "do main() {\n    %s(1)\n}\n" % ("a" * k)), ("unknown member", "import @os\ndo main() {\n    os.%s(1)\n}\n" % ("a" * k)), ("unknown module", "import @%s\ndo main() {\n}\n" % ("a" * k)), ("path", "import \"./%s\"\ndo main() {\n}\n" % ("a" * k)), ("deep path", "import \"./%s\"\ndo main() {\n}\n" % ("a/" * k)), ("alias", "import %s@os\ndo main() {\n}\n" % ("a" * k + " ")), ("attribute", "#%s\ndo main() {\n}\n" % ("a" * k)), ("doc", "#doc(\"%s\")\ndo main() {\n}\n" % ("a" * k)),
                     ("string", M % ('"' + "a" * k + '"')), ("raw string", M % ("`" + "a" * k + "`")), ("escapes", M % ('"' + "\\n" * k + '"')), ("number", M % ("1" * k)), ("fraction", M % ("1." + "1" * k)), ("hex", M % ("0x" + "f" * k)), ("binary", M % ("0b" + "1" * k)), ("underscores", M % ("1" + "_" * k + "1")), ("char", M % ("'" + "a" * k + "'")), ("comment", "/*" * k + "\ndo main() {\n}\n"), ("comments", "/* */" * k + "\ndo main() {\n}\n"), ("stars", "/" + "*" * k), ("line", "//" + "/" * k), ("blank", "\n" * k + "x"), ("spaces", " " * k + "x"), ("elements", M % ("{" + "1, " * k + "1}")), ("pairs", M % ("{" + "1: 1, " * k + "2: 1}")), ("arguments", "do f() { }\ndo main() {\n    f(" + "1, " * k + "1)\n}\n"), ("parameters", "do f(" + ", ".join("a%d int" % i for i in range(k)) + ") { }\ndo main() {\n}\n"), ("grouped", "do f(" + ", ".join("a%d" % i for i in range(k)) + " int) { }\ndo main() {\n}\n"), ("returns", "do f() -> (" + ", ".join(["int"] * k) + ") { return " + ", ".join(["1"] * k) + " }\ndo main() {\n}\n"), ("targets", "do main() {\n    mut " + ", ".join("a%d" % i for i in range(k)) + " = 1\n}\n"), ("cases", "do main() {\n    mut x = 1\n    when x {\n" + "".join("is %d { }\n" % i for i in range(k)) + "default { }\n}\n}\n"), ("case values", "do main() {\n    mut x = 1\n    when x {\nis " + ", ".join(map(str, range(k))) + " { }\ndefault { }\n}\n}\n"),
                     ("fields", "const S struct {\n" + "".join("    a%d int\n" % i for i in range(k)) + "}\ndo main() {\n}\n"), ("variants", "const S enum {\n" + "".join("    A%d\n" % i for i in range(k)) + "}\ndo main() {\n}\n"), ("payload", "const S enum {\n    A(" + ", ".join(["int"] * k) + ")\n    B\n}\ndo main() {\n}\n"), ("globals", "".join("const a%d int = %d\n" % (i, i) for i in range(k)) + "do main() {\n}\n"), ("imports", "import " + ", ".join(["@os"] * k) + "\ndo main() {\n}\n"), ("locals imports", "import " + ", ".join("\"./q%d\"" % i for i in range(k)) + "\ndo main() {\n}\n"), ("usings", "import @os\n" + "using os\n" * k + "do main() {\n}\n"), ("errors", "do main() {\n" + "    x = 1\n" * k + "}\n"), ("ensures", "do main() {\n" + "    ensure println(\"a\")\n" * k + "}\n"), ("shadow", "do main() {\n    mut x = 1\n" + "if true {\n    mut x = 1\n" * min(k, 200) + "}\n" * min(k, 200) + "}\n"), ("junk", "@" * k), ("junk2", "}" * k), ("junk3", ")" * k), ("junk4", "]" * k), ("functions", "".join("do f%d() { }\n" % i for i in range(min(k, 5000))) + "do main() {\n}\n"), ("structs", "".join("const S%d struct {\n    a int\n}\n" % i for i in range(min(k, 2000))) + "do main() {\n}\n"), ("recursive structs", "".join("const S%d struct {\n    a S%d\n}\n" % (i, (i + 1) % min(k, 500)) for i in range(min(k, 500))) + "do main() {\n}\n"), ("const chain", "const a0 int = 1\n" + "".join("const a%d int = a%d + 1\n" % (i + 1, i) for i in range(min(k, 2000))) + "do main() {\n    println(a%d)\n}\n" % min(k, 2000))):
            deep.append(("%s x%d" % (n, k), s))
    batch("large", deep, tmo=60)
    # bytes
    spots = [("file", b"%s"), ("name", b"do ma%sin() {\n}\n"), ("string", b"do main() {\n    println(\"a%sb\")\n}\n"), ("char", b"do main() {\n    println('%s')\n}\n"), ("escape", b"do main() {\n    println(\"\\%s\")\n}\n"), ("char escape", b"do main() {\n    println('\\%s')\n}\n"), ("raw", b"do main() {\n    println(`a%sb`)\n}\n"), ("number", b"do main() {\n    println(1%s1)\n}\n"), ("prefix", b"do main() {\n    println(0%s1)\n}\n"), ("comment", b"// %s\ndo main() {\n}\n"), ("block", b"/* %s */do main() {\n}\n"), ("between", b"do main() %s {\n}\n"), ("statement", b"do main() {\n    %s\n}\n"), ("operator", b"do main() {\n    mut x = 1\n    x %s 1\n}\n"), ("operator2", b"do main() {\n    mut x = 1\n    x %s= 1\n}\n"), ("hex escape", b"do main() {\n    println(\"\\x%s1\")\n}\n"), ("unicode escape", b"do main() {\n    println(\"\\u{%s}\")\n}\n"), ("path", b"import \"./a%sb\"\ndo main() {\n}\n"), ("module", b"import @o%ss\ndo main() {\n}\n"), ("attribute", b"#do%sc(\"a\")\ndo main() {\n}\n"), ("end", b"do main() {\n}\n%s"), ("interpolated", b"do main() {\n    println(\"${1%s2}\")\n}\n")]
    vals = [bytes([b]) for b in range(256)] + [b"\r\n", b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"\xed\xa0\x80", b"\xff\xff", b"\xef\xbb\xbf"]
    batch("bytes", [("%s:%s" % (n, v.hex()), s.replace(b"%s", v)) for n, s in spots for v in vals])
    # prefixes, single-token changes
    for n, s in progs:
        batch("prefix", [("%s:%d" % (n, k), s[:k]) for k in range(len(s))])
        t = TRE.findall(s); idx = [i for i, x in enumerate(t) if x.strip(" \t")]
        batch("delete", [("%s:%d:%s" % (n, i, t[i]), "".join(t[:i] + t[i + 1:])) for i in idx])
        batch("double", [("%s:%d:%s" % (n, i, t[i]), "".join(t[:i] + [t[i], " ", t[i]] + t[i + 1:])) for i in idx])
        batch("swap", [("%s:%d:%s" % (n, i, t[i]), "".join(t[:i] + [t[j], " "] + t[i + 1:j] + [t[i]] + t[j + 1:])) for i, j in zip(idx, idx[1:])])
        batch("replace", [("%s:%d:%s by %s" % (n, i, t[i], x), "".join(t[:i] + [x] + t[i + 1:])) for i in idx for x in (TOK if c.thorough else SUB)])
        if c.thorough:
            batch("insert", [("%s:%d:%s" % (n, i, x), "".join(t[:i] + [x, " "] + t[i:])) for i in idx for x in SUB])
            batch("delete two", [("%s:%d:%d" % (n, i, j), "".join(t[:i] + t[i + 1:j] + t[j + 1:])) for a, i in enumerate(idx) for j in idx[a + 1:a + 12]])
    # token sequences
    for k in (0, 1, 2):
        for cn, ctx in (CTX if k < 2 or c.thorough else CTX[:6:1]): batch("tokens", [("%s:%s" % (cn, " ".join(ts)), ctx % " ".join(ts).replace("%", "%")) for ts in itertools.product(TOK, repeat=k)])
    for cn, ctx in (CTX if c.thorough else CTX[:4]): batch("tokens", [("%s:%s" % (cn, " ".join(ts)), ctx % " ".join(ts)) for ts in itertools.product(CORE, repeat=3)])
if __name__ == "__main__": main("C17", body, level="exploration", quick_s=300, thorough_s=840)
