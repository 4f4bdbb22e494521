"""C12: string operations are exact on every byte string."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from grid import *

WS = b" \t\n\r\v\f"
def B(x): return x if isinstance(x, bytes) else x.encode("utf-8", "surrogateescape")
def b2(x): return "true" if x else "false"
def allstr(alpha, n):
    r = [b""]
    lvl = [b""]
    for _ in range(n):
        lvl = [x + a for x in lvl for a in alpha]; r += lvl
    return r

def body(c):
    tc = Toolchain(c.tmp, san=True)
    c.rule = ("one evaluation = one operation on one argument tuple in a compiled program under AddressSanitizer; tuples are all distinct; "
              "non-trivial = compared with the Python byte-string definition")
    g = Grid(c, tc, imports=["strings", "arrays"], part="operations", per_file=3, opt="-O0")
    T = c.thorough
    A = [b"a", b"b", b"A"]
    S3 = allstr([b"a", b"b"], 5 if not T else 7)
    sub = allstr([b"a", b"b"], 3)
    W = allstr([b" ", b"\t", b"x", b"\n"], 4 if not T else 5)
    M = [b"", b"x", "é".encode(), "日本".encode(), "a日b".encode(), "😀z".encode(), b"Hello, World", b"a,b,,c,", b",", b",,", b"aXbXc", bytes(range(1, 128)), bytes(range(128, 256)),
         b"it's \"q\" $x {y} \\n %d %s"]
    L = [b"a" * 62, b"a" * 63, b"a" * 64, b"a" * 65, b"ab" * 127, b"a" * 255, b"a" * 256, b"xyz" * 1365, b"q" * 4095, b"q" * 4096, b"q" * 4097, b"w" * 8191 + b"v", b"k" * 20000]
    for n, f in (("to_upper", lambda s: s.upper()), ("to_lower", lambda s: s.lower()), ("reverse", lambda s: s[::-1]),
                 ("trim", lambda s: s.strip(WS)), ("trim_left", lambda s: s.lstrip(WS)), ("trim_right", lambda s: s.rstrip(WS))):
        g.add(n, [strings(W + M + L + [b"aZ@[`{z09" + bytes([i]) for i in range(1, 256)])], f" println(strings.{n}(a0))", lambda s, f=f: f(s).decode("utf-8", "surrogateescape"))
    g.add("len", [strings(W + M + L)], " println(len(a0))", lambda s: str(len(s)))
    g.add("is_empty", [strings(W + M)], " println(strings.is_empty(a0))", lambda s: b2(not s))
    def idx(s, t): return str(s.find(t)) if t else "0"
    def last(s, t): return str(s.rfind(t))
    two = [("contains", lambda s, t: b2(t in s)), ("starts_with", lambda s, t: b2(s.startswith(t))), ("ends_with", lambda s, t: b2(s.endswith(t))),
           ("index_of", idx), ("last_index_of", last), ("count", lambda s, t: str(s.count(t) if t else 0)),
           ("remove_prefix", lambda s, t: (s[len(t):] if s.startswith(t) else s).decode("utf-8", "surrogateescape")),
           ("remove_suffix", lambda s, t: (s[:len(s) - len(t)] if s.endswith(t) else s).decode("utf-8", "surrogateescape"))]
    long2 = [b"ab" * 64 + b"c", b"a" * 300, b"a" * 299 + b"b", b"x" * 5000 + b"ab"]
    for n, f in two:
        g.add(n, [strings(S3 + M[:10] + long2), strings(sub + M[:10] + [b"a" * 300, b"c", b"ab" * 64 + b"c", b"a" * 301])], f" println(strings.{n}(a0, a1))", f)
    g.add("replace", [strings(allstr([b"a", b"b"], 4) + M[:11] + long2), strings(allstr([b"a", b"b"], 2) + [b",", b"X", "日".encode()]), strings([b"", b"a", b"xyz", b"aa", b"," * 40])],
          " println(strings.replace(a0, a1, a2))", lambda s, o, n: (s.replace(o, n) if o else s).decode("utf-8", "surrogateescape"))
    g.add("repeat", [strings([b"", b"a", b"ab", "é".encode(), b"x" * 100]), ints([-1, 0, 1, 2, 3, 63, 64, 65, 1000, -2**63])],
          " println(strings.repeat(a0, a1))", lambda s, n: PANIC if n < 0 else (s * n).decode())
    g.add("repeat_huge", [strings([b"a", b"ab", b"abcd", b"x" * 64]), ints([2**31, 2**32, 2**61, 2**62, 2**62 + 1, 2**63 - 1, 2**63 // 3 + 1])],
          " println(len(strings.repeat(a0, a1)))", lambda s, n: PANIC)
    ix = [-3, -1, 0, 1, 2, 3, 5, 6, 7, 2**31, 2**32, 2**32 + 1, -2**32, -2**63, 2**63 - 1]
    g.add("slice", [strings([b"", b"a", b"abcdef", "日本".encode()]), ints(ix), ints(ix)], " println(strings.slice(a0, a1, a2))",
          lambda s, a, b: s[max(a, 0):max(min(b, len(s)), 0)].decode("utf-8", "surrogateescape") if max(a, 0) < min(b, len(s)) else "")
    def at(s, i): return PANIC if i < 0 or i >= len(s) else str(s[i])
    SI = [b"", b"a", b"abc", "é".encode(), b"z" * 300]
    IX = ix + [299, 300, 255, 256]
    g.add("index", [strings(SI), ints(IX)], " println(int(a0[a1]))", at)
    g.add("char_at", [strings(SI), ints(IX)], " println(int(strings.char_at(a0, a1)))", at)
    U = [b"", b"a", b"ab", "é".encode(), "aé".encode(), "日本語".encode(), "😀".encode(), "a😀b".encode(), "é".encode() * 3 + b"x", "߿ࠀ￿".encode(), "𐀀􏿿".encode()]
    U += [B("".join(p)) for n in (2, 3) for p in itertools.product(("a", "é", "日", "😀"), repeat=n)]
    g.add("char_count", [strings(U + L[:9])], " println(char_count(a0))", lambda s: str(len(s.decode())))
    g.add("to_char", [strings(U), ints([-1, 0, 1, 2, 3, 4, 2**32])], " println(int(to_char(a0, a1)))",
          lambda s, i: PANIC if i < 0 or i >= len(s.decode()) else str(ord(s.decode()[i])))
    P = " mut p [string] = strings.split(a0, a1)\n mut o string = \"\"\n for_each x in p {\n  o = \"${o}<${x}>\"\n }\n println(\"${len(p)} ${o}\")"
    def split(s, t):
        r = s.split(t) if t else [s]
        return "%d %s" % (len(r), "".join("<%s>" % x.decode("utf-8", "surrogateescape") for x in r))
    S4 = allstr([b"a", b","], 5) + M[:11] + [b"," * 200, b"x," * 150, b"y" * 5000 + b",z"]
    g.add("split", [strings(S4), strings([b"", b",", b",,", b"a", b"a,", b"X", "日".encode(), b"," * 300])], P, split)
    g.add("split_join", [strings(S4), strings([b"", b",", b",,", b"a", b"a,", "日".encode()])], " println(strings.join(strings.split(a0, a1), a1))",
          lambda s, t: s.decode("utf-8", "surrogateescape"))
    g.add("join", [strings(sub[:7] + ["é".encode(), b"y" * 3000]), strings(sub[:7] + [b","]), strings([b"", b",", b"--", b"s" * 500])],
          " mut v [string] = {a0, a1, a0}\n println(strings.join(v, a2))\n mut w [string] = {a1}\n println(strings.join(w, a2))\n mut e [string] = {}\n println(\"[${strings.join(e, a2)}]\")",
          lambda a, b, s: (s.join([a, b, a]) + b"\n" + b + b"\n[]").decode("utf-8", "surrogateescape"))
    g.add("chars", [strings(W[:40] + M[:12])], " println(strings.from_chars(strings.to_chars(a0)) == a0)\n mut v = strings.to_chars(a0)\n println(len(v))",
          lambda s: "true\n%d" % len(s))
    for n, f in (("is_alpha", lambda s: s.isalpha()), ("is_digit", lambda s: s.isdigit()), ("is_alnum", lambda s: s.isalnum()), ("is_whitespace", lambda s: s in b" \t\n\r"),
                 ("is_upper", lambda s: s.isupper()), ("is_lower", lambda s: s.islower())):
        g.add(n, [strings([bytes([i]) for i in range(1, 256)])], f" println(strings.{n}(a0[0]))",
              lambda s, f=f, n=n: SKIP if n == "is_whitespace" and s in b"\v\f" else b2(s < b"\x80" and f(s)))
    # language operators
    C = allstr([b"a", b"b"], 3) + ["é".encode(), b"a" * 300, b"a" * 299 + b"b", b"a" * 299]
    g.add("eq", [strings(C), strings(C)], " println(\"${a0 == a1} ${a0 != a1}\")", lambda a, b: b2(a == b) + " " + b2(a != b))
    g.add("in", [strings(C), strings(C)], " println(\"${a0 in a1} ${a0 not_in a1}\")", lambda a, b: b2(a in b) + " " + b2(a not in b))
    g.add("interp", [strings(C + M + L), strings(C[:8] + M[:9] + L[3:6])], " println(\"<${a0}|${a1}>\")\n mut s string = \"${a0}${a1}${a0}\"\n println(len(s))",
          lambda a, b: (b"<" + a + b"|" + b + b">\n%d" % (2 * len(a) + len(b))).decode("utf-8", "surrogateescape"))
    g.add("append_loop", [strings([b"", b"a", b"xyz", "é".encode()]), ints([0, 1, 2, 100, 700])], " mut s string = \"\"\n for i in range(0, a1) {\n  s = \"${s}${a0}\"\n }\n println(s)", lambda s, n: (s * n).decode())
    g.add("foreach", [strings(W[:40] + M[:6] + M[11:12])], " mut o string = \"\"\n for_each ch in a0 {\n  o = \"${o}${int(ch)},\"\n }\n println(o)", lambda s: "".join("%d," % b for b in s))
    c.sample({"operation": "index_of", "strings": [x.decode() for x in S3[:8]], "needles": [x.decode() for x in sub[:6]]})
    g.go()
main("C12", body)
