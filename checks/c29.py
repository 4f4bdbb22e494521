"""C29: digests, random tokens and UUIDs are well formed and exact."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from grid import *
import hashlib, re
V = os.path.dirname(os.path.abspath(__file__)) + "/../lib/c/rand_stub.c"
def b2(x): return "true" if x else "false"
HEX = re.compile(rb"[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}")
def valid(s): return HEX.fullmatch(s) is not None
def draw(k, n=16): return bytearray((k if i == 6 else k >> 8 if i == 8 else (k * 2654435761 & 0xffffffff) >> (i * 5 % 25)) & 255 for i in range(n))
def fmtu(b): h = bytes(b).hex(); return "%s-%s-%s-%s-%s" % (h[:8], h[8:12], h[12:16], h[16:20], h[20:])
MS = [0, 1, 999, 1000, 65535, 65536, 4294967295, 4294967296, 1700000000123, 281474976710655]
def body(c):
    tc = Toolchain(c.tmp, san=True)
    T = c.thorough
    c.rule = ("one evaluation = one digest, token, UUID generation, parse or validation on one distinct input (or one distinct draw of the random source, "
              "which is replaced by an enumerated one) compared with hashlib and the RFC 9562 layout")
    g = Grid(c, tc, imports=["crypto", "uuid"], part="digests and parsing", per_file=2)
    lens = list(range(0, 1100 if T else 420)) + [511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 65535, 65536]
    lit = [bytes((i * 31 + n * 7 + 3) % 251 for i in range(n)) for n in range(0, 200)] + [bytes([i]) for i in range(256)] + [bytes([a, b]) for a in (0, 128, 255, 97) for b in (0, 10, 128, 255)] + [b"\0" * n for n in range(1, 140)] + [b"\xff" * n for n in range(1, 140)]
    lit = sorted(set(lit))
    for h in ("sha256", "md5"):
        g.add(h, [strings(lit)], " println(crypto.%s(a0))" % h, lambda s, h=h: hashlib.new(h, s).hexdigest())
        g.add(h + " length", [ints(lens)], " mut s string = strings.repeat(\"aQ\\x80\", a0 / 3 + 1)\n println(crypto.%s(strings.slice(s, 0, a0)))" % h,
              lambda n, h=h: hashlib.new(h, (b"aQ\x80" * (n // 3 + 1))[:n]).hexdigest())
    g.imports = ["crypto", "uuid", "strings"]
    base = b"0123abCD-4eF5-6789-aBcd-EF0123456789"
    cand = [base] + [base[:i] + bytes([x]) + base[i + 1:] for i in range(36) for x in range(256)]
    cand += [base[:i] for i in range(37)] + [base + bytes([x]) for x in range(0, 256, 5)] + [base[:i] + base[i + 1:] for i in range(36)] + [base[:i] + b"-" + base[i:] for i in range(37)]
    cand += [b"{" + base + b"}", b"urn:uuid:" + base, base.replace(b"-", b""), base + base, b"-" * 36, b"0" * 36, b"00000000-0000-0000-0000-000000000000", b"ffffffff-ffff-ffff-ffff-ffffffffffff", b"FFFFFFFF-FFFF-FFFF-FFFF-FFFFFFFFFFFF"]
    cand = sorted(set(cand)) if T else sorted(set(cand))
    g.add("uuid.is_valid", [strings(cand)], " println(uuid.is_valid(a0))", lambda s: b2(valid(s)))
    pc = [s for s in cand if valid(s)] + [s for s in cand if not valid(s)][:: 1 if T else 40]
    g.add("uuid.parse", [strings(pc)], " mut u UUID = uuid.parse(a0)\n println(uuid.to_string(u))\n println(uuid.generate_compact(u))\n println(uuid.to_string(uuid.parse(strings.to_upper(a0))))\n println(uuid.to_string(u) == uuid.to_string(uuid.NIL_UUID))\n println(uuid.is_valid(uuid.to_string(u)))",
          lambda s: (lambda l: "%s\n%s\n%s\n%s\ntrue" % (l, l.replace("-", ""), l, b2(l.strip("0-") == "")))(s.decode().lower()) if valid(s) else PANIC)
    g.add("random_hex", [ints(list(range(-3, 200)) + [1000, 1001, 65535, 65536, 70001])], " mut r string = crypto.random_hex(a0)\n println(len(r))\n println(r)",
          lambda n: PANIC if n < 0 else lambda out, n=n: (lambda l: l[0] == b"%d" % n and re.fullmatch(rb"[0-9a-f]{%d}" % n, l[1] if len(l) > 1 else b"") is not None)(out.rstrip(b"\n").split(b"\n") if n else [out.rstrip(b"\n"), b""]))
    g.go()
    # every version/variant byte pair, from an enumerated random source and clock
    obj = os.path.join(c.tmp, "stub.o")
    p = run(["gcc", "-O1", "-c", V, "-o", obj])
    if p.returncode: raise CheckError(p.stderr.decode())
    t2 = Toolchain(c.tmp, san=False, name="tc_stub"); t2.set_cc_extra(obj + " -Wl,--wrap=fopen", fork=False)
    N = 65536
    src = """import @uuid, @crypto, @os
do main() {
 mut a [string] = os.args()
 mut n int = int(a[2])
 for i in range(0, n) {
  when a[1] {
   is "v4" { println(uuid.to_string(uuid.generate())) }
   is "hy" { println(uuid.to_string(uuid.generate_hyphenated())) }
   is "ra" { println(uuid.to_string(uuid.generate_random())) }
   is "v7" { println(uuid.to_string(uuid.generate_time_ordered())) }
   is "co" { println(uuid.generate_compact(uuid.generate())) }
   is "hx" { println(crypto.random_hex(i)) }
   default { println("?") }
  }
 }
}"""
    exe = t2.must_compile(src)
    def v(kind, k):
        if kind == "hx":
            return bytes(draw(k - 1, (k + 1) // 2)).hex()[:k] if k else ""
        b = draw(k)
        if kind == "v7":
            b[0:6] = MS[k % 10].to_bytes(6, "big"); b[6] = b[6] & 15 | 0x70
        else: b[6] = b[6] & 15 | 0x40
        b[8] = b[8] & 63 | 128
        s = fmtu(b)
        return s.replace("-", "") if kind == "co" else s
    for kind, n, modes in (("v4", N, (0, 1)), ("hy", 300, (0, 1)), ("ra", N, (0, 1)), ("v7", N, (0, 1)), ("co", 4000, (0, 1)), ("hx", 300, (1,))):
        for m in modes:
            nn = n if m == 0 or kind == "hx" else 300
            r = run([exe, kind, str(nn)], env=dict(os.environ, VERIF_RAND=str(m)), timeout=120)
            got = r.stdout.decode("latin1").split("\n")[:-1]
            c.count("generation", nn)
            want = [v(kind, k) for k in range(nn)]
            bad = next((k for k in range(nn) if k >= len(got) or got[k] != want[k]), None)
            if bad is not None or r.returncode or len(got) != nn:
                c.violation("generate %s mode %d" % (kind, m), "draw %s of %s with random source mode %d: expected %r got %r (exit %d %r)" % (bad, kind, m, bad is not None and want[bad], bad is not None and got[bad:bad + 1], r.returncode, r.stderr[:100]), {"program": src, "args": [kind, str(nn)], "env": {"VERIF_RAND": str(m)}})
    # no randomness at all: a generator may not return a value
    for kind in ("v4", "hy", "ra", "v7", "co", "hx"):
        for m in (2, 3):
            r = run([exe, kind, "2"], env=dict(os.environ, VERIF_RAND=str(m)), timeout=60)
            c.count("failing source")
            if r.returncode != 1 or b"panic[" not in r.stderr and b"panic" not in r.stderr:
                c.violation("no randomness %s mode %d" % (kind, m), "%s returned although no random bytes were available: exit %d output %r" % (kind, r.returncode, r.stdout[:120]), {"program": src, "args": [kind, "2"], "env": {"VERIF_RAND": str(m)}})
if __name__ == "__main__":
    main("C29", body, level="exploration", quick_s=240, thorough_s=800)
