"""C23: byte encodings are exact inverses and reject malformed input."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from grid import *
import base64, struct, urllib.parse, itertools
def allb(alpha, n):
    r = [b""]; lvl = [b""]
    for _ in range(n):
        lvl = [x + bytes([a]) for x in lvl for a in alpha]; r += lvl
    return r
B64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
def b64dec(s):
    if len(s) % 4: return PANIC
    out = bytearray()
    for i in range(0, len(s), 4):
        q = s[i:i + 4]; last = i + 4 == len(s)
        body = q.rstrip(b"=") if last else q
        if len(body) < 2 or any(ch not in B64 for ch in body): return PANIC
        v = 0
        for ch in body: v = v << 6 | B64.index(ch)
        v <<= 6 * (4 - len(body))
        out += v.to_bytes(3, "big")[:len(body) - 1]
    return bytes(out)
def b64noncanon(s, d): return base64.b64encode(d) != s
HEX = b"0123456789abcdefABCDEF"
def hexdec(s):
    if len(s) % 2 or any(ch not in HEX for ch in s): return PANIC
    return bytes.fromhex(s.decode())
def urlenc(s): return urllib.parse.quote(s, safe="-_.~").encode()
def urldec(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == 37:
            h = s[i + 1:i + 3]
            if len(h) < 2 or any(ch not in HEX for ch in h): return PANIC
            out.append(int(h, 16)); i += 3
        else:
            out.append(32 if s[i] == 43 else s[i]); i += 1
    return bytes(out)
def nul(s): return isinstance(s, bytes) and b"\0" in s
def arr(b): return "{%s}" % ", ".join(map(str, b))
def hexout(b): return b.hex()
# text output stops at NUL, so decoded bytes are shown through len and a hex of the bytes
SHOW = " mut b [byte] = bytes.from_string(r)\n println(\"${len(r)} ${len(b)}\")\n println(bytes.to_hex(b))"
def shown(b): return "%d %d\n%s" % (len(b), len(b), b.hex())

def body(c):
    tc = Toolchain(c.tmp, san=True)
    c.rule = "one evaluation = one encoding or decoding call on one input in a compiled program under AddressSanitizer, compared with an independent definition (Python base64, urllib, struct); inputs are distinct"
    T = c.thorough
    g = Grid(c, tc, imports=["encoding", "bytes"], part="text encodings", per_file=3, opt="-O1")
    one = [bytes([i]) for i in range(256)]
    al = [0, 1, 0x0f, 0x10, 0x3f, 0x40, 0x7f, 0x80, 0xbf, 0xc0, 0xff, 0x41, 0x20, 0x25, 0x2b]
    raw = sorted(set(allb(al, 2 if not T else 3) + one + [bytes([a, b, x]) for a in (0, 0x41, 0xff) for b in (0, 0x6d, 0xfb) for x in range(256)] +
                     [bytes((i * 7 + n) % 256 for i in range(n)) for n in list(range(0, 140)) + [255, 256, 257, 511, 1023, 4095, 4096, 5000]] +
                     [b"\xff" * n for n in range(1, 70)] + [b"\0" * n for n in range(1, 20)]))
    enc = [("base64", lambda s: base64.b64encode(s).decode(), b64dec), ("hex", lambda s: s.hex(), hexdec), ("url", lambda s: urlenc(s).decode(), urldec)]
    for name, e, d in enc:
        g.add(name + "_encode", [strings(raw)], " mut r string = encoding.%s_encode(a0)\n println(r)\n println(len(r))" % name, lambda s, e=e: "%s\n%d" % (e(s), len(e(s))))
        g.add(name + " round trip", [strings(raw)], " mut r string = encoding.%s_decode(encoding.%s_encode(a0))\n println(r == a0)\n" % (name, name) + SHOW, lambda s: "true\n" + shown(s))
    # candidate encoded texts: every short text over an alphabet with every character class
    a64 = b"AQf/+9=-_ \n.%"
    c64 = allb(a64, 4) if T else [x for x in allb(a64, 4) if len(x) < 4 or x[:2] in (b"AQ", b"f/", b"A=", b"==", b"A-", b" A", b"\nA", b"Af", b"=A", b"_A")]
    c64 += [b"QUJD" + x for x in allb(b"QAz=/-", 4)] + [x + b"QUJD" for x in allb(b"QA=", 4)]
    c64 += [b"QQ==" + bytes([k]) * m for k in (0, 61, 65, 10) for m in (1, 2, 3, 4)] + [bytes([k]) + b"QUI" for k in range(256)] + [b"QUI" + bytes([k]) for k in range(256)] + [b"QU" + bytes([k]) + b"D" for k in range(256)]
    chx = allb(b"0aAfFgG9/:@`%x- ", 3) + [bytes([k]) + b"0" for k in range(256)] + [b"0" + bytes([k]) for k in range(256)] + allb(b"9fF g", 4) + [b"ab" * 300, b"ab" * 300 + b"a"]
    cur = allb(b"%2fAG+ a", 4) + [b"%" + bytes([k]) + b"0" for k in range(256)] + [b"%0" + bytes([k]) for k in range(256)] + [bytes([k]) for k in range(256)] + [b"x" * n + t for n in (0, 1, 15, 16, 31, 62, 63) for t in (b"%", b"%4", b"%41", b"%4g", b"%%", b"%%41", b"%2")]
    def dec(f, canon=False):
        def o(s):
            r = f(s)
            if r is PANIC: return PANIC
            if canon and b64noncanon(s, r): return SKIP      # unused low bits: RFC 4648 leaves rejection open
            return shown(r)
        return o
    for name, f, cand in (("base64", b64dec, c64), ("hex", hexdec, chx), ("url", urldec, cur)):
        cand = sorted(set(cand))
        g.add(name + "_decode", [strings(cand)], " mut r string = encoding.%s_decode(a0)\n" % name + SHOW, dec(f, name == "base64"))
    for name, f, cand in (("base64", b64dec, c64), ("hex", hexdec, chx)):
        cand = sorted(set(cand))
        g.add("bytes.from_" + name, [strings(cand if T else cand[::3])], " mut b [byte] = bytes.from_%s(a0)\n println(len(b))\n println(b)" % name,
              lambda s, f=f, n=name: (lambda r: PANIC if r is PANIC else SKIP if n == "base64" and b64noncanon(s, r) else "%d\n%s" % (len(r), arr(r)))(f(s)))
    g.add("bytes round trip", [strings(raw)], " mut b [byte] = bytes.from_string(a0)\n println(b)\n println(bytes.to_hex(b))\n println(bytes.to_base64(b))\n println(bytes.to_string(b) == a0)\n println(bytes.to_string(bytes.from_hex(bytes.to_hex(b))) == a0)\n println(bytes.to_string(bytes.from_base64(bytes.to_base64(b))) == a0)",
          lambda s: "%s\n%s\n%s\ntrue\ntrue\ntrue" % (arr(s), s.hex(), base64.b64encode(s).decode()))
    g.go()
    # integers: every width, both byte orders, all values for 8 and 16 bits, boundary lattice above
    g = Grid(c, tc, imports=["binary", "bytes"], part="binary integers", per_file=6, opt="-O1")
    def vals(t):
        n = int(t[1:]); lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if t[0] == "i" else (0, (1 << n) - 1)
        if n == 8: return list(range(lo, hi + 1))
        s = {0, 1, 2, lo, lo + 1, hi, hi - 1, hi // 3, int("0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f20"[:n // 4], 16)}
        for k in range(0, n, 1 if n <= 64 else 8): s |= {1 << k, (1 << k) - 1, (1 << k) + 1, -(1 << k), -(1 << k) - 1, 0xff << k, 0x80 << k}
        if n == 16: s |= set(range(lo, hi, 37))
        return sorted(v for v in s if lo <= v <= hi)
    def W(t, vs): return (t, [(str(v), v) for v in vs])
    for t in ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "i128", "u128", "i256", "u256"]:
        n = int(t[1:]) // 8
        for e in ([""] if n == 1 else ["_le", "_be", ""]):
            order = "big" if e == "_be" else "little"
            if n == 1 or e or True:
                sfx = t + e
                small = lambda v, n=n: True
                d = "binary.decode_%s(b)" % sfx
                def orc(v, n=n, order=order, t=t):
                    return "%s\n%d" % (arr((v % (1 << 8 * n)).to_bytes(n, order)), v)
                g.add("binary %s" % sfx, [W(t, vals(t))], " mut b [byte] = binary.encode_%s(a0)\n println(b)\n println(%s)" % (sfx, d), orc)
                if n <= 8:
                    # a value outside the width must not be encoded as something else
                    lo, hi = (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1) if t[0] == "i" else (0, (1 << 8 * n) - 1)
                    out = [v for v in (lo - 1, hi + 1, -1, 2**63 - 1, -2**63, hi + 256, lo - 256, 0, hi, lo) if -2**63 <= v < 2**63]
                    g.add("binary %s range" % sfx, [W("int", out)], " mut b [byte] = binary.encode_%s(a0)\n println(b)" % sfx, lambda v, lo=lo, hi=hi, n=n, order=order: arr((v % (1 << 8 * n)).to_bytes(n, order)) if lo <= v <= hi else PANIC)
                # decoding every length of input: too short must be refused
                def short_orc(L, n=n, order=order, t=t):
                    if L < n: return PANIC
                    b = bytes((i * 37 + 5) % 128 for i in range(n))
                    return str(int.from_bytes(b, order, signed=t[0] == "i"))
                g.add("binary %s input length" % sfx, [ints(list(range(0, n + 3)))], " mut b [byte] = {}\n for i in range(0, a0) { arrays.append(b, cast((i * 37 + 5) %% 128, byte)) }\n println(binary.decode_%s(b))" % sfx, short_orc)
    g.imports = ["binary", "bytes", "arrays"]
    fl = [0.0, -0.0, 1.0, -1.0, 0.1, 0.5, 1.5, 3.14159, 2.0**52, 2.0**53 + 2, 1e15, -123456.789, 1e-5, 2.0**-20, 16777216.0, 16777217.0, 65504.0, 255.0, 340282346638528859811704183484516925440.0]
    for t, f, n in (("f32", "f", 4), ("f64", "d", 8)):
        for e in ("_le", "_be"):
            o = "<" if e == "_le" else ">"
            def orc(v, o=o, f=f, t=t):
                b = struct.pack(o + f, v); w = struct.unpack(o + f, b)[0]
                return lambda got, b=b, w=w: (lambda p: p[0] == arr(b).encode() and struct.pack(">d", float(p[1])) == struct.pack(">d", w))(got.split(b"\n"))
            g.add("binary %s%s" % (t, e), [floats(fl)], " mut b [byte] = binary.encode_%s%s(a0)\n println(b)\n mut d float = binary.decode_%s%s(b)\n println(d)" % (t, e, t, e), lambda v, orc=orc: SKIP if v == 0.0 and str(v)[0] == "-" else orc(v) if len(repr(v)) < 12 else SKIP)
            g.add("binary %s%s input length" % (t, e), [ints(list(range(0, n + 2)))], " mut b [byte] = {}\n for i in range(0, a0) { arrays.append(b, cast(i, byte)) }\n mut d float = binary.decode_%s%s(b)\n println(len(b))" % (t, e), lambda L, n=n: PANIC if L < n else str(L))
    g.go()
    c.sample({"base64_candidates": len(set(c64)), "raw_inputs": len(raw)})
if __name__ == "__main__": main("C23", body, level="exploration")
