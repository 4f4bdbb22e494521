"""C27: calendar computations are correct for every timestamp, in every thread."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from grid import *
import datetime, struct
HERE = os.path.dirname(os.path.abspath(__file__)) + "/../lib/c/"
I = 2**63
DAYS = "Sunday Monday Tuesday Wednesday Thursday Friday Saturday".split()
MONTHS = "January February March April May June July August September October November December".split()
def civil(days):
    """proleptic Gregorian date of a day number since 1970-01-01"""
    cyc, d = divmod(days + 719468, 146097)            # days since 0000-03-01
    y = (d - d // 1460 + d // 36524 - d // 146096) // 365
    doy = d - (365 * y + y // 4 - y // 100)
    mp = (5 * doy + 2) // 153
    return (y + cyc * 400 + (mp >= 10), mp + 3 if mp < 10 else mp - 9, doy - (153 * mp + 2) // 5 + 1)
def leap(y): return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
class TM:
    def __init__(self, ts, off=0):
        self.ts = ts; t = ts + off
        d, s = divmod(t, 86400)
        self.Y, self.m, self.d = civil(d); self.H, self.M, self.S = s // 3600, s // 60 % 60, s % 60
        self.w = (d + 4) % 7
        self.j = sum([31, 28 + leap(self.Y), 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][:self.m - 1]) + self.d
LO, HI = (-(2**31) - 1900 + 1900), 2**31 - 1
def inrange(ts, off=0):
    # a year that fits an int counted from 1900
    return -2**63 <= ts + off < 2**63 and -2**31 <= civil((ts + off) // 86400)[0] - 1900 < 2**31
def fmt(f, t):
    o = []; i = 0
    h12 = (t.H + 11) % 12 + 1
    D = {"Y": str(t.Y), "m": "%02d" % t.m, "d": "%02d" % t.d, "H": "%02d" % t.H, "M": "%02d" % t.M, "S": "%02d" % t.S, "j": "%03d" % t.j, "a": DAYS[t.w][:3], "A": DAYS[t.w],
         "b": MONTHS[t.m - 1][:3], "h": MONTHS[t.m - 1][:3], "B": MONTHS[t.m - 1], "p": "AM" if t.H < 12 else "PM", "I": "%02d" % h12, "y": "%02d" % (t.Y % 100), "e": "%2d" % t.d, "w": str(t.w), "u": str(t.w or 7),
         "C": "%02d" % (t.Y // 100), "F": "%d-%02d-%02d" % (t.Y, t.m, t.d), "T": "%02d:%02d:%02d" % (t.H, t.M, t.S), "D": "%02d/%02d/%02d" % (t.m, t.d, t.Y % 100), "R": "%02d:%02d" % (t.H, t.M),
         "n": "\n", "t": "\t", "%": "%", "U": "%02d" % ((t.j - 1 + 7 - t.w) // 7), "W": "%02d" % ((t.j - 1 + 7 - (t.w - 1) % 7) // 7), "s": str(t.ts),
         "c": "%s %s %2d %02d:%02d:%02d %d" % (DAYS[t.w][:3], MONTHS[t.m - 1][:3], t.d, t.H, t.M, t.S, t.Y), "x": "%02d/%02d/%02d" % (t.m, t.d, t.Y % 100), "X": "%02d:%02d:%02d" % (t.H, t.M, t.S), "r": "%02d:%02d:%02d %s" % (h12, t.M, t.S, "AM" if t.H < 12 else "PM")}
    if 1 <= t.Y <= 9999:
        y, w, _ = datetime.date(t.Y, t.m, t.d).isocalendar(); D.update(G=str(y), V="%02d" % w, g="%02d" % (y % 100))
    while i < len(f):
        if f[i] == "%": o.append(D[f[i + 1]]); i += 2
        else: o.append(f[i]); i += 1
    return "".join(o)
COMP = "\n println(time.year(a0))\n println(time.month(a0))\n println(time.day(a0))\n println(time.hour(a0))\n println(time.minute(a0))\n println(time.second(a0))\n println(time.weekday(a0))"
def comps(off):
    def f(ts):
        if inrange(ts, off(ts)) != inrange(ts): return SKIP   # the library computes through UTC
        if not inrange(ts, off(ts)): return PANIC
        t = TM(ts, off(ts)); return "\n".join(map(str, (t.Y, t.m, t.d, t.H, t.M, t.S, t.w)))
    return f
def us_eastern(ts):
    y = TM(ts, -18000).Y
    def nth_sunday(m, n):
        first = next(d for d in range(-800000, 3000000) if False) if False else None
        base = (datetime.date(y, m, 1) - datetime.date(1970, 1, 1)).days
        return base + (3 - base) % 7 + 7 * (n - 1)   # day 3 (1970-01-04) was a Sunday
    a = nth_sunday(3, 2) * 86400 + 7 * 3600; b = nth_sunday(11, 1) * 86400 + 6 * 3600
    return -14400 if a <= ts < b else -18000
def body(c):
    tc = Toolchain(c.tmp, san=True)
    T = c.thorough
    c.rule = "one evaluation = the components, formats or arithmetic of one timestamp (under one time zone) in a compiled program compared with integer calendar arithmetic; the schedule part counts one preemption of one call by one other call at one library call"
    day = 86400
    # every day of a 400-year cycle, at a time of day that varies
    step = 1 if T else 1
    lo, hi = -135140, 146097 - 135140    # 1600-01-01 .. 1999-12-31
    wide = [s * b + k for b in (0, day, 2**31, 2**32, 253402300800, 2208988800, 62135596800, 62167219200, 67768036191676799, 67767976233532799, 67768040609740800, 10**12, 2**40, 2**53, 2**55, 2**56, 2**62) for s in (1, -1) for k in (-2, -1, 0, 1, 2)]
    wide += [I - 1, I - 2, -I + 1, -I + 2]
    wide = sorted(set(x for x in wide if -I < x < I))
    ymark = []
    for y in [1, 4, 99, 100, 400, 999, 1000, 1582, 1699, 1700, 1752, 1800, 1899, 1900, 1901, 1969, 1970, 1971, 1972, 1999, 2000, 2001, 2004, 2023, 2024, 2037, 2038, 2039, 2100, 2106, 2200, 2400, 9999]:
        for m in range(1, 13):
            b = (datetime.date(y, m, 1) - datetime.date(1970, 1, 1)).days * day
            ymark += [b - 1, b]
            if m == 2: ymark += [b + 27 * day + 86399, b + 28 * day, b + 29 * day - 1]
    def zone(tz, off):
        tc.env["TZ"] = tz
        g = Grid(c, tc, imports=["time"], part="TZ=" + tz, per_file=1)
        z0 = lambda ts: off
        o = off if callable(off) else z0
        main_zone = tz == "UTC0"
        if main_zone:
            def block(n, t0, st):
                def f(k):
                    o = []
                    for q in range(n):
                        t = TM(t0(k) + q * st); o.append("%d %d %d %d %d %d %d" % (t.Y, t.m, t.d, t.H, t.M, t.S, t.w))
                    return "\n".join(o)
                return f
            LOOP = " for q in range(0, %d) {\n mut t int = %s + q * %d\n println(\"${time.year(t)} ${time.month(t)} ${time.day(t)} ${time.hour(t)} ${time.minute(t)} ${time.second(t)} ${time.weekday(t)}\")\n }"
            # 487 is a multiple of neither 60 nor 3600: the time of day varies with the day
            g.add("components by day", [ints(list(range(100)))], LOOP % (1461, "a0 * 126230400 - 11676096000", 86400 + (13 if T else 13)), block(1461, lambda k: k * 126230400 - 11676096000, 86413))
            g.add("components by second", [ints(list(range(0, 86400, 900)))], LOOP % (900, "951782400 + a0", 1), block(900, lambda k: 951782400 + k, 1))
        if callable(off): sel = [t for t in ymark if 1168000000 < t < 7000000000] + [k for y in (2010, 2024, 2025) for k in range(1262304000 + (y - 2010) * 31557600, 1262304000 + (y - 2009) * 31557600, 3601 if T else 10801)]
        else: sel = sorted(set(ymark + wide))
        g.add("components", [ints(sel)], COMP, comps(o))
        def texts(ts):
            if not inrange(ts, o(ts)): return PANIC
            t = TM(ts, o(ts))
            if t.Y >= 2**31 or t.Y < 1: return SKIP
            if not 1000 <= t.Y <= 9999: return lambda out, t=t: [int(x) for x in out.decode().replace("T", " ").replace(":", " ").replace("-", " ").split()] == [abs(t.Y), t.m, t.d, t.H, t.M, t.S, abs(t.Y), t.m, t.d, t.H, t.M, t.S]
            return "%04d-%02d-%02dT%02d:%02d:%02d\n%04d-%02d-%02d\n%02d:%02d:%02d" % (t.Y, t.m, t.d, t.H, t.M, t.S, t.Y, t.m, t.d, t.H, t.M, t.S)
        g.add("to_iso, date, to_clock", [ints(sel + (list(range(-62135596800, 253402300800, 86400 * (97 if T else 1997) + 12345)) if not callable(off) else []))], " println(time.to_iso(a0))\n println(time.date(a0))\n println(time.to_clock(a0))", texts)
        fmts = ["%" + k for k in "YmdHMSjaAbBhpIyeWwuCFTDRnt%UscxXr"] + ["%G-W%V", "%g", "", "x", "  ", "%Y%m%d%H%M%S", "[%d] (%A, %B %d %Y at %I:%M:%S %p)", "100%%", "%%Y", "é %Y ☃", "a\0b%Yc\0", "\0", "%Y\0%m", "\n%d\n"]
        fmts += ["%Y" * n for n in (10, 63, 64, 127, 128, 129, 255, 256, 257, 1000, 5000)] + ["%A %B" * n for n in (20, 40, 100, 700)] + ["z" * n for n in (254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 10000)] + ["%n" * 600, "%%" * 300]
        ts = [0, 951782399, 951868799, 951868800, 1709251199, -1, -86400 * 365 * 30, 1704067199, 1704067200, 1735603200, 1640995200, 13 * 3600, 12 * 3600, 4102444800, 253402300799]
        if callable(off): ts = [x for x in ts if 1168000000 < x < 7000000000] + [1710054000, 1710053999, 1730613600, 1730613599]
        g.add("format", [strings([f for f in fmts]), ints(ts)], " mut s string = time.format(a0, a1)\n println(len(s))\n println(bytes.to_hex(bytes.from_string(s)))",
              lambda f, t: SKIP if "%G" in f + f.replace("%g", "%G") and TM(t, o(t)).Y > 9999 else (lambda r: "%d\n%s" % (len(r), r.hex()))(fmt(f, TM(t, o(t))).encode()))
        g.imports = ["time", "bytes"]
        g.go()
        if main_zone and not c.too_many(): c.count(g.part, 100 * 1460 + 96 * 899)
    zone("UTC0", 0)
    for tz, off in (("XXX-5:30", 19800), ("XXX-14", 50400), ("XXX12", -43200), ("XXX3:25:45", -12345)): zone(tz, off)
    zone("EST5EDT,M3.2.0,M11.1.0", us_eastern)
    # what the formats say is read back as the same instant
    tc.env["TZ"] = "UTC0"
    g = Grid(c, tc, imports=["time", "strings"], part="arithmetic")
    b = [0, 1, -1, 86400, -86400, 2**31, -2**31, 2**62, -2**62, I - 1, -I + 1, I - 2, 2**62 - 1]
    g.add("diff", [ints(b), ints(b)], " println(time.diff(a0, a1))", lambda x, y: str(y - x) if -I <= y - x < I else PANIC)
    g.add("component of range end", [ints([I - 1, -I + 1, 2**60, -2**60])], " println(time.to_iso(a0))", lambda t: PANIC)
    g.go()
    # clocks
    obj = os.path.join(c.tmp, "clock.o")
    p = run(["gcc", "-O1", "-c", HERE + "clock_stub.c", "-o", obj])
    if p.returncode: raise CheckError(p.stderr.decode())
    t2 = Toolchain(c.tmp, san=False, name="tc_clock"); t2.set_cc_extra(obj, fork=False)
    exe = t2.must_compile("""import @time
do main() {
 println(time.now())
 println(time.now_ms())
 println(time.now_ns())
 mut t int = time.tick()
 println(t)
 println(time.elapsed_ms(t))
 println(time.elapsed_ms(0))
}""")
    for s in (0, 1, 1700000000, 2**31 - 1, 2**31, 2**32, 9000000000):
        for ns in (0, 1, 999999, 1000000, 1999999, 500000000, 999999999):
            for st in (0, 1, 1000000, 999999, 123456789, 1000000000):
                tot = [s * 10**9 + ns + k * st for k in range(6)]
                r = run([exe], env=dict(os.environ, VERIF_CLOCK="%d %d %d" % (s, ns, st)))
                want = [tot[0] // 10**9, tot[1] // 10**6, tot[2], tot[3], (tot[4] - tot[3]) // 10**6, tot[5] // 10**6]
                c.count("clocks")
                if r.stdout.decode().split() != [str(x) for x in want] or r.returncode:
                    c.violation("clock %d %d %d" % (s, ns, st), "with the clock at %d s %d ns and %d ns per reading now, now_ms, now_ns, tick, elapsed_ms are %s, expected %s (exit %d)" % (s, ns, st, r.stdout.decode().split(), want, r.returncode), {"clock": [s, ns, st]})
    # schedules: another thread at every library call
    exe = os.path.join(c.tmp, "sched")
    wraps = ["-Wl,--wrap=" + w for w in "localtime localtime_r gmtime gmtime_r mktime strftime".split()]
    p = run(["gcc", "-O1", "-w", "-I" + os.path.join(t2.src, "src"), HERE + "time_sched.c", t2.lib, "-o", exe, "-lm", "-lpthread"] + wraps)
    if p.returncode: raise CheckError("time_sched: " + p.stderr.decode()[-800:])
    r = run([exe], env=dict(os.environ, TZ="UTC0"), timeout=300)
    out = r.stdout.decode()
    if "SCHEDULES" not in out: raise CheckError("time_sched: exit %d %s %s" % (r.returncode, out[-300:], r.stderr[-300:]))
    c.count("schedules", int(out.split("SCHEDULES ")[1].split()[0]))
    for l in out.splitlines():
        if l.startswith("BAD"):
            c.violation("schedule " + l.split(" with")[0], "a call is changed by another thread's call: " + l, {"schedule": l}); break
if __name__ == "__main__":
    main("C27", body, level="exploration", quick_s=240, thorough_s=800)
