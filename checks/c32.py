#!/usr/bin/env python3
"""C32: the real thread functions under a controlled scheduler: every class of equivalent schedules of every small script of starts, joins, detaches and queries against a model of thread life; programs whose threads call, allocate and share data; and every module's functions called by two threads at once, each execution watched for data races, freed memory, lost memory and interference."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from msched import *
def model(script):
    """All result sequences of a script of the first thread."""
    # thread: (body, stage) stage: 0 not run,1 waiting at gate done.., encoded as tuple of remaining steps; flags ran, dec, dead
    outs = set(); seen = set()
    def steps(b): return ("body",) + (("gate",) if b == 1 else ()) + (("spawn",) if b in (2, 3) else ()) + (("joinsub",) if b == 2 else ()) + ("ran", "end")
    start = (0, False, (), (), ())   # pc, gate, threads ((key, steps, ran, dec, dead)), subs ((owner, dec, dead)), results
    todo = [start]; seen.add(start)
    while todo:
        pc, gate, ths, subs, res = s = todo.pop(); nxt = []
        def count(): return sum(not t[3] for t in ths) + sum(not u[1] for u in subs)
        if pc < len(script):
            op, k, b = script[pc]; ix = {t[0]: i for i, t in enumerate(ths)}
            if op == "s": nxt.append((pc + 1, gate, ths + ((k, steps(b), False, False, False),), subs, res))
            elif op == "j":
                t = ths[ix[k]]
                if t[3] and t[4]: nxt.append((pc + 1, gate, ths, subs, res + ("m%d j%d 1" % (pc, k),)))
            elif op == "d": nxt.append((pc + 1, gate, ths, subs, res))
            elif op == "a": nxt.append((pc + 1, gate, ths, subs, res + ("m%d a%d %d" % (pc, k, not ths[ix[k]][4]),)))
            elif op == "n": nxt.append((pc + 1, gate, ths, subs, res + ("m%d n %d" % (pc, count()),)))
            elif op == "o": nxt.append((pc + 1, True, ths, subs, res))
            elif op == "w":
                if ths[ix[k]][2]: nxt.append((pc + 1, gate, ths, subs, res))
        for i, (k, st, ran, dec, dead) in enumerate(ths):
            def put(x, sb=subs): nxt.append((pc, gate, ths[:i] + (x,) + ths[i + 1:], sb, res))
            if st:
                h, r = st[0], st[1:]
                if h == "gate" and not gate: continue
                if h == "spawn": put((k, r, ran, dec, dead), subs + ((k, False, False),)); continue
                if h == "joinsub":
                    if all(u[1] and u[2] for u in subs if u[0] == k): put((k, r, ran, dec, dead))
                    continue
                put((k, r, True if h == "ran" else ran, dec, dead))
            else:
                if not dec: put((k, st, ran, True, dead))
                if not dead: put((k, st, ran, dec, True))
        for i, (k, dec, dead) in enumerate(subs):
            if not dec: nxt.append((pc, gate, ths, subs[:i] + ((k, True, dead),) + subs[i + 1:], res))
            if not dead: nxt.append((pc, gate, ths, subs[:i] + ((k, dec, True),) + subs[i + 1:], res))
        for n in nxt:
            if n not in seen: seen.add(n); todo.append(n)
        if not nxt: outs.add(res if pc == len(script) and all(t[3] and t[4] for t in ths) and all(u[1] and u[2] for u in subs) else res + ("stuck",))
    return outs, len(seen)
def words(sc): return " ".join(o + (str(k) if o in "sjdaw" else "") + (":%d" % b if o == "s" else "") for o, k, b in sc)
# ---- programs with threads: (name, source, expected output lines, sorted)
SHARE = open(os.path.join(VERIF, "lib/c/share.gray")).read()
PROGS = [("shared data under a lock", SHARE, ["total 13 2 3", "w1.0,w1.1,w1.2 w2.0,w2.1,w2.2", "1 2 2", "6 3 2", "1 p1 2 p2 10 20"], 0, ""),
 ("one after the other", SHARE.replace("    mut b = threads.spawn(()worker, 2)\n    threads.join(a)\n", "    threads.join(a)\n    mut b = threads.spawn(()worker, 2)\n"), ["total 13 2 3", "w1.0,w1.1,w1.2 w2.0,w2.1,w2.2", "1 2 2", "6 3 2", "1 p1 2 p2 10 20"], 0, ""),
 ("threads start threads", '''import @threads
import @atomic
mut n int = 0
do leaf(x int) {
    mut old = atomic.add(addr(n), x)
}
do mid(x int) {
    mut t = threads.spawn(()leaf, x * 10)
    mut old = atomic.add(addr(n), x)
    threads.join(t)
}
do main() {
    mut a = threads.spawn(()mid, 1)
    mut b = threads.spawn(()mid, 2)
    threads.join(b)
    threads.join(a)
    println("${n} ${threads.thread_count()}")
}
''', ["33 0"], 0, ""),
 ("arguments", '''import @threads
import @arrays
do w(x int) {
    println("got ${x}")
}
do z() {
    println("none")
}
do main() {
    mut ts [threads.Thread] = {}
    arrays.append(ts, threads.spawn(()w, -9223372036854775807))
    arrays.append(ts, threads.spawn(()z))
    arrays.append(ts, threads.spawn(()w, 9223372036854775807))
    for_each t in ts {
        threads.join(t)
    }
}
''', ["got -9223372036854775807", "none", "got 9223372036854775807"], 0, ""),
 ("panic in a thread", '''import @threads
do w(x int) {
    mut a [int] = {1, 2}
    println("${a[x]}")
}
do main() {
    mut t = threads.spawn(()w, 7)
    threads.join(t)
    println("not reached")
}
''', None, 1, "P0033"),
 ("recursion in a thread", '''import @threads
mut out int = 0
do f(n int) -> int {
    if n == 0 {
        return 0
    }
    return 1 + f(n - 1)
}
do w(x int) {
    out = f(x)
}
do main() {
    mut a = f(40)
    mut t = threads.spawn(()w, 60)
    threads.join(t)
    println("${a} ${out}")
}
''', ["40 60"], 0, ""),
 ("ensure and errors in threads", '''import @threads
import @sync
import @strconv
mut m sync.Mutex
mut good int = 0
do leave() {
    sync.unlock(m)
}
do parse(s string) -> (int, Error) {
    mut v, e = strconv.to_int(s)
    if e != nil {
        return 0, e
    }
    return v, nil
}
do w(x int) {
    sync.lock(m)
    ensure leave()
    mut v, e = parse("${x}x")
    if e == nil {
        good += v
        return
    }
    mut v2, e2 = parse("${x}")
    if e2 == nil {
        good += v2
    }
}
do main() {
    m = sync.mutex()
    mut a = threads.spawn(()w, 3)
    mut b = threads.spawn(()w, 4)
    threads.join(a)
    threads.join(b)
    println("${good}")
}
''', ["7"], 0, "")]
# ---- every module from two threads: (imports, statements printing with p("..."))
MODS = {
 "strings": ('import @strings', ['strings.to_upper("aB")', 'strings.to_lower("AB")', 'strings.replace("a,b,a", "a", "z")', 'strings.join(strings.split("a,b,c", ","), "+")', 'strings.trim("  x ")', 'strings.repeat("ab", 3)', 'strings.reverse("abc")', 'strings.slice("abcdef", 1, 3)', 'strings.index_of("abc", "c")', 'strings.last_index_of("abcabc", "c")', 'strings.count("aaa", "a")', 'strings.contains("abc", "b")', 'strings.from_chars(strings.to_chars("xyz"))', 'strings.remove_prefix("abc", "a")', 'strings.remove_suffix("abc", "c")', 'strings.char_at("abc", 1)', 'strings.is_empty("")']),
 "arrays": ('import @arrays', ['{S}mut a [int] = {3, 1, 2}', '{S}arrays.append(a, n * 0 + 4)', '{S}arrays.sort_asc(a)', 'a[0]', '{S}arrays.sort_desc(a)', 'a[0]', 'len(arrays.reverse(a))', 'arrays.contains(a, 2)', 'arrays.index_of(a, 3)', '{S}mut ss [string] = {"b${n}", "a${n}"}', '{S}arrays.sort_asc(ss)', 'len(ss[0])']),
 "maps": ('import @maps', ['{S}mut m map[string:int] = {"a": 1, "b": 2}', '{S}m["c${n}"] = 3', 'len(m)', 'len(maps.get_keys(m))', 'len(maps.get_values(m))', 'maps.has_key(m, "a")', 'maps.contains_value(m, 3)', '{S}mut m2 = maps.merge(m, m)', 'maps.is_equal(m, m2)', 'maps.get_or_default(m, "q", 7)', '{S}maps.remove_key(m, "a")', 'len(m)', '{S}maps.clear(m)', 'maps.is_empty(m)']),
 "math": ('import @math', ['math.sqrt(2.0)', 'math.pow(2.0, 10.0)', 'math.factorial(10)', 'math.gcd(12, 18)', 'math.lcm(4, 6)', 'math.is_prime(97)', 'math.log_base(8.0, 2.0)', 'math.atan2(1.0, 2.0)', 'math.hypot(3.0, 4.0)', 'math.abs(-5)', 'math.clamp(5, 1, 3)', 'math.round(2.5)', 'math.lerp(1.0, 2.0, 0.5)']),
 "time": ('import @time', ['time.year(1700000000)', 'time.month(1700000000)', 'time.day(1700000000)', 'time.hour(1700000000)', 'time.minute(1700000000)', 'time.second(1700000000)', 'time.weekday(1700000000)', 'time.format("%Y-%m-%d %H:%M:%S", 1700000000)', 'time.to_iso(1700000000)', 'time.date(1700000000)', 'time.to_clock(1700000000)', 'time.now() > 0', 'time.now_ms() > 0', 'time.now_ns() > 0', 'time.tick() > 0']),
 "random": ('import @random', ['random.rand_int(1, 2)', 'random.rand_float() < 1.0', 'random.rand_float(1.0, 2.0) < 2.0', 'random.rand_byte() == 300', 'random.rand_int(10) < 10', '{S}random.seed(n)', '{S}mut b = random.rand_bool()', '{S}mut ch = random.rand_char()', '{S}mut a [int] = {1, 2, 3}', 'len(random.shuffle(a))', 'len(random.sample(a, 2))', 'random.choice(a) < 4']),
 "json": ('import @json', ['json.encode(n * 0 + 5)', 'json.encode("a\\"b")', '{S}mut m map[string:string], _ = json.decode("{\\"a\\": \\"b\\"}")', 'm["a"]', 'json.is_valid("[1, 2]")', 'json.is_valid("[1, 2")', 'json.encode(m)', 'json.pretty_print(m, 2) != ""']),
 "csv": ('import @csv', ['{S}mut rows [[string]] = csv.parse("a,b\\n1,\\"x\\"\\"y\\"\\n")', 'len(rows)', 'rows[1][1]', 'csv.encode(rows) == ""', 'len(csv.headers(rows))']),
 "regex": ('import @regex', ['regex.is_match("^a+$", "aaa")', 'regex.find("[0-9]+", "ab12cd")', 'len(regex.find_all("[a-z]", "a1b2"))', 'regex.replace("a", "banana", "${n}") != ""', 'len(regex.split(",", "a,b,c"))', 'regex.is_valid("(")']),
 "encoding": ('import @encoding\nimport @crypto', ['encoding.base64_encode("hello")', 'encoding.base64_decode("aGVsbG8=")', 'encoding.hex_encode("hi")', 'encoding.hex_decode("6869")', 'encoding.url_encode("a b&c")', 'encoding.url_decode("a%20b")', 'crypto.sha256("abc")', 'crypto.md5("abc")', 'len(crypto.random_hex(8))']),
 "uuid": ('import @uuid', ['len(uuid.to_string(uuid.generate()))', 'len(uuid.to_string(uuid.generate_time_ordered()))', 'len(uuid.to_string(uuid.generate_random()))', 'uuid.is_valid("00000000-0000-0000-0000-000000000000")', 'len(uuid.generate_compact(uuid.generate()))']),
 "bytes": ('import @bytes\nimport @binary', ['bytes.to_hex(bytes.from_string("abc"))', 'bytes.to_string(bytes.from_hex("6162"))', 'bytes.to_base64(bytes.from_base64("aGk="))', 'bytes.to_hex(binary.encode_i64_be(5))', 'bytes.to_hex(binary.encode_f64_le(1.5))']),
 "fmt": ('import @fmt', ['fmt.sprintf("%d %s %f", 5, "x", 1.5)', 'fmt.pad_left("x", 5, \'.\')', 'fmt.center("x", 5, \'.\')', 'fmt.int_to_hex(255)', 'fmt.int_to_binary(5)', 'fmt.float_fixed(1.25, 1)', 'fmt.float_sci(12345.0)']),
 "strconv": ('import @strconv', ['strconv.to_int("42") + 0', 'strconv.to_float("1.5") + 0.0', 'strconv.to_bool("true")']),
 "builtins": ('', ['len("abc")', 'cast(65, char)', 'int("12") + 1', 'float("1.5") + 1.0', '"${n * 0} ${1.5} ${true}"', 'copy("abc")']),
 "bigint": ('', ['{S}mut wa i256 = 5', '{S}mut wb i256 = 7', 'wa * wb', 'wa / wb', 'wa - wb', '{S}mut u u128 = 12345678901234567890', 'u + u']),
 "os": ('import @os', ['os.get_env("PATH") == ""', 'os.current_dir() == ""', 'os.hostname() == ""', 'os.pid() > 0', 'os.arch()', 'len(os.args()) > 0', '{S}os.set_env("VERIF_T${n}", "v${n}")', 'os.get_env("VERIF_T${n}") == "v${n}"', '{S}os.unset_env("VERIF_T${n}")', 'os.get_env("VERIF_T${n}") == ""']),
 "io": ('import @io', ['{S}mut d, _ = io.temp_dir()', 'io.write_file("${d}/f", "hello")', 'io.read_file("${d}/f")', 'io.append_file("${d}/f", "x")', 'len(io.read_lines("${d}/f"))', 'io.file_size("${d}/f")', 'io.copy_file("${d}/f", "${d}/g")', 'io.move_file("${d}/g", "${d}/h")', 'len(io.list_dir(d))', 'len(io.walk(d))', 'len(io.glob("${d}/*"))', 'io.make_dir_all("${d}/a/b")', 'io.basename("a/b")', 'io.normalize("a/../b")', 'io.path_join({"a", "b"})', 'io.remove_dir_all(d)', 'io.file_exists(d)']),
 "mem": ('import @mem', ['{S}mut a = mem.arena(1024)', '{S}mut p = mem.alloc(a, 5)', 'mem.usage(a) > 0', 'mem.usage(a) < 0', '{S}mem.reset(a)', 'mem.usage(a)', '{S}mem.destroy(a)']),
}
def modprog(names):
    imps = "\n".join(dict.fromkeys(l for n in names for l in MODS[n][0].split("\n") if l)); fs = ""
    for n in names:
        b = []
        for i, s in enumerate(MODS[n][1]):
            b.append("    " + s[3:] if s.startswith("{S}") else '    println("${n} %s%d ${%s}")' % (n, i, s))
        fs += "do f_%s(n int) {\n%s\n}\n" % (n, "\n".join(b))
    fs += "do w(n int) {\n%s\n}\n" % "\n".join("    f_%s(n)" % n for n in names)
    return "import @threads\n%s\n%sdo main() {\n    mut a = threads.spawn(()w, 1)\n    mut b = threads.spawn(()w, 2)\n    threads.join(a)\n    threads.join(b)\n}\n" % (imps, fs)
def body(c):
    c.rule = "one evaluation = one execution of the real code under one schedule class; distinct = distinct (program, script, schedule)"
    S = Sched(c); exe = S.build_c(os.path.join(VERIF, "lib/c/thr_main.c"), "thr"); states = [0]; cut = [0]; maxlen = [0]
    def scenario(a):
        sc, env = a
        if c.expired(10) or c.too_many(): return
        want, ns = model(sc); states[0] += ns
        st, outs = S.explore(exe, [words(sc)], env=env, limit=20000 if c.thorough else 1500, timeout=400)
        c.count("scripts", st["execs"] - st["blocked"]); cut[0] += st["cut"]; maxlen[0] = max(maxlen[0], st["maxlen"])
        def bad(what, o): c.violation("scripts", "script %s: %s" % (words(sc), what), {"script": words(sc), "schedule": o["sched"]})
        n = sum(o == "s" for o, k, b in sc)
        for o in outs:
            if o["bad"]: bad("%s" % "; ".join(o["bad"][:3]), o); return
            if o["status"]: bad("status %s %s" % (o["status"], o["lines"]), o); return
            got = tuple(sorted((l for l in o["lines"] if l[0] == "m"), key=lambda l: int(l[1:].split()[0])))
            if got not in want: bad("results %s, which no order of events gives" % (got,), o); return
            if o["live"]: bad("%d blocks of memory are never freed" % o["live"], o); return
            bodies = sorted(l for l in o["lines"] if l.startswith("body")); subs = sum(l.startswith("sub") for l in o["lines"])
            if bodies != sorted("body %d" % k for p, k, b in sc if p == "s") or subs != sum(p == "s" and b in (2, 3) for p, k, b in sc): bad("functions run: %s" % bodies, o); return
            if "count 0" not in o["lines"] or "end" not in o["lines"] or any(l.startswith("keep") and not l.endswith(" 1") for l in o["lines"]): bad("at the end: %s" % o["lines"], o); return
    J = []
    # one thread: every order of queries between start and end
    for b in (0, 1, 4):
        for mid in [()] + [x for n in (1, 2) for x in itertools.product("an", repeat=n)]:
            for end in "jd":
                ops = [("s", 0, b)] + [(o, 0, 0) for o in mid] + ([("o", 0, 0)] if b == 1 else []) + [(end, 0, 0)]; J.append((tuple(ops), {}))
                if b == 1 and end == "d": J.append((tuple([("s", 0, b)] + [(o, 0, 0) for o in mid] + [(end, 0, 0), ("o", 0, 0)]), {}))
                if b == 0: J.append((tuple([("s", 0, b), ("w", 0, 0)] + [(o, 0, 0) for o in mid] + [(end, 0, 0)]), {}))
    # two threads: every interleaving of their starts and ends in the first thread's script
    for b0, b1 in ((0, 0), (4, 4), (1, 1), (0, 4)):
        for e0 in "jd":
            for e1 in "jd":
                base = [[("s", 0, b0), (e0, 0, 0)], [("s", 1, b1), (e1, 1, 0)]]
                for order in ((0, 0, 1, 1), (0, 1, 0, 1), (0, 1, 1, 0)):
                    ix = [0, 0]; ops = []
                    for w in order: ops.append(base[w][ix[w]]); ix[w] += 1
                    if 1 in (b0, b1): k = max(i for i, o in enumerate(ops) if o[0] == "s") + 1; ops.insert(2 if order[:2] == (0, 1) else 1, ("o", 0, 0))
                    J.append((tuple(ops), {})); J.append((tuple(ops[:2] + [("n", 0, 0)] + ops[2:]), {}))
    # threads that start threads
    for b in (2, 3):
        for end in "jd": J += [((("s", 0, b), (end, 0, 0)), {}), ((("s", 0, b), ("n", 0, 0), (end, 0, 0)), {})]
    if c.thorough:
        for es in itertools.product("jd", repeat=3):
            J.append((tuple([("s", k, 0) for k in range(3)] + [(e, k, 0) for k, e in enumerate(es)]), {}))
        for b in (2, 3): J += [((("s", 0, b), ("s", 1, 0), (e, 0, 0), (f, 1, 0)), {}) for e in "jd" for f in "jd"]
    def prog(a):
        name, src, want, status, text = a
        if c.expired(10) or c.too_many(): return
        exe = S.tc.must_compile(src); st, outs = S.explore(exe, [], limit=4000 if c.thorough else 400, timeout=400); c.count("programs", st["execs"] - st["blocked"]); cut[0] += st["cut"]
        for o in outs:
            if o["bad"] or o["status"] != status or (want is not None and o["lines"] != sorted(want)) or text not in " ".join(o["lines"]) or "not reached" in o["lines"]:
                c.violation("program:" + name, "%s: status %s, output %s, expected %s; %s" % (name, o["status"], o["lines"], sorted(want or []), "; ".join(o["bad"][:3])), {"schedule": o["sched"], "source": src}); return
    def mods(names):
        if c.expired(10) or c.too_many(): return
        src = modprog(names); exe = S.tc.must_compile(src); tmp = os.path.join(c.tmp, "t_" + "_".join(names)); os.makedirs(tmp, exist_ok=True)
        st, outs = S.explore(exe, [], env={"TMPDIR": tmp}, limit=600 if c.thorough else 60, timeout=600); c.count("modules", st["execs"] - st["blocked"]); cut[0] += st["cut"]
        for o in outs:
            one = sorted(l[2:] for l in o["lines"] if l.startswith("1 ")); two = sorted(l[2:] for l in o["lines"] if l.startswith("2 "))
            if o["bad"] or o["status"] or one != two or len(one) < 3 or len(outs) > 1:
                c.violation("modules:" + ",".join(names), "functions of %s called by two threads: status %s %s; the threads' outputs %s" % (", ".join(names), o["status"], "; ".join(o["bad"][:4]) or ("%d different outcomes" % len(outs)), "agree" if one == two else "differ: %s" % sorted(set(one) ^ set(two))[:4]), {"schedule": o["sched"], "source": src}); return
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(prog, PROGS)); list(ex.map(mods, [[k] for k in MODS]))
        list(ex.map(scenario, J))
        if c.thorough: list(ex.map(mods, [list(x) for x in itertools.combinations(list(MODS), 2)]))
    # a thread that cannot be started is reported
    st, outs = S.explore(exe, ["s0:0 j0"], env={"MS_NOTHREAD": "1"}); c.count("start refused", 1)
    for o in outs:
        if o["status"] != 1 or not any("thread" in l for l in o["lines"]): c.violation("start refused", "a refused thread start ends with status %s %s" % (o["status"], o["lines"]), {})
    c.sample({"scripts": len(J), "programs": len(PROGS), "modules": len(MODS), "model_states": states[0], "explorations_cut": cut[0], "longest_execution": maxlen[0]})
if __name__ == "__main__": main("C32", body, level="exploration", quick_s=240, thorough_s=840)
