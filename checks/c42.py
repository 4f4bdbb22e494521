#!/usr/bin/env python3
"""C42: the real self-update code in a child process whose only network is a scripted transport: every crash point, torn write and failing or shortened system call of an install, every truncation and byte corruption of the archive, every URL of a grammar and every redirect chain."""
import sys, os, shutil, itertools, json, tarfile, io, gzip, zlib, struct, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from gotree import *
API = "https://api.github.com/repos/grayscale-lang/grayscale/releases"
BASE = "https://github.com/grayscale-lang/grayscale/releases/download/"
NEW = b"#!/bin/sh\necho new version\n" + bytes(range(256)) * 2
def tar(entries):
    b = io.BytesIO(); t = tarfile.open(fileobj=b, mode="w", format=tarfile.USTAR_FORMAT)
    for name, kind, data in entries:
        i = tarfile.TarInfo(name); i.mode = 0o755; i.type = kind
        if kind == tarfile.REGTYPE: i.size = len(data); t.addfile(i, io.BytesIO(data))
        else: i.linkname = data or ""; t.addfile(i)
    t.close(); return b.getvalue()
def gz(data, stored=False):
    o = zlib.compressobj(0 if stored else 9, zlib.DEFLATED, -15)
    return b"\x1f\x8b\x08\0\0\0\0\0\0\x03" + o.compress(data) + o.flush() + struct.pack("<II", zlib.crc32(data), len(data) & 0xffffffff)
def body(c):
    c.rule = "one evaluation = one update or install by the real code under one crash, fault, archive, answer or URL; all distinct"
    R, L, S, D = tarfile.REGTYPE, tarfile.LNKTYPE, tarfile.SYMTYPE, tarfile.DIRTYPE
    d = gotree(c)
    t = gotest(d, "cli", open(os.path.join(VERIF, "lib/go/c42_test.go")).read())
    ft = ftrace(c); old = open(t, "rb").read()
    import platform
    asset = "gray-linux-%s.tar.gz" % {"x86_64": "amd64", "aarch64": "arm64"}.get(platform.machine(), platform.machine())
    url = BASE + "v1.3.0/" + asset
    fakebin = os.path.join(c.tmp, "path"); os.makedirs(fakebin)
    open(fakebin + "/sudo", "w").write("#!/bin/sh\necho sudo: not allowed >&2\nexit 1\n"); os.chmod(fakebin + "/sudo", 0o755)
    arch = os.path.join(c.tmp, "arch"); os.makedirs(arch); ctr = itertools.count()
    def file(data):
        p = os.path.join(arch, "a%d" % next(ctr)); open(p, "wb").write(data); return p
    good = file(gz(tar([("gray", R, NEW)])))
    def mk():
        h = os.path.join(c.tmp, "u%d" % next(ctr)); os.makedirs(h + "/w/bin"); os.makedirs(h + "/w/tmp"); os.makedirs(h + "/home"); os.makedirs(h + "/outside")
        subprocess.run(["cp", t, h + "/w/bin/gray"], check=True); os.chmod(h + "/w/bin/gray", 0o755); return h
    def go(h, sc, opts=None, stdin=b"y\n", env={}):
        json.dump(dict(dict(Mode="confirm", URL=url, Version="", Pre=False, Releases=[], Log=h + "/urls", Resp={}), **sc), open(h + "/scen", "w"))
        e = dict({"PATH": fakebin, "HOME": h + "/home", "TMPDIR": h + "/w/tmp", "SCEN": h + "/scen", "EXE": h + "/w/bin/gray", "FT_LIMIT": "60"}, **env)
        cmd = [h + "/w/bin/gray"]
        if opts is not None: cmd = [ft, "-p", h + "/w/", "-o", h + "/log"] + opts + ["--"] + cmd
        p = subprocess.run(cmd, input=stdin, capture_output=True, env=e, cwd=h, timeout=120)
        ls = open(h + "/log", errors="replace").read().split("\n") if opts is not None else []
        if p.returncode in (99, 125): raise CheckError("update harness: %r" % p.stderr[-300:])
        return p.returncode, p.stdout + p.stderr, ls
    def look(h):
        p = h + "/w/bin/gray"
        if not os.path.lexists(p): return "missing"
        if os.path.islink(p) or not os.path.isfile(p): return "not a regular file"
        b = open(p, "rb").read(); m = os.stat(p).st_mode & 0o777
        if m & 0o111 != 0o111: return "not executable (%o, %d bytes)" % (m, len(b))
        return "old" if b == old else "new" if b == NEW else "%d bytes, neither the old nor the new version" % len(b)
    def rest(h): return sorted(x for x in os.listdir(h + "/w/bin") if x != "gray") + sorted("tmp/" + x for x in os.listdir(h + "/w/tmp")) + sorted("outside/" + x for x in os.listdir(h + "/outside"))
    def urls(h): return open(h + "/urls").read().split("\n")[:-1] if os.path.exists(h + "/urls") else []
    R200 = lambda p, **k: dict(dict(Status=200, Body=p, Fail=-1), **k)
    plain = {"Resp": {url: R200(good)}}
    def verdict(h, key, how, code, out, want=None):
        """want: 'new', 'old' or None (either, but consistent with the exit status)"""
        s = look(h)
        if s not in ("old", "new"): c.violation(key, "%s: the installed program is %s" % (how, s), {"how": how, "output": out.decode(errors="replace")[:300]})
        elif code == 0 and s != "new" and want != "old": c.violation(key, "%s: reported success, but the %s version is installed" % (how, s), {"how": how})
        elif code != 0 and s != "old": c.violation(key, "%s: reported failure, but the %s version is installed" % (how, s), {"how": how, "output": out.decode(errors="replace")[:300]})
        elif want and s != want: c.violation(key, "%s: the %s version is installed (status %d): %s" % (how, s, code, out.decode(errors="replace")[:300]), {"how": how})
        if code < 0 or b"goroutine" in out: c.violation(key + ":crash", "%s: the updater crashed: %s" % (how, out.decode(errors="replace")[:300]), {"how": how})
    # --- plain install, its events
    h = mk(); code, out, ls = go(h, plain, ["-r"]); verdict(h, "plain", "an undisturbed update", code, out, "new")
    if rest(h): c.violation("plain:left", "an undisturbed update leaves %r" % rest(h), {})
    ev = [l.split(" ", 2) for l in ls if l[:1].isdigit()]; c.sample({"system calls of one install below the installation": len(ev)}); c.count("states", 1)
    start = next((i for i, e in enumerate(ev) if ".gray-update-test" in e[2] or "gray-update-" in e[2]), 0)
    # --- every crash point, torn write, failing call, short transfer
    jobs = []
    for n, p, desc in ev:
        w = desc.split(); size = int(w[1]) if len(w) > 2 and w[1].isdigit() else 0
        if w[0] == "exec": continue
        # the runtime of the process itself may look files up before the program starts
        if int(n) < start: continue
        jobs.append((n, ["-k", n], w[0], "crash before step %s (%s)" % (n, desc)))
        if w[0] in ("write", "copyrange", "sendfile"):
            for b in sorted({1, min(size, len(NEW)) // 2, min(size, len(NEW)) - 1, size}): jobs.append((n, ["-k", "%s:%d" % (n, b)], w[0], "crash in step %s (%s) after %d bytes" % (n, desc, b)))
        if w[0] in ("write", "copyrange", "sendfile", "read"):
            for b in (1, 7, min(size, len(NEW)) // 2): jobs.append((n, ["-s", "%s:%d" % (n, b)], w[0], "step %s (%s) transfers only %d bytes" % (n, desc, b)))
        for e in {"write": (28, 5), "copyrange": (28, 5), "sendfile": (28, 5), "close": (5, 28), "fsync": (5, 28)}.get(w[0], (5, 13, 28)): jobs.append((n, ["-e", "%s:%d" % (n, e)], w[0], "step %s (%s) fails with errno %d" % (n, desc, e)))
    jobs.append((len(ev), ["-k", str(len(ev))], "end", "crash at the end"))
    def fault(j):
        n, opts, word, how = j
        h = mk(); code, out, ls = go(h, plain, ["-r"] + opts); key = "fault:%s:%s:%s" % (opts[0][1:], opts[1], word); how = how.replace(h, "")
        if opts[0] == "-k":
            s = look(h)
            if s not in ("old", "new"): c.violation(key, "%s: the installed program is %s" % (how, s), {"how": how})
            if s == "old":
                code, out, ls = go(h, plain); verdict(h, key + ":again", how + ", then a new update", code, out, "new")
                left = [x for x in rest(h) if not x.startswith("tmp/")]
                if left: c.violation(key + ":left", "%s, then a new update: leaves %r" % (how, left), {})
        else:
            verdict(h, key, how, code, out, "new" if opts[0] == "-s" else None)
            left = rest(h)
            if left and word not in ("unlink", "rmdir", "getdents", "stat", "openr", "open"): c.violation(key + ":left", "%s: leaves %r" % (how, left), {})
            if look(h) == "old": code, out, ls = go(h, plain); verdict(h, key + ":again", how + ", then a new update", code, out, "new")
        c.count("faults", 1); shutil.rmtree(h)
    pmap(fault, jobs)
    # --- archives
    cases = []
    def arc(name, data, want, resp={}): cases.append((name, data, want, resp))
    other = b"other file"
    for nm in ("gray", "./gray", "x/gray", "/gray", "gray-v1/bin/gray"): arc("name:" + nm, gz(tar([(nm, R, NEW)])), "new")
    arc("with others", gz(tar([("README", R, other), ("gray", R, NEW), ("grayc", R, other), ("libgrayrt.a", R, other)])), "new")
    arc("others first", gz(tar([("grayc", R, other), ("d", D, ""), ("gray", R, NEW), ("LICENSE", R, other)])), "new")
    for nm in ("../gray", "../../gray", "../../../outside/gray", "x/../../gray"): arc("name:" + nm, gz(tar([(nm, R, NEW)])), "any")
    for k, kn in ((S, "symlink"), (L, "hardlink")):
        for tgt in ("/etc/passwd", "../../outside/f", "grayc"):
            arc("%s:%s" % (kn, tgt), gz(tar([("gray", k, tgt)])), "old")
            arc("%s then file:%s" % (kn, tgt), gz(tar([("gray", k, tgt), ("gray", R, NEW)])), "any")
            arc("other %s then file:%s" % (kn, tgt), gz(tar([("grayc", k, tgt), ("grayc", R, other), ("gray", R, NEW)])), "any")
    for k, kn in ((D, "directory"), (tarfile.FIFOTYPE, "fifo"), (tarfile.CHRTYPE, "device")): arc(kn, gz(tar([("gray", k, "")])), "old"); arc(kn + " then file", gz(tar([("gray", k, ""), ("gray", R, NEW)])), "any")
    for nm in ("gray2", "Gray", "gray.txt", "gra", "gray/", "grayc", "xgray"): arc("no gray:" + nm, gz(tar([(nm, R, NEW)])), "any" if nm == "gray/" else "old")
    arc("empty tar", gz(tar([])), "old"); arc("empty body", b"", "old"); arc("html", b"<html>not found</html>", "old"); arc("plain tar", tar([("gray", R, NEW)]), "old"); arc("raw binary", NEW, "old")
    full = gz(tar([("gray", R, NEW)])); stored = gz(tar([("gray", R, NEW)])[:2048], True)
    arc("short tar end", gz(tar([("gray", R, NEW)])[:512 + 1024]), "any")
    arc("wrong crc", full[:-8] + struct.pack("<I", 1) + full[-4:], "old"); arc("wrong length", full[:-4] + struct.pack("<I", 1), "old")
    for i in range(0, len(full)): arc("cut at %d" % i, full[:i], "old")
    step = 1 if c.thorough else 3
    for i in range(0, len(stored), step):
        for x in (0xff, 1): arc("byte %d xor %d" % (i, x), stored[:i] + bytes([stored[i] ^ x]) + stored[i + 1:], "any")
    for i in range(0, len(stored), 97): arc("cut at stored %d" % i, stored[:i], "old")
    for i in list(range(0, len(full) + 1, 1 if c.thorough else 4)) + [len(full) - 1]:
        arc("connection breaks after %d" % i, full, "old", {"Fail": i, "Length": len(full) if i % 8 == 0 else -1})
    for st in [100, 101, 201, 202, 203, 204, 205, 206, 299, 300, 304, 400, 401, 403, 404, 410, 429, 500, 502, 503, 504, 599]: arc("status %d" % st, full, "old", {"Status": st})
    arc("declared too large", full, "old", {"Length": (256 << 20) + 1})
    arc("unknown length", full, "new", {"Length": -1})
    def archive(a):
        name, data, want, resp = a
        h = mk(); p = file(data)
        code, out, _ = go(h, {"Resp": {url: R200(p, **resp)}})
        verdict(h, "archive:" + name, "archive: " + name, code, out, None if want == "any" else want)
        if rest(h): c.violation("archive:left:" + name, "archive %s: leaves %r" % (name, rest(h)), {})
        extra = sorted(set(os.listdir(h)) - {"w", "home", "outside", "scen", "urls"}) + sorted(set(os.listdir(h + "/w")) - {"bin", "tmp"})
        if extra: c.violation("archive:outside:" + name, "archive %s: creates %r" % (name, extra), {})
        c.count("archives", 1); shutil.rmtree(h); os.unlink(p)
    pmap(archive, cases)
    if not c.expired():
        for n in ((256 << 20) + 1, 1 << 40):
            h = mk(); code, out, _ = go(h, {"Resp": {url: dict(Status=200, Repeat=n, Length=-1, Fail=-1)}}); verdict(h, "endless:%d" % n, "a body of %d bytes" % n, code, out, "old")
            if rest(h): c.violation("endless:left:%d" % n, "a body of %d bytes leaves %r" % (n, rest(h)), {})
            c.count("archives", 1); shutil.rmtree(h)
    # --- redirects: every chain of up to 3 hops over these targets
    hops = {"s": "https://objects.githubusercontent.com/x", "s2": "https://github.com/other", "h": "http://objects.githubusercontent.com/x", "h2": "http://github.com/grayscale-lang/grayscale/releases/download/v1.3.0/" + asset, "f": "ftp://x/y", "rel": "/grayscale-lang/x", "empty": ""}
    chains = [ch for n in (1, 2, 3) for ch in itertools.product(hops, repeat=n)]
    def redirect(ch):
        for st in ((301, 302, 307, 308) if len(ch) == 1 else (302,)):
            h = mk(); resp = {}; cur = url; loop = False; bad = False
            from urllib.parse import urljoin
            for k in ch:
                tgt = hops[k]
                nxt = urljoin(cur, tgt) if tgt else ""
                if cur in resp: loop = True; break
                resp[cur] = dict(Status=st, Location=tgt, Fail=-1); cur = nxt
                if k in ("h", "h2", "f", "empty"): bad = True; break
            if cur in resp: loop = True
            elif not loop and cur: resp[cur] = R200(good)
            code, out, _ = go(h, {"Resp": resp})
            key = "redirect:%d:%s" % (st, ">".join(ch))
            verdict(h, key, "redirect chain %s" % (ch,), code, out, "old" if bad or loop else "new")
            for u in urls(h):
                if not u.startswith("https://"): c.violation(key, "redirect chain %s: requests %s" % (ch, u), {})
            c.count("redirects", 1); shutil.rmtree(h)
    pmap(redirect, chains)
    # --- which release is taken, and only with the user's consent
    def rel(tag, pre=False, assets=None): return {"tag_name": tag, "body": "### Features\n* x (#1)\n", "prerelease": pre, "assets": [{"name": n, "browser_download_url": u} for n, u in (assets if assets is not None else [("gray-other.tar.gz", BASE + "x"), (asset, BASE + tag + "/" + asset)])]}
    flows = []
    for ans, yes in [(b"y\n", 1), (b"yes\n", 1), (b"Y\n", 1), (b" YES \n", 1), (b"n\n", 0), (b"\n", 0), (b"", 0), (b"no\n", 0), (b"yess\n", 0), (b"y y\n", 0), (b"maybe\ny\n", 0)]:
        flows.append(("answer:%r" % ans, dict(Mode="update", Releases=[rel("v1.3.0")]), ans, url if yes else None, 0))
    for tags, pre, want in [(["v1.3.0", "v1.4.0"], 0, "v1.4.0"), (["v1.4.0", "v1.3.0"], 0, "v1.4.0"), (["v1.2.0"], 0, None), (["v1.1.9"], 0, None), (["v1.10.0", "v1.9.0"], 0, "v1.10.0"), (["v1.3.0", "v1.4.0-beta.1"], 0, "v1.3.0"), (["v1.3.0", "v1.4.0-beta.1"], 1, "v1.4.0-beta.1"), (["v1.3.0"], 1, None), (["v1.4.0-beta.2", "v1.4.0-beta.10"], 1, "v1.4.0-beta.10"), ([], 0, None), (["v1.2.0-rc.1"], 1, None)]:
        flows.append(("pick:%s:%d" % (",".join(tags), pre), dict(Mode="update", Pre=bool(pre), Releases=[rel(x, "-" in x) for x in tags]), b"y\n", want and BASE + want + "/" + asset, 0))
    for bad in ("http://github.com/grayscale-lang/grayscale/releases/download/v1.3.0/" + asset, "https://evil.com/x", BASE + "../../../evil/" + asset, "https://github.com/evil/evil/releases/download/v1.3.0/" + asset, "", "https://user@github.com/grayscale-lang/grayscale/releases/download/v1.3.0/" + asset):
        for mode in ("update", "install"): flows.append(("asset:%s:%s" % (mode, bad), dict(Mode=mode, Version="1.3.0", Releases=[rel("v1.3.0", assets=[(asset, bad)])]), b"y\n", None, 1))
        flows.append(("confirm:" + bad, dict(Mode="confirm", URL=bad), b"", None, 1))
    for v, want, err in [("1.3.0", "v1.3.0", 0), ("v1.3.0", "v1.3.0", 0), ("1.1.0", "v1.1.0", 0), ("1.2.0", None, 0), ("1.4.0", None, 1), ("1.3", None, 1), ("", None, 1), ("latest", None, 1), ("1.3.0-beta.1", "v1.3.0-beta.1", 0), ("1.3.0/../../evil", None, 1), ("1.3.0\n", None, 1), ("^1.3.0", None, 1)]:
        flows.append(("install:" + repr(v), dict(Mode="install", Version=v, Releases=[rel("v1.1.0"), rel("v1.2.0"), rel("v1.3.0-beta.1", True), rel("v1.3.0")]), b"", want and BASE + want + "/" + asset, err))
    flows.append(("noasset", dict(Mode="update", Releases=[rel("v1.3.0", assets=[("gray-plan9-x.tar.gz", url), (asset + ".sig", url)])]), b"y\n", None, 1))
    def flow(f):
        name, sc, ans, want, err = f
        h = mk(); sc = dict(sc, Resp=dict({want: R200(good)} if want else {url: R200(good)}))
        code, out, _ = go(h, sc, stdin=ans)
        got = [u for u in urls(h) if u != API]
        s = look(h)
        if got != ([want] if want else []): c.violation("flow:" + name, "%s: requests %r instead of %r" % (name, got, want), {})
        if s != ("new" if want else "old"): c.violation("flow:" + name, "%s: the %s version is installed" % (name, s), {})
        if (code != 0) != bool(err): c.violation("flow:" + name, "%s: exit status %d: %s" % (name, code, out.decode(errors="replace")[:300]), {})
        c.count("flows", 1); shutil.rmtree(h)
    pmap(flow, flows)
    # --- URL grammar, in one process
    h = mk(); json.dump(dict(Mode="urls"), open(h + "/scen", "w"))
    r = run([h + "/w/bin/gray"], 600, env={"PATH": fakebin, "HOME": h + "/home", "TMPDIR": h + "/w/tmp", "SCEN": h + "/scen", "EXE": h + "/w/bin/gray", "THOROUGH": "1" if c.thorough else ""}, cwd=h)
    lines(c, r, "URL harness")
    if look(h) != "old": c.violation("url:installed", "some URL led to an installation", {})
main("C42", body, level="fault_enumeration", quick_s=140, thorough_s=800)
