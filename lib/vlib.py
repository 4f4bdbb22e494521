"""Shared machinery of the checks: builds /repo's current tree into a scratch
directory, runs compiled programs, collects violations and writes evidence."""
import os, sys, json, time, shutil, tempfile, subprocess, atexit, signal, hashlib, threading, itertools
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = os.cpu_count() or 4
ENV = dict(os.environ, LANG="C.UTF-8", LC_ALL="C.UTF-8", MAKEFILES="/opt/vp/no-sqlite.mk",
           GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="", GOPATH="/root/go",
           GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"), NO_COLOR="1")
for _k in ("MAKEFLAGS", "CC", "CFLAGS", "MAKELEVEL", "GRAY_RUNTIME"):
    ENV.pop(_k, None)
ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:handle_segv=1",
            "UBSAN_OPTIONS": "halt_on_error=1:exitcode=98:print_stacktrace=0"}
_tmps = []
_UNIQ = itertools.count(1)

def _cleanup():
    for d in _tmps:
        shutil.rmtree(d, ignore_errors=True)
atexit.register(_cleanup)
def _term(*a):
    _cleanup(); os._exit(3)
# the programs under test must not inherit signals ignored or blocked around us
for _s in signal.valid_signals():
    try:
        if signal.getsignal(_s) == signal.SIG_IGN and _s not in (signal.SIGPIPE, signal.SIGXFSZ): signal.signal(_s, signal.SIG_DFL)
    except (OSError, ValueError): pass
signal.pthread_sigmask(signal.SIG_SETMASK, [])
signal.signal(signal.SIGTERM, _term)

def mktmp(prefix="vchk."):
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) and \
        shutil.disk_usage("/dev/shm").free > 3 << 30 and not os.environ.get("VERIF_NOSHM") else "/tmp"
    try:                                   # a noexec /dev/shm would not do
        d = tempfile.mkdtemp(prefix=prefix, dir=base)
        p = os.path.join(d, "x"); open(p, "w").write("#!/bin/sh\nexit 0\n"); os.chmod(p, 0o755)
        subprocess.run([p], check=True); os.unlink(p)
    except Exception:
        d = tempfile.mkdtemp(prefix=prefix, dir="/tmp")
    os.chmod(d, 0o755)
    _tmps.append(d)
    return d

class CheckError(Exception):
    pass

def run(cmd, timeout=600, **kw):
    kw.setdefault("env", ENV)
    if "input" not in kw: kw.setdefault("stdin", subprocess.DEVNULL)
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)

class Toolchain:
    """A private build of grayc and its runtime from the current tree."""
    def __init__(self, tmp, san=False, cc=None, compiler=True, rt_extra="", name=None, compiler_san=False):
        self.tmp = os.path.join(tmp, name or ("tc_san" if san else "tc"))
        os.makedirs(self.tmp)
        self.src = os.path.join(self.tmp, "grayc")
        shutil.copytree(os.path.join(REPO, "grayc"), self.src, symlinks=True,
                        ignore=lambda d, n: [x for x in n if x.endswith((".o", ".d", ".a")) or x in ("grayc", "tests", "test_lexer")
                                             and os.path.basename(d) == "grayc"])
        env = dict(ENV)
        self.sanflags = "-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=alignment -fno-omit-frame-pointer -g1" if san else ""
        rt = f"-std=c11 -D_POSIX_C_SOURCE=200809L -Wno-unused-parameter -O{1 if san else 2} {self.sanflags} {rt_extra}"
        targets = ["libgrayrt.a"] if not compiler else ["grayc", "libgrayrt.a"]
        args = ["make", "-s", f"-j{NCPU}", "RT_CFLAGS=" + rt]
        if compiler_san:
            args += ["CFLAGS=-std=c11 -D_POSIX_C_SOURCE=200809L -w -O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined "
                     "-fno-sanitize-recover=undefined -DGRAY_VERSION=\\\"verif\\\"",
                     "LDFLAGS=-lm -fsanitize=address,undefined"]
        p = run(args + targets, cwd=self.src, env=env)
        if p.returncode:
            raise CheckError("build failed:\n" + p.stderr.decode(errors="replace")[-3000:])
        self.grayc = os.path.join(self.src, "grayc")
        self.lib = os.path.join(self.src, "libgrayrt.a")
        # a cc in front of the real one: adds sanitizer flags and what a check asks for
        self.bin = os.path.join(self.tmp, "bin"); os.makedirs(self.bin)
        self.fork_o = os.path.join(self.tmp, "forkmain.o")
        p = run(["gcc", "-O1", "-w", "-c", os.path.join(VERIF, "lib/c/forkmain.c"), "-o", self.fork_o])
        if p.returncode: raise CheckError(p.stderr.decode())
        self.set_cc_extra("")
        self._n = 0; self._lock = threading.Lock()

    def set_cc_extra(self, extra, replace_O=None, fork=True):
        link = ("%s -Wl,--wrap=main" % self.fork_o) if fork else ""
        w = os.path.join(self.bin, "cc")
        real = shutil.which("gcc")
        with open(w, "w") as f:
            f.write("#!/bin/bash\nargs=()\nfor a in \"$@\"; do\n")
            f.write("  case \"$a\" in -Wall) continue;; esac\n")
            if replace_O:
                f.write("  case \"$a\" in -O2|-O3|-O1|-O0) a=%s;; esac\n" % replace_O)
            f.write("  args+=(\"$a\")\ndone\n")
            f.write("comp=0; for a in \"$@\"; do case \"$a\" in -c|--version|-S|-E) comp=1;; esac; done\n")
            f.write("if [ $comp = 1 ]; then exec %s -w -pipe \"${args[@]}\" %s; fi\n" % (real, self.sanflags))
            f.write("exec %s -w -pipe \"${args[@]}\" %s %s %s\n" % (real, self.sanflags, link, extra))
        os.chmod(w, 0o755)
        self.env = dict(ENV, PATH=self.bin + ":" + ENV["PATH"])
        if self.sanflags:
            self.env.update(ASAN_ENV)

    def forkrun(self, exe, cases, timeout=60, workers=None, env=None, chunk=None):
        """cases: lists of argument strings. Returns [(status, out, err)] in order."""
        workers = workers or NCPU
        if not cases: return []
        n = chunk or max(1, min(2000, (len(cases) + workers - 1) // workers))
        chunks = [cases[i:i + n] for i in range(0, len(cases), n)]
        def one(ch):
            inp = "".join("\x1f".join(c) + "\n" for c in ch).encode("utf-8", "surrogateescape")
            e = dict(self.env, VERIF_FORK=str(timeout)); e.update(env or {})
            p = subprocess.run([exe], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=os.path.dirname(exe))
            o = p.stdout; pos = 0; res = []
            for _ in ch:
                k = o.find(b"\n", pos)
                if k < 0: raise CheckError("forkrun protocol: %r %r" % (p.returncode, p.stderr[:500]))
                st, lo, le = map(int, o[pos:k].split()); pos = k + 1
                res.append((st, o[pos:pos + lo], o[pos + lo:pos + lo + le])); pos += lo + le
            return res
        with ThreadPoolExecutor(workers) as ex:
            return [r for rs in ex.map(one, chunks) for r in rs]

    def uniq(self, stem="p"):
        # unique over all toolchains of the run: grayc names its C file after it
        return "%s_%d_%d" % (stem, os.getpid(), next(_UNIQ))

    def compile(self, source, files=None, opt="-O1", timeout=900, extra=(), keep=False, check_only=False):
        """Build one program. Returns (exe or None, CompletedProcess, dir)."""
        name = self.uniq()
        d = os.path.join(self.tmp, name); os.makedirs(d)
        f = os.path.join(d, name + ".gray")
        with open(f, "wb") as fh:
            fh.write(source if isinstance(source, bytes) else source.encode("utf-8", "surrogateescape"))
        for n, c in (files or {}).items():
            p = os.path.join(d, n); os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as fh:
                fh.write(c if isinstance(c, bytes) else c.encode())
        exe = os.path.join(d, name)
        if check_only:
            r = run([self.grayc, "check", f], timeout=timeout, env=self.env, cwd=d)
            return None, r, d
        r = run([self.grayc, "build", f, "-o", exe, opt] + list(extra), timeout=timeout, env=self.env, cwd=d)
        try: os.unlink("/tmp/gray_%s.c" % name)
        except OSError: pass
        if r.returncode != 0 or not os.path.exists(exe):
            return None, r, d
        return exe, r, d

    def must_compile(self, source, **kw):
        exe, r, d = self.compile(source, **kw)
        if exe is None:
            raise BuildFail(r, source)
        return exe

class BuildFail(Exception):
    def __init__(self, r, source):
        self.r = r; self.source = source
        super().__init__((r.stdout + r.stderr).decode(errors="replace")[-1500:])

def pmap(fn, items, workers=None):
    with ThreadPoolExecutor(workers or NCPU) as ex:
        return list(ex.map(fn, items))

class Check:
    def __init__(self, pid, level="exploration", quick_s=240, thorough_s=800):
        self.pid = pid; self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.deadline = self.t0 + (thorough_s if self.thorough else quick_s)
        self.tmp = mktmp()
        self.cov = {"evaluations": 0, "distinct_nontrivial": 0}
        self.samples = []; self.parts = {}
        self.assumptions = []
        self.viol = []; self.per_key = {}; self.knownhit = {}
        self.known = []
        self.truncated = False
        self._lock = threading.Lock()
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            for e in json.load(open(kf)):
                if e.get("status") == "known" and e["property"] == pid:
                    self.known.append(e)
        self.rule = ""
        rd = os.path.join(VERIF, "replay", pid)
        shutil.rmtree(rd, ignore_errors=True)

    def expired(self, margin=0):
        if time.time() > self.deadline - margin:
            self.truncated = True
            return True
        return False

    def count(self, part, n=1, distinct=None):
        with self._lock:
            p = self.parts.setdefault(part, {"evaluations": 0, "distinct_nontrivial": 0})
            p["evaluations"] += n
            p["distinct_nontrivial"] += n if distinct is None else distinct

    def sample(self, s):
        with self._lock:
            if len(self.samples) < 12: self.samples.append(s)

    def violation(self, key, what, replay=None):
        """key identifies the failing input/site; known findings match on it exactly
        (or by a listed set of keys)."""
        with self._lock:
            for e in self.known:
                if key in e["keys"]:
                    self.knownhit.setdefault(e["what"], []).append(key)
                    return False
            n = self.per_key.get(key, 0); self.per_key[key] = n + 1
            if n < 2 and len(self.viol) < (100000 if os.environ.get("VERIF_ALL") else 400):
                self.viol.append((key, what, replay))
            return True

    def too_many(self, n=25):
        if os.environ.get("VERIF_ALL"): return False
        return len(self.per_key) >= n

    def finish(self):
        for p in self.parts.values():
            self.cov["evaluations"] += p["evaluations"]
            self.cov["distinct_nontrivial"] += p["distinct_nontrivial"]
        cov = dict(self.cov)
        cov["rule"] = self.rule
        cov["samples"] = self.samples or ["none"]
        cov["exhaustive"] = not self.truncated
        cov["parts"] = self.parts
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2),
              "assumptions": self.assumptions, "violations": len(self.viol)}
        if self.knownhit:
            cov["known_findings_reproduced"] = {k: len(v) for k, v in self.knownhit.items()}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for w in self.knownhit:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, w))
        if self.viol:
            rd = os.path.join(VERIF, "replay", self.pid); os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "violations.json")
            with open(path, "w") as f:
                json.dump([{"key": k, "what": w, "replay": r} for k, w, r in self.viol], f, indent=1, default=str)
            for k, w, r in (self.viol if os.environ.get("VERIF_ALL") else self.viol[:20]):
                print("  [%s] (x%d) %s" % (k, self.per_key[k], w))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        print("%s %s: %d evaluations, %d distinct, %d violations, %.1fs%s" %
              (self.pid, self.tier, cov["evaluations"], cov["distinct_nontrivial"], len(self.viol),
               ev["wall_s"], "" if not self.truncated else " (truncated)"))
        sys.stdout.flush()
        _cleanup()
        os._exit(1 if self.viol else 0)

def main(pid, fn, **kw):
    """Runs fn(check). A build of the current tree that fails is an error (exit 3),
    never a violation."""
    c = Check(pid, **kw)
    try:
        fn(c)
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.stdout.flush(); sys.stderr.flush()
        if c.viol:
            c.finish()
        _cleanup()
        os._exit(3)
    c.finish()

# ---------------------------------------------------------------- case batches
class Batch:
    """Many small cases in few programs. Each case is a function body (list of
    statements that print) with an expectation: the exact text it prints, and
    whether it then ends with a runtime panic. Cases expected to end normally
    run together in one process; every case that may panic runs in its own."""
    def __init__(self, check, tc, prelude="", imports=(), per_file=200, opt="-O1", workers=None, timeout=120,
                 part="cases", using=()):
        self.c = check; self.tc = tc; self.prelude = prelude; self.imports = list(imports)
        self.per_file = per_file; self.opt = opt; self.cases = []; self.part = part
        self.workers = workers or NCPU; self.timeout = timeout; self.using = using
        self.reject_ok = False
        self._prelude = None; self._pl = threading.Lock()
    def add(self, key, body, expect, panic=False, decls="", desc=None, code=None):
        """body: statements of a do caseN() function. decls: file-scope text with
        @@ replaced by the case number."""
        self.cases.append((key, body, expect, panic, decls, desc, code))
    def source(self, cases):
        imps = ["import @os"] + ["import @" + m for m in self.imports if m != "os"]
        s = ["\n".join(imps)] + ["using " + u for u in self.using] + [self.prelude]
        for i, (key, body, exp, pan, decls, desc, code) in enumerate(cases):
            if decls: s.append(decls.replace("@@", str(i)))
            s.append("do case%d() {\n%s\n}" % (i, body.replace("@@", str(i))))
        # dispatch through groups of 50 to keep functions small
        n = len(cases)
        for g in range(0, n, 50):
            s.append("do group%d(k int) {\n when k {" % (g // 50))
            for i in range(g, min(n, g + 50)):
                s.append("  is %d { case%d() }" % (i, i))
            s.append("  default { println(\"?\") }\n }\n}")
        s.append("do dispatch(k int) {")
        for g in range(0, n, 50):
            s.append(" if k >= %d && k < %d { group%d(k) }" % (g, g + 50, g // 50))
        s.append("}")
        s.append("do main() {\n mut a [string] = os.args()\n for_each i, x in a {\n  if i > 0 {\n   mut k int = int(x)\n   println(\"@@CASE ${k}\")\n   dispatch(k)\n  }\n }\n println(\"@@DONE\")\n}")
        return "\n".join(s)
    def run_exe(self, exe, idx):
        st, out, err = self.tc.forkrun(exe, [[str(i) for i in idx]], timeout=self.timeout, workers=1)[0]
        if st == 2000: return b"", b"timeout", -999
        return out, err, st
    @staticmethod
    def split(out):
        res = {}; cur = None; buf = []
        for line in out.split(b"\n"):
            if line.startswith(b"@@CASE "):
                if cur is not None: res[cur] = b"\n".join(buf)
                cur = int(line[7:]); buf = []
            elif line == b"@@DONE":
                if cur is not None: res[cur] = b"\n".join(buf)
                res["done"] = True; cur = None; buf = []
            else:
                buf.append(line)
        if cur is not None: res[cur] = b"\n".join(buf)
        return res
    @staticmethod
    def norm(x):
        if isinstance(x, bytes): x = x.decode("utf-8", "surrogateescape")
        return x.rstrip("\n")
    def one(self, exe, i, case):
        return self.judge(i, case, *self.run_exe(exe, [i]))
    def judge(self, i, case, out, err, rc):
        r = self.split(out)
        r2 = r.get(i, b"")
        key, body, exp, pan, decls, desc, code = case
        got = self.norm(r2); e = err.decode(errors="replace")
        if rc == -999: return "did not end within %ds" % self.timeout
        if rc in (98, 99) or "AddressSanitizer" in e or "runtime error:" in e:
            return "sanitizer: " + e[:500]
        if pan:
            if rc != 1 or "panic" not in e:
                return "expected a panic, got exit %s, stdout %r, stderr %r" % (rc, got[:200], e[:200])
            if code and code not in e:
                return "expected panic %s, got %r" % (code, e[:200])
            if exp is not None and got != self.norm(exp):
                return "expected output %r before the panic, got %r" % (exp[:300], got[:300])
            return None
        if rc != 0 or not r.get("done"):
            return "expected %r, got exit %s, stdout %r, stderr %r" % ((exp or "")[:200], rc, got[:200], e[:300])
        if exp is not None and got != self.norm(exp):
            return "expected output %r, got %r" % (exp[:600], got[:600])
        return None
    def prelude_ok(self):
        """whether the declarations all cases share build at all (reported once)"""
        with self._pl:
            if self._prelude is None:
                src = self.source([])
                exe, r, d = self.tc.compile(src, opt=self.opt)
                self._prelude = exe is not None
                if exe is None:
                    self.c.count(self.part)
                    self.c.violation("declarations:" + self.part, "the declarations of %s do not build: %s" % (self.part, (r.stdout + r.stderr).decode(errors="replace")[:1500]), {"program": src})
                shutil.rmtree(d, ignore_errors=True)
            return self._prelude
    def run_file(self, cases):
        c = self.c
        if c.too_many() or c.expired() or self._prelude is False: return
        src = self.source(cases)
        exe, r, d = self.tc.compile(src, opt=self.opt)
        if exe is None:
            if len(cases) == 1:
                c.count(self.part)
                c.violation(cases[0][0], "program does not build: " + (r.stdout + r.stderr).decode(errors="replace")[:700],
                            {"program": src})
            elif not self.prelude_ok():
                pass
            else:
                h = len(cases) // 2
                self.run_file(cases[:h]); self.run_file(cases[h:])
            shutil.rmtree(d, ignore_errors=True)
            return
        kn = set(k for e in c.known for k in e["keys"])
        normal = [i for i, k in enumerate(cases) if not k[3] and k[0] not in kn]
        todo = [i for i, k in enumerate(cases) if k[3] or k[0] in kn]
        suspects = []
        def bad(out, err, rc):
            res = self.split(out)
            if rc != 0 or not res.get("done"):
                return list(normal)
            return [i for i in normal if cases[i][2] is not None and
                    self.norm(res.get(i, b"\x00missing")) != self.norm(cases[i][2])]
        if normal:
            suspects = bad(*self.run_exe(exe, normal))
            if not suspects: c.count(self.part, len(normal))
            else: c.count(self.part, len(normal) - len(suspects))
        found = 0
        pend = todo + suspects
        first = self.tc.forkrun(exe, [[str(i)] for i in pend], timeout=self.timeout, workers=1)
        for i, (st, out, err) in zip(pend, first):
            c.count(self.part)
            if c.too_many(): break
            v = self.judge(i, cases[i], b"" if st == 2000 else out, err, -999 if st == 2000 else st)
            if v:
                found += 1
                n = sum(1 for _ in range(4) if self.one(exe, i, cases[i]))   # confirm
                if n >= 2:
                    c.violation(cases[i][0], (cases[i][5] or cases[i][1][:300]) + " :: " + v,
                                {"program": self.source([cases[i]]), "args": ["0"]})
        if suspects and not found and not c.too_many():
            # right alone, wrong after the others: state leaks between cases
            last = [self.run_exe(exe, normal) for _ in range(3)]
            if all(bad(*x) for x in last):
                c.violation("batch:" + cases[suspects[0]][0], "output differs when the case runs after others in one process: exit %s stderr %r"
                            % (last[0][2], last[0][1][:300]), {"program": src, "args": [str(i) for i in normal]})
        shutil.rmtree(d, ignore_errors=True)
    def go(self):
        files = [self.cases[i:i + self.per_file] for i in range(0, len(self.cases), self.per_file)]
        for k in self.cases[:1] + self.cases[len(self.cases) // 2:len(self.cases) // 2 + 1]:
            self.c.sample({"case": k[0], "expect": ("panic " if k[3] else "") + str(k[2])[:200], "body": k[1][:300]})
        with ThreadPoolExecutor(self.workers) as ex:
            list(ex.map(self.run_file, files))
        self.cases = []
