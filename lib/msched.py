"""Programs under the controlled scheduler of lib/c/msched.c."""
import os, itertools, threading
from concurrent.futures import ThreadPoolExecutor
from vlib import *
WRAPS = ("main malloc calloc realloc free strdup exit nanosleep sched_yield memcpy memmove memset pthread_create pthread_join pthread_detach pthread_mutex_init pthread_mutex_lock "
         "pthread_mutex_trylock pthread_mutex_unlock pthread_mutex_destroy pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait "
         "pthread_cond_signal pthread_cond_broadcast gray_atomic_add gray_atomic_sub gray_atomic_exchange gray_atomic_and gray_atomic_or gray_atomic_xor "
         "gray_atomic_load gray_atomic_store gray_atomic_cas gray_spin_lock gray_spin_trylock gray_spin_unlock localtime gmtime ctime asctime strtok gethostbyname setlocale getpwuid getpwnam setenv unsetenv putenv getenv strerror").split()
TSAN = "-fsanitize=thread -O1 -g1 -fno-inline-small-functions -U_FORTIFY_SOURCE"
class Sched:
    """A toolchain whose programs are explored over all schedules."""
    def __init__(self, check):
        self.c = check
        self.tc = Toolchain(check.tmp, rt_extra=TSAN, name="tc_sched")
        o = self.o = os.path.join(check.tmp, "msched.o")
        p = run(["gcc", "-O2", "-w", "-c", os.path.join(VERIF, "lib/c/msched.c"), "-o", o])
        if p.returncode: raise CheckError(p.stderr.decode())
        # compile the program instrumented, link without the sanitizer's own runtime
        w = os.path.join(self.tc.bin, "cc"); gcc = "/usr/bin/gcc"
        with open(w, "w") as f:
            f.write('''#!/bin/bash
pre=(); src=(); post=(); out=a.out; comp=0; next=""
for a in "$@"; do
  if [ "$next" = o ]; then out="$a"; next=""; continue; fi
  case "$a" in
  -o) next=o;; -c|-S|-E|--version) comp=1; pre+=("$a");; -Wall|-Werror) ;; -O*) ;;
  *.c) src+=("$a");; *.a|*.o|-l*|-Wl,*|-L*) post+=("$a");; *) pre+=("$a");; esac
done
if [ $comp = 1 ]; then exec %s -w "$@"; fi
objs=()
for s in "${src[@]}"; do
  %s -w "${pre[@]}" %s -c "$s" -o "$out.$$.${#objs[@]}.o" || exit 1
  objs+=("$out.$$.${#objs[@]}.o")
done
%s -w -o "$out" "${objs[@]}" %s "${post[@]}" %s 2>&1; r=$?
rm -f "${objs[@]}"; exit $r
''' % (gcc, gcc, TSAN, gcc, o, " ".join("-Wl,--wrap=" + x for x in WRAPS)))
        self.cpus = list(os.sched_getaffinity(0)); self.free = list(self.cpus); self.lock = threading.Lock()
    def explore(self, exe, args=(), env=None, limit=100000, timeout=600):
        """Returns (stats, outcomes); an outcome is a dict: lines, status, live, bad (messages), n, sched."""
        with self.lock: cpu = self.free.pop() if self.free else None
        try:
            e = dict(self.tc.env, MS="1", MS_LIMIT=str(limit)); e.update(env or {})
            if cpu is not None: e["MS_CPU"] = str(cpu)
            p = run([exe] + list(args), env=e, timeout=timeout)
        finally:
            if cpu is not None:
                with self.lock: self.free.append(cpu)
        o = p.stdout; k = o.find(b"\n")
        if not o.startswith(b"EXECS"): raise CheckError("explorer: %r %r %r" % (p.returncode, o[:300], p.stderr[:300]))
        w = o[:k].split(); st = {w[i].decode().lower(): int(w[i + 1]) for i in range(0, len(w), 2)}
        pos = k + 1; outs = []
        while pos < len(o):
            k = o.find(b"\n", pos); h = o[pos:k].split(b" "); n = int(h[2]); t = o[k + 1:k + 1 + n].decode(errors="replace"); pos = k + 1 + n
            d = {"n": int(h[1]), "sched": h[3].decode() if len(h) > 3 else "", "lines": [], "bad": [], "status": None, "live": None}
            for l in t.split("\n"):
                if l.startswith("@status "): d["status"] = int(l[8:])
                elif l.startswith("@live "): d["live"] = int(l[6:])
                elif l.startswith("!"): d["bad"].append(l[1:])
                elif l: d["lines"].append(l)
            outs.append(d)
        return st, outs
    def build_c(self, path, name):
        """A C harness calling the runtime directly."""
        exe = os.path.join(self.c.tmp, name); ob = exe + ".o"; inc = ["-I" + os.path.join(self.tc.src, "src")]
        p = run(["/usr/bin/gcc", "-std=gnu11", "-w", "-O1", "-g1"] + inc + ["-c", path, "-o", ob])
        if not p.returncode: p = run(["/usr/bin/gcc", "-w", "-o", exe, ob, self.o, self.tc.lib] + ["-Wl,--wrap=" + x for x in WRAPS] + ["-lm", "-lpthread", "-Wl,-w"])
        if p.returncode: raise CheckError("%s: %s" % (path, p.stderr.decode()[-2000:]))
        return exe
