"""A scratch copy of the Go side of the current tree, with test files of the check's own in place of the repository's."""
import os, shutil, subprocess
from vlib import REPO, ENV, run, CheckError

def gotree(c, name="go", stage=None):
    """stage: {path below internal/grayc/runtime: bytes} to embed (default: empty stubs, as 'make stubs' makes them)"""
    d = os.path.join(c.tmp, name); os.makedirs(d)
    for f in ("go.mod", "go.sum"): shutil.copy(os.path.join(REPO, f), d)
    for f in ("cli", "internal"):
        shutil.copytree(os.path.join(REPO, f), os.path.join(d, f), symlinks=True,
                        ignore=lambda p, n: [x for x in n if x.endswith("_test.go") or (x == "runtime" and p.endswith("/internal/grayc"))])
    rt = os.path.join(d, "internal/grayc/runtime")
    for p, data in (stage or {"grayc": b"", "libgrayrt.a": b"", "src/runtime/.stub": b"", "src/stdlib/.stub": b""}).items():
        p = os.path.join(rt, p); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "wb").write(data)
    return d

def gotest(d, pkg, src, out="t.bin"):
    """compile src (a _test.go file with its own TestMain) with package pkg into an executable"""
    open(os.path.join(d, pkg, "verif_check_test.go"), "w").write(src)
    o = os.path.join(d, out)
    r = run(["go", "test", "-vet=off", "-ldflags=-s -w", "-c", "-o", o, "./" + pkg], 600, cwd=d, env=dict(ENV, GOFLAGS="-mod=mod"))
    if r.returncode: raise CheckError("go test -c failed:\n" + (r.stderr + r.stdout).decode(errors="replace")[-3000:])
    return o

def gobuild(d, pkg, out="gray"):
    o = os.path.join(d, out)
    r = run(["go", "build", "-o", o, "./" + pkg], 600, cwd=d, env=dict(ENV, GOFLAGS="-mod=mod"))
    if r.returncode: raise CheckError("go build failed:\n" + (r.stderr + r.stdout).decode(errors="replace")[-3000:])
    return o

def ftrace(c):
    o = os.path.join(c.tmp, "ftrace")
    if not os.path.exists(o):
        src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "c", "ftrace.c")
        r = run(["gcc", "-O1", "-w", "-o", o, src])
        if r.returncode: raise CheckError(r.stderr.decode())
    return o

def lines(c, r, what):
    """the harness prints 'N part count' and 'V<TAB>key<TAB>what'; anything else is a failure of the harness"""
    out = r.stdout.decode(errors="replace")
    if r.returncode or "\nDONE" not in "\n" + out: raise CheckError("%s: exit %d\n%s" % (what, r.returncode, (out + r.stderr.decode(errors="replace"))[-2000:]))
    for l in out.split("\n"):
        if l.startswith("N "): _, p, n = l.split(); c.count(p, int(n))
        elif l.startswith("V\t"): _, k, w = l.split("\t", 2); c.violation(k, w, {"key": k, "what": w})
