#!/usr/bin/env python3
"""C41: version precedence, compared with Semantic Versioning 2.0.0 on every pair of a bounded set of version strings."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from gotree import *
def body(c):
    c.rule = "one evaluation = one pair, triple, release list or version string put through the code and compared with the specification; all distinct"
    d = gotree(c)
    t = gotest(d, "cli", open(os.path.join(VERIF, "lib/go/c41_test.go")).read())
    home = os.path.join(c.tmp, "home"); os.makedirs(home)
    r = run([t], 700, env=dict(ENV, HOME=home, THOROUGH="1" if c.thorough else ""), cwd=home)
    lines(c, r, "version harness")
main("C41", body, level="exploration", quick_s=140, thorough_s=800)
