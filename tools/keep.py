#!/usr/bin/env python3
"""keep.py PROP REGEX WHAT [DIR]: record the keys of the last run's violations matching REGEX as one known finding (by hand, after
checking that the code really is wrong); never run by a check."""
import json, re, sys, os
prop, rx, what = sys.argv[1:4]
d = sys.argv[4] if len(sys.argv) > 4 else "/tmp/chk"
keys = sorted({v["key"] for v in json.load(open("%s/replay/%s/violations.json" % (d, prop))) if re.search(rx, v["key"])})
assert keys
open(os.path.dirname(os.path.abspath(__file__)) + "/known_table.py", "a").write("KNOWN.append((%r, %r, %s))\n" % (prop, what, json.dumps(keys)))
print(len(keys), "keys")
