#!/usr/bin/env python3
"""mkseed.py ID PROPERTY 'needs' 'breaks' DEMO.gray|DEMO.sh [EXPECT-FILE]
Turns the uncommitted diff of a scratch worktree (/tmp/seed/repo) into
/verif/seeded/ID. With a .gray demo a demo.sh is written that builds and runs it
with /repo's toolchain and compares stdout+exit code with the recorded ones."""
import sys, os, json, subprocess, shutil
i, prop, needs, breaks, demo = sys.argv[1:6]
W = "/tmp/seed/repo"
d = "/verif/seeded/" + i
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", W, "diff", "HEAD"], stdout=subprocess.PIPE).stdout
assert diff, "no diff"
open(d + "/patch.diff", "wb").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
if demo.endswith(".sh"):
    shutil.copy(demo, d + "/demo.sh")
else:
    shutil.copy(demo, d + "/demo.gray")
    shutil.copy(sys.argv[6], d + "/expect.txt")
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# builds and runs demo.gray with the toolchain of the current directory
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
cp "$here/demo.gray" "$t/vdemo_$$.gray"
"$PWD/grayc/grayc" build "$t/vdemo_$$.gray" -o "$t/x" >"$t/log" 2>&1 || { cat "$t/log"; exit 1; }
( cd "$t"; timeout 60 ./x >out 2>err; echo "exit $?" >>out )
cmp "$t/out" "$here/expect.txt" || { diff "$t/out" "$here/expect.txt"; exit 1; }
''')
os.chmod(d + "/demo.sh", 0o755)
