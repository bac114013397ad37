#!/bin/bash
# lists planted bugs whose removed lines are not lines of the original repository (b5bc4c4)
cd /repo
for i in "$@"; do
  git diff --no-index /dev/null /dev/null
  python3 - "$i" <<'P'
import subprocess, sys, re
i = sys.argv[1]
blame = {}
base = set(subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "b5bc4c4"], capture_output=True, text=True).stdout.split())
cur = None; n = 0; bad = []; tot = 0
for l in open(f"/verif/seeded/{i}/patch.diff"):
    if l.startswith("--- a/"): cur = l[6:].strip()
    elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l)[1]) - 1
    elif l.startswith("+"): pass
    else:
        n += 1
        if l.startswith("-"):
            tot += 1
            o = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-L", f"{n},{n}", cur], capture_output=True, text=True).stdout
            if not o.startswith("^"):
                h = o.split()[0]
                if subprocess.run(["git", "-C", "/repo", "merge-base", "--is-ancestor", h, "b5bc4c4"]).returncode: bad.append((n, o.strip()))
print(i, "removed", tot, "not original", len(bad), *[b[1] for b in bad[:2]])
P
done
