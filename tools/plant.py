#!/usr/bin/env python3
"""Planted bugs: writes seeded/<id>/ from tools/plants/*.py and tries them in a scratch copy.

  plant.py write [ID...]        (re)write patch.diff, demo.sh and meta.json
  plant.py try [--all] ID...    in /tmp/pl: apply, build, test, demo before and after, run the checks
No registered check uses this file or seeded/.
"""
import difflib, glob, json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
BUGS = {}
PRE = '''#!/bin/bash
# exit 0: the property holds here; 1: it is broken
set -u
here=$(cd "$(dirname "$0")" && pwd)
bin="$PWD/target/debug/afmt"
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
fail() { echo "broken: $*"; exit 1; }
'''
def bug(id, prop, edits, needs, breaks, demo):
    assert id not in BUGS, id
    BUGS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)
for f in sorted(glob.glob(os.path.join(HERE, "plants", "*.py"))):
    exec(open(f).read())

def edited(b, repo="/repo"):
    out = {}
    for (f, old, new) in b["edits"]:
        p = "src/" + f
        t = out.get(p) or open(os.path.join(repo, p)).read()
        if t.count(old) != 1: raise SystemExit(f"{f}: {t.count(old)} matches of {old!r}")
        out[p] = t.replace(old, new)
    return out
def write(id):
    b = BUGS[id]; d = os.path.join(ROOT, "seeded", id); os.makedirs(d, exist_ok=True)
    patch = ""
    for p, t in edited(b).items():
        o = open("/repo/" + p).read()
        patch += "".join(difflib.unified_diff(o.splitlines(True), t.splitlines(True), "a/" + p, "b/" + p))
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.sh", "w").write(PRE + b["demo"].lstrip("\n")); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
def sh(cmd, cwd, timeout=1500, env=None):
    e = dict(os.environ); e.update(env or {})
    try: r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, capture_output=True, text=True, timeout=timeout, env=e, errors="replace")
    except subprocess.TimeoutExpired: return 124, "timeout"
    return r.returncode, r.stdout + r.stderr
PL = os.environ.get("PL", "/tmp/pl")
def prepare():
    os.makedirs(PL, exist_ok=True)
    sh(f"mkdir -p {PL}/repo {PL}/verif; rsync -a --delete --exclude target /repo/ {PL}/repo/ 2>/dev/null || (rm -rf {PL}/repo/src; cp -a /repo/src /repo/tests /repo/Cargo.* {PL}/repo/)", "/")
    for x in ["harness", "corpus", "regress", "findings", "known_findings.txt", "check.sh"]:
        sh(f"rm -rf {PL}/verif/{x}; cp -a {ROOT}/{x} {PL}/verif/{x}", "/")
    sh(f"mkdir -p {PL}/verif/evidence; sed -i 's#\"/repo#\"{PL}/repo#' {PL}/verif/harness/Cargo.toml; grep -rl '\"/repo' {PL}/verif/harness/src | xargs -r sed -i 's#\"/repo#\"{PL}/repo#'", "/")
def reset():
    sh(f"cp -a /repo/src/. {PL}/repo/src/; touch {PL}/repo/src/*.rs", "/")
def tests():
    rc, o = sh("cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8", PL + "/repo")
    ok = len(re.findall(r"^test .* \.\.\. ok$", o, re.M)); bad = re.findall(r"^test (.*) \.\.\. FAILED$", o, re.M)
    return rc, ok, bad, o
def demo(id):
    t = os.path.join(PL, "demo"); shutil.rmtree(t, ignore_errors=True); shutil.copytree(os.path.join(ROOT, "seeded", id), t)
    return sh(t + "/demo.sh", PL + "/repo", 300)
def attempt(id, all_checks):
    b = BUGS[id]; write(id); reset()
    rc, o = sh("cargo test --workspace --no-run --offline --locked", PL + "/repo")
    rc0, o0 = demo(id)
    for p, t in edited(b).items(): open(PL + "/repo/" + p, "w").write(t)
    rc, o = sh("cargo test --workspace --no-run --offline --locked", PL + "/repo")
    if rc: print(id, "DOES NOT BUILD", o[-1500:]); return
    rc, ok, bad, o = tests()
    rc1, o1 = demo(id)
    status = "ok" if rc0 == 0 and rc1 not in (0, 124) and not bad else "INVALID"
    print(f"{id} {b['prop']} {status}: tests failed {len(bad)} {bad[:3]}, demo {rc0}->{rc1}", (o0.strip()[-200:] if rc0 else ""), o1.strip()[-200:])
    if status != "ok": return
    ids = [b["prop"]] + ([f"C{i:02}" for i in range(1, 40) if f"C{i:02}" != b["prop"] and f'"{f"C{i:02}"}"' in open(ROOT + "/MANIFEST.json").read()] if all_checks else [])
    res = []
    for c in ids:
        rc, o = sh(f"./check.sh {c} quick", PL + "/verif", 900, {"VERIF_SEED": "1", "VERIF_TIER": "quick"})
        v = re.findall(r"^VIOLATION.*$", o, re.M)
        if rc: res.append(c if v else f"{c}!{rc}")
        if c == b["prop"]: print("   ", "CAUGHT" if rc == 1 and v else f"MISSED rc={rc}", (v or [""])[0], "\n".join(l for l in o.splitlines() if "VIOLATION" not in l)[-400:] if rc else "")
    if all_checks: print("    reported by:", " ".join(res) or "none")
    sys.stdout.flush()
if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "write":
        for id in a[1:] or BUGS: write(id)
    else:
        al = "--all" in a; prepare()
        for id in [x for x in a[1:] if x != "--all"] or BUGS: attempt(id, al)
        reset()
