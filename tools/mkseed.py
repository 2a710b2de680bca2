#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID...]: makes /verif/seeded/<id> from a specification of
edits and a demonstration, after confirming in a scratch worktree that the
change compiles, passes the stable tests, and that the demonstration passes
without it and fails with it. A development aid."""
import json, os, subprocess, sys, tempfile, shutil, re
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
ENV = ". /opt/vp/env.sh; "
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
BASE = "526295c"
specs = []

UTIL = open(os.path.join(HERE, "demo_util.go")).read()
PEER = open(os.path.join(HERE, "demo_peer.go")).read()
RUN = '''#!/bin/bash
# Run in the repository: 0 if the demonstration finds the property kept.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
dir=$(mktemp -d) || exit 2
trap 'rm -rf "$dir"' EXIT
cp "$here"/*.go "$dir"/ || exit 2
cat >"$dir/go.mod" <<EOF
module demo

go 1.18

require github.com/dufourgilles/emberlib v0.0.0

replace github.com/dufourgilles/emberlib => $repo
EOF
cd "$dir" || exit 2
CGO_ENABLED=1 go build %s-o demo . || exit 2
timeout 120 ./demo
'''

def sh(cmd, cwd, timeout=600):
    return subprocess.run(["bash", "-c", ENV + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)

def S(id, prop, edits, demo, needs, breaks, race=False, peer=False):
    specs.append((id, prop, edits, demo, needs, breaks, race, peer))

def suite(tree):
    r = sh("go test -json -vet=off -count=1 ./...", tree)
    ok = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get("Action") == "pass" and e.get("Test"):
            ok.add(e["Test"]); ok.add(e["Package"] + "/" + e["Test"]); ok.add(e["Package"] + "." + e["Test"]); ok.add(e["Package"] + "::" + e["Test"])
    return [s for s in STABLE if s not in ok]

def make(spec):
    id, prop, edits, demo, needs, breaks, race, peer = spec
    tree = tempfile.mkdtemp(prefix="seed.", dir="/tmp"); os.rmdir(tree)
    subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", tree], check=True)
    d = tempfile.mkdtemp(prefix="seedd.", dir="/tmp")
    try:
        open(d + "/main.go", "w").write(demo)
        open(d + "/util.go", "w").write(UTIL)
        if peer: open(d + "/peer.go", "w").write(PEER)
        open(d + "/demo.sh", "w").write(RUN % ("-race " if race else ""))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        for n in range(3):
            r = sh(d + "/demo.sh", tree)
            if r.returncode != 0:
                return "demo fails without the change (rc %d): %s" % (r.returncode, r.stdout[-1500:])
        blame = {}
        for f, old, new in edits:
            p = os.path.join(tree, f)
            t = open(p).read()
            if t.count(old) != 1: return "%s: %d matches of %r" % (f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=tree, stdout=subprocess.PIPE, text=True, check=True).stdout
        # the removed lines must be of the original repository
        bad = []
        removed = 0
        f = None
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                f = l[6:]
                if f not in blame:
                    o = subprocess.run(["git", "blame", "-s", "-l", "HEAD", "--", f], cwd=tree, stdout=subprocess.PIPE, text=True).stdout
                    blame[f] = [x.split()[0].lstrip("^") for x in o.splitlines()]
            elif l.startswith("@@"):
                n = int(re.match(r"@@ -(\d+)", l).group(1))
            elif l.startswith("-") and not l.startswith("---"):
                removed += 1
                if not blame[f][n-1].startswith(BASE) and l[1:].strip(): bad.append((f, n, l))
                n += 1
            elif l.startswith(" "): n += 1
        note = "" if not bad else "  (lines not original: %s)" % bad
        if removed == 0: note += "  (nothing removed)"
        r = sh("go build ./... && go vet ./asn1 >/dev/null 2>&1; go build ./...", tree)
        if r.returncode: return "does not compile: " + r.stdout[-1500:]
        miss = suite(tree)
        if miss: return "stable tests fail: %s" % miss
        for n in range(3):
            r = sh(d + "/demo.sh", tree)
            if r.returncode == 0: return "demo passes with the change"
            if r.returncode == 2 and "panic" not in r.stdout and "goroutine" not in r.stdout: return "demo does not run: " + r.stdout[-1500:]
        msg = r.stdout.strip().splitlines()[-1:] if r.stdout.strip() else ""
        dst = os.path.join(OUT, id)
        if os.path.isdir(dst): shutil.rmtree(dst)
        os.makedirs(dst)
        for x in os.listdir(d): shutil.copy(os.path.join(d, x), dst)
        open(dst + "/patch.diff", "w").write(diff)
        return "ok %s%s" % (r.stdout.strip().splitlines()[0][:150] if r.stdout.strip() else "", note)
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", tree])
        shutil.rmtree(d, ignore_errors=True)

exec(open(sys.argv[1]).read())
from concurrent.futures import ThreadPoolExecutor
sel = [s for s in specs if not sys.argv[2:] or s[0] in sys.argv[2:]]
with ThreadPoolExecutor(4) as ex:
    for s, r in zip(sel, ex.map(make, sel)):
        print(s[0], "->", r, flush=True)
