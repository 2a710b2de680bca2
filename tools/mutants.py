#!/usr/bin/env python3
"""mutants.py OUT.jsonl JOBS [--sample N] [--files RE] [--list LIST]: tries mutants of the library
against the stable tests and then the checks, at a fraction of their cases, and
records which check notices each. A development aid."""
import json, os, re, subprocess, sys, random, shutil, threading, queue, argparse
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
ap = argparse.ArgumentParser(); ap.add_argument("out"); ap.add_argument("jobs", type=int)
ap.add_argument("--sample", type=int, default=0); ap.add_argument("--files", default="."); ap.add_argument("--percent", default="6")
ap.add_argument("--list", default=""); ap.add_argument("--all", action="store_true"); ap.add_argument("--seed", type=int, default=1)
A = ap.parse_args()
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ENV = ". /opt/vp/env.sh; "
def sh(cmd, cwd, timeout=900, env=None):
    e = dict(os.environ); e.update(env or {})
    try:
        return subprocess.run(["bash", "-c", ENV + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, env=e, errors="replace")
    except subprocess.TimeoutExpired:
        class R: returncode = 124; stdout = "timeout"
        return R
CHECKS = {
 "asn1": "C01 C02 C03 C04 C05 C28 C31 C08 C09 C10 C06 C14 C27".split(),
 "embertree": "C07 C08 C10 C09 C14 C15 C12 C13 C16 C11 C26 C30 C05 C06 C27 C24 C23".split(),
 "errors": "C31 C29 C27".split(), "logger": "C29 C27".split(),
 "socket/frame": "C17 C18 C19 C31 C06 C27 C20".split(),
 "socket": "C20 C21 C25 C24 C22 C23".split(),
}
def checks(f):
    for k in ("socket/frame", "socket", "asn1", "embertree", "errors", "logger"):
        if f.startswith(k): return CHECKS[k]
lines = subprocess.run(["/tmp/mutate", "list", "/repo"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
todo = []
for l in lines:
    i, at, what = l.split(" ", 2)
    if not re.search(A.files, at): continue
    if not A.all:
        if what.startswith("never") and re.search(r"never: \(?(err|e) != nil ->", what): continue
        if what.startswith("no error") and "errors.New(" not in what: continue
        if what.startswith("op") and False: continue
        if "err != nil" in what: continue
    todo.append((int(i), at, what))
if A.list:
    want = set(int(x) for x in open(A.list).read().split()); todo = [t for t in todo if t[0] in want]
random.seed(A.seed); random.shuffle(todo)
if A.sample: todo = todo[:A.sample]
done = set()
if os.path.exists(A.out):
    for l in open(A.out): done.add(json.loads(l)["i"])
todo = [t for t in todo if t[0] not in done]
print(len(todo), "mutants", flush=True)
q = queue.Queue(); [q.put(t) for t in todo]
lock = threading.Lock(); outf = open(A.out, "a")
def stable(tree):
    r = sh("timeout 120 go test -json -vet=off -count=1 ./...", tree, 200)
    ok = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get("Action") == "pass" and e.get("Test"):
            for s in ("/", ".", "::"): ok.add(e["Package"] + s + e["Test"])
            ok.add(e["Test"])
    return all(s in ok for s in STABLE)
def work(n):
    base = f"/tmp/mut{os.getpid()}.{n}"; tree = base + "/repo"; har = base + "/v"
    os.makedirs(base)
    subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", tree], check=True)
    os.makedirs(har); shutil.copytree(ROOT + "/harness", har + "/harness"); shutil.copy(ROOT + "/known-findings.txt", har)
    gm = har + "/harness/go.mod"; s = open(gm).read().replace("=> /repo", "=> " + tree); open(gm, "w").write(s)
    while True:
        try: i, at, what = q.get_nowait()
        except queue.Empty: break
        subprocess.run(["git", "-C", tree, "checkout", "-q", "--", "."])
        subprocess.run(["/tmp/mutate", "apply", tree, str(i)], stdout=subprocess.DEVNULL)
        res = "survived"; by = ""; msg = ""
        if sh("go build ./... ", tree).returncode != 0: res = "nobuild"
        elif not stable(tree): res = "tests"
        else:
            if sh("CGO_ENABLED=1 go build -o ../h .", har + "/harness").returncode != 0: res = "harness"
            else:
                race = False
                for c in checks(at):
                    b = "h"
                    if c in ("C23", "C27"):
                        if not race:
                            sh("CGO_ENABLED=1 go build -race -o ../hr .", har + "/harness"); race = True
                        b = "hr"
                    r = sh(f"timeout 600 ./{b} -root {har} {c}", har, 700, {"HARNESS_PERCENT": A.percent})
                    if r.returncode != 0:
                        res = "caught"; by = c; msg = f"rc={r.returncode} " + " | ".join(re.findall(r"^case.*", r.stdout, re.M)[:2])[:200]
                        if r.returncode not in (1,): res = "caught-rc%d" % r.returncode
                        break
        with lock:
            outf.write(json.dumps(dict(i=i, at=at, what=what, res=res, by=by, msg=msg)) + "\n"); outf.flush()
    subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", tree]); shutil.rmtree(base, ignore_errors=True)
ts = [threading.Thread(target=work, args=(n,)) for n in range(A.jobs)]
[t.start() for t in ts]; [t.join() for t in ts]
