#!/usr/bin/env python3
"""Sensitivity measurement: applies each mutant below to a scratch copy of /repo,
requires that it builds and passes the stable tests, and runs the check of the
property it breaks on that copy. usage: mutants.py [ID-or-PROPERTY...]
No registered check reads this file."""
import json, os, re, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = []
def mut(id, prop, *edits):
    M.append((id, prop, edits))
exec(open(os.path.join(VERIF, "tools", "mutants.list.py")).read())

def tests(repo, env):
    o = subprocess.run("go test ./... 2>&1 | grep -E '^ *--- FAIL|build failed|^panic'", shell=True, cwd=repo, env=env, capture_output=True, text=True).stdout
    return set(re.sub(r" \(.*", "", l) for l in o.splitlines())

def main():
    want = sys.argv[1:]
    base = tempfile.mkdtemp(prefix="mutants.")
    repo = os.path.join(base, "repo")
    env = dict(os.environ, SIM_REPO=repo, SIM_GOCACHE=os.path.join(base, "gocache"), VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
    genv = dict(env, GOCACHE=os.path.join(base, "gc2"))
    shutil.copytree("/repo", repo, symlinks=True)
    basefail = tests(repo, genv)
    total = caught = 0
    try:
        for id, prop, edits in M:
            if want and id not in want and prop not in want and not any(w.endswith("-") and id.startswith(w) for w in want): continue
            shutil.rmtree(repo, ignore_errors=True)
            shutil.copytree("/repo", repo, symlinks=True)
            bad = None
            for f, a, b in edits:
                p = os.path.join(repo, f); s = open(p).read()
                if s.count(a) != 1: bad = "anchor %d times in %s: %r" % (s.count(a), f, a[:50]); break
                open(p, "w").write(s.replace(a, b))
            if bad: print(id, prop, "BAD", bad, flush=True); continue
            o = subprocess.run("for f in $(git diff --name-only); do goimports -w $f; done; go build ./...", shell=True, cwd=repo, env=genv, capture_output=True, text=True)
            if o.returncode: print(id, prop, "BAD build", o.stderr[-400:], flush=True); continue
            new = tests(repo, genv) - basefail
            if new: print(id, prop, "BAD tests", sorted(new), flush=True); continue
            t = time.time()
            o = subprocess.run(["bash", os.path.join(VERIF, "check.sh"), prop, "quick"], env=env, capture_output=True, text=True)
            v = re.search(r"^violation: .*$", o.stdout, re.M)
            after = re.search(r"after (\d+) runs", o.stdout)
            total += 1; caught += o.returncode == 1
            print("%-22s %s %s %4.0fs %s %s" % (id, prop, {0: "MISSED", 1: "caught"}.get(o.returncode, "exit %d" % o.returncode), time.time() - t, after.group(1) if after else "", (v.group(0)[11:150] if v else (o.stdout + o.stderr)[-200:].strip() if o.returncode not in (0,1) else "")), flush=True)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    print("%d of %d caught" % (caught, total))
main()
