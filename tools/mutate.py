#!/usr/bin/env python3
"""mutate.py [NAME...]: development aid. Applies each change of tools/mutants.py to a scratch copy of /repo and runs the
checks of its property on it; a change named 'keep...' must leave the checks quiet, any other must be reported."""
import os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "sa"))
W = "/tmp/mutrepo"
os.environ["OVERTHERE_REPO"] = W
os.environ["PYTHONHASHSEED"] = "0"
import build
from mutants import MUTANTS


def run(m, pid, fp):
    r = subprocess.run(["python3", "sa/run.py", pid, "quick", fp], cwd=os.path.dirname(HERE), capture_output=True, text=True)
    out = r.stdout + r.stderr
    v = [l.strip()[:170] for l in out.splitlines() if l.startswith("  [")]
    notes = [l[:200] for l in out.splitlines() if l.startswith("NOTE")]
    want = 0 if m["name"].startswith("keep") else 1
    good = r.returncode == want and "internal error" not in out
    print("%-4s %s %s rc=%d %s %s" % ("ok" if good else "BAD", m["name"], pid, r.returncode, v[:2], notes[:2]), flush=True)
    if not good and r.returncode > 1:
        print(out[-1500:])
    return good


def checks(m, fp):
    bad = False
    for pid in m["props"]:
        if not os.path.exists(os.path.join(os.path.dirname(HERE), "sa", "rules", pid.lower() + ".py")):
            continue
        bad |= not run(m, pid, fp)
    os.remove(fp) if not KEEP else shutil.move(fp, "/tmp/mut.jsonl")
    return m["name"] if bad else None


KEEP = False


def main():
    global KEEP
    names = sys.argv[1:]
    if not os.path.isdir(W):
        shutil.copytree("/repo", W, ignore=shutil.ignore_patterns("target", ".git"))
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", W + "/"]) if shutil.which("rsync") else None
    bad = []
    pool = ThreadPoolExecutor(6)
    futs = []
    todo = [m for m in MUTANTS if not names or any(m["name"].startswith(n) for n in names)]
    KEEP = len(todo) == 1
    for i, m in enumerate(todo):
        saved = {}
        try:
            ok = True
            for f, a, b in m["edits"]:
                p = os.path.join(W, "src", f)
                s = open("/repo/src/" + f).read() if p not in saved else open(p).read()
                saved[p] = "/repo/src/" + f
                if a not in s:
                    print(m["name"], "EDIT DOES NOT APPLY:", f, a[:60]); ok = False; break
                s = s.replace(a, b, 1)
                open(p, "w").write(s)
            if not ok:
                bad.append(m["name"]); continue
            try:
                fp = build.extract("all")
            except build.BuildError as e:
                log = open(os.path.join(build.BUILD, "extract-all.log")).read()
                i2 = log.find("\nerror")
                print(m["name"], "DOES NOT BUILD", log[i2:i2 + 700]); bad.append(m["name"]); continue
            dst = "/tmp/mut-%d.jsonl" % i
            shutil.move(fp, dst)
            futs.append(pool.submit(checks, m, dst))
        finally:
            for p, q in saved.items():
                shutil.copy(q, p)
    bad += [x for x in (f.result() for f in futs) if x]
    print("bad:", bad)
main()
