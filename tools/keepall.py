#!/usr/bin/env python3
"""keepall.py [NAME...]: development aid. Piles as many of the behaviour-preserving changes ('keep...') of tools/mutants.py as fit
together onto scratch copies of /repo, and runs every check on each copy: all of them must stay quiet."""
import os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(os.path.dirname(HERE), "sa"))
W = "/tmp/keeprepo"
os.environ["OVERTHERE_REPO"] = W
os.environ["PYTHONHASHSEED"] = "0"
import build
from mutants import MUTANTS


def read(f): return open(os.path.join(W, "src", f)).read()


def apply(m):
    """applies a change, or leaves the tree as it was"""
    old = {}
    for f, a, b in m["edits"]:
        s = read(f)
        old.setdefault(f, s)
        if a not in s:
            undo(old)
            return None
        open(os.path.join(W, "src", f), "w").write(s.replace(a, b, 1))
    return old


def undo(old):
    for f, s in old.items():
        open(os.path.join(W, "src", f), "w").write(s)


def facts():
    try:
        return build.extract("all")
    except build.BuildError:
        return None


def pile(ms):
    """applies what fits and builds; gives what was applied, what was left, and the facts"""
    done, left, i = [], [], 0
    def go(group):
        olds = []
        for m in group:
            o = apply(m)
            (olds.append((m, o)) if o is not None else left.append(m))
        if not olds:
            return
        fp = facts()
        if fp:
            os.remove(fp); done.extend(m for m, _ in olds); return
        for m, o in reversed(olds):
            undo(o)
        if len(olds) == 1:
            left.append(olds[0][0]); return
        ms = [m for m, _ in olds]
        go(ms[:len(ms) // 2]); go(ms[len(ms) // 2:])
    while i < len(ms):
        go(ms[i:i + 16]); i += 16
    return done, left, facts()


def run(pid, fp):
    r = subprocess.run(["python3", "sa/run.py", pid, "quick", fp], cwd=os.path.dirname(HERE), capture_output=True, text=True)
    out = r.stdout + r.stderr
    v = [l.strip()[:200] for l in out.splitlines() if l.startswith("  [")]
    notes = [l[:160] for l in out.splitlines() if l.startswith("NOTE")]
    print(pid, "rc=%d" % r.returncode, v[:4], notes[:2], flush=True)


def main():
    names = sys.argv[1:]
    ms = [m for m in MUTANTS if m["name"].startswith("keep") and (not names or any(m["name"].startswith(n) for n in names))]
    n = 0
    while ms:
        shutil.rmtree(os.path.join(W, "src"), ignore_errors=True)
        shutil.copytree("/repo", W, ignore=shutil.ignore_patterns("target", ".git"), dirs_exist_ok=True)
        done, ms, fp = pile(ms)
        if not done:
            print("never applied:", [m["name"] for m in ms])
            break
        n += 1
        shutil.move(fp, "/tmp/keep-%d.jsonl" % n)
        shutil.rmtree("/tmp/keep-%d.src" % n, ignore_errors=True)
        shutil.copytree(os.path.join(W, "src"), "/tmp/keep-%d.src" % n)
        print("PILE %d: %d changes: %s" % (n, len(done), " ".join(m["name"] for m in done)), flush=True)
        with ThreadPoolExecutor(4) as p:
            list(p.map(lambda i: run("C%02d" % i, "/tmp/keep-%d.jsonl" % n), range(1, 31)))


main()
