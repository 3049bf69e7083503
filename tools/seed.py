#!/usr/bin/env python3
"""seed.py [NAME...]: writes /verif/seeded/<id>/ from tools/seeds.py and validates it in a scratch copy: the change applies to
/repo's HEAD, builds, passes the stable tests, and the demonstration fails with it and passes without. Then runs the check."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(V, "sa"))
W = "/tmp/seedrepo"
os.environ["OVERTHERE_REPO"] = W
os.environ["PYTHONHASHSEED"] = "0"
import build
from seeds import SEEDS
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUST_BACKTRACE="0")
DEMO = '''#!/bin/bash
# run with cwd = the repository, after its build: 0 if the property holds for the scenario in demo.rs
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
export CARGO_TARGET_DIR="$repo/target"
mkdir -p /tmp/over-there-demo && cd /tmp/over-there-demo || exit 3
trap 'cd /; rm -rf /tmp/over-there-demo' EXIT
cp -a "$repo/Cargo.toml" "$repo/Cargo.lock" "$repo/src" . || exit 3
cat "$here/demo.rs" >> %(file)s
timeout 280 cargo test %(target)s --all-features --locked --offline seeded_demo -- --test-threads 1 > out.txt 2>&1
code=$?
cat out.txt | tail -30
[ $code -eq 0 ] && grep -q "test result: ok. [1-9][0-9]* passed" out.txt
'''
def sh(cmd, cwd, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout, shell=isinstance(cmd, str))
def tests():
    r = sh("timeout 840 cargo test --workspace --all-features --no-fail-fast --locked --offline -- --test-threads 2 --skip core::server::proc::tests:: 2>&1", W)
    out = r.stdout
    if "could not compile" in out: return out[out.find("error"):][:1500]
    open("/tmp/seed-test.log", "w").write(out)
    subprocess.run(["python3", "/opt/vp/results.py", "/tmp/seed-out.json", "cargo:/tmp/seed-test.log"])
    o = json.load(open("/tmp/seed-out.json"))
    def ok(d):
        for k in ("passed", "stable", "pass", "tests"):
            if k in d:
                v = d[k]; return set(v) if isinstance(v, list) else {a for a, x in v.items() if x in ("passed", "pass", True, "ok")}
    return sorted(ok(json.load(open("/opt/vp/BASELINE.json"))) - ok(o))[:5]
def main():
    names = sys.argv[1:]
    if not os.path.isdir(W):
        shutil.copytree("/repo", W, ignore=shutil.ignore_patterns("target"))
    subprocess.run("git -C /repo diff --quiet && git -C %s fetch -q /repo HEAD && git -C %s checkout -qf FETCH_HEAD" % (W, W), shell=True, check=True)
    bad = []
    for s in SEEDS:
        if names and not any(s["id"].startswith(n) for n in names): continue
        d = os.path.join(V, "seeded", s["id"])
        sh("git checkout -qf . && git clean -fdq -e target src", W)
        ok = True
        for f, a, b in s["edits"]:
            p = os.path.join(W, "src", f); t = open(p).read()
            if t.count(a) < 1: print(s["id"], "EDIT DOES NOT APPLY", f, a[:80]); ok = False; break
            open(p, "w").write(t.replace(a, b, 1))
        if not ok: bad.append(s["id"]); continue
        diff = sh("git diff", W).stdout
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.rs", "w").write(s["demo"])
        open(d + "/demo.sh", "w").write(DEMO % {"file": s["demo_file"], "target": "--lib" if not s["demo_file"].startswith("src/main") else "--bin over-there"})
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        miss = tests()
        dm = sh(["bash", d + "/demo.sh"], W)
        try:
            fp = build.extract("all"); shutil.move(fp, "/tmp/seed.jsonl")
        except build.BuildError as e:
            print(s["id"], "DOES NOT BUILD", open(os.path.join(build.BUILD, "extract-all.log")).read().split("error", 1)[-1][:800]); bad.append(s["id"]); continue
        r = subprocess.run(["python3", "sa/run.py", s["prop"], "quick", "/tmp/seed.jsonl"], cwd=V, capture_output=True, text=True)
        v = [l.strip()[:150] for l in (r.stdout + r.stderr).splitlines() if l.startswith("  [")]
        sh("git checkout -qf .", W)
        dm0 = sh(["bash", d + "/demo.sh"], W)
        good = not miss and dm.returncode != 0 and dm0.returncode == 0
        print("%s %s tests-missing=%s demo(patched)=%d demo(clean)=%d CHECK %s rc=%d %s" % ("ok " if good else "BAD", s["id"], miss, dm.returncode, dm0.returncode, s["prop"], r.returncode, v[:2]), flush=True)
        cf = os.path.join(V, "tools", "caught.json")
        c = json.load(open(cf)) if os.path.exists(cf) else {}
        c[s["id"]] = s["prop"] if r.returncode == 1 else "not caught"
        json.dump(c, open(cf, "w"), indent=1, sort_keys=True)
        if not good:
            bad.append(s["id"])
            print(dm.stdout[-1500:] if dm.returncode == 0 else "", dm0.stdout[-2500:] if dm0.returncode else "")
        elif "error" in dm.stdout and "could not compile" in dm.stdout: print("  DEMO DOES NOT COMPILE WITH PATCH", dm.stdout[-800:])
    print("bad:", bad)
main()
