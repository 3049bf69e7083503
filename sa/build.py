"""Builds the driver and runs it over /repo's current source."""
import fcntl
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OVERTHERE_REPO", "/repo")  # another tree only for development
BUILD = os.path.join(VERIF, ".build")
CONFIGS = {
    "all": ["--all-features"],
    "default": [],
    "multi": ["--no-default-features", "--features", "multi-threaded"],
}


class BuildError(Exception):
    pass


def sh(cmd, cwd, env, log):
    with open(log, "w") as f:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT)
    return p.returncode


def base_env():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    return env


def driver():
    """path of the driver binary, built if it is missing or out of date"""
    os.makedirs(BUILD, exist_ok=True)
    td = os.path.join(BUILD, "driver")
    exe = os.path.join(td, "debug", "mirfacts")
    src = os.path.join(VERIF, "driver", "src", "main.rs")
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    env = base_env()
    env["CARGO_TARGET_DIR"] = td
    log = os.path.join(BUILD, "driver.log")
    rc = sh(["cargo", "+nightly", "build", "--offline", "--locked"], os.path.join(VERIF, "driver"), env, log)
    if rc != 0 or not os.path.exists(exe):
        raise BuildError("the driver does not build:\n" + open(log).read()[-3000:])
    os.utime(exe)
    return exe


def extract(config):
    """facts of the library as it is in /repo now, for one feature configuration"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = driver()
        td = os.path.join(BUILD, "target")
        out = os.path.join(BUILD, "facts-%s-%d.jsonl" % (config, os.getpid()))
        if os.path.exists(out):
            os.remove(out)
        env = base_env()
        env["CARGO_TARGET_DIR"] = td
        env["RUSTC_WORKSPACE_WRAPPER"] = exe
        env["MIRFACTS_CRATE"] = "over_there"
        env["MIRFACTS_OUT"] = out
        sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True,
                                 env=base_env(), cwd=VERIF).stdout.strip()
        env["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
        # the crate itself is always compiled anew (both target directory layouts of cargo)
        for d0 in (".fingerprint", "build", "incremental"):
            fp = os.path.join(td, "debug", d0)
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.replace("_", "-").startswith("over-there"):
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        log = os.path.join(BUILD, "extract-%s.log" % config)
        cmd = ["cargo", "+nightly", "check", "--lib", "--locked", "--offline"] + CONFIGS[config]
        rc = sh(cmd, REPO, env, log)
        if rc != 0 or not os.path.exists(out):
            raise BuildError("/repo does not build for analysis (%s):\n%s" % (" ".join(cmd), open(log).read()[-3000:]))
        return out
