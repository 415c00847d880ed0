"""Rebuild the typed program dump from the analysed repository's current working tree."""
import fcntl
import glob
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SETT_REPO", "/repo")
BUILD = os.environ.get("SETT_BUILD", os.path.join(ROOT, "build"))


CRATE_HASH = re.compile(r"(?<=[a-z0-9_])\[[0-9a-f]{4,16}\](?=::|\))")


class BuildError(Exception):
    pass


def run(cmd, cwd, env=None, timeout=850):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, text=True, errors="replace")
    return r.returncode, r.stdout


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


def driver_env():
    e = dict(os.environ)
    lib = os.path.join(sysroot(), "lib")
    e["LD_LIBRARY_PATH"] = lib + (":" + e["LD_LIBRARY_PATH"] if e.get("LD_LIBRARY_PATH") else "")
    for k in ("RUSTC", "RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS",
              "CARGO_BUILD_TARGET_DIR"):
        e.pop(k, None)
    e["CARGO_INCREMENTAL"] = "0"
    return e


def build_driver():
    src = os.path.join(ROOT, "driver")
    out = os.path.join(BUILD, "driver")
    exe = os.path.join(out, "debug", "thirdump")
    e = driver_env()
    rc, log = run(["cargo", "+nightly", "build", "--offline", "--target-dir", out], src, e, 1700)
    if rc or not os.path.exists(exe):
        raise BuildError("driver does not build:\n" + log[-3000:])
    return exe


def sources():
    out = {}
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if f.endswith(".rs"):
                p = os.path.join(d, f)
                out[os.path.relpath(p, REPO)] = open(p, errors="replace").read().count("\n") + 1
    return out


def dump(release=False):
    """type-check /repo's library with the dumping compiler; returns the path of a fresh dump. The release form is
    the same profile without debug assertions and overflow checks, which is what `cfg(debug_assertions)` tests"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = build_driver()
        tgt = os.path.join(BUILD, "target-release" if release else "target")
        out = os.path.join(BUILD, "dump-%d%s.json" % (os.getpid(), "r" if release else ""))
        e = driver_env()
        if release:
            e["CARGO_PROFILE_DEV_DEBUG_ASSERTIONS"] = "false"
            e["CARGO_PROFILE_DEV_OVERFLOW_CHECKS"] = "false"
        e["RUSTC_WORKSPACE_WRAPPER"] = exe
        e["SETT_DUMP_CRATE"] = "sett_rs"
        e["SETT_DUMP_OUT"] = out
        for attempt in range(2):
            for pat in ("debug/build/sett-rs*", "debug/.fingerprint/sett-rs*", "debug/incremental/sett_rs*",
                        "debug/deps/*sett_rs*"):
                for p in glob.glob(os.path.join(tgt, pat)):
                    if os.path.isdir(p):
                        shutil.rmtree(p, ignore_errors=True)
                    else:
                        os.unlink(p)
            if os.path.exists(out):
                os.unlink(out)
            if attempt == 0:
                cmd = ["cargo", "+nightly", "check", "--lib", "--offline", "--target-dir", tgt]
            else:
                cmd = ["cargo", "+nightly", "rustc", "--lib", "--profile", "check", "--offline",
                       "--target-dir", tgt, "--", "--cfg", 'sett_dump="%d"' % time.time_ns()]
            rc, log = run(cmd, REPO, e)
            if rc:
                raise BuildError("the library does not type-check:\n" + log[-3000:])
            if os.path.exists(out):
                return out
        raise BuildError("no dump was produced:\n" + log[-3000:])


def load(release=False):
    """the program; `release` compares the form compiled without debug assertions and returns it only if it differs"""
    from .prog import Prog
    p = dump()
    q = None
    try:
        if not release:
            return Prog(p)
        q = dump(True)
        with open(p) as f, open(q) as g:
            if CRATE_HASH.sub("", f.read()) == CRATE_HASH.sub("", g.read()):
                return None
        return Prog(q)
    finally:
        os.unlink(p)
        if q:
            os.unlink(q)


if __name__ == "__main__":
    try:
        load()
        load(True)
        print("driver, dependencies and program dump: ready")
    except BuildError as x:
        print(x)
        sys.exit(1)
