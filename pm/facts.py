"""Runs the rustc driver over /repo and loads the resulting facts."""
import json, os, subprocess, sys, time, fcntl, shutil, hashlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PM_REPO", "/repo")
WORK = os.path.join(HERE, ".work")
CRATE = "prosemirror"


class ToolError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e.pop("RUSTFLAGS", None)
    return e


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


def driver_bin():
    return os.path.join(WORK, "driver", "release", "pmfacts")


def build_driver():
    os.makedirs(WORK, exist_ok=True)
    e = _env()
    e["CARGO_TARGET_DIR"] = os.path.join(WORK, "driver")
    r = subprocess.run(
        ["cargo", "+nightly", "build", "--release", "--offline", "-q"],
        cwd=os.path.join(HERE, "driver"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("driver build failed:\n" + r.stdout)


def extract():
    """type-check /repo's current working tree (all features) with the driver and return the facts"""
    os.makedirs(WORK, exist_ok=True)
    lock = open(os.path.join(WORK, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        build_driver()
        tgt = os.path.join(WORK, "target")
        out = os.path.join(WORK, "facts.json")
        if os.path.exists(out):
            os.unlink(out)
        # force the crate itself to be re-analysed
        for pat in ("debug/build/" + CRATE,):
            p = os.path.join(tgt, pat)
            if os.path.isdir(p):
                shutil.rmtree(p)
        fp = os.path.join(tgt, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n.startswith(CRATE + "-"):
                    shutil.rmtree(os.path.join(fp, n))
        e = _env()
        e["CARGO_TARGET_DIR"] = tgt
        e["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
        e["PMFACTS_CRATE"] = CRATE
        e["PMFACTS_OUT"] = out
        e["RUSTC_WORKSPACE_WRAPPER"] = driver_bin()
        lockfile = os.path.join(REPO, "Cargo.lock")
        had = os.path.exists(lockfile)
        r = subprocess.run(
            ["cargo", "+nightly", "check", "--lib", "--all-features", "--offline"],
            cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not os.path.exists(out):
            raise ToolError("fact extraction failed:\n" + r.stdout[-4000:])
        return json.load(open(out))
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()
