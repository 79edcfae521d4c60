"""Builds the facts driver and re-analyses /repo's current working tree."""
import os, subprocess, glob, shutil, fcntl, json, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, "build")
DRIVER = os.path.join(HERE, "driver")
HARNESS = os.path.join(HERE, "harness")


class BuildError(Exception):
    pass


def run(cmd, cwd, env=None, timeout=800):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise BuildError("%s failed:\n%s" % (" ".join(cmd), p.stdout.decode("utf8", "replace")[-4000:]))
    return p.stdout.decode("utf8", "replace")


def sysroot():
    return run(["rustc", "+nightly", "--print", "sysroot"], HERE).strip()


def driver():
    out = os.path.join(DRIVER, "target", "debug", "figfacts")
    run(["cargo", "+nightly", "build", "--offline"], DRIVER)
    if not os.path.exists(out):
        raise BuildError("facts driver missing after build")
    return out


def facts(features=None):
    """-> path of a fresh facts file for /repo's current tree"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver()
        tgt = os.path.join(BUILD, "target")
        tag = "all" if features is None else "-".join(features) or "none"
        out = os.path.join(BUILD, f"facts-{tag}.json")
        if os.path.exists(out):
            os.remove(out)
        # force the analysis of figment itself; dependencies may stay cached
        for pat in (".fingerprint/figment-*", "build/figment", "build/figment-*", "incremental/figment*"):
            for p in glob.glob(os.path.join(tgt, "debug", pat)):
                shutil.rmtree(p, ignore_errors=True)
        env = {"LD_LIBRARY_PATH": sysroot() + "/lib", "FIGFACTS_OUT": out, "RUSTC_WRAPPER": drv, "CARGO_INCREMENTAL": "0"}
        cmd = ["cargo", "+nightly", "check", "--offline", "--target-dir", tgt]
        if features is not None:
            cmd += ["--no-default-features"] + (["--features", ",".join(features)] if features else [])
        run(cmd, HARNESS, env)
        if not os.path.exists(out):
            raise BuildError("the driver produced no facts for figment")
        return out
