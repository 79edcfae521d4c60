#!/usr/bin/env python3
"""catch.py [-p C01,C02] PATCH|ID…: which checks report a change (facts from a scratch copy of /repo)."""
import sys, os, subprocess, shutil, json, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sa"))
sys.dont_write_bytecode = True
S = os.environ.get("PLANT_SCRATCH", "/tmp/plant-repo")
H = os.environ.get("PLANT_HARNESS", "/tmp/plant-harness")


def sh(c, cwd=S):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode("utf8", "replace")


def facts(out):
    import build
    drv = os.path.join(build.DRIVER, "target", "debug", "figfacts")
    if not os.path.exists(H):
        shutil.copytree(build.HARNESS, H, ignore=shutil.ignore_patterns("target"))
        c = os.path.join(H, "Cargo.toml")
        t = open(c).read().replace('"/repo"', f'"{S}"')
        open(c, "w").write(t)
    for pat in (".fingerprint/figment-*", "build/figment", "build/figment-*"):
        for p in glob.glob(os.path.join(H, "target/debug", pat)):
            shutil.rmtree(p, ignore_errors=True)
    if os.path.exists(out):
        os.remove(out)
    build.run(["cargo", "+nightly", "check", "--offline", "--target-dir", H + "/target"], H,
              {"LD_LIBRARY_PATH": build.sysroot() + "/lib", "FIGFACTS_OUT": out, "RUSTC_WRAPPER": drv, "CARGO_INCREMENTAL": "0"})


def main():
    a = sys.argv[1:]
    props = None
    if a and a[0] == "-p":
        props = a[1].split(","); a = a[2:]
    man = json.load(open(os.path.join(V, "MANIFEST.json")))
    allp = [c["property"] for c in man["checks"]]
    if not os.path.exists(S):
        subprocess.check_call(["cp", "-a", "/repo", S])
    from concurrent.futures import ThreadPoolExecutor
    for x in a:
        sh("git reset -q --hard; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
        p = x if os.path.exists(x) else os.path.join(V, "seeded", x, "patch.diff")
        own = None
        mp = os.path.join(os.path.dirname(p), "meta.json")
        if os.path.exists(mp):
            own = json.load(open(mp))["property"]
        if x != "none":
            rc, o = sh(f"git apply {p}")
            if rc:
                print(x, "does not apply", o); continue
        f = S + "-facts.json"
        try:
            facts(f)
        except Exception as e:
            print(x, "BUILD", str(e)[-1500:]); continue
        def one(pid):
            env = dict(os.environ, FIG_DEV_FACTS=f, FIG_DEV_EV=S + "-ev")
            r = subprocess.run(["timeout", "900", "python3", "-B", "check.py", pid], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            return pid, r.returncode, r.stdout.decode("utf8", "replace")
        with ThreadPoolExecutor(4) as ex:
            rs = list(ex.map(one, props or allp))
        hit = [p for p, rc, _ in rs if rc == 1]
        odd = [(p, rc) for p, rc, _ in rs if rc not in (0, 1)]
        print(x, "own", own, "CAUGHT" if own in hit else "MISSED" if own else "", "by", hit, odd or "")
        for p, rc, o in rs:
            if rc and (p == own or os.environ.get("SHOW")):
                print("   ", p, "\n        ".join(l[:260] for l in o.strip().split("\n")[1:4]))
        sys.stdout.flush()
    sh("git reset -q --hard")


main()
