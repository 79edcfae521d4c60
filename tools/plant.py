#!/usr/bin/env python3
"""plant.py FILE…: turns bug descriptions into seeded/<id>/ and confirms each in a scratch copy of /repo.
A description: lines `id: property: file: needs: breaks:`, then `--- old`, `--- new` (pairs, `--- file X` switches file) and `--- demo`."""
import sys, os, subprocess, json, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("PLANT_SCRATCH", "/tmp/plant-repo")


def sh(c, cwd=S, timeout=1200):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")


def parse(t):
    meta, cur, edits, demo = {}, None, [], None
    parts = re.split(r"(?m)^--- ?(.*)$", t)
    for ln in parts[0].strip().split("\n"):
        k, v = ln.split(":", 1)
        meta[k.strip()] = v.strip()
    f = meta["file"]
    for h, b in zip(parts[1::2], parts[2::2]):
        h = h.strip()
        b = b[1:] if b.startswith("\n") else b
        if h.startswith("file"):
            f = h.split()[1]
        elif h == "old":
            edits.append([f, b.rstrip("\n"), None])
        elif h == "new":
            edits[-1][2] = b.rstrip("\n")
        elif h == "demo":
            demo = b
    return meta, edits, demo


def stable():
    return set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []))


def tests():
    # the same test command, in the scratch copy
    log = os.path.join(S, "target/plant-test.log")
    rc, out = sh(". /opt/vp/env.sh; cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 > %s 2>&1; python3 /opt/vp/results.py /tmp/plant-out.json cargo:%s" % (log, log))
    return json.load(open("/tmp/plant-out.json"))


def main():
    for path in sys.argv[1:]:
        meta, edits, demo = parse(open(path).read())
        bid = meta["id"]
        if not os.path.exists(S):
            subprocess.check_call(["cp", "-a", "/repo", S])
        sh("git reset -q --hard; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
        d = os.path.join(V, "seeded", bid)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "demo.rs"), "w").write(demo)
        shutil.copy(os.path.join(V, "tools/demo.sh"), os.path.join(d, "demo.sh"))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        rc0, o0 = sh(f"bash {d}/demo.sh")
        ok = True
        if rc0 != 0:
            print(bid, "demo fails on the unchanged tree", rc0, o0[-1500:]); ok = False
        for f, a, b in edits:
            p = os.path.join(S, f)
            t = open(p).read()
            if t.count(a) != 1:
                print(bid, "edit matches", t.count(a), "times:", a[:80]); ok = False
                continue
            open(p, "w").write(t.replace(a, b))
        rc, diff = sh("git diff")
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        if ok:
            r = tests()
            base = json.load(open("/opt/vp/BASELINE.json"))
            want = set(base["stable"])
            got = set(r["passed"])
            miss = want - got
            if miss:
                print(bid, "breaks existing tests:", sorted(miss)[:5]); ok = False
            rc1, o1 = sh(f"bash {d}/demo.sh")
            if rc1 in (0, 98, 99):
                print(bid, "demo on the changed tree exits", rc1, o1[-1500:]); ok = False
        sh("git reset -q --hard")
        print(bid, "CONFIRMED" if ok else "REJECTED")
        if not ok:
            shutil.rmtree(d)


main()
