#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]: decides one property statically."""
import sys, os, json, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.dont_write_bytecode = True
import threading
sys.setrecursionlimit(50000)
threading.stack_size(512 * 1024 * 1024)


def main():
    pid = sys.argv[1]
    tier = "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    import build, lib, rules
    dev = os.environ.get("FIG_DEV_FACTS")
    path = dev or build.facts()
    F = lib.Facts(path)
    R = lib.Run(pid, tier, F)
    rule = rules.RULES[pid]
    R.case("rule", rule["fn"], R)
    known = []
    kp = os.path.join(HERE, "known_findings.txt")
    for ln in open(kp) if os.path.exists(kp) else []:
        ln = ln.strip()
        if ln.startswith("finding:"):
            d = dict(x.split("=", 1) for x in ln[len("finding:"):].split() if "=" in x)
            if d.get("property") == pid:
                known.append((d.get("key"), ln))
    bad = []
    for key, ok, where, msg in R.obs:
        if ok:
            continue
        k = [l for kk, l in known if kk == key]
        if k:
            print(f"KNOWN-FINDING: property={pid} {key} {msg}")
        else:
            bad.append((key, where, msg))
    if not R.obs:
        bad.append(("coverage", "rule", "no obligation was generated"))
    if len(R.obs) < rule["floor"]:
        bad.append(("coverage", "rule", f"{len(R.obs)} obligations generated, at least {rule['floor']} expected"))
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": rule.get("level", "other"),
        "coverage": {
            "explanation": rule["how"],
            "rule": rule["how"],
            "obligations": len(R.obs),
            "discharged": sum(1 for o in R.obs if o[1]),
            "distinct_obligation_keys": len({o[0] for o in R.obs}),
            "functions_analysed": len(R.functions),
            "abstract_evaluations": R.evals,
            "call_sites_inlined": R.callees,
            "mir_bodies_in_facts": len(F.bodies),
            "uninterpreted_external_functions": sorted(R.unknown),
            "functions": sorted(R.functions)[:400],
            "samples": [{"obligation": o[0], "site": o[2], "discharged": o[1]} for o in R.obs[:12]],
            "checker_cmd": f"python3 check.py {pid}",
        },
        "assumptions": rule.get("assumes", []),
        "violations": [{"key": k, "where": w, "what": m} for k, w, m in bad],
        "wall_s": round(time.time() - t0, 2),
    }
    evd = os.environ.get("FIG_DEV_EV") if dev else None
    evd = evd or os.path.join(HERE, "evidence")
    os.makedirs(evd, exist_ok=True)
    ep = os.path.join(evd, pid + ".json")
    with open(ep + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(ep + ".tmp", ep)
    print(f"{pid}: {len(R.obs)} obligations, {sum(1 for o in R.obs if o[1])} discharged, "
          f"{len(R.functions)} functions analysed, {R.evals} abstract evaluations, {ev['wall_s']}s")
    if os.environ.get("SA_VERBOSE"):
        for o in R.obs:
            print("  ", "ok " if o[1] else "BAD", o[0], o[2], o[3])
    if bad:
        rp = os.path.join(evd, pid + ".violation.txt")
        with open(rp, "w") as f:
            for k, w, m in bad:
                f.write(f"{k}\n  at {w}\n  {m}\n")
        for k, w, m in bad[:20]:
            print(f"  [{k}] at {w}: {m}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0


if __name__ == "__main__":
    rc = [2]

    def go():
        try:
            rc[0] = main()
        except SystemExit as e:
            rc[0] = e.code
        except BaseException:
            import traceback
            traceback.print_exc()
            rc[0] = 2
    # signals are delivered to the main thread only: raise its stack instead
    import resource
    if os.environ.get("SA_STACK") != "1":
        os.environ["SA_STACK"] = "1"
        try:
            resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        except (ValueError, OSError):
            try:
                h = resource.getrlimit(resource.RLIMIT_STACK)[1]
                resource.setrlimit(resource.RLIMIT_STACK, (h, h))
            except (ValueError, OSError):
                pass
        os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
    go()
    sys.stdout.flush()
    os._exit(rc[0])
