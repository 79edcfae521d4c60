"""C24: providers made from other things."""
from rules_meta import *


def provider_impls(R):
    """[(self type, {method: item}, trait methods)] of every implementation of Provider"""
    r = []
    for im in R.F.raw["impls"]:
        if (im["trait"] or "").split("::")[-1] == "Provider":
            ms = {it["name"]: it for it in R.F.items if it["self"] == im["self"] and (it["trait"] or "").split("::")[-1].split("<")[0] == "Provider" and it.get("key")}
            r.append((R.F.types[im["self"]]["s"], ms, [m for m, _ in im["trait_methods"]], im))
    return r


@rule("C24", "value-flow summary of every method of every provider implementation and of every constructor of serialized providers, for every kind of serialized "
      "value and shape of key", 150, TRUSTED)
def C24(R):
    impls = provider_impls(R)
    by = {s.split("::")[-1].split("<")[0]: (ms, tms, im) for s, ms, tms, im in impls}
    n = dict(ref=0, ser=0, kv=0)

    def known():
        R.ob("implementations", set(by) == {"Serialized", "Data", "Env", "Figment", "&T", "(K, V)"}, "src", f"providers: {sorted(by)}")
        ms, tms, im = by["&T"]
        for m in tms:
            n["ref"] += 1
            it = ms.get(m)
            R.ob(f"reference:{m}:forwarded", it is not None, im["span"], f"a reference does not forward `{m}`: it uses the default of the trait")
            if it is not None:
                e = R.ev(it, [SYM("x")])
                v = e.v
                R.ob(f"reference:{m}", v.op == "app" and v.a[0].split("@")[0].endswith(f"Provider::{m}") and v.a[0].endswith("@T") and v.a[1:] == (SYM("x"),),
                     it["span"], f"`{m}` of a reference is {cut(v)}")
                R.ob(f"reference:{m}:calls", not e.panics, it["span"], "forwarding can panic")
        # nobody else selects a profile or carries attributions
        for s, (ms, tms, im) in by.items():
            for m in tms:
                if s not in ("&T", "Figment") and m in ms and m not in ("metadata", "data"):
                    R.eq(f"plain:{s}:{m}", ms[m]["span"], R.ev(ms[m], [SYM("x")]).v, NONE)
        for it in R.F.items:
            if it["self"] is None and it.get("key") and it["dpath"].split("::")[-2:-1] == ["Provider"] and it["name"] not in ("metadata", "data"):
                n["ref"] += 1
                R.eq(f"default:{it['name']}", it["span"], R.ev(it, [SYM("x")]).v, NONE)
    R.case("implementations", known)

    def figment():
        ms, tms, im = by["Figment"]
        for v in (OK(SYM("m")), ERR(mkerr(R))):
            f = fig(R, v)
            for m, want in (("data", v), ("profile", SOME(figpart(R, f, "profile"))), ("__metadata_map", SOME(SYM("md")))):
                it = ms.get(m)
                R.ob(f"figment:{m}:given", it is not None, im["span"], f"a figment does not give its own `{m}`")
                if it is not None:
                    e = R.ev(it, [f])
                    R.eq(f"figment:{m}:{v.a[1]}", it["span"], e.v, want)
                    R.ob(f"figment:{m}:{v.a[1]}:effects", not e.log and not e.panics, it["span"], "has effects or can panic")
        e = R.ev(ms["metadata"], [f])
        R.ob("figment:metadata:effects", not e.log and not e.panics, ms["metadata"]["span"], "has effects or can panic")
    R.case("figment", figment)

    def ser(v, val="v"):
        """the wrapped value serializes to v"""
        def f(eng, args, st, call):
            eng.log(st, APP("ser", M.D(eng, st, args[0])))
            return v, st
        return {"serde::Serialize::serialize": f}

    ctor = {}
    for nm in ("from", "defaults", "globals", "global", "default"):
        c = [x for x in R.items(nm, "Serialized") if x["trait"] is None and x.get("key")]
        if len(c) == 1:
            ctor[nm] = c[0]
    P = prof(R, SYM("P"))
    v = SYM("v")
    kinds = {k: R.con("Value", k, SYM("t"), SYM("p")) for k in R.variants("Value")}
    KEYS = [("a", ["a"]), ("a.b", ["a", "b"]), ("a.b.c", ["a", "b", "c"]), ("a.b.c.d", ["a", "b", "c", "d"]), ("a.a", ["a", "a"])]
    texts = {k: (path(*ws), [word(w) for w in ws]) for k, ws in KEYS}
    texts[""] = (STR(""), [])
    texts["a."] = (M.scat(word("a"), STR(".")), [word("a")])

    def nested(x, ks):
        for k in reversed(ks):
            x = R.con("Value", "Dict", dflt(R), M.minsert(M.EMPTYMAP, k, x))
        return x
    actual = R.fn("to_actual", "Value")

    def supplies(lab, it, recv, p, ks, val=v):
        """`it` on `recv` yields the serialized value at ks in profile p"""
        for kn, x in kinds.items():
            n["ser"] += 1
            e = R.ev(it, [recv], models=ser(OK(x)))
            full_ = nested(x, ks)
            if ks or kn == "Dict":
                d = full_.a[3]
                R.eq(f"{lab}:{kn}", it["span"], e.v, OK(one(R, p, d)))
            else:
                bad = e.v.op == "adt" and e.v.a[1] == 1
                R.ob(f"{lab}:{kn}:refused", bad, it["span"], f"a value that is not a dictionary is accepted as {cut(e.v)}")
                if bad:
                    R.eq(f"{lab}:{kn}:kind", it["span"], errget(R, e.v.a[2], "kind"), kind(R, "InvalidType", R.ev(actual, [x]).v, STR("map")))
            R.ob(f"{lab}:{kn}:once", e.log == [APP("ser", val)], it["span"], f"the value is serialized as {[cut(y) for y in e.log]}")
            R.ob(f"{lab}:{kn}:panics", not e.panics, it["span"], "supplying the data can panic")
        er = mkerr(R)
        R.eq(f"{lab}:failing", it["span"], R.ev(it, [recv], models=ser(ERR(er))).v, ERR(er))

    data = by["Serialized"][0]["data"]
    DP, GP = prof(R, DEFAULT), prof(R, GLOBAL)

    def constructors():
        R.floor("constructors of serialized providers", len(ctor), 5)
        key, pro = R.fn("key", "Serialized"), R.fn("profile", "Serialized")
        made = {"from": (R.ev(ctor["from"], [v, P], models=INTO).v, P), "defaults": (R.ev(ctor["defaults"], [v], models=INTO).v, DP),
                "globals": (R.ev(ctor["globals"], [v], models=INTO).v, GP)}
        for nm, (d, p) in made.items():
            supplies(nm, data, d, p, [])
            for kn, (t, ks) in texts.items():
                d2 = R.ev(key, [d, t], models=INTO).v
                supplies(f"{nm}.key({kn})", data, d2, p, ks)
                Q = prof(R, SYM("Q"))
                if kn in ("a", "a.b", ""):
                    supplies(f"{nm}.key({kn}).profile", data, R.ev(pro, [d2, Q], models=INTO).v, Q, ks)
                    supplies(f"{nm}.profile.key({kn})", data, R.ev(key, [R.ev(pro, [d, Q], models=INTO).v, t], models=INTO).v, Q, ks)
                    other = R.ev(key, [d, path("z", "y")], models=INTO).v
                    supplies(f"{nm}.key.key({kn})", data, R.ev(key, [other, t], models=INTO).v, p, ks)
            supplies(f"{nm}.profile", data, R.ev(pro, [d, prof(R, SYM("Q"))], models=INTO).v, prof(R, SYM("Q")), [])
        for nm, p in (("default", DP), ("global", GP)):
            for kn, (t, ks) in texts.items():
                supplies(f"{nm}({kn})", data, R.ev(ctor[nm], [t, v], models=INTO).v, p, ks)
    R.case("serialized", constructors)

    def pairs():
        ms = by["(K, V)"][0]
        for kn, (t, ks) in texts.items():
            n["kv"] += 1
            supplies(f"pair({kn})", ms["data"], TUP(t, v), GP, ks)
        e = R.ev(ms["metadata"], [TUP(SYM("k"), v)])
        R.eq("pair:source", ms["metadata"]["span"], md_get(R, e.v, "source"), NONE)
        nm = md_get(R, e.v, "name")
        R.ob("pair:name", mentions(nm, APP("type_name", STR("K"))) and mentions(nm, APP("type_name", STR("V"))), ms["metadata"]["span"], f"a pair is called {cut(nm)}")
    R.case("pairs", pairs)
    R.floor("forwarded methods", n["ref"], 5)
    R.floor("serialized data", n["ser"], 300)
