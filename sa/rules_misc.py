"""C18: profile names."""
from lib import *
from rules import rule
from rules_core import *
from rules_view import *
from rules_prov import *
from rules_de import *
from rules_ser import *


def asty(R, tid, x):
    """x at the type: a profile of that name, or the name"""
    return prof(R, x) if R.F.types[R.F.peel(tid)].get("adt") == R.adt("Profile") else x


def params(R, it):
    b = R.body(it)
    return [b["locals"][i + 1] for i in range(b["args"] if "args" in b else b["argc"])]


def env_models(R, vars_, lossy=True):
    """the process environment holds exactly these variables, in this order"""
    vs = M.it_list(mk("arr", *[TUP(k, v) for k, v in vars_]))

    def f(eng, args, st, call):
        return vs, st
    return {"std::env::vars_os": f, "std::env::vars": f}


@rule("C18", "value-flow summary of every comparison, ordering, hash, classification, conversion and rendering defined on profiles, "
      "with arbitrary names; and of reading a profile from the environment, for environments of up to three arbitrary variables", 60, TRUSTED)
def C18(R):
    A, B = SYM("a"), SYM("b")
    P = R.adt("Profile")
    isprof = lambda tid: R.F.types[R.F.peel(tid)].get("adt") == P
    n = dict(eq=0, order=0, hash=0)
    for it in R.F.items:
        if it["name"] not in ("eq", "ne", "cmp", "partial_cmp", "lt", "le", "gt", "ge", "max", "min", "hash") or not it["trait"] or it.get("key") is None:
            continue
        try:
            b = R.body(it)
        except Missing:
            continue
        tys = params(R, it)
        if not any(isprof(t) for t in tys):
            continue
        key = f"{it['name']}:{it['path']}"

        def go(it=it, tys=tys, key=key):
            nm = it["name"]
            if nm == "hash":
                e = R.ev(it, [prof(R, A), SYM("h")])
                n["hash"] += 1
                R.eq(key, it["span"], e.out(1), APP("hashed", SYM("h"), APP("ci", A)))
                return
            for x, y in ((A, B), (STR("Some"), STR("sOME")), (A, STR("Name")), (STR("Name"), B)):
                e = R.ev(it, [asty(R, tys[0], x), asty(R, tys[1], y)])
                lab = f"{key}:{'sym' if x.op == 'sym' else 'lit'}-{'sym' if y.op == 'sym' else 'lit'}"
                if nm in ("eq", "ne"):
                    n["eq"] += 1
                    w = M.cieq(x, y)
                    R.eq(lab, it["span"], asbool(e.v), w if nm == "eq" else gnot(w))
                elif nm in ("cmp", "partial_cmp"):
                    n["order"] += 1
                    w = APP("ci_cmp", x, y)
                    R.eq(lab, it["span"], e.v, w if nm == "cmp" else SOME(w))
                else:
                    R.ob(lab, False, it["span"], "a comparison of profiles this analysis has no specification for")
        R.case(key, go)
    R.floor("equalities", n["eq"], 28)
    R.floor("orders", n["order"], 8)
    R.floor("hashes", n["hash"], 1)

    def names():
        for nm in ("Default", "Global"):
            v = ("default" if nm == "Default" else "global")
            it = R.fn("default", "Profile", "Default")
            if nm == "Default":
                R.eq("default", it["span"], R.ev(it, []).v, prof(R, STR(v)))
        new = R.fn("new", "Profile")
        R.eq("new", new["span"], R.ev(new, [A]).v, prof(R, A))
        cn = R.fn("const_new", "Profile")
        R.eq("const_new", cn["span"], R.ev(cn, [A]).v, prof(R, A))
        fr = [i for i in R.items("from", "Profile") if i["trait"] and i["trait"].split("<")[0].endswith("From")]
        for it in fr:
            e = R.ev(it, [A])
            R.eq(f"from:{it['path']}", it["span"], e.v, prof(R, A))
        R.floor("from", len(fr), 1)
        into = [i for i in R.F.items if i["name"] == "from" and i["trait"] and isprof(params(R, i)[0]) and i["self"] is not None
                and R.F.types[i["self"]].get("adt", "").endswith("String")]
        for it in into:
            R.eq(f"into-string:{it['path']}", it["span"], R.ev(it, [prof(R, A)]).v, A)
        R.floor("into-string", len(into), 1)
        for nm, tr in (("as_str", None), ("deref", "Deref")):
            it = R.fn(nm, "Profile", tr) if tr else R.fn(nm, "Profile")
            R.eq(nm, it["span"], R.ev(it, [prof(R, A)]).v, A)
    R.case("names", names)

    def custom():
        it = R.fn("is_custom", "Profile")
        want = gand(gnot(M.cieq(A, STR("default"))), gnot(M.cieq(A, STR("global"))))
        R.eq("is_custom", it["span"], asbool(R.ev(it, [prof(R, A)]).v), want)
        for s in ("default", "Default", "GLOBAL", "global", "defaultx", "", "globa"):
            R.eq(f"is_custom:{s}", it["span"], asbool(R.ev(it, [prof(R, STR(s))]).v),
                 FALSE if s.lower() in ("default", "global") else TRUE)
        for it in R.F.items:
            if it["name"] != "from" or not it["trait"] or it["self"] is None:
                continue
            t = R.F.types[it["self"]].get("adt") or ""
            if not t.endswith("ProfileTag") or not isprof(params(R, it)[0]):
                continue
            vn = {v["name"]: i for i, v in enumerate(R.F.adts[t]["variants"])}
            w = select(M.cieq(A, STR("default")), ADT(t, vn["Default"]), select(M.cieq(A, STR("global")), ADT(t, vn["Global"]), ADT(t, vn["Custom"])))
            R.eq("classified", it["span"], R.ev(it, [prof(R, A)]).v, w)
    R.case("classification", custom)

    def prefix():
        it = R.fn("starts_with", "Profile")
        R.eq("starts_with", it["span"], asbool(R.ev(it, [prof(R, A), B]).v), asbool(APP("uncased::UncasedStr::starts_with", A, B)))
    R.case("starts_with", prefix)

    def collect():
        it = R.fn("collect", "Profile")
        R.eq("collect", it["span"], R.ev(it, [prof(R, A), SYM("d")]).v, one(R, prof(R, A), SYM("d")))
    R.case("collect", collect)

    def render():
        it = R.fn("fmt", "Profile", "Display")
        e = R.ev(it, [prof(R, A), SYM("f")])
        R.eq("display", it["span"], e.out(1), M.scat(SYM("f"), A))
        it = R.fn("serialize", "Profile", "Serialize")
        e = R.ev(it, [prof(R, A), SYM("S")])
        R.ob("serialize", e.v.op == "app" and "Serializer::serialize_str" in e.v.a[0] and e.v.a[1:] == (SYM("S"), A), it["span"],
             f"a profile is serialized as {cut(e.v)}")
        T_ = Target(R)
        it = R.fn("deserialize", "Profile", "Deserialize")
        e = R.ev(it, [SYM("D")], models=T_.models())
        vs = [i for i in R.F.items if i["name"].startswith("visit_") and i["trait"] and i["trait"].startswith(("serde::de::Visitor", "serde_core::de::Visitor"))
              and R.body(i) and "Profile" in i["path"]]
        for i in vs:
            if i["name"] in ("visit_str", "visit_string", "visit_borrowed_str"):
                R.eq(f"deserialize:{i['name']}", i["span"], R.ev(i, [SYM("v"), A]).v, OK(prof(R, A)))
            else:
                R.ob(f"deserialize:{i['name']}", False, i["span"], "a profile is read from something that is not a string")
        R.floor("deserialize", len(vs), 1)
        R.ob("deserialize:request", e.v.op == "app" and "deserialize_str" in e.v.a[0], it["span"], f"a profile is requested as {cut(e.v)}")
    R.case("render", render)

    KEY = SYM("key")
    for cnt in range(4):
        vs = [(SYM(f"n{i}"), SYM(f"v{i}")) for i in range(cnt)]
        want = NONE
        for k, v in reversed(vs):
            want = select(M.cieq(APP("core::str::<impl str>::trim", APP("lossy", k)), KEY), SOME(prof(R, APP("lossy", v))), want)

        def go(vs=vs, want=want):
            it = R.fn("from_env", "Profile")
            R.eq(f"from_env:{len(vs)}", it["span"], R.ev(it, [KEY], models=env_models(R, vs)).v, want)
            io = R.fn("from_env_or", "Profile")
            e = R.ev(io, [KEY, prof(R, B)], models=env_models(R, vs))

            def strip(x):
                return x.a[1] if x.op == "app" and "Into::into" in x.a[0] else x
            R.eq(f"from_env_or:{len(vs)}", io["span"], mapleaves(e.v, strip), mapleaves(want, lambda x: prof(R, B) if x is NONE else x.a[2]))
        R.case(f"from_env:{cnt}", go)
