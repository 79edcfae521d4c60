"""C03, C04, C09, C10: what an extraction sees, and how it is addressed."""
from lib import *
from rules import rule
from rules_core import *


def word(n): return SYM("§" + n)


def path(*ks):
    """the textual key path k1.k2.…, the k's arbitrary non-empty segments"""
    parts = []
    for i, k in enumerate(ks):
        if i:
            parts.append(STR("."))
        parts.append(k if type(k) is T else STR(k) if k in ("", ) else word(k))
    return M.scat(*parts) if parts else STR("")


def find_spec(R, v, ks):
    """Option<Value> found below v by following the segments ks"""
    for i, k in enumerate(ks):
        def f(name, t, p, k=k, rest=ks[i + 1:]):
            if name != "Dict":
                return NONE
            o = M.mget(p, k)
            return select(M.is_some(o), find_spec(R, M.unsome(o), rest), NONE)
        return split_value(R, v, f)
    return SOME(v)


def error(R, tag=None, kind=None, path=None, prev=NONE, profile=NONE, metadata=NONE):
    p = R.adt("Error")
    raise Missing("unused")


ERRFIELDS = ("profile", "metadata", "path", "kind")


def err_adt(R):
    c = [p for p, a in R.F.adts.items() if a["local"] and not a["enum"] and p.split("::")[-1] == "Error"
         and all(f in a["variants"][0]["fields"] for f in ERRFIELDS)]
    if len(c) != 1:
        raise Missing("the error type")
    return c[0]


def err_fields(R):
    a = R.F.adts[err_adt(R)]
    out = {}
    for i, (n, t) in enumerate(zip(a["variants"][0]["fields"], a["field_tys"][0])):
        ty = R.F.tys(t)
        if n in ERRFIELDS:
            out[n] = i
        elif ty.split("::")[-1] == "Tag":
            out["tag"] = i
        elif "Option" in ty:
            out["prev"] = i
        else:
            out["+" + n] = i
    for k in ERRFIELDS + ("tag", "prev"):
        if k not in out:
            raise Missing(f"error field {k}")
    return out


def mkerr(R, **kw):
    f = err_fields(R)
    vals = [None] * len(f)
    dfl = {"tag": dflt(R), "prev": NONE, "profile": NONE, "metadata": NONE, "path": mk("arr")}
    for k, i in f.items():
        vals[i] = kw.get(k, dfl.get(k, SYM("err." + k)))
    return ADT(err_adt(R), 0, *vals)


def errget(R, e, what):
    f = err_fields(R)
    return mapleaves(e, lambda x: proj(x, err_adt(R), 0, f[what]))


def kind(R, name, *a):
    return R.con("Kind", name, *a)


def view(R, m, pn):
    """default < selected custom profile < global"""
    D, G, S = prof(R, DEFAULT), prof(R, GLOBAL), prof(R, pn)
    get = lambda p: select(M.is_some(M.mget(m, p)), M.unsome(M.mget(m, p)), M.EMPTYMAP)
    custom = gand(gnot(M.cieq(pn, DEFAULT)), gnot(M.cieq(pn, GLOBAL)))
    has = gand(custom, M.is_some(M.mget(m, S)))
    dd = spec_unfold(R)["dict"]
    j = lambda a, b: mapleaves(a, lambda x: mapleaves(b, lambda y: dd(x, y, STR("merge"))))
    base = select(has, j(get(D), get(S)), get(D))
    return j(base, get(G))


def view_cases(R):
    """figment contents: every profile present or absent, other profiles irrelevant"""
    D, G = prof(R, DEFAULT), prof(R, GLOBAL)
    for pn, pname in ((DEFAULT, "default"), (GLOBAL, "global"), (STR("custom"), "custom")):
        for bits in range(8):
            m = M.EMPTYMAP
            here = []
            for i, (p, n) in enumerate(((D, "D"), (G, "G"), (prof(R, "custom"), "S"))):
                if bits >> i & 1:
                    m = M.minsert(m, p, SYM(n))
                    here.append(n)
            m = M.minsert(m, prof(R, "other"), SYM("O"))
            yield f"{pname}:{'+'.join(here) or 'none'}", m, pn
    yield "any:any", SYM("m"), SYM("pn")


def as_option(R, r):
    """Result<Value> -> Option<Value>"""
    return mapleaves(r, lambda x: SOME(x.a[2]) if x.op == "adt" and x.a[1] == 0 else NONE if x.op == "adt"
                     else select(gate(mk("discr", x, (0, 1)), 0), SOME(proj(x, RESULT, 0, 0)), NONE))


def de_arg(R, v, trait="serde::Deserialize::deserialize"):
    """the arguments handed to the target type's Deserialize implementation"""
    out = []
    for x in walk(v):
        if x.op == "app" and x.a[0].split("@")[0].replace("serde_core::", "serde::").endswith("Deserialize::deserialize"):
            out.append(x)
    return out


def de_models(R, n=1):
    """the target type's own deserialization: an unknown function of its arguments that fails with a chain of n errors"""
    def f(eng, args, st, call):
        if call.fn.get("local") or call.fn.get("key"):
            return None
        v, st = eng.opaque_call(call.fn["decl"], args, st)
        prev = NONE
        for i in reversed(range(n)):
            prev = SOME(mkerr(R, tag=SYM(f"de.tag{i}"), kind=APP(f"de.kind{i}", v), path=APP(f"de.path{i}", v), prev=prev))
        return mksw_ord(mk("discr", v, (0, 1)), [(0, OK(proj(v, RESULT, 0, 0))), (1, ERR(prev.a[2]))]), st
    return {"serde::Deserialize::deserialize": f, "serde_core::Deserialize::deserialize": f}


def de_fields(R):
    p = R.adt("ConfiguredValueDe")
    a = R.F.adts[p]
    r = {}
    for i, (n, t) in enumerate(zip(a["variants"][0]["fields"], a["field_tys"][0])):
        ty = R.F.tys(t)
        if ty.endswith("Figment"):
            r["config"] = i
        elif ty.endswith("Value"):
            r["value"] = i
    if len(r) != 2:
        raise Missing("deserializer fields")
    return p, r


EXTRACT = (("extract", False, False), ("extract_lossy", True, False), ("extract_inner", False, True), ("extract_inner_lossy", True, True))


@rule("C03", "value-flow summary of the value every extraction deserializes from, for each combination of "
      "present/absent default, global and selected profiles, compared with default < selected custom < global; "
      "recursion of the merge by induction", 100, TRUSTED)
def C03(R):
    unf = spec_unfold(R)
    R.unf = unf
    ci = R.vi("Value", "Dict")
    for name, m, pn in view_cases(R):
        def go(name=name, m=m, pn=pn):
            f = fig(R, OK(m), profile=prof(R, pn))
            want = view(R, m, pn)
            it = R.fn("find_value", "Figment")
            e = R.ev(it, [f, STR("")])
            got = mapleaves(unok(e.v), lambda x: proj(x, R.adt("Value"), ci, 1))
            R.ob(f"total:{name}", not anyleaf(e.v, lambda x: x.op == "adt" and x.a[:2] == (RESULT, 1)), it["span"],
                 "the view of a figment that holds data is an error")
            R.rec_eq(f"view:{name}:find_value", it["span"], got, want, unf, R.solver())
        R.case(f"view:{name}:find_value", go)
        for fn, lossy, inner in EXTRACT:
            def go(fn=fn, inner=inner, name=name, m=m, pn=pn):
                it = R.fn(fn, "Figment")
                f = fig(R, OK(m), profile=prof(R, pn))
                e = R.ev(it, [f] + ([STR("")] if inner else []), models=de_models(R))
                ds = de_arg(R, e.v)
                p, df = de_fields(R)
                R.ob(f"source:{name}:{fn}", len(ds) >= 1, it["span"], "no deserialization of the target type was found")
                for d in ds:
                    v = mapleaves(d.a[1], lambda x: proj(x, p, 0, df["value"]))
                    got = mapleaves(v, lambda x: proj(x, R.adt("Value"), ci, 1))
                    R.rec_eq(f"view:{name}:{fn}", it["span"], got, view(R, m, pn), unf, R.solver())
            R.case(f"view:{name}:{fn}", go)


def anyleaf(v, f):
    return any(f(x) for _, x in leaves(v) if x is not BOT)


@rule("C04", "value-flow summary of the selected-profile component through every operation on a figment", 20, TRUSTED)
def C04(R):
    fp = lambda v: figpart(R, v, "profile")
    cur, pp = prof(R, SYM("cur")), prof(R, SYM("provided"))
    for m in ORDERS:
        for has in (False, True):
            for old in ("ok", "err"):
                for new in ("ok", "err"):
                    def go(m=m, has=has, old=old, new=new):
                        e = provide(R, m, OK(M.EMPTYMAP) if new == "ok" else ERR(mkerr(R)),
                                    OK(M.EMPTYMAP) if old == "ok" else ERR(mkerr(R)),
                                    profile=SOME(pp) if has else NONE, figprofile=cur)
                        R.eq(f"profile:{m}:{'with' if has else 'without'}:{old}:{new}", R.fn(m, "Figment")["span"], fp(e.v),
                             pp if has and m in ("merge", "admerge") else cur)
                    R.case(f"profile:{m}:{has}", go)

    def misc():
        e = R.ev(R.fn("new", "Figment"), [])
        R.eq("profile:new", R.fn("new", "Figment")["span"], fp(e.v), prof(R, DEFAULT))
        e = R.ev(R.fn("default", "Figment", "Default"), [])
        R.eq("profile:Default", R.fn("default", "Figment", "Default")["span"], fp(e.v), prof(R, DEFAULT))
        for has in (False, True):
            it = R.fn("from", "Figment")
            e = R.ev(it, [SYM("prov")], models=provider_models(R, OK(M.EMPTYMAP), SOME(pp) if has else NONE))
            R.eq(f"profile:from:{has}", it["span"], fp(e.v), pp if has else prof(R, DEFAULT))
    R.case("profile:new", misc)

    def sel():
        it = R.fn("select", "Figment")
        f = fig(R, OK(SYM("m")), profile=cur)
        e = R.ev(it, [f, pp], inst=None)
        v = fp(e.v)
        # P: Into<Profile>: the conversion of the argument, nothing else
        conv = [x for x in walk(v) if x.op == "app" and "Into" in x.a[0]]
        R.ob("profile:select", v is pp or (len(conv) == 1 and v is conv[0] and conv[0].a[1] is pp), it["span"],
             f"the selected profile is {cut(v)}, not the profile given to select()")
        for part in ("value", "metadata"):
            R.eq(f"select-keeps:{part}", it["span"], figpart(R, e.v, part), figpart(R, f, part))
    R.case("profile:select", sel)

    def focus():
        it = R.fn("focus", "Figment")
        for n, val in (("ok", OK(SYM("m"))), ("err", ERR(mkerr(R)))):
            f = fig(R, val, profile=cur)
            e = R.ev(it, [f, path("a")])
            R.eq(f"profile:focus:{n}", it["span"], fp(e.v), cur)
    R.case("profile:focus", focus)

    def getters():
        it = R.fn("profile", "Figment")
        f = fig(R, OK(SYM("m")), profile=cur)
        e = R.ev([i for i in R.items("profile", "Figment", inherent=True)][0], [f])
        R.eq("profile:getter", it["span"], e.v, cur)
        it = R.fn("profile", "Figment", "Provider")
        e = R.ev(it, [f])
        R.eq("profile:as-provider", it["span"], e.v, SOME(cur))
    R.case("profile:getters", getters)

    def none():
        its = [i for i in R.F.items if i["name"] == "profile" and "Provider" in i["path"] and i["self"] is None]
        for it in its:
            e = R.ev(it, [SYM("self")])
            R.eq("profile:provider-default", it["span"], e.v, NONE)
    R.case("profile:provider-default", none)


PATHS = [("root", (), ""), ("one", ("a",), None), ("two", ("a", "b"), None), ("three", ("a", "b", "c"), None),
         ("same", ("a", "a"), None)]


def path_cases():
    for n, ks, _ in PATHS:
        yield n, [word(k) for k in ks], path(*ks)
    # an empty segment ends the path
    yield "trailing-dot", [word("a")], M.scat(word("a"), STR("."))
    yield "leading-dot", [], M.scat(STR("."), word("a"))
    yield "double-dot", [word("a")], M.scat(word("a"), STR(".."), word("b"))


@rule("C09", "value-flow summaries of every lookup and extraction entry point on the same figment and path, compared "
      "with one lookup semantics", 60, TRUSTED)
def C09(R):
    D, G = SYM("D"), SYM("G")
    m = M.minsert(one(R, prof(R, DEFAULT), D), prof(R, "custom"), SYM("S"))
    unf = spec_unfold(R)
    R.unf = unf
    setups = [("default-only", one(R, prof(R, DEFAULT), D), DEFAULT, D), ("global-only", one(R, prof(R, GLOBAL), G), DEFAULT, G),
              ("custom-only", one(R, prof(R, "custom"), SYM("S")), STR("custom"), SYM("S")),
              ("unselected", one(R, prof(R, "other"), SYM("O")), STR("custom"), M.EMPTYMAP)]
    for sname, m, pn, vw in setups:
        f = fig(R, OK(m), profile=prof(R, pn))
        root = R.con("Value", "Dict", dflt(R), vw)
        for pnm, ks, ptext in path_cases():
            want = find_spec(R, root, ks)
            key = f"{sname}:{pnm}"

            def fv(f=f, ptext=ptext, want=want, key=key):
                it = R.fn("find_value", "Figment")
                e = R.ev(it, [f, ptext])
                R.eq(f"find_value:{key}", it["span"], as_option(R, e.v), want)
                bad = mapleaves(e.v, lambda x: x.a[2] if x.op == "adt" and x.a[:2] == (RESULT, 1) else BOT)
                if bad is not BOT:
                    R.eq(f"find_value-missing:{key}", it["span"], errget(R, bad, "kind"), kind(R, "MissingField", ptext))
            R.case(f"find_value:{key}", fv)

            def co(f=f, ptext=ptext, want=want, key=key):
                it = R.fn("contains", "Figment")
                e = R.ev(it, [f, ptext])
                R.eq(f"contains:{key}", it["span"], asbool(e.v), M.is_some(want))
            R.case(f"contains:{key}", co)

            def fm(f=f, ptext=ptext, want=want, key=key):
                it = R.fn("find_metadata", "Figment")
                e = R.ev(it, [f, ptext])
                tag = split_value(R, M.unsome(want), lambda n, t, p: t)
                w = select(M.is_some(want), M.mget(SYM("md"), tag), NONE)
                R.eq(f"find_metadata:{key}", it["span"], e.v, w)
            R.case(f"find_metadata:{key}", fm)
            for fn, lossy, inner in EXTRACT:
                if not inner:
                    continue

                def ex(f=f, ptext=ptext, want=want, key=key, fn=fn):
                    it = R.fn(fn, "Figment")
                    e = R.ev(it, [f, ptext], models=de_models(R))
                    p, df = de_fields(R)
                    # found: deserializes exactly the found value, with this figment as configuration
                    ds = de_arg(R, e.v)
                    if want is NONE:
                        R.ob(f"{fn}:{key}", not ds, it["span"], "a value is deserialized although the path leads nowhere")
                        return
                    R.ob(f"{fn}-reached:{key}", bool(ds), it["span"], "no deserialization of the target type was found")
                    got = BOT
                    for d in ds:
                        v = mapleaves(d.a[1], lambda x: proj(x, p, 0, df["value"]))
                        c = mapleaves(d.a[1], lambda x: proj(x, p, 0, df["config"]))
                        R.eq(f"{fn}-config:{key}", it["span"], c, f)
                        R.ob(f"{fn}:{key}", agrees(v, want), it["span"],
                             f"deserializes {cut(v)} where {cut(want)} is found at the path")
                    ok_guard = as_guard_missing(R, e.v, ptext)
                    R.ob(f"{fn}-missing:{key}", ok_guard is None or ok_guard is gnot(M.is_some(want)), it["span"],
                         "fails as missing under a condition other than the path leading nowhere")
                R.case(f"{fn}:{key}", ex)


def agrees(v, want):
    """v equals the payload of `want` wherever `want` is Some"""
    w = M.unsome(want)
    if v is w:
        return True
    g = M.is_some(want)
    return cofactor(v, g) is cofactor(w, g)


def as_guard_missing(R, v, ptext):
    """condition under which the result is the lookup's own missing-field error"""
    k = R.con("Kind", "MissingField", ptext)
    f = err_fields(R)

    def g(x):
        if x.op == "adt" and x.a[:2] == (RESULT, 1) and x.a[2].op == "adt" and x.a[2].a[2 + f["kind"]] is k:
            return TRUE
        return FALSE
    return mapleaves(v, g)


@rule("C10", "value-flow summaries of the nesting, finding and focusing operations over symbolic dotted paths, compared "
      "with one segment-by-segment semantics; each pair of operations checked to be inverse", 25, TRUSTED)
def C10(R):
    v = SYM("v")
    for pnm, ks, ptext in path_cases():
        def go(pnm=pnm, ks=ks, ptext=ptext):
            for name in ("find", "find_ref"):
                it = R.fn(name, "Value")
                e = R.ev(it, [v, ptext])
                R.eq(f"{name}:{pnm}", it["span"], e.v, find_spec(R, v, ks))
            it = R.fn("nest")
            e = R.ev(it, [ptext, v])
            w = v
            for k in reversed(ks):
                w = R.con("Value", "Dict", dflt(R), one(R, k, w))
            R.rec_eq(f"nest:{pnm}", it["span"], e.v, w)
            # what is nested at a path is found at that path
            f = R.ev(R.fn("find", "Value"), [e.v, ptext])
            R.eq(f"nest-find:{pnm}", it["span"], f.v, SOME(v))
        R.case(f"paths:{pnm}", go)

        def foc(pnm=pnm, ks=ks, ptext=ptext):
            it = R.fn("focus", "Figment")
            e = R.ev(it, [fig(R, OK(SYM("m"))), ptext])
            P = R.fresh("P")
            got = unok(figpart(R, e.v, "value"))
            o = M.mget(SYM("m"), P)
            sub = find_spec(R, R.con("Value", "Dict", dflt(R), M.unsome(o)), ks)
            d = mapleaves(sub, lambda x: x if x is NONE else split_value(R, M.unsome(x), lambda n, t, p: SOME(p) if n == "Dict" else NONE))
            want = lam(P, select(M.is_some(o), d, NONE))
            R.rec_eq(f"focus:{pnm}", it["span"], got, want)
            for part in ("metadata",):
                R.eq(f"focus-keeps:{part}:{pnm}", it["span"], figpart(R, e.v, part), SYM("md"))
        R.case(f"focus:{pnm}", foc)

    def err():
        it = R.fn("focus", "Figment")
        e = R.ev(it, [fig(R, ERR(mkerr(R))), path("a")])
        val = figpart(R, e.v, "value")
        R.ob("focus-error", val.op == "adt" and val.a[1] == 1, it["span"], "focusing a figment that holds an error yields data")
        R.eq("focus-error-kind", it["span"], errget(R, val.a[2], "kind"), SYM("err.kind"))
    R.case("focus-error", err)
