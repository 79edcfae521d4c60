"""C01..C07: combining configuration."""
from lib import *
from rules import rule

TRUSTED = ["rustc's type checking and MIR construction are correct",
           "the abstract transfer functions for the standard library (sa/models.py) describe the library"]

ORDERS = {"merge": "Merge", "join": "Join", "adjoin": "Adjoin", "admerge": "Admerge"}
VARS = ["String", "Char", "Bool", "Num", "Empty", "Dict", "Array"]
DEFAULT, GLOBAL = STR("default"), STR("global")


# ----------------------------------------------------------- specifications
def valcons(R):
    V = R.adt("Value")
    n = len(R.variants("Value"))
    return V, n


def split_value(R, x, f):
    """case split of a value term on its kind; f(variant name, tag, payload)"""
    V, n = valcons(R)
    names = R.variants("Value")

    def g(y):
        if y.op == "adt":
            return f(names[y.a[1]], y.a[2], y.a[3])
        if y.op == "app" and y.a[0].startswith("S:") and y.a[0][2:] in getattr(R, "unf", {}):
            return mapleaves(R.unf[y.a[0][2:]](*y.a[1:]), g)
        c = mk("discr", y, tuple(range(n)))
        return M.mapleaves(mksw_ord(c, [(i, INT(1000 + i)) for i in range(n)]),
                           lambda z: f(names[z.a[0] - 1000], proj(y, V, z.a[0] - 1000, 0), proj(y, V, z.a[0] - 1000, 1)))
    return mapleaves(x, g)


def spec_unfold(R, tagf=None):
    """specification terms: val(a,b,order) dict(a,b,order) tagv(v,id,profile) tagd"""
    def val(a, b, o):
        o = o.a[0]

        def f(ka, ta, pa):
            def h(kb, tb, pb):
                if ka == "Dict" and kb == "Dict":
                    t = ta if o in ("join", "adjoin") else tb
                    return R.con("Value", "Dict", t, APP("S:dict", pa, pb, STR(o)))
                if ka == "Array" and kb == "Array" and o in ("adjoin", "admerge"):
                    return R.con("Value", "Array", ta, M.lcatd(pa, pb))
                return a if o in ("join", "adjoin") else b
            return split_value(R, b, h)
        return split_value(R, a, f)

    def dict_(a, b, o):
        K = R.fresh("key")
        va, vb = M.mget(a, K), M.mget(b, K)
        both = select(M.is_some(va), select(M.is_some(vb),
                      SOME(APP("S:val", M.unsome(va), M.unsome(vb), o)), va), vb)
        return lam(K, both)

    return {"val": val, "dict": dict_}


def lam(K, body):
    return M.maplam(K, body)


@rule("C01", "value-flow summary of the coalescing operation and of the four combining entry points, per "
      "strategy and per pair of value kinds, compared with the documented conflict table; recursion by induction", 210, TRUSTED)
def C01(R):
    co = R.fn("coalesce", "Value", "Coalescible")
    unf = spec_unfold(R)
    for m, oname in ORDERS.items():
        o = R.con("Order", oname)
        for ka in VARS:
            for kb in VARS:
                def go(ka=ka, kb=kb):
                    a = R.con("Value", ka, SYM("ta"), SYM("pa"))
                    b = R.con("Value", kb, SYM("tb"), SYM("pb"))
                    e = R.ev(co, [a, b, o])
                    R.rec_eq(f"table:{m}:{ka}x{kb}", co["span"], e.v, unf["val"](a, b, STR(m)), unf, R.solver())
                R.case(f"table:{m}:{ka}x{kb}", go)
    R.case("combine", combine_obligations, R, False)


# ------------------------------------------------------------------- provide
def tagnum(R, n): return ADT(R.adt("Tag"), 0, INT(n))


def provider_models(R, data, profile=NONE, md=None, mdmap=NONE):
    md = md if md is not None else metadata(R)
    P = R.F.traits
    pre = [t for t in P if t.split("::")[-1] == "Provider"]
    if len(pre) != 1:
        raise Missing("trait Provider")
    pre = pre[0] + "::"
    c = lambda v: (lambda eng, args, st, call: (v, st))
    return {pre + "data": c(data), pre + "profile": c(profile), pre + "metadata": c(md), pre + "__metadata_map": c(mdmap)}


def metadata(R, tag="P"):
    p = R.adt("Metadata")
    return ADT(p, 0, *[SYM(f"md{tag}.{n}") for n, _ in R.fields("Metadata")])


def fig(R, value=None, md=None, profile=None):
    p = R.adt("Figment")
    fs = []
    for n, t in R.fields("Figment"):
        if n == "value" or "Result<" in t:
            fs.append(value if value is not None else OK(SYM("old")))
        elif t.split("::")[-1] == "Profile":
            fs.append(profile if profile is not None else SYM("prof"))
        elif "Metadata" in t:
            fs.append(md if md is not None else SYM("md"))
        else:
            fs.append(SYM("Figment." + n))
    return ADT(p, 0, *fs)


def figpart(R, v, what):
    fs = R.fields("Figment")
    sel = {"value": lambda t: "Result<" in t, "profile": lambda t: t.split("::")[-1] == "Profile",
           "metadata": lambda t: "Metadata" in t and "Result<" not in t}[what]
    c = [i for i, (n, t) in enumerate(fs) if sel(t)]
    if len(c) != 1:
        raise Missing(f"Figment field holding the {what}")
    return mapleaves(v, lambda x: proj(x, R.adt("Figment"), 0, c[0]))


def provide(R, m, data, value=None, md=None, profile=NONE, prov_md=None, mdmap=NONE, figprofile=None):
    it = R.fn(m, "Figment")
    args = [SYM("prov")] if m == "from" else [fig(R, value, md, figprofile), SYM("prov")]
    return R.ev(it, args, models=provider_models(R, data, profile, prov_md, mdmap))


def prof(R, name): return ADT(R.adt("Profile"), 0, name if type(name) is T else STR(name))


def one(R, k, v): return M.minsert(M.EMPTYMAP, k, v)


def dflt(R): return tagnum(R, 0)


def newtag(R, m, P):
    """tag given to an untagged value that the provider supplies in profile P"""
    data = OK(one(R, P, one(R, SYM("k"), R.con("Value", "String", dflt(R), SYM("s")))))
    e = provide(R, m, data, OK(M.EMPTYMAP))
    v = M.mget(M.unsome(M.mget(unok(figpart(R, e.v, "value")), P)), SYM("k"))
    V = R.adt("Value")
    return mapleaves(M.unsome(v), lambda x: proj(x, V, R.vi("Value", "String"), 0)), e


def unok(r):
    return mapleaves(r, lambda x: x.a[2] if x.op == "adt" and x.a[1] == 0 else BOT if x.op == "adt" else proj(x, RESULT, 0, 0))


def tag_unfold(R, tau):
    """tagv(v, P): every default tag of v, at any depth, replaced by tau(P)"""
    teq = R.fn("eq", "Tag", "PartialEq")

    def isdef(t):
        return asbool(R.ev(teq, [t, dflt(R)]).v)

    def tagv(v, P):
        def f(k, t, p):
            nt = t if tau is None else select(isdef(t), tau(P), t)
            if k == "Dict":
                p = tagd(p, P)
            elif k == "Array":
                p = lmap(R, p, lambda x: APP("S:tagv", x, P))
            return R.con("Value", k, nt, p)
        return split_value(R, v, f)

    def tagd(d, P):
        K = R.fresh("key")
        o = M.mget(d, K)
        return lam(K, mapopt(o, lambda x: APP("S:tagv", x, P)))
    return {"tagv": tagv, "tagd": tagd}


def mapopt(o, f):
    return select(M.is_some(o), SOME(f(M.unsome(o))), NONE)


def lmap(R, l, f):
    def g(x):
        if x.op == "arr":
            return mk("arr", *[f(y) for y in x.a])
        if x.op == "app" and x.a[0] == "lcat":
            return M.lcat(*[g(y) for y in x.a[1:]])
        e = mk("bv", 90, "e")
        return M.lgen(APP("it:list", x), mk("arr", f(e)), 90)
    return mapleaves(l, g)


def provided(R, m, old, new, tagd):
    """Map<Profile, Dict> that results from combining, before tags"""
    P = R.fresh("profile")
    vo, vn = M.mget(old, P), M.mget(new, P)
    tn = mapopt(vn, lambda d: tagd(d, P))
    return lam(P, select(M.is_some(vo), select(M.is_some(vn), SOME(APP("S:dict", M.unsome(vo), M.unsome(tn), STR(m))), vo), tn))


SHAPES = ("sym", "new-empty", "old-empty")


def shape_maps(R):
    yield "any", SYM("old"), SYM("new")
    yield "existing-empty", M.EMPTYMAP, SYM("new")
    yield "new-empty", SYM("old"), M.EMPTYMAP
    P, Q, k, j = prof(R, SYM("P")), prof(R, SYM("Q")), SYM("k"), SYM("j")
    yield "one-each", one(R, P, one(R, k, SYM("x"))), one(R, Q, one(R, j, SYM("y")))
    yield "same-key", one(R, P, one(R, k, SYM("x"))), one(R, P, one(R, k, SYM("y")))


def combine_obligations(R, tags):
    for m in list(ORDERS) + ["from"]:
        mm = "merge" if m == "from" else m
        if not R.items(m, "Figment"):
            raise Missing(f"Figment::{m}")
        P0 = prof(R, SYM("pname"))
        memo = {}

        def tau(P, m=m, memo=memo):
            if "t" not in memo:
                memo["t"] = newtag(R, m, P0)[0]
            return subst(memo["t"], {SYM("pname"): proj(P, R.adt("Profile"), 0, 0)})
        unf = spec_unfold(R)
        unf.update(tag_unfold(R, tau))
        R.unf = unf
        for name, old, new in shape_maps(R):
            if m == "from":
                if name != "any":
                    continue
                old = M.EMPTYMAP

            def go(m=m, name=name, old=old, new=new, unf=unf, mm=mm):
                e = provide(R, m, OK(new), OK(old))
                want = OK(provided(R, mm, old, new, unf['tagd']))
                R.rec_eq(f"{'attribution' if tags else 'combine'}:{m}:{name}", R.fn(m, "Figment")["span"],
                         figpart(R, e.v, "value"), want, unf, R.solver())
            R.case(f"combine:{m}:{name}", go)
