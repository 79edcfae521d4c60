"""C02, C05, C06, C07: keys, attribution, identities, errors of combined providers."""
from lib import *
from rules import rule
from rules_core import *
from rules_view import *


@rule("C02", "presence of an arbitrary key in the value-flow summary of map coalescing and of every combining entry point, "
      "compared with the union of both sides; empty sides and the exchange of join and merge by coinduction", 45, TRUSTED)
def C02(R):
    co = R.fn("coalesce", "Value", "Coalescible")
    D = lambda t, p: R.con("Value", "Dict", t, p)
    V, vi = R.adt("Value"), R.vi("Value", "Dict")
    K, J = SYM("key"), SYM("key2")
    has = lambda m, k: M.is_some(M.mget(m, k))
    pay = lambda v: mapleaves(v, lambda x: proj(x, V, vi, 1))
    for m, oname in ORDERS.items():
        o = R.con("Order", oname)

        def go(m=m, o=o):
            a, b = SYM("a"), SYM("b")
            e = R.ev(co, [D(SYM("ta"), a), D(SYM("tb"), b), o])
            R.eq(f"union:{m}", co["span"], has(pay(e.v), K), gor(has(a, K), has(b, K)))
            # one level deeper, at a key both sides hold a dictionary
            e = R.ev(co, [D(SYM("ta"), M.minsert(SYM("A"), K, D(SYM("ti"), a))), D(SYM("tb"), M.minsert(SYM("B"), K, D(SYM("tj"), b))), o])
            inner = M.unsome(M.mget(pay(e.v), K))
            R.rec_eq(f"union-nested:{m}", co["span"], wrapb(has(pay(expand(R, inner)), J)), wrapb(gor(has(a, J), has(b, J))))
            # empty sides
            for n, x, y, w in (("right-empty", a, M.EMPTYMAP, a), ("left-empty", M.EMPTYMAP, b, b)):
                e = R.ev(co, [D(SYM("ta"), x), D(SYM("tb"), y), o])
                R.rec_eq(f"neutral:{m}:{n}", co["span"], pay(e.v), w)
            # a key on one side only keeps its value
            e = R.ev(co, [D(SYM("ta"), a), D(SYM("tb"), b), o])
            for n, g, src in (("left-only", gand(has(a, K), gnot(has(b, K))), a), ("right-only", gand(has(b, K), gnot(has(a, K))), b)):
                R.eq(f"kept:{m}:{n}", co["span"], cofactor(M.unsome(M.mget(pay(e.v), K)), g), cofactor(M.unsome(M.mget(src, K)), g))
        R.case(f"union:{m}", go)

    def flip():
        A, B = SYM("a"), SYM("b")
        jn, mg = R.con("Order", "Join"), R.con("Order", "Merge")
        back = lambda eng, args, st, call: (APP("S:flip", args[1], args[0]), st) if args[2] is mg else None

        def unfold(x, y):
            return R.ev(co, [y, x, mg], models={co["dpath"]: back}).v
        R.rec_eq("exchange:join-merge", co["span"], R.ev(co, [A, B, jn]).v, APP("S:flip", A, B), {"flip": unfold}, R.solver())
    R.case("exchange", flip)
    P = SYM("profile")
    for m in ORDERS:
        def prov(m=m):
            it = R.fn(m, "Figment")
            e = provide(R, m, OK(SYM("new")), OK(SYM("old")))
            r = unok(figpart(R, e.v, "value"))
            R.eq(f"profiles:{m}", it["span"], has(r, P), gor(has(SYM("old"), P), has(SYM("new"), P)))
            both = gand(has(SYM("old"), P), has(SYM("new"), P))
            e = provide(R, m, OK(M.EMPTYMAP), OK(SYM("old")))
            R.rec_eq(f"neutral-provider:{m}", it["span"], unok(figpart(R, e.v, "value")), SYM("old"), {}, R.solver())
            # a provider with an empty profile
            e = provide(R, m, OK(one(R, P, M.EMPTYMAP)), OK(SYM("old")))
            got = M.mget(unok(figpart(R, e.v, "value")), P)
            old = M.mget(SYM("old"), P)
            R.rec_eq(f"neutral-profile:{m}", it["span"], got, select(M.is_some(old), old, SOME(M.EMPTYMAP)), {}, R.solver())
            # keys of one profile, provider and figment holding one entry each
            for kk in ("same", "other"):
                k2 = K if kk == "same" else J
                e = provide(R, m, OK(one(R, P, one(R, K, SYM("x")))), OK(one(R, P, one(R, k2, SYM("y")))))
                d = M.unsome(M.mget(unok(figpart(R, e.v, "value")), P))
                R.eq(f"profile-keys:{m}:{kk}", it["span"], gand(has(d, K), has(d, k2)), TRUE)
        R.case(f"combine:{m}", prov)


def wrapb(g): return select(g, STR("present"), STR("absent"))


def expand(R, v):
    """value of a recursive call, evaluated"""
    return mapleaves(v, lambda x: R.solver()(x.a[0][4:], list(x.a[1:])) if x.op == "app" and x.a[0].startswith("rec:") else x)


# ------------------------------------------------------------------------ C06
def uses_static(b, path):
    def go(x):
        if isinstance(x, dict):
            return x.get("static") == path or any(go(y) for y in x.values())
        return isinstance(x, list) and any(go(y) for y in x)
    return go(b["blocks"])


def bound_of(g, x):
    """largest T such that g says x <= T (None if g says something else)"""
    if g.op != "sw" or g.a[0].op != "bool":
        return None
    c = g.a[0].a[0]
    if c.op == "app" and c.a[0].startswith("lt:"):
        v = {k: y for k, y in zip(g.a[1], g.a[2])}
        if c.a[1].op == "int" and c.a[2] is x and v.get(0) is TRUE and v.get(1) is FALSE:
            return c.a[1].a[0]
        if c.a[2].op == "int" and c.a[1] is x and v.get(1) is TRUE and v.get(0) is FALSE:
            return c.a[2].a[0] - 1
    return None


def idbits(x, src):
    """number of low bits of src that x contains exactly once, from bit 0"""
    n = 0
    for s in walk(x):
        if s.op == "seg" and s.a[1] is src:
            if s.a[2] != 0:
                return 0
            n = max(n, s.a[0])
    return n if n or x is not src else 64


def three_way(c):
    """an ordering chosen by comparisons of one pair of numbers, as the comparison of the two"""
    if c.op != "sw":
        return c
    pair = None

    def go(x, order):
        nonlocal pair
        while x.op == "sw":
            k = x.a[0].a[0] if x.a[0].op == "bool" else x.a[0]
            if type(k) is not T or k.op != "app" or len(k.a) != 3 or k.a[0] != "eq" and not k.a[0].startswith("lt:"):
                return None
            a, b = k.a[1], k.a[2]
            pair = pair or (a, b)
            if {a, b} != set(pair):
                return None
            o = order if (a, b) == pair else -order
            hit = o == 0 if k.a[0] == "eq" else o < 0
            arms = dict(zip(x.a[1], x.a[2]))
            x = arms.get(int(hit), arms.get("else"))
            if x is None:
                return None
        return x
    got = [go(c, o) for o in (-1, 0, 1)]
    if any(g is None or g.op != "adt" for g in got):
        return c
    val = [g.a[1] - 1 for g in got]
    if val == [-1, 0, 1]:
        return APP("cmp", *pair)
    if val == [1, 0, -1]:
        return APP("cmp", pair[1], pair[0])
    return c


@rule("C06", "effect analysis of the identity counter (every access to it in the crate), bit-provenance summaries of tag "
      "construction, comparison, hashing, profile and serialization for arbitrary identities", 40, TRUSTED)
def C06(R):
    nxt = R.fn("next", "Tag")
    rmw = {}

    def alloc():
        e = R.ev(nxt, [])
        log = [x for x in e.log if x.op == "app" and x.a[0].startswith("atomic.")]
        ok = len(log) == 1 and len(e.log) == 1 and log[0].a[0] == "atomic.fetch_add" and log[0].a[2] is INT(1)
        R.ob("fresh:one-atomic-increment", ok, nxt["span"], "an identity is not taken with exactly one atomic fetch_add(1): " + ", ".join(cut(x, 120) for x in e.log))
        if not ok:
            return
        st = log[0].a[1].a[0][len("static:"):]
        ret = [x for x in walk(e.v) if x.op == "app" and x.a[0].startswith("atomic.fetch_add.ret")]
        R.ob("fresh:from-counter", len(ret) == 1, nxt["span"], "the identity is not the counter's previous value")
        rmw["ret"] = ret[0]
        rmw["tag"] = e.v
        w = idbits(e.v, ret[0])
        T = bound_of(e.g, ret[0])
        R.ob("fresh:no-truncation", T is not None and T < (1 << w), nxt["span"],
             f"identities up to {T} are given out but {w} bits of them are kept")
        R.ob("fresh:exhaustion-panics", len(e.panics) >= 1, nxt["span"], "running out of identities does not panic")
        init = [s for s in R.F.statics if s["path"] == st]
        iv = int.from_bytes(bytes(init[0]["init"]), "little") if init and init[0].get("init") else None
        R.ob("fresh:first-id", iv is not None and 1 <= iv <= 1 << 16, nxt["span"], f"the first identity is {iv}; the default identity is 0")
        R.ob("fresh:counter-type", init and "u64" in R.F.tys(init[0]["ty"]) and not init[0]["mut"], nxt["span"], "the counter is not an atomic of 64 bits")
        for b in R.F.bodies.values():
            if uses_static(b, st):
                R.ob(f"fresh:counter-access:{b['dpath']}", b["dpath"] in e.eng.visited, b["dpath"], "another function accesses the identity counter")
    R.case("fresh", alloc)

    P = {"default": prof(R, DEFAULT), "global": prof(R, GLOBAL), "custom": prof(R, "custom")}
    t1, t2 = {}, {}

    def layout():
        fp = R.fn("for_profile", "Tag")
        id2 = SYM("id2")
        for n, p in P.items():
            t1[n] = R.ev(fp, [rmw["tag"], p]).v
            t2[n] = subst(t1[n], {rmw["ret"]: id2})
            R.eq(f"profile:{n}", fp["span"], R.ev(R.fn("profile", "Tag"), [t1[n]]).v, NONE if n == "custom" else SOME(p))
        t1["none"], t2["none"] = rmw["tag"], subst(rmw["tag"], {rmw["ret"]: id2})
        R.eq("profile:fresh", fp["span"], R.ev(R.fn("profile", "Tag"), [t1["none"]]).v, SOME(P["default"]))
        dt = R.ev(R.fn("default", "Tag", "Default"), []).v
        R.eq("profile:default-tag", fp["span"], R.ev(R.fn("profile", "Tag"), [dt]).v, SOME(P["default"]))
        for n in P:     # re-profiling replaces the profile and keeps the identity
            for m in P:
                R.eq(f"reprofile:{n}:{m}", fp["span"], R.ev(fp, [t1[n], P[m]]).v, t1[m])
    R.case("layout", layout)

    def compare():
        eq, cmp_, hs = R.fn("eq", "Tag", "PartialEq"), R.fn("cmp", "Tag", "Ord"), R.fn("hash", "Tag", "Hash")
        pc = R.fn("partial_cmp", "Tag", "PartialOrd")
        ref = {}
        for n in list(P) + ["none"]:
            for m in list(P) + ["none"]:
                R.eq(f"eq:same:{n}:{m}", eq["span"], asbool(R.ev(eq, [t1[n], t1[m]]).v), TRUE)
                d = asbool(R.ev(eq, [t1[n], t2[m]]).v)
                c = R.ev(cmp_, [t1[n], t2[m]]).v
                p = R.ev(pc, [t1[n], t2[m]]).v
                if not ref:
                    ref.update(d=d, c=c)
                    conds = [x for x in walk(d) if x.op == "app" and x.a[0] == "eq"]
                    ok = d is not TRUE and d is not FALSE and len(conds) == 1 and all(
                        min(idbits(conds[0].a[1], a), idbits(conds[0].a[2], b)) >= 62 for a, b in
                        [(rmw["ret"], SYM("id2")) if idbits(conds[0].a[1], rmw["ret"]) else (SYM("id2"), rmw["ret"])])
                    R.ob("eq:distinguishes", ok, eq["span"], f"different identities can compare equal: {cut(d)}")
                R.eq(f"eq:profile-independent:{n}:{m}", eq["span"], d, ref["d"])
                R.eq(f"cmp:profile-independent:{n}:{m}", cmp_["span"], c, ref["c"])
                R.eq(f"partial_cmp:{n}:{m}", pc["span"], p, SOME(c))
        # the order is the order of identities
        c = three_way(ref["c"])
        ok = c.op == "app" and "cmp" in c.a[0] and len(c.a) == 3 and idbits(c.a[1], rmw["ret"]) >= 62 and idbits(c.a[2], SYM("id2")) >= 62 \
            and subst(c.a[1], {rmw["ret"]: SYM("id2")}) is c.a[2]
        R.ob("cmp:by-identity", ok, cmp_["span"], f"tags are ordered by {cut(c)}")
        h0 = None
        for n in list(P) + ["none"]:
            e = R.ev(hs, [t1[n], SYM("state")])
            h = e.out(1)
            if h0 is None:
                h0 = h
                used = idbits(h, rmw["ret"]) or idbits(TUP(*e.log), rmw["ret"])
                R.ob("hash:only-identity", h is not SYM("state") or e.log, hs["span"], "hashing a tag feeds nothing to the hasher")
            R.eq(f"hash:{n}", hs["span"], h, h0)
    R.case("compare", compare)

    def default():
        eq, isd = R.fn("eq", "Tag", "PartialEq"), R.fn("is_default", "Tag")
        dt = R.ev(R.fn("default", "Tag", "Default"), []).v
        R.eq("default:is-zero", isd["span"], dt, dflt(R))
        R.eq("default:is_default", isd["span"], asbool(R.ev(isd, [dt]).v), TRUE)
        for n in list(P) + ["none"]:
            g = asbool(R.ev(isd, [t1[n]]).v)
            z = asbool(R.ev(eq, [t1[n], dt]).v)
            # only identity 0 is the default, and 0 is never allocated
            for nm, x in (("is_default", g), ("eq", z)):
                R.ob(f"default:{nm}:{n}", subst(x, {rmw["ret"]: INT(5)}) is FALSE and onlyzero(x, rmw["ret"]), isd["span"],
                     f"an allocated tag can be the default tag: {cut(x)}")
    R.case("default", default)

    def serde_():
        ser, t = R.fn("serialize", "Tag", "Serialize"), SYM("t")
        e = R.ev(ser, [t, SYM("ser")])
        ok = e.v.op == "app" and e.v.a[0].split("@")[0].endswith("Serializer::serialize_u64") and e.v.a[1] is SYM("ser") and len(e.v.a) == 3
        R.ob("serde:serialize", ok, ser["span"], f"a tag is serialized as {cut(e.v)}")
        word_ = e.v.a[2]
        de = R.fn("deserialize", "Tag", "Deserialize")
        d = R.ev(de, [SYM("D")]).v
        ok = d.op == "app" and d.a[0].split("@")[0].split("::")[-1] in ("deserialize_any", "deserialize_u64") and d.a[1] is SYM("D") and d.a[2].op == "adt"
        R.ob("serde:deserialize", ok, de["span"], f"a tag is deserialized by {cut(d)}")
        vis = R.methods(d.a[2].a[0])
        if "visit_u64" not in vis:
            raise Missing("visit_u64 of the tag visitor")
        for n, o in vis.items():
            if n.startswith("visit_"):
                R.eq(f"serde:{n}", o["span"], R.ev(o, [d.a[2], word_]).v, OK(t))
        conv = [i for i in R.items("from", "Value", "From") if "Tag" in " ".join(R.F.tys(x) for x in i["inputs"])]
        if len(conv) == 1:
            R.eq("serde:value", conv[0]["span"], R.ev(conv[0], [t]).v,
                 R.con("Value", "Num", dflt(R), R.con("Num", "U64", word_)))
        else:
            raise Missing("conversion of a tag to a value")
    R.case("serde", serde_)

    for m in list(ORDERS) + ["from"]:
        def comb(m=m):
            it = R.fn(m, "Figment")
            for n, d, o in (("ok", OK(SYM("new")), OK(SYM("old"))), ("err", ERR(mkerr(R)), OK(SYM("old"))), ("err2", OK(SYM("new")), ERR(mkerr(R)))):
                if m == "from" and n == "err2":
                    continue
                e = provide(R, m, d, o)
                ev = [x for x in e.log if x.op == "app" and x.a[0].startswith("atomic.")]
                R.ob(f"combine:{m}:{n}", len(ev) == 1 and ev[0].a[0] == "atomic.fetch_add", it["span"],
                     f"combining a provider takes {len(ev)} identities instead of one")
        R.case(f"combine:{m}", comb)


def onlyzero(g, x):
    """the guard g over x can only hold for x == 0"""
    if g is FALSE:
        return True
    if g.op != "sw":
        return False
    c = g.a[0]
    for k, y in zip(g.a[1], g.a[2]):
        if is_false(y):
            continue
        if c.op == "bits" and idbits(c, x) >= 62 and k == 0:
            continue
        if c.op == "bool" and c.a[0].op == "app" and c.a[0].a[0] == "eq" and k == 1 and INT(0) in c.a[0].a:
            continue
        return False
    return True


# ------------------------------------------------------------------------ C05
@rule("C05", "value-flow summaries of the tag of every node of a combined value and of the figment's metadata map, per combining "
      "method, compared with: unattributed nodes get the provider's identity, attributed ones keep theirs; recursion by induction", 75, TRUSTED)
def C05(R):
    R.case("tags", combine_obligations, R, True)
    P = {"default": prof(R, DEFAULT), "global": prof(R, GLOBAL), "custom": prof(R, "custom")}
    teq = R.fn("eq", "Tag", "PartialEq")
    mdn = {n: i for i, (n, _) in enumerate(R.fields("Metadata"))}
    loc = [i for i, (n, t) in enumerate(R.fields("Metadata")) if "Location" in t]
    if len(loc) != 1:
        raise Missing("Metadata field holding the provide location")

    for m in list(ORDERS) + ["from"]:
        def own(m=m):
            it = R.fn(m, "Figment")
            md0 = metadata(R)
            e = provide(R, m, OK(SYM("new")), OK(SYM("old")), md=M.EMPTYMAP, prov_md=md0)
            mm = figpart(R, e.v, "metadata")
            ok = mm.op == "app" and mm.a[0] == "map.ins" and mm.a[1] is M.EMPTYMAP
            R.ob(f"metadata:one-entry:{m}", ok, it["span"], f"a combination records {cut(mm)}")
            key, val = mm.a[2], mm.a[3]
            fs = list(md0.a)
            for i, (n, _) in enumerate(R.fields("Metadata")):
                got = proj(val, R.adt("Metadata"), 0, i)
                want = md0.a[2 + i]
                if i == loc[0]:
                    R.ob(f"metadata:location:{m}", got is SOME(APP("Location::caller")), it["span"], f"the provide location is {cut(got)}, not the caller of {m}")
                else:
                    R.eq(f"metadata:{n}:{m}", it["span"], got, want)
            # the identity of the entry is the identity of every supplied value
            for n, p in P.items():
                t, _ = newtag(R, m, p)
                R.eq(f"identity:{m}:{n}", it["span"], asbool(R.ev(teq, [t, key]).v), TRUE)
                R.eq(f"profile:{m}:{n}", it["span"], R.ev(R.fn("profile", "Tag"), [t]).v, NONE if n == "custom" else SOME(p))
            # existing attributions and those of a combined figment are kept
            if m != "from":
                e = provide(R, m, OK(SYM("new")), OK(SYM("old")), prov_md=md0)
                R.rec_eq(f"metadata:kept:{m}", it["span"], figpart(R, e.v, "metadata"), M.minsert(SYM("md"), key, val))
            T = ADT(R.adt("Tag"), 0, SYM("anytag"))
            for st, d, o in (("ok", OK(SYM("new")), OK(SYM("old"))), ("err", ERR(mkerr(R)), OK(SYM("old"))), ("both", ERR(mkerr(R)), ERR(mkerr(R)))):
                if m == "from" and st == "both":
                    continue
                e = provide(R, m, d, o, prov_md=md0, mdmap=SOME(SYM("mm")))
                base = M.EMPTYMAP if m == "from" else SYM("md")
                K = R.fresh("key")
                a, b = M.mget(SYM("mm"), K), M.mget(base, K)
                both = lam(K, select(M.is_some(a), a, b))
                # pointwise: under the new identity, which no supplied figment can know, and under every other
                got = figpart(R, e.v, "metadata")
                same, = asbool(M.eqterm(K, key)).conds
                known, = asbool(M.is_some(M.mget(SYM("mm"), key))).conds
                R.rec_eq(f"metadata:carried:{m}:{st}:own", it["span"], fix(M.mget(got, key), known, 0), SOME(val))
                R.rec_eq(f"metadata:carried:{m}:{st}", it["span"], fix(M.mget(got, K), same, 0), select(M.is_some(a), a, b))
            # a failing provider is attributed as well
            e = provide(R, m, ERR(mkerr(R)), OK(SYM("old")), prov_md=md0, md=M.EMPTYMAP)
            R.rec_eq(f"metadata:error:{m}", it["span"], figpart(R, e.v, "metadata"), M.minsert(M.EMPTYMAP, key, val))
        R.case(f"metadata:{m}", own)

    def coal():
        co = R.fn("coalesce", "Value", "Coalescible")
        V = R.adt("Value")
        for m, oname in ORDERS.items():
            win = "ta" if m in ("join", "adjoin") else "tb"
            e = R.ev(co, [R.con("Value", "Dict", SYM("ta"), SYM("pa")), R.con("Value", "Dict", SYM("tb"), SYM("pb")), R.con("Order", oname)])
            R.eq(f"winner:{m}", co["span"], proj(e.v, V, R.vi("Value", "Dict"), 0), SYM(win))
    R.case("coalesce", coal)

    def access():
        it = R.fn("tag", "Value")
        for k in VARS:
            R.eq(f"value-tag:{k}", it["span"], R.ev(it, [R.con("Value", k, SYM("t"), SYM("p"))]).v, SYM("t"))
        it = R.fn("get_metadata", "Figment")
        R.eq("get_metadata", it["span"], R.ev(it, [fig(R), SYM("t")]).v, M.mget(SYM("md"), SYM("t")))
        f = fig(R, OK(SYM("m")))
        it = R.fn("data", "Figment", "Provider")
        R.eq("figment:data", it["span"], R.ev(it, [f]).v, OK(SYM("m")))
        it = R.fn("__metadata_map", "Figment", "Provider")
        R.eq("figment:metadata", it["span"], R.ev(it, [f]).v, SOME(SYM("md")))
    R.case("access", access)


# ------------------------------------------------------------------------ C07
def errchain(R, name, n, tagf=None, prev=NONE, **kw):
    """an error with n chained errors; kinds, paths, tags are distinct symbols"""
    for i in reversed(range(n)):
        prev = SOME(mkerr(R, kind=SYM(f"{name}.kind{i}"), path=SYM(f"{name}.path{i}"), tag=tagf(i) if tagf else SYM(f"{name}.tag{i}"),
                          profile=SYM(f"{name}.profile{i}"), metadata=SYM(f"{name}.md{i}"), prev=prev))
    return prev.a[2]


def looping(R, it, depth=3):
    """the function walks a chain with a loop instead of by recursion: there is no
    step to induct on, and chains of every length up to a bound are evaluated"""
    from rules_share import Graph, E
    g, seen, work = Graph(R), set(), [(b, depth) for b in R.F.by_dpath.get(it["dpath"], [])]
    while work:
        b, d = work.pop()
        if b["key"] in seen:
            continue
        seen.add(b["key"])
        if E.cfg_info(b)[1] or any(n in ("std::iter::successors", "std::iter::from_fn") for n, _ in g.edges(b)[1]):
            return True
        if d:
            work += [(x, d - 1) for x in g.edges(b)[0]]
    return False


def errlist(R, e):
    """constructor-shaped error chain -> list of errors, outermost first"""
    out = []
    f = err_fields(R)
    while True:
        if e.op != "adt":
            out.append(e)
            return out
        out.append(e)
        p = e.a[2 + f["prev"]]
        if p is NONE:
            return out
        if not (p.op == "adt" and p.a[0] == OPTION):
            out.append(p)
            return out
        e = p.a[2]


def setprev(R, e, prev, **kw):
    f = err_fields(R)
    a = list(e.a)
    a[2 + f["prev"]] = prev
    for k, v in kw.items():
        a[2 + f[k]] = v
    return ADT(*a)


def relink(R, es):
    p = NONE
    for e in reversed(es):
        p = SOME(setprev(R, e, p))
    return p.a[2]


def resolved_spec(R, e, md, cur):
    """metadata and profile of one error, from its tag"""
    t = errget(R, e, "tag")
    tp = R.ev(R.fn("profile", "Tag"), [t]).v
    return setprev(R, e, errget(R, e, "prev"), metadata=M.mget(md, t), profile=mapleaves(tp, lambda x: SOME(cur) if x is NONE else x))


@rule("C07", "value-flow summaries of error chaining (by induction on the chain) and of every combining, extracting and looking-up "
      "entry point on failing providers and figments, compared with: all failures kept, in order", 75, TRUSTED)
def C07(R):
    f = err_fields(R)
    E_ = err_adt(R)
    prevof = lambda x: errget(R, x, "prev")
    ch, cnt = R.fn("chain", "Error"), R.fn("count", "Error")

    def chain():
        def spec(a, b):
            # b's list of errors, then a's
            p = prevof(b)
            tail = select(M.is_some(p), APP("S:chain", a, M.unsome(p)), a)
            if b.op != "adt":
                b = ADT(E_, 0, *[proj(b, E_, 0, i) for i in range(len(f))])
            return setprev(R, b, SOME(tail))
        if looping(R, ch):
            ns = range(1, 7)
            R.ob("chain:bounded", True, ch["span"], "")
        else:
            ns = range(1, 4)
            R.rec_eq("chain:any", ch["span"], R.ev(ch, [SYM("e"), SYM("err")]).v, spec(SYM("e"), SYM("err")), {"chain": spec}, R.solver())
        for n in ns:
            for k in ns:
                got = full(R, R.ev(ch, [errchain(R, "a", n), errchain(R, "b", k)]).v)
                R.eq(f"chain:{n}+{k}", ch["span"], got, relink(R, errlist(R, errchain(R, "b", k)) + errlist(R, errchain(R, "a", n))))
    R.case("chain", chain)

    def iterate():
        it = [i for i in R.F.items if i["name"] == "into_iter" and i["self"] is not None and R.F.types[i["self"]].get("adt") == E_]
        if len(it) != 1:
            raise Missing("IntoIterator for the error")
        for n in range(1, 9 if looping(R, cnt) else 5):
            v = R.ev(it[0], [errchain(R, "a", n)]).v
            nx = R.methods(v.a[0]).get("next")
            if nx is None:
                raise Missing("next of the error iterator")
            for i in range(n + 1):
                e = R.ev(nx, [v])
                want = NONE if i == n else SOME(setprev(R, errlist(R, errchain(R, "a", n))[i], NONE))
                R.eq(f"iterate:{n}:{i}", nx["span"], full(R, e.v), want)
                v = e.out(0)
            c = full(R, R.ev(cnt, [errchain(R, "a", n)]).v)
            R.eq(f"count:{n}", cnt["span"], c, INT(n))
        one_ = INT(1)
        spec = lambda x: select(M.is_some(prevof(x)), add1(APP("S:count", M.unsome(prevof(x)))), one_)
        if looping(R, cnt):
            R.ob("count:bounded", True, cnt["span"], "")
        else:
            R.rec_eq("count:any", cnt["span"], R.ev(cnt, [SYM("err")]).v, spec(SYM("err")), {"count": spec}, R.solver())
    R.case("iterate", iterate)

    for m in list(ORDERS) + ["from"]:
        def comb(m=m):
            it = R.fn(m, "Figment")
            nt, ne = newtag(R, m, prof(R, DEFAULT))
            fresh = fresh_tag(R, m)
            V = lambda e: full(R, figpart(R, e.v, "value"))
            shapes = [(0, 0)] if m == "from" else [(0, 0), (0, 1), (0, 2), (0, 3)]
            for n in (1, 2, 3):
                for tn, tf in (("untagged", lambda i: dflt(R)), ("tagged", lambda i: fresh2(R, i))):
                    new = errchain(R, "new", n, tf)
                    wnew = errlist(R, new)
                    wnew[0] = setprev(R, wnew[0], NONE, tag=fresh if tn == "untagged" else tf(0))
                    for k in (0, 1, 2, 3):
                        if m == "from" and k:
                            continue
                        old = errchain(R, "old", k) if k else None
                        e = provide(R, m, ERR(new), ERR(old) if k else OK(SYM("old")))
                        R.eq(f"chained:{m}:{tn}:{n}:after-{k}", it["span"], V(e), ERR(relink(R, (errlist(R, old) if k else []) + wnew)))
            for k in (1, 2, 3):
                if m == "from":
                    continue
                old = errchain(R, "old", k)
                e = provide(R, m, OK(SYM("new")), ERR(old))
                R.eq(f"sticky:{m}:{k}", it["span"], V(e), ERR(old))
            e = provide(R, m, OK(SYM("new")), OK(SYM("old")))
            R.ob(f"no-new-error:{m}", not anyleaf(figpart(R, e.v, "value"), lambda x: x.op != "adt" or x.a[:2] != (RESULT, 0)), it["span"],
                 "combining a successful provider into data yields an error")
        R.case(f"combine:{m}", comb)

    def reads():
        p = path("a", "b")
        cur, md = SYM("prof"), SYM("md")
        depth = 6 if R.thorough else 3
        for k in range(1, depth + 1):
            old = errchain(R, "old", k)
            fg = fig(R, ERR(old))
            want = relink(R, [resolved_spec(R, x, md, cur) for x in errlist(R, old)])
            for fn, args in (("find_value", [p]), ("find_value", [STR("")]), ("extract", []), ("extract_lossy", []), ("extract_inner", [p]),
                             ("extract_inner_lossy", [p]), ("focus", [p])):
                it = R.fn(fn, "Figment")
                e = R.ev(it, [fg] + args, models=de_models(R))
                v = figpart(R, e.v, "value") if fn == "focus" else e.v
                R.rec_eq(f"read:{fn}:{len(args) and show(args[0])}:{k}", it["span"], v, ERR(want))
            it = R.fn("contains", "Figment")
            R.eq(f"read:contains:{k}", it["span"], asbool(R.ev(it, [fg, p]).v), FALSE)
            it = R.fn("find_metadata", "Figment")
            R.eq(f"read:find_metadata:{k}", it["span"], R.ev(it, [fg, p]).v, NONE)
            it = R.fn("data", "Figment", "Provider")
            R.eq(f"as-provider:{k}", it["span"], R.ev(it, [fg]).v, ERR(old))
            for fn, a in (("select", [prof(R, "x")]),):
                it = R.fn(fn, "Figment")
                R.eq(f"kept:{fn}:{k}", it["span"], figpart(R, R.ev(it, [fg] + a).v, "value"), ERR(old))
    R.case("reads", reads)


def add1(t):
    return mapleaves(t, lambda x: E.arith2("Add", INT(1), x, "usize"))


def fresh_tag(R, m):
    """identity taken by one combination, before a profile is recorded in it"""
    e = provide(R, m, OK(SYM("new")), OK(M.EMPTYMAP), md=M.EMPTYMAP)
    mm = figpart(R, e.v, "metadata")
    if not (mm.op == "app" and mm.a[0] == "map.ins"):
        raise Unsupported("metadata map of a combination")
    return mm.a[2]


def fresh2(R, i):
    """a tag that some earlier combination gave out"""
    t = R.ev(R.fn("next", "Tag"), [])
    ret = [x for x in walk(t.v) if x.op == "app" and x.a[0].startswith("atomic.fetch_add.ret")]
    return subst(t.v, {ret[0]: INT(17 + i)}) if ret else SYM("tag")


def full(R, v, limit=12):
    """evaluate the recursive calls left in a term whose arguments are known"""
    for _ in range(limit):
        rs = [x for x in apps(v) if x.a[0].startswith("rec:")]
        if not rs:
            return v
        x = max(rs, key=lambda t: t.id)
        v = subst(v, {x: R.solver()(x.a[0][4:], list(x.a[1:]))})
    return v
