"""Abstract transfer functions for the standard library (and the few external
crates) that figment calls.  Everything not listed is an uninterpreted symbol."""
from terms import *
import engine as E
from engine import (St, narrow, merge, gleaves, proj, eta, asbool, cmpterm, fits, norm, index,
                    Unsupported, INTS, LOG, gate_in, rng)

COW = "std::borrow::Cow"
BMAP = ("std::collections::BTreeMap", "std::collections::HashMap", "indexmap::IndexMap")
BSET = ("std::collections::BTreeSet", "std::collections::HashSet")
DROP_EVENTS = {"parking_lot::lock_api::MutexGuard", "std::sync::MutexGuard", "tempfile::TempDir",
               "lock_api::mutex::MutexGuard", "parking_lot::MutexGuard", "parking_lot::lock_api::mutex::MutexGuard"}
PROFILE = "profile::Profile"
EMPTYMAP = APP("map.empty")
NIL = mk("arr")
FACTS = []          # stack of (map, key): key known to be present


# ------------------------------------------------------------------ equality
def aslow(s):
    return "".join(c.lower() if c.isascii() else c for c in s) if type(s) is str else s.lower()


def asup(s):
    return "".join(c.upper() if c.isascii() else c for c in s) if type(s) is str else s.upper()


def isatom(t):
    """an arbitrary value different from every other atom: SYM("@…")"""
    return t.op == "sym" and type(t.a[0]) is str and t.a[0].startswith(("@", "§@"))


def isname(t): return t.op == "str" or isatom(t)


OWNEDCOW = [False]


def cow(variant, x):
    """a borrowed or owned text; the two are told apart only where texts are lists of characters (see texts)"""
    return mapleaves(x, lambda y: APP("cow:owned", y)) if OWNEDCOW[0] and variant == 1 else x


TEXTEQ = [lambda x, y: None]
HEXNUM = [lambda op, x, y: None]


def eqterm(a, b):
    def f(x, y):
        if x is y:
            return TRUE
        r = TEXTEQ[0](x, y)
        if r is not None:
            return r
        for p, q in ((x, y), (y, x)):
            if p.op == "app" and p.a[0].startswith("icast:"):
                u, w = E.uncast(p), E.uncast(q)
                if u is not p or w is not q:
                    return f(u, w)
            if p.op == "app" and p.a[0] == "ci":
                if q.op == "app" and q.a[0] == "ci":
                    return cieq(p.a[1], q.a[1])
                if q.op == "str":
                    return gate(p, q.a[0]) if aslow(q.a[0]) == q.a[0] else FALSE
        if x.op == y.op == "int":
            return TRUE if x is y else FALSE
        if x.op == y.op == "str" or isatom(x) and isatom(y):
            return FALSE
        if x.op == y.op == "adt" and x.a[0] == y.a[0]:
            if x.a[1] != y.a[1]:
                return FALSE
            if x.a[0] == PROFILE:
                return cieq(x.a[2], y.a[2])
            g = TRUE
            for p, q in zip(x.a[2:], y.a[2:]):
                g = gand(g, eqterm(p, q))
            return g
        if x.op == y.op == "tup":
            g = TRUE
            for p, q in zip(x.a, y.a):
                g = gand(g, eqterm(p, q))
            return g
        for p, q in ((x, y), (y, x)):
            if p.op == "adt" and p.a[0] == PROFILE:
                return cieq(p.a[2], proj(q, PROFILE, 0, 0))
            if p.op == "adt" and q.op != "adt":
                ad = CUR[0].F.adts.get(p.a[0]) if CUR else None
                if ad:
                    g = gate(mk("discr", q, tuple(range(len(ad["variants"])))), p.a[1]) if ad["enum"] and len(ad["variants"]) > 1 else TRUE
                    for i, z in enumerate(p.a[2:]):
                        g = gand(g, eqterm(z, proj(q, p.a[0], p.a[1], i)))
                    return g
            if p.op == "int":
                g = E.tagzero(q, p.a[0])
                if g is not None:
                    return g
            if p.op == "str" and p.a[0] == "":
                return isempty(q)
            if p.op in ("int", "str") and q.op not in ("int", "str"):
                return E.cgate(q, p.a[0])
        if y.id < x.id:
            x, y = y, x
        return asbool(APP("eq", x, y))
    return mapleaves(a, lambda x: mapleaves(b, lambda y: f(x, y)))


CUR = []


def cieq(a, b):
    def f(x, y):
        if x is y:
            return TRUE
        if x.op == y.op == "str":
            return TRUE if aslow(x.a[0]) == aslow(y.a[0]) else FALSE
        for p, q in ((x, y), (y, x)):
            if p.op == "str":
                return gate(APP("ci", q), aslow(p.a[0]))
        if y.id < x.id:
            x, y = y, x
        return asbool(APP("ci_eq", x, y))
    return mapleaves(a, lambda x: mapleaves(b, lambda y: f(x, y)))


# ------------------------------------------------------------------ maps
def is_some(o):
    return mapleaves(o, lambda x: TRUE if x.op == "adt" and x.a[1] == 1 else FALSE if x.op == "adt"
                     else gate(mk("discr", x, (0, 1)), 1))


def unsome(o):
    return mapleaves(o, lambda x: x.a[2] if x.op == "adt" and x.a[1] == 1 else BOT if x.op == "adt"
                     else proj(x, OPTION, 1, 0))


def mget(m, k):
    def f(m):
        if m.op == "app":
            n = m.a[0]
            if n == "map.empty":
                return NONE
            if n == "map.ins":
                g = eqterm(m.a[2], k)
                return select(g, SOME(m.a[3]), mget(m.a[1], k))
            if n == "map.del":
                return select(eqterm(m.a[2], k), NONE, mget(m.a[1], k))
            if n == "map.lam":
                return subst(m.a[2], {mk("bv", m.a[1], "#K"): k})
        for mm, kk in FACTS:
            if mm is m and kk is k:
                return SOME(APP("mval", m, k))
        c = mk("bool", APP("min", m, k), None)
        return mksw(c, [(0, NONE), (1, SOME(APP("mval", m, k)))])
    if k.op == "sw":
        return mapleaves(k, lambda kk: mget(m, kk))
    return mapleaves(m, f)


def mget_val(m, k):
    return unsome(mget(m, k))


def minsert(m, k, v):
    def f(x):
        if x.op == "app" and x.a[0] == "map.lam":
            a, ph = opened(x)
            K = next(iter(ph), KTMP)
            return maplam(K, select(eqterm(K, k), SOME(v), a[2]))
        if x.op == "app" and x.a[0] == "map.ins":
            if eqterm(x.a[2], k) is TRUE:
                return minsert(x.a[1], k, v)
            if eqterm(x.a[2], k) is FALSE and str(k) < str(x.a[2]):
                return APP("map.ins", minsert(x.a[1], k, v), x.a[2], x.a[3])
        if v.op == "app" and v.a[0] == "mval" and v.a[1] is x and v.a[2] is k:
            return x
        return APP("map.ins", x, k, v)
    return mapleaves(m, f)


def mdelete(m, k):
    def f(x):
        if x.op == "app" and x.a[0] == "map.empty":
            return x
        if x.op == "app" and x.a[0] == "map.lam":
            a, ph = opened(x)
            K = next(iter(ph), KTMP)
            return maplam(K, select(eqterm(K, k), NONE, a[2]))
        if x.op == "app" and x.a[0] == "map.ins":
            e = eqterm(x.a[2], k)
            if e is TRUE:
                return mdelete(x.a[1], k)
            if e is FALSE:
                return APP("map.ins", mdelete(x.a[1], k), x.a[2], x.a[3])
        return APP("map.del", x, k)
    return mapleaves(m, f)


def klevel(t):
    return height(t)


KTMP = mk("sym", "<K>", None)


def maplam(K, body):
    """canonical map defined pointwise; eta-contracts"""
    KK = mk("bv", height(body), "#K")
    if KK is not K:
        body = subst(body, {K: KK})
    if body is NONE:
        return EMPTYMAP
    # eta: body == mget(m, K)
    if body.op == "sw" and body.a[0].op == "bool":
        c = body.a[0].a[0]
        if c.op == "app" and c.a[0] == "min" and c.a[2] is KK and KK not in c.a[1].bvs:
            if body is mget(c.a[1], KK):
                return c.a[1]
    es = finitemap(KK, body)
    if es is not None:
        m = EMPTYMAP
        for k, v in es:
            m = minsert(m, k, v)
        return m
    return APP("map.lam", KK.a[0], body)


def finitemap(K, body):
    """[(key, value)] of the map that has body at K, if these are known names"""
    es = []
    while body is not NONE:
        if body.op != "sw":
            return None
        c = body.a[0]
        if c is K:
            for k, v in zip(body.a[1], body.a[2]):
                if k != "else":
                    es.append((STR(k), v))
            d = dict(zip(body.a[1], body.a[2]))
            body = d.get("else", NONE)
        elif c.op == "bool" and c.a[0].op == "app" and c.a[0].a[0] == "eq" and K in c.a[0].a[1:] and len(c.a[0].a) == 3:
            x = c.a[0].a[2] if c.a[0].a[1] is K else c.a[0].a[1]
            d = dict(zip(body.a[1], body.a[2]))
            if not isatom(x) or 0 not in d or 1 not in d:
                return None
            es.append((x, d[1]))
            body = d[0]
        else:
            return None
    r = []
    for k, v in es:
        if v is NONE:
            continue
        if v.op != "adt" or v.a[:2] != (OPTION, 1) or K in v.bvs:
            return None
        r.append((k, v.a[2]))
    return r


def as_lam(m):
    """(K, pointwise body) for any map term"""
    K = mk("bv", 1000 + klevel(m), "K")
    return K, mget(m, K)


# ------------------------------------------------------------------ lists
def lcat(*xs):
    out = []
    for x in xs:
        if x is BOT:
            return BOT
        if x.op == "app" and x.a[0] == "lcat":
            parts = x.a[1:]
        else:
            parts = (x,)
        for p in parts:
            if p.op == "arr" and not p.a:
                continue
            if out and out[-1].op == "arr" and p.op == "arr":
                out[-1] = mk("arr", *(out[-1].a + p.a))
            else:
                out.append(p)
    if not out:
        return NIL
    if len(out) == 1:
        return out[0]
    return APP("lcat", *out)


def lcatd(a, b):
    """concatenation distributed over diagrams"""
    return mapleaves(a, lambda x: mapleaves(b, lambda y: lcat(x, y)))


def length(v):
    def f(x):
        if x.op == "arr":
            return INT(len(x.a))
        if x.op == "str":
            return INT(len(x.a[0].encode()))
        if x.op == "bytes":
            return INT(len(x.a[0]))
        if x is EMPTYMAP:
            return INT(0)
        if x.op == "app" and x.a[0] == "map.ins":
            es = map_items(x)
            if es is not None:
                return INT(len(es))
        if x.op == "app" and x.a[0] == "lgen" and x.a[2].op == "arr" and len(x.a[2].a) == 1 and x.a[1].op == "app" and x.a[1].a[0] == "it:list":
            return length(x.a[1].a[1])       # one element for each
        return APP("len", x)
    return mapleaves(v, f)


def scat(*xs):
    out = []
    for x in xs:
        if x is BOT:
            return BOT
        parts = x.a[1:] if x.op == "app" and x.a[0] == "scat" else (x,)
        for p in parts:
            if p.op == "str" and p.a[0] == "":
                continue
            if out and out[-1].op == "str" and p.op == "str":
                out[-1] = STR(out[-1].a[0] + p.a[0])
            else:
                out.append(p)
    if not out:
        return STR("")
    if len(out) == 1:
        return out[0]
    return APP("scat", *out)


def scatd(a, b):
    return mapleaves(a, lambda x: mapleaves(b, lambda y: scat(x, y)))


def upper1(y):
    if y.op == "str":
        return STR(asup(y.a[0]))
    if y.op == "app" and y.a[0] == "scat":
        return scat(*[upper1(p) for p in y.a[1:]])
    return APP("upper", y.a[1] if y.op == "app" and y.a[0] in ("ci", "upper") else y)


def ci1(y):
    if y.op == "str":
        return STR(aslow(y.a[0]))
    if y.op == "app" and y.a[0] == "scat":
        return scat(*[ci1(p) for p in y.a[1:]])
    if y.op == "app" and y.a[0] == "ci":
        return y
    return APP("ci", y.a[1] if y.op == "app" and y.a[0] == "upper" else y)


REAPP = {
    "ovf:Sub": lambda x, y: INT(0) if x.op == y.op == "int" and 0 <= y.a[0] <= x.a[0] else APP("ovf:Sub", x, y),
    "mval": lambda m, k: unsome(mget(m, k)),
    "min": lambda m, k: is_some(mget(m, k)),
    "map.ins": lambda m, k, v: minsert(m, k, v),
    "map.del": lambda m, k: mdelete(m, k),
    "lcat": lambda *a: lcat(*a) if not any(x.op == "sw" for x in a) else _lc(a),
    "scat": lambda *a: scat(*a) if not any(x.op == "sw" for x in a) else _sc(a),
    "len": lambda x: length(x),
    "index": lambda x, i: index(x, i),
    "eq": lambda x, y: _uneq(eqterm(x, y)),
    "ci_eq": lambda x, y: _uneq(cieq(x, y)),
    "upper": lambda x: mapleaves(x, upper1),
    "ci": lambda x: mapleaves(x, ci1),
}


def _lc(a):
    r = NIL
    for x in a:
        r = lcatd(r, x)
    return r


def _sc(a):
    r = STR("")
    for x in a:
        r = scatd(r, x)
    return r


def _uneq(g):
    """a guard as the argument of `bool`: integer-leaf diagram"""
    return g


def _recon_app(*a):
    f = REAPP.get(a[0])
    if f is not None:
        return f(*a[1:])
    if a[0].startswith("display:") and a[0][8:] in INTS and a[0][8:] not in ("char", "bool") and a[1].op == "int":
        return STR(str(a[1].a[0]))
    if a[0].startswith("lt:"):
        return mapleaves(a[1], lambda x: mapleaves(a[2], lambda y: E.cmpterm("Lt", x, y, a[0][3:])))
    if a[0].startswith("arith:"):
        _, op, ts = a[0].split(":")
        return mapleaves(a[1], lambda x: mapleaves(a[2], lambda y: E.arith2(op, x, y, ts)))
    if a[0].startswith("icast:"):
        _, fs, ts = a[0].split(":")
        if fs in INTS and ts in INTS and fs not in ("char", "bool") and ts not in ("char", "bool"):
            return mapleaves(a[1], lambda x: INT(E.wrap(x.a[0], ts)) if x.op == "int" else E.icast(fs, ts, x))
    return mk("app", *a)


RECON["app"] = _recon_app


def _recon_bool(x, d):
    def f(y):
        if y.op == "int":
            return y
        # a diagram condition wrapped again
        return mk("bool", y, d)
    return mapleaves(x, f)


RECON["bool"] = _recon_bool


# ------------------------------------------------------------------ folds
def close(head, src, parts, lvl):
    """head(src, *parts) with the loop variables of level lvl bound"""
    h = max([height(p) for p in parts] + [height(src)])
    m = {}
    for p in parts:
        for b in p.bvs:
            if b.op == "bv" and b.a[0] == lvl and b.a[1][0] != "#":
                m[b] = mk("bv", h, "#" + b.a[1])
    if m:
        memo = {}
        parts = [subst(p, m, memo) for p in parts]
        h2 = max([height(p) for p in parts] + [height(src)])
        if h2 != h:
            parts = [subst(p, {mk("bv", h, b.a[1]): mk("bv", h2, b.a[1]) for b in m.values()}) for p in parts]
    return APP(head, src, *parts)


def _close(na, ph):
    """re-close an opened node: ph maps placeholders to bound names"""
    head = na[0]
    if head == "map.lam":
        return maplam(next(iter(ph), KTMP), na[2])
    src, parts = na[1], na[2:]
    if head == "folds":
        src, parts = na[1:3], na[3:]
    h = max(height(x) for x in na[1:] if type(x) is T)
    m = {p: mk("bv", h, n) for p, n in ph.items()}
    memo = {}
    rest = tuple(subst(x, m, memo) if type(x) is T and i >= 1 else x for i, x in enumerate(na[1:]))
    return lgenc(rest[0], rest[1]) if head == "lgen" else APP(head, *rest)


for _b in BINDERS:
    CLOSE[_b] = _close


def lgenc(src, body):
    """closed list comprehension, normalised"""
    if body is NIL:
        return NIL
    if body.op == "arr" and len(body.a) == 1 and body.a[0].op == "bv" and body.a[0].a[1] == "#e" \
            and src.op == "app" and src.a[0] == "it:list":
        return src.a[1]
    if src.op == "app" and src.a[0] == "it:list":
        l = src.a[1]
        e = [b for b in body.bvs if b.op == "bv" and b.a[1] == "#e"]
        top_ = APP("lgen", src, body)
        if l.op == "arr" or (l.op == "app" and l.a[0] == "lcat"):
            a, ph = opened(top_)
            ev = [p for p, n in ph.items() if n == "#e"]
            def inst(x):
                if x.op == "arr":
                    return lcat(*[subst(a[2], {ev[0]: y}) if ev else a[2] for y in x.a]) if not any(
                        (subst(a[2], {ev[0]: y}) if ev else a[2]).op == "sw" for y in x.a) else _lc(
                        [subst(a[2], {ev[0]: y}) if ev else a[2] for y in x.a])
                if x.op == "app" and x.a[0] == "lcat":
                    return _lc([inst(y) for y in x.a[1:]])
                return lgenc(it_list(x), body)
            return inst(l)
        if l.op == "sw":
            return mapleaves(l, lambda x: lgenc(it_list(x), body))
    return APP("lgen", src, body)


def lgen(src, body, lvl):
    """list of `body` (a list term in the element variable) for each element of src"""
    if body is NIL:
        return NIL
    t = close("lgen", src, [body], lvl)
    return lgenc(t.a[1], t.a[2])


def fold1(eng, src, init, step, lvl):
    return foldn(eng, src, [init], [step], lvl)


def foldn(eng, src, inits, steps, lvl, which=0):
    accs = [mk("bv", lvl, f"a{i}") for i in range(len(inits))]
    a0 = accs[which]
    step, init = steps[which], inits[which]
    if step is a0:
        return init
    if len(accs) == 1:
        r = listfold(src, init, step, a0)
        if r is not None:
            return r
    m = mapsrc(src)
    if m is not None:
        kv = mk("bv", lvl, "k")
        if all(pointwise_ok(s, accs, kv) for s in steps):
            n = max([klevel(t) for t in list(inits) + list(steps) + [m]])
            K = mk("bv", 1000 + lvl * 100 + n, "K")
            inm = is_some(mget(m, K))
            sub = {a: i for a, i in zip(accs, inits)}
            sub[kv] = K
            FACTS.append((m, K))
            try:
                s = mget(subst(step, sub), K)
            finally:
                FACTS.pop()
            s = select(inm, s, mget(init, K))
            # conditions on presence inside the step are decided by the outer guard
            return maplam(K, simp_guarded(s))
    if len(accs) == 1:
        return close("fold", src, [init, step], lvl)
    return close("folds", TUP(INT(which), src), [TUP(*inits), TUP(*steps)], lvl)


def simp_guarded(t):
    """simplify every leaf under the guard of its own position"""
    def go(x, g):
        if x.op == "sw":
            return mksw_ord(x.a[0], [(k, go(y, gand(g, gate_in(x.a[0], k, x.a[1])))) for k, y in zip(x.a[1], x.a[2])])
        return cofactor(x, g)
    return go(t, TRUE)


def mapsrc(src):
    if src.op == "app" and src.a[0] == "it:map":
        return src.a[1]
    return None


def pointwise_ok(step, accs, k):
    """every use of an accumulator touches key k only"""
    S = set(accs)
    ok = True
    seen = set()

    def spine(x):
        # a map expression at accumulator position
        nonlocal ok
        if x in S or x is EMPTYMAP and False:
            return
        if x.op == "sw":
            cond(x.a[0])
            for y in x.a[2]:
                if y is not BOT:
                    spine(y)
            return
        if x.op == "app" and x.a[0] in ("map.ins", "map.del") and x.a[2] is k:
            spine(x.a[1])
            for y in x.a[3:]:
                cond(y)
            return
        ok = False

    def cond(x):
        nonlocal ok
        if x in seen or not (x.bvs & S):
            return
        seen.add(x)
        if x in S:
            ok = False
            return
        if x.op == "app" and x.a[0] in ("mval", "min") and x.a[2] is k:
            if x.a[1] in S:
                return
            spine(x.a[1])
            return
        for y in x.a:
            if type(y) is T:
                cond(y)
            elif type(y) is tuple:
                for z in y:
                    if type(z) is T:
                        cond(z)
    spine(step)
    return ok


def listfold(src, init, step, a0):
    """step appends to the accumulator"""
    def rem(x):
        if x is a0:
            return NIL
        if x.op == "app" and x.a[0] == "lcat" and x.a[1] is a0:
            return lcat(*x.a[2:])
        return None
    bad = False

    def f(x):
        nonlocal bad
        r = rem(x)
        if r is None or a0 in r.bvs:
            bad = True
            return NIL
        return r
    c = step
    for x in conds_of(step):
        if a0 in x.bvs:
            return None
    body = mapleaves(step, f)
    if not bad:
        return lcatd(init, lgen(src, body, a0.a[0]))
    # strings
    bad = False

    def rems(x):
        nonlocal bad
        if x is a0:
            return STR("")
        if x.op == "app" and x.a[0] == "scat" and x.a[1] is a0:
            r = scat(*x.a[2:])
            if a0 not in r.bvs:
                return r
        bad = True
        return STR("")
    body = mapleaves(step, rems)
    if not bad:
        return scatd(init, close("sgen", src, [body], a0.a[0]))
    return None


def conds_of(t):
    if t.op == "sw":
        yield t.a[0]
        for x in t.a[2]:
            yield from conds_of(x)


# ------------------------------------------------------------------ iterators
def it_list(x): return APP("it:list", x)
def it_map(x): return APP("it:map", x)


def kindof(eng, tid):
    """(kind, mutable, typeid) of a collection type"""
    mut = False
    t = eng.F.types[tid]
    while t["k"] in ("ref", "ptr") or (t["k"] == "adt" and t["adt"] == "std::boxed::Box"):
        if t["k"] != "adt":
            mut = bool(t.get("mut"))
            tid = t["of"]
        else:
            tid = t["args"][0]
        t = eng.F.types[tid]
    if t["k"] in ("slice", "array"):
        return "list", mut, tid
    if t["k"] == "adt":
        a = t["adt"]
        if a in BMAP:
            return "map", mut, tid
        if a in BSET:
            return "set", mut, tid
        if a in ("std::vec::Vec", "std::collections::VecDeque"):
            return "list", mut, tid
        if a == OPTION:
            return "opt", mut, tid
        if a == RESULT:
            return "res", mut, tid
        return "it", mut, tid
    return "it", mut, tid


def selfty(eng, call, i=0):
    at = call.argtys()
    if at and i < len(at):
        return at[i]
    g = call.gargs()
    if g and call.fn.get("trait"):
        return g[0]
    return None


def into_iter_val(eng, st, v, tid):
    kind, mut, _ = kindof(eng, tid) if tid is not None else ("it", False, None)
    if kind == "it":
        if tid is None:
            x = eng.deref(st, v)
            if x.op == "adt" and x.a[0] == OPTION:
                return APP("it:opt", x)
            if x.op == "arr" or x.op == "app" and x.a[0] == "lcat":
                return it_list(x)
        return v
    if mut and hasm(v):
        return APP("it:mut:" + kind, v)
    v = eng.deref(st, v)
    if kind == "res":
        v = mapleaves(v, lambda x: select(eng.isvar(x, 0), SOME(proj(x, RESULT, 0, 0)), NONE))
        kind = "opt"
    if kind == "set":
        return APP("it:keys", it_map(v))
    return APP("it:" + kind, v)


def hasm(v):
    return v.op == "mref" or (v.op == "sw" and any(x.op == "mref" for _, x in gleaves(v)))


def unmut(eng, st, it):
    """an iterator over a collection behind a reference, by value"""
    if it.op == "app" and it.a[0].startswith("it:mut:"):
        v = eng.deref(st, it.a[1])
        k = it.a[0][7:]
        if k == "vals":
            return APP("it:vals", it_map(v))
        return APP("it:" + k, v)
    return it


def pumpstep(eng, st, it):
    """(next item as an option, iterator afterwards, state) of an iterator that calls a closure"""
    if it.a[0] == "it:fn":
        v, st = eng.call_closure(st, it.a[1], [])
        return v, it, st
    cur = it.a[1]
    s1, s0 = narrow(st, is_some(cur)), narrow(st, gnot(is_some(cur)))
    if s1 is None:
        return cur, it, s0
    s1 = s1.copy()
    l = eng.newloc(s1, cofactor(unsome(cur), s1.g))
    nxt, s1 = eng.call_closure(s1, it.a[2], [mk("mref", l, ())])
    if s1 is None:
        raise E.Unsupported("computing a successor panics")
    return cur, APP("it:succ", select(is_some(cur), nxt, NONE), it.a[2]), merge([s1, s0])


def pump(eng, st, it, body):
    """an iterator that calls a closure for each element: as many as there are, if that is bounded"""
    outs, exits = [], {}
    for _ in range(64):
        v, it, st = pumpstep(eng, st, it)
        if st is None:
            return merge(outs), exits
        g = is_some(v)
        s1, s0 = narrow(st, g), narrow(st, gnot(g))
        if s0 is not None:
            outs.append(s0)
        if s1 is None:
            return merge(outs), exits
        st, e = body(s1, cofactor(unsome(v), s1.g))
        addex(exits, e)
        if st is None:
            return merge(outs), exits
    raise E.Unsupported("a computed sequence without a bound")


def iterate(eng, st, it, body, rev=False):
    """run `body(state, elem) -> (back state, exits)` for each element"""
    if it.op == "mref":
        it = eng.deref(st, it)
    if it.op == "sw":
        outs, exits = [], {}
        for g, x in gleaves(it):
            if x is BOT:
                continue
            ns = narrow(st, g)
            if ns is None:
                continue
            s, e = iterate(eng, ns, x, body)
            outs.append(s)
            addex(exits, e)
        return merge(outs), exits
    n = it.a[0] if it.op == "app" else None
    if n == "it:list":
        v = it.a[1]
        if v.op == "sw":
            return iterate(eng, st, mapleaves(v, it_list), body)
        parts = v.a[1:] if v.op == "app" and v.a[0] == "lcat" else (v,)
        if len(parts) > 1:
            return iterseq(eng, st, [it_list(p) for p in parts], body)
        if v.op == "arr":
            return unroll(eng, st, v.a, body)
        if v.op == "app" and v.a[0] == "lgen":
            # deforest: list generated from another source
            src, b = v.a[1], v.a[2]
            return itergen(eng, st, src, b, body)
        return core(eng, st, it, body, lambda lvl, s: mk("bv", lvl, "e"))
    if n == "it:map":
        m = it.a[1]
        if m.op == "sw":
            return iterate(eng, st, mapleaves(m, it_map), body)
        if m is EMPTYMAP:
            return st, {}
        es = map_items(m) if m.op == "app" else None
        if es is not None and all(isname(e.a[0]) for e in es):
            return unroll(eng, st, es, body)

        def mkel(lvl, s):
            k = mk("bv", lvl, "k")
            FACTS.append((m, k))
            v = simp_guarded(mget(m, k))
            return TUP(k, unsome(v))
        return core(eng, st, it, body, mkel, unfact=True)
    if n in ("it:fn", "it:succ"):
        return pump(eng, st, it, body)
    if n in ("it:opt",):
        v = it.a[1]
        g = is_some(v)
        s1 = narrow(st, g)
        s0 = narrow(st, gnot(g))
        ex = {}
        if s1 is not None:
            b, ex = body(s1, cofactor(unsome(v), s1.g))
            return merge([b, s0]), ex
        return s0, {}
    if n == "it:keys":
        return iterate(eng, st, it.a[1], lambda s, e: body(s, proj(e, "tuple", 0, 0)))
    if n == "it:vals":
        return iterate(eng, st, it.a[1], lambda s, e: body(s, proj(e, "tuple", 0, 1)))
    if n == "it:once":
        return body(st, it.a[1])
    if n == "it:empty":
        return st, {}
    if n == "it:chain":
        return iterseq(eng, st, [it.a[1], it.a[2]], body)
    if n == "it:map_":
        def b(s, e):
            v, s2 = eng.call_closure(s, it.a[2], [e])
            if s2 is None:
                return None, {}
            return body(s2, v)
        return iterate(eng, st, it.a[1], b)
    if n == "it:filter":
        def b(s, e):
            g, s2 = eng.call_closure(s, it.a[2], [e])
            if s2 is None:
                return None, {}
            g = asbool(g)
            s1 = narrow(s2, g)
            s0 = narrow(s2, gnot(g))
            if s1 is None:
                return s0, {}
            bk, ex = body(s1, cofactor(e, g))
            return merge([bk, s0]), ex
        return iterate(eng, st, it.a[1], b)
    if n == "it:fmap":
        def b(s, e):
            v, s2 = eng.call_closure(s, it.a[2], [e])
            if s2 is None:
                return None, {}
            g = is_some(v)
            s1 = narrow(s2, g)
            s0 = narrow(s2, gnot(g))
            if s1 is None:
                return s0, {}
            bk, ex = body(s1, cofactor(unsome(v), s1.g))
            return merge([bk, s0]), ex
        return iterate(eng, st, it.a[1], b)
    if n in ("it:takewhile", "it:mapwhile"):
        lab = ("stop", it.id)

        def b(s, e):
            v, s2 = eng.call_closure(s, it.a[2], [e])
            if s2 is None:
                return None, {}
            g = asbool(v) if n == "it:takewhile" else is_some(v)
            s1, s0 = narrow(s2, g), narrow(s2, gnot(g))
            ex = {}
            if s1 is not None:
                s1, ex = body(s1, cofactor(e if n == "it:takewhile" else unsome(v), s1.g))
            if s0 is not None:
                ex = dict(ex)
                addex(ex, {lab: s0})
            return s1, ex
        s, ex = iterate(eng, st, it.a[1], b)
        s0 = ex.pop(lab, None)
        return merge([x for x in (s, s0) if x is not None]), ex
    if n == "it:skipwhile":
        st = st.copy()
        loc = eng.newloc(st, TRUE)

        def b(s, e):
            skipping = asbool(s.mem[loc])
            s1, s0 = narrow(s, skipping), narrow(s, gnot(skipping))
            outs, exits = [], {}
            if s1 is not None:
                g, s2 = eng.call_closure(s1, it.a[2], [e])
                if s2 is not None:
                    g = asbool(g)
                    a, c = narrow(s2, g), narrow(s2, gnot(g))
                    if a is not None:
                        outs.append(a)
                    if c is not None:
                        c = c.copy()
                        c.mem[loc] = FALSE
                        c, ex = body(c, cofactor(e, c.g))
                        outs.append(c)
                        addex(exits, ex)
            if s0 is not None:
                s0, ex = body(s0, cofactor(e, s0.g))
                outs.append(s0)
                addex(exits, ex)
            return merge([x for x in outs if x is not None]), exits
        s, ex = iterate(eng, st, it.a[1], b)
        for x in [s] + list(ex.values()):
            if x is not None:
                x.mem.pop(loc, None)
        return s, ex
    if n in ("it:skip", "it:take"):
        st = st.copy()
        loc = eng.newloc(st, INT(0))
        lab = ("stop", it.id)

        def b(s, e):
            i = s.mem[loc]
            g = E.cmpterm("Lt", i, it.a[2], "usize")
            s1, s0 = narrow(s, g), narrow(s, gnot(g))
            outs, exits = [], {}
            for x, inside in ((s1, n == "it:take"), (s0, n == "it:skip")):
                if x is None:
                    continue
                if not inside and n == "it:take":
                    addex(exits, {lab: x})
                    continue
                x = x.copy()
                x.mem[loc] = E.arith2("Add", i, INT(1), "usize") if n == "it:take" or not inside else i
                if inside:
                    x, ex = body(x, e)
                    addex(exits, ex)
                outs.append(x)
            return merge([x for x in outs if x is not None]), exits
        s, ex = iterate(eng, st, it.a[1], b)
        s0 = ex.pop(lab, None)
        s = merge([x for x in (s, s0) if x is not None])
        for x in [s] + list(ex.values()):
            if x is not None:
                x.mem.pop(loc, None)
        return s, ex
    if n == "it:flatmap":
        def b(s, e):
            v, s2 = eng.call_closure(s, it.a[2], [e])
            if s2 is None:
                return None, {}
            return iterate(eng, s2, into_iter_val(eng, s2, v, clo_ret(eng, it.a[2])), body)
        return iterate(eng, st, it.a[1], b)
    if n == "it:flatten":
        def b(s, e):
            tid = int(it.a[2].a[0]) if len(it.a) > 2 and it.a[2].op == "lit" else None
            return iterate(eng, s, into_iter_val(eng, s, e, tid), body)
        return iterate(eng, st, it.a[1], b)
    if n == "it:inspect":
        def b(s, e):
            v, s2 = eng.call_closure(s, it.a[2], [e])
            return (None, {}) if s2 is None else body(s2, e)
        return iterate(eng, st, it.a[1], b)
    if n == "it:enum":
        # the position is an accumulator of its own
        st = st.copy()
        loc = eng.newloc(st, it.a[2] if len(it.a) > 2 else INT(0))

        def b(s, e):
            i = s.mem[loc]
            s = s.copy()
            s.mem[loc] = E.arith("Add", i, INT(1), "usize") if i.op != "int" else INT(i.a[0] + 1)
            return body(s, TUP(i, e))
        s, ex = iterate(eng, st, it.a[1], b)
        return s, ex
    if n == "it:zip":
        a, b2 = it.a[1], it.a[2]
        if b2.op == "app" and b2.a[0] == "it:repeat":
            return iterate(eng, st, a, lambda s, e: body(s, TUP(e, b2.a[1])))
        if a.op == "app" and a.a[0] == "it:repeat":
            return iterate(eng, st, b2, lambda s, e: body(s, TUP(a.a[1], e)))
        if finite(it):
            # pair by pair
            exits, cur = {}, it
            while st is not None:
                r = it_step(eng, st, cur, None)
                if r is None:
                    break
                v, cur, st = r
                if v is NONE:
                    return st, exits
                st, ex = body(st, v.a[2])
                addex(exits, ex)
            if cur is not it:
                if st is None:
                    return st, exits
                st, ex = core(eng, st, cur, body, lambda lvl, s: TUP(mk("bv", lvl, "e"), mk("bv", lvl, "e2")))
                addex(exits, ex)
                return st, exits
        return core(eng, st, it, body, lambda lvl, s: TUP(mk("bv", lvl, "e"), mk("bv", lvl, "e2")))
    if n == "it:rev":
        inner = it.a[1]
        if inner.op == "app" and inner.a[0] == "it:list" and inner.a[1].op == "arr":
            return unroll(eng, st, inner.a[1].a[::-1], body)
        if inner.op == "app" and inner.a[0] in ("it:map_", "it:filter", "it:fmap"):
            return iterate(eng, st, mk("app", inner.a[0], APP("it:rev", inner.a[1]), inner.a[2]), body)
        if inner.op == "app" and inner.a[0] == "it:rev":
            return iterate(eng, st, inner.a[1], body)
        return core(eng, st, it, body, lambda lvl, s: mk("bv", lvl, "e"))
    if n is not None and n.startswith("it:mut:"):
        return itermut(eng, st, it, body)
    if n == "it:twhile":
        # take_while: leaves the loop early; modelled as a source of its own when opaque
        pass
    if it.op == "adt" and it.a[0] == OPTION:
        return iterate(eng, st, APP("it:opt", it), body)
    if it.op == "adt" and it.a[0] == "std::ops::Range":
        r = iterrange(eng, st, it.a[2], it.a[3], body)
        if r is not None:
            return r
        return core(eng, st, APP("it:range", *it.a[2:]), body, lambda lvl, s: mk("bv", lvl, "e"))
    return core(eng, st, it, body, lambda lvl, s: mk("bv", lvl, "e"))


def addex(a, b):
    for k, v in b.items():
        a[k] = merge([a.get(k), v]) if a.get(k) is not None else v


def iterseq(eng, st, its, body):
    exits = {}
    for x in its:
        if st is None:
            break
        st, e = iterate(eng, st, x, body)
        addex(exits, e)
    return st, exits


def unroll(eng, st, elems, body):
    exits = {}
    for e in elems:
        if st is None:
            break
        g = st.g
        st, ex = body(st, e)
        addex(exits, ex)
    return st, exits


def itergen(eng, st, src, b, body):
    """iterate over a generated list: iterate over its source"""
    if b.op == "arr" and len(b.a) == 1:
        a, ph = opened(APP("lgen", src, b))

        def one(s, e):
            sub = {}
            for x, n in ph.items():
                if n == "#e":
                    sub[x] = e
                elif n == "#k":
                    sub[x] = proj(e, "tuple", 0, 0)
                elif n == "#v":
                    sub[x] = proj(e, "tuple", 0, 1)
                else:
                    raise Unsupported("list comprehension variable " + n)
            return body(s, subst(a[2].a[0], sub))
        return iterate(eng, st, src, one)
    return core(eng, st, it_list(APP("lgen", src, b)), body, lambda lvl, s: mk("bv", lvl, "e"))


def core(eng, st, src, body, mkel, unfact=False):
    n = len(FACTS)

    def mkelem(lvl, s):
        del FACTS[n:]
        return mkel(lvl, s), None
    try:
        return eng.loop_core(st, src, body, mkelem)
    finally:
        del FACTS[n:]


def probing(eng, st, X, body):
    """how the body of a loop over positions uses the list: None, "value", or the reference it indexes"""
    rec = []
    save = eng.lvl, list(eng.ctxs), list(eng.panics), len(E.IDX)
    pos = SYM("~pos")
    E.IDX.append((pos, X, SYM("~elem"), rec))
    try:
        body(st.copy(), pos)
    except E.Unsupported:
        pass
    finally:
        eng.lvl, eng.ctxs[:], eng.panics[:] = save[0], save[1], save[2]
        del E.IDX[save[3]:]
    refs = {x for x in rec if x != "value"}
    if not rec:
        return None
    if len(refs) > 1:
        raise E.Unsupported("a loop over positions indexes several lists")
    return refs.pop() if refs else "value"


def iterrange(eng, st, lo, hi, body):
    """a loop over positions: the elements at known positions, or each element of the list indexed"""
    if lo.op == "int" and hi.op == "int" and hi.a[0] - lo.a[0] <= 32:
        return unroll(eng, st, [INT(i) for i in range(lo.a[0], hi.a[0])], body)
    if not (lo.op == "int" and lo.a[0] == 0 and hi.op == "app" and hi.a[0] == "len"):
        return None
    X = hi.a[1]
    how = probing(eng, st, X, body)
    if how is None:
        return None
    if how == "value":
        def b(s, e):
            pos = APP("position", e)
            E.IDX.append((pos, X, e, None))
            try:
                return body(s, pos)
            finally:
                E.IDX.pop()
        return iterate(eng, st, it_list(X), b)
    ref = mk("mref", *how)
    if eng.deref(st, ref) is not X:
        raise E.Unsupported("a loop over the positions of another list")
    st = st.copy()
    loc = ("o", "elem", eng.lvl, eng.nloc)
    eng.nloc += 1
    acc = eng.newloc(st, NIL)

    def b(s, e):
        s = s.copy()
        s.mem[loc] = e
        pos = APP("position", e)
        E.IDX.append((pos, X, mk("mref", loc, ()), how))
        try:
            bk, ex = body(s, pos)
        finally:
            E.IDX.pop()
        if bk is not None:
            v = bk.mem.get(loc)
            bk = bk.copy()
            bk.mem.pop(loc, None)
            new = bk.mem[acc]
            bk.mem[acc] = lcatd(new, mk("arr", v)) if v.op != "sw" else mapleaves(new, lambda x: lcat(x, mk("arr", v)))
        if any(x is not None for x in ex.values()):
            raise E.Unsupported("early exit from a mutating loop")
        return bk, ex
    send, exits = iterate(eng, st, it_list(X), b)
    if send is not None:
        eng.assign(send, ref, send.mem.pop(acc))
    return send, exits


def itermut(eng, st, it, body):
    """iteration with mutable element references"""
    kind = it.a[0][7:]
    ref = it.a[1]
    cur = eng.deref(st, ref)
    if kind == "opt":
        g = is_some(cur)
        s1, s0 = narrow(st, g), narrow(st, gnot(g))
        if s1 is None:
            return s0, {}
        el = mapleaves(ref, lambda r: mk("mref", r.a[0], r.a[1] + (("f", OPTION, 1, 0, None),)))
        b, ex = body(s1, el)
        return merge([b, s0]), ex
    if kind == "list" and cur.op == "arr" and ref.op == "mref":
        exits = {}
        for i in range(len(cur.a)):
            if st is None:
                break
            st, ex = body(st, mk("mref", ref.a[0], ref.a[1] + (("ci", i, False),)))
            addex(exits, ex)
        return st, exits
    st = st.copy()
    loc = ("o", "elem", eng.lvl, eng.nloc)
    eng.nloc += 1
    src = it_list(cur) if kind == "list" else it_map(cur)
    res = {}

    def b(s, e):
        s = s.copy()
        v = e if kind == "list" else proj(e, "tuple", 0, 1)
        s.mem[loc] = v
        r = mk("mref", loc, ())
        el = r if kind in ("list", "vals") else TUP(proj(e, "tuple", 0, 0), r)
        bk, ex = body(s, el)
        if bk is not None:
            res["v"] = bk.mem.get(loc)
            bk = bk.copy()
            bk.mem.pop(loc, None)
            # record the new element by rebuilding the collection
            new = bk.mem[acc]
            if kind == "list":
                bk.mem[acc] = lcatd(new, mk("arr", res["v"])) if res["v"].op != "sw" else mapleaves(new, lambda x: lcat(x, mk("arr", res["v"])))
            else:
                bk.mem[acc] = minsert(new, proj(e, "tuple", 0, 0), res["v"])
        for x in ex.values():
            if x is not None:
                x.mem.pop(loc, None)
        return bk, ex
    acc = eng.newloc(st, NIL if kind == "list" else cur)
    send, exits = iterate(eng, st, src, b)
    if send is not None:
        v = send.mem.pop(acc)
        eng.assign(send, ref, v)
    if exits:
        raise Unsupported("early exit from a mutating loop")
    return send, exits


def clo_ret(eng, f):
    if f.op == "clo":
        b = eng.F.bodies.get(f.a[0])
        if b is not None:
            return b["locals"][0]
    if f.op == "fn":
        k = f.a[0].d.get("key")
        if k and k in eng.F.bodies:
            return eng.F.bodies[k]["locals"][0]
    return None


# ------------------------------------------------------------------ consumers
def consume(eng, st, it, init, step):
    """fold with a private accumulator location: step(s, loc, elem) -> (back, exits)"""
    st = st.copy()
    loc = eng.newloc(st, init)
    send, ex = iterate(eng, st, it, lambda s, e: step(s, loc, e))
    return loc, send, ex


def collect(eng, st, it, tid, call):
    kind, _, t = kindof(eng, tid) if tid is not None else ("?", None, None)
    ty = eng.F.types[t] if t is not None else None
    if kind == "map":
        def step(s, loc, e):
            s = s.copy()
            s.mem[loc] = minsert(s.mem[loc], proj(e, "tuple", 0, 0), proj(e, "tuple", 0, 1))
            return s, {}
        loc, send, ex = consume(eng, st, it, EMPTYMAP, step)
    elif kind == "set":
        def step(s, loc, e):
            s = s.copy()
            s.mem[loc] = minsert(s.mem[loc], e, UNIT)
            return s, {}
        loc, send, ex = consume(eng, st, it, EMPTYMAP, step)
    elif kind == "list":
        def step(s, loc, e):
            s = s.copy()
            s.mem[loc] = mapleaves(s.mem[loc], lambda x: lcat(x, mk("arr", e)))
            return s, {}
        loc, send, ex = consume(eng, st, it, NIL, step)
    elif kind in ("res", "opt"):
        good = ty["args"][0]
        okv = 0 if kind == "res" else 1
        gk, _, gt = kindof(eng, good)
        path = RESULT if kind == "res" else OPTION

        def step(s, loc, e):
            s = s.copy()
            g = eng.isvar(e, okv)
            s1, s0 = narrow(s, g), narrow(s, gnot(g))
            ex = {}
            if s0 is not None:
                s0 = s0.copy()
                s0.mem[loc] = cofactor(ERR(proj(e, RESULT, 1, 0)) if kind == "res" else NONE, s0.g)
                ex = {"stop": s0}
            if s1 is None:
                return None, ex
            s1 = s1.copy()
            v = cofactor(proj(e, path, okv, 0), g)
            if gk == "map":
                s1.mem[loc] = minsert(s1.mem[loc], proj(v, "tuple", 0, 0), proj(v, "tuple", 0, 1))
            elif gk == "list":
                s1.mem[loc] = mapleaves(s1.mem[loc], lambda x: lcat(x, mk("arr", v)))
            else:
                s1.mem[loc] = APP("collect", s1.mem[loc], v)
            return s1, ex
        loc, send, ex = consume(eng, st, it, EMPTYMAP if gk == "map" else NIL, step)
        if send is not None:
            send.mem[loc] = mk("adt", path, okv, send.mem[loc])
    elif ty is not None and ty["k"] == "adt" and ty["adt"] in ("std::string::String", "std::path::PathBuf"):
        nm = "scat" if "String" in ty["adt"] else "pathpush"

        def step(s, loc, e):
            s = s.copy()
            s.mem[loc] = scatd(s.mem[loc], e) if nm == "scat" else APP(nm, s.mem[loc], e)
            return s, {}
        loc, send, ex = consume(eng, st, it, STR(""), step)
    else:
        return None
    s = merge([send] + list(ex.values()))
    if s is None:
        return BOT, None
    v = s.mem.pop(loc)
    return v, s


def fold_method(eng, st, it, name, args, call):
    """consuming iterator methods"""
    if name == "for_each":
        def b(s, e):
            v, s2 = eng.call_closure(s, args[1], [e])
            return s2, {}
        s, ex = iterate(eng, st, it, b)
        return (UNIT, s) if s is not None else (BOT, None)
    if name == "fold":
        def b(s, loc, e):
            v, s2 = eng.call_closure(s, args[2], [s.mem[loc], e])
            if s2 is None:
                return None, {}
            s2 = s2.copy()
            s2.mem[loc] = v
            return s2, {}
        loc, s, ex = consume(eng, st, it, args[1], b)
        if s is None:
            return BOT, None
        return s.mem.pop(loc), s
    if name in ("try_fold", "try_for_each"):
        tid = call.retty()
        if tid is None:
            return None
        kind, _, _ = kindof(eng, tid)
        if kind not in ("res", "opt"):
            return None
        okv = 0 if kind == "res" else 1
        path = RESULT if kind == "res" else OPTION
        f = args[2] if name == "try_fold" else args[1]

        def b(s, loc, e):
            v, s2 = eng.call_closure(s, f, ([s.mem[loc]] if name == "try_fold" else []) + [e])
            if s2 is None:
                return None, {}
            g = eng.isvar(v, okv)
            s1, s0 = narrow(s2, g), narrow(s2, gnot(g))
            ex = {}
            if s0 is not None:
                s0 = s0.copy()
                s0.mem[loc] = cofactor(ERR(proj(v, RESULT, 1, 0)) if kind == "res" else NONE, s0.g)
                ex = {"stop": s0}
            if s1 is None:
                return None, ex
            s1 = s1.copy()
            s1.mem[loc] = cofactor(proj(v, path, okv, 0), s1.g)
            return s1, ex
        loc, s, ex = consume(eng, st, it, args[1] if name == "try_fold" else UNIT, b)
        if s is not None:
            s.mem[loc] = mk("adt", path, okv, s.mem[loc])
        s = merge([s] + list(ex.values()))
        if s is None:
            return BOT, None
        return s.mem.pop(loc), s
    if name in ("any", "all"):
        want = TRUE if name == "any" else FALSE

        def b(s, e):
            v, s2 = eng.call_closure(s, args[1], [e])
            if s2 is None:
                return None, {}
            v = asbool(v)
            hit = v if name == "any" else gnot(v)
            s1, s0 = narrow(s2, hit), narrow(s2, gnot(hit))
            return s0, ({"hit": s1} if s1 is not None else {})
        s, ex = iterate(eng, st, it, b)
        outs = []
        if s is not None:
            outs.append((gnot(want), s))
        if ex.get("hit") is not None:
            outs.append((want, ex["hit"]))
        return eng.joinv(outs)
    if name in ("find", "find_map", "position"):
        st = st.copy()
        out = eng.newloc(st, NONE)
        cnt = eng.newloc(st, INT(0)) if name == "position" else None

        def b(s, e):
            v, s2 = eng.call_closure(s, args[1], [e])
            if s2 is None:
                return None, {}
            hit = is_some(v) if name == "find_map" else asbool(v)
            s1, s0 = narrow(s2, hit), narrow(s2, gnot(hit))
            if s1 is not None:
                s1 = s1.copy()
                s1.mem[out] = cofactor(v, s1.g) if name == "find_map" else SOME(e if name == "find" else s1.mem[cnt])
            if cnt is not None and s0 is not None:
                s0 = s0.copy()
                s0.mem[cnt] = E.arith("Add", s0.mem[cnt], INT(1), "usize")
            return s0, ({"hit": s1} if s1 is not None else {})
        s, ex = iterate(eng, st, it, b)
        outs = [x for x in (s, ex.get("hit")) if x is not None]
        m = merge(outs)
        if m is None:
            return BOT, None
        return m.mem.pop(out), m
    if name in ("count", "sum", "last", "max", "min", "product"):
        def b(s, loc, e):
            s = s.copy()
            a = s.mem[loc]
            s.mem[loc] = (INT(a.a[0] + 1) if a.op == "int" else E.arith("Add", a, INT(1), "usize")) if name == "count" \
                else E.arith2("Add", a, e, "usize") if name == "sum" else SOME(e) if name == "last" else APP(name, a, e)
            return s, {}
        init = INT(0) if name in ("count", "sum") else NONE
        loc, s, ex = consume(eng, st, it, init, b)
        if s is None:
            return BOT, None
        return s.mem.pop(loc), s
    return None


# ------------------------------------------------------------------ helpers for models
def D(eng, st, v):
    return eng.deref(st, v)


def ident(eng, args, st, call):
    v = args[0]
    return D(eng, st, v), st


def const(v):
    return lambda eng, args, st, call: (v, st)


def pure(name, boolean=False):
    def m(eng, args, st, call):
        r = APP(name, *[D(eng, st, a) for a in args])
        return (asbool(r) if boolean else r), st
    return m


def event(name, ret=None):
    def m(eng, args, st, call):
        st = st.copy()
        vals = [D(eng, st, a) for a in args]
        eng.log(st, APP(name, *vals))
        if ret is not None:
            return ret, st
        n = sum(1 for _ in logitems(st.mem[LOG]))
        return APP(name + ".ret", INT(n), *vals), st
    return m


def logitems(l):
    while l is not None and l.op == "log":
        yield l.a[1]
        l = l.a[0]


def newmap(eng, args, st, call):
    return EMPTYMAP, st


def m_get(eng, args, st, call):
    return mget(D(eng, st, args[0]), D(eng, st, args[1])), st


def m_contains(eng, args, st, call):
    return is_some(mget(D(eng, st, args[0]), D(eng, st, args[1]))), st


def m_get_mut(eng, args, st, call):
    k = D(eng, st, args[1])
    r = D(eng, st, args[0])
    g = is_some(mget(r, k))
    ref = mapleaves(args[0], lambda x: mk("mref", x.a[0], x.a[1] + (("at", k),)) if x.op == "mref" else mget_val(x, k))
    return select(g, SOME(ref), NONE), st


def setmap(eng, st, ref, f):
    st = st.copy()
    eng.assign(st, ref, f(D(eng, st, ref)))
    return st


def m_insert(eng, args, st, call):
    k = args[1]
    old = mget(D(eng, st, args[0]), k)
    return old, setmap(eng, st, args[0], lambda m: minsert(m, k, args[2]))


def m_remove(eng, args, st, call):
    k = D(eng, st, args[1])
    old = mget(D(eng, st, args[0]), k)
    return old, setmap(eng, st, args[0], lambda m: mdelete(m, k))


ENTRY = {"std::collections::BTreeMap": ("std::collections::btree_map::Entry", 1), "std::collections::HashMap": ("std::collections::hash_map::Entry", 0)}


def m_entry(kind):
    """the place of a key in a map: occupied or vacant"""
    p, occ = ENTRY[kind]

    def f(eng, args, st, call):
        e = APP("entry", args[0], args[1])
        if args[0].op != "mref":
            return e, st
        g = is_some(mget(D(eng, st, args[0]), D(eng, st, args[1])))
        return select(g, mk("adt", p, occ, e), mk("adt", p, 1 - occ, e)), st
    return f


def entry_parts(eng, st, e):
    e = D(eng, st, e)
    while e.op == "sw":
        e = e.a[2][0]
    if e.op == "adt" and e.a[0].endswith("_map::Entry"):
        e = e.a[2]
    if e.op != "app" or e.a[0] != "entry":
        return None
    return e.a[1], e.a[2]


def entry_op(name):
    """methods of an entry known to be occupied or vacant"""
    def f(eng, args, st, call):
        p = entry_parts(eng, st, args[0])
        if p is None or p[0].op != "mref":
            return None
        ref, k = p
        at = mk("mref", ref.a[0], ref.a[1] + (("at", k),))
        if name == "key":
            return k, st
        if name in ("get_mut", "into_mut"):
            return at, st
        old = mget_val(D(eng, st, ref), k)
        if name == "get":
            return old, st
        if name in ("remove", "remove_entry"):
            return (old if name == "remove" else TUP(k, old)), setmap(eng, st, ref, lambda m: mdelete(m, k))
        s = setmap(eng, st, ref, lambda m: minsert(m, k, args[1]))
        return (at if name == "put" else old), s
    return f


def m_or_insert(mode):
    def f(eng, args, st, call):
        p = entry_parts(eng, st, args[0])
        if p is None:
            return None
        ref, k = p
        if ref.op != "mref":
            return None
        m = D(eng, st, ref)
        g = is_some(mget(m, k))
        s1, s0 = narrow(st, g), narrow(st, gnot(g))
        if s0 is not None:
            if mode == "val":
                v = args[1]
            elif mode == "default":
                v = default_of(eng, call, s0)
            else:
                v, s0 = eng.call_closure(s0, args[1], [k] if mode == "with_key" else [])
            if s0 is not None:
                s0 = setmap(eng, s0, ref, lambda m: minsert(m, k, cofactor(v, s0.g)))
        s = merge([s1, s0])
        if s is None:
            return BOT, None
        return mk("mref", ref.a[0], ref.a[1] + (("at", k),)), s
    return f


def m_and_modify(eng, args, st, call):
    p = entry_parts(eng, st, args[0])
    if p is None or p[0].op != "mref":
        return None
    ref, k = p
    g = is_some(mget(D(eng, st, ref), k))
    s1, s0 = narrow(st, g), narrow(st, gnot(g))
    if s1 is not None:
        _, s1 = eng.call_closure(s1, args[1], [mk("mref", ref.a[0], ref.a[1] + (("at", k),))])
    s = merge([s1, s0])
    return (args[0], s) if s is not None else (BOT, None)


def default_of(eng, call, st):
    tid = call.retty()
    kind = None
    if tid is not None:
        kind, _, t = kindof(eng, tid)
    return {"map": EMPTYMAP, "set": EMPTYMAP, "list": NIL, "opt": NONE}.get(kind, APP("default"))


def m_extend(eng, args, st, call):
    tid = selfty(eng, call, 0)
    kind, _, t = kindof(eng, tid) if tid is not None else ("?", 0, 0)
    onpath = tid is not None and eng.F.types[eng.F.peel(tid)].get("adt") == "std::path::PathBuf"
    g = call.gargs()
    it = args[1]
    at = call.argtys()
    ity = at[1] if at else (g[-1] if g else None)
    it = into_iter_val(eng, st, it, ity)
    ref = args[0]

    def b(s, e):
        s = s.copy()
        if kind == "map":
            eng.assign(s, ref, minsert(D(eng, s, ref), proj(e, "tuple", 0, 0), proj(e, "tuple", 0, 1)))
        elif kind == "set":
            eng.assign(s, ref, minsert(D(eng, s, ref), e, UNIT))
        elif kind == "list":
            eng.assign(s, ref, mapleaves(D(eng, s, ref), lambda x: lcat(x, mk("arr", e))))
        elif onpath:
            eng.assign(s, ref, APP("pathpush", D(eng, s, ref), e))
        else:
            eng.assign(s, ref, scatd(D(eng, s, ref), e))
        return s, {}
    if kind == "?" and not hasm(ref):
        return None
    s, ex = iterate(eng, st, it, b)
    return (UNIT, s) if s is not None else (BOT, None)


def m_append(eng, args, st, call):
    """Vec::append / BTreeMap::append: moves everything out of the second"""
    tid = selfty(eng, call, 0)
    kind, _, _ = kindof(eng, tid)
    other = D(eng, st, args[1])
    it = it_map(other) if kind == "map" else it_list(other)

    def b(s, e):
        s = s.copy()
        if kind == "map":
            eng.assign(s, args[0], minsert(D(eng, s, args[0]), proj(e, "tuple", 0, 0), proj(e, "tuple", 0, 1)))
        else:
            eng.assign(s, args[0], mapleaves(D(eng, s, args[0]), lambda x: lcat(x, mk("arr", e))))
        return s, {}
    s, ex = iterate(eng, st, it, b)
    if s is None:
        return BOT, None
    s = s.copy()
    eng.assign(s, args[1], EMPTYMAP if kind == "map" else NIL)
    return UNIT, s


def m_retain(eng, args, st, call):
    tid = selfty(eng, call, 0)
    kind, _, _ = kindof(eng, tid)
    cur = D(eng, st, args[0])
    if kind == "map":
        def b(s, loc, e):
            l = eng.newloc(s, proj(e, "tuple", 0, 1))
            g, s2 = eng.call_closure(s, args[1], [proj(e, "tuple", 0, 0), mk("mref", l, ())])
            if s2 is None:
                return None, {}
            s2 = s2.copy()
            nv = s2.mem.pop(l)
            m = s2.mem[loc]
            s2.mem[loc] = select(asbool(g), minsert(m, proj(e, "tuple", 0, 0), nv), m)
            return s2, {}
        loc, s, ex = consume(eng, st, it_map(cur), EMPTYMAP, b)
    else:
        def b(s, loc, e):
            g, s2 = eng.call_closure(s, args[1], [e])
            if s2 is None:
                return None, {}
            s2 = s2.copy()
            l = s2.mem[loc]
            s2.mem[loc] = select(asbool(g), mapleaves(l, lambda x: lcat(x, mk("arr", e))), l)
            return s2, {}
        loc, s, ex = consume(eng, st, it_list(cur), NIL, b)
    if s is None:
        return BOT, None
    v = s.mem.pop(loc)
    eng.assign(s, args[0], v)
    return UNIT, s


def v_push(eng, args, st, call):
    return UNIT, setmap(eng, st, args[0], lambda l: mapleaves(l, lambda x: lcat(x, mk("arr", args[1]))))


def v_insert(eng, args, st, call):
    if args[1].op == "int" and args[1].a[0] == 0:
        return UNIT, setmap(eng, st, args[0], lambda l: mapleaves(l, lambda x: lcat(mk("arr", args[2]), x)))
    return UNIT, setmap(eng, st, args[0], lambda l: APP("vinsert", l, args[1], args[2]))


def lastpart(x):
    """(the rest, the last element) of a list whose end is known; (x, None) if it is empty"""
    if x.op == "arr":
        return (mk("arr", *x.a[:-1]), x.a[-1]) if x.a else (x, None)
    if x.op == "app" and x.a[0] == "lcat":
        ps = list(x.a[1:])
        if ps and ps[-1].op == "arr" and ps[-1].a:
            return lcat(*ps[:-1], mk("arr", *ps[-1].a[:-1])), ps[-1].a[-1]
    return None


def l_last(eng, args, st, call):
    v = D(eng, st, args[0])
    if v.op != "sw" and lastpart(v) is None:
        return None
    def f(x):
        r = lastpart(x)
        if r is None:
            raise Unsupported("last element of an unknown list")
        return NONE if r[1] is None else SOME(r[1])
    return mapleaves(v, f), st


def v_pop(eng, args, st, call):
    v = D(eng, st, args[0])
    if any(lastpart(x) is None for _, x in gleaves(v) if x is not BOT):
        return None
    r, _ = l_last(eng, args, st, call)
    return r, setmap(eng, st, args[0], lambda l: mapleaves(l, lambda x: lastpart(x)[0]))


def s_push(eng, args, st, call):
    x = D(eng, st, args[1])
    if x.op == "int":
        x = STR(chr(x.a[0]))
    return UNIT, setmap(eng, st, args[0], lambda l: scatd(l, x))


def s_add_assign(eng, args, st, call):
    ts = call.gargs()
    if ts and eng.F.types[eng.F.peel(ts[0])].get("adt") == "std::string::String":
        return s_push(eng, args, st, call)
    return None


def s_add(eng, args, st, call):
    ts = call.gargs()
    if ts and eng.F.types[eng.F.peel(ts[0])].get("adt") == "std::string::String":
        return scatd(D(eng, st, args[0]), D(eng, st, args[1])), st
    return None


def mem_take(eng, args, st, call):
    v = D(eng, st, args[0])
    tid = selfty(eng, call, 0)
    kind = kindof(eng, tid)[0] if tid is not None else None
    ty = eng.F.types[eng.F.peel(tid)] if tid is not None else {}
    if ty.get("adt") == "std::string::String":
        dv = STR("")
    else:
        dv = {"map": EMPTYMAP, "list": NIL, "opt": NONE}.get(kind, APP("default"))
    st = st.copy()
    eng.assign(st, args[0], dv)
    return v, st


def mem_replace(eng, args, st, call):
    v = D(eng, st, args[0])
    st = st.copy()
    eng.assign(st, args[0], args[1])
    return v, st


def mem_set(eng, args, st, call):
    """write through a shared reference to a cell"""
    if args[0].op != "mref":
        st = st.copy()
        eng.log(st, APP("cell.set", D(eng, st, args[0]), args[1]))
        return UNIT, st
    st = st.copy()
    eng.assign(st, args[0], args[1])
    return UNIT, st


def mem_swap(eng, args, st, call):
    a, b = D(eng, st, args[0]), D(eng, st, args[1])
    st = st.copy()
    eng.assign(st, args[0], b)
    eng.assign(st, args[1], a)
    return UNIT, st


def map_items(m):
    """entries of a map with known keys, in key order; None if the order is unknown"""
    ents = []
    while m.op == "app" and m.a[0] == "map.ins":
        ents.append((m.a[2], m.a[3]))
        m = m.a[1]
    if m is not EMPTYMAP or len(ents) > 1 and not all(isname(k) for k, _ in ents):
        return None
    if len(ents) > 1:
        ents.sort(key=lambda e: e[0].a[0].encode("utf8") if type(e[0].a[0]) is str else e[0].a[0])
    return [TUP(k, v) for k, v in ents]


def finite(it):
    """is the number of remaining items of the iterator known"""
    if it.op != "app":
        return False
    n = it.a[0]
    if n == "it:list":
        return it.a[1].op == "arr"
    if n == "it:map":
        es = map_items(it.a[1]) if it.a[1].op == "app" else None
        return es is not None and all(isname(e.a[0]) for e in es)
    if n in ("it:once", "it:empty"):
        return True
    if n in ("it:keys", "it:vals", "it:enum", "it:rev", "it:map_", "it:skip", "it:take"):
        return finite(it.a[1])
    if n == "it:chain":
        return finite(it.a[1]) and finite(it.a[2])
    if n == "it:zip":
        return finite(it.a[1]) or finite(it.a[2])
    return False


def it_step(eng, st, it, call):
    """(next item, remaining iterator, state) of an iterator whose next step is known"""
    n = it.a[0] if it.op == "app" else None
    if OWNEDCOW[0] and it.op == "adt" and it.a[0] == "std::ops::Range" and it.a[2].op == it.a[3].op == "int":
        a, b = it.a[2].a[0], it.a[3].a[0]
        return (SOME(INT(a)), mk("adt", it.a[0], it.a[1], INT(a + 1), INT(b)), st) if a < b else (NONE, it, st)
    if n == "it:list":
        l = it.a[1]
        if l.op == "arr":
            if not l.a:
                return NONE, it, st
            return SOME(l.a[0]), it_list(mk("arr", *l.a[1:])), st
        if l.op == "app" and l.a[0] == "lcat" and l.a[1].op == "arr" and l.a[1].a:
            h = l.a[1]
            return SOME(h.a[0]), it_list(lcat(mk("arr", *h.a[1:]), *l.a[2:])), st
        return None
    if n == "it:map" and it.a[1].op == "app":
        es = map_items(it.a[1])
        return None if es is None else it_step(eng, st, it_list(mk("arr", *es)), call)
    if n in ("it:keys", "it:vals"):
        r = it_step(eng, st, it.a[1], call)
        if r is None:
            return None
        v, rest, st = r
        return (NONE if v is NONE else SOME(proj(v.a[2], "tuple", 0, 0 if n == "it:keys" else 1))), APP(n, rest), st
    if n == "it:opt":
        return it.a[1], APP("it:opt", NONE), st
    if n in ("it:fn", "it:succ"):
        r = pumpstep(eng, st, it)
        return None if r[2] is None or r[0].op != "adt" else r
    if n == "it:once":
        return SOME(it.a[1]), APP("it:empty"), st
    if n == "it:empty":
        return NONE, it, st
    if n == "it:enum":
        r = it_step(eng, st, it.a[1], call)
        if r is None:
            return None
        v, rest, st = r
        i = it.a[2] if len(it.a) > 2 else INT(0)
        if v is NONE:
            return NONE, it, st
        return SOME(TUP(i, v.a[2])), APP("it:enum", rest, E.arith2("Add", i, INT(1), "usize")), st
    if n == "it:rev":
        inner = it.a[1]
        if inner.op == "app" and inner.a[0] == "it:map" and inner.a[1].op == "app":
            es = map_items(inner.a[1])
            inner = it_list(mk("arr", *es)) if es is not None else inner
        if inner.op == "app" and inner.a[0] == "it:list" and inner.a[1].op == "arr":
            return it_step(eng, st, it_list(mk("arr", *inner.a[1].a[::-1])), call)
        return None
    if n == "it:chain":
        r = it_step(eng, st, it.a[1], call)
        if r is None:
            return None
        v, rest, st = r
        if v is NONE:
            return it_step(eng, st, it.a[2], call)
        return v, APP("it:chain", rest, it.a[2]), st
    if n == "it:zip":
        r = it_step(eng, st, it.a[1], call)
        if r is None or r[0].op != "adt":
            return None
        v, rest, st = r
        if v is NONE:
            return NONE, it, st
        r2 = it_step(eng, st, it.a[2], call)
        if r2 is None or r2[0].op != "adt":
            return None
        if r2[0] is NONE:
            return NONE, APP("it:zip", rest, r2[1]), r2[2]
        return SOME(TUP(v.a[2], r2[0].a[2])), APP("it:zip", rest, r2[1]), r2[2]
    if n == "it:map_":
        r = it_step(eng, st, it.a[1], call)
        if r is None or r[0].op != "adt" or it.a[2].op == "mref":
            return None
        v, rest, st = r
        if v is NONE:
            return NONE, it, st
        w, st = eng.call_closure(st, it.a[2], [v.a[2]])
        return None if st is None else (SOME(w), APP("it:map_", rest, it.a[2]), st)
    if n in ("it:filter", "it:fmap", "it:takewhile", "it:mapwhile", "it:skipwhile"):
        if it.a[2].op == "mref":
            return None
        cur = it.a[1]
        while True:
            r = it_step(eng, st, cur, call)
            if r is None or r[0].op != "adt":
                return None
            v, cur, st = r
            if v is NONE:
                return NONE, APP("it:empty"), st
            w, st = eng.call_closure(st, it.a[2], [v.a[2]])
            if st is None:
                return None
            opt_ = n in ("it:fmap", "it:mapwhile")
            g = is_some(w) if opt_ else asbool(w)
            if g is not TRUE and g is not FALSE:
                return None
            if n == "it:skipwhile":
                if g is FALSE:
                    return v, cur, st
            elif g is TRUE:
                return (SOME(unsome(w)) if opt_ else v), APP(n, cur, it.a[2]), st
            elif n in ("it:takewhile", "it:mapwhile"):
                return NONE, APP("it:empty"), st
    if n in ("it:skip", "it:take") and it.a[2].op == "int":
        k, cur = it.a[2].a[0], it.a[1]
        if n == "it:take":
            if k <= 0:
                return NONE, it, st
            r = it_step(eng, st, cur, call)
            return None if r is None else (r[0], APP(n, r[1], INT(k - 1)), r[2])
        for _ in range(k):
            r = it_step(eng, st, cur, call)
            if r is None or r[0].op != "adt":
                return None
            v, cur, st = r
            if v is NONE:
                return NONE, cur, st
        return it_step(eng, st, cur, call)
    return None


def it_next(eng, args, st, call):
    ref = args[0]
    if ref.op == "mref":
        inner = st.mem.get(ref.a[0])
        # follow references to references
        try:
            x = eng.read(st, ref.a[0], ref.a[1])
            if x.op == "mref":
                return it_next(eng, [x] + list(args[1:]), st, call)
        except Unsupported:
            pass
        loc, path = ref.a
        for c in reversed(eng.ctxs):
            if c.mode in ("A", "B") and c.target == (loc, path):
                c.used += 1
                if c.mode == "A":
                    return SOME(c.elem), st
                return NONE, st
            if c.mode == "probe" and loc in c.base:
                c.nexts.append((loc, path, x, st.g))
                break
            if c.mode == "probe" or c.mode in ("A", "B"):
                continue
    it = D(eng, st, ref)
    n = it.a[0] if it.op == "app" else None
    # one step of a known iterator
    r = it_step(eng, st, it, call)
    if r is not None:
        v, rest, st = r
        st = st.copy()
        eng.assign(st, ref, rest)
        return v, st
    st = st.copy()
    it = unmut(eng, st, it)
    eng.assign(st, ref, APP("it:adv", it))
    return APP("it:first", it), st


def item_type(eng, tid):
    """the type of what is flattened, for iterators over owned or shared content of known type"""
    t = eng.F.types[tid] if tid is not None else None
    if not t or t["k"] != "adt" or t["adt"] != "std::iter::Flatten" or not t["args"]:
        return None
    t = eng.F.types[t["args"][0]]
    if t["k"] == "adt" and t["adt"] in ("std::option::IntoIter", "std::option::Iter", "std::vec::IntoIter", "std::slice::Iter") and t["args"]:
        return t["args"][0]
    return None


def it_adapt(name):
    def m(eng, args, st, call):
        it = args[0]
        if it.op == "mref":
            it = APP("it:by", it) if False else D(eng, st, it)
        rest = [a for a in args[1:]]
        if name in ("it:chain", "it:zip"):
            at = call.argtys()
            rest = [into_iter_val(eng, st, rest[0], at[1] if at else None)]
        if name == "it:flatten":
            tid = item_type(eng, call.retty())
            return (APP(name, it) if tid is None else APP(name, it, mk("lit", tid))), st
        return APP(name, it, *rest), st
    return m


def m_collect(eng, args, st, call):
    tid = call.retty()
    if tid is None:
        return None
    return collect(eng, st, args[0], tid, call)


def consumer(name):
    def m(eng, args, st, call):
        it = args[0]
        if it.op == "mref":
            it = D(eng, st, it)
        if it.op == "app" and not it.a[0].startswith("it:"):
            pass
        return fold_method(eng, st, it, name, args, call)
    return m


def into_iter(eng, args, st, call):
    return into_iter_val(eng, st, args[0], selfty(eng, call, 0)), st


def coll_iter(kind, mut=False):
    def m(eng, args, st, call):
        v = args[0]
        if mut and hasm(v):
            return APP("it:mut:" + kind, v), st
        v = D(eng, st, v)
        if kind == "keys":
            return APP("it:keys", it_map(v)), st
        if kind == "vals":
            return APP("it:vals", it_map(v)), st
        return APP("it:" + kind, v), st
    return m


def m_len(eng, args, st, call):
    return length(D(eng, st, args[0])), st


def isword(x):
    """a symbolic path segment: non-empty, no '.', no surrounding whitespace"""
    return x.op == "sym" and x.a[0].startswith("§")


def split_str(s, pat):
    """s.split(pat) as a list when the pieces are known"""
    if not (pat.op in ("int", "str")):
        return None
    p = chr(pat.a[0]) if pat.op == "int" else pat.a[0]
    parts = s.a[1:] if s.op == "app" and s.a[0] == "scat" else (s,)
    out, cur = [], []
    for x in parts:
        if x.op == "str":
            bits = x.a[0].split(p)
            cur.append(STR(bits[0]))
            for b in bits[1:]:
                out.append(scat(*cur))
                cur = [STR(b)]
        elif isword(x) and p == ".":
            cur.append(x)
        else:
            return None
    out.append(scat(*cur))
    return mk("arr", *out)


def m_split(eng, args, st, call):
    s, pat = D(eng, st, args[0]), D(eng, st, args[1])

    def f(x):
        l = split_str(x, pat)
        return it_list(l) if l is not None else APP("core::str::<impl str>::split", x, pat)
    return mapleaves(s, f), st


def isempty(v):
    def f(x):
        if isword(x):
            return FALSE
        if x.op in ("arr", "str", "bytes"):
            return TRUE if not (x.a if x.op == "arr" else x.a[0]) else FALSE
        if x is EMPTYMAP:
            return TRUE
        if x.op == "app" and x.a[0] == "map.ins":
            return FALSE
        if x.op == "app" and x.a[0] in ("lcat", "scat"):
            if any(y.op in ("arr", "str") or isword(y) for y in x.a[1:]):
                return FALSE
            g = TRUE
            for y in x.a[1:]:
                g = gand(g, isempty(y))
            return g
        return gate(APP("len", x), 0)
    return mapleaves(v, f)


def m_isempty(eng, args, st, call):
    return isempty(D(eng, st, args[0])), st


def l_first(eng, args, st, call):
    l = D(eng, st, args[0])
    return mapleaves(l, lambda x: select(isempty(x), NONE, SOME(index(x, INT(0))))), st


def l_split(front):
    def m(eng, args, st, call):
        def f(x):
            if x.op == "arr":
                if not x.a:
                    return NONE
                return SOME(TUP(x.a[0], mk("arr", *x.a[1:])) if front else TUP(x.a[-1], mk("arr", *x.a[:-1])))
            nm = "core::slice::<impl [T]>::split_" + ("first" if front else "last")
            return APP(nm, x)
        return mapleaves(D(eng, st, args[0]), f), st
    return m


def l_contains(eng, args, st, call):
    """membership in a list"""
    e = D(eng, st, args[1])

    def f(x):
        if x.op == "app" and x.a[0] == "lcat":
            g = FALSE
            for y in x.a[1:]:
                g = gor(g, f(y))
            return g
        if x.op == "arr":
            g = FALSE
            for y in x.a:
                g = gor(g, eqterm(D(eng, st, y), e))
            return g
        return mapleaves(e, lambda y: mk("bool", APP("lin", x, y), None))
    return mapleaves(D(eng, st, args[0]), f), st


def l_remove(eng, args, st, call):
    """Vec::remove at a position inside the known head"""
    l, i = D(eng, st, args[0]), D(eng, st, args[1])

    def parts(x):
        h = x.a[1] if x.op == "app" and x.a[0] == "lcat" else x
        if h.op == "arr" and i.op == "int" and i.a[0] < len(h.a):
            return h.a[i.a[0]], lcat(mk("arr", *(h.a[:i.a[0]] + h.a[i.a[0] + 1:])), *(x.a[2:] if h is not x else ()))
        if i is INT(0):
            return select(isempty(x), BOT, index(x, i)), select(isempty(x), BOT, APP("ltail", x))
        return APP("index", x, i), APP("lremove", x, i)
    out = mapleaves(l, lambda x: parts(x)[0])
    return out, setmap(eng, st, args[0], lambda l: mapleaves(l, lambda x: parts(x)[1]))


def parse_template(b):
    out, i, ai = [], 0, 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(("s", bytes(b[i:i + n]).decode("utf8", "replace")))
            i += n
        elif n == 0x80:
            ln = b[i] | b[i + 1] << 8
            i += 2
            out.append(("s", bytes(b[i:i + ln]).decode("utf8", "replace")))
            i += ln
        elif n == 0xC0:
            out.append(("a", ai, None))
            ai += 1
        else:
            spec = []
            if n & 1:
                spec.append(("flags", int.from_bytes(bytes(b[i:i + 4]), "little")))
                i += 4
            if n & 2:
                spec.append(("width", int.from_bytes(bytes(b[i:i + 2]), "little")))
                i += 2
            if n & 4:
                spec.append(("prec", int.from_bytes(bytes(b[i:i + 2]), "little")))
                i += 2
            if n & 8:
                ai = b[i] | b[i + 1] << 8
                i += 2
            out.append(("a", ai, str((n & 0x30, spec)) if spec else None))
            ai += 1
    return out


def fmt_arg(kind):
    def m(eng, args, st, call):
        v = D(eng, st, args[0])
        g = call.gargs()
        ty = eng.F.peel(g[0]) if g else None
        return APP("fa:" + kind, display(eng, st, v, ty, kind)), st
    return m


def display(eng, st, v, ty, kind):
    t = eng.F.types[ty] if ty is not None else {"k": "?", "s": "?"}
    if kind == "display":
        if t["k"] == "str" or t.get("adt") in ("std::string::String",):
            return v
        if t.get("adt") == COW:
            return v
        if t.get("adt") == "uncased::UncasedStr" or t.get("adt") == "uncased::Uncased":
            return v
        if t.get("adt") == "std::path::Display":
            return APP("lossy", v.a[1]) if v.op == "app" and v.a[0] == "path.display" else APP("lossy", v)
        if t.get("adt") == "std::fmt::Arguments":
            return v
        if t["k"] == "adt" and eng.F.adts[t["adt"]]["local"]:
            r = local_display(eng, st, v, t)
            if r is not None:
                return r
    nm = "str" if t["k"] == "str" or t.get("adt") in ("std::string::String", COW) else t["s"]
    if nm.startswith("std::vec::Vec<"):
        nm = "[" + nm[len("std::vec::Vec<"):-1] + "]"
    return mapleaves(v, lambda x: STR(str(x.a[0])) if x.op == "int" and t["k"] in ("int", "uint") and kind == "display"
                     else APP(kind + ":" + nm, x))


def local_display(eng, st, v, t):
    if eng.__dict__.get("no_display"):
        return None
    for it in eng.F.items:
        if it["name"] == "fmt" and it["trait"] == "std::fmt::Display" and it["self"] is not None \
                and eng.F.types[it["self"]].get("adt") == t["adt"] and it["key"] in eng.F.bodies:
            up = [(a, t0) for k, a, _, t0 in eng.stack if k == it["key"]]
            if up:
                # a recursion into a constructed value terminates
                n = eng.csize(st, v)
                if not 1 <= n < eng.csize(up[-1][1], up[-1][0][0]):
                    return None
            s = St(dict(st.mem), TRUE)
            loc = eng.newloc(s, STR(""))
            try:
                r, s2 = eng.run_body(eng.F.bodies[it["key"]], [v, mk("mref", loc, ())], s)
            except Unsupported:
                return None
            if s2 is None:
                return None
            return s2.mem[loc]
    return None


def fmt_new(eng, args, st, call):
    tmpl = D(eng, st, args[0])
    fas = D(eng, st, args[1])
    if tmpl.op == "arr" and all(x.op == "int" for x in tmpl.a):
        bs = [x.a[0] for x in tmpl.a]
    elif tmpl.op == "bytes":
        bs = list(tmpl.a[0])
    else:
        return None
    parts = STR("")
    for p in parse_template(bs):
        if p[0] == "s":
            parts = scatd(parts, STR(p[1]))
        else:
            x = index(fas, INT(p[1]))
            x = mapleaves(x, lambda y: y.a[1] if y.op == "app" and y.a[0].startswith("fa:") else y)
            if p[2]:
                x = APP("spec:" + p[2], x)
            parts = scatd(parts, x)
    return parts, st


OKUNIT = OK(UNIT)


def fmt_write(eng, args, st, call):
    """write text to a formatter / string"""
    txt = D(eng, st, args[1])
    ref = args[0]
    if not hasm(ref):
        st = st.copy()
        eng.log(st, APP("write", ref, txt))
        return OKUNIT, st
    return OKUNIT, setmap(eng, st, ref, lambda l: scatd(l, txt))


def fmt_display_into(eng, args, st, call):
    g = call.gargs()
    ty = eng.F.peel(g[0]) if g else None
    kind = "display" if "Display" in call.fn["decl"] else "debug"
    v = D(eng, st, args[0])
    return OKUNIT, setmap(eng, st, args[1], lambda l: scatd(l, display(eng, st, v, ty, kind)))


def to_string(eng, args, st, call):
    g = call.gargs()
    ty = eng.F.peel(g[0]) if g else None
    return display(eng, st, D(eng, st, args[0]), ty, "display"), st


def peq(neg):
    def m(eng, args, st, call):
        g = call.gargs()
        a, b = D(eng, st, args[0]), D(eng, st, args[1])
        ts = [eng.F.peel(x) for x in g[:2]] if g else []
        names = [eng.F.types[x]["s"] for x in ts]
        k = None
        if any("uncased::" in n and not n.startswith("std::") for n in names):
            r = cieq(a, b)
        elif any(n.startswith("std::path::Path") and "Component" not in n for n in names):
            r = eqterm(APP("as_path", a), APP("as_path", b)) if a is not b else TRUE
        elif any(eng.F.types[x]["k"] == "float" for x in ts):
            r = asbool(APP("feq", a, b))
        else:
            t = eng.F.types[ts[0]] if ts else {}
            if t.get("k") == "adt" and eng.F.adts[t["adt"]]["local"]:
                if call.fn.get("key"):
                    return None
                # through references: the type's own comparison
                its = [it for it in eng.F.items if it["name"] == "eq" and it["trait"] == "std::cmp::PartialEq" and it["self"] is not None
                       and eng.F.types[it["self"]].get("adt") == t["adt"]]
                if len(its) != 1 or len(set(ts)) != 1:
                    return None
                r, st = eng.run_body(eng.F.bodies[its[0]["key"]], [a, b], st)
                return (gnot(asbool(r)) if neg else r), st
            r = eqterm(a, b)
        return (gnot(r) if neg else r), st
    return m


def uncased_arg(eng, call):
    g = call.gargs()
    return any("uncased::Uncased" in eng.F.types[eng.F.peel(x)]["s"] for x in g[:2])


def u_cmp(partial):
    def m(eng, args, st, call):
        if call.fn.get("key") or not uncased_arg(eng, call):
            return None
        a, b = D(eng, st, args[0]), D(eng, st, args[1])
        r = mapleaves(a, lambda x: mapleaves(b, lambda y: APP("ci_cmp", x, y)))
        return (mapleaves(r, SOME) if partial else r), st
    return m


def u_hash(eng, args, st, call):
    if call.fn.get("key") or not uncased_arg(eng, call) or args[1].op != "mref":
        return None
    x = D(eng, st, args[0])
    return UNIT, setmap(eng, st, args[1], lambda h: APP("hashed", h, APP("ci", x)))


def try_from_int(eng, args, st, call):
    g = call.gargs()
    if len(g) < 2:
        return None
    to, fr = eng.F.types[g[0]], eng.F.types[g[1]]
    if to["s"] not in INTS or fr["s"] not in INTS or "char" in (to["s"], fr["s"]):
        return None
    return conv_int(eng, args[0], fr["s"], to["s"], st)


def conv_int(eng, x, fs, ts, st):
    def f(y):
        g = fits(fs, ts, y)
        v = INT(y.a[0]) if y.op == "int" else E.icast(fs, ts, y)
        return select(g, OK(v), ERR(APP("TryFromIntError")))
    return mapleaves(D(eng, st, x), f), st


def try_into_int(eng, args, st, call):
    g = call.gargs()
    if len(g) < 2:
        return None
    fr, to = eng.F.types[g[0]], eng.F.types[g[1]]
    if to["s"] not in INTS or fr["s"] not in INTS:
        return None
    return conv_int(eng, args[0], fr["s"], to["s"], st)


def from_conv(eng, args, st, call):
    """From::from between std types"""
    g = call.gargs()
    res = norm(call.fn.get("res") or "")
    if len(g) >= 2:
        to, fr = eng.F.types[g[0]], eng.F.types[g[1]]
        if to["s"] == fr["s"]:
            return args[0], st
        if to["s"] in INTS and fr["s"] in INTS:
            if fr["s"] in ("char", "bool"):
                return mapleaves(D(eng, st, args[0]), lambda x: x if x.op == "int" else APP("icast:" + fr["s"] + ":" + to["s"], x)), st
            if to["s"] == "char":
                return mapleaves(args[0], lambda x: APP("icast:u8:char", x)), st
            return mapleaves(D(eng, st, args[0]), lambda x: x if x.op == "int" else E.icast(fr["s"], to["s"], x)), st
        if to["k"] == "float" and fr["k"] == "float":
            return mapleaves(D(eng, st, args[0]), lambda x: APP(f"fcast:{fr['s']}:{to['s']}", x)), st
        if to["k"] == "float":
            return mapleaves(D(eng, st, args[0]), lambda x: APP(f"numcast:{fr['s']}:{to['s']}", x)), st
        if to.get("adt") == OPTION:
            return SOME(args[0]), st
        if to.get("adt") in BMAP:
            return collect(eng, st, it_list(D(eng, st, args[0])), g[0], call)
    return D(eng, st, args[0]), st


IDENT_TRAITS = {
    "std::ops::Deref::deref", "std::convert::AsRef::as_ref", "std::borrow::Borrow::borrow",
    "std::borrow::ToOwned::to_owned",
}

MODELS = {}


def reg(names, m):
    for n in names.replace("<impl ", "<impl~").split():
        MODELS[n.replace("~", " ")] = m


reg("std::boxed::Box::new std::string::String::as_str std::path::PathBuf::as_path uncased::Uncased::into_owned "
    "uncased::Uncased::from_borrowed uncased::UncasedStr::as_str uncased::UncasedStr::new uncased::Uncased::as_str "
    "uncased::Uncased::from_owned uncased::Uncased::new uncased::Uncased::into_string "
    "std::path::Path::to_path_buf std::path::Path::new std::ffi::OsStr::new std::borrow::Cow::into_owned "
    "std::path::Component::as_os_str std::hint::must_use std::convert::identity std::string::String::into_boxed_str "
    "std::vec::Vec::as_slice core::slice::<impl [T]>::to_vec std::slice::<impl [T]>::to_vec core::str::<impl str>::as_bytes std::fmt::format "
    "std::fmt::Arguments::from_str std::path::Path::as_os_str std::vec::Vec::into_boxed_slice core::str::<impl str>::as_str "
    "std::string::String::into_bytes std::iter::Iterator::cloned std::iter::Iterator::copied std::iter::Iterator::fuse std::iter::Iterator::peekable "
    "std::slice::<impl [T]>::into_vec std::str::<impl str>::into_string std::ffi::OsStr::to_os_string std::path::PathBuf::into_os_string "
    "std::str::<impl str>::to_owned std::string::String::from_utf8_unchecked std::mem::ManuallyDrop::new std::hint::black_box "
    "std::rc::Rc::new std::sync::Arc::new std::path::PathBuf::into_boxed_path std::boxed::Box::into_inner", ident)
for _n in ("std::vec::Vec::as_mut_slice", "std::boxed::Box::as_mut", "std::iter::Iterator::by_ref",
           "std::iter::IntoIterator::into_iter!ref", "std::string::String::as_mut_str", "std::boxed::Box::leak"):
    MODELS[_n] = lambda eng, args, st, call: (args[0], st)
reg("std::ops::DerefMut::deref_mut std::convert::AsMut::as_mut std::borrow::BorrowMut::borrow_mut", lambda eng, args, st, call: (args[0], st))
reg("std::borrow::Cow::to_mut", lambda eng, args, st, call: (args[0], st))
reg("std::mem::take", mem_take)
reg("std::mem::replace", mem_replace)
reg("std::mem::swap", mem_swap)
reg("std::mem::forget", const(UNIT))


def mem_drop(eng, args, st, call):
    g = call.gargs()
    if g and eng.has_effect_drop(g[0]):
        st = st.copy()
        eng.drop_val(st, args[0], g[0])
    return UNIT, st


def map_drain(eng, args, st, call):
    v = D(eng, st, args[0])
    st = st.copy()
    eng.assign(st, args[0], EMPTYMAP)
    return it_map(v), st


reg("std::mem::drop core::mem::drop", mem_drop)
reg("std::collections::HashMap::drain indexmap::IndexMap::drain", map_drain)
for _m in ("std::collections::BTreeMap", "std::collections::HashMap"):
    reg(f"{_m}::new {_m}::with_capacity {_m}::default", newmap)
    reg(f"{_m}::get", m_get)
    reg(f"{_m}::get_mut", m_get_mut)
    reg(f"{_m}::contains_key", m_contains)
    reg(f"{_m}::insert", m_insert)
    reg(f"{_m}::remove", m_remove)
    reg(f"{_m}::entry", m_entry(_m))
    reg(f"{_m}::iter", coll_iter("map"))
    reg(f"{_m}::iter_mut", coll_iter("map", True))
    reg(f"{_m}::keys {_m}::into_keys", coll_iter("keys"))
    reg(f"{_m}::values {_m}::into_values", coll_iter("vals"))
    reg(f"{_m}::values_mut", coll_iter("vals", True))
    reg(f"{_m}::len", m_len)
    reg(f"{_m}::is_empty", m_isempty)
    reg(f"{_m}::retain", m_retain)
    reg(f"{_m}::append", m_append)
    reg(f"{_m}::clear", lambda eng, args, st, call: (UNIT, setmap(eng, st, args[0], lambda m: EMPTYMAP)))
for _m in ("std::collections::btree_map::Entry", "std::collections::hash_map::Entry"):
    reg(f"{_m}::or_insert", m_or_insert("val"))
    reg(f"{_m}::or_insert_with", m_or_insert("with"))
    reg(f"{_m}::or_insert_with_key", m_or_insert("with_key"))
    reg(f"{_m}::or_default", m_or_insert("default"))
    reg(f"{_m}::and_modify", m_and_modify)
    reg(f"{_m}::key", entry_op("key"))
reg("std::vec::Vec::new std::vec::Vec::with_capacity", const(NIL))
reg("std::vec::Vec::push std::collections::VecDeque::push_back", v_push)
reg("std::vec::Vec::insert", v_insert)
reg("std::vec::Vec::pop", v_pop)
reg("core::slice::<impl [T]>::last", l_last)
reg("std::vec::Vec::len core::slice::<impl [T]>::len std::string::String::len core::str::<impl str>::len", m_len)
reg("std::vec::Vec::is_empty core::slice::<impl [T]>::is_empty std::string::String::is_empty core::str::<impl str>::is_empty std::ffi::OsStr::is_empty", m_isempty)
reg("std::vec::Vec::append", m_append)
reg("std::vec::Vec::remove", l_remove)
reg("core::slice::<impl [T]>::contains std::vec::Vec::contains", l_contains)
reg("core::slice::<impl [T]>::first", l_first)
reg("core::slice::<impl [T]>::split_first", l_split(True))
reg("core::slice::<impl [T]>::split_last", l_split(False))
reg("std::vec::Vec::retain", m_retain)
reg("std::vec::Vec::clear", lambda eng, args, st, call: (UNIT, setmap(eng, st, args[0], lambda m: NIL)))
reg("std::vec::Vec::extend_from_slice", lambda eng, args, st, call: (UNIT, setmap(eng, st, args[0], lambda l: lcatd(l, D(eng, st, args[1])))))
reg("core::slice::<impl [T]>::iter std::slice::<impl [T]>::iter", coll_iter("list"))
reg("core::slice::<impl [T]>::iter_mut", coll_iter("list", True))
reg("std::string::String::new", const(STR("")))
reg("std::string::String::with_capacity", const(STR("")))
reg("std::string::String::push std::string::String::push_str", s_push)
reg("std::ops::AddAssign::add_assign", s_add_assign)
reg("std::ops::Add::add", s_add)
reg("std::iter::Extend::extend", m_extend)
reg("std::iter::IntoIterator::into_iter", into_iter)
reg("std::iter::Iterator::next", it_next)
reg("std::iter::Iterator::map", it_adapt("it:map_"))
reg("std::iter::Iterator::filter", it_adapt("it:filter"))
reg("std::iter::Iterator::filter_map", it_adapt("it:fmap"))
reg("std::iter::Iterator::flat_map", it_adapt("it:flatmap"))
reg("std::iter::Iterator::flatten", it_adapt("it:flatten"))
reg("std::iter::Iterator::chain", it_adapt("it:chain"))
reg("std::iter::Iterator::enumerate", it_adapt("it:enum"))
reg("std::iter::Iterator::zip", it_adapt("it:zip"))
reg("std::iter::Iterator::rev", it_adapt("it:rev"))
reg("std::iter::Iterator::inspect", it_adapt("it:inspect"))
reg("std::iter::Iterator::skip", it_adapt("it:skip"))
reg("std::iter::Iterator::take", it_adapt("it:take"))
reg("std::iter::Iterator::take_while", it_adapt("it:takewhile"))
reg("std::iter::Iterator::map_while", it_adapt("it:mapwhile"))
reg("std::iter::Iterator::skip_while", it_adapt("it:skipwhile"))
reg("std::iter::repeat", lambda eng, args, st, call: (APP("it:repeat", args[0]), st))
reg("std::iter::once", lambda eng, args, st, call: (APP("it:once", args[0]), st))
reg("std::iter::empty", const(APP("it:empty")))
reg("std::iter::Iterator::collect", m_collect)
reg("std::iter::FromIterator::from_iter", lambda eng, args, st, call: collect(eng, st, into_iter_val(eng, st, args[0], (call.argtys() or [None])[0]), call.retty() if call.retty() is not None else (call.gargs() or [None])[0], call))
for _n in ("for_each", "fold", "any", "all", "find", "find_map", "position", "count", "sum", "last", "try_fold", "try_for_each"):
    reg("std::iter::Iterator::" + _n, consumer(_n))
reg("core::fmt::rt::Argument::new_display", fmt_arg("display"))
reg("core::fmt::rt::Argument::new_debug", fmt_arg("debug"))
reg("core::fmt::rt::Argument::new_lower_hex", fmt_arg("lower_hex"))
reg("std::fmt::Arguments::new", fmt_new)
reg("std::fmt::Formatter::write_str std::fmt::Formatter::write_fmt std::fmt::Write::write_str std::fmt::Write::write_fmt "
    "std::fmt::Write::write_char std::fmt::Formatter::pad", fmt_write)
reg("std::fmt::Display::fmt std::fmt::Debug::fmt", fmt_display_into)
reg("std::string::ToString::to_string", to_string)
reg("std::cmp::PartialEq::eq", peq(False))
reg("std::cmp::PartialEq::ne", peq(True))
reg("std::cmp::Ord::cmp", u_cmp(False))
reg("std::cmp::PartialOrd::partial_cmp", u_cmp(True))
reg("std::hash::Hash::hash", u_hash)
reg("uncased::eq", lambda eng, args, st, call: (cieq(D(eng, st, args[0]), D(eng, st, args[1])), st))
reg("core::str::<impl str>::to_ascii_lowercase std::str::<impl str>::to_ascii_lowercase", lambda eng, args, st, call: (REAPP['ci'](D(eng, st, args[0])), st))
reg("core::str::<impl str>::make_ascii_lowercase std::str::<impl str>::make_ascii_lowercase", lambda eng, args, st, call: (UNIT, setmap(eng, st, args[0], REAPP['ci'])))
reg("core::str::<impl str>::make_ascii_uppercase std::str::<impl str>::make_ascii_uppercase", lambda eng, args, st, call: (UNIT, setmap(eng, st, args[0], REAPP['upper'])))
reg("core::str::<impl str>::to_ascii_uppercase std::str::<impl str>::to_ascii_uppercase", lambda eng, args, st, call: (REAPP['upper'](D(eng, st, args[0])), st))
def pieces(x):
    """the parts of a text made of known strings and words, or None"""
    parts = x.a[1:] if x.op == "app" and x.a[0] == "scat" else (x,)
    return parts if all(p.op == "str" or isword(p) for p in parts) else None


def textquery(name, x, q):
    """contains, starts_with, ends_with and the like, where the parts of the text decide it"""
    if q.op != "str" or x.op == "str" and q.op == "str":
        if q.op == "str":
            s, p = x.a[0], q.a[0]
            return TRUE if {"contains": p in s, "starts_with": s.startswith(p), "ends_with": s.endswith(p)}[name] else FALSE
        return None
    ps = pieces(x)
    if ps is None or q.a[0] != ".":
        return None
    if name == "contains":
        return TRUE if any(p.op == "str" and "." in p.a[0] for p in ps) else FALSE
    p = ps[0 if name == "starts_with" else -1]
    return FALSE if p.op != "str" else TRUE if (p.a[0].startswith(".") if name == "starts_with" else p.a[0].endswith(".")) else FALSE


def splitonce(back):
    def m(eng, args, st, call):
        x, p = D(eng, st, args[0]), D(eng, st, args[1])
        if p.op == "int":
            p = STR(chr(p.a[0]))
        nm = "core::str::<impl str>::" + ("rsplit_once" if back else "split_once")

        def f(y):
            l = split_str(y, p) if p.op == "str" else None
            if l is None:
                return APP(nm, y, p)
            if len(l.a) < 2:
                return NONE
            sep = lambda zs: joined(mk("arr", *zs), p)
            return SOME(TUP(sep(l.a[:-1]), l.a[-1]) if back else TUP(l.a[0], sep(l.a[1:])))
        return mapleaves(x, f), st
    return m


def strip(front):
    def m(eng, args, st, call):
        x, p = D(eng, st, args[0]), D(eng, st, args[1])
        if p.op == "int":
            p = STR(chr(p.a[0]))
        nm = "core::str::<impl str>::" + ("strip_prefix" if front else "strip_suffix")

        def f(y):
            g = textquery("starts_with" if front else "ends_with", y, p)
            if g is FALSE:
                return NONE
            if g is TRUE:
                ps = list(y.a[1:]) if y.op == "app" else [y]
                i = 0 if front else -1
                n = len(p.a[0])
                ps[i] = STR(ps[i].a[0][n:] if front else ps[i].a[0][:-n] if n else ps[i].a[0])
                return SOME(scat(*ps))
            return APP(nm, y, p)
        return mapleaves(x, f), st
    return m


def strpat(name, boolean=True):
    """a search whose pattern is a character or a text"""
    def m(eng, args, st, call):
        x, p = D(eng, st, args[0]), D(eng, st, args[1])
        ts = [eng.F.types[eng.F.peel(t)]["s"] for t in call.argtys()] if hasattr(call, "argtys") else []
        if p.op == "int" and len(ts) > 1 and ts[1] == "char":
            p = STR(chr(p.a[0]))
        r = mapleaves(x, lambda y: mapleaves(p, lambda q: textquery(name, y, q) or APP("core::str::<impl str>::" + name, y, q)))
        return (asbool(r) if boolean else r), st
    return m


def strfind(eng, args, st, call):
    """there is a position exactly when the text contains the pattern"""
    ts = [eng.F.types[eng.F.peel(t)]["s"] for t in call.argtys()] if hasattr(call, "argtys") else []
    x, p = D(eng, st, args[0]), D(eng, st, args[1])
    if p.op == "int" and len(ts) > 1 and ts[1] == "char":
        p = STR(chr(p.a[0]))
    if p.op == "clo" or OWNEDCOW[0]:
        return None
    has, st = strpat("contains")(eng, args, st, call)
    back = call.fn.get("decl", "").endswith("rfind")
    return select(has, SOME(APP("core::str::<impl str>::" + ("rfind" if back else "find"), x, p)), NONE), st


reg("core::str::<impl str>::find core::str::<impl str>::rfind", strfind)
for _n in ("contains", "starts_with", "ends_with"):
    reg("core::str::<impl str>::" + _n, strpat(_n))
reg("core::str::<impl str>::eq_ignore_ascii_case", lambda eng, args, st, call: (cieq(D(eng, st, args[0]), D(eng, st, args[1])), st))
reg("std::convert::TryFrom::try_from", try_from_int)
reg("std::convert::TryInto::try_into", try_into_int)
reg("std::convert::From::from", from_conv)
reg("core::str::<impl str>::split", m_split)
reg("core::str::<impl str>::split_once", splitonce(False))
reg("core::str::<impl str>::rsplit_once", splitonce(True))
reg("core::str::<impl str>::strip_prefix", strip(True))
reg("core::str::<impl str>::strip_suffix", strip(False))
reg("std::path::Path::display", pure("path.display"))
TRIM = "core::str::<impl str>::trim"


def trimmed(x):
    """x.trim(): idempotent, and case does not matter to it"""
    def f(y):
        if y.op == "str" and y.a[0].isascii():
            return STR(y.a[0].strip(" \t\n\r\x0b\x0c"))
        if y.op == "app" and y.a[0] == TRIM:
            return y
        if y.op == "app" and y.a[0] in ("ci", "upper"):
            return REAPP[y.a[0]](f(y.a[1]))
        return APP(TRIM, y)
    return mapleaves(x, f)


reg(TRIM, lambda eng, args, st, call: (trimmed(D(eng, st, args[0])), st))
reg("std::ffi::OsStr::to_string_lossy std::path::Path::to_string_lossy", pure("lossy"))
reg("std::env::set_var std::env::remove_var", event("env.write", UNIT))


def _ev(n):
    return event(n)


for _n, _e, _r in (
        ("std::env::set_var", "env.set", UNIT), ("std::env::remove_var", "env.remove", UNIT),
        ("std::env::var_os", "env.get", None), ("std::env::var", "env.getstr", None),
        ("std::env::vars_os", "env.all", None), ("std::env::vars", "env.allstr", None),
        ("std::env::current_dir", "cwd.get", None), ("std::env::set_current_dir", "cwd.set", None),
        ("std::fs::File::create", "fs.create", None), ("std::fs::create_dir_all", "fs.mkdirs", None),
        ("std::fs::create_dir", "fs.mkdir", None), ("std::fs::read_to_string", "fs.read", None),
        ("std::fs::write", "fs.write", None), ("std::fs::OpenOptions::open", "fs.open", None),
        ("std::fs::remove_dir_all", "fs.rmdir", None), ("std::fs::remove_file", "fs.rm", None),
        ("std::io::Write::write_all", "io.write_all", None), ("std::io::BufWriter::into_inner", "io.flush", None),
        ("std::io::Write::flush", "io.flush2", None), ("std::io::Write::write", "io.write", None),
        ("parking_lot::lock_api::Mutex::lock", "lock", None), ("parking_lot::lock_api::Mutex::try_lock", "trylock", None),
        ("tempfile::TempDir::new", "tmp.new", None), ("tempfile::TempDir::close", "tmp.close", None)):
    MODELS[_n] = event(_e, _r)


def bool_then(eng, args, st, call):
    g = asbool(D(eng, st, args[0]))
    s1, s0 = narrow(st, g), narrow(st, gnot(g))
    outs = []
    if s1 is not None:
        v, s1 = eng.call_closure(s1, args[1], [])
        outs.append((SOME(v) if v is not BOT else BOT, s1))
    outs.append((NONE, s0))
    return eng.joinv(outs)


reg("core::bool::<impl bool>::then", bool_then)
reg("core::bool::<impl bool>::then_some", lambda eng, args, st, call: (select(asbool(args[0]), SOME(args[1]), NONE), st))


def default(eng, args, st, call):
    g = call.gargs()
    t = eng.F.types[g[0]] if g else {}
    a = t.get("adt")
    if a in BMAP or a in BSET:
        return EMPTYMAP, st
    if a == "std::vec::Vec":
        return NIL, st
    if a == "std::string::String" or t.get("k") == "str" or a == COW:
        return STR(""), st
    if a == OPTION:
        return NONE, st
    if t.get("k") in ("int", "uint", "bool"):
        return INT(0), st
    return None


reg("std::default::Default::default", default)


def clone(eng, args, st, call):
    return D(eng, st, args[0]), st


reg("std::clone::Clone::clone", clone)
reg("std::cell::Cell::get std::cell::Cell::into_inner", lambda eng, args, st, call: (D(eng, st, args[0]), st))
reg("std::cell::Cell::new", lambda eng, args, st, call: (args[0], st))
reg("std::cell::Cell::set", mem_set)
reg("std::cell::Cell::replace", mem_replace)
reg("std::cell::Cell::take", mem_take)


def as_deref_mut(eng, args, st, call):
    r = args[0]
    if not hasm(r):
        v = D(eng, st, r)
        return v, st
    cur = D(eng, st, r)
    g = is_some(cur)
    ref = mapleaves(r, lambda x: mk("mref", x.a[0], x.a[1] + (("f", OPTION, 1, 0, None),)))
    return select(g, SOME(ref), NONE), st


reg("std::option::Option::as_deref_mut std::option::Option::as_mut", as_deref_mut)
reg("std::option::Option::as_ref std::option::Option::as_deref std::option::Option::cloned std::option::Option::copied std::result::Result::cloned", ident)
reg("std::result::Result::as_ref std::result::Result::as_deref", ident)


def opt_take(eng, args, st, call):
    v = D(eng, st, args[0])
    st = st.copy()
    eng.assign(st, args[0], NONE)
    return v, st


reg("std::option::Option::take", opt_take)


def opt_insert(eng, args, st, call):
    st = st.copy()
    eng.assign(st, args[0], SOME(args[1]))
    return mapleaves(args[0], lambda x: mk("mref", x.a[0], x.a[1] + (("f", OPTION, 1, 0, None),))), st


reg("std::option::Option::insert", opt_insert)


def opt_replace(eng, args, st, call):
    v = D(eng, st, args[0])
    st = st.copy()
    eng.assign(st, args[0], SOME(args[1]))
    return v, st


reg("std::option::Option::replace", opt_replace)


def loc_caller(eng, args, st, call):
    """the location seen through the chain of #[track_caller] functions"""
    for _, _, fr, _ in reversed(eng.stack):
        if not fr.body["track"]:
            return APP("Location::in", STR(fr.body["dpath"])), st
    return APP("Location::caller"), st


reg("std::panic::Location::caller", loc_caller)
for _n in ("fetch_add", "fetch_sub", "swap", "fetch_max", "fetch_min", "fetch_or", "fetch_and", "compare_exchange", "compare_exchange_weak",
           "load", "store", "fetch_update"):
    MODELS["std::sync::atomic::Atomic::" + _n] = event("atomic." + _n, UNIT if _n == "store" else None)

def vec_macro(eng, args, st, call):
    # vec![..]: the boxed array written through the uninitialised box
    v = D(eng, st, args[0])
    return v, st


reg("std::boxed::Box::new_uninit", lambda eng, args, st, call: (mk("undef"), st))
reg("std::boxed::box_assume_init_into_vec_unsafe std::boxed::Box::write", vec_macro)


def not_(eng, args, st, call):
    g = call.gargs()
    if g and eng.F.types[eng.F.peel(g[0])]["k"] == "bool":
        return gnot(asbool(D(eng, st, args[0]))), st


reg("std::ops::Not::not", not_)


def index_trait(eng, args, st, call):
    v, i = D(eng, st, args[0]), D(eng, st, args[1])
    g = call.gargs()
    t = eng.F.types[eng.F.peel(g[0])] if g else {}
    ti = eng.F.types[g[1]] if len(g) > 1 else {}
    if ti.get("s") == "std::ops::RangeFull":
        return v, st
    if ti.get("s") == "usize":
        if args[0].op == "mref" and E.IDX:
            l, p = eng.element(args[0].a[0], args[0].a[1], i)
            return eng.read(st, l, p), st
        return index(v, i), st
    if t.get("adt") in BMAP:
        return mget_val(v, i), st
    r = slice_of(v, i)
    return r, st


def slice_of(v, i):
    """canonical sub-range: slice(v, from|None, to|None)"""
    lo = hi = None
    if i.op == "adt":
        nm = short(i.a[0])
        if nm == "Range":
            lo, hi = i.a[2], i.a[3]
        elif nm == "RangeTo":
            hi = i.a[2]
        elif nm == "RangeFrom":
            lo = i.a[2]
        else:
            return APP("slice:" + nm, v, i)
        return cut_list(v, lo or INT(0), hi)
    return APP("slicei", v, i)


def cut_list(v, lo, hi=None):
    """the elements of a list from one position to another (or its end)"""
    if v.op == "sw":
        return mapleaves(v, lambda v: cut_list(v, lo, hi))
    if lo.op == "sw":
        return mapleaves(lo, lambda lo: cut_list(v, lo, hi))
    if hi is None:
        hi = length(v)
    if hi.op == "sw":
        return mapleaves(hi, lambda hi: cut_list(v, lo, hi))
    if lo.op == "int" and lo is hi:
        return NIL
    if lo.op == hi.op == "int" and v.op == "arr" and lo.a[0] <= hi.a[0] <= len(v.a):
        return mk("arr", *v.a[lo.a[0]:hi.a[0]])
    if v.op not in ("str", "bytes", "arr") and lo is INT(0) and hi is length(v):
        return v
    if lo.op == "int" and hi is length(v) and v.op == "app" and v.a[0] == "lcat" and v.a[1].op == "arr" and lo.a[0] <= len(v.a[1].a):
        return lcat(mk("arr", *v.a[1].a[lo.a[0]:]), *v.a[2:])
    return mk("app", "slice", v, lo, hi if hi is not length(v) else APP("len", v))


def index_mut(eng, args, st, call):
    r, i = args[0], D(eng, st, args[1])
    if not hasm(r):
        return index_trait(eng, args, st, call)
    g = call.gargs()
    t = eng.F.types[eng.F.peel(g[0])] if g else {}
    ti = eng.F.types[g[1]] if len(g) > 1 else {}
    if ti.get("s") != "usize" or t.get("adt") in BMAP:
        return None

    def f(x):
        if x.op != "mref":
            raise E.Unsupported("an element of an unknown list is mutated")
        l, p = eng.element(x.a[0], x.a[1], i)
        return mk("mref", l, p)
    return mapleaves(r, f), st


for _m in ("std::collections::btree_map::", "std::collections::hash_map::", "std::collections::btree::map::entry::", "std::collections::hash::map::"):
    for _o in ("get", "get_mut", "into_mut", "insert", "remove", "remove_entry", "key"):
        reg(f"{_m}OccupiedEntry::{_o}", entry_op(_o))
    for _o, _n in (("insert", "put"), ("key", "key"), ("into_key", "key")):
        reg(f"{_m}VacantEntry::{_o}", entry_op(_n))


def bounds(r):
    """(from, to) of a range value; None stands for the end"""
    if r.op != "adt":
        return None
    n = short(r.a[0])
    return {"Range": lambda: (r.a[2], r.a[3]), "RangeTo": lambda: (INT(0), r.a[2]), "RangeFrom": lambda: (r.a[2], None), "RangeFull": lambda: (INT(0), None)}.get(n, lambda: None)()


def around(v, lo, hi):
    """(before, inside, after) a range of a list"""
    return cut_list(v, INT(0), lo), cut_list(v, lo, hi), NIL if hi is None else cut_list(v, hi)


def v_truncate(eng, args, st, call):
    return UNIT, setmap(eng, st, args[0], lambda l: mapleaves(l, lambda x: x if x.op == "arr" and args[1].op == "int" and args[1].a[0] > len(x.a) else cut_list(x, INT(0), args[1])))


def v_split_off(eng, args, st, call):
    l = D(eng, st, args[0])
    return cut_list(l, args[1]), setmap(eng, st, args[0], lambda l: cut_list(l, INT(0), args[1]))


def v_drain(eng, args, st, call):
    b = bounds(args[1])
    if b is None or args[0].op != "mref":
        return None
    l = D(eng, st, args[0])
    x, y, z = around(l, *b)
    return mapleaves(y, it_list), setmap(eng, st, args[0], lambda _: lcatd(x, z))


def v_splice(eng, args, st, call):
    """takes effect when dropped; nothing else can happen in between to the borrowed list"""
    b = bounds(args[1])
    if b is None or args[0].op != "mref":
        return None
    at = call.argtys()
    x, y, z = around(D(eng, st, args[0]), *b)
    it = into_iter_val(eng, st, args[2], at[2] if len(at) > 2 else None)
    loc, s, ex = consume(eng, st, it, NIL, lambda s, l, e: (put(s, l, lcatd(s.mem[l], mk("arr", e))), {}))
    if s is None or ex:
        return None
    new = s.mem.pop(loc)
    return mapleaves(y, it_list), setmap(eng, s, args[0], lambda _: lcatd(lcatd(x, new), z))


def put(s, l, v):
    s = s.copy()
    s.mem[l] = v
    return s


def v_concat(eng, args, st, call):
    ts = call.gargs()
    v = D(eng, st, args[0])
    if v.op != "arr" or not ts or "str" in eng.F.types[eng.F.peel(ts[0])]["s"].lower():
        return None
    out = NIL
    for x in v.a:
        out = lcatd(out, D(eng, st, x))
    return out, st


def v_reverse(eng, args, st, call):
    l = D(eng, st, args[0])
    if not all(x.op == "arr" for g, x in gleaves(l) if x is not BOT):
        return None
    return UNIT, setmap(eng, st, args[0], lambda l: mapleaves(l, lambda x: mk("arr", *x.a[::-1])))


def v_rotate(right):
    def f(eng, args, st, call):
        k = args[1]
        if k.op != "int":
            return None

        def g(x):
            if right:
                back = []
                for _ in range(k.a[0]):
                    x, e = lastpart(x)
                    if e is None:
                        raise E.Unsupported("the end of a rotated list is not known")
                    back.insert(0, e)
                return lcat(mk("arr", *back), x)
            h = x.a[1] if x.op == "app" and x.a[0] == "lcat" else x
            if h.op != "arr" or len(h.a) < k.a[0]:
                raise E.Unsupported("the start of a rotated list is not known")
            return lcat(mk("arr", *h.a[k.a[0]:]), *(x.a[2:] if h is not x else ()), mk("arr", *h.a[:k.a[0]]))
        return UNIT, setmap(eng, st, args[0], lambda l: mapleaves(l, g))
    return f


def l_get(eng, args, st, call):
    """slice.get(position or range)"""
    v, i = D(eng, st, args[0]), D(eng, st, args[1])
    b = bounds(i)
    if b is None:
        if i.op != "int":
            return None
        g = lambda x: x.op == "arr" or x.op == "app" and x.a[0] == "lcat" and x.a[1].op == "arr" and i.a[0] < len(x.a[1].a)
        if i.a[0] == 0:
            return l_first(eng, args, st, call)
        if not all(g(x) for _, x in gleaves(v) if x is not BOT):
            return None
        return mapleaves(v, lambda x: SOME(index(x, i)) if x.op != "arr" or i.a[0] < len(x.a) else NONE), st
    if v.op != "arr" or b[0].op != "int" or b[1] is not None and b[1].op != "int":
        return None
    lo, hi = b[0].a[0], len(v.a) if b[1] is None else b[1].a[0]
    return (SOME(mk("arr", *v.a[lo:hi])) if lo <= hi <= len(v.a) else NONE), st


def l_split_at(eng, args, st, call):
    v = D(eng, st, args[0])
    if isstr(eng, call):
        return None
    return TUP(cut_list(v, INT(0), args[1]), cut_list(v, args[1])), st


def s_split_at(eng, args, st, call):
    """as indexing by the two ranges"""
    v, n = D(eng, st, args[0]), D(eng, st, args[1])
    if v.op == "str":
        return None
    return TUP(cut_list(v, INT(0), n), cut_list(v, n)), st


def isstr(eng, call):
    g = call.gargs()
    return not g or "str" in eng.F.types[eng.F.peel(g[0])]["s"]


def s_insert(eng, args, st, call):
    x = D(eng, st, args[2])
    x = STR(chr(x.a[0])) if x.op == "int" else x
    if args[1] is not INT(0):
        return None
    return UNIT, setmap(eng, st, args[0], lambda l: scatd(x, l))


def it_partition(eng, args, st, call):
    it = args[0]
    st = st.copy()
    yes, no = eng.newloc(st, NIL), eng.newloc(st, NIL)

    def b(s, e):
        v, s = eng.call_closure(s, args[1], [e])
        if s is None:
            return None, {}
        g = asbool(v)
        s = s.copy()
        s.mem[yes], s.mem[no] = select(g, lcatd(s.mem[yes], mk("arr", e)), s.mem[yes]), select(g, s.mem[no], lcatd(s.mem[no], mk("arr", e)))
        return s, {}
    t = eng.F.types[call.retty()]
    if [kindof(eng, x)[0] for x in t.get("args", [])] != ["list", "list"]:
        return None
    s, ex = iterate(eng, st, it, b)
    return (BOT, None) if s is None else (TUP(s.mem.pop(yes), s.mem.pop(no)), s)


def it_unzip(eng, args, st, call):
    st = st.copy()
    yes, no = eng.newloc(st, NIL), eng.newloc(st, NIL)
    t = eng.F.types[call.retty()]
    if [kindof(eng, x)[0] for x in t.get("args", [])] != ["list", "list"]:
        return None

    def b(s, e):
        s = s.copy()
        s.mem[yes], s.mem[no] = lcatd(s.mem[yes], mk("arr", proj(e, "tuple", 0, 0))), lcatd(s.mem[no], mk("arr", proj(e, "tuple", 0, 1)))
        return s, {}
    s, ex = iterate(eng, st, args[0], b)
    return (BOT, None) if s is None else (TUP(s.mem.pop(yes), s.mem.pop(no)), s)


def it_reduce(eng, args, st, call):
    def b(s, loc, e):
        a = s.mem[loc]
        s1, s0 = narrow(s, is_some(a)), narrow(s, gnot(is_some(a)))
        if s1 is not None:
            v, s1 = eng.call_closure(s1, args[1], [cofactor(unsome(a), s1.g), e])
            s1 = None if s1 is None else put(s1, loc, SOME(v))
        if s0 is not None:
            s0 = put(s0, loc, SOME(e))
        return merge([s1, s0]), {}
    loc, s, ex = consume(eng, st, args[0], NONE, b)
    return (BOT, None) if s is None else (s.mem.pop(loc), s)


def it_nth(eng, args, st, call):
    k, ref = args[1], args[0]
    if k.op != "int" or ref.op != "mref":
        return None
    for _ in range(k.a[0] + 1):
        r = it_step(eng, st, eng.deref(st, ref), call)
        if r is None or r[0].op != "adt":
            return None
        v, rest, st = r
        st = st.copy()
        eng.assign(st, ref, rest)
        if v is NONE:
            break
    return v, st


def m_remove_entry(eng, args, st, call):
    old, s = m_remove(eng, args, st, call)
    k = D(eng, st, args[1])
    return mapleaves(old, lambda x: SOME(TUP(k, x.a[2])) if x.op == "adt" and x.a[:2] == (OPTION, 1) else x if x is NONE or x is BOT else
                     select(is_some(x), SOME(TUP(k, unsome(x))), NONE)), s


def m_get_key_value(eng, args, st, call):
    k = D(eng, st, args[1])
    o = mget(D(eng, st, args[0]), k)
    return select(is_some(o), SOME(TUP(k, unsome(o))), NONE), st


reg("std::vec::Vec::truncate", v_truncate)
reg("std::vec::Vec::split_off", v_split_off)
reg("std::vec::Vec::drain", v_drain)
reg("std::vec::Vec::splice", v_splice)
reg("std::slice::<impl [T]>::concat core::slice::<impl [T]>::concat", v_concat)
reg("core::slice::<impl [T]>::reverse", v_reverse)
reg("core::slice::<impl [T]>::rotate_right", v_rotate(True))
reg("core::slice::<impl [T]>::rotate_left", v_rotate(False))
reg("core::slice::<impl [T]>::get", l_get)
reg("core::slice::<impl [T]>::split_at", l_split_at)
reg("core::str::<impl str>::split_at", s_split_at)
reg("std::string::String::insert std::string::String::insert_str", s_insert)
reg("std::iter::Iterator::partition", it_partition)
reg("std::iter::Iterator::unzip", it_unzip)
reg("std::iter::Iterator::reduce", it_reduce)
reg("std::iter::Iterator::nth", it_nth)
def it_closure(n):
    """an iterator around a closure, which keeps its own state"""
    def f(eng, args, st, call):
        st = st.copy()
        l = eng.newloc(st, args[-1])
        return APP(n, *args[:-1], mk("mref", l, ())), st
    return f


reg("std::iter::from_fn", it_closure("it:fn"))
reg("std::iter::successors", it_closure("it:succ"))
for _m in ("std::collections::BTreeMap", "std::collections::HashMap"):
    reg(f"{_m}::remove_entry", m_remove_entry)
    reg(f"{_m}::get_key_value", m_get_key_value)
def remaining(it):
    """how many items an iterator that knows it still has, or None"""
    n = it.a[0] if it.op == "app" else None
    if n in ("it:list", "it:map"):
        return length(it.a[1])
    if n in ("it:enum", "it:rev", "it:map_", "it:keys", "it:vals"):
        return remaining(it.a[1])
    if n == "it:once":
        return INT(1)
    if n == "it:empty":
        return INT(0)
    if it.op == "adt" and it.a[0] == "std::ops::Range" and it.a[2].op == it.a[3].op == "int":
        return INT(max(0, it.a[3].a[0] - it.a[2].a[0]))
    return None


def it_exact(hint):
    def m(eng, args, st, call):
        if call.fn.get("key"):
            return None
        ls = []

        def f(x):
            r = remaining(x)
            ls.append(r)
            return UNIT if r is None else r
        v = mapleaves(D(eng, st, args[0]), f)
        if any(x is None for x in ls):
            return None
        return (TUP(v, SOME(v)) if hint else v), st
    return m


reg("std::iter::ExactSizeIterator::len", it_exact(False))
reg("std::iter::Iterator::size_hint", it_exact(True))
reg("std::ops::Index::index", index_trait)
reg("std::ops::IndexMut::index_mut", index_mut)


def joined(l, sep):
    """the elements of a list of strings with a separator between them"""
    def f(x):
        if x.op == "app" and x.a[0] == "lgen":
            y = lgenc(x.a[1], x.a[2])
            if y is not x:
                return mapleaves(y, f)
        if x.op == "arr" and not any(y.op == "sw" for y in x.a):
            out = []
            for i, y in enumerate(x.a):
                out += ([sep] if i else []) + [y]
            return scat(*out)
        return APP("joined", x, sep)
    return mapleaves(l, f)


REAPP["joined"] = joined
reg("std::slice::<impl [T]>::join", lambda eng, args, st, call: (joined(D(eng, st, args[0]), D(eng, st, args[1])), st))
reg("std::any::type_name", lambda eng, args, st, call: (APP("type_name", STR(eng.F.tys(eng.F.peel(call.gargs()[0])) if call.gargs() else "?")), st))

# pure, uninterpreted, result reads its inputs only
PURE_PREFIX = ("core::str::<impl str>::", "std::str::<impl str>::", "std::path::Path::", "std::char::", "core::num::", "core::char::",
               "std::f32::", "std::f64::", "core::f32::", "core::f64::", "std::any::type_name", "uncased::UncasedStr::", "std::ffi::OsStr::",
               "std::ffi::OsString::", "serde::de::Error::", "serde_core::de::Error::", "std::io::Error::")


def generic(eng, decl, res, args, st, call):
    for t in IDENT_TRAITS:
        if decl == t:
            return D(eng, st, args[0]), st
    if decl == "std::clone::Clone::clone":
        return D(eng, st, args[0]), st
    if decl == "std::iter::DoubleEndedIterator::rev":
        return APP("it:rev", args[0]), st
    if decl == "core::str::<impl str>::parse" or decl == "std::str::FromStr::from_str":
        g = call.gargs()
        t = eng.F.types[g[0]] if g else None
        if t is not None and t["k"] == "adt" and eng.F.adts[t["adt"]]["local"]:
            for it in eng.F.items:
                if it["name"] == "from_str" and it["trait"] == "std::str::FromStr" and it["self"] is not None \
                        and eng.F.types[it["self"]].get("adt") == t["adt"]:
                    m = eng.user_models.get("std::str::FromStr::from_str")
                    r = m(eng, args, st, call) if m is not None else None
                    return r if r is not None else eng.enter(eng.F.bodies[it["key"]], [D(eng, st, args[0])], st, call)
        return APP("parse:" + (t["s"] if t else "?"), D(eng, st, args[0])), st
    return None


def localmodel(eng, decl, res, args, st, call):
    return None


def unknown(eng, f, args, st, call):
    name = norm(f.get("res") or f["decl"])
    decl = norm(f["decl"])
    if f.get("trait"):
        name = decl
    ga = ""
    # trait calls on type parameters / externals keep the self type
    if f.get("trait") and f["args"]:
        ga = "@" + eng.F.tys(eng.F.peel(f["args"][0]))
    nm = name + ga
    for x in ("core::", "alloc::"):
        if nm.startswith(x):
            nm = nm
    if any(hasm(a) for a in args) or any(a.op == "clo" for a in args):
        pass
    v, s = eng.opaque_call(nm, args, st, call)
    eng.unknowns[nm] = eng.unknowns.get(nm, 0) + 1
    if f.get("trait") in EFFECT_TRAITS or any(name.startswith(p) for p in EFFECT_PREFIX):
        s = s.copy()
        eng.log(s, v if v.op != "sw" else APP(nm, *[D(eng, st, a) for a in args]))
    return v, s


EFFECT_TRAITS = set()
EFFECT_PREFIX = ("std::fs::", "std::env::", "std::process::", "std::io::", "std::net::", "std::os::")
