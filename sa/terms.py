"""Hash-consed value-graph terms with gated (decision-diagram) joins.

A term is an interned tuple-like node.  `sw` nodes are gated phi nodes: an
ordered multi-valued decision diagram over condition terms, whose leaves are
values.  Nothing here enumerates program paths or calls a solver: joins of the
dataflow analysis build `sw` nodes, and `cofactor` simplifies a node under the
guard of the program point that reads it.
"""
import itertools, sys
sys.setrecursionlimit(20000)
_tab = {}
_ctr = itertools.count()


class T:
    __slots__ = ("op", "a", "id", "conds", "bvs", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = next(_ctr)
        cs = set()
        bv = set()
        for x in a:
            if type(x) is T:
                cs |= x.conds
                bv |= x.bvs
            elif type(x) is tuple:
                for y in x:
                    if type(y) is T:
                        cs |= y.conds
                        bv |= y.bvs
        if op == "sw":
            cs.add(a[0])
        if op == "bv" or op == "mu":
            bv.add(t)
        t.conds = frozenset(cs)
        t.bvs = frozenset(bv)
        _tab[k] = t
    return t


def INT(n): return mk("int", int(n))
TRUE = INT(1)
FALSE = INT(0)
BOT = mk("bot")
UNIT = mk("tup")
def STR(s): return mk("str", s)
def SYM(name, ty=None): return mk("sym", name, ty)
def APP(f, *a): return mk("app", f, *a)
def TUP(*a): return mk("tup", *a)
def ADT(path, vi, *f): return mk("adt", path, vi, *f)


OPTION = "std::option::Option"
RESULT = "std::result::Result"
NONE = ADT(OPTION, 0)
def SOME(x): return ADT(OPTION, 1, x)
def OK(x): return ADT(RESULT, 0, x)
def ERR(x): return ADT(RESULT, 1, x)


# ---- decision diagrams -------------------------------------------------------
# ("sw", cond, keys(tuple), children(tuple)); key "else" is the default.

def domain(c):
    """finite key domain of a condition term or None"""
    if c.op == "discr":
        return c.a[1]
    if c.op == "bool":
        return (0, 1)
    return None


def child(t, c, k):
    """cofactor of t at c=k, only looking at the top node"""
    if t.op == "sw" and t.a[0] is c:
        keys, ch = t.a[1], t.a[2]
        for kk, x in zip(keys, ch):
            if kk == k:
                return x
        if keys and keys[-1] == "else":
            return ch[-1]
        return BOT
    return t


def keyset(c, ts):
    d = domain(c)
    if d is not None:
        return list(d)
    ks = []
    for t in ts:
        if t.op == "sw" and t.a[0] is c:
            for k in t.a[1]:
                if k != "else" and k not in ks:
                    ks.append(k)
    ks.sort(key=lambda k: (str(type(k)), k))
    return ks + ["else"]


def nonempty(c):
    """the length of a symbolic path segment is never zero"""
    return c.op == "app" and c.a[0] == "len" and c.a[1].op == "sym" and c.a[1].a[0].startswith("§")


def mksw(c, kv):
    """kv: list of (key, term); BOT = infeasible / don't care"""
    live = [(k, t) for k, t in kv if t is not BOT and not (k == 0 and nonempty(c))]
    if not live:
        return BOT
    first = live[0][1]
    if all(t is first for _, t in live):
        return first
    if all(t.op == "adt" for _, t in live) and all(t.a[:2] == first.a[:2] for _, t in live) \
            or all(t.op == "tup" and len(t.a) == len(first.a) for _, t in live):
        off = 2 if first.op == "adt" else 0
        n = len(first.a)
        if first.op == "tup" or all(len(t.a) == n for _, t in live):
            fs = [mksw(c, [(k, t.a[j]) for k, t in live]) for j in range(off, n)]
            return mk(first.op, *(first.a[:off] + tuple(fs)))
    if domain(c) is None:
        # drop keys equal to the default
        d = dict(live)
        if "else" in d:
            live = [(k, t) for k, t in live if k == "else" or t is not d["else"]]
            if len(live) == 1:
                return live[0][1]
    return mk("sw", c, tuple(k for k, _ in live), tuple(t for _, t in live))


def top(*ts):
    b = None
    for t in ts:
        if t.op == "sw":
            c = t.a[0]
            if b is None or c.id < b.id:
                b = c
    return b


_selm = {}


def select(g, a, b):
    """if g then a else b; g is a boolean diagram with leaves TRUE/FALSE/BOT"""
    if g is TRUE:
        return a
    if g is FALSE:
        return b
    if g is BOT:
        return BOT
    if a is b:
        return a
    if a is BOT:
        return b
    if b is BOT:
        return a
    m = (g, a, b)
    r = _selm.get(m)
    if r is not None:
        return r
    if a.op == b.op == "adt" and a.a[:2] == b.a[:2] and len(a.a) == len(b.a):
        r = mk("adt", *(a.a[:2] + tuple(select(g, x, y) for x, y in zip(a.a[2:], b.a[2:]))))
    elif a.op == b.op == "tup" and len(a.a) == len(b.a):
        r = mk("tup", *(select(g, x, y) for x, y in zip(a.a, b.a)))
    elif a.op == b.op == "clo" and a.a[:2] == b.a[:2]:
        r = mk("clo", *(a.a[:2] + tuple(select(g, x, y) for x, y in zip(a.a[2:], b.a[2:]))))
    else:
        c = top(g, a, b)
        ks = keyset(c, (g, a, b))
        r = mksw(c, [(k, select(child(g, c, k), child(a, c, k), child(b, c, k))) for k in ks])
    _selm[m] = r
    return r


def gand(a, b):
    return select(a, b, FALSE)


def gor(a, b):
    return select(a, TRUE, b)


def gnot(a):
    return select(a, FALSE, TRUE)


def gate(c, k):
    """guard for c == k"""
    d = domain(c)
    if d is not None:
        return mksw(c, [(x, TRUE if x == k else FALSE) for x in d])
    return mksw(c, [(k, TRUE), ("else", FALSE)])


def is_false(g):
    return g is FALSE or g is BOT


_mapm = {}


def mapleaves(t, f):
    """apply f to the leaves of the top-level diagram of t"""
    if t is BOT:
        return BOT
    if t.op != "sw":
        return f(t)
    c = t.a[0]
    return mksw_ord(c, [(k, mapleaves(x, f)) for k, x in zip(t.a[1], t.a[2])])


def mksw_ord(c, kv):
    """like mksw but children may mention c or conds ordered before c"""
    if any(c in x.conds for _, x in kv):
        ks = tuple(k for k, _ in kv)
        kv = [(k, restrict(x, c, k, ks) if c in x.conds else x) for k, x in kv]
    need = any(x.op == "sw" and x.a[0].id < c.id for _, x in kv if x is not BOT)
    if not need:
        return mksw(c, kv)
    ts = [x for _, x in kv]
    tc = top(*ts)
    ks = keyset(tc, ts)
    return mksw(tc, [(k, mksw_ord(c, [(kk, child(x, tc, k)) for kk, x in kv])) for k in ks])


_cof = {}


def exists(g, c):
    """project the condition c out of guard g (top level)"""
    r = FALSE
    for x in g.a[2]:
        if x is not BOT:
            r = gor(r, x)
    return r


def cofactor(t, g):
    """simplify t knowing guard g holds (at every depth of t)"""
    if g is TRUE or not t.conds or t is BOT:
        return t
    if is_false(g):
        return BOT
    if not (t.conds & g.conds):
        return t
    m = (t, g)
    r = _cof.get(m)
    if r is not None:
        return r
    c = g.a[0]
    if c not in t.conds:
        r = cofactor(t, exists(g, c))
    elif t.op == "sw":
        tc = t.a[0]
        if tc is c:
            kv = []
            for k in keyset(c, (t, g)):
                gk = child(g, c, k)
                if is_false(gk):
                    kv.append((k, BOT))
                else:
                    kv.append((k, cofactor(fix(child(t, c, k), c, k), gk)))
            r = mksw_ord(c, kv)
        elif tc.id < c.id:
            # simplify condition itself?  conds are atomic: children only
            r = mksw_ord(tc, [(k, cofactor(x, g)) for k, x in zip(t.a[1], t.a[2])])
        else:
            # c occurs deeper: split on c at the top
            kv = []
            feas = [k for k in keyset(c, (g,)) if not is_false(child(g, c, k))]
            if len(feas) == 1:
                r = cofactor(fix(t, c, feas[0]), child(g, c, feas[0]))
            else:
                r = mksw_ord(tc, [(k, cofactor(x, g)) for k, x in zip(t.a[1], t.a[2])])
    else:
        feas = [k for k in keyset(c, (g,)) if not is_false(child(g, c, k))]
        if len(feas) == 1 and feas[0] != "else":
            r = cofactor(fix(t, c, feas[0]), child(g, c, feas[0]))
        else:
            r = rebuild(t, lambda x: cofactor(x, g))
    _cof[m] = r
    return r


def restrict(t, c, k, ks):
    """t knowing that c took the branch k of a node with keys ks"""
    if k != "else":
        return fix(t, c, k)
    return fixelse(t, c, tuple(x for x in ks if x != "else"))


_fem = {}


def fixelse(t, c, excl):
    if c not in t.conds:
        return t
    m = (t, c, excl)
    r = _fem.get(m)
    if r is None:
        if t.op == "sw" and t.a[0] is c:
            kv = [(kk, fixelse(x, c, excl)) for kk, x in zip(t.a[1], t.a[2]) if kk not in excl]
            if len(kv) == 1 and kv[0][0] == "else":
                r = kv[0][1]
            else:
                r = mksw(c, kv) if kv else BOT
        elif t.op == "sw":
            r = mksw_ord(t.a[0], [(kk, fixelse(x, c, excl)) for kk, x in zip(t.a[1], t.a[2])])
        else:
            r = rebuild(t, lambda x: fixelse(x, c, excl))
        _fem[m] = r
    return r


_fixm = {}


def fix(t, c, k):
    """substitute c = k everywhere in t"""
    if c not in t.conds:
        return t
    m = (t, c, k)
    r = _fixm.get(m)
    if r is None:
        if t.op == "sw" and t.a[0] is c:
            x = child(t, c, k)
            r = fix(x, c, k)
        elif t.op == "sw":
            r = mksw_ord(t.a[0], [(kk, fix(x, c, k)) for kk, x in zip(t.a[1], t.a[2])])
        else:
            r = rebuild(t, lambda x: fix(x, c, k))
        _fixm[m] = r
    return r


RECON = {}


def rebuild(t, f):
    if t.op == "app" and t.a[0] in BINDERS:
        a, ph = opened(t)
        na = tuple(f(y) if type(y) is T else y for y in a)
        if na == a:
            return t
        if any(y is BOT for y in na):
            return BOT
        return CLOSE[t.a[0]](na, ph)

    def g(x):
        if type(x) is T:
            return f(x)
        if type(x) is tuple:
            return tuple(g(y) for y in x)
        return x
    na = tuple(g(x) for x in t.a)
    if na == t.a:
        return t
    if any(x is BOT for x in na):
        return BOT
    if t.op in RECON:
        return RECON[t.op](*na)
    return mk(t.op, *na)


BINDERS = ("map.lam", "lgen", "sgen", "fold", "folds")
CLOSE = {}
_hgt = {}


def height(t):
    """1 + height of the deepest closed binder inside t (0: none)"""
    h = _hgt.get(t)
    if h is not None:
        return h
    h = 0
    for x in t.a:
        if type(x) is T:
            h = max(h, height(x))
        elif type(x) is tuple:
            for y in x:
                if type(y) is T:
                    h = max(h, height(y))
    if t.op == "app" and t.a[0] in BINDERS:
        h += 1
    _hgt[t] = h
    return h


def bound(x):
    """bound variables of a closed binder node"""
    n = height(x) - 1
    return [b for b in x.bvs if b.op == "bv" and b.a[0] == n and b.a[1][0] == "#"]


_opm = {}


def opened(x):
    """the node's arguments with its bound variables replaced by placeholders"""
    r = _opm.get(x)
    if r is None:
        r = _opm[x] = opened0(x)
    return r


def opened0(x):
    bs = bound(x)
    if not bs:
        return x.a, {}
    m = {b: mk("sym", "<ph>", (x.id, b.a[1])) for b in bs}
    off = {"map.lam": 1}.get(x.a[0], 2)      # the source is outside the scope
    memo = {}
    a = tuple(subst(y, m, memo) if type(y) is T and i >= off else y for i, y in enumerate(x.a))
    return a, {v: k.a[1] for k, v in m.items()}


def subst(t, m, memo=None):
    """capture-avoiding replacement of nodes (dict node -> node) everywhere,
    including inside conditions"""
    if memo is None:
        memo = {}
    onlybv = all(k.op == "bv" or k.op == "mu" for k in m)
    keys = frozenset(m)

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x in m:
            r = m[x]
        elif onlybv and not (x.bvs & keys):
            r = x
        elif x.op == "app" and x.a[0] in BINDERS:
            a, ph = opened(x)
            na = tuple(go(y) if type(y) is T else y for y in a)
            if any(y is BOT for y in na):
                r = BOT
            else:
                r = x if na == a else CLOSE[x.a[0]](na, ph)
        elif x.op == "sw":
            c = go(x.a[0])
            kv = [(k, go(y)) for k, y in zip(x.a[1], x.a[2])]
            r = apply_sw(c, kv)
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def rewrite(t, f):
    """replace the nodes x for which f(x) is not None, outermost first, inside binders too"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        r = f(x)
        if r is not None:
            pass
        elif x.op == "app" and x.a[0] in BINDERS:
            a, ph = opened(x)
            na = tuple(go(y) if type(y) is T else y for y in a)
            r = BOT if any(y is BOT for y in na) else x if na == a else CLOSE[x.a[0]](na, ph)
        elif x.op == "sw":
            r = apply_sw(go(x.a[0]), [(k, go(y)) for k, y in zip(x.a[1], x.a[2])])
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def apply_sw(c, kv):
    """build a switch on a (possibly already decided) condition value"""
    if c is BOT:
        return BOT
    if c.op == "int":
        d = dict(kv)
        if c.a[0] in d:
            return d[c.a[0]]
        return d.get("else", BOT)
    if c.op == "str":
        d = dict(kv)
        return d.get(c.a[0], d.get("else", BOT))
    if c.op == "sw":
        return mksw_ord(c.a[0], [(k, apply_sw(x, kv)) for k, x in zip(c.a[1], c.a[2])])
    return mksw_ord(c, kv)


def walk(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for y in x.a:
            if type(y) is T:
                st.append(y)
            elif type(y) is tuple:
                st.extend(z for z in y if type(z) is T)


def apps(t, name=None):
    for x in walk(t):
        if x.op == "app" and (name is None or x.a[0] == name):
            yield x


def leaves(t, g=()):
    """(path, leaf) pairs of the top-level diagram"""
    if t.op == "sw":
        for k, x in zip(t.a[1], t.a[2]):
            yield from leaves(x, g + ((t.a[0], k),))
    else:
        yield g, t


def short(p):
    import re
    p = re.sub(r"<.*?>", "", str(p))
    return p.split("::")[-1]


def show(t, d=0, maxd=14):
    if d > maxd:
        return "…"
    o, a = t.op, t.a
    s = lambda x: show(x, d + 1, maxd) if type(x) is T else ("(" + ", ".join(s(y) for y in x) + ")" if type(x) is tuple else str(x))
    if o == "int":
        return str(a[0])
    if o == "str":
        return repr(a[0])
    if o == "sym":
        return a[0]
    if o == "tup":
        return "(" + ", ".join(map(s, a)) + ")"
    if o == "adt":
        return f"{short(a[0])}#{a[1]}" + ("{" + ", ".join(map(s, a[2:])) + "}" if len(a) > 2 else "")
    if o == "app":
        return f"{a[0]}(" + ", ".join(map(s, a[1:])) + ")"
    if o == "proj":
        return f"{s(a[3])}.{short(a[0])}{a[1]}.{a[2]}"
    if o == "discr":
        return f"discr({s(a[0])})"
    if o == "bool":
        return s(a[0])
    if o == "clo":
        return f"λ{short(a[1])}[" + ", ".join(map(s, a[2:])) + "]"
    if o == "sw":
        return f"sw[{s(a[0])}]{{" + ", ".join(f"{k}:{s(x)}" for k, x in zip(a[1], a[2])) + "}"
    if o == "bv":
        return f"%{a[0]}{a[1]}"
    if o == "mu":
        return f"μ{a[0]}.{s(a[1]) if type(a[1]) is T else a[1]}"
    return o + "(" + ", ".join(map(s, a)) + ")"
