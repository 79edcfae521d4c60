"""Interprocedural gated value-graph construction over MIR (an abstract
interpretation: one abstract state per program point, joined at merges; loops
summarised as folds; recursion and unknown callees uninterpreted)."""
import json, os
from terms import *
import bits


class Unsupported(Exception):
    pass


class Facts:
    def __init__(self, path):
        F = json.load(open(path))
        self.raw = F
        self.types = F["types"]
        self.bodies = {b["key"]: b for b in F["bodies"]}
        self.adts = {a["path"]: a for a in F["adts"]}
        self.items = F["items"]
        self.impls = F["impls"]
        self.traits = {t["path"]: t for t in F["traits"]}
        self.statics = F["statics"]
        self.by_dpath = {}
        for b in F["bodies"]:
            self.by_dpath.setdefault(b["dpath"], []).append(b)
        self.derived = set()
        for im in self.impls:
            if im["derived"]:
                for n, d in im["methods"]:
                    self.derived.add(d)
        self.cfg = {}

    def ty(self, i):
        return self.types[i]

    def tys(self, i):
        return self.types[i]["s"]

    def peel(self, i):
        """strip references and boxes"""
        while True:
            t = self.types[i]
            if t["k"] in ("ref", "ptr"):
                i = t["of"]
            elif t["k"] == "adt" and t["adt"] == "std::boxed::Box":
                i = t["args"][0]
            else:
                return i

    def find(self, name, self_ty=None, trait=None, dmod=None):
        r = []
        for it in self.items:
            if it["name"] != name:
                continue
            if self_ty is not None:
                if it["self"] is None or self.tys(it["self"]) != self_ty:
                    continue
            if trait is not None:
                if not it["trait"] or it["trait"].split("<")[0] != trait:
                    continue
            elif self_ty is not None and it["impl_trait"]:
                continue
            if dmod is not None and not it["dpath"].startswith(dmod):
                continue
            r.append(it)
        return r


def cfg_info(body):
    """rpo order, loops: header -> set(blocks)"""
    blocks = body["blocks"]
    n = len(blocks)
    succ = []
    for b in blocks:
        t = b["t"]
        k = t[0]
        if k == "goto":
            s = [t[1]]
        elif k == "switch":
            s = [x[1] for x in t[2]] + [t[3]]
        elif k == "drop":
            s = [t[2]]
        elif k == "call":
            s = [t[4]] if t[4] is not None else []
        elif k == "assert":
            s = [t[4]]
        else:
            s = []
        succ.append(s)
    order, state = [], [0] * n
    back = []
    stack = [(0, iter(succ[0]))]
    state[0] = 1
    onst = {0}
    while stack:
        u, it = stack[-1]
        for v in it:
            if state[v] == 0:
                state[v] = 1
                onst.add(v)
                stack.append((v, iter(succ[v])))
                break
            elif v in onst:
                back.append((u, v))
        else:
            stack.pop()
            onst.discard(u)
            order.append(u)
    order.reverse()
    rpo = {b: i for i, b in enumerate(order)}
    pred = {}
    for u in order:
        for v in succ[u]:
            pred.setdefault(v, []).append(u)
    loops = {}
    for u, h in back:
        s = loops.setdefault(h, {h})
        st = [u]
        while st:
            x = st.pop()
            if x in s:
                continue
            s.add(x)
            st.extend(pred.get(x, []))
    return rpo, loops, succ


class St:
    __slots__ = ("mem", "g")

    def __init__(self, mem, g):
        self.mem = mem
        self.g = g

    def copy(self):
        return St(dict(self.mem), self.g)


def merge(sts):
    sts = [s for s in sts if s is not None and not is_false(s.g)]
    if not sts:
        return None
    cur = sts[0]
    for s in sts[1:]:
        gs = gor(cur.g, s.g)
        gg = cofactor(cur.g, gs)
        mem = {}
        for k in list(cur.mem) + [k for k in s.mem if k not in cur.mem]:
            a = cur.mem.get(k)
            b = s.mem.get(k)
            if a is None or b is None:
                # dead on one side: keep what is there (never read on the other)
                mem[k] = a if b is None else b
                if type(k) is tuple and k[0] == "l":
                    pass
            elif a is b:
                mem[k] = a
            else:
                mem[k] = select(gg, a, b)
        cur = St(mem, gs)
    return cur


def narrow(st, g, frames=None):
    """state under the additional guard g"""
    if g is TRUE:
        return st
    ng = gand(st.g, g)
    if is_false(ng):
        return None
    mem = {}
    cs = g.conds
    for k, v in st.mem.items():
        if v.conds & cs:
            v = cofactor(v, g)
        mem[k] = v
    return St(mem, ng)


LOG = "LOG"
UNW = "UNWINDING"      # set in a state that is unwinding
REC_BODIES = {}


class Ctx:
    """one loop being summarised"""
    def __init__(self, lvl):
        self.lvl = lvl
        self.nexts = []
        self.target = None
        self.mode = None
        self.elem = None
        self.used = 0


class Engine:
    def __init__(self, facts, opaque=(), models=None, oracle=None, maxdepth=70):
        self.F = facts
        self.opaque = set(opaque)      # dpaths kept uninterpreted
        self.stack = []
        self.lvl = 0
        self.nloc = 0
        self.panics = []               # (guard, kind, where)
        self.ctxs = []
        self.calls = {}                # dpath -> count (evidence)
        self.visited = set()
        self.loops = []
        self.maxdepth = maxdepth
        self.nframe = 0
        self.unwind_hook = None
        self.discr_ty = {}
        self.events = []
        self.anchor = None
        self.unknowns = {}
        self.rec_alias = {}
        import models as M
        M.CUR[:] = [self]
        eta.facts = facts.adts
        self.M = M
        self.models = M.MODELS
        self.user_models = models or {}
        self.compared = None
        self.oracle = oracle

    # ------------------------------------------------------------------ types
    def adt_of(self, tid):
        t = self.F.types[tid]
        if t["k"] == "adt":
            return self.F.adts[t["adt"]]
        return None

    def discr_of(self, v, tid):
        """term for discriminant value of v: diagram with INT leaves"""
        t = self.F.types[tid]
        adt = self.F.adts.get(t.get("adt")) if t["k"] == "adt" else None

        if t.get("adt") == COW and self.M.OWNEDCOW[0]:
            return mapleaves(v, lambda x: INT(1 if x.op == "app" and x.a[0] == "cow:owned" else 0))
        if t.get("adt") == COW:
            # borrowed and owned values are not told apart: either may be the case
            return mapleaves(v, lambda x: mksw_ord(mk("discr", APP("cow", x), (0, 1)), [(0, INT(0)), (1, INT(1))]))

        def f(x):
            if x.op == "adt":
                a = self.F.adts.get(x.a[0])
                if a and a["enum"]:
                    return INT(a["variants"][x.a[1]]["disc"])
                return INT(x.a[1])
            if x.op == "mref":
                raise Unsupported("discr of mref")
            if adt and adt["enum"]:
                if len(adt["variants"]) == 1:
                    return INT(adt["variants"][0]["disc"])
                dom = tuple(range(len(adt["variants"])))
                c = self.dcond(x, dom)
                return mksw_ord(c, [(i, INT(adt["variants"][i]["disc"])) for i in dom])
            return APP("discr", x)
        return mapleaves(v, f)

    def dcond(self, x, dom):
        return mk("discr", x, dom)

    def isvar(self, v, vi, dom=2, adt=None):
        """guard diagram: v is variant vi (of an Option/Result-like enum)"""
        def f(x):
            if x.op == "adt":
                return TRUE if x.a[1] == vi else FALSE
            return gate(self.dcond(x, tuple(range(dom))), vi)
        return mapleaves(v, f)

    def proj(self, v, adt, vi, idx):
        return proj(v, adt, vi, idx)

    # ------------------------------------------------------------------ places
    def place_ty(self, body, place):
        if type(place) is int:
            return body["locals"][place]
        t = body["locals"][place[0]]
        for e in place[1:]:
            tt = self.F.types[t]
            if e == "*":
                t = tt["of"] if "of" in tt else tt["args"][0]
            elif e[0] == "f":
                t = e[2]
            elif e[0] in ("i", "ci"):
                t = tt.get("of", t)
        return t

    def resolve(self, fr, st, place):
        """-> list of (guard, loc, path) for a writable place, or value for rvalue access"""
        body = fr.body
        if type(place) is int:
            return [(TRUE, ("l", fr.id, place), ())]
        loc = ("l", fr.id, place[0])
        t = body["locals"][place[0]]
        outs = [(TRUE, loc, ())]
        var = None
        for e in place[1:]:
            tt = self.F.types[t]
            if e == "*":
                no = []
                for g, l, p in outs:
                    v = self.read(st, l, p)
                    v = cofactor(v, g)
                    for gg, x in gleaves(v):
                        g2 = gand(g, gg)
                        if is_false(g2):
                            continue
                        if x.op == "mref":
                            no.append((g2, x.a[0], x.a[1]))
                        elif x.op == "bot":
                            continue
                        else:
                            # value-semantics reference: deref is identity
                            no.append((g2, l, p if len(outs) == 1 and gg is TRUE else p))
                outs = dedup(no)
                t = tt["of"] if "of" in tt else tt["args"][0]
            elif e[0] == "d":
                var = e[1]
                continue
            elif e[0] == "f":
                a = tt.get("adt") if tt["k"] == "adt" else tt["k"]
                if a not in ("std::mem::MaybeUninit", "std::mem::ManuallyDrop", "std::mem::MaybeDangling", COW):
                    outs = [(g, l, p + (("f", a, var or 0, e[1], t),)) for g, l, p in outs]
                t = e[2]
            elif e[0] == "i":
                ix = self.read(st, ("l", fr.id, e[1]), ())
                outs = [(g, *self.element(l, p, ix)) for g, l, p in outs]
                t = tt.get("of", t)
            elif e[0] == "ci":
                outs = [(g, l, p + (("ci", e[1], e[3]),)) for g, l, p in outs]
                t = tt.get("of", t)
            elif e[0] == "sub":
                outs = [(g, l, p + (("sub", e[1], e[2], e[3]),)) for g, l, p in outs]
            var = None
        return outs

    def element(self, loc, path, ix):
        """where the element at a position of the list at a location is kept"""
        if ix.op == "int":
            return loc, path + (("ci", ix.a[0], False),)
        for pos, x, el, how in IDX:
            if ix is pos:
                if type(how) is list:
                    how.append((loc, path))
                elif how == (loc, path):
                    return el.a[0], el.a[1] + ()
        return loc, path + (("i", ix),)

    def read(self, st, loc, path):
        v = st.mem.get(loc)
        if v is None:
            raise Unsupported(f"read of unset {loc}")
        for e in path:
            v = self.step(v, e, st)
        return v

    def step(self, v, e, st=None):
        if e[0] == "f":
            return proj(v, e[1], e[2], e[3])
        if e[0] == "i":
            return index(v, e[1])
        if e[0] == "ci":
            return cindex(v, e[1], e[2])
        if e[0] == "sub":
            if v.op == "arr":
                n = len(v.a)
                return mk("arr", *v.a[e[1]:n - e[2] if e[3] else e[2]])
            return APP("subslice", v, INT(e[1]), INT(e[2]), INT(1 if e[3] else 0))
        if e[0] == "at":      # map value at key
            return self.M.mget_val(v, e[1])
        raise Unsupported(f"step {e}")

    def readp(self, fr, st, place):
        outs = self.resolve(fr, st, place)
        r = None
        for g, l, p in outs:
            v = self.read(st, l, p)
            # value-semantics derefs left in place; a value that is an mref stays
            r = v if r is None else select(g, v, r)
        if r is None:
            return BOT
        return r

    def write(self, st, loc, path, val):
        if not path:
            st.mem[loc] = val
            return
        old = st.mem.get(loc)
        st.mem[loc] = self.upd(old, path, val)

    def upd(self, v, path, val):
        if not path:
            return val
        e = path[0]
        if e[0] == "f":
            if v is None or v is BOT:
                v = mk("undef")
            def f(x):
                x = self.expand(x, e)
                off = 2 if x.op in ("adt", "clo") else 0
                a = list(x.a)
                a[off + e[3]] = self.upd(a[off + e[3]], path[1:], val)
                return eta(mk(x.op, *a))
            if v.op == "sw" and v.conds:
                # push the update under the diagram, cofactoring the new value
                def go(x, g):
                    if x.op == "sw":
                        return mksw_ord(x.a[0], [(k, go(y, gand(g, gate_in(x.a[0], k, x.a[1])))) for k, y in zip(x.a[1], x.a[2])])
                    if x is BOT:
                        return x
                    xx = self.expand(x, e)
                    if xx.op == "adt" and xx.a[1] != e[2]:
                        return BOT
                    off = 2 if xx.op in ("adt", "clo") else 0
                    a = list(xx.a)
                    a[off + e[3]] = self.upd(a[off + e[3]], path[1:], cofactor(val, g))
                    return eta(mk(xx.op, *a))
                return go(v, TRUE)
            return f(v)
        if e[0] == "at":
            old = self.M.mget_val(v, e[1])
            return self.M.minsert(v, e[1], self.upd(old, path[1:], val))
        if e[0] == "i":
            old = index(v, e[1])
            return APP("aset", v, e[1], self.upd(old, path[1:], val))
        if e[0] == "ci":
            def put(x, g):
                if x.op == "sw":
                    return mksw_ord(x.a[0], [(k, put(y, gand(g, gate_in(x.a[0], k, x.a[1])))) for k, y in zip(x.a[1], x.a[2])])
                if x.op != "arr":
                    raise Unsupported(f"update {e} of {str(x)[:200]}")
                a = list(x.a)
                i = e[1] if not e[2] else len(a) - e[1]
                a[i] = self.upd(a[i], path[1:], cofactor(val, g))
                return mk("arr", *a)
            return put(v, TRUE)
        raise Unsupported(f"update {e} of {str(v)[:200]}")

    def expand(self, x, e):
        """make the constructor of x explicit so that a field can be replaced"""
        _, a, vi, idx, tid = e
        if x.op in ("adt", "tup", "clo"):
            return x
        if tid is None:
            if a in self.F.adts:
                n = len(self.F.adts[a]["variants"][vi]["fields"])
            elif a in (OPTION, RESULT):
                n = 1
            else:
                raise Unsupported(f"expand {a}")
            return mk("adt", a, vi, *[proj(x, a, vi, i) for i in range(n)])
        t = self.F.types[tid]
        if t["k"] == "adt":
            ad = self.F.adts[t["adt"]]
            n = len(ad["variants"][vi]["fields"])
            if x.op == "undef":
                return mk("adt", t["adt"], vi, *([x] * n))
            return mk("adt", t["adt"], vi, *[proj(x, t["adt"], vi, i) for i in range(n)])
        if t["k"] == "tuple":
            n = len(t["args"])
            if x.op == "undef":
                return mk("tup", *([x] * n))
            return mk("tup", *[proj(x, "tuple", 0, i) for i in range(n)])
        raise Unsupported(f"expand {t['s']}")

    def writep(self, fr, st, place, val):
        outs = self.resolve(fr, st, place)
        if len(outs) == 1 and outs[0][0] is TRUE:
            self.write(st, outs[0][1], outs[0][2], val)
            return
        for g, l, p in outs:
            self.gwrite(st, g, l, p, val)

    # deref helpers for models: dereference a &mut argument
    def deref(self, st, v):
        def f(x):
            if x.op == "mref":
                return self.read(st, x.a[0], x.a[1])
            return x
        r = mapleaves(v, f)
        return self.deref(st, r) if any(x.op == "mref" for _, x in gleaves(r)) else r

    def assign(self, st, ref, val):
        """*ref = val"""
        for g, x in gleaves(ref):
            if x is BOT:
                continue
            if x.op != "mref":
                self.log(st, APP("store", x, val))
                continue
            inner = self.read(st, x.a[0], x.a[1])
            if inner.op == "mref":
                self.assign(st, inner, val)
                continue
            self.gwrite(st, g, x.a[0], x.a[1], val)

    def gwrite(self, st, g, l, p, val):
        """write val to (l, p) where g holds"""
        if g is TRUE:
            self.write(st, l, p, val)
            return
        if not p:
            st.mem[l] = select(g, val, st.mem.get(l, val))
            return
        old = st.mem.get(l)
        new = self.upd(cofactor(old, g) if old is not None else old, p, cofactor(val, g))
        st.mem[l] = new if old is None else select(g, new, old)

    def newloc(self, st, v):
        self.nloc += 1
        l = ("o", self.nloc)
        st.mem[l] = v
        return l

    def log(self, st, ev):
        st.mem[LOG] = mk("log", st.mem.get(LOG, UNIT), ev)

    # ------------------------------------------------------------------ operands
    def operand(self, fr, st, o):
        if o[0] in ("c", "m"):
            return self.readp(fr, st, o[1])
        if o[0] == "k":
            return self.const(fr, st, o[1])
        if o[0] == "rc":
            return TRUE
        raise Unsupported(f"operand {o}")

    def const(self, fr, st, c):
        t = self.F.types[c["ty"]]
        if "fn" in c:
            return mk("fn", FnRef.get(c["fn"]))
        if "str" in c:
            return STR(c["str"])
        if "bytes" in c:
            if t["k"] == "ref" and self.F.types[t["of"]]["k"] == "str":
                return STR(bytes(c["bytes"]).decode("utf8", "replace"))
            return mk("bytes", tuple(c["bytes"]))
        if "int" in c:
            if t["k"] == "adt":
                return self.adt_from_int(c["ty"], c["int"])
            return INT(c["int"])
        if "float" in c:
            return mk("float", c["float"])
        if "static" in c:
            return APP("static:" + c["static"])
        if c.get("const"):
            b = self.F.bodies.get(c["const"])
            if b is not None:
                key = ("constval", c["const"])
                v = self.constcache.get(key) if hasattr(self, "constcache") else None
                if v is None:
                    if not hasattr(self, "constcache"):
                        self.constcache = {}
                    v, _ = self.run_body(b, [], St({}, TRUE))
                    # named constants of opaque construction keep their name
                    self.constcache[key] = v
                return v
        if "fields" in c:
            fs = []
            for f in c["fields"]:
                fs.append(self.const(fr, st, f))
            if t["k"] == "adt":
                return mk("adt", t["adt"], c.get("variant") or 0, *fs)
            if t["k"] in ("array", "ref"):
                return mk("arr", *fs)
            return TUP(*fs)
        if c.get("zst"):
            if t["k"] == "tuple":
                return UNIT
            if t["k"] == "adt":
                return mk("adt", t["adt"], 0, *self.zst_fields(t["adt"], c["ty"]))
            if t["k"] == "closure":
                for b in self.F.bodies.values():
                    if b["path"] == t["path"] and b["closure"] and b["root"] == fr.body["root"]:
                        return mk("clo", b["key"], b["dpath"])
            return APP("zst:" + t["s"])
        if c.get("cname"):
            a = [self.F.tys(x) for x in c.get("cargs", [])]
            h = self.user_models.get("const:" + c["cname"].split("::")[-1])
            r = h(self, a) if h else None
            if r is not None:
                return r
            return APP("const:" + c["cname"], *[mk("ty", x) for x in a])
        if c.get("param"):
            q = c["param"]
            if len(q) > 1 and q[0] == q[-1] == '"' and "\\" not in q:
                return STR(q[1:-1])     # a literal in the type system (string patterns)
            return APP("cparam:" + c["param"])
        return APP("constopaque:" + t["s"], mk("lit", json.dumps(c, sort_keys=True)))

    def zst_fields(self, adt, tid):
        ad = self.F.adts[adt]
        n = len(ad["variants"][0]["fields"]) if ad["variants"] else 0
        return [APP("zst")] * n

    def adt_from_int(self, tid, n):
        t = self.F.types[tid]
        ad = self.F.adts[t["adt"]]
        if ad["enum"]:
            for i, v in enumerate(ad["variants"]):
                if v["disc"] == n and not v["fields"]:
                    return mk("adt", t["adt"], i)
            return APP("niche:" + t["adt"], INT(n))
        if len(ad["variants"][0]["fields"]) == 1:
            return mk("adt", t["adt"], 0, INT(n))
        return APP("scalar:" + t["adt"], INT(n))

    # ------------------------------------------------------------------ bodies
    def run_body(self, body, args, st):
        """-> (value, state) ; state None when it never returns"""
        self.nframe += 1
        fr = Frame(self.nframe, body)
        self.calls[body["dpath"]] = self.calls.get(body["dpath"], 0) + 1
        self.visited.add(body["dpath"])
        mem = dict(st.mem)
        argc = body["argc"]
        sp = body["spread"]
        if sp is not None:
            # trailing tuple argument is passed spread
            fixed = args[:sp - 1]
            rest = args[sp - 1:]
            args = fixed + [TUP(*rest)]
        if len(args) != argc:
            raise Unsupported(f"arity {body['dpath']} {len(args)} != {argc}")
        for i, a in enumerate(args):
            mem[("l", fr.id, i + 1)] = a
        outer_g = st.g
        s0 = St(mem, TRUE)
        if body["key"] not in self.F.cfg:
            self.F.cfg[body["key"]] = cfg_info(body)
        fr.rpo, fr.loops, fr.succ = self.F.cfg[body["key"]]
        self.stack.append((body["key"], tuple(args), fr, st))
        try:
            ex = self.exec(fr, 0, s0, None, None)
        finally:
            self.stack.pop()
        ret = merge(ex.get("ret", []))
        unw = merge(ex.get(("u", "resume"), []))
        if unw is not None:
            if ret is not None:
                raise Unsupported("unwinding on some paths only")
            ret = unw
            ret.mem[("l", fr.id, 0)] = UNIT
        if ret is None:
            return BOT, None
        v = ret.mem.get(("l", fr.id, 0), UNIT)
        mem = {k: x for k, x in ret.mem.items() if not (type(k) is tuple and k[0] == "l" and k[1] == fr.id)}
        ng = gand(outer_g, ret.g)
        out = St(mem, ng)
        return v, out

    def exec(self, fr, start, st, scope, header):
        """run blocks from `start`; returns dict exit -> [states].
        exits: 'ret', ('b', n) for leaving scope, 'back' for reaching header"""
        pend = {start: [st]}
        exits = {}
        first = True
        while pend:
            b = min(pend, key=lambda x: fr.rpo.get(x, 1 << 30))
            s = merge(pend.pop(b))
            if s is None:
                continue
            if b in fr.loops and not (b == header and first):
                ex = self.mirloop(fr, b, s)
                for k, ss in ex.items():
                    if k == "ret":
                        exits.setdefault("ret", []).extend(ss)
                    elif k[0] == "u":
                        exits.setdefault(k, []).extend(ss)
                    else:
                        self.route(fr, k[1], ss, pend, exits, scope, header)
                first = False
                continue
            first = False
            outs = self.block(fr, b, s)
            for tgt, ns in outs:
                if ns is None:
                    continue
                if tgt == "ret":
                    exits.setdefault("ret", []).append(ns)
                elif type(tgt) is tuple:
                    exits.setdefault(tgt, []).append(ns)
                else:
                    self.route(fr, tgt, [ns], pend, exits, scope, header)
        return exits

    def route(self, fr, tgt, ss, pend, exits, scope, header):
        if tgt == header:
            exits.setdefault("back", []).extend(ss)
        elif scope is not None and tgt not in scope:
            exits.setdefault(("b", tgt), []).extend(ss)
        else:
            pend.setdefault(tgt, []).extend(ss)

    def block(self, fr, b, st):
        st = st.copy()
        body = fr.body
        bl = body["blocks"][b]
        for s in bl["s"]:
            if s[0] == "=":
                fr.span = s[3]
                v = self.rvalue(fr, st, s[2])
                self.writep(fr, st, s[1], v)
            elif s[0] == "dead":
                k = ("l", fr.id, s[1])
                # keep locations that may still be referenced by escaping mutable refs
                st.mem.pop(k, None) if not fr.addr.get(s[1]) else None
            elif s[0] == "sd":
                outs = self.resolve(fr, st, s[1])
                raise Unsupported("setdiscriminant")
        t = bl["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "ret":
            return [("ret", st)]
        if k == "switch":
            d = self.operand(fr, st, t[1])
            return self.switch(fr, st, d, t)
        if k == "drop":
            self.drop(fr, st, t)
            return [(t[2], st)]
        if k == "assert":
            c = self.operand(fr, st, t[1])
            if t[3] == "other":
                return [(t[4], st)]          # checks of the validity of pointers, which safe code cannot fail
            ok = c if t[2] else gnot(c)
            ok = decide_num(cofactor(ok, st.g), st.g)
            if ok is not TRUE:
                self.panics.append((gand(st.g, gnot(ok)), t[3], t[5], fr.body["dpath"]))
                if is_false(ok):
                    return []
            return [(t[4], st)]
        if k == "call":
            fr.span = t[6]
            args = [self.operand(fr, st, a) for a in t[2]]
            f = self.operand(fr, st, t[1])
            call = Call(self, fr, t, f)
            st2 = St(st.mem, TRUE)
            v, st2 = self.call(f, args, st2, call)
            if st2 is None or v is BOT or is_false(st2.g):
                self.panics.append((st.g, "call:" + call.name, t[6], fr.body["dpath"])) if t[4] is None else None
                return []
            g = gand(st.g, st2.g)
            if is_false(g):
                return []
            st2 = St(dict(st2.mem), g)
            u = st2.mem.pop(UNW, None)
            if u is not None:
                if u is not INT(1):
                    raise Unsupported("unwinding on some paths only")
                if t[5] is None:
                    st2.mem[UNW] = u
                    return [(("u", "resume"), st2)]
                return [(t[5], st2)]
            if t[4] is None:
                self.panics.append((st.g, "call:" + call.name, t[6], fr.body["dpath"]))
                return []
            self.writep(fr, st2, t[3], v)
            return [(t[4], st2)]
        if k == "unreachable" or k == "resume":
            if k == "resume":
                st.mem[UNW] = INT(1)
                return [(("u", "resume"), st)]
            return []
        raise Unsupported(f"terminator {k}")

    def switch(self, fr, st, d, t):
        outs = []
        rest = TRUE
        tt = self.F.types[t[4]]
        isbool = tt["k"] == "bool"
        targets = {}
        order = []
        for v, blk in t[2]:
            v = int(v)
            if tt["k"] == "int" or (tt["k"] == "adt"):
                bits = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}.get(tt["s"], 64)
                if v >= 1 << (bits - 1):
                    v -= 1 << bits
            g = self.eqint(d, v, isbool)
            g = gand(g, rest)
            rest = gand(rest, gnot(g))
            if blk not in targets:
                order.append(blk)
            targets[blk] = gor(targets.get(blk, FALSE), g)
        if t[3] not in targets:
            order.append(t[3])
        targets[t[3]] = gor(targets.get(t[3], FALSE), rest)
        for blk in order:
            g = cofactor(targets[blk], st.g)
            if is_false(g):
                continue
            ns = narrow(st, g)
            if ns is not None:
                outs.append((blk, ns))
        return outs

    def eqint(self, d, v, isbool=False):
        def f(x):
            if x.op == "int":
                return TRUE if x.a[0] == v else FALSE
            if isbool:
                b = asbool(x)
                return b if v else gnot(b)
            g = tagzero(x, v)
            return cgate(x, v) if g is None else g
        return mapleaves(d, f)

    def cellish(self, body, place, v):
        """does a shared reference to the place give write access to a Cell"""
        def has(path):
            if path == "std::cell::Cell":
                return True
            a = self.F.adts.get(path)
            return bool(a and a["local"] and a["freeze"] is False and
                        any(self.F.types[t].get("adt") == "std::cell::Cell" for ts in a["field_tys"] for t in ts))
        if v.op == "adt":
            return has(v.a[0])
        try:
            return has(self.F.types[self.place_ty(body, place)].get("adt"))
        except (KeyError, TypeError, IndexError):
            return False

    def places(self, fr, st, place):
        try:
            return bool(self.resolve(fr, st, place))
        except Unsupported:
            return False

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, fr, st, r):
        k = r[0]
        if k == "use":
            o = r[1]
            if o[0] == "c" and type(o[1]) is list and o[1][-1] == "*" and \
                    self.F.types[self.place_ty(fr.body, o[1])].get("adt") == "std::boxed::Box":
                # a Box is never copied: this is a step of a place through it
                outs = self.resolve(fr, st, o[1])
                if len(outs) == 1 and outs[0][0] is TRUE and outs[0][1] != ("l", fr.id, o[1][0]):
                    return mk("mref", outs[0][1], outs[0][2])
            return self.operand(fr, st, o)
        if k == "ref":
            if not r[2]:
                v = self.readp(fr, st, r[1])
                cell = self.cellish(fr.body, r[1], v)
                if cell and v.op != "mref" and self.places(fr, st, r[1]):
                    return self.rvalue(fr, st, ["ref", r[1], True])
                if cell and v.op == "mref":
                    return v
                if v.op == "mref" or (v.op == "sw" and any(x.op == "mref" for _, x in gleaves(v))):
                    v = self.deref(st, v)
                return v
            outs = self.resolve(fr, st, r[1])
            res = None
            for g, l, p in outs:
                if l[0] == "l" and l[1] == fr.id:
                    fr.addr[l[2]] = True
                inner = None
                try:
                    inner = self.read(st, l, p)
                except Unsupported:
                    pass
                m = mk("mref", l, p)
                if inner is not None and type(r[1]) is list and r[1][-1] == "*" and inner.op != "mref":
                    # reborrow through a reference we only know by value
                    pass
                res = m if res is None else select(g, m, res)
            return res if res is not None else BOT
        if k == "cast":
            v = self.operand(fr, st, r[2])
            if r[1] == "BoxDerefTransmute" and v.op == "undef" and type(r[2][1]) is list:
                # the inside of a box that has not been filled yet
                return mk("mref", ("l", fr.id, r[2][1][0]), ())
            return self.cast(fr, st, r[1], v, r[3], r[4])
        if k == "bin":
            a = self.operand(fr, st, r[2])
            b = self.operand(fr, st, r[3])
            return self.binop(r[1], a, b, r[4])
        if k == "un":
            a = self.operand(fr, st, r[2])
            t = self.F.types[r[3]]
            if r[1] == "Not":
                if t["k"] == "bool":
                    return gnot(a)
                if a.op == "int":
                    bits = INTS.get(t["s"], (64, False))[0]
                    return INT((~a.a[0]) & ((1 << bits) - 1) if not INTS[t["s"]][1] else ~a.a[0])
                return APP("not", a)
            if r[1] == "Neg":
                return INT(-a.a[0]) if a.op == "int" else APP("neg", a)
            if r[1] == "PtrMetadata":
                return self.M.length(self.deref(st, a) if a.op == "mref" else a)
            return APP("un:" + r[1], a)
        if k == "discr":
            v = self.readp(fr, st, r[1])
            return self.discr_of(v, r[2])
        if k == "agg":
            vs = [self.operand(fr, st, o) for o in r[2]]
            if any(v is BOT for v in vs):
                return BOT
            if r[1] == "tuple":
                return eta(TUP(*vs))
            if r[1] == "array":
                return mk("arr", *vs)
            if r[1] == "adt":
                return (self.M.cow(r[4], vs[0])) if r[3] == COW else eta(mk("adt", r[3], r[4], *vs))
            if r[1] == "closure":
                return mk("clo", r[3], r[4], *vs)
        if k == "repeat":
            return APP("repeat", self.operand(fr, st, r[1]), INT(r[2] or 0))
        raise Unsupported(f"rvalue {r[:2]}")

    def cast(self, fr, st, kind, v, f, t):
        ft, tt = self.F.types[f], self.F.types[t]
        if kind in ("IntToInt",):
            return self.intcast(v, ft, tt)
        if kind.startswith("PointerCoercion") or kind in ("PtrToPtr", "Transmute", "Subtype", "BoxDerefTransmute"):
            if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind:
                return v
            if kind == "Transmute" and ft["k"] != "ref" and tt["k"] != "ref":
                return APP("transmute", v, mk("ty", tt["s"]))
            return v
        if kind in ("FloatToFloat",):
            if ft["s"] == tt["s"]:
                return v
            return mapleaves(v, lambda x: APP("fcast:" + ft["s"] + ":" + tt["s"], x))
        return mapleaves(v, lambda x: APP("numcast:" + ft["s"] + ":" + tt["s"], x))

    def intcast(self, v, ft, tt):
        fs, ts = ft["s"], tt["s"]
        def f(x):
            if ft["k"] == "adt":
                ad = self.F.adts[ft["adt"]]
                if x.op == "adt":
                    x = INT(ad["variants"][x.a[1]]["disc"])
                else:
                    return self.intcast(self.discr_of(x, self.tid(ft)), {"k": "int", "s": "isize"}, tt)
            if x.op == "int":
                return INT(wrap(x.a[0], ts))
            if fs == ts:
                return x
            if x.op == "ch" and (fs == "char" and ts in INTS or fs == "u8" and ts == "char") and x.a[1][-1][1] <= rng(ts)[1]:
                return x             # the number of the character
            if fs == "char" or fs == "bool" or ts == "char":
                return APP("icast:" + fs + ":" + ts, x)
            return icast(fs, ts, x)
        return mapleaves(v, f)

    def tid(self, t):
        for i, x in enumerate(self.F.types):
            if x is t:
                return i
        raise Unsupported("tid")

    def binop(self, op, a, b, tid):
        t = self.F.types[tid]
        if t["k"] == "bool" and op in ("Eq", "Ne", "BitAnd", "BitOr", "BitXor"):
            a, b = asbool(a), asbool(b)
        if op in ("Eq", "Ne") and t["k"] == "bool":
            e = select(a, b, gnot(b))
            return e if op == "Eq" else gnot(e)
        if t["k"] == "bool" and op in ("BitAnd", "BitOr", "BitXor"):
            if op == "BitAnd":
                return gand(a, b)
            if op == "BitOr":
                return gor(a, b)
            return select(a, gnot(b), b)
        ck = op.endswith("WithOverflow")
        base = op[:-len("WithOverflow")] if ck else op
        base = base.replace("Unchecked", "")

        def f2(x, y):
            if base in ("Lt", "Gt", "Ne") and x is y and x.op != "float" and t["k"] in ("int", "uint"):
                return FALSE
            if self.compared is not None and base in CMP:
                self.compared.append((base, x, y))
            if IDX and ck and base == "Add" and y is INT(1) and any(x is i[0] for i in IDX):
                return TUP(arith(base, x, y, t["s"]), FALSE)      # a position is less than a length
            if IDX and base in ("Lt", "Gt", "Ge", "Le"):
                if base == "Lt" and inrange(x, y) or base == "Gt" and inrange(y, x):
                    return TRUE
                if base == "Ge" and inrange(x, y) or base == "Le" and inrange(y, x):
                    return FALSE
            if IDX and base in ("Eq", "Ne") and (inrange(x, y) or inrange(y, x)):
                return FALSE if base == "Eq" else TRUE
            if x.op == "int" and y.op == "int":
                n, m = x.a[0], y.a[0]
                s = t["s"]
                if base in CMP:
                    return TRUE if CMP[base](n, m) else FALSE
                r = None
                if base == "Add": r = n + m
                elif base == "Sub": r = n - m
                elif base == "Mul": r = n * m
                elif base == "BitAnd": r = n & m
                elif base == "BitOr": r = n | m
                elif base == "BitXor": r = n ^ m
                elif base == "Shl": r = n << m
                elif base == "Shr": r = n >> m
                elif base == "Div" and m: r = abs(n) // abs(m) * (1 if n * m >= 0 else -1)
                elif base == "Rem" and m: r = abs(n) % abs(m) * (1 if n >= 0 else -1)
                if r is not None:
                    w = wrap(r, s)
                    return TUP(INT(w), TRUE if w != r else FALSE) if ck else INT(w)
            if self.M.OWNEDCOW[0]:
                r = self.M.HEXNUM[0](base, x, y)
                if r is not None:
                    return TUP(r, FALSE) if ck else r
            if base in CMP:
                return cmpterm(base, x, y, t["s"])
            if base in ("Add", "Mul", "BitAnd", "BitOr", "BitXor") and y.id < x.id:
                x, y = y, x
            r = arith(base, x, y, t["s"])
            if ck:
                return TUP(r, asbool(APP("ovf:" + base, x, y)))
            return r
        if a is BOT or b is BOT:
            return BOT
        return mapleaves(a, lambda x: mapleaves(cofactor(b, TRUE), lambda y: f2(x, y)))

    # ------------------------------------------------------------------ drops
    def drop(self, fr, st, t):
        tid = t[3]
        v = None
        if self.has_effect_drop(tid):
            v = self.readp(fr, st, t[1])
            self.drop_val(st, v, tid)
        outs = self.resolve(fr, st, t[1])

    def has_effect_drop(self, tid, seen=None):
        cache = self.F.__dict__.setdefault("_dropc", {})
        if tid in cache:
            return cache[tid]
        cache[tid] = False
        t = self.F.types[tid]
        r = False
        if t["k"] == "adt":
            ad = self.F.adts[t["adt"]]
            if t["adt"] in self.M.DROP_EVENTS:
                r = True
            elif ad["local"]:
                r = bool(ad["drop"]) or any(self.has_effect_drop(f) for v in ad["field_tys"] for f in v)
            else:
                r = any(self.has_effect_drop(a) for a in t.get("args", []))
        elif t["k"] == "tuple":
            r = any(self.has_effect_drop(a) for a in t["args"])
        elif t["k"] == "closure":
            r = any(self.has_effect_drop(a) for a in t["ups"])
        cache[tid] = r
        return r

    def drop_val(self, st, v, tid):
        t = self.F.types[tid]
        if t["k"] == "adt":
            if t["adt"] in self.M.DROP_EVENTS:
                h = self.user_models.get("drop!")
                h(self, st, t["adt"], v) if h else self.log(st, APP("drop:" + t["adt"], v))
                return
            ad = self.F.adts[t["adt"]]
            if ad["local"]:
                if ad["drop"]:
                    for it in self.F.items:
                        if it["path"] == ad["drop"] or (it["name"] == "drop" and it["impl_trait"] and it["self"] is not None and self.F.types[it["self"]].get("adt") == t["adt"]):
                            loc = self.newloc(st, v)
                            _, s2 = self.run_body(self.F.bodies[it["key"]], [mk("mref", loc, ())], st)
                            if s2 is not None:
                                st.mem = dict(s2.mem)
                                v = st.mem[loc]
                            break
                if not ad["enum"]:
                    for i, ft in enumerate(ad["field_tys"][0]):
                        if self.has_effect_drop(ft):
                            self.drop_val(st, proj(v, t["adt"], 0, i), ft)
            else:
                self.log(st, APP("dropval:" + t["adt"], v))

    # ------------------------------------------------------------------ calls
    def call(self, f, args, st, call):
        """f: fn / closure / opaque term"""
        if st is None:
            return BOT, None
        if any(a is BOT for a in args):
            return BOT, None
        if f.op == "mref":
            f = self.deref(st, f)
        if f.op == "sw":
            outs = []
            for g, x in gleaves(f):
                if x is BOT:
                    continue
                ns = narrow(st, g)
                if ns is None:
                    continue
                v, s2 = self.call(x, [cofactor(a, g) for a in args], ns, call)
                outs.append((v, s2))
            return self.joinv(outs)
        if f.op == "clo":
            b = self.F.bodies.get(f.a[0])
            if b is None:
                return self.opaque_call("closure:" + str(f.a[1]), args, st)
            # first arg: the environment
            t = self.F.types[b["locals"][1]]
            env = f
            return self.enter(b, [env] + list(args), st, call)
        if f.op == "fn":
            return self.fncall(f.a[0], args, st, call)
        return self.opaque_call("call", [f] + list(args), st, call)

    def call_closure(self, st, f, args, call=None):
        """call a closure value that may live behind a mutable reference"""
        if f.op == "mref":
            inner = self.deref(st, f)
            if inner.op == "clo":
                b = self.F.bodies.get(inner.a[0])
                if b is not None:
                    t = self.F.types[b["locals"][1]]
                    env = f if t["k"] == "ref" and t.get("mut") else inner
                    return self.enter(b, [env] + list(args), st, call)
            return self.call(inner, args, st, call)
        if f.op == "clo":
            b = self.F.bodies.get(f.a[0])
            if b is not None:
                t = self.F.types[b["locals"][1]]
                if t["k"] == "ref" and t.get("mut"):
                    st = st.copy()
                    loc = self.newloc(st, f)
                    return self.enter(b, [mk("mref", loc, ())] + list(args), st, call)
        return self.call(f, args, st, call)

    def joinv(self, outs):
        outs = [(v, s) for v, s in outs if s is not None and v is not BOT and not is_false(s.g)]
        if not outs:
            return BOT, None
        if len(outs) == 1:
            return outs[0]
        key = "__ret"
        for v, s in outs:
            s.mem = dict(s.mem)
            s.mem[key] = v
        m = merge([s for _, s in outs])
        v = m.mem.pop(key)
        return v, m

    def enter(self, b, args, st, call):
        key = b["key"]
        if len(self.stack) > self.maxdepth:
            raise Unsupported("inlining depth")
        same = [i for i, (k, _, _, _) in enumerate(self.stack)
                if k == key or (b["local"] and k.split("@")[0] == key.split("@")[0])]
        if same and b["closure"]:
            return self.run_body(b, args, st)       # a closure recurs only through a function
        if same:
            # a recursion that consumes a list of known length terminates: inline it
            _, aargs, _, sti = self.stack[same[-1]]
            for a, a0 in zip(args, aargs):
                n, n0 = self.known_len(st, a), self.known_len(sti, a0)
                if n is not None and n0 is not None and n < n0:
                    return self.run_body(b, args, st)
            # so does one that descends into a constructed (not symbolic) value
            for a, a0 in zip(args, aargs):
                n = self.csize(st, a)
                if 1 <= n < self.csize(sti, a0):
                    return self.run_body(b, args, st)
            return self.rec_call(b, args, st, same[0])
        return self.run_body(b, args, st)

    def csize(self, st, a):
        """number of constructors on top of a value"""
        try:
            x = self.deref(st, a)
        except Exception:
            return 0

        def go(x):
            if x.op == "adt":
                return 1 + sum(go(y) for y in x.a[2:])
            if x.op in ("arr", "tup"):
                return sum(go(y) for y in x.a)
            if x.op == "text":
                return 1 + len(x.a)
            if (x.op in ("str", "sym") or x.op == "app" and x.a[0] == "scat") and self.M.pieces(x) is not None:
                return 1 + sum(1 if y.op != "str" else len(y.a[0]) for y in self.M.pieces(x))
            if x.op == "app" and x.a[0] == "map.ins":
                m = x
                while m.op == "app" and m.a[0] == "map.ins":
                    m = m.a[1]
                if m is not self.M.EMPTYMAP:
                    return 0         # only finite maps are constructed
            if x.op == "app" and (x.a[0] in ("map.ins", "lcat", "map.lam") or x.a[0].startswith("it:")):
                return sum(go(y) for y in x.a[1:] if isinstance(y, T))
            if x.op == "sw":
                return sum(go(y) for y in x.a[2])
            return 0
        return go(x)

    def known_len(self, st, a):
        try:
            x = self.deref(st, a)
        except Exception:
            return None
        if x.op == "app" and x.a[0] == "it:list":
            x = x.a[1]
        return len(x.a) if x.op == "arr" else None

    def rec_call(self, b, args, st, i):
        """a recursive call: uninterpreted; expressed in terms of the analysed
        anchor when the recursive function received the anchor's arguments"""
        name = "rec:" + b["dpath"]
        REC_BODIES[b["dpath"]] = b
        k0, a0, fr0, st0 = self.stack[0]
        ki, ai, fri, sti = self.stack[i]
        vals = [self.deref(st, a) for a in args]
        if i > 0:
            root = [self.deref(st0, x) if x.op != "mref" else st0.mem.get(x.a[0], x) for x in a0]
            here = [self.deref(sti, x) if x.op == "mref" else x for x in ai]
            if all(r in here for r in root) and len(set(root)) == len(root):
                name = "rec:" + fr0.body["dpath"]
                REC_BODIES[fr0.body["dpath"]] = fr0.body
                args = [args[here.index(r)] for r in root]
        return self.opaque_call(name, args, st)

    def opaque_call(self, name, args, st, call=None, pure=True):
        st = st.copy()
        vals = []
        muts = []
        for i, a in enumerate(args):
            if a.op == "mref" or (a.op == "sw" and any(x.op == "mref" for _, x in gleaves(a))):
                muts.append((i, a))
                vals.append(self.deref(st, a))
            elif has_mref(a):
                # references inside: everything they reach may be written
                inner = [x for x in walk(a) if x.op == "mref"]
                muts += [(f"{i}.{j}", x) for j, x in enumerate(inner)]
                vals.append(subst(a, {x: self.deref(st, x) for x in inner}))
            else:
                vals.append(a)
        r = APP(name, *vals)
        for i, a in muts:
            self.assign(st, a, APP(f"{name}!{i}", *vals))
        if call is not None and call.retbool:
            r = asbool(r)
        return r, st

    def fncall(self, fref, args, st, call):
        f = fref.d
        if "ctor" in f:
            if f["ctor"] == COW:
                return self.M.cow(f["variant"], args[0]), st
            return eta(mk("adt", f["ctor"], f["variant"], *args)), st
        decl = norm(f["decl"])
        res = norm(f.get("res") or f["decl"])
        dres = f.get("dres") or f.get("ddecl")
        call = Call(self, call.fr if call else None, call.t if call else None, mk("fn", fref), parent=call)
        # user-supplied models (rule specific) first
        for nm in (dres, res, decl):
            if nm in self.user_models:
                r = self.user_models[nm](self, args, st, call)
                if r is not None:
                    return r
        if dres in self.opaque:
            return self.opaque_call("fn:" + dres, args, st, call)
        local = f.get("local")
        if not local:
            for nm in (res, decl):
                m = self.models.get(nm)
                if m is not None:
                    r = m(self, args, st, call)
                    if r is not None:
                        return r
            m = self.M.generic(self, decl, res, args, st, call)
            if m is not None:
                return m
        else:
            if decl == "std::clone::Clone::clone" and dres in self.F.derived:
                return self.deref(st, args[0]), st
            m = self.M.localmodel(self, decl, res, args, st, call)
            if m is not None:
                return m
        # closures through the Fn traits
        if decl in ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call"):
            tup = args[1]
            n = len(tup.a) if tup.op == "tup" else None
            inner = list(tup.a) if n is not None else [tup]
            if n is None:
                tt = None
                at = call.argtys()
                if at:
                    tt = self.F.types[at[1]]
                if tt and tt["k"] == "tuple":
                    inner = [proj(tup, "tuple", 0, i) for i in range(len(tt["args"]))]
            return self.call_closure(st, args[0], inner, call)
        key = f.get("key")
        if key and key in self.F.bodies:
            b = self.F.bodies[key]
            return self.enter(b, list(args), st, call)
        return self.M.unknown(self, f, args, st, call)

    # ------------------------------------------------------------------ loops
    def mirloop(self, fr, h, st):
        """summarise the natural loop with header h, or unroll it if every round is decided"""
        save = self.lvl, list(self.ctxs), list(self.panics)
        tried = []
        try:
            return self.summarise(fr, h, st, tried)
        except Unsupported:
            self.lvl, self.panics[:] = save[0], save[2]
            self.ctxs[:] = save[1]
            if tried:
                raise            # it was already tried
            r = self.unroll(fr, h, St(dict(st.mem), TRUE), fr.loops[h])
            if r is None:
                raise
            return self.conj(r, st.g)

    def summarise(self, fr, h, st, tried):
        blocks = fr.loops[h]
        outer_g = st.g
        s0 = St(dict(st.mem), TRUE)
        if self.M.OWNEDCOW[0]:       # texts of known length: every round is decided
            r = self.try_unroll(fr, h, s0, blocks)
            if r is not None:
                return self.conj(r, outer_g)
        r = self.counted(fr, h, s0, blocks)
        if r is not None:
            return self.conj(r, outer_g)

        nest = len([c for c in self.ctxs])
        # probe: how does the loop advance?
        ctx = Ctx(self.lvl)
        ctx.frame = fr
        ctx.mode = "probe"
        ctx.base = s0.mem
        self.ctxs.append(ctx)
        save_p = len(self.panics)
        try:
            ex = self.exec(fr, h, s0.copy(), blocks, h)
        finally:
            self.ctxs.pop()
        del self.panics[save_p:]
        if "back" not in ex:
            # not actually a loop here
            ex = self.exec(fr, h, s0.copy(), blocks, h)
            return self.conj(ex, outer_g)
        tgts = [n for n in ctx.nexts]
        tgt = None
        if len(tgts) == 1 and tgts[0][3] is TRUE and tgts[0][0] in s0.mem:
            loc, path, it, g = tgts[0]
            tgt = (loc, path, it)
        if tgt is not None and "unroll!" in self.user_models and self.M.finite(tgt[2]):
            r = self.try_unroll(fr, h, s0, blocks)
            if r is not None:
                return self.conj(r, outer_g)
        if tgt is not None:
            loc, path, it = tgt

            def body(s, elem):
                c = Ctx(self.lvl)
                c.frame = fr
                c.mode = "A"
                c.target = (loc, path)
                c.elem = elem
                self.ctxs.append(c)
                try:
                    ex = self.exec(fr, h, St(dict(s.mem), TRUE), blocks, h)
                finally:
                    self.ctxs.pop()
                if c.used != 1:
                    raise Unsupported("loop: iterator advanced irregularly")
                back = merge(ex.pop("back", []))
                exm = {k: merge(v) for k, v in ex.items()}
                if back is not None:
                    back.g = gand(back.g, s.g)
                for k in exm:
                    if exm[k] is not None:
                        exm[k].g = gand(exm[k].g, s.g)
                return back, exm
            # park the iterator while iterating
            s1 = s0.copy()
            self.write(s1, loc, path, APP("iterating"))
            send, exits = self.M.iterate(self, s1, it, body)
            res = {k: [v] for k, v in exits.items() if v is not None}
            if send is not None:
                self.write(send, loc, path, APP("exhausted"))
                c = Ctx(self.lvl)
                c.frame = fr
                c.mode = "B"
                c.target = (loc, path)
                self.ctxs.append(c)
                try:
                    ex = self.exec(fr, h, St(dict(send.mem), TRUE), blocks, h)
                finally:
                    self.ctxs.pop()
                if "back" in ex:
                    raise Unsupported("loop continues after exhaustion")
                for k, v in ex.items():
                    for x in v:
                        x.g = gand(x.g, send.g)
                        res.setdefault(k, []).append(x)
            return self.conj(res, outer_g)

        # a loop whose condition is decided in every round: unroll it
        tried.append(1)
        r = self.unroll(fr, h, s0, blocks)
        if r is not None:
            return self.conj(r, outer_g)

        # general loop
        def body(s, elem):
            c = Ctx(self.lvl)
            c.frame = fr
            c.mode = "general"
            self.ctxs.append(c)
            try:
                ex = self.exec(fr, h, St(dict(s.mem), TRUE), blocks, h)
            finally:
                self.ctxs.pop()
            back = merge(ex.pop("back", []))
            return back, {k: merge(v) for k, v in ex.items()}
        send, exits = self.loop_core(s0, APP("while"), body, lambda lvl, st: (None, None), where=(fr.body["dpath"], h))
        return self.conj({k: [v] for k, v in exits.items() if v is not None}, outer_g)

    def counted(self, fr, h, s0, blocks):
        """a loop that counts a variable up from 0 to the length of a list"""
        pos = SYM("~pos")

        def run(s):
            c = Ctx(self.lvl)
            c.frame = fr
            c.mode = "general"
            self.ctxs.append(c)
            try:
                return self.exec(fr, h, St(dict(s.mem), TRUE), blocks, h)
            finally:
                self.ctxs.pop()
        for loc in [l for l, v in s0.mem.items() if v is INT(0) and l[0] == "l" and l[1] == fr.id and self.F.tys(fr.body["locals"][l[2]]) == "usize"]:
            save = self.lvl, list(self.ctxs), list(self.panics), self.compared
            self.compared = []
            s = s0.copy()
            s.mem[loc] = pos
            try:
                run(s)
            except Unsupported:
                pass
            seen = self.compared
            self.lvl, self.ctxs[:], self.panics[:], self.compared = save[0], save[1], save[2], save[3]
            lens = {y for o, x, y in seen if x is pos and o in ("Lt", "Ge", "Eq", "Ne")} | {x for o, x, y in seen if y is pos and o in ("Gt", "Le", "Eq", "Ne")}
            lens = {y for y in lens if y.op == "app" and y.a[0] == "len"}
            if len(lens) != 1:
                continue
            hi = lens.pop()

            def body(s, p):
                s = s.copy()
                s.mem[loc] = p
                ex = run(s)
                back = merge(ex.pop("back", []))
                if back is not None:
                    if back.mem[loc] is not arith("Add", p, INT(1), "usize"):
                        raise Unsupported("a counter is not advanced by one in every round")
                    back.mem[loc] = INT(0)
                    back.g = gand(back.g, s.g)
                exm = {k: merge(v) for k, v in ex.items()}
                exm = {k: v for k, v in exm.items() if v is not None and not is_false(v.g)}
                for v in exm.values():
                    v.g = gand(v.g, s.g)
                return back, exm
            try:
                r = self.M.iterrange(self, s0.copy(), INT(0), hi, body)
                if r is None:
                    raise Unsupported("the list is not indexed")
                send, exits = r
            except Unsupported:
                self.lvl, self.ctxs[:], self.panics[:] = save[0], save[1], save[2]
                continue
            res = {k: [v] for k, v in exits.items() if v is not None}
            if send is not None:
                send = send.copy()
                send.mem[loc] = hi
                ex = run(send)
                if "back" in ex and any(not is_false(x.g) for x in ex["back"]):
                    raise Unsupported("a counting loop continues past the length")
                for k, v in ex.items():
                    for x in v:
                        if k != "back":
                            x.g = gand(x.g, send.g)
                            res.setdefault(k, []).append(x)
            return res
        return None

    def try_unroll(self, fr, h, s0, blocks):
        save = self.lvl, list(self.ctxs), list(self.panics)
        try:
            return self.unroll(fr, h, s0, blocks)
        except Unsupported:
            self.lvl, self.panics[:], self.ctxs[:] = save[0], save[2], save[1]
            return None

    def unroll(self, fr, h, s0, blocks, limit=24):
        s = s0
        save_p = len(self.panics)
        exits = {}
        for _ in range(limit if not self.M.OWNEDCOW[0] else 48):
            c = Ctx(self.lvl)
            c.frame = fr
            c.mode = "general"
            self.ctxs.append(c)
            try:
                ex = self.exec(fr, h, St(dict(s.mem), TRUE), blocks, h)
            finally:
                self.ctxs.pop()
            back = merge(ex.pop("back", []))
            for k, v in ex.items():
                v = [x for x in v if not is_false(x.g)]
                if v:
                    exits.setdefault(k, []).extend(v)
            if back is None or is_false(back.g):
                return exits
            if back.g is not TRUE or exits:
                break
            s = back
        del self.panics[save_p:]
        return None

    def conj(self, ex, g):
        r = {}
        for k, ss in ex.items():
            out = []
            for s in ss:
                ng = gand(s.g, g)
                if not is_false(ng):
                    out.append(St(s.mem, ng))
            if out:
                r[k] = out
        return r

    def loop_core(self, st, src, body, mkelem, where=None, post=None):
        """Summarise a loop.  body(st, elem) -> (back state, exits).
        mkelem(lvl, st) -> (elem term, finaliser) allocates the element."""
        lvl = self.lvl
        self.lvl += 1
        outer_g = st.g
        st = St(dict(st.mem), TRUE)
        try:
            hdr = dict(st.mem)
            mus = {}

            def newmu(loc, path, old):
                t = mk("mu", lvl, len(mus))
                mus[t] = (loc, path, old)
                return t

            nmu = {"n": 0}
            for rnd in range(12):
                s = St(dict(hdr), TRUE)
                elem, fin = mkelem(lvl, s)
                save_p = len(self.panics)
                back, exits = body(s, elem)
                changed = False
                if back is not None:
                    nh = {}
                    for loc, hv in hdr.items():
                        bv = back.mem.get(loc)
                        if bv is None or bv is hv:
                            nh[loc] = hv
                            continue
                        w = self.widen(hv, bv, loc, (), newmu, mus)
                        if w is not hv:
                            changed = True
                        nh[loc] = w
                    hdr = nh
                if not changed:
                    break
                del self.panics[save_p:]
            else:
                raise Unsupported("loop widening diverges")
            # steps of every mu
            steps = {}
            if back is not None:
                for mu, (loc, path, init) in mus.items():
                    steps[mu] = self.mupath(back.mem.get(loc, BOT), path)
            bg = back.g if back is not None else FALSE
            return self.finish_loop(st, src, hdr, mus, steps, bg, back, exits, lvl, fin, outer_g, where)
        finally:
            self.lvl = lvl

    def mupath(self, v, path):
        for e in path:
            if v is BOT:
                return v
            if e[0] == "adt":
                v = mapleaves(v, lambda x: x.a[e[3] + 2] if x.op == "adt" and x.a[1] == e[2] else proj(x, e[1], e[2], e[3]))
            else:
                v = mapleaves(v, lambda x: x.a[e[1]] if x.op == "tup" else proj(x, "tuple", 0, e[1]))
        return v

    def widen(self, hv, bv, loc, path, newmu, mus):
        if hv is bv:
            return hv
        if hv.op == "mu" and hv in mus:
            return hv
        if hv.op == bv.op == "adt" and hv.a[:2] == bv.a[:2] and len(hv.a) == len(bv.a):
            fs = [self.widen(x, y, loc, path + (("adt", hv.a[0], hv.a[1], i),), newmu, mus) for i, (x, y) in enumerate(zip(hv.a[2:], bv.a[2:]))]
            return mk("adt", *(hv.a[:2] + tuple(fs)))
        if hv.op == bv.op == "tup" and len(hv.a) == len(bv.a):
            fs = [self.widen(x, y, loc, path + (("tup", i),), newmu, mus) for i, (x, y) in enumerate(zip(hv.a, bv.a))]
            return mk("tup", *fs)
        if has_mref(hv) or has_mref(bv):
            raise Unsupported("a reference is carried around a loop")
        # an existing mu inside hv?
        for m, (l, p, init) in mus.items():
            if l == loc and p[:len(path)] == path:
                # collapse finer mus: widen the whole component
                pass
        return newmu(loc, path, self.initof(hv, mus))

    def initof(self, hv, mus):
        m = {k: v[2] for k, v in mus.items()}
        if not hv.bvs:
            return hv
        return subst(hv, m)

    def finish_loop(self, st, src, hdr, mus, steps, bg, back, exits, lvl, fin, outer_g, where):
        exits = {k: v for k, v in exits.items() if v is not None and not is_false(v.g)}
        # the loop continues under guard bg: steps are read there
        live = {}
        # dependencies
        used_mu = lambda t: [b for b in t.bvs if b.op == "mu" and b.a[0] == lvl and b in mus]

        def closure(ts):
            todo, seen = list(ts), []
            while todo:
                t = todo.pop(0)
                for m in sorted(used_mu(t)):
                    if m not in seen:
                        seen.append(m)
                        todo.append(steps[m])
            return seen
        inits = {m: mus[m][2] for m in mus}

        def canon(roots):
            """-> substitution mu -> bv by order of traversal"""
            order = []
            for r in roots:
                for m in firsts(r, lambda x: x.op == "mu" and x.a[0] == lvl and x in mus):
                    if m not in order:
                        order.append(m)
            i = 0
            while i < len(order):
                for m in firsts(steps[order[i]], lambda x: x.op == "mu" and x.a[0] == lvl and x in mus):
                    if m not in order:
                        order.append(m)
                i += 1
            return order

        early = {}
        for k, s in exits.items():
            early[k] = s
        finals = {}
        foreach = src.op != "app" or src.a[0] != "while"
        exit_guards = [(k, s.g) for k, s in sorted(early.items(), key=lambda kv: str(kv[0]))]
        sig = None
        if early:
            roots = [g for _, g in exit_guards]
            if any(used_mu(g) for g in roots) or not foreach:
                order = canon(roots)
                ren = {m: mk("bv", lvl, f"a{i}") for i, m in enumerate(order)}
                sig = APP("loop", src, TUP(*[inits[m] for m in order]),
                          TUP(*[subst(steps[m], ren) for m in order]),
                          TUP(*[subst(g, ren) for g in roots]))
            else:
                sig = APP("find", src, mk("bv", lvl, "_"), TUP(*roots))
        # normal end: every mu folded over the whole source
        out_normal = None
        if foreach and (back is not None or not exits):
            need = {}
            fold = {}
            for m in mus:
                fold[m] = None

            def final(m):
                if fold[m] is None:
                    fold[m] = self.mkfold(src, m, canon([m]), inits, steps, lvl, bool(early), sig)
                return fold[m]
            memo = {}
            mem = {}
            for loc, hv in hdr.items():
                ms = [x for x in used_mu(hv)]
                if ms:
                    sub = {m: final(m) for m in ms}
                    hv = subst(hv, sub)
                mem[loc] = hv
            out_normal = St(mem, TRUE)
        if fin is not None:
            # element finaliser (mutable element): runs on the state after one body
            out_normal = fin(st, back, out_normal, lvl)
        if not early:
            if out_normal is not None:
                out_normal.g = outer_g
            self.loops.append((where, src, None))
            return out_normal, {}
        nexit = len(exit_guards)
        res = {}
        if foreach:
            dom = tuple(range(nexit + 1))
            c = self.dcond(sig, dom)
        else:
            dom = tuple(range(nexit))
            c = self.dcond(sig, dom) if nexit > 1 else None
        bvmap = {}
        for i, (k, g) in enumerate(exit_guards):
            s = early[k]
            key = i + 1 if foreach else i
            mem = {}
            allm = sorted(m for m in mus)
            order = canon([g for _, g in exit_guards])
            sub = {}
            for m in allm:
                if m in order:
                    sub[m] = APP("at", sig, INT(order.index(m)))
                else:
                    o2 = canon([m])
                    ren = {x: mk("bv", lvl, f"a{j}") for j, x in enumerate(o2)}
                    sub[m] = APP("atx", sig, TUP(*[inits[x] for x in o2]), TUP(*[subst(steps[x], ren) for x in o2]))
            for n in ("k", "v", "e", "i"):
                b = mk("bv", lvl, n)
                if sig.a[0] == "find":
                    sub[b] = APP("found:" + n, sig)
                else:
                    sub[b] = APP("at:" + n, sig)
            for loc, v in s.mem.items():
                v = cofactor(v, s.g)
                mem[loc] = subst(v, sub) if v.bvs else v
            g2 = TRUE if c is None else gate(c, key)
            res[k] = St(mem, gand(outer_g, g2))
        if out_normal is not None:
            out_normal = narrow(St(out_normal.mem, TRUE), gate(c, 0))
            out_normal.g = gand(outer_g, gate(c, 0))
        self.loops.append((where, src, sig))
        return out_normal, res

    def mkfold(self, src, m, order, inits, steps, lvl, early, sig):
        ren = {x: mk("bv", lvl, f"a{j}") for j, x in enumerate(order)}
        st = [subst(steps[x], ren) for x in order]
        ini = [inits[x] for x in order]
        if len(order) == 1:
            return self.M.fold1(self, src, ini[0], st[0], lvl)
        return self.M.foldn(self, src, ini, st, lvl)


def has_mref(t):
    return any(x.op == "mref" for x in walk(t))


def firsts(t, p):
    out, seen = [], set()
    def go(x):
        if x in seen or not x.bvs:
            return
        seen.add(x)
        if p(x):
            out.append(x)
            return
        for y in x.a:
            if type(y) is T:
                go(y)
            elif type(y) is tuple:
                for z in y:
                    if type(z) is T:
                        go(z)
    go(t)
    return out


class Frame:
    __slots__ = ("id", "body", "rpo", "loops", "succ", "span", "addr")

    def __init__(self, id, body):
        self.id = id
        self.body = body
        self.span = None
        self.addr = {}


class FnRef:
    _c = {}

    def __init__(self, d):
        self.d = d

    def __repr__(self):
        return short(self.d.get("res") or self.d["decl"])

    @staticmethod
    def get(d):
        k = (d.get("key"), d.get("res"), d["decl"], tuple(d["args"]), d.get("variant"))
        r = FnRef._c.get(k)
        if r is None:
            r = FnRef._c[k] = FnRef(d)
        return r


class Call:
    __slots__ = ("eng", "fr", "t", "f", "name", "retbool", "fn", "parent")

    def __init__(self, eng, fr, t, f, parent=None):
        self.eng, self.fr, self.t, self.f, self.parent = eng, fr, t, f, parent
        self.fn = f.a[0].d if f.op == "fn" else None
        self.name = norm(self.fn.get("res") or self.fn["decl"]) if self.fn else f.op
        self.retbool = False
        if t is not None and (parent is None or parent.f is f):
            self.retbool = eng.F.types[t[7]]["k"] == "bool"

    def own(self):
        return self.t is not None and (self.parent is None or self.parent.f is self.f)

    def argtys(self):
        return self.t[8] if self.own() else None

    def retty(self):
        return self.t[7] if self.own() else None

    def gargs(self):
        return self.fn["args"] if self.fn else []

    def where(self):
        return self.t[6] if self.t is not None else "?"


import re
_nc = {}


def norm(p):
    """strip generic arguments: a::B::<T>::c -> a::B::c ; keep <X as Trait> heads"""
    r = _nc.get(p)
    if r is None:
        s = p
        # remove ::<...>
        out, depth, i = "", 0, 0
        while i < len(s):
            if s.startswith("::<", i) and not s.startswith("::<impl", i):
                d = 0
                j = i + 2
                while j < len(s):
                    if s[j] == "<":
                        d += 1
                    elif s[j] == ">" and s[j - 1] != "-":
                        d -= 1
                        if d == 0:
                            break
                    j += 1
                i = j + 1
                continue
            out += s[i]
            i += 1
        r = _nc[p] = out
    return r


INTS = {}
for _b in (8, 16, 32, 64, 128):
    INTS[f"u{_b}"] = (_b, False)
    INTS[f"i{_b}"] = (_b, True)
INTS["usize"] = (64, False)
INTS["isize"] = (64, True)
INTS["char"] = (32, False)
INTS["bool"] = (8, False)


def wrap(n, s):
    b, sg = INTS.get(s, (64, False))
    n &= (1 << b) - 1
    if sg and n >= 1 << (b - 1):
        n -= 1 << b
    return n


def rng(s):
    b, sg = INTS[s]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if sg else (0, (1 << b) - 1)


def icast(fs, ts, x):
    """integer conversion term; widening conversions are value preserving"""
    (fl, fh), (tl, th) = rng(fs), rng(ts)
    if x.op == "bits" and fs[0] == "u" and ts[0] == "u":
        return bits.resize(x, INTS[fs][0], INTS[ts][0])
    if x.op == "app" and x.a[0].startswith("icast:"):
        _, f0, t0 = x.a[0].split(":")
        (l0, h0) = rng(f0)
        (m, n) = rng(t0)
        if m <= l0 and h0 <= n:      # inner cast was widening
            return icast(f0, ts, x.a[1]) if f0 != ts else x.a[1]
    return APP(f"icast:{fs}:{ts}", x)


CMP = {"Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b, "Lt": lambda a, b: a < b,
       "Le": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b}


def asbool(x):
    def f(y):
        if y.op == "int":
            return y
        return mksw_ord(mk("bool", y, None), [(0, FALSE), (1, TRUE)])
    return mapleaves(x, f)


def cmpterm(op, x, y, ts):
    if x.op == y.op == "int":
        return TRUE if CMP[op](x.a[0], y.a[0]) else FALSE
    if op == "Lt" and "ch" in (x.op, y.op) and {x.op, y.op} <= {"ch", "int"}:
        (al, ah), (bl, bh) = [(z.a[0], z.a[0]) if z.op == "int" else (z.a[1][0][0], z.a[1][-1][1]) for z in (x, y)]
        if ah < bl or al >= bh:
            return TRUE if ah < bl else FALSE
    if op == "Ne":
        return gnot(cmpterm("Eq", x, y, ts))
    if op == "Gt":
        return cmpterm("Lt", y, x, ts)
    if op == "Ge":
        return gnot(cmpterm("Lt", x, y, ts))
    if op == "Le":
        return gnot(cmpterm("Lt", y, x, ts))
    if op == "Eq":
        if x is y and not ts.startswith("f"):
            return TRUE
        # (n as t as o) == n  <=>  n fits in t
        for a, b in ((x, y), (y, x)):
            if a.op == "app" and a.a[0].startswith("icast:") and a.a[1].op == "app" and a.a[1].a[0].startswith("icast:") and a.a[1].a[1] is b:
                _, o, t = a.a[1].a[0].split(":")
                return fits(o, t, b)
        if x.op != "sw" and y.op != "sw":
            ux, uy = uncast(x), uncast(y)
            if ux is not x or uy is not y:
                return cmpterm("Eq", ux, uy, "i128" if ts in INTS else ts)
        for a, b in ((x, y), (y, x)):
            if b.op == "int":
                g = tagzero(a, b.a[0])
                if g is not None:
                    return g
        if y.op == "int" and x.op != "int":
            return cgate(x, y.a[0])
        if x.op == "int" and y.op != "int":
            return cgate(y, x.a[0])
        if y.id < x.id:
            x, y = y, x
        return asbool(APP("eq", x, y))
    if ts in INTS and ts != "char":
        lo, hi = rng(ts)
        if x.op == "int" and y.op != "int":          # c < y  <=>  not y < c + 1
            return FALSE if x.a[0] >= hi else gnot(cmpterm("Lt", y, INT(x.a[0] + 1), ts))
        if y.op == "int" and x.op != "int":
            while x.op == "app" and x.a[0].startswith("icast:"):
                _, f0, t0 = x.a[0].split(":")
                if t0 != ts or not lossless(f0, t0):
                    break
                x, ts = x.a[1], f0
            lo, hi = rng(ts)
            c = y.a[0]
            if c <= lo:
                return FALSE
            if c > hi:
                return TRUE
            if c == lo + 1:
                return cmpterm("Eq", x, INT(lo), ts)
            if lo == 0 and c <= 4:          # a small number is below a small bound: one of finitely many
                g = FALSE
                for k in range(c):
                    g = gor(g, cmpterm("Eq", x, INT(k), ts))
                return g
    return asbool(APP("lt:" + ts, x, y))


def ltatom(c):
    """(number, bound, type) of the condition `number < constant bound`"""
    if c.op == "bool" and type(c.a[0]) is T and c.a[0].op == "app" and c.a[0].a[0].startswith("lt:") and c.a[0].a[2].op == "int":
        return c.a[0].a[1], c.a[0].a[2].a[0], c.a[0].a[0][3:]
    return None


def decide_num(t, g):
    """t, with comparisons of a number against constants decided by what the guard says of that number"""
    for c in list(t.conds):
        a = ltatom(c)
        if a is None or c not in t.conds:
            continue
        x, n, ts = a
        lo, hi = rng(ts)
        pts = {n - 1, n, lo, hi}
        rel = []
        for d in g.conds:
            b = ltatom(d)
            if b is not None and b[0] is x:
                rel.append((d, b[1]))
                pts |= {b[1] - 1, b[1]}
            elif d is x:
                for k in keysof(g, x):
                    if type(k) is int:
                        pts |= {k - 1, k, k + 1}
        if not rel and x not in g.conds:
            continue
        seen = set()
        for v in pts:
            if not lo <= v <= hi:
                continue
            h = g
            for d, m in rel:
                h = fix(h, d, 1 if v < m else 0)
            if x in h.conds:
                ks = keysof(h, x)
                h = fix(h, x, v) if v in ks else restrict(h, x, "else", ks)
            if not is_false(h):
                seen.add(v < n)
        if len(seen) == 1:
            t = fix(t, c, 1 if seen.pop() else 0)
    return t


def keysof(t, c):
    """the values of c that t distinguishes"""
    r = set()
    stack, done = [t], set()
    while stack:
        y = stack.pop()
        if y in done or c not in y.conds:
            continue
        done.add(y)
        if y.op == "sw" and y.a[0] is c:
            r |= set(y.a[1])
        if y.op == "sw":
            stack += [z for z in y.a[2] if type(z) is T]
    return tuple(sorted((k for k in r), key=str))


def lossless(f, t):
    (fl, fh), (tl, th) = rng(f), rng(t)
    return tl <= fl and fh <= th


def cgate(x, v):
    """x == v for an integer x; conversions that keep different numbers different are undone"""
    while x.op == "app" and x.a[0].startswith("icast:") and type(v) is int:
        _, f, t = x.a[0].split(":")
        if f not in INTS or t not in INTS or f in ("bool", "char") or t in ("bool", "char") or INTS[t][0] < INTS[f][0]:
            break
        lo, hi = rng(f)
        c = [y for y in (v, v - (1 << INTS[t][0]), v + (1 << INTS[t][0])) if lo <= y <= hi and wrap(y, t) == v]
        if not c:
            return FALSE
        x, v = x.a[1], c[0]
    return gate(x, v)


def uncast(x):
    """the number x without value preserving conversions around it"""
    while x.op == "app" and x.a[0].startswith("icast:"):
        _, f, t = x.a[0].split(":")
        if f not in INTS or t not in INTS or f in ("bool", "char") or not lossless(f, t):
            break
        x = x.a[1]
    return x


def tagzero(x, v):
    """x == v for a word of known bit layout.  A whole tag is zero exactly when
    its id is (the default tag is the only one with id 0: rule C06)."""
    if x.op == "bits":
        return bits.eqconst(x, v)
    if x.op == "ch":
        return gate(x, v) if any(lo <= v <= hi for lo, hi in x.a[1]) else FALSE
    if v == 0 and x.op == "proj" and str(x.a[0]).split("::")[-1] == "Tag":
        return gate(bits.frombits([(62, x, 0)], 62), 0)
    return None


def fits(fs, ts, x):
    (fl, fh), (tl, th) = rng(fs), rng(ts)
    if tl <= fl and fh <= th:
        return TRUE
    if x.op == "int":
        return TRUE if tl <= x.a[0] <= th else FALSE
    g = TRUE
    if fl < tl:
        g = gand(g, gnot(cmpterm("Lt", x, INT(tl), fs)))
    if th < fh:
        g = gand(g, cmpterm("Lt", x, INT(th + 1), fs))
    return g


def arith(op, x, y, ts):
    if op == "Sub" and x is y:
        return INT(0)
    if op == "Add":
        if x.op == "int" and x.a[0] == 0:
            return y
        if y.op == "int" and y.a[0] == 0:
            return x
    if op in ("Shl", "Shr", "Sub") and y.op == "int" and y.a[0] == 0:
        return x
    w, sg = INTS.get(ts, (0, True))
    if w and not sg and ts not in ("bool", "char"):
        r = None
        if op in ("BitAnd", "BitOr", "BitXor"):
            r = bits.bitop(op, x, y, w)
        elif op == "Add" and ("bits" in (x.op, y.op)) and bits.disjoint(x, y, w):
            r = bits.bitop("BitOr", x, y, w)
        elif op == "Shl" and y.op == "int":
            r = bits.shl(x, y.a[0], w)
        elif op == "Shr" and y.op == "int":
            r = bits.shr(x, y.a[0], w)
        elif op in ("Rem", "Div") and y.op == "int" and y.a[0] > 0 and y.a[0] & (y.a[0] - 1) == 0:
            k = y.a[0].bit_length() - 1
            r = bits.shr(x, k, w) if op == "Div" else bits.bitop("BitAnd", x, INT(y.a[0] - 1), w)
        if r is not None:
            return r
    return APP("arith:" + op + ":" + ts, x, y)


def arith2(op, x, y, ts):
    """arithmetic with constant folding and canonical operand order"""
    if x.op == "int" and y.op == "int" and op in FOLD and ts in INTS:
        return INT(wrap(FOLD[op](x.a[0], y.a[0]), ts))
    if op in ("Add", "Mul", "BitAnd", "BitOr", "BitXor") and y.id < x.id:
        x, y = y, x
    return arith(op, x, y, ts)


FOLD = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mul": lambda a, b: a * b, "BitAnd": lambda a, b: a & b,
        "BitOr": lambda a, b: a | b, "BitXor": lambda a, b: a ^ b}


COW = "std::borrow::Cow"


def proj(v, adt, vi, idx):
    if adt == COW or adt == "std::boxed::Box" or adt == "std::ptr::Unique" or adt == "std::ptr::NonNull":
        return v
    def f(x):
        if x.op == "adt":
            if x.a[1] != vi:
                return BOT
            if 2 + idx >= len(x.a):
                return BOT
            return x.a[2 + idx]
        if x.op == "tup":
            return x.a[idx] if idx < len(x.a) else BOT
        if x.op == "clo":
            return x.a[2 + idx]
        if x.op == "undef":
            return x
        return mk("proj", adt, vi, idx, x)
    return mapleaves(v, f)


def _recon_proj(adt, vi, idx, x):
    return proj(x, adt, vi, idx)


RECON["proj"] = _recon_proj


def eta(t):
    """constructor applied to the projections of one value is that value"""
    if t.op == "adt":
        fs = t.a[2:]
        if fs and fs[0].op == "proj" and fs[0].a[0] == t.a[0] and fs[0].a[1] == t.a[1] and fs[0].a[2] == 0:
            b = fs[0].a[3]
            if all(f.op == "proj" and f.a[0] == t.a[0] and f.a[1] == t.a[1] and f.a[2] == i and f.a[3] is b for i, f in enumerate(fs)):
                if eta.facts is None or len(eta.facts[t.a[0]]["variants"][t.a[1]]["fields"]) == len(fs):
                    return b
    elif t.op == "tup" and len(t.a) > 1:
        fs = t.a
        if fs[0].op == "proj" and fs[0].a[0] == "tuple" and fs[0].a[2] == 0:
            b = fs[0].a[3]
            if all(f.op == "proj" and f.a[0] == "tuple" and f.a[2] == i and f.a[3] is b for i, f in enumerate(fs)):
                if eta.tuplen.get(b, len(fs)) == len(fs):
                    return b
    return t


eta.facts = None
eta.tuplen = {}


def _recon_discr(x, dom):
    # condition of a now-known constructor
    if x.op == "adt":
        return INT(x.a[1])
    if x.op == "sw":
        return mapleaves(x, lambda y: _recon_discr(y, dom))
    return mk("discr", x, dom)


def _recon_bool(x, d):
    if x.op == "int":
        return x
    return mk("bool", x, d)


RECON["discr"] = _recon_discr
RECON["bool"] = _recon_bool
RECON["adt"] = lambda *a: eta(mk("adt", *a))
RECON["tup"] = lambda *a: eta(mk("tup", *a))


IDX = []        # the loops over positions being analysed: (position, list, element, use)


def inrange(a, b):
    """is a < b because a is a position of a list of length b"""
    return any(a is pos and b.op == "app" and b.a[0] == "len" and b.a[1] is x for pos, x, _, _ in IDX)


def index(v, ix):
    def f(x):
        for pos, l, el, how in IDX:
            if ix is pos and x is l:
                if type(how) is list:
                    how.append("value")
                return el if el.op != "mref" else APP("index", x, ix)
            if type(how) is tuple and x is l:
                raise Unsupported("a list is read at other positions while a loop over its positions changes it")
        if x.op == "arr" and ix.op == "int":
            return x.a[ix.a[0]] if ix.a[0] < len(x.a) else BOT
        if x.op == "app" and x.a[0] == "lcat" and ix.op == "int" and x.a[1].op == "arr" and ix.a[0] < len(x.a[1].a):
            return x.a[1].a[ix.a[0]]
        return APP("index", x, ix)
    return mapleaves(v, f)


def cindex(v, off, fe):
    def f(x):
        if x.op == "arr":
            return x.a[off if not fe else len(x.a) - off]
        return APP("index_end" if fe else "index", x, INT(off))
    return mapleaves(v, f)


def gleaves(v):
    """(guard, leaf) list of a diagram"""
    if v.op != "sw":
        return [(TRUE, v)]
    out = []
    c = v.a[0]
    for k, x in zip(v.a[1], v.a[2]):
        gk = gate_in(c, k, v.a[1])
        for g, l in gleaves(x):
            out.append((gand(gk, g), l))
    return out


def gate_in(c, k, keys):
    if k != "else":
        return gate(c, k)
    g = TRUE
    for x in keys:
        if x != "else":
            g = gand(g, gnot(gate(c, x)))
    return g


def dedup(outs):
    m = {}
    order = []
    for g, l, p in outs:
        k = (l, p)
        if k in m:
            m[k] = gor(m[k], g)
        else:
            m[k] = g
            order.append(k)
    if len(order) == 1:
        return [(TRUE, order[0][0], order[0][1])]
    return [(m[k], k[0], k[1]) for k in order]
