"""Rule harness: anchors, evaluation, obligations, coinductive comparison."""
import sys, os, json, time, signal, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(50000)
from terms import *
import engine as E
import models as M
from engine import (Engine, Facts, St, Unsupported, LOG, gleaves, proj, asbool, narrow, norm, cofactor)


class Missing(Exception):
    pass


class TimeUp(Exception):
    pass


def _alarm(*a):
    raise TimeUp("analysis budget exhausted")


class Ev:
    """the result of evaluating one function abstractly"""
    def __init__(self, eng, body, v, s, refs):
        self.eng, self.body, self.v, self.s, self.refs = eng, body, v, s, refs

    def out(self, i):
        """final value behind the i-th (mutable reference) argument"""
        return self.s.mem[self.refs[i]] if self.s is not None else BOT

    @property
    def log(self):
        return list(M.logitems(self.s.mem.get(LOG, UNIT))) if self.s is not None else []

    @property
    def g(self):
        return self.s.g if self.s is not None else FALSE

    @property
    def panics(self):
        return self.eng.panics


class Run:
    def __init__(self, pid, tier, F):
        self.pid, self.tier, self.F = pid, tier, F
        self.obs = []           # (key, ok, where, msg)
        self.functions = set()
        self.evals = 0
        self.callees = 0
        self.unknown = {}
        self.thorough = tier == "thorough"
        self.budget = 60
        self.notes = []
        self._fresh = 0
        self._memo = {}

    # ------------------------------------------------------------- anchors
    def adt(self, name):
        if "::" in name and name in self.F.adts:
            return name
        c = [p for p, a in self.F.adts.items() if a["local"] and p.split("::")[-1] == name]
        if len(c) != 1:
            raise Missing(f"type `{name}`: {len(c)} candidates")
        return c[0]

    def variants(self, name):
        return [v["name"] for v in self.F.adts[self.adt(name)]["variants"]]

    def vi(self, name, variant):
        vs = self.variants(name)
        if variant not in vs:
            raise Missing(f"variant {name}::{variant}")
        return vs.index(variant)

    def con(self, name, variant, *f):
        p = self.adt(name)
        i = self.vi(name, variant)
        n = len(self.F.adts[p]["variants"][i]["fields"])
        if n != len(f):
            raise Missing(f"{name}::{variant} has {n} fields, expected {len(f)}")
        return ADT(p, i, *f)

    def fields(self, name):
        """[(field name, type string)] of a local struct"""
        p = self.adt(name)
        a = self.F.adts[p]
        return [(n, self.F.tys(t)) for n, t in zip(a["variants"][0]["fields"], a["field_tys"][0])]

    def fidx(self, name, field=None, ty=None):
        """index of a struct field, by name or by its type (a predicate or a suffix)"""
        c = []
        for i, (n, t) in enumerate(self.fields(name)):
            if field is not None and n == field:
                c.append(i)
            elif ty is not None and (ty(t) if callable(ty) else t == ty):
                c.append(i)
        if len(c) != 1:
            raise Missing(f"field {field or ty} of {name}: {len(c)} candidates")
        return c[0]

    def struct(self, name, **kw):
        """struct value; fields by name, others fresh symbols"""
        p = self.adt(name)
        fs = []
        names = [n for n, _ in self.fields(name)]
        for k in kw:
            if k not in names:
                raise Missing(f"field {name}.{k}")
        for n in names:
            fs.append(kw[n] if n in kw else SYM(f"{name}.{n}"))
        return ADT(p, 0, *fs)

    def selfname(self, it):
        if it["self"] is None:
            return None
        t = self.F.types[it["self"]]
        if t["k"] == "ref":
            return "&" + self.tname(t["of"])
        return self.tname(it["self"])

    def tname(self, tid):
        t = self.F.types[tid]
        if t["k"] == "adt":
            return t["adt"].split("::")[-1]
        if t["k"] == "ref":
            return "&" + self.tname(t["of"])
        return t["s"]

    def items(self, name, self_ty=None, trait=None, inherent=False):
        r = []
        for it in self.F.items:
            if it["name"] != name:
                continue
            if self_ty is not None and self.selfname(it) != self_ty:
                continue
            tn = it["trait"].split("<")[0].split("::")[-1] if it["trait"] else None
            if trait is not None and tn != trait:
                continue
            if inherent and tn is not None:
                continue
            r.append(it)
        return r

    def fn(self, name, self_ty=None, trait=None, mod=None, where=None):
        r = self.items(name, self_ty, trait, inherent=trait is None and self_ty is not None)
        if mod is not None:
            r = [i for i in r if mod in i["dpath"]]
        if where is not None:
            r = [i for i in r if where(i)]
        if len(r) != 1:
            raise Missing(f"function {trait + '::' if trait else ''}{self_ty + '::' if self_ty else ''}{name}: {len(r)} candidates")
        return r[0]

    def methods(self, adt):
        """{name: item} of the methods implemented for a local type (given by its full path)"""
        return {it["name"]: it for it in self.F.items if it["self"] is not None and self.F.types[it["self"]].get("adt") == adt}

    def body(self, it, inst=None):
        """generic (identity) body of an item, or the instance selected by `inst`"""
        bs = [b for b in self.F.by_dpath.get(it["dpath"], []) if not b["closure"]]
        if inst is not None:
            bs = [b for b in bs if inst(b["key"])]
            if not bs:
                raise Missing(f"instance of {it['path']}")
            return bs[0]
        b = self.F.bodies.get(it["key"]) if it.get("key") else None
        if b is None:
            if len(bs) != 1:
                bs2 = [x for x in bs if "@" not in x["key"]]
                if len(bs2) != 1:
                    raise Missing(f"body of {it['path']} ({len(bs)} instances)")
                bs = bs2
            b = bs[0]
        return b

    # ---------------------------------------------------------- evaluation
    def sym(self, name):
        return SYM(name)

    def fresh(self, name="x"):
        self._fresh += 1
        return SYM(f"{name}'{self._fresh}")

    def ev(self, it, args, opaque=(), models=None, inst=None, setup=None, budget=None, refs=True):
        b = it if "blocks" in it else self.body(it, inst)
        eng = Engine(self.F, opaque={o if type(o) is str else o["dpath"] for o in opaque}, models=models)
        st = St({}, TRUE)
        if setup is not None:
            setup(eng, st)
        args = list(args)
        rr = {}
        if b["spread"] is None and refs:
            for i, a in enumerate(args):
                t = self.F.types[b["locals"][i + 1]]
                if t["k"] == "ref" and t["mut"] and a.op != "mref":
                    l = eng.newloc(st, a)
                    rr[i] = l
                    args[i] = mk("mref", l, ())
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(budget or self.budget)
        try:
            v, s = eng.run_body(b, args, st)
        finally:
            signal.alarm(0)
        self.evals += 1
        self.functions |= eng.visited
        self.callees += sum(eng.calls.values())
        for k, n in eng.unknowns.items():
            self.unknown[k] = self.unknown.get(k, 0) + n
        if s is not None:
            v = cofactor(v, s.g)
        return Ev(eng, b, v, s, rr)

    def share(self, items, f):
        """run f(group, name, item) on every item, spread over processes; -> [(group, name, finding)] where f returned one"""
        n = max(1, min(8, os.cpu_count() or 1))
        kids = []
        for w in range(n):
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(rd)
                    out = []
                    for i in range(w, len(items), n):
                        g, k, d = items[i]
                        msg = f(g, k, d)
                        if msg is not None:
                            out.append((i, msg))
                    data = json.dumps(dict(out=out, fns=sorted(self.functions), evals=self.evals, callees=self.callees, unknown=self.unknown))
                    with os.fdopen(wr, "w") as h:
                        h.write(data)
                    code = 0
                finally:
                    os._exit(code)
            os.close(wr)
            kids.append((pid, rd))
        got = []
        e0, c0 = self.evals, self.callees
        dead = False
        for pid, rd in kids:
            with os.fdopen(rd) as h:
                data = h.read()
            _, status = os.waitpid(pid, 0)
            if status != 0 or not data:
                dead = True
                continue
            r = json.loads(data)
            got += r["out"]
            self.functions |= set(r["fns"])
            self.evals += r["evals"] - e0
            self.callees += r["callees"] - c0
            for k, v in r["unknown"].items():
                self.unknown[k] = max(self.unknown.get(k, 0), v)
        if dead:
            raise Unsupported("a part of the analysis ended early")
        return [(items[i][0], items[i][1], m) for i, m in sorted(got)]

    def solver(self, **kw):
        """evaluate a recursive function met during an induction; the value of
        its i-th mutable argument is returned when it has one and returns ()"""
        def solve(d, args):
            d0, _, idx = d.partition("!")
            b = E.REC_BODIES.get(d0)
            if b is None:
                bs = [x for x in self.F.by_dpath.get(d0, []) if not x["closure"]]
                if len(bs) != 1:
                    raise Missing(f"body of {d0}")
                b = bs[0]
            e = self.ev(b, args, **kw)
            return e.out(int(idx)) if idx else e.v
        return solve

    # ---------------------------------------------------------- obligations
    def ob(self, key, ok, where, msg="", rule=""):
        self.obs.append((key, bool(ok), where, msg))
        return ok

    def eq(self, key, where, got, want, msg=""):
        ok = got is want
        if not ok and type(got) is T and type(want) is T and got is not BOT and want is not BOT:
            # equal under every case distinction
            try:
                ok = Cmp(self, {}, None).run(got, want, 0)[0]
            except Unsupported:
                ok = False
        if not ok:
            d = diff(got, want)
            msg = (msg + ": " if msg else "") + f"got {cut(d[0])} where {cut(d[1])} is required"
        return self.ob(key, ok, where, msg)

    def case(self, key, f, *a):
        """run one obligation group; anything the analysis cannot decide fails closed"""
        try:
            f(*a)
        except Missing as e:
            self.ob(key, False, "anchor", f"missing anchor: {e}")
        except (Unsupported, TimeUp, RecursionError) as e:
            self.ob(key, False, "engine", f"undecided: {type(e).__name__} {e}")
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            if os.environ.get("SA_TRACE"):
                traceback.print_exc()
            self.ob(key, False, "engine", f"undecided: {type(e).__name__}: {e} at {os.path.basename(tb[0])}:{tb[1]}")

    def floor(self, key, n, least):
        self.ob("floor:" + key, n >= least, "coverage", f"{n} instances, expected at least {least}")

    # ---------------------------------------------------------- coinduction
    def rec_eq(self, key, where, got, want, unfold=None, solve=None, limit=60, assume=()):
        """got == want where `want` may contain ("app","S:name",args) specification
        terms, and `got` recursive-call terms rec:/fn:.  Each pair that meets is
        a proof obligation discharged by unfolding both once on fresh symbols.
        unfold[name](*args) -> specification term; solve(dpath, args) -> term"""
        c = Cmp(self, unfold or {}, solve)
        ok, msg = c.run(got, want, limit, assume)
        self.ob(key, ok, where, msg)
        return ok


MAPOPS = ("map.empty", "map.ins", "map.del", "map.lam")


def ismap(t):
    return t.op == "app" and t.a[0] in MAPOPS


def numeric(c, k): return type(k) is int and c.op in ("sym", "proj", "bv")


def is_lt(c): return c.op == "bool" and type(c.a[0]) is T and c.a[0].op == "app" and c.a[0].a[0].startswith("lt:")


def fixnum(t, c, k):
    """t, knowing that the number c is k: comparisons of c are decided"""
    if numeric(c, k) and any(is_lt(y) for y in t.conds):
        t = subst(t, {c: INT(k)})
    return t


class Cmp:
    """coinductive comparison of value graphs"""
    def __init__(self, run, unfold, solve):
        self.R, self.unfold, self.solve = run, unfold, solve
        self.hyps = set()
        self.todo = []
        self.memo = {}
        self.steps = 0
        self.inlined = {}

    def run(self, got, want, limit, assume=()):
        for h in assume:
            self.hyps.add(h)
        r = self.meet(got, want, ())
        n, ctx = 0, ""
        while r is None and self.todo and n < limit:
            n += 1
            d, ga, s, wa = self.todo.pop(0)
            ctx = f" in {short(d)}"
            if self.solve is None:
                return False, f"unresolved call {d}"
            g = self.solve(d, list(ga))
            w = self.unfold[s[2:]](*wa)
            r = self.meet(g, w, ())
        if r is not None:
            return False, f"got {cut(r[0])} where {cut(r[1])} is required{ctx}"
        if self.todo:
            return False, "induction diverges"
        return True, ""

    def restrict(self, t, ctx):
        for c, k, ks in ctx:
            if c in t.conds:
                t = restrict(t, c, k, ks)
            t = fixnum(t, c, k)
        return t

    def expand(self, w, ctx):
        f = self.unfold.get(w.a[0][2:])
        if f is None:
            return None
        u = f(*w.a[1:])
        return None if u is None else self.restrict(u, ctx)

    def meet(self, g, w, ctx):
        if g is w or w is BOT or g is BOT:
            return None
        key = (g, w, ctx)
        if key in self.memo:
            return self.memo[key]
        self.steps += 1
        if self.steps > 200000:
            raise Unsupported("comparison too large")
        r = self.meet0(g, w, ctx)
        if r is None or len(self.memo) < 200000:
            self.memo[key] = r
        return r

    def isspec(self, w):
        return w.op == "app" and w.a[0].startswith("S:")

    def meet0(self, g, w, ctx):
        if self.isspec(w):
            if g.op == "app" and (g.a[0].startswith("rec:") or (g.a[0].startswith("fn:") and self.solve is not None)):
                d = g.a[0].split(":", 1)[1]
                hs = generalise(d, self.align(g.a[1:], w.a[1:], ctx), w.a[0], w.a[1:])
                if hs not in self.hyps:
                    self.hyps.add(hs)
                    self.todo.append(hs)
                return None
            u = self.expand(w, ctx)
            if u is None or u is w:
                return (g, w)
            return self.meet(g, u, ctx)
        if g.op == "app" and self.solve is not None and g.a[0].startswith("rec:") and not (w.op == "app" and w.a[0] == g.a[0]):
            # a helper without a specification of its own: inline it
            if g in self.inlined and self.inlined[g] > 2 or len(self.inlined) > 60:
                return (g, w)
            self.inlined[g] = self.inlined.get(g, 0) + 1
            g2 = self.restrict(self.solve(g.a[0][4:], list(g.a[1:])), ctx)
            return (g, w) if g2 is g else self.meet(g2, w, ctx)
        if g.op == "sw" or w.op == "sw":
            c = top(g, w)
            for k in keyset(c, (g, w)):
                ks = tuple(keyset(c, (g, w)))
                gc, wc = child(g, c, k), child(w, c, k)
                if gc is BOT or wc is BOT:
                    continue
                if c in gc.conds:
                    gc = restrict(gc, c, k, ks)
                if c in wc.conds:
                    wc = restrict(wc, c, k, ks)
                if numeric(c, k) and any(is_lt(c0) and c in walk(c0) and subst(c0.a[0], {c: INT(k)}) is not (TRUE if k0 else FALSE) for c0, k0, _ in ctx):
                    continue        # the number k is excluded by an earlier comparison
                gc, wc = fixnum(gc, c, k), fixnum(wc, c, k)
                r = self.meet(gc, wc, ctx + ((c, k, ks),))
                if r is not None:
                    return r
            return None
        if g.op == "app" and w.op == "app":
            if g.a[0] == w.a[0] == "map.lam" or (ismap(g) or ismap(w)) and g.a[0] != w.a[0]:
                K = self.R.fresh("key")
                return self.meet(self.restrict(M.mget(g, K), ctx), self.restrict(M.mget(w, K), ctx), ctx)
            if g.a[0] == w.a[0] == "lgen" and g.a[1] is not w.a[1]:
                r = self.meet(g.a[1], w.a[1], ctx)
                if r is not None:
                    return r
            if g.a[0] == w.a[0] == "lgen":
                gb, wb = self.openbv(g, w)
                return self.meet(self.restrict(gb, ctx), self.restrict(wb, ctx), ctx)
        elif ismap(g) or ismap(w):
            K = self.R.fresh("key")
            return self.meet(self.restrict(M.mget(g, K), ctx), self.restrict(M.mget(w, K), ctx), ctx)
        if g.op != w.op or len(g.a) != len(w.a):
            return (g, w)
        for x, y in zip(g.a, w.a):
            r = self.meet2(x, y, ctx)
            if r is not None:
                return r if not (type(r[0]) is T and r[0].op in ("int", "str")) else r
        return None

    def align(self, ga, wa, ctx):
        """rewrite arguments of the call that are provably equal to an argument
        of the specification term (equality proved by the same comparison)"""
        out = []
        free = [y for y in wa if type(y) is T and y.op not in ("int", "str") and y not in ga]
        for x in ga:
            if type(x) is T and free and x not in wa and (ismap(x) or x.op == "sw" or x.op == "app" and (x.a[0] in ("lgen", "lcat") or x.a[0].startswith(("rec:", "fn:"))) or x.op == "adt" and len(x.a) > 2):
                for y in free:
                    if not (y.op == x.op or ismap(y) or self.isspec(y)):
                        continue
                    save = (set(self.hyps), list(self.todo), dict(self.memo), dict(self.inlined))
                    if self.meet(x, y, ctx) is None:
                        x = y
                        free.remove(y)
                        break
                    self.hyps, self.todo, self.memo, self.inlined = save
            out.append(x)
        return tuple(out)

    def openbv(self, g, w):
        names = {}

        def go(t):
            a, ph = opened(t)
            m = {}
            for p, n in sorted(ph.items(), key=lambda x: x[1]):
                if n not in names:
                    names[n] = self.R.fresh(n)
                m[p] = names[n]
            return subst(a[2], m)
        return go(g), go(w)

    def meet2(self, x, y, ctx):
        if type(x) is T and type(y) is T:
            return self.meet(x, y, ctx)
        if type(x) is tuple and type(y) is tuple:
            if len(x) != len(y):
                return (x, y)
            for p, q in zip(x, y):
                r = self.meet2(p, q, ctx)
                if r is not None:
                    return r
            return None
        return None if x == y else (x, y)


def generalise(d, ga, s, wa):
    """replace the data arguments of the specification term by fresh symbols,
    in both calls, largest terms first; everything else stays as it is"""
    m = {}
    const = lambda x: x.op in ("int", "str", "fn") or (x.op == "adt" and len(x.a) == 2) or x is UNIT
    order = sorted([x for x in set(wa) if type(x) is T and not const(x)], key=lambda x: (-sum(1 for _ in walk(x)), x.id))
    for x in order:
        m[x] = SYM(f"%h{list(wa).index(x)}")
    g = lambda x: subst(x, m) if type(x) is T else x
    return (d, tuple(g(x) for x in ga), s, tuple(g(x) for x in wa))


def diff(a, b, d=0):
    """first differing subterms"""
    if type(a) is T and type(b) is T and a.op == b.op and len(a.a) == len(b.a) and a is not b and d < 30:
        ds = []
        for x, y in zip(a.a, b.a):
            if type(x) is T and type(y) is T:
                if x is not y:
                    ds.append((x, y))
            elif type(x) is tuple and type(y) is tuple and len(x) == len(y):
                for p, q in zip(x, y):
                    if p is not q and p != q:
                        ds.append((p, q))
            elif x != y:
                return (a, b)
        if len(ds) == 1 and type(ds[0][0]) is T and type(ds[0][1]) is T:
            return diff(ds[0][0], ds[0][1], d + 1)
        if a.op == "sw" and ds:
            return diff(ds[0][0], ds[0][1], d + 1)
    return (a, b)


def cut(t, n=420):
    s = show(t) if type(t) is T else str(t)
    return s if len(s) <= n else s[:n] + "…"
