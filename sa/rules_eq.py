"""C31: equality of the public types that describe where values come from and what went wrong."""
import itertools
from rules_prov import *

# parts that count, where not all do
SEEN = {"metadata::Metadata": ("name", "source")}
TYPES = {"error::Error": 1, "error::Kind": 12, "error::Actual": 18, "metadata::Source": 3, "metadata::Metadata": 1, "value::magic::Either": 2}


@rule("C31", "value-flow summary of equality of errors, kinds, found values, sources and alternatives, for arbitrary content of every pair of "
      "variants, compared with equality of all parts", 200, TRUSTED)
def C31(R):
    F = R.F
    pairs = [0]
    for path, nv in TYPES.items():
        def one(path=path, nv=nv):
            its = [it for it in F.items if it["name"] == "eq" and it["trait"] == "std::cmp::PartialEq" and it["self"] is not None and F.types[it["self"]].get("adt") == path]
            if len(its) != 1:
                raise Missing(f"equality of {path}: {len(its)} candidates")
            it = its[0]
            vs = F.adts[path]["variants"]
            tys = F.adts[path]["field_tys"]
            R.ob(f"variants:{path}", len(vs) >= nv, it["span"], f"{len(vs)} variants of {path} where {nv} are known")

            def parts(eng, args, st, call):
                """how parts of local types compare is their own matter"""
                ts = (call.gargs() or [])[:1]
                r = ts and same(F, ts[0], eng.deref(st, args[0]), eng.deref(st, args[1]))
                return (r, st) if r else None

            def differ(eng, args, st, call):
                r = parts(eng, args, st, call)
                return r and (gnot(r[0]), r[1])
            models = {"std::cmp::PartialEq::eq": parts, "std::cmp::PartialEq::ne": differ}
            cases = [(v, i, w, j, ADT(path, i, *p), ADT(path, j, *q)) for i, v in enumerate(vs) for j, w in enumerate(vs)
                     for p in shapes(F, "x", v["fields"], tys[i]) for q in shapes(F, "y", w["fields"], tys[j])]
            for n, (v, i, w, j, x, y) in enumerate(cases):
                def go(i=i, j=j, v=v, w=w, x=x, y=y, n=n):
                    g = TRUE if i == j else FALSE
                    for f, t, p, q in zip(v["fields"], tys[i], x.a[2:], y.a[2:]):
                        if i == j and f in SEEN.get(path, (f,)):
                            g = gand(g, same(F, t, p, q) or asbool(M.eqterm(p, q)))
                    pairs[0] += 1
                    e = R.ev(it, [x, y], models=models)
                    R.eq(f"eq:{path}:{v['name']}:{w['name']}:{n}", it["span"], asbool(e.v), g)
                    R.ob(f"eq:{path}:{v['name']}:{w['name']}:{n}:total", not e.panics, it["span"], "comparing can panic")
                R.case(f"eq:{path}:{v['name']}:{w['name']}:{n}", go)
        R.case(path, one)
    R.floor("pairs", pairs[0], 400)


def shapes(F, name, fields, tys):
    """field values: unknown, optional parts of local types present or absent"""
    return list(itertools.product(*[
        (NONE, SOME(SYM(f"{name}.{f}"))) if option(F, t) is not None and local(F, option(F, t)) else (SYM(f"{name}.{f}"),)
        for f, t in zip(fields, tys)]))


def option(F, t):
    t = F.types[F.peel(t)]
    return t["args"][0] if t["k"] == "adt" and t["adt"] == OPTION else None


def local(F, t):
    t = F.types[F.peel(t)]
    return t["k"] == "adt" and F.adts[t["adt"]]["local"]


def same(F, t, p, q):
    """equality of two parts of a type, where it is not that of the values"""
    o = option(F, t)
    t = F.types[F.peel(t)]
    if o is not None and p.op == q.op == "adt":
        if p.a[1] != q.a[1]:
            return FALSE
        return TRUE if p.a[1] == 0 else same(F, o, p.a[2], q.a[2]) or asbool(M.eqterm(p.a[2], q.a[2]))
    if t["k"] == "tuple" and p.op == q.op == "tup":
        g = TRUE
        for i, a, b in zip(t["args"], p.a, q.a):
            g = gand(g, same(F, i, a, b) or asbool(M.eqterm(a, b)))
        return g
    if t["k"] == "float":
        return asbool(APP("feq", p, q))
    if t["k"] == "adt" and t["adt"] == "std::path::PathBuf":
        return asbool(M.eqterm(APP("as_path", p), APP("as_path", q)))
    if t["k"] == "adt" and F.adts[t["adt"]]["local"]:
        p, q = sorted((p, q), key=repr)
        return asbool(APP("EQ:" + t["adt"], p, q))
    return None
