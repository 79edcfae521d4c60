"""C13, C14, C29: numbers, lossy interpretation, conversions of values."""
from lib import *
from rules import rule
from rules_core import *
from rules_view import *
from rules_prov import *
from rules_de import *
from rules_ser import *
import engine as E

UNS, SIG, FLO = ("U8", "U16", "U32", "U64", "U128", "USize"), ("I8", "I16", "I32", "I64", "I128", "ISize"), ("F32", "F64")
low = lambda n: n.lower()


def widen(n, x, to):
    """the number x stored as n, in the wider type `to`"""
    if low(n) == to:
        return x
    return APP(f"fcast:{low(n)}:{to}", x) if n in FLO else E.icast(low(n), to, x)


def nonneg(n, x): return gnot(E.cmpterm("Lt", x, INT(0), low(n)))


def conversions(n, x):
    """the documented result of every conversion of a number x stored as n"""
    u = SOME(widen(n, x, "u128")) if n in UNS else NONE
    yield "to_u32", SOME(widen(n, x, "u32")) if n in ("U8", "U16", "U32") else NONE
    yield "to_u128", u
    yield "to_u128_lossy", u if n not in SIG else select(nonneg(n, x), SOME(E.icast(low(n), "u128", x) if n != "U128" else x), NONE)
    yield "to_i128", SOME(widen(n, x, "i128")) if n in SIG else NONE
    yield "to_f64", SOME(widen(n, x, "f64")) if n in FLO else NONE


def parsed(R, s):
    """the number a text stands for: Option<Num>"""
    t = APP("core::str::<impl str>::trim", s)
    isf = asbool(APP("core::str::<impl str>::contains", t, STR(".")))
    neg = asbool(APP("core::str::<impl str>::starts_with", t, STR("-")))

    def ok(ty, f):
        p = APP("parse:" + ty, t)
        return mksw_ord(mk("discr", p, (0, 1)), [(0, SOME(f(proj(p, RESULT, 0, 0)))), (1, NONE)])

    def narrow(kinds, wide):
        def f(p):
            r = R.con("Num", wide, p)
            for k in reversed(kinds):
                r = select(E.fits(low(wide), low(k), p), R.con("Num", k, E.icast(low(wide), low(k), p)), r)
            return r
        return f
    return select(isf, ok("f64", lambda p: R.con("Num", "F64", p)),
                  select(neg, ok("i128", narrow(SIG[:4], "I128")), ok("u128", narrow(UNS[:4], "U128"))))


def asopt(v):
    """Option of a Result"""
    def f(x):
        return (SOME(x.a[2]) if x.a[1] == 0 else NONE) if x.op == "adt" and x.a[0] == RESULT else x
    return mapleaves(v, f)


def noerr(v):
    return mapleaves(v, lambda x: SOME(x.a[2]) if x.op == "adt" and x.a[:2] == (RESULT, 0) else NONE if x.op == "adt" and x.a[0] == RESULT else x)


@rule("C13", "value-flow summary of every conversion, comparison and construction of numbers for an arbitrary number of each of the 14 "
      "stored kinds (196 pairs for comparisons), compared with exact widening; integer casts that can lose information are kept distinct", 300, TRUSTED)
def C13(R):
    x, y, t = SYM("x"), SYM("y"), SYM("t")
    num = lambda n, v: R.con("Num", n, v)

    def conv(n):
        for m, want in conversions(n, x):
            it = R.fn(m, "Num")
            R.eq(f"{m}:{n}", it["span"], R.ev(it, [num(n, x)]).v, want)
            its = [i for i in R.items(m, "Value") if i["trait"] is None]
            for iv in its:
                R.eq(f"value:{m}:{n}", iv["span"], R.ev(iv, [R.con("Value", "Num", t, num(n, x))]).v, want)
        it = R.fn("to_actual", "Num")
        a = R.adt("Actual")
        names = [v["name"] for v in R.F.adts[a]["variants"]]
        vn, ty = ("Unsigned", "u128") if n in UNS else ("Signed", "i128") if n in SIG else ("Float", "f64")
        R.eq(f"to_actual:{n}", it["span"], R.ev(it, [num(n, x)]).v, ADT(a, names.index(vn), widen(n, x, ty)))
        # a number of that type becomes a number of that kind
        for ty in ("Num", "Value"):
            its = [i for i in R.items("from", ty) if i["trait"] and i["trait"].split("<")[0].endswith("From")
                   and [R.F.tys(q) for q in [R.body(i)["locals"][1]]] == [low(n)]]
            R.ob(f"from:{ty}:{n}:exists", len(its) == 1, "value/value.rs", f"{len(its)} conversions from {low(n)} into {ty}")
            for i in its:
                w = num(n, x)
                R.eq(f"from:{ty}:{n}", i["span"], R.ev(i, [x]).v, w if ty == "Num" else R.con("Value", "Num", dflt(R), w))
    for n in NUMS:
        R.case(f"conv:{n}", conv, n)

    eq = R.fn("eq", "Num", "PartialEq")
    for n in NUMS:
        for m in NUMS:
            def go(n=n, m=m):
                cls = lambda k: 0 if k in UNS else 1 if k in SIG else 2
                if cls(n) != cls(m):
                    want = FALSE
                elif n in FLO:
                    a, b = widen(n, x, "f64"), widen(m, y, "f64")
                    want = asbool(APP("feq", a, b))
                else:
                    want = M.eqterm(x, y)
                R.eq(f"eq:{n}:{m}", eq["span"], asbool(R.ev(eq, [num(n, x), num(m, y)]).v), want)
            R.case(f"eq:{n}:{m}", go)

    def text():
        it = R.fn("from_str", "Num", "FromStr")
        R.eq("parse", it["span"], noerr(R.ev(it, [SYM("s")]).v), parsed(R, SYM("s")))
    R.case("parse", text)

    # machine words are presented and serialized at a width that holds them
    def words():
        de = R.fn("deserialize_any", "Num", "Deserializer")
        for n in NUMS:
            T_ = Target(R)
            for nm, mkself in (("Num", num(n, x)),):
                e = R.ev(de, [mkself, SYM("visitor")], models=T_.models())
                r = show(R, T_, e.v, True)
                for g, a in gleaves(r.a[2] if r.op == "adt" and r.a[:2] == (RESULT, 0) else r):
                    a = l = a.a[2] if a.op == "adt" and a.a[:2] == (RESULT, 0) else a
                    if a.op != "app" or a.a[0] != "got":
                        R.ob(f"present:{n}:?", False, de["span"], f"results in {cut(l)}")
                        continue
                    w, z = a.a[1].a[0][6:], a.a[2]
                    if n in ("USize", "ISize"):
                        fine = w.upper() in (SIG if n == "ISize" else UNS) and z is APP(f"icast:{low(n)}:{w}", x) \
                            and is_false(gand(g, gnot(E.fits(low(n), w, x))))
                    else:
                        fine = w == low(n) and z is x
                    R.ob(f"present:{n}:{w}", fine, de["span"], f"presented as {cut(a)} when {cut(g, 80)}")
    R.case("present", words)


YES, NO = ("true", "yes", "1", "on"), ("false", "no", "0", "off")


def lossy_bool(R, vn, v):
    """Option<bool>"""
    x = v.a[3]
    if vn == "Bool":
        return SOME(x)
    if vn.startswith("Num."):
        n = vn[4:]
        if n in FLO:
            return NONE
        z = x.a[2]
        return select(M.eqterm(z, INT(0)), SOME(FALSE), select(M.eqterm(z, INT(1)), SOME(TRUE), NONE))
    if vn == "String":
        r = NONE
        for w in NO:
            r = select(M.cieq(x, STR(w)), SOME(FALSE), r)
        for w in YES:
            r = select(M.cieq(x, STR(w)), SOME(TRUE), r)
        return r
    return NONE


def lossy_num(R, vn, v):
    if vn.startswith("Num."):
        return SOME(v.a[3])
    if vn == "String":
        return parsed(R, v.a[3])
    return NONE


def stored14(R, t):
    for vn, v in stored(R, t):
        if vn == "Dict1k":
            continue
        yield vn, v
    for n in ("USize", "ISize"):
        yield "Num." + n, R.con("Value", "Num", t, R.con("Num", n, SYM("n")))


def visitnum(R, v):
    """what the target sees of a Num"""
    def f(x):
        if x.op != "adt":
            return APP("unknown number", x)
        n = R.variants("Num")[x.a[1]]
        z = x.a[2]
        if n in ("USize", "ISize"):
            # as the number itself is presented (exactly, by C13)
            T_ = Target(R)
            e = R.ev(R.fn("deserialize_any", "Num", "Deserializer"), [x, SYM("visitor")], models=T_.models())
            return show(R, T_, e.v, True)
        return OK(got("visit_" + low(n), z))
    return mapleaves(v, f)


def orelse(o, f, other):
    return mapleaves(o, lambda x: f(x.a[2]) if x.op == "adt" and x.a[:2] == (OPTION, 1) else other)


@rule("C14", "value-flow summary of the lossy readings and of every boolean and numeric request of both interpreters on every stored kind; "
      "typed reachability: every nested deserializer is built with the interpreter of the enclosing one", 400, TRUSTED)
def C14(R):
    t = SYM("t")
    for fn, spec in (("to_bool_lossy", lossy_bool), ("to_num_lossy", lossy_num)):
        it = R.fn(fn, "Value")
        for vn, v in stored14(R, t):
            def go(it=it, vn=vn, v=v, fn=fn, spec=spec):
                R.eq(f"{fn}:{vn}", it["span"], R.ev(it, [v]).v, spec(R, vn, v))
            R.case(f"{fn}:{vn}", go)

    def seen(T_, e):
        """each answer of the target replaced by what it was given"""
        return show(R, T_, e.v, True)

    for interp in ("strict", "lossy"):
        for name in de_methods(R, "cfg"):
            what = name[len("deserialize_"):]
            if what != "bool" and what not in VISIT_NUM.values():
                continue
            fn = de_fn(R, name, "cfg")
            for vn, v in stored14(R, t):
                if vn.startswith(("Dict", "Array")):
                    continue        # C12: presented as they are

                def go(interp=interp, name=name, what=what, vn=vn, v=v, fn=fn):
                    T_, e = run_de(R, v, name, "cfg", interp=interp)
                    plain = visitnum(R, v.a[3]) if vn.startswith("Num.") else present(R, vn, v, "ref")
                    want = plain
                    if interp == "lossy" and what == "bool":
                        want = orelse(lossy_bool(R, vn, v), lambda b: OK(got("visit_bool", b)), plain)
                    elif interp == "lossy":
                        want = orelse(lossy_num(R, vn, v), lambda n: visitnum(R, n), plain)
                    R.eq(f"{interp}:{name}:{vn}", fn["span"], seen(T_, e), want)
                R.case(f"{interp}:{name}:{vn}", go)

    # the error of a converted value is attributed like any other
    for name in ("deserialize_bool", "deserialize_u8", "deserialize_f64"):
        for vn, v in stored14(R, t):
            if vn.startswith(("Dict", "Array", "String", "Num.")):
                continue

            def go(name=name, vn=vn, v=v):
                T_, e = run_de(R, v, name, "cfg", fail=0, interp="lossy")
                R.eq(f"error:{name}:{vn}", de_fn(R, name, "cfg")["span"], e.v, expect_err(R, T_, 0, [t], []))
            R.case(f"error:{name}:{vn}", go)

    R.case("interpreters", interpreters, R)


def de_types(R, b):
    """interpreters of the configured deserializers that occur in a body, with the place"""
    p, _ = de_fields(R)
    out = {}

    def add(tid, where):
        seen = set()

        def go(i):
            if i in seen:
                return
            seen.add(i)
            ty = R.F.types[i]
            if ty["k"] == "ref":
                go(ty["of"])
            if ty.get("adt") == p:
                out.setdefault(interp_of(ty["s"], p), where)
            for j in ty.get("args") or []:
                if type(j) is int:
                    go(j)
        go(tid)
    for l in b["locals"]:
        add(l, b.get("span"))
    return out


def interp_of(s, p):
    """interpreter in the deserializer's type name"""
    i = s.find("ConfiguredValueDe<")
    if i < 0:
        return "?"
    s, d, out, cur = s[i + len("ConfiguredValueDe<"):], 0, [], ""
    for c in s:
        if c == "<":
            d += 1
        if c == ">":
            if d == 0:
                break
            d -= 1
        if c == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    out.append(cur)
    out = [o.strip() for o in out if not o.strip().startswith("'")]
    return out[-1].split("::")[-1] if out else INTERP["strict"]


def interpreters(R):
    """which interpreter each extraction starts with, and that it stays the same below"""
    p, _ = de_fields(R)
    for m, lossy, inner in EXTRACT:
        it = R.fn(m, "Figment")
        seen = []

        def typ(eng, args, st, call):
            if call.fn.get("key"):
                return None
            seen.append([eng.F.tys(g) for g in call.gargs()])
            return OK(SYM("ok")), st
        ms = {q + "Deserialize::deserialize": typ for q in SERDE + ("serde::", "serde_core::")}
        R.ev(it, [fig(R, OK(one(R, prof(R, DEFAULT), one(R, STR("a"), R.con("Value", "Bool", SYM("t"), SYM("b"))))), profile=prof(R, SYM("cur")))]
             + ([STR("a")] if inner else []), models=ms)
        who = sorted({interp_of(s, p) for g in seen for s in g if "ConfiguredValueDe<" in s})
        R.ob(f"entry:{m}", who == [INTERP["lossy" if lossy else "strict"]] and len(seen) >= 1, it["span"],
             f"deserializes with {who}, {INTERP['lossy' if lossy else 'strict']} is required")
    n = 0
    entry = {R.body(R.fn(m, "Figment"))["dpath"] for m, _, _ in EXTRACT}
    reach = {}
    for key, b in R.F.bodies.items():
        if not b.get("dpath"):
            continue
        ts = de_types(R, b)
        if not ts:
            continue
        n += 1
        # a body that is generic over the interpreter, or holds such a deserializer, must not name a particular one
        conc = [i for i in ts if i in INTERP.values()]
        gen = [i for i in ts if i not in INTERP.values()]
        R.ob(f"nested:{b['dpath']}", not (conc and gen), b.get("span") or "?",
             f"a deserializer with {conc} is used where the enclosing one has {gen}")
        if conc:
            reach[b["dpath"]] = conc
    # bodies with a particular interpreter: only entered from the extractions, one interpreter each
    for d, conc in sorted(reach.items()):
        R.ob(f"fixed:{d}", len(conc) == 1, d, f"mixes {conc}")
    R.floor("deserializer bodies", n, 30)


# ---------------------------------------------------------------- conversions of values
ACC = {"as_str": "String", "into_string": "String", "to_char": "Char", "to_bool": "Bool", "to_num": "Num", "to_empty": "Empty",
       "as_dict": "Dict", "into_dict": "Dict", "as_array": "Array", "into_array": "Array"}


def into_models():
    def f(eng, args, st, call):
        if call.fn.get("key"):
            return None
        g = call.gargs()
        t = eng.F.types[eng.F.peel(g[0])] if g else {}
        return (APP("into", eng.deref(st, args[0])), st) if t.get("k") == "param" else None

    def asref(eng, args, st, call):
        if call.fn.get("key"):
            return None
        g = call.gargs()
        t = eng.F.types[eng.F.peel(g[0])] if g else {}
        return (eng.deref(st, args[0]), st) if t.get("k") == "param" else None
    return {"std::convert::Into::into": f, "unroll!": None}


@rule("C29", "value-flow summary of every accessor on every kind of value, of every conversion into values, and of equality for all pairs of kinds "
      "with arbitrary content and attribution", 150, TRUSTED)
def C29(R):
    t, d = SYM("t"), dflt(R)
    for fn, kind in ACC.items():
        it = R.fn(fn, "Value")
        for vn, v in stored14(R, t):
            def go(it=it, fn=fn, kind=kind, vn=vn, v=v):
                want = SOME(v.a[3]) if vn.split(".")[0].rstrip("0123456789") == kind else NONE
                R.eq(f"{fn}:{vn}", it["span"], R.ev(it, [v]).v, want)
            R.case(f"{fn}:{vn}", go)
    tg = R.fn("tag", "Value")
    act = R.fn("to_actual", "Value")
    A = R.adt("Actual")
    an = [v["name"] for v in R.F.adts[A]["variants"]]
    for vn, v in stored14(R, t):
        def go(vn=vn, v=v):
            R.eq(f"tag:{vn}", tg["span"], R.ev(tg, [v]).v, t)
            x, k = v.a[3], vn.split(".")[0].rstrip("0123456789")
            e = R.ev(act, [v]).v
            if k == "Num":
                n = vn[4:]
                c, ty = ("Unsigned", "u128") if n in UNS else ("Signed", "i128") if n in SIG else ("Float", "f64")
                w = ADT(A, an.index(c), widen(n, x.a[2], ty))
            elif k == "Empty":
                w = ADT(A, an.index({"None": "Option", "Unit": "Unit"}[vn[6:]]))
            elif k in ("Dict", "Array"):
                w = ADT(A, an.index({"Dict": "Map", "Array": "Seq"}[k]))
            else:
                w = ADT(A, an.index({"String": "Str", "Char": "Char", "Bool": "Bool"}[k]), x)
            R.eq(f"actual:{vn}", act["span"], e, w)
        R.case(f"tag:{vn}", go)

    def ser():
        it = [i for i in R.items("serialize", "Value") if i["trait"] is None][0]
        e = R.ev(it, [SYM("x")], models=ser_models(R))
        R.eq("serialize", it["span"], e.v, OK(content(R, SYM("x"))))
        e = R.ev(it, [SYM("bad")], models=ser_models(R, SYM("bad")))
        R.eq("serialize:error", it["span"], e.v, ERR(APP("failure", SYM("bad"))))
        it = [i for i in R.items("deserialize", "Value") if i["trait"] is None]
        for i in it:
            T_ = Target(R)
            e = R.ev(i, [SYM("v")], models=T_.models())
            R.ob("deserialize", e.v is OK(SYM("ok0")) and len(T_.calls) == 1 and T_.calls[0][1][0] is SYM("v"), i["span"],
                 f"reads {cut(TUP(*[a for _, ar, _ in T_.calls for a in ar]))} and returns {cut(e.v)}")
            T_ = Target(R, fail=0)
            e = R.ev(i, [SYM("v")], models=T_.models())
            R.eq("deserialize:error", i["span"], e.v, ERR(T_.err(0)))
    R.case("serialize", ser)

    def froms():
        n = 0
        for it in R.items("from", "Value"):
            if not it["trait"] or not it["trait"].split("<")[0].endswith("From"):
                continue
            b = R.body(it)
            ty = R.F.tys(b["locals"][1])
            key = f"from:{ty}"
            if ty.lstrip("&").startswith("[") or "Vec<" in ty:
                m = 3
                if ";" in ty:
                    m = int(ty.rstrip("]").split(";")[-1])
                for k in {m} if ";" in ty else {0, 1, 3}:
                    xs = [SYM(f"x{i}") for i in range(k)]
                    e = R.ev(it, [mk("arr", *xs)], models=into_models())
                    R.eq(f"{key}:{k}", it["span"], e.v, R.con("Value", "Array", d, mk("arr", *[APP("into", x) for x in xs])))
                n += 1
            elif "Map<" in ty and "String" not in ty:
                for k in (0, 1, 2):
                    m = want = M.EMPTYMAP
                    for i in range(k):
                        m = M.minsert(m, STR("kj"[i]), SYM(f"x{i}"))
                        want = M.minsert(want, STR("kj"[i]), APP("into", SYM(f"x{i}")))
                    e = R.ev(it, [m], models=into_models())
                    R.eq(f"{key}:{k}", it["span"], e.v, R.con("Value", "Dict", d, want))
                n += 1
            elif ty in ("&str", "std::string::String", "alloc::string::String"):
                n += 1
                R.eq(key, it["span"], R.ev(it, [SYM("s")]).v, R.con("Value", "String", d, SYM("s")))
            elif ty in ("char", "bool"):
                n += 1
                R.eq(key, it["span"], R.ev(it, [SYM("s")]).v, R.con("Value", ty.capitalize(), d, SYM("s")))
            elif ty.endswith(("Num", "Empty")):
                n += 1
                R.eq(key, it["span"], R.ev(it, [SYM("s")]).v, R.con("Value", ty.split("::")[-1], d, SYM("s")))
            elif ty.endswith("Dict") or "Map<" in ty:
                n += 1
                R.eq(key, it["span"], R.ev(it, [SYM("s")]).v, R.con("Value", "Dict", d, SYM("s")))
        R.floor("conversions", n, 16)
    R.case("froms", froms)

    eq = R.fn("eq", "Value", "PartialEq")
    t2 = SYM("t2")
    kinds = ["String", "Char", "Bool", "Num", "Empty", "Dict", "Array"]
    for a in kinds:
        for b in kinds:
            def go(a=a, b=b):
                va = R.con("Value", a, t, SYM("x"))
                vb = R.con("Value", b, t2, SYM("y"))
                e = asbool(R.ev(eq, [va, vb]).v)
                if a != b:
                    R.eq(f"eq:{a}:{b}", eq["span"], e, FALSE)
                elif a in ("String", "Char", "Bool", "Dict", "Array"):
                    R.eq(f"eq:{a}", eq["span"], e, M.eqterm(SYM("x"), SYM("y")))
                else:
                    inner = R.fn("eq", a, "PartialEq")
                    w = asbool(R.ev(inner, [SYM("x"), SYM("y")]).v)
                    R.eq(f"eq:{a}", eq["span"], e, w)
            R.case(f"eq:{a}:{b}", go)

    def empties():
        it = R.fn("eq", "Empty", "PartialEq")
        for a in ("None", "Unit"):
            for b in ("None", "Unit"):
                R.eq(f"eq:Empty:{a}:{b}", it["span"], asbool(R.ev(it, [R.con("Empty", a), R.con("Empty", b)]).v), TRUE if a == b else FALSE)
    R.case("empties", empties)
