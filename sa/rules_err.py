"""C25: how errors are rendered, counted, iterated and converted."""
from rules_wrap import *

D_ = lambda ty: (lambda x: APP("display:" + ty, x))
Q_ = lambda ty: (lambda x: APP("debug:" + ty, x))
TX = lambda x: x

# the text of what was found, by variant: literal parts and one renderer for the content
ACTUAL = {"Bool": ("bool ", D_("bool"), ""), "Unsigned": ("unsigned int `", D_("u128"), "`"), "Signed": ("signed int `", D_("i128"), "`"),
          "Float": ("float `", D_("f64"), "`"), "Char": ("char ", Q_("char"), ""), "Str": ("string ", Q_("str"), ""), "Bytes": ("bytes ", Q_("[u8]"), ""),
          "Unit": "unit", "Option": "option", "NewtypeStruct": "new-type struct", "Seq": "sequence", "Map": "map", "Enum": "enum", "UnitVariant": "unit variant",
          "NewtypeVariant": "new-type variant", "TupleVariant": "tuple variant", "StructVariant": "struct variant", "Other": ("", TX, "")}
KINDS = {"Message": [TX], "InvalidType": ["invalid type: found ", "actual", ", expected ", TX], "InvalidValue": ["invalid value ", "actual", ", expected ", TX],
         "InvalidLength": ["invalid length ", D_("usize"), ", expected ", TX], "UnknownVariant": ["unknown variant: found `", TX, "`, expected `", "oneof", "`"],
         "UnknownField": ["unknown field: found `", TX, "`, expected `", "oneof", "`"], "MissingField": ["missing field `", TX, "`"],
         "DuplicateField": ["duplicate field `", TX, "`"], "ISizeOutOfRange": ["signed integer `", D_("isize"), "` is out of range"],
         "USizeOutOfRange": ["unsigned integer `", D_("usize"), "` is out of range"], "Unsupported": ["unsupported type `", "actual", "`"],
         "UnsupportedKey": ["unsupported type `", "actual", "` for key: must be `", TX, "`"]}


def arity(R, ty, variant): return len(R.F.adts[R.adt(ty)]["variants"][R.vi(ty, variant)]["fields"])


def actual_text(R, name, x):
    t = ACTUAL[name]
    return STR(t) if type(t) is str else M.scat(STR(t[0]), t[1](x), STR(t[2]))


def oneof_text(xs):
    q = lambda x: M.scat(STR("`"), x, STR("`"))
    if not xs:
        return STR("none")
    if len(xs) == 1:
        return q(xs[0])
    if len(xs) == 2:
        return M.scat(q(xs[0]), STR(" or "), q(xs[1]))
    return M.scat(STR("one of "), M.joined(mk("arr", *[q(x) for x in xs]), STR(", ")))


def kind_cases(R):
    """(label, kind, its text) for every kind, every content of its details"""
    for k, parts in KINDS.items():
        n = arity(R, "Kind", k)
        xs = [SYM(f"x{i}") for i in range(n)]
        slots = [p for p in parts if type(p) is not str or p in ("actual", "oneof")]
        if len(slots) != n:
            raise Missing(f"the details of Kind::{k}")
        alts = []
        for i, p in enumerate(slots):
            if p == "actual":
                alts.append([(a, ADT(R.adt("Actual"), R.vi("Actual", a), *([SYM("a")] if arity(R, "Actual", a) else [])), actual_text(R, a, SYM("a"))) for a in ACTUAL])
            elif p == "oneof":
                alts.append([(str(m), mk("arr", *[SYM(f"o{j}") for j in range(m)]), oneof_text([SYM(f"o{j}") for j in range(m)])) for m in range(6)])
            else:
                alts.append([("", xs[i], p(xs[i]))])
        for combo in itertools.product(*alts):
            out, j = [], 0
            for p in parts:
                if type(p) is str and p not in ("actual", "oneof"):
                    out.append(STR(p))
                else:
                    out.append(combo[j][2])
                    j += 1
            yield ":".join([k] + [c[0] for c in combo if c[0]]), R.con("Kind", k, *[c[1] for c in combo]), M.scat(*out)


@rule("C25", "value-flow summary of the text written for every kind of error, of found value, of alternatives, and of every combination of known and unknown "
      "attribution along chains; of counting and iterating chains; and of every conversion into an error", 300, TRUSTED)
def C25(R):
    E_ = err_adt(R)
    f = SYM("f")
    disp = lambda ty: [i for i in R.items("fmt", None, "Display") if i["self"] is not None and R.F.types[i["self"]].get("adt") == ty][0]
    kd, ad, ed, od = disp(R.adt("Kind")), disp(R.adt("Actual")), disp(E_), disp(R.adt("OneOf"))
    n = dict(kind=0, shape=0, conv=0)

    def wrote(e): return e.out(1)

    def texts():
        R.ob("kinds", set(R.variants("Kind")) == set(KINDS), kd["span"], f"kinds: {R.variants('Kind')}")
        R.ob("found", set(R.variants("Actual")) == set(ACTUAL), ad["span"], f"found values: {R.variants('Actual')}")
        for a in ACTUAL:
            x = [SYM("a")] if arity(R, "Actual", a) else []
            e = R.ev(ad, [R.con("Actual", a, *x), f])
            R.eq(f"found:{a}", ad["span"], wrote(e), M.scat(f, actual_text(R, a, SYM("a"))))
        w = R.fields("OneOf")[0][0]
        for m in range(7):
            xs = [SYM(f"o{j}") for j in range(m)]
            e = R.ev(od, [R.struct("OneOf", **{w: mk("arr", *xs)}), f])
            R.eq(f"alternatives:{m}", od["span"], wrote(e), M.scat(f, oneof_text(xs)))
        for lab, k, t in kind_cases(R):
            n["kind"] += 1
            e = R.ev(kd, [k, f])
            R.eq(f"kind:{lab}", kd["span"], wrote(e), M.scat(f, t))
            R.ob(f"kind:{lab}:total", not e.panics and not e.log, kd["span"], f"rendering can panic or has effects: {e.panics} {[cut(y) for y in e.log]}")
    R.case("kinds", texts)

    S = source_type(R)
    mdf = [x for x, _ in R.fields("Metadata")]
    interp = R.fn("interpolate", "Metadata")

    def mdata(i, source):
        return ADT(R.adt("Metadata"), 0, *[SYM(f"md{i}.{x}") if x != "source" else source for x in mdf])

    def shapes(i):
        """(label, error fields, text) of one error without its chain"""
        paths = [("p0", mk("arr")), ("p1", mk("arr", SYM(f"k{i}"))), ("p2", mk("arr", SYM(f"k{i}"), SYM(f"l{i}")))]
        srcs = [("nosource", NONE, None), ("source", SOME(ADT(S, R.vi(S, "Custom"), SYM(f"s{i}"))), SYM(f"s{i}")),
                ("code", SOME(ADT(S, R.vi(S, "Code"), SYM(f"s{i}"))), APP("display:std::panic::Location<'_>", SYM(f"s{i}")))]
        mds = [("nomd", NONE, None, None)] + [(l, SOME(mdata(i, s)), mdata(i, s), t) for l, s, t in srcs]
        pf = prof(R, SYM(f"P{i}"))
        for pl, pth in paths:
            for ml, mo, md, st in mds:
                for prl, pr in (("noprofile", NONE), ("profile", SOME(pf))):
                    out = [SYM(f"m{i}")]
                    if md is not None and pr is not NONE and pth.a:
                        out += [STR(" for key "), APP("debug:str", R.ev(interp, [md, pf, pth]).v)]
                    if md is not None:
                        out += [STR(" in ")] + ([st, STR(" ")] if st is not None else []) + [md_get(R, md, "name")]
                    yield f"{pl}.{ml}.{prl}", dict(kind=kind(R, "Message", SYM(f"m{i}")), path=pth, metadata=mo, profile=pr, tag=tagnum(R, 0)), M.scat(*out)

    def render(lab, parts):
        e = NONE
        for _, kw, _ in reversed(parts):
            e = SOME(mkerr(R, prev=e, **kw))
        x = R.ev(ed, [e.a[2], f])
        n["shape"] += 1
        want = []
        for i, (_, _, t) in enumerate(parts):
            want += ([STR("\n")] if i else []) + [t]
        R.eq(lab, ed["span"], wrote(x), M.scat(f, *want))
        R.ob(lab + ":total", not x.panics and not x.log, ed["span"], f"rendering can panic or has effects: {x.panics} {[cut(y) for y in x.log]}")

    def errors():
        S0, S1 = list(shapes(0)), list(shapes(1))
        for a in S0:
            render(f"error:{a[0]}", [a])
        for a in S0:
            for b in (S1 if R.thorough else [S1[0], S1[3], S1[-1], S1[-5]]):
                render(f"error:{a[0]}/{b[0]}", [a, b])
        for b in S1:
            render(f"error:{S0[-1][0]}/{b[0]}", [S0[-1], b])
        for m in range(3, 9):
            render(f"chain:{m}", [list(shapes(i))[(7 * i) % len(S0)] for i in range(m)])
        # the kind of an error is rendered as the kind
        for lab, k, t in kind_cases(R):
            e = mkerr(R, kind=k)
            R.eq(f"error-kind:{lab}", ed["span"], wrote(R.ev(ed, [e, f])), M.scat(f, t))
    R.case("errors", errors)

    def chain(m, last=NONE):
        es = [dict(kind=SYM(f"kind{i}"), path=SYM(f"path{i}"), metadata=SYM(f"md{i}"), profile=SYM(f"pr{i}"), tag=SYM(f"tag{i}")) for i in range(m)]
        e = last
        for kw in reversed(es):
            e = SOME(mkerr(R, prev=e, **kw))
        return e.a[2], [mkerr(R, **kw) for kw in es]

    def counting():
        cn = R.fn("count", "Error")
        ii = [i for i in R.items("into_iter", None, "IntoIterator") if i["self"] is not None and R.F.types[i["self"]].get("adt") == E_][0]
        ity = R.ev(ii, [chain(1)[0]]).v
        nx = [i for i in R.items("next", None, "Iterator") if i["self"] is not None and ity.op == "adt" and R.F.types[i["self"]].get("adt") == ity.a[0]]
        if len(nx) != 1:
            raise Missing("the iterator over errors")
        for m in range(1, 13 if R.thorough else 9):
            e, parts = chain(m)
            R.eq(f"count:{m}", cn["span"], R.ev(cn, [e]).v, INT(m))
            it = R.ev(ii, [e]).v
            for i in range(m + 2):
                x = R.ev(nx[0], [it])
                R.eq(f"iterate:{m}:{i}", nx[0]["span"], x.v, SOME(parts[i]) if i < m else NONE)
                it = x.out(0)
    R.case("counting", counting)

    def paths():
        wp = R.fn("with_path", "Error")
        for lab, ks, text in path_cases():
            ws = [word(k) for k in ("a", "b")] if lab == "double-dot" else [word("a")] if lab == "leading-dot" else ks
            for have in ([], [SYM("h")], [SYM("h"), SYM("i")]):
                e = mkerr(R, kind=SYM("kind"), path=mk("arr", *have), prev=SYM("pv"), tag=SYM("t"))
                R.eq(f"with_path:{lab}:{len(have)}", wp["span"], R.ev(wp, [e, text]).v,
                     mkerr(R, kind=SYM("kind"), path=mk("arr", *(have + list(ws))), prev=SYM("pv"), tag=SYM("t")))
        ms = R.fn("missing", "Error")
        for k in KINDS:
            e = mkerr(R, kind=R.con("Kind", k, *[SYM(f"x{i}") for i in range(arity(R, "Kind", k))]))
            R.eq(f"missing:{k}", ms["span"], asbool(R.ev(ms, [e]).v), TRUE if k == "MissingField" else FALSE)
    R.case("paths", paths)

    UNEXP = "serde::de::Unexpected"

    def conversions():
        ua = next((p for p in R.F.adts if p.split("::")[-1] == "Unexpected" and p.startswith("serde")), None)
        if ua is None:
            raise Missing("serde::de::Unexpected")
        uv = [v["name"] for v in R.F.adts[ua]["variants"]]
        R.ob("unexpected", set(uv) == set(ACTUAL), ad["span"], f"unexpected values: {sorted(set(uv) ^ set(ACTUAL))}")
        cast = {"Unsigned": lambda x: E.cast_int(x, "u64", "u128") if hasattr(E, "cast_int") else APP("icast:u64:u128", x),
                "Signed": lambda x: APP("icast:i64:i128", x)}

        def pair(v):
            """an unexpected value and what it is reported as"""
            i = uv.index(v)
            xs = [SYM("u")] if R.F.adts[ua]["variants"][i]["fields"] else []
            return ADT(ua, i, *xs), R.con("Actual", v, *[cast.get(v, TX)(x) for x in xs])

        def plain(lab, it, args, k, models=None):
            n["conv"] += 1
            e = R.ev(it, args, models=models)
            R.eq(lab, it["span"], e.v, mkerr(R, kind=k))
            R.ob(lab + ":total", not e.panics and not e.log, it["span"], "the conversion can panic or has effects")
        impl = {it["name"]: it for it in R.F.items if it["self"] is not None and R.F.types[it["self"]].get("adt") == E_ and (it["trait"] or "").endswith("de::Error") and it.get("key")}
        sim = {it["name"]: it for it in R.F.items if it["self"] is not None and R.F.types[it["self"]].get("adt") == E_ and (it["trait"] or "").endswith("ser::Error") and it.get("key")}
        need = {"custom", "invalid_type", "invalid_value", "invalid_length", "unknown_variant", "unknown_field", "missing_field", "duplicate_field"}
        R.ob("conversions", need <= set(impl) and "custom" in sim, ed["span"], f"deserialization problems without a conversion of their own: {sorted(need - set(impl))}")
        shown = lambda t: (lambda eng, args, st, call: (t, st))
        tos = {"std::string::ToString::to_string": lambda eng, args, st, call: (APP("shown", M.D(eng, st, args[0])), st)}
        SH = lambda x: APP("shown", x)
        for v in uv:
            u, a = pair(v)
            for nm, k in (("invalid_type", "InvalidType"), ("invalid_value", "InvalidValue")):
                if nm in impl:
                    plain(f"de:{nm}:{v}", impl[nm], [u, SYM("exp")], kind(R, k, a, SH(SYM("exp"))), tos)
        x, y = SYM("x"), SYM("y")
        for nm, args, k in (("invalid_length", [x, SYM("exp")], kind(R, "InvalidLength", x, SH(SYM("exp")))), ("unknown_variant", [x, y], kind(R, "UnknownVariant", x, y)),
                            ("unknown_field", [x, y], kind(R, "UnknownField", x, y)), ("missing_field", [x], kind(R, "MissingField", x)),
                            ("duplicate_field", [x], kind(R, "DuplicateField", x)), ("custom", [x], kind(R, "Message", SH(x)))):
            if nm in impl:
                plain(f"de:{nm}", impl[nm], args, k, tos)
        plain("ser:custom", sim["custom"], [x], kind(R, "Message", SH(x)), tos)
        for it in R.F.items:
            if it["name"] == "from" and it["self"] is not None and R.F.types[it["self"]].get("adt") == E_ and it.get("key"):
                t = R.F.types[it["inputs"][0]]
                if t.get("adt") == R.adt("Kind"):
                    plain("from:kind", it, [x], x)
                elif t["s"] in ("std::string::String", "&str") or t["s"].startswith("&") and t["s"].endswith(" str"):
                    plain(f"from:{t['s']}", it, [x], kind(R, "Message", x))
                else:
                    R.ob(f"from:{t['s']}", False, it["span"], "a conversion this analysis has no specification for")
    R.case("conversions", conversions)
    R.floor("kinds", n["kind"], 70)
    R.floor("shapes of errors", n["shape"], 90)
    R.floor("conversions", n["conv"], 40)
