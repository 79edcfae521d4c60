"""C20: relative paths, tagged values and alternatives."""
from rules_env import *


def sources(R):
    """{kind of source: (source or None, its file)}"""
    p = source_type(R)
    r = {"none": (NONE, None)}
    for i, v in enumerate(R.F.adts[p]["variants"]):
        a = [SYM(f"src{v['name']}{k}") for k in range(len(v["fields"]))]
        r[v["name"]] = (SOME(ADT(p, i, *a)), a[0] if v["name"] == "File" else None)
    return r


def with_source(R, s):
    return ADT(R.adt("Metadata"), 0, *[s if "Option<" in ty and "Source" in ty else SYM("md." + n) for n, ty in R.fields("Metadata")])


@rule("C20", "value-flow summary of reading and writing relative paths and tagged values of every kind, attribution and source, and of reading alternatives; of the "
      "resolution of relative paths; round trips composed symbolically", 200, TRUSTED)
def C20(R):
    RP, TG = R.adt("RelativePathBuf"), R.adt("Tagged")
    T, T2 = SYM("@t"), SYM("@t2")
    n = dict(read=0)

    def unwrap(x):
        """the value a deserializer reads"""
        if x.op == "adt" and x.a[0] == de_fields(R)[0]:
            return x.a[2 + de_fields(R)[1]["value"]], x.a[2 + de_fields(R)[1]["config"]]
        return x, None

    def hyp(config):
        def f(eng, ty, de, st):
            if ty in ("__Field", "Tag", "RelativePathBuf", "Tagged"):
                return None
            if de.op == "adt" and "MissingField" in de.a[0]:
                return OK(NONE) if ty == "Option" else ERR(SYM("missing")), st
            v, c = unwrap(de)
            if c is not None and c is not config:
                return OK(APP("read under another configuration", v)), st
            if ty == "Option":
                isnone = v.op == "adt" and v.a[1] == R.vi("Value", "Empty")
                return OK(NONE if isnone else SOME(APP("read", STR("PathBuf"), v))), st
            return OK(APP("read", STR(ty), v)), st
        return f
    de = {nm: R.fn("deserialize", nm, "Deserialize") for nm in ("RelativePathBuf", "Tagged", "Either")}
    se = {nm: R.fn("serialize", nm, "Serialize") for nm in ("RelativePathBuf", "Tagged", "Either")}
    text = lambda t: R.con("Value", "String", dflt(R), APP("lossy", t))
    rpb = lambda mp, p: ADT(RP, 0, *[mp if "Option" in ty else p for _, ty in R.fields("RelativePathBuf")])
    tgd = lambda t, x: ADT(TG, 0, *[t if ty.endswith("Tag") else x for _, ty in R.fields("Tagged")])
    readp = lambda x: APP("read", STR("PathBuf"), x)
    kinds = {k: v for k, v in stored(R, T) if k not in ("Dict1k",)}

    def read(lab, nm, v, config, want):
        n["read"] += 1
        e = R.ev(de[nm], [deser(R, v, "cfg", config)], models=live(R, hyp(config)))
        R.eq(lab, de[nm]["span"], e.v, want)
        R.ob(lab + ":panics", not e.panics, de[nm]["span"], f"reading can panic: {e.panics}")

    MP, P = SYM("mp"), SYM("p")
    written_path = lambda x: R.con("Value", "String", dflt(R), APP("utf8", x))
    srcs = sources(R)

    def figs():
        for sn, (s, file) in srcs.items():
            yield sn, fig(R, md=M.minsert(M.minsert(M.EMPTYMAP, T, with_source(R, s)), T2, with_source(R, srcs["File"][0]))), file
        yield "absent", fig(R, md=M.EMPTYMAP), None
        yield "other", fig(R, md=M.minsert(M.EMPTYMAP, T2, with_source(R, srcs["File"][0]))), None

    def reading():
        for sn, f, file in figs():
            for k, v in kinds.items():
                read(f"relative:{sn}:{k}", "RelativePathBuf", v, f, OK(rpb(SOME(readp(text(file))) if file is not None else NONE, readp(v))))
                read(f"tagged:{sn}:{k}", "Tagged", v, f, OK(tgd(T, APP("read", STR("T"), v))))
    R.case("reading", reading)

    def written(nm, x):
        """what x becomes when written into a value"""
        e = R.ev(se[nm], [x, valser(R)], models=writer())
        if not (e.v.op == "adt" and e.v.a[0] == RESULT and e.v.a[1] == 0):
            raise Missing(f"a {nm} is written as {cut(e.v)}")
        R.ob(f"written:{nm}", not e.panics, se[nm]["span"], "writing can panic")
        return e.v.a[2]

    def writer():
        own = ser_models(R)

        def ser(eng, args, st, call):
            x = eng.deref(st, args[0])
            if x is NONE:
                return OK(R.con("Value", "Empty", dflt(R), ADT(R.adt("Empty"), R.vi("Empty", "None")))), st
            if x.op == "adt" and x.a[0] == OPTION:
                x = x.a[2]
            if x in (MP, P):
                return OK(written_path(x)), st
            if x.op == "adt" and x.a[0] == R.adt("Tag"):
                return eng.run_body(R.body(R.fn("serialize", "Tag", "Serialize")), [x, args[1]], st)
            return own["serde::Serialize::serialize"](eng, args, st, call)
        m = {}
        for p in ("serde::", "serde_core::") + SER:
            m[p + "Serialize::serialize"] = ser
        for p in ("serde::ser::", "serde_core::ser::", "serde::", "serde_core::"):
            for tr, ms in (("Serializer", ["serialize_struct", "serialize_some", "serialize_none", "serialize_str", "serialize_u64", "serialize_newtype_struct", "serialize_unit"]),
                           ("SerializeStruct", ["serialize_field", "end"])):
                for nm in ms:
                    m[p + tr + "::" + nm] = dispatch(R, tr, nm)
        return m

    def rounds():
        """written, provided by someone else, and read again"""
        for sn, f, file in figs():
            for mp in (SOME(MP), NONE):
                w = attributed(R, written("RelativePathBuf", rpb(mp, P)), T)
                want = SOME(readp(attributed(R, written_path(MP), T))) if mp is not NONE else SOME(readp(text(file))) if file is not None else NONE
                read(f"relative again:{sn}:{'known' if mp is not NONE else 'unknown'}", "RelativePathBuf", w, f, OK(rpb(want, readp(attributed(R, written_path(P), T)))))
            num = SYM("number")
            tag = ADT(R.adt("Tag"), 0, num)
            w = attributed(R, written("Tagged", tgd(tag, SYM("x"))), T)
            read(f"tagged again:{sn}", "Tagged", w, f, OK(tgd(select(M.eqterm(num, INT(0)), T, tag), APP("read", STR("T"), APP("serialized", SYM("x"))))))
    R.case("rounds", rounds)


    def paths():
        f = lambda nm: R.fn(nm, "RelativePathBuf")
        m, p, q = SYM("m"), SYM("p"), SYM("q")
        rooted = asbool(APP("std::path::Path::has_root", p))
        parent = APP("std::path::Path::parent", m)
        join = lambda a, b: APP("std::path::Path::join", a, b)
        known = select(rooted, p, select(asbool(APP("std::path::Path::is_dir", m)), join(m, p), select(M.is_some(parent), join(M.unsome(parent), p), p)))
        for lab, mp, rel in (("known", SOME(m), known), ("unknown", NONE, p)):
            x = rpb(mp, p)
            for nm, want in (("original", p), ("metadata_path", mp), ("relative", rel)):
                e = R.ev(f(nm), [x], models=ABS)
                R.eq(f"{nm}:{lab}", f(nm)["span"], e.v, want)
                R.ob(f"{nm}:{lab}:panics", not e.panics, f(nm)["span"], "can panic")
            for nm, want in (("serialize_original", p), ("serialize_relative", rel)):
                e = R.ev(f(nm), [x, SYM("S")], models=ABS)
                ok = mapleaves(e.v, lambda y: TRUE if y.op == "app" and y.a[0].split("@")[0].endswith("Serialize::serialize") and y.a[2] is SYM("S") else FALSE)
                R.ob(f"{nm}:{lab}:serialized", ok is TRUE, f(nm)["span"], f"yields {cut(e.v)}")
                R.eq(f"{nm}:{lab}", f(nm)["span"], mapleaves(e.v, lambda y: y.a[1] if y.op == "app" and len(y.a) > 1 else y), want)
            e = R.ev(R.fn("eq", "RelativePathBuf", "PartialEq"), [x, rpb(NONE, q)], models=ABS)
            R.eq(f"equal:{lab}", R.fn("eq", "RelativePathBuf", "PartialEq")["span"], asbool(e.v), M.eqterm(APP("as_path", rel), APP("as_path", q)))
        it = R.fn("from", "RelativePathBuf", "From")
        R.eq("from", it["span"], R.ev(it, [SYM("x")]).v, rpb(NONE, SYM("x")))
    R.case("paths", paths)

    def tags():
        t, x, y = SYM("t"), SYM("x"), SYM("y")
        for nm, tr, args, want in (("tag", None, [tgd(t, x)], t), ("into_inner", None, [tgd(t, x)], x), ("deref", "Deref", [tgd(t, x)], x), ("from", "From", [x], tgd(dflt(R), x))):
            it = R.fn(nm, "Tagged", tr)
            R.eq(f"tagged:{nm}", it["span"], R.ev(it, args).v, want)
        it = R.fn("eq", "Tagged", "PartialEq")
        R.eq("tagged:eq", it["span"], asbool(R.ev(it, [tgd(t, x), tgd(SYM("u"), y)]).v), M.eqterm(x, y))
    R.case("tags", tags)

    msg = lambda x: mkerr(R, kind=kind(R, "Message", x), path=mk("arr"), prev=NONE, profile=NONE, metadata=NONE)

    def either():
        it = de["Either"]
        EI = R.adt("Either")
        left, right = lambda x: ADT(EI, R.vi("Either", "Left"), x), lambda x: ADT(EI, R.vi("Either", "Right"), x)
        a, b, m1, m2, d = SYM("a"), SYM("b"), SYM("m1"), SYM("m2"), SYM("d")
        FS = [STR("first field"), STR("last field")]
        inner = SYM("inner")
        vals = {"String": R.con("Value", "String", SYM("t"), SYM("s")), "Array": R.con("Value", "Array", SYM("t"), SYM("s")),
                "wrapped": R.con("Value", "Dict", SYM("t"), M.minsert(one(R, FS[1], inner), FS[0], SYM("other"))),
                "half": R.con("Value", "Dict", SYM("t"), one(R, FS[1], inner)), "not": R.con("Value", "Dict", SYM("t"), one(R, FS[0], SYM("other"))),
                "any": R.con("Value", "Dict", SYM("t"), d)}
        for k, v in vals.items():
            last = M.mget(v.a[3], FS[1]) if v.a[1] == R.vi("Value", "Dict") else NONE
            plain_ = select(M.is_some(last), M.unsome(last), v) if last is not NONE else v
            for ra, rb, want in ((OK(a), None, OK(left(a))), (ERR(msg(m1)), OK(b), OK(right(b))), (ERR(msg(m1)), ERR(msg(m2)), None)):
                asked, calls = [], []

                def struct(eng, args, st, call):
                    asked.append([eng.deref(st, x) for x in args])
                    return OK(v), st

                def typ(eng, args, st, call):
                    g = call.gargs()
                    ty = eng.F.tys(g[0]) if g else "?"
                    calls.append((ty, eng.deref(st, args[0])))
                    r = {"A": ra, "B": rb}.get(ty)
                    return None if r is None else (r, st)
                m = {"const:FIELDS": lambda eng, a: mk("arr", *FS) if a == ["A"] else mk("arr", STR("its first"), STR("its last"))}
                for p in ("serde::", "serde_core::") + SERDE:
                    m[p + "Deserializer::deserialize_struct"] = struct
                    m[p + "Deserialize::deserialize"] = typ
                e = R.ev(it, [SYM("D")], models=m)
                lab = f"either:{k}:{ra.a[1]}{rb.a[1] if rb else ''}"
                fix_ = lambda x: x
                R.ob(lab + ":fields", len(asked) == 1 and asked[0][2] is mk("arr", *FS), it["span"], "the value is not requested with the fields of the first type")
                if want is not None:
                    R.eq(lab, it["span"], e.v, want)
                else:
                    bad = e.v.op == "adt" and e.v.a[:2] == (RESULT, 1)
                    R.ob(lab, bad, it["span"], f"two failures yield {cut(e.v)}")
                    if bad:
                        h = e.v.a[2]
                        txt = h.a[1] if h.op == "app" else h
                        parts = set(walk(txt))
                        R.ob(lab + ":both", m1 in parts and m2 in parts, it["span"], f"the error is {cut(h)}: a failure is not reported")
                R.ob(lab + ":asked", len(asked) == 1 and asked[0][0] is SYM("D") and asked[0][1].op == "app" and asked[0][1].a[0].endswith("::NAME"),
                     it["span"], "the value is not requested once, under the name of the first type")
                w = [("A", v)] + ([("B", plain_)] if rb is not None else [])
                got_ = [(t_, fix_(x)) for t_, x in calls]
                R.ob(lab + ":order", [t_ for t_, _ in got_] == [t_ for t_, _ in w], it["span"], f"the types are tried as {[t_ for t_, _ in got_]}")
                for (t_, x), (_, y) in zip(got_, w):
                    R.eq(f"{lab}:{t_}", it["span"], x, y)
                live_ = [p for p in e.panics if fix_(p[0]) is not FALSE]
                R.ob(lab + ":panics", not live_, it["span"], f"reading can panic: {live_}")
        er = SYM("failed")
        e = R.ev(it, [SYM("D")], models={p + "Deserializer::deserialize_struct": (lambda eng, args, st, call: (ERR(er), st)) for p in SERDE})
        R.eq("either:failed", it["span"], e.v, ERR(er))
        for i, nm in enumerate(("Left", "Right")):
            e = R.ev(se["Either"], [ADT(EI, R.vi("Either", nm), SYM("x")), SYM("S")])
            R.ob(f"either:written:{nm}", e.v.op == "app" and e.v.a[0].split("@")[0].endswith("Serialize::serialize") and e.v.a[1:] == (SYM("x"), SYM("S")), se["Either"]["span"],
                 f"written as {cut(e.v)}")
    R.case("either", either)

    def wrapped():
        """what an alternative whose first type is magic sees"""
        names = dict(zip(("Value", "RelativePathBuf", "Tagged"), magic(R)))
        ds = de_fn(R, "deserialize_struct", "cfg")
        for nm in ("RelativePathBuf", "Tagged"):
            fields = []

            def struct(eng, args, st, call):
                fields.append(eng.deref(st, args[2]))
                return OK(SYM("x")), st
            R.ev(de[nm], [SYM("D")], models={p + "Deserializer::deserialize_struct": struct for p in SERDE})
            ok = fields and fields[0].op == "arr" and len(fields[0].a) >= 1
            R.ob(f"wrapped:{nm}:fields", ok, de[nm]["span"], "the names of the fields are not known")
            if not ok:
                continue
            last = fields[0].a[-1]
            for sn, f, file in figs():
                for k, v in kinds.items():
                    n["read"] += 1
                    lab = f"wrapped:{nm}:{sn}:{k}"
                    e = R.ev(ds, [deser(R, v, "cfg", f), STR(names[nm]), fields[0], VV], models=live(R))
                    ok = e.v.op == "adt" and e.v.a[:2] == (RESULT, 0) and e.v.a[2].op == "adt" and e.v.a[2].a[1] == R.vi("Value", "Dict")
                    R.ob(lab, ok, ds["span"], f"an alternative is given {cut(e.v)}")
                    if not ok:
                        continue
                    w = e.v.a[2]
                    if k == "Dict0" or not k.startswith(("Dict", "Array")):
                        R.eq(lab + ":plain", ds["span"], M.mget(w.a[3], last), SOME(v))
                    e = R.ev(de[nm], [w], models=live(R, hyp(f)))
                    inside = M.mget(w.a[3], last)
                    want = rpb(SOME(readp(R.con("Value", "String", SYM("~t"), APP("lossy", file)))) if file is not None else NONE, readp(inside.a[2])) \
                        if nm == "RelativePathBuf" else tgd(T, APP("read", STR("T"), inside.a[2]))
                    if nm == "RelativePathBuf" and file is not None:
                        wf = M.mget(w.a[3], fields[0].a[0])
                        want = rpb(SOME(readp(wf.a[2])), readp(inside.a[2])) if wf.op == "adt" and wf is not NONE else want
                        R.eq(lab + ":file", ds["span"], wf.a[2].a[3] if wf is not NONE and wf.a[2].op == "adt" else wf, APP("lossy", file))
                    R.eq(lab + ":first", de[nm]["span"], e.v, OK(want))
    VVs = [p for p, a in R.F.adts.items() if a["local"] and p.endswith("ValueVisitor")]
    VV = ADT(VVs[0], 0)
    R.case("wrapped", wrapped)
    R.floor("values read", n["read"], 600)


ABS = {"std::path::Path::is_absolute": lambda eng, args, st, call: (asbool(APP("std::path::Path::has_root", M.D(eng, st, args[0]))), st),
       "std::path::Path::is_relative": lambda eng, args, st, call: (gnot(asbool(APP("std::path::Path::has_root", M.D(eng, st, args[0])))), st)}


def attributed(R, v, t):
    """the value as supplied by a provider: unattributed parts carry its attribution"""
    def f(k, tt, p):
        if k == "Dict":
            es = M.map_items(p)
            p = M.EMPTYMAP
            for e in es:
                p = M.minsert(p, e.a[0], attributed(R, e.a[1], t))
        return R.con("Value", k, t, p)
    if v.op == "app":
        return v
    return split_value(R, v, f)


def dispatch(R, trait, name):
    """a method of a trait called on a value of a local type"""
    def f(eng, args, st, call):
        if call.fn.get("key"):
            return None
        x = eng.deref(st, args[0])
        if x.op != "adt":
            return None
        try:
            b = R.body(impl_of(R, x.a[0], trait, name))
        except Missing:
            return None
        t = R.F.types[b["locals"][1]]
        return eng.run_body(b, list(args) if t["k"] == "ref" else [x] + list(args[1:]), st)
    return f
