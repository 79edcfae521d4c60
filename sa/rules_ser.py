"""C11: serialization into and of values."""
from lib import *
from rules import rule
from rules_core import *
from rules_view import *
from rules_prov import *
from rules_de import *

SER = ("serde::ser::", "serde_core::ser::")
SIMPLE = {"bool": "Bool", "char": "Char", "str": "String"}
NUMW = [n for n in NUMS if n not in ("USize", "ISize")]


def impl_of(R, adt, trait, name):
    c = [it for it in R.F.items if it["name"] == name and it["trait"] and it["self"] is not None
         and it["trait"].split("<")[0].split("::")[-1] == trait and R.F.types[it["self"]].get("adt") == adt]
    if len(c) != 1:
        raise Missing(f"{trait}::{name} for {adt}: {len(c)} candidates")
    return c[0]


def content(R, x):
    """what the unknown serializable x turns into"""
    return APP("serialized", x)


def ser_models(R, fail=None, keys=()):
    """unknown serializable things: each turns into some value, except `fail`, which is an error; `keys` turn into strings"""
    def ser(eng, args, st, call):
        if call.fn.get("key"):
            return None
        x = eng.deref(st, args[0])
        s = eng.deref(st, args[1])
        if s.op != "adt" or not s.a[0].endswith("ValueSerializer"):
            return None
        if x is fail:
            return ERR(APP("failure", x)), st
        if x.op == "str" or x in keys:
            return OK(R.con("Value", "String", dflt(R), x)), st
        t = call.gargs()
        ty = eng.F.types[eng.F.peel(t[0])] if t else {}
        if ty.get("s") in VISIT_NUM.values():
            return OK(R.con("Value", "Num", dflt(R), R.con("Num", ty["s"].upper(), x))), st
        if x.op == "sym":
            return OK(content(R, x)), st
        if x.op == "adt" and x.a[0] == R.adt("Value"):
            return eng.run_body(R.body(impl_of(R, x.a[0], "Serialize", "serialize")), [x, s], st)
        return None
    m = {}
    for p in ("serde::", "serde_core::") + SER:
        m[p + "Serialize::serialize"] = ser
    return m


def valser(R):
    c = [p for p, a in R.F.adts.items() if a["local"] and p.endswith("ValueSerializer")]
    if len(c) != 1:
        raise Missing("the serializer into values")
    return ADT(c[0], 0)


# (method, extra arguments, trait of the compound, step method, is it keyed, tag)
def compounds():
    V = SYM("variant")
    yield "serialize_seq", [SOME(SYM("len"))], "SerializeSeq", "serialize_element", False, None
    yield "serialize_seq", [NONE], "SerializeSeq", "serialize_element", False, None
    yield "serialize_tuple", [SYM("len")], "SerializeTuple", "serialize_element", False, None
    yield "serialize_tuple_struct", [SYM("name"), SYM("len")], "SerializeTupleStruct", "serialize_field", False, None
    yield "serialize_tuple_variant", [SYM("name"), SYM("idx"), V, SYM("len")], "SerializeTupleVariant", "serialize_field", False, V
    yield "serialize_map", [SOME(SYM("len"))], "SerializeMap", None, True, None
    yield "serialize_map", [NONE], "SerializeMap", None, True, None
    yield "serialize_struct", [SYM("name"), SYM("len")], "SerializeStruct", "serialize_field", True, None
    yield "serialize_struct_variant", [SYM("name"), SYM("idx"), V, SYM("len")], "SerializeStructVariant", "serialize_field", True, V


class Drive:
    """run the serializer protocol: start, n entries, end"""
    def __init__(self, R, meth, extra, trait, stepm, keyed, n, fail=None, keys=None):
        self.R = R
        self.es = [SYM(f"e{i}") for i in range(n)]
        self.ks = keys if keys is not None else [STR("cabd"[i]) for i in range(n)]
        mods = ser_models(R, fail, tuple(self.ks))
        sz = valser(R)
        self.start = R.fn(meth, R.tname_of(sz.a[0]) if hasattr(R, "tname_of") else sz.a[0].split("::")[-1], "Serializer")
        e = R.ev(self.start, [sz] + extra, models=mods)
        self.acc = e.v.a[2] if e.v.op == "adt" and e.v.a[0] == RESULT and e.v.a[1] == 0 else None
        self.err = None
        self.states = [self.acc]
        if self.acc is None or self.acc.op != "adt":
            raise Missing(f"compound of {meth}")
        A = self.acc.a[0]
        self.A = A
        for i in range(n):
            if not keyed:
                calls = [(impl_of(R, A, trait, stepm), [self.es[i]])]
            elif stepm is None:
                calls = [(impl_of(R, A, trait, "serialize_key"), [self.ks[i]]), (impl_of(R, A, trait, "serialize_value"), [self.es[i]])]
            else:
                calls = [(impl_of(R, A, trait, stepm), [self.ks[i], self.es[i]])]
            for it, args in calls:
                e = R.ev(it, [self.acc] + args, models=mods)
                if e.v is not OK(UNIT):
                    self.err = e.v
                    self.where = it["span"]
                    return
                self.acc = e.out(0)
            self.states.append(self.acc)
        self.end_it = impl_of(R, A, trait, "end")
        self.end = R.ev(self.end_it, [self.acc], models=mods).v


def tagwrap(R, v, tag):
    return v if tag is None else R.con("Value", "Dict", dflt(R), one(R, tag, v))


@rule("C11", "value-flow summary of every method of the serializer into values and of its compound states, for no, some and "
      "(by one abstract step) any number of entries, with failing entries at every position; and of serializing each kind of value",
      120, TRUSTED)
def C11(R):
    d = dflt(R)
    sz = valser(R)
    short = sz.a[0].split("::")[-1]
    S = lambda m: R.fn("serialize_" + m, short, "Serializer")

    def scalar(m, args, want):
        def go():
            e = R.ev(S(m), [sz] + args, models=ser_models(R, SYM("bad"), (STR("k"),)))
            R.eq(f"scalar:{m}:{args[-1] if args else ''}", S(m)["span"], e.v, want)
        R.case(f"scalar:{m}", go)
    x = SYM("x")
    for m, vn in SIMPLE.items():
        scalar(m, [x], OK(R.con("Value", vn, d, x)))
    for n in NUMW:
        scalar(n.lower(), [x], OK(R.con("Value", "Num", d, R.con("Num", n, x))))
    empty = lambda n: OK(R.con("Value", "Empty", d, R.con("Empty", n)))
    scalar("none", [], empty("None"))
    scalar("unit", [], empty("Unit"))
    scalar("unit_struct", [SYM("name")], empty("Unit"))
    scalar("some", [x], OK(content(R, x)))
    scalar("some", [SYM("bad")], ERR(APP("failure", SYM("bad"))))
    scalar("newtype_struct", [SYM("name"), x], OK(content(R, x)))
    scalar("newtype_struct", [SYM("name"), SYM("bad")], ERR(APP("failure", SYM("bad"))))
    scalar("unit_variant", [SYM("name"), SYM("idx"), SYM("variant")], OK(R.con("Value", "String", d, SYM("variant"))))
    scalar("newtype_variant", [SYM("name"), SYM("idx"), SYM("variant"), x], OK(tagwrap(R, content(R, x), SYM("variant"))))
    scalar("newtype_variant", [SYM("name"), SYM("idx"), SYM("variant"), SYM("bad")], ERR(APP("failure", SYM("bad"))))
    u8 = lambda b: R.con("Value", "Num", d, R.con("Num", "U8", b))
    for n in (0, 1, 3):
        bs = [SYM(f"b{i}") for i in range(n)]

        def by(bs=bs):
            e = R.ev(S("bytes"), [sz, mk("arr", *bs)], models=bytes_models(R))
            R.eq(f"bytes:{len(bs)}", S("bytes")["span"], e.v, OK(R.con("Value", "Array", d, mk("arr", *[u8(b) for b in bs]))))
        R.case(f"bytes:{n}", by)

    for meth, extra, trait, stepm, keyed, tag in compounds():
        cn = meth[10:] + (":" + ("hint" if extra[0] is not NONE else "nohint") if meth in ("serialize_seq", "serialize_map") else "")

        def whole(n, keys=None, label=""):
            D_ = Drive(R, meth, extra, trait, stepm, keyed, n, keys=keys)
            if D_.err is not None:
                R.ob(f"{cn}:{n}{label}", False, D_.where, f"an entry is refused: {cut(D_.err, 200)}")
                return
            if keyed:
                m = M.EMPTYMAP
                for k, e in zip(D_.ks, D_.es):
                    m = M.minsert(m, k, content(R, e))
                v = R.con("Value", "Dict", d, m)
            else:
                v = R.con("Value", "Array", d, mk("arr", *[content(R, e) for e in D_.es]))
            R.eq(f"{cn}:{n}{label}", D_.end_it["span"], D_.end, OK(tagwrap(R, v, tag)))

        for n in range(4):
            R.case(f"{cn}:{n}", whole, n)
        if keyed:
            R.case(f"{cn}:dup", whole, 2, [STR("k"), STR("k")], ":dup")
            R.case(f"{cn}:anykey", whole, 1, [SYM("k")], ":anykey")

        def failing():
            for n in (1, 2, 3):
                b = SYM(f"e{n - 1}")
                D_ = Drive(R, meth, extra, trait, stepm, keyed, n, fail=b)
                R.eq(f"{cn}:fail:{n}", D_.start["span"], D_.err if D_.err is not None else D_.end, ERR(APP("failure", b)))
            if keyed:
                D_ = Drive(R, meth, extra, trait, stepm, keyed, 1, keys=[SYM("badkey")], fail=SYM("badkey"))
                R.eq(f"{cn}:fail:key", D_.start["span"], D_.err if D_.err is not None else D_.end, ERR(APP("failure", SYM("badkey"))))
        R.case(f"{cn}:fail", failing)

        def anynumber():
            """one entry on top of arbitrary earlier ones"""
            D_ = Drive(R, meth, extra, trait, stepm, keyed, 2)
            k0, k1 = (D_.ks + [None, None])[:2]
            c0, c1 = content(R, D_.es[0]), content(R, D_.es[1])
            s1, s2 = D_.states[1], D_.states[2]
            pre = SYM("earlier")
            prek = SYM("earlier-keys")
            m1 = {mk("arr", c0): pre, mk("arr", k0) if k0 is not None else pre: prek if k0 is not None else pre}
            m2 = {mk("arr", c0, c1): M.lcat(pre, mk("arr", c1))}
            if k0 is not None:
                m2[mk("arr", k0, k1)] = M.lcat(prek, mk("arr", k1))
            g1, g2 = subst(s1, m1), subst(s2, m2)
            if c0 in walk(g1) or c0 in walk(g2) or pre not in walk(g1):
                R.ob(f"{cn}:any", True, D_.start["span"], "bounded cases only")
                return
            mods = ser_models(R, None, tuple(D_.ks))
            if not keyed:
                calls = [(impl_of(R, D_.A, trait, stepm), [D_.es[1]])]
            elif stepm is None:
                calls = [(impl_of(R, D_.A, trait, "serialize_key"), [k1]), (impl_of(R, D_.A, trait, "serialize_value"), [D_.es[1]])]
            else:
                calls = [(impl_of(R, D_.A, trait, stepm), [k1, D_.es[1]])]
            acc = g1
            for it, args in calls:
                e = R.ev(it, [acc] + args, models=mods)
                R.eq(f"{cn}:any:{it['name']}", it["span"], e.v, OK(UNIT))
                acc = e.out(0)
            R.eq(f"{cn}:any:after", D_.start["span"], acc, g2)
            if not keyed:
                end = R.ev(D_.end_it, [g1], models=mods).v
                R.eq(f"{cn}:any:end", D_.end_it["span"], end, OK(tagwrap(R, R.con("Value", "Array", d, pre), tag)))
        R.case(f"{cn}:any", anynumber)

    # keys
    def keys():
        A = R.ev(S("map"), [sz, NONE]).v.a[2]
        it = impl_of(R, A.a[0], "SerializeMap", "serialize_key")
        for vn, v in stored(R, SYM("t")):
            m = {}
            for p in ("serde::", "serde_core::") + SER:
                m[p + "Serialize::serialize"] = lambda eng, args, st, call, v=v: None if call.fn.get("key") else (OK(v), st)
            e = R.ev(it, [A, SYM("key")], models=m)
            if vn == "String":
                R.eq(f"key:{vn}", it["span"], e.v, OK(UNIT))
            else:
                bad = e.v.op == "adt" and e.v.a[1] == 1
                R.ob(f"key:{vn}", bad, it["span"], f"a key that is no string is accepted: {cut(e.v, 200)}")
                if bad:
                    k = errget(R, e.v.a[2], "kind")
                    R.ob(f"key:{vn}:kind", k.op == "adt" and k.a[0] == R.adt("Kind") and k.a[1] == R.vi("Kind", "UnsupportedKey"),
                         it["span"], f"reported as {cut(k, 120)}")
    R.case("keys", keys)

    # values themselves
    vser = impl_of(R, R.adt("Value"), "Serialize", "serialize")
    R.case("value", values, R, vser, sz, d)


def bytes_models(R):
    return ser_models(R)


def values(R, vser, sz, d):
    """serializing each kind of value: with the serializer into values the value itself, with any other serializer
    the calls of serde's data model"""
    t = SYM("t")

    def plain(v):
        def f(k, tt, p):
            if k == "Dict":
                es = M.map_items(p)
                p = M.EMPTYMAP
                for e in es:
                    p = M.minsert(p, e.a[0], plain(e.a[1]))
            elif k == "Array":
                p = mk("arr", *[plain(x) for x in p.a])
            elif k == "Num" and p.a[1] in (R.vi("Num", "USize"), R.vi("Num", "ISize")):
                u = p.a[1] == R.vi("Num", "USize")
                p = R.con("Num", "U64" if u else "I64", APP(f"icast:{'usize:u64' if u else 'isize:i64'}", p.a[2]))
            return R.con("Value", k, dflt(R), p)
        return split_value(R, v, f)
    vals = [(n, v) for n, v in stored(R, t) if n != "Dict1k"]
    for n in ("USize", "ISize"):
        vals.append(("Num." + n, R.con("Value", "Num", t, R.con("Num", n, SYM("n")))))
    for vn, v in vals:
        def go(vn=vn, v=v):
            m = serdrive(R)
            e = R.ev(vser, [v, sz], models=m)
            R.eq(f"value:{vn}", vser["span"], e.v, OK(plain(v)))
        R.case(f"value:{vn}", go)

        def other(vn=vn, v=v):
            m = recorder(R)
            e = R.ev(vser, [v, SYM("S")], models=m)
            R.eq(f"foreign:{vn}", vser["span"], e.v, OK(foreign(R, vn, v)))
        R.case(f"foreign:{vn}", other)


def serdrive(R):
    """serde's generic calls reach the local serializer"""
    m = {"unroll!": None}

    def disp(trait, name):
        def f(eng, args, st, call):
            if call.fn.get("key"):
                return None
            x = eng.deref(st, args[0])
            if x.op != "adt":
                return None
            try:
                it = impl_of(R, x.a[0], trait, name)
            except Missing:
                if trait == "SerializeMap" and name == "serialize_entry":
                    for nm, a in (("serialize_key", args[1]), ("serialize_value", args[2])):
                        v, st = disp(trait, nm)(eng, [args[0], a], st, call)
                        if v is not OK(UNIT):
                            return v, st
                    return OK(UNIT), st
                return None
            b = R.body(it)
            byref = R.F.types[b["locals"][1]]["k"] == "ref" and R.F.types[b["locals"][1]].get("mut")
            return eng.run_body(b, list(args) if byref else [x] + list(args[1:]), st)
        return f

    def ser(eng, args, st, call):
        if call.fn.get("key"):
            return None
        x = eng.deref(st, args[0])
        if x.op == "str" or x.op == "sym":
            return disp("Serializer", "serialize_str")(eng, [args[1], x], st, call)
        if x.op == "adt":
            try:
                it = impl_of(R, x.a[0], "Serialize", "serialize")
            except Missing:
                return None
            return eng.run_body(R.body(it), [x, args[1]], st)
        return None
    for p in SER:
        for it in R.F.items:
            tr = it["trait"].split("<")[0].split("::")[-1] if it["trait"] else None
            if tr in ("Serializer", "SerializeSeq", "SerializeMap"):
                m[p + tr + "::" + it["name"]] = disp(tr, it["name"])
        m[p + "SerializeMap::serialize_entry"] = disp("SerializeMap", "serialize_entry")
        whole(m, p)
        m[p + "Serialize::serialize"] = ser
    for p in ("serde::", "serde_core::"):
        m[p + "Serialize::serialize"] = ser
    return m


def whole(m, p):
    """serde's `collect_seq` and `collect_map`: what they are defined to do"""
    def f(kind, tr, each):
        def g(eng, args, st, call):
            if call.fn.get("key"):
                return None
            at = call.argtys()
            it = M.into_iter_val(eng, st, eng.deref(st, args[1]), at[1] if at else None)
            loc, st, ex = M.consume(eng, st, it, M.NIL, lambda s, l, e: (M.put(s, l, M.lcat(s.mem[l], mk("arr", e))), {}))
            if st is None or ex:
                return None
            l = st.mem.pop(loc)
            if l.op != "arr":
                raise Unsupported("a sequence of unknown length is written")
            r = m[p + "Serializer::serialize_" + kind](eng, [args[0], SOME(INT(len(l.a)))], st, call)
            if r is None:
                return None
            v, st = r
            if v.op == "adt" and v.a[:2] == (RESULT, 0):
                v = v.a[2]
            elif v.op != "tup":
                raise Unsupported("starting to write a sequence can fail")
            st = st.copy()
            loc = eng.newloc(st, v)
            for e in l.a:
                r = m[p + each](eng, [mk("mref", loc, ())] + ([M.proj(e, "tuple", 0, 0), M.proj(e, "tuple", 0, 1)] if kind == "map" else [e]), st, call)
                if r is None:
                    return None
                v, st = r
                if v is not OK(UNIT):
                    raise Unsupported("writing an element can fail")
            return m[p + tr + "::end"](eng, [st.mem[loc]], st, call)
        return g
    m[p + "Serializer::collect_seq"] = f("seq", "SerializeSeq", "SerializeSeq::serialize_element")
    m[p + "Serializer::collect_map"] = f("map", "SerializeMap", "SerializeMap::serialize_entry")


def recorder(R):
    """an unknown serializer, recording what it is given"""
    m = {"unroll!": None}

    def scalar(name):
        def f(eng, args, st, call):
            if call.fn.get("key"):
                return None
            return OK(APP("s:" + name, *[eng.deref(st, a) for a in args[1:]])), st
        return f

    def start(name):
        def f(eng, args, st, call):
            if call.fn.get("key"):
                return None
            return OK(TUP(STR(name), eng.deref(st, args[1]), mk("arr"))), st
        return f

    def add(n):
        def f(eng, args, st, call):
            if call.fn.get("key"):
                return None
            acc = eng.deref(st, args[0])
            if acc.op != "tup":
                return None
            st = st.copy()
            e = eng.deref(st, args[1]) if n == 1 else TUP(eng.deref(st, args[1]), eng.deref(st, args[2]))
            eng.assign(st, args[0], TUP(acc.a[0], acc.a[1], M.lcat(acc.a[2], mk("arr", e))))
            return OK(UNIT), st
        return f

    def part(i):
        def f(eng, args, st, call):
            if call.fn.get("key"):
                return None
            st = st.copy()
            acc = eng.deref(st, args[0])
            x = eng.deref(st, args[1])
            l = acc.a[2]
            l = M.lcat(l, mk("arr", TUP(x, UNIT))) if i == 0 else mk("arr", *(l.a[:-1] + (TUP(l.a[-1].a[0], x),)))
            eng.assign(st, args[0], TUP(acc.a[0], acc.a[1], l))
            return OK(UNIT), st
        return f

    def end(eng, args, st, call):
        if call.fn.get("key"):
            return None
        acc = eng.deref(st, args[0])
        return OK(APP("s:" + acc.a[0].a[0], *acc.a[1:])), st

    def ser(eng, args, st, call):
        if call.fn.get("key"):
            return None
        x = eng.deref(st, args[0])
        if x.op == "adt" and args[1] is SYM("S"):
            return eng.run_body(R.body(impl_of(R, x.a[0], "Serialize", "serialize")), [x, args[1]], st)
        return None
    for p in SER:
        for n in ["bool", "char", "str", "none", "unit"] + [x.lower() for x in NUMW]:
            m[p + "Serializer::serialize_" + n] = scalar(n)
        for n in ("seq", "map"):
            m[p + "Serializer::serialize_" + n] = start(n)
        m[p + "SerializeSeq::serialize_element"] = add(1)
        m[p + "SerializeMap::serialize_entry"] = add(2)
        m[p + "SerializeMap::serialize_key"] = part(0)
        m[p + "SerializeMap::serialize_value"] = part(1)
        m[p + "SerializeSeq::end"] = m[p + "SerializeMap::end"] = end
        whole(m, p)
        m[p + "Serialize::serialize"] = ser
    for p in ("serde::", "serde_core::"):
        m[p + "Serialize::serialize"] = ser
    return m


def foreign(R, vn, v):
    x = v.a[3]
    if vn in ("String", "Char", "Bool"):
        return APP("s:" + {"String": "str"}.get(vn, vn.lower()), x)
    if vn.startswith("Num."):
        n = vn[4:]
        if n in ("USize", "ISize"):
            u = n == "USize"
            return APP("s:" + ("u64" if u else "i64"), APP("icast:usize:u64" if u else "icast:isize:i64", x.a[2]))
        return APP("s:" + n.lower(), x.a[2])
    if vn.startswith("Empty."):
        return APP("s:" + vn[6:].lower())
    if vn.startswith("Dict"):
        es = M.map_items(x)
        return APP("s:map", SOME(INT(len(es))), mk("arr", *[TUP(e.a[0], e.a[1]) for e in es]))
    return APP("s:seq", SOME(INT(len(x.a))), x)
