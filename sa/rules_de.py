"""C08, C12: what a deserializer presents to the target, and what becomes of the target's errors."""
from lib import *
from rules import rule
from rules_core import *
from rules_view import *
from rules_prov import *
import engine as E

SERDE = ("serde::de::", "serde_core::de::")
VISITS = "bool char str string borrowed_str bytes byte_buf borrowed_bytes unit none some seq map enum newtype_struct u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64".split()
INTERP = {"strict": "DefaultInterpreter", "lossy": "LossyInterpreter"}


def sig(x):
    """name of an opaque serde call"""
    return x.a[0].split("@")[0].replace("serde_core::", "serde::").split("::")[-1]


class Target:
    """The type being read: an unknown visitor/seed whose answers are scripted.  Its `fail`-th answer is an error
    with a chain of n errors, all others are successes; visit_map and visit_seq drive the access they are given."""
    def __init__(self, R, fail=None, n=1, path=None, drive=True, interp="strict"):
        self.R, self.fail, self.n, self.drive, self.interp = R, fail, n, drive, interp
        self.path = path
        self.calls = []          # (name, args, guard) in order
        self.count = 0
        self.hints = []

    def answer(self, name, args, st):
        i = self.count
        self.count += 1
        self.calls.append((name, args, st.g))
        if self.fail == i:
            return ERR(self.err(i)), st
        return OK(SYM(f"ok{i}")), st

    def err(self, i):
        prev = NONE
        for k in reversed(range(self.n)):
            p = self.path if self.path is not None and k == 0 else SYM(f"de.path{k}")
            prev = SOME(mkerr(self.R, tag=SYM(f"de.tag{k}"), kind=SYM(f"de.kind{k}"), path=p, prev=prev,
                              profile=SYM(f"de.profile{k}"), metadata=SYM(f"de.metadata{k}")))
        return prev.a[2]

    def method(self, x, name, eng, args, st, call):
        """call a method of a (local) access value"""
        R = self.R
        if x.op == "adt":
            it = R.methods(x.a[0]).get(name)
            if it is not None:
                return eng.run_body(R.body(it), args, st)
        return None

    def run_access(self, eng, st, acc, call, seq):
        l = eng.newloc(st, acc)
        ref = mk("mref", l, ())
        out = []
        R = self.R

        def step(name, hint=False):
            nonlocal st
            x = eng.deref(st, ref)
            r = self.method(x, name, eng, [ref] if hint else [ref, SYM("seed")], st, call)
            if r is None:
                raise Unsupported(f"access {name} of {cut(x, 80)}")
            v, st = r
            if st is None:
                raise Unsupported(f"access {name} always panics")
            return v
        for _ in range(8):
            if seq:
                x = eng.deref(st, ref)
                if x.op == "adt" and "size_hint" in R.methods(x.a[0]):
                    self.hints.append(step("size_hint", True))
                else:
                    self.hints.append(NONE)
            v = step("next_element_seed" if seq else "next_key_seed")
            if v.op != "adt" or v.a[0] != RESULT:
                raise Unsupported("access result is not decided: " + cut(v, 120))
            if v.a[1] == 1:
                return v, st
            o = v.a[2]
            if o is NONE:
                return OK(APP("presented", STR("seq" if seq else "map"), mk("arr", *out))), st
            if o.op != "adt":
                raise Unsupported("access result is not decided")
            if seq:
                out.append(TUP(self.hints[-1], o.a[2]))
                continue
            w = step("next_value_seed")
            if w.op != "adt" or w.a[0] != RESULT:
                raise Unsupported("access result is not decided: " + cut(w, 120))
            if w.a[1] == 1:
                return w, st
            out.append(TUP(o.a[2], w.a[2]))
        raise Unsupported("access does not end")

    def visit(self, name):
        def f(eng, args, st, call):
            if call.fn.get("local") or call.fn.get("key"):
                return None
            if name in ("visit_map", "visit_seq") and self.drive:
                self.calls.append((name, [args[0]], st.g))
                return self.run_access(eng, st, args[1], call, name == "visit_seq")
            if name == "visit_enum" and self.drive:
                x = eng.deref(st, args[1])
                if x.op == "app" and "MapAccessDeserializer" in x.a[0] and x.a[1].op == "adt":
                    self.calls.append((name, [args[0]], st.g))
                    return self.run_access(eng, st, x.a[1], call, False)
            return self.answer(name, args, st)
        return f

    def models(self):
        m = {}
        for p in SERDE:
            for v in VISITS:
                m[p + "Visitor::visit_" + v] = self.visit("visit_" + v)
            m[p + "DeserializeSeed::deserialize"] = self.visit("seed")
            m[p + "Deserialize::deserialize"] = self.visit("type")
        for p in ("serde::", "serde_core::"):
            m[p + "Deserialize::deserialize"] = self.visit("type")
        R = self.R
        who = INTERP[self.interp]
        for fn in ("interpret_as_bool", "interpret_as_num"):
            its = [it for it in R.F.items if it["name"] == fn]
            own = [it for it in its if R.selfname(it) == who]
            dfl_ = [it for it in its if it["dpath"].split("::")[-2] == "Interpreter"]
            for it in dfl_:
                def f(eng, args, st, call, own=own, it=it):
                    if call.fn.get("key"):
                        return None
                    return eng.run_body(R.body(own[0] if own else it), args, st)
                m[norm_path(it)] = f
        return m


def norm_path(it):
    return it["dpath"].split("::", 1)[1] if it["dpath"].startswith("figment::") else it["dpath"]


def deser(R, v, kind="cfg", config=None):
    """the deserializer of a value"""
    if kind == "ref":
        return v
    p, df = de_fields(R)
    new = [it for it in R.items("from", "ConfiguredValueDe") if it["trait"] is None]
    if len(new) != 1:
        raise Missing("constructor of the deserializer")
    return R.ev(new[0], [config if config is not None else fig(R), v]).v


DE = {"cfg": "ConfiguredValueDe", "ref": "&Value"}


def de_fn(R, name, kind):
    return R.fn(name, DE[kind], "Deserializer")


def de_methods(R, kind):
    return sorted(it["name"] for it in R.F.items if it["name"].startswith("deserialize_") and it["trait"]
                  and it["trait"].split("<")[0].endswith("Deserializer") and R.selfname(it) == DE[kind])


EXTRA = {"struct": 2, "enum": 2, "tuple_struct": 2, "newtype_struct": 1, "unit_struct": 1, "tuple": 1}


def de_args(name, sname=None):
    k = name[len("deserialize_"):]
    a = [SYM(f"arg{i}") for i in range(EXTRA.get(k, 0))]
    if a and k not in ("tuple",):
        a[0] = sname if sname is not None else STR("AnyName")
    return a


def run_de(R, v, name, kind="cfg", sname=None, config=None, **kw):
    t = Target(R, **kw)
    e = R.ev(de_fn(R, name, kind), [deser(R, v, kind, config)] + de_args(name, sname) + [SYM("visitor")], models=t.models())
    return t, e


def is_dflt(R, t):
    return asbool(R.ev(R.fn("eq", "Tag", "PartialEq"), [t, dflt(R)]).v)


def tagged(R, *ts):
    """first tag that is not the default one"""
    out = ts[-1]
    for t in reversed(ts[:-1]):
        out = select(is_dflt(R, t), out, t)
    return out


def resolved_chain(R, es, md, cur):
    p = NONE
    for e in reversed(es):
        p = SOME(setprev(R, resolved_spec(R, e, md, cur), p))
    return p.a[2]


def expect_err(R, t, i, tags, prefix, resolve=True, path=None, md=SYM("md"), cur=SYM("prof")):
    """the target's i-th answer, seen from outside: its path prefixed, attributed to the innermost known supplier"""
    es = errlist(R, t.err(i))
    f = err_fields(R)
    h = es[0]
    p = path if path is not None else M.lcat(mk("arr", *prefix), errget(R, h, "path")) if prefix else errget(R, h, "path")
    es[0] = setprev(R, h, NONE, tag=tagged(R, errget(R, h, "tag"), *tags), path=p)
    if resolve:
        return ERR(resolved_chain(R, es, md, cur))
    return ERR(relink(R, es))


def source_md(R):
    """metadata of a value read from a file"""
    p = [p for p in R.F.adts if p.endswith("metadata::Source")]
    if len(p) != 1:
        raise Missing("type metadata::Source")
    vs = R.F.adts[p[0]]["variants"]
    i = [i for i, v in enumerate(vs) if v["name"] == "File"][0]
    return ADT(R.adt("Metadata"), 0, *[SOME(ADT(p[0], i, SYM("file"))) if "Option<" in ty and "Source" in ty else SYM("md." + n)
                                       for n, ty in R.fields("Metadata")])


NUMS = "U8 U16 U32 U64 U128 USize I8 I16 I32 I64 I128 ISize F32 F64".split()


def scalars(R, t):
    yield "String", R.con("Value", "String", t, SYM("s"))
    yield "Char", R.con("Value", "Char", t, SYM("c"))
    yield "Bool", R.con("Value", "Bool", t, SYM("b"))
    for n in NUMS:
        if n not in ("USize", "ISize"):
            yield "Num." + n, R.con("Value", "Num", t, R.con("Num", n, SYM("n")))
    for e in ("None", "Unit"):
        yield "Empty." + e, R.con("Value", "Empty", t, R.con("Empty", e))


def dict2(R, t):
    va, vb = R.con("Value", "String", SYM("ta"), SYM("pa")), R.con("Value", "Bool", SYM("tb"), SYM("pb"))
    m = M.minsert(M.minsert(M.EMPTYMAP, STR("b"), vb), STR("a"), va)
    return R.con("Value", "Dict", t, m), va, vb


def array2(R, t):
    va, vb = R.con("Value", "String", SYM("ta"), SYM("pa")), R.con("Value", "Bool", SYM("tb"), SYM("pb"))
    return R.con("Value", "Array", t, mk("arr", va, vb)), va, vb


@rule("C08", "value-flow summary of every deserialization method on every kind of value for a target that fails at an arbitrary "
      "point, with arbitrary own path and attribution, compared with: key or index prepended, innermost attribution kept, "
      "metadata and profile looked up; likewise for the extraction entry points", 150, TRUSTED)
def C08(R):
    t = SYM("t")
    VT = SYM("visitor")
    # one value: errors are attributed to it, their path is kept
    for kind in ("cfg", "ref"):
        res = kind == "cfg"
        for name in de_methods(R, kind):
            for vn, v in scalars(R, t):
                for n in ((1, 2) if name in ("deserialize_any", "deserialize_option") and vn in ("String", "Empty.None") else (1,)):
                    def go(v=v, name=name, n=n):
                        T_, e = run_de(R, v, name, kind, fail=0, n=n)
                        if name == "deserialize_newtype_struct" or name == "deserialize_option" and not vn.startswith("Empty"):
                            # the target reads the same value again: it is the inner reading that attributes
                            ds = [a for nm, a, g in T_.calls]
                            if kind == "cfg" and name == "deserialize_option":
                                R.eq(f"{kind}:{name}:{vn}:{n}", de_fn(R, name, kind)["span"], e.v, expect_err(R, T_, 0, [t], [], res))
                            else:
                                a = errlist(R, e.v.a[2])[0] if e.v.op == "adt" and e.v.a[1] == 1 else None
                                R.ob(f"{kind}:{name}:{vn}:{n}", e.v is ERR(T_.err(0)) or e.v is expect_err(R, T_, 0, [t], [], res),
                                     de_fn(R, name, kind)["span"], f"error is changed to {cut(e.v, 200)}")
                        else:
                            R.eq(f"{kind}:{name}:{vn}:{n}", de_fn(R, name, kind)["span"], e.v, expect_err(R, T_, 0, [t], [], res))
                    R.case(f"{kind}:{name}:{vn}", go)
        # compound values: the key or index of the failing entry comes first
        for name in ("deserialize_any", "deserialize_map", "deserialize_struct", "deserialize_ignored_any", "deserialize_enum"):
            for fail, key, tg in ((0, "a", "ta"), (1, "a", "ta"), (2, "b", "tb"), (3, "b", "tb")):
                for n in (1, 2):
                    def go(name=name, fail=fail, key=key, tg=tg, n=n):
                        v, va, vb = dict2(R, t)
                        T_, e = run_de(R, v, name, kind, fail=fail, n=n)
                        R.eq(f"{kind}:{name}:dict:{fail}:{n}", de_fn(R, name, kind)["span"], e.v, expect_err(R, T_, fail, [SYM(tg), t], [STR(key)], res))
                    R.case(f"{kind}:{name}:dict:{fail}", go)
        for name in ("deserialize_any", "deserialize_seq", "deserialize_tuple"):
            for fail, tg in ((0, "ta"), (1, "tb")):
                for n in (1, 2):
                    def go(name=name, fail=fail, tg=tg, n=n):
                        v, va, vb = array2(R, t)
                        T_, e = run_de(R, v, name, kind, fail=fail, n=n)
                        R.eq(f"{kind}:{name}:array:{fail}:{n}", de_fn(R, name, kind)["span"], e.v,
                             expect_err(R, T_, fail, [SYM(tg), t], [STR(str(fail))], res))
                    R.case(f"{kind}:{name}:array:{fail}", go)

    # a key that is an arbitrary string, a position in a longer list
    def anykey():
        k, v1 = SYM("k"), R.con("Value", "String", SYM("ta"), SYM("pa"))
        v = R.con("Value", "Dict", t, one(R, k, v1))
        for fail in (0, 1):
            T_, e = run_de(R, v, "deserialize_any", "cfg", fail=fail)
            R.eq(f"key:any:{fail}", de_fn(R, "deserialize_any", "cfg")["span"], e.v, expect_err(R, T_, fail, [SYM("ta"), t], [k]))
    R.case("key:any", anykey)

    # values wrapped for the magic types: no internal name shows up in the path
    file_md = source_md(R)
    tmd = M.minsert(M.EMPTYMAP, t, file_md)
    D = de_fn(R, "deserialize_struct", "cfg")
    for sname in magic(R):
        for cn, md in (("unknown", M.EMPTYMAP), ("file", tmd)):
            def go(sname=sname, md=md, cn=cn):
                cfg = fig(R, md=md)
                v = R.con("Value", "String", t, SYM("s"))
                T0, e0 = run_de(R, v, "deserialize_struct", "cfg", sname=STR(sname), config=cfg)
                seeds = [a for nm, a, g in T0.calls if nm == "seed"]
                R.ob(f"magic:{sname}:{cn}:entries", len(seeds) >= 2, D["span"], f"{len(seeds)} entries are presented")
                for j in range(len(seeds)):
                    T_, e = run_de(R, v, "deserialize_struct", "cfg", sname=STR(sname), fail=j, config=cfg)
                    if e.v.op != "adt" or e.v.a[1] != 1:
                        R.ob(f"magic:{sname}:{cn}:{j}", False, D["span"], "the target's error is lost: " + cut(e.v, 200))
                        continue
                    h = e.v.a[2]
                    R.eq(f"magic:{sname}:{cn}:{j}:path", D["span"], errget(R, h, "path"), SYM("de.path0"))
                    R.eq(f"magic:{sname}:{cn}:{j}:kind", D["span"], errget(R, h, "kind"), SYM("de.kind0"))
            R.case(f"magic:{sname}:{cn}", go)

    # extraction entry points
    f = err_fields(R)
    for m, it, arg in [(n, R.fn(n, "Figment"), a) for n, _, a in EXTRACT]:
        for pn, ks, ptext in (path_cases() if arg else [("-", [], None)]):
            if pn == "double-dot":
                continue
            for n in (1, 2):
                def go(m=m, it=it, arg=arg, ks=ks, ptext=ptext, n=n, pn=pn):
                    # what is read: a value of arbitrary attribution at the path
                    leafv = R.con("Value", "String", t, SYM("s"))
                    dd = leafv
                    for k in reversed(ks):
                        dd = R.con("Value", "Dict", SYM("t'"), one(R, k, dd))
                    if arg and not ks:
                        return
                    mdata = one(R, prof(R, DEFAULT), dd.a[3] if ks else one(R, word("a"), leafv))
                    T_ = Target(R, fail=0, n=n)
                    e = R.ev(it, [fig(R, OK(mdata), profile=prof(R, SYM("cur")))] + ([ptext] if arg else []), models=T_.models())
                    vt = t if arg else None
                    want = expect_err(R, T_, 0, [vt] if arg else [], [k for k in ks], resolve=arg, cur=prof(R, SYM("cur")))
                    if arg:
                        R.eq(f"extract:{m}:{pn}:{n}", it["span"], e.v, want)
                    else:
                        R.ob(f"extract:{m}:{n}", e.v.op == "adt" and e.v.a[1] == 1 and errget(R, e.v.a[2], "path") is SYM("de.path0")
                             and errget(R, e.v.a[2], "kind") is SYM("de.kind0"), it["span"], f"error is changed to {cut(e.v, 200)}")
                R.case(f"extract:{m}:{pn}:{n}", go)


def magic(R):
    """names under which the types ask for an internal wrapping"""
    out = []
    for ty in ("Value", "RelativePathBuf", "Tagged"):
        n = [0]

        def hr(eng, args, st, call):
            if call.fn.get("key"):
                return None
            n[0] += 1
            return (TRUE if n[0] % 2 else FALSE), st
        e = R.ev(R.fn("deserialize", ty, "Deserialize"), [SYM("D")], models={p + "Deserializer::is_human_readable": hr for p in SERDE})
        nm = [x.a[2].a[0] for x in walk(e.v) if x.op == "app" and sig(x).startswith("deserialize_struct") and x.a[2].op == "str"]
        if not nm:
            raise Missing(f"name under which {ty} is requested")
        out.append(nm[0])
    return out


# ------------------------------------------------------------------ what is presented
SAME = {"visit_borrowed_str": "visit_str", "visit_string": "visit_str", "visit_borrowed_bytes": "visit_bytes", "visit_byte_buf": "visit_bytes"}


def show(R, T_, v, plainly=False):
    """the result with every answer of the target replaced by what was presented to it"""
    cfgp, df = de_fields(R)

    def arg(x):
        s = strof(x)
        if s is not None and x.op == "app":
            return APP("num-de", s) if "@u32" in x.a[0] else APP("str-de", s)
        if x.op == "adt" and x.a[0] == cfgp and plainly:
            return APP("de", STR("ref"), x.a[2 + df["value"]])
        if x.op == "adt" and x.a[0] == cfgp:
            return APP("de", STR("cfg"), x.a[2 + df["config"]], x.a[2 + df["value"]])
        if x.op == "adt" and x.a[0] == R.adt("Value") or x.op == "sym" and x.a[0] == "v":
            return APP("de", STR("ref"), x)
        return x
    m = {}
    i = 0
    for name, args, g in T_.calls:
        if name in ("visit_map", "visit_seq") and len(args) == 1 or name == "visit_enum" and len(args) == 1:
            continue
        m[SYM(f"ok{i}")] = APP("got", STR(SAME.get(name, name)), *[arg(a) for a in args[1:]])
        i += 1
    return subst(v, m)


def got(name, *args): return APP("got", STR(name), *args)


def de_of(R, kind, v, config=None):
    return APP("de", STR("cfg"), config if config is not None else fig(R), v) if kind == "cfg" else APP("de", STR("ref"), v)


VISIT_NUM = {n: n.lower() for n in NUMS}
SMALL = ("U8", "U16", "U32")


def present(R, vn, v, kind):
    """what deserialize_any must present"""
    x = v.a[3]
    if vn == "String":
        return OK(got("visit_str", x))
    if vn in ("Char", "Bool"):
        return OK(got("visit_" + vn.lower(), x))
    if vn.startswith("Num."):
        return OK(got("visit_" + VISIT_NUM[vn[4:]], x.a[2]))
    if vn.startswith("Empty."):
        return OK(got("visit_" + vn[6:].lower()))
    if vn.startswith("Dict"):
        es = M.map_items(x)
        return OK(APP("presented", STR("map"), mk("arr", *[TUP(got("seed", APP("str-de", e.a[0])), got("seed", de_of(R, kind, e.a[1]))) for e in es])))
    es = x.a
    return OK(APP("presented", STR("seq"), mk("arr", *[TUP(SOME(INT(len(es) - i)), got("seed", de_of(R, kind, e))) for i, e in enumerate(es)])))


def stored(R, t):
    yield from scalars(R, t)
    for n in (0, 1, 2, 3):
        vs = [R.con("Value", "String", SYM(f"t{i}"), SYM(f"p{i}")) for i in range(n)]
        m = M.EMPTYMAP
        for i in reversed(range(n)):
            m = M.minsert(m, STR("cab"[i]), vs[i])
        yield f"Dict{n}", R.con("Value", "Dict", t, m)
        yield f"Array{n}", R.con("Value", "Array", t, mk("arr", *vs))
    yield "Dict1k", R.con("Value", "Dict", t, one(R, SYM("k"), SYM("v")))


@rule("C12", "value-flow summary of every deserialization method on every kind of stored value: which visitor method is called, "
      "with which content, which nested deserializers, entries in order and remaining length; induction step for entry "
      "iteration; reading a value as a value composed symbolically", 150, TRUSTED)
def C12(R):
    t = SYM("t")
    for kind in ("cfg", "ref"):
        methods = de_methods(R, kind)
        R.ob(f"{kind}:methods", "deserialize_any" in methods and len(methods) >= 28, "value/de.rs", f"{len(methods)} methods")
        for interp in (("strict", "lossy") if kind == "cfg" else ("strict",)):
            for name in methods:
                what = name[len("deserialize_"):]
                converting = kind == "cfg" and interp == "lossy" and (what == "bool" or what in VISIT_NUM.values())
                fn = de_fn(R, name, kind)
                for vn, v in stored(R, t):
                    if converting and not (vn.startswith(("Dict", "Array", "Empty"))):
                        continue
                    if interp == "lossy" and what not in ("any", "bool", "u8", "option", "seq", "map", "struct", "enum"):
                        continue

                    def go(name=name, vn=vn, v=v, what=what, fn=fn, interp=interp):
                        key = f"{kind}:{interp}:{name}:{vn}"
                        T_, e = run_de(R, v, name, kind, interp=interp)
                        # a boolean or number is requested: a compound cannot answer, its parts need not be configured
                        odd = what == "bool" or what in VISIT_NUM.values()
                        want = present(R, vn, v, "ref" if odd else kind)
                        if what == "option" and not vn.startswith("Empty."):
                            want = OK(got("visit_some", de_of(R, kind, v)))
                        elif what == "newtype_struct":
                            want = OK(got("visit_newtype_struct", de_of(R, kind, v)))
                        elif what == "enum" and vn == "String":
                            want = OK(got("visit_enum", APP("str-de", v.a[3])))
                        elif what == "enum" and vn.startswith("Num.") and vn[4:] in SMALL:
                            n = v.a[3].a[2]
                            want = OK(got("visit_enum", APP("num-de", n if vn == "Num.U32" else APP(f"icast:{VISIT_NUM[vn[4:]]}:u32", n))))
                        R.eq(key, fn["span"], show(R, T_, e.v, odd), want)
                        if what == "enum" and vn.startswith("Dict") or vn.startswith("Dict") and what not in ("option", "newtype_struct"):
                            how = [n for n, a, g in T_.calls if n in ("visit_map", "visit_enum")]
                            R.ob(key + ":as", how == ["visit_enum" if what == "enum" else "visit_map"], fn["span"], f"presented by {how}")
                    R.case(f"{kind}:{interp}:{name}:{vn}", go)
    R.case("entries", entries, R)
    R.case("roundtrip", roundtrip, R)


def generalise(x, y, L, REST):
    """x, y: an access before and after an entry.  -> (x with its counters made symbolic, the state expected after
    the entry), or None if the access does not consume an iterator (then only the bounded cases apply)"""
    plus = lambda t: E.arith2("Add", t, INT(1), "usize")
    minus = lambda t: E.arith2("Sub", t, INT(1), "usize")
    n = [0]
    ok = [False]

    def fresh():
        n[0] += 1
        return SYM(f"n{n[0]}")

    def go(a, b):
        if a is b:
            return a, a
        if a.op == "app" and a.a[0] == "it:enum" and b.op == "app" and b.a[0] == "it:enum":
            x, y = go(a.a[1], b.a[1])
            i = fresh()
            return APP("it:enum", x, i), APP("it:enum", y, plus(i))
        if a.op == "app" and a.a[0] == "it:list" and b is it_list_(REST) and a.a[1] is L:
            ok[0] = True
            return a, b
        if b is plus(a):
            i = fresh()
            return i, plus(i)
        if b is minus(a):
            i = fresh()
            return i, minus(i)
        if a.op == b.op and len(a.a) == len(b.a) and a.op in ("adt", "tup"):
            off = 2 if a.op == "adt" else 0
            if a.a[:off] != b.a[:off]:
                raise Unsupported("shape")
            r = [go(p, q) for p, q in zip(a.a[off:], b.a[off:])]
            return mk(a.op, *(a.a[:off] + tuple(p for p, _ in r))), mk(a.op, *(a.a[:off] + tuple(q for _, q in r)))
        raise Unsupported("shape")
    try:
        r = go(x, y)
    except Unsupported:
        return None
    return r if ok[0] else None


def it_list_(l): return APP("it:list", l)


def entries(R):
    """an array or dictionary of any size: an entry at any position is presented like the first one, and leaves the
    access where it would be with the rest alone"""
    t = SYM("t")
    REST = SYM("rest")
    va = R.con("Value", "String", SYM("ta"), SYM("pa"))
    vb = R.con("Value", "String", SYM("tb"), SYM("pb"))
    L = M.lcat(mk("arr", va), REST)
    LM = M.lcat(mk("arr", TUP(STR("b"), vb)), REST)
    for kind in ("cfg", "ref"):
        it = de_fn(R, "deserialize_any", kind)
        for fail in (None, 0, 1):
            class Step(Target):
                def run_access(self, eng, st, acc, call, seq):
                    def steps(x, st):
                        l = eng.newloc(st, x)
                        ref = mk("mref", l, ())
                        out = []
                        for name in (["next_element_seed"] if seq else ["next_key_seed", "next_value_seed"]):
                            r, st = self.method(eng.deref(st, ref), name, eng, [ref, SYM("seed")], st, call)
                            out.append(r)
                        return out, eng.deref(st, ref), st
                    n0 = self.fail
                    self.fail = None
                    if seq:
                        _, x1, st = steps(acc, st)
                        g = generalise(acc, x1, L, REST)
                    else:
                        _, x1, st = steps(acc, st)
                        one_ = it_list_(mk("arr", TUP(STR("b"), vb)))
                        g = (subst(x1, {one_: it_list_(LM)}), subst(x1, {one_: it_list_(REST)})) if one_ in walk(x1) else None
                    self.fail = n0
                    self.calls, self.count = [], 0
                    self.g = g
                    if g is None:
                        return OK(SYM("done")), st
                    self.hint = None
                    if seq and "size_hint" in R.methods(g[0].a[0]):
                        l = eng.newloc(st, g[0])
                        self.hint, st = self.method(g[0], "size_hint", eng, [mk("mref", l, ())], st, call)
                    self.out, self.after, st = steps(g[0], st)
                    return OK(SYM("done")), st
            for seq in (True, False):
                if seq and fail == 1:
                    continue

                def go(seq=seq, fail=fail, kind=kind, it=it):
                    T_ = Step(R, fail=fail)
                    if seq:
                        v = R.con("Value", "Array", t, L)
                    else:
                        v = R.con("Value", "Dict", t, M.minsert(M.minsert(M.EMPTYMAP, STR("b"), vb), STR("a"), va))
                    R.ev(it, [deser(R, v, kind), SYM("visitor")], models=T_.models())
                    key = f"entries:{kind}:{'array' if seq else 'dict'}:{fail}"
                    if getattr(T_, "g", None) is None:
                        R.ob(key, True, it["span"], "bounded cases only")
                        return
                    outs = [show(R, T_, o) for o in T_.out]
                    if fail is None:
                        if seq:
                            R.eq(key, it["span"], outs[0], OK(SOME(got("seed", de_of(R, kind, va)))))
                            n = [x for x in T_.g[0].a[2:] if x.op == "sym" and x.a[0].startswith("n")]
                            if T_.hint is not None:
                                R.ob(key + ":hint", any(T_.hint is SOME(x) for x in n) or T_.hint is NONE or
                                     T_.hint is SOME(M.length(L)), it["span"], f"remaining length {T_.hint}")
                        else:
                            R.eq(key + ":key", it["span"], outs[0], OK(SOME(got("seed", APP("str-de", STR("b"))))))
                            R.eq(key + ":value", it["span"], outs[1], OK(got("seed", de_of(R, kind, vb))))
                        R.eq(key + ":after", it["span"], T_.after, T_.g[1])
                    else:
                        o = T_.out[fail]
                        p = errget(R, o.a[2], "path") if o.op == "adt" and o.a[1] == 1 else SYM("?")
                        if seq:
                            i = [x for x in walk(p) if x.op == "sym" and x.a[0].startswith("n")]
                            x = subst(p, {i[0]: INT(4711)}) if i else p
                            R.eq(key, it["span"], x, M.lcat(mk("arr", STR("4711")), SYM("de.path0")))
                        else:
                            R.eq(key, it["span"], p, M.lcat(mk("arr", STR("b")), SYM("de.path0")))
                R.case(f"entries:{kind}:{seq}:{fail}", go)


def roundtrip(R):
    """a value read as a value"""
    t = SYM("t")
    it = R.fn("deserialize", "Value", "Deserialize")
    hy = lambda eng, ty, de, st: None

    def inherit(v, tag):
        """the value with unattributed parts attributed to the enclosing value"""
        def f(k, tt, p):
            nt = tagged(R, tt, tag) if tag is not None else tt
            if k == "Dict":
                es = M.map_items(p)
                p = M.EMPTYMAP
                for e in es:
                    p = M.minsert(p, e.a[0], inherit(e.a[1], nt))
            elif k == "Array":
                p = mk("arr", *[inherit(x, nt) for x in p.a])
            return R.con("Value", k, nt, p)
        return split_value(R, v, f)

    def plain(v):
        def f(k, tt, p):
            if k == "Dict":
                es = M.map_items(p)
                p = M.EMPTYMAP
                for e in es:
                    p = M.minsert(p, e.a[0], plain(e.a[1]))
            elif k == "Array":
                p = mk("arr", *[plain(x) for x in p.a])
            return R.con("Value", k, dflt(R), p)
        return split_value(R, v, f)
    deep = R.con("Value", "Dict", SYM("t0"), M.minsert(one(R, STR("x"), R.con("Value", "Array", SYM("t1"), mk("arr", R.con("Value", "Char", SYM("t2"), SYM("c"))))),
                                                      STR("y"), R.con("Value", "Dict", SYM("t3"), one(R, STR("z"), R.con("Value", "Bool", SYM("t4"), SYM("b"))))))
    for vn, v in list(stored(R, t)) + [("deep", deep)]:
        if vn in ("Dict1k", "Num.USize", "Num.ISize"):
            continue
        for kind in ("cfg", "ref"):
            def go(vn=vn, v=v, kind=kind):
                e = R.ev(it, [deser(R, v, kind)], models=live(R))
                want = OK(inherit(v, None)) if kind == "cfg" else OK(plain(v))
                R.eq(f"roundtrip:{kind}:{vn}", it["span"], e.v, want)
            R.case(f"roundtrip:{kind}:{vn}", go)


# ------------------------------------------------- local deserializers, visitors and accesses talking to each other
DE_METHODS = ["deserialize_" + x for x in "any bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit "
              "unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any".split()] + ["is_human_readable"]


def strof(x):
    """the text a (serde-provided) string deserializer holds"""
    if x.op == "app" and ("into_deserializer" in x.a[0] or "StrDeserializer" in x.a[0]):
        return x.a[1]
    return None


def known_type(R, name):
    """last segment of a type name"""
    return name.split("::")[-1] if not name.endswith(">") else name.split("<")[0].split("::")[-1]


def live(R, hyp=None):
    """models under which serde's generic dispatch reaches the local implementations; hyp(type, deserializer) may
    answer a nested `Deserialize::deserialize` (induction hypothesis)"""
    m = {"unroll!": None}

    def impl(x, name, trait):
        if x.op != "adt":
            return None
        p = x.a[0]
        short = p.split("::")[-1]
        for it in R.F.items:
            if it["name"] != name or not it["trait"] or it["self"] is None:
                continue
            if it["trait"].split("<")[0].split("::")[-1] != trait:
                continue
            ty = R.F.types[it["self"]]
            if ty.get("adt") == p:
                return it
            if ty["k"] == "ref" and R.F.types[ty["of"]].get("adt") == p:
                return it
        return None

    def disp(trait, name):
        def f(eng, args, st, call):
            if call.fn.get("key"):
                return None
            x = eng.deref(st, args[0])
            if trait == "Deserializer" and strof(x) is not None and name != "is_human_readable":
                return disp("Visitor", "visit_str")(eng, [args[-1], strof(x)], st, call)
            it = impl(x, name, trait)
            if it is None:
                return None
            b = R.body(it)
            byref = R.F.types[b["locals"][1]]["k"] == "ref" and R.F.types[b["locals"][1]].get("mut")
            return eng.run_body(b, list(args) if byref or name == "is_human_readable" else [x] + list(args[1:]), st)
        return f

    def nexts(meth, seedmeth):
        def f(eng, args, st, call):
            if call.fn.get("key"):
                return None
            g = call.gargs()
            ty = eng.F.types[g[-1]].get("adt") or eng.F.tys(g[-1])
            return \
                disp(seedmeth[0], seedmeth[1])(eng, [args[0], APP("seed", STR(ty))], st, call)
        return f

    def seed(eng, args, st, call):
        if call.fn.get("key"):
            return None
        x = eng.deref(st, args[0])
        if x.op == "app" and x.a[0] == "seed":
            return read(eng, x.a[1].a[0], eng.deref(st, args[1]) if args[1].op == "mref" else args[1], st, call)
        return None

    def read(eng, full, de, st, call):
        s = strof(de)
        ty = known_type(R, full)
        if ty in ("String", "str") and s is not None:
            return OK(s), st
        if hyp is not None:
            r = hyp(eng, ty, de, st)
            if r is not None:
                return r
        its = [it for it in R.items("deserialize", ty) if it["trait"]]
        if len(its) > 1:
            its = [it for it in its if R.F.types[it["self"]].get("adt") == full]
        if len(its) == 1:
            return eng.run_body(R.body(its[0]), [de], st)
        return None

    def typ(eng, args, st, call):
        if call.fn.get("key"):
            return None
        g = call.gargs()
        x = eng.F.peel(g[0])
        return read(eng, eng.F.types[x].get("adt") or eng.F.tys(x), args[0], st, call)
    for p in SERDE:
        for n in DE_METHODS:
            m[p + "Deserializer::" + n] = disp("Deserializer", n)
        for v in VISITS:
            m[p + "Visitor::visit_" + v] = disp("Visitor", "visit_" + v)
        for n in ("next_key_seed", "next_value_seed"):
            m[p + "MapAccess::" + n] = disp("MapAccess", n)
        m[p + "SeqAccess::next_element_seed"] = disp("SeqAccess", "next_element_seed")
        for t_ in ("SeqAccess", "MapAccess"):
            m[p + t_ + "::size_hint"] = disp(t_, "size_hint")
        m[p + "MapAccess::next_key"] = nexts("next_key", ("MapAccess", "next_key_seed"))
        m[p + "MapAccess::next_value"] = nexts("next_value", ("MapAccess", "next_value_seed"))
        m[p + "SeqAccess::next_element"] = nexts("next_element", ("SeqAccess", "next_element_seed"))
        m[p + "DeserializeSeed::deserialize"] = seed
        m[p + "Deserialize::deserialize"] = typ
    for p in ("serde::", "serde_core::"):
        m[p + "Deserialize::deserialize"] = typ
    return m
