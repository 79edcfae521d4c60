"""C30: the helpers offered to users' serde implementations."""
from rules_ser import *

ERRS = ("serde::de::Error::", "serde_core::de::Error::")
UNEXP = {"str": "Str", "u64": "Unsigned", "u128": None, "i64": "Signed", "i128": None}
NUMVIS = {"u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"}


def last(n): return n.split("@")[0].split("::")[-1]


def refuses(t, x):
    """an error of the foreign kind that reports x"""
    return t.op == "adt" and t.a[:2] == (RESULT, 1) and t.a[2].op == "app" and last(t.a[2].a[0]) in ("invalid_value", "custom") and occurs(t.a[2], x)


def occurs(t, x):
    if t is x:
        return True
    return any(occurs(y, x) for y in t.a if type(y) is T) if type(t) is T else False


def wanted(n, x):
    """the boolean a visited x stands for, as an optional"""
    if n == "bool":
        return SOME(x)
    if n in NUMVIS:
        return select(M.eqterm(x, INT(0)), SOME(FALSE), select(M.eqterm(x, INT(1)), SOME(TRUE), NONE))
    if n in ("str", "string", "borrowed_str"):
        return select(M.cieq(x, STR("false")), SOME(FALSE), select(M.cieq(x, STR("true")), SOME(TRUE), NONE))
    return NONE


def asked(R, key, it, v, names):
    """the visitor handed to the deserializer"""
    ok = v.op == "app" and last(v.a[0]) in names and v.a[1] is SYM("de") and v.a[-1].op == "adt"
    R.ob(key + ":asks", ok, it["span"], f"asks the deserializer for {cut(v)}")
    if not ok:
        raise Missing("visitor of " + key)
    return v.a[-1]


class Entries:
    """a map access of n entries, its k-th answer failing if k < 2n+1"""

    def __init__(self, R, n, fail):
        self.R, self.n, self.fail = R, n, fail

    def take(self, eng, st, ref):
        x = eng.deref(st, ref)
        if x.op != "app" or x.a[0] != "entries":
            return None, st
        st = st.copy()
        i = x.a[1].a[0]
        eng.assign(st, ref, APP("entries", INT(i + 1)))
        return i, st

    def key(self, eng, st, ref):
        i, st = self.take(eng, st, ref)
        if i is None:
            return None
        if i == self.fail:
            return ERR(SYM("failure")), st
        if i % 2:
            raise Unsupported("a key is read where a value is due")
        return OK(SOME(SYM(f"k{i // 2}"))) if i < 2 * self.n else OK(NONE), st

    def value(self, eng, st, ref):
        i, st = self.take(eng, st, ref)
        if i is None:
            return None
        if i == self.fail:
            return ERR(SYM("failure")), st
        if not i % 2 or i > 2 * self.n:
            raise Unsupported("a value is read where a key is due")
        return OK(SYM(f"v{i // 2}")), st

    def models(self):
        def key(eng, args, st, call):
            return None if call.fn.get("key") else self.key(eng, st, args[0])

        def value(eng, args, st, call):
            return None if call.fn.get("key") else self.value(eng, st, args[0])

        def entry(eng, args, st, call):
            if call.fn.get("key"):
                return None
            r = self.key(eng, st, args[0])
            if r is None or r[0].a[1] == 1 or r[0].a[2] is NONE:
                return r
            k, st = r[0].a[2].a[2], r[1]
            r = self.value(eng, st, args[0])
            return r if r[0].a[1] == 1 else (OK(SOME(TUP(k, r[0].a[2]))), r[1])

        def hint(eng, args, st, call):
            return (SYM("hint"), st)
        m = {"unroll!": None}
        for p in SERDE:
            m[p + "MapAccess::next_entry"] = m[p + "MapAccess::next_entry_seed"] = entry
            m[p + "MapAccess::next_key"] = m[p + "MapAccess::next_key_seed"] = key
            m[p + "MapAccess::next_value"] = m[p + "MapAccess::next_value_seed"] = value
            m[p + "MapAccess::size_hint"] = hint
        return m


@rule("C30", "value-flow summary of every method of the boolean helper's visitor for arbitrary input, and of the tuple map helpers for maps of up to a bounded number "
      "of arbitrary entries with every position of a failure", 40, TRUSTED)
def C30(R):
    b = R.fn("bool_from_str_or_int")

    def norm(v):
        """the boolean as a choice between constants"""
        def f(l):
            if l.op != "adt" or l.a[:2] != (OPTION, 1) or l.a[2].op == "sym":
                return l
            return select(asbool(l.a[2]), SOME(TRUE), SOME(FALSE))
        return mapleaves(v, f)

    def boolean():
        vis = asked(R, "bool", b, R.ev(b, [SYM("de")]).v, ("deserialize_any",))
        ms = {n[6:]: i for n, i in R.methods(vis.a[0]).items() if n.startswith("visit_")}
        R.ob("bool:accepts", {"bool", "str", "u64", "i64"} <= set(ms), b["span"], f"only {sorted(ms)} are accepted")
        for n, i in ms.items():
            x = SYM("x")
            e = R.ev(i, [vis, x] if len(i["inputs"]) > 1 else [vis])
            R.ob(f"bool:{n}:total", not e.panics and not e.log, i["span"], "accepting a boolean can panic or has effects")
            v = mapleaves(e.v, lambda l: SOME(l.a[2]) if l.op == "adt" and l.a[:2] == (RESULT, 0) else NONE if refuses(l, x) else APP("neither", l))
            R.eq(f"bool:{n}", i["span"], norm(v), norm(wanted(n, x)))
    R.case("boolean", boolean)

    mods = {i["name"]: i for i in R.F.items if i["trait"] is None and "::vec_tuple_map::" in i["dpath"] and i["dpath"].count("::") == 3 and i["name"] in ("serialize", "deserialize")}
    if set(mods) != {"serialize", "deserialize"}:
        raise Missing("functions of vec_tuple_map")
    N = 4 if R.thorough else 3

    def reading():
        it = mods["deserialize"]
        vis = asked(R, "read", it, R.ev(it, [SYM("de")]).v, ("deserialize_map",))
        vm = R.methods(vis.a[0]).get("visit_map")
        if vm is None:
            raise Missing("visit_map of the tuple map visitor")
        R.ob("read:only-maps", not [n for n in R.methods(vis.a[0]) if n.startswith("visit_") and n != "visit_map"], vm["span"], "accepts more than maps")
        for n in range(N + 1):
            for fail in [None] + list(range(2 * n + 1)):
                e = R.ev(vm, [vis, APP("entries", INT(0))], models=Entries(R, n, fail).models())
                want = ERR(SYM("failure")) if fail is not None else OK(mk("arr", *[TUP(SYM(f"k{i}"), SYM(f"v{i}")) for i in range(n)]))
                R.eq(f"read:{n}:{fail}", vm["span"], e.v, want)
                R.ob(f"read:{n}:{fail}:total", not e.panics, vm["span"], "reading a map of tuples can panic")
    R.case("reading", reading)

    def writing():
        it = mods["serialize"]
        m = recorder(R)

        def whole(eng, args, st, call):
            if call.fn.get("key"):
                return None
            loc, s, ex = M.consume(eng, st, eng.deref(st, args[1]), mk("arr"), lambda s, l, x: (put(s, l, x), {}))
            if ex:
                raise Unsupported("entries that end early")
            return OK(APP("s:map", SYM("any"), s.mem[loc])), s

        def put(s, l, x):
            s = s.copy()
            s.mem[l] = M.lcat(s.mem[l], mk("arr", x))
            return s

        for p in SER:
            m[p + "Serializer::collect_map"] = whole
        for n in range(N + 1):
            es = mk("arr", *[TUP(SYM(f"k{i}"), SYM(f"v{i}")) for i in range(n)])
            e = R.ev(it, [es, SYM("S")], models=m)
            ok = e.v.op == "adt" and e.v.a[:2] == (RESULT, 0) and e.v.a[2].op == "app" and e.v.a[2].a[0] == "s:map"
            R.ob(f"write:{n}:map", ok, it["span"], f"tuples are written as {cut(e.v)}")
            if ok:
                R.eq(f"write:{n}", it["span"], e.v.a[2].a[2], es)
                R.ob(f"write:{n}:length", e.v.a[2].a[1] in (SYM("any"), NONE, SOME(INT(n))), it["span"], f"the announced length is {cut(e.v.a[2].a[1])}")
            R.ob(f"write:{n}:total", not e.panics, it["span"], "writing tuples can panic")
    R.case("writing", writing)
