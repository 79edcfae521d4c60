"""C15: which environment variables are used, under which keys."""
from rules_wrap import *

TRIM = "core::str::<impl str>::trim"


def drain(e):
    """everything the iterator returned by an evaluation yields"""
    def step(s, loc, x):
        s = s.copy()
        s.mem[loc] = mapleaves(s.mem[loc], lambda l: M.lcat(l, mk("arr", x)))
        return s, {}
    loc, s, ex = M.consume(e.eng, e.s, e.v, M.NIL, step)
    return s.mem[loc]


def env_list(l):
    f = lambda eng, args, st, call: (M.it_list(l), st)
    return {"std::env::vars_os": f}


def trim(x): return M.trimmed(x)


ELEM = SYM("~element")


def anyof(l, pred):
    """guard: pred holds of some element of the list"""
    return gate(mk("discr", APP("anyof", l, pred(ELEM)), (0, 1)), 1)


def anyify(t):
    """searches for an element with a property, in the canonical form of anyof"""
    def f(x):
        if x.op != "app" or x.a[0] != "find" or x.a[2].op != "bv" or len(x.a[3].a) != 1:
            return None
        src = x.a[1].a[1] if x.a[1].op == "app" and x.a[1].a[0] == "it:list" else x.a[1]
        return APP("anyof", src, asbool(subst(x.a[3].a[0], {mk("bv", x.a[2].a[0], "e"): ELEM})))
    return rewrite(t, f)


SPLIT = "core::str::<impl str>::split"


def overlay(a, b):
    """the later of two trees wins, dictionaries are merged"""
    if type(a) is dict and type(b) is dict:
        return {**a, **{k: overlay(a[k], v) if k in a else v for k, v in b.items()}}
    return b


def mkmap(R, d):
    m = M.EMPTYMAP
    for k, x in d.items():
        m = M.minsert(m, word("@" + k), mkval(R, x))
    return m


def mkval(R, x): return R.con("Value", "Dict", dflt(R), mkmap(R, x)) if type(x) is dict else x


def plain(eng, args, st, call):
    """names are text; values need not be"""
    x = M.D(eng, st, args[0])
    return (x if M.pieces(x) is not None else APP("lossy", x)), st


@rule("C15", "value-flow summary of the iterator of an environment provider over an arbitrary environment, for every chain of up to two builder calls on an arbitrary "
      "provider; and of the data of one, for environments of up to three variables", 600, TRUSTED)
def C15(R):
    it = R.fn("iter", "Env")
    data = R.fn("data", "Env", "Provider")
    b = lambda n: R.fn(n, "Env")
    into = lambda x, t: APP(f"std::convert::Into::into@{t}", x)
    n = dict(iter=0, data=0)

    def build(env, nm, *args):
        return R.ev(b(nm), [env, *args]).v

    # a step: (method, arguments, what becomes of a name: gate and new name)
    def steps(i):
        FN, PAT = SYM(f"fn{i}"), SYM(f"pat{i}")
        K = [SYM(f"k{i}{j}") for j in range(3)]
        KS = SYM(f"ks{i}")

        def among(x, ks):
            g = FALSE
            for k in ks:
                g = gor(g, M.cieq(k, x))
            return g
        listed = lambda x: anyof(KS, lambda k: M.cieq(k, x))
        r = [("filter", [FN], lambda x: (asbool(APP("call", FN, x)), x)),
             ("map", [FN], lambda x: (TRUE, APP("call", FN, x))),
             ("filter_map", [FN], lambda x: (M.is_some(APP("call", FN, x)), M.unsome(APP("call", FN, x)))),
             ("split", [PAT], lambda x: (TRUE, APP("std::str::<impl str>::replace", x, into(PAT, "P"), STR(".")))),
             ("ignore", [KS], lambda x: (gnot(listed(x)), x)),
             ("only", [KS], lambda x: (listed(x), x))]
        for m in (0, 1, 3):
            r.append((f"ignore", [mk("arr", *K[:m])], lambda x, m=m: (gnot(among(x, K[:m])), x)))
            r.append((f"only", [mk("arr", *K[:m])], lambda x, m=m: (among(x, K[:m]), x)))
        return r
    PRE, B, F0 = SYM("pre"), SYM("low"), SYM("f0")

    def prefixed(x):
        g = asbool(APP("uncased::UncasedStr::starts_with", x, PRE))
        return g, APP("slice", x, M.length(PRE), M.length(x))
    raw = lambda: R.ev(b("raw"), []).v
    PP = SYM("prof")
    bases = {"raw": (raw, [], TRUE, prof(R, DEFAULT)),
             "prefixed": (lambda: R.ev(b("prefixed"), [PRE]).v, [prefixed], TRUE, prof(R, DEFAULT)),
             "any": (lambda: build(build(build(raw(), "filter_map", F0), "lowercase", B), "profile", PP),
                     [lambda x: (M.is_some(APP("call", F0, x)), M.unsome(APP("call", F0, x)))], asbool(B), into(PP, "P"))}

    ENV = SYM("ENV")

    def spec(chain, low):
        """the keys and values an arbitrary environment gives"""
        def body(e):
            k, v = proj(e, "tuple", 0, 0), proj(e, "tuple", 0, 1)
            g, x = gnot(M.isempty(k)), trim(APP("lossy", k))
            for f in chain:
                g2, x = f(x)
                g = gand(g, g2)
            x = trim(x)
            g = gand(g, gnot(anyof(APP(SPLIT, x, INT(46)), M.isempty)))
            return select(g, mk("arr", TUP(select(low, M.REAPP["ci"](x), x), APP("lossy", v))), M.NIL)
        return M.lgen(M.it_list(ENV), body(mk("bv", 0, "e")), 0)

    def check(lab, env, chain, low, profile):
        n["iter"] += 1
        e = R.ev(it, [env], models=env_list(ENV))
        R.eq(lab, it["span"], anyify(drain(e)), spec(chain, low))
        R.ob(lab + ":panics", not e.panics, it["span"], "reading the environment can panic")
        R.eq(lab + ":profile", b("profile")["span"], proj(env, R.adt("Env"), 0, pidx), profile)
    pidx = R.fidx("Env", "profile")

    def chains():
        for bn, (mkb, chain, low, p) in bases.items():
            check(bn, mkb(), chain, low, p)
            for nm, args, f in steps(1):
                lab = f"{bn}.{nm}{'' if args[0].op != 'arr' else len(args[0].a)}"
                env = build(mkb(), nm, *args)
                check(lab, env, chain + [f], low, p)
                for nm2, args2, f2 in steps(2):
                    check(f"{lab}.{nm2}{'' if args2[0].op != 'arr' else len(args2[0].a)}", build(env, nm2, *args2), chain + [f, f2], low, p)
                # the settings are independent of the steps around them
                Q = SYM("q")
                check(f"{lab}.lowercase", build(env, "lowercase", SYM("b2")), chain + [f], asbool(SYM("b2")), p)
                check(f"{lab}.profile", build(env, "profile", Q), chain + [f], low, into(Q, "P"))
                check(f"{lab}.global", build(env, "global"), chain + [f], low, prof(R, GLOBAL))
                check(f"{bn}.lowercase.{lab}", build(build(mkb(), "lowercase", SYM("b2")), nm, *args), chain + [f], asbool(SYM("b2")), p)
                check(f"{bn}.global.{lab}", build(build(mkb(), "global"), nm, *args), chain + [f], low, prof(R, GLOBAL))
    R.case("chains", chains)

    strv = lambda i: R.con("Value", "String", dflt(R), SYM(f"s{i}"))
    fs = R.fn("from_str", "Value", "FromStr")
    S = strv
    DATA = {
        "none": [], "one": [("a", S(0))], "nested": [("a.b", S(0))], "deep": [("a.b.c", S(0))],
        "two": [("a", S(0)), ("b", S(1))], "again": [("a", S(0)), ("a", S(1))], "shared": [("a.b", S(0)), ("a.c", S(1))],
        "over": [("a.b", S(0)), ("a", S(1))], "under": [("a", S(0)), ("a.b", S(1))], "nested twice": [("a.b", S(0)), ("a.b", S(1))],
        "three": [("a", S(0)), ("a.b", S(1)), ("a.c", S(2))], "three more": [("a.b.c", S(0)), ("a.b.d", S(1)), ("a.e", S(2))],
        "dict": [("a", {"b": S(0)}), ("a.c", S(1))], "dict again": [("a.b", S(0)), ("a", {"b": S(1), "c": S(2)})],
        "four": [("a", S(0)), ("b", S(1)), ("c.d", S(2)), ("c.e", S(3))]}

    def datas():
        for lab, vs in DATA.items():
            names = [path(*["@" + s for s in k.split(".")]) for k, _ in vs]
            vals = {APP("lossy", SYM(f"v{i}")): mkval(R, x) for i, (_, x) in enumerate(vs)}
            env = mk("arr", *[TUP(k, SYM(f"v{i}")) for i, k in enumerate(names)])

            def parse(eng, args, st, call):
                x = M.D(eng, st, args[0])
                return (OK(vals[x]), st) if x in vals else None
            want = {}
            for i, (k, x) in enumerate(vs):
                for s in reversed(k.split(".")):
                    x = {s: x}
                want = overlay(want, x)
            for pl, mkb, p in (("default", lambda: raw(), prof(R, DEFAULT)), ("global", lambda: build(raw(), "global"), prof(R, GLOBAL)),
                               ("any", lambda: build(raw(), "profile", PP), into(PP, "P"))):
                n["data"] += 1
                recv = build(mkb(), "lowercase", FALSE)
                same = lambda eng, args, st, call: (M.D(eng, st, args[0]), st)
                e = R.ev(data, [recv], models={**env_list(env), "std::str::FromStr::from_str": parse, "std::ffi::OsStr::to_string_lossy": plain, TRIM: same})
                R.eq(f"data:{lab}:{pl}", data["span"], e.v, OK(one(R, p, mkmap(R, want))))
                R.ob(f"data:{lab}:{pl}:panics", not e.panics, data["span"], f"reading the variables can panic: {e.panics}")
    R.case("data", datas)

    KEY, D = SYM("key"), SYM("d")

    def single(vs):
        want = NONE
        for k, v in reversed(vs):
            want = select(M.cieq(M.trimmed(APP("lossy", k)), KEY), SOME(M.trimmed(APP("lossy", v))), want)
        vs = mk("arr", *[TUP(k, v) for k, v in vs])
        m = len(vs.a)
        e = R.ev(b("var"), [KEY], models=env_list(vs))
        R.eq(f"var:{m}", b("var")["span"], e.v, want)
        R.ob(f"var:{m}:panics", not e.panics, b("var")["span"], "can panic")
        e = R.ev(b("var_or"), [KEY, D], models=env_list(vs))
        strip = lambda x: x.a[1] if x.op == "app" and "Into::into" in x.a[0] else x
        R.eq(f"var_or:{m}", b("var_or")["span"], mapleaves(e.v, strip), mapleaves(want, lambda x: D if x is NONE else x.a[2]))
    for m in range(5):
        R.case(f"var:{m}", lambda m=m: single([(SYM(f"n{i}"), SYM(f"v{i}")) for i in range(m)]))
    R.floor("chains of builder calls", n["iter"], 490)
    R.floor("environments", n["data"], 45)
