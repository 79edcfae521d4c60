"""C19, C26: what providers say of themselves, and how sources are shown."""
from rules_files import *

INTO = {"std::convert::Into::into": lambda eng, args, st, call: (args[0], st)}
ENVNAME = "environment variable(s)"
FORMATS = {"Toml": "TOML", "Yaml": "YAML", "Json": "JSON", "YamlExtended": "YAML Extended"}


def source_type(R):
    """the type of a metadata source"""
    t = dict(R.fields("Metadata"))["source"]
    if not t.startswith("std::option::Option<") or not t.endswith(">"):
        raise Missing("Metadata::source is not optional")
    return t[len("std::option::Option<"):-1]


def md_get(R, md, name): return proj(md, R.adt("Metadata"), 0, [n for n, _ in R.fields("Metadata")].index(name))


def restrings(n, alphabet):
    """sequences over an alphabet of names, up to renaming (a name is used only after the ones before it)"""
    if n == 0:
        return [[]]
    r = []
    for s in restrings(n - 1, alphabet):
        used = [a for a in alphabet if a in s]
        for a in alphabet[:len(used) + 1]:
            r.append(s + [a])
    return r


@rule("C19", "value-flow summary of the metadata of every built-in provider under every builder chain and directory layout, of the metadata builders, source "
      "conversions and accessors, and of path interpolation", 250, TRUSTED)
def C19(R):
    S = source_type(R)
    src = lambda v, x: ADT(S, R.vi(S, v), x)
    interp = R.fn("interpolate", "Metadata")
    n = dict(file=0, env=0, ser=0)
    ks = [SYM(f"k{i}") for i in range(6)]

    def notation(lab, where, md, keys):
        """the rendering of a path of 0 to 6 keys"""
        for m in range(7):
            pr = prof(R, SYM("pr"))
            got = R.ev(interp, [md, pr, mk("arr", *ks[:m])]).v
            R.eq(f"{lab}:{m}", where, got, keys(SYM("pr"), ks[:m]))
    dotted = lambda p, l: scat(p, STR("."), joinkeys(l))
    upper = lambda p, l: joinkeys([M.REAPP["upper"](x) for x in l])

    def scat(*xs): return M.scat(*xs)

    def joinkeys(l): return M.joined(mk("arr", *l), STR("."))

    def formats():
        seen = {}
        for c in R.F.raw["consts"]:
            if c["name"] == "NAME" and (c["trait"] or "").split("::")[-1].split("<")[0] == "Format":
                nm = R.F.types[c["self"]]["s"].split("::")[-1]
                seen[nm] = c.get("str")
                R.ob(f"format-name:{nm}", nm in FORMATS and c.get("str") == FORMATS[nm], c["span"], f"the format {nm} calls itself {c.get('str')!r}")
        R.ob("format-names", set(seen) == set(FORMATS), "src/providers/data.rs", f"formats named: {sorted(seen)}")
    R.case("formats", formats)

    data = R.fn("metadata", "Data", "Provider")
    b = {k: R.fn(k, "Data") for k in ("file", "string", "nested", "required", "search", "profile")}
    ops = {"required": [SYM("r")], "nested": [], "profile": [prof(R, SYM("P"))]}

    def chain(d, names, vals):
        for nm in names:
            d = R.ev(b[nm], [d] + vals[nm], models=INTO).v
        return d

    def named(v, suffix):
        """is the name of metadata v the name of the format followed by `suffix`"""
        x = md_get(R, v, "name")
        return x.op == "app" and x.a[0] == "scat" and len(x.a) == 3 and x.a[1].op == "app" and x.a[1].a[0].startswith("const:") \
            and x.a[1].a[0].endswith("Format::NAME") and x.a[2] is STR(suffix)

    def files():
        for rel, cwd in layouts(R.thorough):
            for search in (TRUE, FALSE):
                cs = candidates(rel, cwd, search is TRUE)
                for hi, have in enumerate(subsets(cs)):
                    others = [c + rel for c in ([ROOT],) if c + rel not in cs and rel[:1] != [ROOT]] if search is FALSE else []
                    m, known = file_models(R, rel, cwd, have + others)
                    path = next((c for c in cs if c in have), rel)
                    for extra in ([], ["required"], ["nested"], ["profile"]):
                        d = chain(R.ev(b["file"], [FPATH]).v, ["search"] + extra, {**ops, "search": [search]})
                        e = R.ev(data, [d], models=m)
                        v = canonpaths(e.v, known)
                        n["file"] += 1
                        sh = lambda c: "/".join(str(x.a[0]).strip("@/") for x in c)
                        lab = f"file:{sh(rel)}@{sh(cwd)}:{int(search is TRUE)}:{'.'.join(extra)}:{hi}"
                        R.eq(lab, data["span"], md_get(R, v, "source"), SOME(src("File", mkpath(path))))
                        R.ob(lab + ":name", named(v, " file"), data["span"], f"the metadata is called {cut(md_get(R, v, 'name'))}")
                        R.ob(lab + ":panics", not e.panics, data["span"], "naming the provider can panic")
        notation("file:notation", data["span"], v, dotted)
        for extra in itertools.chain.from_iterable(itertools.permutations(("required", "search", "nested", "profile"), k) for k in (0, 1, 2)):
            d = chain(R.ev(b["string"], [SYM("text")]).v, extra, {**ops, "search": [SYM("s")]})
            v = R.ev(data, [d]).v
            n["file"] += 1
            R.eq(f"string:{'.'.join(extra)}", data["span"], md_get(R, v, "source"), NONE)
            R.ob(f"string:{'.'.join(extra)}:name", named(v, " source string"), data["span"], f"the metadata is called {cut(md_get(R, v, 'name'))}")
        notation("string:notation", data["span"], v, dotted)
    R.case("files", files)

    def serialized():
        it = R.fn("metadata", "Serialized", "Provider")
        mk_ = {}
        for c in R.items("from", "Serialized") + R.items("defaults", "Serialized") + R.items("globals", "Serialized") \
                + R.items("global", "Serialized") + R.items("default", "Serialized"):
            if c["trait"] is None and c.get("key"):
                mk_[c["name"]] = R.ev(c, [SYM(f"a{i}") for i in range(len(c["inputs"]))], models=INTO).v
        R.floor("serialized constructors", len(mk_), 5)
        key, pro = R.fn("key", "Serialized"), R.fn("profile", "Serialized")
        for nm, d in mk_.items():
            for lab, x in (("", d), (".key", R.ev(key, [d, SYM("k")], models=INTO).v), (".profile", R.ev(pro, [d, prof(R, SYM("q"))], models=INTO).v)):
                n["ser"] += 1
                v = R.ev(it, [x]).v
                R.eq(f"serialized:{nm}{lab}:source", it["span"], md_get(R, v, "source"), SOME(src("Code", APP("Location::caller"))))
                R.eq(f"serialized:{nm}{lab}:name", it["span"], md_get(R, v, "name"), APP("type_name", STR("T")))
                notation(f"serialized:{nm}{lab}", it["span"], v, dotted)
    R.case("serialized", serialized)

    def env():
        it = R.fn("metadata", "Env", "Provider")
        new, chainers = {}, {}
        E_ = R.adt("Env")
        for x in R.F.items:
            if x["self"] is None or x["trait"] or not x.get("key") or not x.get("pub") or R.F.types[x["self"]].get("adt") != E_ or R.F.types[x["output"]].get("adt") != E_:
                continue
            ins = [R.F.types[i] for i in x["inputs"]]
            (chainers if ins and ins[0].get("adt") == E_ else new)[x["name"]] = x
        R.ob("env:constructors", set(new) == {"raw", "prefixed"}, it["span"], f"constructors: {sorted(new)}")
        R.floor("builders of environment providers", len(chainers), 8)

        def step(d, nm):
            x = chainers[nm]
            args = [SYM(f"{nm}{i}") for i in range(len(x["inputs"]) - 1)]
            return R.ev(x, [d] + args, models=INTO).v
        for c, want in (("raw", STR(ENVNAME)), ("prefixed", M.scat(STR("`"), M.REAPP["upper"](SYM("pf")), STR("` " + ENVNAME)))):
            d0 = R.ev(new[c], [SYM("pf")][:len(new[c]["inputs"])], models=INTO).v
            for m in range(3 if R.thorough else 2):
                for names in itertools.product(sorted(chainers), repeat=m):
                    d = d0
                    for nm in names:
                        d = step(d, nm)
                    v = R.ev(it, [d]).v
                    n["env"] += 1
                    lab = f"env:{c}:{'.'.join(names)}"
                    R.eq(lab + ":name", it["span"], md_get(R, v, "name"), want)
                    R.eq(lab + ":source", it["span"], md_get(R, v, "source"), NONE)
                    if m < 2:
                        notation(lab, it["span"], v, upper)
    R.case("env", env)

    def builders():
        B = {k: R.fn(k, "Metadata") for k in ("from", "named", "source", "interpolater")}
        fs = [f for f, _ in R.fields("Metadata")]
        base = R.struct("Metadata")
        dv = R.ev(R.fn("default", "Metadata", "Default"), []).v
        R.eq("default:name", B["named"]["span"], md_get(R, dv, "name"), STR("Default"))
        for f in ("source", "provide_location"):
            R.eq(f"default:{f}", B["named"]["span"], md_get(R, dv, f), NONE)
        notation("default", B["named"]["span"], dv, dotted)
        s = ADT(S, 0, SYM("s"))
        nm = R.ev(B["named"], [SYM("nm")], models=INTO).v
        fr = R.ev(B["from"], [SYM("nm"), s], models=INTO).v
        so = R.ev(B["source"], [base, s], models=INTO).v
        calls = {"std::ops::Fn::call": None}
        ip = R.ev(B["interpolater"], [base, SYM("f")], models=INTO).v
        for i, f in enumerate(fs):
            R.eq(f"named:{f}", B["named"]["span"], md_get(R, nm, f), SYM("nm") if f == "name" else md_get(R, dv, f))
            R.eq(f"from:{f}", B["from"]["span"], md_get(R, fr, f), SYM("nm") if f == "name" else SOME(s) if f == "source" else md_get(R, dv, f))
            R.eq(f"source:{f}", B["source"]["span"], md_get(R, so, f), SOME(s) if f == "source" else md_get(R, base, f))
            R.eq(f"interpolater:{f}", B["interpolater"]["span"], md_get(R, ip, f), SYM("f") if "Interpolator" in dict(R.fields("Metadata"))[f] else md_get(R, base, f))
        eq = R.fn("eq", "Metadata", "PartialEq")
        two = [ADT(R.adt("Metadata"), 0, *[SYM(f"{f}{j}") for f in fs]) for j in (1, 2)]
        got = asbool(R.ev(eq, two).v)
        R.eq("equality", eq["span"], got, gand(asbool(M.eqterm(SYM("name1"), SYM("name2"))), asbool(M.eqterm(SYM("source1"), SYM("source2")))))
    R.case("builders", builders)

    def sources():
        want = {"&std::path::Path": "File", "&'static std::panic::Location<'static>": "Code", "&str": "Custom", "std::string::String": "Custom"}
        conv = [x for x in R.F.items if x["name"] == "from" and x["self"] is not None and R.F.types[x["self"]].get("adt") == S and x.get("key")]
        import re
        def plain(t): return re.sub(r"&'\w+ ", "&", t).replace("<'static>", "").replace("<'_>", "")
        W = {plain(k): v for k, v in want.items()}
        for x in conv:
            t = plain(R.F.types[x["inputs"][0]]["s"])
            R.ob(f"source-from:{t}:known", t in W, x["span"], "a conversion into a source this analysis has no specification for")
            if t in W:
                R.eq(f"source-from:{t}", x["span"], R.ev(x, [SYM("x")], models={"std::convert::Into::into": lambda eng, args, st, call: (args[0], st)}).v, src(W[t], SYM("x")))
        R.floor("source conversions", len(conv), 4)
        for f, v in (("file_path", "File"), ("code_location", "Code"), ("custom", "Custom")):
            x = [i for i in R.F.items if i["name"] == f and i["self"] is not None and R.F.types[i["self"]].get("adt") == S][0]
            for k in R.variants(S):
                R.eq(f"{f}:{k}", x["span"], R.ev(x, [src(k, SYM("x"))]).v, SOME(SYM("x")) if k == v else NONE)
        disp = [i for i in R.items("fmt", None, "Display") if R.F.types[i["self"]].get("adt") == S][0]
        for k in ("Code", "Custom"):
            e = R.ev(disp, [src(k, SYM("x")), SYM("f")])
            out = e.out(1)
            ok = out.op == "app" and out.a[0] == "scat" and out.a[1] is SYM("f") and len(out.a) == 3 and \
                (out.a[2] is SYM("x") or out.a[2].op == "app" and out.a[2].a[0].startswith("display:") and out.a[2].a[1] is SYM("x"))
            R.ob(f"shown:{k}", ok, disp["span"], f"a source is shown as {cut(out)}")
        # the general rendering passes its arguments through
        md = R.struct("Metadata")
        e = R.ev(interp, [md, SYM("pr"), SYM("ks")])
        R.ob("interpolate", e.v.op == "app" and SYM("pr") in e.v.a and mentions(e.v, SYM("ks")), interp["span"], f"interpolation yields {cut(e.v)}")
    R.case("sources", sources)
    R.floor("file and string providers", n["file"], 150)
    R.floor("serialized providers", n["ser"], 15)
    R.floor("environment providers", n["env"], 18)


@rule("C26", "lexical evaluation of the rendering of a file source for every shape of path and working directory up to a bound (arbitrary names, every equality "
      "pattern): the shown path and the stored path resolve to the same file", 1500, TRUSTED)
def C26(R):
    S = source_type(R)
    disp = [i for i in R.items("fmt", None, "Display") if R.F.types[i["self"]].get("adt") == S]
    if len(disp) != 1:
        raise Missing("Display for the source of metadata")
    disp = disp[0]
    names = [SYM("@a"), SYM("@b"), SYM("@c"), SYM("@d")]
    n = dict(shown=0, shortened=0)
    NP = 6 if R.thorough else 5

    def show(lab, p, cwd, m, known):
        e = R.ev(disp, [ADT(S, R.vi(S, "File"), FPATH), SYM("f")], models=m)
        n["shown"] += 1
        out = canonpaths(e.out(1), known)
        x = out.a[2] if out.op == "app" and out.a[0] == "scat" and len(out.a) == 3 and out.a[1] is SYM("f") else None
        if x is not None and x.op == "app" and (x.a[0] == "lossy" or x.a[0].startswith("display:")):
            x = x.a[1]
        c = unpath(x, known) if x is not None else None
        R.ob(lab + ":total", not e.panics and not e.log, disp["span"], "rendering a source can panic or has effects")
        if c is None:
            R.ob(lab, False, disp["span"], f"a file is shown as {cut(out)}")
            return
        if cwd is None:
            R.ob(lab, c == p, disp["span"], f"a file is shown as {pp(c)} although the working directory is unknown")
            return
        a, b = resolve(cwd, c), resolve(cwd, p)
        n["shortened"] += c != p
        R.ob(lab, a == b, disp["span"], f"{pp(p)} is shown as {pp(c)} in {pp(cwd)}, where that denotes {pp(a)} rather than {pp(b)}")

    def pp(c): return "/".join("" if x is ROOT else str(x.a[0]).strip("@") for x in c) or "."

    def resolve(cwd, c): return lexical(c if c[:1] == [ROOT] else list(cwd) + list(c))

    for k in range(4):
        def cases(k=k):
            for d in restrings(k, names[:3]):
                cwd = [ROOT] + d
                used = [a for a in names if a in d]
                alpha = used + names[len(used):len(used) + 1]
                for m in range(1, NP + 1):
                    for cs in itertools.product(alpha + [PARENT], repeat=m):
                        for root in ([ROOT], []):
                            p = root + list(cs)
                            mo, known = file_models(R, p, cwd, [])
                            show(f"show:{pp(p)}@{pp(cwd)}", p, cwd, mo, known)
        R.case(f"shapes:{k}", cases)

    def failing():
        for p in ([ROOT, names[0]], [names[0], names[1]], [PARENT, names[0]]):
            mo, known = file_models(R, p, [ROOT], [])
            mo["std::env::current_dir"] = lambda eng, args, st, call: (ERR(SYM("io-error")), st)
            show(f"unknown-cwd:{pp(p)}", p, None, mo, known)
    R.case("unknown working directory", failing)

    diff, BASE, nd = R.fn("diff_paths"), SYM("base"), dict(n=0, some=0)

    def relative(cs):
        """dots resolved; a relative path may begin with parents"""
        out = []
        for c in cs:
            if c is CUR or c is PARENT and out[-1:] == [ROOT]:
                continue
            if c is PARENT and out and out[-1] is not PARENT:
                out.pop()
            else:
                out.append(c)
        return out

    def difference(lab, p, b):
        known = {FPATH: p, BASE: b}
        e = R.ev(diff, [FPATH, BASE], models=path_models(known))
        nd["n"] += 1
        v = canonpaths(e.v, known)
        R.ob(lab + ":total", not e.panics and not e.log, diff["span"], "computing a path difference can panic or has effects")
        if v is NONE:
            R.ob(lab, (p[:1] == [ROOT]) != (b[:1] == [ROOT]) or PARENT in b, diff["span"], f"{pp(p)} relative to {pp(b)} is not found")
            return
        c = unpath(v.a[2], known) if v.op == "adt" and v.a[:2] == SOME(UNIT).a[:2] else None
        if c is None:
            R.ob(lab, False, diff["span"], f"{pp(p)} relative to {pp(b)} is {cut(v)}")
            return
        nd["some"] += 1
        R.ob(lab + ":roots", (p[:1] == [ROOT]) == (b[:1] == [ROOT]), diff["span"], f"{pp(p)} relative to {pp(b)} is {pp(c)} although only one is absolute")
        got, want = relative(joined(list(b), list(c))), relative(p)
        R.ob(lab, got == want, diff["span"], f"{pp(p)} relative to {pp(b)} is {pp(c)}, which denotes {pp(got)} rather than {pp(want)}")

    ND = 4 if R.thorough else 3
    shapes = [[CUR] * dot + list(cs) for k in range(ND + 1) for cs in itertools.product(names[:3] + [PARENT], repeat=k) for dot in range(2)]

    def first(cs):
        """names appear in order"""
        seen = [c for i, c in enumerate(cs) if c in names and c not in cs[:i]]
        return seen == names[:len(seen)]

    for root in (True, False):
        for dot in range(2):
            def pairs(root=root, dot=dot):
                for b in shapes:
                    for p in shapes:
                        if len(b) + len(p) > ND + 2 or (b[:1] == [CUR]) != bool(dot) or not first(b + p):
                            continue
                        bb, q = ([ROOT] + [c for c in b if c is not CUR], [ROOT] + [c for c in p if c is not CUR]) if root else (b, p)
                        if root and (dot or p[:1] == [CUR]):
                            continue
                        difference(f"diff:{pp(q)}@{pp(bb)}", q, bb)
            R.case(f"differences:{root}:{dot}", pairs)

    def mixed():
        for b in shapes[:24]:
            for p in shapes[:24]:
                if not p or not b:
                    continue
                difference(f"diff:/{pp(p)}@{pp(b)}", [ROOT] + [c for c in p if c is not CUR], b)
                difference(f"diff:{pp(p)}@/{pp(b)}", p, [ROOT] + [c for c in b if c is not CUR])
    R.case("differences of mixed paths", mixed)
    R.floor("path differences", nd["n"], 800)
    R.floor("path differences found", nd["some"], 300)
    R.floor("renderings", n["shown"], 700)
    R.floor("shortened renderings", n["shortened"], 20)
