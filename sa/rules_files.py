"""C17, C19: file providers, and what providers say of themselves."""
from lib import *
from rules import rule
from rules_core import *
from rules_view import *
from rules_prov import *
from rules_de import *
from rules_ser import *
from rules_misc import *
from rules_jail import *
from paths import *
import itertools

FPATH, READ = SYM("file"), "providers::data::Format::from_path@F"


def isfmt(it): return (it["trait"] or "").split("<")[0].split("::")[-1] == "Format"


def file_models(R, rel, cwd, exists):
    """a working directory, and a set of files (as component lists) that exist"""
    known = {FPATH: rel, SYM("cwd"): cwd}
    have = {tuple(x) for x in exists}

    def isfile(eng, args, st, call):
        c = unpath(M.D(eng, st, args[0]), known)
        return None if c is None else (TRUE if tuple(c) in have else FALSE, st)

    def getcwd(eng, args, st, call): return OK(SYM("cwd")), st
    m = path_models(known)
    m.update({"std::env::current_dir": getcwd, "std::path::Path::is_file": isfile})
    return m, known


def candidates(rel, cwd, search):
    """where a file provider looks, in order"""
    if rel[:1] == [ROOT] or not search:
        return [rel]
    r = []
    c = list(cwd)
    while True:
        r.append(c + rel)
        if len(c) <= 1:
            return r
        c = c[:-1]


def layouts(thorough):
    """(path, working directory) shapes"""
    A, B, X, Y = SYM("@a"), SYM("@b"), SYM("@x"), SYM("@y")
    C = SYM("@c")
    rels = [[X], [X, Y], [X, Y, A], [PARENT, X], [ROOT, X], [ROOT, A, X], [CUR, X]] + ([[X, PARENT, Y], [ROOT, A, B, X]] if thorough else [])
    for rel in rels:
        for d in ([], [A], [A, B], [A, B, C])[: 4 if thorough else 3 if len(rel) > 1 else 4]:
            yield rel, [ROOT] + d


def subsets(cs):
    """sets of existing files among the candidates (and files nobody asked for)"""
    for k in range(len(cs) + 1):
        for t in itertools.combinations(cs, k):
            yield list(t)


def canonpaths(t, known, memo=None):
    """t with every path in canonical form"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    if t.op == "app" and t.a[0] in ("pathpush", "path") or t in known:
        c = unpath(t, known)
        if c is not None:
            memo[t] = mkpath(c)
            return memo[t]
    r = rebuild(t, lambda x: canonpaths(x, known, memo)) if t.op not in ("sym", "bv", "int", "str") else t
    memo[t] = r
    return r


def mentions(t, x):
    """does x occur in t"""
    seen, st = set(), [t]
    while st:
        y = st.pop()
        if y is x:
            return True
        if type(y) is not T or y in seen:
            continue
        seen.add(y)
        for z in y.a:
            if type(z) is T:
                st.append(z)
            elif type(z) is tuple:
                st += [w for w in z if type(w) is T]
    return False


@rule("C17", "value-flow summary of every builder chain and of loading a file provider, for every combination of settings, path shape, working directory "
      "depth and set of existing files; and of every format's parser and file reader under failing steps", 400, TRUSTED)
def C17(R):
    data, n = R.fn("data", "Data", "Provider"), dict(chain=0, load=0, fmt=0)
    b = {k: R.fn(k, "Data") for k in ("file", "string", "nested", "required", "search", "profile")}
    r, s, P = SYM("r"), SYM("s"), SYM("P")
    ops = {"required": [r], "search": [s], "nested": [], "profile": [prof(R, SYM("P"))]}
    into = {"std::convert::Into::into": lambda eng, args, st, call: (args[0], st)}

    def chain(start, names, vals=ops):
        d = start
        for nm in names:
            d = R.ev(b[nm], [d] + vals[nm], models=into).v
        return d
    starts = {"file": R.ev(b["file"], [FPATH]).v, "string": R.ev(b["string"], [SYM("text")]).v}

    def builders():
        for k, st in starts.items():
            for m in range(1, 5):
                for names in itertools.permutations(ops, m):
                    last = [x for x in names if x in ("nested", "profile")]
                    normal = [x for x in ("required", "search") if x in names] + last[-1:]
                    if list(names) == normal:
                        continue
                    n["chain"] += 1
                    R.eq(f"chain:{k}:{'.'.join(names)}", b[names[-1]]["span"], chain(st, names), chain(st, normal))
            for nm in ("required", "search", "profile"):
                other = dict(ops)
                other[nm] = [SYM("q")] if nm != "profile" else [prof(R, SYM("q"))]
                n["chain"] += 1
                R.eq(f"again:{k}:{nm}", b[nm]["span"], chain(chain(st, [nm], other), [nm]), chain(st, [nm]))
        for nm in ("required", "search"):
            R.eq(f"text:{nm}", b[nm]["span"], chain(starts["string"], [nm]), starts["string"])
        for nm in ("file", "string"):
            for it in R.items(nm):
                if it["path"] != b[nm]["path"] and isfmt(it) and it.get("key"):
                    n["chain"] += 1
                    a = FPATH if nm == "file" else SYM("text")
                    R.eq(f"via-format:{nm}", it["span"], R.ev(it, [a]).v, starts[nm])
        for it in R.items("file_exact"):
            if it.get("key"):
                n["chain"] += 1
                R.eq(f"exact:{it['path']}", it["span"], R.ev(it, [FPATH]).v, chain(starts["file"], ["search"], {"search": [FALSE]}))
    R.case("builders", builders)

    def profs():
        return (("default", [], prof(R, "default")), ("profile", ["profile"], prof(R, P)), ("nested", ["nested"], None))

    def payload(v, got):
        """the value of a successful load"""
        return M.mapleaves(v, lambda x: x.a[2] if x.op == "adt" and x.a[:2] == (RESULT, 0) else unok(x) if x is got else x)

    def load(d, m, known, lab, path, pf, required):
        e = R.ev(data, [d], models=m)
        n["load"] += 1
        v = canonpaths(e.v, known)
        if path is None:
            if required:
                ok = v.op == "adt" and v.a[1] == 1
                R.ob(lab, ok, data["span"], f"a missing required file is not an error: {cut(v)}")
                if ok:
                    er = v.a[2]
                    k = errget(R, er, "kind")
                    R.ob(lab + ":names-file", k.op == "adt" and mentions(k, APP("lossy", mkpath(known[FPATH]))), data["span"], f"the error does not name the file: {cut(k)}")
            else:
                R.eq(lab, data["span"], v, OK(M.EMPTYMAP))
            return
        got = APP(READ, mkpath(path))
        val = unok(got)
        want = val if pf is None else one(R, pf, val)
        g = M.gate(mk("discr", got, (0, 1)), 0)
        R.eq(lab + ":contents", data["span"], payload(cofactor(v, g), got), want)
        bad = cofactor(v, gnot(g))
        good = bad.op == "adt" and bad.a[1] == 1
        R.ob(lab + ":unreadable", good, data["span"], f"an unreadable source is not an error: {cut(bad)}")
        if good:
            k = errget(R, bad.a[2], "kind")
            msg = k.a[2] if k.op == "adt" and k.a[1] == R.vi("Kind", "Message") else None
            R.ob(lab + ":why", msg is not None and mentions(msg, proj(got, RESULT, 1, 0)), data["span"], f"the error hides the failure: {cut(k)}")
        R.ob(lab + ":panics", not e.panics, data["span"], "loading can panic")

    def files():
        for rel, cwd in layouts(R.thorough):
            for search in (TRUE, FALSE):
                cs = candidates(rel, cwd, search is TRUE)
                for hi, have in enumerate(subsets(cs)):
                    others = [c + rel for c in ([ROOT],) if c + rel not in cs and rel[:1] != [ROOT]] if search is FALSE else []
                    m, known = file_models(R, rel, cwd, have + others)
                    path = next((c for c in cs if c in have), None)
                    for required in (TRUE, FALSE):
                        for pl, pops, pf in profs():
                            d = chain(starts["file"], ["search", "required"] + pops, {**ops, "search": [search], "required": [required]})
                            sh = lambda c: "/".join(str(x.a[0]).strip("@/") for x in c)
                            load(d, m, known, f"load:{sh(rel)}@{sh(cwd)}:{int(search is TRUE)}{int(required is TRUE)}:{pl}:{hi}:{sh(path) if path else '-'}",
                                 path, pf, required is TRUE)
            # the settings of a fresh file provider: optional, searching
            m, known = file_models(R, rel, cwd, [])
            load(starts["file"], m, known, f"fresh:{len(rel)}:{len(cwd)}", None, prof(R, "default"), False)
            if rel[:1] != [ROOT]:
                cs = candidates(rel, cwd, True)
                m, known = file_models(R, rel, cwd, cs[-1:])
                load(starts["file"], m, known, f"fresh-found:{len(rel)}:{len(cwd)}:{rel[0]}", cs[-1], prof(R, "default"), False)
    R.case("files", files)

    def strings():
        for pl, pops, pf in profs():
            d = chain(starts["string"], pops)
            e = R.ev(data, [d])
            n["load"] += 1
            got = APP("providers::data::Format::from_str@F", SYM("text"))
            val = unok(got)
            g = M.gate(mk("discr", got, (0, 1)), 0)
            R.eq(f"string:{pl}", data["span"], payload(cofactor(e.v, g), got), val if pf is None else one(R, pf, val))
            bad = cofactor(e.v, gnot(g))
            k = errget(R, bad.a[2], "kind") if bad.op == "adt" and bad.a[1] == 1 else None
            R.ob(f"string:{pl}:malformed", k is not None and k.op == "adt" and k.a[1] == R.vi("Kind", "Message") and mentions(k, proj(got, RESULT, 1, 0)), data["span"],
                 f"a malformed source is not an error: {cut(bad)}")
            R.ob(f"string:{pl}:panics", not e.panics and not e.log, data["span"], "loading a string has effects or can panic")
    R.case("strings", strings)

    PARSERS = {"Toml": "toml_edit::de::from_str", "Yaml": "serde_yaml::from_str", "Json": "serde_json::from_str"}

    def formats():
        text = SYM("text")
        for it in R.items("from_str"):
            if not isfmt(it) or not it.get("key"):
                continue
            n["fmt"] += 1
            nm = R.selfname(it)
            e = R.ev(it, [text])
            if nm in PARSERS:
                R.eq(f"format:{nm}", it["span"], e.v, APP(PARSERS[nm], text))
            elif nm == "YamlExtended":
                p = APP("serde_yaml::from_str", text)
                am = APP("serde_yaml::Value::apply_merge", unok(p))
                val = APP("serde_yaml::Value::apply_merge!0", unok(p))
                g1, g2 = M.gate(mk("discr", p, (0, 1)), 0), M.gate(mk("discr", am, (0, 1)), 0)
                v = e.v
                R.eq(f"format:{nm}", it["span"], cofactor(v, gand(g1, g2)), APP("serde::Deserialize::deserialize@T", val))
                for l, g, x in (("parse", gnot(g1), p), ("merge", gand(g1, gnot(g2)), am)):
                    y = cofactor(v, g)
                    R.ob(f"format:{nm}:{l}", y is cofactor(x, g) or y.op == "adt" and y.a[1] == 1 and y.a[2] is proj(x, RESULT, 1, 0), it["span"], f"a failure is not passed on: {cut(y)}")
            else:
                R.ob(f"format:{nm}", False, it["span"], "a format this analysis has no specification for")
            R.ob(f"format:{nm}:effects", not e.log and not e.panics, it["span"], "parsing has effects or can panic")
        for it in R.items("from_path"):
            if not isfmt(it) or not it.get("key"):
                continue
            for good in (True, False):
                n["fmt"] += 1
                def read(eng, args, st, call):
                    eng.log(st, APP("fs.read", M.D(eng, st, args[0])))
                    return (OK(text) if good else ERR(SYM("io-error"))), st
                e = R.ev(it, [FPATH], models={"std::fs::read_to_string": read})
                R.ob(f"reader:{it['path']}:reads", [x.a for x in e.log] == [("fs.read", FPATH)], it["span"], f"does not read exactly the file: {[cut(x) for x in e.log]}")
                if good:
                    R.ob(f"reader:{it['path']}", e.v.op == "app" and "from_str" in e.v.a[0] and e.v.a[1:] == (text,), it["span"], f"the contents are not parsed as they are: {cut(e.v)}")
                else:
                    R.ob(f"reader:{it['path']}:unreadable", e.v.op == "adt" and e.v.a[1] == 1, it["span"], f"a file that cannot be read is not an error: {cut(e.v)}")
    R.case("formats", formats)
    R.floor("builder chains", n["chain"], 100)
    R.floor("loads", n["load"], 300)
    R.floor("formats", n["fmt"], 6)
