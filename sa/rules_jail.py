"""C21, C22: the test jail."""
from lib import *
from rules import rule
from rules_core import *
from rules_view import *
from rules_prov import *
from rules_de import *
from rules_ser import *
from rules_misc import *

ENV, CWD = "ENVIRONMENT", "WORKDIR"
SAVED = ADTNAME = None


def world(vars_=(), fail=None, unwinds=False, inside=None):
    """models of the process state: an environment, a working directory and a log of effects.
    vars_: the variables an enumeration of the environment yields; fail: the operation that fails"""
    def outcome(name, eng, st, ok, err="io-error"):
        st = st.copy()
        n = name
        eng.log(st, APP(n))
        return (OK(ok) if fail != name else ERR(SYM(err))), st

    def get(eng, args, st, call):
        k = M.D(eng, st, args[0])
        return M.mget(st.mem[ENV], k), st

    def set_(eng, args, st, call):
        st = st.copy()
        k, v = M.D(eng, st, args[0]), M.D(eng, st, args[1])
        st.mem[ENV] = M.minsert(st.mem[ENV], k, v)
        return UNIT, st

    def rem(eng, args, st, call):
        st = st.copy()
        k = M.D(eng, st, args[0])
        st.mem[ENV] = M.mdelete(st.mem[ENV], k)
        return UNIT, st

    def allv(eng, args, st, call):
        return M.it_list(mk("arr", *[TUP(k, v) for k, v in vars_])), st

    def cwd(eng, args, st, call):
        v, s = outcome("cwd.get", eng, st, st.mem[CWD])
        return v, s

    def chdir(eng, args, st, call):
        p = M.D(eng, st, args[0])
        if fail == "cwd.set":
            return outcome("cwd.set", eng, st, UNIT)
        v, s = outcome("cwd.set", eng, st, UNIT)
        s.mem[CWD] = p
        if fail is None:
            return v, s
        return v, s

    def tmp(eng, args, st, call):
        return outcome("tmp.new", eng, st, SYM("tempdir"))

    def lock(eng, args, st, call):
        st = st.copy()
        l = M.D(eng, st, args[0])
        eng.log(st, APP("lock", l))
        return APP("guard", l), st

    def canon(eng, args, st, call):
        p = M.D(eng, st, args[0])
        return (OK(APP("canonical", p)) if fail != "canonicalize" else ERR(SYM("io-error"))), st

    def run(eng, args, st, call):
        f = M.D(eng, st, args[0])
        if f is not SYM("closure"):
            return None
        st = st.copy()
        a = args[1]
        if a.op == "tup":
            a = a.a[0]
        j = M.D(eng, st, a)
        eng.log(st, APP("closure", j, st.mem[ENV], st.mem[CWD]))
        new = inside(j)
        eng.assign(st, a, new[0])
        st.mem[ENV], st.mem[CWD] = new[1], new[2]
        if unwinds:
            st.mem[E.UNW] = INT(1)
            return UNIT, st
        return SYM("result"), st
    def dropped(eng, st, adt, v):
        eng.log(st, APP("drop:" + adt, v, st.mem[ENV], st.mem[CWD]))
    m = {"drop!": dropped, "std::env::var_os": get, "std::env::set_var": set_, "std::env::remove_var": rem, "std::env::vars_os": allv,
         "std::env::current_dir": cwd, "std::env::set_current_dir": chdir, "tempfile::TempDir::new": tmp, "std::path::Path::canonicalize": canon,
         "parking_lot::lock_api::Mutex::lock": lock, "tempfile::TempDir::path": lambda eng, args, st, call: (APP("dirpath", M.D(eng, st, args[0])), st)}
    for n in ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call"):
        m[n] = run
    return m


def start(env=None, cwd=None):
    def f(eng, st):
        st.mem[ENV] = SYM("env0") if env is None else env
        st.mem[CWD] = SYM("cwd0") if cwd is None else cwd
    return f


def opt(x):
    """an optional value as a diagram of its cases"""
    return M.simp_guarded(select(M.is_some(x), APP("present", M.unsome(x)), APP("absent")))


def restored(env, saved, q):
    """what leaving the jail now makes of the variable q"""
    v = M.mget(saved, q)
    return M.simp_guarded(select(M.is_some(v), opt(M.unsome(v)), opt(M.mget(env, q))))


def jail_fields(R):
    f = dict(saved=R.fidx("Jail", ty=lambda t: "HashMap" in t or "BTreeMap" in t), tmp=R.fidx("Jail", ty=lambda t: "TempDir" in t))
    return f


def jail(R, **kw):
    """a jail; fields by role"""
    F = jail_fields(R)
    fs = [SYM(f"jail{i}") for i, _ in enumerate(R.fields("Jail"))]
    for k, v in kw.items():
        fs[F[k]] = v
    return ADT(R.adt("Jail"), 0, *fs)


def callers(R, names):
    """local functions that call one of the named functions"""
    r = {}
    for b in R.F.bodies.values():
        if not b["local"]:
            continue
        for bl in b["blocks"]:
            t = bl["t"]
            if t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1]:
                n = E.norm(t[1][1]["fn"].get("decl", ""))
                if n in names:
                    r.setdefault(b["dpath"], []).append((n, t[6]))
    return r


WRITES = ("std::env::set_var", "std::env::remove_var", "std::env::set_current_dir")


@rule("C21", "effect summary of every jail operation and of leaving the jail, over a symbolic environment: each operation preserves what leaving would restore, "
      "leaving restores it, and every normal and unwinding exit of running a jail ends with the lock released last", 40, TRUSTED)
def C21(R):
    Jp = R.adt("Jail")
    jf = jail_fields(R)
    dropit = R.fn("drop", "Jail", "Drop")
    n = dict(op=0, drop=0, exit=0)
    visited = set()
    A = [SYM(f"@{c}") for c in "ABC"]

    # leaving: every saved variable is put back, everything else kept, the directory restored
    cwdf = {}

    def leave():
        e = R.ev(dropit, [jail(R, saved=M.EMPTYMAP)], models=world(), setup=start())
        c = [i for i, _ in enumerate(R.fields("Jail")) if SYM(f"jail{i}") is e.s.mem[CWD]]
        R.ob("leave:directory", len(c) == 1, dropit["span"], "leaving the jail does not restore a directory it saved")
        if c:
            cwdf["i"] = c[0]
        for k in range(4):
            for mask in range(3 ** k):
                saved = M.EMPTYMAP
                m = mask
                for i in range(k):
                    saved = M.minsert(saved, A[i], [SOME(SYM(f"old{i}")), NONE, SYM(f"opt{i}")][m % 3])
                    m //= 3
                for fail in (None, "cwd.set"):
                    if k > 2 and fail:
                        continue
                    e = R.ev(dropit, [jail(R, saved=saved)], models=world(fail=fail), setup=start())
                    visited.update(R.functions)
                    n["drop"] += 1
                    lab = f"leave:{k}:{mask}" + (":baddir" if fail else "")
                    R.ob(lab + ":quiet", not e.panics, dropit["span"], f"leaving the jail can panic: {e.panics[:1]}")
                    for q in A[:k] + [SYM("@other")]:
                        R.eq(f"{lab}:{q}", dropit["span"], opt(M.mget(e.s.mem[ENV], q)), restored(SYM("env0"), saved, q))
                    if not fail:
                        R.eq(lab + ":directory", dropit["span"], e.s.mem[CWD], SYM(f"jail{cwdf['i']}"))
    R.case("leave", leave)

    # operations
    def op(it):
        b = R.body(it)
        args = [SYM(f"arg{i}") for i in range(b["argc"] - 1)]
        K = args[0] if args else None
        envs = [(SYM("env0"), (), [SYM("@Q")])]
        if callers(R, ("std::env::vars_os", "std::env::vars")).get(b["dpath"]):
            envs = []
            for k in range(4):
                ev = M.EMPTYMAP
                for i in range(k):
                    ev = M.minsert(ev, A[i], SYM(f"v{i}"))
                envs.append((ev, [(A[i], SYM(f"v{i}")) for i in range(k)], A[:k] + [SYM("@Q")]))
        for env, vs, qs in envs:
            for a0 in ([K, SYM("@K")] if K is not None else [None]):
                aa = ([a0] if a0 is not None else []) + args[1:]
                for q in qs + ([a0] if a0 is not None else []):
                    if a0 is K and K is not None and q is not K:
                        continue        # the key itself, or two different keys
                    j0 = jail(R, saved=SYM("saved"))
                    e = R.ev(it, [j0] + aa, models=world(vars_=vs), setup=start(env=env))
                    if e.s is None:
                        R.ob(f"{it['name']}:returns", False, it["span"], "never returns")
                        continue
                    visited.update(R.functions)
                    n["op"] += 1
                    j1 = e.out(0) if 0 in e.refs else j0
                    lab = f"{it['name']}:{len(vs)}:{a0}:{q}"
                    for f, _ in enumerate(R.fields("Jail")):
                        if f != jf["saved"]:
                            R.eq(f"{lab}:field{f}", it["span"], proj(j1, Jp, 0, f), proj(j0, Jp, 0, f))
                    R.eq(lab, it["span"], restored(e.s.mem[ENV], proj(j1, Jp, 0, jf["saved"]), q), restored(env, SYM("saved"), q))
                    if it["name"] == "set_env" and q is a0:
                        R.eq(lab + ":set", it["span"], opt(M.mget(e.s.mem[ENV], q)), APP("present", APP("display:V", aa[1])))
                    if it["name"] == "clear_env":
                        R.eq(lab + ":cleared", it["span"], opt(M.mget(e.s.mem[ENV], q)), APP("absent"))
    ops = []
    for it in R.F.items:
        if it["self"] is None or it["impl_trait"] or R.F.types[it["self"]].get("adt") != Jp or it.get("key") is None:
            continue
        b = R.body(it)
        if b["argc"] == 0:
            continue
        t = R.F.types[b["locals"][1]]
        if t["k"] == "ref" and R.F.types[t["of"]].get("adt") == Jp:
            ops.append(it)
            R.case(f"op:{it['name']}", op, it)
        elif t.get("adt") == Jp:
            R.ob(f"op:{it['name']}", False, it["span"], "a method that consumes the jail has no specification")

    # running: every exit
    tw = R.fn("try_with", "Jail")
    S1, E1, C1 = M.EMPTYMAP, None, SYM("cwd1")

    def inside(j):
        # the closure did any operations: anything consistent with what they preserve
        env0 = SYM("env0")
        saved = M.minsert(M.minsert(M.EMPTYMAP, A[0], M.mget(env0, A[0])), A[1], M.mget(env0, A[1]))
        env1 = M.minsert(M.mdelete(env0, A[1]), A[0], SYM("changed"))
        fs = list(j.a[2:]) if j.op == "adt" else None
        if fs is None:
            raise Unsupported("the closure is not given a jail")
        fs[jf["saved"]] = saved
        return ADT(Jp, 0, *fs), env1, C1

    def evname(x): return x.a[0]

    def leaves(entry, how, fail=None, unwinds=False):
        e = R.ev(entry, [SYM("closure")], models=world(fail=fail, unwinds=unwinds, inside=inside), setup=start())
        n["exit"] += 1
        lab = f"exit:{entry['name']}:{how}"
        if e.s is None:
            return e, None
        lg = list(reversed(e.log))
        names = [evname(x) for x in lg]
        shared = [x for x in names if x in ("lock", "cwd.get", "cwd.set", "closure")]
        R.ob(lab + ":lock-first", shared[:1] == ["lock"] or fail == "tmp.new" and not shared, entry["span"], f"touches the process state before taking the lock: {names}")
        guard = [i for i, x in enumerate(lg) if evname(x).startswith("drop:") and "Guard" in evname(x)]
        R.ob(lab + ":lock-last", guard == [len(lg) - 1] or "lock" not in names and fail == "tmp.new", entry["span"], f"the lock is not released last, once: {names}")
        dirs = [i for i, x in enumerate(lg) if evname(x) == "drop:tempfile::TempDir"]
        for i in guard:
            for q in A[:2] + [SYM("@other")]:
                R.eq(f"{lab}:before-unlock:{q}", entry["span"], opt(M.mget(lg[i].a[2], q)), opt(M.mget(SYM("env0"), q)))
            R.eq(f"{lab}:before-unlock:directory", entry["span"], lg[i].a[3], SYM("cwd0"))
        want = 0 if fail == "tmp.new" else 1
        R.ob(lab + ":removed", len(dirs) == want, entry["span"], f"the directory is removed {len(dirs)} times")
        for q in A[:2] + [SYM("@other")]:
            R.eq(f"{lab}:{q}", entry["span"], opt(M.mget(e.s.mem[ENV], q)), opt(M.mget(SYM("env0"), q)))
        R.eq(lab + ":directory", entry["span"], e.s.mem[CWD], SYM("cwd0"))
        if fail is None:
            run = [x for x in lg if evname(x) == "closure"]
            R.ob(lab + ":runs-once", len(run) == 1, entry["span"], f"the closure runs {len(run)} times")
            for x in run:
                j = x.a[1]
                R.eq(lab + ":saved-directory", entry["span"], proj(j, Jp, 0, cwdf["i"]), SYM("cwd0"))
                R.eq(lab + ":saved-nothing", entry["span"], proj(j, Jp, 0, jf["saved"]), M.EMPTYMAP)
                R.eq(lab + ":own-directory", entry["span"], proj(j, Jp, 0, jf["tmp"]), SYM("tempdir"))
                R.eq(lab + ":environment-kept", entry["span"], x.a[2], SYM("env0"))
                R.eq(lab + ":inside", entry["span"], x.a[3], R.ev(R.fn("directory", "Jail"), [j]).v)
        return e, lg

    def exits():
        e, _ = leaves(tw, "returns")
        R.eq("result", tw["span"], e.v, SYM("result"))
        visited.update(R.functions)
        e, _ = leaves(tw, "panics", unwinds=True)
        R.ob("panic-propagates", e.s is not None and e.s.mem.get(E.UNW) is INT(1), tw["span"], "a panic of the closure is swallowed")
        for f in ("tmp.new", "canonicalize", "cwd.get", "cwd.set"):
            e, _ = leaves(tw, f"no-{f}", fail=f)
            R.ob(f"failure:{f}", e.v.op == "adt" and e.v.a[1] == 1, tw["span"], f"a failure to set up is not reported: {cut(e.v)}")
        ew = R.fn("expect_with", "Jail")
        e, _ = leaves(ew, "panics", unwinds=True)
    R.case("exits", exits)

    def expects():
        ew = R.fn("expect_with", "Jail")
        e = R.ev(ew, [SYM("closure")], models=world(inside=inside), setup=start(), opaque=R.items("fmt", "Error", "Display"))
        n["exit"] += 1
        res = SYM("result")
        R.ob("expect:panics", len(e.panics) == 1 and e.panics[0][0] is M.gate(mk("discr", res, (0, 1)), 1), ew["span"],
             f"does not panic exactly when the closure fails: {[cut(p[0]) for p in e.panics]}")
        for x in e.panics:
            R.ob("expect:kind", x[1].startswith("call:"), x[2], f"panics by {x[1]}")
    R.case("expects", expects)

    # nothing else writes the process state or makes a jail
    for f, cs in sorted(callers(R, WRITES).items()):
        R.ob(f"writes:{f}", f in visited or f in R.functions, cs[0][1], f"{f} changes the process state and is not one of the analysed jail operations")
    for b in R.F.bodies.values():
        if not b["local"]:
            continue
        for bl in b["blocks"]:
            for s in bl["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "adt" and s[2][3] == Jp:
                    R.ob(f"makes:{b['dpath']}", b["dpath"] in R.functions, s[3], f"{b['dpath']} makes a jail without the lock")
                    n["makes"] = n.get("makes", 0) + 1
    R.floor("constructions", n.get("makes", 0), 1)
    R.floor("operations", len(ops), 7)
    R.floor("operation cases", n["op"], 20)
    R.floor("exits", n["exit"], 8)
    R.floor("leaving", n["drop"], 40)


# ---------------------------------------------------------------- containment
from paths import *
import itertools

FILE = "FILES"


def disk(known, fail=None):
    """path operations, and file operations that record what they do; `fail`: the operation that fails"""
    m = world()
    m.update(path_models(known))

    def bad(n): return ERR(APP("io-error", STR(n)))

    def note(eng, st, *ev):
        st = st.copy()
        eng.log(st, APP(*ev))
        return st

    def onpath(n, res=None):
        def f(eng, args, st, call):
            p = canon(M.D(eng, st, args[0]), known)
            st = note(eng, st, n, p)
            if fail == n:
                return bad(n), st
            return OK(res(p) if res else UNIT), st
        return f

    def create(eng, args, st, call):
        p = canon(M.D(eng, st, args[0]), known)
        st = note(eng, st, "fs.create", p)
        if fail == "fs.create":
            return bad("fs.create"), st
        st.mem[FILE] = TUP(p, M.NIL, M.NIL)
        return OK(APP("file", p)), st

    def wrap(eng, args, st, call): return APP("buffered", M.D(eng, st, args[-1])), st

    def write_all(eng, args, st, call):
        w = M.D(eng, st, args[0])
        b = M.D(eng, st, args[1])
        st = note(eng, st, "io.write", w, b)
        if FILE not in st.mem or w.op != "app" or w.a[0] not in ("buffered", "file"):
            raise Unsupported("write to an unknown writer")
        if fail == "io.write":
            return bad("io.write"), st
        p, done, buf = st.mem[FILE].a
        add = mk("arr", *(buf.a + (b,)))
        st.mem[FILE] = TUP(p, add if w.a[0] == "file" else done, add)
        return OK(UNIT), st

    def flush(take):
        def f(eng, args, st, call):
            w = M.D(eng, st, args[0])
            if w.op == "app" and w.a[0] == "file" and not take:
                return OK(UNIT), st         # an unbuffered file has nothing to flush
            st = note(eng, st, "io.flush", w)
            if w.op != "app" or w.a[0] != "buffered" or FILE not in st.mem:
                raise Unsupported("flush of an unknown writer")
            if fail == "io.flush":
                return bad("io.flush"), st
            p, done, buf = st.mem[FILE].a
            st.mem[FILE] = TUP(p, buf, buf)
            return OK(w.a[1] if take else UNIT), st
        return f

    def whole(eng, args, st, call):
        p = canon(M.D(eng, st, args[0]), known)
        st = note(eng, st, "fs.write", p)
        if fail == "fs.create":
            return bad("fs.create"), st
        b = mk("arr", M.D(eng, st, args[1]))
        st.mem[FILE] = TUP(p, b, b)
        return OK(UNIT), st
    m.update({"std::fs::File::create": create, "std::fs::create_dir_all": onpath("fs.mkdirs"), "std::fs::create_dir": onpath("fs.mkdir"),
              "std::env::set_current_dir": onpath("cwd.set"), "std::io::BufWriter::new": wrap, "std::io::BufWriter::with_capacity": wrap,
              "std::io::Write::write_all": write_all, "std::io::BufWriter::into_inner": flush(True), "std::io::Write::flush": flush(False),
              "std::fs::write": whole, "std::fs::File::open": onpath("fs.open", lambda p: APP("file", p))})
    return m


def lexical(cs):
    """dots resolved: what remains of a path, never above its base"""
    out = []
    for c in cs:
        if c is CUR:
            continue
        if c is PARENT:
            if out and out[-1] is not ROOT:
                out.pop()
        else:
            out.append(c)
    return out


@rule("C22", "effect summary of every jail method that takes a path, for every shape of path of up to five components with arbitrary names: the path acted upon is "
      "the lexically resolved one, an escaping path has no effect; and the data flow of written contents under every failing step", 1000, TRUSTED)
def C22(R):
    Jp = R.adt("Jail")
    jf = jail_fields(R)
    D1, D2, X, Y = SYM("@dir1"), SYM("@dir2"), SYM("@x"), SYM("@y")
    base = [ROOT, D1, D2]
    n = dict(ops=0, cases=0, effects=0)

    def dirfield():
        d = R.ev(R.fn("directory", "Jail"), [jail(R)]).v
        c = [i for i in range(len(R.fields("Jail"))) if SYM(f"jail{i}") is d]
        if len(c) != 1:
            raise Missing("the jail's directory")
        return c[0]
    di = dirfield()
    j = list(jail(R).a)
    j[2 + di] = mkpath(base)
    J = mk("adt", *j)
    p = SYM("path")

    def shapes(k):
        """paths as the standard library can enumerate them"""
        for m in range(k + 1):
            for t in itertools.product((PARENT, X, Y), repeat=m):
                yield list(t)
                yield [CUR] + list(t)
            for t in itertools.product((PARENT, D1, D2, X), repeat=m):
                yield [ROOT] + list(t)

    def expect(cs):
        r = lexical(cs)
        if r[:1] == [ROOT]:
            return r if r[:3] == base else None
        return r

    def op(it, depth):
        b = R.body(it)
        extra = [SYM(f"arg{i}") for i in range(2, b["argc"])]
        nm = it["name"]
        for cs in shapes(depth):
            known = {p: cs}
            e = R.ev(it, [J, p] + extra, models=disk(known))
            n["cases"] += 1
            lab = f"{nm}:{'/'.join(str(c.a[0]).strip('@') for c in cs)}"
            want = expect(cs)
            if e.s is None or e.panics:
                R.ob(lab + ":panics", False, it["span"], "can panic")
                continue
            if E.LOG in e.s.mem and e.s.mem[E.LOG].op not in ("log", "tup"):
                R.ob(lab + ":undecided", False, it["span"], f"the effects depend on {cut(e.s.mem[E.LOG])}")
                continue
            lg = list(reversed(e.log))
            acts = [x for x in lg if x.a[0].startswith("fs.") or x.a[0].startswith("cwd.")]
            n["effects"] += len(acts)
            if want is None:
                R.ob(lab + ":refused", not lg and e.v.op == "adt" and e.v.a[1] == 1, it["span"], f"a path outside the jail is acted upon or accepted: {cut(e.v)} {lg[:2]}")
                continue
            for x in acts:
                R.eq(lab + ":" + x.a[0], it["span"], x.a[1], mkpath(want))
            if nm in OPS:
                R.ob(lab + ":acts", [x.a[0] for x in acts] == OPS[nm], it["span"], f"acts by {[x.a[0] for x in acts]}")
            if nm in ("create_dir", "change_dir"):
                R.eq(lab + ":result", it["span"], M.mapleaves(e.v, lambda v: mk("adt", v.a[0], v.a[1], canon(v.a[2], known)) if v.op == "adt" and v.a[1] == 0 else v), OK(mkpath(want)))
    OPS = {"create_dir": ["fs.mkdirs"], "change_dir": ["cwd.set"]}
    for it in R.F.items:
        if it["self"] is None or it["impl_trait"] or R.F.types[it["self"]].get("adt") != Jp or it.get("key") is None:
            continue
        b = R.body(it)
        if b["argc"] < 2 or R.F.types[b["locals"][1]]["k"] != "ref":
            continue
        try:
            called = reach(R, it)
        except RecursionError:
            called = set()
        fs = [c for c in called if c.startswith("std::fs::") or c in ("std::env::set_current_dir",)]
        if not fs:
            continue
        n["ops"] += 1
        R.case(it["name"], op, it, 5 if R.thorough else 4)

    def contents(nm):
        it = R.fn(nm, "Jail")
        known = {p: [X]}
        data = SYM("data")
        e = R.ev(it, [J, p, data], models=disk(known))
        f = e.s.mem.get(FILE)
        R.ob(nm + ":file", f is not None, it["span"], "no file is created")
        if f is not None:
            R.eq(nm + ":path", it["span"], f.a[0], mkpath([X]))
            R.eq(nm + ":contents", it["span"], f.a[1], mk("arr", data))
        R.eq(nm + ":result", it["span"], e.v, OK(APP("file", mkpath([X]))))
        evs = {x.a[0] for x in e.log}
        for fl in ("fs.create", "io.write", "io.flush"):
            if fl not in evs and not (fl == "fs.create" and "fs.write" in evs):
                continue
            e = R.ev(it, [J, p, data], models=disk(known, fail=fl))
            n["cases"] += 1
            R.ob(f"{nm}:failing:{fl}", e.v.op == "adt" and e.v.a[1] == 1, it["span"], f"a failing {fl} is not reported: {cut(e.v)}")
    for nm in ("create_file", "create_binary"):
        R.case(nm + ":contents", contents, nm)
    for nm in ("create_dir", "change_dir"):
        def failing(nm=nm):
            it = R.fn(nm, "Jail")
            for fl in OPS[nm]:
                e = R.ev(it, [J, p], models=disk({p: [X]}, fail=fl))
                R.ob(f"{nm}:failing:{fl}", e.v.op == "adt" and e.v.a[1] == 1, it["span"], f"a failing {fl} is not reported: {cut(e.v)}")
        R.case(nm + ":failing", failing)
    # every file operation of the jail module is reached from one of these methods
    fsfns = {b["dpath"] for b in R.F.bodies.values() if b["local"] and "jail" in b["dpath"]
             and any(x.startswith("std::fs::") for x in callees(b))}
    for f in sorted(fsfns):
        R.ob(f"writes:{f}", f in R.functions, f, "a file operation outside the analysed jail methods")
    R.floor("methods", n["ops"], 4)
    R.floor("effects", n["effects"], 100)


def callees(b):
    r = set()
    for bl in b["blocks"]:
        t = bl["t"]
        if t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1]:
            r.add(E.norm(t[1][1]["fn"].get("decl", "")))
    return r


def reach(R, it):
    """functions reachable from an item through direct local calls"""
    seen, out = set(), set()
    stack = [R.body(it)]
    while stack:
        b = stack.pop()
        if b["key"] in seen:
            continue
        seen.add(b["key"])
        for bl in b["blocks"]:
            t = bl["t"]
            if t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1]:
                f = t[1][1]["fn"]
                out.add(E.norm(f.get("decl", "")))
                d = f.get("dres") or f.get("ddecl")
                for x in R.F.by_dpath.get(d, []):
                    stack.append(x)
            for s in bl["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "closure":
                    for x in R.F.by_dpath.get(s[2][3], []):
                        stack.append(x)
    return out
