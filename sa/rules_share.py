"""C23: reading never changes anything; figments can be shared; data is read once."""
from lib import *
from rules import rule
from rules_core import *
from rules_view import mkerr
import engine as E, re

# what users hold, send and share
SHARED = ("Figment", "Value", "Num", "Empty", "Tag", "Metadata", "metadata::Source", "error::Error", "Kind", "Actual", "OneOf", "Profile",
          "RelativePathBuf", "Tagged", "Either")
AUTO = ("Figment", "Value", "Num", "Empty", "Tag", "Metadata", "metadata::Source", "error::Error", "Kind", "Actual", "Profile", "RelativePathBuf")
# types whose methods on a shared reference are reads
READ = ("Figment", "Value", "Num", "Empty", "Tag", "Metadata", "metadata::Source", "error::Error", "Kind", "Actual", "OneOf", "Profile")
NAMED = ("extract", "extract_inner", "extract_lossy", "extract_inner_lossy", "find_value", "contains", "focus", "find_metadata", "get_metadata",
         "metadata", "profile", "profiles")

# types through which a shared reference can change what it refers to, or that cannot cross threads
MUTABLE = ("std::cell::", "core::cell::", "std::sync::Mutex", "std::sync::RwLock", "std::sync::Once", "std::sync::Lazy", "std::sync::atomic::",
           "std::sync::Condvar", "std::sync::mpsc::", "std::sync::ReentrantLock", "std::sync::nonpoison", "std::sync::poison", "std::rc::",
           "parking_lot::", "lock_api::", "once_cell::", "std::thread::LocalKey", "std::fs::File")
# calls with an effect outside their arguments, or a result that depends on more than them
EFFECTS = ("std::env::", "std::fs::", "std::process::", "std::net::", "std::thread::", "std::time::", "std::os::", "std::sync::atomic::", "core::sync::atomic::",
           "std::sync::", "std::io::_print", "std::io::_eprint", "std::io::stdio", "std::io::stdin", "std::io::stdout", "std::io::stderr", "std::io::Write",
           "std::io::Read", "std::hash::RandomState", "std::ptr::",
           "core::ptr::", "std::mem::transmute", "std::intrinsics", "core::intrinsics", "parking_lot::", "lock_api::", "tempfile::", "std::mem::forget",
           "std::boxed::Box::<T>::leak", "std::vec::Vec::<T, A>::leak", "std::alloc::alloc", "std::alloc::dealloc", "std::alloc::realloc",
           "std::path::Path::exists", "std::path::Path::try_exists", "std::path::Path::is_file", "std::path::Path::is_dir", "std::path::Path::is_symlink",
           "std::path::Path::metadata", "std::path::Path::symlink_metadata", "std::path::Path::canonicalize", "std::path::Path::read_link",
           "std::path::Path::read_dir", "std::any::type_name_of_val")
# sources are shown relative to the working directory
PURE = ("std::env::current_dir", "std::sync::Arc", "std::sync::Weak", "std::mem::replace", "std::ptr::eq", "std::ptr::addr_eq", "core::ptr::eq")


def effect(n):
    n = re.sub(r"^[<&]*('\w+ )?(mut )?", "", n)
    if re.match(r"std::collections::(hash|Hash)", n) and re.search(r"\b(into_iter|iter|iter_mut|keys|values|into_keys|into_values|drain|next|retain)$", n):
        return True       # the order of a hash table is not a function of its content
    return any(n.startswith(p) for p in EFFECTS) and not any(n.startswith(p) for p in PURE)


def plain(t):
    """a trait path without its arguments"""
    return E.norm(t).split("<")[0] if t else t


class Graph:
    """the call graph: direct calls, functions and closures mentioned as values, and, where the callee is
    not known, every local implementation of the method called"""
    def __init__(self, R):
        self.R, F = R, R.F
        self.impls = {}
        for im in F.impls:
            if im["trait"]:
                for n, d in im["methods"]:
                    self.impls.setdefault((plain(im["trait"]), n), []).append(d)
        self.out = {}
        self.calls = 0

    def targets(self, f):
        """bodies an instance may run"""
        F = self.R.F
        if f.get("key") in F.bodies:
            return [F.bodies[f["key"]]]
        ds = [f["dres"]] if f.get("dres") else []
        if f.get("kind") in ("unresolved", "virtual") and f.get("trait"):
            n = f["decl"].split("::")[-1]
            ds += self.impls.get((plain(f["trait"]), n), [])
            # conversions and rendering reach the implementation they are defined by
            also = {"into": ("std::convert::From", "from"), "to_string": ("std::fmt::Display", "fmt"), "parse": ("std::str::FromStr", "from_str"),
                    "try_into": ("std::convert::TryFrom", "try_from"), "collect": ("std::iter::FromIterator", "from_iter")}.get(n)
            if also:
                ds += self.impls.get(also, [])
        return [b for x in ds for b in F.by_dpath.get(x, [])]

    def edges(self, b):
        if b["key"] in self.out:
            return self.out[b["key"]]
        bodies, names, statics = [], [], []

        def walk(x, where):
            if isinstance(x, dict):
                if "static" in x:
                    statics.append((x["static"], where))
                if isinstance(x.get("fn"), dict):
                    f = x["fn"]
                    self.calls += 1
                    names.append((E.norm(f.get("decl", "")), where))
                    if f.get("res"):
                        names.append((E.norm(f["res"]), where))
                    bodies.extend(self.targets(f))
                for y in x.values():
                    walk(y, where)
            elif isinstance(x, list):
                if len(x) > 3 and x[0] == "agg" and x[1] == "closure":
                    bodies.extend(self.R.F.by_dpath.get(x[3], []))
                for y in x:
                    walk(y, where)
        for bl in b["blocks"]:
            for s in bl["s"]:
                walk(s, s[3] if len(s) > 3 and type(s[3]) is str else b["span"])
            t = bl["t"]
            walk(t, t[6] if t[0] == "call" and len(t) > 6 else b["span"])
        self.out[b["key"]] = (bodies, names, statics)
        return self.out[b["key"]]

    def reach(self, roots):
        seen = {}
        stack = [(b, None) for b in roots]
        while stack:
            b, via = stack.pop()
            if b["key"] in seen:
                continue
            seen[b["key"]] = (b, via)
            for x in self.edges(b)[0]:
                if x["key"] not in seen:
                    stack.append((x, b["key"]))
        return seen

    def chain(self, seen, key):
        r = []
        while key is not None and len(r) < 12:
            b, key = seen[key]
            r.append(b["path"])
        return " <- ".join(r)


def adtof(R, tid):
    return R.F.types[R.F.peel(tid)].get("adt")


@rule("C23", "effect analysis over the call graph (trait calls expanded to every implementation) from every function that reads a figment, value, error or metadata; "
      "escape of interior mutability and thread-bound data over the types shared; auto traits; count of reads of a provider's data on every path of combining it", 150, TRUSTED)
def C23(R):
    F = R.F
    G = Graph(R)

    def shared(names):
        return {R.adt(n): n for n in names}

    # ------------------------------------------------------------- types
    def types():
        for a, n in shared(AUTO).items():
            for tr, ok in F.adts[a]["auto"]:
                R.ob(f"auto:{n}:{tr}", ok, "types", f"{a} is not {tr}")
            R.floor(f"auto:{n}", len(F.adts[a]["auto"]), 2)
        for im in F.impls:
            if im["trait"] and plain(im["trait"]).split("::")[-1] in ("Send", "Sync"):
                R.ob(f"claimed:{im['trait']}:{F.tys(im['self'])}", False, im["span"], f"{im['trait']} is asserted for {F.tys(im['self'])}, not derived from what it holds")
        for a, n in shared(SHARED).items():
            done, todo, bad = set(), [(a, n)], []
            seen = set()
            while todo:
                x, how = todo.pop()
                if x in done:
                    continue
                done.add(x)
                for vs in F.adts[x]["field_tys"]:
                    for t in vs:
                        st = [t]
                        while st:
                            y = st.pop()
                            if y in seen:
                                continue
                            seen.add(y)
                            ty = F.types[y]
                            if ty["k"] == "adt":
                                p = ty["adt"]
                                if any(p.startswith(m) for m in MUTABLE):
                                    bad.append(f"{how} holds {ty['s']}")
                                st += [z for z in ty["args"] if type(z) is int]
                                if p in F.adts and F.adts[p]["local"]:
                                    todo.append((p, f"{how} > {p}"))
                            elif ty["k"] == "ptr":
                                bad.append(f"{how} holds {ty['s']}")
                            elif ty["k"] in ("ref", "slice", "array"):
                                if ty["k"] == "ref" and ty["mut"]:
                                    bad.append(f"{how} holds {ty['s']}")
                                st.append(ty["of"])
                            elif ty["k"] == "tuple":
                                st += ty["args"]
            R.ob(f"holds:{n}", not bad, "types", "; ".join(bad))
            R.floor(f"types held by {n}", len(seen), 0 if n in ("Empty",) else 1)
    R.case("types", types)

    # ------------------------------------------------------------- reads
    def entries():
        rd = shared(READ)
        rs = []
        for it in F.items:
            if it.get("key") is None:
                continue
            first = F.types[it["inputs"][0]] if it["inputs"] else None
            own = first is not None and first["k"] == "ref" and not first["mut"] and F.types[first["of"]].get("adt") in rd
            tr = plain(it["trait"]) or ""
            ser = tr.startswith(("serde::", "serde_core::"))
            interp = it["trait"] and not tr.startswith(("std::", "core::")) and not tr.split("::")[-1] in ("Provider", "Format") and \
                any(F.types[x]["k"] == "ref" and F.types[F.types[x]["of"]].get("adt") in rd for x in it["inputs"])
            if own or ser or interp:
                rs.append(it)
        return rs
    rs = []

    def reads():
        rs.extend(entries())
        Fi = R.adt("Figment")
        for n in NAMED:
            c = [i for i in F.items if i["name"] == n and not i["trait"] and i["self"] is not None and F.types[i["self"]].get("adt") == Fi]
            R.ob(f"reader:{n}", len(c) == 1 and bool(c[0]["inputs"]) and F.types[c[0]["inputs"][0]]["k"] == "ref" and not F.types[c[0]["inputs"][0]]["mut"],
                 c[0]["span"] if c else "anchor", f"{n} does not take the figment by shared reference")
            R.ob(f"reader-analysed:{n}", bool(c) and c[0] in rs, "anchor", "reader not analysed")
        interior = {s["path"]: s for s in F.raw["statics"] if s["mut"] or not s["freeze"]}
        bodies = []
        for it in rs:
            bodies.append(R.body(it))
        # closures that providers leave behind in their metadata run when errors are shown
        for it in F.items:
            if it["name"] == "metadata" and it["trait"] and plain(it["trait"]).endswith("Provider"):
                bodies += [b for b in F.bodies.values() if b["closure"] and b["dpath"].startswith(it["dpath"] + "::")]
        for it in rs:
            b = R.body(it)
            seen = G.reach([b])
            bad = []
            for k, (x, _) in seen.items():
                _, names, statics = G.edges(x)
                bad += [f"{n} at {w} ({G.chain(seen, k)})" for n, w in names if effect(n)]
                bad += [f"static {n} at {w} ({G.chain(seen, k)})" for n, w in statics if n in interior]
                bad += [f"unsafe code at {u['span']} ({G.chain(seen, k)})" for u in F.raw["unsafe"] if u["dpath"] == x["dpath"]]
            R.ob(f"pure:{it['path']}", not bad, it["span"], f"{it['path']} reaches " + "; ".join(bad[:2]))
            R.functions |= {x["dpath"] for x, _ in seen.values()}
        seen = G.reach(bodies)
        bad = [f"{n} at {w} ({G.chain(seen, k)})" for k, (x, _) in seen.items() for n, w in G.edges(x)[1] if effect(n)]
        R.ob("pure:closures", not bad, "providers", "; ".join(bad[:2]))
    R.case("reads", reads)
    R.floor("readers", len(rs), 120)
    R.floor("calls", G.calls, 1500)
    R.callees += G.calls

    # ------------------------------------------------- combining reads once
    n = dict(combine=0, clone=0)

    def once(m, data, old):
        pm = provider_models(R, data)
        dk = next(k for k in pm if k.endswith("::data"))

        def read(eng, args, st, call):
            st = st.copy()
            eng.log(st, APP("data", *[M.D(eng, st, a) for a in args]))
            return data, st
        pm[dk] = read
        it = R.fn(m, "Figment")
        e = R.ev(it, [SYM("prov")] if m == "from" else [fig(R, old), SYM("prov")], models=pm)
        ev = [x for x in e.log if x.op == "app" and x.a[0] == "data"]
        bad = [x for x in e.log if x.op == "sw"]
        n["combine"] += 1
        R.ob(f"read-once:{m}:{cut(data)[:20]}:{cut(old)[:20] if m != 'from' else ''}", len(ev) == 1 and not bad and ev[0].a[1] is SYM("prov"), it["span"],
             f"{m} reads the provider's data {len(ev)} times" + (" on some paths" if bad else ""))
    for m in ("from", "join", "adjoin", "merge", "admerge"):
        for data in (OK(SYM("new")), ERR(mkerr(R, kind=SYM("@kind.new")))):
            for old in ((OK(SYM("old")), ERR(mkerr(R, kind=SYM("@kind.old")))) if m != "from" else (OK(SYM("old")),)):
                R.case(f"read-once:{m}", once, m, data, old)

    # ------------------------------------------------------- clones are equal
    virtual = set()

    def unbox(t):
        """a clone made through a local trait of boxed functions, judged where that trait is implemented"""
        if t.op == "app" and len(t.a) == 2 and "@dyn " in t.a[0]:
            tr, _, m = t.a[0].split("@")[0].rpartition("::")
            if tr in F.traits:
                virtual.add((tr, m))
                return t.a[1]
        return None

    def clones():
        for im in F.impls:
            if plain(im["trait"] or "") not in ("std::clone::Clone", "core::clone::Clone"):
                continue
            for name, d in im["methods"]:
                if name != "clone":
                    R.ob(f"clone:{F.tys(im['self'])}:{name}", False, im["span"], "a cloning method this analysis has no specification for")
                    continue
                adt = F.types[im["self"]].get("adt")
                its = [i for i in F.items if i["dpath"] == d]
                for it in its:
                    if adt in F.adts and F.adts[adt]["local"]:
                        for vi, v in enumerate(F.adts[adt]["variants"]):
                            x = ADT(adt, vi, *[SYM(f"{v['name']}.{f}") for f in v["fields"]])
                            n["clone"] += 1
                            R.eq(f"clone:{adt}:{v['name']}", it["span"], rewrite(R.ev(it, [x]).v, unbox), x)
                    else:
                        e = R.ev(it, [SYM("boxed")])
                        n["clone"] += 1
                        R.eq(f"clone:{it['path']}", it["span"], rewrite(e.v, unbox), SYM("boxed"))
        for tr, m in sorted(virtual):
            its = [i for i in F.items if i["name"] == m and i["impl_trait"] and plain(i["trait"]) == tr]
            R.floor(f"{tr}::{m}", len(its), 1)
            for it in its:
                v = R.ev(it, [SYM("x")]).v
                n["clone"] += 1
                R.ob(f"clone:{it['path']}", v is SYM("x") or (v.op == "app" and "Clone::clone" in v.a[0] and v.a[1:] == (SYM("x"),)), it["span"],
                     f"a clone of a boxed function is {cut(v)}")
    R.case("clones", clones)
    R.floor("combinations", n["combine"], 18)
    R.floor("clones", n["clone"], 40)
