"""Transfer functions for lexical path operations on paths whose components are
known (each component an arbitrary name, or one of the special ones)."""
from terms import *
import models as M
import engine as E
from engine import asbool

COMP = "std::path::Component"
ROOT, CUR, PARENT = STR("/"), STR("."), STR("..")


def comp(c):
    """one component as a term"""
    if c.op == "adt" and c.a[0] == COMP:
        return [c.a[2] if len(c.a) > 2 else None, ROOT, CUR, PARENT, c.a[2] if len(c.a) > 2 else None][c.a[1]]
    return c


def unpath(t, known):
    """the components of a path, or None"""
    if t in known:
        return list(known[t])
    if t.op == "str":
        return [] if t.a[0] == "" else [t] if t.a[0] in ("/", ".", "..") or "/" not in t.a[0] else None
    if M.isatom(t):
        return [t]
    if t.op == "adt" and t.a[0] == COMP:
        return [comp(t)]
    if t.op == "app" and t.a[0] == "path":
        return list(t.a[1:])
    if t.op == "app" and t.a[0] == "pathpush":
        a, b = unpath(t.a[1], known), unpath(t.a[2], known)
        if a is None or b is None:
            return None
        return joined(a, b)
    return None


def joined(a, b): return b if b[:1] == [ROOT] else a + b


def mkpath(cs): return APP("path", *cs)


def canon(t, known={}):
    """a path in canonical form"""
    def f(x):
        c = unpath(x, known)
        return x if c is None else mkpath(c)
    return M.mapleaves(t, f)


def parsed(cs):
    """the components as the standard library enumerates them: `.` only in front"""
    return [c for i, c in enumerate(cs) if c is not CUR or i == 0]


def components(cs):
    r = []
    for c in parsed(cs):
        i = {ROOT: 1, CUR: 2, PARENT: 3}.get(c, 4)
        r.append(mk("adt", COMP, i, *([c] if i == 4 else [])))
    return r


def path_models(known=None):
    """known: {symbol: [components]}"""
    known = known or {}

    def un(eng, st, a):
        return unpath(M.D(eng, st, a), known)

    def comps(eng, args, st, call):
        c = un(eng, st, args[0])
        return None if c is None else (M.it_list(mk("arr", *components(c))), st)

    def names(eng, args, st, call):
        c = un(eng, st, args[0])
        return None if c is None else (M.it_list(mk("arr", *parsed(c))), st)

    def absolute(v):
        def f(eng, args, st, call):
            c = un(eng, st, args[0])
            return None if c is None else (TRUE if (c[:1] == [ROOT]) == v else FALSE, st)
        return f

    def starts(eng, args, st, call):
        a, b = un(eng, st, args[0]), un(eng, st, args[1])
        if a is None or b is None:
            return None
        a, b = parsed(a), parsed(b)
        if len(b) > len(a):
            return FALSE, st
        g = TRUE
        for x, y in zip(a, b):
            g = gand(g, M.eqterm(x, y))
        return g, st

    def ends(eng, args, st, call):
        a, b = un(eng, st, args[0]), un(eng, st, args[1])
        if a is None or b is None:
            return None
        a, b = parsed(a), parsed(b)
        if len(b) > len(a) or b[:1] == [ROOT] and len(a) != len(b):
            return FALSE, st
        g = TRUE
        for x, y in zip(a[len(a) - len(b):], b):
            g = gand(g, M.eqterm(x, y))
        return g, st

    def push(eng, args, st, call):
        a, b = un(eng, st, args[0]), un(eng, st, args[1])
        if a is None or b is None:
            return None
        st = st.copy()
        eng.assign(st, args[0], mkpath(joined(a, b)))
        return UNIT, st

    def same(neg):
        def f(eng, args, st, call):
            ts = [eng.F.types[eng.F.peel(x)]["s"] for x in (call.gargs() or [])[:2]]
            if call.fn.get("key"):
                return None
            x, y = M.D(eng, st, args[0]), M.D(eng, st, args[1])
            if M.isatom(x) and y in (ROOT, CUR, PARENT, STR("")) or M.isatom(y) and x in (ROOT, CUR, PARENT, STR("")):
                # an ordinary name is none of the special ones
                return (TRUE if neg else FALSE), st
            if not any(t.startswith("std::path::Path") and "Component" not in t for t in ts):
                return None
            a, b = un(eng, st, args[0]), un(eng, st, args[1])
            if a is None or b is None:
                return None
            a, b = parsed(a), parsed(b)
            g = FALSE if len(a) != len(b) else TRUE
            for x, y in zip(a, b):
                g = gand(g, M.eqterm(x, y))
            return (gnot(g) if neg else g), st
        return f

    def text(eng, args, st, call): return M.mapleaves(M.D(eng, st, args[0]), comp), st

    def strip(eng, args, st, call):
        a, b = un(eng, st, args[0]), un(eng, st, args[1])
        if a is None or b is None:
            return None
        a, b = parsed(a), parsed(b)
        g = FALSE if len(b) > len(a) else TRUE
        for x, y in zip(a, b):
            g = gand(g, M.eqterm(x, y))
        return select(g, mk("adt", RESULT, 0, mkpath(a[len(b):])), mk("adt", RESULT, 1, APP("notprefix"))), st

    def join(eng, args, st, call):
        a, b = un(eng, st, args[0]), un(eng, st, args[1])
        return None if a is None or b is None else (mkpath(joined(a, b)), st)

    def up(c):
        c = parsed(c)
        return None if not c or c == [ROOT] else c[:-1]

    def pop(eng, args, st, call):
        a = un(eng, st, args[0])
        if a is None:
            return None
        p = up(a)
        st = st.copy()
        if p is not None:
            eng.assign(st, args[0], mkpath(p))
        return (FALSE if p is None else TRUE), st

    def parent(eng, args, st, call):
        a = un(eng, st, args[0])
        if a is None:
            return None
        p = up(a)
        return (NONE if p is None else SOME(mkpath(p))), st

    def ancestors(eng, args, st, call):
        a = un(eng, st, args[0])
        if a is None:
            return None
        r = [mkpath(parsed(a))]
        while a is not None:
            a = up(a)
            if a is not None:
                r.append(mkpath(a))
        return M.it_list(mk("arr", *r)), st

    def new(eng, args, st, call): return mkpath([]), st

    def name(eng, args, st, call):
        a = un(eng, st, args[0])
        if a is None:
            return None
        a = parsed(a)
        return (SOME(a[-1]) if a and a[-1] not in (ROOT, CUR, PARENT) else NONE), st
    P, B = "std::path::Path::", "std::path::PathBuf::"
    m = {P + "components": comps, P + "iter": names, P + "is_absolute": absolute(True), P + "has_root": absolute(True), P + "is_relative": absolute(False),
         P + "starts_with": starts, P + "ends_with": ends, P + "join": join, P + "parent": parent, P + "ancestors": ancestors, P + "file_name": name,
         B + "push": push, B + "pop": pop, B + "new": new, P + "strip_prefix": strip, COMP + "::as_os_str": text,
        "std::cmp::PartialEq::eq": same(False), "std::cmp::PartialEq::ne": same(True)}
    return m
