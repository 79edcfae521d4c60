"""Texts as lists of characters.

A text is a list of characters: a known character is its code point, an unknown one (`ch`) is a name with the
set of characters it may be.  All the characters of a set are encoded in the same number of bytes, so every
position in a text is a known number; what a predicate says about an unknown character is known when it says
the same of every member of the set, and an open condition otherwise.  A text all of whose characters are
known is a constant.  The models below replace those of `models` while `ON[0]` is set."""
import unicodedata
from terms import *
import engine as E
import models as M
from engine import Unsupported

ON = M.OWNEDCOW
OWNED = "cow:owned"


def ch(name, *ranges):
    """an unknown character of the ranges (inclusive, code points or characters)"""
    o = lambda c: ord(c) if isinstance(c, str) else c
    r = tuple(sorted((o(a), o(b)) for a, b in (x if isinstance(x, tuple) else (x, x) for x in ranges)))
    assert len({ulen(x) for p in r for x in p}) == 1
    return mk("ch", name, r)


def ulen(c):
    return 1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4


def clen(c):
    if c.op == "int":
        return ulen(c.a[0])
    if c.op == "ch":
        return ulen(c.a[1][0][0])
    raise Unsupported(f"length of character {c}")


def text(*cs):
    if all(c.op == "int" for c in cs):
        return STR("".join(chr(c.a[0]) for c in cs))
    return mk("text", *cs)


def chars(x):
    """the characters of a text, or None"""
    while x.op == "app" and x.a[0] == OWNED:
        x = x.a[1]
    if x.op == "str":
        return [INT(ord(c)) for c in x.a[0]]
    if x.op == "text":
        return list(x.a)
    if x.op == "app" and x.a[0] == "scat":
        out = []
        for y in x.a[1:]:
            y = chars(y)
            if y is None:
                return None
            out += y
        return out
    if x.op in ("int", "ch") or x.op == "app" and x.a[0] == "char":
        return [x]
    return None


def plain(x):
    while x.op == "app" and x.a[0] == OWNED:
        x = x.a[1]
    return x


# ------------------------------------------------------------------ predicates
_cache = {}


def holds(c, name, p):
    """the condition that a character satisfies a predicate on code points"""
    if c.op == "int":
        return TRUE if p(c.a[0]) else FALSE
    if c.op == "ch":
        k = (c.a[1], name)
        if k not in _cache:
            vals = set()
            for lo, hi in c.a[1]:
                for x in range(lo, hi + 1):
                    vals.add(bool(p(x)))
                    if len(vals) == 2:
                        break
            _cache[k] = vals
        if len(_cache[k]) == 1:
            return TRUE if True in _cache[k] else FALSE
    return E.asbool(APP("char." + name, c))


def iseq(c, v):
    if c.op == "ch":
        if any(lo <= v <= hi for lo, hi in c.a[1]):
            return None
        return FALSE
    return None


def below(x, y):
    """x < y, when the sets of the two decide it"""
    if "ch" not in (x.op, y.op) or not {x.op, y.op} <= {"ch", "int"}:
        return None
    lo = lambda c: c.a[0] if c.op == "int" else c.a[1][0][0]
    hi = lambda c: c.a[0] if c.op == "int" else c.a[1][-1][1]
    if hi(x) < lo(y):
        return TRUE
    if lo(x) >= hi(y):
        return FALSE
    return None


def same(x, y):
    """are two texts equal, as far as their characters tell; None when neither is a list of characters"""
    if not ({x.op, y.op} & {"text", "ch"} or any(z.op == "app" and z.a[0] == OWNED for z in (x, y))):
        return None
    a, b = chars(x), chars(y)
    if a is None or b is None:
        return None
    if len(a) != len(b):
        return FALSE
    g = TRUE
    for p, q in zip(a, b):
        if p is q:
            continue
        for u, v in ((p, q), (q, p)):
            if u.op == "ch" and v.op == "int" and iseq(u, v.a[0]) is FALSE:
                return FALSE
            if u.op == "ch" and v.op == "ch" and not any(l1 <= h2 and l2 <= h1 for l1, h1 in u.a[1] for l2, h2 in v.a[1]):
                return FALSE
        if p.op == q.op == "int":
            return FALSE
        lo, hi = sorted((p, q), key=lambda t: t.id)
        g = gand(g, E.asbool(APP("eq", lo, hi)))
    return g


WS = {9, 10, 11, 12, 13, 32, 0x85, 0xA0, 0x1680, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000} | set(range(0x2000, 0x200B))
P = {
    "is_whitespace": lambda c: c in WS,
    "is_ascii": lambda c: c < 128,
    "is_ascii_digit": lambda c: 48 <= c <= 57,
    "is_ascii_hexdigit": lambda c: 48 <= c <= 57 or 65 <= c <= 70 or 97 <= c <= 102,
    "is_ascii_alphabetic": lambda c: 65 <= c <= 90 or 97 <= c <= 122,
    "is_ascii_alphanumeric": lambda c: 48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122,
    "is_ascii_uppercase": lambda c: 65 <= c <= 90,
    "is_ascii_lowercase": lambda c: 97 <= c <= 122,
    "is_ascii_whitespace": lambda c: c in (9, 10, 12, 13, 32),
    "is_ascii_punctuation": lambda c: 33 <= c <= 47 or 58 <= c <= 64 or 91 <= c <= 96 or 123 <= c <= 126,
    "is_ascii_control": lambda c: c < 32 or c == 127,
    "is_ascii_graphic": lambda c: 33 <= c <= 126,
    "is_control": lambda c: c < 32 or 127 <= c < 160,
    "is_alphanumeric": lambda c: chr(c).isalnum(),
    "is_alphabetic": lambda c: chr(c).isalpha(),
    "is_numeric": lambda c: chr(c).isnumeric(),
    "is_uppercase": lambda c: chr(c).isupper(),
    "is_lowercase": lambda c: chr(c).islower(),
}


# ------------------------------------------------------------------ models
OVER = {}


def over(names, m):
    for n in names.replace("<impl ", "<impl~").split():
        OVER[n.replace("~", " ")] = m


def install():
    for n, m in OVER.items():
        old = M.MODELS.get(n)

        def wrap(eng, args, st, call, m=m, old=old):
            if ON[0]:
                r = m(eng, args, st, call)
                if r is not None:
                    return r
            return old(eng, args, st, call) if old is not None else None
        M.MODELS[n] = wrap


def pure(f):
    """a model that looks at the (dereferenced) arguments; None: not a text"""
    def m(eng, args, st, call):
        vs = [M.D(eng, st, a) for a in args]
        bad = []

        def go(i, got):
            if i == len(vs):
                r = f(eng, st, call, *got)
                if r is None:
                    bad.append(1)
                    return BOT
                return r
            return mapleaves(vs[i], lambda x: go(i + 1, got + [x]))
        r = go(0, [])
        return None if bad else (r, st)
    return m


for _n, _p in P.items():
    over("std::char::methods::<impl char>::" + _n, pure(lambda eng, st, call, c, n=_n, p=_p: holds(c, n, p)))
over("std::char::methods::<impl char>::len_utf8", pure(lambda eng, st, call, c: INT(clen(c))))


def low(c):
    if c.op == "int":
        return INT(c.a[0] + 32 if 65 <= c.a[0] <= 90 else c.a[0])
    if holds(c, "is_ascii_uppercase", P["is_ascii_uppercase"]) is FALSE:
        return c


over("std::char::methods::<impl char>::to_ascii_lowercase", pure(lambda eng, st, call, c: low(c)))


def is_digit(eng, st, call, c, r):
    if r.op == "int":
        d = lambda x: chr(x) in "0123456789abcdefghijklmnopqrstuvwxyz"[:r.a[0]] or chr(x) in "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[:r.a[0]]
        return holds(c, f"is_digit{r.a[0]}", d)


over("std::char::methods::<impl char>::is_digit", pure(is_digit))


def to_digit(eng, st, call, c, r):
    g = is_digit(eng, st, call, c, r)
    if g is FALSE:
        return NONE
    if g is TRUE:
        return SOME(INT(int(chr(c.a[0]), 36)) if c.op == "int" else hexnum([c]))


over("std::char::methods::<impl char>::to_digit", pure(to_digit))
over("core::str::<impl str>::chars", pure(lambda eng, st, call, x: M.it_list(mk("arr", *chars(x))) if chars(x) is not None else None))


def offs(cs):
    n, out = 0, []
    for c in cs:
        out.append(n)
        n += clen(c)
    return out + [n]


def char_indices(eng, st, call, x):
    cs = chars(x)
    if cs is not None:
        return M.it_list(mk("arr", *[TUP(INT(o), c) for o, c in zip(offs(cs), cs)]))


over("core::str::<impl str>::char_indices", pure(char_indices))


def as_str(eng, st, call, it):
    if it.op == "app" and it.a[0] == "it:list" and it.a[1].op == "arr":
        return text(*[c.a[1] if c.op == "tup" else c for c in it.a[1].a])


over("std::str::Chars::as_str core::str::Chars::as_str std::str::CharIndices::as_str core::str::CharIndices::as_str", pure(as_str))


def nbytes(x):
    return offs(chars(x))[-1]


over("core::str::<impl str>::len std::string::String::len", pure(lambda eng, st, call, x: INT(nbytes(x)) if chars(x) is not None else None))
over("core::str::<impl str>::is_empty std::string::String::is_empty",
     pure(lambda eng, st, call, x: (FALSE if chars(x) else TRUE) if chars(x) is not None else None))


def trims(front, back):
    def f(eng, st, call, x):
        cs = chars(x)
        if cs is None:
            return None
        ws = lambda c: holds(c, "is_whitespace", P["is_whitespace"])
        while front and cs and ws(cs[0]) is TRUE:
            cs = cs[1:]
        while back and cs and ws(cs[-1]) is TRUE:
            cs = cs[:-1]
        for c in (cs[:1] if front else []) + (cs[-1:] if back else []):
            if ws(c) is not FALSE:
                raise Unsupported("is the first or last character white space?")
        return text(*cs)
    return pure(f)


over("core::str::<impl str>::trim", trims(True, True))
over("core::str::<impl str>::trim_start core::str::<impl str>::trim_left", trims(True, False))
over("core::str::<impl str>::trim_end core::str::<impl str>::trim_right", trims(False, True))


def panics(eng, st, call, what):
    eng.panics.append((st.g, what, call.fr.span if call and call.fr else None, call.fr.body["dpath"] if call and call.fr else "?"))


def position(cs, n):
    o = offs(cs)
    return o.index(n) if n in o else None


def split_at(eng, args, st, call):
    x, n = M.D(eng, st, args[0]), M.D(eng, st, args[1])
    cs = chars(x) if x.op != "sw" else None
    if cs is None or n.op != "int":
        return None
    k = position(cs, n.a[0])
    if k is None:
        panics(eng, st, call, "a text is split inside a character or behind its end")
        return BOT, None
    return TUP(text(*cs[:k]), text(*cs[k:])), st


over("core::str::<impl str>::split_at", split_at)


def bounds(i, n):
    if i.op != "adt":
        return None
    nm = i.a[0].rsplit("::", 1)[-1]
    num = lambda t: t.a[0] if t.op == "int" else None
    if nm == "Range":
        r = (num(i.a[2]), num(i.a[3]))
    elif nm == "RangeTo":
        r = (0, num(i.a[2]))
    elif nm == "RangeFrom":
        r = (num(i.a[2]), n)
    elif nm == "RangeFull":
        r = (0, n)
    elif nm == "RangeToInclusive":
        r = (0, num(i.a[2]))
        r = (0, r[1] + 1) if r[1] is not None else r
    else:
        return None
    return r if None not in r else None


def subtext(eng, args, st, call, get=False):
    x, i = M.D(eng, st, args[0]), M.D(eng, st, args[1])
    cs = chars(x) if x.op in ("str", "text", "app") else None
    if cs is None or i.op == "sw":
        return None
    b = bounds(i, offs(cs)[-1])
    if b is None:
        return None
    p, q = position(cs, b[0]), position(cs, b[1])
    if p is None or q is None or p > q:
        if get:
            return NONE, st
        panics(eng, st, call, "a text is sliced inside a character or behind its end")
        return BOT, None
    r = text(*cs[p:q])
    return (SOME(r) if get else r), st


over("std::ops::Index::index", subtext)
over("core::str::<impl str>::get", lambda *a: subtext(*a, get=True))


def boundary(eng, st, call, x, n):
    cs = chars(x)
    if cs is not None and n.op == "int":
        return TRUE if position(cs, n.a[0]) is not None else FALSE


over("core::str::<impl str>::is_char_boundary", pure(boundary))


def hits(eng, st, call, cs, pat):
    """conditions that the pattern matches at each character (single character patterns), or None"""
    if pat.op in ("int", "ch"):
        return [same(text(c), text(pat)) if "ch" in (c.op, pat.op) else (TRUE if c is pat else FALSE) for c in cs]
    if pat.op == "arr":
        out = []
        for c in cs:
            g = FALSE
            for p in pat.a:
                h = hits(eng, st, call, [c], p)
                if h is None:
                    return None
                g = gor(g, h[0])
            out.append(g)
        return out
    if pat.op in ("fn", "clo"):
        out = []
        for c in cs:
            r, st = eng.call_closure(st, pat, [c])
            if st is None:
                return None
            out.append(E.asbool(r))
        return out
    return None


def decided(hs):
    return hs is not None and all(h is TRUE or h is FALSE for h in hs)


def search(name):
    def m(eng, args, st, call):
        x, pat = M.D(eng, st, args[0]), M.D(eng, st, args[1])
        cs = chars(x) if x.op != "sw" else None
        if cs is None:
            return None
        if pat.op == "str" or pat.op == "text":
            ps = chars(pat)
            n = len(ps)
            at = [same(text(*cs[i:i + n]), text(*ps)) if "text" in (text(*cs[i:i + n]).op, text(*ps).op) else
                  (TRUE if text(*cs[i:i + n]) is text(*ps) else FALSE) for i in range(len(cs) - n + 1)]
        else:
            at, n = hits(eng, st, call, cs, pat), 1
        if at is None:
            return None
        o = offs(cs)
        if name == "contains":
            g = FALSE
            for h in at:
                g = gor(g, h)
            return g, st
        if name == "starts_with":
            return (at[0] if at else FALSE), st
        if name == "ends_with":
            return (at[-1] if at else FALSE), st
        if name == "strip_prefix":
            g = at[0] if at else FALSE
            return select(g, SOME(text(*cs[n:])), NONE), st
        if name == "strip_suffix":
            g = at[-1] if at else FALSE
            return select(g, SOME(text(*cs[:len(cs) - n])), NONE), st
        if name in ("trim_start_matches", "trim_end_matches", "trim_matches"):
            if n != 1 or not decided(at):
                return None
            a, b = 0, len(cs)
            while name != "trim_end_matches" and a < b and at[a] is TRUE:
                a += 1
            while name != "trim_start_matches" and a < b and at[b - 1] is TRUE:
                b -= 1
            return text(*cs[a:b]), st
        if name in ("find", "split_once"):
            r = NONE
            for i in reversed(range(len(at))):
                v = INT(o[i]) if name == "find" else TUP(text(*cs[:i]), text(*cs[i + n:]))
                r = select(at[i], SOME(v), r)
            return r, st
        if name in ("rfind", "rsplit_once"):
            r = NONE
            for i in range(len(at)):
                v = INT(o[i]) if name == "rfind" else TUP(text(*cs[:i]), text(*cs[i + n:]))
                r = select(at[i], SOME(v), r)
            return r, st
        if name in ("split", "matches") and n == 1 and decided(at):
            if name == "matches":
                return M.it_list(mk("arr", *[text(c) for c, h in zip(cs, at) if h is TRUE])), st
            out, cur = [], []
            for c, h in zip(cs, at):
                if h is TRUE:
                    out.append(text(*cur))
                    cur = []
                else:
                    cur.append(c)
            return M.it_list(mk("arr", *out, text(*cur))), st
        return None
    return m


for _n in ("contains starts_with ends_with strip_prefix strip_suffix trim_start_matches trim_end_matches trim_matches find rfind "
           "split_once rsplit_once split matches").split():
    over("core::str::<impl str>::" + _n, search(_n))


INTTY = {"usize", "isize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"}


def parse(eng, st, call, x):
    """a text with a character that occurs in no number is not a number"""
    g = call.gargs()
    t = eng.F.types[g[0]]["s"] if g else None
    cs = chars(x)
    if cs is None or t not in INTTY | {"f64", "f32"}:
        return None
    ok = "0123456789+-" + ("" if t in INTTY else ".eEinftyaNINFTYA")
    if not cs or any(holds(c, "numeric:" + ok, lambda v: chr(v) in ok) is FALSE for c in cs):
        return ERR(APP("parse:" + t, text(*cs)))
    return APP("parse:" + t, text(*cs))


over("core::str::<impl str>::parse", pure(parse))


def from_radix(eng, st, call, x, r):
    cs = chars(x)
    if cs is None or r.op != "int" or r.a[0] != 16:
        return None
    hexd = [holds(c, "is_ascii_hexdigit", P["is_ascii_hexdigit"]) for c in cs]
    if any(h is not TRUE for h in hexd) or not 1 <= len(cs) <= 8:
        return None
    return OK(hexnum(cs))


def hexnum(cs):
    """the number written by hexadecimal digits"""
    while len(cs) > 1 and cs[0] is INT(48):
        cs = cs[1:]
    cs = [INT(ord(chr(c.a[0]).lower())) if c.op == "int" else c for c in cs]
    t = text(*cs)
    return INT(int(t.a[0], 16)) if t.op == "str" else APP("hex", t)


def hexarith(op, x, y):
    """n * 16 + d, for a number and a digit"""
    def digits(v):
        if v.op == "int" and v.a[0] >= 0:
            return [INT(ord(c)) for c in "%x" % v.a[0]]
        return chars(v.a[1]) if v.op == "app" and v.a[0] == "hex" else None
    a, b = digits(x), digits(y)
    if a is None or b is None or x.op == y.op:
        return None
    r = None
    if op == "Shl" and y is INT(4) or op == "Mul" and y is INT(16):
        r = a + [INT(48)]
    elif op == "Mul" and x is INT(16):
        r = b + [INT(48)]
    return hexnum(r) if r is not None and len(r) <= 8 else None


def hexadd(op, x, y):
    r = hexarith(op, x, y)
    if r is not None or op not in ("Add", "BitOr"):
        return r
    for p, q in ((x, y), (y, x)):
        p = chars(p.a[1]) if p.op == "app" and p.a[0] == "hex" else [INT(ord(c)) for c in "%x" % p.a[0]] if p.op == "int" and p.a[0] >= 0 else None
        q = chars(q.a[1]) if q.op == "app" and q.a[0] == "hex" else [INT(ord(c)) for c in "%x" % q.a[0]] if q.op == "int" and q.a[0] >= 0 else None
        if p is not None and q is not None and len(q) == 1 and p[-1] is INT(48):
            return hexnum(p[:-1] + q)
    return None


M.HEXNUM[0] = hexadd


over("core::num::<impl u32>::from_str_radix", pure(from_radix))


def from_u32(eng, st, call, x):
    if x.op == "int":
        n = x.a[0]
        return SOME(x) if n < 0xD800 or 0xDFFF < n <= 0x10FFFF else NONE
    while x.op == "app" and x.a[0] == "icast:char:u32":
        return SOME(x.a[1])
    if x.op == "app" and x.a[0] == "hex":
        lo = hi = 0
        for c in chars(x.a[1]):
            d = lambda v: int(chr(v), 16)
            vs = [d(c.a[0])] if c.op == "int" else [d(v) for p in c.a[1] for v in range(p[0], p[1] + 1)]
            lo, hi = lo * 16 + min(vs), hi * 16 + max(vs)
        if hi < 0xD800 or lo > 0xDFFF and hi <= 0x10FFFF:
            return SOME(APP("char", x))
        if lo >= 0xD800 and hi <= 0xDFFF or lo > 0x10FFFF:
            return NONE
    return select(E.asbool(APP("scalar", x)), SOME(APP("char", x)), NONE)


over("std::char::from_u32 core::char::from_u32 std::char::methods::<impl char>::from_u32", pure(from_u32))


# ------------------------------------------------------------------ owned texts
def upd(eng, ref, st, f):
    """apply f to the characters of a String (or an owned Cow) behind a reference"""
    bad = []

    def go(x):
        cs = chars(x)
        if cs is None:
            bad.append(1)
            return x
        r = f(cs)
        if r is None:
            bad.append(1)
            return x
        return APP(OWNED, text(*r)) if x.op == "app" and x.a[0] == OWNED else text(*r)
    s = M.setmap(eng, st, ref, lambda v: mapleaves(v, go))
    return None if bad else s


def push(eng, args, st, call):
    v = M.D(eng, st, args[1])
    cs = chars(v) if v.op != "sw" else None
    if cs is None:
        if v.op != "sw":
            return None
        s = M.setmap(eng, st, args[0], lambda a: mapleaves(a, lambda x: mapleaves(v, lambda y: rewrap(x, chars(x) + chars(y)))))
        return UNIT, s
    s = upd(eng, args[0], st, lambda x: x + cs)
    return (UNIT, s) if s is not None else None


def rewrap(x, cs):
    return APP(OWNED, text(*cs)) if x.op == "app" and x.a[0] == OWNED else text(*cs)


over("std::string::String::push std::string::String::push_str", push)
over("std::borrow::Cow::to_mut", lambda eng, args, st, call:
     (args[0], M.setmap(eng, st, args[0], lambda v: mapleaves(v, lambda x: APP(OWNED, plain(x)) if chars(x) is not None else x))))


def pop(eng, args, st, call):
    v = M.D(eng, st, args[0])
    cs = chars(v) if v.op != "sw" else None
    if cs is None:
        return None
    if not cs:
        return NONE, st
    return SOME(cs[-1]), upd(eng, args[0], st, lambda x: x[:-1])


over("std::string::String::pop", pop)


def collect_text(eng, args, st, call):
    tid = call.retty()
    t = eng.F.types[tid] if tid is not None else {}
    if t.get("adt") != "std::string::String":
        return None
    got = []

    def b(s, e):
        c = chars(e)
        if c is None:
            raise Unsupported("a text of unknown pieces is collected")
        got.extend(c)
        return s, {}
    it = M.D(eng, st, args[0])
    s, ex = M.iterate(eng, st, it, b)
    if s is None:
        return BOT, None
    return text(*got), s


over("std::iter::Iterator::collect std::iter::FromIterator::from_iter", collect_text)
M.TEXTEQ[0] = lambda x, y: same(x, y) if ON[0] else None
install()
