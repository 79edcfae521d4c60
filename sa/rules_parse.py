"""C16: environment values."""
import itertools
import texts
from texts import *
from rules_meta import *

X = lambda n, *r: ch(n, *r)


def alphabet(k):
    """unknown characters of every kind that the syntax of values could tell apart, for one position of a text"""
    return {
        "letter": X(f"a{k}", ("g", "k"), "m", ("o", "q"), ("v", "z")),
        "upper": X(f"A{k}", ("G", "M"), ("O", "S"), ("V", "Z")),
        "hex": X(f"h{k}", "a", ("c", "d")),
        "digit": X(f"d{k}", ("0", "9")),
        "white": X(f"s{k}", "\n", "\r", 11),
        "white2": X(f"S{k}", 0xA0),
        "white3": X(f"W{k}", (0x2000, 0x200A), 0x3000),
        "two": X(f"t{k}", (0xC0, 0xD6), (0x3B1, 0x3C9)),
        "three": X(f"T{k}", (0x4E00, 0x4EFF), (0x3041, 0x3096)),
        "four": X(f"F{k}", (0x1F600, 0x1F64F), (0x10000, 0x1000B)),
        "control": X(f"c{k}", (1, 8), (14, 31)),
        "punct": X(f"p{k}", "!", "#", "$", "%", "&", "(", ")", "*", "/", ":", ";", "<", ">", "?", "@", "^", "`", "|", "~"),
    }


# ------------------------------------------------------------------ the documented syntax
class Fail(Exception):
    pass


def yes(c, name):
    g = holds(c, name, P[name])
    assert g is TRUE or g is FALSE, (c, name)
    return g is TRUE


white = lambda c: yes(c, "is_whitespace")
lit = lambda c, s: c.op == "int" and chr(c.a[0]) in s


class Spec:
    """what a text denotes: the documented syntax, written down once more, over lists of characters"""

    def __init__(self, R):
        self.R = R
        self.tag = R.ev(R.fn("default", "Tag", "Default"), []).v
        self.unit = R.con("Empty", "Unit")

    def V(self, k, x):
        return self.R.con("Value", k, self.tag, x)

    def string(self, cs):
        return self.V("String", text(*cs))

    def text(self, cs):
        cs = self.trim(cs)
        try:
            v, rest = self.value(cs)
            if rest:
                raise Fail
            return v
        except Fail:
            return self.string(cs)

    def trim(self, cs):
        cs = list(cs)
        while cs and white(cs[0]):
            cs = cs[1:]
        while cs and white(cs[-1]):
            cs = cs[:-1]
        return cs

    def skip(self, cs):
        while cs and white(cs[0]):
            cs = cs[1:]
        return cs

    def expect(self, cs, c):
        if not cs or not lit(cs[0], c):
            raise Fail
        return cs[1:]

    def value(self, cs):
        cs = self.skip(cs)
        if not cs:
            v = self.V("Empty", self.unit)
        elif lit(cs[0], '"'):
            s, cs = self.quoted(cs)
            v = self.gated(s, self.string)
        elif lit(cs[0], "'"):
            if len(cs) < 3 or not lit(cs[2], "'"):
                raise Fail
            v, cs = self.V("Char", cs[1]), cs[3:]
        elif lit(cs[0], "["):
            items, cs = self.group(cs, "[", "]", self.value)
            v = self.V("Array", mk("arr", *items))
        elif lit(cs[0], "{"):
            items, cs = self.group(cs, "{", "}", self.entry)
            m = M.EMPTYMAP
            for k, x in items:
                m = M.minsert(m, k, x)
            v = self.V("Dict", m)
        else:
            n = 0
            while n < len(cs) and not lit(cs[n], ",{}[]"):
                n += 1
            v, cs = self.word(self.trim(cs[:n])), cs[n:]
        return v, self.skip(cs)

    def gated(self, s, f):
        """a string is a list of characters; one with escapes by number may turn out not to be a string at all"""
        return f(s)

    def word(self, cs):
        t = text(*cs)
        if t.op == "str" and t.a[0] in ("true", "false"):
            return self.V("Bool", INT(int(t.a[0] == "true")))
        num = lambda ty, kind, other: self.number(cs, ty, kind, other)
        if any(lit(c, ".") for c in cs):
            return num("f64", "F64", self.string(cs))
        return num("usize", "USize", num("isize", "ISize", self.string(cs)))

    def number(self, cs, ty, kind, other):
        p = parse_of(cs, ty)
        if p is None:
            return other
        v = self.V("Num", self.R.con("Num", kind, proj(p, RESULT, 0, 0)))
        return mksw_ord(mk("discr", p, (0, 1)), [(0, v), (1, other)])

    def group(self, cs, a, b, item):
        cs = self.skip(self.expect(cs, a))
        out = []
        while not (cs and lit(cs[0], b)):
            x, cs = item(cs)
            out.append(x)
            cs = self.skip(cs)
            if not cs or not lit(cs[0], ","):
                break
            cs = self.skip(cs[1:])
        return out, self.expect(cs, b)

    def entry(self, cs):
        if cs and lit(cs[0], '"'):
            k, cs = self.quoted(cs)
        else:
            n = 0
            while n < len(cs) and (lit(cs[n], "_-") or yes(cs[n], "is_ascii_alphanumeric")):
                n += 1
            k, cs = cs[:n], cs[n:]
        cs = self.skip(self.expect(self.skip(cs), "="))
        v, cs = self.value(cs)
        return (text(*k), v), cs

    ESC = {'"': 34, "\\": 92, "b": 8, "f": 12, "n": 10, "r": 13, "t": 9}

    def quoted(self, cs):
        cs = self.expect(cs, '"')
        out, bad = [], False
        while cs and not lit(cs[0], '"'):
            c, cs = cs[0], cs[1:]
            if not lit(c, "\\"):
                # a control character (other than a tab) cannot stand in a string
                bad = bad or not lit(c, "\t") and holds(c, "stringchar", lambda x: x >= 32 and x != 127) is not TRUE
                out.append(c)
                continue
            if not cs:
                raise Fail
            e, cs = cs[0], cs[1:]
            k = chr(e.a[0]) if e.op == "int" else None
            if k in self.ESC:
                out.append(INT(self.ESC[k]))
            elif k in ("u", "U"):
                n = 4 if k == "u" else 8
                d = cs[:n]
                if len(d) < n or not all(yes(c, "is_ascii_hexdigit") for c in d):
                    bad = True      # not an escape; the text may go on, but it is no string
                    continue
                cs = cs[n:]
                x = hexnum(d)
                if x.op == "int":
                    bad = bad or 0xD800 <= x.a[0] <= 0xDFFF or x.a[0] > 0x10FFFF
                    out.append(x)
                else:
                    out.append(APP("char", x))
            else:
                bad = True
        cs = self.expect(cs, '"')
        if bad:
            raise Fail
        return out, cs


def parse_of(cs, ty):
    ok = "0123456789+-" + ("" if ty != "f64" else ".eEinftyaNINFTYA")
    if not cs or any(holds(c, "numeric:" + ok, lambda v: chr(v) in ok) is FALSE for c in cs):
        return None
    return APP("parse:" + ty, text(*cs))


def strip(t):
    """forget which texts are owned"""
    m = {x: plain(x) for x in walk(t) if x.op == "app" and x.a[0] == OWNED}
    return subst(t, m) if m else t


DIGITS = {"D0": X("x0", ("0", "7")), "D1": X("x1", ("0", "9"), ("a", "f")), "D2": X("x2", ("A", "F")), "D3": X("x3", ("0", "9"))}


@rule("C16", "abstract interpretation of the parser of environment values over texts whose characters range over character classes, "
      "compared with the documented syntax: all texts of up to three characters, and composed literals, escapes, white space, "
      "nesting, truncations and continuations; positions in a text are computed in bytes, so a slice inside a character is a finding", 20, TRUSTED)
def C16(R):
    it = R.fn("from_str", "Value", "FromStr")
    old = ON[0]
    ON[0] = True

    def go():
        S = Spec(R)
        kinds = [(g, list(ds)) for g, ds in groups(R.tier == "thorough")]
        docs = [(g, k, d) for g, ds in kinds for k, d in ds]

        def check(group, name, cs):
            want = S.text(cs)
            try:
                e = R.ev(it, [text(*cs)])
                got = strip(e.v)
                if e.panics:
                    return f"{show(cs)}: can panic: {e.panics[0][1]}"
                if got is OK(want) or Cmp(R, {}, None).run(got, OK(want), 0)[0]:
                    return None
            except Exception as x:
                return f"{show(cs)}: undecided: {type(x).__name__} {x}"
            d = diff(got, OK(want))
            return f"{show(cs)}: got {cut(d[0])} where {cut(d[1])} is required"

        bad = R.share(docs, check)
        for g, ds in kinds:
            n = sum(1 for x in docs if x[0] == g)
            mine = [(k, msg) for gg, k, msg in bad if gg == g]
            for k, msg in mine[:3]:
                R.ob(f"{g}:{k}", False, it["span"], msg)
            R.ob(g, not mine, it["span"], f"{len(mine)} of {n} texts of this kind are read differently")
        R.floor("texts", len(docs), 5000)
        R.notes.append(f"{len(docs)} texts, each standing for every text of its character classes")
    try:
        R.case("texts", go)
    finally:
        ON[0] = old


def show(cs):
    return " ".join(chr(c.a[0]) if c.op == "int" and c.a[0] > 32 else f"<{c.a[0]}>" for c in cs) or "(empty)"


def L(s, **k):
    """a text: characters stand for themselves unless named"""
    return [k.get(c, INT(ord(c))) for c in s]


def groups(deep):
    A = [alphabet(i) for i in range(6)]
    plainset = ["letter", "upper", "hex", "digit", "white", "white2", "white3", "two", "three", "four", "control", "punct"]

    def every(length, kinds, specials):
        for combo in itertools.product(list(kinds) + list(specials), repeat=length):
            yield combo, [A[i][k] if k in A[i] else INT(ord(k)) for i, k in enumerate(combo)]

    def named(it):
        return (("".join(c if len(c) == 1 else f"<{c}>" for c in k).replace(" ", "_"), d) for k, d in it)
    yield "empty", [("empty", [])]
    allspecial = '"\'[]{},=\\.-+_ \tnuU'
    yield "one", named(every(1, plainset, allspecial))
    yield "two", named(every(2, plainset, allspecial))
    kinds = ["letter", "digit", "white", "three", "control"]
    if deep:
        kinds += ["hex", "two", "four", "punct", "white2"]
    yield "three", named(every(3, kinds, '"\'[]{},=\\.- n'))
    # texts between quotes
    q = INT(34)
    yield "quoted", ((k, [q, *d, q]) for k, d in named(every(2, plainset, allspecial + "bfrtx/0N\x7f")))
    yield "quoted3", ((k, [q, *d, q]) for k, d in named(every(3, ["letter", "three", "control"], '\\"\' nt,]\t')))
    yield "quotedchar", ((k, [INT(39), *d, INT(39)]) for j in (0, 1, 2) for k, d in named(every(j, plainset, allspecial)))
    yield "braces", ((k, [INT(ord(a)), *d, INT(ord(b))]) for a, b in ("[]", "{}", "[}", "{]") for j in (1, 2)
                     for k, d in named(every(j, ["letter", "digit", "three", "white", "white3"], '"\'[]{},=.- _')))
    yield "entry", ((k, [INT(123), A[5]["letter"], INT(61), *d, INT(125)]) for j in (0, 1, 2)
                    for k, d in named(every(j, ["letter", "digit", "three", "white"], '"\'[]{},=. ')))
    yield "key", ((k, [INT(123), *d, INT(61), A[5]["letter"], INT(125)]) for j in (0, 1, 2)
                  for k, d in named(every(j, plainset, allspecial)))
    # literals
    words = ["true", "false", "True", "TRUE", "truex", "tru", "xtrue", "falsey", "nil", "null", "1", "0", "-1", "+1", "1.", ".5", "1.5", "-0.5", "1e5",
             "1.5e3", "0x10", "1_000", "inf", "nan", "-inf", "inf.", "1.2.3", "127.0.0.1", "a.b", "hi", "a b", "a  b c", "true false", "a=b",
             "a\"b", "a'b", "a\\nb", "it's", "-", ".", "--", "1 2", "1 .5", "$x", "#c", "key = value", "http://x/y", "a:b", "a;b", "<x>", "t rue"]
    pads = [[], [INT(32)], [INT(9), INT(32)], [A[0]["white"]], [A[0]["white2"], INT(32)], [A[0]["white3"]]]
    wraps = [("", ""), ("[", "]"), ("[[", "]]"), ("{k=", "}"), ("[x,", "]"), ("[", ",x]"), ("{k=[", "]}"), ("[{k=", "}]"), ('{"k"=', ",}")]
    yield "words", ((f"{w}:{a}:{i}", [*p, *L(a), *p, *L(w), *p, *L(b), *p]) for w in words for a, b in wraps for i, p in enumerate(pads if len(a) < 2 else pads[:2]))
    # unknown numbers and words
    d = [X(f"n{i}", ("0", "9")) for i in range(4)]
    w = [X(f"w{i}", ("g", "k"), ("o", "q"), ("v", "z")) for i in range(4)]
    u = [A[i][k] for i, k in enumerate(["two", "three", "four"])]
    atoms = {"n": d[:1], "nn": d[:2], "nnnn": d, "-n": [INT(45), d[0]], "n.n": [d[0], INT(46), d[1]], "-n.nn": [INT(45), d[0], INT(46), d[1], d[2]],
             "+n": [INT(43), d[0]], "wnw": [w[0], d[0], w[1]], "w.w": [w[0], INT(46), w[1]], "nw": [d[0], w[0]], "uuu": u, "wuw": [w[0], u[1], w[1]],
             "w w": [w[0], INT(32), w[1]], "w\tu": [w[0], INT(9), u[2]], "n-n": [d[0], INT(45), d[1]], "n n": [d[0], INT(32), d[1]],
             "true1": [*L("true"), d[0]], "e": L("1e") + [d[0]], "true3": [*L("true"), u[1]], "u.n": [u[0], INT(46), d[0]]}
    yield "atoms", ((f"{k}:{a}{b}:{i}", [*p, *L(a), *p, *x, *p, *L(b), *p]) for k, x in atoms.items() for a, b in wraps[:1] + [("[", "]"), ("{k=", "}")]
                    for i, p in enumerate(pads))
    # escapes
    esc = {f"\\{c}": L("\\" + c) for c in 'bfnrt"\\'}
    esc.update({"u": L("\\u") + [DIGITS[k] for k in ("D0", "D1", "D2", "D3")], "U": L("\\U0000") + [DIGITS[k] for k in ("D0", "D1", "D2", "D3")],
                "U1": L("\\U0001") + [DIGITS[k] for k in ("D1", "D1", "D2", "D3")], "uA": L("\\u0041"), "umax": L("\\U0010FFFF"), "uFFFF": L("\\uFFFF"),
                "u1234": L("\\u1234"), "u0": L("\\u0000"), "ulow": L("\\uabcd")})
    inv = {"x": L("\\x41"), "a": L("\\a"), "0": L("\\0"), "'": L("\\'"), "/": L("\\/"), "N": L("\\N"), "u1": L("\\u1"), "u3": L("\\u123"), "uG": L("\\u12G4"),
           "usur": L("\\uD800"), "usur2": L("\\udfff"), "Ubig": L("\\U00110000"), "Uhuge": L("\\UFFFFFFFF"), "U7": L("\\U0000041"), "u+": L("\\u+041"),
           "u u": L("\\u 041"), "u-": L("\\u-041"), "ufw": L("\\u004") + [X("fw", (0xFF11, 0xFF19))], "e3": L("\\") + [A[0]["three"]], "u{": L("\\u{41}"),
           "ctl": [A[0]["control"]], "del": [INT(127)], "nl": [A[0]["white"]], "nul": [INT(0)]}
    before = {"": [], "w": [w[0]], "u": [u[1]], "t": [INT(9)], "sep": L(",]}={["), "e": L("\\n"), "s": L("' ")}
    around = [("", ""), ("[", "]"), ("{k=", "}"), ('{', '=1}')]
    yield "escapes", ((f"{k}:{b}:{a}:{o}", [*L(o), q, *before[b], *e, *before[a], q, *L(c)]) for k, e in {**esc, **inv}.items() for b in before for a in ("", "w", "u", "e", "t")
                      for o, c in around[:1 if a and not deep else 4])
    yield "escapes2", ((f"{a}:{b}", [q, *x, *y, q]) for a, x in {**esc, **inv}.items() for b, y in esc.items())
    # nesting, truncated and continued
    qs = [q, w[0], u[1], *L('\\",]'), q]
    qc = [INT(39), INT(ord("]")), INT(39)]
    leaf = {"w": [w[0]], "n": [d[0]], "q": qs, "c": qc, "e": [], "t": L("true"), "a": L("[]"), "o": L("{}")}
    docs = {}
    for i, (a, x) in enumerate(leaf.items()):
        docs[f"[{a}]"] = [*L("["), *x, *L("]")]
        docs[f"{{{a}}}"] = [*L("{"), w[1], *L("="), *x, *L("}")]
        docs[f"[[{a}]]"] = [*L("[["), *x, *L("]]")]
        docs[f"[{{{a}}}]"] = [*L("[{"), w[1], *L("="), *x, *L("}]")]
        docs[f"{{[{a}]}}"] = [*L("{"), w[1], *L("=["), *x, *L("]}")]
        docs[f"{{{{{a}}}}}"] = [*L("{"), w[1], *L("={"), w[2], *L("="), *x, *L("}}")]
        for b, y in leaf.items():
            if a == "n" == b:
                continue
            docs[f"[{a},{b}]"] = [*L("["), *x, *L(","), *y, *L("]")]
            docs[f"{{{a},{b}}}"] = [*L("{x="), *x, *L(",y="), *y, *L("}")]
            docs[f"[[{a}],{b}]"] = [*L("[["), *x, *L("],"), *y, *L("]")]
            docs[f"{{[{a}],{b}}}"] = [*L("{x={z="), *x, *L("},y="), *y, *L("}")]
    yield "nested", docs.items()
    yield "space", ((f"{k}:{i}", spaced(x, p)) for k, x in docs.items() for i, p in enumerate(pads[1:4] if deep else pads[1:2]))
    yield "space2", ((f"{k}:{i}", spaced(x, p)) for k, x in list(docs.items())[::7] for i, p in enumerate(pads[1:]))
    yield "cut", ((f"{k}:{i}", x[:i]) for k, x in docs.items() if deep or len(x) <= 8 for i in range(1, len(x)))
    yield "more", ((f"{k}:{t}", x + L(t, U=u[1])) for k, x in list(docs.items())[::1 if deep else 3] for t in ["x", " x", ",", "]", "}", '"', "U", " U", "[", ",a", "#"])
    yield "trailing", ((f"{k}:comma:{p}", x[:-1] + L(p) + x[-1:]) for k, x in docs.items() for p in (",", " ,", ", ", " , ", ",,"))
    # three elements, repeated keys, deeper nesting
    deepd = {"[3]": "[a,b,c]", "[3n]": "[a,[b],{k=c}]", "{3}": "{a=x,b=y,c=z}", "{dup}": "{a=x,a=y}", "{dup2}": "{a=x,b=z,a=y}", "4": "[[[[a]]]]", "4d": "{a={b={c={d=e}}}}",
             "mix": '{a=[b,{c=[d]}],e="f"}', "keys": '{"a b"=c,d-e=f,g_h=i,J9=k}', "keyesc": '{"a\\nb"=c}', "keyesc2": '{"\\u0041"="\\u0042"}',
             "nokey": "{=x}", "novalue": "{a=}", "nosep": '["a" "b"]', "nosep2": "[[a][b]]", "nosep3": "{a=b c=d}", "empty2": "[,]", "empty3": "[,a]", "dots": "{a.b=c}",
             "ukey": "{é=x}", "qkeyu": '{"é"=x}', "colon": "{a:b}", "two": "a,b", "two2": "[a],[b]", "two3": "{a=b}{c=d}", "eqq": "{a==b}", "qq": '""', "qqq": '"""', "sq": "''",
             "sqq": "'''", "par": "(a)", "unq": '"a', "unq2": 'a"', "bs": "\\", "bsq": '"\\', "bsq2": '"\\"', "ka": "{a=[}", "kb": "[{]", "kc": "]", "kd": "}", "ke": ",", "kf": "=",
             "kg": "a]", "kh": "a}", "ki": "a{b", "kj": "a[b", "kk": "a=b", "kl": "a={b}", "sp": "{a b=c}", "keyspace": "{ a = b , c = d }", "arrdict": "[ { a = [ b , c ] } , d ]"}
    yield "fixed", ((k, L(x)) for k, x in deepd.items())
    yield "fixedpad", ((k, [*p, *L(x), *p]) for k, x in deepd.items() for p in pads[1:])


def spaced(x, p):
    """white space at every place between two parts of a text where none of them is inside quotes"""
    out, i = list(p), 0
    while i < len(x):
        c = x[i]
        if lit(c, '"'):
            j = i + 1
            while not lit(x[j], '"'):
                j += 2 if lit(x[j], "\\") else 1
            part = x[i:j + 1]
        elif lit(c, "'"):
            part = x[i:i + 3]
        elif lit(c, "[]{},="):
            part = [c]
        else:
            j = i
            while j < len(x) and not lit(x[j], "[]{},=\"'"):
                j += 1
            part = x[i:j]
        out += part + list(p)
        i += len(part)
    return out
