"""Bit-provenance domain: an unsigned word as a sequence of segments, each a
constant or a slice of a source term (from the least significant bit)."""
from terms import *


def seg(w, src, lo): return mk("seg", w, src, lo)


def tobits(x, w):
    if x.op == "int":
        return [(w, x.a[0] & ((1 << w) - 1), None)]
    if x.op == "bits":
        r = []
        tot = 0
        for s in x.a[1:]:
            sw, src, lo = s.a
            r.append((sw, src.a[0], None) if src.op == "int" else (sw, src, lo))
            tot += sw
        if tot < w:
            r.append((w - tot, 0, None))
        return cutlow(r, w)
    if x.op == "app" and x.a[0].startswith("icast:u"):
        _, f, t = x.a[0].split(":")
        if f[1:].isdigit() and t[0] == "u":
            fw = int(f[1:])
            if fw < w:
                return tobits(x.a[1], fw) + [(w - fw, 0, None)]
            return cutlow(tobits(x.a[1], fw), w)
    return [(w, x, 0)]


def cutlow(segs, w):
    r = []
    for s in segs:
        if w <= 0:
            break
        if s[0] <= w:
            r.append(s)
        elif s[2] is None:
            r.append((w, s[1] & ((1 << w) - 1), None))
        else:
            r.append((w, s[1], s[2]))
        w -= r[-1][0]
    return r


def frombits(segs, w):
    out = []
    for s in segs:
        if s[0] == 0:
            continue
        if out:
            p = out[-1]
            if p[2] is None and s[2] is None:
                out[-1] = (p[0] + s[0], p[1] | (s[1] << p[0]), None)
                continue
            if p[2] is not None and s[2] is not None and p[1] is s[1] and p[2] + p[0] == s[2]:
                out[-1] = (p[0] + s[0], p[1], p[2])
                continue
        out.append(s)
    if len(out) == 1:
        if out[0][2] is None:
            return INT(out[0][1])
        if out[0][2] == 0 and out[0][0] == w and w in (8, 16, 32, 64, 128):
            return out[0][1]
    return mk("bits", w, *[seg(a, INT(b) if c is None else b, 0 if c is None else c) for a, b, c in out])


def split(a, b):
    """align two segment lists"""
    a, b = list(a), list(b)
    while a and b:
        n = min(a[0][0], b[0][0])
        def take(l):
            w, s, lo = l[0]
            if w == n:
                l.pop(0)
                return (n, s, lo)
            if lo is None:
                l[0] = (w - n, s >> n, None)
                return (n, s & ((1 << n) - 1), None)
            l[0] = (w - n, s, lo + n)
            return (n, s, lo)
        yield take(a), take(b)


def runs(w, c):
    """constant c of width w as runs of equal bits"""
    i = 0
    while i < w:
        b = (c >> i) & 1
        j = i
        while j < w and ((c >> j) & 1) == b:
            j += 1
        yield (j - i, b)
        i = j


def refine(x):
    r = []
    for s in x:
        if s[2] is None:
            for n, b in runs(s[0], s[1]):
                r.append((n, ((1 << n) - 1) if b else 0, None))
        else:
            r.append(s)
    return r


def bitop(op, x, y, w):
    """And/Or/Xor; None when not expressible"""
    out = []
    for p, q in split(refine(tobits(x, w)), refine(tobits(y, w))):
        n = p[0]
        ones = (1 << n) - 1
        if q[2] is None and p[2] is not None:
            p, q = q, p
        if p[2] is None and q[2] is None:
            v = p[1] & q[1] if op == "BitAnd" else p[1] | q[1] if op == "BitOr" else p[1] ^ q[1]
            out.append((n, v, None))
        elif p[2] is None:
            c = p[1]
            if op == "BitAnd":
                out.append((n, 0, None) if c == 0 else q)
            elif op == "BitOr":
                out.append((n, ones, None) if c else q)
            elif c == 0:
                out.append(q)
            else:
                return None
        elif p[1] is q[1] and p[2] == q[2] and op != "BitXor":
            out.append(p)
        else:
            return None
    return frombits(out, w)


def disjoint(x, y, w):
    """no bit can be set in both words"""
    z = lambda s: s[2] is None and s[1] == 0
    return all(z(p) or z(q) or (p[2] is None and q[2] is None and not p[1] & q[1])
               for p, q in split(refine(tobits(x, w)), refine(tobits(y, w))))


def shl(x, n, w):
    return frombits(cutlow([(n, 0, None)] + tobits(x, w), w), w) if 0 <= n < w else None


def shr(x, n, w):
    if not 0 <= n < w:
        return None
    out, k = [], n
    for s in tobits(x, w):
        if k >= s[0]:
            k -= s[0]
            continue
        if k:
            s = (s[0] - k, s[1] >> k, None) if s[2] is None else (s[0] - k, s[1], s[2] + k)
            k = 0
        out.append(s)
    return frombits(out + [(n, 0, None)], w)


def resize(x, fw, tw):
    s = tobits(x, fw)
    s = s + [(tw - fw, 0, None)] if tw > fw else cutlow(s, tw)
    return frombits(s, tw)


def eqconst(x, v):
    """guard for bits term x == v"""
    w = x.a[0]
    g = TRUE
    if v < 0 or v >> w:
        return FALSE
    pos = 0
    for s in x.a[1:]:
        n, src, lo = s.a
        want = (v >> pos) & ((1 << n) - 1)
        pos += n
        if src.op == "int":
            if src.a[0] != want:
                return FALSE
            continue
        g = gand(g, gate(frombits([(n, src, lo)], n), want))
    return g


def _recon(w, *segs):
    out = [[]]
    leafsets = [s.a[1] for s in segs]
    if any(x.op == "sw" for x in leafsets):
        i = next(i for i, x in enumerate(leafsets) if x.op == "sw")
        return mapleaves(leafsets[i], lambda y: _recon(w, *(segs[:i] + (mk("seg", segs[i].a[0], y, segs[i].a[2]),) + segs[i + 1:])))
    r = []
    for s in segs:
        n, src, lo = s.a
        if src.op == "int":
            r.append((n, (src.a[0] >> lo) & ((1 << n) - 1), None))
        elif src.op == "bits":
            t = shr(src, lo, src.a[0]) if lo else src
            r.extend(cutlow(tobits(t, max(src.a[0], n)), n))
        else:
            r.append((n, src, lo))
    return frombits(r, w)


RECON["bits"] = _recon
