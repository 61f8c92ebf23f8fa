"""Byte string slicing and integer views on top of terms."""
from terms import *


def slice_buf(b, lo, hi, ge0=None):
    """bytes lo..hi of b; None if the bounds cannot be located"""
    n = sub(hi, lo)
    if n == ("int", 0):
        return EMPTY
    out = []
    pos = I(0)
    taking = False
    for i, s in enumerate(b[1]):
        sl = seg_len(s)
        end = add(pos, sl)
        start_in = None
        if not taking:
            d = sub(lo, pos)
            if d == ("int", 0):
                taking = True
                start_in = I(0)
            elif _inside(d, sl, ge0, strict=True):
                taking = True
                start_in = d
        else:
            start_in = I(0)
        if taking:
            e = sub(hi, pos)
            if e == sl:
                out.append(_cut(s, start_in, sl))
                return None if None in out else buf(*out)
            if _inside(e, sl, ge0, strict=False):
                out.append(_cut(s, start_in, e))
                return None if None in out else buf(*out)
            c = _cut(s, start_in, sl)
            out.append(c)
        pos = end
    if taking and pos == hi:
        return None if None in out else buf(*out)
    return None


def _inside(d, n, ge0, strict):
    """0 < d < n (or <= n)"""
    if d[0] == "int" and n[0] == "int":
        return 0 < d[1] and (d[1] < n[1] if strict else d[1] <= n[1])
    if ge0 is None:
        return d[0] == "int" and d[1] > 0
    return ge0(sub(n, d)) and ge0(d)


def _cut(s, a, b):
    """bytes a..b of one segment"""
    if a == ("int", 0) and b == seg_len(s):
        return s
    n = sub(b, a)
    if s[0] == "k" and a[0] == "int" and b[0] == "int":
        return ("k", s[1][a[1]:b[1]])
    if s[0] == "raw":
        return ("sub", s[1], a, n)
    if s[0] == "sub":
        return ("sub", s[1], add(s[2], a), n)
    if s[0] == "z":
        return ("z", n)
    if s[0] in ("be", "le"):
        return ("sub", term("enc", s[0], s[1], s[2]), a, n)
    return None


def int_of(b, endian):
    """the integer a byte string encodes"""
    if len(b[1]) == 1:
        s = b[1][0]
        if s[0] == "k":
            return I(int.from_bytes(s[1], "big" if endian == "be" else "little"))
        if s[0] in ("be", "le"):
            if s[0] == endian or s[1] == 1:
                return s[2]
            return term("swap", s[1], s[2])
        n = seg_len(s)
        if n[0] == "int":
            e = "be" if n[1] == 1 else endian
            if s[0] == "sub":
                return term("rd", s[1], s[2], n[1], e)
            if s[0] == "raw":
                return term("rd", s[1], I(0), n[1], e)
            if s[0] == "z":
                return I(0)
    return None


def byte_at(b, i, ge0=None):
    x = slice_buf(b, i, add(i, I(1)), ge0)
    if x is None:
        return None
    return int_of(x, "be")
