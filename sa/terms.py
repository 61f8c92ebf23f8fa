"""The abstract value domain: Herbrand terms with linear integer normal forms, byte-layout
sequences, aggregates, references and future/lock handles. All values are hashable tuples.

  ('int', n)                         integer / bool / char constant
  ('lin', c, ((term, k), ...))       c + sum k*term
  ('t', op, *args)                   uninterpreted term
  ('agg', kind, name, variant, fs)   kind: adt | tuple | array | closure | coroutine
  ('ref', alloc, path, mut)          reference to a place
  ('box', alloc) ('arc', alloc)      owning pointers
  ('buf', segs)                      byte string as a sequence of segments
  ('fn', key)                        function item
  ('fut', op, args)                  future of an external operation
  ('guard', lock)                    lock guard
  ('moved',) ('uninit',)             no value
"""

UNIT = ("agg", "tuple", "", 0, ())
MOVED = ("moved",)
UNINIT = ("uninit",)
TRUE = ("int", 1)
FALSE = ("int", 0)


def I(n):
    return ("int", n)


def term(op, *args):
    return ("t", op) + args


def is_term(v):
    return v[0] in ("t", "lin")


def is_int(v):
    return v[0] == "int"


def lin(v):
    """value -> (const, {term: coef})"""
    if v[0] == "int":
        return v[1], {}
    if v[0] == "lin":
        return v[1], dict(v[2])
    return 0, {v: 1}


def mk_lin(c, d):
    d = {t: k for t, k in d.items() if k != 0}
    if not d:
        return ("int", c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return ("lin", c, tuple(sorted(d.items(), key=repr)))


def add(a, b):
    c1, d1 = lin(a)
    c2, d2 = lin(b)
    for t, k in d2.items():
        d1[t] = d1.get(t, 0) + k
    return mk_lin(c1 + c2, d1)


def neg(a):
    c, d = lin(a)
    return mk_lin(-c, {t: -k for t, k in d.items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if a[0] == "int" or b[0] == "int":
        if b[0] == "int":
            a, b = b, a
        c, d = lin(b)
        return mk_lin(c * a[1], {t: k * a[1] for t, k in d.items()})
    return term("mul", *sorted((a, b), key=repr))


# ---- byte strings
def buf(*segs):
    out = []
    for s in segs:
        if s[0] == "k":
            if not s[1]:
                continue
            if out and out[-1][0] == "k":
                out[-1] = ("k", out[-1][1] + s[1])
                continue
        if s[0] == "be" and s[2][0] == "int":
            s = ("k", (s[2][1] % (1 << (8 * s[1]))).to_bytes(s[1], "big"))
            if out and out[-1][0] == "k":
                out[-1] = ("k", out[-1][1] + s[1])
                continue
        if s[0] == "le" and s[2][0] == "int":
            s = ("k", (s[2][1] % (1 << (8 * s[1]))).to_bytes(s[1], "little"))
            if out and out[-1][0] == "k":
                out[-1] = ("k", out[-1][1] + s[1])
                continue
        if s[0] == "le" and s[1] == 1:
            s = ("be", 1, s[2])
        if s[0] == "z" and s[1] == ("int", 0):
            continue
        if s[0] == "z" and s[1][0] == "int" and s[1][1] <= 64:
            s = ("k", bytes(s[1][1]))
            if out and out[-1][0] == "k":
                out[-1] = ("k", out[-1][1] + s[1])
                continue
        if s[0] == "raw" and s[1][0] == "buf":
            for x in s[1][1]:
                out.append(x)
            continue
        if s[0] == "sub":
            # ('sub', source, offset, length): a range of the bytes of an opaque source
            if s[3] == ("int", 0):
                continue
            if out and out[-1][0] == "sub" and out[-1][1] == s[1] and add(out[-1][2], out[-1][3]) == s[2]:
                s = ("sub", s[1], out[-1][2], add(out[-1][3], s[3]))
                out.pop()
            if s[2] == ("int", 0) and s[3] == raw_len(s[1]):
                s = ("raw", s[1])
        out.append(s)
    return ("buf", tuple(out))


EMPTY = ("buf", ())


def cat(a, b):
    return buf(*(a[1] + b[1]))


def seg_len(s):
    if s[0] == "k":
        return I(len(s[1]))
    if s[0] in ("be", "le"):
        return I(s[1])
    if s[0] == "z":
        return s[1]
    if s[0] == "raw":
        return raw_len(s[1])
    if s[0] == "sub":
        return s[3]
    return term("len", s)


def raw_len(t):
    if len(t) == 3 and t[0] == "t" and t[1] == "enc":
        return add(I(1), term("len", t))        # an encoded event is never empty
    return term("len", t)


def buf_len(b):
    n = I(0)
    for s in b[1]:
        n = add(n, seg_len(s))
    return n


def as_buf(v):
    """content view of a value as bytes"""
    if v[0] == "buf":
        return v
    if v[0] == "agg" and v[1] == "array" and all(f[0] == "int" for f in v[4]):
        return buf(("k", bytes(f[1] & 255 for f in v[4])))
    if v[0] == "agg" and v[1] == "array":
        return buf(*[("be", 1, f) for f in v[4]])
    return ("buf", (("raw", v),))


def subterms(v):
    if v != ():
        yield v
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple):
                yield from subterms(x)


def mentions(v, pred):
    if not isinstance(v, tuple):
        return False
    if len(v) > 1 and pred(v):
        return True
    for x in v:
        if isinstance(x, tuple) and mentions(x, pred):
            return True
    return False


TYBITS = {}     # width of the types integer terms were seen with


def bits(t):
    """upper bound of the number of bits of an integer term, None if unknown"""
    a = _bits(t)
    b = TYBITS.get(t) if t[0] == "t" else None
    return b if a is None else a if b is None else min(a, b)


def _bits(t):
    if t[0] == "int":
        return max(t[1].bit_length(), 0) if t[1] >= 0 else None
    if t[0] == "t":
        if t[1] == "rd":       # ('t','rd', source, offset, bytes, endianness)
            return 8 * t[4]
        if t[1] in ("len", "count"):
            return 63
        if t[1] in ("trunc",):
            return t[2]
        if t[1] == "min":
            bs = [b for b in (bits(t[2]), bits(t[3])) if b is not None]
            return min(bs) if bs else None
        if t[1] == "rem" and t[3][0] == "int":
            return t[3][1].bit_length()
        if t[1] == "and":
            bs = [b for b in (bits(t[2]), bits(t[3])) if b is not None]
            return min(bs) if bs else None
        if t[1] in ("eq", "lt", "le", "not", "ovf"):
            return 1
        if t[1] == "typed" and isinstance(t[2], int):
            return t[2]
        if t[1] == "max":
            a, b = bits(t[2]), bits(t[3])
            return max(a, b) if a is not None and b is not None else None
    return None


def show(v, depth=0):
    """compact rendering for reports"""
    if depth > 12:
        return "…"
    if not isinstance(v, tuple) or not v:
        return str(v)
    s = lambda x: show(x, depth + 1)
    k = v[0]
    if k == "int":
        return str(v[1])
    if k == "lin":
        parts = []
        for t, c in v[2]:
            parts.append(("%s" if c == 1 else "-%s" if c == -1 else str(c) + "*%s") % s(t))
        if v[1]:
            parts.append(str(v[1]))
        return "(" + " + ".join(parts) + ")"
    if k == "t":
        if v[1] == "sym":
            return str(v[2])
        if v[1] == "f":
            return s(v[2]) + "." + str(v[3])
        if v[1] == "*":
            return "*" + s(v[2])
        return str(v[1]) + "(" + ", ".join(s(x) for x in v[2:]) + ")"
    if k == "agg":
        n = str(v[2]).split("::")[-1]
        return "%s%s(%s)" % (n, "#%s" % v[3] if v[1] == "adt" else "", ", ".join(s(x) for x in v[4]))
    if k == "ref":
        return "&" + str(v[1]) + "".join("." + str(e) for e in v[2])
    if k == "buf":
        return "[" + " ".join(s(x) for x in v[1]) + "]"
    return "(" + " ".join(s(x) for x in v) + ")"
