"""Interpretation of abstract values under sample valuations of their unknowns.

A difference between two symbolic byte strings is only reported when there is a valuation of the unknown
numbers that agrees with everything the path has decided and under which the two really differ; without
one the analysis merely failed to see that they are equal. Nothing of the analysed program is executed:
this interprets the terms of the abstract domain.
"""
import random

from terms import *

SIZES = (0, 1, 2, 3, 5, 8)
OPS = ("min", "max", "and", "or", "xor", "shl", "shr", "div", "rem", "trunc", "lt", "eq", "not", "mul", "satsub")


class Infeasible(Exception):
    pass


def atoms(v, out):
    """the unknown numbers a number or condition is made of"""
    if v[0] == "int":
        return
    if v[0] == "lin":
        for t, _ in v[2]:
            atoms(t, out)
        return
    if v[0] == "t" and v[1] in OPS and all(isinstance(x, int) or isinstance(x, tuple) and x and x[0] in ("int", "lin", "t") for x in v[2:]):
        for x in v[2:]:
            if isinstance(x, tuple):
                atoms(x, out)
        return
    out.add(v)


def constants(v, out):
    """the numbers a condition compares with"""
    if v[0] == "int":
        out.add(v[1])
    elif v[0] == "lin":
        out.add(v[1])
        for t, _ in v[2]:
            constants(t, out)
    elif v[0] == "t":
        for x in v[2:]:
            if isinstance(x, tuple) and x:
                constants(x, out)


def value(v, env):
    if v[0] == "int":
        return v[1]
    if v[0] == "lin":
        return v[1] + sum(k * value(t, env) for t, k in v[2])
    if v in env:
        return env[v]
    op = v[1]
    a = [x if isinstance(x, int) else value(x, env) for x in v[2:]]
    if op == "min":
        return min(a)
    if op == "max":
        return max(a)
    if op == "lt":
        return int(a[0] < a[1])
    if op == "eq":
        return int(a[0] == a[1])
    if op == "not":
        return int(not a[0])
    if op == "mul":
        return a[0] * a[1]
    if op == "satsub":
        return max(a[0] - a[1], 0)
    if op == "trunc":
        return a[1] % (1 << a[0])
    if min(a) < 0 or op in ("div", "rem") and a[1] == 0 or op in ("shl", "shr") and a[1] > 127:
        raise Infeasible()
    return {"and": lambda x, y: x & y, "or": lambda x, y: x | y, "xor": lambda x, y: x ^ y, "shl": lambda x, y: x << y, "shr": lambda x, y: x >> y,
            "div": lambda x, y: x // y, "rem": lambda x, y: x % y}[op](*a)


def content(b, env, length):
    """a byte string as runs [source, first, length]; zeros and known bytes have sources of their own"""
    out = []

    def run(src, first, n):
        if n < 0 or first < 0:
            raise Infeasible()
        if n == 0:
            return
        if out and out[-1][0] == src and (src == "zeros" or src != "byte" and out[-1][1] + out[-1][2] == first):
            out[-1] = (src, out[-1][1], out[-1][2] + n)
        else:
            out.append((src, first, n))

    def known(bs):
        for x in bs:
            run("byte" if x else "zeros", x, 1)

    for s in b[1]:
        if s[0] == "k":
            known(s[1])
        elif s[0] in ("be", "le"):
            n = value(s[2], env)
            if n < 0:
                raise Infeasible()
            known((n % (1 << (8 * s[1]))).to_bytes(s[1], "big" if s[0] == "be" else "little"))
        elif s[0] == "z":
            run("zeros", 0, value(s[1], env))
        elif s[0] == "raw":
            run(s[1], 0, length(s[1], env))
        elif s[0] == "sub":
            run(s[1], value(s[2], env), value(s[3], env))
        else:
            raise Infeasible()
    return out


def cut(runs, n):
    out = []
    for src, first, k in runs:
        if n <= 0:
            break
        out.append((src, first, min(k, n)))
        n -= k
    return out


def total(runs):
    return sum(r[2] for r in runs)


def numbers_of(b, out):
    for s in b[1]:
        if s[0] in ("be", "le"):
            atoms(s[2], out)
        elif s[0] == "z":
            atoms(s[1], out)
        elif s[0] == "raw":
            atoms(raw_len(s[1]), out)
        elif s[0] == "sub":
            atoms(s[2], out)
            atoms(s[3], out)


def valuations(st, bufs, tries=4000, seed=1):
    """valuations of the unknown numbers in byte strings that agree with what a path knows"""
    facts = [(f, v) for f, v in st.facts.items() if f[0] == "t" and f[1] in ("lt", "eq", "not", "and", "or")]
    eqs = [(t, v) for t, v in st.ref.items() if t[0] in ("t", "lin") and v[0] in ("int", "lin", "t") and not (t[0] == "t" and t[1] in ("lt", "eq", "not"))]
    want = set()
    for b in bufs:
        numbers_of(b, want)
    # conditions about the same numbers matter too
    todo, used = True, set()
    while todo:
        todo = False
        for f, v in facts + [(("t", "eq", t, w), True) for t, w in eqs]:
            a = set()
            atoms(f, a)
            if f not in used and a & want:
                used.add(f)
                want |= a
                todo = True
    if len(want) > 14:
        return
    conds = [(f, v) for f, v in facts + [(("t", "eq", t, w), True) for t, w in eqs] if f in used]
    names = sorted(want, key=repr)
    ints = set()
    for f, _ in conds:
        constants(f, ints)
    for b in bufs:
        for s in b[1]:
            for x in s[1:]:
                if isinstance(x, tuple) and x and x[0] in ("int", "lin", "t"):
                    constants(x, ints)
    sizes = sorted(set(SIZES) | {x for c in ints if abs(c) < 1 << 40 for x in (abs(c) - 1, abs(c), abs(c) + 1, 2 * abs(c) + 7) if x >= 0})
    r = random.Random(seed)
    for i in range(tries):
        env = {x: r.choice(SIZES if r.random() < 0.4 else sizes) for x in names}
        try:
            if all(bool(value(f, env)) == bool(v) for f, v in conds):
                yield env
        except (Infeasible, KeyError):
            continue


def length(t, env):
    n = raw_len(t)
    v = value(n, env)
    if v < 0:
        raise Infeasible()
    return v


def differ(st, whole, part, prefix=True):
    """a valuation under which part is not how whole starts (or not the same): True if there is one, False if
    there is none among many, None if nothing can be said"""
    n = 0
    for env in valuations(st, (whole, part)):
        try:
            a, b = content(whole, env, length), content(part, env, length)
        except (Infeasible, KeyError):
            continue
        if (cut(a, total(b)) if prefix else a) != b:
            return True
        n += 1
        if n >= 200:
            break
    return False if n else None


def exceeds(st, a, b):
    """a valuation under which the number a is more than b: True if there is one, False if there is none among
    many, None if nothing can be said"""
    n = 0
    for env in valuations(st, (("buf", (("z", a), ("z", b))),)):
        try:
            if min(value(a, env), value(b, env)) < 0:
                continue
            n += 1
            if value(a, env) > value(b, env):
                return True
        except (Infeasible, KeyError):
            continue
    return False if n else None
