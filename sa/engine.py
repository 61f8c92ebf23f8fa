"""Path-sensitive, interprocedural value-flow analysis of MIR (abstract interpretation with trace
partitioning over the term domain of terms.py).

The abstract state consists of a memory (places -> terms), the pending calls, the branch
conditions assumed so far and the list of effects (events) on the way. Every control flow edge
the facts do not refute is followed, local callees are analysed in the context of their call,
coroutines are followed through every await point (continued, and dropped there), loops are
widened to arbitrary iterations. Nothing of the analysed crate is executed.
"""
import sys
import time
from facts import Facts
from terms import *
from slices import slice_buf, int_of, byte_at

sys.setrecursionlimit(10000)
DEADLINE = [None]  # time after which nothing more is explored (what is missing is recorded as undecided)

OPTION = "core::option::Option"
RESULT = "core::result::Result"
POLL = "core::task::poll::Poll"
CFLOW = "core::ops::control_flow::ControlFlow"
ORDERING = "core::cmp::Ordering"

BUILTIN_ENUMS = {
    OPTION: [(0, 0), (1, 1)],
    RESULT: [(0, 1), (1, 1)],
    POLL: [(0, 1), (1, 0)],
    CFLOW: [(0, 1), (1, 1)],
    ORDERING: [(-1, 0), (0, 0), (1, 0)],
}


def mk(name, variant, *fs):
    return ("agg", "adt", name, variant, tuple(fs))


NONE = mk(OPTION, 0)
PENDING = mk(POLL, 1)


def some(v):
    return mk(OPTION, 1, v)


def ok(v):
    return mk(RESULT, 0, v)


def err(v):
    return mk(RESULT, 1, v)


def ready(v):
    return mk(POLL, 0, v)


def tup(*fs):
    return ("agg", "tuple", "", 0, tuple(fs))


class Budget(Exception):
    pass


class Bug(Exception):
    """the analysis met a construct it has no rule for"""


class Frame:
    __slots__ = ("fid", "body", "subst", "bb", "co", "visits", "conc", "drop_mode")

    def __init__(self, fid, body, subst, bb=0, co=None):
        self.fid = fid
        self.body = body
        self.subst = subst
        self.bb = bb
        self.co = co          # place the coroutine lives in
        self.visits = {}
        self.conc = False
        self.drop_mode = None

    def copy(self):
        f = Frame(self.fid, self.body, self.subst, self.bb, self.co)
        f.visits = dict(self.visits)
        f.conc = self.conc
        f.drop_mode = self.drop_mode
        return f


class Native:
    """continuation of a modelled function waiting for a result"""
    __slots__ = ("k", "what")

    def __init__(self, k, what=""):
        self.k = k
        self.what = what

    def copy(self):
        return self


class State:
    __slots__ = ("mem", "stack", "trace", "facts", "ref", "n", "task", "notes")

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.stack = [f.copy() for f in self.stack]
        s.trace = self.trace
        s.facts = dict(self.facts)
        s.ref = dict(self.ref)
        s.n = self.n
        s.task = self.task
        s.notes = self.notes
        return s

    def events(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out


class Event:
    __slots__ = ("kind", "args", "fn", "span", "task", "i")

    def __init__(self, kind, args, fn, span, task, i=0):
        self.i = i            # what is allocated later has a greater number
        self.kind = kind
        self.args = args
        self.fn = fn
        self.span = span
        self.task = task

    def site(self):
        return "%s (%s)" % (self.fn, self.span)

    def __repr__(self):
        return "%s(%s) @%s" % (self.kind, ", ".join(show(a) for a in self.args), self.span)


class Path:
    """one abstract path of a root, with its result"""
    __slots__ = ("out", "value", "st", "ev", "root", "task", "site", "E", "x", "since")

    def __init__(self, out, value, st, root, site=""):
        self.out = out
        self.value = value
        self.st = st
        self.ev = st.events()
        self.root = root
        self.since = 0
        self.task = st.task
        self.site = site


class Engine:
    def __init__(self, facts, max_paths=60000, max_steps=6000000, verbose=False):
        self.F = facts
        self.models = {}
        self.name_models = []
        self.max_paths = max_paths
        self.tracing = False  # are log messages formatted
        self.max_steps = max_steps
        self.verbose = verbose
        self.exact_atomics = False
        self.steps = 0
        self.npaths = 0
        self.tycache = {}
        self.fns = {}
        self.cfg = {}
        self.fidn = 0
        self.nfresh = 0
        self.unroll = 0
        self.counted = 12
        self.livec = {}
        self.analysed = set()
        self.unmodelled = {}
        self.calls_seen = set()
        self.trait_fns = {}
        self.stubs = {}
        self.repoll = 0       # how often a root future that was not ready is polled again
        self.follow_tasks = True
        self.drop_root = None      # storage whose value is dropped instead of calling a function
        for i in facts.impls:
            for m, bid in i["items"]:
                self.trait_fns.setdefault((i.get("trait"), m), []).append((i, bid))
        import models
        models.install(self)
        global models_poll_read, models_write_buf
        models_poll_read = models.poll_read_leaf
        models_write_buf = models.write_buf_ready

    # ------------------------------------------------------------------ types
    def ty(self, i, subst=None):
        """interned type -> hashable type with generics replaced"""
        if isinstance(i, tuple):
            return self.tsub(i, subst) if subst else i
        if isinstance(i, dict):
            if "c" in i:
                return ("const", str(i["c"]))
            return ("unknown",)
        if i is None:
            return ("unknown",)
        t = self.tycache.get(i)
        if t is None:
            t = self.tycache[i] = self._ty(i)
        if subst and _has_param(t):
            t = self.tsub(t, subst)
        return t

    def _ty(self, i):
        t = self.F.types[i]
        k = t["k"]
        if k == "int":
            n = t["n"]
            return ("int", n, t.get("bits", 0), t.get("signed", False))
        if k in ("float", "str", "never"):
            return (k, t.get("n", k))
        if k in ("adt", "proj", "opaque", "inh", "free", "fndef"):
            return (k, t["n"], tuple(self.ty(x) for x in t["a"]), t.get("d"))
        if k == "ref":
            return ("ref", t["mut"], self.ty(t["t"]))
        if k == "ptr":
            return ("ptr", t["mut"], self.ty(t["t"]))
        if k == "tuple":
            return ("tuple", tuple(self.ty(x) for x in t["a"]))
        if k == "slice":
            return ("slice", self.ty(t["t"]))
        if k == "array":
            return ("array", self.ty(t["t"]), t["len"])
        if k == "param":
            return ("param", t["i"], t["n"])
        if k in ("closure", "coroutine"):
            return (k, t["d"], tuple(self.ty(x) for x in t["a"]))
        if k == "dyn":
            return ("dyn", t["n"])
        return (k, str(t.get("n", "")))

    def tsub(self, t, subst):
        if not isinstance(t, tuple):
            return t
        if t and t[0] == "param":
            return subst.get(t[1], t)
        if t and t[0] == "proj":
            a = tuple(self.tsub(x, subst) for x in t[2])
            return self.norm_proj(("proj", t[1], a, t[3] if len(t) > 3 else None))
        return tuple(self.tsub(x, subst) if isinstance(x, tuple) else x for x in t)

    def norm_proj(self, t):
        # <Self as Trait>::Name with a known impl
        name = t[1]
        tr, _, item = name.rpartition("::")
        if not t[2]:
            return t
        r = self.find_impl(tr, t[2][0])
        if r:
            im, sub_ = r
            for n, ty in im.get("types", []):
                if n == item:
                    return self.ty(ty, sub_)
        return t

    def unify(self, pat, t, b):
        if pat[0] == "param":
            if pat[1] in b:
                return b[pat[1]] == t
            b[pat[1]] = t
            return True
        if pat[0] == "proj":
            return True
        if pat[0] != t[0]:
            return False
        if len(pat) != len(t):
            return False
        for x, y in zip(pat[1:], t[1:]):
            if isinstance(x, tuple) and isinstance(y, tuple):
                if x and isinstance(x[0], str):
                    if not y or not isinstance(y[0], str) or not self.unify(x, y, b):
                        return False
                else:
                    if len(x) != len(y):
                        return False
                    for p, q in zip(x, y):
                        if not self.unify(p, q, b):
                            return False
            elif x != y:
                if pat[0] in ("adt", "closure", "coroutine") and x is None:
                    continue
                return False
        return True

    def find_impl(self, trait, selft, args=None, blanket=True):
        best = None
        for im in self.F.impls:
            if im.get("trait") != trait:
                continue
            pt = self.ty(im["self"])
            if pt[0] == "param":
                if not blanket or selft[0] in ("param", "proj", "opaque", "unknown"):
                    continue
                b = {pt[1]: selft}
                if args is not None and not self._unify_args(im, args, b):
                    continue
                if best is None:
                    best = (im, b)
                continue
            b = {}
            if self.unify(pt, selft, b):
                if args is not None and not self._unify_args(im, args, b):
                    continue
                return im, b
        return best

    def _unify_args(self, im, args, b):
        ia = im.get("args")
        if not ia:
            return True
        for x, y in zip(ia, args):
            if isinstance(x, int):
                if not self.unify(self.ty(x), y, b):
                    return False
        return True

    def impl_by_adt(self, trait, adt):
        for im in self.F.impls:
            if im.get("trait") == trait:
                pt = self.ty(im["self"])
                if pt[0] == "adt" and pt[1] == adt:
                    return im
        return None

    # ------------------------------------------------------------------ memory
    def load_alloc(self, st, a):
        v = st.mem.get(a)
        if v is None:
            if a[0] == "p":
                return ("t", "*", a[1])
            if a[0] == "c":
                return a[1]
            if a[0] == "pos":
                return I(0)
            return UNINIT
        return v

    def norm(self, st, v):
        """apply what is known about a term"""
        seen = 0
        while v[0] in ("t", "lin") and v in st.ref and seen < 20:
            v = st.ref[v]
            seen += 1
        return v

    def field(self, st, v, e):
        """projection of a value"""
        k = e[0]
        if v[0] in ("t", "lin"):
            v = self.norm(st, v)
        if k == "f":
            if v[0] == "agg":
                if v[1] == "lazy":
                    for i, x in v[4]:
                        if i == e[1]:
                            return x
                    return self.field(st, v[2], e)
                if e[1] < len(v[4]):
                    return v[4][e[1]]
                return UNINIT
            if v[0] == "t":
                if v[1] == "as":
                    return ("t", "vf", v[2], v[3], e[1])
                return ("t", "f", v, e[2] if e[2] else str(e[1]))
            if v[0] in ("ref", "box", "arc", "fut"):
                return v                       # Pin, Unique, NonNull ... wrap the pointer
            if v[0] == "guard":
                return v
            return UNINIT if v[0] in ("uninit", "moved") else ("t", "f", v, e[2] or str(e[1]))
        if k == "v":
            if v[0] == "t":
                return ("t", "as", v, e[1])
            return v
        if k == "i":
            idx = e[1]
            if v[0] == "t" and v[1] == "vecpush" and idx[0] == "int":
                v = pushed(v)
            if v[0] == "agg" and v[1] == "array" and idx[0] == "int" and idx[1] < len(v[4]):
                return v[4][idx[1]]
            x = byte_at(as_buf(v), idx, lambda l: self.ge0(st, l)) if v[0] in ("buf",) else None
            if x is not None:
                return x
            if v[0] == "t" and v[1] == "repeat":
                return v[2]
            return ("t", "idx", v, idx)
        if k == "sl":
            part = sub_array(v, e[1], e[2])
            if part is not None:
                return part
            b = self.content(st, v)
            x = slice_buf(b, e[1], e[2], lambda l: self.ge0(st, l))
            return x if x is not None else ("t", "slice", b, e[1], e[2])
        return v

    def content(self, st, v):
        """bytes of a value"""
        if v[0] in ("t", "lin"):
            v = self.norm(st, v)
        b = as_buf(v)
        if any(s[0] == "raw" and s[1] in st.ref for s in b[1]):
            out = []
            for s in b[1]:
                if s[0] == "raw" and s[1] in st.ref:
                    out.extend(as_buf(self.norm(st, s[1]))[1])
                else:
                    out.append(s)
            b = buf(*out)
        return b

    def load(self, st, alloc, path):
        v = self.load_alloc(st, alloc)
        for e in path:
            v = self.field(st, v, e)
        if v[0] in ("t", "lin"):
            v = self.norm(st, v)
        return v

    def upd(self, st, v, path, new):
        if not path:
            return new
        e = path[0]
        k = e[0]
        if v[0] in ("t",):
            v = self.norm(st, v)
        if k == "f":
            if v[0] == "agg" and v[1] != "lazy" and e[1] < len(v[4]):
                fs = list(v[4])
                fs[e[1]] = self.upd(st, fs[e[1]], path[1:], new)
                return v[:4] + (tuple(fs),)
            if v[0] in ("ref", "box", "arc"):
                return self.upd(st, v, path[1:], new) if path[1:] else new
            base = v[2] if v[0] == "agg" and v[1] == "lazy" else v
            ov = dict(v[4]) if v[0] == "agg" and v[1] == "lazy" else {}
            old = self.field(st, v, e)
            ov[e[1]] = self.upd(st, old, path[1:], new)
            return ("agg", "lazy", base, 0, tuple(sorted(ov.items())))
        if k == "v":
            return self.upd(st, v, path[1:], new)
        if k == "i":
            if v[0] == "t" and v[1] == "vecpush":
                v = pushed(v)
            if v[0] == "agg" and v[1] == "array" and e[1][0] == "int" and e[1][1] < len(v[4]):
                fs = list(v[4])
                fs[e[1][1]] = self.upd(st, fs[e[1][1]], path[1:], new)
                return v[:4] + (tuple(fs),)
            if (v[0] == "buf" or v[:2] in (("t", "keybytes"), ("t", "pubbytes"))) and not path[1:] and new[0] in ("int", "lin", "t"):
                b = self.content(st, v)
                g = lambda l: self.ge0(st, l)
                a = slice_buf(b, I(0), e[1], g)
                c = slice_buf(b, add(e[1], I(1)), buf_len(b), g)
                if a is not None and c is not None:
                    return cat(cat(a, buf(("be", 1, new))), c)
            return self.fresh(st, "elem")
        if k == "sl":
            b = self.content(st, v)
            n = buf_len(b)
            g = lambda l: self.ge0(st, l)
            a = slice_buf(b, I(0), e[1], g)
            c = slice_buf(b, e[2], n, g)
            if a is None or c is None:
                return self.fresh(st, "bytes")
            mid = self.upd(st, self.field(st, v, e), path[1:], new)
            return cat(cat(a, as_buf(mid)), c)
        return new

    def store(self, st, alloc, path, v):
        if not path:
            st.mem[alloc] = v
        else:
            st.mem[alloc] = self.upd(st, self.load_alloc(st, alloc), path, v)

    def fresh(self, st, what, *info):
        self.nfresh += 1
        return ("t", "?" + what, self.nfresh) + info

    def new_alloc(self, st, v, tag="h"):
        st.n += 1
        a = (tag, st.n)
        st.mem[a] = v
        return a

    def place(self, st, fr, p):
        alloc, path = ("l", fr.fid, p[0]), ()
        for e in p[1:]:
            if e == "*":
                v = self.load(st, alloc, path)
                alloc, path = self.target(st, v)
            elif e == "cast":
                continue
            elif e[0] == "f":
                path = path + (("f", e[1], e[2] or str(e[1])),)
            elif e[0] == "v":
                path = path + (("v", e[1]),)
            elif e[0] == "i":
                path = path + (("i", self.load(st, ("l", fr.fid, e[1]), ())),)
            elif e[0] == "ci":
                if not e[3]:
                    path = path + (("i", I(e[1])),)
                else:
                    n = self.length(st, self.load(st, alloc, path))
                    path = path + (("i", sub(n, I(e[1]))),)
            elif e[0] == "ss":
                n = self.length(st, self.load(st, alloc, path))
                path = path + (("sl", I(e[1]), sub(n, I(e[2])) if e[3] else I(e[2])),)
            else:
                raise Bug("place element %r" % (e,))
        return alloc, path

    def target(self, st, v):
        """what a pointer points to"""
        if v[0] in ("t", "lin"):
            v = self.norm(st, v)
        if v[0] == "ref":
            return v[1], v[2]
        if v[0] in ("box", "arc"):
            return v[1], ()
        if v[0] == "agg" and v[1] == "adt" and len(v[4]) == 1:
            return self.target(st, v[4][0])
        if v[0] == "guard":
            return v[1], v[2]
        return ("p", v), ()

    def at(self, st, ptr):
        """value behind a pointer"""
        a, p = self.target(st, ptr)
        return self.load(st, a, p)

    def deref_all(self, st, v, n=5):
        """value behind any number of references"""
        while n and v[0] in ("ref", "box", "arc"):
            v = self.at(st, v)
            n -= 1
        if v[0] in ("t", "lin"):
            v = self.norm(st, v)
        return v

    def strip(self, st, v):
        """values of references to string-like things: content regardless of the number of refs"""
        v = self.deref_all(st, v)
        while v[0] == "t" and v[1] == "*":
            v = v[2]
        return v

    def snap(self, st, v, depth=6):
        """value with references replaced by what they refer to now (for events)"""
        if depth == 0 or not isinstance(v, tuple) or not v:
            return v
        if v[0] in ("t", "lin"):
            w = self.norm(st, v)
            if w is not v:
                return self.snap(st, w, depth - 1)
            return v
        if v[0] in ("ref", "box", "arc"):
            x = self.at(st, v)
            if x[0] in ("uninit",):
                return v
            return ("&", v[1], v[2] if v[0] == "ref" else (), self.snap(st, x, depth - 1), v[0])
        if v[0] == "agg" and v[1] != "lazy":
            return v[:4] + (tuple(self.snap(st, x, depth - 1) for x in v[4]),)
        return v

    def length(self, st, v):
        if v[0] in ("t", "lin"):
            v = self.norm(st, v)
        if v[0] == "buf":
            return buf_len(v)
        if v[0] == "agg" and v[1] == "array":
            return I(len(v[4]))
        if v[0] == "t" and v[1] == "repeat":
            return v[3]
        if v[0] == "t" and v[1] == "vecnew":
            return I(0)
        if v[0] == "t" and v[1] == "vecpush":
            w = pushed(v)
            if w[0] == "agg":
                return I(len(w[4]))
        return raw_len(v)

    # ------------------------------------------------------------------ arithmetic knowledge
    def upper(self, t):
        b = bits(t)
        return None if b is None else (1 << b) - 1

    def ge0(self, st, l, depth=4):
        """is the linear term provably >= 0 (all variables are unsigned)"""
        c, d = lin(l)
        if c >= 0 and all(k > 0 for k in d.values()):
            return True
        # constants against known upper bounds
        lo = c
        for t, k in d.items():
            if k < 0:
                u = self.upper(t)
                if u is None:
                    lo = None
                    break
                lo += k * u
        if lo is not None and lo >= 0:
            return True
        if depth == 0:
            return False
        for t, k in d.items():
            if k < 0 and t[0] == "t" and t[1] == "min":
                for a in (t[2], t[3]):
                    if self.ge0(st, add(l, mul(I(k), sub(a, t))), depth - 1):
                        return True
        for f, val in st.facts.items():
            g = fact_ge0(f, val)
            if g is not None and g != l:
                x = sub(l, g)
                cx, dx = lin(x)
                if len(dx) < len(d) or (cx >= 0 and all(k > 0 for k in dx.values())):
                    if self.ge0(st, x, depth - 1):
                        return True
            elif g == l:
                return True
        return False

    def decide(self, st, c):
        """truth of a boolean term: True, False or None"""
        if c[0] in ("t", "lin"):
            c = self.norm(st, c)
        if c[0] == "int":
            return c[1] != 0
        if c[0] != "t":
            return None
        if c in st.facts:
            return st.facts[c]
        op = c[1]
        if op == "not":
            r = self.decide(st, c[2])
            return None if r is None else not r
        if op == "lt":
            a, b = self.norm(st, c[2]), self.norm(st, c[3])
            if (a, b) != (c[2], c[3]):
                return self.decide(st, lt(a, b))
            if self.ge0(st, sub(sub(b, a), I(1))):
                return True
            if self.ge0(st, sub(a, b)):
                return False
        if op == "eq":
            a, b = self.norm(st, c[2]), self.norm(st, c[3])
            if (a, b) != (c[2], c[3]):
                return self.decide(st, eq(a, b))
            if a == b:
                return True
            d = sub(a, b)
            if self.ge0(st, sub(d, I(1))) or self.ge0(st, sub(neg(d), I(1))):
                return False
            if is_data(a) and is_data(b) and distinct(a, b):
                return False
        if op == "and":
            x, y = self.decide(st, c[2]), self.decide(st, c[3])
            if x is False or y is False:
                return False
            if x and y:
                return True
        if op == "or":
            x, y = self.decide(st, c[2]), self.decide(st, c[3])
            if x or y:
                return True
            if x is False and y is False:
                return False
        return None

    def assume(self, st, c, val):
        """record a condition; False if it contradicts what is known"""
        r = self.decide(st, c)
        if r is not None:
            return r == val
        c = self.norm(st, c)
        if c[0] == "t" and c[1] == "not":
            return self.assume(st, c[2], not val)
        st.facts[c] = val
        if c[0] == "t" and c[1] == "eq" and val:
            self.assume_eq(st, c[2], c[3])
        elif c[0] == "t" and c[1] == "lt":
            # not (0 < x) => x = 0;  x < 1 => x = 0
            d = sub(c[3], c[2])
            if val and c[3] == ("int", 1):
                self.assume_eq(st, c[2], I(0))
            elif not val and c[2] == ("int", 0):
                self.assume_eq(st, c[3], I(0))
            elif not val and self.ge0(st, d):
                self.assume_eq(st, c[2], c[3])
        elif c[0] == "t" and c[1] == "and" and val:
            return self.assume(st, c[2], True) and self.assume(st, c[3], True)
        elif c[0] == "t" and c[1] == "or" and not val:
            return self.assume(st, c[2], False) and self.assume(st, c[3], False)
        elif c[0] == "t":
            st.ref[c] = TRUE if val else FALSE
        return True

    def assume_eq(self, st, a, b):
        if a[0] not in ("t", "lin", "int") or b[0] not in ("t", "lin", "int"):
            return
        d = sub(a, b)
        c, m = lin(d)
        cand = [t for t, k in m.items() if abs(k) == 1]
        if not cand:
            return
        cand.sort(key=lambda t: (0 if str(t[1]).startswith("?loop") else 1 if str(t[1]).startswith("?") else 2, -len(repr(t))))
        t = cand[0]
        k = m[t]
        rest = {x: y for x, y in m.items() if x != t}
        val = mk_lin(c, rest)
        val = neg(val) if k == 1 else val
        if mentions(val, lambda x: x == t):
            return
        st.ref[t] = val
        if t[1].startswith("?loop"):
            for al, v in list(st.mem.items()):
                st.mem[al] = subst_term(v, t, val)

    # ------------------------------------------------------------------ events
    def site(self, st):
        for f in reversed(st.stack):
            if isinstance(f, Frame):
                b = f.body
                t = b["blocks"][f.bb]["t"]
                return b["name"], t.get("span", b.get("span", ""))
        return "", ""

    def emit(self, st, kind, *args):
        fn, span = self.site(st)
        st.trace = (st.trace, Event(kind, args, fn, span, st.task, st.n))

    def note(self, st, what):
        if what not in st.notes:
            st.notes = st.notes + (what,)

    # ------------------------------------------------------------------ control
    def deliver(self, st, v):
        """a call returned v"""
        top = st.stack[-1]
        if isinstance(top, Native):
            st.stack.pop()
            return top.k(self, st, v)
        t = top.body["blocks"][top.bb]["t"]
        if t["k"] == "call":
            a, p = self.place(st, top, t["dest"])
            self.store(st, a, p, v)
            if t.get("to") is None:
                return self.finish(st, "diverge", v)
            self.goto(st, top, t["to"])
        elif t["k"] in ("drop",):
            self.goto(st, top, t["to"])
        elif t["k"] == "yield":
            self.goto(st, top, t["drop"])
        else:
            raise Bug("deliver at " + t["k"])
        return [st]

    def goto(self, st, fr, bb):
        fr.bb = bb

    def finish(self, st, out, v=UNIT):
        fn, span = self.site(st)
        self.outcomes.append(Path(out, v, st, self.root, "%s (%s)" % (fn, span)))
        self.npaths += 1
        if self.npaths > self.max_paths:
            raise Budget("more than %d paths" % self.max_paths)
        return []

    def heads(self, body):
        h = self.cfg.get(body["id"])
        if h is None:
            h = self.cfg[body["id"]] = loop_heads(body)
        return h[0]

    def run(self, states):
        work = list(states)
        while work:
            st = work.pop()
            while st is not None:
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Budget("more than %d steps" % self.max_steps)
                if DEADLINE[0] and not self.steps & 255 and time.time() > DEADLINE[0]:
                    raise Budget("out of time")
                top = st.stack[-1]
                if isinstance(top, Native):
                    raise Bug("native frame on top: " + top.what)
                r = self.step(st, top)
                if r is None:
                    continue
                if not r:
                    st = None
                else:
                    st = r[-1]
                    work.extend(r[:-1])

    def step(self, st, fr):
        body = fr.body
        if fr.bb in self.heads(body):
            r = self.loop_head(st, fr)
            if r is False:
                return self.finish(st, "loop")
        bb = body["blocks"][fr.bb]
        for s in bb["s"]:
            k = s[0]
            if k == "=":
                v = self.rvalue(st, fr, s[2])
                a, p = self.place(st, fr, s[1])
                self.store(st, a, p, v)
            elif k == "live":
                st.mem.pop(("l", fr.fid, s[1]), None)
            elif k == "dead":
                pass
            elif k == "setd":
                pass
        return self.terminator(st, fr, bb["t"])

    def terminator(self, st, fr, t):
        k = t["k"]
        if k == "goto":
            fr.bb = t["to"]
            return None
        if k == "switch":
            return self.switch(st, fr, t)
        if k == "return":
            v = self.load(st, ("l", fr.fid, 0), ())
            return self.ret(st, fr, v)
        if k == "drop":
            a, p = self.place(st, fr, t["p"])
            ty = self.ty(t["t"], fr.subst)
            return self.drop(st, a, p, ty)
        if k == "call":
            return self.call(st, fr, t)
        if k == "assert":
            return self.do_assert(st, fr, t)
        if k == "yield":
            # suspended: the coroutine stays where it is
            st.stack.pop()
            a, p = fr.co
            self.store(st, a, p, ("cosusp", fr.fid, fr.bb, fr.body["id"], tuple(sorted(fr.subst.items()))))
            st.mem[("cf", fr.fid)] = (dict(fr.visits),)
            return self.deliver(st, PENDING)
        if k == "codrop":
            st.stack.pop()
            return self.deliver(st, UNIT)
        if k == "unreachable":
            return []
        if k == "resume":
            return []
        raise Bug("terminator " + k)

    def ret(self, st, fr, v):
        st.stack.pop()
        if fr.co is not None:
            a, p = fr.co
            self.store(st, a, p, ("codone",))
            self.forget(st, fr.fid)
            return self.deliver(st, ready(v))
        self.forget(st, fr.fid)
        return self.deliver(st, v)

    def forget(self, st, fid):
        # locals of the frame are dead (references to them do not outlive it)
        n = len(st.mem)
        if n > 400:
            for a in [a for a in st.mem if a[0] == "l" and a[1] == fid]:
                del st.mem[a]

    def loop_head(self, st, fr):
        if fr.conc:
            fr.conc = False
            return True
        n = fr.visits.get(fr.bb, 0)
        rec = ("lh", fr.fid, fr.bb)
        if isinstance(n, tuple):
            n = n[0]
        inner = self.cfg[fr.body["id"]][1].get(fr.bb, ())
        for h in inner:
            fr.visits.pop(h, None)
        if n == 0:
            fr.visits[fr.bb] = 1
            fr.visits.pop(("c", fr.bb), None)
            fr.visits.pop(("u", fr.bb), None)
            st.mem[rec] = (snapshot(st),)
            self.emit(st, "loop", fr.body["id"], fr.bb, 1)
            return True
        if n == 1:
            old = st.mem[rec][0]
            same = self.same_state(st, old, fr)
            if not same and fr.visits.pop(("c", fr.bb), None) and fr.visits.get(("u", fr.bb), 0) < self.counted:
                # whether to go on was decided by known numbers: iteration by iteration
                fr.visits[("u", fr.bb)] = fr.visits.get(("u", fr.bb), 0) + 1
                st.mem[rec] = (snapshot(st),)
                return True
            if not same and self.unroll:
                if fr.visits.get(("u", fr.bb), 0) >= self.unroll:
                    self.note(st, "loop at %s bb%d followed for %d iterations" % (fr.body["name"], fr.bb, self.unroll))
                    return False
                fr.visits[("u", fr.bb)] = fr.visits.get(("u", fr.bb), 0) + 1
                st.mem[rec] = (snapshot(st),)
                return True
            if same:
                # nothing the next iteration can see has changed: it has the same paths as this one
                self.emit(st, "loop", fr.body["id"], fr.bb, 3)
                return False
            fr.visits[fr.bb] = 2
            tmpl = self.widen(st, old, fr)
            st.mem[rec] = (old, tmpl)
            self.emit(st, "loop", fr.body["id"], fr.bb, 2)
            return True
        self.emit(st, "loop", fr.body["id"], fr.bb, 3)
        old, tmpl = st.mem[rec]
        if not self.inductive(st, tmpl):
            self.note(st, "loop relation not inductive at %s bb%d" % (fr.body["name"], fr.bb))
        return False

    def live_at(self, body, bb):
        r = self.livec.get(body["id"])
        if r is None:
            r = self.livec[body["id"]] = liveness(body)
        return r[bb]

    def same_state(self, st, old, fr):
        """is the state at a loop head the one of the previous visit, as far as it can be observed"""
        for a, v in st.mem.items():
            if a[0] == "pos" and old.get(a, I(0)) != v:
                return False
        seen = set()
        work = []
        for f in st.stack:
            if isinstance(f, Frame):
                for l in (self.live_at(f.body, f.bb) if f is fr else range(len(f.body["locals"]))):
                    work.append(("l", f.fid, l))
                if f.co:
                    pass
        while work:
            a = work.pop()
            if a in seen:
                continue
            seen.add(a)
            v, o = st.mem.get(a, UNINIT), old.get(a, UNINIT)
            if v != o and not (v[0] in ("moved", "uninit") and o[0] in ("moved", "uninit")):
                return False
            for x in allocs_of(v):
                work.append(x)
        return True

    def widen(self, st, old, fr):
        """replace what an iteration changed by an arbitrary value; keeps x - x0 relations"""
        changed = []
        for a, v in st.mem.items():
            if a[0] == "lh" or a[0] == "cf":
                continue
            o = old.get(a)
            if o is None:
                if a[0] == "pos":
                    o = I(0)
                else:
                    continue
            if o != v:
                changed.append((a, o, v))
        # references stay: a loop cursor that moves over a slice becomes a fresh reference
        self.nfresh += 1
        L = ("t", "?loop", self.nfresh)
        tmpl = {"L": L, "ints": {}, "bufs": {}}
        delta = None
        # pick the quantity that counts: the first int or buffer that grows by a symbolic amount
        for a, o, v in changed:
            d = self.delta(o, v)
            if d is not None and d != I(0):
                delta = d
                break
        for a, o, v in changed:
            nv, info = self.widen_value(st, a, o, v, delta, L, tmpl, ())
            st.mem[a] = nv
        return tmpl

    def delta(self, o, v):
        if num(o) and num(v):
            return sub(v, o)
        if o[0] == "buf" and v[0] == "buf" and v[1][:len(o[1])] == o[1]:
            return buf_len(("buf", v[1][len(o[1]):]))
        return None

    def widen_value(self, st, a, o, v, delta, L, tmpl, path):
        if o == v:
            return v, None
        if v[0] in ("uninit", "moved"):
            return v, None
        if num(o) and num(v):
            d = sub(v, o)
            if delta is not None and d == delta:
                nv = add(o, L)
                tmpl["ints"][(a, path)] = nv
                return nv, None
            if delta is not None and d == neg(delta):
                nv = sub(o, L)
                tmpl["ints"][(a, path)] = nv
                st.facts[lt(o, L)] = False
                return nv, None
            return self.fresh(st, "loopv"), None
        if o[0] == "buf" and v[0] == "buf" and v[1][:len(o[1])] == o[1]:
            ext = v[1][len(o[1]):]
            if len(ext) == 1 and delta is not None and buf_len(("buf", ext)) == delta:
                s = ext[0]
                if s[0] == "sub":
                    nv = buf(*(o[1] + (("sub", s[1], s[2], L),)))
                    tmpl["bufs"][(a, path)] = nv
                    return nv, None
            nv = buf(*(o[1] + (("raw", self.fresh(st, "loopbuf")),)))
            return nv, None
        if o[0] == "agg" and v[0] == "agg" and o[1] == v[1] and o[2] == v[2] and o[3] == v[3] and len(o[4]) == len(v[4]) and o[1] != "lazy":
            fs = tuple(self.widen_value(st, a, x, y, delta, L, tmpl, path + (i,))[0] for i, (x, y) in enumerate(zip(o[4], v[4])))
            return v[:4] + (fs,), None
        if o[0] in ("ref", "box", "arc") and v[0] == o[0]:
            return v, None
        if v[0] in ("cosusp", "codone", "corun", "ref", "box", "arc", "fn", "guard"):
            return v, None
        return self.fresh(st, "loopv"), None

    def inductive(self, st, tmpl):
        L = tmpl["L"]
        steps = set()
        for (a, path), nv in list(tmpl["ints"].items()) + list(tmpl["bufs"].items()):
            v = st.mem.get(a)
            if v is None:
                continue
            for i in path:
                if v[0] != "agg" or i >= len(v[4]):
                    return False
                v = v[4][i]
            if v == nv:
                continue
            d = self.delta(nv, v) if num(nv) else self.delta_buf(nv, v)
            if d is None:
                return False
            c, m = lin(nv) if num(nv) else (0, {L: 1})
            if m.get(L) == -1:
                d = neg(d)
            steps.add(d)
        return len(steps) <= 1

    def delta_buf(self, o, v):
        if v[0] != "buf" or len(v[1]) != len(o[1]):
            return None
        s, t = o[1][-1], v[1][-1]
        if s[0] == "sub" and t[0] == "sub" and s[1] == t[1] and s[2] == t[2]:
            return sub(t[3], s[3])
        return None

    # ------------------------------------------------------------------ branching
    def switch(self, st, fr, t):
        v = self.operand(st, fr, t["on"])
        cases = t["cases"]
        if v[0] in ("t", "lin"):
            v = self.norm(st, v)
        if v[0] == "int":
            self.heads(fr.body)
            for h in self.cfg[fr.body["id"]][2].get(fr.bb, ()):
                fr.visits[("c", h)] = True
            for c, bb in cases:
                if c == v[1]:
                    fr.bb = bb
                    return None
            fr.bb = t["else"]
            return None
        if v[0] == "t" and v[1] == "discr":
            return self.switch_enum(st, fr, t, v)
        is_bool = v[0] == "t" and v[1] in BOOLOPS or self.ty(t["t"], fr.subst)[:2] == ("int", "bool")
        if is_bool:
            r = self.decide(st, v)
            if r is not None:
                n = 1 if r else 0
                for c, bb in cases:
                    if c == n:
                        fr.bb = bb
                        return None
                fr.bb = t["else"]
                return None
        out = []
        for c, bb in cases:
            s2 = st.copy()
            if is_bool:
                if not self.assume(s2, v, c != 0):
                    continue
            else:
                if not self.assume(s2, eq(v, I(c)), True):
                    continue
            s2.stack[-1].bb = bb
            out.append(s2)
        # default
        if fr.body["blocks"][t["else"]]["t"]["k"] != "unreachable" or fr.body["blocks"][t["else"]]["s"]:
            okk = True
            for c, bb in cases:
                if is_bool:
                    if not self.assume(st, v, c == 0):
                        okk = False
                        break
                elif not self.assume(st, eq(v, I(c)), False):
                    okk = False
                    break
            if okk:
                fr.bb = t["else"]
                out.append(st)
        return out

    def discrs(self, name):
        a = self.F.adts.get(name)
        if a and a["kind"] == "enum":
            return [(v["discr"], len(v["f"])) for v in a["v"]]
        return BUILTIN_ENUMS.get(name)

    def switch_enum(self, st, fr, t, v):
        base, name = v[2], v[3]
        ds = self.discrs(name)
        out = []
        rest = dict((c, bb) for c, bb in t["cases"])
        for i, (d, nf) in enumerate(ds):
            bb = rest.get(d, t["else"])
            if fr.body["blocks"][bb]["t"]["k"] == "unreachable" and not fr.body["blocks"][bb]["s"]:
                continue
            if st.facts.get(("t", "isvar", base, i)) is False:
                continue
            s2 = st.copy()
            self.refine(s2, base, name, i, nf)
            s2.stack[-1].bb = bb
            out.append(s2)
        return out

    def refine(self, st, base, name, i, nf):
        st.ref[base] = mk(name, i, *[("t", "vf", base, i, j) for j in range(nf)])

    def variants(self, st, v, name):
        """[(state, variant, fields)] of an enum value"""
        if v[0] in ("t", "lin"):
            v = self.norm(st, v)
        if v[0] == "agg" and v[1] == "adt":
            return [(st, v[3], v[4])]
        out = []
        ds = self.discrs(name)
        if ds is None:
            raise Bug("enum " + name)
        for i, (d, nf) in enumerate(ds):
            if st.facts.get(("t", "isvar", v, i)) is False:
                continue
            s2 = st.copy() if i < len(ds) - 1 else st
            if v[0] == "t":
                self.refine(s2, v, name, i, nf)
                out.append((s2, i, s2.ref[v][4]))
            else:
                out.append((s2, i, tuple(("t", "vf", v, i, j) for j in range(nf))))
        return out

    def do_assert(self, st, fr, t):
        c = self.operand(st, fr, t["cond"])
        msg = t["msg"]
        exp = bool(t["exp"])
        r = self.decide(st, c)
        ops = [self.operand(st, fr, o) for o in t.get("ops", []) if isinstance(o, dict)]
        kind = msg if isinstance(msg, str) else str(msg)
        if r is not None and r == exp:
            self.emit(st, "proved", kind, *ops)
            fr.bb = t["to"]
            return None
        self.emit(st, "maypanic", kind, *ops)
        if r is not None:
            return self.finish(st, "panic")
        self.assume(st, c, exp)
        fr.bb = t["to"]
        return None

    # ------------------------------------------------------------------ values
    def operand(self, st, fr, o):
        if "copy" in o:
            a, p = self.place(st, fr, o["copy"])
            return self.load(st, a, p)
        if "move" in o:
            a, p = self.place(st, fr, o["move"])
            v = self.load(st, a, p)
            if v[0] not in ("int",):
                self.store(st, a, p, MOVED)
            return v
        return self.const(st, fr, o["const"])

    def const(self, st, fr, c):
        if "fn" in c:
            key = (c["fn"], c.get("d"), tuple(self.ty(x, fr.subst) for x in c.get("a", [])))
            self.fns[key] = c
            return ("fn", key)
        if "promoted" in c:
            pb = None
            b = fr.body
            ps = b["promoted_bodies"]
            if c.get("pd") in (None, b["id"]) or b["kind"] == "Promoted":
                if c["promoted"] < len(ps):
                    pb = ps[c["promoted"]]
            else:
                ob = self.F.bodies.get(c["pd"])
                pb = ob["promoted_bodies"][c["promoted"]] if ob else None
            if pb is None:
                return ("t", "const", c.get("s", "?"))
            return self.promoted(st, pb, fr)
        if "v" in c:
            return self.cval(c["v"], self.ty(c["t"], fr.subst), c)
        if "static" in c:
            return self.static(c["static"])
        if "name" in c:
            return ("t", "const", c["name"])
        t = self.ty(c["t"], fr.subst)
        if t[0] == "fndef":
            return ("fn", (t[1], t[3] if len(t) > 3 else None, t[2]))
        return ("t", "const", c.get("s", "?"))

    def cval(self, v, t, c=None):
        if "int" in v:
            return I(v["int"])
        if "str" in v:
            return ("ref", ("c", buf(("k", v["str"].encode()))), (), False)
        if "static" in v:
            return self.static(v["static"])
        if "ref" in v:
            inner = t[2] if t[0] == "ref" else ("unknown",)
            return ("ref", ("c", self.cval(v["ref"], inner)), (), False)
        if "bytes" in v:
            return buf(("k", bytes(v["bytes"])))
        if "zst" in v:
            if t[0] == "fndef":
                return ("fn", (t[1], t[3] if len(t) > 3 else None, t[2]))
            return UNIT
        if "variant" in v:
            if t[0] == "adt":
                ad = self.F.adts.get(t[1])
                fts = []
                if ad:
                    try:
                        fts = [self.ty(f["t"], dict(enumerate(t[2]))) for f in ad["v"][v["variant"]]["f"]]
                    except (IndexError, KeyError):
                        fts = []
                fs = [self.cval(x, fts[i] if i < len(fts) else ("unknown",)) for i, x in enumerate(v["fields"])]
                return mk(t[1], v["variant"], *fs)
            if t[0] == "tuple":
                return tup(*[self.cval(x, t[1][i]) for i, x in enumerate(v["fields"])])
            return ("agg", "array", "", 0, tuple(self.cval(x, t[1] if t[0] == "array" else ("unknown",)) for x in v["fields"]))
        return ("t", "const", str(c.get("s") if c else v))

    def static(self, n):
        x = self.F.statics.get(n)
        if x and x.get("v"):
            t = self.ty(x["t"])
            u = t
            while u[0] == "ref" and not u[1]:
                u = u[2]
            if u[0] in ("str", "int"):
                return ("ref", ("c", self.cval(x["v"], t)), (), False)
        return ("t", "static", n)

    def promoted(self, st, pb, fr):
        # promoted constants are straight line code
        self.fidn += 1
        f2 = Frame(("pr", self.fidn), pb, fr.subst)
        n = 0
        while n < 200:
            n += 1
            bb = pb["blocks"][f2.bb]
            for s in bb["s"]:
                if s[0] == "=":
                    v = self.rvalue(st, f2, s[2])
                    a, p = self.place(st, f2, s[1])
                    self.store(st, a, p, v)
            t = bb["t"]
            if t["k"] == "goto":
                f2.bb = t["to"]
                continue
            if t["k"] == "assert":
                f2.bb = t["to"]
                continue
            if t["k"] == "call":
                a, p = self.place(st, f2, t["dest"])
                self.store(st, a, p, ("t", "const", pb["id"]))
                f2.bb = t["to"]
                continue
            break
        v = self.load(st, ("l", f2.fid, 0), ())
        return v

    def rvalue(self, st, fr, r):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k in ("ref",):
            a, p = self.place(st, fr, r[2])
            return ("ref", a, p, r[1] == "mut")
        if k == "reborrow":
            a, p = self.place(st, fr, r[1])
            return ("ref", a, p, True)
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            n = r[2]
            n = n if isinstance(n, int) else _int(n)
            if n is not None and v == ("int", 0):
                return buf(("z", I(n))) if n > 64 else buf(("k", bytes(n)))
            if n is not None and v[0] == "int" and 0 <= v[1] < 256 and n <= 4096:
                return buf(("k", bytes([v[1]]) * n))
            return ("t", "repeat", v, I(n) if n is not None else ("t", "const", str(r[2])))
        if k == "cast":
            return self.cast(st, fr, r)
        if k == "bin":
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            ty = self.ty(r[4], fr.subst) if len(r) > 4 else ("unknown",)
            return self.binop(st, r[1], a, b, ty)
        if k == "un":
            a = self.operand(st, fr, r[2])
            if a[0] in ("t", "lin"):
                a = self.norm(st, a)
            if r[1] == "Not":
                d = self.decide(st, a) if a[0] != "int" else None
                if a[0] == "int":
                    if a[1] in (0, 1):
                        return I(1 - a[1])
                    return ("t", "bitnot", a)
                return nott(a)
            if r[1] == "Neg":
                return neg(a)
            if r[1] == "PtrMetadata":
                return self.length(st, self.at(st, a))
            return ("t", r[1], a)
        if k == "discr":
            a, p = self.place(st, fr, r[1])
            v = self.load(st, a, p)
            ty = self.ty(r[2], fr.subst)
            return self.discr(st, v, ty)
        if k == "agg":
            ak = r[1]
            ops = tuple(self.operand(st, fr, o) for o in r[2])
            kk = ak["k"]
            if kk == "adt":
                if ak["n"] in TRANSPARENT and len(ops) == 1:
                    return ops[0]
                return ("agg", "adt", ak["n"], ak["v"], ops)
            if kk == "tuple":
                return tup(*ops)
            if kk == "array":
                return ("agg", "array", "", 0, ops)
            if kk in ("closure", "coroutine"):
                args = tuple(self.ty(x, fr.subst) for x in ak["a"])
                return ("agg", kk, (ak["d"], args), 0, ops)
            raise Bug("aggregate " + kk)
        if k == "tls":
            return ("t", "static", str(r[1:]))
        return ("t", "rv", str(r)[:80])

    def discr(self, st, v, ty):
        if v[0] in ("t", "lin"):
            v = self.norm(st, v)
        if v[0] == "agg" and v[1] == "lazy":
            v = v[2]
            if v[0] == "t":
                v = self.norm(st, v)
        name = ty[1] if ty[0] == "adt" else None
        if v[0] == "agg" and v[1] == "adt":
            ds = self.discrs(v[2])
            if ds:
                return I(ds[v[3]][0])
            return I(v[3])
        if v[0] in ("uninit", "moved"):
            return self.fresh(st, "discr")
        if name and self.discrs(name):
            return ("t", "discr", v, name)
        return ("t", "discr?", v)

    def cast(self, st, fr, r):
        v = self.operand(st, fr, r[2])
        kind = r[1]
        to = self.ty(r[3], fr.subst)
        if kind == "IntToInt":
            return self.int_cast(st, v, to, self.ty(r[4], fr.subst) if len(r) > 4 else ("unknown",))
        if kind.startswith("coerce") or kind in ("PtrToPtr", "Transmute", "Subtype", "FnPtrToPtr"):
            return v
        if kind in ("FloatToInt", "IntToFloat", "FloatToFloat"):
            return ("t", "cast", str(to[1]), v)
        return v

    def int_cast(self, st, v, to, fr_ty=("unknown",)):
        if v[0] in ("t", "lin"):
            v = self.norm(st, v)
        n = to[2] if to[0] == "int" else 0
        if to[0] == "int" and to[1] in ("usize", "isize"):
            n = 64
        if v[0] == "int":
            x = v[1]
            if n:
                x %= 1 << n
                if to[3] and x >> (n - 1):
                    x -= 1 << n
            return I(x)
        if v[0] == "t" and v[1] in ("discr", "discr?"):
            return v
        if fr_ty[0] == "int" and not fr_ty[3] and v[0] == "t":
            nb = 64 if fr_ty[1] == "usize" else fr_ty[2]
            if TYBITS.get(v, 65) > nb:
                TYBITS[v] = nb
        if not n or n >= 64:
            return v
        if v[0] == "t":
            b = bits(v)
            if b is not None and b <= n:
                return v
        if self.ge0(st, sub(I((1 << n) - 1), v)):
            return v
        return ("t", "trunc", n, v)

    def binop(self, st, op, a, b, ty):
        if a[0] in ("t", "lin"):
            a = self.norm(st, a)
        if b[0] in ("t", "lin"):
            b = self.norm(st, b)
        nb = ty[2] if ty[0] == "int" else 64
        if ty[0] == "int" and ty[1] in ("usize", "isize"):
            nb = 64
        if ty[0] == "int" and not ty[3]:
            for x in (a, b):
                if x[0] == "t" and TYBITS.get(x, 65) > nb:
                    TYBITS[x] = nb
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Add", "Sub", "Mul"):
            v = {"Add": add, "Sub": sub, "Mul": mul}[base](a, b) if num(a) and num(b) else ("t", base.lower(), a, b)
            signed = ty[0] == "int" and ty[3]
            if op.endswith("WithOverflow"):
                ovf = self.overflow(st, v, nb, signed, base)
                return tup(v, ovf)
            return v
        if base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            a, b = self.cmpval(st, a), self.cmpval(st, b)
            c = {"Eq": lambda: eq(a, b), "Ne": lambda: nott(eq(a, b)), "Lt": lambda: lt(a, b), "Gt": lambda: lt(b, a),
                 "Le": lambda: nott(lt(b, a)), "Ge": lambda: nott(lt(a, b))}[base]()
            r = self.decide(st, c)
            return c if r is None else (TRUE if r else FALSE)
        if a[0] == "int" and b[0] == "int":
            x, y = a[1], b[1]
            m = (1 << nb) - 1 if nb else -1
            if base == "BitAnd":
                return I(x & y)
            if base == "BitOr":
                return I(x | y)
            if base == "BitXor":
                return I(x ^ y)
            if base == "Shl":
                return I((x << (y % nb if nb else y)) & m)
            if base == "Shr":
                return I(x >> (y % nb if nb else y))
            if base == "Div" and y:
                return I(x // y)
            if base == "Rem" and y:
                return I(x % y)
        if base == "Rem" and b == ("int", 1):
            return I(0)
        if base == "Div" and b[0] == "int" and a[0] == "t" and a[1] == "rem" and a[3][0] == "int" and 0 < a[3][1] <= b[1]:
            return I(0)
        name = {"BitAnd": "and", "BitOr": "or", "BitXor": "xor", "Shl": "shl", "Shr": "shr", "Div": "div", "Rem": "rem"}.get(base, base)
        if name in ("and", "or") and ty[:2] == ("int", "bool"):
            return ("t", name, a, b)
        return ("t", name if ty[:2] != ("int", "bool") else "b" + name, a, b)

    def cmpval(self, st, v):
        return v

    def overflow(self, st, v, nbits, signed, base=""):
        if v[0] == "int":
            if signed:
                return FALSE if -(1 << nbits - 1) <= v[1] < 1 << nbits - 1 else TRUE
            return FALSE if 0 <= v[1] < 1 << nbits else TRUE
        if not num(v):
            return ("t", "ovf", v, nbits)
        c, d = lin(v)
        # upper bound
        hi = c
        for t, k in d.items():
            if k > 0:
                u = self.upper(t)
                if u is None:
                    hi = None
                    break
                hi += k * u
        top = (1 << (nbits - 1 if signed else nbits)) - 1
        up = base == "Sub" and not signed or hi is not None and hi <= top or self.ge0(st, sub(I(top), v))
        low = base in ("Add", "Mul") and not signed or self.ge0(st, v)
        return FALSE if up and low else ("t", "ovf", v, nbits)

    # ------------------------------------------------------------------ drops
    def drop(self, st, alloc, path, ty):
        """drop terminator of the top frame: runs the drop glue and continues"""
        v = self.load(st, alloc, path)
        todo = []
        self.glue(st, v, alloc, path, ty, todo, 0)
        self.store(st, alloc, path, MOVED) if v[0] not in ("int", "uninit", "moved") else None
        if not todo:
            return self.deliver(st, UNIT)
        return self.run_glue(st, todo)

    def needs_drop_ty(self, ty, depth=0):
        return ty[0] == "adt"

    def glue(self, st, v, alloc, path, ty, todo, depth):
        if depth > 12:
            return
        if v[0] in ("t", "lin"):
            v = self.norm(st, v)
        k = v[0]
        if k in ("int", "uninit", "moved", "ref", "fn", "codone", "corun", "lin"):
            return
        if k == "buf":
            return
        if k == "agg":
            if v[1] == "adt":
                im = self.impl_by_adt("core::ops::drop::Drop", v[2])
                if im:
                    todo.append(("dropimpl", im, v, alloc, path))
                else:
                    todo.append(("dropadt", v))
            if v[1] == "lazy":
                todo.append(("dropterm", v, ty))
                return
            fts = self.field_types(v, ty)
            for i, x in enumerate(v[4]):
                p = path + (("f", i, str(i)),)
                self.glue(st, x, alloc, p, fts[i] if fts and i < len(fts) else ("unknown",), todo, depth + 1)
            return
        if k == "box":
            inner = self.load_alloc(st, v[1])
            self.glue(st, inner, v[1], (), ("unknown",), todo, depth + 1)
            return
        if k in ("guard", "fut", "arc"):
            todo.append(("dropval", v))
            return
        if k == "cosusp":
            todo.append(("dropco", v, alloc, path))
            return
        if k == "t" and v[1] == "vecpush":
            w = pushed(v)
            if w[0] == "agg":
                for i, x in enumerate(w[4]):
                    self.glue(st, x, alloc, path + (("i", I(i)),), ("unknown",), todo, depth + 1)
                return
        if k == "t" and ty[0] not in ("int", "ref", "float", "str", "ptr"):
            todo.append(("dropterm", v, ty))

    def field_types(self, v, ty):
        if v[1] == "tuple" and ty[0] == "tuple":
            return list(ty[1])
        if v[1] == "adt" and ty[0] == "adt":
            a = self.F.adts.get(ty[1])
            if a:
                try:
                    sub_ = dict(enumerate(ty[2]))
                    return [self.ty(f["t"], sub_) for f in a["v"][v[3]]["f"]]
                except (IndexError, KeyError):
                    return None
        return None

    def run_glue(self, st, todo):
        todo = list(todo)
        while todo:
            x = todo.pop(0)
            rest = tuple(todo)
            if x[0] == "dropimpl":
                _, im, v, alloc, path = x
                bid = dict((m, b) for m, b in im["items"]).get("drop")
                body = self.F.bodies.get(bid)
                # the value was marked as moved; give it back to the destructor
                a = self.new_alloc(st, v)
                st.stack.append(Native(lambda E, s, r, rest=rest: E.run_glue(s, rest), "drop"))
                return self.enter(st, body, {}, [("ref", a, (), True)])
            if x[0] == "dropval":
                v = x[1]
                if v[0] == "guard":
                    self.emit(st, "unlock", v)
                elif v[0] == "fut":
                    if v[1] == "done":
                        continue
                    if isinstance(v[1], str):
                        self.emit(st, "dropfut", v)
            elif x[0] == "dropadt":
                if x[1][2] in DROP_EVENTS:
                    # a set of tasks: they are aborted
                    self.emit(st, "abortset", x[1][4][0], ("t", "dropped"))
            elif x[0] == "dropterm":
                v, ty = x[1], x[2]
                self.emit(st, "dropterm", v, ty)
            elif x[0] == "dropco":
                _, v, alloc, path = x
                _, fid, bb, bid, sub_ = v
                body = self.F.bodies[bid]
                t = body["blocks"][bb]["t"]
                if t.get("drop") is None:
                    continue
                fr = Frame(fid, body, dict(sub_), t["drop"], (alloc, path))
                fr.visits = dict(st.mem.get(("cf", fid), ({},))[0])
                st.stack.append(Native(lambda E, s, r, rest=rest: E.run_glue(s, rest), "dropco"))
                st.stack.append(fr)
                return [st]
        return self.deliver(st, UNIT)

    # ------------------------------------------------------------------ calls
    def enter(self, st, body, subst, args, co=None):
        if sum(1 for f in st.stack if isinstance(f, Frame) and f.body is body) > 2:
            self.note(st, "recursion " + body["name"])
            return self.deliver(st, self.fresh(st, "rec", body["name"]))
        self.fidn += 1
        fid = self.fidn
        self.analysed.add(body["id"])
        fr = Frame(fid, body, subst, 0, co)
        for i, a in enumerate(args):
            st.mem[("l", fid, i + 1)] = a
        st.stack.append(fr)
        return [st]

    def gsubst(self, body, args):
        g = body.get("generics") or []
        return {gi[0]: args[j] for j, gi in enumerate(g) if j < len(args)}

    def call(self, st, fr, t):
        f = self.operand(st, fr, t["f"])
        args = [self.operand(st, fr, a) for a in t["args"]]
        dt = self.ty(t["dt"], fr.subst) if "dt" in t else ("unknown",)
        ats = [self.ty(x, fr.subst) for x in t.get("at", [])]
        return self.call_value(st, f, args, dt, ats)

    def call_value(self, st, f, args, dt=("unknown",), ats=()):
        """call a function value with spread arguments"""
        if f[0] in ("ref", "box", "arc"):
            g = self.at(st, f)
            if g[0] == "agg" and g[1] == "closure":
                return self.call_closure(st, g, f, args)
            return self.call_value(st, g, args, dt, ats)
        if f[0] == "agg" and f[1] == "closure":
            return self.call_closure(st, f, None, args)
        if f[0] != "fn":
            self.emit(st, "usercall", f, tuple(self.snap(st, a) for a in args))
            return self.deliver(st, ("t", "ucall", f, st.n))
        key = f[1]
        return self.call_fn(st, key, args, dt, ats)

    def call_closure(self, st, clo, ptr, args):
        d, targs = clo[2]
        body = self.F.bodies.get(d)
        if body is None:
            return self.deliver(st, self.fresh(st, "closure"))
        st_self = self.ty(body["locals"][1]["t"])
        if st_self[0] == "ref":
            if ptr is None or ptr[0] != "ref":
                a = self.new_alloc(st, clo) if ptr is None else self.target(st, ptr)[0]
                ptr = ("ref", a, (), True)
            me = ptr
        else:
            me = clo
        return self.enter(st, body, self.gsubst(body, targs), [me] + list(args))

    def call_fn(self, st, key, args, dt, ats=()):
        name, d, targs = key
        c = self.fns.get(key)
        if c is None:
            c = {"fn": name, "d": d}
        if c.get("ctor") is not None:
            return self.deliver(st, self.ctor(c, name, args, dt))
        rname, rd, rargs = c.get("rfn") or name, c.get("rd") or d, targs
        if c.get("rd") and c.get("ra") is not None:
            # resolved for the generic caller; its arguments are in terms of the same parameters
            rargs = self.resolved_args(c, targs)
        # trait method that depends on the type arguments
        if c.get("trait"):
            r = self.resolve_trait(st, c, targs, args, ats)
            if r is not None:
                rname, rd, rargs = r
        ctx = Call(name, rname, rd, targs, rargs, dt, ats, c)
        local = rname != name and rd in self.F.bodies and c.get("trait") == "core::default::Default"
        m = self.stubs.get(rname) or self.models.get(rname) or (None if local else self.models.get(name))
        if m is None and not local:
            for pre, fnc in self.name_models:
                if rname.startswith(pre) or name.startswith(pre):
                    m = fnc
                    break
        if m is not None:
            r = m(self, st, args, ctx)
            return self.deliver(st, r) if isinstance(r, tuple) else r
        body = self.F.bodies.get(rd)
        if body is not None and body.get("kind") not in ("Static",):
            return self.enter(st, body, self.gsubst(body, rargs), args)
        return self.external(st, args, ctx)

    def resolved_args(self, c, targs):
        # "ra" was computed under the caller's generics, "a" too; map through equal positions
        ra = [self.ty(x) for x in c["ra"]]
        a = [self.ty(x) for x in c["a"]]
        b = {}
        for x, y in zip(a, targs):
            self._bind(x, y, b)
        return tuple(self.tsub(x, b) for x in ra)

    def _bind(self, pat, t, b):
        if not isinstance(pat, tuple) or not isinstance(t, tuple):
            return
        if pat and pat[0] == "param":
            b.setdefault(pat[1], t)
            return
        if len(pat) == len(t):
            for x, y in zip(pat, t):
                self._bind(x, y, b)

    def resolve_trait(self, st, c, targs, args, ats):
        tr, item = c["trait"], c["item"]
        if c.get("rd") in self.F.bodies and c.get("rimpl"):
            im = self.F.impl_by_id.get(c["rimpl"])
            if im is not None:
                # a blanket impl chosen for the generic caller stays chosen
                return None
        selft = targs[0] if targs else ("unknown",)
        r = None
        if selft[0] not in ("param", "proj", "opaque", "unknown"):
            r = self.find_impl(tr, selft, targs)
        if r is None and args:
            # the value tells its type
            v = args[0]
            for _ in range(4):
                if v[0] in ("ref", "box", "arc"):
                    v = self.at(st, v)
                else:
                    break
            if v[0] == "agg" and v[1] == "adt":
                im = self.impl_by_adt(tr, v[2])
                if im:
                    r = (im, {})
        if r is None:
            return None
        im, b = r
        for m, bid in im["items"]:
            if m == item:
                body = self.F.bodies.get(bid)
                if body is None:
                    return None
                # generics of the method: those of the impl followed by its own
                g = body.get("generics") or []
                own = list(targs[1:])
                rargs = []
                n_impl = len(g)
                out = []
                for gi, gn in g:
                    out.append(b.get(gi, ("param", gi, gn)))
                # own generics of the method are the last ones of the trait reference
                extra = [x for x in c.get("a", [])]
                nown = 0
                for j in range(len(g)):
                    if g[j][0] not in b:
                        nown += 1
                tail = targs[len(targs) - nown:] if nown else ()
                k = 0
                for j in range(len(g)):
                    if g[j][0] not in b:
                        if k < len(tail):
                            out[j] = tail[k]
                        k += 1
                return (body["name"], bid, tuple(out))
        # default method of the trait
        body = self.F.bodies.get(c.get("d"))
        if body is not None:
            return (body["name"], body["id"], targs)
        return None

    def ctor(self, c, name, args, dt):
        n = name
        vi = 0
        ad, _, vn = n.rpartition("::")
        if dt[0] == "adt":
            a = self.F.adts.get(dt[1])
            if a:
                for i, v in enumerate(a["v"]):
                    if v["n"] == vn and a["kind"] == "enum":
                        vi = i
            elif dt[1] in BUILTIN_ENUMS:
                vi = {"None": 0, "Some": 1, "Ok": 0, "Err": 1, "Ready": 0, "Pending": 1}.get(vn, 0)
            if dt[1] in TRANSPARENT and len(args) == 1:
                return args[0]
            return ("agg", "adt", dt[1], vi, tuple(args))
        vi = {"None": 0, "Some": 1, "Ok": 0, "Err": 1, "Ready": 0, "Pending": 1}.get(vn, 0)
        nm = {"None": OPTION, "Some": OPTION, "Ok": RESULT, "Err": RESULT, "Ready": POLL, "Pending": POLL}.get(vn)
        if nm is None:
            cand = [x for x in self.F.adts if x == n] or [x for x in self.F.adts if x == ad]
            nm = cand[0] if cand else n
            a = self.F.adts.get(nm)
            if a and a["kind"] == "enum":
                for i, v in enumerate(a["v"]):
                    if v["n"] == vn:
                        vi = i
        return ("agg", "adt", nm, vi, tuple(args))

    def external(self, st, args, c):
        """a function outside of the crate without a model: any result, changes what it may"""
        self.unmodelled[c.rname] = self.unmodelled.get(c.rname, 0) + 1
        snap = tuple(self.snap(st, a) for a in args)
        self.emit(st, "call", c.rname, snap)
        for a in args:
            self.havoc(st, a)
        if c.dt[0] == "never":
            return self.finish(st, "diverge")
        if c.dt == ("tuple", ()):
            return self.deliver(st, UNIT)
        st.n += 1
        return self.deliver(st, ("t", "call", c.rname, snap, st.n))

    def havoc(self, st, a):
        if a[0] == "ref" and a[3]:
            v = self.at(st, a)
            if v[0] not in ("uninit",):
                al, p = self.target(st, a)
                self.store(st, al, p, self.fresh(st, "havoc", v) if v[0] != "int" else self.fresh(st, "havoc"))
        elif a[0] == "agg" and a[1] in ("closure", "tuple", "adt"):
            for x in a[4]:
                self.havoc(st, x)

    # ------------------------------------------------------------------ futures
    def poll(self, st, ptr, depth=0, pty=None):
        """poll whatever future lies behind a pointer; delivers a Poll"""
        if depth > 8:
            raise Bug("poll depth")
        while pty is not None and pty[0] == "adt" and pty[1] in TRANSPARENT and pty[2]:
            pty = pty[2][0]
        inner = None
        if pty is not None and pty[0] == "ref":
            inner = pty[2]
        elif pty is not None and pty[0] == "adt" and pty[1] == "alloc::boxed::Box" and pty[2]:
            inner = pty[2][0]
        a, p = self.target(st, ptr)
        v = self.load(st, a, p)
        k = v[0]
        if k in ("ref", "box"):
            return self.poll(st, v, depth + 1, inner)
        if inner is not None and inner[0] == "adt" and (k in ("t", "lin") or k == "agg" and v[1] == "lazy"):
            if inner[1] in TRANSPARENT or inner[1] == "alloc::boxed::Box":
                return self.poll(st, v, depth + 1, inner)
            im = self.impl_by_adt("core::future::future::Future", inner[1])
            if im:
                body = self.F.bodies[dict((m, b) for m, b in im["items"])["poll"]]
                return self.enter(st, body, self.gsubst(body, inner[2]), [("ref", a, p, True), ("t", "cx")])
        if k == "agg" and v[1] == "lazy":
            return self.poll_leaf(st, ("fut", "await", (v[2],)), a, p)
        if k == "agg":
            if v[1] == "coroutine":
                d, targs = v[2]
                body = self.F.bodies[d]
                self.store(st, a, p, ("corun",))
                return self.enter(st, body, self.gsubst(body, targs), [v, ("t", "cx")], (a, p))
            if v[1] == "adt":
                im = self.impl_by_adt("core::future::future::Future", v[2])
                if im:
                    bid = dict((m, b) for m, b in im["items"])["poll"]
                    return self.enter(st, self.F.bodies[bid], {}, [("ref", a, p, True), ("t", "cx")])
                if v[2] in FUT_MODELS:
                    return FUT_MODELS[v[2]](self, st, ("ref", a, p, True), v)
        if k == "cosusp":
            _, fid, bb, bid, sub_ = v
            body = self.F.bodies[bid]
            t = body["blocks"][bb]["t"]
            fr = Frame(fid, body, dict(sub_), bb, (a, p))
            fr.visits = dict(st.mem.get(("cf", fid), ({},))[0])
            ra, rp = self.place(st, fr, t["arg"])
            self.store(st, ra, rp, ("t", "cx"))
            self.store(st, a, p, ("corun",))
            fr.bb = t["to"]
            st.stack.append(fr)
            return [st]
        if k == "codone":
            self.emit(st, "maypanic", "poll after completion")
            return self.finish(st, "panic")
        if k == "fut":
            return self.poll_leaf(st, v, a, p)
        if k in ("t", "lin"):
            return self.poll_leaf(st, ("fut", "await", (v,)), a, p)
        if k in ("uninit", "moved", "corun"):
            return self.finish(st, "stuck")
        raise Bug("poll of %s" % show(v))

    def poll_leaf(self, st, f, a, p):
        op, args = f[1], f[2]
        if op == "done":
            self.emit(st, "maypanic", "poll after completion")
            return self.finish(st, "panic")
        if op in ("readint", "readexact", "readtoend"):
            if len(f) <= 3:
                self.emit(st, "start", op, args)
            return models_poll_read(self, st, f, a, p)
        if op in ("write_all_buf", "write_buf", "write"):
            if len(f) <= 3:
                self.emit(st, "start", op, args)
            return models_write_buf(self, st, f, a, p)
        m = self.leaf.get(op)
        if m is not None:
            outs = m(self, st, f)
        else:
            v = ("t", "await") + args[:1] if op == "await" else ("t", "out", op, args)
            outs = [("ready", v)]
        res = []
        if len(f) <= 3:
            self.emit(st, "start", op, args)
        for o in outs:
            s2 = st.copy()
            if o[0] == "ready":
                self.store(s2, a, p, ("fut", "done", ()))
                for ev in o[2] if len(o) > 2 else ():
                    self.emit(s2, *ev)
                val = o[1](s2) if callable(o[1]) else o[1]
                self.emit(s2, "ready", op, args, val)
                res.extend(self.deliver(s2, ready(val)))
            elif o[0] == "notpending":
                return res
        s2 = st
        self.store(s2, a, p, ("fut", op, args, "pending"))
        if op == "write_all":
            self.emit(s2, "pending", op, args, ("given", (), (), as_buf(self.content(s2, self.deref_all(s2, args[1])))))
        else:
            self.emit(s2, "pending", op, args)
        res.extend(self.deliver(s2, PENDING))
        return res

    leaf = {}

    # ------------------------------------------------------------------ roots
    def analyse(self, body, args, subst=None, drive=True, setup=None, root=None, st=None):
        """all paths of a function. drive: an async result is polled to its end"""
        self.outcomes = []
        self.root = root or (body["name"] if body else "?")
        self.tasks = []
        if st is None:
            st = State()
            st.mem = {}
            st.trace = None
            st.facts = {}
            st.ref = {}
            st.n = 0
            st.notes = ()
            st.task = 0
        st.stack = []
        if setup:
            args = setup(self, st)
        st.stack.append(Native(root_done if not drive else root_drive, "root"))
        if body is None and self.drop_root is not None:
            todo = []
            self.glue(st, self.load_alloc(st, self.drop_root), self.drop_root, (), ("unknown",), todo, 0)
            states = self.run_glue(st, todo)
        elif body is None:
            states = self.deliver(st, args[0])      # a value to be driven
        else:
            states = self.enter(st, body, subst or {}, args)
        self.run(states)
        done = 0
        # spawned tasks are analysed from the state they are spawned in
        seen = {}
        while self.tasks and self.follow_tasks:
            s2, fut, label = self.tasks.pop(0)
            done += 1
            if done > 400:
                raise Budget("too many spawned tasks")
            s2.stack = []
            a = self.new_alloc(s2, fut)
            s2.stack.append(Native(lambda E, s, v, a=a: root_polled(E, s, v, a), "task"))
            self.run(self.poll(s2, ("ref", a, (), True)))
        return self.outcomes


def root_done(E, st, v):
    return E.finish(st, "ret", v)


def is_future(E, v):
    if v[0] == "agg" and v[1] == "coroutine":
        return True
    if v[0] == "agg" and v[1] == "adt":
        return E.impl_by_adt("core::future::future::Future", v[2]) is not None or v[2] in FUT_MODELS
    if v[0] == "fut":
        return True
    if v[0] == "box":
        return True
    return False


def root_drive(E, st, v):
    if v[0] == "box":
        inner = E.load_alloc(st, v[1])
        if is_future(E, inner):
            a = v[1]
            st.stack.append(Native(lambda E, s, x: root_polled(E, s, x, a), "root"))
            return E.poll(st, ("ref", a, (), True))
    if is_future(E, v):
        a = E.new_alloc(st, v)
        st.stack.append(Native(lambda E, s, x: root_polled(E, s, x, a), "root"))
        return E.poll(st, ("ref", a, (), True))
    return E.finish(st, "ret", v)


def root_polled(E, st, v, a):
    out = []
    for s2, i, fs in E.variants(st, v, POLL):
        if i == 0:
            E.emit(s2, "done")
            out.extend(E.finish(s2, "ret", fs[0]))
        else:
            # being continued is the ready branch; here it is dropped
            n = s2.mem.get(("pos", "repoll"), I(0))[1]
            if n < E.repoll:
                s3 = s2.copy()
                s3.mem[("pos", "repoll")] = I(n + 1)
                E.emit(s3, "repoll")
                s3.stack.append(Native(lambda E, s, x, a=a: root_polled(E, s, x, a), "root"))
                out.extend(E.poll(s3, ("ref", a, (), True)))
            E.emit(s2, "dropped")
            s2.stack.append(Native(lambda E, s, x: E.finish(s, "cancelled"), "cancel"))
            v2 = E.load_alloc(s2, a)
            todo = []
            E.glue(s2, v2, a, (), ("unknown",), todo, 0)
            out.extend(E.run_glue(s2, todo))
    return out


class Call:
    __slots__ = ("name", "rname", "rd", "targs", "rargs", "dt", "ats", "c")

    def __init__(self, name, rname, rd, targs, rargs, dt, ats, c):
        self.name = name
        self.rname = rname
        self.rd = rd
        self.targs = targs
        self.rargs = rargs
        self.dt = dt
        self.ats = ats
        self.c = c


TRANSPARENT = {"core::pin::Pin", "core::mem::manually_drop::ManuallyDrop"}
FUT_MODELS = {}
DROP_EVENTS = set()
BOOLOPS = {"eq", "lt", "not", "and", "or", "ovf", "band", "bor", "bxor", "isvar", "mapin"}


def num(v):
    return v[0] in ("int", "lin") or v[0] == "t"


def eq(a, b):
    if a == b:
        return TRUE
    if a[0] == "int" and b[0] == "int":
        return FALSE
    if b[0] == "int" or (a[0] != "int" and repr(b) < repr(a)):
        return ("t", "eq", a, b) if b[0] == "int" else ("t", "eq", b, a)
    return ("t", "eq", b, a) if a[0] == "int" else ("t", "eq", a, b)


def lt(a, b):
    if a[0] == "int" and b[0] == "int":
        return TRUE if a[1] < b[1] else FALSE
    if a == b:
        return FALSE
    return ("t", "lt", a, b)


def nott(a):
    if a[0] == "int":
        return I(1 - a[1])
    if a[0] == "t" and a[1] == "not":
        return a[2]
    return ("t", "not", a)


def is_data(v):
    return v[0] in ("buf", "agg")


def distinct(a, b):
    if a[0] == "buf" and b[0] == "buf":
        if all(s[0] == "k" for s in a[1]) and all(s[0] == "k" for s in b[1]):
            return a != b
    if a[0] == "agg" and b[0] == "agg" and a[1] == b[1] == "adt" and a[2] == b[2]:
        return a[3] != b[3]
    return False


def fact_ge0(f, val):
    if f[0] == "t" and f[1] == "lt":
        d = sub(f[3], f[2]) if num(f[2]) and num(f[3]) else None
        if d is None:
            return None
        return sub(d, I(1)) if val else neg(d)
    return None


def _int(x):
    try:
        return int(str(x).split("_")[0])
    except ValueError:
        return None


def _has_param(t):
    if t and t[0] in ("param", "proj"):
        return True
    return any(isinstance(x, tuple) and _has_param(x) for x in t)


def subst_term(v, t, new):
    if v == t:
        return new
    if not isinstance(v, tuple):
        return v
    if not mentions(v, lambda x: x == t):
        return v
    if v[0] == "lin":
        out = I(v[1])
        for x, k in v[2]:
            out = add(out, mul(I(k), subst_term(x, t, new)))
        return out
    if v[0] == "buf":
        return buf(*[tuple(subst_term(x, t, new) if isinstance(x, tuple) else x for x in s) for s in v[1]])
    return tuple(subst_term(x, t, new) if isinstance(x, tuple) else x for x in v)


def pushed(v):
    """a vector that was built by pushing as an array"""
    out, w = [], v
    while w[0] == "t" and w[1] == "vecpush":
        out.append(w[3])
        w = w[2]
    if w == ("t", "vecnew"):
        return ("agg", "array", None, 0, tuple(out[::-1]))
    if w[0] == "agg" and w[1] == "array":
        return ("agg", "array", None, 0, w[4] + tuple(out[::-1]))
    return v


def sub_array(v, lo, hi):
    """elements lo..hi of a collection of known values that are not bytes"""
    if v[0] == "t" and v[1] == "vecpush":
        v = pushed(v)
    if v[0] == "agg" and v[1] == "array" and lo[0] == "int" and hi[0] == "int" and any(x[0] in ("agg", "ref", "box", "arc") for x in v[4]):
        return v[:4] + (v[4][lo[1]:hi[1]],)
    return None


def snapshot(st):
    return {a: v for a, v in st.mem.items() if a[0] not in ("lh", "cf")}


def loop_heads(body):
    """(targets of back edges of a depth first search, heads nested in the loop of each head).
    The edges on which an await resumes are not followed: they lead back to polling."""
    blocks = body["blocks"]

    def succ(i):
        t = blocks[i]["t"]
        k = t["k"]
        if k == "goto":
            return [t["to"]]
        if k == "switch":
            return [b for _, b in t["cases"]] + [t["else"]]
        if k in ("drop", "assert"):
            return [t["to"]]
        if k == "call":
            return [t["to"]] if t.get("to") is not None else []
        if k == "yield":
            return [t["drop"]] if t.get("drop") is not None else []
        return []
    color = {}
    heads = {}
    preds = {}
    stack = [(0, iter(succ(0)))]
    color[0] = 1
    while stack:
        n, it = stack[-1]
        for m in it:
            preds.setdefault(m, set()).add(n)
            if color.get(m) == 1:
                heads.setdefault(m, set()).add(n)
            elif m not in color:
                color[m] = 1
                stack.append((m, iter(succ(m))))
                break
        else:
            color[n] = 2
            stack.pop()
    inner, exits = {}, {}
    for h, latches in heads.items():
        loop = {h}
        work = list(latches)
        while work:
            x = work.pop()
            if x not in loop:
                loop.add(x)
                work.extend(preds.get(x, ()))
        inner[h] = tuple(x for x in heads if x in loop and x != h)
        for b in loop:
            t = body["blocks"][b]["t"]
            if t["k"] == "switch" and any(x not in loop for x in [x for _, x in t["cases"]] + [t["else"]]) and compares(body, b, t["on"]):
                exits.setdefault(b, []).append(h)
    return set(heads), inner, exits


def compares(body, b, op):
    """is an operand the result of comparing numbers in the same block"""
    p = op.get("move") or op.get("copy")
    if not p or len(p) != 1:
        return False
    for s in reversed(body["blocks"][b]["s"]):
        if s[0] == "=" and s[1] == p:
            return s[2][0] == "bin" and s[2][1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne")
    return False


def allocs_of(v):
    if not isinstance(v, tuple) or not v:
        return
    if v[0] == "ref" and len(v) == 4:
        yield v[1]
        return
    if v[0] in ("box", "arc", "guard") and len(v) > 1 and isinstance(v[1], tuple):
        yield v[1]
        return
    for x in v:
        if isinstance(x, tuple):
            yield from allocs_of(x)


def liveness(body):
    """locals that may be read before they are assigned again, per block entry"""
    blocks = body["blocks"]
    n = len(blocks)
    use = [set() for _ in range(n)]
    deff = [set() for _ in range(n)]
    succ = [[] for _ in range(n)]

    def reads_place(p, out):
        out.add(p[0])
        for e in p[1:]:
            if isinstance(e, list) and e[0] == "i":
                out.add(e[1])

    def reads(x, out):
        if isinstance(x, dict):
            for k in ("copy", "move"):
                if k in x:
                    reads_place(x[k], out)
                    return
            for v in x.values():
                reads(v, out)
        elif isinstance(x, list):
            for v in x:
                reads(v, out)

    def rv(r, out):
        if r[0] == "ref":
            reads_place(r[2], out)
        elif r[0] in ("reborrow", "discr"):
            reads_place(r[1], out)
        else:
            reads(r, out)
    for i, b in enumerate(blocks):
        u, d = use[i], deff[i]

        def r(f, *a):
            x = set()
            f(*a, x)
            u.update(x - d)
        for s in b["s"]:
            if s[0] == "=":
                r(rv, s[2])
                p = s[1]
                if len(p) == 1:
                    d.add(p[0])
                else:
                    r(reads_place, p)
            elif s[0] in ("live", "dead"):
                d.add(s[1])
        t = b["t"]
        k = t["k"]
        if k == "drop":
            r(reads_place, t["p"])
        elif k == "call":
            r(reads, t["f"])
            r(reads, t["args"])
            if len(t["dest"]) > 1:
                r(reads_place, t["dest"])
            else:
                d.add(t["dest"][0])
        elif k == "switch":
            r(reads, t["on"])
        elif k == "assert":
            r(reads, t["cond"])
            r(reads, t.get("ops", []))
        elif k == "yield":
            r(reads, t["v"])
        elif k == "return":
            if 0 not in d:
                u.add(0)
        for x in (t.get("to"), t.get("else"), t.get("drop") if k == "yield" else None):
            if x is not None:
                succ[i].append(x)
        if k == "switch":
            succ[i].extend(bb for _, bb in t["cases"])
    live = [set() for _ in range(n)]
    changed = True
    while changed:
        changed = False
        for i in range(n - 1, -1, -1):
            o = set()
            for s_ in succ[i]:
                o |= live[s_]
            v = use[i] | (o - deff[i])
            if v != live[i]:
                live[i] = v
                changed = True
    return live
