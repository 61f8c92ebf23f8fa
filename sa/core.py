"""What all rules share: running the analysis on a function, looking at terms, reporting."""
import importlib
import os
import sys
import time
import traceback
import engine as en
from engine import Engine, Budget, Bug, OPTION, RESULT, POLL
from terms import *
from slices import slice_buf, int_of
import models
from facts import Facts

STUB_READ = {"bromine::events::event::Event::from_async_read": models.stub_read_frame}
STUB_CODEC = {"bromine::events::event::Event::from_async_read": models.stub_read_frame,
              "bromine::events::event::Event::into_bytes": models.stub_encode}

EVENT = "bromine::events::event::Event::"


class Finding:
    def __init__(self, rule, where, what, key, path=None):
        self.rule = rule          # short id of the rule
        self.where = where        # function and source position
        self.what = what          # what is wrong there
        self.key = key            # identification without line numbers
        self.path = path          # analysed path leading there

    def text(self):
        out = ["rule: %s" % self.rule, "where: %s" % self.where, "what: %s" % self.what, "key: %s" % self.key]
        if self.path is not None:
            out.append("root: %s, outcome: %s %s" % (self.path.root, self.path.out, self.path.site))
            out.append("effects on the path:")
            for e in self.path.ev:
                if e.kind in ("dropterm", "alloc", "proved", "start", "loop"):
                    continue
                out.append("    [%s] %s" % (e.fn, repr(e)[:300]))
        return "\n".join(out)


class Analysis:
    def __init__(self, prop, facts, tier="quick", configs=None):
        self.prop = prop
        self.F = facts
        self.tier = tier
        self.configs = configs or []       # (name, facts file, enabled formats)
        self.formats = []
        self.findings = []
        self.undecided = []
        self.rules = {}
        self.roots = {}
        self.analysed = set()
        self.unmodelled = {}
        self.samples = []
        self.cache = {}
        self.counters = (0, 0)
        self.unroll = 0
        self.deep = tier == "thorough"

    def each_config(self):
        """one analysis per combination of enabled formats; they share what they report"""
        for name, path, formats in self.configs:
            a = Analysis(self.prop, Facts(path), self.tier)
            a.formats = formats
            a.findings, a.undecided, a.rules, a.roots = self.findings, self.undecided, self.rules, self.roots
            a.analysed, a.unmodelled, a.samples = self.analysed, self.unmodelled, self.samples
            yield name, a

    # ---- running
    def bodies(self, name):
        return [b for b in self.F.by_name.get(name, []) if b["kind"] in ("Fn", "AssocFn")]

    def body(self, name, must=True):
        bs = self.bodies(name)
        if not bs:
            if must:
                self.violate("anchor", name, "the public function %s no longer exists" % name, "anchor:" + name)
            return None
        return bs[0]

    def trait_body(self, trait, adt, item, must=True):
        """the body of a method of a trait implemented for a type"""
        for im in self.F.impls:
            if im.get("trait") == trait:
                t = self.F.t(im["self"])
                if t.get("n") == adt:
                    for m, b in im["items"]:
                        if m == item:
                            return self.F.bodies.get(b)
        if must:
            self.violate("anchor", adt, "%s is no longer implemented for %s" % (trait, adt), "anchor:%s for %s" % (trait, adt))
        return None

    def engine(self, stubs=None, **kw):
        E = Engine(self.F, **kw)
        # names of frames and unknowns stay distinct when a path is continued by another analysis
        E.fidn, E.nfresh = self.counters
        E.stubs = dict(stubs or {})
        E.unroll = self.unroll
        return E

    def run(self, body, args=None, stubs=None, setup=None, drive=True, repoll=0, tasks=True, label=None, st=None, max_steps=3000000, max_paths=40000, subst=None, tweak=None):
        """all paths of a function; what went wrong in the analysis is recorded as undecided"""
        E = self.engine(stubs, max_steps=max_steps, max_paths=max_paths)
        E.repoll = repoll
        E.follow_tasks = tasks
        if tweak:
            tweak(E)
        if args is None:
            args = sym_args(body)
        t = time.time()
        name = label or (body["name"] if body else "await")
        try:
            ps = E.analyse(body, args, subst=subst, drive=drive, setup=setup, root=name, st=st)
        except Budget as e:
            ps = E.outcomes
            self.undecide(name, "budget: %s" % e)
        except Bug as e:
            ps = E.outcomes
            self.undecide(name, "no rule for: %s" % str(e)[:300])
        self.counters = (E.fidn, E.nfresh)
        r = self.roots.setdefault(name, {"runs": 0, "paths": 0, "steps": 0, "effects": 0, "outcomes": {}, "seconds": 0.0})
        r["runs"] += 1
        r["paths"] += len(ps)
        r["steps"] += E.steps
        r["seconds"] = round(r["seconds"] + time.time() - t, 2)
        for p in ps:
            p.E = E
            r["effects"] += len(p.ev)
            r["outcomes"][p.out] = r["outcomes"].get(p.out, 0) + 1
            for n in p.st.notes:
                self.undecide(name, n)
        self.analysed |= E.analysed
        for k, v in E.unmodelled.items():
            self.unmodelled[k] = self.unmodelled.get(k, 0) + v
        return ps

    def chain(self, p, body, args, drive=True, label=None, **kw):
        """continues a path with another call"""
        st = p.st.copy()
        st.task = 0
        return self.run(body, args, st=st, drive=drive, label=label or p.root, **kw)

    def await_value(self, p, v, label=None, **kw):
        """continues a path with awaiting a value"""
        st = p.st.copy()
        st.task = 0
        return self.run(None, [v], st=st, drive=True, label=label or p.root + ".await", **kw)

    def value_of(self, name, st, *vals):
        """the result of a small function applied to values, in a given state: [(state, value)]"""
        b = self.body(name)
        if b is None:
            return []
        E = self.engine()
        args = []
        for i, v in enumerate(vals):
            t = E.ty(b["locals"][i + 1]["t"])
            args.append(("ref", ("c", v), (), False) if t[0] == "ref" else v)
        s = st.copy() if st is not None else new_state()
        s.trace = None
        ps = E.analyse(b, args, drive=False, st=s, root=name)
        self.counters = (E.fidn, E.nfresh)
        return [(p.st, E.deref_all(p.st, p.value)) for p in ps if p.out == "ret"]

    # ---- reporting
    def ok(self, rule, n=1, sample=None):
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += n
        r[1] += n
        if sample is not None and len([s for s in self.samples if s.startswith(rule)]) < 2:
            self.samples.append("%s: %s" % (rule, sample))

    def violate(self, rule, where, what, key=None, path=None):
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        key = key or "%s@%s" % (rule, fn_of(where))
        if not any(f.key == key for f in self.findings):
            self.findings.append(Finding(rule, where, what, key, path))

    def undecide(self, where, why):
        x = (where, why)
        if x not in self.undecided:
            self.undecided.append(x)

    def need(self, rule, n=1, why=""):
        """a rule that matched fewer places than there must be decides nothing: fail, do not pass vacuously"""
        c = self.rules.get(rule, [0, 0])[0]
        if c < n:
            if self.undecided:
                self.undecide(rule, "only %d instances of the rule were found, the analysis was incomplete" % c)
            else:
                self.violate(rule, "(whole crate)", "only %d of at least %d places this rule applies to exist%s" % (c, n, ": " + why if why else ""), "%s:count" % rule)


def decide(A, module, rules):
    """runs the rules; what could not be summarised (loops) is looked at again iteration by iteration, to a bound"""
    err = apply_rules(A, module, rules)
    if any("loop relation" in w for _, w in A.undecided):
        B = Analysis(A.prop, A.F, A.tier, A.configs)
        B.formats = A.formats
        B.unroll = 4
        B.undecide("second pass", "loops are followed for their first iterations only")
        old, now = en.DEADLINE[0], time.time()
        en.DEADLINE[0] = min(old or now + 999, now + (200 if A.tier == "quick" else 600))
        apply_rules(B, module, rules)
        en.DEADLINE[0] = old
        keys = set(f.key for f in A.findings)
        A.findings += [f for f in B.findings if f.key not in keys]
        A.undecided.append(("second pass", "loops without a summary were followed for %d iterations: %d rule instances" % (B.unroll, sum(r[0] for r in B.rules.values()))))
    return err


def apply_rules(A, module, rules):
    err = None
    for r in rules:
        m, f = r.split(".") if "." in r else (module, r)
        try:
            getattr(importlib.import_module(m), f)(A)
        except Exception as e:
            # something in the source the rules do not understand: recorded, not an alarm
            A.undecide(r, "internal: %s" % "".join(traceback.format_exception_only(type(e), e)).strip()[:300])
            err = traceback.format_exc()
    return err


def fn_of(where):
    return str(where).split(" (")[0]


def new_state():
    st = en.State()
    st.mem = {}
    st.trace = None
    st.facts = {}
    st.ref = {}
    st.n = 0
    st.notes = ()
    st.task = 0
    st.stack = []
    return st


def sym(n):
    return ("t", "sym", n)


def sym_args(body):
    return [sym(body["locals"][i + 1].get("n") or "arg%d" % i) for i in range(body["argc"])]


def inst(E, st, v, depth=8):
    """value with everything known about its parts filled in"""
    if depth == 0 or not isinstance(v, tuple) or not v:
        return v
    if v[0] in ("t", "lin"):
        w = E.norm(st, v)
        if w != v:
            return inst(E, st, w, depth - 1)
        return v
    if v[0] == "agg" and v[1] != "lazy":
        return v[:4] + (tuple(inst(E, st, x, depth - 1) for x in v[4]),)
    if v[0] in ("ref", "box", "arc"):
        x = E.at(st, v)
        return inst(E, st, x, depth - 1) if x[0] not in ("uninit",) else v
    return v


def unsnap(E, st, v):
    """a value from a snapshot of it: what it shared is shared again, what is gone is put back as it was"""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == "&":
        kind = v[4]
        if kind != "arc" and (v[1] not in st.mem or st.mem[v[1]][0] in ("uninit", "moved")):
            a = E.new_alloc(st, unsnap(E, st, v[3]))
            return (kind, a) if kind == "box" else ("ref", a, (), False)
        return (kind, v[1]) if kind != "ref" else ("ref", v[1], v[2], False)
    if v[0] == "agg" and v[1] != "lazy":
        return v[:4] + (tuple(unsnap(E, st, x) for x in v[4]),)
    return v


IMPRECISE = ("?havoc", "?loopv", "?loopbuf", "?elem", "?bytes", "call", "slice", "idx", "rv", "?rec", "?closure", "ovf", "?resized")


# functions of libraries whose result is a function of the arguments and another value than any of them,
# except for special arguments
COMPUTES = set("core::time::Duration::" + x for x in (
    "add", "sub", "mul", "div", "checked_add", "checked_sub", "checked_mul", "checked_div", "saturating_add", "saturating_sub", "saturating_mul",
    "mul_f64", "mul_f32", "div_f64", "div_f32", "abs_diff"))
COMPUTES |= set(p + x for p in ("str::", "core::str::", "alloc::str::") for x in (
    "trim", "trim_end", "trim_start", "trim_matches", "trim_end_matches", "trim_start_matches", "trim_left", "trim_right", "to_lowercase", "to_uppercase",
    "to_ascii_lowercase", "to_ascii_uppercase", "replace", "replacen", "repeat", "strip_prefix", "strip_suffix", "escape_debug", "escape_default", "split_once", "chars", "bytes", "char_indices"))
COMPUTES |= set(("core::str::iter::Chars::count", "core::str::iter::Bytes::count", "core::iter::traits::iterator::Iterator::count_"))


def fuzzy(x):
    """a term that stands for something the analysis does not know precisely"""
    return len(x) > 1 and x[0] == "t" and x[1] in IMPRECISE and not (x[1] == "call" and (x[2] in COMPUTES or str(x[2]).endswith(("IntoPayload::into_payload", "NamespaceProvider::name"))))


def imprecise(v):
    """does a value stand for something the analysis does not know precisely"""
    return mentions(v, fuzzy)


def is_variant(v, name, i):
    return v[0] == "agg" and v[1] == "adt" and v[2] == name and v[3] == i


def is_ok(v):
    return is_variant(v, RESULT, 0)


def is_err(v):
    return is_variant(v, RESULT, 1)


def some_of(v):
    return v[4][0] if is_variant(v, OPTION, 1) else None


def is_none(v):
    return is_variant(v, OPTION, 0)


def variants_of(F, name):
    a = F.adts.get(name)
    return [v["n"] for v in a["v"]] if a else []


def vname(F, v):
    """name of the variant of a local enum value"""
    if v[0] == "agg" and v[1] == "adt":
        a = F.adts.get(v[2])
        if a and v[3] < len(a["v"]):
            return a["v"][v[3]]["n"]
    return None


def rewrite(v, f):
    """rebuilds a term bottom up with f applied to every part"""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == "lin":
        out = I(v[1])
        for t, k in v[2]:
            out = add(out, mul(I(k), rewrite(t, f)))
        return out
    if v[0] == "buf":
        out = []
        for s in v[1]:
            s2 = f(s)
            if s2 is not s:
                out.extend(s2[1] if s2[0] == "buf" else (s2,))
            else:
                out.append(tuple(rewrite(x, f) if isinstance(x, tuple) else x for x in s))
        return buf(*out)
    if v[0] in ("int", "fn"):
        return v
    w = tuple(rewrite(x, f) if isinstance(x, tuple) else x for x in v)
    if w[0] == "t":
        if w[1] == "eq" and len(w) == 4:
            w = en.eq(w[2], w[3])
        elif w[1] == "lt" and len(w) == 4:
            w = en.lt(w[2], w[3])
        elif w[1] == "not":
            w = en.nott(w[2])
    return f(w)


def on_layout(E, st, v, sid, layout):
    """a term about the bytes of a stream, with the stream's content given"""
    g = lambda l: E.ge0(st, l)

    def f(x):
        if x[0] == "t" and x[1] == "rd" and x[2] == sid:
            b = slice_buf(layout, x[3], add(x[3], I(x[4])), g)
            r = int_of(b, x[5]) if b is not None else None
            return r if r is not None else x
        if x[0] == "sub" and x[1] == sid:
            o, n = rewrite(x[2], f), rewrite(x[3], f)
            b = slice_buf(layout, o, add(o, n), g)
            return b if b is not None else ("sub", sid, o, n)
        return x
    return rewrite(v, f)


def resolve(E, st, v):
    """a term with everything known about its parts put in"""
    def f(x):
        if x[0] in ("t", "lin"):
            y = E.norm(st, x)
            if y[0] in ("int", "t", "lin"):
                return y
        return x
    return rewrite(v, f)


def bytes_norm(E, st, b):
    """byte string without parts known to be empty"""
    out = []
    for s in as_buf(b)[1]:
        if s[0] in ("raw", "sub", "z"):
            n = seg_len(s)
            if E.norm(st, n) == ("int", 0) or (E.ge0(st, neg(n))):
                continue
        out.append(s)
    return buf(*out)


def same_bytes(E, st, a, b):
    a, b = E.content(st, inst(E, st, a)), E.content(st, inst(E, st, b))
    return bytes_norm(E, st, a) == bytes_norm(E, st, b)


def pos(e):
    return "%s (%s)" % (e.fn, e.span)


def registered(ev):
    """did something register the waker of the caller during a poll"""
    n = 0
    for e in ev:
        if e.kind == "foreign":
            n += 1
        elif e.kind == "foreignend":
            n -= 1
        elif e.kind in ("pending", "wake") and n == 0:
            return True
    return False
