"""What the functions outside of the crate mean, in terms of the analysed values and effects."""
import re
from terms import *
from slices import slice_buf, int_of, byte_at
import engine as en
from engine import (OPTION, RESULT, POLL, CFLOW, NONE, PENDING, some, ok, err, ready, tup, mk, eq, lt, nott, Native, num)

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def install(E):
    E.models.update(M)
    E.leaf = dict(LEAF)
    E.name_models = [
        ("tracing", m_tracing), ("tracing_core", m_tracing), ("tracing_attributes", m_tracing),
    ]


ALLOC_LIMIT = 64 * 1024


def note_alloc(E, st, size):
    """an allocation, and whether its size is limited by a constant and by what was received until now"""
    got = I(ALLOC_LIMIT)
    for k, v in st.mem.items():
        if k[0] == "pos" and isinstance(k[1], tuple):
            got = add(got, mul(I(4), v))
    E.emit(st, "alloc", size, I(1 if E.ge0(st, sub(got, size)) else 0))


def ioerr(E, st, what):
    return E.fresh(st, "ioerr", what)


# ---------------------------------------------------------------- identity like
def ident(E, st, args, c):
    return args[0]


def same_place(E, st, args, c):
    """&self -> &part with the same content"""
    return args[0]


def clone(E, st, args, c):
    v = E.at(st, args[0])
    if v[0] == "ref" and c.rname.startswith("&"):
        return v
    if v[0] == "agg" and v[1] == "adt":
        im = E.impl_by_adt("core::clone::Clone", v[2])
        if im:
            b = E.F.bodies.get(dict((m, x) for m, x in im["items"])["clone"])
            if b:
                return E.enter(st, b, {}, [args[0]])
        if v[2] == OPTION and v[3] == 1:
            def k(E, s, x):
                return E.deliver(s, some(x))
            st.stack.append(Native(k, "clone"))
            a = E.new_alloc(st, v[4][0])
            r = clone(E, st, [("ref", a, (), False)], c)
            return E.deliver(st, r) if isinstance(r, tuple) else r
    if v[0] == "t" and v[1] == "vecpush":
        w = en.pushed(v)
        if w[0] == "agg" and len(w[4]) <= 12 and any(x[0] == "agg" and x[1] == "adt" for x in w[4]):
            def each(E, s, i, done):
                if i == len(w[4]):
                    return E.deliver(s, done)
                s.stack.append(Native(lambda E, s2, x: each(E, s2, i + 1, ("t", "vecpush", done, x)), "clone"))
                r = clone(E, s, [("ref", E.new_alloc(s, w[4][i]), (), False)], c)
                return E.deliver(s, r) if isinstance(r, tuple) else r
            return each(E, st, 0, ("t", "vecnew"))
    return v


for n in ["core::clone::Clone::clone", "core::option::Option::clone", "alloc::rcs::arc::Arc::clone", "bytes::bytes::Bytes::clone",
          "alloc::string::String::clone", "alloc::vec::Vec::clone", "bool::clone", "u16::clone", "u8::clone", "u32::clone", "u64::clone",
          "usize::clone", "core::time::Duration::clone", "std::collections::hash::map::HashMap::clone", "bytes::bytes_mut::BytesMut::clone",
          "tokio::sync::mpsc::bounded::Sender::clone", "chacha20poly1305::ChaChaPoly1305::clone", "x25519_dalek::x25519::StaticSecret::clone",
          "tokio::sync::mpsc::unbounded::UnboundedSender::clone", "x25519_dalek::x25519::PublicKey::clone",
          "alloc::rcs::rc::Rc::clone", "alloc::boxed::Box::clone", "core::result::Result::clone", "generic_array::GenericArray::clone"]:
    M[n] = clone

for n in ["core::hint::must_use", "core::hint::black_box", "core::convert::identity", "core::pin::Pin::new", "core::pin::Pin::new_unchecked",
          "core::pin::Pin::into_inner", "core::pin::Pin::get_mut", "core::pin::Pin::get_ref", "core::pin::Pin::get_unchecked_mut",
          "core::pin::Pin::into_ref", "F::into_future", "I::into_iter_", "core::future::get_context", "core::cell::RefCell::new",
          "core::future::into_future::IntoFuture::into_future", "bytes::bytes_mut::BytesMut::freeze", "alloc::vec::Vec::into_boxed_slice",
          "alloc::string::String::into_bytes", "alloc::string::String::into_boxed_str", "alloc::vec::Vec::from_iter_",
          "alloc::boxed::Box::into_pin", "alloc::boxed::Box::into_vec", "[T]::into_vec", "alloc::slice::into_vec",
          "core::iter::traits::collect::IntoIterator::into_iter_", "bytes::bytes::Bytes::into_", "tokio::task::unconstrained",
          "core::array::from_fn_", "core::num::wrapping::Wrapping::new_", "alloc::boxed::Box::leak", "core::task::poll::Poll::into_"]:
    M[n] = ident

# string, vector, bytes and slice views of the same bytes
for n in ["alloc::vec::Vec::deref", "alloc::vec::Vec::deref_mut", "alloc::vec::Vec::as_slice", "alloc::vec::Vec::as_mut_slice",
          "alloc::string::String::deref", "alloc::string::String::as_str", "alloc::string::String::as_bytes", "str::as_bytes", "bytes::bytes::Bytes::deref",
          "bytes::bytes_mut::BytesMut::deref", "bytes::bytes_mut::BytesMut::deref_mut", "core::convert::AsRef::as_ref", "[T]::as_ref",
          "alloc::vec::Vec::as_ref", "alloc::string::String::as_ref", "str::as_ref", "bytes::bytes::Bytes::as_ref", "bytes::bytes_mut::BytesMut::as_ref",
          "bytes::bytes_mut::BytesMut::as_mut", "alloc::vec::Vec::as_mut", "[T; N]::as_slice", "[T; N]::as_ref", "[T; N]::as_mut", "[T; N]::as_mut_slice",
          "generic_array::GenericArray::deref", "generic_array::GenericArray::as_slice", "generic_array::GenericArray::from_slice",
          "generic_array::GenericArray::as_ref", "generic_array::GenericArray::deref_mut",
          "core::borrow::Borrow::borrow", "alloc::string::String::borrow", "core::option::Option::as_deref_", "alloc::string::String::as_mut_str",
          "core::pin::Pin::deref_", "str::as_str", "core::borrow::BorrowMut::borrow_mut", "core::convert::AsMut::as_mut",
          "std::io::IoSlice::deref", "std::io::IoSliceMut::deref", "core::io::io_slice::IoSlice::deref", "alloc::borrow::Cow::deref", "alloc::borrow::Cow::as_ref", "T::borrow", "T::borrow_mut", "[T]::as_mut", "bytes::bytes::Bytes::borrow", "[u8]::as_ref"]:
    M[n] = same_place


@model("core::pin::Pin::deref", "core::pin::Pin::deref_mut", "core::pin::Pin::as_mut", "core::pin::Pin::as_ref", "core::pin::Pin::as_deref_mut")
def pin_deref(E, st, args, c):
    # &Pin<P> -> &P::Target
    v = E.at(st, args[0])
    if v[0] in ("ref", "box", "arc"):
        a, p = E.target(st, v)
        return ("ref", a, p, True)
    if v[0] == "t":
        a, p = E.target(st, v)
        return ("ref", a, p, True)
    return args[0]


@model("alloc::boxed::Box::new", "alloc::boxed::Box::pin")
def box_new(E, st, args, c):
    return ("box", E.new_alloc(st, args[0], "box"))


@model("alloc::boxed::Box::deref", "alloc::boxed::Box::deref_mut", "alloc::boxed::Box::as_ref", "alloc::boxed::Box::as_mut")
def box_deref(E, st, args, c):
    v = E.at(st, args[0])
    a, p = E.target(st, v)
    return ("ref", a, p, True)


@model("alloc::rcs::arc::Arc::new", "alloc::rcs::rc::Rc::new", "alloc::rcs::arc::Arc::pin")
def arc_new(E, st, args, c):
    return ("arc", E.new_alloc(st, args[0], "arc"))


@model("alloc::rcs::arc::Arc::default")
def arc_default(E, st, args, c):
    t = c.rargs[0] if c.rargs else ("unknown",)
    return deliver_default(E, st, ("adt", "alloc::rcs::arc::Arc", (t,)))


@model("alloc::rcs::arc::Arc::deref", "alloc::rcs::arc::Arc::as_ref", "alloc::rcs::rc::Rc::deref", "alloc::rcs::arc::Arc::borrow",
       "alloc::rcs::arc::Arc::as_ptr", "alloc::rcs::arc::Arc::make_mut", "alloc::rcs::arc::Arc::get_mut_")
def arc_deref(E, st, args, c):
    v = E.at(st, args[0])
    a, p = E.target(st, v)
    return ("ref", a, p, False)


@model("alloc::rcs::arc::Arc::ptr_eq")
def arc_ptr_eq(E, st, args, c):
    a, b = E.at(st, args[0]), E.at(st, args[1])
    if a[0] == b[0] == "arc":
        return I(1 if a == b else 0)
    return eq(a, b)


def new_map(E, st):
    """an empty concurrent map of its own"""
    m = E.fresh(st, "dashmap")
    E.emit(st, "newmap", m)
    return m


def default_of(E, st, t):
    if t[0] == "adt":
        if t[1] in (OPTION,):
            return NONE
        if "DashMap" in t[1]:
            return new_map(E, st)
        if "HashMap" in t[1] or "BTreeMap" in t[1]:
            return ("t", "mapnew")
        if t[1].endswith(("::Vec", "::String", "::BytesMut", "::Bytes")):
            return EMPTY
        if t[1].startswith("core::sync::atomic::Atomic"):
            return atomic_new(E, st, [I(0)], None)
        if t[1].endswith("::Arc"):
            return ("arc", E.new_alloc(st, default_of(E, st, t[2][0]), "arc"))
    if t[0] == "int":
        return I(0)
    if t == ("tuple", ()):
        return tup()
    return ("t", "default", t)


@model("core::default::Default::default", "u8::default", "core::option::Option::default", "std::collections::hash::map::HashMap::default",
       "alloc::string::String::default", "alloc::vec::Vec::default", "bool::default", "u64::default", "usize::default", "bytes::bytes_mut::BytesMut::default",
       "bytes::bytes::Bytes::default", "dashmap::DashMap::default", "core::time::Duration::default")
def m_default(E, st, args, c):
    return deliver_default(E, st, c.dt, c)


WRAPPERS = ("Arc", "Rc", "Box", "Mutex", "RwLock", "RefCell", "Cell")


def deliver_default(E, st, t, c=None):
    """the default of a type, running the implementations of the crate"""
    if t[0] == "adt" and t[1].split("::")[0] == E.F.crate:
        im = E.find_impl("core::default::Default", t)
        body = E.F.bodies.get(dict((m, x) for m, x in im[0]["items"]).get("default")) if im else None
        if body:
            return E.enter(st, body, im[1], [])
    if t[0] == "adt" and t[1].rsplit("::", 1)[-1] in WRAPPERS and t[2]:
        new = M.get(t[1] + "::new")
        if new is not None:
            def k(E, s, v):
                class C:
                    rname = t[1] + "::new"
                    dt = t
                r = new(E, s, [v], C)
                return E.deliver(s, r) if isinstance(r, tuple) else r
            st.stack.append(Native(k, "default"))
            return deliver_default(E, st, t[2][0], c)
    return E.deliver(st, default_of(E, st, t))


# ---------------------------------------------------------------- tracing
def shown_type(E, st, args, c):
    """a value of a type of the crate is going to be formatted"""
    for t in c.targs:
        while t[0] == "ref":
            t = t[-1] if isinstance(t[-1], tuple) else t[1]
        if t[0] == "adt" and t[1].split("::")[0] == E.F.crate and args:
            E.emit(st, "shows", t, E.snap(st, E.deref_all(st, args[0]), 8))


def m_tracing(E, st, args, c):
    n = c.rname
    if E.tracing:
        if n.endswith("field::debug") or n.endswith("field::display"):
            shown_type(E, st, args, c)
        E.emit(st, "traced", n, tuple(E.snap(st, a, 8) for a in args))
        if n.endswith("Level::le") or n.endswith("LevelFilter::le") or n.endswith("__is_enabled"):
            return en.TRUE
        if n.endswith("is_disabled") or n.endswith("is_never"):
            return en.FALSE
    if n.endswith("Level::le") or n.endswith("LevelFilter::le") or n.endswith("__is_enabled") or n.endswith("Level::ge") and False:
        return en.FALSE
    if n.endswith("is_disabled") or n.endswith("is_never"):
        return en.TRUE
    if n.endswith("Instrument::instrument") or n.endswith("in_current_span") or n.endswith("or_current") or n.endswith("with_current_subscriber"):
        return args[0]
    if n.endswith("Instrumented::poll"):
        return E.poll(st, args[0])
    if n.endswith("Instrumented::inner_mut") or n.endswith("Instrumented::into_inner"):
        return args[0]
    if c.dt == ("tuple", ()):
        return en.UNIT
    return ("t", "tracing")


@model("core::fmt::Arguments::from_str", "core::fmt::Arguments::from_str_nonconst", "core::fmt::Arguments::new", "core::fmt::rt::Argument::new_debug",
       "core::fmt::rt::Argument::new_display", "core::fmt::Arguments::new_v1", "core::fmt::Arguments::new_const", "core::fmt::rt::Argument::new_lower_hex")
def m_fmt(E, st, args, c):
    if E.tracing:
        if "Argument::new_" in c.rname:
            shown_type(E, st, args, c)
        E.emit(st, "formatted", c.rname, tuple(E.snap(st, a, 8) for a in args))
    return ("t", "fmt", c.rname.split("::")[-1], tuple(E.snap(st, a, 8) for a in args))


@model("alloc::fmt::format", "core::fmt::Formatter::write_fmt")
def m_format(E, st, args, c):
    return ("t", "format", args[0])


@model("core::panicking::panic_fmt", "core::panicking::panic", "core::panicking::panic_explicit", "std::rt::begin_panic", "core::panicking::unreachable_display",
       "core::option::expect_failed", "core::option::unwrap_failed", "core::result::unwrap_failed", "core::panicking::panic_display", "core::panicking::assert_failed",
       "core::panicking::panic_str_2015", "std::rt::panic_fmt")
def m_panic(E, st, args, c):
    E.emit(st, "maypanic", "explicit panic")
    return E.finish(st, "panic")


# ---------------------------------------------------------------- Option / Result / Poll
def cases(E, st, v, name):
    return E.variants(st, v, name)


def opt_unwrap(E, st, args, c):
    out = []
    name = RESULT if "result::Result" in c.rname else OPTION
    for s, i, fs in cases(E, st, args[0], name):
        if (name == OPTION and i == 1) or (name == RESULT and i == 0):
            out.extend(E.deliver(s, fs[0]))
        else:
            E.emit(s, "maypanic", c.rname.split("::")[-1] + " of " + ("None" if name == OPTION else "Err"), args[0])
            out.extend(E.finish(s, "panic"))
    return out


for n in ["core::option::Option::unwrap", "core::option::Option::expect", "core::result::Result::unwrap", "core::result::Result::expect",
          "core::option::Option::unwrap_unchecked"]:
    M[n] = opt_unwrap


@model("core::option::Option::is_none", "core::option::Option::is_some", "core::result::Result::is_err", "core::result::Result::is_ok",
       "core::task::poll::Poll::is_ready", "core::task::poll::Poll::is_pending")
def opt_is(E, st, args, c):
    v = E.at(st, args[0])
    name = OPTION if "option" in c.rname else RESULT if "result" in c.rname else POLL
    want = {"is_none": 0, "is_some": 1, "is_err": 1, "is_ok": 0, "is_ready": 0, "is_pending": 1}[c.rname.split("::")[-1]]
    if v[0] in ("uninit", "moved"):
        return E.fresh(st, "is")
    out = []
    for s, i, fs in cases(E, st, v, name):
        out.extend(E.deliver(s, I(1 if i == want else 0)))
    return out


@model("core::option::Option::take", "core::mem::take")
def opt_take(E, st, args, c):
    a, p = E.target(st, args[0])
    v = E.load(st, a, p)
    t = c.rargs[0] if c.rargs else ("unknown",)
    E.store(st, a, p, NONE if "Option" in c.rname else default_of(E, st, t))
    return v


@model("core::option::Option::replace", "core::mem::replace")
def opt_replace(E, st, args, c):
    a, p = E.target(st, args[0])
    v = E.load(st, a, p)
    E.store(st, a, p, some(args[1]) if "Option" in c.rname else args[1])
    return v


@model("core::option::Option::insert")
def opt_insert(E, st, args, c):
    a, p = E.target(st, args[0])
    E.store(st, a, p, some(args[1]))
    return ("ref", a, p + (("v", 1), ("f", 0, "0")), True)


@model("core::mem::swap")
def mem_swap(E, st, args, c):
    a, p = E.target(st, args[0])
    b, q = E.target(st, args[1])
    x, y = E.load(st, a, p), E.load(st, b, q)
    E.store(st, a, p, y)
    E.store(st, b, q, x)
    return en.UNIT


@model("core::mem::drop", "core::mem::forget")
def mem_drop(E, st, args, c):
    if c.rname.endswith("forget"):
        E.emit(st, "forget", E.snap(st, args[0]))
        return en.UNIT
    a = E.new_alloc(st, args[0])
    todo = []
    E.glue(st, args[0], a, (), c.rargs[0] if c.rargs else ("unknown",), todo, 0)
    return E.run_glue(st, todo)


@model("core::option::Option::as_ref", "core::option::Option::as_mut", "core::option::Option::as_deref", "core::option::Option::as_deref_mut",
       "core::result::Result::as_ref", "core::result::Result::as_mut", "core::option::Option::as_pin_mut", "core::option::Option::iter_")
def opt_as_ref(E, st, args, c):
    a, p = E.target(st, args[0])
    v = E.load(st, a, p)
    name = OPTION if "option" in c.rname else RESULT
    out = []
    mut = c.rname.endswith("mut")
    for s, i, fs in cases(E, st, v, name):
        if name == OPTION and i == 0:
            out.extend(E.deliver(s, NONE))
        else:
            r = ("ref", a, p + (("v", i), ("f", 0, "0")), mut)
            if "deref" in c.rname:
                inner = E.at(s, r)
                if inner[0] in ("box", "arc"):
                    r = ("ref", inner[1], (), mut)
            out.extend(E.deliver(s, mk(name, i, r)))
    return out


def comb(spec):
    """combinators: variant -> how to get the result"""
    def m(E, st, args, c):
        name = OPTION if "option::Option" in c.rname else RESULT if "result::Result" in c.rname else POLL
        out = []
        for s, i, fs in cases(E, st, args[0], name):
            how = spec[name][i]
            out.extend(how(E, s, i, fs, args[1:], c, name))
        return out
    return m


def h_const(v):
    return lambda E, s, i, fs, a, c, n: E.deliver(s, v)


def h_val(E, s, i, fs, a, c, n):
    return E.deliver(s, fs[0])


def h_keep(E, s, i, fs, a, c, n):
    return E.deliver(s, mk(n, i, *fs))


def h_wrap(name, var):
    return lambda E, s, i, fs, a, c, n: E.deliver(s, mk(name, var, fs[0]))


def h_arg(k, name=None, var=None):
    def f(E, s, i, fs, a, c, n):
        return E.deliver(s, a[k] if name is None else mk(name, var, a[k]))
    return f


def h_call(k, with_val=True, name=None, var=None, ref=False):
    def f(E, s, i, fs, a, c, n):
        if name is not None:
            s.stack.append(Native(lambda E, s2, v: E.deliver(s2, mk(name, var, v)), "comb"))
        args = [fs[0]] if with_val else []
        if ref:
            al = E.new_alloc(s, fs[0])
            args = [("ref", al, (), False)]
        return E.call_value(s, a[k], args)
    return f


SPEC = {
    "map": {OPTION: [h_const(NONE), h_call(0, name=OPTION, var=1)], RESULT: [h_call(0, name=RESULT, var=0), h_keep],
            POLL: [h_call(0, name=POLL, var=0), h_keep]},
    "map_err": {RESULT: [h_keep, h_call(0, name=RESULT, var=1)]},
    "and_then": {OPTION: [h_const(NONE), h_call(0)], RESULT: [h_call(0), h_keep]},
    "or_else": {OPTION: [h_call(0, False), h_keep], RESULT: [h_keep, h_call(0)]},
    "unwrap_or": {OPTION: [h_arg(0), h_val], RESULT: [h_val, h_arg(0)]},
    "unwrap_or_else": {OPTION: [h_call(0, False), h_val], RESULT: [h_val, h_call(0)]},
    "ok_or": {OPTION: [h_arg(0, RESULT, 1), h_wrap(RESULT, 0)]},
    "ok_or_else": {OPTION: [h_call(0, False, RESULT, 1), h_wrap(RESULT, 0)]},
    "ok": {RESULT: [h_wrap(OPTION, 1), h_const(NONE)]},
    "err": {RESULT: [h_const(NONE), h_wrap(OPTION, 1)]},
    "map_or": {OPTION: [h_arg(0), h_call(1)], RESULT: [h_call(1), h_arg(0)]},
    "map_or_else": {OPTION: [h_call(0, False), h_call(1)], RESULT: [h_call(1), h_call(0)]},
    "is_some_and": {OPTION: [h_const(en.FALSE), h_call(0)]},
    "is_none_or": {OPTION: [h_const(en.TRUE), h_call(0)]},
    "is_ok_and": {RESULT: [h_call(0), h_const(en.FALSE)]},
    "is_err_and": {RESULT: [h_const(en.FALSE), h_call(0)]},
    "or": {OPTION: [h_arg(0), h_keep], RESULT: [h_keep, h_arg(0)]},
    "and": {OPTION: [h_const(NONE), h_arg(0)], RESULT: [h_arg(0), h_keep]},
    "flatten": {OPTION: [h_const(NONE), h_val], RESULT: [h_val, h_keep]},
    "unwrap_or_default": {OPTION: [lambda E, s, i, fs, a, c, n: deliver_default(E, s, c.dt, c), h_val],
                          RESULT: [h_val, lambda E, s, i, fs, a, c, n: deliver_default(E, s, c.dt, c)]},
}
for k, v in SPEC.items():
    for nm in v:
        M[nm + "::" + k] = comb(v)


@model("core::option::Option::filter")
def opt_filter(E, st, args, c):
    out = []
    for s, i, fs in cases(E, st, args[0], OPTION):
        if i == 0:
            out.extend(E.deliver(s, NONE))
            continue

        def k(E, s2, b, x=fs[0]):
            r = []
            for s3, t in fork_bool(E, s2, b):
                r.extend(E.deliver(s3, some(x) if t else NONE))
            return r
        s.stack.append(Native(k, "filter"))
        al = E.new_alloc(s, fs[0])
        out.extend(E.call_value(s, args[1], [("ref", al, (), False)]))
    return out


@model("core::option::Option::cloned", "core::option::Option::copied")
def opt_cloned(E, st, args, c):
    out = []
    for s, i, fs in cases(E, st, args[0], OPTION):
        if i == 0:
            out.extend(E.deliver(s, NONE))
        else:
            s.stack.append(Native(lambda E, s2, v: E.deliver(s2, some(v)), "cloned"))
            r = clone(E, s, [fs[0]], c)
            out.extend(E.deliver(s, r) if isinstance(r, tuple) else r)
    return out


@model("core::option::Option::get_or_insert_with", "core::option::Option::get_or_insert")
def opt_get_or_insert(E, st, args, c):
    a, p = E.target(st, args[0])
    out = []
    r = ("ref", a, p + (("v", 1), ("f", 0, "0")), True)
    for s, i, fs in cases(E, st, E.load(st, a, p), OPTION):
        if i == 1:
            out.extend(E.deliver(s, r))
        elif c.rname.endswith("with"):
            def k(E, s2, v):
                E.store(s2, a, p, some(v))
                return E.deliver(s2, r)
            s.stack.append(Native(k, "goiw"))
            out.extend(E.call_value(s, args[1], []))
        else:
            E.store(s, a, p, some(args[1]))
            out.extend(E.deliver(s, r))
    return out


@model("core::result::Result::inspect_err", "core::result::Result::inspect", "core::option::Option::inspect")
def res_inspect(E, st, args, c):
    name = OPTION if "option" in c.rname else RESULT
    want = 1 if name == OPTION or c.rname.endswith("err") else 0
    out = []
    for s, i, fs in cases(E, st, args[0], name):
        whole = mk(name, i, *fs)
        if i != want:
            out.extend(E.deliver(s, whole))
        else:
            s.stack.append(Native(lambda E, s2, v, w=whole: E.deliver(s2, w), "inspect"))
            al = E.new_alloc(s, fs[0])
            out.extend(E.call_value(s, args[1], [("ref", al, (), False)]))
    return out


@model("core::result::Result::branch", "core::option::Option::branch", "core::task::poll::Poll::branch", "core::ops::try_trait::Try::branch")
def branch(E, st, args, c):
    out = []
    if "Option" in c.rname or (c.rname.endswith("Try::branch") and args[0][0] == "agg" and args[0][2] == OPTION):
        for s, i, fs in cases(E, st, args[0], OPTION):
            out.extend(E.deliver(s, mk(CFLOW, 0, fs[0]) if i == 1 else mk(CFLOW, 1, NONE)))
        return out
    if "Poll" in c.rname:
        for s, i, fs in cases(E, st, args[0], POLL):
            if i == 1:
                out.extend(E.deliver(s, mk(CFLOW, 0, PENDING)))
                continue
            inner = fs[0]
            opt = inner[0] == "agg" and inner[2] == OPTION
            for s2, j, gs in cases(E, s, inner, OPTION if opt else RESULT):
                if opt and j == 0:
                    out.extend(E.deliver(s2, mk(CFLOW, 0, ready(NONE))))
                elif opt:
                    for s3, l, hs in cases(E, s2, gs[0], RESULT):
                        out.extend(E.deliver(s3, mk(CFLOW, 0, ready(some(hs[0]))) if l == 0 else mk(CFLOW, 1, err(hs[0]))))
                elif j == 0:
                    out.extend(E.deliver(s2, mk(CFLOW, 0, ready(gs[0]))))
                else:
                    out.extend(E.deliver(s2, mk(CFLOW, 1, err(gs[0]))))
        return out
    for s, i, fs in cases(E, st, args[0], RESULT):
        out.extend(E.deliver(s, mk(CFLOW, i, fs[0]) if i == 0 else mk(CFLOW, 1, err(fs[0]))))
    return out


@model("core::result::Result::from_residual", "core::task::poll::Poll::from_residual", "core::option::Option::from_residual")
def from_residual(E, st, args, c):
    if "option" in c.rname:
        return NONE
    out = []
    for s, i, fs in cases(E, st, args[0], RESULT):
        if i == 0:
            continue
        e = fs[0]
        wrap = (lambda v: err(v)) if "result" in c.rname else (lambda v: ready(some(err(v))) if is_opt_poll(c) else ready(err(v)))
        ra = c.rargs
        src, dst = (ra[1], ra[2]) if len(ra) >= 3 else (("unknown",), ("unknown",))
        s.stack.append(Native(lambda E, s2, v: E.deliver(s2, wrap(v)), "residual"))
        out.extend(convert(E, s, e, src, dst))
    return out


def is_opt_poll(c):
    t = c.dt
    return t[0] == "adt" and t[1] == POLL and t[2] and t[2][0][0] == "adt" and t[2][0][1] == OPTION


def convert(E, st, v, src, dst):
    """dst::from(v)"""
    if src == dst:
        return E.deliver(st, v)
    r = None
    if dst[0] in ("adt", "int"):
        for im in E.F.impls:
            if im.get("trait") == "core::convert::From":
                b = {}
                if E.unify(E.ty(im["self"]), dst, b):
                    ia = im["args"]
                    if E.unify(E.ty(ia[1]), src, b):
                        r = im
                        break
    if r:
        body = E.F.bodies.get(dict((m, x) for m, x in r["items"])["from"])
        if body:
            return E.enter(st, body, {}, [v])
    return E.deliver(st, conv_value(E, st, v, src, dst))


def conv_value(E, st, v, src, dst):
    dn = dst[1] if dst[0] == "adt" else dst[0]
    if dst[0] == "adt" and dst[1] == OPTION and not (src[0] == "adt" and src[1] == OPTION):
        return some(v)
    if dst[0] == "adt" and dst[1].endswith("::Arc"):
        return ("arc", E.new_alloc(st, v, "arc"))
    if dst[0] == "adt" and dst[1].endswith("boxed::Box"):
        return ("box", E.new_alloc(st, v, "box"))
    if is_bytes_ty(dst) and (is_bytes_ty(src) or v[0] in ("buf",)):
        return E.deref_all(st, v)
    if dst[0] == "int" and src[0] == "int":
        return v
    if dst[0] == "int" and src[0] == "adt":
        return ("t", "into", str(dn), v)
    return ("t", "into", str(dn), E.snap(st, v))


def is_bytes_ty(t):
    if t[0] == "ref":
        return is_bytes_ty(t[2])
    if t[0] in ("str",):
        return True
    if t[0] in ("slice", "array"):
        return True
    if t[0] == "adt":
        return t[1].split("::")[-1] in ("Vec", "String", "Bytes", "BytesMut", "GenericArray", "Cow") or (t[1].endswith("Box") and t[2] and is_bytes_ty(t[2][0]))
    return False


@model("T::into", "core::convert::Into::into")
def m_into(E, st, args, c):
    ra = c.rargs if c.rname == "T::into" else c.targs
    src, dst = (ra[0], ra[1]) if len(ra) >= 2 else (("unknown",), c.dt)
    return convert(E, st, args[0], src, dst)


@model("T::from")
def t_from(E, st, args, c):
    return args[0]


@model("core::convert::From::from", "bytes::bytes::Bytes::from", "alloc::string::String::from", "alloc::vec::Vec::from", "generic_array::GenericArray::from",
       "bytes::bytes_mut::BytesMut::from", "u64::from", "u32::from", "usize::from", "u16::from", "i64::from", "u128::from", "alloc::boxed::Box::from",
       "alloc::rcs::arc::Arc::from", "core::option::Option::from")
def m_from(E, st, args, c):
    src = c.ats[0] if c.ats else (c.targs[1] if len(c.targs) > 1 else ("unknown",))
    dst = c.dt
    if dst[0] == "int":
        v = args[0]
        if src[0] == "adt":
            return convert(E, st, v, src, dst)
        return v
    return convert(E, st, args[0], src, dst)


# ---------------------------------------------------------------- integers
def int_try_from(nbits):
    def m(E, st, args, c):
        v = args[0]
        if v[0] in ("t", "lin"):
            v = E.norm(st, v)
        lim = I((1 << nbits) - 1)
        out = []
        for s, t in fork_bool(E, st, lt(lim, v)):
            out.extend(E.deliver(s, err(("t", "tryfromint")) if t else ok(v)))
        return out
    return m


INTS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i32": 31, "i64": 63, "isize": 63}
for k, nb in INTS.items():
    M[k + "::try_from"] = int_try_from(nb)


@model("U::try_from", "T::try_into", "core::convert::TryInto::try_into", "core::convert::TryFrom::try_from")
def try_into(E, st, args, c):
    # blanket TryInto: dispatch on the target type
    ts = c.targs
    if c.rname.endswith("try_into"):
        src, dst = (ts + (("unknown",),) * 2)[:2]
    else:
        dst, src = (ts + (("unknown",),) * 2)[:2]
    if dst[0] == "int" and dst[1] in INTS:
        return int_try_from(INTS[dst[1]])(E, st, args, c)
    if dst[0] == "array":
        n = dst[2] if isinstance(dst[2], int) else en._int(dst[2])
        b = E.content(st, E.deref_all(st, args[0]))
        if n is not None:
            out = []
            for s, t in fork_bool(E, st, eq(buf_len(b), I(n))):
                out.extend(E.deliver(s, ok(b) if t else err(("t", "tryfromslice"))))
            return out
    if dst[0] == "adt":
        im = E.find_impl("core::convert::TryFrom", dst)
        if im:
            body = E.F.bodies.get(dict((m, x) for m, x in im[0]["items"]).get("try_from"))
            if body:
                return E.enter(st, body, im[1], args)
    return E.external(st, args, c)


def fork_bool(E, st, b):
    """[(state, truth)]"""
    r = E.decide(st, b)
    if r is not None:
        return [(st, r)]
    s2 = st.copy()
    out = []
    if E.assume(s2, b, True):
        out.append((s2, True))
    if E.assume(st, b, False):
        out.append((st, False))
    return out


def checked(op):
    def m(E, st, args, c):
        nb = INTS.get(c.rname.split("::")[0], 64)
        a, b = args
        v = {"add": add, "sub": sub, "mul": mul}[op](a, b) if num(a) and num(b) else ("t", op, a, b)
        if op == "sub":
            cond = lt(a, b)
        else:
            cond = E.overflow(st, v, nb, False)
        out = []
        for s, t in fork_bool(E, st, cond):
            out.extend(E.deliver(s, NONE if t else some(v)))
        return out
    return m


def saturating(op):
    def m(E, st, args, c):
        nb = INTS.get(c.rname.split("::")[0], 64)
        a, b = args
        v = {"add": add, "sub": sub, "mul": mul}[op](a, b) if num(a) and num(b) else ("t", op, a, b)
        cond = lt(a, b) if op == "sub" else E.overflow(st, v, nb, False)
        out = []
        for s, t in fork_bool(E, st, cond):
            out.extend(E.deliver(s, (I(0) if op == "sub" else I((1 << nb) - 1)) if t else v))
        return out
    return m


def wrapping(op):
    def m(E, st, args, c):
        nb = INTS.get(c.rname.split("::")[0], 64)
        a, b = args
        v = {"add": add, "sub": sub, "mul": mul}[op](a, b) if num(a) and num(b) else ("t", op, a, b)
        r = E.overflow(st, v, nb, False)
        if r == en.FALSE:
            return v
        return ("t", "wrap", nb, v)
    return m


def int_min(E, st, args, c):
    a, b = args
    r = E.decide(st, lt(b, a))
    if r is not None:
        return b if r else a
    a, b = sorted((a, b), key=repr)
    return ("t", "min", a, b)


def int_max(E, st, args, c):
    a, b = args
    r = E.decide(st, lt(a, b))
    if r is not None:
        return b if r else a
    a, b = sorted((a, b), key=repr)
    return ("t", "max", a, b)


M["core::cmp::min"] = M["core::cmp::Ord::min"] = int_min
M["core::cmp::max"] = M["core::cmp::Ord::max"] = int_max


def int_cmp(E, st, args, c):
    a, b = E.deref_all(st, args[0]), E.deref_all(st, args[1])
    out = []
    for s, t in fork_bool(E, st, lt(a, b)):
        if t:
            out.extend(E.deliver(s, mk(en.ORDERING, 0)))
        else:
            for s2, t2 in fork_bool(E, s, eq(a, b)):
                out.extend(E.deliver(s2, mk(en.ORDERING, 1 if t2 else 2)))
    return out


def to_bytes(endian):
    def m(E, st, args, c):
        return buf((endian, INTS[c.rname.split("::")[0]] // 8, args[0]))
    return m


def from_bytes(endian):
    def m(E, st, args, c):
        n = INTS[c.rname.split("::")[0]] // 8
        x = int_of(E.content(st, E.deref_all(st, args[0])), endian)
        return x if x is not None else ("t", "from_" + endian, n, E.content(st, E.deref_all(st, args[0])))
    return m


for k, nb in list(INTS.items()):
    for op in ("add", "sub", "mul"):
        M["%s::checked_%s" % (k, op)] = checked(op)
        M["%s::saturating_%s" % (k, op)] = saturating(op)
        M["%s::wrapping_%s" % (k, op)] = wrapping(op)
    M[k + "::min"] = int_min
    M[k + "::max"] = int_max
    M[k + "::cmp"] = int_cmp
    if k in ("u8", "u16", "u32", "u64", "usize", "i64", "i32"):
        M[k + "::to_be_bytes"] = to_bytes("be")
        M[k + "::to_le_bytes"] = to_bytes("le")
        M[k + "::to_ne_bytes"] = to_bytes("le")
        M[k + "::from_be_bytes"] = from_bytes("be")
        M[k + "::from_le_bytes"] = from_bytes("le")
M["isize::cmp"] = int_cmp
M["core::cmp::Ord::cmp"] = int_cmp
M["core::cmp::impls::cmp"] = int_cmp


@model("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne", "alloc::string::String::eq", "str::eq", "[T]::eq", "alloc::vec::Vec::eq", "u64::eq",
       "alloc::string::String::ne", "&A::eq", "&A::ne", "core::option::Option::eq", "core::option::Option::ne", "bytes::bytes::Bytes::eq",
       "x25519_dalek::x25519::PublicKey::eq", "x25519_dalek::x25519::PublicKey::ne", "[T; N]::eq", "alloc::vec::Vec::ne", "u8::eq", "usize::eq", "str::ne", "u8::ne",
       "u16::eq", "u16::ne", "[T]::ne", "[T; N]::ne")
def m_eq(E, st, args, c):
    a, b = E.deref_all(st, args[0]), E.deref_all(st, args[1])
    if a[0] == "agg" and b[0] == "agg" and a[1] == "adt" == b[1] and a[2] == b[2] == OPTION and a[3] == b[3] == 1:
        a, b = E.deref_all(st, a[4][0]), E.deref_all(st, b[4][0])
    if a[0] == "agg" and b[0] == "agg" and a[1] == "adt" and b[1] == "adt" and a[2] == b[2] and a[3] != b[3]:
        r = en.FALSE
    else:
        if a[0] == "buf" or b[0] == "buf":
            a, b = E.content(st, a), E.content(st, b)
        r = eq(a, b)
    if a[0] == "t" and b[0] == "agg" and b[1] == "adt" and E.discrs(b[2]) and not b[4]:
        return eq_variant(E, st, a, b, c)
    if b[0] == "t" and a[0] == "agg" and a[1] == "adt" and E.discrs(a[2]) and not a[4]:
        return eq_variant(E, st, b, a, c)
    return nott(r) if c.rname.endswith("::ne") else r


def eq_variant(E, st, t, a, c):
    out = []
    ne = c.rname.endswith("::ne")
    for s, i, fs in E.variants(st, t, a[2]):
        out.extend(E.deliver(s, I(1 if (i == a[3]) != ne else 0)))
    return out


@model("core::intrinsics::discriminant_value", "core::mem::discriminant")
def discriminant_value(E, st, args, c):
    v = E.at(st, args[0])
    t = c.targs[0] if c.targs else ("unknown",)
    return E.discr(st, v, t)


# ---------------------------------------------------------------- bytes
@model("bytes::bytes_mut::BytesMut::new", "bytes::bytes::Bytes::new", "alloc::vec::Vec::new", "alloc::string::String::new")
def empty(E, st, args, c):
    return EMPTY


@model("bytes::bytes_mut::BytesMut::with_capacity", "alloc::vec::Vec::with_capacity", "alloc::string::String::with_capacity")
def with_capacity(E, st, args, c):
    note_alloc(E, st, args[0])
    return EMPTY


@model("alloc::vec::from_elem")
def from_elem(E, st, args, c):
    note_alloc(E, st, args[1])
    if args[0] == ("int", 0):
        return buf(("z", args[1]))
    return ("t", "repeat", args[0], args[1])


@model("bytes::bytes_mut::BytesMut::zeroed")
def zeroed(E, st, args, c):
    note_alloc(E, st, args[0])
    return buf(("z", args[0]))


@model("bytes::bytes::Bytes::len", "bytes::bytes_mut::BytesMut::len", "alloc::vec::Vec::len", "alloc::string::String::len", "[T]::len", "str::len",
       "bytes::buf::buf_impl::Buf::remaining", "bytes::bytes::Bytes::remaining", "bytes::bytes_mut::BytesMut::remaining", "[T; N]::len")
def m_len(E, st, args, c):
    v = E.deref_all(st, args[0])
    return E.length(st, v)


@model("bytes::bytes::Bytes::is_empty", "bytes::bytes_mut::BytesMut::is_empty", "alloc::vec::Vec::is_empty", "alloc::string::String::is_empty", "[T]::is_empty",
       "str::is_empty")
def m_is_empty(E, st, args, c):
    n = E.length(st, E.deref_all(st, args[0]))
    r = E.decide(st, eq(n, I(0)))
    return eq(n, I(0)) if r is None else I(1 if r else 0)


@model("bytes::buf::buf_impl::Buf::has_remaining")
def m_has_remaining(E, st, args, c):
    n = E.length(st, E.deref_all(st, args[0]))
    r = E.decide(st, eq(n, I(0)))
    return nott(eq(n, I(0))) if r is None else I(0 if r else 1)


def append(E, st, ptr, b):
    a, p = E.target(st, ptr)
    v = E.load(st, a, p)
    while v[0] in ("ref", "box"):
        a, p = E.target(st, v)
        v = E.load(st, a, p)
    E.store(st, a, p, cat(E.content(st, v), b))


def put_int(endian, n):
    def m(E, st, args, c):
        append(E, st, args[0], buf((endian, n, args[1])))
        return en.UNIT
    return m


for nm, n in (("u8", 1), ("u16", 2), ("u32", 4), ("u64", 8), ("i64", 8), ("u128", 16)):
    for base in ("bytes::buf::buf_mut::BufMut::put_", "bytes::bytes_mut::BytesMut::put_", "alloc::vec::Vec::put_"):
        M[base + nm] = put_int("be", n)
        M[base + nm + "_le"] = put_int("le", n)


@model("bytes::buf::buf_mut::BufMut::put_uint", "bytes::bytes_mut::BytesMut::put_uint")
def put_uint(E, st, args, c):
    if args[2][0] == "int":
        append(E, st, args[0], buf(("be", args[2][1], args[1])))
        return en.UNIT
    return E.external(st, args, c)


@model("bytes::bytes_mut::BytesMut::put", "bytes::bytes_mut::BytesMut::put_slice", "bytes::buf::buf_mut::BufMut::put", "bytes::buf::buf_mut::BufMut::put_slice",
       "alloc::vec::Vec::extend_from_slice", "bytes::bytes_mut::BytesMut::extend_from_slice", "alloc::string::String::push_str", "bytes::bytes_mut::BytesMut::unsplit",
       "alloc::vec::Vec::put_slice", "alloc::vec::Vec::put")
def put(E, st, args, c):
    append(E, st, args[0], E.content(st, E.deref_all(st, args[1])))
    return en.UNIT


@model("alloc::vec::Vec::append")
def vec_append(E, st, args, c):
    a, p = E.target(st, args[1])
    append(E, st, args[0], E.content(st, E.load(st, a, p)))
    E.store(st, a, p, EMPTY)
    return en.UNIT


@model("alloc::vec::Vec::extend", "bytes::bytes_mut::BytesMut::extend")
def vec_extend(E, st, args, c):
    v = E.deref_all(st, args[1])
    if v[0] == "buf" or v[0] == "t":
        append(E, st, args[0], E.content(st, v))
        return en.UNIT
    return E.external(st, args, c)


@model("alloc::vec::Vec::push")
def vec_push(E, st, args, c):
    t = c.rargs[0] if c.rargs else ("unknown",)
    a, p = E.target(st, args[0])
    v = E.load(st, a, p)
    if t[:2] == ("int", "u8"):
        append(E, st, args[0], buf(("be", 1, args[1])))
        return en.UNIT
    E.emit(st, "push", ("ref", a, p, True), E.snap(st, args[1]))
    E.store(st, a, p, ("t", "vecpush", v if v != EMPTY else ("t", "vecnew"), args[1]))
    return en.UNIT


@model("alloc::vec::Vec::clear", "bytes::bytes_mut::BytesMut::clear", "alloc::string::String::clear", "bytes::bytes::Bytes::clear")
def vec_clear(E, st, args, c):
    a, p = E.target(st, args[0])
    E.store(st, a, p, EMPTY)
    return en.UNIT


@model("[T]::to_vec", "alloc::slice::to_vec", "str::to_owned", "alloc::string::ToString::to_string", "T::to_owned", "bytes::bytes::Bytes::copy_from_slice",
       "[T]::to_owned", "T::to_string", "alloc::borrow::ToOwned::to_owned", "str::to_string", "alloc::string::String::to_string", "alloc::string::String::to_owned", "bytes::bytes::Bytes::from_static",
       "alloc::vec::Vec::to_vec", "alloc::str::to_owned", "alloc::borrow::Cow::into_owned", "bytes::bytes::Bytes::from_owner", "alloc::slice::to_owned")
def to_owned(E, st, args, c):
    # the string of a value is only known if the value is a string
    t = c.targs[0] if c.targs else ("unknown",)
    v = E.deref_all(st, args[0])
    if c.rname == "T::to_string" and not (is_bytes_ty(t) or t[0] in ("param", "unknown")) and v[0] != "buf":
        return ("t", "to_string", v)
    while v[0] == "t" and v[1] == "*":
        v = v[2]
    return v


def split(E, st, ptr, at, what):
    """(first at bytes, rest, states)"""
    a, p = E.target(st, ptr)
    v = E.load(st, a, p)
    while v[0] in ("ref",):
        a, p = E.target(st, v)
        v = E.load(st, a, p)
    b = E.content(st, v)
    n = buf_len(b)
    if not E.ge0(st, sub(n, at)):
        E.emit(st, "maypanic", what, at, n)
        E.assume(st, lt(n, at), False)
    else:
        E.emit(st, "proved", what, at, n)
    g = lambda l: E.ge0(st, l)
    x = slice_buf(b, I(0), at, g)
    y = slice_buf(b, at, n, g)
    if x is None:
        x = as_buf(("t", "slice", b, I(0), at))
    if y is None:
        y = as_buf(("t", "slice", b, at, n))
    return a, p, x, y


@model("bytes::bytes_mut::BytesMut::copy_to_bytes", "bytes::bytes::Bytes::copy_to_bytes", "bytes::bytes_mut::BytesMut::split_to", "bytes::bytes::Bytes::split_to",
       "bytes::buf::buf_impl::Buf::copy_to_bytes")
def copy_to_bytes(E, st, args, c):
    a, p, x, y = split(E, st, args[0], args[1], "split of a buffer")
    E.store(st, a, p, y)
    return x


@model("bytes::bytes_mut::BytesMut::split_off", "bytes::bytes::Bytes::split_off", "alloc::vec::Vec::split_off")
def split_off(E, st, args, c):
    a, p, x, y = split(E, st, args[0], args[1], "split of a buffer")
    E.store(st, a, p, x)
    return y


@model("bytes::bytes_mut::BytesMut::split")
def bm_split(E, st, args, c):
    a, p = E.target(st, args[0])
    v = E.load(st, a, p)
    E.store(st, a, p, EMPTY)
    return v


@model("bytes::bytes_mut::BytesMut::advance", "bytes::bytes::Bytes::advance", "bytes::buf::buf_impl::Buf::advance")
def advance(E, st, args, c):
    if reader(E, st, args[0])[0] in ("slice", "cursor"):
        return take_bytes(E, st, args[0], args[1], "advance of a buffer", lambda E, s, x: en.UNIT)
    a, p, x, y = split(E, st, args[0], args[1], "advance of a buffer")
    E.store(st, a, p, y)
    return en.UNIT


@model("bytes::bytes_mut::BytesMut::truncate", "alloc::vec::Vec::truncate", "bytes::bytes::Bytes::truncate")
def truncate(E, st, args, c):
    a, p = E.target(st, args[0])
    v = E.load(st, a, p)
    b = E.content(st, v)
    out = []
    for s, keeps in fork_bool(E, st, lt(buf_len(b), add(args[1], I(1)))):
        if not keeps:
            x = slice_buf(b, I(0), args[1], lambda l: E.ge0(s, l))
            E.store(s, a, p, x if x is not None else ("t", "slice", b, I(0), args[1]))
        out.extend(E.deliver(s, en.UNIT))
    return out


@model("alloc::string::String::truncate")
def str_truncate(E, st, args, c):
    a, p = E.target(st, args[0])
    b = E.content(st, E.load(st, a, p))
    if not E.ge0(st, sub(args[1], buf_len(b))):
        E.store(st, a, p, ("t", "clipped", b, args[1]))
    return en.UNIT


@model("alloc::vec::Vec::resize", "bytes::bytes_mut::BytesMut::resize")
def resize(E, st, args, c):
    a, p = E.target(st, args[0])
    v = E.load(st, a, p)
    note_alloc(E, st, args[1])
    b = E.content(st, v)
    if b == EMPTY and args[2] == ("int", 0):
        E.store(st, a, p, buf(("z", args[1])))
    else:
        n = buf_len(b)
        d = sub(args[1], n)
        out = []
        for s, shrinks in ([(st, False)] if E.ge0(st, d) else fork_bool(E, st, lt(args[1], n))):
            if shrinks:
                x = slice_buf(b, I(0), args[1], lambda l: E.ge0(s, l))
                E.store(s, a, p, x if x is not None else ("t", "slice", b, I(0), args[1]))
            elif args[2] == ("int", 0):
                E.store(s, a, p, cat(b, buf(("z", d))))
            else:
                E.store(s, a, p, E.fresh(s, "resized"))
            out.extend(E.deliver(s, en.UNIT))
        return out
    return en.UNIT


@model("alloc::vec::Vec::reserve", "bytes::bytes_mut::BytesMut::reserve", "alloc::vec::Vec::reserve_exact", "alloc::string::String::reserve", "alloc::vec::Vec::shrink_to_fit")
def reserve(E, st, args, c):
    if len(args) > 1:
        note_alloc(E, st, args[1])
    return en.UNIT


@model("[T]::repeat", "alloc::slice::repeat")
def m_repeat(E, st, args, c):
    b = E.content(st, E.deref_all(st, args[0]))
    if args[1][0] == "int" and args[1][1] <= 16:
        return buf(*(b[1] * args[1][1]))
    return ("t", "repeatbytes", b, args[1])


@model("[T]::copy_from_slice", "[T]::clone_from_slice")
def copy_from_slice(E, st, args, c):
    a, p = E.target(st, args[0])
    d = E.length(st, E.load(st, a, p))
    b = E.content(st, E.deref_all(st, args[1]))
    n = buf_len(b)
    if d != n and E.decide(st, eq(d, n)) is not True:
        E.emit(st, "maypanic", "copy_from_slice of different lengths", d, n)
    E.store(st, a, p, b)
    return en.UNIT


@model("[T]::concat", "[T]::join_")
def m_concat(E, st, args, c):
    v = E.deref_all(st, args[0])
    if v[0] == "agg" and v[1] == "array":
        out = EMPTY
        for x in v[4]:
            out = cat(out, E.content(st, E.deref_all(st, x)))
        return out
    return E.external(st, args, c)


def rng(E, st, r, n):
    """bounds of a range value"""
    r = E.deref_all(st, r)
    if r[0] == "agg":
        nm = r[2].split("::")[-1]
        if nm == "RangeFull":
            return I(0), n
        if nm == "Range":
            return r[4][0], r[4][1]
        if nm == "RangeTo":
            return I(0), r[4][0]
        if nm == "RangeFrom":
            return r[4][0], n
        if nm == "RangeInclusive":
            return r[4][0], add(r[4][1], I(1))
        if nm == "RangeToInclusive":
            return I(0), add(r[4][0], I(1))
    return None


@model("[T]::index", "[T]::index_mut", "alloc::vec::Vec::index", "alloc::vec::Vec::index_mut", "core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut",
       "str::index", "alloc::string::String::index", "[T; N]::index", "[T; N]::index_mut", "bytes::bytes::Bytes::slice", "core::array::index", "bytes::bytes::Bytes::slice_ref_")
def m_index(E, st, args, c):
    a, p = E.target(st, args[0])
    v = E.load(st, a, p)
    while v[0] in ("ref", "box", "arc"):
        a, p = E.target(st, v)
        v = E.load(st, a, p)
    n = E.length(st, v)
    i = args[1]
    r = rng(E, st, i, n)
    if r is None:
        if num(i):
            if not E.ge0(st, sub(sub(n, i), I(1))):
                E.emit(st, "maypanic", "index out of bounds", i, n)
                E.assume(st, lt(i, n), True)
            else:
                E.emit(st, "proved", "index", i, n)
            return ("ref", a, p + (("i", i),), c.rname.endswith("mut"))
        return E.external(st, args, c)
    lo, hi = r
    if not (E.ge0(st, sub(n, hi)) and E.ge0(st, sub(hi, lo))):
        E.emit(st, "maypanic", "slice out of bounds", lo, hi, n)
        E.assume(st, lt(n, hi), False)
        E.assume(st, lt(hi, lo), False)
    else:
        E.emit(st, "proved", "slice", lo, hi, n)
    if lo == ("int", 0) and hi == n:
        res = ("ref", a, p, c.rname.endswith("mut"))
    else:
        res = ("ref", a, p + (("sl", lo, hi),), c.rname.endswith("mut"))
    if c.rname.endswith("::slice"):
        return E.at(st, res)
    return res


@model("[T]::get", "str::get", "alloc::vec::Vec::get")
def m_get(E, st, args, c):
    a, p = E.target(st, args[0])
    v = E.load(st, a, p)
    n = E.length(st, v)
    r = rng(E, st, args[1], n)
    out = []
    if r is None:
        if not num(args[1]):
            return E.external(st, args, c)
        for s, t in fork_bool(E, st, lt(args[1], n)):
            out.extend(E.deliver(s, some(("ref", a, p + (("i", args[1]),), False)) if t else NONE))
        return out
    lo, hi = r
    for s, t in fork_bool(E, st, lt(n, hi)):
        if t:
            out.extend(E.deliver(s, NONE))
        else:
            for s2, t2 in fork_bool(E, s, lt(hi, lo)):
                out.extend(E.deliver(s2, NONE if t2 else some(("ref", a, p + (("sl", lo, hi),), False))))
    return out


@model("[T]::first", "[T]::last", "[T]::first_mut", "[T]::last_mut", "[T]::split_first", "[T]::split_last", "[T]::split_first_mut", "[T]::split_last_mut")
def m_first(E, st, args, c):
    op = c.rname.split("::")[-1]
    a, p = E.target(st, args[0])
    v = E.load(st, a, p)
    while v[0] in ("ref", "box", "arc"):
        a, p = E.target(st, v)
        v = E.load(st, a, p)
    n = E.length(st, v)
    mut = op.endswith("_mut")
    out = []
    for s, t in fork_bool(E, st, lt(I(0), n)):
        if not t:
            out.extend(E.deliver(s, NONE))
            continue
        at = I(0) if "first" in op else sub(n, I(1))
        x = ("ref", a, p + (("i", at),), mut)
        if op.startswith("split"):
            lo, hi = (I(1), n) if "first" in op else (I(0), at)
            x = tup(x, ("ref", a, p + (("sl", lo, hi),), mut))
        out.extend(E.deliver(s, some(x)))
    return out


@model("[T]::split_at")
def split_at(E, st, args, c):
    a, p = E.target(st, args[0])
    v = E.load(st, a, p)
    n = E.length(st, v)
    if not E.ge0(st, sub(n, args[1])):
        E.emit(st, "maypanic", "split_at out of bounds", args[1], n)
        E.assume(st, lt(n, args[1]), False)
    return tup(("ref", a, p + (("sl", I(0), args[1]),), False), ("ref", a, p + (("sl", args[1], n),), False))


@model("alloc::string::String::from_utf8", "core::str::from_utf8", "core::str::converts::from_utf8")
def from_utf8(E, st, args, c):
    v = args[0]
    b = E.content(st, E.deref_all(st, v))
    s2 = st.copy()
    E.emit(s2, "utf8err", b)
    out = E.deliver(s2, err(("t", "utf8error")))
    out += E.deliver(st, ok(v))
    return out


@model("alloc::string::String::from_utf8_lossy", "alloc::string::String::from_utf8_lossy_owned")
def from_utf8_lossy(E, st, args, c):
    b = E.content(st, E.deref_all(st, args[0]))
    s2 = st.copy()
    E.emit(s2, "utf8err", b)
    out = E.deliver(s2, buf(("raw", ("t", "lossy", b))))
    out += E.deliver(st, b)
    return out


@model("alloc::string::String::from_utf8_unchecked", "core::str::from_utf8_unchecked", "core::str::converts::from_utf8_unchecked")
def from_utf8_unchecked(E, st, args, c):
    E.emit(st, "unchecked", E.content(st, E.deref_all(st, args[0])))
    return args[0]


@model("alloc::string::String::pop")
def str_pop(E, st, args, c):
    E.havoc(st, ("ref",) + args[0][1:3] + (True,))
    return E.fresh(st, "pop")


@model("[T]::contains", "alloc::vec::Vec::contains")
def contains(E, st, args, c):
    l = E.deref_all(st, args[0])
    x = E.deref_all(st, args[1])
    return ("t", "isvar", ("t", "contains", l, x), 1) if False else ("t", "mapin", l, x)


# ---------------------------------------------------------------- iteration
@model("core::ops::range::Range::next", "core::ops::range::RangeInclusive::next")
def range_next(E, st, args, c):
    a, p = E.target(st, args[0])
    r = E.load(st, a, p)
    if r[0] == "agg" and r[1] == "adt" and r[2].endswith("::Range") and len(r[4]) == 2:
        lo, hi = r[4]
        if lo[0] == "int" and hi[0] == "int":
            if hi[1] - lo[1] <= E.counted:
                for f in reversed(st.stack):
                    if isinstance(f, en.Frame):
                        f.conc = True
                        break
            if lo[1] < hi[1]:
                E.store(st, a, p, r[:4] + ((I(lo[1] + 1), hi),))
                return some(lo)
            return NONE
        out = []
        for s, t in fork_bool(E, st, lt(lo, hi)):
            if t:
                E.store(s, a, p, r[:4] + ((add(lo, I(1)), hi),))
                out.extend(E.deliver(s, some(lo)))
            else:
                out.extend(E.deliver(s, NONE))
        return out
    return iter_next(E, st, args, c)


# an iterator over a collection: ('agg','adt','iter',0,(collection, position, adaptors))
ITER = "iter"


def mk_iter(coll, kind, ops=()):
    return mk(ITER, 0, coll, I(0), ("t", "ops", kind) + tuple(ops))


@model("[T]::iter", "[T]::iter_mut", "alloc::vec::Vec::into_iter", "I::into_iter", "core::iter::traits::collect::IntoIterator::into_iter", "std::collections::hash::map::HashMap::iter",
       "std::collections::hash::map::HashMap::values", "std::collections::hash::map::HashMap::keys", "std::collections::hash::map::HashMap::into_iter",
       "&alloc::vec::Vec::into_iter", "&mut alloc::vec::Vec::into_iter", "[T]::into_iter", "alloc::vec::Vec::iter", "alloc::vec::Vec::drain", "std::collections::hash::map::HashMap::drain",
       "&std::collections::hash::map::HashMap::into_iter", "std::collections::hash::map::HashMap::values_mut", "[T; N]::into_iter", "core::array::iter::into_iter")
def m_iter(E, st, args, c):
    v = args[0]
    if v[0] == "agg" and v[1] == "adt" and (v[2] in (ITER, "dashiter") or v[2].endswith("::Range") or v[2].endswith("::RangeInclusive")):
        return v
    by_ref = v[0] == "ref"
    kind = c.rname.split("::")[-1]
    if kind == "into_iter":
        kind = "ref" if by_ref else "val"
    elif kind in ("iter", "iter_mut"):
        kind = "ref"
    coll = E.deref_all(st, v)
    if by_ref and coll[0] == "agg" and coll[1] == "array" and len(coll[4]) <= 24:
        # the elements stay where they are
        a, p = E.target(st, v)
        while E.load(st, a, p)[0] == "ref":
            a, p = E.target(st, E.load(st, a, p))
        if E.load(st, a, p) == coll and kind in ("ref", "val"):
            return mk_iter(("agg", "array", None, 0, tuple(("ref", a, p + (("i", I(i)),), True) for i in range(len(coll[4])))), "val")
    if by_ref and kind in ("ref", "val") and coll[:2] != ("agg", "array"):
        a, p = E.target(st, v)
        while p and p[-1][0] != "sl" and E.load(st, a, p)[0] == "ref":
            a, p = E.target(st, E.load(st, a, p))
        if p and p[-1][0] == "sl":
            base, lo, hi = p[:-1], E.norm(st, p[-1][1]), E.norm(st, p[-1][2])
            whole = E.load(st, a, base)
            if whole[:2] == ("agg", "array") and lo[0] == "int" and hi[0] == "int" and 0 <= lo[1] <= hi[1] <= len(whole[4]) <= 24:
                return mk_iter(("agg", "array", None, 0, tuple(("ref", a, base + (("i", I(i)),), True) for i in range(lo[1], hi[1]))), "val")
            known = known_elems(whole)
            if known is not None and lo[0] == "int" and hi[0] == "int" and 0 <= lo[1] <= hi[1] <= len(known) <= 24:
                return mk_iter(("agg", "array", None, 0, tuple(known[lo[1]:hi[1]])), kind)
    if kind == "drain":
        a, p = E.target(st, v)
        E.store(st, a, p, EMPTY)
        kind = "val"
    return mk_iter(coll, kind)


def adaptor(name):
    def m(E, st, args, c):
        it = args[0]
        if not (it[0] == "agg" and it[1] == "adt" and it[2] == ITER):
            if it[0] == "agg" and it[2].endswith("::Range"):
                it = mk_iter(it, "range")
            elif it[0] == "t":
                it = mk_iter(it, "val")
            else:
                return E.external(st, args, c)
        ops = it[4][2] + ((name,) + tuple(args[1:]),)
        return mk(ITER, 0, it[4][0], it[4][1], ops)
    return m


for n in ("map", "cloned", "copied", "filter", "enumerate", "inspect", "filter_map", "skip", "rev", "take", "skip_while", "take_while", "chain", "zip", "cycle", "by_ref_"):
    M["core::iter::traits::iterator::Iterator::" + n] = adaptor(n)


def elem(E, st, it):
    """one arbitrary element of an iterator; delivers to the continuation"""
    coll, pos, ops = it[4]
    kind = ops[2]
    st.n += 1
    if coll[0] == "t" and coll[1] == "vecof":
        x = coll[2]
    elif coll[0] == "agg" and coll[1] == "array" and len(coll[4]) == 1:
        x = coll[4][0]
    else:
        x = ("t", "elem", coll, pos if pos[0] != "int" else st.n)
    if kind == "ref":
        a = E.new_alloc(st, x, "el")
        x = ("ref", a, (), True)
    elif kind in ("iter", "values", "keys", "values_mut"):
        a = E.new_alloc(st, x, "el")
        x = ("ref", a, (), True)
    return x, list(ops[3:])


def apply_ops(E, st, x, ops, k):
    """k(E, st, value or None)"""
    if not ops:
        return k(E, st, x)
    op = ops[0]
    rest = ops[1:]
    name = op[0]
    if name == "map":
        st.stack.append(Native(lambda E, s, v: apply_ops(E, s, v, rest, k), "map"))
        return E.call_value(st, op[1], [x])
    if name in ("cloned", "copied"):
        class C:
            rname = "clone"
        st.stack.append(Native(lambda E, s, v: apply_ops(E, s, v, rest, k), "cloned"))
        r = clone(E, st, [x], C)
        return E.deliver(st, r) if isinstance(r, tuple) else r
    if name in ("filter", "skip_while", "take_while"):
        al = E.new_alloc(st, x)

        def kk(E, s, b):
            out = []
            for s2, t in fork_bool(E, s, b):
                out.extend(apply_ops(E, s2, x, rest, k) if t else k(E, s2, None))
            return out
        st.stack.append(Native(kk, "filter"))
        return E.call_value(st, op[1], [("ref", al, (), False)])
    if name == "inspect":
        al = E.new_alloc(st, x)
        st.stack.append(Native(lambda E, s, v: apply_ops(E, s, x, rest, k), "inspect"))
        return E.call_value(st, op[1], [("ref", al, (), False)])
    if name == "filter_map":
        def kf(E, s, v):
            out = []
            for s2, i, fs in E.variants(s, v, OPTION):
                out.extend(apply_ops(E, s2, fs[0], rest, k) if i == 1 else k(E, s2, None))
            return out
        st.stack.append(Native(kf, "filter_map"))
        return E.call_value(st, op[1], [x])
    if name == "enumerate":
        return apply_ops(E, st, tup(I(op[1]) if len(op) > 1 else E.fresh(st, "idx"), x), rest, k)
    if name in ("skip", "rev", "take", "cycle"):
        return apply_ops(E, st, x, rest, k)
    return apply_ops(E, st, E.fresh(st, "elem"), rest, k)


@model("core::iter::traits::iterator::Iterator::next", "core::slice::iter::Iter::next", "alloc::vec::into_iter::IntoIter::next", "core::slice::iter::IterMut::next",
       "core::iter::adapters::map::Map::next", "core::iter::adapters::cloned::Cloned::next", "core::iter::adapters::enumerate::Enumerate::next",
       "core::iter::adapters::filter::Filter::next", "std::collections::hash::map::IntoIter::next", "std::collections::hash::map::Iter::next",
       "std::collections::hash::map::Keys::next", "std::collections::hash::map::Values::next", "core::iter::adapters::rev::Rev::next", "core::array::iter::IntoIter::next",
       "core::iter::adapters::take::Take::next", "core::iter::adapters::skip::Skip::next", "core::iter::adapters::zip::Zip::next", "core::iter::adapters::copied::Copied::next")
def iter_next(E, st, args, c):
    a, p = E.target(st, args[0])
    it = E.load(st, a, p)
    while it[0] == "ref":
        a, p = E.target(st, it)
        it = E.load(st, a, p)
    if it[0] == "agg" and it[1] == "adt" and it[2].endswith("::Range"):
        return range_next(E, st, [("ref", a, p, True)], c)
    if not (it[0] == "agg" and it[2] == ITER):
        if it[0] == "t":
            it = mk_iter(it, "val")
        else:
            return E.external(st, args, c)
    coll = it[4][0]
    out = []
    known = known_elems(coll)
    if known is not None and coll[0] != "agg":
        coll = ("agg", "array", None, 0, tuple(known))
        it = mk(ITER, 0, coll, *it[4][1:])
    if coll[0] == "agg" and coll[1] == "array":
        # elements known one by one
        i = it[4][1]
        if i[0] == "int":
            for f in reversed(st.stack):
                if isinstance(f, en.Frame):
                    f.conc = len(coll[4]) <= E.counted
                    break
            if i[1] >= len(coll[4]):
                return NONE
            ops, at = [], i[1]
            for o in it[4][2][3:]:
                if o[0] == "rev":
                    at = len(coll[4]) - 1 - at
            now, counted = i[1], True
            if sum(o[0] == "rev" for o in it[4][2][3:]) % 2:
                now = len(coll[4]) - 1 - now
            for o in it[4][2][3:]:
                if o[0] == "enumerate" and len(o) == 1 and counted:
                    ops.append((o[0], now))
                    continue
                if o[0] == "rev":
                    now = len(coll[4]) - 1 - now
                elif o[0] not in ("map", "cloned", "copied", "inspect"):
                    counted = False
                ops.append(o)
            x = coll[4][at]
            E.store(st, a, p, mk(ITER, 0, coll, I(i[1] + 1), it[4][2]))
            if it[4][2][2] == "ref":
                x = ("ref", E.new_alloc(st, x, "el"), (), True)
            return apply_ops(E, st, x, ops, lambda E, s, v: E.deliver(s, some(v)) if v is not None else E.deliver(s, E.fresh(s, "opt")))
    s2 = st.copy()
    out.extend(E.deliver(s2, NONE))
    E.emit(st, "iternext", coll)
    x, ops = elem(E, st, it)
    out.extend(apply_ops(E, st, x, ops, lambda E, s, v: E.deliver(s, some(v)) if v is not None else E.deliver(s, NONE)))
    return out


@model("core::iter::traits::iterator::Iterator::collect", "core::iter::traits::collect::FromIterator::from_iter", "alloc::vec::Vec::from_iter",
       "std::collections::hash::map::HashMap::from_iter")
def it_collect(E, st, args, c):
    it = args[0]
    if it[0] == "t" or it[0] == "buf":
        return it
    if it[0] == "agg" and it[2].endswith("::Range"):
        it = mk_iter(it, "range")
    if not (it[0] == "agg" and it[2] == ITER):
        return E.external(st, args, c)
    if len(it[4][2]) == 3:
        return it[4][0]
    if it[4][2][3:] in ((("cloned",),), (("copied",),)):
        return it[4][0]
    known = known_elems(it[4][0])
    if known is not None and c.dt[0] == "adt" and c.dt[1].endswith("::Vec") and it[4][1] == I(0) and not any(o[0] not in ("map", "cloned", "copied", "inspect", "filter", "filter_map") for o in it[4][2][3:]):
        def step(E, s, todo, done):
            if not todo:
                return E.deliver(s, done)
            x, ops = elem(E, s, mk(ITER, 0, mk_array(todo[0]), *it[4][1:]))
            return apply_ops(E, s, x, ops, lambda E, s2, v: step(E, s2, todo[1:], ("t", "vecpush", done, v) if v is not None else done))
        return step(E, st, known, ("t", "vecnew"))
    src = it[4][0]
    o = it[4][2][3:]
    if src[:2] == ("t", "call") and src[2] == "str::chars" and len(o) == 1 and o[0][0] == "take" and c.dt[0] == "adt" and c.dt[1].endswith("::String"):
        return ("t", "clipped", E.content(st, E.deref_all(st, src[3][0])), o[0][1])
    E.emit(st, "iternext", it[4][0])
    x, ops = elem(E, st, it)
    return apply_ops(E, st, x, ops, lambda E, s, v: E.deliver(s, ("t", "vecof", v if v is not None else ("t", "filtered"), src)))


@model("core::iter::traits::iterator::Iterator::for_each")
def it_for_each(E, st, args, c):
    it = args[0]
    if not (it[0] == "agg" and it[2] == ITER):
        return E.external(st, args, c)
    its = one_by_one(it)
    if its is not None:
        def step(E, s, v, acc, go):
            s.stack.append(Native(lambda E, s3, r: go(s3, None), "for_each"))
            return E.call_value(s, args[1], [v])
        return walk(E, st, its, step, lambda E, s, acc: E.deliver(s, en.UNIT), None)
    s2 = st.copy()
    out = E.deliver(s2, en.UNIT)
    E.emit(st, "iternext", it[4][0])
    x, ops = elem(E, st, it)

    def k(E, s, v):
        if v is None:
            return E.deliver(s, en.UNIT)
        s.stack.append(Native(lambda E, s3, r: E.deliver(s3, en.UNIT), "for_each"))
        return E.call_value(s, args[1], [v])
    return out + apply_ops(E, st, x, ops, k)


@model("core::iter::traits::iterator::Iterator::fold", "alloc::vec::into_iter::IntoIter::fold")
def it_fold(E, st, args, c):
    it = args[0]
    if not (it[0] == "agg" and it[2] == ITER):
        return E.external(st, args, c)
    its = one_by_one(it)
    if its is not None:
        def step(E, s, v, acc, go):
            s.stack.append(Native(lambda E, s3, r: go(s3, r), "fold"))
            return E.call_value(s, args[2], [acc, v])
        return walk(E, st, its, step, lambda E, s, acc: E.deliver(s, acc), args[1])
    s2 = st.copy()
    out = E.deliver(s2, args[1])
    E.emit(st, "iternext", it[4][0])
    x, ops = elem(E, st, it)
    acc = E.fresh(st, "loopv")

    def k(E, s, v):
        if v is None:
            return E.deliver(s, acc)
        s.stack.append(Native(lambda E, s3, r: E.deliver(s3, r), "fold"))
        return E.call_value(s, args[2], [acc, v])
    return out + apply_ops(E, st, x, ops, k)


@model("core::iter::traits::iterator::Iterator::min_by_key", "core::iter::traits::iterator::Iterator::max_by_key")
def it_min_by_key(E, st, args, c):
    it = args[0]
    which = c.rname.split("::")[-1]
    if not (it[0] == "agg" and it[2] == ITER):
        return E.external(st, args, c)
    known = known_elems(it[4][0])
    if known == []:
        return E.deliver(st, NONE)
    out = []
    if known is None:
        s2 = st.copy()
        E.assume(s2, eq(E.length(s2, it[4][0]), I(0)), True)
        out = E.deliver(s2, NONE)
        E.assume(st, eq(E.length(st, it[4][0]), I(0)), False)
    E.emit(st, "iternext", it[4][0])
    its = one_by_one(it)
    if its is not None:
        return choose_one(E, st, its, which, args[1])

    def k(E, s, v):
        if v is None:
            return E.deliver(s, NONE)
        al = E.new_alloc(s, v)

        def k2(E, s3, key):
            E.emit(s3, "choose", which, E.snap(s3, v), key)
            return E.deliver(s3, some(v))
        s.stack.append(Native(k2, which))
        return E.call_value(s, args[1], [("ref", al, (), False)])
    if known is None or any(o[0] in ("chain", "zip") for o in it[4][2][3:]):
        x, ops = elem(E, st, it)
        return out + apply_ops(E, st, x, ops, k)
    # whichever of the elements it is
    for y in known:
        s = st.copy()
        one = mk(ITER, 0, mk_array(y), *it[4][1:])
        x, ops = elem(E, s, one)
        out.extend(apply_ops(E, s, x, ops, k))
    return out


def choose_one(E, st, its, which, fn):
    """the smallest or largest of known elements"""
    def step(E, s, v, acc, go):
        def k2(E, s3, key):
            return go(s3, acc + ((v, key),))
        if fn is None:
            return k2(E, s, E.deref_all(s, v))
        s.stack.append(Native(k2, which))
        return E.call_value(s, fn, [("ref", E.new_alloc(s, v), (), False)])

    def end(E, s, acc):
        if not acc:
            return E.deliver(s, NONE)
        acc = tuple((v, inst_shallow(E, s, key)) for v, key in acc)
        keys = [int_key(key) for _, key in acc]
        if None not in keys:
            best = min(keys) if which.startswith("min") else max(keys)
            ix = [i for i, x in enumerate(keys) if x == best]
            todo = [acc[ix[0] if which.startswith("min") else ix[-1]]]
        else:
            todo = acc
        out = []
        for v, key in todo:
            s2 = s.copy() if len(todo) > 1 else s
            E.emit(s2, "choose", which, E.snap(s2, v), key)
            out.extend(E.deliver(s2, some(v)))
        return out
    return walk(E, st, its, step, end, ())


def inst_shallow(E, st, v):
    v = E.norm(st, v) if v[0] in ("t", "lin") else v
    if v[0] == "agg" and v[1] != "lazy":
        return v[:4] + (tuple(inst_shallow(E, st, x) for x in v[4]),)
    return v


@model("core::iter::traits::iterator::Iterator::min_by", "core::iter::traits::iterator::Iterator::max_by", "core::iter::traits::iterator::Iterator::reduce")
def it_min_by(E, st, args, c):
    it = args[0]
    which = c.rname.split("::")[-1]
    its = one_by_one(it) if it[0] == "agg" and it[2] == ITER else None
    if its is None:
        return E.external(st, args, c)

    def step(E, s, v, acc, go):
        if acc is None:
            return go(s, v)
        if which == "reduce":
            s.stack.append(Native(lambda E, s3, r: go(s3, r), which))
            return E.call_value(s, args[1], [acc, v])

        def k2(E, s3, o):
            out = []
            for s4, i, _ in E.variants(s3, o, en.ORDERING):
                # Less, Equal, Greater: acc compared to v
                keep = i != 2 if which == "min_by" else i == 2
                out.extend(go(s4, acc if keep else v))
            return out
        s.stack.append(Native(k2, which))
        return E.call_value(s, args[1], [("ref", E.new_alloc(s, acc), (), False), ("ref", E.new_alloc(s, v), (), False)])
    return walk(E, st, its, step, lambda E, s, acc: E.deliver(s, NONE if acc is None else some(acc)), None)


def mk_array(x):
    return ("agg", "array", None, 0, (x,))


def known_elems(coll):
    """the elements of a collection that was built piece by piece"""
    if coll[0] == "agg" and coll[1] == "array":
        return list(coll[4])
    out = []
    while coll[0] == "t" and coll[1] == "vecpush":
        out.append(coll[3])
        coll = coll[2]
    if coll in (EMPTY, ("t", "vecnew")):
        return out[::-1]
    if coll[0] == "agg" and coll[1] == "array":
        return list(coll[4]) + out[::-1]
    return None


def one_by_one(it):
    """an iterator as single-element iterators, in order, if its elements are known"""
    known = known_elems(it[4][0])
    if known is None or it[4][1] != I(0) or len(known) > 12:
        return None
    head = it[4][2][:3]
    items = [(x, head, ()) for x in known]
    counted, cycle = True, False
    for o in it[4][2][3:]:
        if o[0] in ("map", "cloned", "copied", "inspect", "filter", "filter_map"):
            counted = counted and not o[0].startswith("filter")
            items = [(x, h, q + (o,)) for x, h, q in items]
        elif o[0] == "rev" and not cycle:
            items = items[::-1]
        elif o[0] == "enumerate" and counted and not cycle:
            items = [(x, h, q + (("enumerate", i),)) for i, (x, h, q) in enumerate(items)]
        elif o[0] == "cycle" and counted and items:
            cycle = True
        elif o[0] == "skip" and counted and o[1][0] == "int":
            n = o[1][1] % len(items) if cycle else o[1][1]
            items = items[n:] + (items[:n] if cycle else [])
        elif o[0] == "take" and counted and o[1][0] == "int" and o[1][1] <= 24:
            items = (items * (24 if cycle else 1))[:o[1][1]]
            cycle = False
        elif o[0] == "chain" and not cycle and o[1][0] == "agg" and o[1][2] == ITER:
            more = one_by_one(o[1])
            if more is None or len(items) + len(more) > 24:
                return None
            items = items + [(m[4][0][4][0], m[4][2][:3], m[4][2][3:]) for m in more]
        else:
            return None
    if cycle:
        return None
    return [mk(ITER, 0, mk_array(x), I(0), h + q) for x, h, q in items]


def walk(E, st, its, step, end, acc):
    """step(E, st, element, acc, go_on) for each element in turn; end(E, st, acc) after the last"""
    def go(s, i, acc):
        if i == len(its):
            return end(E, s, acc)
        x, ops = elem(E, s, its[i])
        return apply_ops(E, s, x, ops, lambda E, s2, v: step(E, s2, v, acc, lambda s3, a: go(s3, i + 1, a)) if v is not None else go(s2, i + 1, acc))
    return go(st, 0, acc)


def int_key(v):
    """a key that can be compared: a number or a tuple of them"""
    if v[0] == "int":
        return (v[1],)
    if v[0] == "agg" and v[1] != "lazy" and all(x[0] == "int" for x in v[4]) and not (v[1] == "adt" and len(v[4]) != 1):
        return tuple(x[1] for x in v[4]) if v[1] != "adt" else ((-v[4][0][1],) if "Reverse" in str(v[2]) else None)
    return None


def it_pred(name):
    def m(E, st, args, c):
        it = args[0]
        if it[0] == "ref":
            it = E.deref_all(st, it)
        if not (it[0] == "agg" and it[2] == ITER):
            return E.external(st, args, c)
        its = one_by_one(it)
        if its is not None:
            def test(E, s, v, acc, go):
                arg = ("ref", E.new_alloc(s, v), (), False) if name == "find" else v

                def k2(E, s3, b):
                    out = []
                    for s4, t in fork_bool(E, s3, E.norm(s3, b) if b[0] in ("t", "lin") else b):
                        if t == (name != "all"):
                            n = acc
                            out.extend(E.deliver(s4, {"any": I(1), "all": I(0), "find": some(v), "position": some(I(n))}[name]))
                        else:
                            out.extend(go(s4, acc + 1))
                    return out
                s.stack.append(Native(k2, name))
                return E.call_value(s, args[1], [arg])
            return walk(E, st, its, test, lambda E, s, acc: E.deliver(s, {"any": I(0), "all": I(1)}.get(name, NONE)), 0)
        if name == "position":
            return E.external(st, args, c)
        x, ops = elem(E, st, it)

        def k(E, s, v):
            if v is None:
                return E.deliver(s, NONE if name == "find" else I(0 if name == "any" else 1))
            arg = v
            if name == "find":
                arg = ("ref", E.new_alloc(s, v), (), False)

            def k2(E, s3, b):
                # membership test of a collection: x == y is "y in collection"
                b = E.norm(s3, b) if b[0] in ("t", "lin") else b
                coll = it[4][0]
                if name == "any" and b[0] == "t" and b[1] == "eq":
                    for e, o in ((b[2], b[3]), (b[3], b[2])):
                        if e[0] == "t" and e[1] == "elem" and e[2] == coll:
                            return E.deliver(s3, ("t", "mapin", coll, o))
                out = []
                for s4, t in fork_bool(E, s3, b):
                    if name == "any":
                        out.extend(E.deliver(s4, I(1 if t else 0)))
                    elif name == "all":
                        out.extend(E.deliver(s4, I(1 if t else 0)))
                    else:
                        out.extend(E.deliver(s4, some(v) if t else NONE))
                return out
            s.stack.append(Native(k2, name))
            return E.call_value(s, args[1], [arg])
        return apply_ops(E, st, x, ops, k)
    return m


for n in ("any", "all", "find", "position"):
    M["core::iter::traits::iterator::Iterator::" + n] = it_pred(n)
    M["core::slice::iter::Iter::" + n] = it_pred(n)


# ---------------------------------------------------------------- maps
def mapkey(E, st, k):
    v = E.deref_all(st, k)
    while v[0] == "t" and v[1] == "*":
        v = v[2]
    return v


@model("std::collections::hash::map::HashMap::new", "std::collections::hash::map::HashMap::with_capacity")
def map_new(E, st, args, c):
    return ("t", "mapnew")


@model("std::collections::hash::map::HashMap::insert")
def map_insert(E, st, args, c):
    a, p = E.target(st, args[0])
    m = E.load(st, a, p)
    k = mapkey(E, st, args[1])
    E.emit(st, "mapins", ("ref", a, p, True), k, E.snap(st, args[2]))
    E.store(st, a, p, ("t", "mapins", m, k, args[2]))
    return ("t", "mapold", m, k)


@model("std::collections::hash::map::HashMap::remove")
def map_remove(E, st, args, c):
    a, p = E.target(st, args[0])
    m = E.load(st, a, p)
    k = mapkey(E, st, args[1])
    E.store(st, a, p, ("t", "mapdel", m, k))
    return ("t", "mapold", m, k)


def map_has(E, st, m, k):
    if m == ("t", "mapnew"):
        return en.FALSE
    if m[0] == "t" and m[1] == "mapins" and m[3] == k:
        return en.TRUE
    return ("t", "mapin", m, k)


@model("std::collections::hash::map::HashMap::get", "std::collections::hash::map::HashMap::get_mut")
def map_get(E, st, args, c):
    a, p = E.target(st, args[0])
    m = E.load(st, a, p)
    k = mapkey(E, st, args[1])
    out = []
    E.emit(st, "mapget", m, k)
    for s, t in fork_bool(E, st, map_has(E, st, m, k)):
        if not t:
            out.extend(E.deliver(s, NONE))
        else:
            v = m[4] if m[0] == "t" and m[1] == "mapins" and m[3] == k else ("t", "mapget", m, k)
            al = ("p", ("t", "mapref", m, k))
            if al not in s.mem:
                s.mem[al] = v
            out.extend(E.deliver(s, some(("ref", al, (), c.rname.endswith("mut")))))
    return out


@model("std::collections::hash::map::HashMap::contains_key")
def map_contains(E, st, args, c):
    m = E.at(st, args[0])
    return map_has(E, st, m, mapkey(E, st, args[1]))


HENTRY = "std::collections::hash::map::Entry"


def entry_name(n):
    return "std::collections::hash::map::" + n


@model(entry_name("HashMap::entry"))
def map_entry(E, st, args, c):
    a, p = E.target(st, args[0])
    m = E.load(st, a, p)
    k = mapkey(E, st, args[1])
    out = []
    for s, t in fork_bool(E, st, map_has(E, st, m, k)):
        n = "OccupiedEntry" if t else "VacantEntry"
        inner = ("agg", "adt", entry_name(n), 0, (("ref", a, p, True), k))
        out.extend(E.deliver(s, ("agg", "adt", HENTRY, 0 if t else 1, (inner,))))
    return out


def entry_of(E, st, x):
    if x[0] == "agg" and x[2] == HENTRY:
        x = x[4][0]
    r, k = x[4][0], x[4][1]
    a, p = E.target(st, r)
    return a, p, E.load(st, a, p), k


def entry_slot(E, st, m, k):
    v = m[4] if m[0] == "t" and m[1] == "mapins" and m[3] == k else ("t", "mapget", m, k)
    al = ("p", ("t", "mapref", m, k))
    if al not in st.mem:
        st.mem[al] = v
    return ("ref", al, (), True)


def entry_put(E, st, x, v):
    a, p, m, k = entry_of(E, st, x)
    E.emit(st, "mapins", ("ref", a, p, True), k, E.snap(st, v))
    m2 = ("t", "mapins", m, k, v)
    E.store(st, a, p, m2)
    return entry_slot(E, st, m2, k)


def occupied(x):
    return x[3] == 0 if x[2] == HENTRY else x[2].endswith("OccupiedEntry")


@model(HENTRY + "::or_insert", HENTRY + "::or_default")
def entry_or_insert(E, st, args, c):
    x = args[0]
    if x[0] != "agg":
        return None
    if occupied(x):
        a, p, m, k = entry_of(E, st, x)
        return entry_slot(E, st, m, k)
    if len(args) > 1:
        return entry_put(E, st, x, args[1])

    def k(E, s, v):
        r = entry_put(E, s, x, v)
        return E.deliver(s, r) if isinstance(r, tuple) else r
    t = c.dt
    while t[0] == "ref":
        t = t[1] if isinstance(t[1], tuple) else t[-1]
    st.stack.append(Native(k, "default"))
    return deliver_default(E, st, t, c)


@model(HENTRY + "::or_insert_with", HENTRY + "::or_insert_with_key")
def entry_or_insert_with(E, st, args, c):
    x = args[0]
    if x[0] != "agg":
        return None
    if occupied(x):
        a, p, m, k = entry_of(E, st, x)
        return entry_slot(E, st, m, k)

    def k2(E, s, v):
        return E.deliver(s, entry_put(E, s, x, v))
    st.stack.append(Native(k2, "or_insert_with"))
    return E.call_value(st, args[1], [])


@model(HENTRY + "::insert_entry", entry_name("OccupiedEntry::insert"), entry_name("VacantEntry::insert"))
def entry_insert(E, st, args, c):
    x = E.at(st, args[0]) if args[0][0] == "ref" else args[0]
    if x[0] != "agg":
        return None
    a, p, m, k = entry_of(E, st, x)
    r = entry_put(E, st, x, args[1])
    if c.rname.endswith("OccupiedEntry::insert"):
        return ("t", "mapold", m, k)
    return r


@model(entry_name("OccupiedEntry::get"), entry_name("OccupiedEntry::get_mut"), entry_name("OccupiedEntry::into_mut"))
def entry_get(E, st, args, c):
    x = E.at(st, args[0]) if args[0][0] == "ref" else args[0]
    if x[0] != "agg":
        return None
    a, p, m, k = entry_of(E, st, x)
    return entry_slot(E, st, m, k)


def dash_loc(E, st, ptr):
    a, p = E.target(st, ptr)
    v = E.load(st, a, p)
    while v[0] in ("ref", "arc", "box"):
        a, p = E.target(st, v)
        v = E.load(st, a, p)
    if a[0] == "p" and v == ("t", "*", a[1]):
        return a[1]
    return v if v[0] == "t" else ("ref", a, p, False)


def dash_prior(st, loc, key):
    """presence of an entry according to this task's own earlier operations: True, False, None"""
    t = st.trace
    while t is not None:
        e = t[1]
        if e.kind == "dash" and e.args[1] == loc and e.args[2] == key:
            if e.args[0] == "insert":
                return None
            return None
        t = t[0]
    return None


@model("dashmap::DashMap::new", "dashmap::DashMap::with_capacity")
def dash_new(E, st, args, c):
    return new_map(E, st)


@model("dashmap::DashMap::insert")
def dash_insert(E, st, args, c):
    loc = dash_loc(E, st, args[0])
    E.emit(st, "dash", "insert", loc, mapkey(E, st, args[1]), E.snap(st, args[2]))
    return E.fresh(st, "dashold")


def with_predicate(E, st, f, args, yes, no):
    """calls a predicate and goes on depending on its result"""
    def k(E, s, b):
        out = []
        for s2, t in fork_bool(E, s, b):
            out.extend(E.deliver(s2, (yes if t else no)(E, s2)))
        return out
    st.stack.append(Native(k, "predicate"))
    return E.call_value(st, f, args)


@model("dashmap::DashMap::remove_if", "dashmap::DashMap::remove_if_mut")
def dash_remove_if(E, st, args, c):
    loc = dash_loc(E, st, args[0])
    key = mapkey(E, st, args[1])
    v = dash_value(st, loc, key)

    def yes(E, s):
        E.emit(s, "dash", "remove", loc, key, UNIT)
        return E.fresh(s, "dashremoved", loc, key)

    def no(E, s):
        E.emit(s, "dash", "spared", loc, key, UNIT)
        return NONE
    ak, av = E.new_alloc(st, key), E.new_alloc(st, v)
    return with_predicate(E, st, args[2], [("ref", ak, (), False), ("ref", av, (), False)], yes, no)


def dash_value(st, loc, key):
    """the value last stored under a key"""
    t = st.trace
    while t is not None:
        e = t[1]
        if e.kind == "dash" and e.args[0] == "insert" and e.args[1] == loc and e.args[2] == key:
            return e.args[3]
        t = t[0]
    return ("t", "dashval", loc, key)


@model("dashmap::DashMap::retain")
def dash_retain(E, st, args, c):
    """the predicate is asked about an arbitrary entry"""
    loc = dash_loc(E, st, args[0])
    st.n += 1
    key = ("t", "anykey", st.n)
    v = ("t", "dashval", loc, key)

    def yes(E, s):
        return en.UNIT

    def no(E, s):
        if not any(f[:2] == ("t", "txclosed") and b for f, b in s.facts.items()):
            E.emit(s, "dash", "remove", loc, E.norm(s, key), UNIT)
        return en.UNIT
    ak, av = E.new_alloc(st, key), E.new_alloc(st, v)
    return with_predicate(E, st, args[1], [("ref", ak, (), False), ("ref", av, (), True)], yes, no)


@model("tokio::sync::mpsc::bounded::Sender::is_closed", "tokio::sync::mpsc::unbounded::UnboundedSender::is_closed", "tokio::sync::oneshot::Sender::is_closed")
def tx_is_closed(E, st, args, c):
    tx = E.deref_all(st, args[0])
    ids = [x[2] for x in subterms(tx) if len(x) == 3 and x[:2] == ("t", "tx")]
    if len(ids) != 1:
        return ("t", "txclosed", tx)
    rx = ("t", "rx", ids[0])
    t = st.trace
    while t is not None:
        e = t[1]
        if e.kind == "dropterm" and mentions(e.args[0], lambda x: x == rx):
            return TRUE
        if e.kind == "channel" and e.args[1] == I(ids[0]):
            return FALSE
        t = t[0]
    return ("t", "txclosed", tx)


@model("dashmap::DashMap::remove")
def dash_remove(E, st, args, c):
    loc = dash_loc(E, st, args[0])
    key = mapkey(E, st, args[1])
    E.emit(st, "dash", "remove", loc, key, UNIT)
    return E.fresh(st, "dashremoved", loc, key)


@model("dashmap::DashMap::clear", "dashmap::DashMap::shrink_to_fit")
def dash_clear(E, st, args, c):
    loc = dash_loc(E, st, args[0])
    E.emit(st, "dash", c.rname.split("::")[-1], loc, UNIT, UNIT)
    return en.UNIT


@model("dashmap::DashMap::contains_key")
def dash_contains(E, st, args, c):
    loc = dash_loc(E, st, args[0])
    key = mapkey(E, st, args[1])
    E.emit(st, "dash", "contains", loc, key, UNIT)
    return E.fresh(st, "dashhas", loc, key)


@model("dashmap::DashMap::len", "dashmap::DashMap::is_empty", "dashmap::DashMap::capacity", "dashmap::DashMap::iter", "dashmap::DashMap::iter_mut")
def dash_all(E, st, args, c):
    """every part of the map is locked, one after the other"""
    op = c.rname.split("::")[-1]
    loc = dash_loc(E, st, args[0])
    E.emit(st, "dash", op, loc, UNIT, UNIT)
    if op in ("iter", "iter_mut"):
        return mk("dashiter", 0, loc)
    return E.external(st, args, c)


@model("dashmap::iter::Iter::next", "dashmap::iter::IterMut::next")
def dash_next(E, st, args, c):
    """an arbitrary entry, locked as long as it is held"""
    it = E.deref_all(st, args[0])
    if not (it[0] == "agg" and it[2] == "dashiter"):
        return E.external(st, args, c)
    loc = it[4][0]
    s2 = st.copy()
    out = E.deliver(s2, NONE)
    st.n += 1
    key = ("t", "anykey", st.n)
    al = E.new_alloc(st, ("t", "dashval", loc, key))
    g = ("guard", al, (), "shard")
    E.emit(st, "iternext", loc)
    E.emit(st, "lock", "shard", loc, g)
    return out + E.deliver(st, some(g))


@model("dashmap::mapref::multiple::RefMulti::key", "dashmap::mapref::multiple::RefMutMulti::key", "dashmap::mapref::multiple::RefMulti::pair",
       "dashmap::mapref::one::Ref::key", "dashmap::mapref::one::RefMut::key", "dashmap::mapref::one::Ref::pair")
def dash_ref_key(E, st, args, c):
    v = E.at(st, args[0])
    d = E.load_alloc(st, v[1]) if v[0] == "guard" else None
    if d is None or d[:2] != ("t", "dashval"):
        return E.external(st, args, c)
    k = ("ref", E.new_alloc(st, d[3]), (), False)
    return tup(k, ("ref", v[1], v[2], True)) if c.rname.endswith("pair") else k


@model("tokio::sync::mpsc::bounded::Sender::capacity")
def tx_capacity(E, st, args, c):
    """how much room is left depends on everybody else"""
    tx = E.deref_all(st, args[0])
    st.n += 1
    return ("t", "typed", 32, ("t", "room", tx, st.n))


@model("tokio::sync::mpsc::bounded::Sender::max_capacity")
def tx_max_capacity(E, st, args, c):
    tx = E.deref_all(st, args[0])
    for x in subterms(tx):
        if len(x) == 3 and x[:2] == ("t", "tx"):
            t = st.trace
            while t is not None:
                e = t[1]
                if e.kind == "channel" and e.args[1] == I(x[2]):
                    return e.args[2]
                t = t[0]
    return ("t", "typed", 32, ("t", "room", tx, 0))


@model("dashmap::DashMap::view")
def dash_view(E, st, args, c):
    """what a function makes of an entry, which is locked meanwhile"""
    loc = dash_loc(E, st, args[0])
    key = mapkey(E, st, args[1])
    E.emit(st, "dash", "get", loc, key, UNIT)
    s2 = st.copy()
    E.emit(s2, "dashmiss", loc, key)
    out = E.deliver(s2, NONE)
    al, ak = E.new_alloc(st, ("t", "dashval", loc, key)), E.new_alloc(st, key)
    g = ("guard", al, (), "shard")
    E.emit(st, "dashhit", loc, key)
    E.emit(st, "lock", "shard", loc, g)

    def k(E, s, v):
        E.emit(s, "unlock", g)
        return E.deliver(s, some(v))
    st.stack.append(Native(k, "view"))
    return out + E.call_value(st, args[2], [("ref", ak, (), False), ("ref", al, (), False)])


DENTRY = "dashmap::mapref::entry::"


@model("dashmap::DashMap::entry")
def dash_entry(E, st, args, c):
    loc = dash_loc(E, st, args[0])
    key = mapkey(E, st, args[1])
    E.emit(st, "dash", "entry", loc, key, UNIT)
    out = []
    # a number that was just made is no key yet
    for i in (1,) if mentions(key, lambda x: x[:2] == ("t", "?atomic")) else (0, 1):
        s = st.copy()
        E.emit(s, "dashmiss" if i else "dashhit", loc, key)
        al = E.new_alloc(s, ("t", "dashval", loc, key))
        g = ("guard", al, (), "shard")
        E.emit(s, "lock", "shard", loc, g)
        out.extend(E.deliver(s, mk(DENTRY + "Entry", i, mk(DENTRY + ("VacantEntry" if i else "OccupiedEntry"), 0, g, loc, key))))
    return out


def dash_slot(E, st, x):
    """the entry behind a value of the entry API: (occupied, guard, location, key)"""
    if x[0] == "ref":
        x = E.at(st, x)
    if x[0] == "agg" and x[2] == DENTRY + "Entry":
        x = x[4][0]
    if x[0] != "agg" or not str(x[2]).startswith(DENTRY):
        return None
    return (x[2].endswith("OccupiedEntry"),) + x[4]


def dash_put(E, st, e, v):
    """a value is stored in an entry that is locked"""
    _, g, loc, key = e
    E.emit(st, "unlock", g)
    E.emit(st, "dash", "insert", loc, key, E.snap(st, v))
    E.emit(st, "lock", "shard", loc, g)
    E.store(st, g[1], g[2], v)


@model(*(DENTRY + x for x in ("Entry::insert", "Entry::insert_entry", "Entry::or_insert", "OccupiedEntry::insert", "VacantEntry::insert", "VacantEntry::insert_entry")))
def dash_entry_insert(E, st, args, c):
    e = dash_slot(E, st, args[0])
    if e is None:
        return E.external(st, args, c)
    op = c.rname.split("::")[-2:]
    if op[1] == "or_insert" and e[0]:
        return e[1]
    dash_put(E, st, e, args[1])
    if op[0] == "OccupiedEntry":
        return ("t", "dashval", e[2], e[3])
    if op[1] == "insert_entry":
        return mk(DENTRY + "OccupiedEntry", 0, *e[1:])
    return e[1]


@model(DENTRY + "Entry::or_insert_with")
def dash_entry_with(E, st, args, c):
    e = dash_slot(E, st, args[0])
    if e is None:
        return E.external(st, args, c)
    if e[0]:
        return e[1]

    def k(E, s, v):
        dash_put(E, s, e, v)
        return E.deliver(s, e[1])
    st.stack.append(Native(k, "or_insert_with"))
    return E.call_value(st, args[1], [])


@model(DENTRY + "OccupiedEntry::into_ref", DENTRY + "OccupiedEntry::get", DENTRY + "OccupiedEntry::get_mut")
def dash_entry_ref(E, st, args, c):
    e = dash_slot(E, st, args[0])
    if e is None:
        return E.external(st, args, c)
    return e[1] if c.rname.endswith("into_ref") else ("ref", e[1][1], e[1][2], True)


@model(DENTRY + "OccupiedEntry::remove", DENTRY + "OccupiedEntry::remove_entry")
def dash_entry_remove(E, st, args, c):
    e = dash_slot(E, st, args[0])
    if e is None:
        return E.external(st, args, c)
    E.emit(st, "unlock", e[1])
    E.emit(st, "dash", "remove", e[2], e[3], UNIT)
    v = ("t", "dashval", e[2], e[3])
    return tup(e[3], v) if c.rname.endswith("remove_entry") else v


@model("dashmap::DashMap::get", "dashmap::DashMap::get_mut")
def dash_get(E, st, args, c):
    loc = dash_loc(E, st, args[0])
    key = mapkey(E, st, args[1])
    E.emit(st, "dash", "get", loc, key, UNIT)
    s2 = st.copy()
    E.emit(s2, "dashmiss", loc, key)
    out = E.deliver(s2, NONE)
    al = E.new_alloc(st, ("t", "dashval", loc, key))
    E.emit(st, "dashhit", loc, key)
    E.emit(st, "lock", "shard", loc, ("guard", al, (), "shard"))
    out += E.deliver(st, some(("guard", al, (), "shard")))
    return out


@model("dashmap::mapref::multiple::RefMulti::value", "dashmap::mapref::multiple::RefMulti::deref", "dashmap::mapref::multiple::RefMutMulti::value",
       "dashmap::mapref::multiple::RefMutMulti::deref", "dashmap::mapref::multiple::RefMutMulti::value_mut", "dashmap::mapref::multiple::RefMutMulti::deref_mut",
       "dashmap::mapref::one::Ref::value", "dashmap::mapref::one::Ref::deref", "dashmap::mapref::one::RefMut::value", "dashmap::mapref::one::RefMut::value_mut", "dashmap::mapref::one::RefMut::deref",
       "dashmap::mapref::one::RefMut::deref_mut", "tokio::sync::mutex::MutexGuard::deref", "tokio::sync::mutex::MutexGuard::deref_mut",
       "tokio::sync::rwlock::read_guard::RwLockReadGuard::deref", "tokio::sync::rwlock::write_guard::RwLockWriteGuard::deref", "tokio::sync::rwlock::write_guard::RwLockWriteGuard::deref_mut",
       "tokio::sync::mutex::OwnedMutexGuard::deref", "tokio::sync::mutex::OwnedMutexGuard::deref_mut", "std::sync::poison::mutex::MutexGuard::deref_mut",
       "std::sync::poison::mutex::MutexGuard::deref")
def guard_deref(E, st, args, c):
    v = E.at(st, args[0])
    if v[0] == "guard":
        return ("ref", v[1], v[2], True)
    a, p = E.target(st, v)
    return ("ref", a, p, True)


# ---------------------------------------------------------------- locks
@model("tokio::sync::mutex::Mutex::new", "tokio::sync::mutex::Mutex::const_new", "tokio::sync::rwlock::RwLock::new", "tokio::sync::rwlock::RwLock::const_new", "std::sync::poison::mutex::Mutex::new", "std::sync::poison::rwlock::RwLock::new")
def mutex_new(E, st, args, c):
    return mk("lock", 0, args[0])


def lock_ref(E, st, ptr):
    a, p = E.target(st, ptr)
    v = E.load(st, a, p)
    while v[0] in ("ref", "arc", "box"):
        a, p = E.target(st, v)
        v = E.load(st, a, p)
    return ("ref", a, p, False)


@model("tokio::sync::mutex::Mutex::lock", "tokio::sync::rwlock::RwLock::read", "tokio::sync::rwlock::RwLock::write", "tokio::sync::mutex::Mutex::lock_owned")
def mutex_lock(E, st, args, c):
    return ("fut", "lock", (lock_ref(E, st, args[0]), ("t", "mode", c.rname.split("::")[-1])))


def lock_id(E, st, ref):
    a, p = ref[1], ref[2]
    if a[0] == "p":
        return ("t", "lockat", a[1], p)
    return ("t", "lockat", ("t", "alloc", a), p)


def leaf_lock(E, st, f):
    ref, mode = f[2]
    v = E.at(st, ref)
    if v[0] == "agg" and v[2] == "lock":
        g = ("guard", ref[1], ref[2] + (("f", 0, "0"),), "lock")
    else:
        g = ("guard", ref[1], ref[2] + (("f", 0, "locked"),), "lock")
    return [("ready", g, [("lock", "mutex", lock_id(E, st, ref), g) + ((mode[2],) if mode != UNIT else ())])]


# ---------------------------------------------------------------- semaphores: a permit is held like a lock
@model("tokio::sync::semaphore::Semaphore::new", "tokio::sync::semaphore::Semaphore::const_new")
def semaphore_new(E, st, args, c):
    return mk("semaphore", 0, args[0])


@model("tokio::sync::semaphore::Semaphore::acquire", "tokio::sync::semaphore::Semaphore::acquire_owned", "tokio::sync::semaphore::Semaphore::acquire_many",
       "tokio::sync::semaphore::Semaphore::acquire_many_owned")
def semaphore_acquire(E, st, args, c):
    return ("fut", "acquire", (lock_ref(E, st, args[0]),))


def leaf_acquire(E, st, f):
    ref = f[2][0]
    g = ("guard", ref[1], ref[2] + (("f", 0, "permits"),), "lock")
    return [("ready", ok(g), [("lock", "permit", lock_id(E, st, ref), g)])]


@model("tokio::sync::semaphore::Semaphore::try_acquire", "tokio::sync::semaphore::Semaphore::try_acquire_owned")
def semaphore_try(E, st, args, c):
    ref = lock_ref(E, st, args[0])
    s2 = st.copy()
    out = E.deliver(s2, err(("t", "tryacquireerror")))
    (_, g, evs), = leaf_acquire(E, st, ("fut", "acquire", (ref,)))
    for ev in evs:
        E.emit(st, *ev)
    return out + E.deliver(st, g)


@model("tokio::sync::mutex::Mutex::try_lock", "tokio::sync::rwlock::RwLock::try_read", "tokio::sync::rwlock::RwLock::try_write")
def try_lock(E, st, args, c):
    ref = lock_ref(E, st, args[0])
    s2 = st.copy()
    out = E.deliver(s2, err(("t", "trylockerror")))
    (_, g, evs), = leaf_lock(E, st, ("fut", "lock", (ref, UNIT)))
    for ev in evs:
        E.emit(st, *ev)
    return out + E.deliver(st, ok(g))


@model("std::sync::poison::mutex::Mutex::lock", "std::sync::poison::rwlock::RwLock::read", "std::sync::poison::rwlock::RwLock::write")
def std_lock(E, st, args, c):
    ref = lock_ref(E, st, args[0])
    (_, g, evs), = leaf_lock(E, st, ("fut", "lock", (ref, UNIT)))
    E.emit(st, "lock", "std", lock_id(E, st, ref), g)
    return ok(g)


# ---------------------------------------------------------------- atomics
def atomic_width(c):
    w = c.ats[0]
    while w[0] == "ref":
        w = w[2]
    return w[2][0][2] if w[0] == "adt" and w[2] and w[2][0][0] == "int" else 64


@model(*["core::sync::atomic::Atomic::" + n for n in ("fetch_add", "fetch_sub", "load", "store", "swap", "fetch_max", "fetch_min", "compare_exchange", "fetch_update",
                                                     "fetch_or", "fetch_and", "compare_exchange_weak")])
def atomic(E, st, args, c):
    op = c.rname.split("::")[-1]
    a, p = E.target(st, args[0])
    v = E.load(st, a, p)
    while v[0] in ("ref", "arc", "box"):
        a, p = E.target(st, v)
        v = E.load(st, a, p)
    if a[0] == "p":
        loc = ("t", "at", a[1], p)
    else:
        loc = ("t", "at", ("t", "alloc", a), p)
    x = v[4][0] if v[0] == "agg" and v[2] == "atomic" and v[4] else None
    if E.exact_atomics and a[0] != "p" and x is not None and x[0] in ("int", "lin") and op in ("store", "load", "swap", "fetch_add", "fetch_sub"):
        # only the analysed operations access it: counters are followed exactly
        y = {"store": lambda: args[1], "swap": lambda: args[1], "load": lambda: x, "fetch_add": lambda: add(x, args[1]), "fetch_sub": lambda: sub(x, args[1])}[op]()
        if y[0] == "int" and op.startswith("fetch"):
            y = I(y[1] % (1 << atomic_width(c)))
        if op != "load":
            E.store(st, a, p, mk("atomic", 0, y))
        E.emit(st, "atomic", op, loc, tuple(args[1:]), x)
        return en.UNIT if op == "store" else x
    if op == "fetch_update":
        return fetch_update(E, st, args, c, a, p, loc, x)
    if op == "store":
        E.emit(st, "atomic", op, loc, args[1], UNIT)
        return en.UNIT
    res = E.fresh(st, "atomic", op, loc)
    E.emit(st, "atomic", op, loc, tuple(args[1:]), res, atomic_width(c))
    if op.startswith("compare") or op == "fetch_update":
        return E.fresh(st, "cas", loc)
    return res


def fetch_update(E, st, args, c, a, p, loc, x):
    """a function of the number is stored in one step"""
    exactly = E.exact_atomics and a[0] != "p" and x is not None and x[0] in ("int", "lin")
    old = x if exactly else E.fresh(st, "atomic", "fetch_update", loc)

    def k(E, s, r):
        out = []
        for s2, i, fs in E.variants(s, r, OPTION):
            if i == 0:
                E.emit(s2, "atomic", "load", loc, tuple(args[2:3]), old, atomic_width(c))
                out.extend(E.deliver(s2, err(old)))
                continue
            d = sub(fs[0], old) if num(fs[0]) else None
            step = d is not None and d[0] == "int"
            how = ("fetch_add", I(d[1])) if step and d[1] >= 0 else ("fetch_sub", I(-d[1])) if step else ("fetch_update", fs[0])
            if exactly:
                E.store(s2, a, p, mk("atomic", 0, fs[0]))
            E.emit(s2, "atomic", how[0], loc, (how[1],) + tuple(args[1:2]), old, atomic_width(c))
            out.extend(E.deliver(s2, ok(old)))
        return out
    st.stack.append(Native(k, "fetch_update"))
    return E.call_value(st, args[3], [old])


@model("std::thread::local::LocalKey::with")
def local_with(E, st, args, c):
    return E.call_value(st, args[1], [("ref", ("p", ("t", "threadlocal", E.deref_all(st, args[0]))), (), False)])


@model("core::cell::Cell::get")
def cell_get(E, st, args, c):
    a, p = E.target(st, args[0])
    return E.fresh(st, "cell", ("t", "at", a[1] if a[0] == "p" else ("t", "alloc", a), p))


@model("core::cell::Cell::set")
def cell_set(E, st, args, c):
    return en.UNIT


@model("core::sync::atomic::Atomic::new")
def atomic_new(E, st, args, c):
    return mk("atomic", 0, args[0])


@model("lazy_static::lazy::Lazy::get")
def lazy_get(E, st, args, c):
    a, p = E.target(st, args[0])
    s = a[1] if a[0] == "p" else ("t", "alloc", a)
    return ("ref", ("p", ("t", "lazy", s)), (), False)


@model("once_cell::sync::Lazy::deref", "std::sync::lazy_lock::LazyLock::deref", "once_cell::sync::Lazy::force", "std::sync::once_lock::OnceLock::get_or_init")
def lazy_deref(E, st, args, c):
    return lazy_get(E, st, args, c)


# ---------------------------------------------------------------- channels and tasks
@model("tokio::sync::mpsc::bounded::channel")
def mpsc(E, st, args, c):
    st.n += 1
    E.emit(st, "channel", "mpsc", I(st.n), args[0])
    return tup(("t", "tx", st.n), ("t", "rx", st.n))


@model("tokio::sync::mpsc::unbounded::unbounded_channel", "tokio::sync::oneshot::channel")
def chan(E, st, args, c):
    st.n += 1
    E.emit(st, "channel", c.rname.split("::")[2], I(st.n), UNIT)
    return tup(("t", "tx", st.n), ("t", "rx", st.n))


@model("tokio::sync::mpsc::bounded::Sender::send")
def tx_send(E, st, args, c):
    return ("fut", "send", (E.deref_all(st, args[0]), args[1]))


def leaf_send(E, st, f):
    tx, v = f[2]
    return [("ready", ok(en.UNIT), [("sent", tx, E.snap(st, v))]), ("ready", err(mk("tokio::sync::mpsc::error::SendError", 0, v)), [("sendfail", tx, E.snap(st, v))])]


@model("tokio::sync::mpsc::bounded::Sender::try_send", "tokio::sync::mpsc::unbounded::UnboundedSender::send", "tokio::sync::oneshot::Sender::send",
       "tokio::sync::mpsc::bounded::Sender::blocking_send")
def try_send(E, st, args, c):
    tx = E.deref_all(st, args[0])
    op = c.rname.split("::")[-1]
    kind = "oneshot" if "oneshot" in c.rname else "unbounded" if "unbounded" in c.rname else op
    s2 = st.copy()
    E.emit(s2, "sent", tx, E.snap(st, args[1]), ("t", kind))
    out = E.deliver(s2, ok(en.UNIT))
    if kind == "try_send":
        s3 = st.copy()
        E.emit(s3, "sendfail", tx, E.snap(st, args[1]), ("t", "full"))
        out += E.deliver(s3, err(mk("tokio::sync::mpsc::error::TrySendError", 0, args[1])))
    E.emit(st, "sendfail", tx, E.snap(st, args[1]), ("t", kind))
    if kind == "oneshot":
        return out + E.deliver(st, err(args[1]))
    if kind == "try_send":
        return out + E.deliver(st, err(mk("tokio::sync::mpsc::error::TrySendError", 1, args[1])))
    return out + E.deliver(st, err(mk("tokio::sync::mpsc::error::SendError", 0, args[1])))


@model("tokio::sync::mpsc::error::TrySendError::into_inner", "tokio::sync::mpsc::error::SendTimeoutError::into_inner")
def try_send_inner(E, st, args, c):
    out = []
    for s, i, fs in E.variants(st, args[0], "tokio::sync::mpsc::error::TrySendError"):
        out.extend(E.deliver(s, fs[0]))
    return out


@model("tokio::sync::mpsc::bounded::Sender::send_timeout")
def send_timeout(E, st, args, c):
    return ("fut", "sendfor", (E.deref_all(st, args[0]), args[1], args[2]))


def leaf_sendfor(E, st, f):
    tx, v, d = f[2]
    return leaf_send(E, st, ("fut", "send", (tx, v))) [:1] + [
        ("ready", err(mk("tokio::sync::mpsc::error::SendTimeoutError", 1, v)), [("sendfail", tx, E.snap(st, v))]),
        ("ready", err(mk("tokio::sync::mpsc::error::SendTimeoutError", 0, v)), [("elapsed", d), ("sendfail", tx, E.snap(st, v), ("t", "full"))])]


@model("tokio::sync::mpsc::bounded::Sender::reserve", "tokio::sync::mpsc::bounded::Sender::reserve_owned")
def tx_reserve(E, st, args, c):
    return ("fut", "reserve", (E.deref_all(st, args[0]),))


def leaf_reserve(E, st, f):
    tx = f[2][0]
    return [("ready", ok(mk("permit", 0, tx))), ("ready", err(mk("tokio::sync::mpsc::error::SendError", 0, en.UNIT)), [("sendfail", tx, en.UNIT)])]


@model("tokio::sync::mpsc::bounded::Permit::send", "tokio::sync::mpsc::bounded::OwnedPermit::send")
def permit_send(E, st, args, c):
    tx = args[0][4][0] if args[0][0] == "agg" and args[0][2] == "permit" else E.fresh(st, "tx")
    E.emit(st, "sent", tx, E.snap(st, args[1]))
    return tx if "Owned" in c.rname else en.UNIT


@model("tokio::sync::mpsc::bounded::Receiver::recv", "tokio::sync::mpsc::unbounded::UnboundedReceiver::recv")
def rx_recv(E, st, args, c):
    return ("fut", "recv", (E.deref_all(st, args[0]),))


def leaf_recv(E, st, f):
    rx = f[2][0]
    st.n += 1
    ev = ("t", "received", rx, st.n)
    return [("ready", some(ev), [("recvd", rx, ev)]), ("ready", NONE, [("closed", rx)])]


@model("tokio::sync::mpsc::bounded::Receiver::try_recv")
def try_recv(E, st, args, c):
    rx = E.deref_all(st, args[0])
    s2 = st.copy()
    out = E.deliver(s2, err(E.fresh(st, "tryrecverror")))
    st.n += 1
    ev = ("t", "received", rx, st.n)
    E.emit(st, "recvd", rx, ev)
    return out + E.deliver(st, ok(ev))


@model("tokio::sync::mpsc::bounded::Receiver::close", "tokio::sync::mpsc::unbounded::UnboundedReceiver::close")
def rx_close(E, st, args, c):
    E.emit(st, "closerx", E.deref_all(st, args[0]))
    return en.UNIT


@model("tokio::sync::mpsc::bounded::Receiver::poll_recv")
def poll_recv(E, st, args, c):
    rx = E.deref_all(st, args[0])
    a = E.new_alloc(st, ("fut", "recv", (rx,)))
    return E.poll(st, ("ref", a, (), True))


@model("tokio::task::spawn::spawn", "tokio::task::spawn", "tokio::runtime::handle::Handle::spawn", "tokio::task::local::spawn_local")
def spawn(E, st, args, c):
    fut = args[-1]
    st.n += 1
    tid = st.n
    E.emit(st, "spawn", I(tid))
    s2 = st.copy()
    s2.task = tid
    s2.stack = []
    E.tasks.append((s2, fut, tid))
    return ("t", "join", tid)


JOINSET = "tokio::task::join_set::JoinSet"
en.DROP_EVENTS.add(JOINSET)


@model(JOINSET + "::new", JOINSET + "::default")
def joinset_new(E, st, args, c):
    st.n += 1
    return mk(JOINSET, 0, ("t", "joinset", st.n))


def joinset_of(E, st, v):
    v = E.deref_all(st, v)
    return v[4][0] if v[0] == "agg" and v[2] == JOINSET else ("t", "joinset", v)


@model(JOINSET + "::spawn", JOINSET + "::spawn_on", JOINSET + "::spawn_local")
def joinset_spawn(E, st, args, c):
    h = spawn(E, st, args[:2], c)
    E.emit(st, "joins", joinset_of(E, st, args[0]), I(h[2]))
    return h


@model(JOINSET + "::join_next", JOINSET + "::join_next_with_id", JOINSET + "::shutdown")
def joinset_next(E, st, args, c):
    n = joinset_of(E, st, args[0])
    if c.rname.endswith("shutdown"):
        E.emit(st, "abortset", n, ("t", "asked"))
    return ("fut", "shutset" if c.rname.endswith("shutdown") else "joinnext", (n,))


def joined(E, st, n):
    st.n += 1
    return [(some(ok(("t", "joined", n, st.n))), [("joined", n, TRUE)]), (some(err(("t", "joinerr", n, st.n))), [("joined", n, FALSE)]), (NONE, [("alljoined", n)])]


def leaf_joinnext(E, st, f):
    return [("ready", v, ev) for v, ev in joined(E, st, f[2][0])]


def leaf_shutset(E, st, f):
    return [("ready", en.UNIT, [("alljoined", f[2][0])])]


@model(JOINSET + "::try_join_next", JOINSET + "::poll_join_next")
def joinset_try(E, st, args, c):
    n = joinset_of(E, st, args[0])
    if c.rname.endswith("poll_join_next"):
        a = E.new_alloc(st, ("fut", "joinnext", (n,)))
        return E.poll(st, ("ref", a, (), True))
    out = []
    for v, ev in joined(E, st, n)[:2] + [(NONE, [])]:
        s = st.copy()
        for e in ev:
            E.emit(s, *e)
        out.extend(E.deliver(s, v))
    return out


@model(JOINSET + "::len", JOINSET + "::is_empty")
def joinset_len(E, st, args, c):
    st.n += 1
    return ("t", "joinsetlen" if c.rname.endswith("len") else "joinsetempty", st.n)


@model(JOINSET + "::abort_all", JOINSET + "::detach_all")
def joinset_abort(E, st, args, c):
    E.emit(st, "abortset" if c.rname.endswith("abort_all") else "alljoined", joinset_of(E, st, args[0]), ("t", "asked"))
    return en.UNIT


@model("tokio::runtime::task::join::JoinHandle::abort", "tokio::runtime::task::abort::AbortHandle::abort", "tokio::runtime::task::join::JoinHandle::abort_handle")
def abort(E, st, args, c):
    h = E.deref_all(st, args[0])
    if c.rname.endswith("abort_handle"):
        return h
    E.emit(st, "abort", h)
    return en.UNIT


@model("tokio::time::sleep::sleep")
def sleep(E, st, args, c):
    return ("fut", "sleep", (args[0],))


@model("tokio::time::instant::Instant::now")
def instant_now(E, st, args, c):
    st.n += 1
    E.emit(st, "now", st.n)
    return ("t", "now", st.n)


@model("tokio::time::instant::Instant::add", "tokio::time::instant::Instant::checked_add")
def instant_add(E, st, args, c):
    v = ("t", "later", E.snap(st, E.deref_all(st, args[0])), args[1])
    return some(v) if c.rname.endswith("checked_add") else v


def until(E, st, at):
    """the time from here to a moment: when nothing was waited for since the clock was read, it is what
    was added to it"""
    at = E.deref_all(st, at)
    if isinstance(at, tuple) and at[:2] == ("t", "later") and at[2][:2] == ("t", "now"):
        for e in reversed(list(st.events())):
            if e.kind == "now" and e.args[0] == at[2][2]:
                return at[3]
            if e.kind in ("ready", "pending", "repoll", "loop"):
                break
    return ("t", "until", at)


@model("tokio::time::sleep::sleep_until")
def sleep_until(E, st, args, c):
    return ("fut", "sleep", (until(E, st, args[0]),))


@model("tokio::time::timeout::timeout_at")
def timeout_at(E, st, args, c):
    a = E.new_alloc(st, args[1])
    return mk("timeout", 0, until(E, st, args[0]), ("box", a))


def stub_read_frame(E, st, args, c):
    """a whole frame is read from a stream (used where the decoding itself is not of interest)"""
    return ("fut", "readframe", (args[0],))


def stub_encode(E, st, args, c):
    """the encoding of an event (used where the encoding itself is not of interest)"""
    ev = E.snap(st, args[0])
    E.emit(st, "encode", ev)
    s2 = st.copy()
    E.emit(s2, "encodefail", ev)
    out = E.deliver(s2, err(("t", "encodeerr")))
    return out + E.deliver(st, ok(buf(("raw", ("t", "enc", ev)))))


def leaf_readframe(E, st, f):
    st.n += 1
    a, p = E.target(st, f[2][0])
    e = ("t", "frame", st.n)
    return [("ready", ok(e), [("frame", e, f[2][0])]), ("ready", err(("t", "readerr", st.n)), [("framefail", f[2][0])])]


def leaf_sleep(E, st, f):
    return [("ready", en.UNIT, [("elapsed", f[2][0])])]


@model("tokio::time::timeout::timeout")
def timeout(E, st, args, c):
    a = E.new_alloc(st, args[1])
    return mk("timeout", 0, args[0], ("box", a))


def poll_timeout(E, st, ptr, v):
    d, b = v[4]

    def k(E, s, r):
        out = []
        for s2, i, fs in E.variants(s, r, POLL):
            if i == 0:
                out.extend(E.deliver(s2, ready(ok(fs[0]))))
            else:
                s3 = s2.copy()
                E.emit(s3, "start", "sleep", (d,))
                E.emit(s3, "elapsed", d)
                out.extend(E.deliver(s3, ready(err(("t", "elapsederr")))))
                E.emit(s2, "start", "sleep", (d,))
                E.emit(s2, "pending", "sleep", (d,))
                out.extend(E.deliver(s2, PENDING))
        return out
    st.stack.append(Native(k, "timeout"))
    return E.poll(st, b)


en.FUT_MODELS["timeout"] = poll_timeout


@model("tokio::macros::support::thread_rng_n")
def thread_rng_n(E, st, args, c):
    if args[0][0] == "int" and args[0][1] <= 4:
        out = []
        for i in range(args[0][1]):
            s = st.copy()
            out.extend(E.deliver(s, I(i)))
        return out
    return E.fresh(st, "rand")


@model("tokio::future::poll_fn::poll_fn", "core::future::poll_fn::poll_fn", "core::future::poll_fn")
def poll_fn(E, st, args, c):
    return mk("pollfn", 0, args[0])


def poll_pollfn(E, st, ptr, v):
    a, p = E.target(st, ptr)
    clo = ("ref", a, p + (("f", 0, "0"),), True)
    return E.call_value(st, clo, [("t", "cx")])


en.FUT_MODELS["pollfn"] = poll_pollfn


@model("tokio::future::maybe_done::maybe_done")
def maybe_done(E, st, args, c):
    return mk("maybedone", 0, args[0])


def poll_maybe_done(E, st, ptr, v):
    a, p = E.target(st, ptr)
    if v[3] == 1:
        return E.deliver(st, ready(en.UNIT))
    if v[3] == 2:
        E.emit(st, "maypanic", "poll of a future whose result was taken")
        return E.finish(st, "panic")

    def k(E, s, r):
        out = []
        for s2, i, fs in E.variants(s, r, POLL):
            if i == 0:
                E.store(s2, a, p, mk("maybedone", 1, fs[0]))
                out.extend(E.deliver(s2, ready(en.UNIT)))
            else:
                out.extend(E.deliver(s2, PENDING))
        return out
    st.stack.append(Native(k, "maybe_done"))
    return E.poll(st, ("ref", a, p + (("f", 0, "0"),), True))


en.FUT_MODELS["maybedone"] = poll_maybe_done


@model("tokio::future::maybe_done::MaybeDone::take_output", "tokio::future::maybe_done::MaybeDone::output_mut")
def maybe_done_output(E, st, args, c):
    a, p = E.target(st, args[0])
    v = E.load(st, a, p)
    while v[0] in ("ref", "box"):
        a, p = E.target(st, v)
        v = E.load(st, a, p)
    if v[:3] != ("agg", "adt", "maybedone"):
        return E.fresh(st, "output")
    if v[3] != 1:
        return en.NONE
    if c.rname.endswith("output_mut"):
        return some(("ref", a, p + (("f", 0, "0"),), True))
    E.store(st, a, p, mk("maybedone", 2))
    return some(v[4][0])


@model("tokio::future::poll_fn::PollFn::poll", "core::future::poll_fn::PollFn::poll", "core::future::future::Future::poll", "core::pin::Pin::poll", "tokio::io::util::read_exact::ReadExact::poll",
       "tokio::io::util::flush::Flush::poll", "tokio::io::util::write_all::WriteAll::poll", "tokio::io::util::write_all_buf::WriteAllBuf::poll", "tokio::io::util::write_buf::WriteBuf::poll", "tokio::io::util::read_int::ReadU16::poll", "tokio::io::util::read_int::ReadU32::poll",
       "tokio::io::util::read_int::ReadU64::poll", "tokio::io::util::read_int::ReadU8::poll", "tokio::sync::oneshot::Receiver::poll", "tokio::time::sleep::Sleep::poll",
       "tokio::time::timeout::Timeout::poll", "tokio::future::maybe_done::MaybeDone::poll", "alloc::boxed::Box::poll", "F::poll", "&mut F::poll", "tokio::runtime::task::join::JoinHandle::poll", "core::future::ready::Ready::poll",
       "tokio::io::util::shutdown::Shutdown::poll", "tokio::io::util::read::Read::poll", "tokio::io::util::write::Write::poll", "tokio::io::util::read_to_end::ReadToEnd::poll")
def m_poll(E, st, args, c):
    if len(args) > 1 and E.deref_all(st, args[1]) == ("t", "noopcx"):
        # nothing that is waited for in this poll wakes up the caller
        E.emit(st, "foreign")

        def k(E, s, v):
            E.emit(s, "foreignend")
            return E.deliver(s, v)
        st.stack.append(Native(k, "poll"))
    return E.poll(st, args[0], 0, c.ats[0] if c.ats else None)


@model("core::future::ready::ready")
def fut_ready(E, st, args, c):
    return ("fut", "readyval", (args[0],))


def leaf_readyval(E, st, f):
    return [("ready", f[2][0]), ("notpending",)]


# ---------------------------------------------------------------- reading and writing
def stream_key(E, st, ptr):
    a, p = E.target(st, ptr)
    v = E.load(st, a, p)
    n = 0
    while v[0] in ("ref", "box") and n < 6:
        b, q = E.target(st, v)
        w = E.load(st, b, q)
        if is_slice_like(E, st, w):
            # a slice used as a reader: the reference itself moves
            return ("slice", a, p, v)
        a, p, v = b, q, w
        n += 1
    return ("stream", a, p, v)


def is_slice_like(E, st, v):
    return v[0] == "buf"


def reader(E, st, ptr):
    """(kind, data) of a reader"""
    k = stream_key(E, st, ptr)
    if k[0] == "slice":
        return k
    _, a, p, v = k
    if v[0] == "agg" and v[1] == "adt" and v[2] == "cursor":
        return ("cursor", a, p, v)
    if v[0] == "agg" and v[1] == "adt" and v[2] == "take":
        return ("take", a, p, v)
    if v[0] == "buf":
        return ("bytes", a, p, v)
    return ("stream", a, p, v)


def stream_id(a, p, v):
    if v[0] == "t":
        while v[1] == "*" and len(v) == 3:
            v = v[2]
        return ("t", "stream", v)
    return ("t", "stream", ("t", "alloc", a, p))


@model("core::io::cursor::Cursor::new")
def cursor_new(E, st, args, c):
    return mk("cursor", 0, args[0], I(0))


@model("core::io::cursor::Cursor::position")
def cursor_pos(E, st, args, c):
    v = E.at(st, args[0])
    return v[4][1] if v[0] == "agg" else E.fresh(st, "pos")


@model("core::io::cursor::Cursor::into_inner", "core::io::cursor::Cursor::get_ref")
def cursor_inner(E, st, args, c):
    v = E.deref_all(st, args[0])
    if v[0] == "agg" and v[2] == "cursor":
        if c.rname.endswith("get_ref"):
            a, p = E.target(st, args[0])
            return ("ref", a, p + (("f", 0, "inner"),), False)
        return v[4][0]
    return E.external(st, args, c)


@model("core::io::cursor::Cursor::set_position")
def cursor_set(E, st, args, c):
    a, p = E.target(st, args[0])
    v = E.load(st, a, p)
    if v[0] == "agg" and v[2] == "cursor":
        E.store(st, a, p, mk("cursor", 0, v[4][0], args[1]))
        return en.UNIT
    return E.external(st, args, c)


@model("alloc::io::read::Read::take", "core::io::read::Read::take", "tokio::io::util::async_read_ext::AsyncReadExt::take", "bytes::buf::buf_impl::Buf::take_")
def read_take(E, st, args, c):
    return mk("take", 0, args[0], args[1])


@model("alloc::io::read::Read::by_ref", "std::io::Read::by_ref")
def by_ref(E, st, args, c):
    return args[0]


def do_read(E, st, ptr, n, what):
    """states: [(state, bytes or None)] of reading exactly n bytes; None: the input ended or failed"""
    r = reader(E, st, ptr)
    if r[0] in ("slice", "bytes", "cursor"):
        if r[0] == "cursor":
            _, a, p, v = r
            b = E.content(st, E.deref_all(st, v[4][0]))
            pos = v[4][1]
        elif r[0] == "slice":
            _, a, p, v = r
            b = E.content(st, E.at(st, v))
            pos = I(0)
        else:
            _, a, p, v = r
            b = E.content(st, v)
            pos = I(0)
        total = buf_len(b)
        end = add(pos, n)
        out = []
        for s, short in fork_bool(E, st, lt(total, end)):
            if short:
                E.emit(s, "readfail", what, b, pos, n)
                out.append((s, None))
                continue
            x = slice_buf(b, pos, end, lambda l: E.ge0(s, l))
            if x is None:
                x = as_buf(("t", "slice", b, pos, end))
            E.emit(s, "read", what, ("t", "content", b), pos, n)
            if r[0] == "cursor":
                E.store(s, a, p, mk("cursor", 0, v[4][0], end))
            else:
                rest = slice_buf(b, end, total, lambda l: E.ge0(s, l))
                if rest is None:
                    rest = as_buf(("t", "slice", b, end, total))
                if r[0] == "slice":
                    al = E.new_alloc(s, rest)
                    E.store(s, a, p, ("ref", al, (), False))
                else:
                    E.store(s, a, p, rest)
            out.append((s, x))
        return out
    if r[0] == "take":
        _, a, p, v = r
        inner, limit = v[4]
        out = []
        for s, short in fork_bool(E, st, lt(limit, n)):
            if short:
                out.append((s, None))
                continue
            al = None
            if inner[0] in ("ref", "box"):
                ip = inner
            else:
                ip = ("ref", a, p + (("f", 0, "inner"),), True)
            for s2, x in do_read(E, s, ip, n, what):
                E.store(s2, a, p + (("f", 1, "limit"),), sub(limit, n))
                out.append((s2, x))
        return out
    _, a, p, v = r
    sid = stream_id(a, p, v)
    pk = ("pos", sid)
    pos = E.load_alloc(st, pk)
    s2 = st.copy()
    E.emit(s2, "readfail", what, sid, pos, n)
    x = buf(("sub", sid, pos, n))
    st.mem[pk] = add(pos, n)
    E.emit(st, "read", what, sid, pos, n, E.snap(st, v))
    return [(st, x), (s2, None)]


def take_bytes(E, st, ptr, n, what, fin):
    """takes n bytes out of a buffer; panics if it is too short"""
    out = []
    for s, x in do_read(E, st, ptr, n, what):
        if x is None:
            E.emit(s, "maypanic", what, n)
            out.extend(E.finish(s, "panic") or [])
        else:
            out.extend(E.deliver(s, fin(E, s, x)))
    return out


def get_int(n, endian):
    def m(E, st, args, c):
        if reader(E, st, args[0])[0] not in ("slice", "bytes", "cursor"):
            return E.external(st, args, c)

        def fin(E, s, x):
            v = int_of(x, endian)
            return v if v is not None else ("t", "int_of", x, endian, n)
        return take_bytes(E, st, args[0], I(n), "get of a buffer", fin)
    return m


for nm, n in (("u8", 1), ("u16", 2), ("u32", 4), ("u64", 8), ("u128", 16)):
    M["bytes::buf::buf_impl::Buf::get_" + nm] = get_int(n, "be")
    M["bytes::buf::buf_impl::Buf::get_" + nm + "_le"] = get_int(n, "le")


@model("bytes::buf::buf_impl::Buf::copy_to_slice")
def copy_to_slice(E, st, args, c):
    if reader(E, st, args[0])[0] not in ("slice", "bytes", "cursor"):
        return E.external(st, args, c)

    def fin(E, s, x):
        a, p = E.target(s, args[1])
        E.store(s, a, p, x)
        return en.UNIT
    return take_bytes(E, st, args[0], E.length(st, E.at(st, args[1])), "copy from a buffer", fin)


def read_int(n, endian, sync):
    def m(E, st, args, c):
        e = endian
        if sync and n > 1:
            # byte order is the last type argument
            order = [t for t in c.targs if t[0] == "adt" and t[1].split("::")[-1] in ("BigEndian", "LittleEndian")]
            if order:
                e = "be" if order[-1][1].endswith("BigEndian") else "le"
        if not sync:
            return ("fut", "readint", (args[0], I(n), ("t", e)))
        out = []
        for s, x in do_read(E, st, args[0], I(n), "int"):
            if x is None:
                out.extend(E.deliver(s, err(ioerr(E, s, "read"))))
            else:
                v = int_of(x, e)
                out.extend(E.deliver(s, ok(v if v is not None else ("t", "int_of", x, e, n))))
        return out
    return m


for nm, n in (("u8", 1), ("u16", 2), ("u32", 4), ("u64", 8), ("u24", 3), ("u128", 16), ("i64", 8)):
    M["byteorder::io::ReadBytesExt::read_" + nm] = read_int(n, "be", True)
    M["tokio::io::util::async_read_ext::AsyncReadExt::read_" + nm] = read_int(n, "be", False)
    M["tokio::io::util::async_read_ext::AsyncReadExt::read_" + nm + "_le"] = read_int(n, "le", False)


def leaf_via_read(E, st, f, a, p, ptr, n, finish):
    """poll of a reading future: pending (nothing consumed), ready, failed"""
    s2 = st.copy()
    E.store(s2, a, p, f[:3] + ("pending",))
    E.emit(s2, "pending", f[1], f[2])
    out = E.deliver(s2, PENDING)
    for s, x in do_read(E, st, ptr, n, f[1]):
        E.store(s, a, p, ("fut", "done", ()))
        if x is None:
            out.extend(E.deliver(s, ready(err(ioerr(E, s, "read")))))
        else:
            out.extend(E.deliver(s, ready(ok(finish(E, s, x)))))
    return out


@model("tokio::io::util::async_read_ext::AsyncReadExt::read_exact")
def a_read_exact(E, st, args, c):
    return ("fut", "readexact", (args[0], args[1]))


@model("alloc::io::read::Read::read_exact", "core::io::read::Read::read_exact", "std::io::Read::read_exact")
def s_read_exact(E, st, args, c):
    n = E.length(st, E.at(st, args[1]))
    out = []
    for s, x in do_read(E, st, args[0], n, "exact"):
        if x is None:
            E.havoc(s, args[1])
            out.extend(E.deliver(s, err(ioerr(E, s, "read"))))
        else:
            a, p = E.target(s, args[1])
            E.store(s, a, p, x)
            out.extend(E.deliver(s, ok(en.UNIT)))
    return out


@model("alloc::io::read::Read::read_to_end", "core::io::read::Read::read_to_end", "std::io::Read::read_to_end")
def s_read_to_end(E, st, args, c):
    return read_to_end(E, st, args[0], args[1], lambda E, s, v: E.deliver(s, v))


def read_to_end(E, st, ptr, dst, fin):
    r = reader(E, st, ptr)
    limit = None
    if r[0] == "take":
        _, a, p, v = r
        inner, limit = v[4]
        ptr = inner if inner[0] in ("ref", "box") else ("ref", a, p + (("f", 0, "inner"),), True)
        r = reader(E, st, ptr)
    out = []
    s2 = st.copy()
    if r[0] in ("slice", "bytes", "cursor"):
        E.emit(s2, "readfail", "to_end")
    else:
        sid = stream_id(*r[1:])
        E.emit(s2, "readfail", "to_end", sid, E.load_alloc(s2, ("pos", sid)), limit if limit is not None else I(1))
    E.havoc(s2, dst)
    out.extend(fin(E, s2, err(ioerr(E, s2, "read"))))
    if r[0] in ("slice", "bytes", "cursor"):
        _, a, p, v = r
        if r[0] == "cursor":
            b, pos = E.content(st, E.deref_all(st, v[4][0])), v[4][1]
        elif r[0] == "slice":
            b, pos = E.content(st, E.at(st, v)), I(0)
        else:
            b, pos = E.content(st, v), I(0)
        total = buf_len(b)
        avail = sub(total, pos)
        branches = [(st, avail)]
        if limit is not None:
            branches = []
            for s, t in fork_bool(E, st, lt(avail, limit)):
                branches.append((s, avail if t else limit))
        for s, n in branches:
            g = lambda l, s=s: E.ge0(s, l)
            end = add(pos, n)
            x = slice_buf(b, pos, end, g)
            rest = slice_buf(b, end, total, g)
            x = as_buf(("t", "slice", b, pos, end)) if x is None else x
            rest = as_buf(("t", "slice", b, end, total)) if rest is None else rest
            append(E, s, dst, x)
            E.emit(s, "read", "to_end", ("t", "content", b), pos, n)
            if r[0] == "cursor":
                E.store(s, a, p, mk("cursor", 0, v[4][0], end))
            elif r[0] == "slice":
                E.store(s, a, p, ("ref", E.new_alloc(s, rest), (), False))
            else:
                E.store(s, a, p, rest)
            out.extend(fin(E, s, ok(n)))
        return out
    _, a, p, v = r
    sid = stream_id(a, p, v)
    pk = ("pos", sid)
    pos = E.load_alloc(st, pk)
    if limit is not None:
        # everything up to the limit, or less if the input ends
        s3 = st.copy()
        got = ("t", "available", sid, pos)
        if E.assume(s3, lt(got, limit), True):
            append(E, s3, dst, buf(("sub", sid, pos, got)))
            s3.mem[pk] = add(pos, got)
            E.emit(s3, "readfail", "to_end", sid, pos, limit)
            E.emit(s3, "read", "to_end", sid, pos, got)
            out.extend(fin(E, s3, ok(got)))
        append(E, st, dst, buf(("sub", sid, pos, limit)))
        st.mem[pk] = add(pos, limit)
        E.emit(st, "read", "to_end", sid, pos, limit)
        out.extend(fin(E, st, ok(limit)))
        return out
    got = ("t", "available", sid, pos)
    append(E, st, dst, buf(("sub", sid, pos, got)))
    st.mem[pk] = add(pos, got)
    E.emit(st, "read", "to_end", sid, pos, got)
    out.extend(fin(E, st, ok(got)))
    return out


@model("tokio::io::util::async_read_ext::AsyncReadExt::read_to_end")
def a_read_to_end(E, st, args, c):
    return ("fut", "readtoend", (args[0], args[1]))


@model("tokio::io::util::async_read_ext::AsyncReadExt::read", "alloc::io::read::Read::read", "tokio::io::util::async_read_ext::AsyncReadExt::read_buf")
def a_read(E, st, args, c):
    return ("fut", "readsome", (args[0], args[1]))


@model("tokio::io::util::async_write_ext::AsyncWriteExt::write_all")
def write_all(E, st, args, c):
    return ("fut", "write_all", (args[0], args[1]))


@model("tokio::io::util::async_write_ext::AsyncWriteExt::write_all_buf")
def write_all_buf(E, st, args, c):
    return ("fut", "write_all_buf", (args[0], args[1]))


@model("tokio::io::util::async_write_ext::AsyncWriteExt::write_buf")
def write_buf(E, st, args, c):
    return ("fut", "write_buf", (args[0], args[1]))


@model("tokio::io::util::async_write_ext::AsyncWriteExt::write")
def write_some(E, st, args, c):
    return ("fut", "write", (args[0], args[1]))


@model("tokio::io::util::async_write_ext::AsyncWriteExt::flush")
def flush(E, st, args, c):
    return ("fut", "flush", (args[0],))


@model("tokio::io::util::async_write_ext::AsyncWriteExt::shutdown")
def shutdown(E, st, args, c):
    return ("fut", "shutdown", (args[0],))


def write_int(n, endian):
    def m(E, st, args, c):
        a = E.new_alloc(st, buf((endian, n, args[1])))
        return ("fut", "write_all", (args[0], ("ref", a, (), False)))
    return m


for nm, n in (("u8", 1), ("u16", 2), ("u32", 4), ("u64", 8)):
    M["tokio::io::util::async_write_ext::AsyncWriteExt::write_" + nm] = write_int(n, "be")
    M["tokio::io::util::async_write_ext::AsyncWriteExt::write_" + nm + "_le"] = write_int(n, "le")


def io_target(E, st, ptr):
    """where a write goes: the innermost object behind the references"""
    a, p = E.target(st, ptr)
    v = E.load(st, a, p)
    n = 0
    while v[0] in ("ref", "box") and n < 6:
        a, p = E.target(st, v)
        v = E.load(st, a, p)
        n += 1
    return ("ref", a, p, False), v


def custom_io(E, st, ptr, trait):
    """(ref, impl) if the object implements the trait in the crate"""
    t, v = io_target(E, st, ptr)
    if v[0] == "agg" and v[1] == "adt":
        im = E.impl_by_adt(trait, v[2])
        if im:
            return t, im
    return None


def leaf_write(E, st, f):
    op = f[1]
    t, v = io_target(E, st, f[2][0])
    if op == "write_all":
        data = E.content(st, E.deref_all(st, f[2][1]))
        e = err(ioerr(E, st, op))
        res = ok(en.UNIT)
        return [("ready", res, [("written", op, t, data, E.snap(st, v))]), ("ready", e, [("writefail", op, t, data, e)])]
    e = err(ioerr(E, st, op))
    return [("ready", ok(en.UNIT), [("flushed", op, t, E.snap(st, v))]), ("ready", e, [("writefail", op, t, EMPTY, e)])]


def own_buffer(E, st, ptr):
    """the variable a buffer that is written from is stored in"""
    a, p = E.target(st, ptr)
    v = E.load(st, a, p)
    n = 0
    while v[0] == "ref" and n < 6:
        a, p = E.target(st, v)
        v = E.load(st, a, p)
        n += 1
    return a, p, v


def rest_of(E, st, data):
    """what is left of a buffer of which an unknown number of bytes was taken"""
    return buf(("raw", ("t", "rest", data, E.fresh(st, "taken"))))


def taken_from(data):
    return mentions(data, lambda x: x[0] == "t" and x[1] == "?taken")


def partial_writes(E, st, data):
    """what a single write of data can take: (state, number of bytes, the bytes that are written, what is left).
    Everything, or everything up to a place in any of its segments"""
    yield st.copy(), buf_len(data), data, EMPTY
    segs = data[1]
    if taken_from(data):
        return          # taken in two steps: further ones are like these
    for i, sg in enumerate(segs):
        if sg[0] not in ("raw", "sub"):
            continue
        s = st.copy()
        k = E.fresh(s, "taken")
        n = seg_len(sg)
        if not E.assume(s, lt(k, n), True) or not E.assume(s, lt(I(0), k), True):
            continue
        src, off = (sg[1], sg[2]) if sg[0] == "sub" else (sg[1], I(0))
        x = cat(("buf", segs[:i]), buf(("sub", src, off, k)))
        y = cat(buf(("sub", src, add(off, k), sub(n, k))), ("buf", segs[i + 1:]))
        yield s, buf_len(x), x, y


def write_some_ready(E, st, f, a, p):
    """a single write, which can take a part of what it is given only"""
    op = f[1]
    t, v = io_target(E, st, f[2][0])
    if op == "write_buf":
        ba, bp, bv = own_buffer(E, st, f[2][1])
        data = as_buf(E.content(st, bv))
        how = ("kept", ba, bp, data)
    else:
        data = as_buf(E.content(st, E.deref_all(st, f[2][1])))
        how = ("given", (), (), data)
    s = st.copy()
    E.store(s, a, p, f[:3] + ("pending",))
    E.emit(s, "pending", op, f[2], how)
    out = list(E.deliver(s, PENDING))
    s = st.copy()
    e = err(ioerr(E, s, op))
    E.store(s, a, p, ("fut", "done", ()))
    E.emit(s, "writefail", op, t, data, e)
    E.emit(s, "ready", op, f[2], e)
    out.extend(E.deliver(s, ready(e)))
    s = st.copy()
    # nothing is taken: the other side does not accept data any more
    if data != EMPTY and not taken_from(data):
        E.store(s, a, p, ("fut", "done", ()))
        E.emit(s, "writefail", op, t, data, ok(I(0)))
        E.emit(s, "ready", op, f[2], ok(I(0)))
        out.extend(E.deliver(s, ready(ok(I(0)))))
    for s, n, x, y in list(partial_writes(E, st, data)):
        E.store(s, a, p, ("fut", "done", ()))
        if op == "write_buf":
            E.store(s, ba, bp, y)
        E.emit(s, "written", op, t, x, E.snap(s, v))
        E.emit(s, "ready", op, f[2], ok(n))
        out.extend(E.deliver(s, ready(ok(n))))
    return out


def write_buf_ready(E, st, f, a, p):
    """writes from a buffer and takes what was written out of it"""
    op = f[1]
    if op != "write_all_buf":
        return write_some_ready(E, st, f, a, p)
    t, v = io_target(E, st, f[2][0])
    ba, bp, bv = own_buffer(E, st, f[2][1])
    data = as_buf(E.content(st, bv))
    out = []
    for how in ("pending", "ok", "err"):
        s = st.copy()
        if how == "pending":
            E.store(s, a, p, f[:3] + ("pending",))
            if data != EMPTY:
                E.store(s, ba, bp, rest_of(E, s, data))
            E.emit(s, "pending", f[1], f[2], ("kept", ba, bp, data))
            out.extend(E.deliver(s, PENDING))
            continue
        E.store(s, a, p, ("fut", "done", ()))
        e = err(ioerr(E, s, op))
        if how == "err":
            if data != EMPTY:
                E.store(s, ba, bp, rest_of(E, s, data))
            E.emit(s, "writefail", op, t, data, e)
            E.emit(s, "ready", op, f[2], e)
            out.extend(E.deliver(s, ready(e)))
        else:
            E.store(s, ba, bp, EMPTY)
            E.emit(s, "written", op, t, data, E.snap(s, v))
            E.emit(s, "ready", op, f[2], ok(en.UNIT))
            out.extend(E.deliver(s, ready(ok(en.UNIT))))
    return out


def leaf_await(E, st, f):
    v = f[2][0]
    return [("ready", ("t", "await", v))]


LEAF = {
    "joinnext": leaf_joinnext, "shutset": leaf_shutset, "readframe": leaf_readframe, "reserve": leaf_reserve, "sendfor": leaf_sendfor,
    "lock": leaf_lock, "acquire": leaf_acquire, "send": leaf_send, "recv": leaf_recv, "sleep": leaf_sleep, "write_all": leaf_write,
    "flush": leaf_write, "shutdown": leaf_write, "await": leaf_await, "readyval": leaf_readyval,
}


def poll_read_leaf(E, st, f, a, p):
    op = f[1]
    if op == "readint":
        ptr, n, e = f[2]
        return leaf_via_read(E, st, f, a, p, ptr, n, lambda E, s, x: int_of(x, e[1]) or ("t", "int_of", x, e[1], n[1]))
    if op == "readexact":
        ptr, dst = f[2]
        n = E.length(st, E.at(st, dst))

        def fin(E, s, x):
            da, dp = E.target(s, dst)
            E.store(s, da, dp, x)
            return n
        return leaf_via_read(E, st, f, a, p, ptr, n, fin)
    if op == "readtoend":
        s2 = st.copy()
        E.store(s2, a, p, f[:3] + ("pending",))
        E.emit(s2, "pending", f[1], f[2])
        out = E.deliver(s2, PENDING)

        def fin2(E, s, v):
            E.store(s, a, p, ("fut", "done", ()))
            return E.deliver(s, ready(v))
        return out + read_to_end(E, st, f[2][0], f[2][1], fin2)
    return None


# ---------------------------------------------------------------- ReadBuf
READBUF = "tokio::io::read_buf::ReadBuf"


@model("tokio::io::read_buf::ReadBuf::remaining")
def rb_remaining(E, st, args, c):
    v = E.deref_all(st, args[0])
    if v[0] == "agg" and v[2] == READBUF:
        return sub(v[4][1], buf_len(E.content(st, v[4][0])))
    return ("t", "rbremaining", v)


@model("tokio::io::read_buf::ReadBuf::capacity")
def rb_capacity(E, st, args, c):
    v = E.deref_all(st, args[0])
    return v[4][1] if v[0] == "agg" and v[2] == READBUF else ("t", "rbcap", v)


@model("tokio::io::read_buf::ReadBuf::filled")
def rb_filled(E, st, args, c):
    t, v = io_target(E, st, args[0])
    return ("ref", t[1], t[2] + (("f", 0, "filled"),), False)


@model("tokio::io::read_buf::ReadBuf::put_slice")
def rb_put(E, st, args, c):
    t, v = io_target(E, st, args[0])
    b = E.content(st, E.deref_all(st, args[1]))
    if v[0] == "agg" and v[2] == READBUF:
        rem = sub(v[4][1], buf_len(E.content(st, v[4][0])))
        n = buf_len(b)
        if not E.ge0(st, sub(rem, n)):
            E.emit(st, "maypanic", "put_slice beyond the capacity of the reader's buffer", n, rem)
        else:
            E.emit(st, "proved", "put_slice", n, rem)
        E.store(st, t[1], t[2], mk(READBUF, 0, cat(E.content(st, v[4][0]), b), v[4][1]))
        E.emit(st, "deliver", b)
        return en.UNIT
    return E.external(st, args, c)


# ---------------------------------------------------------------- polling io traits directly
def poll_io(name):
    def m(E, st, args, c):
        trait = "tokio::io::async_read::AsyncRead" if name == "poll_read" else "tokio::io::async_write::AsyncWrite"
        r = custom_io(E, st, args[0], trait)
        if r:
            t, im = r
            bid = dict((m, b) for m, b in im["items"]).get(name)
            if bid in E.F.bodies:
                return E.enter(st, E.F.bodies[bid], {}, [t] + list(args[1:]))
        t, v = io_target(E, st, args[0])
        out = []
        s2 = st.copy()
        E.emit(s2, "pending", name, (t,))
        out.extend(E.deliver(s2, PENDING))
        s3 = st.copy()
        e = ioerr(E, s3, name)
        E.emit(s3, "writefail", name, t, EMPTY, err(e))
        out.extend(E.deliver(s3, ready(err(e))))
        if name == "poll_write":
            b = E.content(st, E.deref_all(st, args[2]))
            n = E.fresh(st, "written")
            E.emit(st, "written", name, t, b, E.snap(st, v), n)
            out.extend(E.deliver(st, ready(ok(n))))
        elif name == "poll_read":
            E.emit(st, "rawread", t)
            E.havoc(st, args[2] if args[2][0] == "ref" else UNIT)
            out.extend(E.deliver(st, ready(ok(en.UNIT))))
        else:
            E.emit(st, "flushed", name.replace("poll_", ""), t, E.snap(st, v))
            out.extend(E.deliver(st, ready(ok(en.UNIT))))
        return out
    return m


for n in ("poll_write", "poll_flush", "poll_shutdown"):
    M["tokio::io::async_write::AsyncWrite::" + n] = poll_io(n)
M["tokio::io::async_read::AsyncRead::poll_read"] = poll_io("poll_read")


@model("tokio::io::async_write::AsyncWrite::poll_write_vectored")
def poll_writev(E, st, args, c):
    """several pieces at once to what is outside of the crate: like one write of all of them"""
    v = E.deref_all(st, args[2])
    if custom_io(E, st, args[0], "tokio::io::async_write::AsyncWrite") or not (v[0] == "agg" and v[1] == "array"):
        return E.external(st, args, c)
    b = buf(*(s for x in v[4] for s in E.content(st, E.deref_all(st, x))[1]))
    return M["tokio::io::async_write::AsyncWrite::poll_write"](E, st, [args[0], args[1], ("ref", ("c", b), (), False)], c)


# ---------------------------------------------------------------- cryptography and randomness
@model("rand::rngs::thread::thread_rng", "rand::thread_rng", "rand::rng")
def thread_rng(E, st, args, c):
    return ("t", "csprng")


@model("rand::rngs::thread::ThreadRng::fill_bytes", "rand_core::RngCore::fill_bytes", "rand_core::os::OsRng::fill_bytes", "rand::rng::Rng::fill", "rand_core::RngCore::try_fill_bytes",
       "rand::rngs::os::OsRng::fill_bytes")
def fill_bytes(E, st, args, c):
    rng_ = E.deref_all(st, args[0])
    a, p = E.target(st, args[1])
    n = E.length(st, E.load(st, a, p))
    st.n += 1
    src = "random" if rng_[:2] == ("t", "csprng") or "OsRng" in c.rname or (rng_[0] == "agg" and "OsRng" in str(rng_[2])) else "weakrandom"
    x = ("t", src, st.n, n)
    if a[0] == "l" or True:
        v = E.load(st, a, p)
        E.store(st, a, p, buf(("sub", x, I(0), n)) if n != raw_len(x) else x)
    E.emit(st, "random", x)
    return en.UNIT if not c.rname.startswith("rand_core::RngCore::try") else ok(en.UNIT)


@model("D::digest", "digest::digest::Digest::digest")
def digest(E, st, args, c):
    t = c.rargs[0] if c.rargs else ("unknown",)
    names = re.findall(r"Oid(\w+)", str(t)) or [str(t[1]) if len(t) > 1 else "?"]
    return ("t", "hash", names[0], E.content(st, E.deref_all(st, args[0])))


@model("chacha20poly1305::ChaChaPoly1305::new", "crypto_common::KeyInit::new")
def cipher_new(E, st, args, c):
    k = E.content(st, E.deref_all(st, args[0]))
    E.emit(st, "cipher", k)
    return ("t", "cipher", k)


def aead(op):
    def m(E, st, args, c):
        ci = E.deref_all(st, args[0])
        nonce = E.content(st, E.deref_all(st, args[1]))
        data = E.content(st, E.deref_all(st, args[2]))
        x = ("t", op, ci, nonce, data)
        E.emit(st, op, ci, nonce, data)
        s2 = st.copy()
        E.emit(s2, op + "fail", ci, nonce, data)
        out = E.deliver(s2, err(("t", "aeaderror")))
        return out + E.deliver(st, ok(x))
    return m


M["Alg::encrypt"] = M["aead::Aead::encrypt"] = aead("encrypt")
M["Alg::decrypt"] = M["aead::Aead::decrypt"] = aead("decrypt")


@model("x25519_dalek::x25519::PublicKey::from", "x25519_dalek::x25519::StaticSecret::from")
def dalek_from(E, st, args, c):
    v = E.deref_all(st, args[0])
    if "PublicKey" in c.rname:
        src = c.ats[0] if c.ats else ("unknown",)
        if src[0] == "ref" or (v[0] == "t" and v[1] == "secret"):
            return ("t", "pubkey", v)
        return ("t", "pubbytes", E.content(st, v))
    return ("t", "secret", E.content(st, v))


@model("x25519_dalek::x25519::PublicKey::as_bytes", "x25519_dalek::x25519::PublicKey::to_bytes")
def pk_bytes(E, st, args, c):
    v = E.deref_all(st, args[0])
    x = v[2] if v[0] == "t" and v[1] == "pubbytes" else ("t", "keybytes", v)
    if c.rname.endswith("to_bytes"):
        return x
    return ("ref", E.new_alloc(st, x), (), False)


@model("x25519_dalek::x25519::StaticSecret::diffie_hellman")
def dh(E, st, args, c):
    s, p = E.deref_all(st, args[0]), E.deref_all(st, args[1])
    E.emit(st, "dh", s, p)
    return ("t", "shared", s, p)


@model("x25519_dalek::x25519::SharedSecret::to_bytes", "x25519_dalek::x25519::SharedSecret::as_bytes", "x25519_dalek::x25519::StaticSecret::to_bytes")
def shared_bytes(E, st, args, c):
    v = E.deref_all(st, args[0])
    x = ("t", "keybytes", v)
    if c.rname.endswith("as_bytes"):
        return ("ref", E.new_alloc(st, x), (), False)
    return x


# ---------------------------------------------------------------- time and others
@model("core::time::Duration::from_secs", "core::time::Duration::from_millis", "core::time::Duration::from_micros", "core::time::Duration::from_secs_f64", "core::time::Duration::from_nanos")
def dur(E, st, args, c):
    return ("t", "duration", c.rname.split("::")[-1], args[0])


@model("std::time::SystemTime::now", "std::time::Instant::now")
def now(E, st, args, c):
    return E.fresh(st, "now")


@model("std::time::SystemTime::duration_since")
def since(E, st, args, c):
    return ("t", "since", args[0] if args[0][0] != "ref" else E.at(st, args[0]))


@model("core::time::Duration::as_secs", "core::time::Duration::as_millis", "core::time::Duration::subsec_millis", "core::time::Duration::as_nanos", "core::time::Duration::subsec_nanos",
       "core::time::Duration::as_micros", "core::time::Duration::subsec_micros")
def dur_as(E, st, args, c):
    v = E.deref_all(st, args[0])
    nb = {"subsec_millis": 10, "subsec_nanos": 30, "subsec_micros": 20, "as_secs": 64}.get(c.rname.split("::")[-1], 128)
    return ("t", "typed", nb, ("t", c.rname.split("::")[-1], v))


@model("trait_bound_typemap::trait_maps::send_sync_typemap::SendSyncTypeMap::new")
def tm_new(E, st, args, c):
    return ("t", "tmnew")


@model("trait_bound_typemap::trait_maps::send_sync_typemap::SendSyncTypeMap::insert", "trait_bound_typemap::trait_maps::send_sync_typemap::SendSyncTypeMap::extend")
def tm_insert(E, st, args, c):
    a, p = E.target(st, args[0])
    m = E.load(st, a, p)
    op = c.rname.split("::")[-1]
    E.store(st, a, p, ("t", "tm" + op, m, E.snap(st, args[1])))
    return en.UNIT if c.dt == ("tuple", ()) else E.fresh(st, "tmold")


@model("core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut", "core::ops::function::FnOnce::call_once", "&F::call", "F::call", "alloc::boxed::Box::call")
def fn_call(E, st, args, c):
    f = E.deref_all(st, args[0]) if args[0][0] in ("ref", "box", "arc") else args[0]
    tupv = args[1]
    cargs = list(tupv[4]) if tupv[0] == "agg" and tupv[1] == "tuple" else [tupv]
    if f[0] == "agg" and f[1] == "closure":
        ptr = args[0] if args[0][0] == "ref" and E.at(st, args[0])[0] == "agg" else None
        return E.call_closure(st, f, ptr, cargs)
    if f[0] == "fn":
        return E.call_fn(st, f[1], cargs, c.dt)
    E.emit(st, "usercall", f, tuple(E.snap(st, a) for a in cargs))
    st.n += 1
    return ("t", "ucall", f, st.n)


@model("std::io::error::Error::new", "std::io::error::Error::other", "core::io::error::Error::new", "core::io::error::Error::other", "core::io::error::Error::from",
       "std::io::error::Error::from")
def io_err(E, st, args, c):
    return ("t", "ioerror", tuple(E.snap(st, a) for a in args))


@model("core::task::wake::Context::waker")
def waker(E, st, args, c):
    return ("ref", ("p", ("t", "waker")), (), False)


@model("core::task::wake::Waker::wake_by_ref", "core::task::wake::Waker::wake", "core::task::wake::Waker::clone")
def wake(E, st, args, c):
    E.emit(st, "wake", c.rname.split("::")[-1])
    return en.UNIT if not c.rname.endswith("clone") else ("t", "waker")


@model("core::task::wake::Context::from_waker")
def ctx_from(E, st, args, c):
    return ("t", "noopcx") if E.deref_all(st, args[0]) == ("t", "noopwaker") else ("t", "newcx")


@model("core::task::wake::Waker::noop")
def noop_waker(E, st, args, c):
    return ("ref", ("c", ("t", "noopwaker")), (), False)


@model("num_enum::TryFromPrimitiveError::new")
def tfpe(E, st, args, c):
    return ("t", "tryfromprimitive", args[0])
