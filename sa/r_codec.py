"""Encoding and decoding: the layouts both sides use, length prefixes, malformed input."""
from core import *

STREAM = ("t", "stream", sym("reader"))
ETYPE = "bromine::events::event::EventType"
NOTRACE = None


# ------------------------------------------------------------------ events
def event_fields(A, E, st, me):
    """what the accessors of an event say in a state"""
    out = {}
    for f in ("id", "event_type", "reference_id", "namespace", "name", "data_raw"):
        r = A.value_of(EVENT + f, st, me)
        if len(r) != 1:
            A.undecide(EVENT + f, "the accessor has %d paths" % len(r))
            return None
        out[f] = inst(E, st, r[0][1])
    return out


def encode_paths(A):
    """[(variant, path, fields of the event)] of encoding an arbitrary event of each type"""
    if "encode" in A.cache:
        return A.cache["encode"]
    body = A.body(EVENT + "into_bytes")
    out = []
    A.cache["encode"] = out
    if body is None:
        return out
    me = sym("event")
    tr = A.value_of(EVENT + "event_type", new_state(), me)
    for i, n in enumerate(variants_of(A.F, ETYPE)):
        def setup(E, st, i=i):
            if len(tr) == 1 and tr[0][1][0] == "t":
                st.ref[tr[0][1]] = en.mk(ETYPE, i)
            return [me]
        for p in A.run(body, setup=setup, label="Event::into_bytes[%s]" % n):
            p.x = event_fields(A, p.E, p.st, me)
            out.append((n, i, p))
    return out


def doc_header(E, st, f, version):
    """segments of the header as documented"""
    d = E.discrs(ETYPE)
    t = f["event_type"]
    tag = I(d[t[3]][0]) if t[0] == "agg" else ("t", "discr", t, ETYPE)
    h = [("k", version), ("be", 8, f["id"]), ("be", 1, tag)]
    r = some_of(f["reference_id"])
    if r is not None:
        h += [("k", b"\xff"), ("be", 8, r)]
    elif is_none(f["reference_id"]):
        h += [("k", b"\x00")]
    else:
        return None
    ns = f["namespace"]
    if some_of(ns) is not None:
        b = E.content(st, inst(E, st, some_of(ns)))
        h += [("be", 2, buf_len(b))] + list(b[1])
    elif is_none(ns):
        h += [("be", 2, I(0))]
    else:
        return None
    b = E.content(st, f["name"])
    h += [("be", 2, buf_len(b))] + list(b[1])
    return h


def doc_frame(header, data, extra=()):
    h = buf(*(list(header) + list(extra)))
    d = as_buf(data)
    return buf(("be", 8, add(buf_len(h), buf_len(d))), ("be", 2, buf_len(h)), *(h[1] + d[1]))


def version_of(A):
    """the version bytes that are written: three constant bytes at offset 10"""
    for n, i, p in encode_paths(A):
        if p.out == "ret" and is_ok(p.value):
            b = p.E.content(p.st, inst(p.E, p.st, p.value[4][0]))
            v = slice_buf(b, I(10), I(13))
            if v is not None and len(v[1]) == 1 and v[1][0][0] == "k":
                return v[1][0][1]
    return None


def decode_paths(A):
    if "decode" in A.cache:
        return A.cache["decode"]
    body = A.body(EVENT + "from_async_read")
    out = []
    A.cache["decode"] = out
    if body is not None:
        for p in A.run(body, [sym("reader")], label="Event::from_async_read"):
            out.append(p)
    return out


def io_failed(p, sid=STREAM):
    return any(e.kind == "readfail" and len(e.args) > 1 and e.args[1] == sid for e in p.ev)


def compatible(E, p, st, layout, sid=STREAM, whole=False):
    """(state, layout) in which a decoding path takes place on bytes of a given layout; None if it cannot"""
    s = st.copy()
    lay = layout
    for _ in range(4):
        lay = bytes_norm(E, s, resolve(E, s, lay))
        n = len(s.facts) + len(s.ref)
        see = lambda t: resolve(E, s, on_layout(E, s, all_of(t, sid, buf_len(lay)) if whole else t, sid, lay))
        for c, val in p.st.facts.items():
            c2 = see(c)
            if c2[0] == "int":
                if (c2[1] != 0) != val:
                    return None
            elif not E.assume(s, c2, val):
                return None
        # what was learned about values on the decoding path
        for t, v in p.st.ref.items():
            if t[0] != "t" or t in p.st.facts or not mentions(t, lambda x: x == sid):
                continue
            t2, v2 = see(t), see(v)
            if t2[0] == "int" and v2[0] == "int" and t2 != v2:
                return None
        if len(s.facts) + len(s.ref) == n:
            break
    return s, lay


def all_of(v, sid, n):
    """nothing follows the n bytes of a stream"""
    return rewrite(v, lambda x: add(n, neg(x[3])) if x[0] == "t" and x[1] == "available" and x[2] == sid else x)


def decoded(A, p, E, s, layout, sid=STREAM):
    v = on_layout(E, s, inst(p.E, p.st, p.value[4][0]), sid, layout)
    return event_fields(A, E, s, v)


def same_field(E, s, f, a, b):
    if f == "id":
        return E.norm(s, a) == E.norm(s, b)
    if f == "event_type":
        return inst(E, s, a) == inst(E, s, b)
    if f == "reference_id":
        return inst(E, s, a) == inst(E, s, b)
    if f == "namespace":
        x, y = some_of(a), some_of(b)
        x = EMPTY if x is None else x
        y = EMPTY if y is None else y
        return same_bytes(E, s, x, y)
    return same_bytes(E, s, a, b)


def c01(A):
    enc = encode_paths(A)
    dec = decode_paths(A)
    ver = version_of(A)
    if ver is None and not A.undecided:
        A.violate("layout", EVENT + "into_bytes", "no three constant version bytes follow the length fields of an encoded event", "layout:version")
        return
    for b in A.F.by_name.get(EVENT.rsplit("Event::", 1)[0] + "FORMAT_VERSION", []):
        # the version the library says it has
        for q in A.run(b, []):
            v = inst(q.E, q.st, q.value) if q.out == "ret" else ("unknown",)
            if ver is not None and v[0] == "agg" and v[1] == "array" and all(x[0] == "int" for x in v[4]):
                if [x[1] for x in v[4]] == list(ver):
                    A.ok("version")
                else:
                    A.violate("version", EVENT + "into_bytes", "the version sent is %s, but the format version is %s" % (list(ver), show(v)), "version")
    n_ok = 0
    for name, i, p in enc:
        if p.out != "ret" or p.x is None:
            continue
        E = p.E
        if is_err(p.value):
            if not any(mentions(c, lambda x: x[0] == "t" and x[1] == "len") for c in p.st.facts):
                A.violate("encode-total", pos_of(p), "an event of any size is rejected", "encode-total:%s" % name, p)
            else:
                A.ok("encode-total")
            continue
        b = bytes_norm(E, p.st, E.content(p.st, inst(E, p.st, p.value[4][0])))
        h = doc_header(E, p.st, p.x, ver)
        if imprecise(b) or h is None:
            A.undecide(EVENT + "into_bytes", "the encoded bytes are not known precisely: %s" % show(b)[:200])
            continue
        n_ok += 1
        want = bytes_norm(E, p.st, doc_frame(h, p.x["data_raw"]))
        if b != want:
            A.violate("layout", EVENT + "into_bytes", "an encoded %s event (reference %s, namespace %s) is %s, documented is %s" % (
                name, show(p.x["reference_id"]), show(p.x["namespace"]), show(b), show(want)), "layout:encode", p)
            continue
        A.ok("layout", 1, show(b))
    A.need("layout", 4)
    # the decoder on every documented frame
    for name, i, p in enc:
        if p.out != "ret" or p.x is None or not is_ok(p.value):
            continue
        E = p.E
        h = doc_header(E, p.st, p.x, ver)
        if h is None:
            continue
        lay = doc_frame(h, p.x["data_raw"])
        hit = 0
        for q in dec:
            if q.out != "ret" or io_failed(q):
                continue
            s = compatible(E, q, p.st, lay)
            if s is None:
                continue
            s, lay2 = s
            v = inst(q.E, q.st, q.value)
            if is_err(v):
                if undecided_text(q):
                    continue       # text that is not valid UTF-8 cannot have come from a string
                if vague(A, q):
                    continue
                A.violate("decode", q.site or EVENT + "from_async_read", "a well-formed %s event is rejected: %s" % (name, show(v)), "decode:rejects", q)
                continue
            g = decoded(A, q, E, s, lay2)
            if g is None:
                continue
            hit += 1
            for f in p.x:
                if same_field(E, s, f, p.x[f], g[f]):
                    A.ok("decode")
                elif imprecise(inst(E, s, g[f])):
                    A.undecide(EVENT + "from_async_read", "%s of a decoded event is not known: %s" % (f, show(g[f])[:200]))
                else:
                    A.violate("decode", EVENT + "from_async_read", "%s of a decoded %s event is %s but was %s when it was encoded" % (f, name, show(inst(E, s, g[f])), show(p.x[f])),
                              "decode:%s" % f, q)
        if not hit:
            if A.undecided:
                A.undecide(EVENT + "from_async_read", "no decoding path for %s" % show(lay))
            else:
                A.violate("decode", EVENT + "from_async_read", "no path of the decoder accepts %s" % show(lay), "decode:none")
    A.need("decode", 60)
    constructors(A)


def vague(A, q):
    """does whether this path is taken depend on something that is not known"""
    c = next((c for c in q.st.facts if imprecise(c)), None)
    if c is not None:
        A.undecide(q.site or q.root, "whether this is reached depends on %s" % show(c)[:120])
    return c is not None


def undecided_text(q):
    return any(e.kind == "utf8err" for e in q.ev)


def pos_of(p):
    return p.site or p.root


def constructors(A):
    """initiator, response, error and end create events of that type from exactly what they are given"""
    ns, name, data, ref = sym("namespace"), sym("name"), sym("data"), sym("ref_id")
    for fn, var in (("initiator", "Initiator"), ("response", "Response"), ("error", "Error"), ("end", "End")):
        b = A.body(EVENT + fn)
        if b is None:
            continue
        args = [ns, name, data] + ([ref] if b["argc"] == 4 else [])
        for p in A.run(b, args):
            if p.out != "ret":
                continue
            g = event_fields(A, p.E, p.st, p.value)
            if g is None:
                continue
            checks = {"type": (vname(A.F, g["event_type"]), var),
                      "namespace": (g["namespace"], inst(p.E, p.st, ns)),
                      "reference": (g["reference_id"], en.some(ref) if fn != "initiator" else en.NONE)}
            for k, (x, y) in checks.items():
                if x == y:
                    A.ok("constructor")
                else:
                    A.violate("constructor", EVENT + fn, "%s of an event created by %s is %s, not %s" % (k, fn, x if isinstance(x, str) else show(x or ()), y if isinstance(y, str) else show(y)), "constructor:%s:%s" % (fn, k), p)
            for k, y in (("name", name), ("data_raw", data)):
                if same_bytes(p.E, p.st, g[k], y):
                    A.ok("constructor")
                else:
                    A.violate("constructor", EVENT + fn, "%s of an event created by %s is %s" % (k, fn, show(g[k])), "constructor:%s:%s" % (fn, k), p)
    A.need("constructor", 10)


# ------------------------------------------------------------------ compatibility and consumption
def c04(A):
    dec = decode_paths(A)
    n = 0
    for q in dec:
        if q.out != "ret" or not is_ok(q.value):
            continue
        E, st = q.E, q.st
        end = E.norm(st, st.mem.get(("pos", STREAM), I(0)))
        total = term("rd", STREAM, I(0), 8, "be")
        want = add(E.norm(st, total), I(10))
        if imprecise(end):
            A.undecide(q.root, "the number of consumed bytes is not known: " + show(end))
        elif E.norm(st, sub(end, want)) == ("int", 0) or sub(rewrite(end, lambda x: E.norm(st, x) if x[0] == "t" else x), rewrite(want, lambda x: E.norm(st, x) if x[0] == "t" else x)) == ("int", 0):
            A.ok("consumed", 1, show(end))
        elif E.ge0(st, sub(end, want)) and E.ge0(st, sub(want, end)):
            A.ok("consumed")
        else:
            A.violate("consumed", EVENT + "from_async_read", "an accepted frame consumes %s bytes instead of the announced %s" % (show(end), show(want)), "consumed", q)
    from r_conn import abandoned
    abandoned(A, "whole")
    A.need("consumed", 8)
    ver = version_of(A) or bytes([0, 9, 0])
    E = A.engine()
    st0 = new_state()
    name, data, extra = sym("name"), sym("data"), sym("extra")
    TYBITS[sym("x8")] = 8
    x8 = sym("x8")

    def frame(version=None, tag=("k", b"\x00"), ref=(("k", b"\x00"),), more=()):
        h = list(version or (("k", ver),)) + [("be", 8, sym("id")), tag] + list(ref) + [("be", 2, I(0)), ("be", 2, raw_len(name)), ("raw", name)]
        return doc_frame(h, buf(("raw", data)), more)

    def outcomes(lay, facts=()):
        st = new_state()
        for c, v in facts:
            E.assume(st, c, v)
        for q in dec:
            if q.out not in ("ret", "panic") or io_failed(q) or undecided_text(q):
                continue
            s = compatible(E, q, st, lay)
            if s is not None:
                yield q, s[0], s[1]

    # trailing header bytes are skipped
    lay = frame(more=(("raw", extra),))
    base = frame()
    good = 0
    for q, s, lay2 in outcomes(lay):
        if q.out == "ret" and is_ok(q.value):
            g = decoded(A, q, E, s, lay2)
            if g is None:
                continue
            if same_bytes(E, s, g["data_raw"], data) and same_bytes(E, s, g["name"], name):
                A.ok("extension")
                good += 1
            elif imprecise(inst(E, s, g["data_raw"])):
                A.undecide(q.root, "data of a frame with a longer header is not known")
            else:
                A.violate("extension", EVENT + "from_async_read", "with unknown bytes after the header fields the data is %s and the name %s" % (show(inst(E, s, g["data_raw"])), show(g["name"])), "extension:data", q)
        elif not vague(A, q):
            A.violate("extension", q.site or q.root, "a header with further fields is rejected: %s" % show(q.value), "extension:rejected", q)
    A.need("extension", 1)
    # minor and patch version do not matter
    for what, vseg in (("minor", (("k", ver[:1]), ("be", 1, x8), ("k", ver[2:]))), ("patch", (("k", ver[:2]), ("be", 1, x8)))):
        lay = frame(version=vseg)
        for q, s, lay2 in outcomes(lay):
            if q.out == "ret" and is_ok(q.value):
                A.ok("version")
            elif not vague(A, q):
                A.violate("version", q.site or q.root, "a frame with another %s version is rejected: %s" % (what, show(q.value)), "version:%s" % what, q)
    A.need("version", 1)
    # another major version, unknown types and reference flags are errors
    bad = [("major version", frame(version=(("be", 1, x8), ("k", ver[1:]))), [(en.eq(x8, I(ver[0])), False)]),
           ("event type", frame(tag=("be", 1, x8)), [(en.eq(x8, I(d)), False) for d, _ in (E.discrs(ETYPE) or [])]),
           ("reference flag", frame(ref=(("be", 1, x8), ("be", 8, sym("ref_id")))), [(en.eq(x8, I(0)), False), (en.eq(x8, I(255)), False)]),
           ("reference flag", frame(ref=(("be", 1, x8),)), [(en.eq(x8, I(0)), False), (en.eq(x8, I(255)), False)])]
    for what, lay, facts in bad:
        k = 0
        for q, s, lay2 in outcomes(lay, facts):
            k += 1
            if q.out == "ret" and is_err(q.value):
                A.ok("reject")
            elif q.out == "ret" and is_ok(q.value) and not vague(A, q):
                A.violate("reject", EVENT + "from_async_read", "a frame with an unknown %s is accepted" % what, "reject:%s" % what, q)
        if k == 0:
            A.undecide(EVENT + "from_async_read", "no path for a frame with an unknown %s" % what)
    A.need("reject", 1)


# ------------------------------------------------------------------ length prefixes
def prefix_lengths(A, rule, where, E, st, b, spec, path, kind):
    """every length prefix in b is the exact length of the bytes following it. spec: list of
    (offset of the prefix, width, length it must have), offsets as terms"""
    g = lambda l: E.ge0(st, l)
    for what, off, w, want in spec:
        x = slice_buf(b, off, add(off, I(w)), g)
        v = int_of(x, "be") if x is not None else None
        if v is None:
            if imprecise(b):
                A.undecide(where, "the %s prefix of %s is not known" % (what, show(b)[:200]))
            else:
                A.violate(rule, where, "there is no big endian %s prefix of %d bytes at offset %s in %s" % (what, w, show(off), show(b)), "%s:%s" % (rule, what), path)
            continue
        if E.norm(st, sub(v, want)) == ("int", 0) or E.ge0(st, sub(v, want)) and E.ge0(st, sub(want, v)):
            A.ok(rule, 1, "%s = %s" % (what, show(v)))
        elif mentions(v, lambda y: y[0] == "t" and y[1] == "trunc"):
            A.violate(rule, where, "the %s is cut to %d bits: %s" % (what, 8 * w, show(v)), "%s:%s:cut" % (rule, what), path)
        elif imprecise(v) or imprecise(want):
            A.undecide(where, "the %s prefix is not known: %s" % (what, show(v)[:200]))
        else:
            A.violate(rule, where, "the %s sent is %s, but the bytes it describes are %s" % (what, show(v), show(want)), "%s:%s" % (rule, what), path)


def payload_paths(A, adt):
    b = A.trait_body("bromine::events::payload::IntoPayload", adt, "into_payload")
    if b is None:
        return []
    return A.run(b, [sym("self"), sym("ctx")])


def written_packages(A):
    """[(path, write event)] of everything written by encrypted connections"""
    import r_crypt
    return r_crypt.package_writes(A)


def c02(A):
    for name, i, p in encode_paths(A):
        if p.out != "ret" or p.x is None or not is_ok(p.value):
            continue
        E, st = p.E, p.st
        b = bytes_norm(E, st, E.content(st, inst(E, st, p.value[4][0])))
        data = E.content(st, p.x["data_raw"])
        total = buf_len(b)
        spec = [("total length", I(0), 8, sub(total, I(10))), ("header length", I(8), 2, sub(sub(total, I(10)), buf_len(data)))]
        off = I(23 if some_of(p.x["reference_id"]) is None else 31)
        ns = some_of(p.x["namespace"])
        nsb = EMPTY if ns is None else bytes_norm(E, st, E.content(st, inst(E, st, ns)))
        spec.append(("namespace length", off, 2, buf_len(nsb)))
        off = add(off, add(I(2), buf_len(nsb)))
        spec.append(("name length", off, 2, buf_len(bytes_norm(E, st, E.content(st, p.x["name"])))))
        prefix_lengths(A, "event-prefix", EVENT + "into_bytes", E, st, b, spec, p, name)
    A.need("event-prefix", 16)
    for adt, rule in (("bromine::events::error_event::ErrorEventData", "error-prefix"), ("bromine::events::payload::TandemPayload", "tandem-prefix")):
        for p in payload_paths(A, adt):
            if p.out != "ret" or not is_ok(p.value):
                continue
            E, st = p.E, p.st
            b = bytes_norm(E, st, E.content(st, inst(E, st, p.value[4][0])))
            n = buf_len(b)
            where = p.root
            if rule == "error-prefix":
                spec = [("message length", I(2), 4, sub(n, I(6)))]
            else:
                parts = [s for s in b[1] if s[0] == "raw"]
                first = int_of(slice_buf(b, I(0), I(8)) or EMPTY, "be")
                if first is None or len(parts) != 2:
                    if imprecise(b) and len(parts) != 2:
                        A.undecide(where, "the encoded parts are not known: %s" % show(b)[:200])
                        continue
                    A.violate(rule, where, "the parts are not encoded with a length each: %s" % show(b), rule, p)
                    continue
                l1, l2 = seg_len(parts[0]), seg_len(parts[1])
                spec = [("first length", I(0), 8, l1), ("second length", add(I(8), l1), 8, l2)]
            prefix_lengths(A, rule, where, E, st, b, spec, p, adt)
        A.need(rule, 1)
    for p, e in written_packages(A):
        E, st = p.E, p.st
        b = bytes_norm(E, st, as_buf(e.args[2]))
        prefix_lengths(A, "package-prefix", pos(e), E, st, b, [("package length", I(0), 4, sub(buf_len(b), I(4)))], p, "package")
    A.need("package-prefix", 1)


# ------------------------------------------------------------------ malformed input
PAYLOAD = "bromine::events::payload::"
FROM = PAYLOAD + "FromPayload"
INTO = PAYLOAD + "IntoPayload"
SERDE = PAYLOAD + "serde_payload::SerdePayload"
ERRORDATA = "bromine::events::error_event::ErrorEventData"
DYN = "bromine::events::payload_serializer::DynamicSerializer"


def from_input(v):
    """does a value depend on received bytes"""
    return mentions(v, lambda x: len(x) > 2 and x[0] == "t" and x[1] in ("rd", "available", "decrypt", "stream") or x in (sym("num"), sym("event")))


def robust(A, rule, ps, decodes=False):
    """no panic and no allocation that depends on unchecked received bytes"""
    for p in ps:
        if p.out == "panic":
            last = [e for e in p.ev if e.kind == "maypanic"][-1:]
            why = " ".join(str(a) if isinstance(a, str) else show(a)[:160] for a in last[0].args) if last else ""
            A.violate(rule, p.site or p.root, "received bytes can make it panic (%s)" % why, "%s:panic:%s" % (rule, fn_of(p.site or p.root)), p)
        for e in p.ev:
            if e.kind == "maypanic" and any(isinstance(a, tuple) and from_input(a) for a in e.args) and not (p.out == "panic" and e is [x for x in p.ev if x.kind == "maypanic"][-1]):
                A.violate(rule, pos(e), "received bytes can make it panic: %s" % ", ".join(str(a) if isinstance(a, str) else show(a)[:160] for a in e.args), "%s:maypanic:%s" % (rule, e.fn), p)
            elif e.kind == "proved" and any(isinstance(a, tuple) and from_input(a) for a in e.args):
                A.ok(rule)
            elif e.kind == "alloc" and from_input(e.args[0]):
                if e.args[1] == ("int", 1):
                    A.ok(rule + "-alloc", 1, show(e.args[0])[:120])
                elif imprecise(rewrite(e.args[0], lambda x: sym("number") if x[0] == "t" and x[1] == "rd" else x)):
                    A.undecide(pos(e), "size of an allocation: %s" % show(e.args[0])[:200])
                else:
                    A.violate(rule + "-alloc", pos(e), "%s bytes are allocated because the peer announced them" % show(e.args[0])[:200], "%s-alloc:%s" % (rule, e.fn), p)
        for e in p.ev:
            if e.kind == "unchecked" and from_input(e.args[0]):
                A.violate(rule, pos(e), "received bytes are taken as text without checking them", "%s:text:%s" % (rule, e.fn), p)
        if p.out == "ret" and isinstance(p.value, tuple) and is_ok(p.value) and decodes:
            bad = [e for e in p.ev if e.kind == "utf8err" and from_input(e.args[0])]
            if bad:
                A.violate(rule, pos(bad[0]), "received bytes that are not valid text are accepted", "%s:text:%s" % (rule, bad[0].fn), p)
        if p.out in ("ret", "cancelled", "loop"):
            A.ok(rule)


def c03(A):
    robust(A, "robust", decode_paths(A), True)
    for adt in (ERRORDATA, PAYLOAD + "BytePayload", PAYLOAD + "TandemPayload", SERDE):
        b = A.trait_body(FROM, adt, "from_payload")
        if b is not None:
            robust(A, "robust", A.run(b, [sym("reader")]), True)
    b = A.body(EVENT + "payload")
    if b is not None:
        robust(A, "robust", A.run(b, [("ref", ("c", sym("event")), (), False)]))
    b = A.body(DYN + "::from_primitive")
    if b is not None:
        robust(A, "robust", A.run(b, [sym("num")]))
    import r_crypt
    robust(A, "robust", r_crypt.stream_history(A))
    for p in r_crypt.exchanges(A, "server") + r_crypt.exchanges(A, "client"):
        robust(A, "robust", [p])
    A.need("robust", 200)
    A.need("robust-alloc", 1)
    truncated(A)


def read_past(E, q, s, lay):
    """does the path successfully read more than there is"""
    n = buf_len(lay)
    for e in q.ev:
        if e.kind == "read" and e.args[1] == STREAM and len(e.args) > 3:
            end = on_layout(E, s, all_of(inst(q.E, q.st, add(e.args[2], e.args[3])), STREAM, n), STREAM, lay)
            if imprecise(end) or E.ge0(s, sub(E.norm(s, end), add(n, I(1)))):
                return True
    return False


def truncated(A):
    """input that ends before what its lengths announce is an error"""
    dec = decode_paths(A)
    E = A.engine()
    ver = version_of(A) or bytes([0, 9, 0])
    data, txt3 = sym("data"), ("k", b"abc")

    def check(paths, what, where, lay):
        for q in paths:
            if q.out != "ret" or not is_ok(q.value):
                continue
            r = compatible(E, q, new_state(), lay)
            if r is None:
                continue
            if vague(A, q):
                continue
            A.violate("truncated", where, "%s is accepted: %s" % (what, show(on_layout(E, r[0], inst(q.E, q.st, q.value[4][0]), STREAM, r[1]))[:300]), "truncated:%s" % what, q)
            return
        A.ok("truncated", 1, what)

    start = [("k", ver), ("be", 8, sym("id"))]
    tag = [("k", b"\x00")]
    none, some = [("k", b"\x00")], [("k", b"\xff")]
    for what, h in (("a frame without a header", []),
                    ("a header that ends within the version", [("k", ver[:2])]),
                    ("a header that ends before the event id", [("k", ver)]),
                    ("a header that ends before the event type", start),
                    ("a header that ends before the reference", start + tag),
                    ("a header that ends before the reference id", start + tag + some),
                    ("a header that ends before the namespace", start + tag + none),
                    ("a header that ends within the namespace", start + tag + none + [("be", 2, I(7)), txt3]),
                    ("a header that ends before the name", start + tag + none + [("be", 2, I(0))]),
                    ("a header that ends before the name", start + tag + none + [("be", 2, I(3)), txt3]),
                    ("a header that ends within the name", start + tag + none + [("be", 2, I(0)), ("be", 2, I(5)), txt3]),
                    ("a header without the name it announces", start + tag + none + [("be", 2, I(0)), ("be", 2, I(5))])):
        check(dec, what, EVENT + "from_async_read", doc_frame(h, buf(("raw", data))))
    for q in dec:
        # a connection that ends in the middle of an event
        if io_failed(q) and q.out == "ret" and not vague(A, q):
            if is_ok(q.value):
                A.violate("truncated", EVENT + "from_async_read", "an event is returned although the stream ended before all of its bytes were read", "truncated:stream", q)
            else:
                A.ok("truncated")
    short = (("be", 8, I(5)), txt3)
    for adt, cases in ((ERRORDATA, (("an error payload that ends within the message", buf(("be", 2, I(7)), ("be", 4, I(5)), txt3)),
                                    ("an error payload without the message it announces", buf(("be", 2, I(7)), ("be", 4, I(5)))),
                                    ("an error payload without a message", buf(("be", 2, I(7)))))),
                       (PAYLOAD + "TandemPayload", (("a tandem payload without a second part", buf(("be", 8, I(3)), txt3)),
                                                    ("a tandem payload that ends within the first part", buf(*short)),
                                                    ("a tandem payload that ends within the second part", buf(("be", 8, I(3)), txt3, *short))))):
        b = A.trait_body(FROM, adt, "from_payload")
        if b is None:
            continue
        paths = A.run(b, [sym("reader")])
        for what, lay in cases:
            for q in paths:
                if q.out != "ret" or not is_ok(q.value):
                    continue
                r = compatible(E, q, new_state(), lay, whole=True)
                if r is None or read_past(E, q, r[0], r[1]) or vague(A, q):
                    continue
                A.violate("truncated", b["name"], "%s is accepted" % what, "truncated:%s" % what, q)
                break
            else:
                A.ok("truncated", 1, what)
    A.need("truncated", 12)


# ------------------------------------------------------------------ payload containers
def ok_value(p):
    return p.value[4][0] if p.out == "ret" and is_ok(p.value) else None


def layout_is(A, rule, p, E, st, b, want, what):
    b, want = bytes_norm(E, st, b), bytes_norm(E, st, want)
    if b == want:
        A.ok(rule, 1, "%s: %s" % (what, show(b)[:200]))
    elif imprecise_but(b, want):
        A.undecide(p.root, "the bytes of %s are not known: %s" % (what, show(b)[:200]))
    else:
        A.violate(rule, p.root, "%s is encoded as %s, documented is %s" % (what, show(b), show(want)), "%s:%s" % (rule, what), p)


def imprecise_but(b, want):
    """imprecise in other ways than what is expected"""
    known = set()
    for x in subterms(want):
        known.add(x)
    return mentions(b, lambda x: fuzzy(x) and x not in known)


def on_frame(A, adt, lay, what, rule, check):
    """the successful decoding paths of a payload type on a layout"""
    b = A.trait_body(FROM, adt, "from_payload")
    if b is None:
        return
    n = 0
    E = A.engine()
    for q in A.run(b, [sym("reader")]):
        if q.out != "ret":
            continue
        if any(e.kind == "readfail" for e in q.ev) or undecided_text(q):
            continue
        r = compatible(E, q, new_state(), lay)
        if r is None:
            continue
        s, lay2 = r
        v = inst(q.E, q.st, q.value)
        if is_err(v):
            if any(e.kind == "call" for e in q.ev) or mentions(v, lambda x: x[0] == "t" and x[1] in ("call", "ioerr", "ioerror", "?ioerr")) or any(
                    e.kind == "read" and e.args and e.args[0] == "to_end" and len(e.args) > 3 and mentions(e.args[3], lambda x: x[0] == "t" and x[1] == "available") for e in q.ev):
                continue     # the failure of a part, or of reading
            A.violate(rule, q.site or q.root, "%s is rejected when it is decoded: %s" % (what, show(v)), "%s:%s:rejected" % (rule, what), q)
            continue
        n += 1
        check(q, E, s, lay2, on_layout(E, s, v[4][0], STREAM, lay2))
    if n == 0:
        if A.undecided:
            A.undecide(b["name"], "no decoding path for %s" % what)
        else:
            A.violate(rule, b["name"], "no path decodes %s" % what, "%s:%s:none" % (rule, what))


def same_or(A, rule, q, E, s, what, got, want):
    if same_bytes(E, s, got, want):
        A.ok(rule, 1, "%s: %s" % (what, show(got)[:160]))
    elif imprecise_but(inst(E, s, got), want):
        A.undecide(q.root, "%s is not known: %s" % (what, show(inst(E, s, got))[:200]))
    else:
        A.violate(rule, q.root, "%s is %s, not %s" % (what, show(inst(E, s, got))[:300], show(want)[:300]), "%s:%s" % (rule, what), q)


def field_of(F, adt, name):
    for i, f in enumerate(F.adts[adt]["v"][0]["f"]):
        if (f.get("n") if isinstance(f, dict) else f[0] if isinstance(f, (list, tuple)) else f) == name:
            return i
    return None


def total_to_layout(v, n):
    """the rest of a stream is what the layout says"""
    return rewrite(v, lambda x: sub(n, x[3]) if x[0] == "t" and x[1] == "available" else x)


def c05(A):
    # raw bytes
    BP = PAYLOAD + "BytePayload"
    for p in payload_paths(A, BP):
        if ok_value(p) is None:
            continue
        for s, v in A.value_of(BP + "::into_bytes", p.st, sym("self")):
            layout_is(A, "raw", p, p.E, s, p.E.content(p.st, inst(p.E, p.st, ok_value(p))), p.E.content(s, inst(p.E, s, v)), "a raw payload")
    content = sym("content")
    for fn, arg in (("new", content), ):
        nb = A.body(BP + "::" + fn)
        if nb is not None:
            for p in A.run(nb, [arg], drive=False):
                for s, v in A.value_of(BP + "::into_inner", p.st, p.value) + A.value_of(BP + "::into_bytes", p.st, p.value):
                    same_or(A, "raw", p, p.E, s, "the content of a new raw payload", v, buf(("raw", content)))

    def chk(q, E, s, lay, v):
        for s2, w in A.value_of(BP + "::into_inner", s, total_to_layout(v, buf_len(lay))):
            w = on_layout(E, s2, total_to_layout(inst(E, s2, w), buf_len(lay)), STREAM, lay)
            same_or(A, "raw", q, E, s2, "a decoded raw payload", w, buf(("raw", content)))
    on_frame(A, BP, buf(("raw", content)), "a raw payload", "raw", chk)
    A.need("raw", 1)
    # errors
    fields = [f for f in ("code", "message")]
    ix = {f: field_of(A.F, ERRORDATA, f) for f in fields}
    if None in ix.values():
        A.violate("error", ERRORDATA, "the error payload has no public code and message", "error:fields")
    else:
        me = sym("self")
        code, msg = ("t", "f", me, ix["code"]), ("t", "f", me, ix["message"])
        for p in payload_paths(A, ERRORDATA):
            v = ok_value(p)
            if v is None:
                if p.out == "ret" and not any(mentions(c, lambda x: x[0] == "t" and x[1] == "len") for c in p.st.facts):
                    A.violate("error", p.root, "an error with a message of any length is rejected", "error:encode", p)
                continue
            c2, m2 = p.E.field(p.st, me, ("f", ix["code"], "code")), p.E.field(p.st, me, ("f", ix["message"], "message"))
            want = buf(("be", 2, c2), ("be", 4, raw_len(m2)), ("raw", m2))
            layout_is(A, "error", p, p.E, p.st, p.E.content(p.st, inst(p.E, p.st, v)), want, "an error payload")
        code, msg = sym("code"), sym("message")
        TYBITS[code] = 16
        E0 = A.engine()

        def chk(q, E, s, lay, v):
            same_or(A, "error", q, E, s, "the code of a decoded error", buf(("be", 2, E.field(s, v, ("f", ix["code"], "code")))), buf(("be", 2, code)))
            same_or(A, "error", q, E, s, "the message of a decoded error", E.field(s, v, ("f", ix["message"], "message")), buf(("raw", msg)))
        on_frame(A, ERRORDATA, buf(("be", 2, code), ("be", 4, raw_len(msg)), ("raw", msg)), "an error payload", "error", chk)
    A.need("error", 1)
    # tandem
    TP = PAYLOAD + "TandemPayload"
    nb = A.body(TP + "::new")
    b = A.trait_body(INTO, TP, "into_payload")
    l1, l2 = sym("first"), sym("second")
    if nb is not None and b is not None:
        for p0 in A.run(nb, [l1, l2], drive=False):
            for p in A.chain(p0, b, [p0.value, sym("ctx")], drive=False, label=b["name"]):
                v = ok_value(p)
                if v is None:
                    continue
                calls = {}
                for e in p.ev:
                    if e.kind == "call" and e.args[0].endswith("IntoPayload::into_payload"):
                        calls.setdefault(e.args[1][0], 0)
                        calls[e.args[1][0]] += 1
                got = bytes_norm(p.E, p.st, p.E.content(p.st, inst(p.E, p.st, v)))
                parts = [s for s in got[1] if s[0] == "raw"]
                frm = [[x for x in (l1, l2) if mentions(s, lambda y: y == x)] for s in parts]
                if calls.get(l1) != 1 or calls.get(l2) != 1:
                    A.violate("tandem", p.root, "the parts are encoded %s times" % list(calls.values()), "tandem:calls", p)
                elif frm == [[l1], [l2]]:
                    want = buf(("be", 8, seg_len(parts[0])), parts[0], ("be", 8, seg_len(parts[1])), parts[1])
                    layout_is(A, "tandem", p, p.E, p.st, got, want, "a tandem payload")
                elif imprecise_but(got, ("tuple",)) and len(parts) != 2:
                    A.undecide(p.root, "the bytes of a tandem payload are not known: %s" % show(got)[:200])
                else:
                    A.violate("tandem", p.root, "a tandem payload is encoded as %s" % show(got), "tandem:order", p)
    TYBITS[raw_len(sym("part1"))] = 63

    def chk(q, E, s, lay, v):
        for s2, w in A.value_of(TP + "::into_inner", s, v):
            w = on_layout(E, s2, inst(E, s2, w), STREAM, lay)
            for i, want in enumerate((sym("part1"), sym("part2"))):
                x = w[4][i] if w[0] == "agg" and len(w[4]) == 2 else None
                if x is None:
                    A.undecide(q.root, "decoded parts: %s" % show(w)[:200])
                    continue
                call = [y for y in subterms(x) if len(y) > 2 and y[0] == "t" and y[1] == "call" and str(y[2]).endswith("from_payload")]
                if not call:
                    A.violate("tandem", q.root, "part %d of a decoded tandem payload is %s" % (i + 1, show(x)[:300]), "tandem:decode", q)
                    continue
                arg = call[0][3][0]
                arg = arg[3] if arg[0] == "&" else arg
                same_or(A, "tandem", q, E, s2, "what part %d of a tandem payload is decoded from" % (i + 1), on_layout(E, s2, arg, STREAM, lay), buf(("raw", want)))
    p1, p2 = sym("part1"), sym("part2")
    on_frame(A, TP, buf(("be", 8, raw_len(p1)), ("raw", p1), ("be", 8, raw_len(p2)), ("raw", p2)), "a tandem payload", "tandem", chk)
    A.need("tandem", 1)
    # serde: the id and then the data, nothing else; which format it is is C06
    for p in serde_encodes(A):
        v = p.x["bytes"]
        if v is None:
            continue
        b = v[1]
        if len(b) == 2 and b[0][0] == "k" and len(b[0][1]) == 1 and b[1][0] == "raw" and p.x["crates"]:
            if mentions(b[1], lambda x: x == sym("data")):
                A.ok("serde", 1, show(v))
            else:
                A.violate("serde", p.root, "a serde payload does not contain the data it was created with: %s" % show(v), "serde:data", p)
        elif imprecise_but(v, ("tuple",)) and not p.x["crates"]:
            A.undecide(p.root, "the bytes of a serde payload are not known: %s" % show(v)[:200])
        else:
            A.violate("serde", p.root, "a serde payload is encoded as %s" % show(v), "serde:layout", p)
    for q in serde_decodes(A):
        if not q.x["crates"]:
            continue
        r = q.x["read"]
        subs = q.x["subs"]
        if r == ("int", 1) and subs and not all(x[3] == ("t", "available", STREAM, I(1)) for x in subs):
            if imprecise(subs[0][3]):
                A.undecide(q.root, "how much of the serialized data is read is not known")
            else:
                A.violate("serde", q.root, "only %s bytes of the serialized data are deserialized" % show(subs[0][3]), "serde:part", q)
        elif r == ("int", 1):
            A.ok("serde")
            if is_ok(q.value):
                for s2, w in A.value_of(SERDE + "::data", q.st, q.value[4][0]):
                    if mentions(w, lambda x: len(x) > 2 and x[0] == "t" and x[1] == "call" and str(x[2]).split("::")[0] in CRATES):
                        A.ok("serde")
                    else:
                        A.violate("serde", q.root, "the value of a decoded payload is %s" % show(w)[:200], "serde:value", q)
        elif r is None:
            A.undecide(q.root, "where the serialized data starts is not known")
        else:
            A.violate("serde", q.root, "the serialized data is read from offset %s instead of 1" % show(r), "serde:offset", q)
    A.need("serde", 4)


# ------------------------------------------------------------------ serialization formats
CRATES = ("rmp_serde", "bincode", "postcard", "serde_json")


def crates_of(p, since=0):
    out = []
    for e in p.ev[since:]:
        if e.kind == "call" and e.args[0].split("::")[0] in CRATES:
            out.append(e.args[0].split("::")[0])
    return out


def serde_encodes(A):
    """encoding a payload created with each of the serializers"""
    if "serde_enc" in A.cache:
        return A.cache["serde_enc"]
    out = A.cache["serde_enc"] = []
    nb = A.body(SERDE + "::new")
    b = A.trait_body(INTO, SERDE, "into_payload")
    if nb is None or b is None:
        return out
    for i, n in enumerate(variants_of(A.F, DYN)):
        for p0 in A.run(nb, [en.mk(DYN, i), sym("data")], drive=False):
            for p in A.chain(p0, b, [p0.value, ("ref", ("c", sym("ctx")), (), False)], drive=False, label=b["name"]):
                v = ok_value(p)
                p.x = {"variant": n, "index": i, "crates": crates_of(p), "bytes": bytes_norm(p.E, p.st, p.E.content(p.st, inst(p.E, p.st, v))) if v is not None else None}
                out.append(p)
    return out


def serde_decodes(A):
    if "serde_dec" in A.cache:
        return A.cache["serde_dec"]
    out = A.cache["serde_dec"] = []
    b = A.trait_body(FROM, SERDE, "from_payload")
    if b is None:
        return out
    for p in A.run(b, [sym("reader")]):
        rd, subs = None, []
        cs = crates_of(p)
        for e in p.ev:
            if e.kind == "call" and e.args[0].split("::")[0] in CRATES:
                a = e.args[1][0] if e.args[1] else ()
                subs = [x for x in subterms(a) if len(x) == 4 and x[0] == "sub" and x[1] == STREAM]
                if subs:
                    rd = subs[0][2]
                elif mentions(a, lambda x: x == sym("reader")):
                    rd = I(0)
                    for r in p.ev[:p.ev.index(e)]:
                        if r.kind == "read" and len(r.args) > 3 and r.args[1] == STREAM:
                            rd = add(r.args[2], r.args[3] if isinstance(r.args[3], tuple) else I(r.args[3]))
                break
        p.x = {"crates": cs, "read": rd, "subs": subs}
        out.append(p)
    return out


ID = ("t", "rd", STREAM, I(0), 1, "be")


def id_of(p):
    v = p.E.norm(p.st, ID)
    return v[1] if v[0] == "int" else None


def c06(A):
    ids = {}
    names = {}
    for cfg, sub_ in A.each_config():
        enabled = set(sub_.formats)
        enc = {}
        for p in serde_encodes(sub_):
            n, b, cs = p.x["variant"], p.x["bytes"], p.x["crates"]
            if p.out == "panic":
                A.violate("format", p.site or p.root, "serializing as %s panics with formats %s" % (n, cfg), "format:panic", p)
                continue
            if b is None:
                continue
            k = b[1][0][1][0] if b[1] and b[1][0][0] == "k" else None
            if k is None or len(set(cs)) != 1:
                if b[1] and imprecise(b) and not cs:
                    A.undecide(p.root, "format of a payload is not known: %s" % show(b)[:100])
                else:
                    A.violate("format", p.root, "with formats %s a payload created with %s is %s, serialized by %s" % (cfg, n, show(b), cs), "format:encode", p)
                continue
            c = cs[0]
            enc[n] = (k, c)
            if c not in enabled:
                continue
            if ids.setdefault(c, (k, cfg))[0] != k:
                A.violate("format-id", p.root, "%s has id %d with formats %s but %d with %s" % (c, k, cfg, ids[c][0], ids[c][1]), "format-id:differs", p)
            elif [d for d in ids if d != c and ids[d][0] == k]:
                A.violate("format-id", p.root, "id %d stands for more than one format: %s" % (k, sorted(d for d in ids if ids[d][0] == k)), "format-id:shared", p)
            else:
                A.ok("format-id")
            # a serializer is always the same format
            if names.setdefault(n, c) != c:
                A.violate("format", p.root, "the serializer %s uses %s with formats %s and %s otherwise" % (n, c, cfg, names[n]), "format:serializer", p)
        if set(c for k, c in enc.values()) != enabled and not sub_.undecided:
            A.violate("format", SERDE, "with formats %s enabled the ones that can be used are %s" % (cfg, sorted(c for k, c in enc.values())), "format:enabled")
        by_id = {k: c for k, c in enc.values()}
        hit = {}
        for q in serde_decodes(sub_):
            k, cs = id_of(q), set(q.x["crates"])
            if q.out == "panic":
                A.violate("format", q.site or q.root, "decoding a payload panics", "format:decode-panic", q)
                continue
            if cs:
                if k is None:
                    A.violate("format-decode", q.root, "with formats %s data is deserialized with %s whatever its format id is" % (cfg, sorted(cs)), "format-decode:any", q)
                elif cs != {by_id.get(k)}:
                    A.violate("format-decode", q.root, "with formats %s data with format id %d is serialized with %s but deserialized with %s" % (cfg, k, by_id.get(k), sorted(cs)), "format-decode:other", q)
                else:
                    A.ok("format-decode", 1, "[%s] id %d: %s" % (cfg, k, by_id[k]))
                    hit[k] = True
            elif q.out == "ret" and is_ok(inst(q.E, q.st, q.value)):
                A.violate("format-decode", q.root, "a payload is decoded without deserializing it", "format-decode:none", q)
        for k in by_id:
            if k not in hit and not sub_.undecided:
                A.violate("format-decode", SERDE, "with formats %s a payload with format id %d cannot be decoded" % (cfg, k), "format-decode:missing")
        # the default format
        b = sub_.body(DYN + "::first_available")
        if b is not None:
            for p in sub_.run(b, []):
                n = vname(sub_.F, p.value) if p.out == "ret" else None
                if n in enc and enc[n][1] in enabled:
                    A.ok("format-default", 1, "[%s] %s" % (cfg, n))
                elif p.out == "ret" and n is None:
                    sub_.undecide(b["name"], "default format %s" % show(p.value))
                else:
                    A.violate("format-default", b["name"], "with formats %s the default format is %s" % (cfg, n), "format-default", p)
        # plain values use the serializer of the context
        b = sub_.body("bromine::ipc::context::Context::create_serde_payload")
        ix = field_of(sub_.F, "bromine::ipc::context::Context", "default_serializer")
        tb = sub_.trait_body(INTO, SERDE, "into_payload")
        if b is not None and ix is not None and tb is not None:
            ctx = sym("ctx")
            for i, n in enumerate(variants_of(sub_.F, DYN)):
                def setup(E, st, i=i):
                    st.ref[E.field(st, ctx, ("f", ix, "default_serializer"))] = en.mk(DYN, i)
                    return [("ref", ("c", ctx), (), False), sym("data")]
                for p0 in sub_.run(b, setup=setup, drive=False):
                    for p in sub_.chain(p0, tb, [p0.value, ("ref", ("c", sym("ctx2")), (), False)], drive=False, label=b["name"]):
                        v = ok_value(p)
                        if v is None:
                            continue
                        w = bytes_norm(p.E, p.st, p.E.content(p.st, inst(p.E, p.st, v)))
                        k = w[1][0][1][0] if w[1] and w[1][0][0] == "k" else None
                        if n in enc and k == enc[n][0]:
                            A.ok("format-context")
                        elif k is None:
                            sub_.undecide(b["name"], "format of %s" % show(w)[:100])
                        else:
                            A.violate("format-context", b["name"], "a payload created by a context with serializer %s has format id %s" % (n, k), "format-context", p)
    A.need("format-id", len(CRATES))
    A.need("format-decode", len(CRATES))
    A.need("format-default", 1)
    A.need("format-context", 1)
