"""The encrypted connection: histories of polling it, key exchange, nonces."""
from core import *
from samples import differ, exceeds

ENC = "bromine::protocol::encrypted::"
STREAM = ENC + "EncryptedStream"
READBUF = "tokio::io::read_buf::ReadBuf"
ASYNC_READ = "tokio::io::async_read::AsyncRead"
ASYNC_WRITE = "tokio::io::async_write::AsyncWrite"


def shape(E, st, v, depth=14, seen=()):
    """what distinguishes states of a connection: variants, suspended futures, empty or filled buffers"""
    if depth == 0 or not isinstance(v, tuple) or not v:
        return "…"
    if v[0] in ("t", "lin"):
        v = E.norm(st, v)
    k = v[0]
    if k == "agg":
        if v[2] == "atomic":
            return "counter"
        if v[1] == "lazy":
            return ("lazy", shape(E, st, v[2], depth - 1, seen), tuple((i, shape(E, st, x, depth - 1, seen)) for i, x in v[4]))
        return (v[1], str(v[2])[:80], v[3], tuple(shape(E, st, x, depth - 1, seen) for x in v[4]))
    if k in ("ref", "box", "arc"):
        a = v[1]
        if a in seen:
            return "rec"
        try:
            x = E.at(st, v)
        except Exception:
            return k
        return (k, shape(E, st, x, depth - 1, seen + (a,)))
    if k == "cosusp":
        return ("susp", v[2], v[3], tuple((i, shape(E, st, st.mem[a], 6, seen + (a,))) for i, a in enumerate(sorted((x for x in st.mem if x[0] == "l" and x[1] == v[1] and st.mem[x][0] in ("fut", "cosusp")), key=repr))))
    if k == "buf":
        n = buf_len(v)
        if E.norm(st, n) == ("int", 0):
            return "empty"
        return "bytes"
    if k == "fut":
        return ("fut", v[1], len(v) > 3)
    if k in ("moved", "uninit", "codone", "corun"):
        return k
    if k == "int":
        return v
    return "t"


class Node:
    def __init__(self, p, me, ops, shape):
        self.p = p            # the analysed path that leads here
        self.me = me          # reference to the connection
        self.ops = ops        # [(operation, poll result)]
        self.shape = shape


def exact(E):
    E.exact_atomics = True


def traced(E):
    E.tracing = True


def stream_history(A, sized=False, logs=False):
    """typestate exploration: every operation in every distinguishable state of an encrypted connection.
    Returns one analysed path per explored transition, with x = (operations so far, state it started in).
    sized: the pieces of data are smaller than 1 MiB and counters are followed exactly
    logs: log messages are enabled"""
    key = "history%d" % sized + "logs" * logs
    if key in A.cache:
        return A.cache[key]
    out = []
    A.cache[key] = out
    new = A.body(STREAM + "::new")
    rd = A.trait_body(ASYNC_READ, STREAM, "poll_read")
    wr = A.trait_body(ASYNC_WRITE, STREAM, "poll_write")
    fl = A.trait_body(ASYNC_WRITE, STREAM, "poll_flush")
    sh = A.trait_body(ASYNC_WRITE, STREAM, "poll_shutdown")
    if None in (new, rd, wr, fl, sh):
        return out
    # an operation that AsyncWrite has a default for, should the crate have its own
    wv = A.trait_body(ASYNC_WRITE, STREAM, "poll_write_vectored", must=False)
    wv = (wv, ()) if wv is not None else None
    tweak = exact if sized else traced if logs else None
    start = [p for p in A.run(new, [sym("inner"), sym("secret")], drive=False, tweak=tweak) if p.out == "ret"]
    todo = []
    seen = {}
    for p in start:
        st = p.st
        a = p.E.new_alloc(st, p.value)
        me = ("ref", a, (), True)
        todo.append(Node(p, me, (), shape(p.E, st, p.value)))
        for i, f in enumerate(p.value[4] if wv is None and p.value[0] == "agg" and p.value[1] == "adt" else ()):
            # the half of it that is written to
            if isinstance(f, tuple) and f[0] == "agg" and f[1] == "adt":
                b = A.trait_body(ASYNC_WRITE, f[2], "poll_write_vectored", must=False)
                wv = (b, (("f", i, A.F.adts[p.value[2]]["v"][0]["f"][i]["n"]),)) if b is not None else wv
    depth = 8 if A.deep else 5
    limit = 6000 if A.deep else 700
    often = 6 if A.deep and sized else 2 if sized else 1
    n = 0
    while todo and n < limit:
        node = todo.pop(0)
        if seen.get(node.shape, 0) >= often:
            continue
        seen[node.shape] = seen.get(node.shape, 0) + 1
        if len(node.ops) >= depth:
            continue
        for op, body in (("write", wr), ("flush", fl), ("read", rd), ("shutdown", sh)) + ((("writev", wv[0]),) if wv is not None and len(node.ops) < 2 else ()):
            if len(node.ops) > 2 and any(o[0] == "writev" for o in node.ops):
                continue
            n += 1
            st = node.p.st.copy()
            st.task = 0
            args = [node.me, ("t", "cx")]
            if op == "writev":
                args[0] = ("ref", node.me[1], node.me[2] + wv[1], True)
            arg = None
            k = len(node.ops)
            if op == "write":
                arg = sym("%s%d" % ("data" if sized else "long", k))
                if sized:
                    TYBITS[raw_len(arg)] = 20
                args.append(("ref", ("c", arg), (), False))
            elif op == "writev":
                parts = [sym("%s%d.%d" % ("data" if sized else "long", k, i)) for i in range(2)]
                if sized:
                    for x in parts:
                        TYBITS[raw_len(x)] = 20
                arg = buf(*(("raw", x) for x in parts))
                args.append(("ref", ("c", ("agg", "array", None, 0, tuple(("ref", ("c", x), (), False) for x in parts))), (), False))
            elif op == "read":
                cap = sym("%s%d" % ("cap" if sized else "room", k))
                if sized:
                    TYBITS[cap] = 20
                # the reader's buffer may already hold something
                had = sym("had%d" % k)
                if sized:
                    TYBITS[raw_len(had)] = 20
                arg = node.p.E.new_alloc(st, ("agg", "adt", READBUF, 0, (buf(("raw", had)), add(cap, raw_len(had)))))
                args.append(("ref", arg, (), True))
            for q in A.run(body, args, st=st, drive=False, tweak=tweak, label="EncryptedStream poll_%s" % op):
                if op == "writev" and any(e.kind == "loop" and e.args[2] == 2 for e in q.ev[len(node.p.ev):]):
                    continue
                v = inst(q.E, q.st, q.value) if q.out == "ret" else None
                ops = node.ops + ((op, arg, q.out, v),)
                q.x = (ops, node)
                q.since = len(node.p.ev)
                out.append(q)
                if q.out == "ret":
                    s = shape(q.E, q.st, q.E.at(q.st, node.me))
                    if seen.get(s, 0) < often:
                        todo.append(Node(q, node.me, ops, s))
    A.cache["shapes"] = len(seen)
    if todo and n >= limit:
        A.undecide(STREAM, "more than %d states of an encrypted connection" % limit)
    return out


def ops_text(p):
    return ", ".join("%s: %s" % (o[0], o[2] if o[3] is None else show(o[3])[:60]) for o in p.x[0])


def package_writes(A):
    """what is written to the connection below an encrypted connection"""
    out = []
    seen = set()
    for p in stream_history(A):
        for e in p.ev:
            if e.kind == "written" and (e.fn, e.span, e.args[2]) not in seen:
                seen.add((e.fn, e.span, e.args[2]))
                out.append((p, e))
    return out


# ------------------------------------------------------------------ packages
def bare(v):
    """a value without the conversions around it"""
    while isinstance(v, tuple) and len(v) > 2 and v[0] == "t" and v[1] in ("into", "from"):
        v = v[-1]
    return v


def sealed(s):
    """the encryption a segment of bytes is all of"""
    v = bare(s[1]) if s[0] == "raw" else None
    return v if v is not None and v[:2] == ("t", "encrypt") else None


def package_of(b):
    """the encryption that is the content of a package, None if the bytes are not one package"""
    if len(b[1]) == 2 and b[1][0][0] in ("be", "le"):
        return sealed(b[1][1])
    return None


def opened(s):
    """(decryption, offset, length) a segment of delivered bytes is part of"""
    if s[0] == "raw":
        v = bare(s[1])
        if v[:2] == ("t", "decrypt"):
            return v, I(0), seg_len(s)
    if s[0] == "sub":
        v = bare(s[1])
        if v[:2] == ("t", "decrypt"):
            return v, s[2], s[3]
    return None


def ready_result(v):
    """the result inside of a poll that is ready"""
    if v is not None and is_variant(v, en.POLL, 0):
        return v[4][0]
    return None


def is_pending(v):
    return v is not None and is_variant(v, en.POLL, 1)


def c25(A):
    for p in stream_history(A):
        op, arg, out, v = p.x[0][-1]
        delivered = False
        failed = False
        for e in p.ev[p.since:]:
            if e.kind == "written":
                b = as_buf(e.args[2])
                if package_of(b) is not None:
                    A.ok("sealed", 1, show(b)[:200])
                elif imprecise_part(b):
                    A.undecide(pos(e), "what is written is not known: %s" % show(b)[:200])
                else:
                    A.violate("sealed", pos(e), "an encrypted connection writes %s, which is not a package created by the cipher" % show(b)[:300], "sealed:%s" % e.fn, p)
            elif e.kind == "deliver":
                delivered = delivered or bytes_norm(p.E, p.st, as_buf(e.args[0])) != EMPTY
                for s in as_buf(e.args[0])[1]:
                    if opened(s) is not None:
                        A.ok("opened", 1, show(e.args[0])[:200])
                    elif s[0] == "raw" and mentions(s, lambda x: x[:2] == ("t", "slice")) and mentions(s, lambda x: x[:2] == ("t", "decrypt")):
                        A.undecide(pos(e), "what is delivered is not known: %s" % show(s)[:200])
                    else:
                        A.violate("opened", pos(e), "bytes that were not decrypted are delivered: %s" % show(e.args[0])[:300], "opened:%s" % e.fn, p)
            elif e.kind == "rawread":
                A.violate("opened", pos(e), "bytes of the underlying connection are handed to the reader as they are", "opened:raw:%s" % e.fn, p)
            elif e.kind == "decryptfail":
                failed = True
        r = ready_result(v) if out == "ret" else None
        here = set(e.kind for e in p.ev[p.since:])
        if op == "read" and r is not None and is_ok(r) and not delivered and "read" in here:
            if here & set(("decrypt", "readfail", "framefail", "call", "usercall")):
                A.ok("authenticated")
            else:
                A.violate("authenticated", p.root, "reading completes with what was received although the cipher authenticated nothing (%s)" % ops_text(p), "authenticated", p)
        if failed and out == "ret":
            r = ready_result(v)
            if r is not None and is_err(r) and not delivered:
                A.ok("forged")
            else:
                A.violate("forged", p.root, "a package that fails to decrypt does not end in an error (%s)" % ops_text(p), "forged", p)
    A.need("sealed", 4)
    A.need("opened", 2)
    A.need("forged", 1)
    # during the key exchange only public keys are sent as they are
    for side in ("server", "client"):
        for p in exchanges(A, side):
            for e in p.ev:
                if e.kind != "written":
                    continue
                b, enc = as_buf(e.args[2]), secure(e)
                if enc:
                    A.ok("exchange-sends")
                elif is_public_key(b):
                    A.ok("exchange-sends", 1, show(b))
                elif package_of(b) is not None:
                    A.ok("exchange-sends")
                elif imprecise_part(b):
                    A.undecide(pos(e), "what is sent in the key exchange is not known: %s" % show(b)[:200])
                else:
                    A.violate("exchange-sends", pos(e), "%s is sent in the key exchange without encryption" % show(b)[:200], "exchange-sends:%s" % side, p)
    A.need("exchange-sends", 3)
    # and whatever was received with the key exchange is not delivered later
    for side in ("server", "client"):
        for p in exchanges(A, side):
            s = established(p)
            if s is not None and not clean(p, s):
                A.violate("exchange-clean", p.root, "an established connection contains data from before the keys were exchanged", "exchange-clean:%s" % side, p)
            elif s is not None:
                A.ok("exchange-clean")
    A.need("exchange-clean", 1)


def imprecise_part(b):
    return mentions(b, lambda x: len(x) > 1 and x[0] == "t" and x[1] in IMPRECISE and x[1] not in ("call", "slice"))


def c26(A):
    # every nonce contains the whole of a number that is different each time
    n = 0
    for p in stream_history(A):
        for e in p.ev[p.since:]:
            if e.kind not in ("encrypt", "decrypt"):
                continue
            nonce = as_buf(e.args[1])
            why = varying(p, e, nonce)
            if why is None:
                A.ok("nonce-counts", 1, "%s: %s" % (e.kind, show(nonce)[:160]))
            elif why == "?":
                A.undecide(pos(e), "nonce %s" % show(nonce)[:200])
            else:
                A.violate("nonce-counts", pos(e), "the nonce %s %s" % (show(nonce)[:200], why), "nonce-counts:%s" % e.kind, p)
    A.need("nonce-counts", 4)
    # in sequence
    both = []
    for p in stream_history(A, True) + rekeyed(A):
        sent, got, broken, refused = {}, {}, False, []
        for e in p.ev:
            if e.kind == "encrypt":
                k, nonce = e.args[0], as_buf(e.args[1])
                l = sent.setdefault(k, [])
                if nonce in l:
                    A.violate("nonce-once", pos(e), "two packages are encrypted with the nonce %s and the same key (%s)" % (show(nonce), ops_text(p)), "nonce-once", p)
                else:
                    A.ok("nonce-once")
                l.append(nonce)
            elif e.kind == "decrypt":
                got.setdefault(e.args[0], []).append(as_buf(e.args[1]))
                first = next((x for x in refused if x.args[2] == e.args[2] and as_buf(x.args[1]) != as_buf(e.args[1])), None)
                if first is not None and not imprecise(e.args[2]):
                    A.violate("nonce-sequence", pos(e), "a package that was not sent with the nonce expected next (%s) is tried again with %s" % (show(first.args[1])[:120], show(e.args[1])[:120]), "nonce-sequence:retry", p)
            elif e.kind == "decryptfail":
                refused.append(e)
            elif e.kind == "encryptfail":
                broken = True
        for k in sent:
            if k in got and not broken:
                a, b = sent[k], got[k]
                m = min(len(a), len(b))
                if imprecise((tuple(a), tuple(b))) and a[:m] != b[:m]:
                    A.undecide(p.root, "nonces %s / %s" % (show(a[0]), show(b[0])))
                elif a[:m] == b[:m]:
                    A.ok("nonce-sequence")
                    both.append((p, k, a, b))
                elif set(a) & set(b):
                    A.violate("nonce-sequence", p.root, "packages are sent with the nonces %s but expected with %s" % ([show(x) for x in a[:m]], [show(x) for x in b[:m]]), "nonce-sequence", p)
    A.need("nonce-once", 20)
    A.need("nonce-sequence", 4)
    if both:
        p, k, a, b = both[0]
        A.violate("nonce-directions", STREAM, "packages in both directions of a connection are encrypted with the same key, and the nonces of each direction start at the same number: %s" % show(a[0]), "nonce-directions", p)
    for side in ("server", "client"):
        for p in exchanges(A, side):
            s = established(p)
            if s is None:
                continue
            first = [e for e in p.ev if e.kind == "cipher"][:1]
            if first and not mentions(first[0].args[0], lambda x: x[:2] == ("t", "random")):
                A.violate("nonce-handshake", pos(first[0]), "the key the session key is sent with depends on the long-term keys only, so every connection of the same peers sends it with the same key and nonce", "nonce-handshake", p)
            # a connection starts to count again: its key must be a new one
            if side == "server":
                for k in final_keys(s):
                    if mentions(k, lambda x: x[:2] == ("t", "random")):
                        A.ok("nonce-session", 1, show(k)[:160])
                    elif imprecise(k) or mentions(k, lambda x: x[:2] == ("t", "weakrandom")):
                        A.undecide(p.root, "session key %s" % show(k)[:160])
                    else:
                        A.violate("nonce-session", p.root, "the key of a connection (%s) contains nothing new, so connections of the same peers use the same key, and each starts with the same nonce" % show(k)[:160], "nonce-session", p)
            # nonces only restart with a new key, and for both directions
            zero = counters(p, s)
            if zero is None or any(c[0] != "int" for c in zero):
                A.undecide(p.root, "the counters of an established connection are not known")
            elif len(set(zero)) == 1:
                A.ok("nonce-restart")
            else:
                A.violate("nonce-restart", p.root, "after the key exchange the counters of an established connection are %s" % [show(c) for c in zero], "nonce-restart:%s" % side, p)
            keys = final_keys(s)
            if len(keys) == 1:
                A.ok("nonce-rekey")
            elif keys:
                A.violate("nonce-rekey", p.root, "the two directions of an established connection use different keys: %s" % [show(k)[:100] for k in keys], "nonce-rekey:%s" % side, p)
            else:
                A.undecide(p.root, "the key of an established connection is not known")
    A.need("nonce-restart", 1)
    A.need("nonce-rekey", 1)
    A.need("nonce-session", 1)
    # changing the key continues counting the same way on the sending and the receiving side
    both = restarts(A)
    for n in sorted(set(both["encrypt"]) & set(both["decrypt"])):
        for x, at in both["encrypt"][n]:
            for y, _ in both["decrypt"][n]:
                if x == y:
                    A.ok("nonce-update", 1, "after %d packages: %s" % (n, show(x)))
                elif imprecise((x, y)):
                    A.undecide(at, "nonces after changing the key: %s / %s" % (show(x)[:100], show(y)[:100]))
                else:
                    A.violate("nonce-update", at, "after %d packages and a change of the key the sender continues with the nonce %s, the receiver with %s" % (n, show(x)[:100], show(y)[:100]), "nonce-update", p)
    A.need("nonce-update", 1)


def varying(p, e, nonce):
    """why a nonce is not different each time; None if it is"""
    whole, part = [], []
    for s in nonce[1]:
        if s[0] in ("be", "le"):
            u = [x for x in subterms(s[2]) if x[:2] == ("t", "?atomic") or x[:2] == ("t", "random")]
            if s[2] in u and s[1] >= 8 or any(s[2] == add(x, I(c)) for x in u for c in (1, -1)) and s[1] >= 8:
                whole.append(s[2])
            elif u:
                part.append(s)
        elif s[0] == "sub" and s[1][:2] == ("t", "enc"):
            part.append(s)
        elif s[0] in ("raw", "sub"):
            if s[1][:2] == ("t", "random"):
                whole.append(s[1])
            else:
                part.append(s)
    for s in nonce[1]:
        # a range of an encoded number that covers all of it
        if s[0] == "sub" and s[1][:2] == ("t", "enc") and s[2] == ("int", 0) and s[3] == I(s[1][3]):
            whole.append(s[1][4])
    if not whole:
        if not part:
            k = [s for s in nonce[1] if s[0] == "k"]
            return "is the same for every package" if len(k) == len(nonce[1]) and k and not concrete_counter(p, e) else "?" if not k else None
        if all(clamped(p, s) for s in part):
            return "contains the number of the package only up to a limit, so it repeats"
        if limited(part):
            return "contains only a part of the number of the package, so it repeats"
        if all(s[0] == "sub" and s[1][:2] == ("t", "enc") or mentions(s, lambda x: x[:2] == ("t", "trunc")) for s in part):
            return "contains only a part of the number of the package, so it repeats"
        return "?"
    steps = [x for x in p.ev if x.kind == "atomic" and x.args[3] in whole]
    for x in steps:
        if x.args[0] == "load" or x.args[0] == "fetch_add" and x.args[2][0] == ("int", 0):
            return "uses a number that does not change (%s)" % x.args[0]
    return None


def clamped(p, s):
    """is a part of a nonce the smaller one of a number of packages, which nothing else limits, and a fixed one"""
    v = s[2] if s[0] in ("be", "le") else s[1][4] if s[0] == "sub" and s[1][:2] == ("t", "enc") else None
    if v is None or v[0] != "t" or v[1] != "min" or len(v) != 4:
        return False
    n = [x for x in v[2:] if x[0] == "int"]
    c = [x for x in v[2:] if x[:2] == ("t", "?atomic")]
    return len(n) == 1 and n[0][1] < 1 << 60 and len(c) == 1 and not any(mentions(f, lambda x: x == c[0]) and not mentions(f, lambda x: x == v) for f in p.st.facts)


def limited(parts):
    """is all that parts of a nonce say about a number a few of its bits"""
    bits = 0
    for s in parts:
        found = []

        def cut(x):
            if len(x) == 4 and x[0] == "t" and x[1] in ("and", "rem") and x[2][0] == "t" and x[2][1] == "?atomic" and x[3][0] == "int":
                found.append(x[3][1] if x[1] == "and" else (1 << max(x[3][1] - 1, 1).bit_length()) - 1)
                return I(0)
            return x
        if mentions(rewrite(s, cut), lambda x: x[:2] in (("t", "?atomic"), ("t", "random"))) or not found:
            return False
        for m in found:
            bits |= m
    return bits & (2 ** 64 - 1) != 2 ** 64 - 1


def concrete_counter(p, e):
    """a nonce that is a known number: it has to be another one when the operation is repeated, which the sequences show"""
    return True


def rekeyed(A):
    """paths on which packages are sent and received before and after the key was changed"""
    if "rekeyed" in A.cache:
        return A.cache["rekeyed"]
    out = A.cache["rekeyed"] = []
    upd = A.body(STREAM + "::update_key", must=False)
    if upd is None:
        return out
    wr = A.trait_body(ASYNC_WRITE, STREAM, "poll_write")
    rd = A.trait_body(ASYNC_READ, STREAM, "poll_read")
    for p in stream_history(A, True):
        ops, node = p.x
        if len(ops) > 3 or p.out != "ret" or not all(o[2] == "ret" and ready_result(o[3]) is not None and is_ok(ready_result(o[3])) for o in ops):
            continue
        if ops[-1][0] not in ("flush", "read") or not any(e.kind in ("encrypt", "decrypt") for e in p.ev):
            continue
        if any(e.kind == "pending" for e in p.ev):
            continue   # changing the key while a package is on its way is not defined
        st = p.st.copy()
        st.task = 0
        for q in A.run(upd, [node.me, sym("newkey")], st=st, drive=False, tweak=exact):
            if q.out != "ret":
                continue
            for op, body in (("write", wr), ("read", rd)):
                st2 = q.st.copy()
                d = sym("later")
                TYBITS[d if op == "read" else raw_len(d)] = 20
                if op == "write":
                    arg = ("ref", ("c", d), (), False)
                else:
                    arg = ("ref", q.E.new_alloc(st2, ("agg", "adt", READBUF, 0, (EMPTY, d))), (), True)
                for r in A.run(body, [node.me, ("t", "cx"), arg], st=st2, drive=False, tweak=exact, label="EncryptedStream poll_%s" % op):
                    if r.out == "ret":
                        r.x = (ops + (("update_key", None, "ret", None), (op, d, "ret", r.value)), node)
                        r.since = len(q.ev)
                        out.append(r)
    return out


def restarts(A):
    """where the nonces of sending and of receiving continue after the key was changed, by how many packages there were before"""
    out = {"encrypt": {}, "decrypt": {}}
    for p in rekeyed(A):
        for kind in out:
            n = len([e for e in p.ev[:p.since] if e.kind == kind])
            for e in p.ev[p.since:]:
                if e.kind == kind:
                    out[kind].setdefault(n, set()).add((as_buf(e.args[1]), pos(e)))
                    break
    return out


# ------------------------------------------------------------------ bytes in and out
def cut_prefix(E, st, whole, part):
    """the rest of whole after part; None if part is not how it starts"""
    whole, part = bytes_norm(E, st, resolve(E, st, whole)), bytes_norm(E, st, resolve(E, st, part))
    n = buf_len(part)
    g = lambda l: E.ge0(st, l)
    head = slice_buf(whole, I(0), n, g)
    if head is None or bytes_norm(E, st, head) != part:
        return None
    rest = slice_buf(whole, n, buf_len(whole), g)
    return bytes_norm(E, st, rest) if rest is not None else None


def learn(E, st):
    """the state with what it knows also said about values without the conversions around them"""
    s = st.copy()
    s.facts = dict(s.facts)
    for f, v in list(s.facts.items()):
        g = rewrite(f, bare)
        if g != f:
            s.facts[g] = v
    s.ref = dict(s.ref)
    for t, v in list(s.ref.items()):
        if t[0] in ("t", "lin") and v[0] in ("t", "lin", "int"):
            g, w = rewrite(t, bare), rewrite(v, bare)
            if g != t and g != w:
                s.ref.setdefault(g, w)
    return s


def c31(A):
    for p, long in [(p, False) for p in stream_history(A, True)] + [(p, True) for p in stream_history(A)]:
        E, st = p.E, p.st
        ops, node = p.x
        if p.out != "ret":
            continue
        op, arg, out, v = ops[-1]
        failed = [e for e in p.ev if e.kind in ("writefail", "encryptfail", "framefail") or (e.kind == "ready" and str(e.args[0]) == "flush" and is_err(e.args[2]))]
        acc = EMPTY
        known = True
        for o in ops:
            if not o[0].startswith("write"):
                continue
            r = ready_result(o[3])
            if r is None or not is_ok(r):
                continue
            n = E.norm(st, r[4][0])
            given = buf(("raw", o[1])) if o[0] == "write" else o[1]
            b = slice_buf(given, I(0), n, lambda l: E.ge0(st, l))
            if b is None:
                known = False
                if E.ge0(st, sub(n, add(buf_len(given), I(1)))):
                    A.violate("write-count", p.root, "%s bytes are reported as written of %s" % (show(n), show(buf_len(given))), "write-count", p)
                break
            acc = buf(*(acc[1] + b[1]))
        if not known:
            A.undecide(p.root, "how much is accepted is not known")
            continue
        sent = EMPTY
        order = [e.args[1:] for e in p.ev if e.kind == "encrypt"]
        packs = []
        for e in p.ev:
            if e.kind == "written":
                x = package_of(as_buf(e.args[2]))
                if x is None:
                    known = False
                else:
                    packs.append((x[3], x[4]))
                    sent = buf(*(sent[1] + as_buf(x[4])[1]))
        if not known:
            continue        # C25 reports it
        if [o for o in order if o in packs] != packs:
            A.violate("written-order", p.root, "packages are written in another order than they were encrypted in (%s)" % ops_text(p), "written-order", p)
        if failed:
            A.ok("written-failed")
            # after a failure nothing is sent a second time
            if len(set(packs)) != len(packs):
                A.violate("written-once", p.root, "a package is sent twice (%s)" % ops_text(p), "written-once", p)
            continue
        rest = cut_prefix(E, st, acc, sent)
        if rest is None:
            if imprecise_part(sent) or mentions(sent, lambda x: x[:2] == ("t", "slice")) or not differ(st, acc, sent):
                if not long:
                    A.undecide(p.root, "what was sent is not known: %s" % show(sent)[:300])
            else:
                A.violate("written-once", p.root, "%s was accepted, but %s is sent (%s)" % (show(acc)[:300], show(sent)[:300], ops_text(p)), "written-once", p)
            continue
        A.ok("written-once", 1, "%s: %s" % (ops_text(p), show(sent)[:120]))
        if long:
            continue        # what is left is only followed exactly for small data
        reported = any(o[0] != "read" and ready_result(o[3]) is not None and is_err(ready_result(o[3])) for o in ops)
        if rest != EMPTY and not reported:
            if all(kept(st, node.me, s[1]) for s in whole_of(rest)):
                A.ok("kept")
            elif E.norm(st, buf_len(rest)) != I(0) and differ(st, rest, EMPTY, False):
                A.violate("kept", p.root, "%s was accepted, but neither sent nor kept (%s)" % (show(rest)[:200], ops_text(p)), "kept:write", p)
        r = ready_result(v)
        if op in ("flush", "shutdown") and r is not None and is_ok(r):
            last = [i for i, e in enumerate(p.ev) if e.kind == "written"][-1:]
            if rest != EMPTY and differ(st, rest, EMPTY, False):
                A.violate("flushed", p.root, "%s completes while %s was not sent (%s)" % (op, show(rest)[:200], ops_text(p)), "flushed:%s" % op, p)
            elif last and not any(e.kind == "flushed" and e.args[0] != "shutdown" for e in p.ev[last[0]:]):
                A.violate("flushed", p.root, "%s completes without flushing the connection below (%s)" % (op, ops_text(p)), "flushed:below:%s" % op, p)
            else:
                A.ok("flushed")
            if op == "shutdown":
                if any(e.kind == "flushed" and e.args[0] == "shutdown" for e in p.ev[p.since:]):
                    A.ok("shut")
                else:
                    A.violate("shut", p.root, "shutting down does not shut down the connection below", "shut", p)
    A.need("written-once", 50)
    A.need("flushed", 10)
    for p in stream_history(A, True):
        E, st = p.E, p.st
        ops, node = p.x
        if p.out != "ret":
            continue
        dec, got = EMPTY, EMPTY
        forged = [e.args[:3] for e in p.ev if e.kind == "decryptfail"]
        for e in p.ev:
            if e.kind == "decrypt" and e.args[:3] not in forged:
                dec = buf(*(dec[1] + (("raw", ("t", "decrypt") + e.args[:3]),)))
            elif e.kind == "deliver":
                got = buf(*(got[1] + rewrite(as_buf(e.args[0]), bare)[1]))
        if got == EMPTY:
            continue
        # the state may know things about lengths with the conversions still in them
        rest = cut_prefix(E, learn(E, st), rewrite(dec, bare), got)
        if rest is not None:
            A.ok("read-once", 1, "%s: %s" % (ops_text(p), show(got)[:120]))
            if rest != EMPTY and p.out == "ret":
                if all(kept(st, node.me, s[1]) for s in whole_of(rest)):
                    A.ok("kept")
                elif E.norm(st, buf_len(rest)) != I(0) and differ(learn(E, st), rest, EMPTY, False):
                    A.violate("kept", p.root, "the reader got %s, the rest of the decrypted bytes %s is not kept (%s)" % (show(got)[:200], show(dec)[:200], ops_text(p)), "kept", p)
        elif mentions(got, lambda x: x[:2] == ("t", "slice")) or imprecise_part(got) or not differ(learn(E, st), rewrite(dec, bare), got):
            A.undecide(p.root, "what was delivered is not known: %s" % show(got)[:300])
        else:
            A.violate("read-once", p.root, "of the decrypted bytes %s the reader gets %s (%s)" % (show(dec)[:300], show(got)[:400], ops_text(p)), "read-once", p)
    A.need("read-once", 10)


def kept(st, me, term):
    """is a value part of what can be reached from a reference"""
    seen, todo = set(), [me]
    while todo:
        v = todo.pop()
        if not isinstance(v, tuple) or not v:
            continue
        if mentions(v, lambda x: x == term):
            return True
        refs = set(en.allocs_of(v))
        for x in suspended(v):
            refs.update(a for a in st.mem if a[0] == "l" and a[1] == x)
        for a in refs:
            if a not in seen:
                seen.add(a)
                todo.append(st.mem.get(a))
    return False


def whole_of(b):
    """the unstructured parts of a byte string, without being cut"""
    return [s for s in as_buf(b)[1] if s[0] in ("raw", "sub")]


def suspended(v):
    """frames of the suspended futures in a value"""
    if v[0] in ("cosusp", "corun") and len(v) > 1:
        yield v[1]
        return
    for x in v:
        if isinstance(x, tuple) and x:
            yield from suspended(x)


ATTEMPTS = ("start", "ready", "pending", "written", "writefail", "flushed", "read", "readfail", "encrypt", "encryptfail", "decrypt", "decryptfail")


def c30_stream(A):
    for p in stream_history(A):
        bad = [e for e in p.ev[p.since:] if e.kind == "repoll"]
        for e in p.ev[p.since:]:
            if e.kind == "maypanic" and len(e.args) == 3 and exceeds(p.st, e.args[1], e.args[2]):
                A.violate("poll-safe", pos(e), "%s: %s of at most %s: %s" % (e.args[0], show(e.args[1])[:120], show(e.args[2])[:120], ops_text(p)), "poll-safe:%s" % e.fn, p)
        if p.out == "panic":
            A.violate("poll-safe", p.site or p.root, "polling an encrypted connection panics: %s" % ops_text(p), "poll-safe:%s" % fn_of(p.site or p.root), p)
        elif bad:
            A.violate("poll-safe", pos(bad[0]), "a future that already completed is polled: %s" % ops_text(p), "poll-safe:repoll:%s" % bad[0].fn, p)
        else:
            A.ok("poll-safe")
        op, arg, out, v = p.x[0][-1]
        w = v[4][0] if p.out == "ret" and v[0] == "agg" and v[4] else None
        if w is not None and is_err(w):
            # an error that nothing caused means that the connection is in a state it cannot leave
            if any(e.kind in ATTEMPTS for e in p.ev[p.since:]):
                A.ok("usable")
            elif any(e.kind in ("call", "usercall", "dash") for e in p.ev[p.since:]):
                A.undecide(p.root, "what %s tried is not known" % op)
            else:
                A.violate("usable", p.root, "an encrypted connection fails without trying anything: %s" % ops_text(p), "usable:%s" % op, p)
    A.need("poll-safe", 100)
    A.need("usable", 20)


def c29_stream(A):
    for p in stream_history(A):
        op, arg, out, v = p.x[0][-1]
        if p.out != "ret" or not is_pending(v):
            continue
        if registered(p.ev[p.since:]):
            A.ok("wakes")
        else:
            A.violate("wakes", p.root, "it reports that it is not ready, but nothing it waits for knows its waker: %s" % ops_text(p), "wakes:%s" % op, p)
    A.need("wakes", 20)


# ------------------------------------------------------------------ key exchange
KEYS = ENC + "Keys"


def keyfield(A, name):
    from r_codec import field_of
    return field_of(A.F, KEYS, name) if KEYS in A.F.adts else None


def exchanges(A, side):
    key = "exchange_" + side
    if key not in A.cache:
        b = A.body(STREAM + "::from_%s_key_exchange" % side)
        A.cache[key] = [] if b is None else A.run(b, [sym("inner"), ("ref", ("c", sym("keys")), (), False)], tweak=exact)
    return A.cache[key]


def secure(e):
    """was something written to an encrypted connection"""
    return len(e.args) > 3 and mentions(e.args[3], lambda x: len(x) > 2 and x[0] == "agg" and str(x[2]).startswith(ENC + "Encrypted"))


def is_public_key(b):
    if len(b[1]) != 1 or b[1][0][0] != "raw":
        return False
    v = bare(b[1][0][1])
    return v[:2] == ("t", "keybytes") and v[2][:2] == ("t", "pubkey")


def established(p):
    """the connection a key exchange ends with"""
    if p.out == "ret" and is_ok(p.value):
        return inst(p.E, p.st, p.value[4][0], 12)
    return None


def final_keys(s):
    return set(x[2] for x in subterms(s) if x[:2] == ("t", "cipher"))


def counters(p, s):
    """the numbers the nonces of a connection continue with"""
    out = []
    for x in subterms(s):
        if x[0] == "agg" and len(x) == 5 and x[2] == "atomic":
            out.append(x[4][0])
        elif x[0] in ("arc",):
            v = p.E.at(p.st, x)
            if v[0] == "agg" and v[2] == "atomic":
                out.append(p.E.norm(p.st, v[4][0]))
    return out or None


def clean(p, s):
    """no bytes or running operation of the intermediate connection are left"""
    if not isinstance(s, tuple) or not s:
        return True
    if s[0] == "t":
        return True
    if s[0] == "buf":
        return bytes_norm(p.E, p.st, s) == EMPTY
    if s[0] in ("fut", "cosusp"):
        return False
    return all(clean(p, x) for x in s if isinstance(x, tuple))


def authorized(A, p, keys):
    """why a path may go on with a peer: 'allowed' or 'known'; None if nothing says so, '?' if it is not understood"""
    fau = lambda x: x == ("t", "f", keys, "allow_unknown")
    fkp = lambda x: x == ("t", "f", keys, "known_peers")
    unclear = False
    parts = []
    for f, v in list(p.st.facts.items()) + [(t, v) for t, v in p.st.ref.items()]:
        if f[:2] in (("t", "eq"), ("t", "lt")) and mentions(f, fkp):
            r = part_of_key(f, fkp)
            if r is not None:
                parts += [r] if v is True and f[1] == "eq" else []
                continue
        if fau(f) and v in (True, ("int", 1)):
            return "allowed"
        if f[:2] == ("t", "mapin") and v is True and fkp(f[2]):
            peer = set(e.args[1] for e in p.ev if e.kind == "dh")
            if not peer or f[3] in peer:
                return "known"
        elif f[:2] == ("t", "eq") and len(f) == 4 and v is True and any(one_of(a, fkp) for a in f[2:]):
            # equal to one of the known keys, byte for byte
            other = [as_buf(key_bytes(a)) for a in f[2:] if not one_of(a, fkp)]
            peer = [as_buf(key_bytes(e.args[1])) for e in p.ev if e.kind == "dh"]
            if len(other) == 1 and (other[0] in peer if peer else whole_key(other[0])):
                return "known"
            unclear = True
        elif f[:2] != ("t", "mapin") and mentions(f, fkp) and mentions(f, lambda x: x[:2] in (("t", "pubbytes"), ("t", "?elem"), ("t", "elem"))):
            unclear = True
    if parts:
        # only some of the bytes of a known key are compared
        seen = {i for lo, n in parts for i in range(lo, lo + n)}
        if not unclear and not seen >= set(range(32)):
            return None
        return "?"
    for e in p.ev:
        if e.kind in ("iternext", "choose") and mentions(e.args, fkp):
            unclear = True
    return "?" if unclear else None


def part_of_key(f, fkp):
    """(offset, length) if a fact compares these bytes of a known key with the same bytes of another one"""
    if f[1] == "lt":
        # a comparison of the length of a key with a number
        return (0, 0) if any(a[0] == "int" for a in f[2:]) and any(a[:2] == ("t", "len") and one_of(a[2], fkp) for a in f[2:]) else None
    if len(f) != 4:
        return None
    at = []
    for a in f[2:]:
        b = as_buf(bare(a))
        if b is None or len(b[1]) != 1 or b[1][0][0] != "sub":
            return None
        _, src, lo, n = b[1][0]
        if lo[0] != "int" or n[0] != "int":
            return None
        at.append((one_of(src, fkp), lo[1], n[1]))
    if sum(k for k, _, _ in at) != 1 or at[0][2] != at[1][2]:
        return None
    k = [x for x in at if x[0]][0]
    return k[1], k[2]


def key_bytes(v):
    """the bytes of a public key"""
    v = bare(v)
    if v[:2] == ("t", "pubbytes"):
        return v[2]
    if v[0] == "buf" and len(v[1]) == 1 and v[1][0][0] == "raw":
        return key_bytes(v[1][0][1])
    if v[:2] == ("t", "keybytes"):
        return key_bytes(v[2])
    return v


def one_of(v, f):
    """is a value an element of what `f` recognizes"""
    v = key_bytes(v)
    return v[:2] in (("t", "elem"), ("t", "?elem")) and f(v[2])


def whole_key(b):
    """is it a public key that was received"""
    return len(b[1]) == 1 and b[1][0][0] == "sub" and b[1][0][3] == I(32)


def c27(A):
    base = sym("keys")
    if None in (keyfield(A, "allow_unknown"), keyfield(A, "known_peers"), keyfield(A, "secret")):
        A.violate("peers", KEYS, "the keys have no public secret, known_peers and allow_unknown", "peers:fields")
        return
    for side in ("server", "client"):
        ways = set()
        for p in exchanges(A, side):
            why = authorized(A, p, base)
            if established(p) is not None:
                ways.add(why)
                if why == "?":
                    A.undecide(p.root, "whether the peer is known is not decided")
                elif why is None:
                    A.violate("peers", p.root, "the %s completes the key exchange with a peer that is neither known nor allowed: %s" % (side, facts_text(p)), "peers:%s" % side, p)
                else:
                    A.ok("peers", 1, "%s: %s" % (side, facts_text(p)))
                secrets_of(A, p, side, base)
            elif side == "server" and (any(e.kind in ("written", "writefail") for e in p.ev) or any(e.kind == "pending" and "write" in str(e.args[0]) for e in p.ev)):
                if why is None:
                    A.violate("silent", p.root, "the server sends something to a peer before it is known whether it may connect: %s" % facts_text(p), "silent", p)
                elif why == "?":
                    A.undecide(p.root, "whether the peer is known is not decided")
                else:
                    A.ok("silent")
            elif side == "server":
                A.ok("silent")
        if not A.undecided:
            for w, what in (("known", "a known peer"), ("allowed", "an unknown peer although unknown peers are allowed")):
                if w in ways:
                    A.ok("accepts")
                else:
                    A.violate("accepts", "%s key exchange" % side, "the %s never completes the key exchange with %s" % (side, what), "accepts:%s:%s" % (side, w))
    A.need("peers", 1)
    A.need("silent", 4)
    default_keys(A)
    passed_keys(A)


def facts_text(p):
    return ", ".join("%s = %s" % (show(f)[:120], v) for f, v in p.st.facts.items())


def secrets_of(A, p, side, base):
    """whose keys are used"""
    secret = ("t", "f", base, "secret")
    for e in p.ev:
        if e.kind == "dh":
            x = bare(e.args[0])
            if x == secret:
                A.ok("own-secret")
            elif mentions(x, lambda y: y[:2] == ("t", "random")):
                A.ok("own-secret")
            else:
                A.violate("own-secret", pos(e), "the shared secret is derived from %s" % show(x), "own-secret:%s" % side, p)
        elif e.kind == "written" and is_public_key(as_buf(e.args[2])):
            x = bare(bare(as_buf(e.args[2])[1][0][1])[2][2])
            used = [bare(d.args[0]) for d in p.ev if d.kind == "dh"]
            if x in used:
                A.ok("own-secret")
            else:
                A.violate("own-secret", pos(e), "the public key sent belongs to %s, but the shared secret is derived with %s" % (show(x), [show(u) for u in used]), "own-secret:sent:%s" % side, p)
    if side == "server":
        for k in final_keys(established(p)):
            r = [x for x in subterms(k) if x[:2] in (("t", "random"), ("t", "weakrandom"))]
            if any(x[1] == "random" and x[3][0] == "int" and x[3][1] >= 16 for x in r):
                A.ok("random-key", 1, show(k)[:160])
            elif not r and imprecise(k):
                A.undecide(p.root, "session key %s" % show(k)[:200])
            else:
                A.violate("random-key", p.root, "the session key is %s" % show(k)[:200], "random-key", p)


def default_keys(A):
    b = A.trait_body("core::default::Default", ENC + "EncryptionOptions", "default")
    if b is None:
        return
    from r_codec import field_of
    ik = field_of(A.F, ENC + "EncryptionOptions", "keys")
    for p in A.run(b, []):
        if p.out != "ret":
            continue
        E, st = p.E, p.st
        k = E.field(st, inst(E, st, p.value), ("f", ik, "keys"))
        get = lambda n: inst(E, st, E.field(st, k, ("f", keyfield(A, n), n)))
        au, kp, se = get("allow_unknown"), get("known_peers"), get("secret")
        if au == ("int", 0):
            A.ok("default")
        else:
            A.violate("default", b["name"], "by default allow_unknown is %s" % show(au), "default:allow_unknown", p)
        if kp in (EMPTY, ("seq", ())) or kp[:2] == ("t", "newmap") or "new" in str(kp) and "known" not in str(kp):
            A.ok("default", 1, show(kp))
        elif imprecise(kp):
            A.undecide(b["name"], "default known_peers: %s" % show(kp))
        else:
            A.violate("default", b["name"], "by default the known peers are %s" % show(kp), "default:known_peers", p)
        random_secret(A, b, p, se, "the default secret")
    A.need("default", 1)
    # the secrets the library generates for its users
    for n, bs in A.F.by_name.items():
        if n == "bromine::utils::generate_secret":
            for b in bs:
                for p in A.run(b, []):
                    if p.out == "ret":
                        random_secret(A, b, p, inst(p.E, p.st, p.value), "a generated secret")


def random_secret(A, b, p, se, what):
    """are all bytes of a secret random"""
    fixed = [y for x in subterms(se) if x[0] == "buf" for y in x[1] if y[0] in ("k", "z") and y[1:] != (b"",)]
    if mentions(se, lambda x: x[:2] == ("t", "random") and x[3][0] == "int" and x[3][1] >= 32) and not fixed:
        A.ok("default", 1, "%s: %s" % (what, show(se)))
    elif imprecise(se):
        A.undecide(b["name"], "%s: %s" % (what, show(se)))
    else:
        A.violate("default", b["name"], "%s is %s" % (what, show(se)), "default:secret", p)


def passed_keys(A):
    """listening and connecting use the keys of their options"""
    keys = ("t", "f", sym("options"), "keys")
    L = "bromine::protocol::AsyncStreamProtocolListener"
    bind, acc = A.trait_body(L, ENC + "EncryptedListener", "protocol_bind"), A.trait_body(L, ENC + "EncryptedListener", "protocol_accept")
    con = A.trait_body("bromine::protocol::AsyncProtocolStream", STREAM, "protocol_connect")
    if None in (bind, acc, con):
        return
    done = []
    for p in A.run(con, [sym("address"), sym("options")]):
        done.append(("connecting", p))
    for p0 in A.run(bind, [sym("address"), sym("options")]):
        if p0.out == "ret" and is_ok(p0.value):
            for p in A.chain(p0, acc, [("ref", ("c", inst(p0.E, p0.st, p0.value[4][0])), (), False)], label=acc["name"]):
                done.append(("accepting", p))
    for what, p in done:
        if p.out == "ret" and is_ok(p.value):
            why = authorized(A, p, keys)
            if why in ("known", "allowed"):
                A.ok("options", 1, "%s: %s" % (what, facts_text(p)))
            elif why == "?":
                A.undecide(p.root, "whether the peer is known is not decided")
            else:
                A.violate("options", p.root, "%s completes with a peer that the keys in the options do not allow: %s" % (what, facts_text(p)), "options:%s" % what, p)
            for e in p.ev:
                if e.kind == "dh":
                    if bare(e.args[0]) == ("t", "f", keys, "secret"):
                        A.ok("options")
                    else:
                        A.violate("options", pos(e), "%s uses the secret %s" % (what, show(e.args[0])), "options:secret:%s" % what, p)
    A.need("options", 4)


# ------------------------------------------------------------------ agreement of both sides
HASHES = {"Sha224": 28, "Sha256": 32, "Sha384": 48, "Sha512": 64, "Sha512_224": 28, "Sha512_256": 32}


def message_length(b):
    n = 0
    for s in b[1]:
        v = bare(s[1]) if s[0] == "raw" else None
        if v is not None and v[:2] == ("t", "keybytes"):
            n += 32
        elif v is not None and v[:2] == ("t", "hash") and v[2] in HASHES:
            n += HASHES[v[2]]
        else:
            l = seg_len(s)
            if l[0] != "int":
                return None
            n += l[1]
    return n


def script(A, p):
    """what one side does in a key exchange: [(send | recv, encrypted, length, content)], None if a send is not flushed in time"""
    out = []
    unflushed = None
    for e in p.ev:
        if e.kind == "written":
            b = as_buf(e.args[2])
            out.append(("send", secure(e), message_length(b), b, e))
            unflushed = e
        elif e.kind == "flushed":
            unflushed = None
        elif e.kind == "read" and len(e.args) > 3:
            enc = not mentions(e.args[1], lambda x: x == sym("inner"))
            n = e.args[3]
            out.append(("recv", enc, n[1] if n[0] == "int" else None, ("sub", e.args[1], e.args[2], n), e))
            if unflushed is not None:
                return out, unflushed
        elif e.kind == "cipher" and unflushed is not None and secure(unflushed):
            return out, unflushed
    return out, unflushed


WHICH = {True: "the intermediate", False: "another"}


def intermediate(p, e):
    """does the connection a message is sent or received on have the first key of the exchange at that time"""
    if len(e.args) < (5 if e.kind == "read" else 4):
        return None
    keys = final_keys(e.args[4 if e.kind == "read" else 3])
    first = next((x.args[0] for x in p.ev if x.kind == "cipher"), None)
    if len(keys) != 1 or first is None or imprecise(tuple(keys)):
        return None
    return keys == {first}


def c28(A):
    S = [p for p in exchanges(A, "server") if established(p) is not None]
    C = [p for p in exchanges(A, "client") if established(p) is not None]
    for side, ps in (("server", S), ("client", C)):
        for p in ps:
            sc, stuck = script(A, p)
            if stuck is not None:
                A.violate("flushed-before", pos(stuck), "a message of the %s is not flushed before it waits for the other side or changes the key" % side, "flushed-before:%s" % side, p)
            else:
                A.ok("flushed-before")
    for p in S:
        for q in C:
            a, b = script(A, p)[0], script(A, q)[0]
            for one, other, x, y in (("server", "client", a, b), ("client", "server", b, a)):
                sends, recvs = [m for m in x if m[0] == "send"], [m for m in y if m[0] == "recv"]
                if len(sends) != len(recvs):
                    A.violate("messages", "key exchange", "the %s sends %d messages but the %s receives %d" % (one, len(sends), other, len(recvs)), "messages:count:%s" % one, p)
                    continue
                for m, r in zip(sends, recvs):
                    k, l = (intermediate(p, m[4]), intermediate(q, r[4])) if x is a else (intermediate(q, m[4]), intermediate(p, r[4]))
                    if m[1] and r[1] and k is not None and l is not None and k != l:
                        A.violate("messages", pos(m[4]), "the %s encrypts a message with %s key, the %s decrypts it with %s (%s)" % (
                            one, WHICH[k], other, WHICH[l], pos(r[4])), "messages:key:%s" % one, p)
                    elif m[1] != r[1]:
                        A.violate("messages", pos(m[4]), "the %s sends a message %s that the %s receives %s" % (one, enc_text(m[1]), other, enc_text(r[1])), "messages:encrypted:%s" % one, p)
                    elif m[2] is None or r[2] is None:
                        A.undecide(pos(m[4]), "the length of a message is not known")
                    elif m[2] != r[2]:
                        A.violate("messages", pos(m[4]), "the %s sends a message of %d bytes that the %s receives as %d bytes (%s)" % (one, m[2], other, r[2], pos(r[4])), "messages:length:%s" % one, p)
                    else:
                        A.ok("messages", 1, "%s -> %s: %d bytes %s" % (one, other, m[2], enc_text(m[1])))
            # both can get to the end
            i = j = 0
            ab, ba = 0, 0
            while True:
                go = False
                if i < len(a) and (a[i][0] == "send" or ba > 0):
                    ab, ba = (ab + 1, ba) if a[i][0] == "send" else (ab, ba - 1)
                    i += 1
                    go = True
                if j < len(b) and (b[j][0] == "send" or ab > 0):
                    ab, ba = (ab, ba + 1) if b[j][0] == "send" else (ab - 1, ba)
                    j += 1
                    go = True
                if not go:
                    break
            if i == len(a) and j == len(b):
                A.ok("no-deadlock")
            else:
                A.violate("no-deadlock", "key exchange", "both sides wait for each other after %d and %d messages" % (i, j), "no-deadlock", p)
    A.need("messages", 3)
    A.need("no-deadlock", 1)
    # the intermediate key
    for side, ps in (("server", S), ("client", C)):
        for p in ps:
            plain = [m for m in script(A, p)[0] if m[0] == "recv" and not m[1]]
            first = [e for e in p.ev if e.kind == "cipher"][:1]
            k = first[0].args[0] if first else None
            x = bare(k[1][0][1]) if k is not None and k[0] == "buf" and len(k[1]) == 1 and k[1][0][0] == "raw" else None
            if x is not None and x[:2] == ("t", "keybytes") and x[2][:2] == ("t", "shared") and plain and mentions(x[2][3], lambda y: y == plain[0][3] or y == ("sub",) + plain[0][3][1:]):
                A.ok("intermediate", 1, show(k)[:200])
            elif k is None or not imprecise(k) or x is None and not imprecise(k):
                A.violate("intermediate", pos(first[0]) if first else p.root, "the intermediate key of the %s is %s, not the secret shared with the peer" % (side, show(k)[:200] if k else "missing"), "intermediate:%s" % side, p)
            else:
                A.undecide(p.root, "intermediate key %s" % show(k)[:200])
            # the key that is used from then on is the one that was sent encrypted
            keys = list(final_keys(established(p)))
            encm = [m for m in script(A, p)[0] if m[1]]
            want = [m[3] if m[0] == "send" else buf(m[3]) for m in encm if m[0] == ("send" if side == "server" else "recv")]
            if len(keys) == 1 and want and want[-1] == keys[0]:
                A.ok("session", 1, show(keys[0])[:200])
            elif keys and not imprecise(tuple(keys)) and not imprecise(tuple(want)):
                A.violate("session", p.root, "after the key exchange the %s uses %s, but the key that was %s is %s" % (
                    side, [show(k)[:200] for k in keys], "sent" if side == "server" else "received", [show(w)[:200] for w in want]), "session:%s" % side, p)
            else:
                A.undecide(p.root, "session key %s" % [show(k)[:200] for k in keys])
    A.need("intermediate", 1)
    A.need("session", 1)
    for p in rekeyed(A):
        e = [x for x in p.ev[p.since:] if x.kind == "encrypt"]
        if e and mentions(e[-1].args[0], lambda y: y == sym("newkey")):
            A.ok("rekey")
        elif e:
            A.violate("rekey", pos(e[-1]), "after the key was updated data is encrypted with %s" % show(e[-1].args[0])[:200], "rekey", p)


def enc_text(b):
    return "encrypted" if b else "without encryption"
