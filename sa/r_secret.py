"""Keys and protected data stay out of log messages and errors."""
from core import *
from r_crypt import *
from r_rest import BIND, CONNECT, ACCEPT

# what may be said about a secret
PUBLIC = ("pubkey", "encrypt", "len", "isvar", "is", "eq", "cmp", "ge0")
FORMATS = ("core::fmt::Debug", "core::fmt::Display", "core::fmt::LowerHex", "core::fmt::UpperHex")
IGNORED = ("::instrument", "::in_current_span", "::poll", "::inner_mut", "::with_current_subscriber")


def leak(v, secrets):
    """a secret that is part of a value, None if there is none"""
    if not isinstance(v, tuple) or not v:
        return None
    if v[0] == "t" and len(v) > 1:
        if v[1] in PUBLIC:
            return None
        if secrets(v):
            return v
    if v[0] == "lin":
        return None
    for x in v[1:] if isinstance(v[0], str) else v:
        r = leak(x, secrets)
        if r is not None:
            return r
    return None


def secrets_of(named, decrypted=True):
    """is a value a secret: private keys, what is derived from them, session keys, plaintext, the arguments that are named"""
    def f(v):
        if v in named or v[1] in ("dh", "cipher", "random"):
            return True
        if v[1] == "f" and len(v) > 3 and v[3] == "secret":
            return True
        return decrypted and v[1] == "decrypt"
    return f


def own_types(v):
    """values of the types of this crate inside of a value"""
    if isinstance(v, tuple):
        if len(v) == 5 and v[:2] == ("agg", "adt") and str(v[2]).startswith("bromine::"):
            yield v
            return
        for x in v:
            yield from own_types(x)


def told(A, p, v, secrets, depth=4):
    """a secret that formatting a value tells; "?" if it is not known"""
    r = leak(v, secrets)
    if r is None or depth == 0:
        return r
    for x in own_types(v):
        if leak(x, secrets) is None:
            continue
        bodies = [A.trait_body(t, x[2], "fmt", must=False) for t in FORMATS]
        bodies = [b for b in bodies if b is not None]
        if not bodies:
            return "?"
        for b in bodies:
            for q in A.run(b, [("ref", ("c", x), (), False), sym("formatter")], label="formatting %s" % x[2]):
                for e in q.ev:
                    if e.kind in ("formatted", "call", "usercall"):
                        r = told(A, q, tuple(e.args[1:]), secrets, depth - 1)
                        if r is not None:
                            return r
        return None
    return r


def spelled(A, v, t, depth=3):
    """a value of a type of this crate with its fields, as far as it is not known"""
    if not isinstance(v, tuple) or not v or v[0] not in ("t", "deref") or depth == 0:
        return v
    d = A.F.adts.get(t)
    if d is None or len(d["v"]) != 1 or not d.get("local"):
        return v
    fs = []
    for i, f in enumerate(d["v"][0]["f"]):
        ft = A.F.t(f["t"])
        x = ("t", "f", v, f["n"])
        fs.append(spelled(A, x, ft.get("n"), depth - 1) if ft.get("k") == "adt" else x)
    return ("agg", "adt", t, 0, tuple(fs))


def check(A, ps, secrets, what, key):
    for p in ps:
        for e in p.ev[p.since:]:
            if e.kind == "shows":
                v = inst(p.E, p.st, e.args[1])
                r = told(A, p, spelled(A, v, e.args[0][1]), secrets) if v[0] == "t" and not imprecise(v) else None
                if r is not None and r != "?":
                    A.violate("logged", pos(e), "%s puts %s into a message" % (what, show(r)[:120]), "logged:%s" % e.fn, p)
                continue
            if e.kind not in ("traced", "formatted") or any(e.args[0].endswith(x) for x in IGNORED):
                continue
            v = tuple(inst(p.E, p.st, x) if isinstance(x, tuple) and x else x for x in e.args[1])
            r = told(A, p, v, secrets)
            if r is None:
                A.ok("logged", 1, "%s: %s" % (pos(e), e.args[0]))
            elif r == "?":
                A.undecide(pos(e), "how %s is formatted is not known" % show(v)[:80])
            else:
                A.violate("logged", pos(e), "%s puts %s into a message" % (what, show(r)[:120]), "logged:%s" % e.fn, p)
        if p.out == "ret":
            v = inst(p.E, p.st, p.value)
            if v[0] == "agg" and v[2] == en.POLL and v[4]:
                v = v[4][0]
            if is_err(v):
                r = leak(v[4][0], secrets)
                if r is None:
                    A.ok("reported")
                elif mentions(v[4][0], lambda x: x[0] == "t" and x[1] in ("fmt", "format", "buf")) or r[1] != "call":
                    A.violate("reported", p.root, "an error of %s contains %s" % (what, show(r)[:120]), "reported:%s" % key, p)


def c36(A):
    def run(body, args, what, named=(), decrypted=True, key=None):
        if body is not None:
            check(A, A.run(body, args, tweak=lambda E: (exact(E), traced(E)), label=what), secrets_of(set(named), decrypted), what, key or what)
    keys = ("ref", ("c", sym("keys")), (), False)
    for side in ("server", "client"):
        run(A.body(STREAM + "::from_%s_key_exchange" % side), [sym("inner"), keys], "the key exchange of the %s" % side)
    run(A.body(STREAM + "::new"), [sym("inner"), sym("shared")], "creating an encrypted connection", [sym("shared")])
    run(A.body(STREAM + "::update_key", must=False), [sym("self"), sym("newkey")], "changing the key", [sym("newkey")])
    for trait, item, args in (("AsyncStreamProtocolListener", "protocol_bind", ["address", "options"]), ("AsyncStreamProtocolListener", "protocol_accept", ["self"]), ("AsyncProtocolStream", "protocol_connect", ["address", "options"])):
        for adt in (ENC + "EncryptedListener", STREAM):
            run(A.trait_body("bromine::protocol::" + trait, adt, item, must=False), [sym(a) for a in args], "%s of %s" % (item, adt.split("::")[-1]))
    named = set()
    ps = stream_history(A, logs=True)
    for p in ps:
        named.update(o[1] for o in p.x[0] if o[0] == "write")
    s = secrets_of(named)
    check(A, ps, s, "an encrypted connection", "stream")
    A.need("logged", 20)
    A.need("reported", 2)
