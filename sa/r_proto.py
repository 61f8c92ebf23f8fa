"""The connections the library comes with: TCP, Unix sockets and the encryption layer."""
from core import *
from r_conn import *
from r_rest import BIND, CONNECT, ACCEPT, about, error_variant, may_be

PROTO = "bromine::protocol::"
LISTENER, STREAM = PROTO + "AsyncStreamProtocolListener", PROTO + "AsyncProtocolStream"
OPENS = {"bind": ("bind", "from_std", "bind_addr"), "connect": ("connect", "connect_addr", "connect_timeout", "from_std")}
TTL = ("set_ttl", "set_ttl_v4", "set_unicast_hops_v6")
# parts of an address and addresses made of something else
OTHER = ("SocketAddr::new", "SocketAddr::ip", "SocketAddr::port", "IpAddr::", "Ipv4Addr::", "Ipv6Addr::", "Path::join", "Path::with_extension", "Path::with_file_name", "Path::file_name", "Path::parent", "Path::file_stem", "PathBuf::push", "PathBuf::new",
         "SocketAddrV4::", "SocketAddrV6::")


def transports(A, trait, item):
    """(name, body) of the sockets the library implements a protocol for"""
    out = []
    for im in A.F.impls:
        if im.get("trait") != trait:
            continue
        n = A.F.t(im["self"]).get("n", "?")
        for m, b in im["items"]:
            if m == item and A.F.bodies.get(b) is not None:
                out.append((n, A.F.bodies[b]))
    return out


def is_socket(n):
    return n.startswith("tokio::net::")


def exactly(v, want):
    """is a value the given one, by reference or converted without a change"""
    for _ in range(8):
        if v == want:
            return True
        if v[0] == "&" and len(v) == 5:
            v = v[3]
        elif v[:2] == ("t", "*") or v[:2] == ("t", "deref"):
            v = v[2]
        elif v[:2] == ("t", "call") and len(v[3]) == 1 and v[2].split("::")[-1] in ("clone", "into", "from", "as_path", "to_path_buf", "to_owned", "as_ref", "borrow", "deref", "into_boxed_path", "as_os_str"):
            v = v[3][0]
        else:
            return False
    return False


def other(v):
    """is a value certainly made of something else, or of a part only"""
    for x in subterms(v):
        if x[:2] == ("t", "call") and len(x) > 3 and any(k in x[2] for k in OTHER):
            return True
    return not mentions(v, lambda x: x[0] == "t" and x[1] in IMPRECISE)


def opening(p, what):
    return [e for e in p.ev if e.kind == "call" and e.args[0].split("::")[-1] in OPENS[what] and not e.args[0].startswith("bromine::") and any(k in e.args[0] for k in ("Tcp", "Unix", "Socket", "socket"))]


def outcome_of(p, e):
    """what became of something that was opened: value of its result, if it was looked at"""
    t = ("t", "call") + (e.args[0],)
    for r in p.ev:
        if r.kind == "ready" and r.args[0] == "await" and mentions(r.args[1], lambda x: x[:3] == t):
            return inst(p.E, p.st, r.args[2])
    return None


def sockets(A, rule):
    """[(kind, name of the socket, argument names, path)]"""
    if "sockets" in A.cache:
        return A.cache["sockets"]
    out = A.cache["sockets"] = []
    for kind, trait in (("bind", LISTENER), ("connect", STREAM)):
        found = transports(A, trait, "protocol_" + kind)
        if not any(is_socket(n) for n, _ in found):
            A.violate(rule, trait, "no socket implements %s" % trait, "%s:none" % rule)
        for n, b in found:
            for p in A.run(b, [sym("address"), sym("options")], label="%s::protocol_%s" % (n.split("::")[-1], kind)):
                out.append((kind, n, p))
    return out


def c22(A):
    """sockets are bound or connected to exactly the address, once, and failures are reported"""
    for kind, n, p in sockets(A, "socket"):
        what = "protocol_%s of %s" % (kind, n.split("::")[-1])
        if p.out == "panic":
            A.violate("socket", p.site or p.root, "%s panics" % what, "socket:panic:%s:%s" % (n, kind), p)
        inner = BIND if kind == "bind" else CONNECT
        es = opening(p, kind) if is_socket(n) else calls_of(p, inner)
        good = []
        for e in es:
            a = inst(p.E, p.st, e.args[1][0])
            if exactly(a, sym("address")):
                A.ok("socket", 1, "%s: %s" % (what, pos(e)))
                good.append(e)
            elif other(a):
                A.violate("socket", pos(e), "%s uses the address %s" % (what, show(a)[:100]), "socket:address:%s:%s" % (n, kind), p)
            else:
                A.undecide(pos(e), "address is %s" % show(a)[:80])
        if p.out != "ret":
            continue
        v = inst(p.E, p.st, p.value)
        if len(es) > 1 and not any(is_err(outcome_of(p, e) or ("?",)) for e in es[:-1]) and is_ok(v):
            A.violate("socket", pos(es[-1]), "%s opens more than one connection" % what, "socket:twice:%s:%s" % (n, kind), p)
        if not es:
            if is_ok(v):
                A.undecide(p.root, "%s: how it is opened is not known" % what)
            continue
        r = failed_call(p, es[-1])
        if r is None:
            continue
        if r and is_ok(v):
            A.violate("socket", pos(es[-1]), "%s succeeds although it could not be opened" % what, "socket:ok:%s:%s" % (n, kind), p)
        elif r and is_err(v):
            A.ok("socket", 1, "%s reports failing" % what)
    A.need("socket", 10)


def calls_of(p, name):
    return [e for e in p.ev if e.kind == "call" and e.args[0] == name]


def failed_call(p, e):
    """did a path take the result of a call as a failure (True), a success (False); None: it did not look"""
    for src in ("await", None):
        for k in p.ev:
            if src and k.kind == "ready" and k.args[0] == "await" and mentions(k.args[1], lambda x: x[:3] == ("t", "call", e.args[0])):
                v = inst(p.E, p.st, k.args[2])
                if is_err(v):
                    return True
                if is_ok(v):
                    return False
    for t in p.st.ref:
        if t[:3] == ("t", "call", e.args[0]):
            v = p.E.norm(p.st, t)
            if is_err(v) or is_ok(v):
                return is_err(v)
    return None


def c21(A):
    """the options of a socket and of the encryption layer reach what they configure"""
    for kind, n, p in sockets(A, "socket-option"):
        what = "protocol_%s of %s" % (kind, n.split("::")[-1])
        if not is_socket(n):
            for e in calls_of(p, BIND if kind == "bind" else CONNECT):
                o = inst(p.E, p.st, e.args[1][1])
                if exactly(o, ("t", "f", sym("options"), "inner_options")):
                    A.ok("socket-option", 1, "%s passes on the options of what is encrypted" % what)
                elif imprecise(o):
                    A.undecide(pos(e), "options are %s" % show(o)[:80])
                else:
                    A.violate("socket-option", pos(e), "%s opens with the options %s" % (what, show(o)[:80]), "socket-option:inner:%s:%s" % (n, kind), p)
            continue
        if "ttl" not in fields_of_options(A, n, kind):
            continue
        ttl = ("t", "f", sym("options"), "ttl")
        given = some_of(p.E.norm(p.st, ttl)) is not None
        sets = [e for e in p.ev if e.kind == "call" and e.args[0].split("::")[-1] in TTL]
        for e in sets:
            x = inst(p.E, p.st, e.args[1][-1])
            if x == ("t", "vf", ttl, 1, 0):
                A.ok("socket-option", 1, "%s: %s" % (what, pos(e)))
            elif imprecise(x):
                A.undecide(pos(e), "time to live is %s" % show(x)[:80])
            else:
                A.violate("socket-option", pos(e), "%s sets the time to live to %s" % (what, show(x)[:80]), "socket-option:ttl:%s" % kind, p)
        if p.out == "ret" and is_ok(inst(p.E, p.st, p.value)):
            if given:
                if sets:
                    A.ok("socket-option")
                else:
                    A.violate("socket-option", p.root, "%s ignores the time to live" % what, "socket-option:ignored:%s" % kind, p)
            for e in sets:
                if failed_call(p, e):
                    A.violate("socket-option", pos(e), "%s goes on although the time to live could not be set" % what, "socket-option:failed:%s" % kind, p)
    A.need("socket-option", 4)


def fields_of_options(A, n, kind):
    """names of the fields of the options of a socket"""
    names = set()
    for a in A.F.adts.values():
        if a["n"] == PROTO + "tcp::TcpOptions" if "n" in a else False:
            names |= {f["n"] for f in a["v"][0]["f"]}
    if not names:
        a = A.F.adts.get(PROTO + "tcp::TcpOptions")
        names = {f["n"] for f in a["v"][0]["f"]} if a else set()
    return names if "tcp" in n else set()


def is_accept(v):
    """is what is waited for the next connection itself"""
    v = v[0] if v and isinstance(v[0], tuple) else v
    return len(v) > 2 and v[:2] == ("t", "call") and v[2].split("::")[-1] in ("accept", "poll_accept")


def c19(A):
    """a socket that fails to accept says so with the kind of error that does not stop the server"""
    for n, b in transports(A, LISTENER, "protocol_accept"):
        if not is_socket(n):
            continue
        what = "protocol_accept of %s" % n.split("::")[-1]
        for p in A.run(b, [sym("self")], label=what):
            if p.out == "panic":
                A.violate("accept-error", p.site or p.root, "%s panics" % what, "accept-error:panic:%s" % n, p)
            for e in p.ev:
                if e.kind != "pending" or e.args[0] in ("yield_now", "readyval"):
                    continue
                if is_accept(e.args[1]):
                    A.ok("accept-waits")
                elif mentions(inst(p.E, e.st if hasattr(e, "st") else p.st, e.args[1]), lambda x: len(x) > 2 and x[:2] == ("t", "await")):
                    A.violate("accept-waits", pos(e), "%s waits for what it accepted: other peers are not accepted until this one does something" % what, "accept-waits:%s" % n, p)
                else:
                    A.undecide(pos(e), "%s waits for %s" % (what, show(e.args)[:100]))
            if p.out != "ret":
                continue
            v = inst(p.E, p.st, p.value)
            if not is_err(v):
                continue
            name, e = error_variant(A, p, v[4][0])
            if name is None and imprecise(e) and not may_be(A, p, e, "IoError"):
                A.undecide(p.root, "%s fails with %s" % (what, show(e)[:80]))
            elif name is None or name == "IoError":
                A.ok("accept-error", 1, "%s fails with an input/output error" % what)
            else:
                A.violate("accept-error", p.root, "%s reports a failure as %s, which stops the server" % (what, name), "accept-error:%s" % n, p)
    A.need("accept-error", 1)
    A.need("accept-waits", 2)
