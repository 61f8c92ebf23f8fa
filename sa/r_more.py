"""What happens when a frame cannot be decoded or an event cannot be sent."""
from core import *
from r_conn import *
from r_rest import stopping

INTO = "bromine::events::payload::IntoPayload::into_payload"
RESPONSE = "bromine::events::event_handler::Response"
WAITED = ("recvd", "closed", "elapsed")


# ------------------------------------------------------------------ undecodable frames
def c34(A):
    for p in conn_paths(A):
        r = p.x["reader"]
        if r is None or p.x["parent"].get(r) is None:
            continue
        bad = [i for i, e in enumerate(p.ev) if e.kind == "framefail" and e.task == r]
        if not bad:
            continue
        rest = [e for e in p.ev[bad[0] + 1:] if e.task == r]
        own = [i for i, e in enumerate(rest) if e.kind == "ready" and e.args[0] == "readframe"][:1]
        again = [e for i, e in enumerate(rest) if e.kind in ("frame", "framefail") or e.kind in ("ready", "pending") and e.args[0] == "readframe" and i not in own]
        if again:
            A.violate("gives-up", pos(again[0]), "after a frame that could not be decoded, what follows on the connection is read as if it was a frame", "gives-up:again", p)
        elif p.task != r:
            continue
        elif p.out == "ret":
            A.ok("gives-up", 1, "reading ends with a frame that cannot be decoded")
        elif p.out == "panic":
            A.violate("gives-up", p.site or p.root, "a frame that cannot be decoded makes the reader panic", "gives-up:panic", p)
        elif p.out == "loop":
            A.violate("gives-up", p.site or p.root, "after a frame that could not be decoded the reader goes on reading", "gives-up:loop", p)
        # nothing is handed to anyone for what could not be decoded
        for e in rest:
            if e.kind == "usercall" or e.kind == "call" and e.args[0].endswith("EventHandler::handle_event"):
                A.violate("nothing-handled", pos(e), "a callback is called although no event was decoded", "nothing-handled", p)
    abandoned(A, "gives-up")
    A.need("gives-up", 2)


# ------------------------------------------------------------------ events that cannot be sent
def payload_failure(p):
    """the error a payload could not be created because of"""
    for e in p.ev:
        if e.kind == "call" and e.args[0] == INTO:
            for t in calls_in(p, INTO):
                if is_err(p.E.norm(p.st, t)):
                    return t
    return None


def calls_in(p, name):
    """the results of calls a path looked at"""
    out = set(t for t in p.st.ref if t[:3] == ("t", "call", name))
    if p.value is not None:
        out.update(x for x in subterms(inst(p.E, p.st, p.value)) if x[:3] == ("t", "call", name))
    return out


def failure(p):
    """why an event was not sent on a path: (what failed, term of the error), None if nothing failed"""
    t = payload_failure(p)
    if t is not None:
        return "payload", t
    for e in p.ev:
        if e.kind == "encodefail":
            return "encoding", ("t", "encodeerr")
    ws = [e for e in p.ev if e.kind in ("writefail", "flushed")]
    if ws and ws[-1].kind == "writefail":
        e = inst(p.E, p.st, ws[-1].args[-1])
        return "writing", e[4][0] if is_err(e) else None
    return None


def c35(A):
    for kind in ("", "await_reply", "stream_replies"):
        for p in emitted(A, kind):
            what = "%s%s" % (p.x["fn"], "." + kind if kind else "")
            if p.out == "panic":
                A.violate("reported", p.site or p.root, "%s panics" % what, "reported:panic:%s" % kind, p)
            if p.out != "ret":
                continue
            f = failure(p)
            if f is None:
                continue
            v = inst(p.E, p.st, p.value)
            if is_ok(v):
                A.violate("reported", p.root, "%s succeeds although %s the event failed" % (what, f[0] if f[0] != "payload" else "creating the payload of"), "reported:ok:%s:%s" % (kind, f[0]), p)
            elif is_err(v):
                e = v[4][0]
                if f[1] is None or mentions(e, lambda x: x == f[1]):
                    A.ok("reported", 1, "%s: %s fails with %s" % (what, f[0], show(e)[:80]))
                elif imprecise(e):
                    A.undecide(p.root, "%s fails with %s" % (what, show(e)[:80]))
                else:
                    A.violate("reported", p.root, "%s fails with %s when %s fails with %s" % (what, show(e)[:80], f[0], show(f[1])[:80]), "reported:other:%s:%s" % (kind, f[0]), p)
            else:
                A.undecide(p.root, "%s returns %s" % (what, show(v)[:80]))
            if f[0] != "writing":
                w = [e for e in p.ev if e.kind == "written" and mentions_frame(as_buf(written_bytes(A, p, e)))]
                if w:
                    A.violate("not-sent", pos(w[0]), "something is sent although %s the event failed" % f[0], "not-sent:%s" % f[0], p)
                else:
                    A.ok("not-sent")
            late = [e for e in p.ev if e.kind in WAITED]
            if late:
                A.violate("at-once", pos(late[0]), "%s waits for a reply to an event that was not sent" % what, "at-once:%s" % kind, p)
            else:
                A.ok("at-once")
    A.need("reported", 6)
    A.need("not-sent", 4)
    # a response is created from its payload or not at all
    b = A.body(RESPONSE + "::payload")
    for p in A.run(b, [ctx_ref(), sym("payload")]) if b is not None else []:
        if p.out != "ret":
            A.violate("response", p.site or p.root, "creating a response panics", "response:panic", p)
            continue
        v = inst(p.E, p.st, p.value)
        t = payload_failure(p)
        if is_ok(v) and t is not None:
            A.violate("response", p.root, "a response is created although its payload could not be", "response:ok", p)
        elif is_err(v) and t is not None and mentions(v, lambda x: x == t):
            A.ok("response", 1, "a payload that cannot be created is reported")
        elif is_err(v) and t is not None and not imprecise(v):
            A.violate("response", p.root, "a payload that cannot be created is reported as %s" % show(v)[:80], "response:other", p)
        elif is_ok(v):
            d = data_of_response(A, p, v[4][0])
            ts = calls_in(p, INTO)
            if d is None or imprecise(d):
                A.undecide(p.root, "response is %s" % show(v)[:80])
            elif any(as_buf(d) == buf(("raw", ("t", "vf", x, 0, 0))) or d == ("t", "vf", x, 0, 0) for x in ts):
                A.ok("response", 1, "a response is its payload")
            else:
                A.violate("response", p.root, "a response is created with %s" % show(d)[:100], "response:data", p)
    A.need("response", 1)
