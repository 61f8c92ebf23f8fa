"""Emitting events, waiting for replies, routing received events, connections of servers and clients."""
from core import *
from r_codec import event_fields, field_of, ETYPE, constructors, compatible

IPC = "bromine::ipc::"
CONTEXT = IPC + "context::Context"
BUILDER = IPC + "builder::IPCBuilder"
EMIT = IPC + "stream_emitter::emit_metadata::EmitMetadata"
WITH_REPLY = IPC + "stream_emitter::emit_metadata_with_response::EmitMetadataWithResponse"
WITH_STREAM = IPC + "stream_emitter::emit_metadata_with_response_stream::EmitMetadataWithResponseStream"
REPLIES = IPC + "stream_emitter::emit_metadata_with_response_stream::ResponseStream"
FUTURE = "core::future::future::Future"
STREAM_TRAIT = "futures_core::stream::Stream"
INTO_PAYLOAD = "bromine::events::payload::IntoPayload::into_payload"
CTX = sym("ctx")
# what the data of an error event looks like: code, length of the message, message
ERROR_DATA = buf(("be", 2, sym("code")), ("be", 4, term("len", sym("message"))), ("raw", sym("message")))
PENDING_OPS_READ = ("readframe", "read", "read_exact", "read_buf", "read_to_end")


def ctx_ref():
    return ("ref", ("c", CTX), (), False)


def bare(v):
    while isinstance(v, tuple) and len(v) == 3 and v[0] == "t" and v[1] == "*":
        v = v[2]
    return v


# ------------------------------------------------------------------ emitting
def emitted(A, kind, timeout=None, **kw):
    """emitting an event through an arbitrary context and awaiting it (kind: "", "await_reply", "stream_replies")"""
    key = ("emitted", kind, repr(timeout), repr(kw))
    if key in A.cache:
        return A.cache[key]
    out = A.cache[key] = []
    for fn in ("emit", "emit_to"):
        b = A.body(CONTEXT + "::" + fn)
        if b is None:
            continue
        args = [ctx_ref()] + ([sym("namespace")] if fn == "emit_to" else []) + [sym("name"), sym("payload")]
        for p in A.run(b, args, drive=False):
            if p.out != "ret":
                A.violate("emit", p.site or p.root, "emitting panics", "emit:panic", p)
                continue
            for q, v in started(A, p, p.value, kind, timeout):
                for r in A.await_value(q, v, stubs=STUB_CODEC, label="%s%s" % (fn, "." + kind if kind else ""), **kw):
                    r.x = {"fn": fn, "kind": kind, "args": args, "timeout": timeout}
                    out.append(r)
    return out


def started(A, p, v, kind, timeout):
    """the future the caller awaits, from the value emit returned"""
    if not kind:
        return [(p, v)]
    todo = list(timeout) if isinstance(timeout, list) else [timeout] if timeout is not None else []
    b = A.body(EMIT + "::" + kind)
    out = []
    if b is None:
        return out
    for q in A.chain(p, b, [v], drive=False):
        if q.out != "ret":
            continue
        ends = [(q, q.value)]
        for d in todo:
            t = A.body((WITH_REPLY if kind == "await_reply" else WITH_STREAM) + "::with_timeout")
            ends = [] if t is None else [(r, r.value) for x, w in ends for r in A.chain(x, t, [w, d], drive=False) if r.out == "ret"]
        out += ends
    return out


def encoded(p, task=None):
    return [e for e in p.ev if e.kind == "encode" and (task is None or e.task == task)]


def fields(A, p, v):
    return event_fields(A, p.E, p.st, v)


def lock_root(g):
    """what a guard protects: the storage of the lock"""
    return g[1]


class Locks:
    """the locks a task holds along its events"""

    def __init__(self, p):
        self.p = p

    def walk(self, ev=None):
        held = {}
        for e in self.p.ev if ev is None else ev:
            h = held.setdefault(e.task, [])
            yield e, h
            if e.kind == "lock":
                h.append(tuple(e.args[:4]))
            elif e.kind == "unlock":
                g = e.args[0]
                for i, x in enumerate(h):
                    if x[2] == g:
                        del h[i]
                        break


def target_root(t):
    return t[1] if t[0] in ("ref", "guard") else t


def written_bytes(A, p, e):
    return p.E.content(p.st, e.args[2]) if e.args[2][0] != "buf" else e.args[2]


def stream_of(A, p, ev):
    """everything that is written, in its order"""
    w = EMPTY
    for e in ev:
        w = cat(w, as_buf(written_bytes(A, p, e)))
    return w


def is_frame(b):
    """a byte string that is one whole encoded event: that event"""
    if b[0] == "buf" and len(b[1]) == 1 and b[1][0][0] == "raw":
        t = b[1][0][1]
        if t[0] == "t" and t[1] == "enc":
            return t[2]
    return None


def mentions_frame(b):
    return mentions(b, lambda x: len(x) > 2 and x[0] == "t" and x[1] == "enc")


def frames_in(b):
    """the whole frames in a byte string: [event]"""
    return [s[1][2] for s in as_buf(b)[1] if s[0] == "raw" and s[1][0] == "t" and s[1][1] == "enc"]


def leftover(s):
    """a part of a byte string that was kept with the connection since an earlier write"""
    if s[0] != "raw" or s[1][0] == "t" and s[1][1] == "enc":
        return False
    if s[1][0] == "t" and s[1][1] == "rest":
        return True
    return mentions(s[1], lambda x: len(x) > 2 and x[0] in ("t", "f") and x[-1] == "locked")


def one_frame(b):
    """what is written during one hold of a connection: the rest of an earlier frame at most, then one whole frame. That event or None"""
    segs = list(as_buf(b)[1])
    while segs and leftover(segs[0]):
        segs.pop(0)
    return is_frame(("buf", tuple(segs)))


def only_leftover(b):
    return all(leftover(s) for s in as_buf(b)[1])


def owned(p, root):
    """everything that is reachable from a place only through owning it"""
    out, todo = set(), [root]
    while todo:
        a = todo.pop()
        if a in out:
            continue
        out.add(a)
        v = p.st.mem.get(a)
        if v is not None:
            todo.extend(x[1] for x in subterms(v) if len(x) == 2 and x[0] == "box")
    return out


WRITES = ("write_all", "write", "write_buf", "write_all_buf")


def c07(A):
    for p in emitted(A, "") + emitted(A, "await_reply") + emitted(A, "stream_replies"):
        frame_writes(A, p)
        if p.x["kind"] == "" and p.out == "ret":
            emit_result(A, p)
    cancelled_write(A)
    for p in conn_paths(A):
        frame_writes(A, p)
    A.need("exclusive", 10)
    A.need("whole-frame", 10)
    A.need("aborted", 1)
    A.need("emit-ok", 2)
    A.need("emit-err", 3)


def held_for(p, e, held):
    """the lock that is held while something is written to what it protects"""
    root = target_root(e.args[1])
    for k, i, g in (x[:3] for x in held):
        if k in ("mutex", "std") and (lock_root(g) == root or root in owned(p, lock_root(g))):
            return lock_root(g)
    return None


def frame_writes(A, p):
    """writes to the connection happen while it is held, and one holder writes one whole frame and flushes it"""
    open_ = {}          # (task, lock) -> bytes written while it is held
    for e, held in Locks(p).walk():
        if e.kind in ("written", "writefail") and e.args[0] not in ("flush", "shutdown"):
            lock = held_for(p, e, held)
            if lock is None:
                if imprecise(e.args[1]):
                    A.undecide(pos(e), "what is written to is not known: %s" % show(e.args[1])[:100])
                    continue
                A.violate("exclusive", pos(e), "the connection is written to without being held exclusively", None, p)
                continue
            A.ok("exclusive", 1, "%s holds the lock of the connection it writes to" % pos(e))
            k = (e.task, lock)
            if e.kind == "written":
                if open_.get(k, EMPTY) is None:
                    continue        # what is written after a failure is judged by what is sent next
                open_[k] = cat(open_.get(k, EMPTY), as_buf(written_bytes(A, p, e)))
                if len(frames_in(open_[k])) > 1:
                    A.violate("whole-frame", pos(e), "more than one frame is written while the connection is held", "whole-frame:many", p)
            else:
                open_[k] = None
        elif e.kind == "unlock":
            root = lock_root(e.args[0])
            b = open_.pop((e.task, root), None)
            if b is None or only_leftover(b):
                continue
            if one_frame(b) is not None:
                A.ok("whole-frame", 1, "%s is released after %s" % (show(root), show(b)[:60]))
            elif p.out == "cancelled" and (kept(p) or between_writes(p)):
                A.ok("kept-rest")
            elif not mentions_frame(b) or imprecise_bytes(b) or summarised(p):
                A.undecide(pos(e), "written bytes are not known: %s" % show(b)[:100])
            elif len(frames_in(b)) < 2:
                A.violate("whole-frame", pos(e), "the connection is released after writing %s, which is not a whole frame" % show(b)[:200], "whole-frame:part@" + e.fn, p)


def between_writes(p):
    """given up while it waits for a single write: whether what is left is sent later is judged by what is sent next (cancelled_write)"""
    last = [e for e in p.ev if e.kind in ("pending", "ready")]
    return bool(last) and last[-1].kind == "pending" and last[-1].args[0] in ("write", "write_buf")


def kept(p):
    last = [e for e in p.ev if e.kind in ("pending", "ready")]
    return bool(last) and last[-1].kind == "pending" and len(last[-1].args) > 2 and last[-1].args[2][0] == "kept"


def emit_result(A, p):
    v = inst(p.E, p.st, p.value)
    if is_ok(v):
        sent = [e for e in p.ev if e.kind == "written"]
        enc = encoded(p)
        fl = [e for e in p.ev if e.kind == "flushed" and sent and p.ev.index(e) > p.ev.index(sent[-1])]
        if not sent or not fl:
            A.violate("emit-ok", p.root, "success is reported without %s" % ("flushing the event" if sent else "sending the event"), "emit-ok:%s" % ("flush" if sent else "send"), p)
            return
        if not flush_in_section(p, sent[-1]):
            A.violate("emit-ok", pos(sent[-1]), "the event is flushed after the connection was released", "emit-ok:released", p)
            return
        every = stream_of(A, p, sent)
        fs = frames_in(every)
        if not fs or not enc:
            if imprecise(every) or imprecise_bytes(every) or summarised(p):
                A.undecide(p.root, "written bytes are not known")
            else:
                A.violate("emit-ok", p.root, "success is reported but what was written is not the event: %s" % show(written_bytes(A, p, sent[-1]))[:200], "emit-ok:frame", p)
            return
        g = fields(A, p, fs[-1])
        if g is None:
            return
        if v[4][0] == g["id"]:
            A.ok("emit-ok", 1, "the result is the id of the event that was written")
        elif imprecise(v[4][0]):
            A.undecide(p.root, "the reported id is not known: %s" % show(v[4][0])[:100])
        else:
            A.violate("emit-ok", p.root, "success is reported with id %s, the event that was written has id %s" % (show(v[4][0])[:200], show(g["id"])[:200]), "emit-ok:id", p)
    elif is_err(v):
        A.ok("emit-err")
    else:
        A.undecide(p.root, "result %s" % show(v)[:100])
    fails = [e for e in p.ev if e.kind == "writefail"]
    if fails and is_ok(v) and not any(e.kind == "flushed" and p.ev.index(e) > p.ev.index(fails[-1]) for e in p.ev):
        A.violate("emit-err", pos(fails[-1]), "success is reported although %s failed" % fails[-1].args[0], "emit-err:%s" % fails[-1].args[0], p)


def flush_in_section(p, w):
    root = None
    for e, held in Locks(p).walk():
        if e is w:
            root = held_for(p, e, held)
        elif root is not None and e.task == w.task:
            if e.kind == "flushed" and held_for(p, e, held) == root:
                return True
            if e.kind == "unlock" and lock_root(e.args[0]) == root:
                return False
    return root is None


def cancelled_write(A):
    """when a future is dropped while it writes an event, the next one writes the rest before its own event"""
    n = 0
    for p in emitted(A, ""):
        last = [e for e in p.ev if e.kind in ("pending", "ready")]
        if p.out == "ret" and is_err(inst(p.E, p.st, p.value)):
            # the same holds if writing fails in the middle of a frame
            failed = [e for e in p.ev if e.kind == "writefail" and e.args[0] in WRITES]
            if not failed:
                continue
            last, op, data = failed, "a failed " + failed[-1].args[0], failed[-1].args[2]
        elif p.out != "cancelled" or not last or last[-1].kind != "pending" or last[-1].args[0] not in WRITES:
            continue
        else:
            op = last[-1].args[0]
            data = last[-1].args[2][3] if len(last[-1].args) > 2 else p.E.content(p.st, p.E.deref_all(p.st, last[-1].args[1][1]))
        if not mentions_frame(data):
            continue
        b = A.body(CONTEXT + "::emit")
        if b is None:
            continue
        done = False
        for q in A.chain(p, b, [ctx_ref(), sym("name2"), sym("payload2")], drive=False):
            if q.out != "ret":
                continue
            for r in A.await_value(q, q.value, stubs=STUB_CODEC, label="emit after an aborted emit"):
                if r.out != "ret" or not is_ok(inst(r.E, r.st, r.value)):
                    continue
                w = stream_of(A, r, [e for e in r.ev[len(p.ev):] if e.kind == "written"])
                done = True
                if op.split()[-1] in ("write", "write_buf"):
                    # such a write is not done in part and then given up: what it took is known
                    whole = list(stream_of(A, r, [e for e in r.ev if e.kind == "written"])[1])
                    while whole and leftover(whole[0]):
                        whole.pop(0)
                    if whole and all(is_frame(("buf", (s,))) is not None for s in whole):
                        A.ok("aborted", 1, "emit after %s was dropped goes on where it stopped" % op)
                        continue
                want = [s for s in w[1] if s[0] == "raw" and s[1][1] == "rest" and s[1][2] == as_buf(data)]
                if want and w[1][0] is want[0] and one_frame(w) is not None:
                    A.ok("aborted", 1, "emit after %s was dropped writes what is left of the first frame, then its own" % op)
                elif imprecise_bytes(w) or summarised(r):
                    A.undecide(r.root, "what is written after an aborted emit is not known: %s" % show(w)[:160])
                else:
                    A.violate("abandoned-write", pos(last[-1]), ("a future that is dropped while it writes an event leaves" if p.out == "cancelled" else "writing that fails leaves") + " a part of its frame on the connection; the next event follows without the rest: %s" % show(w)[:200], "abandoned-write:%s" % op, r)
        if not done:
            A.undecide(p.root, "no event is sent after an aborted emit")


def imprecise_bytes(b):
    return mentions(b, lambda x: len(x) > 1 and x[0] == "t" and x[1] in ("start", "?havoc", "?loopv", "?loopbuf"))


def summarised(p):
    """is the path taken because of what a loop leaves that is not followed to its end"""
    return any(imprecise_bytes(c) for c in p.st.facts)


# ------------------------------------------------------------------ replies
def inserts(p):
    return [e for e in p.ev if e.kind == "dash" and e.args[0] == "insert"]


def removes(p):
    return [e for e in p.ev if e.kind == "dash" and e.args[0] in ("remove", "clear", "retain")]


def channel_of(v):
    """number of the channel whose sending half a value is"""
    for x in subterms(v):
        if len(x) == 3 and x[0] == "t" and x[1] == "tx":
            return x[2]
    return None


def c08(A):
    for kind in ("await_reply", "stream_replies"):
        for p in emitted(A, kind):
            ins = inserts(p)
            ws = [e for e in p.ev if e.kind in ("written", "writefail") and e.args[0] not in ("flush", "shutdown") or e.kind == "pending" and e.args[0] in WRITES]
            if not ws:
                continue
            enc = encoded(p)
            if not enc:
                A.undecide(p.root, "something is written that is no event")
                continue
            g = fields(A, p, enc[-1].args[0])
            if g is None:
                continue
            before = [e for e in ins if p.ev.index(e) < p.ev.index(ws[0])]
            mine = [e for e in before if e.args[2] == g["id"]]
            if mine:
                gone = [e for e in removes(p) if p.ev.index(mine[-1]) < p.ev.index(e) < p.ev.index(ws[0])]
                if gone:
                    A.violate("registered", pos(gone[0]), "the listener is removed before the event is sent", "registered:removed", p)
                else:
                    A.ok("registered", 1, "%s: listener for the id of the event is inserted before %s" % (p.root, pos(ws[0])))
            elif any(imprecise(e.args[2]) for e in before):
                A.undecide(p.root, "id of the listener is not known")
            elif before:
                A.violate("registered", pos(before[-1]), "the listener is registered for %s, but the event that is sent has id %s" % (show(before[-1].args[2])[:200], show(g["id"])[:200]), "registered:id", p)
            else:
                A.violate("registered", pos(ws[0]), "the event is sent before a listener for its reply is registered", "registered:late", p)
            if before:
                own = channel_of(before[-1].args[3])
                for e in p.ev:
                    if e.kind == "recvd":
                        rx = e.args[0]
                        if own is not None and rx == ("t", "rx", own):
                            A.ok("own-replies")
                        elif imprecise(rx) or own is None:
                            A.undecide(pos(e), "channel of a reply is not known")
                        else:
                            A.violate("own-replies", pos(e), "the reply is taken from another channel than the registered one", "own-replies", p)
    A.need("registered", 20)
    A.need("own-replies", 2)


def c09(A):
    streams = reply_histories(A)
    for p in emitted(A, "await_reply") + [q for q in emitted(A, "stream_replies") if not (q.out == "ret" and is_ok(inst(q.E, q.st, q.value)))]:
        if p.out not in ("ret", "cancelled"):
            continue
        released(A, p, "%s" % ("dropped" if p.out == "cancelled" else "done"))
        early(A, p)
        foreign(A, p)
    for p in streams:
        if p.x["op"] == "drop":
            released(A, p, "stream dropped")
        early(A, p)
        foreign(A, p)
    for p in conn_paths(A):
        for e in removes(p):
            if e.task == p.x["reader"] or e.task in p.x["handlers"]:
                A.violate("foreign-removal", pos(e), "a listener is removed while handling a received event", "foreign-removal@" + e.fn, p)
        A.ok("foreign-removal")
    A.need("released", 30)


def foreign(A, p):
    """who waits for a reply removes no listener but its own"""
    own = [(e.args[1], e.args[2]) for e in inserts(p)]
    for e in removes(p):
        if e.args[0] == "clear":
            if any(l == e.args[1] for l, _ in own) or not own:
                A.violate("foreign-removal", pos(e), "the listeners of everybody else are removed", "foreign-removal:clear@" + e.fn, p)
        elif e.args[0] == "remove" and own and (e.args[1], e.args[2]) not in own:
            if (e.args[1], inst(p.E, p.st, e.args[2])) in [(l, inst(p.E, p.st, k)) for l, k in own]:
                continue
            if imprecise(e.args[2]):
                A.undecide(pos(e), "which listener is removed is not known")
            else:
                A.violate("foreign-removal", pos(e), "a listener that was registered by somebody else is removed: %s" % show(e.args[2])[:120], "foreign-removal:other@" + e.fn, p)


def released(A, p, how):
    for e in inserts(p):
        later = p.ev[p.ev.index(e) + 1:]
        if any(r.kind == "dash" and r.args[0] == "remove" and r.args[1] == e.args[1] and r.args[2] == e.args[2] for r in later):
            A.ok("released", 1, "%s (%s)" % (p.root, how))
        elif any(r.kind == "dash" and r.args[0] == "remove" and imprecise(r.args[2]) for r in later):
            A.undecide(p.root, "which listener is removed is not known")
        elif any(r.kind == "dash" and r.args[0] in ("iter", "iter_mut") and r.args[1] == e.args[1] for r in later):
            A.undecide(p.root, "the listener is looked for among all of them")
        else:
            last = [x for x in p.ev if x.kind in ("pending", "ready", "recvd", "elapsed", "closed", "writefail")]
            A.violate("released", p.root, "the listener is still registered when the one waiting is gone (%s, last: %s)" % (how, repr(last[-1])[:160] if last else "-"), "released:%s:%s" % (p.x.get("kind"), how), p)


def early(A, p):
    """nobody removes the listener while the caller waits"""
    ins = inserts(p)
    if not ins:
        return
    i = p.ev.index(ins[-1])
    for j, e in enumerate(p.ev[i + 1:], i + 1):
        if e.kind == "dash" and e.args[0] in ("remove", "clear", "retain"):
            # something still waits for a reply afterwards
            after = [x for x in p.ev[j + 1:] if x.kind in ("pending", "recvd") and (x.kind == "recvd" or x.args[0] == "recv")]
            if after:
                A.violate("early-removal", pos(e), "the listener is removed although more replies are awaited (%s)" % pos(after[0]), "early-removal@" + e.fn, p)
                return
    A.ok("early-removal")


def reply_histories(A):
    """polling and dropping a stream of replies in every distinguishable state"""
    key = "replies"
    if key in A.cache:
        return A.cache[key]
    from r_crypt import shape
    out = A.cache[key] = []
    b = A.trait_body(STREAM_TRAIT, REPLIES, "poll_next")
    if b is None:
        return out
    todo = []
    first = {}
    for p in emitted(A, "stream_replies"):
        if p.out != "ret":
            continue
        v = inst(p.E, p.st, p.value)
        if not is_ok(v) or p.x["fn"] != "emit":
            continue
        # one way of getting the stream is enough
        if first:
            continue
        first[0] = True
        st = p.st
        a = p.E.new_alloc(st, p.value[4][0])
        todo.append((p, ("ref", a, (), True), ()))
    depth = 6 if A.deep else 4
    n = 0
    seen = {}
    while todo and n < (3000 if A.deep else 400):
        p, me, ops = todo.pop(0)
        last = poll_item(ops[-1][1]) if ops else None
        g = fields(A, p, last[1]) if isinstance(last, tuple) and last[0] == "item" else None
        sh = (shape(p.E, p.st, p.E.load_alloc(p.st, me[1])), tuple(o[1] for o in ops)[-1:], vname(A.F, g["event_type"]) if g else None)
        if seen.get(sh, 0) >= 2:
            continue
        seen[sh] = seen.get(sh, 0) + 1
        n += 1
        # dropping it in this state
        d = drop_value(A, p, me, "ResponseStream dropped")
        for q in d:
            q.x = {"op": "drop", "ops": ops, "kind": "stream_replies"}
            out.append(q)
        if len(ops) >= depth:
            continue
        st = p.st.copy()
        st.task = 0
        for q in A.run(b, [me, ("t", "cx")], st=st, drive=False, stubs=STUB_CODEC, label="ResponseStream poll_next"):
            v = inst(q.E, q.st, q.value) if q.out == "ret" else None
            q.since = len(p.ev)
            q.x = {"op": "poll", "ops": ops + ((q.out, v),), "kind": "stream_replies", "before": p}
            out.append(q)
            if q.out == "ret":
                todo.append((q, me, q.x["ops"]))
    return out


def drop_value(A, p, me, label):
    """the owner of a value drops it"""
    st = p.st.copy()
    st.task = 0

    def tweak(E):
        E.drop_root = me[1]
    return A.run(None, [me], st=st, drive=False, label=label, tweak=tweak)


def poll_item(v):
    """what poll_next returned: pending | end | ("item", value) | ("error", value)"""
    if v is None or v[0] != "agg":
        return None
    if is_variant(v, POLL, 1):
        return "pending"
    if not is_variant(v, POLL, 0):
        return None
    o = v[4][0]
    if is_none(o):
        return "end"
    r = some_of(o)
    if r is None:
        return None
    if is_ok(r):
        return ("item", r[4][0])
    if is_err(r):
        return ("error", r[4][0])
    return None


def c10(A):
    want_ix = field_of(A.F, CONTEXT, "default_reply_timeout")
    for kind in ("await_reply", "stream_replies"):
        # the last timeout given counts
        for t in (None, sym("timeout"), [sym("earlier"), sym("timeout")]):
            for p in emitted(A, kind, t):
                t = t[-1] if isinstance(t, list) else t
                default = None
                if want_ix is not None:
                    default = p.E.norm(p.st, p.E.field(p.st, CTX, ("f", want_ix, "default_reply_timeout")))
                want = t if t is not None else default
                if kind == "await_reply":
                    waits(A, p, want)
                elif p.out == "ret" and is_ok(inst(p.E, p.st, p.value)) and p.x["fn"] == "emit":
                    stream_waits(A, p, want)
    A.need("timeout", 4)
    A.need("timeout-error", 2)
    import r_rest
    r_rest.configured_timeout(A)


def stream_waits(A, p, want):
    b = A.trait_body(STREAM_TRAIT, REPLIES, "poll_next")
    if b is None:
        return
    a = p.E.new_alloc(p.st, p.value[4][0])
    me = ("ref", a, (), True)
    level = [p]
    for i in range(3 if A.deep else 2):
        nxt = []
        for q0 in level:
            st = q0.st.copy()
            st.task = 0
            for q in A.run(b, [me, ("t", "cx")], st=st, drive=False, stubs=STUB_CODEC, label="ResponseStream poll_next"):
                q.since = len(q0.ev)
                q.x = {"kind": "stream_replies"}
                waits(A, q, want)
                if q.out == "ret":
                    nxt.append(q)
        level = nxt


def waits(A, p, want):
    """each wait for a reply is raced with a sleep of the wanted duration"""
    ev = p.ev[p.since:]
    for j, e in enumerate(ev):
        if e.kind == "pending" and e.args[0] == "recv":
            after = ev[j:]
            sleeps = [x for x in ev if x.kind in ("start", "pending") and x.args[0] == "sleep"]
            live = [x for x in ev[max(0, j - 40):j + 40] if x.kind in ("pending", "elapsed", "start", "ready") and (x.kind == "elapsed" or x.args[0] == "sleep")]
            if not live:
                A.violate("timeout", pos(e), "waiting for a reply is not limited by a timeout", "timeout:none", p)
                continue
            d = live[-1].args[0] if live[-1].kind == "elapsed" else live[-1].args[1][0]
            d = inst(p.E, p.st, d)
            if d == inst(p.E, p.st, want):
                A.ok("timeout", 1, "%s: reply raced with sleep(%s)" % (pos(e), show(d)))
            elif imprecise(d):
                A.undecide(pos(e), "the timeout is not known: %s" % show(d)[:100])
            else:
                A.violate("timeout", pos(e), "waiting for a reply is limited by %s instead of %s" % (show(d)[:100], show(want)[:100]), "timeout:duration", p)
    v = inst(p.E, p.st, p.value) if p.out == "ret" else None
    el = [e for e in ev if e.kind == "elapsed"]
    got = [e for e in ev if e.kind == "recvd"]
    if v is not None and el and not got:
        it = poll_item(v)
        e = it[1] if isinstance(it, tuple) and it[0] == "error" else v[4][0] if is_err(v) else None
        if e is not None and vname(A.F, e) == "Timeout":
            A.ok("timeout-error")
        elif e is None and not is_ok(v) and it is None:
            A.undecide(p.root, "result %s" % show(v)[:80])
        else:
            A.violate("timeout-error", pos(el[-1]), "when the timeout has passed the result is %s instead of a timeout error" % show(v)[:150], "timeout-error", p)


def c16(A):
    n = {"reply": 0}
    for p in emitted(A, "await_reply"):
        if p.out == "panic":
            A.violate("reply-result", p.site or p.root, "awaiting a reply panics", "reply-result:panic", p)
        if p.out == "loop" and p.task == 0 and any(e.kind == "recvd" for e in p.ev):
            got = [e for e in p.ev if e.kind == "recvd"]
            A.violate("reply-result", pos(got[0]), "a received reply is not reported, but the next one is waited for", "reply-result:skipped", p)
        if p.out != "ret":
            continue
        v = inst(p.E, p.st, p.value)
        got = [e for e in p.ev if e.kind == "recvd"]
        if not got:
            if is_ok(v):
                A.violate("reply-result", p.root, "a reply is reported that was not received: %s" % show(v)[:150], "reply-result:none", p)
            continue
        F = got[0].args[1]
        g = fields(A, p, F)
        if g is None:
            continue
        ty = vname(A.F, g["event_type"])
        reply_outcome(A, p, v, F, g, ty, "reply-result")
    for p in reply_histories(A):
        if p.x["op"] != "poll":
            continue
        prev = [poll_item(o[1]) for o in p.x["ops"][:-1]]
        if p.out == "panic":
            A.violate("stream-item", p.site or p.root, "polling a stream of replies panics after %s" % ops_text(prev), "stream-item:panic", p)
            continue
        if p.out != "ret":
            continue
        it = poll_item(p.x["ops"][-1][1])
        if it is None:
            A.undecide(p.root, "result of polling a stream: %s" % show(p.x["ops"][-1][1])[:100])
            continue
        ended = False
        for o, q in zip(prev, p.x["ops"]):
            if o == "end" or isinstance(o, tuple) and o[0] == "error":
                ended = True
            elif isinstance(o, tuple):
                g = fields(A, p, o[1])
                ty = vname(A.F, g["event_type"]) if g else None
                if ty in ("End", "Error"):
                    ended = True
                elif ty is None:
                    ended = None
        got = [e for e in p.ev[p.since:] if e.kind == "recvd"]
        if ended:
            if it == "end":
                A.ok("stream-end", 1, "after %s the stream keeps reporting its end" % ops_text(prev))
            else:
                A.violate("stream-end", p.root, "after %s polling the stream gives %s" % (ops_text(prev), text_of(it)), "stream-end", p)
            continue
        if ended is None:
            continue
        if isinstance(it, tuple) and it[0] == "item":
            if got and it[1] == got[-1].args[1]:
                A.ok("stream-item", 1, "items are the received events")
            elif imprecise(it[1]):
                A.undecide(p.root, "item of a stream of replies is not known: %s" % show(it[1])[:100])
            else:
                A.violate("stream-item", p.root, "the stream yields %s, received was %s" % (show(it[1])[:150], show(got[-1].args[1])[:100] if got else "nothing"), "stream-item:other", p)
        elif got:
            F = got[-1].args[1]
            A.violate("stream-item", p.root, "a received reply is not yielded: polling the stream gives %s" % text_of(it), "stream-item:lost", p)
        elif it == "end":
            if any(e.kind == "closed" for e in p.ev[p.since:]):
                A.ok("stream-item")
            else:
                A.violate("stream-item", p.root, "the stream ends without a final event, after %s" % ops_text(prev), "stream-item:early-end", p)
        elif isinstance(it, tuple) and it[0] == "error":
            if any(e.kind in ("elapsed", "closed") for e in p.ev[p.since:]):
                A.ok("stream-item")
            else:
                A.violate("stream-item", p.root, "the stream fails with %s although neither the timeout passed nor the connection closed" % show(it[1])[:100], "stream-item:error", p)
        else:
            A.ok("stream-item")
    A.need("reply-result", 3)
    A.need("stream-end", 3)
    A.need("stream-item", 5)


def ops_text(prev):
    return ", ".join(text_of(o) for o in prev) or "nothing"


def text_of(it):
    return it if isinstance(it, str) else "?" if it is None else "%s %s" % (it[0], show(it[1])[:60])


def reply_outcome(A, p, v, F, g, ty, rule):
    if is_ok(v):
        if ty == "Error":
            A.violate(rule, p.root, "an error event is reported as a successful reply", rule + ":error-ok", p)
        elif ty is None and not not_variant(p, g["event_type"], A, "Error"):
            A.violate(rule, p.root, "a reply is reported as success without checking whether it is an error event", rule + ":unchecked", p)
        elif v[4][0] == F:
            A.ok(rule, 1, "the reply is the received event")
        elif imprecise(v[4][0]):
            A.undecide(p.root, "the reply is not known: %s" % show(v[4][0])[:100])
        else:
            A.violate(rule, p.root, "the reply is %s, received was %s" % (show(v[4][0])[:150], show(F)[:100]), rule + ":other", p)
        return
    if not is_err(v):
        A.undecide(p.root, "result %s" % show(v)[:100])
        return
    e = v[4][0]
    if ty not in ("Error", None):
        A.violate(rule, p.root, "a reply that is no error event is reported as error %s" % show(e)[:120], rule + ":ok-error", p)
        return
    # the error carries code and message of the peer, or says that the payload is malformed
    bad = any(x.kind in ("readfail", "utf8err") for x in p.ev)
    data = ("t", "stream", g["data_raw"]) if g["data_raw"] is not None else None
    code = [x for x in subterms(e) if len(x) > 5 and x[0] == "t" and x[1] == "rd"]
    subs = [x for x in subterms(e) if len(x) == 4 and x[0] == "sub"]
    if code and subs:
        c = code[0]
        ok_ = c[3] == I(0) and c[4] == 2 and any(s[2] == I(6) for s in subs)
        src = mentions(c[2], lambda x: x == F) and all(mentions(s[1], lambda x: x == F) for s in subs)
        if ok_ and src:
            A.ok(rule, 1, "the error carries the code and message of the peer")
        else:
            A.violate(rule, p.root, "the error reported for an error event is %s" % show(e)[:200], rule + ":content", p)
    elif bad or data is not None and compatible(p.E, p, new_state(), ERROR_DATA, data, True) is None:
        A.ok(rule, 1, "error events whose data is malformed")
    elif imprecise(e):
        A.undecide(p.root, "error %s" % show(e)[:100])
    else:
        A.violate(rule, p.root, "an error event is reported as %s, without the code and message of the peer" % show(e)[:150], rule + ":content", p)


def not_variant(p, t, A, name):
    """is an enum value known not to be a variant on this path"""
    vs = variants_of(A.F, ETYPE)
    t = p.E.norm(p.st, t)
    if t[0] == "agg":
        return vname(A.F, t) != name
    i = vs.index(name)
    return p.E.norm(p.st, ("t", "isvar", t, i)) == FALSE


# ------------------------------------------------------------------ connections
KINDS = ("client", "server", "pool")


def builds(A):
    """building a client, a server and a pool from an arbitrary builder, with everything they spawn"""
    if "builds" in A.cache:
        return A.cache["builds"]
    out = A.cache["builds"] = {}
    for k, fn in (("client", "build_client"), ("server", "build_server"), ("pool", "build_pooled_client")):
        b = A.body(BUILDER + "::" + fn)
        if b is None:
            out[k] = []
            continue
        args = [sym("self")] + ([I(2)] if k == "pool" else [])
        ps = A.run(b, args, stubs=STUB_CODEC, label=fn)
        for p in ps:
            annotate(A, p, k)
        out[k] = ps
    return out


def annotate(A, p, kind):
    x = p.x = {"conn": kind, "reader": None, "handlers": set(), "frames": [], "kind": kind}
    parent = {}
    for e in p.ev:
        if e.kind == "spawn":
            parent[e.args[0][1]] = e.task
        if e.kind == "framefail" or e.kind == "ready" and e.args[0] == "readframe":
            x["reader"] = e.task
        if e.kind == "frame":
            x["reader"] = e.task
            x["frames"].append((e.args[0], p.ev.index(e)))
    if x["reader"] is not None and x["frames"]:
        first = x["frames"][0][1]
        for e in p.ev[first:]:
            if e.kind == "spawn":
                x["handlers"].add(e.args[0][1])
    x["parent"] = parent


def conn_paths(A):
    out = []
    for k, ps in builds(A).items():
        out += ps
    return out


def abandoned(A, rule):
    """a frame of which a part may have been received is not given up to read the next one"""
    for p in conn_paths(A):
        for i, e in enumerate(p.ev):
            if e.kind != "dropfut" or e.args[0][:2] != ("fut", "readframe") or e.args[0][-1] != "pending":
                continue
            again = [x for x in p.ev[i + 1:] if x.task == e.task and x.kind == "start" and x.args[0] == "readframe" and x.args[1] == e.args[0][2]]
            if again or p.out == "loop" and p.task == e.task and any(x.kind == "loop" and x.task == e.task for x in p.ev[i + 1:]) and reads_in(p, e, i):
                A.violate(rule, p.site or p.root, "reading a frame is given up although a part of it may have been received, and what follows is read as the next frame", rule + ":abandoned", p)
                return
    A.ok(rule, 1, "a frame is read to its end before the next one is read")


def reads_in(p, e, i):
    """does the loop a path goes on with begin before the frame that is given up"""
    at = [x for x in p.ev[i + 1:] if x.kind == "loop" and x.task == e.task][-1].args[:2]
    first = [j for j, x in enumerate(p.ev) if x.kind == "loop" and x.task == e.task and x.args[:2] == at]
    starts = [j for j, x in enumerate(p.ev[:i]) if x.kind == "start" and x.task == e.task and x.args[0] == "readframe"]
    return bool(first) and bool(starts) and first[0] < starts[-1]


class Seg:
    """what happens with one received event on one path"""

    def __init__(self, A, p):
        self.p = p
        self.F, i = p.x["frames"][-1]
        self.ev = p.ev[i:]
        self.r = p.x["reader"]
        self.g = fields(A, p, self.F)
        self.main = p.task == self.r                 # outcome of the reader, otherwise of something it spawned
        self.after = p.x["handlers"]
        self.calls = [e for e in self.ev if e.kind == "usercall"]
        self.sent = [e for e in self.ev if e.kind == "sent" and e.args[1] is not None and mentions(e.args[1], lambda y: y == self.F)]
        self.failed = [e for e in self.ev if e.kind == "sendfail" and (mentions(e.args[1], lambda y: y == self.F) or e.args[1] == en.UNIT)]
        self.gets = [e for e in self.ev if e.kind == "dash" and e.args[0] == "get"]
        self.hits = [e for e in self.ev if e.kind == "dashhit"]
        self.miss = [e for e in self.ev if e.kind == "dashmiss"]
        self.lookups = [e for e in self.ev if e.kind == "mapget"]
        self.spawned = [e for e in self.ev if e.kind == "spawn"]

    def opt(self, f):
        """an optional field of the event on this path: ("some", x), "none" or None if it was not looked at"""
        v = self.g[f]
        v = inst(self.p.E, self.p.st, v)
        if is_none(v):
            return "none"
        x = some_of(v)
        return ("some", x) if x is not None else None

    def type_is(self, A, name):
        """True, False or None"""
        t = self.p.E.norm(self.p.st, self.g["event_type"])
        if t[0] == "agg":
            return vname(A.F, t) == name
        if not_variant(self.p, t, A, name):
            return False
        return None

    def found(self, e):
        return self.p.E.norm(self.p.st, ("t", "mapin", e.args[0], e.args[1]))


def segments(A, kinds=KINDS):
    key = ("segments", kinds)
    if key in A.cache:
        return A.cache[key]
    out = A.cache[key] = []
    bs = builds(A)
    for k in kinds:
        for p in bs.get(k, []):
            if p.x["frames"]:
                s = Seg(A, p)
                if s.g is not None:
                    out.append(s)
    return out


def c11(A):
    for s in segments(A):
        p = s.p
        ref, ns = s.opt("reference_id"), s.opt("namespace")
        # delivered to a listener
        for e in s.sent:
            tx, v = bare(e.args[0]), e.args[1]
            if len(tx) > 3 and tx[1] == "dashval":
                key = tx[3]
                if ref is None or ref == "none" or key != ref[1]:
                    if imprecise(key):
                        A.undecide(pos(e), "key of a listener is not known")
                    else:
                        A.violate("to-listener", pos(e), "an event is delivered to the listener of %s, it references %s" % (show(key)[:100], show(ref[1])[:100] if isinstance(ref, tuple) else "nothing"), "to-listener:key", p)
                    continue
            elif imprecise(tx):
                A.undecide(pos(e), "receiver of an event is not known")
                continue
            else:
                A.violate("to-listener", pos(e), "an event is delivered to something that is no registered listener: %s" % show(tx)[:100], "to-listener:other", p)
                continue
            if v != s.F:
                if imprecise(v):
                    A.undecide(pos(e), "delivered event is not known")
                else:
                    A.violate("to-listener", pos(e), "the delivered event is not the received one: %s" % show(v)[:150], "to-listener:changed", p)
                continue
            more = s.calls + [x for x in s.sent if x is not e]
            if more:
                A.violate("to-listener", pos(more[0]), "an event delivered to its listener is also handed to %s" % pos(more[0]), "to-listener:twice", p)
                continue
            A.ok("to-listener", 1, "%s: the received event goes to the listener of its reference" % pos(e))
        # a registered listener must be used
        if s.hits and not s.sent and not s.failed and (not s.main or p.out == "loop") and any(h.args[1] == (ref[1] if isinstance(ref, tuple) else None) for h in s.hits):
            A.violate("to-listener", pos(s.hits[0]), "an event with a registered listener is not delivered to it", "to-listener:ignored", p)
        # callbacks
        for e in s.calls:
            callback(A, s, e, ref, ns)
        if len(s.calls) > 1:
            A.violate("one-callback", pos(s.calls[1]), "one event is handed to more than one callback", "one-callback", p)
        for e in s.lookups:
            m = e.args[0]
            m = inst(p.E, p.st, m) if m[0] in ("t", "lin") else p.E.snap(p.st, m)
            if m == ("t", "mapnew") and same_name(s, e.args[1], s.g["name"]) and (ns == "none" or isinstance(ns, tuple) and any(s.found(x) == TRUE and same_name(s, x.args[1], ns[1]) for x in s.lookups)):
                A.violate("callback", pos(e), "the callback for an event is looked up where none was ever registered", "callback:none", p)
        # must not be lost
        if s.main and p.out == "loop" and not s.sent:
            dropped_event(A, s, ref, ns)
        if not s.main and p.task in s.after and p.out == "ret" and not s.sent and not s.calls:
            for e in s.lookups:
                if e.args[1] == s.g["name"] and s.found(e) == TRUE and right_map(A, s, e.args[0], ns) is not False:
                    A.violate("callback", pos(e), "there is a callback for the event, but it is not called", "callback:not-called", p)
    A.need("to-listener", 1)
    A.need("callback", 4)
    A.need("dropped", 4)


def right_map(A, s, m, ns):
    """do handlers looked up for an event belong to its namespace"""
    uses = [x for x in subterms(m) if len(x) == 4 and x[0] == "t" and x[1] == "mapget"]
    if ns == "none":
        return not uses
    if isinstance(ns, tuple):
        return any(same_name(s, x[3], ns[1]) for x in uses)
    # the namespace was never looked at
    return None


def same_name(s, a, b):
    return bare(a) == bare(b) or same_bytes(s.p.E, s.p.st, a, b)


def callback(A, s, e, ref, ns):
    p = s.p
    f = bare(e.args[0])
    if not (len(f) == 4 and f[0] == "t" and f[1] == "mapget"):
        if imprecise(f) or f[0] != "t":
            A.undecide(pos(e), "which callback is called is not known: %s" % show(f)[:100])
        else:
            A.violate("callback", pos(e), "the callback that is called was not looked up by name: %s" % show(f)[:100], "callback:which", p)
        return
    if not same_name(s, f[3], s.g["name"]):
        A.violate("callback", pos(e), "the callback registered under %s is called for an event with name %s" % (show(f[3])[:100], show(s.g["name"])[:80]), "callback:name", p)
        return
    ok_ = right_map(A, s, f[2], ns)
    if not ok_:
        A.violate("callback", pos(e), "an event %s is handed to the callbacks %s" % ("of namespace %s" % show(ns[1])[:80] if isinstance(ns, tuple) else "without namespace" if ns == "none" else "whose namespace is not looked at", show(f[2])[:120]), "callback:namespace", p)
        return
    if isinstance(ref, tuple) and not s.miss and not s.failed:
        A.violate("callback", pos(e), "an event that references another one is handed to a callback without looking for a listener", "callback:no-lookup", p)
        return
    if ref is None:
        A.violate("callback", pos(e), "an event is handed to a callback without looking whether it references another one", "callback:no-lookup", p)
        return
    if s.type_is(A, "End") is not False:
        A.violate("callback", pos(e), "end events are handed to callbacks", "callback:end", p)
        return
    args = e.args[1]
    ev = args[-1] if isinstance(args, tuple) else None
    if ev != s.F and inst(p.E, p.st, ev) != inst(p.E, p.st, s.F):
        if imprecise(ev):
            A.undecide(pos(e), "event given to a callback is not known")
        else:
            A.violate("callback", pos(e), "the callback gets %s instead of the received event" % show(ev)[:150], "callback:event", p)
        return
    A.ok("callback", 1, "%s: %s" % (pos(e), show(f)[:120]))


def dropped_event(A, s, ref, ns):
    p = s.p
    if s.spawned:
        A.ok("dropped")
        return
    if s.calls:
        return
    if s.type_is(A, "End") is True:
        A.ok("dropped", 1, "end events without listener are dropped")
        return
    if isinstance(ns, tuple) and any(s.found(e) == FALSE and same_name(s, e.args[1], ns[1]) for e in s.lookups):
        A.ok("dropped", 1, "events for unknown namespaces are dropped")
        return
    if any(s.found(e) == FALSE and same_name(s, e.args[1], s.g["name"]) for e in s.lookups):
        A.ok("dropped", 1, "there is no callback")
        return
    if imprecise(s.F):
        return
    A.violate("dropped", p.site or p.root, "a received event is dropped: reference %s, namespace %s, type %s" % (text_opt(ref), text_opt(ns), show(p.E.norm(p.st, s.g["event_type"]))[:60]), "dropped", p)


def text_opt(o):
    return "not looked at" if o is None else "none" if o == "none" else show(o[1])[:80]


def c12(A):
    for s in segments(A):
        p = s.p
        for e in s.sent + s.failed:
            if e.task != s.r:
                A.violate("in-order", pos(e), "a reply is delivered by another task than the one reading from the connection, so replies can overtake each other", "in-order:task", p)
            else:
                A.ok("in-order", 1, "%s: delivered by the reader before it reads on" % pos(e))
        for e in s.failed:
            if e.args[2:3] == (("t", "full"),) and not s.sent and not any(x.args[2:3] != (("t", "full"),) for x in s.failed) and s.main and p.out == "loop":
                A.violate("not-lost", pos(e), "a reply is discarded or handled differently when the one waiting for it is slow", "not-lost", p)
        if s.sent and s.main and p.out == "loop":
            A.ok("not-lost")
        if s.hits and not s.sent and not s.failed and not s.calls and s.main and p.out == "loop" and any(isinstance(s.opt("reference_id"), tuple) and h.args[1] == s.opt("reference_id")[1] for h in s.hits):
            A.violate("not-lost", pos(s.hits[0]), "a reply somebody waits for is discarded", "not-lost:hit", p)
    A.need("in-order", 4)
    A.need("not-lost", 1)
    # a stream of replies keeps listening until it has ended
    for p in reply_histories(A):
        if p.x["op"] != "poll" or p.out != "ret":
            continue
        shut = [e for e in p.ev[p.since:] if e.kind == "closerx"]
        it = poll_item(p.x["ops"][-1][1])
        if not shut or not (isinstance(it, tuple) and it[0] == "item"):
            A.ok("not-lost")
            continue
        g = fields(A, p, it[1])
        if g is None:
            continue
        if vname(A.F, g["event_type"]) in ("End", "Error") or any(mentions(c, lambda x: x == g["event_type"]) and imprecise(c) for c in p.st.facts):
            continue
        A.violate("not-lost", pos(shut[-1]), "replies after one that is not the last are refused although the stream is still read", "not-lost:closed", p)


def c13(A):
    for s in segments(A):
        p = s.p
        for e in s.ev:
            if e.task != s.r or e.kind != "pending":
                continue
            op = e.args[0]
            if op in ("readframe", "yield_now"):
                A.ok("reader-waits", 1, "%s" % pos(e))
            elif op in ("send", "reserve", "sendfor"):
                A.ok("reader-waits", 1, "%s: for room in the buffer of a listener" % pos(e))
            elif op == "sleep":
                A.violate("reader-waits", pos(e), "the reader of a connection sleeps", "reader-waits:sleep", p)
            elif beside(s, e):
                A.ok("reader-waits", 1, "%s: while waiting for the connection at the same time" % pos(e))
            elif mentions(e.args[1], lambda x: len(x) > 1 and x[0] == "t" and x[1] == "ucall"):
                A.violate("reader-waits", pos(e), "the reader of a connection waits for a callback", "reader-waits:callback", p)
            elif op in ("lock", "acquire", "write_all", "write", "flush", "recv", "await", "join"):
                A.violate("reader-waits", pos(e), "the reader of a connection waits for something else than the connection: %s" % op, "reader-waits:%s" % op, p)
            else:
                A.undecide(pos(e), "the reader waits for %s" % op)
        if s.main:
            A.ok("reader-waits", 1, "the reader after %s" % pos(s.ev[0]) if s.ev else None)
        # callbacks run in their own task
        for e in s.calls:
            if e.task == s.r:
                A.violate("own-task", pos(e), "a callback is called by the reader of the connection", "own-task", p)
            else:
                A.ok("own-task")
        # ... and hold nothing that the callbacks of other events wait for
        called = [e for e in s.calls if e.task != s.r]
        for e, held in Locks(p).walk() if called else ():
            if not any(e is x for x in called):
                continue
            for x in held:
                if x[0] != "shard" and alone(x):
                    if for_everyone(s, x[1]):
                        A.violate("unlocked", pos(e), "a callback runs while its event holds %s, which the events that follow wait for" % ("a permit" if x[0] == "permit" else "an exclusive lock"), "unlocked", p)
                    else:
                        A.ok("unlocked", 1, "%s: a lock of the event itself" % pos(e))
            if not held:
                A.ok("unlocked")
    A.need("own-task", 4)
    A.need("reader-waits", 1)


def alone(x):
    """does holding this lock keep everybody else from holding it"""
    return len(x) < 4 or not x[3].startswith("read")


def for_everyone(s, lock):
    """does a lock exist before the event that is handled"""
    base = lock[2]
    if base[:2] != ("t", "alloc"):
        return not mentions(base, lambda x: len(x) > 1 and x[:2] == ("t", "frame"))
    first = [e.i for e in s.p.ev if e.kind == "frame"]
    made = base[2] if isinstance(base[2], int) else next((x for x in base[2] if isinstance(x, int)), None)
    return bool(first) and made is not None and made < first[0]


def beside(s, e):
    """is a channel waited for only beside what the reader waits for anyway"""
    if not mentions(e.args[1], lambda x: len(x) == 3 and x[:2] == ("t", "rx")):
        return False
    mine = [x for x in s.ev if x.task == s.r and x.kind in ("pending", "ready", "frame", "framefail")]
    i = [j for j, x in enumerate(mine) if x is e][0]
    return any(x.args[0] in ("readframe", "send", "reserve") for x in mine[max(0, i - 1):i] + mine[i + 1:i + 2] if x.kind in ("pending", "ready")) or any(x.kind in ("frame", "framefail") for x in mine[max(0, i - 1):i] + mine[i + 1:i + 2])


def answers(A, s):
    """final events sent for a received event: [(encode event, fields)]"""
    out = []
    for e in s.ev:
        if e.kind == "encode":
            g = fields(A, s.p, e.args[0])
            if g is None:
                continue
            out.append((e, g))
    return out


def gave_away(p, about):
    """is something handed, inside of a future, to a function nothing is known about"""
    def future(x):
        return isinstance(x, tuple) and len(x) > 1 and (x[0] in ("cosusp", "corun") or x[0] == "agg" and x[1] in ("coroutine", "closure"))
    return any(e.kind == "call" and any(mentions(a, future) and about(a) for a in e.args[1]) for e in p.ev)


def c14(A):
    # the tasks that handle events are not ended with the reader
    sets = {e.args[0] for p in conn_paths(A) if p.x["frames"] for e in p.ev if e.kind == "joins" and e.task == p.x["reader"]}
    for p in conn_paths(A):
        for e in p.ev:
            if e.kind == "abortset" and e.args[0] in sets and not any(x.kind == "alljoined" and x.args[0] == e.args[0] for x in p.ev[:p.ev.index(e)]):
                A.violate("answer", pos(e), "the tasks handling events are aborted when the reader of their connection ends", "answer:aborted", p)
    for s in segments(A):
        p = s.p
        ans = answers(A, s)
        fin = []
        for e, g in ans:
            ty = vname(A.F, g["event_type"])
            ref = g["reference_id"]
            mine = some_of(ref) == s.g["id"] if some_of(ref) is not None else False
            if ty in ("End", "Error"):
                if mine:
                    fin.append((e, g, ty))
                elif imprecise(ref):
                    A.undecide(pos(e), "what a final event references is not known: %s" % show(ref)[:80])
                else:
                    A.violate("answer", pos(e), "a final event references %s instead of the handled event" % show(ref)[:100], "answer:reference", p)
            else:
                A.violate("answer", pos(e), "an event of type %s is sent as answer" % ty, "answer:type", p)
        if s.sent and fin:
            A.violate("answer", pos(fin[0][0]), "an event delivered to its listener is answered", "answer:reply", p)
        if s.main:
            if p.out == "loop" and not s.spawned and not s.sent and not fin:
                if s.type_is(A, "End") is True:
                    A.ok("not-answered")
                elif gave_away(s, lambda x: mentions(x, lambda y: y == s.F)):
                    A.undecide(p.root, "an event is given to a function that is not known")
                else:
                    A.violate("answer", p.site or p.root, "an event is neither handed over nor answered", "answer:none", p)
            if s.type_is(A, "End") is True and fin:
                A.violate("answer", pos(fin[0][0]), "end events are answered", "answer:end", p)
            continue
        if p.task not in s.after or p.out != "ret":
            if p.out == "panic":
                A.violate("answer", p.site or p.root, "handling an event panics", "answer:panic", p)
            continue
        if len(fin) > 1:
            A.violate("answer", pos(fin[1][0]), "an event is answered more than once", "answer:twice", p)
            continue
        res = results(s)
        if not fin:
            if too_long(p) or not s.lookups:
                continue
            A.violate("answer", p.root, "an event is handled without being answered (%s)" % ("callback " + res[0][0] if res else "no callback"), "answer:missing", p)
            continue
        e, g, ty = fin[0]
        if not written_once(A, p, s, e):
            continue
        if not s.calls:
            if ty == "End" and p.E.norm(p.st, p.E.length(p.st, g["data_raw"])) == I(0):
                A.ok("answer", 1, "without a callback the answer is an empty end event")
            else:
                A.violate("answer", pos(e), "without a callback the answer is %s with data %s" % (ty, show(g["data_raw"])[:100]), "answer:no-callback", p)
            continue
        if not res:
            A.violate("answer", pos(e), "an event is answered before its callback finished", "answer:early", p)
            continue
        how, v = res[0]
        if p.ev.index(e) < max(p.ev.index(x) for x in s.ev if x.kind == "ready" and x.args[0] == "await"):
            A.violate("answer", pos(e), "an event is answered before its callback finished", "answer:early", p)
            continue
        if how == "succeeded":
            want = data_of_response(A, p, v)
            if ty != "End":
                A.violate("answer", pos(e), "the callback succeeded, but the answer is an error", "answer:ok-error", p)
            elif want is None:
                A.undecide(pos(e), "data of the response is not known")
            elif same_bytes(p.E, p.st, g["data_raw"], want):
                A.ok("answer", 1, "the end event carries %s" % show(want)[:80])
            elif imprecise(g["data_raw"]):
                A.undecide(pos(e), "data of the answer is not known: %s" % show(g["data_raw"])[:100])
            else:
                A.violate("answer", pos(e), "the answer carries %s instead of the response of the callback" % show(g["data_raw"])[:150], "answer:data", p)
        else:
            if ty != "Error":
                A.violate("answer", pos(e), "the callback failed, but the answer is an end event", "answer:error-ok", p)
                continue
            b = bytes_norm(p.E, p.st, p.E.content(p.st, inst(p.E, p.st, g["data_raw"])))
            code = b[1][0][1][:2] if b[1] and b[1][0][0] == "k" else None
            says = mentions(b, lambda x: x == v) or mentions(b, lambda x: len(x) > 1 and x[0] == "t" and x[1] in ("vf",) and bare(x[2]) == bare(v[2]) if len(v) > 2 and v[0] == "t" else False)
            if code == (500).to_bytes(2, "big") or code == tuple((500).to_bytes(2, "big")):
                if mentions(b, lambda x: len(x) > 3 and x[:2] == ("t", "clipped")):
                    A.violate("answer", pos(e), "the error event carries only the start of the error of the callback", "answer:message", p)
                elif says:
                    A.ok("answer", 1, "the error event carries 500 and the error of the callback")
                elif imprecise(b):
                    A.undecide(pos(e), "message of an error event: %s" % show(b)[:150])
                else:
                    A.violate("answer", pos(e), "the error event does not carry the error of the callback: %s" % show(b)[:200], "answer:message", p)
            elif imprecise(b) and code is None:
                A.undecide(pos(e), "code of an error event: %s" % show(b)[:150])
            else:
                A.violate("answer", pos(e), "the error event has the code %s: %s" % (code, show(b)[:100]), "answer:code", p)
    A.need("answer", 6)
    A.need("not-answered", 1)


def results(s):
    """how the callbacks ended: [("succeeded"|"failed", value)]"""
    out = []
    for e in s.ev:
        if e.kind == "ready" and e.args[0] == "await" and mentions(e.args[1], lambda x: len(x) > 1 and x[0] == "t" and x[1] == "ucall"):
            v = inst(s.p.E, s.p.st, e.args[2])
            if is_ok(v):
                out.append(("succeeded", v[4][0]))
            elif is_err(v):
                out.append(("failed", v[4][0]))
    return out


def too_long(p):
    """the answer could not be encoded because a length does not fit in 32 bits"""
    for c, val in p.st.facts.items():
        if val and c[0] == "t" and c[1] == "lt" and c[2][0] == "int" and c[2][1] >= (1 << 32) - 1 and mentions(c[3], lambda x: len(x) > 1 and x[0] == "t" and x[1] == "len"):
            return True
    return False


def written_once(A, p, s, enc):
    """was the encoded event handed to the connection once, or failed"""
    i = s.ev.index(enc)
    ws = [e for e in s.ev[i:] if e.kind == "written" and e.args[0] not in ("flush", "shutdown") and enc.args[0] in frames_in(e.args[2])]
    if len(ws) > 1:
        A.violate("answer", pos(ws[1]), "the answer is written more than once", "answer:written-twice", p)
        return False
    return True


def data_of_response(A, p, v):
    """the bytes in a response: those that Response::payload puts there"""
    R = "bromine::events::event_handler::Response"
    a = A.F.adts.get(R)
    if a is None or len(a["v"]) != 1 or len(a["v"][0]["f"]) != 1:
        return None
    f = a["v"][0]["f"][0]
    v = inst(p.E, p.st, v)
    if v[0] == "agg":
        return v[4][0]
    return p.E.norm(p.st, p.E.field(p.st, v, ("f", 0, f["n"] if isinstance(f, dict) else f[0])))


def c15(A):
    # an arbitrary context: without reference it initiates, with one it responds
    ix = field_of(A.F, CONTEXT, "ref_id")
    for p in emitted(A, ""):
        sent_event(A, p, None)
    # contexts of clients, and those given to callbacks
    b1, b2 = A.body(CONTEXT + "::emit"), A.body(CONTEXT + "::emit_to")
    if b1 is None or b2 is None:
        return
    for k, ps in builds(A).items():
        for p in ps:
            if p.task == 0 and p.out == "ret" and k in ("client", "pool"):
                v = inst(p.E, p.st, p.value)
                if not is_ok(v):
                    continue
                for q, c in contexts_of(A, p, v[4][0], k):
                    for b in (b1, b2):
                        emit_from(A, q, b, c, None, "context of a %s" % k)
    done = set()
    cl = A.trait_body("core::clone::Clone", CONTEXT, "clone", must=False)
    for s in segments(A):
        if s.main or not s.calls:
            continue
        e = s.calls[0]
        if s.p.task != e.task:
            continue
        c = e.args[1][0]
        k = (s.p.x["conn"], show(bare(e.args[0]))[:60], s.opt("reference_id") == "none", s.opt("namespace") == "none")
        if k in done:
            continue
        done.add(k)
        v = c[3] if c[0] == "&" else p_deref(s.p, c)
        for b in (b1, b2):
            emit_from(A, s.p, b, v, s, "context of a callback (%s)" % s.p.x["conn"])
        # callbacks hand copies of their context to tasks of their own
        if cl is not None:
            a = s.p.E.new_alloc(s.p.st, v)
            for q in A.chain(s.p, cl, [("ref", a, (), False)], drive=False):
                if q.out == "ret":
                    emit_from(A, q, b1, inst(q.E, q.st, q.value), s, "copy of the context of a callback (%s)" % s.p.x["conn"])
    A.need("sent-event", 4)
    A.need("outside", 2)
    A.need("inside", 4)


def p_deref(p, c):
    return p.E.at(p.st, c) if c[0] in ("ref", "box", "arc") else c


def contexts_of(A, p, v, kind):
    """the contexts a caller gets from what was built: [(path, context)]"""
    if kind == "client":
        return [(p, v)]
    out = []
    b = A.body(IPC + "context::PooledContext::acquire")
    if b is None:
        return out
    a = p.E.new_alloc(p.st, v)
    for q in A.chain(p, b, [("ref", a, (), False)], drive=False):
        if q.out != "ret":
            continue
        d = A.trait_body("core::ops::deref::Deref", IPC + "context::PoolGuard", "deref")
        if d is None:
            continue
        g = q.E.new_alloc(q.st, q.value)
        for r in A.chain(q, d, [("ref", g, (), False)], drive=False):
            if r.out == "ret":
                out.append((r, r.E.deref_all(r.st, r.value)))
    return out


def emit_from(A, p, b, c, s, what):
    st = p.st.copy()
    st.task = 0
    a = p.E.new_alloc(st, c)
    to = b["name"].endswith("emit_to")
    args = [("ref", a, (), False)] + ([sym("namespace")] if to else []) + [sym("name"), sym("payload")]
    for q in A.run(b, args, st=st, drive=False, label="emit in a " + what):
        if q.out != "ret":
            continue
        for r in A.await_value(q, q.value, stubs=STUB_CODEC, label="emit in a " + what):
            r.x = {"fn": "emit_to" if to else "emit", "kind": ""}
            new = [e for e in r.ev[len(p.ev):] if e.kind == "encode"]
            if r.out != "ret" or not new:
                continue
            g = fields(A, r, new[0].args[0])
            if g is None:
                continue
            ty, ref = vname(A.F, g["event_type"]), g["reference_id"]
            if s is None:
                if ty == "Initiator" and is_none(ref):
                    A.ok("outside", 1, "%s: initiator without reference" % what)
                elif imprecise(ref) or ty is None:
                    A.undecide(r.root, "event emitted in a %s: %s %s" % (what, ty, show(ref)[:80]))
                else:
                    A.violate("outside", b["name"], "an event emitted through a %s is of type %s and references %s" % (what, ty, show(ref)[:100]), "outside:%s" % b["name"].split("::")[-1], r)
            else:
                if ty == "Response" and some_of(ref) is not None and some_of(ref) == s.g["id"]:
                    A.ok("inside", 1, "%s: response that references the handled event" % what)
                elif imprecise(ref) or ty is None:
                    A.undecide(r.root, "event emitted in a %s: %s %s" % (what, ty, show(ref)[:80]))
                else:
                    A.violate("inside", b["name"], "an event emitted through the %s is of type %s and references %s, handled is %s" % (what, ty, show(ref)[:100], show(s.g["id"])[:80]), "inside:%s" % b["name"].split("::")[-1], r)
            sent_event(A, r, g)


def sent_event(A, p, g):
    """name, namespace and payload of the event that is sent are those given by the caller"""
    if g is None:
        enc = encoded(p)
        if not enc:
            return
        if len(enc) > 1:
            A.violate("sent-event", pos(enc[1]), "more than one event is sent", "sent-event:many", p)
            return
        g = fields(A, p, enc[0].args[0])
        if g is None:
            return
        ty, ref = vname(A.F, g["event_type"]), g["reference_id"]
        if ty == "Initiator" and is_none(ref) or ty == "Response" and some_of(ref) is not None:
            A.ok("sent-event")
        elif ty is None or imprecise(ref):
            A.undecide(p.root, "event %s %s" % (ty, show(ref)[:80]))
        else:
            A.violate("sent-event", p.root, "an event of type %s that references %s is sent" % (ty, show(ref)[:80]), "sent-event:type:%s" % p.x["fn"], p)
    E, st = p.E, p.st
    want_ns = en.some(sym("namespace")) if p.x["fn"] == "emit_to" else en.NONE
    ns = g["namespace"]
    checks = [("namespace", same_option(E, st, ns, want_ns), ns), ("name", same_bytes(E, st, g["name"], sym("name")), g["name"])]
    pay = [e for e in p.ev if e.kind == "call" and e.args[0] == INTO_PAYLOAD]
    if pay and pay[-1].args[1][0] == sym("payload"):
        d = E.content(st, inst(E, st, g["data_raw"]))
        ok_ = mentions(d, lambda x: len(x) > 2 and x[0] == "t" and x[1] == "call" and x[2] == INTO_PAYLOAD) and len(d[1]) == 1 and d[1][0][0] == "raw"
        checks.append(("payload", ok_, d))
    else:
        checks.append(("payload", False, g["data_raw"]))
    for what, good, v in checks:
        if good:
            A.ok("sent-event")
        elif imprecise(strip_call(v)):
            A.undecide(p.root, "%s of the sent event is not known: %s" % (what, show(v)[:100]))
        else:
            A.violate("sent-event", p.root, "%s of the sent event is %s, not the one given" % (what, show(v)[:150]), "sent-event:%s:%s" % (p.x["fn"], what), p)


def strip_call(v):
    return rewrite(v, lambda x: ("t", "payload") if len(x) > 2 and x[0] == "t" and x[1] == "call" and x[2] == INTO_PAYLOAD else x)


def same_option(E, st, a, b):
    if is_none(b):
        return is_none(inst(E, st, a))
    x = some_of(inst(E, st, a))
    return x is not None and (x == some_of(b) or same_bytes(E, st, x, some_of(b)))
