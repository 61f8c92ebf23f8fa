"""Ids, locks, servers, builders, pools, stopping, wake-ups."""
import re
from core import *
from r_codec import event_fields, field_of, ETYPE
from r_conn import *
from r_conn import CTX, BUILDER, CONTEXT
from r_crypt import exact, traced, c29_stream, c30_stream


# ------------------------------------------------------------------ event ids
def bit_parts(t):
    """the parts a number is put together from by or, xor and +"""
    if t[0] == "t" and t[1] in ("or", "bor", "xor", "bxor"):
        return bit_parts(t[2]) + bit_parts(t[3])
    if t[0] == "lin":
        out = [I(t[1])] if t[1] else []
        for x, k in t[2]:
            out += [x] if k == 1 else [mul_part(x, k)]
        return out
    if t == I(0):
        return []
    return [t]


def mul_part(x, k):
    if k > 0 and k & (k - 1) == 0:
        return ("t", "shl", x, I(k.bit_length() - 1))
    return ("t", "mul", x, I(k))


def low_bits(t):
    """number of bits a part can have at most"""
    if t[0] == "int":
        return t[1].bit_length()
    if t[0] == "t":
        if t[1] == "typed":
            return t[2] if isinstance(t[2], int) else 64
        if t[1] == "rem" and t[3][0] == "int":
            return (t[3][1] - 1).bit_length()
        if t[1] in ("and", "band") and t[3][0] == "int":
            return t[3][1].bit_length()
        if t[1] == "shl" and t[3][0] == "int":
            return low_bits(t[2]) + t[3][1]
        if t[1] == "shr" and t[3][0] == "int":
            return max(0, low_bits(t[2]) - t[3][1])
    return 64


def shift_of(t):
    n = 0
    while t[0] == "t" and t[1] == "shl" and t[3][0] == "int":
        n += t[3][1]
        t = t[2]
    return n, t


def counter_core(t):
    """(term of an atomic operation, number of its low bits that are kept)"""
    bits = 64
    while t[0] == "t":
        if t[1] in ("and", "band") and t[3][0] == "int" and t[3][1] & (t[3][1] + 1) == 0:
            bits = min(bits, t[3][1].bit_length())
            t = t[2]
        elif t[1] == "rem" and t[3][0] == "int" and t[3][1] > 0 and t[3][1] & (t[3][1] - 1) == 0:
            bits = min(bits, t[3][1].bit_length() - 1)
            t = t[2]
        elif t[1] in ("typed", "cast", "trunc") and isinstance(t[2], int):
            bits = min(bits, t[2])
            t = t[3]
        else:
            break
    return t, bits


def id_term(A, p, t, where):
    """is a term different each of the first 2^32 times it is computed"""
    t = p.E.norm(p.st, t)
    parts = bit_parts(t)
    hits = []
    for x in parts:
        n, y = shift_of(x)
        y, bits = counter_core(y)
        for e in p.ev:
            if e.kind == "atomic" and e.args[3] == y:
                hits.append((x, n, bits, e))
                break
    if not hits:
        if imprecise(t):
            A.undecide(where, "how ids are made is not known: %s" % show(t)[:160])
        else:
            A.violate("unique", where, "the id of an event is not made from a counter: %s" % show(t)[:200], "unique:counter", p)
        return
    why = []
    for x, n, bits, e in hits:
        op, loc, args = e.args[:3]
        width = e.args[4] if len(e.args) > 4 else 64
        bad = None
        step = args[0] if args else None
        if op not in ("fetch_add", "fetch_sub"):
            if op in ("load", "store", "swap", "fetch_max", "fetch_min", "fetch_or", "fetch_and"):
                bad = "the counter is read with %s, so two threads can read the same value" % op
            else:
                A.undecide(where, "counter used with %s" % op)
                return
        elif step is None or step[0] != "int":
            bad = "the counter is advanced by %s" % show(step or ())
        elif step[1] % 2 == 0:
            bad = "the counter is advanced by %d, so its values repeat within 2^32 events" % step[1]
        elif not mentions(loc, lambda y: len(y) > 1 and y[0] == "t" and y[1] == "static"):
            bad = "the counter belongs to %s instead of the whole process" % show(loc)[:100]
        elif mentions(loc, lambda y: len(y) > 1 and y[0] == "t" and y[1] == "threadlocal"):
            bad = "each thread has its own counter"
        elif min(bits, width, 64 - n) < 32:
            bad = "only %d bits of the counter are part of the id" % min(bits, width, 64 - n)
        else:
            for y in parts:
                if y is x:
                    continue
                k, core = shift_of(y)
                if k >= n + 32 or low_bits(y) <= n:
                    continue
                if k == 0 and low_bits(y) > n or k < n + 32:
                    bad = "%s overlaps the counter in bits %d to %d" % (show(y)[:120], n, n + 31)
        if bad is None:
            o = next((o for o in p.ev if o.kind == "atomic" and o is not e and o.args[1] == loc and o.args[0] in ("store", "swap", "fetch_and", "fetch_min", "fetch_sub" if op == "fetch_add" else "fetch_add")), None)
            if o is not None:
                bad = "the counter is also set by %s at %s, so its values repeat" % (o.args[0], pos(o))
        if bad is None:
            A.ok("unique", 1, "%s: 32 bits of %s at bit %d, advanced atomically by %s" % (where, show(loc)[:100], n, show(step)))
            return
        why.append(bad)
    A.violate("unique", where, why[0], "unique", p)


def c17(A):
    for kind in ("", "await_reply", "stream_replies"):
        for p in emitted(A, kind):
            made_ids(A, p)
    for p in conn_paths(A):
        made_ids(A, p)
    A.need("unique", 10)


def made_ids(A, p):
    seen = {}
    for e in encoded(p):
        g = fields(A, p, e.args[0])
        if g is None:
            continue
        if g["id"] in seen and seen[g["id"]] != e.args[0]:
            A.violate("own-id", pos(e), "two events are sent with the same id", "own-id", p)
        seen[g["id"]] = e.args[0]
        id_term(A, p, g["id"], p.root)


# ------------------------------------------------------------------ locks
SYNC = ("shard", "std")


def c18(A):
    ps = []
    for kind in ("", "await_reply", "stream_replies"):
        ps += emitted(A, kind) + emitted(A, kind, tweak=traced)
    ps += conn_paths(A) + reply_histories(A) + [q for q, _ in stops(A)]
    for p in ps:
        held_locks(A, p)
    A.need("held", 20)


def locked_id(e):
    return e.args[1]


def held_locks(A, p):
    for e, held in Locks(p).walk():
        sync = [h for h in held if h[0] in SYNC]
        if e.kind == "pending":
            if sync:
                A.violate("await-locked", pos(e), "%s is held while waiting for %s" % (name_of(sync[-1]), e.args[0]), "await-locked:%s@%s" % (sync[-1][0], e.fn), p)
            if e.args[0] in ("lock", "acquire") and [h for h in held if h[0] == "mutex"]:
                A.violate("nested", pos(e), "a lock is waited for while %s is held" % name_of(held[-1]), "nested@" + e.fn, p)
        elif e.kind == "usercall" or e.kind == "call" and e.args and e.args[0] == INTO_PAYLOAD:
            if held:
                A.violate("user-locked", pos(e), "%s is held while user code is called" % name_of(held[-1]), "user-locked@" + e.fn, p)
            else:
                A.ok("user-code", 1, "no lock is held at %s" % pos(e))
        elif e.kind == "lock":
            A.ok("held")
            same = [h for h in held[:] if h[2] != e.args[2] and h[0] == e.args[0] and (h[1] == e.args[1])]
            if same:
                A.violate("again", pos(e), "%s is taken again while it is held" % name_of(same[-1]), "again@" + e.fn, p)
            elif e.args[0] == "mutex" and [h for h in held if h[2] != e.args[2] and h[0] == "mutex"]:
                A.violate("nested", pos(e), "a lock is taken while %s is held" % name_of(held[-1]), "nested@" + e.fn, p)
        elif e.kind == "dash":
            mine = [h for h in held if h[0] == "shard" and h[1] == e.args[1]]
            if mine:
                A.violate("again", pos(e), "the registry is accessed (%s) while a reference into it is held" % e.args[0], "again:%s@%s" % (e.args[0], e.fn), p)


def name_of(h):
    return {"shard": "a reference into a concurrent map", "std": "a synchronous lock", "mutex": "an asynchronous lock"}.get(h[0], h[0])


# ------------------------------------------------------------------ stopping
def own_contexts(A):
    """(kind, path, context) for the contexts a caller gets from building and callbacks are given"""
    if "own_contexts" in A.cache:
        return A.cache["own_contexts"]
    out = A.cache["own_contexts"] = []
    for k, ps in builds(A).items():
        n = 0
        for p in ps:
            if p.task == 0 and p.out == "ret" and k in ("client", "pool") and is_ok(inst(p.E, p.st, p.value)):
                v = p.E.norm(p.st, p.value)
                for q, c in contexts_of(A, p, v[4][0], k):
                    out.append((k, q, c))
    return out


def context_sig(A, p, c):
    """what distinguishes the contexts of callbacks: what their parts are and whether they are older than the connection"""
    from r_crypt import shape
    if c[0] != "agg":
        return None
    acc = accept_results(p)
    out = []
    for x in c[4]:
        if x[0] in ("arc", "box", "ref"):
            out.append((shape(p.E, p.st, x), acc and isinstance(x[1], tuple) and isinstance(x[1][1], int) and x[1][1] > acc[-1][0].i))
        else:
            out.append(re.sub("[0-9]+", "#", show(p.E.norm(p.st, x)))[:200] if x[0] == "t" else shape(p.E, p.st, x))
    return tuple(out)


def callback_contexts(A):
    """(segment, context) of some calls of a callback per kind of connection and of context"""
    done, out = {}, []
    for s in segments(A):
        if s.main or not s.calls or s.p.task != s.calls[0].task:
            continue
        k = s.p.x["conn"]
        if done.get(k, 0) >= 3000:
            continue
        done[k] = done.get(k, 0) + 1
        c = s.calls[0].args[1][0]
        c = unsnap(s.p.E, s.p.st, c[3]) if c[0] == "&" else p_deref(s.p, c)
        sig = (k, repr(context_sig(A, s.p, c)))
        if done.get(sig, 0) >= (2 if A.deep else 1) * (2 if (k, None) not in done or done[k, None] == sig else 1) or len(done) > 24:
            continue
        done.setdefault((k, None), sig)
        done[sig] = done.get(sig, 0) + 1
        out.append((s, c))
    return out


def stops(A):
    """stopping a context, twice: [(path, (kind, number of calls before, path before))]"""
    if "stops" in A.cache:
        return A.cache["stops"]
    out = A.cache["stops"] = []
    b = A.body(CONTEXT + "::stop")
    if b is None:
        return out
    todo = [(k, p, c, 0) for k, p, c in own_contexts(A)] + [("callback " + s.p.x["conn"], s.p, c, 0) for s, c in callback_contexts(A)]
    while todo:
        k, p, c, n = todo.pop(0)
        for q in A.chain(p, b, [c], label="stop (%s)" % k):
            q.since = len(p.ev)
            out.append((q, (k, n, c)))
            if q.out == "ret" and n < 1:
                todo.append((k, q, c, n + 1))
    return out



def oneshots(p, since=0):
    return [e for e in p.ev[since:] if e.kind in ("sent", "sendfail")]


def reader_ends(A):
    """the tasks that read from a connection end only when reading fails or they are aborted"""
    for p in conn_paths(A):
        if p.task != p.x["reader"] or p.out not in ("ret", "panic"):
            continue
        if p.out == "panic":
            A.violate("reader-ends", p.site or p.root, "the reader of a connection panics", "reader-ends:panic", p)
            continue
        last = [e for e in p.ev if e.task == p.task and e.kind == "ready" and e.args[0] == "readframe"]
        if stopping(p) is not None:
            A.ok("reader-ends", 1, "the reader ends because it was asked to")
            continue
        if not last:
            continue
        if is_err(inst(p.E, p.st, last[-1].args[2])):
            A.ok("reader-ends", 1, "the reader ends because reading failed")
        else:
            A.violate("reader-ends", p.site or p.root, "the reader of a connection ends although an event was read", "reader-ends", p)


def stopping(p):
    """the signal that made the reader of a connection give up reading: its last wait was for a channel"""
    mine = [e for e in p.ev if e.task == p.task and (e.kind in ("framefail", "recvd", "closed") or e.kind == "ready" and e.args[0] in ("readframe", "await"))]
    if mine and signal(mine[-1]) is not None and p.out == "ret":
        return mine[-1]
    return None


def readers_of(A, kind, before):
    """the tasks that read from connections: {task: (path, listener map)} among the paths that begin like a given one"""
    out = {}
    for p in builds(A)[kind]:
        if p.task == p.x["reader"]:
            out.setdefault(p.task, []).append(p)
    return out


def aborted_reader(A, q, kind, ch, hits, c):
    """does the task that got the signal of a context abort the reader of that context's connection"""
    rd = readers_of(A, kind, q)
    for e, p in hits:
        t = [p.task] if e.kind != "abort" else [x[2] for x in subterms(e.args) if len(x) == 3 and x[:2] == ("t", "join")]
        if not t:
            A.undecide(pos(e), "what is aborted is not known: %s" % show(e.args)[:80])
            return None
        if t[0] not in rd:
            return False
        # the reader looks for listeners in the registry of the stopped context
        mine = registry_of(A, q, c)
        maps = {x.args[1] for r in rd[t[0]] for x in r.ev if x.kind == "dash" and x.args[0] == "get" and x.task == r.task}
        if mine and maps and not (mine & maps):
            return False
    return True


def registry_of(A, p, c):
    """the registry a context puts listeners in"""
    return {x for _, x in requests(A, p, c)}


def requests(A, p, c):
    """asking through a context: [(path, registry)]"""
    b, w = A.body(CONTEXT + "::emit"), A.body(EMIT + "::await_reply")
    out = []
    if b is None or w is None:
        return out
    st = p.st.copy()
    st.task = 0
    a = p.E.new_alloc(st, c)
    for q in A.run(b, [("ref", a, (), False), sym("name"), sym("payload")], st=st, drive=False, label="request"):
        if q.out != "ret":
            continue
        for r in A.chain(q, w, [q.value], drive=False, label="request"):
            if r.out != "ret":
                continue
            for z in A.await_value(r, r.value, stubs=STUB_CODEC, label="request"):
                z.since = len(p.ev)
                for e in z.ev[len(p.ev):]:
                    if e.kind == "dash" and e.args[0] == "insert":
                        out.append((z, e.args[1]))
    return out


def signal(e):
    """number of the channel whose message (or end) was waited for"""
    if e.kind in ("recvd", "closed"):
        v = e.args[0]
    elif e.kind == "ready" and e.args[0] == "await":
        v = e.args[1][0]
    else:
        return None
    for x in subterms(v):
        if len(x) == 3 and x[:2] == ("t", "rx"):
            return x[2]
    return None


def c24(A):
    reader_ends(A)
    # the task that waits for the signal
    waits_ = {}
    for p in conn_paths(A):
        ab = [e for e in p.ev if e.kind == "abort"]
        for e in ab:
            before = [x for x in p.ev[:p.ev.index(e)] if x.task == e.task]
            sig = [r for x in before for r in [signal(x)] if r is not None]
            if not sig and any(x.kind == "ready" and x.args[0] == "await" and mentions(x.args[1], lambda y: len(y) > 2 and y[:2] == ("t", "call")) for x in before):
                A.undecide(pos(e), "what is waited for before the reader is aborted is not known")
                continue
            if not sig:
                A.violate("abort", pos(e), "the reader of a connection is aborted without a request to stop it", "abort:unasked@" + e.fn, p)
                continue
            waits_.setdefault((p.x["conn"], sig[-1]), []).append((e, p))
            A.ok("abort", 1, "%s after the signal was received" % pos(e))
        if p.task == p.x["reader"]:
            e = stopping(p)
            if e is not None:
                waits_.setdefault((p.x["conn"], signal(e)), []).append((e, p))
                A.ok("abort", 1, "%s the reader gives up" % pos(e))
    watchers = {(k, ch): hits[0][0].task for (k, ch), hits in waits_.items() if hits[0][0].kind == "abort"}
    for p in conn_paths(A):
        k = p.x["conn"]
        for (kk, ch), task in watchers.items():
            if kk != k:
                continue
            # the task waiting for the signal stops the reader whenever it comes
            if p.task == task and p.out in ("ret", "panic") and not any(e.kind == "abort" and e.task == task for e in p.ev):
                mine = [e for e in p.ev if e.task == task]
                heard = [e for e in mine if signal(e) == ch]
                if heard and (heard[-1].kind == "closed" or heard[-1].kind == "ready" and is_err(inst(p.E, p.st, heard[-1].args[2]))):
                    continue
                if heard and heard[-1].kind == "ready" and not is_ok(inst(p.E, p.st, heard[-1].args[2])) and any(mentions(t, lambda x: x[0] == "t" and x[1] == "call" and not about(x, CONNECT)) for t in p.st.facts):
                    A.undecide(pos(heard[-1]), "result of waiting for the signal")
                    continue
                if heard:
                    A.violate("abort", pos(heard[-1]), "the signal to stop is received, but the reader is not stopped", "abort:ignored:%s" % k, p)
                elif mine:
                    A.violate("abort", pos(mine[-1]), "the task that stops the reader ends without having received the signal", "abort:gone:%s" % k, p)
            # nobody else gives the signal
            for e in p.ev:
                if e.kind == "sent" and e.args[0] == ("t", "tx", ch) and (e.task in p.x["handlers"] or e.task == 0 and p.out == "ret" and is_ok(inst(p.E, p.st, p.value))):
                    A.violate("abort", pos(e), "the reader is told to stop although nobody stopped the context", "abort:unasked:%s" % k, p)
    for q, (k, n, c) in stops(A):
        where = "stop (%s)" % k
        if q.out == "panic":
            A.violate("stop", q.site or where, "stopping a context panics", "stop:panic", q)
            continue
        sent = oneshots(q, q.since)
        if q.out == "cancelled":
            continue
        if q.out != "ret":
            continue
        v = inst(q.E, q.st, q.value)
        own = k.split()[-1] in ("client", "pool")
        conn = k.split()[-1]
        total = [e for e in oneshots(q) if e.args[0][:2] == ("t", "tx")]
        if n == 0 and own:
            ab = [e for e in q.ev[q.since:] if e.kind == "abort"]
            if ab:
                got = aborted_reader(A, q, conn, None, [(ab[-1], q)], c)
                if got is False:
                    A.violate("stop", pos(ab[-1]), "stopping a context aborts something else than the reader of its connection", "stop:other:%s" % k, q)
                elif got:
                    A.ok("stop")
                    A.ok("abort")
                continue
            if not sent and any(e.kind == "call" for e in q.ev[q.since:]):
                A.undecide(where, "how the reader is stopped is not known")
                continue
            if not sent:
                A.violate("stop", where, "stopping a context sends no signal", "stop:none:%s" % k, q)
                continue
            e = sent[-1]
            ch = e.args[0][2] if e.args[0][:2] == ("t", "tx") else None
            if ch is None:
                A.undecide(where, "channel of the signal is not known: %s" % show(e.args[0])[:80])
                continue
            hits = waits_.get((conn, ch))
            if not hits:
                A.violate("stop", pos(e), "the signal of a stopped context reaches nobody who stops its reader", "stop:unheard:%s" % k, q)
                continue
            readers = aborted_reader(A, q, conn, ch, hits, c)
            if readers is False:
                A.violate("stop", pos(hits[0][0]), "stopping a context aborts something else than the reader of its connection", "stop:other:%s" % k, hits[0][1])
                continue
            A.ok("stop", 1, "%s: the signal reaches the task that aborts the reader" % where)
            if len(sent) > 1:
                A.violate("stop", pos(sent[-1]), "the signal is sent more than once", "stop:twice", q)
        elif n > 0 or not own:
            if sent and own:
                A.violate("stop-again", pos(sent[-1]), "stopping a context again sends a signal", "stop-again:sent:%s" % k, q)
            elif is_err(v) and imprecise(c):
                A.undecide(where, "the context that is stopped is not known")
            elif is_err(v):
                A.violate("stop-again", where, "stopping a context %s is an error" % ("again" if n else "of a server"), "stop-again:error:%s" % k, q)
            elif is_ok(v) or sent:
                A.ok("stop-again", 1, where)
            else:
                A.undecide(where, "result %s" % show(v)[:80])
    A.need("stop", 1)
    A.need("stop-again", 3)
    A.need("abort", 1)
    A.need("reader-ends", 1)


# ------------------------------------------------------------------ servers
ACCEPT = "bromine::protocol::AsyncStreamProtocolListener::protocol_accept"
BIND = "bromine::protocol::AsyncStreamProtocolListener::protocol_bind"
CONNECT = "bromine::protocol::AsyncProtocolStream::protocol_connect"
SPLIT = "bromine::protocol::AsyncProtocolStreamSplit::protocol_into_split"
ERROR = "bromine::error::Error"


def calls(ev, name):
    return [e for e in ev if e.kind == "call" and e.args[0] == name]


def about(v, name):
    return mentions(v, lambda x: len(x) > 2 and x[0] == "t" and x[1] == "call" and x[2] == name)


def accept_results(p, task=0):
    """(event, value) each time accepting a connection was done"""
    return [(e, inst(p.E, p.st, e.args[2])) for e in p.ev if e.kind == "ready" and e.task == task and e.args[0] == "await" and about(e.args[1], ACCEPT) and not about(e.args[1], SPLIT)]


def error_variant(A, p, v):
    """name of the variant of an error if the path knows it; None if it can be any that is not excluded"""
    e = inst(p.E, p.st, v)
    return vname(A.F, e), e


def may_be(A, p, e, name):
    """can an error be of a variant on this path"""
    n = vname(A.F, e)
    if n is not None:
        return n == name
    i = variants_of(A.F, ERROR).index(name)
    return p.E.norm(p.st, ("t", "isvar", e, i)) != FALSE


def c19(A):
    ps = builds(A)["server"]
    serving = False
    for p in ps:
        for e in calls(p.ev, "std::process::exit") + calls(p.ev, "std::process::abort"):
            A.violate("goes-on", pos(e), "the whole process is ended", "goes-on:exit", p)
        if p.task != 0:
            continue
        acc = accept_results(p)
        if p.out == "panic" and acc:
            A.violate("goes-on", p.site or p.root, "the server panics after accepting a connection", "goes-on:panic", p)
        if p.out == "ret" and acc:
            e, v = acc[-1]
            if is_ok(v):
                A.violate("goes-on", pos(e), "the server stops after it accepted a connection", "goes-on:accepted", p)
            elif is_err(v) and may_be(A, p, v[4][0], "IoError"):
                A.violate("goes-on", pos(e), "the server stops when accepting a connection fails with an input/output error", "goes-on:io", p)
            elif is_err(v):
                A.ok("goes-on", 1, "the server stops for other errors than those of input and output only")
            else:
                A.violate("goes-on", pos(e), "the server stops whatever accepting a connection results in", "goes-on:any", p)
        if p.out == "ret":
            waits = [e for e in p.ev if e.task == 0 and (e.kind in ("ready", "elapsed") and (e.kind == "elapsed" or e.args[0] == "await"))]
            if waits and waits[-1].kind == "elapsed":
                A.violate("goes-on", pos(waits[-1]), "the server stops because time has passed", "goes-on:time", p)
        if p.out == "loop" and acc:
            v = acc[-1][1]
            A.ok("goes-on", 1, "after %s the next connection is accepted" % ("an error" if is_err(v) else "a connection was accepted"))
        # what accepting the next connection waits for; the accept loop begins before the first connection is accepted
        i = next((p.ev.index(e) for e, _ in acc), None)
        i = max([j for j, e in enumerate(p.ev[:i]) if e.kind == "loop" and e.task == 0] or [i], key=lambda j: -1 if j is None else j)
        for e in p.ev[i:] if i is not None else ():
            if e.task != 0 or e.kind != "pending":
                continue
            if e.args[0] == "await" and (about(e.args[1], ACCEPT) or not acc and about(e.args[1], BIND)) and not about(e.args[1], SPLIT):
                continue
            if e.args[0] == "sleep":
                d = duration_of(A, e.args[1][0])
                if d is not None and d > 5:
                    A.violate("concurrent", pos(e), "accepting the next connection waits for %s seconds" % d, "concurrent:sleep", p)
                elif acc and is_ok(acc[-1][1]):
                    A.undecide(pos(e), "the server sleeps after accepting a connection")
                else:
                    A.ok("concurrent")
                continue
            if e.args[0] in ("yield_now", "readyval") or accepting_beside(p, e):
                continue
            if e.args[0] in ("joinnext", "shutset") or mentions(e.args[1], lambda x: len(x) > 2 and x[0] == "t" and x[1] == "ucall") or e.args[0] in ("readframe", "recv", "read", "readexact", "readint", "write_all", "write_all_buf", "flush", "lock", "acquire") or about(e.args[1], SPLIT) or mentions(e.args[1], lambda x: len(x) > 2 and (x[:2] == ("t", "join") or x[:2] == ("t", "call") and x[2].startswith(("tokio::sync::", "tokio::task::")))):
                A.violate("concurrent", pos(e), "accepting the next connection waits for the ones accepted before (%s)" % e.args[0], "concurrent:%s" % e.args[0], p)
            else:
                A.undecide(pos(e), "the server waits for %s" % show(e.args)[:100])
        for e in p.ev:
            if e.kind == "abortset" and e.args[1] == ("t", "asked") and any(x.kind == "joins" and x.args[0] == e.args[0] for x in p.ev):
                A.violate("isolated", pos(e), "the server aborts the tasks of connections it accepted", "isolated:abort", p)
    for p in ps:
        if p.x["reader"] is not None:
            if p.x["reader"] == 0:
                A.violate("concurrent", p.root, "a connection is served by the task that accepts connections", "concurrent:inline", p)
            else:
                A.ok("concurrent", 1, "a connection is served by a task of its own")
            if p.x["frames"]:
                serving = True
    if not serving and not A.undecided and not any(gave_away(p, lambda x: about(x, ACCEPT)) for p in ps):
        A.violate("concurrent", "IPCServer", "nothing is read from accepted connections", "concurrent:none")
    exchange_failure(A)
    A.need("goes-on", 3)
    A.need("concurrent", 2)


def accepting_beside(p, e):
    """is something waited for at the same time as the next connection"""
    i = p.ev.index(e)
    for r in (reversed(p.ev[:i]), p.ev[i + 1:]):
        for x in r:
            if x.task != e.task:
                continue
            if x.kind in ("pending", "ready") and x.args[0] == "await" and about(x.args[1], ACCEPT) and not about(x.args[1], SPLIT) and (x.kind == "pending" or p.ev.index(x) > i):
                return True
            if x.kind in ("ready", "loop", "dropfut", "spawn"):
                break
    return False


def duration_of(A, v):
    """seconds of a constant duration"""
    for x in subterms(v):
        if len(x) == 3 and x[:2] == ("t", "dur") and x[2][0] == "int":
            return x[2][1]
    return None


LISTENER_TRAIT = "bromine::protocol::AsyncStreamProtocolListener"


def exchange_failure(A):
    """accepting an encrypted connection: failed key exchanges are no reason to stop accepting"""
    lis = [im for im in A.F.impls if im.get("trait") == LISTENER_TRAIT]
    for im in lis:
        for m, b in im["items"]:
            if m != "protocol_accept":
                continue
            body = A.F.bodies.get(b)
            if body is None:
                continue
            name = A.F.t(im["self"]).get("n", "?").split("::")[-1]
            for p in A.run(body, [sym("listener")], label="protocol_accept of %s" % name, tweak=None):
                inner = accept_results(p)
                if p.out == "panic":
                    A.violate("accept", p.site or p.root, "accepting a connection panics", "accept:panic:%s" % name, p)
                    continue
                if p.out == "ret":
                    v = inst(p.E, p.st, p.value)
                    if not inner:
                        if is_err(v) and not may_be(A, p, v[4][0], "IoError"):
                            A.violate("accept", p.root, "failing to accept a connection is reported as %s, for which the server stops" % show(v[4][0])[:100], "accept:error:%s" % name, p)
                        else:
                            A.ok("accept")
                        continue
                    if is_err(v) and is_ok(inner[-1][1]):
                        # not an error of the listener but of one connection
                        e = v[4][0]
                        if vname(A.F, e) == "IoError":
                            A.ok("accept")
                        else:
                            A.violate("accept", p.site or p.root, "when the key exchange with one peer fails accepting fails with %s, for which the server stops" % show(e)[:120], "accept:exchange:%s" % name, p)
                        continue
                    A.ok("accept", 1, "%s: a result of the inner listener is passed on" % name)
                elif p.out == "loop" and inner and is_ok(inner[-1][1]):
                    A.ok("accept", 1, "%s: after a failed key exchange the next connection is accepted" % name)
                for e in p.ev:
                    if e.kind == "pending" and e.task == 0 and inner and is_ok(inner[0][1]) and p.ev.index(e) > p.ev.index(inner[0][0]) and p.out == "cancelled":
                        A.violate("accept-waits", pos(e), "accepting the next connection waits for the key exchange with the one before (%s)" % e.args[0], "handshake-in-accept", p)
    A.need("accept", 2)


# ------------------------------------------------------------------ isolation and sharing
def split_of(v):
    """the connection a half belongs to: the value that was split"""
    for x in subterms(v):
        if len(x) > 3 and x[0] == "t" and x[1] == "call" and x[2] == SPLIT:
            return x
    return None


def arcs(v):
    return {x[1] for x in subterms(v) if len(x) == 2 and x[0] == "arc"} | {x[1] for x in subterms(v) if len(x) == 5 and x[0] == "&" and x[4] == "arc"}


def shared_data(A, p, c):
    """storage and content of the shared data of a context"""
    i = field_of(A.F, CONTEXT, "data")
    if i is None or c[0] != "agg":
        return None
    d = c[4][i]
    if d[0] != "arc":
        return None
    v = p.E.load_alloc(p.st, d[1])
    return d[1], (v[4][0] if v[0] == "agg" and v[2] == "lock" else v)


def reader_map(p):
    """the registry the reader of a path looks for listeners in"""
    for e in p.ev:
        if e.kind == "dash" and e.args[0] == "get" and e.task == p.x["reader"]:
            return e.args[1]
    return None


def reader_source(A, p):
    """what the reader of a path reads from"""
    for e in p.ev:
        if e.kind == "frame" and e.task == p.x["reader"]:
            r = e.args[1]
            return split_of(inst(p.E, p.st, p.E.at(p.st, r)) if r[0] == "ref" else r)
    return None


def spawn_index(p, tid):
    for i, e in enumerate(p.ev):
        if e.kind == "spawn" and e.args[0][1] == tid:
            return i
    return None


def same_start(p, q, n):
    return all(a.kind == b.kind and a.args == b.args for a, b in zip(p.ev[:n], q.ev[:n])) and len(p.ev) >= n and len(q.ev) >= n


def use_context(A, p, c, what, registry, source, rule):
    """what a context does goes to the connection and the registry that belong to its reader"""
    for q, m in requests(A, p, c):
        if registry is not None:
            if m == registry:
                A.ok(rule, 1, "%s: listeners are registered where its reader looks for them" % what)
            elif imprecise(m) or imprecise(registry):
                A.undecide(what, "registry is not known: %s" % show(m)[:80])
            else:
                A.violate(rule, q.root, "the %s registers listeners in %s, its reader looks for them in %s" % (what, show(m)[:80], show(registry)[:80]), "%s:registry:%s" % (rule, what), q)
        if source is None:
            continue
        for e in q.ev[q.since:]:
            if e.kind in ("written", "flushed"):
                w = split_of(e.args[3] if e.kind == "written" else e.args[2])
                if w is None:
                    A.undecide(what, "what is written to is not known")
                elif w == source:
                    A.ok(rule)
                else:
                    A.violate(rule, pos(e), "the %s writes to another connection than the one its reader reads from" % what, "%s:connection:%s" % (rule, what), q)


def c20(A):
    # contexts of callbacks: same connection, own registry, shared data
    for s, c in callback_contexts(A):
        p, k = s.p, s.p.x["conn"]
        what = "context of a callback (%s)" % k
        use_context(A, p, c, what, reader_map(p), reader_source(A, p), "own")
        d = shared_data(A, p, c)
        if d is not None:
            a, v = d
            if not from_builder(v):
                A.violate("shared", what, "the data of a %s is %s, not the data of the builder" % (what, show(v)[:100]), "shared:data:%s" % k, p)
            else:
                A.ok("shared", 1, "%s has the data of the builder" % what)
        if k != "server":
            continue
        acc = accept_results(p)
        if not acc:
            A.undecide(what, "no connection is accepted")
            continue
        born = acc[-1][0].i
        if d is not None and d[0][1] > born:
            A.violate("shared", what, "each connection of a server has data of its own", "shared:copy", p)
        elif d is not None:
            A.ok("shared", 1, "the data is created before connections are accepted")
        # registry and writer
        i, j = field_of(A.F, CONTEXT, "reply_listeners"), field_of(A.F, CONTEXT, "emitter")
        for q, m in requests(A, p, c):
            n = [e.i for e in p.ev if e.kind == "newmap" and e.args[0] == m]
            if not n and mentions(m, lambda x: x[:2] == ("t", "static")) and not mentions(m, lambda x: x[:2] in (("t", "mapget"), ("t", "dashval"), ("t", "call"))):
                A.violate("isolated", what, "the registry for replies is a static one: all connections share it", "isolated:static", p)
            elif n:
                if n[0] > born:
                    A.ok("isolated", 1, "the registry of a connection is created after it is accepted")
                else:
                    A.violate("isolated", what, "the registry for replies is created before connections are accepted: they share it", "isolated:registry", p)
            else:
                A.undecide(what, "where the registry is created is not known: %s" % show(m)[:80])
            for e in q.ev[q.since:]:
                if e.kind == "written":
                    r = target_root(e.args[1])
                    if r[0] in ("box", "arc", "h") and isinstance(r[1], int):
                        if r[1] > born:
                            A.ok("isolated")
                        else:
                            A.violate("isolated", pos(e), "what a connection of a server writes to is created before it is accepted", "isolated:writer", q)
    # handlers and namespaces come from the builder and exist before connections are accepted
    for s in segments(A):
        for e in s.lookups:
            if from_builder(e.args[0]) or e.args[0] == ("t", "mapempty"):
                A.ok("handlers")
            elif imprecise(e.args[0]):
                A.undecide(pos(e), "handlers are looked up in %s" % show(e.args[0])[:80])
    # contexts a client or pool gives to its user
    for k, q, c in own_contexts(A):
        src = None
        for x in subterms(q.E.snap(q.st, c)):
            if len(x) > 3 and x[0] == "t" and x[1] == "call" and x[2] == SPLIT:
                src = x
                break
        what = "context of a %s" % k
        maps = [reader_map(p) for p in builds(A)[k] if p.task == p.x["reader"] and reader_source(A, p) == src and reader_map(p) is not None and src is not None]
        if not maps:
            if src is None:
                A.undecide(what, "the connection of a context is not known")
            else:
                A.violate("own", what, "nobody reads from the connection of a %s" % what, "own:unread:%s" % k, q)
            continue
        use_context(A, q, c, what, maps[0], src, "own")
        d = shared_data(A, q, c)
        if d is not None and from_builder(d[1]):
            A.ok("shared")
        elif d is not None:
            A.violate("shared", what, "the data of a %s is %s, not the data of the builder" % (what, show(d[1])[:100]), "shared:data:%s" % k, q)
    A.need("own", 6)
    A.need("isolated", 2)
    A.need("shared", 2)


def from_builder(v):
    return mentions(v, lambda x: x == sym("self"))


# ------------------------------------------------------------------ configuration
NSBUILDER = "bromine::namespaces::builder::NamespaceBuilder"
NAMESPACE = "bromine::namespaces::namespace::Namespace"
BUILDS = ("client", "server", "pool")


def struct_fields(A, name):
    a = A.F.adts.get(name)
    return [(f["n"], f["t"]) for f in a["v"][0]["f"]] if a and len(a["v"]) == 1 else []


def field_names(A, v, name):
    """what a changed struct has in its fields: {term of the field before: value now}"""
    out = {}
    fs = struct_fields(A, name)
    if v[0] != "agg":
        return out
    if v[1] != "lazy":
        for (n, _), x in zip(fs, v[4]):
            out[("t", "f", sym("self"), n)] = x
        return out

    def walk(v, name):
        fs = struct_fields(A, name)
        for i, x in v[4]:
            if i >= len(fs):
                continue
            t = ("t", "f", v[2], fs[i][0])
            if x[0] == "agg" and x[1] == "lazy" and x[2] == t:
                ty = A.F.t(fs[i][1])
                walk(x, ty.get("n", "?"))
            else:
                out[t] = x
    walk(v, name)
    return out


def substitute(A, t, D):
    """a term about the builder, for another builder"""
    if not isinstance(t, tuple) or not t:
        return t
    if t in D:
        return D[t]
    if t[0] in ("int", "fn"):
        return t
    w = tuple(substitute(A, x, D) if isinstance(x, tuple) else x for x in t)
    if w[0] != "t":
        return w
    if w[1] == "vf" and w[2][0] == "agg" and w[2][1] != "lazy" and w[2][3] == w[3]:
        return w[2][4][w[4]]
    if w[1] == "*" and w[2][0] == "&":
        return w[2][3]
    if w[1] == "*" and w[2][0] == "agg":
        return w[2]
    if w[1] == "f" and w[2][0] == "agg":
        fs = struct_fields(A, w[2][2]) if isinstance(w[2][2], str) else []
        for i, (n, _) in enumerate(fs):
            if n == w[3] and i < len(w[2][4]):
                return w[2][4][i]
    if w[1] == "mapget" and w[2][:2] == ("t", "mapins") and w[2][3] == w[3]:
        return w[2][4]
    return w


def observables(A):
    """what is done with each part of an arbitrary builder: {(kind of build, what): {term: where}}"""
    if "observables" in A.cache:
        return A.cache["observables"]
    O = A.cache["observables"] = {}

    def add(k, what, t, where, p):
        O.setdefault((k, what), {}).setdefault(t, (where, p))
    for k, ps in builds(A).items():
        for p in ps:
            for e in calls(p.ev, BIND) + calls(p.ev, CONNECT):
                add(k, "address", inst(p.E, p.st, e.args[1][0]), pos(e), p)
                add(k, "options", inst(p.E, p.st, e.args[1][1]), pos(e), p)
    found = [(s, e, p_term(s.p, e.args[0])) for s in segments(A) for e in s.lookups]
    outer = {x[2] for _, _, M in found for x in subterms(M) if len(x) == 4 and x[:2] == ("t", "mapget")}
    for s, e, M in found:
        if M == ("t", "mapnew") and s.opt("namespace") != "none":
            continue
        o = "namespaces" if M in outer else "nshandlers" if any(len(x) == 4 and x[:2] == ("t", "mapget") for x in subterms(M)) else "handlers"
        add(s.p.x["conn"], o, M, pos(e), s.p)
    pay = A.body(CONTEXT + "::create_serde_payload")
    for k, p, c in [(k, q, c) for k, q, c in own_contexts(A)] + [(s.p.x["conn"], s.p, c) for s, c in callback_contexts(A)]:
        d = shared_data(A, p, c)
        if d is not None:
            add(k, "data", d[1], "context", p)
        for r, _ in requests(A, p, c):
            for e in r.ev[r.since:]:
                if e.kind == "pending" and e.args[0] == "sleep":
                    add(k, "timeout", inst(r.E, r.st, e.args[1][0]), pos(e), r)
        if pay is None:
            continue
        for r in A.chain(p, pay, [c, sym("data")], label="create_serde_payload"):
            if r.out != "ret":
                continue
            v = inst(r.E, r.st, r.value)
            for x in (v[4] if v[0] == "agg" else ()):
                if x != sym("data"):
                    x = substitute(A, inst(r.E, r.st, r.E.deref_all(r.st, x)), {})
                    add(k, "serializer", x, "create_serde_payload", r)
    return O


def p_term(p, M):
    return inst(p.E, p.st, M) if M[0] in ("t", "lin") else p.E.snap(p.st, M)


def plain(p, v, depth=12):
    """a value with what it refers to put in"""
    if not isinstance(v, tuple) or not v or depth == 0:
        return v
    if v[0] in ("arc", "box") and len(v) == 2 or v[0] == "ref" and len(v) == 4:
        x = unshared(p.E.snap(p.st, v))
        return plain(p, x, depth - 1) if x != v else v
    return tuple(plain(p, x, depth) if isinstance(x, tuple) else x for x in v)


def unshared(v):
    """a snapshot as a plain value"""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == "&" and len(v) == 5:
        return unshared(v[3])
    return tuple(unshared(x) if isinstance(x, tuple) else x for x in v)


def compare_options(A, rule, what, p, D, expected, cells=None):
    """every observable of a builder made from an arbitrary one against what is expected of it"""
    for (k, o), ts in observables(A).items():
        for t, (where, bp) in ts.items():
            got = unshared(substitute(A, t, D))
            want = expected(k, o, t)
            if isinstance(want, tuple) and want[0] != "any":
                want = unshared(want)
            w = "%s, used as %s of a %s" % (what, o, k)
            if callable(want):
                r = want(got)
            else:
                r = got == want
            if r:
                A.ok(rule, 1, w)
            elif imprecise(got) or any(x[0] == "&" for x in subterms(got)):
                A.undecide(p.root, "%s: %s" % (w, show(got)[:120]))
            elif cells and any(mentions(got, lambda x: x == c) for c in cells):
                A.undecide(p.root, "%s is changed in place" % w)
            else:
                A.violate(rule, fn_span(A, p), "after %s the %s a %s uses (at %s) is %s" % (what, o, k, where, show(got)[:160]), "%s:%s:%s:%s" % (rule, what, o, k), p)


def fn_span(A, p):
    return p.root


def changed_cells(p, before=0):
    """map entries changed in place"""
    out = []
    for a, v in p.st.mem.items():
        if a[0] == "p" and a[1][:2] == ("t", "mapref") and v != ("t", "mapget", a[1][2], a[1][3]) and not (a[1][2][:2] == ("t", "mapins") and a[1][2][4] == v):
            out.append(a[1][2])
    return out


def setter(A, rule, name, args, chain=None):
    """paths of a method of the builder"""
    b = A.body(name)
    if b is None:
        return []
    ps = A.run(b, args, label=name.split("::")[-1]) if chain is None else A.chain(chain, b, args, label=name.split("::")[-1])
    out = []
    for p in ps:
        if p.out == "panic":
            A.violate(rule, p.site or p.root, "%s panics" % name.split("::")[-1], "%s:panic:%s" % (rule, name.split("::")[-1]), p)
        elif p.out == "ret":
            out.append(p)
    return out


def inserted(before, key, cb):
    """expectation: a map is the one before with an entry added that has a given value"""
    def f(got):
        return got[:2] == ("t", "mapins") and got[2] == before and key(got[3]) and cb(got[4])
    return f


def c21(A):
    O = observables(A)
    for k in BUILDS:
        for o in ("address", "options", "handlers", "namespaces", "nshandlers", "data", "timeout"):
            if (k, o) not in O and not A.undecided:
                A.violate("used", "build_" + k, "the %s given to the builder is not used by a %s" % (o, k), "used:%s:%s" % (o, k))
    a0, a1 = sym("a0"), sym("a1")
    simple = {"address": ("address", BUILDS), "timeout": ("timeout", BUILDS), "default_serializer": ("serializer", BUILDS),
              "server_options": ("options", ("server",)), "client_options": ("options", ("client", "pool"))}
    for n, (o, ks) in simple.items():
        for p in setter(A, "option", BUILDER + "::" + n, [sym("self"), a0]):
            D = field_names(A, plain(p, p.value), BUILDER)
            compare_options(A, "option", n, p, D, lambda k, w, t: a0 if w == o and k in ks else t)
    for n, op in (("insert", "tminsert"), ("insert_all", "tmextend")):
        for p in setter(A, "option", BUILDER + "::" + n, [sym("self"), a0]):
            D = field_names(A, plain(p, p.value), BUILDER)
            compare_options(A, "option", n, p, D, lambda k, w, t: (lambda g: g[:2] == ("t", op) and g[2] == t and g[3] == a0) if w == "data" else t)
    is0, is1 = (lambda x: bare(x) == a0), (lambda x: mentions(x, lambda y: y == a1))
    for p in setter(A, "callback", BUILDER + "::on", [sym("self"), a0, a1]):
        D = field_names(A, plain(p, p.value), BUILDER)
        compare_options(A, "callback", "on", p, D, lambda k, w, t: inserted(t, is0, is1) if w == "handlers" else t, changed_cells(p))
    namespaces(A)
    defaults(A)
    A.need("option", 43)
    A.need("callback", 6)
    A.need("namespace", 20)
    A.need("default", 1)


def configured_timeout(A):
    """every context waits as long as the builder was told to"""
    a0 = sym("a0")
    for p in setter(A, "configured", BUILDER + "::timeout", [sym("self"), a0]):
        D = field_names(A, plain(p, p.value), BUILDER)
        for (k, o), ts in observables(A).items():
            for t, (where, bp) in ts.items() if o == "timeout" else ():
                got = unshared(substitute(A, t, D))
                if got == a0:
                    A.ok("configured", 1, "timeout of a %s" % k)
                elif imprecise(got):
                    A.undecide(where, "the default timeout of a %s: %s" % (k, show(got)[:120]))
                else:
                    A.violate("configured", where, "the default timeout of a %s is %s, not the one given to the builder" % (k, show(got)[:160]), "configured:%s" % k, bp)
    A.need("configured", 1)


def namespaces(A):
    a0, a1 = sym("ev"), sym("cb")
    nb = A.body(BUILDER + "::namespace")

    def check(p, what, name, handlers):
        """the builder has a namespace more, with these callbacks"""
        D = field_names(A, plain(p, p.value), BUILDER)
        maps = {t for (k, o), ts in observables(A).items() if o == "namespaces" for t in ts}
        for t in maps:
            got = substitute(A, t, D)
            if got[:2] == ("t", "mapins"):
                # what is registered is found under the name it was looked up with
                for (k, o), ts in observables(A).items():
                    if o == "nshandlers":
                        for x in ts:
                            for y in subterms(x):
                                if len(y) == 4 and y[:2] == ("t", "mapget"):
                                    D[y] = got[4]

        def registered(g, k, t):
            if g[:2] != ("t", "mapins") or g[2] != t:
                return False
            if name(bare(g[3])):
                return True
            if imprecise(g[3]):
                return False
            A.violate("namespace", p.root, "after %s the namespace is registered as %s" % (what, show(g[3])[:160]), "namespace:name:%s:%s" % (what, k), p)
            return True

        def want(k, o, t):
            if o == "namespaces":
                return lambda g: registered(g, k, t)
            if o == "nshandlers":
                return lambda g: handlers(g)
            return t
        compare_options(A, "namespace", what, p, D, want, changed_cells(p))

    new = ("t", "mapnew")
    nm = sym("name")
    for p in setter(A, "namespace", BUILDER + "::namespace", [sym("self"), nm]):
        for r in setter(A, "namespace", NSBUILDER + "::build", [p.value], chain=p):
            check(r, "namespace without callbacks", lambda x: x == nm, lambda g: g == new)
        for q in setter(A, "namespace", NSBUILDER + "::on", [p.value, a0, a1], chain=p):
            for r in setter(A, "namespace", NSBUILDER + "::build", [q.value], chain=q):
                check(r, "namespace", lambda x: x == nm, inserted(new, lambda x: bare(x) == a0, lambda x: mentions(x, lambda y: y == a1)))
            for q2 in setter(A, "namespace", NSBUILDER + "::on", [q.value, sym("ev2"), sym("cb2")], chain=q):
                for r in setter(A, "namespace", NSBUILDER + "::build", [q2.value], chain=q2):
                    one = inserted(new, lambda x: bare(x) == a0, lambda x: mentions(x, lambda y: y == a1))
                    check(r, "namespace with two callbacks", lambda x: x == nm, lambda g: g[:2] == ("t", "mapins") and one(g[2]) and bare(g[3]) == sym("ev2") and mentions(g[4], lambda y: y == sym("cb2")))
    # namespaces made by themselves
    hd = sym("handler")
    cbs = None
    b = A.body(NAMESPACE + "::new")
    add = BUILDER + "::add_namespace"
    if b is not None:
        for p in A.run(b, [nm, hd], label="Namespace::new"):
            if p.out == "panic":
                A.violate("namespace", p.site or p.root, "making a namespace panics", "namespace:panic:new", p)
            if p.out != "ret":
                continue
            for r in setter(A, "namespace", add, [sym("self"), p.value], chain=p):
                check(r, "add_namespace", lambda x: x == nm, lambda g: g[:2] == ("t", "f") and bare(g[2]) == hd)
    b = A.body(NAMESPACE + "::from_provider")
    reg = "bromine::namespaces::provider_trait::NamespaceProvider::register"
    if b is not None:
        for p in A.run(b, [], label="from_provider"):
            if p.out != "ret":
                continue
            n = [e for e in p.ev if e.kind == "call" and e.args[0].endswith("NamespaceProvider::name")]
            rg = [e for e in p.ev if e.kind == "call" and e.args[0].endswith("NamespaceProvider::register")]
            if len(rg) != 1 or not n:
                A.violate("namespace", p.root, "callbacks of a provider are registered %d times" % len(rg), "namespace:provider", p)
                continue
            for r in setter(A, "namespace", add, [sym("self"), p.value], chain=p):
                check(r, "add_namespace of a provider", lambda x: x[:2] == ("t", "call") and str(x[2]).endswith("NamespaceProvider::name"),
                      lambda g: mentions(g, lambda y: len(y) > 1 and y[0] == "t" and y[1] in ("?havoc", "call") or "register" in str(y)[:200]))


def defaults(A):
    for p in setter(A, "default", BUILDER + "::new", []):
        D = field_names(A, plain(p, p.value), BUILDER)
        for (k, o), ts in observables(A).items():
            for t in ts:
                got = unshared(substitute(A, t, D))
                w = "%s of a new builder (%s)" % (o, k)
                if o == "timeout":
                    d = seconds(got)
                    if d == 60:
                        A.ok("default", 1, w)
                    elif d is None:
                        A.undecide(p.root, "%s: %s" % (w, show(got)[:100]))
                    else:
                        A.violate("default", p.root, "the timeout of a new builder is %s" % show(got)[:80], "default:timeout:%s" % k, p)
                elif o == "serializer":
                    n = vname(A.F, got)
                    names = variants_of(A.F, got[2]) if got[0] == "agg" else []
                    if got[0] == "agg" and got[3] == 0:
                        A.ok("default", 1, w)
                    elif got[0] == "agg":
                        A.violate("default", p.root, "the serializer of a new builder is %s, the first available is %s" % (n, names[0]), "default:serializer:%s" % k, p)
                    else:
                        A.undecide(p.root, "%s: %s" % (w, show(got)[:100]))
                elif o == "namespaces":
                    if got == ("t", "mapnew"):
                        A.ok("default", 1, w)
                elif o == "address":
                    pass


def seconds(v):
    if v[:2] == ("t", "duration") and v[3][0] == "int":
        f = {"from_secs": 1, "from_millis": 1e-3, "from_micros": 1e-6, "from_nanos": 1e-9, "from_mins": 60}.get(v[2])
        return None if f is None else v[3][1] * f
    return None


def with_address(A):
    """(an arbitrary builder without an address, one with the address a0)"""
    b = A.body(BUILDER + "::address")
    n = A.body(BUILDER + "::new")
    if b is None or n is None:
        return None
    got = [p for p in A.run(b, [sym("self"), sym("a0")], label="address") if p.out == "ret"]
    new = [p for p in A.run(n, [], label="new") if p.out == "ret"]
    if len(got) != 1 or len(new) != 1:
        A.undecide("IPCBuilder::address", "%d ways" % len(got))
        return None
    v, w = got[0].value, plain(new[0], new[0].value)
    if v[0] == "agg" and v[1] == "lazy" and len(v[4]) == 1 and w[0] == "agg" and w[1] != "lazy":
        i = v[4][0][0]
        if v[4][0][1][0] == "agg" and v[4][0][1][1] != "lazy":
            return v[:4] + (((i, w[4][i]),),), v
    A.undecide("IPCBuilder::address", "what it sets is not known: %s" % show(v)[:100])
    return None


def opened(ev):
    return [e for e in ev if e.kind == "call" and e.args[0] in (BIND, CONNECT)]


def awaited(p, what):
    """results of what was opened: [(event, value)]"""
    return [(e, inst(p.E, p.st, e.args[2])) for e in p.ev if e.kind == "ready" and e.task == 0 and e.args[0] == "await" and any(about(e.args[1], w) for w in what) and not about(e.args[1], SPLIT) and not about(e.args[1], ACCEPT)]


def c22(A):
    both = with_address(A)
    if both is None:
        return
    without, having = both
    sizes = (0, 1, 2, 3) if not A.deep else (0, 1, 2, 3, 4, 5)
    for k, fn in (("client", "build_client"), ("server", "build_server"), ("pool", "build_pooled_client")):
        b = A.body(BUILDER + "::" + fn)
        if b is None:
            continue
        for n in ([None] if k != "pool" else [sym("size")] + [I(i) for i in sizes]):
            args = [] if n is None else [n]
            what = fn if n is None else "%s(%s)" % (fn, show(n))
            # no address
            for p in A.run(b, [without] + args, label=what, tasks=False):
                o = opened(p.ev)
                if p.out == "panic":
                    A.violate("missing", p.site or p.root, "%s without an address panics" % what, "missing:panic:%s" % fn, p)
                elif o:
                    A.violate("missing", pos(o[0]), "%s without an address opens something" % what, "missing:opened:%s" % fn, p)
                elif p.out == "ret":
                    v = inst(p.E, p.st, p.value)
                    if is_err(v):
                        A.ok("missing", 1, "%s without an address is an error" % what)
                    elif is_ok(v):
                        A.violate("missing", p.root, "%s without an address succeeds" % what, "missing:ok:%s" % fn, p)
                    else:
                        A.undecide(p.root, "result %s" % show(v)[:80])
                elif p.out not in ("cancelled",):
                    A.undecide(p.root, "%s without an address: %s" % (what, p.out))
            if k == "pool" and n[0] != "int":
                continue
            # with an address
            want = 1 if n is None else n[1]
            for p in A.run(b, [having] + args, label=what, tasks=False):
                with_an_address(A, p, what, k, fn, want)
        # numbers the code itself mentions are sizes it may treat differently
        # (a bound shows on what is one more; two large ones are as many as there is time for)
        some = numbers(A, b) if k == "pool" else ()
        large = sorted(n + 1 for n in some if 300 < n < 1100)[:2]
        for i in sorted({j for n in some if n <= 300 for j in (n, n + 1)}) + large:
            if max(sizes) < i:
                for p in A.run(b, [having, I(i)], label="%s(%d)" % (fn, i), tasks=False, tweak=counting):
                    with_an_address(A, p, "%s(%d)" % (fn, i), k, fn, i)
    A.need("missing", 2)
    A.need("target", 8)
    A.need("count", 1)
    A.need("failure", 2)


def counting(E):
    E.counted = 1110


def numbers(A, b):
    """whole numbers in the code of a function of this crate and what it calls"""
    seen, todo, out = set(), [b["id"]], set()
    while todo:
        i = todo.pop()
        if i in seen or i not in A.F.bodies:
            continue
        seen.add(i)

        def const(x):
            c = x.get("const") if isinstance(x, dict) else None
            if isinstance(c, dict):
                if isinstance(c.get("v"), dict) and isinstance(c["v"].get("int"), int):
                    out.add(c["v"]["int"])
                if "fn" in c and A.F.bodies.get(c.get("d"), {}).get("name", "").startswith("bromine::ipc"):
                    todo.append(c["d"])

        for bl in A.F.bodies[i]["blocks"]:
            for s in bl["s"]:
                if s[0] == "=" and s[2][0] in ("bin", "cast", "use"):
                    for x in s[2][1:]:
                        const(x)
            t = bl["t"]
            if t["k"] == "switch":
                out.update(v for v, _ in t["cases"] if isinstance(v, int))
            if t["k"] == "call":
                const(t["f"])
                for x in t["args"]:
                    const(x)
        todo.extend(j for j, y in A.F.bodies.items() if y["name"].startswith(A.F.bodies[i]["name"] + "::"))
    return out


def with_an_address(A, p, what, k, fn, want):
    o = opened(p.ev)
    for e in o:
        a = inst(p.E, p.st, e.args[1][0])
        if a == sym("a0"):
            A.ok("target", 1, "%s: %s" % (what, pos(e)))
        elif imprecise(a):
            A.undecide(pos(e), "address is %s" % show(a)[:80])
        else:
            A.violate("target", pos(e), "%s uses the address %s" % (what, show(a)[:80]), "target:%s" % fn, p)
        if (e.args[0] == BIND) != (k == "server"):
            A.violate("target", pos(e), "%s %s" % (what, "binds" if e.args[0] == BIND else "connects"), "target:kind:%s" % fn, p)
    if len(o) > want:
        A.violate("count", pos(o[-1]), "%s opens more than %d" % (what, want), "count:more:%s" % fn, p)
        return
    res = awaited(p, (BIND, CONNECT))
    bad = [e for e, v in res if is_err(v)]
    if p.out == "panic":
        A.violate("failure", p.site or p.root, "%s panics" % what, "failure:panic:%s" % fn, p)
    if p.out == "loop" and bad:
        A.violate("failure", pos(bad[0]), "%s goes on after a failure" % what, "failure:ignored:%s" % fn, p)
    if p.out == "loop" and k == "server" and not bad:
        A.ok("count", 1, "a server listens once")
    if p.out != "ret":
        return
    v = inst(p.E, p.st, p.value)
    if bad:
        if is_err(v):
            A.ok("failure", 1, "%s fails if opening does" % what)
        elif is_ok(v):
            A.violate("failure", pos(bad[0]), "%s succeeds although it could not open everything" % what, "failure:ok:%s" % fn, p)
        else:
            A.undecide(p.root, "result %s" % show(v)[:80])
        return
    if k == "server":
        return
    if want == 0:
        if o:
            A.violate("missing", pos(o[0]), "%s opens something" % what, "missing:zero-opened", p)
        elif is_err(v):
            A.ok("missing", 1, "%s is an error" % what)
        elif is_ok(v):
            A.violate("missing", p.root, "%s succeeds" % what, "missing:zero", p)
        return
    if is_err(v):
        A.violate("failure", p.root, "%s fails although nothing it opened did" % what, "failure:without:%s" % fn, p)
    elif is_ok(v) and len(o) == want:
        A.ok("count", 1, "%s: opened %d" % (what, want))
    elif is_ok(v):
        A.violate("count", p.root, "%s opens %d" % (what, len(o)), "count:less:%s" % fn, p)
    else:
        A.undecide(p.root, "result %s" % show(v)[:80])


# ------------------------------------------------------------------ the pool
POOL = IPC + "context::PooledContext"
GUARD = IPC + "context::PoolGuard"


def guard_context(A, q, g):
    """the connection a guard stands for"""
    d = A.trait_body("core::ops::deref::Deref", GUARD, "deref")
    if d is None:
        return None
    st = q.st.copy()
    a = q.E.new_alloc(st, g)
    for r in A.run(d, [("ref", a, (), False)], st=st, drive=False, label="deref", tweak=exact):
        if r.out == "ret":
            return split_of(r.E.snap(r.st, r.E.deref_all(r.st, r.value)))
    return None


def pool_key(q, pools, guards):
    """what distinguishes the states of a pool: the guards in use and everything the pool stores"""
    v = plain(q, ("agg", "tuple", None, 0, tuple(p for p, _ in pools) + tuple(sorted(g for g, _ in guards))))
    return show(v), tuple(sorted(c for _, c in guards)), len(pools)


def c23(A):
    both = with_address(A)
    if both is None:
        return
    b = A.body(BUILDER + "::build_pooled_client")
    acq = A.body(POOL + "::acquire")
    cl = A.trait_body("core::clone::Clone", GUARD, "clone", must=False)
    pcl = A.trait_body("core::clone::Clone", POOL, "clone", must=False)
    if b is None or acq is None:
        return
    for n, depth in ((1, 4), (2, 6), (3, 4)) if not A.deep else ((1, 6), (2, 8), (3, 7), (4, 5)):
        todo, seen = [], set()
        for p in A.run(b, [both[1], I(n)], label="build_pooled_client(%d)" % n, tasks=False, tweak=exact):
            if p.out == "ret" and is_ok(inst(p.E, p.st, p.value)):
                st = p.st.copy()
                a = p.E.new_alloc(st, p.value[4][0])
                q = p
                q.st = st
                todo.append((q, [(("ref", a, (), False), a)], [], ()))
        conns = None
        while todo:
            q, pools, guards, ops = todo.pop(0)
            if len(ops) >= depth:
                continue
            steps = [("acquire", i) for i in range(len(pools))]
            first = {}
            if pcl is not None and len(pools) == 1 and n < 3:
                steps.append(("clone-pool", 0))
            if len(pools) > 1:
                steps.append(("drop-pool", 1))
            for i, (g, c) in enumerate(guards):
                if cl is not None:
                    steps.append(("clone", i))
                steps.append(("drop", i))
            for op, i in steps:
                text = ops + ("%s %d" % (op, i),)
                for r in pool_step(A, q, pools, guards, op, i, acq, pcl if op == "clone-pool" else cl):
                    if r.out == "panic" and any(mentions(t, fuzzy) for t in list(r.st.facts) + list(r.st.ref)):
                        A.undecide(r.site or r.root, "whether %s panics depends on what is not known" % op)
                        continue
                    if r.out == "panic":
                        A.violate("never-panics", r.site or r.root, "%s panics after %s" % (op, ", ".join(ops) or "building"), "never-panics:%s" % op, r)
                        continue
                    if r.out != "ret":
                        A.undecide(r.root, "%s: %s" % (op, r.out))
                        continue
                    accounting(A, r)
                    gs, ps = list(guards), list(pools)
                    if op == "clone-pool":
                        st = r.st.copy()
                        a = r.E.new_alloc(st, r.value)
                        r.st = st
                        ps.append((("ref", a, (), False), a))
                    elif op == "drop-pool":
                        ps.pop()
                    elif op == "drop":
                        gs = gs[:i] + gs[i + 1:]
                    else:
                        c = guard_context(A, r, r.value)
                        if c is None:
                            A.undecide(r.root, "which connection was acquired is not known: %s" % show(r.E.snap(r.st, r.value))[:600])
                            continue
                        if op == "clone":
                            if c == guards[i][1]:
                                A.ok("clone", 1, "a clone is of the same connection")
                            else:
                                A.violate("clone", r.root, "a clone of a guard is of another connection", "clone:other", r)
                        else:
                            use = {}
                            for _, c2 in guards:
                                use[c2] = use.get(c2, 0) + 1
                            # connections nobody uses count as zero
                            least = 0 if len(use) < n else min(use.values())
                            if use.get(c, 0) == least:
                                A.ok("least-used", 1, "size %d after %s" % (n, ", ".join(ops) or "building"))
                            else:
                                A.violate("least-used", r.root, "a pool of %d hands out a connection with %d guards in use while one has %d; history: %s" % (n, use.get(c, 0), least, ", ".join(text)), "least-used", r)
                                continue
                        gs.append((r.value, c))
                    k = pool_key(r, ps, gs)
                    if k in seen:
                        continue
                    seen.add(k)
                    todo.append((r, ps, gs, text))
            if n == 2 and not ops:
                many_guards(A, q, pools[0][0], acq)
    if cl is not None:
        balanced(A, cl)
    for trait, m in (("core::ops::deref::Deref", "deref"), ("core::ops::deref::DerefMut", "deref_mut")):
        d = A.trait_body(trait, GUARD, m, must=False)
        for p in A.run(d, [("ref", ("c", sym("guard")), (), m == "deref_mut")], drive=False, label="%s of a guard" % m, tweak=exact) if d is not None else ():
            n = net_counts(p, 0) if p.out == "ret" else None
            if n:
                A.violate("balanced", p.root, "using a guard changes the number of guards in use", "balanced:use", p)
            elif n is not None:
                A.ok("balanced", 1, "using a guard does not count")
    A.need("least-used", 8)


def many_guards(A, q, pool, acq):
    """when both connections of a pool are used equally often, however often that is, two acquired in a row differ"""
    def acquire(q):
        st = q.st.copy()
        st.task = 0
        for r in A.run(acq, [pool], st=st, drive=False, label="acquire", tweak=exact):
            r.since = len(q.ev)
            if r.out == "ret":
                yield r

    def counters(r):
        return [(e.args[1][2][2], e.args[1][3]) for e in r.ev[r.since:] if e.kind == "atomic" and e.args[0] == "fetch_add" and e.args[2][:1] == (I(1),)
                and isinstance(e.args[1], tuple) and e.args[1][:2] == ("t", "at") and e.args[1][2][:2] == ("t", "alloc")]
    for r in acquire(q):
        for r2 in acquire(r):
            at = counters(r), counters(r2)
            if len(at[0]) != 1 or len(at[1]) != 1 or at[0] == at[1]:
                continue
            (a, pa), (b, pb) = at[0][0], at[1][0]
            va, vb = r2.E.load(r2.st, a, pa), r2.E.load(r2.st, b, pb)
            if va != vb or va[0] != "agg" or va[4][0][0] != "int":
                continue
            for many in (255, 65535):
                st = r2.st.copy()
                v = va[:4] + ((I(va[4][0][1] + many - 1),),)
                r2.E.store(st, a, pa, v)
                r2.E.store(st, b, pb, v)
                r2b = copy_path(r2, st)
                for x in acquire(r2b):
                    cx = guard_context(A, x, x.value)
                    for y in acquire(x):
                        cy = guard_context(A, y, y.value)
                        if cx is None or cy is None:
                            A.undecide(y.root, "which connection was acquired is not known")
                        elif cx != cy:
                            A.ok("least-used", 1, "with %d guards of each" % many)
                        else:
                            A.violate("least-used", y.root, "a pool of 2 hands out a connection with %d guards in use while one has %d" % (many + 1, many), "least-used:many", y)


def copy_path(p, st):
    import copy
    q = copy.copy(p)
    q.st = st
    return q


def balanced(A, cl):
    """what cloning a guard adds to a counter, dropping the clone takes from the same counter, whatever the counts are"""
    for p in A.run(cl, [("ref", ("c", sym("guard")), (), False)], drive=False, label="clone of any guard", tweak=exact):
        if p.out != "ret":
            continue
        added = net_counts(p, 0)
        st = p.st.copy()
        st.task = 0
        a = p.E.new_alloc(st, p.value)

        def tweak(E):
            exact(E)
            E.drop_root = a
        for q in A.run(None, [("ref", a, (), True)], st=st, drive=False, label="drop of a clone", tweak=tweak):
            if q.out != "ret":
                continue
            taken = net_counts(q, len(p.ev))
            if added is None or taken is None or not added and not taken:
                continue
            if all(added.get(l, 0) + taken.get(l, 0) == 0 for l in set(added) | set(taken)):
                A.ok("balanced", 1, "a clone is counted where it is released")
            else:
                A.violate("balanced", q.root, "a clone of a guard is counted at %s but released at %s" % (", ".join("%s%+d" % (show(l)[-60:], n) for l, n in added.items()) or "no counter", ", ".join("%s%+d" % (show(l)[-60:], n) for l, n in taken.items()) or "no counter"), "balanced", q)


def net_counts(p, since):
    out = {}
    for e in p.ev[since:]:
        if e.kind != "atomic" or e.args[0] == "load":
            continue
        n = e.args[2][0] if isinstance(e.args[2], tuple) and e.args[2] and isinstance(e.args[2][0], tuple) else None
        if e.args[0] not in ("fetch_add", "fetch_sub") or n is None or n[0] != "int":
            return None
        l = e.args[1] if isinstance(e.args[1], tuple) else ("t", "at", e.args[1])
        out[l] = out.get(l, 0) + (n[1] if e.args[0] == "fetch_add" else -n[1])
    return {k: v for k, v in out.items() if v}


def pool_step(A, q, pools, guards, op, i, acq, cl):
    st = q.st.copy()
    st.task = 0
    if op == "acquire":
        rs = A.run(acq, [pools[i][0]], st=st, drive=False, label="acquire", tweak=exact)
    elif op.startswith("clone"):
        a = q.E.new_alloc(st, guards[i][0]) if op == "clone" else pools[i][1]
        rs = A.run(cl, [("ref", a, (), False)], st=st, drive=False, label="PoolGuard::clone", tweak=exact)
    else:
        a = q.E.new_alloc(st, guards[i][0]) if op == "drop" else pools[i][1]

        def tweak(E):
            exact(E)
            E.drop_root = a
        rs = A.run(None, [("ref", a, (), True)], st=st, drive=False, label="drop of a guard", tweak=tweak)
    for r in rs:
        r.since = len(q.ev)
    return rs


def accounting(A, r):
    """counters change in one step"""
    at = [e for e in r.ev[r.since:] if e.kind == "atomic"]
    for e in at:
        if e.args[0] in ("store", "swap"):
            A.violate("counted", pos(e), "the number of guards in use is written without taking other threads' changes into account", "counted:%s@%s" % (e.args[0], e.fn), r)
        elif e.args[0].startswith("fetch_") or e.args[0].startswith("compare_exchange"):
            A.ok("counted", 1, "%s changes the count in one step" % pos(e))


# ------------------------------------------------------------------ polling
FUTURE_TRAIT = "core::future::future::Future"


def poll_histories(A):
    """polling the futures of emitting, again and again, in every distinguishable state"""
    key = "polls"
    if key in A.cache:
        return A.cache[key]
    from r_crypt import shape
    out = A.cache[key] = []
    for kind, adt in (("", EMIT), ("await_reply", WITH_REPLY), ("stream_replies", WITH_STREAM)):
        b = A.trait_body(FUTURE_TRAIT, adt, "poll", must=False)
        e = A.body(CONTEXT + "::emit")
        if b is None or e is None:
            continue
        todo = []
        for t in (None, sym("timeout")) if kind else (None,):
            for p in A.run(e, [ctx_ref(), sym("name"), sym("payload")], drive=False, label="emit"):
                if p.out != "ret":
                    continue
                for q, v in started(A, p, p.value, kind, t):
                    st = q.st.copy()
                    a = q.E.new_alloc(st, v)
                    q.st = st
                    todo.append((q, ("ref", a, (), True), ()))
        seen = {}
        depth = 5 if A.deep else 3
        n = 0
        while todo and n < (1500 if A.deep else 150):
            p, me, ops = todo.pop(0)
            sh = shape(p.E, p.st, p.E.load_alloc(p.st, me[1]))
            if seen.get(sh, 0) >= 2:
                continue
            seen[sh] = seen.get(sh, 0) + 1
            n += 1
            st = p.st.copy()
            st.task = 0
            for q in A.run(b, [me, ("t", "cx")], st=st, drive=False, stubs=STUB_CODEC, label="poll of %s" % adt.split("::")[-1]):
                v = inst(q.E, q.st, q.value) if q.out == "ret" else None
                q.since = len(p.ev)
                q.x = {"kind": kind, "adt": adt, "polls": len(ops) + 1, "value": v}
                out.append(q)
                if v is not None and is_variant(v, POLL, 1) and len(ops) + 1 < depth:
                    todo.append((q, me, ops + (q.out,)))
    return out


def stream_polls(A):
    return [q for q in reply_histories(A) if q.x["op"] == "poll"]


def c29(A):
    for q in poll_histories(A):
        v = q.x["value"]
        if v is None or not is_variant(v, POLL, 1):
            continue
        name = q.x["adt"].split("::")[-1]
        if registered(q.ev[q.since:]):
            A.ok("future-wakes", 1, "%s, poll %d" % (name, q.x["polls"]))
        else:
            A.violate("future-wakes", q.root, "poll %d of %s reports that it is not ready, but nothing it waits for knows its waker" % (q.x["polls"], name), "future-wakes:%s" % name, q)
    for q in stream_polls(A):
        v = q.x["ops"][-1][1]
        if v is None or poll_item(v) != "pending":
            continue
        if registered(q.ev[q.since:]):
            A.ok("stream-wakes")
        else:
            A.violate("stream-wakes", q.root, "a stream of replies reports that it is not ready, but nothing it waits for knows its waker", "stream-wakes", q)
    c29_stream(A)
    A.need("stream-wakes", 1)


def c30(A):
    c30_stream(A)
    for q in stream_polls(A):
        bad = [e for e in q.ev[q.since:] if e.kind == "repoll"]
        hist = ", ".join(str(poll_item(o[1]) if not isinstance(poll_item(o[1]), tuple) else poll_item(o[1])[0]) for o in q.x["ops"])
        if q.out == "panic":
            A.violate("replies-safe", q.site or q.root, "polling a stream of replies panics; results of the polls before: %s" % hist, "replies-safe:panic@%s" % fn_of(q.site or q.root), q)
        elif bad:
            A.violate("replies-safe", pos(bad[0]), "polling a stream of replies polls a future that already completed; results: %s" % hist, "replies-safe:repoll", q)
        else:
            A.ok("replies-safe", 1, hist)
    for q in poll_histories(A):
        name = q.x["adt"].split("::")[-1]
        bad = [e for e in q.ev[q.since:] if e.kind == "repoll"]
        if q.out == "panic":
            A.violate("future-safe", q.site or q.root, "poll %d of %s panics before it is done" % (q.x["polls"], name), "future-safe:panic@%s" % fn_of(q.site or q.root), q)
        elif bad:
            A.violate("future-safe", pos(bad[0]), "%s polls a future that already completed" % name, "future-safe:repoll:%s" % name, q)
        else:
            A.ok("future-safe")
    A.need("replies-safe", 4)
