"""What the type checker decides: programs that have to compile, feature combinations, what macros expand to."""
import glob
import json
import os
import re
import shutil
import subprocess
from core import *
from facts import Facts

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FEATURES = ("serialize_rmp", "serialize_bincode", "serialize_postcard", "serialize_json")
# messages of the type checker that say that a type cannot be used from other threads
THREADS = ("cannot be sent between threads safely", "cannot be shared between threads safely", "cannot be sent", "cannot be shared", "is not satisfied", "cannot be unpinned", "may not live long enough", "is not general enough",
           "does not live long enough", "doesn't implement")


def repo():
    return os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))


def work():
    return os.environ.get("VERIF_WORK", os.path.join(HERE, ".work"))


def cargo(cwd, args, target):
    """compiler messages of a cargo check: (exit code, [message], stderr)"""
    env = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR", "RUSTC")}
    env.update(CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=target,
               RUSTFLAGS='--cfg curve25519_dalek_backend="serial" --cap-lints allow')
    for k in ("bromine", "witness"):
        for f in glob.glob(os.path.join(target, "debug", ".fingerprint", k + "-*")):
            shutil.rmtree(f, ignore_errors=True)
    r = subprocess.run(["cargo", "check", "-q", "--offline", "--message-format=json", "--lib"] + args, cwd=cwd, env=env, capture_output=True, text=True)
    out = []
    for l in r.stdout.split("\n"):
        if l.startswith("{"):
            m = json.loads(l)
            if m.get("reason") == "compiler-message" and m["message"]["level"].startswith("error"):
                out.append(m)
    return r.returncode, out, r.stderr


def place(m):
    for s in m["message"]["spans"]:
        if s["is_primary"]:
            return s["file_name"], s["line_start"]
    return "?", 0


def witness():
    """the crate of witness programs, depending on the tree that is analysed"""
    d = os.path.join(work(), "witness")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    src = os.path.join(HERE, "witness")
    with open(os.path.join(d, "Cargo.toml"), "w") as o:
        o.write(open(os.path.join(src, "Cargo.toml.in")).read().replace("@REPO@", repo()))
    lock = os.path.join(repo(), "Cargo.lock")
    if os.path.exists(lock):
        shutil.copyfile(lock, os.path.join(d, "Cargo.lock"))
    shutil.copyfile(os.path.join(src, "src", "lib.rs"), os.path.join(d, "src", "lib.rs"))
    return d


def functions(mod):
    """functions of a module of the witness crate: {first line: (name, last line)}"""
    lines = open(os.path.join(HERE, "witness", "src", "lib.rs")).read().split("\n")
    out, inside, name, start = {}, False, None, 0
    for i, l in enumerate(lines, 1):
        if l.startswith("pub mod "):
            inside = l.split()[2] == mod
        m = re.match(r"    (?:pub )?(?:async )?fn (\w+)", l)
        if inside and m:
            name, start = m.group(1), i
        if inside and name and (l == "    }" or l.startswith("    fn ") and l.endswith("{}")):
            out[start] = (name, i)
            name = None
    return out


def c38(A):
    fns = functions("threads")
    helpers = {s for s, (n, e) in fns.items() if e == s}
    rc, errors, text = cargo(witness(), ["--features", "threads"], os.path.join(work(), "witness-target"))
    bad = {}
    for m in errors:
        f, line = place(m)
        msg = m["message"]["message"]
        if m["target"]["name"] != "witness":
            A.undecide(f, "the crate does not compile: %s" % msg[:200])
            continue
        at = [s for s, (n, e) in fns.items() if s <= line <= e]
        if not at:
            if not msg.startswith("aborting"):
                A.undecide("witness/src/lib.rs:%d" % line, msg[:200])
            continue
        if any(t in msg for t in THREADS) or any(t in c["message"] for t in THREADS for c in m["message"]["children"]):
            why = [s["label"] or "" for s in m["message"]["spans"] if s["file_name"].startswith(repo())]
            bad.setdefault(fns[at[0]][0], (line, msg, m["message"]["rendered"]))
        else:
            A.undecide("witness/src/lib.rs:%d" % line, msg[:200])
    if rc != 0 and not errors:
        A.undecide("witness", "cargo check fails: %s" % text[-200:])
        return
    for s, (n, e) in sorted(fns.items()):
        if s in helpers:
            continue
        if n in bad:
            line, msg, text = bad[n]
            where = re.findall(r"(src/[\w/]+\.rs):(\d+)", text)
            own = [w for w in where if w != ("src/lib.rs", str(line))]
            A.violate("threads", "%s (witness/src/lib.rs:%d)" % (n.replace("_", " "), line), "%s%s" % (msg, " because of %s:%s" % own[0] if own else ""), "threads:%s" % n)
        elif not A.undecided:
            A.ok("threads", 1, "%s is accepted by the type checker" % n.replace("_", " "))
    for im in A.F.impls:
        if im.get("trait") in ("core::marker::Send", "core::marker::Sync"):
            A.undecide(str(A.F.t(im["self"]).get("n", "?")), "%s is implemented by hand" % im["trait"])
    A.need("threads", 10)


def c39(A):
    target = os.path.join(work(), "features-target")
    done = []
    for m in range(1 << len(FEATURES)):
        for enc in (False, True):
            fs = [f for i, f in enumerate(FEATURES) if m >> i & 1] + (["encryption_layer"] if enc else [])
            rc, errors, text = cargo(repo(), ["--no-default-features", "--features", ",".join(fs)], target)
            what = "+".join(fs) or "no features"
            if rc == 0:
                A.ok("builds", 1, what)
                done.append(what)
                continue
            own = [e for e in errors if e["target"]["name"] == "bromine" and e["message"]["code"] is not None] or [e for e in errors if e["target"]["name"] == "bromine"]
            if not own:
                A.undecide(what, "cargo check fails: %s" % text[-200:])
                continue
            f, line = place(own[0])
            A.violate("builds", "%s:%d" % (f, line), "the library does not compile with %s: %s" % (what, own[0]["message"]["message"][:200]), "builds:%s" % what)
    A.configs = [(d, None, None) for d in done]
    A.need("builds", 16)


# ------------------------------------------------------------------ macros
WANTED = {
    "events_by_name": {"one": "first", "two": "second", "three": "third"},
    "events_single": {"one": "first"},
    "events_by_path": {"one": "provided first", "two": "provided second"},
    "callback_ident": {"one": "first"},
    "callback_path": {"one": "provided second"},
    "callback_body": {"one": "second"},
    "Provider::register": {"one": "provided first", "two": "provided second"},
}
ON = "bromine::events::event_handler::EventHandler::on"
NAMES = ("provided first", "provided second", "first", "second", "third")


def text_in(v):
    """which of the callbacks a value comes from"""
    for n in NAMES:
        if mentions(v, lambda x: x[0] == "k" and x[1] == n.encode()):
            return n
    return None


def literal(v):
    for x in subterms(v):
        if x[0] == "buf" and len(x[1]) == 1 and x[1][0][0] == "k":
            return x[1][0][1].decode("utf-8", "replace")
    return None


def c37(A):
    d = witness()
    out = os.path.join(work(), "facts", "witness.json")
    r = subprocess.run([os.path.join(HERE, "extract.sh"), d, "witness", "--features macros", out, os.path.join(work(), "witness-target")], capture_output=True, text=True)
    if r.returncode != 0:
        rc, errors, text = cargo(d, ["--features", "macros"], os.path.join(work(), "witness-target"))
        own = [e for e in errors if e["target"]["name"] == "witness" and e["message"]["code"] is not None or "no rules expected" in e["message"]["message"]]
        if not own:
            A.undecide("witness", "the witness programs do not compile: %s" % (r.stderr or text)[-200:])
            return
        for e in own[:3]:
            f, line = place(e)
            fn = [n for s, (n, z) in functions("macros").items() if s <= line <= z]
            macro = e["message"]["spans"] and any(s.get("expansion") for s in e["message"]["spans"])
            if macro or "macro" in e["message"]["message"]:
                A.violate("expands", "witness/src/lib.rs:%d" % line, "a documented use of a macro does not compile: %s" % e["message"]["message"][:200], "expands:compile:%s" % (fn[0] if fn else "?"))
            else:
                A.undecide("witness/src/lib.rs:%d" % line, e["message"]["message"][:200])
        return
    W = Analysis(A.prop, Facts(out), A.tier)
    for fn, want in WANTED.items():
        b = [x for n, x in W.F.bodies.items() if n == "witness::macros::" + fn] or [x for n, x in W.F.bodies.items() if fn.startswith("Provider") and n.endswith("::register")]
        if not b:
            A.undecide(fn, "not found")
            continue
        for p in W.run(b[0], [sym("handler")], label=fn):
            if p.out != "ret":
                A.violate("registers", p.site or p.root, "registering callbacks panics", "registers:panic:%s" % fn, p)
                continue
            got, known = {}, True
            for e in p.ev:
                if e.kind != "call" or not e.args[0].endswith("EventHandler::on"):
                    continue
                h, name, cb = e.args[1][:3]
                n = literal(inst(p.E, p.st, name))
                c = called(W, p, cb)
                if n is None or c is None or not mentions(inst(p.E, p.st, h), lambda x: x == sym("handler")):
                    known = False
                got[n] = c
            if got == want:
                A.ok("registers", len(want), "%s: %s" % (fn, ", ".join("%s => %s" % x for x in sorted(got.items()))))
            elif known:
                A.violate("registers", p.root, "%s registers %s instead of %s" % (fn, got, want), "registers:%s" % fn, p)
            else:
                A.undecide(p.root, "%s registers %s" % (fn, got))
    b = W.F.bodies.get("witness::macros::provided")
    for p in W.run(b, []) if b is not None else []:
        c = [e for e in p.ev if e.kind == "call" and e.args[0].endswith("Namespace::from_provider")]
        if p.out == "ret" and c and mentions(inst(p.E, p.st, p.value), lambda x: x[:2] == ("t", "call") and x[2].endswith("from_provider")):
            A.ok("registers", 1, "namespace! makes the namespace of its provider")
        else:
            A.undecide(p.root, "what namespace! makes is not known")
    for u in W.undecided:
        A.undecide(*u)
    A.analysed |= W.analysed
    A.roots.update(W.roots)
    A.need("registers", 4)


def called(W, p, cb):
    """which callback a registered closure calls"""
    st = p.st.copy()
    st.task = 0
    v = inst(p.E, p.st, cb)
    if v[0] != "agg" or v[1] != "closure":
        return None
    name = v[2][0] if isinstance(v[2], tuple) else v[2]
    b = W.F.bodies.get(name)
    if b is None:
        return None
    found = set()
    for q in W.run(b, [("ref", ("c", v), (), False), sym("ctx"), sym("event")], label="a callback"):
        found.add(text_in(inst(q.E, q.st, q.value)) if q.out == "ret" else None)
        if q.out == "ret" and found == {None}:
            found = set()
            for z in W.await_value(q, q.value, label="a callback"):
                if z.out == "ret":
                    found.add(text_in(inst(z.E, z.st, z.value)))
    return found.pop() if len(found) == 1 else None
