"""Loads the facts dumped by the extractor and gives access to types, bodies, ADTs and impls."""
import json
import sys


class Facts:
    def __init__(self, path):
        with open(path) as f:
            j = json.load(f)
        self.crate = j["crate"]
        self.types = j["types"]
        self.bodies = {b["id"]: b for b in j["bodies"]}
        self.by_name = {}
        for b in j["bodies"]:
            self.by_name.setdefault(b["name"], []).append(b)
        self.adts = {a["n"]: a for a in j["adts"]}
        self.impls = j["impls"]
        self.impl_by_id = {i["id"]: i for i in self.impls}
        self.statics = {s["n"]: s for s in j["statics"] if s}
        for b in j["bodies"]:
            b["promoted_bodies"] = b.get("promoted", [])
            for i, p in enumerate(b["promoted_bodies"]):
                p["id"] = "%s#promoted%d" % (b["id"], i)
                p["name"] = b["name"] + "#promoted%d" % i
                p["kind"] = "Promoted"
                p["promoted_bodies"] = b["promoted_bodies"]

    # ---- types
    def t(self, i):
        if isinstance(i, int):
            return self.types[i]
        return i if i is not None else {"k": "unknown"}

    def tstr(self, i, depth=0):
        t = self.t(i)
        k = t["k"]
        if depth > 8:
            return "…"
        r = lambda x: self.tstr(x, depth + 1)
        if k in ("int", "float"):
            return t["n"]
        if k == "str":
            return "str"
        if k == "never":
            return "!"
        if k in ("adt", "fndef", "proj", "opaque", "inh", "free"):
            n = t["n"]
            if k in ("opaque", "proj"):
                n = k + ":" + n
            a = [r(x) if isinstance(x, int) else x["c"] for x in t["a"]]
            return n + ("<%s>" % ", ".join(a) if a else "")
        if k == "ref":
            return "&" + ("mut " if t["mut"] else "") + r(t["t"])
        if k == "ptr":
            return "*" + ("mut " if t["mut"] else "const ") + r(t["t"])
        if k == "tuple":
            return "(" + ", ".join(r(x) for x in t["a"]) + ")"
        if k == "slice":
            return "[%s]" % r(t["t"])
        if k == "array":
            return "[%s; %s]" % (r(t["t"]), t["len"])
        if k == "param":
            return t["n"]
        if k in ("closure", "coroutine"):
            return k + ":" + t["d"]
        if k == "dyn":
            return "dyn " + t["n"]
        return t.get("n", k)


def place_str(p):
    s = "_%d" % p[0]
    for e in p[1:]:
        if e == "*":
            s = "(*%s)" % s
        elif e == "cast":
            s += ".cast"
        elif e[0] == "f":
            s += "." + (e[2] or str(e[1]))
        elif e[0] == "v":
            s += " as " + e[2]
        elif e[0] == "i":
            s += "[_%d]" % e[1]
        else:
            s += str(e)
    return s


def op_str(F, o):
    if "copy" in o:
        return place_str(o["copy"])
    if "move" in o:
        return "move " + place_str(o["move"])
    if "const" in o:
        c = o["const"]
        if "fn" in c:
            s = c["fn"] + "<" + ", ".join(F.tstr(x) if isinstance(x, int) else x["c"] for x in c["a"]) + ">"
            if "rfn" in c:
                s += " => " + c["rfn"]
            return s
        if "v" in c:
            return "const " + json.dumps(c["v"])[:100]
        return "const? " + c.get("s", "")[:100]
    return str(o)


def dump(F, b, out=sys.stdout):
    w = out.write
    w("=== %s  [%s] argc=%d %s\n" % (b["id"], b["name"], b["argc"], b.get("span", "")))
    for i, l in enumerate(b["locals"]):
        w("  let _%d: %s%s\n" % (i, F.tstr(l["t"]), "  // " + l["n"] if "n" in l else ""))
    w("  upvars %s\n" % [(n, place_str(p)) for n, p in b["upvars"]])
    for i, bb in enumerate(b["blocks"]):
        if bb.get("cleanup"):
            continue
        w(" bb%d:\n" % i)
        for s in bb["s"]:
            if s[0] == "=":
                r = s[2]
                if r[0] == "agg":
                    rs = "agg %s(%s)" % (r[1].get("n", r[1].get("d", r[1]["k"])) + "::" + r[1].get("vn", ""), ", ".join(op_str(F, o) for o in r[2]))
                elif r[0] == "use":
                    rs = op_str(F, r[1])
                elif r[0] == "ref":
                    rs = "&%s %s" % (r[1], place_str(r[2]))
                elif r[0] == "reborrow":
                    rs = "reborrow " + place_str(r[1])
                elif r[0] == "cast":
                    rs = "cast[%s] %s as %s" % (r[1], op_str(F, r[2]), F.tstr(r[3]))
                elif r[0] == "bin":
                    rs = "%s(%s, %s)" % (r[1], op_str(F, r[2]), op_str(F, r[3]))
                elif r[0] == "un":
                    rs = "%s(%s)" % (r[1], op_str(F, r[2]))
                elif r[0] == "discr":
                    rs = "discr %s" % place_str(r[1])
                else:
                    rs = str(r)
                w("    %s = %s%s\n" % (place_str(s[1]), rs, "   {%s}" % ",".join(s[4]) if len(s) > 4 else ""))
            elif s[0] not in ("live", "dead"):
                w("    %s\n" % s)
        t = bb["t"]
        k = t["k"]
        if k == "call":
            w("    %s = call %s(%s) -> bb%s" % (place_str(t["dest"]), op_str(F, t["f"]), ", ".join(op_str(F, a) for a in t["args"]), t.get("to")))
        elif k == "switch":
            w("    switch %s %s else bb%s" % (op_str(F, t["on"]), ["%d=>bb%d" % tuple(c) for c in t["cases"]], t["else"]))
        elif k == "drop":
            w("    drop %s: %s -> bb%s" % (place_str(t["p"]), F.tstr(t["t"]), t["to"]))
        elif k == "assert":
            w("    assert %s %s %s -> bb%s" % (op_str(F, t["cond"]), t["exp"], t["msg"], t["to"]))
        elif k == "yield":
            w("    yield -> bb%s drop bb%s" % (t["to"], t.get("drop")))
        else:
            w("    %s %s" % (k, t.get("to", "")))
        w("    // %s %s\n" % (t["span"].split("/")[-1], ",".join(t.get("m", []))))


if __name__ == "__main__":
    F = Facts(sys.argv[1])
    for b in F.bodies.values():
        if len(sys.argv) < 3:
            print(b["id"], "|", b["name"], b["kind"], b.get("pub"))
        elif sys.argv[2] in b["id"] or sys.argv[2] in b["name"]:
            dump(F, b)
