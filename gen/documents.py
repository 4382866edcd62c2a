"""JSON descriptions of structures as values of spec/JsonInput.tla, and corruptions of them."""
import copy
import json
import math
from fractions import Fraction as Fr

from structures import txt


def obj(pairs):
    return {"t": "obj", "k": [{"n": n, "v": v} for n, v in pairs]}


def arr(vs):
    return {"t": "arr", "a": list(vs)}


def string(s):
    return {"t": "str", "s": s}


def decimal(s):
    """Fractions are no JSON numbers."""
    return s if "/" not in s else "%.20g" % float(Fr(s))


def num(rng, s):
    s = decimal(s)
    if rng is not None and rng.random() < 0.1 and "e" not in s and len(s) < 12:
        v = Fr(s)
        s = rng.choice([s, s + ("e0" if "e" not in s else ""), s + "0" if "." in s else s + ".0", "%se-1" % txt(v * 10) if "/" not in txt(v * 10) else s])
    return {"t": "num", "s": s}


def angle(l):
    a = math.atan2(float(Fr(l["s"])), float(Fr(l["c"]))) + 2 * math.pi * int(l.get("turns", 0) or 0)
    return {"t": "num", "s": repr(a), "c": l["c"], "sn": l["s"]}


FORCE = {"Ux": "Fx", "Uz": "Fz", "Uy": "Fy", "Phiy": "My", "Phiz": "Mz", "Phix": "Mx"}
LINE = {"Ux": "qx", "Uz": "qz", "Uy": "qy", "Phiy": "my", "Phiz": "mz", "Phix": "mx"}


def grouped(rng, items):
    """Named values per node as lists of objects, split up in some way."""
    groups = {}
    for at, n, v in items:
        groups.setdefault(at, []).append((n, v))
    out = []
    for at, ps in groups.items():
        objs = [[]]
        for n, v in ps:
            if any(m == n for m, _ in objs[-1]) or (objs[-1] and rng.random() < 0.3):
                objs.append([])
            objs[-1].append((n, v))
        out.append((at, objs))
    return out


def document(rng, st):
    full = lambda: rng.random() < 0.4
    nodes = obj((n["id"], arr([num(rng, n[k]) for k in "xyz"])) for n in st["nodes"])
    mats = obj((m["id"], obj([("kind", string("linelast")), ("parameter", obj((k, num(rng, m[k])) for k in ("E", "nu", "rho")))])) for m in st["mats"])
    css = obj((c["id"], obj([("kind", string(c["kind"])), ("parameter", obj((k, num(rng, v)) for k, v in c["par"].items()))])) for c in st["css"])
    elems = []
    for e in st["elems"]:
        f = [("kind", string(e["kind"]))]
        short = len(e["n0"].encode()) == 1 and len(e["n1"].encode()) == 1 and e["id"] == e["n0"] + e["n1"]
        if not short or full():
            f.append(("nodes", arr([string(e["n0"]), string(e["n1"])])))
        elif rng.random() < 0.2:
            f.append(("nodes", arr([])))
        if len(st["mats"]) > 1 or full():
            f.append(("material", string(e["mat"])))
        if len(st["css"]) > 1 or full():
            f.append(("cs", string(e["cs"])))
        if e["hinges"]:
            by = {}
            for h in e["hinges"]:
                by.setdefault(h["node"], []).append(h["dof"])
            if rng.random() < 0.15:   # one of them twice
                ds = rng.choice(list(by.values()))
                ds.insert(rng.randrange(len(ds) + 1), rng.choice(ds))
            f.append(("hinges", obj((n, arr(string(d) for d in ds)) for n, ds in by.items())))
        elif rng.random() < 0.1:
            f.append(("hinges", obj([(n, arr([])) for n in rng.choice([[], [e["n0"]], [e["n1"], e["n0"]]])])))
        elems.append((e["id"], obj(f)))
    secs = [("nodes", nodes), ("material", mats), ("crosssection", css), ("elements", obj(elems))]

    ds = grouped(rng, [(d["node"], d["dof"], num(rng, d["val"])) for d in st["dirichlet"]])
    if ds or rng.random() < 0.5:
        secs.append(("dirichlet", obj((n, arr(obj(o) for o in os)) for n, os in ds)))
    if st["links"] or rng.random() < 0.1:
        by = {}
        for l in st["links"]:
            by.setdefault(l["node"], []).append(obj([("from", string(l["from"])), ("to", string(l["to"])), ("angle", angle(l))]))
        secs.append(("links", obj((n, arr(ls)) for n, ls in by.items())))
    by = {}
    for n, os in grouped(rng, [(x["node"], FORCE[x["dof"]], num(rng, x["val"])) for x in st["neumann"]]):
        by.setdefault(n, []).extend(obj(o) for o in os)
    for l in st["loads"]:
        x = l["load"]
        names = [LINE[x["kind"]], FORCE[x["kind"]]]
        f = [("kind", string(names[0] if (x["type"] == "dirac") == (rng.random() < 0.1) else names[1])), ("degree", string(x["type"]))]
        vals = [num(rng, x["v0"])] + ([num(rng, x["v1"])] if x["type"] == "linear" else [])
        f.append(("values", arr(vals)))
        if x["type"] == "dirac":
            f.append(("position", arr([num(rng, x["pos"])])))
        elif rng.random() < 0.05:
            f.append(("position", arr([])))
        if rng.random() < 0.3:
            rng.shuffle(f)
        by.setdefault(l["elem"], []).append(obj(f))
    if rng.random() < 0.5:   # matters where nodes and elements share their name
        for os in by.values():
            rng.shuffle(os)
    if by or rng.random() < 0.3:
        secs.append(("neumann", obj((n, arr(os)) for n, os in by.items())))
    if rng.random() < 0.3:
        rng.shuffle(secs)
    if rng.random() < 0.2:   # other things at the top are nobody's business
        secs.insert(rng.randrange(len(secs) + 1), (rng.choice(["description", "expected", "name", "comment"]), rng.choice([string("x"), obj([]), arr([num(None, "1")])])))
    return obj(secs)


def shuffled(rng, v):
    v = copy.deepcopy(v)

    def go(x):
        if x["t"] == "obj":
            rng.shuffle(x["k"])
            for p in x["k"]:
                go(p["v"])
        elif x["t"] == "arr":
            for y in x["a"]:
                go(y)
    go(v)
    return v


def paths(v, here=()):
    out = [here]
    if v["t"] == "obj":
        for i, p in enumerate(v["k"]):
            out += paths(p["v"], here + (("k", i),))
    elif v["t"] == "arr":
        for i, y in enumerate(v["a"]):
            out += paths(y, here + (("a", i),))
    return out


def at(v, path):
    for kind, i in path:
        v = v["k"][i]["v"] if kind == "k" else v["a"][i]
    return v


OTHER_TEXTS = ["", "Ux", "Uz", "Uy", "Phiy", "Phix", "Fx", "Fz", "qz", "My", "mz", "xx", "nope", "truss2d", "frame2d", "truss3d", "frame3d", "rectangle", "constants", "linelast",
               "dirac", "constant", "linear", "quadratic", "A", "B", "1", "ux", "FX", "UX", "Nx"]
OTHER_NUMS = ["0", "-1", "1", "2", "-0.5", "100", "1e3", "-1e-9", "1e400", "0.5"]


def misplaced(rng, doc):
    """Something that would be valid elsewhere: hinges, loads, supports at other nodes and elements."""
    sec = {p["n"]: p["v"] for p in doc["k"]}
    nodes = [p["n"] for p in sec.get("nodes", {}).get("k", [])] + ["nowhere"]
    elems = sec.get("elements", {}).get("k", [])
    how = rng.choice(["hinge", "hinge", "hinges", "names", "load", "nodal"])
    e = rng.choice(elems)["v"] if elems else None
    if how == "hinges" and e and e["t"] == "obj":   # several at one node, or the same one twice
        named = next((p["v"] for p in e["k"] if p["n"] == "nodes"), None)
        own = [x["s"] for x in named["a"] if x["t"] == "str"] if named and named["t"] == "arr" else []
        ds = [string(d) for d in rng.choice([["Ux", "Phiy"], ["Phiy", "Phiy"], ["Ux", "Uz"], ["Ux", "Uz", "Phiy"], ["Uz", "Phiy"], ["Ux", "Ux", "Phiy"], ["Ux"]])]
        rng.shuffle(ds)
        h = obj([(rng.choice(own or nodes), arr(ds))])
        e["k"] = [p for p in e["k"] if p["n"] != "hinges"] + [{"n": "hinges", "v": h}]
    elif how == "names" and e and e["t"] == "obj":   # other numbers of nodes
        named = next((p["v"] for p in e["k"] if p["n"] == "nodes"), None)
        if named and named["t"] == "arr":
            for _ in range(rng.choice([1, 1, 2])):
                x = copy.deepcopy(rng.choice(named["a"])) if named["a"] and rng.random() < 0.7 else string(rng.choice(nodes))
                named["a"].insert(rng.randrange(len(named["a"]) + 1), x)
    elif how == "hinge" and elems:
        if e["t"] == "obj":
            h = next((p["v"] for p in e["k"] if p["n"] == "hinges"), None)
            if h is None:
                h = obj([])
                e["k"].append({"n": "hinges", "v": h})
            if h["t"] == "obj":
                h["k"].insert(rng.randrange(len(h["k"]) + 1), {"n": rng.choice(nodes), "v": arr([string(rng.choice(["Phiy", "Ux", "Uz", "Uy"]))])})
    else:
        n = sec.get("neumann")
        if n is not None and n["t"] == "obj" and n["k"]:
            rng.choice(n["k"])["n"] = rng.choice(nodes) if how == "nodal" else rng.choice([e["n"] for e in elems] + ["nothing"])
    return doc


def other_spelling(rng, s):
    return rng.choice([s.swapcase(), s.lower(), s.upper(), s + " ", " " + s, s[:-1], s + s[-1:], s[::-1]])


def members(v):
    return v["k"] if v and v["t"] == "obj" else []


def bad_sibling(rng, doc):
    """A changed copy of something besides the original: correct things must not hide incorrect ones."""
    doc = copy.deepcopy(doc)
    sec = {p["n"]: p["v"] for p in members(doc)}
    lists = []   # sequences of things, with the text for the name of another one
    for n in ("links", "neumann", "dirichlet"):
        lists += [p["v"]["a"] for p in members(sec.get(n)) if p["v"]["t"] == "arr" and p["v"]["a"]] * (3 if n == "links" else 1)
    for n in ("nodes", "material", "crosssection", "elements"):
        if members(sec.get(n)):
            lists.append(members(sec[n]))
    for e in members(sec.get("elements")):
        for p in members(e["v"]):
            if p["n"] == "hinges":
                lists += [q["v"]["a"] for q in members(p["v"]) if q["v"]["t"] == "arr" and q["v"]["a"]]
    if not lists:
        return corrupt(rng, doc)
    l = rng.choice(lists)
    x = copy.deepcopy(rng.choice(l))
    if "n" in x:
        x["v"] = corrupt(rng, x["v"]) if rng.random() < 0.7 or x["v"]["t"] != "obj" else respelt(rng, x["v"])
        x["n"] = rng.choice([x["n"] + "2", "Z9", other_spelling(rng, x["n"])])
        if any(y["n"] == x["n"] for y in l):
            x["n"] = "Zz!"
    elif x["t"] == "obj" and rng.random() < 0.6:
        x = respelt(rng, x)
    else:
        x = corrupt(rng, obj([("x", x)]))["k"]
        if not x:
            return doc
        x = x[0]["v"]
    l.insert(rng.randrange(len(l) + 1), x)
    return doc


def respelt(rng, doc):
    """One name or text in another spelling."""
    doc = copy.deepcopy(doc)
    ps = [p for p in paths(doc) if p and (at(doc, p)["t"] == "str" or p[-1][0] == "k")]
    if not ps:
        return doc
    path = rng.choice(ps)
    v = at(doc, path)
    if v["t"] == "str" and rng.random() < 0.7:
        v["s"] = other_spelling(rng, v["s"])
    else:
        parent, (kind, i) = at(doc, path[:-1]), path[-1]
        if kind == "k":
            parent["k"][i]["n"] = other_spelling(rng, parent["k"][i]["n"])
    return doc


def corrupt(rng, doc):
    """One change at one place, which may or may not make the document invalid."""
    doc = copy.deepcopy(doc)
    ps = [p for p in paths(doc) if p]
    if rng.random() < 0.15:
        top = [p for p in ps if len(p) <= 2]
        ps = top or ps
    if not ps:
        return doc
    path = rng.choice(ps)
    parent = at(doc, path[:-1])
    kind, i = path[-1]
    v = at(doc, path)
    if rng.random() < 0.12 and doc["k" if doc["t"] == "obj" else "a"] and doc["t"] == "obj" and any(p["n"] == "elements" for p in doc["k"]):
        return misplaced(rng, doc)
    loads = [at(doc, p) for p in ps if any(q["n"] == "degree" for q in at(doc, p).get("k", []))]
    if loads and rng.random() < 0.06:   # other numbers of values and positions
        v = rng.choice(loads)
        v["k"] = [q for q in v["k"] if q["n"] not in ("values", "position")]
        for n, m in (("values", 3), ("position", 2)):
            v["k"].append({"n": n, "v": arr([{"t": "num", "s": rng.choice(["1", "0", "2.5"])} for _ in range(rng.randint(0, m))])})
        return doc
    if rng.random() < 0.05:   # elements without nodes
        es = [p for p in doc["k"] if p["n"] == "elements" and p["v"]["t"] == "obj" and p["v"]["k"]] if doc["t"] == "obj" else []
        if es:
            e = rng.choice(es[0]["v"]["k"])
            if e["v"]["t"] == "obj":
                e["v"]["k"] = [q for q in e["v"]["k"] if q["n"] != "nodes"]
            a, b = (e["n"] + "AB")[:2]
            e["n"] = rng.choice([a + "-" + b, a + " " + b, a + "_" + b, a + b + a, a, a + b + b, b + a, a + "," + b, a + b + " ", a + b + "1", a + a])
            return doc
    if loads and rng.random() < 0.05:   # loads that aren't possible, but zero
        v = rng.choice(loads)
        v["k"] = [q if q["n"] != "values" or q["v"]["t"] != "arr" else dict(q, v=arr([num(None, "0") for _ in q["v"]["a"]])) for q in v["k"]]
        for q in v["k"]:
            if q["n"] == "position" and q["v"]["t"] == "arr" and q["v"]["a"]:
                q["v"] = arr([num(None, rng.choice(["-1", "1e9", "1000"]))])
        if rng.random() < 0.6:
            for q in v["k"]:
                if q["n"] == "kind":
                    q["v"] = string(rng.choice(["Fy", "qy", "my", "Mx", "mz", "Fz", "qz", "qx", "My"]))
        return doc
    how = rng.choice(["remove", "remove", "value", "value", "value", "key", "key", "type", "null", "dup", "extra", "extend"])
    if how == "remove":
        parent[kind].pop(i)
    elif how == "value":
        if v["t"] == "num":
            v.clear()
            v.update({"t": "num", "s": rng.choice(OTHER_NUMS)})
        elif v["t"] == "str" and v["s"] and rng.random() < 0.4:   # nearly the same
            j = rng.randrange(len(v["s"]))
            v["s"] = v["s"][:j] + rng.choice(["", rng.choice("abcdefrstuxyz0123 -"), v["s"][j].swapcase(), v["s"][j] * 2]) + v["s"][j + 1:]
        elif v["t"] == "str":
            v["s"] = rng.choice(OTHER_TEXTS + [p["n"] for q in paths(doc) for p in at(doc, q).get("k", [])][:20])
        elif v["t"] in ("obj", "arr"):
            v["k" if v["t"] == "obj" else "a"] = []
    elif how == "key" and kind == "k":
        names = [p["n"] for q in paths(doc) for p in at(doc, q).get("k", [])]
        n = parent["k"][i]["n"]
        parent["k"][i]["n"] = rng.choice([n + "x", n[:-1], n.swapcase() if rng.random() < 0.3 else n + "1", rng.choice(OTHER_TEXTS), rng.choice(names), ""])
    elif how == "type":
        new = rng.choice([{"t": "num", "s": "1"}, {"t": "str", "s": "1"}, {"t": "bool", "s": "true"}, obj([]), arr([]), arr([copy.deepcopy(v)]), obj([("x", copy.deepcopy(v))])])
        if kind == "k":
            parent["k"][i]["v"] = new
        else:
            parent["a"][i] = new
    elif how == "null":
        new = {"t": "null"}
        if kind == "k":
            parent["k"][i]["v"] = new
        else:
            parent["a"][i] = new
    elif how == "dup":
        parent[kind].insert(rng.randrange(len(parent[kind]) + 1), copy.deepcopy(parent[kind][i]))
    elif how == "extra" and v["t"] == "obj":
        v["k"].append({"n": rng.choice(["x", "Ux", "Fx", "parameter", "nu", "roll", "position"]), "v": rng.choice([{"t": "num", "s": "1"}, string("x"), obj([])])})
    elif how == "extend" and v["t"] == "arr":
        v["a"].append(copy.deepcopy(v["a"][-1]) if v["a"] else {"t": "num", "s": "1"})
    return doc


def text_of(v):
    if v["t"] == "obj":
        return "{" + ",".join(json.dumps(p["n"]) + ":" + text_of(p["v"]) for p in v["k"]) + "}"
    if v["t"] == "arr":
        return "[" + ",".join(text_of(y) for y in v["a"]) + "]"
    if v["t"] == "str":
        return json.dumps(v["s"])
    return v.get("s", "null")


def garbage(rng, doc):
    """Text that is no JSON document."""
    s = text_of(doc)
    k = rng.randrange(len(s))
    return rng.choice([s[:k], s[:-1], "", "nonsense", s + "}", s + " x", "[" + s, s.replace(":", " ", 1), "\x00", "{", s.replace("]", "", 1) + "]" if "]" in s else "{"])
