"""Which models and scenario families decide which property, and which clauses of the specification
count for it."""
import copy
import json
import random
import re
from fractions import Fraction as Fr

import documents
import expectations
import polys
import structures as S
from structures import random_structure, solve_ops, txt, value

ASSUMPTIONS = [
    "The exact solution in spec/Mechanics.tla is that of linear-elastic truss and Euler-Bernoulli beam theory.",
    "Numbers agree if they differ by no more than rounding (relative 1e-7 of the largest magnitude of that kind in the structure).",
    "The driver reports calls and replies as they happened; TLC and the module override for rational numbers evaluate correctly.",
]

BASE = {"panic", "crash", "hang"}
FN = {"fnN", "fnV", "fnM", "fnU", "absent", "ipok"}
NODAL = {"disp", "fixed", "reac", "free", "cover", "agree"}
VALUES = NODAL | FN | {"solveok"}
HIST = VALUES | {"untouched", "solveerr", "badsolved", "order", "dim", "getok", "geterr", "iperr", "layout", "add", "ipid", "allsame", "allcover"}
DUMP = {"dumpnodes", "dumpelems", "dumpdirichlet", "dumpneumann", "dumplinks"}


def scen(ops, **tag):
    return {"ops": ops, "tag": tag}


def many(n, f):
    return [f() for _ in range(n)]


def attempts(f, n):
    out = []
    guard = 0
    while len(out) < n and guard < 20 * n + 50:
        guard += 1
        s = f()
        if s is not None:
            out.append(s)
    return out


def some_structure(rng, large=0.03, **kw):
    """Now and then a large regular structure instead of a small random one."""
    return S.large_structure(rng) if rng.random() < large else random_structure(rng, **kw)


# ---------------------------------------------------------------- plain structures
def plain(rng, n, **kw):
    return many(n, lambda: scen(solve_ops(random_structure(rng, **kw), tol=rng.choice(["1e-12", "1e-10", "1e-9", "0"]))))


def fam_random(rng, n):
    return plain(rng, n)


def fam_truss3(rng, n):
    return plain(rng, n, kind="truss3", size=rng.choice([3, 4, 6]), scaled=0.3)


def aligned_structure(rng):
    """Elements that are nearly, but not exactly, parallel to an axis."""
    b = S.Builder(rng, 0)
    if rng.random() < 0.7:
        o = b.origin()
        b.node(*o)
        for _ in range(rng.choice([1, 1, 2, 3])):
            a = b.st["nodes"][-1]
            dx, dz = S.almost(rng) if rng.random() < 0.7 else b.direction()
            x, y, z = b.coor(a)
            if b.at(x + dx, y, z + dz) is None:
                b.elem("frame2d", a, b.node(x + dx, y, z + dz))
    else:
        x, y, z = b.origin()
        top = b.node(x, y, z)
        for k in range(3):
            u, v = S.almost(rng)
            if abs(u) < abs(v):
                u, v = v, u
            d = [Fr(0)] * 3
            d[k], d[(k + rng.choice([1, 2])) % 3] = u, v
            foot = b.node(x + d[0], y + d[1], z + d[2])
            b.elem("truss3d", top, foot)
            for dof in ("Ux", "Uy", "Uz"):
                b.fix(foot["id"], dof, value(rng) / 1000 if rng.random() < 0.1 else Fr(0))
    if not b.st["elems"] or not b.support(links=0, nonzero=0.1):
        return None
    b.loads(0.5, 0.7)
    b.shuffle()
    return b.st


def fam_aligned(rng, n):
    def one():
        st = aligned_structure(rng)
        return st and scen(solve_ops(st))
    return attempts(one, n)


def fam_large(rng, n):
    return many(n, lambda: scen(solve_ops(S.large_structure(rng), tol=rng.choice(["1e-12", "1e-9"]))))


def fam_large_links(rng, n):
    return many(n, lambda: scen(solve_ops(S.large_structure(rng, slanted=rng.choice([0.3, 0.6])))))


def fam_rails(rng, n):
    """Many supports."""
    return many(n, lambda: scen(solve_ops(S.large_structure(rng, kinds=("rails", "rails", "beam"), slanted=rng.choice([0, 0, 0.1])))))


def fam_mixed(rng, n):
    return plain(rng, n, kind="mixed")


def fam_loaded(rng, n):
    """Few elements with many loads, also at coinciding positions and at the ends."""
    def one():
        b_st = random_structure(rng, size=rng.choice([1, 1, 2]), kind=rng.choice(["frame", "frame", "truss2", "truss3"]), loads=(0.9, 0.3))
        if rng.random() < 0.3:
            stairs(rng, b_st)
        else:
            extra_loads(rng, b_st, rng.randint(1, 4))
        return scen(solve_ops(b_st, tol=rng.choice(["1e-12", "1e-9"])))
    return many(n, one)


def stairs(rng, st):
    """Many loads at different positions of an element."""
    e = rng.choice(st["elems"])
    L2 = S.length_sq(st, e)
    L = S.isqrt_exact(L2) or Fr(float(L2) ** 0.5).limit_denominator(1000) * Fr(99, 100)
    m = rng.choice([4, 5, 8, 10, 16])
    kinds = rng.choice([["Uz"], ["Phiy"], ["Uz", "Phiy"], ["Ux"], ["Ux", "Uz", "Phiy"]]) if e["kind"] == "frame2d" else ["Ux"]
    for i, k in enumerate(rng.sample(range(m + 1), rng.randint(3, min(m + 1, 9)))):
        st["loads"].append({"elem": e["id"], "load": {"id": "s%d" % i, "type": "dirac", "kind": rng.choice(kinds), "v0": txt(value(rng)), "pos": txt(L * k / m)}})
    if rng.random() < 0.4:
        rng.shuffle(st["loads"])


def edge_position(rng, st, e):
    """At the edge of an element, next to it, or a little off."""
    L2 = S.length_sq(st, e)
    L = S.isqrt_exact(L2) or Fr(float(L2) ** 0.5).limit_denominator(10 ** 14)
    if rng.random() < 0.2:
        return rng.choice(["0", "-1e-12", "-1e-6", "1e-12"])
    return txt(L + rng.choice([L / 10 ** 3, L / 10 ** 5, Fr(1, 10 ** 6), Fr(1, 10 ** 8), Fr(1, 10 ** 9), Fr(0), Fr(1, 10 ** 11), -Fr(1, 10 ** 9), -L / 10 ** 6]))


def extra_loads(rng, st, k):
    """More loads, preferably at positions that occur already."""
    have = [l for l in st["loads"] if l["load"]["type"] == "dirac"]
    for i in range(k):
        e = rng.choice(st["elems"])
        L = S.isqrt_exact(S.length_sq(st, e))
        pos = [l["load"]["pos"] for l in have if l["elem"] == e["id"]] + ["0"] + ([txt(L)] * 2 if L else [])
        kinds = ["Ux", "Uz", "Phiy"] if e["kind"] == "frame2d" else ["Ux"]
        typ = rng.choice(["dirac", "dirac", "dirac", "constant", "linear"])
        l = {"id": "x%d" % i, "type": typ, "kind": rng.choice(kinds if typ == "dirac" else kinds[:2]), "v0": txt(value(rng, True))}
        if typ == "dirac":
            l["pos"] = rng.choice(pos)
            if rng.random() < 0.35:   # or right next to them
                near = Fr(l["pos"]) + Fr(rng.choice([4, 1, -3, -1])) / 10 ** rng.choice([2, 3, 4, 4, 5])
                if 0 <= near and (L is None or near <= L) and (L or near <= Fr(l["pos"])):
                    l["pos"] = txt(near)
        if typ == "linear":
            l["v1"] = txt(value(rng, True))
        st["loads"].append({"elem": e["id"], "load": l})


# ---------------------------------------------------------------- prescribed displacements
def fam_prescribed(rng, n):
    def one():
        st = some_structure(rng, nonzero=rng.choice([0.5, 1, 1]), links=rng.choice([0, 0, 0.15, 0.5]), loads=rng.choice([(0, 0), (0.3, 0.3), (0.6, 0.5)]))
        if rng.random() < 0.3:   # nothing but support movements
            st["loads"], st["neumann"] = [], []
        if rng.random() < 0.3:   # of very different sizes
            for d in st["dirichlet"]:
                if Fr(d["val"]) and rng.random() < 0.5:
                    d["val"] = txt(Fr(d["val"]) * rng.choice([Fr(1, 10 ** 5), Fr(1, 1000), 50]))
        elif rng.random() < 0.25:   # that cancel each other
            S.balance(rng, st, "dirichlet")
        return scen(solve_ops(st))

    def several():
        """One problem with changing prescribed values."""
        st = random_structure(rng, size=rng.choice([1, 2, 3]), nonzero=0.5, links=rng.choice([0, 0.2]))
        ops = solve_ops(st)
        for k in range(rng.randint(1, 3)):
            style = rng.choice(["all", "some", "none", "one", "opposite"])
            one_of = rng.randrange(max(1, len(st["dirichlet"])))
            ds = []
            for i, d in enumerate(st["dirichlet"]):
                nz = style == "all" or (style == "some" and rng.random() < 0.5) or (style == "one" and i == one_of)
                ds.append(dict(d, val=txt(value(rng) / rng.choice([10, 100])) if nz or style == "opposite" else "0"))
            if style == "opposite":
                S.opposite(ds)
            ops.append({"op": "setbc", "p": "P", "dirichlet": ds, "neumann": st["neumann"] if rng.random() < 0.5 else []})
            ops += [{"op": "solve", "r": "R%d" % k, "p": "P", "l": "L", "s": "S"}, {"op": "all", "r": "R%d" % k},
                    {"op": "interpall", "r": "R%d" % k, "p": "P", "elems": [e["id"] for e in st["elems"]], "tol": "1e-12"}]
        return scen(ops)
    return many(n - n // 4, one) + many(n // 4, several)


# ---------------------------------------------------------------- hinges
ALL_SETS = [[h for k, h in enumerate(["u0", "u1", "w0", "w1", "t0", "t1"]) if m >> k & 1] for m in range(64)]
H_DOF = {"u": "Ux", "w": "Uz", "t": "Phiy"}


def hinge_list(e, names):
    return [{"node": e["n0"] if h[1] == "0" else e["n1"], "dof": H_DOF[h[0]]} for h in names]


def fam_hinges(rng, n):
    return plain(rng, n // 2, hinges=0.9, kind="frame") + plain(rng, n // 4, hinges=0.7, kind="mixed") + plain(rng, n - n // 2 - n // 4, hinges=0.8, irrational=0.1)


def fam_hinge_refusal(rng, n):
    """All sets of hinges, with and without names an element kind does not have."""
    out = []
    for k in range(n):
        ops = []
        for m in range(64):
            x, z = S.PYTH[rng.randrange(len(S.PYTH))]
            nodes = [{"id": "A", "x": "0", "y": "0", "z": "0"}, {"id": "B", "x": txt(rng.choice([-1, 1]) * x), "y": "0", "z": txt(rng.choice([-1, 1]) * z)}]
            if rng.random() < 0.03:
                nodes[1] = dict(nodes[0], id="B")
            rng.shuffle(nodes)
            e = {"n0": "A", "n1": "B", "kind": rng.choice(["frame2d", "frame2d", "frame2d", "truss2d", "truss3d"])}
            hs = hinge_list(e, ALL_SETS[m])
            if rng.random() < 0.15:
                hs.append({"node": rng.choice("AB"), "dof": rng.choice(["Uy", "Phiz", "Phix"])})
            rng.shuffle(hs)
            ops.append({"op": "newelem", "id": rng.choice(["AB", "e", "AB", "AB", "AB", "AB", "AB", "AB", ""] if rng.random() < 0.1 else ["AB"]),
                        "nodes": nodes, "hinges": hs, **e})
        out.append(scen(ops))
    return out


# ---------------------------------------------------------------- inclined supports
def fam_links(rng, n):
    def one():
        return scen(solve_ops(random_structure(rng, links=rng.choice([0.5, 0.9]), nonzero=rng.choice([0, 0.3]), loads=(0.5, 0.8),
                                               kind=rng.choice(["frame", "truss2", "truss3", "truss3", "mixed"]))))

    def multi():
        """Several inclined supports at the nodes of a space truss, composed one after the other."""
        st = random_structure(rng, kind="truss3", size=rng.choice([3, 4, 6]), links=0.3, loads=(0.4, 0.8))
        used = {(d["node"], d["dof"]) for d in st["dirichlet"]}
        nodes = sorted({nd for nd, _ in all_dofs(st)})
        rng.shuffle(nodes)
        for nd in nodes[:2]:
            free = [d for d in ("Ux", "Uz", "Uy") if (nd, d) not in used]
            st["links"] = [l for l in st["links"] if l["node"] != nd]
            if len(free) < 3:
                st["dirichlet"] = [d for d in st["dirichlet"] if d["node"] != nd]
            tos = []
            for _ in range(rng.choice([1, 2, 2])):
                f, t = rng.sample(["Ux", "Uz", "Uy"], 2)
                if t in tos:
                    continue
                tos.append(t)
                a, b = rng.choice(S.PYTH)
                h = S.isqrt_exact(a * a + b * b)
                c, s = (Fr(a) / h * rng.choice([-1, 1]), Fr(b) / h * rng.choice([-1, 1])) if rng.random() < 0.85 else S.slight(rng)
                l = {"node": nd, "from": f, "to": t, "c": txt(c), "s": txt(s)}
                if rng.random() < 0.4:
                    l["turns"] = rng.choice(["1", "-1", "2"])
                st["links"].append(l)
        if not S.stable(st):
            return None
        return scen(solve_ops(st))
    k = n // 4
    return many(n - k, one) + attempts(multi, k)


# ---------------------------------------------------------------- load cases
def fam_linear(rng, n):
    def case(st):
        loads, ids = [], 0
        for e in st["elems"]:
            while rng.random() < 0.5:
                ids += 1
                kinds = ["Ux", "Uz", "Phiy"] if e["kind"] == "frame2d" else ["Ux"]
                typ = rng.choice(["dirac", "constant", "linear"])
                l = {"type": typ, "kind": rng.choice(kinds if typ == "dirac" else kinds[:2]), "v0": txt(value(rng))}
                if typ == "dirac":
                    L = S.isqrt_exact(S.length_sq(st, e))
                    l["pos"] = txt((L if L else Fr(9, 10) * Fr(int(float(S.length_sq(st, e)) ** 0.5 * 1000), 1000)) * rng.choice([0, Fr(1, 4), Fr(1, 2), Fr(4, 5), 1]))
                if typ == "linear":
                    l["v1"] = txt(value(rng))
                loads.append((e["id"], l))
        neumann = [{"node": a, "dof": d, "val": txt(value(rng))} for a, d in all_dofs(st) if rng.random() < 0.3]
        move = [txt(value(rng) / 100) if rng.random() < 0.4 else "0" for _ in st["dirichlet"]]
        return loads, neumann, move

    def scaled(c, f):
        loads = [(e, dict(l, v0=txt(Fr(l["v0"]) * f), **({"v1": txt(Fr(l["v1"]) * f)} if "v1" in l else {}))) for e, l in c[0]]
        return loads, [dict(x, val=txt(Fr(x["val"]) * f)) for x in c[1]], [txt(Fr(v) * f) for v in c[2]]

    def plus(a, b):
        return a[0] + b[0], a[1] + b[1], [txt(Fr(x) + Fr(y)) for x, y in zip(a[2], b[2])]

    def one():
        st = some_structure(rng, size=rng.choice([1, 2, 2, 3]), loads=(0, 0))
        st["loads"], st["neumann"] = [], []
        a, b = case(st), case(st)
        f, g = Fr(rng.choice([2, -1, 1, "1/2", "-3"])), Fr(rng.choice([1, -1, 3, "1/4", 1000000, "-1/1000000"]))
        zero = ([], [], ["0"] * len(st["dirichlet"]))
        cases = [zero, a, scaled(a, rng.choice([Fr(-1), Fr(1000000), Fr(1, 1000000), Fr(1, 10 ** 11), Fr(10 ** 9), Fr(0), Fr(7)])), plus(scaled(a, f), scaled(b, g))]
        rng.shuffle(cases)
        cases = cases[:3]
        ops = [{"op": "mk", "p": "P", "st": st}, {"op": "layout", "p": "P", "l": "L"}]
        current = []
        for k, (loads, neumann, move) in enumerate(cases):
            for e, lid in current:
                ops.append({"op": "rm", "p": "P", "elem": e, "lid": lid})
            current = []
            for i, (e, l) in enumerate(loads):
                lid = "c%d_%d" % (k, i)
                ops.append({"op": "add", "p": "P", "elem": e, "load": dict(l, id=lid)})
                current.append((e, lid))
            ops.append({"op": "setbc", "p": "P", "neumann": neumann, "dirichlet": [dict(d, val=v) for d, v in zip(st["dirichlet"], move)]})
            ops += [{"op": "solve", "r": "R%d" % k, "p": "P", "l": "L", "s": "S%d" % k}, {"op": "all", "r": "R%d" % k},
                    {"op": "interpall", "r": "R%d" % k, "p": "P", "elems": [e["id"] for e in st["elems"]], "tol": "1e-12"}]
        return scen(ops)
    return many(n, one)


def all_dofs(st):
    out = []
    for e in st["elems"]:
        for nd in (e["n0"], e["n1"]):
            for d in S.KIND_DOFS[e["kind"]]:
                if (nd, d) not in out:
                    out.append((nd, d))
    return out


# ---------------------------------------------------------------- the same structure, written differently
def rename(rng, st):
    st = copy.deepcopy(st)
    names = S.Names(rng)
    node = {nd["id"]: names.node(i) for i, nd in enumerate(st["nodes"])}
    elem = {}
    for i, e in enumerate(st["elems"]):
        cand = rng.choice([node[e["n0"]] + node[e["n1"]], "e%d" % i, str(rng.randrange(100)), "bar", "Z", "a"])
        while cand in elem.values() or cand == "":
            cand += rng.choice("abcXYZ019")
        elem[e["id"]] = cand
    for nd in st["nodes"]:
        nd["id"] = node[nd["id"]]
    for e in st["elems"]:
        e["id"], e["n0"], e["n1"] = elem[e["id"]], node[e["n0"]], node[e["n1"]]
        for h in e["hinges"]:
            h["node"] = node[h["node"]]
    for k in ("dirichlet", "neumann", "links"):
        for x in st[k]:
            x["node"] = node[x["node"]]
    for l in st["loads"]:
        l["elem"] = elem[l["elem"]]
    return st


def reorder(rng, st):
    st = copy.deepcopy(st)
    for k in ("nodes", "mats", "css", "elems", "dirichlet", "neumann", "loads"):
        rng.shuffle(st[k])
    for e in st["elems"]:
        rng.shuffle(e["hinges"])
    return st


def translate(rng, st):
    st = copy.deepcopy(st)
    by = {k: Fr(rng.randint(-50, 50), rng.choice([1, 2, 4])) for k in "xyz"}
    if rng.random() < 0.35:   # far away, if that doesn't lose digits
        far = {k: Fr(rng.randint(-9, 9)) * 10 ** rng.choice([4, 6, 7, 9]) for k in "xyz"}
        if all(Fr(float(Fr(nd[k]) + far[k])) == Fr(nd[k]) + far[k] for nd in st["nodes"] for k in "xyz"):
            by = far
    for nd in st["nodes"]:
        for k in "xyz":
            nd[k] = txt(Fr(nd[k]) + by[k])
    return st


def digits(st):
    """Are the coordinates the program sees close to the exact ones?"""
    nodes = {nd["id"]: nd for nd in st["nodes"]}
    size = min(max(abs(Fr(nodes[e["n0"]][k]) - Fr(nodes[e["n1"]][k])) for k in "xyz") for e in st["elems"])
    return all(abs(Fr(float(Fr(nd[k]))) - Fr(nd[k])) <= size / 10 ** 14 for nd in st["nodes"] for k in "xyz")


def mirror(rng, st):
    st = copy.deepcopy(st)
    for nd in st["nodes"]:
        nd["x"] = txt(-Fr(nd["x"]))
    for k in ("dirichlet", "neumann"):
        for x in st[k]:
            if x["dof"] in ("Ux", "Phiy"):
                x["val"] = txt(-Fr(x["val"]))
    for l in st["links"]:   # the axis Ux changes its sign
        if "Ux" in (l["from"], l["to"]):
            l["s"] = txt(-Fr(l["s"]))
    for l in st["loads"]:
        if l["load"]["kind"] in ("Uz", "Phiy"):
            for v in ("v0", "v1"):
                if v in l["load"]:
                    l["load"][v] = txt(-Fr(l["load"][v]))
    return dedupe(st)


def dedupe(st):
    """The same load object on several elements may have become different ones."""
    seen = {}
    for l in st["loads"]:
        key = l["load"]["id"]
        if key in seen and seen[key] != l["load"]:
            l["load"]["id"] = key + "_" + l["elem"]
        seen.setdefault(l["load"]["id"], dict(l["load"]))
    return st


def reverse(rng, st):
    st = copy.deepcopy(st)
    for e in st["elems"]:
        L = S.isqrt_exact(S.length_sq(st, e))
        ls = [l for l in st["loads"] if l["elem"] == e["id"]]
        if rng.random() < 0.5 or (L is None and any(l["load"]["type"] == "dirac" for l in ls)):
            continue
        e["n0"], e["n1"] = e["n1"], e["n0"]
        for l in ls:
            l["load"] = x = dict(l["load"], id=l["load"]["id"] + "r")
            if x["type"] == "dirac":
                x["pos"] = txt(L - Fr(x["pos"]))
            if x["type"] == "linear":
                x["v0"], x["v1"] = x["v1"], x["v0"]
            if x["kind"] != "Phiy":
                for v in ("v0", "v1"):
                    if v in x:
                        x[v] = txt(-Fr(x[v]))
    return dedupe(st)


def rotate(rng, st):
    """Turns a plane structure; supports in one direction only become inclined ones."""
    if any(e["kind"] == "truss3d" for e in st["elems"]):
        return cycle(rng, st)
    st = copy.deepcopy(st)
    a, b = rng.choice(S.PYTH)
    h = S.isqrt_exact(a * a + b * b)
    c, s = Fr(a) / h * rng.choice([-1, 1]), Fr(b) / h * rng.choice([-1, 1])
    by = {}
    for d in st["dirichlet"]:
        by.setdefault(d["node"], {})[d["dof"]] = Fr(d["val"])
    fixed, links = [], []
    for nd, v in by.items():
        if "Phiy" in v:
            fixed.append({"node": nd, "dof": "Phiy", "val": txt(v["Phiy"])})
        if "Ux" in v and "Uz" in v:
            fixed.append({"node": nd, "dof": "Ux", "val": txt(c * v["Ux"] - s * v["Uz"])})
            fixed.append({"node": nd, "dof": "Uz", "val": txt(s * v["Ux"] + c * v["Uz"])})
        elif "Ux" in v or "Uz" in v:
            x = v.get("Ux", v.get("Uz"))
            if x != 0:
                return None
            # the normal (1,0) or (0,1) turns to (c,s) or (-s,c)
            nx, nz = (c, s) if "Ux" in v else (-s, c)
            if (nx, nz) in ((1, 0), (-1, 0)):
                fixed.append({"node": nd, "dof": "Ux", "val": "0"})
            elif (nx, nz) in ((0, 1), (0, -1)):
                fixed.append({"node": nd, "dof": "Uz", "val": "0"})
            else:
                links.append({"node": nd, "from": "Ux", "to": "Uz", "c": txt(nz), "s": txt(-nx)})
    if st["links"]:
        return None
    for nd in st["nodes"]:
        x, z = Fr(nd["x"]), Fr(nd["z"])
        nd["x"], nd["z"] = txt(c * x - s * z), txt(s * x + c * z)
    st["dirichlet"], st["links"] = fixed, links
    neumann = []
    for f in st["neumann"]:
        v = Fr(f["val"])
        if f["dof"] == "Phiy":
            neumann.append(f)
        else:
            vx, vz = (c * v, s * v) if f["dof"] == "Ux" else (-s * v, c * v)
            neumann += [dict(f, dof="Ux", val=txt(vx)), dict(f, dof="Uz", val=txt(vz))]
    st["neumann"] = neumann
    return st


def cycle(rng, st):
    """Exchanges the axes of space trusses in turn."""
    if any(e["kind"] != "truss3d" for e in st["elems"]):
        return None
    st = copy.deepcopy(st)
    nxt = rng.choice([{"x": "y", "y": "z", "z": "x"}, {"x": "z", "z": "y", "y": "x"}])
    for nd in st["nodes"]:
        old = {k: nd[k] for k in "xyz"}
        for k in "xyz":
            nd[nxt[k]] = old[k]
    up = {"U" + k: "U" + v for k, v in nxt.items()}
    for k in ("dirichlet", "neumann"):
        for x in st[k]:
            x["dof"] = up[x["dof"]]
    for l in st["links"]:
        l["from"], l["to"] = up[l["from"]], up[l["to"]]
    return st


def fam_transform(rng, n):
    def one():
        base = aligned_structure(rng) if rng.random() < 0.06 else None
        base = base or some_structure(rng, irrational=rng.choice([0, 0, 0.2]), links=rng.choice([0, 0.1]), size=rng.choice([1, 2, 2, 3, 4]), scaled=0.25)
        ops = solve_ops(base, p="P0", l="L0", r="R0", s="S0")
        for k in range(1, rng.choice([2, 3])):
            st = base
            for t in rng.sample([rename, reorder, translate, mirror, reverse, rotate], rng.choice([1, 1, 2, 3])):
                new = t(rng, st)
                st = new if new is not None and digits(new) else st
            for l in st["loads"]:
                l["load"] = dict(l["load"], id="%d%s" % (k, l["load"]["id"]))
            ops += solve_ops(copy.deepcopy(st), p="P%d" % k, l="L%d" % k, r="R%d" % k, s="S%d" % k)
            base = copy.deepcopy(base)
        return scen(ops)
    return many(n, one)


# ---------------------------------------------------------------- numbering and single queries
def fam_numbering(rng, n):
    def one():
        st = some_structure(rng, kind=rng.choice(["mixed", "mixed", "frame", "truss3", "truss2", "spatial"][:5]), size=rng.choice([2, 3, 4, 5, 6]), loads=(0.1, 0.2))
        if rng.random() < 0.3:
            st = rename(rng, st)
        ops = solve_ops(st, elems=False)
        ds = all_dofs(st)
        foreign = [(nd["id"], d) for nd in st["nodes"] for d in S.DOFS if (nd["id"], d) not in ds] + [("nowhere", "Ux"), ("", "Ux")]
        asked = rng.sample(ds, min(len(ds), 6)) + rng.sample(foreign, min(len(foreign), 3))
        rng.shuffle(asked)
        for nd, d in asked:
            ops.append({"op": "get", "r": "R", "what": rng.choice(["primary", "reaction"]), "node": nd, "dof": d})
        return scen(ops)

    def broken():
        """Duplicate and unconnected prescribed values."""
        st = random_structure(rng, size=rng.choice([1, 2, 3]), loads=(0.1, 0.1))
        ds = all_dofs(st)
        foreign = [(nd["id"], d) for nd in st["nodes"] for d in S.DOFS if (nd["id"], d) not in ds] + [("Q7", "Ux"), ("nowhere", "Phix")]
        for _ in range(rng.choice([0, 1, 1, 2])):
            nd, d = rng.choice(foreign)
            st["dirichlet"].append({"node": nd, "dof": d, "val": rng.choice(["0", "1"])})
        for _ in range(rng.choice([0, 1, 1, 2])):
            if st["dirichlet"]:
                x = rng.choice(st["dirichlet"])
                st["dirichlet"].append(dict(x, val=rng.choice([x["val"], "0", "2"])))
        rng.shuffle(st["dirichlet"])
        return scen(solve_ops(st, elems=False))

    def spatial():
        """Plane and space elements meeting at nodes, possibly unstable: only the layout matters."""
        st = random_structure(rng, kind="truss3", size=rng.choice([3, 4]), loads=(0, 0))
        y = Fr(0)
        for _ in range(rng.choice([1, 2, 3])):
            a, b = rng.sample(st["nodes"], 2)
            if any({e["n0"], e["n1"]} == {a["id"], b["id"]} for e in st["elems"]) or (a["x"], a["z"]) == (b["x"], b["z"]):
                continue
            if Fr(a["y"]) != Fr(b["y"]):
                continue
            st["elems"].append({"id": "f%d" % len(st["elems"]), "kind": rng.choice(["frame2d", "truss2d"]), "n0": a["id"], "n1": b["id"],
                                "mat": st["mats"][0]["id"], "cs": st["css"][0]["id"], "hinges": []})
        for nd, d in all_dofs(st):
            if d == "Phiy" and not any((x["node"], x["dof"]) == (nd, d) for x in st["dirichlet"]) and rng.random() < 0.5:
                st["dirichlet"].append({"node": nd, "dof": d, "val": "0"})
        return scen(solve_ops(st, elems=False))
    return many(n - 2 * (n // 4), one) + many(n // 4, broken) + many(n // 4, spatial)


# ---------------------------------------------------------------- dangling references
def fam_dangling(rng, n):
    def one():
        st = some_structure(rng, size=rng.choice([1, 2, 2, 3]), links=rng.choice([0, 0.3]))
        ds = all_dofs(st)
        foreign = [(nd["id"], d) for nd in st["nodes"] for d in S.DOFS if (nd["id"], d) not in ds] + [("Q7", "Ux"), ("Q7", "Uz"), ("", "Uz")]
        names = {nd["id"] for nd in st["nodes"]}
        foreign += [(x, d) for nd, d in rng.sample(ds, min(3, len(ds))) for x in [documents.other_spelling(rng, nd)] if x not in names]
        ids = [e["id"] for e in st["elems"]]
        ops = solve_ops(st, elems=False)

        def valid(r):
            out = []
            nd, d = rng.choice(ds)
            out.append({"op": "get", "r": r, "what": rng.choice(["primary", "reaction"]), "node": nd, "dof": d})
            out.append({"op": "interp", "r": r, "p": "P", "elem": rng.choice(ids), "fct": rng.choice(["Ux", "Nx", "Uz", "My", "Vz", "Phiy", "Mx"]), "tol": "1e-12"})
            return out

        def invalid(r):
            nd, d = rng.choice(foreign)
            if rng.random() < 0.6:
                return [{"op": "get", "r": r, "what": rng.choice(["primary", "reaction"]), "node": nd, "dof": d}]
            unknown = [x for x in [documents.other_spelling(rng, rng.choice(ids)), "nope", "", ids[0] + "x"] if x not in ids]
            return [{"op": "interp", "r": r, "p": "P", "elem": rng.choice(unknown[:1] + unknown), "fct": rng.choice(["Ux", "My", "Mx"]), "tol": "1e-12"}]

        for k in range(rng.randint(2, 4)):
            for _ in range(rng.randint(1, 3)):
                ops += invalid("R") if rng.random() < 0.6 else valid("R")
            what = rng.choice(["neumann", "dirichlet", "elem", "link", "supports", "fewer", "kind", "kind"])
            q = "Q%d" % k
            bad = copy.deepcopy(st)
            for l in bad["loads"]:
                l["load"]["id"] += q
            nd, d = rng.choice(foreign)
            if what == "neumann":
                bad["neumann"].insert(rng.randrange(len(bad["neumann"]) + 1), {"node": nd, "dof": d, "val": rng.choice(["1", "0", "-3"])})
            elif what == "dirichlet":
                bad["dirichlet"].insert(rng.randrange(len(bad["dirichlet"]) + 1), {"node": nd, "dof": d, "val": rng.choice(["0", "1"])})
            elif what == "elem":   # an element the layout does not know
                a = rng.choice(bad["nodes"])
                new = {"id": "N!", "x": txt(Fr(a["x"]) + 3), "y": a["y"], "z": txt(Fr(a["z"]) + 4)}
                bad["nodes"].append(new)
                kind = "truss3d" if bad["elems"][0]["kind"] == "truss3d" else rng.choice(["frame2d", "truss2d"])
                bad["elems"].insert(rng.randrange(len(bad["elems"]) + 1), {"id": "new", "kind": kind, "n0": a["id"], "n1": "N!", "mat": bad["mats"][0]["id"],
                                                                         "cs": bad["css"][0]["id"], "hinges": []})
            elif what == "link":
                nd = rng.choice(["Q7", rng.choice(st["nodes"])["id"]])
                have = [d for x, d in ds if x == nd]
                pairs = [(f, t) for f in ("Ux", "Uz", "Uy") for t in ("Ux", "Uz", "Uy") if f != t and not (f in have and t in have)]
                if not pairs:
                    continue
                f, t = rng.choice(pairs)
                bad["links"].append({"node": nd, "from": f, "to": t, "c": "0.6", "s": "0.8"})
            elif what == "supports":
                if not bad["dirichlet"]:
                    continue
                i = rng.randrange(len(bad["dirichlet"]))
                taken = {(x["node"], x["dof"]) for x in bad["dirichlet"]} | {(l["node"], l[z]) for l in bad["links"] for z in ("from", "to")}
                rest = [x for x in ds if x not in taken]
                if not rest:
                    continue
                nd, d = rng.choice(rest)
                bad["dirichlet"][i] = {"node": nd, "dof": d, "val": rng.choice(["0", "0.01"])}
            elif what == "kind":   # elements with other degrees of freedom at the same nodes
                plane = [e for e in bad["elems"] if e["kind"] != "truss3d"]
                if not plane:
                    continue
                new = rng.choice(["frame2d", "frame2d", "truss2d", "truss3d"])
                for e in rng.sample(plane, rng.choice([1, len(plane)])):
                    e.update(kind=new, hinges=[])
                kinds = {e["id"]: e["kind"] for e in bad["elems"]}
                bad["loads"] = [l for l in bad["loads"] if l["load"]["kind"] == "Ux" or kinds[l["elem"]] == "frame2d"]
                if new == "truss3d" and rng.random() < 0.5:
                    bad["dirichlet"] += [{"node": nd, "dof": d, "val": "0"} for nd, d in all_dofs(bad) if d == "Uy"]
            else:   # the layout knows more than the problem
                if len(bad["elems"]) < 2:
                    continue
                gone = bad["elems"].pop(rng.randrange(len(bad["elems"])))
                bad["loads"] = [l for l in bad["loads"] if l["elem"] != gone["id"]]
            ops.append({"op": "mk", "p": q, "st": S.straighten(bad)})
            ops.append({"op": "solve", "r": "B", "p": q, "l": "L", "s": rng.choice(["S", "T"])})
            ops.append({"op": "all", "r": "B"})
            if rng.random() < 0.4:
                ops += [{"op": "layout", "p": q, "l": "M"}, {"op": "solve", "r": "B", "p": q, "l": "M", "s": "S"}, {"op": "all", "r": "B"}]
            if rng.random() < 0.6:
                ops += [{"op": "solve", "r": "A", "p": "P", "l": "L", "s": rng.choice(["S", "T"])}, {"op": "all", "r": "A"}]
                ops += valid("A")
        ops += [{"op": "all", "r": "R"}, {"op": "interpall", "r": "R", "p": "P", "elems": ids, "tol": "1e-12"}]
        return scen(ops)
    return many(n, one)


# ---------------------------------------------------------------- stable or not
def line_structure(rng):
    """One free node between bars, or hinged beams, in one line, possibly with one more in another direction, or a support."""
    while True:
        b = S.Builder(rng, 0)
        space = rng.random() < 0.3
        x, y, z = b.origin()
        top = b.node(x, y, z)
        k = [rng.choice([0, 1, 1, 2, 3, 3, 4, 5, 7, 9, 11, 13, Fr(1, 3), Fr(7, 10), Fr(13, 17)]) for _ in range(3)]
        k = [v * rng.choice([-1, 1]) for v in k]
        if not space:
            k[1] = 0
        if not any(k):
            continue
        ways = [(tuple(Fr(v) for v in k), rng.choice([1, 2, 2, 3]))]
        if rng.random() < 0.4:
            ways.append(((Fr(rng.randint(-3, 3)), Fr(rng.randint(-3, 3) if space else 0), Fr(rng.randint(1, 3))), 1))
        for d, m in ways:
            at = set()
            for _ in range(m):
                f = rng.choice([-3, -2, -1, 1, 2, Fr(1, 3), Fr(1, 7), Fr(-7, 10), 10])
                foot = tuple(u + f * v for u, v in zip((x, y, z), d))
                if foot in at or b.at(*foot) is not None:
                    continue
                at.add(foot)
                foot = b.node(*foot)
                kind = "truss3d" if space else rng.choice(["truss2d", "truss2d", "frame2d"])
                e = b.elem(kind, *((top, foot) if rng.random() < 0.5 else (foot, top)))
                if kind == "frame2d":
                    e["hinges"] = hinge_list(e, ["t0", "t1"])
                for dof in S.KIND_DOFS[kind]:
                    b.fix(foot["id"], dof)
        if not b.st["elems"]:
            continue
        if any(e["kind"] == "frame2d" for e in b.st["elems"]):
            b.fix(top["id"], "Phiy")
        if rng.random() < 0.5:
            b.fix(top["id"], rng.choice(["Ux", "Uz"] + (["Uy"] if space else [])))
        b.loads(0.2, 0.5)
        b.shuffle()
        return b.st


def contrast(rng):
    """Parts with stiffnesses that have nothing to do with each other, all of them stable."""
    while True:
        st = random_structure(rng, size=rng.choice([1, 1, 2]), links=0, hinges=0, scaled=0, loads=(0.2, 0.5), kind=rng.choice(["frame", "truss2", "truss3", "mixed"]))
        if not any(e["kind"] == "frame2d" for e in st["elems"]) or rng.random() < 0.6:   # something apart from the rest
            f = Fr(10) ** rng.choice([-14, -13, -12, -11, -10, 10, 11, 12, 13, 14])
            m, c = rng.choice(st["mats"]), rng.choice(st["css"])
            st["mats"].append(dict(m, id="other", E=txt(Fr(m["E"]) * f)))
            st["nodes"] += [{"id": "N%d!" % i, "x": txt(Fr(200) + x), "y": "0", "z": txt(Fr(50) + z)} for i, (x, z) in enumerate([(Fr(0), Fr(0)), rng.choice(S.PYTH)])]
            e = {"id": "apart", "kind": rng.choice(["frame2d", "truss2d"]), "n0": "N0!", "n1": "N1!", "mat": "other", "cs": c["id"], "hinges": []}
            if rng.random() < 0.5:
                e["n0"], e["n1"] = e["n1"], e["n0"]
            st["elems"].insert(rng.randint(0, len(st["elems"])), e)
            st["dirichlet"] += [{"node": "N0!", "dof": d, "val": "0"} for d in S.KIND_DOFS[e["kind"]]] + ([{"node": "N1!", "dof": "Ux", "val": "0"}] if e["kind"] == "truss2d" else [])
            st["neumann"].append({"node": "N1!", "dof": "Uz", "val": txt(value(rng))})
        else:   # very slender
            for c in st["css"]:
                if c["kind"] == "constants":
                    c["par"]["Iyy"] = txt(Fr(c["par"]["Iyy"]) / Fr(10) ** rng.choice([10, 11, 12]))
        if S.rigid(st) and S.condition(st) < 1e7 and 1e10 < S.condition(st, False) < 2e15:
            return st


def fam_stability(rng, n):
    def one():
        st = some_structure(rng, size=rng.choice([1, 2, 2, 3, 3, 4, 5]), links=rng.choice([0, 0.2]), hinges=rng.choice([0, 0.3, 0.7]), loads=(0.2, 0.3))
        how = rng.choice(["remove", "remove", "remove", "hinge", "hinge", "none", "all", "keep", "loose", "angle", "swap", "perp", "lone", "lone", "line", "line", "contrast"])
        if rng.random() < 0.03:
            st = S.large_structure(rng, slanted=rng.choice([0, 0.3]))
            how = rng.choice(["remove", "remove", "hinge", "loose", "swap", "lone"])
        if how == "line":
            st = line_structure(rng)
        elif how == "contrast":
            st = contrast(rng)
        elif how == "remove":
            for _ in range(rng.choice([1, 1, 2])):
                if st["dirichlet"]:
                    st["dirichlet"].pop(rng.randrange(len(st["dirichlet"])))
                elif st["links"]:
                    st["links"].pop()
        elif how == "swap":
            if st["dirichlet"]:
                st["dirichlet"].pop(rng.randrange(len(st["dirichlet"])))
            taken = {(x["node"], x["dof"]) for x in st["dirichlet"]} | {(l["node"], l[z]) for l in st["links"] for z in ("from", "to")}
            rest = [x for x in all_dofs(st) if x not in taken]
            if rest:
                nd, d = rng.choice(rest)
                st["dirichlet"].append({"node": nd, "dof": d, "val": "0"})
        elif how == "hinge":
            for e in st["elems"]:
                if e["kind"] == "frame2d" and rng.random() < 0.7:
                    e["hinges"] = hinge_list(e, rng.choice([["t0", "t1"], ["t0"], ["t1"], ["t0", "w1"], ["w0", "t1"], ["w0"], ["u0"], ["u1", "t1"]]))
                elif rng.random() < 0.3:
                    e["hinges"] = hinge_list(e, rng.choice([["u0"], ["u1"]]))
        elif how == "perp":
            # a bar or hinged beam on an inclined support, perpendicular to the direction left free, or almost so
            a = rng.choice(st["nodes"])
            if st["elems"][0]["kind"] != "truss3d":
                p, q = rng.choice(S.PYTH[2:])
                h = S.isqrt_exact(p * p + q * q)
                c, s = Fr(p, h) * rng.choice([-1, 1]), Fr(q, h) * rng.choice([-1, 1])
                f = Fr(rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 3, 7])) * h
                st["nodes"].append({"id": "N!", "x": txt(Fr(a["x"]) + f * c), "y": a["y"], "z": txt(Fr(a["z"]) + f * s)})
                kind = rng.choice(["truss2d", "truss2d", "frame2d"])
                e = {"id": "new", "kind": kind, "n0": a["id"], "n1": "N!", "mat": st["mats"][0]["id"], "cs": st["css"][0]["id"], "hinges": []}
                if kind == "frame2d":
                    e["hinges"] = hinge_list(e, rng.choice([["t0", "t1"], ["t0", "t1"], ["t0"], ["t0", "w1"]]))
                    st["dirichlet"].append({"node": "N!", "dof": "Phiy", "val": "0"})
                if rng.random() < 0.3:   # much stiffer than the rest: its rounding errors must not hold anything
                    st["mats"].append(dict(st["mats"][0], id="stiff", E=txt(Fr(st["mats"][0]["E"]) * Fr(10) ** rng.choice([1, 2, 2, 3, 3, 4, 5, 6]))))
                    e["mat"] = "stiff"
                st["elems"].append(e)
                turn = rng.random()
                if turn < 0.7:   # free direction (-s, c)
                    c, s = -s, c
                elif turn < 0.85:
                    a2, b2 = rng.choice(S.PYTH)
                    h2 = S.isqrt_exact(a2 * a2 + b2 * b2)
                    c, s = Fr(a2, h2), Fr(b2, h2)
                frm, to = ("Ux", "Uz") if rng.random() < 0.5 else ("Uz", "Ux")
                if frm == "Uz":   # the free direction is from * c + to * s
                    c, s = s, c
                st["links"].append({"node": "N!", "from": frm, "to": to, "c": txt(c), "s": txt(s)})
                if rng.random() < 0.6:   # nothing else is free
                    have = {(x["node"], x["dof"]) for x in st["dirichlet"]} | {(l["node"], l[z]) for l in st["links"] for z in ("from", "to")}
                    st["dirichlet"] += [{"node": nd, "dof": d, "val": "0"} for nd, d in all_dofs(st) if (nd, d) not in have]
        elif how == "lone":
            # hinges, and only a few degrees of freedom left free
            for e in st["elems"]:
                if e["kind"] == "frame2d" and rng.random() < 0.8:
                    e["hinges"] = hinge_list(e, rng.choice([["t0", "t1"], ["t0", "w1"], ["w0", "t1"], ["t0", "w1", "u0"], ["w0"], ["t1"], ["u0", "t0", "t1"], ["u1"]]))
                elif e["kind"] != "frame2d" and rng.random() < 0.5:
                    e["hinges"] = hinge_list(e, rng.choice([["u0"], ["u1"]]))
            have = {(x["node"], x["dof"]) for x in st["dirichlet"]} | {(l["node"], l[z]) for l in st["links"] for z in ("from", "to")}
            rest = [x for x in all_dofs(st) if x not in have]
            rng.shuffle(rest)
            st["dirichlet"] += [{"node": nd, "dof": d, "val": "0"} for nd, d in rest[rng.choice([1, 1, 2]):]]
        elif how == "none":
            st["dirichlet"], st["links"] = [], []
        elif how == "all":
            st["links"] = []
            st["dirichlet"] = [{"node": nd, "dof": d, "val": "0"} for nd, d in all_dofs(st)]
            if rng.random() < 0.5:
                st["dirichlet"].pop(rng.randrange(len(st["dirichlet"])))
        elif how == "angle" and st["dirichlet"]:
            # an inclined support instead of a straight one
            d = rng.choice(st["dirichlet"])
            others = [x["dof"] for x in st["dirichlet"] if x["node"] == d["node"]]
            cand = [x for nd, x in all_dofs(st) if nd == d["node"] and x in ("Ux", "Uz", "Uy") and x not in others]
            if d["dof"] in ("Ux", "Uz", "Uy") and cand and not any(l["node"] == d["node"] for l in st["links"]):
                st["dirichlet"].remove(d)
                a, b = rng.choice(S.PYTH)
                h = S.isqrt_exact(a * a + b * b)
                st["links"].append({"node": d["node"], "from": cand[0], "to": d["dof"], "c": txt(Fr(a) / h), "s": txt(Fr(b) / h * rng.choice([-1, 1]))})
        elif how == "loose":
            a = rng.choice(st["nodes"])
            space = st["elems"][0]["kind"] == "truss3d"
            st["nodes"].append({"id": "N!", "x": txt(Fr(a["x"]) + rng.choice([-3, 3, 0])), "y": a["y"], "z": txt(Fr(a["z"]) + 4)})
            st["elems"].append({"id": "new", "kind": "truss3d" if space else rng.choice(["frame2d", "truss2d"]), "n0": a["id"], "n1": "N!",
                                "mat": st["mats"][0]["id"], "cs": st["css"][0]["id"], "hinges": []})
        return scen(solve_ops(S.straighten(st), elems=False), how=how)
    return many(n, one)


# ---------------------------------------------------------------- histories
def similar(rng, st):
    """One thing is different."""
    st = copy.deepcopy(st)
    how = rng.choice(["E", "node", "direction", "load", "force", "hinge", "support"])
    if how == "E":
        m = rng.choice(st["mats"])
        m["E"] = txt(Fr(m["E"]) * rng.choice([2, Fr(1, 2), Fr(11, 10)]))
    elif how == "node" and not st["loads"]:
        nd = rng.choice(st["nodes"])
        nd["x"] = txt(Fr(nd["x"]) + Fr(1, 4))
        if any(S.length_sq(st, e) == 0 for e in st["elems"]):
            nd["x"] = txt(Fr(nd["x"]) - Fr(1, 2))
    elif how == "load" and st["loads"]:
        l = rng.choice(st["loads"])
        l["load"] = dict(l["load"], v0=txt(value(rng)), id=l["load"]["id"] + "'")
    elif how == "force" and st["neumann"]:
        rng.choice(st["neumann"])["val"] = txt(value(rng))
    elif how == "hinge" and any(e["hinges"] for e in st["elems"]):
        rng.choice([e for e in st["elems"] if e["hinges"]])["hinges"] = []
    elif st["dirichlet"]:
        rng.choice(st["dirichlet"])["val"] = txt(value(rng) / 100)
    return dedupe(st)


def fam_reuse(rng, n):
    """Several problems, solvers, layouts, inclined supports, and results in turns."""
    def one():
        k = rng.choice([2, 2, 3])
        sts = []
        for i in range(k):
            st = some_structure(rng, size=rng.choice([1, 1, 2, 3]), links=rng.choice([0, 0.4, 0.8]), irrational=0.1)
            x = rng.random()
            if i and x < 0.25:   # the same structure again, differently written
                st = rng.choice([rename, reorder, reverse, translate])(rng, sts[0])
            elif i and x < 0.5:   # much, but not everything is the same
                st = rng.choice([mirror, mirror, similar])(rng, sts[0])
            if rng.random() < 0.15 and st["dirichlet"]:
                st["dirichlet"].pop(rng.randrange(len(st["dirichlet"])))
            for l in st["loads"]:
                l["load"] = dict(l["load"], id="%d%s" % (i, l["load"]["id"]))
            sts.append(S.straighten(copy.deepcopy(st)))
        share = {}
        for st in sts:   # inclined supports of different problems with the same data may be one object
            for l in st["links"]:
                key = (l["node"], l["from"], l["to"], l["c"], l["s"], l.get("turns"))
                if rng.random() < 0.7:
                    l["share"] = share.setdefault(key, "k%d" % len(share))
        for st in sts:
            names = [l.get("share") for l in st["links"] if l.get("share")]
            if len(names) != len(set(names)):
                for l in st["links"]:
                    l.pop("share", None)
        ops = []
        for i in range(k):
            ops += [{"op": "mk", "p": "P%d" % i, "st": sts[i]}, {"op": "layout", "p": "P%d" % i, "l": "L%d" % i}]
        made = []
        for step in range(rng.randint(4, 7)):
            i = rng.randrange(k)
            r = "R%d" % rng.randrange(4)
            op = {"op": "solve", "r": r, "p": "P%d" % i, "l": "L%d" % i, "s": rng.choice(["S", "S", "S", "T"])}
            x = rng.random()
            if x < 0.1:
                op["eq"] = rng.choice(["refusing", "gaussian"])
            if x > 0.93:
                op["l"] = "L%d" % rng.randrange(k)
            ops.append(op)
            made = [m for m in made if m[0] != r] + [(r, i)]
            for _ in range(rng.choice([1, 1, 2])):
                r, i = rng.choice(made)
                ids = [e["id"] for e in sts[i]["elems"]]
                ops.append(rng.choice([{"op": "all", "r": r}, {"op": "all", "r": r},
                                       {"op": "interpall", "r": r, "p": "P%d" % i, "elems": ids, "tol": rng.choice(["1e-12", "1e-3"])},
                                       {"op": "interp", "r": r, "p": "P%d" % i, "elem": rng.choice(ids), "fct": rng.choice(["Ux", "My", "Nx", "Uz"]), "tol": "1e-12"},
                                       {"op": "get", "r": r, "what": rng.choice(["primary", "reaction"]), "node": sts[i]["nodes"][0]["id"], "dof": "Ux"}]))
            if rng.random() < 0.15:
                i = rng.randrange(k)
                ops.append({"op": "setbc", "p": "P%d" % i, "dirichlet": sts[i]["dirichlet"],
                            "neumann": [dict(x, val=txt(-2 * Fr(x["val"]))) for x in sts[i]["neumann"]]})
        for r, i in made:
            ops += [{"op": "all", "r": r}, {"op": "interpall", "r": r, "p": "P%d" % i, "elems": [e["id"] for e in sts[i]["elems"]], "tol": "1e-12"}]
        ops += [{"op": "dump", "p": "P%d" % i, "kept": True} for i in range(k)]
        return scen(ops)
    return many(n, one)


def fam_large_reuse(rng, n):
    """Results of large structures, read again after others have been made."""
    def one():
        st = S.large_structure(rng)
        sts = [st, rng.choice([similar, mirror, lambda rng, st: S.large_structure(rng)])(rng, st)]
        ops = []
        for i, st in enumerate(sts):
            for l in st["loads"]:
                l["load"] = dict(l["load"], id="%d%s" % (i, l["load"]["id"]))
            ops += [{"op": "mk", "p": "P%d" % i, "st": copy.deepcopy(st)}, {"op": "layout", "p": "P%d" % i, "l": "L%d" % i}]
        read = lambda r, i: [{"op": "all", "r": r}, {"op": "interpall", "r": r, "p": "P%d" % i, "elems": [e["id"] for e in sts[i]["elems"]], "tol": "1e-12"}]
        for r, i in (("R0", 0), ("R1", 1), ("R2", 0)):
            ops += [{"op": "solve", "r": r, "p": "P%d" % i, "l": "L%d" % i, "s": "S"}] + read(r, i)
        ops += read("R0", 0) + read("R1", 1) + [{"op": "dump", "p": "P%d" % i, "kept": True} for i in (0, 1)]
        return scen(ops)
    return many(n, one)


def fam_loadhistory(rng, n):
    def one():
        st = some_structure(rng, size=rng.choice([1, 2, 2, 3]), hinges=rng.choice([0, 0.3]), irrational=0.1,
                              kind=rng.choice(["frame", "frame", "mixed", "truss2", "truss3"]), loads=(0.3, 0.2))
        ops = [{"op": "mk", "p": "P", "st": st}, {"op": "layout", "p": "P", "l": "L"}]
        loads = [l["load"] for l in st["loads"]]
        placed = [(l["elem"], l["load"]["id"]) for l in st["loads"]]
        nid = 0
        for step in range(rng.randint(3, 9) if rng.random() < 0.9 else rng.randint(15, 25)):
            e = rng.choice(st["elems"])
            x = rng.random()
            if x < 0.45:
                if loads and rng.random() < 0.4:   # again, or an equal one
                    l = rng.choice(loads)
                    if rng.random() < 0.5:
                        nid += 1
                        l = dict(l, id="h%d" % nid)
                else:
                    nid += 1
                    typ = rng.choice(["dirac", "dirac", "constant", "linear", "foreign", "dirac"])
                    if rng.random() < 0.03:
                        typ = "nil"
                    kinds = ["Ux", "Uz", "Phiy", "Ux", "Uz", "Phiy", "Uy", "Phiz", "Phix"]
                    l = {"id": "h%d" % nid, "type": typ, "kind": rng.choice(kinds), "v0": txt(value(rng, True))}
                    if typ == "dirac":
                        L2 = S.length_sq(st, e)
                        L = S.isqrt_exact(L2) or Fr(int(float(L2) ** 0.5 * 1000), 1000)
                        l["pos"] = txt(L * rng.choice([0, Fr(1, 2), Fr(1, 3), 1, Fr(9, 10), Fr(3, 2), Fr(101, 100), Fr(-1, 10)])) if rng.random() < 0.7 else edge_position(rng, st, e)
                    if typ == "linear":
                        l["v1"] = txt(value(rng))
                if l not in loads:
                    loads.append(l)
                ops.append({"op": "add", "p": "P", "elem": e["id"], "load": l})
                placed.append((e["id"], l["id"]))
            elif x < 0.75 and loads:
                eid, lid = rng.choice(placed) if placed and rng.random() < 0.8 else (e["id"], rng.choice(loads)["id"])
                ops.append({"op": "rm", "p": "P", "elem": eid, "lid": lid})
            else:
                ops += [{"op": "solve", "r": "R", "p": "P", "l": "L", "s": "S"}, {"op": "all", "r": "R"}]
        ops += [{"op": "solve", "r": "R", "p": "P", "l": "L", "s": "S"}, {"op": "all", "r": "R"},
                {"op": "interpall", "r": "R", "p": "P", "elems": [e["id"] for e in st["elems"]], "tol": "1e-12"}]
        return scen(ops)
    return many(n, one)


# ---------------------------------------------------------------- canonical form
def fam_forms(rng, n):
    def one():
        st = random_structure(rng, size=rng.choice([1, 1, 2]), kind=rng.choice(["frame", "frame", "truss2", "truss3"]), loads=(0.9, 0.2))
        if rng.random() < 0.15:
            stairs(rng, st)
        extra_loads(rng, st, rng.randint(0, 5))
        if rng.random() < 0.3:   # loads that cancel, vanish, or are tiny
            for i, l in enumerate(list(st["loads"])):
                x = l["load"]
                if rng.random() < 0.5:
                    neg = {k: txt(-Fr(x[k])) for k in ("v0", "v1") if k in x}
                    st["loads"].append({"elem": l["elem"], "load": dict(x, id="%sn%d" % (x["id"], i), **neg)})
                elif rng.random() < 0.5:
                    small = {k: txt(Fr(x[k]) / 10 ** 6) for k in ("v0", "v1") if k in x}
                    l["load"] = dict(x, id="%ss%d" % (x["id"], i), **small)
        if rng.random() < 0.3:   # positions next to each other
            for i, l in enumerate(list(st["loads"])):
                x = l["load"]
                if x["type"] == "dirac" and rng.random() < 0.5 and Fr(x["pos"]) > Fr(1, 10):
                    st["loads"].append({"elem": l["elem"], "load": dict(x, id="%st%d" % (x["id"], i), pos=txt(Fr(x["pos"]) - rng.choice([Fr(1, 1000), Fr(1, 100), Fr(1, 16)])))})
        ops = solve_ops(st, tol=rng.choice(["0", "1e-12"]))
        for tol in rng.sample(["0", "1e-15", "1e-9", "1e-6", "1e-3", "0.5", "10", "1e5"], 2):
            ops.append({"op": "interpall", "r": "R", "p": "P", "elems": [e["id"] for e in st["elems"]], "tol": tol})
        return scen(ops)
    return many(n, one)


def fam_tolerant(rng, n):
    """Internal forces whose coefficients are in the order of magnitude of the tolerance."""
    def one():
        x, z = rng.choice(S.PYTH)
        tol = Fr(rng.choice(["0.01", "0.5", "3", "0.0001"]))
        st = {"nodes": [{"id": "A", "x": "0", "y": "0", "z": "0"}, {"id": "B", "x": txt(Fr(x)), "y": "0", "z": txt(Fr(z))}],
              "mats": [{"id": "m", "E": "1000", "nu": "0.3", "rho": "1"}], "css": [{"id": "c", "kind": "constants", "par": {"A": "0.5", "Iyy": "0.25", "Izz": "1"}}],
              "elems": [{"id": "AB", "kind": "frame2d", "n0": "A", "n1": "B", "mat": "m", "cs": "c", "hinges": []}],
              "dirichlet": [{"node": "A", "dof": d, "val": "0"} for d in ("Ux", "Uz", "Phiy")], "neumann": [], "links": [], "loads": []}
        L = S.isqrt_exact(Fr(x) ** 2 + Fr(z) ** 2)
        small = [Fr(k, 10) * tol for k in (-9, -7, -4, -2, 0, 3, 6, 8, 9)]
        large = [Fr(k) * 5 * tol for k in (-3, -2, -1, 1, 2, 3)]
        kinds = {}
        for kind in ("Ux", rng.choice(["Uz", "Phiy"])):
            k = rng.choice([1, 2, 3, 4])
            vals = [rng.choice(small if rng.random() < 0.7 else large) for _ in range(k + 1)]
            if rng.random() < 0.25:
                vals = [v if v in small or i == 0 else vals[0] for i, v in enumerate(vals)]
            vals[-1] = rng.choice([Fr(0), Fr(0), vals[-1]]) if kind == "Ux" else Fr(0)
            at = sorted(rng.sample([L * Fr(i, 8) for i in range(1, 8)], k))
            for i, a in enumerate(at):   # what is to the left minus what is to the right of it
                jump = vals[i] - vals[i + 1]
                st["loads"].append({"elem": "AB", "load": {"id": "%s%d" % (kind, i), "type": "dirac", "kind": kind, "v0": txt(jump), "pos": txt(a)}})
            if kind == "Ux" and vals[-1]:
                st["loads"].append({"elem": "AB", "load": {"id": "end", "type": "dirac", "kind": "Ux", "v0": txt(vals[-1]), "pos": txt(L)}})
            kinds[kind] = vals
        rng.shuffle(st["loads"])
        ops = solve_ops(st, elems=False)
        for t in (tol, Fr(0), tol * 100):
            for f in ("Nx", "My" if "Phiy" in kinds else "Vz"):
                ops.append({"op": "interp", "r": "R", "p": "P", "elem": "AB", "fct": f, "tol": txt(t)})
        return scen(ops)
    return many(n, one)


# ---------------------------------------------------------------- concurrency
def fam_concurrent(rng, n):
    def one():
        k = rng.choice([1, 2])
        ops, sts = [], []
        for i in range(k):
            st = some_structure(rng, size=rng.choice([1, 2, 3]), links=rng.choice([0, 0.5, 0.8]), irrational=0.1)
            for l in st["loads"]:
                l["load"] = dict(l["load"], id="%d%s" % (i, l["load"]["id"]))
            sts.append(st)
            ops += [{"op": "mk", "p": "P%d" % i, "st": st}, {"op": "layout", "p": "P%d" % i, "l": "L%d" % i},
                    {"op": "solve", "r": "Z%d" % i, "p": "P%d" % i, "l": "L%d" % i, "s": "S"}]
        bad = copy.deepcopy(sts[0])
        bad["neumann"].append({"node": "Q7", "dof": "Ux", "val": "1"})
        for l in bad["loads"]:
            l["load"] = dict(l["load"], id="b" + l["load"]["id"])
        ops += [{"op": "mk", "p": "B", "st": bad}]
        workers = []
        for w in range(rng.choice([2, 3, 4])):
            out = []
            for step in range(rng.randint(2, 4)):
                i = rng.randrange(k)
                r = "W%dR%d" % (w, step)
                x = rng.random()
                ids = [e["id"] for e in sts[i]["elems"]]
                if x < 0.12:
                    out += [{"op": "solve", "r": r, "p": "B", "l": "L0", "s": "S%d" % w}]
                    continue
                if x < 0.2:
                    out += [{"op": "get", "r": "Z%d" % i, "what": "primary", "node": rng.choice(["Q7", sts[i]["nodes"][0]["id"]]), "dof": "Ux"}] if False else []
                if x < 0.4:
                    own = copy.deepcopy(sts[i])
                    for l in own["loads"]:
                        l["load"] = dict(l["load"], id="w%d_%d_%s" % (w, step, l["load"]["id"]))
                    p, lay = "W%dP%d" % (w, step), "W%dL%d" % (w, step)
                    doc = documents.document(rng, own) if rng.random() < 0.6 else None
                    out += [{"op": "parse", "p": p, "doc": doc} if doc else {"op": "mk", "p": p, "st": own},
                            {"op": "layout", "p": p, "l": lay}, {"op": "solve", "r": r, "p": p, "l": lay, "s": "S%d" % w}]
                else:
                    lay = "L%d" % i
                    p = "P%d" % i
                    if rng.random() < 0.3:
                        lay = "W%dL%d" % (w, step)
                        out.append({"op": "layout", "p": p, "l": lay})
                    out.append({"op": "solve", "r": r, "p": p, "l": lay, "s": "S%d" % w, **({"eq": rng.choice(["gaussian", "refusing"])} if rng.random() < 0.1 else {})})
                out.append({"op": "all", "r": r})
                if rng.random() < 0.3:
                    out.append({"op": "get", "r": r, "what": rng.choice(["primary", "reaction"]), "node": rng.choice(["Q7", sts[i]["nodes"][0]["id"]]), "dof": rng.choice(["Ux", "Phix"])})
                out.append({"op": "interpall", "r": r, "p": p, "elems": ids, "tol": "1e-12"})
            workers.append(out)
        ops.append({"op": "par", "workers": workers})
        for i in range(k):
            ops += [{"op": "all", "r": "Z%d" % i}, {"op": "solve", "r": "Y", "p": "P%d" % i, "l": "L%d" % i, "s": "S"}, {"op": "all", "r": "Y"},
                    {"op": "interpall", "r": "Z%d" % i, "p": "P%d" % i, "elems": [e["id"] for e in sts[i]["elems"]], "tol": "1e-12"}]
        return scen(ops)
    return many(n, one)


# ---------------------------------------------------------------- documents
def parse_ops(doc, st=None, p="P", tail="", solve=True):
    ops = [{"op": "parse", "p": p, "doc": doc}, {"op": "dump", "p": p}]
    if solve:
        ops += [{"op": "layout", "p": p, "l": "L" + tail}, {"op": "solve", "r": "R" + tail, "p": p, "l": "L" + tail, "s": "S" + tail}, {"op": "all", "r": "R" + tail}]
        if st is not None:
            ops.append({"op": "interpall", "r": "R" + tail, "p": p, "elems": [e["id"] for e in st["elems"]], "tol": "1e-12"})
    return ops


def fam_documents(rng, n):
    def one():
        st = some_structure(rng, size=rng.choice([1, 1, 2, 2, 3]), links=rng.choice([0, 0.2, 0.5]), hinges=rng.choice([0, 0.4, 0.9]), irrational=0.1)
        doc = documents.document(rng, st)
        ops = parse_ops(doc, st)
        if rng.random() < 0.2:
            ops += parse_ops(documents.shuffled(rng, doc), st, p="Q", tail="2")
        elif rng.random() < 0.2:   # the same text again, after what came of it has been changed
            for i in range(rng.choice([1, 2])):
                e = rng.choice(st["elems"])
                kind = rng.choice(["Uz", "Uz", "Ux"]) if e["kind"] == "frame2d" else "Ux"
                ops.append({"op": "add", "p": "P", "elem": e["id"], "load": {"id": "again%d" % i, "type": "constant", "kind": kind, "v0": txt(value(rng))}})
            ops += parse_ops(doc, st, p="Q", tail="2")
            ops += [{"op": "solve", "r": "R3", "p": "P", "l": "L", "s": "S"}, {"op": "all", "r": "R3"}]
        if rng.random() < 0.15:
            ops += [{"op": "mk", "p": "M", "st": st}, {"op": "dump", "p": "M"}]
        return scen(ops)
    return many(n, one)


def fam_corrupted(rng, n):
    def one():
        st = random_structure(rng, size=rng.choice([1, 1, 2]), links=rng.choice([0, 0.4]), hinges=rng.choice([0, 0.4]), irrational=0.1, loads=(0.7, 0.5))
        edge = rng.random() < 0.3
        if edge:   # loads at the edge of their element
            for i, l in enumerate(st["loads"]):
                if l["load"]["type"] == "dirac" and rng.random() < 0.6:
                    e = next(e for e in st["elems"] if e["id"] == l["elem"])
                    l["load"] = dict(l["load"], id="e%d" % i, pos=edge_position(rng, st, e))
        doc = documents.document(rng, st)
        ops = []
        for k in range(8):
            bad = doc
            for _ in range(0 if edge and k == 0 else rng.choice([1, 1, 1, 2])):
                x = rng.random()
                bad = documents.corrupt(rng, bad) if x < 0.6 else documents.bad_sibling(rng, bad) if x < 0.85 else documents.respelt(rng, bad)
            ops += parse_ops(bad, None, p="P%d" % k, tail=str(k))
        if rng.random() < 0.5:
            ops.append({"op": "parse", "p": "X", "text": documents.garbage(rng, doc)})
            ops += [{"op": "layout", "p": "X", "l": "LX"}, {"op": "solve", "r": "RX", "p": "X", "l": "LX", "s": "S"}]
        return scen(ops)
    return many(n, one)


# ---------------------------------------------------------------- sections
# full, half, quarter turns and others in radians and degrees, in both directions
ANGLES = [f + a for a in ["1.5707963267948966", "3.141592653589793", "4.71238898038469", "6.283185307179586", "12.566370614359172", "0.7853981633974483", "1.57", "1.571", "3.14", "6.28",
                          "7", "30", "45", "90", "180", "270", "359", "360", "361", "1000", "1e9", "1e-9", "0.01"] for f in ("", "-")]


def fam_sections(rng, n):
    def num():
        x = rng.random()
        if x < 0.55:
            return txt(Fr(rng.randint(1, 400), rng.choice([1, 2, 10, 100, 1000])))
        if x < 0.65:
            return "%de%d" % (rng.randint(1, 9), rng.randint(-12, 12))
        return rng.choice(["0", "0", "-1", "-0.001", "1", "1", "2", "-0", "1e-30", "-1e-30", "0.1"])

    def one():
        ops = []
        for _ in range(25):
            if rng.random() < 0.5:
                par = {"b": num(), "h": num()}
                if rng.random() < 0.4:
                    par["roll"] = num() if rng.random() < 0.5 else rng.choice(ANGLES)
                ops.append({"op": "cs", "kind": "rectangle", "par": par})
                if rng.random() < 0.5:   # exchanged and scaled
                    ops.append({"op": "cs", "kind": "rectangle", "par": dict(par, b=par["h"], h=par["b"])})
            else:
                par = {k: num() for k in ("A", "Iyy", "Izz")}
                for k in ("Ixx", "roll"):
                    if rng.random() < 0.5:
                        par[k] = rng.choice(ANGLES) if k == "roll" and rng.random() < 0.5 else num()
                if rng.random() < 0.2:
                    par.pop(rng.choice(list(par)))
                ops.append({"op": "cs", "kind": "constants", "par": par})
        return scen(ops)
    return many(n, one)


PROPS = {
    "C01": {"clauses": {"disp", "solveok"}, "random": [("random", fam_random, 260), ("loaded", fam_loaded, 80), ("truss3", fam_truss3, 60), ("aligned", fam_aligned, 30), ("large", fam_large, 10), ("prescribed", fam_prescribed, 30), ("rails", fam_rails, 4)]},
    "C02": {"clauses": VALUES, "random": [("prescribed", fam_prescribed, 420), ("large", fam_large, 4), ("rails", fam_rails, 4)]},
    "C03": {"clauses": {"reac", "free", "solveok"}, "random": [("random", fam_random, 200), ("loaded", fam_loaded, 80), ("links", fam_links, 80), ("aligned", fam_aligned, 20), ("prescribed", fam_prescribed, 50), ("large", fam_large, 6), ("rails", fam_rails, 8)]},
    "C04": {"clauses": {"ipid", "fnN", "fnV", "fnM", "absent", "ipok", "solveok"}, "random": [("loaded", fam_loaded, 200), ("random", fam_random, 150), ("aligned", fam_aligned, 20), ("hinges", fam_hinges, 60), ("large", fam_large, 6)]},
    "C05": {"clauses": {"ipid", "fnU", "ipok", "solveok"}, "random": [("loaded", fam_loaded, 160), ("random", fam_random, 140), ("hinges", fam_hinges, 80), ("aligned", fam_aligned, 20), ("prescribed", fam_prescribed, 40), ("large", fam_large, 6)]},
    "C06": {"clauses": VALUES | {"ctor"}, "random": [("hinges", fam_hinges, 300), ("refusal", fam_hinge_refusal, 12)]},
    "C07": {"clauses": VALUES, "random": [("links", fam_links, 400), ("large", fam_large_links, 12)]},
    "C08": {"clauses": VALUES | {"add", "loadctor"}, "random": [("loadhistory", fam_loadhistory, 300)]},
    "C09": {"clauses": VALUES, "random": [("linear", fam_linear, 240)]},
    "C10": {"clauses": VALUES | {"ipid", "allsame", "allcover"}, "random": [("transform", fam_transform, 220)]},
    "C11": {"clauses": {"dim", "order", "cover", "agree", "layout", "layoutmsg", "getok", "geterr", "solveok"}, "random": [("numbering", fam_numbering, 400)]},
    "C12": {"clauses": {"ipid", "getok", "geterr", "iperr", "ipok", "solveerr", "solveok", "unstable", "layout"} | VALUES, "random": [("dangling", fam_dangling, 150)]},
    "C13": {"clauses": {"solveok", "solveerr", "unstable"}, "random": [("stability", fam_stability, 700)]},
    "C14": {"clauses": HIST, "random": [("reuse", fam_reuse, 160), ("large", fam_large_reuse, 8)]},
    "C15": {"clauses": VALUES | DUMP | {"parseok", "badsolved"}, "random": [("documents", fam_documents, 300)]},
    "C16": {"clauses": {"parsebad"} | DUMP | {"parseok", "badsolved", "solveerr", "layout"}, "random": [("corrupted", fam_corrupted, 160)]},
    "C17": {"clauses": {"ipform", "ipsplit", "ipid", "ipok", "absent", "allsame", "allcover", "solveok"}, "random": [("forms", fam_forms, 200), ("tolerant", fam_tolerant, 160), ("random", fam_random, 60), ("large", fam_large, 6)]},
    "C18": {"clauses": {"evalok", "evalerr", "evalval", "degree", "evalpure", "trim", "compact", "interval", "intervalpure"}, "random": [("polys", polys.fam_polys, 300)]},
    "C19": {"clauses": {"csok", "csval"}, "random": [("sections", fam_sections, 200)]},
    "C20": {"clauses": HIST | {"race", "parseok"}, "race": True, "random": [("concurrent", fam_concurrent, 60)]},
    "C21": {"clauses": {"exprefused", "expprimary", "expreaction", "expinterp", "expfailure"}, "random": [("expectations", expectations.fam_expectations, 200)]},
}
for _p in PROPS.values():
    _p["clauses"] |= BASE


WRITTEN = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C10", "C17"}


def written(rng, prop, s):
    """Some scenarios give the structure as a document, rather those with many links."""
    links = max([len(op["st"]["links"]) for op in s["ops"] if op["op"] == "mk"] + [0])
    if prop not in WRITTEN or rng.random() > (0.6 if links > 2 else 0.15):
        return s
    ops = []
    for op in s["ops"]:
        if op["op"] == "mk":
            st = op["st"]
            rest = json.dumps({k: v for k, v in st.items() if k != "links"})
            if re.search(r'"-?\d+/\d+"', rest) or any(l.get("share") for l in st["links"]) or not st["dirichlet"] + st["links"]:
                return s
            op = {"op": "parse", "p": op["p"], "doc": documents.document(rng, st)}
        elif op["op"] in ("add", "remove", "newelem", "par", "setbc"):
            return s
        ops.append(op)
    return dict(s, ops=ops)


def settled(prop, s):
    """No structure whose solution, or whether there is one, depends on rounding errors."""
    for op in s["ops"]:
        if op["op"] in ("mk", "par"):
            for st in [op["st"]] if op["op"] == "mk" else [o["st"] for w in op["workers"] for o in w if o["op"] == "mk"]:
                try:
                    if S.condition(st) > (1e11 if prop == "C13" else 1e7) and S.rigid(st):
                        return False
                except (KeyError, ValueError, StopIteration):   # dangling references
                    pass
    return True


def randoms(prop, tier):
    return prop["random"]


# models: name -> (module, environment in quick and thorough checks)
def beam(pick, loadpick, tpick, tload, **kw):
    return "MC_Beam", dict(kw, PICK=pick, LOADPICK=loadpick), dict(kw, PICK=tpick, LOADPICK=tload)


def frame(n, tn, **kw):
    return "MC_Frame", dict(kw, VARIANTS=n), dict(kw, VARIANTS=tn)


def api(menu, quick, thorough):
    """(depth, one in so many continuations)"""
    return "MC_Api", dict(MENU=menu, DEPTH=quick[0], PICK=quick[1]), dict(MENU=menu, DEPTH=thorough[0], PICK=thorough[1])


def par(workers, n, tn):
    return "MC_Par", dict(MENU="reuse", WORKERS=workers, PICK=n), dict(MENU="reuse", WORKERS=workers, PICK=tn)


MODELS = {
    "C01": {"beams": beam(40, 12, 4, 6), "frames": frame(6, 80)},
    "C02": {"beams": beam(40, 12, 4, 6), "frames": frame(6, 80)},
    "C03": {"beams": beam(40, 12, 4, 6), "frames": frame(6, 80)},
    "C04": {"beams": beam(20, 20, 3, 5), "frames": frame(4, 80, HINGES=2)},
    "C05": {"beams": beam(20, 20, 3, 5), "frames": frame(4, 80, HINGES=2)},
    "C06": {"beams": beam(8, 30, 1, 12), "frames": frame(4, 80, HINGES=2)},
    "C07": {"frames": frame(12, 120, LINKS=2)},
    "C08": {"api-loads": api("loads", (4, 8), (5, 9))},
    "C09": {"cases": ("MC_Linear", {"VARIANTS": 25}, {"VARIANTS": 150})},
    "C12": {"api-dangling": api("dangling", (4, 15), (5, 15))},
    "C14": {"api-reuse": api("reuse", (5, 11), (6, 11))},
    "C15": {"written": frame(5, 60, DOCS=1)},
    "C16": {"changed": ("MC_Json", {"PICK": 25}, {"PICK": 1}), "changed-twice": ("MC_Json", {"PICK": 500, "PICK2": 6}, {"PICK": 100, "PICK2": 5}),
            "changed-copy": ("MC_Json", {"PICK": 1, "SIBLINGS": 100}, {"PICK": 1, "SIBLINGS": 5})},
    "C10": {"transformed": ("MC_Transform", {"VARIANTS": 3, "PICK": 10}, {"VARIANTS": 30, "PICK": 6})},
    "C11": {"layouts": ("MC_Numbering", {"PICK": 120, "FLAWPICK": 3}, {"PICK": 4, "FLAWPICK": 3})},
    "C13": {"beams": beam(20, 1, 1, 1, UNSTABLE=1)},
    "C17": {"beams": beam(40, 12, 4, 6), "frames": frame(3, 40)},
    "C18": {"joined": ("MC_Poly", {"PICK": 12}, {"PICK": 2})},
    "C19": {"sections": ("MC_Sections", {"PICK": 20}, {"PICK": 1})},
    "C20": {"pairs": par(2, 3, 1), "threes": par(3, 10, 2), "fours": par(4, 60, 30)},
    "C21": {"deviating": ("MC_Expect", {"PICK": 14, "EDITPICK": 3}, {"PICK": 1})},
}


def models(prop, tier, seed):
    out = []
    for name, (module, quick, thorough) in MODELS.get(prop, {}).items():
        env = {k: str(v) for k, v in (thorough if tier == "thorough" else quick).items()}
        extra = env.pop("EXTRA", "").split()
        out.append((name, (module, dict({"SEED": str(seed)}, **env), extra)))
    return out


def complete(prop, emitted):
    """Scenario of what a model emitted: either a structure to solve or the calls themselves."""
    for x in emitted:
        if "ops" in x:
            yield scen(x["ops"])
        else:
            yield scen(solve_ops(x["st"], elems=prop != "C13"))
