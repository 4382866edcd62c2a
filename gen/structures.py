"""Random structures, as plain data in the format of spec/Mechanics.tla (all numbers are texts).

Nothing in here knows what a solution looks like; the only judgement is a rank computation that
makes most structures stable, so that solves are not wasted.
"""
from fractions import Fraction as Fr
import math

DOFS = ["Ux", "Uz", "Uy", "Phiy", "Phiz", "Phix"]
KIND_DOFS = {"truss2d": ["Ux", "Uz"], "truss3d": ["Ux", "Uz", "Uy"], "frame2d": ["Ux", "Uz", "Phiy"]}
BEND_OK = [set(), {"w0"}, {"t0"}, {"w1"}, {"t1"}, {"t0", "w1"}, {"t0", "t1"}, {"w0", "t1"}]

PYTH = [(1, 0), (0, 1), (3, 4), (4, 3), (5, 12), (12, 5), (8, 15), (15, 8), (7, 24), (20, 21)]
PYTH3 = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 2, 2), (2, 1, 2), (2, 2, 1), (2, 3, 6), (3, 6, 2), (6, 2, 3), (1, 4, 8), (4, 4, 7),
         (3, 4, 0), (0, 3, 4), (4, 0, 3)]


def txt(x):
    x = Fr(x)
    if x.denominator == 1:
        return str(x.numerator)
    d = x.denominator
    while d % 2 == 0:
        d //= 2
    while d % 5 == 0:
        d //= 5
    if d == 1 and x.denominator < 10 ** 12:
        s = "%.20f" % 0 if x == 0 else None
        k = 0
        y = x
        while y.denominator != 1:
            y *= 10
            k += 1
        sign = "-" if y < 0 else ""
        digits = str(abs(y.numerator)).rjust(k + 1, "0")
        return sign + digits[:-k] + "." + digits[-k:]
    return "%d/%d" % (x.numerator, x.denominator)


def isqrt_exact(x):
    x = Fr(x)
    a, b = math.isqrt(x.numerator), math.isqrt(x.denominator)
    return Fr(a, b) if a * a == x.numerator and b * b == x.denominator else None


class Names:
    """Node and element names in all kinds of orders."""

    def __init__(self, rng):
        self.rng = rng
        self.style = rng.choice(["letters", "letters", "numbers", "words", "mixed", "letters", "numbers", "words", "mixed", "long"])
        self.used = set()

    def node(self, i):
        r = self.rng
        while True:
            if self.style == "letters":
                n = chr(ord("A") + r.randrange(26))
            elif self.style == "numbers":
                n = str(r.choice([r.randrange(1, 12), r.randrange(1, 120)]))
            elif self.style == "words":
                n = r.choice(["left", "right", "top", "mid", "base", "n", "N", "node", "Z", "a"]) + r.choice(["", "1", "2", "10", "_", "-b"])
            elif self.style == "long":
                n = r.choice(["the joint at the upper end of tower no. ", "the joint at the upper end of tower no. 1", "x" * 33, "Träger/Stütze "]) + r.choice(["", str(r.randrange(1, 30)), "2a"])
            else:
                n = r.choice(["A", "B", "a", "b", "1", "2", "10", "A1", "A10", "A2", "_", "Ux", "z z", "é", "AA", "0", "C'", "b.1", "-1", "!", " ", "#2", 'q"', "\\"])
            if n not in self.used:
                self.used.add(n)
                return n
            if len(self.used) > 8 and self.style in ("mixed", "words"):
                self.style = "numbers"


def value(rng, zero=False):
    v = rng.choice([Fr(rng.randint(1, 20)), Fr(rng.randint(1, 40), 2), Fr(rng.randint(1, 99), 10), Fr(rng.randint(1, 9), 8), Fr(rng.randint(100, 5000))])
    if zero and rng.random() < 0.08:
        return Fr(0)
    return v if rng.random() < 0.5 else -v


def almost(rng):
    """A direction that is nearly parallel to an axis, with a rational length."""
    k = rng.choice([50, 100, 200, 500, 1000, 2000, 4000])
    f = Fr(rng.choice([1, 2, 3, 5]), k * k)
    d = [f * (k * k - 1) * rng.choice([-1, 1]), f * 2 * k * rng.choice([-1, 1])]
    return tuple(d if rng.random() < 0.5 else d[::-1])


def length_sq(st, e):
    a = next(n for n in st["nodes"] if n["id"] == e["n0"])
    b = next(n for n in st["nodes"] if n["id"] == e["n1"])
    return sum((Fr(b[k]) - Fr(a[k])) ** 2 for k in "xyz")


def released(e):
    out = set()
    for h in e["hinges"]:
        end = "0" if h["node"] == e["n0"] else "1" if h["node"] == e["n1"] else None
        c = "u" if h["dof"] == "Ux" else ("w" if h["dof"] == "Uz" else "t" if h["dof"] == "Phiy" else None) if e["kind"] == "frame2d" else None
        if end and c:
            out.add(c + end)
    return out


def hinges_ok(rel):
    return not {"u0", "u1"} <= rel and (rel - {"u0", "u1"}) in BEND_OK


def rank(rows, n):
    rows = [r for r in rows if any(r.values())]
    rk = 0
    for k in range(n):
        p = next((r for r in rows if r.get(k)), None)
        if p is None:
            continue
        rows.remove(p)
        rk += 1
        new = []
        for r in rows:
            if r.get(k):
                f = r[k] / p[k]
                q = dict(r)
                for c, v in p.items():
                    q[c] = q.get(c, 0) - f * v
                    if q[c] == 0:
                        del q[c]
                new.append(q)
            else:
                new.append(r)
        rows = new
    return rk


def snapped(link):
    """An inclined support close to a multiple of 90 degrees, turned into that direction."""
    c, s = Fr(link["c"]), Fr(link["s"])
    if not 0 < min(abs(c), abs(s)) < Fr(11, 100):
        return link
    sign = lambda v: v // abs(v)
    return dict(link, c=txt(sign(c) if abs(c) > abs(s) else 0), s=txt(sign(s) if abs(s) > abs(c) else 0))


def straighten(st):
    """No slight deviation of an inclined support is the only thing that prevents a mechanism: such a structure is stable, but
    has no accurate solution in floating-point numbers."""
    links = [snapped(l) for l in st["links"]]
    if links != st["links"] and not rigid(dict(st, links=links)):
        st["links"] = links
    return st


def stable(st):
    """Is there no mechanism, not even nearly?  (Generation aid only.)"""
    if not rigid(st):
        return False
    links = [snapped(l) for l in st["links"]]
    return (links == st["links"] or rigid(dict(st, links=links))) and condition(st) < 1e7


def rigid(st):
    idx = {}
    for e in st["elems"]:
        for nd in (e["n0"], e["n1"]):
            for d in KIND_DOFS[e["kind"]]:
                idx.setdefault((nd, d), len(idx))
        for r in released(e):
            idx.setdefault((e["id"], "~" + r), len(idx))
    rows = []
    node = {n["id"]: n for n in st["nodes"]}
    for e in st["elems"]:
        a, b = node[e["n0"]], node[e["n1"]]
        dx, dy, dz = (Fr(b[k]) - Fr(a[k]) for k in "xyz")
        rel = released(e)

        def form(name):
            if name in rel:
                return {idx[(e["id"], "~" + name)]: Fr(1)}
            nd = e["n0"] if name.endswith("0") else e["n1"]
            if name[0] == "u":
                out = {idx[(nd, "Ux")]: dx, idx[(nd, "Uz")]: dz}
                if e["kind"] == "truss3d":
                    out[idx[(nd, "Uy")]] = dy
                return out
            if name[0] == "w":
                return {idx[(nd, "Ux")]: dz, idx[(nd, "Uz")]: -dx}
            return {idx[(nd, "Phiy")]: Fr(1)}

        def comb(*terms):
            out = {}
            for f, t in terms:
                for k, v in t.items():
                    out[k] = out.get(k, 0) + f * v
            return {k: v for k, v in out.items() if v}

        L2 = dx * dx + dy * dy + dz * dz
        rows.append(comb((1, form("u1")), (-1, form("u0"))))
        if e["kind"] == "frame2d":
            rows.append(comb((1, form("w1")), (-1, form("w0")), (-L2, form("t0"))))
            rows.append(comb((1, form("t1")), (-1, form("t0"))))
    for d in st["dirichlet"]:
        if (d["node"], d["dof"]) not in idx:
            return False
        rows.append({idx[(d["node"], d["dof"])]: Fr(1)})
    vecs = []
    if any((l["node"], l[k]) not in idx for l in st["links"] for k in ("from", "to")):
        return False
    for l in st["links"]:
        v = {idx[(l["node"], l["to"])]: Fr(1)}
        for m in reversed(st["links"]):
            i, j = idx[(m["node"], m["from"])], idx[(m["node"], m["to"])]
            c, s = Fr(m["c"]), Fr(m["s"])
            vi, vj = v.get(i, Fr(0)), v.get(j, Fr(0))
            if vi or vj:
                v[i], v[j] = c * vi - s * vj, s * vi + c * vj
        rows.append({k: x for k, x in v.items() if x})
    n = len(idx)
    if len(st["dirichlet"]) + len(st["links"]) in (0,) or len(st["dirichlet"]) + len(st["links"]) >= n - sum(1 for k in idx if str(k[1]).startswith("~")):
        return False
    return rank(rows, n) == n


def condition(st, scaled=True):
    """Condition number of the stiffness, scaled to a unit diagonal or as it is, in floating point.  (Generation aid only.)"""
    idx = {}
    node = {n["id"]: n for n in st["nodes"]}
    mat = {m["id"]: float(Fr(m["E"])) for m in st["mats"]}
    cs = {}
    for c in st["css"]:
        par = {k: float(Fr(v)) for k, v in c["par"].items()}
        cs[c["id"]] = (par["b"] * par["h"], par["b"] * par["h"] ** 3 / 12) if c["kind"] == "rectangle" else (par["A"], par["Iyy"])
    parts = []   # factor, linear form: energy is the sum of factor * form ** 2
    for e in st["elems"]:
        a, b = node[e["n0"]], node[e["n1"]]
        d = [float(Fr(b[k]) - Fr(a[k])) for k in "xyz"]
        L = math.sqrt(sum(x * x for x in d))
        cx, cy, cz = (x / L for x in d)
        E, (A, I) = mat[e["mat"]], cs[e["cs"]]
        rel = released(e)

        def form(name):
            if name in rel:
                return {idx.setdefault((e["id"], name), len(idx)): 1.0}
            nd = e["n0"] if name[1] == "0" else e["n1"]
            at = lambda dof: idx.setdefault((nd, dof), len(idx))
            if name[0] == "u":
                return {at("Ux"): cx, at("Uz"): cz, at("Uy"): cy} if e["kind"] == "truss3d" else {at("Ux"): cx, at("Uz"): cz}
            return {at("Ux"): cz, at("Uz"): -cx} if name[0] == "w" else {at("Phiy"): 1.0}

        def comb(*terms):
            out = {}
            for f, t in terms:
                for k, v in form(t).items():
                    out[k] = out.get(k, 0) + f * v
            return out
        if e["kind"] == "frame2d" or not e["hinges"]:
            parts.append((E * A / L, comb((1, "u1"), (-1, "u0"))))
        if e["kind"] == "frame2d":   # curvature, constant and antisymmetric
            parts.append((E * I / L, comb((1, "t1"), (-1, "t0"))))
            parts.append((12 * E * I / L ** 3, comb((1, "w1"), (-1, "w0"), (-L / 2, "t0"), (-L / 2, "t1"))))
    for e in st["elems"]:
        for nd in (e["n0"], e["n1"]):
            for dof in KIND_DOFS[e["kind"]]:
                idx.setdefault((nd, dof), len(idx))
    n = len(idx)
    K = [[0.0] * n for _ in range(n)]
    for f, t in parts:
        for i, x in t.items():
            for j, y in t.items():
                K[i][j] += f * x * y
    drop = {idx.get((d["node"], d["dof"])) for d in st["dirichlet"]}
    for l in st["links"]:
        i, j, c, s = idx.get((l["node"], l["from"])), idx.get((l["node"], l["to"])), float(Fr(l["c"])), float(Fr(l["s"]))
        if i is None or j is None:
            continue
        for row in K:
            row[i], row[j] = c * row[i] + s * row[j], -s * row[i] + c * row[j]
        K[i], K[j] = [c * x + s * y for x, y in zip(K[i], K[j])], [-s * x + c * y for x, y in zip(K[i], K[j])]
        drop.add(j)
    keep = [i for i in range(n) if i not in drop]
    if any(K[i][i] <= 0 for i in keep):
        return math.inf
    A = [[K[i][j] / (math.sqrt(K[i][i] * K[j][j]) if scaled else 1) for j in keep] for i in keep]
    m = len(keep)
    norm = lambda M: max([sum(abs(x) for x in row) for row in M] + [0])   # symmetric
    B = [row[:] + [float(i == j) for j in range(m)] for i, row in enumerate(A)]
    for i in range(m):
        p = max(range(i, m), key=lambda k: abs(B[k][i]))
        if abs(B[p][i]) < 1e-300:
            return math.inf
        B[i], B[p] = B[p], B[i]
        f = 1 / B[i][i]
        pivot = B[i] = [x * f for x in B[i]]
        for k in range(m):
            if k != i and B[k][i]:
                g = B[k][i]
                B[k] = [x - g * y for x, y in zip(B[k], pivot)]
    return norm(A) * norm([row[m:] for row in B])


def slight(r):
    """Cosine and sine of an angle close to a multiple of 90 degrees."""
    k = r.choice([20, 60, 150, 400, 1000, 4000])
    c, s = Fr(k * k - 1, k * k + 1) * r.choice([-1, 1]), Fr(2 * k, k * k + 1) * r.choice([-1, 1])
    return (c, s) if r.random() < 0.7 else (s, c)


class Builder:
    def __init__(self, rng, irrational=0.2, big=0.1):
        self.rng = rng
        self.irr = irrational
        self.names = Names(rng)
        self.st = {"nodes": [], "mats": [], "css": [], "elems": [], "dirichlet": [], "neumann": [], "links": [], "loads": []}
        self.nload = 0
        self.big = big
        self.materials()

    def materials(self):
        r = self.rng
        # materials of one structure differ by less than a factor of 10000, so that the system stays well conditioned
        regime = r.choice([[Fr(210000000000), Fr(30000000000), Fr(7, 10) * 10 ** 11]] if r.random() < self.big
                          else [[Fr(1000), Fr(200), Fr(30), Fr(21000)], [Fr(7, 2), Fr(1), Fr(200)], [Fr(1), Fr(1000)]])
        self.mat_name, self.cs_name = r.choice([("m%d", "c%d")] * 4 + [("x%d", "x%d"), ("%d", "%d"), ("steel no. %d", "IPE %d00"), ("A" * 30 + "%d", "a%d"), ("c%d", "m%d")])
        for i in range(r.choice([1, 1, 1, 2, 2, 3, 4])):
            E = r.choice(regime)
            self.st["mats"].append({"id": self.mat_name % i, "E": txt(E), "nu": "0.3", "rho": txt(r.choice([0, 1, 7850]))})
        self.steel = any(Fr(m["E"]) > 10 ** 6 for m in self.st["mats"])
        for i in range(r.choice([1, 1, 1, 2, 2, 3, 4])):
            self.cs(i)

    def cs(self, i):
        r = self.rng
        s = Fr(1, 100) if self.steel else Fr(1)
        if r.random() < 0.3:
            par = {"b": txt(r.choice([Fr(1), Fr(1, 2), Fr(2), Fr(3, 10)]) * (Fr(1, 10) if self.steel else 1)),
                   "h": txt(r.choice([Fr(1), Fr(3, 2), Fr(2), Fr(1, 2)]) * (Fr(1, 10) if self.steel else 1))}
            if r.random() < 0.2:
                par["roll"] = r.choice(["0.5", "1", "1.5707963267948966", "3.141592653589793", "90"])
            self.st["css"].append({"id": self.cs_name % i, "kind": "rectangle", "par": par})
        else:
            par = {"A": txt(r.choice([Fr(1), Fr(2), Fr(1, 2), Fr(5), Fr(3, 10)]) * s), "Iyy": txt(r.choice([Fr(1), Fr(2), Fr(1, 2), Fr(1, 10), Fr(3)]) * s * s),
                   "Izz": txt(r.choice([Fr(1), Fr(4), Fr(7, 10)]) * s * s)}
            if r.random() < 0.2:
                par["Ixx"] = r.choice(["0", "2", "1.5707963267948966", "180"])
            if r.random() < 0.1:
                par["roll"] = r.choice(["0", "2", "1.5707963267948966", "180"])
            self.st["css"].append({"id": self.cs_name % i, "kind": "constants", "par": par})

    # -- geometry
    def node(self, x, y, z):
        n = {"id": self.names.node(len(self.st["nodes"])), "x": txt(x), "y": txt(y), "z": txt(z)}
        self.st["nodes"].append(n)
        return n

    def at(self, x, y, z):
        return next((n for n in self.st["nodes"] if (Fr(n["x"]), Fr(n["y"]), Fr(n["z"])) == (x, y, z)), None)

    def coor(self, n):
        return tuple(Fr(n[k]) for k in "xyz")

    def elem(self, kind, a, b):
        r = self.rng
        if r.random() < 0.5:
            a, b = b, a
        eid = a["id"] + b["id"]
        ids = {e["id"] for e in self.st["elems"]}
        if eid in ids or r.random() < 0.15:
            eid = "e%d" % (len(ids) + 1) if r.random() < 0.6 else r.choice(self.st["nodes"])["id"]
            while eid in ids:
                eid += "x"
        e = {"id": eid, "kind": kind, "n0": a["id"], "n1": b["id"], "mat": r.choice(self.st["mats"])["id"],
             "cs": r.choice(self.st["css"])["id"], "hinges": []}
        self.st["elems"].append(e)
        return e

    def direction(self):
        r = self.rng
        if r.random() < self.irr:
            while True:
                d = (Fr(r.randint(-6, 6), r.choice([1, 2])), Fr(r.randint(-6, 6), r.choice([1, 2])))
                if d != (0, 0):
                    return d
        x, z = r.choice(PYTH)
        f = Fr(r.choice([1, 1, 2, 3, 4, 5, 6]), r.choice([1, 1, 2, 4]))
        f = f / max(x, z) * r.choice([1, 2, 4]) if max(x, z) > 1 and r.random() < 0.5 else f / (3 if max(x, z) > 6 else 1)
        return (f * x * r.choice([-1, 1]), f * z * r.choice([-1, 1]))

    def origin(self):
        r = self.rng
        if r.random() < 0.5:
            return (Fr(0), Fr(0), Fr(0))
        return (Fr(r.randint(-20, 20), r.choice([1, 2])), Fr(r.randint(-3, 3)) if r.random() < 0.2 else Fr(0), Fr(r.randint(-20, 20), r.choice([1, 2])))

    def plane(self, kinds, count):
        """Tree of `count` elements with some closed loops."""
        r = self.rng
        o = self.origin()
        self.node(*o)
        guard = 0
        while len(self.st["elems"]) < count and guard < 200:
            guard += 1
            a = r.choice(self.st["nodes"]) if r.random() < 0.4 else self.st["nodes"][-1]
            if len(self.st["nodes"]) > 2 and r.random() < 0.25:
                b = r.choice(self.st["nodes"])
                if b is a or any({e["n0"], e["n1"]} == {a["id"], b["id"]} for e in self.st["elems"]):
                    continue
                d2 = sum((p - q) ** 2 for p, q in zip(self.coor(a), self.coor(b)))
                if isqrt_exact(d2) is None and r.random() > self.irr * 2:
                    continue
                self.elem(r.choice(kinds), a, b)
                continue
            dx, dz = self.direction()
            x, y, z = self.coor(a)
            b = self.at(x + dx, y, z + dz)
            if b is None:
                b = self.node(x + dx, y, z + dz)
            elif any({e["n0"], e["n1"]} == {a["id"], b["id"]} for e in self.st["elems"]):
                continue
            self.elem(r.choice(kinds), a, b)

    def truss2(self, extra):
        """Triangulated plane truss."""
        r = self.rng
        x, y, z = self.origin()
        a = self.node(x, y, z)
        px, pz = self.direction()
        b = self.node(x + px, y, z + pz)
        self.elem("truss2d", a, b)
        for _ in range(extra):
            p, q = r.sample(self.st["nodes"], 2)
            for _ in range(20):
                dx, dz = self.direction()
                c = (self.coor(p)[0] + dx, y, self.coor(p)[2] + dz)
                ux, uz = c[0] - self.coor(q)[0], c[2] - self.coor(q)[2]
                if ux * dz == uz * dx or self.at(*c):
                    continue
                if isqrt_exact(ux * ux + uz * uz) is None and r.random() > self.irr * 2:
                    continue
                n = self.node(*c)
                self.elem("truss2d", p, n)
                self.elem("truss2d", q, n)
                break
        if r.random() < 0.3:
            p, q = r.sample(self.st["nodes"], 2)
            if not any({e["n0"], e["n1"]} == {p["id"], q["id"]} for e in self.st["elems"]):
                self.elem("truss2d", p, q)

    def truss3(self, extra):
        """Space truss: nodes attached by three bars each."""
        r = self.rng
        x, y, z = self.origin()
        base = []
        for i in range(3):
            for _ in range(50):
                d = r.choice(PYTH3)
                f = Fr(r.choice([1, 2, 3]), r.choice([1, 2]))
                c = (x + f * d[0] * r.choice([-1, 1]), y + f * d[1] * r.choice([-1, 1]), z + f * d[2] * r.choice([-1, 1]))
                if self.at(*c) is None:
                    base.append(self.node(*c))
                    break
        self.base = [n["id"] for n in base]
        for i in range(extra):
            for _ in range(30):
                trio = r.sample(self.st["nodes"], 3)
                c = (x, y, z) if i == 0 and r.random() < 0.7 else tuple(Fr(r.randint(-6, 6), r.choice([1, 2])) + v for v in (x, y, z))
                if self.at(*c):
                    continue
                v = [[c[k] - self.coor(t)[k] for k in range(3)] for t in trio]
                det = (v[0][0] * (v[1][1] * v[2][2] - v[1][2] * v[2][1]) - v[0][1] * (v[1][0] * v[2][2] - v[1][2] * v[2][0])
                       + v[0][2] * (v[1][0] * v[2][1] - v[1][1] * v[2][0]))
                if det == 0:
                    continue
                n = self.node(*c)
                for t in trio:
                    self.elem("truss3d", t, n)
                break

    def doubles(self):
        """Several elements between the same nodes, several nodes at one place, and nodes without elements."""
        r = self.rng
        nodes = {n["id"]: n for n in self.st["nodes"]}
        if r.random() < 0.06:
            e = r.choice(self.st["elems"])
            for _ in range(r.choice([1, 1, 2, 4])):
                ends = [nodes[e["n0"]], nodes[e["n1"]]]
                self.elem(e["kind"] if e["kind"] != "frame2d" else r.choice(["frame2d", "truss2d"]), *(ends if r.random() < 0.7 else ends[::-1]))
        if r.random() < 0.06:
            e = r.choice(self.st["elems"])
            a, b = r.choice([(e["n0"], e["n1"]), (e["n1"], e["n0"])])
            twin = self.node(*self.coor(nodes[b]))
            if r.random() < 0.3:   # the element itself instead of another one
                e["n0"], e["n1"] = (twin["id"] if e[k] == b else e[k] for k in ("n0", "n1"))
            else:
                self.elem(e["kind"], nodes[a], twin)
        if r.random() < 0.03:
            self.node(*(Fr(r.randint(-9, 9)) if k != "y" else Fr(self.st["nodes"][0]["y"]) for k in "xyz"))

    # -- hinges
    def hinge(self, prob):
        r = self.rng
        for e in self.st["elems"]:
            if r.random() >= prob:
                continue
            for _ in range(10):
                hs = []
                if r.random() < 0.35 or e["kind"] != "frame2d":
                    hs.append((r.choice([e["n0"], e["n1"]]), "Ux"))
                if e["kind"] == "frame2d":
                    for c in r.choice([["t0"], ["t1"], ["w0"], ["w1"], ["t0", "t1"], ["t0", "w1"], ["w0", "t1"], ["t0"], ["t1"], ["t0", "t1"], []]):
                        hs.append((e["n0"] if c[1] == "0" else e["n1"], "Phiy" if c[0] == "t" else "Uz"))
                r.shuffle(hs)
                e["hinges"] = [{"node": n, "dof": d} for n, d in hs]
                break

    # -- supports
    def dofs(self):
        out = []
        for e in self.st["elems"]:
            for nd in (e["n0"], e["n1"]):
                for d in KIND_DOFS[e["kind"]]:
                    if (nd, d) not in out:
                        out.append((nd, d))
        return out

    def constrained(self):
        return {(d["node"], d["dof"]) for d in self.st["dirichlet"]}

    def touched(self):
        return self.constrained() | {(l["node"], l[k]) for l in self.st["links"] for k in ("from", "to")}

    def fix(self, nd, dof, val=Fr(0)):
        if (nd, dof) in self.touched():
            return False
        self.st["dirichlet"].append({"node": nd, "dof": dof, "val": txt(val)})
        return True

    def link(self, nd, frm, to, c, s, turns=None):
        l = {"node": nd, "from": frm, "to": to, "c": txt(c), "s": txt(s)}
        if turns:
            l["turns"] = str(turns)
        self.st["links"].append(l)

    def angle(self):
        r = self.rng
        if r.random() < 0.25:
            c, s = r.choice([(1, 0), (0, 1), (-1, 0), (0, -1)])
            return Fr(c), Fr(s)
        if r.random() < 0.15:
            return slight(r)
        a, b = r.choice(PYTH[2:])
        h = math.isqrt(a * a + b * b)
        return Fr(a * r.choice([-1, 1]), h), Fr(b * r.choice([-1, 1]), h)

    def support(self, links=0.15, nonzero=0.15, tries=60):
        """Adds supports until stable; mixes single dofs, clamped nodes, and inclined supports."""
        r = self.rng
        dofs = self.dofs()
        nodes = [n for n in dict.fromkeys(nd for nd, _ in dofs)]
        pv = (lambda: value(r) / r.choice([10, 100, 1000]) if r.random() < nonzero else Fr(0))
        style = r.random()
        if style < 0.55:
            for d in [d for nd, d in dofs if nd == (nd0 := nodes[0] if r.random() < 0.6 else r.choice(nodes))] if False else []:
                pass
            nd0 = r.choice(nodes)
            for nd, d in dofs:
                if nd == nd0:
                    self.fix(nd, d, pv())
        for _ in range(tries):
            if stable(self.st):
                break
            nd, d = r.choice(dofs)
            if r.random() < links:
                here = [x for n, x in dofs if n == nd and x in ("Ux", "Uz", "Uy")]
                if len(here) >= 2:
                    f, t = r.sample(here, 2)
                    if (nd, f) not in self.touched() and (nd, t) not in self.touched():
                        c, s = self.angle()
                        self.link(nd, f, t, c, s, r.choice([None, None, None, 1, -1]))
                        continue
            self.fix(nd, d, pv())
        for _ in range(r.choice([0, 0, 1, 2])):
            if len(self.constrained()) + len(self.st["links"]) < len(dofs) - 2:
                nd, d = r.choice(dofs)
                self.fix(nd, d, pv())
        r.shuffle(self.st["dirichlet"])
        return stable(self.st)

    # -- loads
    def position(self, e):
        r = self.rng
        L2 = length_sq(self.st, e)
        L = isqrt_exact(L2)
        if L is None:
            return Fr(int(math.sqrt(L2) * r.choice([0, 250, 333, 500, 700, 900, 999])), 1000)
        return L * r.choice([Fr(0), Fr(1), Fr(1, 2), Fr(1, 4), Fr(3, 4), Fr(1, 3), Fr(r.randint(1, 99), 100), Fr(r.randint(1, 9), 10), Fr(1, 50)])

    def load(self, e, kinds=None):
        r = self.rng
        self.nload += 1
        lid = "l%d" % self.nload
        axial = e["kind"] != "frame2d" or r.random() < 0.35
        typ = r.choice(kinds or ["dirac", "dirac", "constant", "linear"])
        dof = "Ux" if axial else ("Phiy" if typ == "dirac" and r.random() < 0.4 else "Uz")
        l = {"id": lid, "type": typ, "kind": dof, "v0": txt(value(r, True))}
        if typ == "dirac":
            l["pos"] = txt(self.position(e))
        if typ == "linear":
            l["v1"] = txt(value(r, True)) if r.random() < 0.85 else r.choice([l["v0"], txt(-Fr(l["v0"]))])
        self.st["loads"].append({"elem": e["id"], "load": l})
        if r.random() < 0.08:
            self.st["loads"].append({"elem": e["id"], "load": l})
        return l

    def loads(self, elem=0.6, nodal=0.5):
        r = self.rng
        for e in self.st["elems"]:
            while r.random() < elem:
                self.load(e)
                if r.random() < 0.5:
                    break
        if r.random() < 0.03 * bool(elem):
            e = r.choice(self.st["elems"])
            for _ in range(r.randint(7, 14)):
                self.load(e)
        for nd, d in self.dofs():
            if r.random() < nodal / 2:
                self.st["neumann"].append({"node": nd, "dof": d, "val": txt(value(r, True))})
                while r.random() < 0.2:
                    self.st["neumann"].append({"node": nd, "dof": d, "val": r.choice([txt(value(r)), self.st["neumann"][-1]["val"]])})
        if not self.st["loads"] and not self.st["neumann"]:
            self.load(r.choice(self.st["elems"]))
        if r.random() < 0.7:
            r.shuffle(self.st["neumann"])

    def shuffle(self):
        r = self.rng
        for k in ("nodes", "mats", "css", "elems", "loads"):
            if r.random() < 0.7:
                r.shuffle(self.st[k])


def large_structure(rng, many=None, kinds=("beam", "beam", "rails", "bridge", "frame", "mast"), slanted=0):
    """Regular structures with many elements: continuous beams, bars between many supports, truss bridges and towers, frames with
    bays and storeys."""
    for _ in range(30):
        b = Builder(rng, 0, big=0)
        b.names.style = rng.choice(["numbers", "numbers", "words"])
        x0, y0, z0 = b.origin()
        k = many or rng.randint(6, 14)
        kind = rng.choice(kinds)
        grid = {}

        def at(i, j, l=0):
            if (i, j, l) not in grid:
                grid[i, j, l] = b.node(x0 + i * w, y0 + l * w, z0 + j * h)
            return grid[i, j, l]
        w, h = rng.choice([(Fr(3), Fr(4)), (Fr(4), Fr(3)), (Fr(3, 2), Fr(2))])
        if kind == "rails":   # many supports, few free degrees of freedom
            k = many or rng.randint(10, 20)
            typ = rng.choice(["truss2d", "frame2d"])
            for i in range(k):
                b.elem(typ, at(i, 0), at(i + 1, 0))
            free = set(rng.sample(range(k + 1), rng.randint(1, 4)))
            for i in range(k + 1):
                for d in KIND_DOFS[typ]:
                    if not (i in free and d == "Ux" or d == "Phiy" and rng.random() < 0.7):
                        b.fix(at(i, 0)["id"], d, value(rng) / 1000 if rng.random() < 0.05 else Fr(0))
        elif kind == "beam":
            at(0, 0)
            for i in range(k):
                b.elem("frame2d", at(i, 0), at(i + 1, 0))
                b.fix(at(i, 0)["id"], "Uz", value(rng) / 1000 if rng.random() < 0.1 else Fr(0))
            b.fix(at(k, 0)["id"], "Uz")
            b.fix(at(rng.choice([0, k]), 0)["id"], "Ux")
        elif kind == "bridge":
            p = max(2, k // 2)
            for i in range(p):
                b.elem("truss2d", at(i, 0), at(i + 1, 0))
                b.elem("truss2d", at(i, 1), at(i + 1, 1))
                b.elem("truss2d", *rng.choice([(at(i, 0), at(i + 1, 1)), (at(i, 1), at(i + 1, 0))]))
                b.elem("truss2d", at(i, 0), at(i, 1))
            b.elem("truss2d", at(p, 0), at(p, 1))
            for n, d in ((at(0, 0), "Ux"), (at(0, 0), "Uz"), (at(p, 0), "Uz")):
                b.fix(n["id"], d)
        elif kind == "frame":
            bays = rng.choice([1, 2])
            floors = max(1, k // (2 * bays + 1))
            for j in range(floors):
                for i in range(bays + 1):
                    b.elem("frame2d", at(i, j), at(i, j + 1))
                for i in range(bays):
                    b.elem(rng.choice(["frame2d", "frame2d", "truss2d"]), at(i, j + 1), at(i + 1, j + 1))
            for i in range(bays + 1):
                for d in ("Ux", "Uz", "Phiy") if rng.random() < 0.7 else ("Ux", "Uz"):
                    b.fix(at(i, 0)["id"], d)
            if rng.random() < 0.5:
                b.hinge(0.15)
        else:   # storeys of a triangular mast, each node held by three bars
            feet = [b.node(x0, y0, z0), b.node(x0 + 6, y0, z0), b.node(x0 + 3, y0 + 4, z0)]
            for n in feet:
                for d in ("Ux", "Uy", "Uz"):
                    b.fix(n["id"], d)
            base = feet
            for j in range(max(1, k // 5)):
                x, y, z = (b.coor(n) for n in base)
                c = [b.node(*(v[0], v[1], v[2] + 4)) for v in (x, y, z)]
                for i in range(3):
                    b.elem("truss3d", base[i], c[i])
                    b.elem("truss3d", base[i], c[(i + 1) % 3])
                    b.elem("truss3d", c[i], c[(i + 1) % 3])
                base = c
        for d in b.st["dirichlet"][:]:   # inclined supports instead of straight ones
            free = [x for n, x in b.dofs() if n == d["node"] and (n, x) not in b.touched() and x in ("Ux", "Uz", "Uy")]
            if slanted and free and d["dof"] in ("Ux", "Uz", "Uy") and rng.random() < slanted and len({l["node"] for l in b.st["links"]}) < 5:
                b.st["dirichlet"].remove(d)
                c, s = b.angle()
                b.link(d["node"], rng.choice(free), d["dof"], c, s)
        if not stable(b.st):
            continue
        b.loads(0.25, 0.25)
        b.shuffle()
        return b.st
    raise RuntimeError("no large structure found")


def units(rng, st):
    """The same structure in other units: forces, stiffness, or lengths scaled by powers of ten."""
    p10 = lambda k: Fr(10) ** k
    how = rng.choice(["force", "force", "stiffness", "length", "length"])

    def scale(x, keys, f):
        for k in keys:
            if k in x:
                x[k] = txt(Fr(x[k]) * f)
    seen = set()
    loads = [l["load"] for l in st["loads"] if not (id(l["load"]) in seen or seen.add(id(l["load"])))]
    if how == "force":   # loads and prescribed displacements
        f = p10(rng.choice([-12, -10, -9, -6, 5, 8]))
        for l in loads:
            scale(l, ("v0", "v1"), f)
        for d in st["dirichlet"] + st["neumann"]:
            scale(d, ("val",), f)
    elif how == "stiffness":
        f = p10(rng.choice([-9, -6, 6, 9]))
        for m in st["mats"]:
            scale(m, ("E",), f)
    else:
        k = rng.choice([-3, -3, -2, -1, 1, 2, 3, 3])
        f = p10(k)
        for n in st["nodes"]:
            scale(n, "xyz", f)
        for c in st["css"]:
            scale(c["par"], ("b", "h"), f)
            scale(c["par"], ("A",), f ** 2)
            scale(c["par"], ("Iyy", "Izz", "Ixx"), f ** 4)
        for m in st["mats"]:
            scale(m, ("E",), f ** -2)
        for l in loads:
            scale(l, ("pos",), f)
            if l["type"] != "dirac":
                scale(l, ("v0", "v1"), f ** -1)
            elif l["kind"] == "Phiy":
                scale(l, ("v0",), f)
        for d in st["dirichlet"]:
            scale(d, ("val",), 1 if d["dof"] == "Phiy" else f)
        for d in st["neumann"]:
            scale(d, ("val",), f if d["dof"] == "Phiy" else 1)
    return st


def opposite(values):
    """Equal and opposite numbers, followed by zeros if there's one too many; the sum is zero in floating point numbers as well."""
    for i, v in enumerate(values):
        if i % 2:
            v["val"] = txt(-Fr(values[i - 1]["val"]))
        elif i == len(values) - 1:
            v["val"] = "0"


def balance(rng, st, what=None):
    """Prescribed values, nodal or element loads that cancel each other."""
    what = what or rng.choice(["dirichlet", "neumann", "loads"])
    if what == "loads":
        for l in list(st["loads"]):
            if rng.random() < 0.7:
                x = dict(l["load"], id=l["load"]["id"] + "o", v0=txt(-Fr(l["load"]["v0"])))
                if "v1" in x:
                    x["v1"] = txt(-Fr(x["v1"]))
                others = [e["id"] for e in st["elems"] if e["kind"] == next(f["kind"] for f in st["elems"] if f["id"] == l["elem"])]
                st["loads"].append({"elem": l["elem"] if "pos" in x or rng.random() < 0.3 else rng.choice(others), "load": x})
    else:
        values = st[what]
        if rng.random() < 0.5:
            values = [v for v in values if Fr(v["val"])]
        if rng.random() < 0.5:
            groups = {}
            for v in values:
                groups.setdefault(v["dof"], []).append(v)
            for g in groups.values():
                opposite(g)
        else:
            opposite(values)


def random_structure(rng, size=None, kind=None, hinges=None, links=0.15, nonzero=0.15, want_stable=True, irrational=0.2, loads=(0.6, 0.5), scaled=0.15):
    for _ in range(60):
        b = Builder(rng, irrational)
        k = kind or rng.choice(["frame", "frame", "frame", "truss2", "truss3", "mixed"])
        n = size or rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6])
        if k == "frame":
            b.plane(["frame2d"], n)
        elif k == "mixed":
            b.plane(["frame2d", "frame2d", "truss2d"], max(2, n))
        elif k == "truss2":
            b.truss2(max(1, n // 2))
        else:
            b.truss3(max(1, n // 3))
        if not b.st["elems"]:
            continue
        b.doubles()
        b.hinge(hinges if hinges is not None else rng.choice([0, 0, 0.3, 0.6]))
        ok = b.support(links, nonzero)
        if want_stable and not ok:
            continue
        b.loads(*loads)
        if rng.random() < 0.1:
            balance(rng, b.st)
        b.shuffle()
        return units(rng, b.st) if rng.random() < scaled else b.st
    raise RuntimeError("no structure found")


def solve_ops(st, p="P", l="L", r="R", s="S", tol="1e-12", elems=True):
    ops = [{"op": "mk", "p": p, "st": st}, {"op": "layout", "p": p, "l": l}, {"op": "solve", "r": r, "p": p, "l": l, "s": s}, {"op": "all", "r": r}]
    if elems:
        ops.append({"op": "interpall", "r": r, "p": p, "elems": [e["id"] for e in st["elems"]], "tol": tol})
    return ops
