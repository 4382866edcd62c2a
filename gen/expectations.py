"""Random results and descriptions of expectations that match, nearly match, or miss them."""
from fractions import Fraction as Fr

import polys
import structures as S
from documents import arr, num, obj, string
from structures import txt

PRIMARY = ["Ux", "Uz", "Uy", "Phiy", "Phiz", "Phix"]
FORCE = ["Fx", "Fz", "Fy", "My", "Mz", "Mx"]


def near(rng, text, tol, floor=None):
    """A number at some distance of the given one, in terms of the tolerance."""
    if rng.random() < 0.45:
        return text
    x, t = Fr(text), Fr(tol)
    f = rng.choice([Fr(1, 2), Fr(9, 10), Fr(99, 100), Fr(101, 100), Fr(11, 10), Fr(2), Fr(100)]) * rng.choice([-1, 1])
    how = rng.random()
    if how < 0.45:
        return txt(x * (1 + f * t))
    if how < 0.8:
        return txt(x + f * t)
    if floor and how < 0.95:
        return txt(x + f * Fr(floor))
    return rng.choice([txt(-x), "0", txt(x + 1), txt(x * 2)])


def val(rng):
    return rng.choice(["0", "1", "-1", "1e-9", "3e-9", "-2.5", "1000", "123456.789", "1e-5", "-7e-7", txt(Fr(rng.randint(-100, 100), rng.choice([1, 3, 7, 10])))])


def dec(s):
    return {"t": "num", "s": s if "/" not in s else "%.25g" % (Fr(s).numerator / Fr(s).denominator) if Fr(s) else "0"}


def fam_expectations(rng, n):
    out = []
    for _ in range(n):
        ops = []
        for _ in range(8):
            doc, result = one(rng)
            ops.append({"op": "expect", "doc": doc, "result": result})
        out.append({"ops": ops})
    return out


def exact(x):
    """JSON numbers are decimal, so the result is rounded first."""
    return "%.12g" % float(Fr(x)) if "/" in x else x


def one(rng):
    nodes = rng.sample(["A", "B", "C", "n1", "0"], rng.choice([1, 2, 3]))
    vals = lambda: [{"node": a, "dof": d, "val": exact(val(rng))} for a in nodes for d in rng.sample(PRIMARY, rng.choice([1, 2, 3]))]
    primary, reaction = vals(), vals()
    interp = []
    for e in rng.sample(["AB", "BC", "e1"], rng.choice([1, 1, 2])):
        for f in rng.sample(["Nx", "Vz", "My", "Ux", "Uz", "Phiy"], rng.choice([1, 2])):
            x, ps = Fr(0), []
            for _ in range(rng.choice([1, 1, 2, 3])):
                p = polys.piece(rng, x)
                p["c"] = [exact(c) for c in p["c"]]
                if Fr(p["c"][-1]) == 0 and len(p["c"]) > 1:
                    p["c"][-1] = "1"
                ps.append(p)
                x = Fr(p["xe"])
            interp.append({"elem": e, "fct": f, "ps": ps if rng.random() < 0.95 else []})
    failure = rng.choice(["", "", "", "Singular matrix", "couldn't lookup ABC/Ux", "x"])
    result = {"primary": primary, "reaction": reaction, "interp": interp, "failure": failure}

    secs = []
    tols = {}
    for k in ("primary", "reaction", "polynomial"):
        tols[k] = "1e-8"
        if rng.random() < 0.5:
            tols[k] = rng.choice(["1e-3", "0.1", "1e-6", "1e-10", "0", "0.5"])
    given = [(k, dec(t)) for k, t in tols.items() if t != "1e-8"]
    if given or rng.random() < 0.2:
        secs.append(("tolerance", obj(given)))
    for which, have, names in (("primary", primary, PRIMARY), ("reaction", reaction, FORCE)):
        if rng.random() < 0.25:
            continue
        by = {}
        for v in have:
            if rng.random() < 0.6:
                n = names[PRIMARY.index(v["dof"])]
                if rng.random() < 0.05:
                    n = (FORCE if names is PRIMARY else PRIMARY)[PRIMARY.index(v["dof"])]
                for _ in range(rng.choice([1, 1, 1, 1, 1, 1, 1, 2])):
                    by.setdefault(v["node"], []).append((n, dec(dround(near(rng, v["val"], tols[which], "1e-8")))))
        if rng.random() < 0.1:
            by.setdefault(rng.choice(["Q", nodes[0]]), []).append((rng.choice(names), dec(val10(rng))))
        secs.append((which, obj((a, arr([obj(ps)] if rng.random() < 0.7 and len({p[0] for p in ps}) == len(ps) else [obj([p]) for p in ps])) for a, ps in by.items())))
    if rng.random() < 0.75:
        by = {}
        for ip in interp:
            for k, p in enumerate(ip["ps"] or [polys.piece(rng)]):
                if rng.random() < 0.3:
                    continue
                for _ in range(rng.choice([1, 1, 1, 1, 1, 2])):
                    by.setdefault(ip["elem"], []).append(expected(rng, ip, p, tols["polynomial"], len(ip["ps"])))
        if rng.random() < 0.05:
            by.setdefault("XX", []).append(obj([("kind", string("Nx")), ("degree", dec("0"))]))
        secs.append(("interpolation", obj((e, arr(os)) for e, os in by.items())))
    if rng.random() < (0.7 if failure else 0.15):
        secs.append(("failure", string(rng.choice(["Singular", "singular", "lookup", "abc/ux", "", "matrix", "Matrix", "ABC", "x", "nothing like it", "SINGULAR"]))))
    if rng.random() < 0.15:   # things that must be refused
        how = rng.choice(["name", "section", "failure", "tolerance", "type"])
        if how == "name":
            secs.append((rng.choice(["primary", "reaction"]), obj([("A", arr([obj([(rng.choice(["Nx", "ux", "qx", "F", "Vz"]), dec(rng.choice(["1", "0", "-2", "1e-9"])))])]))])))
        elif how == "section":
            secs.append((rng.choice(["reactions", "primry", "x"]), obj([])))
        elif how == "failure":
            secs.append(("failure", string(rng.choice(["(", "[", "*", "a(b"]))))
        elif how == "tolerance":
            secs.append(("tolerance", obj([(rng.choice(["polynomials", "x"]), dec("1"))])))
        else:
            secs.append((rng.choice(["primary", "interpolation", "failure"]), dec("1")))
    names = [n for n, _ in secs]
    secs = [s for i, s in enumerate(secs) if s[0] not in names[i + 1:]]
    top = [("expected", obj(secs))] if rng.random() < 0.98 else [("expect", obj(secs))]
    if rng.random() < 0.2:
        top.append(("nodes", obj([])))
    return obj(top), result


def val10(rng):
    return dround(val(rng))


def dround(s):
    """As a decimal number."""
    return "%.17g" % float(Fr(s)) if "/" in s or len(s) > 25 else s


def expected(rng, ip, p, tol, pieces):
    a, b = Fr(p["x0"]), Fr(p["xe"])

    def at(x):
        y = Fr(0)
        for c in reversed(p["c"]):
            y = y * x + Fr(c)
        return dround(near(rng, dround(txt(y)), tol))
    f = [("kind", string(ip["fct"] if rng.random() < 0.97 else rng.choice(["Mx", "Nx", "Q", "nx", ""])))]
    deg = len(p["c"]) - 1
    if deg or rng.random() < 0.7:
        f.append(("degree", dec(str(deg if rng.random() < 0.93 else rng.choice([deg + 1, max(0, deg - 1), -1, 0])))))
    if pieces > 1 or rng.random() < 0.4:
        r = [dround(txt(a)), dround(txt(b))]
        x = rng.random()
        if x < 0.06:
            r = r[:1]
        elif x < 0.12:
            r = [r[0], dround(txt(b + rng.choice([Fr(1, 1000), Fr(1, 10 ** 8), 1])))]
        elif x < 0.15:
            r = r + r[:1]
        elif x < 0.18:
            r = [dround(txt(a + rng.choice([Fr(1, 1000), Fr(1, 10 ** 8)]))), r[1]]
        f.append(("range", arr(dec(v) for v in r)))
    if rng.random() < 0.5:
        k = rng.choice([1, 2, 2, 2, 3]) if rng.random() < 0.3 else 2
        f.append(("boundary", arr([dec(at(a)), dec(at(b)), dec("0")][:k])))
    if rng.random() < 0.5:
        samples = []
        for _ in range(rng.choice([1, 2])):
            x = Fr(dround(txt(a + (b - a) * rng.choice([0, Fr(1, 2), Fr(1, 4), 1]))))
            if rng.random() < 0.05:
                x = b + 1
            s = [dec(dround(txt(x))), dec(at(x))]
            if rng.random() < 0.03:
                s = s[:1] if rng.random() < 0.5 else s + [dec("1")]
            samples.append(arr(s))
        f.append(("eval", arr(samples)))
    if rng.random() < 0.02:
        f.append(("sample", arr([])))
    return obj(f)
