"""Random piecewise polynomials."""
from fractions import Fraction as Fr



def txt(x):
    """The shortest text of the nearest float, so that the code and the specification see the same."""
    return repr(float(x))


def coeff(rng):
    return rng.choice(["0", "0", "1", "-1", "2", "0.5", "3", "-7", "1e-9", "-1e-9", "1e-8", "1e-6", "1000", "-0.001", "1e-12", "1e-300",
                       txt(Fr(rng.randint(-50, 50), rng.choice([1, 2, 10])))])


def piece(rng, x0=None):
    x0 = x0 if x0 is not None else Fr(rng.randint(-4, 6), rng.choice([1, 2]))
    xe = x0 + Fr(rng.randint(1, 6), rng.choice([1, 2, 4]))
    n = rng.choice([1, 1, 2, 2, 3, 4, 5])
    return {"x0": txt(x0), "xe": txt(xe), "c": [coeff(rng) for _ in range(n)]}


def nudge(rng, text, tol):
    """The same number, or one that differs by a bit more or less than the tolerance."""
    x = rng.random()
    if x < 0.5:
        return text
    t = Fr(tol)
    f = rng.choice([Fr(1, 2), Fr(9, 10), Fr(11, 10), Fr(2), Fr(10)]) * rng.choice([-1, 1])
    return txt(Fr(text) + f * t) if rng.random() < 0.6 or Fr(text) == 0 else txt(Fr(text) * (1 + f * t))


TOLS = ["1e-9", "1e-8", "1e-6", "0.001", "0.1", "0", "0.5"]


def sequence(rng, tol):
    n = rng.choice([0, 1, 2, 3, 4, 5, 6])
    ps = []
    for i in range(n):
        if ps and rng.random() < 0.65:   # continues the one before, identical or nearly so
            q = ps[-1]
            p = piece(rng, Fr(nudge(rng, q["xe"], tol)) if rng.random() < 0.5 else Fr(q["xe"]))
            p["c"] = [nudge(rng, c, tol) if rng.random() < 0.4 else c for c in q["c"]]
            if rng.random() < 0.15:
                p["c"].append(coeff(rng))
            if rng.random() < 0.1 and len(p["c"]) > 1:
                p["c"].pop()
        elif ps and rng.random() < 0.7:
            p = piece(rng, Fr(ps[-1]["xe"]) + rng.choice([0, 0, 1]))
        else:
            p = piece(rng)
        ps.append(p)
    return ps


def fam_polys(rng, n):
    out = []
    for _ in range(n):
        ops = []
        for _ in range(10):
            tol = rng.choice(TOLS)
            ps = sequence(rng, tol)
            kind = rng.choice(["eval", "trim", "compact", "compact", "interval"])
            if kind == "eval":
                p = piece(rng)
                a, b = Fr(p["x0"]), Fr(p["xe"])
                x = rng.choice([a, b, (a + b) / 2, a + (b - a) / 3, a - Fr(1, 10 ** 6), b + Fr(1, 10 ** 6), a - 1, b + 1, a - Fr(1, 10 ** 9), b + Fr(1, 10 ** 9),
                                b + 100, a - 100, a + Fr(1, 10 ** 9), b - Fr(1, 10 ** 9), 2 * b - a, 2 * a - b])
                ops.append({"op": "eval", "p": p, "x": txt(x)})
            elif kind in ("trim", "compact"):
                ops.append({"op": kind, "ps": ps, "tol": tol})
            else:
                if ps and rng.random() < 0.8:
                    q = rng.choice(ps)
                    if rng.random() < 0.3:
                        q2 = rng.choice(ps)
                        a, b = Fr(q["x0"]), Fr(q2["xe"])
                    else:
                        a, b = Fr(q["x0"]), Fr(q["xe"])
                    d = rng.choice([0, 0, Fr(1, 10 ** 11), Fr(1, 10 ** 8), Fr(-1, 10 ** 8), Fr(1, 100), Fr(1, 2)])
                    if rng.random() < 0.5:
                        a += d
                    else:
                        b += d
                else:
                    a, b = Fr(rng.randint(-3, 3)), Fr(rng.randint(0, 5))
                ops.append({"op": "interval", "ps": ps, "x0": txt(a), "xe": txt(b)})
        out.append({"ops": ops})
    return out
