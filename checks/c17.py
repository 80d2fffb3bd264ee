from fractions import Fraction as F
from .batch import BatchCheck

EPS = F(1, 1 << 52)


def hx(x):
    return float(x).hex()


def exact(m, x0, pts):
    """Exact coefficients of the m-th derivative at x0 of the interpolant, and the magnitude bounds of the terms that make
    them up (the same sums with every factor and term replaced by its absolute value)."""
    n = len(pts)
    cs, bs = [], []
    d = [p - x0 for p in pts]
    f = F(1)
    for k in range(2, m + 1):
        f *= k
    for i in range(n):
        # Polynomial prod_{j != i} (t - d_j), coefficients from low to high; absolute version: prod (t + |d_j|).
        a, b = [F(1)], [F(1)]
        den = F(1)
        for j in range(n):
            if j == i:
                continue
            a = [(a[k - 1] if k else 0) - (d[j] * a[k] if k < len(a) else 0) for k in range(len(a) + 1)]
            b = [(b[k - 1] if k else 0) + (abs(d[j]) * b[k] if k < len(b) else 0) for k in range(len(b) + 1)]
            den *= pts[i] - pts[j]
        cs.append(f * a[m] / den if m < n else F(0))
        bs.append(f * b[m] / abs(den) if m < n else F(0))
    return cs, bs


class C17(BatchCheck):
    ID = "C17"
    RULE = ("a query counts as non-trivial if it returned coefficients that are not all zero for at least three points; distinct by "
            "form, derivative order, evaluation point and sample points")
    ASSUME = ["rational arithmetic of Python is exact", "error bound: 8 (n+2) eps times the sum of absolute values of the terms of each coefficient"]
    NB = dict(quick=48, thorough=1600)
    BATCH = 150

    def num(self, rng, kind):
        if kind == 0:
            return F(rng.randint(-8, 8))
        if kind == 1:
            return F(rng.randint(-64, 64), 1 << rng.randint(0, 5))
        if kind == 2:
            return F(rng.uniform(-10, 10))
        return F(rng.uniform(-1, 1) * 10.0 ** rng.randint(-3, 3))

    def item(self, rng):
        r = rng.random()
        m = rng.choice([1, 1, 2, 2, 3, 4, 5, 6, rng.randint(1, 10)])
        if rng.random() < .03:
            m = rng.choice([0, -1])
        if r < .3:
            return dict(k=rng.choice(["center", "forward", "backward"]), m=m, a=rng.choice([-1, 0] + list(range(1, 9)) * 3))
        n = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 7, 8, 9, 11, 13])
        kind = rng.randint(0, 3)
        pts = []
        if rng.random() < .3:
            s, h = self.num(rng, 1), F(rng.choice([1, 1, 2, F(1, 2), F(1, 4), 3]))
            pts = [s + h * i for i in range(n)]
            if rng.random() < .3:
                pts.reverse()
        else:
            while len(pts) < n:
                x = F(float(self.num(rng, kind)))
                if all(abs(x - p) > F(1, 1000) * max(abs(x), abs(p)) for p in pts):
                    pts.append(x)
                elif kind == 0 and len(pts) >= 9:
                    kind = 2
            if rng.random() < .4:
                pts.sort()
        x0 = rng.choice([F(0), rng.choice(pts), F(float(self.num(rng, kind))), sum(pts) / len(pts)])
        x0 = F(float(x0))
        return dict(k="arbitrary", m=m, x0=hx(x0), pts=[hx(p) for p in pts])

    def line(self, it):
        if it["k"] == "arbitrary":
            return "fd arbitrary %d %s %s" % (it["m"], it["x0"], " ".join(it["pts"]))
        return "fd %s %d %d" % (it["k"], it["m"], it["a"])

    def judge(self, it, out):
        m = it["m"]
        if it["k"] == "arbitrary":
            pts = [F(float.fromhex(p)) for p in it["pts"]]
            x0 = F(float.fromhex(it["x0"]))
            bad = len(pts) < 2
        else:
            a = it["a"]
            x0 = F(0)
            pts = [F(i) for i in dict(center=range(-a, a + 1), forward=range(0, a + 1), backward=range(-a, 1))[it["k"]]] if a > 0 else []
            bad = a < 1
        if m < 1 or bad:
            return None if out == "ex" else "no exception for illegal arguments"
        if out.startswith("ex"):
            return "exception for legal arguments"
        c = [float.fromhex(x) for x in out.split()]
        n = len(pts)
        if len(c) != n:
            return "%d coefficients for %d points" % (len(c), n)
        if any(x != x or abs(x) == float("inf") for x in c):
            return "coefficient is not finite"
        ex, bo = exact(m, x0, pts)
        for i in range(n):
            if abs(F(c[i]) - ex[i]) > 8 * (n + 2) * EPS * bo[i]:
                return "coefficient %d is %r, exact value is %r, allowed error %.3g" % (i, c[i], float(ex[i]), float(8 * (n + 2) * EPS * bo[i]))
        # Polynomials of degree below n, directly (x - x0)^p: m-th derivative at x0 is m! if p == m, else 0.
        fm = 1
        for k in range(2, m + 1):
            fm *= k
        for p in range(n):
            got = sum(F(c[i]) * (pts[i] - x0) ** p for i in range(n))
            want = F(fm if p == m else 0)
            tol = 8 * (n + 2) * EPS * sum(bo[i] * abs(pts[i] - x0) ** p for i in range(n))
            if abs(got - want) > tol:
                return "(x-x0)^%d: sum is %r, derivative is %r" % (p, float(got), float(want))
        return None

    def nontriv(self, it, out):
        return not out.startswith("ex") and len(out.split()) > 2 and any(float.fromhex(x) for x in out.split())

    def label(self, it, out):
        if out.startswith("ex"):
            return it["k"] + ":rejected"
        n = len(out.split())
        return it["k"] + (":order>=points" if it["m"] >= n else "")

    def simpler(self, it):
        if it["k"] == "arbitrary":
            for i in range(len(it["pts"])):
                yield dict(it, pts=it["pts"][:i] + it["pts"][i + 1:])
            for i in range(len(it["pts"])):
                x = float.fromhex(it["pts"][i])
                if x != round(x) and float(round(x)).hex() not in it["pts"]:
                    yield dict(it, pts=it["pts"][:i] + [float(round(x)).hex()] + it["pts"][i + 1:])
            x = float.fromhex(it["x0"])
            if x != round(x):
                yield dict(it, x0=float(round(x)).hex())
            if x:
                yield dict(it, x0=0.0.hex())
        elif it["a"] > 1:
            yield dict(it, a=it["a"] - 1)
        if it["m"] > 1:
            yield dict(it, m=it["m"] - 1)
