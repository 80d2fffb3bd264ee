import itertools
from .batch import BatchCheck

DN = ["x", "y", "z", "t", "w", "xx"]


def txt(t):
    return ",".join("%s=%d" % (n, v) for n, v in t) or "."


def prod(vs):
    p = 1
    for v in vs:
        p *= v
    return p


def lay(szs, pt, fi):
    r, m = 0, 1
    ds = range(len(szs)) if fi else range(len(szs) - 1, -1, -1)
    for d in ds:
        r += pt[d] * m
        m *= szs[d]
    return r


def unlay(szs, k, fi):
    pt = [0] * len(szs)
    for d in (range(len(szs)) if fi else range(len(szs) - 1, -1, -1)):
        pt[d] = k % szs[d]
        k //= szs[d]
    return pt


def facts(n, k, fixed):
    """All k-tuples of positive factors of n with the given fixed values (0: free)."""
    if k == 0:
        return [()] if n == 1 else []
    r = []
    f = fixed[0]
    for a in ([f] if f else range(1, n + 1)):
        if n % a == 0:
            r += [(a,) + x for x in facts(n // a, k - 1, fixed[1:])]
    return r


class C24(BatchCheck):
    ID = "C24"
    RULE = ("an item counts as non-trivial if its tuples have at least two dims (or it is an integer operation with a negative or "
            "non-divisible operand, or a division of work with more than one part); distinct by operation and operands")
    ASSUME = ["integers of Python are exact", "no intermediate result exceeds the element type (the generator keeps magnitudes small)"]
    NB = dict(quick=60, thorough=2500)
    BATCH = 200

    def tup(self, rng, lo, hi, n=None, names=None):
        n = rng.choice([0, 1, 2, 2, 3, 3, 4, 5]) if n is None else n
        names = names or rng.sample(DN, n)
        return [[d, rng.randint(lo, hi)] for d in names]

    def item(self, rng):
        T = rng.choice(["int", "idx"])
        fi = rng.randint(0, 1)
        k = rng.choice(["layout", "unlayout", "visit", "pvisit", "red", "comb", "map", "fact", "fact", "cmp", "edit", "next", "str", "idiv", "idiv", "idiv",
                        "choose", "divq", "parfor", "parfor"])
        it = dict(k=k, T=T, fi=fi)
        if k in ("layout", "unlayout", "visit", "pvisit", "next"):
            n = rng.choice([1, 1, 2, 2, 3, 3, 4, 5])
            t = self.tup(rng, 1, {1: 200, 2: 14, 3: 6, 4: 4, 5: 3}[n], n)
            it["t"] = t
            if k == "layout":
                it["strict"] = rng.randint(0, 1)
                p = [[d, rng.randint(0, v - 1)] for d, v in t]
                if not it["strict"]:
                    p = [x for x in p if rng.random() < .7]
                    if rng.random() < .4:
                        p.append(["q", rng.randint(0, 5)])
                    rng.shuffle(p)
                it["p"] = p
            elif k == "unlayout":
                it["o"] = rng.randint(0, prod(v for d, v in t) - 1)
            elif k == "visit":
                it["stop"] = rng.choice([0, 0, rng.randint(1, prod(v for d, v in t))])
            elif k == "pvisit":
                it["thr"] = [rng.choice([0, 1, 2, 3, 4, 7]), rng.choice([0, 0, 1, 2, 3])]
                it["T"] = "idx"
            else:
                it["p"] = [[d, rng.randint(0, v - 1)] for d, v in t]
                it["n"] = rng.randint(1, 12)
        elif k == "red":
            it["t"] = self.tup(rng, -9, 9)
        elif k == "comb":
            t = it["t"] = self.tup(rng, -50, 50)
            it["strict"] = rng.randint(0, 1)
            r = [[d, rng.randint(-50, 50)] for d, v in t]
            if not it["strict"]:
                r = [x for x in r if rng.random() < .6] + ([["q", rng.randint(-5, 5)]] if rng.random() < .4 else [])
                rng.shuffle(r)
            it["r"] = r
        elif k == "map":
            it["t"] = self.tup(rng, -50, 50)
            it["v"] = rng.randint(-20, 20)
        elif k == "fact":
            n = rng.choice([1, 2, 2, 3, 3, 4])
            N = rng.choice([1, 2, 3, 4, 6, 8, 12, 16, 24, 30, 36, 48, 60, 64, 72, 97, 100, 120, rng.randint(0, 130)])
            fx = rng.random()
            it["t"] = self.tup(rng, 0, 0, n)
            for e in it["t"]:
                if rng.random() < .4 and fx < .7:
                    e[1] = rng.choice([1, 2, 3, 4, 6, rng.randint(1, 9)]) if fx < .35 or not N else rng.choice([d for d in range(1, N + 1) if N % d == 0])
            it["N"] = N
        elif k == "cmp":
            t = it["t"] = self.tup(rng, -3, 3)
            r = [list(x) for x in t]
            for _ in range(rng.choice([0, 1, 1, 2])):
                c = rng.random()
                if r and c < .5:
                    rng.choice(r)[1] += rng.choice([-1, 1])
                elif r and c < .65:
                    a, b = rng.randrange(len(r)), rng.randrange(len(r))
                    r[a], r[b] = r[b], r[a]
                elif r and c < .8:
                    f = [d for d in DN if d not in [x[0] for x in r]]
                    if f:
                        rng.choice(r)[0] = rng.choice(f)
                elif r and c < .9:
                    r.pop(rng.randrange(len(r)))
                else:
                    f = [d for d in DN if d not in [x[0] for x in r]]
                    if f:
                        r.append([rng.choice(f), rng.randint(-3, 3)])
            it["r"] = r
        elif k == "edit":
            t = it["t"] = self.tup(rng, -9, 9)
            m = [list(x) for x in t]
            ops = []
            for _ in range(rng.randint(1, 6)):
                c = rng.choice(["back", "front", "at", "rm", "rmp", "set", "sets+", "sets-", "uni", "same"])
                d, v = rng.choice(DN), rng.randint(-9, 9)
                if c == "at":
                    ops.append(["at%d" % rng.randint(0, len(m)), [[d, v]]])
                elif c in ("back", "front"):
                    ops.append([c, [[d, v]]])
                elif c == "set":
                    if not m:
                        continue
                    ops.append([c, [[rng.choice(m)[0], v]]])
                elif c == "rm":
                    ops.append([c, d])
                elif c == "rmp":
                    ops.append([c, str(rng.randint(0, len(m)))])
                elif c == "same":
                    ops.append([c, str(v)])
                else:
                    ops.append([c, self.tup(rng, -9, 9)])
                m = self.edit(m, ops[-1])
            it["ops"] = ops
        elif k == "str":
            it["t"] = self.tup(rng, -9, 9)
            it["s"] = [rng.choice([",", ";", "x"]), rng.choice(["<", "p"]), rng.choice([">", "s"])]
        elif k == "idiv":
            m = rng.choice([5, 20, 1000, 1 << 28])
            if T == "idx" and rng.random() < .3:
                m = 1 << rng.randint(30, 60)
            it["a"] = rng.randint(-m, m)
            it["b"] = rng.choice([1, 2, 3, 4, 5, 7, 8, 16, rng.randint(1, max(1, m // 2))])
        elif k == "choose":
            it["n"] = rng.randint(0, 9)
            it["c"] = rng.randint(0, min(8, it["n"] + 1))
        elif k == "divq":
            it["n"], it["p"] = rng.choice([0, 1, rng.randint(0, 20), rng.randint(0, 10 ** 6)]), rng.randint(1, 12)
        elif k == "parfor":
            it["e"], it["s"] = rng.choice([0, 1, rng.randint(0, 40), rng.randint(0, 300)]), rng.choice([1, 1, 2, 3, 5, 8, 50])
            it["thr"] = [rng.choice([1, 2, 3, 4, 7]), rng.choice([0, 0, 1, 2, 3])]
        return it

    @staticmethod
    def edit(m, op):
        c, v = op
        m = [list(x) for x in m]
        nm = [x[0] for x in m]
        if c in ("back", "front", "set") or c[:2] == "at":
            d, x = v[0]
            if d in nm:
                m[nm.index(d)][1] = x
            else:
                m.insert({"back": len(m), "front": 0}.get(c, int(c[2:]) if c[:2] == "at" else 0), [d, x])
        elif c == "rm":
            m = [x for x in m if x[0] != v]
        elif c == "rmp":
            m = [x for i, x in enumerate(m) if i != int(v)]
        elif c == "same":
            for x in m:
                x[1] = int(v)
        else:
            for d, x in v:
                if d in nm:
                    if c != "uni":
                        m[nm.index(d)][1] = x
                elif c != "sets-":
                    m.append([d, x])
                    nm.append(d)
        return m

    def line(self, it):
        k = it["k"]
        if k == "idiv":
            return "idiv %s %d %d" % (it["T"], it["a"], it["b"])
        if k == "choose":
            return "choose %d %d" % (it["n"], it["c"])
        if k == "divq":
            return "divq %d %d" % (it["n"], it["p"])
        if k == "parfor":
            return "parfor %d %d %d %d" % (it["e"], it["s"], it["thr"][0], it["thr"][1])
        h = "tup %s %d %s %s " % (it["T"], it["fi"], k, txt(it["t"]))
        if k == "layout":
            return h + "%s %d" % (txt(it["p"]), it["strict"])
        if k == "unlayout":
            return h + str(it["o"])
        if k == "visit":
            return h + str(it["stop"])
        if k == "pvisit":
            return h + "%d %d" % tuple(it["thr"])
        if k == "comb":
            return h + "%s %d" % (txt(it["r"]), it["strict"])
        if k == "map":
            return h + str(it["v"])
        if k == "fact":
            return h + str(it["N"])
        if k == "cmp":
            return h + txt(it["r"])
        if k == "edit":
            return h + " ".join("%s:%s" % (c, v if isinstance(v, str) else txt(v)) for c, v in it["ops"])
        if k == "next":
            return h + "%s %d" % (txt(it["p"]), it["n"])
        if k == "str":
            return h + " ".join(it["s"])
        return h

    def judge(self, it, out):
        if out[:2] == "ex" or out[:5] == "stdex":
            return "unexpected exception"
        k, fi = it["k"], it["fi"]
        o = out.split()
        t = it.get("t", [])
        nm, sz = [x[0] for x in t], [x[1] for x in t]
        def eq(want):
            return None if out.strip() == want.strip() else "expected: %s" % want
        if k == "layout":
            p = dict(it["p"])
            return eq(str(lay(sz, [p.get(d, 0) for d in nm], fi)))
        if k == "unlayout":
            return eq(txt(list(zip(nm, unlay(sz, it["o"], fi)))))
        if k == "visit":
            n = prod(sz)
            st = it["stop"]
            m = st if st else n
            return eq(" ".join("%d:%s" % (i, ",".join(map(str, unlay(sz, i, fi)))) for i in range(m)) + " ret%d" % (not st))
        if k == "pvisit":
            w = sorted("%d:%s" % (i, ",".join(map(str, unlay(sz, i, fi)))) for i in range(prod(sz)))
            return None if sorted(o) == w else "expected the points %s" % w[:50]
        if k == "red":
            return eq("%d %d %d %d" % (sum(sz), prod(sz), min(sz or [0]), max(sz or [0])))
        if k == "comb":
            r = dict(it["r"])
            fs = [lambda a, b: a + b, lambda a, b: a - b, lambda a, b: a * b, min, max]
            return eq(" ".join(txt([(d, f(v, r[d]) if d in r else v) for d, v in t]) for f in fs))
        if k == "map":
            x = it["v"]
            fs = [lambda a: a + x, lambda a: a - x, lambda a: a * x, lambda a: min(a, x), lambda a: max(a, x), lambda a: -a, abs]
            return eq(" ".join(txt([(d, f(v)) for d, v in t]) for f in fs))
        if k == "fact":
            N = it["N"]
            if N == 0:
                return eq(txt([(d, 0) for d in nm]))
            try:
                g = [(x.split("=")[0], int(x.split("=")[1])) for x in out.strip().split(",")]
            except (IndexError, ValueError):
                return "not a list of factors"
            if [d for d, v in g] != nm:
                return "dims of the result differ"
            gv = tuple(v for d, v in g)
            if prod(gv) != N or min(gv) < 1:
                return "product is not %d" % N
            al = facts(N, len(sz), sz)
            if al and gv not in al:
                return "does not keep the given factors although this is possible, e.g., %s" % (al[0],)
            if not al:
                al = facts(N, len(sz), [0] * len(sz))
            b = min(max(a) for a in al)
            if max(gv) != b:
                return "largest factor is not the smallest possible one, %d" % b
            return None
        if k == "cmp":
            r = it["r"]
            ka, kb = (len(t), sz, nm), (len(r), [x[1] for x in r], [x[0] for x in r])
            e = ka == kb
            w = "".join("%d" % x for x in (e, not e, ka < kb, ka <= kb, ka > kb, ka >= kb, sorted(nm) == sorted(kb[2]), nm == kb[2]))
            if out.strip()[:8] != w:
                return "comparison results, expected %s" % w
            return "equal tuples with different hash values" if e and out.strip()[8] != "1" else None
        if k == "edit":
            w, m = [], t
            for op in it["ops"]:
                m = self.edit(m, op)
                w.append("%s|%d" % (txt(m), len(m)))
                w += ["%d/%d/%d" % (i, v, v) for i, (d, v) in enumerate(m)]
            return eq(" ".join(w))
        if k == "next":
            p = dict(it["p"])
            c = lay(sz, [p[d] for d in nm], fi)
            return eq(" ".join(txt(list(zip(nm, unlay(sz, (c + i + 1) % prod(sz), fi)))) for i in range(it["n"])))
        if k == "str":
            s, a, b = it["s"]
            sign = lambda v: "+%d" % v if v > 0 else "%d" % v if v < 0 else ""
            w = [s.join(a + f(d, v) + b for d, v in t) for f in (lambda d, v: str(v), lambda d, v: d, lambda d, v: "%s=%d" % (d, v), lambda d, v: d + sign(v))]
            return eq(" ".join(x.encode().hex() or "-" for x in w))
        if k == "idiv":
            a, b = it["a"], it["b"]
            c = -(-a // b)
            return eq("%d %d %d %d %d" % (a // b, a % b, c, c * b, a // b * b))
        if k == "choose":
            n, c = it["n"], it["c"]
            L = list(itertools.combinations(range(n), c)) if c <= n else []
            w = sorted(sum(1 << i for i in x) for x in L)
            g = list(map(int, o))
            return None if g[0] == len(L) and sorted(g[1:]) == w else "expected %d sets: %s" % (len(L), w)
        if k == "divq":
            n, p = it["n"], it["p"]
            w, c = [], 0
            for i in range(p):
                s = n // p + (1 if i < n % p else 0)
                c += s
                w.append("%d/%d/%d" % (s, c, s))
            return eq(" ".join(w) + " 0")
        if k == "parfor":
            e, s = it["e"], it["s"]
            return eq("1 " + " ".join("%d-%d" % (i, min(i + s, e)) for i in range(0, e, s)))
        return "unknown item"

    def nontriv(self, it, out):
        k = it["k"]
        if k == "idiv":
            return it["a"] < 0 or it["a"] % it["b"] != 0
        if k in ("choose", "divq", "parfor"):
            return it.get("p", 2) > 1 and it.get("e", it.get("n")) > 1
        return len(it["t"]) > 1

    def simpler(self, it):
        if "t" in it and it["k"] not in ("comb", "cmp", "next", "layout", "edit", "visit", "unlayout"):
            for i in range(len(it["t"])):
                yield dict(it, t=it["t"][:i] + it["t"][i + 1:])
        if "ops" in it:
            for i in range(len(it["ops"])):
                yield dict(it, ops=it["ops"][:i] + it["ops"][i + 1:])
        for f in ("a", "b", "n", "e", "N"):
            if isinstance(it.get(f), int) and it[f] > 1:
                yield dict(it, **{f: it[f] // 2})
                yield dict(it, **{f: it[f] - 1})
