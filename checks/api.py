"""Histories of calls to the var API, against an n-dimensional array model."""
import shutil
import numpy as np
from yv import build, ref, spec as specmod, speccheck as sc
from .common import SpecCheck, Fail

U = np.uint64


def make_buf(n, seed, mode):
    """The buffer that runner.cpp makes."""
    with np.errstate(over="ignore"):
        i = np.arange(n, dtype=np.uint64) * U(0x9E3779B97F4A7C15)
        return val_of(ref.mix(U(ref.mix_i(seed)) ^ i), mode)


def val_of(h, mode):
    if mode == 6:
        return -0.5 - (h >> U(42)).astype(np.float64) / 4194304.0
    if mode == 7:
        return ((h % U(2000003)).astype(np.int64) - 1000001).astype(np.float64) / 7.0
    return ref.val_of(h, mode)


class Arr:
    """The meaning of a var: one value per index; the step dim is a window over circular storage."""

    def __init__(self, name, dims, eb):
        self.name, self.dims, self.eb = name, dims, eb
        self.a = np.zeros([d["al"] for d in dims])
        self.sp = next((i for i, d in enumerate(dims) if d["ty"] == "s"), None)
        self.wrap = False

    def rnd(self, x):
        return np.float64(np.float32(x)) if self.eb == 4 else np.float64(x)

    def ok(self, ix, step=True):
        return all(d["ty"] == "s" and (not step or self.wrap) or d["fl"] <= i <= d["ll"] for d, i in zip(self.dims, ix))

    def slot(self, ix):
        return tuple(i % d["al"] if d["ty"] == "s" else i - d["fl"] for d, i in zip(self.dims, ix))

    def move(self, t):
        d = self.dims[self.sp]
        if t < d["fl"]:
            d["fl"], d["ll"] = t, t + d["al"] - 1
        elif t > d["ll"]:
            d["fl"], d["ll"] = t - d["al"] + 1, t

    def shape(self, f, l):
        return [max(0, b - a + 1) for a, b in zip(f, l)]

    def sel(self, f, l):
        """Open mesh of the slots from f to l."""
        return np.ix_(*[np.arange(a, b + 1) % d["al"] if d["ty"] == "s" else np.arange(a, b + 1) - d["fl"] for d, a, b in zip(self.dims, f, l)]) if f else ()

    def get(self, f, l):
        return self.a[self.sel(f, l)].copy() if f else self.a.copy()

    def put(self, f, l, vals):
        if f:
            self.a[self.sel(f, l)] = vals
        else:
            self.a[...] = vals

    def clip(self, f, l):
        f2, l2 = list(f), list(l)
        for i, d in enumerate(self.dims):
            if d["ty"] == "s" and self.wrap:
                continue
            f2[i], l2[i] = max(f[i], d["fl"]), min(l[i], d["ll"])
        return f2, l2


def parse_vdims(txt):
    out = []
    for p in txt.split(";"):
        g = p.split()
        if g:
            out.append(dict(n=g[0], ty=g[1], fl=int(g[2]), ll=int(g[3]), df=int(g[4]), dl=int(g[5]), hl=int(g[6]), hr=int(g[7]), al=int(g[8])))
    return out


def fx(ix):
    return ",".join(str(int(i)) for i in ix) or "-"


def resolve(A, codes):
    """Relative index codes -> indices for the present geometry."""
    out = []
    for d, (b, k) in zip(A.dims, codes):
        if b == "f":
            out.append(d["fl"] + k)
        elif b == "l":
            out.append(d["ll"] + k)
        elif b == "d":
            out.append(d["df"] + k)
        elif b == "e":
            out.append(d["dl"] + k)
        elif b == "u":
            out.append(d["fl"] + int(k * (d["ll"] - d["fl"] + 1)))
        else:
            out.append(k)
    return out


class OpMaker:
    """Generates abstract ops for one var, given its dim names (not its sizes)."""

    def __init__(self, rng):
        self.r = rng

    def coord(self, pout=.0, step=False):
        r = self.r
        if r.random() < pout:
            if step:
                return r.choice([["l", r.choice([1, 1, 2, 7])], ["f", -r.choice([1, 1, 2, 5])]])
            return r.choice([["l", r.choice([1, 1, 2, 9])], ["f", -r.choice([1, 1, 2, 9])], ["a", r.choice([-10 ** 6, 10 ** 6, 10 ** 12])]])
        k = r.random()
        if k < .45:
            return ["u", round(r.random(), 4)]
        return r.choice([["f", 0], ["l", 0], ["d", 0], ["e", 0], ["f", 0], ["l", 0]])

    def point(self, v, pout=0.0, bad=None):
        """bad: how many coordinates are outside."""
        r = self.r
        n = len(v["dims"])
        out = [self.coord() for _ in range(n)]
        if n and r.random() < pout:
            for i in r.sample(range(n), 1 if r.random() < .7 else r.randint(1, n)):
                out[i] = self.coord(1, v["dims"][i] == v["step"])
        return out

    def span(self, step):
        r = self.r
        k = r.random()
        if k < .25:
            return ["f", 0], ["l", 0]
        if k < .35:
            return ["d", 0], ["e", 0]
        if k < .45:
            c = self.coord()
            return c, c
        if k < .55:
            return ["f", 0], ["u", round(r.random(), 4)]
        if k < .65:
            return ["u", round(r.random(), 4)], ["l", 0]
        a, b = sorted([round(r.random(), 4), round(r.random(), 4)])
        return ["u", a], ["u", b]

    def span_out(self, step):
        """A range that is at least partly outside, or empty."""
        r = self.r
        return r.choice([(["f", -r.choice([1, 2, 4])], ["u", .5]), (["u", .5], ["l", r.choice([1, 2, 5])]), (["f", -1], ["l", 1]), (["f", -3], ["l", 0]),
                         (["f", -5], ["f", -r.choice([1, 3])]), (["l", r.choice([1, 2])], ["l", 4]), (["f", -r.choice([1, 2])], ["l", 0])])

    def slice(self, v, pout=0.0, pempty=.03):
        r = self.r
        f, l = [], []
        for d in v["dims"]:
            a, b = self.span(d == v["step"])
            f.append(a)
            l.append(b)
        n = len(f)
        if n and r.random() < pout:
            for i in r.sample(range(n), 1 if r.random() < .7 else r.randint(1, n)):
                f[i], l[i] = self.span_out(v["dims"][i] == v["step"])
        elif n and r.random() < pempty:
            i = r.randrange(n)
            f[i], l[i] = ["l", 0], ["f", 0]
        return f, l

    def val(self):
        r = self.r
        return r.choice([float(r.randint(-50, 50)), r.random(), -r.random() * 1e3, 0.1, 1e-3, 0.0, float(1 << r.randint(0, 30)) + .25])


MAXEL = 6000


class Hist:
    """Resolves, predicts and runs one history on one rank count."""

    def __init__(self, base, exe, sp, h):
        self.base, self.exe, self.sp, self.h = base, exe, sp, h
        self.nr = h.get("ranks", 1)
        self.lines, self.expect = [], {}
        self.stats = dict(ops=0, writes=0, rejected=0, clipped=0, reads=0)

    def prefix(self):
        h, sp = self.h, self.sp
        L = ["soln S", 'opts S "%s %s"' % (sc.size_opts(sp, h["sizes"]), h.get("kopts", ""))]
        for n in h.get("news", []):
            L.append("%s S %s %s" % (n["op"], n["name"], ",".join(n["dims"]) or "-") + (" " + (fx(n["sizes"])) if n["op"] == "newfixed" else ""))
            L += ["vmod S %s %s %s %d" % (n["name"], a, d, x) for a, d, x in n.get("mods", [])]
        L.append("prepare S")
        return L

    def names(self):
        out = [v["name"] for v in self.sp["vars"] if not v.get("scratch")]
        return out + [n["name"] for n in self.h.get("news", [])]

    def execute(self, L, timeout=60):
        r = build.run_script(self.base, self.exe, L, ranks=self.nr, threads=self.h.get("threads", 2), timeout=timeout,
                             env=dict(self.h.get("env") or {}, **({"YV_ABORT": "prepare"} if self.nr > 1 else {})))
        for k in range(self.nr if self.nr > 1 else 0):      # One rank may refuse its size while the others wait.
            for ln, st, rest in r.ranks[k]:
                if st == "ex" and L[ln - 1].startswith("prepare") and any(x in rest for x in sc.REFUSALS):
                    shutil.rmtree(r.wd, ignore_errors=True)
                    raise sc.Refused(rest)
        if r.timeout:
            shutil.rmtree(r.wd, ignore_errors=True)
            raise Fail("hang", "history did not finish in %d s" % timeout)
        if not r.ok:
            shutil.rmtree(r.wd, ignore_errors=True)
            k = [x[-1][0] if x else 0 for x in r.ranks]
            nxt = L[min(max(k), len(L) - 1)] if k else "?"
            raise Fail("crash", "process ended with code %s after line %s, probably in '%s': %s" % (r.rc, k, nxt, r.log[-700:].strip()))
        return r

    def probe(self):
        L = self.prefix()
        n0 = len(L)
        L += ["vdims S " + n for n in self.names()]
        try:
            r = self.execute(L)
        except Fail as f:
            if f.cls == "crash" and self.nr > 1:
                raise sc.Refused(str(f))
            raise
        shutil.rmtree(r.wd, ignore_errors=True)
        self.models = []
        for k in range(self.nr):
            res = r.res(k)
            M = {}
            for i in range(1, n0 + 1):
                st, rest = res[i]
                if st != "ok":
                    if any(x in rest for x in sc.REFUSALS):
                        raise sc.Refused(rest)
                    raise Fail("exception:" + sc.normal(rest), "'%s' threw: %s" % (L[i - 1], rest[:300]))
            for i, n in enumerate(self.names()):
                st, rest = res[n0 + 1 + i]
                if st != "ok":
                    raise Fail("exception:" + sc.normal(rest), "'%s' threw: %s" % (L[n0 + i], rest[:300]))
                dd = parse_vdims(rest)
                for d in dd:
                    if d["al"] != d["ll"] - d["fl"] + 1:
                        raise Fail("geometry", "var %s dim %s: allocation %d but indices %d..%d" % (n, d["n"], d["al"], d["fl"], d["ll"]))
                M[n] = Arr(n, dd, self.sp.get("elem", 4))
            self.models.append(M)

    def emit(self, rank, line, pred):
        """pred: ('ok', checker or text) or ('ex', None)."""
        if self.nr > 1:
            line = "ifrank %d %s" % (rank, line)
        self.lines.append(line)
        self.expect[len(self.lines)] = (rank, pred)

    def run(self):
        self.probe()
        self.lines = self.prefix()
        for o in self.h["ops"]:
            k = o.get("rank", 0) % self.nr
            if o.get("v") is not None and o["v"] not in self.models[k]:
                continue
            A = self.models[k].get(o.get("v"))
            if A is not None and "ix" in o and len(o["ix"]) != len(A.dims) or A is not None and "f" in o and len(o["f"]) != len(A.dims):
                continue
            self.stats["ops"] += 1
            self.op(k, A, o)
        self.lines.append("dump S d")
        r = self.execute(self.lines)
        try:
            for ln, (rank, (want, chk)) in sorted(self.expect.items()):
                st, rest = r.res(rank).get(ln, ("none", ""))
                line = self.lines[ln - 1]
                if want == "ex":
                    if st != "ex":
                        raise Fail("accepted", "'%s' should throw a yask_exception: %s %s" % (line, st, rest[:200]))
                elif want == "any":
                    pass
                elif st != "ok":
                    raise Fail("exception:" + sc.normal(rest), "'%s' should succeed: %s %s" % (line, st, rest[:250]))
                elif callable(chk):
                    m = chk(rest)
                    if m:
                        raise Fail("value", "'%s': %s" % (line, m))
                elif chk is not None and rest.strip() != chk:
                    raise Fail("value", "'%s' returned %s, expected %s" % (line, rest[:200], chk))
            for k in range(self.nr):
                self.final(ref.read_dump("%s/d.%d" % (r.wd, k)), k)
        finally:
            shutil.rmtree(r.wd, ignore_errors=True)
        return self.stats

    def final(self, dump, k):
        for n, A in self.models[k].items():
            dims, a = dump.get(n, (None, None))
            if a is None:
                raise Fail("value", "var %s has no data at the end" % n)
            for d, q in zip(A.dims, dims):
                if (d["fl"], d["ll"], d["al"]) != (q["fl"], q["ll"], q["al"]):
                    raise Fail("value", "var %s dim %s: indices are %d..%d, expected %d..%d" % (n, d["n"], q["fl"], q["ll"], d["fl"], d["ll"]))
            want = A.get([d["fl"] for d in A.dims], [d["ll"] for d in A.dims])
            if not np.array_equal(want, a):
                w = np.argwhere(want != a)
                i = tuple(w[0]) if len(w) else ()
                raise Fail("value", "var %s at %s: expected %.17g, found %.17g (%d elements differ)" % (
                    n, [d["fl"] + int(j) for d, j in zip(A.dims, i)], want[i], a[i], len(w)))

    # ---- ops
    def op(self, k, A, o):
        getattr(self, "op_" + o["op"])(k, A, o)

    def op_raw(self, k, A, o):
        self.lines.append(o["line"])
        self.expect[len(self.lines)] = (0, tuple(o["want"]))

    def op_wrap(self, k, A, o):
        for r in range(self.nr):
            for B in self.models[r].values():
                B.wrap = bool(o["on"])
        self.lines.append("wrap S %d" % o["on"])

    def op_vset(self, k, A, o):
        ix = resolve(A, o["ix"])
        good = A.ok(ix, step=False)
        line = "vset S %s %r %s %d" % (A.name, o["val"], fx(ix), o["strict"])
        if good:
            if A.sp is not None and not A.wrap:
                A.move(ix[A.sp])
            A.a[A.slot(ix)] = A.rnd(o["val"])
            self.stats["writes"] += 1
            self.emit(k, line, ("ok", "1"))
        elif o["strict"]:
            self.stats["rejected"] += 1
            self.emit(k, line, ("ex", None))
        else:
            self.stats["clipped"] += 1
            self.emit(k, line, ("ok", "0"))

    def op_vadd(self, k, A, o):
        ix = resolve(A, o["ix"])
        line = "vadd S %s %r %s %d" % (A.name, o["val"], fx(ix), o["strict"])
        if A.ok(ix):
            s = A.slot(ix)
            A.a[s] = A.rnd(A.a[s] + A.rnd(o["val"]))
            self.stats["writes"] += 1
            self.emit(k, line, ("ok", "1"))
        elif o["strict"]:
            self.stats["rejected"] += 1
            self.emit(k, line, ("ex", None))
        else:
            self.stats["clipped"] += 1
            self.emit(k, line, ("ok", "0"))

    def op_vget(self, k, A, o):
        ix = resolve(A, o["ix"])
        self.stats["reads"] += 1
        if A.ok(ix):
            x = float(A.a[A.slot(ix)])
            self.emit(k, "vget S %s %s" % (A.name, fx(ix)), ("ok", lambda t, x=x: None if float(t) == x else "read %s, expected %.17g" % (t, x)))
        else:
            self.stats["rejected"] += 1
            self.emit(k, "vget S %s %s" % (A.name, fx(ix)), ("ex", None))

    def op_vloc(self, k, A, o):
        ix = resolve(A, o["ix"])
        self.emit(k, "vloc S %s %s" % (A.name, fx(ix)), ("ok", "1" if A.ok(ix) else "0"))

    def op_vall(self, k, A, o):
        A.a[...] = A.rnd(o["val"])
        self.emit(k, "vall S %s %r" % (A.name, o["val"]), ("ok", None))

    def limited(self, A, f, l):
        n = int(np.prod(A.shape(f, l), dtype=np.int64)) if f else 1
        return n

    def op_vsame(self, k, A, o):
        f, l = resolve(A, o["f"]), resolve(A, o["l"])
        if A.sp is not None and A.wrap:
            f[A.sp], l[A.sp] = [min(max(x, A.dims[A.sp]["fl"]), A.dims[A.sp]["ll"]) for x in (f[A.sp], l[A.sp])]
        line = "vsame S %s %r %s %s %d" % (A.name, o["val"], fx(f), fx(l), o["strict"])
        good = A.ok(f) and A.ok(l)
        if not good and o["strict"]:
            self.stats["rejected"] += 1
            return self.emit(k, line, ("ex", None))
        if not good:
            self.stats["clipped"] += 1
        f2, l2 = A.clip(f, l)
        n = self.limited(A, f2, l2)
        if n:
            A.put(f2, l2, A.rnd(o["val"]))
            self.stats["writes"] += 1
        self.emit(k, line, ("ok", str(n)))

    def op_vsetb(self, k, A, o):
        """set_elements_in_slice from a buffer; kind d, f or v(oid)."""
        f, l = resolve(A, o["f"]), resolve(A, o["l"])
        if A.sp is not None and A.wrap:
            f[A.sp], l[A.sp] = [min(max(x, A.dims[A.sp]["fl"]), A.dims[A.sp]["ll"]) for x in (f[A.sp], l[A.sp])]
        good = A.ok(f) and A.ok(l)
        n = self.limited(A, f, l)
        if n > MAXEL * 20:
            return
        nb = max(n + o.get("extra", 0), 0) if good else 64
        if o["kind"] == "v":
            if not good:
                return
            nb = max(n, nb)
        line = "vset%s S %s %s %s %d %d %d" % (o["kind"], A.name, fx(f), fx(l), nb, o["seed"], o["mode"])
        if not good or nb < n:
            self.stats["rejected"] += 1
            return self.emit(k, line, ("ex", None))
        if n:
            b = make_buf(n, o["seed"], o["mode"])
            if o["kind"] == "f" or A.eb == 4:
                b = b.astype(np.float32).astype(np.float64)
            A.put(f, l, b.reshape(A.shape(f, l)))
            self.stats["writes"] += 1
        self.emit(k, line, ("ok", str(n)))

    def op_vgetb(self, k, A, o):
        f, l = resolve(A, o["f"]), resolve(A, o["l"])
        good = A.ok(f) and A.ok(l)
        n = self.limited(A, f, l)
        if n > MAXEL:       # Only keeps the output short.
            for i in range(len(f)):
                if self.limited(A, f, l) > MAXEL and A.dims[i]["ty"] != "s":
                    l[i] = min(l[i], f[i] + 2)
            good = A.ok(f) and A.ok(l)
            n = self.limited(A, f, l)
        if n > MAXEL:
            return
        nb = max(n + o.get("extra", 0), 0) if good else 8
        if o["kind"] == "v":
            if not good:
                return
            nb = max(n, nb)
        self.stats["reads"] += 1
        line = "vget%s S %s %s %s %d" % (o["kind"], A.name, fx(f), fx(l), nb)
        if not good or nb < n:
            self.stats["rejected"] += 1
            return self.emit(k, line, ("ex", None))
        want = A.get(f, l).ravel() if n else np.zeros(0)
        if o["kind"] == "f":
            want = want.astype(np.float32).astype(np.float64)
        want = np.concatenate([want, np.full(nb + 1 - n, -98765.0)])

        def chk(t, want=want, n=n):
            g = t.split()
            if int(g[0]) != n:
                return "returned %s, expected %d" % (g[0], n)
            got = np.array([float(x) for x in g[1:]])
            bad = np.flatnonzero(got != want)
            if len(bad):
                return "buffer[%d] is %.17g, expected %.17g (%d of %d differ)" % (bad[0], got[bad[0]], want[bad[0]], len(bad), n)
        self.emit(k, line, ("ok", chk))

    def op_vred(self, k, A, o):
        f, l = resolve(A, o["f"]), resolve(A, o["l"])
        m = o["mask"]
        line = "vred S %s %d %s %s %d" % (A.name, m, fx(f), fx(l), o["strict"])
        good = A.ok(f) and A.ok(l)
        self.stats["reads"] += 1
        if not good and o["strict"]:
            self.stats["rejected"] += 1
            return self.emit(k, line, ("ex", None))
        if not good:
            self.stats["clipped"] += 1
        f2, l2 = A.clip(f, l)
        n = self.limited(A, f2, l2)
        x = A.get(f2, l2).ravel() if n else np.zeros(0)
        if n:
            self.stats["reduced"] = self.stats.get("reduced", 0) + 1

        def near(a, b, tol):
            return a == b or np.isnan(a) and np.isnan(b) or abs(a - b) <= tol or np.isinf(b) and (np.isinf(a) or abs(a) > 1e300)

        def chk(t):
            g = t.split()
            if int(g[0]) != m or int(g[1]) != n:
                return "mask %s and count %s, expected %d and %d" % (g[0], g[1], m, n)
            e = 2.3e-16 * (n + 4)
            with np.errstate(all="ignore"):
                want = [(1, float(np.sum(x)), e * float(np.sum(np.abs(x)))), (2, float(np.sum(x * x)), e * float(np.sum(x * x))),
                        (4, float(np.prod(x)), None), (8, float(np.max(x)) if n else None, 0), (16, float(np.min(x)) if n else None, 0)]
            for (bit, w, tol), s in zip(want, g[2:]):
                if not m & bit:
                    if s != "-":
                        return "bit %d gave %s" % (bit, s)
                    continue
                if w is None:
                    continue
                got = float(s)
                if tol is None:
                    if not np.isfinite(w) or w != 0 and abs(w) < 1e-290 or w == 0 and np.all(x != 0):
                        continue        # Depends on the order of the factors.
                    with np.errstate(all="ignore"):
                        pz = np.prod(x[x != 0])
                    if w == 0 and not np.isfinite(pz):
                        continue
                    tol = e * abs(w)
                if not near(got, w, tol):
                    return "%s of %d elements is %.17g, expected %.17g" % ({1: "sum", 2: "sum of squares", 4: "product", 8: "max", 16: "min"}[bit], n, got, w)
        self.emit(k, line, ("ok", chk))

    def op_vredget(self, k, A, o):
        f, l = resolve(A, o["f"]), resolve(A, o["l"])
        if not (A.ok(f) and A.ok(l)):
            return
        bit = dict(sum=1, ssq=2, prod=4, max=8, min=16)[o["what"]]
        n = self.limited(A, f, l)
        line = "vredget S %s %d %s %s 1 %s" % (A.name, o["mask"], fx(f), fx(l), o["what"])
        if not o["mask"] & bit:
            self.stats["rejected"] += 1
        self.emit(k, line, ("ok", None) if o["mask"] & bit else ("ex", None))


class ApiCheck(SpecCheck):
    """Cases are programs with several histories."""
    NRUNS = 12
    WORKERS = 8
    ALLOW_NEW = 1
    HIST = Hist
    RULE = ""

    def gen_kw(self, i):
        return dict(pmisc=.8, preadonly=1, nvars=[1, 2, 3][i % 3], maxeq=3, target=["avx2", "avx512", "intel64"][i % 3] if "avx512" in build.targets_here() else "avx2",
                    pnonlin=0, pscratch=.2, psdimvar=.3, maxrad=[1, 3, 2][i % 3])

    def cfg_kw(self, i):
        return dict(self.gen_kw(i), elem=[8, 4, 8, 4][i % 4], ndims=[2, 3, 1, 3, 2][i % 5])

    def kopts(self, rng, sp):
        o = []
        if rng.random() < .3:
            o.append(rng.choice(["-no-allow_addl_padding", "-allow_addl_padding"]))
        if rng.random() < .3:
            o.append("-mp %d" % rng.choice([0, 3, 5]))
        if rng.random() < .3:
            o.append("-ep %d" % rng.choice([0, 1, 4]))
        if rng.random() < .3:
            o.append("-bundle_allocs" if rng.random() < .5 else "-no-bundle_allocs")
        return " ".join(o)

    def news(self, rng, sp):
        """Vars made at run time."""
        out = []
        most = max([len(sp["dims"]) + 1] + [len(v["dims"]) for v in sp["vars"]])       # MAX_DIMS
        if rng.random() < .8:
            for i in range(rng.choice([1, 1, 2, 3])):
                pool = list(sp["dims"]) + (sp.get("misc") or []) + ["q7", "r7"]
                dd = [d for d in pool if rng.random() < .45][:most]
                rng.shuffle(dd)
                if rng.random() < .4:
                    dd = [sp["step"]] + dd[:most - 1]
                fixed = rng.random() < .5
                n = dict(op="newfixed" if fixed else "newvar", name="n%d" % i, dims=dd, mods=[])
                if fixed:
                    n["sizes"] = [rng.choice([1, 2, 3, 4]) if d == sp["step"] else rng.choice([1, 2, 3, 5, 8, 13]) for d in dd]
                else:
                    for d in dd:
                        if d not in sp["dims"]:
                            n["mods"].append(["alloc_size", d, rng.choice([1, 2, 3, 4])])
                for d in dd:
                    if d not in sp["dims"] and d != sp["step"] and rng.random() < .6:
                        n["mods"].append(["first_misc_index", d, rng.choice([-3, -1, 0, 1, 2, 100])])
                    if d in sp["dims"] and rng.random() < .3:
                        n["mods"].append([rng.choice(["min_pad_size", "left_min_pad_size", "right_min_pad_size", "halo_size", "left_halo_size", "right_halo_size"]), d, rng.choice([0, 1, 2, 5])])
                out.append(n)
        return out

    def vars_of(self, sp, news):
        out = [dict(name=v["name"], dims=v["dims"], step=sp["step"]) for v in sp["vars"] if not v.get("scratch")]
        return out + [dict(name=n["name"], dims=n["dims"], step=sp["step"]) for n in news]

    def init_ops(self, rng, vs, nr):
        ops = []
        for k in range(nr):
            for v in vs:
                ops.append(dict(op="vall", v=v["name"], val=float(rng.randint(1, 9)), rank=k))
                if v["dims"]:
                    ops.append(dict(op="vsetb", kind="d", v=v["name"], f=[["f", 0]] * len(v["dims"]), l=[["l", 0]] * len(v["dims"]), seed=rng.randint(1, 1 << 30), mode=self.init_mode(rng), rank=k))
        return ops

    def init_mode(self, rng):
        return rng.choice([0, 5, 7])

    def one_run(self, rng, sp, k):
        hi = {1: 60, 2: 17, 3: 9}[len(sp["dims"])]
        h = dict(sizes={d: rng.randint(1, hi) for d in sp["dims"]}, kopts=self.kopts(rng, sp), threads=rng.choice([1, 2, 3, 4]), news=self.news(rng, sp), ranks=1)
        if k % 6 == 5:
            h["ranks"], h["threads"] = 2, 1
            h["sizes"] = {d: n + {1: 30, 2: 16, 3: 12}[len(sp["dims"])] for d, n in h["sizes"].items()}
        vs = self.vars_of(sp, h["news"])
        h["ops"] = self.init_ops(rng, vs, h["ranks"]) + self.ops(rng, sp, h, vs)
        return h

    def run_hist(self, exe, sp, h):
        return self.HIST(self.base, exe, sp, h).run()

    def nontriv_hist(self, st):
        return st["writes"] > 5 and st["reads"] > 2

    def run_case(self, case):
        sp = case["spec"]
        exe = sc.build_spec(self.base, sp, allow_new=self.ALLOW_NEW)
        tot, keys, L = {}, [], []
        try:
            for i, h in enumerate(case["runs"]):
                try:
                    for _ in range(case.get("repeat", 1)):
                        st = self.run_hist(exe, sp, h)
                except sc.Refused:
                    L.append("refused-sizes")
                    continue
                except Fail as f:
                    f.run = i
                    raise
                for x, y in st.items():
                    tot[x] = tot.get(x, 0) + y
                if self.nontriv_hist(st):
                    keys.append(sc.hashlib.sha1(repr((specmod.digest(sp), h)).encode()).hexdigest()[:12])
                if h.get("ranks", 1) > 1:
                    L.append("MPI")
                if h.get("news"):
                    L.append("run-time vars")
        finally:
            self.base.drop(exe)
        with self.base._l:
            for x, y in tot.items():
                self.extra["ops_" + x] = self.extra.get("ops_" + x, 0) + y
        return dict(nontrivial=bool(keys), keys=keys, evals=len(case["runs"]), labels=L + self.labels_of(dict(case, runs=[]), []))

    def candidates(self, case, fail):
        i = getattr(fail, "run", None)
        if i is not None and len(case["runs"]) > 1:
            yield dict(case, runs=[case["runs"][i]])
            return
        h = case["runs"][0]

        def mod(**kw):
            return dict(case, runs=[dict(h, **kw)])
        ops = h["ops"]
        n = len(ops)
        c = n // 2
        while c >= 1:
            for j in range(0, n, c):
                yield mod(ops=ops[:j] + ops[j + c:])
            c //= 2
        for j in range(len(h.get("news", []))):
            yield mod(news=h["news"][:j] + h["news"][j + 1:])
        if h.get("kopts"):
            yield mod(kopts="")
        if h.get("ranks", 1) > 1:
            yield mod(ranks=1)
        if h.get("threads", 1) > 1:
            yield mod(threads=1)
        for s in sc.spec_candidates(case["spec"]):
            yield dict(case, spec=s)
        for d in case["spec"]["dims"]:
            for m in (1, h["sizes"][d] // 2):
                if 0 < m < h["sizes"][d]:
                    yield mod(sizes=dict(h["sizes"], **{d: m}))

    def sample(self, case):
        h = case["runs"][0]
        return dict(program=specmod.to_text(case["spec"])[:800], history=dict(h, ops=h["ops"][:25]))
