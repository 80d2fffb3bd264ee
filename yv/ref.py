"""Independent reference interpreter for stencil specs (numpy), plus the shared fill hash and dump reader.

Values carry an accumulated error bound E in units of the element type's epsilon, so that
legal reassociation/FMA differences are tolerated while wrong reads (integer-scale data) are not."""
import math
import numpy as np

U = np.uint64
M64 = (1 << 64) - 1


def mix_i(x):
    x &= M64
    x ^= x >> 30
    x = x * 0xbf58476d1ce4e5b9 & M64
    x ^= x >> 27
    x = x * 0x94d049bb133111eb & M64
    x ^= x >> 31
    return x


def mix(x):
    x = x ^ (x >> U(30))
    x = x * U(0xbf58476d1ce4e5b9)
    x = x ^ (x >> U(27))
    x = x * U(0x94d049bb133111eb)
    return x ^ (x >> U(31))


def fnv(s):
    h = 0xcbf29ce484222325
    for c in s.encode():
        h ^= c
        h = h * 0x100000001b3 & M64
    return h


def val_of(h, mode):
    if mode == 0:
        return (h % U(33)).astype(np.float64) - 16
    if mode == 1:
        return 0.5 + (h >> U(42)).astype(np.float64) / 4194304.0
    if mode == 2:
        return 1.0 + (h % U(4)).astype(np.float64)
    if mode == 3:
        return (h % U(5)).astype(np.float64) - 2
    if mode == 4:
        return (h % U(2)).astype(np.float64)
    return (h % U(2001)).astype(np.float64) - 1000


def h0_of(name, seed):
    return mix_i(((seed + 1) * 0x9E3779B97F4A7C15 & M64) ^ fnv(name))


def hash_fill(name, seed, mode, idx_arrays):
    """idx_arrays: list of 1-D int arrays, one per var dim (step dim already as slot). Returns nd array."""
    nd = len(idx_arrays)
    h = np.full((1,) * nd, U(h0_of(name, seed)))
    with np.errstate(over="ignore"):
        for i, ix in enumerate(idx_arrays):
            a = np.asarray(ix, dtype=np.int64).astype(np.uint64) * U(0x9E3779B97F4A7C15) + U(0x1234567)
            sh = [1] * nd
            sh[i] = len(ix)
            h = mix(h ^ a.reshape(sh))
        return val_of(h, mode)


def read_dump(path):
    """-> {var: (dims, array or None)}; dims: list of dicts."""
    data = open(path, "rb").read()
    pos = 0
    res = {}
    while pos < len(data):
        e = data.index(b"\n", pos)
        f = data[pos:e].decode().split(" ")
        pos = e + 1
        name, nd = f[1], int(f[2])
        if nd < 0:
            res[name] = (None, None)
            continue
        dims = []
        for i in range(nd):
            g = f[3 + 9 * i:12 + 9 * i]
            dims.append(dict(n=g[0], ty=g[1], fl=int(g[2]), ll=int(g[3]), df=int(g[4]), dl=int(g[5]), hl=int(g[6]), hr=int(g[7]), al=int(g[8])))
        shp = [d["ll"] - d["fl"] + 1 for d in dims]
        n = int(np.prod(shp)) if shp else 1
        a = np.frombuffer(data, dtype=np.float64, count=n, offset=pos).reshape(shp)
        pos += 8 * n
        res[name] = (dims, a)
    return res


class Unsupported(Exception):
    pass


def offset_of(e):
    """Index expr -> (base name or None, const offset)."""
    if isinstance(e, str):
        return e, 0
    if isinstance(e, (int, float)):
        return None, int(e)
    if e[0] == "+":
        b, o = offset_of(e[1])
        b2, o2 = offset_of(e[2])
        return b or b2, o + o2
    if e[0] == "-":
        b, o = offset_of(e[1])
        b2, o2 = offset_of(e[2])
        if b2:
            raise Unsupported("index")
        return b, o - o2
    raise Unsupported(str(e))


def walk(e):
    yield e
    if isinstance(e, (list, tuple)):
        for x in e[1:]:
            for y in walk(x):
                yield y


class Ref:
    def __init__(self, spec, gsize, alloc, seed, pad=None, modes=None):
        self.spec = spec
        self.step = spec.get("step")
        self.dims = spec["dims"]
        self.dir = spec.get("dir", 1)
        self.g = dict(gsize)
        self.alloc = alloc
        self.seed = seed
        self.vars = {v["name"]: v for v in spec["vars"]}
        self.eps = 2.0 ** -24 if spec.get("elem", 4) == 4 else 2.0 ** -53
        self.under = 2.0 ** (-126 + 24) if self.eps > 1e-10 else 2.0 ** (-1022 + 53)
        self.lets = spec.get("lets", {})
        self.H = {d: (pad or {}).get(d, 16) for d in self.dims}
        self.hist = {v: {} for v in self.vars}
        self.init = {}
        self.order = self.topo()
        self.bad = False

    # --- dependency order
    def reads(self, e, out):
        for x in walk(e):
            if isinstance(x, str) and x in self.lets:
                self.reads(self.lets[x], out)
            if isinstance(x, (list, tuple)) and x and x[0] == "p":
                v = self.vars[x[1]]
                toff = None
                misc = []
                for d, i in zip(v["dims"], x[2:]):
                    if d == self.step:
                        toff = offset_of(i)[1]
                    elif d not in self.dims:
                        misc.append(offset_of(i)[1])
                out.append((x[1], toff, tuple(misc)))
                if v.get("scratch"):
                    for q in self.spec["eqs"]:
                        if q["l"][1] == x[1]:
                            self.reads(q["r"], out)
                            for c in ("d", "s"):
                                if q.get(c):
                                    self.reads(q[c], out)

    def topo(self):
        eqs = [i for i, q in enumerate(self.spec["eqs"]) if not self.vars[q["l"][1]].get("scratch")]
        lhs, rd = {}, {}
        for i in eqs:
            q = self.spec["eqs"][i]
            o = []
            self.reads(q["l"], o)
            lhs[i] = o[0]
            o = []
            self.reads(q["r"], o)
            for c in ("d", "s"):
                if q.get(c):
                    self.reads(q[c], o)
            rd[i] = set(o)
        done, order = set(), []
        while len(order) < len(eqs):
            prog = False
            for i in eqs:
                if i in done:
                    continue
                if all(j in done or j == i for j in eqs if lhs[j] in rd[i]):
                    order.append(i)
                    done.add(i)
                    prog = True
            if not prog:
                raise Unsupported("cyclic")
        return order

    # --- storage
    def box_idx(self, d):
        return np.arange(-self.H[d], self.g[d] + self.H[d])

    def misc_range(self, name, di):
        k = (name, di)
        if not hasattr(self, "_mr"):
            self._mr = {}
        return self._mr.get(k)

    def set_misc_range(self, name, d, lo, hi):
        if not hasattr(self, "_mr"):
            self._mr = {}
        self._mr[(name, d)] = (lo, hi)

    def initial(self, name, slot):
        k = (name, slot)
        if k not in self.init:
            v = self.vars[name]
            ia = []
            for d in v["dims"]:
                if d == self.step:
                    ia.append(np.array([slot]))
                elif d in self.dims:
                    ia.append(self.box_idx(d))
                else:
                    lo, hi = self.misc_range(name, d)
                    ia.append(np.arange(lo, hi + 1))
            a = hash_fill(name, self.seed, v.get("mode", 0), ia)
            if self.step in v["dims"]:
                a = a.reshape([s for s, d in zip(a.shape, v["dims"]) if d != self.step])
            if self.eps == 2.0 ** -24:
                a = a.astype(np.float32).astype(np.float64)
            a = np.array(a, dtype=np.float64)
            self.init[k] = (a, np.array(np.abs(a)))
        return self.init[k]

    def content(self, name, s):
        """Array held by the storage for step s."""
        v = self.vars[name]
        if self.step not in v["dims"]:
            return self.initial(name, 0)
        h = self.hist[name]
        al = self.alloc[name]
        lo = min(h) if h else None
        hi = max(h) if h else None
        x = s
        while h and lo <= x <= hi:
            if x in h:
                return h[x]
            x -= self.dir * al
        # Also anything beyond the written range wraps onto the latest write of that slot.
        if h and ((self.dir > 0 and s > hi) or (self.dir < 0 and s < lo)):
            x = s
            while (self.dir > 0 and x >= lo) or (self.dir < 0 and x <= hi):
                if x in h:
                    return h[x]
                x -= self.dir * al
        return self.initial(name, s % al)

    # --- evaluation; box: {dim: (lo, hi)}
    def ev(self, e, box, t):
        if isinstance(e, (int, float)):
            return np.float64(e), np.float64(abs(e))
        if isinstance(e, str):
            if e in self.lets:
                return self.ev(self.lets[e], box, t)
            if e == self.step:
                return np.float64(t), np.float64(abs(t))
            if e in self.dims:
                sh = [1] * len(self.dims)
                i = self.dims.index(e)
                lo, hi = box[e]
                sh[i] = hi - lo
                a = np.arange(lo, hi).reshape(sh).astype(np.float64)
                return a, np.abs(a)
            raise Unsupported(e)
        o = e[0]
        if o == "p":
            return self.point(e, box, t)
        if o == "first":
            return np.float64(0), np.float64(0)
        if o == "last":
            return np.float64(self.g[e[1]] - 1), np.float64(self.g[e[1]] - 1)
        if o == "neg":
            a, E = self.ev(e[1], box, t)
            return -a, E
        if o == "clone":
            return self.ev(e[1], box, t)
        with np.errstate(all="ignore"):
            if o in ("+", "*"):
                a, E = self.ev(e[1], box, t)
                for x in e[2:]:
                    b, F = self.ev(x, box, t)
                    if o == "+":
                        a, E = a + b, E + F
                    else:
                        a, E = a * b, np.abs(a) * F + np.abs(b) * E + self.under
                return a, E
            if o in ("-", "/", "%", "min", "max", "pow"):
                a, E = self.ev(e[1], box, t)
                b, F = self.ev(e[2], box, t)
                if o == "-":
                    return a - b, E + F
                if o == "/":
                    r = a / b
                    return r, (E + np.abs(r) * F) / np.abs(b) + np.abs(r) + self.under
                if o == "%":
                    return np.fmod(a, b), E + F * 4
                if o == "min":
                    return np.minimum(a, b), np.maximum(E, F)
                if o == "max":
                    return np.maximum(a, b), np.maximum(E, F)
                r = np.power(a, b)
                return r, np.abs(r) * (np.abs(b) * E / np.maximum(np.abs(a), 1e-300) + np.abs(np.log(np.abs(a) + 1e-300)) * F + 2)
            a, E = self.ev(e[1], box, t)
            if o == "sqrt":
                r = np.sqrt(a)
                return r, E / (2 * np.maximum(r, 1e-150)) + r
            if o == "cbrt":
                r = np.cbrt(a)
                return r, E / (3 * np.maximum(r * r, 1e-150)) + np.abs(r)
            if o == "fabs":
                return np.abs(a), E
            if o == "exp":
                r = np.exp(a)
                return r, r * E + 2 * r
            if o == "log":
                r = np.log(a)
                return r, E / np.abs(a) + np.abs(r)
            if o == "sin":
                return np.sin(a), E + 2
            if o == "cos":
                return np.cos(a), E + 2
            if o == "atan":
                r = np.arctan(a)
                return r, E + 2
            if o == "erf":
                r = np.vectorize(math.erf)(a)
                return r, 1.2 * E + 2
        raise Unsupported(o)

    def cond(self, c, box, t):
        o = c[0]
        if o == "&&":
            return self.cond(c[1], box, t) & self.cond(c[2], box, t)
        if o == "||":
            return self.cond(c[1], box, t) | self.cond(c[2], box, t)
        if o == "!":
            return ~self.cond(c[1], box, t)
        a, b = self.ev(c[1], box, t)[0], self.ev(c[2], box, t)[0]
        f = {"==": np.equal, "!=": np.not_equal, "<": np.less, ">": np.greater, "<=": np.less_equal, ">=": np.greater_equal}[o]
        return np.asarray(f(a, b))

    def point(self, e, box, t):
        v = self.vars[e[1]]
        offs, misc, toff = {}, [], 0
        for d, i in zip(v["dims"], e[2:]):
            b, o = offset_of(i)
            if d == self.step:
                toff = o
            elif d in self.dims:
                offs[d] = o
            else:
                misc.append((d, o))
        if v.get("scratch"):
            nb = {d: (box[d][0] + offs.get(d, 0), box[d][1] + offs.get(d, 0)) for d in self.dims}
            return self.scratch(e[1], tuple(o for _, o in misc), nb, t)
        a, E = self.content(e[1], t + toff)
        # Select misc (in var order), then arrange domain dims.
        sl, dd = [], []
        for d in v["dims"]:
            if d == self.step:
                continue
            if d in self.dims:
                lo, hi = box[d]
                lo += offs[d] + self.H[d]
                hi += offs[d] + self.H[d]
                if lo < 0 or hi > a.shape[len(sl)]:
                    raise Unsupported("pad too small")
                sl.append(slice(lo, hi))
                dd.append(d)
            else:
                lo, hi = self.misc_range(e[1], d)
                mv = dict(misc)[d]
                if not lo <= mv <= hi:
                    raise Unsupported("misc out of range")
                sl.append(mv - lo)
        return self.arrange(a[tuple(sl)], dd), self.arrange(E[tuple(sl)], dd)

    def arrange(self, a, dd):
        perm = sorted(range(len(dd)), key=lambda i: self.dims.index(dd[i]))
        a = np.transpose(a, perm) if dd else a
        sh = []
        k = 0
        for d in self.dims:
            if d in dd:
                sh.append(a.shape[k])
                k += 1
            else:
                sh.append(1)
        return a.reshape(sh)

    def scratch(self, name, misc, box, t):
        key = (name, misc, tuple(sorted(box.items())), t)
        if key in self.memo:
            return self.memo[key]
        full = tuple(box[d][1] - box[d][0] for d in self.dims)
        A = np.full(full, np.nan)
        E = np.zeros(full)
        for q in self.spec["eqs"]:
            l = q["l"]
            if l[1] != name:
                continue
            v = self.vars[name]
            m = tuple(offset_of(i)[1] for d, i in zip(v["dims"], l[2:]) if d != self.step and d not in self.dims)
            if m != misc:
                continue
            if q.get("s") and not bool(np.all(self.cond(q["s"], box, t))):
                continue
            r, F = self.ev(q["r"], box, t)
            r, F = np.broadcast_to(r, full), np.broadcast_to(F + np.abs(r) + self.under, full)
            if q.get("d"):
                k = np.broadcast_to(self.cond(q["d"], box, t), full)
                A = np.where(k, r, A)
                E = np.where(k, F, E)
            else:
                A, E = r, F
        self.memo[key] = (A, E)
        return A, E

    def step_once(self, t):
        self.memo = {}
        box = {d: (0, self.g[d]) for d in self.dims}
        full = tuple(self.g[d] for d in self.dims)
        # All RHS reads in an equation see logical (named-step) values.
        nwr = 0
        for i in self.order:
            q = self.spec["eqs"][i]
            l = q["l"]
            v = self.vars[l[1]]
            s = t + self.dir
            if s not in self.hist[l[1]]:
                a, E = self.content(l[1], s)
                self.hist[l[1]][s] = (a.copy(), E.copy())
                old = s - self.dir * (self.alloc[l[1]] + 4)
                self.hist[l[1]].pop(old, None)
            if q.get("s") and not bool(np.all(self.cond(q["s"], box, t))):
                continue
            self.memo = {}
            r, F = self.ev(q["r"], box, t)
            r, F = np.broadcast_to(r, full), np.broadcast_to(F, full)
            F = F + np.abs(r) + self.under
            # Near the range of the element type, nothing is claimed about a value or what depends on it.
            lim = 1e18 if self.eps > 1e-10 else 1e150
            with np.errstate(all="ignore"):
                F = np.where(F < lim, F, np.inf)
            k = np.broadcast_to(self.cond(q["d"], box, t), full) if q.get("d") else np.ones(full, bool)
            a, E = self.hist[l[1]][s]
            sl, dd = [], []
            for d, ix in zip(v["dims"], l[2:]):
                if d == self.step:
                    continue
                if d in self.dims:
                    sl.append(slice(self.H[d], self.H[d] + self.g[d]))
                    dd.append(d)
                else:
                    lo, hi = self.misc_range(l[1], d)
                    sl.append(offset_of(ix)[1] - lo)
            perm = [self.dims.index(d) for d in dd]
            va, vE = a[tuple(sl)], E[tuple(sl)]
            k2 = np.transpose(k, perm)
            va[k2] = np.transpose(r, perm)[k2]
            vE[k2] = np.transpose(F, perm)[k2]
            nwr += int(k.sum())
        return nwr

    def poke(self, name, first, last, val):
        """Value 'val' stored in every element of a slice (indices in the var's order)."""
        v = self.vars[name]
        if self.eps == 2.0 ** -24:
            val = float(np.float32(val))
        steps = [None]
        sl = []
        for d, f, l in zip(v["dims"], first, last):
            if d == self.step:
                steps = range(f, l + 1)
            elif d in self.dims:
                sl.append(slice(f + self.H[d], l + 1 + self.H[d]))
            else:
                lo, hi = self.misc_range(name, d)
                sl.append(slice(f - lo, l + 1 - lo))
        for s in steps:
            a, E = self.content(name, s)
            a[tuple(sl)] = val
            E[tuple(sl)] = abs(val)

    def run(self, t0, t1):
        n = 0
        s = self.dir
        t = t0
        while (t <= t1) if s > 0 else (t >= t1):
            n += self.step_once(t)
            t += s
        return n


TOL = 256.0


def compare(ref, dump, max_report=4, check_halo=True, fresh=None):
    """Compare one rank's dump to the reference. fresh: {var: L1 norm} = halo copies must match, too. -> (list of mismatch strings, n compared, n informative)."""
    bad, ncmp, maxrel = [], 0, 0.0
    for name, v in ref.vars.items():
        if v.get("scratch"):
            continue
        if name not in dump:
            bad.append("var %s missing in kernel" % name)
            continue
        dims, arr = dump[name]
        if dims is None:
            continue
        sp = [i for i, d in enumerate(dims) if d["ty"] == "s"]
        steps = range(dims[sp[0]]["fl"], dims[sp[0]]["ll"] + 1) if sp else [0]
        for s in steps:
            a, E = ref.content(name, s)
            sub = arr.take(s - dims[sp[0]]["fl"], axis=sp[0]) if sp else arr
            od = [d for d in dims if d["ty"] != "s"]
            rs, ks, own, glob = [], [], [], []
            for d in od:
                if d["ty"] == "d":
                    ext = (1 << 30, 1 << 30) if check_halo == "pad" else (d["hl"], d["hr"]) if check_halo else (0, 0)
                    lo = max(d["df"] - ext[0], d["fl"])
                    hi = min(d["dl"] + ext[1], d["ll"])
                    rs.append(slice(lo + ref.H[d["n"]], hi + 1 + ref.H[d["n"]]))
                    ks.append(slice(lo - d["fl"], hi + 1 - d["fl"]))
                    ix = np.arange(lo, hi + 1)
                    own.append((ix >= d["df"]) & (ix <= d["dl"]))
                    glob.append((ix >= 0) & (ix < ref.g[d["n"]]))
                    org = lo
                else:
                    mlo, mhi = ref.misc_range(name, d["n"])
                    rs.append(slice(d["fl"] - mlo, d["ll"] + 1 - mlo))
                    ks.append(slice(0, d["ll"] - d["fl"] + 1))
                    own.append(np.ones(d["ll"] - d["fl"] + 1, bool))
                    glob.append(np.ones(d["ll"] - d["fl"] + 1, bool))
            x = a[tuple(rs)] if rs else a
            e = E[tuple(rs)] if rs else E
            k = sub[tuple(ks)] if ks else sub
            n = len(rs)
            mo = np.ones(x.shape, bool)
            mg = np.ones(x.shape, bool)
            for i in range(n):
                sh = [1] * n
                sh[i] = -1
                mo = mo & own[i].reshape(sh)
                mg = mg & glob[i].reshape(sh)
            mask = mo | ~mg
            if fresh and name in fresh:
                out = np.zeros(x.shape, int)
                for i in range(n):
                    sh = [1] * n
                    sh[i] = -1
                    out = out + (~own[i]).reshape(sh)
                mask = mask | (mg & (out <= fresh[name]))
            with np.errstate(all="ignore"):
                tol = TOL * ref.eps * e
                d = np.abs(x - k)
                fin = np.isfinite(x) & (np.abs(x) < (1e37 if ref.eps > 1e-10 else 1e300)) & np.isfinite(tol)
                bmask = mask & fin & ~(d <= tol)
                big = np.max(np.where(mask & fin, np.abs(x), 0)) if x.size else 0
                if x.size:
                    if not np.all(fin | ~mask):
                        ref.bad = True
                    relt = np.max(np.where(mask & fin, tol, 0)) / max(big, 1e-300)
                    maxrel = max(maxrel, relt)
            ncmp += int(mask.sum())
            if bmask.any():
                w = np.argwhere(bmask)
                for p in w[:max_report]:
                    p = tuple(int(q) for q in p)
                    coord = []
                    for i, dd in enumerate(od):
                        coord.append("%s=%d" % (dd["n"], p[i] + ks[i].start + dd["fl"]))
                    bad.append("%s(step %s; %s): expected %.17g, kernel has %.17g (tol %.3g; %d such points)" % (
                        name, s if sp else "-", ",".join(coord), x[p], k[p], tol[p], len(w)))
    return bad, ncmp, maxrel
