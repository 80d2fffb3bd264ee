"""C10: the ranks' sub-domains partition the overall domain."""
import itertools, json, shutil
from yv import build, spec as specmod, speccheck as sc
from .common import SpecCheck, Fail

FOLDS = {1: [["x=4"], ["x=1"]], 2: [["x=2", "y=2"], ["x=4", "y=1"], ["x=1", "y=4"]], 3: [["x=2", "y=2", "z=1"], ["x=1", "y=1", "z=4"], ["x=2", "y=1", "z=2"]]}


def up(a, b):
    return -(-a // b) * b


def factorings(n, k):
    if k == 1:
        return [[n]]
    return [[f] + r for f in range(1, n + 1) if n % f == 0 for r in factorings(n // f, k - 1)]


class C10(SpecCheck):
    ID = "C10"
    NCFG = dict(quick=6, thorough=12)
    NRUN = dict(quick=26, thorough=400)
    WORKERS = 5
    RULE = ("a trial = one preparation of a solution on 2-8 MPI ranks after a random mix of given and omitted numbers of ranks, rank indices, local and overall sizes; "
            "non-trivial if it was prepared on all ranks, or if the mix is illegal by the model; distinct by configuration and trial")
    ASSUME = ["Open MPI ranks on one host; preparations refused because a rank is smaller than a halo are not judged",
              "an illegal mix must be reported by an exception on at least one rank, and no rank may complete the preparation"]

    def cases(self):
        for k in range(self.NCFG[self.tier]):
            rng = self.rng("c", k)
            nd = [2, 3, 1, 2, 3, 2][k % 6]
            dims = ["x", "y", "z"][:nd]
            simd = rng.random() < .8 or nd == 1 and k < 6
            fold = rng.choice(FOLDS[nd]) if simd else ["%s=1" % d for d in dims]
            if nd == 1 and simd:
                fold = ["x=4"]
            rad = rng.choice([0, 1, 1, 2])
            yield dict(dims=dims, fold={f[0]: int(f[2:]) for f in fold}, simd=simd, rad=rad, procs=[self.proc(self.rng("p", k, i), dims, fold, i) for i in range(self.NRUN[self.tier])])

    def spec(self, case):
        d = case["dims"]
        rd = [["p", "A", "t"] + d]
        for e in d:
            for s in "+-":
                rd.append(["p", "A", "t"] + [[s, x, case["rad"]] if x == e and case["rad"] else x for x in d])
        tx = lambda x: x if isinstance(x, str) else str(x) if not isinstance(x, list) else "(" + " ".join(map(tx, x)) + ")"
        return "\n".join(["(solution s)", "(step t)", "(dims %s)" % " ".join(d), "(setdims %s)" % " ".join(d), "(setstep t)", "(elem 8)", "(target %s)" % ("avx2" if case["simd"] else "intel64"),
                          '(opts "-fold %s")' % ",".join("%s=%d" % (x, case["fold"][x]) for x in d), "(var A t %s)" % " ".join(d),
                          "(eq (p A (+ t 1) %s) (* 0.25 (+ %s)) nil nil)" % (" ".join(d), " ".join(tx(x) for x in rd))])

    # ---- generation
    def proc(self, rng, dims, fold, i):
        n = rng.choice([2, 2, 3, 4, 4, 6, 8] if i % 9 else [1, 5, 7])
        t = []
        for j in range(4):
            t.append(self.trial(rng, dims, n, {f[0]: int(f[2:]) for f in fold}, illegal=False))
        if rng.random() < .75:
            t.append(self.trial(rng, dims, n, {f[0]: int(f[2:]) for f in fold}, illegal=True))
        return dict(n=n, trials=t)

    def trial(self, rng, dims, n, fold, illegal):
        nd = len(dims)
        fac = rng.choice(factorings(n, nd))
        t = dict(nr=[0] * nd, ri=None, g=[0] * nd, l=[[0] * nd for _ in range(n)], api=rng.choice(["opt", "set", "setv", "mix"]), again=rng.random() < .3, exch=rng.random() < .3)
        how = rng.random()
        pos = list(itertools.product(*[range(f) for f in fac]))
        unl = [[(r // self.prod(fac[:d])) % fac[d] for d in range(nd)] for r in range(n)]
        given = rng.random() < .45
        if how < .15 and not given:
            pass
        elif how < .5 and not given:
            t["nr"] = [f if rng.random() < .6 else 0 for f in fac]
        else:
            t["nr"] = list(fac)
        full = t["nr"] == fac
        if given and full:
            rng.shuffle(pos)
            t["ri"] = [list(p) for p in pos]
        for d in range(nd):
            lo = 5
            k = rng.random()
            if k < .5 or not full:
                t["g"][d] = rng.randint(n * lo if not full else fac[d] * lo, 60 if nd < 3 else 40) + (0 if rng.random() < .5 else rng.randint(0, 9)) + n * 3
            else:
                col = [rng.randint(lo, 18) for _ in range(fac[d])]
                if rng.random() < .3:
                    col = [up(c, fold[dims[d]]) for c in col]
                for r in range(n):
                    t["l"][r][d] = col[(t["ri"] or unl)[r][d]]
                if k < .65:
                    t["g"][d] = sum(col)
        if illegal:
            for _ in range(20):
                self.spoil(rng, t, n, fac)
                if self.model(dims, fold, n, t)[0] == "illegal":
                    break
        return t

    def spoil(self, rng, t, n, fac):
        nd = len(fac)
        d, r = rng.randrange(nd), rng.randrange(n)
        k = rng.choice(["nr", "nr", "nr-neg", "ri-same", "ri-out", "ri-neg", "none", "sum", "align", "mixed", "small", "gdiff", "nrdiff"])
        if k == "nr":
            t["nr"][d] = rng.choice([x for x in range(1, 2 * n + 3) if n % x] or [n + 1])
        elif k == "nr-neg":
            t["nr"][d] = -rng.choice([1, 2, n])
        elif k.startswith("ri"):
            t["nr"] = list(fac)
            if not t["ri"]:
                t["ri"] = [list(p) for p in itertools.product(*[range(f) for f in fac])]
            if k == "ri-same" and n > 1:
                t["ri"][r] = list(t["ri"][(r + 1) % n])
            elif k == "ri-out":
                t["ri"][r][d] = fac[d] + rng.choice([0, 0, 1])
            else:
                t["ri"][r][d] = -1
        elif k == "none":
            t["g"][d] = 0
            for q in t["l"]:
                q[d] = 0
        elif k == "sum":
            if any(q[d] for q in t["l"]):
                t["g"][d] = t["g"][d] + rng.choice([1, 4, -1]) if t["g"][d] else 200
        elif k == "align":
            t["l"][r][d] = t["l"][r][d] + 1 if t["l"][r][d] else t["l"][r][d]
        elif k == "mixed":
            t["l"][r][d] = 0
        elif k == "small":
            t["g"][d] = rng.randint(1, n)
            for q in t["l"]:
                q[d] = 0
        elif k == "gdiff":
            t["gdiff"] = [r, d, rng.choice([1, 5])]
        elif k == "nrdiff":
            t["nrdiff"] = [r, d, rng.choice([1, 2])]

    @staticmethod
    def prod(x):
        p = 1
        for i in x:
            p *= i
        return p

    def values(self, t, n, r):
        nr, g = list(t["nr"]), list(t["g"])
        if t.get("gdiff") and t["gdiff"][0] % n == r:
            g[t["gdiff"][1]] += t["gdiff"][2]
        if t.get("nrdiff") and t["nrdiff"][0] % n == r:
            nr[t["nrdiff"][1]] += t["nrdiff"][2]
        return nr, g, (t["ri"][r] if t["ri"] else [0] * len(nr)), t["l"][r]

    def model(self, dims, fold, n, t, layout=None, coords=None):
        """-> ('illegal', why) or ('legal', None) or, given the layout used, ('legal', sizes per rank, overall sizes)."""
        nd = len(dims)
        vals = [self.values(t, n, r) for r in range(n)]
        if any(v[0] != vals[0][0] for v in vals):
            return "illegal", "numbers of ranks differ over ranks"
        if any(v[1] != vals[0][1] for v in vals):
            return "illegal", "overall sizes differ over ranks"
        nr, g = vals[0][0], vals[0][1]
        if any(x < 0 for x in nr):
            return "illegal", "negative number of ranks"
        P = self.prod([x for x in nr if x])
        if all(nr) and P != n or n % P:
            return "illegal", "numbers of ranks do not fit"
        for d in range(nd):
            if any(not v[1][d] and not v[3][d] for v in vals):
                return "illegal", "no size"
            if any(v[1][d] < 0 or v[3][d] < 0 for v in vals):
                return "illegal", "negative size"
        ri = None
        if any(any(v[2]) for v in vals):
            ri = [v[2] for v in vals]
        if layout is None:
            if all(nr):
                layout = nr
            elif sum(1 for x in nr if not x) == 1:
                layout = [x or n // P for x in nr]
            else:
                return "legal", None
            if ri:
                coords = ri
            else:
                coords = [[(r // self.prod(layout[:d])) % layout[d] for d in range(nd)] for r in range(n)]
        if ri:
            if any(not 0 <= x < layout[d] for c in ri for d, x in enumerate(c)):
                return "illegal", "rank index out of range"
            if len(set(map(tuple, ri))) != n:
                return "illegal", "two ranks at the same position"
            if coords != ri:
                return "wrong", "rank indices %s were set, %s are used" % (ri, coords)
        size = [list(v[3]) for v in vals]
        tot = list(g)
        for d in range(nd):
            lines = {}
            for r, c in enumerate(coords):
                lines.setdefault(tuple(c[:d] + c[d + 1:]), []).append(r)
            for L in lines.values():
                z = [not vals[r][3][d] for r in L]
                if any(z) and not all(z):
                    return "illegal", "local size given on some ranks only"
                if all(z):
                    k = up(-(-g[d] // layout[d]), fold[dims[d]])
                    last = g[d] - k * (layout[d] - 1)
                    if last <= 0:
                        return "illegal", "overall size too small"
                    for r in L:
                        size[r][d] = last if coords[r][d] == layout[d] - 1 else k
            sums = {sum(size[r][d] for r in L) for L in lines.values()}
            if len(sums) > 1 or g[d] and sums != {g[d]}:
                return "illegal", "sum of local sizes"
            tot[d] = sums.pop()
            for x in range(layout[d]):
                if len({size[r][d] for r in range(n) if coords[r][d] == x}) > 1:
                    return "illegal", "unaligned"
        return "legal", size, tot

    # ---- running
    def lines(self, dims, proc):
        L, marks = [], []
        n = proc["n"]
        for j, t in enumerate(proc["trials"]):
            again = j and t["again"]
            if not again:
                L += ["soln S"]
            else:
                L += ["end S"]      # Releases the storage, whose sizes could not be changed otherwise.
            full = again or None
            for r in range(n):
                nr, g, ri, l = self.values(t, n, r)
                pre = "ifrank %d " % r if n > 1 else ""
                api = t["api"]
                for what, o, v in (("num_ranks", "nr", nr), ("overall_domain_size", "g", g), ("rank_index", "ri", ri), ("rank_domain_size", "l", l)):
                    how = api if api != "mix" else ["opt", "set", "setv"][(len(what) + j) % 3]
                    if not any(v) and not full:
                        continue
                    if how == "opt":
                        L.append(pre + 'opts S "%s"' % " ".join("-%s%s %d" % (o, d, x) for d, x in zip(dims, v)))
                    elif how == "set":
                        L += [pre + "set S %s %s %d" % (what, d, x) for d, x in zip(dims, v)]
                    else:
                        L.append(pre + "setv S %s %s" % (what, ",".join(map(str, v))))
            L.append("prepare S")
            p = len(L)
            L += ["geom S", "vgeo S A"]
            if t["exch"]:
                L += ["vall S A 1.5", "run S 0 1"]
            marks.append(p)
        return L, marks

    def run_case(self, case):
        dims, fold = case["dims"], case["fold"]
        cf = "%s/code%d.hpp" % (self.base.dir, self.base.uid())
        rc, out = self.base.mkstencil(self.spec(case) + "\n(out %s %s)\n" % ("avx2" if case["simd"] else "intel64", cf))
        if rc:
            raise Fail("rejected", "compiler: %s" % out[-500:])
        try:
            exe = self.base.kernel(open(cf).read(), "s", "avx2" if case["simd"] else "intel64", 8)
        except build.BuildError as e:
            raise Fail("build", str(e)[-800:])
        keys, labels, nt = [], [], 0
        try:
            for i, proc in enumerate(case["procs"]):
                try:
                    for _ in range(case.get("repeat", 1)):
                        res = self.one(exe, dims, fold, proc)
                except Fail as f:
                    f.run = i
                    raise
                for j, x in enumerate(res):
                    labels.append(x)
                    nt += 1
                    if x != "refused-size":
                        keys.append(sc.hashlib.sha1(json.dumps([dims, fold, proc["n"], proc["trials"][j]]).encode()).hexdigest()[:12])
        finally:
            self.base.drop(exe)
        return dict(keys=keys, nontrivial=bool(keys), evals=nt, labels=labels + ["%dD" % len(dims)])

    def one(self, exe, dims, fold, proc):
        n = proc["n"]
        L, marks = self.lines(dims, proc)
        r = build.run_script(self.base, exe, L, ranks=n, threads=1, timeout=60, env={"YV_ABORT": "1"} if n > 1 else None)
        shutil.rmtree(r.wd, ignore_errors=True)
        R = [r.res(k) for k in range(n)]
        out = []
        for j, (t, p) in enumerate(zip(proc["trials"], marks)):
            what = "%d ranks, dims %s, folds %s, settings %s" % (n, dims, fold, json.dumps(t))
            end = marks[j + 1] if j + 1 < len(marks) else len(L)
            ex = [(k, L[ln - 1], R[k][ln][1]) for k in range(n) for ln in range(marks[j - 1] + 1 if j else 1, min(end, p + 4) + 1) if ln in R[k] and R[k][ln][0] != "ok" and
                  (ln <= p or not L[ln - 1].startswith(("soln", "opts", "set", "ifrank")))]
            m = self.model(dims, fold, n, t)
            done = [k for k in range(n) if R[k].get(p, ("",))[0] == "ok"]
            if m[0] == "illegal":
                if done:
                    raise Fail("accepted", "%s is illegal (%s), but was prepared on ranks %s: geometry %s" % (what, m[1], done, [R[k].get(p + 1) for k in done]))
                if not ex:
                    raise Fail("hang" if r.timeout else "crash", "%s is illegal (%s), but there is no exception; exit %s %s" % (what, m[1], r.rc, r.log[-500:]))
                out.append("illegal: " + m[1])
                return out      # The process ends with the first exception.
            if ex:
                if any("is less than minimum size" in x[2] for x in ex):
                    return out + ["refused-size"]
                if m[1] is None and any("not large enough to split" in x[2] for x in ex):
                    return out + ["refused-size"]
                raise Fail("refused", "%s is legal, but: rank %d '%s': %s" % (what, ex[0][0], ex[0][1], ex[0][2][:400]))
            if len(done) != n:
                raise Fail("hang" if r.timeout else "crash", "%s: prepared on ranks %s only; exit %s %s" % (what, done, r.rc, r.log[-500:]))
            G = []
            for k in range(n):
                if R[k].get(p + 1, ("",))[0] != "ok":
                    raise Fail("crash", "%s: no geometry on rank %d; exit %s %s" % (what, k, r.rc, r.log[-400:]))
                G.append([[int(i) for i in y.split(",")] for y in R[k][p + 1][1].split()])
            lay, co = G[0][4], [g[5] for g in G]
            if any(g[4] != lay or g[0] != G[0][0] for g in G):
                raise Fail("partition", "%s: ranks differ in overall size or layout: %s" % (what, G))
            if self.prod(lay) != n or any(a and a != b for a, b in zip(t["nr"], lay)):
                raise Fail("partition", "%s: layout %s" % (what, lay))
            if len(set(map(tuple, co))) != n or any(not 0 <= x < lay[d] for c in co for d, x in enumerate(c)):
                raise Fail("partition", "%s: rank positions %s in layout %s" % (what, co, lay))
            m = self.model(dims, fold, n, t, lay, co)
            if m[0] != "legal":
                raise Fail("partition", "%s: %s: %s" % (what, m[0], m[1]))
            for k, g in enumerate(G):
                off = [sum({co[q][d]: G[q][1][d] for q in range(n)}[x] for x in range(co[k][d])) for d in range(len(dims))]
                if g[1] != m[1][k] or g[0] != m[2]:
                    raise Fail("partition", "%s: rank %d at %s has size %s of %s, expected %s of %s" % (what, k, co[k], g[1], g[0], m[1][k], m[2]))
                if g[2] != off or g[3] != [a + b - 1 for a, b in zip(off, g[1])]:
                    raise Fail("partition", "%s: rank %d at %s has indices %s..%s, expected to start at %s with size %s" % (what, k, co[k], g[2], g[3], off, g[1]))
                v = dict(x.split("=") for x in R[k].get(p + 2, ("", ""))[1].split("|")[1].split())
                if [int(x) for x in v["first_rank_domain_index"].split(",")] != g[2] or [int(x) for x in v["last_rank_domain_index"].split(",")] != g[3]:
                    raise Fail("partition", "%s: rank %d: var covers %s..%s, solution %s..%s" % (what, k, v["first_rank_domain_index"], v["last_rank_domain_index"], g[2], g[3]))
            out.append("prepared on %d ranks" % n)
        if not r.ok:
            raise Fail("hang" if r.timeout else "crash", "%d ranks, dims %s, folds %s, trials %s: exit %s %s" % (n, dims, fold, json.dumps(proc["trials"]), r.rc, r.log[-500:]))
        return out

    def candidates(self, case, fail):
        i = getattr(fail, "run", None)
        if i is not None and len(case["procs"]) > 1:
            yield dict(case, procs=[case["procs"][i]])
            return
        p = case["procs"][0]
        for j in range(len(p["trials"])):
            if len(p["trials"]) > 1:
                yield dict(case, procs=[dict(p, trials=p["trials"][:j] + p["trials"][j + 1:])])
        for j, t in enumerate(p["trials"]):
            def mod(**kw):
                return dict(case, procs=[dict(p, trials=p["trials"][:j] + [dict(t, **kw)] + p["trials"][j + 1:])])
            for key in ("exch", "again"):
                if t[key]:
                    yield mod(**{key: False})
            if t["ri"]:
                yield mod(ri=None)
            if t["api"] != "opt":
                yield mod(api="opt")
            for d in range(len(t["g"])):
                if t["g"][d] != 40:
                    yield mod(g=t["g"][:d] + [40] + t["g"][d + 1:], l=[q[:d] + [0] + q[d + 1:] for q in t["l"]])

    def sample(self, case):
        return dict(dims=case["dims"], fold=case["fold"], first=case["procs"][0])
