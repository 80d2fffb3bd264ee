"""C03: the MPI decomposition never changes results."""
from yv import speccheck as sc
from .common import SpecCheck, Fail


def factor(rng, n, k):
    """n as a product of k factors, random."""
    f = [1] * k
    p = 2
    while n > 1:
        while n % p == 0:
            f[rng.randrange(k)] *= p
            n //= p
        p += 1
    return f


class C03(SpecCheck):
    ID = "C03"
    NCFG = dict(quick=4, thorough=20)
    NPROG = dict(quick=16, thorough=160)
    NRUNS = 9
    WORKERS = 7
    RULE = SpecCheck.RULE + "; runs with at least 2 ranks; a run whose sizes are refused because a rank is smaller than its halo or wave-front extension is not counted"

    def gen_kw(self, i):
        kw = [dict(pscratch=.6), dict(pstage=.9, nvars=3, maxeq=4), dict(maxrad=2, pcond=.4), dict(pmisc=.7), dict(nvars=1, maxeq=1, pscratch=.1, maxrad=4), dict(pdepth2=.6)][i % 6]
        return dict(kw, target="avx2", pnonlin=.05, pscond=.15)

    def cfg_kw(self, i):
        return dict(target="avx2", elem=[8, 8, 4, 8][i % 4], ndims=[1, 2, 3, 2][i % 4])

    def one_run(self, rng, sp, k):
        nd = len(sp["dims"])
        nr = rng.choice([2, 2, 3, 4, 4, 6])
        fac = factor(rng, nr, nd)
        lo = {1: 6, 2: 4, 3: 3}[nd]
        per = {1: 40, 2: 16, 3: 9}[nd]
        temporal = rng.random() < .35
        if temporal:
            lo, per = {1: 30, 2: 20, 3: 12}[nd], {1: 60, 2: 30, 3: 16}[nd]
            nr = min(nr, 4)
            fac = factor(rng, nr, nd)
        sizes, o = {}, []
        nrs = rng.random() < .75
        for d, f in zip(sp["dims"], fac):
            if rng.random() < .5:
                l = rng.randint(lo, per)
                sizes[d] = l * f
                if nrs and rng.random() < .4:
                    o.append("-l%s %d" % (d, l))        # Local size given as well: consistent.
            else:
                sizes[d] = rng.randint(lo * f, per * f)
        if nrs:
            o.append(" ".join("-nr%s %d" % (d, f) for d, f in zip(sp["dims"], fac)))
        for b in ("use_shm", "overlap_comms", "force_scalar_exchange", "bundle_allocs"):
            if rng.random() < .45:
                o.append("-%s%s" % (rng.choice(["", "no-"]), b))
        if rng.random() < .25:
            o.append("-min_exterior %d" % rng.choice([0, 1, 4, 8]))
        if temporal:
            o.append("-Mbt %d" % rng.choice([2, 2, 3]))
            if rng.random() < .5:
                o.append("-bt 2")
        o.append(sc.gen_tiles(rng, sp, sizes, temporal=0, p=.35))
        o.append(sc.gen_misc(rng, sp, .15))
        return dict(sizes=sizes, seed=rng.randint(1, 1 << 30), ranks=nr, threads=rng.choice([1, 1, 2]), kopts=" ".join(x for x in o if x),
                    calls=sc.gen_calls(rng, sp, maxsteps=4, split=.3), poison=1)

    def labels_of(self, case, st):
        return SpecCheck.labels_of(self, case, st) + ["%dranks" % r["ranks"] for r in case["runs"]]
