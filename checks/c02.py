"""C02: performance settings never change results."""
from yv import speccheck as sc
from .common import SpecCheck


class C02(SpecCheck):
    ID = "C02"
    NCFG = dict(quick=4, thorough=20)
    NPROG = dict(quick=18, thorough=170)
    NRUNS = 14
    RULE = SpecCheck.RULE + "; each program is run with 14 settings (28 thorough) on the same data and steps"

    def gen_kw(self, i):
        kw = [dict(pscratch=.7), dict(pstage=.9, nvars=3, maxeq=5), dict(maxrad=4, pcond=.1), dict(pdepth2=.6), dict(nvars=1, maxeq=1, pscratch=.2), dict(maxrad=1)][i % 6]
        return dict(kw, target="avx2", pnonlin=.05, pscond=.1)

    def cfg_kw(self, i):
        return dict(target="avx2", elem=[8, 4, 8, 8][i % 4], ndims=[1, 2, 3, 2][i % 4])

    def runs(self, rng, sp):
        nd = len(sp["dims"])
        out = []
        for g in range(2):
            big = rng.random() < .7
            sizes = sc.gen_sizes(rng, sp, lo={1: 20, 2: 9, 3: 5}[nd] if big else 1, hi={1: 120, 2: 34, 3: 15}[nd])
            seed = rng.randint(1, 1 << 30)
            calls = sc.gen_calls(rng, sp, maxsteps=7, minsteps=2 if big else 1, t0=rng.choice([0, 0, 1, -3]))
            for k in range((self.NRUNS if self.quick else 2 * self.NRUNS) // 2):
                ko = " ".join(x for x in (sc.gen_tiles(rng, sp, sizes, temporal=.65, p=.7), sc.gen_threads(rng), sc.gen_misc(rng, sp)) if x) if k else ""
                out.append(dict(sizes=sizes, seed=seed, calls=calls, kopts=ko, threads=rng.choice([1, 2, 3, 4, 6])))
        return out
