"""C05: conditions gate exactly the selected elements."""
from yv import speccheck as sc
from .common import SpecCheck


class C05(SpecCheck):
    ID = "C05"
    NCFG = dict(quick=4, thorough=20)
    NPROG = dict(quick=22, thorough=220)
    NRUNS = 6
    WORKERS = 7
    RULE = SpecCheck.RULE + "; every program has at least one domain condition and every other one a step condition; all elements incl. padding are compared"

    def gen_kw(self, i):
        return dict(mincond=1 + i % 3, minscond=i % 2, pcond=.7, pscond=.4, maxeq=5, target="avx2", pnonlin=.03, pscratch=.35)

    def cfg_kw(self, i):
        return dict(target="avx2", elem=[8, 4, 8, 8][i % 4], ndims=[1, 2, 3, 2][i % 4])

    def one_run(self, rng, sp, k):
        r = SpecCheck.one_run(self, rng, sp, k)
        if k == self.NRUNS - 1:
            r.update(ranks=rng.choice([2, 3, 4]), poison=1, threads=1, kopts="", sizes=sc.gen_sizes(rng, sp, lo={1: 24, 2: 16, 3: 13}[len(sp["dims"])], hi={1: 90, 2: 32, 3: 18}[len(sp["dims"])]))
        if k == 0:
            r["calls"] = sc.gen_calls(rng, sp, maxsteps=7, minsteps=4)
        return r

    def cases(self):
        for c in SpecCheck.cases(self):
            c["check_halo"] = "pad"
            yield c
