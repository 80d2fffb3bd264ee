"""C12: scratch vars are transparent."""
from yv import speccheck as sc
from .common import SpecCheck


class C12(SpecCheck):
    ID = "C12"
    NCFG = dict(quick=4, thorough=20)
    NPROG = dict(quick=20, thorough=200)
    NRUNS = 7
    WORKERS = 7
    RULE = SpecCheck.RULE + "; every program reads at least one scratch var; the reference has no scratch storage but substitutes the defining expression at each use"

    def gen_kw(self, i):
        return dict(minscratch=1 + i % 3, pscratch=1, maxeq=4, target="avx2", pnonlin=.05, pmisc=[.1, .6][i % 2], pcond=.3, maxrad=[2, 3, 4][i % 3], nvars=[1, 2][i % 2])

    def cfg_kw(self, i):
        return dict(target="avx2", elem=[8, 8, 4, 8][i % 4], ndims=[1, 2, 3, 2][i % 4], pmisc=.5)

    def program(self, i, rng):
        for _ in range(12):
            sp = SpecCheck.program(self, i, rng)
            if any(v.get("scratch") for v in sp["vars"]):
                break
        return sp

    def one_run(self, rng, sp, k):
        r = SpecCheck.one_run(self, rng, sp, k)
        if k == self.NRUNS - 1:
            r.update(ranks=rng.choice([2, 3, 4]), poison=1, threads=1, kopts=rng.choice(["", "-no-overlap_comms", "-force_scalar_exchange"]), sizes=sc.gen_sizes(rng, sp, lo={1: 44, 2: 36, 3: 26}[len(sp["dims"])], hi={1: 90, 2: 40, 3: 28}[len(sp["dims"])]),
                     calls=sc.gen_calls(rng, sp, maxsteps=2))
        if rng.random() < .3:
            r["kopts"] += " -%sinit_scratch_vars" % rng.choice(["", "no-"])
        return r
