"""C01: a run computes exactly what the equations say."""
import re
from yv import spec as specmod, speccheck as sc
from .common import SpecCheck, Fail


class C01(SpecCheck):
    ID = "C01"
    NCFG = dict(quick=4, thorough=30)
    NPROG = dict(quick=28, thorough=420)

    def gen_kw(self, i):
        # Wide mix; a share with transcendental functions, deeper history and many equations.
        kw = [dict(), dict(pnonlin=.6), dict(maxeq=6, pstage=.8, nvars=3), dict(pdepth2=.7), dict(pscratch=.8, minscratch=1), dict(plet=.7)][i % 6]
        return dict(kw, target="avx2")

    def cfg_kw(self, i):
        return dict(target="avx2", elem=[8, 4, 8, 8, 4, 8][i % 6], ndims=[2, 3, 1, 3, 2, 1][i % 6])

    def runs(self, rng, sp):
        out = []
        for k in range(self.NRUNS):
            r = self.one_run(rng, sp, k)
            if k == 0:
                r["kopts"] = ""
            out.append(r)
        return out

    def probes(self):
        def index_value():
            sp = dict(name="s", step="t", dims=["x"], setdims=["x"], vars=[dict(name="A", dims=["t", "x"], mode=0)],
                      eqs=[dict(l=["p", "A", ["+", "t", 1], "x"], r=["+", ["p", "A", "t", "x"], "x"])], lets={}, elem=8, opts="-fold x=4")
            sc.eval_case(self.base, dict(spec=sp, runs=[dict(sizes={"x": 16}, seed=5, calls=[[0, 0]], threads=1)]))
        return {"index-as-value": index_value}
