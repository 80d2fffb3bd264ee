"""C04: code-generation choices never change meaning."""
from yv import build, spec as specmod, speccheck as sc
from .common import SpecCheck


class C04(SpecCheck):
    ID = "C04"
    NPROG = dict(quick=4, thorough=26)
    NVAR = dict(quick=8, thorough=16)
    RULE = ("one program under one set of code-generation choices, run at least once with points written and a tolerance below 1% of "
            "the data's magnitude; distinct by program and choices")

    def gen_kw(self, i):
        kw = [dict(pscratch=.8, ndims=2), dict(ndims=3, pmisc=.8), dict(ndims=1, pstage=.9, nvars=3), dict(ndims=3, pcond=.6), dict(ndims=2, plet=.9, pnonlin=.3), dict(ndims=2, pdepth2=.7, pmisc=.6)][i % 6]
        return dict(dict(pnonlin=.1), **kw)

    def variant(self, rng, sp, k):
        g = specmod.Gen(rng, target=rng.choice(self.targets), pfold=.9, popts=1)
        v = dict(sp)
        v["elem"] = rng.choice([8, 8, 4])
        v["target"] = g.f["target"]
        sd = list(sp["dims"])
        rng.shuffle(sd)
        v["setdims"] = sd if rng.random() < .6 else sp["setdims"]
        g.s = dict(v)
        o = [g.cfgopts(), g.mkopts()]
        if rng.random() < .25:
            sd2 = list(sp["dims"])
            rng.shuffle(sd2)
            o.append("-domain-dims " + ",".join(sd2))
        v["opts"] = " ".join(x for x in o if x)
        return v

    def cases(self):
        self.targets = build.targets_here()
        np_, nv = self.NPROG[self.tier], self.NVAR[self.tier]
        # Variants of all programs interleaved, so that whatever time allows covers all programs.
        progs = []
        for i in range(np_):
            rng = self.rng("prog", i)
            sp = specmod.Gen(rng, **dict(self.gen_kw(i), opts="", elem=8, target="avx2")).make()
            progs.append((sp, [self.one_run(rng, sp, k) for k in range(4)]))
        for k in range(nv):
            for i, (sp, runs) in enumerate(progs):
                rng = self.rng("var", i, k)
                yield dict(spec=self.variant(rng, sp, k) if k else sp, runs=runs)

    def labels_of(self, case, st):
        L = SpecCheck.labels_of(self, case, st)
        for w in ("-no-opt-cse", "-max-es", "-min-buffer-len", "-use-ptrs", "-no-use-ptrs", "-inner-loop-dim", "-first-inner", "-no-first-inner",
                  "-no-bundle", "-early-loads", "-outer-domain-layout", "-inner-misc-layout", "-domain-dims"):
            if w in case["spec"].get("opts", ""):
                L.append("opt:" + w)
        return L
