"""Shared parts of the checks that run generated stencil programs."""
from yv import build, ref, spec as specmod, speccheck as sc
from yv.framework import Check
from yv.speccheck import Fail

INTERP = ("the interpreter in yv/ref.py states the meaning of a program; values are compared within an error bound that it "
          "propagates for every point, so that legal reassociation and contraction are tolerated")


def nontriv(st):
    """At least one run updated points and its tolerance is small enough to tell values apart."""
    return any(s["informative"] for s in st)


class SpecCheck(Check):
    """cases() come from a pool of kernel configurations, each used for several programs (their kernels share objects)."""
    RULE = ("a program counts as non-trivial if at least one of its runs wrote points of a non-scratch var and the tolerance of "
            "the comparison was below 1% of the largest magnitude; distinct by program and run configuration")
    ASSUME = [INTERP, "g++ -O0 code generation is trusted"]
    NCFG = dict(quick=4, thorough=24)
    NPROG = dict(quick=24, thorough=400)
    NRUNS = 5
    TAG = "s"
    STENCILS = False

    def setup(self):
        self.base = build.Base(self.ID)
        self.base.prepare(stencils=self.STENCILS)

    def gen_kw(self, i):
        return {}

    def cfg_kw(self, i):
        return self.gen_kw(i)

    def cfg(self, i):
        k = i % self.NCFG[self.tier]
        r = self.rng("cfg", k)
        return specmod.Gen(r, **self.cfg_kw(k)).config()

    def program(self, i, rng):
        return specmod.Gen(rng, **self.gen_kw(i)).make(self.cfg(i))

    def one_run(self, rng, sp, k):
        sizes = sc.gen_sizes(rng, sp)
        return dict(sizes=sizes, seed=rng.randint(1, 1 << 30), threads=rng.choice([1, 2, 3, 4]),
                    kopts=" ".join(x for x in (sc.gen_tiles(rng, sp, sizes), sc.gen_threads(rng), sc.gen_misc(rng, sp)) if x),
                    calls=sc.gen_calls(rng, sp, t0=rng.choice([0, 0, 0, 3, -2])))

    def runs(self, rng, sp):
        return [self.one_run(rng, sp, k) for k in range(self.NRUNS)]

    def cases(self):
        for i in range(self.NPROG[self.tier]):
            rng = self.rng("prog", i)
            sp = self.program(i, rng)
            yield dict(spec=sp, runs=self.runs(rng, sp))

    def labels_of(self, case, st):
        sp = case["spec"]
        L = ["%dD" % len(sp["dims"]), "elem%d" % sp.get("elem", 4), "target:" + sp.get("target", "avx2")]
        if any(v.get("scratch") for v in sp["vars"]):
            L.append("scratch")
        if any(q.get("d") for q in sp["eqs"]):
            L.append("domain-cond")
        if any(q.get("s") for q in sp["eqs"]):
            L.append("step-cond")
        if sp.get("misc"):
            L.append("misc-dim")
        if sp.get("dir", 1) < 0:
            L.append("reverse-step")
        if len(sp["eqs"]) > 2:
            L.append("3+equations")
        if any(r.get("ranks", 1) > 1 for r in case["runs"]):
            L.append("MPI")
        if any("-Mbt" in r.get("kopts", "") or "-bt" in r.get("kopts", "") for r in case["runs"]):
            L.append("temporal-tiles")
        if any("-fold" in sp.get("opts", "") for _ in [0]):
            L.append("folded")
        return L

    def evalc(self, case):
        return sc.eval_case(self.base, case, allow_new=getattr(self, "ALLOW_NEW", 0))

    def run_case(self, case):
        st = self.evalc(case)
        ref = sum(1 for x in st if x.get("refused"))
        return dict(nontrivial=nontriv(st), evals=len(st) - ref, labels=self.labels_of(case, st) + ["refused-sizes"] * ref)

    def candidates(self, case, fail):
        return sc.case_candidates(case, fail)

    def sample(self, case):
        return dict(program=specmod.to_text(case["spec"])[:1500], runs=case["runs"][:2])
