"""C13: halo data seen by each rank is never stale."""
from yv import speccheck as sc
from .common import SpecCheck
from .c03 import C03
from .c06 import C06


class C13(C03):
    ID = "C13"
    NCFG = dict(quick=4, thorough=20)
    NPROG = dict(quick=14, thorough=160)
    NRUNS = 9
    RULE = ("a history = element writes by the owning ranks (or by all that hold the elements), explicit exchanges and runs, in any order, on 2-6 MPI ranks whose "
            "halos start out poisoned; non-trivial if it has a write or exchange besides the runs, points were written and the tolerance was below 1%; distinct by program and history")

    def gen_kw(self, i):
        kw = [dict(pscratch=.6), dict(pstage=.9, nvars=3, maxeq=4), dict(maxrad=2, pcond=.4), dict(pmisc=.7), dict(nvars=1, maxeq=1, pscratch=.1, maxrad=4), dict(pdepth2=.7)][i % 6]
        return dict(kw, target="avx2", pnonlin=.02, pscond=.25)

    def one_run(self, rng, sp, k):
        r = C03.one_run(self, rng, sp, k)
        t0 = rng.choice([0, 0, 0, 2, -3])
        calls = sc.gen_calls(rng, sp, maxsteps=6, minsteps=2, split=.6, t0=t0)
        if k == 0:
            calls = calls[:1]
        dep = sc.depth_of(sp)
        out = []

        def extra(tlast, started, n):
            for _ in range(n):
                if rng.random() < .3:
                    out.append(dict(op="exch"))
                    continue
                p = sc.gen_poke(rng, sp, r, tlast, dep, who=rng.choice(["vown", "vown", "vallr"]))
                if not p:
                    continue
                if rng.random() < .5:       # Somewhere next to the border between two ranks, most likely.
                    dims = [v["dims"] for v in sp["vars"] if v["name"] == p["v"]][0]
                    d = rng.choice(sp["dims"])
                    if d in dims:
                        j = dims.index(d)
                        c = min(max(r["sizes"][d] // 2 + rng.randint(-3, 3), 0), r["sizes"][d] - 1)
                        p["f"][j], p["l"][j] = c, min(c + rng.choice([0, 0, 1]), r["sizes"][d] - 1)
                if started:
                    if not C06.valid_step(sp, calls[0][0], p):
                        continue
                else:       # Before the first run: the steps of the initial window are 0 and up.
                    dims = [v["dims"] for v in sp["vars"] if v["name"] == p["v"]][0]
                    if sp["step"] in dims:
                        j = dims.index(sp["step"])
                        p["f"][j] = p["l"][j] = 0
                out.append(p)
        extra(0, False, rng.choice([0, 1, 3]))
        for c in calls:
            out.append(c)
            extra(c[1] + sp["dir"], True, rng.choice([0, 1, 2, 3]))
        if rng.random() < .8:
            out.append(dict(op="exch"))
            r["fresh"] = 1
        r["calls"] = out
        return r

    def run_case(self, case):
        sp = case["spec"]
        st = self.evalc(case)
        keys = [sc.hashlib.sha1((repr(r) + repr(sp)).encode()).hexdigest()[:12] for r, s in zip(case["runs"], st)
                if s["informative"] and any(isinstance(c, dict) for c in r["calls"])]
        ref = sum(1 for x in st if x.get("refused"))
        return dict(nontrivial=bool(keys), keys=keys, evals=len(st) - ref, labels=self.labels_of(case, st) + ["refused-sizes"] * ref
                    + ["fresh-halo-compare" for r in case["runs"] if r.get("fresh")])

    def candidates(self, case, fail):
        if len(case["runs"]) == 1:
            r = case["runs"][0]
            for i, c in enumerate(r["calls"]):
                if isinstance(c, dict) and not (r.get("fresh") and i == len(r["calls"]) - 1):
                    yield dict(case, runs=[dict(r, calls=r["calls"][:i] + r["calls"][i + 1:])])
        for c in sc.case_candidates(case, fail):
            names = {v["name"]: v["dims"] for v in c["spec"]["vars"]}
            ok = True
            for r in c["runs"]:
                for x in r["calls"]:
                    if isinstance(x, dict) and "v" in x and (x["v"] not in names or any(d in r["sizes"] and b >= r["sizes"][d] for d, b in zip(names[x["v"]], x["l"]))):
                        ok = False
                if r.get("ranks", 1) < 2 or r["calls"] and r.get("fresh") and r["calls"][-1] != dict(op="exch"):
                    ok = False
            if ok:
                yield c
