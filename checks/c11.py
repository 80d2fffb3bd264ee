"""C11: equation order is irrelevant; illegal programs are rejected."""
import copy
from yv import speccheck as sc, spec as specmod, ref
from yv.spec import IX
from .common import SpecCheck, Fail


class C11(SpecCheck):
    ID = "C11"
    NCFG = dict(quick=4, thorough=20)
    NPROG = dict(quick=22, thorough=220)
    NRUNS = 3
    WORKERS = 8
    NMUT = dict(quick=12, thorough=12)
    RULE = ("a program counts as non-trivial if its equations depend on each other within the step, they were added in an order other than the generated one and its runs wrote points "
            "with a tolerance below 1%; a mutant counts if its unmutated program is accepted; distinct by program, order and runs, or by mutant")
    ASSUME = SpecCheck.ASSUME + ["mutants are illegal by the rules in the YASK documentation and in the property's statement"]

    def gen_kw(self, i):
        kw = [dict(pstage=1, nvars=3, pscratch=.5), dict(pstage=.9, nvars=3, minscratch=2), dict(pstage=1, nvars=4, pcond=.5), dict(pstage=.8, nvars=2, minscratch=3, pcond=.2)][i % 4]
        return dict(kw, target="avx2", pnonlin=.03, pscond=.15, pmisc=.3, maxeq=6)

    def cfg_kw(self, i):
        return dict(target="avx2", elem=[8, 8, 4, 8][i % 4], ndims=[1, 2, 2, 3][i % 4])

    def one_run(self, rng, sp, k):
        return dict(SpecCheck.one_run(self, rng, sp, k), threads=rng.choice([1, 2]))

    def cases(self):
        for i in range(self.NPROG[self.tier]):
            rng = self.rng("prog", i)
            sp = None
            for _ in range(10):
                sp = self.program(i, rng)
                if len(sp["eqs"]) > 1 and self.dependent(sp):
                    break
            perms = []
            for _ in range(self.n(10, 20)):
                p = list(range(len(sp["eqs"])))
                rng.shuffle(p)
                perms.append(p)
            perms.append(list(reversed(range(len(sp["eqs"])))))
            sp["eqorder"] = perms[-1] if rng.random() < .5 else perms[0]
            yield dict(kind="order", spec=sp, runs=self.runs(rng, sp), perms=perms)
        for i in range(self.n(160, 1600)):
            rng = self.rng("mut", i)
            sp = specmod.Gen(rng, target="avx2", pnonlin=.03, pmisc=.5, maxeq=4, pstage=.6, pcond=.3, pscond=.2, pdepth2=.4, pscratch=.6).make()
            muts = []
            for kind in rng.sample(MUT, self.NMUT[self.tier]):
                m = kind(rng, copy.deepcopy(sp))
                if m is not None:
                    muts.append([kind.__name__, m])
            yield dict(kind="illegal", spec=sp, muts=muts)

    @staticmethod
    def dependent(sp):
        w = {(q["l"][1]) for q in sp["eqs"]}
        for q in sp["eqs"]:
            for x in ref.walk(q["r"]):
                if isinstance(x, (list, tuple)) and x and x[0] == "p" and x[1] in w:
                    d = [v["dims"] for v in sp["vars"] if v["name"] == x[1]][0]
                    if sp["step"] not in d or ref.offset_of(x[2 + d.index(sp["step"])])[1] == sp["dir"]:
                        return True
        return False

    def run_case(self, case):
        if case["kind"] == "order":
            sp = case["spec"]
            for p in case["perms"]:
                if self.compiles(dict(sp, eqorder=p)):
                    raise Fail("rejected-order", "a legal program is rejected when its equations are added in the order %s: %s" % (p, self.out))
            st = self.evalc(case)
            ok = any(s["informative"] for s in st) and self.dependent(sp) and sp.get("eqorder") != list(range(len(sp["eqs"])))
            return dict(nontrivial=ok, evals=len(st) + len(case["perms"]), labels=self.labels_of(case, st) + ["reordered"])
        if self.compiles(case["spec"]):
            raise Fail("rejected", "a legal program is rejected: " + self.out)
        lab, keys = [], []
        for i, (k, m) in enumerate(case["muts"]):
            rc = self.compiles(m)
            if rc == 0:
                f = Fail("accepted:" + k, "an illegal program (%s) is accepted:\n%s" % (k, specmod.to_text(m)))
                f.run = i
                raise f
            if rc != 3:
                f = Fail("compiler-crash", "an illegal program (%s) ends the compiler with code %s instead of an exception: %s" % (k, rc, self.out))
                f.run = i
                raise f
            lab.append("rejected:" + k)
            keys.append(sc.hashlib.sha1(repr(m).encode()).hexdigest()[:12])
        return dict(nontrivial=bool(keys), keys=keys, evals=len(keys) + 1, labels=lab)

    def compiles(self, sp):
        cf = "%s/m%d.hpp" % (self.base.dir, self.base.uid())
        rc, out = self.base.mkstencil(specmod.to_text(sp, out=cf))
        self.out = out[-400:].strip()
        if not self.base.keep:
            try:
                sc.os.unlink(cf)
            except OSError:
                pass
        return rc

    def candidates(self, case, fail):
        if case["kind"] == "illegal":
            if len(case["muts"]) > 1:
                yield dict(case, muts=[case["muts"][fail.run]] if getattr(fail, "run", None) is not None else [])
                return
            if case["muts"]:
                k, m = case["muts"][0]
                for s in sc.spec_candidates(m):
                    if self.still(m, s):
                        yield dict(case, muts=[[k, s]])
            return
        for c in sc.case_candidates(case, fail):
            s = c["spec"]
            if len(s["eqs"]) == len(case["spec"]["eqs"]):
                s = dict(s, eqorder=case["spec"].get("eqorder"))
                yield dict(c, spec=s, perms=case["perms"])
            elif len(s["eqs"]) > 1:
                yield dict(c, spec=dict(s, eqorder=list(reversed(range(len(s["eqs"]))))), perms=[])

    def still(self, m, s):
        """Equations that were mutated are kept as they are, so that the program stays illegal."""
        a = {q["mut"]: q for q in m["eqs"] if "mut" in q}
        b = {q["mut"]: q for q in s["eqs"] if "mut" in q}
        return a == b and bool(a) and all(x in s.get("lets", {}) for x in m.get("lets", {}))

    def sample(self, case):
        if case["kind"] == "illegal":
            return dict(mutation=case["muts"][0][0] if case["muts"] else None, program=specmod.to_text(case["muts"][0][1])[:1200] if case["muts"] else None)
        return dict(program=specmod.to_text(case["spec"])[:1500], runs=case["runs"][:1])


# ---------------------------------------------------------------- mutations: each returns an illegal program, or None if it does not apply
def state_eqs(sp):
    sc_ = {v["name"] for v in sp["vars"] if v.get("scratch")}
    return [i for i, q in enumerate(sp["eqs"]) if q["l"][1] not in sc_]


def scratch_eqs(sp):
    s = state_eqs(sp)
    return [i for i in range(len(sp["eqs"])) if i not in s]


def dims(sp, n):
    return [v["dims"] for v in sp["vars"] if v["name"] == n][0]


def set_arg(sp, p, d, val):
    p = list(p)
    p[2 + dims(sp, p[1]).index(d)] = val
    return p


def mark(sp, *eqs):
    sp["marks"] = []
    for k, i in enumerate(eqs):
        sp["eqs"][i]["mut"] = k
        sp["marks"].append(k)
    return sp


def rnd_off(rng, sp, p):
    """The point with random domain offsets."""
    for d in dims(sp, p[1]):
        if d in sp["dims"]:
            p = set_arg(sp, p, d, IX(d, rng.randint(-2, 2)))
    return p


def addto(rng, sp, i, p):
    q = sp["eqs"][i]
    q["r"] = rng.choice([["+", q["r"], p], ["-", p, q["r"]], ["+", ["*", q["r"], 0.5], ["*", p, 2]], ["/", q["r"], ["+", ["*", p, p], 1]]])


def uncond(sp, i):
    sp["eqs"][i].pop("d", None)
    sp["eqs"][i].pop("s", None)


def only_lhs(sp, i):
    """No other equation may write the same var at the same misc indices."""
    return sum(1 for q in sp["eqs"] if q["l"] == sp["eqs"][i]["l"]) == 1


def self_cycle(rng, sp):
    c = [i for i in state_eqs(sp) if only_lhs(sp, i)]
    if not c:
        return None
    i = rng.choice(c)
    uncond(sp, i)
    p = sp["eqs"][i]["l"]
    addto(rng, sp, i, rnd_off(rng, sp, p))
    return mark(sp, i)


def two_cycle(rng, sp):
    c = [i for i in state_eqs(sp) if only_lhs(sp, i)]
    if len(c) < 2:
        return None
    i, j = rng.sample(c, 2)
    for a, b in ((i, j), (j, i)):
        uncond(sp, a)
        addto(rng, sp, a, rnd_off(rng, sp, sp["eqs"][b]["l"]))
    return mark(sp, i, j)


def scratch_cycle(rng, sp):
    """A(t+1) reads scratch s, which reads A(t+1)."""
    a = [i for i in state_eqs(sp) if only_lhs(sp, i)]
    b = [i for i in scratch_eqs(sp) if only_lhs(sp, i)]
    if not a or not b:
        return None
    i, j = rng.choice(a), rng.choice(b)
    uncond(sp, i), uncond(sp, j)
    addto(rng, sp, i, rnd_off(rng, sp, sp["eqs"][j]["l"]))
    addto(rng, sp, j, rnd_off(rng, sp, sp["eqs"][i]["l"]))
    return mark(sp, i, j)


def scratch_self_cycle(rng, sp):
    b = [i for i in scratch_eqs(sp) if only_lhs(sp, i)]
    if not b:
        return None
    i = rng.choice(b)
    uncond(sp, i)
    addto(rng, sp, i, rnd_off(rng, sp, sp["eqs"][i]["l"]))
    return mark(sp, i)


def double_def(rng, sp):
    c = [i for i in range(len(sp["eqs"])) if only_lhs(sp, i)]
    i = rng.choice(c) if c else None
    if i is None:
        return None
    uncond(sp, i)
    q = dict(l=sp["eqs"][i]["l"], r=rng.choice([2.5, ["*", sp["eqs"][i]["r"], 3]]))
    sp["eqs"].insert(rng.randint(0, len(sp["eqs"])), q)
    i = [k for k, x in enumerate(sp["eqs"]) if x["l"] == q["l"]]
    return mark(sp, *i)


def same_cond_def(rng, sp):
    c = [i for i in state_eqs(sp) if only_lhs(sp, i)]
    if not c:
        return None
    i = rng.choice(c)
    uncond(sp, i)
    d = rng.choice(sp["dims"])
    cond = rng.choice([[">", d, ["+", ["first", d], 2]], ["==", d, 4], ["<", d, ["last", d]]])
    sp["eqs"][i]["d"] = cond
    q = dict(l=sp["eqs"][i]["l"], r=2.5, d=copy.deepcopy(cond))
    sp["eqs"].append(q)
    return mark(sp, i, len(sp["eqs"]) - 1)


def lhs_step_far(rng, sp):
    i = rng.choice(state_eqs(sp))
    o = rng.choice([2, 3, -2, -3])
    for q in sp["eqs"]:      # All writers of this step offset, so that this is the only fault.
        if q is sp["eqs"][i]:
            q["l"] = set_arg(sp, q["l"], sp["step"], IX(sp["step"], o))
    return mark(sp, i)


def lhs_step_zero(rng, sp):
    i = rng.choice(state_eqs(sp))
    sp["eqs"][i]["l"] = set_arg(sp, sp["eqs"][i]["l"], sp["step"], sp["step"])
    return mark(sp, i)


def mixed_directions(rng, sp):
    a = state_eqs(sp)
    if len(a) < 2:
        return None
    i = rng.choice(a)
    j = rng.choice([k for k in a if k != i])
    if sp["eqs"][i]["l"][1] == sp["eqs"][j]["l"][1]:
        return None
    for q in sp["eqs"]:
        if q["l"][1] == sp["eqs"][i]["l"][1]:
            q["l"] = set_arg(sp, q["l"], sp["step"], IX(sp["step"], -sp["dir"]))
            q["r"] = ["+", 0.5, rng.choice([sp["eqs"][j]["l"][:2] + [sp["step"]] + sp["eqs"][j]["l"][3:], 1])]
    return mark(sp, i, j)


def future_read(rng, sp):
    i = rng.choice(range(len(sp["eqs"])))
    j = rng.choice(state_eqs(sp))
    p = rnd_off(rng, sp, set_arg(sp, sp["eqs"][j]["l"], sp["step"], IX(sp["step"], sp["dir"] * rng.choice([2, 2, 3]))))
    if i in scratch_eqs(sp) and not any(isinstance(x, (list, tuple)) and x and x[0] == "p" and x[1] == sp["eqs"][i]["l"][1] for k in state_eqs(sp) for x in ref.walk(sp["eqs"][k]["r"])):
        return None
    addto(rng, sp, i, p)
    return mark(sp, i, j)


def lhs_offset(rng, sp):
    i = rng.choice(range(len(sp["eqs"])))
    l = sp["eqs"][i]["l"]
    ds = [d for d in dims(sp, l[1]) if d in sp["dims"]]
    d = rng.choice(ds)
    sp["eqs"][i]["l"] = set_arg(sp, l, d, IX(d, rng.choice([-2, -1, 1, 3])))
    return mark(sp, i)


def lhs_const(rng, sp):
    i = rng.choice(range(len(sp["eqs"])))
    l = sp["eqs"][i]["l"]
    d = rng.choice([d for d in dims(sp, l[1]) if d in sp["dims"]])
    sp["eqs"][i]["l"] = set_arg(sp, l, d, rng.choice([0, 1, 5]))
    return mark(sp, i)


def lhs_swapped(rng, sp):
    if len(sp["dims"]) < 2:
        return None
    i = rng.choice(range(len(sp["eqs"])))
    l = sp["eqs"][i]["l"]
    a, b = rng.sample([d for d in dims(sp, l[1]) if d in sp["dims"]], 2)
    sp["eqs"][i]["l"] = set_arg(sp, set_arg(sp, l, a, b), b, a)
    return mark(sp, i)


def lhs_index_expr(rng, sp):
    i = rng.choice(range(len(sp["eqs"])))
    l = sp["eqs"][i]["l"]
    d = rng.choice([d for d in dims(sp, l[1]) if d in sp["dims"]])
    sp["eqs"][i]["l"] = set_arg(sp, l, d, rng.choice([["*", d, 2], ["+", d, d], ["+", d, 0.5], ["-", 4, d]]))
    return mark(sp, i)


def lhs_misc_var(rng, sp):
    for i in rng.sample(range(len(sp["eqs"])), len(sp["eqs"])):
        l = sp["eqs"][i]["l"]
        ms = [d for d in dims(sp, l[1]) if d in (sp.get("misc") or [])]
        if ms:
            d = rng.choice(ms)
            sp["eqs"][i]["l"] = set_arg(sp, l, d, rng.choice([d, ["+", d, 1]]))
            return mark(sp, i)
    return None


def lhs_missing_dim(rng, sp):
    if len(sp["dims"]) < 2:
        return None
    drop = rng.choice(sp["dims"])
    vd = [sp["step"]] + [d for d in sp["dims"] if d != drop]
    sp["vars"].append(dict(name="Zmut", dims=vd, mode=0))
    sp["eqs"].append(dict(l=["p", "Zmut", IX(sp["step"], sp["dir"])] + vd[1:], r=["+", ["p", "Zmut"] + vd, 1]))
    return mark(sp, len(sp["eqs"]) - 1)


def lhs_no_step(rng, sp):
    sp["vars"].append(dict(name="Zmut", dims=list(sp["dims"]), mode=0))
    sp["eqs"].append(dict(l=["p", "Zmut"] + sp["dims"], r=["+", ["p", "Zmut"] + sp["dims"], 1] if rng.random() < .5 else sp["eqs"][state_eqs(sp)[0]]["r"]))
    return mark(sp, len(sp["eqs"]) - 1)


def scratch_with_step(rng, sp):
    sp["vars"].append(dict(name="Zmut", dims=[sp["step"]] + sp["dims"], scratch=True))
    sp["eqs"].append(dict(l=["p", "Zmut", IX(sp["step"], sp["dir"])] + sp["dims"], r=2))
    i = rng.choice(state_eqs(sp))
    sp["eqs"][i]["r"] = ["+", sp["eqs"][i]["r"], ["p", "Zmut", IX(sp["step"], sp["dir"])] + sp["dims"]]
    return mark(sp, len(sp["eqs"]) - 1, i)


MUT = [self_cycle, two_cycle, scratch_cycle, scratch_self_cycle, double_def, same_cond_def, lhs_step_far, lhs_step_zero, mixed_directions, future_read,
       lhs_offset, lhs_const, lhs_swapped, lhs_index_expr, lhs_misc_var, lhs_missing_dim, lhs_no_step, scratch_with_step]
