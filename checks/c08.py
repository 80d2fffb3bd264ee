"""C08: reductions equal element-wise computation over the slice."""
from .api import ApiCheck, OpMaker


class C08(ApiCheck):
    ID = "C08"
    NCFG = dict(quick=5, thorough=24)
    NPROG = dict(quick=15, thorough=120)
    RULE = ("a history = 40-80 reductions of random masks over random slices, between writes of values of either or one sign; "
            "non-trivial if it reduced at least 10 non-empty slices; distinct by program and history")
    ASSUME = ["sums may be formed in any order: (n+4) roundings are tolerated; max, min and counts are exact",
              "the max and min of no elements are not judged (documented as MIN_DBL and MAX_DBL)"]

    def init_mode(self, rng):
        return rng.choice([0, 1, 6, 6, 7])

    def nontriv_hist(self, st):
        return st.get("reduced", 0) >= 10

    def ops(self, rng, sp, h, vs):
        m = OpMaker(rng)
        out = []
        for _ in range(rng.randint(40, 80)):
            v = rng.choice(vs)
            k = rng.random()
            b = dict(v=v["name"], rank=rng.randrange(h["ranks"]))
            f, l = m.slice(v, .25)
            if k < .7:
                out.append(dict(b, op="vred", f=f, l=l, mask=rng.choice([1, 2, 4, 8, 16, 31, 31, rng.randint(0, 31)]), strict=rng.randint(0, 1)))
            elif k < .8:
                f, l = m.slice(v, 0)
                out.append(dict(b, op="vredget", f=f, l=l, mask=rng.randint(0, 31), what=rng.choice(["sum", "ssq", "prod", "max", "min"])))
            elif k < .88:
                out.append(dict(b, op="vset", ix=m.point(v, .1), val=m.val(), strict=0))
            elif k < .96:
                out.append(dict(b, op="vsetb", kind="d", f=f, l=l, seed=rng.randint(1, 1 << 30), mode=rng.choice([0, 1, 2, 3, 6, 6, 7])))
            else:
                out.append(dict(b, op="vsame", f=f, l=l, val=m.val(), strict=0))
        return out
