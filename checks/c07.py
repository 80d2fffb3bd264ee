"""C07: a var is an n-dimensional array under every element access API."""
from .api import ApiCheck, OpMaker


class C07(ApiCheck):
    ID = "C07"
    NCFG = dict(quick=5, thorough=24)
    NPROG = dict(quick=15, thorough=120)
    RULE = ("a history = 60-120 element/slice writes, adds, fills and reads on the vars of a generated program and vars made at run time, incl. indices at and outside of the borders; "
            "non-trivial if it had more than 5 accepted writes and more than 2 reads; distinct by program and history")
    ASSUME = ["the model in checks/api.py states what the documented element APIs do"]

    def ops(self, rng, sp, h, vs):
        m = OpMaker(rng)
        out = []
        for _ in range(rng.randint(60, 120)):
            v = rng.choice(vs)
            k = rng.random()
            r = rng.randrange(h["ranks"])
            b = dict(v=v["name"], rank=r)
            if k < .2:
                out.append(dict(b, op="vset", ix=m.point(v, .3), val=m.val(), strict=rng.randint(0, 1)))
            elif k < .32:
                out.append(dict(b, op="vadd", ix=m.point(v, .2), val=m.val(), strict=rng.randint(0, 1)))
            elif k < .47:
                out.append(dict(b, op="vget", ix=m.point(v, .25)))
            elif k < .53:
                out.append(dict(b, op="vloc", ix=m.point(v, .5)))
            elif k < .55:
                out.append(dict(b, op="vall", val=m.val()))
            elif k < .68:
                f, l = m.slice(v, .3)
                out.append(dict(b, op="vsame", f=f, l=l, val=m.val(), strict=rng.randint(0, 1)))
            elif k < .82:
                f, l = m.slice(v, .12)
                out.append(dict(b, op="vsetb", kind=rng.choice("ddffv"), f=f, l=l, seed=rng.randint(1, 1 << 30), mode=rng.choice([0, 5, 7]), extra=rng.choice([0, 0, 0, 3, -1])))
            elif k < .97:
                f, l = m.slice(v, .12)
                out.append(dict(b, op="vgetb", kind=rng.choice("ddffv"), f=f, l=l, extra=rng.choice([0, 0, 0, 3, -1])))
            else:
                out.append(dict(op="wrap", on=rng.randint(0, 1)))
        return out
