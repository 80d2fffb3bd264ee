"""Seeded random generator of legal stencil programs, and their s-expression form."""
import random, json, hashlib
from .ref import walk, offset_of


def sx(e):
    if isinstance(e, bool):
        return "1" if e else "0"
    if isinstance(e, int):
        return str(e)
    if isinstance(e, float):
        return repr(e)
    if isinstance(e, str):
        return e
    return "(" + " ".join([str(e[0])] + [sx(x) for x in e[1:]]) + ")"


def to_text(spec, out=None, post=(), opts=None):
    """s-expression program for mkstencil."""
    L = ["(solution %s)" % spec.get("name", "s"), '(desc "generated")']
    if spec.get("step"):
        L.append("(step %s)" % spec["step"])
    L.append("(dims %s)" % " ".join(spec["dims"]))
    if spec.get("misc"):
        L.append("(misc %s)" % " ".join(spec["misc"]))
    if spec.get("setdims"):
        L.append("(setdims %s)" % " ".join(spec["setdims"]))
    if spec.get("setstep"):
        L.append("(setstep %s)" % spec["step"])
    L.append("(elem %d)" % spec.get("elem", 4))
    for v in spec["vars"]:
        L.append("(%s %s %s)" % ("scratch" if v.get("scratch") else "var", v["name"], " ".join(v["dims"])))
        if v.get("dyn"):
            L.append("(dyn %s)" % v["name"])
        if v.get("stepalloc"):
            L.append("(stepalloc %s %d)" % (v["name"], v["stepalloc"]))
    for k, e in spec.get("lets", {}).items():
        L.append("(let %s %s)" % (k, sx(e)))
    order = spec.get("eqorder") or range(len(spec["eqs"]))
    for i in order:
        q = spec["eqs"][i]
        L.append("(eq %s %s %s %s)" % (sx(q["l"]), sx(q["r"]), sx(q["d"]) if q.get("d") else "nil", sx(q["s"]) if q.get("s") else "nil"))
    if spec.get("flow"):
        L.append("(nodep)")
        for a, b in spec["flow"]:
            L.append("(flow %d %d)" % (a, b))
    o = opts if opts is not None else spec.get("opts", "")
    if o:
        L.append('(opts "%s")' % o)
    if out:
        L.append('(out %s "%s")' % (spec.get("target", "avx2"), out))
    L += list(post)
    return "\n".join(L) + "\n"


def digest(spec):
    return hashlib.sha1(json.dumps(spec, sort_keys=True).encode()).hexdigest()[:10]


def IX(d, o):
    if o == 0:
        return d
    return ["+", d, o] if o > 0 else ["-", d, -o]


DIMSETS = {1: [["x"], ["z"], ["i"]], 2: [["x", "y"], ["y", "z"], ["a", "b"]], 3: [["x", "y", "z"], ["x", "y", "z"], ["p", "q", "r"]]}


class Gen:
    """One random legal program. Feature probabilities can be overridden through kw."""

    def __init__(self, rng, **kw):
        self.r = rng
        self.f = dict(ndims=None, pmisc=.3, pscratch=.4, pcond=.35, pscond=.2, prev=.15, preadonly=.7, pnonlin=.2, plet=.25,
                      maxeq=4, maxrad=3, pfold=.8, pindex=0, pdepth2=.25, elem=None, target="avx2", popts=.7, nvars=None, pstage=.5,
                      psdimvar=.15, prodcap=1, asym=True, opts=None, mincond=0, minscratch=0, minscond=0)
        self.f.update(kw)

    def chance(self, p):
        return self.r.random() < p

    def config(self):
        """Choices that the kernel library is compiled for; programs of one config share its objects."""
        r, f = self.r, self.f
        nd = f["ndims"] or r.choice([1, 1, 2, 2, 2, 3, 3, 3])
        dims = list(r.choice(DIMSETS[nd]))
        s = self.s = dict(dims=dims, elem=f["elem"] or r.choice([8, 8, 8, 4]), target=f["target"])
        # Always pin the dims so that 0-offset-only dims exist, sometimes permuted.
        sd = list(dims)
        if self.chance(.25):
            r.shuffle(sd)
        s["setdims"] = sd
        s["setstep"] = self.chance(.3)
        s["misc"] = (["m", "n"][:r.choice([1, 1, 2])] if self.chance(f["pmisc"]) else [])
        s["cfgopts"] = f["opts"] if f["opts"] is not None else (self.cfgopts() if self.chance(f["popts"]) else "")
        return s

    def make(self, cfg=None):
        r, f = self.r, self.f
        cfg = dict(cfg if cfg is not None else self.config())
        dims = list(cfg["dims"])
        step = "t"
        s = dict(name="s", step=step, dims=dims, dir=-1 if self.chance(f["prev"]) else 1, vars=[], eqs=[], lets={})
        self.s = s
        for k in ("elem", "target", "setdims", "setstep"):
            s[k] = cfg[k]
        s["misc"] = list(cfg["misc"])
        self.rad = {d: r.randint(0 if f["asym"] else 1, f["maxrad"]) for d in dims}
        if not any(self.rad.values()):
            self.rad[r.choice(dims)] = 1
        nst = f["nvars"] or r.choice([1, 1, 2, 2, 3])
        names = iter(r.sample(["A", "B", "C", "D", "E", "F", "G", "H", "u", "v", "w", "vel_x", "q1"], 13))
        self.state, self.ro, self.scr = [], [], []
        self.mrange = {}
        for _ in range(nst):
            md = [m for m in s["misc"] if self.chance(.5)]
            vd = dims + md
            if self.chance(.35):
                r.shuffle(vd)
            vd = [step] + vd        # The step dim must be declared first.
            v = dict(name=next(names), dims=vd, mode=0)
            self.state.append(v)
            s["vars"].append(v)
        if self.chance(f["preadonly"]):
            for _ in range(r.choice([1, 1, 2])):
                sub = [d for d in dims if self.chance(.75)]
                md = [m for m in s["misc"] if self.chance(.4)]
                vd = sub + md
                if self.chance(.35):
                    r.shuffle(vd)
                if self.chance(.08):
                    vd = [step] + vd
                v = dict(name=next(names), dims=vd, mode=r.choice([1, 2, 3]))
                self.ro.append(v)
                s["vars"].append(v)
        nsc = 0
        if self.chance(f["pscratch"]) or f["minscratch"]:
            nsc = max(f["minscratch"], r.choice([1, 1, 2]))
        self.scrdefs = []
        for _ in range(nsc):
            md = [m for m in s["misc"] if self.chance(.3)]
            vd = list(dims) + md
            if self.chance(.25):
                r.shuffle(vd)
            v = dict(name=next(names), dims=vd, scratch=True)
            s["vars"].append(v)
            self.scrdefs.append(v)
        # Vars usable in step conditions.
        self.condvars = []
        if f["pscond"] > 0 and self.chance(.5):
            v = dict(name=next(names), dims=(["m"] if s["misc"] and self.chance(.5) else []), mode=4)
            self.condvars.append(v)
            self.condv_pending = v
        # misc ranges
        for v in s["vars"] + self.condvars:
            for m in v["dims"]:
                if m in s["misc"]:
                    lo = r.choice([0, 0, 0, 1, -2, 3])
                    self.mrange[(v["name"], m)] = (lo, lo + r.choice([0, 1, 2]))
        self.avail_next = []        # (var, misc tuple) already written at t+dir
        self.need_s_cond = f["minscond"]
        self.need_d_cond = f["mincond"]
        # scratch equations, then state equations
        for v in self.scrdefs:
            for mv in self.misc_combos(v):
                self.scratch_eqs(v, mv)
            self.scr.append(v)
        for v in self.state:
            combos = self.misc_combos(v)
            if len(combos) > 1 and self.chance(.6):
                combos = r.sample(combos, r.randint(1, min(len(combos), 3)))
            else:
                combos = combos[:3]
            for mv in combos:
                self.state_eqs(v, mv)
            for mv in combos:
                self.avail_next.append((v, mv))
            if len(s["eqs"]) > f["maxeq"] * 2:
                self.state = self.state[:self.state.index(v) + 1]
                break
        # Drop unused vars (keep program tidy and legal).
        used = set()
        def mark(e):
            for x in walk(e):
                if isinstance(x, (list, tuple)) and x and x[0] == "p":
                    used.add(x[1])
                if isinstance(x, str) and x in s["lets"]:
                    mark(s["lets"][x])
        for _ in range(3):
            for q in s["eqs"]:
                if self.isscr(q["l"][1]) and q["l"][1] not in used:
                    continue
                mark(q["l"]), mark(q["r"])
                for c in "ds":
                    if q.get(c):
                        mark(q[c])
        s["eqs"] = [q for q in s["eqs"] if q["l"][1] in used]
        s["vars"] = [v for v in s["vars"] + self.condvars if v["name"] in used]
        s["lets"] = {k: e for k, e in s["lets"].items() if any(k in [x for x in walk(q["r"]) if isinstance(x, str)] for q in s["eqs"])}
        if not s["misc"]:
            s.pop("misc")
        elif self.chance(0):
            pass
        s["opts"] = (cfg["cfgopts"] + " " + (self.mkopts() if f["opts"] is None and self.chance(f["popts"]) else "")).strip()
        return s

    def isscr(self, n):
        return any(v["name"] == n for v in self.scrdefs)

    def misc_combos(self, v):
        out = [()]
        for d in v["dims"]:
            if d in self.s["misc"]:
                lo, hi = self.mrange[(v["name"], d)]
                out = [o + (i,) for o in out for i in range(lo, hi + 1)]
        return out

    def pt(self, v, offs=None, toff=0, misc=None):
        """Point expr."""
        e = ["p", v["name"]]
        mi = 0
        for d in v["dims"]:
            if d == self.s["step"]:
                e.append(IX(d, toff))
            elif d in self.s["dims"]:
                e.append(IX(d, (offs or {}).get(d, 0)))
            else:
                if misc is not None:
                    e.append(misc[mi])
                    mi += 1
                else:
                    lo, hi = self.mrange[(v["name"], d)]
                    e.append(self.r.randint(lo, hi))
        return e

    def offs(self, v):
        r = self.r
        o = {}
        ds = [d for d in self.s["dims"] if d in v["dims"]]
        if not ds or self.chance(.3):
            return o
        for d in r.sample(ds, 1 if self.chance(.75) else r.randint(1, len(ds))):
            o[d] = r.randint(-self.rad[d], self.rad[d])
        return o

    def leaf(self, ctx):
        r = self.r
        k = r.random()
        dr = self.s["dir"]
        if k < .12:
            return r.choice([1, 2, 3, -1, 0.5, 0.25, -2, 1.5, 4])
        if k < .12 + self.f["pindex"] * .3 and ctx["idx"]:
            # Domain index as a value, scaled.
            return r.choice(self.s["dims"])
        pool = []
        if ctx["state"]:
            pool += [("s", v) for v in self.state] * 3
        if self.avail_next and ctx["next"]:
            pool += [("n", a) for a in self.avail_next] * 2
        pool += [("c", v) for v in ctx["scr"]] * 4
        pool += [("r", v) for v in self.ro]
        if not pool:
            return 2
        t, v = r.choice(pool)
        if t == "s":
            toff = 0
            if self.chance(self.f["pdepth2"] * .5):
                toff = -dr * r.choice([1, 1, 2])
            return self.pt(v, self.offs(v), toff)
        if t == "n":
            v, mv = v
            return self.pt(v, self.offs(v), dr, mv)
        if t == "c":
            return self.pt(v, self.offs(v))
        return self.pt(v, self.offs(v))

    def has_point(self, e):
        return any(isinstance(x, (list, tuple)) and x and x[0] == "p" for x in walk(e)) or any(isinstance(x, str) and x in self.s["lets"] for x in walk(e))

    def has_state(self, e):
        return any(isinstance(x, (list, tuple)) and x and x[0] == "p" and x[1] not in [v["name"] for v in self.ro + self.condvars] for x in walk(e)) or \
            any(isinstance(x, str) and x in self.s["lets"] for x in walk(e))

    def expr(self, depth, ctx):
        r = self.r
        if depth <= 0 or self.chance(.12):
            return self.leaf(ctx)
        k = r.random()
        if k < .45:
            return [r.choice(["+", "+", "-"]), self.expr(depth - 1, ctx), self.expr(depth - 1, ctx)] if self.chance(.7) else \
                ["+"] + [self.expr(depth - 1, ctx) for _ in range(r.randint(3, 4))]
        if k < .8:
            a = self.expr(depth - 1, ctx)
            if self.has_state(a) and not (self.f["prodcap"] and ctx["prod"] and self.chance(.3)):
                b = r.choice([2, 3, 0.5, -1, 0.25]) if not self.ro or self.chance(.5) else None
                if b is None:
                    v = r.choice(self.ro)
                    b = self.pt(v, self.offs(v))
            else:
                ctx["prod"] = False
                b = self.expr(depth - 1, ctx)
            return ["*", a, b] if self.chance(.5) else ["*", b, a]
        if k < .88:
            a = self.expr(depth - 1, ctx)
            return ["neg", a]
        if k < .94 or not self.chance(self.f["pnonlin"] * 2):
            a = self.expr(depth - 1, ctx)
            pos = [v for v in self.ro if v["mode"] in (1, 2)]
            if pos and self.chance(.6):
                v = r.choice(pos)
                return ["/", a, self.pt(v, self.offs(v))]
            return ["/", a, r.choice([2, 4, 3, -8, 0.5])]
        o = r.choice(["min", "max", "fabs", "sqrt", "sin", "cos", "atan", "exp", "log", "cbrt", "pow"])
        a = self.expr(depth - 1, ctx)
        if o in ("min", "max"):
            return [o, a, self.expr(depth - 1, ctx)]
        if o in ("fabs", "sin", "cos", "atan"):
            return [o, a]
        if o == "exp":
            return ["exp", ["sin", a]]
        if o == "log":
            return ["log", ["+", ["fabs", a], 1.5]]
        if o == "pow":
            return ["pow", ["+", ["fabs", a], 1], r.choice([0.5, 2, 1.5])]
        return [o, ["+", ["fabs", a], 1]]

    def rhs(self, ctx):
        """A sum with at least one real read; sometimes through a shared sub-expression node."""
        r = self.r
        for _ in range(20):
            e = self.expr(r.randint(2, 4), ctx)
            if self.has_state(e) and len(sx(e)) < 1500:
                break
        else:
            v = r.choice(self.state)
            e = ["+", self.pt(v), 1]
        if self.chance(self.f["plet"]) and ctx.get("let", True):
            n = "L%d" % len(self.s["lets"])
            c2 = dict(ctx, next=False, scr=[])
            sub = self.expr(2, c2)
            if isinstance(sub, list) and self.has_state(sub):
                self.s["lets"][n] = sub
                e = ["+", ["*", n, 2], ["-", e, n]]
        # Keep growth bounded.
        if self.chance(.7):
            e = ["*", e, r.choice([0.5, 0.25, 0.125])]
        return e

    def ctx(self, kind):
        return dict(state=True, next=kind == "state" and self.chance(self.f["pstage"]), scr=list(self.scr), idx=True, prod=True)

    # --- conditions
    def dcond_atom(self):
        r = self.r
        d = r.choice(self.s["dims"])
        k = r.random()
        c = r.randint(0, 9)
        if k < .3:
            return [r.choice(["<", ">", "<=", ">="]), d, ["+", ["first", d], c]]
        if k < .55:
            return [r.choice(["<", ">", "<=", ">="]), d, ["-", ["last", d], c]]
        if k < .65:
            return [r.choice(["==", "!="]), d, r.choice([["first", d], ["last", d], ["-", ["last", d], r.randint(0, 3)]])]
        if k < .75:
            return [r.choice(["==", "!=", "<", ">"]), d, r.randint(0, 12)]
        if k < .85 and len(self.s["dims"]) > 1:
            a, b = r.sample(self.s["dims"], 2)
            return [r.choice(["==", "<", ">=", "!="]), a, b] if self.chance(.5) else [r.choice(["<", ">="]), ["+", a, b], r.randint(3, 20)]
        if k < .92:
            return ["==", ["%", ["+", d, 64], 2], r.randint(0, 1)]
        return [r.choice(["<", ">="]), ["*", d, 2], r.randint(3, 18)]

    def dcond(self):
        k = self.r.random()
        if k < .5:
            return self.dcond_atom()
        a, b = self.dcond_atom(), self.dcond_atom()
        c = [self.r.choice(["&&", "||"]), a, b]
        if self.chance(.2):
            c = ["!", c]
        if self.chance(.25):
            c = ["&&", c, self.dcond_atom()]
        return c

    def scond(self):
        r = self.r
        t = self.s["step"]
        k = r.random()
        if self.condvars and k < .45:
            v = r.choice(self.condvars)
            return [r.choice(["==", "<", ">="]), self.pt(v), r.choice([0, 1, 1])]
        if k < .75:
            m = r.choice([2, 3])
            return [r.choice(["==", "!="]), ["%", ["+", t, 60], m], r.randint(0, m - 1)]
        if k < .9:
            return [r.choice(["<", ">", ">=", "<=", "=="]), t, r.randint(-1, 5)]
        return [r.choice(["&&", "||"]), self.scond(), self.scond()]

    def wants(self, what, p):
        n = getattr(self, what)
        if n > 0:
            setattr(self, what, n - 1)
            return True
        return self.chance(p)

    def scratch_eqs(self, v, mv):
        ctx = self.ctx("scratch")
        ctx["next"] = False
        lhs = self.pt(v, misc=mv)
        if self.chance(self.f["pcond"] * .4):
            c = self.dcond()
            self.s["eqs"].append(dict(l=lhs, r=self.rhs(ctx), d=c))
            self.s["eqs"].append(dict(l=lhs, r=self.rhs(dict(ctx, prod=True)), d=["!", c]))
        else:
            self.s["eqs"].append(dict(l=lhs, r=self.rhs(ctx)))

    def state_eqs(self, v, mv):
        s = self.s
        lhs = self.pt(v, toff=s["dir"], misc=mv)
        d = self.dcond() if self.wants("need_d_cond", self.f["pcond"]) else None
        st = self.scond() if self.wants("need_s_cond", self.f["pscond"]) else None
        q = dict(l=lhs, r=self.rhs(self.ctx("state")))
        if d:
            q["d"] = d
        if st:
            q["s"] = st
        s["eqs"].append(q)
        if d and self.chance(.5):
            # A second equation for the same point set, on a disjoint condition.
            q2 = dict(l=lhs, r=self.rhs(self.ctx("state")), d=["!", d] if self.chance(.6) else ["&&", ["!", d], self.dcond_atom()])
            if st:
                q2["s"] = st
            s["eqs"].append(q2)
        elif st and not d and self.chance(.4):
            s["eqs"].append(dict(l=lhs, r=self.rhs(self.ctx("state")), s=["!", st]))

    # --- compiler options
    def fold(self, vlen=None):
        r = self.r
        n = vlen or {"avx2": 32, "avx": 32, "avx512": 64, "avx512-ymm": 32, "intel64": 8}.get(self.s["target"], 32) // self.s["elem"]
        fs = []
        rest = n
        ds = list(self.s["dims"])
        r.shuffle(ds)
        for i, d in enumerate(ds):
            if i == len(ds) - 1:
                k = rest
            else:
                k = r.choice([x for x in (1, 2, 4, 8, 16) if x <= rest])
            if k > 1:
                fs.append("%s=%d" % (d, k))
            rest //= k
        return ",".join(fs)

    def cfgopts(self):
        r = self.r
        o = []
        if self.chance(self.f["pfold"]) and self.s["target"] != "intel64":
            f = self.fold()
            if f:
                o.append("-fold " + f)
        if self.chance(.2):
            o.append("-%s%s" % (r.choice(["", "no-"]), "first-inner"))
        if self.chance(.15):
            o.append("-inner-loop-dim " + r.choice(self.s["dims"]))
        if self.chance(.1):
            o.append("-l1-prefetch-dist %d" % r.choice([0, 1, 2]))
        if self.chance(.1):
            o.append("-l2-prefetch-dist %d" % r.choice([0, 1, 3]))
        return " ".join(o)

    def mkopts(self):
        r = self.r
        o = []
        for b in ("opt-comb", "opt-cse", "opt-pair", "opt-reorder", "bundle", "bundle-scratch", "early-loads", "inner-misc-layout",
                  "outer-domain-layout", "use-ptrs", "use-safe-ptrs"):
            if self.chance(.2):
                o.append("-%s%s" % (r.choice(["", "no-"]), b))
        if self.chance(.15):
            o.append("-max-es %d" % r.choice([2, 10, 100]))
        if self.chance(.15):
            o.append("-min-es %d" % r.choice([1, 3]))
        if self.chance(.15):
            o.append("-min-buffer-len %d" % r.choice([1, 2, 3]))
        return " ".join(o)
