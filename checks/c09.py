"""C09: relations between the sizes and indices that a var reports, over histories of settings."""
import shutil
import numpy as np
from yv import build, speccheck as sc
from .api import ApiCheck, Hist, fx
from .common import Fail

STEP, DOM, MISC = "s", "d", "m"


def num(s):
    return None if s == "x" else int(s)


def parse_geo(txt):
    a, b, c = txt.split("|")
    dims = []
    for p in a.split(";"):
        g = p.split()
        if g:
            dims.append((g[0], {k: num(v) for k, v in (x.split("=") for x in g[1:])}))
    vec = {}
    for x in b.split():
        k, v = x.split("=")
        vec[k] = [int(i) for i in v.split(",")] if v not in ("", "-") else []
    c = c.split()
    return dims, vec, dict(alloc=c[0] == "1", bytes=int(c[1]), elems=int(c[2]), fixed=c[3] == "1", dyn=c[4] == "1", nd=int(c[5]), ndd=int(c[6]))


class Geo(Hist):
    """State per var: what was asked for; checked against what the getters answer."""

    def info(self):
        sp, h = self.sp, self.h
        V = {}
        for v in sp["vars"]:
            if not v.get("scratch"):
                V[v["name"]] = dict(kind="comp", dims=v["dims"], dyn=bool(v.get("dyn")))
        for n in h["news"]:
            V[n["name"]] = dict(kind="fixed" if n["op"] == "newfixed" else "new", dims=n["dims"], sizes=dict(zip(n["dims"], n.get("sizes", []))), dyn=True)
        for v in V.values():
            v.update(minpad={}, halo={}, size=dict(v.get("sizes", {})), first={})
        return V

    def ty(self, d):
        return STEP if d == self.sp["step"] else DOM if d in self.sp["dims"] else MISC

    def build_lines(self):
        h, sp = self.h, self.sp
        L = ["soln S", 'opts S "%s %s"' % (sc.size_opts(sp, h["sizes"]), h.get("kopts", ""))]
        self.meta = {}
        for n in h["news"]:
            L.append("%s S %s %s" % (n["op"], n["name"], ",".join(n["dims"]) or "-") + (" " + (fx(n["sizes"])) if n["op"] == "newfixed" else ""))
            self.meta[len(L)] = ("must", None)
        have = self.names()

        def look(v):
            L.append("vgeo S " + v)
            self.meta[len(L)] = ("geo", v)
        for v in have:
            look(v)
        for o in h["ops"]:
            if o["op"] == "prepare":
                L.append("prepare S")
                self.meta[len(L)] = ("prepare", None)
                L.append("geom S")
                self.meta[len(L)] = ("geom", None)
                for v in have:
                    look(v)
                continue
            if o.get("v") not in have:
                continue
            if o["op"] == "vmod":
                L.append("vmod S %s %s %s %d" % (o["v"], o["what"], o["d"], o["n"]))
            else:
                L.append("%s S %s" % (o["op"], o["v"]))
            self.meta[len(L)] = ("op", o)
            look(o["v"])
        for v in have:
            look(v)
        return L

    def run(self):
        L = self.build_lines()
        r = self.execute(L)
        shutil.rmtree(r.wd, ignore_errors=True)
        last = []
        for k in range(self.nr):
            last.append(self.judge(L, r.res(k), k))
        # The same history again, followed by accesses at the edges.
        L2 = list(L)
        want = {}
        for k in range(self.nr):
            for v, g in last[k].items():
                self.access(L2, want, k, v, g)
        r = self.execute(L2)
        shutil.rmtree(r.wd, ignore_errors=True)
        for ln, (k, w) in want.items():
            st, rest = r.res(k).get(ln, ("none", ""))
            if st != w[0] or w[1] is not None and (float(rest) if "vget" in L2[ln - 1] else rest) != w[1]:
                raise Fail("access", "'%s': %s %s, expected %s %s" % (L2[ln - 1], st, rest[:150], w[0], "" if w[1] is None else w[1]))
        return self.stats

    def access(self, L, want, k, v, g):
        dims, vec, st = g

        def add(line, w):
            if self.nr > 1:
                line = "ifrank %d %s" % (k, line)
            L.append(line)
            want[len(L)] = (k, w)
        n = len(dims)
        rng = self.h["aseed"]
        lo = [d["first_local_index"] for _, d in dims]
        hi = [d["last_local_index"] for _, d in dims]
        pts = [lo, hi] + [[(lo, hi)[(rng >> (3 * j + i)) & 1][i] for i in range(n)] for j in range(3)]
        if not st["alloc"]:
            add("vget S %s %s" % (v, fx(lo)), ("ex", None))
            add("vset S %s 1 %s 1" % (v, fx(lo)), ("ex", None))
            self.stats["rejected"] += 1
            return
        seen = set()
        for j, p in enumerate(pts):
            if tuple(p) in seen:
                continue
            seen.add(tuple(p))
            add("vset S %s %d %s 1" % (v, j + 1, fx(p)), ("ok", "1"))
            add("vget S %s %s" % (v, fx(p)), ("ok", float(j + 1)))
            add("vloc S %s %s" % (v, fx(p)), ("ok", "1"))
            self.stats["reads"] += 1
        for i, (d, q) in enumerate(dims):
            for p, x in ((lo, lo[i] - 1), (hi, hi[i] + 1)):
                p = list(p)
                p[i] = x
                add("vloc S %s %s" % (v, fx(p)), ("ok", "0"))
                add("vget S %s %s" % (v, fx(p)), ("ex", None))
                self.stats["rejected"] += 1
                if self.ty(d) != STEP:
                    add("vset S %s 5 %s 1" % (v, fx(p)), ("ex", None))
                    add("vset S %s 5 %s 0" % (v, fx(p)), ("ok", "0"))

    def judge(self, L, res, k):
        V = self.info()
        G = {}
        self.geom = None
        prepared = False
        o = None
        for ln in range(1, len(L) + 1):
            kind, x = self.meta.get(ln, (None, None))
            st, rest = res.get(ln, ("none", ""))
            if st == "ok":
                if kind == "geom":
                    t = rest.split()
                    f = [[int(i) for i in y.split(",")] for y in t[:4]]
                    self.geom = {d: (f[0][i], f[1][i], f[2][i], f[3][i]) for i, d in enumerate(self.sp["dims"])}
                elif kind == "prepare":
                    prepared = True
                    for v in V.values():
                        v["prepared"] = True
                elif kind == "geo":
                    g = parse_geo(rest)
                    if o is not None and x == o.get("v") and self.meta.get(ln - 1, (0,))[0] == "op":
                        self.after(o, V[x], G.get(x), g, ok, L[ln - 2])
                    elif prepared and self.meta.get(ln - 1, (0,))[0] != "prepare" and x in G and G[x] != g and not self.fresh:
                        raise Fail("geometry", "var %s changed without a setting: %s -> %s" % (x, G[x], g))
                    self.relations(x, V[x], g, "after '%s' " % L[ln - 2] if ln > 1 else "")
                    G[x] = g
                    self.fresh = False
            if kind == "prepare":
                self.fresh = True
                G = {}
            if kind == "op":
                o = x
                ok = st == "ok"
                self.last = rest
                self.stats["ops"] += 1
                if st not in ("ok", "ex"):
                    raise Fail("exception", "'%s': %s %s" % (L[ln - 1], st, rest[:200]))
            elif st != "ok":
                if self.nr > 1 and any(y in rest for y in sc.REFUSALS):
                    raise sc.Refused(rest)
                raise Fail("exception:" + sc.normal(rest), "'%s': %s %s" % (L[ln - 1], st, rest[:300]))
        return G

    def relations(self, name, v, g, when):
        dims, vec, st = g

        def need(c, what):
            if not c:
                raise Fail("geometry", "%svar %s: %s; reported %s %s" % (when, name, what, g[0], g[2]))
        need([d for d, _ in dims] == v["dims"] and st["nd"] == len(dims), "dims are not those it was made with")
        need(st["fixed"] == (v["kind"] == "fixed"), "is_fixed_size()")
        need(v["kind"] == "comp" or st["dyn"], "is_dynamic_step_alloc()")
        DOMG = ["rank_domain_size", "first_rank_domain_index", "last_rank_domain_index", "left_halo_size", "right_halo_size", "first_rank_halo_index",
                "last_rank_halo_index", "left_pad_size", "right_pad_size", "left_extra_pad_size", "right_extra_pad_size"]
        MG = ["first_misc_index", "last_misc_index"]
        prod = 1
        for d, q in dims:
            t = self.ty(d)
            need(q["first_local_index"] is not None and q["alloc_size"] is not None, "no local indices in dim " + d)
            for f in DOMG:
                need((q[f] is not None) == (t == DOM), "get_%s('%s') %s" % (f, d, "throws" if t == DOM else "does not throw"))
            for f in MG:
                need((q[f] is not None) == (t == MISC), "get_%s('%s')" % (f, d))
            need(q["last_local_index"] - q["first_local_index"] + 1 == q["alloc_size"], "allocation is not last - first local index + 1 in dim " + d)
            prod *= q["alloc_size"]
            if t == DOM:
                lp, rp, lh, rh, n = q["left_pad_size"], q["right_pad_size"], q["left_halo_size"], q["right_halo_size"], q["rank_domain_size"]
                need(q["last_rank_domain_index"] - q["first_rank_domain_index"] + 1 == n, "domain size in dim " + d)
                need(q["first_rank_halo_index"] == q["first_rank_domain_index"] - lh and q["last_rank_halo_index"] == q["last_rank_domain_index"] + rh, "halo does not abut the domain in dim " + d)
                need(q["first_local_index"] == q["first_rank_domain_index"] - lp and q["last_local_index"] == q["last_rank_domain_index"] + rp, "padding does not abut the domain in dim " + d)
                need(q["alloc_size"] == lp + n + rp, "allocation is not padding + domain + padding in dim " + d)
                need(q["left_extra_pad_size"] == lp - lh and q["right_extra_pad_size"] == rp - rh, "extra padding in dim " + d)
                need(lp >= lh and rp >= rh, "padding does not hold the halo in dim " + d)
                a, b = v["minpad"].get(d, (0, 0))
                need(lp >= a and rp >= b, "padding %d,%d is less than the minimum %d,%d set in dim %s" % (lp, rp, a, b, d))
                if d in v["halo"]:
                    need((lh, rh) == v["halo"][d], "halo %d,%d is not the one set, %s, in dim %s" % (lh, rh, v["halo"][d], d))
                if v["kind"] == "fixed":
                    need(n == v["size"][d] and q["first_rank_domain_index"] == 0, "size %d of fixed-size var in dim %s, expected %d" % (n, d, v["size"][d]))
                elif v.get("prepared"):
                    need((n, q["first_rank_domain_index"], q["last_rank_domain_index"]) == self.geom[d][1:], "domain in dim %s is not the solution's %s" % (d, self.geom[d][1:]))
            else:
                if d in v["size"]:
                    need(q["alloc_size"] == v["size"][d], "allocation %d in dim %s, expected %d" % (q["alloc_size"], d, v["size"][d]))
                if t == MISC:
                    need(q["first_misc_index"] == q["first_local_index"] and q["last_misc_index"] == q["last_local_index"], "misc and local indices differ in dim " + d)
                    if v["kind"] != "comp":
                        need(q["first_misc_index"] == v["first"].get(d, 0), "first index %d in dim %s, expected %d" % (q["first_misc_index"], d, v["first"].get(d, 0)))
        for f in vec:
            w = [q[f] for d, q in dims if q[f] is not None]
            need(vec[f] == w, "get_%s_vec() is %s, the single getters say %s" % (f, vec[f], w))
        eb = self.sp.get("elem", 4)
        need(st["elems"] * eb == st["bytes"] and st["elems"] >= prod, "storage of %d elements, %d bytes for an allocation of %d elements" % (st["elems"], st["bytes"], prod))
        need(st["ndd"] == sum(1 for d, _ in dims if self.ty(d) == DOM), "number of domain dims")
        if v.get("state") is not None:
            need(st["alloc"] == v["state"], "is_storage_allocated() is %d" % st["alloc"])

    def after(self, o, v, was, g, ok, line):
        """What an operation may have done."""
        dims, vec, st = g
        q = dict(dims)
        p = dict(was[0])

        def same():
            return was[0] == g[0] and was[1] == g[1] and was[2] == g[2]

        def mod(w):
            if ok != w:
                raise Fail("accepted" if ok else "refused", "'%s' %s on var of kind %s; before %s %s; %s" % (line, "should throw" if ok else "should be accepted", v["kind"], was[0], was[2], self.last[:300]))
        if not ok:
            self.stats["rejected"] += 1
            if not same():
                raise Fail("geometry", "'%s' threw, but the geometry changed from %s %s to %s %s" % (line, was[0], was[2], g[0], g[2]))
        if o["op"] in ("valloc", "vrelease"):
            if o["op"] == "vrelease":
                mod(True)
                if st["alloc"]:
                    raise Fail("geometry", "storage is allocated after " + line)
            elif ok and not st["alloc"] and not any(x["alloc_size"] == 0 for x in q.values()):
                raise Fail("geometry", "storage is not allocated after " + line)
            if g[0] != was[0]:
                raise Fail("geometry", "'%s' changed the geometry from %s to %s" % (line, was[0], g[0]))
            return
        d, n, what = o["d"], o["n"], o["what"]
        known = d in q
        t = self.ty(d)
        alloc = was[2]["alloc"]
        self.stats["writes"] += ok
        for e, x in q.items():      # Other dims are never affected.
            keep = x if alloc or self.ty(e) != DOM else {f: y for f, y in x.items() if f.split("_")[1] not in ("local", "pad", "extra", "size")}
            if e != d and any(p[e][f] != y for f, y in keep.items()):
                raise Fail("geometry", "'%s' changed dim %s from %s to %s" % (line, e, p[e], x))
        if alloc and ok and {e: x["alloc_size"] for e, x in q.items()} != {e: x["alloc_size"] for e, x in p.items()}:
            raise Fail("geometry", "'%s' changed the allocation of allocated storage from %s to %s" % (line, p, q))
        if not known:
            return mod(False)
        if what == "first_misc_index":
            mod(t == MISC and v["kind"] != "comp")
            if ok:
                v["first"][d] = n
                want = dict(p[d], first_misc_index=n, last_misc_index=n + p[d]["alloc_size"] - 1, first_local_index=n, last_local_index=n + p[d]["alloc_size"] - 1)
                if q[d] != want:
                    raise Fail("geometry", "'%s' gave %s, expected %s" % (line, q[d], want))
        elif what == "alloc_size":
            may = dict(comp=t == MISC and "-no-inner-misc-layout" in self.sp.get("opts", "") or t == STEP and was[2]["dyn"], new=t != DOM, fixed=True)[v["kind"]]
            if not may:
                return mod(False)
            if alloc:
                cur = p[d]["rank_domain_size"] if t == DOM else p[d]["alloc_size"]
                if t != DOM or n == cur:        # A domain size may change within the allocation.
                    mod(n == cur)
                if ok:
                    v["size"][d] = n
                return
            mod(True)
            v["size"][d] = n
            if t != DOM and q[d]["alloc_size"] != n or t == DOM and q[d]["rank_domain_size"] != n:
                raise Fail("geometry", "'%s' gave %s" % (line, q[d]))
        else:
            if t != DOM or n < 0:
                return mod(False)
            left, right = not what.startswith("right"), not what.startswith("left")
            if not alloc:
                mod(True)
            elif "halo" in what:
                # Documented: at most the padding; wave-front extensions and requested extra padding also use it.
                if left and n > p[d]["left_pad_size"] or right and n > p[d]["right_pad_size"]:
                    return mod(False)
                if (not left or n <= p[d]["left_halo_size"]) and (not right or n <= p[d]["right_halo_size"]):
                    mod(True)
            if not ok:
                return
            if "halo" in what:
                v["halo"][d] = (n if left else p[d]["left_halo_size"], n if right else p[d]["right_halo_size"])
                if (q[d]["left_halo_size"], q[d]["right_halo_size"]) != v["halo"][d]:
                    raise Fail("geometry", "'%s' gave halos %d,%d" % (line, q[d]["left_halo_size"], q[d]["right_halo_size"]))
            else:
                a, b = v["minpad"].get(d, (0, 0))
                v["minpad"][d] = (n if left else a, n if right else b)
                if left and q[d]["left_pad_size"] < n or right and q[d]["right_pad_size"] < n:
                    raise Fail("geometry", "'%s' gave padding %d,%d" % (line, q[d]["left_pad_size"], q[d]["right_pad_size"]))


class C09(ApiCheck):
    ID = "C09"
    HIST = Geo
    NCFG = dict(quick=4, thorough=20)
    NPROG = dict(quick=10, thorough=110)
    NRUNS = 24
    RULE = ("a history = up to 45 settings of padding, halo, allocation and first index (valid, too large, negative, of the wrong dim) and storage operations "
            "before and after preparation, each followed by all geometry getters, and at the end by accesses at and next to all edges; "
            "non-trivial if at least 8 settings were accepted and 3 calls rejected; distinct by program and history")
    ASSUME = ["a halo setting after allocation that fits the padding may be refused only if it grows the halo (rounding and wave-front extensions use the padding too)"]

    def nontriv_hist(self, st):
        return st["writes"] >= 8 and st["rejected"] >= 3

    def program(self, i, rng):
        sp = ApiCheck.program(self, i, rng)
        if i % 2:
            sp["opts"] = (sp.get("opts", "") + " -no-inner-misc-layout").strip()
        return sp

    def one_run(self, rng, sp, k):
        hi = {1: 60, 2: 17, 3: 9}[len(sp["dims"])]
        h = dict(sizes={d: rng.randint(1, hi) for d in sp["dims"]}, kopts=self.kopts(rng, sp), threads=1, news=self.news(rng, sp), ranks=1, aseed=rng.getrandbits(40))
        for n in h["news"]:
            n["mods"] = []
        if k % 6 == 5:
            h["ranks"] = 2
            h["sizes"] = {d: n + {1: 30, 2: 16, 3: 12}[len(sp["dims"])] for d, n in h["sizes"].items()}
        if rng.random() < .4:
            h["kopts"] += " -Mbt %d -bt %d" % (rng.choice([1, 2, 4]), rng.choice([1, 2]))
        vs = self.vars_of(sp, h["news"])
        h["ops"] = self.ops(rng, sp, h, vs)
        return h

    def ops(self, rng, sp, h, vs):
        out = []
        alld = sorted(set(d for v in vs for d in v["dims"])) + ["nosuch"]
        vs = [v for v in vs if v["dims"]] or vs

        def mods(n, late):
            for _ in range(n):
                v = rng.choice(vs)
                if late and rng.random() < .12:
                    out.append(dict(op=rng.choice(["valloc", "vrelease", "valloc"]), v=v["name"]))
                    continue
                if not v["dims"]:
                    continue
                d = rng.choice(v["dims"]) if rng.random() < .93 else rng.choice(alld)
                dom, step = d in sp["dims"], d == sp["step"]
                good = rng.random() < .85
                if dom and good:
                    w = rng.choice(["left_min_pad_size", "right_min_pad_size", "min_pad_size", "left_halo_size", "right_halo_size", "halo_size"] + ["alloc_size"] * (v["name"][0] == "n"))
                elif step and good:
                    w = "alloc_size"
                elif good:
                    w = rng.choice(["alloc_size", "first_misc_index", "first_misc_index"])
                else:
                    w = rng.choice(["left_min_pad_size", "right_min_pad_size", "min_pad_size", "left_halo_size", "right_halo_size", "halo_size", "alloc_size", "first_misc_index"])
                if w == "alloc_size":
                    n = rng.choice([1, 2, 3, 4, 7])
                elif w == "first_misc_index":
                    n = rng.choice([-100, -3, -1, 0, 1, 2, 50, 10 ** 6])
                else:
                    n = rng.choice([0, 0, 1, 1, 2, 3, 4, 7, 9, 17, -1 if rng.random() < .5 else 1])
                    if late and rng.random() < .15:
                        n = rng.choice([40, 100, 1000])
                out.append(dict(op="vmod", v=v["name"], what=w, d=d, n=n))
        # Vars made at run time need the sizes of their non-domain dims.
        for n in h["news"]:
            if n["op"] == "newvar":
                for d in n["dims"]:
                    if d not in sp["dims"]:
                        out.append(dict(op="vmod", v=n["name"], what="alloc_size", d=d, n=rng.choice([1, 2, 3, 4])))
        mods(rng.randint(5, 20), False)
        out.append(dict(op="prepare"))
        mods(rng.randint(8, 25), True)
        if rng.random() < .3:
            out.append(dict(op="prepare"))
            mods(rng.randint(2, 8), True)
        return out

    def candidates(self, case, fail):
        for c in ApiCheck.candidates(self, case, fail):
            if any(o["op"] == "prepare" for o in c["runs"][0]["ops"]) or len(c["runs"]) > 1:
                yield c
