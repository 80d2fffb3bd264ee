"""C06: running steps in pieces; step indices are exact."""
import copy, shutil
import numpy as np
from yv import build, ref, speccheck as sc
from .common import SpecCheck, Fail


class C06(SpecCheck):
    ID = "C06"
    NCFG = dict(quick=4, thorough=20)
    NPROG = dict(quick=24, thorough=300)
    NRUNS = 6
    WORKERS = 7
    RULE = ("a history = several run calls of one program with element writes between them and element reads after each of them; non-trivial "
            "if it has at least two run calls, wrote points, and its tolerance was below 1% of the data's magnitude; distinct by program and history")

    def gen_kw(self, i):
        return dict(pdepth2=.7, prev=.45, target="avx2", pnonlin=.04, pscond=.25, pstage=.6, minscond=1 if i % 4 == 3 else 0)

    def cfg_kw(self, i):
        return dict(target="avx2", elem=[8, 8, 4, 8][i % 4], ndims=[1, 2, 2, 3][i % 4])

    def program(self, i, rng):
        sp = SpecCheck.program(self, i, rng)
        # Step allocation chosen by the program, by an option, or by the compiler.
        k = rng.random()
        dep = sc.depth_of(sp)
        if k < .35:
            for v in sp["vars"]:
                if not v.get("scratch") and sp["step"] in v["dims"] and rng.random() < .8:
                    v["stepalloc"] = dep.get(v["name"], 0) + 2 + rng.choice([0, 0, 1, 3])
        elif k < .5:
            sp["opts"] = (sp["opts"] + " -step-alloc %d" % (max(list(dep.values()) + [0]) + 2 + rng.choice([0, 1, 2]))).strip()
        return sp

    def one_run(self, rng, sp, k):
        sizes = sc.gen_sizes(rng, sp, hi={1: 40, 2: 16, 3: 9}[len(sp["dims"])])
        t0 = rng.choice([0, 0, 3, -4, 1000])
        calls = sc.gen_calls(rng, sp, maxsteps=9, minsteps=3, split=[0, .6, 1][k % 3], t0=t0)
        run = dict(sizes=sizes, seed=rng.randint(1, 1 << 30), threads=rng.choice([1, 2]), calls=calls,
                   kopts=" ".join(x for x in (sc.gen_tiles(rng, sp, sizes, p=.3), sc.gen_misc(rng, sp, .1)) if x))
        if k % 3:
            dep = sc.depth_of(sp)
            out = []
            for c in calls:
                out.append(c)
                if c is not calls[-1] or rng.random() < .5:
                    for _ in range(rng.choice([0, 1, 1, 3])):
                        p = sc.gen_poke(rng, sp, run, c[1] + sp["dir"], dep)
                        if p and self.valid_step(sp, calls[0][0], p):
                            out.append(p)
            run["calls"] = out
        if k == 5:
            run["ranks"], run["threads"], run["poison"] = 2, 1, 1
            run["sizes"] = {d: n + {1: 30, 2: 20, 3: 10}[len(sizes)] for d, n in sizes.items()}
        # Reads after each run call: (call position, var, index without its step, step relative to the newest one).
        run["probes"] = []
        for i, c in enumerate(run["calls"]):
            if isinstance(c, list):
                for v in sp["vars"]:
                    if not v.get("scratch") and sp["step"] in v["dims"]:
                        mr = sc.misc_of(sp)
                        run["probes"].append([i, v["name"], [rng.randint(0, run["sizes"][d] - 1) if d in sp["dims"] else rng.randint(*mr[(v["name"], d)]) if d != sp["step"] else None
                                                             for d in v["dims"]], rng.random(), rng.choice([-7, -3, -1, 1, 2, 11]), rng.randint(-12, 12)])
        return run

    @staticmethod
    def valid_step(sp, t0, p):
        """Whether the step of a poke is certainly in the var's window (which starts at step 0) once t0 was run."""
        dims = [v["dims"] for v in sp["vars"] if v["name"] == p["v"]][0]
        if sp["step"] not in dims:
            return True
        s, s0 = p["f"][dims.index(sp["step"])], t0 + sp["dir"]
        if sp["dir"] > 0:
            return s >= min(s0, 0)
        return s <= s0 or s0 < 0

    def run_case(self, case):
        sp = case["spec"]
        exe = sc.build_spec(self.base, sp)
        st = []
        try:
            for i, run in enumerate(case["runs"]):
                for _ in range(case.get("repeat", 1)):
                    try:
                        x = self.one(exe, sp, run)
                    except sc.Refused:
                        x = dict(informative=False, refused=True)
                    except Fail as f:
                        f.run = i
                        raise
                st.append(x)
        finally:
            self.base.drop(exe)
        keys = [sc.hashlib.sha1(repr((i, r)).encode() + repr(sp).encode()).hexdigest()[:12] for i, (r, s) in enumerate(zip(case["runs"], st))
                if s["informative"] and len(sc.logical_calls(r)) > 1]
        return dict(nontrivial=bool(keys), keys=keys, evals=sum(1 for s in st if not s.get("refused")), labels=self.labels_of(case, st))

    def one(self, exe, sp, run):
        if run.get("ranks", 1) > 1:
            return sc.check_run(self.base, exe, sp, run)
        # Windows first: ask for them along the way, then read at indices inside and outside of them.
        dirn = sp["dir"]
        dims_of = {v["name"]: v["dims"] for v in sp["vars"]}
        L = ["soln S", 'opts S "%s %s"' % (sc.size_opts(sp, run["sizes"]), run.get("kopts", "")), "prepare S"]
        for v in sp["vars"]:
            if not v.get("scratch"):
                L.append("fill S %s %d %d v 0" % (v["name"], run["seed"], v["mode"]))
        ask = []        # (line, kind, …)
        stepvars = [v["name"] for v in sp["vars"] if not v.get("scratch") and sp["step"] in v["dims"]]

        def win(state):
            for n in stepvars:
                L.append("vfn S %s first_valid_step_index" % n)
                L.append("vfn S %s last_valid_step_index" % n)
                ask.append((len(L), "win", n, state))
        win(-1)
        base = sc.script(sp, dict(run, calls=[]))
        for i, c in enumerate(run["calls"]):
            one = sc.script(sp, dict(run, calls=[c]))
            L.append([x for x in one if x not in base][0] if one != base else one[-2])
            if isinstance(c, list):
                win(i)
                for pi, v, ix, frac, out, far in run["probes"]:
                    if pi != i:
                        continue
                    t = c[-1] + dirn
                    # The step is taken relative to the newest one; inside or outside is decided afterwards from the window.
                    for s in (t - dirn * int(frac * 4), t + out):
                        jx = [s if x is None else x for x in ix]
                        L.append("vget S %s %s" % (v, ",".join(map(str, jx))))
                        ask.append((len(L), "get", v, jx, s, i))
                    L.append("wrap S 1")
                    jx = [t + far if x is None else x for x in ix]
                    L.append("vget S %s %s" % (v, ",".join(map(str, jx))))
                    ask.append((len(L), "wrapget", v, jx, t + far, i))
                    L.append("wrap S 0")
        L.append("dump S d")
        r = build.run_script(self.base, exe, L, threads=run.get("threads", 2))
        try:
            if r.timeout:
                raise Fail("hang", "run did not finish")
            if not r.ok:
                raise Fail("crash", "exit %s: %s" % (r.rc, r.log[-300:]))
            res = r.res(0)
            dumps = [ref.read_dump(r.wd + "/d.0")]
        finally:
            shutil.rmtree(r.wd, ignore_errors=True)
        may_throw = {a[0] for a in ask if a[1] == "get"}
        for k, (s, rest) in res.items():
            if k and s != "ok" and k not in may_throw:
                raise Fail("exception:" + sc.normal(rest), "'%s' threw: %s" % (L[k - 1], rest[:300]))
        R = sc.make_ref(sp, run, dumps)
        W = {n: [0, R.alloc[n] - 1] for n in stepvars}
        scond = {q["l"][1] for q in sp["eqs"] if q.get("s")}
        written = {q["l"][1] for q in sp["eqs"]}
        nwr = nread = 0
        cur = -1

        def shift(n, s):
            w = W[n]
            if s < w[0]:
                W[n] = [s, s + R.alloc[n] - 1]
            elif s > w[1]:
                W[n] = [s - R.alloc[n] + 1, s]
        # fill() writes every step of the initial window: no change.
        for a in ask:
            tgt = a[3] if a[1] == "win" else a[5]
            while cur < tgt:
                cur += 1
                c = run["calls"][cur]
                if isinstance(c, dict):
                    R.poke(c["v"], c["f"], c["l"], c["val"])
                    for d, f, l in zip(dims_of[c["v"]], c["f"], c["l"]):
                        if d == sp["step"]:
                            for s in range(f, l + 1):
                                shift(c["v"], s)
                    continue
                nwr += R.run(c[0], c[-1])
                for t in range(c[0], c[-1] + dirn, dirn):
                    for n in stepvars:
                        if n in written and n not in scond:
                            shift(n, t + dirn)
            if a[1] == "win":
                got = [int(res[a[0] - 1][1]), int(res[a[0]][1])]
                n = a[2]
                if n in scond:      # Which steps it was written on is checked through the values only.
                    if got[1] - got[0] + 1 != R.alloc[n]:
                        raise Fail("window", "var %s: window %s does not have the %d allocated steps" % (n, got, R.alloc[n]))
                    W[n] = got
                elif got != W[n]:
                    raise Fail("window", "var %s after call %d: valid steps %s, expected %s (allocation %d)" % (n, cur, got, W[n], R.alloc[n]))
                continue
            st, rest = res[a[0]]
            w = W[a[2]]
            inside = w[0] <= a[4] <= w[1]
            if a[1] == "get" and inside != (st == "ok"):
                raise Fail("window", "reading var %s at %s with valid steps %s: %s" % (a[2], a[3], w, st + " " + rest[:150]))
            if st != "ok":
                continue
            s = a[4] if inside else w[0] + (a[4] - w[0]) % R.alloc[a[2]]
            got = float.fromhex(rest.split()[0]) if "x" in rest else float(rest.split()[0])
            x, E = self.at(R, sp, a[2], a[3], s)
            nread += 1
            if np.isfinite(x) and np.isfinite(E) and not abs(x - got) <= ref.TOL * R.eps * E:
                raise Fail("value", "var %s at %s (step %d) after call %d: expected %.17g, read %.17g" % (a[2], a[3], s, cur, x, got))
        while cur < len(run["calls"]) - 1:
            cur += 1
            c = run["calls"][cur]
            if isinstance(c, dict):
                R.poke(c["v"], c["f"], c["l"], c["val"])
            else:
                nwr += R.run(c[0], c[-1])
        bad, m, rel = ref.compare(R, dumps[0], check_halo=True)
        if bad:
            raise Fail("value", "; ".join(bad[:4]))
        self.extra["element_reads"] = self.extra.get("element_reads", 0) + nread
        return dict(points=m, written=nwr, rel=rel, informative=bool(nwr and rel < 1e-2))

    def at(self, R, sp, n, jx, s):
        a, E = R.content(n, s)
        k = []
        for d, i in zip(R.vars[n]["dims"], jx):
            if d == sp["step"]:
                continue
            k.append(i + R.H[d] if d in sp["dims"] else i - R.misc_range(n, d)[0])
        return float(a[tuple(k)]), float(E[tuple(k)])

    def candidates(self, case, fail):
        for c in sc.case_candidates(case, fail):
            ok = True
            c = dict(c, runs=copy.deepcopy(c["runs"]))
            for r in c["runs"]:
                names = {v["name"]: v["dims"] for v in c["spec"]["vars"]}
                r["calls"] = [x for x in r["calls"] if not isinstance(x, dict) or x["v"] in names]
                r["probes"] = [p for p in r.get("probes", []) if p[1] in names and p[0] < len(r["calls"]) and isinstance(r["calls"][p[0]], list)
                               and all(x is None or d not in r["sizes"] or x < r["sizes"][d] for d, x in zip(names[p[1]], p[2]))]
                for x in r["calls"]:
                    if isinstance(x, dict) and any(d in r["sizes"] and b >= r["sizes"][d] for d, b in zip(names[x["v"]], x["l"])):
                        ok = False
            if ok:
                yield c
        if len(case["runs"]) == 1:
            r = case["runs"][0]
            for i, c in enumerate(r["calls"]):
                if isinstance(c, dict):
                    yield dict(case, runs=[dict(r, calls=r["calls"][:i] + r["calls"][i + 1:], probes=[])])
            if r.get("probes"):
                yield dict(case, runs=[dict(r, probes=[])])
