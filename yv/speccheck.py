"""Evaluates a generated case (program + runs) on the real code against the reference interpreter."""
import copy, json, os, random, re, shutil, hashlib
from . import build, ref, spec as specmod
from .ref import walk


class Fail(Exception):
    """The property does not hold on a case."""

    def __init__(self, cls, msg):
        Exception.__init__(self, "%s: %s" % (cls, msg))
        self.cls = cls


class Refused(Exception):
    """A run whose sizes YASK documents as too small to be split over the ranks: nothing was computed, so nothing is judged."""


REFUSALS = ("is less than minimum size", "is not large enough to split across", "sum of local-domain sizes across")


def normal(msg):
    return re.sub(r"[-+]?\d[\d.e+-]*", "#", re.sub(r"'[^']*'", "''", msg))[:120]


# ---------------------------------------------------------------- building
def build_spec(base, sp, allow_new=0, macros=(), env=None, post=()):
    """-> exe. Raises Fail if a legal program is not accepted or its generated code does not build."""
    cf = "%s/code%d.hpp" % (base.dir, base.uid())
    rc, out = base.mkstencil(specmod.to_text(sp, out=cf, post=post), env=env)
    if rc == -999:
        raise Fail("compiler-hang", "YASK compiler did not finish")
    if rc:
        raise Fail("rejected" if rc == 3 else "compiler-crash", "YASK compiler exit %d on a legal program: %s" % (rc, out[-600:].strip()))
    code = open(cf).read()
    os.unlink(cf)
    try:
        return base.kernel(code, sp.get("name", "s"), sp.get("target", "avx2"), sp.get("elem", 4), allow_new=allow_new, macros=macros)
    except build.BuildError as e:
        raise Fail("build", "generated code does not build: %s" % "\n".join(l for l in str(e).splitlines() if "error" in l)[:800])


# ---------------------------------------------------------------- running
def size_opts(sp, sizes, prefix="-g"):
    return " ".join("%s%s %d" % (prefix, d, sizes[d]) for d in sp["dims"])


def script(sp, run, fills=True):
    L = ["soln S", 'opts S "%s %s"' % (size_opts(sp, run["sizes"]), run.get("kopts", ""))]
    L += run.get("pre", [])
    L.append("prepare S")
    for v in sp["vars"]:
        if not v.get("scratch"):
            L.append("fill S %s %d %d %s %d" % (v["name"], run["seed"], v["mode"], run.get("base", "v"), run.get("poison", 0)))
    L += run.get("mid", [])
    for c in run["calls"]:
        if isinstance(c, str):
            L.append(c)
        elif isinstance(c, dict):
            if c["op"] == "exch":
                L.append("exchange S")
            elif c["op"] in ("vown", "vallr"):
                L.append("%s S %s %r %d %s %s" % (c["op"], c["v"], c["val"], c["mode"], ",".join(map(str, c["f"])) or "-", ",".join(map(str, c["l"])) or "-"))
        elif len(c) == 2:
            L.append("run S %d %d" % tuple(c))
        else:
            L.append("run S %d" % c[0])
    L.append("dump S d")
    if run.get("fresh"):
        L += ["vinfo S " + v["name"] for v in sp["vars"] if not v.get("scratch")]
    L += run.get("post", [])
    return L


def logical_calls(run):
    return [c for c in run["calls"] if isinstance(c, (list, tuple))]


def run_exe(base, exe, sp, run, timeout=60):
    """-> (RunResult, [dump per rank]); raises Fail."""
    L = script(sp, run)
    r = build.run_script(base, exe, L, ranks=run.get("ranks", 1), threads=run.get("threads", 2), timeout=timeout,
                         env={"YV_ABORT": "1"} if run.get("ranks", 1) > 1 else None)
    for k in range(run.get("ranks", 1)):        # An exception is the cause of what follows it.
        for ln, st, rest in r.ranks[k]:
            if st not in ("ok", "DONE"):
                shutil.rmtree(r.wd, ignore_errors=True)
                if L[ln - 1].startswith("prepare") and run.get("ranks", 1) > 1 and any(x in rest for x in REFUSALS):
                    raise Refused(rest)
                raise Fail("exception:" + normal(rest), "rank %d: '%s' threw: %s" % (k, L[ln - 1], rest[:300]))
    if r.timeout:
        shutil.rmtree(r.wd, ignore_errors=True)
        raise Fail("hang", "kernel run did not finish in %d s: %s" % (timeout, json.dumps(run)))
    if not r.ok:
        shutil.rmtree(r.wd, ignore_errors=True)
        raise Fail("crash", "kernel run ended with code %s: %s" % (r.rc, r.log[-500:].strip()))
    dumps = [ref.read_dump("%s/d.%d" % (r.wd, k)) for k in range(run.get("ranks", 1))]
    return r, dumps


def make_ref(sp, run, dumps):
    alloc, pad = {}, {x: 0 for x in sp["dims"]}
    mr = {}
    for d in dumps:
        for n, (dims, a) in d.items():
            for q in dims or []:
                if q["ty"] == "s":
                    if alloc.setdefault(n, q["al"]) != q["al"]:
                        raise Fail("value", "ranks differ in step allocation of " + n)
                elif q["ty"] == "d":
                    pad[q["n"]] = max(pad[q["n"]], -q["fl"], q["ll"] - run["sizes"][q["n"]] + 1)
                else:
                    mr[(n, q["n"])] = (q["fl"], q["ll"])
    R = ref.Ref(sp, run["sizes"], alloc, run["seed"], {k: v + 16 for k, v in pad.items()})
    for (n, m), (lo, hi) in mr.items():
        R.set_misc_range(n, m, lo, hi)
    return R


def cover(sp, run, dumps):
    """Each point of the overall domain must be owned by exactly one rank (any full-dim var)."""
    if len(dumps) < 2:
        return
    import numpy as np
    c = np.zeros([run["sizes"][d] for d in sp["dims"]], int)
    for d in dumps:
        for n, (dims, a) in d.items():
            dd = {q["n"]: q for q in dims or [] if q["ty"] == "d"}
            if set(dd) == set(sp["dims"]):
                c[tuple(slice(dd[x]["df"], dd[x]["dl"] + 1) for x in sp["dims"])] += 1
                break
        else:
            return
    if not (c == 1).all():
        raise Fail("value", "ranks do not partition the domain")


def check_run(base, exe, sp, run, check_halo=True, timeout=60):
    """Runs and compares with the reference. -> stats dict. Raises Fail."""
    r, dumps = run_exe(base, exe, sp, run, timeout)
    shutil.rmtree(r.wd, ignore_errors=True)
    R = make_ref(sp, run, dumps)
    nwr = 0
    for c in run["calls"]:
        if isinstance(c, (list, tuple)):
            nwr += R.run(c[0], c[1] if len(c) > 1 else c[0])
        elif isinstance(c, dict) and c["op"] in ("vown", "vallr"):
            R.poke(c["v"], c["f"], c["l"], c["val"])
    fresh = None
    if run.get("fresh"):
        fresh = {}
        L = script(sp, run)
        for v in sp["vars"]:
            if not v.get("scratch"):
                fresh[v["name"]] = int(r.res(0)[1 + L.index("vinfo S " + v["name"])][1].split()[-1])
    cover(sp, run, dumps)
    n = 0
    rel = 0.0
    for k, d in enumerate(dumps):
        bad, m, rl = ref.compare(R, d, check_halo=check_halo, fresh=fresh)
        if bad:
            raise Fail("value", ("rank %d: " % k if len(dumps) > 1 else "") + "; ".join(bad[:4]))
        n += m
        rel = max(rel, rl)
    return dict(points=n, written=nwr, rel=rel, informative=bool(nwr and rel < 1e-2), res=r)


def eval_case(base, case, allow_new=0):
    """case: {"spec":…, "runs":[…]} -> list of per-run stats. Raises Fail."""
    sp = case["spec"]
    exe = build_spec(base, sp, allow_new=allow_new)
    try:
        st = []
        for i, run in enumerate(case["runs"]):
            try:
                for _ in range(case.get("repeat", 1)):
                    x = check_run(base, exe, sp, run, check_halo=case.get("check_halo", True), timeout=case.get("timeout", 60))
                st.append(x)
            except Refused:
                st.append(dict(points=0, written=0, rel=0.0, informative=False, refused=True))
            except Fail as f:
                f.run = i
                raise
        return st
    finally:
        base.drop(exe)


# ---------------------------------------------------------------- generators of run configurations
MAXSZ = {1: 70, 2: 26, 3: 14}


def gen_sizes(rng, sp, lo=1, hi=None):
    hi = hi or MAXSZ[len(sp["dims"])]
    return {d: rng.randint(lo, hi) for d in sp["dims"]}


def gen_calls(rng, sp, maxsteps=4, split=0.0, t0=0, minsteps=1):
    n = rng.randint(minsteps, maxsteps)
    if sp.get("dir", 1) > 0:
        a, b = t0, t0 + n - 1
    else:
        a, b = t0 + n, t0 + 1
    d = sp.get("dir", 1)
    calls = []
    cur = a
    for t in range(a, b + d, d):
        if t == b or rng.random() < split:
            calls.append([cur, t])
            cur = t + d
    return calls


def gen_poke(rng, sp, run, tlast, depth, who=None):
    """A write of a small slice between runs; tlast = most recent step index that is valid."""
    cand = []
    for v in sp["vars"]:
        if v.get("scratch"):
            continue
        wr = [q for q in sp["eqs"] if q["l"][1] == v["name"]]
        if wr and any(q.get("s") for q in wr) and "t" in v["dims"]:
            continue
        cand.append((v, bool(wr)))
    if not cand:
        return None
    v, wr = rng.choice(cand)
    f, l = [], []
    mr = misc_of(sp)
    for d in v["dims"]:
        if d == sp["step"]:
            if not wr:
                return None
            s = tlast - sp.get("dir", 1) * rng.randint(0, depth.get(v["name"], 0))
            f.append(s)
            l.append(s)
        elif d in sp["dims"]:
            a = rng.randint(0, run["sizes"][d] - 1)
            b = min(run["sizes"][d] - 1, a + rng.choice([0, 0, 1, 3, 7]))
            if who == "vallr" and rng.random() < .3:
                a, b = rng.choice([(-1, -1), (run["sizes"][d], run["sizes"][d])]) if has_halo(sp, v["name"], d) else (a, b)
            f.append(a)
            l.append(b)
        else:
            lo, hi = mr[(v["name"], d)]
            a = rng.randint(lo, hi)
            f.append(a)
            l.append(rng.randint(a, hi))
    val = rng.randint(1, 4) if v["mode"] in (1, 2) else float(rng.randint(-20, 20)) if v["mode"] != 4 else float(rng.randint(0, 1))
    return dict(op=who or "vown", v=v["name"], f=f, l=l, val=val, mode=rng.choice([0, 1, 2, 3, 4]))


def all_exprs(sp):
    for q in sp["eqs"]:
        for c in "lrds":
            if q.get(c):
                yield q[c]
    for e in sp.get("lets", {}).values():
        yield e


def points(sp):
    for e in all_exprs(sp):
        for x in walk(e):
            if isinstance(x, (list, tuple)) and x and x[0] == "p":
                yield x


def misc_of(sp):
    """Range of the misc indices that the program uses; allocation covers exactly these."""
    vd = {v["name"]: v["dims"] for v in sp["vars"]}
    out = {}
    for x in points(sp):
        for d, i in zip(vd[x[1]], x[2:]):
            if d in (sp.get("misc") or []):
                b, o = ref.offset_of(i)
                lo, hi = out.get((x[1], d), (o, o))
                out[(x[1], d)] = (min(lo, o), max(hi, o))
    return out


def has_halo(sp, n, d):
    vd = {v["name"]: v["dims"] for v in sp["vars"]}
    os = [ref.offset_of(i)[1] for x in points(sp) if x[1] == n for dd, i in zip(vd[n], x[2:]) if dd == d]
    return min(os) < 0 < max(os)


def depth_of(sp):
    """How many steps before the current one each var is read."""
    vd = {v["name"]: v["dims"] for v in sp["vars"]}
    out = {}
    for x in points(sp):
        for d, i in zip(vd[x[1]], x[2:]):
            if d == sp["step"]:
                out[x[1]] = max(out.get(x[1], 0), -sp.get("dir", 1) * ref.offset_of(i)[1])
    return out


LEVELS = ("Mb", "b", "mb", "nb", "pb")


def gen_tiles(rng, sp, sizes, temporal=.4, p=.6):
    """Random tile sizes at each level, incl. temporal."""
    o = []
    for lv in LEVELS:
        if rng.random() > p:
            continue
        for d in sp["dims"]:
            if rng.random() < .6:
                o.append("-%s%s %d" % (lv, d, rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 12, 16, max(1, sizes[d] // 2), sizes[d], sizes[d] + 3])))
    if rng.random() < temporal:
        o.append("-Mbt %d" % rng.choice([1, 2, 3, 4]))
    if rng.random() < temporal:
        o.append("-bt %d" % rng.choice([1, 2, 2, 3, 4]))
    return " ".join(o)


def gen_threads(rng):
    o = []
    if rng.random() < .4:
        a, b = rng.choice([(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (4, 1), (1, 4), (2, 3), (4, 2)])
        o.append("-outer_threads %d -inner_threads %d" % (a, b))
        if rng.random() < .5:
            o.append("-max_threads %d" % (a * b))
        if rng.random() < .3:
            o.append("-bind_inner_threads")
    elif rng.random() < .3:
        o.append("-max_threads %d" % rng.choice([1, 2, 3, 5]))
    return " ".join(o)


def gen_misc(rng, sp, p=.25):
    o = []
    for b in ("force_scalar", "round_up_temporal_angles", "bundle_allocs", "allow_addl_padding"):
        if rng.random() < p:
            o.append("-%s%s" % (rng.choice(["", "no-"]), b))
    for k in ("ep", "mp"):
        if rng.random() < p * .6:
            for d in sp["dims"]:
                if rng.random() < .6:
                    o.append("-%s%s %d" % (k, d, rng.choice([0, 1, 3, 5, 8])))
    return " ".join(o)


# ---------------------------------------------------------------- shrinking
def has_scratch(sp, n):
    return any(v["name"] == n and v.get("scratch") for v in sp["vars"])


def used_vars(sp, eqs):
    u = set()

    def mark(e):
        for x in walk(e):
            if isinstance(x, (list, tuple)) and x and x[0] == "p":
                u.add(x[1])
            if isinstance(x, str) and x in sp.get("lets", {}):
                mark(sp["lets"][x])
    for q in eqs:
        for c in "lrds":
            if q.get(c):
                mark(q[c])
    return u


def clean(sp):
    """Drop scratch equations that nothing reads, and unused vars/lets."""
    sp = copy.deepcopy(sp)
    sp.pop("eqorder", None)
    sp.pop("flow", None)
    while True:
        rd = used_vars(sp, [dict(r=q["r"], d=q.get("d"), s=q.get("s")) for q in sp["eqs"]])
        n = [q for q in sp["eqs"] if not has_scratch(sp, q["l"][1]) or q["l"][1] in rd]
        if len(n) == len(sp["eqs"]):
            break
        sp["eqs"] = n
    u = used_vars(sp, sp["eqs"])
    sp["vars"] = [v for v in sp["vars"] if v["name"] in u]
    if sp.get("misc"):
        m = [x for x in sp["misc"] if any(x in v["dims"] for v in sp["vars"])]
        sp["misc"] = m
        if not m:
            sp.pop("misc")
    names = set(x for q in sp["eqs"] for x in walk(q["r"]) if isinstance(x, str))
    sp["lets"] = {k: e for k, e in sp.get("lets", {}).items() if k in names}
    return sp


def spec_candidates(sp):
    eqs = sp["eqs"]
    # Drop whole equations (all equations of a scratch var stay together).
    st = [i for i, q in enumerate(eqs) if not has_scratch(sp, q["l"][1])]
    if len(st) > 1:
        for i in st:
            c = copy.deepcopy(sp)
            del c["eqs"][i]
            yield clean(c)
    # Drop conditions of equations whose LHS is unique.
    for i, q in enumerate(eqs):
        if sum(1 for z in eqs if z["l"] == q["l"]) == 1:
            for k in "ds":
                if q.get(k):
                    c = copy.deepcopy(sp)
                    c["eqs"][i].pop(k)
                    yield clean(c)
    # Compiler options.
    if sp.get("opts"):
        c = copy.deepcopy(sp)
        c["opts"] = ""
        yield c
        t = re.findall(r"-\S+(?: [^-]\S*)?", sp["opts"])
        for k in range(len(t)):
            c = copy.deepcopy(sp)
            c["opts"] = " ".join(t[:k] + t[k + 1:])
            yield c
    for n, e in sp.get("lets", {}).items():
        c = copy.deepcopy(sp)

        def sub(x):
            return e if x == n else ([sub(y) for y in x] if isinstance(x, list) else x)
        for q in c["eqs"]:
            q["r"] = sub(q["r"])
        yield clean(c)
    # Simplify right-hand sides: replace a node by one of its children, or by a constant.
    for i, q in enumerate(eqs):
        def subs(e):
            if isinstance(e, list) and e[0] != "p":
                kids = e[1:]
                for k in kids:
                    yield k
                if len(kids) > 2:
                    for j in range(len(kids)):
                        yield [e[0]] + kids[:j] + kids[j + 1:]
                for j, k in enumerate(kids):
                    for s in subs(k):
                        yield [e[0]] + kids[:j] + [s] + kids[j + 1:]
        n = 0
        for s in subs(q["r"]):
            c = copy.deepcopy(sp)
            c["eqs"][i]["r"] = copy.deepcopy(s)
            yield clean(c)
            n += 1
            if n > 24:
                break


def run_candidates(sp, run):
    def mod(**k):
        c = copy.deepcopy(run)
        c.update(k)
        return c
    if run.get("kopts", "").strip():
        yield mod(kopts="")
        t = re.findall(r"-\S+(?: [^-\s]\S*| -\d+)?", run["kopts"])
        if len(t) > 1:
            yield mod(kopts=" ".join(t[:len(t) // 2]))
            yield mod(kopts=" ".join(t[len(t) // 2:]))
            for k in range(len(t)):
                yield mod(kopts=" ".join(t[:k] + t[k + 1:]))
    if run.get("ranks", 1) > 1 and "-nr" not in run.get("kopts", ""):
        yield mod(ranks=1, poison=0)
    if run.get("threads", 1) > 1:
        yield mod(threads=1)
    lc = logical_calls(run)
    if len(lc) == len(run["calls"]):
        if len(lc) > 1:
            yield mod(calls=[lc[0][:1] + lc[-1][-1:]])
            yield mod(calls=lc[:-1])
        elif len(lc[0]) == 2 and lc[0][0] != lc[0][1]:
            yield mod(calls=[[lc[0][0], lc[0][1] - sp.get("dir", 1)]])
            yield mod(calls=[[lc[0][0], lc[0][0]]])
    for d in sp["dims"]:
        n = run["sizes"][d]
        for m in (1, n // 2, n - 1):
            if 0 < m < n:
                z = dict(run["sizes"])
                z[d] = m
                yield mod(sizes=z)


def case_candidates(case, fail):
    i = getattr(fail, "run", None)
    if i is not None and len(case["runs"]) > 1:
        yield dict(case, runs=[case["runs"][i]])
    if len(case["runs"]) == 1:
        for r in run_candidates(case["spec"], case["runs"][0]):
            yield dict(case, runs=[r])
    if not case.get("nospec"):
        for s in spec_candidates(case["spec"]):
            yield dict(case, spec=s)
