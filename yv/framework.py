"""Check driver: generation in parallel, confirmation, shrinking, replay files, evidence, known findings."""
import concurrent.futures as cf, hashlib, json, os, random, sys, time, traceback
from . import build
from .speccheck import Fail

HERE = build.HERE
KF = HERE + "/KNOWN_FINDINGS.txt"


def canon(x):
    return json.dumps(x, sort_keys=True, default=str)


def digest(x):
    return hashlib.sha1(canon(x).encode()).hexdigest()[:12]


def rng_for(seed, *what):
    return random.Random("%s|%s" % (seed, "|".join(str(w) for w in what)))


class Check:
    """One property. Subclasses define ID, RULE, LEVEL and:
         setup(): build what all cases need.
         cases(): iterable of JSON-able cases (a pure function of self.seed and self.tier).
         run_case(case) -> dict(nontrivial=bool, labels=[…], evals=int); raises Fail on a violation.
         candidates(case, fail): simpler cases, for shrinking.
         sample(case) -> a short JSON-able form for the evidence.
       Optional: probes(): {name: callable raising Fail} for the known findings."""
    ID = None
    RULE = ""
    LEVEL = "exploration"
    WORKERS = build.NCPU
    SOFT = {"quick": 420, "thorough": 760}
    SHRINK = {"quick": 90, "thorough": 120}
    ASSUME = []

    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.t0 = time.time()
        self.quick = tier != "thorough"
        self.base = None
        self.labels = {}
        self.extra = {}
        self.nonconfirmed = []

    def setup(self):
        pass

    def candidates(self, case, fail):
        return ()

    def sample(self, case):
        return case

    def probes(self):
        return {}

    # ---
    def rng(self, *what):
        return rng_for(self.seed, self.ID, *what)

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def elapsed(self):
        return time.time() - self.t0

    def _one(self, case):
        try:
            return case, self.run_case(case), None
        except Fail as f:
            return case, None, f

    def confirm(self, case, fail):
        """-> (case, Fail) if the failure is seen again, else None. A failure that needs a particular interleaving
        is confirmed with concurrent copies; its case then carries a number of repetitions for the replay."""
        last = None
        for _ in range(2):
            c, r, f = self._one(case)
            if f is None:
                break
            last = f
        else:
            return case, last
        if last is None and fail.cls not in ("value", "crash"):
            return None
        if not isinstance(case, dict):
            return None
        rep = dict(case, repeat=25)
        with cf.ThreadPoolExecutor(self.WORKERS) as ex:
            for c, r, f in ex.map(self._one, [rep] * self.WORKERS):
                if f is not None and f.cls == fail.cls:
                    return rep, f
        return None

    def shrink(self, case, fail):
        end = time.time() + (0 if os.environ.get("YV_NOSHRINK") else self.SHRINK[self.tier])
        steps = 0
        best, bf = case, fail
        seen = {digest(case)}
        with cf.ThreadPoolExecutor(self.WORKERS) as ex:
            while time.time() < end:
                batch, found = [], False
                for c in self.candidates(best, bf):
                    k = digest(c)
                    if k in seen:
                        continue
                    seen.add(k)
                    batch.append(c)
                    if len(batch) >= self.WORKERS:
                        hit = self._batch(ex, batch, bf)
                        steps += len(batch)
                        batch = []
                        if hit:
                            best, bf = hit
                            found = True
                            break
                        if time.time() > end:
                            break
                if not found and batch and time.time() < end:
                    hit = self._batch(ex, batch, bf)
                    steps += len(batch)
                    if hit:
                        best, bf = hit
                        found = True
                if not found:
                    break
        return best, bf, steps

    def _batch(self, ex, batch, fail):
        for c, r, f in ex.map(self._try, batch):
            if f is not None and f.cls == fail.cls:
                return c, f
        return None

    def _try(self, c):
        try:
            return self._one(c)
        except Exception:
            return c, None, None

    def known(self):
        out = []
        try:
            for l in open(KF):
                l = l.strip()
                if l.startswith("finding: property=%s " % self.ID):
                    p = dict(x.split("=", 1) for x in l.split()[1:3])
                    out.append((p["probe"], l.split(" ", 3)[3]))
        except OSError:
            pass
        return out

    def report(self, case, fail, how):
        d = HERE + "/replays"
        os.makedirs(d, exist_ok=True)
        p = "%s/%s-%s.json" % (d, self.ID, digest(case))
        with open(p, "w") as f:
            json.dump(dict(property=self.ID, case=case, failure=str(fail), found_by=how, tier=self.tier, seed=self.seed), f, indent=1, default=str)
        print(str(fail)[:2000])
        print("VIOLATION property=%s replay=%s" % (self.ID, p), flush=True)

    def run(self):
        evals = cases = 0
        nontriv = set()
        samples = []
        viol = 0
        self.setup()
        pr = self.probes()
        for name, what in self.known():
            if name not in pr:
                continue
            try:
                pr[name]()
            except Fail as f:
                print("KNOWN-FINDING: property=%s %s" % (self.ID, what), flush=True)
        stop = False
        failures = []
        gen = iter(self.cases())
        with cf.ThreadPoolExecutor(self.WORKERS) as ex:
            pend = set()
            done_gen = False
            while True:
                while not done_gen and not stop and len(pend) < self.WORKERS + 2:
                    if self.elapsed() > self.SOFT[self.tier]:
                        done_gen = True
                        self.extra["stopped_by_time"] = True
                        break
                    try:
                        pend.add(ex.submit(self._one, next(gen)))
                    except StopIteration:
                        done_gen = True
                if not pend:
                    break
                done, pend = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
                for d in done:
                    case, r, f = d.result()
                    cases += 1
                    if f is not None:
                        failures.append((case, f))
                        stop = True
                        continue
                    evals += r.get("evals", 1)
                    for l in r.get("labels", ()):
                        self.labels[l] = self.labels.get(l, 0) + 1
                    ks = r.get("keys")
                    if ks is None:
                        ks = [digest(case)] if r.get("nontrivial") else []
                    nontriv.update(ks)
                    if ks and len(samples) < 3:
                        samples.append(self.sample(case))
                if stop and failures:
                    # Let what is already running finish, then decide.
                    cf.wait(pend)
                    ok = False
                    for case, f in failures:
                        g = self.confirm(case, f)
                        if g is None:
                            self.nonconfirmed.append(dict(failure=str(f)[:600], case=case))
                            continue
                        case, sf = g
                        small, steps = case, 0
                        if not case.get("repeat"):
                            small, sf, steps = self.shrink(case, sf)
                            if small is not case:
                                h = self.confirm(small, sf)
                                if h is None:
                                    small, sf = g
                                else:
                                    small, sf = h
                        self.report(small, sf, "shrunk with %d attempts" % steps)
                        viol += 1
                        ok = True
                        break
                    failures = []
                    if ok:
                        break
                    stop = False        # What was running is collected by the next round.
        self.evidence(evals, cases, nontriv, samples, viol)
        return 1 if viol else 0

    def evidence(self, evals, cases, nontriv, samples, viol):
        os.makedirs(HERE + "/evidence", exist_ok=True)
        cov = dict(evaluations=evals, distinct_nontrivial=len(nontriv), rule=self.RULE, samples=samples or ["(none)"], cases=cases,
                   labels=self.labels, seed_note="every choice is derived from VERIF_SEED")
        if self.base is not None:
            cov["built"] = self.base.stats
        if self.nonconfirmed:
            cov["not_reproduced"] = self.nonconfirmed
        cov.update(self.extra)
        ev = dict(property=self.ID, tier=self.tier, seed=self.seed, level=self.LEVEL, coverage=cov, wall_s=round(self.elapsed(), 1),
                  violations=viol, assumptions=list(self.ASSUME))
        with open("%s/evidence/%s.json" % (HERE, self.ID), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s: %d cases, %d evaluations, %d distinct non-trivial, %d violation(s), %.0f s" % (
            self.ID, cases, evals, len(nontriv), viol, self.elapsed()), flush=True)


def main(checks, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    seed = a.seed
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = int(digest(os.environ["VERIF_SEED"]), 16) % 1000000
    cls = checks[a.id]
    c = cls("thorough" if a.tier == "thorough" else "quick", seed)
    if a.replay:
        j = json.load(open(a.replay))
        c.setup()
        try:
            c.run_case(j["case"])
        except Fail as f:
            print(str(f)[:3000])
            print("VIOLATION property=%s replay=%s" % (a.id, a.replay))
            return 1
        print("replay passes")
        return 0
    return c.run()
