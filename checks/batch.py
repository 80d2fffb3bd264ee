"""Base of the checks that drive a small native harness with batches of generated items."""
import os, shutil, tempfile
from yv import build
from yv.framework import Check, digest
from yv.speccheck import Fail

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


class BatchCheck(Check):
    """case = {"items": [...]}; line(item) -> command; judge(item, output) -> None or what is wrong."""
    HARNESS = "common.cpp"
    BATCH = 200
    NB = dict(quick=40, thorough=1500)

    def harness(self, objs_flags=("-O1", "-g0", "-fopenmp")):
        b = self.base = build.Base(self.ID)
        os.makedirs(b.dir + "/h")
        jobs = []
        fl = list(objs_flags) + SAN + b.INC + build.GGC
        srcs = b.common_srcs() + [build.HERE + "/harness/" + self.HARNESS]
        for s in srcs:
            o = "%s/h/%s.o" % (b.dir, os.path.basename(s)[:-4])
            jobs.append(b.pool.submit(b.cc, s, o, fl))
        objs = [j.result() for j in jobs]
        exe = b.dir + "/h/harness"
        rc, out = build.sh(["g++", "-fopenmp"] + SAN + objs + ["-lrt", "-o", exe])
        if rc:
            raise build.BuildError("cannot link harness:\n" + out[-3000:])
        self.exe = exe
        return exe

    def setup(self):
        self.harness()

    def item(self, rng):
        raise NotImplementedError

    def cases(self):
        for b in range(self.NB[self.tier]):
            rng = self.rng("batch", b)
            yield dict(items=[self.item(rng) for _ in range(self.BATCH)])

    def drive(self, lines, timeout=120):
        """-> (list of outputs, rc, log)"""
        d = tempfile.mkdtemp(prefix="b", dir=self.base.dir)
        try:
            with open(d + "/in", "w") as f:
                f.write("\n".join(lines) + "\n")
            rc, log = build.sh([self.exe, d + "/in", d + "/out"], timeout, cwd=d, env={"OMP_NUM_THREADS": "4"})
            try:
                out = open(d + "/out", errors="replace").read().split("\n")
            except OSError:
                out = []
            if out and out[-1] == "":
                out.pop()
            return out, rc, log
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def line(self, it):
        raise NotImplementedError

    def judge(self, it, out):
        raise NotImplementedError

    def nontriv(self, it, out):
        return True

    def label(self, it, out):
        return it["k"]

    def run_case(self, case):
        items = case["items"]
        out, rc, log = self.drive([self.line(it) for it in items])
        if not out or out[-1] != "DONE" or rc:
            n = min(len(out), len(items) - 1)
            if rc == -999:
                raise Fail("hang", "item %d does not end: %s" % (n, items[n]))
            f = Fail("crash", "the code under test ends abnormally (rc %d) at item %d: %s\n%s" % (rc, n, items[n], log[-2500:]))
            f.item = n
            raise f
        if len(out) != len(items) + 1:
            raise Fail("harness", "harness wrote %d lines for %d items" % (len(out), len(items)))
        labels, keys = [], []
        for i, it in enumerate(items):
            e = self.judge(it, out[i])
            if e:
                f = Fail("value", "%s\n  item: %s\n  command: %s\n  output: %s" % (e, it, self.line(it)[:1000], out[i][:1500]))
                f.item = i
                raise f
            labels.append(self.label(it, out[i]))
            if self.nontriv(it, out[i]):
                keys.append(digest(it))
        return dict(evals=len(items), labels=labels, keys=keys)

    def simpler(self, it):
        return ()

    def candidates(self, case, fail):
        items = case["items"]
        i = getattr(fail, "item", None)
        if len(items) > 1:
            if i is not None:
                yield dict(items=[items[i]])
            h = len(items) // 2
            yield dict(items=items[:h])
            yield dict(items=items[h:])
        else:
            for s in self.simpler(items[0]):
                yield dict(items=[s])

    def sample(self, case):
        return dict(items=case["items"][:4])
