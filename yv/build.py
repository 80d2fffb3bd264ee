"""Builds everything a check needs from /repo's working tree, in a scratch directory."""
import atexit, concurrent.futures as cf, glob, hashlib, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NCPU = os.cpu_count() or 4
ENV = dict(os.environ)
ENV.update(PATH="/opt/vp/bin:" + os.environ.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"),
           OMP_WAIT_POLICY="passive", HYDRA_LAUNCHER="fork", MPICH_CXX="g++", USER=os.environ.get("USER", "root"),
           HOME=os.environ.get("HOME", "/root"), LANG="C.UTF-8", OMP_STACKSIZE="4M")
# Open MPI is used: the MPICH of this image has no working launcher (its ranks start as singletons).
ENV.update(OMPI_CXX="g++", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_rmaps_base_oversubscribe="1",
           OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_btl="self,vader", OMPI_MCA_btl_vader_single_copy_mechanism="none",
           OMPI_MCA_plm="isolated", OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_pml="ob1", PMIX_MCA_gds="hash")
MPICXX, MPIRUN = "mpicxx.openmpi", "mpirun.openmpi"
for k in ("MAKEFLAGS", "MAKELEVEL", "MFLAGS"):
    ENV.pop(k, None)


class BuildError(Exception):
    """The code in /repo (or code it generated) does not build."""


class Timeout(Exception):
    pass


_live = set()
_lock = threading.Lock()


def sh(argv, timeout=300, cwd=None, env=None, inp=None):
    """(rc, stdout+stderr) of a command in its own process group; rc=-999 on timeout."""
    e = dict(ENV)
    if env:
        e.update(env)
    p = subprocess.Popen(argv, cwd=cwd, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, env=e)
    with _lock:
        _live.add(p)
    try:
        out, _ = p.communicate(inp.encode() if inp is not None else None, timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        out = b""
        for sig in (signal.SIGTERM, signal.SIGKILL):     # On SIGTERM, mpirun ends its ranks.
            try:
                os.killpg(p.pid, sig)
            except ProcessLookupError:
                pass
            try:
                out, _ = p.communicate(timeout=5)
                break
            except subprocess.TimeoutExpired:
                pass
        return -999, out.decode("utf-8", "replace")
    finally:
        with _lock:
            _live.discard(p)
        # Leave nothing of the group behind (e.g., orphaned MPI ranks).
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass


def cpu_flags():
    try:
        for l in open("/proc/cpuinfo"):
            if l.startswith("flags"):
                return set(l.split(":", 1)[1].split())
    except OSError:
        pass
    return set()


def targets_here():
    f = cpu_flags()
    t = ["intel64"]
    if "avx" in f:
        t.append("avx")
    if "avx2" in f:
        t.append("avx2")
    if {"avx512f", "avx512vl", "avx512cd", "avx512bw"} <= f:
        t += ["avx512", "avx512-ymm"]
    return t


ARCH = {
    "intel64": [],
    "avx": ["-mavx", "-DUSE_INTRIN256"],
    "avx2": ["-mavx2", "-DUSE_INTRIN256", "-DUSE_AVX2"],
    "avx512": ["-mavx512f", "-mavx512vl", "-mavx512cd", "-mavx512bw", "-DUSE_INTRIN512"],
    "avx512-ymm": ["-mavx512f", "-mavx512vl", "-mavx512cd", "-mavx512bw", "-DUSE_INTRIN512LO"],
}
GGC = ["--param", "ggc-min-expand=1000", "--param", "ggc-min-heapsize=3000000"]


class Base:
    """Scratch area + the stencil-independent objects."""

    def __init__(self, tag="chk", keep=False):
        self.dir = tempfile.mkdtemp(prefix="yv-%s-" % tag, dir=os.environ.get("VERIF_SCRATCH", "/tmp"))
        os.chmod(self.dir, 0o755)
        self.keep = keep or bool(os.environ.get("VERIF_KEEP"))
        atexit.register(self.cleanup)
        self.pool = cf.ThreadPoolExecutor(NCPU)
        self.unity = True
        self.mk = self.dir + "/mkstencil"
        self.n = 0
        self._l = threading.Lock()
        self.klibs = {}
        self.stats = dict(klibs=0, kernels=0, mkruns=0, kruns=0)

    def cleanup(self):
        with _lock:
            ps = list(_live)
        for p in ps:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
        if not self.keep:
            shutil.rmtree(self.dir, ignore_errors=True)

    def uid(self):
        with self._l:
            self.n += 1
            return self.n

    # -- compile helpers
    def cc(self, src, obj, flags, cxx="g++", timeout=600):
        cmd = [cxx, "-std=c++17", "-w"] + flags + ["-x", "c++", "-c", src, "-o", obj]
        rc, out = sh(cmd, timeout)
        if rc != 0:
            rc, out = sh(cmd, timeout)      # One retry: out-of-memory or a stray kill.
        if rc != 0:
            raise BuildError("cannot compile %s (rc %d):\n%s" % (src, rc, out[-3000:]))
        return obj

    def common_srcs(self):
        return sorted(glob.glob(REPO + "/src/common/*.cpp")) + [REPO + "/src/contrib/coefficients/fd_coeff.cpp"]

    INC = ["-I%s/include" % REPO, "-I%s/include/aux" % REPO, "-I%s/src/common" % REPO, "-I%s/src/contrib/coefficients" % REPO]

    def prepare(self, compiler=True, kernel=True, stencils=False, copt="-O0", extra=None, san=None):
        """Compile the compiler library + mkstencil, and the runner + common objects, in parallel."""
        d = self.dir
        os.makedirs(d + "/c", exist_ok=True)
        os.makedirs(d + "/k", exist_ok=True)
        san = san or []
        self.san = san
        jobs = []
        cfl = [copt, "-g0", "-DFORCE_INLINE_RECURSIVE=", "-DFORCE_INLINE=", "-I%s/src/compiler/lib" % REPO] + self.INC + GGC + san
        kfl = ["-O1", "-g0", "-fopenmp", "-DUSE_MPI"] + self.INC + GGC + san
        cobjs, kobjs = [], []
        if compiler:
            srcs = sorted(glob.glob(REPO + "/src/compiler/lib/*.cpp"), key=lambda s: -os.path.getsize(s))
            for s in srcs:
                o = d + "/c/" + os.path.basename(s)[:-4] + ".o"
                jobs.append(self.pool.submit(self.cc, s, o, cfl))
                cobjs.append(o)
            o = d + "/c/mkstencil_main.o"
            jobs.append(self.pool.submit(self.cc, HERE + "/harness/mkstencil.cpp", o, cfl))
            cobjs.append(o)
            if stencils:
                for s in self.stencil_srcs():
                    o = d + "/c/st_" + os.path.basename(s)[:-4] + ".o"
                    jobs.append(self.pool.submit(self.cc, s, o, ["-O0", "-g0", "-DUSE_INTERNAL_DSL", "-I%s/include" % REPO] + GGC + san))
                    cobjs.append(o)
            for s in self.common_srcs():
                o = d + "/c/cm_" + os.path.basename(s)[:-4] + ".o"
                jobs.append(self.pool.submit(self.cc, s, o, cfl))
                cobjs.append(o)
        if kernel:
            o = d + "/k/runner.o"
            jobs.append(self.pool.submit(self.cc, HERE + "/harness/runner.cpp", o, kfl, MPICXX))
            kobjs.append(o)
            for s in self.common_srcs():
                o = d + "/k/cm_" + os.path.basename(s)[:-4] + ".o"
                jobs.append(self.pool.submit(self.cc, s, o, kfl, MPICXX))
                kobjs.append(o)
        for j in extra or []:
            jobs.append(self.pool.submit(*j))
        for j in jobs:
            j.result()
        self.kobjs = kobjs
        self.cobjs = cobjs
        if compiler:
            rc, out = sh(["g++"] + san + cobjs + ["-lrt", "-o", self.mk])
            if rc:
                raise BuildError("cannot link mkstencil:\n" + out[-3000:])
        return self

    def stencil_srcs(self):
        return sorted(s for s in glob.glob(REPO + "/src/stencils/**/*.cpp", recursive=True))

    # -- stencil compiler
    def mkstencil(self, text, env=None, timeout=120):
        """Runs the s-expression program; returns (rc, output). rc 3 = yask_exception."""
        f = "%s/mk%d.s" % (self.dir, self.uid())
        with open(f, "w") as o:
            o.write(text)
        self.stats["mkruns"] += 1
        rc, out = sh([self.mk, f], timeout, env=env, cwd=self.dir)
        if not self.keep:
            os.unlink(f)
        return rc, out

    # -- kernels
    def klib(self, kd, code, gen, fl):
        """Objects of the kernel library other than factory.cpp, which is the only file that includes the
        solution itself. The others see only the macro section of the generated code and the generated
        headers, so kernels for which these are equal share their objects."""
        mac = code.split("#endif // DEFINE_MACROS", 1)
        if len(mac) == 2 and "DEFINE_MACROS" in mac[0]:
            keytxt = re.sub(r"#define NUM_STENCIL_EQS .*", "", re.sub(r"//.*", "", mac[0]))
        else:
            keytxt = code
        h = hashlib.sha256(keytxt.encode())
        for f in sorted(os.listdir(gen)):
            if f == "yask_stencil_code.hpp" or f == "yask_solution_code.hpp" and self.soln_only_in_factory():
                continue
            t = open(gen + "/" + f, errors="replace").read()
            h.update((f + "\0" + re.sub(r"(?m)^\s*//.*$", "", t).replace(kd, "KD")).encode())
        h.update(" ".join(fl).replace(kd, "KD").encode())
        key = h.hexdigest()
        with self._l:
            ev = self.klibs.get(key)
            mine = ev is None
            if mine:
                ev = self.klibs[key] = [threading.Event(), None, None]
        if mine:
            try:
                ev[1] = self._klib(key, fl)
            except BaseException as e:
                ev[2] = e
                raise
            finally:
                ev[0].set()
        else:
            ev[0].wait()
            if ev[2] is not None:
                raise BuildError(str(ev[2]))
        return ev[1]

    def soln_only_in_factory(self):
        if not hasattr(self, "_sof"):
            self._sof = not any("YK_SOLUTION_FILE" in open(f, errors="replace").read() for f in
                                glob.glob(REPO + "/src/kernel/lib/*.?pp") if not f.endswith("/factory.cpp"))
        return self._sof

    def _klib(self, key, fl):
        d = "%s/klib-%s" % (self.dir, key[:16])
        os.makedirs(d)
        self.stats["klibs"] += 1
        srcs = sorted(s for s in glob.glob(REPO + "/src/kernel/lib/*.cpp") if not s.endswith("/factory.cpp"))
        if self.unity:
            u = d + "/unity.cpp"
            with open(u, "w") as o:
                for s in srcs:
                    o.write('#include "%s"\n' % s)
            try:
                return [self.cc(u, d + "/unity.o", fl, MPICXX, 600)]
            except BuildError:
                pass
        objs = []
        for s in srcs:
            objs.append(self.cc(s, d + "/" + os.path.basename(s)[:-4] + ".o", fl, MPICXX, 600))
        self.unity = False
        return objs

    def kernel_dir(self, name):
        return "%s/o%d-%s" % (self.dir, self.uid(), name)

    def kernel(self, code, name, arch="avx2", real_bytes=8, allow_new=0, opt="-O0", make_args=(), macros=(), san=None, vlen_note=None):
        """Builds an executable from stencil code (text). Raises BuildError."""
        kd = self.kernel_dir(name)
        gen = "%s/build/kernel/yask_kernel.%s.%s/gen" % (kd, name, arch)
        os.makedirs(gen)
        os.makedirs(kd + "/bin")
        yc = kd + "/bin/yask_compiler.exe"
        with open(yc, "w") as o:
            o.write("#!/bin/false\n")
        os.chmod(yc, 0o755)
        codef = gen + "/yask_stencil_code.hpp"
        with open(codef, "w") as o:
            o.write(code)
        margs = ["YASK_OUTPUT_DIR=" + kd, "stencil=" + name, "arch=" + arch, "real_bytes=%d" % real_bytes, "INDENT=true",
                 "CXX=g++", "YK_CXX=mpic++", "SWIG_PATCH=true", "allow_new_var_types=%d" % allow_new] + list(make_args)
        cmd = ["make", "-C", REPO + "/src/kernel", "headers", "-o", yc, "-o", codef] + margs
        rc, out = sh(cmd, 200)
        if rc or not os.path.exists(gen + "/yask_solution_code.hpp"):
            rc, out = sh(cmd, 300)
            if rc or not os.path.exists(gen + "/yask_solution_code.hpp"):
                raise BuildError("cannot generate kernel headers:\n" + out[-3000:])
        san = san if san is not None else getattr(self, "san", [])
        fl = [opt, "-g0", "-fopenmp", "-DUSE_MPI", "-fPIC"] + ARCH[arch] + ["-DYK_CODE_FILE=" + codef,
              "-DYK_SOLUTION_FILE=" + gen + "/yask_solution_code.hpp", "-DUSE_NUMAIF_H", "-DALLOW_NEW_VARS=%d" % allow_new,
              "-DNO_SVML"] + list(macros) + ["-I%s/include" % REPO, "-I%s/include/aux" % REPO, "-I%s/src/kernel/lib" % REPO] + self.INC[2:] + ["-I" + gen] + GGC + san
        objs = self.klib(kd, code, gen, fl)
        fo = kd + "/factory.o"
        self.cc(REPO + "/src/kernel/lib/factory.cpp", fo, fl, MPICXX, 600)
        objs = [fo] + objs
        exe = kd + "/run.exe"
        rc, out = sh([MPICXX, "-fopenmp"] + san + objs + self.kobjs + ["-lrt", "-o", exe])
        if rc and "numa" in out:
            rc, out = sh([MPICXX, "-fopenmp"] + san + objs + self.kobjs + ["-lrt", "-lnuma", "-o", exe])
        if rc:
            raise BuildError("cannot link kernel:\n" + out[-3000:])
        os.unlink(fo)
        self.stats["kernels"] += 1
        return exe

    def drop(self, exe):
        if exe and not self.keep:
            shutil.rmtree(os.path.dirname(exe), ignore_errors=True)


class RunResult:
    def __init__(self, rc, log, ranks, timeout):
        self.rc, self.log, self.ranks, self.timeout = rc, log, ranks, timeout

    @property
    def ok(self):
        return self.rc == 0 and all(r and r[-1][1] == "DONE" for r in self.ranks)

    def res(self, rank=0):
        return {ln: (st, rest) for ln, st, rest in self.ranks[rank] if st != "DONE"}


def run_script(base, exe, lines, ranks=1, threads=2, timeout=60, env=None, wd=None):
    """Runs a runner script; returns RunResult with per-rank [(lineno, status, rest)]."""
    wd = wd or tempfile.mkdtemp(prefix="r", dir=base.dir)
    with open(wd + "/script", "w") as f:
        f.write("\n".join(lines) + "\n")
    cmd = [exe, wd + "/script", wd + "/out"]
    if ranks > 1:
        cmd = [MPIRUN, "-np", str(ranks)] + cmd
    e = {"OMP_NUM_THREADS": str(threads)}
    if ranks > 1:
        e.update(OMPI_MCA_btl_vader_backing_directory=wd, OMPI_MCA_orte_tmpdir_base=wd)
    if env:
        e.update(env)
    base.stats["kruns"] += 1
    rc, log = sh(cmd, timeout, cwd=wd, env=e)
    if ranks > 1 and rc:
        subprocess.run(["pkill", "-KILL", "-f", wd + "/script"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    res = []
    for r in range(ranks):
        rr = []
        try:
            for l in open("%s/out.%d" % (wd, r), errors="replace"):
                l = l.rstrip("\n")
                if l == "DONE":
                    rr.append((0, "DONE", ""))
                    continue
                p = l.split(" ", 2)
                if len(p) >= 2 and p[0].isdigit():
                    rr.append((int(p[0]), p[1], p[2] if len(p) > 2 else ""))
        except OSError:
            pass
        res.append(rr)
    x = RunResult(rc, log[-4000:], res, rc == -999)
    x.wd = wd
    return x
