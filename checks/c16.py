import re
from yv import build, spec as specmod, speccheck as sc
from yv.framework import digest
from yv.speccheck import Fail
from .batch import BatchCheck

NAMES = ["a", "ab", "abc", "b", "b1", "n", "no", "nob", "x-y", "long_option_name", "opt", "opt2", "-dash", "T"]
WS = " \t\n\r"


def hexs(s):
    return s.encode("latin1").hex() or "-"


def unhex(h):
    return "" if h == "-" else bytes.fromhex(h).decode("latin1")


def ref_tok(s):
    """Reference tokenizer: words are separated by whitespace; a part in quotes (either kind) is taken literally without its
    quotes; adjacent parts concatenate; an empty pair of quotes is a word; an open quote is an error."""
    words, i, n = [], 0, len(s)
    while True:
        while i < n and s[i] in WS:
            i += 1
        if i >= n:
            return words
        w = ""
        while i < n and s[i] not in WS:
            if s[i] in "'\"":
                j = s.find(s[i], i + 1)
                if j < 0:
                    return None
                w += s[i + 1:j]
                i = j + 1
            else:
                w += s[i]
                i += 1
        words.append(w)


GOOD_INT = [("0", 0), ("5", 5), ("-3", -3), ("+7", 7), ("0x1F", 31), ("-0x10", -16), ("017", 15), ("123456", 123456), ("2147483647", 2147483647),
            ("-2147483648", -2147483648), (" 9", 9)]
BIG = [("2147483648", 2147483648), ("-2147483649", -2147483649), ("4294967297", 4294967297), ("9007199254740993", 9007199254740993),
       ("-4611686018427387905", -4611686018427387905)]
BAD_NUM = ["", "abc", "5k", "1.5x", "0x", "08", "--5", "- 5", "5 ", "1,2", "x5", "5-", " ", "."]
BAD_INT = ["1.5", "1e3", "5.0", "99999999999999999999", "-99999999999999999999", "inf"]
GOOD_DBL = ["0", "1.5", "-2.25", ".5", "5.", "1e5", "-1E-3", "+3.125", "12345.678", "1e-300", "7", "-0.0"]
BAD_DBL = ["nan", "inf", "-inf", "1e999", "1.5.2", "1e", "e5"]


class Bad(Exception):
    pass


class C16(BatchCheck):
    ID = "C16"
    RULE = ("a command line counts as non-trivial if it assigned at least one option, or left or rejected something although it names an "
            "option; a tokenized string if it has a quote or at least two words; kernel and compiler lines if they changed a listed value; "
            "distinct by option table and text")
    ASSUME = ["Python's conversion of decimal text to double is correctly rounded, like strtod's", "error messages are not compared"]
    NB = dict(quick=30, thorough=1200)
    NK = dict(quick=30, thorough=600)
    NC = dict(quick=30, thorough=600)
    BATCH = 200

    def setup(self):
        b = None
        self.harness()
        b = self.base
        b.prepare()
        text = ("(solution opt16) (step t) (dims x y) (var A t x y) (var B x y) "
                "(eq (p A (+ t 1) x y) (+ (p A t x (+ y 1)) (* 0.5 (p B (+ x -1) y)))) (out avx2 %s/opt16.cpp)" % b.dir)
        rc, out = b.mkstencil(text)
        if rc:
            raise build.BuildError("cannot generate the stencil code:\n" + out[-2000:])
        self.kexe = b.kernel(open(b.dir + "/opt16.cpp").read(), "opt16", "avx2", 4)
        rr = self.krun(["soln S", "values S"])
        self.kdef = self.pvals(unesc(rr[2][1]))
        self.cdef = self.pvals(self.comp([])[0][0])

    # ---- generators
    def gtok(self, rng):
        n = rng.choice([0, 1, 3, 6, 10, 16])
        s = "".join(rng.choice(["a", "b", "-", "=", "5", " ", " ", "\t", "\n", "'", '"', "'", '"', "\\", ",", "  ", "''", '""', "x y"]) for _ in range(n))
        if rng.random() < .5:       # Balance the quotes.
            t = ref_tok(s)
            if t is None:
                for q in "'\"":
                    if ref_tok(s + q) is not None:
                        s += q
                        break
        return dict(k="tok", s=s)

    def gopts(self, rng):
        opts = []
        for nm in rng.sample(NAMES, rng.randint(1, 7)):
            t = rng.choice("bbiixxddssll")
            o = dict(n=nm, t=t)
            if t == "b":
                o["v"] = rng.random() < .5
            elif t in "ix":
                o["v"] = rng.randint(-100, 100)
            elif t == "d":
                o["v"] = rng.choice([0.0, 1.5, -2.25])
            elif t == "s":
                o["v"] = rng.choice(["", "init", "a b"])
            else:
                o["v"] = rng.choice([[], ["p"], ["p", "q r"]])
                if rng.random() < .5:
                    o["allow"] = ["red", "green", "blue"]
                    o["v"] = [x for x in ["red"] if rng.random() < .5]
            opts.append(o)
        names = {o["n"] for o in opts}
        return [o for o in opts if not (o["t"] == "b" and "no-" + o["n"] in names)]

    def gparse(self, rng):
        opts = self.gopts(rng)
        args = []
        bad = rng.random() < .25
        for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 9])):
            o = rng.choice(opts) if opts else None
            if o is None or rng.random() < .3:
                nm = rng.choice(NAMES)
                args.append(rng.choice(["-" + nm, nm, "--" + nm, "-" + nm + "z", "-no-" + nm, "-no" + nm, "word", "two words", "tab\tbed", "5", "-5",
                                        "=", "it's", 'say "x y"', "o'neil s", "-" + nm.upper(), "-" + nm[:-1] if len(nm) > 1 else "-", "", "-" + nm + " "]))
                continue
            a = "-" + o["n"]
            if o["t"] == "b":
                args.append(rng.choice([a, "-no-" + o["n"]]))
                continue
            args.append(a)
            wrong = bad and rng.random() < .4
            if o["t"] in "ix":
                v = rng.choice(BAD_NUM + BAD_INT) if wrong else rng.choice(GOOD_INT)[0]
                if not wrong and (o["t"] == "x" or bad) and rng.random() < .3:
                    v = rng.choice(BIG)[0]
                args.append(v)
            elif o["t"] == "d":
                args.append(rng.choice(BAD_NUM + BAD_DBL) if wrong else rng.choice(GOOD_DBL))
            elif o["t"] == "s":
                args.append(rng.choice(["", "text", "two words", "-a", "-no-b", "a=b", "'q'", "-" + rng.choice(NAMES)]))
            elif o.get("allow"):
                args.append(",".join(rng.choice(o["allow"] + (["pink"] if wrong else [])) for _ in range(rng.randint(1, 3))))
            else:
                args.append(rng.choice(["", "one", "one,two", "a,,b", "x y,z", ",lead", "-a,-b"]))
        if rng.random() < .1 and opts:
            args.append("-" + rng.choice(opts)["n"])        # Value may be missing.
        mode = rng.choice(["vec", "vec", "argv", "str"])
        it = dict(k="parse", opts=opts, args=args, mode=mode, width=rng.choice([78, 20, 1, 200]))
        if mode == "str":
            it["text"] = rng.choice(["", " "]) + rng.choice([" ", "  ", "\t"]).join(self.quote(rng, a) for a in args)
        return it

    def quote(self, rng, a):
        if a == "":
            return rng.choice(["''", '""'])
        parts = []
        for c in a:
            if c == "'":
                parts.append('"\'"')
            elif c == '"':
                parts.append("'\"'")
            elif c in WS:
                parts.append(rng.choice(["'%s'", '"%s"']) % c)
            else:
                parts.append(c if rng.random() < .9 else rng.choice(["'%s'", '"%s"']) % c)
        s = "".join(parts)
        if "'" not in a and rng.random() < .4:
            s = "'%s'" % a
        return s

    def item(self, rng):
        return self.gtok(rng) if rng.random() < .3 else self.gparse(rng)

    # ---- harness items
    def line(self, it):
        if it["k"] == "tok":
            return "tok " + hexs(it["s"])
        def val(o):
            v = o["v"]
            if o["t"] == "b":
                return "1" if v else "0"
            if o["t"] == "s":
                return hexs(v)
            if o["t"] == "l":
                return "+".join(hexs(x) for x in v) or "-"
            return str(v)
        os = ",".join("%s:%s:%s%s" % (hexs(o["n"]), o["t"], val(o), ":" + "+".join(hexs(x) for x in o["allow"]) if o.get("allow") else "") for o in it["opts"]) or "-"
        av = ",".join(hexs(a) for a in it["args"]) or "="
        if it["mode"] == "str":
            av = hexs(it["text"])
        return "parse %d %s %s %s" % (it["width"], it["mode"], os, av)

    @staticmethod
    def num(s, t):
        if t == "d":
            m = re.fullmatch(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?", s)
            if not m:
                raise Bad()
            v = float(s)
            if v in (float("inf"), float("-inf")):
                raise Bad()
            return v
        m = re.fullmatch(r" *([+-]?)(0[xX][0-9a-fA-F]+|0[0-7]*|[1-9]\d*)", s)
        if not m:
            raise Bad()
        x = m.group(2)
        v = int(x, 16) if x[:2] in ("0x", "0X") else int(x, 8) if x[0] == "0" else int(x)
        if m.group(1) == "-":
            v = -v
        lim = 31 if t == "i" else 63
        if not -(1 << lim) <= v < (1 << lim):
            raise Bad()
        return v

    def model(self, it):
        val = {o["n"]: o["v"] for o in it["opts"]}
        by = {"-" + o["n"]: o for o in it["opts"]}
        no = {"-no-" + o["n"]: o for o in it["opts"] if o["t"] == "b"}
        args, left, i, assigned = it["args"], [], 0, 0
        while i < len(args):
            a = args[i]
            i += 1
            if a in by:
                o = by[a]
                assigned += 1
                if o["t"] == "b":
                    val[o["n"]] = True
                    continue
                if i >= len(args):
                    raise Bad()
                v = args[i]
                i += 1
                if o["t"] == "s":
                    val[o["n"]] = v
                elif o["t"] == "l":
                    L = v.split(",") if v else []
                    if o.get("allow") and any(x not in o["allow"] for x in L):
                        raise Bad()
                    val[o["n"]] = L
                else:
                    val[o["n"]] = self.num(v, o["t"])
            elif a in no:
                assigned += 1
                val[no[a]["n"]] = False
            else:
                left.append(a)
        return val, left, assigned

    def judge(self, it, out):
        if it["k"] == "tok":
            t = ref_tok(it["s"])
            want = "ex" if t is None else " ".join(["ok"] + [hexs(x) for x in t])
            return None if out == want else "tokens of %r: expected %r" % (it["s"], t)
        try:
            val, left, assigned = self.model(it)
        except Bad:
            return None if out == "ex" else "no exception for a missing or malformed value"
        if out.startswith("ex") or out.startswith("stdex"):
            return "exception for a legal command line"
        f = dict(x.split("=", 1) for x in out.split(" ") if x.startswith(("rem=", "values=", "help=")))
        got = {}
        toks = out.split(" ")[1:-2]
        for o, x in zip(it["opts"], toks):
            got[o["n"]] = x.split("=", 1)[1]
        for o in it["opts"]:
            v, g = val[o["n"]], got[o["n"]]
            if o["t"] == "b":
                ok = g == ("1" if v else "0")
            elif o["t"] in "ix":
                ok = g == str(v)
            elif o["t"] == "d":
                ok = float.fromhex(g) == v
            elif o["t"] == "s":
                ok = unhex(g) == v
            else:
                ok = g == ("+".join(hexs(x) for x in v) or ".")
            if not ok:
                return "option '%s' is %s, expected %r" % (o["n"], g, v)
        rem = unhex(f["rem"])
        plain = all(a and "'" not in a and '"' not in a for a in left)
        if plain:
            if ref_tok(rem) != left:
                return "left over %r, expected the words %r" % (rem, left)
        else:
            p = 0
            for a in left:
                q = rem.find(a, p)
                if q < 0 and not ("'" in a and '"' in a):
                    return "left over %r lacks %r (in order)" % (rem, a)
                p = max(q, p) + (len(a) if q >= 0 else 0)
        # Listing and help.
        vals = unhex(f["values"])
        for o in it["opts"]:
            v = val[o["n"]]
            if o["t"] in "ixb" or (o["t"] in "sl" and "\n" not in str(v)):
                w = {"b": str(v).lower(), "s": "'%s'" % v, "l": ",".join(v) if o["t"] == "l" else ""}.get(o["t"], str(v))
                if not re.search(r"(?m)^\s*%s:[ ]*%s$" % (re.escape(o["n"]), re.escape(w)), vals):
                    return "value listing does not show %s = %s:\n%s" % (o["n"], w, vals)
        hl = unhex(f["help"])
        for o in it["opts"]:
            if "-" + ("[no-]" if o["t"] == "b" else "") + o["n"] not in hl:
                return "help does not mention option '%s'" % o["n"]
        return None

    def nontriv(self, it, out):
        if it["k"] == "tok":
            return len(out.split()) > 2 or "'" in it["s"] or '"' in it["s"]
        if out == "ex":
            return True
        return any("-" + o["n"] in it["args"] or "-no-" + o["n"] in it["args"] for o in it["opts"])

    def label(self, it, out):
        return it["k"] + (":rejected" if out == "ex" else "")

    def simpler(self, it):
        if it["k"] == "tok":
            for i in range(len(it["s"])):
                yield dict(it, s=it["s"][:i] + it["s"][i + 1:])
            return
        if it["mode"] == "str":
            yield dict(it, mode="vec")
        for i in range(len(it["args"])):
            yield dict(it, args=it["args"][:i] + it["args"][i + 1:], mode="vec" if it["mode"] == "str" else it["mode"])
        for i in range(len(it["opts"])):
            yield dict(it, opts=it["opts"][:i] + it["opts"][i + 1:])

    # ---- kernel and compiler settings
    def krun(self, lines):
        r = build.run_script(self.base, self.kexe, lines, 1, 2, 60)
        if not r.ok:
            raise Fail("crash", "the kernel program ends abnormally (rc %s)\n%s" % (r.rc, r.log[-1500:]))
        return r.res(0)

    @staticmethod
    def pvals(txt):
        d = {}
        for l in txt.split("\n"):
            m = re.match(r"\s*(\S+):\s*(.*)$", l)
            if m:
                d[m.group(1)] = m.group(2).rstrip()
        return d

    KPRE = ["g", "l", "Mb", "b", "mb", "nb", "pb", "mp", "ep", "nr", "ri", "d"]
    KBOOL = ["overlap_comms", "use_shm", "force_scalar", "force_scalar_exchange", "bind_inner_threads", "bundle_allocs", "init_scratch_vars",
             "auto_tune", "allow_addl_padding", "round_up_temporal_angles", "exchange_halos"]
    KINT = ["max_threads", "outer_threads", "inner_threads", "block_threads", "auto_tune_radius"]

    def gkern(self, rng):
        ops = []
        for _ in range(rng.randint(1, 5)):
            if rng.random() < .2:
                w = rng.choice(["rank_domain_size", "overall_domain_size", "block_size", "min_pad_size"])
                ops.append(["set", w, rng.choice(["x", "y"]), rng.randint(1, 99)])
                continue
            t = []
            for _ in range(rng.randint(1, 6)):
                r = rng.random()
                if r < .45:
                    p = rng.choice(self.KPRE)
                    d = rng.choice(["x", "y", "", ""] + (["t"] if p in ("Mb", "b") else []))
                    t += ["-" + p + d, str(rng.randint(0 if p in ("ri", "mp", "ep") else 1, 64))]
                elif r < .65:
                    t.append(rng.choice(["-", "-no-"]) + rng.choice(self.KBOOL))
                elif r < .8:
                    t += ["-" + rng.choice(self.KINT), str(rng.randint(1, 9))]
                elif r < .86:
                    t += ["-auto_tune_targets", ",".join(rng.choice(["Mb", "b", "mb", "nb", "pb"]) for _ in range(rng.randint(1, 3)))]
                elif r < .9:
                    t += ["-min_exterior", str(rng.randint(0, 9))]
                elif r < .93:
                    t += ["-auto_tune_trial_secs", rng.choice(["0.5", "1.25", "2"])]
                else:
                    t.append(rng.choice(["-gt", "word", "-bz", "-nosuch", "-no-b", "-g-", "-lx5", "-nrt"]))
            if rng.random() < .1:
                t.append("-" + rng.choice(["g", "b", "inner_threads", "bx"]))       # Value is missing.
            elif rng.random() < .08:
                t += ["-" + rng.choice(["g", "bx", "inner_threads"]), rng.choice(["x", "5k", "1.5"])]
            ops.append(["opts", t, rng.choice(["opts", "optv"])])
        return dict(kind="kern", ops=ops)

    def kmodel(self, val, toks):
        """Updates 'val' (listing name -> text); returns leftover words; raises Bad."""
        def grp(p, v):
            for d in ("x", "y"):
                one(p, d, v)
        def one(p, d, v):
            for q in {"l": ["l", "d"], "d": ["l", "d"]}.get(p, [p]):
                val[q + d] = str(v)
                val[q] = "%s, %s" % (val[q + "x"], val[q + "y"])
        left, i = [], 0
        while i < len(toks):
            a = toks[i]
            i += 1
            n = a[1:] if a.startswith("-") else None
            if n is not None and n in val:
                if n in self.KBOOL:
                    val[n] = "true"
                    continue
                if i >= len(toks):
                    raise Bad()
                v = toks[i]
                i += 1
                if n == "auto_tune_targets":
                    val[n] = v
                elif n == "auto_tune_trial_secs":
                    val[n] = "%g" % float(v)
                else:
                    x = self.num(v, "x")
                    m = re.fullmatch(r"(g|l|Mb|b|mb|nb|pb|mp|ep|nr|ri|d)(x|y|t|)", n)
                    if m and m.group(2) in ("x", "y"):
                        one(m.group(1), m.group(2), x)
                    elif m and m.group(2) == "":
                        grp(m.group(1), x)
                    elif n in ("inner_threads", "block_threads"):
                        val["inner_threads"] = val["block_threads"] = str(x)
                    else:
                        val[n] = str(x)
            elif n and n.startswith("no-") and n[3:] in self.KBOOL and n[3:] in val:
                val[n[3:]] = "false"
            else:
                left.append(a)
        return left

    GETS = [("rank_domain_size", "l"), ("overall_domain_size", "g"), ("block_size", "b"), ("num_ranks", "nr"), ("rank_index", "ri"), ("min_pad_size", "mp")]

    def run_kern(self, case):
        L = ["soln S"]
        exp = []
        val = dict(self.kdef)
        changed = 0
        for op in case["ops"]:
            before = dict(val)
            if op[0] == "set":
                L.append("set S %s %s %d" % tuple(op[1:]))
                exp.append((len(L), "ok", None))
                p = dict(self.GETS)[op[1]]
                self.kmodel(val, ["-" + p + op[2], str(op[3])])
            else:
                L.append('opts S "%s"' % " ".join(op[1]) if op[2] == "opts" else "optv S " + " ".join(op[1]))
                try:
                    left = self.kmodel(val, op[1])
                    exp.append((len(L), "ok", left))
                except Bad:
                    exp.append((len(L), "ex", None))
                    # Options before the malformed one may have been applied: start over.
                    L.append("values S")
                    exp.append((len(L), "sync", None))
                    val = None
                    break
            changed += val != before
            L.append("values S")
            exp.append((len(L), "values", dict(val)))
            for w, p in self.GETS:
                for d in ("x", "y"):
                    L.append("get S %s %s" % (w, d))
                    exp.append((len(L), "get", val[p + d]))
        res = self.krun(L)
        for ln, kind, x in exp:
            st, rest = res.get(ln, ("", ""))
            if kind == "ex":
                if st != "ex":
                    raise Fail("value", "no exception for '%s': %s %s" % (L[ln - 1], st, rest[:200]))
                continue
            if st != "ok":
                raise Fail("value", "'%s' fails: %s %s" % (L[ln - 1], st, rest[:300]))
            if kind == "ok" and x is not None:
                g = rest.strip()[1:-1].split()
                if g != x:
                    raise Fail("value", "'%s' leaves %r, expected %r" % (L[ln - 1], g, x))
            if kind == "values":
                got = self.pvals(unesc(rest))
                if got != x:
                    df = {k: (got.get(k), x.get(k)) for k in set(got) | set(x) if got.get(k) != x.get(k)}
                    raise Fail("value", "value listing differs (listed, expected): %s\nafter: %s" % (df, "\n".join(l for l in L[:ln] if l.split()[0] in ("opts", "optv", "set"))))
            if kind == "get" and rest.strip() != x:
                raise Fail("value", "'%s' is %s, expected %s\nafter: %s" % (L[ln - 1], rest, x, "\n".join(l for l in L[:ln] if l.split()[0] in ("opts", "optv", "set"))))
        return dict(evals=len(exp), keys=[digest(case)] if changed else [], labels=["kernel"])

    CBOOL = ["bundle", "bundle-scratch", "early-loads", "first-inner", "fus", "inner-misc-layout", "opt-comb", "opt-cse", "opt-pair", "opt-reorder",
             "outer-domain-layout", "use-ptrs", "use-safe-ptrs", "ul"]
    CINT = ["halo", "l1-prefetch-dist", "l2-prefetch-dist", "max-es", "min-es", "min-buffer-len", "step-alloc"]

    def comp(self, ops):
        """-> [(values text, dict of info)] after each op, preceded by the defaults; None for a rejected op."""
        L = ["(solution c16) (step t) (dims x y) (target avx2)", "(info)"]
        for op in ops:
            if op[0] == "opts":
                L.append('(opts "%s")' % " ".join(op[1]))
            elif op[0] == "elem":
                L.append("(elem %d)" % op[1])
            elif op[0] == "target":
                L.append("(target %s)" % op[1])
            elif op[0] == "prefetch":
                L.append("(prefetch %d %d)" % (op[1], op[2]))
            L.append("(info)")
        rc, out = self.base.mkstencil("\n".join(L), env={"MK_CONTINUE": "1", "MK_VERBOSE": "1"})
        if rc:
            raise Fail("crash", "the compiler program ends abnormally (rc %d):\n%s" % (rc, out[-1500:]))
        res = []
        cur = dict(ex=False, rem=[])
        for l in out.split("\n"):
            if l.startswith("EX "):
                cur["ex"] = True
            elif l.startswith("REM "):
                cur["rem"] = l[4:].split()
            elif l.startswith(("ELEM ", "TGT ")):
                cur[l.split()[0]] = l.split(" ", 1)[1]
            elif l.startswith("VALS "):
                res.append((l[5:].replace("|", "\n"), cur))
                cur = dict(ex=False, rem=[])
        return res

    def gcomp(self, rng):
        ops = []
        for _ in range(rng.randint(1, 5)):
            r = rng.random()
            if r < .1:
                ops.append(["elem", rng.choice([4, 8])])
            elif r < .2:
                ops.append(["target", rng.choice(["avx", "avx2", "avx512", "knl", "intel64", "pseudo", "dot"])])
            elif r < .3:
                ops.append(["prefetch", rng.randint(1, 2), rng.randint(0, 5)])
            else:
                t = []
                for _ in range(rng.randint(1, 6)):
                    r = rng.random()
                    if r < .4:
                        t.append(rng.choice(["-", "-no-"]) + rng.choice(self.CBOOL))
                    elif r < .7:
                        t += ["-" + rng.choice(self.CINT), str(rng.randint(0, 40))]
                    elif r < .78:
                        t += ["-elem-bytes", rng.choice(["4", "8"])]
                    elif r < .86:
                        t += ["-target", rng.choice(["avx2", "avx512", "pseudo"])]
                    elif r < .92:
                        t += ["-vars", rng.choice(["A", "B.*", "x"])]
                    else:
                        t.append(rng.choice(["word", "-nosuch", "-no-halo", "-bundles"]))
                if rng.random() < .1:
                    t.append("-" + rng.choice(["halo", "elem-bytes", "max-es"]))
                ops.append(["opts", t])
        return dict(kind="comp", ops=ops)

    def cmodel(self, val, toks):
        left, i = [], 0
        def setv(n, v):
            val[n] = v
            if n in ("fus", "first-inner"):
                val["fus"] = val["first-inner"] = v
        while i < len(toks):
            a = toks[i]
            i += 1
            n = a[1:] if a.startswith("-") else None
            if n is not None and n in self.CBOOL:
                setv(n, "true")
            elif n and n[:3] == "no-" and n[3:] in self.CBOOL:
                setv(n[3:], "false")
            elif n is not None and n in self.CINT + ["elem-bytes", "target", "vars"]:
                if i >= len(toks):
                    raise Bad()
                v = toks[i]
                i += 1
                setv(n, "'%s'" % v if n in ("target", "vars") else str(self.num(v, "i")))
            else:
                left.append(a)
        return left

    def run_comp(self, case):
        res = self.comp(case["ops"])
        val = self.pvals(res[0][0])
        if len(res) != len(case["ops"]) + 1:
            raise Fail("harness", "%d answers for %d operations" % (len(res), len(case["ops"])))
        changed = 0
        for op, (txt, info) in zip(case["ops"], res[1:]):
            before = dict(val)
            if op[0] == "opts":
                try:
                    left = self.cmodel(val, op[1])
                except Bad:
                    if not info["ex"]:
                        raise Fail("value", "no exception for %s" % op)
                    val = self.pvals(txt)       # What precedes the malformed option may have been applied.
                    continue
                if info["rem"] != left:
                    raise Fail("value", "%s leaves %s, expected %s" % (op, info["rem"], left))
            elif op[0] == "elem":
                val["elem-bytes"] = str(op[1])
            elif op[0] == "target":
                val["target"] = "'%s'" % op[1]
            elif op[0] == "prefetch":
                val["l%d-prefetch-dist" % op[1]] = str(op[2])
            if info["ex"]:
                raise Fail("value", "exception for %s" % op)
            got = self.pvals(txt)
            if got != val:
                df = {k: (got.get(k), val.get(k)) for k in set(got) | set(val) if got.get(k) != val.get(k)}
                raise Fail("value", "compiler settings after %s differ (listed, expected): %s" % (op, df))
            if info["ELEM"] != val["elem-bytes"] or "'%s'" % info["TGT"] != val["target"]:
                raise Fail("value", "getters after %s: element bytes %s, target %s; listed %s, %s" % (op, info["ELEM"], info["TGT"], val["elem-bytes"], val["target"]))
            changed += val != before
        return dict(evals=len(case["ops"]), keys=[digest(case)] if changed else [], labels=["compiler"])

    def cases(self):
        for i in range(self.NK[self.tier]):
            yield self.gkern(self.rng("kern", i))
            yield self.gcomp(self.rng("comp", i))
        for c in super().cases():
            yield c

    def run_case(self, case):
        if case.get("kind") == "kern":
            return self.run_kern(case)
        if case.get("kind") == "comp":
            return self.run_comp(case)
        return super().run_case(case)

    def candidates(self, case, fail):
        if "kind" in case:
            for i in range(len(case["ops"])):
                yield dict(case, ops=case["ops"][:i] + case["ops"][i + 1:])
            for i, op in enumerate(case["ops"]):
                if op[0] == "opts":
                    for j in range(len(op[1])):
                        yield dict(case, ops=case["ops"][:i] + [[op[0], op[1][:j] + op[1][j + 1:]] + op[2:]] + case["ops"][i + 1:])
            return
        for c in super().candidates(case, fail):
            yield c

    def sample(self, case):
        return case if "kind" in case else super().sample(case)


def unesc(s):
    return s.strip().replace("|", "\n")
