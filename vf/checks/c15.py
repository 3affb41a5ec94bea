import json, os
from ..common import *
from .. import mutate
from ..rawsys import raw_system

ALL = ["--r1cs", "--sym", "--wasm", "--wat", "--c", "--json", "--simplification_substitution"]
QUIET = ["--verbose", "--inspect"]
# options of the calculators: they must not change anything but the calculators
CALC = [["--sanity_check", "0"], ["--sanity_check", "1"], ["--sanity_check", "3"], ["--no_asm"]]


def tree(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = open(p, "rb").read()
    return out


def expected(flags, name="c"):
    """the files (or directories) that a set of output options produces"""
    e = set()
    for f, x in (("--r1cs", ".r1cs"), ("--sym", ".sym"), ("--json", "_constraints.json"), ("--simplification_substitution", "_substitutions.json"),
                 ("--wasm", "_js/%s.wasm" % name), ("--wat", "_js/%s.wat" % name)):
        if f in flags:
            e.add(name + x)
    if "--c" in flags:
        e |= {name + "_cpp/" + name + ".cpp", name + "_cpp/" + name + ".dat"}
    return e


def pick(ch, prob=45):
    return [f for f in ALL if ch.chance(prob)]


class CHECK(Check):
    id = "C15"
    rule = ("random programs and random constraint systems (also with more than 350 linear constraints in a cluster) compiled twice with the same "
            "prime and simplification options, but different sets of requested outputs, verbosity, output folders, number of processors and (in some "
            "cases) options of the witness calculators: acceptance must be the same, every file must be produced exactly when it is requested, and "
            "every file produced by both compilations must be the same (JSON files: the same objects; the files of the calculators only if their options "
            "are the same); non-trivial: at least two files are compared")
    assumptions = ["scheduling is varied by repeated runs and by the number of processors only"]
    cases = {"quick": 3200, "thorough": 120000}

    def case(self, ctx, ch, idx):
        prime = pick_prime(ch, 60)
        opt = pick_opt(ch, "0122")
        kind = ch.weighted([(5, "raw"), (5, "program"), (1, "illegal")])
        if kind == "raw":
            src, feat = raw_system(ch, PRIMES[prime])
        else:
            c = Case(ch, prime, 1, linear_heavy=ch.chance(50), mayfail=0)
            src, feat = c.src, c.feat
        if kind == "illegal":
            t, _ = mutate.mutate(ch, mutate.tokens(src))
            src = "".join(t)
        fa, fb = pick(ch), pick(ch)
        if ch.chance(80):
            fa, fb = sorted(set(fa) | {"--r1cs", "--sym"}), sorted(set(fb) | {"--r1cs", "--sym"})
        ka = ch.pick(CALC) if ch.chance(15) else []
        kb = ch.pick(CALC) if ch.chance(15) else ka
        qa, qb = [f for f in QUIET if ch.chance(25)], [f for f in QUIET if ch.chance(25)]
        cpus = ch.pick([None, None, 1, 2])
        xa, xb = fa + qa + ka, fb + qb + kb
        fl = {"source": src, "prime": prime, "options": " ".join(opt), "first": " ".join(xa), "second": " ".join(xb), "processors": str(cpus or "all")}

        def fail(sig, msg):
            raise Fail(sig, msg, **fl)
        with run.Scratch() as d:
            try:
                a = ctx.R.compile(d, src, flags=xa, prime=prime, opt=opt, out=d + "/a", timeout=5 if kind == "illegal" else 25)
            except run.Inconclusive:
                if kind == "illegal":
                    raise Discard("time limit")
                raise
            b = ctx.R.compile(d, src, flags=xb, prime=prime, opt=opt, out=d + ch.pick(["/b", "/other folder/deep", "/b.c"]), cpus=cpus)
            if a.res.rc != b.res.rc:
                fail("acceptance", "exit code %d with %s and %d with %s: %s" % (a.res.rc, " ".join(xa), b.res.rc, " ".join(xb),
                                                                               ANSI.sub("", (b if a.res.ok else a).res.text)[-400:]))
            if not a.res.ok:
                for k, x in ((a, xa), (b, xb)):
                    t = tree(k.dir)
                    if t:
                        fail("files", "a rejected program left the files %s" % (sorted(t)[:4],))
                return Result(True, src + repr((xa, xb, opt)), ["rejected"], {"source": src[:600], "options": [opt, xa, xb]})
            ta, tb = tree(a.dir), tree(b.dir)
            for t, x in ((ta, xa), (tb, xb)):
                have = set(f for f in t if "/" not in f or f.endswith((".wasm", ".wat")) or f in ("c_cpp/c.cpp", "c_cpp/c.dat"))
                want = expected(x)
                if have != want:
                    fail("files", "with %s: files missing %s, unexpected %s" % (" ".join(x), sorted(want - have), sorted(have - want)))
            n = 0
            for f in sorted(set(ta) & set(tb)):
                if "/" in f and ka != kb:
                    continue
                x, y = ta[f], tb[f]
                if f.endswith(".json"):
                    x, y = json.loads(x), json.loads(y)
                if x != y:
                    what = f.split("/")[-1].replace("c.", "").replace("c_", "")
                    fail("differs " + what, "the file %s differs (%d and %d bytes)" % (f, len(ta[f]), len(tb[f])))
                n += 1
        return Result(n >= 2, src + repr((xa, xb, opt)), ["prime " + prime, "opt " + " ".join(opt[:1]), kind] + ["file " + x for x in sorted(set(fa) & set(fb))] + feat,
                      {"source": src[:1000], "options": [opt, xa, xb], "files compared": n})
