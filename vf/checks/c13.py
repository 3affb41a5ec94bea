import collections
from ..common import *
from .. import rewrite
from .c05 import r1cs_polys, show_poly


class CHECK(Check):
    id = "C13"
    rule = ("random well-typed programs in which a random subset of the documented abbreviations (anonymous components, tuples, underscore, "
            "compound assignments and increments, initialised declarations, for, ternary, ==>, <==, whole array and bus copies and equalities, derived "
            "operators) is replaced by the documented expansion, and loops are unrolled; both programs are compiled at O0 and compared: same "
            "constraints over the same signals, same values for every input, same log lines; non-trivial: at least one abbreviation was expanded and "
            "the texts differ")
    assumptions = ["the explicit component that replaces an anonymous one is matched by its position in the template"]
    cases = {"quick": 4500, "thorough": 100000}

    def case(self, ctx, ch, idx):
        prime = pick_prime(ch, 60)
        c = Case(ch, prime, 2, runtime_ops=ch.chance(50), mayfail=15)
        kinds = [k for k in rewrite.KINDS if ch.chance(45)]
        rw = rewrite.Sugar(ch, c.prog, kinds, ch.pick([100, 60]))
        other = lang.show(rw.program())
        if not rw.used:
            raise Discard("nothing to expand")
        fl = {"expanded": other}
        with run.Scratch() as d1, run.Scratch() as d2:
            a = c.compile(ctx, d1, opt=["--O0"])
            b = ctx.R.compile(d2, other, prime=prime, opt=["--O0"])
            if not b.res.ok:
                if "False assert reached" in b.res.text and any(it.fail for it in c.its):
                    raise Discard("assert false at compile time")
                c.fail("rejected", "the expanded program is %s: %s" % ("not processed (panic)" if b.res.panicked else "rejected",
                                                                      ANSI.sub("", b.res.text)[-700:]), None, **fl)
            tn = set(x.name for x in c.prog.defs)
            pol, sy = [], []
            for k in (a, b):
                sym, r1 = k.sym(), k.r1cs()
                m = rewrite.anon_map([s.name for s in sym], tn)
                for s in sym:
                    s.name = m[s.name]
                pol.append(collections.Counter(x for x in r1cs_polys(c, k, sym, r1, c.p) if x is not None))
                sy.append({s.name: s.wire for s in sym})
            if set(sy[0]) != set(sy[1]):
                c.fail("signals", "the programs have different signals: %s" % sorted(set(sy[0]) ^ set(sy[1]))[:6], None, **fl)
            if pol[0] != pol[1]:
                c.fail("constraints", "constraints only of the program: %s; only of the expanded one: %s" % (
                    [show_poly(x) for x in list(pol[0] - pol[1])[:3]], [show_poly(x) for x in list(pol[1] - pol[0])[:3]]), None, **fl)
            n = 0
            for it, inp, x, y in zip(c.its, c.ins, ctx.R.wasm(a, c.ins), ctx.R.wasm(b, c.ins)):
                if ("error" in x) != ("error" in y):
                    if not in_model(it):
                        continue
                    c.fail("refused", "only the %s program refuses the input: %s" % ("first" if "error" in x else "expanded", (x.get("error") or y.get("error"))[:300]), inp, **fl)
                if "error" in x:
                    continue
                w = [fmt.read_wtns(r["wtns"])[2] for r in (x, y)]
                bad = ["%s: %d, expanded %d" % (s, w[0][sy[0][s]], w[1][sy[1][s]]) for s in sy[0] if sy[0][s] >= 0 and w[0][sy[0][s]] != w[1][sy[1][s]]]
                if bad and in_model(it):
                    c.fail("value", "different values: " + "; ".join(bad[:5]), inp, **fl)
                if "log_in_function" not in c.feat and sorted(map(norm_log, x["logs"])) != sorted(map(norm_log, y["logs"])) and in_model(it):
                    c.fail("log", "different log lines: %s, expanded %s" % (x["logs"], y["logs"]), inp, **fl)
                n += 1
        return Result(other != c.src, c.key(other), ["expand " + k for k in rw.used] + ["compared" if n else "all refused"], {"expanded": other[:1200], "kinds": sorted(rw.used)})
