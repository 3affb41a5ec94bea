import collections
from ..common import *


def r1cs_polys(case, k, sym, r1, p):
    """canonical constraints of the file over signal names"""
    name = {0: None}
    for s in sym:
        if s.wire > 0:
            name[s.wire] = s.name
    out = []
    for a, b, c in r1.cons:
        if any(w not in name for lc in (a, b, c) for w in lc):
            case.fail("wire", "a constraint uses a wire that the .sym file does not name")
        tr = [{name[w]: v for w, v in lc.items()} for lc in (a, b, c)]
        out.append(interp.canon(interp.poly(tr, p), p))
    return out


def show_poly(c):
    if c is None:
        return "0"
    return " + ".join("%d%s" % (v, "".join("*" + x for x in k)) for k, v in c)[:400] + " = 0"


class CHECK(Check):
    id = "C05"
    rule = ("random well-typed programs and prime, compiled at O0; the constraints of the .r1cs file, expanded to "
            "polynomials over signal names up to a scalar factor, are compared as a multiset with those that the "
            "reference interpreter collects from <==, ==> and === while it executes the program; non-trivial: at least 3 "
            "non-trivial constraints were compared")
    assumptions = ["constraints that are identically true may be omitted",
                   "anonymous components are left out here (their generated names are not specified), see C13"]
    cases = {"quick": 8000, "thorough": 150000}

    def case(self, ctx, ch, idx):
        prime = pick_prime(ch, 40)
        c = Case(ch, prime, 1, anon=False, logs=False, mayfail=0, steps=(2, 9), runtime_ops=ch.chance(30))
        p = c.p
        with run.Scratch() as d:
            k = c.compile(ctx, d, flags=("--r1cs", "--sym"), opt=["--O0"])
            sym, r1 = k.sym(), k.r1cs()
            got = collections.Counter(x for x in r1cs_polys(c, k, sym, r1, p) if x is not None)
            want = collections.Counter(x for x in (interp.canon(interp.poly(a, p), p) for a in c.its[0].constraints) if x is not None)
            if got != want:
                miss = want - got
                extra = got - want
                c.fail("missing" if miss else "extra", "stated but not emitted: %s; emitted but not stated: %s" % (
                    [show_poly(x) for x in list(miss)[:3]], [show_poly(x) for x in list(extra)[:3]]))
        n = sum(want.values())
        quad = sum(1 for x in want if any(len(m) == 2 for m, _ in x))
        return Result(n >= 3, c.key(), ["prime " + prime, "quadratic" if quad else "linear only"] + c.feat, c.sample(), n)
