from ..common import *


class CHECK(Check):
    id = "C18"
    rule = ("random well-typed programs with assertions and === equalities over signals that hold for some inputs only, "
            "placed at top level, in loops, in the branches of unknown conditions, in functions and in subcomponents, "
            "compiled with --sanity_check 1, 2 (default) or 3 and any simplification level; the WASM calculator must "
            "return a witness exactly when no executed assertion or equality is false in the reference execution; "
            "non-trivial: the program has such a check that is executed and depends on the inputs")
    assumptions = ["inputs on which the documentation leaves an operation undefined (division by 0) are not judged"]
    cases = {"quick": 6500, "thorough": 120000}

    def case(self, ctx, ch, idx):
        prime = pick_prime(ch, 50)
        opt = pick_opt(ch)
        san = ch.pick([[], [], ["--sanity_check", "1"], ["--sanity_check", "2"], ["--sanity_check", "3"]])
        c = Case(ch, prime, 5, mayfail=90, logs=False)
        if not c.g.mayfail:
            raise Discard("no check that may fail")
        nf = ns = 0
        with run.Scratch() as d:
            k = c.compile(ctx, d, ["--r1cs", "--wasm"] + san, opt)
            for it, inp, res in zip(c.its, c.ins, ctx.R.wasm(k, c.ins, reuse=ch.chance(50))):
                if not in_model(it):
                    continue
                if it.fail and "error" not in res:
                    c.fail("accepted", "a witness is returned although %s is false (%s)" % (it.fail, " ".join(opt + san)), inp)
                if not it.fail and "error" in res:
                    c.fail("refused", "a valid execution is refused (%s): %s" % (" ".join(opt + san), str(res["error"])[:300]), inp)
                if it.fail:
                    nf += 1
                else:
                    ns += 1
        return Result(nf + ns > 0, c.key(opt, san), ["prime " + prime, "opt " + " ".join(opt[:1]), "sanity " + " ".join(san[1:]),
                                                      "both" if nf and ns else "refused" if nf else "accepted"] + c.feat, c.sample(opt, san))
