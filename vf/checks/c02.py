from ..common import *


class CHECK(Check):
    id = "C02"
    rule = ("random well-typed programs with random inputs and prime, compiled at O0 (all signals in the witness) or "
            "at a simplification level; the value of every signal that the .sym file maps to a wire and the printed "
            "log lines are compared with an independent interpreter of the language; non-trivial: the program has at "
            "least 4 signals and one execution succeeded and was compared")
    assumptions = ["the relative order of the log lines of different components is not specified",
                   "whether a log statement of a function called with known values prints is not specified",
                   "inputs on which the documentation leaves an operation undefined (division by 0) are not judged"]
    cases = {"quick": 8000, "thorough": 150000}

    def case(self, ctx, ch, idx):
        prime = pick_prime(ch, 40)
        opt = pick_opt(ch) if ch.chance(30) else ["--O0"]
        c = Case(ch, prime, 3)
        with run.Scratch() as d:
            k = c.compile(ctx, d, opt=opt)
            sym = k.sym()
            r1 = k.r1cs()
            names = set(s.name for s in sym)
            for n in c.its[0].values():
                if "$anon" not in n and n not in names:
                    c.fail("missing", "signal %s is not in the .sym file" % n)
            n = 0
            for it, inp, res in zip(c.its, c.ins, ctx.R.wasm(k, c.ins)):
                if not in_model(it) or it.fail:
                    continue
                if "error" in res:
                    c.fail("refused", "the witness calculator refuses a valid execution: " + res["error"], inp)
                w = decode_witness(c, res, sym, r1, inp)
                bad = value_mismatch(it, sym, w)
                if bad:
                    c.fail("value", "wrong values: " + "; ".join(bad[:6]), inp)
                if "log_in_function" not in c.feat and not logs_agree(it, res["logs"]):
                    c.fail("log", "log lines %s, reference %s" % (res["logs"], [" ".join(l) for l in it.logs]), inp)
                n += 1
        return Result(n > 0 and len(c.its[0].leaves) >= 4, c.key(opt), ["prime " + prime, "opt " + " ".join(opt[:1])] + c.feat,
                      c.sample())
