from ..common import *


class CHECK(Check):
    id = "C01"
    rule = ("random well-typed programs (templates, functions, buses, components, anonymous components, hints, loops) "
            "with random inputs, prime and simplification level; every witness that the WASM calculator returns is "
            "evaluated in every constraint of the emitted .r1cs read by an independent reader; non-trivial: the file "
            "has at least one constraint with a product or one linear constraint and a witness was returned")
    assumptions = ["inputs on which the documentation leaves an operation undefined (division by 0) are not judged"]
    cases = {"quick": 7000, "thorough": 120000}

    def case(self, ctx, ch, idx):
        prime = pick_prime(ch)
        opt = pick_opt(ch)
        c = Case(ch, prime, 2)
        with run.Scratch() as d:
            k = c.compile(ctx, d, ("--r1cs", "--wasm"), opt)
            try:
                r1 = k.r1cs()
            except fmt.FormatError as e:
                c.fail("r1cs", "malformed R1CS file: %s" % e)
            n = 0
            for it, inp, res in zip(c.its, c.ins, ctx.R.wasm(k, c.ins)):
                if not in_model(it) or "error" in res:
                    continue
                w = decode_witness(c, res, None, r1, inp)
                u = fmt.unsatisfied(r1.cons, w, r1.prime)
                if u is not None:
                    c.fail("unsatisfied", "constraint %d of %d is not satisfied by the witness (%s): %s" % (
                        u, len(r1.cons), " ".join(opt), r1.cons[u]), inp)
                n += 1
        return Result(n > 0 and len(r1.cons) > 0, c.key(opt), ["opt " + " ".join(opt[:1]), "prime " + prime] + c.feat,
                      c.sample(opt))
