import re

from ..common import *


class CHECK(Check):
    id = "C03"
    rule = ("random well-typed programs with random inputs and prime; the C++ witness calculator that circom emits "
            "(assembly field code, or portable with --no_asm) is compiled with g++ and run on the same inputs as the "
            "WASM one: both must refuse or both must write the same .wtns file and print the same log lines, which also "
            "have to be those of the reference interpreter; non-trivial: at least one accepted execution was compared")
    assumptions = ["the relative order of the log lines of different components is not specified",
                   "inputs on which the documentation leaves an operation undefined (division by 0) are not judged",
                   "generated C++ compiled with g++ -O0 (support files -O1) instead of -O3"]
    cases = {"quick": 480, "thorough": 12000}

    def case(self, ctx, ch, idx):
        prime = pick_prime(ch, 30)
        opt = pick_opt(ch) if ch.chance(25) else ["--O0"]
        noasm = prime != "goldilocks" and ch.chance(35)
        c = Case(ch, prime, 4, steps=(3, 8))
        threads = re.search(r"\bparallel\b", c.src)
        flags = ["--r1cs", "--sym", "--wasm", "-c"] + (["--no_asm"] if noasm else [])
        with run.Scratch() as d:
            k = c.compile(ctx, d, flags, opt)
            sym, r1 = k.sym(), k.r1cs()
            exe, err = ctx.R.build_cpp(k)
            if exe is None:
                c.fail("cpp-build", err)
            n = 0
            ws = ctx.R.wasm(k, c.ins)
            cs = ctx.R.cpp(k, exe, c.ins)
            for it, inp, a, b in zip(c.its, c.ins, ws, cs):
                if not in_model(it):
                    continue
                if ("error" in a) != ("error" in b):
                    c.fail("refusal", "WASM: %s; C++: %s" % (
                        a.get("error", "accepts")[:300], b.get("error", "accepts")[-300:] + " rc=%s" % b.get("rc")), inp)
                if "error" in a:
                    continue
                if a["wtns"] != b["wtns"]:
                    w1 = decode_witness(c, a, sym, r1, inp)
                    w2 = decode_witness(c, b, sym, r1, inp)
                    diff = ["%s: WASM %d, C++ %d" % (s.name, w1[s.wire], w2[s.wire]) for s in sym
                            if s.wire >= 0 and w1[s.wire] != w2[s.wire]]
                    c.fail("differs", "the witnesses differ%s: %s" % (" (--no_asm)" if noasm else "", "; ".join(diff[:5])), inp)
                if not it.fail:
                    w = decode_witness(c, b, sym, r1, inp)
                    bad = value_mismatch(it, sym, w)
                    if bad:
                        c.fail("value", "wrong values: " + "; ".join(bad[:6]), inp)
                    lines = b["logs"].split("\n")[:-1]
                    # components that run at the same time may interleave the pieces of their lines
                    same = sorted("".join(b["logs"].split())) == sorted("".join("".join(w.split()) for l in it.logs for w in l)) if threads \
                        else logs_agree(it, lines)
                    if "log_in_function" in c.feat:
                        same = sorted("".join(b["logs"].split())) == sorted("".join("".join(l.split()) for l in a["logs"]))
                    if not same:
                        c.fail("log", "log lines %s, reference %s" % (lines, [" ".join(l) for l in it.logs]), inp)
                n += 1
        return Result(n > 0, c.key(opt, noasm), ["prime " + prime, "no_asm" if noasm else "asm"] + c.feat, c.sample(opt, noasm), n)
