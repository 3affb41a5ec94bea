"""What the program-based checks share."""
import re
from . import fmt, gen, interp, lang, run
from .field import PRIMES, field
from .harness import Check, Discard, Fail, Result

PRIME_NAMES = list(PRIMES)
ANSI = re.compile(r"\x1b\[[0-9;]*m")


def norm_log(line):
    return " ".join(line.split())


def logs_agree(it, lines):
    """The log lines of a run against those of the interpreter.  The relative order of the lines of different
    components is not specified, the order inside one component is."""
    want = [norm_log(" ".join(l)) for l in it.logs]
    got = [norm_log(l) for l in lines]
    if sorted(want) != sorted(got):
        return False
    if len(set(it.logsrc)) <= 1:
        return want == got
    return True


def pick_prime(ch, main=50):
    return "bn128" if ch.chance(main) or ch.draw(2) == 0 else ch.pick(PRIME_NAMES)


def pick_opt(ch, levels="012"):
    o = []
    if "0" in levels:
        o.append(["--O0"])
    if "1" in levels:
        o += [["--O1"], []]
    if "2" in levels:
        o += [["--O2"], ["--O2"], ["--O2round", str(ch.int(1, 4))], ["--O2", "--use_old_simplification_heuristics"]]
    return ch.pick(o)


class Case:
    """a generated program with its inputs and its reference executions"""

    def __init__(self, ch, prime="bn128", ninputs=2, **cfg):
        self.prime = prime
        self.p = PRIMES[prime]
        self.g, self.prog, self.ins = gen.generate(ch, prime, ninputs, **cfg)
        self.src = lang.show(self.prog)
        try:
            self.its = [interp.Interp(self.prog, prime).start(x) for x in self.ins]
        except interp.Reject as e:
            raise Discard("model rejects: " + e.why.split(" ")[0])
        except interp.TooLong:
            raise Discard("too long")
        self.feat = sorted(self.g.feat)

    def compile(self, ctx, d, flags=("--r1cs", "--sym", "--wasm"), opt=("--O0",), **k):
        c = ctx.R.compile(d, self.src, flags=flags, prime=self.prime, opt=opt, **k)
        self.must_compile(c, list(opt) + list(flags))
        return c

    def must_compile(self, c, flags):
        if not c.res.ok:
            if "False assert reached" in c.res.text and all(it.fail == "assert" for it in self.its):
                raise Discard("assert false at compile time")   # whether its value is known then is not modelled exactly
            self.fail("panic" if c.res.panicked else "rejected",
                      "a valid program is %s by the compiler (%s, prime %s): %s" % (
                          "not processed (panic)" if c.res.panicked else "rejected", " ".join(flags), self.prime,
                          ANSI.sub("", c.res.text)[-700:]))

    def fail(self, sig, msg, inp=None, **files):
        fs = {"source": self.src, "prime": self.prime}
        if inp is not None:
            fs["input"] = run.input_json(inp)
        fs.update(files)
        raise Fail(sig, msg, **fs)

    def key(self, *extra):
        return self.src + repr(extra)

    def sample(self, *extra):
        s = self.src
        return {"source": s if len(s) < 1500 else s[:1500] + "...", "input": run.input_json(self.ins[0])[:400] if self.ins else "",
                "prime": self.prime, "extra": [str(e) for e in extra]}


def in_model(it):
    """the reference execution is defined by the documentation"""
    return it.undef is None


def decode_witness(case, res, sym, r1, inp):
    try:
        q, n8, w = fmt.read_wtns(res["wtns"])
    except fmt.FormatError as e:
        case.fail("wtns", "malformed witness file: %s" % e, inp)
    if q != case.p:
        case.fail("wtns", "the witness file names another prime", inp)
    if w[0] != 1:
        case.fail("wtns", "the first element of the witness is %d" % w[0], inp)
    if r1 is not None and len(w) != r1.nwires:
        case.fail("wtns", "%d elements in the witness, %d wires in the R1CS" % (len(w), r1.nwires), inp)
    return w


def value_mismatch(it, sym, w):
    vals = it.values()
    bad = []
    for s in sym:
        if s.wire >= 0 and s.name in vals and w[s.wire] != vals[s.name]:
            bad.append("%s = %d (reference: %d)" % (s.name, w[s.wire], vals[s.name]))
    return bad
