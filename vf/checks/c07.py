from ..common import *
from ..rawsys import raw_system
from .c06 import poly_of


def linear(f):
    return all(len(m) < 2 for m in f)


class CHECK(Check):
    id = "C07"
    rule = ("random programs and random constraint systems compiled at O0 and at O1, O2, O2round n or O2 with the old "
            "heuristics; O0 keeps every signal and constraint; O1 substitutes signals only by a signal or a constant and leaves no "
            "stated constraint signal = signal or signal = constant with a private signal; O2 leaves no linear constraint "
            "with a private signal; main outputs and public inputs are always kept, in order; non-trivial: the O0 "
            "system has a linear constraint with a private signal")
    cases = {"quick": 6000, "thorough": 100000}

    def case(self, ctx, ch, idx):
        prime = pick_prime(ch, 50)
        p = PRIMES[prime]
        opt = pick_opt(ch, "12")
        if ch.chance(60):
            src, feat = raw_system(ch, p)
        else:
            c = Case(ch, prime, 1, linear_heavy=True, logs=False, asserts=False, mayfail=0, runtime_ops=False, steps=(3, 9))
            src, feat = c.src, c.feat
        fl = {"source": src, "prime": prime, "options": " ".join(opt)}

        def fail(sig, msg):
            raise Fail(sig, msg, **fl)
        with run.Scratch() as d:
            fs = ["--r1cs", "--sym", "--simplification_substitution"]
            k0 = ctx.R.compile(d, src, flags=fs, prime=prime, opt=["--O0"], out=d + "/o0")
            k1 = ctx.R.compile(d, src, flags=fs, prime=prime, opt=opt, out=d + "/o1")
            for k, o in ((k0, "--O0"), (k1, " ".join(opt))):
                if not k.res.ok:
                    fail("panic" if k.res.panicked else "rejected", "not compiled with %s: %s" % (o, ANSI.sub("", k.res.text)[-500:]))
            r0, r1, s0, s1, sub0, sub = k0.r1cs(), k1.r1cs(), k0.sym(), k1.sym(), k0.subs(), k1.subs()
        # O0 keeps everything
        if sub0:
            fail("o0-subst", "O0 substitutes signals: %s" % list(sub0)[:5])
        for x in s0:
            if x.wire != x.label:
                fail("o0-wires", "at O0 signal %s (%d) is wire %d" % (x.name, x.label, x.wire))
        if r0.nwires != len(s0) + 1:
            fail("o0-wires", "O0 has %d wires for %d signals" % (r0.nwires, len(s0)))
        npub = r0.npubout + r0.npubin
        if (r1.npubout, r1.npubin) != (r0.npubout, r0.npubin):
            fail("interface", "%s changes the number of outputs or public inputs: %s instead of %s" % (
                " ".join(opt), (r1.npubout, r1.npubin), (r0.npubout, r0.npubin)))
        w1 = {x.label: x.wire for x in s1}
        for i in range(1, npub + 1):
            if w1.get(i) != i:
                fail("interface", "output or public input %d is wire %s with %s" % (i, w1.get(i), " ".join(opt)))
        P = [poly_of(t, r0.map, p) for t in r0.cons]
        Q = [poly_of(t, r1.map, p) for t in r1.cons]

        def private(f):
            return [m[0] for m in f if m and m[0] > npub]
        simple, lins = 0, 0
        o1 = opt in ([], ["--O1"])
        for f in P:
            if f and linear(f) and private(f):
                lins += 1
        if o1:
            for a, lc in sub.items():
                if len(lc) > 1 or any(int(b) and v != "1" for b, v in lc.items()):
                    fail("o1-subst", "O1 substitutes signal %s by %s" % (a, lc))
            gone = set(int(a) for a in sub)
            for f, t in zip(P, r0.cons):
                if t[0] or t[1]:
                    continue          # stated with a product, even if it cancels
                vs = [m for m in f if m]
                eq = len(f) == 2 and len(vs) == 2 and linear(f) and sum(f.values()) % p == 0
                const = linear(f) and len(vs) == 1
                if not (eq or const) or not private(f):
                    continue
                simple += 1
                if not any(v[0] in gone for v in vs):
                    fail("o1-left", "O1 does not remove the constraint %s" % f)
        elif opt[0] == "--O2":
            for f in Q:
                if f and linear(f) and private(f):
                    fail("o2-left", "O2 leaves the linear constraint %s (signals above %d are private)" % (f, npub))
        return Result(lins > 0, src + repr(opt) + prime, ["opt " + " ".join(opt[:1])] + (["simple" if simple else "none simple"] if o1 else []) + feat,
                      {"source": src[:1500], "opt": opt, "linear": lins, "eliminated": len(sub)})
