from ..common import *
from ..algebra import closure, same
from ..rawsys import raw_system


def poly_of(tri, names, p):
    A, B, C = [{names[w]: v for w, v in lc.items()} for lc in tri]
    r = {}
    for x, u in A.items():
        for y, v in B.items():
            k = tuple(sorted(z for z in (x, y) if z != 0))
            r[k] = (r.get(k, 0) + u * v) % p
    for x, u in C.items():
        k = (x,) if x else ()
        r[k] = (r.get(k, 0) - u) % p
    return {k: v for k, v in r.items() if v}


class CHECK(Check):
    id = "C06"
    rule = ("random programs and random systems of linear and quadratic constraints spread over components; the "
            "constraints at O0 and the simplified constraints together with the equations of the substitutions file "
            "are brought to the same canonical form (reduced echelon form of all linear consequences, and of the "
            "quadratic constraints modulo them), which has to be equal; non-trivial: at least one signal is eliminated")
    assumptions = ["equality of the canonical forms implies equality of the solution sets; the simplifier is assumed to "
                   "reason linearly (substitutions and linear combinations), as documented"]
    cases = {"quick": 5000, "thorough": 100000}

    def case(self, ctx, ch, idx):
        prime = pick_prime(ch, 50)
        p = PRIMES[prime]
        opt = pick_opt(ch, "12")
        if ch.chance(55):
            src, feat = raw_system(ch, p)
            kind = "raw"
        else:
            c = Case(ch, prime, 1, linear_heavy=True, logs=False, asserts=False, mayfail=0, runtime_ops=False, steps=(3, 9))
            src, feat = c.src, c.feat
            kind = "program"
        fl = {"source": src, "prime": prime, "options": " ".join(opt)}

        def fail(sig, msg):
            raise Fail(sig, msg, **fl)
        with run.Scratch() as d:
            k0 = ctx.R.compile(d, src, flags=["--r1cs", "--sym"], prime=prime, opt=["--O0"], out=d + "/o0")
            k1 = ctx.R.compile(d, src, flags=["--r1cs", "--sym", "--simplification_substitution"], prime=prime, opt=opt, out=d + "/o1")
            for k, o in ((k0, "--O0"), (k1, " ".join(opt))):
                if not k.res.ok:
                    fail("panic" if k.res.panicked else "rejected", "not compiled with %s: %s" % (o, ANSI.sub("", k.res.text)[-500:]))
            r0, r1, s0, s1, sub = k0.r1cs(), k1.r1cs(), k0.sym(), k1.sym(), k1.subs()
        if [(x.label, x.name) for x in s0] != [(x.label, x.name) for x in s1]:
            fail("sym", "the labels or names of the signals depend on the simplification level")
        P = [poly_of(t, r0.map, p) for t in r0.cons]
        Q = [poly_of(t, r1.map, p) for t in r1.cons]
        wire = {x.label: x.wire for x in s1}
        for a, lc in sub.items():
            f = {(int(a),): p - 1}
            for b, v in lc.items():
                b = int(b)
                # (a signal that is left without constraints is dropped from the witness, but has no substitution)
                if str(b) in sub or (b and b not in wire):
                    fail("subst-target", "the substitution of signal %s uses signal %d, which is itself substituted" % (a, b))
                if int(v) % p == 0 or not 0 <= int(v) < p:
                    fail("subst-coef", "the substitution of signal %s has the coefficient %s for signal %d" % (a, v, b))
                key = (b,) if b else ()
                f[key] = (f.get(key, 0) + int(v)) % p
            if wire.get(int(a), -1) >= 0:
                fail("subst-kept", "signal %s has a substitution but is kept as wire %d" % (a, wire[int(a)]))
            Q.append({m: v for m, v in f.items() if v})
        bad = same(closure(P, p), closure(Q, p))
        if bad:
            fail("solutions", "O0 (first) and %s (second): %s" % (" ".join(opt), bad))
        return Result(len(sub) > 0, src + repr(opt) + prime, ["prime " + prime, "opt " + " ".join(opt[:1]), kind] + feat,
                      {"source": src[:1500], "opt": opt, "eliminated": len(sub), "constraints": [len(P), len(r1.cons)]}, 1)
