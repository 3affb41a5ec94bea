from ..common import *
from ..large import FAMILIES


class CHECK(Check):
    id = "C24"
    rule = ("programs that are large in one respect (signals, constraints, components, nesting, inputs, names, constants, "
            "templates, functions, buses, statements, loops and arrays of the witness calculation, dimensions; beyond 256, "
            "65,536 or some thousands) with the values of all signals in closed form, every prime and simplification level; "
            "the .r1cs, .sym and witness files (WASM; a third C++) have to be well formed, agree with each other, with the "
            "values and with the number of constraints; non-trivial: at least 300 signals, constraints or loop steps")
    cases = {"quick": 300, "thorough": 4000}

    def case(self, ctx, ch, idx):
        fam = FAMILIES[idx % len(FAMILIES)]
        prime = pick_prime(ch, 50)
        opt = pick_opt(ch)
        L = fam(ch, PRIMES[prime])
        if len(L.vals) > 20000 and len(opt) > 1:      # (several rounds or the old heuristics take minutes)
            opt = ["--O2"]
        cpp = L.cpp and ch.chance(35)
        o = " ".join(opt) or "default"

        def fail(sig, msg):
            raise Fail(sig, "%s (%s, %s, %s)" % (msg, L.label, prime, o), source=L.src, prime=prime, options=o,
                       input=run.input_json(L.inp))
        with run.Scratch() as d:
            k = ctx.R.compile(d, L.src, flags=["--r1cs", "--sym", "--wasm"] + (["--c"] if cpp else []), prime=prime, opt=opt, timeout=150)
            if not k.res.ok:
                fail("panic" if k.res.panicked else "rejected", "not compiled: " + ANSI.sub("", k.res.text)[-500:])
            try:
                r, sym = k.r1cs(), k.sym()
            except (fmt.FormatError, ValueError) as e:
                fail("format", "malformed file: %s" % e)
            if [s.label for s in sym] != list(range(1, len(sym) + 1)):
                fail("labels", "the labels are not 1..n in order")
            names = set(s.name for s in sym)
            if len(sym) != len(L.vals) or names != set(L.vals):
                fail("names", "%d signals in .sym, the program has %d; missing %s, unexpected %s" % (
                    len(sym), len(L.vals), sorted(set(L.vals) - names)[:3], sorted(names - set(L.vals))[:3]))
            wires = sorted(s.wire for s in sym if s.wire != -1)
            if wires != list(range(1, r.nwires)):
                fail("wires", "the witness positions in .sym are not 1..%d once each" % (r.nwires - 1))
            for s in sym:
                if s.wire != -1 and r.map[s.wire] != s.label:
                    fail("map", "%s is signal %d at position %d, mapped to signal %d" % (s.name, s.label, s.wire, r.map[s.wire]))
            nq = sum(1 for a, b, c in r.cons if a and b)
            if "--O0" in opt:
                if (nq, len(r.cons) - nq) != (L.nq, L.nl):
                    fail("count", "%d constraints with a product and %d without, expected %d and %d" % (nq, len(r.cons) - nq, L.nq, L.nl))
            elif len(r.cons) > L.nq + L.nl or nq > L.nq:
                fail("count", "%d constraints, %d with a product; the program has %d and %d" % (len(r.cons), nq, L.nq + L.nl, L.nq))
            elif L.o2 is not None and "--O2" in opt and len(r.cons) != L.o2:
                fail("count", "%d constraints, expected %d" % (len(r.cons), L.o2))
            runs = [("WASM", ctx.R.wasm(k, [L.inp], timeout=60)[0])]
            if cpp:
                exe, err = ctx.R.build_cpp(k)
                if exe is None:
                    fail("cpp", err)
                runs.append(("C++", ctx.R.cpp(k, exe, [L.inp])[0]))
            for who, res in runs:
                if "error" in res:
                    fail("refused", "the %s calculator fails: %s" % (who, res["error"]))
                try:
                    q, n8, w = fmt.read_wtns(res["wtns"])
                except fmt.FormatError as e:
                    fail("wtns", "malformed witness (%s): %s" % (who, e))
                if q != r.prime or len(w) != r.nwires or w[0] != 1:
                    fail("wtns", "the witness does not fit the .r1cs file (%s)" % who)
                bad = ["%s = %d (expected %d)" % (s.name, w[s.wire], L.vals[s.name]) for s in sym
                       if s.wire >= 0 and w[s.wire] != L.vals[s.name] % r.prime]
                if bad:
                    fail("value", "%d wrong values (%s): %s" % (len(bad), who, "; ".join(bad[:4])))
                u = fmt.unsatisfied(r.cons, w, r.prime)
                if u is not None:
                    fail("unsatisfied", "constraint %d of %d is not satisfied (%s)" % (u, len(r.cons), who))
        size = len(L.vals) + (L.inp.get("n", 0) if L.label == "loops" else 0)
        return Result(size >= 300, L.src[:3000] + str(len(L.vals)) + repr(opt) + prime,
                      [L.label, "prime " + prime, "opt " + (opt[0] if opt else "default"), "signals >= %d" % max([t for t in (0, 256, 4096, 65536) if len(L.vals) >= t])]
                      + (["C++"] if cpp else []), {"family": L.label, "signals": len(L.vals), "constraints": len(r.cons), "opt": opt, "prime": prime})
