import collections, os
from ..common import *
from .. import rewrite, textual
from ..lang import Anon
from .c05 import r1cs_polys, show_poly


class CHECK(Check):
    id = "C16"
    rule = ("random well-typed programs whose text is changed by random renamings of variables, parameters, functions, templates and buses (also to "
            "names used elsewhere in the program), redundant parentheses, other notations of the numbers (hexadecimal, plus multiples of the prime), "
            "braces, blanks and comments, order of the definitions and division in files that include each other; at any simplification level "
            "the R1CS file must be identical byte by byte, the .sym file identical (up to the names of anonymous components) and the witnesses and log "
            "lines equal; non-trivial: the text differs by more than blanks")
    assumptions = ["names of signals and components are part of the result"]
    cases = {"quick": 4500, "thorough": 100000}

    def case(self, ctx, ch, idx):
        prime = pick_prime(ch, 60)
        c = Case(ch, prime, 1, mayfail=10)
        opt = pick_opt(ch)
        pr, used, o = c.prog, [], []
        if ch.chance(60):
            pr, n = textual.alpha(ch, pr)
            if n:
                used.append("variables")
        tn = set(d.name for d in pr.defs)
        if ch.chance(30):
            pr, m = textual.definitions(ch, pr)
            if m:
                used.append("definitions")
        if ch.chance(40):
            pr = textual.parens(ch, pr, ch.pick([8, 40]))
            used.append("parentheses")
        if ch.chance(40):
            pr = textual.numbers(ch, pr, c.p)
            used.append("numbers")
        if ch.chance(30):
            pr = textual.braces(ch, pr)
            used.append("braces")
        if ch.chance(40):
            pr = lang.Program(ch.shuffle(pr.defs), pr.main, pr.pragmas)
            used.append("order")
        text = None
        if ch.chance(35):
            fs, o = textual.files(ch, pr)
            used.append("files")
        else:
            fs = {"c.circom": lang.show(pr)}
        if ch.chance(50):
            used.append("layout")
            fs = {k: textual.layout(ch, v, ch.pick([10, 30])) for k, v in fs.items()} if ch.chance(75) else {k: textual.squeeze(v) for k, v in fs.items()}
        if not used:
            raise Discard("unchanged")
        tn2 = set(d.name for d in pr.defs)
        other = "\n".join("// ---- %s\n%s" % x for x in fs.items())
        fl = {"changed": other, "options": " ".join(opt + o)}
        with run.Scratch() as d1, run.Scratch() as d2:
            flags = ["--r1cs", "--sym", "--wasm"]
            a = c.compile(ctx, d1, flags, opt)
            b = ctx.R.compile(d2, fs, flags=flags + ([o[0], os.path.join(d2, o[1])] if o else []), prime=prime, opt=opt)
            if not b.res.ok:
                if "False assert reached" in b.res.text and any(it.fail for it in c.its):
                    raise Discard("assert false at compile time")
                c.fail("rejected", "the changed program is %s: %s" % ("not processed (panic)" if b.res.panicked else "rejected",
                                                                     ANSI.sub("", b.res.text)[-700:]), None, **fl)
            anon = any(rewrite.has(s, (Anon,)) for d in c.prog.defs for s in d.body)
            r = [open(k.path(".r1cs"), "rb").read() for k in (a, b)]
            if r[0] != r[1] and not anon:
                c.fail("r1cs", "the R1CS files differ", None, **fl)
            rows, pol, wires = [], [], []
            for k, t in ((a, tn), (b, tn2)):
                s = k.sym()
                if anon:
                    m = rewrite.anon_map([x.name for x in s], t)
                    for x in s:
                        x.name = m[x.name]
                    # the anonymous components are arranged by their names, which have the name of the template and the position
                    rows.append(sorted(x.name for x in s))
                    wires.append({x.name: x.wire for x in s})
                    if opt == ["--O0"]:
                        pol.append(collections.Counter(x for x in r1cs_polys(c, k, s, k.r1cs(), c.p) if x is not None))
                else:
                    rows.append([(x.label, x.wire, x.comp, x.name) for x in s])
            if rows[0] != rows[1]:
                q = [(x, y) for x, y in zip(*rows) if x != y][:2]
                c.fail("sym", "the .sym files differ: %s" % (q,), None, **fl)
            if pol and pol[0] != pol[1]:
                c.fail("constraints", "different constraints: %s; %s" % ([show_poly(x) for x in list(pol[0] - pol[1])[:2]], [show_poly(x) for x in list(pol[1] - pol[0])[:2]]), None, **fl)
            n = 0
            for it, inp, x, y in zip(c.its, c.ins, ctx.R.wasm(a, c.ins), ctx.R.wasm(b, c.ins)):
                same = x.get("wtns") == y.get("wtns")
                if anon and "wtns" in x and "wtns" in y:
                    w = [fmt.read_wtns(q["wtns"])[2] for q in (x, y)]
                    same = all(w[0][wires[0][m]] == w[1][wires[1][m]] for m in wires[0] if wires[0][m] >= 0 and wires[1][m] >= 0)
                if not same or ("log_in_function" not in c.feat and sorted(x["logs"]) != sorted(y["logs"])):
                    if not in_model(it) and "wtns" not in x or not in_model(it):
                        continue
                    c.fail("witness", "different results: %s; changed: %s" % (
                        str(x.get("error", x["logs"]))[:200], str(y.get("error", y["logs"]))[:200]), inp, **fl)
                n += 1
        if anon:
            used.append("anonymous components")
        return Result(used != ["layout"], c.key(other), used + ["opt " + " ".join(opt[:1])], {"changed": other[:1200], "kinds": used})
