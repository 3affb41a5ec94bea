import os
from ..common import *
from .. import illegal

WRAPS = [("%s", 5, True), ("{ %s }", 2, True), ("if (1 == 1) { %s }", 2, True), ("if (0) { } else { %s }", 2, True),
         ("for (var W = 0; W < 1; W++) { %s }", 2, True), ("var W = 0; while (W < 1) { %s W++; }", 1, True),
         ("for (var W = 0; W < 2; W++) { if (W == 1) { %s } }", 1, True),
         ("{ if (2 > 1) { for (var W = 3; W > 2; W--) { %s } } }", 1, True),
         ("for (var W = 0; W < 2; W++) { %s }", 1, False)]


def reached(inst, out):
    if inst.executed and inst.tmpl is not None:
        out.add(inst.tmpl.name)
    for c in inst.children:
        reached(c, out)
    return out


class CHECK(Check):
    id = "C11"
    rule = ("random well-typed host programs into which one of %d kinds of documented error (names, scopes, assignment "
            "operators, repeated assignments, non-quadratic constraints, unknown conditions, shapes, bounds, components, "
            "buses, tags, functions, main, pragmas, syntax) is placed at a random point of a template that is "
            "instantiated, inside random enclosing statements; the compiler must reject the program with a diagnostic "
            "(no panic, no output file) and must accept the same program with the legal twin of the erroneous code; "
            "non-trivial: both variants were compiled" % len(illegal.KINDS))
    assumptions = ["the text of the diagnostics is not compared"]
    cases = {"quick": 12000, "thorough": 200000}

    def case(self, ctx, ch, idx):
        prime = pick_prime(ch, 80)
        kind = ch.pick(sorted(illegal.KINDS))
        try:
            c = Case(ch, prime, 1, tmpl=(1, 2), steps=(1, 4), mayfail=0)
        except Discard:
            raise
        d = illegal.build(ch, kind)
        if d.get("nogold") and prime == "goldilocks":
            raise Discard("a 64-bit number is a possible size")
        names = sorted(reached(c.its[0].main, set()))
        t = [x for x in c.prog.defs if isinstance(x, lang.Template) and x.name in names and not x.par]
        if not t:
            raise Discard("no template")
        t = ch.pick(t)
        i = ch.int(t.nheader or 0, len(t.body))
        j = ch.int(i, len(t.body))
        if d["nowrap"]:
            w = "%s"
        else:
            ws = [(b, a) for a, b, one in WRAPS if one or not d["signal"]]
            w = ch.weighted(ws).replace("W", "w_rap%d" % ch.draw(3))
        body = t.body
        texts = {}
        for v in ("bad", "good"):
            stmt = w % d[v]
            pre = [lang.Raw(d["pre"])] if d["pre"] else []
            t.body = body[:i] + pre + body[i:j] + [lang.Raw(stmt)] + body[j:]
            prog = lang.Program(c.prog.defs, c.prog.main, c.prog.pragmas)
            s = lang.show(prog)
            t.body = body
            head, _, rest = s.partition("\n")
            if d["custom"] is True or d["custom"] == v:
                head += "\npragma custom_templates;"
            if v == "bad" and d.get("pragma"):
                head = d["pragma"]
            if d.get("include"):
                head += '\ninclude "%s";' % (d["include"] if v == "bad" else "ok.circom")
            s = head + "\n" + d["defs"] + d[v + "_defs"] + rest
            if d.get("main"):
                s = main_variant(s, d["main"], v, c.prog.main)
            texts[v] = s
        with run.Scratch() as dd:
            with open(os.path.join(dd, "ok.circom"), "w") as f:
                f.write("pragma circom 2.0.0;\nfunction included_fn(x) { return x; }\n")
            k = ctx.R.compile(dd, texts["good"], flags=(), prime=prime, opt=["--O0"])
            fl = {"source": texts["bad"], "twin": texts["good"], "prime": prime, "kind": kind}
            if not k.res.ok:
                raise Fail("twin " + kind, "the legal twin of the error %s is %s: %s" % (
                    kind, "not processed (panic)" if k.res.panicked else "rejected", ANSI.sub("", k.res.text)[-600:]), **fl)
            k = ctx.R.compile(dd, texts["bad"], flags=("--r1cs", "--sym", "--wasm"), prime=prime, opt=["--O0"])
            if k.res.panicked:
                raise Fail("panic " + kind, "the compiler panics on a program with the error %s: %s" % (kind, k.res.err[-500:]), **fl)
            if k.res.ok:
                raise Fail("accepted " + kind, "a program with the error %s is accepted" % kind, **fl)
            if not k.res.text.strip():
                raise Fail("silent " + kind, "no diagnostic for the error %s" % kind, **fl)
            left = [x for x in os.listdir(dd) if x.endswith((".r1cs", ".sym", "_js"))]
            if left:
                raise Fail("output " + kind, "files written for a rejected program: %s" % left, **fl)
        return Result(True, texts["bad"], [kind, "wrap " + w.replace("%s", "..")[:30]], {"kind": kind, "bad": w % d["bad"], "good": w % d["good"], "pre": d["pre"]})


def main_variant(s, m, v, main):
    """replace the main declaration"""
    lines = s.rstrip("\n").split("\n")
    k = [q for q, l in enumerate(lines) if l.startswith("component main")][0]
    t, i, o = m["name"], m["in"], m["out"]
    ok = "component main {public [%s]} = %s(1);" % (i[0], t)
    bad = {"none": "", "two": ok + "\n" + ok, "args": "component main = %s(1, 2);" % t, "undefined": "component main = %s_no(1);" % t,
           "function": "function mainfn(x) { return x; }\ncomponent main = mainfn(1);", "public_unknown": "component main {public [%s_no]} = %s(1);" % (i[0], t),
           "public_output": "component main {public [%s]} = %s(1);" % (o[0], t), "public_intermediate": "component main {public [%s, %s]} = %s(1);" % (i[0], "zz", t),
           "not_call": "component main = 3;", "args_unknown": "component main = %s(xyz);" % t}[m["bad"]]
    lines[k] = m["def"] + (bad if v == "bad" else ok)
    return "\n".join(lines) + "\n"
