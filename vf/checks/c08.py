import re
from ..common import *
from ..rawsys import raw_system


class CHECK(Check):
    id = "C08"
    rule = ("random programs and constraint systems, every simplification level and prime; the .r1cs file is read by an "
            "independent strict parser (sections, lengths, ids in range, reduced non-zero coefficients, no repetition), "
            "its header is compared with the counted inputs, outputs, labels and constraints, with the numbers that the "
            "compiler prints, and its constraints with those of the constraints JSON; non-trivial: at least 3 constraints")
    cases = {"quick": 6000, "thorough": 100000}

    def case(self, ctx, ch, idx):
        prime = pick_prime(ch, 30)
        p = PRIMES[prime]
        opt = pick_opt(ch)
        shape = None
        if ch.chance(35):
            src, feat = raw_system(ch, p)
        else:
            c = Case(ch, prime, 0, logs=False, runtime_ops=False)
            src, feat = c.src, c.feat
            shape = interp.main_shape(c.prog, prime)
        fl = {"source": src, "prime": prime, "options": " ".join(opt)}

        def fail(sig, msg):
            raise Fail(sig, msg, **fl)
        with run.Scratch() as d:
            k = ctx.R.compile(d, src, flags=["--r1cs", "--sym", "--json"], prime=prime, opt=opt)
            if not k.res.ok:
                fail("panic" if k.res.panicked else "rejected", "not compiled: " + ANSI.sub("", k.res.text)[-500:])
            try:
                r = k.r1cs()
            except fmt.FormatError as e:
                fail("format", "malformed .r1cs file: %s" % e)
            sym = k.sym()
            js = k.json_constraints()
            out = ANSI.sub("", k.res.out)
        if r.prime != p:
            fail("prime", "the file is over %d instead of %s" % (r.prime, prime))
        if r.fs != (p.bit_length() + 63) // 64 * 8:
            fail("field-size", "%d bytes per element" % r.fs)
        if r.map[0] != 0 or len(set(r.map)) != len(r.map) or any(x >= r.nlabels for x in r.map):
            fail("map", "the wire to label map is not injective, or out of range")
        if r.nlabels != len(sym) + 1:
            fail("labels", "%d labels, %d signals" % (r.nlabels, len(sym)))
        kept = [s.wire for s in sym if s.wire >= 0]
        if r.nwires != len(kept) + 1:
            fail("wires", "%d wires, %d signals in the witness" % (r.nwires, len(kept)))
        pub = re.search(r"public inputs: (\d+)", out)
        prv = re.search(r"private inputs: (\d+)(?: \((\d+|none) belong to witness\))?", out)
        num = {}
        for key, name in (("nl", "non-linear constraints"), ("l", "linear constraints"), ("out", "public outputs"),
                          ("w", "wires"), ("lab", "labels")):
            m = re.search(r"^%s: (\d+)" % name, out, re.M)
            if not m:
                fail("report", "the report has no line %r: %s" % (name, out))
            num[key] = int(m.group(1))
        if not pub or not prv:
            fail("report", "the report has no inputs: " + out)
        nl = sum(1 for a, b, cc in r.cons if a and b)
        got = (num["nl"] + num["l"], num["out"], num["w"], num["lab"], int(pub.group(1)))
        want = (r.ncons, r.npubout, r.nwires, r.nlabels, r.npubin)
        if got != want:
            fail("report", "the report says constraints, outputs, wires, labels, public inputs = %s, the file %s" % (got, want))
        if not nl <= num["nl"] <= sum(1 for a, b, cc in r.cons if a or b):
            fail("report", "%d non-linear constraints reported, the file has %d with a product" % (num["nl"], nl))
        if int(prv.group(1)) != r.nprvin:
            fail("report", "%s private inputs reported, %d in the header" % (prv.group(1), r.nprvin))
        inw = prv.group(2)
        inw = r.nprvin if inw is None else 0 if inw == "none" else int(inw)
        if shape is not None:
            nin = len(shape.inputs())
            nout = len(shape.outputs())
            if (nout, nin) != (r.npubout, int(pub.group(1)) + int(prv.group(1))):
                fail("interface", "main has %d outputs and %d inputs; reported %d and %d + %d" % (
                    nout, nin, r.npubout, int(pub.group(1)), int(prv.group(1))))
        # private inputs in the witness: the signals of main after outputs and public inputs
        first = r.npubout + r.npubin
        nprv = sum(1 for s in sym if first < s.label <= first + r.nprvin and s.wire >= 0)
        if nprv != inw:
            fail("private", "%d private inputs in the witness reported; %d of them have a wire" % (inw, nprv))
        jc = []
        for t in js["constraints"]:
            jc.append(tuple({int(a): int(b) for a, b in lc.items()} for lc in t))
        key = lambda t: tuple(tuple(sorted(lc.items())) for lc in t)
        if sorted(map(key, jc)) != sorted(map(key, r.cons)):
            x = [t for t in jc if t not in r.cons][:1], [t for t in r.cons if t not in jc][:1]
            fail("json", "the constraints JSON and the .r1cs file differ: %s" % (x,))
        return Result(r.ncons >= 3, src + repr(opt) + prime, ["prime " + prime, "opt " + " ".join(opt[:1])] + feat,
                      {"source": src[:1200], "opt": opt, "header": want})
