import atexit, shutil, tempfile, threading
from ..common import *
from ..field import BINOPS, UNOPS, field

OPS = [o for o in BINOPS if o not in ("/", "\\", "%")]
DIV = ["/", "\\", "%"]
N = 4
NF = 5
FORMS = ["{x}", "({x} * r) * ri", "({x} + r) - r", "{x} | 0", "{x} * 1"]


def circuit():
    nops = len(OPS) + len(DIV) + len(UNOPS) + 1
    o = ["pragma circom 2.1.0;", "template Ops() {",
         "  signal input x[%d]; signal input y[%d]; signal input z[%d]; signal input r; signal input ri;" % (N, N, N),
         "  signal output o[%d][%d][%d][%d];" % (N, NF, NF, nops),
         "  for (var i = 0; i < %d; i++) {" % N,
         "    var a[%d]; var b[%d]; var c[%d];" % (NF, NF, NF)]
    for k, f in enumerate(FORMS):
        for v, s in (("a", "x"), ("b", "y"), ("c", "z")):
            o.append("    %s[%d] = %s;" % (v, k, f.format(x=s + "[i]")))
    o += ["    for (var f = 0; f < %d; f++) {" % NF, "      for (var g = 0; g < %d; g++) {" % NF]
    n = 0
    for op in OPS:
        o.append("        o[i][f][g][%d] <-- a[f] %s b[g];" % (n, op))
        n += 1
    for op in DIV:
        o.append("        o[i][f][g][%d] <-- a[f] %s c[g];" % (n, op))
        n += 1
    for op in UNOPS:
        o.append("        o[i][f][g][%d] <-- %s a[f];" % (n, op))
        n += 1
    o.append("        o[i][f][g][%d] <-- a[f] ? b[g] : c[g];" % n)
    o += ["      }", "    }", "  }", "}", "component main = Ops();"]
    return "\n".join(o) + "\n"


def expected(F, x, y, z):
    r = [F.bin(op, x, y) for op in OPS] + [F.bin(op, x, z) for op in DIV] + [F.un(op, x) for op in UNOPS]
    r.append(y if x else z)
    return r


NAMES = ["x %s y" % op for op in OPS] + ["x %s z" % op for op in DIV] + ["%sx" % op for op in UNOPS] + ["x ? y : z"]


class CHECK(Check):
    id = "C04"
    rule = ("random operands (small, near 0, p/2 and p, powers of two, word boundaries, uniform) for every operator and "
            "prime, evaluated (a) by the WASM and by the C++ calculator (assembly and portable) of a circuit that feeds "
            "the operands in five internal representations, and (b) by the compiler as constant expressions, through "
            "literals, variables, function arguments or template parameters; every result is compared with a reference written "
            "from the documentation; non-trivial: at least one operand pair is not both < 20")
    assumptions = ["division by 0 is undefined and not exercised"]
    cases = {"quick": 8000, "thorough": 200000}

    def prepare(self, ctx):
        base = tempfile.mkdtemp(prefix="vfops", dir="/dev/shm")
        atexit.register(shutil.rmtree, base, True)
        self.base = base
        self.built = {}
        jobs = [(p, na) for p in PRIME_NAMES for na in (False, True) if not (p == "goldilocks" and na)]
        errs = []
        sem = threading.Semaphore(8)

        def go(p, na):
            with sem:
                try:
                    R = run.Runner(ctx.circom)
                    d = "%s/%s%d" % (base, p, na)
                    c = R.compile(d, circuit(), flags=["--r1cs", "--sym", "--wasm", "-c"] + (["--no_asm"] if na else []),
                                  prime=p, timeout=120)
                    if not c.res.ok:
                        raise Fail("compile", "the circuit of operators is not compiled: " + c.res.text[-600:], source=circuit())
                    exe, err = R.build_cpp(c)
                    if exe is None:
                        raise Fail("cpp-build", err, source=circuit())
                    self.built[(p, na)] = (c, exe)
                except Exception as e:
                    errs.append(e)
        ts = [threading.Thread(target=go, args=j) for j in jobs]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise errs[0]

    def case(self, ctx, ch, idx):
        prime = ch.pick(PRIME_NAMES)
        F = field(prime)
        mode = ch.draw(5)
        if mode <= 1:
            return self.static(ctx, ch, prime, F)
        return self.dynamic(ctx, ch, prime, F, mode)

    def operand(self, ch, F, other=None):
        if other is not None and ch.chance(10):
            return (other + ch.int(-1, 1)) % F.p
        if other is not None and ch.chance(5):
            return (F.p - other + ch.int(-1, 1)) % F.p
        if other is not None and ch.chance(20):      # shift amounts
            return (ch.int(0, F.bits + 3) * (1 if ch.chance(60) else -1)) % F.p
        return ch.big(F.p)

    def dynamic(self, ctx, ch, prime, F, mode):
        na = mode == 4 and prime != "goldilocks"
        c, exe = self.built[(prime, na)]
        ins = []
        for _ in range(2):
            xs = [self.operand(ch, F) for _ in range(N)]
            ys = [self.operand(ch, F, x) for x in xs]
            zs = [self.operand(ch, F, x) or 1 for x in xs]
            r = ch.big(F.p) or 1
            ins.append({"x": xs, "y": ys, "z": zs, "r": r, "ri": pow(r, -1, F.p)})
        if mode == 2:
            how = "WASM"
            res = ctx.R.wasm(c, ins)
        else:
            how = "C++ --no_asm" if na else "C++"
            with run.Scratch() as d:
                c2 = run.Circuit(d, "c", None)
                # the program looks for its .dat next to the executable
                res = ctx.R.cpp(c2, exe, ins)
        for inp, a in zip(ins, res):
            fl = dict(source=circuit(), prime=prime, input=run.input_json(inp), backend=how)
            if "error" in a:
                raise Fail("refused", "%s (%s): %s" % (how, prime, a["error"]), **fl)
            q, n8, w = fmt.read_wtns(a["wtns"])
            k = 1
            for i in range(N):
                e = expected(F, inp["x"][i], inp["y"][i], inp["z"][i])
                for f in range(NF):
                    for g in range(NF):
                        got = w[k:k + len(e)]
                        k += len(e)
                        if got != e:
                            j = [u == v for u, v in zip(got, e)].index(False)
                            raise Fail("op " + NAMES[j], "%s, %s: %s is %d, expected %d, for x=%d y=%d z=%d (forms: x as %s, other as %s)" % (
                                how, prime, NAMES[j], got[j], e[j], inp["x"][i], inp["y"][i], inp["z"][i], FORMS[f], FORMS[g]), **fl)
        return Result(any(v > 20 for i in ins for v in i["x"] + i["y"]), prime + how + repr(ins), ["prime " + prime, how],
                      {"prime": prime, "backend": how, "input": run.input_json(ins[0])}, 2 * N * NF * NF * len(NAMES))

    def lit(self, ch, v, p):
        if ch.chance(6):
            v += p * ch.int(1, 3)        # numbers are taken modulo p
        return hex(v) if ch.chance(30) else str(v)

    def static(self, ctx, ch, prime, F):
        n = 25
        outs, want, desc = [], [], []
        fun, tmpl = [], []
        for k in range(n):
            kind = ch.weighted([(8, "bin"), (2, "un"), (1, "tern")])
            x = self.operand(ch, F)
            how = ch.pick(["lit", "var", "fun", "param", "mix", "compound"])
            if kind == "bin":
                op = ch.pick(BINOPS)
                y = self.operand(ch, F, x)
                if op in DIV and y == 0:
                    y = 1
                e = "{0} %s {1}" % op
                v = F.bin(op, x, y)
                if how == "compound" and op in ("&&", "||", "==", "!=", "<", ">", "<=", ">="):
                    how = "var"
                args = [x, y]
            elif kind == "un":
                op = ch.pick(UNOPS)
                e = op + " {0}"
                v = F.un(op, x)
                args = [x]
            else:
                args = [x if ch.chance(50) else 0, self.operand(ch, F), self.operand(ch, F)]
                e = "{0} ? {1} : {2}"
                v = args[1] if args[0] else args[2]
            if how == "compound" and kind != "bin":
                how = "var"
            lits = [self.lit(ch, a, F.p) for a in args]
            want.append(v)
            desc.append(e.format(*lits) + " (" + how + ")")
            vs = ["a%d" % i for i in range(len(args))]
            if how == "lit":
                outs.append("  o[%d] <-- %s;" % (k, e.format(*lits)))
            elif how == "var":
                outs.append("  { %s o[%d] <-- %s; }" % (" ".join("var %s = %s;" % z for z in zip(vs, lits)), k, e.format(*vs)))
            elif how == "mix":
                outs.append("  { var a0 = %s; o[%d] <-- %s; }" % (lits[0], k, e.format("a0", *lits[1:])))
            elif how == "compound":
                outs.append("  { var a0 = %s; a0 %s= %s; o[%d] <== a0; }" % (lits[0], op, lits[1], k))
            elif how == "fun":
                fun.append("function f%d(%s) { return %s; }" % (k, ", ".join(vs), e.format(*vs)))
                outs.append("  o[%d] <-- f%d(%s);" % (k, k, ", ".join(lits)))
            else:
                tmpl.append("template T%d(%s) { signal output o; o <-- %s; }" % (k, ", ".join(vs), e.format(*vs)))
                outs.append("  component c%d = T%d(%s); o[%d] <== c%d.o;" % (k, k, ", ".join(lits), k, k))
        src = "pragma circom 2.1.0;\n" + "\n".join(fun + tmpl) + "\ntemplate M() {\n  signal output o[%d];\n" % n + \
            "\n".join(outs) + "\n}\ncomponent main = M();\n"
        with run.Scratch() as d:
            c = ctx.R.compile(d, src, prime=prime)
            fl = dict(source=src, prime=prime)
            if not c.res.ok:
                raise Fail("panic" if c.res.panicked else "rejected", "constant expressions are not compiled: " +
                           ANSI.sub("", c.res.text)[-600:], **fl)
            a = ctx.R.wasm(c, [{}])[0]
            if "error" in a:
                raise Fail("refused", a["error"], **fl)
            q, n8, w = fmt.read_wtns(a["wtns"])
            for k in range(n):
                if w[1 + k] != want[k]:
                    raise Fail("const", "prime %s: the compiler evaluates %s to %d, expected %d" % (prime, desc[k], w[1 + k], want[k]), **fl)
        return Result(True, src + prime, ["prime " + prime, "compile time"], {"prime": prime, "source": src[:1200]}, n)
