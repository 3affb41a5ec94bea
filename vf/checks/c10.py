import itertools
from ..common import *


def elems(dims):
    return ["".join("[%d]" % i for i in x) for x in itertools.product(*[range(d) for d in dims])]


class CHECK(Check):
    id = "C10"
    rule = ("random interfaces of main: interleaved inputs, outputs and intermediate signals (scalars, arrays of up to 3 "
            "dimensions, buses with nested fields and arrays of buses), a random public list, prime and simplification level; the witness file holds 1, the "
            "outputs, the public inputs and the private inputs in declaration order, row-major, with the values given "
            "and computed, at the positions that .sym and the header of the .r1cs file announce; non-trivial: at "
            "least one output, one public and one private input, and 2 of them arrays or buses")
    cases = {"quick": 5000, "thorough": 80000}

    def case(self, ctx, ch, idx):
        prime = pick_prime(ch, 60)
        p = PRIMES[prime]
        opt = pick_opt(ch)
        nb = ch.draw(4)
        buses = []      # (name, [(field, dims, bus|None)])
        for b in range(nb):
            fs = []
            for j in range(ch.int(1, 3)):
                sub = ch.pick([x[0] for x in buses]) if buses and ch.chance(30) else None
                fs.append(("%s%d" % (ch.pick("zax"), j), [ch.int(1, 3) for _ in range(ch.weighted([(5, 0), (3, 1), (1, 2)]))], sub))
            buses.append(("B%d" % b, fs))
        bd = dict(buses)

        def expand(name, dims, bus):
            out = []
            for e in elems(dims):
                if bus is None:
                    out.append(name + e)
                else:
                    for f, d, s in bd[bus]:
                        out += expand(name + e + "." + f, d, s)
            return out

        def count(dims, bus):
            return len(expand("", dims, bus))
        decls = []
        total = 0
        for j in range(ch.int(1, 9)):
            kind = ch.weighted([(4, "input"), (3, "output"), (1, "")])
            bus = ch.pick([x[0] for x in buses]) if buses and ch.chance(35) else None
            dims = [ch.int(1, 3) for _ in range(ch.weighted([(5, 0), (3, 1), (1, 2), (1, 3)]))]
            n = count(dims, bus)
            if total + n > 120:
                continue
            total += n
            decls.append((ch.pick("szam") + str(j), kind, dims, bus, ch.chance(30)))
        ins = [x for x in decls if x[1] == "input"]
        pub = ch.subset([x[0] for x in ins], 45)
        leaves = {x[0]: expand(x[0], x[2], x[3]) for x in decls}
        src = ["pragma circom 2.1.0;"]
        for b, fs in buses:
            src.append("bus %s {" % b)
            for f, d, s in fs:
                src.append("    %s %s%s;" % (s or "signal", f, "".join("[%d]" % x for x in d)))
            src.append("}")
        # the template
        vals = {}
        inp = {}

        def build(name, dims, bus, pre):
            if dims:
                return [build(name, dims[1:], bus, pre + "[%d]" % i) for i in range(dims[0])]
            if bus is None:
                v = ch.big(p) if ch.chance(40) else ch.draw(100)
                vals[pre] = v
                return v
            return {f: build(f, d, s, pre + "." + f) for f, d, s in bd[bus]}
        avail = []
        for n, k, d, b, kf in ins:
            inp[n] = build(n, d, b, n)
            avail += leaves[n]
        wrap = ch.chance(20)
        src.append("template %s() {" % ("Sub" if wrap else "Main"))
        body = []
        for n, k, d, b, kf in decls:
            ds = "".join("[%d]" % x for x in d)
            ty = b or "signal"
            head = (k + " " + ty) if kf and k else ty + (" " + k if k else "")
            src.append("    %s %s%s;" % (head, n, ds))
            if k != "input":
                for l in leaves[n]:
                    cst = ch.draw(50)
                    if not avail:
                        body.append("    %s <== %d;" % (l, cst))
                        vals[l] = cst
                    elif ch.chance(50):
                        a, c2 = ch.pick(avail), ch.pick(avail)
                        body.append("    %s <== %s * %s + %d;" % (l, a, c2, cst))
                        vals[l] = (vals[a] * vals[c2] + cst) % p
                    else:
                        a = ch.pick(avail)
                        body.append("    %s <== %s + %d;" % (l, a, cst))
                        vals[l] = (vals[a] + cst) % p
        src += body
        src.append("}")
        if wrap:     # main only forwards
            src.append("template Main() {")
            for n, k, d, b, kf in decls:
                if k:
                    src.append("    %s %s %s%s;" % (b or "signal", k, n, "".join("[%d]" % x for x in d)))
            src.append("    component c = Sub();")
            for n, k, d, b, kf in decls:
                for l in leaves[n]:
                    if k == "input":
                        src.append("    c.%s <== %s;" % (l, l))
            for n, k, d, b, kf in decls:
                if k == "output":
                    for l in leaves[n]:
                        src.append("    %s <== c.%s;" % (l, l))
            src.append("}")
        src.append("component main%s = Main();" % (" {public [%s]}" % ", ".join(ch.shuffle(pub)) if pub else ""))
        src = "\n".join(src) + "\n"
        order = [l for x in decls if x[1] == "output" for l in leaves[x[0]]]
        nout = len(order)
        order += [l for x in ins if x[0] in pub for l in leaves[x[0]]]
        npub = len(order) - nout
        order += [l for x in ins if x[0] not in pub for l in leaves[x[0]]]
        nprv = len(order) - nout - npub
        keys = ch.shuffle(list(inp))
        inp = {k: inp[k] for k in keys}
        fl = {"source": src, "prime": prime, "options": " ".join(opt), "input": run.input_json(inp)}

        def fail(sig, msg):
            raise Fail(sig, msg, **fl)
        with run.Scratch() as d:
            k = ctx.R.compile(d, src, prime=prime, opt=opt)
            if not k.res.ok:
                fail("panic" if k.res.panicked else "rejected", "not compiled: " + ANSI.sub("", k.res.text)[-500:])
            sym, r1 = k.sym(), k.r1cs()
            res = ctx.R.wasm(k, [inp])[0]
        if "error" in res:
            fail("no-witness", "no witness: " + str(res["error"])[:300])
        if (r1.npubout, r1.npubin, r1.nprvin) != (nout, npub, nprv):
            fail("header", "header: %s outputs, public inputs, private inputs; declared: %s" % (
                (r1.npubout, r1.npubin, r1.nprvin), (nout, npub, nprv)))
        names = [s.name for s in sym][:len(order)]
        if names != ["main." + l for l in order]:
            fail("order", "the first signals are %s, expected %s" % (names, order))
        q, n8, w = fmt.read_wtns(res["wtns"])
        if w[0] != 1:
            fail("one", "the witness starts with %d" % w[0])
        for i, l in enumerate(order[:nout + npub]):
            if w[i + 1] != vals[l] % p:
                fail("public", "position %d of the witness is %d; %s is %d" % (i + 1, w[i + 1], l, vals[l]))
        last = 0
        for s, l in zip(sym, order):
            if s.wire < 0:
                continue
            if s.wire <= last:
                fail("private", "%s is at position %d, after %d" % (l, s.wire, last))
            last = s.wire
            if w[s.wire] != vals[l] % p:
                fail("private", "%s has value %d, expected %d" % (l, w[s.wire], vals[l]))
        nt = bool(nout and npub and nprv) and sum(1 for x in decls if x[1] and (x[2] or x[3])) >= 2
        return Result(nt, src + repr(opt), ["prime " + prime, "opt " + (opt[0] if opt else "default"), "buses" if any(x[3] for x in decls) else "no buses",
                                            "main forwards" if wrap else "direct"],
                      {"source": src[:1200], "input": run.input_json(inp)[:300], "order": order[:30]})
