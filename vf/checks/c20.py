"""Custom templates: no constraints, listed with their parameters and wires in the R1CS file."""
import collections, itertools
from ..common import *
from ..algebra import closure, same
from .c06 import poly_of


class Ref:
    """a position of a signal: text relative to the template or component"""
    __slots__ = ("text",)

    def __init__(self, text):
        self.text = text


def idx(dims):
    return ["".join("[%d]" % i for i in t) for t in itertools.product(*[range(d) for d in dims])]


class Template:
    """decls: [(kind, name, positions, source)] in order of declaration"""

    def __init__(self, name, custom):
        self.name = name
        self.custom = custom
        self.prefix = ""
        self.params = []       # (name, array length or None)
        self.decls = []
        self.assign = []       # (position, expression) in order
        self.cons = 0
        self.comps = []        # (name, [(index text, callee, args)])
        self.body = []
        self.bus = None

    def of(self, *kinds):
        return [p for k, n, ps, s in self.decls if k in kinds for p in ps]


# expressions: lists of (coefficient, factors); a coefficient is an int or a parameter position
def ev(e, env, par, p):
    t = 0
    for c, fs in e:
        v = par[c] if isinstance(c, str) else c
        for f in fs:
            v = v * env[f] % p
        t += v
    return t % p


def show(e):
    return " + ".join("*".join([str(c)] + list(fs)) for c, fs in e) or "0"


def poly(e, env, par, p):
    """env: position -> qualified name"""
    r = {}
    for c, fs in e:
        v = (par[c] if isinstance(c, str) else c) % p
        k = tuple(sorted(env[f] for f in fs))
        r[k] = (r.get(k, 0) + v) % p
    return {k: v for k, v in r.items() if v}


class Gen:
    def __init__(self, ch):
        self.ch = ch
        self.ts = []
        self.buses = []
        for k in range(ch.pick([0, 1, 1])):
            self.buses.append(("B%d" % k, ch.int(1, 3)))
        for k in range(ch.int(1, 3)):
            self.ts.append(self.custom("G%d" % k))
        for k in range(ch.int(1, 3)):
            self.ts.append(self.regular("T%d" % k))

    def params(self, t):
        ch = self.ch
        for n in ch.sample(["n", "k", "a", "z"], ch.pick([0, 1, 1, 2, 3])):
            t.params.append((n, ch.int(1, 3) if t.custom and ch.chance(25) else None))

    def parrefs(self, t):
        return [n + i for n, l in t.params for i in (idx([l]) if l else [""])]

    def custom(self, name):
        ch = self.ch
        t = Template(name, True)
        self.params(t)
        t.prefix = ch.pick(["", "", "", "parallel "])
        kinds = ["input"] * ch.int(1, 2) + ["output"] * ch.pick([0, 1, 1, 2]) + [""] * ch.pick([0, 0, 1])
        ch.shuffle(kinds)
        names = ch.sample(["i", "o", "s", "b", "q", "w"], len(kinds))
        for kind, n in zip(kinds, names):
            dims = [ch.int(1, 3) for _ in range(ch.pick([0, 0, 1, 2]))]
            ty = "signal %s " % kind
            pos = [n + x for x in idx(dims)]
            if self.buses and ch.chance(30):
                b, m = ch.pick(self.buses)
                ty = "%s() %s " % (b, kind) if ch.chance(50) or not kind else "%s %s() " % (kind, b)
                pos = [x + f for x in pos for f in ([".f"] + [".g[%d]" % j for j in range(m)])]
                if kind == "" or True:
                    ty = "%s %s() " % (kind, b) if kind else "%s() " % b
            t.decls.append((kind or "mid", n, pos, ty + n + "".join("[%d]" % d for d in dims) + ";"))
        ins = t.of("input")
        avail = list(ins)
        for x in t.of("mid") + t.of("output"):
            t.assign.append((x, self.expr(t, avail, 3)))
            avail.append(x)
        return t

    def expr(self, t, avail, deg):
        ch = self.ch
        e = []
        for _ in range(ch.int(1, 3)):
            c = ch.pick(self.parrefs(t)) if t.params and ch.chance(30) else ch.int(1, 9)
            e.append((c, [ch.pick(avail) for _ in range(ch.int(0 if e else 1, deg))]))
        return e

    def arg(self, t, l):
        ch = self.ch
        if l:
            return [self.arg(t, None) for _ in range(l)]
        pr = [n for n, x in t.params if x is None]
        if pr and ch.chance(50):
            return (ch.pick(pr), ch.pick([0, 0, 1]))
        return ch.int(0, 3)

    def regular(self, name):
        ch = self.ch
        t = Template(name, False)
        self.params(t)
        n, m = ch.int(1, 3), ch.int(1, 2)
        t.decls = [("input", "in", ["in" + x for x in idx([n])], "signal input in[%d];" % n),
                   ("output", "out", ["out" + x for x in idx([m])], "signal output out[%d];" % m)]
        avail = list(t.of("input"))
        t.steps = []     # ("comp", path, callee, args) ("set", position, expr) ("sig", name, expr)
        for k in range(ch.int(1, 4)):
            if ch.chance(25):
                s = "s%d" % k
                t.decls.append(("mid", s, [s], "signal %s;" % s))
                t.steps.append(("set", s, self.quad(t, avail), ch.chance(80)))
                avail.append(s)
                continue
            c = "c%d" % k
            callee = ch.pick(self.ts)
            if ch.chance(35):
                dims = [ch.int(1, 3)]
                cells = idx(dims)
            else:
                dims, cells = [], [""]
            if len(cells) > 1 and callee.custom and ch.chance(50):
                pass
            t.comps.append((c, dims))
            args = None
            for x in cells:
                if args is None or ch.chance(40):
                    args = [self.arg(t, l) for _, l in callee.params]
                t.steps.append(("comp", c + x, callee, args))
                for q in callee.of("input"):
                    t.steps.append(("set", c + x + "." + q, self.quad(t, avail) if ch.chance(60) else [(1, [ch.pick(avail)])], ch.chance(85)))
                avail += [c + x + "." + q for q in callee.of("output")]
        for o in t.of("output"):
            t.steps.append(("set", o, self.quad(t, avail), ch.chance(90)))
        return t

    def quad(self, t, avail):
        """at most one product"""
        ch = self.ch
        e = []
        q = False
        for _ in range(ch.int(1, 3)):
            c = ch.pick(self.parrefs(t)) if t.params and ch.chance(20) else ch.int(1, 9)
            d = ch.pick([0, 1, 1, 1, 2])
            if d == 2:
                if q:
                    d = 1
                q = True
            e.append((c, [ch.pick(avail) for _ in range(d)]))
        return e

    # ------------------------------------------------------------------ text
    def text(self, plant=None, files=None):
        ch = self.ch
        s = "pragma circom 2.1.6;\npragma custom_templates;\n"
        parts = []
        for b, m in self.buses:
            parts.append("bus %s() { signal f; signal g[%d]; }\n" % (b, m))
        for t in self.ts:
            x = "template %s%s%s(%s) {\n" % ("custom " if t.custom else "", t.prefix, t.name, ", ".join(n for n, _ in t.params))
            for k, n, ps, src in t.decls:
                x += "  " + src + "\n"
            if t.custom:
                for p, e in t.assign:
                    x += "  %s <-- %s;\n" % (p, show(e))
                if plant and plant[0] is t:
                    x += "  " + plant[1] + "\n"
            else:
                for c, dims in t.comps:
                    x += "  component %s%s;\n" % (c, "".join("[%d]" % d for d in dims))
                for st in t.steps:
                    if st[0] == "comp":
                        x += "  %s = %s(%s);\n" % (st[1], st[2].name, ", ".join(self.argtext(a) for a in st[3]))
                    else:
                        x += "  %s %s %s;\n" % (st[1], "<==" if st[3] else "<--", show(st[2]))
            parts.append(x + "}\n")
        ch.shuffle(parts)
        if files:
            # the custom templates in the main file, the rest and main in a file that it includes
            a = [x for x in parts if x.startswith("template custom")]
            b = [x for x in parts if x not in a]
            i = 'include "m.circom";\n'
            return {"c.circom": s + i + "".join(a), "m.circom": s.replace("pragma custom_templates;\n", files) + "".join(b)}
        return s + "".join(parts)

    def argtext(self, a):
        if isinstance(a, list):
            return "[" + ", ".join(self.argtext(x) for x in a) + "]"
        if isinstance(a, tuple):
            return a[0] + (" + %d" % a[1] if a[1] else "")
        return str(a)

    # ----------------------------------------------------------------- model
    def run(self, t, path, args, ins, M):
        """args: values of the parameters in order; ins: values of the input positions"""
        p = M.p
        par = {}
        for (n, l), a in zip(t.params, args):
            for i, v in zip(idx([l]) if l else [""], a if l else [a]):
                par[n + i] = v
        env = dict(zip(t.of("input"), ins))
        names = {}
        for q in t.of("input", "output", "mid"):
            names[q] = path + "." + q
        if t.custom:
            for q, e in t.assign:
                env[q] = ev(e, env, par, p)
            flat = [v for n, v in par.items()]
            M.apps.append((path, t, tuple(par[k] for k in par), tuple(v for n, l in sorted(t.params) for v in ([par[n + i] for i in idx([l])] if l else [par[n]])),
                           [path + "." + x for _, _, ps, _ in t.decls for x in ps]))
        else:
            pend = {}
            for st in t.steps:
                if st[0] == "comp":
                    a = [self.argval(x, par) for x in st[3]]
                    pend[st[1]] = (st[2], a, {})
                    if not st[2].of("input"):
                        raise AssertionError
                    continue
                _, q, e, cons = st
                v = ev(e, env, par, p)
                cname = q.split(".")[0] if "." in q else None
                if cname is None:
                    env[q] = v
                else:
                    names[q] = path + "." + q
                    pend[cname][2][q[len(cname) + 1:]] = v
                if cons:
                    f = poly(e, names, par, p)
                    k = (names[q],)
                    f[k] = (f.get(k, 0) - 1) % p
                    M.polys.append({m: c for m, c in f.items() if c})
                if cname and len(pend[cname][2]) == len(pend[cname][0].of("input")):
                    callee, a, got = pend[cname]
                    out = self.run(callee, path + "." + cname, a, [got[x] for x in callee.of("input")], M)
                    for x, v in out.items():
                        env[cname + "." + x] = v
                        names[cname + "." + x] = path + "." + cname + "." + x
        for q in t.of("input", "output", "mid"):
            M.values[path + "." + q] = env[q]
        return {q: env[q] for q in t.of("output")}

    def argval(self, a, par):
        if isinstance(a, list):
            return [self.argval(x, par) for x in a]
        if isinstance(a, tuple):
            return par[a[0]] + a[1]
        return a


class Model:
    def __init__(self, p):
        self.p = p
        self.polys = []
        self.apps = []
        self.values = {}


ERRORS = [("signal zz; zz <== 2;", "a constraint"), ("{X} === {X};", "an equality"), ("if ({K} > 0) {{ {X} === 1; }}", "an equality in a branch"),
          ("for (var zi = 0; zi < 0; zi++) {{ {X} === 1; }}", "an equality in a loop"), ("component zc;", "a component"), ("component zc = {T};", "a component"),
          ("component zc[2];", "components"), ("signal zz; 5 ==> zz;", "a constraint"), ("_ <== {X};", "a constraint"), ("{{ {{ {X} + 1 === {X} * 2; }} }}", "an equality in blocks"),
          ("signal zz <== {X};", "a constraint"), ("signal za; signal zb; (za, zb) <== (1, 2);", "constraints of a tuple")]


class CHECK(Check):
    id = "C20"
    rule = ("random trees of components of templates and custom templates (parameters, arrays, buses, intermediate signals, declarations in any order, arrays of "
            "components with different parameters), any level and prime: custom templates must contribute no constraints, the R1CS file must list each custom "
            "template with its parameters, and each of its components with the wires of its signals in order of declaration, none of which may be eliminated; "
            "the constraints at O0 are those stated, those of other levels have the same solutions; WASM and C++ compute the assigned values; a constraint or a "
            "component in a custom template is an error; non-trivial: at least 2 components of custom templates, or an error")
    assumptions = ["the parameters are listed in the order of declaration or in the alphabetical order of their names (the present behaviour; the format does not say)",
                   "wires of a custom template are listed in the order of declaration (the present behaviour)"]
    cases = {"quick": 4000, "thorough": 100000}

    def case(self, ctx, ch, idx_):
        prime = pick_prime(ch, 60)
        p = PRIMES[prime]
        g = Gen(ch)
        opt = pick_opt(ch)
        if ch.chance(12):
            return self.error(ctx, ch, g, prime)
        t = g.ts[-1] if ch.chance(92) else ch.pick(g.ts)
        args = [[ch.int(0, 3) for _ in range(l)] if l else ch.int(0, 3) for _, l in t.params]
        pub = ""
        if ch.chance(40):
            pub = " {public [%s]}" % ch.pick([n for k, n, ps, s in t.decls if k == "input"])
        files = ch.pick(["\n", "pragma custom_templates;\n"]) if ch.chance(20) else None
        src = g.text(files=files)
        m = "component main%s = %s(%s);\n" % (pub, t.name, ", ".join(g.argtext(a) for a in args))
        if files:
            src["m.circom"] += m
        else:
            src += m
        text = src if isinstance(src, str) else "".join("==> %s\n%s" % x for x in src.items())
        cpp = ch.chance(4)
        flags = ["--r1cs", "--sym", "--wasm"] + (["--c"] if cpp else [])
        M = Model(p)
        ins = [ch.big(p) for _ in t.of("input")]
        g.run(t, "main", args, ins, M)
        inp = self.inputs(t, ins)
        fl = {"source": text, "prime": prime, "options": " ".join(opt), "input": run.input_json(inp)}

        def fail(sig, msg):
            raise Fail(sig, msg, **fl)
        if len(M.values) > 4000:
            raise Discard("too large")
        with run.Scratch() as d:
            k = ctx.R.compile(d, src, flags=flags, prime=prime, opt=opt)
            if not k.res.ok:
                fail("panic" if k.res.panicked else "rejected", "not compiled: " + ANSI.sub("", k.res.text)[-500:])
            r, sym = k.r1cs(), k.sym()
            wire = {s.name: s.wire for s in sym}
            if set(wire) != set(M.values):
                fail("signals", "the .sym file names %s" % sorted(set(wire) ^ set(M.values))[:4])
            # uses
            if 4 not in [x for x in r.sections] or 5 not in [x for x in r.sections]:
                fail("sections", "the R1CS file has only the sections %s" % (list(r.sections),))
            used = [(n, tuple(ps)) for n, ps in r.gates_used]
            for order in (2, 3):
                want = collections.Counter()
                for a in M.apps:
                    wires = [wire[x] for x in a[4]]
                    want[(a[1].name, a[order], tuple(wires))] += 1
                got = collections.Counter()
                for i, ws in r.gates_app:
                    if i >= len(used):
                        fail("index", "an application refers to custom template %d of %d" % (i, len(used)))
                    got[used[i] + (tuple(ws),)] += 1
                if want == got and set(used) == set((a[1].name, a[order]) for a in M.apps):
                    break
            else:
                fail("gates", "expected uses not in the file: %s; in the file: %s" % (list((want - got).items())[:3], list((got - want).items())[:3] or r.gates_used))
            for a in M.apps:
                for x in a[4]:
                    if wire[x] < 0:
                        fail("eliminated", "%s belongs to a custom template and is not in the witness" % x)
            # constraints
            if opt == ["--O0"]:
                name = {s.wire: s.name for s in sym}
                n2 = [None] + [name[w] for w in range(1, len(name) + 1)]
                got = collections.Counter(x for x in (interp.canon(interp.poly([{n2[w]: v for w, v in lc.items()} for lc in c], p), p) for c in r.cons) if x is not None)
                want = collections.Counter(x for x in (interp.canon(f, p) for f in M.polys) if x is not None)
                if got != want:
                    fail("constraints", "missing %s, extra %s" % (list((want - got))[:2], list((got - want))[:2]))
            else:
                k0 = ctx.R.compile(d, src, flags=["--r1cs", "--sym"], prime=prime, opt=["--O0"], out=d + "/o0")
                k1 = ctx.R.compile(d, src, flags=["--simplification_substitution"], prime=prime, opt=opt, out=d + "/o1")
                if not k0.res.ok or not k1.res.ok:
                    fail("rejected", "not compiled with other output options")
                r0 = k0.r1cs()
                sub = k1.subs()
                P = [poly_of(c, r0.map, p) for c in r0.cons]
                Q = [poly_of(c, r.map, p) for c in r.cons]
                lab = {s.label: s.name for s in sym}
                kept = set(x for a in M.apps for x in a[4])
                for a, lc in sub.items():
                    if lab[int(a)] in kept:
                        fail("substituted", "%s belongs to a custom template and is substituted" % lab[int(a)])
                    f = {(int(a),): p - 1}
                    for b, v in lc.items():
                        key = (int(b),) if int(b) else ()
                        f[key] = (f.get(key, 0) + int(v)) % p
                    Q.append({m: v for m, v in f.items() if v})
                bad = same(closure(P, p), closure(Q, p))
                if bad:
                    fail("solutions", "O0 (first) and %s (second): %s" % (" ".join(opt), bad))
            # values
            res = ctx.R.wasm(k, [inp])[0]
            if "error" in res:
                fail("witness", str(res["error"])[:300])
            q, n8, w = fmt.read_wtns(res["wtns"])
            for x, v in M.values.items():
                if wire[x] >= 0 and w[wire[x]] != v:
                    fail("value", "%s = %d, expected %d" % (x, w[wire[x]], v))
            if cpp:
                exe, err = ctx.R.build_cpp(k)
                if exe is None:
                    fail("C++ build", err)
                rc = ctx.R.cpp(k, exe, [inp])[0]
                if rc.get("wtns") != res["wtns"]:
                    fail("C++ witness", "the C++ calculator gives another witness: " + str(rc.get("error"))[:200])
        na = len(M.apps)
        return Result(na >= 2, text + repr(opt) + prime, ["prime " + prime, "opt " + " ".join(opt[:1]), "components %d" % min(na, 8), "kinds %d" % min(len(used), 6)] +
                      (["buses"] if g.buses else []) + (["main in another file"] if files else []) + (["main custom"] if t.custom else []) + (["cpp"] if cpp else []), {"source": text[:1500], "opt": opt, "custom components": na})

    def inputs(self, t, ins):
        it = iter(ins)
        out = {}
        for k, n, ps, s in t.decls:
            if k != "input":
                continue
            root = {}
            for q in ps:
                toks = interp_path(q[len(n):])
                v = next(it)
                cur, key = out, n
                for tk in toks:
                    if key not in cur:
                        cur[key] = {}
                    cur, key = cur[key], tk
                cur[key] = v
        return {k: arr(v) for k, v in out.items()}

    def error(self, ctx, ch, g, prime):
        reach, todo = [], [g.ts[-1]]
        while todo:
            t = todo.pop()
            if t not in reach:
                reach.append(t)
                todo += [] if t.custom else [st[2] for st in t.steps if st[0] == "comp"]
        # (definitions that are not reached are not analysed)
        reach = [t for t in reach if t.custom]
        if not reach:
            raise Discard("no custom template is reached")
        t = ch.pick(reach)
        code, what = ch.pick(ERRORS)
        other = ch.pick([x for x in g.ts if x.name != t.name] or [t])
        code = code.format(X=ch.pick(t.of("input")), K=ch.pick(g.parrefs(t) or ["1"]), T="%s(%s)" % (other.name, ", ".join("[%s]" % ",".join("1" * l) if l else "1" for _, l in other.params)))
        m = g.ts[-1]
        args = ["[%s]" % ",".join("1" * l) if l else "1" for _, l in m.params]
        src = g.text((t, code)) + "component main = %s(%s);\n" % (m.name, ", ".join(args))
        with run.Scratch() as d:
            k = ctx.R.compile(d, src, flags=["--r1cs", "--sym", "--wasm"], prime=prime)
            if k.res.panicked:
                raise Fail("panic", k.res.err[-300:], source=src)
            if k.res.ok:
                raise Fail("accepted", "%s in the custom template %s is accepted: %s" % (what, t.name, code), source=src)
            if "error" not in k.res.text:
                raise Fail("message", "rejected without error", source=src)
        return Result(True, src, ["error " + what], {"source": src[:800], "error": what})


def interp_path(s):
    import re
    return [int(a) if a else b for a, b in re.findall(r"\[(\d+)\]|\.(\w+)", s)]


def arr(v):
    if isinstance(v, dict):
        if v and all(isinstance(k, int) for k in v):
            return [arr(v[k]) for k in sorted(v)]
        return {k: arr(x) for k, x in v.items()}
    return v
