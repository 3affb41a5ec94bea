"""Random generator of valid circom programs (typed, knownness-aware), by construction."""
from .lang import *
from .choice import Ch
from .field import field, BINOPS
from .interp import Interp, main_shape, BusNode

N = Num


def V(name, *acc):
    return Var(name, list(acc))


def es(e):
    return Printer().e(e)


def fold(e):
    """Simplify small known dimension expressions."""
    if type(e) is Bin and type(e.a) is Num and type(e.b) is Num and e.op == "+":
        return Num(e.a.v + e.b.v)
    if type(e) is Bin and e.op == "+" and type(e.b) is Num and type(e.a) is Bin and e.a.op == "+" and type(e.a.b) is Num:
        return Bin("+", e.a.a, Num(e.a.b.v + e.b.v))
    return e


def subst(e, m):
    t = type(e)
    if t is Var and not e.acc and e.name in m:
        return m[e.name]
    if t is Bin:
        return fold(Bin(e.op, subst(e.a, m), subst(e.b, m)))
    return e


class Port:
    __slots__ = ("name", "dims", "bus", "kind")

    def __init__(self, name, dims, bus, kind):
        self.name, self.dims, self.bus, self.kind = name, dims, bus, kind


class TSig:
    """what a caller needs to know of a template"""

    def __init__(self, name, params, ports, cost):
        self.name = name
        self.params = params     # list of (name, kind) kind: small | any
        self.ports = ports
        self.cost = cost

    def ins(self):
        return [p for p in self.ports if p.kind == "input"]

    def outs(self):
        return [p for p in self.ports if p.kind == "output"]


class FSig:
    def __init__(self, name, params, ret, lin):
        self.name, self.params, self.ret, self.lin = name, params, ret, lin
        # params: list of kinds 'any' | 'small' | [dims]


class BSig:
    def __init__(self, name, params, fields):
        self.name, self.params, self.fields = name, params, fields   # fields: (name, dims, (bus, args)|None)


class VarInfo:
    __slots__ = ("name", "dims", "k")

    def __init__(self, name, dims, k):
        self.name, self.dims, self.k = name, dims, k


class Scope:
    def __init__(self, parent=None):
        if parent is None:
            self.smalls, self.loops, self.sigs, self.vars = [], [], [], []
            self.kany = []
            self.unk = False
            self.infunc = False
            self.depth = 0
            self.uloops = []
            self.bobjs = []
            self.aobjs = []
        else:
            self.bobjs = parent.bobjs
            self.aobjs = parent.aobjs
            self.smalls = list(parent.smalls)
            self.loops = list(parent.loops)
            self.sigs = parent.sigs          # shared: assignments of signals are global facts
            self.vars = list(parent.vars)
            self.kany = list(parent.kany)
            self.unk = parent.unk
            self.infunc = parent.infunc
            self.depth = parent.depth + 1
            self.uloops = list(parent.uloops)


DEFAULT = dict(buses=True, funcs=True, anon=True, comps=True, logs=True, asserts=True, mayfail=10,
               unknown=True, hints=True, parallel=True, gadgets=True, tmpl=(1, 4), steps=(2, 7),
               bigk=True, linear_heavy=False, compile_ops=True, runtime_ops=True, maxin=3, tuples=True,
               mixed=True, arrays=True, custom=False)


def es_all(d):
    return [es(x) for x in d]


class Gen:
    def __init__(self, ch, prime="bn128", **cfg):
        self.nidx = 0
        self.ch = ch
        self.F = field(prime)
        self.prime = prime
        self.cfg = dict(DEFAULT)
        self.cfg.update(cfg)
        self.n = 0
        self.defs = []
        self.funcs = []
        self.tmpls = []
        self.buses = []
        self.feat = {}
        self.mayfail = False

    def f(self, name):
        self.feat[name] = self.feat.get(name, 0) + 1

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    # ------------------------------------------------------------------ expressions
    def const(self):
        ch = self.ch
        if ch.chance(70) or not self.cfg["bigk"]:
            return Num(ch.int(0, 9))
        v = ch.big(self.F.p)
        if ch.chance(6):
            v += self.F.p            # literals may exceed the prime
            self.f("lit>=p")
        return Num(v, ch.chance(15))

    def nzconst(self):
        if self.cfg["bigk"] and self.ch.chance(25):
            v = self.ch.big(self.F.p)
            if v:
                return Num(v)
        return Num(self.ch.int(1, 9))

    def small(self, sc):
        ch = self.ch
        c = list(sc.smalls) + [l[0] for l in sc.loops]
        if c and ch.chance(70):
            return V(ch.pick(c))
        return Num(ch.int(0, 4))

    def index(self, sc, dim, unk):
        """index expression for a dimension; unk: signal dependent indexes allowed"""
        ch = self.ch
        cands = []
        ds = es(dim)
        for n, d in sc.loops:
            if es(d) == ds:
                cands += [V(n)] * 3
            elif type(dim) is Bin and es(dim.a) == es(d):
                cands.append(V(n))
                cands.append(Bin("+", V(n), Num(1)) if type(dim.b) is Num and dim.b.v >= 1 else V(n))
            elif type(d) is Num and type(dim) is Num and d.v <= dim.v:
                cands.append(V(n))
        if type(dim) is Num:
            cands.append(Num(ch.int(0, dim.v - 1)))
        else:
            cands.append(Num(0))
            cands.append(Bin("-", dim, Num(1)))
            if type(dim) is Bin and dim.op == "+":
                cands.append(dim.a)
        if sc.loops and ch.chance(10):
            return Bin("%", Bin("+", V(ch.pick(sc.loops)[0]), Num(ch.int(0, 3))), dim)
        if unk and self.nidx < 2 and ch.chance(15):
            self.f("unknown_index")
            self.nidx += 1
            e = Bin("%", self.uexp(sc, 1), dim)
            self.nidx -= 1
            return e
        return ch.pick(cands)

    def read(self, sc, atom, unk=False):
        name, steps = atom
        acc = []
        for k, x in steps:
            if k == "f":
                acc.append((k, x))
            else:
                comp = False
                acc.append(("i", self.index(sc, x, unk and not self.is_comp(name))))
        return Var(name, acc)

    def is_comp(self, name):
        return name[0] == "c"

    def readable_vars(self, sc, ks):
        return [v for v in sc.vars if v.k in ks]

    def var_read(self, sc, v, unk=False):
        return Var(v.name, [("i", self.index(sc, d, unk)) for d in v.dims])

    def kexp(self, sc, d, top=False):
        ch = self.ch
        kv = self.readable_vars(sc, "K") if not sc.unk else []
        opts = [(4, "const"), (3, "small")]
        if kv:
            opts.append((5, "var"))
        if sc.kany:
            opts.append((3, "kany"))
        if d > 0:
            opts += [(6, "bin"), (2, "un")]
            opts.append((2 if top else 1, "tern"))
            if self.cfg["funcs"] and [f for f in self.funcs if f.ret == []]:
                opts.append((2, "call"))
        o = ch.weighted(opts)
        if o == "const":
            return self.const()
        if o == "small":
            return self.small(sc)
        if o == "var":
            return self.var_read(sc, ch.pick(kv))
        if o == "kany":
            return V(ch.pick(sc.kany))
        if o == "bin":
            return self.anybin(sc, d, self.kexp)
        if o == "un":
            return Un(ch.pick(["-", "~", "!"]), self.kexp(sc, d - 1))
        if o == "tern":
            self.f("ternary_known")
            return Tern(self.kexp(sc, d - 1), self.kexp(sc, d - 1), self.kexp(sc, d - 1))
        r = self.callf(sc, d, "K", [])
        return r if r is not None else self.const()

    def anybin(self, sc, d, sub):
        """binary operator applied so that it is defined for all values"""
        ch = self.ch
        if not self.cfg["runtime_ops"]:
            op = ch.pick(["+", "-", "*"])
        else:
            op = ch.pick(["+", "-", "*", "==", "<", "&", "%", "<<", ">>", "/", "\\", "**", "|", "^", "&&", "||",
                          "!=", ">", "<=", ">="])
        a = sub(sc, d - 1)
        if op in ("/", "\\", "%"):
            b = self.nzconst() if ch.chance(60) else Bin("+", Bin("%", sub(sc, d - 1), Num(ch.int(2, 40))), Num(1))
        elif op in ("<<", ">>"):
            k = ch.draw(8)
            if k <= 4:
                b = Num(ch.int(0, 12))
            elif k == 5:
                b = Num(ch.int(0, self.F.bits + 8))
            elif k == 6:
                b = Num(self.F.p - ch.int(1, self.F.bits + 4))
            else:
                b = Bin("%", sub(sc, d - 1), Num(ch.int(2, 300)))
        elif op == "**":
            b = Num(ch.int(0, 5)) if ch.chance(70) else sub(sc, d - 1)
        else:
            b = sub(sc, d - 1)
        return Bin(op, a, b)

    def atoms(self, sc):
        return sc.sigs

    def lin(self, sc, d):
        ch = self.ch
        lv = self.readable_vars(sc, "L") if not sc.unk else []
        opts = [(3, "k")]
        if sc.sigs:
            opts.append((9, "sig"))
        if lv:
            opts.append((4, "lv"))
        if d > 0:
            opts += [(4, "add"), (3, "sub"), (3, "kmul"), (1, "neg"), (1, "div"), (1, "paren")]
            if self.cfg["funcs"] and [f for f in self.funcs if f.lin and f.ret == []]:
                opts.append((2, "call"))
        o = ch.weighted(opts)
        if o == "k":
            return self.kexp(sc, min(d, 1) if self.cfg["compile_ops"] else 0)
        if o == "sig":
            return self.read(sc, ch.pick(sc.sigs))
        if o == "lv":
            return self.var_read(sc, ch.pick(lv))
        if o == "add":
            return Bin("+", self.lin(sc, d - 1), self.lin(sc, d - 1))
        if o == "sub":
            return Bin("-", self.lin(sc, d - 1), self.lin(sc, d - 1))
        if o == "kmul":
            k = self.kexp(sc, 0)
            l = self.lin(sc, d - 1)
            return Bin("*", k, l) if ch.chance(50) else Bin("*", l, k)
        if o == "neg":
            return Un("-", self.lin(sc, d - 1))
        if o == "div":
            return Bin("/", self.lin(sc, d - 1), self.nzconst())
        if o == "paren":
            return Paren(self.lin(sc, d - 1))
        r = self.callf(sc, d, "L", [])
        return r if r is not None else self.const()

    def quad(self, sc, d=2, top=False):
        ch = self.ch
        if self.cfg["linear_heavy"] and ch.chance(70):
            return self.lin(sc, d)
        o = ch.weighted([(4, "lin"), (5, "mul"), (3, "muladd"), (1, "sq"), (1, "kmul"), (1, "neg"), (1, "submul"),
                         (1 if top else 0, "tern"), (1, "mulsub"), (4 if d > 0 else 0, "wrap")])
        if o == "lin":
            return self.lin(sc, d)
        m = Bin("*", self.lin(sc, d - 1), self.lin(sc, d - 1))
        if o == "mul":
            return m
        if o == "muladd":
            return Bin("+", m, self.lin(sc, d - 1)) if ch.chance(50) else Bin("+", self.lin(sc, d - 1), m)
        if o == "sq":
            return Bin("**", self.lin(sc, d - 1), Num(2))
        if o == "kmul":
            return Bin("*", self.kexp(sc, 0), m)
        if o == "neg":
            return Un("-", m)
        if o == "wrap":
            return self.qwrap(sc, d, m)
        if o == "submul":
            return Bin("-", self.lin(sc, d - 1), m)
        if o == "mulsub":
            return Bin("-", m, self.lin(sc, d - 1))
        self.f("ternary_known")
        return Tern(self.kexp(sc, 1), self.quad(sc, d), self.quad(sc, d))

    def qwrap(self, sc, d, m):
        """operations that keep a quadratic expression quadratic, several in a row"""
        ch = self.ch
        self.f("quad_wrapped")
        for _ in range(1 + ch.draw(3)):
            o = ch.weighted([(3, "div"), (3, "kmul"), (2, "neg"), (3, "add"), (3, "sub"), (1, "paren")])
            if o == "div":
                m = Bin("/", m, self.nzconst())
            elif o == "kmul":
                k = self.kexp(sc, 0)
                m = Bin("*", k, m) if ch.chance(50) else Bin("*", m, k)
            elif o == "neg":
                m = Un("-", m)
            elif o in ("add", "sub"):
                l = self.lin(sc, d - 1)
                p = ("+", "-")[o == "sub"]
                m = Bin(p, m, l) if ch.chance(50) else Bin(p, l, m)
            else:
                m = Paren(m)
        return m

    def uexp(self, sc, d, top=False):
        ch = self.ch
        uv = sc.vars if not sc.unk else sc.vars
        opts = [(3, "k")]
        if sc.sigs:
            opts.append((6, "sig"))
        if uv:
            opts.append((5, "var"))
        if sc.uloops:
            opts.append((3, "uloop"))
        if d > 0:
            opts += [(8, "bin"), (2, "un")]
            opts.append((3 if top else 1, "tern"))
            if self.cfg["funcs"] and [f for f in self.funcs if f.ret == []]:
                opts.append((3, "call"))
        o = ch.weighted(opts)
        if o == "k":
            return self.const() if ch.chance(50) else self.small(sc)
        if o == "sig":
            return self.read(sc, ch.pick(sc.sigs), True)
        if o == "var":
            return self.var_read(sc, ch.pick(uv), True)
        if o == "uloop":
            return V(ch.pick(sc.uloops))
        if o == "bin":
            return self.anybin(sc, d, self.uexp)
        if o == "un":
            return Un(ch.pick(["-", "~", "!"]), self.uexp(sc, d - 1))
        if o == "tern":
            self.f("ternary_unknown")
            return Tern(self.uexp(sc, d - 1), self.uexp(sc, d - 1), self.uexp(sc, d - 1))
        r = self.callf(sc, d, "U", [])
        return r if r is not None else self.const()

    def expr(self, sc, k, d, top=False):
        if k == "K":
            return self.kexp(sc, d, top)
        if k == "L":
            return self.lin(sc, d)
        return self.uexp(sc, d, top)

    def callf(self, sc, d, k, ret):
        ch = self.ch
        fs = [f for f in self.funcs if f.ret == ret and (k != "L" or f.lin)]
        if not fs:
            return None
        f = ch.pick(fs)
        args = []
        for p in f.params:
            if p == "poly":
                args += self.poly_arg(sc, k, d)
            elif p == "polyn":
                pass
            elif p == "any":
                args.append(self.expr(sc, k, d - 1))
            elif p == "small":
                c = [n for n in sc.smalls] + [l[0] for l in sc.loops]
                args.append(V(ch.pick(c)) if c and ch.chance(50) and not sc.unk else Num(ch.int(0, 4)))
            else:
                a = self.arr_arg(sc, p, k, d)
                args.append(a)
        self.f("call_" + k)
        return Call(f.name, args)

    def poly_arg(self, sc, k, d):
        """an array of any length, and its length"""
        ch = self.ch
        self.f("poly_function")
        c = []
        for v in sc.vars:
            if len(v.dims) == 1 and (k == "U" or v.k == k or (k == "L" and v.k == "K")) and not (sc.unk and k != "U"):
                c.append((V(v.name), v.dims[0]))
        if k in "LU":
            for name, dims in sc.aobjs:
                if len(dims) == 1:
                    c.append((V(name), dims[0]))
        if c and ch.chance(70):
            a, n = ch.pick(c)
            return [a, n]
        n = ch.int(1, 5)
        return [self.literal(sc, [n], k, d), Num(n)]

    def arr_arg(self, sc, dims, k, d):
        ch = self.ch
        want = [es(x) for x in dims]
        c = []
        for v in sc.vars:
            if [es(x) for x in v.dims] == want and (k == "U" or v.k == k or (k == "L" and v.k == "K")) \
                    and not (sc.unk and k != "U"):
                c.append(V(v.name))
        if k in "LU":
            for name, steps in sc.sigs:
                r = self.whole(sc, (name, steps), want)
                if r is not None:
                    c.append(r)
        if c and ch.chance(75):
            return ch.pick(c)
        return self.literal(sc, [x.v for x in dims], k, d)

    def literal(self, sc, dims, k, d):
        if not dims:
            return self.expr(sc, k, max(d - 1, 0))
        return Arr([self.literal(sc, dims[1:], k, d) for _ in range(dims[0])])

    def whole(self, sc, atom, want):
        """access expression reading a whole sub-array of the atom with the wanted dims, or None"""
        name, steps = atom
        tail = []
        i = len(steps)
        while i > 0 and steps[i - 1][0] == "i" and len(tail) < len(want):
            tail.insert(0, steps[i - 1][1])
            i -= 1
        if [es(x) for x in tail] != want:
            return None
        return self.read(sc, (name, steps[:i]))

    # ------------------------------------------------------------------ variable statements
    def vstmts(self, sc, n, out, inloop=0):
        for _ in range(n):
            self.vstmt(sc, out, inloop)

    def targets(self, sc):
        return [v for v in sc.vars if v.k == "U" or not sc.unk]

    def vstmt(self, sc, out, inloop):
        ch = self.ch
        tg = self.targets(sc)
        opts = [(6 if not tg else 4, "decl")]
        if tg:
            opts += [(5, "assign"), (3, "opassign"), (1, "inc")]
        if sc.depth < 4:
            if not sc.unk:
                opts += [(2, "for"), (2, "ifk"), (1, "block"), (1, "whilek")]
            if self.cfg["unknown"]:
                opts += [(3, "ifu"), (1, "whileu")]
        if self.cfg["logs"] and (not sc.infunc or ch.chance(20)):
            opts.append((1, "log"))
        if self.cfg["asserts"]:
            opts.append((1, "assert"))
        if self.cfg["mayfail"] >= 50 and (sc.unk or sc.infunc or sc.sigs):
            opts.append((2, "rassert"))
        o = ch.weighted(opts)
        if o == "decl":
            self.decl_var(sc, out)
        elif o == "assign":
            v = ch.pick(tg)
            self.assign_var(sc, v, out)
        elif o == "opassign":
            v = ch.pick(tg)
            lhs = Var(v.name, [("i", self.index(sc, d, v.k == "U")) for d in v.dims])
            if v.k == "L":
                op = ch.pick(["+=", "-=", "*="])
                rhs = self.kexp(sc, 0) if op == "*=" else self.lin(sc, 1)
            else:
                op = ch.pick(["+=", "-=", "*=", "/=", "\\=", "%=", "**=", "<<=", ">>=", "&=", "|=", "^="])
                if not self.cfg["runtime_ops"]:
                    op = ch.pick(["+=", "-=", "*="])
                if op in ("/=", "\\=", "%="):
                    rhs = self.nzconst()
                elif op in ("<<=", ">>=", "**="):
                    rhs = Num(ch.int(0, 6))
                else:
                    rhs = self.expr(sc, v.k, 1)
            out.append(Assign(lhs, op, rhs))
        elif o == "inc":
            v = ch.pick(tg)
            lhs = Var(v.name, [("i", self.index(sc, d, False)) for d in v.dims])
            out.append(Inc(lhs, ch.pick(["++", "--"])))
        elif o == "for":
            self.for_known(sc, out, inloop, lambda s, b: self.vstmts(s, ch.int(1, 2), b, inloop + 1))
        elif o == "whilek":
            if inloop < 2:
                i = self.fresh("w")
                b = []
                s2 = Scope(sc)
                s2.loops.append((i, Num(3)))
                self.vstmts(s2, ch.int(1, 2), b, inloop + 1)
                b.append(Inc(V(i), "++"))
                out.append(VarDecl([(i, [], Num(0))]))
                out.append(While(self.loop_cond(sc, Bin("<", V(i), Num(3)), False), Block(b)))
        elif o == "ifk":
            self.f("if_known")
            a, b = [], []
            s2 = Scope(sc)
            self.vstmts(s2, ch.int(1, 2), a, inloop)
            c = self.kexp(sc, 2)
            if ch.chance(50):
                s2 = Scope(sc)
                self.vstmts(s2, ch.int(1, 2), b, inloop)
                out.append(If(c, Block(a), Block(b)))
            else:
                out.append(If(c, self.maybe_block(a), None))
        elif o == "block":
            b = []
            self.vstmts(Scope(sc), ch.int(1, 2), b, inloop)
            out.append(Block(b))
        elif o == "ifu":
            self.f("if_unknown")
            c = self.uexp(sc, 2)
            s2 = Scope(sc)
            s2.unk = True
            a, b = [], []
            self.vstmts(s2, ch.int(1, 2), a, inloop)
            if ch.chance(50):
                s2 = Scope(sc)
                s2.unk = True
                self.vstmts(s2, ch.int(1, 2), b, inloop)
                e = Block(b)
                if ch.chance(20):
                    s2 = Scope(sc)
                    s2.unk = True
                    b2 = []
                    self.vstmts(s2, 1, b2, inloop)
                    e = If(self.uexp(sc, 1), Block(b2), e)
                out.append(If(c, Block(a), e))
            else:
                out.append(If(c, self.maybe_block(a), None))
        elif o == "whileu":
            if inloop < 1:
                self.f("while_unknown")
                i = self.fresh("w")
                s2 = Scope(sc)
                s2.unk = True
                s2.uloops.append(i)
                sl = Scope(s2)
                b = []
                self.vstmts(s2, ch.int(1, 2), b, inloop + 1)
                lim = Bin("%", self.uexp(sc, 1), Num(ch.int(2, 5)))
                if ch.chance(50):
                    lv = self.fresh("v")
                    out.append(VarDecl([(lv, [], lim)]))
                    c = self.loop_cond(sl, Bin("<", V(i), V(lv)), True)
                    out.append(For(VarDecl([(i, [], Num(0))]), c, Inc(V(i), "++"), Block(b)))
                    self.addvar(sc, lv, [], "R")
                else:
                    lv = self.fresh("v")
                    out.append(VarDecl([(lv, [], lim), (i, [], Num(0))]))
                    c = self.loop_cond(sl, Bin(ch.pick(["<", "!="]), V(i), V(lv)), True)
                    out.append(While(c, Block(b + [Inc(V(i), "++")])))
        elif o == "log":
            out.append(self.log(sc))
        elif o == "assert":
            out.append(self.true_assert(sc))
        elif o == "rassert":
            self.mayfail = True
            out.append(self.risky_assert(sc))

    def loop_cond(self, sc, c, unk):
        """the bounded condition c, sometimes strengthened with an expression that is evaluated in each iteration"""
        ch = self.ch
        if not ch.chance(25):
            return c
        self.f("loop_cond")
        e = self.uexp(sc, 2, True) if unk else self.kexp(sc, 2, True)
        k = ch.draw(3)
        if k == 0:
            return Bin("&&", c, e)
        if k == 1:
            return Bin("&&", Bin("||", e, Num(1)), c)
        return Tern(e, c, Num(0)) if ch.chance(50) else Tern(c, e, Num(0))

    def maybe_block(self, a):
        if len(a) == 1 and type(a[0]) in (Assign, Inc) and self.ch.chance(50):
            return a[0]
        return Block(a)

    def addvar(self, sc, name, dims, k):
        # class R: runtime value that must not be modified (loop limits)
        sc.vars.append(VarInfo(name, dims, "U" if k != "R" else "R"))

    def log(self, sc):
        ch = self.ch
        self.f("log_in_function" if sc.infunc else "log")
        args = []
        for _ in range(ch.int(0, 3)):
            if ch.chance(30):
                args.append(ch.pick(["x", "val:", "a b", "100%", "it's", "", "%d %s", "{}"]))
            else:
                args.append(self.uexp(sc, 1))
        return Log(args)

    def true_assert(self, sc):
        ch = self.ch
        self.f("assert")
        k = ch.draw(4)
        if k == 0:
            return Assert(Num(1))
        if k == 1 and (sc.smalls or sc.loops):
            v = self.small(sc)
            return Assert(Bin(">=", v, Num(0)))
        e = self.uexp(sc, 1)
        if k == 2:
            return Assert(Bin("==", e, e))
        return Assert(Bin("||", e, Un("!", Paren(e))))

    def dims(self, sc, maxd=2, numonly=False):
        ch = self.ch
        n = ch.weighted([(48, 0), (32, 1), (8, 2), (2, 1), (1, 3), (1, 4)])
        if not self.cfg["arrays"]:
            n = 0
        if n > 2 and maxd > 1:
            self.f("dims>2")
            return [Num(ch.int(1, 2)) for _ in range(n)]
        n = min(n, maxd)
        r = []
        if n == 1 and ch.chance(7):
            self.f("long array")
            return [Num(ch.int(4, 9))]
        for _ in range(n):
            if sc.smalls and not numonly and ch.chance(60):
                e = V(ch.pick(sc.smalls))
                if ch.chance(20):
                    e = Bin("+", e, Num(ch.int(1, 2)))
                r.append(e)
            else:
                r.append(Num(ch.int(1, 3)))
        return r

    def decl_var(self, sc, out):
        ch = self.ch
        if sc.unk:
            k = "U"
        else:
            k = ch.weighted([(3, "K"), (3 if not sc.infunc else 1, "L"), (4, "U")])
        dims = self.dims(sc, numonly=sc.infunc) if not sc.unk else self.dims(sc, numonly=True)
        name = self.fresh("v")
        init = None
        if not dims:
            if ch.chance(80):
                init = self.expr(sc, k, 2, True)
        else:
            init = self.arr_value(sc, dims, k)
        out.append(VarDecl([(name, dims, init)]))
        # locals in unknown blocks / loops keep their class; uninitialised ones are 0
        sc.vars.append(VarInfo(name, dims, k))

    def arr_value(self, sc, dims, k, deep=False):
        """value for a whole array of these dims (or None)"""
        ch = self.ch
        c = []
        want = [es(x) for x in dims]
        for v in sc.vars:
            if [es(x) for x in v.dims] == want and (v.k == k or k == "U" and v.k != "R" or (k == "L" and v.k == "K")) \
                    and not (sc.unk and k != "U"):
                c.append(V(v.name))
        if k in "LU":
            for a in sc.sigs:
                r = self.whole(sc, a, want)
                if r is not None:
                    c.append(r)
        allnum = all(type(x) is Num for x in dims)
        if allnum:
            fs = [f for f in self.funcs if [es(x) for x in f.ret] == want and (k != "L" or f.lin)]
            if fs and ch.chance(40):
                r = self.callf(sc, 2, k, ch.pick(fs).ret)
                if r is not None:
                    self.f("call_array")
                    return r
        o = ch.draw(4)
        if c and o == 3 and allnum and k in "UK" and not deep:
            a = self.arr_value(sc, dims, k, True)
            if a is not None:
                self.f("array_ternary")
                b = ch.pick(c)
                if ch.chance(50):
                    a, b = b, a
                return Tern(self.uexp(sc, 1) if k == "U" else self.kexp(sc, 1), a, b)
        if c and o != 2:
            self.f("array_copy")
            return ch.pick(c)
        if allnum and o == 2:
            return self.literal(sc, [x.v for x in dims], k, 1)
        return None

    def assign_var(self, sc, v, out):
        ch = self.ch
        if v.dims and all(type(x) is Num for x in v.dims) and ch.chance(9):
            # an array of another size: the common positions are assigned
            d2 = [Num(max(1, x.v + ch.int(-1, 2))) for x in v.dims]
            r = self.arr_value(sc, d2, v.k)
            if r is not None:
                self.f("array_sizes" if es_all(d2) != es_all(v.dims) else "array_copy")
                out.append(Assign(V(v.name), "=", r))
                return
        if v.dims and ch.chance(30):
            r = self.arr_value(sc, v.dims, v.k)
            if r is not None:
                out.append(Assign(V(v.name), "=", r))
                return
        if len(v.dims) == 2 and ch.chance(20):
            r = self.arr_value(sc, v.dims[1:], v.k)
            if r is not None:
                out.append(Assign(Var(v.name, [("i", self.index(sc, v.dims[0], False))]), "=", r))
                return
        lhs = Var(v.name, [("i", self.index(sc, d, v.k == "U")) for d in v.dims])
        out.append(Assign(lhs, "=", self.expr(sc, v.k, 2, True)))

    def for_known(self, sc, out, inloop, body, dim=None):
        ch = self.ch
        if inloop >= 2 and dim is None:
            return
        if dim is None:
            dim = V(ch.pick(sc.smalls)) if sc.smalls and ch.chance(60) else Num(ch.int(1, 3))
        i = self.fresh("i")
        s2 = Scope(sc)
        s2.loops.append((i, dim))
        b = []
        body(s2, b)
        if not b:
            return
        bl = b[0] if len(b) == 1 and type(b[0]) in (Assign,) and ch.chance(30) else Block(b)
        o = ch.draw(4)
        if o <= 1:
            out.append(For(VarDecl([(i, [], Num(0))]), Bin("<", V(i), dim), Inc(V(i), "++"), bl))
        elif o == 2:
            out.append(For(VarDecl([(i, [], Bin("-", dim, Num(1)))]), Bin(">=", V(i), Num(0)), Inc(V(i), "--"), bl))
        else:
            out.append(VarDecl([(i, [], Num(0))]))
            out.append(While(Bin("!=", V(i), dim), Block(b + [Assign(V(i), "+=", Num(1))])))

    # ------------------------------------------------------------------ functions
    def gen_func(self):
        ch = self.ch
        name = self.fresh("f")
        sc = Scope()
        sc.infunc = True
        params, kinds = [], []
        lin = ch.chance(35)
        nargs = ch.int(1, 3)
        for _ in range(nargs):
            pn = self.fresh("a")
            k = ch.weighted([(6, "any"), (2, "small"), (3 if self.cfg["arrays"] else 0, "arr"), (2 if self.cfg["arrays"] else 0, "poly")])
            params.append(pn)
            if k == "poly":
                n = self.fresh("a")
                params.append(n)
                kinds += ["poly", "polyn"]
                sc.smalls.append(n)
                sc.vars.append(VarInfo(pn, [V(n)], "L" if lin else "U"))
            elif k == "any":
                kinds.append("any")
                sc.vars.append(VarInfo(pn, [], "L" if lin else "U"))
            elif k == "small":
                kinds.append("small")
                sc.smalls.append(pn)
            else:
                dims = [Num(ch.int(1, 3))]
                if ch.chance(20):
                    dims.append(Num(ch.int(1, 2)))
                kinds.append(dims)
                sc.vars.append(VarInfo(pn, dims, "L" if lin else "U"))
        ret = []
        if self.cfg["arrays"]:
            ret = ch.weighted([(5, []), (2, [1])])
            if ret:
                ret = [Num(ch.int(1, 3))]
        body = []
        saved = self.cfg
        if lin:
            # only linear operations on the arguments
            self.cfg = dict(self.cfg, unknown=False)
            sc2 = Scope(sc)
            acc = self.fresh("v")
            if ret:
                body.append(VarDecl([(acc, ret, None)]))
            else:
                body.append(VarDecl([(acc, [], self.lin(sc, 1))]))
            sc.vars.append(VarInfo(acc, ret, "L"))
            self.lin_stmts(sc, body, ch.int(1, 3))
            body.append(Return(V(acc)))
        else:
            # pure functions: params are not modified except sometimes
            self.vstmts(sc, ch.int(1, 4), body)
            if ch.chance(30) and "small" in kinds and not ret:
                self.f("recursion")
                sm = ch.pick([pn for pn, kd in zip(params, kinds) if kd == "small"])
                args = []
                for pn, kd in zip(params, kinds):
                    if pn == sm:
                        args.append(Bin("-", V(pn), Num(1)))
                    elif kd in ("poly", "polyn"):
                        args.append(V(pn))
                    elif kd == "any":
                        args.append(self.uexp(sc, 1))
                    else:
                        args.append(V(pn))
                # known base case first: the recursion is on a small known value
                body.insert(0, If(Bin("<=", V(sm), Num(0)), Block([Return(self.uexp(self.param_scope(params, kinds), 1))]), None))
                body.append(Return(Bin(ch.pick(["+", "*", "-", "^"]), Call(name, args), self.uexp(sc, 1))))
            else:
                if ch.chance(40):
                    self.f("early_return")
                    c = self.uexp(sc, 1)
                    r = self.ret_val(sc, ret)
                    if ch.chance(40):
                        body.append(If(c, Block([Return(r)]), Block([Return(self.ret_val(sc, ret))])))
                        if ch.chance(50):
                            body.append(Return(self.ret_val(sc, ret)))
                    else:
                        body.append(If(c, Block([Return(r)]), None))
                        body.append(Return(self.ret_val(sc, ret)))
                else:
                    body.append(Return(self.ret_val(sc, ret)))
        self.cfg = saved
        self.defs.append(Func(name, params, body))
        self.funcs.append(FSig(name, kinds, ret, lin))

    def param_scope(self, params, kinds):
        sc = Scope()
        sc.infunc = True
        for p, k in zip(params, kinds):
            if k == "any":
                sc.vars.append(VarInfo(p, [], "U"))
            elif k == "small":
                sc.smalls.append(p)
            elif k == "polyn":
                sc.smalls.append(p)
                sc.vars.append(VarInfo(prev, [V(p)], "U"))
            elif k != "poly":
                sc.vars.append(VarInfo(p, k, "U"))
            prev = p
        return sc

    def ret_val(self, sc, ret):
        if not ret:
            return self.uexp(sc, 2)
        r = self.arr_value(sc, ret, "U")
        if r is None:
            r = self.literal(sc, [x.v for x in ret], "U", 1)
        return r

    def lin_stmts(self, sc, out, n):
        ch = self.ch
        for _ in range(n):
            tg = [v for v in sc.vars if v.k == "L"]
            o = ch.weighted([(3, "acc"), (2, "for"), (1, "ifk"), (1, "decl")])

            def acc(s, b):
                v = ch.pick([v for v in s.vars if v.k == "L"])
                lhs = Var(v.name, [("i", self.index(s, d, False)) for d in v.dims])
                op = ch.pick(["+=", "=", "-="])
                b.append(Assign(lhs, op, self.lin(s, 1)))
            if o == "acc":
                acc(sc, out)
            elif o == "for":
                self.for_known(sc, out, 0, acc)
            elif o == "ifk":
                if sc.smalls:
                    b = []
                    acc(Scope(sc), b)
                    out.append(If(Bin(ch.pick([">", "==", "<"]), V(ch.pick(sc.smalls)), Num(ch.int(0, 3))), Block(b), None))
            else:
                nm = self.fresh("v")
                out.append(VarDecl([(nm, [], self.lin(sc, 1))]))
                sc.vars.append(VarInfo(nm, [], "L"))

    # ------------------------------------------------------------------ buses
    def gen_bus(self):
        ch = self.ch
        name = self.fresh("B")
        params = [self.fresh("n")] if ch.chance(40) else []
        sc = Scope()
        sc.smalls = list(params)
        fields = []
        body = []
        for i in range(ch.int(1, 3)):
            fn = self.fresh("x")
            dims = self.dims(sc, 1)
            nested = [b for b in self.buses]
            if nested and ch.chance(30):
                b = ch.pick(nested)
                args = [self.dim_arg(sc) for _ in b.params]
                body.append(BusDecl(b.name, args if (args or ch.chance(50)) else None, "", [], [(fn, dims, None)], None, False))
                fields.append((fn, dims, (b, args)))
            else:
                body.append(SigDecl("", [], [(fn, dims, None)], None, False))
                fields.append((fn, dims, None))
        self.defs.append(Bus(name, params if (params or ch.chance(50)) else None, body))
        self.buses.append(BSig(name, params, fields))

    def dim_arg(self, sc):
        ch = self.ch
        if sc.smalls and ch.chance(50):
            e = V(ch.pick(sc.smalls))
            return Bin("+", e, Num(1)) if ch.chance(15) else e
        return Num(ch.int(1, 3))

    def leaf_steps(self, dims, bus):
        """list of step lists for the leaves of an object"""
        base = [("i", d) for d in dims]
        if bus is None:
            return [base]
        b, args = bus
        m = dict(zip(b.params, args))
        out = []
        for fn, fd, fb in b.fields:
            fbus = None
            if fb is not None:
                fbus = (fb[0], [subst(a, m) for a in fb[1]])
            for s in self.leaf_steps([subst(d, m) for d in fd], fbus):
                out.append(base + [("f", fn)] + s)
        return out

    # ------------------------------------------------------------------ templates
    def gen_template(self, last=False):
        ch = self.ch
        name = self.fresh("T")
        params = []
        for _ in range(ch.weighted([(30, 0), (50, 1), (20, 2), (3, 4), (2, 5)])):
            k = ch.weighted([(5, "small"), (2, "any")])
            params.append((self.fresh("n" if k == "small" else "q"), k))
        sc = Scope()
        sc.smalls = [p for p, k in params if k == "small"]
        sc.kany = [p for p, k in params if k == "any"]
        header = []
        if sc.smalls and ch.chance(15):
            v = self.fresh("m")
            header.append(VarDecl([(v, [], Bin("+", V(ch.pick(sc.smalls)), Num(1)))]))
            hv = v
        ports = []
        nin = ch.weighted([(1, 0), (4, 1), (5, 2), (3, 3)]) if not last else ch.weighted([(1, 0), (4, 1), (6, 2), (4, 3)])
        nout = ch.weighted([(1, 0), (7, 1), (3, 2)])
        kinds = ch.shuffle(["input"] * nin + ["output"] * nout)
        for kd in kinds:
            dims = self.dims(sc)
            bus = self.pick_bus(sc) if ch.chance(20) else None
            ports.append(Port(self.fresh("s"), dims, bus, kd))
        for p in ports:
            header.append(self.decl_port(p))
        t = TSig(name, params, ports, 1)
        body = []
        self.cost = 1
        for p in ports:
            if p.kind == "input":
                self.add_sigs(sc, p.name, p.dims, p.bus)
        todo = [p for p in ports if p.kind == "output"]
        self.tbody(sc, body, todo)
        t.cost = self.cost
        par = self.cfg["parallel"] and ch.chance(8)
        if par:
            self.f("parallel_template")
        self.defs.append(Template(name, [p for p, _ in params], header + body, False, par, len(header), t))
        self.tmpls.append(t)
        return t

    def pick_bus(self, sc):
        if not self.buses:
            return None
        b = self.ch.pick(self.buses)
        return (b, [self.dim_arg(sc) for _ in b.params])

    def decl_port(self, p, init=None, op=None):
        kf = self.ch.chance(20)
        if p.bus is None:
            return SigDecl(p.kind, [], [(p.name, p.dims, init)], op, kf)
        self.f("bus_signal")
        b, args = p.bus
        return BusDecl(b.name, args if (args or self.ch.chance(50)) else None, p.kind, [], [(p.name, p.dims, init)], op, kf)

    def twin(self, sc, out):
        """a copy of a whole array or bus, and maybe the equality of both"""
        ch = self.ch
        opts = [(2, ("arr", x)) for x in sc.aobjs] + [(4, ("bus", x)) for x in sc.bobjs]
        if not opts:
            return
        k, x = ch.weighted(opts)
        t = self.fresh("s")
        if k == "arr":
            src, dims, bus = V(x[0]), x[1], None
        else:
            src, dims, bus = Var(x[0], list(x[1])), x[2], x[3]
        p = Port(t, list(dims), bus, "")
        op = "<--" if self.cfg["hints"] and ch.chance(40) else "<=="
        self.f("twin_" + k)
        if ch.chance(20) and k == "arr":
            out.append(self.decl_port(p, src, op))
        else:
            out.append(self.decl_port(p))
            out.append(Assign(V(t), op, src, ch.chance(20)))
        if op == "<--" or ch.chance(40):
            out.append(Constr(V(t), src) if ch.chance(50) else Constr(src, V(t)))
        self.add_sigs(sc, t, dims, bus)
        if bus is not None:
            self.bus_objs(sc).append((t, [], dims, bus))

    def add_sigs(self, sc, name, dims, bus, pre=()):
        if not pre and bus is None and dims:
            sc.aobjs.append((name, list(dims)))
        for s in self.leaf_steps(dims, bus):
            sc.sigs.append((name, list(pre) + s))

    def tbody(self, sc, out, todo):
        ch = self.ch
        n = ch.int(*self.cfg["steps"])
        todo = list(todo)
        for _ in range(n):
            opts = [(4, "v"), (5, "sig")]
            if sc.bobjs or sc.aobjs:
                opts.append((2, "twin"))
            if todo:
                opts.append((3, "todo"))
            if self.tmpls and self.cfg["comps"] and self.cost < 40:
                opts += [(4, "comp"), (2, "comparr")]
                if self.cfg["anon"]:
                    opts.append((4, "anon"))
            if sc.sigs:
                opts += [(2, "true==="), (1, "under")]
            if self.cfg["mayfail"] and sc.sigs and ch.draw(100) >= 100 - self.cfg["mayfail"]:
                opts.append((4, "fail"))
            if self.cfg["gadgets"]:
                opts.append((2, "gadget"))
            o = ch.weighted(opts)
            if o == "v":
                self.vstmt(sc, out, 0)
            elif o == "sig":
                self.inter_signal(sc, out)
            elif o == "twin":
                self.twin(sc, out)
            elif o == "todo":
                self.assign_port(sc, todo.pop(ch.draw(len(todo))), out)
            elif o == "comp":
                self.component(sc, out)
            elif o == "comparr":
                self.comp_array(sc, out)
            elif o == "anon":
                self.anon(sc, out)
            elif o == "true===":
                self.true_constraint(sc, out)
            elif o == "under":
                self.under(sc, out)
            elif o == "fail":
                self.may_fail(sc, out)
            elif o == "gadget":
                self.gadget(sc, out)
        while todo:
            self.assign_port(sc, todo.pop(ch.draw(len(todo))), out)

    def under(self, sc, out):
        """values that are marked as not needed"""
        ch = self.ch
        self.f("under")
        k = ch.weighted([(3, "quad"), (4, "read"), (2 if sc.aobjs else 0, "arr"), (2 if sc.bobjs else 0, "bus"), (1 if self.cfg["hints"] else 0, "hint")])
        op = "<=="
        if k == "quad":
            e = self.quad(sc, 2)
        elif k == "read":
            e = self.read(sc, ch.pick(sc.sigs))
        elif k == "arr":
            e = V(ch.pick(sc.aobjs)[0])
        elif k == "bus":
            x = ch.pick(sc.bobjs)
            e = Var(x[0], list(x[1]))
        else:
            op, e = "<--", self.read(sc, ch.pick(sc.sigs))
        out.append(Assign(Under(), op, e, ch.chance(25)))

    def risky_assert(self, sc):
        """an assertion that holds for some values only"""
        ch = self.ch
        self.f("risky_assert")
        e = self.uexp(sc, 2)
        k = ch.draw(6)
        if k == 0 and sc.unk:
            self.f("known_false_assert")
            return Assert(self.kexp(sc, 1)) if ch.chance(50) else Assert(Num(0))
        if k == 1:
            return Assert(Bin("%", e, Num(ch.int(3, 7))))
        if k == 2:
            return Assert(Bin("&&", Bin("||", e, Num(ch.draw(2))), Bin("!=", e, Num(ch.draw(4)))))
        if k == 3:
            return Assert(Un("!", Paren(Bin("==", e, Num(ch.draw(4))))))
        return Assert(Bin(ch.pick(["<", "!=", "<=", ">=", ">", "!="]), e, self.uexp(sc, 1)))

    def may_fail(self, sc, out):
        ch = self.ch
        self.mayfail = True
        self.f("mayfail")
        k = ch.draw(9 if self.cfg["mayfail"] >= 50 else 3)
        a = self.read(sc, ch.pick(sc.sigs))
        if k == 0:
            out.append(Constr(a, self.quad(sc, 2)))
        elif k == 1:
            out.append(Assert(Bin(ch.pick(["<", "!=", "==", ">="]), a, self.uexp(sc, 1))))
        elif k == 2:
            out.append(Constr(Bin("*", a, Bin("-", a, Num(1))), Num(0)))
        elif k == 3:
            out.append(self.risky_assert(sc))
        elif k == 4:      # whole arrays
            ats = [x for x in sc.sigs if x[1] and x[1][-1][0] == "i"]
            if ats:
                self.f("array_===")
                x = ch.pick(ats)
                r = self.read(sc, (x[0], x[1][:-1]))
                n = es(x[1][-1][1])
                o = [y for y in ats if es(y[1][-1][1]) == n]
                y = ch.pick(o)
                r2 = self.read(sc, (y[0], y[1][:-1]))
                out.append(Constr(r, r2))
        elif k == 5:      # in a loop
            i = self.fresh("i")
            s2 = Scope(sc)
            n = ch.int(1, 3)
            s2.loops.append((i, Num(n)))
            if ch.chance(50):
                b = [Constr(self.read(s2, ch.pick(sc.sigs)), self.quad(s2, 1))]
            else:
                b = [self.risky_assert(s2)]
            out.append(For(VarDecl([(i, [], Num(0))]), Bin("<", V(i), Num(n)), Inc(V(i), "++"), Block(b)))
        elif k == 6:      # equalities that hold on small values
            out.append(Constr(Bin("*", Bin("*", a, Bin("-", a, Num(1))), self.kexp(sc, 0)) if ch.chance(50) else
                              Bin("*", a, Bin("-", a, Num(ch.int(1, 3)))), Num(0)))
        elif k == 7:      # hint and constraint
            s = self.fresh("s")
            e = self.quad(sc, 2)
            out.append(SigDecl("", [], [(s, [], None)], None, False))
            out.append(Assign(V(s), "<--", Bin("+", Bin("*", Paren(e), Num(1)), Bin("==", a, Num(ch.draw(3))))))
            out.append(Constr(V(s), e) if ch.chance(50) else Constr(e, V(s)))
            sc.sigs.append((s, []))
        else:
            out.append(Constr(Bin("-", a, self.lin(sc, 1)), Num(0)))

    def true_constraint(self, sc, out):
        ch = self.ch
        self.f("true===")
        k = ch.draw(6)
        if k == 5:
            # a sum of two products cannot be stated directly: q === s with s <-- q
            s = self.fresh("s")
            q = self.quad(sc, 2)
            out.append(SigDecl("", [], [(s, [], None)], None, False))
            out.append(Assign(V(s), "<--", q))
            sc.sigs.append((s, []))
            out.append(Constr(q, V(s)) if ch.chance(50) else Constr(V(s), q))
            return
        a = self.lin(sc, 1)
        b = self.lin(sc, 1)
        if k == 0:
            out.append(Constr(Bin("+", a, b), Bin("+", b, a)))
        elif k == 1:
            out.append(Constr(Bin("*", Bin("-", Paren(a), Paren(a)), b), Num(0)))
        elif k == 2:
            c = self.kexp(sc, 0)
            out.append(Constr(Bin("*", c, Bin("+", a, b)), Bin("+", Bin("*", c, a), Bin("*", b, c))))
        elif k == 3:
            # whole-array equality with itself
            ats = [x for x in sc.sigs if x[1] and x[1][-1][0] == "i"]
            if ats:
                at = ch.pick(ats)
                r = self.read(sc, (at[0], at[1][:-1]))
                out.append(Constr(r, r))
        else:
            s = self.fresh("s")
            out.append(SigDecl("", [], [(s, [], None)], None, False))
            out.append(Assign(V(s), "<--", self.uexp(sc, 2, True)))
            sc.sigs.append((s, []))
            t = self.fresh("s")
            out.append(SigDecl("", [], [(t, [], None)], None, False))
            out.append(Assign(V(t), "<--", Bin("*", V(s), Num(ch.int(2, 5)))))
            sc.sigs.append((t, []))
            m = out[-1].rhs.b.v
            out.append(Constr(V(t), Bin("*", Num(m), V(s))))

    def gadget(self, sc, out):
        """idioms of real circuits"""
        ch = self.ch
        if not sc.sigs:
            return
        a = self.read(sc, ch.pick(sc.sigs))
        k = ch.draw(4)
        self.f("gadget")
        if k == 0:   # IsZero
            inv, o = self.fresh("s"), self.fresh("s")
            out.append(SigDecl("", [], [(inv, [], None), (o, [], None)], None, False))
            out.append(Assign(V(inv), "<--", Tern(Bin("!=", a, Num(0)), Bin("/", Num(1), a), Num(0))))
            out.append(Assign(V(o), "<==", Bin("+", Bin("*", Un("-", a), V(inv)), Num(1))))
            out.append(Constr(Bin("*", a, V(o)), Num(0)))
            sc.sigs += [(inv, []), (o, [])]
        elif k == 1:  # bits of a small value
            n = ch.int(1, 4)
            s, o, lc, e2, i = [self.fresh(x) for x in ("s", "s", "v", "v", "i")]
            out.append(SigDecl("", [], [(s, [], None)], None, False))
            out.append(Assign(V(s), "<--", Bin("%", a, Num(1 << n))))
            out.append(SigDecl("", [], [(o, [Num(n)], None)], None, False))
            out.append(VarDecl([(lc, [], Num(0)), (e2, [], Num(1))]))
            oi = V(o, ("i", V(i)))
            out.append(For(VarDecl([(i, [], Num(0))]), Bin("<", V(i), Num(n)), Inc(V(i), "++"), Block([
                Assign(oi, "<--", Bin("&", Bin(">>", V(s), V(i)), Num(1))),
                Constr(Bin("*", oi, Bin("-", oi, Num(1))), Num(0)),
                Assign(V(lc), "+=", Bin("*", oi, V(e2))),
                Assign(V(e2), "=", Bin("+", V(e2), V(e2)))])))
            out.append(Constr(V(lc), V(s)))
            sc.sigs += [(s, []), (o, [("i", Num(n))])]
            sc.vars.append(VarInfo(lc, [], "L"))
        elif k == 2:  # boolean selector
            b = self.fresh("s")
            m = self.fresh("s")
            out.append(SigDecl("", [], [(b, [], None)], None, False))
            out.append(Assign(V(b), "<--", Bin(ch.pick([">", "==", "<="]), a, self.uexp(sc, 1))))
            out.append(Constr(Bin("*", V(b), Bin("-", Num(1), V(b))), Num(0)))
            out.append(SigDecl("", [], [(m, [], Bin("+", Bin("*", V(b), Bin("-", self.lin(sc, 1), Paren(a))), a))], "<==", False))
            sc.sigs += [(b, []), (m, [])]
        else:  # hints assigned in the branches of an unknown condition
            ns = [self.fresh("s") for _ in range(ch.weighted([(4, 1), (2, 2)]))]
            out.append(SigDecl("", [], [(n, [], None) for n in ns], None, False))
            self.f("signal_in_unknown_if")
            out.append(self.branching(sc, ns, 0))
            sc.sigs += [(n, []) for n in ns]

    def branching(self, sc, ns, depth):
        """a conditional with unknown condition that assigns the signals ns in every branch"""
        ch = self.ch
        c = self.uexp(sc, 1)

        def branch():
            s = Scope(sc)
            s.unk = True
            b = []
            if ch.chance(30):
                self.vstmts(s, 1, b, 0)
            if depth < 2 and ch.chance(20):
                b.append(self.branching(s, ns, depth + 1))
            else:
                for n in ch.shuffle(ns):
                    b.append(Assign(V(n), "<--", self.uexp(s, 1)))
                    if ch.chance(15):
                        self.vstmts(s, 1, b, 0)
            return Block(b)
        return If(c, branch(), branch())

    def inter_signal(self, sc, out):
        ch = self.ch
        p = Port(self.fresh("s"), self.dims(sc), self.pick_bus(sc) if ch.chance(15) else None, "")
        if p.bus is None and not p.dims and ch.chance(40):
            if ch.chance(75) or not self.cfg["hints"]:
                out.append(self.decl_port(p, self.quad(sc, 2, True), "<=="))
            else:
                out.append(self.decl_port(p, self.uexp(sc, 2, True), "<--"))
            self.f("decl_init")
            sc.sigs.append((p.name, []))
            return
        if p.bus is None and len(p.dims) and ch.chance(20):
            v = self.sig_array_value(sc, p.dims)
            if v is not None:
                out.append(self.decl_port(p, v, "<=="))
                self.add_sigs(sc, p.name, p.dims, None)
                return
        out.append(self.decl_port(p))
        self.assign_port(sc, p, out)

    def sig_array_value(self, sc, dims):
        ch = self.ch
        want = [es(x) for x in dims]
        c = []
        for a in sc.sigs:
            r = self.whole(sc, a, want)
            if r is not None:
                c.append(r)
        for v in sc.vars:
            if v.k in "KL" and [es(x) for x in v.dims] == want and not sc.unk:
                c.append(V(v.name))
        if c and ch.chance(60):
            self.f("sig_array_copy")
            return ch.pick(c)
        if all(type(x) is Num for x in dims):
            return self.qliteral(sc, [x.v for x in dims])
        return ch.pick(c) if c else None

    def qliteral(self, sc, dims):
        if not dims:
            return self.quad(sc, 1)
        return Arr([self.qliteral(sc, dims[1:]) for _ in range(dims[0])])

    def assign_port(self, sc, p, out, pre=()):
        """assign all leaves of a declared signal/bus; afterwards it is readable"""
        ch = self.ch
        if p.bus is not None and not pre:
            c = self.bus_copies(sc, p)
            if c and ch.chance(50):
                self.f("bus_copy")
                out.append(Assign(V(p.name), "<==", ch.pick(c), ch.chance(20)))
                self.add_sigs(sc, p.name, p.dims, p.bus)
                self.bus_objs(sc).append((p.name, [], p.dims, p.bus))
                return
        new = self.leaf_steps(p.dims, p.bus)
        for s in new:
            self.assign_atom(sc, p.name, list(pre) + s, out)
            # a leaf is readable as soon as it is assigned
            sc.sigs.append((p.name, list(pre) + s))
        if p.bus is not None and not pre:
            self.bus_objs(sc).append((p.name, [], p.dims, p.bus))
        if p.bus is None and not pre and p.dims:
            sc.aobjs.append((p.name, list(p.dims)))

    def bus_objs(self, sc):
        return sc.bobjs

    def bus_copies(self, sc, p):
        out = []
        for name, pre, dims, bus in self.bus_objs(sc):
            if bus[0] is p.bus[0] and [es(a) for a in bus[1]] == [es(a) for a in p.bus[1]] \
                    and [es(d) for d in dims] == [es(d) for d in p.dims]:
                out.append(Var(name, list(pre)))
        return out

    def rhs(self, sc):
        """(op, expr, post) for a scalar signal assignment"""
        ch = self.ch
        if self.cfg["hints"] and ch.chance(25):
            if ch.chance(50):
                q = self.quad(sc, 2)
                return "<--", q, q
            return "<--", self.uexp(sc, 3, True), None
        return "<==", self.quad(sc, 2, True), None

    def assign_atom(self, sc, name, steps, out):
        ch = self.ch
        flip = ch.chance(15)
        idims = [i for i, (k, _) in enumerate(steps) if k == "i"]
        # trailing dims handled at once?
        t = len(steps)
        while t > 0 and steps[t - 1][0] == "i":
            t -= 1
        tail = [d for _, d in steps[t:]]
        if tail and ch.chance(30):
            head_loops = [i for i in idims if i < t]
            if not head_loops:
                v = self.sig_array_value(sc, tail)
                if v is not None:
                    out.append(Assign(Var(name, [s for s in steps[:t]]), "<==", v, flip))
                    return
        if len(idims) == 1 and type(steps[idims[0]][1]) is Num and steps[idims[0]][1].v <= 3 and ch.chance(40):
            self.f("unrolled")
            for j in ch.shuffle(range(steps[idims[0]][1].v)):
                acc = [(k, Num(j)) if k == "i" else (k, x) for k, x in steps]
                op, e, post = self.rhs(sc)
                out.append(Assign(Var(name, acc), op, e, flip))
                if post is not None:
                    out.append(Constr(Var(name, acc), post))
            return
        acc = []

        def build(i, s, o):
            if i == len(steps):
                op, e, post = self.rhs(s)
                out_s = Assign(Var(name, list(acc)), op, e, flip)
                o.append(out_s)
                if post is not None:
                    o.append(Constr(Var(name, list(acc)), post))
                return
            k, x = steps[i]
            if k == "f":
                acc.append((k, x))
                build(i + 1, s, o)
                acc.pop()
            else:
                def body(s2, b):
                    acc.append(("i", V(s2.loops[-1][0])))
                    build(i + 1, s2, b)
                    acc.pop()
                self.for_known(s, o, 0, body, dim=x)
        build(0, sc, out)

    # ------------------------------------------------------------------ components
    def targs(self, sc, t, small_bound=None):
        ch = self.ch
        args = []
        for p, k in t.params:
            if k == "small":
                args.append(self.dim_arg(sc))
            else:
                args.append(self.kexp(sc, 1))
        return args

    def inst_ports(self, t, args):
        m = {p: a for (p, _), a in zip(t.params, args)}
        r = []
        for p in t.ports:
            bus = (p.bus[0], [subst(a, m) for a in p.bus[1]]) if p.bus else None
            r.append(Port(p.name, [subst(d, m) for d in p.dims], bus, p.kind))
        return r

    def component(self, sc, out):
        ch = self.ch
        ts = [t for t in self.tmpls if t.cost + self.cost <= 60]
        if not ts:
            return
        t = ch.pick(ts)
        self.cost += t.cost
        self.f("component")
        args = self.targs(sc, t)
        c = self.fresh("c")
        e = Call(t.name, args)
        if self.cfg["parallel"] and ch.chance(8):
            e = Par(e)
            self.f("parallel_comp")
        if ch.chance(75):
            out.append(CompDecl([(c, [], e)]))
        else:
            out.append(CompDecl([(c, [], None)]))
            out.append(Assign(V(c), "=", e))
        ports = self.inst_ports(t, args)
        self.feed(sc, out, c, [], [p for p in ports if p.kind == "input"])
        for p in ports:
            if p.kind == "output":
                self.add_sigs(sc, c, p.dims, p.bus, [("f", p.name)])
                if p.bus is not None:
                    self.bus_objs(sc).append((c, [("f", p.name)], p.dims, p.bus))

    def feed(self, sc, out, c, pre, ins):
        ch = self.ch
        work = []
        for p in ins:
            if p.bus is not None and not pre and ch.chance(50):
                cp = self.bus_copies(sc, p)
                if cp:
                    self.f("bus_copy")
                    out.append(Assign(Var(c, [("f", p.name)]), "<==", ch.pick(cp), ch.chance(20)))
                    continue
            for s in self.leaf_steps(p.dims, p.bus):
                work.append(list(pre) + [("f", p.name)] + s)
        for w in ch.shuffle(work):
            if ch.chance(10):
                self.vstmt(sc, out, 0)
            self.assign_atom(sc, c, w, out)

    def comp_array(self, sc, out):
        ch = self.ch
        ts = [t for t in self.tmpls if t.cost * 4 + self.cost <= 60]
        if not ts:
            return
        t = ch.pick(ts)
        self.cost += 4 * t.cost
        self.f("comp_array")
        c = self.fresh("c")
        dim = self.dim_arg(sc)
        args = self.targs(sc, t)
        smalls = [p for p, k in t.params if k == "small"]
        mixed = None
        if self.cfg["mixed"] and smalls and ch.chance(35):
            mixed = ch.pick(smalls)
            for p in t.outs():
                for s in self.leaf_steps(p.dims, p.bus):
                    if any(k == "i" and mixed in es(d) for k, d in s):
                        mixed = None
                        break
                if mixed is None:
                    break
        out.append(CompDecl([(c, [dim], None)]))
        if mixed is not None:
            # instances of the same template with different parameters
            self.f("mixed_array")

            def body(s2, b):
                i = s2.loops[-1][0]
                a2 = [Bin("+", V(i), Num(1)) if p == mixed else a for (p, _), a in zip(t.params, args)]
                b.append(Assign(V(c, ("i", V(i))), "=", Call(t.name, a2)))
                for p in self.inst_ports(t, a2):
                    if p.kind == "input":
                        for st in self.leaf_steps(p.dims, p.bus):
                            self.feed_one(s2, b, c, i, [("f", p.name)] + st)
            self.for_known(sc, out, 0, body, dim=dim)
            ports = self.inst_ports(t, [Num(1) if p == mixed else a for (p, _), a in zip(t.params, args)])
        else:
            ports = self.inst_ports(t, args)
            one = ch.chance(50)
            par = self.cfg["parallel"] and ch.chance(8)

            def body(s2, b):
                i = s2.loops[-1][0]
                e = Call(t.name, args)
                b.append(Assign(V(c, ("i", V(i))), "=", Par(e) if par else e))
                if one:
                    for p in ports:
                        if p.kind == "input":
                            for st in self.leaf_steps(p.dims, p.bus):
                                self.feed_one(s2, b, c, i, [("f", p.name)] + st)
            self.for_known(sc, out, 0, body, dim=dim)
            if not one:
                for p in ports:
                    if p.kind == "input":
                        for st in self.leaf_steps(p.dims, p.bus):
                            self.assign_atom(sc, c, [("i", dim), ("f", p.name)] + st, out)
        for p in ports:
            if p.kind == "output":
                self.add_sigs(sc, c, p.dims, p.bus, [("i", dim), ("f", p.name)])

    def feed_one(self, sc, out, c, i, steps):
        acc0 = [("i", V(i))]
        acc = []

        def build(k, s, o):
            if k == len(steps):
                op, e, post = self.rhs(s)
                if post is not None:
                    op = "<=="
                o.append(Assign(Var(c, acc0 + list(acc)), op, e, self.ch.chance(15)))
                return
            kd, x = steps[k]
            if kd == "f":
                acc.append((kd, x))
                build(k + 1, s, o)
                acc.pop()
            else:
                def body(s2, b):
                    acc.append(("i", V(s2.loops[-1][0])))
                    build(k + 1, s2, b)
                    acc.pop()
                self.for_known(s, o, 0, body, dim=x)
        build(0, sc, out)

    def anon(self, sc, out):
        ch = self.ch
        ts = [t for t in self.tmpls if t.cost + self.cost <= 60 and t.outs()]
        if not ts:
            return
        t = ch.pick(ts)
        args = self.targs(sc, t)
        ports = self.inst_ports(t, args)
        pre = []
        ins = []
        for p in ports:
            if p.kind != "input":
                continue
            if p.bus is not None:
                cp = [x for x in self.bus_copies(sc, p)]
                if not cp:
                    q = Port(self.fresh("s"), p.dims, p.bus, "")
                    pre.append(self.decl_port(q))
                    self.assign_port(sc, q, pre)
                    cp = [V(q.name)]
                ins.append(ch.pick(cp))
            elif p.dims:
                v = self.sig_array_value(sc, p.dims)
                if v is None:
                    q = Port(self.fresh("s"), p.dims, None, "")
                    pre.append(self.decl_port(q))
                    self.assign_port(sc, q, pre)
                    v = V(q.name)
                ins.append(v)
            else:
                # an anonymous component call may itself be an argument
                ins.append(self.anon_arg(sc) if ch.chance(12) else self.quad(sc, 1))
        self.cost += t.cost
        self.f("anon")
        names = None
        inn = [p.name for p in ports if p.kind == "input"]
        if ins and ch.chance(30):
            order = ch.shuffle(range(len(ins)))
            names = [("<==", inn[i]) for i in order]
            ins = [ins[i] for i in order]
            self.f("anon_named")
        e = Anon(t.name, args, ins, names, self.cfg["parallel"] and ch.chance(6))
        outs = [p for p in ports if p.kind == "output"]
        out += pre
        if len(outs) == 1:
            p = outs[0]
            q = Port(self.fresh("s"), p.dims, p.bus, "")
            if ch.chance(50):
                out.append(self.decl_port(q, e, "<=="))
            else:
                out.append(self.decl_port(q))
                out.append(Assign(V(q.name), "<==", e))
            self.add_sigs(sc, q.name, q.dims, q.bus)
            if q.bus:
                self.bus_objs(sc).append((q.name, [], q.dims, q.bus))
            return
        items = []
        new = []
        for p in outs:
            if ch.chance(20):
                items.append(Under())
                self.f("underscore")
            else:
                q = Port(self.fresh("s"), p.dims, p.bus, "")
                new.append(q)
                items.append(V(q.name))
        self.f("tuple")
        if len(new) == len(items) and all(q.bus is None for q in new) and ch.chance(40):
            out.append(TupDecl("signal", [(q.name, q.dims) for q in new], "<==", e))
        else:
            for q in new:
                out.append(self.decl_port(q))
            out.append(Assign(Tup(items), "<==", e))
        for q in new:
            self.add_sigs(sc, q.name, q.dims, q.bus)

    def anon_arg(self, sc):
        """anonymous component with scalar inputs and a single scalar output, as an expression"""
        ch = self.ch
        ts = [t for t in self.tmpls if t.cost + self.cost <= 60 and len(t.outs()) == 1 and not t.outs()[0].dims
              and t.outs()[0].bus is None and all(p.bus is None and not p.dims for p in t.ins()) and t.ins()]
        if not ts:
            return self.quad(sc, 1)
        t = ch.pick(ts)
        self.cost += t.cost
        self.f("anon_nested")
        return Anon(t.name, self.targs(sc, t), [self.quad(sc, 1) for _ in t.ins()], None, False)

    # ------------------------------------------------------------------ programs
    def program(self):
        ch = self.ch
        if self.cfg["funcs"]:
            for _ in range(ch.weighted([(3, 0), (3, 1), (3, 2), (1, 3)])):
                self.gen_func()
        if self.cfg["buses"] and ch.chance(45):
            for _ in range(ch.int(1, 2)):
                self.gen_bus()
        n = ch.int(*self.cfg["tmpl"])
        for i in range(n):
            t = self.gen_template(last=i == n - 1)
        args = []
        for p, k in t.params:
            args.append(Num(ch.int(1, 3)) if k == "small" else self.const())
        ins = [p.name for p in t.ins()]
        pub = ch.subset(ins, 40)
        defs = ch.shuffle(self.defs) if ch.chance(30) else self.defs
        return Program(defs, Main(ch.shuffle(pub), Call(t.name, args)), ["pragma circom 2.1.0;"])


def random_input(ch, st, p, mode):
    if isinstance(st, list):
        return [random_input(ch, x, p, mode) for x in st]
    if isinstance(st, BusNode):
        return {k: random_input(ch, x, p, mode) for k, x in st.fields.items()}
    if mode == 0:
        return ch.draw(6)
    if mode == 1:
        return ch.big(p)
    return ch.draw(2)


def gen_inputs(ch, prog, prime, n):
    m = main_shape(prog, prime)
    p = field(prime).p
    out = []
    for i in range(n):
        mode = ch.draw(3)
        out.append({k: random_input(ch, m.sigs[k], p, mode) for k in m.sigs if m.kinds[k] == "input"})
    return out


def generate(ch, prime="bn128", ninputs=2, **cfg):
    g = Gen(ch, prime, **cfg)
    prog = g.program()
    ins = gen_inputs(ch, prog, prime, ninputs)
    return g, prog, ins
