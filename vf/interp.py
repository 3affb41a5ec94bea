"""Reference interpreter: executes a circom AST on concrete inputs while tracking, symbolically,
what is known at constraint-generation time and which constraints the program states.

It is written from the language documentation; it shares nothing with the compiler under test."""
from .lang import *
from .field import field, EvalError

K, LIN, QUAD, NQ = 0, 1, 2, 3


class Reject(Exception):
    """The program has to be rejected by the compiler."""

    def __init__(self, why):
        Exception.__init__(self, why)
        self.why = why


class TooLong(Exception):
    pass


class S:
    __slots__ = ("k", "c", "s")

    def __init__(self, k, c, s=None):
        self.k = k
        self.c = c
        self.s = s

    def __repr__(self):
        return "S(%d,%d)" % (self.k, self.c)


class Leaf:
    __slots__ = ("name", "c", "assigned", "inst", "kind")

    def __init__(self, name, inst, kind):
        self.name = name
        self.c = 0
        self.assigned = False
        self.inst = inst
        self.kind = kind

    def __deepcopy__(self, memo):
        return self


class BusNode:
    """A bus signal (fields: structures of Leaf / BusNode) """
    __slots__ = ("btype", "fields")

    def __init__(self, btype, fields):
        self.btype = btype
        self.fields = fields


class BusVal:
    __slots__ = ("btype", "fields")

    def __init__(self, btype, fields):
        self.btype = btype
        self.fields = fields


class Inst:
    def __init__(self, name, tmpl, args, parent):
        self.name = name
        self.tmpl = tmpl
        self.args = args
        self.parent = parent
        self.sigs = {}      # signal name -> structure
        self.kinds = {}
        self.scopes = None
        self.remaining = 0
        self.executed = False
        self.children = []
        self.anon = 0

    def inputs(self):
        return [l for n in self.sigs if self.kinds[n] == "input" for l in leaves(self.sigs[n])]

    def outputs(self):
        return [l for n in self.sigs if self.kinds[n] == "output" for l in leaves(self.sigs[n])]


def leaves(st):
    """the signals of a structure, in order"""
    if isinstance(st, list):
        return [l for x in st for l in leaves(x)]
    if isinstance(st, BusNode):
        return [l for x in st.fields.values() for l in leaves(x)]
    return [st]


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Slot:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class SigRef:
    __slots__ = ("st", "kind")

    def __init__(self, st, kind):
        self.st = st
        self.kind = kind


class CompSlot:
    __slots__ = ("st", "name")

    def __init__(self, st, name):
        self.st = st
        self.name = name


def dcopy(v):
    if isinstance(v, list):
        return [dcopy(x) for x in v]
    if isinstance(v, BusVal):
        return BusVal(v.btype, {k: dcopy(x) for k, x in v.fields.items()})
    return v


def mapv(v, f):
    if isinstance(v, list):
        return [mapv(x, f) for x in v]
    return f(v)


def assigned_names(s, acc):
    """Names of variables syntactically assigned in s; second: does it contain a return."""
    t = type(s)
    if t is Block:
        for x in s.stmts:
            assigned_names(x, acc)
    elif t is If:
        assigned_names(s.t, acc)
        if s.e is not None:
            assigned_names(s.e, acc)
    elif t is While:
        assigned_names(s.body, acc)
    elif t is For:
        assigned_names(s.init, acc)
        assigned_names(s.step, acc)
        assigned_names(s.body, acc)
    elif t is Assign:
        if isinstance(s.lhs, Var):
            acc.add(s.lhs.name)
        elif isinstance(s.lhs, Tup):
            for i in s.lhs.items:
                if isinstance(i, Var):
                    acc.add(i.name)
    elif t is Inc:
        acc.add(s.lhs.name)
    elif t is Return:
        acc.add("<return>")
    return acc


class Interp:
    def __init__(self, prog, prime="bn128", fuel=200000):
        self.prog = prog
        self.F = field(prime)
        self.p = self.F.p
        self.funcs = {}
        self.tmpls = {}
        self.buses = {}
        for d in prog.defs:
            t = type(d)
            (self.funcs if t is Func else self.tmpls if t is Template else self.buses)[d.name] = d
        self.consinst = []         # the instances that state them
        self.under = []            # (instance, value) assigned to _
        self.hints = {}            # id of a statement with <-- -> {"single", "multi", "none", "unknown"}
        self.hstmt = self.htuple = self.tstmt = None
        self.fuzzy = False         # NQ is an over-approximation
        self.constraints = []      # (A, B, C) over names; None key = constant
        self.leaves = []           # in creation order
        self.logs = []
        self.logsrc = []
        self.fail = None           # first runtime failure
        self.undef = None          # documentation leaves the result undefined
        self.fuel = fuel
        self.unknown = 0
        self.inst = None
        self.scopes = None
        self.maybe_ret = False
        self.call_unk = False
        self.stats = {}
        self.bus_cache = {}

    def stat(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    # ------------------------------------------------------------ symbolic arithmetic
    def num(self, v):
        return S(K, v % self.p)

    def lin(self, x):
        """coefficient dict of a K/LIN value"""
        return {None: x.c} if x.k == K else x.s

    def ladd(self, a, b, fb=1):
        p = self.p
        r = dict(a)
        for n, v in b.items():
            r[n] = (r.get(n, 0) + fb * v) % p
        return r

    def lscale(self, a, f):
        p = self.p
        return {n: v * f % p for n, v in a.items()}

    def add(self, x, y, c, sign):
        if x.k == K and y.k == K:
            return S(K, c)
        if x.k == NQ or y.k == NQ or (x.k == QUAD and y.k == QUAD):
            return S(NQ, c)
        if x.k == QUAD:
            a, b, cc = x.s
            return S(QUAD, c, (a, b, self.ladd(cc, self.lin(y), sign)))
        if y.k == QUAD:
            a, b, cc = y.s
            if sign == -1:
                a, cc = self.lscale(a, -1), self.lscale(cc, -1)
            return S(QUAD, c, (a, b, self.ladd(cc, self.lin(x))))
        return S(LIN, c, self.ladd(self.lin(x), self.lin(y), sign))

    def scale(self, x, f, c):
        if x.k == LIN:
            return S(LIN, c, self.lscale(x.s, f))
        if x.k == QUAD:
            a, b, cc = x.s
            return S(QUAD, c, (self.lscale(a, f), b, self.lscale(cc, f)))
        return S(x.k, c)

    def mul(self, x, y, c):
        if x.k == NQ or y.k == NQ:
            return S(NQ, c)
        if x.k == K and y.k == K:
            return S(K, c)
        if x.k == K:
            return self.scale(y, x.c, c)
        if y.k == K:
            return self.scale(x, y.c, c)
        if x.k == LIN and y.k == LIN:
            return S(QUAD, c, (x.s, y.s, {}))
        return S(NQ, c)

    def binop(self, op, x, y):
        try:
            c = self.F.bin(op, x.c, y.c)
        except EvalError as e:
            if x.k == K and y.k == K:
                if self.unknown == 0:
                    raise Reject("arith:" + str(e))
                # compile-time error in a branch that would not run: not modelled
                self.undef = self.undef or "known " + str(e)
            elif y.k == K:
                self.undef = self.undef or "const " + str(e)
            else:
                self.undef = self.undef or str(e)
            c = 0
        if x.k == K and y.k == K:
            return S(K, c)
        if op == "+":
            return self.add(x, y, c, 1)
        if op == "-":
            return self.add(x, y, c, -1)
        if op == "*":
            return self.mul(x, y, c)
        if op == "/" and y.k == K and y.c != 0:
            return self.scale(x, pow(y.c, -1, self.p), c)
        if op == "**" and y.k == K and y.c == 2 and x.k == LIN:
            return self.mul(x, x, c)
        return S(NQ, c)

    def unop(self, op, x):
        c = self.F.un(op, x.c)
        if x.k == K:
            return S(K, c)
        if op == "-":
            return self.scale(x, self.p - 1, c)
        return S(NQ, c)

    # ------------------------------------------------------------ environment
    def lookup(self, name):
        for sc in reversed(self.scopes):
            if name in sc:
                return sc[name]
        raise Reject("undeclared " + name)

    def tick(self):
        self.fuel -= 1
        if self.fuel < 0:
            raise TooLong()

    # ------------------------------------------------------------ expressions
    def scalar(self, e):
        v = self.ev(e)
        if not isinstance(v, S):
            raise Reject("type: scalar expected")
        return v

    def known_int(self, e, what="dim"):
        v = self.scalar(e)
        if v.k != K:
            raise Reject("unknown " + what)
        return v.c

    def ev(self, e):
        t = type(e)
        if t is Num:
            return S(K, e.v % self.p)
        if t is Var:
            return self.ev_var(e)
        if t is Bin:
            return self.binop(e.op, self.scalar(e.a), self.scalar(e.b))
        if t is Un:
            return self.unop(e.op, self.scalar(e.a))
        if t is Tern:
            c = self.scalar(e.c)
            if c.k == K:
                return self.ev(e.a if c.c else e.b)
            return mapv(self.ev(e.a if c.c else e.b), lambda x: S(NQ, x.c))
        if t is Call:
            if e.name in self.funcs:
                return self.call(self.funcs[e.name], [self.ev(a) for a in e.args])
            raise Reject("type: call " + e.name)
        if t is Arr:
            vs = [self.ev(i) for i in e.items]
            return vs
        if t is Paren:
            return self.ev(e.e)
        if t is Anon:
            outs = self.anon(e)
            if len(outs) == 1:
                return outs[0]
            return tuple(outs)
        raise AssertionError(e)

    def idx(self, e, n):
        v = self.scalar(e)
        if v.c >= n:
            if v.k == K and self.unknown == 0:
                raise Reject("oob")
            self.undef = self.undef or "oob"
            return v, 0
        return v, v.c

    def walk(self, st, acc, read):
        """Follow accesses in a structure.  Returns (structure, had_unknown_index)."""
        unk = False
        for k, x in acc:
            if isinstance(st, Inst):
                if k != "f" or x not in st.sigs:
                    raise Reject("access")
                kind = st.kinds[x]
                if read and kind == "output" and not st.executed:
                    raise Reject("use of output before inputs set")
                if kind == "":
                    raise Reject("access to intermediate")
                if not read and kind != "input":
                    raise Reject("write to non-input")
                st = st.sigs[x]
                continue
            if k == "i":
                if not isinstance(st, list):
                    raise Reject("type: index")
                v, i = self.idx(x, len(st))
                if v.k != K:
                    unk = True
                st = st[i]
            else:
                if not isinstance(st, (BusNode, BusVal)) or x not in st.fields:
                    raise Reject("access field")
                st = st.fields[x]
        return st, unk

    def read(self, st, unk):
        if isinstance(st, list):
            return [self.read(x, unk) for x in st]
        if isinstance(st, Leaf):
            return S(NQ, st.c) if unk else S(LIN, st.c, {st.name: 1})
        if isinstance(st, BusNode):
            return BusVal(st.btype, {k: self.read(x, unk) for k, x in st.fields.items()})
        if isinstance(st, S):
            return S(NQ, st.c) if unk else st
        if isinstance(st, BusVal):
            return st
        raise Reject("access")

    def ev_var(self, e):
        o = self.lookup(e.name)
        if isinstance(o, Slot):
            st, unk = self.walk(o.v, e.acc, True)
            return self.read(st, unk)
        if isinstance(o, SigRef):
            st, unk = self.walk(o.st, e.acc, True)
            return self.read(st, unk)
        if isinstance(o, CompSlot):
            st, unk = self.walk(o.st, e.acc, True)
            return self.read(st, unk)
        raise AssertionError(o)

    def call(self, f, args):
        self.tick()
        self.stat("calls")
        saved = (self.scopes, self.unknown, self.maybe_ret, self.inst)
        cu = self.call_unk
        self.call_unk = bool(cu or self.unknown or self.maybe_ret)
        self.scopes = [{p: Slot(dcopy(a)) for p, a in zip(f.params, args)}]
        self.unknown = 0
        self.maybe_ret = False
        self.depth = getattr(self, "depth", 0) + 1
        if self.depth > 100:
            raise TooLong()
        try:
            for s in f.body:
                self.st(s)
            raise Reject("no return")
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1
            self.call_unk = cu
            self.scopes, self.unknown, self.maybe_ret, self.inst = saved

    # ------------------------------------------------------------ declarations
    def zeros(self, dims):
        if not dims:
            return S(K, 0)
        return [self.zeros(dims[1:]) for _ in range(dims[0])]

    def mkbus(self, name, args):
        key = (name, tuple(a.c for a in args))
        return key

    def sigstruct(self, name, dims, bt, inst, kind):
        if dims:
            return [self.sigstruct("%s[%d]" % (name, i), dims[1:], bt, inst, kind) for i in range(dims[0])]
        if bt is None:
            lf = Leaf(inst.name + "." + name, inst, kind)
            self.leaves.append(lf)
            if kind == "input":
                inst.remaining += 1
            return lf
        b = self.buses[bt[0]]
        saved = self.scopes
        self.scopes = [{p: Slot(S(K, a)) for p, a in zip(b.params or [], bt[1])}]
        fields = {}
        decls = []
        for s in b.body:
            if isinstance(s, SigDecl):
                for (n, ds, _) in s.items:
                    decls.append((n, [self.known_int(d) for d in ds], None))
            elif isinstance(s, BusDecl):
                fb = self.mkbus(s.bus, [self.scalar(a) for a in (s.params or [])])
                for (n, ds, _) in s.items:
                    decls.append((n, [self.known_int(d) for d in ds], fb))
            else:
                self.st(s)
        for n, ds, fb in decls:
            fields[n] = self.sigstruct(name + "." + n, ds, fb, inst, kind)
        self.scopes = saved
        return BusNode(bt, fields)

    def declare(self, name, o):
        sc = self.scopes[-1]
        if name in sc:
            raise Reject("redeclared " + name)
        sc[name] = o

    def decl_sig(self, s):
        bt = None
        if type(s) is BusDecl:
            args = [self.scalar(a) for a in (s.params or [])]
            if any(a.k != K for a in args):
                raise Reject("unknown bus param")
            bt = self.mkbus(s.bus, args)
        for n, dims, init in s.items:
            ds = [self.known_int(d) for d in dims]
            st = self.sigstruct(n, ds, bt, self.inst, s.kind or "")
            self.inst.sigs[n] = st
            self.inst.kinds[n] = s.kind or ""
            self.declare(n, SigRef(st, s.kind or ""))
        for n, dims, init in s.items:
            if init is not None:
                v = self.ev(init)
                self.hstmt = s
                self.assign_sig(Var(n, []), s.op or "<==", v)

    # ------------------------------------------------------------ components
    def instantiate(self, name, tname, args, parent):
        self.tick()
        t = self.tmpls[tname]
        inst = Inst(name, t, args, parent)
        if parent is not None:
            parent.children.append(inst)
        saved = (self.scopes, self.unknown, self.inst, self.maybe_ret)
        self.inst = inst
        self.unknown = 0
        self.scopes = [{p: Slot(dcopy(a)) for p, a in zip(t.params, args)}]
        inst.scopes = self.scopes
        for s in t.body[:t.nheader or 0]:
            self.st(s)
        self.scopes, self.unknown, self.inst, self.maybe_ret = saved
        if inst.remaining == 0 and parent is not None:
            self.run(inst)
        return inst

    def run(self, inst):
        saved = (self.scopes, self.unknown, self.inst, self.maybe_ret)
        self.inst = inst
        self.unknown = 0
        self.scopes = inst.scopes
        inst.executed = True
        self.stat("instances")
        for s in inst.tmpl.body[inst.tmpl.nheader or 0:]:
            self.st(s)
        for ch in inst.children:
            if not ch.executed:
                raise Reject("component inputs not all set")
        self.scopes, self.unknown, self.inst, self.maybe_ret = saved

    def make(self, name, e):
        while isinstance(e, (Par, Paren)):
            e = e.e
        if not isinstance(e, Call) or e.name not in self.tmpls:
            raise Reject("type: template expected")
        args = [self.ev(a) for a in e.args]
        for a in args:
            mapv(a, self.need_known)
        return self.instantiate(self.inst.name + "." + name, e.name, args, self.inst)

    def need_known(self, x):
        if x.k != K:
            raise Reject("unknown template argument")
        return x

    def anon(self, e):
        args = [self.ev(a) for a in e.params]
        self.inst.anon += 1
        nm = "%s.%s$anon%d" % (self.inst.name, e.name, self.inst.anon)
        for a in args:
            mapv(a, self.need_known)
        inst = self.instantiate(nm, e.name, args, self.inst)
        self.stat("anon")
        ins = [n for n in inst.sigs if inst.kinds[n] == "input"]
        if e.names:
            m = {n: (op, i) for (op, n), i in zip(e.names, e.inputs)}
            order = [(n, m[n][0], m[n][1]) for n in ins]
        else:
            order = [(n, "<==", i) for n, i in zip(ins, e.inputs)]
        for n, op, i in order:
            self.put(inst.sigs[n], self.ev(i), op)
        return [self.read(inst.sigs[n], False) for n in inst.sigs if inst.kinds[n] == "output"]

    # ------------------------------------------------------------ statements
    def assign_var(self, lhs, v, slot=None):
        o = slot or self.lookup(lhs.name)
        if not isinstance(o, Slot):
            raise Reject("type: assign = to signal")
        v = dcopy(v)
        if self.unknown:
            v = mapv(v, lambda x: S(NQ, x.c))
        if not lhs.acc:
            o.v = self.fit(o.v, v)
            return
        st = o.v
        unk = False
        for n, (k, x) in enumerate(lhs.acc):
            if k != "i" or not isinstance(st, list):
                raise Reject("type: index")
            vi, i = self.idx(x, len(st))
            if vi.k != K:
                unk = True
            if n == len(lhs.acc) - 1:
                st[i] = self.fit(st[i], v)
            else:
                st = st[i]
        if unk:
            o.v = mapv(o.v, lambda x: S(NQ, x.c))

    def fit(self, old, v):
        if isinstance(old, list) != isinstance(v, list):
            raise Reject("type: dims")
        if isinstance(old, list):
            # only the common positions are assigned
            return [self.fit(a, b) for a, b in zip(old, v)] + old[len(v):]
        return v

    def assign_sig(self, lhs, op, v):
        o = self.lookup(lhs.name)
        if isinstance(o, SigRef):
            st, unk = self.walk(o.st, lhs.acc, False)
            if o.kind == "input":
                raise Reject("assign own input")
        elif isinstance(o, CompSlot):
            st, unk = self.walk(o.st, lhs.acc, False)
        else:
            raise Reject("type: signal assignment to variable")
        if unk:
            raise Reject("unknown index assign")
        if op == "<==" and self.unknown:
            raise Reject("constraint in unknown")
        self.put(st, v, op)

    def put(self, st, v, op):
        pend = []
        if op == "<--" and self.hstmt is not None:
            self.hint(v)
        self.put_rec(st, v, op, pend)
        for inst in pend:
            if inst.remaining == 0 and not inst.executed:
                self.run(inst)

    def hint(self, v):
        """which values assigned by the current statement could be constrained"""
        q = []

        def f(x):
            if isinstance(x, list):
                for y in x:
                    f(y)
            elif isinstance(x, BusVal):
                for y in x.fields.values():
                    f(y)
            else:
                q.append(x.k != NQ)
        f(v)
        self.hints.setdefault(id(self.hstmt), set()).add(
            "unknown" if self.unknown else "single" if all(q) else "multi" if any(q) else "none")

    def put_rec(self, st, v, op, pend):
        if isinstance(st, list):
            if not isinstance(v, list):
                raise Reject("type: dims")
            if len(st) != len(v):
                raise Reject("dims mismatch")
            for a, b in zip(st, v):
                self.put_rec(a, b, op, pend)
            return
        if isinstance(st, BusNode):
            if not isinstance(v, BusVal) or v.btype != st.btype:
                raise Reject("type: bus mismatch")
            for f in st.fields:
                self.put_rec(st.fields[f], v.fields[f], op, pend)
            return
        if not isinstance(st, Leaf) or not isinstance(v, S):
            raise Reject("type: assignment")
        if st.assigned:
            raise Reject("signal assigned twice")
        st.assigned = True
        st.c = v.c
        if op == "<==":
            self.constrain(S(LIN, st.c, {st.name: 1}), v, False)
        if st.kind == "input":
            st.inst.remaining -= 1
            pend.append(st.inst)

    def constrain(self, x, y, runtime):
        d = self.add(x, y, (x.c - y.c) % self.p, -1)
        if d.k == NQ:
            raise Reject("non quadratic")
        if d.k == K:
            abc = ({}, {}, {None: -d.c % self.p})
        elif d.k == LIN:
            abc = ({}, {}, self.lscale(d.s, -1))
        else:
            a, b, c = d.s
            abc = (a, b, self.lscale(c, -1))
        self.constraints.append(abc)
        self.consinst.append(self.inst)
        if runtime and d.c != 0:
            self.failed("constraint")

    def underscore(self, op, v):
        if op != "<==":
            return
        if isinstance(v, list):
            for x in v:
                self.underscore(op, x)
        elif isinstance(v, BusVal):
            for x in v.fields.values():
                self.underscore(op, x)
        else:
            if v.k == NQ:
                raise Reject("non quadratic")
            self.under.append((self.inst, v))

    def failed(self, what):
        if self.fail is None:
            self.fail = what

    def flat_eq(self, a, b):
        if isinstance(a, list):
            if not isinstance(b, list) or len(a) != len(b):
                raise Reject("dims mismatch")
            for x, y in zip(a, b):
                self.flat_eq(x, y)
        elif isinstance(a, BusVal):
            if not isinstance(b, BusVal) or a.btype != b.btype:
                raise Reject("type: bus mismatch")
            for f in a.fields:
                self.flat_eq(a.fields[f], b.fields[f])
        else:
            if not isinstance(a, S) or not isinstance(b, S):
                raise Reject("type: ===")
            self.constrain(a, b, True)

    def st(self, s):
        self.tick()
        t = type(s)
        if t is VarDecl:
            for n, dims, init in s.items:
                ds = [self.known_int(d) for d in dims]
                self.declare(n, Slot(self.zeros(ds)))
                if init is not None:
                    self.assign_var(Var(n, []), self.ev(init))
                elif self.unknown:
                    pass
        elif t is SigDecl or t is BusDecl:
            if self.unknown:
                raise Reject("declaration in unknown")
            self.decl_sig(s)
        elif t is CompDecl:
            if self.unknown:
                raise Reject("declaration in unknown")
            for n, dims, init in s.items:
                ds = [self.known_int(d) for d in dims]

                def mk(ds):
                    return [mk(ds[1:]) for _ in range(ds[0])] if ds else None
                self.declare(n, CompSlot(mk(ds), n))
                if init is not None:
                    self.lookup(n).st = self.make(n, init)
        elif t is TupDecl:
            for n, ds in s.names:
                if s.what == "var":
                    self.st(VarDecl([(n, ds, None)]))
                elif s.what.startswith("signal"):
                    kind = s.what.split(" ")[1] if " " in s.what else ""
                    self.st(SigDecl(kind, [], [(n, ds, None)], "<=="))
                else:
                    self.st(CompDecl([(n, ds, None)]))
            if s.rhs is not None:
                self.tstmt = s
                self.tuple_assign([Var(n, []) for n, _ in s.names], s.op, s.rhs)
        elif t is Assign:
            if isinstance(s.lhs, Tup):
                self.tstmt = s
                self.tuple_assign(s.lhs.items, s.op, s.rhs)
            elif isinstance(s.lhs, Under):
                self.underscore(s.op, self.ev(s.rhs))
            elif s.op in ("<==", "<--"):
                self.stat(s.op)
                v = self.ev(s.rhs)
                self.hstmt = self.htuple or s
                self.assign_sig(s.lhs, s.op, v)
            elif s.op == "=":
                o = self.lookup(s.lhs.name)
                if isinstance(o, CompSlot):
                    if self.unknown:
                        raise Reject("component in unknown")
                    self.assign_comp(o, s.lhs, s.rhs)
                else:
                    v = self.ev(s.rhs)
                    self.assign_var(s.lhs, v)
            else:
                old = self.scalar(s.lhs)
                self.assign_var(s.lhs, self.binop(s.op[:-1], old, self.scalar(s.rhs)))
        elif t is Inc:
            old = self.scalar(s.lhs)
            self.assign_var(s.lhs, self.binop(s.op[0], old, S(K, 1)))
        elif t is Constr:
            self.stat("===")
            if self.unknown:
                raise Reject("constraint in unknown")
            self.flat_eq(self.ev(s.a), self.ev(s.b))
        elif t is If:
            c = self.scalar(s.c)
            if c.k == K:
                self.stat("if_known")
                if c.c:
                    self.st(s.t)
                elif s.e is not None:
                    self.st(s.e)
            else:
                self.stat("if_unknown")
                self.in_unknown(s.t if c.c else s.e, s)
        elif t is While:
            self.loop(s.c, s.body, None)
        elif t is For:
            self.scopes.append({})
            self.st(s.init)
            self.loop(s.c, s.body, s.step)
            self.scopes.pop()
        elif t is Assert:
            v = self.scalar(s.e)
            self.stat("assert")
            if v.c == 0:
                if v.k == K and not (self.unknown or self.maybe_ret or self.call_unk):
                    raise Reject("assert")
                self.failed("assert")
        elif t is Log:
            out = []
            for a in s.args:
                out.append(a if isinstance(a, str) else str(self.scalar(a).c))
            self.logs.append(out)
            self.logsrc.append(self.inst.name if self.inst else '')
        elif t is Return:
            v = self.ev(s.e)
            if self.unknown or self.maybe_ret:
                v = mapv(v, lambda x: S(NQ, x.c))
            raise Ret(v)
        elif t is Block:
            self.scopes.append({})
            n = len(self.scopes)
            try:
                for x in s.stmts:
                    self.st(x)
            finally:
                del self.scopes[n - 1:]
        elif t is ExprStmt:
            self.ev(s.e)
        else:
            raise AssertionError(s)

    def in_unknown(self, branch, whole):
        names = assigned_names(whole, set())
        self.unknown += 1
        try:
            if branch is not None:
                self.st(branch)
        finally:
            self.unknown -= 1
        self.taint(names)

    def taint(self, names):
        if "<return>" in names:
            self.maybe_ret = self.fuzzy = True
        for n in names:
            for sc in reversed(self.scopes):
                if n in sc:
                    o = sc[n]
                    if isinstance(o, Slot):
                        self.fuzzy = True           # (perhaps not in the compiler)
                        o.v = mapv(o.v, lambda x: S(NQ, x.c))
                    break

    def loop(self, cond, body, step):
        unk = 0
        names = None
        try:
            while True:
                self.tick()
                c = self.scalar(cond)
                if c.k != K and not unk:
                    unk = 1
                    self.stat("while_unknown")
                    self.unknown += 1
                    names = assigned_names(body, set())
                    if step is not None:
                        assigned_names(step, names)
                if not c.c:
                    break
                self.st(body)
                if step is not None:
                    self.st(step)
        finally:
            if unk:
                self.unknown -= 1
        if unk:
            self.taint(names)

    def assign_comp(self, o, lhs, rhs):
        name = lhs.name
        st = o.st
        if not lhs.acc:
            if o.st is not None:
                raise Reject("component assigned twice")
            o.st = self.make(name, rhs)
            return
        for n, (k, x) in enumerate(lhs.acc):
            v, i = self.idx(x, len(st))
            if v.k != K:
                raise Reject("unknown component index")
            name += "[%d]" % i
            if n == len(lhs.acc) - 1:
                if st[i] is not None:
                    raise Reject("component assigned twice")
                st[i] = self.make(name, rhs)
            else:
                st = st[i]

    def tuple_assign(self, items, op, rhs):
        while isinstance(rhs, Paren):
            rhs = rhs.e
        if isinstance(rhs, Tup):
            # documented as equivalent to the element-wise statements
            if len(items) != len(rhs.items):
                raise Reject("tuple size")
            for i, r in zip(items, rhs.items):
                self.htuple = self.tstmt
                self.st(Assign(i, op, r))
                self.htuple = None
            return
        if isinstance(rhs, Anon):
            outs = self.anon(rhs)
            if len(outs) != len(items):
                raise Reject("tuple size")
            for i, v in zip(items, outs):
                if isinstance(i, Under):
                    continue
                if op == "=":
                    self.assign_var(i, v)
                else:
                    self.assign_sig(i, op, v)
            return
        raise Reject("type: tuple")

    # ------------------------------------------------------------ entry
    def start(self, inputs):
        """inputs: main input name -> nested lists / dicts of ints"""
        e = self.prog.main.e
        saved_inst = Inst("<root>", None, [], None)
        self.inst = saved_inst
        self.scopes = [{}]
        args = [self.ev(a) for a in e.args]
        m = self.instantiate("main", e.name, args, None)
        self.main = m
        for n in m.sigs:
            if m.kinds[n] == "input":
                self.set_in(m.sigs[n], inputs[n])
        assert m.remaining == 0
        self.run(m)
        return self

    def set_in(self, st, v):
        if isinstance(st, list):
            assert len(st) == len(v)
            for a, b in zip(st, v):
                self.set_in(a, b)
        elif isinstance(st, BusNode):
            for f in st.fields:
                self.set_in(st.fields[f], v[f])
        else:
            st.assigned = True
            st.c = v % self.p
            st.inst.remaining -= 1

    def values(self):
        return {l.name: l.c for l in self.leaves}


def main_shape(prog, prime="bn128"):
    """Input/output structure of main: (inst) without running its body."""
    it = Interp(prog, prime)
    it.inst = Inst("<root>", None, [], None)
    it.scopes = [{}]
    args = [it.ev(a) for a in prog.main.e.args]
    it.main = it.instantiate("main", prog.main.e.name, args, None)
    return it.main


def poly(abc, p):
    """Expanded polynomial A*B - C as a frozenset-able canonical form (up to scalar)."""
    A, B, C = abc
    r = {}
    for x, u in A.items():
        if u % p == 0:
            continue
        for y, v in B.items():
            if x is None:
                k = () if y is None else (y,)
            elif y is None:
                k = (x,)
            else:
                k = (x, y) if x <= y else (y, x)
            r[k] = (r.get(k, 0) + u * v) % p
    for x, u in C.items():
        k = () if x is None else (x,)
        r[k] = (r.get(k, 0) - u) % p
    return {k: v for k, v in r.items() if v % p}


def canon(pl, p):
    """Canonical key of the constraint pl = 0 (None when trivially true)."""
    if not pl:
        return None
    items = sorted(pl.items())
    inv = pow(items[-1][1], -1, p)
    return tuple((k, v * inv % p) for k, v in items)
