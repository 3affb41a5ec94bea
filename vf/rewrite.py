"""Rewritings of programs (AST of lang.py) that keep their meaning."""
import copy, re
from .lang import *
from .interp import assigned_names

EXPR = (Num, Var, Bin, Un, Tern, Call, Arr, Anon, Tup, Under, Par, Paren)


def V(n, *acc):
    return Var(n, list(acc))


def clone(x):
    return copy.deepcopy(x)


def map_expr(f, e, ctx="e"):
    """bottom-up; f(node, ctx) -> node; ctx: 'e' value, 'inst' instantiation (call of a template), 'idx' index"""
    t = type(e)
    if t is Var:
        e = Var(e.name, [(k, map_expr(f, v, "idx") if k == "i" else v) for k, v in e.acc])
    elif t is Bin:
        e = Bin(e.op, map_expr(f, e.a), map_expr(f, e.b))
    elif t is Un:
        e = Un(e.op, map_expr(f, e.a))
    elif t is Tern:
        e = Tern(map_expr(f, e.c), map_expr(f, e.a, ctx), map_expr(f, e.b, ctx))
    elif t is Call:
        e = Call(e.name, [map_expr(f, a) for a in e.args])
    elif t is Arr:
        e = Arr([map_expr(f, a) for a in e.items])
    elif t is Anon:
        e = Anon(e.name, [map_expr(f, a) for a in e.params], [map_expr(f, a) for a in e.inputs], e.names, e.par)
    elif t is Tup:
        e = Tup([map_expr(f, a, ctx) for a in e.items])
    elif t is Par:
        e = Par(map_expr(f, e.e, "inst"))
    elif t is Paren:
        e = Paren(map_expr(f, e.e, ctx))
    return f(e, ctx)


def map_stmt(fe, s, comps=()):
    """applies fe to the expressions of a statement, recursively; left-hand sides keep their head"""
    def x(e, ctx="e"):
        return None if e is None else map_expr(fe, e, ctx)

    def lhs(e):
        if type(e) is Var:
            return Var(e.name, [(k, x(v, "idx") if k == "i" else v) for k, v in e.acc])
        if type(e) is Tup:
            return Tup([lhs(y) for y in e.items])
        return e

    def items(it, ctx="e"):
        return [(n, [x(d) for d in ds], x(i, ctx)) for n, ds, i in it]
    t = type(s)
    r = lambda y: None if y is None else map_stmt(fe, y, comps)
    if t is VarDecl:
        return VarDecl(items(s.items))
    if t is CompDecl:
        return CompDecl(items(s.items, "inst"))
    if t is SigDecl:
        return SigDecl(s.kind, s.tags, items(s.items), s.op, s.kfirst)
    if t is BusDecl:
        return BusDecl(s.bus, None if s.params is None else [x(a) for a in s.params], s.kind, s.tags, items(s.items), s.op, s.kfirst)
    if t is TupDecl:
        return TupDecl(s.what, [(n, [x(d) for d in ds]) for n, ds in s.names], s.op, x(s.rhs))
    if t is Assign:
        inst = s.op == "=" and type(s.lhs) is Var and s.lhs.name in comps and not any(k == "f" for k, _ in s.lhs.acc)
        return Assign(lhs(s.lhs), s.op, x(s.rhs, "inst" if inst else "e"), s.flip)
    if t is Inc:
        return Inc(lhs(s.lhs), s.op)
    if t is Constr:
        return Constr(x(s.a), x(s.b))
    if t is If:
        return If(x(s.c), r(s.t), r(s.e))
    if t is While:
        return While(x(s.c), r(s.body))
    if t is For:
        return For(r(s.init), x(s.c), r(s.step), r(s.body))
    if t is Assert:
        return Assert(x(s.e))
    if t is Log:
        return Log([a if isinstance(a, str) else x(a) for a in s.args])
    if t is Return:
        return Return(x(s.e))
    if t is Block:
        return Block([r(y) for y in s.stmts])
    if t is ExprStmt:
        return ExprStmt(x(s.e))
    return s


def comp_names(body):
    out = set()

    def go(s):
        t = type(s)
        if t is CompDecl:
            out.update(n for n, _, _ in s.items)
        elif t is TupDecl and s.what == "component":
            out.update(n for n, _ in s.names)
        elif t is If:
            go(s.t)
            if s.e is not None:
                go(s.e)
        elif t in (While, For):
            go(s.body)
        elif t is Block:
            for y in s.stmts:
                go(y)
    for s in body:
        go(s)
    return out


def has(node, cls):
    found = []

    def f(e, ctx):
        if type(e) in cls:
            found.append(e)
        return e
    if isinstance(node, EXPR):
        map_expr(f, node)
    else:
        map_stmt(f, node)
    return bool(found)


def exprs(pr, fe):
    """program with fe applied to the expressions of the bodies"""
    defs = []
    for d in pr.defs:
        cs = comp_names(d.body)
        body = [map_stmt(fe, s, cs) for s in d.body]
        e = copy.copy(d)
        e.body = body
        defs.append(e)
    return Program(defs, pr.main, pr.pragmas)


# ---------------------------------------------------------------- abbreviations -> expansions
class Sugar:
    """expands abbreviations; every kind of rewriting is applied to each place with some probability"""

    def __init__(self, ch, pr, kinds, prob=60):
        self.ch = ch
        self.kinds = kinds
        self.prob = prob
        self.pr = pr
        self.n = 0
        self.used = {}
        self.templates = {d.name: d for d in pr.defs if type(d) is Template}
        self.buses = {d.name: d for d in pr.defs if type(d) is Bus}

    def on(self, k):
        if k not in self.kinds or not self.ch.chance(self.prob):
            return False
        self.used[k] = self.used.get(k, 0) + 1
        return True

    def fresh(self, p):
        self.n += 1
        return "zz%s%d" % (p, self.n)

    def program(self):
        defs = []
        for d in self.pr.defs:
            e = copy.copy(d)
            if type(d) is not Bus:
                e.body = self.body_of(d)
            defs.append(e)
        return Program(defs, self.pr.main, self.pr.pragmas)

    def body_of(self, d):
        self.cur = d
        self.decl = {}
        self.anon = type(d) is Template and "anon" in self.kinds and not self.anon_in_loop(d.body, False) and self.ch.chance(70)
        self.nanon = 0
        cs = comp_names(d.body)
        if "operators" in self.kinds:
            body = [map_stmt(self.operator, s, cs) for s in d.body]
        else:
            body = d.body
        return self.stmts(body)

    def anon_in_loop(self, body, inloop):
        for s in body:
            t = type(s)
            if t in (While, For):
                if self.anon_in_loop([s.body], True):
                    return True
            elif t is Block:
                if self.anon_in_loop(s.stmts, inloop):
                    return True
            elif t is If:
                if self.anon_in_loop([s.t] + ([s.e] if s.e is not None else []), inloop):
                    return True
            elif inloop and has(s, (Anon,)):
                return True
        return False

    def operator(self, e, ctx):
        t = type(e)
        if ctx != "e":
            return e
        if t is Un and e.op == "-" and self.on("operators"):
            return Paren(Bin("-", Num(0), Paren(e.a)))
        if t is Bin and e.op in ("!=", ">", ">=", "<=", "-") and self.on("operators"):
            a, b = Paren(e.a), Paren(e.b)
            if e.op == "!=":
                return Paren(Un("!", Paren(Bin("==", a, b))))
            if e.op == ">":
                return Paren(Bin("<", b, a))
            if e.op == ">=":
                return Paren(Un("!", Paren(Bin("<", a, b))))
            if e.op == "<=":
                return Paren(Bin(">=", b, a))
            return Paren(Bin("+", a, Paren(Un("-", b))))
        return e

    def stmts(self, body):
        out = []
        for s in body:
            out += self.stmt(s)
        return out

    def block(self, s):
        if type(s) is Block:
            return Block(self.stmts(s.stmts))
        r = self.stmt(s)
        return r[0] if len(r) == 1 and type(r[0]) not in (VarDecl, SigDecl, CompDecl, BusDecl) else Block(r)

    def stmt(self, s):
        t = type(s)
        if self.anon and t in (Assign, SigDecl, BusDecl, TupDecl, Constr, ExprStmt) and has(s, (Anon,)):
            self.used["anon"] = self.used.get("anon", 0) + 1
            pre = []
            s = self.expand_anon(s, pre)
            return pre + [y for x in s for y in self.stmt(x)]
        if t in (SigDecl, BusDecl, VarDecl, CompDecl):
            return self.decls(s, t)
        if t is TupDecl and s.what == "signal" and self.on("tuples"):
            for n, ds in s.names:
                self.decl[n] = ("sig", ds)
            return [SigDecl("", [], [(n, ds, None)], None, False) for n, ds in s.names] + \
                ([Assign(Tup([V(n) for n, _ in s.names]), s.op, s.rhs)] if s.rhs is not None else [])
        if t is Assign:
            return self.assign(s)
        if t is Inc and self.on("compound"):
            return [Assign(s.lhs, "=", Bin(s.op[0], clone(s.lhs), Num(1)))]
        if t is Constr:
            return self.equality(s)
        if t is Block:
            return [Block(self.stmts(s.stmts))]
        if t is If:
            a, b = self.block(s.t), self.block(s.e) if s.e is not None else None
            if b is not None and self.on("negated_if"):
                return [If(Un("!", Paren(s.c)), b if type(b) is Block else Block([b]), a if type(a) is Block else Block([a]))]
            return [If(s.c, a, b)]
        if t is While:
            return [While(s.c, self.block(s.body))]
        if t is For:
            return self.loop(s)
        return [s]

    def decls(self, s, t):
        out = []
        sp = self.on("split_decl")
        for n, ds, i in s.items:
            if t is SigDecl:
                self.decl[n] = ("sig", ds)
            elif t is BusDecl:
                self.decl[n] = ("bus", ds, s.bus, s.params or [])
        if not sp or (t is VarDecl and any(type(i) is Tup for _, _, i in s.items)):
            return [s]
        for n, ds, i in s.items:
            c = copy.copy(s)
            c.items = [(n, ds, None)]
            out.append(c)
            if i is not None:
                a = Assign(V(n), (getattr(s, "op", None) or "<==") if t in (SigDecl, BusDecl) else "=", i, False)
                out += self.assign(a) if t is not CompDecl else [a]
        return out

    def same_array(self, a, b):
        """loops over the elements: (names of indexes, dims) when a and b are whole arrays of signals of the same size"""
        if type(a) is not Var or type(b) is not Var or a.acc or b.acc or a.name == b.name:
            return None
        x, y = self.decl.get(a.name), self.decl.get(b.name)
        if not x or not y or x[0] != "sig" or y[0] != "sig" or not x[1]:
            return None
        if repr(x[1]) != repr(y[1]) or any(has(d, (Call,)) for d in x[1]):
            return None
        return x[1]

    def over(self, dims, f):
        """nested loops"""
        ix = [self.fresh("i") for _ in dims]
        s = f([("i", V(i)) for i in ix])
        for i, d in reversed(list(zip(ix, dims))):
            s = For(VarDecl([(i, [], Num(0))]), Bin("<", V(i), Paren(d)), Inc(V(i), "++"), s if type(s) in (For, Block) else Block([s]))
        return s

    def same_bus(self, a, b):
        if type(a) is not Var or type(b) is not Var or a.acc or b.acc or a.name == b.name:
            return None
        x, y = self.decl.get(a.name), self.decl.get(b.name)
        if not x or not y or x[0] != "bus" or y[0] != "bus" or x[2] != y[2] or repr(x[1]) != repr(y[1]) or repr(x[3]) != repr(y[3]):
            return None
        return x

    def fields(self, name, params, depth=0):
        """[(path dims, steps)] of the leaves of a bus; None if it is not simple"""
        d = self.buses[name]
        env = dict(zip(d.params or [], params))

        def sub(e, ctx):
            return Paren(clone(env[e.name])) if type(e) is Var and e.name in env and not e.acc else e
        out = []
        for s in d.body:
            if type(s) is SigDecl:
                for n, ds, i in s.items:
                    out.append([("f", n)] + [("d", map_expr(sub, x)) for x in ds])
            elif type(s) is BusDecl:
                inner = self.fields(s.bus, [map_expr(sub, x) for x in s.params or []], depth + 1)
                if inner is None:
                    return None
                for n, ds, i in s.items:
                    for path in inner:
                        out.append([("f", n)] + [("d", map_expr(sub, x)) for x in ds] + path)
            else:
                return None
        return out

    def per_field(self, a, b, make):
        x = self.same_bus(a, b)
        if x is None:
            return None
        fs = self.fields(x[2], x[3])
        if fs is None:
            return None
        out = []
        for path in fs:
            path = [("d", d) for d in x[1]] + path
            dims = [d for k, d in path if k == "d"]

            def body(ix, path=path):
                it = iter(ix)
                acc = [next(it) if k == "d" else (k, v) for k, v in path]
                return make(Var(a.name, acc), Var(b.name, clone(acc)))
            out.append(self.over(dims, body) if dims else body([]))
        return out

    def assign(self, s):
        op = s.op
        if type(s.lhs) is Tup:
            if type(s.rhs) is Tup and len(s.rhs.items) == len(s.lhs.items) and self.on("tuples"):
                return [y for a, b in zip(s.lhs.items, s.rhs.items) if type(a) is not Under for y in self.assign(Assign(a, op, b, False))]
            return [s]
        if op == "=" and type(s.rhs) is Tern and self.on("ternary"):
            return [If(s.rhs.c, Block([Assign(s.lhs, "=", s.rhs.a)]), Block([Assign(clone(s.lhs), "=", s.rhs.b)]))]
        if op not in ("=", "<==", "<--") and self.on("compound"):
            return [Assign(s.lhs, "=", Bin(op[:-1], clone(s.lhs), Paren(s.rhs)))]
        if op in ("<==", "<--") and type(s.lhs) is Under:
            return [Assign(s.lhs, op, s.rhs, not s.flip)] if self.on("flip") else [s]
        if op in ("<==", "<--"):
            if type(self.cur) is Template and self.same_array(s.lhs, s.rhs) and self.on("array_copy"):
                d = self.same_array(s.lhs, s.rhs)
                return [self.over(clone(d), lambda ix: Assign(Var(s.lhs.name, list(ix)), op, Var(s.rhs.name, clone(ix)), False))]
            if self.same_bus(s.lhs, s.rhs) and self.on("bus_copy"):
                r = self.per_field(s.lhs, s.rhs, lambda a, b: Assign(a, op, b, False))
                if r:
                    return r
            if op == "<==" and not has(s.rhs, (Anon, Tup)) and self.on("double_arrow"):
                return [Assign(s.lhs, "<--", s.rhs, s.flip), Constr(clone(s.lhs), clone(s.rhs)) if self.ch.draw(2) else Constr(clone(s.rhs), clone(s.lhs))]
            if self.on("flip"):
                return [Assign(s.lhs, op, s.rhs, not s.flip)]
        return [s]

    def equality(self, s):
        d = self.same_array(s.a, s.b)
        if d and self.on("array_equality"):
            return [self.over(clone(d), lambda ix: Constr(Var(s.a.name, list(ix)), Var(s.b.name, clone(ix))))]
        if self.same_bus(s.a, s.b) and self.on("bus_equality"):
            r = self.per_field(s.a, s.b, Constr)
            if r:
                return r
        return [s]

    def loop(self, s):
        i = s.init
        if type(i) is VarDecl and len(i.items) == 1 and type(i.items[0][2]) is Num and type(s.c) is Bin and s.c.op == "<" \
                and type(s.c.a) is Var and s.c.a.name == i.items[0][0] and type(s.c.b) is Num and s.c.b.v <= 6 \
                and type(s.step) is Inc and s.step.op == "++" and s.step.lhs.name == i.items[0][0] and "unroll" in self.kinds:
            acc = set()
            assigned_names(s.body, acc)
            if i.items[0][0] not in acc and not has_decl(s.body) and self.on("unroll"):
                out = []
                for k in range(i.items[0][2].v, s.c.b.v):
                    out.append(Block([VarDecl([(i.items[0][0], [], Num(k))])] + (clone(self.block(s.body)).stmts if type(s.body) is Block else self.stmts([clone(s.body)]))))
                return out or [Block([])]
        b = self.block(s.body)
        if self.on("for_while"):
            st = self.stmt(s.step)
            inner = (b.stmts if type(b) is Block else [b])
            body = [Block(inner)] + st if any(type(x) is VarDecl for x in inner) else inner + st
            return [Block(self.stmts([i]) + [While(s.c, Block(body))])]
        return [For(i, s.c, s.step, b)]

    # anonymous components
    def ports(self, t, kind):
        out = []
        for s in t.body:
            if type(s) in (SigDecl, BusDecl) and s.kind == kind:
                out += [n for n, _, _ in s.items]
        return out

    def expand(self, e, pre):
        """expression with the anonymous components replaced; e itself may be one with several outputs (returns a Tup)"""
        t = type(e)
        if t is Anon:
            self.nanon += 1
            name = "zzan%d" % self.nanon
            td = self.templates[e.name]
            ins = [self.expand(i, pre) for i in e.inputs]
            inst = Call(e.name, e.params)
            pre.append(CompDecl([(name, [], Par(inst) if e.par else inst)]))
            if e.names:
                for (op, n), i in zip(e.names, ins):
                    pre.append(Assign(V(name, ("f", n)), op, i, False))
            else:
                for n, i in zip(self.ports(td, "input"), ins):
                    pre.append(Assign(V(name, ("f", n)), "<==", i, False))
            outs = [V(name, ("f", n)) for n in self.ports(td, "output")]
            return outs[0] if len(outs) == 1 else Tup(outs)
        if t is Bin:
            return Bin(e.op, self.expand(e.a, pre), self.expand(e.b, pre))
        if t is Un:
            return Un(e.op, self.expand(e.a, pre))
        if t is Paren:
            return Paren(self.expand(e.e, pre))
        if t is Tup:
            return Tup([self.expand(a, pre) for a in e.items])
        if t is Arr:
            return Arr([self.expand(a, pre) for a in e.items])
        if t is Call:
            return Call(e.name, [self.expand(a, pre) for a in e.args])
        if t is Tern:
            return Tern(self.expand(e.c, pre), self.expand(e.a, pre), self.expand(e.b, pre))
        return e

    def expand_anon(self, s, pre):
        t = type(s)
        if t is Assign:
            r = self.expand(s.rhs, pre)
            if type(s.lhs) is Tup and type(r) is Tup:
                return [Assign(a, s.op, b, False) for a, b in zip(s.lhs.items, r.items) if type(a) is not Under]
            return [] if type(s.lhs) is Under else [Assign(s.lhs, s.op, r, s.flip)]
        if t in (SigDecl, BusDecl):
            c = copy.copy(s)
            c.items = [(n, ds, None if i is None else self.expand(i, pre)) for n, ds, i in s.items]
            return [c]
        if t is TupDecl:
            r = self.expand(s.rhs, pre)
            assert type(r) is Tup and s.what == "signal"
            return [SigDecl("", [], [(n, ds, None)], None, False) for n, ds in s.names] + [
                Assign(V(n), s.op, b, False) for (n, _), b in zip(s.names, r.items)]
        if t is Constr:
            return [Constr(self.expand(s.a, pre), self.expand(s.b, pre))]
        self.expand(s.e, pre)
        return []


def has_decl(s):
    t = type(s)
    if t in (SigDecl, BusDecl, CompDecl, TupDecl):
        return True
    if t is Block:
        return any(has_decl(x) for x in s.stmts)
    if t is If:
        return has_decl(s.t) or (s.e is not None and has_decl(s.e))
    if t in (While, For):
        return has_decl(s.body)
    return has(s, (Anon,))


KINDS = ["anon", "tuples", "compound", "negated_if", "split_decl", "array_copy", "bus_copy", "double_arrow", "flip", "array_equality", "bus_equality",
         "for_while", "unroll", "ternary", "operators"]

ANONRE = re.compile(r"^(?:[A-Za-z$_][\w$]*_(\d+)_(\d+)|zzan(\d+))((?:\[\d+\])*)$")


def anon_map(names, templates):
    """{name in the .sym file: name where the anonymous components of each parent are numbered in order}"""
    kids = {}
    for n in names:
        parts = n.split(".")
        for i in range(1, len(parts)):
            m = ANONRE.match(parts[i])
            if m and (m.group(3) or re.sub(r"_\d+_\d+(\[\d+\])*$", "", parts[i]) in templates):
                kids.setdefault(tuple(parts[:i]), {})[re.sub(r"\[.*", "", parts[i])] = (0, int(m.group(3))) if m.group(3) else (int(m.group(1)), int(m.group(2)))
    num = {p: {n: "#%d" % k for k, n in enumerate(sorted(d, key=lambda n: d[n][1]))} for p, d in kids.items()}
    out = {}
    for n in names:
        parts = n.split(".")
        new = []
        for i, x in enumerate(parts):
            m = num.get(tuple(parts[:i]), {})
            b, _, r = x.partition("[")
            new.append(m[b] + (("[" + r) if r else "") if b in m else x)
        out[n] = ".".join(new)
    return out
