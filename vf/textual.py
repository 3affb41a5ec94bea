"""Changes of the text of a program that do not matter: names of what is not a signal or a component, layout, comments, parentheses, notation of the
numbers, braces, order of the definitions, division in files."""
import copy
from .lang import *
from . import rewrite, mutate

COMMENTS = ["/* c */", "/**/", "/* \" */", "/* // */", "/***/", "/* a\n b */", "/* signal x; */", "// c\n", "//\n", "// /*\n", "// \"\n", "//*/\n", "/* * / */", "// \u00e9 \u4e16\n"]
BLANKS = [" ", "\n", "\t", "\r\n", "  ", "\n\n", " \t "]


def layout(ch, s, density=25):
    """other blanks and comments between the tokens"""
    out = []
    toks = mutate.tokens(s)
    for i, t in enumerate(toks):
        if t.strip() == "" or t.startswith(("//", "/*")):
            nl = "\n" if t.startswith("//") else ""
            t = " " if t.startswith(("//", "/*")) and not ch.chance(50) else t + nl
            if ch.chance(density):
                t = ch.pick(BLANKS)
            if ch.chance(density):
                t = t + ch.pick(COMMENTS) + ch.pick(["", " "])
            out.append(t)
        else:
            out.append(t)
            n = toks[i + 1] if i + 1 < len(toks) else ""
            if n.strip() and ch.chance(density) and not ((t == "circom" or toks[max(0, i - 2)] == "circom" or t[0].isdigit() and n == ".") or t == "pragma"):
                out.append(ch.pick(BLANKS + COMMENTS))
    return "".join(out)


def squeeze(s):
    """no blanks at all where they are not needed"""
    out = ""
    toks = mutate.tokens(s)
    for i, t in enumerate(toks):
        if t.strip() == "":
            n = toks[i + 1] if i + 1 < len(toks) else ""
            a, b = out[-1:] or " ", n[:1] or " "
            word = lambda c: c.isalnum() or c in "_$"
            if word(a) and word(b) or (not word(a) and not word(b) and a not in "()[]{};,\"" and b not in "()[]{};,\""):
                t = " "
            else:
                t = ""
        out += t
    return out


def parens(ch, pr, prob=20):
    def f(e, ctx):
        if ctx == "e" and type(e) in (Num, Var, Bin, Un, Tern, Call) and ch.chance(prob):
            return Paren(Paren(e)) if ch.draw(4) == 0 else Paren(e)
        return e
    return rewrite.exprs(pr, f)


def numbers(ch, pr, p, prob=40):
    def f(e, ctx):
        if type(e) is Num and ch.chance(prob):
            k = ch.draw(4)
            if k == 0 and ctx == "e":
                return Num(e.v, not e.hex)
            if k == 1 and ctx == "e":
                return Num(e.v % p + p * ch.int(0, 3), ch.draw(2))
            return Num(e.v, 1)
        return e
    return rewrite.exprs(pr, f)


def braces(ch, pr, prob=50):
    def st(s):
        t = type(s)
        if t is Block:
            return Block([st(x) for x in s.stmts])
        if t is If:
            return If(s.c, sub(s.t), None if s.e is None else sub(s.e))
        if t is While:
            return While(s.c, sub(s.body))
        if t is For:
            return For(s.init, s.c, s.step, sub(s.body))
        return s

    def sub(s):
        if type(s) is Block:
            if len(s.stmts) == 1 and type(s.stmts[0]) in (Assign, Constr, Log, Assert, Return, Inc, For, While) and ch.chance(prob):
                return st(s.stmts[0])
            return Block([st(x) for x in s.stmts])
        return Block([st(s)]) if ch.chance(prob) else st(s)
    return with_bodies(pr, lambda d: [st(s) for s in d.body])


def with_bodies(pr, f):
    defs = []
    for d in pr.defs:
        e = copy.copy(d)
        e.body = f(d)
        defs.append(e)
    return Program(defs, pr.main, pr.pragmas)


# ------------------------------------------------------------------ names
class Names:
    """occurrences of the names of a definition, each resolved to its declaration"""

    def __init__(self, d):
        self.decls = []          # [name, kind, scope]
        self.uses = []           # declaration index or None
        self.scopes = [{}]
        self.parent = {0: None}
        self.d = d
        self.out = None

    def run(self, rename=None):
        """rename: {declaration index: name}; returns the definition with the names (a copy)"""
        self.decls, self.uses, self.scopes = [], [], [{}]
        self.rename = rename or {}
        d = copy.copy(self.d)
        if d.params:
            d.params = [self.declare(p, "var") for p in d.params]
        d.body = [self.st(s) for s in self.d.body]
        return d

    def declare(self, name, kind):
        i = len(self.decls)
        n = self.rename.get(i, name)
        dup = n in self.scopes[-1]
        self.decls.append((n, kind, dup))
        self.scopes[-1][n] = i
        self.orig = name
        self.names[-1][name] = i
        return n

    # two tables: by the original names (to know what an occurrence means) and by the new ones (to see what it would mean)
    def e(self, x):
        if x is None:
            return None
        t = type(x)
        if t is Var:
            acc = [(k, self.e(v) if k == "i" else v) for k, v in x.acc]
            i = next((s[x.name] for s in reversed(self.names) if x.name in s), None)
            n = self.decls[i][0] if i is not None else x.name
            j = next((s[n] for s in reversed(self.scopes) if n in s), None)
            self.uses.append((i, j))
            return Var(n, acc)
        if t is Bin:
            return Bin(x.op, self.e(x.a), self.e(x.b))
        if t is Un:
            return Un(x.op, self.e(x.a))
        if t is Tern:
            return Tern(self.e(x.c), self.e(x.a), self.e(x.b))
        if t is Call:
            return Call(x.name, [self.e(a) for a in x.args])
        if t is Arr:
            return Arr([self.e(a) for a in x.items])
        if t is Anon:
            return Anon(x.name, [self.e(a) for a in x.params], [self.e(a) for a in x.inputs], x.names, x.par)
        if t is Tup:
            return Tup([self.e(a) for a in x.items])
        if t is Par:
            return Par(self.e(x.e))
        if t is Paren:
            return Paren(self.e(x.e))
        return x

    def items(self, it, kind):
        out = []
        for n, ds, i in it:
            for d in ds:
                self.e(d)
            self.e(i)
            n = self.declare(n, kind)      # (the new name is visible in its own initialisation)
            out.append((n, [self.e(d) for d in ds], self.e(i)))
        return out

    def enter(self):
        self.scopes.append({})
        self.names.append({})

    def leave(self):
        self.scopes.pop()
        self.names.pop()

    def st(self, s):
        t = type(s)
        if t is VarDecl:
            return VarDecl(self.items(s.items, "var"))
        if t is CompDecl:
            return CompDecl(self.items(s.items, "wire"))
        if t is SigDecl:
            return SigDecl(s.kind, s.tags, self.items(s.items, "wire"), s.op, s.kfirst)
        if t is BusDecl:
            return BusDecl(s.bus, None if s.params is None else [self.e(a) for a in s.params], s.kind, s.tags, self.items(s.items, "wire"), s.op, s.kfirst)
        if t is TupDecl:
            self.e(s.rhs)
            ns = [(self.declare(n, "var" if s.what == "var" else "wire"), [self.e(d) for d in ds]) for n, ds in s.names]
            return TupDecl(s.what, ns, s.op, self.e(s.rhs))
        if t is Assign:
            return Assign(self.e(s.lhs), s.op, self.e(s.rhs), s.flip)
        if t is Inc:
            return Inc(self.e(s.lhs), s.op)
        if t is Constr:
            return Constr(self.e(s.a), self.e(s.b))
        if t is If:
            return If(self.e(s.c), self.sub(s.t), None if s.e is None else self.sub(s.e))
        if t is While:
            return While(self.e(s.c), self.sub(s.body))
        if t is For:
            self.enter()
            r = For(self.st(s.init), self.e(s.c), self.st(s.step), self.sub(s.body))
            self.leave()
            return r
        if t is Assert:
            return Assert(self.e(s.e))
        if t is Log:
            return Log([a if isinstance(a, str) else self.e(a) for a in s.args])
        if t is Return:
            return Return(self.e(s.e))
        if t is ExprStmt:
            return ExprStmt(self.e(s.e))
        if t is Block:
            return self.sub(s)
        return s

    def sub(self, s):
        self.enter()
        r = Block([self.st(x) for x in s.stmts]) if type(s) is Block else self.st(s)
        self.leave()
        return r


def alpha(ch, pr, tries=12):
    """renames variables and parameters, also to names in use elsewhere when no occurrence changes its meaning"""
    n = 0
    pool = ["x", "i", "main", "a1", "_z", "$q", "in", "out", "Signal", "inputs", "LONG_name_00000000000000000000000000000000000000000000000001"]
    pool.remove("main")
    allnames = set(d.name for d in pr.defs)
    defs = []
    for d in pr.defs:
        nm = Names(d)
        nm.names = [{}]
        nm.run()
        base = list(nm.uses)
        own = sorted(set(x[0] for x in nm.decls))
        wires = set(x[0] for x in nm.decls if x[1] == "wire")
        ren = {}
        vs = [i for i, x in enumerate(nm.decls) if x[1] == "var"]
        np_ = len(d.params or [])
        for _ in range(min(tries, 2 * len(vs))):
            i = ch.pick(vs)
            new = ch.pick(own) if own and ch.chance(55) else ch.pick(pool) if ch.chance(80) else ch.pick(sorted(allnames))
            if i < np_ and new in wires:
                continue      # known limitation: a parameter with the name of a signal of an inner block
            r2 = dict(ren)
            r2[i] = new
            nm.names = [{}]
            nm.run(r2)
            if any(a != b for a, b in nm.uses) or any(x[2] for x in nm.decls) or [a for a, b in nm.uses] != [a for a, b in base]:
                continue
            ren = r2
            n += 1
        nm.names = [{}]
        defs.append(nm.run(ren))
    return Program(defs, pr.main, pr.pragmas), n


def definitions(ch, pr):
    """other names for the templates, buses and functions"""
    m = {}
    for i, d in enumerate(pr.defs):
        if ch.chance(50):
            m[d.name] = ch.pick(["D_%d", "$_d%d", "__main%d", "f%d_"]) % i
    inv = set(m.values())
    if inv & set(d.name for d in pr.defs):
        return pr, {}

    def f(e, ctx):
        if type(e) is Call and e.name in m:
            return Call(m[e.name], e.args)
        if type(e) is Anon and e.name in m:
            return Anon(m[e.name], e.params, e.inputs, e.names, e.par)
        return e

    def bus(s):
        t = type(s)
        if t is BusDecl and s.bus in m:
            s = copy.copy(s)
            s.bus = m[s.bus]
        elif t is Block:
            s = Block([bus(x) for x in s.stmts])
        elif t is If:
            s = If(s.c, bus(s.t), None if s.e is None else bus(s.e))
        elif t is While:
            s = While(s.c, bus(s.body))
        elif t is For:
            s = For(s.init, s.c, s.step, bus(s.body))
        return s
    q = rewrite.exprs(pr, f)
    for d in q.defs:
        d.body = [bus(s) for s in d.body]
        d.name = m.get(d.name, d.name)
    return Program(q.defs, Main(q.main.public, Call(m.get(q.main.e.name, q.main.e.name), q.main.e.args)), q.pragmas), m


# ------------------------------------------------------------------ files
def files(ch, pr, main="c"):
    """the definitions divided in files that include each other; {name: text}, options"""
    k = ch.int(1, 4)
    dirs = ["", "", "sub/", "sub/in/", "lib/", "other dir/"]
    names = ["%s%s.circom" % (ch.pick(dirs), n) for n in ["one", "two", "x.y", "4th"][:k]]
    parts = {n: [] for n in names}
    own = []
    for d in pr.defs:
        t = ch.draw(k + 1)
        (parts[names[t]] if t < k else own).append(d)
    inc = {n: [] for n in names}
    inc[main + ".circom"] = []
    reach = [main + ".circom"]
    for n in names:
        inc[ch.pick(reach)].append(n)
        reach.append(n)
    for _ in range(ch.draw(4)):
        a, b = ch.pick(reach), ch.pick(reach)
        inc[a].append(b)
    opts = ["-l", "lib"] if any(n.startswith("lib/") for n in names) and ch.draw(2) else []
    out = {}
    for n in reach:
        lines = []
        for t in inc[n]:
            lines.append('include "%s";' % relative(ch, n, t, bool(opts)))
        h = ch.pick(["pragma circom 2.1.0;", "pragma circom 2.0.0;", "pragma circom 2.2.0;"]) if n != main + ".circom" else (pr.pragmas or ["pragma circom 2.1.0;"])[0]
        body = show(Program(own if n == main + ".circom" else parts[n], pr.main if n == main + ".circom" else None, ["#"]))
        body = body.split("\n", 1)[1]
        out[n] = "\n".join([h] + lines) + "\n" + body
    return out, opts


def relative(ch, a, b, lib):
    da, fb = a.split("/")[:-1], b.split("/")
    if lib and fb[0] == "lib" and ch.draw(2):
        return "/".join(fb[1:])
    i = 0
    while i < len(da) and i < len(fb) - 1 and da[i] == fb[i]:
        i += 1
    r = "/".join([".."] * (len(da) - i) + fb[i:])
    return ch.pick(["", "./"]) + r if not r.startswith("..") else r
