"""AST of the circom language and a printer.  Nodes are light mutable records."""


def _mk(name, fields):
    fields = fields.split()

    def __init__(self, *a, **k):
        for f, v in zip(fields, a):
            setattr(self, f, v)
        for f in fields[len(a):]:
            setattr(self, f, k.pop(f, None))
        assert not k, k

    def __repr__(self):
        return name + "(" + ", ".join(repr(getattr(self, f)) for f in fields) + ")"
    return type(name, (), {"__slots__": fields, "__init__": __init__, "__repr__": __repr__,
                           "fields": fields})


# expressions
Num = _mk("Num", "v hex")
Var = _mk("Var", "name acc")          # acc: list of ('i', expr) | ('f', name)
Bin = _mk("Bin", "op a b")
Un = _mk("Un", "op a")
Tern = _mk("Tern", "c a b")
Call = _mk("Call", "name args")       # function call, template instantiation, bus instantiation
Arr = _mk("Arr", "items")
Anon = _mk("Anon", "name params inputs names par")  # names: None | list of (op, name)
Tup = _mk("Tup", "items")
Under = _mk("Under", "")
Par = _mk("Par", "e")                 # parallel e
Paren = _mk("Paren", "e")             # explicit redundant parentheses

# statements
VarDecl = _mk("VarDecl", "items")             # items: (name, dims, init|None)
SigDecl = _mk("SigDecl", "kind tags items op kfirst")  # kind: '', 'input', 'output'; op: '<==' '<--'
BusDecl = _mk("BusDecl", "bus params kind tags items op kfirst")
CompDecl = _mk("CompDecl", "items")
TupDecl = _mk("TupDecl", "what names op rhs")  # what: 'var' | 'signal' | 'component'; names (name,dims)
Assign = _mk("Assign", "lhs op rhs flip")     # op '=', '<==', '<--', '+=', ...
Inc = _mk("Inc", "lhs op")                    # op '++' '--'
Constr = _mk("Constr", "a b")
If = _mk("If", "c t e")
While = _mk("While", "c body")
For = _mk("For", "init c step body")
Assert = _mk("Assert", "e")
Log = _mk("Log", "args")                      # str | expr
Return = _mk("Return", "e")
Block = _mk("Block", "stmts")
ExprStmt = _mk("ExprStmt", "e")
Raw = _mk("Raw", "text")

# definitions
Func = _mk("Func", "name params body")
Template = _mk("Template", "name params body custom par nheader sig")
Bus = _mk("Bus", "name params body")
Main = _mk("Main", "public e")
Program = _mk("Program", "defs main pragmas")

PREC = {"||": 1, "&&": 2, "==": 3, "!=": 3, "<": 3, ">": 3, "<=": 3, ">=": 3,
        "|": 4, "^": 5, "&": 6, "<<": 7, ">>": 7, "+": 8, "-": 8,
        "*": 9, "/": 9, "\\": 9, "%": 9, "**": 10}


class Printer:
    """Prints with the minimal parentheses that the documented precedences need
    (full=True: parenthesises every operator)."""

    def __init__(self, full=False, ws=None):
        self.full = full

    def e(self, x, lvl=0):
        """lvl: minimal tier that is acceptable without parentheses.  Tiers: 0 ternary,
        1..10 binary, 11 prefix, 12 postfix/array/call, 13 primary."""
        t = type(x)
        if t is Num:
            return hex(x.v) if x.hex else str(x.v)
        if t is Var:
            return self.var(x)
        if t is Bin:
            pr = PREC[x.op]
            if self.full:
                s = "(%s)%s(%s)" % (self.e(x.a), x.op, self.e(x.b))
            else:
                s = "%s %s %s" % (self.e(x.a, pr), x.op, self.e(x.b, pr + 1))
            return "(" + s + ")" if lvl > pr else s
        if t is Un:
            s = x.op + (("(" + self.e(x.a) + ")") if self.full else self.e(x.a, 12))
            return "(" + s + ")" if lvl > 11 else s
        if t is Tern:
            s = "%s ? %s : %s" % (self.e(x.c, 1), self.e(x.a, 1), self.e(x.b, 1))
            return "(" + s + ")" if lvl > 0 else s
        if t is Call:
            return "%s(%s)" % (x.name, ", ".join(self.e(a) for a in x.args))
        if t is Arr:
            return "[" + ", ".join(self.e(a) for a in x.items) + "]"
        if t is Anon:
            if x.names:
                ins = ", ".join("%s %s %s" % (n, op, self.e(i)) for (op, n), i in zip(x.names, x.inputs))
            else:
                ins = ", ".join(self.e(i) for i in x.inputs)
            s = "%s(%s)(%s)" % (x.name, ", ".join(self.e(a) for a in x.params), ins)
            return "parallel " + s if x.par else s
        if t is Tup:
            return "(" + ", ".join(self.e(a) for a in x.items) + ")"
        if t is Under:
            return "_"
        if t is Par:
            return "parallel " + self.e(x.e, 1)
        if t is Paren:
            return "(" + self.e(x.e) + ")"
        raise AssertionError(x)

    def var(self, x):
        s = x.name
        for k, v in x.acc:
            s += "[" + self.e(v) + "]" if k == "i" else "." + v
        return s

    def sym(self, it, op):
        n, dims, init = it
        s = n + "".join("[%s]" % self.e(d) for d in dims)
        if init is not None:
            s += " %s %s" % (op, self.e(init))
        return s

    def simple(self, s):
        """Statements that may be for-loop headers (no semicolon)."""
        t = type(s)
        if t is VarDecl:
            return "var " + ", ".join(self.sym(i, "=") for i in s.items)
        if t is CompDecl:
            return "component " + ", ".join(self.sym(i, "=") for i in s.items)
        if t is SigDecl:
            if s.kfirst and s.kind:
                h = s.kind + " signal"
            else:
                h = "signal" + (" " + s.kind if s.kind else "")
            if s.tags:
                h += " {" + ", ".join(s.tags) + "}"
            return h + " " + ", ".join(self.sym(i, s.op or "<==") for i in s.items)
        if t is BusDecl:
            b = s.bus + ("(" + ", ".join(self.e(a) for a in s.params) + ")" if s.params is not None else "")
            if s.kfirst and s.kind:
                h = s.kind + " " + b
            else:
                h = b + (" " + s.kind if s.kind else "")
            if s.tags:
                h += " {" + ", ".join(s.tags) + "}"
            return h + " " + ", ".join(self.sym(i, s.op or "<==") for i in s.items)
        if t is TupDecl:
            h = s.what + " (" + ", ".join(n + "".join("[%s]" % self.e(d) for d in ds) for n, ds in s.names) + ")"
            if s.rhs is not None:
                h += " %s %s" % (s.op, self.e(s.rhs))
            return h
        if t is Assign:
            if s.flip and s.op in ("<==", "<--"):
                return "%s %s %s" % (self.e(s.rhs), {"<==": "==>", "<--": "-->"}[s.op], self.e(s.lhs))
            return "%s %s %s" % (self.e(s.lhs), s.op, self.e(s.rhs))
        if t is Inc:
            return self.e(s.lhs) + s.op
        raise AssertionError(s)

    def s(self, s, ind, out):
        pad = "    " * ind
        t = type(s)
        self.line[id(s)] = len(out) + 1
        if t is Block:
            out.append(pad + "{")
            for x in s.stmts:
                self.s(x, ind + 1, out)
            out.append(pad + "}")
        elif t is If:
            out.append(pad + "if (%s)" % self.e(s.c))
            # "if (a) if (b) x else y": the else would bind to the inner if
            then = s.t
            if s.e is not None and self.ends_open(then):
                then = Block([then])
            self.s(then, ind if type(then) is Block else ind + 1, out)
            if s.e is not None:
                out.append(pad + "else")
                self.s(s.e, ind if type(s.e) is Block else ind + 1, out)
        elif t is While:
            out.append(pad + "while (%s)" % self.e(s.c))
            self.body(s.body, ind, out)
        elif t is For:
            out.append(pad + "for (%s; %s; %s)" % (self.simple(s.init), self.e(s.c), self.simple(s.step)))
            self.body(s.body, ind, out)
        elif t is Constr:
            out.append(pad + "%s === %s;" % (self.e(s.a), self.e(s.b)))
        elif t is Assert:
            out.append(pad + "assert(%s);" % self.e(s.e))
        elif t is Log:
            out.append(pad + "log(%s);" % ", ".join('"%s"' % a if isinstance(a, str) else self.e(a) for a in s.args))
        elif t is Return:
            out.append(pad + "return %s;" % self.e(s.e))
        elif t is ExprStmt:
            out.append(pad + self.e(s.e) + ";")
        elif t is Raw:
            out.append(pad + s.text)
        else:
            out.append(pad + self.simple(s) + ";")

    def body(self, b, ind, out):
        # grammar: the body of a loop may not be a bare if
        if type(b) is If:
            b = Block([b])
        self.s(b, ind if type(b) is Block else ind + 1, out)

    def ends_open(self, s):
        if type(s) is If:
            return s.e is None or self.ends_open(s.e)
        return False

    def d(self, d, out):
        t = type(d)
        if t is Func:
            out.append("function %s(%s) {" % (d.name, ", ".join(d.params)))
        elif t is Template:
            out.append("template %s%s%s(%s) {" % ("custom " if d.custom else "", "parallel " if d.par else "",
                                                  d.name, ", ".join(d.params)))
        elif t is Bus:
            out.append("bus %s%s {" % (d.name, "(" + ", ".join(d.params) + ")" if d.params is not None else ""))
        else:
            raise AssertionError(d)
        for s in d.body:
            self.s(s, 1, out)
        out.append("}")
        out.append("")

    line = {}       # (of a printer) id of a statement -> its line

    def program(self, pr):
        self.line = {}
        out = list(pr.pragmas or ["pragma circom 2.1.0;"])
        out.append("")
        for d in pr.defs:
            self.d(d, out)
        m = pr.main
        if m is not None:
            out.append("component main%s = %s;" % (
                " {public [%s]}" % ", ".join(m.public) if m.public else "", self.e(m.e)))
        return "\n".join(out) + "\n"


def show(pr):
    return Printer().program(pr)
