from ..common import *

TAGS = ["t0", "t1", "max", "binary", "t4"]
FIELDS = [("x", [], "f0"), ("y", [2], None), ("z", [], "max")]     # the bus of the programs: name, dims, tag


class Src:
    """something that can be assigned: expression, dims (None: bus), tags {name: value or None}, values;
    declared: tags whose value may be read; base: its tags can be read as base.tag"""

    def __init__(self, expr, dims, tags, vals, base=None, declared=(), fields=None):
        self.expr, self.dims, self.tags, self.vals = expr, dims, dict(tags), vals
        self.base, self.declared, self.fields = base, list(declared), fields

    def known(self):
        return [t for t in self.declared if self.base and self.tags.get(t) is not None]


def br(ts):
    return "{%s} " % ", ".join(ts) if ts else ""


def ds(dims):
    return "".join("[%d]" % d for d in dims)


class World:
    def __init__(self, ch, p):
        self.ch, self.p = ch, p
        self.n = 0
        self.tmpl = []        # texts
        self.body = []
        self.want = {}        # signal: value
        self.src = []
        self.feat = set()
        self.cache = []       # (name, make) of templates to be used again
        self.params = 0

    def fresh(self, b):
        self.n += 1
        return b + str(self.n)

    def const(self):
        return self.ch.int(0, 9) if self.ch.chance(85) else self.ch.draw(self.p)

    def sub(self, n, hi=3):
        return self.ch.subset(TAGS, n)[:hi]

    def put(self, src, prefix=None):
        """a new signal is readable"""
        self.src.append(src)
        name = prefix or src.expr
        if src.dims is not None:
            for i, v in enumerate(src.vals):
                self.want[name + ("[%d]" % i if src.dims else "")] = v

    def picks(self, f=lambda s: True):
        c = [s for s in self.src if s.dims is not None and f(s)]
        return self.ch.pick(c) if c else None

    def element(self, s):
        """a scalar source from an array"""
        if not s.dims:
            return s
        i = self.ch.draw(s.dims[0])
        return Src("%s[%d]" % (s.expr, i), [], s.tags, [s.vals[i]])

    # ------------------------------------------------------------------ a signal declared with tags, then assigned
    def declare_assign(self, out, kind, name, dims, D, given, rhs, style):
        """text of declaration, values of the tags and assignment; rhs: Src of the same dims; returns the Src"""
        ch = self.ch
        out.append("signal %s%s%s%s;" % (kind + " " if kind else "", br(D), name, ds(dims)))
        for t, (e, v) in given.items():
            if ch.chance(20):
                out.append("if (%s) { %s.%s = %s; } else { %s.%s = 77; }" % ("1 == 1", name, t, e, name, t))
            else:
                out.append("%s.%s = %s;" % (name, t, e))
        tags = {}
        if style == "whole":
            out.append("%s <== %s;" % (name, rhs.expr) if ch.chance(70) else "%s ==> %s;" % (rhs.expr, name))
            inh = rhs.tags
        elif style == "each":
            for i in range(dims[0]):
                out.append("%s[%d] <== %s[%d];" % (name, i, rhs.expr, i))
            inh = rhs.tags
        elif style == "loop":
            i = self.fresh("i")
            out.append("for (var %s = 0; %s < %d; %s++) %s[%s] <== %s[%s];" % (i, i, dims[0], i, name, i, rhs.expr, i))
            inh = rhs.tags
        elif style == "sum":
            if dims:
                i = self.fresh("i")
                out.append("for (var %s = 0; %s < %d; %s++) %s[%s] <== %s[%s] + 0;" % (i, i, dims[0], i, name, i, rhs.expr, i))
            else:
                out.append("%s <== %s + 0;" % (name, rhs.expr))
            inh = {}
        else:       # hint
            out.append("%s <-- %s;" % (name, rhs.expr))
            if ch.chance(60):
                out.append("%s === %s;" % (name, rhs.expr))
            inh = {}
        for t in D:
            tags[t] = given[t][1] if t in given else inh.get(t)
        for t, v in inh.items():
            if t not in tags:
                tags[t] = v
        return Src(name, dims, tags, rhs.vals, name, D)

    def style(self, dims):
        ch = self.ch
        o = [(6, "whole"), (2, "sum"), (1, "hint")]
        if dims:
            o += [(3, "each"), (3, "loop")]
        return ch.weighted(o)

    # ------------------------------------------------------------------ operations of main
    def op_signal(self):
        ch = self.ch
        k = ch.draw(4)
        D = self.sub(40)
        given = {}
        for t in D:
            if ch.chance(40):
                s = self.picks(lambda s: s.known())
                if s and ch.chance(40):
                    t2 = ch.pick(s.known())
                    c = ch.draw(4)
                    given[t] = ("%s.%s + %d" % (s.base, t2, c), (s.tags[t2] + c) % self.p)
                    self.feat.add("tag from tag")
                else:
                    c = self.const()
                    given[t] = (str(c), c)
        name = self.fresh("s")
        if k == 0:       # an array from elements
            m = ch.int(2, 3)
            els = [self.element(self.picks()) for _ in range(m)]
            if ch.chance(50):
                els = [els[0]] + [ch.pick([els[0], e]) for e in els[1:]]
            self.body.append("signal %s%s[%d];" % (br(D), name, m))
            for t, (e, v) in given.items():
                self.body.append("%s.%s = %s;" % (name, t, e))
            common = {t: v for t, v in els[0].tags.items() if all(t in e.tags and e.tags[t] == v for e in els)}
            if ch.chance(40):
                self.body.append("%s <== [%s];" % (name, ", ".join(e.expr for e in els)))
                self.feat.add("array literal")
            else:
                for i in ch.shuffle(list(range(m))):
                    self.body.append("%s[%d] <== %s;" % (name, i, els[i].expr))
                self.feat.add("array by elements")
            tags = {}
            for t in D:
                tags[t] = given[t][1] if t in given else common.get(t)
            for t, v in common.items():
                tags.setdefault(t, v)
            self.put(Src(name, [m], tags, [e.vals[0] for e in els], name, D))
            return
        rhs = self.picks()
        if rhs.dims and ch.chance(30):
            rhs = self.element(rhs)
        self.put(self.declare_assign(self.body, ch.pick(["", "", "output"]), name, rhs.dims, D, given, rhs, self.style(rhs.dims)))

    def op_make(self):
        """component of a template that gives tags to its output"""
        ch = self.ch
        old = [x for x in self.cache if x[0] == "make"]
        if old and ch.chance(40):
            _, name, D, exprs, dims, twice = ch.pick(old)
        else:
            name = self.fresh("Mk")
            D = self.sub(50) or [ch.pick(TAGS)]
            exprs = {t: (ch.int(0, 3), ch.int(0, 5)) for t in D if ch.chance(70)}
            dims = [] if ch.chance(60) else [ch.int(1, 3)]
            twice = ch.chance(30)
            b = ["signal input in%s;" % ds(dims), "signal output %sout%s;" % (br(D), ds(dims))]
            for t, (a, c) in exprs.items():
                if ch.chance(25):
                    b.append("if (n > 2) { out.%s = %d * n + %d; } else { out.%s = n * %d + %d; }" % (t, a, c, t, a, c))
                else:
                    b.append("out.%s = %d * n + %d;" % (t, a, c))
            if twice:       # through an intermediate signal
                b += ["signal mid%s;" % ds(dims), "mid <== in;", "out <== mid;"]
            else:
                b.append(ch.pick(["out <== in;", "in ==> out;"]) if not dims else
                         ch.pick(["out <== in;", "for (var i = 0; i < %d; i++) out[i] <== in[i];" % dims[0]]))
            if exprs and ch.chance(50):      # the value can be read inside
                t = ch.pick(list(exprs))
                b.append("var w = out.%s; assert(w == %d * n + %d);" % (t, exprs[t][0], exprs[t][1]))
            self.tmpl.append("template %s(n) {\n    %s\n}" % (name, "\n    ".join(b)))
            self.cache.append(("make", name, D, exprs, dims, twice))
        rhs = self.picks(lambda s: s.dims == dims)
        if rhs is None:
            return
        k = ch.int(1, 5)
        kx = str(k)
        s = self.picks(lambda s: [t for t in s.known() if s.tags[t] < 50])
        if s and ch.chance(30):
            t = ch.pick([t for t in s.known() if s.tags[t] < 50])
            kx, k = "%s.%s" % (s.base, t), s.tags[t]
            self.feat.add("tag as parameter")
        tags = {t: ((exprs[t][0] * k + exprs[t][1]) % self.p if t in exprs else None) for t in D}
        # values that are inherited inside
        for t in D:
            if t not in exprs:
                tags[t] = None
        if ch.chance(25):
            o = self.fresh("s")
            self.body.append("signal %s <== %s(%s)(%s);" % (o + ds(dims), name, kx, rhs.expr))
            self.put(Src(o, dims, tags, rhs.vals))
            self.feat.add("anonymous")
        else:
            c = self.fresh("c")
            if ch.chance(30):      # an array of components, each with its values
                m = ch.int(1, 3)
                self.body.append("component %s[%d];" % (c, m))
                off = ch.int(0, 2)
                iv = self.fresh("i")
                if ch.chance(50):
                    self.body.append("for (var %s = 0; %s < %d; %s++) { %s[%s] = %s(%s + %d * %s); %s[%s].in <== %s; }"
                                     % (iv, iv, m, iv, c, iv, name, kx, off, iv, c, iv, rhs.expr))
                else:
                    for i in ch.shuffle(list(range(m))):
                        self.body.append("%s[%d] = %s(%s + %d);" % (c, i, name, kx, off * i))
                    for i in ch.shuffle(list(range(m))):
                        self.body.append("%s[%d].in <== %s;" % (c, i, rhs.expr))
                for i in range(m):
                    ti = {t: ((exprs[t][0] * (k + off * i) + exprs[t][1]) % self.p if t in exprs else None) for t in D}
                    b = "%s[%d].out" % (c, i)
                    self.put(Src(b, dims, ti, rhs.vals, b, D))
                self.feat.add("array of components")
                return
            self.body.append("component %s = %s(%s);" % (c, name, kx))
            self.body.append("%s.in <== %s;" % (c, rhs.expr))
            self.put(Src(c + ".out", dims, tags, rhs.vals, c + ".out", D))

    def op_pass(self):
        """component that requires tags and returns some of them"""
        ch = self.ch
        rhs = self.picks(lambda s: s.tags)
        if rhs is None:
            return
        T = ch.subset(list(rhs.tags), 60) or [ch.pick(list(rhs.tags))]
        D = [t for t in T if ch.chance(60)]
        D += [t for t in self.sub(15) if t not in D and t not in T]
        dims = rhs.dims
        known = [t for t in T if rhs.tags[t] is not None]
        reads = ch.subset(known, 50)
        name = self.fresh("Ps")
        b = ["signal input %sin%s;" % (br(T), ds(dims)), "signal output %sout%s;" % (br(D), ds(dims)), "signal output o;"]
        own = {}
        for t in D:
            if t in reads and ch.chance(25):
                b.append("out.%s = in.%s + n;" % (t, t))
                own[t] = 1
        b.append(ch.pick(["out <== in;"]) if not dims else ch.pick(["out <== in;", "for (var i = 0; i < %d; i++) out[i] <== in[i];" % dims[0]]))
        acc = ["n"]
        for t in reads:
            acc.append("%d * in.%s" % (ch.int(1, 9), t))
        small = [t for t in reads if rhs.tags[t] < 40]
        loop = None
        if small and ch.chance(40):
            loop = ch.pick(small)
            b.append("var l = 0; for (var i = 0; i < in.%s; i++) l += i + 1;" % loop)
            b.append("signal arr[in.%s + 1]; for (var i = 0; i <= in.%s; i++) arr[i] <== i * %s;" % (loop, loop, "in" + ("[0]" if dims else "")))
            acc.append("l")
        b.append("o <== %s * (%s);" % ("in" + ("[0]" if dims else ""), " + ".join(acc)))
        self.tmpl.append("template %s(n) {\n    %s\n}" % (name, "\n    ".join(b)))
        for rep in range(ch.weighted([(3, 1), (2, 2)])):
            src = rhs
            if rep:      # another instance with another source
                c = [s for s in self.src if s.dims == dims and set(T) <= set(s.tags)
                     and all(s.tags[t] is not None and (t != loop or s.tags[t] < 40) for t in reads)]
                if not c:
                    continue
                src = ch.pick(c)
                self.feat.add("template used again")
            n = ch.int(0, 5)
            tot = n
            for x in acc[1:]:
                if x == "l":
                    tot += src.tags[loop] * (src.tags[loop] + 1) // 2
                else:
                    k, t = x.split(" * in.")
                    tot += int(k) * src.tags[t]
            c = self.fresh("c")
            self.body.append("component %s = %s(%d);" % (c, name, n))
            if dims and ch.chance(50):
                for i in ch.shuffle(list(range(dims[0]))):
                    self.body.append("%s.in[%d] <== %s[%d];" % (c, i, src.expr, i))
            else:
                self.body.append("%s.in <== %s;" % (c, src.expr))
            tags = {}
            for t in D:
                tags[t] = (src.tags[t] + n) % self.p if t in own else src.tags.get(t) if t in T else None
            self.put(Src(c + ".out", dims, tags, src.vals, c + ".out", D))
            self.want[c + ".o"] = src.vals[0] * tot % self.p
            if loop:
                for i in range(src.tags[loop] + 1):
                    self.want["%s.arr[%d]" % (c, i)] = i * src.vals[0] % self.p

    def op_read(self):
        """the value of a tag as a constant"""
        ch = self.ch
        s = self.picks(lambda s: s.known())
        if s is None:
            return
        t = ch.pick(s.known())
        v = s.tags[t]
        r = "%s.%s" % (s.base, t)
        x = self.element(self.picks())
        o = self.fresh("r")
        k = ch.draw(4)
        self.feat.add("tag read")
        if k == 0:
            c = ch.int(1, 5)
            self.body.append("signal %s <== %s * %s + %d;" % (o, x.expr, r, c))
            self.want[o] = (x.vals[0] * v + c) % self.p
        elif k == 1:
            c = v if ch.chance(50) else self.const()
            self.body.append("signal %s; if (%s == %d) { %s <== %s; } else { %s <== 2 * %s; }" % (o, r, c, o, x.expr, o, x.expr))
            self.want[o] = (x.vals[0] if v == c else 2 * x.vals[0]) % self.p
        elif k == 2 and v < 30:
            self.body.append("signal %s[%s + 2]; for (var i = 0; i < %s + 2; i++) %s[i] <== %s + i;" % (o, r, r, o, x.expr))
            for i in range(v + 2):
                self.want["%s[%d]" % (o, i)] = (x.vals[0] + i) % self.p
        else:
            self.body.append("var %sv = %s; %sv = %sv * 3; signal %s <== %s + %sv;" % (o, r, o, o, o, x.expr, o))
            self.want[o] = (x.vals[0] + 3 * v) % self.p

    def op_bus(self):
        ch = self.ch
        name = self.fresh("b")
        T = self.sub(30, 2)
        T = [t for t in T if t not in ("f0", "max")]
        given = {}
        fields = {}
        old = [s for s in self.src if s.dims is None]
        if old and ch.chance(55):
            src = ch.pick(old)
            k = ch.draw(3)
            if k == 0:       # copy
                self.body.append("B %s%s;" % (br(T), name))
                for t in T:
                    if ch.chance(50):
                        v = self.const()
                        given[t] = v
                        self.body.append("%s.%s = %d;" % (name, t, v))
                self.body.append("%s <== %s;" % (name, src.expr))
                tags = {t: given.get(t, src.tags.get(t)) for t in T}
                for t, v in src.tags.items():
                    tags.setdefault(t, v)
                self.bus(name, T, tags, src.fields, name)
                self.feat.add("bus copy")
            elif k == 1:     # through a component
                R = ch.subset(list(src.tags), 50)
                O = [t for t in R if ch.chance(60)]
                tn = self.fresh("Bs")
                reads = [t for t in R if src.tags[t] is not None and ch.chance(50)]
                freads = [f for f, d, t in FIELDS if t and src.fields[f][0].get(t) is not None and ch.chance(50)]
                e = ["1"] + ["%d * in.%s" % (ch.int(1, 5), t) for t in reads] + ["%d * in.%s.%s" % (ch.int(1, 5), f, dict((a, c) for a, _, c in FIELDS)[f]) for f in freads]
                self.tmpl.append("template %s() {\n    B input %sin;\n    B output %sout;\n    signal output o;\n    out <== in;\n    o <== in.x * (%s);\n}" % (tn, br(R), br(O), " + ".join(e)))
                c = self.fresh("c")
                self.body.append("component %s = %s(); %s.in <== %s;" % (c, tn, c, src.expr))
                tot = 1
                for x in e[1:]:
                    a, y = x.split(" * in.")
                    tot += int(a) * (src.fields[y.split(".")[0]][0][y.split(".")[1]] if "." in y else src.tags[y])
                self.want[c + ".o"] = src.fields["x"][1][0] * tot % self.p
                self.bus(c + ".out", O, {t: src.tags[t] for t in O}, src.fields, c + ".out")
                self.feat.add("bus component")
            else:            # fields
                f, d, t = ch.pick(FIELDS)
                tags, vals = src.fields[f]
                self.src.append(Src("%s.%s" % (src.expr, f), d, tags, vals, "%s.%s" % (src.expr, f), [t] if t else []))
                self.feat.add("bus field")
            return
        self.body.append("B %s%s;" % (br(T), name))
        for t in T:
            if ch.chance(50):
                given[t] = self.const()
                self.body.append("%s.%s = %d;" % (name, t, given[t]))
        for f, d, t in ch.shuffle(FIELDS):
            rhs = self.picks(lambda s: s.dims == d)
            if rhs is None and not d:
                rhs = self.element(self.picks())
            elif rhs is None:
                a = self.element(self.picks())
                b = self.element(self.picks())
                rhs = Src("[%s, %s]" % (a.expr, b.expr), d, {x: v for x, v in a.tags.items() if x in b.tags and b.tags[x] == v}, [a.vals[0], b.vals[0]])
            tags = {}
            g = None
            if t and ch.chance(40):
                g = self.const()
                self.body.append("%s.%s.%s = %d;" % (name, f, t, g))
            self.body.append("%s.%s <== %s;" % (name, f, rhs.expr))
            tags = dict(rhs.tags)
            if t:
                tags[t] = g if g is not None else rhs.tags.get(t)
            fields[f] = (tags, rhs.vals)
        self.bus(name, T, {t: given.get(t) for t in T}, fields, name)
        self.feat.add("bus")

    def bus(self, name, T, tags, fields, base):
        self.src.append(Src(name, None, tags, None, base, T, fields))
        for f, d, t in FIELDS:
            for i, v in enumerate(fields[f][1]):
                self.want["%s.%s%s" % (name, f, "[%d]" % i if d else "")] = v

    # ------------------------------------------------------------------ one documented error; (lines, what)
    def error(self):
        ch = self.ch
        k = ch.draw(12)
        s = self.fresh("e")
        t = ch.pick(TAGS)
        x = self.element(self.picks())
        if k in (0, 1, 2):      # missing tag
            miss = self.picks(lambda q: t not in q.tags)
            if miss is None:
                return None
            n = self.fresh("Er")
            d = miss.dims
            self.tmpl.append("template %s() { signal input %sin%s; signal output o; o <== 1; }" % (n, br([t]), ds(d)))
            if k == 0 and d:
                # all but one position have the tag
                a = ["signal %s%s%s;" % (br([t]), s, ds(d)), "%s <== %s;" % (s, miss.expr), "component %sc = %s();" % (s, n)]
                j = ch.draw(d[0])
                for i in range(d[0]):
                    a.append("%sc.in[%d] <== %s[%d];" % (s, i, miss.expr if i == j else s, i))
                return a, "tag missing in a position"
            if k == 1:
                return ["signal %s <== %s()(%s);" % (s, n, miss.expr)], "tag missing (anonymous)"
            return ["component %s = %s(); %s.in <== %s;" % (s, n, s, miss.expr)], "tag missing"
        if k == 3:              # lost by an operation or a hint
            n = self.fresh("Er")
            self.tmpl.append("template %s() { signal input %sin; signal output o; o <== in; }" % (n, br([t])))
            a = ["signal %s%s; %s <== %s;" % (br([t]), s, s, x.expr)]
            m = ch.draw(3)
            if m == 0:
                a.append("component %sc = %s(); %sc.in <== %s + 0;" % (s, n, s, s))
            elif m == 1:
                a.append("signal %sm <-- %s; component %sc = %s(); %sc.in <== %sm;" % (s, s, s, n, s, s))
            else:
                a.append("signal %sm <== 1 * %s; component %sc = %s(); %sc.in <== %sm;" % (s, s, s, n, s, s))
            return a, "tag lost"
        if k == 4:
            return ["signal %s%s; %s <== %s; %s.%s = 3;" % (br([t]), s, s, x.expr, s, t)], "value after the assignment"
        if k == 5:
            return ["signal %s%s[2]; %s[1] <== %s; %s.%s = 3; %s[0] <== %s;" % (br([t]), s, s, x.expr, s, t, s, x.expr)], "value after a position is assigned"
        if k == 6:
            return ["signal %s%s; %s.%s = 3; %s.%s = 3; %s <== %s;" % (br([t]), s, s, t, s, t, s, x.expr)], "value assigned twice"
        if k == 7:
            return ["signal %s%s; %s.%s = %s; %s <== %s;" % (br([t]), s, s, t, x.expr, s, x.expr)], "unknown value"
        if k == 8:
            no = self.picks(lambda q: q.base and [y for y in q.declared if q.tags.get(y) is None])
            if no is None or no.expr in ("q0", "q1") and False:
                return None
            y = ch.pick([y for y in no.declared if no.tags.get(y) is None])
            return ["signal %s <== %s.%s + 1;" % (s, no.base, y)], "value not given"
        if k == 9:
            return ["signal %s%s; %s <== %s; var %sv = %s.%s;" % ("", s, s, x.expr, s, s, t)], "tag not declared"
        if k == 10:
            # an array whose positions get different values
            n = self.fresh("Er")
            self.tmpl.append("template %s() { signal input %sin[2]; signal output o; o <== in[0]; }" % (n, br([t])))
            return ["signal %s%sa; %sa.%s = 3; %sa <== %s;" % (br([t]), s, s, t, s, x.expr),
                    "signal %s%sb; %sb.%s = 4; %sb <== %s;" % (br([t]), s, s, t, s, x.expr),
                    "component %s = %s(); %s.in[0] <== %sa; %s.in[1] <== %sb;" % (s, n, s, s, s, s)], "positions with different values"
        n = self.fresh("Er")
        self.tmpl.append("template %s() { signal input %sin; signal output o; in.%s = 4; o <== in; }" % (n, br([t]), t))
        return ["signal %s%sa; %sa.%s = 3; %sa <== %s; component %s = %s(); %s.in <== %sa;" % (br([t]), s, s, t, s, x.expr, s, n, s, s)], "value of an input"


class CHECK(Check):
    id = "C19"
    rule = ("random circuits whose signals, arrays and buses carry tags with and without values through whole, element-wise and literal assignments, through "
            "operations and hints (which drop them), components that create, require, read and return them; the values of the tags, given by a model of the documentation, "
            "appear in values of signals, sizes of arrays, loops, conditions and parameters and have to agree with the witness; in half of the cases one documented "
            "error is added: then the compiler must reject; non-trivial: a value of a tag is read or a tag is required")
    assumptions = ["values of tags of arrays that are not completely assigned are not read",
                   "tags that a signal inherits without declaring them are not expected outside of its template"]
    cases = {"quick": 6000, "thorough": 100000}

    def case(self, ctx, ch, idx):
        prime = pick_prime(ch, 60)
        p = PRIMES[prime]
        w = World(ch, p)
        decl = []
        inp = {}
        for i in range(ch.int(1, 3)):
            dims = [] if ch.chance(65) else [ch.int(1, 3)]
            T = []           # (the inputs of main cannot have tags)
            vals = [ch.draw(20) if ch.chance(70) else ch.big(p) % p for _ in range(dims[0] if dims else 1)]
            decl.append("signal input %sq%d%s;" % (br(T), i, ds(dims)))
            inp["q%d" % i] = vals if dims else vals[0]
            w.put(Src("q%d" % i, dims, {t: None for t in T}, vals, "q%d" % i, T))
        pub = [x for x in inp if ch.chance(30) and not w.src[int(x[1])].tags]
        for _ in range(ch.int(3, 10)):
            op = ch.weighted([(5, w.op_signal), (4, w.op_make), (5, w.op_pass), (3, w.op_read), (3, w.op_bus)])
            op()
        err = None
        if ch.draw(2):
            err = w.error()
        lines = list(w.body)
        what = None
        if err:
            at = len(lines)
            lines += err[0]
            what = err[1]
        buses = "bus B { %s }" % " ".join("signal %s%s%s;" % (br([t] if t else []), f, ds(d)) for f, d, t in FIELDS)
        body = decl + lines
        src = "pragma circom 2.2.0;\n%s\n%s\ntemplate Main() {\n    %s\n    signal output last; last <== 1;\n}\n" % (buses, "\n".join(w.tmpl), "\n    ".join(body))
        src += "component main%s = Main();\n" % (" {public [%s]}" % ", ".join(pub) if pub else "")
        fl = {"source": src, "prime": prime, "input": run.input_json(inp)}
        with run.Scratch() as d:
            k = ctx.R.compile(d, src, prime=prime, opt=["--O0"])
            if k.res.panicked:
                raise Fail("panic", "the compiler panics: " + ANSI.sub("", k.res.text)[-500:], **fl)
            if err:
                if k.res.ok:
                    raise Fail("accepted", "an incorrect program is accepted (%s): %s" % (what, " ".join(err[0])), **fl)
                return Result(True, src, ["error: " + what] + sorted(w.feat), {"source": src[:1200], "error": what})
            if not k.res.ok:
                raise Fail("rejected", "a correct program is rejected: " + ANSI.sub("", k.res.text)[-600:], **fl)
            sym = {s.name: s.wire for s in k.sym()}
            r = ctx.R.wasm(k, [inp])[0]
        if "error" in r:
            raise Fail("no-witness", "no witness: " + str(r["error"])[:300], **fl)
        wit = fmt.read_wtns(r["wtns"])[2]
        bad = ["%s = %s, not %d" % (n, wit[sym["main." + n]] if "main." + n in sym else "?", v) for n, v in w.want.items()
               if "main." + n not in sym or wit[sym["main." + n]] != v % p]
        if bad:
            raise Fail("value", "wrong values: " + "; ".join(bad[:6]), **fl)
        nt = "in.t" in src or "tag read" in w.feat or "template Ps" in src
        return Result(nt, src, ["prime " + prime, "accepted"] + sorted(w.feat), {"source": src[:1500], "input": run.input_json(inp)})
