"""Catalogue of documented errors.  Each kind builds, with random names, numbers and shapes, a piece of code with the
error and its legal twin:  {"defs": definitions for both, "pre": statements placed before, "bad"/"good": statements
(placed inside a wrapper), "bad_defs"/"good_defs": definitions of one variant, "nowrap": the statements may only stand
at the top level of a template}.  Program-level kinds return "bad_top"/"good_top" edits instead."""

KINDS = {}


def kind(f):
    KINDS[f.__name__] = f
    return f


class N:
    """fresh names, random pieces"""

    def __init__(self, ch):
        self.ch = ch
        self.k = 0

    def __call__(self, p="q"):
        self.k += 1
        return "%s_%s%d" % (p, self.ch.pick(["x", "zz", "k9"]), self.k)

    def i(self, a=0, b=5):
        return self.ch.int(a, b)

    def p(self, *o):
        return self.ch.pick(o)


def tmpl(n, name=None, ins=1, outs=1, params=("n",), mid=False, arr=0):
    """text of a simple template; returns (name, text, input names, output names, intermediate)"""
    t = name or n("T")
    i = [n("in") for _ in range(ins)]
    o = [n("o") for _ in range(outs)]
    m = n("m")
    dim = "[%d]" % arr if arr else ""
    s = "template %s(%s) {\n" % (t, ", ".join(params))
    for x in i:
        s += "    signal input %s%s;\n" % (x, dim)
    for x in o:
        s += "    signal output %s;\n" % x
    if mid:
        s += "    signal %s;\n    %s <== 7;\n" % (m, m)
    for j, x in enumerate(o):
        s += "    %s <== %s;\n" % (x, (i[j % len(i)] + ("[0]" if arr else "") + " + 1") if i else "4")
    return t, s + "}\n", i, o, m


# ------------------------------------------------------------------ names and scopes
@kind
def undeclared_variable(n):
    u, v = n(), n()
    f = n.p("var {v} = {e};", "log({e});", "assert({e} + 1);", "var {v}[2] = [{e}, 1];", "var {v} = 0; {v} += {e};",
            "var {v} = 1; if ({e}) {{ {v} = 2; }}")
    return dict(bad=f.format(v=v, e=u), good=f.format(v=v, e=n.i(1, 9)))


@kind
def undeclared_assigned(n):
    u, v = n(), n()
    op = n.p("= 3", "<== 3", "<-- 3", "+= 3", "++", "--")
    d = "signal %s;" % v if op[0] == "<" else "var %s;" % v
    return dict(pre=d, bad="%s %s;" % (u, op), good="%s %s;" % (v, op), signal=op[0] == "<")


@kind
def undefined_function(n):
    f, v = n("f"), n()
    a = n.i(0, 9)
    return dict(defs="function %s_ok(x) { return x + 1; }\n" % f, bad="var %s = %s(%d);" % (v, f, a), good="var %s = %s_ok(%d);" % (v, f, a))


@kind
def undefined_template(n):
    c = n("c")
    t, d, i, o, m = tmpl(n, ins=0)
    return dict(defs=d, bad="component %s = %s_no(3);" % (c, t), good="component %s = %s(3);" % (c, t), nowrap=True)


@kind
def undefined_bus(n):
    b, s = n("B"), n("s")
    return dict(defs="bus %s() { signal x; }\n" % b, bad="%s_no() %s;" % (b, s), good="%s() %s;" % (b, s), nowrap=True)


@kind
def declared_twice(n):
    a, b = n(), n()
    t, d, i, o, m = tmpl(n, ins=0)
    k = [n.p("var %s;", "var %s = 3;", "var %s[2];", "signal %s;", "signal %s[3];", "component %s = " + t + "(1);", "component %s;") for _ in range(2)]
    return dict(defs=d, bad=k[0] % a + " " + k[1] % a, good=k[0] % a + " " + k[1] % b, nowrap=True)


@kind
def out_of_scope(n):
    v, w = n(), n()
    blk = n.p("{{ {} }}", "if (1) {{ {} }}", "for (var {} = 0; 1 == 0; ) {{ }}", "var z{1}; for (z{1} = 0; z{1} < 2; z{1}++) {{ {0} }}", "if (0) {{ }} else {{ {} }}")
    if blk.startswith("for"):
        v = n("i")
        return dict(bad="for (var %s = 0; %s < 2; %s++) { } var %s = %s;" % (v, v, v, w, v), good="var %s; for (%s = 0; %s < 2; %s++) { } var %s = %s;" % (v, v, v, v, w, v))
    b = blk.format("var %s = 4;" % v, w)
    return dict(bad="%s var %s = %s;" % (b, w, v), good="var %s = 3; %s var %s = %s;" % (v, b, w, v))


@kind
def signal_out_of_scope(n):
    s, w = n("s"), n("v")
    return dict(bad="if (%d) { signal %s; %s <== 2; } var %s = %s;" % (n.i(1, 4), s, s, w, s),
                good="if (%d) { signal %s; %s <== 2; var %s = %s; }" % (n.i(1, 4), s, s, w, s), nowrap=True)


@kind
def signal_in_loop(n):
    s = n("s")
    w = n.p("for (var i_%s = 0; i_%s < 2; i_%s++) { %%s }" % (s, s, s), "{ %s }", "var w_{0} = 0; while (w_{0} < 1) {{ %s w_{0}++; }}".format(s))
    d = "signal %s;" % s
    if w == "{ %s }":
        w = "var w_{0} = 0; while (w_{0} < 1) {{ %s w_{0}++; }}".format(s)
    v = "var %s;" % s
    return dict(bad=w % d, good=w % v, nowrap=True)


# ------------------------------------------------------------------ assignments
@kind
def wrong_operator(n):
    k = n.i(0, 6)
    v, s, c = n("v"), n("s"), n("c")
    t, d, i, o, m = tmpl(n)
    if k == 0:
        return dict(pre="signal %s;" % s, bad="%s = 3;" % s, good="%s <-- 3;" % s, signal=True)
    if k == 1:
        return dict(pre="var %s;" % v, bad="%s %s 3;" % (v, n.p("<==", "<--")), good="%s = 3;" % v)
    if k == 2:
        return dict(bad="signal %s = 5;" % s, good="signal %s <== 5;" % s, nowrap=True)
    if k == 3:
        return dict(bad="var %s %s 5;" % (s, n.p("<==", "<--")), good="var %s = 5;" % s)
    if k == 4:
        return dict(defs=d, bad="component %s %s %s(2);" % (c, n.p("<==", "<--"), t), good="component %s = %s(2); %s.%s <== 1;" % (c, t, c, i[0]), nowrap=True)
    if k == 5:
        return dict(defs=d, pre="component %s = %s(2);" % (c, t), bad="%s.%s = 1;" % (c, i[0]), good="%s.%s <== 1;" % (c, i[0]), signal=True, mustgood=True)
    return dict(pre="signal %s; %s <-- 3;" % (s, s), bad=n.p("%s++;", "%s += 1;", "%s *= 2;") % s, good="var %s = %s + 1;" % (v, s))


@kind
def signal_assigned_twice(n):
    s, k = n("s"), n.i(0, 6)
    o1, o2 = n.p("<==", "<--"), n.p("<==", "<--")
    z = n("u")
    if k == 0:
        return dict(pre="signal %s, %s; %s %s 1;" % (s, z, s, o1), bad="%s %s 2;" % (s, o2), good="%s %s 2;" % (z, o2), signal=True)
    if k == 1:
        d = n.i(1, 4)
        j = n.i(0, d - 1)
        return dict(pre="signal %s[%d], %s; for (var i = 0; i < %d; i++) { %s[i] %s i; }" % (s, d, z, d, s, o1),
                    bad="%s[%d] %s 2;" % (s, j, o2), good="%s %s 2;" % (z, o2), signal=True)
    if k == 2:   # the element and then the whole array
        d = n.i(1, 3)
        j = n.i(0, d - 1)
        val = "[" + ", ".join("1" for _ in range(d)) + "]"
        return dict(pre="signal %s[%d], %s[%d]; %s[%d] %s 5;" % (s, d, z, d, s, j, o1), bad="%s %s %s;" % (s, o2, val),
                    good="%s %s %s;" % (z, o2, val), signal=True)
    if k == 3:   # a loop that assigns the same signal
        a = "for (var i_{s} = 0; i_{s} < {n}; i_{s}++) {{ {s} {o} i_{s}; }}"
        return dict(pre="signal %s;" % s, bad=a.format(s=s, n=n.i(2, 4), o=o1), good=a.format(s=s, n=1, o=o1), signal=True)
    if k == 4:   # buses
        b = n("B")
        return dict(defs="bus %s() { signal x; signal y[2]; }\n" % b, pre="%s() %s; %s.%s %s 1;" % (b, s, s, "y[1]", o1),
                    bad="%s.y[1] %s 1;" % (s, o2), good="%s.y[0] %s 1;" % (s, o2), signal=True)
    if k == 5:   # component inputs
        t, d, i, o, m = tmpl(n, arr=3)
        c = n("c")
        return dict(defs=d, pre="component {c} = {t}(1); {c}.{i}[0] <== 1; {c}.{i}[2] <-- 4;".format(c=c, t=t, i=i[0]),
                    bad="%s.%s[%d] %s 1;" % (c, i[0], n.p(0, 2), o2), good="%s.%s[1] %s 1;" % (c, i[0], o2), signal=True, mustgood=True)
    return dict(bad="signal %s %s 4; %s %s 4;" % (s, o1, s, o2), good="signal %s; %s %s 4;" % (s, s, o2), nowrap=True)


@kind
def conflicting_conditional_assignments(n):
    s, a = n("s"), n("a")
    pre = "signal %s, %s; %s <-- 3;" % (s, a, a)
    k = n.i(0, 3)
    good = "if (%s == 2) { %s <-- 1; } else { %s <-- 2; }" % (a, s, s)
    bad = ["if (%s == 2) { %s <-- 1; } %s <-- 2;" % (a, s, s),
           "%s <-- 2; if (%s == 2) { %s <-- 1; }" % (s, a, s),
           "if (%s == 2) { %s <-- 1; } else { %s <-- 2; } %s <-- 5;" % (a, s, s, s),
           "if (%s == 2) { %s <-- 1; %s <-- 2; }" % (a, s, s)][k]
    return dict(pre=pre, bad=bad, good=good, signal=True)


@kind
def own_input_assigned(n):
    t, i, o = n("T"), n("in"), n("o")
    c = n("c")
    body = "template {t}() {{ signal input {i}; signal output {o}; {x} }}\n"
    op = n.p("<==", "<--")
    wrap = n.p("%s", "if (1) { %s }", "for (var z = 0; z < 1; z++) { %s }")
    return dict(bad_defs=body.format(t=t, i=i, o=o, x=wrap % ("%s %s 3;" % (i, op)) + " %s <== 1;" % o),
                good_defs=body.format(t=t, i=i, o=o, x=wrap % ("%s %s 3;" % (o, op))),
                bad="component %s = %s(); %s.%s <== 1;" % (c, t, c, i), good="component %s = %s(); %s.%s <== 1;" % (c, t, c, i), nowrap=True)


@kind
def component_output_assigned(n):
    t, d, i, o, m = tmpl(n)
    c = n("c")
    return dict(defs=d, pre="component %s = %s(1);" % (c, t), bad="%s.%s <== 1; %s.%s %s 1;" % (c, i[0], c, o[0], n.p("<==", "<--")),
                good="%s.%s <== 1;" % (c, i[0]), signal=True, mustgood=True)


@kind
def component_assigned_twice(n):
    t, d, i, o, m = tmpl(n, ins=0)
    c = n("c")
    if n.i(0, 1):
        return dict(defs=d, pre="component %s = %s(1);" % (c, t), bad="%s = %s(1);" % (c, t), good="var %s = %s.%s;" % (n("v"), c, o[0]))
    return dict(defs=d, pre="component %s[2]; %s[1] = %s(2);" % (c, c, t), bad="%s[1] = %s(2);" % (c, t), good="%s[0] = %s(2);" % (c, t), signal=True)


# ------------------------------------------------------------------ constraints
@kind
def non_quadratic(n):
    a, b, c, v, s = n("a"), n("b"), n("c"), n("v"), n("s")
    pre = "signal {a}, {b}, {c}; {a} <-- 1; {b} <-- 2; {c} <-- 3;".format(a=a, b=b, c=c)
    e = n.p("{a} * {b} * {c}", "{a} * {b} + {b} * {c}", "{a} ** {b}", "{a} / {b}", "{a} \\ {b}", "{a} % 2", "{a} & {b}", "{a} | 1",
            "{a} ^ {b}", "{a} << 1", "{a} >> 1", "{a} < {b}", "{a} == {b}", "{a} && {b}", "!{a}", "~{a}", "{a} ** 3", "1 / {a}",
            "{a} * ({b} + {a} * {c})", "({a} + 1) * ({b} - 2) * {c}", "2 ** {a}", "{a} ? {b} : {c}", "{a} \\ 2",
            "{a} * {a} - {b} * {b}").format(a=a, b=b, c=c)
    g = n.p("{a} * {b} + 3 * {c} - 4", "({a} - {c}) * ({b} + 5 * {c})", "{a} / 2", "-{a} + {b}", "{a} ** 2", "3 * {a} * 2 * {b}",
            "5 - ({a} + {b})", "{a} * 2 ** 5 + (3 < 4)").format(a=a, b=b, c=c)
    k = n.i(0, 5)
    if k == 0:
        f = "%s === " + str(n.i())
    elif k == 1:
        f = str(n.i()) + " === %s"
    elif k == 2:
        pre += " signal %s;" % s
        f = s + " <== %s"
    elif k == 3:
        f = "var " + v + " = %s; " + v + " === 1"
    elif k == 4:
        pre += " signal %s[2];" % s
        f = s + " <== [1, %s]"
    else:
        f = "[%s, 1] === [1, 1]"
    return dict(pre=pre, bad=f % e + ";", good=f % g + ";", signal=k in (2, 4))


@kind
def both_sides_quadratic(n):
    a, b, c = n("a"), n("b"), n("c")
    pre = "signal {a}, {b}, {c}; {a} <-- 1; {b} <-- 2; {c} <-- 3;".format(a=a, b=b, c=c)
    return dict(pre=pre, bad="{a} * {b} === {b} * {c};".format(a=a, b=b, c=c), good="{a} * {b} === {b} + {c};".format(a=a, b=b, c=c))


@kind
def non_quadratic_accumulated(n):
    a, v = n("a"), n("v")
    body = "{v} = 1; for (var i_{v} = 0; i_{v} < {k}; i_{v}++) {{ {v} *= {a}; }} {v} === 8;"
    return dict(pre="signal %s; %s <-- 2; var %s = 1;" % (a, a, v), bad=body.format(a=a, v=v, k=n.i(3, 5)), good=body.format(a=a, v=v, k=n.i(0, 2)))


@kind
def non_quadratic_function(n):
    f, a = n("f"), n("a")
    bad = n.p("return x * x * x;", "return x & 1;", "var r = 1; if (x) { r = 2; } return r;", "if (x == 2) { return 3; } return 4;",
              "var i = 0; while (i < x) { i++; } return i;")
    good = n.p("return x * x;", "return 3 * x + 1;", "var r = 0; for (var i = 0; i < 4; i++) { r += x; } return r;")
    return dict(bad_defs="function %s(x) { %s }\n" % (f, bad), good_defs="function %s(x) { %s }\n" % (f, good),
                pre="signal %s; %s <-- 2;" % (a, a), bad="%s(%s) === 1;" % (f, a), good="%s(%s) === 1;" % (f, a))


@kind
def unknown_index_in_constraint(n):
    a, v, s = n("a"), n("v"), n("s")
    pre = "signal {a}; {a} <-- 1; var {v}[3] = [1, 2, 3]; signal {s}[3]; {s} <-- [1, 2, 3];".format(a=a, v=v, s=s)
    arr = n.p(v, s)
    f = n.p("%s[%s] === 2;", "5 === %s[%s] + 1;")
    return dict(pre=pre, bad=f % (arr, n.p(a, a + " % 3", a + " * 1")), good=f % (arr, n.i(0, 2)))


@kind
def constraint_in_unknown(n):
    a, s, z = n("a"), n("s"), n("z")
    pre = "signal %s, %s, %s; %s <-- 1; %s <-- 3;" % (a, s, z, a, z)
    e = n.p(a, a + " == 1", a + " < 3 && 1", "!" + a, "(" + a + " ? 1 : 0)")
    st = n.p("%s === 1;" % z, "%s <== 1;" % s, "for (var i = 0; i < 2; i++) { %s === 1; }" % z, "if (1) { %s === 2; }" % z)
    kk = n.p("1", "2 == 2", "5 > 3")
    w = n.p("if (%s) { %s }", "if (%s) { log(1); %s }")
    if n.i(0, 3) == 0:
        w = "if (%s) { log(2); } else { %s }"
        return dict(pre=pre, bad=w % (e, st), good=w % ("0", st), signal="<==" in st)
    if n.i(0, 4) == 0:
        x = n("x")
        w = "for (var {x} = 0; {x} < %s; {x}++) {{ {st} }}".format(x=x, st=st)
        return dict(pre=pre, bad=w % a, good=w % "1", signal="<==" in st)
    return dict(pre=pre, bad=w % (e, st), good=w % (kk, st), signal="<==" in st)


@kind
def declaration_in_unknown(n):
    a, s = n("a"), n("s")
    t, d, i, o, m = tmpl(n, ins=0)
    st = n.p("signal %s;" % s, "component %s = %s(1);" % (s, t), "signal %s; %s <-- 3;" % (s, s))
    w = n.p("if (%s) { %s }", "if (%s) { if (1) { %s } }", "if (1) { if (%s) { %s } }")
    if n.i(0, 2) == 0:
        w = "if (%s) { } else { %s }"
        return dict(defs=d, pre="signal %s; %s <-- 1;" % (a, a), bad=w % (a + " == 5", st), good=w % ("0", st), nowrap=True)
    return dict(defs=d, pre="signal %s; %s <-- 1;" % (a, a), bad=w % (n.p(a, a + " == 2"), st), good=w % ("1 < 2", st), nowrap=True)


@kind
def unknown_template_argument(n):
    t, d, i, o, m = tmpl(n, ins=0)
    a, c, v = n("a"), n("c"), n("v")
    pre = "signal %s; %s <-- 1; var %s = %s;" % (a, a, v, a)
    return dict(defs=d, pre=pre, bad="component %s = %s(%s);" % (c, t, n.p(a, v, a + " + 1", "%s < 2" % v)),
                good="component %s = %s(%s);" % (c, t, n.p("1", "2 + 3")), nowrap=True)


@kind
def unknown_bus_argument(n):
    b, s, a = n("B"), n("s"), n("a")
    return dict(defs="bus %s(n) { signal x[n]; }\n" % b, pre="signal %s; %s <-- 1;" % (a, a), bad="%s(%s) %s;" % (b, a, s), good="%s(3) %s;" % (b, s), nowrap=True)


@kind
def unknown_dimension(n):
    a, v = n("a"), n("v")
    d = n.p("var %s[%s];", "var %s[2][%s];", "var %s[%s] = [1, 2];") if n.i(0, 1) else n.p("signal %s[%s];", "signal %s[%s][2];")
    return dict(pre="signal %s; %s <-- 1;" % (a, a), bad=d % (v, n.p(a, a + " + 1")), good=d % (v, "2"), nowrap=True)


@kind
def unknown_component_index(n):
    t, d, i, o, m = tmpl(n)
    c, a = n("c"), n("a")
    pre = "signal {a}; {a} <-- 1; component {c}[2]; for (var i = 0; i < 2; i++) {{ {c}[i] = {t}(i); }} {c}[0].{i} <== 1;".format(a=a, c=c, t=t, i=i[0])
    return dict(defs=d, pre=pre, bad="%s[%s].%s <== 3;" % (c, a, i[0]), good="%s[1].%s <== 3;" % (c, i[0]), signal=True, mustgood=True)


@kind
def unknown_signal_index(n):
    s, a = n("s"), n("a")
    return dict(pre="signal %s[3], %s; %s <-- 1;" % (s, a, a), bad="%s[%s] %s 3;" % (s, a, n.p("<==",)), good="%s[1] <== 3;" % s, signal=True)


# ------------------------------------------------------------------ arity and shapes
@kind
def wrong_argument_count(n):
    k = n.i(0, 2)
    want = n.i(0, 3)
    got = n.p(*[x for x in range(5) if x != want])
    ps = ["p%d" % i for i in range(want)]
    ar = lambda q: ", ".join(str(n.i(1, 4)) for _ in range(q))
    if k == 0:
        f = n("f")
        return dict(defs="function %s(%s) { return 3; }\n" % (f, ", ".join(ps)), bad="var %s = %s(%s);" % (n(), f, ar(got)), good="var %s = %s(%s);" % (n(), f, ar(want)))
    if k == 1:
        t, d, i, o, m = tmpl(n, ins=0, params=ps)
        return dict(defs=d, bad="component %s = %s(%s);" % (n(), t, ar(got)), good="component %s = %s(%s);" % (n(), t, ar(want)), nowrap=True)
    b = n("B")
    return dict(defs="bus %s(%s) { signal x; }\n" % (b, ", ".join(ps)), bad="%s(%s) %s;" % (b, ar(got), n()), good="%s(%s) %s;" % (b, ar(want), n()), nowrap=True)


def dimtext(ds):
    return "".join("[%d]" % d for d in ds)


@kind
def index_out_of_bounds(n):
    ds = [n.i(1, 3) for _ in range(n.p(1, 1, 2))]
    good = [n.i(0, d - 1) for d in ds]
    bad = list(good)
    j = n.i(0, len(ds) - 1)
    bad[j] = ds[j] + n.p(0, 0, 1, 5)
    v, w = n("v"), n("w")
    k = n.i(0, 4)
    if k == 0:
        return dict(pre="var %s%s;" % (v, dimtext(ds)), bad="var %s = %s%s;" % (w, v, dimtext(bad)), good="var %s = %s%s;" % (w, v, dimtext(good)))
    if k == 1:
        return dict(pre="var %s%s;" % (v, dimtext(ds)), bad="%s%s = 3;" % (v, dimtext(bad)), good="%s%s = 3;" % (v, dimtext(good)))
    if k == 2:
        return dict(pre="signal %s%s;" % (v, dimtext(ds)), bad="%s%s <== 3;" % (v, dimtext(bad)), good="%s%s <== 3;" % (v, dimtext(good)), signal=True)
    if k == 3:
        t, d, i, o, m = tmpl(n, ins=0)
        return dict(defs=d, pre="component %s%s;" % (v, dimtext(ds)), bad="%s%s = %s(1);" % (v, dimtext(bad), t), good="%s%s = %s(1);" % (v, dimtext(good), t), signal=True)
    b = n("B")
    return dict(defs="bus %s() { signal x%s; }\n" % (b, dimtext(ds)), pre="%s() %s;" % (b, v), bad="%s.x%s <== 3;" % (v, dimtext(bad)),
                good="%s.x%s <== 3;" % (v, dimtext(good)), signal=True)


@kind
def index_not_an_array(n):
    v, w = n("v"), n("w")
    k = n.i(0, 2)
    if k == 0:
        return dict(pre="var %s = 3; var %s;" % (v, w), bad="%s = %s[0];" % (w, v), good="%s = %s;" % (w, v))
    if k == 1:
        return dict(pre="var %s[2]; var %s;" % (v, w), bad="%s = %s[0][1];" % (w, v), good="%s = %s[0];" % (w, v))
    return dict(pre="signal %s; %s <-- 1; var %s;" % (v, v, w), bad="%s = %s[0];" % (w, v), good="%s = %s;" % (w, v))


def lit(n, ds):
    if not ds:
        return str(n.i(0, 9))
    return "[" + ", ".join(lit(n, ds[1:]) for _ in range(ds[0])) + "]"


@kind
def wrong_number_of_dimensions(n):
    ds = [n.i(1, 3) for _ in range(n.i(0, 2))]
    if ds and n.i(0, 1):
        bd = ds[1:]
    else:
        bd = ds + [n.i(1, 2)]
    k = n.i(0, 3)
    v, w = n("v"), n("w")
    if k == 0:
        return dict(pre="var %s%s;" % (v, dimtext(ds)), bad="%s = %s;" % (v, lit(n, bd)), good="%s = %s;" % (v, lit(n, ds)))
    if k == 1:
        return dict(bad="var %s%s = %s;" % (v, dimtext(ds), lit(n, bd)), good="var %s%s = %s;" % (v, dimtext(ds), lit(n, ds)))
    if k == 2:
        return dict(pre="signal %s%s;" % (v, dimtext(ds)), bad="%s %s %s;" % (v, n.p("<==", "<--"), lit(n, bd)), good="%s <== %s;" % (v, lit(n, ds)), signal=True)
    return dict(pre="signal {v}{d}; {v} <-- {l};".format(v=v, d=dimtext(ds), l=lit(n, ds)), bad="%s === %s;" % (v, lit(n, bd)), good="%s === %s;" % (v, lit(n, ds)))


@kind
def different_sizes(n):
    a = n.i(1, 4)
    b = n.p(*[x for x in range(1, 6) if x != a])
    rest = [n.i(1, 2)] if n.i(0, 3) == 0 else []
    v, w = n("v"), n("w")
    k = n.i(0, 3)
    op = n.p("<==", "<--")
    if k == 0:
        return dict(pre="signal %s%s;" % (v, dimtext([a] + rest)), bad="%s %s %s;" % (v, op, lit(n, [b] + rest)), good="%s %s %s;" % (v, op, lit(n, [a] + rest)), signal=True)
    if k == 1:
        return dict(pre="signal {v}{d}; {v} <-- {l};".format(v=v, d=dimtext([a] + rest), l=lit(n, [a] + rest)),
                    bad="%s === %s;" % (v, lit(n, [b] + rest)), good="%s === %s;" % (v, lit(n, [a] + rest)))
    if k == 2:
        t, d, i, o, m = tmpl(n, arr=a)
        return dict(defs=d, pre="component %s = %s(1);" % (v, t), bad="%s.%s %s %s;" % (v, i[0], op, lit(n, [b])), good="%s.%s %s %s;" % (v, i[0], op, lit(n, [a])), signal=True, mustgood=True)
    t, d, i, o, m = tmpl(n, arr=a)
    return dict(defs=d, bad="signal %s <== %s(1)(%s);" % (v, t, lit(n, [b])), good="signal %s <== %s(1)(%s);" % (v, t, lit(n, [a])), nowrap=True)


@kind
def bad_array_literal(n):
    v = n("v")
    bad = n.p("[1, [2]]", "[[1], 2]", "[]", "[[], []]")
    return dict(bad="var %s%s = %s;" % (v, "[2][2]" if bad.startswith("[[") else "[2]", bad), good="var %s[2][2] = [[1, 2], [3, %d]];" % (v, n.i()))


@kind
def array_in_operation(n):
    v, w = n("v"), n("w")
    e = n.p("{v} + 1", "1 * {v}", "-{v}", "!{v}", "{v} == {v}", "{v} ? 1 : 0", "{v} << 2")
    return dict(pre="var %s[2]; var %s = 0;" % (v, v + "b"), bad="var %s = %s;" % (w, e.format(v=v)), good="var %s = %s;" % (w, e.format(v=v + "b")))


@kind
def array_condition(n):
    v = n("v")
    w = n.p("if (%s) { log(1); }", "while (%s) { }" if 0 else "if (%s) { } else { log(2); }", "assert(%s || 1);", "assert(!%s || 1);")
    return dict(pre="var %s[2];" % v, bad=w % v, good=w % (v + "[1]"))


# ------------------------------------------------------------------ components
@kind
def intermediate_signal_access(n):
    t, d, i, o, m = tmpl(n, mid=True)
    c, v = n("c"), n("v")
    f = n.p("var {v} = {c}.{x};", "signal {v}; {v} <== {c}.{x};", "{c}.{x} === 1;", "log({c}.{x});")
    pre = "component {c} = {t}(1); {c}.{i} <== 2;".format(c=c, t=t, i=i[0])
    bad = n.p(m, m, i[0] + "_none")
    return dict(defs=d, pre=pre, bad=f.format(v=v, c=c, x=bad), good=f.format(v=v, c=c, x=o[0]), nowrap="signal" in f)


@kind
def output_before_inputs(n):
    t, d, i, o, m = tmpl(n, ins=2)
    c, v = n("c"), n("v")
    pre = "component {c} = {t}(1); {c}.{i} <== 2;".format(c=c, t=t, i=i[0])
    r = "var {v} = {c}.{o};".format(v=v, c=c, o=o[0]) if n.i(0, 1) else "{c}.{o} === 3;".format(c=c, o=o[0])
    s = "{c}.{i} <== 3;".format(c=c, i=i[1])
    return dict(defs=d, pre=pre, bad=r + s, good=s + r, signal=True, mustgood=True)


@kind
def bus_output_before_inputs(n):
    """reading an output (signal, array, bus, field) while some input (signal, element, bus, field) is still missing"""
    b, t, c, v = n("B"), n("T"), n("c"), n("v")
    defs = ("bus %s() { signal x; signal y[2]; }\ntemplate %s() { input %s() i; signal input k; signal input a[2]; output %s() o; output %s() p[2]; "
            "signal output q; signal output r[2]; o <== i; p[0] <== i; p[1] <== i; q <== k + 1; r <== a; }\n" % (b, t, b, b, b))
    sets = ["{c}.i.x <== 1;", "{c}.i.y[0] <== 2;", "{c}.i.y[1] <== 3;", "{c}.k <== 4;", "{c}.a[0] <== 5;", "{c}.a[1] <== 6;"]
    m = n.i(0, len(sets) - 1)
    e = n.p("{c}.o.x", "{c}.o.y[1]", "{c}.p[1].x", "{c}.p[0].y[0]", "{c}.q", "{c}.r[1]")
    r = n.p("var {v} = %s;", "%s === 1;", "signal {v} <== %s;", "log(%s);", "assert(%s + 1 || 1);", "_ <== %s;") % e
    if n.i(0, 3) == 0:
        r = n.p("%s() {v}; {v} <== {c}.o;" % b, "%s() {v}[2]; {v} <== {c}.p;" % b, "signal {v}[2]; {v} <== {c}.r;", "%s() {v}; {v} <== {c}.p[1];" % b)
    pre = "component {c} = %s();" % t + "".join(x for j, x in enumerate(sets) if j != m)
    f = lambda x: x.format(c=c, v=v)
    return dict(defs=defs, pre=f(pre), bad=f(r + sets[m]), good=f(sets[m] + r), nowrap=True)


@kind
def other_component_of_the_array(n):
    t, d, i, o, m = tmpl(n)
    c, v = n("c"), n("v")
    a, b = n.p((0, 1), (1, 0), (2, 0))
    pre = "component {c}[3]; for (var z = 0; z < 3; z++) {{ {c}[z] = {t}(1); }} {c}[{a}].{i} <== 2;".format(c=c, t=t, i=i[0], a=a)
    r = n.p("var {v} = {c}[{j}].{o};", "{c}[{j}].{o} === 3;", "signal {v} <== {c}[{j}].{o};")
    rest = "".join(" {c}[{k}].{i} <== 2;".format(c=c, i=i[0], k=k) for k in range(3) if k != a)
    f = lambda j: r.format(v=v, c=c, o=o[0], j=j)
    return dict(defs=d, pre=pre, bad=f(b) + rest, good=f(a) + rest, nowrap=True)


@kind
def read_before_assignment(n):
    b, s, v = n("B"), n("s"), n("v")
    decl, sets, reads = n.p(
        ("signal {s};", "{s} <== 3;", ["{s}"]), ("signal {s}[2];", "{s}[0] <== 3; {s}[1] <== 1;", ["{s}[0]", "{s}[1]"]),
        ("signal {s}[2];", "{s} <== [1, 2];", ["{s}[0]", "{s}[1]"]),
        ("%s() {s};" % b, "{s}.x <== 3; {s}.y[0] <== 1; {s}.y[1] <== 2;", ["{s}.x", "{s}.y[1]", "{s}.y[0]"]),
        ("%s() {s}[2];" % b, "for (var z = 0; z < 2; z++) {{ {s}[z].x <== 3; {s}[z].y <== [1, z]; }}", ["{s}[1].x", "{s}[0].y[1]"]))
    e = n.p(*reads)
    r = n.p("var {v} = %s;", "%s === %s;", "log(%s);", "signal {v} <== %s * 2;", "if (%s) {{ log(1); }}", "signal {v}[2]; {v} <== [%s, 1];")
    r = r.replace("%s", e)
    f = lambda x: x.format(s=s, v=v)
    return dict(defs="bus %s() { signal x; signal y[2]; }\n" % b, pre=f(decl), bad=f(r + sets), good=f(sets + r), nowrap=True)


@kind
def bus_assigned_twice(n):
    b, s, r, c, t = n("B"), n("s"), n("r"), n("c"), n("T")
    defs = "bus {b}() {{ signal x; signal y[2]; }}\ntemplate {t}() {{ input {b}() i; signal output q; q <== i.x; }}\n".format(b=b, t=t)
    pre = "{b}() {r}; {r}.x <== 1; {r}.y <== [1, 2];".format(b=b, r=r)
    if n.i(0, 1):
        pre += "component %s = %s();" % (c, t)
        w = c + ".i"
    else:
        pre += "%s() %s;" % (b, s)
        w = s
    parts = ["{w}.x <== 4;", "{w}.y[0] <== 5;", "{w}.y[1] <== 6;"]
    whole = "{w} <== {r};"
    k = n.i(0, 2)
    bad = n.p(whole + parts[k], parts[k] + whole, whole + whole, "".join(parts) + parts[k], parts[0] + "{w}.y <== [1, 2];" + parts[1 + k % 2],
              parts[1] + "{w}.y <== [1, 2];" + parts[0], "if (1) {{ " + whole + " }} " + parts[k])
    good = n.p(whole, "".join(parts), parts[0] + "{w}.y <== [1, 2];")
    f = lambda x: x.format(w=w, r=r)
    return dict(defs=defs, pre=pre, bad=f(bad), good=f(good), nowrap=True)


@kind
def input_never_set(n):
    t, d, i, o, m = tmpl(n, arr=2)
    c = n("c")
    a = "component {c} = {t}(1); {c}.{i}[0] <== 2;".format(c=c, t=t, i=i[0])
    return dict(defs=d, bad=a, good=a + " {c}.{i}[1] <== 2;".format(c=c, i=i[0]), nowrap=True)


@kind
def component_never_initialised(n):
    t, d, i, o, m = tmpl(n, ins=0)
    c, v = n("c"), n("v")
    return dict(defs=d, bad="component %s; if (0) { %s = %s(1); } var %s = %s.%s;" % (c, c, t, v, c, o[0]),
                good="component %s; if (1) { %s = %s(1); } var %s = %s.%s;" % (c, c, t, v, c, o[0]), nowrap=True)


@kind
def component_array_of_two_templates(n):
    t, d, i, o, m = tmpl(n, ins=0)
    t2, d2, i2, o2, m2 = tmpl(n, ins=0)
    c = n("c")
    f = "component {c}[2]; {c}[0] = {a}(1); {c}[1] = {b}(2);" if n.i(0, 1) else "component {c}; if (1) {{ {c} = {a}(1); }} else {{ {c} = {b}(1); }}"
    return dict(defs=d + d2, bad=f.format(c=c, a=t, b=t2) + " var %s = %s.%s;" % (n(), c + ("[0]" if "[2]" in f else ""), o[0]),
                good=f.format(c=c, a=t, b=t) + " var %s = %s.%s;" % (n(), c + ("[0]" if "[2]" in f else ""), o[0]), nowrap=True)


@kind
def nested_component_access(n):
    t, d, i, o, m = tmpl(n, ins=0)
    t2, c, c2 = n("T"), n("c"), n("k")
    d2 = "template %s() { signal output q; component %s = %s(1); q <== %s.%s; }\n" % (t2, c2, t, c2, o[0])
    return dict(defs=d + d2, pre="component %s = %s();" % (c, t2), bad="var %s = %s.%s.%s;" % (n(), c, c2, o[0]), good="var %s = %s.q;" % (n(), c))


@kind
def anonymous_component_inputs(n):
    t, d, i, o, m = tmpl(n, ins=2)
    s = n("s")
    bad = n.p("(1)", "(1, 2, 3)", "()", "({0} <== 1)", "({0} <== 1, {0} <== 2)", "({0} <== 1, {1}_no <== 2)", "({0} <== 1, {1} <== 2, {0} <== 3)")
    good = n.p("(1, 2)", "({0} <== 1, {1} <== 2)", "({1} <== 1, {0} <== 2)")
    return dict(defs=d, bad="signal %s <== %s(1)%s;" % (s, t, bad.format(*i)), good="signal %s <== %s(1)%s;" % (s, t, good.format(*i)), nowrap=True)


@kind
def anonymous_component_arrow(n):
    t, d, i, o, m = tmpl(n)
    s = n("s")
    return dict(defs=d, pre="signal %s;" % s, bad="%s <-- %s(1)(2);" % (s, t), good="%s <== %s(1)(2);" % (s, t), nowrap=True)


@kind
def anonymous_component_outputs(n):
    outs = n.i(1, 3)
    t, d, i, o, m = tmpl(n, outs=outs)
    s = [n("s") for _ in range(5)]
    k = n.p(*[x for x in (1, 2, 3, 4) if x != outs])

    def f(q):
        l = s[0] if q == 1 else "(" + ", ".join(s[:q]) + ")"
        return "%s <== %s(1)(2);" % (l, t)
    return dict(defs=d, pre="signal %s;" % ", ".join(s), bad=f(k), good=f(outs), nowrap=True)


@kind
def anonymous_component_in_unknown(n):
    t, d, i, o, m = tmpl(n)
    s, a = n("s"), n("a")
    return dict(defs=d, pre="signal %s, %s; %s <-- 1;" % (s, a, a), bad="if (%s) { %s <== %s(1)(2); }" % (a, s, t), good="if (1) { %s <== %s(1)(2); }" % (s, t), nowrap=True)


@kind
def tuple_sizes(n):
    k = n.i(2, 4)
    g = n.p(*[x for x in (2, 3, 4, 5) if x != k])
    v = [n("v") for _ in range(k)]
    vals = lambda q: "(" + ", ".join(str(n.i()) for _ in range(q)) + ")"
    return dict(pre="var %s;" % ", ".join(v), bad="(%s) = %s;" % (", ".join(v), vals(g)), good="(%s) = %s;" % (", ".join(v), vals(k)))


@kind
def tuple_in_expression(n):
    v, w = n("v"), n("w")
    bad = n.p("var {v} = (1, 2);", "var {v} = (1, 2) + 1;", "if ((1, 2)) {{ log(2); }}", "assert((1, 2));", "(1, 2) === (1, 2);",
              "var {v} = 1 ? (1, 2) : (2, 3);", "var {v}[2] = [(1, 2), 3];")
    return dict(bad=bad.format(v=v), good="var %s, %s; (%s, %s) = (1, 2);" % (v, w, v, w))


@kind
def underscore_misused(n):
    v = n("v")
    return dict(bad=n.p("var %s = _;", "var %s = _ + 1;", "var %s[2] = [_, 1];", "var %s; %s = _;".replace("%s; %s", "%s")) % v, good="_ = 3; var %s = 1;" % v)


# ------------------------------------------------------------------ functions
@kind
def return_in_template(n):
    w = n.p("%s", "if (1) { %s }", "for (var i = 0; i < 1; i++) { %s }", "{ %s }")
    return dict(bad=w % ("return %d;" % n.i()), good=w % ("log(%d);" % n.i()))


@kind
def function_without_return(n):
    f, v = n("f"), n("v")
    b = n.p("if (x) { return 1; }", "", "var y = x;", "while (x) { return 2; }", "if (x) { return 1; } else { if (x == 2) { return 3; } }",
            "for (var i = 0; i < 3; i++) { return i; }", "if (x) { var z = 3; } else { return 2; }")
    return dict(bad_defs="function %s(x) { %s }\n" % (f, b), good_defs="function %s(x) { %s return 5; }\n" % (f, b), bad="var %s = %s(%d);" % (v, f, n.i(0, 3)), good="var %s = %s(%d);" % (v, f, n.i(0, 3)))


@kind
def template_operators_in_function(n):
    f, v = n("f"), n("v")
    t, d, i, o, m = tmpl(n, ins=0)
    b = n.p("signal s;", "signal input s;", "signal output s;", "component c = %s(1);" % t, "component c;", "x === 1;", "var y; y <== x;", "var y; y <-- x;",
            "if (0) { x === 1; }", "if (x) { signal s; }", "var y = %s(1);" % t)
    return dict(defs=d, bad_defs="function %s(x) { %s return x; }\n" % (f, b), good_defs="function %s(x) { %s return x; }\n" % (f, n.p("var s;", "log(x);", "assert(x == x);")),
                bad="var %s = %s(1);" % (v, f), good="var %s = %s(1);" % (v, f))


@kind
def function_parameter_shape(n):
    f, v = n("f"), n("v")
    return dict(defs="function %s(x) { return x[0] + x[1]; }\n" % f, bad="var %s = %s(%s);" % (v, f, n.p("1", "[[1, 2], [3, 4]]")), good="var %s = %s([1, 2]);" % (v, f))


@kind
def inconsistent_returns(n):
    f, v = n("f"), n("v")
    b = "if (x == %d) { return %%s; } return 2;" % n.i(0, 2)
    return dict(bad_defs="function %s(x) { %s }\n" % (f, b % "[1, 2]"), good_defs="function %s(x) { %s }\n" % (f, b % "7"), bad="var %s = %s(1);" % (v, f), good="var %s = %s(1);" % (v, f))


@kind
def template_used_as_function(n):
    t, d, i, o, m = tmpl(n, ins=0)
    f = n("f")
    v = n("v")
    k = n.i(0, 1)
    if k:
        return dict(defs=d + "function %s(x) { return x; }\n" % f, bad="var %s = %s(1);" % (v, t), good="var %s = %s(1);" % (v, f))
    return dict(defs=d + "function %s(x) { return x; }\n" % f, bad="component %s = %s(1);" % (v, f), good="component %s = %s(1);" % (v, t), nowrap=True)


# ------------------------------------------------------------------ asserts and arithmetic
@kind
def known_false_assert(n):
    a = n.i(0, 9)
    e = n.p("{a} == {a} + 1", "{a} < 0", "0", "!({a} == {a})", "{a} > {a}", "1 && 0", "{a} - {a}")
    return dict(bad="assert(%s);" % e.format(a=a), good="assert(!(%s));" % e.format(a=a))


@kind
def known_false_assert_in_function(n):
    f, v = n("f"), n("v")
    k = n.i(1, 6)
    return dict(defs="function %s(x) { assert(x < %d); return x; }\n" % (f, k), bad="var %s = %s(%d);" % (v, f, k), good="var %s = %s(%d);" % (v, f, k - 1))


@kind
def constant_division_by_zero(n):
    v = n("v")
    z = n.p("0", "(3 - 3)", "(1 && 0)", "(2 > 3)")
    op = n.p("/", "\\", "%")
    return dict(bad="var %s = %d %s %s;" % (v, n.i(0, 5), op, z), good="var %s = %d %s %d;" % (v, n.i(0, 5), op, n.i(1, 5)))


@kind
def division_by_zero_of_a_signal(n):
    v, a = n("v"), n("a")
    return dict(pre="signal %s; %s <-- 1;" % (a, a), bad="%s / %s === 1;" % (a, n.p("0", "(4 - 4)")), good="%s / %d === 1;" % (a, n.i(1, 5)))


@kind
def huge_dimension(n):
    v = n("v")
    return dict(nogold=True, bad="var %s[%s];" % (v, n.p("-1", "0 - 5", "2**80", "1 / 3")), good="var %s[%s];" % (v, n.p("5 - 1", "2 ** 3", "4 / 2")))


# ------------------------------------------------------------------ buses
@kind
def bus_fields(n):
    b, s, v = n("B"), n("s"), n("v")
    return dict(defs="bus %s() { signal x; signal y[2]; }\n" % b, pre="{b}() {s}; {s}.x <== 1; {s}.y <== [1, 2];".format(b=b, s=s),
                bad="var %s = %s.%s;" % (v, s, n.p("z", "x.y", "y.x", "x_no")), good="var %s = %s.%s;" % (v, s, n.p("x", "y[0]", "y[1]")))


@kind
def bus_types(n):
    b, c, s, v = n("B"), n("C"), n("s"), n("v")
    defs = "bus %s() { signal x; }\nbus %s() { signal x; }\n" % (b, c)
    return dict(defs=defs, pre="{b}() {s}; {s}.x <== 1;".format(b=b, s=s), bad="%s() %s; %s %s %s;" % (c, v, v, n.p("<==", "<--"), s),
                good="%s() %s; %s <== %s;" % (b, v, v, s), nowrap=True)


@kind
def bus_parameters_differ(n):
    b, s, v = n("B"), n("s"), n("v")
    defs = "bus %s(n) { signal x[n]; }\n" % b
    i = n.i(1, 3)
    j = n.p(*[q for q in range(1, 5) if q != i])
    return dict(defs=defs, pre="{b}({i}) {s}; {s}.x <== {l};".format(b=b, s=s, i=i, l=lit(n, [i])), bad="%s(%d) %s; %s %s %s;" % (b, j, v, v, n.p("<==", "<--"), s),
                good="%s(%d) %s; %s <== %s;" % (b, i, v, v, s), nowrap=True)


@kind
def bus_used_as_signal(n):
    b, s, v = n("B"), n("s"), n("v")
    return dict(defs="bus %s() { signal x; }\n" % b, pre="{b}() {s}; {s}.x <== 1;".format(b=b, s=s),
                bad=n.p("var {v} = {s} + 1;", "signal {v} <== {s};", "{s} === 1;", "log({s});", "if ({s}) {{ log(1); }}").format(v=v, s=s),
                good=n.p("var {v} = {s}.x + 1;", "signal {v} <== {s}.x;", "{s}.x === 1;", "log({s}.x);").format(v=v, s=s), nowrap=True)


@kind
def invalid_bus_body(n):
    b, s = n("B"), n("s")
    bad = n.p("x <== 1;", "component c;", "signal input y;", "signal output y;", "if (1) { signal y; }", "log(1);", "assert(1);", "x === 1;", "for (var i = 0; i < 2; i++) { }", "return 1;")
    if n.i(0, 6) == 0:
        c = n("C")
        return dict(bad_defs="bus %s() { signal x; %s() y; }\nbus %s() { %s() z[2]; }\n" % (b, c, c, b), good_defs="bus %s() { signal x; %s() y; }\nbus %s() { signal z[2]; }\n" % (b, c, c),
                    bad="%s() %s; %s.x <== 2;" % (b, s, s), good="%s() %s; %s.x <== 2;" % (b, s, s), nowrap=True)
    if n.i(0, 6) == 0:
        return dict(bad_defs="bus %s() { signal x; %s() y; }\n" % (b, b), good_defs="bus %s() { signal x; }\n" % b, bad="%s() %s; %s.x <== 2;" % (b, s, s), good="%s() %s; %s.x <== 2;" % (b, s, s), nowrap=True)
    return dict(bad_defs="bus %s() { signal x; %s }\n" % (b, bad), good_defs="bus %s() { signal x; signal y; }\n" % b, bad="%s() %s; %s.x <== 2;" % (b, s, s),
                good="%s() %s; %s.x <== 2;" % (b, s, s), nowrap=True)


# ------------------------------------------------------------------ tags
@kind
def missing_tag(n):
    t, c, s, i = n("T"), n("c"), n("s"), n("in")
    tg, other = n("tag"), n("tag")
    d = "template %s() { signal input {%s} %s; signal output o; o <== %s; }\n" % (t, tg, i, i)
    decl = n.p("signal {1};", "signal {{{2}}} {1};").format(tg, s, other)
    good = "signal {%s} %s;" % (tg, s)
    use = "%s <-- 1; component %s = %s(); %s.%s %s %s;" % (s, c, t, c, i, n.p("<==", "<=="), s)
    return dict(defs=d, bad=decl + use, good=good + use, nowrap=True)


@kind
def missing_tag_in_bus(n):
    """inputs that are buses with a tag of their own or with tagged fields"""
    b, t, c, s, tg = n("B"), n("T"), n("c"), n("s"), n("tag")
    inner, fieldtag = n("I"), n("tag")
    k = n.i(0, 4)
    if k == 0:        # tag of the whole bus
        defs = "bus {b}() {{ signal x; }}\ntemplate {t}() {{ input {b}() {{{tg}}} i; signal output o; o <== i.x; }}\n"
        bad, good = "{b}() {s}; ", "{b}() {{{tg}}} {s}; "
        rest = "{s}.x <== 1; component {c} = {t}(); {c}.i <== {s};"
    elif k == 1:      # tagged field set from a signal without the tag
        defs = "bus {b}() {{ signal {{{tg}}} x; signal y; }}\ntemplate {t}() {{ input {b}() i; signal output o; o <== i.x; }}\n"
        bad, good = "signal {s}; ", "signal {{{tg}}} {s}; "
        rest = "{s} <== 1; component {c} = {t}(); {c}.i.y <== 2; {c}.i.x <== {s};"
    elif k == 2:      # field of an inner bus
        defs = "bus {n}() {{ signal {{{tg}}} x; }}\nbus {b}() {{ {n}() z; signal y; }}\ntemplate {t}() {{ input {b}() i; signal output o; o <== i.z.x; }}\n"
        bad, good = "signal {s}; ", "signal {{{tg}}} {s}; "
        rest = "{s} <== 1; component {c} = {t}(); {c}.i.z.x <== {s}; {c}.i.y <== 2;"
    elif k == 3:      # tag of an inner bus
        defs = "bus {n}() {{ signal x; }}\nbus {b}() {{ {n}() {{{tg}}} z; signal y; }}\ntemplate {t}() {{ input {b}() i; signal output o; o <== i.z.x; }}\n"
        bad, good = "{n}() {s}; ", "{n}() {{{tg}}} {s}; "
        rest = "{s}.x <== 1; component {c} = {t}(); {c}.i.y <== 2; {c}.i.z <== {s};"
    else:             # array of signals
        defs = "template {t}() {{ signal input {{{tg}}} i[2]; signal output o; o <== i[1]; }}\n"
        bad, good = "signal {s}[2]; ", "signal {{{tg}}} {s}[2]; "
        rest = "{s} <== [1, 2]; component {c} = {t}(); " + n.p("{c}.i <== {s};", "{c}.i[0] <== {s}[0]; {c}.i[1] <== {s}[1];")
    f = lambda x: x.format(b=b, t=t, c=c, s=s, tg=tg, n=inner)
    return dict(defs=f(defs), bad=f(bad + rest), good=f(good + rest), nowrap=True)


@kind
def tag_after_assignment(n):
    s, tg = n("s"), n("tag")
    a, b = "%s.%s = %d;" % (s, tg, n.i()), "%s <== %d;" % (s, n.i())
    return dict(pre="signal {%s} %s;" % (tg, s), bad=b + a, good=a + b, signal=True)


@kind
def tag_value_unknown(n):
    s, tg, a = n("s"), n("tag"), n("a")
    return dict(pre="signal {%s} %s; signal %s; %s <-- 1;" % (tg, s, a, a), bad="%s.%s = %s;" % (s, tg, a), good="%s.%s = 4;" % (s, tg), signal=True)


@kind
def tag_not_declared(n):
    s, tg, v = n("s"), n("tag"), n("v")
    return dict(pre="signal {%s} %s; %s.%s = 3; %s <== 2;" % (tg, s, s, tg, s), bad="var %s = %s.%s_no;" % (v, s, tg), good="var %s = %s.%s;" % (v, s, tg))


@kind
def tag_without_value(n):
    s, tg, v = n("s"), n("tag"), n("v")
    i = "%s.%s = %d;" % (s, tg, n.i())
    r = "var %s = %s.%s;" % (v, s, tg)
    return dict(pre="signal {%s} %s;" % (tg, s), bad=r, good=i + r, signal=True)


@kind
def tag_in_unknown(n):
    s, tg, a = n("s"), n("tag"), n("a")
    w = n.p("if (%s) { %s }", "while (%s < 1) { %s }" if 0 else "if (%s) { log(1); %s }")
    return dict(pre="signal {%s} %s; signal %s; %s <-- 1;" % (tg, s, a, a), bad=w % (a, "%s.%s = 1;" % (s, tg)), good=w % ("1", "%s.%s = 1;" % (s, tg)), signal=True)


# ------------------------------------------------------------------ custom templates
@kind
def custom_template_body(n):
    t, c = n("T"), n("c")
    t2, d, i, o, m = tmpl(n, ins=0)
    bad = n.p("o <== x;", "o <-- x; o === x;", "component k = %s(1); o <-- x;" % t2, "signal y <== 1; o <-- x;")
    f = "template custom %s() { signal input x; signal output o; %s }\n"
    use = "component %s = %s(); %s.x <== 1;" % (c, t, c)
    return dict(defs=d, bad_defs=f % (t, bad), good_defs=f % (t, n.p("o <-- x;", "var v = x * x; o <-- v * x;")), bad=use, good=use, nowrap=True, custom=True)


# ------------------------------------------------------------------ whole program
@kind
def top_duplicate_definition(n):
    f = n("f")
    mk = [lambda x: "function %s(a) { return 1; }\n" % x, lambda x: "template %s() { signal output o; o <== 1; }\n" % x, lambda x: "bus %s() { signal o; }\n" % x]
    a = n.p(*mk)
    b = a if n.i(0, 1) else n.p(*mk)
    return dict(bad_defs=a(f) + b(f), good_defs=a(f) + b(f + "2"), bad="", good="")


@kind
def top_repeated_parameter(n):
    f = n("f")
    a = n.p("function %s(a, b%s) { return 1; }\n", "template %s(a, b%s) { signal output o; o <== 1; }\n", "bus %s(a, b%s) { signal o; }\n")
    return dict(bad_defs=a % (f, ", a"), good_defs=a % (f, ", c"), bad="", good="")


@kind
def top_unreached_definition(n):
    """names are resolved in every definition"""
    f, v = n("f"), n("v")
    w = n.p("function %s(a) { var b = %s; return b; }\n", "template %s(a) { signal output o; o <-- %s; }\n")
    return dict(bad_defs=w % (f, v), good_defs=w % (f, "a"), bad="", good="")


@kind
def top_main(n):
    t, d, i, o, m = tmpl(n, ins=2)
    return dict(main={"bad": n.p("none", "two", "args", "undefined", "function", "public_unknown", "public_output", "public_intermediate", "not_call", "args_unknown"), "name": t, "def": d, "in": i, "out": o}, bad="", good="")


@kind
def top_pragma(n):
    return dict(pragma=n.p("pragma circom 2.3.0;", "pragma circom 3.0.0;", "pragma circom 2.2.40;", "pragma circom 12.0.0;", "pragma something;", "pragma circom 2.0.0; pragma circom 2.0.0;"), bad="", good="")


@kind
def top_custom_without_pragma(n):
    t, c = n("T"), n("c")
    use = "component %s = %s(); %s.x <== 1;" % (c, t, c)
    f = "template custom %s() { signal input x; signal output o; o <-- x; }\n" % t
    return dict(bad_defs=f, good_defs=f, bad=use, good=use, nowrap=True, custom="good")


@kind
def top_include(n):
    return dict(include="no_such_file_%d.circom" % n.i(), bad="", good="")


@kind
def syntax(n):
    v = n("v")
    bad = n.p("var {v} = 3", "var {v} = ;", "var {v} = (3;", "var {v} = 3);", "{{ var {v} = 1;", "var {v} = 1; }}", "var {v} = 3 +;", "var {v} = 1 2;",
              "var 3{v} = 1;", "var {v} = 0xZ1;", "var signal = 1;", "var for = 3;", "var template = 1;", "{v} := 3;", "var {v} = \"a\";", "var {v} = 1 /* ;",
              "component {v} = ;", "if 1 {{ log(2); }}", "var {v}; else {{ log(2); }}", "var {v} = 1 === 2;", "log(;", "var {v}; {v} = ({v} = 3) + 2;", "var {v}; if ({v} = 3) {{ log(1); }}",
              "var {v} = 3 ? 1;", "var $ = 1 @ 2;", "signal inputs {v}", "template {v}() {{ }}", "function {v}() {{ return 1; }}", "include \"x\";", "var {v} = _;").format(v=v)
    return dict(bad=bad, good="var %s = 3;" % v, nowrap=True)


def build(ch, name=None):
    n = N(ch)
    k = name or ch.pick(sorted(KINDS))
    d = KINDS[k](n)
    d["kind"] = k
    for f in ("defs", "pre", "bad_defs", "good_defs"):
        d.setdefault(f, "")
    for f in ("nowrap", "signal", "custom", "mustgood"):
        d.setdefault(f, False)
    return d
