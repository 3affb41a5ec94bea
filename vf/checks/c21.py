import collections
from ..common import *
from ..lang import Printer, If, While, For, Block, Assign, SigDecl, BusDecl, TupDecl, Template
from ..interp import K, LIN, NQ

CA = re.compile(r'^(warning|error)\[(CA0[12])\]: In template "(.*?)": (.*)$')
KINDS = [("CA01", re.compile(r"^Local signal (\S+) does not appear in any constraint$"), 1),
         ("CA01", re.compile(r"^Array of local signals (\S+) contains a total of (\d+) signals that do not appear in any constraint$"), 2),
         ("CA02", re.compile(r"^Subcomponent input/output signal (\S+) does not appear in any constraint of the father component$"), 1),
         ("CA02", re.compile(r"^Array of subcomponent input/output signals (\S+) contains a total of (\d+) signals that do not appear in any "
                             r"constraint of the father component$"), 2)]


def instances(inst, out):
    if inst.tmpl is not None and inst.executed:
        out.append(inst)
    for c in inst.children:
        instances(c, out)
    return out


def leaf_list(inst, kinds=None):
    from ..interp import leaves
    return [l for n in inst.sigs if kinds is None or inst.kinds[n] in kinds for l in leaves(inst.sigs[n])]


def group(name):
    a, dot, b = name.rpartition(".")
    return a + dot + b.split("[")[0]


def statements(s, out):
    if isinstance(s, list):
        for x in s:
            statements(x, out)
    elif isinstance(s, Block):
        statements(s.stmts, out)
    elif isinstance(s, If):
        statements([x for x in (s.t, s.e) if x is not None], out)
    elif isinstance(s, (While, For)):
        statements(s.body, out)
    else:
        out.append(s)
    return out


def model(it):
    """warnings about signals: {(template instance, code, group): set of names}, and the groups that are not judged"""
    used = collections.defaultdict(set)
    unsure = collections.defaultdict(set)
    p = it.p
    for abc, inst in zip(it.constraints, it.consinst):
        names = [set(n for n, v in lc.items() if n is not None and v % p) for lc in abc]
        zero = set(n for lc in abc for n, v in lc.items() if n is not None and v % p == 0)
        if zero or bool(abc[0]) != bool(abc[1]) or (abc[0] and not (names[0] and names[1])):
            unsure[inst] |= names[0] | names[1] | zero      # (whether a product with 0 mentions the other factor)
        else:
            names[2] |= names[0] | names[1]
        used[inst] |= names[2]
    for inst, v in it.under:
        parts = [] if v.k == K else [v.s] if v.k == LIN else list(v.s)
        for lc in parts:
            for n, c in lc.items():
                if n is not None:
                    (used if c % p else unsure)[inst].add(n)
    res, skip = {}, set()
    for inst in instances(it.main, []):
        rep = "%s(%s)" % (inst.tmpl.name, ",".join(str(a.c) for a in inst.args))
        cand = [("CA01", l) for l in leaf_list(inst)]
        for c in inst.children:
            cand += [("CA02", l) for l in leaf_list(c, ("input", "output"))]
        for code, l in cand:
            assert l.name.startswith(inst.name + "."), (l.name, inst.name)
            rel = l.name[len(inst.name) + 1:]
            if l.name in used[inst]:
                continue
            if l.name in unsure[inst]:
                skip.add((rep, group(rel)))
            res.setdefault((rep, code, group(rel)), set()).add(rel)
    return res, skip


class CHECK(Check):
    id = "C21"
    rule = ("random programs (loops, arrays, buses, arrays of components, hints, assignments to _) compiled with --inspect; "
            "the warnings about signals in no constraint are compared, per template instance, with the signals of the "
            "instance and of its subcomponents that occur in no constraint of the instance in the reference interpreter, the "
            "warnings about <-- with the statements whose values are at most quadratic; without --inspect there are none, "
            "and the .r1cs file is the same; non-trivial: at least one warning of each class is expected")
    assumptions = ["signals whose only occurrence is multiplied by a constant 0 are not judged",
                   "statements inside conditionals with unknown conditions are not judged for <--; where variables are assigned under such "
                   "conditions only those with at most quadratic values for sure are"]
    cases = {"quick": 6000, "thorough": 100000}

    def case(self, ctx, ch, idx):
        prime = pick_prime(ch, 60)
        opt = pick_opt(ch)
        c = Case(ch, prime, 1, anon=False, logs=False, mayfail=0, steps=(2, 9))
        it = c.its[0]
        if it.main is None:
            raise Discard("no main")
        pr = Printer()
        if pr.program(c.prog) != c.src:
            raise Discard("printing is not stable")
        hints = {}            # line -> outcomes
        for t in c.prog.defs:
            if type(t) is Template:
                for s in statements(t.body, []):
                    line = pr.line[id(s)]
                    for o in it.hints.get(id(s), ()):
                        hints.setdefault(line, set()).add(o)
                for s in walk_unknown(t.body):      # the branch that is not taken is analysed, too
                    hints.setdefault(pr.line[id(s)], set()).add("unknown")
        with run.Scratch() as d:
            k = c.compile(ctx, d, flags=("--r1cs", "--inspect"), opt=opt)
            text = ANSI.sub("", k.res.text)
            b = open(k.path(".r1cs"), "rb").read()
            if ch.chance(25):
                k2 = c.compile(ctx, d, flags=("--r1cs",), opt=opt, out=d + "/plain")
                t2 = ANSI.sub("", k2.res.text)
                if "CA01" in t2 or "CA02" in t2 or "T3002" in t2:
                    c.fail("uninspected", "warnings of --inspect without it: " + t2[-500:])
                if open(k2.path(".r1cs"), "rb").read() != b:
                    c.fail("changed", "--inspect changes the .r1cs file")
        got, where = {}, {}
        lines = text.split("\n")
        for n, l in enumerate(lines):
            m = CA.match(l)
            if m:
                rep, msg = m.group(3), m.group(4)
                for code, rx, arr in KINDS:
                    q = rx.match(msg)
                    if q and code == m.group(2) and m.group(1) == "warning":
                        break
                else:
                    c.fail("message", "unexpected warning: " + l)
                ex = None
                if arr == 2:
                    e = re.match(r"^ = For example: (\S+), (\S+)\.$", lines[n + 1]) if n + 1 < len(lines) else None
                    if not e:
                        c.fail("message", "no examples after: %s: %s" % (l, lines[n + 1:n + 2]))
                    ex = (e.group(1), e.group(2))
                key = (rep, code, q.group(1) if arr == 2 else group(q.group(1)))
                if key in got:
                    c.fail("repeated", "repeated warning: " + l)
                got[key] = (int(q.group(2)), ex) if arr == 2 else (1, (q.group(1),))
            elif l.startswith("warning[T3002]"):
                kind = "multi" if "some of positions" in l else "single"
                for x in lines[n + 1:n + 5]:
                    m = re.search(r'┌─ ".*":(\d+):\d+$', x)
                    if m:
                        where.setdefault(int(m.group(1)), set()).add(kind)
                        break
                else:
                    c.fail("message", "no place for the warning: " + l)
        want, skip = model(it)
        for key in sorted(set(got) | set(want)):
            if (key[0], key[2]) in skip:
                continue
            w = sorted(want.get(key, ()))
            g = got.get(key)
            if not w or g is None:
                c.fail("signals", "%s: %s expected, warning: %s" % (key, w or "nothing", g))
            if g[0] != len(w) or list(g[1]) != w[:2]:
                c.fail("signals", "%s: the warning has %d signals, for example %s; expected %s" % (key, g[0], g[1], w))
        nh = 0
        for line in set(where) | set(hints):
            w, g = hints.get(line, set()), where.get(line, set())
            if "unknown" in w or it.fuzzy and w != {"single"}:
                continue
            nh += len(w - {"none"})
            if g != w - {"none"}:
                c.fail("arrow", "line %d (%s): suggestion to use <==: %s, expected %s" % (
                    line, c.src.split("\n")[line - 1].strip(), sorted(g), sorted(w - {"none"})))
        reps = set(k[0] for k in want)
        return Result(bool(want) and nh > 0, c.key(opt), ["instances %d" % min(4, len(reps)), "prime " + prime]
                      + (["array warnings"] if any(len(v) > 1 for v in want.values()) else [])
                      + (["subcomponent warnings"] if any(k[1] == "CA02" for k in want) else [])
                      + (["some positions"] if any("multi" in v for v in hints.values()) else []) + c.feat,
                      c.sample(opt, "%d warnings about signals, %d about <--" % (len(want), nh)))


def walk_unknown(body):
    """statements inside any conditional (whether its condition is known is decided by the execution)"""
    out = []

    def f(s, inside):
        if isinstance(s, list):
            for x in s:
                f(x, inside)
        elif isinstance(s, Block):
            f(s.stmts, inside)
        elif isinstance(s, If):
            f([x for x in (s.t, s.e) if x is not None], True)
        elif isinstance(s, (While, For)):
            f(s.body, inside)
        elif inside:
            out.append(s)
    f(body, False)
    return out
