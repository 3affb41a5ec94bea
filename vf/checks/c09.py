import collections
from ..common import *
from ..rawsys import raw_system


class CHECK(Check):
    id = "C09"
    rule = ("random programs (components, arrays of components, buses, arrays; anonymous components in a third), every "
            "simplification level and prime; the .sym file is compared with the signals that the reference interpreter "
            "creates, and with the .r1cs file: labels 1..n, every witness position once and agreeing with the wire to "
            "label map, -1 exactly for the private signals of no constraint, one component number per component, not shared by different templates; "
            "non-trivial: at least 2 components or 8 signals")
    assumptions = ["the component number identifies the template instance (two components of one instance share it)",
                   "names of anonymous components are not specified: only their number of signals is compared"]
    cases = {"quick": 7000, "thorough": 120000}

    def case(self, ctx, ch, idx):
        prime = pick_prime(ch, 80)
        opt = pick_opt(ch)
        c = Case(ch, prime, 1, logs=False, asserts=False, mayfail=0, anon=ch.chance(33), steps=(2, 9),
                 linear_heavy=ch.chance(40), runtime_ops=ch.chance(20))
        it = c.its[0]
        with run.Scratch() as d:
            k = c.compile(ctx, d, flags=("--r1cs", "--sym"), opt=opt)
            try:
                sym, r1 = k.sym(), k.r1cs()
            except (fmt.FormatError, ValueError) as e:
                c.fail("format", "malformed file: %s" % e)
        o = " ".join(opt) or "default"
        if [s.label for s in sym] != list(range(1, len(sym) + 1)):
            c.fail("labels", "the labels are not 1..n in order (%s)" % o)
        names = collections.Counter(s.name for s in sym)
        want = collections.Counter(l.name for l in it.leaves)
        if it.main is not None and not it.stats.get("anon"):
            if names != want:
                c.fail("names", "missing in .sym: %s; unexpected: %s" % (list((want - names))[:5], list((names - want))[:5]))
        else:
            if len(sym) != sum(want.values()):
                c.fail("names", "%d signals in .sym, the program has %d" % (len(sym), sum(want.values())))
            dup = [n for n, q in names.items() if q > 1]
            if dup:
                c.fail("names", "repeated names %s" % dup[:3])
        wires = [s.wire for s in sym if s.wire != -1]
        if sorted(wires) != list(range(1, r1.nwires)):
            c.fail("wires", "the witness positions in .sym are not 1..%d once each (%s)" % (r1.nwires - 1, o))
        for s in sym:
            if s.wire != -1 and r1.map[s.wire] != s.label:
                c.fail("map", "%s is signal %d at position %d, which the .r1cs file maps to signal %d (%s)" % (
                    s.name, s.label, s.wire, r1.map[s.wire], o))
        if "--O0" in opt:
            for s in sym:
                if s.wire != s.label:
                    c.fail("o0", "signal %s is not kept at O0" % s.name)
        else:
            used = set(w for t in r1.cons for lc in t for w in lc)
            npub = r1.npubout + r1.npubin
            for s in sym:
                if s.wire > npub and s.wire not in used:
                    c.fail("unused", "%s has a witness position and occurs in no constraint (%s)" % (s.name, o))
                if s.wire == -1 and s.label <= npub:
                    c.fail("public", "the public signal %s has no witness position (%s)" % (s.name, o))
        ninst = 1
        if not it.stats.get("anon"):
            inst = {l.name: id(l.inst) for l in it.leaves}
            ids = {}
            for s in sym:
                a = inst[s.name]
                if ids.setdefault(a, s.comp) != s.comp:
                    c.fail("component", "%s has component number %d, other signals of its component %d" % (s.name, s.comp, ids[a]))
            tm = {}
            for l in it.leaves:
                n = ids[id(l.inst)]
                if tm.setdefault(n, l.inst.tmpl) is not l.inst.tmpl:
                    c.fail("component", "components of templates %s and %s have the same number" % (tm[n].name, l.inst.tmpl.name))
            ninst = len(ids)
        return Result(ninst > 1 or len(sym) >= 8, c.key(opt), ["opt " + (opt[0] if opt else "default"), "components %s" % min(ninst, 4)] + c.feat,
                      c.sample(opt, "%d signals" % len(sym)))
