"""Random constraint systems as circom text, for the simplification checks."""


def coef(ch, p):
    k = ch.draw(6)
    if k <= 2:
        return 1
    if k == 3:
        return p - 1
    if k == 4:
        return ch.int(2, 9)
    return ch.big(p) or 1


def num(c, p):
    return "-%d" % (p - c) if c > p // 2 else str(c)


def lin(ch, p, names, nmax, const=True):
    n = ch.int(1, nmax)
    vs = ch.sample(names, n)
    ts = ["%s * %s" % (num(coef(ch, p), p), v) for v in vs]
    if const and ch.chance(40):
        ts.append(num(ch.big(p) if ch.chance(30) else ch.int(0, 9), p))
    return " + ".join(ts)


def system(ch, p, names, m, feat):
    """m constraints over names"""
    out = []
    hist = []
    staged = ch.pick([1, 1, 9])
    for _ in range(m):
        k = ch.weighted([(5, "eq"), (2, "const"), (7, "lin"), (2, "dense"), (4, "quad"), (1, "dup"), (2, "comb"), (1, "fake"), (2, "cancel"), (1, "zero"), (staged, "staged")])
        if k == "eq":
            a, b = ch.pick(names), ch.pick(names)
            c = "%s === %s;" % (a, b)
            hist.append((a, b))
        elif k == "const":
            a, b = ch.pick(names), num(ch.big(p) if ch.chance(30) else ch.int(0, 5), p)
            c = "%s === %s;" % (a, b)
            hist.append((a, b))
        elif k in ("lin", "dense"):
            a = lin(ch, p, names, 3 if k == "lin" else 8)
            b = lin(ch, p, names, 2)
            c = "%s === %s;" % (a, b)
            hist.append((a, b))
        elif k == "quad":
            c = "(%s) * (%s) === %s;" % (lin(ch, p, names, 2), lin(ch, p, names, 2), lin(ch, p, names, 3))
            feat.add("quadratic")
        elif k == "dup":
            if not out:
                continue
            c = ch.pick(out)
            feat.add("duplicate")
        elif k == "comb":
            if len(hist) < 2:
                continue
            (a, b), (x, y) = ch.pick(hist), ch.pick(hist)
            c = "%s + %d * (%s) === %s + (%s);" % (a, 2, x, b, y)
            if ch.chance(60):
                c = "%s + %d * (%s) === %s + %d * (%s);" % (a, 3, x, b, 3, y)
                feat.add("redundant")
        elif k == "fake":
            a = ch.pick(names)
            c = "%s * %s + %s === %s * %s;" % (a, a, lin(ch, p, names, 2), a, a) if False else \
                "(%s) * 1 === 0 + %s;" % (lin(ch, p, names, 2), a)
        elif k == "staged":
            # one factor becomes a constant by an earlier constraint: linear in a later round
            if not hist:
                continue
            a, b = hist[-1] if ch.chance(60) else ch.pick(hist)
            q = ch.int(1, 5)
            x, y = lin(ch, p, names, 2), lin(ch, p, names, 2)
            c = "(%s - (%s) + %d) * (%s) === %s;" % (a, b, q, x, y)
            hist.append(("%d * (%s)" % (q, x), y))
            feat.add("staged")
        elif k == "cancel":
            # quadratic that becomes linear once one factor is known
            a, b = ch.pick(names), ch.pick(names)
            q = ch.int(0, 3)
            out.append("%s === %d;" % (a, q))
            x, y = lin(ch, p, names, 2), lin(ch, p, names, 2)
            c = "%s * (%s) === %s;" % (a, x, y)
            hist.append(("%d * (%s)" % (q, x), y))
            feat.add("becomes linear")
        else:
            a = ch.pick(names)
            c = "%s - %s === 0;" % (a, a)
        out.append(c)
    return out


def raw_system(ch, p):
    feat = set()
    o = ["pragma circom 2.1.0;"]
    subs = []
    for t in range(ch.weighted([(3, 0), (3, 1), (2, 2)])):
        ni, no, ns = ch.int(1, 3), ch.int(1, 2), ch.int(0, 5)
        names = ["i[%d]" % k for k in range(ni)] + ["o[%d]" % k for k in range(no)] + ["s[%d]" % k for k in range(ns)]
        body = ["  signal input i[%d]; signal output o[%d]; signal s[%d];" % (ni, no, ns) if ns else
                "  signal input i[%d]; signal output o[%d];" % (ni, no)]
        body += ["  for (var k = 0; k < %d; k++) o[k] <-- 0;" % no]
        if ns:
            body += ["  for (var k = 0; k < %d; k++) s[k] <-- 0;" % ns]
        if subs and ch.chance(40):
            sn, si, so = ch.pick(subs)
            body.append("  component c = %s();" % sn)
            for k in range(si):
                body.append("  c.i[%d] <== %s;" % (k, lin(ch, p, names, 2) if ch.chance(40) else ch.pick(names)))
            names += ["c.o[%d]" % k for k in range(so)]
            feat.add("nested")
        body += ["  " + c for c in system(ch, p, names, ch.int(0, 5), feat)]
        nm = "T%d" % t
        o.append("template %s() {\n%s\n}" % (nm, "\n".join(body)))
        subs.append((nm, ni, no))
    big = 1 if ch.chance(6) else 2 if ch.chance(3) else 0
    ni, no, ns = ch.int(1, 4), ch.int(1, 3), ch.int(1, 12) if not big else ch.int(20, 90) if big == 1 else ch.int(380, 700)
    names = ["i[%d]" % k for k in range(ni)] + ["o[%d]" % k for k in range(no)] + ["s[%d]" % k for k in range(ns)]
    body = ["  signal input i[%d]; signal output o[%d]; signal s[%d];" % (ni, no, ns),
            "  for (var k = 0; k < %d; k++) o[k] <-- 0;" % no, "  for (var k = 0; k < %d; k++) s[k] <-- 0;" % ns]
    if subs:
        for q in range(ch.int(1, 4)):
            sn, si, so = ch.pick(subs)
            body.append("  component c%d = %s();" % (q, sn))
            for k in range(si):
                body.append("  c%d.i[%d] <%s %s;" % (q, k, "==" if ch.chance(85) else "--", lin(ch, p, names, 3) if ch.chance(50) else ch.pick(names)))
            names += ["c%d.o[%d]" % (q, k) for k in range(so)]
        feat.add("components")
    if big == 2:
        # one cluster of more than 350 linear constraints: the simplifier uses another algorithm
        feat.add("huge")
        for k in range(ch.int(350, ns - 5)):
            a = names.index("s[0]") + k
            vs = [names[a]] + [names[ch.int(max(0, a - 12), min(len(names) - 1, a + 12))] for _ in range(ch.int(2, 3))]
            body.append("  " + " + ".join("%s * %s" % (num(coef(ch, p), p), v) for v in vs) + " === %d;" % ch.int(0, 3))
        body += ["  " + c for c in system(ch, p, names, ch.int(1, 40), feat)]
    else:
        body += ["  " + c for c in system(ch, p, names, ch.int(1, 14) if not big else ch.int(ns // 2, ns * 2), feat)]
    if big == 1:
        feat.add("big")
    o.append("template Main() {\n%s\n}" % "\n".join(body))
    pub = " {public [i]}" if ch.chance(40) else ""
    o.append("component main%s = Main();" % pub)
    return "\n".join(o) + "\n", sorted(feat)
