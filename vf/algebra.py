"""Systems of quadratic equations over a prime field: a canonical form of what follows from them by linear reasoning.

A polynomial is a dict {monomial: coefficient}; a monomial is (), (v,) or (v, w) with v <= w.
closure() computes the linear equations that follow by: taking linear combinations of the equations, substituting the
known linear equations in the quadratic ones, and repeating until nothing changes.  Two systems with the same closure
(same reduced echelon form of the linear part, and of the quadratic part modulo it) have the same solutions."""


class Linear:
    """reduced row echelon form of linear equations; the pivot of a row is its greatest variable"""

    def __init__(self, p):
        self.p = p
        self.rows = {}        # pivot -> {var: coef, () : const} meaning pivot = sum
        self.uses = {}        # var -> set of pivots whose row uses it
        self.bad = False      # 1 = 0 was derived

    def reduce(self, lin):
        """lin: {var or (): coef} -> without pivots"""
        p = self.p
        out = {}
        for v, c in lin.items():
            r = self.rows.get(v) if v != () else None
            if r is None:
                out[v] = (out.get(v, 0) + c) % p
            else:
                for u, d in r.items():
                    out[u] = (out.get(u, 0) + c * d) % p
        return {v: c for v, c in out.items() if c}

    def add(self, lin):
        """true if the equation lin = 0 is new"""
        p = self.p
        lin = self.reduce(lin)
        vs = [v for v in lin if v != ()]
        if not vs:
            if lin and not self.bad:
                self.bad = True
                return True
            return False
        piv = max(vs)
        inv = -pow(lin.pop(piv), -1, p) % p
        row = {v: c * inv % p for v, c in lin.items()}
        for q in list(self.uses.pop(piv, ())):
            r = self.rows[q]
            c = r.pop(piv)
            for u, d in row.items():
                n = (r.get(u, 0) + c * d) % p
                if n:
                    if u not in r and u != ():
                        self.uses.setdefault(u, set()).add(q)
                    r[u] = n
                else:
                    if u in r:
                        del r[u]
                        if u != ():
                            self.uses[u].discard(q)
        self.rows[piv] = row
        for u in row:
            if u != ():
                self.uses.setdefault(u, set()).add(piv)
        return True


def subst(poly, L):
    p = L.p
    out = {}
    rows = L.rows
    for m, c in poly.items():
        if len(m) == 2:
            a, b = m
            ra = rows.get(a) or {a: 1} if a in rows else {a: 1}
            if a in rows:
                ra = rows[a]
            rb = rows[b] if b in rows else {b: 1}
            for x, u in ra.items():
                for y, v in rb.items():
                    if x == ():
                        k = () if y == () else (y,)
                    elif y == ():
                        k = (x,)
                    else:
                        k = (x, y) if x <= y else (y, x)
                    out[k] = (out.get(k, 0) + c * u * v) % p
        elif len(m) == 1 and m[0] in rows:
            for y, v in rows[m[0]].items():
                k = () if y == () else (y,)
                out[k] = (out.get(k, 0) + c * v) % p
        else:
            out[m] = (out.get(m, 0) + c) % p
    return {k: v for k, v in out.items() if v}


def _order(m):
    return (len(m), m)


def echelon(polys, p):
    """reduced echelon form over monomials, quadratic monomials first: (rows, linear polynomials found)"""
    rows = {}
    for f in polys:
        f = dict(f)
        while f:
            m = max(f, key=_order)
            if m in rows:
                c = f[m]
                for k, v in rows[m].items():
                    n = (f.get(k, 0) - c * v) % p
                    if n:
                        f[k] = n
                    else:
                        f.pop(k, None)
                continue
            inv = pow(f[m], -1, p)
            rows[m] = {k: v * inv % p for k, v in f.items()}
            break
    # full reduction
    for m in sorted(rows, key=_order):
        f = rows[m]
        for k in sorted([k for k in f if k != m and k in rows], key=_order, reverse=True):
            c = f.get(k)
            if not c:
                continue
            for k2, v in rows[k].items():
                n = (f.get(k2, 0) - c * v) % p
                if n:
                    f[k2] = n
                else:
                    f.pop(k2, None)
    return rows


def closure(polys, p):
    L = Linear(p)
    quad = [f for f in polys if f]
    while True:
        rest = []
        new = False
        for f in quad:
            if L.bad:
                break
            if all(len(m) < 2 for m in f):
                new |= L.add({(m[0] if m else ()): c for m, c in f.items()})
            else:
                rest.append(f)
        if L.bad:
            break
        quad = [g for g in (subst(f, L) for f in rest) if g]
        if any(all(len(m) < 2 for m in f) for f in quad):
            continue
        rows = echelon(quad, p)
        quad = list(rows.values())
        if not any(len(m) < 2 for m in rows):
            break
    if L.bad:
        return "inconsistent", None, None
    return "ok", L, {m: f for m, f in (echelon(quad, p)).items()}


def same(a, b):
    """None or a description of the difference of two closures"""
    if a[0] != b[0]:
        return "one system is inconsistent and the other is not"
    if a[0] != "ok":
        return None
    if a[1].rows != b[1].rows:
        for v in sorted(set(a[1].rows) | set(b[1].rows)):
            if a[1].rows.get(v) != b[1].rows.get(v):
                return "linear consequences differ: signal %s is %s in the first, %s in the second" % (
                    v, lin_str(a[1].rows.get(v)), lin_str(b[1].rows.get(v)))
    if a[2] != b[2]:
        x = [m for m in set(a[2]) | set(b[2]) if a[2].get(m) != b[2].get(m)]
        return "the quadratic constraints differ: leading terms %s; first: %s; second: %s" % (
            sorted(x)[:3], a[2].get(x[0]), b[2].get(x[0]))
    return None


def lin_str(r):
    return "free" if r is None else (" + ".join("%d*%s" % (c, v if v != () else 1) for v, c in sorted(r.items(), key=str)) or "0")
