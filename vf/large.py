"""Programs that are large in one respect, with their signals and values in closed form.

Every family returns a Large: source, input, the value of every signal by name, the number of constraints with and without
a product before simplification, and the number after a full simplification (None: not predicted)."""


class Large:
    def __init__(self, src, inp, vals, nq, nl, o2=None, label="", logs=None, cpp=True):
        self.src, self.inp, self.vals, self.nq, self.nl, self.o2, self.label, self.logs, self.cpp = \
            "pragma circom 2.1.0;\n" + src, inp, vals, nq, nl, o2, label, logs, cpp


def flat(pre, x, out):
    if isinstance(x, list):
        for i, y in enumerate(x):
            flat("%s[%d]" % (pre, i), y, out)
    else:
        out[pre] = x


def chain(ch, p):
    n = ch.pick([300, 1 << 12, 65530, 65537]) + ch.draw(3000)
    k, m = ch.big(p), 3 + ch.draw(9)
    a = ch.big(p)
    sq = ch.chance(70)
    src = """template Main(n) { signal input a; signal output o; signal s[n];
 s[0] <== %s;
 for (var i = 1; i < n; i++) { s[i] <== s[i-1]*%s + (i%%%d)*%d; }
 o <== s[n-1]*a + s[n\\2]; }
component main = Main(%d);""" % ("a*a" if sq else "a + 5", "s[i-1]" if sq else "3", m, k, n)
    s = [a * a % p if sq else (a + 5) % p]
    for i in range(1, n):
        s.append((s[-1] * (s[-1] if sq else 3) + (i % m) * k) % p)
    v = {"main.a": a, "main.o": (s[-1] * a + s[n // 2]) % p}
    flat("main.s", s, v)
    return Large(src, {"a": a}, v, n + 1 if sq else 1, 0 if sq else n, n + 1 if sq else 1, "chain")


def comps(ch, p):
    n = ch.pick([200, 3000, 22000]) + ch.draw(500)
    kinds = 1 + ch.draw(5)
    k = [ch.big(p) for _ in range(kinds)]
    a = ch.big(p)
    step = n // 400 + 1
    src = """template T(k) { signal input x; signal output y; signal t; t <== x*x + k; y <== t*x - x; }
template Main(n) { signal input a; signal output o; component c[n]; var K[%d] = [%s];
 for (var i = 0; i < n; i++) { c[i] = T(K[i%%%d]); }
 var acc = 0;
 for (var i = 0; i < n; i++) { c[i].x <== a + i; }
 for (var i = n-1; i != -1; i--) { if (i %% %d == 0) { acc += c[i].y*(i+1); } }
 o <== acc; }
component main = Main(%d);""" % (kinds, ", ".join(map(str, k)), kinds, step, n)
    v = {"main.a": a}
    acc = 0
    for i in range(n):
        x = (a + i) % p
        t = (x * x + k[i % kinds]) % p
        y = (t * x - x) % p
        c = "main.c[%d]." % i
        v[c + "x"], v[c + "t"], v[c + "y"] = x, t, y
        if i % step == 0:
            acc = (acc + y * (i + 1)) % p
    v["main.o"] = acc
    return Large(src, {"a": a}, v, 2 * n, n + 1, 2 * n, "components", cpp=n < 4000)      # (g++ takes minutes for the unrolled creation)


def inputs(ch, p):
    n = ch.pick([300, 5000, 66000]) + ch.draw(3000)
    m, q = 1 + ch.draw(40), 1 + ch.draw(40)
    pub = ch.subset(["x", "y"], 50)
    x = [ch.draw(9) for _ in range(64)]
    x = [x[i % 64] + i for i in range(n)]
    y = [[ch.draw(1000) for _ in range(q)] for _ in range(m)]
    step = n // 1000 + 1
    src = """template Main(n, m, q) { signal input x[n]; signal input y[m][q]; signal output o[2]; var s = 0; var t = 0;
 for (var i = 0; i < n; i++) { if (i%%STEP == 0) { s += x[i]*(i+1); } }
 for (var i = 0; i < m; i++) { for (var j = 0; j < q; j++) { t += (i*7 + j)*y[i][j]; } }
 o[0] <== s; o[1] <== s*t; }
component main %s= Main(%d, %d, %d);""".replace("STEP", str(step)) % ("{public [%s]} " % ", ".join(pub) if pub else "", n, m, q)
    s = sum((i + 1) * u for i, u in enumerate(x) if i % step == 0) % p
    t = sum((i * 7 + j) * u for i, r in enumerate(y) for j, u in enumerate(r)) % p
    v = {"main.o[0]": s, "main.o[1]": s * t % p}
    flat("main.x", x, v)
    flat("main.y", y, v)
    z = m == 1 and q == 1      # then the second sum is the constant 0
    return Large(src, {"x": x, "y": y}, v, 0 if z else 1, 2 if z else 1, None, "inputs")


def names(ch, p):
    """hundreds of input signals with different names"""
    n = ch.pick([40, 120, 257, 600, 1300]) + ch.draw(100)
    pat = ch.pick(["a%d", "in_%d", "x%d_", "%dz".replace("%d", "q%d"), "_a%x", "signal_with_a_long_name_%d", "A%d$"])
    nm = [pat % (i * 7) for i in range(n)]
    k = [ch.draw(5) + 1 + i for i in range(n)]
    dims = [2 if i % 13 == 5 else 0 for i in range(n)]
    val = {a: ([3 * i + 1, i + 2] if d else i * i + 5) for i, (a, d) in enumerate(zip(nm, dims))}
    decl = " ".join("signal input %s%s;" % (a, "[%d]" % d if d else "") for a, d in zip(nm, dims))
    e = " + ".join("%d*%s" % (c, a + "[1]" if d else a) for a, d, c in zip(nm, dims, k))
    src = "template Main() { %s signal output o; var s = %s; o <== s*%s; }\ncomponent main = Main();" % (decl, e, nm[0])
    pick = lambda a: val[a][1] if isinstance(val[a], list) else val[a]
    v = {"main.o": sum(c * pick(a) for a, c in zip(nm, k)) * val[nm[0]] % p}
    for a in nm:
        flat("main." + a, val[a], v)
    return Large(src, dict((a, val[a]) for a in ch.shuffle(nm)), v, 1, 0, 1, "names")


def constants(ch, p):
    n = ch.pick([100, 260, 1100, 3000]) + ch.draw(100)
    ks = [ch.big(p) for _ in range(20)]
    k = [(ks[i % 20] * (i + 1) + i * i) % p for i in range(n)]
    a = ch.big(p)
    hint = ch.chance(50)
    body = " ".join("o[%d] %s;" % (i, ("<-- a ^ %d" if hint else "<== a*%d + b") % c) for i, c in enumerate(k))
    src = "template Main() { signal input a; signal input b; signal output o[%d]; signal q; q <== a*b; %s }\ncomponent main = Main();" % (n, body)
    v = {"main.a": a, "main.b": 7, "main.q": 7 * a % p}
    mask = (1 << p.bit_length()) - 1
    flat("main.o", [((a ^ c) & mask) % p if hint else (a * c + 7) % p for c in k], v)
    return Large(src, {"a": a, "b": 7}, v, 1, 0 if hint else n, None, "constants")


def deep(ch, p):
    n = 20 + ch.draw(130)
    a = ch.big(p)
    src = """template T(n) { signal input x; signal output y; signal z[2];
 if (n == 0) { y <== x*x; z[0] <== x; z[1] <== 1; }
 else { component c = T(n-1); c.x <== x + n; z[0] <== c.y*x; z[1] <== c.y; y <== z[0] + n; } }
component main = T(%d);""" % n
    v = {}

    def go(n, x, pre):
        v[pre + "x"] = x
        if n == 0:
            v[pre + "z[0]"], v[pre + "z[1]"], v[pre + "y"] = x, 1, x * x % p
        else:
            y = go(n - 1, (x + n) % p, pre + "c.")
            v[pre + "z[0]"], v[pre + "z[1]"], v[pre + "y"] = y * x % p, y, (y * x + n) % p
        return v[pre + "y"]
    go(n, a, "main.")
    return Large(src, {"x": a}, v, n + 1, 2 + 3 * n, n + 1, "deep")


def loops(ch, p):
    """long loops, recursion and large arrays when the witness is calculated"""
    n = ch.pick([100, 3000, 70000]) + ch.draw(100)
    m = ch.pick([10, 400, 3000, 7000]) + ch.draw(50)
    d = ch.pick([1, 5, 30, 120]) if m < 500 else ch.pick([1, 5])
    a = ch.draw(1000)
    src = """function f(n, x) { var s = 0; for (var i = 0; i < n; i++) { s = s*3 + x + i; } return s; }
function g(x, d) { var r[%d]; for (var i = 0; i < %d; i++) { r[i] = x*i + d; }
 if (d == 0) { return r[%d]; } return g(x + 1, d - 1)*2 + r[(x + d) %% %d]; }
template Main() { signal input n; signal input a; signal output o[3];
 o[0] <-- f(n, a); o[1] <-- g(a, %d);
 var v[%d]; for (var i = 0; i < %d; i++) { v[i] = a + i; }
 o[2] <-- v[(a*a) %% %d]; }
component main = Main();""" % (m, m, m - 1, m, d, m, m, m)
    s = 0
    for i in range(n):
        s = (s * 3 + a + i) % p

    def g(x, d):
        if d == 0:
            return (x * (m - 1)) % p
        return (g(x + 1, d - 1) * 2 + x * ((x + d) % m) + d) % p
    v = {"main.n": n, "main.a": a, "main.o[0]": s, "main.o[1]": g(a, d), "main.o[2]": a + (a * a) % m}
    return Large(src, {"n": n, "a": a}, v, 0, 0, 0, "loops")


def templates(ch, p):
    n = ch.pick([30, 129, 260, 500]) + ch.draw(30)
    a = ch.big(p)
    t, u, v = [], [], {"main.a": a}
    tot = 0
    for i in range(n):
        k = i % 4
        t.append("template T%d() { signal input x%s; signal output y; %sy <== x%s*%d + %d*b%s; }" % (
            i, "[%d]" % k if k else "", "var b = %d; " % i, "[%d]*x[0]" % (k - 1) if k else "*x", i + 1, i, ""))
        u.append(" component c%d = T%d(); %s s += c%d.y*%d;" % (
            i, i, " ".join("c%d.x[%d] <== a + %d;" % (i, j, j) for j in range(k)) if k else "c%d.x <== a - %d;" % (i, i), i, i + 1))
        if k:
            for j in range(k):
                v["main.c%d.x[%d]" % (i, j)] = (a + j) % p
            y = (a + k - 1) * a
        else:
            v["main.c%d.x" % i] = (a - i) % p
            y = (a - i) ** 2
        y = (y * (i + 1) + i * i) % p
        v["main.c%d.y" % i] = y
        tot += y * (i + 1)
    v["main.o"] = tot % p
    src = "\n".join(t) + "\ntemplate Main() { signal input a; signal output o; var s = 0;\n" + "\n".join(u) + "\n o <== s; }\ncomponent main = Main();"
    return Large(src, {"a": a}, v, n, 1 + sum(i % 4 or 1 for i in range(n)), None, "templates")


def functions(ch, p):
    n = ch.pick([30, 130, 400]) + ch.draw(30)
    a = ch.draw(1000)
    t = "\n".join("function f%d(x%s) { var r = x + %d; if (r %% 2 == %d) { return r*%d; } return r + %d; }" % (
        i, ", y" if i % 3 else "", i, i % 2, i + 2, 5 * i) for i in range(n))
    call = lambda i, e: "f%d(%s%s)" % (i, e, ", 1" if i % 3 else "")
    body = " ".join("o[%d] <-- %s;" % (i, call(i, "a" if i == 0 else "o[%d]" % (i - 1))) for i in range(n))
    src = t + "\ntemplate Main() { signal input a; signal output o[%d]; %s }\ncomponent main = Main();" % (n, body)
    v, x = {"main.a": a}, a
    for i in range(n):
        r = (x + i) % p
        x = (r * (i + 2) if r % 2 == i % 2 else r + 5 * i) % p
        v["main.o[%d]" % i] = x
    return Large(src, {"a": a}, v, 0, 0, 0, "functions")


def buses(ch, p):
    n, m, r = 1 + ch.draw(40), 1 + ch.draw(20), 1 + ch.draw(12)
    if ch.chance(30):
        n, r = 300 + ch.draw(600), min(r, 4)
    src = """bus In(m) { signal v[m]; signal w; }
bus Out(n, m) { In(m) b[n]; signal q[2]; }
template P(n, m) { input Out(n, m) x; output Out(n, m) y; for (var i = 0; i < n; i++) { for (var j = 0; j < m; j++) { y.b[i].v[j] <== x.b[i].v[m-1-j]; } y.b[i].w <== x.b[i].w*x.b[n-1-i].w; } y.q <== x.q; }
template Main(n, m, r) { signal input a; signal output o; Out(n, m) s[r]; component c[r];
 for (var k = 0; k < r; k++) { c[k] = P(n, m); }
 for (var i = 0; i < n; i++) { for (var j = 0; j < m; j++) { s[0].b[i].v[j] <== a + i*m + j; } s[0].b[i].w <== a*(i+1); }
 s[0].q <== [a*a, 3];
 for (var k = 0; k < r; k++) { c[k].x <== s[k]; if (k + 1 < r) { s[k+1] <== c[k].y; } }
 o <== c[r-1].y.b[n\\2].w + c[r-1].y.b[0].v[m\\2]; }
component main = Main(%d, %d, %d);""" % (n, m, r)
    a = ch.big(p)
    V = [[(a + i * m + j) % p for j in range(m)] for i in range(n)]
    W = [a * (i + 1) % p for i in range(n)]
    q = [a * a % p, 3]
    v = {"main.a": a}

    def put(pre):
        for i in range(n):
            flat("%s.b[%d].v" % (pre, i), V[i], v)
            v["%s.b[%d].w" % (pre, i)] = W[i]
        flat(pre + ".q", q, v)
    for k in range(r):
        put("main.s[%d]" % k)
        put("main.c[%d].x" % k)
        V = [x[::-1] for x in V]
        W = [W[i] * W[n - 1 - i] % p for i in range(n)]
        put("main.c[%d].y" % k)
    v["main.o"] = (W[n // 2] + V[0][m // 2]) % p
    size = n * (m + 1) + 2
    return Large(src, {"a": a}, v, r * n + 1, size - 1 + r * size + (r - 1) * size + r * (n * m + 2) + 1, None, "buses")


def statements(ch, p):
    n = ch.pick([50, 400, 3000]) + ch.draw(100)
    a = ch.big(p)
    body, v, prev = [], {"main.a": a}, ("a", a)
    for i in range(n):
        nm = "s%d" % i
        if i % 3 == 0:
            body.append("signal %s; %s <== %s*a + %d;" % (nm, nm, prev[0], i))
            x = (prev[1] * a + i) % p
        elif i % 3 == 1:
            body.append("signal %s; %s <-- %s + a; %s === a + %s;" % (nm, nm, prev[0], nm, prev[0]))
            x = (prev[1] + a) % p
        else:
            body.append("var v%d = %s*2 - 1; signal %s <== v%d + a;" % (i, prev[0], nm, i))
            x = (prev[1] * 2 - 1 + a) % p
        v["main." + nm] = x
        prev = (nm, x)
    v["main.o"] = prev[1] * prev[1] % p
    src = "template Main() { signal input a; signal output o;\n%s\no <== %s*%s; }\ncomponent main = Main();" % ("\n".join(body), prev[0], prev[0])
    nq = (n + 2) // 3 + 1
    return Large(src, {"a": a}, v, nq, n - (n + 2) // 3, None, "statements")


def matrix(ch, p):
    d = [ch.int(1, 9), ch.int(1, 30), ch.int(1, 30), ch.int(1, 5)]
    if ch.chance(30):
        d = [6, 40, 50, 6]
    step = d[0] * d[1] * d[2] * d[3] // 300 + 1
    src = """template Main(a, b, c, d) { signal input x[b][d]; signal output o; signal s[a][b][c][d]; var t = 0;
 for (var i = 0; i < a; i++) { for (var j = 0; j < b; j++) { for (var k = 0; k < c; k++) { for (var l = 0; l < d; l++) {
  s[i][j][k][l] <== x[j][l]*x[(j+i)%%b][(l+k)%%d]; if ((j*7+k)%%%d == 0) { t += s[i][j][k][l]; } } } } }
 o <== t; }
component main {public [x]} = Main(%d, %d, %d, %d);""" % tuple([step] + d)
    A, B, C, D = d
    x = [[(j * 31 + l * 17 + 2) ** 2 for l in range(D)] for j in range(B)]
    v, t = {}, 0
    for i in range(A):
        for j in range(B):
            for k in range(C):
                for l in range(D):
                    z = x[j][l] * x[(j + i) % B][(l + k) % D] % p
                    v["main.s[%d][%d][%d][%d]" % (i, j, k, l)] = z
                    if (j * 7 + k) % step == 0:
                        t += z
    v["main.o"] = t % p
    flat("main.x", x, v)
    return Large(src, {"x": x}, v, A * B * C * D, 1, None, "matrix")


FAMILIES = [chain, comps, inputs, names, constants, deep, loops, templates, functions, buses, statements, matrix]
