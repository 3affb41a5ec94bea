import copy, itertools, json, os
from ..common import *


def elems(dims):
    return ["".join("[%d]" % i for i in x) for x in itertools.product(*[range(d) for d in dims])]


class Num(int):
    """a value to be written as a JSON number"""


def dump(x):
    if isinstance(x, dict):
        return "{" + ", ".join(json.dumps(k) + ": " + dump(v) for k, v in x.items()) + "}"
    if isinstance(x, list):
        return "[" + ", ".join(dump(v) for v in x) + "]"
    if isinstance(x, Num):
        return str(int(x))
    return json.dumps(x)


class Interface:
    """declarations of the inputs of main"""

    def __init__(self, ch):
        self.ch = ch
        nb = ch.draw(4)
        self.buses = {}
        for b in range(nb):
            fs = []
            for j in range(ch.int(1, 3)):
                sub = ch.pick(list(self.buses)) if self.buses and ch.chance(30) else None
                fs.append((ch.pick(["z", "a", "x", "in", "$f", "_g", "B0"]) + str(j), self.dims(), sub))
            self.buses["B%d" % b] = fs
        self.decls = []
        self.total = 0
        many = ch.weighted([(12, 0), (1, 1), (1, 2)])
        for j in range(ch.int(0, 6)):
            self.add(ch.pick(["s", "in", "a_", "M", "value$"]) + str(j), self.dims(True), ch.pick(list(self.buses)) if self.buses and ch.chance(35) else None, 150)
        if many == 1:       # fills the table of the names
            n = ch.pick([255, 256, 257, 300]) - sum(self.names(*d) for d in self.decls)
            for j in range(max(n, 0)):
                self.add("k%d" % j, [], None, 10000)
        elif many == 2:
            self.add("big", [ch.int(100, 400)], None, 10000)
        self.many = many

    def dims(self, zero=False):
        ch = self.ch
        return [0 if zero and ch.chance(6) else ch.int(1, 3) for _ in range(ch.weighted([(5, 0), (3, 1), (1, 2), (1, 3)]))]

    def leaves(self, name, dims, bus):
        out = []
        for e in elems(dims):
            if bus is None:
                out.append(name + e)
            else:
                for f, d, s in self.buses[bus]:
                    out += self.leaves(name + e + "." + f, d, s)
        return out

    def names(self, name, dims, bus):
        """how many keys the input occupies"""
        if bus is None:
            return 1
        return sum(self.names(f, d, s) for e in elems(dims) for f, d, s in self.buses[bus])

    def add(self, name, dims, bus, limit):
        n = len(self.leaves("", dims, bus))
        if self.total + n <= limit:
            self.total += n
            self.decls.append((name, dims, bus))

    def value(self, name, dims, bus, f):
        if dims:
            return [self.value(name + "[%d]" % i, dims[1:], bus, f) for i in range(dims[0])]
        if bus is None:
            return f(name)
        return {x: self.value(name + "." + x, d, s, f) for x, d, s in self.buses[bus]}


class CHECK(Check):
    id = "C17"
    rule = ("random interfaces of main (scalars, arrays, buses, hundreds of names, empty arrays) in circuits with subcomponents and an assertion, and "
            "sequences of 3 to 8 input objects for one calculator: correct ones in several notations (decimal, "
            "hexadecimal, octal and binary strings, numbers, values beyond the prime, negative ones, flat arrays, serialized buses, any order of "
            "the keys), and incorrect ones (missing, unknown or misspelt names, too short or too long arrays, wrong shapes, texts that are not numbers); "
            "the WASM calculator, one instance for the whole sequence and the three ways of asking for the witness, and for some cases the C++ program "
            "and generate_witness.js give the witness of the values, or refuse; non-trivial: at least one correct and one incorrect object")
    assumptions = ["strings with negative numbers are only given to the WASM calculator: the C++ one refuses them",
                   "arrays that mix numbers and strings are not generated", "unknown names with empty arrays are not generated"]
    cases = {"quick": 6000, "thorough": 100000}

    def case(self, ctx, ch, idx):
        prime = pick_prime(ch, 40)
        p = PRIMES[prime]
        I = Interface(ch)
        # ---- the circuit
        leaves = {d[0]: I.leaves(*d) for d in I.decls}
        allv = [l for d in I.decls for l in leaves[d[0]]]
        src = ["pragma circom 2.1.0;"]
        for b, fs in I.buses.items():
            src.append("bus %s {" % b)
            src += ["    %s %s%s;" % (s or "signal", f, "".join("[%d]" % x for x in d)) for f, d, s in fs]
            src.append("}")
        src.append("template Sq(n) { signal input x[n]; signal output y; var t = 0; for (var i = 0; i < n; i++) { t += x[i]; } y <== t * t; }")
        src.append("template Main() {")
        used = [ch.pick(allv) for _ in range(ch.int(0, 4))] if allv else []
        outs = ch.int(0, 2)
        for n, d, b in I.decls:
            src.append("    %s input %s%s;" % (b or "signal", n, "".join("[%d]" % x for x in d)))
        src.append("    signal output out;")
        src.append("    component q = Sq(%d);" % (len(used) + 1))
        for i, l in enumerate(used):
            src.append("    q.x[%d] <== %s;" % (i, l))
        src.append("    q.x[%d] <== 3;" % len(used))
        src.append("    out <== q.y;")
        guard = ch.pick(allv) if allv and ch.chance(50) else None
        if guard:
            src.append("    assert(%s != 5);" % guard)
        src.append("    signal output dummy[2];")
        src.append("    dummy[0] <== 1; dummy[1] <== %s;" % (ch.pick(allv) if allv else "2"))
        src.append("}")
        src.append("component main = Main();")
        src = "\n".join(src) + "\n"
        # ---- the history
        hist = []       # (text, expected values or None, what, for C++ too)
        for _ in range(ch.int(3, 8)):
            hist.append(self.op(ch, I, p, guard))
        apis = [ch.pick(["wtns", "wtns", "list", "bin"]) for _ in hist]
        reuse = ch.chance(75)
        cpp = ch.draw(100) >= 95
        cli = ch.draw(100) >= 96
        fl = {"source": src, "prime": prime, "inputs": "\n".join("%s  [%s, %s]" % (h[0], h[2], a) for h, a in zip(hist, apis))}

        def fail(sig, msg):
            raise Fail(sig, msg, **fl)

        def judge(who, h, err, w):
            text, vals, what, _ = h
            short = text if len(text) < 400 else text[:400] + "..."
            if vals is None:
                if err is None:
                    fail("accepted", "%s gives a witness for an incorrect input (%s): %s" % (who, what, short))
                return
            if err is not None:
                fail("refused", "%s refuses a correct input (%s): %s: %s" % (who, what, short, err[-300:]))
            if len(w) != nw:
                fail("size", "%s: %d values in the witness, expected %d" % (who, len(w), nw))
            tot = (sum(vals[l] for l in used) + 3) ** 2 % p
            bad = ["%s = %d, not %d" % (l, w[pos["main." + l]], v) for l, v in vals.items() if w[pos["main." + l]] != v]
            if w[pos["main.out"]] != tot:
                bad.append("out = %d, not %d" % (w[pos["main.out"]], tot))
            if bad or w[0] != 1:
                fail("value", "%s, %s: wrong values: %s; input %s" % (who, what, "; ".join(bad[:5]), short))
        with run.Scratch() as d:
            k = ctx.R.compile(d, src, prime=prime, opt=["--O0"], flags=["--r1cs", "--sym", "--wasm"] + (["-c"] if cpp else []))
            if not k.res.ok:
                fail("panic" if k.res.panicked else "rejected", "not compiled: " + ANSI.sub("", k.res.text)[-500:])
            pos = {s.name: s.wire for s in k.sym()}
            nw = k.r1cs().nwires
            for h, a, r in zip(hist, apis, ctx.R.wasm(k, [h[0] for h in hist], apis=apis, reuse=reuse)):
                if r.get("etype") == "trap":
                    fail("trap", "the WASM code traps: %s; input %s" % (r["error"], h[0][:300]))
                if "error" in r:
                    judge("WASM (%s)" % a, h, str(r["error"]), None)
                elif a == "list":
                    judge("calculateWitness", h, None, [int(x) for x in r["witness"]])
                elif a == "bin":
                    n8 = 8 * ((p.bit_length() + 63) // 64)
                    b = r["wtns"]
                    judge("calculateBinWitness", h, None, [int.from_bytes(b[i:i + n8], "little") for i in range(0, len(b), n8)])
                else:
                    q, n8, w = fmt.read_wtns(r["wtns"])
                    if q != p:
                        fail("prime", "the witness file has the prime %d" % q)
                    judge("calculateWTNSBin", h, None, w)
            if cpp:
                exe, err = ctx.R.build_cpp(k)
                if exe is None:
                    fail("cpp-build", err)
                hs = [h for h in hist if h[3]]
                for h, r in zip(hs, ctx.R.cpp(k, exe, [h[0] for h in hs])):
                    if "error" in r:
                        judge("C++", h, str(r["error"]) or "rc %s" % r["rc"], None)
                    else:
                        judge("C++", h, None, fmt.read_wtns(r["wtns"])[2])
            if cli:
                for n, h in enumerate(hist[:3]):
                    ip, op = os.path.join(d, "in%d.json" % n), os.path.join(d, "o%d.wtns" % n)
                    with open(ip, "w") as f:
                        f.write(h[0])
                    r = run.exec_(["node", "--max-old-space-size=1500", os.path.join(os.path.dirname(k.wasm), "generate_witness.js"), k.wasm, ip, op], cwd=d, timeout=20 * ctx.R.scale, mem=None)
                    if r.rc == 0 and os.path.exists(op):
                        judge("generate_witness.js", h, None, fmt.read_wtns(open(op, "rb").read())[2])
                    elif r.rc != 0 and not os.path.exists(op):
                        judge("generate_witness.js", h, r.text, None)
                    else:
                        fail("cli", "generate_witness.js: status %s, file written: %s" % (r.rc, os.path.exists(op)))
        good = sum(1 for h in hist if h[1] is not None)
        return Result(0 < good < len(hist), src + repr([h[0] for h in hist]),
                      ["prime " + prime, "C++" if cpp else "WASM", "one instance" if reuse else "fresh instances"] +
                      (["generate_witness.js"] if cli else []) + (["many names"] if I.many == 1 else []) + sorted({h[2] for h in hist}),
                      {"source": src[:900], "inputs": [h[0][:200] for h in hist[:4]]}, len(hist))

    # ------------------------------------------------------------------
    def op(self, ch, I, p, guard):
        vals = {}
        big = ch.chance(40)

        def v(name):
            x = (ch.big(p) if big and ch.chance(60) else ch.draw(12)) % p
            vals[name] = x
            return x
        obj = {n: I.value(n, d, b, v) for n, d, b in I.decls}
        kind = ch.weighted([(5, "good"), (5, "bad")])
        what, cpp = "correct", True
        expect = dict(vals)
        if guard and vals.get(guard) == 5:
            expect, what = None, "assertion"
        decls = list(I.decls)
        if kind == "bad" and (ch.draw(8) or not any(b for _, _, b in I.decls)):
            kind = "good"
            r = self.spoil(ch, I, obj)
            if r:
                expect, what = None, r
        # buses may be given as the array of their values
        for n, d, b in I.decls:
            if b is not None and n in obj and expect is not None and len(I.leaves("", d, b)) and ch.chance(25):
                obj[n] = [vals[l] for l in I.leaves(n, d, b)]
                what = "serialized bus"
                if kind == "bad":
                    a = obj[n]
                    if ch.chance(50):
                        a.pop(ch.draw(len(a)))
                    else:
                        a.insert(ch.draw(len(a) + 1), ch.draw(4))
                    expect, what = None, "serialized bus of another size"
                    kind = "good"
        # notation
        neg = [False]

        def note(x, num):
            if not isinstance(x, int):
                return x
            k = ch.draw(10) if not num else ch.draw(3)
            if num:
                if x < 2 ** 53 and k:
                    return Num(x)
                return Num(x - p) if p - x < 2 ** 53 else Num(x) if x < 2 ** 53 else str(x)
            if k <= 4:
                return str(x)
            if k == 5:
                return ("0x" if ch.chance(70) else "0X") + (("%x" if ch.chance(50) else "%X") % x)
            if k == 6:
                return ("0b" if ch.chance(70) else "0B") + bin(x)[2:]
            if k == 7:
                return ("0o" if ch.chance(70) else "0O") + oct(x)[2:]
            if k == 8:
                return str(x + p * ch.int(1, 3))
            if ch.chance(30):
                neg[0] = True
                return str(x - p)
            return "0" * ch.int(1, 3) + str(x)

        def ints(x):
            if isinstance(x, list):
                return [y for z in x for y in ints(z)]
            return [x]

        def flat(x):
            return [y for z in x for y in flat(z)] if isinstance(x, list) else [x]

        def go(x, num):
            if isinstance(x, dict):
                ks = list(x)
                if ch.chance(50):
                    ks = ch.shuffle(ks)
                return {k: go(x[k], None) for k in ks}
            if isinstance(x, list):
                if num is None:
                    fl = ints(x)
                    if any(isinstance(y, dict) for y in fl):
                        return [go(y, None) if isinstance(y, (dict, list)) else y for y in x]
                    num = all(isinstance(y, int) and (y < 2 ** 53 or p - y < 2 ** 53) for y in fl) and ch.chance(30)
                    if len(x) and isinstance(x[0], list) and ch.chance(25):
                        x = flat(x)
                return [go(y, num) for y in x]
            if num is None:
                num = isinstance(x, int) and (x < 2 ** 53 or p - x < 2 ** 53) and ch.chance(30)
            return note(x, num)
        out = go(obj, None)
        return dump(out), expect, what, not neg[0]

    def spoil(self, ch, I, obj):
        """makes the object incorrect; returns what was done, or None"""
        places = []          # (container, key, dims below, bus)

        def walk(c, k, dims, bus):
            x = c[k]
            places.append((c, k, dims, bus))
            if dims:
                if bus is not None:
                    for i in range(len(x)):
                        walk(x, i, dims[1:], bus)
                else:
                    # nested arrays of signals
                    for i in range(len(x)):
                        if dims[1:]:
                            walk(x, i, dims[1:], None)
            elif bus is not None:
                for f, d, s in I.buses[bus]:
                    walk(x, f, d, s)
        for n, d, b in I.decls:
            walk(obj, n, d, b)

        def size(dims, bus):
            return len(I.leaves("", dims, bus))
        full = [x for x in places if size(x[2], x[3])]
        k = ch.draw(8)
        if k == 0 or not full:      # unknown name
            names = {n for n, _, _ in I.decls}
            c = [x for x in full if x[3] is not None and not x[2]]
            new = ch.pick(["zz", "main.s0", "out", "dummy", "q", "s", "", "main", "S0", "in", "q.x", "s0 ", "in00", "k300"])
            if c and ch.chance(50):
                t = ch.pick(c)
                o = t[0][t[1]]
                if new not in o:
                    o[new] = ch.draw(5)
                    return "unknown field"
            if new in names:
                return None
            if new == "":
                return None
            obj[new] = [1, 2] if new == "dummy" else ch.draw(5)
            return "unknown name"
        if k == 1:      # a missing one
            c = [x for x in full if isinstance(x[0], dict)]
            t = ch.pick(c)
            del t[0][t[1]]
            return "missing"
        if k == 2:      # misspelt
            c = [x for x in full if isinstance(x[0], dict)]
            t = ch.pick(c)
            v = t[0].pop(t[1])
            m = ch.draw(3)
            new = t[1] + "_" if m == 0 else t[1][:-1] + "~" if m == 1 else t[1].swapcase()
            if new in t[0] or new == t[1]:
                new = t[1] + "__"
            t[0][new] = v
            return "misspelt"
        if k == 3:      # short array
            c = [x for x in full if x[2]]
            if c:
                t = ch.pick(c)
                t[0][t[1]].pop(ch.draw(len(t[0][t[1]])))
                return "short array"
        if k == 4:      # long array
            c = [x for x in full if x[2]]
            if c:
                t = ch.pick(c)
                a = t[0][t[1]]
                a.insert(ch.draw(len(a) + 1), copy.deepcopy(a[ch.draw(len(a))]))
                return "long array"
        if k == 5:      # shape
            c = [x for x in full]
            t = ch.pick(c)
            n = size(t[2], t[3])
            if t[3] is None and n > 1:
                if isinstance(t[0], list):
                    return None
                t[0][t[1]] = 3
                return "number instead of array"
            if t[3] is None:
                if isinstance(t[0], list):
                    return None
                t[0][t[1]] = ch.pick([{}, {"x": 1}, [1, 2], []])
                return "another shape"
            t[0][t[1]] = ch.pick([{}] + [x for x in (1, [1, 2]) if len([x] if x == 1 else x) != n])    # flat buses are accepted
            return "another shape"
        if k == 6:      # not a number
            leaf = []

            def find(c, key):
                x = c[key]
                if isinstance(x, dict):
                    for y in x:
                        find(x, y)
                elif isinstance(x, list):
                    for y in range(len(x)):
                        find(x, y)
                else:
                    leaf.append((c, key))
            for n in obj:
                find(obj, n)
            if leaf:
                c, key = ch.pick(leaf)
                c[key] = ch.pick(["abc", "12a", "0xfg", "1.5", "0b12", "0o8", "5 6", "--5", "1e5", "x", "0xx1"])
                return "not a number"
        # two faults
        t = ch.pick([x for x in full if isinstance(x[0], dict)])
        del t[0][t[1]]
        obj["other"] = 1
        return "missing and unknown"
