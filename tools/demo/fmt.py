"""Independent readers of the file formats (mkdocs/docs/circom-language/formats)."""
import struct


class FormatError(Exception):
    pass


class R1cs:
    pass


def _need(c, msg):
    if not c:
        raise FormatError(msg)


def read_r1cs(b):
    r = R1cs()
    _need(b[:4] == b"r1cs", "magic")
    ver, nsec = struct.unpack_from("<II", b, 4)
    _need(ver == 1, "version")
    r.nsections = nsec
    pos = 12
    secs = {}
    for _ in range(nsec):
        _need(pos + 12 <= len(b), "truncated section header")
        ty, size = struct.unpack_from("<IQ", b, pos)
        pos += 12
        _need(pos + size <= len(b), "truncated section %d" % ty)
        _need(ty not in secs, "duplicated section %d" % ty)
        secs[ty] = b[pos:pos + size]
        pos += size
    _need(pos == len(b), "trailing bytes")
    r.sections = secs
    for t in (1, 2, 3):
        _need(t in secs, "missing section %d" % t)
    h = secs[1]
    (fs,) = struct.unpack_from("<I", h, 0)
    r.fs = fs
    _need(fs % 8 == 0, "field size not a multiple of 8")
    _need(len(h) == 4 + fs + 4 * 4 + 8 + 4, "header length")
    r.prime = int.from_bytes(h[4:4 + fs], "little")
    r.nwires, r.npubout, r.npubin, r.nprvin, r.nlabels, r.ncons = struct.unpack_from("<IIIIQI", h, 4 + fs)
    c = secs[2]
    pos = 0
    cons = []
    for _ in range(r.ncons):
        tri = []
        for _ in range(3):
            _need(pos + 4 <= len(c), "truncated constraint")
            (n,) = struct.unpack_from("<I", c, pos)
            pos += 4
            lc = {}
            for _ in range(n):
                _need(pos + 4 + fs <= len(c), "truncated linear combination")
                (w,) = struct.unpack_from("<I", c, pos)
                v = int.from_bytes(c[pos + 4:pos + 4 + fs], "little")
                pos += 4 + fs
                _need(w < r.nwires, "wire id %d out of range" % w)
                _need(w not in lc, "repeated wire in a linear combination")
                _need(v < r.prime, "coefficient not reduced")
                _need(v != 0, "zero coefficient")
                lc[w] = v
            tri.append(lc)
        cons.append(tuple(tri))
    _need(pos == len(c), "section 2 has trailing bytes")
    r.cons = cons
    m = secs[3]
    _need(len(m) == 8 * r.nwires, "wire2label length")
    r.map = list(struct.unpack("<%dQ" % r.nwires, m))
    if 4 in secs:
        s = secs[4]
        (n,) = struct.unpack_from("<I", s, 0)
        pos = 4
        r.gates_used = []
        for _ in range(n):
            e = s.index(b"\0", pos)
            nm = s[pos:e].decode()
            pos = e + 1
            (k,) = struct.unpack_from("<I", s, pos)
            pos += 4
            ps = []
            for _ in range(k):
                ps.append(int.from_bytes(s[pos:pos + fs], "little"))
                pos += fs
            r.gates_used.append((nm, ps))
        _need(pos == len(s), "section 4 has trailing bytes")
    if 5 in secs:
        s = secs[5]
        (n,) = struct.unpack_from("<I", s, 0)
        pos = 4
        r.gates_app = []
        for _ in range(n):
            g, k = struct.unpack_from("<II", s, pos)
            pos += 8
            r.gates_app.append((g, list(struct.unpack_from("<%dQ" % k, s, pos))))
            pos += 8 * k
        _need(pos == len(s), "section 5 has trailing bytes")
    return r


class Sym:
    __slots__ = ("label", "wire", "comp", "name")


def read_sym(t):
    out = []
    for line in t.splitlines():
        p = line.split(",")
        _need(len(p) == 4, "sym line: " + line)
        s = Sym()
        s.label, s.wire, s.comp, s.name = int(p[0]), int(p[1]), int(p[2]), p[3]
        out.append(s)
    return out


def read_wtns(b):
    _need(b[:4] == b"wtns", "magic")
    ver, nsec = struct.unpack_from("<II", b, 4)
    _need(ver == 2, "version")
    _need(nsec == 2, "sections")
    ty, size = struct.unpack_from("<IQ", b, 12)
    _need(ty == 1, "first section")
    (n8,) = struct.unpack_from("<I", b, 24)
    _need(size == 8 + n8, "section 1 length")
    q = int.from_bytes(b[28:28 + n8], "little")
    (n,) = struct.unpack_from("<I", b, 28 + n8)
    pos = 32 + n8
    ty, size = struct.unpack_from("<IQ", b, pos)
    _need(ty == 2, "second section")
    pos += 12
    _need(size == n * n8, "section 2 length")
    _need(len(b) == pos + size, "file length")
    w = [int.from_bytes(b[pos + i * n8: pos + (i + 1) * n8], "little") for i in range(n)]
    for v in w:
        _need(v < q, "witness value not reduced")
    return q, n8, w


def lc_eval(lc, w, p):
    return sum(w[k] * v for k, v in lc.items()) % p


def unsatisfied(cons, w, p):
    for i, (a, b, c) in enumerate(cons):
        if (lc_eval(a, w, p) * lc_eval(b, w, p) - lc_eval(c, w, p)) % p:
            return i
    return None
