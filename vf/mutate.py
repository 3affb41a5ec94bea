"""Mutations of program texts at the level of tokens, balanced groups and statements."""
import re

TOKEN = re.compile(r'/\*.*?\*/|//[^\n]*|"[^"\n]*"|0x[0-9A-Fa-f]+|[0-9]+|[$_]*[a-zA-Z][a-zA-Z$_0-9]*|<==|==>|<--|-->|===|\*\*=|<<=|>>=|[-+*/\\%&|^]=|&&|\|\||==|!=|<=|>=|<<|>>|\*\*|\+\+|--|\s+|.', re.S)
WORDS = ["signal", "input", "output", "public", "template", "component", "parallel", "custom", "bus", "var", "function", "return", "if", "else", "for",
         "while", "log", "assert", "include", "pragma", "circom", "main", "custom_templates", "extern_c"]
OPS = ["+", "-", "*", "/", "\\", "%", "**", "&", "|", "^", "~", "!", "&&", "||", "==", "!=", "<", ">", "<=", ">=", "<<", ">>", "?", ":", "=", "<==", "==>", "<--",
       "-->", "===", "+=", "-=", "*=", "**=", "/=", "\\=", "%=", "<<=", ">>=", "&=", "|=", "^=", "++", "--", "(", ")", "[", "]", "{", "}", ",", ";", ".", "_"]
NUMS = ["0", "1", "2", "3", "7", "0x10", "255", "64", "254", "65536", "18446744073709551616",
        "21888242871839275222246405745257275088548364400416034343698204186575808495617", "21888242871839275222246405745257275088548364400416034343698204186575808495616"]
INFIX = ["+", "-", "*", "/", "\\", "%", "**", "&", "|", "^", "&&", "||", "==", "!=", "<", ">", "<=", ">=", "<<", ">>"]
OPEN, CLOSE = "([{", ")]}"


def tokens(s):
    return [t for t in TOKEN.findall(s)]


def groups(t):
    """(i, j): balanced groups, positions of the brackets"""
    st, out = [], []
    for i, x in enumerate(t):
        if x in OPEN:
            st.append(i)
        elif x in CLOSE and st:
            j = st.pop()
            if CLOSE[OPEN.index(t[j])] == x:
                out.append((j, i))
    return out


def statements(t):
    """(i, j): simple statements, t[i..j] ends in ';'"""
    out, b, depth = [], None, 0
    for i, x in enumerate(t):
        if x in "([":
            depth += 1
        elif x in ")]":
            depth -= 1
        if x in ("{", "}"):
            b, depth = None, 0
        elif x == ";" and depth <= 0:
            if b is not None:
                out.append((b, i))
            b = None
        elif b is None and x.strip():
            b = i
    return out


def blocks(t):
    return [(i, j) for i, j in groups(t) if t[i] == "{"]


def args(t, i, j):
    """the arguments between the brackets i and j"""
    out, b, d = [], i + 1, 0
    for k in range(i + 1, j + 1):
        if k == j or (t[k] == "," and d == 0):
            out.append((b, k))
            b = k + 1
        elif t[k] in OPEN:
            d += 1
        elif t[k] in CLOSE:
            d -= 1
    return out


def is_id(x):
    return re.match(r"[$_]*[a-zA-Z]", x) and x not in WORDS


def is_num(x):
    return x[:1].isdigit()


def mutate(ch, t):
    """one mutation; returns (new tokens, kind)"""
    real = [i for i, x in enumerate(t) if x.strip()]
    ids = [i for i in real if is_id(t[i])]
    nums = [i for i in real if is_num(t[i])]
    k = ch.weighted([(8, "id"), (6, "num"), (6, "op"), (6, "index"), (5, "stmt copy"), (3, "stmt delete"), (5, "stmt move"), (4, "token"), (2, "delete"), (2, "insert"),
                     (2, "swap"), (5, "group"), (5, "arg"), (4, "wrap"), (3, "block"), (3, "expr"), (2, "decl"), (1, "truncate"), (1, "bytes"), (1, "splice"), (4, "rhs")])
    if k == "id" and ids:
        i = ch.pick(ids)
        return t[:i] + [t[ch.pick(ids)]] + t[i + 1:], k
    if k == "num" and (nums or ids):
        i = ch.pick(nums or ids)
        return t[:i] + [ch.pick(NUMS + [t[j] for j in ids[:20]])] + t[i + 1:], k
    if k == "op":
        o = [i for i in real if t[i] in OPS and t[i] not in "()[]{},;."]
        if o:
            i = ch.pick(o)
            same = INFIX if t[i] in INFIX else ["<==", "<--", "=", "===", "==>", "-->", "+=", "*="] if "=" in t[i] or "--" in t[i] else OPS
            return t[:i] + [ch.pick(same) if ch.chance(80) else ch.pick(OPS)] + t[i + 1:], k
    if k == "index" and ids:
        i = ch.pick(ids)
        a = ch.pick(["[0]", "[1]", "[%s]" % t[ch.pick(ids)], ".%s" % t[ch.pick(ids)], "[0][0]", "(1)", "()", "()(1)", "(%s)" % t[ch.pick(ids)]])
        if ch.chance(30) and i + 1 < len(t) and t[i + 1] == "[":
            g = [j for b, j in groups(t) if b == i + 1]
            if g:
                return t[:i + 1] + t[g[0] + 1:], "index removed"
        return t[:i + 1] + [a] + t[i + 1:], k
    if k.startswith("stmt"):
        s = statements(t)
        if s:
            i, j = ch.pick(s)
            if k == "stmt delete":
                return t[:i] + t[j + 1:], k
            at = ch.pick([b for b, _ in s] + [e + 1 for _, e in s] + [e for _, e in blocks(t)])
            st = t[i:j + 1]
            if k == "stmt copy" or at > i:
                r = t[:at] + st + t[at:]
                return (r if k == "stmt copy" or i < at <= j else r[:i] + r[j + 1:]), k
            return t[:at] + st + t[at:i] + t[j + 1:], k
    if k == "token" and real:
        i = ch.pick(real)
        return t[:i] + [ch.pick(WORDS + OPS + NUMS)] + t[i + 1:], k
    if k == "delete" and real:
        i = ch.pick(real)
        return t[:i] + t[i + ch.int(1, 3):], k
    if k == "insert" and real:
        i = ch.pick(real)
        return t[:i] + [" " + ch.pick(WORDS + OPS + NUMS) + " "] + t[i:], k
    if k == "swap" and len(real) > 2:
        i, j = sorted([ch.pick(real), ch.pick(real)])
        t = list(t)
        t[i], t[j] = t[j], t[i]
        return t, k
    if k in ("group", "expr"):
        g = [x for x in groups(t) if k == "group" or t[x[0]] == "("]
        if len(g) > 1:
            a, b = ch.pick(g), ch.pick(g)
            same = [x for x in g if t[x[0]] == t[a[0]]]
            if ch.chance(85):
                b = ch.pick(same)
            return t[:a[0] + 1] + t[b[0] + 1:b[1]] + t[a[1]:], k
    if k == "arg":
        g = [x for x in groups(t) if t[x[0]] in "(["]
        if g:
            a = ch.pick(g)
            xs = args(t, *a)
            b, e = ch.pick(xs)
            m = ch.draw(4)
            if m == 0:
                return t[:b] + t[e + (1 if t[e] == "," else 0):], "arg delete"
            if m == 1:
                return t[:e] + [","] + t[b:e] + t[e:], "arg copy"
            if m == 2:
                c = args(t, *ch.pick(g))
                b2, e2 = ch.pick(c)
                return t[:b] + t[b2:e2] + t[e:], "arg replace"
            return t[:b] + ["["] + t[b:e] + ["]"] + t[e:], "arg bracket"
    if k == "wrap" and (ids or nums):
        i = ch.pick(ids + nums)
        a, b = ch.pick([("(", ")"), ("(-", ")"), ("(~", ")"), ("(!", ")"), ("[", "]"), ("(parallel ", ")"), ("(1 ? ", " : 2)"), ("(", " ? 1 : 0)"), ("[", ", 1]"), ("", " + 1"), ("", " * 2"), ("(_, ", ")")])
        return t[:i] + [a, t[i], b] + t[i + 1:], k
    if k == "block":
        s = statements(t)
        if s:
            i, j = ch.pick(s)
            c = t[ch.pick(ids)] if ids else "1"
            a, b = ch.pick([("{ ", " }"), ("if (%s) { " % c, " }"), ("if (%s) { } else { " % c, " }"), ("for (var q_q = 0; q_q < 2; q_q++) { ", " }"),
                            ("while (%s) { " % c, " }"), ("if (%s == 0) " % c, ""), ("parallel ", ""), ("var ", ""), ("signal ", ""), ("component ", ""),
                            ("var q_q = 0; while (q_q < 2) { q_q++; ", " }")])
            return t[:i] + [a] + t[i:j + 1] + [b] + t[j + 1:], k
    if k == "rhs":
        s = statements(t)
        c = []
        for i, j in s:
            for q in range(i, j):
                if t[q] in ("=", "<==", "<--", "==="):
                    c.append((q, j))
        if c:
            a, b = ch.pick(c), ch.pick(c)
            return t[:a[0] + 1] + t[b[0] + 1:b[1]] + t[a[1]:], k
    if k == "decl":
        s = [x for x in statements(t) if t[x[0]] in ("signal", "var", "component", "input", "output") or is_id(t[x[0]])]
        if s:
            i, j = ch.pick(s)
            m = ch.pick(["signal input ", "signal output ", "signal ", "var ", "component ", "signal {tg_x} ", "signal input {tg_x} ", "input ", "output "])
            q = i
            while q < j and (t[q] in WORDS or not t[q].strip()):
                q += 1
            return t[:i] + [m] + t[q:], k
    if k == "truncate" and real:
        return t[:ch.pick(real)], k
    if k == "bytes":
        i = ch.draw(len(t) + 1)
        return t[:i] + [ch.pick(["\u00e9", "\u4e2d", "\\", "'", "\"", "\t", "\r", "\x0b", "#", "@", "/*", "*/", "//", "`", "\u2028", "\U0001f600", "\0", "\ufeff", "9" * 400, "a" * 3000, "$", "_"])] + t[i:], k
    if k == "splice" and len(real) > 2:
        i, j = sorted([ch.pick(real), ch.pick(real)])
        at = ch.pick(real)
        return t[:at] + t[i:min(j, i + 60)] + t[at:], k
    return t, "none"


def cyclic(text):
    """some definition may reach itself through calls"""
    t = [x for x in tokens(re.sub(r"/\*.*?\*/|//[^\n]*", " ", text, flags=re.S)) if x.strip()]
    g, cur = {}, None
    for i, x in enumerate(t):
        if x in ("template", "function", "bus"):
            j = i + 1
            while j < len(t) and t[j] in ("custom", "parallel", "extern_c"):
                j += 1
            if j < len(t):
                cur = t[j]
                g.setdefault(cur, set())
        elif cur is not None and i + 1 < len(t) and t[i + 1] == "(" and is_id(x):
            g[cur].add(x)
    color = {}

    def dfs(u):
        color[u] = 1
        for v in g.get(u, ()):
            if color.get(v) == 1 or (v not in color and v in g and dfs(v)):
                return True
        color[u] = 2
        return False
    return any(dfs(u) for u in list(g) if u not in color)
