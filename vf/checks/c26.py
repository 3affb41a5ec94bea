import os, re
from ..common import *
from ..files import Tree, norm


def compiler_version(circom):
    m = re.search(r"(\d+)\.(\d+)\.(\d+)", run.exec_([circom, "--version"]).out)
    return tuple(int(x) for x in m.groups())


class CHECK(Check):
    id = "C26"
    rule = ("trees of 1 to 9 files that include each other (also in cycles), each with or without a version pragma (older, equal or newer than the compiler), "
            "the custom templates pragma and custom templates: the compiler must reject exactly the programs with a version that it does not support, or a "
            "file that declares or includes (indirectly) custom templates without the pragma or with a version below 2.0.6, naming every such file, and "
            "warn of exactly the files without version; non-trivial: at least 2 files are read and a pragma matters")
    assumptions = ["a version of the same major number, not newer than the compiler, is supported; any other is an error (the documentation says warning)"]
    cases = {"quick": 12000, "thorough": 200000}

    def case(self, ctx, ch, idx):
        if "v" not in ctx.store:
            ctx.store["v"] = compiler_version(ctx.circom)
        V = ctx.store["v"]
        t = Tree(ch)
        for i, f in enumerate(t.files):
            f.defs = [(k, "%s%d_%d" % (k, i, j), v) for j, (k, n, v) in enumerate(f.defs)]
        pc = ch.pick([0, 15, 40])
        pp = ch.pick([50, 85, 95, 100])
        old = ch.pick([0, 0, 4, 30])
        new = ch.pick([0, 0, 0, 10])
        for i, f in enumerate(t.files):
            f.custom_pragma = ch.chance(pp if pc else 20)
            if ch.chance(pc):
                f.custom_defs = ["G%d" % i]
            if ch.chance(new):
                v = ch.pick([(V[0], V[1], V[2] + 1), (V[0], V[1] + 1, 0), (V[0] + 1, 0, 0), (V[0] - 1, V[1], V[2]), (V[0] - 1, V[1] + 7, 3), (V[0], V[1] + 10, V[2]), (0, 0, 0),
                             (V[0], V[1], 10 * V[2] + 10)])
            elif ch.chance(old):
                v = ch.pick([(2, 0, 0), (2, 0, 5), (2, 0, 3)])
            else:
                v = ch.pick([(2, 0, 6), (2, 0, 8), (2, 1, 0), (2, 1, 9), (2, V[1], V[2]), (2, V[1], 0), (2, 1, 99), (2, 0, 10), (2, 1, 5), None, None])
            f.version = v and ".".join(map(str, v))
            f.v = v
        with run.Scratch() as d:
            t.write(d)
            t.repair(d)
            seen, missing, edges = t.closure(d)
            root = seen[0]
            gates = [n for f in seen for n in f.custom_defs]
            use = ch.subset(gates, 50)
            body = "template Main() {\n  signal input x; signal output o; o <== x * x;\n"
            for n in use:
                body += "  component c%s = %s(); c%s.a <== x;\n" % (n, n, n)
            body += "}\ncomponent main = Main();\n"
            where = ch.pick(seen) if ch.chance(30) else root
            with open(os.path.join(d, where.path), "a") as h:
                h.write(body)
            # files that need the pragma
            need = set(f for f in seen if f.custom_defs)
            while True:
                more = set(f for f in seen if f not in need and any(g in need for g in edges[f]))
                if not more:
                    break
                need |= more
            badv = [f for f in seen if f.v and not (f.v[0] == V[0] and f.v[1:] <= V[1:])]
            oldc = [f for f in seen if f.custom_pragma and f.v and f.v < (2, 0, 6)]
            nop = sorted(os.path.realpath(os.path.join(d, f.path)) for f in need if not f.custom_pragma)
            cmd, cwd, out = t.command(ch, ctx.circom, d, ["--r1cs", "--sym"])
            r = run.exec_(cmd, cwd=cwd, timeout=25 * ctx.R.scale)
            dump = t.dump() + "\n==> appended to %s\n%s\ncommand (in %s): %s" % (where.path, body, t.cwd or ".", " ".join(cmd).replace(d, "@"))
            text = norm(r.text)

            def fail(sig, msg):
                raise Fail(sig, msg, files=dump)

            def real(p):
                return os.path.realpath(os.path.join(cwd, p))
            if r.rc not in (0, 1) or "panicked" in r.err:
                fail("panic", r.err[-400:])
            why = []
            if badv:
                why.append("%s needs another version" % badv[0].path)
            if oldc:
                why.append("%s has custom templates pragma and version %s" % (oldc[0].path, oldc[0].version))
            if nop:
                why.append("no custom templates pragma in " + " ".join(nop).replace(d, "@"))
            if bool(why) != (r.rc == 1):
                fail("accepted" if why else "rejected", "; ".join(why) if why else text[-600:])
            if why and "error" not in text:
                fail("message", "rejected without an error message")
            if why and os.listdir(out):
                fail("files", "rejected, but the output folder has " + " ".join(os.listdir(out)))
            if nop and not badv and not oldc:
                got = sorted(set(real(x) for x in re.findall(r"Missing custom templates pragma in file (.*) because of", text)))
                if got != nop:
                    fail("names", "the files without the custom templates pragma are %s, but the compiler names %s" % (nop, got))
            if not badv and not oldc:
                got = sorted(real(x) for x in re.findall(r'File "(.*)" does not include pragma version', text))
                want = sorted(os.path.realpath(os.path.join(d, f.path)) for f in seen if not f.v)
                if got != want:
                    fail("warnings", "the files without version are %s, but the compiler warns of %s: %s" % (want, got, text[:500]))
            kind = "version" if badv else "old custom" if oldc else "missing custom" if nop else "ok"
        return Result(len(seen) >= 2 and (bool(why) or bool(need) or any(not f.v for f in seen)), dump,
                      [kind, "read %d" % min(len(seen), 5), "custom" if need else "no custom"] + (["links"] if any(f.link for f in seen) else []), {"files": dump[:1500], "outcome": kind})
