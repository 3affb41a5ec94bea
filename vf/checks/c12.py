import json, os, re
from ..common import *
from .. import illegal, mutate, known

FLAGS = [["--r1cs"], ["--sym"], ["--wasm"], ["-c"], ["--json"], ["--inspect"], ["--simplification_substitution"], ["--no_asm"], ["--no_init"], ["--wat"],
         ["--prime_flag_free"], ["--verbose"]]
FLAGS = FLAGS[:10]


def panic_site(err):
    m = re.search(r"panicked at ([^:]+):\d+:\d+:\n(.*)", err)
    if not m:
        return None
    f = re.sub(r"^.*/(?=(library|src)/)", "", m.group(1)) if m.group(1).startswith("/") else m.group(1)
    fn = ""
    for l in err.split("\n"):
        q = re.match(r"\s*\d+: (.*)", l)
        if q and not re.search(r"panick|core::|std::|rust_begin|unwrap_failed|^alloc", q.group(1)):
            fn = q.group(1).strip()
            break
    return "%s | %s | %s" % (f, re.sub(r"\d+", "N", m.group(2))[:80], re.sub(r"<|>", "", fn))


class CHECK(Check):
    id = "C12"
    rule = ("texts obtained from random programs (valid or with a documented error) by 1 to 6 mutations of tokens, groups, arguments, statements, "
            "blocks, indexes, operators, declarations and bytes, compiled with random options; the compiler must end with "
            "status 0 and the requested files, well formed and complete, or with status 1 and an error message; a panic, an abort or a "
            "signal is a violation; non-trivial: the mutated text differs from the original")
    assumptions = ["executions that exceed the time or memory limit are discarded (compile-time loops may be unbounded)",
                   "stack overflows are discarded when the text has recursive definitions"]
    cases = {"quick": 16000, "thorough": 400000}

    def case(self, ctx, ch, idx):
        prime = pick_prime(ch, 80)
        g, prog, ins = gen.generate(ch, prime, 1, tmpl=(1, 3), steps=(1, 4), mayfail=10)
        s = lang.show(prog)
        if ch.chance(35):
            d = illegal.build(ch, ch.pick(sorted(illegal.KINDS)))
            v = ch.pick(["bad", "good"])
            s = inject(ch, s, d, v)
        t = mutate.tokens(s)
        kinds = []
        for _ in range(ch.weighted([(6, 1), (4, 2), (2, 3), (1, 6)])):
            t, k = mutate.mutate(ch, t)
            t = mutate.tokens("".join(t))
            kinds.append(k)
        m = "".join(t)
        if len(m) > 30000:
            raise Discard("too long")
        flags = sum(ch.subset(FLAGS, 35), [])
        opt = pick_opt(ch)
        fl = {"source": m, "prime": prime, "flags": " ".join(flags + opt)}
        with run.Scratch() as dd:
            try:
                c = ctx.R.compile(dd, m, flags=flags, prime=prime, opt=opt, timeout=3)
            except run.Inconclusive:
                raise Discard("time limit")
            r = c.res
            if "memory allocation of" in r.err or "capacity overflow" in r.err:
                raise Discard("memory limit")
            if "overflowed its stack" in r.err and mutate.cyclic(m):
                raise Discard("recursive definitions")
            if r.panicked:
                site = panic_site(r.err) or "status %d" % r.rc
                if known.matches("C12", site):
                    raise Discard("known finding")
                raise Fail("panic " + site, "the compiler does not end normally (status %s): %s\n%s" % (r.rc, site, r.err[:1200]), **fl)
            txt = ANSI.sub("", r.text)
            if r.rc == 1 and not re.search(r"error|Error", txt):
                raise Fail("silent", "status 1 without an error message: " + txt[-300:], **fl)
            if r.rc == 0:
                self.files(ctx, c, flags, fl, txt, prime)
        return Result(m != s, m, ["accepted" if r.rc == 0 else "rejected"] + ["mut " + k for k in sorted(set(kinds))], {"source": m[:1500], "status": r.rc})

    def files(self, ctx, c, flags, fl, txt, prime):
        """the files of an accepted program are there and well formed"""
        def bad(w):
            raise Fail("files", "the program is accepted but " + w, **fl)
        if re.search(r"error\[", txt):
            bad("an error is printed")
        try:
            if "--r1cs" in flags:
                r = c.r1cs()
                if r.prime != PRIMES[prime]:
                    bad("the r1cs file has another prime")
            if "--sym" in flags:
                c.sym()
            if "--json" in flags:
                c.json_constraints()
            if "--simplification_substitution" in flags:
                c.subs()
            if "-c" in flags:
                for f in (c.name + ".cpp", c.name + ".dat", "Makefile"):
                    if not os.path.getsize(os.path.join(c.cpp, f)):
                        bad(f + " is empty")
            if "--wat" in flags and not os.path.getsize(os.path.join(c.dir, c.name + "_js", c.name + ".wat")):
                bad("the wat file is empty")
            if "--wasm" in flags:
                if not os.path.getsize(c.wasm) or not os.path.getsize(c.glue):
                    bad("a file of the WASM calculator is empty")
                if not ctx.R.wasm_valid(c.wasm):
                    bad("the wasm file is not valid")
        except (OSError, ValueError, fmt.FormatError) as e:
            bad("the output is not complete: %r" % e)


def inject(ch, s, d, v):
    """places the snippet at the beginning of the body of a template of the text"""
    pos = [m.end() for m in re.finditer(r"template [^{]*\{", s)]
    i = ch.pick(pos)
    s = s[:i] + " " + d["pre"] + " " + d[v] + s[i:]
    head, _, rest = s.partition("\n")
    if d["custom"]:
        head += "\npragma custom_templates;"
    return head + "\n" + d["defs"] + d[v + "_defs"] + rest
