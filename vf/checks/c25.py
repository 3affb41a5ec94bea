import os
from ..common import *
from ..files import Tree, norm


class CHECK(Check):
    id = "C25"
    rule = ("trees of 2 to 9 files in several folders (equal names in different folders, symbolic links, cycles, the main file included by others, names "
            "with folders, dots and blanks) compiled with 0 to 3 -l folders from several working folders; the definitions that are visible must be exactly "
            "those of the files reached by looking for each include in the folder of its file and then in the -l folders in order, each file once; an include "
            "that is not found, two definitions of a name, no main component or two of them are errors; non-trivial: at least 2 files are read")
    assumptions = ["the folder of a file that is reached by a symbolic link in the same folder"]
    cases = {"quick": 9000, "thorough": 150000}

    def case(self, ctx, ch, idx):
        t = Tree(ch)
        mode = ch.pick(["ok"] * 6 + ["undefined", "nomain", "twomain"])
        with run.Scratch() as d:
            t.write(d)      # the links and files must exist to find the closure
            if ch.chance(90):
                t.repair(d)
            seen, missing, _ = t.closure(d)
            defs = {}
            dup = None
            for f in seen:
                for k, n, v in f.defs:
                    if n in defs:
                        dup = n
                    defs[n] = (k, v)
            hidden = [x for f in t.files if f not in seen for x in f.defs if x[1] not in defs]
            if missing is None and mode == "undefined" and not hidden:
                mode = "ok"
            uses = [(n,) + defs[n] for n in defs]
            if mode == "undefined" and hidden:
                k, n, v = ch.pick(hidden)
                uses.insert(ch.int(0, len(uses)), (n, k, v))
            ch.shuffle(uses)
            want = {}
            body = "template Main() {\n"
            for j, (n, k, v) in enumerate(uses):
                body += "  signal output o%d;\n" % j
                if k == "T":
                    body += "  component s%d = %s(); o%d <== s%d.o;\n" % (j, n, j, j)
                elif k == "F":
                    body += "  o%d <== %s();\n" % (j, n)
                else:
                    body += "  %s() b%d; for (var i = 0; i < %d; i++) { b%d.f[i] <== %d; } o%d <== b%d.f[%d];\n" % (n, j, v, j, v, j, j, v - 1)
                want["main.o%d" % j] = v
            body += "}\n"
            where = ch.pick(seen) if ch.chance(40) else seen[0]
            mains = {where: body + ("" if mode == "nomain" else "component main = Main();\n")}
            if mode == "twomain":
                o = [f for f in t.files if f is not where]
                o = ch.pick([f for f in o if f in seen] or o)
                mains[o] = "template Main2() { signal output o; o <== 1; }\ncomponent main = Main2();\n"
                if o not in seen:
                    mode = "ok"
            for f, b in mains.items():
                with open(os.path.join(d, f.path), "a") as h:
                    h.write(b)
            cmd, cwd, out = t.command(ch, ctx.circom, d, ["--r1cs", "--sym", "--wasm"])
            r = run.exec_(cmd, cwd=cwd, timeout=25 * ctx.R.scale)
            dump = t.dump() + "\n==> appended\n" + "\n".join("%s:\n%s" % (f.path, b) for f, b in mains.items()) + "\ncommand (in %s): %s" % (
                t.cwd or ".", " ".join(cmd).replace(d, "@"))

            def fail(sig, msg):
                raise Fail(sig, msg, files=dump)
            bad = ("include not found: " + missing) if missing else ("two definitions of " + dup) if dup else {
                "undefined": "use of a definition of a file that is not included", "nomain": "no main component", "twomain": "two main components"}.get(mode)
            if r.rc not in (0, 1) or "panicked" in r.err:
                fail("panic", r.err[-400:])
            if bad:
                if r.rc == 0:
                    fail("accepted", "accepted in spite of: " + bad)
                if "error" not in norm(r.text):
                    fail("message", "rejected without an error message (%s): %s" % (bad, r.text[-300:]))
                if os.listdir(out):
                    fail("files", "rejected, but the output folder has " + " ".join(os.listdir(out)))
                kind = "two definitions" if dup and not missing else bad.split(":")[0]
            else:
                if r.rc:
                    fail("rejected", "rejected: " + norm(r.text)[-700:])
                c = run.Circuit(out, "c", r)
                res = ctx.R.wasm(c, [{}])[0]
                if "error" in res:
                    fail("witness", str(res["error"])[:300])
                q, n8, w = fmt.read_wtns(res["wtns"])
                got = {s.name: w[s.wire] for s in c.sym() if s.wire >= 0}
                for k, v in want.items():
                    if got.get(k) != v:
                        fail("definition", "%s = %s, expected %s: another definition is used" % (k, got.get(k), v))
                kind = "ok"
        return Result(len(seen) >= 2, dump, [kind, "libs %d" % len(t.libs), "read %d" % min(len(seen), 5), "cwd " + t.cwd] + (["links"] if any(f.link for f in seen) else []) +
                      (["main elsewhere"] if where is not seen[0] else []), {"files": dump[:1500], "outcome": kind})
