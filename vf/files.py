"""Generator of trees of files that include each other, and the model of the resolution of the includes."""
import os, re
from . import run
from .harness import Fail

DIRS = ["", "sub", "sub/deep", "lib1", "lib2", "lib2/x", "other dir"]
NAMES = ["a.circom", "b.circom", "util.circom", "noext", "c1.circom", "ñ.circom"]


class File:
    def __init__(self, dir, name):
        self.dir = dir
        self.name = name
        self.includes = []
        self.defs = []         # (kind, name, value)
        self.main = False
        self.uses = []
        self.version = "2.0.0"
        self.custom_pragma = False
        self.custom_defs = []  # names of the custom templates
        self.link = None       # another name (symbolic link) in the same folder

    @property
    def path(self):
        return os.path.join(self.dir, self.name) if self.dir else self.name

    def text(self):
        s = ""
        if self.version:
            s += "pragma circom %s;\n" % self.version
        if self.custom_pragma:
            s += "pragma custom_templates;\n"
        for i in self.includes:
            s += 'include "%s";\n' % i
        for kind, n, v in self.defs:
            if kind == "T":
                s += "template %s() { signal output o; o <== %d; }\n" % (n, v)
            elif kind == "F":
                s += "function %s() { return %d; }\n" % (n, v)
            else:
                s += "bus %s() { signal f[%d]; }\n" % (n, v)
        for n in self.custom_defs:
            s += "template custom %s() { signal input a; signal output b; b <-- a + 1; }\n" % n
        return s


class Tree:
    def __init__(self, ch, nfiles=None, custom=False):
        self.ch = ch
        n = nfiles or ch.int(2, 9)
        self.files = []
        used = set()
        dirs = ch.sample(DIRS, ch.int(1, 5))
        self.dirs = dirs
        names = ch.sample(NAMES, ch.int(2, 6))
        for k in range(n):
            d, nm = ch.pick(dirs), ch.pick(names)
            if k == 0:
                nm = "c.circom"
            while (d, nm) in used:
                nm = "x%d.circom" % k
            used.add((d, nm))
            self.files.append(File(d, nm))
        self.libs = []
        for k in range(ch.pick([0, 1, 1, 2, 3])):
            self.libs.append(ch.pick(dirs))
        self.cwd = ch.pick(dirs + ["", ""])
        root = self.files[0]
        for k, f in enumerate(self.files):
            m = ch.pick([0, 1, 1, 2, 2, 3]) if k else ch.pick([1, 2, 3])
            for _ in range(m):
                g = ch.pick(self.files)
                f.includes.append(self.spell(f, g))
            if f.includes and ch.chance(10):
                f.includes.append(f.includes[0])
            if ch.chance(8):
                f.link = "ln%d.circom" % k
        for k, f in enumerate(self.files):
            for j in range(ch.pick([1, 1, 2])):
                kind = ch.pick("TTTFFB")
                v = 1 + 10 * k + j
                nm = ch.pick("TFB") if ch.chance(6) else "%s%d_%d" % (kind, k, j)
                f.defs.append((kind, nm, v))

    def spell(self, f, g):
        """a way of naming g in f"""
        ch = self.ch
        name = g.link if g.link and ch.chance(50) else g.name
        how = ch.pick("rrrrbbbbla")
        rel = os.path.relpath(os.path.join(g.dir, name) if g.dir else name, f.dir or ".")
        if how == "r":
            return ("./" if ch.chance(15) else "") + rel
        if how == "b":
            return name
        if how == "l":
            return os.path.join(os.path.basename(g.dir), name)
        return os.path.join(ch.pick(self.dirs) or ".", "..", rel)

    def write(self, d):
        for x in DIRS:
            os.makedirs(os.path.join(d, x), exist_ok=True)
        for f in self.files:
            with open(os.path.join(d, f.path), "w") as h:
                h.write(f.text())
            if f.link:
                os.symlink(f.name, os.path.join(d, f.dir, f.link))

    def write_again(self, d):
        for f in self.files:
            with open(os.path.join(d, f.path), "w") as h:
                h.write(f.text())

    def dump(self):
        return "\n".join("==> %s%s\n%s" % (f.path, " (also %s)" % f.link if f.link else "", f.text()) for f in self.files)

    def closure(self, d):
        """(files that are read, first include that is not found, edges)"""
        by = {os.path.realpath(os.path.join(d, f.path)): f for f in self.files}
        todo, seen, missing, edges = [self.files[0]], [], None, {}
        while todo:
            f = todo.pop()
            if f in seen:
                continue
            seen.append(f)
            edges[f] = []
            for i in f.includes:
                for base in [f.dir] + self.libs:
                    p = os.path.join(d, base, i)
                    if os.path.isfile(p):
                        g = by[os.path.realpath(p)]
                        edges[f].append(g)
                        todo.append(g)
                        break
                else:
                    missing = missing or i
        return seen, missing, edges

    def repair(self, d):
        """replaces the includes that are not found"""
        for f in self.files:
            for k, i in enumerate(f.includes):
                if not any(os.path.isfile(os.path.join(d, b, i)) for b in [f.dir] + self.libs):
                    g = self.ch.pick(self.files)
                    f.includes[k] = os.path.relpath(os.path.join(d, g.path), os.path.join(d, f.dir))
        self.write_again(d)

    def command(self, ch, circom, d, flags):
        """the command line, run in the folder cwd"""
        cwd = os.path.join(d, self.cwd)
        def arg(p):
            return os.path.join(d, p) if ch.chance(30) else os.path.relpath(os.path.join(d, p), cwd)
        out = os.path.join(d, "out")
        os.makedirs(out, exist_ok=True)
        cmd = [circom]
        libs = []
        for l in self.libs:
            libs += ["-l", arg(l)]
        main = arg(self.files[0].path)
        if ch.chance(50):
            cmd += [main] + libs
        else:
            cmd += libs + [main]
        return cmd + ["-o", out, "--O0"] + flags, cwd, out


def norm(text):
    return re.sub(r"\x1b\[[0-9;]*m", "", text)
