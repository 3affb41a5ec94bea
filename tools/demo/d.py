"""Helper of the demonstrations: drives /repo's debug build of circom (cwd is the repository)."""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fmt

CIRCOM = os.path.abspath("target/debug/circom")
TMP = tempfile.mkdtemp()
BN = 21888242871839275222246405745257275088548364400416034343698204186575808495617


class C:
    def __init__(self, src, *flags, name="c", files=None, ok=None):
        self.d = tempfile.mkdtemp(dir=TMP)
        self.name = name
        for f, t in dict(files or {}, **{name + ".circom": src}).items():
            p = os.path.join(self.d, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(t)
        fl = list(flags) or ["--r1cs", "--sym", "--wasm"]
        self.r = subprocess.run([CIRCOM, name + ".circom"] + fl, cwd=self.d, capture_output=True, text=True, timeout=120)
        self.ok = self.r.returncode == 0
        self.text = self.r.stdout + self.r.stderr
        if ok is True:
            need(self.ok, "not compiled: " + self.text[-600:])
        if ok is False:
            need(self.r.returncode == 1 and "panicked" not in self.text, "not rejected with a report")

    def path(self, s):
        return os.path.join(self.d, self.name + s)

    def r1cs(self):
        return fmt.read_r1cs(open(self.path(".r1cs"), "rb").read())

    def sym(self):
        return {s.name: s for s in fmt.read_sym(open(self.path(".sym")).read())}

    def cons(self):
        """the constraints over names"""
        n = {s.wire: k for k, s in self.sym().items()}
        n[0] = "1"
        return [tuple({n[w]: v for w, v in lc.items()} for lc in t) for t in self.r1cs().cons]

    def wasm(self, inp):
        """(witness | None, stdout)"""
        ip, op = self.path(".in.json"), self.path(".w.wtns")
        json.dump(inp, open(ip, "w"))
        if os.path.exists(op):
            os.unlink(op)
        j = os.path.join(self.d, self.name + "_js")
        r = subprocess.run(["node", j + "/generate_witness.js", j + "/" + self.name + ".wasm", ip, op], capture_output=True, text=True, timeout=120)
        self.log = r.stdout
        self.err = r.stderr
        if r.returncode or not os.path.exists(op):
            return None
        self.raw = open(op, "rb").read()
        return fmt.read_wtns(self.raw)[2]

    def values(self, inp):
        w = self.wasm(inp)
        if w is None:
            return None
        return {k: w[s.wire] for k, s in self.sym().items() if s.wire >= 0}

    def build_cpp(self):
        d = os.path.join(self.d, self.name + "_cpp")
        r = subprocess.run(["make", "CFLAGS=-std=c++11 -O0 -I."], cwd=d, capture_output=True, text=True, timeout=280)
        need(r.returncode == 0, "the C++ code does not compile: " + r.stderr[-500:])
        return os.path.join(d, self.name)

    def cpp(self, inp, exe):
        ip, op = self.path(".in2.json"), self.path(".w2.wtns")
        json.dump(inp, open(ip, "w"))
        if os.path.exists(op):
            os.unlink(op)
        r = subprocess.run([exe, ip, op], capture_output=True, text=True, timeout=60)
        self.log2 = r.stdout
        if r.returncode or not os.path.exists(op):
            return None
        return fmt.read_wtns(open(op, "rb").read())[2]


def need(c, msg):
    if not c:
        print("FAILED: " + msg)
        done(1)


def done(rc=0):
    shutil.rmtree(TMP, ignore_errors=True)
    if rc == 0:
        print("ok")
    sys.stdout.flush()
    os._exit(rc)
