"""Runs the compiler and the witness calculators it produces."""
import base64, hashlib, json, os, resource, select, shutil, signal, subprocess, tempfile
from . import fmt
from .build import BUILD, VERIF


class Inconclusive(Exception):
    """time-out, out of memory, missing tool: neither pass nor violation"""


class Res:
    def __init__(self, rc, out, err):
        self.rc = rc
        self.out = out
        self.err = err

    @property
    def ok(self):
        return self.rc == 0

    @property
    def panicked(self):
        return self.rc not in (0, 1) or "panicked at" in self.err

    @property
    def text(self):
        return self.out + self.err


def _limits(mem, cpus=None):
    def f():
        if cpus:
            os.sched_setaffinity(0, set(sorted(os.sched_getaffinity(0))[:cpus]))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def exec_(cmd, cwd=None, timeout=60, mem=4 << 30, stdin=None, env=None, cpus=None):
    p = subprocess.Popen(cmd, cwd=cwd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
                         preexec_fn=_limits(mem, cpus), start_new_session=True)
    try:
        o, e = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        raise Inconclusive("timeout: " + " ".join(cmd[:6]))
    return Res(p.returncode, o.decode(errors="replace"), e.decode(errors="replace"))


class Scratch:
    """a scratch directory removed at exit of the context"""
    base = None

    def __init__(self):
        self.path = tempfile.mkdtemp(prefix="vf", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp")

    def __enter__(self):
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


class Circuit:
    """The artifacts of one compilation."""

    def __init__(self, dir, name, res):
        self.dir = dir
        self.name = name
        self.res = res

    def path(self, suffix):
        return os.path.join(self.dir, self.name + suffix)

    def r1cs(self):
        return fmt.read_r1cs(open(self.path(".r1cs"), "rb").read())

    def sym(self):
        return fmt.read_sym(open(self.path(".sym")).read())

    def json_constraints(self):
        return json.load(open(self.path("_constraints.json")))

    def subs(self):
        return json.load(open(self.path("_substitutions.json")))

    @property
    def wasm(self):
        return os.path.join(self.dir, self.name + "_js", self.name + ".wasm")

    @property
    def glue(self):
        return os.path.join(self.dir, self.name + "_js", "witness_calculator.js")

    @property
    def cpp(self):
        return os.path.join(self.dir, self.name + "_cpp")


class Runner:
    def __init__(self, circom):
        self.circom = circom
        self.node = None
        self.count = 0
        self.scale = 1       # of the time limits

    def close(self):
        if self.node is not None:
            try:
                self.node.kill()
                self.node.wait()
            except Exception:
                pass
            self.node = None

    # -------------------------------------------------------------- compiler
    def compile(self, dir, src, flags=("--r1cs", "--sym", "--wasm"), prime="bn128", name="c", opt=("--O0",),
                timeout=25, out=None, cpus=None):
        """src: text or {file name: text} (then name.circom is the main one)"""
        if isinstance(src, str):
            src = {name + ".circom": src}
        for f, t in src.items():
            p = os.path.join(dir, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as fh:
                fh.write(t if isinstance(t, bytes) else t.encode())
        od = out or dir
        os.makedirs(od, exist_ok=True)
        cmd = [self.circom, os.path.join(dir, name + ".circom"), "-o", od, "-p", prime] + list(opt) + list(flags)
        self.count += 1
        res = exec_(cmd, cwd=dir, timeout=timeout * self.scale, env=dict(os.environ, RUST_BACKTRACE="1"), cpus=cpus)
        return Circuit(od, name, res)

    # -------------------------------------------------------------- wasm
    def _node(self):
        if self.node is None or self.node.poll() is not None:
            self.node = subprocess.Popen(["node", "--max-old-space-size=1500", os.path.join(VERIF, "vf", "worker.js")],
                                         stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                         stderr=subprocess.DEVNULL, start_new_session=True)
            self.njobs = 0
        return self.node

    def wasm_raw(self, wasm, glue, inputs, api="wtns", options=None, reuse=False, timeout=20, apis=None):
        n = self._node()
        self.njobs += 1
        job = {"wasm": wasm, "glue": glue, "inputs": inputs, "api": api, "options": options, "reuse": reuse, "apis": apis}
        try:
            n.stdin.write((json.dumps(job) + "\n").encode())
            n.stdin.flush()
        except BrokenPipeError:
            self.close()
            raise Inconclusive("node died")
        buf = b""
        fd = n.stdout.fileno()
        while not buf.endswith(b"\n"):
            r, _, _ = select.select([fd], [], [], timeout * self.scale)
            if not r:
                self.close()
                raise Inconclusive("node timeout")
            d = os.read(fd, 1 << 20)
            if not d:
                self.close()
                raise Inconclusive("node died")
            buf += d
        out = json.loads(buf)
        if self.njobs > 400:
            self.close()
        for r in out["results"]:
            if "wtns" in r:
                r["wtns"] = base64.b64decode(r["wtns"])
        return out

    def wasm_valid(self, wasm):
        return self.wasm_raw(wasm, "", [], api="validate")["valid"]

    def wasm(self, circ, inputs, **k):
        """inputs: list of python objects (ints become decimal strings)"""
        out = self.wasm_raw(circ.wasm, circ.glue, [x if isinstance(x, str) else input_json(x) for x in inputs], **k)
        if "fatal" in out:
            return [{"error": "FATAL " + out["fatal"], "etype": "fatal", "logs": []} for _ in inputs]
        return out["results"]

    # -------------------------------------------------------------- C++
    def build_cpp(self, circ, asm=True):
        """Compile the C++ calculator.  Support objects are cached by the content of the emitted files."""
        d = circ.cpp
        files = sorted(os.listdir(d))
        main_cpp = circ.name + ".cpp"
        support = [f for f in files if f.endswith((".cpp", ".asm")) and f != main_cpp and f != "json2bin64.cpp"]
        hdr = [f for f in files if f.endswith(".hpp")]
        cache = os.path.join(BUILD, "cpp")
        os.makedirs(cache, exist_ok=True)
        hh = hashlib.sha1()
        for f in hdr:
            hh.update(f.encode() + b"\0" + open(os.path.join(d, f), "rb").read())
        objs = []
        for f in support:
            h = hashlib.sha1(hh.digest() + f.encode() + open(os.path.join(d, f), "rb").read()).hexdigest()
            o = os.path.join(cache, h + ".o")
            if not os.path.exists(o):
                tmp = o + ".%d.tmp" % os.getpid()
                if f.endswith(".asm"):
                    r = exec_(["nasm", "-felf64", f, "-o", tmp], cwd=d, timeout=300)
                else:
                    r = exec_(["g++", "-c", f, "-std=c++11", "-O1", "-I.", "-o", tmp], cwd=d, timeout=600)
                if r.rc != 0:
                    return None, "support file %s does not compile: %s" % (f, r.err[-800:])
                os.rename(tmp, o)
            objs.append(o)
        exe = os.path.join(d, circ.name)
        r = exec_(["g++", "-std=c++11", "-O0", "-I.", "-w", "-o", exe, main_cpp] + objs + ["-lgmp", "-pthread"],
                  cwd=d, timeout=600)
        if r.rc != 0:
            return None, "generated C++ does not compile: " + r.err[-1500:]
        return exe, None

    def cpp(self, circ, exe, inputs):
        out = []
        for n, x in enumerate(inputs):
            ip = os.path.join(circ.dir, "in%d.json" % n)
            op = os.path.join(circ.dir, "out%d.wtns" % n)
            with open(ip, "w") as f:
                f.write(x if isinstance(x, str) else input_json(x))
            if os.path.exists(op):
                os.unlink(op)
            r = exec_([exe, ip, op], cwd=circ.dir, timeout=20 * self.scale)
            if r.rc == 0 and os.path.exists(op):
                out.append({"wtns": open(op, "rb").read(), "logs": r.out, "rc": 0, "err": r.err})
            else:
                out.append({"error": r.err[-500:], "rc": r.rc, "logs": r.out})
        return out


def input_json(x):
    def f(v):
        if isinstance(v, dict):
            return {k: f(y) for k, y in v.items()}
        if isinstance(v, (list, tuple)):
            return [f(y) for y in v]
        return str(v)
    return json.dumps(f(x))
