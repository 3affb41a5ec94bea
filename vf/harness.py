"""Drives the generated cases of a check over the cores, shrinks the first failure, writes the evidence."""
import collections, hashlib, importlib, json, os, pickle, select, signal, sys, time, traceback
from . import build, choice, run, scenario
from .build import VERIF

WORKERS = int(os.environ.get("VF_WORKERS", "8"))


class Fail(Exception):
    """the property is broken by this case"""

    def __init__(self, sig, msg="", **files):
        Exception.__init__(self, sig + ": " + msg)
        self.sig = sig
        self.msg = msg
        self.files = files


class Discard(Exception):
    """the generated case does not belong to the domain of the property"""


class Ctx:
    def __init__(self, circom, tier):
        self.circom = circom
        self.tier = tier
        self.R = run.Runner(circom)
        self.slow = 1
        self.store = {}

    def close(self):
        self.R.close()


class Result:
    __slots__ = ("nontrivial", "key", "labels", "sample", "weight")

    def __init__(self, nontrivial=True, key="", labels=(), sample=None, weight=1):
        self.nontrivial = nontrivial
        self.key = hashlib.sha1(key.encode() if isinstance(key, str) else key).hexdigest()[:16]
        self.labels = list(labels)
        self.sample = sample
        self.weight = weight       # evaluations inside this case


class Check:
    id = None
    rule = ""
    assumptions = []
    cases = {"quick": 1000, "thorough": 10000}
    retries = 1
    min_nontrivial = 10      # per cent, otherwise the run is an error of the check

    def setup(self, ctx):
        pass

    def prepare(self, ctx):
        """once, before the workers are forked"""

    def case(self, ctx, ch, idx):
        raise NotImplementedError


def worker(chk, wid, n, seed, tier, circom, wfd, stopfd):
    ctx = Ctx(circom, tier)
    st = {"evals": 0, "keys": set(), "labels": collections.Counter(), "samples": [], "discard": 0, "stop": 0,
          "inconclusive": [], "fail": None, "error": None, "cases": 0}
    try:
        chk.setup(ctx)
        idx = wid
        while idx < n:
            if select.select([stopfd], [], [], 0)[0]:
                break
            st["cases"] += 1
            try:
                for attempt in range(2):
                    ch = choice.Ch(seed=choice.case_seed(seed, chk.id, idx))
                    ctx.R.scale = 1 if attempt == 0 else 4
                    try:
                        r = chk.case(ctx, ch, idx)
                        break
                    except run.Inconclusive:
                        if attempt == 1:
                            raise
                st["evals"] += r.weight
                for l in r.labels:
                    st["labels"][l] += 1
                if r.nontrivial:
                    st["keys"].add(r.key)
                    if len(st["samples"]) < 2 and r.sample is not None:
                        st["samples"].append(r.sample)
            except Discard as e:
                st["discard"] += 1
                st["labels"]["discard:" + str(e)[:60]] += 1
            except choice.Stop:
                st["stop"] += 1
            except run.Inconclusive as e:
                st["inconclusive"].append("case %d: %s" % (idx, e))
                if len(st["inconclusive"]) >= 3:
                    break
            except Fail as f:
                st["fail"] = (idx, list(ch.seq), f.sig, f.msg, f.files)
                break
            idx += WORKERS
    except Exception:
        st["error"] = traceback.format_exc()
    ctx.close()
    with os.fdopen(wfd, "wb") as f:
        pickle.dump(st, f)


def shrink_fail(chk, circom, tier, idx, seq, sig, seconds=90, budget=400):
    ctx = Ctx(circom, tier)
    chk.setup(ctx)
    best = {"f": None}
    end = time.time() + seconds

    def fails(s):
        if time.time() > end:
            return None
        ch = choice.Ch(prefix=s)
        try:
            chk.case(ctx, ch, idx)
        except Fail as f:
            if f.sig == sig:
                best["f"] = f
                return list(ch.seq)
        except Exception:
            pass
        return None
    seq = choice.shrink(seq, fails, budget)
    f = None
    try:
        chk.case(ctx, choice.Ch(prefix=seq), idx)
    except Fail as x:
        f = x
    except Exception:
        pass
    ctx.close()
    return seq, f


def emit_violation(prop, name, data):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (prop, name))
    with open(p, "w") as f:
        json.dump(data, f, indent=1)
    print("  " + (data.get("sig", "") + ": " + data.get("msg", ""))[:1500])
    for k, v in (data.get("files") or {}).items():
        print("  --- " + k)
        print("  " + str(v)[:3000].replace("\n", "\n  "))
    print("VIOLATION property=%s replay=%s" % (prop, p))
    sys.stdout.flush()


def load(prop):
    return importlib.import_module("vf.checks." + prop.lower()).CHECK()


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    chk = load(prop)
    try:
        circom = build.circom()
    except build.BuildError as e:
        print("error: " + str(e))
        return 2
    tb = time.time() - t0
    ctx = Ctx(circom, tier)
    known, nreg = [], 0
    violations = 0
    # regressions of repaired defects, known findings
    try:
        for sc in scenario.load(prop):
            msg = scenario.check(ctx, sc)
            if sc.get("known"):
                if msg:
                    known.append(sc["name"])
                    print("KNOWN-FINDING: property=%s %s (%s)" % (prop, sc["what"], sc["name"]))
                continue
            nreg += 1
            if msg:
                violations += 1
                emit_violation(prop, sc["name"], {"property": prop, "kind": "scenario", "scenario": sc["name"],
                                                  "sig": "regression", "msg": msg, "files": {"source": sc["src"]}})
        chk.prepare(ctx)
    except run.Inconclusive as e:
        print("error: inconclusive: %s" % e)
        return 2
    except Fail as f:
        violations += 1
        emit_violation(prop, "prepare", {"property": prop, "kind": "prepare", "sig": f.sig, "msg": f.msg, "files": f.files})
    ctx.close()
    n = chk.cases[tier]
    n = int(os.environ.get("VF_CASES", n))
    stats = []
    if not violations:
        stop_r, stop_w = os.pipe()
        pend = {}
        for w in range(WORKERS):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    signal.signal(signal.SIGINT, signal.SIG_DFL)
                    worker(chk, w, n, seed, tier, circom, wr, stop_r)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    os._exit(code)
            os.close(wr)
            pend[r] = (pid, [])
        while pend:
            rs, _, _ = select.select(list(pend), [], [])
            for fd in rs:
                d = os.read(fd, 1 << 20)
                if d:
                    pend[fd][1].append(d)
                    continue
                pid, parts = pend.pop(fd)
                os.close(fd)
                os.waitpid(pid, 0)
                try:
                    st = pickle.loads(b"".join(parts))
                except Exception:
                    st = None
                stats.append(st)
                if st is None or st["fail"] or st["error"]:
                    os.write(stop_w, b"x")
        os.close(stop_r)
        os.close(stop_w)
    error = None
    lab = collections.Counter()
    keys = set()
    samples = []
    evals = disc = 0
    inc = []
    fails = []
    cases = 0
    for st in stats:
        if st is None:
            error = "a worker died"
            continue
        evals += st["evals"]
        cases += st["cases"]
        disc += st["discard"] + st["stop"]
        keys |= st["keys"]
        lab.update(st["labels"])
        samples += st["samples"]
        inc += st["inconclusive"]
        if st["error"]:
            error = st["error"]
        if st["fail"]:
            fails.append(st["fail"])
    if fails:
        idx, seq, sig, msg, files = min(fails)[:5]
        s2, f = shrink_fail(chk, circom, tier, idx, seq, sig)
        if f is not None:
            seq, msg, files = s2, f.msg, f.files
        violations += len(fails)
        emit_violation(prop, "case%d" % idx, {"property": prop, "kind": "case", "tier": tier, "seed": seed, "idx": idx,
                                              "seq": seq, "sig": sig, "msg": msg, "files": files})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(keys), "rule": chk.rule, "samples": samples[:4],
            "cases_generated": cases, "cases_discarded": disc, "labels": dict(lab.most_common(60)),
            "regression_scenarios": nreg, "known_findings": known,
        },
        "assumptions": list(chk.assumptions), "wall_s": round(time.time() - t0, 1), "build_s": round(tb, 1),
        "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d evaluations, %d distinct non-trivial, %d discarded, %.0f s (build %.0f s)" % (
        prop, tier, seed, cases, evals, len(keys), disc, time.time() - t0, tb))
    if violations:
        return 1
    if error:
        print("error: " + error)
        return 2
    if inc:
        print("error: inconclusive: " + "; ".join(inc[:3]))
        return 2
    if cases == 0 or len(keys) * 100 < chk.min_nontrivial * cases:
        print("error: too few non-trivial cases (%d of %d)" % (len(keys), cases))
        return 2
    return 0


def replay(path):
    data = json.load(open(path))
    prop = data["property"]
    chk = load(prop)
    ctx = Ctx(build.circom(), data.get("tier", "quick"))
    if data["kind"] == "scenario":
        for sc in scenario.load(prop):
            if sc["name"] == data["scenario"]:
                m = scenario.check(ctx, sc)
                ctx.close()
                if m:
                    print(m)
                    print("VIOLATION property=%s replay=%s" % (prop, path))
                    return 1
        return 0
    try:
        chk.prepare(ctx)
        chk.setup(ctx)
        if data["kind"] == "case":
            chk.case(ctx, choice.Ch(prefix=data["seq"]), data["idx"])
    except Fail as f:
        print(f.sig + ": " + f.msg)
        for k, v in f.files.items():
            print("--- " + k)
            print(v)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    finally:
        ctx.close()
    print("no violation")
    return 0
