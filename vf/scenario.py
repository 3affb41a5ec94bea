"""Concrete scenarios: regressions of repaired defects (must hold) and known findings (reported while they fail).

A scenario: {"name", "properties": [...], "known": bool, "what", "src", "flags", "prime", "opt",
 "accept": true|false, "runs": [{"input": {...}, "values": {signal: value} | "fail": true, "logs": [...]}]}
A scenario passes when the compiler accepts/rejects as stated (never panics) and every run gives the values."""
import json, os
from . import fmt, run
from .build import VERIF


def load(prop):
    out = []
    for sub, known in (("regress", False), ("known", True)):
        d = os.path.join(VERIF, sub)
        if not os.path.isdir(d):
            continue
        for f in sorted(os.listdir(d)):
            if not f.endswith(".json"):
                continue
            sc = json.load(open(os.path.join(d, f)))
            if prop not in sc["properties"]:
                continue
            sc["name"] = f[:-5]
            sc["known"] = known
            if isinstance(sc["src"], list):
                sc["src"] = "\n".join(sc["src"]) + "\n"
            out.append(sc)
    return out


def check(ctx, sc):
    """None, or a message saying what is wrong"""
    with run.Scratch() as d:
        flags = sc.get("flags") or ["--r1cs", "--sym", "--wasm"] + (["-c"] if sc.get("cpp") else [])
        src = sc.get("files") or sc["src"]
        c = ctx.R.compile(d, src, flags=flags, prime=sc.get("prime", "bn128"), opt=sc.get("opt", ["--O0"]))
        if c.res.panicked:
            return "the compiler panicked: " + c.res.err[-400:]
        if not sc.get("accept", True):
            return "accepted" if c.res.ok else None
        if not c.res.ok:
            return "rejected: " + c.res.text[-600:]
        if sc.get("repeat"):
            first = open(c.path(".r1cs"), "rb").read()
            for k in range(sc["repeat"]):
                c = ctx.R.compile(d, src, flags=flags, prime=sc.get("prime", "bn128"), opt=sc.get("opt", ["--O0"]))
                if not c.res.ok or open(c.path(".r1cs"), "rb").read() != first:
                    return "another compilation of the same program gives another R1CS file"
        runs = sc.get("runs") or []
        if not runs:
            return None
        sym = c.sym()
        ress = ctx.R.wasm(c, [x["input"] for x in runs])
        for r, res in zip(runs, ress):
            m = judge(r, res, sym)
            if m:
                return m
        if sc.get("cpp"):
            exe, err = ctx.R.build_cpp(c)
            if exe is None:
                return err
            for r, a, res in zip(runs, ress, ctx.R.cpp(c, exe, [x["input"] for x in runs])):
                if "logs" in res and isinstance(res["logs"], str):
                    res["logs"] = res["logs"].split("\n")[:-1]
                m = judge(r, res, sym)
                if m:
                    return "C++: " + m
                if a.get("wtns") != res.get("wtns"):
                    return "C++ and WASM write different witnesses on %s" % json.dumps(r["input"])
    return None


def judge(r, res, sym):
    if r.get("fail"):
        return None if "error" in res else "witness generation succeeded on %s" % json.dumps(r["input"])
    if "error" in res:
        return "witness generation failed on %s: %s" % (json.dumps(r["input"]), res["error"])
    q, n8, w = fmt.read_wtns(res["wtns"])
    got = {s.name: w[s.wire] for s in sym if s.wire >= 0}
    for k, v in r["values"].items():
        if got.get(k) != int(v) % q:
            return "%s = %s, expected %s, on %s" % (k, got.get(k), v, json.dumps(r["input"]))
    if "logs" in r and r["logs"] != [l.rstrip() for l in res["logs"]]:
        return "log lines %s, expected %s" % (res["logs"], r["logs"])
    return None
