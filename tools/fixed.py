#!/usr/bin/env python3
"""Rewrites the 'fixed:' lines of known-findings.txt from the fix: commits of /repo (run by hand)."""
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [("link the function calls", "C02"), ("evaluate only the selected branch", "C02"), ("an array selected by an unknown", "C02"),
       ("read the right-hand side of an array", "C02"), ("extract the function calls", "C05"), ("infer the type of a call", "C02"),
       ("keep the evaluation of the expressions that contain asserts", "C18"), ("infer the type of a function that", "C02"),
       ("the branches of an inline conditional", "C02"), ("do not use the log strings as printf", "C03"), ("escape the log strings in the wat", "C12"),
       ("split the long log strings", "C12"), ("allocate as many field definitions", "C03"), ("the comment marks inside", "C16"),
       ("run the parallel components without inputs", "C03"), ("use the parallel code when", "C03"), ("parenthesize the indexes", "C03"),
       ("the constant shifts", "C04"), ("report the constant remainders", "C12"), ("keep the constraints that equate", "C06"),
       ("write the substitutions in terms", "C06"), ("number in the witness only", "C09")]
extra = os.path.join(V, "tools", "fixed_more.txt")
if os.path.exists(extra):
    MAP += [tuple(l.rstrip("\n").split("\t")) for l in open(extra) if "\t" in l]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
out = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    m = [p for k, p in MAP if k in s]
    assert len(m) == 1, (s, m)
    out.append("fixed: property=%s %s %s" % (m[0], h, s[5:]))
f = os.path.join(V, "known-findings.txt")
keep = [l for l in open(f).read().splitlines() if not l.startswith("fixed:")] if os.path.exists(f) else [
    "# Known findings: one line per entry of known/*.json (the exact input that fails), then the repaired defects."]
open(f, "w").write("\n".join(keep + out) + "\n")
