#!/usr/bin/env python3
"""Vacuity check of the proof units: with `assert(false)` at the start of every function under contract, every one of them has to fail.
usage: smoke.py UNIT...   (run after proof.py has assembled the units)"""
import subprocess, sys, re, os
B = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), ".build", "proof")
for u in sys.argv[1:]:
    s = open(f"{B}/{u}.rs").read()
    n = s.count("\n {\n")
    t = s.replace("\n {\n", "\n { proof { assert(false); }\n")
    p = f"/tmp/smoke_{u}.rs"
    open(p, "w").write(t)
    r = subprocess.run(["verus", p, "--multiple-errors", "1"], capture_output=True, text=True)
    out = r.stdout + r.stderr
    bad = out.count("assertion failed")
    print(u, "bodies", n, "refuted", bad, re.findall(r"\d+ verified, \d+ errors", out))
    os.remove(p)
