#!/usr/bin/env python3
"""Are the //@Cxx tags of contracts/optimize.vc sound?  For each property the clauses tagged
for others only are dropped; everything else has to verify still (the shared postcondition
aside).  Development helper."""
import subprocess, shutil, os, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for P in sys.argv[1:] or ("C22", "C23", "C24"):
    d = tempfile.mkdtemp(prefix="tag", dir=V + "/build")
    subprocess.run([V + "/tools/vx/target/release/vx", "--src", "/repo/src", "--contracts", V + "/contracts", "--out", d + "/m.rs", "--report", d + "/r.json", "--baseline", V + "/contracts/baseline.tsv", "--property", P], check=True)
    r = subprocess.run(["verus", "m.rs", "--verify-module", "optimize::differential_evolution", "--multiple-errors", "4", "--rlimit", "20"], cwd=d, capture_output=True, text=True, timeout=280)
    print("==", P); print(r.stdout[-300:], r.stderr[-6000:])
    shutil.rmtree(d)
