#!/usr/bin/env python3
"""Every contract has to be satisfiable: with assert(false) at the end of each body and each
lemma, each of them must fail.  vacuity.py [PROPERTY]"""
import os, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run


if __name__ == "__main__":
    for p in sys.argv[1:] or ["C01", "C22", "C23", "C24"]:
        with tempfile.TemporaryDirectory(dir=f"{V}/build") as w:
            n, bad, err = run.vacuous(p, w)
            print(p, n, "checked;", "passing with assert(false):", bad, err)
