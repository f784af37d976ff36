#!/usr/bin/env python3-vt
"""Writes spec/IndepTables.tla and harness/crit.go from scipy (development tool)."""
import math
from scipy.stats import chi2
LEVELS = [0.0001, 0.001, 0.01, 0.05, 0.1, 0.5]
N, DF = 2000, 225
ln = [round(math.log(i) * 1e5) for i in range(1, N + 1)]
crit = [[round(chi2.isf(p, d) * 1e5) for p in LEVELS] for d in range(1, DF + 1)]
def wrap(xs, ind, per):
    return (",\n" + ind).join(", ".join(xs[i:i+per]) for i in range(0, len(xs), per))
with open("spec/IndepTables.tla", "w") as f:
    f.write("------------------------------ MODULE IndepTables ------------------------------\n"
            "(* natural logarithms of 1..%d, and upper critical values of the chi-square  *)\n"
            "(* distribution for up to %d degrees of freedom and the significance levels   *)\n"
            "(* %s, both in units of 1/100000 *)\n" % (N, DF, ", ".join(map(str, LEVELS))))
    f.write("Ln == <<" + wrap([str(x) for x in ln], "   ", 14) + ">>\n")
    f.write("(* significance levels, in units of 1/10000 *)\nLevels == <<%s>>\n(* Crit[df][level] *)\n" % ", ".join(str(round(x * 10000)) for x in LEVELS))
    f.write("Crit == <<" + wrap(["<<" + ", ".join(map(str, r)) + ">>" for r in crit], "   ", 2) + ">>\n")
    f.write("=============================================================================\n")
with open("harness/crit.go", "w") as f:
    f.write("package main\n\n// upper critical values of the chi-square distribution, in 1/100000\nvar critTable = [][]int{\n")
    for r in crit: f.write("\t{" + ", ".join(map(str, r)) + "},\n")
    f.write("}\n")
