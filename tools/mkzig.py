#!/usr/bin/env python3
"""Prints spec/ZigguratTables.tla from the output of a TLC run that printed the derived rows
(the derivation itself is spec/Ziggurat.tla, and MCZiggurat checks that the two agree)."""
import re, sys
t = open(sys.argv[1]).read().replace("\n", " ")
rows = re.findall(r'<<\s*"ROW",\s*(\d+),\s*\[\s*e \|->\s*(<<.*?>>\s*>>),\s*y \|->\s*(<<.*?>>\s*>>),\s*k \|->\s*(\d+)', t)
assert len(rows) == 128
sq = lambda s: re.sub(r"\s+", "", s)
print("--------------------------- MODULE ZigguratTables ---------------------------")
print("EXTENDS Integers")
print("(* Values of the tables derived in Ziggurat.tla, kept as literals because   *)")
print("(* TLC would derive them anew in every state.  MCZiggurat compares them.    *)")
for name, col in (("EdgeTup", 1), ("HeightTup", 2), ("KTup", 3)):
    print(name + " ==\n  <<" + ",\n    ".join(sq(r[col]) for r in rows) + ">>")
print("=============================================================================")
