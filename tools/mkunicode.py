#!/usr/bin/env python3
"""Writes spec/UnicodeTables.tla: which code points begin or continue an
identifier, from the Unicode database Python comes with."""
import os, unicodedata as u
OTHER_START = {0x1885, 0x1886, 0x2118, 0x212E, 0x309B, 0x309C}
OTHER_CONT = {0xB7, 0x387, 0x19DA} | set(range(0x1369, 0x1372))
# Became Other_ID_Continue after Unicode 15.0, or stand outside of ID_Start
# because they are Pattern_Syntax: said nothing about.
LATER = {0x30FB, 0xFF65, 0x2E2F}
def cls(c):
    cat = u.category(chr(c))
    if c in LATER or cat == "Cn": return "?"
    if cat in ("Lu", "Ll", "Lt", "Lm", "Lo", "Nl") or c in OTHER_START: return "s"
    if cat in ("Mn", "Mc", "Nd", "Pc") or c in OTHER_CONT: return "c"
    if cat == "Cs": return "?"
    return "n"
def ranges(k):
    out, lo = [], None
    for c in range(128, 0x110001):
        hit = c < 0x110000 and cls(c) == k
        if hit and lo is None: lo = c
        if not hit and lo is not None: out.append((lo, c - 1)); lo = None
    return out
def tla(name, rs):
    s = "%s == <<\n" % name
    line = "  "
    for i, (a, b) in enumerate(rs):
        item = "<<%d,%d>>%s" % (a, b, "," if i + 1 < len(rs) else "")
        if len(line) + len(item) > 100: s += line + "\n"; line = "  "
        line += item
    return s + line + ">>\n"
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "UnicodeTables.tla")
with open(path, "w") as f:
    f.write("---- MODULE UnicodeTables ----\n(* Generated by tools/mkunicode.py (Unicode %s): the ranges of code points from *)\n(* 128 that begin an identifier, that only continue one, and that are not assigned *)\n(* (about which the specification says nothing). *)\nEXTENDS Naturals, Sequences\n" % u.unidata_version)
    f.write(tla("StartRanges", ranges("s")) + tla("ContRanges", ranges("c")) + tla("UnknownRanges", ranges("?")))
    f.write("""RECURSIVE InRanges(_, _, _, _)
InRanges(c, rs, lo, hi) ==
  IF lo > hi THEN FALSE
  ELSE LET mid == (lo + hi) \\div 2 IN
       IF c < rs[mid][1] THEN InRanges(c, rs, lo, mid - 1)
       ELSE IF c > rs[mid][2] THEN InRanges(c, rs, mid + 1, hi)
       ELSE TRUE
UniStart(c) == InRanges(c, StartRanges, 1, Len(StartRanges))
UniCont(c) == InRanges(c, ContRanges, 1, Len(ContRanges))
UniUnknown(c) == InRanges(c, UnknownRanges, 1, Len(UnknownRanges))
====
""")
