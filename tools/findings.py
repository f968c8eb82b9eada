#!/usr/bin/env python3
"""Writes known-findings.txt: the genuine defects found, all repaired by fix: commits in /repo."""
import os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHICH = [("C01", ["Interner::try_get panicked"]),
 ("C02", ["Interner::add duplicated"]),
 ("C03", ["tail walk dereferenced", "concurrent Interner::add"]),
 ("C04", ["concurrent list push"]),
 ("C26", ["collecting into an Option", "static array iterators leaked"]),
 ("C25", ["DynMatrix indexing", "DynMatrix row", "DynMatrix::new", "MatrixRef and MatrixMut"]),
 ("C24", ["row reduction"]),
 ("C22", ["Rat"]),
 ("C21", ["Fixed"]),
 ("C15", ["I<N>"]),
 ("C14", ["U<N> and primitive conv"]),
 ("C13", ["U<N>::pow"]),
 ("C10", ["approx_float", "truncating BigInt", "TryFrom<BigInt>"]),
 ("C12", ["BigInt bit operations"]),
 ("C11", ["from_str_radix", "formatted as -0"]),
 ("C09", ["BigInt equality", "BigInt ordering"]),
 ("C08", ["BigInt remainder"]),
 ("C07", ["negating a zero BigInt"]),
 ("C20", ["arr_to_int", "saturating isize"]),
 ("C18", ["BitVecExt", "BitIter"]),
 ("C17", ["ElementShr", "wrapping shifts", "slice division", "slice long division"]),
 ("C16", ["BitwiseAdd", "mul_overflowing", "add_overflowing", "slice subtraction", "ElementCmp"]),
 ("C19", ["One::is_one", "Gcd", "Signed::is_positive", "CheckedShl", "WrappingAdd"])]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "9dac5b9..HEAD"], capture_output=True,
                     text=True).stdout
out = ["# Genuine defects of CraftSpider/numeric found by these checks. All of them are repaired, so nothing is",
       "# suppressed; a line starting with \"known: property=<id>\" would be reported as KNOWN-FINDING by run.py."]
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    p = [i for i, ks in WHICH if any(k in s for k in ks)]
    assert p, s
    out.append("fixed: property=%s %s %s" % (p[0], h, s[5:]))
open(os.path.join(HERE, "known-findings.txt"), "w").write("\n".join(out) + "\n")
