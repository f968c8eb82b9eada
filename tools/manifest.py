#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of decided properties below."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

BIGNOTE = ("Every recorded execution of the real code is judged by TLC against the exact mathematical definition in "
           "spec/%s; the inputs are generated, biased to representation boundaries, so the assurance is that of a "
           "large boundary-directed exploration, not of a proof. Trusts TLC, the harness's encoding of values, and "
           "that the recorder reports what the code returned.")
T = {
 "C07": ("TLA+ relation over unbounded integers, TLC validates recorded executions", "exploration", "BigIntOps.tla"),
 "C08": ("TLA+ relation (q*b+r certificate), TLC validates recorded executions", "exploration", "BigIntOps.tla"),
 "C09": ("TLA+ relation, TLC validates recorded executions", "exploration", "BigIntOps.tla"),
 "C10": ("TLA+ relation, TLC validates recorded executions", "exploration", "BigIntOps.tla"),
 "C11": ("TLA+ grammar of numerals, TLC validates recorded executions", "exploration", "BigIntOps.tla"),
 "C12": ("TLA+ two's complement specification, TLC validates recorded executions", "exploration", "BigIntOps.tla"),
 "C13": ("TLA+ modular arithmetic specification, TLC validates recorded executions", "exploration", "FixedWidth.tla"),
 "C14": ("TLA+ specification of fixed-width values, TLC validates recorded executions", "exploration", "FixedWidth.tla"),
 "C15": ("TLA+ specification of fixed-width signed values, TLC validates recorded executions", "exploration", "FixedWidth.tla"),
 "C16": ("TLA+ specification of slice arithmetic, TLC validates recorded executions", "exploration", "SliceOps.tla"),
 "C17": ("TLA+ specification of slice arithmetic, TLC validates recorded executions", "exploration", "SliceOps.tla"),
 "C18": ("TLA+ bit-vector machine, model checked; TLC validates recorded histories", "exploration", "BitVec.tla"),
 "C19": ("TLA+ specification of the primitive traits, TLC validates recorded executions", "exploration", "PrimOps.tla"),
 "C20": ("TLA+ specification of conversions, TLC validates recorded executions", "exploration", "PrimOps.tla"),
 "C21": ("TLA+ fixed-point specification, TLC validates recorded executions", "exploration", "RealOps.tla"),
 "C22": ("TLA+ rational specification, TLC validates recorded executions", "exploration", "RealOps.tla"),
 "C23": ("TLA+ algebra over exact rationals, TLC validates recorded executions", "exploration", "Compound.tla"),
 "C24": ("TLA+ echelon/span/Leibniz specification, TLC validates recorded executions", "exploration", "Compound.tla"),
 "C25": ("TLA+ matrix machine, TLC validates recorded histories", "exploration", "Compound.tla"),
 "C26": ("TLA+ ownership machine of the plain loop, TLC validates recorded event logs", "exploration", "StaticIter.tla"),
 "C28": ("TLA+ specification of a uniform sampler, TLC validates recorded frequencies", "exploration", "Uniform.tla"),
 "C27": ("TLA+ exact dyadic specification, TLC validates recorded executions", "exploration", "FloatOps.tla"),
}
NOTES = {"C28": "Frequencies of bits, bytes, pairs of bits and whole two-byte values recorded from the real samplers are "
         "judged by TLC against spec/Uniform.tla with a tolerance of eight standard deviations; sources are pseudo-random and "
         "fixed by the seed. A bias too small for 8192 draws per width (2^21 for two bytes) is not seen. Trusts TLC and the "
         "recorder."}
NA = {}
try:
    exec(open(os.path.join(HERE, "tools", "manifest_machines.py")).read())
except FileNotFoundError:
    pass

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        tech, level, mod = T[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i,
                       "thorough_cmd": "python3 run.py %s thorough" % i,
                       "technique": tech, "level": level, "level_note": NOTES.get(i) or BIGNOTE % mod})
    else:
        na.append({"property": i, "reason": NA.get(i, "Check not built yet.")})
base = "9dac5b9"
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s", base + "..HEAD"], capture_output=True, text=True).stdout
hooks = [l.split()[0] for l in log.splitlines() if l.split(" ", 1)[1].startswith("hook:")]
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "hooks": {"guard": "cfg(numeric_verif)",
               "enable": "RUSTFLAGS='--cfg numeric_verif' cargo build (run.py does this with its own target directory, "
                         "/verif/harness/target)",
               "source_commits": hooks},
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ with TLC. spec/ holds the specification, harness/ executes /repo's code and records, run.py drives."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
