#!/usr/bin/env python3
"""Decide one property: python3 run.py C07 (VERIF_TIER=quick|thorough, VERIF_SEED=n).

1. build the harness (and with it /repo's current tree, hooks on);
2. let it execute the implementation and record what it did;
3. let TLC check the records against the TLA+ specification in spec/;
4. write evidence/<id>.json; exit 0, or 1 with a VIOLATION line.
"""
import glob, hashlib, json, os, re, resource, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HARNESS, "target")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = min(8, os.cpu_count() or 8)
T0 = time.time()


class CannotDecide(Exception):
    """The check itself could not run (exit 2): never reported as a violation"""


class Violation(Exception):
    def __init__(self, what, detail):
        super().__init__(what)
        self.what, self.detail = what, detail


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


# --------------------------------------------------------------------------- build

def settle():
    """Cargo goes by the files' dates; go by their contents: when the sources are not those that were built, build them"""
    h = hashlib.sha256()
    for d, dirs, files in os.walk("/repo/crates"):
        dirs[:] = sorted(x for x in dirs if x != "target")
        for f in sorted(files):
            if f.endswith((".rs", ".toml")):
                h.update(os.path.join(d, f).encode() + b"\0")
                h.update(open(os.path.join(d, f), "rb").read())
    mark = os.path.join(TARGET, "numeric-sources")
    try:
        known = open(mark).read()
    except OSError:
        known = ""
    if known != h.hexdigest():
        for kind in ("debug", "release"):
            for x in glob.glob(os.path.join(TARGET, kind, ".fingerprint", "numeric-*")):
                shutil.rmtree(x, ignore_errors=True)
        os.makedirs(TARGET, exist_ok=True)
        with open(mark, "w") as f:
            f.write(h.hexdigest())


def build(binary, release=False, hooks=True, need_hooks=False):
    """Build one harness program from /repo's current tree and return its path"""
    tried = []
    settle()
    for h in ([True] if need_hooks else [True, False]) if hooks else [False]:
        env = dict(os.environ)
        env["RUSTFLAGS"] = "--cfg numeric_verif" if h else ""
        env["CARGO_TARGET_DIR"] = TARGET
        env["CARGO_NET_OFFLINE"] = "true"
        cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path",
               os.path.join(HARNESS + ("-rand" if binary == "random" else ""), "Cargo.toml"), "--bin", binary]
        if release:
            cmd.append("--release")
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            if not h and hooks:
                log("hooks did not build; reading values through the public interface")
            return os.path.join(TARGET, "release" if release else "debug", binary)
        tried.append(p.stdout)
    sys.stdout.write(tried[0][-4000:])
    raise CannotDecide("the harness does not build against /repo")


def limit_memory():
    gb = 1 << 30
    resource.setrlimit(resource.RLIMIT_AS, (12 * gb, 12 * gb))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def execute(binary, args, env=None, timeout=700, stdin=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        return subprocess.run([binary] + [str(a) for a in args], env=e, stdout=subprocess.PIPE,
                              stderr=subprocess.PIPE, text=True, timeout=timeout,
                              preexec_fn=limit_memory, input=stdin)
    except subprocess.TimeoutExpired as x:
        return subprocess.CompletedProcess(x.cmd, 97, x.stdout or "", "timeout")


# --------------------------------------------------------------------------- TLC

def tlc(module, cfg, work, name, env=None, workers=1, timeout=700, mem="3g", extra=(), cwd=SPEC):
    """Run TLC; returns (clean, output)"""
    meta = os.path.join(work, "tlc_" + name)
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    e.update(env or {})
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    jit = ["-XX:TieredStopAtLevel=4", "-XX:CICompilerCount=2"] if workers == 1 else []
    cmd = ["java", gc, *jit, "-Xmx" + mem, "-Xss256m", "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-noGenerateSpecTE", "-metadir", meta, "-config", cfg, *extra, module]
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CannotDecide("TLC timed out on " + name)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    if "OutOfMemory" in out or "StackOverflow" in out or "No space left" in out or "could not reserve" in out.lower():
        raise CannotDecide("TLC ran out of memory or disk")
    return p.returncode == 0 and "No error has been found" in out, out


def states_of(out):
    m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", out.replace(",", ""))
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def tlc_error(out):
    i = out.find("Error:")
    return out[i:i + 3000] if i >= 0 else out[-3000:]


# --------------------------------------------------------------------------- recorded cases

def record(prop, binary, path, seed, scale, work, tag, extra=(), env=None):
    """Let the harness record; a crash or hang of the implementation is a case by itself"""
    e = {"VERIF_SHARDS": str(CPUS)}
    e.update(env or {})
    p = execute(path, [prop, seed, scale, work, tag, *extra], env=e)
    if p.returncode != 0:
        head = ""
        f = os.path.join(work, tag + "_inflight")
        if os.path.exists(f):
            head = open(f, errors="replace").read().split("\n")[0]
        kind = "does not terminate" if p.returncode == 97 else "crashes (exit %d)" % p.returncode
        raise Violation("the implementation %s" % kind,
                        {"case_in_flight": "[" + head + ", ...]", "program": os.path.basename(path),
                         "exit": p.returncode, "stderr": p.stderr[-2000:]})
    return json.load(open(os.path.join(work, tag + "_stats.json")))


def validate_shard(module, cfg, work, f):
    name = os.path.basename(f)
    if os.path.getsize(f) == 0:
        return 0, 0, None
    ok, out = tlc(module, cfg, work, name, env={"TRACE": f})
    lines = sum(1 for _ in open(f))
    rejects = re.findall(r'<<\s*"REJECT",\s*(\d+),\s*\{([^}]*)\}\s*>>', out.replace("\n", " "))
    gen, distinct = states_of(out)
    if not rejects and "REJECT" in out:
        return lines, distinct, {"rejected": 1, "tlc": out[-3000:]}
    if rejects:
        data = open(f).read().split("\n")
        bad = []
        for ln, idx in rejects[:5]:
            batch = json.loads(data[int(ln) - 1])
            for j in idx.split(",")[:5]:
                bad.append(batch[int(j) - 1])
        n = sum(len(i.split(",")) for _, i in rejects)
        return lines, distinct, {"rejected": n, "cases": bad[:20]}
    if not ok:
        # TLC could not evaluate a recorded case: its shape is none the specification allows
        return lines, distinct, {"rejected": 1, "tlc": tlc_error(out),
                                 "line": json.loads(open(f).read().split("\n")[max(0, distinct - 1)] or "[]")[:50]}
    if distinct != lines + 1:
        raise CannotDecide("TLC consumed %d of %d lines of %s" % (distinct - 1, lines, name))
    return lines, distinct, None


def validate(module, cfg, work, files):
    """Check all shards; returns (lines, states) or raises Violation"""
    total = [0, 0]
    found = []

    def one(f):
        if found:           # one violation is enough
            return 0, 0, None
        try:
            r = validate_shard(module, cfg, work, f)
        except CannotDecide as e:
            unsure.append(e)
            return 0, 0, None
        if r[2]:
            found.append(r[2])
        return r

    unsure = []
    bad = None
    with ThreadPoolExecutor(CPUS) as ex:
        for lines, distinct, b in ex.map(one, files):
            total[0] += lines
            total[1] += distinct
            if b and not bad:
                bad = b
    if bad:
        raise Violation("recorded behaviour the specification does not allow", bad)
    if unsure:
        raise unsure[0]
    return total


def merge_stats(stats):
    out = {"evaluations": 0, "distinct_nontrivial": 0, "ops": {}, "samples": []}
    for s in stats:
        out["evaluations"] += s["evaluations"]
        out["distinct_nontrivial"] += s["distinct_nontrivial"]
        for k, v in s["ops"].items():
            out["ops"][k] = out["ops"].get(k, 0) + v
        out["samples"] += s["samples"][:8]
    out["samples"] = out["samples"][:12]
    return out


def check_cases(prop, ctx, binary, module, quick, thorough, release=False, rule="", cfg=None):
    """The property is a relation between arguments and outcome of single operations"""
    scale = thorough if ctx["tier"] == "thorough" else quick
    stats, files = [], []
    jobs = [("dev", False)] + ([("rel", True)] if release else [])
    for tag, rel in jobs:
        path = build(binary, release=rel)
        log("built", binary, tag)
        stats.append(record(prop, binary, path, ctx["seed"], scale, ctx["work"], tag))
        files += sorted(glob.glob(os.path.join(ctx["work"], tag + "_*.ndjson")))
    m = merge_stats(stats)
    log("recorded %d cases" % m["evaluations"])
    lines, states = validate(module, cfg or prop + ".cfg", ctx["work"], files)
    log("TLC accepted %d batches" % lines)
    m["tlc_states"] = states
    m["rule"] = rule or ("Operands are generated at and around representation boundaries (limb and type limits, powers "
                         "of two, long carry chains, correlated operands); a case is counted once per distinct "
                         "operation-and-operands text and is non-trivial if some number in it exceeds 1.")
    m["build_configurations"] = [t for t, _ in jobs]
    return m


# --------------------------------------------------------------------------- properties

PROPS = {}
BIG = dict(binary="bigint", module="BigIntTrace.tla", release=True)
for p, q, t in [("C07", 12, 100), ("C08", 24, 120), ("C09", 10, 60), ("C10", 14, 80), ("C11", 9, 50), ("C12", 16, 90)]:
    PROPS[p] = ("exploration", lambda prop, ctx, q=q, t=t: check_cases(prop, ctx, quick=q, thorough=t, **BIG))

FIX = dict(binary="fixedint", module="FixedWidthTrace.tla", release=True)
for p, q, t in [("C13", 10, 40), ("C14", 10, 40), ("C15", 12, 40)]:
    PROPS[p] = ("exploration", lambda prop, ctx, q=q, t=t: check_cases(prop, ctx, quick=q, thorough=t, **FIX))

def check_bitvec(prop, ctx):
    """C18: the machine itself is model checked, then recorded histories are checked against it"""
    ok, out = tlc("BitVecMC.tla", "BitVecMC.cfg", ctx["work"], "mc", workers=CPUS)
    if not ok:
        raise CannotDecide("BitVecMC: " + tlc_error(out))
    gen, distinct = states_of(out)
    log("BitVecMC: %d distinct states" % distinct)
    m = check_cases(prop, ctx, binary="slices", module="SliceTrace.tla", quick=8, thorough=40, release=True)
    m["specification_states"], m["specification_transitions"] = distinct, gen
    return m


SL = dict(binary="slices", module="SliceTrace.tla", release=True)
for p, q, t in [("C16", 12, 80), ("C17", 24, 80)]:
    PROPS[p] = ("exploration", lambda prop, ctx, q=q, t=t: check_cases(prop, ctx, quick=q, thorough=t, **SL))
PROPS["C18"] = ("exploration", check_bitvec)

PR = dict(binary="prims", module="PrimTrace.tla", release=True)
for p, q, t in [("C19", 5, 30), ("C20", 6, 30)]:
    PROPS[p] = ("exploration", lambda prop, ctx, q=q, t=t: check_cases(prop, ctx, quick=q, thorough=t, **PR))

RE = dict(binary="reals", module="RealTrace.tla", release=True)
for p, q, t in [("C21", 4, 25), ("C22", 12, 50)]:
    PROPS[p] = ("exploration", lambda prop, ctx, q=q, t=t: check_cases(prop, ctx, quick=q, thorough=t, **RE))

CO = dict(binary="compounds", module="CompoundTrace.tla", release=True)
for p, q, t in [("C23", 2, 25), ("C24", 12, 60), ("C25", 30, 150)]:
    PROPS[p] = ("exploration", lambda prop, ctx, q=q, t=t: check_cases(prop, ctx, quick=q, thorough=t, **CO))

PROPS["C26"] = ("exploration", lambda prop, ctx: check_cases(prop, ctx, binary="siter", module="StaticIterTrace.tla",
                quick=8, thorough=150, release=True))

PROPS["C27"] = ("exploration", lambda prop, ctx: check_cases(prop, ctx, binary="floats", module="FloatTrace.tla",
                quick=8, thorough=40, release=True))

PROPS["C28"] = ("exploration", lambda prop, ctx: check_cases(prop, ctx, binary="random", module="UniformTrace.tla",
                quick=2, thorough=12, release=True, rule="Random values of 20 widths are drawn in six ways from sources of "
                "uniform bits; a case is one table of frequencies (of bits, bytes, pairs of bits, whole values)."))

try:
    import machines
    machines.register(PROPS, globals())
except ImportError:
    pass


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out


def setup():
    """Build everything once; the checks rebuild what changed"""
    settle()
    env = dict(os.environ, RUSTFLAGS="--cfg numeric_verif", CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    for crate in (HARNESS, HARNESS + "-rand"):
        for extra in ([], ["--release"]):
            p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--bins", "--manifest-path",
                                os.path.join(crate, "Cargo.toml")] + extra, env=env)
            if p.returncode:
                return 2
    return 0


def main():
    prop = sys.argv[1]
    if prop == "setup":
        return setup()
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    level, fn = PROPS[prop]
    work = os.path.join(HERE, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ctx = {"tier": tier, "seed": seed, "work": work}
    violation = None
    code = 0
    try:
        coverage = fn(prop, ctx)
    except Violation as v:
        violation, coverage, code = v, {"evaluations": 0, "distinct_nontrivial": 0, "rule": "run ended by a violation",
                                        "samples": [json.dumps(v.detail)[:500]], "states": 0, "transitions": 0,
                                        "traces_validated_against_impl": 0}, 1
    except CannotDecide as e:
        print("ERROR: cannot decide %s: %s" % (prop, e))
        return 2
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
          "wall_s": round(time.time() - T0, 2), "violations": 1 if violation else 0}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if violation:
        replay = os.path.join(HERE, "evidence", prop + "-replay.json")
        with open(replay, "w") as f:
            json.dump({"property": prop, "what": violation.what, "detail": violation.detail,
                       "reproduce": "VERIF_SEED=%d VERIF_TIER=%s python3 run.py %s" % (seed, tier, prop)}, f, indent=1)
        print(violation.what)
        print(json.dumps(violation.detail)[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, replay))
    else:
        log("property %s held" % prop)
        for f in glob.glob(os.path.join(work, "*.ndjson")):
            os.remove(f)
    return code


if __name__ == "__main__":
    sys.exit(main())
