"""The checks whose subject is a machine: interner, list and shared big integers under schedules."""
import glob, json, os, random, re
from concurrent.futures import ThreadPoolExecutor


SCHEDULES = ("Schedules leading to each reachable state of the algorithm specification, and generated legal "
             "client programs, each under the plain schedules, single preemptions at every atomic step (or a "
             "sample), several preemptions, and random and priority schedules; a record is counted once per "
             "distinct recorded history or access log.")
HISTORIES = ("A history for each transition of the store specification (or a sample), and generated register "
             "programs; every register and reference count is read after every step. A record is counted once per "
             "distinct recorded history.")


def register(PROPS, g):
    run = g  # the driver's names

    def record_shards(prop, ctx, binary, scale, tag, args=(), release=False):
        """Run one recorder process per CPU; returns (stats, run counters)"""
        try:
            path = run["build"](binary, release=release, need_hooks=True)
        except run["CannotDecide"]:
            # the tree does not build with the hooks: what can be said without them
            fallback = {"C01": "free", "C02": "free", "C05": "machine", "C06": "machine"}.get(prop)
            run["log"]("the instrumented build is not possible; " +
                       ("the machine's own schedules instead" if fallback else "only the specification is checked"))
            if fallback is None:
                run["build"]("free", hooks=False)        # still has to build at all
                open(os.path.join(ctx["work"], "dev0_0.ndjson"), "w").close()
                return run["merge_stats"]([]), {"runs": 0, "steps": 0, "switches": 0}
            path = run["build"](fallback, release=release, hooks=False)
        run["log"]("built", binary, tag)
        n = run["CPUS"]

        def one(i):
            p = run["execute"](path, [prop, ctx["seed"], scale, ctx["work"], tag, i, n, *args])
            if p.returncode != 0:
                f = os.path.join(ctx["work"], "%s%d_inflight" % (tag, i))
                head = open(f, errors="replace").read().split("\n")[0] if os.path.exists(f) else ""
                kind = "does not terminate" if p.returncode == 97 else "crashes (exit %d)" % p.returncode
                raise run["Violation"]("the implementation " + kind,
                                       {"case_in_flight": head, "stderr": p.stderr[-2000:], "shard": i})
            counters = json.loads(p.stderr.strip().splitlines()[-1])
            return json.load(open(os.path.join(ctx["work"], "%s%d_stats.json" % (tag, i)))), counters

        with ThreadPoolExecutor(n) as ex:
            res = list(ex.map(one, range(n)))
        total = {}
        for _, c in res:
            for k, v in c.items():
                total[k] = total.get(k, 0) + v
        return run["merge_stats"]([s for s, _ in res]), total

    def config(ctx, base, name, changes):
        """A configuration file made from spec/<base>.cfg by changing constants"""
        text = open(os.path.join(run["SPEC"], base + ".cfg")).read()
        for k, v in changes.items():
            text, n = re.subn(r"(?m)^(\s*%s = ).*$" % k, lambda m: m.group(1) + str(v), text)
            assert n == 1, (base, k)
        path = os.path.join(ctx["work"], name + ".cfg")
        open(path, "w").write(text)
        return path

    def model_check(ctx, specs):
        """Model check specification modules. A failure is one of the specification, not of the code; a
        weakened specification (Ord not empty) has to fail, or its invariants say nothing."""
        out = []
        for n, (base, changes) in enumerate(specs):
            weak = changes.get("Ord", "{}") != "{}"
            name = "mc_%s_%d" % (base, n)
            ok, text = run["tlc"](base + ".tla", config(ctx, base, name, changes), ctx["work"], name,
                                  workers=run["CPUS"], mem="10g", timeout=3000)
            gen, distinct = run["states_of"](text)
            if weak == ok or (weak and "is violated" not in text):
                raise run["CannotDecide"]("%s %s: %s" % (base, changes, run["tlc_error"](text)))
            run["log"]("%s %s: %s, %d distinct states" % (base, changes, "fails, as it should" if weak else "holds",
                                                          distinct))
            out.append({"module": base, "constants": changes, "transitions": gen, "states": distinct,
                        "outcome": "violated, as it has to be" if weak else "holds"})
        return out

    def behaviours(ctx, specs, limit):
        """Schedules from the reachable states of the algorithm specifications, one per state"""
        path = os.path.join(ctx["work"], "schedules.txt")
        total, mc = 0, []
        with open(path, "w") as f:
            for n, (base, changes) in enumerate(specs):
                changes = dict(changes, Emit="TRUE")
                name = "gen_%s_%d" % (base, n)
                ok, text = run["tlc"](base + ".tla", config(ctx, base, name, changes), ctx["work"], name, mem="10g",
                                      timeout=3000)
                if not ok:
                    raise run["CannotDecide"]("%s %s: %s" % (base, changes, run["tlc_error"](text)))
                gen, distinct = run["states_of"](text)
                mc.append({"module": base, "constants": changes, "transitions": gen, "states": distinct,
                           "outcome": "holds; schedules replayed"})
                lines = [l for l in text.splitlines() if l.startswith('"[\\"SCHED')]
                if len(lines) > limit:
                    lines = random.Random(ctx["seed"]).sample(lines, limit)
                for l in lines:
                    rec = json.loads(json.loads(l))
                    if len(rec) == 2:       # a history
                        f.write(" ".join(str(x) for step in rec[1] for x in step) + "\n")
                        continue
                    _, start, prog, sched = rec
                    sched = [x if isinstance(x, list) else [x, 1] for x in sched]
                    runs = []
                    for t, k in sched:
                        if runs and runs[-1][0] == t:
                            runs[-1][1] += k
                        else:
                            runs.append([t, k])
                    w = [start if base.startswith("Int") else "list", 0 if base.startswith("Int") else start, len(prog)]
                    for ops in prog:
                        w += [len(ops)] + [x for o in ops for x in o]
                    w += [len(runs)] + [x for r in runs for x in r]
                    f.write(" ".join(map(str, w)) + "\n")
                total += len(lines)
        run["log"]("%d schedules from the specification's states" % total)
        return path, total, mc

    def schedules(prop, ctx, module, quick, thorough, binary="conc", mcs=(), gens=(), args=(), rule=SCHEDULES):
        """mcs and gens: (quick list, thorough list) of (module, constants)"""
        deep = ctx["tier"] == "thorough"
        mc = model_check(ctx, mcs[deep]) if mcs else []
        replayed = 0
        if gens:
            path, replayed, g_mc = behaviours(ctx, gens[deep], 400000 if deep else 30000)
            mc += g_mc
            args = (*args, path)
        m, c = record_shards(prop, ctx, binary, thorough if deep else quick, "dev", args)
        run["log"]("%d runs, %d distinct records" % (c["runs"], m["evaluations"]))
        files = sorted(glob.glob(os.path.join(ctx["work"], "dev*_*.ndjson")))
        lines, states = run["validate"](module, prop + ".cfg", ctx["work"], files)
        run["log"]("TLC accepted %d batches" % lines)
        m["states"] = sum(x["states"] for x in mc) + states
        m["transitions"] = sum(x["transitions"] for x in mc) + states
        m["traces_validated_against_impl"] = m["evaluations"]
        m["distinct_nontrivial"] = m["evaluations"]
        m["schedules_run"] = c["runs"]
        m["specification_schedules_replayed"] = replayed
        m["atomic_steps"] = c["steps"]
        m["context_switches"] = c["switches"]
        m["models"] = mc
        m["rule"] = rule
        return m

    ia, la = "InternerAlg", "ListAlg"
    q = {"NT": 2, "NV": 2, "MaxOps": 2}
    int_mcs = ([(ia, {"NV": 2})],
               [(ia, {}), (ia, {"NT": 3, "NV": 2, "MaxOps": 2})]
               + [(ia, {"Ord": o}) for o in ('{"lock"}', '{"unlock"}', '{"decr"}', '{"scan", "incr"}')])
    int_gens = ([(ia, q)], [(ia, q), (ia, {"NT": 2, "NV": 2, "MaxOps": 3}), (ia, {"NT": 3, "NV": 1, "MaxOps": 2})])
    list_mcs = ([(la, {}), (la, {"NT": 3, "MaxOps": 1})],
                [(la, {"NT": 3}), (la, {"NT": 4, "MaxOps": 1, "Initial": 1}), (la, {"NT": 2, "MaxOps": 3})]
                + [(la, {"Ord": '{"%s"}' % o}) for o in ("push0", "push", "head", "peek", "walk")])
    list_gens = ([(la, {}), (la, {"NT": 3, "MaxOps": 1})],
                 [(la, {}), (la, {"NT": 3, "MaxOps": 1}), (la, {"NT": 2, "MaxOps": 3}),
                  (la, {"NT": 4, "MaxOps": 1, "Initial": 1})])

    def both(a, b):
        return (a[0] + b[0], a[1] + b[1])

    for p, module, q, t, mcs, gens in [
            ("C01", "LinearTrace.tla", 8, 300, int_mcs, int_gens),
            ("C02", "LinearTrace.tla", 8, 300, int_mcs, int_gens),
            ("C03", "HBTrace.tla", 6, 200, both(int_mcs, list_mcs), both(int_gens, list_gens)),
            ("C04", "LinearTrace.tla", 14, 500, list_mcs, list_gens)]:
        PROPS[p] = ("model_checking", lambda prop, ctx, module=module, q=q, t=t, mcs=mcs, gens=gens:
                    schedules(prop, ctx, module, q, t, mcs=mcs, gens=gens))
    bs = "BigStore"
    PROPS["C05"] = ("model_checking", lambda prop, ctx: schedules(
        prop, ctx, "BigMachineTrace.tla", 20, 1000, binary="machine", mcs=([(bs, {})], [(bs, {})]),
        gens=([(bs, {"K": 2}), (bs, {})], [(bs, {"K": 2}), (bs, {})]), rule=HISTORIES))
    PROPS["C06"] = ("model_checking", lambda prop, ctx: schedules(
        prop, ctx, "BigMachineTrace.tla", 40, 1500, binary="machine", mcs=([(bs, {"K": 2})] + int_mcs[0], int_mcs[1]),
        gens=int_gens))
    g["record_shards"], g["model_check"], g["schedules"] = record_shards, model_check, schedules
