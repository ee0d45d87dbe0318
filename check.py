#!/usr/bin/env python3
"""Run the check of one property: check.py PXX [--tier quick|thorough] [--replay FILE]

Exit 0: the property held on everything explored.
Exit 1: a line "VIOLATION property=<id> replay=<path>" was printed.
Exit 2: the check itself failed (build, TLC, harness).
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()


class CheckError(Exception):
    pass


def go_env():
    env = dict(os.environ)
    env["PATH"] = "/opt/veriftools/go1.27.3/bin:" + env.get("PATH", "/usr/bin:/bin")
    env.update(HOME=env.get("HOME", "/root"), GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GO111MODULE="on",
               GOFLAGS="-mod=mod", GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_EXTRA="")
    return env


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.dir = tempfile.mkdtemp(prefix="gopmml-" + prop + "-")
        self.states = self.transitions = self.traces = 0
        self.samples, self.failures, self.phases = [], [], []
        self.stats = {}
        self.race = False

    # -- building ------------------------------------------------------------
    def build(self, race=False):
        """Build the harness against /repo's working tree."""
        src = os.path.join(self.dir, "src")
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, "harness"), src)
        out = os.path.join(self.dir, "h-race" if race else "h")
        cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", out, "."]
        p = subprocess.run(cmd, cwd=src, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise CheckError("harness does not build:\n" + p.stdout[-4000:])
        return out

    def path(self, name):
        return os.path.join(self.dir, name)

    # -- TLC -----------------------------------------------------------------
    def tlc(self, module, out, env=None, cfg=None, workers=8, simulate=None, timeout=800, expect_violation=False):
        """Run TLC on spec/<module>.tla; its output goes to file out."""
        e = dict(os.environ)
        e.update(env or {})
        meta = tempfile.mkdtemp(dir=self.dir)
        cmd = ["java", "-Xss16m", "-Xmx6g", "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC", "-config", (cfg or module) + ".cfg",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE"]
        if simulate:
            cmd += simulate
        cmd.append(module + ".tla")
        with open(out, "w") as f:
            try:
                p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise CheckError("TLC timed out on " + module)
        shutil.rmtree(meta, ignore_errors=True)
        gen = dist = 0
        tail = []
        with open(out) as f:
            for line in f:
                if line.startswith('"@@'):
                    continue
                tail.append(line)
                m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
                if m:
                    gen, dist = int(m.group(1)), int(m.group(2))
        self.transitions += gen
        self.states += dist
        if p.returncode != 0 and not expect_violation:
            e = CheckError("TLC failed on %s (exit %d):\n%s" % (module, p.returncode, "".join(tail)[-3000:]))
            e.text = "".join(tail)
            raise e
        return p.returncode, "".join(tail), dist

    # -- harness -------------------------------------------------------------
    def harness(self, *args, binary=None, timeout=800, ok=(0,)):
        env = dict(os.environ, GORACE="halt_on_error=1 exitcode=66")
        try:
            p = subprocess.run([binary or self.h] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace", timeout=timeout, cwd=self.dir, env=env)
        except subprocess.TimeoutExpired:
            raise CheckError("harness timed out: " + " ".join(map(str, args)))
        if p.returncode not in ok:
            note = None
            if "-out" in args and os.path.exists(args[args.index("-out") + 1] + ".current"):
                with open(args[args.index("-out") + 1] + ".current") as f:
                    note = f.read()
            if p.returncode == 66 and "WARNING: DATA RACE" in p.stdout:
                at = p.stdout.index("WARNING: DATA RACE")
                self.failures.append({"id": "race", "problems": [p.stdout[at:at + 3000]], "running": note, "args": list(map(str, args))})
                return p
            # a crash of the Go runtime inside the library is the library's doing
            if re.search(r"^(fatal error|panic|unexpected fault|runtime: )", p.stdout, re.M) and "flukeish/pmml/" in p.stdout:
                self.failures.append({"id": "crash", "problems": ["the process died: " + p.stdout[:1500]], "running": note, "args": list(map(str, args))})
                return p
            raise CheckError("harness failed (%d): %s\n%s" % (p.returncode, " ".join(map(str, args)), p.stdout[-3000:]))
        return p

    def absorb(self, res, label):
        """Read a result file of the harness."""
        if not os.path.exists(res):
            return
        with open(res) as f:
            d = json.load(f)
        self.traces += d.get("compared", d["cases"])
        for k, v in d["stats"].items():
            self.stats[k] = self.stats.get(k, 0) + v
        for x in d["failures"]:
            x["phase"] = label
            self.failures.append(x)
        for s in d.get("samples", []):
            if len(self.samples) < 4:
                self.samples.append(s)
        self.phases.append({"phase": label, "cases": d["cases"], "stats": d["stats"]})

    def oracle(self, cases, exp):
        """What the specification prescribes for the cases of a file.  A case whose numbers outgrow
        TLC's integers is dropped from the file: the specification says nothing about it."""
        done = {}
        dropped = 0
        while True:
            try:
                self.tlc("Oracle", exp, {"IN": cases})
            except CheckError as e:
                at = re.search(r"Overflow when computing[\s\S]*?^/\\ i = (\d+)", getattr(e, "text", ""), re.M)
                if not at:
                    raise
                dropped += 1
                with open(exp) as f:
                    for line in f:
                        m = re.match(r'"@@.*?\\"id\\":\\"([^"\\]*)\\"', line)
                        if m:
                            done[m.group(1)] = line
                with open(cases) as f:
                    lines = f.readlines()
                with open(cases + ".all", "a") as keep, open(cases, "w") as f:
                    for k, line in enumerate(lines):
                        if k + 1 == int(at.group(1)):
                            continue
                        if json.loads(line)["id"] in done:
                            keep.write(line)
                        else:
                            f.write(line)
                with open(cases) as f:
                    left = f.readlines()
                if dropped >= 60 and len(left) < len(done):
                    # the rest has to do without the specification
                    dropped += len(left)
                    open(cases, "w").close()
                    open(exp, "w").close()
                    break
                if dropped >= 90:
                    raise
                continue
            break
        if dropped:
            with open(exp, "a") as f:
                f.writelines(done.values())
            with open(cases + ".all") as f, open(cases, "a") as g:
                g.writelines(f.readlines())
            self.rm(cases + ".all")
            self.stats["dropped: numbers beyond TLC"] = self.stats.get("dropped: numbers beyond TLC", 0) + dropped

    # -- phases --------------------------------------------------------------
    def random_phase(self, prop, n, seed, verify=False, junk=False):
        """Random cases; TLC computes what each must give; the code is compared."""
        cases, exp, res = self.path("r.in"), self.path("r.exp"), self.path("r.res")
        self.harness("gen", "-prop", prop, "-seed", seed, "-n", n, "-out", cases)
        self.oracle(cases, exp)
        if verify:
            cases2 = self.path("v.in")
            self.harness("verifgen", "-seed", seed, "-cases", cases, "-expected", exp, "-out", cases2)
            cases = cases2
            self.oracle(cases, exp)
        self.rm(res)
        self.harness("replay", "-cases", cases, "-expected", exp, "-out", res, *(["-verify"] if verify else []), *(["-junk"] if junk else []))
        self.absorb(res, "random seed %d" % seed)

    def enum_phase(self, module, cfg=None, env=None, verify=False, junk=False):
        """Bounded exhaustive model: TLC checks its invariants and emits every case."""
        exp, res = self.path("e.exp"), self.path("e.res")
        self.tlc(module, exp, env, cfg)
        self.rm(res)
        self.harness("replay", "-cases", exp, "-out", res, *(["-verify"] if verify else []), *(["-junk"] if junk else []))
        self.absorb(res, "enumerated " + (cfg or module))

    def rm(self, p):
        if os.path.exists(p):
            os.remove(p)

    def left(self, budget):
        return budget - (time.time() - T0)


# ---------------------------------------------------------------------------
# What each check does.  quick: one pass; thorough: more seeds until the budget ends.

def semantic(prop, quick_n, thorough_n, enum=(), enum_thorough=(), verify=False, junk=False):
    def check(run):
        run.h = run.build()
        for cfg in enum + (enum_thorough if run.tier == "thorough" else ()):
            run.enum_phase(cfg.rsplit("_", 1)[0], cfg=cfg, verify=verify, junk=junk)
        if run.tier == "thorough":
            k = 0
            while run.left(600) > 0 and not run.failures:
                run.random_phase(prop, thorough_n, run.seed * 1000 + k, verify, junk)
                k += 1
        else:
            run.random_phase(prop, quick_n, run.seed, verify, junk)
    return check


def p16(run):
    """Conversions: every numeric text TLC enumerates, then random ones."""
    run.h = run.build()
    cfgs = [None] if run.tier == "quick" else [None, "MC_Conv_deep"]
    for cfg in cfgs:
        exp, res = run.path("c.exp"), run.path("c.res")
        run.tlc("MC_Conv", exp, cfg=cfg)
        run.rm(res)
        run.harness("conv", "-cases", exp, "-out", res)
        run.absorb(res, "enumerated " + (cfg or "MC_Conv"))
    k = 0
    while True:
        cases, exp, res = run.path("c.in"), run.path("c.exp"), run.path("c.res")
        run.harness("convgen", "-seed", run.seed * 1000 + k, "-n", 3000, "-out", cases)
        run.tlc("ConvOracle", exp, {"IN": cases})
        run.rm(res)
        run.harness("conv", "-cases", exp, "-out", res)
        run.absorb(res, "random seed %d" % (run.seed * 1000 + k))
        k += 1
        if run.tier == "quick" or run.failures or run.left(600) < 0:
            return


def p17(run):
    """Arrays: reading every short text, writing every short list and reading it back."""
    run.h = run.build()
    todo = [("MC_Array", None), ("MC_Array", "MC_Array_num"), ("MC_Array", "MC_Array_zero"), ("MC_ArrayWrite", None)]
    if run.tier == "thorough":
        todo += [("MC_Array", "MC_Array_deep"), ("MC_ArrayWrite", "MC_ArrayWrite_deep")]
    for module, cfg in todo:
        exp, res = run.path("a.exp"), run.path("a.res")
        run.tlc(module, exp, cfg=cfg)
        run.rm(res)
        run.harness("array", "-cases", exp, "-out", res)
        run.absorb(res, "enumerated " + (cfg or module))
    k = 0
    while True:
        cases, exp, res = run.path("a.in"), run.path("a.exp"), run.path("a.res")
        run.harness("arraygen", "-seed", run.seed * 1000 + k, "-n", 4000, "-out", cases)
        run.tlc("ArrayOracle", exp, {"IN": cases})
        run.rm(res)
        run.harness("array", "-cases", exp, "-out", res)
        run.absorb(res, "random seed %d" % (run.seed * 1000 + k))
        k += 1
        if run.tier == "quick" or run.failures or run.left(600) < 0:
            return


def loading(parts, quick_n, factories=False):
    """Documents as token streams: what the loading machine keeps of them."""
    def check(run):
        run.h = run.build()
        schema = os.path.join(SPEC, "schema.json")
        for part in parts:
            exp, res = run.path("l.exp"), run.path("l.res")
            run.tlc("MC_Load", exp, cfg="MC_Load_" + part)
            run.rm(res)
            run.harness("load", "-schema", schema, "-cases", exp, "-out", res)
            run.absorb(res, "enumerated " + part)
        if factories:
            exp, res = run.path("f.exp"), run.path("f.res")
            run.tlc("MC_Factory", exp)
            run.rm(res)
            run.harness("factory", "-cases", exp, "-out", res)
            run.absorb(res, "factories")
        k = 0
        while True:
            cases, exp, res = run.path("l.in"), run.path("l.exp"), run.path("l.res")
            seed = run.seed * 1000 + k
            run.harness("loadgen", "-schema", schema, "-seed", seed, "-n", quick_n, "-out", cases)
            run.tlc("LoadOracle", exp, {"IN": cases})
            run.rm(res)
            run.harness("load", "-schema", schema, "-cases", exp, "-out", res)
            run.absorb(res, "random documents seed %d" % seed)
            k += 1
            if run.tier == "quick" or run.failures or run.left(600) < 0:
                return
    return check


def documents(run, seed, n):
    """Pairs of models over one set of dictionaries, with the outcomes TLC computes for them."""
    cases, cases2, exp = run.path("s.in"), run.path("s2.in"), run.path("s.exp")
    run.harness("sessgen", "-seed", seed, "-n", n, "-out", cases)
    run.oracle(cases, exp)
    run.harness("verifgen", "-seed", seed, "-cases", cases, "-expected", exp, "-out", cases2)
    run.oracle(cases2, exp)
    return cases2, exp


def histories(cmd, module, quick, thorough, per):
    """Every history of a state machine, replayed on real objects."""
    def check(run):
        run.h = run.build()
        k = 0
        hist = {}
        for cfg, simulate in (quick if run.tier == "quick" else thorough):
            hist[cfg] = run.path("hist-%s" % cfg)
            run.tlc(module, hist[cfg], cfg=cfg, simulate=simulate)
        while True:
            cases, exp = documents(run, run.seed * 1000 + k, 400 if run.tier == "quick" else 1500)
            for cfg, out in hist.items():
                res = run.path("s.res")
                run.rm(res)
                run.harness(cmd, "-hist", out, "-cases", cases, "-expected", exp, "-out", res, "-per", per)
                run.absorb(res, "%s seed %d" % (cfg, run.seed * 1000 + k))
            k += 1
            if run.tier == "quick" or run.failures or run.left(600) < 0:
                return
    return check


def both(*checks):
    def check(run):
        for c in checks:
            c(run)
    return check


def long_runs(n):
    return ["-simulate", "num=%d" % n, "-depth", "31", "-seed", "7"]


def p13(run):
    """Interleavings TLC enumerates, and free running under the race detector."""
    run.h = run.build()
    race = run.build(race=True)
    code, text, _ = run.tlc("Conc", run.path("inplace"), cfg="Conc_inplace", expect_violation=True)
    if "Invariant RaceFree is violated" not in text:
        raise CheckError("Conc_inplace should be refuted:\n" + text[-2000:])
    hist = {}
    for cfg in ["Conc", "Conc_three"] + (["Conc_deep"] if run.tier == "thorough" else []):
        hist[cfg] = run.path("hist-" + cfg)
        run.tlc("Conc", hist[cfg], cfg=cfg)
    k = 0
    while not run.failures:
        seed = run.seed * 1000 + k
        cases, exp = documents(run, seed, 300 if run.tier == "quick" else 800)
        for args, label in [(("together",), "independent documents"), (("stress", "-per", 40 if run.tier == "quick" else 100), "free running")] + \
                           [(("sched", "-hist", hist[c]), "schedules " + c) for c in hist]:
            res = run.path("c.res")
            run.rm(res)
            run.harness(*args, "-seed", seed, "-cases", cases, "-expected", exp, "-out", res, binary=race)
            if run.failures:
                return
            run.absorb(res, "%s seed %d" % (label, seed))
        k += 1
        if run.tier == "quick" or run.left(500) < 0:
            return


SESSION = histories("session", "Session", [("Session", None), ("Session_long", long_runs(24))],
                    [("Session", None), ("Session_deep", None), ("Session_long", long_runs(150))], 1)
LIFE = histories("life", "Life", [("Life", None)], [("Life", None)], 1)


CHECKS = {
    "P01": loading(["kids", "pairs", "broken"], 3000),
    "P18": loading(["attrs", "kids", "pairs"], 1500, factories=True),
    "P02": semantic("P02", 1500, 4000, ("MC_Pred_simple", "MC_Pred_set", "MC_Pred_flat", "MC_Pred_nested"), ("MC_Pred_deep",)),
    "P03": semantic("P03", 1500, 4000, ("MC_Tree_plaindeep",), ("MC_Tree_default",)),
    "P04": semantic("P04", 1500, 4000, ("MC_Tree_combineddeep", "MC_Tree_weights", "MC_Tree_default", "MC_Tree_plain"), ("MC_Tree_weightsdeep", "MC_Tree_defaultdeep", "MC_Tree_plaindeep")),
    "P05": semantic("P05", 1500, 4000, ("MC_Dist_dist", "MC_Dist_absent", "MC_Dist_levels"), ("MC_Dist_deep",)),
    "P06": semantic("P06", 1500, 4000, ("MC_Reg_single", "MC_Reg_binary", "MC_Reg_multi", "MC_Reg_some", "MC_Reg_four"), ("MC_Reg_deep",)),
    "P07": semantic("P07", 1500, 4000, ("MC_Mining_sum", "MC_Mining_nest"), ("MC_Mining_sumdeep",)),
    "P08": semantic("P08", 1500, 4000, ("MC_Mining_first", "MC_Mining_chain", "MC_Mining_ends"), ("MC_Mining_firstdeep",)),
    "P09": semantic("P09", 1500, 4000, ("MC_Expr_one", "MC_Expr_two", "MC_Expr_maps", "MC_Expr_lists", "MC_Expr_lazy", "MC_Expr_kinds"), ("MC_Expr_deep",)),
    "P10": semantic("P10", 1500, 4000, ("MC_Impute_flat", "MC_Impute_two", "MC_Impute_chain", "MC_Impute_three")),
    "P11": semantic("P11", 1500, 4000, ("MC_Verify_numbers", "MC_Verify_words", "MC_Verify_columns"), verify=True),
    "P12": SESSION,
    "P13": p13,
    "P14": both(SESSION, LIFE),
    "P16": p16,
    "P17": p17,
    "P15": semantic("P15", 1500, 4000, ("MC_Bad_single", "MC_Bad_fields", "MC_Bad_nested"), junk=True),
}


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    run = Run(prop, tier, seed)
    code = 0
    try:
        CHECKS[prop](run)
        code = report(run)
    except CheckError as e:
        print("CHECK ERROR %s: %s" % (prop, e))
        code = 2
    finally:
        shutil.rmtree(run.dir, ignore_errors=True)
    sys.exit(code)


def report(run):
    known = known_findings(run.prop)
    new = []
    for f in run.failures:
        hit = [k for k in known if f["id"] == k[0]]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (run.prop, hit[0][1]))
        else:
            new.append(f)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": run.prop, "tier": run.tier, "seed": run.seed, "level": "model_checking",
          "coverage": {"states": run.states, "transitions": run.transitions, "traces_validated_against_impl": run.traces,
                       "outcomes": run.stats, "phases": run.phases, "samples": run.samples},
          "assumptions": ["the specification in spec/ states the property (DESIGN.md)", "TLC, the Go toolchain and encoding/xml are trusted"],
          "wall_s": round(time.time() - T0, 1), "violations": len(new)}
    with open(os.path.join(VERIF, "evidence", run.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not new:
        print("%s holds: %d states, %d transitions, %d behaviours compared with the code, %.0f s"
              % (run.prop, run.states, run.transitions, run.traces, time.time() - T0))
        return 0
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", "%s-%d.json" % (run.prop, run.seed))
    with open(path, "w") as f:
        json.dump(new[:20], f, indent=1)
    for f in new[:3]:
        print("%s: %s" % (f["id"], "; ".join(f["problems"])[:600]))
    print("VIOLATION property=%s replay=%s" % (run.prop, path))
    return 1


if __name__ == "__main__":
    main()
