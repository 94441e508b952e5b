"""The checks: which simulations decide which property.

A family is (name, bundles in the quick tier, specs per bundle, generator); a generator
makes a spec from a random generator.  `accept` lists the oracles that speak for the
property; what others find is left to the checks of their own properties.
"""
from . import driver, gen, initial, pairs, seeded, statio
from .gen import r2  # noqa: F401


class Check:
    def __init__(self, pid, accept, families, level_note, rule, real=None):
        self.pid = pid
        self.accept = accept
        self.families = families
        self.level_note = level_note
        self.rule = rule


def monitored(spec, accept, record=False):
    return driver.Driver(spec, accept, record).execute()


ENGINES = {"run": monitored, "pair": pairs.execute, "stat": statio.execute, "initial": initial.execute,
           "seeded": seeded.execute}


def execute(spec, accept, record=False):
    return ENGINES[spec.get("engine", "run")](spec, accept, record)


# ---------------------------------------------------------------- generators


def any_problem(r, limit=40, **kw):
    opts = dict(extras=True, args=True, custom_init=True)
    opts.update(kw)
    return gen.small_problem(r, limit, **opts)


def base_or_problem(r, share=0.25, limit=40, n_max=4, api=0.15, **kw):
    n = r.randint(1, n_max)
    if r.random() < share:
        spec = {"base": gen.base_problem(r), "n_chains": n}
    else:
        spec = {"problem": any_problem(r, limit, **kw), "n_chains": n, "start": r.choice(["init", "prior"]),
                "save_dpred": r.random() < 0.8}
        if r.random() < api:
            spec["api"] = "base"
        if r.random() < 0.15 and spec["problem"]["like"] != "ratio":
            gen.bad_region(r, spec)
    return finish(r, spec)


def finish(r, spec):
    spec["seed"] = r.getrandbits(40)
    spec["options"] = {}
    if r.random() < 0.3:
        spec["hooks"] = True
    if r.random() < 0.4:
        spec["callbacks"] = {k: r.randint(0, 2) for k in ("init", "begin", "end", "advanced") if r.random() < 0.5}
    return spec


def with_plan(r, spec, total=(8, 25, 70), **kw):
    spec["plan"] = gen.plan(r, spec["n_chains"], r.choice(total), **kw)
    return spec


def general(r, **kw):
    return with_plan(r, base_or_problem(r, **kw))


def faulty(r, transient=0.8, exhaust=0.12, swaps=0.2, fatal=0.3, deaths=0.2, total=(8, 25, 60), share=0.25, **kw):
    spec = with_plan(r, base_or_problem(r, share, **kw), total, runs=[1, 2, 3])
    n, t = spec["n_chains"], gen.total_iterations(spec["plan"])
    f = []
    if r.random() < transient:
        f += gen.transient_faults(r, gen.sites_of(spec), n, t)
    if r.random() < exhaust:
        f.append(gen.exhaustion(r, spec, t))
    if r.random() < swaps:
        f += gen.swap_faults(r, spec)
    if r.random() < fatal:
        f.append(gen.fatal_fault(r, spec, t))
    spec["faults"] = f
    for op in spec["plan"]:
        if op["op"] == "run" and r.random() < deaths:
            gen.death(r, op, n)
    return spec


def probing(r, spec):
    if not any(f["iter"] is None and f["site"] in ("fwd", "like") for f in spec.get("faults", ())):
        spec["options"]["probe"] = r.choice([1, 2, 3])
    return spec


# C04
def c04_plain(r):
    return general(r)


def c04_faults(r):
    return faulty(r)


# C05
def c05(r):
    spec = base_or_problem(r, 0.0, depths=[0, 0, 1, 1, 2])
    return with_plan(r, spec, reprs=0.4)


def c05_faults(r):
    return faulty(r, share=0.0)


# C06
def c06(r):
    return with_plan(r, base_or_problem(r, 0.35), runs=[1, 2, 3, 4])


# C07
def c07(r):
    spec = base_or_problem(r, 0.0, forms=["targets"], api=0.25)
    return with_plan(r, spec, runs=[1, 2, 3])


def c07_faults(r):
    return faulty(r, share=0.0, forms=["targets"], swaps=0.4)


# C08
def c08(r):
    return with_plan(r, base_or_problem(r, 0.3), reprs=0.5, verbose=0.5)


# C09
def c09(r):
    spec = faulty(r, transient=1.0, exhaust=0.0, fatal=0.0, deaths=0.0)
    return spec


def c09_culprit(r):
    """a perturbation that cannot work for a while, next to others that do"""
    spec = with_plan(r, base_or_problem(r, 0.5), (8, 25, 60), runs=[1, 2])
    if "base" in spec:
        b = spec["base"]
        while len(b["perturbs"]) < 2:
            b = spec["base"] = gen.base_problem(r)
        # each of them is chosen often enough
        if b.get("weights"):
            b["weights"] = [min(max(x, 0.5), 2) for x in b["weights"]]
    n = gen.total_iterations(spec["plan"])
    spec["faults"] = [gen.culprit(r, spec, n)]
    return spec


def c09_exhaust(r):
    return faulty(r, transient=0.5, exhaust=1.0, fatal=0.0, deaths=0.0, total=(6, 15))


# C10
def c10(r):
    return faulty(r, transient=0.3, exhaust=0.1, swaps=0.15, fatal=0.9, deaths=0.6)


def c10_resume(r):
    spec = base_or_problem(r, 0.25, n_max=3)
    spec["engine"], spec["mode"] = "pair", "resume"
    n = spec["n_chains"]
    total = r.choice([10, 20, 40])
    op = gen.run_op(r, n, r.randint(max(1, total // 2), total), samplers=("vanilla", "vanilla", "sa"))
    spec["plan"] = [op]
    f = gen.transient_faults(r, gen.sites_of(spec), n, total, r.randint(0, 3)) if r.random() < 0.4 else []
    for x in f:
        x["m"] = min(x["m"], 30)
    if op["backend"]["k"] == "proc" and r.random() < 0.5:
        op["backend"]["death"] = {"task": r.randint(1, n), "when": r.choice(["before", "after"])}
    else:
        f.append(gen.fatal_fault(r, spec, total))
    spec["faults"] = f
    if r.random() < 0.3:
        spec["plan"].append({"op": "results", "keys": None, "concat": True})
    spec["plan"].append({**op, "op": "finish", "total": total, "backend": {"k": "serial"}})
    return spec


# C11
def c11_pair(r):
    spec = base_or_problem(r, 0.25, n_max=5)
    spec["n_chains"] = max(2, spec["n_chains"])
    spec["engine"], spec["mode"] = "pair", "backend"
    spec["plan"] = gen.plan(r, spec["n_chains"], r.choice([6, 15, 40]), runs=[1, 1, 2, 3],
                            backends=("proc", "thread"), reprs=0.1)
    if r.random() < 0.25:
        t = gen.total_iterations(spec["plan"])
        spec["faults"] = gen.transient_faults(r, gen.sites_of(spec), spec["n_chains"], t, 3)
    return spec


def c11_threads(r):
    """threads that share the global generators, as with joblib's threading backend"""
    spec = base_or_problem(r, 0.2, n_max=4)
    spec["n_chains"] = max(2, spec["n_chains"])
    spec["streams"] = False
    with_plan(r, spec, (6, 15, 30), backends=("thread",), runs=[1, 1, 2])
    spec["options"]["collide"] = r.random() < 0.7
    return spec


# C12
def c12(r):
    spec = base_or_problem(r, 0.3, n_max=6)
    spec["n_chains"] = max(spec["n_chains"], r.choice([1, 2, 3]))
    return with_plan(r, spec, (6, 20, 50), samplers=("pt", "pt", "sa", "sa", "vanilla"), runs=[1, 2, 3], temps=0.0,
                     observe=0.1, reprs=0.05)


# C14
def c14(r):
    spec = base_or_problem(r, 0.15)
    with_plan(r, spec, temps=0.4)
    return probing(r, spec)


def c14_faults(r):
    return probing(r, faulty(r, share=0.15, swaps=0.0))


# C17
def c17(r):
    spec = base_or_problem(r, 0.4)
    spec["callbacks"] = {k: r.randint(0, 3) for k in ("init", "begin", "end", "advanced")}
    return with_plan(r, spec, (5, 15, 40), runs=[1, 2, 3])


def c17_faults(r):
    spec = faulty(r, total=(5, 15, 30))
    spec["callbacks"] = {k: r.randint(0, 3) for k in ("init", "begin", "end", "advanced")}
    return spec


# C18
def c18(r):
    spec = base_or_problem(r, 0.4, n_max=5)
    return with_plan(r, spec, (0, 5, 15, 40), runs=[1, 2, 3], observe=1.0)


# C20
def c20(r):
    return with_plan(r, base_or_problem(r, 0.3), (0, 1, 5, 17, 40), runs=[1, 2, 3, 4], reprs=0.05)


def c20_split(r):
    spec = base_or_problem(r, 0.3, n_max=3)
    spec["engine"], spec["mode"] = "pair", "split"
    n = spec["n_chains"]
    total = r.choice([8, 20, 50])
    k = r.randint(2, 4)
    cuts = sorted(r.randint(0, total) for _ in range(k - 1))
    op = gen.run_op(r, n, total, samplers=("vanilla", "vanilla", "sa"))
    ops = []
    for a, b in zip([0] + cuts, cuts + [total]):
        ops.append({**op, "n": b - a, "reuse": r.random() < 0.5, "verbose": r.random() < 0.2,
                    "backend": gen.backend(r, n)})
    spec["plan"] = ops
    return spec


# C21
def c21_observe(r):
    spec = base_or_problem(r, 0.3, n_max=3)
    spec["engine"], spec["mode"] = "pair", "observe"
    spec["streams"] = False
    spec["one_seed"] = True
    spec["callbacks"] = {k: r.randint(0, 2) for k in ("init", "begin", "end", "advanced")}
    with_plan(r, spec, (8, 20, 50), backends=("serial",), verbose=0.7, observe=0.8, reprs=0.8, rearrange=0, temps=0)
    return spec


def hash_scripts(r):
    scripts = []
    for _ in range(12):
        spec = base_or_problem(r, 0.2, n_max=3)
        spec["streams"] = False
        spec["one_seed"] = True
        with_plan(r, spec, (8, 20, 40), backends=("serial",))
        scripts.append(spec)
    return {"engine": "seeded", "seed": r.getrandbits(40), "scripts": scripts,
            "hash_seeds": ["1", "271828", "4000000000"]}


# C01, C16: how proposals are made
def symmetric(p):
    """labels of 2D sites have no meaning: predictions must not depend on them"""
    def has(sp):
        return sp["k"] == "v2" or any(has(q) for q in sp["params"] if q["k"] in ("ps", "v1", "v2"))

    if any(has(sp) for sp in p["spaces"]):
        for t in p["targets"]:
            t["fwd"]["sym"] = True
    return p


def kernel_runs(r):
    p = gen.small_problem(r, r.choice([8, 15, 30]), forms=["targets", "like", "targets"], n_targets=[1], sizes=[1, 2],
                          amplitude=0.2)
    spec = {"problem": p, "n_chains": 1, "start": "prior", "seed": r.getrandbits(40),
            "options": {"select": True, "views": False}}
    spec["plan"] = [{"op": "run", "sampler": {"k": "vanilla"}, "n": 900, "burnin": 10 ** 6, "save_every": 1,
                     "verbose": False, "print_every": 1}]
    return spec


def kernel_nested(r):
    """spaces of uneven sizes, nested in two levels"""
    spec = kernel_runs(r)
    while True:
        p = gen.small_problem(r, 200, forms=["like"], n_targets=[1], sizes=[1], amplitude=0.2, depths=[2], n_spaces=[1],
                              nested=1.0, max_params=1, max_n=5)
        inner = [q for x in p["spaces"][0]["params"] if x["k"] in gen.SPACES for q in x["params"] if q["k"] in gen.SPACES]
        if inner and any(q["k"] not in gen.SPACES for x in inner for q in x["params"]):
            break
    outer = p["spaces"][0]
    uneven(r, outer, 2, 3)
    for x in outer["params"]:
        if x["k"] in gen.SPACES:
            uneven(r, x, 1, 4)
            for q in x["params"]:
                if q["k"] in gen.SPACES:
                    uneven(r, q, 1, r.choice([1, 2, 3]))
    spec["problem"] = p
    spec["plan"][0]["n"] = 1500
    return spec


def uneven(r, space, lo, hi):
    for k in ("n", "nmin", "nmax"):
        space.pop(k, None)
    if lo == hi or lo > 1 and r.random() < 0.5:
        space["n"] = hi
        space.pop("init_range", None)
    else:
        space["nmin"], space["nmax"] = lo, hi


def kernel_base(r):
    spec = {"base": gen.base_problem(r), "n_chains": r.randint(1, 2), "seed": r.getrandbits(40),
            "options": {"select": True}}
    while len(spec["base"]["perturbs"]) < 2:
        spec["base"] = gen.base_problem(r)
    spec["plan"] = [{"op": "run", "sampler": {"k": "vanilla"}, "n": 1500, "burnin": 10 ** 6, "save_every": 1,
                     "verbose": False, "print_every": 1}]
    return spec


def ratios(r):
    return with_plan(r, base_or_problem(r, 0.0, limit=60), (40, 80), observe=0, reprs=0, rearrange=0)


def invariance(r, mode):
    steps = r.choice([1, 2, 4, 8, 8, 16])
    opts = dict(max_n=6, max_params=2, odd_names=False)
    if mode == "prior":
        p = gen.small_problem(r, r.choice([4, 8, 14, 20]), forms=["like", "ratio", "like", "targets+like"], n_targets=[1], sizes=[1],
                              noise_kinds=("scalar",), unknown=0.6, **opts)
    else:
        p = gen.small_problem(r, r.choice([4, 8, 14]), forms=["targets", "targets", "targets", "like", "ratio", "targets+like"],
                              n_targets=[1, 1, 2], sizes=[1, 2, 4], unknown=0.6, amplitude=0.8, **opts)
    spec = {"engine": "stat", "mode": mode, "problem": symmetric(p), "steps": steps, "seed": r.getrandbits(40),
            "replicates": 1 + 26000 // (steps + 8)}
    known = all(t["noise"]["k"] == "known" for t in p["targets"])
    if mode == "posterior" and known and r.random() < 0.4:
        spec["T"] = r2(r.uniform(1.2, 5))
    return spec


def c01_stat(r):
    return invariance(r, "prior")


def c02_stat(r):
    return invariance(r, "posterior")


# C02, C03
def c03(r):
    spec = base_or_problem(r, 0.5, n_max=3)
    with_plan(r, spec, (200, 400), observe=0.1, reprs=0, backends=("serial", "serial", "thread", "proc"), temps=0.4)
    spec["options"]["calibrate"] = True
    return spec


def c03_long(r):
    spec = {"base": gen.base_problem(r), "n_chains": r.choice([1, 1, 2, 3]), "seed": r.getrandbits(40),
            "options": {"calibrate": True}}
    op = {"op": "run", "sampler": {"k": "vanilla"}, "n": 2500, "burnin": 10 ** 6, "save_every": 1,
          "verbose": False, "print_every": 1}
    spec["plan"] = [op]
    if r.random() < 0.5:
        spec["plan"] = [{"op": "temp", "chain": 0, "T": r2(r.uniform(1.2, 6))}, op]
    if spec["n_chains"] > 1 and r.random() < 0.4:
        spec["plan"][-1] = {**op, "sampler": {"k": "pt", "tmax": 5, "unit": 0.4, "every": 5}, "n": 1000}
    return spec


# C13
def c13(r):
    n = r.choice([2, 3, 3, 4])
    if r.random() < 0.5:
        b = gen.base_problem(r)
        b["perturbs"] = [{"name": "p", "k": "rw", "step": r2(r.uniform(0.5, 3)), "num": "float"}]
        b.pop("weights", None)
        b["like"]["k"] = r.choice(["gauss", "cauchy", "step"])
        b["like"]["std"] = r2(r.uniform(0.2, 1))
        spec = {"base": b, "n_chains": n}
        total = r.choice([600, 1200])
    else:
        p = gen.small_problem(r, 4, amplitude=2.0, n_targets=[1], n_spaces=[1], depths=[0], sizes=[2, 4],
                              forms=["targets", "targets", "like", "targets+like"])
        for t in p["targets"]:
            t["dobs"] = [3 * x for x in t["dobs"]]
        spec = {"problem": p, "n_chains": n, "start": "prior"}
        total = r.choice([300, 500])
    spec["seed"] = r.getrandbits(40)
    every = r.choice([1, 1, 2, 3])
    s = {"k": "pt", "tmax": r2(r.choice([1.5, 3, 5, 20])), "unit": r.choice([0.1, 0.4, 0.8]), "every": every}
    k = r.randint(1, 3)
    cuts = sorted(r.randint(0, total) for _ in range(k - 1))
    spec["plan"] = [{"op": "run", "sampler": s, "n": b - a, "burnin": r.choice([0, 10 ** 6]), "save_every": 5,
                     "verbose": False, "print_every": 1, "reuse": r.random() < 0.5,
                     "backend": {"k": r.choice(["serial", "serial", "proc", "thread"]) if b - a < 150 else "serial",
                                 "n_jobs": n}}
                    for a, b in zip([0] + cuts, cuts + [total])]
    spec["options"] = {"swaps": True, "views": False}
    return spec


def c13_short(r):
    spec = base_or_problem(r, 0.3, n_max=4)
    spec["n_chains"] = max(2, spec["n_chains"])
    with_plan(r, spec, (10, 30), samplers=("pt",), runs=[1, 2, 3], temps=0, reprs=0)
    for op in spec["plan"]:
        if op["op"] == "run" and op["sampler"]["k"] == "pt":
            op["sampler"]["every"] = r.randint(1, 4)
    spec["options"]["swaps"] = True
    return spec


def likelihoods(r):
    """likelihood ratios of all kinds of noise"""
    p = any_problem(r, 20, forms=["targets", "targets", "targets+like"], sizes=[1, 2, 3, 5, 8], unknown=0.8)
    spec = {"problem": p, "n_chains": r.randint(1, 2), "start": "prior"}
    with_plan(r, finish(r, spec), (20, 40), temps=0.4)
    return probing(r, spec)


# C15
def c15(r):
    n = r.randint(1, 4)
    p = any_problem(r, 30, forms=["targets"], n_targets=[2, 2, 3], custom_init=False)
    late = r.sample(p["targets"], r.randint(1, len(p["targets"]) - 1))
    for t in late:
        t["late"] = True
    spec = {"problem": p, "n_chains": n, "start": "init", "save_dpred": r.random() < 0.85}
    finish(r, spec)
    with_plan(r, spec, (8, 20, 40), runs=[2, 3], rearrange=0.05)
    names = [t["name"] for t in late]
    ops = spec["plan"]
    adds = [{"op": "add_targets", "names": [x], "single": r.random() < 0.5} for x in names]
    if len(names) == 2 and r.random() < 0.5:
        adds = [{"op": "add_targets", "names": names}]
    for a in adds:
        # before the first run, between two runs, or after the last one
        spots = [i for i in range(len(ops) + 1) if i == len(ops) or ops[i]["op"] == "run"]
        ops.insert(r.choice(spots), a)
    if ops[-1]["op"] == "add_targets":
        ops.append(gen.run_op(r, n, r.choice([3, 10])))
    if not any(f for f in spec.get("faults", ())):
        probing(r, spec)
    return spec


# C19
def c19(r):
    form = r.choice(["targets", "targets", "targets+like"])
    p = gen.small_problem(r, r.choice([10, 30, 60]), forms=[form], n_targets=[1, 2], unknown=0.8, custom_init=r.random() < 0.5,
                          n_spaces=[1, 2], odd_names=False)
    n = r.choice([1, 3, 10, 40])
    return {"engine": "initial", "problem": p, "n_chains": n, "replicates": max(2, 160 // n), "seed": r.getrandbits(40),
            "reseed": r.random() < 0.3}


CHECKS = {}


def register(pid, accept, families, note, rule):
    CHECKS[pid] = Check(pid, accept, families, note, rule)


RUN_RULE = ("each case is a generated inversion (problem, chains, plan of runs with samplers, backends and observations, "
            "faults) executed under the simulator; non-trivial: at least one iteration completed under the oracles; "
            "distinct: different digests of the whole history")
NOTE = ("seeded search over generated problems, plans, schedules and faults, each execution judged by a reference model; "
        "a clean result is evidence, not proof. Trusted: numpy/scipy, the reference model, joblib's Parallel")

register("C04", ("integrity", "samples"), [("plain", 39, 6, c04_plain), ("faults", 32, 6, c04_faults)], NOTE, RUN_RULE)
register("C05", ("valid", "views"), [("plain", 39, 6, c05), ("faults", 16, 6, c05_faults)], NOTE, RUN_RULE)
register("C06", ("saved", "samples"), [("plain", 58, 6, c06), ("faults", 13, 6, c04_faults)], NOTE, RUN_RULE)
register("C07", ("dpred",), [("plain", 39, 6, c07), ("faults", 26, 6, c07_faults)], NOTE, RUN_RULE)
register("C08", ("ledger",), [("plain", 39, 6, c08), ("faults", 32, 6, c04_faults)], NOTE, RUN_RULE)
register("C09", ("retry", "ledger", "integrity", "accounting"),
         [("transient", 32, 6, c09), ("exhaustion", 13, 6, c09_exhaust), ("culprit", 13, 6, c09_culprit)], NOTE, RUN_RULE)
register("C10", ("resume", "integrity", "saved", "dpred", "ledger", "samples", "accounting", "results", "callbacks"),
         [("faults", 46, 6, c10), ("resume", 26, 6, c10_resume)], NOTE, RUN_RULE)
register("C11", ("isolation", "transparent"), [("pairs", 39, 4, c11_pair), ("shared", 20, 4, c11_threads)], NOTE, RUN_RULE)
register("C12", ("temperature", "saved"), [("runs", 58, 6, c12)], NOTE, RUN_RULE)
register("C14", ("like", "accept"), [("plain", 39, 6, c14), ("faults", 20, 6, c14_faults)], NOTE, RUN_RULE)
register("C17", ("callbacks",), [("plain", 46, 6, c17), ("faults", 26, 6, c17_faults)], NOTE, RUN_RULE)
register("C18", ("results",), [("plain", 58, 6, c18)], NOTE, RUN_RULE)
register("C20", ("accounting", "split"), [("plain", 32, 6, c20), ("split", 26, 5, c20_split)], NOTE, RUN_RULE)
register("C01", ("ratio", "kernel", "stat", "valid"),
         [("ratios", 16, 5, ratios), ("kernel", 26, 1, kernel_runs), ("invariance", 26, 1, c01_stat)], NOTE, RUN_RULE)
register("C02", ("stat", "ratio", "like", "accept"), [("invariance", 26, 1, c02_stat), ("likelihoods", 20, 4, likelihoods), ("runs", 6, 3, c03)], NOTE, RUN_RULE)
register("C03", ("accept",), [("long", 26, 1, c03_long), ("runs", 26, 2, c03)], NOTE, RUN_RULE)
register("C13", ("swap", "like"), [("long", 31, 1, c13), ("short", 16, 5, c13_short)], NOTE, RUN_RULE)
register("C15", ("targets", "like", "dpred", "saved", "accept", "valid", "ledger", "init", "integrity", "samples"),
         [("plain", 58, 5, c15)], NOTE, RUN_RULE)
register("C16", ("select", "args"), [("spaces", 21, 1, kernel_runs), ("nested", 10, 1, kernel_nested), ("functions", 10, 1, kernel_base), ("arguments", 10, 5, general)], NOTE, RUN_RULE)
register("C19", ("init",), [("initial", 42, 1, c19)], NOTE, RUN_RULE)
register("C21", ("repeat",), [("observed", 26, 4, c21_observe), ("processes", 6, 1, hash_scripts)], NOTE, RUN_RULE)
