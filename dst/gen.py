"""Generation of specs: problems, plans and faults, all as JSON, from one seed.

Values of the knobs are swarmed: each spec switches a random subset of the features on.
"""
import math
import random

import numpy as np

from .kernel import derive


def rng_for(*key):
    return random.Random(derive(*key))


def ladder(n, n1, tmax):
    """temperatures of parallel tempering: n chains, n1 of which at unit temperature"""
    return [1.0] * (n1 - 1) + [float(t) for t in np.geomspace(1, tmax, n - n1 + 1)]


def r2(x):
    return float(f"{x:.4g}")


# ---------------------------------------------------------------- parameters


def positions_1d(r, lo, hi):
    k = r.randint(2, 5)
    inner = sorted(r2(r.uniform(lo, hi)) for _ in range(k - 2))
    return sorted({lo, *inner, hi})


def positions_2d(r, lo, hi):
    pts = [[lo[0], lo[1]], [lo[0], hi[1]], [hi[0], lo[1]], [hi[0], hi[1]]]
    for _ in range(r.randint(0, 3)):
        p = [r2(r.uniform(lo[0], hi[0])), r2(r.uniform(lo[1], hi[1]))]
        if all(math.dist(p, q) > 1e-2 for q in pts):
            pts.append(p)
    return pts


def param(r, name, dom=None, kinds=None, birth=False, bold=False):
    """dom: (dimension, lo, hi) of the positions, when hyper-parameters may depend on them"""
    k = r.choice(kinds or ["uniform", "uniform", "gauss", "gauss", "laplace", "expo", "tri"])
    pos = None
    if dom is not None and r.random() < 0.45:
        pos = positions_1d(r, dom[1], dom[2]) if dom[0] == 1 else positions_2d(r, dom[1], dom[2])

    def hyper(f, always=False):
        if pos is None or (not always and r.random() < 0.3):
            return r2(f())
        return [r2(f()) for _ in pos]

    out = {"name": name, "k": k}
    unit = 1.0
    if k in ("uniform", "tri"):
        c = r2(r.uniform(-4, 4))
        w = r.uniform(0.8, 8)
        unit = w / 3
        # the first interval depends on the position as long as one hyper-parameter has to
        out["vmin"] = hyper(lambda: c - w * r.uniform(0.3, 0.7), always=True)
        out["vmax"] = hyper(lambda: c + w * r.uniform(0.3, 0.7))
    elif k == "gauss":
        unit = r.uniform(0.3, 3)
        c = r.uniform(-3, 3)
        out["mean"] = hyper(lambda: c + unit * r.uniform(-1, 1), always=True)
        out["std"] = hyper(lambda: unit * r.uniform(0.5, 1.6))
    elif k == "laplace":
        unit = r.uniform(0.3, 2)
        c = r.uniform(-3, 3)
        out["mean"] = hyper(lambda: c + unit * r.uniform(-1, 1), always=True)
        out["scale"] = hyper(lambda: unit * r.uniform(0.5, 1.6))
    else:
        unit = r.uniform(0.3, 2)
        out["rate"] = hyper(lambda: 1 / (unit * r.uniform(0.5, 1.6)), always=True)
        if pos is None and r.random() < 0.3:
            out["logp_pos"] = dom is not None
    if pos is not None:
        out["pos"] = pos
    step = unit * r.uniform(0.3, 2.5) * (3 if bold else 1)
    out["perturb_std"] = r2(step) if pos is None or r.random() < 0.7 else [r2(step * r.uniform(0.6, 1.5)) for _ in pos]
    if birth and r.random() < 0.6:
        s = unit * r.uniform(0.5, 2)
        out["perturb_std_birth"] = r2(s) if pos is None or r.random() < 0.5 else [
            r2(s * r.uniform(0.6, 1.5)) for _ in pos]
    return out


def dims(r, lo=1, hi=8, fixed=0.35):
    if r.random() < fixed:
        return {"n": r.randint(lo, min(hi, 5))}
    a = r.randint(lo, lo + 2)
    b = a + r.randint(0, hi - lo) if r.random() < 0.9 else a
    out = {"nmin": a, "nmax": max(a, b)}
    if r.random() < 0.7:
        out["init_range"] = r.choice([0, 0.5, 1, 1, 0.3])
    return out


SPACES = ("ps", "v1", "v2")
POLYGONS = [
    [[0, 0], [10, 0], [10, 8], [4, 9], [0, 6]],
    [[-3, -2], [4, -2], [4, 1], [1, 1], [1, 4], [-3, 4]],  # not convex
    [[0, 0], [6, 1], [3, 7]],
]


def space(r, name, depth=0, kinds=("ps", "v1", "v2"), max_params=2, max_n=8, opts=None):
    opts = opts or {}
    k = r.choice(kinds)
    out = {"name": name, "k": k, **dims(r, 1, max_n, opts.get("fixed", 0.35))}
    dom = None
    if k == "v1":
        lo = r2(r.choice([0, r.uniform(-50, 50)]))
        hi = r2(lo + r.choice([1, 10, r.uniform(0.5, 100)]))
        out["vmin"], out["vmax"] = lo, hi
        out["perturb_std"] = r2((hi - lo) * r.uniform(0.03, 0.6))
        if r.random() < 0.2:
            pass
        dom = (1, lo, hi)
    elif k == "v2":
        if r.random() < 0.3:
            poly = r.choice(POLYGONS)
            out["polygon"] = poly
            out["shapely"] = r.random() < 0.3
            lo = [min(p[i] for p in poly) for i in (0, 1)]
            hi = [max(p[i] for p in poly) for i in (0, 1)]
        elif r.random() < 0.5:
            lo = [r2(r.uniform(-5, 5)), r2(r.uniform(-5, 5))]
            hi = [r2(lo[0] + r.uniform(1, 10)), r2(lo[1] + r.uniform(1, 10))]
            out["vmin"], out["vmax"] = lo, hi
        else:
            a = r2(r.uniform(-5, 5))
            b = r2(a + r.uniform(1, 10))
            out["vmin"], out["vmax"] = a, b
            lo, hi = [a, a], [b, b]
        w = [h - l for l, h in zip(lo, hi)]
        if r.random() < 0.3:
            out["perturb_std"] = [r2(x * r.uniform(0.05, 0.5)) for x in w]
        else:
            out["perturb_std"] = r2(min(w) * r.uniform(0.05, 0.5))
        if r.random() < 0.5:
            out["kdtree"] = True
        dom = (2, lo, hi)
    if k != "ps":
        out["birth_from"] = r.choice(["prior", "neighbour", "neighbour"])
        if opts.get("birth_from"):
            out["birth_from"] = opts["birth_from"]
    nested = depth > 0 and r.random() < opts.get("nested", 0.9)
    n_params = r.randint(0 if (k != "ps" or nested) else 1, max_params)
    neighbour = k != "ps" and out["birth_from"] == "neighbour"
    params = [
        param(r, f"{'abcdef'[i]}{'xyz'[depth]}", dom if opts.get("posdep", True) else None,
              opts.get("priors"), birth=neighbour, bold=opts.get("bold", False))
        for i in range(n_params)
    ]
    if nested:
        for i in range(2 if r.random() < 0.15 else 1):
            inner = space(r, f"{name}_{'uv'[i]}", depth - 1, kinds, 1 if depth > 1 else max_params,
                          max(2, max_n // 2), opts)
            params.insert(r.randint(0, len(params)), inner)
    if not params and k == "ps":
        params.append(param(r, "ax", None, opts.get("priors")))
    out["params"] = params
    if opts.get("custom_init"):
        for p in params:
            if p["k"] in ("uniform", "gauss", "laplace", "expo", "tri") and r.random() < 0.3:
                p["custom_init"] = True
    return out


# ---------------------------------------------------------------- targets


def noise(r, n, unknown, corr, kinds=("scalar", "diag", "full")):
    if unknown:
        a = r.uniform(0.05, 0.6)
        out = {"k": "unknown", "std": [r2(a), r2(a * r.uniform(2, 6))]}
        w = out["std"][1] - out["std"][0]
        out["std_step"] = r2(w * r.uniform(0.1, 0.8))
        if corr:
            lo = r2(r.choice([0, 0.01, r.uniform(0, 0.4)]))
            hi = r2(min(0.95, lo + r.uniform(0.2, 0.6)))
            out["corr"] = [lo, hi]
            out["corr_step"] = r2((hi - lo) * r.uniform(0.1, 0.8))
            fixed = r.choice(["std", "corr"])  # bounds that leave a single value
            if r.random() < 0.3:
                out[fixed] = [out[fixed][0] or 0.2] * 2
                out[fixed + "_step"] = 0
        return out
    k = r.choice(kinds)
    if k == "scalar":
        return {"k": "known", "cinv": r2(r.uniform(0.5, 40))}
    if k == "diag":
        return {"k": "known", "cinv": [r2(r.uniform(0.5, 40)) for _ in range(n)]}
    s, c = r.uniform(0.2, 0.9), r.uniform(0.1, 0.8)
    cov = [[s * s * c ** abs(i - j) for j in range(n)] for i in range(n)]
    inv = np.linalg.inv(np.array(cov))
    inv = (inv + inv.T) / 2
    return {"k": "known", "cinv": inv.tolist()}


def target(r, name, opts):
    n = r.choice([1, 1, 2, 3, 4, 6]) if opts.get("sizes") is None else r.choice(opts["sizes"])
    unknown = r.random() < opts.get("unknown", 0.5)
    corr = unknown and r.random() < 0.55
    nz = noise(r, n, unknown, corr, opts.get("noise_kinds", ("scalar", "diag", "full")))
    amp = r2(r.uniform(0.3, 1.5) * opts.get("amplitude", 1.0))
    t = {"name": name, "n": n, "noise": nz,
         "fwd": {"a": amp, "phase": r2(r.uniform(0, 6)), "scale": r2(r.uniform(1, 4))}}
    t["dobs"] = [r2(amp * r.uniform(-1, 1) + 0.3 * r.gauss(0, 1)) for _ in range(n)]
    if opts.get("extras") and r.random() < 0.5:
        t["fwd"]["extra"] = [f"{name}{s}" for s in r.sample(["_x", "_a", ".misfit", "_n_dimensions", ".n_dimensions_x"],
                                                           r.randint(1, 2))]
    if opts.get("args") and r.random() < 0.3:
        t["fwd"]["args"] = r.choice([[[3.5], {}], [[], {"k": 2}], [["a", 2], {"z": [1]}]])
    return t


def alike(r, targets):
    """two targets of the same size whose noise differs by its standard deviation or correlation, if at all"""
    a, b = r.sample(targets, 2)
    if b["n"] != a["n"]:
        b["n"] = a["n"]
        b["dobs"] = [r2(x + r.gauss(0, 0.2)) for x in a["dobs"]]
    b["noise"] = {k: list(v) if isinstance(v, list) else v for k, v in a["noise"].items()}
    if "corr" in a["noise"] and r.random() < 0.7:
        f, g = r.sample(["std", "corr"], 2)
        for t in (a, b):
            t["noise"][f] = [t["noise"][f][0] or 0.2] * 2
            t["noise"][f + "_step"] = 0
            lo, hi = t["noise"][g]
            if lo == hi:
                t["noise"][g] = [lo, r2(lo * 2 if g == "std" else (lo + 1) / 2)]
                t["noise"][g + "_step"] = r2(lo / 2)
        if r.random() < 0.5:
            b["noise"][f] = [r2(b["noise"][f][0] * (2 if f == "std" else 0.5))] * 2


TARGET_NAMES = ["d1", "d2", "d3", "dpred", "d", "obs.x", "d1_2", "my data"]


def problem(r, **opts):
    """opts: n_spaces, depth, kinds, forms, n_targets, flat..."""
    n_spaces = r.choice(opts.get("n_spaces", [1, 1, 1, 2, 3]))
    spaces = []
    for i in range(n_spaces):
        depth = r.choice(opts.get("depths", [0, 0, 0, 1, 1, 2]))
        spaces.append(space(r, f"s{i}", depth, opts.get("kinds", ("ps", "v1", "v2")),
                            opts.get("max_params", 2), opts.get("max_n", 7 if depth == 0 else 4), opts))
    form = r.choice(opts.get("forms", ["targets", "targets", "targets", "like", "ratio", "targets+like"]))
    n_targets = r.choice(opts.get("n_targets", [1, 1, 2, 3]))
    targets = []
    names = r.sample(TARGET_NAMES, max(n_targets, 1)) if opts.get("odd_names", True) else [
        f"d{i}" for i in range(n_targets)]
    for i in range(n_targets):
        o = dict(opts)
        if form in ("like", "ratio"):
            o["unknown"] = 0
            o["extras"] = o["args"] = False
        if form == "targets+like":
            o["extras"] = o["args"] = False
        targets.append(target(r, names[i], o))
    if len(targets) > 1 and r.random() < 0.3:
        alike(r, targets)
    return {"spaces": spaces, "targets": targets, "like": form}


def n_unknowns(p):
    """a rough size of a problem"""

    def walk(s):
        n = s.get("n") or s["nmax"]
        return n * sum(walk(q) if q["k"] in ("ps", "v1", "v2") else 1 for q in s["params"]) + (
            n if s["k"] != "ps" else 0)

    return sum(walk(s) for s in p["spaces"])


def small_problem(r, limit=60, **opts):
    for _ in range(100):
        p = problem(r, **opts)
        if n_unknowns(p) <= limit:
            return p
    return p


# ---------------------------------------------------------------- low-level problems


def base_problem(r, types=("array", "dict", "tuple", "float", "object")):
    t = r.choice(types)
    d = 1 if t == "float" else r.randint(1, 4)
    perturbs = []
    kinds = ["rw", "rw", "rw", "asym", "refuse", "jump", "nan", "wild"]
    n = r.randint(1, 4)
    names = r.sample(["shift", "hop", "p3", "ParamSpace", "Noise", "f"], n)
    for i in range(n):
        k = "rw" if i == 0 else r.choice(kinds)
        p = {"name": names[i], "k": k, "step": r2(r.uniform(0.2, 2.5)), "num": r.choice(["float", "np", "int0"])}
        if k in ("asym", "jump", "wild"):
            p["bias"] = r2(r.uniform(-2, 2))
        if r.random() < 0.25:
            p["args"] = r.choice([[[1], {}], [[], {"k": 2}], [["a", 2.5], {"z": [1]}]])
        perturbs.append(p)
    out = {"type": t, "d": d, "perturbs": perturbs, "form": r.choice(["like", "ratio", "ll_like", "ll_ratio"]),
           "like": {"mean": r2(r.uniform(-2, 2)), "std": r2(r.uniform(0.3, 3)),
                    "k": r.choice(["gauss", "gauss", "step", "cauchy"])},
           "prior_std": r2(r.uniform(0.5, 3))}
    if r.random() < 0.7:
        out["weights"] = [r.choice([1, 1, 2, 0.5, 3]) for _ in range(n)]
    if r.random() < 0.2:
        out["like_args"] = r.choice([[[7], {}], [[], {"s": 1}]])
    return out


# ---------------------------------------------------------------- plans


def backend(r, n_chains, kinds=("serial", "proc", "thread")):
    k = r.choice(kinds) if n_chains > 1 else "serial"
    b = {"k": k}
    if k != "serial":
        b["n_jobs"] = r.randint(2, max(2, n_chains))
        if r.random() < 0.25:
            b["cap"] = r.randint(1, b["n_jobs"])
        if r.random() < 0.15:
            b["batch"] = r.randint(2, 3)
    return b


def sampler(r, n_chains, kinds=("vanilla", "vanilla", "pt", "sa", "batched"), burnin=None):
    k = r.choice(kinds)
    if k == "pt" and n_chains < 2 or k == "sa" and burnin == 0:
        k = "vanilla"
    s = {"k": k}
    if k == "pt":
        s["tmax"] = r2(r.choice([5, r.uniform(1.5, 20)]))
        s["unit"] = r.choice([0.4, 0.1, 0.6, 1.0, 0.25])
        s["every"] = r.randint(1, 9)
    elif k == "sa":
        s["t0"] = r2(r.choice([10, r.uniform(1.5, 30)]))
    elif k == "batched":
        s["sizes"] = [r.randint(1, 9) for _ in range(r.randint(1, 3))]
    return s


def run_op(r, n_chains, n, **kw):
    burnin = r.choice([0, 0, r.randint(0, max(1, n)), r.randint(0, 2 * n + 1)])
    s = kw.get("sampler") or sampler(r, n_chains, kw.get("samplers", ("vanilla", "vanilla", "pt", "sa", "batched")), burnin)
    if s["k"] == "sa" and burnin == 0:
        burnin = r.randint(1, max(1, n))
    return {"op": "run", "sampler": s, "n": n, "burnin": burnin,
            "save_every": r.choice([1, 1, 2, 3, r.randint(1, 12)]),
            "verbose": r.random() < kw.get("verbose", 0.2), "print_every": r.randint(1, 9),
            "backend": kw.get("backend") or backend(r, n_chains, kw.get("backends", ("serial", "proc", "thread")))}


def plan(r, n_chains, total, **kw):
    """a sequence of operations on an inversion"""
    n_runs = r.choice(kw.get("runs", [1, 1, 2, 3]))
    cuts = sorted(r.randint(0, total) for _ in range(n_runs - 1))
    parts = [b - a for a, b in zip([0] + cuts, cuts + [total])]
    ops = []
    last = None
    for i, n in enumerate(parts):
        op = run_op(r, n_chains, n, **kw)
        if last is not None and r.random() < 0.5:
            op["sampler"] = last["sampler"]
            op["reuse"] = r.random() < 0.5
            if op["sampler"]["k"] == "sa":
                op["burnin"] = last["burnin"]
            elif r.random() < 0.5:
                op["burnin"], op["save_every"] = last["burnin"], last["save_every"]
        ops.append(op)
        last = op
        if r.random() < kw.get("observe", 0.4):
            ops.append({"op": "results", "keys": r.choice([None, None, "some"]), "concat": r.random() < 0.6})
        if r.random() < kw.get("reprs", 0.2):
            ops.append({"op": "repr"})
        if i < n_runs - 1 and r.random() < kw.get("temps", 0.1):
            ops.append({"op": "temp", "chain": r.randrange(n_chains), "T": r2(r.choice([1, 1, r.uniform(1, 8)]))})
        if i < n_runs - 1 and n_chains > 1 and r.random() < kw.get("rearrange", 0.08):
            ops.append({"op": "chains", "order": r.sample(range(n_chains), n_chains)})
    return ops


# ---------------------------------------------------------------- faults

ABSORBED = ["ValueError", "MemoryError", "ZeroDivisionError", "KeyError", "UserError", "StopIteration", "OSError",
            "AssertionError", "FloatingPointError", "RecursionError", "RuntimeError"]
FATAL = ["KeyboardInterrupt", "KeyboardInterrupt", "SystemExit"]


def transient_faults(r, sites, n_chains, total, k=None):
    out = []
    for _ in range(k or r.randint(1, 6)):
        out.append({"site": r.choice(sites), "chain": r.choice([None, r.randrange(n_chains)]),
                    "iter": r.randrange(max(1, total)), "m": r.choice([1, 1, 2, 3, 7, 30]),
                    "exc": r.choice(ABSORBED)})
    return out


def total_iterations(ops):
    return sum(op["n"] for op in ops if op["op"] == "run")


def sites_of(spec):
    """where user functions of a spec may fail"""
    if "base" in spec:
        return ["like", "perturb"]
    form = spec["problem"]["like"]
    return ["fwd"] if form == "targets" else ["like"] if form in ("like", "ratio") else ["like"]


def swap_faults(r, spec):
    """failures of user functions outside of any iteration, as during temperature swaps"""
    return [{"site": sites_of(spec)[0], "chain": None, "iter": None, "batch": r.randint(1, 4),
             "m": r.randint(1, 3), "exc": r.choice(ABSORBED)} for _ in range(r.randint(1, 3))]


def exhaustion(r, spec, total):
    return {"site": r.choice(sites_of(spec)), "chain": r.randrange(spec["n_chains"]),
            "iter": r.randrange(max(1, total)), "m": r.choice([499, 499, 500, 500, 700]), "exc": r.choice(ABSORBED)}


def fatal_fault(r, spec, total):
    """an exception that ends the run"""
    kinds = ["user", "user", "begin", "end", "end", "init", "advanced"]
    if any(op.get("verbose") for op in spec["plan"]):
        kinds += ["print", "print"]
    k = r.choice(kinds)
    n = spec["n_chains"]
    runs = [op for op in spec["plan"] if op["op"] == "run"]
    run = r.randrange(len(runs))
    done = sum(op["n"] for op in runs[:run])
    it = done + r.randrange(max(1, runs[run]["n"]))
    if k == "user":
        return {"site": r.choice(sites_of(spec)), "chain": r.randrange(n), "iter": it, "m": 1,
                "exc": r.choice(FATAL), "run": run}
    exc = r.choice(FATAL + ["ValueError", "UserError", "OSError", "RuntimeError"])
    if k in ("begin", "end"):
        return {"site": k, "chain": r.randrange(n), "iter": it + (k == "end"), "m": 1, "exc": exc, "run": run,
                "idx": r.randint(0, 2)}
    return {"site": k, "chain": None, "iter": None, "m": 1, "exc": exc, "run": run,
            "batch": 0 if k == "init" else r.choice([1, 1, 2, 3]), "idx": r.randint(0, 2),
            "nth": r.randint(1, 40)}


def culprit(r, spec, total):
    """one of the perturbations (or what is computed for its proposals) fails for a while"""
    it = r.randrange(max(1, total))
    return {"site": r.choice(sites_of(spec)), "chain": r.choice([None, r.randrange(spec["n_chains"])]), "iter": it,
            "span": r.choice([1, 3, 10, 40]), "who": r.randrange(12), "m": 1, "exc": r.choice(ABSORBED)}


def bad_region(r, spec):
    """a forward function that returns NaN or infinity in a part of the model space"""
    for t in spec["problem"]["targets"]:
        if r.random() < 0.7:
            nz = t["noise"]
            dense = nz.get("corr") is not None or (nz["k"] == "known" and np.ndim(nz["cinv"]) == 2)
            t["fwd"]["bad"] = {"k": "nan" if dense else r.choice(["nan", "inf"]), "above": r2(r.uniform(0.2, 0.9))}


def death(r, op, n_chains):
    be = op["backend"]
    if be["k"] == "proc":
        per = n_chains * (1 if op["sampler"]["k"] not in ("pt", "batched") else 3)
        be["death"] = {"task": r.randint(1, per), "when": r.choice(["before", "after"])}
