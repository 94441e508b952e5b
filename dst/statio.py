"""Engine B: a distribution that must not change.

Each replicate starts from an exact draw of the prior (or of the posterior: the model is
drawn from the prior and the data from the likelihood, so that the model is a draw from
the posterior given these data).  After K simulated iterations the state must have the
same distribution.  As the transitions are reversible, the change of any feature of the
state is symmetric about zero; for symmetric variables P(|S| > t sqrt(sum x^2)) is at
most 2 exp(-t^2/2), whatever their distribution.
"""
import contextlib
import math
import os
import traceback

import numpy as np

from . import kernel, model, sut
from .kernel import Stop, World

LIMIT = 26.0


class Fwd:
    def __init__(self, spec):
        self.spec = spec
        self.shift = 0.0

    def __call__(self, state):
        return model.forward(self.spec, sut.snap(state)) + self.shift


class Like:
    def __init__(self, problem, flat):
        self.problem = problem
        self.flat = flat
        self.dobs = None

    def __call__(self, state):
        return 0.0 if self.flat else self.problem.loglike(sut.snap(state), dobs=self.dobs)


class Ratio(Like):
    def __call__(self, a, b):
        return 0.0 if self.flat else super().__call__(b) - super().__call__(a)


def execute(spec, accept, record=False):
    w = World(spec["seed"], accept, record)
    kernel.set_world(w)
    try:
        with contextlib.suppress(Stop):
            run(spec, w)
    except Exception as e:
        with contextlib.suppress(Stop):
            w.fail("crash", f"{type(e).__name__}: {e}\n" + "".join(traceback.format_exception(e)[-12:]))
    finally:
        kernel.set_world(None)
    return w


def run(spec, w):
    bb = sut.bb
    p = model.Problem(spec["problem"])
    flat = spec["mode"] == "prior"
    form = spec["problem"]["like"]
    T = spec.get("T", 1)
    rng = np.random.default_rng(kernel.derive(spec["seed"], "replicates"))
    w.seed_globals("statio")
    fwds = []
    if form in ("targets", "targets+like"):
        ts = [sut.build_target(t) for t in spec["problem"]["targets"]]
        if form == "targets":
            fwds = [Fwd(t) for t in spec["problem"]["targets"]]
            like = bb.likelihood.LogLikelihood(targets=ts, fwd_functions=fwds)
        else:
            user = Like(p, flat)
            like = bb.likelihood.LogLikelihood(targets=ts, log_like_func=user)
    elif form == "like":
        user = Like(p, flat)
        like = bb.likelihood.LogLikelihood(log_like_func=user)
    else:
        user = Ratio(p, flat)
        like = bb.likelihood.LogLikelihood(log_like_ratio_func=user)
    spaces = [sut.build_space(s) for s in spec["problem"]["spaces"]]
    inv = bb.BayesianInversion(bb.parameterization.Parameterization(spaces), like, n_chains=1)
    declared = p.targets if form in ("targets", "targets+like") else []
    sums = {}
    n = spec["replicates"]
    k = spec["steps"]
    sampler = bb.samplers.VanillaSampler()
    moved = 0
    for rep in range(n):
        x = p.sample_prior(rng)
        for t in p.targets:
            if t.hier and t not in declared:
                del x[t.name]
        if not flat:
            d = {t.name: t.sample_data(rng, x.get(t.name), model.forward(t.spec, x), T) for t in p.targets}
            for f, t in zip(fwds, p.targets):
                f.shift = t.dobs - d[t.name]
            if not fwds:
                user.dobs = d
        f0 = features(p, x, declared)
        chain = inv.chains[0]
        chain.temperature = T
        chain.current_state = sut.to_state(x, p.spaces, T)
        inv.run(sampler, n_iterations=k, burnin_iterations=10 ** 12, save_every=1, verbose=False,
                parallel_config={"n_jobs": 1})
        y = sut.snap(inv.chains[0].current_state)
        f1 = features(p, y, declared)
        for name in sorted(f0.keys() | f1.keys()):
            dlt = f1.get(name, 0.0) - f0.get(name, 0.0)
            if dlt:
                s = sums.setdefault(name, [0.0, 0.0, 0])
                s[0] += dlt
                s[1] += dlt * dlt
                s[2] += 1
        moved += f1 != f0
        if rep % 50 == 0:
            w.event("replicate", rep, [round(v, 12) for v in f1.values()])
    w.counts["iterations"] += n * k
    w.counts["replicates"] += n
    w.counts["replicates that moved"] += moved
    w.counts["nontrivial"] += moved > 0
    w.counts["features tested"] += len(sums)
    for name, (a, b, m) in sorted(sums.items()):
        score = a * a / (2 * b) if b else 0.0
        if os.environ.get("DST_SCORES"):
            w.counts[f"score {name}"] = round(score, 2)
        w.mark("feature", name[-1], m > 0)
        if score > LIMIT:
            w.fail("stat", f"the mean of feature {name!r} changes by {a / n:.5f} per replicate (over {m} changes in {n}"
                   f" replicates of {k} iterations, score {score:.1f}): the {spec['mode']} is not invariant")
    w.event("end")


def features(p, s, declared):
    f = {}
    for name, sp in p.spaces.items():
        sp.features(s[name], f)
    for t in declared:
        if t.hier:
            u = t.place(s[t.name]["std"], t.std_b)
            f[t.name + "s1"], f[t.name + "s2"] = math.cos(math.pi * u), math.cos(2 * math.pi * u)
            f[t.name + "se"] = float(u < 0.06 or u > 0.94)
            if t.corr:
                v = t.place(s[t.name]["corr"], t.corr_b)
                f[t.name + "r1"], f[t.name + "r2"] = math.cos(math.pi * v), math.cos(2 * math.pi * v)
                f[t.name + "rs"] = f[t.name + "r1"] * f[t.name + "s1"]
    # products of features of different parts of the state
    keys = [k for k in f if k[-1] == "1"]
    for a, b in zip(keys, keys[1:]):
        f[a + "*" + b] = f[a] * f[b]
    return f
