"""Initial states: each chain starts from an independent draw, distributed as declared."""
import contextlib
import math
import traceback

import numpy as np

from . import kernel, model, stats, sut
from .kernel import Stop, World
from .model import SITES


def execute(spec, accept, record=False):
    w = World(spec["seed"], accept, record)
    kernel.set_world(w)
    try:
        with contextlib.suppress(Stop):
            run(spec, w)
    except Exception as e:
        with contextlib.suppress(Stop):
            w.fail("crash", f"{type(e).__name__}: {e}\n" + "".join(traceback.format_exception(e)[-12:]))
    finally:
        kernel.set_world(None)
    return w


class Tests:
    def __init__(self):
        self.st = stats.Stats()
        self.now = {}
        self.before = {}

    def uniform(self, name, u, k=1):
        """u: values uniform in (0, 1), in an order that does not matter"""
        u = np.asarray(u, dtype=float)
        n = len(u)
        if n == 0:
            return
        c1, c2 = np.cos(np.pi * u), np.cos(2 * np.pi * u)
        self.st.add(name + ", first moment", c1.mean(), 0.5 / n)
        self.st.add(name + ", second moment", c2.mean(), 0.5 / n)
        self.now[name] = (c1.mean(), n)
        if n > 1 and k == 1:
            # independence within a space: the mean of c1[i] c1[j] over pairs
            s = c1.sum()
            x = (s * s - (c1 * c1).sum()) / (n * (n - 1))
            self.st.add(name + ", independence", x, 0.5 / (n * (n - 1)))

    def next_chain(self):
        for k, (x, n) in self.now.items():
            if k in self.before:
                y, m = self.before[k]
                self.st.add(k + ", independence of chains", x * y, 0.25 / (n * m))
        self.before, self.now = self.now, {}


def run(spec, w):
    bb = sut.bb
    p = model.Problem(spec["problem"])
    tests = Tests()
    w.seed_globals("initial")
    form = spec["problem"]["like"]
    made = 0
    for rep in range(spec["replicates"]):
        if spec.get("reseed"):
            w.seed_globals("initial", rep)
        ts = [sut.build_target(t) for t in spec["problem"]["targets"]]
        if form == "targets":
            like = bb.likelihood.LogLikelihood(targets=ts, fwd_functions=[Fwd(t) for t in spec["problem"]["targets"]])
        else:
            like = bb.likelihood.LogLikelihood(targets=ts, log_like_func=zero)
        par = bb.parameterization.Parameterization([sut.build_space(s) for s in spec["problem"]["spaces"]])
        inv = bb.BayesianInversion(par, like, n_chains=spec["n_chains"])
        plains = []
        for c in inv.chains:
            s = sut.snap(c.current_state)
            bad = p.problems(s) or sut.view_problems(c.current_state, p)
            if bad:
                w.fail("init", f"the initial state of chain {c.id} is not valid: {bad[0]}")
            if c.temperature != 1 or c.current_state.temperature != 1:
                w.fail("init", f"chain {c.id} starts at temperature {c.temperature}, its state at"
                       f" {c.current_state.temperature}")
            if c.ith_iteration or c.statistics["n_proposed_models_total"]:
                w.fail("init", f"chain {c.id} starts with {c.ith_iteration} iterations done")
            plains.append(s)
            made += 1
            judge(w, p, s, tests)
            tests.next_chain()
            w.mark("init", tuple(s[k]["n"] for k in p.spaces))
        owned(w, inv.chains)
        w.event("initial", rep, [model.flat_values(s) for s in plains])
    w.counts["initial states"] += made
    w.counts["iterations"] += 0
    w.counts["nontrivial"] += made > 0
    for name, m in sorted(tests.st.m.items()):
        w.counts["statistics tested"] += 1
        if m.bad():
            w.fail("init", f"initial states: '{name}' is off: sum {m.s:.2f} of variance {m.v:.2f} after {m.n} values")


def zero(state):
    return 0.0


class Fwd:
    def __init__(self, spec):
        self.spec = spec

    def __call__(self, state):
        return model.forward(self.spec, sut.snap(state))


def arrays(ps):
    for v in ps.param_values.values():
        if isinstance(v, list):
            for x in v:
                yield x
                yield from arrays(x)
        else:
            yield v


def owned(w, chains):
    """no part of the state of a chain is also a part of another one's"""
    seen = {}
    for c in chains:
        for k, v in c.current_state.param_values.items():
            parts = [v] + (list(arrays(v)) if hasattr(v, "n_dimensions") else [])
            for x in parts:
                if isinstance(x, np.ndarray) and x.base is not None:
                    x = x.base
                if id(x) in seen and seen[id(x)][0] != c.id:
                    w.fail("init", f"chains {seen[id(x)][0]} and {c.id} share a part of {k!r}")
                seen[id(x)] = (c.id, x)


def judge(w, p, s, tests):
    for k, sp in p.spaces.items():
        space(w, sp, s[k], tests, 0)
    for t in p.targets:
        if t.hier:
            if t.std_b[1] > t.std_b[0]:
                tests.uniform("noise std of " + t.name, [t.place(s[t.name]["std"], t.std_b)])
            if t.corr and t.corr_b[1] > t.corr_b[0]:
                tests.uniform("noise correlation of " + t.name, [t.place(s[t.name]["corr"], t.corr_b)])


def dims(w, sp, n, tests):
    if not sp.trans_d:
        return
    hi = int((sp.nmax - sp.nmin) * sp.init_range + sp.nmin)
    if not sp.nmin <= n <= hi:
        w.fail("init", f"{sp.name} starts with {n} dimensions, not within {sp.nmin}-{hi}")
        return
    k = hi - sp.nmin + 1
    if k > 1:
        for v in range(sp.nmin, hi + 1):
            tests.st.bernoulli(f"{sp.name} has {v} dimensions", n == v, 1 / k)


def space(w, sp, s, tests, depth):
    dims(w, sp, s["n"], tests)
    n = s["n"]
    pos = [None] * n
    if sp.has_sites:
        pos = list(s["p"][SITES])
        if sp.polygon is None:
            x = np.asarray(s["p"][SITES], dtype=float).reshape(n, -1)
            lo, hi = np.reshape(sp.lo, -1), np.reshape(sp.hi, -1)
            for d in range(sp.dim):
                tests.uniform(f"sites of {sp.name}[{d}]", (x[:, d] - lo[d]) / (hi[d] - lo[d]), 1 if depth == 0 else 2)
        else:
            polygon(sp, s["p"][SITES], tests)
    for q in sp.params:
        v = s["p"][q.name]
        if q.is_space:
            first = []
            for x in v:
                space(w, q, x, tests, depth + 1)
                dist = [y for y in q.params if not y.is_space and not y.spec.get("custom_init")]
                if dist and not dist[0].posdep:
                    first.append(dist[0].cdf(x["p"][dist[0].name][0], None))
            if len(first) > 1:
                c = np.cos(np.pi * np.array(first))
                m = len(c)
                tests.st.add(f"independence of the nested {q.name}", (c.sum() ** 2 - (c * c).sum()) / (m * (m - 1)),
                             0.5 / (m * (m - 1)))
            continue
        if q.spec.get("custom_init"):
            ci = sut.CustomInit(q.spec)
            want = [ci.value(x) for x in pos]
            if not np.allclose(v, want, rtol=1e-12, atol=0):
                w.fail("init", f"{q.name} of {sp.name} starts from {list(v)} instead of {want} (custom initialization)")
            continue
        tests.uniform(f"values of {sp.name}.{q.name}", [q.cdf(y, x) for x, y in zip(pos, v)], 1 if depth == 0 else 2)


def polygon(sp, sites, tests):
    """area of the part of the polygon to the left of the middle of its box"""
    if not hasattr(sp, "half"):
        rng = np.random.default_rng(0)
        mid = (sp.lo + sp.hi) / 2
        from shapely.geometry import Polygon, box

        poly = Polygon(sp.polygon)
        sp.mid = mid
        sp.half = [poly.intersection(box(sp.lo[0], sp.lo[1], mid[0], sp.hi[1])).area / poly.area,
                   poly.intersection(box(sp.lo[0], sp.lo[1], sp.hi[0], mid[1])).area / poly.area]
        del rng
    for x in sites:
        for d in (0, 1):
            tests.st.bernoulli(f"sites of {sp.name} in half {d}", x[d] < sp.mid[d], sp.half[d])
