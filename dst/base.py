"""Problems of the low-level interface: states of any type, user-defined moves.

A plain state is the list of its floats.  The prior is an independent normal
distribution for each of them; the moves are random walks and less tame proposals
that return whatever log ratio makes them interesting.
"""
import math
import random

import numpy as np


class Toy:
    """a state of a class the package knows nothing of"""

    def __init__(self, x):
        self.x = list(x)

    def __repr__(self):
        return f"Toy({self.x})"


class Adapter:
    is_state = False

    def __init__(self, spec):
        self.spec = spec
        b = self.base = spec["base"]
        self.type = b["type"]
        self.d = b["d"]
        self.like_spec = b["like"]
        self.prior_std = b["prior_std"]

    # ---- states

    def make(self, x):
        t = self.type
        if t == "array":
            return np.array(x, dtype=float)
        if t == "float":
            return float(x[0])
        if t == "tuple":
            return tuple(float(v) for v in x)
        if t == "dict":
            return {"a": float(x[0]), "b": np.array(x[1:], dtype=float), "c.n_dimensions": len(x)}
        return Toy(x)

    fresh = make

    def snap(self, s):
        t = self.type
        if t == "float":
            return [float(s)]
        if t == "dict":
            return [float(s["a"]), *(float(v) for v in s["b"])]
        if t == "object":
            return [float(v) for v in s.x]
        return [float(v) for v in s]

    def same(self, a, b):
        return len(a) == len(b) and all(x == y for x, y in zip(a, b))

    def floats(self, s):
        return s

    def sample_prior(self, rng):
        return [rng.normal(0, self.prior_std) for _ in range(self.d)]

    # ---- distributions

    def loglike(self, s):
        k = self.like_spec
        x = (sum(s) / math.sqrt(len(s)) - k["mean"]) / k["std"]
        if k["k"] == "gauss":
            return -0.5 * x * x
        if k["k"] == "step":
            if x > 2.5:
                return -math.inf
            return 2.0 * math.floor(x)
        if k["k"] == "flat":
            return 0.0
        return -math.log(1 + x * x)

    def logprior(self, s):
        return -0.5 * sum((v / self.prior_std) ** 2 for v in s)

    def problems(self, s):
        return []

    def perturb(self, p, state):
        """a proposal: (new state, log ratio)"""
        x = self.snap(state)
        i = random.randrange(len(x))
        y = list(x)
        k = p["k"]
        y[i] += random.gauss(0, p["step"])
        if k in ("asym", "jump"):
            y[i] += p["bias"] * (1 if random.random() < 0.5 else -1)
        r = self.logprior(y) - self.logprior(x)
        if k == "refuse" and y[i] > 0.3:
            r = -math.inf
            if random.random() < 0.5:
                y = x
        elif k == "jump":
            r = random.choice([0, -0.5, 1.5, -3.0, r])
        elif k == "nan" and random.random() < 0.3:
            r = math.nan
        elif k == "wild":
            r = random.choice([-800.0, 800.0, 30.0, -30.0, p["bias"]])
        new = state if y is x and random.random() < 0.5 else self.make(y)
        if p["num"] == "np":
            r = np.float64(r)
        elif p["num"] == "int0" and math.isfinite(r):
            r = 0 if abs(r) < 0.4 else r
        return new, r

    # ---- saved samples

    def is_dict_like(self):
        return self.type == "dict"

    def saved(self, s, save_dpred):
        if self.type == "dict":
            return {"a": s[0], "b": np.array(s[1:]), "c.n_dimensions": len(s)}
        return {None: s}

    def same_saved(self, a, b):
        return self.same(a, self.snap(b))

    def optional(self, k):
        return False

    def is_dpred(self, k):
        return False

    def views(self, state):
        return []
