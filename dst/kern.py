"""Tests of how proposals are drawn, given the state they start from.

The log ratio that a perturbation returns is right only together with the distribution
of its proposals: births uniform in space with values drawn from the prior or around the
nearest neighbour, deaths uniform, steps normal, positions uniform.  Each proposal that
was not refused gives a bounded martingale increment of known conditional variance.
"""
import math
import re

import numpy as np

from .model import SITES

STEP = re.compile(r"([^.\[]+)(?:\[(\d+)\])?")
BOUNDED = ("uniform", "tri", "expo")


def phi(x):
    return 0.5 * math.erfc(-x / math.sqrt(2))


def support(q, pos):
    """interval of the values that a parameter may take"""
    if q.kind in ("uniform", "tri"):
        return q.h["vmin"](pos), q.h["vmax"](pos)
    if q.kind == "expo":
        return 0.0, math.inf
    return -math.inf, math.inf


def mass(x, s, lo, hi):
    return phi((hi - x) / s) - phi((lo - x) / s)


def steps_of(path):
    return [(m.group(1), None if m.group(2) is None else int(m.group(2))) for m in STEP.finditer(path)]


def instances(problem, state, name):
    """all the spaces of a name in a state, in order: [(path, space, plain)]"""
    out = []

    def walk(sp, s, path):
        if sp.name == name:
            out.append((path, sp, s))
        for q in sp.params:
            if q.is_space:
                for i, x in enumerate(s["p"][q.name]):
                    walk(q, x, path + (i,))

    for k, sp in problem.spaces.items():
        walk(sp, state[k], (k,))
    return out


class Kernel:
    def __init__(self, stats, problem, targets):
        self.stats = stats
        self.problem = problem
        self.targets = targets
        self.subs = {}

    # ---- elementary tests

    def uniform(self, name, u):
        if not 0 <= u <= 1 or math.isnan(u):
            return
        self.stats.add(name + " (first moment)", math.cos(math.pi * u), 0.5)
        self.stats.add(name + " (second moment)", math.cos(2 * math.pi * u), 0.5)

    def normal_step(self, name, old, new, s, lo, hi):
        if s == 0:
            return
        m = mass(old, s, lo, hi)
        if m < 1e-6 or not lo <= new <= hi:
            return
        self.uniform(name, (phi((new - old) / s) - phi((lo - old) / s)) / m)

    def choice(self, name, weights, k):
        t = sum(weights)
        if t <= 0 or len(weights) < 2:
            return
        b = self.stats.bernoulli
        b(name + " is the first", k == 0, weights[0] / t)
        b(name + " is the last", k == len(weights) - 1, weights[-1] / t)
        if len(weights) > 2:
            h = len(weights) // 2
            b(name + " in the first half", k < h, sum(weights[:h]) / t)
            i = max(range(len(weights)), key=lambda j: weights[j])
            b(name + " is the likeliest", k == i, weights[i] / t)

    def leaning(self, name, weights, k, g):
        """whether items of a larger g are chosen more often than they should"""
        t = sum(weights)
        lo, hi = min(g), max(g)
        if t <= 0 or lo == hi:
            return
        g = [2 * (x - lo) / (hi - lo) - 1 for x in g]
        m = sum(w * x for w, x in zip(weights, g)) / t
        v = sum(w * (x - m) ** 2 for w, x in zip(weights, g)) / t
        self.stats.add(name, (g[k] - m) / 2, v / 4)

    def spaces(self, name, weights, found, at):
        """which of the spaces of a name is perturbed"""
        self.choice(name, weights, at)
        parents = {}
        for f in found:
            parents[f[0][:-1]] = parents.get(f[0][:-1], 0) + 1
        # over all the kinds of moves as well, for what they have in common
        for n in (name, "space perturbed"):
            self.leaning(n + " has more siblings", weights, at, [parents[f[0][:-1]] for f in found])
            self.leaning(n + " is larger", weights, at, [f[2]["n"] for f in found])

    # ---- proposals

    def observe(self, old, new, moves):
        kinds = {m[0] for m in moves}
        if len(kinds) != 1:
            return
        kind = kinds.pop()
        if kind == "noise":
            self.noise(old, new)
            return
        paths = {tuple(steps_of(m[1])[: -1 if kind == "value" else None]) for m in moves}
        if len(paths) != 1 or len({m[2] for m in moves}) != 1:
            return
        path = paths.pop()
        idx = moves[0][2]
        name = path[-1][0]
        key = (path[0][0],) + tuple(i for _, i in path[:-1] if i is not None)
        found = instances(self.problem, old, name)
        keys = [f[0] for f in found]
        if key not in keys:
            return
        at = keys.index(key)
        _, sp, s = found[at]
        after = {f[0]: f[2] for f in instances(self.problem, new, name)}.get(key)
        if after is None:
            return
        getattr(self, kind)(sp, s, after, idx, found, at)

    def place(self, what, found, at, idx, vis):
        """which of the spaces of that name, and where in it"""
        tot = [sum(v) / len(v) if len(v) else 0.0 for v in vis]
        self.spaces(f"{what}: space perturbed", tot, found, at)
        self.choice(f"{what}: position perturbed", vis[at], idx)

    def value(self, sp, s, t, idx, found, at):
        vis = []
        for _, x, xs in found:
            pos = xs["p"].get(SITES)
            v = []
            for i in range(xs["n"]):
                m = 1.0
                for q in x.params:
                    if not q.is_space and q.kind in BOUNDED:
                        p = pos[i] if pos is not None else None
                        m *= mass(xs["p"][q.name][i], q.h["perturb_std"](p), *support(q, p))
                v.append(m)
            vis.append(v)
        self.place("values", found, at, idx, vis)
        pos = s["p"][SITES][idx] if sp.has_sites else None
        for q in sp.params:
            if not q.is_space and s["p"][q.name][idx] != t["p"][q.name][idx]:
                self.normal_step(f"step of a {q.kind} parameter", s["p"][q.name][idx], t["p"][q.name][idx],
                                 q.h["perturb_std"](pos), *support(q, pos))

    def site(self, sp, s, t, idx, found, at):
        if sp.polygon is not None or any(not q.is_space and q.posdep and q.kind in BOUNDED for q in sp.params):
            return
        sd = np.broadcast_to(np.asarray(sp.spec["perturb_std"], dtype=float), (sp.dim,))
        lo, hi = np.reshape(sp.lo, -1), np.reshape(sp.hi, -1)
        vis = []
        for _, x, xs in found:
            v = []
            for p in np.asarray(xs["p"][SITES], dtype=float).reshape(xs["n"], -1):
                v.append(math.prod(mass(p[d], sd[d], lo[d], hi[d]) for d in range(sp.dim)))
            vis.append(v)
        self.place("sites", found, at, idx, vis)
        a = np.asarray(s["p"][SITES], dtype=float).reshape(s["n"], -1)
        b = np.asarray(t["p"][SITES], dtype=float).reshape(t["n"], -1)
        have = {x.tobytes() for x in a}
        fresh = [x for x in b if x.tobytes() not in have]
        if len(fresh) == 1:
            for d in range(sp.dim):
                self.normal_step(f"step of a site ({sp.kind})", a[idx][d], fresh[0][d], sd[d], lo[d], hi[d])

    def hides(self, sp):
        """whether a birth may be refused for the values drawn"""
        return sp.has_sites and sp.birth_from == "neighbour" and any(
            self.hides(q) or q.has_sites if q.is_space else q.kind in BOUNDED for q in sp.params)

    def birth(self, sp, s, t, idx, found, at):
        if not self.hides(sp):
            self.spaces("births: space perturbed", [float(xs["n"] < x.nmax) for _, x, xs in found], found, at)
            if len(found) == 1 and sp.nmin < s["n"] < sp.nmax:
                self.stats.bernoulli("birth rather than death", True, 0.5)
        if sp.kind == "ps":
            self.choice("births: position", [1.0] * t["n"], idx)
        pos = None
        if sp.has_sites:
            pos = t["p"][SITES][idx]
            x = np.reshape(np.asarray(pos, dtype=float), -1)
            if not self.hides(sp) and sp.polygon is None:
                lo, hi = np.reshape(sp.lo, -1), np.reshape(sp.hi, -1)
                for d in range(sp.dim):
                    self.uniform(f"site of a birth ({sp.kind})", (x[d] - lo[d]) / (hi[d] - lo[d]))
        row = sp.row(t, idx)
        if sp.has_sites and sp.birth_from == "neighbour":
            nb = sp.row(s, sp.nearest(s["p"][SITES], pos))
            for q in sp.params:
                if not q.is_space:
                    self.normal_step(f"birth of a {q.kind} parameter from a neighbour", nb[q.name], row[q.name],
                                     q.sigma_birth(pos), *support(q, pos))
        else:
            self.newborn(sp, row, pos)

    def newborn(self, sp, row, pos):
        for q in sp.params:
            v = row[q.name]
            if not q.is_space:
                self.uniform(f"birth of a {q.kind} parameter", q.cdf(v, pos))
                continue
            if q.trans_d and q.nmax > q.nmin:
                k = q.nmax - q.nmin + 1
                self.stats.bernoulli("newborn spaces: fewest dimensions", v["n"] == q.nmin, 1 / k)
                self.stats.bernoulli("newborn spaces: most dimensions", v["n"] == q.nmax, 1 / k)
            if q.has_sites and q.polygon is None:
                x = np.asarray(v["p"][SITES], dtype=float).reshape(v["n"], -1)
                lo, hi = np.reshape(q.lo, -1), np.reshape(q.hi, -1)
                i = 0 if q.dim == 2 else None
                if i is not None:
                    for d in range(q.dim):
                        self.uniform("site of a newborn space", (x[i][d] - lo[d]) / (hi[d] - lo[d]))
                else:
                    for y in x:  # sorted: a sum of exchangeable terms
                        pass
            for i in range(min(v["n"], 3)):
                self.newborn(q, q.row(v, i), v["p"][SITES][i] if q.has_sites else None)

    def death(self, sp, s, t, idx, found, at):
        self.spaces("deaths: space perturbed", [float(xs["n"] > x.nmin) for _, x, xs in found], found, at)
        if len(found) == 1 and sp.nmin < s["n"] < sp.nmax and not self.hides(sp):
            self.stats.bernoulli("birth rather than death", False, 0.5)
        self.choice("deaths: position", [1.0] * s["n"], idx)

    def noise(self, old, new):
        for t in self.targets():
            if not t.hier:
                continue
            z = t.spec["noise"]
            a, b = old[t.name], new[t.name]
            self.normal_step("step of a noise standard deviation", a["std"], b["std"], z["std_step"], *z["std"])
            if t.corr:
                self.normal_step("step of a noise correlation", a["corr"], b["corr"], z["corr_step"], *z["corr"])

    # ---- choices of perturbations

    def chosen(self, names, weights, name):
        t = sum(weights)
        for n in set(names):
            p = sum(w for x, w in zip(names, weights) if x == n) / t
            self.stats.bernoulli(f"perturbation {n.split('(')[0]} chosen", n == name, p)

    def sub_chosen(self, space, grew):
        d = self.subs.setdefault(space, {})
        d[grew] = d.get(grew, 0) + 1

    def sub_weights(self, sp):
        w = {}
        if sp.trans_d:
            w["birth"] = w["death"] = 1
        if any(not q.is_space for q in sp.params):
            w["value"] = 3
        if sp.has_sites:
            w["site"] = 1
        return w

    def close(self, kinds, spaces):
        """the sub-perturbations counted, once it is known which is which"""
        for space, d in self.subs.items():
            sp = spaces.get(space)
            if sp is None:
                continue
            w = self.sub_weights(sp)
            t = sum(w.values())
            n = sum(d.values())
            left = set(w)
            known = {}
            for g in d:
                k = kinds.get(g)
                if k in left:
                    known[g] = k
                    left.discard(k)
            rest = [g for g in d if g not in known]
            hits = {k: d[g] for g, k in known.items()}
            if len(rest) == 1 and len(left) == 1:
                hits[left.pop()] = d[rest[0]]
            if rest and left:
                continue
            for k, p in w.items():
                p = p / t
                if 0 < p < 1:
                    self.stats.add(f"move chosen: {k}", hits.get(k, 0) - n * p, n * p * (1 - p))
