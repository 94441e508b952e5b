"""Reference model: the problem definition and its mathematics in plain numpy.

Nothing here calls bayesbay.  A state is a "plain" dictionary

    {name: {"n": int, "p": {param: ndarray | [plain space, ...]}}   a parameter space
     name: {"std": float, "corr": float | None}}                    the noise of a target

and a problem is the JSON object produced by gen.py.
"""
import math

import numpy as np
import scipy.interpolate

LOG2PI = math.log(2 * math.pi)
SITES = "discretization"


class Mismatch(Exception):
    """the two states are not related by one legal move"""


def scalar(x):
    return float(np.asarray(x).reshape(-1)[0]) if np.size(x) == 1 else float(x)


class Hyper:
    """a hyper-parameter, constant or linearly interpolated between positions"""

    def __init__(self, value, positions):
        self.value = value
        self.positions = positions
        self.interp = None
        if isinstance(value, (list, tuple)):
            pos = np.asarray(positions, dtype=float)
            if pos.ndim == 1:
                x, y = pos, np.asarray(value, dtype=float)
                self.interp = lambda p: float(np.interp(scalar(p), x, y))
            else:
                f = scipy.interpolate.LinearNDInterpolator(pos, np.asarray(value, dtype=float))
                self.interp = lambda p: float(f(np.asarray(p, dtype=float).reshape(1, -1))[0])

    def __call__(self, pos=None):
        return float(self.value) if self.interp is None else self.interp(pos)


class Param:
    """a scalar free parameter"""

    is_space = False

    def __init__(self, spec):
        self.spec = spec
        self.name = spec["name"]
        self.kind = spec["k"]
        self.pos = spec.get("pos")
        h = {}
        for key in ("vmin", "vmax", "mean", "std", "scale", "rate", "perturb_std", "perturb_std_birth"):
            if spec.get(key) is not None:
                h[key] = Hyper(spec[key], self.pos)
        if "perturb_std_birth" not in h:
            h["perturb_std_birth"] = h["perturb_std"]
        self.h = h

    @property
    def posdep(self):
        return self.pos is not None

    def sigma_birth(self, pos):
        return self.h["perturb_std_birth"](pos)

    def logp(self, v, pos):
        h = self.h
        k = self.kind
        if k == "uniform":
            lo, hi = h["vmin"](pos), h["vmax"](pos)
            return -math.log(hi - lo) if lo <= v <= hi else -math.inf
        if k == "gauss":
            m, s = h["mean"](pos), h["std"](pos)
            return -0.5 * LOG2PI - math.log(s) - 0.5 * ((v - m) / s) ** 2
        if k == "laplace":
            m, s = h["mean"](pos), h["scale"](pos)
            return -math.log(2 * s) - abs(v - m) / s
        if k == "expo":
            r = h["rate"](pos)
            return math.log(r) - r * v if v >= 0 else -math.inf
        if k == "tri":
            lo, hi = h["vmin"](pos), h["vmax"](pos)
            if not lo < v < hi:
                return -math.inf
            c, w = (lo + hi) / 2, (hi - lo) / 2
            t = 1 - abs(v - c) / w
            return math.log(t / w) if t > 0 else -math.inf
        raise ValueError(k)

    def margin(self, v, pos):
        """distance of a value from the edge of the support (inf when unbounded);
        comparisons closer than rounding errors to an edge are not judged"""
        h = self.h
        if self.kind in ("uniform", "tri"):
            return min(abs(v - h["vmin"](pos)), abs(v - h["vmax"](pos)))
        if self.kind == "expo":
            return abs(v)
        return math.inf

    def sample(self, rng, pos):
        h = self.h
        k = self.kind
        if k == "uniform":
            return rng.uniform(h["vmin"](pos), h["vmax"](pos))
        if k == "gauss":
            return rng.normal(h["mean"](pos), h["std"](pos))
        if k == "laplace":
            return rng.laplace(h["mean"](pos), h["scale"](pos))
        if k == "expo":
            return rng.exponential(1 / h["rate"](pos))
        if k == "tri":
            lo, hi = h["vmin"](pos), h["vmax"](pos)
            return rng.triangular(lo, (lo + hi) / 2, hi)
        raise ValueError(k)

    def cdf(self, v, pos):
        h = self.h
        k = self.kind
        if k == "uniform":
            lo, hi = h["vmin"](pos), h["vmax"](pos)
            return min(1.0, max(0.0, (v - lo) / (hi - lo)))
        if k == "gauss":
            return 0.5 * math.erfc(-(v - h["mean"](pos)) / h["std"](pos) / math.sqrt(2))
        if k == "laplace":
            z = (v - h["mean"](pos)) / h["scale"](pos)
            return 0.5 * math.exp(z) if z < 0 else 1 - 0.5 * math.exp(-z)
        if k == "expo":
            return 1 - math.exp(-h["rate"](pos) * max(v, 0.0))
        if k == "tri":
            lo, hi = h["vmin"](pos), h["vmax"](pos)
            t = min(1.0, max(0.0, (v - lo) / (hi - lo)))
            return 2 * t * t if t < 0.5 else 1 - 2 * (1 - t) ** 2
        raise ValueError(k)


class Space:
    """a parameter space or a discretization"""

    is_space = True

    def __init__(self, spec):
        self.spec = spec
        self.name = spec["name"]
        self.kind = spec["k"]  # ps, v1, v2
        self.n = spec.get("n")
        self.trans_d = self.n is None
        self.nmin = self.n if self.n is not None else spec["nmin"]
        self.nmax = self.n if self.n is not None else spec["nmax"]
        self.init_range = spec.get("init_range", 0.3)
        self.birth_from = spec.get("birth_from")
        self.has_sites = self.kind != "ps"
        self.dim = {"ps": 0, "v1": 1, "v2": 2}[self.kind]
        self.params = [Space(p) if p["k"] in ("ps", "v1", "v2") else Param(p) for p in spec["params"]]
        self.by_name = {p.name: p for p in self.params}
        self.kdtree = bool(spec.get("kdtree"))
        self.polygon = None
        if self.dim == 2:
            if spec.get("polygon"):
                self.polygon = np.asarray(spec["polygon"], dtype=float)
                self.lo = self.polygon.min(axis=0)
                self.hi = self.polygon.max(axis=0)
            else:
                self.lo = np.broadcast_to(np.asarray(spec["vmin"], dtype=float), (2,))
                self.hi = np.broadcast_to(np.asarray(spec["vmax"], dtype=float), (2,))
        elif self.dim == 1:
            self.lo, self.hi = float(spec["vmin"]), float(spec["vmax"])

    # ---- domain

    def in_domain(self, site, tol=1e-9):
        if self.dim == 1:
            w = tol * (self.hi - self.lo)
            return self.lo - w <= site <= self.hi + w
        w = tol * (self.hi - self.lo)
        if not np.all((site >= self.lo - w) & (site <= self.hi + w)):
            return False
        return self.polygon is None or in_polygon(self.polygon, site) or edge_distance(self.polygon, site) < 1e-7

    def sample_site(self, rng):
        if self.dim == 1:
            return rng.uniform(self.lo, self.hi)
        while True:
            s = rng.uniform(self.lo, self.hi)
            if self.polygon is None or in_polygon(self.polygon, s):
                return s

    # ---- sampling from the prior

    def sample(self, rng):
        n = int(rng.integers(self.nmin, self.nmax + 1))
        p = {}
        pos = [None] * n
        if self.has_sites:
            sites = np.array([self.sample_site(rng) for _ in range(n)])
            if self.dim == 1:
                sites = np.sort(sites)
            p[SITES] = sites
            pos = list(sites)
        for q in self.params:
            if q.is_space:
                p[q.name] = [q.sample(rng) for _ in range(n)]
            else:
                p[q.name] = np.array([q.sample(rng, x) for x in pos])
        return {"n": n, "p": p}

    # ---- validity

    def problems(self, s, path=""):
        """list of reasons why a plain space is not valid"""
        path = path or self.name
        out = []
        n = s["n"]
        if not self.nmin <= n <= self.nmax:
            out.append(f"{path}: {n} dimensions not within {self.nmin}-{self.nmax}")
        names = set(self.by_name) | ({SITES} if self.has_sites else set())
        if set(s["p"]) != names:
            out.append(f"{path}: parameters {sorted(s['p'])} instead of {sorted(names)}")
            return out
        pos = [None] * n
        if self.has_sites:
            sites = s["p"][SITES]
            want = (n,) if self.dim == 1 else (n, 2)
            if np.shape(sites) != want:
                out.append(f"{path}: sites of shape {np.shape(sites)} instead of {want}")
                return out
            if self.dim == 1 and np.any(np.diff(sites) < 0):
                out.append(f"{path}: sites are not sorted: {sites.tolist()}")
            for x in sites:
                if not self.in_domain(x):
                    out.append(f"{path}: site {np.asarray(x).tolist()} outside of the domain")
                    return out
            pos = list(sites)
        for q in self.params:
            v = s["p"][q.name]
            if len(v) != n or (not q.is_space and np.shape(v) != (n,)):
                out.append(f"{path}.{q.name}: shape {np.shape(v) if not q.is_space else len(v)} for {n} dimensions")
                continue
            for x, vv in zip(pos, v):
                if q.is_space:
                    out.extend(q.problems(vv, f"{path}.{q.name}"))
                elif q.logp(vv, x) == -math.inf and not q.margin(vv, x) < 1e-9 * (1 + abs(vv)):
                    out.append(f"{path}.{q.name}: value {vv} outside of the support of its prior")
        return out

    # ---- rows

    def row(self, s, i):
        return {k: v[i] for k, v in s["p"].items()}

    def same_row(self, a, b):
        for k in a:
            q = self.by_name.get(k)
            if q is not None and q.is_space:
                if not q.same(a[k], b[k]):
                    return False
            elif not np.array_equal(a[k], b[k]):
                return False
        return True

    def same(self, a, b):
        if a["n"] != b["n"]:
            return False
        for k, v in a["p"].items():
            w = b["p"][k]
            if isinstance(v, list):
                if len(v) != len(w) or not all(self.by_name[k].same(x, y) for x, y in zip(v, w)):
                    return False
            elif not np.array_equal(v, w):
                return False
        return True

    # ---- proposal ratio

    def log_ratio(self, old, new):
        """log of (prior ratio x proposal ratio) of the move from old to new.
        Returns (ratio, list of moves) ; raises Mismatch if this is not a legal move"""
        dn = new["n"] - old["n"]
        if dn == 0:
            return self._ratio_same_n(old, new)
        if dn == 1:
            i = self._extra_row(old, new)
            return self.log_ratio_birth(old, new, i), [("birth", self.name, i)]
        if dn == -1:
            i = self._extra_row(new, old)
            return -self.log_ratio_birth(new, old, i), [("death", self.name, i)]
        raise Mismatch(f"{self.name}: from {old['n']} to {new['n']} dimensions at once")

    def _extra_row(self, small, big):
        """index of the row of `big` that `small` does not have"""
        found = []
        n = small["n"]
        if self.has_sites:
            key = [x.tobytes() for x in np.asarray(small["p"][SITES], dtype=float).reshape(n, -1)]
            key = set(key)
            cand = [i for i, x in enumerate(np.asarray(big["p"][SITES], dtype=float).reshape(n + 1, -1))
                    if x.tobytes() not in key]
            if len(cand) != 1:
                raise Mismatch(f"{self.name}: {len(cand)} sites differ in a birth or death")
        else:
            cand = range(n + 1)
        for i in cand:
            idx = [j for j in range(n + 1) if j != i]
            if all(self.same_row(self.row(small, a), self.row(big, b)) for a, b in enumerate(idx)):
                found.append(i)
        if not found:
            raise Mismatch(f"{self.name}: the rows kept in a birth or death are not the same")
        return found[0]

    def nearest(self, sites, x):
        d = np.asarray(sites, dtype=float).reshape(len(sites), -1) - np.asarray(x, dtype=float).reshape(1, -1)
        return int(np.argmin((d ** 2).sum(axis=1)))

    def log_ratio_birth(self, old, new, i):
        if not self.has_sites or self.birth_from == "prior":
            return 0.0
        x = new["p"][SITES][i]
        nb = self.nearest(old["p"][SITES], x)
        return self._neighbour(self.row(new, i), x, self.row(old, nb))

    def _neighbour(self, row, x, nb_row):
        r = 0.0
        for q in self.params:
            v, w = row[q.name], nb_row[q.name]
            if not q.is_space:
                s = q.sigma_birth(x)
                r += q.logp(v, x) + 0.5 * LOG2PI + math.log(s) + 0.5 * ((v - w) / s) ** 2
            elif q.has_sites:
                for i, y in enumerate(v["p"][SITES]):
                    j = q.nearest(w["p"][SITES], y)
                    r += q._neighbour(q.row(v, i), y, q.row(w, j))
        return r

    def _ratio_same_n(self, old, new):
        n = old["n"]
        pairs = [(i, i) for i in range(n)]
        moves = []
        r = 0.0
        if self.has_sites:
            a = [x.tobytes() for x in np.asarray(old["p"][SITES], dtype=float).reshape(n, -1)]
            b = [x.tobytes() for x in np.asarray(new["p"][SITES], dtype=float).reshape(n, -1)]
            ia = {k: i for i, k in enumerate(a)}
            pairs, gone = [], set(range(n))
            fresh = []
            for j, k in enumerate(b):
                if k in ia and ia[k] in gone:
                    pairs.append((ia[k], j))
                    gone.discard(ia[k])
                else:
                    fresh.append(j)
            if len(fresh) > 1:
                raise Mismatch(f"{self.name}: {len(fresh)} sites moved at once")
            if fresh:
                i = gone.pop()
                pairs.append((i, fresh[0]))
                moves.append(("site", self.name, i))
        for i, j in pairs:
            ra, rb = self.row(old, i), self.row(new, j)
            xa = ra.get(SITES)
            xb = rb.get(SITES)
            for q in self.params:
                v, w = ra[q.name], rb[q.name]
                if q.is_space:
                    if not q.same(v, w):
                        dr, dm = q.log_ratio(v, w)
                        r += dr
                        moves.extend((k, f"{self.name}[{i}].{m}", ii) for k, m, ii in dm)
                elif v != w or (q.posdep and not np.array_equal(xa, xb)):
                    d = q.logp(w, xb) - q.logp(v, xa)
                    if math.isnan(d):
                        raise Mismatch(f"{self.name}.{q.name}: from zero to zero prior probability")
                    r += d
                    if v != w:
                        moves.append(("value", f"{self.name}.{q.name}", i))
        return r, moves

    # ---- features for tests of distributions

    def features(self, s, f, weight=1.0):
        n = s["n"]
        pos = s["p"][SITES] if self.has_sites else [None] * n
        p = self.name
        if self.nmax > self.nmin:
            t = (n - self.nmin) / (self.nmax - self.nmin)
            f[p + "#lo"] = f.get(p + "#lo", 0) + weight * (n == self.nmin)
            f[p + "#hi"] = f.get(p + "#hi", 0) + weight * (n == self.nmax)
            f[p + "#n"] = f.get(p + "#n", 0) + weight * t
        else:
            t = 0.5
        if self.has_sites:
            x = np.asarray(pos, dtype=float).reshape(n, -1)
            u = (x - np.reshape(self.lo, (1, -1))) / np.reshape(np.asarray(self.hi) - self.lo, (1, -1))
            c1 = np.cos(np.pi * u).mean()
            c2 = np.cos(2 * np.pi * u).mean()
            f[p + "@1"] = f.get(p + "@1", 0) + weight * c1
            f[p + "@2"] = f.get(p + "@2", 0) + weight * c2
            if n > 1 and self.dim == 1:
                f[p + "@g"] = f.get(p + "@g", 0) + weight * min(1.0, n * np.diff(u[:, 0]).min())
        for q in self.params:
            v = s["p"][q.name]
            if q.is_space:
                for vv in v:
                    q.features(vv, f, weight / n)
                continue
            u = np.array([q.cdf(vv, x) for x, vv in zip(pos, v)])
            k = p + "." + q.name
            f[k + "1"] = f.get(k + "1", 0) + weight * np.cos(np.pi * u).mean()
            f[k + "2"] = f.get(k + "2", 0) + weight * np.cos(2 * np.pi * u).mean()
            f[k + "e"] = f.get(k + "e", 0) + weight * ((u < 0.06) | (u > 0.94)).mean()
            f[k + "n"] = f.get(k + "n", 0) + weight * (t - 0.5) * np.cos(2 * np.pi * u).mean()
            if self.has_sites:
                g = np.cos(np.pi * (np.asarray(pos, dtype=float).reshape(n, -1)[:, 0] - np.reshape(self.lo, -1)[0])
                           / (np.reshape(self.hi, -1)[0] - np.reshape(self.lo, -1)[0]))
                f[k + "x"] = f.get(k + "x", 0) + weight * (g * np.cos(np.pi * u)).mean()
                if n > 1:
                    # similarity of neighbours in space: births from a neighbour act on it
                    if self.dim == 1:
                        d = np.abs(np.diff(u)).mean()
                    else:
                        xx = np.asarray(pos, dtype=float)
                        dd = ((xx[:, None, :] - xx[None, :, :]) ** 2).sum(-1)
                        np.fill_diagonal(dd, np.inf)
                        d = np.abs(u - u[dd.argmin(axis=1)]).mean()
                    f[k + "d"] = f.get(k + "d", 0) + weight * d


def in_polygon(poly, pt):
    x, y = float(pt[0]), float(pt[1])
    inside = False
    m = len(poly)
    for i in range(m):
        x1, y1 = poly[i]
        x2, y2 = poly[(i + 1) % m]
        if (y1 > y) != (y2 > y) and x < (x2 - x1) * (y - y1) / (y2 - y1) + x1:
            inside = not inside
    return inside


def edge_distance(poly, pt):
    p = np.asarray(pt, dtype=float)
    best = math.inf
    for a, b in zip(poly, np.roll(poly, -1, axis=0)):
        d = b - a
        t = min(1.0, max(0.0, float(np.dot(p - a, d) / np.dot(d, d))))
        best = min(best, float(np.linalg.norm(p - a - t * d)))
    return best


class TargetModel:
    def __init__(self, spec):
        self.spec = spec
        self.name = spec["name"]
        self.n = spec["n"]
        self.hier = spec["noise"]["k"] == "unknown"
        self.corr = self.hier and spec["noise"].get("corr") is not None
        if self.hier:
            self.std_b = spec["noise"]["std"]
            self.corr_b = spec["noise"].get("corr")
        else:
            v = spec["noise"]["cinv"]
            self.cinv = (v * np.eye(self.n) if np.isscalar(v) else
                         np.diag(v) if np.ndim(v) == 1 else np.asarray(v, dtype=float))
            self.chol = np.linalg.cholesky(np.linalg.inv(self.cinv))
        self.dobs = np.asarray(spec["dobs"], dtype=float)

    @staticmethod
    def place(x, bounds):
        """the position of a value between its bounds, as a share of their distance"""
        return (x - bounds[0]) / (bounds[1] - bounds[0]) if bounds[1] > bounds[0] else 0.5

    def sample_noise(self, rng):
        return {"std": rng.uniform(*self.std_b), "corr": rng.uniform(*self.corr_b) if self.corr else None}

    def problems(self, s):
        out = []
        if not self.std_b[0] - 1e-12 <= s["std"] <= self.std_b[1] + 1e-12:
            out.append(f"noise of {self.name}: std {s['std']} outside of {self.std_b}")
        if self.corr:
            if s["corr"] is None or not self.corr_b[0] - 1e-12 <= s["corr"] <= self.corr_b[1] + 1e-12:
                out.append(f"noise of {self.name}: correlation {s['corr']} outside of {self.corr_b}")
        elif s["corr"] is not None:
            out.append(f"noise of {self.name}: correlation {s['corr']} of uncorrelated noise")
        return out

    def covariance(self, noise):
        i = np.arange(self.n)
        r = noise["corr"] or 0.0
        return noise["std"] ** 2 * np.power(r, np.abs(i[:, None] - i[None, :]))

    def loglike(self, noise, dpred, dobs=None):
        r = np.asarray(dpred, dtype=float) - (self.dobs if dobs is None else dobs)
        if not np.all(np.isfinite(r)):
            dense = self.corr or (not self.hier and np.ndim(self.spec["noise"]["cinv"]) == 2)
            return math.nan if dense or np.any(np.isnan(r)) else -math.inf
        if not self.hier:
            return -0.5 * float(r @ self.cinv @ r)
        c = self.covariance(noise)
        return -0.5 * float(r @ np.linalg.solve(c, r)) - 0.5 * np.linalg.slogdet(c)[1]

    def sample_data(self, rng, noise, g, temperature=1.0):
        if self.hier:
            chol = np.linalg.cholesky(self.covariance(noise))
        else:
            chol = self.chol * math.sqrt(temperature)
        return np.asarray(g) + chol @ rng.normal(size=self.n)


def flat_values(plain):
    """all the numbers of a state, in a fixed order"""
    out = []

    def space(s):
        out.append(float(s["n"]))
        for k in sorted(s["p"]):
            v = s["p"][k]
            if isinstance(v, list):
                for vv in v:
                    space(vv)
            else:
                out.extend(np.asarray(v, dtype=float).ravel().tolist())

    for k in sorted(plain):
        if "p" in plain[k]:
            space(plain[k])
        else:
            out.append(plain[k]["std"])
            if plain[k]["corr"] is not None:
                out.append(plain[k]["corr"])
    return out


def forward(spec, plain):
    """the predictions of a synthetic forward operator: bounded nonlinear sums over
    all the values of the parameter spaces (the noise does not enter)"""
    n = spec["n"]
    a, phase = spec["fwd"]["a"], spec["fwd"]["phase"]
    sym = spec["fwd"].get("sym", False)
    acc = np.zeros(n)
    j = np.arange(1, n + 1)

    def space(s, w):
        nonlocal acc
        acc += 0.15 * w * np.cos(0.7 * j + phase) * s["n"]
        for k in sorted(s["p"]):
            v = s["p"][k]
            if isinstance(v, list):
                for i, vv in enumerate(v):
                    space(vv, w if sym else w / (1 + 0.5 * i))
            else:
                x = np.asarray(v, dtype=float)
                x = x.reshape(len(x), -1).sum(axis=1)
                i = np.zeros(len(x)) if sym else np.arange(len(x))
                acc += w * (np.cos(0.9 * i[None, :] + 0.35 * j[:, None] + phase + len(k))
                            * np.tanh(x[None, :] / spec["fwd"]["scale"])).sum(axis=1)

    for k in sorted(plain):
        if "p" in plain[k]:
            space(plain[k], 1.0)
    out = a * np.tanh(acc)
    bad = spec["fwd"].get("bad")
    if bad is not None and out[0] > bad["above"] * a:
        out[0] = {"nan": np.nan, "inf": np.inf}[bad["k"]]
    return out


def extra(spec, name, plain):
    """an entry that the forward function of a target leaves in the extra storage"""
    v = flat_values({k: s for k, s in plain.items() if "p" in s})
    x = math.fsum(v) + len(name)
    return np.array([x, len(v)]) if name.endswith("_a") else x


class Problem:
    """reference model of a problem with parameter spaces and targets"""

    def __init__(self, spec):
        self.spec = spec
        self.spaces = {s["name"]: Space(s) for s in spec["spaces"]}
        self.targets = [TargetModel(t) for t in spec["targets"]]
        self.like = spec.get("like", "targets")

    def active_targets(self):
        return self.targets

    def sample_prior(self, rng):
        p = {k: s.sample(rng) for k, s in self.spaces.items()}
        for t in self.targets:
            if t.hier:
                p[t.name] = t.sample_noise(rng)
        return p

    def problems(self, plain, targets=None):
        targets = self.targets if targets is None else targets
        names = set(self.spaces) | {t.name for t in targets if t.hier}
        if set(plain) != names:
            return [f"state has {sorted(plain)} instead of {sorted(names)}"]
        out = []
        for k, s in self.spaces.items():
            if "p" not in plain[k]:
                out.append(f"{k} is not a parameter space")
                continue
            out.extend(s.problems(plain[k]))
        for t in targets:
            if t.hier:
                out.extend(t.problems(plain[t.name]))
        return out

    def same(self, a, b):
        if set(a) != set(b):
            return False
        for k in a:
            if k in self.spaces:
                if not self.spaces[k].same(a[k], b[k]):
                    return False
            elif a[k] != b[k]:
                return False
        return True

    def log_ratio(self, old, new):
        if set(old) != set(new):
            raise Mismatch("the proposed state has other parameters")
        r, moves = 0.0, []
        for k in old:
            if k in self.spaces:
                if not self.spaces[k].same(old[k], new[k]):
                    dr, dm = self.spaces[k].log_ratio(old[k], new[k])
                    r += dr
                    moves += dm
            elif old[k] != new[k]:
                moves.append(("noise", k, 0))
        return r, moves

    def loglike(self, plain, targets=None, dobs=None):
        total = 0.0
        for t in self.targets if targets is None else targets:
            g = forward(t.spec, plain)
            total += t.loglike(plain.get(t.name), g, None if dobs is None else dobs[t.name])
        return total

    def features(self, plain):
        f = {}
        for k, s in self.spaces.items():
            s.features(plain[k], f)
        for t in self.targets:
            if t.hier:
                u = t.place(plain[t.name]["std"], t.std_b)
                f[t.name + "s1"], f[t.name + "s2"] = math.cos(math.pi * u), math.cos(2 * math.pi * u)
                f[t.name + "se"] = float(u < 0.06 or u > 0.94)
                if t.corr:
                    u = t.place(plain[t.name]["corr"], t.corr_b)
                    f[t.name + "r1"], f[t.name + "r2"] = math.cos(math.pi * u), math.cos(2 * math.pi * u)
        return f
