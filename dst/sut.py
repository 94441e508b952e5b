"""Builds the objects of the package under test from a spec, and reads its states.

The user functions given to the package are the classes below: they compute the
reference model's pure functions, report to the world and fail when told to.
"""
import math

import numpy as np

from . import kernel, model
from .kernel import Stop, WorkerDied  # noqa: F401

bb = None


def load():
    """imports the package under test (its tree is on sys.path already)"""
    global bb
    import bayesbay

    bb = bayesbay
    return bb


# ---------------------------------------------------------------- parameterization


class CustomLogPrior:
    def __init__(self, spec, with_position):
        self.spec = spec
        self.param = model.Param(spec)
        self.with_position = with_position

    def __call__(self, value, *position):
        if self.with_position and len(position) != 1:
            raise TypeError("position is missing")
        if not self.with_position and position:
            raise TypeError("too many arguments")
        return self.param.logp(float(value), position[0] if position else None)

    def __reduce__(self):
        return (CustomLogPrior, (self.spec, self.with_position))


class CustomSample:
    def __init__(self, spec):
        self.spec = spec
        self.param = model.Param(spec)

    def __call__(self, position=None):
        import random

        p = self.param
        k = p.kind
        h = p.h
        if not p.posdep:
            position = None
        if k == "expo":
            return random.expovariate(h["rate"](position))
        if k == "tri":
            return random.triangular(h["vmin"](position), h["vmax"](position))
        raise ValueError(k)

    def __reduce__(self):
        return (CustomSample, (self.spec,))


class CustomInit:
    """a custom initialization: values on a narrow ramp within the prior"""

    def __init__(self, spec):
        self.spec = spec
        self.param = model.Param(spec)

    def value(self, position):
        p, h = self.param, self.param.h
        pos = position if p.posdep else None
        if p.kind in ("uniform", "tri"):
            lo, hi = h["vmin"](pos), h["vmax"](pos)
            return lo + 0.25 * (hi - lo)
        if p.kind == "expo":
            return 0.5 / h["rate"](pos)
        return h["mean"](pos)

    def __call__(self, param, positions=None):
        if positions is None:
            return self.value(None)
        return np.array([self.value(x) for x in positions])

    def __reduce__(self):
        return (CustomInit, (self.spec,))


def as_hyper(v):
    return np.array(v, dtype=float) if isinstance(v, (list, tuple)) else v


def build_prior(spec):
    k = spec["k"]
    kw = {"name": spec["name"], "perturb_std": as_hyper(spec["perturb_std"])}
    if spec.get("perturb_std_birth") is not None:
        kw["perturb_std_birth"] = as_hyper(spec["perturb_std_birth"])
    if spec.get("pos") is not None:
        kw["position"] = np.array(spec["pos"], dtype=float)
    if k == "uniform":
        p = bb.prior.UniformPrior(vmin=as_hyper(spec["vmin"]), vmax=as_hyper(spec["vmax"]), **kw)
    elif k == "gauss":
        p = bb.prior.GaussianPrior(mean=as_hyper(spec["mean"]), std=as_hyper(spec["std"]), **kw)
    elif k == "laplace":
        p = bb.prior.LaplacePrior(mean=as_hyper(spec["mean"]), scale=as_hyper(spec["scale"]), **kw)
    else:
        p = bb.prior.CustomPrior(
            log_prior=CustomLogPrior(spec, bool(spec.get("pos") is not None or spec.get("logp_pos"))),
            sample=CustomSample(spec), **kw)
    if spec.get("custom_init"):
        p.set_custom_initialize(CustomInit(spec))
    return p


def build_space(spec):
    params = [build_space(p) if p["k"] in ("ps", "v1", "v2") else build_prior(p) for p in spec["params"]]
    kw = {"name": spec["name"], "parameters": params}
    if spec.get("n") is not None:
        kw["n_dimensions"] = spec["n"]
    else:
        kw["n_dimensions_min"] = spec["nmin"]
        kw["n_dimensions_max"] = spec["nmax"]
        if spec.get("init_range") is not None:
            kw["n_dimensions_init_range"] = spec["init_range"]
    if spec["k"] == "ps":
        return bb.parameterization.ParameterSpace(**kw)
    kw["perturb_std"] = as_hyper(spec["perturb_std"])
    if spec.get("birth_from"):
        kw["birth_from"] = spec["birth_from"]
    if spec["k"] == "v1":
        return bb.discretization.Voronoi1D(vmin=spec["vmin"], vmax=spec["vmax"], **kw)
    kw["compute_kdtree"] = bool(spec.get("kdtree"))
    if spec.get("polygon"):
        poly = np.array(spec["polygon"], dtype=float)
        if spec.get("shapely"):
            from shapely.geometry import Polygon

            poly = Polygon(poly)
        return bb.discretization.Voronoi2D(polygon=poly, **kw)
    return bb.discretization.Voronoi2D(vmin=as_hyper(spec["vmin"]), vmax=as_hyper(spec["vmax"]), **kw)


def build_target(t):
    noise = t["noise"]
    kw = {}
    if noise["k"] == "unknown":
        kw.update(std_min=noise["std"][0], std_max=noise["std"][1], std_perturb_std=noise["std_step"])
        if noise.get("corr") is not None:
            kw.update(noise_is_correlated=True, correlation_min=noise["corr"][0],
                      correlation_max=noise["corr"][1], correlation_perturb_std=noise["corr_step"])
    else:
        v = noise["cinv"]
        kw["covariance_mat_inv"] = v if np.isscalar(v) else np.array(v, dtype=float)
    return bb.Target(t["name"], np.array(t["dobs"], dtype=float), **kw)


# ---------------------------------------------------------------- user functions


class UserError(Exception):
    pass


EXC = {
    "ValueError": ValueError, "MemoryError": MemoryError, "ZeroDivisionError": ZeroDivisionError,
    "KeyError": KeyError, "UserError": UserError, "StopIteration": StopIteration, "OSError": OSError,
    "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "AssertionError": AssertionError,
    "FloatingPointError": FloatingPointError, "RecursionError": RecursionError, "RuntimeError": RuntimeError,
}


class Forward:
    """forward function of a target"""

    def __init__(self, spec):
        self.spec = spec

    def __call__(self, state, *args, **kwargs):
        w = kernel.world()
        obs = w.observer
        extra = self.spec["fwd"].get("args")
        if extra is not None and (list(args) != extra[0] or kwargs != extra[1]):
            w.fail("args", f"forward function called with {args} {kwargs} instead of {extra}")
        plain = snap(state)
        obs.on_user_state(state, plain, "forward function")
        obs.maybe_fail("fwd")
        d = model.forward(self.spec, plain)
        for name in self.spec["fwd"].get("extra", ()):
            state.save_to_extra_storage(name, model.extra(self.spec, name, plain))
        return d

    def __reduce__(self):
        return (Forward, (self.spec,))


class LogLike:
    """log likelihood of a whole problem"""

    __name__ = "loglike"

    def __init__(self, pid):
        self.pid = pid

    def __call__(self, state, *args, **kwargs):
        w = kernel.world()
        s = w.observer.adapter.snap(state)
        w.observer.on_user_state(state, s, "log likelihood function")
        w.observer.maybe_fail("like")
        return w.observer.adapter.loglike(s)

    def __reduce__(self):
        return (type(self), (self.pid,))


class LogLikeRatio(LogLike):
    __name__ = "loglike_ratio"

    def __call__(self, old, new, *args, **kwargs):
        w = kernel.world()
        a = w.observer.adapter
        s, t = a.snap(old), a.snap(new)
        w.observer.on_user_state(old, s, "log likelihood ratio function")
        w.observer.on_user_state(new, t, "log likelihood ratio function")
        w.observer.maybe_fail("like")
        return a.loglike(t) - a.loglike(s)


# ---------------------------------------------------------------- states


def snap_space(ps):
    p = {}
    for k, v in ps.param_values.items():
        p[k] = [snap_space(x) for x in v] if isinstance(v, list) else np.array(v, dtype=float)
    return {"n": ps.n_dimensions, "p": p}


def snap(state):
    """plain copy of a State"""
    out = {}
    for k, v in state.param_values.items():
        if hasattr(v, "n_dimensions"):
            out[k] = snap_space(v)
        else:
            out[k] = {"std": float(v.std), "corr": None if v.correlation is None else float(v.correlation)}
    return out


def to_space(plain, space=None):
    p = {}
    for k, v in plain["p"].items():
        if isinstance(v, list):
            p[k] = [to_space(x, space.by_name[k] if space else None) for x in v]
        else:
            p[k] = np.array(v)
    s = bb.ParameterSpaceState(int(plain["n"]), p)
    if space is not None and space.kdtree:
        import scipy.spatial

        s.save_to_cache("kdtree", scipy.spatial.KDTree(p[model.SITES]))
    return s


def to_state(plain, spaces=None, temperature=1):
    out = {}
    for k, v in plain.items():
        if "p" in v:
            out[k] = to_space(v, spaces[k] if spaces else None)
        else:
            out[k] = bb.DataNoiseState(std=v["std"], correlation=v["corr"])
    return bb.State(out, temperature=temperature)


def view_problems(state, problem):
    """reasons why the ways of reading a State do not agree with each other"""
    out = []
    d = dict(state.items())
    keys = set(iter(state))
    if keys != set(d):
        out.append(f"iterating gives {sorted(keys)} but items() {sorted(d)}")

    def same(a, b):
        if a is b:
            return True
        if isinstance(a, list):
            return isinstance(b, list) and len(a) == len(b) and all(x is y or same_space(x, y) for x, y in zip(a, b))
        return not isinstance(b, list) and b is not None and np.array_equal(a, b)

    def same_space(x, y):
        return x.n_dimensions == y.n_dimensions and set(x.param_values) == set(y.param_values) and all(
            same(v, y.param_values[k]) for k, v in x.param_values.items())

    def as_dict(ps, name, got, path):
        if not isinstance(got, dict):
            out.append(f"{path}: not a dictionary")
            return
        for k, v in ps.param_values.items():
            g = got.get(f"{name}.{k}")
            if isinstance(v, list):
                if not isinstance(g, list) or len(g) != len(v):
                    out.append(f"{path}.{k}: the dictionary of the state has {g}")
                    continue
                for x, y in zip(v, g):
                    as_dict(x, f"{name}.{k}", y, f"{path}.{k}")
            elif g is None or not np.array_equal(v, g):
                out.append(f"{path}.{k}: the dictionary has {g} instead of {v}")
        if got.get(f"{name}.n_dimensions", ps.n_dimensions) != ps.n_dimensions:
            out.append(f"{path}: the dictionary has {got.get(f'{name}.n_dimensions')} dimensions, not {ps.n_dimensions}")

    def space(ps, path, sp):
        for k, v in ps.param_values.items():
            if not same(v, ps[k]):
                out.append(f"{path}[{k!r}] is {ps[k]} instead of {v}")
            if not same(v, ps.get_param_values(k)):
                out.append(f"{path}.get_param_values({k!r}) is not {v}")
            if not same(v, getattr(ps, k, None)):
                out.append(f"{path}.{k} is {getattr(ps, k, None)} instead of {v}")
            if isinstance(v, list):
                for i, x in enumerate(v):
                    space(x, f"{path}.{k}[{i}]", sp.by_name.get(k) if sp else None)
        if sp is not None and sp.kdtree:
            if not ps.saved_in_cache("kdtree"):
                out.append(f"{path}: no kdtree in the cache")
            else:
                data = np.asarray(ps.load_from_cache("kdtree").data)
                if not np.array_equal(data, ps.param_values[model.SITES]):
                    out.append(f"{path}: the kdtree is of other sites than those of the state")

    for k, v in state.param_values.items():
        if state[k] is not v and not (hasattr(v, "n_dimensions") and same_space(v, state[k])) and state[k] != v:
            out.append(f"state[{k!r}] is {state[k]} instead of {v}")
        a = getattr(state, k, None)
        if a is not v and not (hasattr(v, "n_dimensions") and a is not None and same_space(v, a)) and a != v:
            out.append(f"state.{k} is {a} instead of {v}")
        if hasattr(v, "n_dimensions"):
            space(v, k, problem.spaces.get(k) if problem else None)
            sub = {kk: vv for kk, vv in d.items() if kk.startswith(k + ".")}
            as_dict(v, k, sub, k)
        else:
            if d.get(k + ".std") != v.std:
                out.append(f"items() have {k}.std = {d.get(k + '.std')} instead of {v.std}")
            if v.correlation is not None and d.get(k + ".correlation") != v.correlation:
                out.append(f"items() have {k}.correlation = {d.get(k + '.correlation')} instead of {v.correlation}")
    return out


def saved_entries(problem, plain, targets):
    """what is to be saved of a state: {key: value}"""
    out = {}

    def nested(sp, s, name):
        d = {}
        if sp.trans_d:
            d[f"{name}.n_dimensions"] = s["n"]
        for k, v in s["p"].items():
            if isinstance(v, list):
                d[f"{name}.{k}"] = [nested(sp.by_name[k], x, f"{name}.{k}") for x in v]
            else:
                d[f"{name}.{k}"] = v
        return d

    for k, sp in problem.spaces.items():
        out.update(nested(sp, plain[k], k))
    for t in targets:
        if t.hier:
            out[f"{t.name}.std"] = plain[t.name]["std"]
            if t.corr:
                out[f"{t.name}.correlation"] = plain[t.name]["corr"]
    return out


def same_value(a, b):
    """whether a saved value b is the expected a"""
    if isinstance(a, dict):
        return isinstance(b, dict) and all(k in b and same_value(v, b[k]) for k, v in a.items()) and all(
            k in a or k.endswith("n_dimensions") for k in b)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return a is b
    try:
        x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        return a == b
    return x.shape == y.shape and bool(np.all((x == y) | (np.isnan(x) & np.isnan(y))))


def num(x):
    """a log ratio as a float (size-1 arrays are numbers)"""
    if isinstance(x, np.ndarray):
        return float(x.reshape(-1)[0]) if x.size == 1 else math.nan
    return float(x)
