"""Engine A: a simulated inversion watched by a reference model at each iteration.

The observer keeps, for each chain, a mirror of what the chain must hold: current
state, saved samples, statistics, temperature.  It learns of the proposals from the
perturbation functions and of the iterations from the callbacks of the sampler, and
compares everything the package exposes with the mirror.
"""
import contextlib
import copy
import io
import math
import sys
import traceback
from collections import Counter

import numpy as np

from . import gen, kern, kernel, model, stats, sut
from .kernel import Stop, World
from .sut import num, same_value

SURE = 34.0  # decisions of probability below exp(-SURE) are taken as certain


# ---------------------------------------------------------------- spies


def observer():
    return kernel.world().observer


_spies = {}


def spy_class(cls):
    """a subclass of a perturbation class that reports each proposal"""
    if cls not in _spies:

        class Spy(cls):
            _is_spy = True

            def perturb(self, state):
                o = observer()
                if o.ctx is None or o.ctx.inside:
                    return super().perturb(state)
                o.ctx.inside = True
                try:
                    before = o.before_proposal(state, self.__name__)
                    out = super().perturb(state)
                finally:
                    o.ctx.inside = False
                o.after_proposal(state, before, out, self.__name__)
                return out

            def __call__(self, state):
                return self.perturb(state)

            def __reduce__(self):
                return (rebuild_spy, (cls, dict(self.__dict__)))

        Spy.__name__ = cls.__name__
        Spy.__qualname__ = cls.__qualname__
        _spies[cls] = Spy
    return _spies[cls]


def rebuild_spy(cls, attrs):
    obj = cls.__new__(spy_class(cls))
    obj.__dict__.update(attrs)
    return obj


class BasePerturb:
    """perturbation function of the low-level interface"""

    def __init__(self, spec, i):
        self.spec = spec
        self.i = i
        self.__name__ = spec["name"]

    def __call__(self, state, *args, **kwargs):
        o = observer()
        want = self.spec.get("args")
        if want is not None and (list(args) != want[0] or kwargs != want[1]):
            o.w.fail("args", f"perturbation function called with {args} {kwargs} instead of {want}")
        before = o.before_proposal(state, self.__name__)
        o.maybe_fail("perturb", name=self.__name__)
        out = o.adapter.perturb(self.spec, state)
        o.after_proposal(state, before, out, self.__name__)
        return out

    def __reduce__(self):
        return (BasePerturb, (self.spec, self.i))


class Callback:
    """a function registered on a sampler"""

    def __init__(self, kind, idx):
        self.kind = kind
        self.idx = idx

    def __call__(self, sampler, *args):
        observer().on_callback(self.kind, self.idx, sampler, args)

    def __reduce__(self):
        return (Callback, (self.kind, self.idx))


def hooked(cls):
    """a user's own subclass of a sampler, with hooks that report their calls"""

    class Custom(cls):
        def on_initialize(self, chains):
            super().on_initialize(chains)
            observer().on_callback("init", -1, self, (chains,))

        def on_begin_iteration(self, chain):
            super().on_begin_iteration(chain)
            observer().on_callback("begin", -1, self, (chain,))

        def on_end_iteration(self, chain):
            super().on_end_iteration(chain)
            observer().on_callback("end", -1, self, (chain,))

        def on_end_advance_chain(self):
            super().on_end_advance_chain()
            observer().on_callback("advanced", -1, self, ())

        def __reduce__(self):
            return (rebuild_hooked, (cls, dict(self.__dict__)))

    return Custom


def rebuild_hooked(cls, attrs):
    c = hooked(cls)
    obj = c.__new__(c)
    obj.__dict__.update(attrs)
    return obj


_batched = None


def batched_sampler():
    """a custom sampler that advances its chains in batches of uneven sizes"""
    global _batched
    if _batched is None:

        class Batched(sut.bb.samplers.VanillaSampler):
            def __init__(self, sizes):
                super().__init__()
                self.sizes = sizes

            def run(self, n_iterations, **kw):
                left, i = n_iterations, 0
                while left > 0:
                    n = min(left, self.sizes[i % len(self.sizes)])
                    self.advance_chain(n_iterations=n, **kw)
                    left -= n
                    i += 1
                return self.chains

            def __reduce__(self):
                return (rebuild_batched, (dict(self.__dict__),))

        _batched = Batched
    return _batched


def rebuild_batched(attrs):
    c = batched_sampler()
    obj = c.__new__(c)
    obj.__dict__.update(attrs)
    return obj


# ---------------------------------------------------------------- adapters


class HighLevel:
    """problems with parameter spaces and targets"""

    def __init__(self, spec):
        self.spec = spec
        self.problem = model.Problem(spec["problem"])
        self.form = spec["problem"].get("like", "targets")
        self.targets = list(self.problem.targets)

    is_state = True

    def snap(self, state):
        return sut.snap(state)

    def same(self, a, b):
        return self.problem.same(a, b)

    def loglike(self, s):
        return self.problem.loglike(s, self.targets)

    def problems(self, s):
        return self.problem.problems(s, self.declared())

    def declared(self):
        """targets whose noise is part of the state"""
        return self.targets if self.form in ("targets", "targets+like") else []

    def views(self, state):
        return sut.view_problems(state, self.problem)

    def log_ratio(self, a, b):
        return self.problem.log_ratio(a, b)

    def saved(self, s, save_dpred):
        out = sut.saved_entries(self.problem, s, self.declared())
        if self.form == "targets":
            for t in self.targets:
                if save_dpred:
                    out[f"{t.name}.dpred"] = model.forward(t.spec, s)
                for name in t.spec["fwd"].get("extra", ()):
                    out[name] = model.extra(t.spec, name, s)
        return out

    def floats(self, s):
        return model.flat_values(s)

    def is_dict_like(self):
        return True

    def optional(self, k):
        """whether numbers of dimensions that cannot change are saved is unspecified"""
        if not k.endswith(".n_dimensions"):
            return False
        sp = self.problem.spaces.get(k[: -len(".n_dimensions")])
        return sp is not None and not sp.trans_d

    def is_dpred(self, k):
        return any(k == t.name + ".dpred" or k in t.spec["fwd"].get("extra", ()) for t in self.problem.targets)

    def fresh(self, plain):
        return sut.to_state(plain, self.problem.spaces)


def make_base(spec):
    from . import base

    return base.Adapter(spec)


# ---------------------------------------------------------------- mirrors


class Ctx:
    """mirror of a chain"""

    def __init__(self, cid):
        self.id = cid
        self.cur = None
        self.T = 1
        self.n = 0
        self.acc = 0
        self.fails = Counter()
        self.saved = {}
        self.prop = {}
        self.subprop = {}
        self.attempts = []
        self.in_iter = False
        self.inside = False
        self.failed = 0  # failed attempts of the iteration in progress
        self.next = ("begin", 0)
        self.resid = 0.0
        self.stats_seen = None
        self.stats_end = None
        self.stats_end_n = None
        self.history = []
        self.sites = Counter()
        self.last_token = None

    def checkpoint(self):
        c = copy.copy(self)
        c.fails = Counter(self.fails)
        c.saved = {k: list(v) for k, v in self.saved.items()}
        c.prop = {k: list(v) for k, v in self.prop.items()}
        c.subprop = {k: {kk: list(vv) for kk, vv in v.items()} for k, v in self.subprop.items()}
        c.history = list(self.history)
        c.attempts = []
        return c


class Attempt:
    __slots__ = ("name", "new", "ratio", "failed", "noop", "obj", "moves")


class Observer:
    def __init__(self, w, spec):
        self.w = w
        self.spec = spec
        self.adapter = HighLevel(spec) if "problem" in spec else make_base(spec)
        self.ctxs = {}
        self.stats = stats.Stats()
        self.options = spec.get("options", {})
        self.faults = spec.get("faults", [])
        self.tokens = 0
        self.expect_exc = []
        self.run_no = -1
        self.run = None
        self.sampler_kind = None
        self.extra_cb = spec.get("callbacks", {})
        self.hooks = bool(spec.get("hooks"))
        self.log = []
        self.batch_no = 0
        self.checkpoints = []
        self.values = {}
        self.kinds = {}
        self.swaps = 0
        self.order = []
        self.resid_all = 0.0
        self.kernel = None
        if self.options.get("select") and "problem" in spec:
            self.kernel = kern.Kernel(self.stats, self.adapter.problem, lambda: self.adapter.declared())
        self.firings = {}
        self.prints = 0
        self.ended = None
        self.faulty = bool(self.faults) or any(
            op.get("backend", {}).get("death") for op in spec.get("plan", ()))

    @property
    def ctx(self):
        return self.w.ctx

    # ---- faults

    def maybe_fail(self, site, idx=None, name=None):
        """raises if the plan says so for this call"""
        if self.w.stopping:
            raise Stop()
        if not self.faults:
            return
        c = self.ctx
        own = site in ("fwd", "like", "perturb", "begin", "end")
        if site == "end":
            c = self.ended
        cid = c.id if c is not None and own else None
        for f in self.faults:
            if f["site"] != site:
                continue
            if f.get("run") is not None and f["run"] != self.run_no:
                continue
            if own and c is not None:
                if f.get("chain") is not None and f["chain"] != cid:
                    continue
                if f.get("span"):
                    if f["iter"] <= c.n < f["iter"] + f["span"] and c.in_iter and self.is_culprit(f, c, name):
                        self.raise_fault(f, site, c)
                    continue
                if f["iter"] != c.n:
                    continue
                if site in ("begin", "end"):
                    if f["idx"] % self.n_callbacks(site) != idx or self.fired(f):
                        continue
                elif isinstance(sut.EXC[f["exc"]]("x"), Exception):
                    if c.failed >= f["m"]:
                        continue
                elif self.fired(f):
                    continue
            else:
                if f["iter"] is not None or f.get("batch") != self.batch_no and site != "print":
                    continue
                if site in ("init", "advanced") and f["idx"] % self.n_callbacks(site) != idx:
                    continue
                if site == "print":
                    self.prints += 1
                    if self.prints < f["nth"]:
                        continue
                if self.fired(f):
                    continue
            self.raise_fault(f, site, c)

    def is_culprit(self, f, c, name):
        """whether a fault bound to one of the perturbations is due"""
        names = sorted(self.perturbation_names)
        if len(names) < 2:
            return False
        if name is None:
            name = c.attempts[-1].name if c.attempts else None
        return name == names[f["who"] % len(names)]

    def fired(self, f):
        """each planned fault happens a limited number of times"""
        k = id(f)
        n = self.firings.get(k, 0)
        if n >= (f["m"] if f["iter"] is None else 1):
            return True
        self.firings[k] = n + 1
        return False

    def raise_fault(self, f, site, c):
        self.tokens += 1
        token = f"token<{self.tokens}>"
        exc = sut.EXC[f["exc"]](token)
        self.w.counts[f"fault: {f['exc']} in {site}"] += 1
        self.w.event("fault", site, f["exc"], c.id if c is not None else None)
        absorbed = isinstance(exc, Exception) and site in ("fwd", "like", "perturb")
        if absorbed and c is not None and c.in_iter:
            c.failed += 1
            kind = "ForwardException" if site == "fwd" else "UserFunctionException"
            c.fails[kind] += 1
            c.last_token = token
            if c.attempts and site != "perturb":
                c.attempts[-1].failed = True
            if c.failed >= 500:
                if f.get("span"):
                    self.w.fail("retry", f"chain {c.id}: {c.failed} attempts of iteration {c.n + 1} failed, although only one"
                                f" of the perturbations {self.perturbation_names} does")
                self.expect_exc.append(("exhausted", c.id, token))
        elif not absorbed:
            self.expect_exc.append((type(exc), c.id if c is not None else None, token))
        raise exc

    # ---- proposals and user functions

    def before_proposal(self, state, name):
        if self.w.stopping:
            raise Stop()
        c = self.ctx
        if c is None or not c.in_iter:
            self.w.fail("callbacks", "a proposal was made outside of any iteration")
            return None
        if c.failed + 1 > 500:
            self.w.fail("retry", f"chain {c.id}: attempt number {c.failed + 1} in one iteration")
        s = self.adapter.snap(state)
        if not self.adapter.same(s, c.cur):
            self.w.fail("integrity", f"chain {c.id}: the state proposed from is not the current state"
                        f" in iteration {c.n + 1}: {s} instead of {c.cur}")
        return s

    def after_proposal(self, state, before, out, name):
        if before is None:
            return
        c = self.ctx
        w = self.w
        ad = self.adapter
        try:
            new, ratio = out
        except (TypeError, ValueError):
            w.fail("ratio", f"{name} returned {out!r}")
            return
        after = ad.snap(state)
        if not ad.same(before, after):
            w.fail("integrity", f"chain {c.id}: {name} altered the state it proposes from: {before} became {after}")
        s = ad.snap(new)
        a = Attempt()
        a.name, a.new, a.ratio, a.failed = name, s, num(ratio), False
        a.noop = ad.same(before, s)
        a.moves = []
        a.obj = new if self.options.get("probe") else None
        c.attempts.append(a)
        w.event("propose", c.id, name, a.ratio, ad.floats(s))
        if ad.is_state and "problem" in self.spec:
            self.judge_ratio(c, a, before)
        if self.options.get("collide"):
            self.note_values(c, before, s)

    def note_values(self, c, old, new):
        """continuous values drawn by one chain must not be drawn by another one"""
        seen = set(self.adapter.floats(old))
        for v in self.adapter.floats(new):
            if v in seen or v == int(v):
                continue
            who = self.values.setdefault(v, c.id)
            if who != c.id:
                self.w.fail("isolation", f"chains {who} and {c.id} drew the same value {v!r}")

    def judge_ratio(self, c, a, old):
        w = self.w
        r = a.ratio
        if math.isnan(r):
            w.fail("ratio", f"{a.name} returned a log ratio of {r}")
            return
        try:
            ref, moves = self.adapter.log_ratio(old, a.new)
        except model.Mismatch as e:
            if r == -math.inf:
                return
            w.fail("ratio", f"{a.name} made an illegal move ({e}) from {old} to {a.new}")
            return
        a.moves = moves
        kinds = tuple(sorted({m[0] for m in moves}))
        w.mark("move", a.name.split("(")[0], kinds, r == -math.inf, len(moves))
        for m in kinds:
            w.counts["moves: " + m] += 1
        if r == -math.inf:
            w.counts["proposals out of the prior"] += 1
            if ref > -math.inf and not a.noop and not self.hidden_reason(moves):
                if not self.near_edge(a.new):
                    w.fail("ratio", f"{a.name} returned -inf for a move of log ratio {ref} from {old} to {a.new}")
            if a.noop and moves == []:
                if not self.noop_allowed(a, old):
                    w.fail("ratio", f"{a.name} refused a move that is possible from {old}")
            return
        if a.noop:
            if self.near_edge(a.new):
                return
            w.fail("ratio", f"{a.name} proposed the current state itself with log ratio {r}")
            return
        if ref == -math.inf:
            if not self.near_edge(a.new):
                w.fail("ratio", f"{a.name} returned {r} for a state outside of the prior: {a.new} from {old}")
            return
        if not abs(r - ref) <= 1e-7 * (1 + abs(ref)):
            w.fail("ratio", f"{a.name} ({', '.join(kinds)}) returned a log ratio of {r} instead of {ref}"
                   f" for the move from {old} to {a.new}")
        bad = self.adapter.problems(a.new)
        if bad:
            w.fail("valid", f"{a.name} proposed a state that is not valid: {bad[0]}")
        if self.kernel is not None:
            self.kernel.observe(old, a.new, moves)

    def hidden_reason(self, moves):
        """a change that is not visible in the state may have been out of bounds"""
        return any(m[0] == "value" for m in moves) and self.bounded_params()

    def bounded_params(self):
        def walk(sp):
            return any(walk(q) if q.is_space else q.kind in ("uniform", "tri", "expo") for q in sp.params)

        return any(walk(s) for s in self.adapter.problem.spaces.values())

    def noop_allowed(self, a, old):
        """an unchanged state with ratio -inf is right when some move is impossible"""
        if a.name.startswith("NoisePerturbation"):
            return True
        return self.impossible_move(a.name, old)

    def impossible_move(self, name, old):
        target = name[name.find("=") + 1: -1] if "=" in name else None

        def walk(sp, s):
            if sp.name == target:
                if sp.trans_d and s["n"] in (sp.nmin, sp.nmax):
                    return True
                if sp.has_sites or any(not q.is_space and q.kind in ("uniform", "tri", "expo") for q in sp.params):
                    return True
            return any(walk(q, x) for q in sp.params if q.is_space for x in s["p"][q.name])

        return target is None or any(walk(sp, old[k]) for k, sp in self.adapter.problem.spaces.items())

    def near_edge(self, plain):
        def walk(sp, s):
            pos = s["p"].get(model.SITES)
            for q in sp.params:
                for i, v in enumerate(s["p"][q.name]):
                    if q.is_space:
                        if walk(q, v):
                            return True
                    elif q.margin(v, pos[i] if pos is not None else None) < 1e-9 * (1 + abs(v)):
                        return True
            return False

        return any(walk(sp, plain[k]) for k, sp in self.adapter.problem.spaces.items())

    def on_user_state(self, state, s, who):
        if self.w.stopping:
            raise Stop()
        c = self.ctx
        if self.adapter.is_state:
            bad = self.adapter.problems(s)
            if bad:
                self.w.fail("valid", f"the {who} received a state that is not valid: {bad[0]}")
            if self.options.get("views", True):
                bad = self.adapter.views(state)
                if bad:
                    self.w.fail("views", f"the {who} received an inconsistent state: {bad[0]}")
        if c is not None and c.in_iter:
            ok = self.adapter.same(s, c.cur) or any(self.adapter.same(s, a.new) for a in c.attempts[-1:])
            if not ok:
                self.w.fail("like", f"chain {c.id}: the {who} received neither the current nor a proposed state: {s}")
            self.w.counts["calls of user functions"] += 1

    # ---- callbacks

    def n_callbacks(self, kind):
        return 1 + len([1 for k in range(self.extra_cb.get(kind, 0))])

    def first(self):
        return -1 if self.hooks else 0

    def after(self, kind, idx):
        """what comes after callback idx of a kind for a chain"""
        if idx + 1 < self.n_callbacks(kind):
            return (kind, idx + 1)
        return ("end" if kind == "begin" else "begin", self.first())

    def on_callback(self, kind, idx, sampler, args):
        w = self.w
        if w.stopping:
            raise Stop()
        w.counts["callbacks"] += 1
        if kind in ("begin", "end"):
            if len(args) != 1:
                w.fail("callbacks", f"a function on_{kind}_iteration was called with {len(args) + 1} arguments")
            chain = args[0]
            c = self.ctxs.get(chain.id)
            if c is None:
                w.fail("callbacks", f"a function on_{kind}_iteration was called with a chain of unknown id {chain.id}")
                return
            if c.next != (kind, idx):
                w.fail("callbacks", f"chain {c.id}, iteration {c.n + 1}: function {idx} of on_{kind}_iteration was called"
                       f" when function {c.next[1]} of on_{c.next[0]}_iteration was due")
            if self.phase != "advancing":
                w.fail("callbacks", f"function {idx} of on_{kind}_iteration was called while {self.phase}")
            c.next = self.after(kind, idx)
            if kind == "begin":
                if idx == self.first():
                    self.begin(c, chain)
            elif idx == self.first():
                self.end(c, chain)
            if idx >= 0:
                self.ended = c
                self.maybe_fail(kind, idx)
            return
        if kind == "init":
            if self.phase != "starting" or self.due != ("init", idx):
                w.fail("callbacks", f"function {idx} of on_initialize was called while {self.phase}, due was {self.due}")
            chains = args[0] if args else None
            ids = [x.id for x in chains] if chains is not None else None
            if ids != [x.id for x in self.inv.chains]:
                w.fail("callbacks", f"a function on_initialize received the chains {ids}")
            if idx + 1 < self.n_callbacks("init"):
                self.due = ("init", idx + 1)
            else:
                self.due = None
                self.phase = "advancing"
            self.started(chains)
        else:
            want = ("advanced", self.first()) if self.due is None else self.due
            if self.phase != "advancing" or want != ("advanced", idx):
                w.fail("callbacks", f"function {idx} of on_end_advance_chain was called while {self.phase}, due was {want}")
            if idx == self.first():
                self.advanced(sampler)
            self.due = ("advanced", idx + 1) if idx + 1 < self.n_callbacks("advanced") else None
        if idx >= 0:
            self.maybe_fail(kind, idx)

    # ---- life of a run

    def started(self, chains):
        """the temperatures after the initialization of the sampler"""
        for x in chains:
            c = self.ctxs[x.id]
            if self.sampler_kind == "pt":
                c.T = float(x.temperature)
            elif self.sampler_kind == "sa":
                c.T = x.temperature
            elif x.temperature != c.T:
                self.w.fail("temperature", f"chain {c.id}: temperature {x.temperature} instead of {c.T}"
                            " after initializing a sampler that does not change it")
                c.T = x.temperature
        if self.sampler_kind == "pt":
            s = self.run["sampler"]
            n = len(chains)
            n1 = min(n, max(2, int(n * s["unit"])))
            want = sorted(gen.ladder(n, n1, s["tmax"]))
            got = sorted(float(x.temperature) for x in chains)
            if not np.allclose(got, want, rtol=1e-9, atol=0):
                self.w.fail("temperature", f"the temperatures are {got} instead of {want}")
            if any(float(x.temperature) != 1.0 for x in chains if abs(x.temperature - 1) < 1e-6):
                self.w.fail("temperature", f"temperatures are not exactly 1: {got}")
        self.check_temperatures(chains)

    def check_temperatures(self, chains):
        for x in chains:
            c = self.ctxs[x.id]
            if x.temperature != c.T:
                self.w.fail("temperature", f"chain {c.id} has temperature {x.temperature} instead of {c.T}")
                c.T = x.temperature
            if self.adapter.is_state and x.current_state.temperature != x.temperature:
                self.w.fail("valid", f"chain {c.id} has temperature {x.temperature} but its current state"
                            f" {x.current_state.temperature}")

    def on_batch(self):
        """the tasks of a parallel batch are about to be submitted"""
        if self.run and self.run["backend"].get("k") == "proc":
            self.checkpoints.append({k: c.checkpoint() for k, c in self.ctxs.items()})

    def expected_temperature(self, c):
        if self.sampler_kind == "sa":
            b = self.run["burnin"]
            t0 = self.run["sampler"]["t0"]
            return t0 * math.exp(-math.log(t0) / b * c.n) if c.n < b else 1
        return c.T

    def begin(self, c, chain):
        w = self.w
        if w.streams:
            w.seed_globals("chain", c.id, c.n, self.spec.get("salt", 0))
        want = self.expected_temperature(c)
        if not math.isclose(chain.temperature, want, rel_tol=1e-9, abs_tol=0):
            w.fail("temperature", f"chain {c.id}: temperature {chain.temperature} instead of {want}"
                   f" in iteration {c.n + 1}")
        if want == 1 and chain.temperature != 1:
            w.fail("temperature", f"chain {c.id}: temperature {chain.temperature!r} instead of 1")
        c.T = chain.temperature
        self.check_temperatures([chain])
        self.compare(c, chain, f"at the beginning of iteration {c.n + 1}")
        c.in_iter = True
        c.attempts = []
        c.failed = 0
        c.stats_seen = stats_of(chain)
        self.judge_ledger_idle(c, c.stats_seen, "between two iterations")
        w.ctx = c
        c.begun = getattr(c, "begun", 0) + 1

    def compare(self, c, chain, when):
        """the chain holds what its mirror holds"""
        w = self.w
        s = self.adapter.snap(chain.current_state)
        if not self.adapter.same(s, c.cur):
            w.fail("integrity", f"chain {c.id}: the current state changed outside of an acceptance ({when}):"
                   f" {s} instead of {c.cur}")
            c.cur = s
        self.compare_counts(c, chain, when)

    def compare_counts(self, c, chain, when):
        w = self.w
        st = chain.statistics
        if chain.ith_iteration != c.n or st["n_proposed_models_total"] != c.n:
            w.fail("ledger", f"chain {c.id} explored {st['n_proposed_models_total']} models instead of {c.n} ({when})")
            w.fail("accounting", f"chain {c.id} counts {chain.ith_iteration} iterations instead of {c.n} ({when})")
        if st["n_accepted_models_total"] != c.acc:
            w.fail("ledger", f"chain {c.id} accepted {st['n_accepted_models_total']} models instead of {c.acc} ({when})")
            c.acc = st["n_accepted_models_total"]
        self.compare_exceptions(c, chain, when)

    def compare_exceptions(self, c, chain, when):
        got = {k: v for k, v in chain.statistics["exceptions"].items() if v}
        want = {k: v for k, v in c.fails.items() if v}
        if got != want:
            self.w.fail("ledger", f"chain {c.id} counts exceptions {got} instead of {want} ({when})")
            c.fails = Counter(got)

    def compare_saved(self, c, chain, full):
        """the saved samples: their lengths, and the last one or all of them"""
        w = self.w
        got = chain.saved_states
        if not self.adapter.is_dict_like():
            want = c.saved.get(None, [])
            if len(got) != len(want):
                w.fail("saved", f"chain {c.id} saved {len(got)} samples instead of {len(want)} after {c.n} iterations")
                return
            for i in range(len(want)) if full else range(max(0, len(want) - 1), len(want)):
                if not self.adapter.same_saved(want[i], got[i]):
                    tag = "samples" if full else "saved"
                    w.fail(tag, f"chain {c.id}: sample {i} is {got[i]} instead of {want[i]}")
            return
        keys = {k for k in got if len(got[k]) and not self.optional(k)}
        want_keys = {k for k, v in c.saved.items() if v}
        if keys != want_keys:
            extra, missing = sorted(keys - want_keys), sorted(want_keys - keys)
            for k in extra + missing:
                tag = "dpred" if self.is_dpred(k) else "saved"
                w.fail(tag, f"chain {c.id}: saved samples {'lack' if k in missing else 'have'} {k!r}"
                       f" after {c.n} iterations")
        for k, want in c.saved.items():
            tag = "dpred" if self.is_dpred(k) else "saved"
            g = got.get(k, [])
            if len(g) != len(want):
                w.fail(tag, f"chain {c.id}: {len(g)} values of {k!r} saved instead of {len(want)}"
                       f" after {c.n} iterations")
                continue
            for i in range(len(want)) if full else range(max(0, len(want) - 1), len(want)):
                if not same_value(want[i], g[i]):
                    w.fail("samples" if full and i < len(want) - 1 and tag == "saved" else tag,
                           f"chain {c.id}: value {i} of {k!r} saved is {g[i]} instead of {want[i]}")

    def optional(self, k):
        return self.adapter.optional(k)

    def is_dpred(self, k):
        return self.adapter.is_dpred(k)

    def end(self, c, chain):
        """an iteration is over"""
        w = self.w
        w.ctx = None
        if w.streams:
            w.seed_globals("main", c.n, self.spec.get("salt", 0))
        if not c.in_iter:
            w.fail("callbacks", f"chain {c.id}: an iteration ended that had not begun")
            return
        c.in_iter = False
        c.n += 1
        w.counts["iterations"] += 1
        ad = self.adapter
        live = [a for a in c.attempts if not a.failed]
        s = ad.snap(chain.current_state)
        st = chain.statistics
        if not live:
            w.fail("retry", f"chain {c.id}: iteration {c.n} ended without a successful attempt")
            live = c.attempts
            if not live:
                c.cur = s
                return
        if len(live) > 1:
            w.fail("retry", f"chain {c.id}: {len(live)} successful proposals in one iteration")
        a = live[-1]
        said = st["n_accepted_models_total"] - c.acc
        if a.noop:
            accepted = said == 1
            if not ad.same(s, c.cur):
                w.fail("integrity", f"chain {c.id}: the current state is {s} instead of {c.cur}")
        elif ad.same(s, a.new):
            accepted = True
        elif ad.same(s, c.cur):
            accepted = False
        else:
            w.fail("integrity", f"chain {c.id}: after iteration {c.n} the current state {s} is neither the"
                   f" previous one {c.cur} nor the proposed one {a.new}")
            accepted = said == 1
        self.judge_decision(c, a, accepted)
        w.event("end", c.id, c.n, accepted, c.T)
        c.cur = s
        c.acc += accepted
        if ad.is_state:
            if chain.current_state.temperature != chain.temperature:
                w.fail("valid", f"chain {c.id}: the current state has temperature {chain.current_state.temperature}"
                       f" instead of {chain.temperature}")
            bad = ad.problems(s)
            if bad:
                w.fail("valid", f"chain {c.id}: the current state is not valid: {bad[0]}")
            if self.options.get("views", True):
                bad = ad.views(chain.current_state)
                if bad:
                    w.fail("views", f"chain {c.id}: the current state is not consistent: {bad[0]}")
        if self.options.get("select"):
            self.judge_choice(c, chain, a)
        # ledger
        p = c.prop.setdefault(a.name, [0, 0])
        p[0] += 1
        p[1] += accepted
        self.judge_ledger(c, chain, a, accepted)
        c.stats_end, c.stats_end_n = stats_of(chain), c.n
        self.compare_counts(c, chain, f"after iteration {c.n}")
        # samples
        r = self.run
        if c.T == 1 and c.n > r["burnin"] and (c.n - r["burnin"]) % r["save_every"] == 0:
            w.counts["samples saved"] += 1
            for k, v in ad.saved(s, self.spec.get("save_dpred", True)).items():
                c.saved.setdefault(k, []).append(v)
        self.compare_saved(c, chain, full=False)
        if self.options.get("probe") and c.n % self.options["probe"] == 0:
            self.probe(c, chain, a)

    def log_alpha(self, c, a):
        lo, hi = self.adapter.loglike(c.cur), self.adapter.loglike(a.new)
        return lo, hi, (hi - lo) / c.T

    def judge_decision(self, c, a, accepted):
        w = self.w
        r = a.ratio
        what = f"chain {c.id}, iteration {c.n}: {a.name}"
        if r == -math.inf or math.isnan(r):
            if accepted:
                w.fail("accept", f"{what}: a proposal of log ratio {r} was accepted")
            return
        lo, hi, l = self.log_alpha(c, a)
        x = r + l
        tol = 1e-9 * (1 + abs(r) + (abs(lo) + abs(hi)) / c.T if math.isfinite(l) else 1)
        if math.isnan(x) or x == -math.inf:
            if accepted:
                w.fail("accept", f"{what}: a proposal of log probability {x} was accepted")
            return
        if x >= tol:
            if not accepted:
                w.fail("accept", f"{what}: a proposal of log probability {x} (log ratio {r}, log likelihoods"
                       f" {lo} -> {hi}, temperature {c.T}) was rejected")
            return
        if x < -SURE - tol and accepted:
            w.fail("accept", f"{what}: a proposal of log probability {x} (log ratio {r}, log likelihoods"
                   f" {lo} -> {hi}, temperature {c.T}) was accepted")
        if abs(x) < tol:
            return
        if self.options.get("calibrate"):
            p = math.exp(x)
            b = self.stats.bernoulli
            b("all", accepted, p)
            b("ratio", accepted, p, math.tanh(r))
            b("like", accepted, p, math.tanh(l))
            b("low", accepted, p, 1.0 if p < 0.3 else 0.0)
            b("high", accepted, p, 1.0 if p > 0.7 else 0.0)
            b("tempered", accepted, p, 1.0 if c.T != 1 else 0.0)
            b("after", accepted, p, c.resid)
            b("after other", accepted, p, self.resid_all)
            other = self.ctxs[self.order[self.order.index(c.id) - 1]]
            b("other chain", accepted, p, getattr(other, "resid_at", {}).get(c.n, 0.0) if other is not c else 0.0)
            c.resid = self.resid_all = (1.0 if accepted else 0.0) - p
            if not hasattr(c, "resid_at"):
                c.resid_at = {}
            c.resid_at[c.n] = c.resid

    def judge_ledger(self, c, chain, a, accepted):
        w = self.w
        old, new = c.stats_seen, stats_of(chain)
        for which, inc in (("n_proposed_models", 1), ("n_accepted_models", 1 if accepted else 0)):
            for k in set(old[which]) | set(new[which]):
                d = total(new[which].get(k, 0)) - total(old[which].get(k, 0))
                want = inc if k == a.name else 0
                if not math.isclose(d, want, abs_tol=1e-6):
                    w.fail("ledger", f"chain {c.id}, iteration {c.n}: {which}[{k!r}] grew by {d} instead of {want}"
                           f" when {a.name} was {'accepted' if accepted else 'rejected'}")
        sub = new["n_proposed_models"].get(a.name)
        if isinstance(sub, dict):
            olds = old["n_proposed_models"].get(a.name, {})
            olds = olds if isinstance(olds, dict) else {}
            grew = [k for k in sub if sub[k] - olds.get(k, 0) > 1e-9]
            subacc = new["n_accepted_models"].get(a.name, {})
            oldacc = old["n_accepted_models"].get(a.name, {})
            oldacc = oldacc if isinstance(oldacc, dict) else {}
            gacc = [k for k in subacc if subacc[k] - oldacc.get(k, 0) > 1e-9]
            if accepted and gacc != grew or (not accepted and gacc):
                w.fail("ledger", f"chain {c.id}: sub-perturbations proposed {grew}, accepted {gacc},"
                       f" but the proposal was {'accepted' if accepted else 'rejected'}")
            self.judge_kind(a, grew)

    def judge_ledger_idle(self, c, new, when):
        """nothing is counted, forgotten or renamed outside of iterations"""
        old = c.stats_end
        if old is None or c.stats_end_n != c.n:
            return
        for which in old:
            for k, v in old[which].items():
                u = new[which].get(k)
                ok = u == v if not isinstance(v, dict) else isinstance(u, dict) and all(u.get(x) == y for x, y in v.items())
                if not ok or not math.isclose(total(u), total(v)):
                    self.w.fail("ledger", f"chain {c.id}: {which}[{k!r}] was {v} and became {u} {when}")
            for k, u in new[which].items():
                if k not in old[which] and total(u):
                    self.w.fail("ledger", f"chain {c.id}: {which}[{k!r}] appeared with {u} {when}")

    def judge_choice(self, c, chain, a):
        """perturbations are chosen with the weights declared"""
        names, weights = self.declared_weights(chain)
        have = [f.__name__ for f, x in zip(chain.perturbation_funcs, chain.perturbation_weights) if x]
        if sorted(names) != sorted(have):
            self.w.fail("select", f"the perturbations of chain {c.id} are {have} instead of {names}")
            return
        kern.Kernel.chosen(self, names, weights, a.name)

    def declared_weights(self, chain):
        if "base" in self.spec:
            b = self.spec["base"]
            return [p["name"] for p in b["perturbs"]], b.get("weights") or [1] * len(b["perturbs"])
        names, weights = [], []

        def walk(sp):
            w = sum(kern.Kernel.sub_weights(self, sp).values())
            if w:
                names.append(f"ParamSpacePerturbation(param_space_name={sp.name})")
                weights.append(w)
            for q in sp.params:
                if q.is_space:
                    walk(q)

        for sp in self.adapter.problem.spaces.values():
            walk(sp)
        if any(t.hier for t in self.adapter.declared()):
            noise = [f.__name__ for f, x in zip(chain.perturbation_funcs, chain.perturbation_weights)
                     if x and f.__name__ not in names]
            names.append(noise[0] if len(noise) == 1 else "the noise")
            weights.append(1)
        return names, weights

    def close_kernel(self):
        if self.kernel is None:
            return
        spaces, kinds = {}, {}

        def walk(sp):
            spaces[f"ParamSpacePerturbation(param_space_name={sp.name})"] = sp
            for q in sp.params:
                if q.is_space:
                    walk(q)

        for sp in self.adapter.problem.spaces.values():
            walk(sp)
        for name in spaces:
            kinds = {k[2]: v for k, v in self.kinds.items() if len(k) == 3 and k[0] == name}
            sub = {name: self.kernel.subs[name]} if name in self.kernel.subs else {}
            k2 = kern.Kernel(self.stats, None, None)
            k2.subs = sub
            k2.close(kinds, spaces)

    def judge_kind(self, a, grew):
        """the sub-perturbation counted is the one that was made: each kind of move has
        a name of its own, always the same"""
        kinds = {m[0] for m in a.moves}
        if self.kernel is not None and len(grew) == 1:
            self.kernel.sub_chosen(a.name, grew[0])
        if len(grew) != 1 or len(kinds) != 1:
            return
        kind = kinds.pop()
        for key, value in (((a.name, kind), grew[0]), ((a.name, "is", grew[0]), kind)):
            if self.kinds.setdefault(key, value) != value:
                self.w.fail("ledger", f"{a.name}: a {kind} was counted as {grew[0]}, but before {key} was {self.kinds[key]}")

    def probe(self, c, chain, a):
        """the likelihood ratio of any two states is right at any moment"""
        w = self.w
        ad = self.adapter
        ll = chain.log_likelihood
        rng = w.sched
        pool = [(chain.current_state, c.cur)]
        if a.obj is not None and a.ratio > -math.inf:
            pool.append((a.obj, a.new))
        pool += c.history[-4:]
        if ad.is_state:
            fresh = ad.fresh(c.cur)
            if "problem" in self.spec:
                fresh.temperature = rng.choice([1, 3.0, 0.5])
            pool.append((fresh, c.cur))
        if a.obj is not None and a.ratio > -math.inf and rng.random() < 0.3:
            c.history.append((a.obj, a.new))
            del c.history[:-6]
        (x, sx), (y, sy) = rng.choice(pool), rng.choice(pool)
        t = rng.choice([1, c.T, 2.5, 7])
        lx, ly = ad.loglike(sx), ad.loglike(sy)
        want = (ly - lx) / t
        got = num(ll.log_likelihood_ratio(x, y, t))
        w.counts["likelihood ratios probed"] += 1
        if math.isnan(want) and math.isnan(got):
            return
        if not math.isclose(got, want, rel_tol=1e-7, abs_tol=1e-8 * (1 + abs(lx) + abs(ly))):
            w.fail("like", f"log likelihood ratio {got} instead of {want} (temperature {t}) between {sx} and {sy}")

    def advanced(self, sampler):
        """a batch is over, and the swaps, if any, are done"""
        w = self.w
        self.batch_no += 1
        chains = sampler.chains
        if [x.id for x in chains] != self.order:
            w.fail("isolation", f"the chains are {[x.id for x in chains]} instead of {self.order}")
        for x in chains:
            c = self.ctxs[x.id]
            if c.in_iter:
                w.fail("callbacks", f"a batch ended while chain {c.id} was in an iteration")
        if len({self.ctxs[x.id].n - self.base_n[x.id] for x in chains}) != 1:
            w.fail("accounting", "the chains advanced by different numbers of iterations:"
                   f" {[self.ctxs[x.id].n - self.base_n[x.id] for x in chains]}")
        temps = [x.temperature for x in chains]
        mirror = [self.ctxs[x.id].T for x in chains]
        if self.sampler_kind == "pt":
            if sorted(temps) != sorted(mirror):
                w.fail("temperature", f"the temperatures {sorted(mirror)} became {sorted(temps)}")
            if temps != mirror:
                w.counts["batches with swapped temperatures"] += 1
            w.event("temperatures", temps)
            if self.options.get("swaps"):
                self.judge_swaps(mirror, temps)
            done = self.ctxs[self.order[0]].n - self.base_n[self.order[0]]
            every = self.run["sampler"]["every"]
            size = done - self.done
            if size != min(every, self.run["n"] - self.done):
                w.fail("swap", f"temperatures were swapped after {size} iterations instead of {every}")
            self.done = done
        elif temps != mirror:
            w.fail("temperature", f"the temperatures {mirror} became {temps}")
        for x in chains:
            c = self.ctxs[x.id]
            c.T = x.temperature
            if self.run["backend"].get("k") == "proc":
                pass
            self.compare(c, x, "after a batch of iterations")
            self.check_temperatures([x])
        w.counts["batches"] += 1

    def judge_swaps(self, before, after):
        """as many swaps as chains, each between two chains chosen uniformly, accepted with
        the probability of detailed balance: the exact distribution of the temperatures"""
        w = self.w
        n = len(before)
        ll = [self.adapter.loglike(self.ctxs[i].cur) for i in self.order]
        if not all(math.isfinite(x) for x in ll):
            return
        pairs = [(i, j) for i in range(n) for j in range(i)]
        dist = {tuple(before): 1.0}
        for _ in range(n):
            nxt = {}
            for t, p in dist.items():
                for i, j in pairs:
                    x = (1 / t[i] - 1 / t[j]) * (ll[j] - ll[i])
                    a = 1.0 if x >= 0 else math.exp(x)
                    q = p / len(pairs)
                    nxt[t] = nxt.get(t, 0.0) + q * (1 - a)
                    if a > 0:
                        u = list(t)
                        u[i], u[j] = u[j], u[i]
                        u = tuple(u)
                        nxt[u] = nxt.get(u, 0.0) + q * a
            dist = nxt
        p = dist.get(tuple(after), 0.0)
        if p < 1e-13:
            w.fail("swap", f"the temperatures {before} became {after}, which has probability {p:.3g}"
                   f" with log likelihoods {ll}")
            return
        w.mark("swap", before, after)
        b = self.stats.bernoulli
        b("swap: none", list(before) == list(after), dist.get(tuple(before), 0.0))
        cold = [k for k in range(n) if before[k] == 1]
        for i in range(n):
            for t in sorted(set(before)):
                b(f"swap: chain {i} gets the temperature of rank {sorted(set(before)).index(t)}", after[i] == t,
                  sum(q for u, q in dist.items() if u[i] == t))
        hi = max(range(n), key=lambda k: ll[k])
        b("swap: the likeliest is cold", after[hi] == 1, sum(q for u, q in dist.items() if u[hi] == 1))
        t = before[hi]
        b("swap: the likeliest is moved", after[hi] != t, sum(q for u, q in dist.items() if u[hi] != t))
        if cold:
            b("swap: the first cold one stays", after[cold[0]] == 1, sum(q for u, q in dist.items() if u[cold[0]] == 1))

    # ---- after a run

    def idle_check(self, inv, when):
        """all that the chains hold, once the run is over"""
        w = self.w
        ids = [x.id for x in inv.chains]
        if ids != self.order:
            w.fail("isolation", f"the chains are {ids} instead of {self.order} {when}")
        objs = [id(x) for x in inv.chains]
        if len(set(objs)) != len(objs):
            w.fail("isolation", f"the same chain object appears twice {when}")
        for x in inv.chains:
            c = self.ctxs[x.id]
            self.compare(c, x, when)
            if x.temperature != c.T:
                w.fail("temperature", f"chain {c.id} has temperature {x.temperature} instead of {c.T} {when}")
            self.compare_saved(c, x, full=True)
            if self.adapter.is_state:
                bad = self.adapter.problems(self.adapter.snap(x.current_state))
                if bad:
                    w.fail("valid", f"the current state of chain {c.id} is not valid {when}: {bad[0]}")
            self.check_sums(c, x)
            self.judge_ledger_idle(c, stats_of(x), when)

    def check_sums(self, c, x):
        for which, n in (("n_proposed_models", c.n), ("n_accepted_models", c.acc)):
            t = sum(total(v) for v in x.statistics[which].values())
            if not math.isclose(t, n, abs_tol=1e-6 * (1 + n)):
                self.w.fail("ledger", f"chain {c.id}: {which} sum to {t} instead of {n}")
            for name, p in c.prop.items():
                want = p[0] if which == "n_proposed_models" else p[1]
                got = total(x.statistics[which].get(name, 0))
                if not math.isclose(got, want, abs_tol=1e-6 * (1 + n)):
                    self.w.fail("ledger", f"chain {c.id}: {which}[{name!r}] is {got} instead of {want}")

    def check_results(self, inv, keys=None, concat=True):
        w = self.w
        w.counts["get_results"] += 1
        res = inv.get_results(keys=keys, concatenate_chains=concat)
        ad = self.adapter
        per_chain = [self.ctxs[x.id].saved for x in inv.chains]
        if not ad.is_dict_like():
            want = [p.get(None, []) for p in per_chain]
            flat = [v for p in want for v in p] if concat else want
            ok = len(res) == len(flat) and all(
                ad.same_saved(a, b) if concat else
                (len(a) == len(b) and all(ad.same_saved(x, y) for x, y in zip(a, b)))
                for a, b in zip(flat, res))
            if not ok:
                w.fail("results", f"get_results(concatenate_chains={concat}) returned {short(res)} instead of {short(flat)}")
            return res
        want = {}
        sel = None if keys is None else ([keys] if isinstance(keys, str) else list(keys))
        for p in per_chain:
            for k, v in p.items():
                if sel is None or k in sel:
                    if concat:
                        want.setdefault(k, []).extend(v)
                    else:
                        want.setdefault(k, []).append(v)
        got = {k: v for k, v in res.items() if not self.optional(k) and (len(v) if concat else any(len(x) for x in v))}
        want = {k: v for k, v in want.items() if (len(v) if concat else any(len(x) for x in v))}
        if set(got) != set(want):
            w.fail("results", f"get_results({keys!r}) returned the keys {sorted(got)} instead of {sorted(want)}")
        for k, v in want.items():
            if concat:
                ok = same_value(v, got.get(k))
            else:
                g = got.get(k, [])
                g = [x for x in g if len(x)] if len(g) != len(v) else g
                ok = same_value([x for x in v if len(x)] if len(g) != len(v) else v, g)
            if not ok:
                w.fail("results", f"get_results({keys!r}, concatenate_chains={concat})[{k!r}] is {short(got.get(k))}"
                       f" instead of {short(v)}")
        return res


def short(x):
    t = repr(x)
    return t if len(t) < 500 else t[:500] + "..."


def total(v):
    return sum(v.values()) if isinstance(v, dict) else v


def stats_of(chain):
    """a copy of the statistics"""
    st = chain.statistics
    return {
        k: {kk: (dict(vv) if isinstance(vv, dict) else vv) for kk, vv in st[k].items()}
        for k in ("n_proposed_models", "n_accepted_models")
    }
