"""Builds an inversion from a spec and executes its plan under the observer."""
import contextlib
import hashlib
import io
import math
import sys
import traceback

import numpy as np

from . import engine, kernel, model, sut
from .engine import BasePerturb, Callback, Observer, batched_sampler, hooked, short, spy_class
from .kernel import Stop, World

SITE_CALLBACKS = ("init", "begin", "end", "advanced")


class Stdout(io.StringIO):
    """standard output of a run; writing to it may fail"""

    def __init__(self, observer):
        super().__init__()
        self.o = observer

    def write(self, text):
        if self.o.phase == "advancing":
            self.o.maybe_fail("print")
        return len(text)


class Driver:
    def __init__(self, spec, accept, record=False):
        self.spec = spec
        self.w = World(spec["seed"], accept, record)
        self.inv = None
        self.samplers = []
        self.outcomes = []

    # ---- whole simulation

    def execute(self):
        w = self.w
        kernel.set_world(w)
        spec = self.spec
        w.streams = spec.get("streams", True)
        self.o = o = Observer(w, spec)
        w.observer = o
        w.on_batch = o.on_batch
        real = sys.stdout
        try:
            sys.stdout = Stdout(o)
            o.phase = "building"
            w.seed_globals("build", spec.get("salt", 0))
            self.build()
            o.phase = "idle"
            for i, op in enumerate(spec["plan"]):
                w.event("op", i, op["op"])
                if op["op"] != "run" and not spec.get("one_seed"):
                    w.seed_globals("op", i, op["op"], spec.get("salt", 0))
                getattr(self, "op_" + op["op"])(op)
            self.finish()
        except Stop:
            pass
        except kernel.HarnessError:
            raise
        except BaseException as e:  # noqa: B902
            sys.stdout = real
            if isinstance(e, KeyboardInterrupt) and "token" not in str(e):
                raise
            with contextlib.suppress(Stop):
                w.fail("crash", f"{type(e).__name__}: {e}\n" + "".join(traceback.format_exception(e)[-12:]))
        finally:
            sys.stdout = real
            kernel.set_world(None)
        return w

    # ---- building

    def build(self):
        bb = sut.bb
        spec, o, w = self.spec, self.o, self.w
        n = spec["n_chains"]
        if "problem" in spec:
            p = spec["problem"]
            early = [t for t in p["targets"] if not t.get("late")]
            o.adapter.targets = [t for t in o.adapter.problem.targets if not t.spec.get("late")]
            form = p.get("like", "targets")
            if form == "targets":
                like = bb.likelihood.LogLikelihood(
                    targets=[sut.build_target(t) for t in early], fwd_functions=[self.fwd(t) for t in early])
            elif form == "targets+like":
                like = bb.likelihood.LogLikelihood(
                    targets=[sut.build_target(t) for t in early], log_like_func=sut.LogLike(0))
            elif form == "like":
                like = bb.likelihood.LogLikelihood(log_like_func=sut.LogLike(0))
            else:
                like = bb.likelihood.LogLikelihood(log_like_ratio_func=sut.LogLikeRatio(0))
            spaces = [sut.build_space(s) for s in p["spaces"]]
            par = bb.parameterization.Parameterization(spaces if len(spaces) > 1 else spaces[0])
            self.like = like
            if spec.get("api") == "base":
                states = []
                for i in range(n):
                    s = par.initialize()
                    like.initialize(s)
                    states.append(s)
                funcs = par.perturbation_funcs + like.perturbation_funcs
                weights = list(par.perturbation_weights) + list(like.perturbation_weights)
                self.inv = bb.BaseBayesianInversion(
                    states, funcs, weights, log_like_ratio_func=like, n_chains=n,
                    save_dpred=spec.get("save_dpred", True))
            else:
                self.inv = bb.BayesianInversion(
                    par, like, n_chains=n, save_dpred=spec.get("save_dpred", True))
            self.spy()
        else:
            b = spec["base"]
            rng = np.random.default_rng(kernel.derive(spec["seed"], "x0"))
            states = [o.adapter.make(o.adapter.sample_prior(rng)) for _ in range(n)]
            funcs = [self.with_args(BasePerturb(q, i), q.get("args")) for i, q in enumerate(b["perturbs"])]
            kw = {"n_chains": n}
            if b.get("weights") is not None:
                kw["perturbation_weights"] = list(b["weights"])
            f = sut.LogLike(0) if b["form"] in ("like", "ll_like") else sut.LogLikeRatio(0)
            f = self.with_args(f, b.get("like_args"))
            key = "log_like_func" if b["form"] in ("like", "ll_like") else "log_like_ratio_func"
            if b["form"].startswith("ll_"):
                kw["log_like_ratio_func"] = bb.likelihood.LogLikelihood(**{key: f})
            else:
                kw[key] = f
            self.inv = bb.BaseBayesianInversion(states, funcs, **kw)
            self.like = self.inv.chains[0].log_likelihood
        inv = self.inv
        o.inv = inv
        o.perturbation_names = sorted({f.__name__ for f, x in zip(inv.perturbation_funcs, inv.chains[0].perturbation_weights)
                                       if x} if "problem" in spec else {q["name"] for q in b["perturbs"]})
        o.order = [c.id for c in inv.chains]
        if len(inv.chains) != n or len(set(o.order)) != n:
            w.fail("isolation", f"{n} chains were asked for, their ids are {o.order}")
        for c in inv.chains:
            o.ctxs[c.id] = m = engine.Ctx(c.id)
            m.cur = o.adapter.snap(c.current_state)
            m.T = c.temperature
            if m.T != 1:
                w.fail("temperature", f"chain {c.id} starts with temperature {m.T}")
            if o.adapter.is_state:
                bad = o.adapter.problems(m.cur) or o.adapter.views(c.current_state)
                if bad:
                    w.fail("valid", f"the initial state of chain {c.id} is not valid: {bad[0]}")
                    w.fail("init", f"the initial state of chain {c.id} is not valid: {bad[0]}")
        if spec.get("start") == "prior":
            rng = np.random.default_rng(kernel.derive(spec["seed"], "x0"))
            for c in inv.chains:
                plain = o.adapter.problem.sample_prior(rng)
                for t in o.adapter.problem.targets:
                    if t.hier and t not in o.adapter.declared():
                        del plain[t.name]
                c.current_state = sut.to_state(plain, o.adapter.problem.spaces, c.temperature)
                o.ctxs[c.id].cur = plain
        w.event("built", [o.adapter.floats(o.ctxs[i].cur) for i in o.order])

    def fwd(self, t):
        return self.with_args(sut.Forward(t), t["fwd"].get("args"))

    @staticmethod
    def with_args(f, args):
        if args is None:
            return f
        a, kw = args
        if a and kw:
            return (f, a, kw)
        return (f, kw) if kw else (f, a)

    def spy(self):
        for f in self.inv.perturbation_funcs:
            if isinstance(f, sut.bb.perturbations.Perturbation) and not type(f).__dict__.get("_is_spy"):
                f.__class__ = spy_class(type(f))

    # ---- operations

    def make_sampler(self, op):
        bb = sut.bb
        s = op["sampler"]
        k = s["k"]
        if op.get("reuse") and self.samplers and self.samplers[-1][0] == s:
            return self.samplers[-1][1]
        if k == "default":
            sampler = None
        else:
            cls = {"vanilla": bb.samplers.VanillaSampler, "pt": bb.samplers.ParallelTempering,
                   "sa": bb.samplers.SimulatedAnnealing, "batched": None}[k] if k != "batched" else batched_sampler()
            if self.o.hooks:
                cls = hooked(cls)
            if k == "vanilla":
                sampler = cls()
            elif k == "pt":
                sampler = cls(temperature_max=s["tmax"], chains_with_unit_temperature=s["unit"], swap_every=s["every"])
            elif k == "sa":
                sampler = cls(temperature_start=s["t0"])
            else:
                sampler = cls(s["sizes"])
            o = self.o
            for kind, add in (("init", sampler.add_on_initialize), ("begin", sampler.add_on_begin_iteration),
                              ("end", sampler.add_on_end_iteration), ("advanced", sampler.add_on_end_advance_chain)):
                for i in range(o.n_callbacks(kind)):
                    add(Callback(kind, i))
        self.samplers.append((s, sampler))
        return sampler

    def op_run(self, op):
        o, w, inv = self.o, self.w, self.inv
        s = op["sampler"]
        sampler = self.make_sampler(op)
        be = op.get("backend", {"k": "serial"})
        o.run_no += 1
        o.run = {"sampler": s, "n": op["n"], "burnin": op["burnin"], "save_every": op["save_every"], "backend": be}
        o.sampler_kind = s["k"]
        o.base_n = {i: o.ctxs[i].n for i in o.order}
        o.done = 0
        o.batch_no = 0
        o.checkpoints = []
        o.expect_exc = []
        o.stopped_batch = None
        for c in o.ctxs.values():
            c.next = ("begin", o.first())
            c.in_iter = False
        o.phase = "starting"
        o.due = ("init", o.first())
        w.backend_spec = be
        w.tasks = 0
        w.dead = False
        if not self.spec.get("one_seed"):
            w.seed_globals("main", o.ctxs[o.order[0]].n, self.spec.get("salt", 0))
        w.counts["runs"] += 1
        w.counts["runs: " + s["k"]] += 1
        w.counts["backend: " + be["k"]] += 1
        w.mark("run", s["k"], be["k"], op["verbose"], o.run_no, len(o.order), op["burnin"] == 0)
        kw = dict(n_iterations=op["n"], burnin_iterations=op["burnin"], save_every=op["save_every"],
                  verbose=op["verbose"], print_every=op["print_every"],
                  parallel_config=kernel.parallel_config(be))
        exc = None
        try:
            inv.run(sampler, **kw)
        except Stop:
            raise
        except BaseException as e:
            exc = e
        w.ctx = None
        o.phase = "idle"
        if w.violation is not None:
            raise Stop()
        wants = list(o.expect_exc)
        if w.dead:
            wants.append(("worker", None, None))
        w.event("run over", type(exc).__name__ if exc is not None else None)
        if exc is None:
            for want in wants:
                w.fail("resume" if want[0] != "exhausted" else "retry",
                       f"run() returned although {want} happened in it")
            self.run_completed(op)
        else:
            self.run_failed(op, exc, wants)

    def run_completed(self, op):
        o, w, inv = self.o, self.w, self.inv
        if [c.id for c in inv.chains] != o.order:
            w.fail("isolation", f"the chains are {[c.id for c in inv.chains]} instead of {o.order}")
        for c in inv.chains:
            m = o.ctxs[c.id]
            if m.n - o.base_n[c.id] != op["n"]:
                w.fail("accounting", f"chain {c.id} advanced by {m.n - o.base_n[c.id]} iterations instead of {op['n']}")
            if m.next != ("begin", o.first()) and op["n"]:
                w.fail("callbacks", f"chain {c.id}: function {m.next[1]} of on_{m.next[0]}_iteration was not called"
                       " before the end of the run")
        if o.due is not None:
            w.fail("callbacks", f"function {o.due[1]} of {o.due[0]} was not called before the end of the run")
        batches = self.expected_batches(op)
        if batches is not None and o.batch_no != batches:
            w.fail("callbacks", f"{o.batch_no} batches of iterations were reported instead of {batches}")
            if op["sampler"]["k"] == "pt":
                w.fail("swap", f"temperatures were swapped {o.batch_no} times instead of {batches}")
        o.idle_check(inv, "after the run")
        self.note_outcome()

    def expected_batches(self, op):
        s, n = op["sampler"], op["n"]
        if s["k"] == "pt":
            return math.ceil(n / s["every"])
        if s["k"] == "batched":
            k, left = 0, n
            while left > 0:
                left -= s["sizes"][k % len(s["sizes"])]
                k += 1
            return k
        return 1

    def run_failed(self, op, exc, wants):
        o, w, inv = self.o, self.w, self.inv
        w.counts["runs that failed"] += 1
        text = "".join(traceback.format_exception(exc))
        ok = False
        for want in wants:
            if want[0] == "exhausted":
                hit = type(exc) is RuntimeError and str(want[1]) in str(exc)
                if hit and want[2] not in text and op["backend"]["k"] != "proc":
                    w.fail("retry", f"the RuntimeError raised after 500 failures lacks its cause {want[2]}: {text[-1500:]}")
            elif want[0] == "worker":
                hit = isinstance(exc, kernel.WorkerDied)
            else:
                hit = isinstance(exc, want[0]) and want[2] in text
            ok = ok or hit
        if not ok:
            for want in wants:
                w.fail("retry" if want[0] == "exhausted" else "resume",
                       f"run() raised {type(exc).__name__}: {exc} instead of {want}\n{text[-2000:]}")
            w.fail("crash", f"run() raised {type(exc).__name__}: {exc}\n{text[-3000:]}")
        for c in o.ctxs.values():
            c.in_iter = False
            c.attempts = []
        try:
            chains = list(inv.chains)
        except Exception as e:
            w.fail("resume", f"the chains are not available after a failed run: {e}")
            raise Stop()
        if [c.id for c in chains] != o.order:
            w.fail("resume", f"after a failed run the chains are {[c.id for c in chains]} instead of {o.order}")
            raise Stop()
        if op["backend"]["k"] == "proc":
            cands = [dict(o.ctxs)] + [k for k in reversed(o.checkpoints)]
            fit = [k for k in cands if all(self.matches(c, k[c.id]) for c in chains)]
            exact = [k for k in fit if all(
                {x: v for x, v in c.statistics["exceptions"].items() if v} == {x: v for x, v in k[c.id].fails.items() if v}
                for c in chains)]
            if fit:
                cand = (exact or fit)[0]
            else:
                w.fail("resume", "after a failed run the chains are not those of any completed batch: "
                       + short([(c.id, c.ith_iteration, c.statistics["n_accepted_models_total"]) for c in chains])
                       + " instead of one of "
                       + short([[(k.id, k.n, k.acc) for k in cand.values()] for cand in cands]))
                raise Stop()
            o.ctxs = {k: (c if c is o.ctxs[k] else c.checkpoint()) for k, c in cand.items()}
        for c in chains:
            m = o.ctxs[c.id]
            m.in_iter = False
            if o.sampler_kind in ("pt", "sa") or math.isclose(c.temperature, m.T):
                m.T = c.temperature
        w.accept_alias = True
        o.idle_check(inv, "after a failed run")
        self.note_outcome()

    def matches(self, chain, m):
        o = self.o
        return (chain.ith_iteration == m.n and chain.statistics["n_accepted_models_total"] == m.acc
                and o.adapter.same(o.adapter.snap(chain.current_state), m.cur)
                and all(len(chain.saved_states.get(k, [])) == len(v) for k, v in m.saved.items() if k is not None))

    def op_results(self, op):
        o = self.o
        keys = op.get("keys")
        if keys == "some":
            names = sorted({k for c in o.ctxs.values() for k in c.saved if k is not None})
            rng = o.w.sched
            pick = [k for k in names if rng.random() < 0.5]
            keys = pick[0] if len(pick) == 1 else pick + ["no such key"]
        a = o.check_results(self.inv, keys, op["concat"])
        if op.get("vandal", True) and op["concat"]:
            # what the user does with the lists returned is no business of the inversion
            for v in (a.values() if isinstance(a, dict) else [a]):
                if isinstance(v, list):
                    v.append(None)
        o.check_results(self.inv, keys, not op["concat"])
        o.check_results(self.inv, keys, op["concat"])
        if op.get("static", True):
            res = self.inv.get_results_from_chains(self.inv.chains[0], None, True)
            c = o.ctxs[self.inv.chains[0].id]
            if isinstance(res, dict):
                for k, v in c.saved.items():
                    if len(v) and not sut.same_value(v, res.get(k)):
                        o.w.fail("results", f"get_results_from_chains gives {short(res.get(k))} for {k!r} instead of {short(v)}")
        o.idle_check(self.inv, "after get_results")

    def op_repr(self, op):
        inv = self.inv
        things = [inv, self.like, *inv.chains, *inv.perturbation_funcs]
        if hasattr(inv, "parameterization"):
            things.append(inv.parameterization)
            things += list(inv.parameterization.parameter_spaces.values())
        things += [c.current_state for c in inv.chains] + list(self.like.targets)
        for x in things:
            repr(x)
            str(x)
        for c in inv.chains:
            if c.ith_iteration:
                c.print_statistics()
        self.w.counts["observations"] += 1
        self.o.idle_check(inv, "after repr and print_statistics")

    def op_finish(self, op):
        """advances each chain, on its own, up to a total number of iterations"""
        o, inv = self.o, self.inv
        chains, order = list(inv.chains), list(o.order)
        for c in chains:
            left = op["total"] - o.ctxs[c.id].n
            if left > 0:
                inv.chains = [c]
                o.order = [c.id]
                self.op_run({**op, "op": "run", "n": left, "backend": {"k": "serial"}})
        inv.chains = chains
        o.order = order
        self.note_outcome()

    def op_temp(self, op):
        ids = self.o.order
        for c in self.inv.chains:
            if c.id == ids[op["chain"] % len(ids)]:
                c.temperature = op["T"]
                self.o.ctxs[c.id].T = op["T"]
        self.w.counts["temperatures set"] += 1

    def op_chains(self, op):
        inv = self.inv
        order = [i for i in op["order"] if i < len(inv.chains)]
        inv.chains = [inv.chains[i] for i in order]
        self.o.order = [self.o.order[i] for i in order]
        self.w.counts["chains rearranged"] += 1
        if [c.id for c in inv.chains] != self.o.order or inv.n_chains != len(order):
            self.w.fail("isolation", f"the chains are {[c.id for c in inv.chains]} instead of {self.o.order}")

    def op_add_targets(self, op):
        o, w, inv = self.o, self.w, self.inv
        specs = [t for t in self.spec["problem"]["targets"] if t["name"] in op["names"]]
        if not specs:
            return
        before = {c.id: o.adapter.snap(c.current_state) for c in inv.chains}
        ts, fs = [sut.build_target(t) for t in specs], [self.fwd(t) for t in specs]
        if len(ts) == 1 and op.get("single"):
            ts, fs = ts[0], fs[0]
        self.like.add_targets(ts, fs)
        w.counts["targets added"] += len(specs)
        added = [t for t in o.adapter.problem.targets if t.name in op["names"]]
        o.adapter.targets = o.adapter.targets + added
        self.spy()
        for c in inv.chains:
            m = o.ctxs[c.id]
            s = o.adapter.snap(c.current_state)
            rest = {k: v for k, v in s.items() if k not in op["names"]}
            if set(rest) != set(before[c.id]) or not o.adapter.same(rest, before[c.id]):
                w.fail("targets", f"chain {c.id}: adding targets changed its current state from {before[c.id]} to {s}")
            bad = o.adapter.problems(s)
            if bad:
                w.fail("targets", f"chain {c.id}: after adding targets its current state is not valid: {bad[0]}")
                raise Stop()
            m.cur = s
            m.history = []
        noises = [tuple(sorted((k, v["std"], v["corr"]) for k, v in o.ctxs[c.id].cur.items()
                               if k in op["names"] and "std" in v)) for c in inv.chains]
        free = [t for t in o.adapter.declared() if t.name in op["names"] and t.hier and t.std_b[0] < t.std_b[1]]
        if len(noises) > 1 and noises[0] and len(set(noises)) == 1 and free:
            w.fail("targets", f"all chains were given the same initial noise {noises[0]}")
        self.check_noise_perturbed()
        w.event("targets added", op["names"])

    def check_noise_perturbed(self):
        """each chain has a move for the unknown noise, if there is any"""
        hier = [t.name for t in self.o.adapter.declared() if t.hier]
        if not hier:
            return
        for c in self.inv.chains:
            if len(c.perturbation_funcs) != len(c.perturbation_weights):
                self.w.fail("targets", f"chain {c.id} has {len(c.perturbation_funcs)} perturbation functions"
                            f" and {len(c.perturbation_weights)} weights")

    # ---- the end

    def note_outcome(self):
        """all that the run left, to be compared with other executions"""
        o = self.o
        out = {}
        for c in self.inv.chains:
            m = o.ctxs[c.id]
            out[str(c.id)] = [m.n, m.acc, float(m.T), digest(plain_of(o.adapter.floats(m.cur))),
                              digest(plain_of(c.saved_states)), digest(plain_of(engine.stats_of(c))),
                              dict(sorted(m.fails.items()))]
        self.outcomes.append(out)
        self.w.event("outcome", out)

    def finish(self):
        o, w = self.o, self.w
        if self.spec.get("final_results", True):
            o.check_results(self.inv, None, True)
            o.check_results(self.inv, None, False)
            o.idle_check(self.inv, "at the end")
        o.close_kernel()
        for name, m in o.stats.m.items():
            w.counts["statistics tested"] += 1
            if m.bad():
                tag = ("swap" if name.startswith("swap") else "select" if "chosen" in name or ": " in name or "rather" in name
                       else "kernel" if "birth" in name or "step" in name or "newborn" in name else "accept")
                w.fail(tag, f"frequencies of '{name}' are off: sum {m.s:.2f} of variance {m.v:.2f}"
                       f" after {m.n} events")
        w.event("end", len(o.order))


def plain_of(x):
    if isinstance(x, dict):
        return {str(k): plain_of(v) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))}
    if isinstance(x, (list, tuple)):
        return [plain_of(v) for v in x]
    if isinstance(x, np.ndarray):
        return [float(v) for v in x.ravel()]
    if isinstance(x, (float, np.floating, int, np.integer)) and not isinstance(x, bool):
        return float(x)
    if hasattr(x, "x"):
        return plain_of(x.x)
    return repr(x)


def digest(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:16]
