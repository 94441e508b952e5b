"""Runs simulations in forked processes, shrinks failures, writes replay and evidence files.

A job is a bundle of specs executed one after the other in a process of its own, forked
from a parent that has executed nothing; its outcome is a function of the seed, the
property and the index of the job alone.
"""
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
from collections import Counter

from . import kernel

WORKERS = int(os.environ.get("DST_WORKERS", "0")) or os.cpu_count() or 4


class Outcome:
    """of one spec, or of several"""

    def __init__(self):
        self.n = 0
        self.counts = Counter()
        self.cov = set()
        self.digests = []
        self.nontrivial = set()
        self.violation = None  # (position in the bundle, tag, message)
        self.foreign = Counter()
        self.first_foreign = {}
        self.samples = []
        self.iterations = 0

    def add_world(self, k, spec, w):
        self.n += 1
        self.counts.update(w.counts)
        if len(self.cov) < 200000:
            self.cov |= w.cov
        d = w.digest.hexdigest()[:16]
        self.digests.append(d)
        if w.counts.get("iterations", 0) or w.counts.get("nontrivial", 0):
            self.nontrivial.add(d)
        self.foreign.update(w.foreign)
        for tag, msg in w.first_foreign.items():
            self.first_foreign.setdefault(tag, {"message": msg, "spec": spec})
        if w.violation is not None and self.violation is None:
            self.violation = (k, *w.violation)

    def merge(self, o):
        self.n += o.n
        self.counts.update(o.counts)
        self.cov |= o.cov
        self.nontrivial |= o.nontrivial
        self.foreign.update(o.foreign)
        for tag, x in o.first_foreign.items():
            self.first_foreign.setdefault(tag, x)
        if len(self.samples) < 3:
            self.samples += o.samples[: 3 - len(self.samples)]


class Pool:
    """at most WORKERS forked processes"""

    def __init__(self, timeout, workers=None):
        self.dir = tempfile.mkdtemp(prefix="dst-")
        self.timeout = timeout
        self.workers = workers or WORKERS
        self.live = {}
        self.seq = 0

    def close(self):
        for pid in list(self.live):
            self.kill(pid)
        shutil.rmtree(self.dir, ignore_errors=True)

    def kill(self, pid):
        for f in (os.killpg, os.kill):
            try:
                f(pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass

    def start(self, key, func):
        self.seq += 1
        path = os.path.join(self.dir, str(self.seq))
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.setsid()
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 1)
                if not os.environ.get("DST_DEBUG"):
                    os.dup2(null, 2)
                try:
                    res = ("ok", func())
                except BaseException as e:
                    import traceback

                    res = ("error", "".join(traceback.format_exception(e)))
                with open(path + ".tmp", "wb") as f:
                    pickle.dump(res, f)
                os.rename(path + ".tmp", path)
                code = 0
            finally:
                os._exit(code)
        self.live[pid] = (key, path, time.monotonic())

    def wait(self, block=True):
        """finished jobs: [(key, kind, result)] of kind ok, error, died or hang"""
        out = []
        while True:
            for pid, (key, path, t0) in list(self.live.items()):
                done, status = os.waitpid(pid, os.WNOHANG)
                if done:
                    del self.live[pid]
                    try:
                        os.killpg(pid, signal.SIGKILL)  # whatever it left running
                    except (ProcessLookupError, PermissionError):
                        pass
                    if os.path.exists(path):
                        with open(path, "rb") as f:
                            out.append((key, *pickle.load(f)))
                        os.unlink(path)
                    else:
                        out.append((key, "died", f"the process ended with status {status}"))
                elif time.monotonic() - t0 > self.timeout:
                    self.kill(pid)
                    del self.live[pid]
                    out.append((key, "hang", f"no end after {self.timeout} s"))
            if out or not block or not self.live:
                return out
            time.sleep(0.002)

    def map(self, jobs, func, stop=lambda key: False, deadline=None):
        """yields (key, kind, result) for all jobs"""
        jobs = iter(jobs)
        more = True
        while more or self.live:
            while more and len(self.live) < self.workers:
                if deadline is not None and time.monotonic() > deadline:
                    more = False
                    break
                try:
                    key = next(jobs)
                except StopIteration:
                    more = False
                    break
                if stop(key):
                    continue
                self.start(key, lambda key=key: func(key))
            yield from self.wait()


def run_alone(func, timeout):
    """func() in a process of its own: (kind, result)"""
    p = Pool(timeout, 1)
    try:
        p.start(0, func)
        return p.wait()[0][1:]
    finally:
        p.close()


# ---------------------------------------------------------------- shrinking


def candidates(spec):
    """simpler specs than this one, the boldest simplifications first"""

    def put(path, value):
        s = json.loads(json.dumps(spec))
        x = s
        for k in path[:-1]:
            x = x[k]
        if value is DROP:
            del x[path[-1]]
        else:
            x[path[-1]] = value
        return s

    DROP = object()

    def try_(path, value):
        x = spec
        for k in path:
            x = x.get(k) if isinstance(x, dict) else x[k]
            if x is None:
                return
        if value is not DROP and x == value:
            return
        yield put(path, value)

    faults = spec.get("faults") or []
    if len(faults) > 1:
        yield put(["faults"], [])
    for i in range(len(faults)):
        yield put(["faults"], faults[:i] + faults[i + 1:])
    plan = spec.get("plan") or []
    for i in reversed(range(len(plan))):
        if len(plan) > 1:
            yield put(["plan"], plan[:i] + plan[i + 1:])
    for key in ("callbacks", "hooks", "api", "start", "stages"):
        if spec.get(key):
            yield put([key], DROP)
    for key in ("steps", "replicates", "iterations"):
        if isinstance(spec.get(key), int) and spec[key] > 1 and key != "replicates":
            yield put([key], spec[key] // 2)
            yield put([key], spec[key] - 1)
    for i, op in enumerate(plan):
        if op["op"] != "run":
            continue
        p = ["plan", i]
        if op["n"] > 0:
            yield put(p + ["n"], op["n"] // 2)
            if op["n"] > 1:
                yield put(p + ["n"], op["n"] - 1)
        be = op.get("backend", {})
        if be.get("k", "serial") != "serial":
            yield put(p + ["backend"], {"k": "serial"})
            for k in ("death", "cap", "batch"):
                if k in be:
                    yield put(p + ["backend", k], DROP)
        if op["sampler"]["k"] != "vanilla":
            yield put(p + ["sampler"], {"k": "vanilla"})
        for k, v in (("verbose", False), ("save_every", 1), ("burnin", 0), ("reuse", False)):
            if op.get(k, v) != v and not (k == "burnin" and op["sampler"]["k"] == "sa"):
                yield put(p + [k], v)
    if spec.get("n_chains", 1) > 1 and not any(op["op"] == "chains" for op in plan):
        yield put(["n_chains"], spec["n_chains"] - 1)
    prob = spec.get("problem")
    if prob:
        for i in range(len(prob["targets"])):
            if len(prob["targets"]) > 1:
                yield put(["problem", "targets"], prob["targets"][:i] + prob["targets"][i + 1:])
        for i in range(len(prob["spaces"])):
            if len(prob["spaces"]) > 1:
                yield put(["problem", "spaces"], prob["spaces"][:i] + prob["spaces"][i + 1:])

        def spaces(x, path):
            yield x, path
            for j, q in enumerate(x["params"]):
                if q["k"] in ("ps", "v1", "v2"):
                    yield from spaces(q, path + ["params", j])

        for i, sp in enumerate(prob["spaces"]):
            for x, path in spaces(sp, ["problem", "spaces", i]):
                for j in range(len(x["params"])):
                    if len(x["params"]) > 1 or x["k"] != "ps":
                        yield put(path + ["params"], x["params"][:j] + x["params"][j + 1:])
                if x.get("nmax") and x["nmax"] > x["nmin"]:
                    yield put(path + ["nmax"], x["nmax"] - 1)
                if x.get("n") and x["n"] > 1:
                    yield put(path + ["n"], x["n"] - 1)
                for k in ("kdtree", "init_range"):
                    if x.get(k):
                        yield put(path + [k], DROP)
        for i, t in enumerate(prob["targets"]):
            for k in ("extra", "args", "bad"):
                if t["fwd"].get(k):
                    yield put(["problem", "targets", i, "fwd", k], DROP)
    base = spec.get("base")
    if base:
        for i in range(len(base["perturbs"])):
            if len(base["perturbs"]) > 1:
                b = {**base, "perturbs": base["perturbs"][:i] + base["perturbs"][i + 1:]}
                if b.get("weights"):
                    b["weights"] = base["weights"][:i] + base["weights"][i + 1:]
                yield put(["base"], b)
        if base["type"] != "array":
            yield put(["base", "type"], "array")


def shrink(spec, fails, seconds):
    """greedy: the simplest spec found on which fails(spec) still holds"""
    end = time.monotonic() + seconds
    tried = 0
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for c in candidates(spec):
            if time.monotonic() > end:
                break
            tried += 1
            if fails(c):
                spec = c
                progress = True
                break
    return spec, tried


def derive_seed(*key):
    return kernel.derive(*key) & 0xFFFFFFFF
