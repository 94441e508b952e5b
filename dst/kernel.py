"""The simulator: one world per run, which owns randomness, scheduling and faults.

Every choice is a function of the spec of the run: the scheduler draws from its own
generator, chains draw from streams keyed by (seed, chain, iteration), user functions
fail where the fault plan says so.
"""
import hashlib
import os
import random
import sys
import threading
import time
from collections import Counter

import joblib.parallel
import numpy as np
from joblib import register_parallel_backend
from joblib._parallel_backends import ParallelBackendBase
import cloudpickle

W = None  # the world of the run in progress


class Stop(BaseException):
    """ends a run as soon as an oracle of the check has fired"""


class HarnessError(Exception):
    pass


class WorkerDied(Exception):
    """stand-in of joblib's TerminatedWorkerError"""


def world():
    return W


def set_world(w):
    global W
    W = w


def derive(*key):
    return int.from_bytes(hashlib.sha256(repr(key).encode()).digest()[:8], "big")


class World:
    def __init__(self, seed, accept, record=False):
        self.seed = seed
        self.accept = set(accept)
        self.violation = None
        self.foreign = Counter()
        self.first_foreign = {}
        self.digest = hashlib.sha256()
        self.counts = Counter()  # events and faults that happened
        self.cov = set()  # abstract states and interleavings reached
        self.sched = random.Random(derive(seed, "sched"))
        self.tl = threading.local()
        self.threads = None  # scheduler of threads, when in use
        self.trace = []
        self.record = record
        self.stopping = False
        self.streams = True  # one random stream per chain and iteration
        self.backend_spec = {}
        self.on_batch = None
        self.tasks = 0
        self.waiting = None  # the backend on which the main thread waits
        self.clock = 1.0e9

    # ---- verdicts

    def fail(self, tag, msg):
        """an oracle fired"""
        if self.stopping:
            raise Stop()
        if tag in self.accept or tag == "crash":
            if self.violation is None:
                self.violation = (tag, msg)
                self.event("VIOLATION", tag, msg)
            self.stopping = True
            raise Stop()
        self.foreign[tag] += 1
        self.first_foreign.setdefault(tag, msg[:600])

    def event(self, *what):
        """adds to the history of the run (its digest decides determinism)"""
        text = repr(what)
        self.digest.update(text.encode())
        self.counts["events"] += 1
        if self.record:
            self.trace.append(text if len(text) < 400 else text[:400] + "...")

    def mark(self, *what):
        self.cov.add(derive(*what) & 0xFFFFFFFFFFFF)

    # ---- randomness

    def seed_globals(self, *key):
        s = derive(self.seed, *key)
        random.seed(s)
        np.random.seed(s & 0xFFFFFFFF)

    # ---- the context of the running chain

    @property
    def ctx(self):
        return getattr(self.tl, "ctx", None)

    @ctx.setter
    def ctx(self, c):
        self.tl.ctx = c


# ---------------------------------------------------------------- backends


class Job:
    def __init__(self, func, callback):
        self.func = func
        self.callback = callback
        self.done = False
        self.result = None
        self.exc = None
        self.thread = None


class SimBackend(ParallelBackendBase):
    """as joblib's own pools: results are handed over by a callback when a task is over"""

    supports_retrieve_callback = True
    supports_timeout = True
    default_n_jobs = 1

    def __init__(self, **kwargs):
        super().__init__(**kwargs)
        self.jobs = []
        self.n_jobs = 1

    def effective_n_jobs(self, n_jobs):
        n = max(1, n_jobs)
        return min(n, world().backend_spec.get("cap", n))

    def configure(self, n_jobs=1, parallel=None, prefer=None, require=None, **kwargs):
        self.parallel = parallel
        self.n_jobs = self.effective_n_jobs(n_jobs)
        self.jobs = []
        world().waiting = self
        return self.n_jobs

    def start_call(self):
        self.jobs = []
        world().waiting = self

    def compute_batch_size(self):
        return world().backend_spec.get("batch", 1)

    def submit(self, func, callback=None):
        w = world()
        if not self.jobs and w.on_batch is not None:
            w.on_batch()
        job = self.make(func, callback)
        self.jobs.append(job)
        return job

    def active(self):
        """the tasks that workers hold: at most n_jobs, the earliest first"""
        return [j for j in self.jobs if not j.done][: self.n_jobs]

    def finish(self, job):
        job.done = True
        if job.callback is not None:
            job.callback(job)

    def retrieve_result_callback(self, job):
        if job.exc is not None:
            raise job.exc
        return job.result

    def progress(self):
        """the main thread waits: a worker goes on"""
        if not self.active():
            raise HarnessError("waiting for tasks when there is none")
        self.step()

    def terminate(self):
        self.drop()
        if world() is not None:
            world().waiting = None

    def abort_everything(self, ensure_ready=True):
        self.drop()

    def drop(self):
        self.jobs = []


class ProcBackend(SimBackend):
    """tasks run on pickled copies, one after the other in any order"""

    def make(self, func, callback):
        return Job(cloudpickle.dumps(func), callback)

    def step(self):
        w = world()
        act = self.active()
        job = act[w.sched.randrange(len(act))]
        w.event("task", [j.done for j in self.jobs], self.jobs.index(job))
        w.mark("task order", tuple(j.done for j in self.jobs), self.jobs.index(job))
        w.counts["tasks run as processes"] += 1
        w.tasks += 1
        death = w.backend_spec.get("death")
        dies = death is not None and death["task"] == w.tasks
        if dies:
            w.counts["fault: worker died " + death["when"] + " its task"] += 1
            w.dead = True
        if dies and death["when"] == "before":
            job.exc = WorkerDied("a worker died")
        else:
            try:
                res = cloudpickle.loads(job.func)()
                res = cloudpickle.loads(cloudpickle.dumps(res))
                if dies:
                    job.exc = WorkerDied("a worker died")
                else:
                    job.result = res
            except Stop:
                raise
            except BaseException as e:
                job.exc = e
        w.ctx = None
        self.finish(job)


class ThreadBackend(SimBackend):
    """real threads, of which exactly one runs at any time; the scheduler decides
    which, at each traced line of the package under test"""

    uses_threads = True
    supports_sharedmem = True

    def make(self, func, callback):
        return Job(func, callback)

    def step(self):
        w = world()
        act = self.active()
        job = act[w.sched.randrange(len(act))]
        if job.thread is None:
            job.thread = SimThread(w, job)
            w.counts["tasks run as threads"] += 1
        w.event("run", self.jobs.index(job))
        job.thread.resume()
        if job.done is None:
            self.finish(job)
        if w.violation is not None:
            self.drop()
            raise Stop()

    def drop(self):
        # started tasks run to their end, the others are cancelled
        for job in self.jobs:
            t = job.thread
            while t is not None and not t.ended:
                t.resume()
        self.jobs = []


PKG = None  # directory of the package under test


class SimThread:
    def __init__(self, w, job):
        self.w = w
        self.job = job
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.ended = False
        self.rng = None
        self.countdown = 0
        self.shared = not w.streams
        self.thread = threading.Thread(target=self.main, daemon=True)
        self.started = False

    def resume(self):
        w = self.w
        r = w.sched.random()
        self.countdown = w.sched.randint(1, 6 if r < 0.3 else 60 if r < 0.7 else 600)
        if not self.shared and self.rng is not None:
            random.setstate(self.rng[0])
            np.random.set_state(self.rng[1])
        if not self.started:
            self.started = True
            self.thread.start()
        self.go.release()
        self.back.acquire()

    def main(self):
        self.go.acquire()
        job = self.job
        try:
            if not self.w.stopping:
                sys.settrace(self.on_call)
                job.result = job.func()
        except BaseException as e:
            job.exc = e
        finally:
            sys.settrace(None)
            self.ended = True
            job.done = None  # the main thread finishes it
            self.back.release()

    def on_call(self, frame, event, arg):
        f = frame.f_code.co_filename
        if f.startswith(PKG) or (self.shared and f.endswith(os.sep + "random.py")):
            return self.on_line
        return None

    def on_line(self, frame, event, arg):
        if event == "line":
            self.countdown -= 1
            if self.countdown <= 0:
                w = self.w
                w.counts["preemptions"] += 1
                where = (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name)
                if len(w.cov) < 20000:
                    w.mark("preempted", where)
                if not self.shared:
                    self.rng = (random.getstate(), np.random.get_state())
                self.back.release()
                self.go.acquire()
            if self.w.stopping:
                raise Stop()
        return self.on_line


class SimTime:
    """stands for the module time within joblib.parallel: the clock is simulated, and
    waiting lets the workers of the simulated backend go on"""

    def sleep(self, seconds):
        w = W
        if w is None or w.waiting is None:
            time.sleep(seconds)
            return
        w.clock += seconds
        w.waiting.progress()

    def time(self):
        return time.time() if W is None else W.clock

    def __getattr__(self, name):
        return getattr(time, name)


_default_rng = np.random.default_rng


def _sim_default_rng(seed=None):
    """generators created without a seed get one from the stream in use"""
    if seed is None and W is not None:
        seed = random.getrandbits(64)
    return _default_rng(seed)


def install(pkg_dir):
    global PKG
    PKG = pkg_dir
    register_parallel_backend("dst-proc", ProcBackend)
    register_parallel_backend("dst-thread", ThreadBackend)
    np.random.default_rng = _sim_default_rng
    joblib.parallel.time = SimTime()


def parallel_config(spec):
    k = spec.get("k", "serial")
    if k == "serial":
        return {"n_jobs": 1}
    return {"backend": "dst-" + k, "n_jobs": spec["n_jobs"]}
