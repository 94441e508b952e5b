"""Engine D: two executions that must have the same outcome."""
import copy

from . import driver
from .kernel import World

ALL = ("ratio", "valid", "views", "integrity", "samples", "saved", "dpred", "ledger", "retry", "like", "accept",
       "temperature", "swap", "callbacks", "isolation", "accounting", "results", "args", "resume", "targets", "init")

NAMES = ("iterations", "accepted", "temperature", "state", "samples", "statistics", "exceptions")


def reference(spec):
    """the plain execution: serial, in one piece, unobserved, uninterrupted"""
    s = copy.deepcopy(spec)
    mode = s.pop("mode")
    s.pop("variant", None)
    if mode == "backend":
        for op in s["plan"]:
            if op["op"] == "run":
                op["backend"] = {"k": "serial"}
    elif mode == "split":
        runs = [op for op in s["plan"] if op["op"] == "run"]
        n = sum(op["n"] for op in runs)
        s["plan"] = [{**runs[0], "n": n, "reuse": False}]
    elif mode == "observe":
        s["plan"] = [{**op, "verbose": False} for op in s["plan"] if op["op"] == "run"]
        s.pop("callbacks", None)
        s.pop("hooks", None)
        s["final_results"] = False
    elif mode == "resume":
        op = [op for op in s["plan"] if op["op"] == "run"][0]
        total = [op for op in s["plan"] if op["op"] == "finish"][0]["total"]
        s["faults"] = [f for f in s.get("faults", ()) if f["exc"] not in FATAL_KINDS and f["site"] in ("fwd", "like", "perturb") and f["m"] < 499]
        s["plan"] = [{**op, "n": total, "backend": {"k": "serial"}}]
    return s


FATAL_KINDS = ("KeyboardInterrupt", "SystemExit")


def last(d):
    return d.outcomes[-1] if d.outcomes else None


def execute(spec, accept, record=False):
    """a world with a violation if the two executions differ"""
    w = World(spec["seed"], accept, record)
    mode = spec["mode"]
    a = driver.Driver(reference(spec), [], False)
    wa = a.execute()
    plain = {k: v for k, v in spec.items() if k not in ("mode",)}
    # an oracle firing only in the second execution is a difference as well
    b = driver.Driver(plain, ALL if not wa.foreign else [], record)
    wb = b.execute()
    for x in (wa, wb):
        w.counts.update(x.counts)
        w.cov |= x.cov
    w.trace = wb.trace
    w.counts["pairs: " + mode] += 1
    w.digest.update(wa.digest.digest() + wb.digest.digest())
    tag = {"backend": "transparent", "split": "split", "observe": "repeat", "resume": "resume"}[mode]
    import contextlib

    from .kernel import Stop

    with contextlib.suppress(Stop):
        if wa.violation is not None:
            # the plain execution crashed
            w.fail(*wa.violation)
        if wb.violation is not None:
            w.fail("crash" if wb.violation[0] == "crash" else tag,
                   f"only in the execution under test: [{wb.violation[0]}] {wb.violation[1]}")
        elif mode == "backend":
            for k, (x, y) in enumerate(zip(a.outcomes, b.outcomes)):
                compare(w, tag, x, y, f"after run {k}")
        else:
            # an interrupted iteration starts again, failures included; a run of no iteration at all
            # leaves the temperature that its sampler starts with
            skip = {"resume": ("exceptions",), "split": ("temperature",)}.get(mode, ())
            compare(w, tag, last(a), last(b), "at the end", skip)
    return w


def compare(w, tag, x, y, when, skip=()):
    if x is None or y is None:
        return
    if list(x) != list(y):
        w.fail(tag, f"the chains are {list(y)} instead of {list(x)} {when}")
    for cid in x:
        bad = [n for n, p, q in zip(NAMES, x[cid], y[cid]) if p != q and n not in skip]
        if bad:
            w.fail(tag, f"chain {cid} differs in {', '.join(bad)} {when}: {y[cid]} instead of {x[cid]}")
