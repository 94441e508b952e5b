"""C21: the same seeded script in fresh processes with other hash seeds."""
import contextlib
import json
import os
import subprocess
import sys
import tempfile

from . import driver
from .kernel import Stop, World

HASH_SEEDS = ("1", "271828", "4000000000")


def execute(spec, accept, record=False):
    """spec["scripts"]: specs executed in a row by each process"""
    w = World(spec["seed"], accept, record)
    outs = []
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "specs.json")
        with open(path, "w") as f:
            json.dump(spec["scripts"], f)
        for h in spec["hash_seeds"]:
            env = dict(os.environ, PYTHONHASHSEED=h)
            p = subprocess.run([sys.executable, "-W", "ignore", "-m", "dst.main", "exec", path], env=env, cwd=os.path.dirname(
                os.path.dirname(os.path.abspath(__file__))), capture_output=True, text=True, timeout=140)
            if p.returncode:
                raise RuntimeError(p.stderr[-2000:])
            outs.append(json.loads(p.stdout.strip().splitlines()[-1]))
            w.counts["fresh processes"] += 1
    with contextlib.suppress(Stop):
        for k, rows in enumerate(zip(*outs)):
            w.counts["scripts"] += 1
            w.counts["nontrivial"] += 1
            w.event("script", k, rows[0])
            for h, r in zip(spec["hash_seeds"], rows):
                if r[2] is not None:
                    w.fail(*r[2])
                if r[1] != rows[0][1]:
                    w.fail("repeat", f"script {k} has another outcome with PYTHONHASHSEED={h} than with"
                           f" {spec['hash_seeds'][0]}: {r[1]} instead of {rows[0][1]}")
    return w


def run_script(spec):
    d = driver.Driver(spec, (), False)
    w = d.execute()
    w.outcome = d.outcomes
    return w
