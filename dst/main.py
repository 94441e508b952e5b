"""Command line: build | check PROPERTY | replay FILE | exec FILE | digests PROPERTY N"""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)

COMPONENTS = {
    "real code": ["all of bayesbay, rebuilt from the working tree of /repo (samplers, chains, parameterizations, "
                  "priors, discretizations with their Cython extension, likelihoods, perturbations)",
                  "joblib.Parallel and its dispatch", "numpy", "scipy"],
    "stubs": ["joblib backends (process and thread pools) replaced by simulated ones: tasks run on pickled copies in any "
              "order, or as threads of which the scheduler runs one at a time and preempts at any line",
              "user functions (forward, likelihood, perturbation, callbacks) generated, failing where planned",
              "global random generators seeded per chain and iteration", "standard output"],
}


def load():
    from dst import build

    path = build.build()
    sys.path.insert(0, path)
    from dst import kernel, sut

    sut.load()
    kernel.install(os.path.dirname(os.path.abspath(sut.bb.__file__)))
    return path


def seed_env():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def make_specs(check, family, index, seed):
    from dst import gen

    name, _, per, make = family[:4]
    out = []
    for k in range(per):
        r = gen.rng_for(seed, check.pid, name, index, k)
        spec = make(r)
        spec.setdefault("seed", r.getrandbits(40))
        out.append(spec)
    return out


def run_bundle(specs, accept, record=False):
    from dst import checks, runner

    out = runner.Outcome()
    for k, spec in enumerate(specs):
        w = checks.execute(spec, accept, record and k == len(specs) - 1)
        out.add_world(k, spec, w)
        if out.violation:
            out.trace = w.trace
            break
        if k == 0 and w.counts.get("nontrivial" if spec.get("engine", "run") not in ("run", "pair") else "iterations"):
            out.samples.append({"spec": spec, "digest": out.digests[-1],
                                "iterations": w.counts.get("iterations", 0)})
    return out


def check(pid):
    t0 = time.monotonic()
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = seed_env()
    print(f"check {pid} tier={tier} VERIF_SEED={seed}", flush=True)
    try:
        load()
    except Exception as e:
        print(f"cannot build or import /repo: {e}")
        return 2
    t_build = time.monotonic() - t0
    from dst import checks, runner

    c = checks.CHECKS[pid]
    scale = float(os.environ.get("DST_SCALE", "1" if tier == "quick" else "25"))
    jobs = []
    for f in c.families:
        n = max(1, int(f[1] * scale))
        jobs += [((i + 0.5) / n, f, i) for i in range(n)]
    jobs.sort(key=lambda j: (j[0], j[1][0]))
    limit = float(os.environ.get("DST_LIMIT", "500" if tier == "quick" else "5400"))
    timeout = 150 if tier == "quick" else 300
    pool = runner.Pool(timeout)
    total = runner.Outcome()
    per_family = {f[0]: 0 for f in c.families}
    bad = {}
    errors = []
    try:
        done = 0
        for key, kind, res in pool.map(
                range(len(jobs)), lambda k: run_bundle(make_specs(c, jobs[k][1], jobs[k][2], seed), c.accept),
                stop=lambda k: bad and k > min(bad), deadline=t0 + limit):
            done += 1
            if kind == "ok":
                total.merge(res)
                per_family[jobs[key][1][0]] += res.n
                if res.violation:
                    bad[key] = ("violation", res.violation)
            elif kind == "error":
                errors.append((key, res))
                bad[key] = ("error", res)
            else:
                bad[key] = (kind, res)
    finally:
        pool.close()
    status = 0
    violations = 0
    message = None
    while bad:
        key = min(bad)
        kind, what = bad.pop(key)
        specs = make_specs(c, jobs[key][1], jobs[key][2], seed)
        r = report(c, specs, kind, what, timeout, tier, seed, f"{jobs[key][1][0]}:{jobs[key][2]}")
        if r is None:
            continue
        known = known_finding(pid, r)
        if known:
            print(f"KNOWN-FINDING: property={pid} {known}")
            continue
        if r["tag"] == "error":
            print(r["message"])
            status = 2
            break
        status = 1
        violations = 1
        message = r
        break
    wall = time.monotonic() - t0
    evidence(c, tier, seed, total, per_family, done, len(jobs), wall, t_build, violations, message)
    if status == 1:
        print(f"[{message['tag']}] {message['message'][:3000]}")
        print(f"VIOLATION property={pid} replay={message['path']}", flush=True)
    elif status == 0:
        print(f"{pid}: held on {total.n} simulated runs ({total.counts['iterations']} iterations,"
              f" {len(total.cov)} distinct situations) in {wall:.1f} s")
        if total.foreign:
            print(f"(oracles of other properties: {dict(total.foreign)})")
            if os.environ.get("DST_DEBUG"):
                for tag, x in total.first_foreign.items():
                    print(tag, x["message"], json.dumps(x["spec"]), sep="\n   ")
    return status


def known_finding(pid, r):
    path = os.path.join(ROOT, "KNOWN_FINDINGS.json")
    if not os.path.exists(path):
        return None
    with open(path) as f:
        for x in json.load(f).get("findings", []):
            if x["property"] == pid and x["tag"] == r["tag"] and x["match"] in r["message"]:
                return x["what"]
    return None


def report(c, specs, kind, what, timeout, tier, seed, name):
    """confirms a failure in fresh processes, shrinks it and writes the replay file"""
    from dst import runner

    def outcome(specs, record=False):
        k, res = runner.run_alone(lambda: run_bundle(specs, c.accept, record), timeout)
        if k == "ok":
            return (res.violation[1], res.violation, res) if res.violation else None
        return (k, (len(specs) - 1, k, str(res)), None)

    if kind == "violation":
        specs = specs[: what[0] + 1]
        tag = what[1]
    else:
        tag = {"died": "crash", "hang": "hang", "error": "error"}[kind]

    def fails(specs):
        r = outcome(specs)
        return r is not None and {"died": "crash"}.get(r[0], r[0]) == tag

    start = time.monotonic()
    budget = 25 if tier == "quick" else 90
    if kind == "hang":
        budget = 0
        if not fails(specs):
            return {"tag": "error", "message": f"{name} exceeded {timeout} s once, but not when run again"}
    if kind == "error":
        return {"tag": "error", "message": f"error of the harness in {name}:\n{what}"}
    alone = [specs[-1]]
    if kind == "violation" and budget:
        if fails(alone):
            specs = alone
        elif not fails(specs):
            print(f"a violation [{what[1]}] of job {name} could not be reproduced: {what[2][:500]}")
            return {"tag": "error", "message": "not reproducible"}
    tried = 0
    if budget and len(specs) == 1:
        small, tried = runner.shrink(specs[0], lambda s: fails([s]), budget - (time.monotonic() - start))
        specs = [small]
    elif budget:
        i = 0
        while i < len(specs) - 1 and time.monotonic() - start < budget:
            if fails(specs[:i] + specs[i + 1:]):
                specs = specs[:i] + specs[i + 1:]
            else:
                i += 1
    final = outcome(specs, True) if budget else None
    trace, digest = [], None
    message = what[2] if kind == "violation" else str(what)
    if final is not None and final[2] is not None:
        message = final[1][2]
        trace = final[2].trace[-400:]
        digest = final[2].digests[-1]
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    path = os.path.join(ROOT, "replays", f"{c.pid}-{seed}-{name.replace(':', '-')}.json")
    out = {"property": c.pid, "seed": seed, "job": name, "tag": tag, "message": message, "digest": digest,
           "accept": list(c.accept), "shrinking_steps": tried, "specs": specs, "trace": trace}
    with open(path, "w") as f:
        json.dump(out, f, indent=1)
    return {"tag": tag, "message": message, "path": path}


def evidence(c, tier, seed, total, per_family, done, planned, wall, t_build, violations, message):
    faults = {k[7:]: v for k, v in sorted(total.counts.items()) if k.startswith("fault: ")}
    other = {k: v for k, v in sorted(total.counts.items()) if not k.startswith("fault: ")}
    out = {
        "property": c.pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total.n,
            "distinct_nontrivial": len(total.nontrivial),
            "rule": c.rule,
            "samples": total.samples or [{"note": "no run completed"}],
            "bundles_run": done, "bundles_planned": planned,
            "runs_per_family": per_family,
            "simulated_runs_per_hour": round(total.n / max(wall - t_build, 1e-3) * 3600),
            "simulated_time": {"unit": "Markov chain iterations (the package reads no clock)",
                               "iterations": total.counts.get("iterations", 0)},
            "faults_injected": faults,
            "distinct_situations": len(total.cov),
            "distinct_situations_measure": "distinct abstract events: preempted source function, order in which parallel tasks "
            "ran, kind of move x perturbation x refusal, kind of run x backend x verbosity",
            "events": other,
            "foreign_alarms": dict(total.foreign),
            "components": COMPONENTS,
        },
        "assumptions": ["numpy, scipy, joblib.Parallel and CPython behave as documented",
                        "user functions are deterministic functions of the state apart from injected failures"],
        "wall_s": round(wall, 2), "violations": violations,
    }
    if message:
        out["coverage"]["violation"] = {"tag": message["tag"], "message": message["message"][:2000],
                                        "replay": message["path"]}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", c.pid + ".json"), "w") as f:
        json.dump(out, f, indent=1, default=str)


def replay(path):
    with open(path) as f:
        r = json.load(f)
    load()
    from dst import runner

    kind, res = runner.run_alone(lambda: run_bundle(r["specs"], r["accept"], True), 300)
    if kind == "ok" and res.violation:
        k, tag, msg = res.violation
        for line in res.trace[-60:]:
            print("  " + line)
        print(f"[{tag}] {msg}")
        same = res.digests[-1] == r["digest"]
        print(f"history digest {res.digests[-1]} ({'the same as' if same else 'other than'} recorded)")
    elif kind == "ok":
        print("the violation does not occur")
        return 0
    else:
        print(f"[{kind}] {res}")
    print(f"VIOLATION property={r['property']} replay={path}")
    return 1


def exec_file(path):
    """executes specs and prints their digests, in this very process"""
    load()
    from dst import seeded

    with open(path) as f:
        specs = json.load(f)
    out = []
    for s in specs:
        w = seeded.run_script(s)
        out.append([w.digest.hexdigest(), w.outcome, w.violation])
    print(json.dumps(out))
    return 0


def digests(pid, n):
    """digests of the first bundles of a check"""
    load()
    from dst import checks, runner

    c = checks.CHECKS[pid]
    out = {}
    p = runner.Pool(300)
    jobs = [(f, i) for f in c.families for i in range(min(f[1], n))]
    for k, kind, res in p.map(range(len(jobs)), lambda k: run_bundle(
            make_specs(c, jobs[k][0], jobs[k][1], seed_env()), c.accept)):
        out[f"{jobs[k][0][0]}:{jobs[k][1]}"] = res.digests if kind == "ok" else [kind, str(res)[:200]]
    p.close()
    print(json.dumps(out, sort_keys=True))
    return 0


def main(argv):
    if argv[0] == "build":
        print(load())
        return 0
    if argv[0] == "check":
        return check(argv[1])
    if argv[0] == "replay":
        return replay(argv[1])
    if argv[0] == "exec":
        return exec_file(argv[1])
    if argv[0] == "digests":
        return digests(argv[1], int(argv[2]))
    raise SystemExit(__doc__)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
