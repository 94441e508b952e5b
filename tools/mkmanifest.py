"""writes MANIFEST.json (run by hand when the list of checks changes)"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
COMMON = (" Seeded search, so a clean run is evidence and not proof; trusted: numpy, scipy, CPython, joblib.Parallel and the "
          "reference model in dst/model.py.")

CHECKS = {
    "C01": (T + "seeded replicates and monitored proposals against a reference prior",
            "Each proposal's log ratio is recomputed by a reference model and its conditional distribution tested; exact prior "
            "draws are advanced with a flat likelihood and must keep their distribution (self-normalized bound, error below 1e-10 "
            "per feature). Small biases (below about 0.02 per replicate set) stay invisible in the quick tier."),
    "C02": (T + "seeded replicates drawn exactly from the posterior",
            "Model drawn from the prior and data from the likelihood, then advanced: the distribution must not change, at any "
            "temperature; log ratios, likelihood ratios and acceptance decisions of other runs are checked one by one."),
    "C03": (T + "every acceptance decision of simulated runs against a reference probability",
            "Decisions are tested as a martingale against min(1, exp(r + l)) in strata (kinds of proposals, backends, "
            "temperatures), sure and impossible ones exactly; calibration bounds at error below 1e-10."),
    "C04": (T + "snapshots of every state around every event, under user-function and worker failures",
            "Deep snapshots of the current state and saved samples of all chains are compared around each proposal, rejection, "
            "failure, swap and save."),
    "C05": (T + "validity of every state shown to a user function, under failures",
            "Every state seen by a user function, current or saved is checked against the declaration, through all its views."),
    "C06": (T + "reference schedule of saving over simulated multi-run histories",
            "Saved lists are compared at each iteration with those of a mirror that saves the state by the documented rule."),
    "C07": (T + "saved predictions against recomputed ones, under failures, swaps and worker deaths",
            "Saved predicted data and extra storage are recomputed from the saved sample itself."),
    "C08": (T + "mirror ledger of every attempt, under failures",
            "Statistics of all chains are compared after each iteration with those of the mirror."),
    "C09": (T + "exceptions injected in user functions at chosen attempts",
            "Failures of forward, likelihood, ratio and perturbation functions at random attempts, streaks of up to 499 and of 500 "
            "attempts; effects compared with the mirror."),
    "C10": (T + "interruptions, exhausted retries, callback errors and worker deaths, then resumption",
            "After each failure every chain must be at an iteration boundary of the mirror; a resumed run is compared with an "
            "uninterrupted one that gets the same random numbers. KeyboardInterrupt is injected inside user functions, "
            "not between arbitrary bytecodes."),
    "C11": (T + "simulated process and thread schedules against the serial execution",
            "Histories under simulated worker pools (any order, preemption of threads at traced lines, any number of workers) "
            "must equal the serial one. Real multiprocessing is replaced by pickled copies in one process; preemption is at "
            "line granularity."),
    "C12": (T + "reference ladder and cooling schedule over multi-run histories",
            "Temperatures of all chains are compared at each iteration with the declared ladder or schedule."),
    "C13": (T + "swap decisions recomputed exactly, tested as a martingale over histories",
            "The distribution of the permutation applied after each batch is computed exactly from the likelihoods and compared "
            "with what happened over many batches."),
    "C14": (T + "likelihoods recomputed from scratch along histories with failures and probes",
            "Each log likelihood ratio used is compared with one recomputed from the two states; probes evaluate other pairs "
            "of states between iterations."),
    "C15": (T + "targets added at random moments of simulated histories",
            "All oracles judge the inversion with the new targets from the moment they are added."),
    "C16": (T + "choices of perturbations tested as a martingale over histories",
            "Choices of perturbations, of moves, of nested spaces and of positions are compared with the declared weights."),
    "C17": (T + "recorded callback histories under failures and schedules",
            "The order and number of all callback calls is compared with the documented protocol."),
    "C18": (T + "results read at random moments of simulated histories",
            "get_results is compared with what the chains were seen to save."),
    "C19": (T + "distribution of the initial states of many seeded inversions",
            "Validity exactly; distribution and independence by self-normalized bounds at error below 1e-10."),
    "C20": (T + "iterations counted over multi-run histories; split runs against single runs",
            "Each chain's iterations are counted by the user functions; split runs get the random numbers of the single run."),
    "C21": (T + "paired executions with other observations and in other processes",
            "Bit-identical histories of executions that differ by verbosity, repr and reading of results, or by process and hash "
            "seed."),
}
NA = {
    "C22": "pure functions of their arguments (sites and query points): no schedule, randomness, fault or history to simulate; "
           "the wrong results found by reading were repaired",
    "C23": "pure functions of a position: nothing for a schedule, a fault or a random choice to change (their use inside "
           "proposals and initial states is covered by C01 and C19)",
}

out = {
    "version": 1,
    "setup_cmd": "./dst/run.sh build",
    "checks": [{"property": k, "quick_cmd": f"./check {k}", "thorough_cmd": f"VERIF_TIER=thorough ./check {k}",
                "evidence_file": f"evidence/{k}.json", "technique": t, "level": "exploration", "level_note": n + COMMON}
               for k, (t, n) in CHECKS.items()],
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "No hooks in /repo: the seams are the package's own (user functions, callbacks, joblib backends, global random "
             "generators, sys.settrace). ./replay FILE executes a replay file again. Repaired defects: KNOWN_FINDINGS.json.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
