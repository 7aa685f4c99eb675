#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRIPT = "stateless model checking: exhaustive DFS over every answer a scripted problem can give to the real search, each execution compared step by step with a reference model"
CHECKS = {
 "C01": (SCRIPT, "model_checking", "all landscapes of 4 reference points x 3 values, 3-4 basins x 3 values, over a configuration lattice; crowds of 16/72/300 points with at most 2/1/0 unusual answers; plus a lattice of ordinary functions with every local solver"),
 "C02": (SCRIPT, "model_checking", "as C01, with objective values exactly at, inside and outside the tolerances and basins at the distance factor"),
 "C03": (SCRIPT, "model_checking", "as C01, with basins inside, exactly on and outside the bounds, with and without a target"),
 "C05": (SCRIPT, "model_checking", "as C01, with wait cycles 1-3, threshold and distance ties; starts and final threshold equal the model's"),
 "C08": (SCRIPT + "; durations of local searches are choices too (virtual clock)", "model_checking", "every scripted run is repeated with ten targets and seven time limits and must be the unlimited run cut at the right batch"),
 "C09": ("exhaustive enumeration of population x iterations x batch x seed, plus the scripted DFS", "model_checking", "populations 4-12 (26 thorough), every iteration budget, batch sizes 0-30"),
 "C04": ("exhaustive enumeration of objective-value assignments (scripted DFS over the answers given in Stage 1) x configuration lattice on the real code", "model_checking", "every assignment of 2-3 values to the first evaluated points, populations 4-12, dimensions 1-3, custom points, seeds, sequential and parallel"),
 "C10": ("exhaustive fault enumeration on the real code: every placement of one or two faulty answers among the evaluations of a run", "fault_enumeration", "errors, NaN of both signs and infinities at every evaluation (objective, gradient, hessian) of runs of every local solver, sequential and batched"),
 "C11": ("exhaustive crash and fault injection: every file-system call of every save is failed, torn or made the last one (libc interposition), then the store is reopened", "fault_enumeration", "histories of up to three saves, both retention modes, every crash point and torn write"),
 "C12": ("exhaustive enumeration of operation sequences on the real checkpoint store against a versioned-store model", "model_checking", "all sequences to depth 4 (quick) of saves, loads, cleanups and foreign files, both retention modes; field-by-field round trips"),
 "C13": ("exhaustive enumeration of damage: every truncation and every byte altered to each of a set of values", "fault_enumeration", "all truncation lengths, all single-byte alterations over a byte alphabet, in a subprocess with an address-space limit"),
 "C14": ("exhaustive enumeration of interruption points: every checkpoint written by every explored run is resumed and compared with the uninterrupted run", "model_checking", "scripted DFS runs x save frequencies x retention x batch sizes, every checkpoint of each"),
 "C15": ("exhaustive enumeration of checkpoint positions x parameter changes (singly and in pairs), each resumed run compared with the reference model", "model_checking", "iterations, population, wait cycle, factors, solver; automatic resume on and off"),
 "C16": (SCRIPT + "; the tracked counts of every explored run are compared with the call log", "model_checking", "scripted DFS x observer modes x callbacks x frequencies x batch sizes x every local solver; durations on a virtual clock"),
 "C17": ("exhaustive enumeration of observer mode x callback x frequency x verbosity x checkpointing, each run compared call by call with the unobserved run", "model_checking", "all iterations 0-population, frequencies 0-7, all modes, sequential and batched"),
 "C19": ("exhaustive enumeration of constraint-satisfaction patterns over the candidate points on the real code", "model_checking", "all patterns over the first candidates, population sizes, custom points; constraint hand-over to COBYLA"),
 "C06": ("stateless model checking of the real parallel code under a controlled scheduler (a stand-in for rayon): exhaustive enumeration of item orders, preemptions up to a bound and reduction shapes, compared with each other and with real rayon pools", "model_checking", "all thread counts 1-16 on real pools; every schedule with 1-4 deviations from the default order at item starts/ends and user calls; every split of the reductions"),
 "C07": ("exhaustive enumeration of configurations and of scripted landscapes: the same search with and without parallelism (runtime switch, pool sizes, crate features), compared call by call", "model_checking", "configuration lattice x ordinary functions; all scripted landscapes of 4 points x 3 values; builds without rayon and with the progress bar"),
 "C18": ("exhaustive enumeration of solver settings (all single and pairwise deviations from the default) x problems x starts; each local search compared call by call with the underlying solver driven directly", "model_checking", "ten solver and line-search combinations, every setting over values at, inside and outside its range"),
 "C20": ("exhaustive enumeration of invalid and boundary settings (singly and in pairs), bounds and shapes on the real API", "model_checking", "every numeric setting over NaN, infinities, zero, negatives and boundary values; all pairs; bounds and shapes of all kinds"),
 "C21": ("exhaustive enumeration of builder-call sequences against a record model", "model_checking", "all sequences of setter calls to depth 2-4 on every builder, all defaults and conversions"),
 "C22": ("exhaustive enumeration of small solution sets over a value alphabet against a sequence model", "model_checking", "all sets of up to 4 solutions over points and values including NaN, infinities and signed zeros; every accessor"),
 "C23": ("exhaustive enumeration of scripted uses of the built Python module (sequences of operations, faults at every call of a user function, nested searches, every bounded schedule of two threads), each compared bit for bit with the same use of the Rust library", "model_checking", "constructors, builder functions, every option of optimize, observers, constraints; every call of every user function as the place of a fault or of a nested search; operation sequences to depth 3 (4); two-thread schedules with up to four changes over"),
 "C24": ("exhaustive enumeration of filter operation sequences against a reference model", "model_checking", "all sets of up to 3 solutions on a grid x query points at, inside and outside each distance; all threshold and wait-cycle sequences"),
}
CHECKS.update(json.load(open(os.path.join(V, "tools/checks_extra.json"))) if os.path.exists(os.path.join(V, "tools/checks_extra.json")) else {})
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
     "notes": "Every check builds the harness from /repo's working tree (./check.sh <id> <tier>)."}
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, l, n = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "technique": t, "level": l, "level_note": n, "evidence_file": f"evidence/{i}.json"})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
