#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl and the checks present in lib/checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("property-based testing against a Lloyd reference model", "near-tied cases (1e-11 relative) only checked for validity"),
 "C02": ("differential property-based testing, pruned vs exhaustive vs Lloyd model", "Euclidean only; near-tied and exactly tied cases skipped"),
 "C03": ("metamorphic property-based testing over thread counts, repeats and schedules drawn by a deterministic scheduler", "schedules (interleavings of memory accesses and thread operations) are sampled by seed and policy, not enumerated"),
 "C04": ("differential property-based testing, OpenMP vs pthread engine", "metrics both engines accept; near-tied cases skipped"),
 "C05": ("differential property-based testing, MPI runs vs reference model", "few processes on one host; result read from the saved file"),
 "C06": ("property-based testing of result invariants over all routines", "at least one pass; cosine with non-zero samples"),
 "C07": ("property-based testing of initial centers, differential across engines and thread counts", "k-means++ distinctness for the Euclidean metric"),
 "C08": ("property-based testing against the pass history of a Lloyd model", "near-tied cases skipped"),
 "C09": ("property-based testing with data designed to reveal the drawn rows and rates, and a reference model", "'about batch-size' means six standard deviations"),
 "C10": ("property-based testing of medoid invariants and against a reference model", "near-tied cases only checked for validity"),
 "C11": ("differential and metamorphic property-based testing (pre-scaled data, column rescaling)", "shifts bounded so that scaling agrees to 1e-12"),
 "C12": ("property-based testing against a textbook fuzzy c-means model", "ill-conditioned cases (by perturbed model) only checked for validity"),
 "C13": ("property-based testing against a full reference model and partition invariants", "near-tied decisions only checked for validity"),
 "C14": ("property-based testing against a full reference model with its own BIC", "near-tied decisions only checked for validity"),
 "C15": ("property-based testing against a full reference model with its own Anderson-Darling test", "near-tied decisions only checked for validity"),
 "C16": ("property-based testing of energies over every prefix of the starts", "energies compared to 1e-9 relative"),
 "C17": ("round-trip and differential property-based testing, files vs memory", "files of doubles in host byte order"),
 "C18": ("differential property-based testing of the built command-line tools vs library runs", "values compared to the printed six digits"),
 "C19": ("stateful model-based property testing of cluster accumulators", "values compared to 1e-9 of the magnitudes involved"),
 "C20": ("property-based testing against numpy definitions", "determinant and inverse only for well-conditioned matrices"),
 "C21": ("stateful property-based testing against direct distances", "1e-12 relative"),
 "C22": ("property-based testing of the row ranges and task histories", "driven through the task queue and the range function"),
 "C23": ("schedule fuzzing with a deterministic thread scheduler (every lock, wait, signal and memory access is a choice point), deadlock and lost wake-up as failure", "schedules are sampled by seed and policy, sequentially consistent memory"),
 "C24": ("fuzzing under address and undefined-behaviour sanitizers with library assertions, and under memcheck for uninitialised reads", "memcheck runs fewer cases than the sanitizers"),
 "C25": ("property-based testing against definitions and metric laws", "vectors up to 70,000 values"),
 "C26": ("property-based testing against an independent Anderson-Darling computation, seeded statistics", "statistical thresholds six deviations wide"),
 "C27": ("model-based property testing against the serial stream", "streams of a few thousand values"),
 "C28": ("stateful model-based property testing of containers", "single thread except the boolean vector"),
 "C31": ("metamorphic property-based testing: sequences and concurrent combinations of runs vs each run alone", "the OpenMP engine only in sequence; near-tied cases skipped"),
 "C32": ("stateful model-based property testing of the statistics classes", "within the capacity the class asserts"),
 "C33": ("differential and metamorphic property-based testing of the tools' printed reports vs library runs", "lines a tool does not print are not judged"),
}
NA = {
 "C29": "gmm's soft_run is unfinished in this tree: it prints and calls exit(911) before any update, so there is no fitting to generate inputs for",
 "C30": "the FlashGraph/SAFS submodule libsem builds on is absent from the tree, so this code cannot be compiled here",
}
def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(V, "lib", "checks", i.lower() + ".py")):
            t, note = T[i]
            checks.append({"property": i, "quick_cmd": "python3-vt check.py " + i,
                           "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py " + i,
                           "technique": t, "level": "exploration",
                           "level_note": "Holds on every generated case of this run; " + note + ". See DESIGN.md."})
        else:
            na.append({"property": i, "reason": NA.get(i, "not built yet")})
    m = {"version": 1,
         "setup_cmd": "python3-vt lib/build.py 'worker(\"fast\",\"routines\")'",
         "checks": checks, "not_applicable": na,
         "hooks": {"guard": "KNOR_VERIF_TASK_ROWS", "source_commits": ["5a8e60d4020cb7cdf80a07d6aebe22e6e82f0e1c"],
                   "enable": "-DKNOR_VERIF_TASK_ROWS=n in the variants tasks, schedt, asant, vgt and mpiasan of lib/build.py: rows per "
                             "task instead of 8192, so that small inputs make many tasks per thread; the other variants build as shipped"},
         "notes": "Harnesses under lib/worker compile /repo's sources out of tree."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks", [x["property"] for x in na])
main()
