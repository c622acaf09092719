#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "model": "seeded simulation of sessions (fragmentation, crash/restore, relocation, preemption) refined against an independent executable model",
    "refusal": "seeded simulation with injected forbidden calls; same transcript as the run without them",
    "isolation": "seeded preemptive interleaving of sessions inside library calls; same transcript as each session alone",
    "crash": "seeded crash/restore/relocation injection at arbitrary points inside calls; same transcript as the undisturbed run",
    "backends": "seeded simulation of mixed deployments: the same plan on every build, and parties on different builds",
    "builds": "seeded simulation of deployments of seeded custom builds: the same plan on several of them, and parties on different ones",
    "timing": "seeded simulation under the simulator's step clock and memory trace: the same plan with other data of the same lengths (and damage elsewhere) has the same trace",
    "memory": "seeded simulation in hostile memory: guard pages on either side, garbage contents, audit of everything around",
    "alone": "seeded simulation of interleaved and crashed calls between guard pages, and of KeccakSum.py on a faulty simulated file system, refined against an independent executable model",
    "file": "seeded simulation of the tool on a faulty simulated file system and terminal, against a model of its output",
}
WHAT = {"C13": "refusal", "C14": "isolation", "C15": "crash", "C16": "backends", "C17": "memory", "C19": "file", "C20": "timing", "C21": "alone", "C22": "builds"}
NOTE = {
    "model": "Every explored run agrees with the model, which is written from the specification and shares no code with XKCP. Not exhaustive. Trusts sim/ref.cpp; covers the x86-64 targets this CPU runs.",
    "refusal": "On every explored run a forbidden call failed, wrote nothing and left no trace in later outputs. Not exhaustive; forbidden calls are those the headers name.",
    "isolation": "Explored interleavings, preempted at basic-block granularity in C code (assembly kernels only at their boundaries), gave each session its solo transcript. Not exhaustive; sequentially consistent memory.",
    "crash": "Explored crash points and checkpoints gave the undisturbed transcript. Not exhaustive. Durable state is a byte copy of the object.",
    "backends": "Explored plans gave one transcript on all x86-64 targets this CPU runs. Not exhaustive; ARM, AVR and XOP targets are not simulated.",
    "builds": "Explored plans gave the transcript of a predefined target on custom builds drawn by the seed, in which every fragment this CPU can run occurs. Not exhaustive: about 14 of some 60,000 combinations per seed; ARM, AVR, XOP and Apple fragments are not simulated.",
    "timing": "Explored pairs of runs executed the same basic blocks and touched the same addresses, call by call, until the public answers differed. Not exhaustive. C code as this compiler compiles it (memory functions of the C library stepwise); assembly kernels, masked and gathered vector accesses and the durations of single instructions are not seen.",
    "memory": "Explored runs stayed inside their buffers and objects and did not depend on memory contents outside their inputs. Not exhaustive; over-reads are seen at page granularity on the guarded side.",
    "alone": "Every explored run agrees with the model, which shares no code with XKCP. Not exhaustive. The C programs run inside the simulator; the Rust one cannot be interrupted inside a call; the Python ones run in a child process, with open() simulated; the NumPy one is skipped where there is no NumPy.",
    "file": "Explored file trees, option sequences and I/O faults gave the digests of the model or a reported failure. Not exhaustive; stdio itself is simulated, KeccakSum and the library are real.",
}
checks = []
for l in open(f"{HERE}/properties.jsonl"):
    i = json.loads(l)["id"]
    w = WHAT.get(i, "model")
    checks.append({"property": i, "quick_cmd": f"python3 tools/check.py {i}", "thorough_cmd": f"python3 tools/check.py {i} --thorough",
                   "technique": "deterministic simulation: " + T[w], "level": "exploration", "level_note": NOTE[w]})
m = {
    "version": 1,
    "setup_cmd": "python3 tools/build.py",
    "hooks": {"guard": "none needed: the simulator uses compiler callbacks and symbol renaming on unmodified sources", "enable": "tools/build.py compiles /repo with -fsanitize-coverage=trace-pc and renames KeccakSum's stdio symbols with objcopy", "source_commits": []},
    "checks": checks,
    "not_applicable": [],
}
json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
