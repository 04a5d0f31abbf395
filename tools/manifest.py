#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "property-based testing: "
C = {
 "C01": (T + "generated series, settings and helper delays; invariant on the result, deadlock and panic detection", "Every run in a worker process; ends, length, finiteness, range and extremes are checked. Random search, no proof."),
 "C02": (T + "generated trajectories and series; reference model of the graph score", "Independent score model over the observed edges; compared within rounding."),
 "C03": (T + "generated series; reference model of the embedding", "Model in 64-bit arithmetic over the observed embedding."),
 "C04": (T + "generated series, thread counts and helper delays; eigen-decomposition as reference", "Axes judged by orthonormality and captured variance against an independent decomposition; points recomputed from them."),
 "C05": (T + "generated trajectories; reference model of segments and transitions", "Exact model; points within rounding of a border may take either side."),
 "C06": (T + "generated trajectories; reference model of crossings", "Geometric model in 64-bit arithmetic with a tolerance from the conditioning."),
 "C07": (T + "generated trajectories, threads and delays; reference density estimate", "Independent density estimate in 64-bit arithmetic; near ties may be grouped either way."),
 "C08": (T + "generated trajectories; reference path through the observed nodes", "Exact comparison of the edge list."),
 "C09": (T + "generated series; reference model of the contributions", "Model over observed clusterings and edges, compared with the written file."),
 "C10": (T + "generated series on generated cluster layouts of real processes; single-machine reference model", "Early stages only (embedding, statistics, axes, rotation, points); real message races are sampled, not controlled."),
 "C11": (T + "generated CSV layouts; differential against the run in memory", "File reading compared value by value and score by score."),
 "C12": (T + "generated series, old files and paths; round trip of the score file", "Bit-exact round trip."),
 "C13": (T + "generated schedules (injected helper delays) and repetitions; differential between runs", "Delays steer helper completion orders; bit-exact where rounding cannot differ."),
 "C14": (T + "generated histories of runs in one process; differential against fresh processes", "Bit-exact comparison of each run with the same run in a fresh process."),
 "C15": (T + "generated series and exact scalings; metamorphic relation", "Bit-exact with one helper thread."),
 "C16": (T + "generated command lines and program runs; table of options and differential against the library", "Parser in-process, program runs as child processes."),
 "C17": (T + "generated configurations; invariants of the assignment", "All segments and offsets of each generated configuration."),
 "C18": (T + "Hypothesis-generated settings, arrays and files; recorder and differential against the Rust library", "Real extension module built from the tree; BaseEstimator replaced by an empty class."),
 "C19": (T + "generated series and trajectories on generated cluster layouts of real processes; single-machine reference models", "The nodes' transitions, cuts, nodes and edges put together against the models of C05-C08; real message races are sampled, not controlled."),
 "C20": (T + "generated series and trajectories on generated cluster layouts of real processes; reference model of the graph score", "Scores of the main node and its file against the score model of the whole series; real message races are sampled, not controlled."),
 "C21": (T + "generated runs of the program with one injected fault each; exit status and left-over files", "Each fault is preceded by the same run without it, which has to succeed."),
}
NA = json.load(open(os.path.join(here, "tools", "not_applicable.json")))
na = {x["property"] for x in NA}
m = dict(version=1, setup_cmd="./build.sh && py/build_ext.sh",
  hooks=dict(guard="--cfg s2gpp_verif", enable='RUSTFLAGS="--cfg s2gpp_verif" (set by build.sh)', source_commits=["cda7202", "cb909b9", "7aa78d5"]),
  checks=[dict(property=p, quick_cmd=f"./check.sh {p} quick", thorough_cmd=f"./check.sh {p} thorough",
               technique=t, level="exploration", level_note=n) for p, (t, n) in C.items() if p not in na],
  not_applicable=NA)
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
