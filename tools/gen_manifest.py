#!/usr/bin/env python3
"""Single source for /verif/MANIFEST.json (run it after editing)."""
import json, os
T = {
 "C01": ("stateful model-based testing plus exhaustive short histories", "All edit histories up to a small length over two ids are enumerated; longer ones with arbitrary 64-bit ids are sampled. Oracle: a pair of ordered sets."),
 "C02": ("round-trip and model-based testing on real files", "Sampled graphs and append batches, from empty to several I/O buffers. Oracle: the command list itself and set replay."),
 "C03": ("grammar-based and byte-level fuzzing against a reference parser", "Sampled valid, mutated and random file contents. Oracle: an independent line parser written from the documented grammar."),
 "C04": ("round-trip and metamorphic testing of files", "Sampled graphs, labels, comments and spacing. Oracle: the graph before saving, and the same file without labels."),
 "C05": ("stateful model-based testing of the commands", "Sampled sequences of invocations of the real binaries on several directories. Oracle: the edits applied to ordered sets."),
 "C06": ("fault injection into generated edits (failing, short and cut-off writes)", "For each generated edit every file operation is failed in turn, through an LD_PRELOAD stand-in for libc's file calls. Trusts that the commands do their file work through libc."),
 "C07": ("generated schedules of concurrent commands, stopped before every file operation", "Commands are stopped (SIGSTOP) before each of their file operations while others run, and the outcome is compared with the serial ones. Trusts that the commands do their file work through libc."),
 "C08": ("exhaustive small graphs and random graphs against a validity predicate", "All graphs of up to 4 vertices and sampled larger ones. Oracle: every edge goes forward; a cycle exists otherwise."),
 "C09": ("differential testing against a reference shortest-path algorithm", "All small graphs and sampled larger ones, weights and consistent heuristics. Oracle: Bellman-Ford on the model."),
 "C10": ("differential testing against reference path algorithms", "All small graphs and sampled larger ones, weights of any sign. Oracle: fixpoint relaxation on the model and longest paths by enumeration."),
 "C11": ("differential testing against enumeration of walks by cost", "Enumerated pairs of constraints on fixed graphs and sampled graphs and lists. Oracle: walks enumerated by increasing cost within a budget; cases beyond it are left out and counted. One known finding (unbounded infeasible searches do not end)."),
 "C12": ("property testing against an independent evaluator of constraints", "Enumerated small constraints and paths and sampled nested ones. Oracle: an evaluator written from the descriptions; every prefix of every satisfying path must be kept."),
 "C13": ("property testing of validation against its documented rules", "Enumerated short lists and sampled longer ones. Oracle: the rules stated on sets, independent of order."),
 "C14": ("exhaustive small graphs and random graphs against enumeration of cycles", "All graphs of up to 4 vertices and sampled larger ones. Oracle: brute-force enumeration of simple cycles."),
 "C15": ("differential testing of gc-cycle against enumeration of cycles", "Sampled connected graphs, actions and option combinations run through the real binary. Oracle: brute-force enumeration filtered by the options' meaning."),
 "C16": ("exhaustive small graphs and random graphs against permutations", "All graphs of up to 4 vertices and sampled larger ones. Oracle: enumeration of permutations."),
 "C17": ("property testing against a reference minimum cut", "All small graphs with small capacities and sampled larger ones. Oracle: feasibility of the returned flow and minimum cut by enumeration or a reference algorithm."),
 "C18": ("exhaustive small graphs and random graphs against validity predicates", "All small graphs and sampled larger ones. Oracle: reachability, distances and simple paths of the model; any order the traversal may legally produce is accepted."),
 "C19": ("stateful model-based testing", "Sampled sequences of attribute commands. Oracle: an ordered map."),
 "C20": ("stateful model-based testing plus exhaustive short histories", "Enumerated and sampled push/pop sequences. Oracle: a sorted or unsorted list."),
 "C21": ("property testing of gc-random's output over many runs", "Sampled sizes, answers and stored graphs through the real binary, whose random generator is not controlled. Oracle: validity predicate on the stored graph."),
 "C22": ("property testing with directory snapshots", "Sampled queries, options and malformed values through the real binaries. Oracle: the directory before the query, and a classification of option values."),
 "C24": ("exhaustive short lists and random paths against the plain list", "All vertex lists of up to 5 over 3 ids and sampled ones of up to 600 vertices with any 64-bit ids. Oracle: the list of vertices itself."),
 "C25": ("stateful model-based testing of the library on real directories, with several threads", "All sequences of 4 calls of 9 kinds on one directory, sampled longer ones on several directories with nested blocks, and several threads that the operating system schedules. Oracle: a graph and a lock per directory."),
 "C26": ("property testing against an independent reader and evaluator", "Sampled words, lists and options. Oracle: a digit-by-digit reader and the options' meaning evaluated on the path."),
 "C27": ("property testing and exhaustive small domains against enumeration of walks", "All pairs of 44 constraints on five 4-vertex graphs; sampled graphs, costs and constraint lists beyond. Oracle: all walks enumerated by cost within a budget."),
 "C28": ("fault injection: commands killed before generated file operations, or failed at them, against bounds from a set model", "Sampled edits, stored graphs and cut points (libc file calls, short writes). Oracle: the stored graph lies between the old and the new one."),
 "C29": ("metamorphic testing: each command in its plain and another generated spelling, on copies of one directory", "Sampled commands, option combinations, spellings, orders and names of the directory. Oracle: the plain spelling's status, stored graph and answer."),
 "C23": ("property testing with directory snapshots", "Sampled directory contents, answers and flags through the real binary. Oracle: the directory before the command."),
}
checks = [dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
    technique=t, level="exploration", level_note=n) for i, (t, n) in sorted(T.items())]
ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"))]
assert ids == [c["property"] for c in checks], ids
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[],
    notes="No hooks are needed: everything is checked through public interfaces and the real binaries. Replay a failure with ./check.sh <id> --replay <file>.")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
