#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
CH = {
 "C01": ("exploration", "deterministic simulation: seeded map-iteration orders, clock, environment and histories of simulated gogll processes, compared with an undisturbed run from a clean directory",
         "Sampled schedules, grammars and histories; every range over a map in gogll and its dependencies is under the simulator. Trusts the Go compiler and standard library, the source rewriter, and that no other source of nondeterminism exists (repeated runs are compared)."),
 "C08": ("fault_enumeration", "deterministic simulation with fault injection: every file system call of an undisturbed run gets every kind of I/O fault that fits it, plus random multi-fault plans and full disks",
         "All single faults at all counted calls for the sampled grammars, modes and disk states; multi-fault plans sampled. Faults are injected at the system-call seam of the Go runtime on a real scratch directory."),
 "C09": ("exploration", "deterministic simulation: rejected grammars under seeded map orders, I/O faults and crashes with previous outputs on the disk",
         "Sampled grammars, map orders and faults. What counts as rejected is what the fault-free run rejects, plus grammars that are wrong by construction."),
 "C10": ("fault_enumeration", "deterministic simulation with crash and I/O-fault injection at every system call that touches an ast file, with loss of unsynced data, over seeded histories",
         "All single faults and crashes at calls that touch an ast file, sampled elsewhere; histories sampled. Power loss follows a model in which unsynced data and renames may be lost, torn or reordered per file."),
 "C11": ("exploration", "deterministic simulation: every mutating system call of gogll is judged against the list of its own outputs, with decoy files, under faults and crashes",
         "Sampled modes, surroundings, faults. Mutating calls outside the scratch root are denied and reported."),
 "C12": ("fault_enumeration", "deterministic simulation with crash injection before, during and after every system call, with loss of unsynced data, then a repair run compared with an undisturbed one",
         "All crash points of the sampled runs; power loss and longer histories sampled."),
 "C02": ("exploration", "deterministic simulation: generated GLL parsers run with every map iteration (pending descriptors, return points, popped positions) in seeded orders; forest compared node by node with a reference model",
         "Sampled grammars (fixed and random, with left, hidden-left, nullable, cyclic and ambiguous recursion), inputs and schedules of generator and parser. The reference is an independent tabular recogniser that counts derivations by spans."),
 "C03": ("exploration", "deterministic simulation: generated GLL parsers on rejected and accepted inputs under seeded map-iteration orders; errors compared with a reference computation of viable prefixes and lookahead",
         "Sampled grammars, inputs and schedules. The expected tokens of an entry are bounded by the reference's first and follow sets; which entries appear besides the furthest is not specified, but must not depend on the schedule."),
 "C04": ("exploration", "deterministic simulation: SPPF extraction under seeded map-iteration orders between other queries and parses; graph compared with the reference's binarised forest, all visible state compared before and after",
         "Sampled grammars, inputs, schedules and short histories in one process."),
 "C05": ("exploration", "deterministic simulation: seeded scheduler interleaves tasks at every statement of the generated code; results compared with those of a fresh process; part of the runs under the race detector with the hand-overs hidden from it",
         "Sampled histories of up to 5 tasks. Interleaving is sequentially consistent at statement granularity; weaker memory effects are covered by the race detector only."),
 "C06": ("exploration", "deterministic simulation: generator under seeded map-iteration orders, generated lexers on seeded inputs, NewFile on a simulated disk with short, interrupted and failing reads; compared with a reference automaton",
         "Sampled lexical grammars, inputs and read-fault sequences."),
 "C07": ("exploration", "deterministic simulation: generator and LR(1) parser under seeded map-iteration orders, failing semantic actions injected; verdict, action calls and errors compared with reference LR(1) construction and derivations",
         "Sampled grammars and inputs. With -resolve_conflicts the reference is the canonical table with its conflicts resolved; for -pager only where no reductions conflict (otherwise soundness); parses that rightly never end are left out."),
 "C14": ("exploration", "deterministic simulation: gogll on seeded markdown layouts of grammars, right and wrong ones, with split and interrupted reads and seeded map orders, compared with gogll on the same text with the prose blanked; places in messages checked against the planted mistake",
         "Sampled grammars, layouts, reads. The reference for what is inside a fence is an independent scanner; layouts whose meaning is not documented (fences directly after fences, unclosed ones) are left out."),
 "C15": ("exploration", "deterministic simulation: the fixed-point computation runs in seeded map-iteration orders on seeded grammars with long chains of dependence; the printed sets are compared with an independent least fixed point",
         "Sampled grammars (random ones and chains of rules in every order) and schedules. LR(1) first sets are covered by C07 only, through the tables."),
 "C16": ("exploration", "deterministic simulation: gogll on seeded grammars in seeded map orders, from clean and used directories, with and without conflict resolution; every report is parsed and compared with an independent reference (lexical automaton walked as a product, LR(1) collection by closure and goto, conflicts from the items)",
         "Sampled grammars and schedules. Grammars in which two items have the same text, or some rule derives no string, and lexical rules beyond a small reader are left out. -pager states are checked for consistency, not for minimality."),
 "C17": ("exploration", "deterministic simulation: pairs of simulated gogll calls on the same grammar text from different places, with options in other orders, spellings and harmless combinations, each in its own seeded map order, clock and environment; their files, output and status are compared; wrong command lines against a disk that must not change",
         "Sampled grammars, places and option sets. -CPUProf is left out (its profile is a measurement of the real process)."),
 "C13": ("exploration", "deterministic simulation: histories of self-generation under seeded map orders, faults, crashes and power loss, and differential simulation of gogll and the gogll rebuilt from its own output",
         "Two generations are built; generation three is covered by the second one's output being the first's. Sampled grammar texts with every construct of the grammar language."),
}
NA = {}
PENDING = {}
m = {"version": 1,
 "setup_cmd": "./run.sh setup",
 "hooks": {"guard": "none in /repo: the seams are added by go build overlays (package simrt, hooks in syscall/os/time/math/rand, rewritten map iteration)",
           "enable": "the checks build /repo's working tree with 'go build -overlay' through sim/cmd/vs", "source_commits": []},
 "checks": [], "not_applicable": [],
 "notes": "Run './run.sh check <ID> [quick|thorough]' or './run.sh replay <file>'. See DESIGN.md."}
for p in sorted(CH):
    l, t, n = CH[p]
    m["checks"].append({"property": p, "quick_cmd": f"./run.sh check {p} quick", "thorough_cmd": f"./run.sh check {p} thorough",
        "evidence_file": f"evidence/{p}.json", "technique": t, "level": l, "level_note": n})
for i in range(1, 18):
    p = f"C{i:02d}"
    if p not in CH:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, PENDING.get(p, "No check yet."))})
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
