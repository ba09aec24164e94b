#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
MC = "explicit-state exploration of the real tree against a multimap model"
HIST = ("all operation sequences to a depth over small key alphabets, every prefix of growing and draining scripts "
        "of up to several dozen entries, and all short sequences around script states, for all small configurations; ")
C = {
 "C01": ("model_checking", MC, HIST + "results, iteration, length and lookups are compared with a multimap after each transition"),
 "C02": ("model_checking", MC, HIST + "the bounds of every node in the Debug output are compared with the union computed by the model"),
 "C03": ("model_checking", MC, HIST + "fill, root and depth rules are checked on the Debug output of every state"),
 "C04": ("model_checking", MC + " with enumerated filters", "in every explored tree, filters for key sets (all of them for few keys) with exact, loose and geometric bounds tests; shared and mutable forms"),
 "C05": ("model_checking", MC + " with recording filters", "every explored tree with filters, joins and lookups that record each call; the calls are matched to the nodes of the Debug output"),
 "C06": ("model_checking", MC + " with enumerated rankings", "in every explored tree, enumerated assignments of metrics to keys, with exact and loose lower bounds; shared, mutable, filtering and minimum forms"),
 "C07": ("model_checking", MC + " with recording rankings", "as C06; each call of a ranking is matched to the nodes of the Debug output"),
 "C08": ("model_checking", "exhaustive pairs of explored trees joined on the real code against a nested-loop model", "ordered pairs of explored trees (equal and different heights, configurations and key types) with enumerated relations"),
 "C09": ("model_checking", "exhaustive pairs of explored trees and iterator schedules against a nested-loop model", "as C08; ways to interleave the outer and inner iterators are enumerated, all of them for small results"),
 "C10": ("model_checking", MC + " for a tree and its clones", "in every explored tree every operation on either side, dumps of both compared"),
 "C11": ("model_checking", "exploration of the real code with registered objects and a checking allocator; AddressSanitizer and Miri stages", "live objects and heap blocks are counted after each operation, query and abandoned iterator; types of different sizes, alignments and without size; leaks and freed memory are seen everywhere, stray reads only by the sanitizer stages"),
 "C12": ("fault_enumeration", "exhaustive enumeration of panic points in user callbacks on the real code", "every callback of every operation in every explored tree panics in an execution of its own; registered objects, yielded entries and later operations are checked"),
 "C13": ("model_checking", MC + " with equal keys", HIST + "the entry each key operation acts on is compared with iteration order"),
 "C14": ("model_checking", MC + " with writes through mutable queries", "every mutable query of every explored tree against its shared form, with addresses and later reads"),
 "C15": ("exploration", "exhaustive enumeration of shapes on integer grids against exact geometry", "all boxes and points of a grid in one to three dimensions, several coordinate types, each pair"),
 "C16": ("exploration", "exhaustive enumeration of segments, rays, spheres and boxes on grids against exact integer geometry", "all segments and rays between grid points against all boxes of a grid, in one to three dimensions"),
 "C17": ("model_checking", MC + " with the provided filters", "every explored tree for each supported key type with all query shapes of a grid"),
 "C18": ("model_checking", MC + " with distance rankings; exhaustive grids for the distances", "all pairs of a grid for the distances; every explored tree with all grid points as origin"),
 "C19": ("model_checking", "all queries and joins on trees emptied along all explored histories", "new trees and trees emptied by removal, each provided filter and ranking, each side of the joins"),
 "C20": ("exploration", "exhaustive enumeration of shapes and histories over extreme coordinates", "all boxes, segments, rays, spheres over alphabets of extreme and typical values for i32, u32, N32 and f32; trees of such keys"),
 "C21": ("model_checking", "exhaustive iterator schedules on explored trees", "every interleaving of two iterators for small trees, every abandonment point, and the end is asked for repeatedly"),
 "C22": ("model_checking", MC + " for borrowed forms of keys", "String, boxed and user-defined borrowed forms; each operation against its owned form"),
 "C23": ("model_checking", MC + " with over-approximating bounds", "several lawful lossy bounds types over the history spaces; results compared with the model, bounds with what lies below"),
 "C24": ("model_checking", "controlled scheduler enumerating thread schedules on the real code; enumeration of content types for auto traits", "all schedules of two or three threads with switches at every callback and item, complete or up to the largest number of switches that fits; Send and Sync of trees and iterators for all 64 combinations of contents; the schedules run under ThreadSanitizer, too, where the hand-over orders no memory accesses. Weak memory behaviour is not explored"),
 "C25": ("model_checking", MC + " with dumps before and after operations without effect", "every explored tree with all absent and present keys; all histories of a depth and scripts with keys that have an identity of their own"),
 "C26": ("model_checking", "explicit-state exploration of the real tree; each transition judged on the structures before and after", HIST + "each insertion is matched to one path of least growth, and each removal without underflow to one leaf"),
 "C27": ("exploration", "exhaustive enumeration of pairs of vectors over coordinate tables", "all pairs of vectors over a table per coordinate type, in one to five dimensions, against integers"),
 "C28": ("model_checking", MC + " with recording filters", "every explored tree and pair of trees; what was examined last is compared with each item yielded"),
 "C29": ("fault_enumeration", "exhaustive fault injection into destructors, and exhaustive schedules of forgotten iterators, on the real code", "each destructor call of each operation panics in a run of its own; registry of objects and checking allocator"),
 "C30": ("model_checking", "exhaustive enumeration of configurations and histories on the real code in lockstep with a multimap", HIST + "for every configuration in a range, also outside of what is sensible; registry of objects and checking allocator"),
 "C31": ("model_checking", "exhaustive enumeration of the answers of user code (choice points) on the real code", "each answer is a choice point: all ways of giving one or two wrong ones in bounded histories, and all constant policies; registry of objects and checking allocator"),
 "C32": ("fault_enumeration", "exhaustive injection of allocation failures, a process for each", "each allocation of each explored history fails; the exit status of the process is judged"),
 "C33": ("model_checking", "explicit-state exploration with several representatives per state (a bisimulation check of the state abstraction)", "pairs of histories that lead to equal trees; all operations and queries on both"),
 "C34": ("model_checking", "explicit-state exploration with logging bounds and keys", HIST + "what each operation examines is compared with the paths of the tree before it"),
 "C35": ("model_checking", "exhaustive nesting of operations in callbacks of the real code", "every callback of every operation and query on the trees within the bounds, with every nested operation; iterators of a left join that step and drop each other within callbacks; operations are nested one deep"),
 "C36": ("model_checking", "explicit-state exploration of the real code under an accounting allocator", HIST + "bytes held and peak bytes are measured at each transition and each step of each query, against limits from the number of nodes, the height and what was looked at"),
 "C37": ("exploration", "exhaustive enumeration of client programs, judged by the compiler, against a model of borrows", "all programs of a bounded length over 25 kinds of queries; the model is compared with the verdict of cargo check on each"),
 "C38": ("model_checking", "explicit-state exploration in two builds of the real code, in lockstep", "what operations and queries do in each explored state, including their calls of user code, is recorded in a build with and one without checks"),
 "C39": ("model_checking", MC, HIST + "a third, two thirds or all keys have the bounds of nothing; filters, rankings and joins are enumerated on every state and pair of states"),
 "C40": ("model_checking", MC, HIST + "for each of eight types of coordinates and vectors; shapes are enumerated over tables of coordinates and compared with shapes of integers"),
 "C41": ("model_checking", MC, HIST + "the output with each set of options is compared with iteration and with what a filter is shown; writers fail at each byte, objects at each call"),
 "C42": ("model_checking", MC, HIST + "each transition is explained from the trees before and after it: which node received what, and how nodes were split"),
}
checks = []
for p, (level, tech, note) in C.items():
    if not os.path.exists(f"{root}/harness/src/bin/{p.lower()}.rs"):
        continue
    checks.append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
                   "technique": tech, "level": level, "level_note": note})
m = {
 "version": 1,
 "setup_cmd": "cd harness && cargo build --release --offline --bins",
 "checks": checks,
 "not_applicable": [],
 "notes": "No hooks: the checks observe the tree through its public interface, user-supplied types and Debug output. ./check.sh ID quick|thorough; replay: harness/target/release/cNN replay FILE.",
}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
