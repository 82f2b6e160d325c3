#!/usr/bin/env python3
"""Writes MANIFEST.json. Properties with an entry in NOTES are claimed; the rest are listed as not applicable."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BFS = "explicit-state model checking of the real code against a reference model"
SCHED = "stateless model checking of the real code: all schedules under a controlled scheduler"
ENUM = "exhaustive bounded enumeration of programs against a reference model"
NOTES = {
 "C01": (BFS, "Every reachable joint state of table and reference map over the stated key universes and hash assignments, all histories; growth and splits reached by walks over sizes. Bounded by key count and capacity."),
 "C02": (BFS, "The reachable state graph over the key universe is closed, so histories of any length over those keys are covered. Bounded by the number of keys; beyond it walks through all sizes and every change to the sparsest trees of each height."),
 "C03": (BFS, "Closed state graph over the key universe; every transition re-checks all versions and half-consumed iterators taken before it. Bounded by the number of keys and branching versions, plus walks and the sparsest trees of each height."),
 "C04": (BFS, "Closed state graph over the key universe, real heights recomputed from the node interface at every node of every state. Bounded by the number of keys, plus walks to larger sizes and every change to sparse and uneven trees."),
 "C05": (BFS, "All histories over the key and value universe up to the stated number of entries and node sizes, against a multiset; every triple of run lengths and walks over sizes for larger trees and nodes; values of every kind."),
 "C06": (BFS, "In every explored tree all iterators and all ranges over present and absent bounds, both directions."),
 "C07": (BFS, "Closed state graph over the key universe for several node sizes, against a map; walks over sizes for nodes up to 64 wide."),
 "C08": (BFS, "Closed state graph over universes of prefix-related keys, against a map of byte strings; walks over all words of bounded length, all byte pairs and long keys."),
 "C09": (BFS, "In every state of the closed graphs every prefix of a bounded universe is searched and compared."),
 "C10": (BFS, "As C08 with keys passed inside larger buffers in four layouts which are compared and then overwritten after every call, and buffers reused for other keys."),
 "C11": (BFS, "Closed state graphs of growable and fixed lists of every small capacity, including the hidden slots behind the length; copies explored to a depth; walks over all initial capacities and sizes past the shrink and growth thresholds."),
 "C12": (BFS, "Closed state graphs of sorted lists for both duplicate policies, growable and fixed, with distinguishable equal items; walks over sizes for every position pattern."),
 "C13": (ENUM, "Every pair of subsets of a bounded universe in every ordered pair of set kinds and element types, with operand and result aliasing checked."),
 "C14": (BFS, "Closed state graphs of every adapter over every backing structure; walks over sizes. The random pick is drawn until every member was seen."),
 "C15": (ENUM, "Every collection over bounded item sequences, kinds, policies and item encodings, every truncation point, every short follow-up history; larger sizes by walks."),
 "C16": (ENUM, "Every value of the 8- and 16-bit types (32-bit too in the thorough tier), all bit patterns over a set of boundary bytes for wider ones, all short strings, all wrong lengths up to a bound."),
 "C17": (BFS, "Closed state graphs of min and max heaps over several priority sets including the extreme ints, items told apart by identity; walks over sizes. Bounded by the number of items held at once."),
 "C18": (BFS, "Closed state graphs over the item universe, priorities and hash assignments, equal items told apart; walks over sizes past the growth of the membership table."),
 "C19": (BFS, "Closed state graphs up to the stated length with the public node chain checked in every state; walks over sizes."),
 "C20": (BFS, "Closed state graphs over the item universe and hash assignments, equal items told apart; walks over sizes."),
 "C21": (ENUM, "Every ordered pair of values per type against a reference order (which implies the laws for triples): all pairs of the 8- and 16-bit types, boundary patterns beyond, all short strings; all pairs of containers of every list-like kind over bounded sequences."),
 "C22": (ENUM, "Every binary and ordered tree shape up to the stated number of nodes, long degenerate trees, every empty tree, every bounded chain, AVL trees of every insertion order and trie nodes of every bounded word set, against recursive references."),
 "C23": (SCHED, "All schedules (up to reordering of independent operations) and all random worker choices of every client program up to the stated number of submissions and stops, with 1 to 3 workers; larger programs and full 100-slot queues with a bound on preemptions; up to 12 workers and 420 tasks with a bound on deviations from four schedulers. Data races are detected by happens-before clocks."),
 "C24": (SCHED, "As C23 with wait-and-lock and wait-for-count calls, plain tasks and tasks ending one by one under the driver's control; blocked-forever states are deadlocks of the explored graph; larger pools as C23."),
 "C25": (SCHED, "All schedules of every client program of up to 4 draws and re-seeds in up to 3 threads, each checked for a linearization against math/rand; sequential use over all call sequences of length 3, thousands of seeds and long alternations of every two draws."),
 "C26": (ENUM, "Every program of the stated grammar (one block with up to 3 catches and 5 finallies, blocks nested two and three deep in body, handler and finally position, blocks run twice) against a reference interpreter, comparing the full event log, exception identity, type and reasons; every bounded list of catches over a family of 22 exception types."),
 "C27": (ENUM, "Every combination of outcomes of creation, body and close with up to two catches and finallies, nested resource blocks, and blocks run twice with different outcomes, against a reference interpreter; errors and closers of every kind."),
 "C28": (BFS, "Closed state graphs of create, chain and join histories over bounded numbers of objects and messages with sharing of memory part of the state; every way of creating an error with messages and traces checked; long chains and messages."),
}
PENDING = "No check in this revision."
def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
         "notes": "All checks are Go programs (mc/) built against /repo's working tree; run.sh rebuilds them for every check. For C23-C25 the packages pool and rand are rewritten for a controlled scheduler and built through a build overlay; /repo itself is not changed."}
    for i in ids:
        if i in NOTES:
            t, n = NOTES[i]
            m["checks"].append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
                "technique": t, "level": "model_checking", "level_note": n, "evidence_file": f"evidence/{i}.json"})
        else:
            m["not_applicable"].append({"property": i, "reason": PENDING})
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
main()
