#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "bfs": "explicit-state model checking of the real code: exhaustive breadth-first search over operation histories against a reference model, every execution monitored",
 "fault": "exhaustive fault enumeration inside explicit-state model checking: every operation cut short at every call into caller-supplied code, from every state within bounds",
 "drops": "exhaustive fault enumeration inside explicit-state model checking: every operation with a panic in every destructor it runs, from every state within bounds, then every operation",
 "refusals": "exhaustive fault enumeration inside explicit-state model checking: every operation with a panic in every request it makes to its allocator, from every state within bounds, then every operation",
 "cases": "exhaustive enumeration of the bounded input space on the real code against an independent reference",
 "shared": "explicit-state model checking of the real code: exhaustive search over states, every read in every state under write protection and every interleaving of two readers at element-callback granularity",
 "programs": "explicit-state enumeration of a model of borrows: every trace of bounded length is turned into a client program and replayed against the real signatures by the compiler",
 "pool": "explicit-state model checking of the real pool: every memory block, every order of requests and returns within bounds",
}
KIND = {"C22": "fault", "C33": "drops", "C34": "refusals", "C23": "cases", "C27": "cases", "C26": "pool", "C29": "shared", "C30": "programs"}
NOTE = {
 "C01": "Element types of 1 to 64 bytes; lengths to 24, capacities to 64 (thorough: 40, 128); unmerged histories of 5 (7) operations cross-check the merging of states.",
 "C02": "The same spaces as C01, judging capacities, requests and addresses.",
 "C03": "Every order of calls from every state up to length 9 (12), dropped at every point.",
 "C04": "Lengths to 80, map to 38 slots (160, 78); every block size of EASTL; unmerged histories of 9 (11) operations.",
 "C05": "Every interleaving of both ends at lengths to 9 (14) and chosen orders beyond; conversion to binary-compatible pairs after every number of calls.",
 "C06": "Lengths to 140 (300); windows sliding 400 (4000) times.",
 "C07": "7 (8) keys under 8 hash functions from constant to injective, all states; growth thresholds to 199 (823) entries.",
 "C08": "8 (10) keys under 7 hash functions, all states; growth thresholds to 199 (823) entries.",
 "C09": "Every state over 7 (9) keys, the pair converted after every number of consumed entries, both directions.",
 "C10": "Every state over 8 (10) keys; growth to 3000 (60000) entries; the policy at every prime around every threshold for 12 pairs of factors.",
 "C11": "9 (11) keys under 7 strict weak orders, all states; 100 entries in three orders.",
 "C12": "Every content of 3 (4) of 5 characters; every Unicode character through every operation; unmerged histories of 5 (7) operations.",
 "C13": "The spaces of C12, judging the byte after the content and the storage requested.",
 "C14": "The spaces of C12, judging the bytes; indices inside every multi-byte character.",
 "C15": "Lengths to 16 (30), links walked in raw memory in both directions after every operation.",
 "C16": "0 to 5 inline nodes, lengths to 7 (8), stable and conformant nightly variants.",
 "C17": "1 to 8 inline elements, lengths to 14 (24), moves in every state.",
 "C18": "All red-black trees of up to 13 (16) nodes, every key and gap, 10 combinations of key, value and comparator.",
 "C19": "The trees of C18, and fixed maps of 1 to 6 inline nodes with nodes taken in several orders; cleared, cleared again, dropped.",
 "C20": "The spaces of all containers, under an arena that checks sizes, alignments, owners, red zones and freed memory.",
 "C21": "The spaces of all containers, with elements registered from construction to drop.",
 "C22": "Two (three) operations cut short out of four (five), from every size, for every container; panics of destructors are C33's; one operation on up to 257 elements from large sizes.",
 "C23": "All 32-bit patterns; all 8- and 16-bit integers; wider types around every boundary; all strings of up to 3 bytes, every character, every length to 4096.",
 "C24": "The spaces of all containers, decoding raw memory after every operation.",
 "C25": "Every size to 5000 and alignment to 4096, all histories of 4 (5) blocks; memory exhausted at every request of 19 histories.",
 "C26": "Pools of 7 node layouts on blocks of every length and misalignment up to 4 (5) nodes; needs the hooks.",
 "C27": "Every request around every power of two and every wrap point, for 13 element types, from small and enormous states.",
 "C28": "Keys whose own equality and order are useless; 8 pairs of hash and equality, 6 comparators, all states over 6 to 10 keys.",
 "C29": "22 container types, all states to 9 (16) elements or 6 (7) keys and sizes 33, 130, 300; every pair of reads; 1664 auto-trait verdicts. Writes to the crate's own statics would not be seen (it has none).",
 "C30": "All programs of one lend, one further call or escape and one use (3922), for 14 container types; each is judged by rustc. Unsafe constructors and the pinned insides of fixed containers are outside.",
 "C31": "Every length and capacity to 6 (10); maps of 8 to 18 slots, every first and last slot, every offset in them; 10 bucket counts, prime or not, 5 pairs of factors, 3 thresholds, every set of 4 keys in 2 chain orders; all 66 trees of up to 7 nodes; then 1 or 2 (2 or 3) operations and the drop. Strings are left out: the crate keeps no room for NUL inside the capacity, which C++ does.",
 "C33": "Sizes 0-8 (hash tables and vector maps as in C22), a fixed set of sizes up to 129 with up to 257 arguments, every tree of up to 9 (12) nodes; one (two) panicking destructors per history, at every position, then every operation, 2 (3) operations in all.",
 "C34": "The sizes of C33; one (two) refused requests per history, at every position, then every operation, 2 (3) operations in all. Allocators that return instead of panicking cannot refuse.",
 "C32": "Up to 7 (9) entries in hash tables, 17 (40) in vector maps, every tree of up to 9 nodes; up to 20 answers per operation (2^20 sequences), then only noes; sources of 12 lengths up to 100 with some 80 hints each; 10 texts, up to three different ones per look.",
}
NA = {
}
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "technique": TECH[KIND.get(i, "bfs")],
        "level": "model_checking",
        "level_note": NOTE[i],
    })
m = {
    "version": 1,
    "setup_cmd": "./check.sh setup",
    "hooks": {
        "guard": "eastl_rs_verif",
        "enable": "RUSTFLAGS='--cfg eastl_rs_verif' (check.sh sets it); without it the crate is unchanged",
        "source_commits": ["af81e3563afa9e4c61bdafcd44ef9e50870a4a34"],
    },
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
