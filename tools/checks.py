C.update({
 "C02": (X, "content, packedness and reuse monitor around every pack, judged on the store's write log and independently decoded blocks",
   "Seeded random histories (including retain and repair with lost blocks) followed by pack; not exhaustive."),
 "C03": (X, "metadata invariant monitor on every tree after every operation, recomputed from raw blocks",
   "Every node of every tree of thousands of random histories is recomputed; not exhaustive."),
 "C04": (X, "reference-model oracle over random trees and queries, set-algebra oracle for combinators",
   "Seeded random trees and queries of all combinators, with erratic but sound pruning; not exhaustive."),
 "C05": (X, "online checker of the chunk sequence (contiguity, coverage, content, origin of extra) with a spying query",
   "Seeded random trees and queries; not exhaustive."),
 "C06": (X, "spying query and offline checker of the index traversal against independently decoded blocks; labelled-tree oracle for the graph dump",
   "Seeded random trees and queries; not exhaustive."),
 "C07": (X, "keystream ledger: online interval-disjointness monitor over every block handed to the store, under injected faults, rollbacks and reloads",
   "Every block of thousands of random histories with faults is entered in the ledger; not exhaustive."),
 "C08": (X, "independent decoder and plaintext-leak scanner on every written block, wrong-key probes",
   "All blocks of thousands of random histories; not exhaustive."),
 "C09": (X, "independent link extraction from decrypted content compared with the public links section of every block; malformed link inputs",
   "All blocks of thousands of random histories; not exhaustive."),
 "C10": (X, "limit monitor on every node of every tree; byte-boundary, oversize and incompressible workloads",
   "Random configurations and histories plus directed boundary cases; not exhaustive."),
 "C11": (F, "a failing store is injected at every read and write position of an operation; snapshot-before/after and retry monitor",
   "For each sampled history every fault position of the operation under test is enumerated (or sampled when there are very many); histories are random."),
 "C13": (X, "reference-model oracle (independent recomputation of which subtrees a retain must forget), reachable-block and summary monitor",
   "Seeded random trees, queries and repeated retains; not exhaustive."),
 "C14": (F, "every block of a tree is lost, failing or damaged in turn; every read is compared with the reference content",
   "Damage positions are enumerated per sampled tree, bytes of the damage are random."),
 "C15": (F, "random and enumerated subsets of lost blocks; oracle computes expected loss and report from independently decoded blocks",
   "Every single lost block of a sampled tree and random subsets."),
 "C16": (X, "offline checker of the delivered stream (exactly once, order, range, termination) under a scripted sequence of snapshots, faults and polls",
   "Seeded random scripts of snapshots, faults and poll schedules; not exhaustive."),
 "C17": (X, "offline checker of the reverse stream (exactly once, order, range, termination) under a scripted sequence of snapshots, faults and polls",
   "Seeded random scripts; not exhaustive."),
 "C20": (F, "write-order monitor on the store: every prefix of the write log is a crash point, all roots published so far are read back from it; block reuse monitor",
   "All crash points of each sampled history; histories are random."),
 "C21": (X, "lockstep monitor: original and reloaded builder continue with the same operations, blocks and roots are compared byte by byte; access log for loads",
   "Seeded random histories with a reload at random positions; not exhaustive."),
 "C25": (X, "access-log monitor: every block fetched by a read must be needed according to independently decoded summaries and offsets",
   "Seeded random trees and queries; not exhaustive."),
 "C26": (X, "reads of trees with depth of thousands of levels on threads with a small stack, compared with the reference content",
   "Random deep trees up to a few thousand levels; reads that are documented to be recursive are excluded."),
 "C12": (X, "snapshot-immutability monitor over concurrent writers, readers and live streams with delays injected at the store accesses; re-reading of old snapshots after later operations",
   "Random interleavings (evidence counts the distinct sequences of store accesses by thread); not all interleavings."),
 "C18": (X, "differential monitor: lockstep runs of one history with and without caches, with capacity probes of the caches",
   "Seeded random histories, cache sizes and reads; not exhaustive."),
 "C24": (X, "AddressSanitizer (Rust and C code), allocation monitor and reference oracle over random, mutated and malicious codec input",
   "Tens of thousands of generated inputs per run; not exhaustive, not coverage guided."),
 "C19": (X, "model-based monitor of the memory store (with an offline checker of concurrent histories), the SQLite store (reopening, kills, lost rows) and the IPFS store against a scripted faulty node",
   "Seeded random blocks, capacities, threads and replies; not exhaustive."),
 "C22": (X, "brute-force truth-table oracle for expressions, reference oracle for tag indexes, mutated encodings",
   "Tens of thousands of random expressions, each compared on every tag set over its tags; not exhaustive."),
 "C23": (X, "reference-model oracle (element by element) over random trees of timed, tagged elements and random alternatives",
   "Seeded random trees and queries; not exhaustive."),
 "C27": (F, "banyan-cli processes observed through their output, their database and a preloaded recorder of file operations; model oracle; database images rebuilt for kills and power cuts at sampled operations",
   "Random command sequences; of each recorded command about ten crash points (and all those right after a root was printed) are rebuilt and read."),
 "C28": (X, "scripted IPFS node on the loopback interface that cuts, delays and breaks its responses; received messages and printed elements are compared in order with what was sent; real banyan-cli senders and receivers",
   "Seeded random messages, cuts, pauses, flaws and root sequences; not exhaustive."),
 "C29": (X, "offline checker of the printed graphs and blocks against the tree decoded independently from the stored blocks; list model for the sequences in an index",
   "Seeded random histories, with lost blocks and wrong keys; not exhaustive."),
 "C30": (X, "streams forged by the harness with exactly one violated invariant (or none) at a known node; verdict of the checks compared with it",
   "Every kind of violation, at random nodes of random trees; not exhaustive."),
})
