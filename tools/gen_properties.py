#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))
W="banyan/src/forest/write.rs"; R="banyan/src/forest/read.rs"; T="banyan/src/tree.rs"; S="banyan/src/forest/stream.rs"
II="banyan/src/forest/index_iter.rs"; SB="banyan/src/stream_builder.rs"; Z="banyan/src/store/zstd_dag_cbor_seq.rs"; I="banyan/src/index.rs"; Q="banyan/src/query.rs"

p("C01","Appended elements read back exactly, in order, through every read path",
 "For every sequence of appends (single, bulk, unpacked, in any mix and order, including appends to a tree that is currently unpacked, empty appends and reloads in between), the tree holds exactly the appended key/value pairs numbered from zero in the order they were appended. Element access by offset, collecting from any offset, forward and reverse iteration and forward and reverse streaming all return precisely these elements, element access past the end returns nothing, and no append panics. This holds for every valid configuration and every value that fits in a leaf, whatever its CBOR shape or size.",
 ["inputs","histories","configurations"],"all append histories, tree configurations (leaf size, leaf count, branch factors, compression level) and value shapes/sizes",
 "The tests build trees with one fixed configuration from u64 values by one extend or one run of unpacked extends; mixed histories, big leaves, many children, reloads and unusual CBOR are not reached.",
 [W,R,T,Z],[("extend / extend_unpacked",T),("extend_above, extend0, extend_branch, extend_leaf",W),("get0, collect0, TreeIter",R),("fill / items / get / select",Z)],
 state=[("StreamBuilder root index","the tree built so far",SB)],observe=["Forest::get/collect/collect_from/iter_*/stream_*","BlockWriter::put"])
p("C02","Packing keeps the content, yields a packed tree, and is a noop when packed",
 "Packing any stream at any time leaves every element at its offset with the same key and value, and afterwards the tree is packed to the left (and reported as packed); if that is impossible because data in the unpacked part is gone, packing fails and leaves the stream as it was. Packing an already packed tree changes nothing and writes no block; otherwise all full subtrees that can be reused are reused without being rewritten. The packed tree's root can always be reloaded and extended further.",
 ["histories","configurations"],"all trees reachable by mixes of append, unpacked append, retain and reload, under all configurations",
 "Tests pack a few random trees under one configuration and only compare collected values; exact-fill shapes, different branch factors, block reuse, no-op and reloadability are not checked.",
 [T,W,R],[("pack, tree_from_roots",T),("simplify_roots, find_valid_branch",W),("roots_impl, is_packed0",R)],observe=["Transaction::pack","BlockWriter::put"])
p("C03","Every node's index metadata agrees with the data below it",
 "In every tree the library builds, at every node reachable from the root: the recorded count, level, summaries and value byte total equal what is recomputed from the blocks below it, a leaf has exactly one key per value, levels strictly decrease towards the leaves, a branch is marked sealed exactly if it is full of sealed children one level below, and a leaf is marked sealed only when it has reached a size limit. The key byte total equals the sum of the sizes of the index blocks below as long as no data was forgotten. The library's own invariant check accepts every such tree.",
 ["histories","inputs","configurations"],"all histories of append, unpacked append, pack, retain and reload and all configurations",
 "check_invariants compares only part of this, trusts the decoded index itself, and the tests run it on few shapes under one configuration.",
 [W,R,I,"banyan/src/forest/mod.rs"],[("new_branch, extend_leaf",W),("Config::branch_sealed","banyan/src/forest/mod.rs"),("check_invariants0, create_index_from_link",R)],observe=["blocks in the store decoded independently","StreamBuilder::index"])
p("C04","Filtered reads return exactly the matching elements",
 "For any tree and any query whose summary test never rejects a subtree containing a match, filtered iteration and streaming (forward and reverse) return exactly the elements for which the query's element test holds, with their right offsets, keys and values, each once and in offset order. The result of a conjunction or disjunction is the intersection or union of the results of its parts, an offset range of any bound kind selects exactly the offsets it contains, and the empty and the full query return nothing and everything. The outcome does not depend on how the tree was built.",
 ["inputs","histories","configurations"],"all trees, all queries composed of offset ranges (every bound kind), key predicates, and/or/empty/all combinators",
 "The tests use a handful of point-set and range filters on small trees of one configuration; nested or/and, every bound kind, wide nodes and purged parts are not sampled.",
 [Q,R,"banyan/src/util.rs"],[("OffsetRangeQuery, AndQuery, OrQuery, AllQuery, EmptyQuery",Q),("TreeIter, ChunkVisitor",R),("RangeBoundsExt::intersects, or_with","banyan/src/util.rs")],observe=["Forest::iter_filtered*","Forest::stream_filtered"])
p("C05","Chunked traversal covers every offset once, without holes or overlap",
 "For any tree and query, the chunks of a chunked traversal have consecutive, non-overlapping offset ranges that together cover exactly all offsets of the tree, ascending for forward and descending for reverse traversal, whether or not parts match, are skipped, or have been forgotten. The data inside a chunk is in ascending offset order, lies in the chunk's range and is exactly the matching, still present data of that range, and the extra value of each chunk is computed from the node that covers exactly that range.",
 ["inputs","histories","configurations"],"all trees (including with forgotten parts), all queries, forward and reverse, iterator and stream variants",
 "Tests check hole-freeness for random small trees with one filter type; forgotten parts, extras, wide/deep shapes and agreement of all variants are not covered.",
 [R,T],[("TreeIter::next_fallible, skip",R),("ChunkVisitor",R),("iter_filtered_chunked*, stream_filtered_chunked*",T)],observe=["FilteredChunk{range,data,extra}"])
p("C06","Index traversal and structural views report exactly the tree's nodes",
 "Index iteration visits precisely the nodes not excluded by the query: each such node once, parents before their children, siblings from left to right (forward) or right to left (reverse), with each query evaluated at the true offset of the node, and forgotten nodes reported as placeholders. The graph dump contains every node once with the correct parent edges, and the left roots are the leftmost path from the lowest leaf up to the root.",
 ["inputs","histories","configurations"],"all trees and queries, forward and reverse",
 "One test iterates indexes with the match-all query and compares link sets only; order, offsets passed to queries, reverse order, purged nodes, graph edges and left roots are untested.",
 [II,T],[("IndexIter",II),("dump_graph0, left_roots0",T)],observe=["Forest::iter_index*","Forest::dump_graph","Forest::left_roots"])
p("C07","Cipher keystream bytes are never used twice in the life of a stream",
 "Over the whole life of a stream, the cipher-offset ranges of all blocks it ever writes, leaves and branches alike, are pairwise disjoint, also when operations fail half way, are rolled back, or when the builder is reloaded from its current root and continued. A rolled back or failed operation never gives its consumed range back to the builder it ran on. (A builder reloaded from a root cannot know about blocks that operations failing or rolled back after that root wrote in vain; those are not part of the stream.)",
 ["histories","fault_sequences"],"all histories of append, unpacked append, pack, retain, repair, rollback, failing stores, and reload from the latest root after which nothing else was written",
 "One test checks offsets after a single transaction rollback; failures at each write, pack, retain, repair and reload are not examined together.",
 [SB,W,Z,T],[("CipherOffset::reserve",SB),("StreamTransaction drop/commit",SB),("into_encrypted",Z),("load_stream_builder",T)],state=[("StreamBuilderState.offset","first unused keystream byte",SB)],observe=["every block passed to BlockWriter::put"])
p("C08","Blocks are encrypted under the right key and follow the documented format",
 "Every block written is a three element dag-cbor list of cipher offset, links and a blob; the blob, decrypted with XChaCha20 at that offset under the value key (leaves) or the index key (branches) and the configured nonce, and zstd-decompressed by any standard implementation, is the plain CBOR sequence of the values or child indexes. No key or value content appears in the clear, holders of only the index key cannot read values, and reading with a wrong key yields an error rather than data.",
 ["inputs","histories","configurations"],"all trees, values, keys, nonces and compression levels",
 "Tests pin one block's wire format with zero keys and a zero nonce; nothing checks which key protects which block, or the behaviour with wrong keys.",
 [Z,W,R,I],[("into_encrypted, decrypt, IpldNode",Z),("extend_leaf, persist_branch",W),("serialize_compressed, deserialize_compressed",I)],observe=["raw blocks in the store, decoded independently"])
p("C09","A block's public link section lists exactly the links it contains",
 "For every block written, the unencrypted links section contains exactly the distinct IPLD links occurring anywhere in the block's content: for leaves every link in any of its values however deeply nested, for branches the links of all present children plus links inside keys and summaries. Extending a leaf keeps the links of the earlier values, and content with a malformed link is rejected with an error instead of being stored.",
 ["inputs","histories"],"all values and keys with links at any nesting depth, all ways of producing and extending blocks",
 "Tests scrape a few hand-written values; leaf extension, unusual nesting, duplicates, malformed links and forgotten children are not covered together.",
 [Z,W],[("scrape_links",Z),("fill / from_iter_ipld",Z)],observe=["links section of every block passed to BlockWriter::put"])
p("C10","Nodes respect the configured limits, and oversize items fail cleanly",
 "No leaf ever holds more elements or more uncompressed bytes than configured, no branch has more children than configured for its level, leaves stop growing once their compressed size reaches the target, and all but the last node on each level of a packed tree are full. An item that is larger than the limit by itself makes the append fail with an error and leaves the stream unchanged, while an item of exactly the limit is accepted and readable. Configuration validation rejects limits with which building can not work (zero element, byte or branch limits, levels that can not grow, leaf sizes beyond what can be decoded) and accepts all others that use a regular compression level.",
 ["inputs","configurations"],"all item size sequences around the limits and all configurations",
 "Tests try a few sizes against the leaf codec only; whole-tree limits, exact boundaries, and configuration validation are not tested.",
 [Z,W,"banyan/src/forest/mod.rs"],[("fill",Z),("extend_branch",W),("Config::validate","banyan/src/forest/mod.rs")],observe=["decoded blocks","Config::validate"])
p("C11","A failing operation leaves the stream unchanged and usable",
 "If any append, unpacked append, pack, retain or repair fails because a block cannot be read or written (at any point, with or without the block having reached the store) or because an item is unencodable, the stream keeps the elements and root it had before, and repeating the operation after the fault is gone succeeds with the normal result. A stream transaction that is dropped without commit restores the previous content exactly, and a committed one keeps its changes.",
 ["fault_sequences","histories"],"every read/write position at which a fault can strike, in every operation, on all trees",
 "No test injects a store failure into a write operation; one test drops one transaction.",
 [T,W,SB],[("set_index only at the end of an operation",T),("StreamTransaction",SB)],observe=["StreamBuilder snapshot before/after","fault-injecting BlockWriter/ReadOnlyStore"])
p("C12","Snapshots are immutable, also under concurrent writers and readers",
 "A tree snapshot always shows exactly the elements the stream had when it was taken, no matter what is later appended, packed, forgotten, rolled back or repaired on the stream, and no matter how many threads read snapshots through the same forest, branch cache and store while another thread writes. Concurrent use never deadlocks, panics or mixes up data of different nodes or streams.",
 ["schedules","histories"],"all interleavings of one writer per stream with many readers over shared forest, caches and store; all later histories",
 "The tests are single-threaded apart from one MemStore hammer; no snapshot is re-read after later operations or concurrently.",
 [T,SB,R,"banyan/src/store/branch_cache.rs","banyan/src/store/mem_cache.rs","banyan/src/store/mem_store.rs"],[("immutable content-addressed blocks",W),("BranchCache mutex","banyan/src/store/branch_cache.rs"),("thread-local decompressor","banyan/src/store/thread_local_zstd.rs")],observe=["concurrent Forest reads of older snapshots"])
p("C13","Retain forgets only sealed, non-matching data and never shifts offsets",
 "After retaining data by a query, the count and all offsets are unchanged, every element that matches the query is still present with its key and value, every element that was not in a completely non-matching sealed node of the packed part is still present, and forgotten elements read as absent (never as an error or wrong data). A sealed leaf of the packed part none of whose elements match is really forgotten, so its block is no longer reachable, and at the start of the packed part, sealed branches that the query excludes are forgotten as a whole. The keys of a forgotten leaf, the summaries of a forgotten branch and the element counts of both remain intact for later queries and appends.",
 ["histories","inputs"],"all trees (packed, partly unpacked, already partly forgotten) and retain queries, including retain followed by append, pack and reload",
 "Three tests retain offset ranges on small trees; key queries, repeated retains, unpacked parts and later appends are not covered.",
 [W,T],[("retain0",W),("retain",T)],observe=["Forest::collect (None for absent)","reachable blocks"])
p("C14","Unavailable or damaged blocks surface as errors, never as wrong data",
 "If blocks of a tree are missing or unreadable (the store fails, or returns a truncated block or bytes that are no block), every read returns either the correct elements or an error: it never panics, never silently skips or truncates data that the query selects, and never returns elements that were not stored. Reads that do not need the damaged blocks succeed unaffected, an iterator ends after reporting an error, and once the blocks are back the same reads succeed.",
 ["fault_sequences","inputs"],"all subsets of missing/transiently failing/corrupt blocks and all read operations",
 "No test removes or damages a block; only fully available trees are read.",
 [R,II,T,Z,"banyan/src/store/thread_local_zstd.rs"],[("error propagation in TreeIter, get0, collect0",R),("IndexIter",II),("decrypt",Z)],observe=["read results against the reference content with a faulty ReadOnlyStore"])
p("C15","Repair removes exactly the unreadable parts and reports each of them",
 "Repairing a stream whose store has lost blocks yields a tree of the same count in which every element not below an unreadable block is still readable at its offset, every element below one reads as absent, and all further reads succeed. The report names each block that was given up, repairing a completely available tree changes nothing and reports nothing, and repairing twice is the same as repairing once.",
 ["fault_sequences","histories"],"all subsets of lost blocks on all tree shapes",
 "Repair has no test at all.",
 [W,T],[("repair0",W),("repair",T)],observe=["Transaction::repair report and resulting tree"])
p("C16","Live forward streaming delivers each matching element exactly once, in order",
 "Streaming forward over a sequence of growing snapshots of a stream (plain, chunked, or via a thread pool) delivers every matching element in the requested range exactly once and in offset order, across snapshot changes, packing, reloading, repeated and empty snapshots, and transient read failures that are followed by another snapshot. Each chunk holds exactly the matching data of its range that was not delivered before, and a stream with an inclusive upper bound ends once that offset has been delivered, without touching later snapshots.",
 ["schedules","histories","fault_sequences"],"all sequences of snapshots, ranges, queries, poll schedules and transient faults",
 "Tests stream from pre-computed trees without faults and check termination for a few ranges; duplicates and gaps across snapshot changes, faults and thread-pool delivery are not examined.",
 [S,"banyan/src/util.rs"],[("stream_trees, stream_trees_chunked, stream_trees_chunked_threaded",S),("take_until_condition, into_stream","banyan/src/util.rs")],observe=["Stream items under controlled polling"])
p("C17","Reverse streaming delivers each matching element once, newest first, and ends",
 "Streaming backwards over a sequence of snapshots delivers every matching element of the requested inclusive range (as far as the first snapshot has it) exactly once, in descending chunk order with ascending data inside chunks, never an element outside the range, also when a read fails transiently and the stream continues with the next snapshot. The stream ends when the lower bound has been reached.",
 ["schedules","histories","fault_sequences"],"all snapshots, inclusive ranges (including single elements and bounds beyond the end), queries, poll schedules and transient faults",
 "Tests cover three fixed ranges on healthy stores.",
 [S,"banyan/src/util.rs"],[("stream_trees_chunked_reverse",S),("take_until_condition","banyan/src/util.rs")],observe=["Stream items under controlled polling"])
p("C18","Caches never change results",
 "The results of all operations, including the blocks written and the errors for data the cache does not hold, are the same with the branch cache disabled, tiny, evicting, reset in between, shared between streams, or unlimited, and with or without a block cache in front of the store. A cached read returns exactly the bytes that were stored under that link, a cache never exceeds its configured capacity or caches blocks above its size limit, a block within both limits that was just written or offered is served from the cache, and offering data to the cache does not write to the store.",
 ["configurations","histories","schedules"],"all cache capacities and size limits, all operation histories, concurrent use",
 "Tests run with one big cache; tiny caches, eviction, sharing between streams and the block cache are untested.",
 ["banyan/src/store/branch_cache.rs","banyan/src/store/mem_cache.rs",R],[("BranchCache","banyan/src/store/branch_cache.rs"),("MemCache, MemWriter","banyan/src/store/mem_cache.rs")],observe=["lockstep runs with different caches","store access log"])
p("C19","Block stores return exactly what was put, or an error",
 "For the in-memory, SQLite and IPFS-backed stores: storing a block returns the link that is the content's digest, reading a link returns exactly the bytes stored under it, and reading an unknown link (or any failure of the backend, including an error reply) is an error and never data. The in-memory store never holds more than its configured size, and all of this holds with many threads using the store at once; SQLite data is still there after closing and reopening.",
 ["inputs","schedules","fault_sequences"],"all blocks, capacities, interleavings of concurrent users and backend replies",
 "One test hammers the in-memory store with one workload; capacity, the SQLite and the IPFS store are untested.",
 ["banyan/src/store/mem_store.rs","banyan-utils/src/sqlite.rs","banyan-utils/src/ipfs.rs"],[("MemStore","banyan/src/store/mem_store.rs"),("SqliteStore","banyan-utils/src/sqlite.rs"),("IpfsStore, block_get, block_put","banyan-utils/src/ipfs.rs")],observe=["ReadOnlyStore::get / BlockWriter::put at the API boundary"])
p("C20","Every written prefix is consistent: children before parents, sealed is final",
 "A block that refers to another block is only written after the block it refers to, so at whatever point writing stops, every root published so far is completely readable from what was written up to then. Sealed nodes are final: later appends never rewrite a sealed subtree, they reuse its blocks unchanged, and appending to a packed tree writes at most one new path of blocks besides the new data.",
 ["crash_points","histories"],"every prefix of the write sequence of every history",
 "No test looks at write order, at partial write sequences, or at which blocks are rewritten (one test counts operations of one workload).",
 [W,T],[("fill_node / new_branch persist order",W),("extend0 skips sealed nodes",W)],observe=["sequence of BlockWriter::put calls"])
p("C21","A stream reloaded from its root is equivalent to the original",
 "Loading a tree or a stream builder from a root link with the right secrets gives the same count, content, structure and metadata as the original, without reading more than the root block. Continuing to append to a reloaded builder produces exactly the same blocks and roots as continuing with the original, and loading from a link that is missing, not a branch, or with wrong secrets is an error.",
 ["histories","configurations"],"all histories with a reload at every possible position",
 "One test reloads a few trees; equality of the continued stream is not checked.",
 [T,R],[("load_stream_builder, load_tree",T),("create_index_from_link",R)],observe=["Forest::load_*","blocks written by continued builders"])
p("C22","Tag expressions keep their meaning through normal form, matching and encodings",
 "For every tag expression without empty conjunctions or disjunctions, its disjunctive normal form, the expression rebuilt from it, the simplified expression and the printed expression select exactly the tag sets the original selects, and the normal form is minimal: no conjunct contains another. Matching a normal form against a tag index returns exactly the positions whose tag set satisfies the expression, and a tag index returns the tag sets it was built from, also after CBOR and JSON round trips. Encoded tag indexes with out of range references are rejected.",
 ["inputs"],"all tag expressions and tag sets",
 "Tests check five hand-written expressions and one JSON round trip.",
 ["banyan-utils/src/tag_index.rs"],[("Dnf, insert_unless_redundant, Expression::simplify","banyan-utils/src/tag_index.rs"),("TagIndex::matching, from_elements, Decode","banyan-utils/src/tag_index.rs")],observe=["public functions of tag_index"])
p("C23","Tag and time queries on trees select exactly the matching elements",
 "For trees keyed by time and tags, a query given as a list of alternatives selects exactly the elements that at least one alternative covers (the element's time lies in the alternative's time range and its tags are all among the alternative's tags), for every tree shape and for tags that do not occur in the tree. Such a read looks into no leaf without a matching element, and into no subtree whose times or tags have nothing in common with any alternative. Key sequences and their summaries round-trip through the encoding unchanged.",
 ["inputs","histories","configurations"],"all timed element sequences with any sets of tags, tree shapes and queries",
 "No test runs a tag query against a tree.",
 ["banyan-utils/src/tags.rs","banyan-utils/src/tag_index.rs"],[("DnfQuery, map_into, TranslatedDnfQuery","banyan-utils/src/tags.rs"),("KeySeq::summarize","banyan-utils/src/tags.rs")],observe=["Forest::iter_filtered with DnfQuery"])
p("C24","The block codec round-trips everything and survives hostile bytes",
 "Encoding any sequence of CBOR or IPLD items into a block and decoding it gives back exactly the items, by sequence, by index, by selection mask and by count, for every compression level, key, nonce and cipher offset, and filling stops exactly at its limits without losing or duplicating an item. Decoding arbitrary, truncated, bit-flipped or decompression-bomb input never crashes, hangs, corrupts memory or allocates without bound; it yields an error or well-formed data.",
 ["inputs"],"all item sequences, limits, keys, offsets and all byte strings",
 "The codec tests round-trip random integers and fixed examples and never decode damaged input.",
 [Z,"banyan/src/store/thread_local_zstd.rs",I],[("ZstdDagCborSeq",Z),("decompress_and_transform","banyan/src/store/thread_local_zstd.rs")],observe=["public codec functions under AddressSanitizer"])
p("C25","Reads touch only the blocks they need",
 "A read restricted to an offset range, or by a query, fetches no block of a subtree that the range or the summaries exclude, and no leaf without a matching element (an index traversal may look into each branch that it reports, but into no leaf; subtrees next to an exclusive lower bound or around an empty range may be looked into); access to one element fetches at most one block per tree level. A partly consumed iterator or stream has fetched nothing that lies entirely beyond the items it returned. With a large enough branch cache, repeating a read fetches no index block again, and taking a snapshot or loading only a count fetches nothing beyond the root.",
 ["inputs","histories"],"all trees, offset ranges and queries",
 "One test counts operations for one workload.",
 [R,Q],[("TreeIter filter handling",R),("OffsetRangeQuery::intersecting",Q),("load_cached","banyan/src/index.rs")],observe=["ReadOnlyStore::get log"])
p("C26","Iterating works for arbitrarily deep trees with bounded stack",
 "Building a stream by any number of unpacked appends and then iterating, streaming or index-iterating it, forward or in reverse, filtered or not, works with a small fixed stack and yields exactly the appended elements.",
 ["histories","inputs"],"unpacked histories of any length (depth), queries and directions",
 "One test iterates one deep tree forward.",
 [R,II,W],[("explicit stack in TreeIter / IndexIter",R)],observe=["reads on threads with small stacks"])
p("C27","The CLI keeps data durable and reports it truthfully",
 "A tree whose root the command line tool has printed, working on a SQLite file, stays completely readable from that root by later invocations, also if the tool is killed or the power fails at any moment afterwards or while it is working on something else. What dump, dump-values, dump-block, graph, build, pack, forget and repair print agrees with the stored elements; stream and filter visit exactly the present (matching) elements and print every thousandth of them. The passwords on the command line are used by every command; a wrong password, an unknown root or an unreadable block is reported as an error.",
 ["crash_points","histories"],"all command sequences and kill points",
 "The command line tool has no test.",
 ["banyan-utils/src/bin/cli.rs","banyan-utils/src/sqlite.rs","banyan-utils/src/dump.rs"],[("main, build_tree","banyan-utils/src/bin/cli.rs"),("SqliteStore","banyan-utils/src/sqlite.rs")],observe=["stdout and database file of banyan-cli processes"])
p("C28","Streams are exchanged over pubsub without loss, duplication or disorder",
 "A pubsub subscription yields the data of exactly the messages that the IPFS node sends, byte by byte and in order, no matter how the response is cut into network chunks or how its events are notated. A refused or unreachable node, a lost connection and malformed or partial events are reported as an error after the intact messages before them, never as a crash, never as silence and never as altered data. Publishing hands exactly the given topic and data to the node and succeeds only if the node accepted them. send-stream publishes roots of readable, ever growing streams; recv-stream prints each element of the streams whose roots it receives once, in order, up to the largest one received, skips messages that are no readable root, and fails if its subscription fails.",
 ["inputs","schedules"],"all message contents, topics, cuts and timings of the response, faults of the node, and sequences of roots of growing streams",
 "The pubsub functions and commands have no test.",
 ["banyan-utils/src/ipfs.rs","banyan-utils/src/bin/cli.rs"],[("pubsub_sub, pubsub_pub","banyan-utils/src/ipfs.rs"),("SendStream, RecvStream","banyan-utils/src/bin/cli.rs")],observe=["pubsub_sub / pubsub_pub against a scripted node","stdout of banyan-cli recv-stream / send-stream"])
p("C29","Inspection shows exactly the tree that is stored",
 "dump_graph and the dot output of graph show exactly the nodes of the tree, each with its parent and in the order of the elements, with the kind (branch, leaf, purged branch, purged leaf), element count, sizes, sealed flag, summaries and link that the stored tree has. dump_json and dump_cbor print exactly the items of a block, and succeed only with the key it was encrypted with. An unreadable block is an error, never a silently incomplete output. The sequences of keys and summaries in an index answer len, count, get, first, last and select like the lists they encode. assert_invariants accepts a stream exactly if check_invariants reports nothing.",
 ["inputs","histories"],"all trees, block contents and keys, and lost blocks",
 "No test looks at the output of any of these functions.",
 ["banyan/src/forest/read.rs","banyan-utils/src/dump.rs","banyan/src/index.rs"],[("dump_graph0",R),("graph, dump_json, dump_cbor","banyan-utils/src/dump.rs"),("CompactSeq",I)],observe=["Forest::dump_graph, graph, dump_json, dump_cbor, check_invariants, CompactSeq"])
p("C30","Integrity checks see every violated invariant",
 "check_invariants reports nothing for a stream in which every branch has as many summaries as children and each is the summary of its child, every sealed flag of a branch is what follows from its children under the configuration, the children of a branch are of lower levels (of a sealed branch, exactly one level lower), and every leaf has as many values as keys. It reports at least one problem if any of this is violated anywhere in the readable part of the stream, at any depth, and fails if a block of it can not be read. is_packed is true exactly for trees whose readable unsealed branches on the right edge have only sealed children of the next lower level before their last child. Correct trees of any shape, also of shapes that no history leads to, can be read completely.",
 ["inputs","configurations"],"all trees of any shape, correct or with a violation at any node",
 "Tests call check_invariants only on intact streams, so a check that reports nothing at all would pass.",
 [R,"banyan/src/tree.rs"],[("check_invariants0, is_packed0",R),("check_invariants, is_packed","banyan/src/tree.rs"),("branch_sealed","banyan/src/forest/mod.rs")],observe=["Forest::check_invariants, is_packed on streams written by the harness"])
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
