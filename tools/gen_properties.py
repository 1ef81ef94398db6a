#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [dict(zip(("name","where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Update events change the graph exactly as they say",
  "Applying any list of update events (add/delete node, node label, edge, edge label) in order leaves a graph whose nodes, labels, edges and edge labels are exactly those described by that order of events: deleting a node removes its labels and every edge to or from it in every component, deleting an edge removes its labels, re-adding something brings nothing old back, and events about things that do not exist change nothing. The result is the same for the in-memory and the disk-based variant of a graph and does not depend on how the list is cut into separately applied batches. Edges from a node to itself are never stored.",
  ["histories", "inputs", "configurations"], "for all event histories, all ways of batching them, both storage variants",
  "The suite applies a handful of fixed update lists in one batch; it never compares against a model, never re-adds deleted items, and never varies batching.",
  ["core/src/graph/mod.rs", "core/src/graph/update.rs", "core/src/annostorage/inmemory.rs", "core/src/annostorage/ondisk.rs", "core/src/graph/storage/adjacencylist.rs", "core/src/graph/storage/disk_adjacency.rs"],
  [("apply_update_in_memory", "core/src/graph/mod.rs"), ("writable graph storages", "core/src/graph/storage/*adjacency*.rs")],
  [("components", "one edge container per component", "core/src/graph/mod.rs"), ("node annotations", "node name, type and labels", "core/src/annostorage")],
  ["Graph::apply_update", "GraphStorage trait", "AnnotationStorage trait"])

p("C02", "An acknowledged update survives a crash, an interrupted one is all-or-nothing",
  "If the process dies at any point while updates are applied to a graph opened from a database directory, while the pending changes are written in the background, or during the next recovery, then opening the directory again succeeds and yields the state after all acknowledged updates, plus at most the complete update that was in progress. Several updates acknowledged before the first background write are all kept.",
  ["crash_points", "histories", "fault_sequences"], "for all process-crash points and torn file writes in short histories of updates and background writes, including a second crash during recovery",
  "No test crashes the process; recovery from the backup folder and multiple pending updates are not exercised at all.",
  ["core/src/graph/mod.rs", "graphannis/src/annis/db/corpusstorage.rs"],
  [("write-ahead log update_log.bin", "core/src/graph/mod.rs persist_updates"), ("backup folder swap", "core/src/graph/mod.rs background_sync_wal_updates / internal_open")],
  [("current/", "last complete state", "database directory"), ("backup/", "previous state while the current one is rewritten", "database directory"), ("update_log.bin", "acknowledged but not yet merged events", "database directory")],
  ["Graph::open", "CorpusStorage"])

p("C03", "Saving and reopening a graph preserves all of its content",
  "Whatever was put into a graph, writing it to a directory and opening that directory again (fully or component by component, as in-memory or disk-based graph, from the original or a second location, once or repeatedly with further updates in between) yields exactly the same nodes, labels, components, edges, edge labels and global statistics availability. Writing to a location or only partially loading a graph never drops content that was stored before.",
  ["histories", "inputs", "configurations"], "for all short histories of updates, optimize, save, partial load, persist and reopen, for both storage variants",
  "Round-trip tests use one fixed graph with one sequence of save and load.",
  ["core/src/graph/mod.rs", "core/src/graph/storage/*.rs", "core/src/annostorage/*.rs", "core/src/util/disk_collections.rs"],
  [("save_to/persist_to/open/load", "core/src/graph/mod.rs"), ("GraphStorage::save_to/load_from", "core/src/graph/storage")],
  (), ["Graph::open", "Graph::save_to", "Graph::persist_to", "Graph::ensure_loaded*"])

p("C04", "Every edge storage answers navigation like the plain set of edges",
  "Each implementation for storing the edges of a component (writable lists in memory and on disk, dense list, pre-/post-order, linear, disk path), used for a component whose shape it supports, reports exactly the same outgoing and incoming edges, source and root nodes, nodes reachable within a distance range forwards and backwards (each node once), connectedness for a distance range, shortest distance and edge labels as the plain set of edges that was stored; paths never visit a node twice, and the distance of a node to itself is left open for the disk path implementation. This also holds after copying from another implementation, after saving and loading, and after deleting edges, labels or nodes in the writable ones.",
  ["inputs", "configurations", "histories"], "for all component graphs, node pairs and distance ranges, for every implementation",
  "Unit tests check a few hand-drawn graphs per implementation and a few node pairs.",
  ["core/src/graph/storage/adjacencylist.rs", "core/src/graph/storage/dense_adjacency.rs", "core/src/graph/storage/disk_adjacency.rs", "core/src/graph/storage/disk_path.rs", "core/src/graph/storage/linear.rs", "core/src/graph/storage/prepost.rs", "core/src/graph/storage/union.rs", "core/src/dfs.rs"],
  [("CycleSafeDFS", "core/src/dfs.rs"), ("per-implementation index", "core/src/graph/storage")],
  (), ["EdgeContainer and GraphStorage traits"])

p("C05", "Optimizing a graph never changes what it contains",
  "Recomputing statistics and replacing the storage implementation of any component by the automatically chosen one, in either direction between in-memory and disk-based mode, any number of times and interleaved with further updates, leaves all nodes, labels, components, edges, edge labels, reachability and distances unchanged, and the chosen implementation always supports the actual shape of the component (in particular cyclic components keep all their edges).",
  ["inputs", "histories", "configurations"], "for all component shapes and all short histories of update, optimize and re-optimize",
  "Tests optimize three sample graphs and only look at which implementation was chosen.",
  ["core/src/graph/mod.rs", "core/src/graph/storage/registry.rs", "core/src/graph/storage/adjacencylist.rs", "core/src/graph/storage/disk_adjacency.rs"],
  [("get_optimal_impl_heuristic", "core/src/graph/storage/registry.rs"), ("optimize_impl/optimize_gs_impl", "core/src/graph/mod.rs"), ("calculate_statistics", "core/src/graph/storage")],
  (), ["Graph::optimize_impl", "GraphStorage::get_statistics", "CorpusStorage::reoptimize_implementation"])

p("C06", "Annotation storages behave like a map from item and key to value",
  "After any sequence of insertions, replacements and removals, every question to a node or edge annotation storage (value, keys and annotations of an item, search by name, namespace, exact value, excluded value or regular expression with and without negation, keys for a list of items, all values by frequency, key list, counts) is answered exactly as from a map of (item, qualified name) to value, identically for the in-memory and the disk-based implementation, with and without previously calculated statistics, and also after saving and loading. The reported largest item is at least the largest existing and at most the largest item ever added. Estimates may be imprecise but never fail.",
  ["histories", "inputs", "configurations"], "for all short operation histories over items, keys and values including shared names, empty strings, multi-byte characters and values that contain each other as prefix",
  "Unit tests insert a few annotations and check a few lookups; replacement, removal and re-insertion combinations and the two implementations are never compared.",
  ["core/src/annostorage/mod.rs", "core/src/annostorage/inmemory.rs", "core/src/annostorage/ondisk.rs", "core/src/annostorage/symboltable.rs", "core/src/util/mod.rs"],
  [("by_container/by_anno indexes", "core/src/annostorage/inmemory.rs"), ("by_container/by_anno_qname disk maps", "core/src/annostorage/ondisk.rs")],
  (), ["AnnotationStorage trait", "NodeAnnotationStorage trait"])

p("C07", "The disk-backed map behaves like an ordered map",
  "After any sequence of insert, remove, clear, compaction, eviction to disk, writing to a file and reopening, the disk-backed map returns the same values, membership, emptiness, ordered iteration and ordered range results as an ordinary ordered map that received the same insertions and removals, for non-empty keys whose serialized form is ordered like the keys (unsigned numbers, strings, byte sequences).",
  ["histories", "inputs", "configurations"], "for all short operation histories and all range bounds over a small key set, for all eviction limits",
  "Unit tests run three or four fixed scenarios with one eviction setting each.",
  ["core/src/util/disk_collections.rs", "core/src/serializer.rs"],
  [("C0 in-memory / C1 on-disk b-tree / C2 sstable lookup order", "core/src/util/disk_collections.rs"), ("tombstones", "core/src/util/disk_collections.rs")],
  (), ["DiskMap public methods"])

p("C08", "An update list returns its events in order and survives serialization",
  "Iterating an update list yields exactly the added events, in the order in which they were added and numbered consecutively, also after the list was serialized, deserialized and extended; its length and emptiness agree with that.",
  ["histories", "inputs"], "for all short histories of adding events, iterating, serializing and deserializing, over all event types",
  "Tests serialize one list once.",
  ["core/src/graph/update.rs", "core/src/serializer.rs"],
  [("changesets", "core/src/graph/update.rs"), ("Serialize/Deserialize for GraphUpdate", "core/src/graph/update.rs")],
  (), ["GraphUpdate::iter", "GraphUpdate::add_event", "serde"])

p("C09", "AQL queries return exactly the matches the query language defines",
  "The set of matches of a query in the supported query language equals the set of tuples of distinct nodes for which every node condition and every operator of at least one alternative holds by its definition on the corpus graph: annotation existence, equality, inequality and regular expressions, tokens, dominance, pointing relations and part-of with names, distance ranges and edge annotations, precedence and nearness with ranges and segmentations, coverage, overlap, inclusion and alignment, value equality, negation and optional operands. Each match is returned once and names every non-optional query node in order.",
  ["inputs", "programs"], "for all queries up to a bounded size over all operators, on all corpora of bounded families",
  "The query tests need external corpora and are skipped; the remaining ones check a few fixed queries on one example corpus.",
  ["graphannis/src/annis/db/aql", "graphannis/src/annis/db/exec", "graphannis/src/annis/db/plan.rs", "graphannis/src/annis/db/token_helper.rs", "graphannis/src/annis/operator.rs"],
  [("Conjunction::make_exec_node", "graphannis/src/annis/db/aql/conjunction.rs"), ("operator implementations", "graphannis/src/annis/db/aql/operators"), ("NodeSearch", "graphannis/src/annis/db/exec/nodesearch.rs")],
  (), ["aql::execute_query_on_graph", "CorpusStorage::find"])

p("C10", "Query results do not depend on how the query is evaluated",
  "For any query and corpus, the set of matches and the count are the same with and without parallel joins, for in-memory and disk-based corpora, before and after re-optimizing the storage of the corpus, before and after reloading, for the count, find and direct-execution interfaces, and when the same conditions are written in another order.",
  ["configurations", "programs", "inputs"], "for all queries and corpora of the bounded families and all combinations of these execution choices",
  "No test runs one query under two execution choices, except for a parallel flag over corpora that are not available.",
  ["graphannis/src/annis/db/aql/conjunction.rs", "graphannis/src/annis/db/exec/indexjoin.rs", "graphannis/src/annis/db/exec/nestedloop.rs", "graphannis/src/annis/db/exec/parallel", "graphannis/src/annis/db/exec/filter.rs", "graphannis/src/annis/db/plan.rs"],
  [("join order optimizer", "graphannis/src/annis/db/aql/conjunction.rs"), ("index join vs. nested loop vs. filter", "graphannis/src/annis/db/exec")],
  (), ["CorpusStorage::find", "CorpusStorage::count", "aql::execute_query_on_graph"])

p("C11", "Paged search returns consecutive slices of one sorted result",
  "For a fixed corpus, query and order, asking with any offset and limit returns exactly the corresponding slice of the complete result list; the complete normal order sorts by corpus, document path and text position with inverted being its exact reverse and not-sorted and randomized being permutations of it, and over several corpora the lists are concatenated in corpus order. The number of all matches equals the reported count and no match appears on two pages.",
  ["inputs", "configurations", "programs"], "for all corpora, queries, orders, offsets and limits of the bounded families, and for every choice of pivots in the partial sorting",
  "Tests request two or three fixed pages; pivot choices are random.",
  ["graphannis/src/annis/db/corpusstorage.rs", "graphannis/src/annis/db/sort_matches.rs", "graphannis/src/annis/util/quicksort.rs"],
  [("create_find_iterator_for_query / find_in_single_corpus", "graphannis/src/annis/db/corpusstorage.rs"), ("sort_first_n_items", "graphannis/src/annis/util/quicksort.rs"), ("compare_matchgroup_by_text_pos", "graphannis/src/annis/db/sort_matches.rs")],
  (), ["CorpusStorage::find", "CorpusStorage::count"], "guarded access to the partial sorting with a scripted pivot choice")

p("C12", "Subgraphs contain exactly the requested context and nothing else",
  "A subgraph for matched nodes and a left/right context contains exactly the requested nodes, all tokens (or segmentation nodes) within the context distance and what lies between, every node covering one of these tokens, the corpus and document nodes above them and data sources, with all labels of these nodes and every edge of the corpus between included nodes (with its labels) and no other node or edge. The subgraphs for a query, for a list of documents and for the corpus structure contain exactly the matched nodes respectively the nodes below the given documents respectively the corpus nodes, with the edges between them.",
  ["inputs", "configurations"], "for all bounded corpora, node selections, context sizes and segmentations",
  "Tests extract fixed subgraphs from fixed corpora and look at a few counts.",
  ["graphannis/src/annis/db/corpusstorage/subgraph.rs", "graphannis/src/annis/db/corpusstorage.rs"],
  [("new_subgraph_iterator", "graphannis/src/annis/db/corpusstorage/subgraph.rs"), ("create_subgraph_node/edge", "graphannis/src/annis/db/corpusstorage/subgraph.rs")],
  (), ["CorpusStorage::subgraph", "subgraph_for_query", "subcorpus_graph", "corpus_graph"])

p("C13", "Frequency tables are the exact histogram of the matches",
  "For any query and frequency definition, the frequency table has exactly one row for each combination of the defined values (empty for a missing annotation) that occurs among the matches of all alternatives, its count is the number of matches with that combination, summed over the given corpora, and rows are ordered by descending count.",
  ["inputs", "programs"], "for all bounded corpora, queries and frequency definitions",
  "One test checks a single definition.",
  ["graphannis/src/annis/db/corpusstorage.rs"],
  [("frequency", "graphannis/src/annis/db/corpusstorage.rs")],
  (), ["CorpusStorage::frequency"])

p("C14", "Concurrent use of one corpus storage is equivalent to some sequential use",
  "When several threads call a shared corpus storage (queries, updates, unload, preload, delete, create, list, info, re-import) at the same time and the background writer runs at any moment, every call returns what it would return in some sequential order of the calls that respects their real-time order, no update is lost or partly visible, no call blocks forever or panics, and after all calls returned the reopened database shows the final state of that order.",
  ["schedules", "histories"], "for all interleavings of up to three threads with one or two calls each plus background writers, up to a bound on preemptions",
  "No test uses a corpus storage from more than one thread; thread schedules cannot be enumerated by tests.",
  ["graphannis/src/annis/db/corpusstorage.rs", "core/src/graph/mod.rs"],
  [("corpus_cache lock and per-corpus locks", "graphannis/src/annis/db/corpusstorage.rs"), ("active_background_workers", "graphannis/src/annis/db/corpusstorage.rs")],
  [("corpus cache", "loaded state of each corpus", "graphannis/src/annis/db/corpusstorage.rs")],
  ["CorpusStorage methods", "database directory after closing"],
  "guarded replacement of the lock, condition variable and thread primitives used by the corpus storage")

p("C15", "Loading, unloading and cache eviction are invisible",
  "Whether and when a corpus or one of its components is loaded, unloaded, preloaded, evicted from the cache or reloaded never changes the answer of any query, listing or export and never loses an update; asking for, querying or trying to update a corpus that does not exist leaves no trace, so that a later creation, import or deletion behaves as if that request was never made.",
  ["histories", "configurations"], "for all short histories of create, update, query, unload, preload, delete and import over two corpora, for all cache strategies",
  "Tests use one corpus with the default cache and never interleave unloading with updates.",
  ["graphannis/src/annis/db/corpusstorage.rs", "core/src/graph/mod.rs"],
  [("get_entry/get_loaded_entry/check_cache_size_and_remove", "graphannis/src/annis/db/corpusstorage.rs"), ("ensure_loaded_parallel", "core/src/graph/mod.rs")],
  (), ["CorpusStorage methods"])

p("C16", "GraphML export and import are inverse to each other",
  "Exporting any graph to GraphML and importing the result yields a graph with exactly the same nodes, node labels, components, edges, edge labels and corpus configuration, for all characters that XML can represent in names, namespaces, values, layers and component names; the sorted export does not depend on the implementation in which the graph is stored and is reproduced by importing and exporting it again.",
  ["inputs", "configurations"], "for all bounded graphs and all label, name and layer strings over an alphabet with XML, separator, escape and multi-byte characters",
  "Tests export one graph with plain names.",
  ["core/src/graph/serialization/graphml.rs", "core/src/util/mod.rs", "core/src/types.rs"],
  [("export/export_stable_order/import", "core/src/graph/serialization/graphml.rs"), ("join_qname/split_qname", "core/src/util/mod.rs"), ("Component from_str/Display", "core/src/types.rs")],
  (), ["graphml::export", "graphml::import"])

p("C17", "Query parsing is total and preserves the meaning of the text",
  "Every text is either parsed or rejected with an error whose reported location lies in the text, never with a crash; the parsed query is equivalent to the written formula: alternatives and conjunctions distribute as in Boolean logic, named and numbered references denote the nodes as written, node descriptions list all query nodes in order with their names and alternatives, and validation accepts exactly the texts that can be executed.",
  ["programs", "inputs"], "for all token sequences up to a bounded length over the token alphabet of the language, and all bounded boolean combinations",
  "Tests parse a few dozen fixed queries.",
  ["graphannis/src/annis/db/aql/mod.rs", "graphannis/src/annis/db/aql/parser.lalrpop", "graphannis/src/annis/db/aql/ast.rs", "graphannis/src/annis/db/aql/conjunction.rs"],
  [("get_alternatives_from_dnf/map_conjunction", "graphannis/src/annis/db/aql/mod.rs"), ("grammar", "graphannis/src/annis/db/aql/parser.lalrpop")],
  (), ["aql::parse", "CorpusStorage::validate_query", "CorpusStorage::node_descriptions"])

p("C18", "Derived token indexes always match the annotation graph",
  "After any history of updates, the automatically maintained components agree with their definition on the current graph: each non-token node that covers tokens directly or through dominated or covered nodes has exactly one left-most and one right-most token edge to the first and last covered token in text order, each token is aligned with itself as implied by the ordering, and the inherited coverage component connects a node with exactly the tokens it reaches through coverage and dominance edges and does not already cover directly. The recorded number of tokens and whether all of them are part of the ordering are those of the graph whenever statistics are calculated.",
  ["histories", "inputs"], "for all bounded corpora and all short update histories with edge and node additions and deletions in any batching",
  "Three tests look at one graph each, only after the first update.",
  ["graphannis/src/annis/db/aql/model.rs"],
  [("AQLUpdateGraphIndex", "graphannis/src/annis/db/aql/model.rs")],
  (), ["Graph::apply_update", "components LeftToken, RightToken and inherited Coverage"])

p("C19", "A query timeout yields the exact result or a timeout error",
  "With a time limit, each query function either returns the same result as without limit or reports that the time was exceeded, at whatever moment the limit is reached; it never returns a partial result, and later queries are unaffected.",
  ["fault_sequences", "programs"], "for all moments at which the limit can be detected during a query, for count, find, extended count and frequency",
  "Tests only use a limit that never or immediately expires.",
  ["graphannis/src/annis/util/mod.rs", "graphannis/src/annis/db/corpusstorage.rs", "graphannis/src/annis/db/exec"],
  [("TimeoutCheck", "graphannis/src/annis/util/mod.rs")],
  (), ["CorpusStorage::count/find/frequency with timeout"], "guarded replacement of the clock used for the timeout")

p("C20", "Corpora can be created, listed, exported, imported and deleted independently",
  "The list of corpora equals the set created or imported and not deleted since; creating, importing, exporting (single file, directory or archive) and deleting one corpus never changes another, whatever characters their names contain; export followed by import restores content, configuration and linked files, importing over an existing corpus is refused or replaces it completely as requested, failed imports and exports leave existing corpora and files unchanged, and nothing is ever written outside the database directory or the chosen target.",
  ["histories", "inputs", "fault_sequences"], "for all short histories of these operations over corpora with names from an alphabet with separators, escapes and multi-byte characters, and all malformed inputs of a bounded family",
  "Tests run single import/export cases with well-behaved names.",
  ["graphannis/src/annis/db/corpusstorage.rs", "graphannis/src/annis/db/relannis.rs"],
  [("escape_corpus_name / list_from_disk", "graphannis/src/annis/db/corpusstorage.rs"), ("import_from_fs/import_all_from_zip/export_to_fs/export_to_zip", "graphannis/src/annis/db/corpusstorage.rs")],
  (), ["CorpusStorage methods", "file system"])

p("C21", "The web service only serves corpora the caller may read",
  "Every request for corpus content succeeds only if the caller presented a valid unexpired token with the administrator role or a group that is currently assigned to that corpus, or the corpus is assigned to the anonymous group, or anonymous access is configured; administrative requests succeed only for administrators; the corpus list contains exactly the readable corpora. Changing or deleting groups takes effect for all following requests, and file requests never leave the files folder of the corpus.",
  ["histories", "inputs", "configurations"], "for all group configurations reachable by short sequences of group changes, all token variants, all routes and both access settings",
  "Tests call three endpoints with a fixed token.",
  ["webservice/src/extractors.rs", "webservice/src/actions.rs", "webservice/src/api/mod.rs", "webservice/src/api/corpora.rs", "webservice/src/api/administration.rs", "webservice/src/api/search.rs"],
  [("check_corpora_authorized_read / check_is_admin", "webservice/src/api/mod.rs"), ("authorized_corpora_from_groups", "webservice/src/actions.rs"), ("ClaimsFromAuth", "webservice/src/extractors.rs")],
  [("groups, corpus_groups tables", "which group may read which corpus", "SQLite database")],
  ["HTTP responses"])

p("C22", "relANNIS import yields the graph described by the tables",
  "Importing a well-formed relANNIS directory, in either supported format version, yields exactly the corpus structure, tokens with order and text, segmentations, spans, dominance and pointing edges and all node, edge and corpus annotations described by its tables, whatever the order of rows and characters in the values; a malformed directory gives an error and leaves no corpus behind.",
  ["inputs", "configurations"], "for all bounded table sets, row orders, escapes and both versions, and all single-field corruptions of a base corpus",
  "Two small fixed corpora are imported.",
  ["graphannis/src/annis/db/relannis.rs"],
  [("load", "graphannis/src/annis/db/relannis.rs"), ("parse helper functions", "graphannis/src/annis/db/relannis.rs")],
  (), ["CorpusStorage::import_from_fs"])

p("C23", "A database directory is used by at most one storage at a time",
  "While a corpus storage is open on a directory, opening another one on the same directory fails with an error and changes nothing; after the first one was closed, or its process died in any way, opening succeeds.",
  ["histories", "fault_sequences"], "for all short sequences of open, use, close and kill over two processes and two directories",
  "One test opens the same directory twice.",
  ["graphannis/src/annis/db/corpusstorage.rs"],
  [("db.lock file lock", "graphannis/src/annis/db/corpusstorage.rs create_lockfile_for_directory")],
  (), ["CorpusStorage::with_cache_strategy"])

p("C24", "The C interface returns what the library returns",
  "For every exported C function and every argument, including null pointers for optional arguments, the result read through the C accessors equals the result of the corresponding library call, errors are reported through the error list instead of crashing, and no memory is used after being freed or freed twice when objects are released once.",
  ["programs", "inputs"], "for all short sequences of C calls over a small corpus, with each optional argument present and absent",
  "The C interface has no tests.",
  ["capi/src/corpusstorage.rs", "capi/src/graph.rs", "capi/src/data.rs", "capi/src/update.rs", "capi/src/cerror.rs"],
  [("extern C functions", "capi/src")],
  (), ["annis_* functions"])

p("C25", "Corpus descriptions agree with the corpus content",
  "The lists of components, node annotations and edge annotations (with all or only the most frequent values) and the corpus information reported for a corpus contain exactly the components, qualified names and values present in the graph, for both storage variants and after any history of updates.",
  ["histories", "inputs", "configurations"], "for all bounded graphs and update histories, all filter arguments",
  "Tests list the annotations of one corpus.",
  ["graphannis/src/annis/db/corpusstorage.rs", "core/src/graph/mod.rs"],
  [("list_components/list_node_annotations/list_edge_annotations/info", "graphannis/src/annis/db/corpusstorage.rs"), ("get_all_components", "core/src/graph/mod.rs")],
  (), ["CorpusStorage methods"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
