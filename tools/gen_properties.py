#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One P(...) call per property."""
import json, os
out = []
def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    out.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe), "hook_needed": None}})

IX, RK = "core/indexer.go", "core/ranker.go"

P("C01", "A removed or not-yet-indexed document is never returned by a lookup",
  "Every document a lookup in the inverted index returns or counts, in any query form (plain, must, should, not-in), is live at that moment: it has been added and no removal or re-index of it is pending. Liveness is decided in the same critical section that produces the answer.",
  ["histories", "schedules", "inputs"], "every history of adds, removals and re-indexes, with any cache size, and every query form run at any point of it",
  "Tests look up a handful of words after forced flushes; no test queries a shard by should/not-in while removals are pending.",
  [IX], [("per-document state map consulted before a posting-list entry is emitted", "core/indexer.go: Lookup, internalLookup, LogicLookup, unionTable")],
  [("docsState", "0 live, 1 pending removal, 2 pending add", IX)], ["Indexer.Lookup result"])
P("C02", "A search restricted to a set of document ids returns only those ids",
  "When a lookup is given a non-nil id set, every document it returns or counts is a key of that set, whatever the query form; the boolean values in the set are ignored. A nil set restricts nothing. (Known findings on this tree: should-only and not-in-only queries ignore the set; an existing test pins the former.)",
  ["inputs"], "every id set, every query form and every index content",
  "Tests restrict plain AND queries only, and only with values true.", [IX],
  [("id-set membership test on every emission path", "core/indexer.go: internalLookup, LogicLookup, unionTable")], observe=["Indexer.Lookup result"])
P("C03", "A plain query returns exactly the live documents containing all its keywords",
  "A plain (non-logic) lookup returns or counts a document only if it occurs under every token and every label of the query, and it drops a document of the driving keyword only because it is excluded by the id set, is missing under some other keyword, or is not live. Every document of the driving keyword is examined, unless an earlier one proves no later one can match.",
  ["inputs", "histories"], "every token/label list and index content (assuming each keyword's list is sorted by id)",
  "Tests try a few keyword pairs on ten documents.", [IX],
  [("intersection loop over the keywords' document lists", "core/indexer.go: internalLookup, searchIndex")], observe=["Indexer.Lookup result"])
P("C04", "Logic queries: must, should and not-in clauses hold for every returned document",
  "In a logic query that has a must or a should clause, every returned document contains all must keywords, at least one should keyword when a should clause is present, and none of the not-in keywords. A clause uses its own keyword list when one is given; when it is only flagged, it uses the query's own non-empty keywords; and a clause that is neither flagged nor given keywords has no effect.",
  ["inputs"], "every combination of flags and keyword lists, every index content",
  "Tests use five fixed combinations and never a flag and an explicit list for different clauses.", [IX],
  [("per-clause tables and membership predicates", "core/indexer.go: LogicLookup, unionTable, findIn*")], observe=["Indexer.Lookup result"])
P("C05", "The reported hit count equals the number of hits",
  "Every lookup and every ranking step counts a document exactly when it would return it: the count goes up by one for each returned document, and in count-only mode the count is what it would have been otherwise while no document is returned. The engine's total is the sum of all shards' counts.",
  ["inputs"], "every query form, with and without count-only, every shard layout",
  "Tests check the count for plain queries only.", [IX, RK, "engine.go", "indexer_worker.go"],
  [("count incremented beside each append", "core/indexer.go, core/ranker.go: rankOutIDs, rankOutDocs"), ("per-shard sum", "engine.go: NotTimeOut, TimeOut")], observe=["numDocs results"])
P("C06", "Index and ranker are free of data races",
  "Concurrent calls of any exported index or ranker operations never access the keyword table, document states, caches, statistics, or ranking fields without the lock that protects them, and no reference to a protected buffer is used after its lock was released. Initialisation happens before sharing and is exempt.",
  ["schedules"], "every interleaving of exported operations from any number of goroutines",
  "All unit tests of these packages are single-threaded and are not run under the race detector.", [IX, RK, "core/data.go"],
  [("tableLock, addCacheLock, removeCacheLock, Ranker.lock, package-level locks of core/data.go", "core/")], observe=["race-free execution"])
P("C07", "No index or ranker operation can deadlock or leak a lock",
  "On every path through every exported index or ranker operation each acquired lock is released exactly once, in the mode it was taken; locks are always nested in one global order; and no channel operation, sleep, or user-supplied scoring code runs while one is held.",
  ["schedules", "inputs"], "every path of every exported operation, every interleaving of them",
  "A deadlock needs two goroutines in two operations at the right points; the tests use one.", [IX, RK, "core/data.go"],
  [("nesting addCache -> removeCache -> table", "core/indexer.go: AddDocToCache, RemoveDocToCache")], observe=["progress of every call"])
P("C08", "Posting lists stay parallel: ids, frequencies and positions belong together",
  "Adding or removing documents changes a keyword's id list and its frequency list (frequency index) or position list (position index) by the same structural operations at the same positions, so entry i of each always describes the same document; an added entry is inserted at the position that keeps the list sorted by id and carries the document's own id and that keyword's own frequency or positions. A keyword whose list becomes empty is dropped from the index.",
  ["inputs", "histories"], "every add/remove history, every index type",
  "Tests inspect ids after a few adds; positions and frequencies after removals are not inspected.", [IX],
  [("parallel insert/compact code", "core/indexer.go: AddDocs, RemoveDocs")], [("docIds/frequencies/locations", "parallel arrays", IX)], ["lookup scores, positions"])
P("C09", "Document life cycle: adds, removals and re-adds take effect",
  "Each document is absent, being added (its batch is being flushed into the index), live, or pending removal. It becomes live only when its postings are inserted (and the document count rises by one), and pending removal only from live (it is queued for removal and the count falls by one) or from being added. A document removed while it is being added is neither inserted nor left blocked: a later add of the same id takes effect. Removing an id that is absent or merely buffered is a no-op; the id \"0\" is reserved.",
  ["histories"], "every sequence of add, remove, re-add with any flush points",
  "Tests cover remove-after-flush and one pending removal, never a re-add afterwards.", [IX],
  [("state transitions under the table lock", "core/indexer.go: AddDocToCache, AddDocs, RemoveDocToCache, RemoveDocs")],
  [("docsState", "nil absent, 0 live, 1 pending removal, 2 pending add", IX)], ["Lookup, HasDoc"])
P("C10", "The last version of a document added in one batch wins",
  "If the same id is added several times before a flush, the content that is indexed is that of the last add, for any number of buffered documents and any mix of new and already-indexed ids.",
  ["histories", "inputs"], "every sequence of buffered adds, any cache size",
  "Tests add a duplicate once in a batch of two, where every sorting algorithm happens to be stable.", [IX, "types/index.go"],
  [("order-preserving buffering, stable sort by id, keep-last de-duplication", "core/indexer.go: AddDocToCache, AddDocs")], observe=["Lookup after re-index"])
P("C11", "Buffering adds and removals never overruns a buffer",
  "No sequence of adds, re-adds and removals, for any positive cache size, makes the index write or slice outside its pending-add or pending-remove buffers.",
  ["histories", "configurations"], "every history and every cache size >= 1",
  "Tests use the default size 300000 or 3 and never re-index the same id without a forced flush.", [IX],
  [("buffer pointers compared with the cache size", "core/indexer.go: AddDocToCache, RemoveDocToCache")], observe=["absence of panics"])
P("C12", "Result paging is exact and never panics",
  "The result window is [min(offset,n), min(offset+max,n)) of the n sorted hits, or everything from offset when max is 0, both per shard and after merging; any non-negative offset and max up to the largest int, and also negative values, yield a valid window without panicking. The per-shard step keeps, from position 0, at least the best offset+max hits (or all of them), so the merged window is never short.",
  ["inputs"], "every offset, max and hit count, including extreme integers",
  "Tests page through ten documents with two settings.", [RK, "engine.go", "ranker_worker.go"],
  [("window computation", "core/ranker.go: maxOutput; engine.go: maxRankOutput; ranker_worker.go: rankerRank")], observe=["Search result order and length"])
P("C13", "Results are ordered by score vectors, high to low, identically in both modes",
  "One hit sorts before another exactly when its score vector is lexicographically greater (the first differing component decides; if one vector is a prefix of the other the longer one sorts first); id-only and full results use the same order. Reverse order sorts by the exact opposite, and sorting never drops or duplicates hits. Scores that are NaN are outside the statement.",
  ["inputs"], "every pair of score vectors (NaN excluded)",
  "Tests use vectors of at most two components with distinct first components.", ["types/search_response.go", RK, "engine.go"],
  [("Less/Swap/Len of the result slices, Reverse only when asked", "types/search_response.go")], observe=["order of results"])
P("C14", "A hit carries its own document's data; removed documents are forgotten",
  "Every ranked hit is a document known to the ranker, scored with its own fields, and carries its own id, scores, positions, fields, content and attributes; documents whose score is empty are dropped. Removing a document from the ranker erases everything adding it stored.",
  ["inputs", "histories"], "every set of documents, fields and scoring rules, id-only or not",
  "Tests score a few documents with fixed fields and check ids and scores only.", [RK],
  [("per-document maps read under one read lock; symmetric AddDoc/RemoveDoc", "core/ranker.go")], observe=["Rank results"])
P("C15", "Using an uninitialised component, or initialising twice, is always refused",
  "The index's AddDocToCache, AddDocs, RemoveDocToCache, RemoveDocs and Lookup, the ranker's AddDoc, RemoveDoc and Rank, and the engine's Index, IndexDoc, RemoveDoc, Search* and Flush* stop the program with a message before touching any state if the component was not initialised; a second Init of any of the three, or WithGse after the engine was initialised, is refused likewise.",
  ["histories"], "every first operation on a fresh component, and every double initialisation",
  "The refusal exits the process, so no in-process test exercises it.", [IX, RK, "engine.go"],
  [("initialized flag checked first", "core/indexer.go, core/ranker.go, engine.go")], observe=["process exit with message"])
P("C16", "Storage errors are never swallowed by a storage backend",
  "In every storage backend, an error reported by the underlying database while opening, reading, writing, deleting, iterating or closing reaches the caller as a non-nil error; success is reported only if every underlying step succeeded, and opening never exits the process.",
  ["fault_sequences"], "every underlying call failing, in every backend",
  "Tests never inject a database error.", ["store/badger_store.go", "store/bolt_store.go", "store/ldb_store.go"],
  [("error returns threaded through transactions", "store/")], observe=["returned error"])
P("C17", "Stored bytes are exact: own key, own value, own copy",
  "In every backend, writing stores exactly the given value under exactly the given key in a write transaction, deleting removes exactly the given key, reading looks up exactly the given key, and the bytes handed back stay valid and unshared after the call returns.",
  ["inputs", "schedules"], "every key and value, every later use of a returned slice",
  "Tests read small values back once, immediately, from a quiet database.", ["store/badger_store.go", "store/bolt_store.go", "store/ldb_store.go"],
  [("transaction closures; copy out of transaction memory", "store/")], observe=["Get/Set/Delete"])
P("C18", "Database iterators and handles are always released",
  "Every iterator a backend opens is released on every path, including when the visitor or the database fails, and a database opened by a failed open is closed again.",
  ["fault_sequences", "inputs"], "every visitor outcome and database failure",
  "Tests iterate once, with a visitor that never fails.", ["store/badger_store.go", "store/bolt_store.go", "store/ldb_store.go"],
  [("release calls on every exit", "store/")], observe=["iterator/handle leaks"])
P("C19", "Iteration visits every stored pair once and obeys the visitor",
  "In every backend, iteration starts at the first pair, visits each pair once with its own key and value until the end, and stops at the first visitor error, which it returns.",
  ["inputs"], "every database content and visitor", "Tests iterate over one pair.",
  ["store/badger_store.go", "store/bolt_store.go", "store/ldb_store.go"], [("iterator loops", "store/")], observe=["ForEach"])
P("C20", "Existence checks mean the same in every backend",
  "In every backend an existence check answers (true, nil) for a present key, including one with an empty value, (false, nil) for an absent key, and an error otherwise.",
  ["inputs", "configurations"], "every key state in every backend", "Tests check one present key with a non-empty value and accept any error for an absent one.",
  ["store/badger_store.go", "store/bolt_store.go", "store/ldb_store.go"], [("not-found sentinel handling", "store/")], observe=["Has"])
P("C21", "The configured storage engine is the one that is opened",
  "Opening a store uses the explicitly named engine if a non-empty name is given, else the one named by the environment, else the default, and each registered name opens its own backend at the given path; an unknown name yields an error, never another backend.",
  ["configurations"], "every combination of argument, environment and registration", "Tests open each backend by explicit name only.",
  ["store/store.go"], [("name table and precedence", "store/store.go: OpenStore")], observe=["OpenStore"])
P("C22", "Defaults fill unset options and never override set ones",
  "Initialising the options replaces an option only when it has its zero value, and only with its own default (the package-level default of the same name); an option the user set keeps its value. After it every count, buffer size, pointer and criterion the engine relies on is set, including the index's BM25 parameters.",
  ["configurations"], "every options value", "Tests use two option sets.",
  ["types/engine_init_options.go", "types/indexer_init_options.go"], [("zero-value tests before each default", "types/")], observe=["options after Init"])
P("C23", "Every search gets exactly one reply per shard",
  "A search sends one lookup to each shard and waits for one reply per shard; for every lookup it receives, each worker stage replies exactly once on that search's own reply channel or hands the request on once, on every path, and replies never block the workers even if the searcher has timed out. Each lookup carries the search's own keywords, labels, id set, flags and logic; every reply's hits and count enter the result; and the response says it timed out exactly when some reply was not awaited.",
  ["schedules", "inputs"], "every query, option combination and shard count", "Tests that search would hang only for the combinations they try; a duplicate reply goes unnoticed.",
  ["engine.go", "indexer_worker.go", "ranker_worker.go"], [("reply channel buffered to the shard count; reply-once worker loops", "indexer_worker.go, ranker_worker.go")], observe=["Search returns"])
P("C24", "Flush returns only after all accepted work is visible",
  "Flush waits until every accepted add and removal has been processed by the indexers, the rankers and (when persistence is on) the store, and then until a forced update has gone through every shard; each worker announces completion once per request and only after doing the work. Completions are compared with the requests accepted so far, so that a later completion never stands in for an earlier request, and Flush itself queues nothing but the forced update.",
  ["schedules"], "every interleaving of workers with the caller", "Tests flush and search, which passes whenever the workers happen to be fast.",
  ["engine.go", "indexer_worker.go", "ranker_worker.go", "store_worker.go", "segment.go"], [("request/completion counters", "engine.go: Flush")], observe=["Search after Flush"])
P("C25", "Engine counters are updated and read without races",
  "Every counter shared between engine goroutines is read and written only by atomic operations, and is placed so that 64-bit atomics are legal on 32-bit platforms.",
  ["schedules", "configurations"], "every interleaving, every platform", "Tests run on amd64 without the race detector.",
  ["engine.go", "counters.go", "indexer_worker.go", "store_worker.go"], [("sync/atomic on counter fields", "engine.go")], observe=["counter accessors"])
P("C26", "Engine structure is fixed once initialised",
  "After initialisation no engine operation replaces, grows or reassigns the shard lists, channels, options, segmenter or database handles, so they can be used from any goroutine without locking; the exported helpers that construct them are called by Init only.",
  ["schedules"], "every operation after initialisation, every interleaving", "Growing the shard list is invisible to single-goroutine tests.",
  ["engine.go", "riot.go", "indexer_worker.go", "ranker_worker.go", "store_worker.go", "segment.go", "counters.go"], [("fields written only during Init", "engine.go")], observe=["race-free execution"])
P("C27", "A document always goes to the same store shard, in range",
  "Saving, deleting and looking up a document in persistent storage all use the same function of the document id alone to choose the store shard, always within the number of store shards; the index shard is always within the number of index shards, and a document's index and ranking data go to the same shard. Initialisation creates exactly one index, ranker, queue and worker set per shard, and a store shard opens the same database path at every start.",
  ["inputs", "configurations"], "every id, content and shard count", "Tests use few ids and one shard layout.",
  ["engine.go", "riot.go", "store_worker.go", "segment.go"], [("hash modulo shard count", "engine.go: Index, RemoveDoc; riot.go: HasDocDB")], observe=["HasDocDB, recovery"])
P("C28", "Persisted documents are saved, removed and recovered faithfully",
  "With persistence on, every indexed document is written to storage under its own id with exactly its data, every removed one is deleted from storage in the order the caller issued the operations, and start-up re-indexes every stored document under its own id; storage failures are reported in the log, and closing waits for queued storage work. Init returns only after the recovery of every store shard has finished, and recovered documents count as stored.",
  ["histories", "schedules"], "every history of index/remove/close/reopen", "Tests store two documents and reopen once.",
  ["engine.go", "store_worker.go"], [("per-shard store queue and recovery scan", "store_worker.go")], observe=["storage content after Close"])
P("C29", "Stop words are never indexed",
  "With a stop-word list in force, no keyword, token or label of a document enters the index, and no query word obtained by segmentation is searched, if it is in the list, in any segmentation mode.",
  ["inputs", "configurations"], "every document, stop list and segmentation mode", "Tests try a few stop words in the default mode.",
  ["segment.go", "engine.go", "stop_tokens.go"], [("stop-word test before every insertion", "segment.go")], observe=["searching a stop word"])
P("C30", "Result type conversions cannot crash a search",
  "Search entry points and network handlers never apply an unchecked dynamic type conversion to search results or document attributes whose dynamic type depends on options, on the request, or on what the caller stored.",
  ["inputs", "configurations"], "every option set and request, including count-only and id-only", "Tests call the typed helpers only with matching options.",
  ["engine.go", "net/http/http.go", "net/grpc/search.go"], [("comma-ok conversions", "engine.go: SearchDoc, SearchID")], observe=["absence of panics"])
P("C31", "Documents from the network layer can be persisted",
  "Every concrete type that a network front-end, or the engine itself, stores in a dynamically-typed document field is registered with the serializer as that very type before any document is built, so persisting such a document cannot fail for want of registration and recovery gives back the same type.",
  ["inputs"], "every document built by a front-end or the engine", "No test persists a document with attributes set by the network layer.",
  ["net/http/http.go", "net/grpc/grpc.go", "types/doc_index_data.go", "store_worker.go"], [("serializer registration", "types/")], observe=["document survives restart"])
P("C32", "Absent optional fields in a remote request never crash the server",
  "Remote-call handlers dereference an optional message field of a request only after establishing that it is present; a request that omits any optional part is served.",
  ["inputs"], "every well-formed request message", "There are no tests of the remote-call servers.",
  ["net/grpc/grpc.go", "net/grpc/etcd.go"], [("presence checks", "net/grpc")], observe=["server survives the request"])
P("C33", "All network front-ends operate on one and the same engine",
  "Every network handler that indexes, searches or deletes does so on the single initialised engine instance; no front-end holds a copy of an engine.",
  ["histories"], "every mix of front-ends and operations", "There are no tests of the network layer.",
  ["net/com/search.go", "net/grpc/search.go", "net/grpc/grpc.go", "net/http/http.go"], [("net/com functions on the shared engine", "net/com/search.go")], observe=["delete then search"])
P("C34", "Distributed searches do not mix or lose results",
  "Concurrent distributed searches share no mutable result state: each request gathers its own replies, each peer's reply is gathered once under synchronisation, all peers are awaited, and merging keeps the best max results (all of them if there are fewer).",
  ["schedules", "inputs"], "every interleaving of concurrent distributed searches", "There are no tests of the network layer.",
  ["net/http/dist.go", "net/grpc/search.go"], [("per-request accumulation", "net/http/dist.go: WgDist; net/grpc/search.go: wgGrpc")], observe=["responses of concurrent requests"])
P("C35", "Remote and local documents and queries correspond field by field",
  "Converting a remote index, search or delete request to an engine request, and an engine result to a reply, carries every field that exists on both sides to its namesake and to no other field (document Fields, an opaque byte string remotely, excepted; the query text and the document id of a hit, named differently on the two sides, included), and every request reaches its engine operation.",
  ["inputs"], "every request and result", "There are no tests of the network layer.",
  ["net/grpc/grpc.go", "net/grpc/etcd.go", "net/grpc/search.go", "net/grpc/grpcc.go", "net/com/search.go"], [("field copies in converters", "net/grpc")], observe=["indexed data, replies"])
P("C36", "Request data never reaches a command shell",
  "No value taken from a network request is interpreted by a command shell or used as a program name; at most it is passed as one literal argument.",
  ["inputs"], "every request", "There are no tests of the monitoring endpoints.",
  ["net/heartb/heart.go"], [("process execution in the heartbeat monitor", "net/heartb/heart.go")], observe=["executed commands"])
P("C37", "The heartbeat failure count is race-free and resets on restart",
  "The failure count of the heartbeat monitor is accessed only atomically, is raised once per failed or wrong heartbeat and never by a good one. The monitor issues a restart only after more than three failures; the count is reset, before the program runs, exactly when a program is launched, and is never lowered otherwise.",
  ["schedules", "histories"], "every interleaving of monitor and HTTP endpoints", "There are no tests of the heartbeat monitor.",
  ["net/heartb/heart.go"], [("shared failure counter", "net/heartb/heart.go")], observe=["Health endpoint, restarts"])
P("C38", "Integer sort helpers only rearrange their input",
  "Sorting a slice of integers, in any direction and by any algorithm offered, only exchanges or rotates elements: the result is always a permutation of the input.",
  ["inputs"], "every input slice", "Tests sort a few short slices.", ["core/uint64.go"], [("swap-only stores", "core/uint64.go")], observe=["sorted slice"])
P("C39", "Label-only queries never crash a position index",
  "A lookup with any combination of tokens and labels, including none of either, completes without an out-of-range access in score or position computation or in the keyword tables, for every index type.",
  ["inputs", "configurations"], "every token/label list and index type", "Tests never query labels alone on a position index.",
  [IX], [("guards before position and score computation", "core/indexer.go: internalLookup, computeTokenProximity")], observe=["absence of panics"])

P("C40", "Relevance scores are computed by the documented BM25 formula",
  "In every plain query on an index that stores frequencies or positions, the score of a hit is the sum over exactly the query's tokens of the documented smoothed BM25 term - with the hit's own frequency of the token and length, the number of documents with the token, the document count, the average length and the configured constants - where a token adds nothing only if its frequency, its posting list, the average length or the constants are missing; on a position index a hit for which some token has no positions (a label) carries no score. Rounding is not part of the property.",
  ["inputs", "histories", "configurations"], "every index content, query and index type", "Tests compare a few scores.", [IX], [("BM25 loop", "core/indexer.go: internalLookup")], observe=["IndexedDoc.BM25"])
P("C41", "Token proximity is the minimum over all position choices",
  "The proximity reported for a hit is the minimum of the documented distance over all choices of one position per token, and the reported positions achieve it.",
  ["inputs"], "every list of position lists", "Tests try a handful of position lists.", [IX], [("dynamic programme", "core/indexer.go: computeTokenProximity")])
P("C42", "Integer sort helpers produce sorted output",
  "The result of each sort helper is ordered as its name says.", ["inputs"], "every slice", "Tests sort short slices.", ["core/uint64.go"], [("quick/heap/insertion/merge sort", "core/uint64.go")])
P("C43", "A search with a timeout returns in time",
  "A search with a positive timeout returns within about that time and says whether it was cut short.", ["schedules"], "every load", "Timing cannot be sampled meaningfully.", ["engine.go"], [("deadline select loop", "engine.go: TimeOut")])
P("C44", "Acknowledged documents survive power loss",
  "A document whose storage was acknowledged before a crash is recovered afterwards.", ["crash_points"], "every crash point", "Tests never crash the process.", ["store/", "store_worker.go"], [("database durability settings", "store/")])

P("C45", "A lookup lists no document twice",
  "The documents a lookup returns are pairwise different, for the plain form and for every combination of must, should and not-in clauses, however many of the query's posting lists a document is in.",
  ["inputs", "histories"], "every query form and index content", "Tests use a handful of documents, mostly with a single matching list.", [IX],
  [("backward walk over the first keyword's posting list", "core/indexer.go: internalLookup, logicLookup"), ("union without repetitions", "core/indexer.go: unionTable"), ("not-in lists collected without repetitions", "core/indexer.go: logicLookup")], observe=["docs results of Lookup and LogicLookup"])

P("C46", "The corpus length statistics match the indexed documents",
  "After any history of insertions, re-insertions and removals, the recorded token lengths are exactly those of the documents in the index or awaiting their removal from it, and the total token length used for the average document length is their sum: every length added when a document is inserted is subtracted once when it leaves.",
  ["inputs", "histories"], "every sequence of additions and removals", "Tests check ranking values for one small fixed corpus.", [IX],
  [("lengths recorded on insertion", "core/indexer.go: AddDocs"), ("lengths forgotten on removal", "core/indexer.go: RemoveDocs")], observe=["BM25 values of Lookup", "docTokenLens, totalTokenLen"])

P("C47", "Positions reported with a hit are positions of its tokens",
  "On an index with positions, each hit of a plain query that carries positions carries, for each token of the query in order, the token's own position list in that document (TokenLocs) and exactly one of that token's own positions in it (TokenSnippetLocs); the snippet positions and the proximity come from one computation for the query's tokens. A hit comes without positions only if the index keeps none, or some token is known to have none in that document.",
  ["inputs", "histories", "configurations"], "every index content, query and index type", "Tests compare the positions of a few hits.", [IX],
  [("positions of a hit", "core/indexer.go: internalLookup"), ("nearest positions", "core/indexer.go: computeTokenProximity")], observe=["IndexedDoc.TokenSnippetLocs", "IndexedDoc.TokenLocs", "IndexedDoc.TokenProximity"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o, ensure_ascii=False) + "\n")
print(len(out), "properties")
