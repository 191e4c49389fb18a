#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Edit the table here, not them."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, state=list(state), observe=list(observe), note=note, na=na))

prop("C01", "The index reflects exactly the live documents and their latest version",
 "After any sequence of document additions, updates and removals whose caches have been flushed, in any mix of single, batched and forced updates, a search finds a document exactly when it is live and its latest version contains the searched token or label, and the index knows exactly the live document ids (a document is not removed while its addition still waits in the cache). Nothing of a removed document or of a replaced version is ever found again, and no live document is lost.",
 ["histories", "inputs"], "every history of additions, updates, re-additions and removals, every cache size and flush point, every document id and token set",
 "The tests add a handful of fixed documents once; updates inside one batch, removal and re-addition, and cache overflow orders are never combined.",
 ["core/indexer.go"], [("cache of pending additions and removals, sorted merge into the reverse index", "core/indexer.go: AddDocToCache, AddDocs, RemoveDocToCache, RemoveDocs")],
 [("table", "sorted postings per keyword", "core/indexer.go Indexer.tableLock"), ("docsState", "state of each document id", "core/indexer.go")], ["core.Indexer.Lookup", "core.Indexer.HasDoc"])
prop("C02", "A search for several tokens and labels returns exactly their intersection",
 "A lookup of any tokens and labels returns every indexed document that contains all of them, and no other, each exactly once, largest document id first; when the caller restricts the search to a set of document ids, exactly the documents of that set among them. The reported count agrees with the documents returned.",
 ["inputs"], "every set of postings, every combination of tokens and labels, every document-id restriction, every index type",
 "The tests intersect two or three short lists with fixed ids; the galloping search over the lists has branches that depend on how the ids interleave.",
 ["core/indexer.go"], [("intersection of postings by descending binary search", "core/indexer.go: internalLookup, searchIndex")], [], ["core.Indexer.Lookup"])
prop("C03", "Logical queries return exactly the documents the expression selects",
 "A query with must or should clauses, with or without not-in clauses, returns exactly the documents that hold every must key, at least one should key when there are should keys, and no not-in key. The clauses only ever see searched documents that are indexed and not removed, each document is returned once, and a document-id restriction is respected.",
 ["inputs"], "every combination of clauses, keys and postings", "The tests run one fixed query per clause kind; combinations of clauses with absent keys, shared documents or restrictions are not sampled.",
 ["core/indexer.go"], [("clause evaluation", "core/indexer.go: LogicLookup, MustLookup, ShouldLookup, NotInLookup helpers")], [], ["core.Indexer.Lookup"])
prop("C04", "A removed document disappears from every search at once",
 "From the moment a removal of a document has been accepted by the index, no search of any form finds it, whether the removal has been written to the postings already or is still pending, while all other documents stay findable. Adding the document again later makes it findable again.",
 ["histories", "inputs"], "every history of additions and removals with removals pending in the cache, every query form", "The tests remove one document with forced flush and look it up by one token.",
 ["core/indexer.go"], [("documents with a pending removal are marked and skipped", "core/indexer.go: RemoveDocToCache, internalLookup")], [("docsState", "pending or indexed", "core/indexer.go")], ["core.Indexer.Lookup"])
prop("C05", "BM25 scores follow the formula over the live documents",
 "For an index that keeps frequencies, the score reported for each found document is the sum over the searched tokens of idf*tf*(k1+1)/(tf+k1*(1-b+b*length/average length)), with idf the base-2 logarithm of one plus live documents over found postings of the token, and with the average length taken over exactly the documents live in the index, after any history of additions, updates and removals. In an engine the length of a document is the number of words its text is cut into, counting every occurrence, the joined forms and, with pinyin on, the pinyin keywords, plus the number of tokens given with it. Documents without length or missing frequencies score without crashing.",
 ["histories", "inputs"], "every history of additions, updates and removals, every token length and frequency, every k1 and b", "The tests never check a score after an update or removal; the running totals that give the average length drift only over histories.",
 ["core/indexer.go", "segment.go"], [("running total of token lengths and document count", "core/indexer.go: AddDocs, RemoveDocs"), ("score of one posting", "core/indexer.go: internalLookup"), ("length of a document", "segment.go: makeTokensMap")], [], ["types.IndexedDoc.BM25"])
prop("C06", "Token proximity is the true minimum and locations are reported faithfully",
 "For an index that keeps locations, the proximity reported for a found document is the minimum over all choices of one location per searched token of the total distance between neighbouring tokens beyond the length of the earlier one, and the locations reported are a choice that attains it, taken from the token's locations in that document. The location lists returned belong to the right token and document.",
 ["inputs"], "every number of tokens, every location list, every token length", "The tests compute the proximity of two token sets with small fixed location lists; optimality over all choices of locations is not checked.",
 ["core/indexer.go"], [("dynamic programme over token locations", "core/indexer.go: computeTokenProximity")], [], ["types.IndexedDoc.TokenProximity", "types.IndexedDoc.TokenSnippetLocs", "types.IndexedDoc.TokenLocs"])
prop("C07", "Concurrent use of an index neither deadlocks nor loses updates",
 "Additions, removals, flushes and searches running concurrently on one index and its ranker all complete without crash or deadlock. Whatever the interleaving, the final index holds exactly what some order of the operations gives, and a search running meanwhile only returns documents that were present at some point during it. When a forced addition or a flush returns, it and everything added before it is in the index.",
 ["schedules", "histories"], "every interleaving of concurrent operations", "The tests drive one index from one goroutine; lock order inversions and lost updates need particular interleavings.",
 ["core/indexer.go", "core/ranker.go", "core/data.go"], [("read-write locks around the table and both caches", "core/indexer.go: Indexer.tableLock, addCacheLock, removeCacheLock")], [], ["core.Indexer", "core.Ranker"])
prop("C08", "Index and ranker are free of data races",
 "No two goroutines that use one index or one ranker concurrently through its methods ever access the same memory at the same time with at least one of them writing, unless both hold a common lock that orders them.",
 ["schedules"], "every pair of concurrent method calls and every interleaving", "The tests are single threaded at this level; the race detector only sees schedules that happen.",
 ["core/indexer.go", "core/ranker.go"], [("lock held around every shared access", "core/indexer.go, core/ranker.go")], [], ["core.Indexer", "core.Ranker"])
prop("C09", "Ranking keeps every scored document once and pages the sorted list",
 "Ranking returns the documents the scoring rule gave a score to, each exactly once, sorted by descending score lists (ascending when reverse order is asked for), removed and unregistered documents left out; offset and limit select exactly that window of the sorted list, no limit meaning all. Scores and document data stay with their document and the reported count is that of all scored documents, also when only counting.",
 ["inputs"], "every set of documents, scores, offsets, limits and orders, with ties", "The tests rank three or four documents with one offset; windows beyond the end, ties and reverse order with paging are not combined.",
 ["core/ranker.go", "types/search_response.go"], [("score, sort and slice", "core/ranker.go: Rank, RankDocID, RankDocs")], [], ["core.Ranker.Rank"])
prop("C10", "The ranker scores with the latest attributes of exactly the live documents",
 "After any sequence of registering, replacing and removing document attributes, ranking hands the scoring rule the attributes last registered for each live document and never those of a removed or replaced one. Documents without registered attributes are left out.",
 ["histories"], "every history of registrations, replacements and removals", "The tests register each document once.",
 ["core/ranker.go"], [("maps of fields, content and attributes per document", "core/ranker.go: AddDoc, RemoveDoc, Rank")], [("lock.fields, lock.docs", "what is registered", "core/ranker.go")], ["core.Ranker.Rank"])
prop("C11", "Any non-negative offset and limit is safe",
 "Ranking any number of documents with any non-negative output offset and limit, up to the largest integers, never crashes, and returns what of the sorted list lies in the window.",
 ["inputs"], "every offset and limit up to the largest integer, every number of documents", "The tests use small offsets and limits only.",
 ["core/ranker.go"], [("clamping of the window", "core/ranker.go: maxOutput")], [], ["core.Ranker.Rank"])
prop("C12", "Comparing scored documents is a strict weak order",
 "The order in which results are sorted compares score lists lexicographically, the longer list first among equal prefixes, as a strict weak order on any score lists without NaN; it depends on the scores alone. Documents sorted with it are the same whether results are full documents or ids only, and the BM25 ranking rule scores a document by its BM25 score.",
 ["inputs"], "every pair and triple of score lists of any lengths", "The tests compare single scores.",
 ["types/search_response.go", "types/scoring_criteria.go"], [("Less", "types/search_response.go")], [], ["types.ScoredDocs.Less", "types.ScoredIDs.Less", "types.RankByBM25.Score"])
prop("C13", "Initialisation fills in defaults and changes nothing the caller set",
 "Initialising engine or index options gives every unset option its documented default, leaves every option the caller did set as it was, and initialising again changes nothing. The defaults of one engine are never altered by the options of another.",
 ["configurations"], "every combination of set and unset options", "The tests initialise two or three configurations and check none of the defaults.",
 ["types/engine_init_options.go", "types/indexer_init_options.go"], [("Init fills zero values", "types/engine_init_options.go: Init; types/indexer_init_options.go: Init")], [], ["types.EngineOpts.Init", "types.IndexerOpts.Init"])
prop("C14", "Sorting document ids sorts them",
 "Sorting any list of unsigned document ids, by any of the sorting functions offered, leaves exactly the same ids in ascending (for the reversed forms, descending) order, for every length and every arrangement including presorted, reversed and repeated ones; the test for sortedness agrees.",
 ["inputs"], "every list of ids up to the length bound", "The tests sort a few short lists; insertion, heap and quick sort paths switch at lengths they do not reach.",
 ["core/uint64.go"], [("insertion sort, heap sort and quick sort with pivot choice", "core/uint64.go")], [], ["core.SortUint64 and its siblings"])
prop("C15", "Every storage engine behaves as one and the same key-value map",
 "Whatever storage engine is chosen, after any sequence of writes and deletes a read returns exactly the value last written for the key, or no value when it is absent, the presence test agrees, iterating visits every stored pair exactly once and stops at the first error of the visitor, which it returns. Values handed out stay intact afterwards, and all of it survives closing and reopening.",
 ["histories", "configurations", "inputs"], "every history of operations on every storage engine, every key and value including empty ones", "The tests write and read one key per engine.",
 ["store/store.go", "store/ldb_store.go", "store/badger_store.go", "store/bolt_store.go"], [("one adapter per library", "store/*_store.go")], [], ["store.Store"])
prop("C16", "The storage engine opened is the one that was asked for",
 "Opening a store by name opens that engine at that path; without a name it opens the engine the environment names, and the built-in default when it names none; engines can be registered under new or existing names. An unknown name, and any failure to open, is returned as an error.",
 ["configurations"], "every engine name, default and environment", "The tests open each engine once by its own constructor.",
 ["store/store.go"], [("table of supported engines", "store/store.go: OpenStore")], [], ["store.OpenStore"])
prop("C17", "A search over all shards is the merge of the shards, sorted and paged once",
 "A search through the engine returns what one index holding all documents would return, whatever the number of shards: the same documents with the same scores in the same order (documents of equal score in any order), the same count, and the same window for any offset and limit, however the query is asked (text, tokens, labels, restricted to documents, logical, orderless, counting only, ids only); an orderless search gives all documents, and a counting one the number of all, whatever the offset and limit. No document is lost or returned twice because of sharding. The request's own options and scoring rule hold, and the engine's where it has none. Scores are taken to depend on the query and the document's own data; BM25 statistics are kept per shard.",
 ["inputs", "configurations"], "every distribution of documents over shards, every offset and limit", "The tests use one fixed shard count with five documents.",
 ["engine.go", "indexer_worker.go", "ranker_worker.go"], [("fan-out to the shards and merge", "engine.go: NotTimeOut, TimeOut, Ranks, RankID")], [], ["riot.Engine.Search"])
prop("C18", "Flush is a barrier",
 "When Flush returns, every document added or removed before the call is visible, or gone, in any search that follows, with the data it was indexed with, whatever the interleaving of the workers; the counters of indexed and removed documents include them, and Flush does return. Operations of different kind on one document id are ordered only by a Flush between them.",
 ["schedules", "histories"], "every interleaving of segmenter, indexer and ranker workers", "The tests flush under whatever schedule happens.",
 ["engine.go", "segment.go", "indexer_worker.go", "counters.go"], [("counters polled by Flush", "engine.go: Flush")], [("numDocsIndexed", "how far the workers are", "engine.go")], ["riot.Engine.Flush"])
prop("C19", "Indexing a document id again replaces the document",
 "After indexing a document id again with other content, tokens, labels, fields or attributes, or removing it and indexing it again, and flushing, searches find only the new version, exactly once, with its own data, and never the old one, whatever the number of shards; after removing it nothing of it is found. (An addition and a removal of one id need a flush between them; engine operations are asynchronous.)",
 ["histories", "configurations"], "every pair of versions of a document and every number of shards", "The tests index every id once, or with the same content.",
 ["engine.go", "segment.go"], [("the shard of a document is derived from a hash", "engine.go: getShard, segment.go")], [], ["riot.Engine.Search"])
prop("C20", "A search that times out says so and returns only correct partial results",
 "A search with a deadline returns when the deadline has passed at the latest, reports a timeout exactly when a shard's answer is missing, and everything it returns is part of the full answer, sorted, with a count that agrees. Without a deadline, or when all shards answer in time, the answer is the full one and no timeout is reported. A search that timed out is in no later one's way.",
 ["schedules"], "every timing of the shards' answers", "The tests never let a search time out.",
 ["engine.go"], [("select on the answer and the deadline", "engine.go: TimeOut")], [], ["riot.Engine.Search"])
prop("C21", "A document is indexed under exactly its keywords with their positions",
 "A document is indexed under exactly the keywords its splitting rule prescribes, each at its positions: the words of the lower-cased text split at spaces together with what they form joined up to each (no segmentation, or rule 4), the segments at their byte positions (rules 0, 1 and 3 with the segmentation library), the single characters in addition (rule 3), and tokens and labels given by the caller as they are (rules 0, 2, 3, 4; with rules 1 only for an empty text). Stop words are left out. Queries are lower-cased and split the same way with the caller's tokens added, so that a document is found by its own text.",
 ["inputs"], "every text, splitting rule, caller tokens, labels and stop words", "The tests index fixed sentences and look for one or two of their words.",
 ["segment.go", "engine.go", "stop_tokens.go"], [("token splitting", "segment.go: ForSplitData, splitData, makeTokensMap")], [], ["riot.Engine.IndexDoc", "riot.Engine.Search"])
prop("C22", "A restarted engine finds what was stored",
 "With storage on, an engine restarted on the same folder, after a clean close or a crash at any write, finds every document whose addition was stored and not removed, in the version last stored, with its data, and no removed one; what was flushed before the crash is never lost, and no document is in a state it never had. The stored ids and documents listed agree with that, and the restarted engine goes on storing.",
 ["crash_points", "histories"], "every history and crash point", "The tests restart once after a clean close.",
 ["engine.go", "store_worker.go"], [("documents stored by hash shard, replayed at start", "store_worker.go: storeIndexDoc, storeInit, storeRemoveDoc")], [], ["riot.Engine.Search", "riot.Engine.GetDBAllIds"])
prop("C23", "No query crashes an index",
 "Looking up any combination of tokens, labels, document-id restriction and logical expression, in any index type, on an empty index or after any additions and removals, with empty, unknown or repeated keys, returns a result without crashing or hanging.",
 ["inputs", "configurations"], "every query shape against every index type", "The tests use well-formed queries with known tokens.",
 ["core/indexer.go"], [("guards on empty key lists and missing postings", "core/indexer.go: Lookup")], [], ["core.Indexer.Lookup"])
prop("C24", "A distributed search merges what all nodes return",
 "A search sent to several nodes (WgDist over HTTP; the etcd-registered gRPC service) asks every configured node for what it was asked, and returns the documents of all nodes that answer, unchanged, latest first (by Ts, then by Id, descending), cut off at the limit of the request or, without one, of the configuration, with their number as the length announced. A node that fails or cannot be reached only has its own documents missing. Searches that run at the same time do not mix their documents.",
 ["schedules", "fault_sequences"], "every set of documents and failing nodes, concurrent searches", "There are no tests of the distributed search.",
 ["net/grpc/grpcc.go", "net/grpc/search.go", "net/grpc/etcd.go", "net/http/dist.go"], [("merge of replies", "net/grpc/search.go: wgGrpc; net/http/dist.go: WgDist")], [], ["http.WgDist", "grpc.InitErpc", "grpc.InitSearchRpc"])
prop("C25", "The network services do to the engine what they are asked",
 "Each request to the gRPC or HTTP service performs exactly the operation asked for on the engine with the values sent: an indexed document is indexed with its content, tokens and their positions, labels and attributes, at once when forced; a deleted one is removed; a search uses the query, window, restriction and expression sent and returns the documents found, unchanged, latest first, cut off at the limit of the request or, without one, of the configuration. The client functions send what they are given and report failure with result 1 or an error. Documents added through a service that stores its index are there again after it is started anew.",
 ["inputs", "histories"], "every request, histories of requests", "There are no tests of the services.",
 ["net/grpc/grpc.go", "net/grpc/search.go", "net/grpc/grpcc.go", "net/com/search.go", "net/http/http.go"], [("request handlers", "net/grpc/grpc.go, net/http/http.go")], [], ["grpc.InitGrpc", "grpc.InitGrpcc", "grpc.InitDelGrpcc", "com.InitEngine", "com.Search", "http.Search", "http.AddIndex", "http.DelIndex"])
prop("C26", "The heartbeat restarts a failing server exactly when it has failed too often",
 "The heartbeat monitor runs the configured restart command in the configured folder, once, when more than three heartbeats have failed since the last restart (a heartbeat fails when the call errors or the server answers anything but one), starts counting anew afterwards, and never restarts otherwise. The health page reports the number of failures counted.",
 ["fault_sequences"], "every sequence of successful and failed heartbeats", "There are no tests of the heartbeat.",
 ["net/heartb/heart.go"], [("counter of failures", "net/heartb/heart.go: Grpcc, heart, restart")], [], ["hb.Grpcc", "hb.Health"])
prop("C27", "The shared document registries keep exactly what was put in",
 "The shared registries of document records and keyword rows hold for every shard exactly the records and rows last put in, with the right counts, each shard apart from the others; creating a shard that exists loses nothing. A document is reported to exist exactly when some shard holds it.",
 ["histories"], "every history of puts and shard creations over several shards", "The tests never use the registries directly.",
 ["core/data.go"], [("maps by shard", "core/data.go")], [], ["core.AddDocInfo", "core.IsDocExist", "core.DocInfoGroup", "core.AddKeywordIndices", "core.InvertedIndexGroup"])
prop("C28", "The wire format round-trips and is the protocol's",
 "Every message of the gRPC service encodes to exactly what the protocol buffer definition prescribes, in the size announced, and decodes to the same message, from any encoder's field order, packed or unpacked, keeping unknown fields. Each call of the client reaches the server's method of the same name with its request and returns its reply or error.",
 ["inputs"], "every message within the bounds, every field order and unknown field", "There are no tests of the encoding.",
 ["net/grpc/riot-pb/doc.pb.go", "net/grpc/riot-pb/doc.proto"], [("generated marshalling code and stubs", "net/grpc/riot-pb/doc.pb.go")], [], ["doc.*.Marshal", "doc.*.Unmarshal", "doc.GreeterClient"])
prop("C29", "Decoding arbitrary bytes never crashes",
 "Decoding any sequence of bytes as any message of the gRPC service either yields a message, which can be encoded again, or an error; it never crashes or runs on, whatever lengths, wire types and nested groups the bytes claim.",
 ["inputs"], "every byte sequence within the bounds", "There are no tests of the decoding.",
 ["net/grpc/riot-pb/doc.pb.go"], [("length and bounds checks", "net/grpc/riot-pb/doc.pb.go: Unmarshal, skipDoc")], [], ["doc.*.Unmarshal"])
prop("C30", "A document is found by its pinyin",
 "With pinyin on, a document is, besides the keywords it has without it, indexed under each of its characters, each leading part of its text, its segments (when the segmentation library is used), each leading part, in whole syllables, of the pinyin of its Chinese characters and of the initials of these syllables; stop words are left out and nothing else is indexed. The document is found by a query for any of these leading parts of pinyin or initials. The keywords it has without pinyin keep their positions.",
 ["inputs"], "every text of Chinese and other characters, tokens, labels and stop words", "The tests index one document with pinyin and search it by two words.",
 ["segment.go"], [("keywords of a text in pinyin", "segment.go: PinYin, makeTokensMap")], [], ["riot.Engine.Index", "riot.Engine.Search"])
prop("C31", "An engine is set up as configured",
 "An engine made by New or NewEngine (from dictionary, folder and number of shards, or from a configuration file) or by InitEngine of the network services uses the dictionary, storage folder, store engine, number of stores and of shards, splitting rule, stop words, ids only and pinyin it is given, and the documented defaults otherwise (10 shards, ./riot-index). The stores it opens are exactly the shards of its folder; a document stored is found again by an engine made anew; HasDoc and HasDocDB tell whether a document is indexed and stored. Without storage nothing is stored and HasDocDB is false.",
 ["inputs", "configurations"], "every combination of settings", "The tests make a handful of engines and look at one setting of each.",
 ["riot.go", "engine.go", "net/com/search.go"], [("construction", "riot.go: New, NewEngine, HasDocDB; net/com/search.go: InitEngine")], [], ["riot.New", "riot.NewEngine", "riot.Engine.HasDocDB", "com.InitEngine"])
prop("C32", "Concurrent clients of one engine do not disturb each other",
 "Any clients may index, update, remove, search, flush, list the stored documents and ask for counters on one engine at the same time: no call hangs or crashes, no two goroutines access the same memory at once with one of them writing, a search finds each document nobody touches exactly once and each other at most once, with scores, content and attributes of a single version it has or is given meanwhile, in the order its own options ask for; after a final Flush everything done by every client holds.",
 ["schedules"], "every pair of concurrent operations and every interleaving with the engine's workers", "The tests use an engine from one goroutine at a time; the race detector only sees schedules that happen.",
 ["engine.go", "riot.go", "segment.go", "indexer_worker.go", "ranker_worker.go", "store_worker.go", "core/indexer.go", "core/ranker.go"], [("channels to the workers of each shard, locks of index and ranker, atomic counters", "engine.go, indexer_worker.go, ranker_worker.go, store_worker.go")], [], ["riot.Engine"])
prop("C33", "The kill pages end the server named and nothing else",
 "A request to the kill or the restart page of the heartbeat ends the processes of exactly the name it sends, whatever characters the name has, runs nothing else on the machine, is answered, and does not count as a failed heartbeat.",
 ["inputs"], "every name of a server", "No test asks for these pages.",
 ["net/heartb/heart.go"], [("kill: killall called with the name as one argument", "net/heartb/heart.go")], [], ["hb.KillSer", "hb.RestartSer"])
prop("C34", "No request crashes or wedges a network service",
 "Whatever numbers, texts, ids, tokens, positions, attributes and logic a request over gRPC or HTTP carries or leaves out - a negative or huge offset or limit, no document id, unsorted or negative positions, attributes that do not decode - the service (also a distributed one) replies to it with a well-formed reply that announces as many documents as it holds, keeps running, and afterwards still indexes, flushes and finds the other documents exactly once.",
 ["inputs"], "every value a client can put in a request", "The tests send no requests; a panic in a worker or a gRPC handler ends the whole process, with one request in a million.",
 ["net/grpc/grpc.go", "net/grpc/etcd.go", "net/grpc/search.go", "net/http/http.go", "net/http/dist.go", "net/com/search.go", "engine.go", "segment.go", "indexer_worker.go"],
 [("offset and limit made sensible before paging; documents with id 0 never reach index or store", "engine.go, net/")], [], ["gRPC Search, DocInx, Delete, HeartBeat", "HTTP /search, /add, /del, /dist"])

prop("C35", "The counters of an engine tell what it has done",
 "When Flush returns, NumIndexed is the number of document versions the engine was given to index - new ones and replacements, forced or not, and at a restart each document found in the store - NumTokenAdded the sum of the numbers of different keywords of all of them, and NumRemoved the number of removals times the number of shards; the reserved document id 0 and Flush itself count for nothing, and the old names NumDocsIndexed, NumTokenIndexAdded and NumDocsRemoved give the same numbers. Before that, with any number of clients at work, a counter never falls and is never ahead of what was asked for.",
 ["histories", "schedules"], "every history of additions, replacements and removals, and every interleaving of clients and workers", "The tests read the counters after one fixed history; Flush itself waits on them, so a wrong count is also a barrier that opens early or never.",
 ["counters.go", "engine.go", "indexer_worker.go", "segment.go", "store_worker.go"], [("numDocsIndexed, numTokenIndexAdded and numDocsRemoved counted once per request handled", "indexer_worker.go")], [], ["riot.Engine.NumIndexed", "NumTokenAdded", "NumRemoved", "NumDocsIndexed", "NumTokenIndexAdded", "NumDocsRemoved"])

prop("C36", "What a search returns for a document is that document's",
 "Every document a search returns comes with the content, attributes and fields it was indexed with last and the score these give it (with its id and score if the engine is for ids only; an orderless search gives ids only, unscored). If the index keeps locations and each searched word has one in the document, there is for each word the answer names, in that order, the list of all its positions in that document, and one of them as the place to start a snippet; an index without locations gives none. The words the answer names are those searched for. That holds for every number of shards and every way to ask: sorted in either order, with a deadline, restricted to labels, orderless.",
 ["inputs", "configurations"], "all positions, searched words, kinds of index and ways to ask", "The tests look at the ids of a few results, and at the positions in one sentence.",
 ["engine.go", "indexer_worker.go", "core/ranker.go", "core/indexer.go", "segment.go"], [("fields carried from the index through ranker and merge", "core/ranker.go: rankOutDocs; indexer_worker.go: orderLess")], [], ["riot.Engine.Search", "riot.Engine.SearchDoc", "riot.Engine.SearchID"])

prop("C37", "Searching changes nothing, and an answer stays what it was",
 "A search leaves the request it was given as it was - text, lists and the room behind them, restriction, options - and the engine too: asked again with nothing indexed or removed in between, it gives the same answer, whatever the caller does to the first answer's list of documents or words. An answer, once given, does not change when the engine indexes, replaces or removes documents or answers other searches. Nor does the engine change the documents it is given to index.",
 ["inputs", "histories"], "every kind of request and what follows it", "The tests use each request and each answer once.",
 ["engine.go", "core/indexer.go", "core/ranker.go", "ranker_worker.go", "indexer_worker.go"], [("search keys and options copied before use", "engine.go: Search, Tokens; core/indexer.go: Lookup")], [], ["riot.Engine.Search"])

prop("C38", "Engines in one process share nothing",
 "Two engines in one process, with options of their own and documents of the same ids, each behave as if alone: what is indexed, replaced or removed in one changes neither the searches, the counts nor the stored documents of the other, and closing one leaves the other and its store at work.",
 ["histories", "configurations"], "every interleaving of operations on the two", "The tests use several engines one after the other, never compared with each other.",
 ["engine.go", "riot.go", "core/indexer.go", "core/ranker.go", "store_worker.go"], [], [("Engine.indexers, rankers, dbs", "each engine's own", "engine.go")], ["riot.Engine.Search", "riot.Engine.HasDoc", "riot.Engine.GetDBAllDocs", "riot.Engine.Close"])

prop("C39", "An engine gets through any amount of work",
 "However small the buffers and caches and however few or many the workers, an engine that is given more documents, replacements, removals and searches than fits anywhere at once takes them all without coming to a standstill, and after a flush holds exactly what the last changes say, in the index and in the stores; searches asked meanwhile are answered.",
 ["schedules", "configurations"], "every number of workers, shards and stores, every size of buffers and caches, every schedule", "The tests give an engine with large buffers five documents.",
 ["engine.go", "segment.go", "indexer_worker.go", "ranker_worker.go", "store_worker.go", "core/indexer.go"], [("workers hand on through bounded channels in one direction", "engine.go: Init")], [], ["riot.Engine.Index", "riot.Engine.RemoveDoc", "riot.Engine.Search", "riot.Engine.Flush"])


NOTES = {}
exec(open(os.path.join(here, "tools", "status.py")).read())

def harnesses():
    r = {}
    for root, _, fs in os.walk(os.path.join(here, "harness")):
        for f in sorted(fs):
            if f.endswith(".go"):
                for m in re.finditer(r"//vsym:harness (.*)", open(os.path.join(root, f)).read()):
                    d = dict(x.split("=", 1) for x in m.group(1).split() if "=" in x)
                    for p in d["prop"].split(","):
                        r.setdefault(p, []).append(d)
    return r

H = harnesses()
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                        "mechanism": [dict(name=a, where=b) for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks, na = [], []
for p in P:
    if p["id"] in NA or p["id"] not in H:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "no check yet")})
        continue
    checks.append({"property": p["id"],
        "quick_cmd": "bin/gosym -prop %s -tier quick" % p["id"],
        "thorough_cmd": "bin/gosym -prop %s -tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "symbolic execution of the real code (go/ssa) with SMT verdicts (z3), counterexamples replayed natively",
        "level": "model_checking",
        "level_note": NOTES.get(p["id"], "") or "Bounded: decided by the solver for all values within the bounds listed in the evidence; trusts the executor, the solver and the library models named in DESIGN.md."})
json.dump({"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo: harnesses, library models and intrinsics are overlaid from /verif at load time."},
    open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
