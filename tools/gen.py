#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand, the results are committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = {}
def prop(id, title, statement, over, text, tests, files, mech, technique=None, note=None, observe=(), state=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe)),
        _t=technique, _n=note))
    if na: NA[id] = na

COMMON = ("Static: decided on the SSA form of /repo's current source, interprocedurally (helpers inlined into one event graph), "
          "every path considered with light branch correlation. Trusts go/types, go/ssa, the analyzer and the documented behaviour of the standard library. ")

prop("C01", "Every indexed term finds its document",
 "After a store has saved (or only indexed) a field of a document, the posting set it answers with for every term of that field contains the document. "
 "No other operation of the store, and no later save, removes a posting or replaces a posting set that already holds documents.",
 ["inputs", "histories"], "every document id, field name and set of terms, every sequence of saves, index updates and queries, on both stores",
 "The tests save one or two documents with two or three terms; a term skipped on one branch, or a set replaced only when it already exists, needs the right history.",
 ["storage/DiskStorage.go", "storage/Memory.go", "model/Set.go"],
 [("Disk.UpdateIndex adds the id to the set of each term", "storage/DiskStorage.go"), ("Memory.updateIndex", "storage/Memory.go")],
 "must-pass-through and coverage-of-loop analysis over the inlined SSA event graph",
 COMMON + "Decides that each path of SaveOrUpdate and UpdateIndex adds the id to the set stored under (field, term) for each key of TF, that new containers are published and existing ones never replaced, and that no other method changes the postings. Does not decide what happens beyond 2^31 entries or on out-of-memory.",
 ["GetDocuments", "GetIndex"])

prop("C02", "Statistics count each save exactly once",
 "Saving a field of a document raises the field's document count by one, its total length by the length of the field, and the document frequency of each distinct term by one, each exactly once. "
 "No query and no index-only update changes these statistics, and saving a field a document already has replaces its contribution instead of adding to it.",
 ["inputs", "histories"], "every field, length, term set and sequence of saves, index-only updates and queries, on both stores",
 "Tests check the counters after one or two saves of short documents; a counter touched on one branch only, or by another operation, shows in other histories.",
 ["storage/DiskStorage.go", "storage/Memory.go"],
 [("Disk.UpdateFieldSizeLength, UpdateNumberFieldTerm", "storage/DiskStorage.go"), ("Memory.SaveOrUpdate", "storage/Memory.go")],
 "symbolic slot-delta recognition and exactly-once path analysis on the SSA event graph",
 COMMON + "Decides the exactly-once increments (slot, amount, once per path and per term) and that index-only updates and queries leave them alone. The clause on saving again is violated by the code and listed as a known finding; the rule only looks for a decision on the stored version.",
 ["GetFieldSize", "GetFieldLength", "GetNumberFieldTerm"])

prop("C03", "Queries answer from what was saved",
 "Each query of a store answers for exactly the field, term and documents it was asked for, from the state the save operations built: a saved field of a document is returned with the value last saved, whatever other fields the document has, and an absent field, term or document is reported as absent (zero, not found, left out). "
 "Both stores agree on this, and a document that left the disk store's memory is answered from its file.",
 ["inputs", "histories"], "every store content, every list of document ids (with repeats, absent ones, in any order) and every cache size",
 "Tests ask for what they just saved, with a cache large enough; a second field, a miss, or an evicted document is not sampled.",
 ["storage/DiskStorage.go", "storage/Memory.go", "storage/DiskIO.go"],
 [("Disk.GetFields: cache, then file", "storage/DiskStorage.go"), ("Disk.UpdateFieldDocument keeps the other fields", "storage/DiskStorage.go"), ("Memory getters", "storage/Memory.go")],
 "value-origin (reaching definition) analysis of every returned entry, with coverage of the requested elements",
 COMMON + "Decides from which state each result comes, that every requested element is looked up and left out only when it is absent, and that a saved field reaches the place it is answered from with the document's other fields kept. That a pending, evicted document is not visible until the next flush is a known finding.",
 ["GetFields", "GetFieldLength", "GetFieldSize", "GetNumberFieldTerm", "GetIndex", "GetDocuments"])

prop("C04", "Queries never change the store",
 "No query of a store changes what later queries or a restart will answer, and no map or set it returns is the store's own: changing a result does not change the store.",
 ["inputs", "histories", "schedules"], "every query, argument and history, including callers that keep and modify results while others save",
 "Tests neither modify results nor compare the store before and after a query.",
 ["storage/DiskStorage.go", "storage/Memory.go", "storage/Storage.go", "model/Set.go"],
 [("cloneIndexField, Set.Clone", "storage/Storage.go"), ("fresh result maps", "storage/DiskStorage.go")],
 "effect analysis and escape (alias) analysis of returned containers",
 COMMON + "Decides that the query methods have no effect on the store's state (the document cache may be filled with what was loaded) and that no mutable container reachable from the store is returned. The term counts inside a returned document field are shared and treated as immutable, which C07 checks for the repository's own code.",
 ["all query methods"])

prop("C05", "Stores and caches are safe for concurrent use",
 "Every operation of the stores and the caches can run concurrently with every other: each access to shared mutable state holds the same lock, exclusively when it changes the state. "
 "No operation returns with a lock still held, takes a lock it already holds, or waits while holding a lock for something that needs that lock.",
 ["schedules"], "every number of goroutines and every interleaving of the public operations and the background writers",
 "The tests are sequential; Go's race detector sees only interleavings that happen.",
 ["storage/DiskStorage.go", "storage/Memory.go", "storage/DiskIO.go", "cache/LRU.go", "cache/Map.go", "cache/LocalMap.go", "cache/RCU.go"],
 [("Disk.mu, Memory.mu", "storage"), ("LRUCache.RWMutex, SyncMap.RWMutex, LocalMap.mu, RCU.data atomic", "cache")],
 "lockset analysis (must/may held locks per program point) with lock typestate",
 COMMON + "Lockset discipline for every field of the stores and caches that is changed after construction, balance of lock and unlock on every exit, no re-acquisition, consistent order. Does not decide progress of the writers when the disk blocks.",
 ["all exported methods"])

prop("C06", "Every change of the disk store is handed to its writer",
 "Every change a save makes to the disk store's memory is handed to the background writer of that kind of data, with the value the memory holds after the change, so that a restart after a flush answers like the running store.",
 ["inputs", "histories", "schedules"], "every sequence of saves and index updates, fields, terms and documents, new or known",
 "Tests read the memory, or a few files after a long sleep; a message missing for one branch (known term, new field) or sent before the update is not seen.",
 ["storage/DiskStorage.go"],
 [("sends on indexCh, fieldCh, numberFieldTermCh, documentFieldCh", "storage/DiskStorage.go")],
 "must-send-after-update path analysis with symbolic matching of message parts to updated slots",
 COMMON + "Decides that each state change is followed on every path by a send of its key and post-change value on the channel the matching writer reads, in the same critical section. Delivery itself is C08.",
 ["files after a flush"])

prop("C07", "What was handed over is not changed any more",
 "A map that was sent to a background writer, stored in a cache, or obtained from a cache or as an argument is not changed afterwards by the sender, the receiver or anybody else who holds it: writers, readers and callers never see a map change under them.",
 ["schedules", "histories"], "every interleaving of saves, queries and flushes",
 "It takes a flush that serializes a map in the same moment in which a save changes it; the runtime then stops the process with a fatal error.",
 ["storage/DiskStorage.go", "storage/DiskIO.go", "cache/RCU.go", "cache/Map.go"],
 [("copy-on-write in Disk.UpdateFieldDocument", "storage/DiskStorage.go"), ("writers copy received parts", "storage/DiskIO.go")],
 "ownership-transfer typestate: no write to a map after it was sent, published or received",
 COMMON + "Decides that no map update or delete can reach a map after it was sent or published, and that maps obtained by receive, from a cache, or from an argument are never written. TF maps of fields count as handed over with the field.",
 ["background writers", "GetFields"])

prop("C08", "Everything handed over reaches the disk",
 "Each part of every message a background writer receives is kept until a file containing it was saved, and is dropped only then. "
 "Rewriting a file keeps what earlier flushes put there: the counts of other terms, the other fields of a document. No writer stops for anything but a failure, and the folder of a file is made before it.",
 ["inputs", "histories", "fault_sequences", "schedules"], "every sequence of messages and timer ticks, any number of fields, terms and documents between two ticks",
 "A flush needs 5 to 13 seconds; tests flush once, so that an entry lost at the second flush, or by one message among many, is not seen.",
 ["storage/DiskIO.go"],
 [("SaveIndexOnDisk, SaveNumberFieldTermOnDisk, SaveFieldSizeLengthOnDisc, SaveDocumentFieldOnDisk", "storage/DiskIO.go")],
 "typestate over the writer loops: receive, buffer, save, drop; with coverage of buffer iteration",
 COMMON + "Decides for each of the four writers: every received part is stored in the buffer under its own key, each flush saves every buffered entry before it is removed, from complete data (buffer merged over what is stored where a file is rewritten), in the file that belongs to it, and failures stop the process. Assumes the process lives until the next tick.",
 ["index, temp, metrics, nfterm, docs/metrics files"])

prop("C09", "Files are replaced atomically",
 "A crash at any point leaves every data file of the disk store either as it was or complete with its new content, never missing, empty or partial; the same holds for index fragments, which become visible only when complete.",
 ["crash_points", "fault_sequences"], "every point at which the process can stop while a file is written, and every failing file operation",
 "Tests never stop in the middle of a write.",
 ["file/File.go", "storage/DiskIO.go"],
 [("SecureSaveFile: write beside, then rename", "file/File.go"), ("fragments are staged, then renamed into temp", "storage/DiskIO.go")],
 "who-may-write query plus write-then-rename typestate on path terms",
 COMMON + "Decides that every write in the storage code goes to a staging name no reader reads, is followed by a rename to the final name only when it succeeded, that nothing truncates or removes a final file before, and that failures are returned. Process crashes, not power loss (no fsync is done).",
 ["data files after a crash"])

prop("C10", "Merging index fragments loses no posting",
 "After a merge of index fragments the index file and the returned index contain every posting the old index file or a merged fragment had, under the field they belong to. A fragment is deleted only after the index file that contains it was saved, and only if it was read in this merge.",
 ["inputs", "histories", "crash_points", "fault_sequences", "schedules"], "any number of fields, terms and fragments, fragments that appear during the merge, a crash or failure at any step",
 "Tests merge a handful of fragments made by one flush, without failures.",
 ["storage/DiskIO.go"],
 [("LoadIndexOnHD", "storage/DiskIO.go"), ("LoadTermDocumentsFromIndex", "storage/DiskIO.go")],
 "dataflow of merged containers and order typestate read, merge, save, delete",
 COMMON + "Decides that each listed fragment and the old index are read, that each posting read is added to the set of its term, that what is saved and returned is that complete map, and that the deletes are dominated by the successful save and cover only files listed before it.",
 ["LoadIndexOnHD result, index file"])

prop("C11", "Opening a store restores everything or fails",
 "Opening the disk store loads the index, the field statistics and the term counts of every field on disk before it accepts operations, starts every background writer exactly once on the queue the operations feed, makes the folders they write into, and reports a failure to load instead of starting with partial data; a file that was not written yet is no failure. Every merge failure later is survived: merging goes on.",
 ["inputs", "configurations", "fault_sequences"], "every directory content and every failing load, any later sequence of merge failures",
 "Tests open a small directory without failures.",
 ["storage/DiskStorage.go", "storage/DiskIO.go"],
 [("NewDiskStore", "storage/DiskStorage.go"), ("Load* of DiskIO", "storage/DiskIO.go")],
 "initialisation dataflow and error-path analysis of the constructor",
 COMMON + "Decides where each part of the store comes from, that each load error leads to an error return and not to a store, that the four writers run on the channels the store sends on, and that the merge loop has no exit.",
 ["NewDiskStore"])

prop("C12", "No name reaches outside the store's folder",
 "No document id and no field name, whatever characters it has, makes the store read or write outside its root folder or in a file that belongs to another id, field or purpose; names read back from the disk are decoded to exactly the name they were made from.",
 ["inputs"], "every string as document id or field name, including separators, dots, the empty string, reserved names and the escape character",
 "Tests use plain names.",
 ["file/File.go", "storage/DiskIO.go"],
 [("SafeName, OriginalName", "file/File.go"), ("filepath.Join(root, SafeName(..))", "storage/DiskIO.go")],
 "taint analysis of path components plus decision of the escape tables",
 COMMON + "Decides that every path component that is not a constant, the root or a directory entry passed through the name encoder, that the encoder's replacement table is prefix-free, covers the separators and the escape character and excludes reserved names, and that the decoder is its exact inverse. File name length and case-insensitive file systems are not covered.",
 ["paths of all files"])

prop("C13", "What is serialized is read back",
 "Each reader of serialized data restores every part its writer wrote, from the same slot and under the same key: index postings, term counts, field statistics and document fields survive a write and a read unchanged, for any number of entries.",
 ["inputs"], "every map content and size, empty maps included",
 "Tests round-trip a few entries of one or two kinds.",
 ["storage/Serialize.go", "storage/buffers", "storage/schema"],
 [("Serialize*/Deserialize* pairs", "storage/Serialize.go")],
 "agreement analysis of writer and reader slot tables, with coverage of the loops",
 COMMON + "Decides slot by slot that what the serializer puts into a table slot comes from a key or value of its input and that the deserializer puts the same slot back in the same role, that all entries are written and read, and that writer and reader use the same table. FlatBuffers itself and numbers beyond 32 bits are trusted or excluded.",
 ["Serialize*/Deserialize*"])

prop("C14", "Each file is read as it was written",
 "Every kind of file is read with the decoder that matches its encoder, decompressed exactly when it was compressed, and looked for where it is written; no two kinds of data share a file.",
 ["inputs", "configurations"], "every field, document and file the store writes or reads",
 "Tests read back only some kinds, and a mismatch shows after a restart only.",
 ["storage/DiskIO.go", "file/File.go"],
 [("paths built from the constants of package file", "file/File.go"), ("DecompressData/CompressData", "file/File.go")],
 "symbolic path-term matching of writers and readers",
 COMMON + "Decides for every read and write of a file the symbolic path, the codec and the compression, and that readers and writers of the same path shape agree and that different kinds do not overlap.",
 ["data files"])

prop("C15", "I/O failures are never ignored",
 "Every failure of a file operation reaches someone: the operation that needed it reports the failure, stops the process, or treats the data as missing where a missing file is expected; it never goes on as if it had succeeded.",
 ["fault_sequences", "inputs"], "every file operation failing at any call",
 "No test makes a file operation fail.",
 ["file/File.go", "storage/DiskIO.go", "storage/DiskStorage.go"],
 [("returned errors, log.Fatal", "file/File.go")],
 "error-flow analysis: each error result tested and propagated on its failing branch",
 COMMON + "Decides for every call of the standard library that can fail, in the file and storage packages, that its error is tested on every path before success is reported and that the failing branch returns an error, ends the process, or is a listed missing-file fallback.",
 ["error results"])

prop("C16", "A search always ends and waits for its workers",
 "A search ends for every query and store content: no worker it starts waits forever, no queue is closed while someone may still send on it or closed twice, and it returns only after all its workers delivered. The same holds for the filters that work in parallel. Each worker works on its own query part.",
 ["inputs", "schedules"], "any number of terms, query parts and documents, any scheduling, any number of CPUs",
 "A deadlock needs more workers than slots, or a result larger than a queue; the tests have neither.",
 ["index/InvertedIndex.go", "search/Standard.go", "filter/Stemmer.go"],
 [("WaitGroup and semaphore channels", "index/InvertedIndex.go"), ("WaitGroup", "search/Standard.go")],
 "goroutine protocol analysis: wait-group counting, close-after-senders, acquire/release pairing, capture check",
 COMMON + "Decides Add/Done pairing, that close comes after Wait on the senders' group and once, that semaphore acquire and release pair on all paths without nesting, that each channel with senders has a receiver that drains it, and that worker arguments are per-iteration values. Does not decide running time.",
 ["Search", "Process"])

prop("C17", "A search considers every matching document, once",
 "For a field and a list of terms, the index search looks up the posting set of every term, fetches the stored field of every document in any of these sets exactly once, returns all of them, and returns the statistics of that same field: its document count, its average length, and the frequency of each term.",
 ["inputs", "schedules"], "every list of terms (repeated, unknown, none), every store content, every scheduling of the workers",
 "Tests search a few documents; dropping one of several batches or terms needs more.",
 ["index/InvertedIndex.go"],
 [("InvertedIndex.Search", "index/InvertedIndex.go")],
 "container dataflow through channels and batches with coverage of loops",
 COMMON + "Decides the flow term, posting, channel, batch, fetch, channel, result, with no filter but the duplicate check, and the origin of each statistic.",
 ["InvertedIndex.Search"])

prop("C18", "Rankings are complete, ordered and repeatable",
 "A search returns each document that matched in any part of the query exactly once, with the sum of its scores over all parts, best score first and documents of equal score in order of their ids. The same query on the same store gives the same list.",
 ["inputs", "schedules"], "every query and store content, every map iteration order and scheduling of the workers",
 "Map order and scheduling vary per run; a test sees one of them.",
 ["search/Standard.go"],
 [("Standard.Search", "search/Standard.go")],
 "container dataflow, order-dependence (map iteration and completion order) analysis, comparator decision",
 COMMON + "Decides that all scores of all parts reach the sum in the order of the query, that every summed document is in the result, that the comparator is a strict total order (score descending, then id), decided over the finite set of orderings of its operands, and that it sorts what is returned.",
 ["Standard.Search"])

prop("C19", "Scores follow the BM25 formula",
 "The score of a document field is the sum over the query terms of boost * idf * f*(k1+1) / (f + k1*(1-b+b*length/average)), with f the term's frequency in the field, idf = ln(1 + (N - n + 0.5)/(n + 0.5)) for the field's document count N and the term's document frequency n, k1 = 1.2, b = 0.75, and a boost of zero meaning one.",
 ["inputs"], "all numbers of documents, frequencies, lengths and boosts, all lists of terms",
 "No test checks a score.",
 ["similarity/BM25.go", "metric/IDF.go", "search/Standard.go"],
 [("BM25", "similarity/BM25.go"), ("IdfBM25", "metric/IDF.go")],
 "symbolic normalisation of the SSA expression to a rational function, compared with the formula",
 COMMON + "Decides equality of the computed expression and the formula as real rational functions under a logarithm (floating-point rounding is not modelled), that each query term adds one summand, and that the arguments come from the field and the statistics of the search.",
 ["Standard.Search scores"])

prop("C20", "Filters and tokenizers leave their input alone",
 "A filter never changes the list it is given; filters that map tokens return one token per input token, in the same order, each derived only from its own input token, and the stop-word filter keeps exactly the tokens that are not stop words of its language, in order; each declared language has its own words.",
 ["inputs", "schedules"], "every list of tokens, empty ones included, filters run concurrently on the same list",
 "No test runs the filters.",
 ["filter/ASCII.go", "filter/Lowercase.go", "filter/StopWords.go", "filter/Stemmer.go"],
 [("fresh result slices", "filter"), ("GetWords", "language/Language.go")],
 "effect analysis on the argument and position-preserving map recognition",
 COMMON + "Decides, for every implementation of the filter interface, that no store reaches the argument, and that the result is an index-preserving map (length, slot and source token agree) or an order-preserving selection by a predicate on the token.",
 ["Filter.Process"])

prop("C21", "Documents and queries are analysed alike",
 "Indexing and searching analyse text with the same steps in the same order, so that a word of a document is found by the same word in a query; stop words are looked up after case folding and before stemming. The stored length of a field is the number of its tokens and its term counts count exactly these tokens.",
 ["inputs"], "every document and query text",
 "No test runs the service's analysis.",
 ["main.go", "metric/TF.go", "testecolection/Teste.go"],
 [("Preprocessing", "main.go"), ("TermFrequency", "metric/TF.go")],
 "symbolic comparison of the analysis pipelines (call-chain terms) at every site that indexes or queries",
 COMMON + "Decides that the token lists that reach the index and the queries are made by the same chain of operations from the raw text, that the stop-word step comes after folding, and that Length and TF belong to the same token list. Whether a step is linguistically right is not decided.",
 ["POST and GET of the service"])

prop("C22", "The LRU cache keeps the most recent entries",
 "The cache returns the value last put for a key it holds and reports every other key as missing; it never holds more entries than its capacity (none for a capacity of zero or less), and when it is full it drops exactly the entry whose last use, by get or put, is oldest. Its index and its order list always hold the same keys.",
 ["inputs", "histories", "schedules"], "every capacity and sequence of gets and puts, from any number of goroutines",
 "The cache has no test of its own.",
 ["cache/LRU.go"],
 [("LRUCache.Get, Put", "cache/LRU.go")],
 "paired-effect analysis (map and list updated together on every path) and eviction-order typestate",
 COMMON + "Decides pairing of map and list updates, eviction of the back entry before insertion exactly when the list is full, move-to-front on every hit, value replacement, and behaviour for capacity zero. container/list is trusted.",
 ["LRUCache"])

prop("C23", "The RCU cache publishes complete snapshots",
 "Readers of the copy-on-write cache always see a complete map that never changes after it was published; every value put is in some later published map until a newer value for its key replaces it, and no published key is lost.",
 ["histories", "schedules"], "every interleaving of puts, gets and publications",
 "Tests put a few values and sleep.",
 ["cache/RCU.go"],
 [("RCU.writer", "cache/RCU.go")],
 "copy-and-publish typestate over the writer loop",
 COMMON + "Decides that the published map is fresh, holds a copy of all of the old map overlaid by all of the buffer, is not written after publication, that the buffer is dropped only after publication, and that Put delivers each pair to the writer, which buffers it under its key.",
 ["RCU.Get"])

prop("C24", "The synchronized map publishes every write",
 "Every value put into the synchronized map becomes visible to readers at a later publication until a newer value for its key replaces it, and no published key is lost; readers see only complete maps.",
 ["histories", "schedules"], "every interleaving of puts, gets and publications",
 "It has no test.",
 ["cache/Map.go"],
 [("SyncMap.writer", "cache/Map.go")],
 "copy-and-publish typestate over the writer loop",
 COMMON + "As for C23, with the lock discipline of the published map decided by C05.",
 ["SyncMap.Get"])

prop("C25", "A key always reaches its own shard",
 "Every key is routed to one existing shard, the same one every time, for every number of shards of one or more; within a shard the value last set for a key is returned and other keys are not affected. Asking for the shard of a key never fails.",
 ["inputs", "histories"], "every key and number of shards, 32- and 64-bit platforms",
 "The test uses a few keys on one platform.",
 ["cache/Shard.go", "cache/LocalMap.go"],
 [("getShardId", "cache/Shard.go"), ("LocalMap", "cache/LocalMap.go")],
 "range analysis of the routing expression against the constructed key range; slot agreement of set and get",
 COMMON + "Decides that the route is a function of the key and the number of shards only, lies in [0, n) on every platform (an unsigned remainder by n), that the constructor makes exactly these n shards, and that set and get of a shard use the same slot.",
 ["Shard.Get", "LocalMap"])

prop("C26", "The service answers every request safely",
 "A document that is malformed or has no id is rejected and not indexed; an accepted document is indexed with all its fields, under its own id, before the success answer. A search answers with the best ten ranked documents (all of them when there are fewer), with their scores, in rank order and with their number as the total, and never fails on the number of results. Each request is answered exactly once and shares no changing variable with other requests, and once the service has started, requests for documents and for searches are accepted.",
 ["inputs", "schedules"], "every request body and query string, any number of results, concurrent requests",
 "No test calls the service.",
 ["main.go"],
 [("POST /nir and GET /nir handlers", "main.go")],
 "path analysis of the handlers: validation dominates indexing, one response per path, bounds agreement, no shared writes",
 COMMON + "Decides for the two handlers one response on each path with its status, rejection before any effect, the origin of each indexed field and of each returned result, agreement of slice bounds with their lengths, and absence of writes to captured or global variables. gin is trusted.",
 ["HTTP responses"])

prop("C27", "Flattening keeps every leaf under its path",
 "Flattening a nested document keeps every value that is not an object, unchanged, under the dotted path of its keys, and adds nothing else; the input is not changed. The id of a document is the value of its id field, for every type of value.",
 ["inputs"], "every nesting, key and value type",
 "No test covers the package.",
 ["field/FieldProcess.go"],
 [("recFlatten", "field/FieldProcess.go"), ("GetID", "field/FieldProcess.go")],
 "structural recursion analysis: each entry is stored or descended into, with its path term",
 COMMON + "Decides that each entry of the input reaches either one store under prefix.key or one descent with that prefix, that the input is not written, and that the id is formatted from the value under the id key. Two paths that spell the same dotted key collide by design of the format.",
 ["Flatten", "GetID"])

prop("C28", "Tokens are the maximal runs of word characters",
 "Tokenizing splits a text exactly at the characters that are neither letters nor numbers nor apostrophes, in every script, and drops nothing else.",
 ["inputs"], "every text",
 "No test covers the tokenizer.",
 ["tokenizer/Standard.go"],
 [("isNotAlnum", "tokenizer/Standard.go")],
 "truth-table decision of the separator predicate over its atoms",
 COMMON + "Decides that the separator predicate is the boolean function not letter and not number and not apostrophe of the character (enumerated over its atomic tests), and that the text is split with it by the standard library.",
 ["Tokenize"])

prop("C29", "The collection loader reads every document",
 "The loader of the test collection returns every line of the file as a document, in order, the last one included, and stops with a message on a file it cannot open, read or parse instead of going on with what it has; the downloader replaces the file only with a response that was received and parsed completely, writes every entry as one line, and reports every failure. The end of the file is no failure.",
 ["inputs", "fault_sequences"], "every file content and every failing download or read",
 "There is no network in the tests and no test of the loader.",
 ["testecolection/Teste.go"],
 [("GetTextDocuments, GetDocuments, CriarArquivo", "testecolection/Teste.go")],
 "error-flow and end-of-input path analysis",
 COMMON + "Decides that error results are tested before their values are used and that a final line without line break is processed.",
 ["Documents"])

prop("C34", "No query and no document crashes it",
 "Whatever is asked, and whatever documents it indexed and stored before, the program does not fail at run time: what was not found, or could not be made, is not used as if it were there; nothing is put into a map that was never made; no place outside a list or text is asked for; no list is made with a size below zero; no whole number is divided by zero; a value from outside is not taken to be of a type, or to be well-formed, without asking; and the process is ended on purpose only for a failure, or for a value that no declared constant stands for.",
 ["inputs", "configurations", "fault_sequences"], "every query, document, declared option and failing call",
 "Tests use the inputs that work.",
 ["main.go", "search", "index", "storage", "filter", "language", "file", "cache"],
 [("main", "main.go"), ("InvertedIndex.Search", "index/InvertedIndex.go"), ("GetWords", "language/Language.go"), ("Stemmer.Process", "filter/Stemmer.go"), ("LoadIndexOnHD", "storage/DiskIO.go")],
 "path-sensitive nil, bounds and divisor analysis; reachability of deliberate aborts",
 COMMON + "Looks, for each exported function and main with everything unexported inlined, at each lookup, fallible call, map write, index, slice, integer division and abort, for a path on which it fails: the missing answer dereferenced, a map that may be nil, a list that no condition on the way bounds, a loop that goes one too far, a zero divisor, a negative size, an unasked type assertion or Must call on a value from outside, an abort without failure or for a declared constant. Places computed from other run-time values (positions received from channels, lengths answered by other functions) are not bounded and count as held when no such path is found; the rank list, the service and the serialized tables have their own bounds rules (C18, C26, C13).",
 ["every exported function"])

prop("C35", "A set holds exactly what was put into it",
 "A document set contains an element exactly when it was added and not removed since, whatever the element is; its size is the number of its elements, a new set is empty and shares nothing with other sets, and a clone has exactly the same elements in a map of its own.",
 ["inputs", "histories"], "every element, the empty text included, and every sequence of operations",
 "Tests add a few elements.",
 ["model/Set.go"],
 [("Set.Add, Remove, Contains, Size, Clone, NewSet", "model/Set.go")],
 "per-operation effect and result analysis: each operation is decided to have exactly its effect on the map for every element, which gives the property for every history by induction",
 COMMON + "Decides per operation: on each path the element is put in or taken out (or was shown to be there, or not) and nothing else is changed; the answer is true under the fact that the element is there and false under the opposite; the size is the length of the map or a count of all its entries; the clone is a complete copy in a new map.",
 ["every method of model.Set"])

# ---- properties static analysis cannot decide here
prop("C30", "A crash leaves the files consistent with each other",
 "After a crash between flushes, the statistics, term counts, postings and document fields found on disk describe the same set of saved documents.",
 ["crash_points", "histories"], "every crash point between the independent flushes of the four writers",
 "Tests never crash.",
 ["storage/DiskIO.go"], [("four independent timers (5, 7, 10 and 13 s)", "storage/DiskIO.go")],
 na="The four writers flush independently by design, so the property is false for most crash points; there is no structural clause left to decide, and whether a given history is consistent quantifies over run-time timing.")
prop("C31", "A flushed file survives a power loss",
 "Data the store has flushed is on stable storage.",
 ["crash_points"], "power loss at any point after a flush",
 "Needs a storage fault model.",
 ["file/File.go"], [("os.WriteFile and os.Rename, no fsync", "file/File.go")],
 na="The code never calls fsync and does not promise durability against power loss; what a file system keeps is a run-time quantity outside the source.")
prop("C32", "Counts stay exact for every size of collection",
 "Field lengths and counts written to disk equal the counts in memory for every collection size.",
 ["inputs", "histories"], "collections with more than 2^31 tokens",
 "No test is that large.",
 ["storage/Serialize.go"], [("int32 slots of the file format", "storage/schema")],
 na="The file format has 32-bit counters, so the property needs a bound on run-time magnitudes that no static argument supplies; narrowing happens at every write by format design.")
prop("C33", "Words are reduced to their linguistic stem",
 "The stemmer maps inflected forms of one word to one stem and different words to different stems.",
 ["inputs"], "every English word",
 "It is a matter of an external algorithm.",
 ["filter/Stemmer.go"], [("porter2.Stem", "external module")],
 na="The stemming algorithm lives in an external module and its correctness is a property of string values, with no structural clause in this repository beyond C20.")

LIVE = sys.argv[1].split(",") if len(sys.argv) > 1 else None
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
checks, na = [], [dict(property=k, reason=v) for k, v in NA.items()]
for p in P:
    if p["id"] in NA: continue
    if LIVE is not None and p["id"] not in LIVE:
        na.append(dict(property=p["id"], reason="The rule for it is not built yet."))
        continue
    checks.append(dict(property=p["id"], quick_cmd="./check.sh " + p["id"], thorough_cmd="./check.sh " + p["id"] + " thorough",
        evidence_file="evidence/%s.json" % p["id"], technique="static analysis: " + p["_t"], level="other", level_note=p["_n"]))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
    notes="All checks run one Go analyzer (analyzer/, vendored golang.org/x/tools) over the source of /repo; nothing of /repo is executed."),
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
for p in P: assert len(p["title"]) <= 80, p["title"]
# what the evidence says about each check, and how many obligations are expected at least (about a third of today's)
FLOOR = dict(C01=16, C02=22, C03=12, C04=10, C05=90, C06=25, C07=45, C08=32, C09=12, C10=19, C11=42, C12=80, C13=26, C14=20, C15=22,
    C16=18, C17=14, C18=13, C19=5, C20=12, C21=27, C22=13, C23=9, C24=9, C25=8, C26=43, C27=4, C28=2, C29=16, C34=110, C35=4)
json.dump({p["id"]: dict(explain="Rule: " + p["_t"] + ". " + p["_n"].replace(COMMON, "") + " Quantified over: " + p["quantifier"]["text"]
    + ". An obligation is one application of a rule to a construct (call site, path, slot, loop, queue); discharged ones hold on every path of the graphs listed.",
    floor=FLOOR[p["id"]], assume=["go/types, go/ssa and the analyzer are correct", "the standard library and third-party modules behave as documented"])
    for p in P if p["id"] not in NA}, open(os.path.join(V, "analyzer", "explain.json"), "w"), indent=1, ensure_ascii=False)
