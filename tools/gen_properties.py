#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the hand-written property list lives here)."""
import json, os
MI="gaoya/src/minhash/minhash_index.rs"; MM="gaoya/src/minhash/mod.rs"; IC="gaoya/src/minhash/id_container.rs"
H="gaoya/src/minhash/min_hasher.rs"; H64="gaoya/src/minhash/min_hasher64.rs"; HS="gaoya/src/minhash/hashers.rs"
ST="gaoya/src/minhash/string_index.rs"; SI="gaoya/src/simhash/sim_hash_index.rs"; SP="gaoya/src/simhash/permutation.rs"
SH="gaoya/src/simhash/sim_hash.rs"; SHR="gaoya/src/simhash/sim_hasher.rs"; SM="gaoya/src/simhash/mod.rs"
CP="gaoya/src/clustering/clusterer_parallel.rs"; CS="gaoya/src/clustering/clustering_serial.rs"
TM="gaoya/src/text/multi_shingles.rs"; TT="gaoya/src/text/tokenizers.rs"
PM="py-gaoya/src/min_hash.rs"; PS="py-gaoya/src/sim_hash.rs"; PL="py-gaoya/src/lib.rs"
YM="py-gaoya/gaoya/minhash.py"; YS="py-gaoya/gaoya/simhash.py"
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
prop("C01","MinHash queries return only stored ids at or above the threshold",
 "Every id returned by any MinHash threshold query (by signature, by id, owned, bulk, with similarities, best match) is stored in the index at that moment and the similarity of its current signature to the query signature is at least the configured threshold. The test is 'similarity >= threshold' in every form, so an entry exactly at the threshold is accepted by all of them.",
 ["inputs","histories","configurations"],"every index configuration, stored set, history of inserts and removals, query signature and query form",
 "Tests query a handful of documents far away from the threshold; equality with the threshold, overwritten ids and each of the eight query forms are hardly reached.",
 [MI],[("candidate filter in every query form",MI)],[("id signature map","current signature per id",MI),("threshold","configured minimum similarity",MI)],
 ["MinHashIndex::query*, par_bulk_query*, query_one, QueryIndex::query"])
prop("C02","MinHash queries find every similar entry that shares a band with the query",
 "If a stored signature equals the query signature on all rows of at least one band and its similarity reaches the threshold, then its id is in the result of every threshold query form, whatever the number and width of bands, the position of the band and the way the entry was inserted. No entry is lost because of another entry's insertion or removal.",
 ["inputs","histories","configurations"],"every (bands, width) configuration, stored set, insertion route and query",
 "The tests use four or five shapes and near-duplicate texts that agree on many bands at once, so a band that is skipped or keyed differently goes unnoticed.",
 [MI,IC],[("bands tile the signature",MI+" new_index/new_with_capacity"),("same key derivation for insert, query and remove",MI+" MinHashBand"),("every band receives every insert and answers every query",MI)])
prop("C03","Removed ids are gone from every MinHash query and no history makes one panic",
 "After an id has been removed (one by one or in bulk) or the index has been cleared, no query returns it until it is inserted again; all other ids keep being found, and the removed signatures are returned. No history of insertions (repeated ids included), removals of known and unknown ids and clears makes a query or a removal panic.",
 ["histories"],"every finite history of insert, bulk insert, overwrite, remove, bulk remove (with unknown or repeated ids), clear and query",
 "Tests run two or three short histories; a repeated id followed by a removal, or an unknown id in a bulk removal, is a multi-step history.",
 [MI,IC],[("removal from the signature map and from every band",MI+" remove/bulk_remove/clear"),("candidates without a stored signature are skipped",MI)],[("bands","ids per band key",MI),("id signature map","current signature per id",MI)])
prop("C04","Index size and stored signatures always reflect the last write per id",
 "After any history, size() of a MinHash or SimHash index is the number of distinct ids currently stored, and the signature reported and compared for an id is the last one inserted for it. This holds for every insertion route.",
 ["histories"],"every history of single, bulk and pair insertions, overwrites and removals",
 "Tests look at size() after a few insertions of distinct ids in the MinHash index only.",
 [MI,SI],[("every insertion route writes the id map last-write-wins",MI+", "+SI),("size derived from the id map",MI+", "+SI)],[("id signature map","current signature per id",MI)])
prop("C05","A signature of the wrong length is rejected before anything changes",
 "Every route that inserts into or queries a MinHash index checks that each signature it is given has exactly bands x width hashes, and rejects the call (panics) before the index is modified. So no index ever holds a signature of a different length, whatever the position of the bad signature in a batch.",
 ["inputs","histories"],"every insertion and query route and every batch, with the wrong signature at any position",
 "No test passes a signature of the wrong length.",
 [MI],[("length assertion dominating every mutation and every band lookup",MI)])
prop("C06","Bulk and parallel operations equal the one-by-one operations in order",
 "A bulk or parallel operation (signatures, insertions, queries, with or without similarities, for MinHash, SimHash and the Python indexes) has the same effect and the same results as applying the single operation to each item in order: item i of the result belongs to item i of the input, nothing is dropped, duplicated or reordered, and no batch size or thread schedule changes the outcome.",
 ["inputs","schedules"],"every batch (length 0, 1, below and above internal thresholds), item position and work-stealing schedule",
 "Tests use batches of one size each and mostly look at counts.",
 [MI,MM,SI,PM,PS],[("indexed parallel map and collect over the same single operation",MI+", "+SI+", "+MM),("size-dependent switch between serial and parallel path",PM+", "+PS)])
prop("C07","Ranked results carry true scores, are sorted best first and cut to k",
 "Results with similarities are sorted from the highest to the lowest similarity, results with distances from the lowest to the highest; every reported number is the similarity or distance between the query and the stored signature of that id. query_top_k returns the min(k, candidates) nearest candidates, and best-match queries return a candidate with the best score among all accepted ones, or nothing if there is none.",
 ["inputs","histories"],"every candidate set, k (0, larger than the result) and score ties, MinHash and SimHash",
 "Tests check sortedness of two result lists and the length of one top-k result.",
 [MI,SI],[("sort with the score comparator, slice to k, max_by/min_by",MI+", "+SI)])
prop("C08","Similarity and distance functions compute exactly the documented ratio",
 "For signatures of equal length n > 0 the MinHash similarity is the number of positions that agree divided by n, the distance is one minus it, the threshold predicate is true exactly when the similarity reaches the threshold, and Jaccard similarity is |A and B| / |A or B| of the two token sets. All positions count, with no rounding or saturation, and unequal lengths are rejected.",
 ["inputs"],"every pair of signatures of every length and element type, every threshold",
 "A doc-test compares one pair with a one-sided inequality; lengths that are not multiples of something, counts above 255 and thresholds that are not multiples of 1/n are not reached.",
 [MM],[("position-wise count divided by the length",MM+" compute_minhash_similarity"),("threshold predicate",MM+" similarity_greater_than_threshold")])
prop("C09","MinHash and SimHash signatures are reproducible",
 "A hasher built with the same parameters gives the same signature for the same tokens in every instance, thread, process and run: neither its construction nor signature creation uses anything but its parameters (hash count, hasher, seed or keys). The default hashers of the public types use a fixed seed and no per-process randomness.",
 ["inputs","schedules","configurations"],"every construction, instance, thread and process",
 "Two signatures compared within one process by a test come from the same instance.",
 [H,H64,HS,SHR,SH],[("fixed-seed generator and keyless or fixed-key token hashers",H+", "+H64+", "+SHR)])
prop("C10","A MinHash signature is a function of the token set, one slot per hash function",
 "For every hasher width the signature has exactly num_hashes values for every input including the empty one, and slot i is the minimum over all tokens of the i-th hash function, so order and repetition of tokens never matter and adding tokens to a non-empty set never increases the minimum of a slot. Every token takes part in every slot, and narrower hashers only truncate that minimum.",
 ["inputs","configurations"],"every token sequence (empty, repeated, permuted), hash count and width",
 "Tests compare estimated with true similarity on three sentences with a tolerance of 0.1 or more.",
 [H,H64,MM],[("zip of coefficient vectors, min over all token hashes",H+", "+H64+" create_signature")],[("a, b","coefficients of hash function i",H+", "+H64)])
prop("C11","The id containers are interchangeable",
 "For every sequence of operations, an index built on any of the provided id containers (hash set, vector, small vector of any inline size) returns the same query results: a pushed id is reported until it is removed, removal removes exactly the given id and no other, and emptiness and copying reflect all ids held.",
 ["histories","configurations"],"every sequence of push and remove, every container type and inline capacity",
 "The removal test uses buckets of at most four ids and one inline size.",
 [IC],[("IdContainer implementations",IC)])
prop("C12","Computed band parameters never exceed the hash budget",
 "For every similarity in (0, 1], every number of hashes n >= 1 and probability in [0, 1), the computed number of bands b and width r satisfy b >= 1, r >= 1, b = n / r (rounded down, so b * r <= n), and unless r is 1 the probability 1-(1-s^r)^b exceeds the requested one. The Python index built from num_hashes uses these values both for its bands and for its hasher.",
 ["inputs","configurations"],"every similarity, hash budget and desired probability",
 "A doc-test checks two parameter pairs.",
 [MM,PM],[("b and r updated together, guarded by the probability",MM+" calculate_b_and_r")])
prop("C13","SimHash queries return only stored ids within the maximum Hamming distance",
 "Every id returned by any SimHash query form (borrowed, owned, best match, with distance, bulk) is stored in the index and the Hamming distance between its current signature and the query is at most the configured maximum; the test is 'distance <= maximum' in every form.",
 ["inputs","histories","configurations"],"every index configuration, stored set, history with overwrites, query and query form",
 "One randomised test compares the best match with linear search, at small distances only.",
 [SI],[("candidate filter in every table query",SI)])
prop("C14","SimHash queries find every entry within the maximum Hamming distance",
 "For every number of blocks (at most the signature width) and maximum distance d below it, every stored signature that differs from the query in at most d bits is found by every query form: the blocks partition all bits of the signature, there is one table for every choice of (blocks - d) blocks, and each table keys insertions and queries by exactly the bits of its choice.",
 ["inputs","configurations","histories"],"every (blocks, distance) configuration, 64 and 128 bits, every pair of signatures within the distance",
 "The only test that queries uses one configuration and one query; the permutation tests assert nothing.",
 [SI,SP],[("blocks tile the bits, all combinations, same mask on insert and query",SP+", "+SI)])
prop("C15","A SimHash signature is a bitwise majority over the token multiset",
 "Bit i of a SimHash signature depends only on how many tokens have bit i of their hash set and how many do not, for each of the L bits and for every token, so the signature does not depend on token order: the bit is set exactly when more tokens have that hash bit clear than set (no tokens give the all-zero signature). The centroid of signatures is their bitwise strict majority. The Hamming distance is the number of differing bits over the full width, hence symmetric, zero only for equal signatures, and the angle is the distance times pi / width.",
 ["inputs","configurations"],"every token sequence and every pair of signatures, 64 and 128 bits",
 "Tests bound one distance from above.",
 [SH,SM],[("per-bit counters and sign test",SH),("xor and population count",SM)])
prop("C16","Clusters are disjoint, big enough, uniquely numbered and consistently marked",
 "After clustering, serial or parallel, every point belongs to at most one returned cluster, every member of a returned cluster is marked as assigned to it, no returned cluster has fewer than min_cluster_size points, and no two clusters ever produced by one clusterer share an id. Points assigned earlier are never taken over, and every member was a query result for the point that started the cluster. Every given point gets its turn: one that is still unassigned then starts a cluster of its unassigned query results when there are at least min_cluster_size of them (in parallel: unless another thread takes one of them); an assigned one starts none. Points are identified by their id alone, whatever their assignment.",
 ["inputs","histories"],"every point set, index, minimum size, and sequence of clustering calls",
 "The clustering module has no tests at all.",
 [CP,CS],[("skip of assigned points, filter of assigned neighbours, id sequence",CP+", "+CS)],[("cluster marker of a point","which cluster owns the point",CP+", "+CS)])
prop("C17","Parallel clustering is race-free: points are claimed atomically or not at all",
 "Under every thread schedule a point is claimed for a cluster only by an atomic transition from 'unassigned', only while no other cluster is being created, and a cluster attempt that fails releases every point it has claimed and only those; a returned cluster is committed. No thread ever dereferences another thread's cluster.",
 ["schedules"],"every interleaving of the worker threads, every overlap of their clusters",
 "No test runs the parallel clusterer; races need particular interleavings.",
 [CP],[("compare-and-exchange from null, creation lock, rollback of claimed points on every failing exit, commit",CP+" try_create_cluster/rollback_cluster_points")],[("cluster pointer","owner of a point",CP),("cluster state","new, committed, rolled back",CP)])
prop("C18","Only thread-safe contents can cross threads, and queries never write",
 "Safe code can share or send indexes, hashers and cluster points between threads exactly when their contents allow it: no type is declared Send or Sync beyond what its fields justify, and index types stay Sync for thread-safe ids. All query operations take the index by shared reference and change nothing that another query can observe.",
 ["programs","schedules"],"every safe program using the library from several threads",
 "Whether a bad program fails to compile, and the absence of hidden mutation, cannot be observed by running good programs.",
 [CP,CS,MI,SI,IC],[("auto traits only; no interior mutability in index types; &self receivers",MI+", "+SI+", "+CP+", "+CS)])
prop("C19","Shingle iterators yield exactly the n-grams of every size in the range",
 "For every text or token sequence and every size range 1 <= from <= to, the shingle iterator yields every contiguous run of n characters (tokens) for every n in the range at every position where it fits, each exactly once, and nothing else; whitespace splitting yields exactly the maximal non-empty runs without ASCII whitespace and punctuation.",
 ["inputs"],"every text (any Unicode, empty, shorter than the size) and every size range",
 "The text module has no tests; the Python tests use single words only.",
 [TM,TT],[("size and position advance of the iterator",TM)])
prop("C20","Tokenising never panics: text is only cut at character boundaries",
 "For every Unicode text and every size range with from >= 1, tokenising (shingles of one size or of a range, words, word shingles) terminates without a panic: text is only ever sliced at character boundaries and inside its bounds.",
 ["inputs"],"every Unicode string including multi-byte characters at every position, and the empty string",
 "No test passes non-ASCII text to the shingle iterators.",
 [TM,TT],[("boundary positions from the byte scan",TM)])
prop("C21","Every Python method reaches the matching native operation",
 "Each method of the Python indexes, for every combination of its flags and kind of analyzer, calls a native method that exists, with the right number and order of arguments, of the matching kind (document or token input, single or bulk, ids only or with scores), and returns its result; no combination raises AttributeError or TypeError.",
 ["inputs","configurations"],"every public Python method, flag combination and analyzer kind (built-in or callable), both index classes, all native classes",
 "The Python tests call MinHashStringIndex only, never SimHashStringIndex, and few flag combinations.",
 [YM,YS,PM,PS],[("dispatch on analyzer and flags",YM+", "+YS),("native methods",PM+", "+PS)])
prop("C22","Python indexes treat inserted and queried text identically",
 "In a Python index a document is turned into a signature in the same way on every route (insert, query, single, bulk, with or without scores): same lower-casing when enabled and none when disabled, same analyzer and n-gram range, same hasher; so a query with the text of a stored document always finds it at similarity 1 or distance 0.",
 ["inputs","configurations"],"every document, route pair, analyzer, n-gram range, lowercase flag and hash size",
 "Tests exercise one analyzer with lower-casing on and a few routes.",
 [PM,PS,PL,YM,YS],[("shared tokenise-and-hash path guarded by the lowercase flag",PM+", "+PS)])
prop("C23","Python constructors build exactly what was asked for or raise ValueError",
 "For every combination of hash size and id container the constructor creates the native index of that width and container, and passes threshold, bands, band size, hash count, analyzer, lowercase flag and n-gram range to the matching parameters; the hasher and the index agree on the signature length. Unsupported values (hash size, threshold outside 0..1, container, analyzer, number of blocks, distance not below the number of blocks, no usable size parameters) raise ValueError.",
 ["inputs","configurations"],"every argument combination of both constructors",
 "Tests build four widths with three containers and one unsupported container, and cannot see which native class was chosen.",
 [YM,YS,PM,PS,PL],[("constructor table and argument order",YM+", "+YS),("native constructors",PM+", "+PS),("tokenizer selection",PL)])
prop("C24","The string index keeps every text under its own id and reports read errors",
 "Every text inserted into a string index, singly or by loading lines from a reader or a file, serially or in parallel, gets an id no other text has, is stored with its own signature, and is what a query that matches it returns; the reported counts are the numbers of texts added. Both file loaders accept the same lines, and a failure to open or read is returned as an error.",
 ["inputs","histories","fault_sequences"],"every sequence of insertions and loads, every file content and read fault",
 "The only test loads six lines once from memory and never mixes routes.",
 [ST],[("id sequence, document map and index updated together",ST)],[("document counter","last id used",ST)])
prop("C25","Capacity management never changes contents and never panics",
 "shrink_to_fit, shrink_to with any argument, and construction with any initial capacity and expected similarity ratio affect memory only: contents, size and the results of every query are the same as without them, and none of them panics for any index state, the empty one included.",
 ["inputs","histories","configurations"],"every index state and every capacity argument",
 "No test calls them.",
 [MI],[("capacity-only calls on the tables; same bands as the plain constructor",MI+" shrink_to*/new_with_capacity")])
prop("C26","A centroid takes the most frequent value of the members at every position",
 "The centroid of a non-empty list of signatures has the same length as they have; at every position (for an index: in every band, in band order and using the index's own band ranges) it is a value that occurs among the members at that position and occurs there at least as often as any other. Ids that are not stored are ignored.",
 ["inputs"],"every non-empty list of members and every band configuration",
 "Two small tests cover the position-wise version; the band-wise one used by the index is not tested.",
 [MM,MI],[("count per position or band, maximum by count",MM)])
prop("C27","MinHash similarity is an unbiased estimate of Jaccard similarity",
 "Over the random choice of hash functions the expected MinHash similarity of two token sets equals their Jaccard similarity (up to hash collisions and truncation), with a standard error of about sqrt(J(1-J)/n).",
 ["inputs","configurations"],"every pair of token sets, hash count and width",
 "Tests check three pairs with a large tolerance.",
 [H,H64],[("random affine hash functions",H+", "+H64)])
prop("C28","The chance of missing a similar MinHash entry follows the S-curve",
 "Two sets with Jaccard similarity s become candidates of each other with probability 1-(1-s^r)^b, so with the computed parameters a pair at the requested similarity is found with at least the requested probability.",
 ["inputs","configurations"],"every pair of sets and parameter choice",
 "Probability over hash functions cannot be seen in single runs.",
 [MM,MI],[("banding",MI)])
prop("C29","SimHash distance reflects cosine similarity of the token vectors",
 "The expected Hamming distance of two SimHash signatures is proportional to the angle between the two token count vectors.",
 ["inputs"],"every pair of token multisets",
 "Tests bound one distance.",
 [SH],[("bitwise majority of random-looking token hashes",SH)])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
