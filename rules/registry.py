"""Which rules decide which property."""
from . import p_minhash as PM, simhash as SH, p_sig as PS, p_index as PI, p_cont as PC, p_centroid as PE, p_text as PT, p_string as PST, p_cluster as PCL, p_native as PN, p_pyast as PY, p_send as PSD

TECHNIQUE = ('abstract interpretation of the compiler MIR: gated value-flow summaries (symbolic normal forms, BDD guards) of every anchored function, '
             'matched against the obligations of the property; no solver, no execution')

TRUSTED = [
    'rustc nightly front end and MIR construction (the program analysed is the one the compiler type-checked)',
    'driver/ (MIR to JSON) and engine/ (abstract interpreter, term normal forms)',
    'engine/models.py: meaning of the standard library, rayon, hashbrown/ahash maps, itertools, rand, smallvec calls that occur',
    'rules/: the specification of each property as obligations over summaries',
]

PROPS = {
    'C01': dict(parts=[PM.c01], explain='For every MinHash query form: each comprehension of the returned collection is guarded by "the id is in the id map" and by similarity(stored signature, query) >= threshold; '
                'the similarity function is the match ratio.'),
    'C02': dict(parts=[PM.c02, PC.c11], explain='Band ranges of the constructor partition the signature; insertion pushes the id under the hash of exactly the band range in every band; every query form looks up every band '
                'with the same key function and drops candidates only by the threshold test.'),
    'C03': dict(parts=[PM.c03, PC.c11], explain='Removal takes the id out of the id map and out of the band buckets of its own signature (pairing in bulk), deletes a bucket only if empty; queries do not unwrap an id that may be gone; '
                'every reachable panic site in queries and removals has a guard that is refuted by those facts.'),
    'C04': dict(parts=[PI.c04_minhash, PI.c04_simhash, PN.c04_native], explain='size() is the length of the id map; each insertion route writes (id, signature) of every item unconditionally and in order; only insert/remove/clear write it; '
                'queries compare the signature stored for the id they return.'),
    'C05': dict(parts=[PM.c05], explain='On every path of every insertion and query route the length test of each signature dominates the first write and covers every item of a batch.'),
    'C06': dict(parts=[PI.c06_queries, PI.c06_inserts, PI.c06_signatures, PN.c06_native], explain='The summary of every bulk/parallel operation is, item by item, the summary of the single operation (same term after substituting item i), '
                'with an order-preserving collection over the whole input.'),
    'C07': dict(parts=[PI.c07_minhash, PI.c07_simhash, PI.c07_sims], explain='Sort keys, direction, cut and score terms of every ranked result: sorted by the reported score, best first, score = similarity/distance of query and stored signature, '
                'top-k is the prefix of length min(k, candidates) of the sorted list.'),
    'C08': dict(parts=[PS.c08], explain='The normal form of each similarity/distance function is the documented ratio (count of agreeing positions over the length; |A n B| / |A u B|), counters cannot wrap, unequal lengths reach a panic.'),
    'C09': dict(parts=[PS.c09, PN.c09_native], explain='Call-graph and type closure of hasher construction and signature creation contain no source of nondeterminism; the terms depend on the parameters only.'),
    'C10': dict(parts=[PS.c10], explain='Normal form of create_signature of every hasher: one slot per hash function, slot i = min over all tokens of hash i, truncation only in narrower hashers.'),
    'C11': dict(parts=[PC.c11], explain='Each container method refines the operation of the abstract id set: push adds, remove takes out every occurrence of exactly the id, copies add exactly the members, emptiness is length zero.'),
    'C12': dict(parts=[PS.c12], explain='calculate_b_and_r: every returned pair is (n / r, r) with r drawn from the downward range, last resort r = 1, selected under 1-(1-s^r)^b > p.'),
    'C13': dict(parts=[SH.c13, PS.distance], explain='For every SimHash query form: each returned id is guarded by "in the id map" and by hamming_distance(stored, query) <= max distance.'),
    'C14': dict(parts=[SH.c14, PS.distance], explain='Blocks partition all bits, tables are all (blocks - d)-combinations, insertion and query key each table by the same masked bits, candidates dropped only by the distance test.'),
    'C15': dict(parts=[PS.c15], explain='Normal form of create_signature / centroid (per-bit counters over all tokens, sign test) and of the distance (popcount of xor over the full width).'),
    'C16': dict(parts=[PCL.c16], explain='Closed form of the clusters returned by the serial and both parallel entry points: members are exactly the unassigned query results of an unassigned start point, '
                'their number reaches the minimum, every member is marked with the id (claimed for the pointer) of its own cluster, ids come from a sequence advanced once per cluster, every given point gets its turn.'),
    'C17': dict(parts=[PCL.c17], explain='Lockset and effect-order analysis of parallel clustering: the marker of a point is written only by compare_exchange from null (claim) or from its own cluster (release), all of it between '
                'taking and dropping the shared creation lock; on every failing path the released points cover the claimed ones; a returned cluster passed its commit transition; no raw cluster pointer is dereferenced.'),
    'C18': dict(parts=[PSD.c18], explain='Compile-pass and compile-fail witnesses (witness/, type-checked by rustc against the current tree): every index, hasher, container and cluster type is Send/Sync for thread-safe contents and is not for contents that are not; '
                'hand-written Send/Sync impls are bounded; every query takes &self and no function reachable from a query writes through a shared reference (effect analysis and call-graph scan for interior mutability and const-to-mut casts).'),
    'C19': dict(parts=[PT.c19], explain='next() of both MultiShingles iterators as a transition system: in every case of a complete polyhedral case split over (text length, size, from, to) the yielded piece and the next state are those of the enumeration of all sizes at all positions; characters are located by byte-boundary counting; word splitting predicate and filter.'),
    'C20': dict(parts=[PT.c20], explain='Every slice in the tokenisers is refuted as a panic in every reachable case and its ends are 0, the length, or the position of a character; no other panic site.'),
    'C21': dict(parts=[PY.c21], explain='Every path of every public method of the Python index classes (syntax tree, all analyzer kinds, flags, hash sizes and containers, starting from every state the constructor can leave) '
                'makes the native call of the matching kind (kind = argument and result types of the Rust method found in the MIR) on its own index with the arguments it was given and returns the result; no path raises.'),
    'C22': dict(parts=[PN.c22, PY.c22_py], explain='For every native method that takes text, and every tokenizer variant and lower-casing flag: the signature inserted or queried is hasher.create_signature of the same tokens of the same (lower-cased if and only if enabled) text; '
                'every item is inserted; every query returns what the library query returns for that signature; the Python layer passes the document unchanged.'),
    'C23': dict(parts=[PY.c23_native, PY.c23_py], explain='Native constructors build the library index with the given bands / width / threshold (blocks / distance), a hasher of that signature length, the tokenizer and flag asked for, or return an error exactly when the sizes are unusable; '
                'every path of the Python constructors either builds the native class of the asked width and container with each argument in its parameter, or raises ValueError, and accepting paths exclude every unsupported value (linear facts).'),
    'C24': dict(parts=[PST.c24], explain='Final state of every insertion route: text and the signature of that text under one id, ids = counter + rank of the accepted line, counter advanced by the number added, the same offset in all routes; success is reported only if the file opened and no line failed; counts equal the number added; a query returns the text of each id the index returns.'),
    'C25': dict(parts=[PM.c25], explain='Effects of shrink_to_fit/shrink_to/constructors are capacity-only operations on the maps; no other write, no panic site with a satisfiable guard.'),
    'C26': dict(parts=[PE.c26], explain='The centroid term is, per band (position), the key of the entry with the largest count of a map that counts exactly the rows of that band over every stored member.'),
}

NOT_APPLICABLE = {
    'C27': 'a statement about expectation over the random choice of hash functions; no static argument over this source bounds the distribution of hash values (the functional part is C08 and C10)',
    'C28': 'a probability over random hash functions; the deterministic part (bands, width, formula of the parameters) is decided in C02 and C12, the probability itself is not a property of the text of the program',
    'C29': 'an expectation over token hashes; only the definition of the distance and of the signature (C15) can be decided statically',
}
