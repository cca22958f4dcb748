"""ninth round: native and Python layers again, with cooperating sites; parameters, capacity, lengths"""
import re
def rd(p): return open('/repo/' + p).read()
PM, PS, PL = 'py-gaoya/src/min_hash.rs', 'py-gaoya/src/sim_hash.rs', 'py-gaoya/src/lib.rs'
PY, PZ = 'py-gaoya/gaoya/minhash.py', 'py-gaoya/gaoya/simhash.py'
MI, M, S = 'gaoya/src/minhash/minhash_index.rs', 'gaoya/src/minhash/mod.rs', 'gaoya/src/simhash/sim_hash_index.rs'
G = 'benign'
pm, ps, pl, py, pz = map(rd, (PM, PS, PL, PY, PZ))
def pydef(s, name):
    i = s.index(f'    def {name}(')
    j = s.find('\n    def ', i + 5)
    return s[i:j + 1 if j > 0 else len(s)]
def body(s, name):
    d = pydef(s, name)
    k = d.rindex('"""') + 4 if '"""' in d else d.index(':\n') + 2
    return d[k:]
QB, BQ, BI, ID = (body(py, n) for n in ('query', 'par_bulk_query', 'par_bulk_insert_docs', 'insert_document'))
ZQ, ZBQ, ZID = (body(pz, n) for n in ('query', 'par_bulk_query', 'insert_document'))
def rfn(s, name):
    i = re.search(r'\n            (pub )?fn ' + name + r'\b', s).start() + 1
    j = s.index('\n            }\n', i) + len('\n            }\n')
    return s[i:j]
def swap(s, *prs):
    for a, b in prs:
        assert a in s, a
        s = s.replace(a, b)
    return s
TK, IDN, BH, PBI, PBIT, QT, QN, QRS, PBQ = (rfn(pm, n) for n in ('tokenize_and_minhash', 'insert_document', 'bulk_hash_docs', 'par_bulk_insert_docs', 'par_bulk_insert_tokens', 'query_tokens', 'query', 'query_return_similarity', 'par_bulk_query'))
ZT, ZD, ZB, ZPI = (rfn(ps, n) for n in ('tokenize_and_simhash', 'doc2signature', 'par_bulk_doc2signatures', 'par_bulk_insert_docs'))
MUTS = [
 # ------------------------------------------------ Python, benign
 ('g9-py-tokens', G, [(PY, QB, '''        suffix = '_return_similarity' if return_similarity else ''
        if callable(self.analyzer):
            method = getattr(self.minhash_index, 'query_tokens' + suffix)
            return method(self.analyzer(doc))
        method = getattr(self.minhash_index, 'query' + suffix)
        return method(doc)

''')]),
 ('g9-py-early', G, [(PY, QB, '''        if not callable(self.analyzer):
            return self.minhash_index.query_return_similarity(doc) if return_similarity else self.minhash_index.query(doc)
        tokens = self.analyzer(doc)
        if not return_similarity:
            return self.minhash_index.query_tokens(tokens)
        return self.minhash_index.query_tokens_return_similarity(tokens)

''')]),
 ('g9-py-map', G, [(PY, BQ, '''        index = self.minhash_index
        if callable(self.analyzer):
            docs = list(map(self.analyzer, docs))
            run = index.par_bulk_query_tokens_return_similarity if return_similarity else index.par_bulk_query_tokens
        else:
            run = index.par_bulk_query_return_similarity if return_similarity else index.par_bulk_query
        return run(docs)

''')]),
 ('g9-py-helper', G, [(PY, ID, '''        if self._is_custom():
            self.minhash_index.insert_tokens(id, self.analyzer(doc))
            return
        self.minhash_index.insert_document(id, doc)

    def _is_custom(self):
        return callable(self.analyzer)

''')]),
 ('g9-py-loop', G, [(PY, BI, '''        if not callable(self.analyzer):
            self.minhash_index.par_bulk_insert_docs(ids, docs)
            return
        tokens = []
        for doc in docs:
            tokens.append(self.analyzer(doc))
        self.minhash_index.bulk_insert_tokens(ids, tokens)

''')]),
 ('g9-py-ctor', G, [(PY, '''        type = constructors[hash_size][id_container]
        self.minhash_index = type(jaccard_threshold, num_bands, band_size, num_hashes, analyzer, lowercase, ngram_range)
''', '''        by_container = constructors.get(hash_size)
        self.minhash_index = by_container[id_container](
            jaccard_threshold=jaccard_threshold,
            num_bands=num_bands,
            band_width=band_size,
            num_hashes=num_hashes,
            analyzer=analyzer,
            lowercase=lowercase,
            ngram_range=ngram_range,
        )
''')]),
 ('g9-py-valid', G, [(PY, '''        if jaccard_threshold < 0.0 or jaccard_threshold > 1.0:
            raise''', '''        if not 0.0 <= jaccard_threshold <= 1.0:
            raise''')]),
 ('g9-pz-ctor', G, [(PZ, '''        if hash_size == 64:
            self.index = s.SimHash64StringIntIndex(num_blocks, hamming_distance, analyzer, lowercase, ngram_range)
        else:
            self.index = s.SimHash128StringIntIndex(num_blocks, hamming_distance, analyzer, lowercase, ngram_range)
''', '''        cls = s.SimHash64StringIntIndex if hash_size == 64 else s.SimHash128StringIntIndex
        args = (num_blocks, hamming_distance, analyzer, lowercase, ngram_range)
        self.index = cls(*args)
''')]),
 ('g9-pz-valid', G, [(PZ, "        if num_blocks < 3 or num_blocks > 32:\n", "        if not (3 <= num_blocks <= 32):\n"), (PZ, "        if hamming_distance >= num_blocks:\n", "        if not hamming_distance < num_blocks:\n"), (PZ, "if hash_size not in [64, 128]:", "if hash_size != 64 and hash_size != 128:")]),
 # ------------------------------------------------ Python, bugs
 ('b9-py-strip', 'bug:C21,C22', [(PY, QB, QB.replace('self.minhash_index.query_return_similarity(doc)', 'self.minhash_index.query_return_similarity(doc.strip())'))]),
 ('b9-py-single', 'bug:C21', [(PY, BQ, "        if len(docs) == 1:\n            return self.query(docs[0], return_similarity)\n" + BQ.lstrip('\n'))]),
 ('b9-py-dict', 'bug:C21', [(PY, BI, BI.replace('self.minhash_index.par_bulk_insert_docs(ids, docs)', 'unique = dict(zip(docs, ids))\n            self.minhash_index.par_bulk_insert_docs(list(unique.values()), list(unique.keys()))'))]),
 ('b9-py-hash', 'bug:C23', [(PY, "if hash_size not in [8, 16, 32, 64]:", "if hash_size not in [8, 16, 32, 64, 128]:"), (PY, 'constructors[hash_size][id_container]', 'constructors.get(hash_size, constructors[64])[id_container]')]),
 ('b9-py-small', 'bug:C23', [(PY, "                'smallvec': m.MinHash16StringIntIndexSmallVec,", "                'smallvec': m.MinHash16StringIntIndexVec,")]),
 ('b9-py-hashes', 'bug:C23', [(PY, 'type(jaccard_threshold, num_bands, band_size, num_hashes, analyzer', 'type(jaccard_threshold, num_bands, band_size if num_hashes is None else num_hashes // num_bands, num_hashes, analyzer')]),
 ('b9-py-ngram', 'bug:C23', [(PY, 'num_hashes, analyzer, lowercase, ngram_range)\n', 'num_hashes, analyzer, lowercase, ngram_range if analyzer == "char" else None)\n')]),
 ('b9-py-gen', 'bug:C21', [(PY, BQ, BQ.replace('[self.analyzer(doc) for doc in docs]', '(self.analyzer(doc) for doc in docs)'))]),
 ('b9-py-cache', 'bug:C21,C22', [(PY, ID, ID.replace('self.minhash_index.insert_tokens(id, self.analyzer(doc))', 'tokens = self.analyzer(doc)\n            if tokens:\n                self.minhash_index.insert_tokens(id, tokens)'))]),
 ('b9-pz-low', 'bug:C21,C22', [(PZ, ZID, ZID.replace('self.index.insert_document(id, doc)', 'self.index.insert_document(id, doc.casefold())'))]),
 ('b9-pz-blocks', 'bug:C23', [(PZ, "        if num_blocks < 3 or num_blocks > 32:\n", "        if num_blocks < 3 or num_blocks > hash_size:\n")]),
 ('b9-pz-swap', 'bug:C23', [(PZ, 's.SimHash128StringIntIndex(num_blocks, hamming_distance, analyzer', 's.SimHash128StringIntIndex(hamming_distance + 1, hamming_distance, analyzer')]),
 # ------------------------------------------------ native, benign
 ('g9-n-sig', G, [(PM, BH, '''            fn document_signature(&self, doc: &str) -> Vec<$type> {
                match self.lowercase {
                    true => self.tokenize_and_minhash(&doc.to_lowercase()),
                    false => self.tokenize_and_minhash(doc),
                }
            }

            fn bulk_hash_docs(&self, docs: Vec<&str>) -> Vec<Vec<$type>> {
                docs.into_par_iter().map(|doc| self.document_signature(doc)).collect()
            }
'''), (PM, IDN, '''            pub fn insert_document(&mut self, id: i64, doc: &str) {
                let signature = self.document_signature(doc);
                self.inner.insert(id, signature)
            }
'''), (PM, QN, '''            pub fn query(&self, doc: &str) -> Vec<i64> {
                let found = self.inner.query_owned(&self.document_signature(doc));
                found.into_iter().collect()
            }
''')]),
 ('g9-n-cow', G, [(PM, QRS, '''            pub fn query_return_similarity(&self, doc: &str) -> Vec<(i64, f64)> {
                let text: std::borrow::Cow<str> = if self.lowercase { doc.to_lowercase().into() } else { doc.into() };
                let signature = self.tokenize_and_minhash(&text);
                self.inner.query_owned_return_similarity(&signature)
            }
''')]),
 ('g9-n-thr', G, [(PM, PBI, swap(PBI, ('ids.len() < 100', 'docs.len() <= 32')))]),
 ('g9-n-always', G, [(PM, PBI, '''            pub fn par_bulk_insert_docs(&mut self, ids: Vec<i64>, docs: Vec<&str>) {
                let signatures = self.bulk_hash_docs(docs);
                self.inner.par_bulk_insert(ids, signatures);
            }
''')]),
 ('g9-n-spec', G, [(PL, pl[pl.index('    pub fn new(name'):], '''    pub fn new(name: &str, range: Option<(usize, usize)>) -> Self {
        let sizes = range.map(|(from, to)| (from, if from == to { None } else { Some(to) }));
        match (name, sizes) {
            ("char", Some(sizes)) => CharShingle(sizes),
            ("char", None) => CharShingle((3, Some(4))),
            (_, Some(sizes)) => WhiteSpaceShingle(sizes),
            (_, None) => WhiteSpace(),
        }
    }
}
''')]),
 ('g9-n-ctor', G, [(PM, pm[pm.index('                if let (Some(num_bands), Some(band_width)) = (num_bands, band_width) {'):pm.index('            pub fn tokenize_and_minhash')], '''                let (num_bands, band_width) = match (num_bands, band_width, num_hashes) {
                    (Some(num_bands), Some(band_width), _) => (num_bands, band_width),
                    (_, _, Some(num_hashes)) => calculate_minhash_params(jaccard_threshold, num_hashes),
                    _ => return Err(PyValueError::new_err("Either (num_bands, band_width) or num_hashes must be specified")),
                };
                Ok($name {
                    inner: gaoya::minhash::MinHashIndex::<_, _, $container_type>::new_index(num_bands, band_width, jaccard_threshold),
                    min_hash: $minhash::new(num_bands * band_width),
                    tokenizer: TokenizerSpecification::new(analyzer.unwrap_or("word"), ngram_range),
                    lowercase: lowercase.unwrap_or_default(),
                })
            }

''')]),
 ('g9-nz-sig', G, [(PS, ZD, '''            fn doc2signature(&self, doc: &str) -> $type {
                let lowered;
                let text = if self.lowercase {
                    lowered = doc.to_lowercase();
                    lowered.as_str()
                } else {
                    doc
                };
                self.tokenize_and_simhash(text)
            }
'''), (PS, ZPI, swap(ZPI, ('''docs
                        .par_iter()
                        .map(|doc| self.doc2signature(doc))
                        .collect();''', 'self.par_bulk_doc2signatures(docs);')))]),
 # ------------------------------------------------ native, bugs
 ('b9-n-thr', 'bug:C06,C22', [(PM, PBI, swap(PBI, ('let signatures = self.bulk_hash_docs(docs);', 'let signatures: Vec<_> = docs.par_iter().map(|doc| self.tokenize_and_minhash(doc)).collect();')))]),
 ('b9-n-ascii', 'bug:C22', [(PM, QRS, swap(QRS, ('doc.to_lowercase()', 'doc.to_ascii_lowercase()')))]),
 ('b9-n-short', 'bug:C22', [(PM, TK, swap(TK, ('self.min_hash.create_signature(shingle_text(doc, *from))', 'self.min_hash.create_signature(shingle_text(doc, (*from).min(doc.chars().count().max(1))))'))), ]),
 ('b9-n-long', 'bug:C06,C22', [(PM, BH, swap(BH, ('self.tokenize_and_minhash(doc)\n', 'self.tokenize_and_minhash(doc.trim_end())\n')))]),
 ('b9-n-empty', 'bug:C22', [(PM, IDN, swap(IDN, ('                if self.lowercase {', '                if doc.is_empty() { return; }\n                if self.lowercase {')))]),
 ('b9-n-dedup', 'bug:C06,C22', [(PM, PBIT, swap(PBIT, ('let hashes', 'let mut hashes'), ('self.inner.par_bulk_insert(ids, hashes)', 'hashes.dedup();\n                self.inner.par_bulk_insert(ids, hashes)')))]),
 ('b9-n-qtok', 'bug:C22', [(PM, QT, swap(QT, ('tokens.iter()', 'tokens.iter().filter(|t| !t.is_empty())')))]),
 ('b9-n-spec', 'bug:C22,C23', [(PL, '''                    if range.0 == range.1 {
                        WhiteSpaceShingle((range.0, None))''', '''                    if range.0 == range.1 || range.1 == range.0 + 1 {
                        WhiteSpaceShingle((range.0, None))''')]),
 ('b9-n-ctor', 'bug:C23', [(PM, 'min_hash: $minhash::new(num_bands * band_width),\n                        tokenizer: TokenizerSpecification::new(analyzer.unwrap_or("word"), ngram_range),\n                        lowercase: lowercase.unwrap_or(false),\n                    };\n                    return Ok(index);\n                }\n                return Err', 'min_hash: $minhash::new(num_hashes),\n                        tokenizer: TokenizerSpecification::new(analyzer.unwrap_or("word"), ngram_range),\n                        lowercase: lowercase.unwrap_or(false),\n                    };\n                    return Ok(index);\n                }\n                return Err')]),
 ('b9-n-cls', 'bug:C23', [(PM, 'm.add_class::<MinHash8StringIntIndexSmallVec>()?;', '')]),
 ('b9-nz-seed', 'bug:C09,C22,C23', [(PS, '$simhasher::new(5, 6)', '$simhasher::new(5, std::process::id() as u64)')]),
 ('b9-nz-chars', 'bug:C22', [(PS, ZB, swap(ZB, ('self.doc2signature(&doc)', 'if doc.len() > 1 << 20 { self.tokenize_and_simhash(doc) } else { self.doc2signature(&doc) }')))]),
 ('b9-nz-ids', 'bug:C06,C22', [(PS, ZPI, swap(ZPI, ('for (id, doc) in ids.iter().zip(docs.iter())', 'for (id, doc) in ids.iter().rev().zip(docs.iter().rev())')))]),
]
