PM='py-gaoya/gaoya/minhash.py'
PS='py-gaoya/gaoya/simhash.py'
RM='py-gaoya/src/min_hash.rs'
RS='py-gaoya/src/sim_hash.rs'
RL='py-gaoya/src/lib.rs'
MI='''        if callable(self.analyzer):
            self.minhash_index.insert_tokens(id, self.analyzer(doc))
        else:
            self.minhash_index.insert_document(id, doc)
'''
MQ='''        if callable(self.analyzer):
            if return_similarity:
                return self.minhash_index.query_tokens_return_similarity(self.analyzer(doc))
            else:
                return self.minhash_index.query_tokens(self.analyzer(doc))
        else:
            if return_similarity:
                return self.minhash_index.query_return_similarity(doc)
            else:
                return self.minhash_index.query(doc)
'''
MB='''        if callable(self.analyzer):
            analyzed_docs = [self.analyzer(doc) for doc in docs]
            if return_similarity:
                return self.minhash_index.par_bulk_query_tokens_return_similarity(analyzed_docs)
            else:
                return self.minhash_index.par_bulk_query_tokens(analyzed_docs)
        else:
            if return_similarity:
                return self.minhash_index.par_bulk_query_return_similarity(docs)
            else:
                return self.minhash_index.par_bulk_query(docs)
'''
MBI='''        if callable(self.analyzer):
            tokens = [self.analyzer(doc) for doc in docs]
            self.minhash_index.bulk_insert_tokens(ids, tokens)
        else:
            self.minhash_index.par_bulk_insert_docs(ids, docs)
'''
SB='''        if callable(self.analyzer):
            analyzed_docs = [self.analyzer(doc) for doc in docs]
            if return_similarity:
                return self.index.par_bulk_query_tokens_return_similarity(analyzed_docs)
            else:
                return self.index.par_bulk_query_tokens(analyzed_docs)
        else:
            if return_similarity:
                return self.index.par_bulk_query_return_distance(docs)
            else:
                return self.index.par_bulk_query(docs)'''
CTN=open('/repo/'+PM).read().count('self.minhash_index')
CTORS=open('/repo/'+PM).read()
CTORS=CTORS[CTORS.index("        constructors = {"):CTORS.index("        type = constructors")]
CALL="        type = constructors[hash_size][id_container]\n        self.minhash_index = type(jaccard_threshold, num_bands, band_size, num_hashes, analyzer, lowercase, ngram_range)\n"
MUTS=[
 # ---- Python wrapper, bugs
 ('py-b1','bug:C21',[(PM,"return self.minhash_index.query_tokens_return_similarity(self.analyzer(doc))","return self.minhash_index.query_return_similarity(self.analyzer(doc))")]),
 ('py-b2','bug:C21',[(PS,"return self.index.par_bulk_query_tokens_return_similarity(analyzed_docs)","return self.index.par_bulk_query_tokens_return_distance(analyzed_docs)")]),
 ('py-b3','bug:C21',[(PM,"tokens = [self.analyzer(doc) for doc in docs]","tokens = [self.analyzer(doc) for doc in docs if doc]")]),
 ('py-b4','bug:C21,C22',[(PM,"self.minhash_index.insert_document(id, doc)","self.minhash_index.insert_document(id, doc.strip())")]),
 ('py-b5','bug:C21',[(PM,"return self.minhash_index.par_bulk_query_return_similarity(docs)","return self.minhash_index.par_bulk_query(docs)")]),
 ('py-b6','bug:C21',[(PM,"self.minhash_index.par_bulk_insert_docs(ids, docs)","self.minhash_index.par_bulk_insert_docs(docs, ids)")]),
 ('py-b7','bug:C21',[(PS,"return self.index.query_return_distance(doc)","return self.index.query_return_distance(doc)[:10]")]),
 ('py-b8','bug:C21',[(PM,"        self.minhash_index.remove(id)","        if id:\n            self.minhash_index.remove(id)")]),
 ('py-b9','bug:C21',[(PM,"return self.minhash_index.query(doc)","return list(set(x for x in self.minhash_index.query(doc) if x))")]),
 ('py-b10','bug:C21,C22',[(PS,"self.index.insert_tokens(id, self.analyzer(doc))","self.index.insert_tokens(id, self.analyzer(doc.lower()))")]),
 ('py-b11','bug:C21',[(PM,MB,'''        if not docs:
            return None
'''+MB)]),
 ('py-b12','bug:C21',[(PM,MQ,'''        if not doc:
            return []
'''+MQ)]),
 ('py-b13','bug:C21',[(PM,"    def query(self, doc: str, return_similarity=False)","    def query(self, doc: str, return_similarity=True)")]),
 ('py-b14','bug:C21',[(PM,"        return self.minhash_index.size()","        return self.minhash_index.len()")]),
 # constructor
 ('py-b20','bug:C23',[(PM,"'vec': m.MinHash16StringIntIndexVec","'vec': m.MinHash16StringIntIndexSmallVec")]),
 ('py-b21','bug:C23',[(PM,"type(jaccard_threshold, num_bands, band_size, num_hashes, analyzer, lowercase, ngram_range)","type(jaccard_threshold, num_bands, num_hashes, band_size, analyzer, lowercase, ngram_range)")]),
 ('py-b22','bug:C23',[(PM,"if jaccard_threshold < 0.0 or jaccard_threshold > 1.0:","if jaccard_threshold < 0.0 and jaccard_threshold > 1.0:")]),
 ('py-b23','bug:C23',[(PM,"if jaccard_threshold < 0.0 or","if jaccard_threshold <= 0.0 or")]),
 ('py-b24','bug:C23',[(PS,"if hamming_distance >= num_blocks:","if hamming_distance > num_blocks:")]),
 ('py-b25','bug:C23',[(PS,"num_blocks > 32","num_blocks > 64")]),
 ('py-b26','bug:C23',[(PM,"if hash_size not in [8, 16, 32, 64]:","if hash_size not in [8, 16, 32, 64, 128]:")]),
 ('py-b27','bug:C23',[(PS,"        if hash_size == 64:","        if hash_size >= 64:")]),
 ('py-b28','bug:C23',[(PS,"s.SimHash128StringIntIndex(num_blocks, hamming_distance, analyzer, lowercase, ngram_range)","s.SimHash128StringIntIndex(num_blocks, hamming_distance, analyzer, ngram_range, lowercase)")]),
 ('py-b29','bug:C23',[(PM,"analyzer = 'word' if callable(self.analyzer) else analyzer","analyzer = 'word' if analyzer else analyzer")]),
 ('py-b30','bug:C23',[(PM,"        type = constructors[hash_size][id_container]","        ngram_range = ngram_range or (1, 2)\n        type = constructors[hash_size][id_container]")]),
 ('py-b31','bug:C23',[(PM,"raise ValueError(f\"id_container must be one of ('set', 'vec', 'smallvec')\")","id_container = 'set'")]),
 ('py-b32','bug:C23',[(PM,"        if id_container not in (\"set\", \"vec\", \"smallvec\"):\n            raise ValueError(f\"id_container must be one of ('set', 'vec', 'smallvec')\")\n","")]),
 ('py-b33','bug:C23',[(PM,"analyzer not in { 'word', 'char' }","analyzer not in { 'word', 'char', 'chars' }")]),
 ('py-b34','bug:C23',[(PS,"analyzer not in { 'word', 'char' }","analyzer not in 'word char'")]),
 ('py-b35','bug:C23',[(PM,"        type = constructors","        lowercase = lowercase and not callable(self.analyzer) and analyzer == 'word'\n        type = constructors")]),
 ('py-b36','bug:C23',[(PM,"        if jaccard_threshold < 0.0 or jaccard_threshold > 1.0:\n            raise ValueError(f\"Jaccard threshold must be between 0 and 1\")","        jaccard_threshold = min(max(jaccard_threshold, 0.0), 1.0)")]),
 # ---- Python wrapper, benign
 ('py-g1','benign',[(PM,MI,'''        index = self.minhash_index
        if not callable(self.analyzer):
            index.insert_document(id, doc)
            return
        tokens = self.analyzer(doc)
        index.insert_tokens(id, tokens)
''')]),
 ('py-g2','benign',[(PM,MQ,'''        index = self.minhash_index
        if callable(self.analyzer):
            method = index.query_tokens_return_similarity if return_similarity else index.query_tokens
            return method(self.analyzer(doc))
        method = index.query_return_similarity if return_similarity else index.query
        return method(doc)
''')]),
 ('py-g3','benign',[(PM,MB,'''        suffix = '_return_similarity' if return_similarity else ''
        if self._custom():
            docs = list(map(self.analyzer, docs))
            name = 'par_bulk_query_tokens' + suffix
        else:
            name = f'par_bulk_query{suffix}'
        return getattr(self.minhash_index, name)(docs)

    def _custom(self):
        return callable(self.analyzer)
''')]),
 ('py-g4','benign',[(PM,MBI,'''        if callable(self.analyzer):
            tokens = []
            for doc in docs:
                tokens.append(self.analyzer(doc))
            self.minhash_index.bulk_insert_tokens(ids, tokens)
        else:
            self.minhash_index.par_bulk_insert_docs(ids, docs)
''')]),
 ('py-g5','benign',[(PM,CTORS,'''        constructors = {(size, name): getattr(m, f'MinHash{size}StringIntIndex{suffix}')
                        for size in (8, 16, 32, 64)
                        for name, suffix in (('set', 'HashSet'), ('vec', 'Vec'), ('smallvec', 'SmallVec'))}
'''),(PM,"constructors[hash_size][id_container]","constructors[(hash_size, id_container)]")]),
 ('py-g6','benign',[(PM,CALL,'''        index_class = constructors[hash_size][id_container]
        self.minhash_index = index_class(jaccard_threshold=jaccard_threshold, num_bands=num_bands, band_width=band_size,
                                         num_hashes=num_hashes, analyzer=analyzer, lowercase=lowercase, ngram_range=ngram_range)
''')]),
 ('py-g7','benign',[(PM,"        if jaccard_threshold < 0.0 or jaccard_threshold > 1.0:","        if not (0.0 <= jaccard_threshold <= 1.0):")]),
 ('py-g8','benign',[(PS,"        if num_blocks < 3 or num_blocks > 32:\n            raise ValueError(f\"Invalid num_blocks {num_blocks}. num_blocks must be between 3 and 32\")\n        if hamming_distance >= num_blocks:\n            raise ValueError(f\"Number of blocks must be greater than hamming distance\")\n","        self._validate(num_blocks, hamming_distance)\n"),
   (PS,"    def insert_document(self, id, doc):","    @staticmethod\n    def _validate(blocks, distance):\n        if not 3 <= blocks <= 32:\n            raise ValueError(f\"Invalid num_blocks {blocks}\")\n        if blocks - distance <= 0:\n            raise ValueError(\"Number of blocks must be greater than hamming distance\")\n\n    def insert_document(self, id, doc):")]),
 ('py-g9','benign',[(PS,"        if hash_size == 64:\n            self.index = s.SimHash64StringIntIndex(num_blocks, hamming_distance, analyzer, lowercase, ngram_range)\n        else:\n            self.index = s.SimHash128StringIntIndex(num_blocks, hamming_distance, analyzer, lowercase, ngram_range)\n","        cls = {64: s.SimHash64StringIntIndex, 128: s.SimHash128StringIntIndex}[hash_size]\n        args = (num_blocks, hamming_distance, analyzer, lowercase, ngram_range)\n        self.index = cls(*args)\n")]),
 ('py-g10','benign',[(PS,SB,'''        custom = callable(self.analyzer)
        if custom:
            inputs = [self.analyzer(d) for d in docs]
        else:
            inputs = docs
        if return_similarity and custom:
            return self.index.par_bulk_query_tokens_return_similarity(inputs)
        elif return_similarity:
            return self.index.par_bulk_query_return_distance(inputs)
        elif custom:
            return self.index.par_bulk_query_tokens(inputs)
        return self.index.par_bulk_query(inputs)''')]),
 ('py-g11','benign',[(PM,"        self.minhash_index.remove(id)","        return self.minhash_index.remove(id)")]),
 ('py-g12','benign',[(PM,MB,'''        if not docs:
            return []
'''+MB)]),
 ('py-g13','benign',[(PS,"from .gaoya import simhash as s","from .gaoya.simhash import SimHash64StringIntIndex, SimHash128StringIntIndex"),(PS,"s.SimHash64","SimHash64"),(PS,"s.SimHash128","SimHash128")]),
 ('py-g14','benign',[(PM,"self.minhash_index","self._index")]*CTN),
 ('py-g15','benign',[(PM,"        if hash_size not in [8, 16, 32, 64]:","        supported = {8, 16, 32, 64}\n        if not hash_size in supported:")]),
 ('py-g16','benign',[(PM,"class MinHashStringIndex:\n","HASH_SIZES = (8, 16, 32, 64)\n\n\nclass _Base:\n    def size(self):\n        return self.minhash_index.size()\n\n    def _tokens(self, doc):\n        return self.analyzer(doc)\n\n\nclass MinHashStringIndex(_Base):\n"),(PM,"        return self.minhash_index.size()\n\n    def _tokens","        index = self.minhash_index\n        return index.size()\n\n    def _tokens"),
    (PM,"    def size(self):\n        \"\"\"\n        Returns the number of documents in the index\n        \"\"\"\n        return self.minhash_index.size()\n",""),(PM,"hash_size not in [8, 16, 32, 64]","hash_size not in HASH_SIZES"),(PM,"insert_tokens(id, self.analyzer(doc))","insert_tokens(id, self._tokens(doc))")]),
 ('py-g17','benign',[(PM,'analyzed_docs = [self.analyzer(doc) for doc in docs]','analyzed_docs = [self.analyzer(doc) for doc in docs[:] if doc is not None]')]),
 # ---- native classes, bugs
 ('nat-b1','bug:C22,C06',[(RM,"""                    if self.lowercase {
                        let doc = doc.to_lowercase();
                        self.tokenize_and_minhash(doc.as_str())
                    } else {
                        self.tokenize_and_minhash(doc)
                    }
                })""","""                    self.tokenize_and_minhash(doc)
                })""")]),
 ('nat-b2','bug:C22',[(RM,"let shingles = MultiShingles::new(words.as_slice(), *from, *to);","let shingles = MultiShingles::new(words.as_slice(), *from, *from + 1);")]),
 ('nat-b3','bug:C22,C06',[(RS,"                let signatures = self.par_bulk_doc2signatures(docs);\n                self.inner.par_bulk_query_return_distance(&signatures)","                let signatures = docs.par_iter().map(|doc| self.tokenize_and_simhash(doc)).collect();\n                self.inner.par_bulk_query_return_distance(&signatures)")]),
 ('nat-b4','bug:C06',[(RM,"for (id, doc) in ids.iter().zip(docs.iter()) {","for (id, doc) in ids.iter().zip(docs.iter().filter(|d| !d.is_empty())) {")]),
 ('nat-b5','bug:C23',[(RM,"if range.0 == range.1","if range.0 == range.1")] and [(RL,"CharShingle((range.0, Some(range.1)))","CharShingle((range.0, Some(range.1 - 1)))")]),
 ('nat-b6','bug:C23',[(RM,"min_hash: $minhash::new(num_bands * band_width),","min_hash: $minhash::new(num_hashes.unwrap_or(num_bands * band_width)),")]),
 ('nat-b7','bug:C23',[(RS,"inner: SimHashIndex::new(num_blocks, max_distance),","inner: SimHashIndex::new(num_blocks, max_distance.min(num_blocks - 2)),")]),
 ('nat-b8','bug:C23',[(RM,"tokenizer: TokenizerSpecification::new(analyzer.unwrap_or(\"word\"), ngram_range),","tokenizer: TokenizerSpecification::new(analyzer.unwrap_or(\"word\"), ngram_range.filter(|r| r.1 > 1)),")]),
 ('nat-b9','bug:C23',[(RM,"py_minhash_index!(MinHash16StringIntIndexVec, u16, \"16\", VecContaineri64","py_minhash_index!(MinHash16StringIntIndexVec, u16, \"16\", HashSetContaineri64")]),
 ('nat-b10','bug:C23',[(RM,"    m.add_class::<MinHash32StringIntIndexHashSet>()?;\n","")]),
 ('nat-b11','bug:C22',[(RM,"                let signature = if self.lowercase {\n                    let doc = doc.to_lowercase();\n                    self.tokenize_and_minhash(doc.as_str())\n                } else {\n                    self.tokenize_and_minhash(doc)\n                };\n                self.inner.query_owned_return_similarity(&signature)","                let signature = self.tokenize_and_minhash(doc);\n                self.inner.query_owned_return_similarity(&signature)")]),
 ('nat-b12','bug:C22',[(RS,"self.sim_hash.create_signature(shingle_text(doc, *from))","self.sim_hash.create_signature(shingle_text(doc.trim(), *from))")]),
 ('nat-b13','bug:C06,C22',[(RS,"if ids.len() < 100 {","if ids.len() <= 1 {"),(RS,"                    let signatures = docs\n                        .par_iter()\n                        .map(|doc| self.doc2signature(doc))","                    let signatures = docs\n                        .par_iter()\n                        .map(|doc| self.doc2signature(doc.trim()))")]),
 ('nat-b14','bug:C04',[(RM,"self.inner.remove(&id);","if self.inner.size() > 1 { self.inner.remove(&id); }")]),
 # ---- native classes, benign
 ('nat-g1','benign',[(RM,"""            fn bulk_hash_docs(&self, docs: Vec<&str>) -> Vec<Vec<$type>> {
                docs.par_iter()
                .map(|doc| {
                    if self.lowercase {
                        let doc = doc.to_lowercase();
                        self.tokenize_and_minhash(doc.as_str())
                    } else {
                        self.tokenize_and_minhash(doc)
                    }
                })
                .collect()
            }
""","""            fn signature_of(&self, doc: &str) -> Vec<$type> {
                if self.lowercase {
                    self.tokenize_and_minhash(&doc.to_lowercase())
                } else {
                    self.tokenize_and_minhash(doc)
                }
            }

            fn bulk_hash_docs(&self, docs: Vec<&str>) -> Vec<Vec<$type>> {
                docs.into_par_iter().map(|doc| self.signature_of(doc)).collect()
            }
"""),(RM,"""                if self.lowercase {
                    let doc = doc.to_lowercase();
                    self.inner
                        .insert(id, self.tokenize_and_minhash(doc.as_str()))
                } else {
                    self.inner
                        .insert(id, self.tokenize_and_minhash(doc))
                }""","""                let signature = self.signature_of(doc);
                self.inner.insert(id, signature);""")]),
 ('nat-g2','benign',[(RM,"""                for id_tokens in ids.iter().zip(tokens.iter()) {
                    self.inner.insert(
                        *id_tokens.0,
                        self.min_hash.create_signature(id_tokens.1.iter()),
                    );
                }""","""                for (id, doc_tokens) in ids.into_iter().zip(tokens) {
                    let signature = self.min_hash.create_signature(doc_tokens.iter());
                    self.inner.insert(id, signature);
                }""")]),
 ('nat-g3','benign',[(RS,"let signature = self.doc2signature(doc);\n                self.inner\n                    .query(&signature)\n                    .into_iter()\n                    .map(|id_ref| id_ref.clone())\n                    .collect()","let signature = self.doc2signature(doc);\n                let mut out = Vec::new();\n                for id in self.inner.query(&signature) {\n                    out.push(*id);\n                }\n                out")]),
 ('nat-g4','benign',[(RL,"        if name == \"char\" {\n            match range {\n                Some(range) => {\n                    if range.0 == range.1 {\n                        CharShingle((range.0, None))\n                    } else {\n                        CharShingle((range.0, Some(range.1)))\n                    }\n                }\n                None => {\n                    CharShingle((3, Some(4)))\n                }\n            }\n        } else {","        if name == \"char\" {\n            match range {\n                Some((from, to)) if from != to => CharShingle((from, Some(to))),\n                Some((from, _)) => CharShingle((from, None)),\n                None => CharShingle((3, Some(4))),\n            }\n        } else {")]),
 ('nat-g5','benign',[(RM,"""                if let (Some(num_bands), Some(band_width)) = (num_bands, band_width) {
                    let index = $name {
                        inner: gaoya::minhash::MinHashIndex::<_, _, $container_type>::new_index(num_bands, band_width, jaccard_threshold),
                        min_hash: $minhash::new(num_bands * band_width),
                        tokenizer: TokenizerSpecification::new(analyzer.unwrap_or("word"), ngram_range),
                        lowercase: lowercase.unwrap_or(false),
                    };
                    return Ok(index);
                }
                if let Some(num_hashes) = num_hashes {
                    let (num_bands, band_width) = calculate_minhash_params(jaccard_threshold, num_hashes);
                    let index = $name {
                        inner: gaoya::minhash::MinHashIndex::<_,_, $container_type>::new_index(num_bands, band_width, jaccard_threshold),
                        min_hash: $minhash::new(num_bands * band_width),
                        tokenizer: TokenizerSpecification::new(analyzer.unwrap_or("word"), ngram_range),
                        lowercase: lowercase.unwrap_or(false),
                    };
                    return Ok(index);
                }
                return Err(PyValueError::new_err("Either (num_bands, band_width) or num_hashes must be specified") );""","""                let (bands, width) = match (num_bands, band_width, num_hashes) {
                    (Some(b), Some(w), _) => (b, w),
                    (_, _, Some(n)) => calculate_minhash_params(jaccard_threshold, n),
                    _ => return Err(PyValueError::new_err("Either (num_bands, band_width) or num_hashes must be specified")),
                };
                Ok($name {
                    inner: gaoya::minhash::MinHashIndex::<_, _, $container_type>::new_index(bands, width, jaccard_threshold),
                    min_hash: $minhash::new(bands * width),
                    tokenizer: TokenizerSpecification::new(analyzer.unwrap_or("word"), ngram_range),
                    lowercase: lowercase.unwrap_or(false),
                })""")]),
 ('nat-g6','benign',[(RM,"if ids.len() < 100 { // TODO: find a reasonable threshold","let small = ids.len() < 256;\n                if small {")]),
 ('nat-g7','benign',[(RS,"                let signatures = docs_tokens\n                    .par_iter()\n                    .map(|tokens| self.sim_hash.create_signature(tokens.iter()))\n                    .collect();\n                self.inner.par_bulk_insert(ids, signatures);","                for (id, tokens) in ids.into_iter().zip(docs_tokens) {\n                    self.insert_tokens(id, tokens);\n                }")]),
 ('nat-g8','benign',[(RS,"#[pymethods]\n            impl $name {","impl $name {\n                fn words<'a>(doc: &'a str) -> Vec<&'a str> {\n                    whitespace_split(doc).collect()\n                }\n            }\n        #[pymethods]\n            impl $name {"),(RS,"let words: Vec<_> = whitespace_split(doc).collect();","let words = Self::words(doc);"),(RS,"let words: Vec<_> = whitespace_split(doc).collect();","let words = Self::words(doc);")]),
]
