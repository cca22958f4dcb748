import sys; sys.path.insert(0,__file__.rsplit('/',1)[0])
from py import PM,PS,RM,RS,RL,MI,MQ,MB,MBI,SB
SQ='''        if callable(self.analyzer):
            if return_hamming_distance:
                return self.index.query_tokens_return_distance(self.analyzer(doc))
            else:
                return self.index.query_tokens(self.analyzer(doc))
        else:
            if return_hamming_distance:
                return self.index.query_return_distance(doc)
            else:
                return self.index.query(doc)
'''
SI='''        if callable(self.analyzer):
            self.index.insert_tokens(id, self.analyzer(doc))
        else:
            self.index.insert_document(id, doc)
'''
BULKHASH='''                docs.par_iter()
                .map(|doc| {
                    if self.lowercase {
                        let doc = doc.to_lowercase();
                        self.tokenize_and_minhash(doc.as_str())
                    } else {
                        self.tokenize_and_minhash(doc)
                    }
                })
                .collect()
'''
INS='''                if self.lowercase {
                    let doc = doc.to_lowercase();
                    self.inner
                        .insert(id, self.tokenize_and_minhash(doc.as_str()))
                } else {
                    self.inner
                        .insert(id, self.tokenize_and_minhash(doc))
                }'''
QRY='''                let signature = if self.lowercase {
                    let doc = doc.to_lowercase();
                    self.tokenize_and_minhash(doc.as_str())
                } else {
                    self.tokenize_and_minhash(doc)
                };
                self.inner
                    .query_owned(&signature)
                    .into_iter()
                    .collect()'''
QRS='''                let signature = if self.lowercase {
                    let doc = doc.to_lowercase();
                    self.tokenize_and_minhash(doc.as_str())
                } else {
                    self.tokenize_and_minhash(doc)
                };
                self.inner.query_owned_return_similarity(&signature)'''
PBI='''                if ids.len() < 100 { // TODO: find a reasonable threshold
                    for (id, doc) in ids.iter().zip(docs.iter()) {
                        self.insert_document(*id, doc)
                    }
                } else {
                    let signatures = self.bulk_hash_docs(docs);
                    self.inner.par_bulk_insert(ids, signatures);
                }'''
SPBI='''                if ids.len() < 100 {
                    for (id, doc) in ids.iter().zip(docs.iter()) {
                        self.insert_document(*id, doc)
                    }
                } else {
                    let signatures = docs
                        .par_iter()
                        .map(|doc| self.doc2signature(doc))
                        .collect();
                    self.inner.par_bulk_insert(ids, signatures);
                }'''
TOKM='''                match &self.tokenizer {
                    TokenizerSpecification::CharShingle((from, None)) => {
                        self.min_hash.create_signature(shingle_text(doc, *from))
                    }
                    TokenizerSpecification::CharShingle((from, Some(to))) => self
                        .min_hash
                        .create_signature(shingle_text_range(doc, *from, *to)),
                    TokenizerSpecification::WhiteSpace() => {
                        self.min_hash.create_signature(whitespace_split(doc))
                    }
                    TokenizerSpecification::WhiteSpaceShingle((from, None)) => {
                        let words: Vec<_> = whitespace_split(doc).collect();
                        let shingles = Shingles::new(words.as_slice(), *from);
                        self.min_hash.create_signature(shingles)
                    }
                    TokenizerSpecification::WhiteSpaceShingle((from, Some(to))) => {
                        let words: Vec<_> = whitespace_split(doc).collect();
                        let shingles = MultiShingles::new(words.as_slice(), *from, *to);
                        self.min_hash.create_signature(shingles)
                    }
                }'''
SPEC=open('/repo/'+RL).read(); SPEC=SPEC[SPEC.index('        if name == "char" {'):SPEC.rindex("    }\n}")]
CTOR=open('/repo/'+RM).read(); CTOR=CTOR[CTOR.index('                if let (Some(num_bands), Some(band_width)) ='):CTOR.index("            pub fn tokenize_and_minhash")]
CTOR=CTOR[:CTOR.rindex('            }')]
MUTS=[
 # ------------- python benign
 ('pg-1','benign',[(PM,MI,'''        use_tokens = callable(self.analyzer)
        payload = self.analyzer(doc) if use_tokens else doc
        insert = self.minhash_index.insert_tokens if use_tokens else self.minhash_index.insert_document
        insert(id, payload)
''')]),
 ('pg-2','benign',[(PM,MQ,'''        if callable(self.analyzer):
            tokens = self.analyzer(doc)
            return (self.minhash_index.query_tokens_return_similarity(tokens)
                    if return_similarity
                    else self.minhash_index.query_tokens(tokens))
        if return_similarity:
            return self.minhash_index.query_return_similarity(doc)
        return self.minhash_index.query(doc)
''')]),
 ('pg-3','benign',[(PM,MQ,'''        result = None
        if callable(self.analyzer) and return_similarity:
            result = self.minhash_index.query_tokens_return_similarity(self.analyzer(doc))
        elif callable(self.analyzer):
            result = self.minhash_index.query_tokens(self.analyzer(doc))
        elif not return_similarity:
            result = self.minhash_index.query(doc)
        else:
            result = self.minhash_index.query_return_similarity(doc)
        return result
''')]),
 ('pg-4','benign',[(PM,MQ,'''        dispatch = {
            (True, True): 'query_tokens_return_similarity',
            (True, False): 'query_tokens',
            (False, True): 'query_return_similarity',
            (False, False): 'query',
        }
        custom = callable(self.analyzer)
        arg = self.analyzer(doc) if custom else doc
        return getattr(self.minhash_index, dispatch[(custom, bool(return_similarity))])(arg)
''')]),
 ('pg-5','benign',[(PM,MB,'''        if callable(self.analyzer):
            analyzed_docs = self._analyze_all(docs)
            if return_similarity:
                return self.minhash_index.par_bulk_query_tokens_return_similarity(analyzed_docs)
            return self.minhash_index.par_bulk_query_tokens(analyzed_docs)
        if return_similarity:
            return self.minhash_index.par_bulk_query_return_similarity(docs)
        return self.minhash_index.par_bulk_query(docs)

    def _analyze_all(self, docs):
        """Runs the custom analyzer over every document."""
        return [self.analyzer(doc) for doc in docs]
'''),(PM,"            tokens = [self.analyzer(doc) for doc in docs]\n","            tokens = self._analyze_all(docs)\n")]),
 ('pg-6','benign',[(PM,"        self.analyzer = analyzer\n        # if analyzer is callable we need to pass something to index's constructor.\n        analyzer = 'word' if callable(self.analyzer) else analyzer\n",
   "        self.analyzer = analyzer\n        # if analyzer is callable we need to pass something to index's constructor.\n        if callable(analyzer):\n            analyzer = 'word'\n")]),
 ('pg-7','benign',[(PM,"        type = constructors[hash_size][id_container]\n","        by_container = constructors[hash_size]\n        type = by_container[id_container]\n")]),
 ('pg-8','benign',[(PS,SQ,'''        index = self.index
        analyzer = self.analyzer
        if not callable(analyzer):
            return index.query_return_distance(doc) if return_hamming_distance else index.query(doc)
        tokens = analyzer(doc)
        if not return_hamming_distance:
            return index.query_tokens(tokens)
        return index.query_tokens_return_distance(tokens)
''')]),
 ('pg-9','benign',[(PS,"        if hash_size == 64:\n            self.index = s.SimHash64StringIntIndex(num_blocks, hamming_distance, analyzer, lowercase, ngram_range)\n        else:\n            self.index = s.SimHash128StringIntIndex(num_blocks, hamming_distance, analyzer, lowercase, ngram_range)\n",
   "        index_type = s.SimHash64StringIntIndex if hash_size == 64 else s.SimHash128StringIntIndex\n        args = (num_blocks, hamming_distance, analyzer, lowercase, ngram_range)\n        self.index = index_type(*args)\n")]),
 ('pg-10','benign',[(PS,"        if hash_size == 64:\n            self.index = s.SimHash64StringIntIndex(num_blocks, hamming_distance, analyzer, lowercase, ngram_range)\n        else:\n            self.index = s.SimHash128StringIntIndex(num_blocks, hamming_distance, analyzer, lowercase, ngram_range)\n",
   "        kwargs = dict(num_blocks=num_blocks, max_distance=hamming_distance, analyzer=analyzer, lowercase=lowercase, ngram_range=ngram_range)\n        if hash_size == 128:\n            self.index = s.SimHash128StringIntIndex(**kwargs)\n        else:\n            self.index = s.SimHash64StringIntIndex(**kwargs)\n")]),
 ('pg-11','benign',[(PM,"        if jaccard_threshold < 0.0 or jaccard_threshold > 1.0:\n            raise ValueError(f\"Jaccard threshold must be between 0 and 1\")\n",
   "        if jaccard_threshold < 0.0:\n            raise ValueError(f\"Jaccard threshold must be between 0 and 1\")\n        if jaccard_threshold > 1.0:\n            raise ValueError(f\"Jaccard threshold must be between 0 and 1\")\n")]),
 ('pg-12','benign',[(PM,"        if not callable(analyzer) and analyzer not in { 'word', 'char' }:\n            raise ValueError(f\"Analyzer must be word, char or callable\")\n        self.analyzer = analyzer\n",
   "        self._check_analyzer(analyzer)\n        self.analyzer = analyzer\n"),(PM,"    def insert_document(self, id: int, doc: str):","    @staticmethod\n    def _check_analyzer(analyzer):\n        if callable(analyzer):\n            return\n        if analyzer != 'word' and analyzer != 'char':\n            raise ValueError(\"Analyzer must be word, char or callable\")\n\n    def insert_document(self, id: int, doc: str):")]),
 ('pg-13','benign',[(PM,"class MinHashStringIndex:\n","def _is_custom(analyzer):\n    return callable(analyzer)\n\n\nclass MinHashStringIndex:\n"),(PM,MI,'''        if _is_custom(self.analyzer):
            tokens = self.analyzer(doc)
            self.minhash_index.insert_tokens(id, tokens)
            return
        self.minhash_index.insert_document(id, doc)
''')]),
 ('pg-14','benign',[(PM,MBI,'''        if not callable(self.analyzer):
            return self.minhash_index.par_bulk_insert_docs(ids, docs)
        return self.minhash_index.bulk_insert_tokens(ids, [self.analyzer(doc) for doc in docs])
''')]),
 ('pg-15','benign',[(PM,MBI,'''        if callable(self.analyzer):
            tokens = [self.analyzer(doc) for doc in docs]
            self.minhash_index.par_bulk_insert_tokens(ids, tokens)
        else:
            self.minhash_index.par_bulk_insert_docs(ids, docs)
''')]),
 ('pg-16','benign',[(PM,MBI,'''        if callable(self.analyzer):
            for id, doc in zip(ids, docs):
                self.minhash_index.insert_tokens(id, self.analyzer(doc))
        else:
            self.minhash_index.par_bulk_insert_docs(ids, docs)
''')]),
 ('pg-17','benign',[(PM,"        if hash_size not in [8, 16, 32, 64]:\n            raise ValueError(f\"Invalid hash_size {hash_size}. hash_size must be on of 8, 16, 32 or 64\")\n",""),
   (PM,"        type = constructors[hash_size][id_container]\n","        if hash_size not in constructors:\n            raise ValueError(f\"Invalid hash_size {hash_size}. hash_size must be on of 8, 16, 32 or 64\")\n        type = constructors[hash_size][id_container]\n")]),
 ('pg-18','benign',[(PS,"        if num_blocks < 3 or num_blocks > 32:","        if num_blocks not in range(3, 33):")]),
 ('pg-19','benign',[(PM,"        return self.minhash_index.__str__()","        return str(self.minhash_index)"),(PM,"        return self.minhash_index.__repr__()","        return repr(self.minhash_index)")]),
 ('pg-20','benign',[(PS,SI,'''        try:
            if callable(self.analyzer):
                self.index.insert_tokens(id, self.analyzer(doc))
            else:
                self.index.insert_document(id, doc)
        finally:
            pass
''')]),
 ('pg-21','benign',[(PM,"        if hash_size not in [8, 16, 32, 64]:","        _ = None\n        if not any(hash_size == s for s in (8, 16, 32, 64)):")]),
 ('pg-22','benign',[(PM,MB,'''        analyzed = docs
        if callable(self.analyzer):
            analyzed = [self.analyzer(doc) for doc in docs]
            query = self.minhash_index.par_bulk_query_tokens
            query_sim = self.minhash_index.par_bulk_query_tokens_return_similarity
        else:
            query = self.minhash_index.par_bulk_query
            query_sim = self.minhash_index.par_bulk_query_return_similarity
        return query_sim(analyzed) if return_similarity else query(analyzed)
''')]),
 # ------------- python bugs
 ('pb-1','bug:C21',[(PM,MB,MB.replace("par_bulk_query_tokens(analyzed_docs)","par_bulk_query_tokens(docs)"))]),
 ('pb-2','bug:C21',[(PS,"return self.index.par_bulk_query_return_distance(docs)","return self.index.par_bulk_query_return_distance(docs)[::-1]")]),
 ('pb-3','bug:C21',[(PM,"            analyzed_docs = [self.analyzer(doc) for doc in docs]","            analyzed_docs = [self.analyzer(doc) for doc in set(docs)]")]),
 ('pb-4','bug:C21',[(PM,"            analyzed_docs = [self.analyzer(doc) for doc in docs]","            analyzed_docs = [self.analyzer(doc) for doc in sorted(docs)]")]),
 ('pb-5','bug:C21,C22',[(PM,MBI,'''        if callable(self.analyzer):
            tokens = [list(set(self.analyzer(doc)))[:1000] for doc in docs]
            self.minhash_index.bulk_insert_tokens(ids, tokens)
        else:
            self.minhash_index.par_bulk_insert_docs(ids, docs)
''')]),
 ('pb-6','bug:C21',[(PM,MBI,'''        if callable(self.analyzer):
            tokens = [self.analyzer(doc) for doc in docs]
            self.minhash_index.bulk_insert_tokens(list(set(ids)), tokens)
        else:
            self.minhash_index.par_bulk_insert_docs(ids, docs)
''')]),
 ('pb-7','bug:C23',[(PM,"        type = constructors[hash_size][id_container]","        type = constructors[hash_size].get('set', id_container)")]),
 ('pb-8','bug:C23',[(PS,"        if hamming_distance >= num_blocks:","        if hamming_distance >= num_blocks and hash_size == 64:")]),
 ('pb-9','bug:C23',[(PS,"        if not callable(analyzer) and analyzer not in { 'word', 'char' }:","        if isinstance(analyzer, str) and analyzer not in { 'word', 'char' }:")]),
 ('pb-10','bug:C23',[(PM,"        if jaccard_threshold < 0.0 or jaccard_threshold > 1.0:","        if jaccard_threshold and (jaccard_threshold < 0.0 or jaccard_threshold > 10.0):")]),
 ('pb-11','bug:C23',[(PM,"                 lowercase=False,","                 lowercase=None,"),(PM,"analyzer, lowercase, ngram_range)\n","analyzer, lowercase is not None, ngram_range)\n")]),
 ('pb-12','bug:C21,C22',[(PS,SI,'''        if callable(self.analyzer):
            self.index.insert_tokens(id, self.analyzer(doc))
        else:
            self.index.insert_document(id, doc.casefold())
''')]),
 ('pb-13','bug:C21',[(PM,"        return self.minhash_index.size()","        return self.minhash_index.size() or None")]),
 ('pb-14','bug:C21',[(PM,MQ,'''        if callable(self.analyzer) and return_similarity:
            return self.minhash_index.query_tokens_return_similarity(self.analyzer(doc))
        elif return_similarity:
            return self.minhash_index.query_return_similarity(doc)
        else:
            return self.minhash_index.query(doc)
''')]),
 ('pb-15','bug:C21',[(PM,MQ,MQ.replace("return self.minhash_index.query(doc)","return sorted(self.minhash_index.query(doc))[:100]"))]),
 ('pb-16','bug:C23',[(PM,"                'smallvec': m.MinHash8StringIntIndexSmallVec,\n            }","                'small': m.MinHash8StringIntIndexSmallVec,\n            }")]),
 ('pb-17','bug:C23',[(PM,"        type = constructors[hash_size][id_container]","        if num_hashes is not None:\n            num_bands = None\n        type = constructors[hash_size][id_container]")]),
 ('pb-18','bug:C23',[(PM,"        type = constructors[hash_size][id_container]","        ngram_range = tuple(sorted(ngram_range)) if ngram_range and ngram_range[0] != 2 else (1, 1)\n        type = constructors[hash_size][id_container]")]),
 # ------------- native benign
 ('ng-1','benign',[(RM,BULKHASH,'''                let to_signature = |doc: &&str| {
                    if self.lowercase {
                        self.tokenize_and_minhash(&doc.to_lowercase())
                    } else {
                        self.tokenize_and_minhash(doc)
                    }
                };
                docs.par_iter().map(to_signature).collect()
''')]),
 ('ng-2','benign',[(RM,INS,'''                let signature = if self.lowercase {
                    self.tokenize_and_minhash(&doc.to_lowercase())
                } else {
                    self.tokenize_and_minhash(doc)
                };
                self.inner.insert(id, signature)''')]),
 ('ng-3','benign',[(RM,INS,'''                let text: std::borrow::Cow<str> = if self.lowercase {
                    std::borrow::Cow::Owned(doc.to_lowercase())
                } else {
                    std::borrow::Cow::Borrowed(doc)
                };
                let signature = self.tokenize_and_minhash(&text);
                self.inner.insert(id, signature)''')]),
 ('ng-4','benign',[(RM,QRY,'''                let lowered;
                let text = if self.lowercase {
                    lowered = doc.to_lowercase();
                    lowered.as_str()
                } else {
                    doc
                };
                let signature = self.tokenize_and_minhash(text);
                let ids = self.inner.query_owned(&signature);
                Vec::from_iter(ids)''')]),
 ('ng-5','benign',[(RM,QRY,'''                self.query_return_similarity(doc).into_iter().map(|(id, _)| id).collect()''')]),
 ('ng-6','benign',[(RM,PBI,'''                let signatures = self.bulk_hash_docs(docs);
                self.inner.par_bulk_insert(ids, signatures);''')]),
 ('ng-7','benign',[(RM,PBI,'''                if ids.len() >= 100 {
                    let signatures = self.bulk_hash_docs(docs);
                    self.inner.par_bulk_insert(ids, signatures);
                    return;
                }
                for i in 0..ids.len().min(docs.len()) {
                    self.insert_document(ids[i], docs[i]);
                }''')]),
 ('ng-8','benign',[(RM,PBI,PBI.replace("for (id, doc) in ids.iter().zip(docs.iter()) {\n                        self.insert_document(*id, doc)\n                    }","ids.into_iter().zip(docs).for_each(|(id, doc)| self.insert_document(id, doc));"))]),
 ('ng-9','benign',[(RM,TOKM,'''                let hasher = &self.min_hash;
                match self.tokenizer {
                    TokenizerSpecification::CharShingle((from, None)) => hasher.create_signature(shingle_text(doc, from)),
                    TokenizerSpecification::CharShingle((from, Some(to))) => hasher.create_signature(shingle_text_range(doc, from, to)),
                    TokenizerSpecification::WhiteSpace() => hasher.create_signature(whitespace_split(doc)),
                    TokenizerSpecification::WhiteSpaceShingle((from, to)) => {
                        let words: Vec<&str> = whitespace_split(doc).collect();
                        match to {
                            Some(to) => hasher.create_signature(MultiShingles::new(words.as_slice(), from, to)),
                            None => hasher.create_signature(Shingles::new(words.as_slice(), from)),
                        }
                    }
                }''')]),
 ('ng-10','benign',[(RM,TOKM,TOKM.replace("create_signature(shingle_text(doc, *from))","create_signature(shingle_text_range(doc, *from, *from))"))]),
 ('ng-11','benign',[(RL,SPEC,'''        let is_char = name == "char";
        let Some((from, to)) = range else {
            return if is_char { CharShingle((3, Some(4))) } else { WhiteSpace() };
        };
        let upper = if from == to { None } else { Some(to) };
        if is_char {
            CharShingle((from, upper))
        } else {
            WhiteSpaceShingle((from, upper))
        }
''')]),
 ('ng-12','benign',[(RL,SPEC,'''        let range = range.map(|(from, to)| (from, (from != to).then_some(to)));
        match (name, range) {
            ("char", Some(range)) => CharShingle(range),
            ("char", None) => CharShingle((3, Some(4))),
            (_, Some(range)) => WhiteSpaceShingle(range),
            (_, None) => WhiteSpace(),
        }
''')]),
 ('ng-13','benign',[(RM,CTOR,'''                let (num_bands, band_width) = if let (Some(num_bands), Some(band_width)) = (num_bands, band_width) {
                    (num_bands, band_width)
                } else if let Some(num_hashes) = num_hashes {
                    calculate_minhash_params(jaccard_threshold, num_hashes)
                } else {
                    return Err(PyValueError::new_err("Either (num_bands, band_width) or num_hashes must be specified"));
                };
                let inner = gaoya::minhash::MinHashIndex::<_, _, $container_type>::new_index(num_bands, band_width, jaccard_threshold);
                let min_hash = $minhash::new(num_bands * band_width);
                let tokenizer = TokenizerSpecification::new(analyzer.unwrap_or("word"), ngram_range);
                Ok($name { inner, min_hash, tokenizer, lowercase: lowercase.unwrap_or_default() })
''')]),
 ('ng-14','benign',[(RM,CTOR,'''                let params = num_bands
                    .zip(band_width)
                    .or_else(|| num_hashes.map(|n| calculate_minhash_params(jaccard_threshold, n)))
                    .ok_or_else(|| PyValueError::new_err("Either (num_bands, band_width) or num_hashes must be specified"))?;
                let (num_bands, band_width) = params;
                Ok(Self {
                    inner: gaoya::minhash::MinHashIndex::<_, _, $container_type>::new_index(num_bands, band_width, jaccard_threshold),
                    min_hash: $minhash::new(num_bands * band_width),
                    tokenizer: TokenizerSpecification::new(analyzer.unwrap_or("word"), ngram_range),
                    lowercase: lowercase.unwrap_or(false),
                })
''')]),
 ('ng-15','benign',[(RM,"                self.inner.par_bulk_query(&signatures)\n                    .into_iter()\n                    .map(|set| set.into_iter().collect())\n                    .collect()\n            }\n\n            pub fn par_bulk_query_return_similarity","                let mut results = Vec::with_capacity(signatures.len());\n                for ids in self.inner.par_bulk_query(&signatures) {\n                    results.push(ids.into_iter().collect());\n                }\n                results\n            }\n\n            pub fn par_bulk_query_return_similarity")]),
 ('ng-16','benign',[(RS,"                    .query(&signature)\n                    .into_iter()\n                    .map(|id_ref| id_ref.clone())\n                    .collect()\n            }\n\n            pub fn query_return_distance","                    .query_owned(&signature).into_iter().collect()\n            }\n\n            pub fn query_return_distance")]),
 ('ng-17','benign',[(RS,"                    .query(&signature)\n                    .into_iter()\n                    .map(|id_ref| id_ref.clone())\n                    .collect()\n            }\n\n            pub fn query_return_distance","                    .query(&signature).iter().map(|id| **id).collect()\n            }\n\n            pub fn query_return_distance")]),
 ('ng-18','benign',[(RS,SPBI,'''                let signatures: Vec<$type> = if ids.len() < 100 {
                    docs.iter().map(|doc| self.doc2signature(doc)).collect()
                } else {
                    self.par_bulk_doc2signatures(docs)
                };
                self.inner.par_bulk_insert(ids, signatures);''')]),
 ('ng-19','benign',[(RS,SPBI,'''                if ids.len() < 100 {
                    let mut docs = docs.into_iter();
                    for id in ids {
                        match docs.next() {
                            Some(doc) => self.insert_document(id, doc),
                            None => break,
                        }
                    }
                } else {
                    let signatures = self.par_bulk_doc2signatures(docs);
                    self.inner.par_bulk_insert(ids, signatures);
                }''')]),
 ('ng-20','benign',[(RS,"                let signatures = docs_tokens\n                    .par_iter()\n                    .map(|tokens| self.sim_hash.create_signature(tokens.iter()))\n                    .collect();\n                self.inner.par_bulk_insert(ids, signatures);","                let sim_hash = &self.sim_hash;\n                let signatures: Vec<$type> = docs_tokens\n                    .into_par_iter()\n                    .map(|tokens| sim_hash.create_signature(tokens.into_iter()))\n                    .collect();\n                self.inner.par_bulk_insert(ids, signatures);")]),
 ('ng-21','benign',[(RS,"                let index = $name {\n                    inner: SimHashIndex::new(num_blocks, max_distance),\n","                let inner = SimHashIndex::new(num_blocks, max_distance);\n                let index = Self {\n                    inner,\n")]),
 ('ng-22','benign',[(RM,"    m.add_class::<MinHash64StringIntIndexHashSet>()?;\n    m.add_class::<MinHash64StringIntIndexVec>()?;\n    m.add_class::<MinHash64StringIntIndexSmallVec>()?;\n","    add_64(m)?;\n"),(RM,"pub fn init_minhash_module","fn add_64(m: &PyModule) -> PyResult<()> {\n    m.add_class::<MinHash64StringIntIndexSmallVec>()?;\n    m.add_class::<MinHash64StringIntIndexHashSet>()?;\n    m.add_class::<MinHash64StringIntIndexVec>()\n}\n\npub fn init_minhash_module")]),
 ('ng-23','benign',[(RM,'''                for id_tokens in ids.iter().zip(tokens.iter()) {
                    self.inner.insert(
                        *id_tokens.0,
                        self.min_hash.create_signature(id_tokens.1.iter()),
                    );
                }''','''                for (id, doc_tokens) in ids.into_iter().zip(tokens) {
                    self.insert_tokens(id, doc_tokens);
                }''')]),
 ('ng-24','benign',[(RM,'''                let hashes = self.min_hash.bulk_create_signature(&tokens);
                self.inner.par_bulk_insert(ids, hashes);''','''                let signatures: Vec<Vec<$type>> = tokens.par_iter().map(|t| self.min_hash.create_signature(t.iter())).collect();
                self.inner.par_bulk_insert(ids, signatures);''')]),
 ('ng-25','benign',[(RM,"            pub fn remove(&mut self, id: i64) {\n                self.inner.remove(&id);","            pub fn remove(&mut self, id: i64) {\n                let _removed = self.inner.remove(&id);")]),
 ('ng-26','benign',[(RS,'''                if self.lowercase {
                    let doc = doc.to_lowercase();
                        self.tokenize_and_simhash(doc.as_str())
                    } else {
                    self.tokenize_and_simhash(doc)
                }''','''                match self.lowercase {
                    true => self.tokenize_and_simhash(&str::to_lowercase(doc)),
                    false => self.tokenize_and_simhash(doc),
                }''')]),
 # ------------- native bugs
 ('nb-1','bug:C22',[(RM,QRS,QRS.replace("doc.to_lowercase()","doc.to_ascii_lowercase()"))]),
 ('nb-2','bug:C22',[(RM,INS,INS.replace("doc.to_lowercase()","doc.to_uppercase()"))]),
 ('nb-3','bug:C06,C22',[(RM,BULKHASH,BULKHASH.replace("if self.lowercase {","if self.lowercase && docs.len() > 1 {"))]),
 ('nb-4','bug:C22,C23',[(RM,TOKM,TOKM.replace("Shingles::new(words.as_slice(), *from);\n                        self.min_hash.create_signature(shingles)\n                    }\n                    TokenizerSpecification::WhiteSpaceShingle((from, Some","Shingles::new(words.as_slice(), (*from).min(words.len()).max(1));\n                        self.min_hash.create_signature(shingles)\n                    }\n                    TokenizerSpecification::WhiteSpaceShingle((from, Some"))]),
 ('nb-5','bug:C23',[(RL,SPEC,SPEC.replace("if range.0 == range.1 {\n                        WhiteSpaceShingle((range.0, None))","if range.0 + 1 >= range.1 {\n                        WhiteSpaceShingle((range.0, None))"))]),
 ('nb-6','bug:C23',[(RL,SPEC,SPEC.replace("CharShingle((range.0, Some(range.1)))","CharShingle((range.1, Some(range.0)))"))]),
 ('nb-7','bug:C23',[(RM,CTOR,CTOR.replace("min_hash: $minhash::new(num_bands * band_width),\n                        tokenizer: TokenizerSpecification::new(analyzer.unwrap_or(\"word\"), ngram_range),\n                        lowercase: lowercase.unwrap_or(false),\n                    };\n                    return Ok(index);\n                }\n                return","min_hash: $minhash::new(num_hashes),\n                        tokenizer: TokenizerSpecification::new(analyzer.unwrap_or(\"word\"), ngram_range),\n                        lowercase: lowercase.unwrap_or(false),\n                    };\n                    return Ok(index);\n                }\n                return"))]),
 ('nb-8','bug:C23',[(RM,CTOR,CTOR.replace("calculate_minhash_params(jaccard_threshold, num_hashes)","calculate_minhash_params(jaccard_threshold.max(0.5), num_hashes)"))]),
 ('nb-9','bug:C23',[(RM,CTOR,CTOR.replace("MinHashIndex::<_,_, $container_type>::new_index(num_bands, band_width, jaccard_threshold)","MinHashIndex::<_,_, $container_type>::new_index(num_bands, band_width, jaccard_threshold - 0.05)"))]),
 ('nb-10','bug:C06',[(RM,PBI,PBI.replace("self.inner.par_bulk_insert(ids, signatures);","let mut ids = ids;\n                    ids.sort();\n                    self.inner.par_bulk_insert(ids, signatures);"))]),
 ('nb-11','bug:C06',[(RM,PBI,PBI.replace("ids.iter().zip(docs.iter())","ids.iter().rev().zip(docs.iter().rev())"))]),
 ('nb-12','bug:C06',[(RM,PBI,PBI.replace("let signatures = self.bulk_hash_docs(docs);","let mut docs = docs;\n                    docs.dedup();\n                    let signatures = self.bulk_hash_docs(docs);"))]),
 ('nb-13','bug:C06,C22',[(RS,SPBI,SPBI.replace(".map(|doc| self.doc2signature(doc))",".map(|doc| self.doc2signature(doc.trim_end()))"))]),
 ('nb-14','bug:C06,C22',[(RS,"                let signatures = self.par_bulk_doc2signatures(docs);\n                self.inner.par_bulk_query(&signatures)","                let signatures = docs.par_iter().map(|doc| self.tokenize_and_simhash(doc)).collect();\n                self.inner.par_bulk_query(&signatures)")]),
 ('nb-15','bug:C22',[(RS,"sim_hash: SimHash::<$simhasher, $type, $bitlen>::new($simhasher::new(5, 6)),","sim_hash: SimHash::<$simhasher, $type, $bitlen>::new($simhasher::new(5, ngram_range.map_or(6, |r| r.1 as u64))),")]),
 ('nb-16','bug:C22,C06',[(RM,"            pub fn par_bulk_query_tokens(&self, tokens: Vec<Vec<&str>>) -> Vec<Vec<i64>> {\n                let signatures = self.min_hash.bulk_create_signature(&tokens);\n                self.inner.par_bulk_query(&signatures)\n                    .into_iter()\n                    .map(|set| set.into_iter().collect())\n                    .collect()","            pub fn par_bulk_query_tokens(&self, tokens: Vec<Vec<&str>>) -> Vec<Vec<i64>> {\n                let signatures = self.min_hash.bulk_create_signature(&tokens);\n                self.inner.par_bulk_query(&signatures)\n                    .into_iter()\n                    .filter(|set| !set.is_empty())\n                    .map(|set| set.into_iter().collect())\n                    .collect()")]),
 ('nb-17','bug:C22',[(RS,"                let signature = self.sim_hash.create_signature(tokens.iter());\n                self.inner.query_return_distance(&signature)","                let signature = self.tokenize_and_simhash(&tokens.join(\" \"));\n                self.inner.query_return_distance(&signature)")]),
 ('nb-18','bug:C21,C06',[(RM,"            pub fn par_bulk_query_tokens_return_similarity(&self, tokens: Vec<Vec<&str>>) -> Vec<Vec<(i64, f64)>> {\n                let signatures = self.min_hash.bulk_create_signature(&tokens);\n                self.inner.par_bulk_query_return_similarity(&signatures)","            pub fn par_bulk_query_tokens_return_similarity(&self, tokens: Vec<Vec<&str>>) -> Vec<Vec<(i64, f64)>> {\n                let signatures = self.min_hash.bulk_create_signature(&tokens);\n                let mut r = self.inner.par_bulk_query_return_similarity(&signatures);\n                for x in r.iter_mut() { x.truncate(100); }\n                r")]),
 ('nb-19','bug:C04',[(RM,"            pub fn insert_tokens(&mut self, id: i64, tokens: Vec<&str>) {\n                self.inner\n","            pub fn insert_tokens(&mut self, id: i64, tokens: Vec<&str>) {\n                if tokens.is_empty() { return; }\n                self.inner\n")]),
 ('nb-20','bug:C23',[(RM,"py_minhash_index!(MinHash64StringIntIndexSmallVec, u64, \"64\", SmallVecContaineri64,","py_minhash_index!(MinHash64StringIntIndexSmallVec, u64, \"64\", VecContaineri64,")]),
]
