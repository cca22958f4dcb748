S='gaoya/src/minhash/string_index.rs'
PAR_PUSH="Ok(line) => lines.push((lines.len() as u64 + self.doc_id + 1, line)),"
MUTS=[
 ('str-b1','bug:C24',[(S,PAR_PUSH,"Ok(line) => lines.push((lines.len() as u64 + self.doc_id, line)),")]),
 ('str-b2','bug:C24',[(S,"self.doc_id += lines.len() as u64;","self.doc_id = lines.len() as u64;")]),
 ('str-b3','bug:C24',[(S,"Err(e) if e.kind() == ErrorKind::InvalidData => (),\n                Err(e) => return Err(e),\n            }\n        }\n        Ok(())","Err(_) => break,\n            }\n        }\n        Ok(())")]),
 ('str-b4','bug:C24',[(S,"self.min_hash.create_signature(whitespace_split(&line.1)),","self.min_hash.create_signature(whitespace_split(line.1.trim_end_matches('.'))),")]),
 ('str-b5','bug:C24',[(S,"min_hash: MinHasher64V1::new(num_bands * band_width),","min_hash: MinHasher64V1::new(num_bands * band_width + 1),")]),
 ('str-b6','bug:C24',[(S,PAR_PUSH,"Ok(line) if line.is_empty() => (),\n                        "+PAR_PUSH)]),
 ('str-b7','bug:C24',[(S,"        self.doc_id += 1;\n        self.doc_map.insert(self.doc_id, text);\n        self.lsh_index.insert(self.doc_id, min_hashes);","        self.doc_id += 1;\n        self.lsh_index.insert(self.doc_id, min_hashes);\n        self.doc_map.entry(self.doc_id - 1).or_insert(text);")]),
 ('str-b8','bug:C24',[(S,"        self.doc_id as usize\n","        self.doc_id as usize + 1\n")]),
 ('str-b9','bug:C24',[(S,"                self.load_from_lines(&mut reader)?;\n                let new_count = self.size() - current_size;\n                Ok(new_count)","                let _ = self.load_from_lines(&mut reader);\n                let new_count = self.size() - current_size;\n                Ok(new_count)")]),
 ('str-b10','bug:C24',[(S,"                let new_count = self.size() - current_size;\n                Ok(new_count)\n            }\n            Err(e) => Err(e),\n        }\n    }\n\n    pub fn load_from_file_parallel","                let new_count = self.size();\n                Ok(new_count)\n            }\n            Err(e) => Err(e),\n        }\n    }\n\n    pub fn load_from_file_parallel")]),
 ('str-b11','bug:C24',[(S,"        let min_hashes = self.min_hash.create_signature(whitespace_split(text));\n","        let min_hashes = self.min_hash.create_signature(text.split(' '));\n")]),
 ('str-b12','bug:C24',[(S,"        for line_result in reader.lines() {\n            match line_result {\n                Ok(line) => self.insert(line),","        for line_result in reader.lines().skip(1) {\n            match line_result {\n                Ok(line) => self.insert(line),")]),
 ('str-b13','bug:C24',[(S,"            doc_id: 0,","            doc_id: 1,")]),
 ('str-b14','bug:C24',[(S,"            Err(e) => Err(e),\n        }\n    }\n\n    pub fn size","            Err(e) => Ok(0),\n        }\n    }\n\n    pub fn size")]),
 ('str-b15','bug:C24',[(S,"ids.iter().map(|id| self.doc_map.get(id).unwrap()).collect()","ids.iter().filter(|id| ***id > 0 && ***id < self.doc_id).map(|id| self.doc_map.get(id).unwrap()).collect()")]),
 ('str-g1','benign',[(S,"        self.doc_id += 1;\n        self.doc_map.insert(self.doc_id, text);\n        self.lsh_index.insert(self.doc_id, min_hashes);","        let id = self.next_id();\n        self.lsh_index.insert(id, min_hashes);\n        self.doc_map.insert(id, text);"),(S,"    pub fn size(&self)","    fn next_id(&mut self) -> u64 {\n        self.doc_id += 1;\n        self.doc_id\n    }\n\n    pub fn size(&self)")]),
 ('str-g2','benign',[(S,"ids.iter().map(|id| self.doc_map.get(id).unwrap()).collect()","let mut out = Vec::with_capacity(ids.len());\n        for id in ids {\n            if let Some(t) = self.doc_map.get(id) {\n                out.push(t);\n            }\n        }\n        out")]),
 ('str-g3','benign',[(S,"        match File::open(file_name) {\n            Ok(file) => {\n                let current_size = self.size();\n                let mut reader: BufReader<File> = BufReader::new(file);\n                self.load_from_lines(&mut reader)?;\n                let new_count = self.size() - current_size;\n                Ok(new_count)\n            }\n            Err(e) => Err(e),\n        }","        let file = File::open(file_name)?;\n        let before = self.size();\n        let mut reader: BufReader<File> = BufReader::new(file);\n        self.load_from_lines(&mut reader)?;\n        Ok(self.size() - before)")]),
 ('str-g4','benign',[(S,"                for line in lines {\n                    self.doc_map.insert(line.0, line.1);\n                }","                self.doc_map.extend(lines);")]),
 ('str-g5','benign',[(S,"                let mut lines: Vec<(u64, String)> = Vec::new();","                let mut next = self.doc_id;\n                let mut lines: Vec<(u64, String)> = Vec::new();"),(S,PAR_PUSH,"Ok(line) => { next += 1; lines.push((next, line)) },"),(S,"self.doc_id += lines.len() as u64;","self.doc_id = next;")]),
 ('str-g6','benign',[(S,"self.doc_id as usize\n","self.doc_map.len()\n")]),
 ('str-g7','benign',[(S,"    pub fn insert(&mut self, text: String) {\n        let min_hashes = self.min_hash.create_signature(whitespace_split(text.as_str()));","    fn signature(&self, text: &str) -> Vec<u64> {\n        self.min_hash.create_signature(whitespace_split(text))\n    }\n\n    pub fn insert(&mut self, text: String) {\n        let min_hashes = self.signature(&text);"),(S,"        let min_hashes = self.min_hash.create_signature(whitespace_split(text));\n","        let min_hashes = self.signature(text);\n")]),
 ('str-g8','benign',[(S,"""                let minhashes = lines
                    .par_iter()
                    .map(|line| {
                        (
                            line.0,
                            self.min_hash.create_signature(whitespace_split(&line.1)),
                        )
                    })
                    .collect();
                self.lsh_index.par_bulk_insert_pairs(minhashes);
                self.doc_id += lines.len() as u64;
                for line in lines {
                    self.doc_map.insert(line.0, line.1);
                }
                let new_count = self.size() - current_size;
                Ok(new_count)""","""                let (ids, texts): (Vec<u64>, Vec<String>) = lines.into_iter().unzip();
                let sigs: Vec<Vec<u64>> = texts.par_iter().map(|t| self.min_hash.create_signature(whitespace_split(t))).collect();
                let n = texts.len();
                self.lsh_index.par_bulk_insert(ids.clone(), sigs);
                for (id, text) in ids.into_iter().zip(texts) {
                    self.doc_map.insert(id, text);
                }
                self.doc_id += n as u64;
                Ok(n)""")]),
 ('str-g9','benign',[(S,"""        for line_result in reader.lines() {
            match line_result {
                Ok(line) => self.insert(line),
                Err(e) if e.kind() == ErrorKind::InvalidData => (),
                Err(e) => return Err(e),
            }
        }
        Ok(())""","""        let mut lines = reader.lines();
        while let Some(line_result) = lines.next() {
            if let Err(e) = line_result {
                if e.kind() != ErrorKind::InvalidData {
                    return Err(e);
                }
                continue;
            } else if let Ok(line) = line_result {
                self.insert(line);
            }
        }
        Ok(())""")]),
]
