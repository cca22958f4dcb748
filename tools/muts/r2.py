"""second round of refactorings (behaviour kept) of text, clustering, containers, string index; and further bugs there"""
F = 'gaoya/src/text/multi_shingles.rs'
T = 'gaoya/src/text/tokenizers.rs'
S = 'gaoya/src/clustering/clustering_serial.rs'
P = 'gaoya/src/clustering/clusterer_parallel.rs'
C = 'gaoya/src/minhash/id_container.rs'
X = 'gaoya/src/minhash/string_index.rs'
SL = '''        if self.data.len() < self.size && self.size > self.from_size {
            // the sizes left at this position are too long, go on with the next position
            self.size = self.from_size;
            self.data = &self.data[self.step..];
        }
        if self.data.len() >= self.size {
            let ret = &self.data[0..self.size];
            self.size += 1;
            if self.size > self.to_size {
                self.size = self.from_size;
                self.data = &self.data[self.step..];
            }
            Some(ret)
        } else {
            None
        }
'''
ST = '''        let mut pos_next: usize = 0;
        let mut pos_end: usize = 0;
        let mut chars = 0;

        // iterator reproduces char boundary positions and its appropriate bytes
        let iter = self.data.as_bytes().iter().enumerate()
            // only char boundaries
            .filter(|&(_, &b)| !(128..192).contains(&b));

        // get shingle end pos end step next pos at once
        for (i, _) in iter {
            if chars == self.step {
                pos_next = i;
            }
            if chars == self.size {
                pos_end = i;
            }
            if pos_next != 0 && pos_end != 0 {
                break;
            }
            chars += 1;
        }

        // try get shingle from data
        let ret = if pos_end != 0 {
            Some(&self.data[0..pos_end])
        } else if chars == self.size {
            Some(self.data)
        } else {
            None
        };

        // the sizes left at this position are too long, go on with the next position
        let too_long = ret.is_none() && self.size > self.from_size;

        // move data slice to next step position
        self.size += 1;
        if too_long || self.size > self.to_size {
            self.size = self.from_size;
            if pos_next != 0 {
                self.data = &self.data[pos_next..];
            } else {
                self.data = &self.data[self.data.len()..];
            }
        }

        if too_long {
            return self.next();
        }
        ret
'''
SER = '''        let mut clusters = Vec::new();
        for point in points {
            if point.cluster.get().is_some() {
                continue;
            }

            let similar_points: Vec<_> = query_index.query(point).into_iter()
                .filter(|point| point.cluster.get().is_none())
                .map(|p| p.clone()).collect();
            if similar_points.len() >= self.min_cluster_size {
                let cluster_id = self.new_cluster_id();
                let cluster = self.create_new_cluster(similar_points, cluster_id);
                clusters.push(cluster);
            }
        }
        clusters
'''
PSL = '''        let mut clusters = Vec::new();
        self.sort_by_most_number_of_similar_points(points, query_index);
        for point in points {
            if point.cluster.load(Ordering::Relaxed) != null_mut() {
                continue;
            }
            let mut similar_points: Vec<_> = query_index.query(&point).into_iter()
                .filter(|point| !point.is_cluster_assigned())
                .collect();

            if similar_points.len() >= self.min_cluster_size {
                let mut similar_points_cloned =
                    similar_points.into_iter().map(|p| p.clone()).collect();
                match self.try_create_cluster(&mut similar_points_cloned) {
                    Some(cluster) => {
                        clusters.push(cluster);
                    }
                    None => {}
                }
            }
        }
        clusters
'''
PTRY = '''        for point in points.iter() {
            match point.assign_cluster(cluster_ptr) {
                Ok(_) => {
                    cluster.points.push(point.clone());
                }
                Err(_) => {
                    // This point already belongs to a cluster created by another thread
                    cluster.rollback();
                    self.rollback_cluster_points(&mut cluster, cluster_ptr);
                    return None;
                }
            }
        }
        if !cluster.commit() {
            self.rollback_cluster_points(&mut cluster, cluster_ptr);
            return None;
        }
        Some(cluster)
'''
SORT = '''        let point_count: HashMap<Id, usize> = points.iter()
            .map(|point| (point.get_id(), query_index.query(&point).len()))
            .collect();

        points.sort_by(|p1, p2| {
            let count1: &usize = point_count.get(&p1.get_id()).unwrap();
            let count2: &usize = point_count.get(&p2.get_id()).unwrap();
            count2.cmp(&count1)
        });
'''
ROLL = '''        for point in cluster.points.iter_mut() {
            point.cluster.compare_exchange(
                cluster_ptr,
                null_mut(),
                Ordering::Relaxed,
                Ordering::Relaxed,
            );
        }
'''
XP = '''                let mut lines: Vec<(u64, String)> = Vec::new();
                for line_result in reader.lines() {
                    match line_result {
                        Ok(line) => lines.push((lines.len() as u64 + self.doc_id + 1, line)),
                        Err(e) if e.kind() == ErrorKind::InvalidData => (),
                        Err(e) => return Err(e),
                    }
                }
                let minhashes = lines
                    .par_iter()
                    .map(|line| {
                        (
                            line.0,
                            self.min_hash.create_signature(whitespace_split(&line.1)),
                        )
                    })
                    .collect();
                self.lsh_index.par_bulk_insert_pairs(minhashes);
                self.doc_id += lines.len() as u64;
                for line in lines {
                    self.doc_map.insert(line.0, line.1);
                }
'''
XL = '''        for line_result in reader.lines() {
            match line_result {
                Ok(line) => self.insert(line),
                Err(e) if e.kind() == ErrorKind::InvalidData => (),
                Err(e) => return Err(e),
            }
        }
        Ok(())
'''
XI = '''        let min_hashes = self.min_hash.create_signature(whitespace_split(text.as_str()));
        self.doc_id += 1;
        self.doc_map.insert(self.doc_id, text);
        self.lsh_index.insert(self.doc_id, min_hashes);
'''


def R(s, a, c):
    assert a in s, (a, s)
    return s.replace(a, c)


MUTS = [
 # ------------------------------------------------------------------ text
 ('tg-sl-loop', 'benign', [(F, SL, '''        if self.size > self.from_size && self.size > self.data.len() {
            self.advance_slice();
        }
        if self.size > self.data.len() {
            return None;
        }
        let ret = &self.data[..self.size];
        if self.size == self.to_size {
            self.advance_slice();
        } else {
            self.size += 1;
        }
        Some(ret)
'''), (F, "impl<'a, T> Iterator for MultiShingles<'a, [T]> {", '''impl<'a, T> MultiShingles<'a, [T]> {
    fn advance_slice(&mut self) {
        self.size = self.from_size;
        self.data = &self.data[self.step..];
    }
}

impl<'a, T> Iterator for MultiShingles<'a, [T]> {''')]),
 ('tg-sl-splitat', 'benign', [(F, SL, R(SL, '&self.data[0..self.size]', 'self.data.split_at(self.size).0'))]),
 ('tg-sl-get', 'benign', [(F, SL, R(SL, '''        if self.data.len() >= self.size {
            let ret = &self.data[0..self.size];
''', '''        if let Some(ret) = self.data.get(..self.size) {
'''))]),
 ('tg-sl-reorder', 'benign', [(F, SL, R(SL, '''            self.size = self.from_size;
            self.data = &self.data[self.step..];
        }
        if''', '''            self.data = &self.data[self.step..];
            self.size = self.from_size;
        }
        if'''))]),
 ('tg-sl-local', 'benign', [(F, SL, R(SL, '''        if self.data.len() < self.size''', '''        let left = self.data.len();
        if left < self.size'''))]),
 ('tg-st-chars', 'benign', [(F, ST, R(R(ST, '''        let iter = self.data.as_bytes().iter().enumerate()
            // only char boundaries
            .filter(|&(_, &b)| !(128..192).contains(&b));
''', '''        let iter = self.data.char_indices();
'''), 'for (i, _) in iter', 'for (i, _c) in iter'))]),
 ('tg-st-isbound', 'benign', [(F, ST, R(R(ST, '''        let iter = self.data.as_bytes().iter().enumerate()
            // only char boundaries
            .filter(|&(_, &b)| !(128..192).contains(&b));
''', '''        let data = self.data;
        let iter = (0..data.len()).filter(|&i| data.is_char_boundary(i));
'''), 'for (i, _) in iter', 'for i in iter'))]),
 ('tg-st-option', 'benign', [(F, ST, '''        let mut pos_next: Option<usize> = None;
        let mut pos_end: Option<usize> = None;
        let mut chars = 0;

        for (i, _) in self.data.char_indices() {
            if chars == self.step {
                pos_next = Some(i);
            }
            if chars == self.size {
                pos_end = Some(i);
            }
            if pos_next.is_some() && pos_end.is_some() {
                break;
            }
            chars += 1;
        }

        let ret = match pos_end {
            Some(end) => Some(&self.data[..end]),
            None if chars == self.size => Some(self.data),
            None => None,
        };

        let too_long = ret.is_none() && self.size > self.from_size;
        self.size += 1;
        if too_long || self.size > self.to_size {
            self.size = self.from_size;
            self.data = &self.data[pos_next.unwrap_or(self.data.len())..];
        }
        if too_long {
            return self.next();
        }
        ret
''')]),
 ('tg-st-nth', 'benign', [(F, ST, '''        let end = self.data.char_indices().map(|(i, _)| i).chain(std::iter::once(self.data.len())).nth(self.size);
        let next = self.data.char_indices().nth(self.step).map(|(i, _)| i).unwrap_or(self.data.len());
        match end {
            Some(end) => {
                let ret = &self.data[..end];
                self.size += 1;
                if self.size > self.to_size {
                    self.size = self.from_size;
                    self.data = &self.data[next..];
                }
                Some(ret)
            }
            None if self.size > self.from_size => {
                self.size = self.from_size;
                self.data = &self.data[next..];
                self.next()
            }
            None => None,
        }
''')]),
 ('tg-st-step', 'benign', [(F, ST, R(ST, '''            if pos_next != 0 {
                self.data = &self.data[pos_next..];
            } else {
                self.data = &self.data[self.data.len()..];
            }
''', '''            let cut = match pos_next {
                0 => self.data.len(),
                n => n,
            };
            self.data = &self.data[cut..];
'''))]),
 ('tg-st-helper', 'benign', [(F, ST, R(ST, '''        let mut pos_next: usize = 0;
        let mut pos_end: usize = 0;
        let mut chars = 0;

        // iterator reproduces char boundary positions and its appropriate bytes
        let iter = self.data.as_bytes().iter().enumerate()
            // only char boundaries
            .filter(|&(_, &b)| !(128..192).contains(&b));

        // get shingle end pos end step next pos at once
        for (i, _) in iter {
            if chars == self.step {
                pos_next = i;
            }
            if chars == self.size {
                pos_end = i;
            }
            if pos_next != 0 && pos_end != 0 {
                break;
            }
            chars += 1;
        }
''', '''        let (pos_next, pos_end, chars) = positions(self.data, self.step, self.size);
''')), (F, "impl<'a> Iterator for MultiShingles<'a, str> {", '''fn positions(data: &str, step: usize, size: usize) -> (usize, usize, usize) {
    let mut pos_next: usize = 0;
    let mut pos_end: usize = 0;
    let mut chars = 0;
    for (i, _) in data.as_bytes().iter().enumerate().filter(|&(_, &b)| !(128..192).contains(&b)) {
        if chars == step {
            pos_next = i;
        }
        if chars == size {
            pos_end = i;
        }
        if pos_next != 0 && pos_end != 0 {
            break;
        }
        chars += 1;
    }
    (pos_next, pos_end, chars)
}

impl<'a> Iterator for MultiShingles<'a, str> {''')]),
 ('tg-st-loop', 'benign', [(F, ST, '''        loop {
            let mut pos_next: usize = 0;
            let mut pos_end: usize = 0;
            let mut chars = 0;
            let iter = self.data.as_bytes().iter().enumerate()
                .filter(|&(_, &b)| !(128..192).contains(&b));
            for (i, _) in iter {
                if chars == self.step {
                    pos_next = i;
                }
                if chars == self.size {
                    pos_end = i;
                }
                if pos_next != 0 && pos_end != 0 {
                    break;
                }
                chars += 1;
            }
            let ret = if pos_end != 0 {
                Some(&self.data[0..pos_end])
            } else if chars == self.size {
                Some(self.data)
            } else {
                None
            };
            let too_long = ret.is_none() && self.size > self.from_size;
            self.size += 1;
            if too_long || self.size > self.to_size {
                self.size = self.from_size;
                if pos_next != 0 {
                    self.data = &self.data[pos_next..];
                } else {
                    self.data = "";
                }
            }
            if !too_long {
                return ret;
            }
        }
''')]),
 ('tg-new', 'benign', [(F, '''        MultiShingles {
            data,
            from_size,
            to_size,
            size: from_size,
            step: 1,
        }''', '''        let size = from_size;
        let step = 1;
        Self { data, from_size, to_size, size, step }''')]),
 ('tg-ws-fn', 'benign', [(T, 'pub fn whitespace_split<', '''fn is_separator(c: char) -> bool {
    c.is_ascii_punctuation() || c.is_ascii_whitespace()
}

pub fn whitespace_split<'''), (T, '.split(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace())', '.split(is_separator)'), (T, '.split(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace())', '.split(is_separator)')]),
 ('tg-ws-match', 'benign', [(T, 'c.is_ascii_punctuation() || c.is_ascii_whitespace()', "match c { c if c.is_ascii_punctuation() => true, c => c.is_ascii_whitespace() }")]),
 ('tg-ws-filtermap', 'benign', [(T, '.filter(|&x| !x.is_empty())\n}', '.filter_map(|x| if x.is_empty() { None } else { Some(x) })\n}')]),
 ('tg-tok-loop', 'benign', [(T, '''    Shingles::new(tokens.as_slice(), size)
        .into_iter().map(|tokens| tokens.join(""))
        .collect_vec()
        .into_iter()
''', '''    let mut shingles: Vec<String> = Vec::new();
    for window in Shingles::new(tokens.as_slice(), size) {
        shingles.push(window.concat());
    }
    shingles.into_iter()
''')]),
 ('tg-boxed', 'benign', [(T, '    Box::new(Shingles::new(text, size))\n', '    Box::new(shingle_text(text, size))\n')]),
 # bugs
 ('tx-sl-step', 'bug:C19', [(F, SL, R(SL, '''            if self.size > self.to_size {
                self.size = self.from_size;
                self.data = &self.data[self.step..];''', '''            if self.size > self.to_size {
                self.size = self.from_size;
                self.data = &self.data[self.from_size.max(self.step)..];'''))]),
 ('tx-sl-none', 'bug:C19', [(F, SL, R(SL, 'if self.data.len() < self.size && self.size > self.from_size {', 'if self.data.len() + 1 < self.size && self.size > self.from_size {'))]),
 ('tx-st-cont', 'bug:C20', [(F, ST, R(ST, '!(128..192).contains(&b)', '!(128..191).contains(&b)'))]),
 ('tx-st-end', 'bug:C19', [(F, ST, R(ST, 'Some(self.data)', 'Some(self.data.trim_end())'))]),
 ('tx-st-toolong', 'bug:C19', [(F, ST, R(ST, 'let too_long = ret.is_none() && self.size > self.from_size;', 'let too_long = ret.is_none() && self.size > self.from_size && pos_next != 0 && self.from_size > 1;'))]),
 ('tx-st-half', 'bug:C20', [(F, ST, R(ST, 'self.data = &self.data[pos_next..];', 'self.data = &self.data[self.step..];'))]),
 ('tx-st-end0', 'bug:C20', [(F, ST, R(ST, '} else if chars == self.size {\n            Some(self.data)', '} else if chars >= self.size {\n            Some(&self.data[0..self.size])'))]),
 ('tx-ws-uni', 'bug:C19', [(T, '.split(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace())\n        .filter(|&x| !x.is_empty())\n}', '.split(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace())\n        .filter(|&x| x.len() > 1)\n}')]),
 ('tx-tok-sep', 'bug:C19', [(T, '.into_iter().map(|tokens| tokens.join(""))', '.into_iter().take(10_000).map(|tokens| tokens.join(""))')]),
 ('tx-bytes', 'bug:C20', [(T, '    MultiShingles::new(text, from, to)\n', '    MultiShingles::new(&text[..text.len().min(1 << 20)], from, to)\n')]),
 # ------------------------------------------------------------------ clustering
 ('cg-ser-fn', 'benign', [(S, SER, '''        points
            .iter()
            .filter_map(|point| self.start_cluster(point, query_index))
            .collect()
'''), (S, '    fn create_new_cluster', '''    fn start_cluster(&mut self, point: &ClusterPoint<Id>, query_index: &(dyn QueryIndex<Id=ClusterPoint<Id>>)) -> Option<Box<Cluster<Id>>> {
        if point.cluster.get().is_some() {
            return None;
        }
        let similar_points: Vec<_> = query_index.query(point).into_iter()
            .filter(|point| point.cluster.get().is_none())
            .cloned().collect();
        if similar_points.len() < self.min_cluster_size {
            return None;
        }
        let cluster_id = self.new_cluster_id();
        Some(self.create_new_cluster(similar_points, cluster_id))
    }

    fn create_new_cluster''')]),
 ('cg-ser-loop', 'benign', [(S, SER, R(SER, '''            let similar_points: Vec<_> = query_index.query(point).into_iter()
                .filter(|point| point.cluster.get().is_none())
                .map(|p| p.clone()).collect();
''', '''            let mut similar_points = Vec::new();
            for candidate in query_index.query(point) {
                if candidate.cluster.get().is_none() {
                    similar_points.push(candidate.clone());
                }
            }
'''))]),
 ('cg-ser-isfree', 'benign', [(S, SER, R(R(SER, 'point.cluster.get().is_some()', '!point.is_free()'), '|point| point.cluster.get().is_none()', '|point| point.is_free()')), (S, '    pub fn assign_cluster', '''    fn is_free(&self) -> bool {
        self.cluster.get().is_none()
    }

    pub fn assign_cluster''')]),
 ('cg-ser-inline', 'benign', [(S, SER, R(SER, '''                let cluster = self.create_new_cluster(similar_points, cluster_id);
                clusters.push(cluster);
''', '''                let mut cluster = Box::new(Cluster::new(cluster_id));
                for p in similar_points {
                    p.cluster.set(Some(cluster_id));
                    cluster.points.push(p);
                }
                clusters.push(cluster);
'''))]),
 ('cg-ser-each', 'benign', [(S, '''        for mut point in points.into_iter() {
            point.assign_cluster(cluster_id);
            cluster.points.push(point);
        }
        cluster
''', '''        points.iter().for_each(|point| point.assign_cluster(cluster_id));
        cluster.points = points;
        cluster
''')]),
 ('cg-ser-retain', 'benign', [(S, SER, R(SER, '''            let similar_points: Vec<_> = query_index.query(point).into_iter()
                .filter(|point| point.cluster.get().is_none())
                .map(|p| p.clone()).collect();
''', '''            let mut similar_points: Vec<ClusterPoint<Id>> = query_index.query(point).into_iter().cloned().collect();
            similar_points.retain(|p| p.cluster.get().is_none());
'''))]),
 ('cg-ser-if', 'benign', [(S, SER, '''        let mut clusters = Vec::new();
        for point in points.iter() {
            if point.cluster.get().is_none() {
                let similar_points: Vec<_> = query_index.query(point).into_iter()
                    .filter(|point| point.cluster.get().is_none())
                    .map(|p| p.clone()).collect();
                if similar_points.len() >= self.min_cluster_size {
                    let cluster_id = self.new_cluster_id();
                    clusters.push(self.create_new_cluster(similar_points, cluster_id));
                }
            }
        }
        clusters
''')]),
 ('cg-par-isass', 'benign', [(P, PSL, R(PSL, 'point.cluster.load(Ordering::Relaxed) != null_mut()', 'point.is_cluster_assigned()'))]),
 ('cg-par-isnull', 'benign', [(P, 'self.get_cluster() != null_mut()', '!self.get_cluster().is_null()')]),
 ('cg-par-extend', 'benign', [(P, PSL, R(PSL, '''                let mut similar_points_cloned =
                    similar_points.into_iter().map(|p| p.clone()).collect();
                match self.try_create_cluster(&mut similar_points_cloned) {
                    Some(cluster) => {
                        clusters.push(cluster);
                    }
                    None => {}
                }
''', '''                let mut members: Vec<ClusterPoint<Id>> = similar_points.into_iter().cloned().collect();
                clusters.extend(self.try_create_cluster(&mut members));
'''))]),
 ('cg-par-fold', 'benign', [(P, PSL, R(PSL, '''            let mut similar_points: Vec<_> = query_index.query(&point).into_iter()
                .filter(|point| !point.is_cluster_assigned())
                .collect();
''', '''            let mut similar_points = Vec::new();
            for other in query_index.query(&point) {
                if !other.is_cluster_assigned() {
                    similar_points.push(other);
                }
            }
'''))]),
 ('cg-par-try', 'benign', [(P, PTRY, '''        for point in points.iter() {
            if point.assign_cluster(cluster_ptr).is_err() {
                cluster.rollback();
                self.rollback_cluster_points(&mut cluster, cluster_ptr);
                return None;
            }
            cluster.points.push(point.clone());
        }
        if cluster.commit() {
            Some(cluster)
        } else {
            self.rollback_cluster_points(&mut cluster, cluster_ptr);
            None
        }
''')]),
 ('cg-par-all', 'benign', [(P, PTRY, '''        let mut complete = true;
        for point in points.iter() {
            if point.assign_cluster(cluster_ptr).is_ok() {
                cluster.points.push(point.clone());
            } else {
                complete = false;
                break;
            }
        }
        if !complete {
            cluster.rollback();
        }
        if !complete || !cluster.commit() {
            self.rollback_cluster_points(&mut cluster, cluster_ptr);
            return None;
        }
        Some(cluster)
''')]),
 ('cg-par-sortkey', 'benign', [(P, SORT, '''        let point_count: HashMap<Id, usize> = points.iter()
            .map(|point| (point.get_id(), query_index.query(&point).len()))
            .collect();
        points.sort_by_key(|p| std::cmp::Reverse(point_count[&p.get_id()]));
''')]),
 ('cg-par-sortcache', 'benign', [(P, SORT, '''        points.sort_by_cached_key(|p| std::cmp::Reverse(query_index.query(p).len()));
''')]),
 ('cg-par-sortinsert', 'benign', [(P, SORT, R(SORT, '''        let point_count: HashMap<Id, usize> = points.iter()
            .map(|point| (point.get_id(), query_index.query(&point).len()))
            .collect();
''', '''        let mut point_count: HashMap<Id, usize> = HashMap::with_capacity(points.len());
        for point in points.iter() {
            point_count.insert(point.get_id(), query_index.query(point).len());
        }
'''))]),
 ('cg-par-roll', 'benign', [(P, ROLL, '''        for point in &cluster.points {
            point.release(cluster_ptr);
        }
'''), (P, '    pub fn get_id(&self)', '''    fn release(&self, cluster_ptr: *mut Cluster<Id>) {
        let _ = self.cluster.compare_exchange(cluster_ptr, ptr::null_mut(), Ordering::Relaxed, Ordering::Relaxed);
    }

    pub fn get_id(&self)''')]),
 ('cg-par-rolldrain', 'benign', [(P, ROLL, '''        for point in cluster.points.drain(..) {
            let _ = point.cluster.compare_exchange(cluster_ptr, null_mut(), Ordering::Relaxed, Ordering::Relaxed);
        }
''')]),
 ('cg-par-chunk', 'benign', [(P, '''        let chunk_size = std::cmp::max(1, points.len() / self.n_threads);
        let result: Vec<_> = points.par_chunks_mut(chunk_size)
            .map(|chunk| self.cluster_slice(chunk, query_index))
            .collect();
        result.into_iter().flat_map(|v| v.into_iter()).collect()
''', '''        let chunk_size = (points.len() / self.n_threads).max(1);
        points.par_chunks_mut(chunk_size)
            .flat_map(|chunk| self.cluster_slice(chunk, query_index))
            .collect()
''')]),
 ('cg-par-chunk2', 'benign', [(P, '''        result.into_iter().flat_map(|v| v.into_iter()).collect()
''', '''        result.into_iter().flatten().collect()
''')]),
 ('cg-par-id', 'benign', [(P, '''        let cluster_id = self.cluster_id_sequence.fetch_add(1, Ordering::Relaxed) + 1;
''', '''        let cluster_id = self.next_cluster_id();
'''), (P, '    fn rollback_cluster_points(', '''    fn next_cluster_id(&self) -> u32 {
        self.cluster_id_sequence.fetch_add(1, Ordering::SeqCst) + 1
    }

    fn rollback_cluster_points(''')]),
 ('cg-par-ptr', 'benign', [(P, '''        let cluster_const_ptr: *const Cluster<Id> = &*cluster;
        let cluster_ptr = cluster_const_ptr as *mut Cluster<Id>;
''', '''        let cluster_ptr: *mut Cluster<Id> = &mut *cluster;
''')]),
 ('cg-par-cas', 'benign', [(P, '''        self.cluster.compare_exchange(
            ptr::null_mut(),
            cluster_ptr,
            Ordering::Relaxed,
            Ordering::Relaxed,
        )
''', '''        let unassigned = ptr::null_mut();
        self.cluster.compare_exchange(unassigned, cluster_ptr, Ordering::AcqRel, Ordering::Acquire)
''')]),
 ('cg-par-eq', 'benign', [(P, '        self.id.eq(&other.id)', '        self.id == other.id')]),
 ('cg-par-scope', 'benign', [(P, '''        let _creation = self.creation_lock.lock().unwrap();
''', '''        let _creation = match self.creation_lock.lock() {
            Ok(guard) => guard,
            Err(poisoned) => poisoned.into_inner(),
        };
''')]),
 # bugs
 ('cx-ser-dup', 'bug:C16', [(S, SER, R(SER, 'if similar_points.len() >= self.min_cluster_size {', 'if similar_points.len() + 1 >= self.min_cluster_size {'))]),
 ('cx-ser-last', 'bug:C16', [(S, '''        for mut point in points.into_iter() {
            point.assign_cluster(cluster_id);
            cluster.points.push(point);
        }''', '''        for mut point in points.into_iter() {
            if cluster.points.len() < 4096 {
                point.assign_cluster(cluster_id);
            }
            cluster.points.push(point);
        }''')]),
 ('cx-ser-seq', 'bug:C16', [(S, SER, R(SER, '        let mut clusters = Vec::new();\n', '        let mut clusters = Vec::new();\n        if points.is_empty() { self.cluster_id_sequence = 0; }\n'))]),
 ('cx-par-resultskip', 'bug:C16', [(P, '        let result: Vec<_> = points.par_chunks_mut(chunk_size)\n', '        let result: Vec<_> = points.par_chunks_exact_mut(chunk_size)\n')]),
 ('cx-par-swap', 'bug:C17', [(P, '''        self.cluster.compare_exchange(
            ptr::null_mut(),
            cluster_ptr,
            Ordering::Relaxed,
            Ordering::Relaxed,
        )
''', '''        let old = self.cluster.load(Ordering::Acquire);
        if old.is_null() {
            self.cluster.store(cluster_ptr, Ordering::Release);
            Ok(old)
        } else {
            Err(old)
        }
''')]),
 ('cx-par-roll1', 'bug:C17,C16', [(P, ROLL, R(ROLL, 'cluster.points.iter_mut()', 'cluster.points.iter_mut().skip_while(|p| p.get_cluster() != cluster_ptr).take(64)'))]),
 ('cx-par-state', 'bug:C17,C16', [(P, PTRY, R(PTRY, '                    self.rollback_cluster_points(&mut cluster, cluster_ptr);\n                    return None;', '                    if cluster.points.len() > 1 { self.rollback_cluster_points(&mut cluster, cluster_ptr); }\n                    return None;'))]),
 ('cx-par-partial', 'bug:C17,C16', [(P, PTRY, R(PTRY, '''                    cluster.rollback();
                    self.rollback_cluster_points(&mut cluster, cluster_ptr);
                    return None;
''', '''                    if cluster.points.len() < self.min_cluster_size {
                        cluster.rollback();
                        self.rollback_cluster_points(&mut cluster, cluster_ptr);
                        return None;
                    }
                    break;
'''))]),
 ('cx-par-hash', 'bug:C16', [(P, '        self.id.hash(state)', '        self.id.hash(state);\n        self.cluster.load(Ordering::Relaxed).is_null().hash(state)')]),
 ('cg-par-release', 'benign', [(P, ROLL, '''        for point in cluster.points.iter_mut() {
            point.cluster.store(null_mut(), Ordering::Relaxed);
        }
'''.replace('cluster.points.iter_mut()', 'cluster.points.iter()') )]),
 ('cx-par-min', 'bug:C16', [(P, PSL, R(PSL, '''            let mut similar_points: Vec<_> = query_index.query(&point).into_iter()
                .filter(|point| !point.is_cluster_assigned())
                .collect();

            if similar_points.len() >= self.min_cluster_size {''', '''            let found = query_index.query(&point);
            if found.len() >= self.min_cluster_size {
                let mut similar_points: Vec<_> = found.into_iter()
                    .filter(|point| !point.is_cluster_assigned())
                    .collect();'''))]),
 # ------------------------------------------------------------------ containers
 ('kg-drain', 'benign', [(C, 'self.vec.retain(|x| x != item);', 'let kept: Vec<T> = self.vec.drain(..).filter(|x| x != item).collect();\n        self.vec = kept;')]),
 ('kg-retain', 'benign', [(C, 'self.vec.retain(|x| x != item);', 'self.vec.retain(|x| { let keep = *x != *item; keep });')]),
 ('kg-loop', 'benign', [(C, 'self.vec.retain(|x| x != item);', '''let mut i = 0;
        while i < self.vec.len() {
            if self.vec[i] == *item {
                self.vec.remove(i);
            } else {
                i += 1;
            }
        }''')]),
 ('kg-insert', 'benign', [(C, '        set.extend(self.vec.iter().cloned())', '        for id in self.vec.iter() {\n            set.insert(id.clone());\n        }')]),
 ('kg-foreach', 'benign', [(C, '        set.extend(self.set.iter())', '        self.set.iter().for_each(|x| { set.insert(x); })')]),
 ('kg-take', 'benign', [(C, '        self.set.remove(item);', '        let _ = self.set.take(item);')]),
 ('kg-replace', 'benign', [(C, '        self.set.insert(item);', '        self.set.replace(item);')]),
 ('kg-contains', 'benign', [(C, '        self.set.insert(item);', '        if !self.set.contains(&item) {\n            self.set.insert(item);\n        }')]),
 ('kg-slice', 'benign', [(C, '        set.extend(self.vec.iter())', '        set.extend(self.vec.as_slice())')]),
 ('kg-default', 'benign', [(C, '            set: HashSet::new()', '            set: Default::default()')]),
 ('kx-swaprm', 'bug:C11', [(C, 'self.vec.retain(|x| x != item);', 'let mut i = 0;\n        while i < self.vec.len() {\n            if self.vec[i] == *item { self.vec.swap_remove(i); }\n            i += 1;\n        }')]),
 ('kx-dedup', 'bug:C11', [(C, '        self.vec.push(item);', '        if self.vec.last() == Some(&item) { self.vec.pop(); }\n        self.vec.push(item.clone());\n        if self.vec.len() > 1 && self.vec[0] == item { self.vec.pop(); self.vec.remove(0); }')]),
 ('kx-skip', 'bug:C11', [(C, '        set.extend(self.vec.iter())', '        set.extend(self.vec.iter().take(1 << 16))')]),
 # ------------------------------------------------------------------ string index
 ('xg-load', 'benign', [(X, XL, '''        for line_result in reader.lines() {
            let line = match line_result {
                Ok(line) => line,
                Err(e) if e.kind() == ErrorKind::InvalidData => continue,
                Err(e) => return Err(e),
            };
            self.insert(line);
        }
        Ok(())
''')]),
 ('xg-load2', 'benign', [(X, XL, '''        for line_result in reader.lines() {
            match line_result {
                Ok(line) => {
                    self.insert(line);
                }
                Err(e) => {
                    if e.kind() != ErrorKind::InvalidData {
                        return Err(e);
                    }
                }
            }
        }
        Ok(())
''')]),
 ('xg-insert', 'benign', [(X, XI, '''        let id = self.doc_id + 1;
        let signature = self.signature(&text);
        self.lsh_index.insert(id, signature);
        self.doc_map.insert(id, text);
        self.doc_id = id;
'''), (X, '    pub fn query(&self', '''    fn signature(&self, text: &str) -> Vec<u64> {
        self.min_hash.create_signature(whitespace_split(text))
    }

    pub fn query(&self''')]),
 ('xg-query', 'benign', [(X, '        ids.iter().map(|id| self.doc_map.get(id).unwrap()).collect()', '        ids.into_iter().map(|id| &self.doc_map[id]).collect()')]),
 ('xg-query2', 'benign', [(X, '        ids.iter().map(|id| self.doc_map.get(id).unwrap()).collect()', '        ids.into_iter().filter_map(|id| self.doc_map.get(id)).collect()')]),
 ('xg-file', 'benign', [(X, '''        match File::open(file_name) {
            Ok(file) => {
                let current_size = self.size();
                let mut reader: BufReader<File> = BufReader::new(file);
                self.load_from_lines(&mut reader)?;
                let new_count = self.size() - current_size;
                Ok(new_count)
            }
            Err(e) => Err(e),
        }
''', '''        let file = File::open(file_name)?;
        let before = self.size();
        self.load_from_lines(&mut BufReader::new(file))?;
        Ok(self.size() - before)
''')]),
 ('xg-par-count', 'benign', [(X, XP, R(XP, '''                        Ok(line) => lines.push((lines.len() as u64 + self.doc_id + 1, line)),
''', '''                        Ok(line) => {
                            let id = self.doc_id + 1 + lines.len() as u64;
                            lines.push((id, line));
                        }
'''))]),
 ('xg-par-extend', 'benign', [(X, XP, R(XP, '''                for line in lines {
                    self.doc_map.insert(line.0, line.1);
                }
''', '''                self.doc_map.extend(lines);
'''))]),
 ('xg-par-reorder', 'benign', [(X, XP, R(XP, '''                self.lsh_index.par_bulk_insert_pairs(minhashes);
                self.doc_id += lines.len() as u64;
                for line in lines {
                    self.doc_map.insert(line.0, line.1);
                }
''', '''                self.doc_id += lines.len() as u64;
                for (id, line) in lines {
                    self.doc_map.insert(id, line);
                }
                self.lsh_index.par_bulk_insert_pairs(minhashes);
'''))]),
 ('xg-par-enum', 'benign', [(X, XP, '''                let mut texts: Vec<String> = Vec::new();
                for line_result in reader.lines() {
                    match line_result {
                        Ok(line) => texts.push(line),
                        Err(e) if e.kind() == ErrorKind::InvalidData => (),
                        Err(e) => return Err(e),
                    }
                }
                let first_id = self.doc_id + 1;
                let minhashes = texts
                    .par_iter()
                    .enumerate()
                    .map(|(i, text)| (first_id + i as u64, self.min_hash.create_signature(whitespace_split(text))))
                    .collect();
                self.lsh_index.par_bulk_insert_pairs(minhashes);
                self.doc_id += texts.len() as u64;
                for (i, text) in texts.into_iter().enumerate() {
                    self.doc_map.insert(first_id + i as u64, text);
                }
''')]),
 ('xg-par-split', 'benign', [(X, XP, R(XP, '''                let minhashes = lines
                    .par_iter()
                    .map(|line| {
                        (
                            line.0,
                            self.min_hash.create_signature(whitespace_split(&line.1)),
                        )
                    })
                    .collect();
''', '''                let hasher = &self.min_hash;
                let minhashes: Vec<(u64, Vec<u64>)> = lines
                    .par_iter()
                    .map(|(id, text)| (*id, hasher.create_signature(whitespace_split(text))))
                    .collect();
'''))]),
 ('xx-par-id', 'bug:C24', [(X, XP, R(XP, 'self.doc_id += lines.len() as u64;', 'self.doc_id = self.doc_id.max(lines.len() as u64);'))]),
 ('xx-par-trim', 'bug:C24', [(X, XP, R(XP, 'whitespace_split(&line.1)', 'whitespace_split(line.1.trim_start_matches(char::is_numeric))'))]),
 ('xx-par-skip', 'bug:C24', [(X, XP, R(XP, 'Err(e) => return Err(e),', 'Err(e) => { if lines.is_empty() { return Err(e) } else { break } }'))]),
 ('xx-load-int', 'bug:C24', [(X, XL, R(XL, 'ErrorKind::InvalidData =>', 'ErrorKind::InvalidData || e.kind() == ErrorKind::UnexpectedEof =>'))]),
 ('xx-load-dup', 'bug:C24', [(X, XL, R(XL, 'Ok(line) => self.insert(line),', 'Ok(line) => if !line.is_empty() || self.doc_id == 0 { self.insert(line) },'))]),
 ('xx-ins-dup', 'bug:C24', [(X, XI, R(XI, '        self.doc_id += 1;\n', '        if self.doc_map.get(&self.doc_id) != Some(&text) { self.doc_id += 1; }\n'))]),
 ('xx-size', 'bug:C24', [(X, '        self.doc_id as usize\n', '        self.doc_id as u32 as usize\n')]),
]
