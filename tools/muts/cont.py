F = 'gaoya/src/minhash/id_container.rs'
R = '''        // the same id may have been pushed more than once
        self.vec.retain(|x| x != item);
'''
MUTS = [
    ('cont-remove-one', 'bug:C11', [(F, R, '''        if let Some(index) =  self.vec.iter().position(|x| x == item) {
            self.vec.swap_remove(index);
        }
''')]),
    ('cont-remove-truncates', 'bug:C11', [(F, R, '''        if let Some(index) =  self.vec.iter().position(|x| x == item) {
            self.vec.truncate(index);
        }
''')]),
    ('cont-smallvec-cap', 'bug:C11', [(F, '''SmallVec::<[T; N]>::new()
        }
    }

    fn push(&mut self, item: T) {
        self.vec.push(item);''', '''SmallVec::<[T; N]>::new()
        }
    }

    fn push(&mut self, item: T) {
        if self.vec.len() < 1024 { self.vec.push(item); }''')]),
    ('cont-copy-skip', 'bug:C11', [(F, 'set.extend(self.vec.iter().cloned())', 'set.extend(self.vec.iter().skip(1).cloned())')]),
    ('cont-isempty', 'bug:C11', [(F, 'self.len() == 0', 'self.len() <= 1')]),
    ('cont-retain-inv', 'bug:C11', [(F, 'retain(|x| x != item)', 'retain(|x| x == item)')]),
    ('cont-dedup', 'benign', [(F, '        self.vec.push(item);', '        if !self.vec.contains(&item) { self.vec.push(item); }'), (F, R, '''        if let Some(index) =  self.vec.iter().position(|x| x == item) {
            self.vec.swap_remove(index);
        }
''')]),
    ('cont-copyloop', 'benign', [(F, 'set.extend(self.set.iter().cloned());', 'for x in self.set.iter() { set.insert(x.clone()); }')]),
    ('cont-copyloop2', 'benign', [(F, 'set.extend(self.vec.iter())', 'for x in &self.vec { set.insert(x); }')]),
    ('cont-retainmatch', 'benign', [(F, 'retain(|x| x != item)', 'retain(|x| !(x == item))')]),
    ('cont-removeloop', 'benign', [(F, R, '''        while let Some(index) =  self.vec.iter().position(|x| x == item) {
            self.vec.swap_remove(index);
        }
''')]),
    ('cont-isempty2', 'benign', [(F, 'self.len() == 0', 'self.len() < 1')]),
    ('cont-isempty3', 'benign', [(F, '''    fn len(&self) -> usize {
        self.set.len()
    }
''', '''    fn len(&self) -> usize {
        self.set.len()
    }
    fn is_empty(&self) -> bool { self.set.is_empty() }
''')]),
]
