F = 'gaoya/src/minhash/mod.rs'
I = 'gaoya/src/minhash/minhash_index.rs'
A = 'signature[i * band_size..(i + 1) * band_size]'
CE = '''            let count = band_counters[i].entry(band).or_insert(1);
            *count += 1;'''
BODY = '''    let mut band_counters: Vec<HashMap<&[T], usize>> = Vec::new();
    for i in 0..num_bands {
        band_counters.push(HashMap::new());
    }

    for signature in signatures.iter() {
        for i in 0..num_bands {
            let band: &[T] = &signature[i * band_size..(i + 1) * band_size];
            let count = band_counters[i].entry(band).or_insert(1);
            *count += 1;
        }
    }

    let mut centroid = Vec::new();
    for counter in band_counters {
        let most_frequent_band = counter.into_iter()
            .max_by(|x, y| x.1.cmp(&y.1))
            .unwrap().0;
        centroid.extend_from_slice(most_frequent_band);
    }
    centroid
'''
MAXB = '''        let most_frequent_band = counter.into_iter()
            .max_by(|x, y| x.1.cmp(&y.1))
'''
MUTS = [
    ('cen-min', 'bug:C26', [(F, MAXB, MAXB.replace('max_by', 'min_by'))]),
    ('cen-rev', 'bug:C26', [(F, MAXB, MAXB.replace('x.1.cmp(&y.1)', 'y.1.cmp(&x.1)'))]),
    ('cen-skip', 'bug:C26', [(F, BODY, BODY.replace('signatures.iter()', 'signatures.iter().skip(1)'))]),
    ('cen-take', 'bug:C26', [(F, BODY, BODY.replace('signatures.iter()', 'signatures.iter().take(1000)'))]),
    ('cen-br', 'bug:C26', [(I, 'minhash_band_centroid_from_refs(&signatures, self.b, self.r)', 'minhash_band_centroid_from_refs(&signatures, self.r, self.b)')]),
    ('cen-cnt', 'bug:C26', [(F, CE, CE.replace('*count += 1', '*count = 1'))]),
    ('cen-range', 'bug:C26', [(F, BODY, BODY.replace('(i + 1) * band_size]', '(i + 1) * band_size - 1]'))]),
    ('cen-rotate', 'bug:C26', [(F, BODY, BODY.replace('in band_counters {', 'in band_counters.into_iter().rev() {'))]),
    ('cen-unwrap', 'bug:C26', [(I, '.filter_map(|id| self.id_signatures.get(id))', '.map(|id| self.id_signatures.get(id).unwrap())')]),
    ('cen-b1', 'bug:C26', [(F, CE, CE.replace('band_counters[i]', 'band_counters[(i + 1) % num_bands]'))]),
    ('cen-u8', 'bug:C26', [(F, 'HashMap<&[T], usize>> = Vec::new()', 'HashMap<&[T], u8>> = Vec::new()')]),
    ('cen-sat', 'bug:C26', [(F, CE, CE.replace('*count += 1', '*count = (*count + 1).min(3)'))]),
    ('cen-first', 'bug:C26', [(I, 'ids.iter()\n            .filter_map(|id| self.id_signatures.get(id))', 'ids.iter().take(64)\n            .filter_map(|id| self.id_signatures.get(id))')]),
    ('ben-or0', 'benign', [(F, CE, CE.replace('or_insert(1)', 'or_insert(0)'))]),
    ('ben-direct', 'benign', [(F, CE, '*band_counters[i].entry(band).or_insert(0) += 1;')]),
    ('ben-key', 'benign', [(F, MAXB, MAXB.replace('max_by(|x, y| x.1.cmp(&y.1))', 'max_by_key(|x| x.1)'))]),
    ('ben-fold', 'benign', [(F, BODY, '''    let mut centroid = Vec::with_capacity(num_bands * band_size);
    for i in 0..num_bands {
        let mut counter: HashMap<&[T], usize> = HashMap::new();
        for signature in signatures.iter() {
            *counter.entry(&signature[i * band_size..(i + 1) * band_size]).or_insert(0) += 1;
        }
        let most_frequent_band = counter.into_iter().max_by_key(|(_, n)| *n).unwrap().0;
        centroid.extend_from_slice(most_frequent_band);
    }
    centroid
''')]),
    ('ben-vecmacro', 'benign', [(F, BODY, BODY.replace('''Vec::new();
    for i in 0..num_bands {
        band_counters.push(HashMap::new());
    }''', 'vec![HashMap::new(); num_bands];'))]),
    ('ben-enum', 'benign', [(F, BODY, BODY.replace('''for i in 0..num_bands {
            let band: &[T] = &signature[i * band_size..(i + 1) * band_size];
            let count = band_counters[i].entry(band).or_insert(1);''', '''for (i, counter) in band_counters.iter_mut().enumerate() {
            let band: &[T] = &signature[i * band_size..(i + 1) * band_size];
            let count = counter.entry(band).or_insert(1);'''))]),
    ('ben-chunks', 'benign', [(F, BODY, BODY.replace('''for i in 0..num_bands {
            let band: &[T] = &signature[i * band_size..(i + 1) * band_size];
''', '''for (i, band) in signature.chunks(band_size).enumerate() {
'''))]),
    ('ben-loop', 'benign', [(I, '''let signatures: Vec<_> = ids.iter()
            .filter_map(|id| self.id_signatures.get(id))
            .collect();''', '''let mut signatures = Vec::new();
        for id in ids {
            if let Some(s) = self.id_signatures.get(id) {
                signatures.push(s);
            }
        }''')]),
    ('ben-flat', 'benign', [(F, BODY[BODY.index('    let mut centroid'):], '''    band_counters.into_iter()
        .flat_map(|counter| counter.into_iter().max_by_key(|x| x.1).unwrap().0.iter().copied())
        .collect()
''')]),
]
MUTS += [
 ('cen-rev', 'bug:C26', [('gaoya/src/minhash/mod.rs', '    for counter in band_counters {', '    for counter in band_counters.into_iter().rev() {')]),
]
