"""eighth round: chunked similarity, early exits, rotated positions, capped sequences"""
import importlib.util, os
def mod(n):
    sp = importlib.util.spec_from_file_location(n, os.path.join(os.path.dirname(os.path.abspath(__file__)), n + '.py'))
    m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m); return m
SG = mod('sig')
M, SIM = SG.M, SG.SIM
G = 'benign'
R7 = mod('r7')
MI, BR = R7.MI, R7.BR
sub = R7.sub
BRB = BR[BR.index('        let removed'):]
def br(push_known_in_if, tail='self.bands.par_iter_mut().for_each(|band| {\n            for (id, signature) in known.iter().zip(&removed) {\n                band.remove(id, signature);\n            }\n        });\n'):
    a, b_ = ('                known.push(id);\n', '') if push_known_in_if else ('', '            known.push(id);\n')
    return '''        let mut known = Vec::with_capacity(ids.len());
        let mut removed = Vec::with_capacity(ids.len());
        for id in ids {
            if let Some(signature) = self.id_signatures.remove(id) {
                removed.push(signature);
''' + a + '''            }
''' + b_ + '''        }
        ''' + tail + '''        removed
    }
'''
MUTS = [
 ('g8-br-two', G, [(MI, BR, sub(BR, (BRB, br(True))))]),
 ('b8-br-two', 'bug:C03', [(MI, BR, sub(BR, (BRB, br(False))))]),
 ('b8-br-orig', 'bug:C03', [(MI, BR, sub(BR, (BRB, '''        let sigs: Vec<Vec<T>> = ids.iter()
            .filter_map(|id| self.id_signatures.remove(id))
            .collect();
        self.bands.par_iter_mut()
            .for_each(|band| {
                sigs.iter().zip(ids)
                    .for_each(|(sig, id)| band.remove(id, sig))
            });
        sigs
    }
''')))]),
 ('g8-br-unzip', G, [(MI, BR, sub(BR, (BRB, '''        let (known, sigs): (Vec<&Id>, Vec<Vec<T>>) = ids.iter()
            .filter_map(|id| self.id_signatures.remove(id).map(|sig| (id, sig)))
            .unzip();
        self.bands.par_iter_mut()
            .for_each(|band| {
                sigs.iter().zip(known.iter())
                    .for_each(|(sig, id)| band.remove(id, sig))
            });
        sigs
    }
''')))]),
 ('g8-sim-rem', G, [(M, SIM, '''    let num_hashes = min_hashes_1.len();
    let left = min_hashes_1.chunks_exact(4);
    let right = min_hashes_2.chunks_exact(4);
    let mut matches = left.remainder().iter().zip(right.remainder()).filter(|(a, b)| a == b).count();
    for (a, b) in left.zip(right) {
        matches += a.iter().zip(b.iter()).filter(|(x, y)| x == y).count();
    }
    (matches as f64) / (num_hashes as f64)
''')]),
 ('g8-sim-chunks', G, [(M, SIM, '''    let num_hashes = min_hashes_1.len();
    let matches: usize = min_hashes_1.chunks(64).zip(min_hashes_2.chunks(64))
        .map(|(a, b)| a.iter().zip(b).filter(|(x, y)| x == y).count())
        .sum();
    (matches as f64) / (num_hashes as f64)
''')]),
 ('g8-sim-tail', G, [(M, SIM, '''    let num_hashes = min_hashes_1.len();
    let mut matches = 0usize;
    for (a, b) in min_hashes_1.chunks_exact(4).zip(min_hashes_2.chunks_exact(4)) {
        for i in 0..4 {
            if a[i] == b[i] { matches += 1; }
        }
    }
    for i in (num_hashes / 4 * 4)..num_hashes {
        if min_hashes_1[i] == min_hashes_2[i] { matches += 1; }
    }
    (matches as f64) / (num_hashes as f64)
''')]),
 ('b8-sim-chunks', 'bug:C08', [(M, SIM, '''    let num_hashes = min_hashes_1.len();
    let mut matches = 0usize;
    for (a, b) in min_hashes_1.chunks_exact(4).zip(min_hashes_2.chunks_exact(4)) {
        for i in 0..4 {
            if a[i] == b[i] { matches += 1; }
        }
    }
    (matches as f64) / (num_hashes as f64)
''')]),
 ('b8-sim-unroll', 'bug:C08', [(M, SIM, '''    let num_hashes = min_hashes_1.len();
    let mut matches = 0usize;
    let mut i = 0;
    while i + 4 <= num_hashes {
        matches += (min_hashes_1[i] == min_hashes_2[i]) as usize;
        matches += (min_hashes_1[i + 1] == min_hashes_2[i + 1]) as usize;
        matches += (min_hashes_1[i + 2] == min_hashes_2[i + 2]) as usize;
        matches += (min_hashes_1[i + 3] == min_hashes_2[i + 3]) as usize;
        i += 4;
    }
    (matches as f64) / (num_hashes as f64)
''')]),
 ('g8-sim-unroll', G, [(M, SIM, '''    let num_hashes = min_hashes_1.len();
    let mut matches = 0usize;
    let mut i = 0;
    while i + 2 <= num_hashes {
        matches += (min_hashes_1[i] == min_hashes_2[i]) as usize;
        matches += (min_hashes_1[i + 1] == min_hashes_2[i + 1]) as usize;
        i += 2;
    }
    while i < num_hashes {
        matches += (min_hashes_1[i] == min_hashes_2[i]) as usize;
        i += 1;
    }
    (matches as f64) / (num_hashes as f64)
''')]),
]
