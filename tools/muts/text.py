F = 'gaoya/src/text/multi_shingles.rs'
T = 'gaoya/src/text/tokenizers.rs'
SL = '''        if self.data.len() < self.size && self.size > self.from_size {
            // the sizes left at this position are too long, go on with the next position
            self.size = self.from_size;
            self.data = &self.data[self.step..];
        }
'''
BR = '''            if pos_next != 0 && pos_end != 0 {
                break;
            }
'''
MV = '''            if pos_next != 0 {
                self.data = &self.data[pos_next..];
            } else {
                self.data = &self.data[self.data.len()..];
            }
'''
MUTS = [
    ('t-slice-tail', 'bug:C19', [(F, SL, '')]),
    ('t-slice-cond', 'bug:C19', [(F, 'if self.data.len() >= self.size {', 'if self.data.len() > self.size {')]),
    ('t-slice-to', 'bug:C19', [(F, '            self.size += 1;\n            if self.size > self.to_size', '            self.size += 1;\n            if self.size >= self.to_size')]),
    ('t-step2', 'bug:C19', [(F, 'step: 1,', 'step: 2,')]),
    ('t-start', 'bug:C19', [(F, 'size: from_size,', 'size: from_size.max(2),')]),
    ('t-str-range', 'bug:C19,C20', [(F, '(128..192)', '(128..191)')]),
    ('t-str-range2', 'bug:C19,C20', [(F, '(128..192)', '(160..192)')]),
    ('t-str-break', 'bug:C19', [(F, 'if pos_next != 0 && pos_end != 0', 'if pos_next != 0 || pos_end != 0')]),
    ('t-str-break2', 'bug:C19', [(F, 'if pos_next != 0 && pos_end != 0', 'if pos_next != 0')]),
    ('t-str-exact', 'bug:C19', [(F, '} else if chars == self.size {\n            Some(self.data)', '} else if chars == self.size + 1 {\n            Some(self.data)')]),
    ('t-str-tail', 'bug:C19', [(F, 'ret.is_none() && self.size > self.from_size', 'false')]),
    ('t-str-reset', 'bug:C19', [(F, 'if too_long || self.size > self.to_size {', 'if too_long || self.size >= self.to_size {')]),
    ('t-str-none', 'bug:C19', [(F, 'let too_long = ret.is_none() && self.size > self.from_size;', 'let too_long = ret.is_none() && self.size > self.from_size && self.size < self.to_size;')]),
    ('t-str-move', 'bug:C19', [(F, 'self.data = &self.data[pos_next..];', 'self.data = &self.data[pos_end..];')]),
    ('t-str-bytepos', 'bug:C20,C19', [(F, 'self.data = &self.data[pos_next..];', 'self.data = &self.data[1..];')]),
    ('t-str-end', 'bug:C20,C19', [(F, 'Some(&self.data[0..pos_end])', 'Some(&self.data[0..pos_end - 1])')]),
    ('t-ws-uni', 'bug:C19', [(T, 'c.is_ascii_punctuation() || c.is_ascii_whitespace()', 'c.is_ascii_punctuation() || c.is_whitespace()')]),
    ('t-ws-nofilter', 'bug:C19', [(T, '        .split(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace())\n        .filter(|&x| !x.is_empty())\n', '        .split(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace())\n')]),
    ('t-ws-len2', 'bug:C19', [(T, '!x.is_empty()', 'x.len() > 1')]),
    ('t-shingle-range', 'bug:C19', [(T, 'MultiShingles::new(text, from, to)', 'MultiShingles::new(text, from, to - 1)')]),
    ('t-shingle-size', 'bug:C19', [(T, 'Shingles::new(text, size)', 'Shingles::new(text, size + 1)')]),
    ('t-join', 'bug:C19', [(T, 'tokens.join("")', 'tokens.join(" ")')]),
    ('t-tok-dedup', 'bug:C19', [(T, 'tokens.join(""))', 'tokens.join("")).unique()')]),
    ('tb-nobreak', 'benign', [(F, BR, '')]),
    ('tb-mv', 'benign', [(F, MV, '            let cut = if pos_next != 0 { pos_next } else { self.data.len() };\n            self.data = &self.data[cut..];\n')]),
    ('tb-helper', 'benign', [(F, SL, '''        if self.data.len() < self.size && self.size > self.from_size {
            self.advance();
        }
'''), (F, '''                self.size = self.from_size;
                self.data = &self.data[self.step..];
            }
            Some(ret)''', '''                self.advance();
            }
            Some(ret)'''), (F, "impl<'a> Iterator for MultiShingles<'a, str> {", '''impl<'a, T> MultiShingles<'a, [T]> {
    fn advance(&mut self) {
        self.data = &self.data[self.step..];
        self.size = self.from_size;
    }
}

impl<'a> Iterator for MultiShingles<'a, str> {''')]),
    ('tb-eager', 'benign', [(F, SL, ''), (F, '            if self.size > self.to_size {\n                self.size = self.from_size;\n                self.data = &self.data[self.step..];', '            if self.size > self.to_size || self.size > self.data.len() {\n                self.size = self.from_size;\n                self.data = &self.data[self.step..];')]),
    ('tb-early', 'benign', [(F, 'if self.data.len() >= self.size {\n            let ret = &self.data[0..self.size];', 'if self.data.len() < self.size {\n            None\n        } else {\n            let ret = &self.data[..self.size];'), (F, '''            Some(ret)
        } else {
            None
        }
''', '            Some(ret)\n        }\n')]),
    ('tb-boundary', 'benign', [(F, '.filter(|&(_, &b)| !(128..192).contains(&b))', '.filter(|&(_, &b)| b < 128 || b >= 192)')]),
    ('tb-boundary2', 'benign', [(F, '.filter(|&(_, &b)| !(128..192).contains(&b))', '.filter(|&(_, &b)| (b as i8) >= -0x40)')]),
    ('tb-boundary3', 'benign', [(F, '.filter(|&(_, &b)| !(128..192).contains(&b))', '.filter(|&(_, &b)| b & 0xC0 != 0x80)')]),
    ('tb-chars', 'benign', [(F, '''        for (i, _) in iter {
            if chars''', '''        for (i, _) in self.data.char_indices() {
            if chars''')]),
    ('tb-ws', 'benign', [(T, '.filter(|&x| !x.is_empty())', '.filter(|x| x.len() > 0)')]),
    ('tb-ws2', 'benign', [(T, 'c.is_ascii_punctuation() || c.is_ascii_whitespace()', 'c.is_ascii_whitespace() || c.is_ascii_punctuation()')]),
    ('tb-ws3', 'benign', [(T, '''    Box::new(text
        .split(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace())
        .filter(|&x| !x.is_empty()))''', '    Box::new(whitespace_split(text))')]),
    ('tb-ws4', 'benign', [(T, '''    text
        .split(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace())
        .filter''', '''    text
        .split(is_separator)
        .filter'''), (T, 'pub fn shingle_text<', '''fn is_separator(c: char) -> bool {
    c.is_ascii_punctuation() || c.is_ascii_whitespace()
}

pub fn shingle_text<''')]),
    ('tb-match', 'benign', [(F, '''        let ret = if pos_end != 0 {
            Some(&self.data[0..pos_end])
        } else if chars == self.size {
            Some(self.data)
        } else {
            None
        };''', '''        let data = self.data;
        let ret = match pos_end {
            0 if chars == self.size => Some(data),
            0 => None,
            end => Some(&data[..end]),
        };''')]),
    ('tb-tok', 'benign', [(T, '''    Shingles::new(tokens.as_slice(), size)
        .into_iter().map(|tokens| tokens.join(""))
        .collect_vec()
        .into_iter()''', '''    let mut out = Vec::new();
    for tokens in Shingles::new(tokens.as_slice(), size) {
        out.push(tokens.join(""));
    }
    out.into_iter()''')]),
]
