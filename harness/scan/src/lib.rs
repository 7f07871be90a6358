//! Byte searches, a crate of its own so that only these are built with optimizations.

/// Looks for patterns (at least two bytes each) by their first two bytes.
pub struct Finder<'a> {
    first: Vec<bool>,
    patterns: Vec<&'a [u8]>,
}

impl<'a> Finder<'a> {
    pub fn new(patterns: impl Iterator<Item = &'a [u8]>) -> Self {
        let mut first = vec![false; 65536];
        let patterns: Vec<&[u8]> = patterns.collect();
        for p in &patterns {
            first[u16::from_le_bytes([p[0], p[1]]) as usize] = true;
        }
        Self { first, patterns }
    }

    /// All occurrences: position and pattern
    pub fn find(&self, buf: &[u8]) -> Vec<(usize, &'a [u8])> {
        let mut found = Vec::new();
        for (i, w) in buf.windows(2).enumerate() {
            if self.first[u16::from_le_bytes([w[0], w[1]]) as usize] {
                for p in &self.patterns {
                    if buf[i..].starts_with(p) {
                        found.push((i, *p));
                    }
                }
            }
        }
        found
    }
}

pub fn contains(haystack: &[u8], needle: &[u8]) -> bool {
    if needle.is_empty() {
        return true;
    }
    if needle.len() > haystack.len() {
        return false;
    }
    let first = needle[0];
    let mut i = 0;
    while i + needle.len() <= haystack.len() {
        match haystack[i..=haystack.len() - needle.len()].iter().position(|b| *b == first) {
            None => return false,
            Some(p) => {
                if haystack[i + p..].starts_with(needle) {
                    return true;
                }
                i += p + 1;
            }
        }
    }
    false
}
