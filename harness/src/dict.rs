//! A generator dictionary: string and integer literals of the code under test.
//! It only widens what is generated; no oracle depends on it.
use std::collections::BTreeSet;

pub struct Dict {
    pub words: Vec<String>,
    pub ints: Vec<usize>,
    /// sizes that only fit what is cheap to repeat
    pub big: Vec<usize>,
}

fn literals(src: &str, words: &mut BTreeSet<String>, ints: &mut BTreeSet<usize>) {
    let c: Vec<char> = src.chars().collect();
    let mut i = 0;
    while i < c.len() {
        let rest = |k: usize| c.get(i + k).copied().unwrap_or(' ');
        if c[i] == '/' && rest(1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if c[i] == '/' && rest(1) == '*' {
            i += 2;
            while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') {
                i += 1;
            }
            i += 2;
        } else if c[i] == '"' {
            let mut s = String::new();
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' {
                    i += 1;
                }
                if i < c.len() {
                    s.push(c[i]);
                }
                i += 1;
            }
            i += 1;
            if !s.is_empty() && s.len() <= 40 {
                words.insert(s);
            }
        } else if c[i] == '\'' && (rest(2) == '\'' || (rest(1) == '\\' && rest(3) == '\'')) {
            let ch = if rest(1) == '\\' { rest(2) } else { rest(1) };
            words.insert(ch.to_string());
            i += if rest(1) == '\\' { 4 } else { 3 };
        } else if c[i].is_ascii_digit() && (i == 0 || !(c[i - 1].is_alphanumeric() || c[i - 1] == '_')) {
            let mut s = String::new();
            while i < c.len() && (c[i].is_ascii_digit() || c[i] == '_') {
                if c[i] != '_' {
                    s.push(c[i]);
                }
                i += 1;
            }
            if let Ok(v) = s.parse::<usize>() {
                ints.insert(v);
            }
        } else {
            i += 1;
        }
    }
}

/// string literals of the code under test, the scripts included
pub static WORDS: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();

pub static SIZES: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();

/// about a number of the code under test
pub fn size(r: &mut crate::rng::Rng) -> Option<usize> {
    SIZES.get().filter(|w| !w.is_empty()).map(|w| (r.pick(w) + r.below(3)).saturating_sub(1))
}

pub fn word(r: &mut crate::rng::Rng) -> Option<String> {
    WORDS.get().filter(|w| !w.is_empty()).map(|w| r.pick(w).clone())
}

/// string literals of a script
fn quoted(src: &str, words: &mut BTreeSet<String>) {
    for line in src.lines().filter(|l| !l.trim_start().starts_with('#')) {
        for q in ['"', '\''] {
            for w in line.split(q).skip(1).step_by(2) {
                if !w.is_empty() && w.len() <= 40 {
                    words.insert(w.to_string());
                }
            }
        }
    }
}

pub fn load_scripts(dir: &str, dict: &Dict) {
    let mut words: BTreeSet<String> = dict.words.iter().cloned().collect();
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        if let Ok(s) = std::fs::read_to_string(e.path()) {
            quoted(&s, &mut words);
        }
    }
    let _ = SIZES.set(dict.big.clone());
    let _ = WORDS.set(words.into_iter().collect());
}

pub fn load(dir: &str) -> Dict {
    let mut words = BTreeSet::new();
    let mut ints = BTreeSet::new();
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            if e.path().extension().map_or(false, |x| x == "rs") {
                if let Ok(s) = std::fs::read_to_string(e.path()) {
                    let cut = s.find("#[cfg(test)]").unwrap_or(s.len());
                    literals(&s[..cut], &mut words, &mut ints);
                }
            }
        }
    }
    Dict {
        words: words.into_iter().collect(),
        big: ints.iter().copied().filter(|v| *v >= 2 && *v <= 5000).collect(),
        ints: ints.into_iter().filter(|v| *v >= 2 && *v <= 300).collect(),
    }
}
