//! Word-splitting reference for snake_case, written from the rules in the
//! documentation of `to_snake_case` (not from either implementation).

#[derive(Clone, Copy, PartialEq, Debug)]
enum Case {
    /// no letter seen yet in this chunk
    None,
    Lower,
    Upper,
}

/// The words of an ASCII string.
pub fn words(s: &str) -> Vec<String> {
    let mut out = vec![];
    for chunk in s.split(|c: char| !c.is_ascii_alphanumeric()) {
        let c: Vec<char> = chunk.chars().collect();
        // case of every position; a digit takes the case of the preceding letter
        let mut case = vec![];
        let mut cur = Case::None;
        for ch in &c {
            if ch.is_ascii_lowercase() {
                cur = Case::Lower
            } else if ch.is_ascii_uppercase() {
                cur = Case::Upper
            }
            case.push(cur);
        }
        let mut word = String::new();
        for i in 0..c.len() {
            let upper = c[i].is_ascii_uppercase();
            let boundary = upper
                && i > 0
                && match case[i - 1] {
                    Case::Lower => true,
                    // the last uppercase letter of a run, if lowercase follows it
                    Case::Upper => c.get(i + 1).map_or(false, |n| n.is_ascii_lowercase()),
                    Case::None => false,
                };
            if boundary && !word.is_empty() {
                out.push(std::mem::take(&mut word));
            }
            word.push(c[i]);
        }
        if !word.is_empty() {
            out.push(word);
        }
    }
    out
}

pub fn snake(s: &str) -> String {
    words(s).iter().map(|w| w.to_ascii_lowercase()).collect::<Vec<_>>().join("_")
}
