//! Plain words: the leaves of every generated document.
use crate::src::Src;

const LOWER: &[&str] = &[
    "alpha", "bread", "cat", "dune", "ember", "fox", "glass", "hill", "iron", "joke", "kite", "lamp", "moon", "nest",
    "owl", "pear", "quilt", "river", "stone", "tree", "urn", "vine", "wolf", "yarn", "zinc", "go", "we", "it", "a",
];
const UNI: &[&str] = &[
    "été", "жук", "naïve", "straße", "日本", "ñandú", "åre", "İzmir", "élan", "Ωmega", "sołtys", "ﬁn", "e\u{301}t", "ключ", "मन",
];

/// A word of lower-case ASCII letters.
pub fn ascii(s: &mut Src) -> String {
    let w = s.pick(LOWER).to_string();
    if s.chance(1, 4) {
        let b = s.pick(LOWER);
        return w + b;
    }
    w
}

/// A word without any Textile meaning: ASCII or not, maybe with digits.
pub fn word(s: &mut Src) -> String {
    match s.weighted(&[10, 3, 1, 1]) {
        0 => ascii(s),
        1 => s.pick(UNI).to_string(),
        2 => format!("{}{}", ascii(s), s.below(100)),
        _ => {
            let w = ascii(s);
            let mut c = w.chars();
            let f = c.next().unwrap().to_ascii_uppercase();
            format!("{}{}", f, c.as_str())
        }
    }
}

pub fn words(s: &mut Src, lo: u32, hi: u32) -> Vec<String> {
    let n = s.range(lo, hi);
    (0..n).map(|_| word(s)).collect()
}

pub fn phrase(s: &mut Src, lo: u32, hi: u32) -> String {
    words(s, lo, hi).join(" ")
}

/// A number of any length, mostly a short one.
pub fn number(s: &mut Src, lo: u32, hi: u32) -> u32 {
    let top = match s.below(6) {
        0..=2 => 9,
        3 => 99,
        4 => 999,
        _ => u32::MAX,
    };
    s.range(lo, hi.min(top).max(lo))
}

pub fn ident(s: &mut Src) -> String {
    let mut w = ascii(s);
    match s.below(12) {
        0 => w = w.to_ascii_uppercase(),
        1 => w = format!("{}X{}", w, s.below(10)),
        2 => w = format!("{}.{}", w, ascii(s)),
        _ => (),
    }
    if s.chance(1, 4) {
        w.push('-');
        w.push_str(&ascii(s));
    }
    if s.chance(1, 4) {
        w.push_str(&s.below(100).to_string());
    }
    w
}
