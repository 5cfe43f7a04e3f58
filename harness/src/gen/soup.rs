//! Unstructured documents: arbitrary mixtures of Textile syntax, HTML, odd
//! Unicode and mutated documents from the repository's own fixtures.
use super::words;
use crate::src::Src;
use std::sync::OnceLock;

const SYNTAX: &[&str] = &[
    "*", "**", "_", "__", "-", "--", "+", "^", "~", "%", "??", "@", "==", "\"", "'", ":", ";", ".", "..", ". ", "...", "!",
    "?", ",", "(", ")", "[", "]", "{", "}", "<", ">", "=", "<>", "|", "||", "|_. ", "|\\2. ", "|/3. ", "|-", "|^", "|~. ", "|=. ",
    "|:. ", "#", "##", "#_", "#5", "# ", "* ", "** ", "*# ", "#* ", "; ", ": ", "- ", ":=", " := ", "=:", "&", "&amp;", "&lt;",
    "&#39;", "&#x41;", "\\", "/", "$", "`", "\t", " ", "  ", "\n", "\n\n", "\n ", "\n\n\n", "\r\n", "\r", "x", "1/2", "(1/4)",
    "(c)", "(tm)", "(R)", "(o)", "(+/-)", "10x20", "3 x 4", "HTML", "ABC(def)", "NATO", "'88",
];
const BLOCKS: &[&str] = &[
    "h1. ", "h2. ", "h3(cls#id). ", "h6>. ", "p. ", "p(. ", "p)). ", "p{color:red}. ", "p[fr]. ", "p(a b#c){x:y}[en]. ", "p<. ",
    "p=. ", "p<>. ", "bq. ", "bq.. ", "bq.:http://e.com/ ", "bc. ", "bc.. ", "bc[rust]. ", "pre. ", "pre.. ", "notextile. ",
    "notextile.. ", "###. ", "###.. ", "fn1. ", "fn2^. ", "fn12(foo#bar). ", "note#x. ", "note#x! ", "note#yy^(cls). ", "notelist. ",
    "notelist:1. ", "notelist:α^+. ", "notelist+. ", "notelist!. ", "table. ", "table(c#i){s:t}. sum *b*\n", "table_. ", "|a|b|\n",
    "|_. h |_. k |\n", "|^.\n", "|-.\n", "|~.\n", "|:\\3. 100 |50 |\n", "|=. cap\n", "- a := b\n", "- a :=\nb =:\n", "; t\n: d\n",
    "* i\n", "** ii\n", "# n\n", "#_ n\n", "#7 n\n", "*(c) i\n",
];
const INLINE: &[&str] = &[
    "*a*", "_b_", "**c**", "__d__", "-e-", "+f+", "^g^", "~h~", "%i%", "??j??", "@k@", "==l==", "*{color:red}m*", "%(cl#id)n%",
    "%[fr]o%", "??:http://c.com q??", "[*r*]", "x[1]", "y[2!]", "z[12]", "[#x]", "w[#x!]", "[(c)#yy]", "\"l\":http://e.com/",
    "\"l(t)\":/rel", "\"$\":http://e.com/a", "[\"m\":u]", "\"(c)n\":al.", "\"o\":mailto:a@b.c", "\"p\":javascript:alert(1)",
    "[al]http://e.com/?a=1&b=2", "[u]/x", "!i.png!", "!>i.png(t)!", "!i.png!:http://e.com", "!{w:1}(c)i.png!", "![i.png!]",
    "!javascript:x!", "!a.png!:javascript:y", "http://e.com/?q[]=1", "\"q\":http://e.com/?q[]=1]", "\"r\":http://e.com/(a)).",
];
const HTML: &[&str] = &[
    "<b>", "</b>", "<br>", "<br />", "<br/>", "<hr>", "<hr />", "<div>", "</div>", "<p>", "</p>", "<pre>", "</pre>", "<code>", "</code>",
    "<notextile>", "</notextile>", "<!-- c -->", "<!--", "-->", "<script>", "</script>", "<a href=\"x\">", "</a>", "<img src='x'>",
    "<span class=\"c\">", "</span>", "<table>", "<li>", "</li>", "<ul>", "</ul>", "<td>", "</td>", "<dd>", "<x-y>", "<style>", "<svg/onload=x>",
    "<![CDATA[", "]]>", "<?php", "?>", "</", "<p", " onclick=\"x\" ", "\" onx=\" ", "' onx=' ", "javascript:", "data:text/html,x", "&#106;",
];
const ODD: &[&str] = &[
    "é", "İ", "ẞ", "ﬁ", "日本", "\u{301}", "\u{200d}", "\u{feff}", "\u{a0}", "\u{2028}", "\u{85}", "😀", "ж", "µ", "†", "•", "„", "“", "”", "‘", "’",
    "«", "»", "‹", "›", "€", "£5", "ǅ", "²", "Ⅷ", "٣", "\u{0}", "\u{b}", "\u{c}", "\u{1b}", "\u{7f}", "𝔘", "ÀÉÎ",
];
const TOKENS: &[&str] = &["textileRef:", "UID", "textileRef:UID:", ":shelve", "1:shelve", ":url", "1:url", "1:ospan ", " 2:cspan", "linkStartMarker:\"", ":glyph:", "textileRef:UID:1:shelve"];

pub struct Fixture {
    pub input: String,
}
pub fn corpus() -> &'static Vec<Fixture> {
    static C: OnceLock<Vec<Fixture>> = OnceLock::new();
    C.get_or_init(|| {
        let v: serde_json::Value = serde_json::from_str(include_str!("../../corpus.json")).expect("corpus");
        v.as_array()
            .unwrap()
            .iter()
            .map(|x| Fixture { input: x["input"].as_str().unwrap().to_string() })
            .filter(|f| f.input.len() < 3000)
            .collect()
    })
}

/// Something short and unfriendly, for the places inside of a construct.
fn bit(s: &mut Src) -> String {
    const BITS: &[&str] = &[
        "\"", "'", "'\"", "\"'", "<", ">", "&", "\" onx=\"", "' onx='", "><b>", "</a>", "\" '", "=", "/", "#", "%", "(", ")", "[", "]", "{", "}", "|", "!", "*", "_", "@", ":", ";", ".", ",", "-", "+", "?", "$", "\\", "`", "&quot;", "&#39;",
        "&lt;", " ", "\t", "http://e.com/", "javascript:x", "data:x", "a:b", "color:red", "color:red;", "en", "fr-FR", "a b", "c#d", "#e", "1", "23", "100", "4294967296", "é", "日", "\u{a0}", "İ", "<!--", "-->", "<script>",
    ];
    let n = s.weighted(&[1, 6, 4, 2]);
    let mut t = String::new();
    for _ in 0..n {
        if s.chance(1, 3) {
            t.push_str(&words::ascii(s));
        } else {
            t.push_str(s.pick(BITS));
        }
    }
    t
}

fn slot(s: &mut Src) -> String {
    match s.below(3) {
        0 => words::ascii(s),
        _ => bit(s),
    }
}

fn attrs(s: &mut Src) -> String {
    let n = s.weighted(&[5, 5, 3, 1]);
    let mut t = String::new();
    for _ in 0..n {
        match s.below(9) {
            0 | 1 => t.push_str(&format!("({})", slot(s))),
            2 => t.push_str(&format!("{{{}}}", slot(s))),
            3 => t.push_str(&format!("[{}]", slot(s))),
            4 => t.push_str(s.pick(&["<", ">", "=", "<>"])),
            5 => t.push_str(s.pick(&["(", "((", ")", "))", "()", ")("])),
            6 => t.push_str(s.pick(&["^", "-", "~"])),
            7 => t.push_str(&format!("\\{}", s.below(12))),
            _ => t.push_str(&format!("/{}", s.below(12))),
        }
    }
    t
}

fn url(s: &mut Src) -> String {
    let mut t = s.pick(&["http://e.com/", "https://e.com", "/", "a.png", "mailto:", "ftp://f.org/x", "data:", "tel:", "javascript:", "", "#", "?q=", "//e.com/", "HTTP://E.COM/", "file:///"]).to_string();
    t.push_str(&slot(s).replace(' ', "+"));
    t
}

fn inner(s: &mut Src, depth: u32) -> String {
    let n = s.range(1, 3);
    let mut v = vec![];
    for _ in 0..n {
        v.push(match s.below(4) {
            0 => bit(s),
            1 if depth > 0 => construct_at(s, depth - 1),
            _ => words::word(s),
        });
    }
    v.join(s.pick(&["", " ", " ", "\n"]))
}

/// One construct with anything at all in each of its places.
pub fn construct(s: &mut Src) -> String {
    construct_at(s, 2)
}

fn construct_at(s: &mut Src, depth: u32) -> String {
    let opt = |s: &mut Src, f: &dyn Fn(&mut Src) -> String| if s.chance(1, 3) { f(s) } else { String::new() };
    match s.below(16) {
        0 => format!("\n\n{}{}.{}{} {}", s.pick(&["p", "h1", "h2", "h6", "bq", "bc", "pre", "notextile", "###", "fn1", "fn2", "table"]), attrs(s), s.pick(&["", "", "."]), opt(s, &|s| format!(":{}", url(s))), inner(s, depth)),
        1 | 2 => {
            let d = s.pick(&["*", "**", "_", "__", "-", "+", "^", "~", "%", "??"]);
            format!("{}{}{}{}{}", d, attrs(s), opt(s, &|s| format!(":{} ", url(s))), inner(s, depth), d)
        }
        3 | 4 => format!("\"{}{}{}\":{}", attrs(s), inner(s, depth), opt(s, &|s| format!("({})", slot(s))), url(s)),
        5 | 6 => format!("!{}{}{}{}{}!{}", s.pick(&["", "", "<", ">", "="]), attrs(s), s.pick(&["", "", ". "]), url(s), opt(s, &|s| format!("({})", slot(s))), opt(s, &|s| format!(":{}", url(s)))),
        7 => format!("{}[{}{}]", words::word(s), s.below(14), s.pick(&["", "", "!"])),
        8 => format!("[{}#{}{}]", attrs(s), slot(s), s.pick(&["", "", "!"])),
        9 => format!("\n\nnote#{}{}{}. {}", slot(s), s.pick(&["", "!", "^", "*"]), attrs(s), inner(s, depth)),
        10 => format!("\n\nnotelist{}{}{}{}.\n\n", attrs(s), opt(s, &|s| format!(":{}", s.pick(&["1", "a", "z", "Z", "9", "α", "†", "•", "|", "é", "\u{d7fb}", "\u{10ffff}", "<", "&"]))), s.pick(&["", "^", "!"]), s.pick(&["", "+"])),
        11 => {
            let mut t = opt(s, &|s| format!("\n\ntable{}. {}", attrs(s), slot(s)));
            t.push('\n');
            let rows = s.range(1, 3);
            for _ in 0..rows {
                t.push_str(&opt(s, &|s| format!("{}. ", attrs(s))));
                t.push_str(&opt(s, &|s| format!("|{}{}.\n", s.pick(&["^", "-", "~", "=", ":"]), attrs(s))));
                let cells = s.range(1, 3);
                for _ in 0..cells {
                    t.push_str(&format!("|{}{}{}", s.pick(&["", "", "_", "_. "]), opt(s, &|s| format!("{}. ", attrs(s))), inner(s, depth)));
                }
                t.push_str("|\n");
            }
            t
        }
        12 => {
            let mut t = "\n".to_string();
            let items = s.range(1, 4);
            for _ in 0..items {
                t.push_str(&format!("{}{}{} {}\n", s.pick(&["*", "#", "**", "##", "*#", "#*", ";", ":", "***", "#_", "#4", "#99999999999999999999", "-"]), attrs(s), s.pick(&["", "", "."]), inner(s, depth)));
            }
            t
        }
        13 => format!("{}({})", s.pick(&["ABC", "HTML5", "ÀÉÎ", "A1B"]), slot(s)),
        14 => format!("\n[{}]{} ", slot(s), url(s)),
        _ => format!("{}{}{}", s.pick(&["@", "==", "<code>", "<pre>", "<notextile>", "<!--", "- a := "]), inner(s, depth), s.pick(&["@", "==", "</code>", "</pre>", "</notextile>", "-->", " =:"])),
    }
}

pub fn piece(s: &mut Src) -> String {
    match s.weighted(&[12, 14, 6, 8, 6, 3, 1, 10]) {
        7 => construct(s),
        0 => words::word(s),
        1 => s.pick(SYNTAX).to_string(),
        2 => s.pick(BLOCKS).to_string(),
        3 => s.pick(INLINE).to_string(),
        4 => s.pick(HTML).to_string(),
        5 => s.pick(ODD).to_string(),
        _ => s.pick(TOKENS).to_string(),
    }
}

pub fn pieces(s: &mut Src, max: u32) -> String {
    let n = s.range(1, max);
    let spacey = s.below(3);
    let mut out = String::new();
    for _ in 0..n {
        out.push_str(&piece(s));
        match spacey {
            0 => (),
            1 => {
                if s.chance(1, 3) {
                    out.push(' ')
                }
            }
            _ => {
                if s.chance(3, 4) {
                    out.push(' ')
                }
            }
        }
    }
    out
}

fn char_floor(t: &str, mut i: usize) -> usize {
    while !t.is_char_boundary(i) {
        i -= 1;
    }
    i
}

pub fn mutated_fixture(s: &mut Src) -> String {
    let c = corpus();
    let mut t = s.pick_of(c).input.clone();
    let n = s.range(0, 5);
    for _ in 0..n {
        let len = t.len() as u32;
        let at = char_floor(&t, s.below(len + 1) as usize);
        match s.below(5) {
            0 => {
                let p = piece(s);
                t.insert_str(at, &p);
            }
            1 => {
                // delete a short span
                let end = char_floor(&t, (at + s.range(1, 12) as usize).min(t.len()));
                if at < end {
                    t.replace_range(at..end, "");
                }
            }
            2 => {
                // duplicate a span elsewhere
                let end = char_floor(&t, (at + s.range(1, 40) as usize).min(t.len()));
                if at < end {
                    let chunk = t[at..end].to_string();
                    let len = t.len() as u32;
                    let to = char_floor(&t, s.below(len + 1) as usize);
                    t.insert_str(to, &chunk);
                }
            }
            3 => {
                // splice with another fixture
                let o = &s.pick_of(c).input;
                let len = o.len() as u32;
                let k = char_floor(o, s.below(len + 1) as usize);
                t = format!("{}{}{}", &t[..at], s.pick(&["", "\n", "\n\n", " "]), &o[k..]);
            }
            _ => {
                // replace one character class everywhere
                let a = s.pick(&["\n\n", "\n", " ", ".", "\"", "*", "a", "e", "|", "<"]);
                let b = s.pick(ODD);
                t = t.replacen(a, b, 1 + s.below(3) as usize);
            }
        }
        if t.len() > 4000 {
            let k = char_floor(&t, 4000);
            t.truncate(k);
        }
    }
    t
}

/// Any document at all.
pub fn any(s: &mut Src) -> String {
    match s.weighted(&[5, 3, 4]) {
        0 => pieces(s, 12),
        1 => pieces(s, 45),
        _ => mutated_fixture(s),
    }
}
