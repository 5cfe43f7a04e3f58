//! C20: typography.
use crate::blocks::*;
use crate::cfg::Cfg;
use crate::engine::*;
use crate::gen::words;
use crate::html::Node;
use crate::model::*;
use crate::src::Src;

/// A piece of a sentence: what is written, and what is shown.
type Piece = (String, Vec<Node>);

const CAPS: &[&str] = &["NASA", "HTML", "ABC", "ÉTÉ", "ОАЭ", "ABCDEFGH", "ΩΨΦ", "XYZ"];

/// A word of capitals, of any length.
fn cap_word(s: &mut Src) -> String {
    if s.chance(3, 4) {
        return s.pick(CAPS).to_string();
    }
    let abc: Vec<char> = s.pick(&["ABCDEFGHIJKLMNOPQRSTUVWXYZ", "АБВГДЕЖЗИЙКЛ", "ÀÉÎÕÜÇÑ", "ΑΒΓΔΕΖΗΘ"]).chars().collect();
    let n = if s.chance(1, 4) { s.range(9, 40) } else { s.range(3, 8) };
    (0..n).map(|_| *s.pick_of(&abc)).collect()
}

fn caps(w: &str) -> Node {
    el("span", vec![kv("class", "caps")], vec![tx(w)])
}

fn join(pieces: Vec<Piece>, sep: &str) -> Piece {
    let mut t = String::new();
    let mut n = Vec::new();
    for (i, (pt, pn)) in pieces.into_iter().enumerate() {
        if i > 0 {
            t.push_str(sep);
            n.push(tx(sep));
        }
        t.push_str(&pt);
        n.extend(pn);
    }
    (t, n)
}

fn lit(s: &str) -> Piece {
    (s.to_string(), vec![tx(s)])
}

/// Words in quotes, nested, maybe in brackets.
fn quoted(s: &mut Src, depth: u32, double: bool) -> Piece {
    let n = s.range(1, 3);
    let mut v = Vec::new();
    for i in 0..n {
        v.push(match s.below(7) {
            // (of three quotes in a row, the one in the middle is ambiguous)
            0 | 1 if depth > 0 => quoted(s, if i == 0 || i == n - 1 { 0 } else { depth - 1 }, !double),
            2 => {
                let w = format!("{}'{}", words::ascii(s), words::ascii(s));
                (w.clone(), vec![tx(&w.replace('\'', "’"))])
            }
            3 => {
                let w = cap_word(s);
                (w.clone(), vec![caps(&w)])
            }
            _ => lit(&words::word(s)),
        });
    }
    let (t, n) = join(v, " ");
    let (q, o, c) = if double { ("\"", "“", "”") } else { ("'", "‘", "’") };
    let mut nodes = vec![tx(o)];
    nodes.extend(n);
    nodes.push(tx(c));
    (format!("{}{}{}", q, t, q), nodes)
}

const BRACKETS: &[(&str, &str)] = &[("(", ")"), ("[", "]"), ("{", "}")];

/// `(in link: no double quotes)`
fn piece(s: &mut Src, c: &mut Ctx, cfg: &Cfg, quotes: bool) -> Piece {
    let w = words::ascii(s);
    let (b1, b2) = *s.pick_of(&[("(", ")"), ("[", "]")]);
    let k = s.weighted(&[4, 4, 2, 2, 2, 2, 2, 2, 2, 3, 3, 2, 3, 3, 2, 2, 3]);
    match k {
        0 => lit(&words::word(s)),
        1 if quotes => {
            c.label("quotes");
            let double = s.bool();
            quoted(s, 2, double)
        }
        2 if quotes => {
            c.label("quotes in brackets");
            let double = s.bool();
            let (t, mut n) = quoted(s, 1, double);
            let (o, e) = *s.pick_of(BRACKETS);
            n.insert(0, tx(o));
            n.push(tx(e));
            (format!("{}{}{}", o, t, e), n)
        }
        3 => {
            c.label("apostrophe");
            let t = format!("{}'{}", words::word(s), words::word(s));
            (t.clone(), vec![tx(&t.replace('\'', "’"))])
        }
        4 => {
            c.label("year");
            // (after a space; otherwise it would be an opening quote)
            let y = format!("{}{}", s.range(10, 99), s.pick(&["", "", "s"]));
            (format!("{} '{}", w, y), vec![tx(&format!("{} ’{}", w, y))])
        }
        5 => {
            c.label("em dash");
            let sep = s.pick(&["--", " -- "]);
            let v = words::word(s);
            (format!("{}{}{}", w, sep, v), vec![tx(&format!("{}{}{}", w, sep.replace("--", "—"), v))])
        }
        6 => {
            c.label("en dash");
            let v = words::word(s);
            (format!("{} - {}", w, v), vec![tx(&format!("{} – {}", w, v))])
        }
        7 => {
            c.label("ellipsis");
            let v = words::ascii(s);
            let t = match s.below(3) {
                0 => format!("{}...", w),
                1 => format!("{}...{}", w, v),
                _ => format!("{} ... {}", w, v),
            };
            (t.clone(), vec![tx(&t.replace("...", "…"))])
        }
        8 | 9 => {
            c.label("symbol");
            let (t, v) = *s.pick_of(&[("c", "©"), ("C", "©"), ("r", "®"), ("R", "®"), ("tm", "™"), ("TM", "™"), ("Tm", "™"), ("1/2", "½"), ("1/4", "¼"), ("3/4", "¾"), ("o", "°"), ("+/-", "±")]);
            let pre = match s.below(3) {
                0 => w,
                1 => format!("{} ", w),
                _ => format!("{} ", s.range(0, 99)),
            };
            (format!("{}{}{}{}", pre, b1, t, b2), vec![tx(&format!("{}{}", pre, v))])
        }
        10 => {
            c.label("dimension");
            if s.chance(1, 5) {
                let (a, b) = (s.range(1, 99), s.range(1, 99));
                let (t, h) = match s.below(5) {
                    0 => (format!("({}) x ({})", a, b), format!("({}) × ({})", a, b)),
                    1 => (format!("{} x ${}", a, b), format!("{} × ${}", a, b)),
                    2 => (format!("{} x €{}.5", a, b), format!("{} × €{}.5", a, b)),
                    3 => (format!("{} x +{}", a, b), format!("{} × +{}", a, b)),
                    _ => (format!("{}x+{}", a, b), format!("{}×+{}", a, b)),
                };
                return (t, vec![tx(&h)]);
            }
            let n = s.range(2, 4);
            let sep = s.pick(&["x", " x ", "X", " X "]);
            let unit = s.pick(&["", "", "\"", "'"]);
            let unit = if quotes { unit } else { "" };
            let mut v = Vec::new();
            for _ in 0..n {
                let f = if s.chance(1, 4) { format!(".{}", s.below(10)) } else { String::new() };
                v.push(format!("{}{}", s.range(0, 200), f));
            }
            let sep = if unit.is_empty() { sep } else { " x " };
            let t = v.iter().map(|x| format!("{}{}", x, unit)).collect::<Vec<_>>().join(sep);
            let shown = match unit {
                "\"" => "”",
                "'" => "’",
                _ => "",
            };
            let h = v.iter().map(|x| format!("{}{}", x, shown)).collect::<Vec<_>>().join(&sep.to_lowercase().replace('x', "×"));
            (t, vec![tx(&h)])
        }
        11 => {
            c.label("caps");
            let w = cap_word(s);
            match s.below(8) {
                0 => {
                    let t = s.pick(&["s", "er", "é", "ов"]);
                    (format!("{}{}", w, t), vec![caps(&w), tx(t)])
                }
                1 => (format!("({})", w), vec![tx("("), caps(&w), tx(")")]),
                2 => {
                    let v = words::ascii(s);
                    (format!("{}-{}", v, w), vec![tx(&format!("{}-", v)), caps(&w)])
                }
                _ => (w.clone(), vec![caps(&w)]),
            }
        }
        12 => {
            c.label("acronym");
            let w = cap_word(s);
            let mut title = words::phrase(s, 1, 3);
            if s.chance(1, 4) {
                title.push_str(s.pick(&[", x", "; y", " 12", ": z", ". A"]));
            }
            let name = if cfg.xhtml { "acronym" } else { "abbr" };
            if s.chance(1, 4) {
                // (not only capitals)
                let w = s.pick(&["W3C", "MP3", "HTML5", "B2B", "ISO8601", "H264AVC", "Ж10"]);
                (format!("{}({})", w, title), vec![el(name, vec![kv("title", &title)], vec![tx(w)])])
            } else {
                (format!("{}({})", w, title), vec![el(name, vec![kv("title", &title)], vec![caps(&w)])])
            }
        }
        13 => {
            c.label("left alone");
            // close to the forms above, but not them
            let t = match s.below(14) {
                0 => format!("{}-{}", w, words::ascii(s)),
                1 => format!("{}-{}", s.range(1900, 2000), s.range(2001, 2100)),
                2 => format!("{}..{}", w, words::ascii(s)),
                3 => s.pick(&["AB", "A", "Abc", "ABc", "aBCD", "A1", "IBMer2"]).to_string(),
                4 => format!("{} (d)", w),
                5 => format!("{} (1/3)", w),
                6 => format!("{} 1/2", s.range(2, 9)),
                7 => format!("{} {}x {}", words::ascii(s), s.range(2, 9), w),
                8 => format!("{} x{} {}", words::ascii(s), s.range(2, 9), w),
                9 => format!("{} x {}", w, words::ascii(s)),
                10 => format!("{} (tmc)", w),
                11 => format!("Ab({})", w),
                12 => format!("{}(c{})", w, words::ascii(s)),
                _ => format!("{} +/- {}", s.range(2, 9), s.range(2, 9)),
            };
            lit(&t)
        }
        14 => {
            c.label("ampersand");
            let t = format!("{} & {}", w, words::ascii(s));
            lit(&t)
        }
        15 if quotes => {
            c.label("quote next to a span");
            let (d, name) = *s.pick_of(&[("*", "strong"), ("_", "em"), ("-", "del"), ("~", "sub")]);
            let v = words::ascii(s);
            let (q, o, e) = *s.pick_of(&[("\"", "“", "”"), ("'", "‘", "’")]);
            if s.bool() {
                (format!("{q}{d}{w}{d} {v}{q}"), vec![tx(o), el(name, vec![], vec![tx(&w)]), tx(&format!(" {}{}", v, e))])
            } else {
                (format!("{q}{v} {d}{w}{d}{q}"), vec![tx(&format!("{}{} ", o, v)), el(name, vec![], vec![tx(&w)]), tx(e)])
            }
        }
        16 => {
            c.label("mark in a span");
            let (d, name) = *s.pick_of(&[("*", "strong"), ("_", "em"), ("%", "span")]);
            let (t, v) = *s.pick_of(&[("it's", "it’s"), ("a -- b", "a — b"), ("a...", "a…"), ("a(c)", "a©"), ("2 x 4", "2 × 4"), ("'a'", "‘a’")]);
            (format!("{d}{t}{d}"), vec![el(name, vec![], vec![tx(v)])])
        }
        _ => lit(&words::word(s)),
    }
}

/// A sentence that starts with a word.
fn sentence(s: &mut Src, c: &mut Ctx, cfg: &Cfg, quotes: bool) -> Piece {
    let mut v = vec![lit(&words::ascii(s))];
    let n = s.range(1, 5);
    for _ in 0..n {
        let mut p = piece(s, c, cfg, quotes);
        let last = p.0.chars().last();
        if s.chance(1, 4) && last != Some('.') {
            let m = s.pick(&[",", ";", "?"]);
            if !(m == "?" && last == Some('?')) {
                p.0.push_str(m);
                p.1.push(tx(m));
            }
        }
        v.push(p);
    }
    join(v, " ")
}

fn sentences(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = super::plain_cfg(s);
    let place = s.below(14);
    let (t, n) = sentence(s, c, &cfg, place != 7);
    let (t2, n2) = sentence(s, c, &cfg, true);
    let w = words::ascii(s);
    let p = |k: Vec<Node>| el("p", vec![], k);
    let cat = |a: Vec<Node>, b: Node, d: Vec<Node>| {
        let mut a = a;
        a.push(b);
        a.extend(d);
        a
    };
    let br = || el("br", vec![], vec![]);
    let mut cfg = cfg;
    let (text, want) = match place {
        0 => (t, vec![p(n)]),
        1 => (format!("h{}. {}", 3, t), vec![el("h3", vec![], n)]),
        2 => (format!("{}\n{}", t, t2), vec![p(cat(n, br(), n2))]),
        3 => (format!("* {}\n* {}", t, t2), vec![el("ul", vec![], vec![el("li", vec![], n), el("li", vec![], n2)])]),
        4 => (format!("|{}|{}|", t, t2), vec![el("table", vec![], vec![el("tr", vec![], vec![el("td", vec![], n), el("td", vec![], n2)])])]),
        5 => (format!("bq. {}", t), vec![el("blockquote", vec![], vec![p(n)])]),
        6 => (format!("- {} := {}", w, t), vec![el("dl", vec![], vec![el("dt", vec![], vec![tx(&w)]), el("dd", vec![], n)])]),
        7 => {
            let mut a = vec![kv("href", "/u")];
            if let Some(r) = &cfg.rel {
                a.push(kv("rel", r));
            }
            // (brackets at the end would be the title)
            let n = cat(n, tx(&format!(" {}", w)), vec![]);
            (format!("{} \"{} {}\":/u", w, t, w), vec![p(vec![tx(&w), tx(" "), el("a", a, n)])])
        }
        8 => (format!("; {}\n: {}", t, t2), vec![el("dl", vec![], vec![el("dt", vec![], n), el("dd", vec![], n2)])]),
        9 => (format!("{}\n\n{}", t, t2), vec![p(n), p(n2)]),
        10 => (format!("# {}\n## {}", t, t2), vec![el("ol", vec![], vec![el("li", vec![], cat(n, el("ol", vec![], vec![el("li", vec![], n2)]), vec![]))])]),
        11 => {
            // line-by-line in the lite mode, too
            cfg.lite = true;
            (t, vec![p(n)])
        }
        12 => (format!("|_. {}|\n|{}|", t, t2), vec![el("table", vec![], vec![el("tr", vec![], vec![el("th", vec![], n)]), el("tr", vec![], vec![el("td", vec![], n2)])])]),
        _ => (format!("p(k). {}", t), vec![el("p", if cfg.restricted { vec![] } else { vec![kv("class", "k")] }, n)]),
    };
    c.nontrivial = c.labels_any();
    expect_nodes(c, &cfg, &text, &want)?;
    Ok(())
}

/// Typography stays out of code, raw blocks and attribute values.
fn verbatim(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    const RAW: &[&str] = &["it's", "'q'", "a -- b", "a - b", "...", "(c)", "(tm)", "2 x 4", "[1/2]", "NASA", "ABC(d e)", "'88", "(o)", "x...y"];
    let cfg = super::plain_cfg(s);
    let n = s.range(1, 4);
    let mut t = words::ascii(s);
    for _ in 0..n {
        t.push(' ');
        t.push_str(s.pick(RAW));
    }
    let place = s.below(9);
    // brackets of their own end titles
    let t = if place >= 5 { t.replace(['(', ')', '[', ']'], "").replace("!", "") } else { t };
    let w = words::ascii(s);
    let p = |k: Vec<Node>| el("p", vec![], k);
    let a = |v: Vec<(&str, &str)>| {
        let mut v: Vec<_> = v.into_iter().map(|(k, x)| kv(k, x)).collect();
        if let Some(r) = &cfg.rel {
            v.push(kv("rel", r));
        }
        v
    };
    let (text, want) = match place {
        0 => (format!("{} @{}@", w, t), vec![p(vec![tx(&w), tx(" "), el("code", vec![], vec![tx(&t)])])]),
        1 => (format!("bc. {}", t), vec![el("pre", vec![], vec![el("code", vec![], vec![tx(&t)])])]),
        2 => (format!("pre. {}", t), vec![el("pre", vec![], vec![tx(&t)])]),
        3 => (format!("notextile. {}", t), vec![tx(&t)]),
        4 => (format!("{} =={}==", w, t), vec![p(vec![tx(&w), tx(" "), tx(&t)])]),
        5 => (format!("\"{}({})\":/u", w, t), vec![p(vec![el("a", a(vec![("href", "/u"), ("title", &t)]), vec![tx(&w)])])]),
        6 => (format!("{} !/i.png({})!", w, t), vec![p(vec![tx(&w), tx(" "), el("img", vec![kv("alt", &t), kv("src", "/i.png"), kv("title", &t)], vec![])])]),
        7 => {
            let q = t.replace(' ', "_").replace('\'', "");
            (format!("\"{}\":/u?{}=1", w, q), vec![p(vec![el("a", a(vec![("href", &format!("/u?{}=1", q))]), vec![tx(&w)])])])
        }
        _ => {
            let q = t.replace(' ', "_").replace('\'', "").replace("...", "");
            (format!("{} !/u/{}.png!", w, q), vec![p(vec![tx(&w), tx(" "), el("img", vec![kv("alt", ""), kv("src", &format!("/u/{}.png", q))], vec![])])])
        }
    };
    c.nontrivial = true;
    expect_nodes(c, &cfg, &text, &want)?;
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C20",
    rule: "the sentence has at least one typographic form (or a form that must be left alone)",
    assumptions: &[],
    subs: &[
        Sub { name: "sentences", quick: 30_000, thorough: 400_000, f: sentences },
        Sub { name: "verbatim", quick: 20_000, thorough: 200_000, f: verbatim },
    ],
};
