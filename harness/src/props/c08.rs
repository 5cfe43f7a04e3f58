//! C08: the words of a text survive, once each and in their order.
use crate::cfg::Cfg;
use crate::engine::*;
use crate::html::{browser_tokens, Tok};
use crate::src::Src;

fn visible(out: &str) -> String {
    let mut t = String::new();
    for k in browser_tokens(out) {
        match k {
            Tok::Text(x) => t.push_str(&x),
            Tok::Open { name, .. } | Tok::Close { name } if name != "span" && name != "b" => t.push(' '),
            _ => (),
        }
    }
    t
}

fn check(c: &mut Ctx, cfg: &Cfg, text: &str, n: usize) -> Result<(), Fail> {
    let out = c.parse(cfg, text)?;
    let v = visible(&out);
    let mut at = 0;
    for i in 0..n {
        let w = word(i);
        match v[at..].find(&w) {
            Some(p) => at += p + w.len(),
            None => {
                let sig = if v.contains(&w) { "order" } else { "lost" };
                return fail(sig, format!("{:?} is {} in {:?}", w, if sig == "lost" { "missing" } else { "out of place" }, out));
            }
        }
        if v.matches(&w).count() != 1 {
            return fail("repeated", format!("{:?} is repeated in {:?}", w, out));
        }
    }
    Ok(())
}

fn word(i: usize) -> String {
    // distinct, none a part of another
    let a = (b'a' + (i % 20) as u8) as char;
    let b = (b'a' + (i / 20 % 20) as u8) as char;
    let d = if i < 400 { String::new() } else { ((b'a' + (i / 400 % 20) as u8) as char).to_string() };
    format!("w{}{}{}w", a, b, d)
}

const INLINE: &[&str] = &[
    "*", "_", "**", "__", "-", "+", "^", "~", "%", "??", "@", "\"", "'", ",", ".", "!", "?", ";", ":", "...", "--", "(c)", "(tm)", " x ", "&", " < ", " > ", "/", "=", "$", "é", "“", "1", "3", "#", "\\",
];
const GLUE: &[&str] = &[" ", " ", " ", "\n", "", "  "];
const STARTS: &[&str] = &[
    "", "", "", "h1. ", "h3(k). ", "p. ", "p=. ", "p{color:red}. ", "bq. ", "bq.. ", "bc. ", "bc.. ", "pre. ", "* ", "** ", "# ", "#_ ", "#5 ", "; ", ": ", "- ", "p[fr]. ", "fn1. ", "p((. ", " ", "\t", "*(k) ",
];

/// Words among markup characters, balanced or not, in blocks of all kinds.
fn inline_soup(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg { sanitize: false, ..Cfg::any(s) };
    let most = if s.chance(1, 60) { 300 } else { 14 };
    let n = s.range(1, most) as usize;
    let mut text = String::new();
    let mut i = 0;
    let mut marks = 0;
    while i < n {
        if text.is_empty() || s.chance(1, 6) {
            if !text.is_empty() {
                text.push_str(s.pick(&["\n\n", "\n\n", "\n\n\n", "\n"]));
            }
            text.push_str(s.pick(STARTS));
        } else {
            text.push_str(s.pick(GLUE));
        }
        let k = s.below(3);
        for _ in 0..k {
            text.push_str(s.pick(INLINE));
            marks += 1;
        }
        text.push_str(&word(i));
        i += 1;
        if s.chance(1, 2) {
            text.push_str(s.pick(INLINE));
            marks += 1;
        }
    }
    c.nontrivial_if(marks > 1 && n > 2);
    // no link or citation addresses, no images
    if cfg.images {
        text = text.replace('!', "");
    }
    for w in [":w", ":*", ":_", ":-", ":+", ":^", ":~", ":%", ":?", ":@", ":=", ":\"", ":'", ":.", ":,", ":;", ":/", ":\\", ":$", ":#", ":&", ":(", ":1", ":3", ":é", ":“", "::"] {
        text = text.replace(w, &format!(": {}", &w[1..]));
    }
    check(c, &cfg, &text, n)
}

/// Words in all places that can hold them: phrases, links, cells, items.
fn places(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg { sanitize: false, block_tags: true, ..Cfg::any(s) };
    let most = if s.chance(1, 60) { 60 } else { 4 };
    let n = s.range(1, most);
    let mut i = 0;
    fn bit(s: &mut Src, i: &mut usize) -> String {
        let mut w = || {
            *i += 1;
            word(*i - 1)
        };
        match s.below(20) {
            0 => format!("*{}*", w()),
            1 => format!("_{} {}_", w(), w()),
            2 => format!("@{}@", w()),
            3 => format!("\"{}\":http://e.com/", w()),
            4 => format!("\"{} {}(t)\":/x", w(), w()),
            5 => format!("=={}==", w()),
            6 => format!("<b>{}</b>", w()),
            7 => format!("{}[1]", w()),
            8 => format!("({} {})", w(), w()),
            9 => format!("[{}]", w()),
            10 => format!("%(c#i){{color:red}}{}%", w()),
            11 => format!("{}[*{}*]{}", w(), w(), w()),
            12 => format!("\"{}\"", w()),
            13 => format!("<code>{}</code>", w()),
            14 => format!("ABC({}) {}", "def", w()),
            15 => format!("-{}", w()),
            16 => format!("{}*", w()),
            17 => format!("\"*{}* {}\":http://e.com/?a=1&b=(2).", w(), w()),
            18 => format!("<notextile>{}</notextile>", w()),
            _ => w(),
        }
    }
    fn line(s: &mut Src, i: &mut usize) -> String {
        let k = s.range(1, 3);
        // starts with a word so that it is not taken for something else
        *i += 1;
        let mut v = vec![word(*i - 1)];
        v.extend((0..k).map(|_| bit(s, i)));
        v.join(" ")
    }
    let mut blocks = vec![];
    for _ in 0..n {
        blocks.push(match s.below(12) {
            0 => {
                let rows = s.range(1, 3);
                let cols = s.range(1, 3);
                let head = s.pick(&["", "", "table. s\n", "table(c){width:1px}.\n"]);
                head.to_string()
                    + &(0..rows)
                        .map(|_| {
                            let mut r = String::new();
                            for _ in 0..cols {
                                r.push('|');
                                r.push_str(s.pick(&["", "", "_. ", "\\2. ", "/2. ", "(c). ", "^. ", ">. ", " "]));
                                r.push_str(&line(s, &mut i));
                                if s.chance(1, 6) {
                                    r.push('\n');
                                    r.push_str(&line(s, &mut i));
                                }
                            }
                            r + "|"
                        })
                        .collect::<Vec<_>>()
                        .join("\n")
            }
            1 => (0..s.range(1, 4)).map(|k| format!("{} {}", if k > 0 { s.pick(&["*", "**", "*#"]) } else { "*" }, line(s, &mut i))).collect::<Vec<_>>().join("\n"),
            2 => (0..s.range(1, 4)).map(|k| format!("{} {}", if k > 0 { s.pick(&["#", "##", "#*"]) } else { "#" }, line(s, &mut i))).collect::<Vec<_>>().join("\n"),
            3 => format!("; {}\n: {}", line(s, &mut i), line(s, &mut i)),
            4 => format!("- {} := {}\n- {} :=\n{}\n{} =:", line(s, &mut i), line(s, &mut i), line(s, &mut i), line(s, &mut i), line(s, &mut i)),
            5 => format!("bq.. {}\n\n{}\n\np. {}", line(s, &mut i), line(s, &mut i), line(s, &mut i)),
            6 => format!("bc.. {}\n\n\n{}\n{}\n\np. {}", line(s, &mut i), line(s, &mut i), line(s, &mut i), line(s, &mut i)),
            7 => format!("h{}. {}", s.range(1, 6), line(s, &mut i)),
            8 => format!("{}\n{}", line(s, &mut i), line(s, &mut i)),
            9 => format!("<div>\n\n{}\n\n</div>", line(s, &mut i)),
            10 => format!("fn{}. {}", s.range(1, 4), line(s, &mut i)),
            _ => line(s, &mut i),
        });
    }
    c.nontrivial_if(i > 3);
    check(c, &cfg, &blocks.join("\n\n"), i)
}

pub static PROP: Prop = Prop {
    id: "C08",
    rule: "a case is an arrangement of unique words among markup; non-trivial: at least two marks and three words (soup), four words (places)",
    assumptions: &[],
    subs: &[
        Sub { name: "soup", quick: 30_000, thorough: 800_000, f: inline_soup },
        Sub { name: "places", quick: 15_000, thorough: 400_000, f: places },
    ],
};
