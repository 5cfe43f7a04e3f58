//! C21: raw HTML passes through; raw blocks.
use crate::blocks::*;
use crate::cfg::Cfg;
use crate::engine::*;
use crate::gen::words;
use crate::html::Node;
use crate::model::*;
use crate::src::Src;

const INLINE: &[&str] = &["b", "i", "u", "em", "strong", "span", "small", "big", "mark", "kbd", "abbr", "q", "var", "tt", "bdo", "dfn", "samp", "time", "label", "font"];
const BLOCK: &[&str] = &["div", "p", "h1", "h4", "section", "article", "aside", "address", "header", "footer", "nav", "form", "fieldset", "details", "figure", "main", "blockquote"];
const OTHER: &[&str] = &["foo", "txp", "custom", "center", "marquee", "bar7", "option", "dt", "widget"];
const PHRASING: &[&str] = &["b", "em", "span", "strong", "cite", "small", "q", "a", "del", "mark", "kbd", "samp", "sub", "sup", "ins", "i", "abbr", "label", "button", "time", "var"];

/// Typography and Textile look-alikes that must stay as they are in a value.
const VALUES: &[&str] = &["a -- b", "it's", "(c)", "x - y", "2 x 4", "NASA", "a...", "#anchor", "a &amp; b", "&#233;", "AB(c)", "http://e.com/?a=1&amp;b=2", "é ж", "1px;", "/img/x_y.png", "{x}", "a|b", "p. x", "(tm)", "\\", "$1", "h1. x"];

fn attrs(s: &mut Src, cell: bool) -> (String, Vec<(String, String)>) {
    let mut t = String::new();
    let mut v = vec![];
    for name in ["class", "title", "data-x", "style", "href", "onclick"] {
        if !s.chance(1, 5) {
            continue;
        }
        let mut val = match s.below(3) {
            0 => words::ident(s),
            1 => s.pick(VALUES).to_string(),
            _ => format!("{} {}", words::word(s), s.pick(VALUES)),
        };
        if cell {
            val = val.replace('|', "");
        }
        // (a single quote cannot be in single quotes)
        let q = if val.contains('\'') || s.chance(3, 4) { '"' } else { '\'' };
        t.push_str(&format!(" {}={}{}{}", name, q, val, q));
        v.push((name.to_string(), val.replace("&amp;", "&").replace("&#233;", "é")));
    }
    (t, v)
}

/// A text with a little of Textile in it.
fn text(s: &mut Src) -> (String, Vec<Node>) {
    let a = words::ascii(s);
    let b = words::word(s);
    match s.below(7) {
        0 => (format!("{} *{}*", a, b), vec![tx(&format!("{} ", a)), el("strong", vec![], vec![tx(&b)])]),
        1 => (format!("_{}_ {}", a, b), vec![el("em", vec![], vec![tx(&a)]), tx(&format!(" {}", b))]),
        2 => (format!("{}'{} -- (c)", a, b), vec![tx(&format!("{}’{} — ©", a, b))]),
        3 => (format!("{} @<{}>@", a, b), vec![tx(&format!("{} ", a)), el("code", vec![], vec![tx(&format!("<{}>", b))])]),
        4 => (format!("*{}*", a), vec![el("strong", vec![], vec![tx(&a)])]),
        5 => (format!("{} < {}", a, b), vec![tx(&format!("{} < {}", a, b))]),
        _ => (format!("{} {}", a, b), vec![tx(&format!("{} {}", a, b))]),
    }
}

fn inner(s: &mut Src, depth: u32, names: &[&str], cell: bool) -> (String, Vec<Node>) {
    let name = s.pick(names);
    let (at, av) = attrs(s, cell);
    let (t, n) = if depth > 0 && s.chance(1, 3) {
        let (t, n) = text(s);
        let (t2, n2) = inner(s, depth - 1, INLINE, cell);
        let mut k = n;
        k.push(tx(" "));
        k.extend(n2);
        (format!("{} {}", t, t2), k)
    } else {
        text(s)
    };
    (format!("<{}{}>{}</{}>", name, at, t, name), vec![el(name, av, n)])
}

fn inline_tags(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg { restricted: false, raw_blocks: s.chance(1, 4), ..super::plain_cfg(s) };
    let place = s.below(6);
    let mut t = words::ascii(s);
    let mut n = vec![tx(&t)];
    let k = s.range(1, 3);
    for _ in 0..k {
        t.push(' ');
        n.push(tx(" "));
        let (pt, pn) = match s.weighted(&[5, 2, 2, 1, 1]) {
            0 => inner(s, 1, INLINE, place == 3),
            1 => text(s),
            2 => {
                c.label("comment");
                let w = comment(s, place == 3);
                (format!("<!--{}-->", w), vec![Node::Comment(w)])
            }
            3 => {
                c.label("void");
                let (at, av) = attrs(s, place == 3);
                let end = s.pick(&[">", " />"]);
                (format!("<img src=\"/i.png\"{}{}", at, end), vec![el("img", { let mut v = vec![kv("src", "/i.png")]; v.extend(av); v }, vec![])])
            }
            _ => {
                c.label("code tag");
                let w = format!("{} *{}* <b> & \"", words::ascii(s), words::ascii(s));
                (format!("<code>{}</code>", w), vec![el("code", vec![], vec![tx(&w)])])
            }
        };
        t.push_str(&pt);
        n.extend(pn);
        t.push_str(" go");
        n.push(tx(" go"));
    }
    let p = |k: Vec<Node>| el("p", vec![], k);
    let (src, want) = match place {
        0 => (t, vec![p(n)]),
        1 => (format!("h2. {}", t), vec![el("h2", vec![], n)]),
        2 => (format!("* {}\n* x", t), vec![el("ul", vec![], vec![el("li", vec![], n), el("li", vec![], vec![tx("x")])])]),
        3 => (format!("|{}|x|", t), vec![el("table", vec![], vec![el("tr", vec![], vec![el("td", vec![], n), el("td", vec![], vec![tx("x")])])])]),
        4 => (format!("bq. {}", t), vec![el("blockquote", vec![], vec![p(n)])]),
        _ => (format!("{}\nx", t), vec![p({ let mut n = n; n.push(el("br", vec![], vec![])); n.push(tx("x")); n })]),
    };
    c.nontrivial = true;
    expect_nodes(c, &cfg, &src, &want)?;
    Ok(())
}

fn comment(s: &mut Src, cell: bool) -> String {
    const BITS: &[&str] = &["*a*", "\"q\"", "it's", "(c)", "a - b", "NASA", "<b>x</b>", "&", "&amp;", "_e_", "@c@", "!i.png!", "\"a\":/u", "[1]", "==x==", "...", "<span title=\"x\">", "h1. x", "|a|b|", "http://a.com", "<br>"];
    let n = s.range(1, 4);
    let mut t = String::from(" ");
    for _ in 0..n {
        if s.bool() {
            t.push_str(&words::word(s));
            t.push(' ');
        }
        let b = s.pick(BITS);
        // (line breaks are normalised everywhere; cells end at bars)
        if !(cell && b.contains('|')) && b != "<br>" && b != "@c@" && b != "==x==" {
            t.push_str(b);
            t.push(' ');
        }
    }
    t
}

/// Blocks in a tag of their own.
fn block_tags(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg { restricted: false, raw_blocks: s.bool(), ..super::plain_cfg(s) };
    let k = s.range(1, 4);
    let mut t = vec![];
    let mut want = vec![];
    for _ in 0..k {
        let (bt, bn) = match s.weighted(&[3, 3, 3, 1, 1, 1, 2, 1]) {
            0 => {
                let (t, n) = text(s);
                (t, vec![el("p", vec![], n)])
            }
            1 => {
                c.label("block tag");
                inner(s, 1, BLOCK, false)
            }
            2 if cfg.raw_blocks => {
                c.label("raw block");
                return_raw(s)
            }
            2 => {
                c.label("other tag");
                inner(s, 1, OTHER, false)
            }
            3 => {
                c.label("divider");
                let k = if s.chance(1, 3) { s.range(2, 4) } else { 1 };
                let (mut t, mut n) = (String::new(), vec![]);
                for _ in 0..k {
                    let x = s.pick(&["<hr>", "<hr />", "<hr class=\"a *b* c\">", "<img src=\"/i_a_.png\" alt=\"it's -- NASA\">", "<img src=\"/i.png\" />"]);
                    t.push_str(x);
                    n.push(if x.contains("<img") {
                        el("img", if x.contains("alt") { vec![kv("src", "/i_a_.png"), kv("alt", "it's -- NASA")] } else { vec![kv("src", "/i.png")] }, vec![])
                    } else {
                        el("hr", if x.contains("class") { vec![kv("class", "a *b* c")] } else { vec![] }, vec![])
                    });
                }
                c.label_if(k > 1, "dividers");
                (t, n)
            }
            4 => {
                c.label("pre");
                let w = format!("{}\n*{}* <b> & \"x\" -- (c)", words::ascii(s), words::ascii(s));
                (format!("<pre>{}</pre>", w), vec![el("pre", vec![], vec![tx(&w)])])
            }
            5 => {
                c.label("comment");
                let w = comment(s, false);
                (format!("<!--{}-->", w), vec![Node::Comment(w)])
            }
            6 => {
                c.label("phrasing tag");
                let (t, n) = inner(s, 1, PHRASING, false);
                (t, vec![el("p", vec![], n)])
            }
            _ => {
                c.label("list of tags");
                let (a, b) = (words::ascii(s), words::ascii(s));
                (format!("<ul>\n<li>*{}*</li>\n<li>{}</li>\n</ul>", a, b), vec![el("ul", vec![], vec![el("li", vec![], vec![el("strong", vec![], vec![tx(&a)])]), el("li", vec![], vec![tx(&b)])])])
            }
        };
        t.push(bt);
        want.extend(bn);
    }
    c.nontrivial = c.labels_any();
    expect_nodes(c, &cfg, &t.join("\n\n"), &want)?;
    Ok(())
}

fn return_raw(s: &mut Src) -> (String, Vec<Node>) {
    let name = s.pick(OTHER);
    let (at, av) = attrs(s, false);
    const BITS: &[&str] = &["*a*", "'x'", "\"q\"", "--", "(c)", "NASA", "@c@", "!i.png!", "\"a\":/u", "==x==", "|a|b|", "\n* x", "[1]", "...", "h1. x", "\nbq. y"];
    let mut w = words::ascii(s);
    let n = s.range(1, 4);
    for _ in 0..n {
        w.push(' ');
        w.push_str(s.pick(BITS));
    }
    (format!("<{}{}>{}</{}>", name, at, w, name), vec![el(name, av, vec![tx(&w)])])
}

pub static PROP: Prop = Prop {
    id: "C21",
    rule: "the text has at least one raw tag or comment",
    assumptions: &[],
    subs: &[
        Sub { name: "inline", quick: 30_000, thorough: 400_000, f: inline_tags },
        Sub { name: "blocks", quick: 30_000, thorough: 400_000, f: block_tags },
    ],
};
