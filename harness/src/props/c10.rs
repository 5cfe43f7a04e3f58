//! C10: the output is well-formed HTML with everything escaped.
use crate::blocks::*;
use crate::cfg::Cfg;
use crate::engine::*;
use crate::gen::words;
use crate::html::Node;
use crate::model::*;
use crate::src::Src;

/// Whole documents of all constructs, nested.
fn documents(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = super::plain_cfg(s);
    let most = if s.chance(1, 200) { 100 } else { 8 };
    let d = doc(s, cfg.restricted, most, ALL);
    let mut kinds: Vec<_> = d.iter().map(|b| b.kind()).collect();
    kinds.sort();
    kinds.dedup();
    for k in &kinds {
        c.label(k);
    }
    c.nontrivial_if(kinds.len() > 1);
    expect_nodes(c, &cfg, &doc_textile(&d), &doc_html(&d, &cfg))?;
    Ok(())
}

const SPECIAL: &[&str] = &[
    "&", "&&", "<", ">", "<<", ">>", "<=", ">=", "=>", "a&b", "AT&T", "&x", "x&", "&;", "&#;", "&#x;", "&-", "<-", "<>", "a>b", "a&b&c", "&1", "&#12a;", "(&)", "[<]", "{>}", "& &", "< <", "\\", "/", "`", "#", "$", "%", "=", ";", "~", "|",
];

/// References that are already there, and what they stand for.
const REFS: &[(&str, &str)] = &[("&amp;", "&"), ("&lt;", "<"), ("&gt;", ">"), ("&quot;", "\""), ("&#38;", "&"), ("&#60;b&#62;", "<b>"), ("&#x3c;", "<"), ("&#169;", "©"), ("&#8212;", "—"), ("&#xe9;", "é"), ("&frac12;", "½"), ("&sup2;", "²"), ("&frac34;", "¾"), ("&there4;", "∴"), ("&copy;", "©"), ("&hellip;", "…"), ("&Eacute;", "É"), ("&sup1;x", "¹x"), ("&#0060;", "<"), ("&#x00E9;", "é"), ("&#128512;", "😀")];

fn specials(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg { restricted: s.bool(), ..super::plain_cfg(s) };
    // words with special characters between them
    let sentence = |s: &mut Src, cell: bool| -> (String, String) {
        let n = s.range(1, 4);
        let mut t = words::ascii(s);
        let mut shown = t.clone();
        for _ in 0..n {
            t.push(' ');
            shown.push(' ');
            if s.chance(1, 3) {
                let (r, v) = *s.pick_of(REFS);
                t.push_str(r);
                shown.push_str(if cfg.restricted { r } else { v });
            } else {
                let mut x = s.pick(SPECIAL);
                if cell && x == "|" {
                    x = "&";
                }
                t.push_str(x);
                shown.push_str(x);
            }
            let w = words::ascii(s);
            t.push(' ');
            t.push_str(&w);
            shown.push(' ');
            shown.push_str(&w);
        }
        (t, shown)
    };
    let place = s.below(9);
    let (t, v) = sentence(s, place == 3);
    let (t2, v2) = sentence(s, place == 3);
    let p = |k: Vec<Node>| el("p", vec![], k);
    let br = || el("br", vec![], vec![]);
    let (text, want) = match place {
        0 => (t.clone(), vec![p(vec![tx(&v)])]),
        1 => (format!("h2. {}", t), vec![el("h2", vec![], vec![tx(&v)])]),
        2 => (format!("* {}\n* {}", t, t2), vec![el("ul", vec![], vec![el("li", vec![], vec![tx(&v)]), el("li", vec![], vec![tx(&v2)])])]),
        3 => (format!("|{}|{}|", t, t2), vec![el("table", vec![], vec![el("tr", vec![], vec![el("td", vec![], vec![tx(&v)]), el("td", vec![], vec![tx(&v2)])])])]),
        4 => (format!("bq. {}", t), vec![el("blockquote", vec![], vec![p(vec![tx(&v)])])]),
        5 => (format!("{}\n{}", t, t2), vec![p(vec![tx(&v), br(), tx(&v2)])]),
        6 => (format!("x *{}* y", t), vec![p(vec![tx("x "), el("strong", vec![], vec![tx(&v)]), tx(" y")])]),
        7 => (format!("\"{}\":/u", t), vec![p(vec![el("a", { let mut a = vec![kv("href", "/u")]; if let Some(r) = &cfg.rel { a.push(kv("rel", r)); } a }, vec![tx(&v)])])]),
        _ => (format!("; {}\n: {}", t, t2), vec![el("dl", vec![], vec![el("dt", vec![], vec![tx(&v)]), el("dd", vec![], vec![tx(&v2)])])]),
    };
    c.nontrivial = true;
    expect_nodes(c, &cfg, &text, &want)?;
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C10",
    rule: "a case is a document tree, or a sentence with special characters in a place; non-trivial: blocks of at least two kinds, or any special characters",
    assumptions: &[],
    subs: &[
        Sub { name: "documents", quick: 12_000, thorough: 400_000, f: documents },
        Sub { name: "specials", quick: 15_000, thorough: 300_000, f: specials },
    ],
};
