//! C02: in the restricted mode the author cannot introduce markup.
use crate::cfg::Cfg;
use crate::engine::*;
use crate::blocks::kv;
use crate::gen::{soup, words};
use crate::html::Node;
use crate::model::{el, expect_nodes, tx};
use crate::html::{browser_tokens, strict_tag, Tok};
use crate::src::Src;

const TAGS: &[&str] = &[
    "p", "h1", "h2", "h3", "h4", "h5", "h6", "blockquote", "pre", "code", "strong", "b", "em", "i", "cite", "del", "ins", "span", "sub",
    "sup", "a", "img", "br", "ul", "ol", "li", "dl", "dt", "dd", "table", "caption", "colgroup", "col", "thead", "tbody", "tfoot", "tr",
    "td", "th", "abbr", "acronym",
];

fn all_digits(v: &str) -> bool {
    !v.is_empty() && v.chars().all(|c| c.is_ascii_digit())
}

fn style_ok(v: &str) -> bool {
    v.split("; ").all(|d| {
        let d = d.trim_end_matches(';');
        match d.split_once(':') {
            Some(("padding-left" | "padding-right", w)) => w.strip_suffix("em").map(all_digits).unwrap_or(false),
            Some(("text-align", w)) => ["left", "right", "center", "justify"].contains(&w),
            Some(("vertical-align", w)) => ["top", "middle", "bottom"].contains(&w),
            _ => false,
        }
    })
}

fn class_ok(tag: &str, v: &str) -> bool {
    match tag {
        "span" => v == "caps",
        "p" | "sup" => v == "footnote",
        "img" => ["align-left", "align-right", "align-center"].contains(&v),
        "code" => !v.is_empty() && v.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-'),
        _ => false,
    }
}

fn id_ok(uid: &str, v: &str) -> bool {
    for p in ["fnrev", "fn", "noteref", "note"] {
        if let Some(r) = v.strip_prefix(p) {
            if let Some(n) = r.strip_prefix(uid).and_then(|r| r.strip_prefix('-')) {
                if all_digits(n) {
                    return true;
                }
            }
        }
    }
    false
}

fn attr_ok(uid: &str, tag: &str, name: &str, v: &str) -> bool {
    match name {
        "style" => style_ok(v),
        "class" => class_ok(tag, v),
        "id" => id_ok(uid, v),
        "lang" => true,
        "href" => tag == "a",
        "rel" => tag == "a",
        "title" => ["a", "img", "abbr", "acronym"].contains(&tag),
        "src" | "alt" => tag == "img",
        "align" => tag == "img" && ["left", "right", "center"].contains(&v),
        "width" => ["img", "col", "colgroup"].contains(&tag) && all_digits(v),
        "height" => tag == "img" && all_digits(v),
        "cite" => ["blockquote", "strong", "b", "cite", "em", "i", "del", "span", "ins", "sub", "sup"].contains(&tag),
        "summary" => tag == "table",
        "colspan" | "rowspan" => ["td", "th"].contains(&tag),
        "span" => ["col", "colgroup"].contains(&tag),
        "start" => tag == "ol" && all_digits(v),
        _ => false,
    }
}

pub fn safe_output(cfg: &Cfg, html: &str) -> Result<(), Fail> {
    for t in browser_tokens(html) {
        match t {
            Tok::Open { name, attrs, .. } => {
                if !TAGS.contains(&name.as_str()) {
                    return fail("foreign-tag", format!("element <{}> in {:?}", name, html));
                }
                for (n, v) in &attrs {
                    if !attr_ok(&cfg.uid, &name, n, v) {
                        return fail(&format!("foreign-attr:{}", if ["class", "id", "style"].contains(&n.as_str()) { n } else { "other" }), format!("attribute <{} {}={:?}> in {:?}", name, n, v, html));
                    }
                }
            }
            Tok::Close { name } => {
                if !TAGS.contains(&name.as_str()) {
                    return fail("foreign-end-tag", format!("</{}> in {:?}", name, html));
                }
            }
            Tok::Comment(c) => return fail("comment", format!("comment {:?} in {:?}", c, html)),
            Tok::Other(o) => return fail("declaration", format!("{} in {:?}", o, html)),
            Tok::Text(_) => (),
        }
    }
    // the tags that are there are cleanly written: no markup leaks into
    // attribute values, nothing of the author's text opens a tag
    let mut rest = html;
    while let Some(i) = rest.find('<') {
        rest = &rest[i + 1..];
        let body = rest.strip_prefix('/').unwrap_or(rest);
        // attribute values may carry references of any kind here
        match strict_tag(body) {
            Ok((_, _, _, len)) => rest = &body[len..],
            Err(e) if e.contains("reference") || e.contains("ampersand") => {
                rest = &body[body.find('>').map(|x| x + 1).unwrap_or(body.len())..];
            }
            Err(e) => {
                return fail("malformed-tag", format!("{} near {:?} in {:?}", e, trunc(rest, 80), html));
            }
        }
    }
    Ok(())
}

fn restricted_cfg(s: &mut Src) -> Cfg {
    Cfg { restricted: true, sanitize: false, ..Cfg::any(s) }
}

fn soup_doc(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = restricted_cfg(s);
    let text = soup::any(s);
    let out = c.parse(&cfg, &text)?;
    c.nontrivial_if(text.contains('<') || text.contains('"') || text.contains('\''));
    c.label_if(out.contains("=\""), "has-attributes");
    c.label_if(out.contains("<table"), "table");
    safe_output(&cfg, &out)
}

/// Raw HTML is shown as it was written.
fn literal(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    const RAW: &[&str] = &[
        "<b>", "</b>", "<script>alert(1)</script>", "<img src=x onerror=alert(1)>", "<div class=a>", "</div>", "<br>", "<hr />", "<svg/onload=f(2)>", "<a href=/x>", "</a>", "<p>", "</p>", "<pre>", "</pre>", "<code>", "</code>",
        "<notextile>", "</notextile>", "<iframe src=//e.com>", "<style>", "<x-y z>", "<?php 1 ?>", "<![CDATA[", "<!DOCTYPE html>", "<", ">", "&", "&lt;", "&amp;", "&#60;", "&quot;", "<b", "b>", "</", "<>", "&lt;script&gt;", "&nbsp;", "&copy;",
    ];
    let cfg = Cfg { restricted: true, raw_blocks: s.bool(), ..super::plain_cfg(s) };
    let piece = |s: &mut Src| {
        let n = s.range(1, 4);
        let mut t = words::ascii(s);
        for _ in 0..n {
            let r = s.pick(RAW);
            match s.below(3) {
                0 => t.push_str(&format!(" {} {}", r, words::ascii(s))),
                1 => t.push_str(&format!(" {}{}", r, words::ascii(s))),
                _ => t.push_str(&format!("{} {}", r, words::ascii(s))),
            }
        }
        t
    };
    let (a, b) = (piece(s), piece(s));
    let p = |k: Vec<Node>| el("p", vec![], k);
    let w = words::ascii(s);
    let raw = s.pick(RAW);
    let (text, want) = match s.below(11) {
        0 => (a.clone(), vec![p(vec![tx(&a)])]),
        1 => (format!("h2. {}", a), vec![el("h2", vec![], vec![tx(&a)])]),
        2 => (format!("* {}\n* {}", a, b), vec![el("ul", vec![], vec![el("li", vec![], vec![tx(&a)]), el("li", vec![], vec![tx(&b)])])]),
        3 => (format!("|{}|{}|", a, b), vec![el("table", vec![], vec![el("tr", vec![], vec![el("td", vec![], vec![tx(&a)]), el("td", vec![], vec![tx(&b)])])])]),
        4 => (format!("bq. {}", a), vec![el("blockquote", vec![], vec![p(vec![tx(&a)])])]),
        5 => (format!("{}\n{}", a, b), vec![p(vec![tx(&a), el("br", vec![], vec![]), tx(&b)])]),
        6 => (format!("{} *{}* {}", w, a, w), vec![p(vec![tx(&format!("{} ", w)), el("strong", vec![], vec![tx(&a)]), tx(&format!(" {}", w))])]),
        7 => {
            let mut at = vec![kv("href", "/u")];
            if let Some(r) = &cfg.rel {
                at.push(kv("rel", r));
            }
            let (a, b) = (a.replace("(", "").replace(")", ""), ());
            let _ = b;
            (format!("\"{}\":/u", a), vec![p(vec![el("a", at, vec![tx(&a)])])])
        }
        8 => (format!("; {}\n: {}", a, b), vec![el("dl", vec![], vec![el("dt", vec![], vec![tx(&a)]), el("dd", vec![], vec![tx(&b)])])]),
        9 => (format!("{}\n\n{}", a, b), vec![p(vec![tx(&a)]), p(vec![tx(&b)])]),
        // alone in its block
        _ => (raw.to_string(), vec![p(vec![tx(raw)])]),
    };
    c.nontrivial = true;
    expect_nodes(c, &cfg, &text, &want)?;
    Ok(())
}

/// Something hostile in every place that ends up in a tag.
fn placed(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    const BAD: &[&str] = &[
        "\"", "'", "<", ">", "&", "\"\"", "\">", "'>", "<b>", "</a>", "<script>", " onx=1", "\" onx=\"1", "' onx='1", "&quot;", "&#34;", "&#x22;", "&#39;", "&lt;b&gt;", "`", "=", "/>", "<!--", "-->", "\\\"", "\u{a0}", "\t", "é\"", "]]>", "javascript:x", "%22", "%3E",
    ];
    let cfg = restricted_cfg(s);
    let n = s.range(1, 4);
    let mut h = String::new();
    for _ in 0..n {
        if s.bool() {
            h.push_str(&words::ascii(s));
        }
        h.push_str(s.pick(BAD));
        if s.chance(1, 4) {
            h.push(' ');
        }
    }
    let nosp = h.replace([' ', '\t', '\u{a0}'], "");
    let w = words::ascii(s);
    let text = match s.below(28) {
        0 => format!("!i.png({})!", h),
        1 => format!("!{}.png!", nosp),
        2 => format!("!i.png(t)!:http://e.com/{}", nosp),
        3 => format!("\"{}({})\":/u", w, h),
        4 => format!("\"{}\":http://e.com/{}", w, nosp),
        5 => format!("\"{}\":/{}", w, nosp),
        6 => format!("table. {}\n|{}|", h, w),
        7 => format!("bq.:http://e.com/{} {}", nosp, w),
        8 => format!("p[{}]. {}", h, w),
        9 => format!("*[{}]{}*", h, w),
        10 => format!("ABC({})", h),
        11 => format!("bc[{}]. {}", h, w),
        12 => format!("[al]http://e.com/{}\n\n\"{}\":al", nosp, w),
        13 => format!("[{}]/x\n\n\"{}\":{}", nosp, w, nosp),
        14 => format!("{}[#{}]\n\nnote#{}. {}\n\nnotelist.", w, nosp, nosp, w),
        15 => format!("{}[#{}]\n\nnotelist.", w, h),
        16 => format!("??:http://e.com/{} {}??", nosp, w),
        17 => format!("|[{}]. {}|", h, w),
        18 => format!("*[{}] {}", h, w),
        19 => format!("|=[{}]. {}\n|a|", h, w),
        20 => format!("|^[{}].\n|{}|", h, w),
        21 => format!("!({}){{{}}}[{}]i.png!", h, h, h),
        22 => format!("p({}){{{}}}. {}", h, h, w),
        23 => format!("notelist({}){{{}}}[{}]. \n\nnote#a({}){{{}}}[{}]. x\n\ny[({}){{{}}}#a]", h, h, h, h, h, h, h, h),
        24 => format!("fn1({}){{{}}}[{}]. {}", h, h, h, w),
        25 => format!("\"({}){{{}}}[{}]{}\":/u", h, h, h, w),
        26 => format!("- [{}]{} := {}", h, w, h),
        _ => format!("\"$\":http://e.com/{}", nosp),
    };
    c.nontrivial = true;
    let out = c.parse(&cfg, &text)?;
    c.label_if(out.contains("=\""), "has-attributes");
    safe_output(&cfg, &out)
}

pub static PROP: Prop = Prop {
    id: "C02",
    rule: "a case is a text and restricted settings; non-trivial: the text has an angle bracket or a quote",
    assumptions: &[],
    subs: &[
        Sub { name: "soup", quick: 40_000, thorough: 1_000_000, f: soup_doc },
        Sub { name: "literal", quick: 12_000, thorough: 300_000, f: literal },
        Sub { name: "placed", quick: 20_000, thorough: 400_000, f: placed },
    ],
};
