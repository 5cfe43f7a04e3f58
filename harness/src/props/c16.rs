//! C16: images.
use super::c15::rich_url;
use crate::blocks::kv;
use crate::engine::*;
use crate::gen::words;
use crate::html::Node;
use crate::model::*;
use crate::src::Src;

const ALTS: &[&str] = &["*b*", "_e_", "-- d", "\"q\"", "it's", "a & b", "a < b", "(c", "1 x 2", "HTML", "&amp;", "@c@", "...", "http://a.com", "%s%", "[1]", "[#n]", "\\", "#", "=", "été", "日本", "$1", "{x}", "^2^", "|"];

fn alt(s: &mut Src, cell: bool) -> String {
    let n = s.range(1, 4);
    let mut v = vec![];
    for _ in 0..n {
        if s.chance(1, 3) {
            let a = s.pick(ALTS);
            v.push(if (cell && a == "|") || a == "@c@" { "x".to_string() } else { a.to_string() });
        } else {
            v.push(words::word(s));
        }
    }
    v.join(" ")
}

fn src_url(s: &mut Src, restricted: bool) -> Url {
    loop {
        let mut u = rich_url(s, restricted);
        if u.textile.contains(['(', '!', ')', '|', '@', '"', '*']) {
            u = url(s);
        }
        if u.textile.starts_with("data:") || u.textile.starts_with("#") {
            u = Url { textile: "/i.png".into(), href: "/i.png".into() };
        }
        return u;
    }
}

fn images(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let mut cfg = super::inline_cfg(s);
    let place = s.below(10);
    if (2..=4).contains(&place) {
        cfg.lite = false;
    }
    let align = if s.chance(1, 3) { Some(*s.pick_of(&['<', '>', '='])) } else { None };
    let attrs = Attrs::maybe_cls(s, 1, 3);
    let src = src_url(s, cfg.restricted);
    let al = if s.chance(1, 2) { Some(alt(s, place == 3)) } else { None };
    let mut alias = None;
    let href = if place != 6 && s.chance(1, 3) {
        let mut u = src_url(s, cfg.restricted);
        if u.textile.ends_with([']', ')', '.', ',', '}']) || u.textile.contains(['[', ']']) {
            u = url(s);
        }
        if s.chance(1, 5) {
            let name = words::ascii(s);
            let t = format!("http://{}.com/{}", words::ascii(s), words::ascii(s));
            alias = Some(format!("[{}]{}", name, t));
            u = Url { textile: name, href: t };
        }
        Some(u)
    } else {
        None
    };
    let img = Img { align, attrs: attrs.clone(), src: src.clone(), alt: al.clone(), href: href.clone() };
    // the variants of writing it
    let t = format!(
        "!{}{}{}{}{}!{}",
        align.map(|c| c.to_string()).unwrap_or_default(),
        attrs.cls_textile(),
        if !attrs.is_empty() && s.chance(1, 4) { ". " } else { "" },
        src.textile,
        al.as_ref().map(|a| format!("{}({})", if s.chance(1, 4) { " " } else { "" }, a)).unwrap_or_default(),
        href.as_ref().map(|h| format!(":{}", h.textile)).unwrap_or_default()
    );
    let h = image_html(&img, &cfg);
    let (a, b) = (words::ascii(s), words::ascii(s));
    let p = |k: Vec<Node>| el("p", vec![], k);
    let mut nl = vec![kv("href", "/u")];
    if let Some(r) = &cfg.rel {
        nl.push(kv("rel", r));
    }
    let (mut text, want) = match place {
        0 => (t.clone(), vec![p(vec![h])]),
        1 => (format!("{} {} {}", a, t, b), vec![p(vec![tx(&a), tx(" "), h, tx(" "), tx(&b)])]),
        2 => (format!("* {} {}\n* {}", a, t, t), vec![el("ul", vec![], vec![el("li", vec![], vec![tx(&a), tx(" "), h.clone()]), el("li", vec![], vec![h])])]),
        3 => (format!("|{}|{}|", t, a), vec![el("table", vec![], vec![el("tr", vec![], vec![el("td", vec![], vec![h]), el("td", vec![], vec![tx(&a)])])])]),
        4 => (format!("h3. {} {}", a, t), vec![el("h3", vec![], vec![tx(&a), tx(" "), h])]),
        5 if href.is_some() => (format!("{}[{}] {}", a, t, b), vec![p(vec![tx(&a), h, tx(" "), tx(&b)])]),
        5 => (format!("{}[{}]{}", a, t, b), vec![p(vec![tx(&a), h, tx(&b)])]),
        6 => (format!("\"{}\":/u", t), vec![p(vec![el("a", nl, vec![h])])]),
        7 => (format!("*{} {} {}*", a, t, b), vec![p(vec![el("strong", vec![], vec![tx(&a), tx(" "), h, tx(" "), tx(&b)])])]),
        8 => (format!("{} {}, {}", a, t, b), vec![p(vec![tx(&a), tx(" "), h, tx(", "), tx(&b)])]),
        _ => (format!("{}\n{} {}", t, t, a), vec![p(vec![h.clone(), el("br", vec![], vec![]), h, tx(" "), tx(&a)])]),
    };
    if place == 6 && al.as_ref().map(|x| x.contains('"')).unwrap_or(false) {
        return Ok(());
    }
    if let Some(x) = alias {
        text = format!("{}\n\n{}", text, x);
        c.label("alias");
    }
    c.label_if(align.is_some(), "aligned");
    c.label_if(al.is_some(), "alt");
    c.label_if(href.is_some(), "linked");
    c.nontrivial = true;
    expect_nodes(c, &cfg, &text, &want)?;
    Ok(())
}

/// An image with an address of a forbidden kind is not an image.
fn refused(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = super::plain_cfg(s);
    let bad = if cfg.restricted { s.pick(&["javascript:x", "data:image/png,x", "file:///x", "vbscript:x", "sftp://a/b", "JavaScript:x"]) } else { s.pick(&["javascript:x", "vbscript:y", "JAVASCRIPT:z", "blob:x"]) };
    let good = "/i.png";
    let (t, _) = if s.bool() { (format!("!{}!", bad), 0) } else { (format!("!{}!:{}", good, bad), 1) };
    let w = words::ascii(s);
    c.nontrivial = true;
    let out = c.parse(&cfg, &format!("{} {} {}", w, t, w))?;
    if out.contains("<img") || out.contains("<a") {
        return fail("refused", format!("{:?}", out));
    }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C16",
    rule: "a case is an image in a place; all are non-trivial",
    assumptions: &[],
    subs: &[
        Sub { name: "images", quick: 50_000, thorough: 600_000, f: images },
        Sub { name: "refused", quick: 2_000, thorough: 10_000, f: refused },
    ],
};
