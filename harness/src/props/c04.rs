//! C04: the sanitizer has the last word.
use crate::cfg::Cfg;
use crate::engine::*;
use crate::gen::{soup, words};
use crate::html::{browser_tokens, Tok};
use crate::src::Src;
use rustextile::ammonia;
use std::collections::{HashMap, HashSet};

const ATTACKS: &[&str] = &[
    "<script>alert(1)</script>", "<img src=x onerror=alert(1)>", "<a href=\"javascript:x\">y</a>", "<svg><script>1</script></svg>", "<iframe src=x></iframe>",
    "<b onclick=\"x\">z</b>", "<style>p{}</style>", "<div style=\"position:fixed\" id=\"top\" class=\"c\">q</div>", "==<script>2</script>==", "<notextile><script>3</script></notextile>",
    "\n\nnotextile. <script>4</script>\n\n", "<!-- c --><b>", "<form action=x><input></form>", "<math><mi//xlink:href=\"data:x\">", "<a href='data:text/html,x'>w</a>",
    "!javascript:alert(1)!", "\"x\":data:text/html,y", "<object data=x></object>", "<details open ontoggle=x>", "<p title=\"</p><script>\">", "<noscript><p title=\"</noscript><img src=x onerror=1>\">",
    "<a target=_blank href=http://e.com>t</a>", "<code><script>5</script></code>", "<pre><b>x</b></pre>", "@<script>6</script>@", "<br onload=x>", "<plaintext>", "<textarea><script>7</script>",
];

fn doc(s: &mut Src) -> String {
    let mut t = if s.bool() { soup::any(s) } else { words::phrase(s, 1, 4) };
    for _ in 0..s.below(4) {
        let mut at = s.below(t.len() as u32 + 1) as usize;
        while !t.is_char_boundary(at) {
            at -= 1;
        }
        let a = s.pick(ATTACKS);
        t.insert_str(at, a);
    }
    t
}

/// The line breaks are written anew after the sanitizer has run.
fn norm_br(h: &str) -> String {
    h.replace("<br />", "<br>").replace("&lt;br /&gt;", "&lt;br&gt;").replace('\n', "")
}

/// The plain output is trimmed, the sanitized one is trimmed after sanitizing:
/// an element left open may hold the whitespace at the end.
fn same(out: &str, plain: &str, b: &ammonia::Builder) -> bool {
    let o = norm_br(out);
    norm_br(&b.clean(plain).to_string()) == o || norm_br(&b.clean(&format!("{}\n\n", plain)).to_string()) == o
}

struct Policy {
    tags: HashSet<&'static str>,
    schemes: HashSet<&'static str>,
    generic: HashSet<&'static str>,
    per_tag: HashMap<&'static str, HashSet<&'static str>>,
    rel: Option<&'static str>,
    id_prefix: Option<&'static str>,
    classes: bool,
}

fn obeys(out: &str, p: &Policy) -> Result<(), Fail> {
    for t in browser_tokens(out) {
        match t {
            Tok::Open { name, attrs, .. } => {
                if !p.tags.contains(name.as_str()) {
                    return fail("tag", format!("<{}> in {:?}", name, out));
                }
                for (k, v) in &attrs {
                    let known = p.generic.contains(k.as_str())
                        || p.per_tag.get(name.as_str()).map(|x| x.contains(k.as_str())).unwrap_or(false)
                        || (k == "rel" && name == "a" && p.rel == Some(v.as_str()))
                        || (k == "class" && p.classes);
                    if !known {
                        return fail("attribute", format!("<{} {}={:?}> in {:?}", name, k, v, out));
                    }
                    if ["href", "src"].contains(&k.as_str()) {
                        if let Ok(u) = url::Url::parse(v) {
                            if !p.schemes.contains(u.scheme()) {
                                return fail("scheme", format!("<{} {}={:?}> in {:?}", name, k, v, out));
                            }
                        }
                    }
                    if k == "id" {
                        if let Some(pre) = p.id_prefix {
                            if !v.starts_with(pre) {
                                return fail("id-prefix", format!("id {:?} without the prefix in {:?}", v, out));
                            }
                        }
                    }
                }
                if name == "a" && attrs.iter().any(|a| a.0 == "href") && p.rel.is_some() && !attrs.iter().any(|a| a.0 == "rel") {
                    return fail("rel", format!("a link without rel in {:?}", out));
                }
            }
            Tok::Comment(c) => return fail("comment", format!("comment {:?} in {:?}", c, out)),
            Tok::Other(o) => return fail("declaration", format!("{} in {:?}", o, out)),
            _ => (),
        }
    }
    Ok(())
}

fn default_policy() -> Policy {
    let b = ammonia::Builder::default();
    Policy {
        tags: b.clone_tags(),
        schemes: b.clone_url_schemes(),
        generic: b.clone_generic_attributes(),
        per_tag: b.clone_tag_attributes(),
        rel: None,
        id_prefix: None,
        classes: false,
    }
}

fn default_settings(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg { sanitize: true, ..Cfg::any(s) };
    let text = doc(s);
    if text.trim().is_empty() {
        return Ok(());
    }
    c.nontrivial_if(text.contains('<') || cfg.rel.is_some());
    let out = c.parse(&cfg, &text)?;
    let mut p = default_policy();
    p.rel = None;
    obeys(&out, &p)?;
    // and it takes nothing else away: it is the plain output, sanitized
    let plain = c.parse(&Cfg { sanitize: false, ..cfg.clone() }, &text)?;
    let mut b = ammonia::Builder::default();
    b.link_rel(None);
    let want = b.clean(&plain).to_string();
    if !same(&out, &plain, &b) {
        return fail("differs", format!("sanitized output {:?}\n  is not the sanitized plain output {:?}", out, want));
    }
    c.label_if(norm_br(&plain) != norm_br(&out), "something-removed");
    Ok(())
}

fn adjusted(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg { sanitize: false, ..Cfg::any(s) };
    let text = doc(s);
    if text.trim().is_empty() {
        return Ok(());
    }
    let kind = s.below(6);
    c.note = format!("policy {}", kind);
    fn tune<'a, 'b>(b: &'a mut ammonia::Builder<'b>, kind: u32) -> &'a ammonia::Builder<'b> {
        match kind {
            0 => b.tags(["p", "strong", "em"].into_iter().collect()),
            1 => b.link_rel(Some("noopener nofollow")),
            2 => b.url_schemes(["https"].into_iter().collect()),
            3 => b.id_prefix(Some("user-")).add_generic_attributes(&["id"]),
            4 => b.add_generic_attributes(&["class", "style"]),
            _ => b.rm_tags(&["img", "a"]).add_tags(&["section"]),
        }
    }
    let mut p = default_policy();
    match kind {
        0 => p.tags = ["p", "strong", "em"].into_iter().collect(),
        1 => p.rel = Some("noopener nofollow"),
        2 => p.schemes = ["https"].into_iter().collect(),
        3 => {
            p.generic.insert("id");
            p.id_prefix = Some("user-");
        }
        4 => {
            p.generic.insert("class");
            p.generic.insert("style");
        }
        _ => {
            p.tags.remove("img");
            p.tags.remove("a");
            p.tags.insert("section");
        }
    }
    let t = match kind {
        0 => cfg.build().adjust_sanitizer(|b| tune(b, 0)),
        1 => cfg.build().adjust_sanitizer(|b| tune(b, 1)),
        2 => cfg.build().adjust_sanitizer(|b| tune(b, 2)),
        3 => cfg.build().adjust_sanitizer(|b| tune(b, 3)),
        4 => cfg.build().adjust_sanitizer(|b| tune(b, 4)),
        _ => cfg.build().adjust_sanitizer(|b| tune(b, 5)),
    };
    // other settings made later do not undo it
    let t = if s.bool() { cfg.apply_but_sanitize(t) } else { t };
    c.nontrivial = true;
    let out = c.parse_with(&t, &cfg, &text)?;
    obeys(&out, &p)?;
    let plain = c.parse(&cfg, &text)?;
    let mut b = ammonia::Builder::default();
    b.link_rel(None);
    tune(&mut b, kind);
    let want = b.clean(&plain).to_string();
    if !same(&out, &plain, &b) {
        return fail("differs", format!("sanitized output {:?}\n  is not the sanitized plain output {:?}", out, want));
    }
    Ok(())
}

/// Switched on and off, adjusted, with other settings in between: what was
/// asked for last holds.
fn history(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let mut cfg = Cfg { sanitize: false, ..Cfg::any(s) };
    let text = doc(s);
    if text.trim().is_empty() {
        return Ok(());
    }
    let mut t = guarded(|| cfg.build())?;
    let mut b: Option<ammonia::Builder> = None;
    let steps = s.range(1, 6);
    for _ in 0..steps {
        let k = s.below(8);
        c.note.push_str(&format!(" {}", k));
        match k {
            0 | 1 => {
                t = t.set_sanitize(true);
                let mut x = ammonia::Builder::default();
                x.link_rel(None);
                b = Some(x);
            }
            2 => {
                t = t.set_sanitize(false);
                b = None;
            }
            3 => {
                // (each adjustment starts anew, and switches the sanitizer on)
                t = t.adjust_sanitizer(|x| x.tags(["p", "em", "a", "br"].into_iter().collect()));
                let mut x = ammonia::Builder::default();
                x.link_rel(None);
                x.tags(["p", "em", "a", "br"].into_iter().collect());
                b = Some(x);
            }
            4 => {
                t = t.adjust_sanitizer(|x| x.rm_tags(&["img"]));
                let mut x = ammonia::Builder::default();
                x.link_rel(None);
                x.rm_tags(&["img"]);
                b = Some(x);
            }
            5 => {
                cfg.xhtml = !cfg.xhtml;
                t = t.set_html_kind(if cfg.xhtml { rustextile::HtmlKind::XHTML } else { rustextile::HtmlKind::HTML5 });
            }
            6 => {
                cfg.restricted = !cfg.restricted;
                t = t.set_restricted(cfg.restricted);
            }
            _ => {
                cfg.images = !cfg.images;
                t = t.set_images(cfg.images);
            }
        }
    }
    c.nontrivial_if(steps > 1);
    let out = c.parse_with(&t, &cfg, &text)?;
    // (the alignment of images follows the kind of HTML unless it is set)
    let plain = c.parse(&cfg, &text)?;
    match b {
        None => {
            c.label("off");
            if out != plain {
                return fail("off", format!("with the sanitizer off again the output is {:?} instead of {:?}", out, plain));
            }
        }
        Some(b) => {
            c.label("on");
            if !same(&out, &plain, &b) {
                return fail("history", format!("sanitized output {:?}\n  is not the sanitized plain output {:?}", out, b.clean(&plain).to_string()));
            }
        }
    }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C04",
    rule: "a case is a text with raw HTML, settings and a sanitizer; non-trivial: the text has a tag, or rel is set, or the sanitizer is adjusted",
    assumptions: &[],
    subs: &[
        Sub { name: "default", quick: 20_000, thorough: 500_000, f: default_settings },
        Sub { name: "adjusted", quick: 12_000, thorough: 300_000, f: adjusted },
        Sub { name: "history", quick: 8_000, thorough: 200_000, f: history },
    ],
};
