//! C15: links.
use crate::blocks::kv;
use crate::cfg::Cfg;
use crate::engine::*;
use crate::gen::words;
use crate::html::{browser_tokens, Node, Tok};
use crate::model::*;
use crate::src::Src;

/// A path, query and fragment with everything a URL may hold unescaped.
fn tail_of_url(s: &mut Src) -> String {
    let mut p = String::new();
    for _ in 0..s.below(4) {
        p.push('/');
        p.push_str(&segment(s));
    }
    if s.chance(1, 4) {
        p.push('/');
    }
    if s.chance(1, 3) {
        p.push('?');
        let n = s.range(1, 3);
        for i in 0..n {
            if i > 0 {
                p.push('&');
            }
            p.push_str(&words::ascii(s));
            if s.chance(1, 5) {
                p.push_str("[]");
            }
            p.push('=');
            p.push_str(&segment(s));
        }
    }
    if s.chance(1, 4) {
        p.push('#');
        p.push_str(&segment(s));
    }
    p
}

fn segment(s: &mut Src) -> String {
    let w = words::ascii(s);
    match s.below(16) {
        0 => format!("{}.html", w),
        1 => format!("{}_{}", w, words::ascii(s)),
        2 => format!("{}-{}--{}", w, words::ascii(s), s.below(9)),
        3 => format!("~{}", w),
        4 => format!("{}({})", w, words::ascii(s)),
        5 => format!("{}%20{}", w, words::ascii(s)),
        6 => s.pick(&["été", "日本", "ключ", "straße"]).to_string(),
        7 => format!("{};{}", w, words::ascii(s)),
        8 => format!("{},{}", w, words::ascii(s)),
        9 => format!("{}+{}", w, words::ascii(s)),
        10 => format!("{}!{}", w, words::ascii(s)),
        11 => format!("{}:{}", w, s.below(100)),
        12 => format!("{}.{}.{}", w, s.below(10), s.below(10)),
        13 => format!("_{}_{}", w, words::ascii(s)),
        14 => format!("{}={}", w, s.below(10)),
        _ => w,
    }
}

fn absolute(s: &mut Src, restricted: bool) -> String {
    let scheme = if restricted { *s.pick_of(&["http", "https", "ftp"]) } else { *s.pick_of(&["http", "https", "ftp", "sftp", "file"]) };
    if scheme == "file" {
        return format!("file:///{}{}", words::ascii(s), tail_of_url(s));
    }
    let host = match s.below(6) {
        0 => "127.0.0.1".to_string(),
        1 => format!("{}.{}.com", words::ascii(s), words::ascii(s)),
        2 => format!("Www.{}.Org", words::ascii(s)),
        3 => format!("{}:{}", words::ascii(s), s.range(1, 65535)),
        4 if scheme != "sftp" => format!("{}.com", s.pick(&["bücher", "ñandú", "日本"])),
        _ => format!("{}.com", words::ascii(s)),
    };
    format!("{}://{}{}", scheme, host, tail_of_url(s))
}

/// A URL and the address it must lead to.
pub fn rich_url(s: &mut Src, restricted: bool) -> Url {
    match s.below(8) {
        0 => url(s),
        1 => {
            let t = if restricted || s.bool() {
                format!("mailto:{}@{}.com", words::ascii(s), words::ascii(s))
            } else {
                s.pick(&["tel:+1234567", "callto:someone", "data:text/plain,hi"]).to_string()
            };
            Url { href: t.clone(), textile: t }
        }
        2 => {
            // relative: kept as written
            let t = format!("{}{}{}", s.pick(&["", "/", "../", "./", "../../"]), words::ascii(s), s.pick(&["", "/x", ".html", "/a(b)c", "/x_y", "/a-b", "?q=1&r=2", "#frag", "?q[]=1"]));
            Url { href: t.clone(), textile: t }
        }
        _ => {
            let t = absolute(s, restricted);
            match url::Url::parse(&t) {
                Ok(u) => Url { href: u.to_string(), textile: t },
                Err(_) => Url { href: "/x".into(), textile: "/x".into() },
            }
        }
    }
}

const TAILS: &[&str] = &["", "", ".", ",", "!", "?", ";", ":", "...", ").", "?!", "]"];

fn link_nodes(v: &[(String, Vec<Node>)]) -> (String, Vec<Node>) {
    let mut t = String::new();
    let mut n = vec![];
    for (i, (a, b)) in v.iter().enumerate() {
        if i > 0 {
            t.push(' ');
            n.push(tx(" "));
        }
        t.push_str(a);
        n.extend(b.iter().cloned());
    }
    (t, n)
}

fn a_node(attrs: &Attrs, title: &Option<String>, href: &str, cfg: &Cfg, kids: Vec<Node>) -> Node {
    let mut a = attrs.html(cfg.restricted);
    a.push(kv("href", href));
    if let Some(t) = title {
        a.push(kv("title", t));
    }
    if let Some(r) = &cfg.rel {
        a.push(kv("rel", r));
    }
    el("a", a, kids)
}

fn readable(u: &str) -> String {
    for p in ["http://", "https://", "ftp://", "sftp://", "file://", "mailto:", "tel:", "callto:"] {
        if let Some(r) = u.strip_prefix(p) {
            return r.to_string();
        }
    }
    u.to_string()
}

fn inline_links(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = super::inline_cfg(s);
    let n = s.range(1, 4);
    let mut v: Vec<(String, Vec<Node>)> = vec![];
    let mut ats = 0;
    for _ in 0..n {
        if s.chance(1, 3) {
            let w = words::phrase(s, 1, 2);
            v.push((w.clone(), vec![tx(&w)]));
            continue;
        }
        let mut u = rich_url(s, cfg.restricted);
        // two at-signs in one paragraph could be code
        ats += u.textile.matches('@').count();
        if ats > 1 {
            u = Url { textile: "/mail".into(), href: "/mail".into() };
        }
        let attrs = Attrs::maybe_cls(s, 1, 4);
        let title = if s.chance(1, 4) { Some(title_text(s)) } else { None };
        // (the address shown as text is text again, with its own meaning)
        let dollar = s.chance(1, 8) && !u.textile.contains("--") && !u.textile.contains(|ch| "_%+!~(;,=".contains(ch));
        let kids = if dollar {
            vec![]
        } else {
            let mut k = vec![Inl::Words(words::phrase(s, 1, 3))];
            if s.chance(1, 3) {
                k.extend(inline(s, &InlOpts { depth: 2, max: 2, br: false, links: false, code: false, ..Default::default() }));
                k.push(Inl::Words(words::word(s)));
            }
            k
        };
        let text = if dollar { "$".to_string() } else { inline_textile(&kids) };
        let show = if dollar { vec![tx(&readable(&u.textile))] } else { inline_html(&kids, &cfg) };
        let tt = title.as_ref().map(|t| format!("({})", t)).unwrap_or_default();
        let l = format!("\"{}{}{}\":{}", attrs.cls_textile(), text, tt, u.textile);
        let node = a_node(&attrs, &title, &u.href, &cfg, show);
        // (a URL that itself ends in a bracket or holds one is not put in brackets)
        let sq = u.textile.contains('[');
        match s.below(8) {
            0 => v.push((format!("({})", l), vec![tx("("), node, tx(")")])),
            1 if !sq => {
                let w = words::ascii(s);
                v.push((format!("{}[{}]{}", w, l, w), vec![tx(&w), node, tx(&w)]));
            }
            2 if !sq => v.push((format!("[{}]", l), vec![node])),
            _ => {
                let t = s.pick(TAILS);
                let t = if t == "]" || (t == ")." && u.textile.contains(')')) { "" } else { t };
                // an ellipsis has its own character
                let shown = if t == "..." { "\u{2026}" } else { t };
                v.push((format!("{}{}", l, t), vec![node, tx(shown)]));
            }
        }
        c.nontrivial = true;
    }
    let (t, nodes) = link_nodes(&v);
    expect_nodes(c, &cfg, &t, &[el("p", vec![], nodes)])?;
    Ok(())
}

pub fn title_text(s: &mut Src) -> String {
    let mut t = words::phrase(s, 1, 3);
    if s.chance(1, 4) {
        t.push_str(s.pick(&[" & x", " < y", " > z", " *b* c", " _d_", " -- e", " a:b", " 1 x 2", "...", " & \u{e9}", " {x}", "!", " it's"]));
    }
    t
}

/// Definitions of aliases may stand anywhere in the document.
fn aliases(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = super::inline_cfg(s);
    let n = s.range(1, 3) as usize;
    let mut defs: Vec<(String, Url)> = vec![];
    for i in 0..n {
        let name = format!("{}{}", words::ascii(s), i);
        let mut u = rich_url(s, cfg.restricted);
        if !(u.textile.starts_with('/') || u.textile.contains("://")) || u.textile.contains('@') || u.textile.contains('[') {
            u = Url { textile: "http://a.com/x".into(), href: "http://a.com/x".into() };
        }
        defs.push((name, u));
    }
    let mut blocks: Vec<(String, Option<Node>)> = vec![];
    let nb = s.range(1, 3);
    let mut used = false;
    for _ in 0..nb {
        let mut v = vec![];
        for _ in 0..s.range(1, 3) {
            let w = words::phrase(s, 1, 2);
            if s.chance(2, 3) {
                used = true;
                let (name, u) = s.pick_of(&defs).clone();
                let title = if s.chance(1, 4) { Some(title_text(s)) } else { None };
                let tt = title.as_ref().map(|t| format!("({})", t)).unwrap_or_default();
                let tail = s.pick(&["", ".", ","]);
                v.push((format!("\"{}{}\":{}{}", w, tt, name, tail), vec![a_node(&Attrs::none(), &title, &u.href, &cfg, vec![tx(&w)]), tx(tail)]));
            } else if s.bool() {
                // almost a name that was defined: a relative address
                used = true;
                let (name, _) = s.pick_of(&defs).clone();
                let near = match s.below(6) {
                    0 => format!("{}/", name),
                    1 => format!("/{}", name),
                    2 => format!("{}/{}", name, words::ascii(s)),
                    3 => format!("{}x", name),
                    4 => name[..name.len() - 1].to_string(),
                    _ => format!("x{}", name),
                };
                if defs.iter().any(|d| d.0 == near) || near.is_empty() {
                    continue;
                }
                v.push((format!("\"{}\":{}", w, near), vec![a_node(&Attrs::none(), &None, &near, &cfg, vec![tx(&w)])]));
            } else {
                v.push((w.clone(), vec![tx(&w)]));
            }
        }
        if v.is_empty() {
            v.push(("w".into(), vec![tx("w")]));
        }
        let (t, nodes) = link_nodes(&v);
        blocks.push((t, Some(el("p", vec![], nodes))));
    }
    // the definitions: in one block of their own or one each, anywhere
    let lines: Vec<String> = defs.iter().map(|(n, u)| format!("[{}]{}", n, u.textile)).collect();
    if s.bool() {
        let at = s.below(blocks.len() as u32 + 1) as usize;
        blocks.insert(at, (lines.join("\n"), None));
    } else {
        for l in lines {
            let at = s.below(blocks.len() as u32 + 1) as usize;
            blocks.insert(at, (l, None));
        }
    }
    c.nontrivial_if(used);
    let text = blocks.iter().map(|b| b.0.clone()).collect::<Vec<_>>().join("\n\n");
    let want: Vec<Node> = blocks.into_iter().filter_map(|b| b.1).collect();
    expect_nodes(c, &cfg, &text, &want)?;
    Ok(())
}

/// A link that shows its own address.
fn self_links(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = super::plain_cfg(s);
    let path = |s: &mut Src| {
        let mut p = words::ascii(s);
        for _ in 0..s.below(4) {
            p.push_str(s.pick(&["/", "//", ".", ":", "?", "#", "/a:", "http://", "https://", "mailto:", "tel:"]));
            p.push_str(&words::ascii(s));
        }
        p
    };
    let (text, shown) = match s.below(4) {
        0 => {
            let p = path(s);
            (format!("{}{}", s.pick(&["http://e.com/", "https://e.com/", "ftp://e.com/"]), p), None)
        }
        1 => (format!("//{}.com/{}", words::ascii(s), path(s)), None),
        2 => (format!("mailto:{}@e.com", words::ascii(s)), None),
        _ => {
            let p = format!("/{}", path(s));
            (p.clone(), Some(p))
        }
    };
    let shown = shown.unwrap_or_else(|| readable(&text));
    c.nontrivial_if(text.matches("//").count() > 1 || text.starts_with('/'));
    // by an alias as well, defined before or in the same paragraph (the path of a relative
    // address without a colon is kept whole)
    let alias = s.chance(1, 4) && !text.starts_with("mailto:") && (text.contains("://e.com/") || !text.contains(':'));
    let doc = if alias {
        let name = format!("{}0", words::ascii(s));
        if s.bool() {
            format!("x \"$\":{} y\n[{}]{}", name, name, text)
        } else {
            format!("[{}]{}\n\nx \"$\":{} y", name, text, name)
        }
    } else {
        format!("x \"$\":{} y", text)
    };
    let out = c.parse(&cfg, &doc)?;
    let toks = browser_tokens(&out);
    let mut inside = false;
    let mut got = String::new();
    for t in toks {
        match t {
            Tok::Open { name, .. } if name == "a" => inside = true,
            Tok::Close { name } if name == "a" => inside = false,
            Tok::Text(x) if inside => got.push_str(&x),
            _ => (),
        }
    }
    if got != shown {
        return fail("self", format!("a link to {:?} shows {:?} instead of {:?}: {:?}", text, got, shown, out));
    }
    Ok(())
}

/// Whatever the characters of the URL, the link leads where the URL leads.
fn resolves(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = super::inline_cfg(s);
    let base = url::Url::parse("http://base.example/dir/page?x#y").unwrap();
    let mut t = match s.below(4) {
        0 => absolute(s, cfg.restricted),
        1 => format!("/{}", tail_of_url(s)),
        2 => format!("{}{}", words::ascii(s), tail_of_url(s)),
        _ => format!("http://{}.com/", words::ascii(s)),
    };
    // any other characters, those that end a URL in Textile left out
    for _ in 0..s.below(4) {
        t.push_str(s.pick(&["<", ">", "&", "%", "%zz", "`", "{", "}", "\\", "é", "\u{301}", "😀", "~~", "__", "--", "==", "+", "$", "&amp;", "&lt;", "??", "//", "#", "@x", "(", ";"]));
        t.push_str(&words::ascii(s));
    }
    if t.matches('@').count() > 1 || t.matches("==").count() > 1 {
        return Ok(());
    }
    let want = match base.join(&t) {
        Ok(w) => w,
        Err(_) => return Ok(()),
    };
    let text = format!("see \"this\":{} now", t);
    // (in the unrestricted mode "<x" may start a tag)
    if !cfg.restricted && t.contains('<') {
        return Ok(());
    }
    c.nontrivial_if(t.chars().any(|ch| !ch.is_ascii_alphanumeric() && !"/:.".contains(ch)));
    let out = c.parse(&cfg, &text)?;
    let toks = browser_tokens(&out);
    let href = toks.iter().find_map(|t| match t {
        Tok::Open { name, attrs, .. } if name == "a" => attrs.iter().find(|a| a.0 == "href").map(|a| a.1.clone()),
        _ => None,
    });
    match href {
        None => fail("no-link", format!("no link in {:?}", out)),
        Some(h) => match base.join(&h) {
            Ok(got) if got == want => Ok(()),
            got => fail("address", format!("the link leads to {:?} instead of {}, output {:?}", got.map(|g| g.to_string()), want, out)),
        },
    }
}

/// Words, some of them in quotes (`“` and `”` in what is shown).
fn quoted_words(s: &mut Src, depth: u32) -> (String, String) {
    let n = s.range(1, 5);
    let mut t = vec![];
    let mut h = vec![];
    for i in 0..n {
        // (of adjacent quotes it is ambiguous which ones open)
        if depth > 0 && i > 0 && i + 1 < n && s.bool() {
            let (a, b) = quoted_words(s, depth - 1);
            t.push(format!("\"{}\"", a));
            h.push(format!("\u{201c}{}\u{201d}", b));
        } else {
            let w = words::word(s);
            t.push(w.clone());
            h.push(w);
        }
    }
    (t.join(" "), h.join(" "))
}

/// Quotes in the text of a link, before and after it, and around it.
fn quotes(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = super::inline_cfg(s);
    let n = s.range(1, 6);
    let mut v: Vec<(String, Vec<Node>)> = vec![];
    let mut links = 0;
    for i in 0..n {
        match s.below(6) {
            0 | 1 => {
                let w = words::word(s);
                v.push((w.clone(), vec![tx(&w)]));
            }
            2 | 3 => {
                let (t, h) = quoted_words(s, 1);
                v.push((format!("\"{}\"", t), vec![tx(&format!("\u{201c}{}\u{201d}", h))]));
                c.label("quoted");
            }
            _ => {
                links += 1;
                let (t, h) = quoted_words(s, 2);
                c.label_if(t.contains('"'), "inside");
                let attrs = Attrs::maybe_cls(s, 1, 6);
                let title = if s.chance(1, 5) { Some(words::phrase(s, 1, 2)) } else { None };
                let tt = title.as_ref().map(|t| format!("({})", t)).unwrap_or_default();
                let u = format!("/{}{}", words::ascii(s), i);
                let tail = s.pick(&["", "", ",", ".", ";"]);
                let node = a_node(&attrs, &title, &u, &cfg, vec![tx(&h)]);
                v.push((format!("\"{}{}{}\":{}{}", attrs.cls_textile(), t, tt, u, tail), vec![node, tx(tail)]));
            }
        }
    }
    c.nontrivial_if(links > 0 && c.labels_any());
    let (mut t, mut nodes) = link_nodes(&v);
    if s.chance(1, 6) {
        let (a, b) = (words::word(s), words::word(s));
        t = format!("\"{} {} {}\"", a, t, b);
        nodes.insert(0, tx(&format!("\u{201c}{} ", a)));
        nodes.push(tx(&format!(" {}\u{201d}", b)));
        c.label("around");
    }
    expect_nodes(c, &cfg, &t, &[el("p", vec![], nodes)])?;
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C15",
    rule: "a case is a text with links; non-trivial: a link (inline), a use of an alias (aliases), a URL with more than letters, digits, slashes, colons and dots (resolves), a link and quotes (quotes)",
    assumptions: &[],
    subs: &[
        Sub { name: "inline", quick: 40_000, thorough: 600_000, f: inline_links },
        Sub { name: "aliases", quick: 16_000, thorough: 300_000, f: aliases },
        Sub { name: "resolves", quick: 24_000, thorough: 400_000, f: resolves },
        Sub { name: "self", quick: 8_000, thorough: 100_000, f: self_links },
        Sub { name: "quotes", quick: 16_000, thorough: 300_000, f: quotes },
    ],
};
