//! C19: attributes.
use crate::blocks::*;
use crate::engine::*;
use crate::gen::words;
use crate::html::{browser_tokens, Node, Tok};
use crate::model::*;
use crate::src::Src;

/// The groups in any order the syntax allows: alignment and padding before or
/// after the class, style and language groups.
fn shuffled(s: &mut Src, a: &Attrs) -> String {
    let mut pre = String::new();
    let mut post = String::new();
    // (an alignment between the two paddings is not recognised)
    let mut bits = vec![a.align_textile().to_string(), format!("{}{}", "(".repeat(a.pl), ")".repeat(a.pr))];
    bits.retain(|b| !b.is_empty());
    for i in (1..bits.len()).rev() {
        let j = s.below(i as u32 + 1) as usize;
        bits.swap(i, j);
    }
    let cls = a.cls_textile();
    for b in bits {
        // a "(" right before a class would belong to it
        if b.starts_with('(') || s.bool() {
            post.push_str(&b);
        } else {
            pre.push_str(&b);
        }
    }
    format!("{}{}{}", pre, cls, post)
}

fn blocks(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = super::plain_cfg(s);
    let a = Attrs::block(s, cfg.restricted);
    let w = words::phrase(s, 1, 3);
    let t = shuffled(s, &a);
    let (tag, name) = *s.pick_of(&[("p", "p"), ("h1", "h1"), ("h2", "h2"), ("h3", "h3"), ("h4", "h4"), ("h5", "h5"), ("h6", "h6"), ("pre", "pre"), ("bc", "pre")]);
    let mut a2 = a.clone();
    let mut want_attrs = a.html(cfg.restricted);
    if tag == "bc" {
        a2.lang = None;
        want_attrs = a2.html(cfg.restricted);
        // (a language is the language of the code)
        if let Some(l) = &a.lang {
            if !cfg.restricted || true {
                c.nontrivial = true;
                return expect_nodes(c, &cfg, &format!("bc{}. {}", t, w), &[el("pre", want_attrs, vec![el("code", vec![kv("class", l)], vec![tx(&w)])])]).map(|_| ());
            }
        }
    }
    let body = if tag == "bc" { vec![el("code", vec![], vec![tx(&w)])] } else { vec![tx(&w)] };
    c.nontrivial_if(!a.is_empty());
    expect_nodes(c, &cfg, &format!("{}{}. {}", tag, t, w), &[el(name, want_attrs, body)])?;
    Ok(())
}

/// The same attributes on every construct that takes them.
fn everywhere(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = super::plain_cfg(s);
    let r = cfg.restricted;
    let a = Attrs::cls(s);
    let t = a.cls_textile();
    let h = a.html(r);
    let (x, y) = (words::ascii(s), words::ascii(s));
    let n = |name: &str, at: &[(String, String)], k: Vec<Node>| el(name, at.to_vec(), k);
    let p = |k: Vec<Node>| el("p", vec![], k);
    let with = |extra: Vec<(String, String)>| {
        let mut v = h.clone();
        v.extend(extra);
        v
    };
    let link = |extra: Vec<(String, String)>| {
        let mut v = with(extra);
        if let Some(r) = &cfg.rel {
            v.push(kv("rel", r));
        }
        v
    };
    let place = s.below(20);
    let (text, want) = match place {
        0 => (format!("p{}. {}", t, x), vec![n("p", &h, vec![tx(&x)])]),
        1 => (format!("*{} {}\n* {}", t, x, y), vec![n("ul", &h, vec![n("li", &[], vec![tx(&x)]), n("li", &[], vec![tx(&y)])])]),
        2 => (format!("# {}\n#{} {}", x, t, y), vec![n("ol", &[], vec![n("li", &[], vec![tx(&x)]), n("li", &h, vec![tx(&y)])])]),
        3 => (format!("|{}|{}. {}|", x, t, y), vec![n("table", &[], vec![n("tr", &[], vec![n("td", &[], vec![tx(&x)]), n("td", &h, vec![tx(&y)])])])]),
        4 => (format!("|_{}. {}|", t, x), vec![n("table", &[], vec![n("tr", &[], vec![n("th", &h, vec![tx(&x)])])])]),
        5 => (format!("{}. |{}|", t, x), vec![n("table", &[], vec![n("tr", &h, vec![n("td", &[], vec![tx(&x)])])])]),
        6 => (format!("table{}.\n|{}|", t, x), vec![n("table", &h, vec![n("tr", &[], vec![n("td", &[], vec![tx(&x)])])])]),
        7 => (format!("|^{}.\n|{}|", t, x), vec![n("table", &[], vec![n("thead", &h, vec![n("tr", &[], vec![n("td", &[], vec![tx(&x)])])])])]),
        8 => (format!("|={}. {}\n|{}|", t, x, y), vec![n("table", &[], vec![n("caption", &h, vec![tx(&x)]), n("tr", &[], vec![n("td", &[], vec![tx(&y)])])])]),
        9 => (format!("\"{}{}\":/u", t, x), vec![p(vec![n("a", &link(vec![kv("href", "/u")]), vec![tx(&x)])])]),
        10 => (format!("{} !{}/i.png!", x, t), vec![p(vec![tx(&x), tx(" "), n("img", &with(vec![kv("alt", ""), kv("src", "/i.png")]), vec![])])]),
        11 => {
            let k = s.below(SPANS.len() as u32) as usize;
            let (d, name) = SPANS[k];
            (format!("{} {}{}{}{}", y, d, t, x, d), vec![p(vec![tx(&y), tx(" "), n(name, &h, vec![tx(&x)])])])
        }
        12 => {
            let b = { let mut b = a.clone(); b.id = None; b };
            (format!("bq{}. {}", b.cls_textile(), x), vec![n("blockquote", &b.html(r), vec![n("p", &b.html(r), vec![tx(&x)])])])
        }
        13 => (format!("- {} := {}\n-{} {} := {}", x, y, t, x, y), vec![n("dl", &[], vec![n("dt", &[], vec![tx(&x)]), n("dd", &[], vec![tx(&y)]), n("dt", &h, vec![tx(&x)]), n("dd", &[], vec![tx(&y)])])]),
        14 => (format!("; {}\n:{} {}", x, t, y), vec![n("dl", &[], vec![n("dt", &[], vec![tx(&x)]), n("dd", &h, vec![tx(&y)])])]),
        15 => (format!("{}[{}#n]\n\nnote#n. y", x, t), vec![]),
        16 => (format!("{}[#n]\n\nnote#n{}. {}\n\nnotelist.", x, t, y), vec![]),
        17 => (format!("{}[#n]\n\nnote#n. {}\n\nnotelist{}.", x, y, t), vec![]),
        18 => (format!("pre{}. {}", t, x), vec![n("pre", &h, vec![tx(&x)])]),
        _ => (format!("h4{}. {}", t, x), vec![n("h4", &h, vec![tx(&x)])]),
    };
    c.nontrivial_if(!a.is_empty());
    if !want.is_empty() {
        expect_nodes(c, &cfg, &text, &want)?;
        return Ok(());
    }
    // notes: the element meant has them
    let name = ["sup", "li", "ol"][place as usize - 15];
    let out = c.parse(&cfg, &text)?;
    let mut w = h.clone();
    w.sort();
    let found = browser_tokens(&out).into_iter().find_map(|t| match t {
        Tok::Open { name: n, mut attrs, .. } if n == name => {
            attrs.sort();
            Some(attrs)
        }
        _ => None,
    });
    if found.as_ref() != Some(&w) {
        return fail("note-attributes", format!("<{}> has {:?} instead of {:?} in {:?}", name, found, w, out));
    }
    Ok(())
}

const HOSTILE: &[&str] = &["\"", "'", "<", ">", "&", "&amp;", "&quot;", "=", " onclick=x ", "\" onx=\"y", "'x", "javascript:", "url(", "*", "_", "@", "--", "...", "%", "|", "!", "é", "日", "\\", "/", ";", ":", "#", "expression(", "/*", "HTML", "http://a.com", "==", "$1", "^", "~", "?"];

fn hostile_value(s: &mut Src, not: &[char]) -> String {
    let n = s.range(1, 4);
    let mut v = String::new();
    for _ in 0..n {
        v.push_str(s.pick(HOSTILE));
        if s.bool() {
            v.push_str(&words::ascii(s));
        }
    }
    v.chars().filter(|c| !not.contains(c)).collect()
}

/// No value of an attribute can become markup or another attribute.
fn hostile(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = super::plain_cfg(s);
    let mut a = String::new();
    // One group of each kind: with a group repeated there may be no
    // attributes at all, but a text, in which raw HTML is legal.
    let mut kinds = vec![0, 1, 2];
    for i in (1..kinds.len()).rev() {
        let j = s.below(i as u32 + 1) as usize;
        kinds.swap(i, j);
    }
    let k = s.range(1, 3) as usize;
    let open: &[char] = if cfg.restricted { &[] } else { &['<', '>'] };
    for kind in &kinds[..k] {
        let no = |x: [char; 2]| [open, &x[..]].concat();
        match kind {
            0 if s.bool() => a.push_str(&format!("({})", hostile_value(s, &no(['(', ')'])))),
            0 => a.push_str(&format!("(#{})", hostile_value(s, &no(['(', ')'])))),
            1 => a.push_str(&format!("{{{}}}", hostile_value(s, &no(['{', '}'])))),
            _ => a.push_str(&format!("[{}]", hostile_value(s, &no(['[', ']'])))),
        }
    }
    let w = "zqwzq";
    let text = match s.below(11) {
        0 => format!("p{}. {}", a, w),
        1 => format!("h3{}. {}", a, w),
        2 => format!("bq{}. {}", a, w),
        3 => format!("*{} {}", a, w),
        4 => format!("|{}. {}|", a, w),
        5 => format!("table{}.\n|{}|", a, w),
        6 => format!("x *{}{}* y", a, w),
        7 => format!("\"{}{}\":/u", a, w),
        8 => format!("!{}/i.png! {}", a, w),
        9 => format!("bc{}. {}", a, w),
        _ => format!("%{}{}%", a, w),
    };
    c.nontrivial = true;
    let out = c.parse(&cfg, &text)?;
    if out.matches(w).count() != 1 {
        return fail("content", format!("{:?} is not once in {:?}", w, out));
    }
    for t in browser_tokens(&out) {
        match t {
            Tok::Open { name, attrs, .. } => {
                for (k, _) in &attrs {
                    if !["class", "id", "style", "lang", "href", "src", "alt", "title", "rel", "cite", "summary", "align", "width", "height", "colspan", "rowspan"].contains(&k.as_str()) {
                        return fail("attribute", format!("attribute {:?} of <{}> in {:?}", k, name, out));
                    }
                }
                if !["p", "h3", "blockquote", "ul", "li", "table", "tr", "td", "strong", "a", "img", "pre", "code", "span", "em", "sub", "sup", "del", "ins", "cite", "i", "b", "br", "ol", "th", "caption", "thead", "tbody", "tfoot", "colgroup", "col"].contains(&name.as_str()) {
                    return fail("element", format!("<{}> in {:?}", name, out));
                }
            }
            Tok::Comment(_) | Tok::Other(_) => return fail("markup", format!("{:?}", out)),
            _ => (),
        }
    }
    Ok(())
}

const VALUE_CHARS: &str = "abcXYZ0189-_.:/,;!?@$%^&*+=|~'\\\"` éß日";

fn value(s: &mut Src, not: &str) -> String {
        let n = s.range(1, 9);
        let mut v = String::new();
        let safe = s.bool();
        for _ in 0..n {
            let all: Vec<char> = if safe { "abcXYZ0189-_".chars().collect() } else { VALUE_CHARS.chars().collect() };
            let ch = *s.pick_of(&all);
            if !not.contains(ch) {
                v.push(ch);
            }
        }
    let v = v.trim().to_string();
    // ("p(. x" is a padding)
    if !v.starts_with(|c: char| c.is_alphanumeric()) { "a".to_string() + &v } else { v }
}

/// What is written in a group is the value, when a name can have that value.
fn values(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = super::plain_cfg(s);
    let r = cfg.restricted;
    let tag = s.pick(&["p", "h1", "h6", "pre", "td", "li", "span"]);
    // (signs that mean something else before attributes are looked for)
    let not = match tag {
        "td" | "li" | "span" => "!@%^&*+=|~?`$\\/\"'-_",
        _ if r => "&=\"'",
        _ => "",
    };
    let mut want = vec![];
    let mut t = String::new();
    let class_ok = |v: &str| v.chars().all(|c| c.is_ascii_alphanumeric() || "-_./ ".contains(c));
    let id_ok = |v: &str| v.chars().all(|c| c.is_ascii_alphanumeric() || "-_.:".contains(c));
    if s.bool() {
        let (cl, id) = match s.below(3) {
            0 => (Some(value(s, not)), None),
            1 => (None, Some(value(s, not))),
            _ => (Some(value(s, not)), Some(value(s, not))),
        };
        t.push('(');
        if let Some(v) = &cl {
            t.push_str(v);
            if class_ok(v) && !r {
                want.push(kv("class", v));
            } else {
                c.label("class-refused");
            }
        }
        if let Some(v) = &id {
            t.push('#');
            t.push_str(v);
            if id_ok(v) && !r {
                want.push(kv("id", v));
            } else {
                c.label("id-refused");
            }
        }
        t.push(')');
    }
    if s.bool() {
        let n = s.range(1, 4);
        let mut v: Vec<String> = (0..n).map(|_| value(s, &format!(";{}", not))).collect();
        if !r && s.chance(1, 3) {
            let f = format!("{}:{}({})", words::ascii(s), words::ascii(s), value(s, &format!(";{}", not)));
            let k = s.below(n + 1) as usize;
            v.insert(k, f);
        }
        t.push_str(&format!("{{{}{}}}", v.join(s.pick(&[";", "; ", " ; "])), s.pick(&["", ";"])));
        if !r {
            want.push(kv("style", &format!("{};", v.join("; "))));
        }
    }
    if s.bool() {
        let v = value(s, not);
        t.push_str(&format!("[{}]", v));
        want.push(kv("lang", &v));
    }
    let w = words::ascii(s);
    c.nontrivial_if(!want.is_empty());
    match tag {
        "td" => expect_nodes(c, &cfg, &format!("|x|{}. {}|", t, w), &[el("table", vec![], vec![el("tr", vec![], vec![el("td", vec![], vec![tx("x")]), el("td", want, vec![tx(&w)])])])])?,
        "li" => expect_nodes(c, &cfg, &format!("* x\n*{} {}", t, w), &[el("ul", vec![], vec![el("li", vec![], vec![tx("x")]), el("li", want, vec![tx(&w)])])])?,
        "span" => expect_nodes(c, &cfg, &format!("x %{}{}%", t, w), &[el("p", vec![], vec![tx("x "), el("span", want, vec![tx(&w)])])])?,
        tag => expect_nodes(c, &cfg, &format!("{}{}. {}", tag, t, w), &[el(tag, want, vec![tx(&w)])])?,
    };
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C19",
    rule: "a case is a construct with attributes; non-trivial: at least one attribute",
    assumptions: &[],
    subs: &[
        Sub { name: "blocks", quick: 30_000, thorough: 300_000, f: blocks },
        Sub { name: "everywhere", quick: 30_000, thorough: 300_000, f: everywhere },
        Sub { name: "hostile", quick: 30_000, thorough: 300_000, f: hostile },
        Sub { name: "values", quick: 30_000, thorough: 300_000, f: values },
    ],
};
