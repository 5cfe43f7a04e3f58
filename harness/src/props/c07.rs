//! C07: the internal markers are invisible and cannot be forged.
use crate::blocks::*;
use crate::cfg::Cfg;
use crate::engine::*;
use crate::gen::{soup, words};
use crate::src::Src;

const UIDS: &[&str] = &["UID", "a", "", "0", "7f3a9c", "$1", "$0", "x.y", "é", "日本", "ABC", "1:shelve", "\\d", "ospan", "$2a", "Ünï", "0000"];

fn uid(s: &mut Src) -> String {
    if s.chance(1, 3) {
        words::ident(s)
    } else {
        s.pick(UIDS).to_string()
    }
}

const TRACES: &[&str] = &["textileRef", ":shelve", ":ospan", ":cspan", "linkStartMarker", ":glyph:"];

fn no_traces(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let mut cfg = Cfg::any(s);
    cfg.uid = s.pick(&["UID", "qz7", "k1"]).to_string();
    let text = if s.chance(1, 100) {
        let mut t = super::volume(s, 80);
        for x in TRACES.iter().chain(&[":url"]) {
            t = t.replace(x, "");
        }
        t
    } else if s.bool() {
        soup::any(s)
    } else {
        let d = doc(s, cfg.restricted, 4, ALL);
        doc_textile(&d)
    };
    if TRACES.iter().any(|t| text.contains(t)) || text.contains(":url") {
        return Ok(());
    }
    let out = c.parse(&cfg, &text)?;
    c.nontrivial_if(out.contains('<') && text.len() > 4);
    for t in TRACES {
        if out.contains(t) {
            return fail("trace", format!("{:?} is left in {:?}", t, out));
        }
    }
    if out.contains(":url") {
        return fail("trace", format!("\":url\" is left in {:?}", out));
    }
    Ok(())
}

/// The uid is part of the ids only, whatever it is.
fn renamed(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let mut cfg = Cfg::any(s);
    cfg.sanitize = false;
    let odd = uid(s);
    let mut text = match s.below(4) {
        0 => soup::any(s),
        1 => {
            let d = doc(s, cfg.restricted, 4, ALL);
            doc_textile(&d)
        }
        _ => {
            let n = s.range(1, 6);
            (0..n)
                .map(|_| s.pick(&["HTML(abc) NATO", "*a* _b_ @c@ ==d==", "\"l\":http://e.com/x", "x[1] y[2]\n\nfn1. z\n\nfn2^. w", "p[#n] q[#n] r[#m]\n\nnote#n. s", "!i.png(t)!", "* a\n* b", "|a|b|", "bc. c", "\"$\":http://e.com", "notelist.", "(c) -- \"q\"", " \"z\" "]))
                .collect::<Vec<_>>()
                .join(s.pick(&[" ", "\n", "\n\n"]))
        }
    };
    if TRACES.iter().any(|t| text.contains(t)) {
        return Ok(());
    }
    text = text.replace("qz7", "");
    cfg.uid = "qz7".into();
    let a = c.parse(&cfg, &text)?;
    cfg.uid = odd.clone();
    let b = c.parse(&cfg, &text)?;
    c.nontrivial_if(a.contains("qz7") || a.contains('='));
    c.label_if(a.contains("qz7"), "ids");
    let mut back = a.clone();
    for p in ["fnrev", "fn", "noteref", "note"] {
        // ids and the links to them, in the order in which they can overlap
        for q in ["id=\"", "href=\"#"] {
            back = back.replace(&format!("{}{}qz7-", q, p), &format!("{}{}{}-", q, p, odd));
        }
    }
    if back != b {
        return fail("renamed", format!("uid {:?} gives {:?}, another one gives {:?}", odd, b, a));
    }
    Ok(())
}

/// What looks like a marker in the text stands for nothing: the rest of the
/// document appears once and only once.
fn forged(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let mut cfg = Cfg::any(s);
    cfg.block_tags = true;
    cfg.sanitize = false;
    cfg.lite = false;
    cfg.uid = s.pick(&["UID", "a", "", "$1", "é", "a.b", "textileRef:"]).to_string();
    let mut marker = |s: &mut Src| {
        let p = format!("textileRef:{}:", cfg.uid);
        let n = s.range(1, 12);
        let body = match s.below(8) {
            0 => format!("{}{}:shelve", p, n),
            1 => format!("{}{}:url", p, n),
            2 => format!("{}{}:ospan ", p, n),
            3 => format!(" {}{}:cspan", p, n),
            4 => format!("{}linkStartMarker:\"x\":http://f.com/", p),
            5 => format!("{}:glyph:", p),
            6 => format!("{}{}{}:shelve", &p[..10], p, &p[10..]),
            _ => p.clone(),
        };
        // hide it from a single-pass removal, or break it
        match s.below(4) {
            0 => format!("textileRef:{}{}{}:{}", p, "", cfg.uid, body),
            1 => format!("textile{}Ref:{}:{}:shelve", p, cfg.uid, n),
            _ => body,
        }
    };
    let mut words: Vec<String> = vec![];
    let mut fresh = |words: &mut Vec<String>| {
        let w = format!("zq{}zq", words.len());
        words.push(w.clone());
        w
    };
    let mut parts = vec![];
    let n = s.range(2, 6);
    for _ in 0..n {
        let m = marker(s);
        let w = fresh(&mut words);
        parts.push(match s.below(8) {
            0 => format!("@{}@ {}", w, m),
            1 => format!("{} \"{}\":http://e.com/", m, w),
            2 => format!("*{}* {}", w, m),
            3 => format!("=={}== {}", w, m),
            4 => format!("|{}|{}|", w, m),
            5 => format!("!i.png({})! {}", w, m).replace(&format!("({})", w), &format!("! {} !j.png", w)),
            6 => format!("bc. {}\n\np. {}", w, m),
            _ => format!("{} {}", m, w),
        });
    }
    let text = parts.join("\n\n");
    c.nontrivial = true;
    let out = c.parse(&cfg, &text)?;
    for w in &words {
        let k = out.matches(w.as_str()).count();
        if k != 1 {
            return fail("forged", format!("{:?} appears {} times in {:?}", w, k, out));
        }
    }
    Ok(())
}

/// However many things were put aside, each comes back in its own place.
fn many(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let mut cfg = super::plain_cfg(s);
    cfg.uid = s.pick(&["UID", "a", "7"]).to_string();
    cfg.rel = None;
    let n = s.range(900, 1500);
    let kind = s.below(7);
    let mut text = String::new();
    let mut want = vec![];
    for i in 0..n {
        let w = format!("zq{}zq", i);
        let k = if kind < 6 { kind } else { s.below(6) };
        let (t, h) = match k {
            0 => (format!("@{}@", w), format!("<code>{}</code>", w)),
            1 => (format!("\"l\":/{}", w), format!("<a href=\"/{}\">l</a>", w)),
            2 => (format!("!/{}.png!", w), format!("src=\"/{}.png\"", w)),
            3 => (format!("=={}==", w), w.clone()),
            4 => (format!("*{}*", w), format!("<strong>{}</strong>", w)),
            _ => (format!("@{}@ *x*", w), format!("<code>{}</code> <strong>x</strong>", w)),
        };
        text.push_str(&t);
        text.push_str(if i % 16 == 15 { "\n\n" } else { " " });
        want.push((w, h));
    }
    c.nontrivial = true;
    let out = c.parse(&cfg, text.trim_end())?;
    let mut at = 0;
    for (w, h) in &want {
        match out[at..].find(h.as_str()) {
            Some(p) => at += p + h.len(),
            None => return fail("many", format!("{:?} is missing or out of its place, of {} such", h, n)),
        }
        if out.matches(w.as_str()).count() != 1 {
            return fail("many", format!("{:?} appears more than once, of {} such", w, n));
        }
    }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C07",
    rule: "a case is a text with look-alikes of markers, and a uid; non-trivial: markup was produced (no-traces), ids or links were (renamed), a forgery was tried (forged), some thousand things were put aside (many)",
    assumptions: &[],
    subs: &[
        Sub { name: "no-traces", quick: 25_000, thorough: 600_000, f: no_traces },
        Sub { name: "renamed", quick: 10_000, thorough: 200_000, f: renamed },
        Sub { name: "forged", quick: 8_000, thorough: 200_000, f: forged },
        Sub { name: "many", quick: 24, thorough: 400, f: many },
    ],
};
