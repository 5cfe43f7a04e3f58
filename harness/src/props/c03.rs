//! C03: only whitelisted URL schemes reach the output.
use crate::cfg::Cfg;
use crate::engine::*;
use crate::gen::{soup, words};
use crate::html::{browser_tokens, Tok};
use crate::src::Src;

const RESTRICTED: &[&str] = &["http", "https", "ftp", "mailto"];
const UNRESTRICTED: &[&str] = &["http", "https", "ftp", "mailto", "file", "tel", "callto", "sftp", "data"];

fn scheme(s: &mut Src) -> String {
    let base = *s.pick_of(&[
        "javascript", "vbscript", "data", "file", "jar", "view-source", "livescript", "mocha", "blob", "about", "chrome", "ws", "wss", "tel", "sftp", "callto", "feed",
        "http", "https", "ftp", "mailto", "intent", "x", "httpx", "xhttp", "ssh", "javascript",
    ]);
    let mut t = base.to_string();
    if s.chance(1, 3) {
        // odd spellings
        let k = s.below(t.len() as u32 + 1) as usize;
        match s.below(9) {
            0 => t = t.to_uppercase(),
            1 => {
                let (a, b) = t.split_at(k);
                t = format!("{}{}", a.to_uppercase(), b);
            }
            2 => t.insert(k, '\t'),
            3 => t.insert_str(k, "&#9;"),
            4 => t.insert_str(k, "&Tab;"),
            5 => t.insert(k, s.pick(&["\u{1}", "\u{0}", "\u{7f}", "\u{ad}", "\u{200b}", "\u{feff}", "\u{b}"]).chars().next().unwrap()),
            6 => t = t.replacen('a', "&#97;", 1),
            7 => t = t.replacen('a', "&#x61;", 1),
            _ => t.insert_str(0, s.pick(&["\u{1}", " ", "\u{a0}", "&nbsp;", "%20", "\u{1f}", "&#1;", "/", "\\"])),
        }
    }
    t
}

fn hostile(s: &mut Src) -> String {
    let colon = s.pick(&[":", ":", ":", ":", ":", "&#58;", "&colon;", "%3A", "：", "\t:", ":://"]);
    let rest = match s.below(9) {
        0 => "alert(1)".to_string(),
        1 => "//x.com/%0aalert(1)".into(),
        2 => "text/html,x".into(),
        3 => "//comment%0aalert(1)//".into(),
        4 => "/etc/passwd".into(),
        5 => format!("{}@{}.com", words::ascii(s), words::ascii(s)),
        6 => "x[1]".into(),
        7 => "//[".into(),
        _ => words::ascii(s),
    };
    format!("{}{}{}", scheme(s), colon, rest)
}

fn place(s: &mut Src, u: &str) -> String {
    let w = words::word(s);
    match s.below(17) {
        0 => format!("\"{}\":{}", w, u),
        1 => format!("[\"{}\":{}]", w, u),
        2 => format!("!{}!", u),
        3 => format!("!a.png!:{}", u),
        4 => format!("!{}(t)!:{}", u, u),
        5 => format!("\n\nbq.:{} {}\n\n", u, w),
        6 => format!("??:{} {}??", u, w),
        7 => format!("*:{} {}*", u, w),
        8 => format!("%:{} {}%", u, w),
        9 => format!("\"{}\":al1\n\n[al1]{}\n\n", w, u),
        10 => format!("!a.png!:al2\n\n[al2]{}\n\n", u),
        11 => format!("\"$\":{}", u),
        12 => format!("\n\nbq.:al3 {}\n\n[al3]{}\n\n", w, u),
        13 => format!("\"!{}!\":{}", u, u),
        14 => format!("|\"{}\":{}|!{}!|\n", w, u, u),
        15 => format!("_:{} \"x\":{}_", u, u),
        _ => format!("\n\nbq..:{} {}\n\n{}\n\n", u, w, w),
    }
}

fn attrs_ok(cfg: &Cfg, out: &str) -> Result<usize, Fail> {
    let allowed = if cfg.restricted { RESTRICTED } else { UNRESTRICTED };
    let base = url::Url::parse("zzbase://host/dir/page").unwrap();
    let mut n = 0;
    for t in browser_tokens(out) {
        if let Tok::Open { name, attrs, .. } = t {
            for (k, v) in attrs {
                if k == "href" || k == "src" || k == "cite" {
                    n += 1;
                    // what a browser makes of it
                    if let Ok(u) = base.join(&v) {
                        if u.scheme() != "zzbase" && !allowed.contains(&u.scheme()) {
                            return fail(&format!("scheme:{}", k), format!("<{} {}={:?}> has the scheme {:?}; output {:?}", name, k, v, u.scheme(), out));
                        }
                    }
                }
            }
        }
    }
    Ok(n)
}

fn placed(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg { sanitize: false, ..Cfg::any(s) };
    let mut text = String::new();
    for _ in 0..s.range(1, 3) {
        let u = hostile(s);
        text.push_str(&place(s, &u));
        text.push(' ');
    }
    let out = c.parse(&cfg, &text)?;
    let n = attrs_ok(&cfg, &out)?;
    c.nontrivial = true;
    c.label_if(n > 0, "url-in-output");
    c.label_if(n == 0, "refused");
    Ok(())
}

/// Anything at all, raw HTML left out where it is allowed.
fn soups(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg { sanitize: false, ..Cfg::any(s) };
    let mut text = soup::any(s);
    for _ in 0..s.range(1, 3) {
        let u = hostile(s);
        let p = place(s, &u);
        let mut at = s.below(text.len() as u32 + 1) as usize;
        while !text.is_char_boundary(at) {
            at -= 1;
        }
        text.insert_str(at, &p);
    }
    if !cfg.restricted {
        text = text.replace('<', "");
    }
    let out = c.parse(&cfg, &text)?;
    let n = attrs_ok(&cfg, &out)?;
    c.nontrivial_if(n > 0);
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C03",
    rule: "a case is a hostile URL in a place for addresses, or a soup; non-trivial: a place was filled, or the output has an address",
    assumptions: &[],
    subs: &[
        Sub { name: "placed", quick: 30_000, thorough: 800_000, f: placed },
        Sub { name: "soups", quick: 20_000, thorough: 600_000, f: soups },
    ],
};
