//! C09: code, preformatted and literal text is shown exactly as written.
use crate::cfg::Cfg;
use crate::engine::*;
use crate::gen::{soup, words};
use crate::html::{browser_tokens, Tok};
use crate::src::Src;

/// One line of anything at all.
fn line(s: &mut Src) -> String {
    let n = s.range(1, 7);
    let mut t = String::new();
    for _ in 0..n {
        t.push_str(&soup::piece(s));
        if s.chance(1, 3) {
            t.push(' ');
        }
    }
    // control characters and the like are the tokenizer's business
    t.chars().filter(|c| !['\n', '\r', '\0', '\u{b}', '\u{c}', '\u{feff}'].contains(c)).collect()
}

fn clean(t: String, bad: &[&str]) -> String {
    let mut t = t;
    loop {
        let old = t.clone();
        for b in bad {
            t = t.replace(b, "");
        }
        t = t.replace("textileRef:UID:", "");
        if t == old {
            return t;
        }
    }
}

fn cfg_of(s: &mut Src) -> Cfg {
    Cfg { block_tags: true, lite: false, sanitize: false, ..Cfg::any(s) }
}

/// The text of the `nth` element of that name.
fn element_text(out: &str, name: &str) -> Option<(String, bool)> {
    let mut depth = 0;
    let mut text = String::new();
    let mut markup = false;
    for t in browser_tokens(out) {
        match t {
            Tok::Open { name: n, .. } => {
                if depth > 0 {
                    markup = markup || n != "code";
                }
                if n == name {
                    depth += 1;
                }
            }
            Tok::Close { name: n } if n == name => {
                depth -= 1;
                if depth == 0 {
                    return Some((text, markup));
                }
            }
            Tok::Text(x) if depth > 0 => text.push_str(&x),
            Tok::Comment(_) if depth > 0 => markup = true,
            _ => (),
        }
    }
    None
}

fn expect(out: &str, name: &str, want: &str) -> Result<(), Fail> {
    match element_text(out, name) {
        None => fail("missing", format!("no <{}> in {:?}", name, out)),
        Some((t, markup)) => {
            if markup {
                return fail("markup", format!("markup inside <{}> of {:?}", name, out));
            }
            if t != want {
                return fail("changed", format!("<{}> shows {:?} instead of {:?}\n  output: {:?}", name, t, want, out));
            }
            Ok(())
        }
    }
}

fn inline_code(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = cfg_of(s);
    let tag = s.chance(1, 3);
    let place = s.below(6);
    let mut bad = vec!["==", "<notextile>", "</notextile>", "<code>", "</code>"];
    if !tag {
        bad.push("@");
    }
    if place == 2 {
        bad.push("|");
    }
    let body = clean(line(s), &bad).trim().to_string();
    // (a code fragment is not empty, and its delimiters are not "==" either)
    if body.is_empty() || body.starts_with('=') || body.ends_with('=') {
        return Ok(());
    }
    if tag && cfg.restricted {
        return Ok(());
    }
    let code = if tag { format!("<code>{}</code>", body) } else { format!("@{}@", body) };
    let (a, b) = (words::ascii(s), words::ascii(s));
    let text = match place {
        0 => code.clone(),
        1 => format!("* {} {} {}", a, code, b),
        2 => format!("|{}|{} {} {}|", a, a, code, b),
        3 => format!("h2. {} {}", a, code),
        4 => format!("{}\n{} {}", a, code, b),
        _ => format!("{} {} {}", a, code, b),
    };
    c.nontrivial_if(body.chars().any(|x| !x.is_alphanumeric()));
    let out = c.parse(&cfg, &text)?;
    expect(&out, "code", &body)
}

fn chunk(s: &mut Src, blank: bool) -> String {
    let n = s.range(1, 4);
    let mut v = vec![];
    for i in 0..n {
        let l = line(s);
        if i > 0 && blank && s.chance(1, 4) {
            for _ in 0..s.range(1, 3) {
                v.push(String::new());
            }
            // what follows an empty line must not be a block of its own
            v.push(format!("{}; {}", words::ascii(s), l));
        } else if i == 0 {
            v.push(format!("{}{}", words::ascii(s), l));
        } else {
            v.push(format!("{}{}", " ".repeat(s.below(5) as usize), l));
        }
    }
    // lines of spaces are empty lines
    let v: Vec<String> = v.into_iter().map(|l| if l.trim_matches(|c| c == ' ' || c == '\t').is_empty() { if blank { "x".into() } else { "y".into() } } else { l }).collect();
    v.join("\n")
}

/// `bc.`, `bc..`, `pre.`, `pre..`
fn code_block(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = cfg_of(s);
    let ext = s.chance(1, 3);
    let pre = s.bool();
    let body = clean(chunk(s, false), &[]);
    let mut body = body;
    if ext {
        // empty lines inside
        for _ in 0..s.below(3) {
            let gap = "\n".repeat(s.range(2, 4) as usize);
            body = format!("{}{}{}", body, gap, clean(chunk(s, false), &[]));
        }
    }
    if body.lines().any(|l| l.trim().is_empty() && !(ext && l.is_empty())) {
        return Ok(());
    }
    let body = body.trim_end_matches([' ', '\n', '\t']).to_string();
    if body.is_empty() {
        return Ok(());
    }
    let text = format!("{}{}{} {}{}", if pre { "pre" } else { "bc" }, s.pick(&["", "", "(k)", "[rust]", "{color:red}"]), if ext { ".." } else { "." }, body, s.pick(&["", "\n\np. after", "\n\nh1. x\n\nbc. y"]));
    c.nontrivial_if(body.chars().any(|x| !x.is_alphanumeric() && x != ' '));
    c.label(if pre { "pre" } else { "bc" });
    c.label_if(ext, "extended");
    let out = c.parse(&cfg, &text)?;
    expect(&out, "pre", &body)
}

/// `<pre>`, in a paragraph or alone
fn pre_tag(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg { restricted: false, raw_blocks: false, ..cfg_of(s) };
    let body = clean(line(s), &["==", "<notextile>", "</notextile>", "<code>", "</code>", "<pre>", "</pre>", "@"]).trim().to_string();
    let body = format!("{}{}{}", s.pick(&["", "", " ", "\t", "    "]), body, s.pick(&["", "", " ", "\t", "  "]));
    if body.trim().is_empty() || body.starts_with('=') || body.ends_with('=') {
        return Ok(());
    }
    let text = match s.below(3) {
        0 => format!("<pre>{}</pre>", body),
        1 => format!("{} <pre>{}</pre>", words::ascii(s), body),
        _ => format!("<pre>\n{}\n</pre>", body),
    };
    c.nontrivial_if(body.chars().any(|x| !x.is_alphanumeric()));
    let out = c.parse(&cfg, &text)?;
    match element_text(&out, "pre") {
        Some((t, false)) if t.trim_matches('\n') == body => Ok(()),
        x => fail("changed", format!("<pre> shows {:?} instead of {:?}\n  output: {:?}", x, body, out)),
    }
}

/// `==..==`, `<notextile>`, `notextile.`: the output has it byte for byte
fn notextile(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg { restricted: false, ..cfg_of(s) };
    let kind = s.below(4);
    let bad: &[&str] = match kind {
        0 => &["=", "<br", "<BR", "<notextile>", "</notextile>", "\t"],
        1 => &["<notextile>", "</notextile>", "<br", "\t", "==", ],
        _ => &["<br", "\t", "<notextile>", "</notextile>"],
    };
    let body = clean(if kind < 2 { line(s) } else { chunk(s, false) }, bad).trim().to_string();
    if body.is_empty() || body.lines().any(|l| l.trim().is_empty()) {
        return Ok(());
    }
    let (a, b) = (words::ascii(s), words::ascii(s));
    let text = match kind {
        0 => format!("{} =={}== {}", a, body, b),
        1 => format!("{} <notextile>{}</notextile> {}", a, body, b),
        2 => format!("p. {}\n\nnotextile. {}\n\np. {}", a, body, b),
        _ => format!("p. {}\n\nnotextile.. {}\n\n{} tail\n\np. {}", a, body, a, b),
    };
    c.nontrivial_if(body.chars().any(|x| !x.is_alphanumeric()));
    let out = c.parse(&cfg, &text)?;
    if !out.contains(&body) {
        return fail("changed", format!("{:?} is not in the output {:?}", body, out));
    }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C09",
    rule: "a case is a content in one kind of code or literal; non-trivial: it has a character that is neither a letter nor a digit",
    assumptions: &[],
    subs: &[
        Sub { name: "inline-code", quick: 30_000, thorough: 400_000, f: inline_code },
        Sub { name: "code-block", quick: 24_000, thorough: 300_000, f: code_block },
        Sub { name: "pre-tag", quick: 16_000, thorough: 200_000, f: pre_tag },
        Sub { name: "notextile", quick: 24_000, thorough: 300_000, f: notextile },
    ],
};
