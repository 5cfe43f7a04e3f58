//! C22: the way lines end and the blank lines around blocks do not matter.
use crate::blocks::*;
use crate::cfg::Cfg;
use crate::engine::*;
use crate::gen::soup;
use crate::model::*;
use crate::src::Src;

fn any_text(s: &mut Src) -> String {
    let t = if s.chance(1, 3) { doc_textile(&doc(s, false, 5, ALL)) } else { soup::any(s) };
    t.replace("\r\n", "\n").replace('\r', "\n")
}

/// CR LF and CR are line ends like LF.
fn line_ends(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg::any(s);
    let t = any_text(s);
    if t.trim().is_empty() {
        return Ok(());
    }
    let mut v = String::new();
    let style = s.below(3);
    let mut changed = 0;
    let chars: Vec<char> = t.chars().collect();
    for (i, ch) in chars.iter().enumerate() {
        if *ch != '\n' {
            v.push(*ch);
            continue;
        }
        let kind = match style {
            0 => 1,
            1 => 2,
            _ => s.below(3),
        };
        match kind {
            1 => v.push_str("\r\n"),
            // a lone CR must not meet an LF
            2 if style == 1 || chars.get(i + 1) != Some(&'\n') => v.push('\r'),
            2 => v.push_str("\r\n"),
            _ => v.push('\n'),
        }
        if kind > 0 {
            changed += 1;
        }
    }
    c.nontrivial_if(changed > 0);
    c.label(["CR LF", "CR", "mixed"][style as usize]);
    let a = c.parse(&cfg, &t)?;
    let b = c.parse(&cfg, &v)?;
    if a != b {
        return fail("line-ends", format!("with LF: {:?}\n  with {}: {:?}", a, ["CR LF", "CR", "mixed"][style as usize], b));
    }
    Ok(())
}

/// Blank lines: spaces and tabs in them, and newlines around the text, count
/// for nothing.
fn blank_lines(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg::any(s);
    let t = any_text(s);
    if t.trim().is_empty() {
        return Ok(());
    }
    // the text without white space in its blank lines
    let lines: Vec<&str> = t.split('\n').map(|l| if l.trim_matches([' ', '\t']).is_empty() { "" } else { l }).collect();
    let base = lines.join("\n");
    let base = base.trim_matches('\n');
    let mut v = String::new();
    let mut changed = false;
    let n = s.below(3);
    for _ in 0..n {
        v.push_str(s.pick(&["\n", " \n", "\t\n", "\r\n"]));
        changed = true;
    }
    let parts: Vec<&str> = base.split('\n').collect();
    for (i, l) in parts.iter().enumerate() {
        if l.is_empty() && s.bool() {
            v.push_str(s.pick(&[" ", "\t", "   ", " \t "]));
            changed = true;
        }
        v.push_str(l);
        if i + 1 < parts.len() {
            v.push('\n');
        }
    }
    let n = s.below(3);
    for _ in 0..n {
        v.push_str(s.pick(&["\n", "\n \n", "\n\t\n", "\r\n"]));
        changed = true;
    }
    c.nontrivial_if(changed);
    let a = c.parse(&cfg, base)?;
    let b = c.parse(&cfg, &v)?;
    if a != b {
        return fail("blank-lines", format!("without: {:?}\n  with: {:?}", a, b));
    }
    Ok(())
}

/// However many blank lines separate blocks, they are the same blocks.
fn many(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = super::plain_cfg(s);
    let d: Vec<_> = doc(s, cfg.restricted, 6, ALL);
    let has_ext = d.iter().any(|b| b.is_ext());
    let t = doc_textile(&d);
    let mut v = String::new();
    let mut changed = false;
    let mut rest = t.as_str();
    while let Some(i) = rest.find("\n\n") {
        v.push_str(&rest[..i + 2]);
        // (blank lines within extended code are code)
        if !has_ext {
            let n = s.below(3) as usize;
            v.push_str(&"\n".repeat(n));
            changed |= n > 0;
        }
        rest = &rest[i + 2..];
    }
    v.push_str(rest);
    c.nontrivial_if(changed);
    expect_nodes(c, &cfg, &v, &doc_html(&d, &cfg))?;
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C22",
    rule: "the rewritten text differs from the original (and neither is blank)",
    assumptions: &["texts of white space only are returned as they are"],
    subs: &[
        Sub { name: "line-ends", quick: 6_000, thorough: 200_000, f: line_ends },
        Sub { name: "blank-lines", quick: 6_000, thorough: 200_000, f: blank_lines },
        Sub { name: "many", quick: 5_000, thorough: 150_000, f: many },
    ],
};
