//! C23: XHTML and HTML5 outputs are the same document.
use crate::blocks::*;
use crate::cfg::Cfg;
use crate::engine::*;
use crate::gen::soup;
use crate::src::Src;

fn text(s: &mut Src) -> String {
    let mut t = if s.chance(1, 3) { doc_textile(&doc(s, false, 5, ALL)) } else { soup::any(s) };
    if s.chance(1, 3) {
        t.push_str(s.pick(&["\n\n!<i.png! x !>(c)j.png!", "\n\nABC(d e) x\ny", "\n\n|a\nb|!=k.png!|", "\n\n* !<l.png(t)!:/u\n* XYZ(q)"]));
    }
    t
}

fn norm(t: &str) -> String {
    t.replace("<br />", "<br>").replace("<acronym title=", "<abbr title=").replace("</acronym>", "</abbr>")
}

/// The same but for line breaks and acronyms (and the alignment of images,
/// which has a setting of its own).
fn same(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg { sanitize: false, align_class: Some(s.bool()), ..Cfg::any(s) };
    let t = text(s);
    if t.trim().is_empty() {
        return Ok(());
    }
    let h = c.parse(&Cfg { xhtml: false, ..cfg.clone() }, &t)?;
    let x = c.parse(&Cfg { xhtml: true, ..cfg.clone() }, &t)?;
    c.nontrivial_if(h != x);
    c.label_if(h.contains("<br>"), "br");
    c.label_if(h.contains("<abbr"), "abbr");
    if norm(&h) != norm(&x) {
        return fail("differs", format!("HTML5: {:?}\n  XHTML: {:?}", h, x));
    }
    // what is written by the parser is of the right kind
    if !t.contains('<') {
        if h.contains("<br />") || h.contains("<acronym") {
            return fail("xhtml-in-html5", format!("HTML5: {:?}", h));
        }
        if x.contains("<br>") || x.contains("<abbr") {
            return fail("html5-in-xhtml", format!("XHTML: {:?}", x));
        }
    }
    Ok(())
}

/// Images are aligned by a class in HTML5 and by an attribute in XHTML, unless
/// set otherwise.
fn align(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg { align_class: None, ..Cfg::any(s) };
    let mut t = text(s);
    if s.bool() {
        t.push_str(s.pick(&["\n\nx !<i.png! y", "\n\n!>(c)j.png!:/u", "\n\n|!=k.png!|"]));
    }
    let a = c.parse(&cfg, &t)?;
    let b = c.parse(&Cfg { align_class: Some(!cfg.xhtml), ..cfg.clone() }, &t)?;
    if a != b {
        return fail("default", format!("by default: {:?}\n  set: {:?}", a, b));
    }
    let o = c.parse(&Cfg { align_class: Some(cfg.xhtml), ..cfg.clone() }, &t)?;
    c.nontrivial_if(a != o);
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C23",
    rule: "the two outputs differ before the normalisation",
    assumptions: &[],
    subs: &[
        Sub { name: "same", quick: 9_000, thorough: 250_000, f: same },
        Sub { name: "align", quick: 3_000, thorough: 80_000, f: align },
    ],
};
