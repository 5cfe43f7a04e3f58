//! C11: inline phrase markup.
use crate::engine::*;
use crate::model::*;
use crate::src::Src;

fn paragraph(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = super::inline_cfg(s);
    let o = InlOpts { depth: 4, max: 5, code: !cfg.lite, ..Default::default() };
    let v = inline(s, &o);
    let text = inline_textile(&v);
    let want = vec![el("p", vec![], inline_html(&v, &cfg))];
    c.nontrivial_if(v.iter().any(|x| matches!(x, Inl::Span { .. } | Inl::Glued { .. })));
    expect_nodes(c, &cfg, &text, &want)?;
    Ok(())
}

/// Phrases in phrases, down to any depth: up to five are all there, and
/// whatever is deeper does no harm to the rest of the text.
fn deep(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = super::inline_cfg(s);
    fn nest(s: &mut Src, free: &mut Vec<usize>, depth: u32, cfg: &crate::cfg::Cfg) -> Inl {
        let at = s.below(free.len() as u32) as usize;
        let k = free.remove(at);
        // one delimiter character per chain
        free.retain(|x| SPANS[*x].0.chars().next() != SPANS[k].0.chars().next());
        let w = |s: &mut Src| Inl::Words(crate::gen::words::word(s));
        let kids = if depth <= 1 || free.is_empty() {
            vec![w(s)]
        } else {
            let inner = nest(s, free, depth - 1, cfg);
            match s.below(3) {
                0 => vec![inner],
                1 => vec![w(s), inner, w(s)],
                _ => vec![w(s), inner],
            }
        };
        Inl::Span { k, attrs: Attrs::none(), kids, tail: "" }
    }
    let n = s.range(1, 6);
    let (mut text, mut want) = (vec![], vec![]);
    let mut too_deep = vec![];
    for i in 0..n {
        let depth = if s.chance(1, 3) { s.range(6, 8) } else { s.range(1, 5) };
        // (the question marks of a citation are also punctuation)
        let mut free: Vec<usize> = (0..SPANS.len() - 1).collect();
        let v = vec![Inl::Words(crate::gen::words::word(s)), nest(s, &mut free, depth, &cfg), Inl::Words(crate::gen::words::word(s))];
        text.push(inline_textile(&v));
        if depth > 5 {
            too_deep.push(i as usize);
        }
        want.push(el("p", vec![], inline_html(&v, &cfg)));
        c.nontrivial_if(depth > 2);
        c.label_if(depth == 5, "five");
        c.label_if(depth > 5, "too-deep");
    }
    let out = c.parse(&cfg, &text.join("\n\n"))?;
    if too_deep.is_empty() {
        return compare(&out, &want);
    }
    // block by block, those that promise nothing left out
    let got: Vec<&str> = out.split("</p>").filter(|x| !x.trim().is_empty()).collect();
    if got.len() != want.len() {
        return fail("structure", format!("{} paragraphs instead of {} in {:?}", got.len(), want.len(), out));
    }
    for (i, g) in got.iter().enumerate() {
        if !too_deep.contains(&i) {
            compare(&format!("{}</p>", g), &want[i..=i])?;
        }
    }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C11",
    rule: "a case is a tree of phrases; non-trivial: at least one phrase",
    assumptions: &[],
    subs: &[Sub { name: "paragraph", quick: 80_000, thorough: 1_000_000, f: paragraph }, Sub { name: "deep", quick: 16_000, thorough: 200_000, f: deep }],
};
