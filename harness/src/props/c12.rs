//! C12: blocks.
use crate::blocks::*;
use crate::engine::*;
use crate::model::*;
use crate::src::Src;

fn blocks(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = super::plain_cfg(s);
    let d = doc(s, cfg.restricted, 4, &[3, 4, 4, 3, 3, 2, 2, 0, 0, 0, 0, 2, 1]);
    for b in &d {
        c.label(b.kind());
    }
    c.nontrivial_if(d.iter().any(|b| b.has_signature()));
    let text = if s.chance(1, 3) { doc_textile_spaced(s, &d) } else { doc_textile(&d) };
    expect_nodes(c, &cfg, &text, &doc_html(&d, &cfg))?;
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C12",
    rule: "a case is a sequence of blocks; non-trivial: at least one signature",
    assumptions: &[],
    subs: &[Sub { name: "blocks", quick: 40_000, thorough: 600_000, f: blocks }],
};
