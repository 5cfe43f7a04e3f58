//! C14: tables.
use crate::blocks::*;
use crate::engine::*;
use crate::model::*;
use crate::src::Src;

fn tables(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = super::plain_cfg(s);
    let d = doc(s, cfg.restricted, 2, &[1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 8, 0, 0]);
    c.nontrivial_if(d.iter().any(|b| b.kind() == "table"));
    expect_nodes(c, &cfg, &doc_textile(&d), &doc_html(&d, &cfg))?;
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C14",
    rule: "a case is a document with tables; non-trivial: at least one table",
    assumptions: &[],
    subs: &[Sub { name: "tables", quick: 40_000, thorough: 600_000, f: tables }],
};
