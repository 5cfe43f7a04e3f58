//! C13: lists.
use crate::blocks::*;
use crate::cfg::Cfg;
use crate::engine::*;
use crate::gen::words;
use crate::html::*;
use crate::model::*;
use crate::src::Src;

fn lists(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = super::plain_cfg(s);
    let d = doc(s, cfg.restricted, 3, &[1, 0, 0, 0, 0, 0, 0, 8, 0, 0, 0, 0, 0]);
    c.nontrivial_if(d.iter().any(|b| matches!(b, Blk::List(l) if l.items.len() > 1)));
    c.label_if(d.iter().any(|b| matches!(b, Blk::List(l) if l.start == Start::Continue)), "continued");
    c.label_if(d.iter().any(|b| matches!(b, Blk::List(l) if l.items.iter().any(|i| i.sub.is_some()))), "nested");
    expect_nodes(c, &cfg, &doc_textile(&d), &doc_html(&d, &cfg))?;
    Ok(())
}

fn deflists(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = super::plain_cfg(s);
    let d = doc(s, cfg.restricted, 2, &[1, 0, 0, 0, 0, 0, 0, 0, 4, 4, 0, 0, 0]);
    c.nontrivial_if(d.iter().any(|b| b.kind() == "deflist"));
    expect_nodes(c, &cfg, &doc_textile(&d), &doc_html(&d, &cfg))?;
    Ok(())
}

/// A list of any kind inside an item of a list of any kind.
struct Mixed {
    kind: u32,
    items: Vec<(bool, Attrs, Vec<Inl>, Option<Mixed>)>,
}

fn mixed_gen(s: &mut Src, depth: u32) -> Mixed {
    let o = InlOpts { depth: 1, max: 2, br: false, ..Default::default() };
    let kind = s.below(3);
    let mut items = vec![];
    for _ in 0..s.range(1, 3) {
        if kind == 2 {
            for _ in 0..s.range(1, 2) {
                items.push((true, Attrs::maybe_cls(s, 1, 6), started(s, &o), None));
            }
            for _ in 0..s.range(1, 2) {
                let sub = if depth > 1 && s.chance(1, 2) { Some(mixed_gen(s, depth - 1)) } else { None };
                items.push((false, Attrs::maybe_cls(s, 1, 6), started(s, &o), sub));
            }
        } else {
            let sub = if depth > 1 && s.chance(1, 2) { Some(mixed_gen(s, depth - 1)) } else { None };
            items.push((false, Attrs::maybe_cls(s, 1, 6), started(s, &o), sub));
        }
    }
    Mixed { kind, items }
}

fn mixed_textile(l: &Mixed, level: usize, out: &mut Vec<String>) {
    for (dt, a, i, sub) in &l.items {
        let m = ["*", "#", if *dt { ";" } else { ":" }][l.kind as usize].repeat(level);
        out.push(format!("{}{} {}", m, a.cls_textile(), inline_textile(i)));
        if let Some(sub) = sub {
            mixed_textile(sub, level + 1, out);
        }
    }
}

fn mixed_html(l: &Mixed, cfg: &Cfg) -> Node {
    let mut kids = vec![];
    let mut la = vec![];
    for (n, (dt, a, i, sub)) in l.items.iter().enumerate() {
        let mut k = inline_html(i, cfg);
        if let Some(sub) = sub {
            k.push(mixed_html(sub, cfg));
        }
        let a = a.html(cfg.restricted);
        if n == 0 {
            la = a.clone();
        }
        kids.push(el(["li", "li", if *dt { "dt" } else { "dd" }][l.kind as usize], if n == 0 { vec![] } else { a }, k));
    }
    el(["ul", "ol", "dl"][l.kind as usize], la, kids)
}

fn mixed_kinds(l: &Mixed) -> u32 {
    l.items.iter().filter_map(|i| i.3.as_ref()).map(mixed_kinds).fold(1 << l.kind, |a, b| a | b)
}

fn mixed(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = super::plain_cfg(s);
    let depth = s.range(2, 5);
    let l = mixed_gen(s, depth);
    let k = mixed_kinds(&l);
    c.nontrivial_if(k & 4 != 0 && k != 4);
    let mut out = vec![];
    mixed_textile(&l, 1, &mut out);
    expect_nodes(c, &cfg, &out.join("\n"), &[mixed_html(&l, &cfg)])?;
    Ok(())
}

/// Any sequence of levels, skipped ones and switches of the kind included: the tags are
/// balanced, and every item is there, in order.
fn levels(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = super::plain_cfg(s);
    let n = s.range(2, 8);
    let mut lines = vec![];
    let mut prev = 0;
    let mut jump = false;
    let mut words_in = vec![];
    for i in 0..n {
        let level = if i == 0 { 1 } else { s.range(1, 5) as usize };
        jump |= level > prev + 1;
        prev = level;
        let w = format!("{}{}", words::ascii(s), i);
        lines.push(format!("{} {}", s.pick(&["*", "#"]).repeat(level), w));
        words_in.push(w);
    }
    c.nontrivial_if(jump);
    let out = c.parse(&cfg, &lines.join("\n"))?;
    let nodes = match strict(&out) {
        Ok(n) => n,
        Err(e) => return fail("malformed", format!("{} in {:?}", e, out)),
    };
    let mut got = vec![];
    fn walk(n: &[Node], in_li: bool, got: &mut Vec<String>) {
        for n in n {
            match n {
                Node::El { name, kids, .. } => walk(kids, name == "li", got),
                Node::Text(t) if in_li && !t.trim().is_empty() => got.push(t.trim().to_string()),
                _ => (),
            }
        }
    }
    walk(&nodes, false, &mut got);
    if got != words_in {
        return fail("items", format!("items {:?} instead of {:?} in {:?}", got, words_in, out));
    }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C13",
    rule: "a case is a document of lists; non-trivial: a list of at least two items, a definition list, or one among others (mixed), a skipped level (levels)",
    assumptions: &[],
    subs: &[
        Sub { name: "lists", quick: 20_000, thorough: 600_000, f: lists },
        Sub { name: "deflists", quick: 10_000, thorough: 300_000, f: deflists },
        Sub { name: "mixed", quick: 8_000, thorough: 300_000, f: mixed },
        Sub { name: "levels", quick: 4_000, thorough: 100_000, f: levels },
    ],
};
