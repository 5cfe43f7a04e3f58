//! C24: blocks do not influence each other.
use crate::blocks::*;
use crate::cfg::Cfg;
use crate::engine::*;
use crate::gen::soup;
use crate::src::Src;

/// Texts without what may reach other blocks: extended blocks, notes,
/// footnotes, link aliases, lists that go on.
fn independent(s: &mut Src) -> String {
    let t = if s.chance(1, 150) { super::volume(s, 40) } else if s.chance(1, 6) {
        // what does not show, and what is not a paragraph
        s.pick(&["###. hidden", "###(c). hidden *a*", "<hr />", "<img src=\"/i.png\"><hr>", "<div>a *b*</div>", "<!-- c -->", " indented *a*", "<x-y>a</x-y>", "notextile. <i>*a*</i>", "pre. a\nb", "[ali]http://e.com/", "<br />"]).to_string()
    } else if s.chance(1, 3) { doc_textile(&doc(s, false, 4, ALL)) } else { soup::any(s) };
    let t = t.replace("\r\n", "\n").replace('\r', "\n").replace('[', "").replace("note", "noun").replace("#_", "#").replace("UID", "");
    let mut t = t;
    for f in ["fn", "textileRef", "Marker"] {
        t = t.replace(f, "x");
    }
    while t.contains("..") {
        t = t.replace("..", ".");
    }
    let t = t.trim().to_string();
    if t.trim().is_empty() {
        return "fox".into();
    }
    t
}

fn squeeze(t: &str) -> String {
    // (how a raw <br> alone in its block is written depends on what follows)
    t.replace("<br />", "<br>").split_whitespace().collect::<Vec<_>>().join(" ")
}

fn concat(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg { sanitize: false, block_tags: true, ..Cfg::any(s) };
    let n = s.range(2, 4);
    let v: Vec<String> = (0..n).map(|_| independent(s)).collect();
    let mut parts = vec![];
    for t in &v {
        parts.push(c.parse(&cfg, t)?);
    }
    c.nontrivial_if(v.iter().filter(|t| t.len() > 10).count() > 1);
    let all = c.parse(&cfg, &v.join("\n\n"))?;
    let want = squeeze(&parts.join(" "));
    let got = squeeze(&all);
    if got != want {
        return fail("concat", format!("together: {:?}\n  apart: {:?}", all, parts));
    }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C24",
    rule: "at least two of the texts are longer than ten characters",
    assumptions: &[],
    subs: &[
        Sub { name: "concat", quick: 6_000, thorough: 150_000, f: concat },
    ],
};
