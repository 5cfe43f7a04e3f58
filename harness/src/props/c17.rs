//! C17: footnotes.
use crate::blocks::*;
use crate::cfg::Cfg;
use crate::engine::*;
use crate::gen::words;
use crate::html::Node;
use crate::model::*;
use crate::src::Src;
use std::collections::HashSet;

struct St {
    seen: HashSet<String>,
    refs: usize,
}

/// Words with references among them.
fn sentence(s: &mut Src, st: &mut St, nums: &[String], must: bool) -> (String, Vec<Node>) {
    let mut t = String::new();
    let mut h = vec![];
    let n = s.range(1, 4);
    for i in 0..n {
        if i > 0 {
            t.push(' ');
            h.push(tx(" "));
        }
        let w = words::word(s);
        match s.below(6) {
            0 => {
                t.push_str(&format!("*{}*", w));
                h.push(el("strong", vec![], vec![tx(&w)]));
            }
            1 => {
                t.push_str(&format!("@{}@", w));
                h.push(el("code", vec![], vec![tx(&w)]));
            }
            _ => {
                t.push_str(&w);
                h.push(tx(&w));
            }
        }
        if s.chance(1, 2) || (must && i == 0) {
            let k = s.pick_of(nums).clone();
            let nolink = s.chance(1, 6);
            t.push_str(&format!("[{}{}]", k, if nolink { "!" } else { "" }));
            let mut a = vec![kv("class", "footnote")];
            if st.seen.insert(k.clone()) {
                a.push(kv("id", &format!("fnrevE-{}", k)));
            }
            let num = tx(&k.to_string());
            h.push(el("sup", a, vec![if nolink { num } else { el("a", vec![kv("href", &format!("#fnE-{}", k))], vec![num]) }]));
            st.refs += 1;
            let tail = s.pick(&["", "", ".", ",", "!", ")", ":"]);
            // "!]!" would be an image
            let tail = if nolink && tail == "!" { "?" } else { tail };
            t.push_str(tail);
            h.push(tx(tail));
        }
    }
    (t, h)
}

fn footnotes(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg { uid: s.pick(&["UID", "k7", ""]).to_string(), ..super::plain_cfg(s) };
    let count = s.range(1, 5);
    let mut nums: Vec<String> = vec![];
    for i in 0..count {
        let n = match s.below(8) {
            0 => (20 + i * 7).to_string(),
            1 => words::number(s, 0, 4_000_000).to_string(),
            2 => format!("0{}", i),
            3 => format!("1234567890123456789012{}", i),
            4 => s.pick(&["٣", "１２", "७"]).to_string(),
            _ => (i + 1).to_string(),
        };
        if !nums.contains(&n) {
            nums.push(n);
        }
    }
    let mut st = St { seen: HashSet::new(), refs: 0 };
    let mut defined = HashSet::new();
    let n = s.range(2, 7);
    let (mut text, mut want) = (vec![], vec![]);
    for _ in 0..n {
        match s.below(8) {
            0..=2 => {
                let k = s.pick_of(&nums).clone();
                if !defined.insert(k.clone()) {
                    continue;
                }
                let back = s.chance(1, 3);
                let a = Attrs::maybe_cls(s, 1, 4);
                c.label_if(!st.seen.contains(&k), "defined-first");
                c.label_if(back, "backlink");
                // the number comes first, then the text, which may refer to others
                let num = tx(&k.to_string());
                let num = if back { el("a", vec![kv("href", &format!("#fnrevE-{}", k))], vec![num]) } else { num };
                let own_id = a.id.is_some() && !cfg.restricted;
                let fid = format!("fnE-{}", k);
                let mut at = a.html(cfg.restricted);
                if !at.iter().any(|x| x.0 == "class") {
                    at.push(kv("class", "footnote"));
                }
                let sup = if own_id {
                    el("sup", vec![kv("id", &fid)], vec![num])
                } else {
                    at.push(kv("id", &fid));
                    el("sup", vec![], vec![num])
                };
                let (t, h) = sentence(s, &mut st, &nums, false);
                text.push(format!("fn{}{}{}. {}", k, a.cls_textile(), if back { "^" } else { "" }, t));
                let mut kids = vec![sup, tx(" ")];
                kids.extend(h);
                want.push(el("p", at, kids));
            }
            3 => {
                let (t, h) = sentence(s, &mut st, &nums, true);
                let (t2, h2) = sentence(s, &mut st, &nums, false);
                text.push(format!("* {}\n* {}", t, t2));
                want.push(el("ul", vec![], vec![el("li", vec![], h), el("li", vec![], h2)]));
            }
            4 => {
                let (t, h) = sentence(s, &mut st, &nums, true);
                let (t2, h2) = sentence(s, &mut st, &nums, false);
                text.push(format!("|{}|{}|", t, t2));
                want.push(el("table", vec![], vec![el("tr", vec![], vec![el("td", vec![], h), el("td", vec![], h2)])]));
            }
            5 => {
                let (t, h) = sentence(s, &mut st, &nums, true);
                match s.below(3) {
                    0 => {
                        text.push(format!("h2. {}", t));
                        want.push(el("h2", vec![], h));
                    }
                    1 => {
                        text.push(format!("bq. {}", t));
                        want.push(el("blockquote", vec![], vec![el("p", vec![], h)]));
                    }
                    _ => {
                        let (t2, h2) = sentence(s, &mut st, &nums, false);
                        text.push(format!("; {}\n: {}", t, t2));
                        want.push(el("dl", vec![], vec![el("dt", vec![], h), el("dd", vec![], h2)]));
                    }
                }
            }
            _ => {
                let (t, h) = sentence(s, &mut st, &nums, true);
                let p = s.bool();
                text.push(format!("{}{}", if p { "p. " } else { "" }, t));
                want.push(el("p", vec![], h));
            }
        }
    }
    c.nontrivial_if(st.refs > 0 && !defined.is_empty());
    let out = c.parse(&cfg, &text.join("\n\n"))?;
    compare_renamed(&out, &cfg.uid, &want, "E")?;
    // and the ids are the document's own, and unique
    let mut ids = HashSet::new();
    let nodes = crate::html::strict(&out).unwrap_or_default();
    let mut bad = None;
    crate::html::walk(&nodes, &mut |_, a, _| {
        for (k, v) in a {
            if k == "id" && v.starts_with("fn") && !ids.insert(v.clone()) {
                bad = Some(v.clone());
            }
        }
    });
    if let Some(b) = bad {
        return fail("duplicate-id", format!("id {:?} twice in {:?}", b, out));
    }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C17",
    rule: "a case is a document with references and footnotes; non-trivial: at least one of each",
    assumptions: &[],
    subs: &[Sub { name: "footnotes", quick: 20_000, thorough: 500_000, f: footnotes }],
};
