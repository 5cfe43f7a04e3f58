//! C18: endnotes.
use crate::blocks::*;
use crate::cfg::Cfg;
use crate::engine::*;
use crate::gen::words;
use crate::html::{strict, walk, Node};
use crate::model::*;
use crate::src::Src;
use std::collections::{BTreeMap, HashSet};

#[derive(Default)]
struct Note {
    num: usize,
    refs: Vec<usize>,
    def: Option<(Option<char>, Attrs, Vec<Node>)>,
}

#[derive(Default)]
struct St {
    notes: BTreeMap<String, Note>,
    order: Vec<String>,
    refs: usize,
    repeated: bool,
}

fn sentence(s: &mut Src, st: &mut St, labels: &[String], cfg: &Cfg, must: bool) -> (String, Vec<Node>) {
    let mut t = String::new();
    let mut h = vec![];
    let n = s.range(1, 4);
    for i in 0..n {
        if i > 0 {
            t.push(' ');
            h.push(tx(" "));
        }
        let w = words::word(s);
        t.push_str(&w);
        h.push(tx(&w));
        if s.chance(1, 2) || (must && i == 0) {
            let label = s.pick_of(labels).clone();
            let nolink = s.chance(1, 6);
            let a = Attrs::maybe_cls(s, 1, 6);
            t.push_str(&format!("[{}#{}{}]", a.cls_textile(), label, if nolink { "!" } else { "" }));
            let note = st.notes.entry(label.clone()).or_default();
            if note.num == 0 {
                st.order.push(label.clone());
                note.num = st.order.len();
            } else {
                st.repeated = true;
            }
            st.refs += 1;
            note.refs.push(st.refs);
            let sp = el("span", vec![kv("id", &format!("noterefE-r{}", st.refs))], vec![tx(&note.num.to_string())]);
            let inner = if nolink { sp } else { el("a", vec![kv("href", &format!("#noteE-{}", label))], vec![sp]) };
            h.push(el("sup", a.html(cfg.restricted), vec![inner]));
            let tail = s.pick(&["", "", ".", ","]);
            t.push_str(tail);
            h.push(tx(tail));
        }
    }
    (t, h)
}

struct ListOpts {
    attrs: Attrs,
    start: Option<char>,
    links: Option<char>,
    extras: bool,
}

const SYMS: &str = "¤§µ¶†‡•∗∴◊♠♣♥♦";

fn notelist(st: &St, o: &ListOpts, cfg: &Cfg) -> Vec<Node> {
    let mut items = vec![];
    for l in &st.order {
        let n = &st.notes[l];
        let kind = n.def.as_ref().and_then(|d| d.0).or(o.links);
        let shown: Vec<usize> = match kind {
            Some('!') => vec![],
            Some('^') => n.refs[..1].to_vec(),
            _ => n.refs.clone(),
        };
        let mut kids = vec![];
        let mut ch = o.start.unwrap_or('a');
        for (i, r) in shown.iter().enumerate() {
            if i > 0 {
                kids.push(tx(" "));
            }
            kids.push(el("sup", vec![], vec![el("a", vec![kv("href", &format!("#noterefE-r{}", r))], vec![tx(&ch.to_string())])]));
            if !SYMS.contains(ch) {
                ch = char::from_u32(ch as u32 + 1).unwrap();
            }
        }
        match &n.def {
            Some((_, a, h)) => {
                kids.push(el("span", vec![kv("id", &format!("noteE-{}", l))], vec![tx(" ")]));
                kids.extend(h.iter().cloned());
                items.push(el("li", a.html(cfg.restricted), kids));
            }
            None => {
                kids.push(tx(&format!(" Undefined Note [#{}].", l)));
                items.push(el("li", vec![], kids));
            }
        }
    }
    if o.extras {
        for n in st.notes.values() {
            if n.num == 0 {
                let (_, a, h) = n.def.as_ref().unwrap();
                items.push(el("li", a.html(cfg.restricted), h.clone()));
            }
        }
    }
    if items.is_empty() {
        vec![]
    } else {
        vec![el("ol", o.attrs.html(cfg.restricted), items)]
    }
}

/// The library leaves the target of a repeated reference out (a known
/// finding, see the sub-check "repeated"): not compared here.
fn without_repeated(nodes: &[Node], seen: &mut HashSet<String>) -> Vec<Node> {
    nodes
        .iter()
        .map(|n| match n {
            Node::El { name, attrs, kids } => {
                let marks = |n: &Node| matches!(n, Node::El { name, attrs, .. } if name == "span" && attrs.iter().any(|a| a.0 == "id" && a.1.starts_with("noteref")));
                let is_ref = name == "a" && kids.first().map(marks).unwrap_or(false);
                if name == "sup" && kids.first().map(marks).unwrap_or(false) {
                    seen.insert(kids[0].text());
                }
                let attrs = attrs
                    .iter()
                    .map(|(k, v)| {
                        if is_ref && k == "href" && !seen.insert(kids[0].text()) {
                            (k.clone(), "repeated".to_string())
                        } else {
                            (k.clone(), v.clone())
                        }
                    })
                    .collect();
                Node::El { name: name.clone(), attrs, kids: without_repeated(kids, seen) }
            }
            n => n.clone(),
        })
        .collect()
}

fn endnotes(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg { uid: s.pick(&["UID", "k7", ""]).to_string(), ..super::plain_cfg(s) };
    let many = s.chance(1, 500);
    let all = many && s.bool();
    let count = if all { s.range(100, 240) } else if many { s.range(30, 130) } else { s.range(1, 5) };
    let mut labels: Vec<String> = vec![];
    for i in 0..count {
        let l = match s.below(4) {
            0 => format!("{}{}", words::ascii(s), i),
            1 => format!("{}", i + 1),
            2 => format!("n-{}", i),
            _ => format!("été{}", i),
        };
        labels.push(l);
    }
    let mut st = St::default();
    let (mut text, mut want): (Vec<String>, Vec<Result<Vec<Node>, ListOpts>>) = (vec![], vec![]);
    let mut lists = 0;
    let n = if many { s.range(60, 120) } else { s.range(2, 9) };
    if all {
        // every note, in an order of its own
        let mut rest = labels.clone();
        while !rest.is_empty() {
            let k = s.below(rest.len() as u32) as usize;
            let one = vec![rest.swap_remove(k)];
            let (t, h) = sentence(s, &mut st, &one, &cfg, true);
            text.push(t);
            want.push(Ok(vec![el("p", vec![], h)]));
        }
        c.label("over-100");
    }
    c.label_if(many, "many");
    for i in 0..n {
        match s.below(9) {
            0..=2 => {
                let l = s.pick_of(&labels).clone();
                if st.notes.get(&l).map(|n| n.def.is_some()).unwrap_or(false) {
                    // only the first definition counts
                    if s.bool() {
                        text.push(format!("note#{}. {} again", l, words::ascii(s)));
                        c.label("defined-again");
                    }
                    continue;
                }
                let link = *s.pick_of(&[None, None, Some('*'), Some('!'), Some('^')]);
                let a = Attrs::maybe_cls(s, 1, 4);
                let v = started(s, &InlOpts { depth: 2, max: 2, br: false, ..Default::default() });
                c.label_if(!st.notes.contains_key(&l), "defined-first");
                text.push(format!("note#{}{}{}. {}", l, link.map(|x| x.to_string()).unwrap_or_default(), a.cls_textile(), inline_textile(&v)));
                st.notes.entry(l).or_default().def = Some((link, a, inline_html(&v, &cfg)));
            }
            3 => {
                let (t, h) = sentence(s, &mut st, &labels, &cfg, true);
                let (t2, h2) = sentence(s, &mut st, &labels, &cfg, false);
                text.push(format!("* {}\n* {}", t, t2));
                want.push(Ok(vec![el("ul", vec![], vec![el("li", vec![], h), el("li", vec![], h2)])]));
            }
            4 => {
                let (t, h) = sentence(s, &mut st, &labels, &cfg, true);
                text.push(format!("h2. {}", t));
                want.push(Ok(vec![el("h2", vec![], h)]));
            }
            5 if i > 0 => {
                let o = list_opts(s);
                text.push(list_textile(&o));
                want.push(Err(o));
                lists += 1;
            }
            _ => {
                let (t, h) = sentence(s, &mut st, &labels, &cfg, true);
                text.push(t);
                want.push(Ok(vec![el("p", vec![], h)]));
            }
        }
    }
    let o = list_opts(s);
    text.push(list_textile(&o));
    want.push(Err(o));
    c.label_if(lists > 0, "several-lists");
    c.label_if(st.repeated, "repeated-refs");
    c.label_if(st.order.iter().any(|l| st.notes[l].def.is_none()), "undefined");
    c.label_if(st.order.len() >= 2, "two-notes");
    c.nontrivial_if(st.refs > 0 && st.notes.values().any(|n| n.def.is_some()));
    // past the letters and signs of ASCII there is nothing to promise
    let most = st.notes.values().map(|n| n.refs.len()).max().unwrap_or(0) as u32;
    if want.iter().any(|w| matches!(w, Err(ListOpts { start, .. }) if start.unwrap_or('a').is_ascii() && start.unwrap_or('a') as u32 + most > 126)) {
        return Ok(());
    }
    let want: Vec<Node> = want.into_iter().flat_map(|w| match w { Ok(v) => v, Err(o) => notelist(&st, &o, &cfg) }).collect();
    let out = c.parse(&cfg, &text.join("\n\n"))?;
    let got = match strict(&out) {
        Ok(g) => g,
        Err(e) => return fail("malformed", format!("{} in {:?}", e, out)),
    };
    let w = without_repeated(&canon("", &want), &mut HashSet::new());
    let g = without_repeated(&canon("", &got), &mut HashSet::new());
    let (w, g) = (rename_ids(&w, "E"), rename_ids(&g, &cfg.uid));
    if let Some((k, d)) = diff(&w, &g) {
        return fail(k, format!("{}\n  output: {:?}\n  wanted: {}", d, out, show(&w)));
    }
    Ok(())
}

fn list_opts(s: &mut Src) -> ListOpts {
    ListOpts {
        attrs: Attrs::maybe_cls(s, 1, 5),
        start: *s.pick_of(&[None, None, None, Some('a'), Some('1'), Some('A'), Some('α'), Some('†'), Some('x'), Some('b'), Some('§')]),
        links: *s.pick_of(&[None, None, Some('^'), Some('!')]),
        extras: s.chance(1, 3),
    }
}

fn list_textile(o: &ListOpts) -> String {
    format!(
        "notelist{}{}{}{}.",
        o.attrs.cls_textile(),
        o.start.map(|c| format!(":{}", c)).unwrap_or_default(),
        o.links.map(|c| c.to_string()).unwrap_or_default(),
        if o.extras { "+" } else { "" }
    )
}

/// Every reference leads to its note.
fn repeated(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg::default();
    let w = words::ascii(s);
    let text = format!("{}[#a] again[#a]\n\nnote#a. text\n\nnotelist.", w);
    c.nontrivial = true;
    let out = c.parse(&cfg, &text)?;
    let nodes = strict(&out).unwrap_or_default();
    let (mut ids, mut targets) = (HashSet::new(), vec![]);
    walk(&nodes, &mut |_, a, _| {
        for (k, v) in a {
            if k == "id" {
                ids.insert(v.clone());
            }
            if k == "href" {
                targets.push(v.clone());
            }
        }
    });
    for t in &targets {
        if !ids.contains(&t[1..]) {
            let sig = if t == "#note" { "empty-target" } else { "dangling" };
            return fail(sig, format!("a reference leads to {:?} in {:?}", t, out));
        }
    }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C18",
    rule: "a case is a document with references, notes and lists; non-trivial: a reference and a defined note",
    assumptions: &[],
    subs: &[
        Sub { name: "endnotes", quick: 20_000, thorough: 500_000, f: endnotes },
        Sub { name: "repeated", quick: 20, thorough: 100, f: repeated },
    ],
};
