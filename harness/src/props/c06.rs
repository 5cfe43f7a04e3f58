//! C06: converting is a function of the settings and the text only.
use crate::blocks::*;
use crate::cfg::Cfg;
use crate::engine::*;
use crate::gen::{soup, words};
use crate::src::Src;
use rustextile::{HtmlKind, Textile};

/// Documents with everything that is counted, numbered or kept aside.
const STATEFUL: &[&str] = &[
    "a[1] b[2] c[3!]\n\nfn1. x\n\nfn2^. y", "one[#n] two[#m] three[#n]\n\nnote#n. def n\n\nnote#m^. def m\n\nnotelist.", "# a\n# b\n\nbreak\n\n#_ c", "#5 x\n\n#_ y",
    "\"t\":al and \"u\":al\n\n[al]http://e.com/", "bq.. q\n\nr", "bc.. code\n\nmore", "notelist:1^+.", "p[fr]. ABC(def) \"q\"", "!i.png! \"l\":u", "*(c)a* _b_ @c@ ==d==",
    "|a|b|\n|c|d|", "table(t). s\n|_. h|", "- t := d", "###.. hidden\n\nstill", "note#z. unreferenced\n\nnotelist+.", "[u]http://x.org/\n\n\"$\":u",
];

/// Texts whose conversion depends on one setting or another.
const SENSITIVE: &[&str] = &[
    "<x-y>*a* b</x-y>", "<custom>NASA -- x</custom>", "!>i.png(t)! a", "!<(c)http://e.com/i.png!:u", "a <b>x</b> & y", "p(c#i){color:red}. x", "\"l\":file:///a \"m\":tel:1", "a\nb", "ABC(d) NASA",
    "h2. head", "* a\n* b", "|a|b|", "@code@ ==lit==", "bq.:http://e.com/ q", "a[1]\n\nfn1. x", "x[#n]\n\nnote#n. y\n\nnotelist.", "<script>x</script>", "<a href=\"javascript:x\">y</a>", "<hr />", "*a* _b_",
    "\"l\":http://e.com/ \"m\":/r", "!i.png!", "<!-- c -->", "<br />", "- t := d", "pre. x", "bc[rust]. x", "[al]data:x\n\n\"a\":al",
];

fn sensitive(s: &mut Src) -> String {
    let n = s.range(1, 6);
    (0..n).map(|_| s.pick(SENSITIVE)).collect::<Vec<_>>().join("\n\n")
}

fn text(s: &mut Src) -> String {
    match s.below(4) {
        0 => soup::any(s),
        1 => {
            let d = doc(s, false, 4, ALL);
            doc_textile(&d)
        }
        _ => {
            let n = s.range(1, 4);
            (0..n).map(|_| s.pick(STATEFUL)).collect::<Vec<_>>().join("\n\n")
        }
    }
}

fn history(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg::any(s);
    let t = cfg.build();
    let n = s.range(2, 6);
    let mut docs: Vec<String> = vec![];
    for _ in 0..n {
        // documents come back, too
        let d = if !docs.is_empty() && s.chance(1, 3) { s.pick_of(&docs).clone() } else { text(s) };
        docs.push(d);
    }
    c.nontrivial_if(docs.iter().any(|d| d.len() > 10));
    for d in &docs {
        let got = c.parse_with(&t, &cfg, d)?;
        let fresh = c.parse(&cfg, d)?;
        if got != fresh {
            return fail("history", format!("{:?} gives {:?} after {} other documents, {:?} alone", d, got, docs.len() - 1, fresh));
        }
    }
    Ok(())
}

fn set(t: Textile, i: usize, c: &Cfg) -> Textile {
    match i {
        0 => t.set_uid(&c.uid),
        1 => t.set_restricted(c.restricted),
        2 => t.set_lite(c.lite),
        3 => t.set_images(c.images),
        4 => t.set_block_tags(c.block_tags),
        5 => t.set_raw_blocks(c.raw_blocks),
        6 => t.set_rel(c.rel.as_deref()),
        7 => t.set_html_kind(if c.xhtml { HtmlKind::XHTML } else { HtmlKind::HTML5 }),
        8 => match c.align_class {
            Some(v) => t.set_align_class(v),
            None => t,
        },
        _ => t.set_sanitize(c.sanitize),
    }
}

/// The settings are independent: their order and what was set before are
/// of no consequence.
fn setters(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let text = text(s);
    settings(s, c, text)
}

fn sensitive_setters(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let text = sensitive(s);
    settings(s, c, text)
}

fn settings(s: &mut Src, c: &mut Ctx, text: String) -> Result<(), Fail> {
    let mut cfg = Cfg::any(s);
    cfg.uid = words::ident(s);
    let mut other = Cfg::any(s);
    if cfg.align_class.is_none() {
        other.align_class = None;
    }
    let want = c.parse(&cfg, &text)?;
    let mut order: Vec<usize> = (0..10).collect();
    for i in (1..10).rev() {
        let j = s.below(i as u32 + 1) as usize;
        order.swap(i, j);
    }
    let noise = s.below(3);
    let mut t = Textile::default();
    if noise > 0 {
        t = other.apply(t);
        if noise == 2 {
            let w = text_small(s);
            c.inputs.push(("before the settings were changed: ".to_string() + &other.describe(), w.clone()));
            guarded(|| t.parse(&w))?;
        }
    }
    for i in &order {
        t = set(t, *i, &cfg);
    }
    c.note = format!("settings made in the order {:?}{}", order, if noise > 0 { format!(" over {}", other.describe()) } else { String::new() });
    c.nontrivial = true;
    let got = c.parse_with(&t, &cfg, &text)?;
    if got != want {
        return fail("setters", format!("{:?} instead of {:?}", got, want));
    }
    Ok(())
}

fn text_small(s: &mut Src) -> String {
    s.pick(STATEFUL).to_string()
}

/// Takes the uid out of the ids.
fn mask(h: &str) -> String {
    let one = |v: &str| -> Option<String> {
        let (hash, r) = match v.strip_prefix('#') {
            Some(r) => ("#", r),
            None => ("", v),
        };
        let p = ["fnrev", "fn", "noteref", "note"].into_iter().find(|p| r.starts_with(p))?;
        let (_, n) = r.rsplit_once('-')?;
        if n.is_empty() || !n.chars().all(|c| c.is_ascii_digit()) {
            return None;
        }
        Some(format!("{}{}-{}", hash, p, n))
    };
    h.split('"').map(|v| one(v).unwrap_or_else(|| v.to_string())).collect::<Vec<_>>().join("\"")
}

/// A parser made without a uid differs only in the ids.
fn default_uid(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let text = text(s);
    if text.contains("textileRef") {
        return Ok(());
    }
    let kept = c.parse(&Cfg::default(), &text)?;
    c.inputs.push(("no uid set".into(), text.clone()));
    let free = guarded(|| Textile::default().parse(&text))?;
    let again = guarded(|| Textile::default().parse(&text))?;
    c.nontrivial_if(text.len() > 5);
    if mask(&free) != mask(&kept) || mask(&free) != mask(&again) {
        return fail("default-uid", format!("{:?} without a uid, {:?} with one", free, kept));
    }
    Ok(())
}

/// Parsers in several threads do not disturb one another.
fn threads(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let k = s.range(2, 4);
    let mut jobs = vec![];
    for _ in 0..k {
        let cfg = Cfg::any(s);
        let n = s.range(1, 4);
        jobs.push((cfg, (0..n).map(|_| text(s)).collect::<Vec<_>>()));
    }
    c.nontrivial = true;
    let mut want = vec![];
    for (cfg, ts) in &jobs {
        let mut w = vec![];
        for t in ts {
            w.push(c.parse(cfg, t)?);
        }
        want.push(w);
    }
    let start = std::sync::Barrier::new(jobs.len());
    let got: Vec<Vec<String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = jobs
            .iter()
            .map(|(cfg, ts)| {
                let start = &start;
                sc.spawn(move || {
                    let p = cfg.build();
                    start.wait();
                    ts.iter().map(|t| p.parse(t)).collect::<Vec<_>>()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect::<Result<Vec<_>, _>>().unwrap_or_default()
    });
    if got != want {
        return fail("threads", format!("{:?} in parallel, {:?} one after another", got, want));
    }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C06",
    rule: "a case is a history of conversions or of settings; non-trivial: a document of more than ten characters (histories), always for orders of settings and threads",
    assumptions: &[],
    subs: &[
        Sub { name: "history", quick: 2_000, thorough: 100_000, f: history },
        Sub { name: "setters", quick: 6_000, thorough: 200_000, f: setters },
        Sub { name: "sensitive", quick: 12_000, thorough: 200_000, f: sensitive_setters },
        Sub { name: "default-uid", quick: 3_000, thorough: 100_000, f: default_uid },
        Sub { name: "threads", quick: 700, thorough: 30_000, f: threads },
    ],
};
