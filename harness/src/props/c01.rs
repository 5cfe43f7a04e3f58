//! C01: parsing is total.
use crate::cfg::Cfg;
use crate::engine::*;
use crate::gen::{soup, words};
use crate::src::Src;

fn soup_doc(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg::any(s);
    let text = soup::any(s);
    c.label_if(cfg.restricted, "restricted");
    c.label_if(text.contains("\n\n"), "multi-block");
    c.label_if(!text.is_ascii(), "non-ascii");
    c.nontrivial_if(text.trim().len() > 1);
    c.parse(&cfg, &text)?;
    Ok(())
}

/// One or a few pieces many times over.
fn repeated(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg::any(s);
    let mut unit = String::new();
    let n = s.range(1, 3);
    for _ in 0..n {
        unit.push_str(&soup::piece(s));
        if s.chance(1, 4) {
            unit.push(' ');
        }
    }
    let max = *s.pick_of(&[100, 300, 300, 1000]);
    let total = s.range(20, max) as usize;
    let mut text = soup::pieces(s, 3);
    let body = unit.repeat(total / unit.len().max(1) + 1);
    text.push_str(&body);
    text.push_str(&soup::pieces(s, 3));
    c.label_if(text.len() > 500, "over 500 bytes");
    c.nontrivial_if(text.trim().len() > 1);
    c.parse(&cfg, &text)?;
    Ok(())
}

/// Any uid, and texts that hold it; the parser is used again.
fn uids(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let mut cfg = Cfg::any(s);
    let n = s.below(4);
    cfg.uid = (0..n).map(|_| if s.bool() { soup::piece(s) } else { words::ident(s) }).collect();
    let t = guarded(|| cfg.build())?;
    let k = s.range(1, 3);
    for _ in 0..k {
        let mut text = soup::any(s);
        if s.bool() {
            text = text.replacen(' ', &cfg.uid, 2);
        }
        c.nontrivial_if(!cfg.uid.is_empty());
        c.parse_with(&t, &cfg, &text)?;
    }
    Ok(())
}

/// Notes with many references, and labels that start anywhere.
fn notes(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    const STARTS: &[char] = &[
        'a', 'z', 'Z', '9', '0', '_', 'y', 'ÿ', 'ω', 'я', '\u{7fe}', '\u{7ff}', '\u{d7fb}', '\u{d7a3}', '\u{d7f0}', '\u{fffc}', '\u{ffdc}', '\u{e01ef}', '\u{1d7ff}', '\u{2fa1d}', '\u{3134a}', '†', '¤', '♦', '٣', 'ⅷ', '日', '\u{ffff}', '\u{10ffff}', '.', '*', '-',
    ];
    let cfg = Cfg::any(s);
    let n = s.range(1, 3);
    let mut parts: Vec<String> = vec![];
    for i in 0..n {
        let label = words::ident(s);
        let refs = match s.below(4) {
            0 => s.below(4),
            1 => s.below(12),
            _ => s.below(60),
        };
        let mut t = words::ascii(s);
        for _ in 0..refs {
            t.push_str(&format!("[#{}{}]", label, s.pick(&["", "", "!"])));
        }
        parts.push(t);
        if s.chance(3, 4) {
            parts.push(format!("note#{}{}. {}", label, s.pick(&["", "", "*", "^", "!"]), words::phrase(s, 1, 3)));
        }
        if s.chance(1, 3) || i + 1 == n {
            parts.push(format!("notelist{}:{}{}{}{}", s.pick(&["", "", "(c)", "{a:b}"]), s.pick_of(STARTS), s.pick(&["", "", "^", "!"]), s.pick(&["", "+"]), s.pick(&[".", ""])));
        }
        c.nontrivial_if(refs > 1);
    }
    if s.chance(1, 4) {
        let k = parts.len() - 1;
        parts.swap(0, k);
    }
    c.parse(&cfg, &parts.join("\n\n"))?;
    Ok(())
}

/// Documents of many blocks.
fn long(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg::any(s);
    let text = super::volume(s, 100);
    c.nontrivial_if(text.len() > 500);
    c.parse(&cfg, &text)?;
    Ok(())
}

/// Texts that once made it fail.
const PINNED: &[&str] = &[
    "\"a\":http://e.com/?a=1&b=2 !http://e.com/?a=1&b=2!:http://e.com/?c=3&d=4",
    "a \":\" b \"x\":",
    "* é\nж\n** ñ\nü",
    "|é\nж|ñ\n日本|",
    "p()(. x",
    "p)(<. x",
    "h1(()). x",
    "#99999999999999999999999 x\n# y",
    "#_ a\n\n#18446744073709551615 b\n# c\n\n#_ d",
    "note#a. x\n\ny[#a][#a]\n\nnotelist.\n\nnotelist+.",
    "textileRef:UID:1:shelve *a* textileRef:UID:1:url",
    "|a|\n|b\nc|\n(x). |d\ne|f|",
    "x[12345678901234567890]\n\nfn12345678901234567890. y",
    "table(. \n|a|",
    "\"a\":http://[::1 \"b\":http://%zz \"c\"://",
    "!!!! !a!:! !(a!",
    "@@ @ @ == ==== == @==@ ==@==",
    "- a :=\n =:\n- := b",
    ";\n:\n; \n: ",
    "*()* _{}_ %[]%",
    "\u{0}",
    "bc..\n\nbc.. \n\n\n\np. ",
];

fn pinned(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg::any(s);
    let mut t = s.pick(PINNED).to_string();
    if s.bool() {
        t = format!("{}{}{}", t, s.pick(&["", "\n", "\n\n", " "]), s.pick(PINNED));
    }
    c.nontrivial = true;
    c.parse(&cfg, &t)?;
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C01",
    rule: "a case is a text (syntax soup, mutated fixture, repetition, saved regression) and settings; non-trivial: more than one character that is not white space (and a uid, where uids vary)",
    assumptions: &[],
    subs: &[
        Sub { name: "soup", quick: 40_000, thorough: 1_500_000, f: soup_doc },
        Sub { name: "repeated", quick: 6_000, thorough: 200_000, f: repeated },
        Sub { name: "uids", quick: 3_000, thorough: 100_000, f: uids },
        Sub { name: "pinned", quick: 2_000, thorough: 20_000, f: pinned },
        Sub { name: "notes", quick: 4_000, thorough: 100_000, f: notes },
        Sub { name: "long", quick: 150, thorough: 3_000, f: long },
    ],
};
