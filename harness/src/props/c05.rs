//! C05: the switches take away exactly what they promise.
use crate::blocks::*;
use crate::cfg::Cfg;
use crate::engine::*;
use crate::gen::{soup, words};
use crate::html::{browser_tokens, Tok};
use crate::model::*;
use crate::src::Src;

const BLOCK_ELEMENTS: &[&str] = &[
    "p", "h1", "h2", "h3", "h4", "h5", "h6", "blockquote", "pre", "ul", "ol", "li", "dl", "dt", "dd", "table", "caption", "colgroup", "col", "thead", "tbody",
    "tfoot", "tr", "td", "th", "hr", "div", "br", "a", "img", "code",
];

fn open_tags(out: &str) -> Vec<String> {
    browser_tokens(out)
        .into_iter()
        .filter_map(|t| match t {
            Tok::Open { name, .. } => Some(name),
            _ => None,
        })
        .collect()
}

fn no_images(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg { images: false, ..Cfg::any(s) };
    let mut text = if s.bool() {
        soup::any(s)
    } else {
        let d = doc(s, cfg.restricted, 3, ALL);
        doc_textile(&d)
    };
    for _ in 0..s.below(3) {
        let i = image_textile(&image(s, true));
        text = format!("{}{}{}", text, s.pick(&[" ", "\n", "\n\n", "\n* ", "|", " (", "\""]), i);
    }
    if !cfg.restricted {
        // raw HTML is not Textile's business
        while text.to_lowercase().contains("<img") {
            text = text.replace("<img", "").replace("<IMG", "").replace("<Img", "");
        }
    }
    c.nontrivial_if(text.matches('!').count() > 1);
    let out = c.parse(&cfg, &text)?;
    if open_tags(&out).iter().any(|t| t == "img") {
        return fail("img", format!("an image although images are off: {:?}", out));
    }
    Ok(())
}

/// Without an image in the text the switch changes nothing; an image is shown
/// as it was written.
fn images_only(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg { images: false, ..Cfg::any(s) };
    let text = soup::any(s).replace('!', "");
    let off = c.parse(&cfg, &text)?;
    let on = c.parse(&Cfg { images: true, ..cfg.clone() }, &text)?;
    if on != off {
        return fail("differs", format!("with images {:?}, without {:?}", on, off));
    }
    let (a, b, name) = (words::ascii(s), words::ascii(s), words::ascii(s));
    let t = format!("{} !{}.png! {}", a, name, b);
    let out = c.parse(&cfg, &t)?;
    c.nontrivial_if(text.len() > 2);
    if !out.contains(&t) {
        return fail("literal", format!("the image of {:?} is not shown as written: {:?}", t, out));
    }
    Ok(())
}

fn without_code(v: &mut Vec<Inl>) {
    for i in v.iter_mut() {
        match i {
            Inl::Code(_) => *i = Inl::Words("x".into()),
            Inl::Span { kids, .. } | Inl::Glued { kids, .. } | Inl::Link { kids, .. } => without_code(kids),
            _ => (),
        }
    }
}

/// Paragraphs and quotations mean the same in the lite mode, the other blocks
/// are plain paragraphs there.
fn lite_blocks(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg { lite: true, ..super::plain_cfg(s) };
    let n = s.range(1, 4);
    let mut text = vec![];
    let mut want = vec![];
    let mut nums = Numbers::default();
    let mut ext = false;
    for _ in 0..n {
        if s.bool() {
            let mut b = if s.bool() { para(s, cfg.restricted) } else { quote(s, cfg.restricted) };
            if ext {
                if let Blk::Para { explicit, .. } = &mut b {
                    *explicit = true;
                }
            }
            match &mut b {
                Blk::Para { inl, .. } => without_code(inl),
                Blk::Bq { paras, .. } => paras.iter_mut().for_each(without_code),
                _ => (),
            }
            ext = b.is_ext();
            text.push(blk_textile(&b));
            want.extend(blk_html(&b, &cfg, &mut nums));
        } else {
            if ext {
                let w = words::ascii(s);
                text.push(format!("p. {}", w));
                want.push(el("p", vec![], vec![tx(&w)]));
            }
            ext = false;
            let (w, v) = (words::ascii(s), words::ascii(s));
            let lines: Vec<String> = match s.below(14) {
                10 => vec![format!("{} @{}@ x", w, v)],
                11 => vec![format!("{} =={}== x", w, v)],
                12 => vec![format!("- {} := {}", w, v)],
                0 => vec![format!("h{}. {}", s.range(1, 6), w)],
                1 => vec![format!("* {}", w), format!("* {}", v)],
                2 => vec![format!("# {}", w), format!("# {}", v)],
                3 => vec![format!("|{}|{}|", w, v)],
                4 => vec![format!("pre. {}", w)],
                5 => vec![format!("notextile. {}", w)],
                6 => vec![format!("fn1. {}", w)],
                7 => vec![format!("###. {}", w)],
                8 => vec![format!("table. {}", w)],
                9 => vec![format!("; {}", w), format!(": {}", v)],
                _ => vec![format!("h{}.. {}", s.range(1, 6), w)],
            };
            text.push(lines.join("\n"));
            let mut kids = vec![];
            for (i, l) in lines.iter().enumerate() {
                if i > 0 {
                    kids.push(el("br", vec![], vec![]));
                }
                kids.push(tx(l));
            }
            want.push(el("p", vec![], kids));
            c.nontrivial = true;
        }
    }
    expect_nodes(c, &cfg, &text.join("\n\n"), &want)?;
    Ok(())
}

fn lite_soup(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg { lite: true, block_tags: true, ..Cfg::any(s) };
    let mut text = soup::any(s).replace("notelist", "");
    if !cfg.restricted {
        text = text.replace('<', "");
    }
    c.nontrivial_if(text.len() > 3);
    let out = c.parse(&cfg, &text)?;
    for t in open_tags(&out) {
        if ["h1", "h2", "h3", "h4", "h5", "h6", "ul", "ol", "li", "dl", "dt", "dd", "table", "tr", "td", "th", "caption", "colgroup", "col", "hr", "div"].contains(&t.as_str()) {
            return fail("lite-block", format!("<{}> in the lite mode: {:?}", t, out));
        }
    }
    Ok(())
}

/// Without the block tags only phrases are left.
fn no_blocks(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg { block_tags: false, lite: s.chance(1, 3), ..super::plain_cfg(s) };
    let o = InlOpts { depth: 3, max: 4, br: true, links: false, images: false, code: false, attrs: true, spans: true };
    let n = s.range(1, 3);
    let mut text = String::new();
    let mut want = vec![];
    for i in 0..n {
        if i > 0 {
            text.push_str("\n\n");
            want.push(tx("\n\n"));
        }
        let sig = s.pick(&["", "", "h1. ", "p. ", "bq. ", "bc. ", "* ", "# ", "pre. ", "notextile. ", "fn1. "]);
        text.push_str(sig);
        want.push(tx(sig));
        let mut v = vec![Inl::Words(words::phrase(s, 1, 2))];
        v.extend(inline(s, &o));
        v.insert(0, Inl::Words(words::phrase(s, 1, 2)));
        text.push_str(&inline_textile(&v));
        c.label("phrases");
        for x in inline_html(&v, &cfg) {
            match x {
                crate::html::Node::El { ref name, .. } if name == "br" => want.push(tx("\n")),
                x => want.push(x),
            }
        }
        c.nontrivial_if(!sig.is_empty());
    }
    let out = c.parse(&cfg, &text)?;
    compare(&format!("<p>{}</p>", out), &[el("p", vec![], want)])
}

fn no_blocks_soup(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg { block_tags: false, ..Cfg::any(s) };
    let mut text = soup::any(s);
    if !cfg.restricted {
        text = text.replace('<', "");
    }
    c.nontrivial_if(text.len() > 3);
    let out = c.parse(&cfg, &text)?;
    for t in open_tags(&out) {
        if BLOCK_ELEMENTS.contains(&t.as_str()) {
            return fail("block", format!("<{}> with the block tags off: {:?}", t, out));
        }
    }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C05",
    rule: "a case is a document or soup under one switch; non-trivial: it has what the switch is about (marks of images, signatures, more than three characters of soup)",
    assumptions: &[],
    subs: &[
        Sub { name: "no-images", quick: 16_000, thorough: 200_000, f: no_images },
        Sub { name: "images-only", quick: 10_000, thorough: 150_000, f: images_only },
        Sub { name: "lite-blocks", quick: 16_000, thorough: 200_000, f: lite_blocks },
        Sub { name: "lite-soup", quick: 12_000, thorough: 200_000, f: lite_soup },
        Sub { name: "no-blocks", quick: 16_000, thorough: 200_000, f: no_blocks },
        Sub { name: "no-blocks-soup", quick: 10_000, thorough: 100_000, f: no_blocks_soup },
    ],
};
