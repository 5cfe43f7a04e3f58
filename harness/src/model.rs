//! A document model: generated trees of Textile constructs that know both how
//! they are written in Textile and which HTML they stand for.  The HTML side is
//! written from the meaning of the markup, not from the parser.
use crate::cfg::Cfg;
use crate::engine::{fail, Ctx, Fail};
use crate::gen::words;
use crate::html::{strict, Node};
use crate::src::Src;

pub fn el(name: &str, attrs: Vec<(String, String)>, kids: Vec<Node>) -> Node {
    Node::El { name: name.into(), attrs, kids }
}
pub fn tx(s: &str) -> Node {
    Node::Text(s.into())
}

// ------------------------------------------------------------------ attributes

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Attrs {
    pub class: Option<String>,
    pub id: Option<String>,
    pub style: Vec<String>,
    pub lang: Option<String>,
    /// which of the class/style/lang groups comes first, etc. (0..6)
    pub order: u32,
    pub align: Option<char>, // '<' '>' '=' 'j'
    pub pl: usize,
    pub pr: usize,
    pub trailing_semicolon: bool,
}

const PROPS: &[&str] = &["color:red", "width:10px", "border:1px solid", "margin:0 auto", "float:left", "font-size:12px", "background:#fff", "top:50px", "line-height:1.5em", "font-family:Arial,sans-serif", "z-index:1200", "content:none", "--own:1"];
const LANGS: &[&str] = &["en", "fr", "de-AT", "zh", "ru_RU", "x-klingon", "pt-BR", "e", "en-GB-oed"];

impl Attrs {
    pub fn none() -> Self {
        Attrs::default()
    }
    /// class/id, style and language, as accepted by every construct
    pub fn cls(s: &mut Src) -> Self {
        let mut a = Attrs::default();
        match s.weighted(&[6, 4, 2, 2]) {
            0 => (),
            1 => a.class = Some(Self::classes(s)),
            2 => a.id = Some(words::ident(s)),
            _ => {
                a.class = Some(Self::classes(s));
                a.id = Some(words::ident(s));
            }
        }
        if s.chance(1, 3) {
            let n = s.range(1, 5);
            for _ in 0..n {
                let p = s.pick(PROPS).to_string();
                if !a.style.contains(&p) {
                    a.style.push(p);
                }
            }
            a.trailing_semicolon = s.bool();
        }
        if s.chance(1, 4) {
            a.lang = Some(s.pick(LANGS).to_string());
        }
        a.order = s.below(6);
        a
    }
    pub fn classes(s: &mut Src) -> String {
        let mut c = if s.chance(1, 12) { s.pick(&["align-left", "align-right-2", "x-align-center", "footnote", "footnotes", "caps", "a-caps"]).to_string() } else { words::ident(s) };
        while s.chance(1, 4) {
            c.push(' ');
            c.push_str(&words::ident(s));
        }
        c
    }
    pub fn maybe_cls(s: &mut Src, num: u32, den: u32) -> Self {
        if s.chance(num, den) {
            Self::cls(s)
        } else {
            Self::none()
        }
    }
    /// with alignment and padding, as accepted by blocks
    pub fn block(s: &mut Src, restricted: bool) -> Self {
        let mut a = Self::maybe_cls(s, 3, 5);
        if s.chance(1, 3) {
            let opts: &[char] = if restricted { &['='] } else { &['<', '>', '=', 'j'] };
            a.align = Some(*s.pick_of(opts));
        }
        if s.chance(1, 4) {
            let most = if s.chance(1, 6) { 15 } else { 4 };
            a.pl = s.below(most) as usize;
            a.pr = s.below(most) as usize;
        }
        a
    }
    pub fn is_empty(&self) -> bool {
        let mut z = self.clone();
        z.order = 0;
        z.trailing_semicolon = false;
        z == Attrs::default()
    }
    pub fn cls_textile(&self) -> String {
        let c = match (&self.class, &self.id) {
            (None, None) => String::new(),
            (Some(c), None) => format!("({})", c),
            (None, Some(i)) => format!("(#{})", i),
            (Some(c), Some(i)) => format!("({}#{})", c, i),
        };
        let st = if self.style.is_empty() {
            String::new()
        } else {
            format!("{{{}{}}}", self.style.join(if self.order % 2 == 0 { ";" } else { "; " }), if self.trailing_semicolon { ";" } else { "" })
        };
        let l = self.lang.as_ref().map(|l| format!("[{}]", l)).unwrap_or_default();
        match self.order {
            0 => c + &st + &l,
            1 => c + &l + &st,
            2 => st + &c + &l,
            3 => st + &l + &c,
            4 => l + &c + &st,
            _ => l + &st + &c,
        }
    }
    pub fn align_textile(&self) -> &'static str {
        match self.align {
            Some('<') => "<",
            Some('>') => ">",
            Some('=') => "=",
            Some(_) => "<>",
            None => "",
        }
    }
    pub fn textile(&self) -> String {
        format!("{}{}{}{}", self.align_textile(), self.cls_textile(), "(".repeat(self.pl), ")".repeat(self.pr))
    }
    pub fn style_value(&self, restricted: bool, first: &[String]) -> Option<String> {
        let mut v: Vec<String> = first.to_vec();
        if !restricted {
            v.extend(self.style.iter().cloned());
        }
        if self.pl > 0 {
            v.push(format!("padding-left:{}em", self.pl));
        }
        if self.pr > 0 {
            v.push(format!("padding-right:{}em", self.pr));
        }
        match self.align {
            Some('<') => v.push("text-align:left".into()),
            Some('>') => v.push("text-align:right".into()),
            Some('=') => v.push("text-align:center".into()),
            Some(_) => v.push("text-align:justify".into()),
            None => (),
        }
        if v.is_empty() {
            None
        } else {
            Some(v.join("; ") + ";")
        }
    }
    pub fn html(&self, restricted: bool) -> Vec<(String, String)> {
        let mut v = vec![];
        if !restricted {
            if let Some(c) = &self.class {
                v.push(("class".to_string(), c.clone()));
            }
            if let Some(i) = &self.id {
                v.push(("id".to_string(), i.clone()));
            }
        }
        if let Some(l) = &self.lang {
            v.push(("lang".to_string(), l.clone()));
        }
        if let Some(st) = self.style_value(restricted, &[]) {
            v.push(("style".to_string(), st));
        }
        v
    }
}

// ------------------------------------------------------------------ inline content

pub const SPANS: &[(&str, &str)] = &[
    ("*", "strong"), ("_", "em"), ("**", "b"), ("__", "i"), ("-", "del"), ("+", "ins"), ("^", "sup"), ("~", "sub"), ("%", "span"), ("??", "cite"),
];

#[derive(Clone, Debug)]
pub enum Inl {
    Words(String),
    Span { k: usize, attrs: Attrs, kids: Vec<Inl>, tail: &'static str },
    /// written in square brackets and glued to the words around it
    Glued { before: String, k: usize, kids: Vec<Inl>, after: String },
    Code(String),
    Link { attrs: Attrs, kids: Vec<Inl>, title: Option<String>, url: Url, tail: &'static str, bracket: bool },
    Image(Img),
    Br,
}

#[derive(Clone, Debug)]
pub struct Url {
    pub textile: String,
    pub href: String,
}

#[derive(Clone, Debug)]
pub struct Img {
    pub align: Option<char>,
    pub attrs: Attrs,
    pub src: Url,
    pub alt: Option<String>,
    pub href: Option<Url>,
}

pub fn url(s: &mut Src) -> Url {
    let mk = |t: String, h: String| Url { textile: t, href: h };
    let host = format!("{}.{}", words::ascii(s), s.pick(&["com", "org", "example", "co.uk"]));
    match s.below(10) {
        0 => {
            let p = words::ascii(s);
            mk(format!("http://{}/{}", host, p), format!("http://{}/{}", host, p))
        }
        1 => mk(format!("https://{}", host), format!("https://{}/", host)),
        2 => {
            let p = words::ascii(s);
            mk(format!("/{}", p), format!("/{}", p))
        }
        3 => {
            let p = format!("{}/{}.html", words::ascii(s), words::ascii(s));
            mk(p.clone(), p)
        }
        4 => {
            let p = format!("http://{}/{}?{}={}&{}={}", host, words::ascii(s), words::ascii(s), s.below(100), words::ascii(s), words::ascii(s));
            mk(p.clone(), p)
        }
        5 => {
            let p = format!("https://{}/{}#{}", host, words::ascii(s), words::ascii(s));
            mk(p.clone(), p)
        }
        6 => {
            let p = format!("mailto:{}@{}", words::ascii(s), host);
            mk(p.clone(), p)
        }
        7 => {
            let p = format!("ftp://{}/{}.txt", host, words::ascii(s));
            mk(p.clone(), p)
        }
        8 => {
            let p = format!("#{}", words::ascii(s));
            mk(p.clone(), p)
        }
        _ => {
            let p = format!("../{}-{}_{}/", words::ascii(s), words::ascii(s), s.below(50));
            mk(p.clone(), p)
        }
    }
}

pub struct InlOpts {
    pub depth: u32,
    pub max: u32,
    pub br: bool,
    pub links: bool,
    pub images: bool,
    pub code: bool,
    pub attrs: bool,
    pub spans: bool,
}
impl Default for InlOpts {
    fn default() -> Self {
        InlOpts { depth: 3, max: 4, br: true, links: true, images: true, code: true, attrs: true, spans: true }
    }
}
impl InlOpts {
    pub fn plain() -> Self {
        InlOpts { depth: 0, max: 2, br: false, links: false, images: false, code: false, attrs: false, spans: false }
    }
    pub fn one_line() -> Self {
        InlOpts { br: false, ..Default::default() }
    }
}

const TAILS: &[&str] = &["", "", "", ",", ".", "!", "?", ";", ":"];

/// A code fragment that stays as written (no '@', no '|').
pub fn code_text(s: &mut Src) -> String {
    let n = s.range(1, 4);
    let mut v: Vec<String> = vec![];
    for _ in 0..n {
        v.push(match s.below(8) {
            0 => words::ascii(s),
            1 => s.pick(&["a < b", "x > y", "p && q", "<b>", "</i>", "&amp;", "&", "<br>", "a<b>c"]).to_string(),
            2 => s.pick(&["*not*", "_bold_", "-at-", "+all+", "%x%", "^2^", "~n~", "??c??", "__i__", "**b**"]).to_string(),
            3 => s.pick(&["\"q\"", "'s'", "--", "...", "(c)", "(tm)", "1 x 2", "3x4", "it's", " - "]).to_string(),
            4 => s.pick(&["!i.png!", "\"l\":http://e.com", "[1]", "[#n]", "ABC(def)", "HTML", "h1. x", "bq. y", "* z", "# z"]).to_string(),
            5 => s.pick(&["=", "{}", "()", "[]", "\\", "/", "$x", "`", "#", ";", ":="]).to_string(),
            6 => words::word(s),
            _ => format!("{}({})", words::ascii(s), words::ascii(s)),
        });
    }
    v.join(" ").trim().to_string()
}

pub fn inline(s: &mut Src, o: &InlOpts) -> Vec<Inl> {
    let n = s.range(1, o.max);
    let mut v: Vec<Inl> = vec![];
    for i in 0..n {
        if o.br && i > 0 && s.chance(1, 8) {
            v.push(Inl::Br);
            // the first thing on a line must not look like a block
            v.push(Inl::Words(words::phrase(s, 1, 2)));
            continue;
        }
        v.push(piece(s, o, None));
    }
    v
}

fn piece(s: &mut Src, o: &InlOpts, outer: Option<&[usize]>) -> Inl {
    let deep = o.depth > 0;
    let w = [8, if deep && o.spans { 5 } else { 0 }, if deep && o.spans { 1 } else { 0 }, if o.code { 2 } else { 0 }, if deep && o.links { 2 } else { 0 }, if o.images { 1 } else { 0 }];
    match s.weighted(&w) {
        0 => {
            let p = words::phrase(s, 1, 3);
            Inl::Words(if s.chance(1, 6) { p + s.pick(TAILS) } else { p })
        }
        1 => {
            let (k, kids) = span_body(s, o, outer);
            Inl::Span { k, attrs: if o.attrs { Attrs::maybe_cls(s, 1, 4) } else { Attrs::none() }, kids, tail: span_tail(s, k) }
        }
        2 => {
            let (k, kids) = span_body(s, o, outer);
            Inl::Glued { before: words::ascii(s), k, kids, after: words::ascii(s) }
        }
        3 => Inl::Code(code_text(s)),
        4 => {
            let io = InlOpts { depth: o.depth - 1, max: 2, br: false, links: false, images: o.images, code: false, attrs: o.attrs, spans: o.spans };
            let mut kids = vec![Inl::Words(words::phrase(s, 1, 3))];
            if s.chance(1, 3) {
                kids.push(piece(s, &io, None));
                kids.push(Inl::Words(words::word(s)));
            }
            Inl::Link {
                attrs: if o.attrs { Attrs::maybe_cls(s, 1, 4) } else { Attrs::none() },
                kids,
                title: if s.chance(1, 4) { Some(words::phrase(s, 1, 3)) } else { None },
                url: url(s),
                tail: s.pick(TAILS),
                bracket: s.chance(1, 8),
            }
        }
        _ => Inl::Image(image(s, o.attrs)),
    }
}

fn span_tail(s: &mut Src, k: usize) -> &'static str {
    let t = s.pick(TAILS);
    // "???" is ambiguous
    if SPANS[k].1 == "cite" && t == "?" {
        "!"
    } else {
        t
    }
}

fn span_body(s: &mut Src, o: &InlOpts, outer: Option<&[usize]>) -> (usize, Vec<Inl>) {
    span_body_of(s, o, outer, SPANS.len())
}

fn span_body_of(s: &mut Src, o: &InlOpts, outer: Option<&[usize]>, kinds: usize) -> (usize, Vec<Inl>) {
    // nested spans use other delimiter characters than the ones around them
    let free: Vec<usize> = (0..kinds)
        .filter(|k| outer.map(|u| u.iter().all(|x| SPANS[*x].0.chars().next() != SPANS[*k].0.chars().next())).unwrap_or(true))
        .collect();
    let k = *s.pick_of(&free);
    let mut used = outer.map(|u| u.to_vec()).unwrap_or_default();
    used.push(k);
    let io = InlOpts { depth: o.depth - 1, max: 2, br: false, links: o.links, images: o.images, code: o.code, attrs: o.attrs, spans: o.spans };
    let mut kids = vec![];
    if s.chance(1, 4) && o.depth > 1 {
        kids.push(piece_span(s, &io, &used));
    } else {
        kids.push(Inl::Words(words::phrase(s, 1, 2)));
        if s.chance(1, 3) {
            kids.push(piece(s, &io, Some(&used)));
            kids.push(Inl::Words(words::word(s)));
        }
    }
    (k, kids)
}

fn piece_span(s: &mut Src, o: &InlOpts, used: &[usize]) -> Inl {
    // (a citation directly before another closing delimiter is ambiguous: its
    // question marks are also punctuation)
    let (k, kids) = span_body_of(s, o, Some(used), SPANS.len() - 1);
    Inl::Span { k, attrs: Attrs::none(), kids, tail: "" }
}

pub fn image(s: &mut Src, attrs: bool) -> Img {
    let name = format!("{}.{}", words::ascii(s), s.pick(&["png", "jpg", "gif"]));
    let src = match s.below(3) {
        0 => name,
        1 => format!("/{}/{}", words::ascii(s), name),
        _ => format!("http://{}.com/{}", words::ascii(s), name),
    };
    Img {
        align: if s.chance(1, 3) { Some(*s.pick_of(&['<', '>', '='])) } else { None },
        attrs: if attrs { Attrs::maybe_cls(s, 1, 4) } else { Attrs::none() },
        src: Url { textile: src.clone(), href: src },
        alt: if s.chance(1, 2) { Some(words::phrase(s, 1, 3)) } else { None },
        href: if s.chance(1, 3) { Some(url(s)) } else { None },
    }
}

pub fn inline_textile(v: &[Inl]) -> String {
    let mut out = String::new();
    let mut first = true;
    for i in v {
        if let Inl::Br = i {
            out.push('\n');
            first = true;
            continue;
        }
        if !first {
            out.push(' ');
        }
        first = false;
        match i {
            Inl::Words(w) => out.push_str(w),
            Inl::Span { k, attrs, kids, tail } => {
                let d = SPANS[*k].0;
                out.push_str(&format!("{}{}{}{}{}", d, attrs.cls_textile(), inline_textile(kids), d, tail))
            }
            Inl::Glued { before, k, kids, after } => {
                let d = SPANS[*k].0;
                out.push_str(&format!("{}[{}{}{}]{}", before, d, inline_textile(kids), d, after))
            }
            Inl::Code(c) => out.push_str(&format!("@{}@", c)),
            Inl::Link { attrs, kids, title, url, tail, bracket } => {
                let t = title.as_ref().map(|t| format!("({})", t)).unwrap_or_default();
                let l = format!("\"{}{}{}\":{}", attrs.cls_textile(), inline_textile(kids), t, url.textile);
                if *bracket {
                    out.push_str(&format!("[{}]{}", l, tail))
                } else {
                    out.push_str(&format!("{}{}", l, tail))
                }
            }
            Inl::Image(i) => out.push_str(&image_textile(i)),
            Inl::Br => unreachable!(),
        }
    }
    out
}

pub fn image_textile(i: &Img) -> String {
    format!(
        "!{}{}{}{}!{}",
        i.align.map(|c| c.to_string()).unwrap_or_default(),
        i.attrs.cls_textile(),
        i.src.textile,
        i.alt.as_ref().map(|a| format!("({})", a)).unwrap_or_default(),
        i.href.as_ref().map(|h| format!(":{}", h.textile)).unwrap_or_default()
    )
}

pub fn image_html(i: &Img, cfg: &Cfg) -> Node {
    let mut a = i.attrs.html(cfg.restricted);
    if let Some(c) = i.align {
        let w = match c {
            '<' => "left",
            '>' => "right",
            _ => "center",
        };
        if cfg.align_class.unwrap_or(!cfg.xhtml) {
            let cl = format!("align-{}", w);
            match a.iter_mut().find(|x| x.0 == "class") {
                Some(x) => x.1 = format!("{} {}", x.1, cl),
                None => a.push(("class".into(), cl)),
            }
        } else {
            a.push(("align".into(), w.into()));
        }
    }
    a.push(("alt".into(), i.alt.clone().unwrap_or_default()));
    if let Some(t) = &i.alt {
        a.push(("title".into(), t.clone()));
    }
    a.push(("src".into(), i.src.href.clone()));
    let img = el("img", a, vec![]);
    match &i.href {
        Some(h) => {
            let mut a = vec![("href".to_string(), h.href.clone())];
            if let Some(r) = &cfg.rel {
                a.push(("rel".into(), r.clone()));
            }
            el("a", a, vec![img])
        }
        None => img,
    }
}

pub fn inline_html(v: &[Inl], cfg: &Cfg) -> Vec<Node> {
    let mut out: Vec<Node> = vec![];
    let mut first = true;
    for i in v {
        if let Inl::Br = i {
            out.push(el("br", vec![], vec![]));
            first = true;
            continue;
        }
        if !first {
            out.push(tx(" "));
        }
        first = false;
        match i {
            Inl::Words(w) => out.push(tx(w)),
            Inl::Span { k, attrs, kids, tail } => {
                out.push(el(SPANS[*k].1, attrs.html(cfg.restricted), inline_html(kids, cfg)));
                out.push(tx(tail));
            }
            Inl::Glued { before, k, kids, after } => {
                out.push(tx(before));
                out.push(el(SPANS[*k].1, vec![], inline_html(kids, cfg)));
                out.push(tx(after));
            }
            Inl::Code(c) => out.push(el("code", vec![], vec![tx(&code_shown(c, cfg))])),
            Inl::Link { attrs, kids, title, url, tail, bracket: _ } => {
                let mut a = attrs.html(cfg.restricted);
                a.push(("href".into(), url.href.clone()));
                if let Some(t) = title {
                    a.push(("title".into(), t.clone()));
                }
                if let Some(r) = &cfg.rel {
                    a.push(("rel".into(), r.clone()));
                }
                out.push(el("a", a, inline_html(kids, cfg)));
                out.push(tx(tail));
            }
            Inl::Image(i) => out.push(image_html(i, cfg)),
            Inl::Br => unreachable!(),
        }
    }
    out
}

pub fn code_shown(c: &str, _cfg: &Cfg) -> String {
    c.to_string()
}

// ------------------------------------------------------------------ comparison

const CONTAINERS: &[&str] = &["", "ul", "ol", "dl", "table", "thead", "tbody", "tfoot", "tr", "blockquote", "colgroup", "div"];
const BLOCKISH: &[&str] = &[
    "ul", "ol", "dl", "table", "blockquote", "p", "h1", "h2", "h3", "h4", "h5", "h6", "pre", "div", "li", "dt", "dd", "section", "hr", "caption", "colgroup",
];

/// Canonical form: attributes sorted, adjacent text merged, layout whitespace
/// between blocks removed, the newline after a line break removed.
pub fn canon(parent: &str, nodes: &[Node]) -> Vec<Node> {
    let mut merged: Vec<Node> = vec![];
    for n in nodes {
        match (n, merged.last_mut()) {
            (Node::Text(t), Some(Node::Text(p))) => p.push_str(t),
            _ => merged.push(n.clone()),
        }
    }
    let nodes = &merged[..];
    let mut out: Vec<Node> = vec![];
    for n in nodes {
        match n {
            Node::Text(t) => {
                if t.is_empty() {
                    continue;
                }
                if CONTAINERS.contains(&parent) && t.trim().is_empty() {
                    continue;
                }
                if let Some(Node::Text(p)) = out.last_mut() {
                    p.push_str(t);
                } else {
                    out.push(n.clone());
                }
            }
            Node::El { name, attrs, kids } => {
                let mut a = attrs.clone();
                a.sort();
                out.push(Node::El { name: name.clone(), attrs: a, kids: if name == "pre" { raw(kids) } else { canon(name, kids) } });
            }
            c => out.push(c.clone()),
        }
    }
    // layout around blocks and after <br>
    let is_block = |n: Option<&Node>| matches!(n, Some(Node::El { name, .. }) if BLOCKISH.contains(&name.as_str()));
    let is_br = |n: Option<&Node>| matches!(n, Some(Node::El { name, .. }) if name == "br");
    let mut res: Vec<Node> = vec![];
    for i in 0..out.len() {
        if let Node::Text(t) = &out[i] {
            let mut t = t.as_str();
            if i > 0 && is_br(out.get(i - 1)) {
                t = t.strip_prefix('\n').unwrap_or(t);
            }
            if is_block(out.get(i + 1)) {
                t = t.trim_end();
            }
            if i > 0 && is_block(out.get(i - 1)) {
                t = t.trim_start();
            }
            if !t.is_empty() {
                res.push(Node::Text(t.to_string()));
            }
        } else {
            res.push(out[i].clone());
        }
    }
    res
}

fn raw(nodes: &[Node]) -> Vec<Node> {
    let mut out: Vec<Node> = vec![];
    for n in nodes {
        match n {
            Node::Text(t) if t.is_empty() => (),
            Node::Text(t) => {
                if let Some(Node::Text(p)) = out.last_mut() {
                    p.push_str(t);
                } else {
                    out.push(n.clone());
                }
            }
            Node::El { name, attrs, kids } => {
                let mut a = attrs.clone();
                a.sort();
                out.push(Node::El { name: name.clone(), attrs: a, kids: raw(kids) });
            }
            c => out.push(c.clone()),
        }
    }
    out
}

/// Renames the generated ids (`fnUID-7`) in both trees in the order in which
/// they appear, so that only who refers to whom counts.
pub fn rename_ids(nodes: &[Node], uid: &str) -> Vec<Node> {
    fn go(nodes: &[Node], uid: &str, seen: &mut Vec<String>) -> Vec<Node> {
        nodes
            .iter()
            .map(|n| match n {
                Node::El { name, attrs, kids } => {
                    let attrs = attrs
                        .iter()
                        .map(|(k, v)| {
                            for p in ["#fnrev", "#fn", "#noteref", "#note", "fnrev", "fn", "noteref", "note"] {
                                if let Some(r) = v.strip_prefix(p).and_then(|r| r.strip_prefix(uid)).and_then(|r| r.strip_prefix('-')) {
                                    let key = r.to_string();
                                    let i = seen.iter().position(|x| *x == key).unwrap_or_else(|| {
                                        seen.push(key);
                                        seen.len() - 1
                                    });
                                    return (k.clone(), format!("{}~{}", p, i));
                                }
                            }
                            (k.clone(), v.clone())
                        })
                        .collect();
                    Node::El { name: name.clone(), attrs, kids: go(kids, uid, seen) }
                }
                n => n.clone(),
            })
            .collect()
    }
    go(nodes, uid, &mut vec![])
}

pub fn compare_renamed(out: &str, uid: &str, want: &[Node], want_uid: &str) -> Result<(), Fail> {
    let got = match strict(out) {
        Ok(g) => g,
        Err(e) => return fail("malformed", format!("output is not well formed: {}\n  output: {:?}\n  wanted: {}", e, out, show(&canon("", want)))),
    };
    let (w, g) = (rename_ids(&canon("", want), want_uid), rename_ids(&canon("", &got), uid));
    if let Some((k, d)) = diff(&w, &g) {
        return fail(k, format!("{}\n  output: {:?}\n  wanted: {}", d, out, show(&w)));
    }
    Ok(())
}

pub fn show(nodes: &[Node]) -> String {
    let mut s = String::new();
    for n in nodes {
        match n {
            Node::Text(t) => s.push_str(&t.replace('&', "&amp;").replace('<', "&lt;")),
            Node::Comment(c) => s.push_str(&format!("<!--{}-->", c)),
            Node::El { name, attrs, kids } => {
                s.push('<');
                s.push_str(name);
                for (k, v) in attrs {
                    s.push_str(&format!(" {}={:?}", k, v));
                }
                s.push('>');
                s.push_str(&show(kids));
                s.push_str(&format!("</{}>", name));
            }
        }
    }
    s
}

/// Finds the first difference; the class says what kind it is.
pub fn diff(want: &[Node], got: &[Node]) -> Option<(&'static str, String)> {
    for i in 0..want.len().max(got.len()) {
        match (want.get(i), got.get(i)) {
            (Some(Node::Text(a)), Some(Node::Text(b))) => {
                if a != b {
                    return Some(("text", format!("text {:?} instead of {:?}", b, a)));
                }
            }
            (Some(Node::El { name: n1, attrs: a1, kids: k1 }), Some(Node::El { name: n2, attrs: a2, kids: k2 })) => {
                if n1 != n2 {
                    return Some(("element", format!("<{}> instead of <{}>", n2, n1)));
                }
                if a1 != a2 {
                    return Some(("attributes", format!("<{}> has attributes {:?} instead of {:?}", n1, a2, a1)));
                }
                if let Some(d) = diff(k1, k2) {
                    return Some(d);
                }
            }
            (Some(Node::Comment(a)), Some(Node::Comment(b))) if a == b => (),
            (a, b) => {
                let f = |x: Option<&Node>| x.map(|n| show(std::slice::from_ref(n))).unwrap_or_else(|| "nothing".into());
                return Some(("structure", format!("{} instead of {}", f(b), f(a))));
            }
        }
    }
    None
}

pub fn expect_nodes(c: &mut Ctx, cfg: &Cfg, text: &str, want: &[Node]) -> Result<String, Fail> {
    let out = c.parse(cfg, text)?;
    compare(&out, want)?;
    Ok(out)
}

pub fn compare(out: &str, want: &[Node]) -> Result<(), Fail> {
    let got = match strict(out) {
        Ok(g) => g,
        Err(e) => return fail("malformed", format!("output is not well formed: {}\n  output: {:?}\n  wanted: {}", e, out, show(&canon("", want)))),
    };
    let (w, g) = (canon("", want), canon("", &got));
    if let Some((k, d)) = diff(&w, &g) {
        return fail(k, format!("{}\n  output: {:?}\n  wanted: {}", d, out, show(&w)));
    }
    Ok(())
}
