//! The block half of the document model: generated blocks that know how they
//! are written in Textile and which HTML they stand for.
use crate::cfg::Cfg;
use crate::gen::words;
use crate::html::Node;
use crate::model::*;
use crate::src::Src;
use std::collections::HashMap;

pub type Kv = Vec<(String, String)>;
pub fn kv(k: &str, v: &str) -> (String, String) {
    (k.to_string(), v.to_string())
}

#[derive(Clone, Debug)]
pub struct Item {
    pub attrs: Attrs,
    pub lines: Vec<Vec<Inl>>,
    pub sub: Option<Box<List>>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Start {
    None,
    Num(u64),
    Continue,
}
#[derive(Clone, Debug)]
pub struct List {
    pub ordered: bool,
    pub start: Start,
    pub items: Vec<Item>,
}

#[derive(Clone, Debug)]
pub struct Cell {
    pub th: bool,
    pub colspan: u32,
    pub rowspan: u32,
    pub valign: Option<char>,
    pub attrs: Attrs,
    pub space: (bool, bool),
    pub lines: Vec<Vec<Inl>>,
}
#[derive(Clone, Debug)]
pub struct Row {
    pub attrs: Attrs,
    pub valign: Option<char>,
    pub explicit: bool,
    pub cells: Vec<Cell>,
}
#[derive(Clone, Debug)]
pub struct Group {
    pub kind: Option<char>,
    pub attrs: Attrs,
    pub rows: Vec<Row>,
}
#[derive(Clone, Debug)]
pub struct Col {
    pub span: u32,
    pub attrs: Attrs,
    pub width: Option<u32>,
}
#[derive(Clone, Debug)]
pub struct Table {
    pub head: bool,
    pub attrs: Attrs,
    pub summary: Option<String>,
    pub caption: Option<(Attrs, Vec<Inl>)>,
    pub cols: Vec<Col>,
    pub groups: Vec<Group>,
}

#[derive(Clone, Debug)]
pub enum Blk {
    Para { explicit: bool, attrs: Attrs, inl: Vec<Inl> },
    Ext { tag: &'static str, attrs: Attrs, paras: Vec<Vec<Inl>> },
    Head { n: u32, attrs: Attrs, inl: Vec<Inl> },
    Bq { attrs: Attrs, cite: Option<Url>, paras: Vec<Vec<Inl>>, ext: bool },
    Code { pre: bool, attrs: Attrs, lang: Option<String>, chunks: Vec<(usize, String)>, ext: bool },
    NoTextile { chunks: Vec<String>, ext: bool },
    Hidden { attrs: Attrs, chunks: Vec<String>, ext: bool },
    List(List),
    Dl { attrs: Attrs, items: Vec<(bool, Attrs, Vec<Vec<Inl>>)> },
    Rc { items: Vec<(Attrs, Vec<Inl>, Option<Vec<Vec<Inl>>>, bool)> },
    Table(Table),
    Div { cls: Option<String>, kids: Vec<Blk> },
    Hr,
}

impl Blk {
    /// An extended block runs on until the next block with a signature.
    pub fn is_ext(&self) -> bool {
        match self {
            Blk::Ext { .. } => true,
            Blk::Bq { ext, .. } | Blk::Code { ext, .. } | Blk::NoTextile { ext, .. } | Blk::Hidden { ext, .. } => *ext,
            _ => false,
        }
    }
    pub fn has_signature(&self) -> bool {
        match self {
            Blk::Para { explicit, .. } => *explicit,
            Blk::Ext { .. } | Blk::Head { .. } | Blk::Bq { .. } | Blk::Code { .. } | Blk::NoTextile { .. } | Blk::Hidden { .. } => true,
            _ => false,
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Blk::Para { .. } => "para",
            Blk::Ext { .. } => "extended",
            Blk::Head { .. } => "heading",
            Blk::Bq { .. } => "quote",
            Blk::Code { .. } => "code",
            Blk::NoTextile { .. } => "notextile",
            Blk::Hidden { .. } => "comment",
            Blk::List(_) => "list",
            Blk::Dl { .. } | Blk::Rc { .. } => "deflist",
            Blk::Table(_) => "table",
            Blk::Div { .. } => "div",
            Blk::Hr => "hr",
        }
    }
}

// ------------------------------------------------------------------ generators

/// Inline content that starts with a plain word, so that nothing can be taken
/// for attributes or markers of the construct around it.
pub fn started(s: &mut Src, o: &InlOpts) -> Vec<Inl> {
    let mut w = words::phrase(s, 1, 2);
    if s.chance(1, 12) {
        w.push_str(s.pick(&[",", ";", ":", "?", ".", "/", " =", " &", ">", " + x", " $5", "%"]));
    }
    let mut v = vec![Inl::Words(w)];
    if s.chance(1, 3) {
        v.extend(inline(s, o));
    }
    v
}
fn short() -> InlOpts {
    InlOpts { depth: 2, max: 2, br: false, ..Default::default() }
}

pub fn para(s: &mut Src, restricted: bool) -> Blk {
    let explicit = s.chance(1, 3);
    Blk::Para {
        explicit,
        attrs: if explicit { Attrs::block(s, restricted) } else { Attrs::none() },
        inl: inline(s, &InlOpts { depth: 2, max: 3, ..Default::default() }),
    }
}

fn no_id(mut a: Attrs) -> Attrs {
    a.id = None;
    a
}

pub fn heading(s: &mut Src, restricted: bool) -> Blk {
    Blk::Head { n: s.range(1, 6), attrs: Attrs::block(s, restricted), inl: inline(s, &InlOpts { depth: 2, max: 3, ..Default::default() }) }
}

pub fn quote(s: &mut Src, restricted: bool) -> Blk {
    let ext = s.chance(1, 3);
    let n = if ext { s.range(1, 4) } else { 1 };
    let o = InlOpts { depth: 2, max: 3, ..Default::default() };
    Blk::Bq {
        // (the id of a quotation is written twice, on purpose or not: left out)
        attrs: no_id(Attrs::block(s, restricted)),
        cite: if s.chance(1, 3) { Some(crate::props::c15::rich_url(s, restricted)) } else { None },
        paras: (0..n).map(|_| inline(s, &o)).collect(),
        ext,
    }
}

pub fn extended(s: &mut Src, restricted: bool) -> Blk {
    let tag = *s.pick_of(&["p", "h1", "h2", "h3", "h4", "h5", "h6"]);
    let n = s.range(1, 3);
    let o = InlOpts { depth: 2, max: 3, ..Default::default() };
    Blk::Ext { tag, attrs: Attrs::block(s, restricted), paras: (0..n).map(|_| inline(s, &o)).collect() }
}

/// One line of anything: code, prose, Textile or HTML.
pub fn code_line(s: &mut Src) -> String {
    let indent = if s.chance(1, 3) { " ".repeat(s.range(1, 8) as usize) } else { String::new() };
    let mut l = code_text(s);
    if s.chance(1, 4) {
        l.push_str(s.pick(&[" @x@", " |a|b|", " ==y==", " <pre>", " </code>", " </pre>", " <notextile>", " <!-- c -->", "\\n", " \t", "  ", " *", " http://a.com", " &lt;", " &#39;", " '88"]));
    }
    indent + &l
}

pub fn code_chunk(s: &mut Src) -> String {
    let n = s.range(1, 4);
    let mut v: Vec<String> = (0..n).map(|_| code_line(s)).collect();
    // what starts a chunk must not look like the signature of a block
    let w = words::ascii(s);
    v[0] = format!("{} {}", w, v[0].trim_start());
    v.join("\n")
}

pub fn code_block(s: &mut Src, restricted: bool) -> Blk {
    let pre = s.chance(2, 5);
    let ext = s.chance(1, 3);
    let n = if ext { s.range(1, 4) } else { 1 };
    let mut attrs = Attrs::block(s, restricted);
    let lang = if !pre { attrs.lang.take() } else { None };
    let lang = if !pre && lang.is_some() { Some(s.pick(&["rust", "python", "c-sharp", "x86_64"]).to_string()) } else { None };
    if lang.is_some() {
        attrs.lang = lang.clone();
    }
    let mut chunks = vec![];
    for i in 0..n {
        let gap = if i == 0 { 0 } else { s.range(2, 4) as usize };
        chunks.push((gap, code_chunk(s)));
    }
    Blk::Code { pre, attrs, lang, chunks, ext }
}

fn raw_html(s: &mut Src) -> String {
    let w = words::phrase(s, 1, 2);
    match s.below(6) {
        0 => format!("<b>*{}*</b>", w),
        1 => format!("<i class=\"x\">\"{}\":y -- z...</i>", w),
        2 => format!("*{}* _em_ (c) @at@", w),
        3 => format!("<div>{}</div>", w),
        4 => format!("<!-- {} -->", w),
        _ => w,
    }
}

pub fn notextile(s: &mut Src) -> Blk {
    let ext = s.chance(1, 3);
    let n = if ext { s.range(1, 3) } else { 1 };
    Blk::NoTextile { chunks: (0..n).map(|_| format!("<section>{}</section>", raw_html(s))).collect(), ext }
}

pub fn hidden(s: &mut Src) -> Blk {
    let ext = s.chance(1, 3);
    let n = if ext { s.range(1, 3) } else { 1 };
    Blk::Hidden { attrs: Attrs::maybe_cls(s, 1, 3), chunks: (0..n).map(|_| format!("{} {}", words::word(s), raw_html(s))).collect(), ext }
}

fn item_lines(s: &mut Src) -> Vec<Vec<Inl>> {
    let mut lines = vec![if s.chance(1, 4) { inline(s, &short()) } else { started(s, &short()) }];
    while s.chance(1, 8) {
        lines.push(started(s, &short()));
    }
    lines
}

pub fn list(s: &mut Src, depth: u32) -> List {
    let ordered = s.bool();
    let n = s.range(1, 4);
    let start = if ordered {
        match s.below(8) {
            6 => Start::Num(words::number(s, 0, 2_000_000) as u64),
            7 => Start::Continue,
            _ => Start::None,
        }
    } else {
        Start::None
    };
    let items = (0..n)
        .map(|_| Item {
            attrs: Attrs::maybe_cls(s, 1, 5),
            lines: item_lines(s),
            sub: if depth > 1 && s.chance(1, 3) { Some(Box::new(list(s, depth - 1))) } else { None },
        })
        .collect();
    List { ordered, start, items }
}

pub fn deflist(s: &mut Src) -> Blk {
    let n = s.range(1, 3);
    let mut items = vec![];
    for _ in 0..n {
        for _ in 0..s.range(1, 2) {
            let l = item_lines(s).remove(0);
            items.push((true, Attrs::maybe_cls(s, 1, 5), vec![l]));
        }
        for _ in 0..s.range(1, 2) {
            items.push((false, Attrs::maybe_cls(s, 1, 5), item_lines(s)));
        }
    }
    Blk::Dl { attrs: Attrs::none(), items }
}

pub fn rclist(s: &mut Src) -> Blk {
    let n = s.range(1, 4);
    let o = InlOpts { depth: 2, max: 2, br: false, links: true, images: true, code: true, attrs: true, spans: true };
    let mut items = vec![];
    for i in 0..n {
        let last = i + 1 == n;
        let def = if !last && s.chance(1, 5) {
            None
        } else {
            let k = s.range(1, 3);
            Some((0..k).map(|_| started(s, &o)).collect::<Vec<_>>())
        };
        let attrs = if def.is_some() { Attrs::maybe_cls(s, 1, 5) } else { Attrs::none() };
        items.push((attrs, started(s, &o), def, s.chance(1, 4)));
    }
    Blk::Rc { items }
}

fn cell(s: &mut Src, restricted: bool) -> Cell {
    let empty = s.chance(1, 8);
    let mut a = if s.chance(1, 3) { Attrs::block(s, restricted) } else { Attrs::none() };
    if a.align.is_some() {
        // padding and alignment go together only in one order here
        a.pl = 0;
        a.pr = 0;
    }
    Cell {
        th: s.chance(1, 4),
        colspan: if s.chance(1, 8) { words::number(s, 2, 1500) } else { 0 },
        rowspan: if s.chance(1, 8) { words::number(s, 2, 1500) } else { 0 },
        valign: if s.chance(1, 8) { Some(*s.pick_of(&['^', '-', '~'])) } else { None },
        attrs: a,
        space: (s.chance(1, 4), s.chance(1, 4)),
        lines: if empty { vec![] } else { item_lines(s).into_iter().map(|mut l| { if !matches!(l.first(), Some(Inl::Words(_))) { l.insert(0, Inl::Words(words::word(s))); } l }).collect() },
    }
}

fn trow(s: &mut Src, restricted: bool, cols: u32) -> Row {
    let attrs = Attrs::maybe_cls(s, 1, 6);
    let valign = if s.chance(1, 10) { Some(*s.pick_of(&['^', '-', '~'])) } else { None };
    Row { explicit: !attrs.is_empty() || valign.is_some(), attrs, valign, cells: (0..cols).map(|_| cell(s, restricted)).collect() }
}

pub fn table(s: &mut Src, restricted: bool) -> Table {
    let cols = s.range(1, 4);
    let head = s.chance(1, 3);
    let mut attrs = if head { Attrs::block(s, restricted) } else { Attrs::none() };
    attrs.pl = 0;
    attrs.pr = 0;
    let ng = if s.chance(1, 3) { s.range(1, 3) } else { 0 };
    let mut groups = vec![];
    if ng == 0 || s.chance(1, 4) {
        groups.push(Group { kind: None, attrs: Attrs::none(), rows: (0..s.range(1, 4)).map(|_| trow(s, restricted, cols)).collect() });
    }
    for _ in 0..ng {
        groups.push(Group {
            kind: Some(*s.pick_of(&['^', '-', '~'])),
            attrs: Attrs::maybe_cls(s, 1, 4),
            rows: (0..s.range(1, 3)).map(|_| trow(s, restricted, cols)).collect(),
        });
    }
    // "|=. " at the start would be a caption
    groups[0].rows[0].cells[0].attrs.align = None;
    Table {
        head,
        attrs,
        summary: if head && s.chance(1, 3) { Some(words::phrase(s, 1, 4)) } else { None },
        caption: if s.chance(1, 4) { Some((Attrs::maybe_cls(s, 1, 3), started(s, &short()))) } else { None },
        cols: if s.chance(1, 4) {
            (0..s.range(1, 3)).map(|_| Col { span: if s.chance(1, 3) { words::number(s, 2, 1500) } else { 0 }, attrs: Attrs::none(), width: if s.chance(2, 3) { Some(words::number(s, 1, 12_000)) } else { None } }).collect()
        } else {
            vec![]
        },
        groups,
    }
}

pub const ALL: &[u32] = &[6, 3, 2, 1, 2, 1, 1, 3, 1, 1, 2, 1, 1];

/// A document; `w` weighs the kinds of blocks.
pub fn doc(s: &mut Src, restricted: bool, max: u32, w: &[u32]) -> Vec<Blk> {
    let n = s.range(1, max);
    let mut v: Vec<Blk> = vec![];
    for _ in 0..n {
        let mut b = blk(s, restricted, w);
        if v.last().map(|p| p.is_ext()).unwrap_or(false) && !b.has_signature() {
            b = match b {
                Blk::Para { inl, .. } => Blk::Para { explicit: true, attrs: Attrs::none(), inl },
                _ => {
                    v.push(Blk::Para { explicit: true, attrs: Attrs::none(), inl: vec![Inl::Words(words::word(s))] });
                    b
                }
            }
        }
        v.push(b);
    }
    v
}

fn blk(s: &mut Src, restricted: bool, w: &[u32]) -> Blk {
    match s.weighted(w) {
        0 => para(s, restricted),
        1 => heading(s, restricted),
        2 => quote(s, restricted),
        3 => extended(s, restricted),
        4 => code_block(s, restricted),
        5 if !restricted => notextile(s),
        6 => hidden(s),
        7 => Blk::List(list(s, 4)),
        8 => deflist(s),
        9 => rclist(s),
        10 => Blk::Table(table(s, restricted)),
        11 if !restricted => Blk::Div {
            cls: if s.bool() { Some(words::ident(s)) } else { None },
            kids: doc(s, restricted, 2, &[6, 3, 2, 0, 2, 0, 0, 3, 1, 1, 2, 0, 0]).into_iter().filter(|b| !b.is_ext()).collect(),
        },
        12 if !restricted => Blk::Hr,
        _ => para(s, restricted),
    }
}

// ------------------------------------------------------------------ Textile

fn lines_textile(l: &[Vec<Inl>]) -> String {
    l.iter().map(|x| inline_textile(x)).collect::<Vec<_>>().join("\n")
}

fn list_textile(l: &List, prefix: &str, out: &mut Vec<String>) {
    let m = format!("{}{}", prefix, if l.ordered { '#' } else { '*' });
    for (i, it) in l.items.iter().enumerate() {
        let st = match (i, &l.start) {
            (0, Start::Num(n)) => n.to_string(),
            (0, Start::Continue) => "_".into(),
            _ => String::new(),
        };
        out.push(format!("{}{}{} {}", m, st, it.attrs.cls_textile(), lines_textile(&it.lines)));
        if let Some(sub) = &it.sub {
            list_textile(sub, &m, out);
        }
    }
}

fn cell_textile(c: &Cell) -> String {
    let mut sig = String::new();
    // the vertical alignment counts only in the first place
    if let (Some(v), false, 0, 0) = (c.valign, c.th, c.colspan, c.rowspan) {
        sig.push(v);
    }
    if c.th {
        sig.push('_');
    }
    if c.colspan > 0 {
        sig.push_str(&format!("\\{}", c.colspan));
    }
    if c.rowspan > 0 {
        sig.push_str(&format!("/{}", c.rowspan));
    }
    sig.push_str(c.attrs.align_textile());
    sig.push_str(&"(".repeat(c.attrs.pl));
    sig.push_str(&")".repeat(c.attrs.pr));
    sig.push_str(&c.attrs.cls_textile());
    if !sig.is_empty() {
        sig.push_str(". ");
    }
    format!("{}{}{}{}", sig, if c.space.0 { " " } else { "" }, lines_textile(&c.lines), if c.space.1 { " " } else { "" })
}

fn table_textile(t: &Table) -> String {
    let mut o = String::new();
    if t.head {
        o.push_str(&format!("table{}.{}\n", t.attrs.textile(), t.summary.as_ref().map(|s| format!(" {}", s)).unwrap_or_default()));
    }
    if let Some((a, inl)) = &t.caption {
        o.push_str(&format!("|={}. {}\n", a.cls_textile(), inline_textile(inl)));
    }
    if !t.cols.is_empty() {
        let c: Vec<String> = t
            .cols
            .iter()
            .enumerate()
            .map(|(i, c)| {
                let sp = if c.span > 0 { format!("\\{}. ", c.span) } else if i == 0 { ". ".into() } else { " ".into() };
                format!("{}{}", sp, c.width.map(|w| w.to_string()).unwrap_or_default())
            })
            .collect();
        o.push_str(&format!("|:{}|\n", c.join("|")));
    }
    for g in &t.groups {
        if let Some(k) = g.kind {
            o.push_str(&format!("|{}{}.\n", k, g.attrs.cls_textile()));
        }
        for r in &g.rows {
            if r.explicit {
                o.push_str(&format!("{}{}. ", r.valign.map(|c| c.to_string()).unwrap_or_default(), r.attrs.cls_textile()));
            }
            for c in &r.cells {
                o.push('|');
                o.push_str(&cell_textile(c));
            }
            o.push_str("|\n");
        }
    }
    o.pop();
    o
}

pub fn blk_textile(b: &Blk) -> String {
    match b {
        Blk::Para { explicit, attrs, inl } => {
            if *explicit {
                format!("p{}. {}", attrs.textile(), inline_textile(inl))
            } else {
                inline_textile(inl)
            }
        }
        Blk::Ext { tag, attrs, paras } => {
            format!("{}{}.. {}", tag, attrs.textile(), paras.iter().map(|p| inline_textile(p)).collect::<Vec<_>>().join("\n\n"))
        }
        Blk::Head { n, attrs, inl } => format!("h{}{}. {}", n, attrs.textile(), inline_textile(inl)),
        Blk::Bq { attrs, cite, paras, ext } => format!(
            "bq{}{}{} {}",
            attrs.textile(),
            if *ext { ".." } else { "." },
            cite.as_ref().map(|u| format!(":{}", u.textile)).unwrap_or_default(),
            paras.iter().map(|p| inline_textile(p)).collect::<Vec<_>>().join("\n\n")
        ),
        Blk::Code { pre, attrs, chunks, ext, .. } => {
            let mut t = format!("{}{}{} ", if *pre { "pre" } else { "bc" }, attrs.textile(), if *ext { ".." } else { "." });
            for (gap, c) in chunks {
                t.push_str(&"\n".repeat(*gap));
                t.push_str(c);
            }
            t
        }
        Blk::NoTextile { chunks, ext } => format!("notextile{} {}", if *ext { ".." } else { "." }, chunks.join("\n\n")),
        Blk::Hidden { attrs, chunks, ext } => format!("###{}{} {}", attrs.cls_textile(), if *ext { ".." } else { "." }, chunks.join("\n\n")),
        Blk::List(l) => {
            let mut v = vec![];
            list_textile(l, "", &mut v);
            v.join("\n")
        }
        Blk::Dl { items, .. } => {
            items.iter().map(|(dt, a, l)| format!("{}{} {}", if *dt { ';' } else { ':' }, a.cls_textile(), lines_textile(l))).collect::<Vec<_>>().join("\n")
        }
        Blk::Rc { items } => items
            .iter()
            .map(|(a, term, def, block)| {
                let d = match def {
                    None => String::new(),
                    Some(l) => format!(
                        " :={}{}{}",
                        if *block { "\n" } else { " " },
                        lines_textile(l),
                        if *block || l.len() > 1 { " =:" } else { "" }
                    ),
                };
                format!("-{} {}{}", a.cls_textile(), inline_textile(term), d)
            })
            .collect::<Vec<_>>()
            .join("\n"),
        Blk::Table(t) => table_textile(t),
        Blk::Div { cls, kids } => {
            let open = cls.as_ref().map(|c| format!("<div class=\"{}\">", c)).unwrap_or_else(|| "<div>".into());
            let mut v = vec![open];
            v.extend(kids.iter().map(blk_textile));
            v.push("</div>".into());
            v.join("\n\n")
        }
        Blk::Hr => "<hr />".into(),
    }
}

pub fn doc_textile(d: &[Blk]) -> String {
    d.iter().map(blk_textile).collect::<Vec<_>>().join("\n\n")
}

/// The same, with more empty lines between the blocks and white space at the
/// ends of the document.
pub fn doc_textile_spaced(s: &mut Src, d: &[Blk]) -> String {
    let mut t = s.pick(&["", "", "", "\n", "\n\n\n"]).to_string();
    for (i, b) in d.iter().enumerate() {
        if i > 0 {
            t.push_str(s.pick(&["\n\n", "\n\n", "\n\n\n", "\n\n\n\n", "\n \n", "\n\n \t\n"]));
        }
        t.push_str(&blk_textile(b));
    }
    t.push_str(s.pick(&["", "", "", "\n", "\n\n\n"]));
    t
}

// ------------------------------------------------------------------ HTML

/// What the numbered lists of a document share: the next number per marker.
#[derive(Default)]
pub struct Numbers(HashMap<String, u64>);

fn lines_html(l: &[Vec<Inl>], cfg: &Cfg) -> Vec<Node> {
    let mut v = vec![];
    for (i, x) in l.iter().enumerate() {
        if i > 0 {
            v.push(el("br", vec![], vec![]));
        }
        v.extend(inline_html(x, cfg));
    }
    v
}

fn list_html(l: &List, prefix: &str, nums: &mut Numbers, cfg: &Cfg) -> Node {
    let m = format!("{}{}", prefix, if l.ordered { '#' } else { '*' });
    let mut la = l.items[0].attrs.html(cfg.restricted);
    if l.ordered {
        let next = nums.0.entry(m.clone()).or_insert(1);
        match l.start {
            Start::None => *next = 1,
            Start::Num(n) => *next = n,
            Start::Continue => (),
        }
        if l.start != Start::None {
            la.push(kv("start", &next.to_string()));
        }
        *next += l.items.len() as u64;
    }
    let kids = l
        .items
        .iter()
        .enumerate()
        .map(|(i, it)| {
            let mut k = lines_html(&it.lines, cfg);
            if let Some(sub) = &it.sub {
                k.push(list_html(sub, &m, nums, cfg));
            }
            el("li", if i == 0 { vec![] } else { it.attrs.html(cfg.restricted) }, k)
        })
        .collect();
    el(if l.ordered { "ol" } else { "ul" }, la, kids)
}

fn with_valign(a: &Attrs, v: Option<char>, restricted: bool) -> Kv {
    let mut h = a.html(restricted);
    if let Some(c) = v {
        let d = format!("vertical-align:{}", match c { '^' => "top", '-' => "middle", _ => "bottom" });
        h.retain(|x| x.0 != "style");
        h.push(kv("style", &a.style_value(restricted, &[d]).unwrap()));
    }
    h
}

fn table_html(t: &Table, cfg: &Cfg) -> Node {
    let r = cfg.restricted;
    let mut a = if t.head { t.attrs.html(r) } else { vec![] };
    if let Some(s) = &t.summary {
        a.push(kv("summary", s));
    }
    let mut kids = vec![];
    if let Some((ca, inl)) = &t.caption {
        kids.push(el("caption", ca.html(r), inline_html(inl, cfg)));
    }
    if !t.cols.is_empty() {
        let ca = |c: &Col| {
            let mut v = vec![];
            if c.span > 0 {
                v.push(kv("span", &c.span.to_string()));
            }
            if let Some(w) = c.width {
                v.push(kv("width", &w.to_string()));
            }
            v
        };
        kids.push(el("colgroup", ca(&t.cols[0]), t.cols[1..].iter().map(|c| el("col", ca(c), vec![])).collect()));
    }
    for g in &t.groups {
        let rows: Vec<Node> = g
            .rows
            .iter()
            .map(|row| {
                let cells = row
                    .cells
                    .iter()
                    .map(|c| {
                        let bare = !c.th && c.colspan == 0 && c.rowspan == 0;
                        let mut ca = with_valign(&c.attrs, c.valign.filter(|_| bare), r);
                        if c.colspan > 0 {
                            ca.push(kv("colspan", &c.colspan.to_string()));
                        }
                        if c.rowspan > 0 {
                            ca.push(kv("rowspan", &c.rowspan.to_string()));
                        }
                        let mut k = vec![];
                        if c.space.0 {
                            k.push(tx(" "));
                        }
                        k.extend(lines_html(&c.lines, cfg));
                        if c.space.1 {
                            k.push(tx(" "));
                        }
                        el(if c.th { "th" } else { "td" }, ca, k)
                    })
                    .collect();
                el("tr", with_valign(&row.attrs, row.valign, r), cells)
            })
            .collect();
        match g.kind {
            None => kids.extend(rows),
            Some(k) => kids.push(el(match k { '^' => "thead", '~' => "tfoot", _ => "tbody" }, g.attrs.html(r), rows)),
        }
    }
    el("table", a, kids)
}

pub fn blk_html(b: &Blk, cfg: &Cfg, nums: &mut Numbers) -> Vec<Node> {
    let r = cfg.restricted;
    match b {
        Blk::Para { attrs, inl, .. } => {
            // an image alone gets no paragraph around it unless asked for
            vec![el("p", attrs.html(r), inline_html(inl, cfg))]
        }
        Blk::Ext { tag, attrs, paras } => paras.iter().map(|p| el(tag, attrs.html(r), inline_html(p, cfg))).collect(),
        Blk::Head { n, attrs, inl } => vec![el(&format!("h{}", n), attrs.html(r), inline_html(inl, cfg))],
        Blk::Bq { attrs, cite, paras, .. } => {
            let mut a = attrs.html(r);
            if let Some(c) = cite {
                a.push(kv("cite", &c.href));
            }
            vec![el("blockquote", a, paras.iter().map(|p| el("p", attrs.html(r), inline_html(p, cfg))).collect())]
        }
        Blk::Code { pre, attrs, lang, chunks, .. } => {
            let mut a = attrs.html(r);
            let text: String = chunks.iter().map(|(g, c)| "\n".repeat(*g) + c).collect();
            let body = tx(&text);
            if *pre {
                vec![el("pre", a, vec![body])]
            } else {
                a.retain(|x| x.0 != "lang");
                let ca = lang.as_ref().map(|l| vec![kv("class", l)]).unwrap_or_default();
                vec![el("pre", a, vec![el("code", ca, vec![body])])]
            }
        }
        Blk::NoTextile { chunks, .. } => crate::html::strict(&chunks.join("\n\n")).expect("notextile content"),
        Blk::Hidden { .. } => vec![],
        Blk::List(l) => vec![list_html(l, "", nums, cfg)],
        Blk::Dl { items, .. } => {
            let a = items[0].1.html(r);
            let k = items
                .iter()
                .enumerate()
                .map(|(i, (dt, a, l))| el(if *dt { "dt" } else { "dd" }, if i == 0 { vec![] } else { a.html(r) }, lines_html(l, cfg)))
                .collect();
            vec![el("dl", a, k)]
        }
        Blk::Rc { items } => {
            let mut k = vec![];
            for (a, term, def, block) in items {
                k.push(el("dt", a.html(r), inline_html(term, cfg)));
                if let Some(d) = def {
                    let body = lines_html(d, cfg);
                    k.push(el("dd", vec![], if *block { vec![el("p", vec![], body)] } else { body }));
                }
            }
            vec![el("dl", vec![], k)]
        }
        Blk::Table(t) => vec![table_html(t, cfg)],
        Blk::Div { cls, kids } => {
            let a = cls.as_ref().map(|c| vec![kv("class", c)]).unwrap_or_default();
            vec![el("div", a, kids.iter().flat_map(|k| blk_html(k, cfg, nums)).collect())]
        }
        Blk::Hr => vec![el("hr", vec![], vec![])],
    }
}

pub fn doc_html(d: &[Blk], cfg: &Cfg) -> Vec<Node> {
    let mut nums = Numbers::default();
    d.iter().flat_map(|b| blk_html(b, cfg, &mut nums)).collect()
}
