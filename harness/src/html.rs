//! Two independent views of the produced HTML: the tokens a browser would see
//! (html5ever's tokenizer), and a strict parse that accepts only cleanly
//! written, properly nested markup.
use html5ever::tokenizer::{BufferQueue, Tag, TagKind, Token, TokenSink, TokenSinkResult, Tokenizer, TokenizerOpts};

#[derive(Debug, Clone, PartialEq)]
pub enum Tok {
    Open { name: String, attrs: Vec<(String, String)>, self_closing: bool },
    Close { name: String },
    Text(String),
    Comment(String),
    Other(String),
}

#[derive(Default)]
struct Sink {
    toks: Vec<Tok>,
    errors: Vec<String>,
}

impl TokenSink for Sink {
    type Handle = ();
    fn process_token(&mut self, token: Token, _line: u64) -> TokenSinkResult<()> {
        match token {
            Token::TagToken(Tag { kind, name, self_closing, attrs }) => {
                let name = name.to_string();
                match kind {
                    TagKind::StartTag => self.toks.push(Tok::Open {
                        name,
                        self_closing,
                        attrs: attrs.iter().map(|a| (a.name.local.to_string(), a.value.to_string())).collect(),
                    }),
                    TagKind::EndTag => self.toks.push(Tok::Close { name }),
                }
            }
            Token::CharacterTokens(t) => match self.toks.last_mut() {
                Some(Tok::Text(s)) => s.push_str(&t),
                _ => self.toks.push(Tok::Text(t.to_string())),
            },
            Token::NullCharacterToken => match self.toks.last_mut() {
                Some(Tok::Text(s)) => s.push('\0'),
                _ => self.toks.push(Tok::Text("\0".into())),
            },
            Token::CommentToken(c) => self.toks.push(Tok::Comment(c.to_string())),
            Token::DoctypeToken(_) => self.toks.push(Tok::Other("doctype".into())),
            Token::ParseError(e) => self.errors.push(e.to_string()),
            Token::EOFToken => (),
        }
        TokenSinkResult::Continue
    }
}

/// Tokenizes as a browser does.
pub fn browser_tokens(html: &str) -> Vec<Tok> {
    let mut input = BufferQueue::new();
    input.push_back(html5ever::tendril::StrTendril::from_slice(html));
    let mut t = Tokenizer::new(Sink::default(), TokenizerOpts { discard_bom: false, ..Default::default() });
    let _ = t.feed(&mut input);
    t.end();
    t.sink.toks
}

#[derive(Debug, Clone, PartialEq)]
pub enum Node {
    El { name: String, attrs: Vec<(String, String)>, kids: Vec<Node> },
    Text(String),
    Comment(String),
}

const VOID: &[&str] = &["br", "hr", "img", "col", "area", "base", "embed", "input", "link", "meta", "source", "track", "wbr"];

/// Decodes the character references in text or attribute values.  Strict:
/// every '&' must start a reference this library or its author could mean.
pub fn decode(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        out.push_str(&rest[..i]);
        rest = &rest[i..];
        let end = match rest.find(';') {
            Some(e) if e <= 32 => e,
            _ => return Err(format!("bare ampersand near {:?}", &rest.chars().take(20).collect::<String>())),
        };
        let name = &rest[1..end];
        let ch = match name {
            "amp" => "&".to_string(),
            "lt" => "<".to_string(),
            "gt" => ">".to_string(),
            "quot" => "\"".to_string(),
            "nbsp" => "\u{a0}".to_string(),
            "frac12" => "½".to_string(),
            "frac34" => "¾".to_string(),
            "sup1" => "¹".to_string(),
            "sup2" => "²".to_string(),
            "there4" => "∴".to_string(),
            "copy" => "©".to_string(),
            "hellip" => "…".to_string(),
            "Eacute" => "É".to_string(),
            _ => {
                let code = if let Some(h) = name.strip_prefix("#x") {
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = name.strip_prefix('#') {
                    d.parse().ok()
                } else {
                    None
                };
                match code.and_then(char::from_u32) {
                    Some(c) => c.to_string(),
                    None => return Err(format!("unexpected reference &{};", name)),
                }
            }
        };
        out.push_str(&ch);
        rest = &rest[end + 1..];
    }
    out.push_str(rest);
    Ok(out)
}

/// Strict parse into a tree.  Values keep their character references decoded.
pub fn strict(html: &str) -> Result<Vec<Node>, String> {
    let mut stack: Vec<(String, Vec<(String, String)>, Vec<Node>)> = vec![(String::new(), vec![], vec![])];
    let mut rest = html;
    fn push(stack: &mut [(String, Vec<(String, String)>, Vec<Node>)], n: Node) {
        let kids = &mut stack.last_mut().unwrap().2;
        if let (Node::Text(t), Some(Node::Text(p))) = (&n, kids.last_mut()) {
            p.push_str(t);
            return;
        }
        kids.push(n);
    }
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix("<!--") {
            let e = r.find("-->").ok_or("unterminated comment")?;
            push(&mut stack, Node::Comment(r[..e].to_string()));
            rest = &r[e + 3..];
        } else if let Some(r) = rest.strip_prefix("</") {
            let e = r.find('>').ok_or("unterminated end tag")?;
            let name = &r[..e];
            if name.is_empty() || !name.chars().all(|c| c.is_ascii_alphanumeric()) {
                return Err(format!("malformed end tag </{}>", name));
            }
            let (open, attrs, kids) = stack.pop().unwrap();
            if stack.is_empty() || open != name {
                return Err(format!("</{}> closes <{}>", name, open));
            }
            push(&mut stack, Node::El { name: open, attrs, kids });
            rest = &r[e + 1..];
        } else if let Some(r) = rest.strip_prefix('<') {
            let (name, attrs, selfc, len) = strict_tag(r).map_err(|e| {
                format!("malformed tag near {:?}: {}", rest.chars().take(60).collect::<String>(), e)
            })?;
            rest = &r[len..];
            if VOID.contains(&name.as_str()) {
                push(&mut stack, Node::El { name, attrs, kids: vec![] });
            } else if selfc {
                return Err(format!("<{} /> is not a void element", name));
            } else {
                stack.push((name, attrs, vec![]));
            }
        } else {
            let e = rest.find('<').unwrap_or(rest.len());
            let t = &rest[..e];
            if t.contains('>') {
                return Err(format!("raw '>' in text {:?}", t.chars().take(60).collect::<String>()));
            }
            push(&mut stack, Node::Text(decode(t)?));
            rest = &rest[e..];
        }
    }
    if stack.len() != 1 {
        return Err(format!("<{}> is never closed", stack.last().unwrap().0));
    }
    Ok(stack.pop().unwrap().2)
}

/// Parses `name( attr="value")*( /)?>`; returns the length consumed.
pub fn strict_tag(r: &str) -> Result<(String, Vec<(String, String)>, bool, usize), String> {
    let b = r.as_bytes();
    let mut i = 0;
    while i < b.len() && b[i].is_ascii_alphanumeric() {
        i += 1;
    }
    if i == 0 || !b[0].is_ascii_alphabetic() {
        return Err("no tag name".into());
    }
    let name = r[..i].to_string();
    let mut attrs: Vec<(String, String)> = vec![];
    loop {
        if b.get(i) == Some(&b'>') {
            return Ok((name, attrs, false, i + 1));
        }
        if r[i..].starts_with(" />") {
            return Ok((name, attrs, true, i + 3));
        }
        if b.get(i) != Some(&b' ') {
            return Err("expected a space before an attribute".into());
        }
        i += 1;
        let st = i;
        while i < b.len() && (b[i].is_ascii_lowercase() || b[i] == b'-') {
            i += 1;
        }
        if st == i {
            return Err("no attribute name".into());
        }
        let an = r[st..i].to_string();
        if b.get(i) != Some(&b'=') {
            return Err(format!("attribute {} without a value", an));
        }
        i += 1;
        let q = match b.get(i) {
            Some(&c @ (b'"' | b'\'')) => c,
            _ => return Err(format!("attribute {} not quoted", an)),
        };
        i += 1;
        let len = r[i..].find(q as char).ok_or("unterminated attribute value")?;
        let v = &r[i..i + len];
        // (the definition of an acronym may span lines)
        let bare = if an == "title" { v.replace("<br>", "").replace("<br />", "").replace('\n', "") } else { v.to_string() };
        if bare.contains('<') || bare.contains('>') || bare.contains('\n') {
            return Err(format!("markup or newline inside attribute {}={:?}", an, v));
        }
        if attrs.iter().any(|(n, _)| *n == an) {
            return Err(format!("attribute {} repeated", an));
        }
        attrs.push((an, decode(v)?));
        i += len + 1;
    }
}

impl Node {
    pub fn text(&self) -> String {
        match self {
            Node::Text(t) => t.clone(),
            Node::Comment(_) => String::new(),
            Node::El { kids, .. } => kids.iter().map(|k| k.text()).collect(),
        }
    }
}

pub fn text_of(nodes: &[Node]) -> String {
    nodes.iter().map(|n| n.text()).collect()
}

/// Visits every element with its ancestors' names.
pub fn walk<'a>(nodes: &'a [Node], f: &mut dyn FnMut(&'a str, &'a [(String, String)], &'a [Node])) {
    for n in nodes {
        if let Node::El { name, attrs, kids } = n {
            f(name, attrs, kids);
            walk(kids, f);
        }
    }
}
