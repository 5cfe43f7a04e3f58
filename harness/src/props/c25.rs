//! C25: image sizes, against a server of our own on the loopback network.
use crate::engine::*;
use crate::gen::words;
use crate::html::{browser_tokens, Tok};
use crate::src::Src;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Clone, Debug, PartialEq)]
enum Fault {
    None,
    /// The connection is closed before any answer.
    Hangup,
    /// The body ends before the bytes that tell the size.
    Cut,
    /// The body ends early, but after them.
    CutLate,
    NotHttp,
    NotFound,
    Error,
    NotImage,
    Empty,
    /// A body without an end that is not an image.
    Endless,
    Redirect,
}

#[derive(Clone, Debug)]
struct Reply {
    path: String,
    body: Vec<u8>,
    /// How many bytes tell the size.
    head: usize,
    fault: Fault,
    chunks: Vec<usize>,
    chunked: bool,
}

#[derive(Default)]
struct State {
    replies: Vec<Reply>,
    log: Vec<String>,
    /// Endless answers that were read to the end.
    drained: u32,
}

struct Server {
    port: u16,
    state: Arc<Mutex<State>>,
}

const ENDLESS: usize = 96 << 20;

fn server() -> &'static Server {
    static S: OnceLock<Server> = OnceLock::new();
    S.get_or_init(|| {
        for v in ["http_proxy", "HTTP_PROXY", "all_proxy", "ALL_PROXY", "https_proxy", "HTTPS_PROXY"] {
            std::env::remove_var(v);
        }
        let l = TcpListener::bind("127.0.0.1:0").expect("loopback");
        let port = l.local_addr().unwrap().port();
        let state = Arc::new(Mutex::new(State::default()));
        let st = state.clone();
        std::thread::spawn(move || {
            for c in l.incoming().flatten() {
                let st = st.clone();
                std::thread::spawn(move || {
                    let _ = serve(c, st);
                });
            }
        });
        Server { port, state }
    })
}

fn serve(mut c: TcpStream, st: Arc<Mutex<State>>) -> std::io::Result<()> {
    c.set_nodelay(true)?;
    let mut req = Vec::new();
    let mut buf = [0u8; 4096];
    while !req.windows(4).any(|w| w == b"\r\n\r\n") {
        let n = c.read(&mut buf)?;
        if n == 0 {
            return Ok(());
        }
        req.extend_from_slice(&buf[..n]);
    }
    let line = String::from_utf8_lossy(&req);
    let line = line.lines().next().unwrap_or("").to_string();
    let mut it = line.split(' ');
    let (method, path) = (it.next().unwrap_or("").to_string(), it.next().unwrap_or("").to_string());
    let reply = {
        let mut s = st.lock().unwrap();
        s.log.push(if method == "GET" { path.clone() } else { format!("{} {}", method, path) });
        let real = path.strip_prefix("/moved").unwrap_or(&path);
        s.replies.iter().find(|r| r.path == real).cloned()
    };
    let r = match reply {
        Some(r) => r,
        None => {
            c.write_all(b"HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")?;
            return Ok(());
        }
    };
    let mut body = r.body.clone();
    let mut status = "200 OK";
    let mut declared = body.len();
    match r.fault {
        Fault::Hangup => return Ok(()),
        Fault::NotHttp => {
            c.write_all(b"\x16\x03\x01 hello there\r\n\r\n")?;
            return Ok(());
        }
        Fault::NotFound => {
            status = "404 Not Found";
            body = b"<html>no such image</html>".to_vec();
            declared = body.len();
        }
        Fault::Error => {
            status = "500 Oops";
            body = b"oops, an error has occurred here".to_vec();
            declared = body.len();
        }
        Fault::NotImage => {
            body = b"x this is a plain text and no image at all ".repeat(40);
            declared = body.len();
        }
        Fault::Empty => {
            body = vec![];
            declared = 0;
        }
        Fault::Cut => body.truncate(r.head - 1),
        Fault::CutLate => body.truncate(r.head + (body.len() - r.head) / 2),
        Fault::Redirect if !path.starts_with("/moved") => {
            c.write_all(format!("HTTP/1.1 302 Found\r\nLocation: /moved{}\r\nContent-Length: 0\r\nConnection: close\r\n\r\n", r.path).as_bytes())?;
            return Ok(());
        }
        _ => (),
    }
    if r.fault == Fault::Endless {
        c.write_all(b"HTTP/1.1 200 OK\r\nConnection: close\r\n\r\n")?;
        let block = vec![b'x'; 1 << 16];
        let mut sent = 0;
        while sent < ENDLESS {
            c.write_all(&block)?;
            sent += block.len();
        }
        st.lock().unwrap().drained += 1;
        return Ok(());
    }
    let chunked = r.chunked && !matches!(r.fault, Fault::Cut | Fault::CutLate);
    if chunked {
        c.write_all(format!("HTTP/1.1 {}\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n", status).as_bytes())?;
    } else {
        c.write_all(format!("HTTP/1.1 {}\r\nContent-Type: image/x\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", status, declared).as_bytes())?;
    }
    let mut rest = &body[..];
    for k in r.chunks.iter().chain(std::iter::once(&usize::MAX)) {
        let n = (*k).min(rest.len());
        if n == 0 {
            continue;
        }
        if chunked {
            c.write_all(format!("{:x}\r\n", n).as_bytes())?;
            c.write_all(&rest[..n])?;
            c.write_all(b"\r\n")?;
        } else {
            c.write_all(&rest[..n])?;
        }
        c.flush()?;
        rest = &rest[n..];
        // so that the pieces come one by one
        if !rest.is_empty() {
            std::thread::sleep(std::time::Duration::from_millis(1));
        }
    }
    if chunked {
        c.write_all(b"0\r\n\r\n")?;
    }
    Ok(())
}

/// A picture: its bytes, its size, and how many of the bytes tell it.
fn picture(s: &mut Src) -> (Vec<u8>, u32, u32, usize) {
    let big = s.chance(1, 5);
    let dim = |s: &mut Src| if big { s.range(1, 65_000) } else { s.range(1, 300) };
    let (w, h) = (dim(s), dim(s));
    let mut b = Vec::new();
    match s.below(5) {
        0 => {
            b.extend_from_slice(b"\x89PNG\r\n\x1a\n\0\0\0\x0dIHDR");
            b.extend_from_slice(&w.to_be_bytes());
            b.extend_from_slice(&h.to_be_bytes());
        }
        1 => {
            b.extend_from_slice(if s.bool() { b"GIF89a" } else { b"GIF87a" });
            b.extend_from_slice(&(w as u16).to_le_bytes());
            b.extend_from_slice(&(h as u16).to_le_bytes());
        }
        2 => {
            b.extend_from_slice(b"BM\x10\x20\0\0\0\0\0\0\x36\0\0\0\x28\0\0\0");
            b.extend_from_slice(&w.to_le_bytes());
            b.extend_from_slice(&h.to_le_bytes());
        }
        3 => {
            b.extend_from_slice(b"\xff\xd8\xff\xe0\0\x10JFIF\0\x01\x01\0\0\x48\0\x48\0\0");
            // a comment before the size, all within the first KiB
            let n = s.below(600) as u16;
            b.extend_from_slice(&[0xff, 0xfe]);
            b.extend_from_slice(&(n + 2).to_be_bytes());
            b.extend(std::iter::repeat(b'c').take(n as usize));
            b.extend_from_slice(b"\xff\xc0\0\x11\x08");
            b.extend_from_slice(&(h as u16).to_be_bytes());
            b.extend_from_slice(&(w as u16).to_be_bytes());
        }
        _ => {
            b.extend_from_slice(b"qoif");
            b.extend_from_slice(&w.to_be_bytes());
            b.extend_from_slice(&h.to_be_bytes());
        }
    }
    let head = b.len();
    let n = if s.chance(1, 4) { s.below(9000) } else { s.below(60) };
    b.extend(std::iter::repeat(7).take(n as usize + 2));
    (b, w, h, head)
}

fn sizes(s: &mut Src, c: &mut Ctx) -> Result<(), Fail> {
    let sv = server();
    let mut cfg = super::plain_cfg(s);
    cfg.images = !s.chance(1, 10);
    let on = !s.chance(1, 10);
    let k = s.range(1, 3);
    let mut replies: Vec<Reply> = vec![];
    let mut text = words::ascii(s);
    // src as shown, path asked for, size expected
    let mut want: Vec<(String, Option<String>, Option<(u32, u32)>, bool)> = vec![];
    for i in 0..k {
        let (body, w, h, head) = picture(s);
        let fault = match s.below(20) {
            0 => Fault::Hangup,
            1 => Fault::Cut,
            2 => Fault::CutLate,
            3 => Fault::NotHttp,
            4 => Fault::NotFound,
            5 => Fault::Error,
            6 => Fault::NotImage,
            7 => Fault::Empty,
            8 if s.chance(1, 4) => Fault::Endless,
            9 => Fault::Redirect,
            _ => Fault::None,
        };
        let n = s.below(4);
        let chunks = (0..n).map(|_| s.range(1, 40) as usize).collect();
        let query = s.pick(&["", "", "", "?a=1", "?a=1&b=2", "?q=x&amp=3", "?r=1&lt=5&copy=7"]);
        let path = format!("/{}{}.png{}", words::ascii(s), i, query);
        let kind = s.below(12);
        let (url, asked, size, optional) = match kind {
            // nobody listens there
            0 => ("http://127.0.0.1:1/x.png".to_string(), None, None, false),
            // a relative one is not asked for
            1 => (path.clone(), None, None, false),
            _ => {
                let known = matches!(fault, Fault::None | Fault::Redirect | Fault::CutLate);
                (format!("http://127.0.0.1:{}{}", sv.port, path), Some(path.clone()), if known { Some((w, h)) } else { None }, fault == Fault::CutLate)
            }
        };
        c.label(match (kind, &fault) {
            (0, _) => "refused",
            (1, _) => "relative",
            (_, Fault::None) => "served",
            (_, Fault::Redirect) => "redirect",
            (_, Fault::Endless) => "endless",
            (_, Fault::Cut | Fault::CutLate) => "cut",
            (_, Fault::Hangup | Fault::NotHttp) => "broken answer",
            _ => "not an image",
        });
        let a = s.pick(&["", "", "(c)", ">", "{x:y}"]);
        let title = s.pick(&["", "", "(a title)"]);
        let href = s.pick(&["", "", ":/u"]);
        text.push_str(&format!(" !{}{}{}!{} {}", a, url, title, href, words::ascii(s)));
        want.push((url, asked, size, optional));
        replies.push(Reply { path, body, head, fault, chunks, chunked: s.chance(1, 4) });
    }
    if s.chance(1, 4) {
        text = format!("|{}|x|", text);
    }
    c.note = format!("port {}: {}", sv.port, replies.iter().map(|r| format!("{} {:?} {} bytes in {:?}", r.path, r.fault, r.body.len(), r.chunks)).collect::<Vec<_>>().join("; "));
    {
        let mut st = sv.state.lock().unwrap();
        st.replies = replies.clone();
        st.log.clear();
        st.drained = 0;
    }
    let t = guarded(|| cfg.build().set_getting_image_size(on))?;
    let out = c.parse_with(&t, &cfg, &text)?;
    let plain = c.parse(&cfg, &text)?;
    let (log, drained) = {
        let st = sv.state.lock().unwrap();
        (st.log.clone(), st.drained)
    };
    let live = on && cfg.images;
    c.nontrivial_if(live && want.iter().any(|w| w.1.is_some()));
    if !live && out != plain {
        return fail("not-asked", format!("{:?}\n  instead of {:?}", out, plain));
    }
    // which were asked for, and how often
    let mut expected: Vec<String> = vec![];
    for (i, w) in want.iter().enumerate() {
        if let (true, Some(p)) = (live, &w.1) {
            expected.push(p.clone());
            if replies[i].fault == Fault::Redirect {
                expected.push(format!("/moved{}", p));
            }
        }
    }
    // (a request on a connection that was hung up may be repeated)
    let mut seen = log.clone();
    seen.dedup();
    let hung = want.iter().zip(&replies).any(|(w, r)| w.1.is_some() && matches!(r.fault, Fault::Hangup | Fault::NotHttp));
    if seen != expected && !(hung && { let mut e = expected.clone(); e.dedup(); seen == e }) {
        return fail("requests", format!("asked for {:?} instead of {:?}", log, expected));
    }
    if !hung && log.len() != expected.len() {
        return fail("requests", format!("asked for {:?} instead of {:?}", log, expected));
    }
    if drained > 0 {
        return fail("endless", "a whole endless answer was read".to_string());
    }
    // every image has its own size
    let imgs: Vec<_> = browser_tokens(&out)
        .into_iter()
        .filter_map(|t| match t {
            Tok::Open { name, attrs, .. } if name == "img" => Some(attrs),
            _ => None,
        })
        .collect();
    if cfg.images && imgs.len() != want.len() {
        return fail("images", format!("{} images in {:?}", imgs.len(), out));
    }
    for (a, w) in imgs.iter().zip(&want) {
        let get = |k: &str| a.iter().find(|x| x.0 == k).map(|x| x.1.clone());
        if get("src").as_deref() != Some(&w.0) {
            return fail("src", format!("src {:?} instead of {:?}", get("src"), w.0));
        }
        let got = (get("width"), get("height"));
        let size = w.2.filter(|_| live);
        let ok = match size {
            Some((x, y)) => got == (Some(x.to_string()), Some(y.to_string())) || (w.3 && got == (None, None)),
            None => got == (None, None),
        };
        if !ok {
            return fail("size", format!("{} has the size {:?} instead of {:?}", w.0, got, size));
        }
    }
    // and nothing else changes
    let bare = strip(&out);
    if bare != plain {
        return fail("rest", format!("{:?}\n  instead of {:?}", bare, plain));
    }
    Ok(())
}

/// Without ` width="…"` and ` height="…"`.
fn strip(t: &str) -> String {
    let mut t = t.to_string();
    for k in [" width=\"", " height=\""] {
        while let Some(i) = t.find(k) {
            let e = i + k.len() + t[i + k.len()..].find('"').unwrap_or(0) + 1;
            t.replace_range(i..e, "");
        }
    }
    t
}

pub static PROP: Prop = Prop {
    id: "C25",
    rule: "sizes are wanted and at least one image is asked for",
    assumptions: &["the loopback network works"],
    subs: &[Sub { name: "sizes", quick: 1_500, thorough: 12_000, f: sizes }],
};
