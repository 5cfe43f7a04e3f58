use crate::cfg::Cfg;
use crate::engine::Prop;
use crate::src::Src;
mod c01;
mod c02;
mod c25;
mod c24;
mod c23;
mod c22;
mod c21;
mod c20;
mod c19;
mod c18;
mod c17;
mod c16;
mod c10;
mod c09;
mod c08;
mod c07;
mod c06;
mod c05;
mod c04;
mod c03;
mod c11;
mod c12;
mod c13;
mod c14;
pub mod c15;

pub fn all() -> Vec<&'static Prop> {
    vec![&c01::PROP, &c02::PROP, &c25::PROP, &c24::PROP, &c23::PROP, &c22::PROP, &c21::PROP, &c20::PROP, &c19::PROP, &c18::PROP, &c17::PROP, &c16::PROP, &c10::PROP, &c09::PROP, &c08::PROP, &c07::PROP, &c06::PROP, &c05::PROP, &c04::PROP, &c03::PROP, &c11::PROP, &c12::PROP, &c13::PROP, &c14::PROP, &c15::PROP]
}

/// Many blocks of many kinds: counters, caches and tables inside the parser
/// get past their first few entries.
pub fn volume(s: &mut Src, most: u32) -> String {
    const BITS: &[&str] = &["HTML", "NATO", "ABC(def)", "*b*", "_i_", "@c@", "\"l\":/u", "(c)", "\"q\"", "!i.png!", "==x==", "%s%", "w[1]", "\"$\":http://e.com", "<b>r</b>", "x[#n]", "-- ... 1x2"];
    let n = s.range(20, most.max(20));
    // mostly of one kind, or of all kinds
    let theme = s.pick(BITS);
    let kind = s.below(8);
    let mut v = vec![];
    for i in 0..n {
        v.push(match if kind < 4 && s.bool() { kind } else { s.below(4) } {
            0 => crate::blocks::doc_textile(&crate::blocks::doc(s, false, 1, crate::blocks::ALL)),
            1 => crate::gen::soup::pieces(s, 8),
            2 => (0..s.range(1, 12)).map(|_| if s.bool() { theme } else { s.pick(BITS) }).collect::<Vec<_>>().join(" "),
            _ => format!("x[#n{}] y[{}]\n\nnote#n{}. z\n\nfn{}. w", i, i + 1, i, i + 1),
        });
    }
    v.join("\n\n")
}

/// The same for phrases, links and images, which are also there in the lite mode.
pub fn inline_cfg(s: &mut Src) -> Cfg {
    let mut c = plain_cfg(s);
    c.lite = s.chance(1, 6);
    c
}

/// The settings that change how constructs are shown, not which are accepted.
pub fn plain_cfg(s: &mut Src) -> Cfg {
    Cfg {
        xhtml: s.chance(1, 3),
        restricted: s.chance(1, 4),
        rel: if s.chance(1, 6) { Some(s.pick(&["nofollow", "noopener noreferrer", "me", "x-1", "a & b", "\"q\"", "<r>", "$1", "it's"]).to_string()) } else { None },
        align_class: match s.below(8) {
            6 => Some(true),
            7 => Some(false),
            _ => None,
        },
        ..Default::default()
    }
}
