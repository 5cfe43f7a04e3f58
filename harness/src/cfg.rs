//! A parser configuration as plain data, so that it can be generated, printed
//! and compared; `build` turns it into a real `Textile`.
use crate::src::Src;
use rustextile::{HtmlKind, Textile};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Cfg {
    pub restricted: bool,
    pub lite: bool,
    pub images: bool,
    pub block_tags: bool,
    pub xhtml: bool,
    pub raw_blocks: bool,
    pub sanitize: bool,
    pub align_class: Option<bool>,
    pub rel: Option<String>,
    pub uid: String,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            restricted: false,
            lite: false,
            images: true,
            block_tags: true,
            xhtml: false,
            raw_blocks: false,
            sanitize: false,
            align_class: None,
            rel: None,
            uid: "UID".into(),
        }
    }
}

impl Cfg {
    pub fn restricted() -> Self {
        Cfg { restricted: true, ..Default::default() }
    }

    /// Any combination of settings.
    pub fn any(s: &mut Src) -> Self {
        Cfg {
            restricted: s.chance(2, 5),
            lite: s.chance(1, 6),
            images: !s.chance(1, 6),
            block_tags: !s.chance(1, 12),
            xhtml: s.chance(1, 3),
            raw_blocks: s.chance(1, 6),
            sanitize: s.chance(1, 8),
            align_class: match s.below(6) {
                4 => Some(true),
                5 => Some(false),
                _ => None,
            },
            rel: if s.chance(1, 5) { Some("nofollow".into()) } else { None },
            uid: "UID".into(),
        }
    }

    pub fn build(&self) -> Textile {
        self.apply(Textile::default())
    }

    pub fn apply(&self, t: Textile) -> Textile {
        self.apply_but_sanitize(t).set_sanitize(self.sanitize)
    }

    pub fn apply_but_sanitize(&self, t: Textile) -> Textile {
        let mut t = t
            .set_uid(&self.uid)
            .set_restricted(self.restricted)
            .set_lite(self.lite)
            .set_images(self.images)
            .set_block_tags(self.block_tags)
            .set_raw_blocks(self.raw_blocks)
            .set_rel(self.rel.as_deref())
            .set_html_kind(if self.xhtml { HtmlKind::XHTML } else { HtmlKind::HTML5 });
        if let Some(v) = self.align_class {
            t = t.set_align_class(v);
        }
        t
    }

    pub fn br(&self) -> &'static str {
        if self.xhtml {
            "<br />"
        } else {
            "<br>"
        }
    }

    pub fn describe(&self) -> String {
        let mut v = Vec::new();
        if self.restricted {
            v.push("restricted".to_string());
        }
        if self.lite {
            v.push("lite".into());
        }
        if !self.images {
            v.push("no-images".into());
        }
        if !self.block_tags {
            v.push("no-block-tags".into());
        }
        v.push(if self.xhtml { "xhtml".into() } else { "html5".into() });
        if self.raw_blocks {
            v.push("raw-blocks".into());
        }
        if self.sanitize {
            v.push("sanitize".into());
        }
        if let Some(a) = self.align_class {
            v.push(format!("align_class={}", a));
        }
        if let Some(ref r) = self.rel {
            v.push(format!("rel={}", r));
        }
        v.push(format!("uid={}", self.uid));
        v.join(",")
    }
}
