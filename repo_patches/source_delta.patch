From 2012d54a4f81652b4dcf4145f5f213d3775f12b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:50 +0000
Subject: [PATCH 01/35] fix: make Textile::set_align_class return the
 configured parser

The method consumed the parser and returned nothing, so the documented option
could not be used at all.
---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index cfb3a80..3b512c9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2055,8 +2055,9 @@ impl Textile {
     ///
     /// If not set, for XHTML the "align" attribute is going to be used,
     /// and for HTML5 the `align-...` class will be added instead.
-    pub fn set_align_class(mut self, value: bool) {
+    pub fn set_align_class(mut self, value: bool) -> Self {
         self.align_class_enabled = Some(value);
+        self
     }
 
     /// Enables and disables raw blocks.
-- 
2.43.0


From 27fee5330ea422eb14f63cde6cf55532c10e2c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:50 +0000
Subject: [PATCH 02/35] fix: do not panic on ampersands in URLs in the
 restricted mode

---
 src/htmltools.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/htmltools.rs b/src/htmltools.rs
index e9582ef..12537a5 100644
--- a/src/htmltools.rs
+++ b/src/htmltools.rs
@@ -52,6 +52,7 @@ pub(crate) fn reverse_encode_html(text: &str) -> Cow<str> {
     ENTITY_RE.replace_all(text, |cap: &Captures| {
         let entity = &cap[1];
         match entity {
+            "&amp;" => "&",
             "&lt;" => "<",
             "&gt;" => ">",
             "&quot;" => "\"",
-- 
2.43.0


From 35975118571b7e253535305fcadc6f77d0084e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:50 +0000
Subject: [PATCH 03/35] fix: stop looking for a link start when there are no
 quotes left

A text such as ' b" a":c' made the parser loop forever, allocating memory,
and 'b " a":c' had its first word duplicated.
---
 src/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 3b512c9..056269a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -688,6 +688,12 @@ impl <'t> ParserState<'t> {
                     }
                     if let Some(p) = possible_start_quotes.pop() {
                         possibility = p;
+                    } else {
+                        // There is no quote before this segment, so it precedes
+                        // the link, which starts at the very first quote.
+                        linkparts.pop();
+                        possible_start_quotes.push(possibility);
+                        break;
                     }
                 } else {
                     // If quotes occur next to each other, we get zero
-- 
2.43.0


From 048aaf2d58ae62e0b6fc247f08c0ede0e8fc5b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:21:38 +0000
Subject: [PATCH 04/35] fix: do not panic on multi-line list items and cells
 with non-ASCII text

Positions found in the lower-cased copy of the text were used to slice the
original one, and the prefixes being compared could start in the middle of
a multi-byte character.
---
 src/parser.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 056269a..739e9be 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1031,19 +1031,18 @@ impl <'t> ParserState<'t> {
             // The <br> is not appropriate to insert after the following prefixes
             const STOP_PREFIXES: [&str; 6] = ["</dd>", "</dt>", "</li>", "<br/>", "<br>", "<br />"];
             let mut output = String::with_capacity(text.len() + num_newlines * br.len());
-            let lc_text = text.to_lowercase();
             let mut next_start = 0;
-            while let Some(rel_newline_pos) = lc_text[next_start..].find('\n') {
+            while let Some(rel_newline_pos) = text[next_start..].find('\n') {
                 let abs_newline_pos = next_start + rel_newline_pos;
                 output += &text[next_start..abs_newline_pos];
                 // Make sure the following characters do not make <br> inappropriate
-                let is_next_good = !lc_text[abs_newline_pos + 1..]
+                let is_next_good = !text[abs_newline_pos + 1..]
                     .starts_with(|c| char::is_whitespace(c) || c == '|');
                 if is_next_good {
                     // The preceding sequence should also be appropriate for <br>
                     let is_prefix_good = !STOP_PREFIXES.iter().any(|p| {
                         let prefix_start = abs_newline_pos - p.len().min(abs_newline_pos);
-                        let prefix = &lc_text[prefix_start..abs_newline_pos];
+                        let prefix = text.get(prefix_start..abs_newline_pos).unwrap_or_default();
                         eq_ignore_ascii_case(prefix, *p)
                     });
                     if is_prefix_good {
-- 
2.43.0


From d85915ac40717befcae34df475d9d7717a8cd396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:40 +0000
Subject: [PATCH 05/35] fix: do not panic on parentheses left among the block
 attributes

---
 src/block.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 3e4d568..b182aad 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -221,14 +221,16 @@ impl BlockAttributes {
         }
         if let Ok(Some(m)) = ATTR_HALIGN_RE.captures(&matched) {
             let alignment = match &m[1] {
-                "<" => "left",
-                "=" => "center",
-                ">" => "right",
-                "<>" => "justify",
-                value => unreachable!(
-                    "Unexpected block horizontal alignment: {}", value),
+                "<" => Some("left"),
+                "=" => Some("center"),
+                ">" => Some("right"),
+                "<>" => Some("justify"),
+                // parentheses specify padding, not alignment
+                _ => None,
             };
-            style.push(format!("text-align:{}", alignment));
+            if let Some(alignment) = alignment {
+                style.push(format!("text-align:{}", alignment));
+            }
         }
 
         let (span, width) = if element == Some("col") {
-- 
2.43.0


From 3d7e56057ee58bbfac78ac2b2618d2efa8b694fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:19 +0000
Subject: [PATCH 06/35] fix: do not panic on texts too complex for the regex
 engine

fancy_regex::Regex::replace_all panics once the backtracking limit is
exceeded, which a few kilobytes of markup (such as '*# ' repeated 800 times)
are enough for.
---
 src/block.rs       |  4 ++--
 src/htmltools.rs   |  4 ++--
 src/parser.rs      |  4 ++--
 src/regex_snips.rs |  3 +--
 src/regextra.rs    | 49 ++++++++++++++++++++++++++++++++++++++++++++--
 src/table.rs       |  3 +--
 6 files changed, 55 insertions(+), 12 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index b182aad..e11f296 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -1,9 +1,9 @@
 use std::borrow::Cow;
 
 use lazy_static::lazy_static;
-use fancy_regex::{Regex, Captures};
+use fancy_regex::Captures;
 
-use crate::regextra::fregex;
+use crate::regextra::{fregex, Regex};
 use crate::htmltools::quoteattr;
 use crate::regex_snips::{SNIP_SPACE, SNIP_DIGIT, CLS_RE_S, VALIGN_RE_S, HALIGN_RE_S};
 use crate::htmltools::{generate_tag, encode_html};
diff --git a/src/htmltools.rs b/src/htmltools.rs
index 12537a5..ffff131 100644
--- a/src/htmltools.rs
+++ b/src/htmltools.rs
@@ -3,10 +3,10 @@ use std::collections::HashMap;
 use std::str::FromStr;
 
 use lazy_static::lazy_static;
-use fancy_regex::{Regex, Captures};
+use fancy_regex::Captures;
 
 use crate::html::HTML5;
-use crate::regextra::fregex;
+use crate::regextra::{fregex, Regex};
 use crate::regex_snips::{BLOCK_CONTENT, DIVIDER_RE};
 
 pub(crate) fn encode_html(text: &str, quotes: bool, line_spacers: bool) -> String {
diff --git a/src/parser.rs b/src/parser.rs
index 739e9be..4099b3f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -7,10 +7,10 @@ use std::hash::Hasher;
 
 use indexmap::IndexMap;
 use lazy_static::lazy_static;
-use fancy_regex::{Regex, Captures, Replacer, Match};
+use fancy_regex::{Captures, Replacer, Match};
 
 use crate::charcounter::CharCounter;
-use crate::regextra::{split_with_capture, fregex, multi_replace, multi_replace_with_one, unwrap_or_empty};
+use crate::regextra::{Regex, split_with_capture, fregex, multi_replace, multi_replace_with_one, unwrap_or_empty};
 use crate::htmltools::{generate_tag, encode_html, join_html_attributes, unescape, has_raw_text, reverse_encode_html};
 use crate::table::{process_table, TABLE_SPAN_RE_S};
 use crate::urlutils::{UrlBits, UrlString};
diff --git a/src/regex_snips.rs b/src/regex_snips.rs
index 47e1385..8d2e380 100644
--- a/src/regex_snips.rs
+++ b/src/regex_snips.rs
@@ -2,9 +2,8 @@
 //! Some of the expressions rely on [UNICODE character properties](https://www.unicode.org/reports/tr44/#GC_Values_Table).
 
 use lazy_static::lazy_static;
-use fancy_regex::Regex;
 
-use crate::regextra::fregex;
+use crate::regextra::{fregex, Regex};
 
 // PHP and mrab-regex/Python regular expressions have slightly different
 // meaning of some special character classes, like "\s" or "\v", different
diff --git a/src/regextra.rs b/src/regextra.rs
index 6767c6f..81c9727 100644
--- a/src/regextra.rs
+++ b/src/regextra.rs
@@ -1,4 +1,6 @@
-use fancy_regex::{Regex, Captures, CaptureMatches, Match};
+use std::borrow::Cow;
+
+use fancy_regex::{Captures, CaptureMatches, Match, Replacer};
 
 pub(crate) const INVALID_REGEX: &str = "An ivalid regular expression";
 
@@ -10,6 +12,49 @@ macro_rules! fregex {
 
 pub(crate) use fregex;
 
+/// A regular expression with a `replace_all` that does not panic when the text
+/// is too complex for the backtracking engine (`BacktrackLimitExceeded`).
+/// The rest of such a text is left as it is instead.
+#[derive(Clone, Debug)]
+pub(crate) struct Regex(fancy_regex::Regex);
+
+impl Regex {
+    pub fn new(re: &str) -> fancy_regex::Result<Self> {
+        fancy_regex::Regex::new(re).map(Self)
+    }
+
+    pub fn replace_all<'t, R: Replacer>(&self, text: &'t str, mut rep: R) -> Cow<'t, str> {
+        let mut result = String::new();
+        let mut last_end = 0;
+        let mut replaced = false;
+        for cap in self.0.captures_iter(text) {
+            let cap = match cap {
+                Ok(cap) => cap,
+                Err(_) => break,
+            };
+            if let Some(m) = cap.get(0) {
+                result.push_str(&text[last_end..m.start()]);
+                rep.replace_append(&cap, &mut result);
+                last_end = m.end();
+                replaced = true;
+            }
+        }
+        if !replaced {
+            return Cow::Borrowed(text);
+        }
+        result.push_str(&text[last_end..]);
+        Cow::Owned(result)
+    }
+}
+
+impl std::ops::Deref for Regex {
+    type Target = fancy_regex::Regex;
+
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
+
 
 /// At the moment of writing `fancy_regex` does not support splitting
 /// strings with regular expressions "out of the box".
@@ -86,7 +131,7 @@ impl<'r, 't> Iterator for ReSplitWithCapture<'r, 't> {
 /// (when the regular expression captures them), thus mimicking
 /// the behavior of `re.Regex.split` from Python.
 pub(crate) fn split_with_capture<'r, 't>(
-    re: &'r Regex,
+    re: &'r fancy_regex::Regex,
     text: &'t str,
 ) -> ReSplitWithCapture<'r, 't> {
     ReSplitWithCapture {
diff --git a/src/table.rs b/src/table.rs
index abfc29f..86a3a41 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -1,10 +1,9 @@
 use std::borrow::Cow;
 
-use fancy_regex::Regex;
 use lazy_static::lazy_static;
 
 use crate::block::{BlockAttributes, BlockHtmlAttributes};
-use crate::regextra::{split_with_capture, fregex};
+use crate::regextra::{Regex, split_with_capture, fregex};
 use crate::regex_snips::{ALIGN_RE_S, CLS_RE_S, VALIGN_RE_S, SNIP_SPACE, PNCT_RE_S};
 use crate::htmltools::generate_tag;
 
-- 
2.43.0


From 11cd86f3a1a46e22c1859d2bdfd54c1db6dcfb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:00 +0000
Subject: [PATCH 07/35] fix: escape the URL shown as the text of a "$" link

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 4099b3f..4e7fe71 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1451,11 +1451,11 @@ impl <'t> ParserState<'t> {
 
             let text: Cow<str> = if text == "$" {
                 if scheme_in_list {
-                    make_url_readable(&url).into()
+                    encode_html(make_url_readable(&url), true, true).into()
                 } else if let Some(rurl) = self.urlrefs.get(url.as_ref()) {
                     encode_html(make_url_readable(rurl.source()), true, true).into()
                 } else {
-                    url
+                    encode_html(&url, true, true).into()
                 }
             } else {
                 text.into()
-- 
2.43.0


From 8b7f326f85ef8293dbd7559048eb429f7d6eedcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:44 +0000
Subject: [PATCH 08/35] fix: validate the URL schemes of image links, citations
 and link aliases

---
 src/block.rs  |  2 +-
 src/parser.rs | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index e11f296..2167295 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -387,7 +387,7 @@ impl Block {
         match new_tag {
             "bq" => {
                 let mut html_attributes = attributes.html_attrs();
-                if let Some(ref cite) = cite {
+                if let Some(ref cite) = cite.filter(|c| ps.is_valid_url(c)) {
                     let shelved_url = ps.shelve_url(
                         ps.unrestrict_url(cite.as_str()).into());
                     html_attributes.insert("cite", shelved_url);
diff --git a/src/parser.rs b/src/parser.rs
index 4e7fe71..7dbca04 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -505,7 +505,7 @@ impl <'t> ParserState<'t> {
         fn make_url_ref_re(schemes: &[&str]) -> Regex {
             fregex!(
                 &format!(
-                    r"(?:(?<=^)|(?<=\s))\[(.+)\]((?:{0}:\/\/|\/)\S+)(?=\s|$)",
+                    r"(?:(?<=^)|(?<=\s))\[(.+)\]((?:(?:{0}):|\/)\S+)(?=\s|$)",
                     schemes.join("|")))
         }
         lazy_static! {
@@ -549,7 +549,7 @@ impl <'t> ParserState<'t> {
         }
         let f_image = |cap: &Captures| -> String {
             let url = &cap[3];
-            if !self.is_valid_url(url) {
+            if !self.is_valid_url(url) || !cap.get(5).map_or(true, |href| self.is_valid_url(href.as_str())) {
                 return cap[0].to_owned();
             }
             let mut atts = if let Some(attributes) = cap.get(2) {
@@ -1503,7 +1503,7 @@ impl <'t> ParserState<'t> {
         prev_text
     }
 
-    fn is_valid_url(&self, url: &str) -> bool {
+    pub(crate) fn is_valid_url(&self, url: &str) -> bool {
         let uri_parts = UrlBits::parse(url);
         if uri_parts.scheme().is_empty() {
             true
@@ -1565,8 +1565,8 @@ impl <'t> ParserState<'t> {
             };
             let atts = &cap[3];
             let mut html_atts = BlockAttributes::parse(atts, None, true, self.textile.restricted).html_attrs();
-            if let Some(cite) = cap.get(4) {
-                html_atts.insert("cite", cite.as_str().trim().to_owned());
+            if let Some(cite) = cap.get(4).map(|m| m.as_str().trim()).filter(|c| self.is_valid_url(c)) {
+                html_atts.insert("cite", self.unrestrict_url(cite).into_owned());
             }
             let content = &cap[5];
             let content = self.span(content);
-- 
2.43.0


From ca33d142fd1ce0d8edb7adeeea719b636f2424a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:36 +0000
Subject: [PATCH 09/35] fix: keep processed markup and bare quotes out of
 attribute values

---
 src/block.rs  |  5 +++--
 src/parser.rs | 26 ++++++++++++++++----------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 2167295..2982b69 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -7,7 +7,7 @@ use crate::regextra::{fregex, Regex};
 use crate::htmltools::quoteattr;
 use crate::regex_snips::{SNIP_SPACE, SNIP_DIGIT, CLS_RE_S, VALIGN_RE_S, HALIGN_RE_S};
 use crate::htmltools::{generate_tag, encode_html};
-use crate::parser::ParserState;
+use crate::parser::{ParserState, TOKEN_PREFIX};
 
 
 #[derive(Default, Debug, Clone)]
@@ -114,7 +114,8 @@ impl BlockAttributes {
         }
         let mut style = Vec::<String>::new();
 
-        if block_attributes.is_empty() {
+        // Already processed markup has no place in attributes
+        if block_attributes.is_empty() || block_attributes.contains(TOKEN_PREFIX) {
             return Self {
                 colspan: None,
                 style: None,
diff --git a/src/parser.rs b/src/parser.rs
index 7dbca04..a68e8a4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -23,6 +23,8 @@ const SYMS_RE_S: &str = "¤§µ¶†‡•∗∴◊♠♣♥♦";
 // https://www.unicode.org/reports/tr44/#GC_Values_Table
 const BLOCK_TAGS_RE_S: &str = r"bq|bc|notextile|pre|h[1-6]|fn\d+|p|###";
 const BLOCK_TAGS_LITE_RE_S: &str = "bq|bc|p";
+// Every token standing for the already processed markup starts with this
+pub(crate) const TOKEN_PREFIX: &str = "textileRef:";
 const RESTRICTED_URL_SCHEMES: [&str; 4] = ["http", "https", "ftp", "mailto"];
 const UNRESTRICTED_URL_SCHEMES: [&str; 9] = ["http", "https", "ftp", "mailto", "file", "tel", "callto", "sftp", "data"];
 
@@ -141,7 +143,7 @@ fn make_glyph_replacers(is_html5: bool) -> [(Regex, &'static str); 22] {
         // plus/minus
         (fregex!(r"[(\[]\+\/-[\])]"), r"&#177;"),
         // 3+ uppercase acronym
-        (fregex!(&format!(r"\b([{0}][{1}]{{2,}})\b(?:[(]([^)]*)[)])", SNIP_ABR, SNIP_ACR)),
+        (fregex!(&format!(r"\b([{0}][{1}]{{2,}})\b(?:[(]((?:(?!{2})[^)])*)[)])", SNIP_ABR, SNIP_ACR, TOKEN_PREFIX)),
          if is_html5 {r#"<abbr title="$2">$1</abbr>"#} else {r#"<acronym title="$2">$1</acronym>"#}),
     ]
 }
@@ -548,6 +550,10 @@ impl <'t> ParserState<'t> {
                     *CLS_RE_S));
         }
         let f_image = |cap: &Captures| -> String {
+            // Already processed markup has no place in attributes
+            if cap[0].contains(TOKEN_PREFIX) {
+                return cap[0].to_owned();
+            }
             let url = &cap[3];
             if !self.is_valid_url(url) || !cap.get(5).map_or(true, |href| self.is_valid_url(href.as_str())) {
                 return cap[0].to_owned();
@@ -580,8 +586,8 @@ impl <'t> ParserState<'t> {
                 }
             }
 
-            let optional_title = cap.get(4).map(|m| m.as_str());
-            atts.insert("alt", optional_title.unwrap_or_default().to_owned());
+            let optional_title = cap.get(4).map(|m| self.unrestrict_url(m.as_str()));
+            atts.insert("alt", optional_title.as_deref().unwrap_or_default().to_owned());
 
             if !UrlBits::parse(url).is_relative() && self.textile.get_sizes {
                 if let Some((width, height)) = get_image_size(url) {
@@ -594,7 +600,7 @@ impl <'t> ParserState<'t> {
             atts.insert("src", url_id);
 
             if let Some(title) = optional_title {
-                atts.insert("title", title.to_owned());
+                atts.insert("title", title.into_owned());
             }
 
             let img = generate_tag("img", None, &atts);
@@ -1308,9 +1314,9 @@ impl <'t> ParserState<'t> {
                             r"|", //  else...
                             r".+?", //  link text
                             r")", // end of $text
-                            r"(?:\((?P<title>[^)]+?)\))?",  // $title (if any)
+                            r"(?:\((?P<title>(?:(?!{2})[^)])+?)\))?",  // $title (if any)
                             r"$"),
-                        *CLS_RE_S, SNIP_SPACE));
+                        *CLS_RE_S, SNIP_SPACE, TOKEN_PREFIX));
             }
 
             let (atts, text, title) = if let Ok(Some(m)) = BLOCK_RE.captures(&inner) {
@@ -1445,7 +1451,7 @@ impl <'t> ParserState<'t> {
             };
             let scheme_in_list = allowed_schemes.contains(&(uri_parts.scheme()));
             let is_valid_url = uri_parts.scheme().is_empty() || scheme_in_list;
-            if !is_valid_url {
+            if !is_valid_url || url.contains(TOKEN_PREFIX) {
                 return in_.replace(&format!("{0}linkStartMarker:", self.textile.uid), "");
             }
 
@@ -1462,7 +1468,7 @@ impl <'t> ParserState<'t> {
             };
 
             let text = text.trim();
-            let title = encode_html(title, false, false);
+            let title = encode_html(&self.unrestrict_url(title), false, false).replace('"', "&quot;");
 
             let text = if !self.textile.noimage {
                 self.image(text)
@@ -1565,7 +1571,7 @@ impl <'t> ParserState<'t> {
             };
             let atts = &cap[3];
             let mut html_atts = BlockAttributes::parse(atts, None, true, self.textile.restricted).html_attrs();
-            if let Some(cite) = cap.get(4).map(|m| m.as_str().trim()).filter(|c| self.is_valid_url(c)) {
+            if let Some(cite) = cap.get(4).map(|m| m.as_str().trim()).filter(|c| self.is_valid_url(c) && !c.contains(TOKEN_PREFIX)) {
                 html_atts.insert("cite", self.unrestrict_url(cite).into_owned());
             }
             let content = &cap[5];
@@ -2124,7 +2130,7 @@ impl Textile {
     /// Normally you don't need to use this method. Its intended purpose
     /// is to guarantee stable outputs in automated tests.
     pub fn set_uid(mut self, base_id: &str) -> Self {
-        self.uid = format!("textileRef:{0}:", base_id);
+        self.uid = format!("{0}{1}:", TOKEN_PREFIX, base_id);
         self.link_prefix = format!("{0}-", base_id);
         let dyn_3plus_replacement = format!(
             r#"$1<span class="caps">{0}:glyph:$2</span>$3"#,
-- 
2.43.0


From c720536481b4889e4918e9c457ae7ec6090ffeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:32 +0000
Subject: [PATCH 10/35] fix: do not process the attributes of lists and tables
 as text

---
 src/block.rs  |  9 +++++++++
 src/parser.rs |  7 +++++--
 src/table.rs  | 31 +++++++++++++++++++------------
 3 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 2982b69..b4ef327 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -25,6 +25,15 @@ impl BlockHtmlAttributes {
         }
     }
 
+    /// Protects the values from being processed as a text, for the attributes
+    /// of the tags whose content is yet to be processed.
+    pub fn shelved(mut self, ps: &mut ParserState) -> Self {
+        for (_, value) in self.0.iter_mut() {
+            *value = ps.shelve(encode_html(value, true, true));
+        }
+        self
+    }
+
     pub fn insert_css_class<S>(&mut self, name: S) -> bool
         where S: AsRef<str>
     {
diff --git a/src/parser.rs b/src/parser.rs
index a68e8a4..30dac91 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -802,7 +802,9 @@ impl <'t> ParserState<'t> {
                     let content = m[2].trim();
                     let html_atts_str: String = BlockAttributes
                         ::parse(atts, None, true, self.textile.restricted)
-                        .into();
+                        .html_attrs()
+                        .shelved(self)
+                        .to_string();
 
                     let xm_capture = XM_RE.captures(content);
                     let (term, definition) = if let Ok(Some(ref xm)) = xm_capture {
@@ -934,7 +936,8 @@ impl <'t> ParserState<'t> {
 
                 let mut atts = BlockAttributes
                     ::parse(item.atts, None, true, self.textile.restricted)
-                    .html_attrs();
+                    .html_attrs()
+                    .shelved(self);
                 // let mut start: Option<usize> = None;
                 if ltype == "ol" {
                     let start_value = self.ol_starts.entry(item.tl.to_string()).or_insert(1);
diff --git a/src/table.rs b/src/table.rs
index 86a3a41..2ef4365 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -6,6 +6,7 @@ use crate::block::{BlockAttributes, BlockHtmlAttributes};
 use crate::regextra::{Regex, split_with_capture, fregex};
 use crate::regex_snips::{ALIGN_RE_S, CLS_RE_S, VALIGN_RE_S, SNIP_SPACE, PNCT_RE_S};
 use crate::htmltools::generate_tag;
+use crate::parser::TOKEN_PREFIX;
 
 
 const COLSPAN_RE_S: &str = r"(?:\\\d+)";
@@ -15,26 +16,28 @@ lazy_static! {
         r"(?:{0}|{1})*", COLSPAN_RE_S, ROWSPAN_RE_S);
 }
 
-fn process_caption(capts: &str, cap: &str, restricted: bool) -> String {
-    let html_attributes = BlockAttributes::parse(capts, None, true, restricted).html_attrs();
+fn process_caption(capts: &str, cap: &str, parser: &mut crate::parser::ParserState) -> String {
+    let html_attributes = BlockAttributes::parse(capts, None, true, parser.textile.restricted)
+        .html_attrs()
+        .shelved(parser);
     let tag = generate_tag("caption", Some(cap.trim()), &html_attributes);
     format!("\t{0}\n", tag)
 }
 
 struct TableSection {
     tag: String,
-    attributes: BlockAttributes,
+    attributes: BlockHtmlAttributes,
     rows: Vec<String>
 }
 
 impl TableSection {
-    fn new(tag: String, attributes: BlockAttributes) -> Self {
+    fn new(tag: String, attributes: BlockHtmlAttributes) -> Self {
         TableSection { tag, attributes, rows: Default::default() }
     }
 
     fn process(self) -> String {
         let content = self.rows.join("") + "\n\t";
-        generate_tag(&self.tag, Some(&content), &self.attributes.html_attrs())
+        generate_tag(&self.tag, Some(&content), &self.attributes)
     }
 }
 
@@ -101,10 +104,12 @@ pub(crate) fn process_table<'t>(
     let mut html_attrs = BlockAttributes::parse(tatts, Some("table"), true, parser.textile.restricted).html_attrs();
 
     if let Some(s) = summary {
-        if !s.is_empty() {
-            html_attrs.insert("summary", s.trim().to_owned());
+        // Already processed markup has no place in attributes
+        if !s.is_empty() && !s.contains(TOKEN_PREFIX) {
+            html_attrs.insert("summary", parser.unrestrict_url(s.trim()).into_owned());
         }
     }
+    let html_attrs = html_attrs.shelved(parser);
     let mut caption = String::new();
     let mut colgroup = String::new();
     let mut content = Vec::<String>::new();
@@ -126,7 +131,7 @@ pub(crate) fn process_table<'t>(
                     process_caption(
                         &cmtch["capts"],
                         &cmtch["cap"],
-                        parser.textile.restricted));
+                        parser));
                 let new_row = cmtch["row"].trim_start();
                 if new_row.is_empty() {continue} else {new_row.to_owned().into()}
             } else {
@@ -144,7 +149,9 @@ pub(crate) fn process_table<'t>(
             for (idx, col) in cols.split('|').enumerate() {
                 let group_atts: String = BlockAttributes
                     ::parse(col.trim(), Some("col"), true, parser.textile.restricted)
-                    .into();
+                    .html_attrs()
+                    .shelved(parser)
+                    .to_string();
                 colgroup.push_str("\t<col");
                 if idx == 0 {
                     colgroup.push_str("group");
@@ -189,7 +196,7 @@ pub(crate) fn process_table<'t>(
                             rgrpatts.as_str(),
                             None,
                             true,
-                            parser.textile.restricted)));
+                            parser.textile.restricted).html_attrs().shelved(parser)));
             }
             Cow::Borrowed(&grpmatch["row"])
         } else {
@@ -200,7 +207,7 @@ pub(crate) fn process_table<'t>(
         let (row, row_atts) = match rmtch_cap {
             Ok(Some(ref rmtch)) => (
                 Cow::Borrowed(&rmtch["row"]),
-                BlockAttributes::parse(&rmtch["ratts"], Some("tr"), true, parser.textile.restricted).html_attrs()
+                BlockAttributes::parse(&rmtch["ratts"], Some("tr"), true, parser.textile.restricted).html_attrs().shelved(parser)
             ),
             _ => (row, BlockHtmlAttributes::default()),
         };
@@ -217,7 +224,7 @@ pub(crate) fn process_table<'t>(
             let (cell, cell_atts) = match cmtch_cap {
                 Ok(Some(ref cmtch)) => (
                     &cmtch["cell"],
-                    BlockAttributes::parse(&cmtch["catts"], Some("td"), true, parser.textile.restricted).html_attrs()
+                    BlockAttributes::parse(&cmtch["catts"], Some("td"), true, parser.textile.restricted).html_attrs().shelved(parser)
                 ),
                 _ => (cell, BlockHtmlAttributes::default())
             };
-- 
2.43.0


From 8f97a84f87b01087a937aeafd2b64615dbeff647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:03 +0000
Subject: [PATCH 11/35] fix: keep the definitions and ids of notes across their
 references

---
 src/parser.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 30dac91..154c04f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -251,7 +251,7 @@ impl <'t> ParserState<'t> {
         if self.notes.contains_key(label) {
             let note_content = self.graf(content).into_owned();
             if let Some(mut note) = self.notes.get_mut(label) {
-                if note.link.is_none() {
+                if note.content.is_none() {
                     note.link = if link.is_empty() { None } else { Some(link.into()) };
                     note.attrs = Some(
                         BlockAttributes
@@ -1171,16 +1171,16 @@ impl <'t> ParserState<'t> {
                 num.clone()
             } else {
                 let num = self.note_index.to_string();
-                self.notes.insert(
-                    label.to_string(),
-                    NoteInfo {
-                        seq: Some(num.clone()),
+                // The note may have been already defined
+                self.notes.entry(label.to_string()).or_insert_with(
+                    || NoteInfo {
+                        seq: None,
                         id: "".to_owned(),
                         refids: Default::default(),
                         attrs: None,
                         content: None,
                         link: None,
-                    });
+                    }).seq = Some(num.clone());
                 self.note_index += 1;
                 num
             };
@@ -1193,6 +1193,9 @@ impl <'t> ParserState<'t> {
             let new_id: Cow<str> = if is_note_id_empty {
                 let new_index = self.increment_link_index();
                 format!("{0}{1}", self.textile.link_prefix, new_index).into()
+            } else if self.notes[label].refids.is_empty() {
+                // the first reference to a note defined earlier
+                self.notes[label].id.clone().into()
             } else {
                 "".into()
             };
-- 
2.43.0


From ab8c6acc727e343a2a11299ad4be69fa1a007705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:04 +0000
Subject: [PATCH 12/35] fix: number the notes in their lists properly, and let
 the lists repeat

---
 src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 154c04f..212b629 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -315,7 +315,8 @@ impl <'t> ParserState<'t> {
                 let mut info_clone = info.clone();
                 if let Some(ref i) = info.seq {
                     info_clone.seq = Some(label.clone());
-                    o.insert(i.clone(), info_clone);
+                    // aligned to keep the numerical order
+                    o.insert(format!("{:0>10}", i), info_clone);
                 } else {
                     self.unreferenced_notes.insert(label.clone(), info_clone);
                 }
@@ -337,7 +338,7 @@ impl <'t> ParserState<'t> {
                 None => 'a'
             };
             let index = format!("{0}{1}{2}", g_links, extras, start_char);
-            let mut result = String::new();
+            let mut result = self.notelist_cache.get(&index).cloned().unwrap_or_default();
 
             if !self.notelist_cache.contains_key(&index) {
                 let mut o = Vec::<String>::new();
-- 
2.43.0


From 225f2d75a8748be7bad1751faba1f0e9b0753980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:05 +0000
Subject: [PATCH 13/35] fix: do not overflow the numbers of list items

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 212b629..d076f47 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -957,7 +957,7 @@ impl <'t> ParserState<'t> {
                     }
 
                     if show_item {
-                        *start_value += 1;
+                        *start_value = start_value.saturating_add(1);
                     }
                 }
 
-- 
2.43.0


From b22b9c06b359c37ae514ab599c43d2f79b2e27fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:06 +0000
Subject: [PATCH 14/35] fix: make any uid and its change work, and do not let
 texts forge the tokens

---
 src/parser.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index d076f47..579e3a9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -417,7 +417,7 @@ impl <'t> ParserState<'t> {
             .or_default()
             .entry("")
             .or_insert_with(
-                || fregex!(&format!(r"{0}(?P<token>[0-9]+):url", self.textile.uid)));
+                || fregex!(&format!(r"{0}(?P<token>[0-9]+):url", fancy_regex::escape(&self.textile.uid))));
 
         let retrieve_url = |cap: &Captures| -> String {
             let token = &cap["token"];
@@ -1299,7 +1299,7 @@ impl <'t> ParserState<'t> {
                             "\":",
                             // url upto a stopchar
                             r"(?P<urlx>[^{1}]*)"),
-                        needle, STOPCHARS)));
+                        fancy_regex::escape(&needle), STOPCHARS)));
 
         let mut f_link = |cap: &Captures| -> String {
             let in_ = &cap[0];
@@ -1627,7 +1627,7 @@ impl <'t> ParserState<'t> {
                 .or_default()
                 .entry("")
                 .or_insert_with(
-                    || fregex!(&format!("{0}(?P<token>[0-9]+):ospan ", self.textile.uid)));
+                    || fregex!(&format!("{0}(?P<token>[0-9]+):ospan ", fancy_regex::escape(&self.textile.uid))));
             open_tag_re.replace_all(text, f_retrieve_tags)
         };
         let result = {
@@ -1638,7 +1638,7 @@ impl <'t> ParserState<'t> {
                 .or_default()
                 .entry("")
                 .or_insert_with(
-                    || fregex!(&format!(" {0}(?P<token>[0-9]+):cspan", self.textile.uid)));
+                    || fregex!(&format!(" {0}(?P<token>[0-9]+):cspan", fancy_regex::escape(&self.textile.uid))));
             close_tag_re.replace_all(&result, f_retrieve_tags)
         };
         result.into_owned()
@@ -1946,8 +1946,10 @@ impl Textile {
         };
 
         let mut state = ParserState::new(self);
-        let text = normalize_newlines(&text)
-            .replace(&state.textile.uid, "");
+        let mut text = normalize_newlines(&text);
+        while text.contains(&state.textile.uid) {
+            text = text.replace(&state.textile.uid, "");
+        }
 
         let text = if self.block_tags {
             let text = state.block(&text);
@@ -2141,7 +2143,9 @@ impl Textile {
         self.link_prefix = format!("{0}-", base_id);
         let dyn_3plus_replacement = format!(
             r#"$1<span class="caps">{0}:glyph:$2</span>$3"#,
-            &self.uid);
+            self.uid.replace('$', "$$"));
+        // the cached regular expressions depend on the uid
+        self.regex_cache.borrow_mut().clear();
         self.dyn_glyph_replacers = [
             // 3+ uppercase
             (DYN_3PLUS_RE.clone(), dyn_3plus_replacement),
-- 
2.43.0


From 9dbd0f4d7c6e0c7b7eebce6e3a62ba2d9785e621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:09 +0000
Subject: [PATCH 15/35] fix: do not escape code twice in the restricted mode

---
 src/block.rs  | 6 ++++--
 src/parser.rs | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index b4ef327..16885f3 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -408,7 +408,8 @@ impl Block {
                 outer_closing = "\n</blockquote>".into();
             },
             "bc" => {
-                new_content = ps.shelve(encode_html(&new_content, true, false)).into();
+                let code = encode_html(&ps.unrestrict_url(&new_content), true, false);
+                new_content = ps.shelve(code).into();
                 let mut inner_atts = BlockHtmlAttributes::default();
                 if let Some(lang) = attributes.lang.clone() {
                     attributes.lang = None;
@@ -425,7 +426,8 @@ impl Block {
                 outer_closing = "</code></pre>".into();
             }
             "pre" => {
-                new_content = ps.shelve(encode_html(&new_content, true, false)).into();
+                let code = encode_html(&ps.unrestrict_url(&new_content), true, false);
+                new_content = ps.shelve(code).into();
                 outer_opening = format!("<pre{}>", attributes.html_attrs().to_string());
                 outer_closing = "</pre>".into();
             },
diff --git a/src/parser.rs b/src/parser.rs
index 579e3a9..6a84ccb 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -458,7 +458,7 @@ impl <'t> ParserState<'t> {
             let (before, text) = (&cap[1], &cap[2]);
             let after = unwrap_or_empty(cap.get(3));
             let (before, after) = get_special_options(before, after);
-            let text = encode_html(text, false, false);
+            let text = encode_html(&parser.unrestrict_url(text), false, false);
             String::from(before) + &parser.shelve(format!("<code>{0}</code>", text)) + after
         }
 
@@ -467,7 +467,7 @@ impl <'t> ParserState<'t> {
             let after = unwrap_or_empty(cap.get(3));
             let (before, after) = get_special_options(before, after);
             // text needs to be escaped
-            let text = encode_html(text, true, false);
+            let text = encode_html(&parser.unrestrict_url(text), true, false);
             String::from(before) + "<pre>" + &parser.shelve(text) + "</pre>" + after
         }
 
-- 
2.43.0


From c1999d84758084cbd70b082fc00011f2a8c93e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:03 +0000
Subject: [PATCH 16/35] fix: do not take texts spanning several brackets for
 link aliases

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6a84ccb..36eb89e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -508,7 +508,7 @@ impl <'t> ParserState<'t> {
         fn make_url_ref_re(schemes: &[&str]) -> Regex {
             fregex!(
                 &format!(
-                    r"(?:(?<=^)|(?<=\s))\[(.+)\]((?:(?:{0}):|\/)\S+)(?=\s|$)",
+                    r"(?:(?<=^)|(?<=\s))\[([^\[\]\n]+)\]((?:(?:{0}):|\/)\S+)(?=\s|$)",
                     schemes.join("|")))
         }
         lazy_static! {
-- 
2.43.0


From 4240b38afcd197d8a1bc8f284b31d47d6ac9390f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:53 +0000
Subject: [PATCH 17/35] fix: do not lose the text before a table in the same
 block

---
 src/parser.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 36eb89e..bbcde52 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -768,11 +768,16 @@ impl <'t> ParserState<'t> {
         }
         let text = format!("{0}\n\n", text);
         match PATTERN.captures(&text) {
-            Ok(Some(cap)) => process_table(
-                self,
-                unwrap_or_empty(cap.name("tatts")),
-                &cap["rows"],
-                cap.name("summary").map(|m| m.as_str())).into(),
+            Ok(Some(cap)) => {
+                let table = process_table(
+                    self,
+                    unwrap_or_empty(cap.name("tatts")),
+                    &cap["rows"],
+                    cap.name("summary").map(|m| m.as_str()));
+                // the text around the table must not be lost
+                let (start, end) = cap.get(0).map_or((0, text.len()), |m| (m.start(), m.end()));
+                format!("{0}{1}{2}", &text[..start], table, &text[end..]).into()
+            },
             _ => text.into()
         }
     }
-- 
2.43.0


From 8bb94175d96651087964259e12f9e111c0c59891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:27 +0000
Subject: [PATCH 18/35] fix: do not lose the rest of a multi-line cell in a
 table row with attributes

---
 src/table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table.rs b/src/table.rs
index 2ef4365..46a8ea5 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -87,7 +87,7 @@ pub(crate) fn process_table<'t>(
 
 
         static ref RMTCH_RE: Regex = fregex!(
-            &format!(r"^(?P<ratts>{0}{1}\. )(?P<row>.*)",
+            &format!(r"(?s)^(?P<ratts>{0}{1}\. )(?P<row>.*)",
                      *ALIGN_RE_S, *CLS_RE_S));
 
         static ref CMTCH_RE: Regex = fregex!(
-- 
2.43.0


From 2d0a4be86136d6cb91ba5cd8f6142b244f575e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:27 +0000
Subject: [PATCH 19/35] fix: end the URL of an image link at the border of a
 table cell

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index bbcde52..af9c126 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -545,7 +545,7 @@ impl <'t> ParserState<'t> {
                         r"\s?",                       // optional space
                         r"(?:\(([^\)]+)\))?",         // optional title
                         r"\!",                        // closing
-                        r"(?::(\S+)(?<![\]).,]))?",   // optional href
+                        r"(?::([^\s|]+)(?<![\]).,]))?", // optional href
                         r"(?:[\]}}]|(?=[.,\s)|]|$))", // lookahead: space or end of string
                     ),
                     *CLS_RE_S));
-- 
2.43.0


From 8d63937af8badfed38d03cfd70da6ccf804698db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:01 +0000
Subject: [PATCH 20/35] fix: put the forced rel attribute on image links too

---
 src/parser.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index af9c126..720168b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -609,10 +609,11 @@ impl <'t> ParserState<'t> {
                 let shelved_href = self.shelve_url(
                     self.unrestrict_url(href.as_str()).into());
                 if !shelved_href.is_empty() {
-                    generate_tag(
-                        "a",
-                        Some(&img),
-                        &[("href".into(), shelved_href)])
+                    let mut link_atts = vec![("href".to_owned(), shelved_href)];
+                    if let Some(ref rel) = self.textile.rel {
+                        link_atts.push(("rel".to_owned(), rel.clone()));
+                    }
+                    generate_tag("a", Some(&img), &link_atts)
                 } else {
                     img
                 }
-- 
2.43.0


From d09d181d73819355630499b9133ea0e21a8805e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:14 +0000
Subject: [PATCH 21/35] fix: recognise a phrase followed by punctuation at the
 very end of a text

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 720168b..2e9ef3b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -41,7 +41,7 @@ fn span_re(tag: &str) -> Regex {
                 r"(?P<content>[^{space}{tag}]+|\S.*?[^\s{tag}\n])",
                 r"(?P<end>[{pnct}]*)",
                 r"{tag}",
-                r"(?P<tail>$|[\[\]}}<]|(?=[{pnct}]{{1,2}}[^0-9]|\s|\)))"),
+                r"(?P<tail>$|[\[\]}}<]|(?=[{pnct}]{{1,2}}(?:[^0-9]|$)|\s|\)))"),
             tag=tag, cls=*CLS_RE_S, pnct=PNCT, space=SNIP_SPACE))
 }
 
-- 
2.43.0


From 49d0f8d577e3f3d60c237235a3e2ec09d5dc90fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:41 +0000
Subject: [PATCH 22/35] fix: link the references to footnotes defined before
 them

---
 src/block.rs  |  9 +--------
 src/parser.rs | 25 ++++++++++++++++++-------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 16885f3..6afced5 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -355,14 +355,7 @@ impl Block {
         }
         let new_tag = if let Ok(Some(m)) = FNID_RE.captures(tag) {
             let m_fnid = &m["fnid"];
-            let fnid = ps
-                .footnotes
-                .get(m_fnid)
-                .cloned()
-                .unwrap_or_else(|| {
-                    let new_index = ps.increment_link_index();
-                    format!("{0}{1}", ps.textile.link_prefix, new_index)
-                });
+            let fnid = ps.footnote_id(m_fnid);
 
             let mut sup_html_attrs = BlockHtmlAttributes::default();
 
diff --git a/src/parser.rs b/src/parser.rs
index 2e9ef3b..0e16a4d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1,4 +1,4 @@
-use std::collections::{BTreeMap, HashMap};
+use std::collections::{BTreeMap, HashMap, HashSet};
 use std::borrow::Cow;
 use std::io::Read;
 use std::time::{SystemTime, UNIX_EPOCH};
@@ -183,7 +183,8 @@ fn make_url_readable(url: &str) -> &str {
 
 pub(crate) struct ParserState<'t> {
     pub notes: BTreeMap<String, NoteInfo>,
-    pub footnotes: IndexMap<String, String>,
+    footnotes: IndexMap<String, String>,
+    referenced_footnotes: HashSet<String>,
     shelf: IndexMap<String, String>,
     urlrefs: IndexMap<String, UrlString<'t>>,
     note_index: u32,
@@ -204,6 +205,7 @@ impl <'t> ParserState<'t> {
             textile,
             notes: Default::default(),
             footnotes: Default::default(),
+            referenced_footnotes: Default::default(),
             shelf: Default::default(),
             urlrefs: Default::default(),
             note_index: 1,
@@ -222,6 +224,17 @@ impl <'t> ParserState<'t> {
         self.link_index
     }
 
+    /// The id shared by a footnote and all the references to it,
+    /// no matter which one comes first.
+    pub fn footnote_id(&mut self, number: &str) -> String {
+        if let Some(id) = self.footnotes.get(number) {
+            return id.clone();
+        }
+        let id = format!("{0}{1}", self.textile.link_prefix, self.increment_link_index());
+        self.footnotes.insert(number.to_owned(), id.clone());
+        id
+    }
+
     /// Parses the note definitions and formats them as HTML
     pub fn parse_note_defs(&mut self, m: &Captures) -> &'static str {
         let label = &m["label"];
@@ -1127,13 +1140,11 @@ impl <'t> ParserState<'t> {
             fn_att.push(("class".to_owned(), "footnote".to_owned()));
 
             let match_id = &cap["id"];
-            if !self.footnotes.contains_key(match_id) {
-                let new_index = self.increment_link_index();
-                let fn_id = format!("{0}{1}", self.textile.link_prefix, new_index);
+            let fn_id = self.footnote_id(match_id);
+            // only the first reference is the one to return to
+            if self.referenced_footnotes.insert(match_id.to_owned()) {
                 fn_att.push(("id".to_owned(), format!("fnrev{0}", &fn_id)));
-                self.footnotes.insert(match_id.to_owned(), fn_id);
             }
-            let fn_id = &self.footnotes[match_id];
             let link_tag = generate_tag(
                 "a",
                 Some(match_id),
-- 
2.43.0


From b7e7146d12d90e90e30495af3991051742f47eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:12 +0000
Subject: [PATCH 23/35] fix: do not let an image swallow the borders of table
 cells

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0e16a4d..61472a0 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -554,7 +554,7 @@ impl <'t> ParserState<'t> {
                         r"([<>=]|&lt;|&gt;)?",        // optional alignment atts
                         r"({0})",                     // optional style,class atts
                         r"(?:\.\s)?",                 // optional dot-space
-                        r"([^\s(!]+)",                // presume this is the src
+                        r"([^\s(!|]+)",               // presume this is the src
                         r"\s?",                       // optional space
                         r"(?:\(([^\)]+)\))?",         // optional title
                         r"\!",                        // closing
-- 
2.43.0


From 52156849224fd14a34a8965844f94a583040cfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:46 +0000
Subject: [PATCH 24/35] fix: escape the labels of the back links of endnotes

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 61472a0..8d115a7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -281,7 +281,7 @@ impl <'t> ParserState<'t> {
     fn make_back_ref_link(info: &NoteInfo, g_links: &str, i: char) -> Cow<'t, str> {
         fn char_code_to_entity(c: u32) -> String {
             let entity = format!("&#{};", c);
-            unescape(&entity).into_owned()
+            encode_html(&unescape(&entity), false, false)
         }
 
         let backlink_type = match info.link {
-- 
2.43.0


From 9d6ef2df16dd050002057d67df64de87b1b50f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:29 +0000
Subject: [PATCH 25/35] fix: make set_raw_blocks leave raw blocks unparsed, as
 documented

---
 src/htmltools.rs | 13 +++++++++++--
 src/parser.rs    |  5 +++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/htmltools.rs b/src/htmltools.rs
index ffff131..69d3340 100644
--- a/src/htmltools.rs
+++ b/src/htmltools.rs
@@ -270,6 +270,17 @@ pub(crate) fn unescape(s: &str) -> Cow<str> {
 }
 
 
+lazy_static! {
+    static ref UNWRAPPABLE_RE: Regex = fregex!(
+        &format!(r"(?si)</?(?:{0})(?:\s[^<>]*?|/?)>", BLOCK_CONTENT));
+}
+
+/// Whether the text is wrapped in a tag which is neither an HTML block
+/// nor a phrasing tag
+pub(crate) fn is_raw_block(text: &str) -> bool {
+    !has_raw_text(text) && !UNWRAPPABLE_RE.is_match(text).unwrap_or_default()
+}
+
 pub(crate) fn has_raw_text(text: &str) -> bool {
     const PHRASING_CONTENT: &str = concat!(
         "abbr|acronym|area|audio|a|bdo|br|button|b|canvas|cite|code|command|",
@@ -279,8 +290,6 @@ pub(crate) fn has_raw_text(text: &str) -> bool {
         "time|var|video|wbr",
     );
     lazy_static! {
-        static ref UNWRAPPABLE_RE: Regex = fregex!(
-            &format!(r"(?si)</?(?:{0})(?:\s[^<>]*?|/?)>", BLOCK_CONTENT));
         static ref WRAPPED_RE: Regex = fregex!(
             r"(?si)^</?([^\s<>/]+)[^<>]*?>(?:.*</\1\s*?>)?$");
         static ref PHRASING_RE: Regex = fregex!(
diff --git a/src/parser.rs b/src/parser.rs
index 8d115a7..c540c96 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -11,7 +11,7 @@ use fancy_regex::{Captures, Replacer, Match};
 
 use crate::charcounter::CharCounter;
 use crate::regextra::{Regex, split_with_capture, fregex, multi_replace, multi_replace_with_one, unwrap_or_empty};
-use crate::htmltools::{generate_tag, encode_html, join_html_attributes, unescape, has_raw_text, reverse_encode_html};
+use crate::htmltools::{generate_tag, encode_html, join_html_attributes, unescape, has_raw_text, is_raw_block, reverse_encode_html};
 use crate::table::{process_table, TABLE_SPAN_RE_S};
 use crate::urlutils::{UrlBits, UrlString};
 use crate::block::{Block, BlockAttributes, BlockHtmlAttributes};
@@ -1732,7 +1732,8 @@ impl <'t> ParserState<'t> {
                     + &bdata.inner_closing
                     + if ext.is_empty() { &bdata.outer_closing } else { "" }
             } else {
-                let raw_block = DIVIDER_RE.is_match(block).unwrap_or_default();
+                let raw_block = DIVIDER_RE.is_match(block).unwrap_or_default()
+                    || (self.textile.raw_block_enabled && is_raw_block(block));
                 if !ext.is_empty() || (!block.starts_with(' ') && !raw_block) {
                     let bdata =  Block::new(tag, atts, cite, block, self);
                     eat = bdata.eat;
-- 
2.43.0


From 0562fa5f8ae850a9c6cb7c0f4779bee627fcbc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:46 +0000
Subject: [PATCH 26/35] fix: ask for the size of the right image in the
 restricted mode

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index c540c96..880aea1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -604,7 +604,7 @@ impl <'t> ParserState<'t> {
             atts.insert("alt", optional_title.as_deref().unwrap_or_default().to_owned());
 
             if !UrlBits::parse(url).is_relative() && self.textile.get_sizes {
-                if let Some((width, height)) = get_image_size(url) {
+                if let Some((width, height)) = get_image_size(&self.unrestrict_url(url)) {
                     atts.insert("height", height.to_string());
                     atts.insert("width", width.to_string());
                 }
-- 
2.43.0


From c82e818476341a1a816e6741188e0279532528fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:11 +0000
Subject: [PATCH 27/35] fix: do not show line break tags in the titles of links

---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 880aea1..86d28dd 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1492,7 +1492,8 @@ impl <'t> ParserState<'t> {
             };
 
             let text = text.trim();
-            let title = encode_html(&self.unrestrict_url(title), false, false).replace('"', "&quot;");
+            let title = title.replace(self.textile.proper_br_tag(), "\n");
+            let title = encode_html(&self.unrestrict_url(&title), false, false).replace('"', "&quot;");
 
             let text = if !self.textile.noimage {
                 self.image(text)
-- 
2.43.0


From 8941dbd0c4c4fd6c1db0e467d4eb91278c0176c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:53 +0000
Subject: [PATCH 28/35] fix: keep the tags of footnotes apart from the links of
 their text

---
 src/block.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index 6afced5..662c9d7 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -381,7 +381,8 @@ impl Block {
                     &[("href".to_owned(), format!("#fnrev{}", fnid))]);
                 generate_tag("sup", Some(&fnrev), &sup_html_attrs)
             };
-            new_content = format!("{} {}", sup, &new_content).into();
+            // a quote in the text must not make a link with the quotes of these tags
+            new_content = format!("{} {}", ps.shelve(sup), &new_content).into();
             "p"
         } else {
             tag
-- 
2.43.0


From 1ad98f5c38217aea508c467e5bab15e4114d0e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:04 +0000
Subject: [PATCH 29/35] fix: keep line break tags out of the attributes of
 links

---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 86d28dd..0b3b96e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1507,7 +1507,8 @@ impl <'t> ParserState<'t> {
             let normalized_url = uri_parts.to_string();
             let url_id = self.shelve_url(
                 UrlString::Normalized(normalized_url.into()));
-            let mut attributes = BlockAttributes::parse(atts, None, true, self.textile.restricted).html_attrs();
+            let atts = atts.replace(self.textile.proper_br_tag(), "\n");
+            let mut attributes = BlockAttributes::parse(&atts, None, true, self.textile.restricted).html_attrs();
             attributes.insert("href", url_id);
             if !title.is_empty() {
                 attributes.insert("title", self.shelve(title));
-- 
2.43.0


From 636df603a7f8c59e48f0facdf45e787511d9d371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:53 +0000
Subject: [PATCH 30/35] fix: do not continue another list when the start number
 is out of range

---
 src/parser.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0b3b96e..cc53eec 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -965,9 +965,7 @@ impl <'t> ParserState<'t> {
                         if item.st.is_empty() {
                             *start_value = 1;
                         } else if item.st != "_" {
-                            if let Ok(int_st) = item.st.parse() {
-                                *start_value = int_st;
-                            }
+                            *start_value = item.st.parse().unwrap_or(1);
                         }
 
                         if !item.st.is_empty() {
-- 
2.43.0


From 6ae6caa2688d575d6f4ad68d35a775b9073560cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:20 +0000
Subject: [PATCH 31/35] fix: do not take the space of a closing tag's token for
 the end of a citation

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index cc53eec..d3cc2bc 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -37,12 +37,12 @@ fn span_re(tag: &str) -> Regex {
                 r"(?P<tag>{tag})(?!{tag})",
                 r"(?P<atts>{cls})",
                 r"(?!{tag})",
-                r"(?::(?P<cite>\S+[^{tag}]{space}))?",
+                r"(?::(?P<cite>\S+[^{tag}]{space})(?!{token}))?",
                 r"(?P<content>[^{space}{tag}]+|\S.*?[^\s{tag}\n])",
                 r"(?P<end>[{pnct}]*)",
                 r"{tag}",
                 r"(?P<tail>$|[\[\]}}<]|(?=[{pnct}]{{1,2}}(?:[^0-9]|$)|\s|\)))"),
-            tag=tag, cls=*CLS_RE_S, pnct=PNCT, space=SNIP_SPACE))
+            tag=tag, cls=*CLS_RE_S, pnct=PNCT, space=SNIP_SPACE, token=TOKEN_PREFIX))
 }
 
 fn do_special<'t, R>(text: &'t str, start: &str, end: &str, method: R) -> Cow<'t, str>
-- 
2.43.0


From 945d63f46e63991476a4d93e2478083d8d19d039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:03 +0000
Subject: [PATCH 32/35] fix: end the URL of an image link, and the image, at a
 line break

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index d3cc2bc..be74a18 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -558,8 +558,8 @@ impl <'t> ParserState<'t> {
                         r"\s?",                       // optional space
                         r"(?:\(([^\)]+)\))?",         // optional title
                         r"\!",                        // closing
-                        r"(?::([^\s|]+)(?<![\]).,]))?", // optional href
-                        r"(?:[\]}}]|(?=[.,\s)|]|$))", // lookahead: space or end of string
+                        r"(?::((?:(?!<br>|<br />)[^\s|])+)(?<![\]).,]))?", // optional href
+                        r"(?:[\]}}]|(?=[.,\s)|]|<br>|<br />|$))", // lookahead: space, line break or end of string
                     ),
                     *CLS_RE_S));
         }
-- 
2.43.0


From bad740c9ac6235d3aa9639c6d7377ec8c9e6dec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:16 +0000
Subject: [PATCH 33/35] fix: keep the rows before the first group of a table in
 their place

---
 src/table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table.rs b/src/table.rs
index 46a8ea5..c45f2cf 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -264,7 +264,7 @@ pub(crate) fn process_table<'t>(
 
     let tag_content = format!(
         "{0}{1}{2}{3}\n\t",
-        caption, colgroup, groups.join(""), content.join(""));
+        caption, colgroup, content.join(""), groups.join(""));
     let tbl = generate_tag("table", Some(&tag_content), &html_attrs);
     format!("\t{0}\n\n", tbl)
 }
-- 
2.43.0


From 6a3615d3a1645bf347aa5d5557c12c2977da3ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:11 +0000
Subject: [PATCH 34/35] fix: keep the attributes of a list of notes from being
 processed as a text

---
 src/block.rs  | 11 +++++++----
 src/parser.rs | 19 ++++++++++++++++---
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 662c9d7..1f38e75 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -7,7 +7,7 @@ use crate::regextra::{fregex, Regex};
 use crate::htmltools::quoteattr;
 use crate::regex_snips::{SNIP_SPACE, SNIP_DIGIT, CLS_RE_S, VALIGN_RE_S, HALIGN_RE_S};
 use crate::htmltools::{generate_tag, encode_html};
-use crate::parser::{ParserState, TOKEN_PREFIX};
+use crate::parser::{is_note_list, ParserState, TOKEN_PREFIX};
 
 
 #[derive(Default, Debug, Clone)]
@@ -436,10 +436,13 @@ impl Block {
                 inner_closing = format!("</{}>", new_tag);
             }
         }
-        new_content = if !eat {
-            ps.graf(&new_content).into_owned().into()
-        } else {
+        new_content = if eat {
             "".into()
+        } else if tag == "p" && attrs.is_empty() && is_note_list(&new_content) {
+            // replaced by the list itself later, its attributes aren't a text
+            new_content
+        } else {
+            ps.graf(&new_content).into_owned().into()
         };
         Block {
             outer_opening,
diff --git a/src/parser.rs b/src/parser.rs
index be74a18..de327e3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -28,6 +28,21 @@ pub(crate) const TOKEN_PREFIX: &str = "textileRef:";
 const RESTRICTED_URL_SCHEMES: [&str; 4] = ["http", "https", "ftp", "mailto"];
 const UNRESTRICTED_URL_SCHEMES: [&str; 9] = ["http", "https", "ftp", "mailto", "file", "tel", "callto", "sftp", "data"];
 
+lazy_static! {
+    static ref NOTE_LIST_RE_S: String = format!(
+        r"notelist({0})(?:\:([\w|{1}]))?([\^!]?)(\+?)\.?[\s]*",
+        *CLS_RE_S, SYMS_RE_S);
+}
+
+/// Is the content of a paragraph a mark to be replaced by the list of notes?
+pub(crate) fn is_note_list(content: &str) -> bool {
+    lazy_static! {
+        static ref NOTE_LIST_RE: Regex = fregex!(
+            &format!("^{}$", *NOTE_LIST_RE_S));
+    }
+    matches!(NOTE_LIST_RE.is_match(content), Ok(true))
+}
+
 fn span_re(tag: &str) -> Regex {
     const PNCT: &str = r#".,"'?!;:‹›«»„“”‚‘’"#;
     fregex!(
@@ -338,9 +353,7 @@ impl <'t> ParserState<'t> {
         }
         lazy_static! {
             static ref TEXT_RE: Regex = fregex!(
-                &format!(
-                    r"<p>notelist({0})(?:\:([\w|{1}]))?([\^!]?)(\+?)\.?[\s]*</p>",
-                    *CLS_RE_S, SYMS_RE_S));
+                &format!("<p>{}</p>", *NOTE_LIST_RE_S));
         }
         // Given the text that matches as a note, format it into HTML.
         let f_note_lists = |cap: &Captures| -> String {
-- 
2.43.0


From b8c53d6953c05266fff1e6850598a1c08355ed20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:34 +0000
Subject: [PATCH 35/35] fix: close the item around a nested list by its own tag

Lists of several kinds, definition lists inside other lists and skipped
levels were closed with the tag of the last item, giving malformed HTML.
---
 src/parser.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index de327e3..3645be2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -954,6 +954,8 @@ impl <'t> ParserState<'t> {
             let mut lists = IndexMap::<&str, usize>::new();
             let mut out = Vec::<String>::new();
             let mut litem = "";
+            // The levels and the tags of the items with other lists inside
+            let mut open_items = Vec::<(usize, &str)>::new();
             for (index, item) in list_items.iter().enumerate() {
                 let content = item.content.trim();
                 let ltype = list_type(item.tl);
@@ -1017,22 +1019,28 @@ impl <'t> ParserState<'t> {
                     String::new()
                 };
 
-                if show_item && next.map(|n| n.level <= item.level).unwrap_or(true) {
-                    line += &format!("</{0}>", litem);
+                if show_item {
+                    if next.map(|n| n.level <= item.level).unwrap_or(true) {
+                        line += &format!("</{0}>", litem);
+                    } else {
+                        open_items.push((item.level, litem));
+                    }
                 }
 
                 for (k, v) in lists.clone().iter().rev() {
                     let indent = k.len();
                     if next.map(|n| indent > n.level).unwrap_or(true) {
+                        lists.shift_remove(k);
                         if *v != 2 {
                             line += &format!("\n{0}</{1}>", tabs, list_type(k));
-                            if indent > 1 {
-                                line += "</";
-                                line += litem;
-                                line += ">";
+                            if let Some((level, open_item)) = open_items.last().copied() {
+                                // The last one of the lists inside the item is over
+                                if indent > level && lists.keys().all(|k| k.len() <= level) {
+                                    line += &format!("</{0}>", open_item);
+                                    open_items.pop();
+                                }
                             }
                         }
-                        lists.shift_remove(k);
                     }
                 }
                 prev = Some(item);
-- 
2.43.0

