From 4867b6273803e9cb63addbc62df81bddbe6deb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 01/40] fix: fold long lines on character boundaries and before
 the line end

Writing a line longer than 75 bytes panicked when byte 75 fell inside a
multi-byte character, and a 74-byte line was split between CR and LF.
---
 src/ser.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/ser.rs b/src/ser.rs
index f5fc486..6fbda08 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -142,12 +142,12 @@ pub(crate) fn field<S: Serialize>(name: &str, value: &S) -> crate::Result<String
             }
             s.push(':');
             s.push_str(&ical);
-            s.push_str("\r\n");
-        }
 
-        if s.len() > 75 {
-            let lines = split(&s, 75);
-            s = lines.join("\r\n ");
+            if s.len() > 75 {
+                let lines = split(&s, 75);
+                s = lines.join("\r\n ");
+            }
+            s.push_str("\r\n");
         }
     }
 
@@ -159,7 +159,12 @@ fn split(s: &str, sub_size: usize) -> Vec<&str> {
     let mut cur = s;
 
     while !cur.is_empty() {
-        let (chunk, rest) = cur.split_at(std::cmp::min(sub_size, cur.len()));
+        let mut mid = std::cmp::min(sub_size, cur.len());
+        while !cur.is_char_boundary(mid) {
+            mid -= 1;
+        }
+
+        let (chunk, rest) = cur.split_at(mid);
         v.push(chunk);
         cur = rest;
     }
-- 
2.43.0


From 46df163c020db877a1422bca818a802bbb053fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 02/40] fix: write alarms of a component as components

An alarm in an event or a calendar was written as the value of an ALARMS
property, which no reader understands.
---
 src/components/valarm.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/components/valarm.rs b/src/components/valarm.rs
index 8f593b8..80a4644 100644
--- a/src/components/valarm.rs
+++ b/src/components/valarm.rs
@@ -53,6 +53,10 @@ impl std::str::FromStr for VAlarm {
 }
 
 impl crate::ser::Serialize for VAlarm {
+    fn component() -> Option<String> {
+        "VALARM".to_string().into()
+    }
+
     fn ical(&self) -> crate::Result<String> {
         let s = match self {
             Self::Audio(audio) => audio.ical(),
-- 
2.43.0


From a73083bc89fd7304568996c387c8e2c8a2104dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 03/40] fix: write each value of a list property that takes a
 single value

Several attendees, comments, alarms, events... were joined with commas on
one line, dropping their parameters: the result read back as one value, or
was not a calendar at all for nested components. Only the properties that
are read as comma separated lists are written as such.
---
 derive/src/component.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index 6215028..de6bf97 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -43,11 +43,10 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
             .replace('_', "-");
 
         let ser_part = if crate::is_vec(ty) {
+            let append = field_params.append;
+
             quote::quote! {
-                if self.#name.len() == 1 {
-                    s.push_str(&crate::ser::field(#field_name, &self.#name[0])?);
-                }
-                else if self.#name.attr().is_none() {
+                if #append && self.#name.iter().all(|v| v.attr().is_none()) {
                     s.push_str(&crate::ser::field(#field_name, &self.#name)?);
                 } else {
                     for v in &self.#name {
-- 
2.43.0


From dc1b7fab6580e012c461bef818f95bc4ba7e37b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 04/40] fix: write empty values

A text without characters was not written: an empty mandatory one, as in
VEvent::default(), made the output unreadable, and the parameters of an
empty one were lost.
---
 src/properties/rdate.rs | 13 ++++++++++++-
 src/ser.rs              | 19 ++++++++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/properties/rdate.rs b/src/properties/rdate.rs
index bc9a5bd..40b8f7c 100644
--- a/src/properties/rdate.rs
+++ b/src/properties/rdate.rs
@@ -41,7 +41,18 @@ impl std::fmt::Display for RDate {
     }
 }
 
-crate::ser::ical_for_tostring!(RDate);
+impl crate::ser::Serialize for RDate {
+    fn is_none(&self) -> bool {
+        match self {
+            Self::Date(dates) => dates.is_empty(),
+            Self::Period(periods) => periods.is_empty(),
+        }
+    }
+
+    fn ical(&self) -> crate::Result<String> {
+        Ok(self.to_string())
+    }
+}
 
 #[cfg(test)]
 mod test {
diff --git a/src/ser.rs b/src/ser.rs
index 6fbda08..e542f48 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -21,6 +21,11 @@ pub trait Serialize {
         None
     }
 
+    /** Is there nothing to write? An empty value isn’t an absent one. */
+    fn is_none(&self) -> bool {
+        false
+    }
+
     fn ical(&self) -> crate::Result<String>;
 }
 
@@ -72,6 +77,10 @@ impl Serialize for String {
 }
 
 impl<T: Serialize> Serialize for Vec<T> {
+    fn is_none(&self) -> bool {
+        self.is_empty()
+    }
+
     fn ical(&self) -> crate::Result<String> {
         let mut s = String::new();
 
@@ -86,6 +95,10 @@ impl<T: Serialize> Serialize for Vec<T> {
 }
 
 impl<T: Serialize> Serialize for Option<T> {
+    fn is_none(&self) -> bool {
+        self.as_ref().is_none_or(Serialize::is_none)
+    }
+
     fn attr(&self) -> Option<String> {
         if let Some(value) = &self {
             value.attr()
@@ -104,6 +117,10 @@ impl<T: Serialize> Serialize for Option<T> {
 }
 
 impl<K: ToString, V: Serialize> Serialize for std::collections::BTreeMap<K, V> {
+    fn is_none(&self) -> bool {
+        self.is_empty()
+    }
+
     fn ical(&self) -> crate::Result<String> {
         let mut s = String::new();
 
@@ -133,7 +150,7 @@ pub(crate) fn field<S: Serialize>(name: &str, value: &S) -> crate::Result<String
     if S::component().is_some() {
         s.push_str(&ical);
     } else {
-        if !ical.is_empty() {
+        if !value.is_none() {
             s.push_str(name);
 
             if let Some(attr) = value.attr() {
-- 
2.43.0


From 04ed1da3adda7f5d8d6a1b03ee65bf89fdbf0361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 05/40] fix: write the type of a recurrence date as a parameter

RDATE:VALUE=DATE:19970101 is not readable, and date-times are not dates.
---
 src/properties/rdate.rs | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/properties/rdate.rs b/src/properties/rdate.rs
index 40b8f7c..70b8921 100644
--- a/src/properties/rdate.rs
+++ b/src/properties/rdate.rs
@@ -20,21 +20,16 @@ impl RDate {
 impl std::fmt::Display for RDate {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let s = match self {
-            RDate::Date(date) => format!(
-                "VALUE=DATE:{}",
-                date.iter()
-                    .map(ToString::to_string)
-                    .collect::<Vec<_>>()
-                    .join(",")
-            ),
-            RDate::Period(period) => format!(
-                "VALUE=PERIOD:{}",
-                period
-                    .iter()
-                    .map(ToString::to_string)
-                    .collect::<Vec<_>>()
-                    .join(",")
-            ),
+            RDate::Date(date) => date
+                .iter()
+                .map(ToString::to_string)
+                .collect::<Vec<_>>()
+                .join(","),
+            RDate::Period(period) => period
+                .iter()
+                .map(ToString::to_string)
+                .collect::<Vec<_>>()
+                .join(","),
         };
 
         f.write_str(&s)
@@ -42,6 +37,14 @@ impl std::fmt::Display for RDate {
 }
 
 impl crate::ser::Serialize for RDate {
+    fn attr(&self) -> Option<String> {
+        match self {
+            Self::Date(dates) if dates.iter().any(crate::Date::has_time) => None,
+            Self::Date(_) => "VALUE=DATE".to_string().into(),
+            Self::Period(_) => "VALUE=PERIOD".to_string().into(),
+        }
+    }
+
     fn is_none(&self) -> bool {
         match self {
             Self::Date(dates) => dates.is_empty(),
-- 
2.43.0


From 3f16a94361675fa3c433c5b310900102d376460a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 06/40] fix: write extension properties under their own name
 and unmodified

They were all gathered in the value of one X-PROP or IANA-PROP property.
---
 derive/src/component.rs | 6 ++++++
 derive/src/lib.rs       | 4 ++++
 src/content_line.rs     | 2 +-
 src/ser.rs              | 4 ++++
 4 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index de6bf97..d5ce7d7 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -54,6 +54,12 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
                     }
                 }
             }
+        } else if crate::is_map(ty) {
+            quote::quote! {
+                for (name, v) in &self.#name {
+                    s.push_str(&crate::ser::field(name, v)?);
+                }
+            }
         } else {
             quote::quote! {
                 s.push_str(&crate::ser::field(#field_name, &self.#name)?);
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index 4732cea..d31ca7f 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -52,6 +52,10 @@ fn is_vec(ty: &syn::Type) -> bool {
     tyname(ty) == "Vec"
 }
 
+fn is_map(ty: &syn::Type) -> bool {
+    tyname(ty).ends_with("BTreeMap")
+}
+
 fn tyname(ty: &syn::Type) -> String {
     let syn::Type::Path(typepath) = ty else {
         return String::new();
diff --git a/src/content_line.rs b/src/content_line.rs
index 80d74ce..016596f 100644
--- a/src/content_line.rs
+++ b/src/content_line.rs
@@ -55,7 +55,7 @@ impl std::fmt::Display for ContentLine {
 
 impl crate::ser::Serialize for ContentLine {
     fn ical(&self) -> crate::Result<String> {
-        self.to_string().ical()
+        Ok(crate::ser::escape_newlines(&self.value))
     }
 
     fn attr(&self) -> Option<String> {
diff --git a/src/ser.rs b/src/ser.rs
index e542f48..aea800b 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -136,6 +136,10 @@ impl<K: ToString, V: Serialize> Serialize for std::collections::BTreeMap<K, V> {
     }
 }
 
+pub(crate) fn escape_newlines(s: &str) -> String {
+    s.replace("\r\n", "\\n").replace(['\n', '\r'], "\\n")
+}
+
 pub(crate) fn escape(s: &str) -> String {
     s.replace(';', "\\;")
         .replace(',', "\\,")
-- 
2.43.0


From 5122417ee9e3386b605a4ce5bea80f6560eddef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 07/40] =?UTF-8?q?fix:=20don=E2=80=99t=20escape=20URIs?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

RFC 5545 only escapes texts: a backslash before each comma or semicolon made
it another URI.
---
 src/properties/uri.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/properties/uri.rs b/src/properties/uri.rs
index 78386de..dc3c0b2 100644
--- a/src/properties/uri.rs
+++ b/src/properties/uri.rs
@@ -52,7 +52,7 @@ impl From<&str> for Uri {
 
 impl crate::ser::Serialize for Uri {
     fn ical(&self) -> crate::Result<String> {
-        self.to_string().ical()
+        Ok(crate::ser::escape_newlines(&self.uri))
     }
 
     fn attr(&self) -> Option<String> {
-- 
2.43.0


From 9627d2983598c84439acfe9f9412688c75cde68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 08/40] fix: escape texts once

Texts are read in their escaped form and were escaped again when written:
each load and save added a backslash before each comma. Also escape carriage
returns, which ended the line, and lone backslashes.
---
 src/ser.rs | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/ser.rs b/src/ser.rs
index aea800b..9f16bfe 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -140,10 +140,36 @@ pub(crate) fn escape_newlines(s: &str) -> String {
     s.replace("\r\n", "\\n").replace(['\n', '\r'], "\\n")
 }
 
+/**
+ * Escapes a text, the sequences that are already escaped are kept: this is how texts are read.
+ */
 pub(crate) fn escape(s: &str) -> String {
-    s.replace(';', "\\;")
-        .replace(',', "\\,")
-        .replace('\n', "\\n")
+    let mut escaped = String::with_capacity(s.len());
+    let mut it = s.chars().peekable();
+
+    while let Some(c) = it.next() {
+        match c {
+            '\\' => {
+                escaped.push('\\');
+                escaped.push(
+                    it.next_if(|x| matches!(x, '\\' | ';' | ',' | 'n' | 'N'))
+                        .unwrap_or('\\'),
+                );
+            }
+            ';' | ',' => {
+                escaped.push('\\');
+                escaped.push(c);
+            }
+            '\r' => {
+                it.next_if_eq(&'\n');
+                escaped.push_str("\\n");
+            }
+            '\n' => escaped.push_str("\\n"),
+            _ => escaped.push(c),
+        }
+    }
+
+    escaped
 }
 
 pub(crate) fn field<S: Serialize>(name: &str, value: &S) -> crate::Result<String> {
-- 
2.43.0


From 2ef3260f8624ef14bb477722e2932ff3fcd1a411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 09/40] =?UTF-8?q?fix:=20don=E2=80=99t=20escape=20attachmen?=
 =?UTF-8?q?ts?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

They are URIs or binary data, never texts.
---
 derive/src/component.rs    | 9 ++++++++-
 src/components/valarm.rs   | 2 ++
 src/components/vevent.rs   | 1 +
 src/components/vjournal.rs | 1 +
 src/components/vtodo.rs    | 1 +
 src/properties/uri.rs      | 9 +++++++++
 6 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index d5ce7d7..ed386fa 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -8,6 +8,8 @@ pub(crate) struct Field {
     pub append: bool,
     #[darling(default)]
     pub ignore: bool,
+    #[darling(default)]
+    pub uri: bool,
 }
 
 pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::TokenStream> {
@@ -44,13 +46,18 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
 
         let ser_part = if crate::is_vec(ty) {
             let append = field_params.append;
+            let value = if field_params.uri {
+                quote::quote! { &crate::Uri::from(v.clone()) }
+            } else {
+                quote::quote! { v }
+            };
 
             quote::quote! {
                 if #append && self.#name.iter().all(|v| v.attr().is_none()) {
                     s.push_str(&crate::ser::field(#field_name, &self.#name)?);
                 } else {
                     for v in &self.#name {
-                        s.push_str(&crate::ser::field(#field_name, v)?);
+                        s.push_str(&crate::ser::field(#field_name, #value)?);
                     }
                 }
             }
diff --git a/src/components/valarm.rs b/src/components/valarm.rs
index 80a4644..1533a39 100644
--- a/src/components/valarm.rs
+++ b/src/components/valarm.rs
@@ -80,6 +80,7 @@ pub struct Audio {
     pub trigger: crate::Trigger,
     pub duration: Option<chrono::Duration>,
     pub repeat: Option<u32>,
+    #[component(uri)]
     pub attach: Vec<crate::Text>,
     #[component(ignore)]
     pub x_prop: std::collections::BTreeMap<String, crate::ContentLine>,
@@ -139,6 +140,7 @@ pub struct Email {
     pub attendee: Vec<crate::Uri>,
     pub duration: Option<chrono::Duration>,
     pub repeat: Option<u32>,
+    #[component(uri)]
     pub attach: Vec<crate::Text>,
     #[component(ignore)]
     pub x_prop: std::collections::BTreeMap<String, crate::ContentLine>,
diff --git a/src/components/vevent.rs b/src/components/vevent.rs
index 3e9b1c9..27ce231 100644
--- a/src/components/vevent.rs
+++ b/src/components/vevent.rs
@@ -23,6 +23,7 @@ pub struct VEvent {
     pub rrule: Option<crate::Recur>,
     pub dtend: Option<crate::Date>,
     pub duration: Option<chrono::Duration>,
+    #[component(uri)]
     pub attach: Vec<crate::Text>,
     pub attendee: Vec<crate::Uri>,
     #[component(append)]
diff --git a/src/components/vjournal.rs b/src/components/vjournal.rs
index 0d07251..60c76e4 100644
--- a/src/components/vjournal.rs
+++ b/src/components/vjournal.rs
@@ -16,6 +16,7 @@ pub struct VJournal {
     pub summary: Option<crate::Text>,
     pub url: Option<crate::Uri>,
     pub rrule: Option<crate::Recur>,
+    #[component(uri)]
     pub attach: Vec<crate::Text>,
     pub attendee: Vec<crate::Uri>,
     #[component(append)]
diff --git a/src/components/vtodo.rs b/src/components/vtodo.rs
index 84a9cbd..d3b4f9d 100644
--- a/src/components/vtodo.rs
+++ b/src/components/vtodo.rs
@@ -23,6 +23,7 @@ pub struct VTodo {
     pub rrule: Option<crate::Recur>,
     pub due: Option<crate::Date>,
     pub duration: Option<chrono::Duration>,
+    #[component(uri)]
     pub attach: Vec<crate::Text>,
     pub attendee: Vec<crate::Uri>,
     #[component(append)]
diff --git a/src/properties/uri.rs b/src/properties/uri.rs
index dc3c0b2..e8d11c0 100644
--- a/src/properties/uri.rs
+++ b/src/properties/uri.rs
@@ -18,6 +18,15 @@ impl From<crate::ContentLine> for Uri {
     }
 }
 
+impl From<crate::Text> for Uri {
+    fn from(value: crate::Text) -> Self {
+        Self {
+            params: value.params,
+            uri: value.text,
+        }
+    }
+}
+
 impl std::fmt::Display for Uri {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         f.write_str(&self.uri)
-- 
2.43.0


From 410e0fd2e9a343a88b852840e940a1fc8196272d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 10/40] fix: escape line breaks in a custom classification

They ended the line, what follows was read as another property.
---
 src/properties/class.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/properties/class.rs b/src/properties/class.rs
index ea17c28..1a61b85 100644
--- a/src/properties/class.rs
+++ b/src/properties/class.rs
@@ -54,7 +54,11 @@ impl std::fmt::Display for Class {
     }
 }
 
-crate::ser::ical_for_tostring!(Class);
+impl crate::ser::Serialize for Class {
+    fn ical(&self) -> crate::Result<String> {
+        Ok(crate::ser::escape_newlines(&self.to_string()))
+    }
+}
 
 #[cfg(test)]
 mod test {
-- 
2.43.0


From 1b4d114a3de7aa735a3c847e27aa68de0a1c4729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 11/40] fix: read parameters within their line and accept lists
 of quoted values

A parameter value extended over line ends up to the next quote, semicolon or
colon, swallowing the following properties; a list such as
MEMBER="mailto:a@example.com","mailto:b@example.com" was refused. Quotes can
only surround a value, see RFC 5545 3.2.
---
 src/parser/mod.rs | 49 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 971907a..348c63a 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -24,11 +24,11 @@ pub(crate) use timezone::*;
 
 use nom::Parser as _;
 use nom::bytes::complete::{tag, take_till, take_while};
-use nom::character::complete::{anychar, char, line_ending};
-use nom::combinator::{map, map_res, not, opt};
+use nom::character::complete::{anychar, char, line_ending, one_of};
+use nom::combinator::{map, map_res, not, opt, peek, recognize};
 use nom::error::context;
-use nom::multi::{count, fold_many0};
-use nom::sequence::{preceded, separated_pair};
+use nom::multi::{count, fold_many0, separated_list1};
+use nom::sequence::{delimited, preceded, separated_pair, terminated};
 use std::collections::BTreeMap;
 
 pub(crate) type NomResult<I, O> = nom::IResult<I, O, nom_language::error::VerboseError<I>>;
@@ -62,9 +62,30 @@ fn key(input: &str) -> NomResult<&str, &str> {
 }
 
 fn attr(input: &str) -> NomResult<&str, &str> {
+    use nom::branch::alt;
+
     context(
         "attr",
-        preceded(opt(tag("\r\n ")), take_till(|c| c == ';' || c == ':')),
+        preceded(opt(tag("\r\n ")), alt((quoted_attr, attr_list))),
+    )
+    .parse(input)
+}
+
+fn quoted_attr(input: &str) -> NomResult<&str, &str> {
+    context("quoted_attr", terminated(quoted, peek(one_of(";:")))).parse(input)
+}
+
+pub(crate) fn attr_list(input: &str) -> NomResult<&str, &str> {
+    use nom::branch::alt;
+
+    let unquoted = take_till(|c| matches!(c, '"' | ',' | ';' | ':') || is_line_ending(c));
+
+    context(
+        "attr_list",
+        recognize(separated_list1(
+            char(','),
+            alt((recognize(quoted), unquoted)),
+        )),
     )
     .parse(input)
 }
@@ -77,24 +98,22 @@ fn quote(chr: char) -> bool {
     chr == '"'
 }
 
-fn quoted_param(input: &str) -> NomResult<&str, (&str, &str)> {
+fn quoted(input: &str) -> NomResult<&str, &str> {
     context(
-        "quoted_param",
-        separated_pair(key, tag("=\""), take_till(quote)),
+        "quoted",
+        delimited(
+            char('"'),
+            take_till(|c| quote(c) || is_line_ending(c)),
+            char('"'),
+        ),
     )
     .parse(input)
 }
 
 fn param(input: &str) -> NomResult<&str, (&str, &str)> {
-    use nom::branch::alt;
-    use nom::sequence::delimited;
-
     context(
         "param",
-        alt((
-            delimited(char(';'), quoted_param, char('"')),
-            preceded(char(';'), separated_pair(key, char('='), attr)),
-        )),
+        preceded(char(';'), separated_pair(key, char('='), attr)),
     )
     .parse(input)
 }
-- 
2.43.0


From 8f825fd6e1cec85e7c2b8b60b5f0502b1289649e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 12/40] fix: quote parameters instead of escaping them

---
 src/ser.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/ser.rs b/src/ser.rs
index 9f16bfe..71d3c75 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -116,7 +116,7 @@ impl<T: Serialize> Serialize for Option<T> {
     }
 }
 
-impl<K: ToString, V: Serialize> Serialize for std::collections::BTreeMap<K, V> {
+impl<K: ToString, V: ToString> Serialize for std::collections::BTreeMap<K, V> {
     fn is_none(&self) -> bool {
         self.is_empty()
     }
@@ -127,7 +127,7 @@ impl<K: ToString, V: Serialize> Serialize for std::collections::BTreeMap<K, V> {
         for (k, v) in self {
             s.push_str(&k.to_string());
             s.push('=');
-            s.push_str(&v.ical()?);
+            s.push_str(&param_value(&v.to_string()));
             s.push(';');
         }
         s.pop();
@@ -136,6 +136,27 @@ impl<K: ToString, V: Serialize> Serialize for std::collections::BTreeMap<K, V> {
     }
 }
 
+/**
+ * Parameters aren’t escaped but quoted. They can’t contain quotes, except those of a list of quoted
+ * values.
+ *
+ * See [3.2. Property Parameters](https://datatracker.ietf.org/doc/html/rfc5545#section-3.2)
+ */
+fn param_value(value: &str) -> String {
+    let value = escape_newlines(value);
+
+    let is_quoted_list = value.contains('"')
+        && crate::parser::attr_list(&value).is_ok_and(|(rest, _)| rest.is_empty());
+
+    if is_quoted_list {
+        value
+    } else if value.contains(['"', ',', ';', ':']) {
+        format!("\"{}\"", value.replace('"', "'"))
+    } else {
+        value
+    }
+}
+
 pub(crate) fn escape_newlines(s: &str) -> String {
     s.replace("\r\n", "\\n").replace(['\n', '\r'], "\\n")
 }
-- 
2.43.0


From 10443d3fb1a702273b9a1e31118d3c0356c99fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 13/40] fix: reject an alarm without action instead of
 panicking

---
 src/components/valarm.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/components/valarm.rs b/src/components/valarm.rs
index 1533a39..acfb483 100644
--- a/src/components/valarm.rs
+++ b/src/components/valarm.rs
@@ -12,7 +12,10 @@ impl TryFrom<Vec<crate::ContentLine>> for VAlarm {
     type Error = crate::Error;
 
     fn try_from(properties: Vec<crate::ContentLine>) -> crate::Result<Self> {
-        let action = properties.iter().find(|x| x.key == "ACTION").unwrap();
+        let action = properties
+            .iter()
+            .rfind(|x| x.key == "ACTION")
+            .ok_or_else(|| crate::Error::Parser("Missing field ACTION".to_string()))?;
 
         let component = match action.value.as_str() {
             "AUDIO" => Self::Audio(Audio::try_from(properties)?),
-- 
2.43.0


From be921f04cc80764a79095d8630e1f9db2a9c5e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 14/40] fix: reject a period without end instead of panicking

---
 src/parser/datatype.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index f80c8a0..2d8f6e4 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -156,19 +156,21 @@ pub(crate) fn duration(input: &str) -> super::NomResult<&str, chrono::Duration>
  * See [3.3.9. Period of Time](https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.9)
  */
 pub(crate) fn period(input: &str) -> crate::Result<crate::Period> {
-    let tokens = input.splitn(2, '/').collect::<Vec<_>>();
+    let (start, end) = input
+        .split_once('/')
+        .ok_or_else(|| crate::Error::Parser(format!("Invalid period: {input}")))?;
 
-    let start = date_time(tokens[0])?.1;
+    let start = date_time(start)?.1;
 
-    let period = if tokens[1].starts_with('P') {
+    let period = if end.starts_with('P') {
         crate::Period::StartDur(crate::period::StartDur {
             start,
-            duration: super::duration(tokens[1].into())?,
+            duration: super::duration(end.into())?,
         })
     } else {
         crate::Period::StartEnd(crate::period::StartEnd {
             start,
-            end: date_time(tokens[1])?.1,
+            end: date_time(end)?.1,
         })
     };
 
-- 
2.43.0


From 5b24ec2607939da4b3760008da77d910b398e1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 15/40] fix: reject a recurrence rule without frequency instead
 of panicking

---
 src/parser/recurrence.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/recurrence.rs b/src/parser/recurrence.rs
index 9a3d6d3..d94e47d 100644
--- a/src/parser/recurrence.rs
+++ b/src/parser/recurrence.rs
@@ -86,7 +86,10 @@ pub(crate) fn rrule(input: crate::ContentLine) -> crate::Result<crate::Recur> {
                 .collect::<std::collections::BTreeMap<_, _>>();
 
             let recur = crate::Recur {
-                freq: map["FREQ"].parse()?,
+                freq: map
+                    .get("FREQ")
+                    .ok_or_else(|| crate::Error::Parser("Missing rule part FREQ".to_string()))?
+                    .parse()?,
                 until: map
                     .get("UNTIL")
                     .map(|x| {
-- 
2.43.0


From 414c8dcebce05528caad275b9cb6c407c27993b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 16/40] fix: reject a too large duration instead of panicking
 and accept a plus sign

---
 src/parser/datatype.rs | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index 2d8f6e4..911d569 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -4,6 +4,7 @@
 
 use nom::Parser as _;
 use nom::bytes::complete::tag;
+use nom::character::complete::one_of;
 use nom::combinator::{map, map_res, opt};
 use nom::error::{FromExternalError, context};
 use nom::sequence::{pair, preceded, terminated};
@@ -127,25 +128,35 @@ pub(crate) fn duration(input: &str) -> super::NomResult<&str, chrono::Duration>
         .parse(input)
     }
 
+    fn sum(
+        (w, d, t): (Option<i64>, Option<i64>, Option<(i64, i64, i64)>),
+    ) -> Option<chrono::Duration> {
+        let (h, i, s) = t.unwrap_or_default();
+
+        chrono::Duration::try_weeks(w.unwrap_or_default())?
+            .checked_add(&chrono::Duration::try_days(d.unwrap_or_default())?)?
+            .checked_add(&chrono::Duration::try_hours(h)?)?
+            .checked_add(&chrono::Duration::try_minutes(i)?)?
+            .checked_add(&chrono::Duration::try_seconds(s)?)
+    }
+
     context(
         "duration",
-        map(
+        map_res(
             pair(
-                opt(tag("-")),
+                opt(one_of("+-")),
                 preceded(tag("P"), (opt(week), opt(day), opt(time))),
             ),
-            |(neg, (w, d, t))| {
-                let mut duration = chrono::Duration::weeks(w.unwrap_or_default())
-                    + chrono::Duration::days(d.unwrap_or_default());
-
-                if let Some((h, i, s)) = t {
-                    duration = duration
-                        + chrono::Duration::hours(h)
-                        + chrono::Duration::minutes(i)
-                        + chrono::Duration::seconds(s);
-                }
-
-                if neg.is_some() { -duration } else { duration }
+            |(sign, parts)| {
+                let duration = sum(parts).ok_or_else(|| {
+                    crate::Error::ParseDuration(format!("Duration too large: {input}"))
+                })?;
+
+                Ok::<_, crate::Error>(if sign == Some('-') {
+                    -duration
+                } else {
+                    duration
+                })
             },
         ),
     )
@@ -162,7 +173,7 @@ pub(crate) fn period(input: &str) -> crate::Result<crate::Period> {
 
     let start = date_time(start)?.1;
 
-    let period = if end.starts_with('P') {
+    let period = if end.starts_with(['P', '+', '-']) {
         crate::Period::StartDur(crate::period::StartDur {
             start,
             duration: super::duration(end.into())?,
-- 
2.43.0


From e24b0b2311ff57a508480f704c6ff929030a4612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 17/40] fix: sum the parts of a duration

---
 src/lib.rs | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ea8db47..6b41970 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -124,21 +124,23 @@ macro_rules! valarm {
 
 #[doc(hidden)]
 pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
-    let mut duration = chrono::TimeDelta::default();
+    use chrono::TimeDelta;
+
+    let mut duration = TimeDelta::default();
     let mut it = value.chars().peekable();
 
     let mut negative = false;
     let mut time = false;
     let mut interval = String::new();
 
-    if it.next_if(|x| *x == '-').is_some() {
-        negative = true;
+    if let Some(sign) = it.next_if(|x| matches!(x, '+' | '-')) {
+        negative = sign == '-';
     }
 
+    let invalid = || crate::Error::ParseDuration(format!("Invalid duration: {value}"));
+
     if it.next_if(|x| *x == 'P').is_none() {
-        return Err(crate::Error::ParseDuration(format!(
-            "Invalid duration: {value}"
-        )));
+        return Err(invalid());
     };
 
     loop {
@@ -156,21 +158,26 @@ pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
             break;
         };
 
+        let number = std::mem::take(&mut interval).parse::<i64>()?;
+
         let part = match (time, ty) {
-            (false, 'Y') => chrono::TimeDelta::days(365 * interval.parse::<i64>()?),
-            (false, 'M') => chrono::TimeDelta::days(30 * interval.parse::<i64>()?),
-            (false, 'D') => chrono::TimeDelta::days(interval.parse()?),
-            (true, 'H') => chrono::TimeDelta::hours(interval.parse()?),
-            (true, 'M') => chrono::TimeDelta::minutes(interval.parse()?),
-            (true, 'S') => chrono::TimeDelta::seconds(interval.parse()?),
-            _ => {
-                return Err(crate::Error::ParseDuration(format!(
-                    "Invalid duration: {interval}"
-                )));
-            }
+            (false, 'Y') => number.checked_mul(365).and_then(TimeDelta::try_days),
+            (false, 'M') => number.checked_mul(30).and_then(TimeDelta::try_days),
+            (false, 'W') => TimeDelta::try_weeks(number),
+            (false, 'D') => TimeDelta::try_days(number),
+            (true, 'H') => TimeDelta::try_hours(number),
+            (true, 'M') => TimeDelta::try_minutes(number),
+            (true, 'S') => TimeDelta::try_seconds(number),
+            _ => None,
         };
 
-        duration += part;
+        duration = part
+            .and_then(|part| duration.checked_add(&part))
+            .ok_or_else(invalid)?;
+    }
+
+    if !interval.is_empty() {
+        return Err(invalid());
     }
 
     if negative {
-- 
2.43.0


From 41058ad4a9ce7722d61ae5cd36422d1f6724cdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 18/40] =?UTF-8?q?fix:=20don=E2=80=99t=20panic=20on=20a=20d?=
 =?UTF-8?q?ate-time=20skipped=20or=20repeated=20by=20a=20daylight=20saving?=
 =?UTF-8?q?=20change?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/properties/date.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/properties/date.rs b/src/properties/date.rs
index cd2c735..c15ee24 100644
--- a/src/properties/date.rs
+++ b/src/properties/date.rs
@@ -116,9 +116,11 @@ impl std::str::FromStr for DateTime {
         } else {
             let naive = chrono::NaiveDateTime::parse_from_str(s, "%Y%m%dT%H%M%SZ")?;
 
-            Ok(Self::Local(
-                naive.and_local_timezone(chrono::Local).unwrap(),
-            ))
+            naive
+                .and_local_timezone(chrono::Local)
+                .earliest()
+                .map(Self::Local)
+                .ok_or(crate::Error::Local(Self::Naive(naive)))
         }
     }
 }
-- 
2.43.0


From def260af73b2a0f919f2080a7fe967ddd49c90e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 19/40] fix: read a single kind of alarm instead of panicking

---
 src/parser/components.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index f13cd9a..a5a45ca 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -31,17 +31,21 @@ component!(vjournal, crate::VJournal);
 component!(standard, crate::vtimezone::Standard);
 component!(daylight, crate::vtimezone::Daylight);
 
-pub(crate) fn audio(_: &str) -> super::NomResult<&str, crate::valarm::Audio> {
-    unreachable!()
-}
-
-pub(crate) fn display(_: &str) -> super::NomResult<&str, crate::valarm::Display> {
-    unreachable!()
+macro_rules! alarm {
+    ($name:ident, $ty:ident) => {
+        pub(crate) fn $name(input: &str) -> super::NomResult<&str, crate::valarm::$ty> {
+            map_res(valarm, |alarm| match alarm {
+                crate::VAlarm::$ty(alarm) => Ok(alarm),
+                alarm => Err(crate::Error::Alarm(format!("{alarm:?}"))),
+            })
+            .parse(input)
+        }
+    };
 }
 
-pub(crate) fn email(_: &str) -> super::NomResult<&str, crate::valarm::Email> {
-    unreachable!()
-}
+alarm!(audio, Audio);
+alarm!(display, Display);
+alarm!(email, Email);
 
 pub(crate) fn vevent(input: &str) -> super::NomResult<&str, crate::VEvent> {
     context(
-- 
2.43.0


From 7948c6c50cb68282f86425a324226408bc1b8e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 20/40] fix: write an alarm kind as an alarm

---
 derive/src/component.rs  | 27 +++++++++++++++++++--------
 src/components/valarm.rs | 15 +++++----------
 2 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index ed386fa..efb5798 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -1,6 +1,13 @@
-use darling::FromField;
+use darling::{FromDeriveInput as _, FromField};
 use quote::ToTokens as _;
 
+#[derive(Clone, Default, Debug, darling::FromDeriveInput)]
+#[darling(attributes(component))]
+pub(crate) struct Container {
+    /** Name of the component, if this isn’t the one of the struct */
+    pub rename: Option<String>,
+}
+
 #[derive(Clone, Default, Debug, FromField)]
 #[darling(attributes(component))]
 pub(crate) struct Field {
@@ -8,6 +15,7 @@ pub(crate) struct Field {
     pub append: bool,
     #[darling(default)]
     pub ignore: bool,
+    pub rename: Option<String>,
     #[darling(default)]
     pub uri: bool,
 }
@@ -24,7 +32,9 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
     };
 
     let name = &ast.ident;
-    let name_str = name.to_token_stream().to_string();
+    let name_str = Container::from_derive_input(ast)?
+        .rename
+        .unwrap_or_else(|| name.to_token_stream().to_string());
     let parser = quote::format_ident!("{}", name.to_string().to_lowercase());
     let (impl_generics, ty_generics, where_clause) = ast.generics.split_for_impl();
 
@@ -37,12 +47,13 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
         let ty = &field.ty;
         let field_params = Field::from_field(field)?;
 
-        let field_name = name
-            .as_ref()
-            .unwrap()
-            .to_string()
-            .to_uppercase()
-            .replace('_', "-");
+        let field_name = field_params.rename.clone().unwrap_or_else(|| {
+            name.as_ref()
+                .unwrap()
+                .to_string()
+                .to_uppercase()
+                .replace('_', "-")
+        });
 
         let ser_part = if crate::is_vec(ty) {
             let append = field_params.append;
diff --git a/src/components/valarm.rs b/src/components/valarm.rs
index acfb483..e3e62d5 100644
--- a/src/components/valarm.rs
+++ b/src/components/valarm.rs
@@ -61,23 +61,16 @@ impl crate::ser::Serialize for VAlarm {
     }
 
     fn ical(&self) -> crate::Result<String> {
-        let s = match self {
+        match self {
             Self::Audio(audio) => audio.ical(),
             Self::Display(display) => display.ical(),
             Self::Email(email) => email.ical(),
-        }?;
-
-        let mut lines = s.split("\n").collect::<Vec<_>>();
-        lines[0] = "BEGIN:VALARM\r";
-        lines.pop();
-        lines.pop();
-        lines.push("END:VALARM\r\n");
-
-        Ok(lines.join("\n"))
+        }
     }
 }
 
 #[derive(Clone, Debug, Default, Eq, PartialEq, crate::Component)]
+#[component(rename = "VALARM")]
 pub struct Audio {
     pub action: crate::Text,
     pub trigger: crate::Trigger,
@@ -107,6 +100,7 @@ impl From<Audio> for VAlarm {
 }
 
 #[derive(Clone, Debug, Default, Eq, PartialEq, crate::Component)]
+#[component(rename = "VALARM")]
 pub struct Display {
     pub action: crate::Text,
     pub trigger: crate::Trigger,
@@ -135,6 +129,7 @@ impl From<Display> for VAlarm {
 }
 
 #[derive(Clone, Debug, Default, Eq, PartialEq, crate::Component)]
+#[component(rename = "VALARM")]
 pub struct Email {
     pub action: crate::Text,
     pub trigger: crate::Trigger,
-- 
2.43.0


From 4e3868d582d4660d8943da1c61df4b12202a8172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 21/40] fix: read and write request statuses under their name
 and unmodified

---
 src/components/vevent.rs         |  1 +
 src/components/vfreebusy.rs      |  1 +
 src/components/vjournal.rs       |  1 +
 src/components/vtodo.rs          |  1 +
 src/parser/misc.rs               |  7 +++++--
 src/parser/mod.rs                | 14 ++++++++++++++
 src/properties/request_status.rs |  6 +-----
 7 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/components/vevent.rs b/src/components/vevent.rs
index 27ce231..df42b2d 100644
--- a/src/components/vevent.rs
+++ b/src/components/vevent.rs
@@ -32,6 +32,7 @@ pub struct VEvent {
     pub contact: Vec<crate::Text>,
     #[component(append)]
     pub exdate: Vec<crate::Date>,
+    #[component(rename = "REQUEST-STATUS")]
     pub rstatus: Vec<crate::RequestStatus>,
     pub related_to: Vec<crate::Text>,
     #[component(append)]
diff --git a/src/components/vfreebusy.rs b/src/components/vfreebusy.rs
index 3057da6..4385772 100644
--- a/src/components/vfreebusy.rs
+++ b/src/components/vfreebusy.rs
@@ -14,6 +14,7 @@ pub struct VFreebusy {
     pub comment: Vec<crate::Text>,
     #[component(append)]
     pub freebusy: Vec<crate::Period>,
+    #[component(rename = "REQUEST-STATUS")]
     pub rstatus: Vec<crate::RequestStatus>,
     #[component(ignore)]
     pub x_prop: std::collections::BTreeMap<String, crate::ContentLine>,
diff --git a/src/components/vjournal.rs b/src/components/vjournal.rs
index 60c76e4..a4e1a43 100644
--- a/src/components/vjournal.rs
+++ b/src/components/vjournal.rs
@@ -28,6 +28,7 @@ pub struct VJournal {
     pub exdate: Vec<crate::Date>,
     pub related_to: Vec<crate::Text>,
     pub rdate: Vec<crate::RDate>,
+    #[component(rename = "REQUEST-STATUS")]
     pub rstatus: Vec<crate::RequestStatus>,
     #[component(ignore)]
     pub x_prop: std::collections::BTreeMap<String, crate::ContentLine>,
diff --git a/src/components/vtodo.rs b/src/components/vtodo.rs
index d3b4f9d..e778861 100644
--- a/src/components/vtodo.rs
+++ b/src/components/vtodo.rs
@@ -32,6 +32,7 @@ pub struct VTodo {
     pub contact: Vec<crate::Text>,
     #[component(append)]
     pub exdate: Vec<crate::Date>,
+    #[component(rename = "REQUEST-STATUS")]
     pub rstatus: Vec<crate::RequestStatus>,
     pub related_to: Vec<crate::Text>,
     #[component(append)]
diff --git a/src/parser/misc.rs b/src/parser/misc.rs
index c239b5d..d453ab9 100644
--- a/src/parser/misc.rs
+++ b/src/parser/misc.rs
@@ -7,7 +7,7 @@
  */
 pub(crate) fn rstatus(input: crate::ContentLine) -> crate::Result<crate::RequestStatus> {
     use nom::Parser as _;
-    use nom::bytes::complete::{take_till, take_while};
+    use nom::bytes::complete::take_while;
     use nom::character::complete::char;
     use nom::combinator::{map, opt};
     use nom::error::context;
@@ -15,7 +15,10 @@ pub(crate) fn rstatus(input: crate::ContentLine) -> crate::Result<crate::Request
     use nom::sequence::preceded;
 
     fn text(input: &str) -> super::NomResult<&str, &str> {
-        context("text", take_till(|c| c == ';')).parse(input)
+        let end = super::find_unescaped(input, ';').unwrap_or(input.len());
+        let (text, rest) = input.split_at(end);
+
+        Ok((rest, text))
     }
 
     fn end(input: &str) -> super::NomResult<&str, &str> {
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 348c63a..16c684b 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -90,6 +90,20 @@ pub(crate) fn attr_list(input: &str) -> NomResult<&str, &str> {
     .parse(input)
 }
 
+/**
+ * Position of the first `c` which isn’t escaped by a backslash.
+ */
+fn find_unescaped(input: &str, c: char) -> Option<usize> {
+    let mut escaped = false;
+
+    input.find(|x| {
+        let found = x == c && !escaped;
+        escaped = x == '\\' && !escaped;
+
+        found
+    })
+}
+
 fn value(input: &str) -> NomResult<&str, &str> {
     context("value", take_till(is_line_ending)).parse(input)
 }
diff --git a/src/properties/request_status.rs b/src/properties/request_status.rs
index 0db41bd..851e4de 100644
--- a/src/properties/request_status.rs
+++ b/src/properties/request_status.rs
@@ -34,11 +34,7 @@ impl std::str::FromStr for RequestStatus {
 
 impl crate::ser::Serialize for RequestStatus {
     fn ical(&self) -> crate::Result<String> {
-        let mut s = format!(
-            "{:.1};{}",
-            self.statcode,
-            crate::ser::escape(&self.statdesc)
-        );
+        let mut s = format!("{:?};{}", self.statcode, crate::ser::escape(&self.statdesc));
 
         if let Some(extdata) = &self.extdata {
             s.push(';');
-- 
2.43.0


From 0e3d6903c5f076059d7ede80ea04b0d759b3bb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 22/40] =?UTF-8?q?fix:=20don=E2=80=99t=20split=20a=20list?=
 =?UTF-8?q?=20of=20texts=20on=20an=20escaped=20comma?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/parser/descriptive.rs |  4 ++--
 src/parser/mod.rs         | 17 +++++++++++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/parser/descriptive.rs b/src/parser/descriptive.rs
index f8e884f..842844a 100644
--- a/src/parser/descriptive.rs
+++ b/src/parser/descriptive.rs
@@ -13,7 +13,7 @@ pub(crate) fn attach(input: crate::ContentLine) -> crate::Result<crate::Text> {
  * See [3.8.1.2. Categories](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.1.2)
  */
 pub(crate) fn categories(input: crate::ContentLine) -> crate::Result<Vec<crate::Text>> {
-    Ok(input.value.split(',').map(crate::Text::from).collect())
+    Ok(super::texts(&input.value))
 }
 
 /**
@@ -86,7 +86,7 @@ pub(crate) fn priority(input: crate::ContentLine) -> crate::Result<u8> {
  * See [3.8.1.10. Resources](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.1.10)
  */
 pub(crate) fn resources(input: crate::ContentLine) -> crate::Result<Vec<crate::Text>> {
-    Ok(input.value.split(',').map(crate::Text::from).collect())
+    Ok(super::texts(&input.value))
 }
 
 /**
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 16c684b..048a888 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -104,6 +104,23 @@ fn find_unescaped(input: &str, c: char) -> Option<usize> {
     })
 }
 
+/**
+ * Splits a list of texts, commas of the texts themselves are escaped.
+ */
+fn texts(input: &str) -> Vec<crate::Text> {
+    let mut texts = Vec::new();
+    let mut rest = input;
+
+    while let Some(end) = find_unescaped(rest, ',') {
+        texts.push(crate::Text::from(&rest[..end]));
+        rest = &rest[end + 1..];
+    }
+
+    texts.push(crate::Text::from(rest));
+
+    texts
+}
+
 fn value(input: &str) -> NomResult<&str, &str> {
     context("value", take_till(is_line_ending)).parse(input)
 }
-- 
2.43.0


From 1de7ea35376caef9defb7d4d8f816078b7f94f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 23/40] fix: keep the parameters of a list of texts

---
 src/parser/descriptive.rs |  4 ++--
 src/parser/mod.rs         | 12 ++++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/parser/descriptive.rs b/src/parser/descriptive.rs
index 842844a..553b645 100644
--- a/src/parser/descriptive.rs
+++ b/src/parser/descriptive.rs
@@ -13,7 +13,7 @@ pub(crate) fn attach(input: crate::ContentLine) -> crate::Result<crate::Text> {
  * See [3.8.1.2. Categories](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.1.2)
  */
 pub(crate) fn categories(input: crate::ContentLine) -> crate::Result<Vec<crate::Text>> {
-    Ok(super::texts(&input.value))
+    Ok(super::texts(&input))
 }
 
 /**
@@ -86,7 +86,7 @@ pub(crate) fn priority(input: crate::ContentLine) -> crate::Result<u8> {
  * See [3.8.1.10. Resources](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.1.10)
  */
 pub(crate) fn resources(input: crate::ContentLine) -> crate::Result<Vec<crate::Text>> {
-    Ok(super::texts(&input.value))
+    Ok(super::texts(&input))
 }
 
 /**
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 048a888..199174f 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -107,16 +107,20 @@ fn find_unescaped(input: &str, c: char) -> Option<usize> {
 /**
  * Splits a list of texts, commas of the texts themselves are escaped.
  */
-fn texts(input: &str) -> Vec<crate::Text> {
+fn texts(input: &crate::ContentLine) -> Vec<crate::Text> {
+    let text = |text: &str| crate::Text {
+        params: input.params.clone(),
+        text: text.to_string(),
+    };
     let mut texts = Vec::new();
-    let mut rest = input;
+    let mut rest = input.value.as_str();
 
     while let Some(end) = find_unescaped(rest, ',') {
-        texts.push(crate::Text::from(&rest[..end]));
+        texts.push(text(&rest[..end]));
         rest = &rest[end + 1..];
     }
 
-    texts.push(crate::Text::from(rest));
+    texts.push(text(rest));
 
     texts
 }
-- 
2.43.0


From 6624a3960aa0f973254cfb680ab761ee0feec0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 24/40] fix: unfold lines continued with a tabulation

---
 derive/src/component.rs  |  2 +-
 src/components/valarm.rs |  2 +-
 src/parser/mod.rs        | 21 +++++++++++++++++++++
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index efb5798..fc56c67 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -171,7 +171,7 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
             type Err = crate::Error;
 
             fn from_str(s: &str) -> Result<Self, Self::Err> {
-                crate::parser::#parser(&s.replace("\r\n ", ""))
+                crate::parser::#parser(&crate::parser::unfold(s))
                     .map_err(crate::Error::from)
                     .map(|(_, x)| x)
             }
diff --git a/src/components/valarm.rs b/src/components/valarm.rs
index e3e62d5..8f8ea34 100644
--- a/src/components/valarm.rs
+++ b/src/components/valarm.rs
@@ -49,7 +49,7 @@ impl std::str::FromStr for VAlarm {
     type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        crate::parser::valarm(&s.replace("\r\n ", ""))
+        crate::parser::valarm(&crate::parser::unfold(s))
             .map_err(crate::Error::from)
             .map(|(_, x)| x)
     }
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 199174f..ee4bb1e 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -33,6 +33,27 @@ use std::collections::BTreeMap;
 
 pub(crate) type NomResult<I, O> = nom::IResult<I, O, nom_language::error::VerboseError<I>>;
 
+/**
+ * Joins the folded lines.
+ *
+ * See [3.1. Content Lines](https://datatracker.ietf.org/doc/html/rfc5545#section-3.1)
+ */
+pub(crate) fn unfold(input: &str) -> String {
+    let mut lines = input.split("\r\n");
+    let mut unfolded = lines.next().unwrap_or_default().to_string();
+
+    for line in lines {
+        if let Some(continuation) = line.strip_prefix([' ', '\t']) {
+            unfolded.push_str(continuation);
+        } else {
+            unfolded.push_str("\r\n");
+            unfolded.push_str(line);
+        }
+    }
+
+    unfolded
+}
+
 fn is_alphabetic(chr: char) -> bool {
     nom::AsChar::is_alpha(chr)
 }
-- 
2.43.0


From ce5b7995e041ab860a4761d7d32a271016a8b229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 25/40] fix: reject values followed by unreadable characters

---
 src/parser/datatype.rs    |  6 +++---
 src/parser/descriptive.rs |  9 +++++----
 src/parser/recurrence.rs  |  4 ++--
 src/properties/recur.rs   | 10 ++++++++--
 4 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index 911d569..86043c8 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -5,7 +5,7 @@
 use nom::Parser as _;
 use nom::bytes::complete::tag;
 use nom::character::complete::one_of;
-use nom::combinator::{map, map_res, opt};
+use nom::combinator::{all_consuming, map, map_res, opt};
 use nom::error::{FromExternalError, context};
 use nom::sequence::{pair, preceded, terminated};
 
@@ -143,10 +143,10 @@ pub(crate) fn duration(input: &str) -> super::NomResult<&str, chrono::Duration>
     context(
         "duration",
         map_res(
-            pair(
+            all_consuming(pair(
                 opt(one_of("+-")),
                 preceded(tag("P"), (opt(week), opt(day), opt(time))),
-            ),
+            )),
             |(sign, parts)| {
                 let duration = sum(parts).ok_or_else(|| {
                     crate::Error::ParseDuration(format!("Duration too large: {input}"))
diff --git a/src/parser/descriptive.rs b/src/parser/descriptive.rs
index 553b645..fc4b37b 100644
--- a/src/parser/descriptive.rs
+++ b/src/parser/descriptive.rs
@@ -43,13 +43,14 @@ pub(crate) fn description(input: crate::ContentLine) -> crate::Result<crate::Tex
 pub(crate) fn geo(input: crate::ContentLine) -> crate::Result<crate::Geo> {
     use nom::Parser as _;
     use nom::character::complete::char;
-    use nom::combinator::map;
+    use nom::combinator::{all_consuming, map};
     use nom::number::complete::float;
     use nom::sequence::separated_pair;
 
-    map(separated_pair(float, char(';'), float), |(lat, lon)| {
-        crate::Geo { lat, lon }
-    })
+    map(
+        all_consuming(separated_pair(float, char(';'), float)),
+        |(lat, lon)| crate::Geo { lat, lon },
+    )
     .parse(input.value.as_str())
     .map_err(crate::Error::from)
     .map(|(_, x)| x)
diff --git a/src/parser/recurrence.rs b/src/parser/recurrence.rs
index d94e47d..7128762 100644
--- a/src/parser/recurrence.rs
+++ b/src/parser/recurrence.rs
@@ -49,7 +49,7 @@ pub(crate) fn rrule(input: crate::ContentLine) -> crate::Result<crate::Recur> {
     use nom::Parser as _;
     use nom::bytes::complete::take_till;
     use nom::character::complete::char;
-    use nom::combinator::{map_res, opt};
+    use nom::combinator::{all_consuming, map_res, opt};
     use nom::error::context;
     use nom::multi::many1;
     use nom::sequence::{separated_pair, terminated};
@@ -79,7 +79,7 @@ pub(crate) fn rrule(input: crate::ContentLine) -> crate::Result<crate::Recur> {
 
     context(
         "rrule",
-        map_res(many1(item), |items| {
+        map_res(all_consuming(many1(item)), |items| {
             let map = items
                 .iter()
                 .map(|(k, v)| ((*k).to_string(), v))
diff --git a/src/properties/recur.rs b/src/properties/recur.rs
index c57147f..b712f27 100644
--- a/src/properties/recur.rs
+++ b/src/properties/recur.rs
@@ -227,7 +227,10 @@ impl std::str::FromStr for WeekdayNum {
     type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        crate::parser::weekdaynum(s)
+        use nom::Parser as _;
+
+        nom::combinator::all_consuming(crate::parser::weekdaynum)
+            .parse(s)
             .map_err(crate::Error::from)
             .map(|(_, x)| x)
     }
@@ -276,7 +279,10 @@ impl std::str::FromStr for Weekday {
     type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        crate::parser::weekday(s)
+        use nom::Parser as _;
+
+        nom::combinator::all_consuming(crate::parser::weekday)
+            .parse(s)
             .map_err(crate::Error::from)
             .map(|(_, x)| x)
     }
-- 
2.43.0


From 259edb9d12dd5c55f7d4880b35266c9baf071961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 26/40] fix: reject dates and times with missing digits

---
 src/parser/datatype.rs | 51 +++++++++++++++++++++++++++++++-----------
 src/properties/date.rs | 10 ++++-----
 2 files changed, 43 insertions(+), 18 deletions(-)

diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index 86043c8..f88ba67 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -16,11 +16,34 @@ pub(crate) fn cal_address(input: &str) -> crate::Result<String> {
     uri(input)
 }
 
+fn is_number(input: &str, len: usize) -> bool {
+    input.len() == len && input.chars().all(super::is_digit)
+}
+
+pub(crate) fn naive_date(input: &str) -> crate::Result<chrono::NaiveDate> {
+    if is_number(input, 8) {
+        chrono::NaiveDate::parse_from_str(input, "%Y%m%d").map_err(crate::Error::from)
+    } else {
+        Err(crate::Error::Parser(format!("Invalid date: {input}")))
+    }
+}
+
+pub(crate) fn naive_date_time(input: &str) -> crate::Result<chrono::NaiveDateTime> {
+    if input
+        .split_once('T')
+        .is_some_and(|(date, time)| is_number(date, 8) && is_number(time, 6))
+    {
+        chrono::NaiveDateTime::parse_from_str(input, "%Y%m%dT%H%M%S").map_err(crate::Error::from)
+    } else {
+        Err(crate::Error::Parser(format!("Invalid date-time: {input}")))
+    }
+}
+
 /**
  * See [3.3.4. Date](https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.4)
  */
 pub(crate) fn date(input: &str) -> super::NomResult<&str, chrono::NaiveDate> {
-    let date = chrono::NaiveDate::parse_from_str(input, "%Y%m%d").map_err(|e| {
+    let date = naive_date(input).map_err(|e| {
         nom::Err::Error(nom_language::error::VerboseError::from_external_error(
             input,
             nom::error::ErrorKind::Fail,
@@ -35,18 +58,20 @@ pub(crate) fn date(input: &str) -> super::NomResult<&str, chrono::NaiveDate> {
  * See [3.3.5. Date-Time](https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.5)
  */
 pub(crate) fn date_time(input: &str) -> super::NomResult<&str, crate::DateTime> {
-    let date = input.to_string();
-
-    let dt = chrono::NaiveDateTime::parse_from_str(date.trim_end_matches('Z'), "%Y%m%dT%H%M%S")
-        .map_err(|e| {
-            nom::Err::Error(nom_language::error::VerboseError::from_external_error(
-                input,
-                nom::error::ErrorKind::Fail,
-                e,
-            ))
-        })?;
-
-    if date.ends_with('Z') {
+    let (date, utc) = match input.strip_suffix('Z') {
+        Some(date) => (date, true),
+        None => (input, false),
+    };
+
+    let dt = naive_date_time(date).map_err(|e| {
+        nom::Err::Error(nom_language::error::VerboseError::from_external_error(
+            input,
+            nom::error::ErrorKind::Fail,
+            e,
+        ))
+    })?;
+
+    if utc {
         Ok((
             "",
             crate::DateTime::Local(dt.and_utc().with_timezone(&chrono::Local)),
diff --git a/src/properties/date.rs b/src/properties/date.rs
index c15ee24..a2b97d2 100644
--- a/src/properties/date.rs
+++ b/src/properties/date.rs
@@ -111,16 +111,16 @@ impl std::str::FromStr for DateTime {
     type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        if let Ok(naive) = chrono::NaiveDateTime::parse_from_str(s, "%Y%m%dT%H%M%S") {
-            Ok(Self::Naive(naive))
-        } else {
-            let naive = chrono::NaiveDateTime::parse_from_str(s, "%Y%m%dT%H%M%SZ")?;
+        if let Some(s) = s.strip_suffix('Z') {
+            let naive = crate::parser::datatype::naive_date_time(s)?;
 
             naive
                 .and_local_timezone(chrono::Local)
                 .earliest()
                 .map(Self::Local)
                 .ok_or(crate::Error::Local(Self::Naive(naive)))
+        } else {
+            crate::parser::datatype::naive_date_time(s).map(Self::Naive)
         }
     }
 }
@@ -192,7 +192,7 @@ impl std::str::FromStr for Date {
     type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        if let Ok(date) = chrono::NaiveDate::parse_from_str(s, "%Y%m%d") {
+        if let Ok(date) = crate::parser::datatype::naive_date(s) {
             return Ok(Self::Date(date));
         }
 
-- 
2.43.0


From 6982f7cd840cecf2c9ac86999270f178c0fa70b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 27/40] fix: reject a percentage over 100

---
 src/parser/descriptive.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser/descriptive.rs b/src/parser/descriptive.rs
index fc4b37b..bfa7073 100644
--- a/src/parser/descriptive.rs
+++ b/src/parser/descriptive.rs
@@ -67,7 +67,15 @@ pub(crate) fn location(input: crate::ContentLine) -> crate::Result<crate::Text>
  * See [3.8.1.8. Percent Complete](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.1.8)
  */
 pub(crate) fn percent_complete(input: crate::ContentLine) -> crate::Result<u8> {
-    input.value.parse().map_err(crate::Error::from)
+    let percent = input.value.parse()?;
+
+    if percent > 100 {
+        Err(crate::Error::Parser(format!(
+            "Invalid percentage: {percent}"
+        )))
+    } else {
+        Ok(percent)
+    }
 }
 
 /**
-- 
2.43.0


From 450993a179ec4bb08b17d34feed676a1e7c82ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 28/40] =?UTF-8?q?fix:=20reject=20numbers=20that=20aren?=
 =?UTF-8?q?=E2=80=99t=20finite?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/parser/descriptive.rs |  3 +--
 src/parser/misc.rs        |  3 +--
 src/parser/mod.rs         | 10 +++++++++-
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/parser/descriptive.rs b/src/parser/descriptive.rs
index bfa7073..6b8a095 100644
--- a/src/parser/descriptive.rs
+++ b/src/parser/descriptive.rs
@@ -44,11 +44,10 @@ pub(crate) fn geo(input: crate::ContentLine) -> crate::Result<crate::Geo> {
     use nom::Parser as _;
     use nom::character::complete::char;
     use nom::combinator::{all_consuming, map};
-    use nom::number::complete::float;
     use nom::sequence::separated_pair;
 
     map(
-        all_consuming(separated_pair(float, char(';'), float)),
+        all_consuming(separated_pair(super::float, char(';'), super::float)),
         |(lat, lon)| crate::Geo { lat, lon },
     )
     .parse(input.value.as_str())
diff --git a/src/parser/misc.rs b/src/parser/misc.rs
index d453ab9..32bb3a3 100644
--- a/src/parser/misc.rs
+++ b/src/parser/misc.rs
@@ -11,7 +11,6 @@ pub(crate) fn rstatus(input: crate::ContentLine) -> crate::Result<crate::Request
     use nom::character::complete::char;
     use nom::combinator::{map, opt};
     use nom::error::context;
-    use nom::number::complete::float;
     use nom::sequence::preceded;
 
     fn text(input: &str) -> super::NomResult<&str, &str> {
@@ -29,7 +28,7 @@ pub(crate) fn rstatus(input: crate::ContentLine) -> crate::Result<crate::Request
         "rstatus",
         map(
             (
-                float,
+                super::float,
                 char(';'),
                 map(text, String::from),
                 opt(preceded(char(';'), map(end, String::from))),
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index ee4bb1e..330403a 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -25,7 +25,7 @@ pub(crate) use timezone::*;
 use nom::Parser as _;
 use nom::bytes::complete::{tag, take_till, take_while};
 use nom::character::complete::{anychar, char, line_ending, one_of};
-use nom::combinator::{map, map_res, not, opt, peek, recognize};
+use nom::combinator::{map, map_res, not, opt, peek, recognize, verify};
 use nom::error::context;
 use nom::multi::{count, fold_many0, separated_list1};
 use nom::sequence::{delimited, preceded, separated_pair, terminated};
@@ -78,6 +78,14 @@ fn digits(input: &str) -> NomResult<&str, &str> {
     context("digits", take_while(is_digit)).parse(input)
 }
 
+fn float(input: &str) -> NomResult<&str, f32> {
+    context(
+        "float",
+        verify(nom::number::complete::float, |x| x.is_finite()),
+    )
+    .parse(input)
+}
+
 fn key(input: &str) -> NomResult<&str, &str> {
     context("key", take_while(is_alphanumeric)).parse(input)
 }
-- 
2.43.0


From 900862f3c2b3cac7c958cbdf3d47666fdb26b5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 29/40] fix: reject UTC offsets followed by unreadable
 characters

---
 src/parser/timezone.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/parser/timezone.rs b/src/parser/timezone.rs
index 3a6ce6b..04e33ff 100644
--- a/src/parser/timezone.rs
+++ b/src/parser/timezone.rs
@@ -16,20 +16,35 @@ pub(crate) fn tzname(input: crate::ContentLine) -> crate::Result<crate::Text> {
     Ok(input.into())
 }
 
+/**
+ * See [3.3.14. UTC Offset](https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.14)
+ */
+fn utc_offset(input: &str) -> crate::Result<chrono::offset::FixedOffset> {
+    let is_valid = input
+        .strip_prefix(['+', '-'])
+        .is_some_and(|x| matches!(x.len(), 4 | 6) && x.chars().all(super::is_digit));
+
+    if is_valid {
+        input.parse().map_err(crate::Error::from)
+    } else {
+        Err(crate::Error::Parser(format!("Invalid UTC offset: {input}")))
+    }
+}
+
 /**
  * See [3.8.3.3. Time Zone Offset From](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.3.3)
  */
 pub(crate) fn tzoffsetfrom(
     input: crate::ContentLine,
 ) -> crate::Result<chrono::offset::FixedOffset> {
-    input.value.parse().map_err(crate::Error::from)
+    utc_offset(&input.value)
 }
 
 /**
  * See [3.8.3.4. Time Zone Offset To](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.3.4)
  */
 pub(crate) fn tzoffsetto(input: crate::ContentLine) -> crate::Result<chrono::offset::FixedOffset> {
-    input.value.parse().map_err(crate::Error::from)
+    utc_offset(&input.value)
 }
 
 /**
-- 
2.43.0


From d67bc2b352f0109592b01aa0b0f1604e977efe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 30/40] fix: compare and subtract instants across daylight
 saving changes

---
 src/properties/date.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/properties/date.rs b/src/properties/date.rs
index a2b97d2..90c36fa 100644
--- a/src/properties/date.rs
+++ b/src/properties/date.rs
@@ -86,7 +86,10 @@ impl std::ops::Sub for DateTime {
     type Output = chrono::Duration;
 
     fn sub(self, rhs: Self) -> Self::Output {
-        self.naive().sub(rhs.naive())
+        match (self, rhs) {
+            (Self::Local(a), Self::Local(b)) => a - b,
+            _ => self.naive().sub(rhs.naive()),
+        }
     }
 }
 
@@ -133,7 +136,10 @@ impl std::cmp::PartialOrd for DateTime {
 
 impl std::cmp::Ord for DateTime {
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-        self.naive().cmp(&other.naive())
+        match (self, other) {
+            (Self::Local(a), Self::Local(b)) => a.cmp(b),
+            _ => self.naive().cmp(&other.naive()),
+        }
     }
 }
 
-- 
2.43.0


From f195633aa2f86cc6de8a340e9c196512ec84c783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 31/40] =?UTF-8?q?fix:=20skip=20the=20days=20that=20a=20mon?=
 =?UTF-8?q?th=20or=20a=20year=20doesn=E2=80=99t=20have=20in=20a=20recurren?=
 =?UTF-8?q?ce?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/iter.rs             |   4 +-
 src/properties/recur.rs | 139 ++++++++++++++++++++++++++++------------
 2 files changed, 99 insertions(+), 44 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index 89c08c9..fc03767 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -147,11 +147,11 @@ impl<T: Recurring> Iterator for Recur<T> {
                 }
             }
 
-            let dtstart = rrule.clone() + *dtstart;
+            let dtstart = rrule.next(*dtstart)?;
             next.set_dtstart(dtstart);
 
             if let Some(dtend) = next.dtend() {
-                let dtend = rrule.clone() + *dtend;
+                let dtend = rrule.next(*dtend)?;
                 next.set_dtend(dtend);
             }
 
diff --git a/src/properties/recur.rs b/src/properties/recur.rs
index b712f27..f6447ef 100644
--- a/src/properties/recur.rs
+++ b/src/properties/recur.rs
@@ -54,37 +54,112 @@ impl std::str::FromStr for Recur {
     }
 }
 
+impl Recur {
+    fn interval(&self) -> u8 {
+        self.interval.max(1)
+    }
+
+    /**
+     * Time between two occurrences, if it’s always the same.
+     */
+    fn delta(&self) -> Option<chrono::TimeDelta> {
+        let interval = self.interval().into();
+
+        match self.freq {
+            Freq::Secondly => chrono::TimeDelta::try_seconds(interval),
+            Freq::Minutely => chrono::TimeDelta::try_minutes(interval),
+            Freq::Hourly => chrono::TimeDelta::try_hours(interval),
+            Freq::Daily => chrono::TimeDelta::try_days(interval),
+            Freq::Weekly => chrono::TimeDelta::try_weeks(interval),
+            Freq::Monthly | Freq::Yearly => None,
+        }
+    }
+
+    /**
+     * Same day of the following months or years, those that don’t have this day are skipped.
+     */
+    fn days(&self, date: chrono::NaiveDate) -> impl Iterator<Item = chrono::NaiveDate> {
+        let months = match self.freq {
+            Freq::Yearly => 12 * u32::from(self.interval()),
+            _ => u32::from(self.interval()),
+        };
+
+        (1..)
+            .map_while(move |x| {
+                date.with_day(1)?
+                    .checked_add_months(chrono::Months::new(months.checked_mul(x)?))
+            })
+            .filter_map(move |month| month.with_day(date.day()))
+    }
+
+    fn next_date(&self, date: chrono::NaiveDate) -> Option<chrono::NaiveDate> {
+        match self.delta() {
+            Some(delta) => date.checked_add_signed(delta),
+            None => self.days(date).next(),
+        }
+    }
+
+    fn next_naive(&self, date: chrono::NaiveDateTime) -> Option<chrono::NaiveDateTime> {
+        match self.delta() {
+            Some(delta) => date.checked_add_signed(delta),
+            None => self
+                .days(date.date())
+                .next()
+                .map(|x| x.and_time(date.time())),
+        }
+    }
+
+    fn next_local(
+        &self,
+        date: chrono::DateTime<chrono::Local>,
+    ) -> Option<chrono::DateTime<chrono::Local>> {
+        let next = match self.delta() {
+            Some(delta) => date.checked_add_signed(delta),
+            None => self.days(date.date_naive()).find_map(|x| {
+                x.and_time(date.time())
+                    .and_local_timezone(chrono::Local)
+                    .earliest()
+            }),
+        }?;
+
+        // Its local time should be representable too.
+        next.naive_utc()
+            .checked_add_signed(chrono::TimeDelta::days(1))
+            .map(|_| next)
+    }
+
+    /**
+     * Start of the occurrence that follows the one that starts at `date`.
+     */
+    pub(crate) fn next(&self, date: crate::Date) -> Option<crate::Date> {
+        let next = match date {
+            crate::Date::Date(date) if self.freq >= Freq::Daily => self.next_date(date)?.into(),
+            crate::Date::Date(date) => self.next_naive(date.and_hms_opt(0, 0, 0)?)?.into(),
+            crate::Date::DateTime(crate::DateTime::Naive(date)) => self.next_naive(date)?.into(),
+            crate::Date::DateTime(crate::DateTime::Local(date)) => self.next_local(date)?.into(),
+        };
+
+        Some(next)
+    }
+}
+
 impl std::ops::Add<crate::Date> for crate::Recur {
     type Output = crate::Date;
 
     fn add(self, rhs: crate::Date) -> Self::Output {
-        match rhs {
-            crate::Date::Date(date) => {
-                if self.freq >= Freq::Daily {
-                    crate::Date::Date(self + date)
-                } else {
-                    crate::DateTime::Naive(self + date.and_hms_opt(0, 0, 0).unwrap()).into()
-                }
-            }
-            crate::Date::DateTime(dt) => (self + dt).into(),
-        }
+        self.next(rhs).expect("occurrence out of range")
     }
 }
+
 impl std::ops::Add<chrono::NaiveDate> for crate::Recur {
     type Output = chrono::NaiveDate;
 
     fn add(self, rhs: chrono::NaiveDate) -> Self::Output {
-        let interval = match self.freq {
-            Freq::Secondly => return rhs,
-            Freq::Minutely => return rhs,
-            Freq::Hourly => return rhs,
-            Freq::Daily => chrono::TimeDelta::days(self.interval.into()),
-            Freq::Weekly => chrono::TimeDelta::weeks(self.interval.into()),
-            Freq::Monthly => return rhs + chrono::Months::new(self.interval.into()),
-            Freq::Yearly => return rhs.with_year(rhs.year() + self.interval as i32).unwrap(),
-        };
+        if self.freq < Freq::Daily {
+            return rhs;
+        }
 
-        rhs + interval
+        self.next_date(rhs).expect("occurrence out of range")
     }
 }
 
@@ -103,17 +178,7 @@ impl std::ops::Add<chrono::DateTime<chrono::Local>> for crate::Recur {
     type Output = chrono::DateTime<chrono::Local>;
 
     fn add(self, rhs: chrono::DateTime<chrono::Local>) -> Self::Output {
-        let interval = match self.freq {
-            Freq::Secondly => chrono::TimeDelta::seconds(self.interval.into()),
-            Freq::Minutely => chrono::TimeDelta::minutes(self.interval.into()),
-            Freq::Hourly => chrono::TimeDelta::hours(self.interval.into()),
-            Freq::Daily => chrono::TimeDelta::days(self.interval.into()),
-            Freq::Weekly => chrono::TimeDelta::weeks(self.interval.into()),
-            Freq::Monthly => return rhs + chrono::Months::new(self.interval.into()),
-            Freq::Yearly => return rhs.with_year(rhs.year() + self.interval as i32).unwrap(),
-        };
-
-        rhs + interval
+        self.next_local(rhs).expect("occurrence out of range")
     }
 }
 
@@ -121,17 +186,7 @@ impl std::ops::Add<chrono::NaiveDateTime> for crate::Recur {
     type Output = chrono::NaiveDateTime;
 
     fn add(self, rhs: chrono::NaiveDateTime) -> Self::Output {
-        let interval = match self.freq {
-            Freq::Secondly => chrono::TimeDelta::seconds(self.interval.into()),
-            Freq::Minutely => chrono::TimeDelta::minutes(self.interval.into()),
-            Freq::Hourly => chrono::TimeDelta::hours(self.interval.into()),
-            Freq::Daily => chrono::TimeDelta::days(self.interval.into()),
-            Freq::Weekly => chrono::TimeDelta::weeks(self.interval.into()),
-            Freq::Monthly => return rhs + chrono::Months::new(self.interval.into()),
-            Freq::Yearly => return rhs.with_year(rhs.year() + self.interval as i32).unwrap(),
-        };
-
-        rhs + interval
+        self.next_naive(rhs).expect("occurrence out of range")
     }
 }
 
-- 
2.43.0


From 50df055702feb113992e43f9c861bc645f817f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 32/40] fix: apply the count, the end and the exceptions of a
 recurrence to each occurrence

---
 src/iter.rs | 58 ++++++++++++++++++++++++++---------------------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index fc03767..f4a390d 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -106,12 +106,14 @@ impl Recurring for crate::VTodo {
 }
 
 pub struct Recur<T: Recurring> {
-    item: T,
+    item: Option<T>,
 }
 
 impl<T: Recurring> Recur<T> {
     pub(crate) fn from(item: &T) -> Self {
-        Self { item: item.clone() }
+        Self {
+            item: Some(item.clone()),
+        }
     }
 
     pub fn between<D: Into<crate::Date> + Copy>(self, start: D, end: D) -> impl Iterator<Item = T> {
@@ -133,46 +135,42 @@ impl<T: Recurring> Iterator for Recur<T> {
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let current = self.item.clone();
-
-        let mut next = self.item.clone();
-
         loop {
-            let dtstart = next.dtstart()?;
-            let mut rrule = next.rrule()?.clone();
-
-            if let Some(until) = &rrule.until {
-                if dtstart.date_naive() > until.date_naive() {
-                    return None;
-                }
-            }
-
-            let dtstart = rrule.next(*dtstart)?;
-            next.set_dtstart(dtstart);
-
-            if let Some(dtend) = next.dtend() {
-                let dtend = rrule.next(*dtend)?;
-                next.set_dtend(dtend);
-            }
+            let current = self.item.take()?;
+            let dtstart = *current.dtstart()?;
+            let mut rrule = current.rrule()?.clone();
 
-            next.set_rrule(rrule.clone());
-
-            if next.exdate().contains(&dtstart) {
-                continue;
+            if rrule.until.as_ref().is_some_and(|until| dtstart > *until) {
+                return None;
             }
 
             if let Some(count) = rrule.count.as_mut() {
                 *count = count.checked_sub(1)?;
-                next.set_rrule(rrule.clone());
             }
 
-            break;
+            self.item = following(&current, rrule);
+
+            if !current.exdate().contains(&dtstart) {
+                return Some(current);
+            }
         }
+    }
+}
+
+fn following<T: Recurring>(item: &T, rrule: crate::Recur) -> Option<T> {
+    let dtstart = rrule.next(*item.dtstart()?)?;
+    let mut next = item.clone();
 
-        self.item = next;
+    next.set_dtstart(dtstart);
 
-        Some(current)
+    if let Some(dtend) = next.dtend() {
+        let dtend = rrule.next(*dtend)?;
+        next.set_dtend(dtend);
     }
+
+    next.set_rrule(rrule);
+
+    Some(next)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 2a4f92001695a66d1a7e3a16c3e2d60ac2e24afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 33/40] fix: keep the length of each occurrence of a recurrence

---
 src/iter.rs | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index f4a390d..cfa276e 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -158,14 +158,18 @@ impl<T: Recurring> Iterator for Recur<T> {
 }
 
 fn following<T: Recurring>(item: &T, rrule: crate::Recur) -> Option<T> {
-    let dtstart = rrule.next(*item.dtstart()?)?;
+    let old = *item.dtstart()?;
+    let new = rrule.next(old)?;
     let mut next = item.clone();
 
-    next.set_dtstart(dtstart);
+    next.set_dtstart(new);
 
-    if let Some(dtend) = next.dtend() {
-        let dtend = rrule.next(*dtend)?;
-        next.set_dtend(dtend);
+    if let Some(dtend) = item.dtend() {
+        next.set_dtend(shift(*dtend, old, new)?);
+    }
+
+    if let Some(due) = item.due() {
+        next.set_due(shift(*due, old, new)?);
     }
 
     next.set_rrule(rrule);
@@ -173,6 +177,29 @@ fn following<T: Recurring>(item: &T, rrule: crate::Recur) -> Option<T> {
     Some(next)
 }
 
+/**
+ * Moves `end` as much as `old` is moved to be `new`.
+ */
+fn shift(end: crate::Date, old: crate::Date, new: crate::Date) -> Option<crate::Date> {
+    let has_time = new.has_time() && !old.has_time();
+    let (old, new) = (crate::DateTime::from(old), crate::DateTime::from(new));
+    let delta = new.naive() - old.naive();
+
+    match end {
+        crate::Date::Date(end) if !has_time => end.checked_add_signed(delta).map(Into::into),
+        crate::Date::Date(end) => end
+            .and_hms_opt(0, 0, 0)?
+            .checked_add_signed(delta)
+            .map(Into::into),
+        crate::Date::DateTime(crate::DateTime::Naive(end)) => {
+            end.checked_add_signed(delta).map(Into::into)
+        }
+        crate::Date::DateTime(crate::DateTime::Local(end)) => {
+            end.checked_add_signed(new - old).map(Into::into)
+        }
+    }
+}
+
 #[cfg(test)]
 mod test {
     #[test]
-- 
2.43.0


From feab7da588d62b18526c510fedf78899e6d43e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 34/40] fix: build every field of a calendar and of a free/busy
 with the macros

---
 derive/src/macros.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/derive/src/macros.rs b/derive/src/macros.rs
index 327d4c6..3840e62 100644
--- a/derive/src/macros.rs
+++ b/derive/src/macros.rs
@@ -209,10 +209,14 @@ impl quote::ToTokens for TypedValue {
                     (_, "alarms") => "VAlarm".to_string(),
                     (_, "daylight") => "vtimezone::Daylight".to_string(),
                     (_, "events") => "VEvent".to_string(),
+                    (_, "freebusy") => "VFreebusy".to_string(),
                     (_, "geo") => "Geo".to_string(),
+                    (_, "journals") => "VJournal".to_string(),
                     (_, "rrule") => "Recur".to_string(),
                     (_, "rstatus") => "RequestStatus".to_string(),
                     (_, "standard") => "vtimezone::Standard".to_string(),
+                    (_, "timezones") => "VTimezone".to_string(),
+                    (_, "todo") => "VTodo".to_string(),
                     (ty, field) => todo!("{ty}.{field}"),
                 };
 
@@ -237,7 +241,8 @@ impl Type {
             || (ty == "VTodo" && field == "dtstart")
             || matches!(
                 field,
-                "class"
+                "calscale"
+                    | "class"
                     | "completed"
                     | "created"
                     | "dtend"
@@ -247,6 +252,7 @@ impl Type {
                     | "geo"
                     | "last_modified"
                     | "location"
+                    | "method"
                     | "organizer"
                     | "priority"
                     | "recurid"
@@ -272,6 +278,7 @@ impl Type {
                 | "duration"
                 | "created"
                 | "due"
+                | "freebusy"
                 | "last_modified"
                 | "dtend"
                 | "tzoffsetfrom"
-- 
2.43.0


From 5bdee1a3e84f0800b75fda0c19032b9ff122f52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 35/40] fix: reject a line without name

---
 src/parser/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 330403a..fac4a5c 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -23,7 +23,7 @@ pub(crate) use relationship::*;
 pub(crate) use timezone::*;
 
 use nom::Parser as _;
-use nom::bytes::complete::{tag, take_till, take_while};
+use nom::bytes::complete::{tag, take_till, take_while, take_while1};
 use nom::character::complete::{anychar, char, line_ending, one_of};
 use nom::combinator::{map, map_res, not, opt, peek, recognize, verify};
 use nom::error::context;
@@ -87,7 +87,7 @@ fn float(input: &str) -> NomResult<&str, f32> {
 }
 
 fn key(input: &str) -> NomResult<&str, &str> {
-    context("key", take_while(is_alphanumeric)).parse(input)
+    context("key", take_while1(is_alphanumeric)).parse(input)
 }
 
 fn attr(input: &str) -> NomResult<&str, &str> {
-- 
2.43.0


From 1234430859cae22e6580112357b84ee481771133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:27 +0000
Subject: [PATCH 36/40] fix: write the extension properties of a component
 before its components

---
 derive/src/component.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index fc56c67..ef389a4 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -41,6 +41,7 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
     let mut new_body = Vec::new();
     let mut from_body = Vec::new();
     let mut ser_body = Vec::new();
+    let mut ser_components = Vec::new();
 
     for field in fields {
         let name = &field.ident;
@@ -84,7 +85,12 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
             }
         };
 
-        ser_body.push(ser_part);
+        // Properties, the extension ones included, come before the nested components
+        if field_params.ignore && crate::is_vec(ty) {
+            ser_components.push(ser_part);
+        } else {
+            ser_body.push(ser_part);
+        }
 
         if field_params.ignore {
             continue;
@@ -191,6 +197,7 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
                 s.push_str(&name);
                 s.push_str("\r\n");
                 #(#ser_body)*
+                #(#ser_components)*
                 s.push_str("END:");
                 s.push_str(&name);
                 s.push_str("\r\n");
-- 
2.43.0


From 46d2774c6cbefb7e1d9926e26550b558d21562ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:25 +0000
Subject: [PATCH 37/40] fix: read the properties of a time zone wherever they
 are among its components

---
 src/components/vtimezone.rs |  1 +
 src/parser/components.rs    | 31 ++++++++++++++++---------------
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/components/vtimezone.rs b/src/components/vtimezone.rs
index df1fefc..c5809cd 100644
--- a/src/components/vtimezone.rs
+++ b/src/components/vtimezone.rs
@@ -27,6 +27,7 @@ impl VTimezone {
 
 #[derive(Clone, Debug, Eq, PartialEq)]
 pub(crate) enum Component {
+    Property(crate::ContentLine),
     Standard(Standard),
     Daylight(Daylight),
 }
diff --git a/src/parser/components.rs b/src/parser/components.rs
index a5a45ca..741245f 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -73,29 +73,30 @@ pub(crate) fn vtimezone(input: &str) -> super::NomResult<&str, crate::VTimezone>
         map_res(
             delimited(
                 tag("BEGIN:VTIMEZONE\r\n"),
-                (
-                    super::content_lines,
-                    many0(alt((
-                        map(standard, crate::vtimezone::Component::Standard),
-                        map(daylight, crate::vtimezone::Component::Daylight),
-                    ))),
-                ),
+                many0(alt((
+                    map(super::content_line, crate::vtimezone::Component::Property),
+                    map(standard, crate::vtimezone::Component::Standard),
+                    map(daylight, crate::vtimezone::Component::Daylight),
+                ))),
                 tag("END:VTIMEZONE\r\n"),
             ),
-            |(values, components)| {
-                let mut vtimezone: crate::VTimezone = values.try_into()?;
+            |components| {
+                let mut values = Vec::new();
+                let mut standards = Vec::new();
+                let mut daylights = Vec::new();
 
                 for component in components {
                     match component {
-                        crate::vtimezone::Component::Standard(standard) => {
-                            vtimezone.standard.push(standard);
-                        }
-                        crate::vtimezone::Component::Daylight(daylight) => {
-                            vtimezone.daylight.push(daylight);
-                        }
+                        crate::vtimezone::Component::Property(property) => values.push(property),
+                        crate::vtimezone::Component::Standard(standard) => standards.push(standard),
+                        crate::vtimezone::Component::Daylight(daylight) => daylights.push(daylight),
                     }
                 }
 
+                let mut vtimezone: crate::VTimezone = values.try_into()?;
+                vtimezone.standard = standards;
+                vtimezone.daylight = daylights;
+
                 Ok::<_, crate::Error>(vtimezone)
             },
         ),
-- 
2.43.0


From bc740c56391cf0501d1d220c162fc11d948bb65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:43 +0000
Subject: [PATCH 38/40] fix: build the free/busys of a calendar from values
 with the macros

---
 derive/src/macros.rs | 45 ++++++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/derive/src/macros.rs b/derive/src/macros.rs
index 3840e62..0591d20 100644
--- a/derive/src/macros.rs
+++ b/derive/src/macros.rs
@@ -269,28 +269,29 @@ impl Type {
         !matches!(field, "lat" | "lon" | "sequence")
     }
 
-    fn should_parsed(_ty: &str, field: &str) -> bool {
-        matches!(
-            field,
-            "completed"
-                | "dtstamp"
-                | "dtstart"
-                | "duration"
-                | "created"
-                | "due"
-                | "freebusy"
-                | "last_modified"
-                | "dtend"
-                | "tzoffsetfrom"
-                | "tzoffsetto"
-                | "trigger"
-                | "geo"
-                | "rrule"
-                | "rstatus"
-                | "rdate"
-                | "exdate"
-                | "recurid"
-        )
+    fn should_parsed(ty: &str, field: &str) -> bool {
+        // in a calendar, these are components
+        (ty == "VFreebusy" && field == "freebusy")
+            || matches!(
+                field,
+                "completed"
+                    | "dtstamp"
+                    | "dtstart"
+                    | "duration"
+                    | "created"
+                    | "due"
+                    | "last_modified"
+                    | "dtend"
+                    | "tzoffsetfrom"
+                    | "tzoffsetto"
+                    | "trigger"
+                    | "geo"
+                    | "rrule"
+                    | "rstatus"
+                    | "rdate"
+                    | "exdate"
+                    | "recurid"
+            )
     }
 
     fn r#enum(_ty: &str, field: &str) -> Option<proc_macro2::TokenStream> {
-- 
2.43.0


From 9d7a8492e59a46772307c6b557d87f6ec89b1569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:07 +0000
Subject: [PATCH 39/40] fix: compare periods with a duration by their length,
 as other periods

---
 src/properties/period.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/properties/period.rs b/src/properties/period.rs
index e361c76..c70b9d5 100644
--- a/src/properties/period.rs
+++ b/src/properties/period.rs
@@ -109,10 +109,7 @@ impl std::cmp::PartialOrd for StartDur {
 
 impl std::cmp::Ord for StartDur {
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-        let a = self.start - self.duration;
-        let b = other.start - other.duration;
-
-        a.cmp(&b)
+        self.duration.cmp(&other.duration)
     }
 }
 
-- 
2.43.0


From 155dc8984fcdedb09b1079d358675a7ebedd083d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:27 +0000
Subject: [PATCH 40/40] fix: occurrences at a date next to the end of
 representable time

---
 src/iter.rs            |  5 ++++-
 src/properties/date.rs | 12 ++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/iter.rs b/src/iter.rs
index cfa276e..59aa2e0 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -123,7 +123,10 @@ impl<T: Recurring> Recur<T> {
 
     pub fn at<D: Into<crate::Date> + Copy>(self, date: D) -> impl Iterator<Item = T> {
         let delta = chrono::TimeDelta::days(1);
-        self.between(date.into(), date.into() + delta)
+        let end = date.into().checked_add_signed(delta);
+
+        self.after(date)
+            .take_while(move |x| end.is_none_or(|end| x.dtstart().unwrap() < &end))
     }
 
     pub fn after<D: Into<crate::Date> + Copy>(self, date: D) -> impl Iterator<Item = T> {
diff --git a/src/properties/date.rs b/src/properties/date.rs
index 90c36fa..eb9f4ae 100644
--- a/src/properties/date.rs
+++ b/src/properties/date.rs
@@ -186,6 +186,18 @@ impl Date {
     pub fn has_time(&self) -> bool {
         matches!(self, Self::DateTime(_))
     }
+
+    pub(crate) fn checked_add_signed(self, rhs: chrono::TimeDelta) -> Option<Self> {
+        match self {
+            Self::Date(date) => date.checked_add_signed(rhs).map(Into::into),
+            Self::DateTime(DateTime::Naive(date)) => date.checked_add_signed(rhs).map(Into::into),
+            Self::DateTime(DateTime::Local(date)) => {
+                // Its local time should be representable too.
+                date.naive_local().checked_add_signed(rhs)?;
+                date.checked_add_signed(rhs).map(Into::into)
+            }
+        }
+    }
 }
 
 impl Default for Date {
-- 
2.43.0

