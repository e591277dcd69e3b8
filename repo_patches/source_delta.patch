From 3804bfb934f2cf2ae152e02b3f80dad9ee6b2ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 01/29] fix: a line overrides a space pending before it

Like a push, a line operation now drops spacing right before it, so a
leading space no longer survives in front of the following token.
---
 src/tokens/tokens.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokens/tokens.rs b/src/tokens/tokens.rs
index 3e5f81e..5371847 100644
--- a/src/tokens/tokens.rs
+++ b/src/tokens/tokens.rs
@@ -395,7 +395,7 @@ where
     pub fn line(&mut self) {
         let item = loop {
             match self.items.pop() {
-                Some(Item::Line) | Some(Item::Push) => continue,
+                Some(Item::Line | Item::Push | Item::Space) => continue,
                 item => break item,
             }
         };
-- 
2.43.0


From e09c4abb9070b255bab00e91d5494567dddd627b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 02/29] fix: pending spaces never outlive a line break or
 multiply

---
 src/fmt/formatter.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index 922ba69..c193188 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -109,28 +109,28 @@ impl<'a> Formatter<'a> {
     }
 
     fn push(&mut self) {
+        self.spaces = 0;
+
         self.line = match self.line {
             Whitespace::Initial => return,
             Whitespace::Line => return,
             _ => Whitespace::Push,
         };
-
-        self.spaces = 0;
     }
 
     /// Push a new line.
     fn line(&mut self) {
+        self.spaces = 0;
+
         self.line = match self.line {
             Whitespace::Initial => return,
             _ => Whitespace::Line,
         };
-
-        self.spaces = 0;
     }
 
     /// Push a space.
     fn space(&mut self) {
-        self.spaces += 1;
+        self.spaces = 1;
     }
 
     /// Increase indentation level.
-- 
2.43.0


From ea376c67c9dad27aba8636a8f132cebe5ca02ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 03/29] fix: an indentation change of zero has no effect

---
 src/tokens/tokens.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tokens/tokens.rs b/src/tokens/tokens.rs
index 5371847..672bea0 100644
--- a/src/tokens/tokens.rs
+++ b/src/tokens/tokens.rs
@@ -643,6 +643,11 @@ where
 
     /// Internal function to modify the indentation of the token stream.
     fn indentation(&mut self, mut n: i16) {
+        // NB: an indentation of 0 has no effect.
+        if n == 0 {
+            return;
+        }
+
         let item = loop {
             // flush all whitespace preceeding the indentation change.
             match self.items.pop() {
-- 
2.43.0


From abb8d5d2257fb67af063e0bb2375cde584f525d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 04/29] fix: escape backspace, form feed and vertical tab as
 the characters they are

---
 src/lang/dart/mod.rs | 4 ++--
 src/lang/java/mod.rs | 4 ++--
 src/lang/js.rs       | 4 ++--
 src/lang/mod.rs      | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lang/dart/mod.rs b/src/lang/dart/mod.rs
index 077f932..cf2d765 100644
--- a/src/lang/dart/mod.rs
+++ b/src/lang/dart/mod.rs
@@ -100,7 +100,7 @@ impl_lang! {
                     // backspace
                     '\u{0008}' => out.write_str("\\b")?,
                     // form feed
-                    '\u{0012}' => out.write_str("\\f")?,
+                    '\u{000c}' => out.write_str("\\f")?,
                     // new line
                     '\n' => out.write_str("\\n")?,
                     // carriage return
@@ -108,7 +108,7 @@ impl_lang! {
                     // horizontal tab
                     '\t' => out.write_str("\\t")?,
                     // vertical tab
-                    '\u{0011}' => out.write_str("\\v")?,
+                    '\u{000b}' => out.write_str("\\v")?,
                     // Note: only relevant if we were to use single-quoted strings.
                     // '\'' => out.write_str("\\'")?,
                     '"' => out.write_str("\\\"")?,
diff --git a/src/lang/java/mod.rs b/src/lang/java/mod.rs
index 265bee9..a4e195a 100644
--- a/src/lang/java/mod.rs
+++ b/src/lang/java/mod.rs
@@ -44,10 +44,10 @@ impl_lang! {
             for c in input.chars() {
                 match c {
                     '\t' => out.write_str("\\t")?,
-                    '\u{0007}' => out.write_str("\\b")?,
+                    '\u{0008}' => out.write_str("\\b")?,
                     '\n' => out.write_str("\\n")?,
                     '\r' => out.write_str("\\r")?,
-                    '\u{0014}' => out.write_str("\\f")?,
+                    '\u{000c}' => out.write_str("\\f")?,
                     '\'' => out.write_str("\\'")?,
                     '"' => out.write_str("\\\"")?,
                     '\\' => out.write_str("\\\\")?,
diff --git a/src/lang/js.rs b/src/lang/js.rs
index 6d129e4..182a5ca 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -129,7 +129,7 @@ impl_lang! {
                     // backspace
                     '\u{0008}' => out.write_str("\\b")?,
                     // form feed
-                    '\u{0012}' => out.write_str("\\f")?,
+                    '\u{000c}' => out.write_str("\\f")?,
                     // new line
                     '\n' => out.write_str("\\n")?,
                     // carriage return
@@ -137,7 +137,7 @@ impl_lang! {
                     // horizontal tab
                     '\t' => out.write_str("\\t")?,
                     // vertical tab
-                    '\u{0011}' => out.write_str("\\v")?,
+                    '\u{000b}' => out.write_str("\\v")?,
                     // null character.
                     '\0' => out.write_str("\\0")?,
                     // Note: only relevant if we were to use single-quoted strings.
diff --git a/src/lang/mod.rs b/src/lang/mod.rs
index 85d2852..88c80aa 100644
--- a/src/lang/mod.rs
+++ b/src/lang/mod.rs
@@ -187,7 +187,7 @@ pub fn c_family_write_quoted(out: &mut fmt::Formatter, input: &str) -> fmt::Resu
             // backspace
             '\u{0008}' => out.write_str("\\b")?,
             // form feed
-            '\u{0012}' => out.write_str("\\f")?,
+            '\u{000c}' => out.write_str("\\f")?,
             // new line
             '\n' => out.write_str("\\n")?,
             // carriage return
@@ -195,7 +195,7 @@ pub fn c_family_write_quoted(out: &mut fmt::Formatter, input: &str) -> fmt::Resu
             // horizontal tab
             '\t' => out.write_str("\\t")?,
             // vertical tab
-            '\u{0011}' => out.write_str("\\v")?,
+            '\u{000b}' => out.write_str("\\v")?,
             '\'' => out.write_str("\\'")?,
             '"' => out.write_str("\\\"")?,
             '\\' => out.write_str("\\\\")?,
-- 
2.43.0


From 598278923b8fc28ff09e93156f85d4f5a7fec0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 05/29] fix: do not escape single quotes in double-quoted C
 family strings

---
 src/lang/mod.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lang/mod.rs b/src/lang/mod.rs
index 88c80aa..5096cb6 100644
--- a/src/lang/mod.rs
+++ b/src/lang/mod.rs
@@ -196,7 +196,6 @@ pub fn c_family_write_quoted(out: &mut fmt::Formatter, input: &str) -> fmt::Resu
             '\t' => out.write_str("\\t")?,
             // vertical tab
             '\u{000b}' => out.write_str("\\v")?,
-            '\'' => out.write_str("\\'")?,
             '"' => out.write_str("\\\"")?,
             '\\' => out.write_str("\\\\")?,
             ' ' => out.write_char(' ')?,
-- 
2.43.0


From b648a719a5a6a36d11ab44ac76b971262b229cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 06/29] fix: control character escapes in C and C# strings
 can't swallow what follows

---
 src/lang/c.rs          | 11 ++++++++++-
 src/lang/csharp/mod.rs |  9 ++++++++-
 src/lang/mod.rs        | 32 ++++++++++++++++++++++++--------
 3 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/src/lang/c.rs b/src/lang/c.rs
index 15e0b7d..d12e80f 100644
--- a/src/lang/c.rs
+++ b/src/lang/c.rs
@@ -20,7 +20,16 @@ impl_lang! {
         type Item = Import;
 
         fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
-            super::c_family_write_quoted(out, input)
+            // NB: hexadecimal escapes have no maximum length and universal
+            // character names can't be used for control characters, so use octal
+            // escapes which are at most three digits.
+            super::c_family_write_quoted_with(out, input, |out, c, _| {
+                for b in c.encode_utf8(&mut [0; 4]).bytes() {
+                    write!(out, "\\{:03o}", b)?;
+                }
+
+                Ok(())
+            })
         }
 
         fn format_file(
diff --git a/src/lang/csharp/mod.rs b/src/lang/csharp/mod.rs
index 5606b3a..121d295 100644
--- a/src/lang/csharp/mod.rs
+++ b/src/lang/csharp/mod.rs
@@ -45,7 +45,14 @@ impl_lang! {
 
         fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
             // From: https://csharpindepth.com/articles/Strings
-            super::c_family_write_quoted(out, input)
+            // NB: `\x` takes up to four digits, so it can only be used when what
+            // follows is known not to be one.
+            super::c_family_write_quoted_with(out, input, |out, c, next| match next {
+                Some(next) if c.is_ascii() && !next.is_ascii_hexdigit() => {
+                    write!(out, "\\x{:02x}", c as u32)
+                }
+                _ => write!(out, "\\u{:04x}", c as u32),
+            })
         }
 
         fn format_file(
diff --git a/src/lang/mod.rs b/src/lang/mod.rs
index 5096cb6..1824228 100644
--- a/src/lang/mod.rs
+++ b/src/lang/mod.rs
@@ -180,7 +180,28 @@ where
 /// This is one of the more common escape sequences and is provided here so you
 /// can use it if a language you've implemented requires it.
 pub fn c_family_write_quoted(out: &mut fmt::Formatter, input: &str) -> fmt::Result {
-    for c in input.chars() {
+    c_family_write_quoted_with(out, input, |out, c, _| {
+        if c.is_ascii() {
+            write!(out, "\\x{:02x}", c as u32)
+        } else {
+            write!(out, "\\u{:04x}", c as u32)
+        }
+    })
+}
+
+/// Like [c_family_write_quoted], but with a language-specific escape for control
+/// characters that have no shorthand.
+///
+/// It receives the character following the control character if it's known,
+/// since that might otherwise become part of the escape sequence.
+pub(crate) fn c_family_write_quoted_with(
+    out: &mut fmt::Formatter,
+    input: &str,
+    control: fn(&mut fmt::Formatter, char, Option<char>) -> fmt::Result,
+) -> fmt::Result {
+    let mut it = input.chars().peekable();
+
+    while let Some(c) = it.next() {
         match c {
             // alert (bell)
             '\u{0007}' => out.write_str("\\a")?,
@@ -199,13 +220,8 @@ pub fn c_family_write_quoted(out: &mut fmt::Formatter, input: &str) -> fmt::Resu
             '"' => out.write_str("\\\"")?,
             '\\' => out.write_str("\\\\")?,
             ' ' => out.write_char(' ')?,
-            c if c.is_ascii() => {
-                if !c.is_control() {
-                    out.write_char(c)?
-                } else {
-                    write!(out, "\\x{:02x}", c as u32)?;
-                }
-            }
+            c if c.is_control() => control(out, c, it.peek().copied())?,
+            c if c.is_ascii() => out.write_char(c)?,
             c if (c as u32) < 0x10000 => {
                 write!(out, "\\u{:04x}", c as u32)?;
             }
-- 
2.43.0


From b90bce20682bd42a42ac11cb522ee0d8055e54c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 07/29] fix: quote Nix strings by the escapes Nix has

---
 src/lang/nix.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/lang/nix.rs b/src/lang/nix.rs
index 9e71ad6..a1e7150 100644
--- a/src/lang/nix.rs
+++ b/src/lang/nix.rs
@@ -21,7 +21,22 @@ impl_lang! {
         type Item = Import;
 
         fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
-            super::c_family_write_quoted(out, input)
+            // From: https://nix.dev/manual/nix/latest/language/string-literals
+
+            for c in input.chars() {
+                match c {
+                    '\n' => out.write_str("\\n")?,
+                    '\r' => out.write_str("\\r")?,
+                    '\t' => out.write_str("\\t")?,
+                    '"' => out.write_str("\\\"")?,
+                    '\\' => out.write_str("\\\\")?,
+                    '$' => out.write_str("\\$")?,
+                    // NB: there are no numerical escapes.
+                    c => out.write_char(c)?,
+                }
+            }
+
+            Ok(())
         }
 
         fn format_file(
-- 
2.43.0


From 49eb227cf706e2e48a8290048016279bdbac53ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 08/29] fix: a quoted null never becomes an octal escape in
 JavaScript

---
 src/lang/js.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lang/js.rs b/src/lang/js.rs
index 182a5ca..2045b8f 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -124,7 +124,9 @@ impl_lang! {
         fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
             // Reference: https://mathiasbynens.be/notes/javascript-escapes
 
-            for c in input.chars() {
+            let mut it = input.chars().peekable();
+
+            while let Some(c) = it.next() {
                 match c {
                     // backspace
                     '\u{0008}' => out.write_str("\\b")?,
@@ -138,8 +140,10 @@ impl_lang! {
                     '\t' => out.write_str("\\t")?,
                     // vertical tab
                     '\u{000b}' => out.write_str("\\v")?,
-                    // null character.
-                    '\0' => out.write_str("\\0")?,
+                    // null character, unless it could become an octal escape.
+                    '\0' if matches!(it.peek(), Some(c) if !c.is_ascii_digit()) => {
+                        out.write_str("\\0")?
+                    }
                     // Note: only relevant if we were to use single-quoted strings.
                     // '\'' => out.write_str("\\'")?,
                     '"' => out.write_str("\\\"")?,
-- 
2.43.0


From 5362bafb01f29c94dbf0e40bc153efa51319b3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 09/29] fix: strings nested inside of quoted strings are quoted
 themselves, to any depth

---
 src/fmt/formatter.rs | 81 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 65 insertions(+), 16 deletions(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index c193188..cccae3b 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -43,6 +43,16 @@ impl Default for Whitespace {
     }
 }
 
+/// The state of what is currently being formatted.
+#[derive(Default, Clone)]
+struct Frame {
+    in_quote: bool,
+    /// If the quote is inside of another quote.
+    nested: bool,
+    has_eval: bool,
+    end_on_eval: bool,
+}
+
 /// Token stream formatter. Keeps track of everything we need to know in order
 /// to enforce genco's indentation and whitespace rules.
 pub struct Formatter<'a> {
@@ -85,7 +95,7 @@ impl<'a> Formatter<'a> {
         L: Lang,
     {
         let mut cursor = cursor::Cursor::new(items);
-        self.format_cursor(&mut cursor, config, format, false)
+        self.format_cursor(&mut cursor, config, format, Frame::default())
     }
 
     /// Forcibly write a line ending, at the end of a file.
@@ -145,7 +155,7 @@ impl<'a> Formatter<'a> {
         cursor: &mut cursor::Cursor<'_, L>,
         config: &L::Config,
         format: &L::Format,
-        end_on_close_quote: bool,
+        initial: Frame,
     ) -> fmt::Result
     where
         L: Lang,
@@ -155,11 +165,12 @@ impl<'a> Formatter<'a> {
         let mut buf = String::new();
         let mut stack = smallvec::SmallVec::<[Frame; 4]>::new();
 
-        stack.push(Frame::default());
+        stack.push(initial);
 
         while let (Some(item), Some(head)) = (cursor.next(), stack.last_mut()) {
             let Frame {
                 in_quote,
+                nested,
                 has_eval,
                 end_on_eval,
             } = head;
@@ -168,7 +179,9 @@ impl<'a> Formatter<'a> {
                 Item::Register(..) => (),
                 Item::Indentation(0) => (),
                 Item::Literal(literal) => {
-                    if *in_quote {
+                    if *nested {
+                        self.write_nested_quoted::<L>(literal)?;
+                    } else if *in_quote {
                         L::write_quoted(self, literal)?;
                     } else {
                         self.write_str(literal)?;
@@ -185,10 +198,16 @@ impl<'a> Formatter<'a> {
                 // Evaluating quotes are not supported.
                 Item::OpenQuote(false) if *in_quote => {
                     self.quoted_quote(cursor, &mut buf, config, format)?;
-                    L::write_quoted(self, &buf)?;
+
+                    if *nested {
+                        self.write_nested_quoted::<L>(&buf)?;
+                    } else {
+                        L::write_quoted(self, &buf)?;
+                    }
+
                     buf.clear();
                 }
-                Item::CloseQuote if end_on_close_quote => {
+                Item::CloseQuote if *nested => {
                     return Ok(());
                 }
                 Item::CloseQuote if *in_quote => {
@@ -211,7 +230,7 @@ impl<'a> Formatter<'a> {
                 Item::Indentation(n) => {
                     self.indentation(*n);
                 }
-                Item::OpenEval if *in_quote => {
+                Item::OpenEval if *in_quote && !*nested => {
                     if cursor.peek::<cursor::Literal>() && cursor.peek1::<cursor::CloseEval>() {
                         let literal = cursor.parse::<cursor::Literal>()?;
                         L::string_eval_literal(self, config, format, literal)?;
@@ -220,9 +239,8 @@ impl<'a> Formatter<'a> {
                         L::start_string_eval(self, config, format)?;
 
                         stack.push(Frame {
-                            in_quote: false,
-                            has_eval: false,
                             end_on_eval: true,
+                            ..Frame::default()
                         });
                     }
                 }
@@ -238,14 +256,36 @@ impl<'a> Formatter<'a> {
             }
         }
 
-        return Ok(());
+        Ok(())
+    }
+
+    /// Write a literal inside of a string which is itself being quoted.
+    ///
+    /// Printable non-ASCII characters are kept as they are, since they will be
+    /// escaped if necessary when the resulting string is quoted.
+    fn write_nested_quoted<L>(&mut self, mut literal: &str) -> fmt::Result
+    where
+        L: Lang,
+    {
+        fn is_printable(c: char) -> bool {
+            !c.is_ascii() && !c.is_control() && !matches!(c, '\u{2028}' | '\u{2029}')
+        }
+
+        while let Some(c) = literal.chars().next() {
+            let printable = is_printable(c);
+            let end = literal.find(|c| is_printable(c) != printable);
+            let (head, tail) = literal.split_at(end.unwrap_or(literal.len()));
 
-        #[derive(Default, Clone)]
-        struct Frame {
-            in_quote: bool,
-            has_eval: bool,
-            end_on_eval: bool,
+            if printable {
+                self.write_str(head)?;
+            } else {
+                L::write_quoted(self, head)?;
+            }
+
+            literal = tail;
         }
+
+        Ok(())
     }
 
     /// Support for evaluating an interior quote and returning it as a string.
@@ -264,7 +304,16 @@ impl<'a> Formatter<'a> {
         let mut w = FmtWriter::new(buf);
         let out = &mut Formatter::new(&mut w, self.config);
         L::open_quote(out, config, format, false)?;
-        out.format_cursor(cursor, config, format, true)?;
+        out.format_cursor(
+            cursor,
+            config,
+            format,
+            Frame {
+                in_quote: true,
+                nested: true,
+                ..Frame::default()
+            },
+        )?;
         L::close_quote(out, config, format, false)?;
         Ok(())
     }
-- 
2.43.0


From 4146c6f77cad2e718e930aa688e634e34fa4daa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:42 +0000
Subject: [PATCH 10/29] fix: text in a JavaScript template literal is never
 interpolated

---
 src/lang/js.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lang/js.rs b/src/lang/js.rs
index 2045b8f..c3ea2e2 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -148,6 +148,9 @@ impl_lang! {
                     // '\'' => out.write_str("\\'")?,
                     '"' => out.write_str("\\\"")?,
                     '\\' => out.write_str("\\\\")?,
+                    // Note: only relevant in template literals.
+                    '`' => out.write_str("\\`")?,
+                    '$' if matches!(it.peek(), None | Some('{')) => out.write_str("\\$")?,
                     c if !c.is_control() => out.write_char(c)?,
                     c if (c as u32) < 0x100 => {
                         write!(out, "\\x{:02x}", c as u32)?;
-- 
2.43.0


From aeb7f7d17d17e2d18b5f9e209aeeb0163af74418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:42 +0000
Subject: [PATCH 11/29] fix: delimit interpolated Dart literals unless they are
 a separate identifier

---
 src/fmt/cursor.rs    | 19 +++++++++++++++++++
 src/fmt/formatter.rs |  7 ++++++-
 src/lang/dart/mod.rs | 16 +++++++++++++---
 3 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/fmt/cursor.rs b/src/fmt/cursor.rs
index 5dfc8dc..b80218d 100644
--- a/src/fmt/cursor.rs
+++ b/src/fmt/cursor.rs
@@ -117,4 +117,23 @@ where
         let item = self.next().ok_or(core::fmt::Error)?;
         P::parse(item)
     }
+
+    /// Test if what is written first after skipping the given number of items
+    /// might start like the continuation of a word.
+    pub(super) fn is_followed_by_word(&self, skip: usize) -> bool {
+        for item in self.items.iter().skip(skip) {
+            match item {
+                Item::Register(..) => (),
+                Item::Literal(s) if s.is_empty() => (),
+                Item::Literal(s) => {
+                    return s.starts_with(|c: char| c == '_' || c.is_alphanumeric());
+                }
+                // NB: it's not known what a language item writes.
+                Item::Lang(..) => return true,
+                _ => return false,
+            }
+        }
+
+        false
+    }
 }
diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index cccae3b..aabde7b 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -231,7 +231,12 @@ impl<'a> Formatter<'a> {
                     self.indentation(*n);
                 }
                 Item::OpenEval if *in_quote && !*nested => {
-                    if cursor.peek::<cursor::Literal>() && cursor.peek1::<cursor::CloseEval>() {
+                    // NB: a literal can't be written without a delimiter if it
+                    // would become part of what follows.
+                    if cursor.peek::<cursor::Literal>()
+                        && cursor.peek1::<cursor::CloseEval>()
+                        && !cursor.is_followed_by_word(2)
+                    {
                         let literal = cursor.parse::<cursor::Literal>()?;
                         L::string_eval_literal(self, config, format, literal)?;
                         cursor.parse::<cursor::CloseEval>()?;
diff --git a/src/lang/dart/mod.rs b/src/lang/dart/mod.rs
index cf2d765..ec2a078 100644
--- a/src/lang/dart/mod.rs
+++ b/src/lang/dart/mod.rs
@@ -63,11 +63,21 @@ impl_lang! {
 
         fn string_eval_literal(
             out: &mut fmt::Formatter<'_>,
-            _config: &Self::Config,
-            _format: &Self::Format,
+            config: &Self::Config,
+            format: &Self::Format,
             literal: &str,
         ) -> fmt::Result {
-            write!(out, "${}", literal)?;
+            // NB: anything but a simple identifier needs to be delimited.
+            if literal.starts_with(|c: char| c == '_' || c.is_ascii_alphabetic())
+                && literal.chars().all(|c| c == '_' || c.is_ascii_alphanumeric())
+            {
+                write!(out, "${}", literal)?;
+            } else {
+                Self::start_string_eval(out, config, format)?;
+                out.write_str(literal)?;
+                Self::end_string_eval(out, config, format)?;
+            }
+
             Ok(())
         }
 
-- 
2.43.0


From 7b3b7ac09378c6c71a90c1eb16a6ac3e7a8ff604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 12/29] fix: strings compare, order and hash by content however
 they are stored

---
 src/tokens/item_str.rs | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/tokens/item_str.rs b/src/tokens/item_str.rs
index 928c84d..7c12f05 100644
--- a/src/tokens/item_str.rs
+++ b/src/tokens/item_str.rs
@@ -1,6 +1,8 @@
 //! Helper trait to take ownership of strings.
 
+use core::cmp::Ordering;
 use core::fmt;
+use core::hash::{Hash, Hasher};
 use core::ops::Deref;
 
 use alloc::borrow::{Cow, ToOwned};
@@ -12,7 +14,10 @@ use crate::lang::Lang;
 use crate::tokens::{FormatInto, Item, Tokens};
 
 /// A managed string that permits immutable borrowing.
-#[derive(Debug, Clone, Hash, PartialOrd, Ord, PartialEq, Eq)]
+///
+/// Strings compare, order, and hash by their content, regardless of how it is
+/// stored.
+#[derive(Debug, Clone)]
 pub enum ItemStr {
     /// A boxed string.
     Box(Box<str>),
@@ -20,6 +25,35 @@ pub enum ItemStr {
     Static(&'static str),
 }
 
+impl PartialEq for ItemStr {
+    fn eq(&self, other: &Self) -> bool {
+        self.as_ref() == other.as_ref()
+    }
+}
+
+impl Eq for ItemStr {}
+
+impl PartialOrd for ItemStr {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for ItemStr {
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.as_ref().cmp(other.as_ref())
+    }
+}
+
+impl Hash for ItemStr {
+    fn hash<H>(&self, state: &mut H)
+    where
+        H: Hasher,
+    {
+        self.as_ref().hash(state);
+    }
+}
+
 /// Convert stringy things.
 impl<L> FormatInto<L> for ItemStr
 where
-- 
2.43.0


From 4c6dda0a3440001beee789c47a4e39b6dff17a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 13/29] fix: qualify Java types whose simple name refers to
 another type

---
 src/lang/java/mod.rs | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/lang/java/mod.rs b/src/lang/java/mod.rs
index a4e195a..1d25ede 100644
--- a/src/lang/java/mod.rs
+++ b/src/lang/java/mod.rs
@@ -87,11 +87,16 @@ impl_lang! {
     Import {
         fn format(&self, out: &mut fmt::Formatter<'_>, config: &Config, format: &Format) -> fmt::Result {
             let file_package = config.package.as_ref().map(|p| p.as_ref());
-            let imported = format.imported.get(self.name.as_ref()).map(String::as_str);
-            let pkg = Some(self.package.as_ref());
+            let pkg = self.package.as_ref();
 
-            if &*self.package != JAVA_LANG && imported != pkg && file_package != pkg {
-                out.write_str(self.package.as_ref())?;
+            let qualified = match format.imported.get(self.name.as_ref()) {
+                // The simple name might refer to something else.
+                Some(imported) => imported != pkg,
+                None => pkg != JAVA_LANG && file_package != Some(pkg),
+            };
+
+            if qualified {
+                out.write_str(pkg)?;
                 out.write_str(SEP)?;
             }
 
@@ -107,7 +112,7 @@ const SEP: &str = ".";
 /// Formtat state for Java.
 #[derive(Debug, Default)]
 pub struct Format {
-    /// Types which has been imported into the local namespace.
+    /// Packages of the types which can be referred to by their simple name.
     imported: BTreeMap<String, String>,
 }
 
@@ -188,16 +193,19 @@ impl Java {
             return;
         }
 
-        for (package, name) in modules {
-            if imported.contains_key(&*name) {
-                continue;
-            }
-
-            if &*package == JAVA_LANG {
-                continue;
+        // Types which are in scope without being imported, where the ones in
+        // the package of the file take precedence. Importing another type by
+        // the same name would shadow them.
+        for implicit in file_package.into_iter().chain([JAVA_LANG]) {
+            for (package, name) in &modules {
+                if &**package == implicit && !imported.contains_key(&**name) {
+                    imported.insert(name.to_string(), package.to_string());
+                }
             }
+        }
 
-            if Some(&*package) == file_package {
+        for (package, name) in modules {
+            if imported.contains_key(&*name) {
                 continue;
             }
 
-- 
2.43.0


From 6ea0f3622b0aa72aa1f499a977ca155afc5205ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:30 +0000
Subject: [PATCH 14/29] fix: qualify C# types whose name is hidden or ambiguous

---
 src/lang/csharp/mod.rs | 46 ++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/src/lang/csharp/mod.rs b/src/lang/csharp/mod.rs
index 121d295..712c0b4 100644
--- a/src/lang/csharp/mod.rs
+++ b/src/lang/csharp/mod.rs
@@ -64,7 +64,7 @@ impl_lang! {
 
             let mut format = Format::default();
 
-            Self::imports(&mut file, tokens, config, &mut format.imported_names);
+            Self::imports(&mut file, tokens, config, &mut format);
 
             if let Some(namespace) = &config.namespace {
                 quote_in! { file =>
@@ -113,6 +113,11 @@ impl_lang! {
                     }
                 }
 
+                // the name could refer to several namespaces in use.
+                if format.ambiguous_names.contains(name) {
+                    return true;
+                }
+
                 false
             }
         }
@@ -130,6 +135,8 @@ pub struct Format {
     ///
     /// A missing name means that it has to be used in a qualified manner.
     imported_names: BTreeMap<String, String>,
+    /// Names provided by more than one of the namespaces being used.
+    ambiguous_names: BTreeSet<String>,
 }
 
 /// Config data for Csharp formatting.
@@ -176,12 +183,7 @@ impl Import {
 }
 
 impl Csharp {
-    fn imports(
-        out: &mut Tokens,
-        tokens: &Tokens,
-        config: &Config,
-        imported_names: &mut BTreeMap<String, String>,
-    ) {
+    fn imports(out: &mut Tokens, tokens: &Tokens, config: &Config, format: &mut Format) {
         let mut modules = BTreeSet::new();
 
         for import in tokens.walk_imports() {
@@ -192,14 +194,19 @@ impl Csharp {
             return;
         }
 
-        let mut imported = BTreeSet::new();
-
-        for (namespace, name) in modules {
+        // Names in the current namespace hide the ones being imported.
+        for &(namespace, name) in &modules {
             if Some(namespace) == config.namespace.as_deref() {
-                continue;
+                format
+                    .imported_names
+                    .insert(name.to_string(), namespace.to_string());
             }
+        }
 
-            match imported_names.get(name) {
+        let mut imported = BTreeSet::new();
+
+        for &(namespace, name) in &modules {
+            match format.imported_names.get(name) {
                 // already imported...
                 Some(existing) if existing == namespace => continue,
                 // already imported, as something else...
@@ -213,7 +220,20 @@ impl Csharp {
                 imported.insert(namespace);
             }
 
-            imported_names.insert(name.to_string(), namespace.to_string());
+            format
+                .imported_names
+                .insert(name.to_string(), namespace.to_string());
+        }
+
+        for (namespace, name) in modules {
+            if let Some(existing) = format.imported_names.get(name) {
+                if existing != namespace
+                    && imported.contains(namespace)
+                    && imported.contains(existing.as_str())
+                {
+                    format.ambiguous_names.insert(name.to_string());
+                }
+            }
         }
 
         out.line();
-- 
2.43.0


From e39c9dad0a15dca4909c526cac8495d029f3ee2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 15/29] fix: an aliased Python import is not qualified, and a
 qualified one not aliased

---
 src/lang/python.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/lang/python.rs b/src/lang/python.rs
index f6272ee..8dd2623 100644
--- a/src/lang/python.rs
+++ b/src/lang/python.rs
@@ -58,17 +58,17 @@ impl_lang! {
 
     Import {
         fn format(&self, out: &mut fmt::Formatter<'_>, _: &Config, _: &Format) -> fmt::Result {
-            if let TypeModule::Qualified { module, alias }  = &self.module {
-                out.write_str(alias.as_ref().unwrap_or(module))?;
-                out.write_str(SEP)?;
+            match &self.module {
+                TypeModule::Qualified { module, alias } => {
+                    out.write_str(alias.as_ref().unwrap_or(module))?;
+                    out.write_str(SEP)?;
+                    out.write_str(&self.name)?;
+                }
+                TypeModule::Unqualified { .. } => {
+                    out.write_str(self.alias.as_ref().unwrap_or(&self.name))?;
+                }
             }
 
-            let name = match &self.alias {
-                Some(alias) => alias,
-                None => &self.name,
-            };
-
-            out.write_str(name)?;
             Ok(())
         }
     }
@@ -120,6 +120,13 @@ impl TypeModule {
         }
     }
 
+    fn unqualified(self) -> Self {
+        match self {
+            Self::Qualified { module, .. } => Self::Unqualified { module },
+            other => other,
+        }
+    }
+
     fn with_alias<T>(self, alias: T) -> Self
     where
         T: Into<ItemStr>,
@@ -175,6 +182,7 @@ impl Import {
         T: Into<ItemStr>,
     {
         Self {
+            module: self.module.unqualified(),
             alias: Some(alias.into()),
             ..self
         }
-- 
2.43.0


From dc25bd8d7549bb0c6284c74231a76bede00dbb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 16/29] fix: import the Dart core library when it is aliased

---
 src/lang/dart/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lang/dart/mod.rs b/src/lang/dart/mod.rs
index ec2a078..c95df23 100644
--- a/src/lang/dart/mod.rs
+++ b/src/lang/dart/mod.rs
@@ -203,13 +203,18 @@ impl Dart {
         let mut modules = BTreeSet::new();
 
         for import in input.walk_imports() {
-            if &*import.path == DART_CORE {
+            if &*import.path == DART_CORE && import.alias.is_none() {
                 continue;
             }
 
             modules.insert((import.path.clone(), import.alias.clone()));
         }
 
+        // NB: explicitly importing the core library disables the implicit import.
+        if modules.iter().any(|(path, _)| &**path == DART_CORE) {
+            modules.insert((ItemStr::from(DART_CORE), None));
+        }
+
         if modules.is_empty() {
             return;
         }
-- 
2.43.0


From 06a1e6c57b53174f5993d887376a438446f50cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:00 +0000
Subject: [PATCH 17/29] fix: import every default import of a JavaScript module

---
 src/lang/js.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/lang/js.rs b/src/lang/js.rs
index c3ea2e2..3cf0107 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -439,7 +439,7 @@ impl JavaScript {
                 }
                 ImportKind::Default => {
                     let module = modules.entry(&import.module).or_default();
-                    module.default_import = Some(&import.name);
+                    module.default_imports.insert(&import.name);
                 }
                 ImportKind::Wildcard => {
                     wildcards.insert((&import.module, &import.name));
@@ -458,11 +458,22 @@ impl JavaScript {
             }
         }
 
-        for (name, module) in modules {
+        let default = ItemStr::from("default");
+
+        for (name, mut module) in modules {
+            let mut default_imports = module.default_imports.into_iter();
+            let default_import = default_imports.next();
+
+            // There can only be one default import, further names for it need
+            // to be aliases.
+            for name in default_imports {
+                module.set.insert(ImportedElement::Aliased(&default, name));
+            }
+
             out.push();
             quote_in! { *out =>
                 import $(ref tokens => {
-                    if let Some(default) = module.default_import {
+                    if let Some(default) = default_import {
                         tokens.append(ItemStr::from(default));
 
                         if !module.set.is_empty() {
@@ -502,7 +513,7 @@ impl JavaScript {
 
         #[derive(Default)]
         struct ResolvedModule<'a> {
-            default_import: Option<&'a ItemStr>,
+            default_imports: BTreeSet<&'a ItemStr>,
             set: BTreeSet<ImportedElement<'a>>,
         }
 
-- 
2.43.0


From e41930a577f9e72fac1350a7d22505cee98bbb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 18/29] fix: Nix headers list what variable values use at any
 depth

---
 src/lang/nix.rs | 70 ++++++++++++++++++++++---------------------------
 1 file changed, 31 insertions(+), 39 deletions(-)

diff --git a/src/lang/nix.rs b/src/lang/nix.rs
index a1e7150..1e7e50d 100644
--- a/src/lang/nix.rs
+++ b/src/lang/nix.rs
@@ -4,6 +4,7 @@ use core::fmt::Write as _;
 
 use alloc::collections::BTreeSet;
 use alloc::string::ToString;
+use alloc::vec::Vec;
 
 use crate as genco;
 use crate::fmt;
@@ -133,43 +134,40 @@ impl Config {
 }
 
 impl Nix {
+    /// Walk all imports, including the ones used in the values of variables.
+    fn walk_imports(tokens: &Tokens) -> impl Iterator<Item = &Import> {
+        let mut imports = BTreeSet::new();
+        let mut queue = tokens.walk_imports().collect::<Vec<_>>();
+
+        while let Some(import) = queue.pop() {
+            if !imports.insert(import) {
+                continue;
+            }
+
+            if let Import::Variable(variable) = import {
+                queue.extend(variable.value.walk_imports());
+            }
+        }
+
+        imports.into_iter()
+    }
+
     fn arguments(out: &mut Tokens, tokens: &Tokens) {
         let mut arguments = BTreeSet::new();
 
-        for imports in tokens.walk_imports() {
-            match imports {
+        for import in Self::walk_imports(tokens) {
+            let path = match import {
                 Import::Argument(argument) => {
                     arguments.insert(argument.0.to_string());
+                    continue;
                 }
-                Import::Inherit(inherit) => {
-                    let argument = inherit.path.split('.').next();
-                    if let Some(a) = argument {
-                        arguments.insert(a.to_string());
-                    }
-                }
-                Import::Variable(variable) => {
-                    let value = &variable.value;
-                    for import in value.walk_imports() {
-                        match import {
-                            Import::Inherit(inherit) => {
-                                let argument = inherit.path.split('.').next();
-                                if let Some(a) = argument {
-                                    arguments.insert(a.to_string());
-                                }
-                            }
-                            Import::Argument(argument) => {
-                                arguments.insert(argument.0.to_string());
-                            }
-                            _ => (),
-                        }
-                    }
-                }
-                Import::With(with) => {
-                    let argument = with.argument.split('.').next();
-                    if let Some(a) = argument {
-                        arguments.insert(a.to_string());
-                    }
-                }
+                Import::Inherit(inherit) => &inherit.path,
+                Import::With(with) => &with.argument,
+                Import::Variable(..) => continue,
+            };
+
+            if let Some(a) = path.split('.').next() {
+                arguments.insert(a.to_string());
             }
         }
 
@@ -195,7 +193,7 @@ impl Nix {
     fn withs(out: &mut Tokens, tokens: &Tokens) {
         let mut withs = BTreeSet::new();
 
-        for imports in tokens.walk_imports() {
+        for imports in Self::walk_imports(tokens) {
             if let Import::With(with) = imports {
                 withs.insert(&with.argument);
             }
@@ -217,18 +215,12 @@ impl Nix {
         let mut inherits = BTreeSet::new();
         let mut variables = BTreeSet::new();
 
-        for imports in tokens.walk_imports() {
+        for imports in Self::walk_imports(tokens) {
             match imports {
                 Import::Inherit(inherit) => {
                     inherits.insert((&inherit.path, &inherit.name));
                 }
                 Import::Variable(variable) => {
-                    let value = &variable.value;
-                    for import in value.walk_imports() {
-                        if let Import::Inherit(inherit) = import {
-                            inherits.insert((&inherit.path, &inherit.name));
-                        }
-                    }
                     variables.insert((&variable.name, &variable.value));
                 }
                 _ => (),
-- 
2.43.0


From e1c36ecc67c9bfb36e2d95c7b35d3506e5a184c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:23 +0000
Subject: [PATCH 19/29] fix: interpolations in quoted strings take the
 whitespace within their parentheses into account

---
 genco-macros/src/string_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genco-macros/src/string_parser.rs b/genco-macros/src/string_parser.rs
index 5f7dc52..01585a9 100644
--- a/genco-macros/src/string_parser.rs
+++ b/genco-macros/src/string_parser.rs
@@ -288,7 +288,7 @@ impl<'a> StringParser<'a> {
                     let end = syn::parenthesized!(content in input).span;
 
                     let (req, stream) = crate::quote::Quote::new(self.cx)
-                        .with_span(content.span())?
+                        .with_span(end.span())?
                         .parse(&content)?;
                     requirements.merge_with(req);
                     let start = self.buf.cursor(start.span())?;
-- 
2.43.0


From 933a77d99a5c8a59f3c83676d42087cbf8901524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:36 +0000
Subject: [PATCH 20/29] fix: keep the whitespace within groups of quoted
 strings and parse what they contain

---
 genco-macros/src/string_parser.rs | 37 ++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/genco-macros/src/string_parser.rs b/genco-macros/src/string_parser.rs
index 01585a9..817784e 100644
--- a/genco-macros/src/string_parser.rs
+++ b/genco-macros/src/string_parser.rs
@@ -234,7 +234,17 @@ impl<'a> StringParser<'a> {
     pub(crate) fn parse(self, input: ParseStream) -> Result<(Options, Requirements, TokenStream)> {
         let mut requirements = Requirements::default();
         let encoder = Encoder::new(self.cx, self.start, self.span);
+        self.parse_inner(&encoder, &mut requirements, input)?;
+        let (options, stream) = encoder.finalize(self.end)?;
+        Ok((options, requirements, stream))
+    }
 
+    fn parse_inner(
+        &self,
+        encoder: &Encoder<'_>,
+        requirements: &mut Requirements,
+        input: ParseStream,
+    ) -> Result<()> {
         while !input.is_empty() {
             if input.peek(syn::Token![$]) && input.peek2(syn::Token![$]) {
                 let start = input.parse::<syn::Token![$]>()?;
@@ -299,13 +309,30 @@ impl<'a> StringParser<'a> {
                 continue;
             }
 
-            let tt = input.parse::<TokenTree>()?;
-            let cursor = self.buf.cursor(tt.span())?;
-            encoder.extend_tt(&tt, cursor.start, Some(cursor.end))?;
+            // Test for different forms of groups and recurse if necessary.
+            let content;
+
+            let (open, close, span) = if input.peek(token::Brace) {
+                ('{', '}', syn::braced!(content in input).span)
+            } else if input.peek(token::Paren) {
+                ('(', ')', syn::parenthesized!(content in input).span)
+            } else if input.peek(token::Bracket) {
+                ('[', ']', syn::bracketed!(content in input).span)
+            } else {
+                let tt = input.parse::<TokenTree>()?;
+                let cursor = self.buf.cursor(tt.span())?;
+                encoder.extend_tt(&tt, cursor.start, Some(cursor.end))?;
+                continue;
+            };
+
+            let cursor = self.buf.cursor(span.span())?;
+            let (first, last) = (cursor.first_character(), cursor.last_character());
+            encoder.encode_char(open, first.start, first.end)?;
+            self.parse_inner(encoder, requirements, &content)?;
+            encoder.encode_char(close, last.start, last.end)?;
         }
 
-        let (options, stream) = encoder.finalize(self.end)?;
-        Ok((options, requirements, stream))
+        Ok(())
     }
 }
 
-- 
2.43.0


From 306833a9fc644e9ec96c7e683729aa13852c81ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:10 +0000
Subject: [PATCH 21/29] fix: parse attributes of match arms from the body of
 the match

---
 genco-macros/src/quote.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genco-macros/src/quote.rs b/genco-macros/src/quote.rs
index 82c4fd2..835d7ae 100644
--- a/genco-macros/src/quote.rs
+++ b/genco-macros/src/quote.rs
@@ -196,7 +196,7 @@ impl<'a> Quote<'a> {
         let mut arms = Vec::new();
 
         while !body.is_empty() {
-            let attr = input.call(syn::Attribute::parse_outer)?;
+            let attr = body.call(syn::Attribute::parse_outer)?;
             let pattern = syn::Pat::parse_multi_with_leading_vert(&body)?;
 
             let condition = if body.peek(Token![if]) {
-- 
2.43.0


From f4b5c36eef5508183721caaddbdd2d8f200793e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:10 +0000
Subject: [PATCH 22/29] fix: append what precedes a scope before the scope is
 evaluated

---
 genco-macros/src/encoder.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/genco-macros/src/encoder.rs b/genco-macros/src/encoder.rs
index 3f517be..fa108c9 100644
--- a/genco-macros/src/encoder.rs
+++ b/genco-macros/src/encoder.rs
@@ -202,9 +202,7 @@ impl<'a> Encoder<'a> {
     pub(crate) fn encode_scope(&mut self, binding: Option<syn::Ident>, content: TokenStream) {
         let Ctxt { receiver, .. } = self.cx;
 
-        if binding.is_some() {
-            self.item_buffer.flush(&mut self.output);
-        }
+        self.item_buffer.flush(&mut self.output);
 
         let binding = binding.map(|b| q::quote_spanned!(b.span() => let #b = &mut *#receiver;));
 
-- 
2.43.0


From 1274b9febf1f3839244eaf04a5a2f4e74c309762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:26 +0000
Subject: [PATCH 23/29] fix: reject a row shallower than the first one instead
 of joining it to the row before

---
 genco-macros/src/encoder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/genco-macros/src/encoder.rs b/genco-macros/src/encoder.rs
index fa108c9..88c467d 100644
--- a/genco-macros/src/encoder.rs
+++ b/genco-macros/src/encoder.rs
@@ -413,6 +413,11 @@ impl<'a> Encoder<'a> {
                     self.output.extend(q::quote!(#r.line();));
                 }
             } else if last_start_column > to.column {
+                // A token cannot be shallower than the first row.
+                if self.indents.is_empty() && self.last.is_some() && to_span.is_some() {
+                    return Err(indentation_error(to.column, last_start_column, to_span));
+                }
+
                 while let Some((column, _)) = self.indents.pop() {
                     if column > to.column && !self.indents.is_empty() {
                         self.output.extend(q::quote!(#r.unindent();));
-- 
2.43.0


From 0669953cce1ac8b5901f3257bce723d2bbcf4b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:26 +0000
Subject: [PATCH 24/29] fix: do not escape the paths of C includes as string
 literals

---
 src/lang/c.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lang/c.rs b/src/lang/c.rs
index d12e80f..479f91f 100644
--- a/src/lang/c.rs
+++ b/src/lang/c.rs
@@ -7,7 +7,7 @@ use alloc::collections::BTreeSet;
 use crate as genco;
 use crate::fmt;
 use crate::quote_in;
-use crate::tokens::{quoted, ItemStr};
+use crate::tokens::ItemStr;
 
 /// Tokens container specialization for C.
 pub type Tokens = crate::Tokens<C>;
@@ -93,7 +93,8 @@ impl C {
             if system_header {
                 quote_in!(*out => #include <$(file)>);
             } else {
-                quote_in!(*out => #include $(quoted(file)));
+                // NB: a header name is not a string literal, so it has no escapes.
+                quote_in!(*out => #include $("\"")$(file)$("\""));
             }
             out.push();
         }
-- 
2.43.0


From e706e45a9c2581268d232da73ba7544dea4ecc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:32 +0000
Subject: [PATCH 25/29] fix: do not reserve the upper bound of an iterator when
 extending and collecting

---
 src/tokens/tokens.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/tokens/tokens.rs b/src/tokens/tokens.rs
index 672bea0..afcfd45 100644
--- a/src/tokens/tokens.rs
+++ b/src/tokens/tokens.rs
@@ -203,8 +203,9 @@ where
         I: IntoIterator<Item = Item<L>>,
     {
         let it = it.into_iter();
-        let (low, high) = it.size_hint();
-        self.items.reserve(high.unwrap_or(low));
+        // NB: the upper bound can be a lot larger than the number of items.
+        let (low, _) = it.size_hint();
+        self.items.reserve(low);
 
         for item in it {
             self.item(item);
@@ -1006,8 +1007,8 @@ where
 {
     fn from_iter<I: IntoIterator<Item = &'a Item<L>>>(iter: I) -> Self {
         let it = iter.into_iter();
-        let (low, high) = it.size_hint();
-        let mut tokens = Self::with_capacity(high.unwrap_or(low));
+        let (low, _) = it.size_hint();
+        let mut tokens = Self::with_capacity(low);
         tokens.extend(it.cloned());
         tokens
     }
@@ -1019,8 +1020,8 @@ where
 {
     fn from_iter<I: IntoIterator<Item = Item<L>>>(iter: I) -> Self {
         let it = iter.into_iter();
-        let (low, high) = it.size_hint();
-        let mut tokens = Self::with_capacity(high.unwrap_or(low));
+        let (low, _) = it.size_hint();
+        let mut tokens = Self::with_capacity(low);
         tokens.extend(it);
         tokens
     }
-- 
2.43.0


From 3e173f9f3d38dbc1e0a1f87687eec1c7a0b7d8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:23 +0000
Subject: [PATCH 26/29] fix: report an interpolation which is closed inside of
 an open string

---
 src/fmt/formatter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index aabde7b..7e57dd2 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -250,7 +250,7 @@ impl<'a> Formatter<'a> {
                     }
                 }
                 // Eval are only allowed within quotes.
-                Item::CloseEval if *end_on_eval => {
+                Item::CloseEval if *end_on_eval && !*in_quote => {
                     L::end_string_eval(self, config, format)?;
                     stack.pop();
                 }
-- 
2.43.0


From ccd804d85492f4f0f2eb8e5269c54681299fc296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:15 +0000
Subject: [PATCH 27/29] fix: keep suffixes of string literals in quotations

A literal like "abc"sv was emitted as part of the generated Rust code,
where it is a compile error. Where $("..") and $[const]("..") take a
literal the suffix was dropped without a word.
---
 genco-macros/src/encoder.rs       | 7 ++++++-
 genco-macros/src/string_parser.rs | 6 +++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/genco-macros/src/encoder.rs b/genco-macros/src/encoder.rs
index 88c467d..676f1f0 100644
--- a/genco-macros/src/encoder.rs
+++ b/genco-macros/src/encoder.rs
@@ -171,11 +171,16 @@ impl<'a> Encoder<'a> {
 
         self.item_buffer.flush(&mut self.output);
 
+        // NB: a suffix like in `"foo"sv` isn't part of the string.
+        let value = syn::LitStr::new(&s.value(), s.span());
+
         self.output.extend(q::quote! {
             #receiver.append(#module::tokens::Item::OpenQuote(false));
-            #receiver.append(#module::tokens::ItemStr::Static(#s));
+            #receiver.append(#module::tokens::ItemStr::Static(#value));
             #receiver.append(#module::tokens::Item::CloseQuote);
         });
+
+        self.item_buffer.push_str(s.suffix());
     }
 
     pub(crate) fn encode_control(&mut self, control: Control) {
diff --git a/genco-macros/src/string_parser.rs b/genco-macros/src/string_parser.rs
index 817784e..7df53ab 100644
--- a/genco-macros/src/string_parser.rs
+++ b/genco-macros/src/string_parser.rs
@@ -337,9 +337,9 @@ impl<'a> StringParser<'a> {
 }
 
 pub(crate) fn is_lit_str_opt(content: ParseBuffer<'_>) -> syn::Result<bool> {
-    if content.parse::<Option<syn::LitStr>>()?.is_none() {
+    let Some(lit) = content.parse::<Option<syn::LitStr>>()? else {
         return Ok(false);
-    }
+    };
 
-    Ok(content.is_empty())
+    Ok(lit.suffix().is_empty() && content.is_empty())
 }
-- 
2.43.0


From 08958f2a8b7ce0538a19c7beadcd19e06b6a4e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:19 +0000
Subject: [PATCH 28/29] fix: don't panic on multi-line doc comments in
 quotations

Every token of a documentation comment spans all of the comment, so the
next token might start on an earlier line than the previous one ends.
---
 genco-macros/src/encoder.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/genco-macros/src/encoder.rs b/genco-macros/src/encoder.rs
index 676f1f0..9e07899 100644
--- a/genco-macros/src/encoder.rs
+++ b/genco-macros/src/encoder.rs
@@ -391,9 +391,12 @@ impl<'a> Encoder<'a> {
         }
 
         // Insert spacing if we are on the same line, but column has changed.
-        if from.line == to.line {
+        //
+        // NB: every token of a doc comment spans all of the comment, so what
+        // follows one might start on an earlier line than it ends.
+        if from.line >= to.line {
             // Same line, but next item doesn't match.
-            if from.column < to.column {
+            if from.line == to.line && from.column < to.column {
                 self.item_buffer.flush(&mut self.output);
                 self.output.extend(q::quote!(#r.space();));
             }
-- 
2.43.0


From 2e5183bba952af65f7cd3ff2b2dd45c50bc0db8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:50 +0000
Subject: [PATCH 29/29] fix: import from each source once in JavaScript

Modules which are imported from the same place, such as a global module
and a path without a module path, were imported from separately.
---
 src/lang/js.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/lang/js.rs b/src/lang/js.rs
index 3cf0107..e31b429 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -424,13 +424,31 @@ impl JavaScript {
         use crate as genco;
         use crate::prelude::*;
 
+        // NB: distinct modules might be imported from the same place.
+        let mut sources = BTreeMap::<js::Tokens, &Module>::new();
+
+        let from = |module: &Module| {
+            let mut from = js::Tokens::new();
+            render_from(&mut from, config.module_path.as_deref(), module);
+            from
+        };
+
+        for import in tokens.walk_imports() {
+            let source = sources
+                .entry(from(&import.module))
+                .or_insert(&import.module);
+            *source = Ord::min(*source, &import.module);
+        }
+
         let mut modules = BTreeMap::<&Module, ResolvedModule<'_>>::new();
         let mut wildcards = BTreeSet::new();
 
         for import in tokens.walk_imports() {
+            let source = sources[&from(&import.module)];
+
             match import.kind {
                 ImportKind::Named => {
-                    let module = modules.entry(&import.module).or_default();
+                    let module = modules.entry(source).or_default();
 
                     module.set.insert(match &import.alias {
                         None => ImportedElement::Plain(&import.name),
@@ -438,11 +456,11 @@ impl JavaScript {
                     });
                 }
                 ImportKind::Default => {
-                    let module = modules.entry(&import.module).or_default();
+                    let module = modules.entry(source).or_default();
                     module.default_imports.insert(&import.name);
                 }
                 ImportKind::Wildcard => {
-                    wildcards.insert((&import.module, &import.name));
+                    wildcards.insert((source, &import.name));
                 }
             }
         }
-- 
2.43.0

