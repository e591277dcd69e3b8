//! Readers for the string literals of each supported language, written from the
//! language references (not from genco). `decode` reads one literal at the start
//! of the source and returns its parts and the remaining source.

use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize, PartialOrd, Ord, Hash)]
pub enum LangId {
    Rust,
    Java,
    Csharp,
    Go,
    C,
    Swift,
    Dart,
    JavaScript,
    Python,
    Nix,
}

pub const ALL: [LangId; 10] = [
    LangId::Rust,
    LangId::Java,
    LangId::Csharp,
    LangId::Go,
    LangId::C,
    LangId::Swift,
    LangId::Dart,
    LangId::JavaScript,
    LangId::Python,
    LangId::Nix,
];

#[macro_export]
macro_rules! with_lang {
    ($id:expr, $l:ident => $e:expr) => {
        match $id {
            $crate::lits::LangId::Rust => { type $l = genco::lang::Rust; $e }
            $crate::lits::LangId::Java => { type $l = genco::lang::Java; $e }
            $crate::lits::LangId::Csharp => { type $l = genco::lang::Csharp; $e }
            $crate::lits::LangId::Go => { type $l = genco::lang::Go; $e }
            $crate::lits::LangId::C => { type $l = genco::lang::C; $e }
            $crate::lits::LangId::Swift => { type $l = genco::lang::Swift; $e }
            $crate::lits::LangId::Dart => { type $l = genco::lang::Dart; $e }
            $crate::lits::LangId::JavaScript => { type $l = genco::lang::JavaScript; $e }
            $crate::lits::LangId::Python => { type $l = genco::lang::Python; $e }
            $crate::lits::LangId::Nix => { type $l = genco::lang::Nix; $e }
        }
    };
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Part {
    Text(String),
    Expr(String),
}

pub type Parts = Vec<Part>;

/// The unit sequence a literal denotes while being read: UTF-16 units, code
/// points or bytes, joined at the end.
enum Val {
    Bytes(Vec<u8>),
    U16(Vec<u16>),
    Str(String),
}

impl Val {
    fn ch(&mut self, c: char) {
        match self {
            Val::Bytes(b) => b.extend(c.encode_utf8(&mut [0; 4]).bytes()),
            Val::U16(u) => u.extend(c.encode_utf16(&mut [0; 2]).iter()),
            Val::Str(s) => s.push(c),
        }
    }

    /// A numeric escape naming a code unit.
    fn unit(&mut self, n: u32) -> Result<(), String> {
        match self {
            Val::Bytes(b) => b.push(u8::try_from(n).map_err(|_| format!("byte escape {n:x} too large"))?),
            Val::U16(u) => u.push(u16::try_from(n).map_err(|_| format!("unit escape {n:x} too large"))?),
            Val::Str(s) => s.push(char::from_u32(n).ok_or_else(|| format!("code point {n:x}"))?),
        }
        Ok(())
    }

    fn finish(self) -> Result<String, String> {
        match self {
            Val::Bytes(b) => String::from_utf8(b).map_err(|_| "bytes are not UTF-8".into()),
            Val::U16(u) => String::from_utf16(&u).map_err(|_| "lone surrogate".into()),
            Val::Str(s) => Ok(s),
        }
    }
}

struct Rd<'a> {
    s: &'a str,
}

impl<'a> Rd<'a> {
    fn next(&mut self) -> Result<char, String> {
        let c = self.s.chars().next().ok_or("literal is not terminated")?;
        self.s = &self.s[c.len_utf8()..];
        Ok(c)
    }
    fn peek(&self) -> Option<char> {
        self.s.chars().next()
    }
    /// Between min and max digits of the radix.
    fn num(&mut self, radix: u32, min: usize, max: usize) -> Result<u32, String> {
        let mut n: u32 = 0;
        let mut k = 0;
        while k < max {
            match self.peek().and_then(|c| c.to_digit(radix)) {
                Some(d) => {
                    n = n.checked_mul(radix).and_then(|n| n.checked_add(d)).ok_or("numeric escape overflows")?;
                    self.next()?;
                    k += 1;
                }
                None => break,
            }
        }
        if k < min {
            return Err(format!("numeric escape with {k} digits, {min} needed"));
        }
        Ok(n)
    }
    fn braced(&mut self, max: usize) -> Result<u32, String> {
        if self.next()? != '{' {
            return Err("expected {".into());
        }
        let n = self.num(16, 1, max)?;
        if self.next()? != '}' {
            return Err("expected } after escape".into());
        }
        Ok(n)
    }
}

fn scalar(n: u32) -> Result<char, String> {
    char::from_u32(n).ok_or_else(|| format!("escape names invalid code point {n:x}"))
}

pub fn decode(lang: LangId, src: &str) -> Result<(Parts, &str), String> {
    use LangId::*;
    let mut r = Rd { s: src };
    let open = r.next()?;
    let template = lang == JavaScript && open == '`';
    if open != '"' && !template {
        return Err(format!("literal opens with {open:?}"));
    }
    let fresh = || match lang {
        Go | C => Val::Bytes(Vec::new()),
        Java | Csharp | JavaScript | Dart => Val::U16(Vec::new()),
        _ => Val::Str(String::new()),
    };
    let mut v = fresh();
    let mut parts: Parts = Vec::new();
    let mut java_even = true;
    loop {
        let c = r.next()?;
        // Java translates unicode escapes before anything else; genco's output is read
        // with that in mind: a \uXXXX escape after an even number of backslashes is the
        // character itself, and may not be a quote, backslash or line terminator.
        if c == open {
            break;
        }
        if lang == Dart && c == '$' || template && c == '$' && r.peek() == Some('{') {
            let text = std::mem::replace(&mut v, fresh()).finish()?;
            if !text.is_empty() {
                parts.push(Part::Text(text));
            }
            if r.peek() == Some('{') {
                r.next()?;
                let e = expr(lang, &mut r)?;
                parts.push(Part::Expr(e));
            } else {
                // Dart: simple identifier.
                let mut id = String::new();
                while let Some(c) = r.peek() {
                    if c.is_ascii_alphabetic() || c == '_' || (!id.is_empty() && c.is_ascii_digit()) {
                        id.push(c);
                        r.next()?;
                    } else {
                        break;
                    }
                }
                if id.is_empty() {
                    return Err("unescaped $ in Dart string".into());
                }
                parts.push(Part::Expr(id));
            }
            continue;
        }
        if c != '\\' {
            let newline = match lang {
                Rust | Nix => false,
                Python | Go | C | Java | JavaScript | Dart | Swift => c == '\n' || c == '\r',
                Csharp => matches!(c, '\n' | '\r' | '\u{85}' | '\u{2028}' | '\u{2029}'),
            };
            if newline && !template {
                return Err(format!("raw line terminator {c:?} in literal"));
            }
            if (lang == Rust || template || lang == Nix) && c == '\r' {
                return Err("raw carriage return is normalised".into());
            }
            match lang {
                C | Go | Python | Nix | Swift if c == '\0' => return Err("raw NUL in source".into()),
                _ => {}
            }
            if lang == Nix && c == '$' && r.peek() == Some('{') {
                return Err("unescaped ${ in Nix string".into());
            }
            v.ch(c);
            if lang == Nix && c == '$' && !matches!(r.peek(), Some('"' | '\\') | None) {
                // The lexer consumes the character after a lone dollar.
                let c = r.next()?;
                v.ch(c);
            }
            java_even = true;
            continue;
        }
        let _ = java_even;
        let e = r.next()?;
        match (lang, e) {
            (_, '\\') => v.ch('\\'),
            (_, '"') => v.ch('"'),
            (_, 'n') => v.ch('\n'),
            (_, 'r') => v.ch('\r'),
            (_, 't') => v.ch('\t'),
            (Go, '\'') => return Err("\\' is not an escape in a Go string".into()),
            (Rust | Java | Csharp | C | Swift | Dart | JavaScript | Python, '\'') => v.ch('\''),

            (Rust | Swift, '0') => v.ch('\0'),
            (Rust, 'x') => {
                let n = r.num(16, 2, 2)?;
                if n > 0x7f {
                    return Err("\\x escape above 7f".into());
                }
                v.ch(scalar(n)?);
            }
            (Rust, 'u') => {
                let n = r.braced(6)?;
                v.ch(scalar(n)?);
            }
            (Swift, 'u') => {
                let n = r.braced(8)?;
                v.ch(scalar(n)?);
            }

            (Java, 'b') => v.ch('\u{8}'),
            (Java, 'f') => v.ch('\u{c}'),
            (Java, 's') => v.ch(' '),
            (Java, 'u') => {
                while r.peek() == Some('u') {
                    r.next()?;
                }
                let n = r.num(16, 4, 4)?;
                if matches!(n, 0x22 | 0x5c | 0xa | 0xd) {
                    return Err(format!("\\u{n:04x} is translated before lexing"));
                }
                v.unit(n)?;
            }
            (Java, '0'..='7') => {
                let mut n = e.to_digit(8).unwrap();
                let more = if n <= 3 { 2 } else { 1 };
                for _ in 0..more {
                    if r.peek().is_some_and(|c| c.is_digit(8)) {
                        n = n * 8 + r.next()?.to_digit(8).unwrap();
                    }
                }
                v.unit(n)?;
            }

            (Csharp, '0') => v.ch('\0'),
            (Csharp | C | Go | Python, 'a') => v.ch('\u{7}'),
            (Csharp | C | Go | Python | Dart | JavaScript, 'b') => v.ch('\u{8}'),
            (Csharp | C | Go | Python | Dart | JavaScript, 'f') => v.ch('\u{c}'),
            (Csharp | C | Go | Python | Dart | JavaScript, 'v') => v.ch('\u{b}'),
            (Csharp, 'x') => {
                let n = r.num(16, 1, 4)?;
                v.unit(n)?;
            }
            (Csharp, 'u') => {
                let n = r.num(16, 4, 4)?;
                v.unit(n)?;
            }
            (Csharp | Go | Python, 'U') => {
                let n = r.num(16, 8, 8)?;
                v.ch(scalar(n)?);
            }
            (Go | Python, 'u') => {
                let n = r.num(16, 4, 4)?;
                v.ch(scalar(n)?);
            }
            (C, 'u' | 'U') => {
                let k = if e == 'u' { 4 } else { 8 };
                let n = r.num(16, k, k)?;
                if n < 0xa0 && !matches!(n, 0x24 | 0x40 | 0x60) {
                    return Err(format!("universal character name below 00A0: {n:x}"));
                }
                v.ch(scalar(n)?);
            }
            (C, '?') => v.ch('?'),
            (C, 'x') => {
                let n = r.num(16, 1, usize::MAX)?;
                v.unit(n)?;
            }
            (C, '0'..='7') => {
                let mut n = e.to_digit(8).unwrap();
                for _ in 0..2 {
                    if r.peek().is_some_and(|c| c.is_digit(8)) {
                        n = n * 8 + r.next()?.to_digit(8).unwrap();
                    }
                }
                v.unit(n)?;
            }
            (Go, 'x') => {
                let n = r.num(16, 2, 2)?;
                v.unit(n)?;
            }
            (Go, '0'..='7') => {
                let a = e.to_digit(8).unwrap();
                let n = a * 64 + r.num(8, 2, 2)?;
                v.unit(n)?;
            }
            (Python, 'x') => {
                let n = r.num(16, 2, 2)?;
                v.unit(n)?;
            }
            (Python, '0'..='7') => {
                let mut n = e.to_digit(8).unwrap();
                for _ in 0..2 {
                    if r.peek().is_some_and(|c| c.is_digit(8)) {
                        n = n * 8 + r.next()?.to_digit(8).unwrap();
                    }
                }
                if n > 0o377 {
                    return Err("octal escape above \\377".into());
                }
                v.unit(n)?;
            }

            (Dart | JavaScript, 'x') => {
                let n = r.num(16, 2, 2)?;
                v.unit(n)?;
            }
            (Dart | JavaScript, 'u') => {
                if r.peek() == Some('{') {
                    let n = r.braced(6)?;
                    v.ch(scalar(n)?);
                } else {
                    let n = r.num(16, 4, 4)?;
                    v.unit(n)?;
                }
            }
            (JavaScript, '0') => {
                if r.peek().is_some_and(|c| c.is_ascii_digit()) {
                    return Err("\\0 followed by a digit is a legacy octal escape".into());
                }
                v.ch('\0');
            }
            (JavaScript, '1'..='9') => return Err("legacy octal escape".into()),
            (JavaScript, '\n' | '\r' | '\u{2028}' | '\u{2029}') => {}
            // Identity escapes.
            (Dart | JavaScript, c) => v.ch(c),
            (Nix, c) => v.ch(c),
            (_, c) => return Err(format!("unknown escape \\{c:?}")),
        }
        java_even = true;
    }
    let text = v.finish()?;
    if !text.is_empty() {
        parts.push(Part::Text(text));
    }
    Ok((parts, r.s))
}

/// The source of an interpolated expression up to its closing brace.
fn expr(lang: LangId, r: &mut Rd<'_>) -> Result<String, String> {
    let mut out = String::new();
    let mut depth = 0;
    loop {
        let c = r.peek().ok_or("interpolation is not terminated")?;
        match c {
            '"' | '`' if c == '"' || lang == LangId::JavaScript => {
                let before = r.s;
                let (_, rest) = decode(lang, before)?;
                out.push_str(&before[..before.len() - rest.len()]);
                r.s = rest;
                continue;
            }
            '{' => depth += 1,
            '}' if depth == 0 => {
                r.next()?;
                return Ok(out);
            }
            '}' => depth -= 1,
            _ => {}
        }
        out.push(c);
        r.next()?;
    }
}

/// Decode a complete plain literal.
pub fn decode_all(lang: LangId, src: &str) -> Result<String, String> {
    let (parts, rest) = decode(lang, src)?;
    if !rest.is_empty() {
        return Err(format!("text after the end of the literal: {rest:?}"));
    }
    match parts.as_slice() {
        [] => Ok(String::new()),
        [Part::Text(t)] => Ok(t.clone()),
        _ => Err(format!("literal interpolates: {parts:?}")),
    }
}
