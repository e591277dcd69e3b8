//! What generated programs use besides genco itself. Uses no macro of genco's.

pub use genco::tokens::{quoted, register, static_literal, Item, ItemStr};
pub use genco::Tokens;
pub use std::cell::RefCell;

use genco::fmt;
use std::fmt::Write as _;

genco::impl_lang! {
    pub TLang {
        type Config = ();
        type Format = ();
        type Item = Any;

        fn open_quote(out: &mut fmt::Formatter<'_>, _: &(), _: &(), has_eval: bool) -> fmt::Result {
            out.write_str(if has_eval { "e\"" } else { "\"" })
        }

        fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
            for c in input.chars() {
                if c == '"' || c == '\\' {
                    out.write_char('\\')?;
                }
                out.write_char(c)?;
            }
            Ok(())
        }

        fn start_string_eval(out: &mut fmt::Formatter<'_>, _: &(), _: &()) -> fmt::Result {
            out.write_str("#{")
        }

        fn end_string_eval(out: &mut fmt::Formatter<'_>, _: &(), _: &()) -> fmt::Result {
            out.write_str("}#")
        }
    }

    Imp {
        fn format(&self, out: &mut fmt::Formatter<'_>, _: &(), _: &()) -> fmt::Result {
            write!(out, "I{}", self.0)
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Imp(pub u32);

impl genco::lang::LangSupportsEval for TLang {}

/// A language without string interpolation.
mod plain {
    use genco::fmt;
    use std::fmt::Write as _;

    genco::impl_lang! {
        pub Plain {
            type Config = ();
            type Format = ();
            type Item = Any;
        }

        PlainImp {
            fn format(&self, out: &mut fmt::Formatter<'_>, _: &(), _: &()) -> fmt::Result {
                write!(out, "I{}", self.0)
            }
        }
    }

    #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct PlainImp(pub u32);
}

pub use plain::Plain;

pub type T = Tokens<TLang>;
pub type Log = RefCell<Vec<u32>>;

/// Record that place `id` was evaluated.
pub fn lg<V>(l: &Log, id: u32, v: V) -> V {
    l.borrow_mut().push(id);
    v
}

#[derive(Debug, Clone, Copy)]
pub enum E {
    A,
    B(i64),
    C { s: &'static str, n: i64 },
}

/// Data a generated program ranges over.
#[derive(Debug, Clone)]
pub struct D {
    pub xs0: Vec<i64>,
    pub xs1: Vec<i64>,
    pub ss: Vec<&'static str>,
    pub b0: bool,
    pub b1: bool,
    pub o0: Option<i64>,
    pub o1: Option<i64>,
    pub e0: E,
    pub e1: E,
    pub n0: i64,
}

/// Stream `lines` joined by pushes.
pub fn multi(first_push: bool, lines: &[&'static str]) -> T {
    let mut t = T::new();
    for (i, l) in lines.iter().enumerate() {
        if i > 0 || first_push {
            t.push();
        }
        t.append(*l);
    }
    t
}

/// `{`, an indented `x`, `}`.
pub fn block() -> T {
    let mut t = T::new();
    t.append("{");
    t.indent();
    t.append("x");
    t.unindent();
    t.append("}");
    t
}

/// Stream content which precedes a quotation.
pub fn prior(k: u8) -> T {
    let mut t = T::new();
    if k > 0 {
        t.append("p");
    }
    match k {
        2 => t.space(),
        3 => t.push(),
        4 => t.line(),
        5 => t.indent(),
        6 => {
            t.indent();
            t.append("q");
            t.unindent();
        }
        _ => (),
    }
    t
}

/// The rendering of a stream followed by a probe which shows its final indentation.
pub fn show(t: &T) -> String {
    let mut t = t.clone();
    t.push();
    t.append("END");
    match t.to_string() {
        Ok(s) => s,
        Err(e) => format!("error {e:?}"),
    }
}

pub fn show_log(l: &Log) -> String {
    format!("{:?}", l.borrow())
}

/// Print one result line: case number and strings.
pub fn emit(k: usize, strings: Result<Vec<String>, String>) {
    let mut o = format!("{k}");
    match strings {
        Ok(v) => {
            for s in v {
                o.push('\t');
                o.push_str(&esc(&s));
            }
        }
        Err(e) => {
            o.push_str("\tPANIC\t");
            o.push_str(&esc(&e));
        }
    }
    println!("{o}");
}

fn esc(s: &str) -> String {
    let mut o = String::from("=");
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c => o.push(c),
        }
    }
    o
}

/// Run a case, turning a panic into a result.
pub fn run(k: usize, f: impl FnOnce() -> Vec<String>) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    emit(
        k,
        r.map_err(|e| {
            e.downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default()
        }),
    );
}

pub fn only_push() -> T {
    let mut t = T::new();
    t.push();
    t
}

pub fn word_line() -> T {
    let mut t = T::new();
    t.append("w");
    t.line();
    t
}

pub type Counter = std::cell::Cell<i64>;

/// Count an evaluation.
pub fn tick(c: &Counter) -> i64 {
    c.set(c.get() + 1);
    c.get()
}
