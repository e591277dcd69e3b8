//! C18: comment helpers.

use crate::c06::item_str;
use crate::model::{self, diff, history, Model, Op, MI};
use crate::run::Ctx;
use genco::lang::{csharp, dart, java, Csharp, Dart, Java, Lang};
use genco::tokens::{from_fn, FormatInto, ItemStr, Tokens};
use genco::{fmt, quote_in};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    Java,
    CsharpDoc,
    Csharp,
    Dart,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum El {
    Ops(Vec<Op>),
    /// Lines, how they are given, how the comment is added, and what ends its last line.
    Comment(Vec<String>, u8, u8, u8),
    Block(Vec<El>),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    kind: Kind,
    els: Vec<El>,
    /// Spaces per level, 0 for a tab.
    unit: u8,
}

/// Plain text and layout, in any language.
fn put<L: Lang>(t: &mut Tokens<L>, ops: &[Op]) {
    for op in ops {
        match op {
            Op::Lit(s, _) => t.append(s.as_str()),
            Op::Space(_) => t.space(),
            Op::Push(_) => t.push(),
            Op::Line(_) => t.line(),
            Op::Indent(_) => t.indent(),
            Op::Unindent(_) => t.unindent(),
            Op::Indentation(n) => t.append(genco::tokens::Item::Indentation(*n as i16)),
            Op::Nest(how, ops) => {
                if model::nest_is_direct(*how) {
                    put(t, ops)
                } else {
                    let mut s = Tokens::new();
                    put(&mut s, ops);
                    t.append(s);
                }
            }
            Op::Block(ops) => {
                t.indent();
                put(t, ops);
                t.unindent();
            }
            Op::Use(..) | Op::Reg(..) | Op::RegMany(_) | Op::Str(_) => unreachable!(),
        }
    }
}

fn plain(ops: Vec<Op>) -> Vec<Op> {
    ops.into_iter()
        .filter_map(|o| match o {
            Op::Use(..) | Op::Reg(..) | Op::RegMany(_) | Op::Str(_) => None,
            Op::Nest(h, o) => Some(Op::Nest(h, plain(o))),
            Op::Block(o) => Some(Op::Block(plain(o))),
            o => Some(o),
        })
        .collect()
}

macro_rules! given {
    ($t:expr, $lines:expr, $how:expr, $add:expr, $f:path) => {{
        let (t, lines, add): (&mut _, &Vec<String>, u8) = ($t, $lines, $add);
        match $how % 10 {
            0 => place(t, add, $f(lines)),
            1 => place(t, add, $f(lines.clone())),
            2 => place(t, add, $f(lines.iter().map(String::as_str))),
            3 => place(t, add, $f(lines.iter().map(|s| item_str(s, add)).collect::<Vec<ItemStr>>())),
            4 => place(t, add, $f(lines.iter().map(|s| std::borrow::Cow::Borrowed(s.as_str())))),
            5 if lines.len() == 1 => place(t, add, $f(Some(lines[0].as_str()))),
            6 if lines.len() == 2 => place(t, add, $f([lines[0].as_str(), lines[1].as_str()])),
            7 => place(t, add, $f(lines.iter().map(String::as_str).collect::<std::collections::VecDeque<_>>())),
            // An iterator which does not know its length.
            8 => {
                let mut it = lines.iter();
                place(t, add, $f(std::iter::from_fn(move || it.next())))
            }
            _ => place(t, add, $f(&lines[..])),
        }
    }};
}

fn place<L: Lang>(t: &mut Tokens<L>, how: u8, c: impl FormatInto<L>) {
    match how % 5 {
        0 => t.append(c),
        1 => quote_in!(*t => $c),
        2 => t.append(Some(c)),
        3 => t.append(from_fn(|t: &mut Tokens<L>| c.format_into(t))),
        _ => c.format_into(t),
    }
}

trait Comments: Lang {
    fn comment(t: &mut Tokens<Self>, kind: Kind, lines: &Vec<String>, how: u8, add: u8);
}

impl Comments for Java {
    fn comment(t: &mut Tokens<Self>, _: Kind, lines: &Vec<String>, how: u8, add: u8) {
        given!(t, lines, how, add, java::block_comment)
    }
}

impl Comments for Csharp {
    fn comment(t: &mut Tokens<Self>, kind: Kind, lines: &Vec<String>, how: u8, add: u8) {
        match kind {
            Kind::Csharp => given!(t, lines, how, add, csharp::comment),
            _ => given!(t, lines, how, add, csharp::block_comment),
        }
    }
}

impl Comments for Dart {
    fn comment(t: &mut Tokens<Self>, _: Kind, lines: &Vec<String>, how: u8, add: u8) {
        given!(t, lines, how, add, dart::doc_comment)
    }
}

/// What ends the last line of a comment.
fn end(n: u8) -> MI {
    match n % 3 {
        0 => MI::Push,
        1 => MI::Line,
        _ => MI::Ind(0),
    }
}

fn add<L: Comments>(t: &mut Tokens<L>, kind: Kind, els: &[El]) {
    for e in els {
        match e {
            El::Ops(o) => put(t, o),
            El::Comment(lines, how, at, e) => {
                L::comment(t, kind, lines, *how, *at);
                if !lines.is_empty() {
                    match end(*e) {
                        MI::Line => t.line(),
                        _ => t.push(),
                    }
                    if lines.last().is_some_and(|l| l.is_empty()) {
                        // Indentation which cancels out takes back the line break, and
                        // nothing is said about text right after an empty comment line.
                        t.append("~");
                    }
                }
            }
            El::Block(els) => {
                t.indent();
                add(t, kind, els);
                t.unindent();
            }
        }
    }
}

fn expect(m: &mut Model, kind: Kind, els: &[El]) {
    for e in els {
        match e {
            El::Ops(o) => m.apply(o),
            El::Comment(lines, _, _, e) => {
                expect_comment(m, kind, lines, *e);
                if lines.last().is_some_and(|l| l.is_empty()) {
                    m.add(MI::Lit("~".into()));
                }
            }
            El::Block(els) => {
                m.add(MI::Ind(1));
                expect(m, kind, els);
                m.add(MI::Ind(-1));
            }
        }
    }
}

fn expect_comment(m: &mut Model, kind: Kind, lines: &[String], e: u8) {
    if lines.is_empty() {
        return;
    }
    let marker = match kind {
        Kind::Java => " *",
        Kind::Csharp => "//",
        _ => "///",
    };
    if kind == Kind::Java {
        m.add(MI::Push);
        m.add(MI::Lit("/**".into()));
    }
    for l in lines {
        m.add(MI::Push);
        let sp = if l.is_empty() { "" } else { " " };
        m.add(MI::Lit(format!("{marker}{sp}{l}")));
    }
    if kind == Kind::Java {
        m.add(MI::Push);
        m.add(MI::Lit(" */".into()));
    }
    match end(e) {
        MI::Line => m.add(MI::Line),
        _ => m.add(MI::Push),
    }
}

fn case(c: &Case) -> Result<(), String> {
    fn go<L: Comments>(c: &Case, lang: L::Config) -> Result<(), String> {
        let mut t: Tokens<L> = Tokens::new();
        add(&mut t, c.kind, &c.els);
        let (i, unit) = match c.unit {
            0 => (fmt::Indentation::Tab, "\t".to_string()),
            n => (fmt::Indentation::Space(n as usize), " ".repeat(n as usize)),
        };
        let conf = fmt::Config::from_lang::<L>().with_indentation(i);
        let mut got = String::new();
        let mut w = fmt::FmtWriter::new(&mut got);
        t.format(&mut w.as_formatter(&conf), &lang, &L::Format::default())
            .map_err(|e| format!("{e:?}"))?;
        let mut m = Model::default();
        expect(&mut m, c.kind, &c.els);
        let want = model::render(&m.items, &unit, "\n");
        if got != want {
            return Err(diff(&want, &got));
        }
        // Each comment on its own.
        for lines in all(&c.els) {
            let mut t: Tokens<L> = Tokens::new();
            L::comment(&mut t, c.kind, lines, c.unit, c.unit);
            let mut m = Model::default();
            expect_comment(&mut m, c.kind, lines, 0);
            let want = model::render(&m.items, "    ", "\n");
            let mut got = String::new();
            let fc = fmt::Config::from_lang::<L>();
            let mut w = fmt::FmtWriter::new(&mut got);
            t.format(&mut w.as_formatter(&fc), &lang, &L::Format::default())
                .map_err(|e| format!("{e:?}"))?;
            if got != want {
                return Err(format!("on its own: {}", diff(&want, &got)));
            }
            if lines.is_empty() != (t.iter().count() == 0) {
                return Err(format!("{} lines, {} items", lines.len(), t.iter().count()));
            }
        }
        // Nothing but lines: no import is added.
        if t.walk_imports().next().is_some() {
            return Err("a comment imports something".into());
        }
        // Rendered as a file it is the same.
        let mut file = String::new();
        let mut w = fmt::FmtWriter::new(&mut file);
        t.format_file(&mut w.as_formatter(&conf), &lang).map_err(|e| format!("{e:?}"))?;
        if file != format!("{want}\n") {
            return Err(format!("file: {}", diff(&format!("{want}\n"), &file)));
        }
        Ok(())
    }
    match c.kind {
        Kind::Java => go::<Java>(c, java::Config::default()),
        Kind::Dart => go::<Dart>(c, dart::Config::default()),
        _ => go::<Csharp>(c, csharp::Config::default()),
    }
}

fn line() -> BoxedStrategy<String> {
    prop_oneof![
        3 => Just(String::new()),
        3 => "[a-zA-Z.,<>/@ {}]{0,12}",
        1 => any::<String>(),
        1 => prop::sample::select(vec![" ", "  two  ", "\t", "/", "*", "*/ no", "<summary>", "$x", "a\\", "//", "é世"]).prop_map(String::from),
    ]
    .prop_map(|s| s.replace(['\n', '\r'], "").replace("*/", "* /"))
    .boxed()
}

fn els() -> BoxedStrategy<Vec<El>> {
    let h = any::<u8>;
    let leaf = prop_oneof![
        2 => history(false, 6).prop_map(|o| El::Ops(plain(o).into_iter().filter(|o| !matches!(o, Op::Lit(s, _) if s.contains('\n'))).collect())),
        3 => (crate::model::some(line(), 6), h(), h(), h()).prop_map(|(l, a, b, c)| El::Comment(l, a, b, c)),
    ];
    prop::collection::vec(
        leaf.prop_recursive(3, 16, 4, |i| prop::collection::vec(i, 0..4).prop_map(El::Block)),
        1..6,
    )
    .boxed()
}

fn all(els: &[El]) -> Vec<&Vec<String>> {
    els.iter()
        .flat_map(|e| match e {
            El::Comment(l, ..) => vec![l],
            El::Block(e) => all(e),
            _ => vec![],
        })
        .collect()
}

fn comments(els: &[El]) -> usize {
    els.iter()
        .map(|e| match e {
            El::Comment(l, ..) if !l.is_empty() => 1,
            El::Block(e) => comments(e),
            _ => 0,
        })
        .sum()
}

pub fn check(cx: &mut Ctx) {
    for kind in [Kind::Java, Kind::CsharpDoc, Kind::Csharp, Kind::Dart] {
        let n = cx.n(15_000, 500_000);
        cx.part(
            &format!("comments-{kind:?}"),
            "at least one comment with a line; lines of any text without line breaks (and, for Java, without the end marker), given as ten kinds of sequence, added in five ways among arbitrary text and indentation; oracle: reference layout",
            n,
            || (els(), 0u8..6).prop_map(move |(els, unit)| Case { kind, els, unit }),
            |c| comments(&c.els) > 0,
            case,
        );
    }
    cx.part(
        "wide",
        "one to three lines of up to 64 kB, in all kinds of comments; same oracle; non-trivial: a line longer than a hundred bytes",
        cx.n(400, 15_000),
        || {
            let c = prop_oneof![
                2 => prop::sample::select(vec!['a', ' ', 'é', '世', '😊', '-', '.', '"']),
                1 => any::<char>().prop_filter("line", |c| !matches!(c, '\n' | '\r' | '*' | '/') && !c.is_control() && !c.is_whitespace()),
            ];
            let l = prop::collection::vec(crate::c07::long(c.boxed()), 1..4);
            (prop::sample::select(vec![Kind::Java, Kind::CsharpDoc, Kind::Csharp, Kind::Dart]), l, any::<(u8, u8, u8)>(), 0u8..6)
        },
        |(_, l, ..)| l.iter().any(|l| l.size > 100),
        |(kind, l, (how, add, last), unit)| {
            let lines = l.iter().map(|l| l.text()).collect();
            case(&Case { kind: *kind, els: vec![El::Ops(vec![Op::Lit("x".into(), 0)]), El::Comment(lines, *how, *add, *last)], unit: *unit })
        },
    );
    // Every short sequence of short lines at every level.
    let mut all = Vec::new();
    let texts = ["", "a", " "];
    for kind in [Kind::Java, Kind::CsharpDoc, Kind::Csharp, Kind::Dart] {
        for n in 0..4u32 {
            for k in 0..3usize.pow(n) {
                let lines: Vec<String> = (0..n).map(|i| texts[k / 3usize.pow(i) % 3].to_string()).collect();
                for level in 0..3 {
                    for before in 0..6 {
                        for how in 0..10 {
                            let after = if how % 2 == 0 { "y" } else { "" };
                            let pre = match before {
                                0 => vec![],
                                1 => vec![Op::Lit("x".into(), 0)],
                                2 => vec![Op::Lit("x".into(), 0), Op::Space(0)],
                                3 => vec![Op::Lit("x".into(), 0), Op::Push(0)],
                                4 => vec![Op::Lit("x".into(), 0), Op::Line(0)],
                                _ => vec![Op::Lit("x".into(), 0), Op::Indent(0)],
                            };
                            let mut els = vec![
                                El::Ops(pre),
                                El::Comment(lines.clone(), how, how / 2 + before, level + before),
                                El::Ops(vec![Op::Lit(after.into(), 0)]),
                            ];
                            for _ in 0..level {
                                els = vec![El::Block(els)];
                            }
                            all.push(Case { kind, els, unit: 4 });
                        }
                    }
                }
            }
        }
    }
    cx.list(
        "small",
        "at least one line; every sequence of up to three lines out of three texts, at three levels, after six contexts, given in ten ways",
        all,
        |c| comments(&c.els) > 0,
        case,
    );
}
