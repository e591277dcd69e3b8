//! Operation histories on token streams, a reference stream model and a
//! reference renderer, written independently of genco's implementation.

use genco::fmt;
use genco::tokens::{from_fn, quoted, static_literal, Item, ItemStr};
use genco::{impl_lang, quote, quote_fn, quote_in, Tokens};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::Write as _;

pub use crate::stream::*;

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Imp(pub u32);

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Other(pub u32);

impl_lang! {
    pub TLang {
        type Config = ();
        type Format = ();
        type Item = Any;

        fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
            for c in input.chars() {
                if c == '"' || c == '\\' {
                    out.write_char('\\')?;
                }
                out.write_char(c)?;
            }
            Ok(())
        }

        fn start_string_eval(out: &mut fmt::Formatter<'_>, _: &(), _: &()) -> fmt::Result {
            out.write_str("#{")
        }

        fn end_string_eval(out: &mut fmt::Formatter<'_>, _: &(), _: &()) -> fmt::Result {
            out.write_str("}#")
        }
    }

    Imp {
        fn format(&self, out: &mut fmt::Formatter<'_>, _: &(), _: &()) -> fmt::Result {
            // Written in two pieces: pending whitespace must be realised once.
            out.write_str("I")?;
            write!(out, "{}", self.0)
        }
    }

    Other {
        fn format(&self, out: &mut fmt::Formatter<'_>, _: &(), _: &()) -> fmt::Result {
            write!(out, "Other{}", self.0)
        }
    }
}

impl genco::lang::LangSupportsEval for TLang {}

pub type T = Tokens<TLang>;

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum Op {
    Lit(String, u8),
    Space(u8),
    Push(u8),
    Line(u8),
    Indent(u8),
    Unindent(u8),
    Indentation(i8),
    /// Append (renders) import `n`.
    Use(u8, u8),
    /// Register (does not render) import `n`.
    Reg(u8, u8),
    /// A tuple registration of several imports.
    RegMany(Vec<u8>),
    /// A quoted string consisting of pieces.
    Str(Vec<Piece>),
    Nest(u8, Vec<Op>),
    /// `indent; ops; unindent`.
    Block(Vec<Op>),
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum Piece {
    Text(String),
    Space,
    Eval(Vec<Op>),
    /// An import used within the string (register only: no text).
    Reg(u8),
    /// Rendered import in a string.
    Use(u8),
}

/// Import number `n`: odd numbers are of the second item kind.
pub fn any_of(n: u8) -> Any {
    if n % 2 == 0 {
        Any::Imp(Imp(n as u32))
    } else {
        Any::Other(Other(n as u32))
    }
}

static STATICS: [&str; 12] = ["", "a", "b", "foo", "x y", ";", "{", "}", " ", "é", "\t", "()"];

pub fn lit_how(s: &str, how: u8) -> u8 {
    // Static storage is only possible for known texts.
    if how % 6 == 1 && !STATICS.contains(&s) {
        0
    } else {
        how % 6
    }
}

/// Apply operations to the real stream.
pub fn apply(t: &mut T, ops: &[Op]) {
    for op in ops {
        match op {
            Op::Lit(s, how) => match lit_how(s, *how) {
                0 => t.append(s.as_str()),
                1 => {
                    let st = STATICS.iter().find(|x| *x == s).unwrap();
                    t.append(static_literal(st));
                }
                2 => t.append(s.clone()),
                3 => t.append(Item::Literal(ItemStr::from(s.as_str()))),
                4 => t.append(ItemStr::Box(s.clone().into_boxed_str())),
                _ => t.extend(std::iter::once(Item::Literal(ItemStr::from(s)))),
            },
            Op::Space(how) => match how % 4 {
                0 => t.space(),
                1 => t.append(Item::Space),
                2 => t.extend([Item::Space]),
                _ => quote_in!(*t => $[' ']),
            },
            Op::Push(how) => match how % 4 {
                0 => t.push(),
                1 => t.append(Item::Push),
                2 => t.extend([Item::Push]),
                _ => quote_in!(*t => $['\r']),
            },
            Op::Line(how) => match how % 4 {
                0 => t.line(),
                1 => t.append(Item::Line),
                2 => t.extend([Item::Line]),
                _ => quote_in!(*t => $['\n']),
            },
            Op::Indent(how) => match how % 3 {
                0 => t.indent(),
                1 => t.append(Item::Indentation(1)),
                _ => t.extend(vec![Item::Indentation(1)]),
            },
            Op::Unindent(how) => match how % 3 {
                0 => t.unindent(),
                1 => t.append(Item::Indentation(-1)),
                _ => t.extend(vec![Item::Indentation(-1)]),
            },
            Op::Indentation(n) => t.append(Item::Indentation(*n as i16)),
            Op::Use(n, how) => match any_of(*n) {
                Any::Imp(i) => use_how(t, i, *how),
                Any::Other(i) => use_how(t, i, *how),
            },
            Op::Reg(n, how) => match any_of(*n) {
                Any::Imp(i) => reg_how(t, i, *how),
                Any::Other(i) => reg_how(t, i, *how),
            },
            Op::RegMany(ns) => {
                let i = |k: usize| Imp((ns[k] & !1) as u32);
                match ns.len() {
                    0 => (),
                    1 => t.register((i(0),)),
                    2 => t.register((i(0), i(1))),
                    3 => t.register((i(0), i(1), i(2))),
                    4 => t.append(genco::tokens::register((i(0), i(1), i(2), i(3)))),
                    5 => t.register((i(0), i(1), i(2), i(3), i(4))),
                    6 => t.register((i(0), i(1), i(2), i(3), i(4), i(5))),
                    7 => t.register((i(0), i(1), i(2), i(3), i(4), i(5), i(6))),
                    _ => t.register((i(0), i(1), i(2), i(3), i(4), i(5), i(6), i(7))),
                }
            }
            Op::Str(pieces) => {
                let has_eval = pieces.iter().any(|p| matches!(p, Piece::Eval(_)));
                let inner = |t: &mut T| {
                    for p in pieces {
                        match p {
                            Piece::Text(s) => t.append(s.as_str()),
                            Piece::Space => t.space(),
                            Piece::Eval(ops) => {
                                t.append(Item::OpenEval);
                                apply(t, ops);
                                t.append(Item::CloseEval);
                            }
                            Piece::Reg(n) => match any_of(*n) {
                                Any::Imp(i) => t.register(i),
                                Any::Other(i) => t.register(i),
                            },
                            Piece::Use(n) => match any_of(*n) {
                                Any::Imp(i) => t.append(i),
                                Any::Other(i) => t.append(i),
                            },
                        }
                    }
                };
                if has_eval {
                    t.append(Item::OpenQuote(true));
                    inner(t);
                    t.append(Item::CloseQuote);
                } else {
                    t.append(quoted(from_fn(inner)));
                }
            }
            Op::Nest(how, ops) => nest(t, *how, ops),
            Op::Block(ops) => {
                t.indent();
                apply(t, ops);
                t.unindent();
            }
        }
    }
}

fn use_how<I>(t: &mut T, i: I, how: u8)
where
    I: genco::tokens::FormatInto<TLang> + Clone,
    for<'a> &'a I: genco::tokens::FormatInto<TLang>,
{
    match how % 4 {
        0 => t.append(i),
        1 => t.append(&i),
        2 => quote_in!(*t => $i),
        _ => {
            let r = &i;
            t.append(quote!($r))
        }
    }
}

fn reg_how<I>(t: &mut T, i: I, how: u8)
where
    I: genco::tokens::Register<TLang> + Clone,
    for<'a> &'a I: genco::tokens::Register<TLang>,
{
    match how % 4 {
        0 => t.register(i),
        1 => t.register(&i),
        2 => t.append(genco::tokens::register(i)),
        _ => quote_in!(*t => $(genco::tokens::register(&i))),
    }
}

/// An iterator which knows little about how many items are left.
struct Loose<I>(I, Option<usize>);

impl<I: Iterator> Iterator for Loose<I> {
    type Item = I::Item;

    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, self.1)
    }
}

pub const NEST_HOWS: u8 = 18;

/// Nestings which operate directly on the receiver instead of appending a finished stream.
pub fn nest_is_direct(how: u8) -> bool {
    matches!(how % NEST_HOWS, 6 | 12)
}

fn nest(t: &mut T, how: u8, ops: &[Op]) {
    let how = how % NEST_HOWS;
    if how == 6 {
        t.append(from_fn(|t| apply(t, ops)));
        return;
    }
    if how == 12 {
        quote_in!(*t => $(ref t => apply(t, ops);));
        return;
    }
    let sub = build(ops);
    match how {
        0 => t.append(sub),
        1 => t.append(&sub),
        2 => t.extend(sub),
        3 => t.extend(sub.iter().cloned()),
        4 => t.append(sub.into_iter().collect::<T>()),
        5 => t.append(sub.iter().collect::<T>()),
        7 => t.append(vec![sub]),
        8 => t.append(Some(sub)),
        9 => quote_in!(*t => $sub),
        10 => t.append(quote!($sub)),
        11 => t.append(sub.clone()),
        14 => t.extend(Loose(sub.into_iter(), Some(usize::MAX))),
        15 => t.append(Loose(sub.into_iter(), None).collect::<T>()),
        16 => t.append(Loose(sub.iter(), Some(usize::MAX)).collect::<T>()),
        17 => t.append(Loose(sub.iter().cloned(), Some(usize::MAX / 2)).collect::<T>()),
        _ => t.append(quote_fn!($sub)),
    }
}

pub fn build(ops: &[Op]) -> T {
    let mut t = T::new();
    apply(&mut t, ops);
    t
}

impl Model {
    pub fn apply(&mut self, ops: &[Op]) {
        for op in ops {
            match op {
                Op::Lit(s, _) => self.add(MI::Lit(s.clone())),
                Op::Space(_) => self.add(MI::Space),
                Op::Push(_) => self.add(MI::Push),
                Op::Line(_) => self.add(MI::Line),
                Op::Indent(_) => self.add(MI::Ind(1)),
                Op::Unindent(_) => self.add(MI::Ind(-1)),
                Op::Indentation(n) => self.add(MI::Ind(*n as i32)),
                Op::Use(n, _) => self.add(MI::Use(*n as u32, n % 2 == 1)),
                Op::Reg(n, _) => self.add(MI::Reg(*n as u32, n % 2 == 1)),
                Op::RegMany(ns) => {
                    for n in ns.iter().take(8) {
                        self.add(MI::Reg((n & !1) as u32, false));
                    }
                }
                Op::Str(pieces) => {
                    let e = pieces.iter().any(|p| matches!(p, Piece::Eval(_)));
                    self.add(MI::Open(e));
                    for p in pieces {
                        match p {
                            Piece::Text(s) => self.add(MI::Lit(s.clone())),
                            Piece::Space => self.add(MI::Space),
                            Piece::Eval(ops) => {
                                self.add(MI::OEval);
                                self.apply(ops);
                                self.add(MI::CEval);
                            }
                            Piece::Reg(n) => self.add(MI::Reg(*n as u32, n % 2 == 1)),
                            Piece::Use(n) => self.add(MI::Use(*n as u32, n % 2 == 1)),
                        }
                    }
                    self.add(MI::Close);
                }
                Op::Nest(how, ops) => {
                    if nest_is_direct(*how) {
                        self.apply(ops);
                    } else {
                        let mut sub = Model::default();
                        sub.apply(ops);
                        for i in sub.items {
                            self.add(i);
                        }
                    }
                }
                Op::Block(ops) => {
                    self.add(MI::Ind(1));
                    self.apply(ops);
                    self.add(MI::Ind(-1));
                }
            }
        }
    }

    pub fn of(ops: &[Op]) -> Model {
        let mut m = Model::default();
        m.apply(ops);
        m
    }
}

/// The real items of a stream, in model form.
pub fn items_of(t: &T) -> Vec<MI> {
    t.iter()
        .map(|i| {
            let any = |a: &Any| match a {
                Any::Imp(Imp(n)) => (*n, false),
                Any::Other(Other(n)) => (*n, true),
            };
            match i {
                Item::Literal(s) => MI::Lit(s.to_string()),
                Item::Lang(_, a) => MI::Use(any(a).0, any(a).1),
                Item::Register(_, a) => MI::Reg(any(a).0, any(a).1),
                Item::Push => MI::Push,
                Item::Line => MI::Line,
                Item::Space => MI::Space,
                Item::Indentation(n) => MI::Ind(*n as i32),
                Item::OpenQuote(b) => MI::Open(*b),
                Item::CloseQuote => MI::Close,
                Item::OpenEval => MI::OEval,
                Item::CloseEval => MI::CEval,
                #[allow(unreachable_patterns)]
                _ => MI::Lit("<unknown item>".into()),
            }
        })
        .collect()
}

// ---------------------------------------------------------------- generators

pub fn lit() -> BoxedStrategy<String> {
    prop_oneof![
        6 => prop::sample::select(vec!["a", "b", "foo", ";", "{", "}", "()", "é"]).prop_map(String::from),
        2 => "[a-zA-Z_(){};,.<>=+é世😊-]{1,8}",
        1 => Just(String::new()),
        1 => prop::sample::select(vec!["x y", " ", "\t", "end ", " start", "a\nb", "\"q\"", "\\"]).prop_map(String::from),
    ]
    .boxed()
}

/// A list of up to `n` elements, or now and then of eight times as many.
pub fn some<S>(s: S, n: usize) -> BoxedStrategy<Vec<S::Value>>
where
    S: Strategy + Clone + 'static,
{
    prop_oneof![
        24 => prop::collection::vec(s.clone(), 0..n),
        1 => prop::collection::vec(s, 0..n * 8),
    ]
    .boxed()
}

pub fn leaf(strings: bool) -> BoxedStrategy<Op> {
    let h = any::<u8>();
    let base = prop_oneof![
        8 => (lit(), h).prop_map(|(s, h)| Op::Lit(s, h)),
        5 => h.prop_map(Op::Space),
        5 => h.prop_map(Op::Push),
        5 => h.prop_map(Op::Line),
        4 => h.prop_map(Op::Indent),
        4 => h.prop_map(Op::Unindent),
        1 => (-3i8..=3).prop_map(Op::Indentation),
        2 => (0u8..8, h).prop_map(|(n, h)| Op::Use(n, h)),
        2 => (0u8..8, h).prop_map(|(n, h)| Op::Reg(n, h)),
        1 => some(0u8..8, 9).prop_map(Op::RegMany),
    ];
    if strings {
        prop_oneof![
            12 => base,
            1 => some(piece(), 5).prop_map(Op::Str),
        ]
        .boxed()
    } else {
        base.boxed()
    }
}

pub fn piece() -> BoxedStrategy<Piece> {
    prop_oneof![
        4 => lit().prop_map(|s| Piece::Text(s.replace('\n', ""))),
        2 => Just(Piece::Space),
        1 => (0u8..8).prop_map(Piece::Reg),
        1 => (0u8..8).prop_map(Piece::Use),
        2 => some(eval_op(), 4).prop_map(Piece::Eval),
    ]
    .boxed()
}

fn eval_op() -> BoxedStrategy<Op> {
    prop_oneof![
        4 => (lit(), any::<u8>()).prop_map(|(s, h)| Op::Lit(s.replace('\n', ""), h)),
        2 => any::<u8>().prop_map(Op::Space),
        1 => (0u8..8, any::<u8>()).prop_map(|(n, h)| Op::Reg(n, h)),
        1 => prop::collection::vec(lit().prop_map(|s| Piece::Text(s.replace('\n', ""))), 0..3).prop_map(Op::Str),
    ]
    .boxed()
}

pub fn op(strings: bool) -> BoxedStrategy<Op> {
    leaf(strings)
        .prop_recursive(4, 48, 8, |inner| {
            prop_oneof![
                3 => (0..NEST_HOWS, prop::collection::vec(inner.clone(), 0..8))
                    .prop_map(|(h, o)| Op::Nest(h, o)),
                1 => prop::collection::vec(inner, 0..8).prop_map(Op::Block),
            ]
        })
        .boxed()
}

pub fn history(strings: bool, max: usize) -> BoxedStrategy<Vec<Op>> {
    some(prop_oneof![3 => leaf(strings), 2 => op(strings)].boxed(), max)
}
