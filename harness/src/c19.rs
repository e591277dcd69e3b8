//! C19: languages defined with the language macro.

use crate::langs::add_item;
use crate::model::{self, Model, Render, MI};
use crate::run::Ctx;
use genco::fmt;
use genco::lang::Lang;
use genco::tokens::{from_fn, quoted, Item, Tokens};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::fmt::Write as _;

#[derive(Debug, Clone)]
pub struct Conf {
    tag: String,
    /// The number of the hook call which fails.
    fail: Option<usize>,
}

thread_local! {
    /// The hook call which fails by the default configuration.
    static FAIL: Cell<Option<usize>> = const { Cell::new(None) };
}

impl Default for Conf {
    fn default() -> Self {
        Conf { tag: String::new(), fail: FAIL.get() }
    }
}

/// State of one rendering.
#[derive(Debug, Default)]
pub struct State {
    n: Cell<u32>,
    log: RefCell<Vec<String>>,
}

impl State {
    fn call(&self, c: &Conf, what: String) -> fmt::Result {
        let mut log = self.log.borrow_mut();
        log.push(what);
        match c.fail {
            Some(n) if n + 1 == log.len() => Err(std::fmt::Error),
            _ => Ok(()),
        }
    }
}

/// What a language defines by itself.
#[derive(Debug, Clone, Copy, Default)]
pub struct Hooks {
    open: bool,
    close: bool,
    lit: bool,
    start: bool,
    end: bool,
    quote: bool,
    file: bool,
    /// Default indentation, a tab if 0.
    indent: Option<usize>,
}

pub trait Custom: Lang<Config = Conf, Format = State> {
    fn hooks() -> Hooks;
    fn add(t: &mut Tokens<Self>, kind: u8, s: &str, how: u8, reg: bool);
    fn kind(i: &Self::Item) -> (u8, String);
}

macro_rules! open_hook {
    () => {
        fn open_quote(out: &mut fmt::Formatter<'_>, c: &Conf, s: &State, e: bool) -> fmt::Result {
            s.call(c, format!("open {e}"))?;
            write!(out, "{}[{}:", c.tag, e as u8)
        }
    };
}

macro_rules! close_hook {
    () => {
        fn close_quote(out: &mut fmt::Formatter<'_>, c: &Conf, s: &State, e: bool) -> fmt::Result {
            s.call(c, format!("close {e}"))?;
            out.write_char(':')?;
            write!(out, "{}{}]", e as u8, c.tag)
        }
    };
}

macro_rules! lit_hook {
    () => {
        fn string_eval_literal(out: &mut fmt::Formatter<'_>, c: &Conf, s: &State, l: &str) -> fmt::Result {
            s.call(c, format!("literal {l}"))?;
            write!(out, "={l}={}", c.tag)
        }
    };
}

macro_rules! start_hook {
    () => {
        fn start_string_eval(out: &mut fmt::Formatter<'_>, c: &Conf, s: &State) -> fmt::Result {
            s.call(c, "start".into())?;
            write!(out, "%{}(", c.tag)
        }
    };
}

macro_rules! end_hook {
    () => {
        fn end_string_eval(out: &mut fmt::Formatter<'_>, c: &Conf, s: &State) -> fmt::Result {
            s.call(c, "end".into())?;
            write!(out, "){}%", c.tag)
        }
    };
}

macro_rules! quote_hook {
    () => {
        fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
            for c in input.chars() {
                out.write_str(&quote_char(c))?;
            }
            Ok(())
        }
    };
}

macro_rules! file_hook {
    () => {
        fn format_file(tokens: &Tokens<Self>, out: &mut fmt::Formatter<'_>, c: &Conf) -> fmt::Result {
            let mut kinds: Vec<(u8, String)> = tokens.walk_imports().map(Self::kind).collect();
            kinds.sort();
            kinds.dedup();
            let mut header: Tokens<Self> = Tokens::new();
            header.append(format!("file {}", c.tag));
            for (k, s) in kinds {
                header.push();
                header.append(format!("needs {k} {s}"));
            }
            header.line();
            let state = State::default();
            header.format(out, c, &state)?;
            tokens.format(out, c, &state)?;
            Ok(())
        }
    };
}

macro_rules! indent_hook {
    ($($i:tt)*) => {
        fn default_indentation() -> fmt::Indentation {
            $($i)*
        }
    };
}

fn quote_char(c: char) -> String {
    match c {
        'a' => "\\A".into(),
        '\\' => "\\\\".into(),
        '"' => "&quot;".into(),
        ' ' => " ".into(),
        ':' => ";".into(),
        c => c.to_string(),
    }
}

macro_rules! custom {
    ($m:ident, $hooks:expr, { $($item:tt)* }) => {
        pub mod $m {
            use super::*;

            #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
            pub struct Plain(String);
            #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
            pub struct Counted(String);
            #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
            pub struct Silent(String);

            genco::impl_lang! {
                /// A language.
                pub X {
                    type Config = Conf;
                    type Format = State;
                    type Item = Any;
                    $($item)*
                }

                Plain {
                    fn format(&self, out: &mut fmt::Formatter<'_>, c: &Conf, s: &State) -> fmt::Result {
                        s.call(c, format!("plain {}", self.0))?;
                        out.write_str(&self.0)
                    }
                }

                Counted {
                    fn format(&self, out: &mut fmt::Formatter<'_>, c: &Conf, s: &State) -> fmt::Result {
                        s.call(c, format!("counted {}", self.0))?;
                        s.n.set(s.n.get() + 1);
                        for ch in self.0.chars() {
                            out.write_char(ch)?;
                        }
                        write!(out, "{}#{}", c.tag, s.n.get())
                    }
                }

                Silent {
                    fn format(&self, _: &mut fmt::Formatter<'_>, c: &Conf, s: &State) -> fmt::Result {
                        s.call(c, format!("silent {}", self.0))
                    }
                }
            }

            impl genco::lang::LangSupportsEval for X {}

            impl Custom for X {
                fn hooks() -> Hooks {
                    $hooks
                }

                fn add(t: &mut Tokens<Self>, kind: u8, s: &str, how: u8, reg: bool) {
                    match kind % 3 {
                        0 => add_item(t, Plain(s.into()), how, reg),
                        1 => add_item(t, Counted(s.into()), how, reg),
                        _ => add_item(t, Silent(s.into()), how, reg),
                    }
                }

                fn kind(i: &Any) -> (u8, String) {
                    match i {
                        Any::Plain(x) => (0, x.0.clone()),
                        Any::Counted(x) => (1, x.0.clone()),
                        Any::Silent(x) => (2, x.0.clone()),
                    }
                }
            }
        }
    };
}

const NONE: Hooks = Hooks { open: false, close: false, lit: false, start: false, end: false, quote: false, file: false, indent: None };

custom!(none, NONE, {});
custom!(all, Hooks { open: true, close: true, lit: true, start: true, end: true, quote: true, file: true, indent: Some(3) }, {
    indent_hook!(fmt::Indentation::Space(3));
    open_hook!();
    close_hook!();
    lit_hook!();
    start_hook!();
    end_hook!();
    quote_hook!();
    file_hook!();
});
custom!(only_open, Hooks { open: true, ..NONE }, { open_hook!(); });
custom!(only_close, Hooks { close: true, ..NONE }, { close_hook!(); });
custom!(only_lit, Hooks { lit: true, ..NONE }, { lit_hook!(); });
custom!(only_start, Hooks { start: true, quote: true, ..NONE }, { start_hook!(); quote_hook!(); });
custom!(only_end, Hooks { end: true, indent: Some(0), ..NONE }, { end_hook!(); indent_hook!(fmt::Indentation::Tab); });
custom!(only_quote, Hooks { quote: true, ..NONE }, { quote_hook!(); });
custom!(only_file, Hooks { file: true, ..NONE }, { file_hook!(); });
custom!(only_indent, Hooks { indent: Some(2), ..NONE }, { indent_hook!(fmt::Indentation::Space(2)); });
custom!(markers, Hooks { start: true, end: true, open: true, close: true, ..NONE }, {
    open_hook!();
    close_hook!();
    start_hook!();
    end_hook!();
});
custom!(text, Hooks { lit: true, quote: true, file: true, indent: Some(1), ..NONE }, {
    file_hook!();
    quote_hook!();
    lit_hook!();
    indent_hook!(fmt::Indentation::Space(1));
});

const LANGS: u8 = 12;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum N {
    Text(String),
    Space,
    Push,
    Line,
    Item(u8, String, u8),
    Reg(u8, String, u8),
    Block(Vec<N>),
    Nest(Vec<N>),
    Str(Vec<N>),
    Eval(Vec<N>),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    lang: u8,
    tag: String,
    doc: Vec<N>,
    /// Overridden indentation.
    unit: Option<u8>,
    fail: u8,
}

fn has_eval(ns: &[N]) -> bool {
    ns.iter().any(|n| matches!(n, N::Eval(_)))
}

fn add<L: Custom>(t: &mut Tokens<L>, ns: &[N]) {
    for n in ns {
        match n {
            N::Text(s) => t.append(s.as_str()),
            N::Space => t.space(),
            N::Push => t.push(),
            N::Line => t.line(),
            N::Item(k, s, h) => L::add(t, *k, s, *h, false),
            N::Reg(k, s, h) => L::add(t, *k, s, *h, true),
            N::Block(ns) => {
                t.indent();
                add(t, ns);
                t.unindent();
            }
            N::Nest(ns) => {
                let mut s = Tokens::new();
                add(&mut s, ns);
                t.append(s);
            }
            N::Str(ns) if has_eval(ns) => {
                t.append(Item::OpenQuote(true));
                add(t, ns);
                t.append(Item::CloseQuote);
            }
            N::Str(ns) => t.append(quoted(from_fn(|t| add(t, ns)))),
            N::Eval(ns) => {
                t.append(Item::OpenEval);
                add(t, ns);
                t.append(Item::CloseEval);
            }
        }
    }
}

/// The modelled stream; items by number in the table.
fn model(ns: &[N], table: &mut Vec<(u8, String)>, m: &mut Model) {
    for n in ns {
        match n {
            N::Text(s) => m.add(MI::Lit(s.clone())),
            N::Space => m.add(MI::Space),
            N::Push => m.add(MI::Push),
            N::Line => m.add(MI::Line),
            N::Item(k, s, _) | N::Reg(k, s, _) => {
                table.push((k % 3, s.clone()));
                let i = table.len() as u32 - 1;
                m.add(if matches!(n, N::Item(..)) { MI::Use(i, false) } else { MI::Reg(i, false) });
            }
            N::Block(ns) => {
                m.add(MI::Ind(1));
                model(ns, table, m);
                m.add(MI::Ind(-1));
            }
            N::Nest(ns) => {
                let mut s = Model::default();
                model(ns, table, &mut s);
                s.items.into_iter().for_each(|i| m.add(i));
            }
            N::Str(ns) => {
                m.add(MI::Open(has_eval(ns)));
                model(ns, table, m);
                m.add(MI::Close);
            }
            N::Eval(ns) => {
                m.add(MI::OEval);
                model(ns, table, m);
                m.add(MI::CEval);
            }
        }
    }
}

struct Exp<'a> {
    h: Hooks,
    tag: &'a str,
    table: &'a [(u8, String)],
    log: Vec<String>,
    count: u32,
}

impl Exp<'_> {
    fn q(&self, s: &str) -> String {
        if self.h.quote {
            s.chars().map(quote_char).collect()
        } else {
            s.into()
        }
    }

    fn open(&mut self, e: bool) -> String {
        if self.h.open {
            self.log.push(format!("open {e}"));
            format!("{}[{}:", self.tag, e as u8)
        } else {
            "\"".into()
        }
    }

    fn close(&mut self, e: bool) -> String {
        if self.h.close {
            self.log.push(format!("close {e}"));
            format!(":{}{}]", e as u8, self.tag)
        } else {
            "\"".into()
        }
    }

    fn start(&mut self) -> String {
        if self.h.start {
            self.log.push("start".into());
            format!("%{}(", self.tag)
        } else {
            String::new()
        }
    }

    fn end(&mut self) -> String {
        if self.h.end {
            self.log.push("end".into());
            format!("){}%", self.tag)
        } else {
            String::new()
        }
    }

    fn item(&mut self, i: u32) -> String {
        let (k, s) = &self.table[i as usize];
        match k {
            0 => {
                self.log.push(format!("plain {s}"));
                s.clone()
            }
            1 => {
                self.log.push(format!("counted {s}"));
                self.count += 1;
                format!("{s}{}#{}", self.tag, self.count)
            }
            _ => {
                self.log.push(format!("silent {s}"));
                String::new()
            }
        }
    }

    /// Up to the end of the string, evaluation or stream.
    fn run(&mut self, items: &[MI], i: &mut usize, r: &mut Render, quote: bool, nested: bool) {
        while let Some(it) = items.get(*i) {
            *i += 1;
            match it {
                MI::Lit(s) if quote => r.text(&self.q(s)),
                MI::Lit(s) => r.text(s),
                MI::Use(n, _) => {
                    let s = self.item(*n);
                    r.text(&s)
                }
                MI::Open(e) if !quote => {
                    let s = self.open(*e);
                    r.text(&s);
                    self.run(items, i, r, true, nested);
                    let s = self.close(*e);
                    r.text(&s);
                }
                MI::Open(e) => {
                    let mut inner = Render::new("    ", "\n");
                    let s = self.open(*e);
                    inner.text(&s);
                    self.run(items, i, &mut inner, true, true);
                    let s = self.close(*e);
                    inner.text(&s);
                    r.text(&self.q(&inner.out));
                }
                MI::OEval => match (&items[*i], items.get(*i + 1)) {
                    (MI::Lit(s), Some(MI::CEval)) => {
                        *i += 2;
                        let text = if self.h.lit {
                            self.log.push(format!("literal {s}"));
                            format!("={s}={}", self.tag)
                        } else {
                            format!("{}{s}{}", self.start(), self.end())
                        };
                        r.text(&text);
                    }
                    _ => {
                        let s = self.start();
                        r.text(&s);
                        self.run(items, i, r, false, nested);
                        let s = self.end();
                        r.text(&s);
                    }
                },
                MI::Close | MI::CEval => return,
                other => r.run(std::slice::from_ref(other)),
            }
        }
    }
}

fn case(c: &Case) -> Result<(), String> {
    match c.lang % LANGS {
        0 => go::<none::X>(c),
        1 => go::<all::X>(c),
        2 => go::<only_open::X>(c),
        3 => go::<only_close::X>(c),
        4 => go::<only_lit::X>(c),
        5 => go::<only_start::X>(c),
        6 => go::<only_end::X>(c),
        7 => go::<only_quote::X>(c),
        8 => go::<only_file::X>(c),
        9 => go::<only_indent::X>(c),
        10 => go::<markers::X>(c),
        _ => go::<text::X>(c),
    }
}

fn go<L: Custom>(c: &Case) -> Result<(), String> {
    let h = L::hooks();
    let mut t: Tokens<L> = Tokens::new();
    add(&mut t, &c.doc);
    let (mut table, mut m) = (Vec::new(), Model::default());
    model(&c.doc, &mut table, &mut m);

    // Imports, of their kind.
    let mut got: Vec<(u8, String)> = t.walk_imports().map(L::kind).collect();
    let mut want = table.clone();
    got.sort();
    want.sort();
    if got != want {
        return Err(format!("imports\nexpected {want:?}\n     got {got:?}"));
    }

    let default_unit = match h.indent {
        Some(0) => "\t".to_string(),
        n => " ".repeat(n.unwrap_or(4)),
    };
    let mut fc = fmt::Config::from_lang::<L>();
    let unit = match c.unit {
        None => default_unit.clone(),
        Some(0) => {
            fc = fc.with_indentation(fmt::Indentation::Tab);
            "\t".into()
        }
        Some(n) => {
            fc = fc.with_indentation(fmt::Indentation::Space(n as usize));
            " ".repeat(n as usize)
        }
    };
    let expect = |tag: &str, unit: &str, header: &[MI], count: u32| {
        let mut e = Exp { h, tag, table: &table, log: Vec::new(), count };
        let mut r = Render::new(unit, "\n");
        r.run(header);
        e.run(&m.items, &mut 0, &mut r, false, false);
        (r.out, e.log, e.count)
    };
    let conf = Conf { tag: c.tag.clone(), fail: None };

    // With an explicit configuration and state.
    let render = |conf: &Conf, state: &State| {
        let mut out = String::new();
        let mut w = fmt::FmtWriter::new(&mut out);
        let r = t.format(&mut w.as_formatter(&fc), conf, state);
        (r, out)
    };
    let state = State::default();
    state.n.set(7);
    let (r, out) = render(&conf, &state);
    let (text, log, count) = expect(&c.tag, &unit, &[], 7);
    if r.is_err() || out != text {
        return Err(format!("{:?} {h:?}\n{}", r, model::diff(&text, &out)));
    }
    if *state.log.borrow() != log {
        return Err(format!("hooks {h:?}\nexpected {log:?}\n     got {:?}", state.log.borrow()));
    }
    if state.n.get() != count {
        return Err(format!("state ended at {} and not {count}", state.n.get()));
    }

    // The defaults.
    let (text, _, _) = expect("", &default_unit, &[], 0);
    let got = t.to_string().map_err(|e| format!("{e:?}"))?;
    if got != text {
        return Err(format!("to_string {h:?}\n{}", model::diff(&text, &got)));
    }

    // Files.
    for tag in ["", c.tag.as_str()] {
        let mut header = Vec::new();
        if h.file {
            header.push(MI::Lit(format!("file {tag}")));
            let mut kinds = table.clone();
            kinds.sort();
            kinds.dedup();
            for (k, s) in kinds {
                header.push(MI::Push);
                header.push(MI::Lit(format!("needs {k} {s}")));
            }
            header.push(MI::Line);
        }
        let (mut text, _, _) = expect(tag, &default_unit, &header, 0);
        text.push('\n');
        let got = if tag.is_empty() {
            t.to_file_string().map_err(|e| format!("{e:?}"))?
        } else {
            let mut out = String::new();
            let fc = fmt::Config::from_lang::<L>();
            let mut w = fmt::FmtWriter::new(&mut out);
            t.format_file(&mut w.as_formatter(&fc), &Conf { tag: tag.into(), fail: None })
                .map_err(|e| format!("{e:?}"))?;
            out
        };
        if got != text {
            return Err(format!("file {h:?}\n{}", model::diff(&text, &got)));
        }
    }

    // A hook or item that fails makes rendering fail at that point.
    if !log.is_empty() {
        let n = c.fail as usize % log.len();
        let state = State::default();
        state.n.set(7);
        let (r, part) = render(&Conf { tag: c.tag.clone(), fail: Some(n) }, &state);
        if r.is_ok() {
            return Err(format!("call {n} ({}) fails and rendering does not", log[n]));
        }
        if state.log.borrow()[..] != log[..=n] {
            return Err(format!("hooks called after the failing one: {:?}", state.log.borrow()));
        }
        if !out.starts_with(&part) {
            return Err(format!("not a prefix of the output: {part:?}\n{out:?}"));
        }
        FAIL.set(Some(n));
        let all = [
            ("to_string", t.to_string().is_err()),
            ("to_vec", t.to_vec().is_err()),
            ("to_file_string", t.to_file_string().is_err()),
            ("to_file_vec", t.to_file_vec().is_err()),
        ];
        FAIL.set(None);
        for (name, failed) in all {
            if !failed {
                return Err(format!("call {n} ({}) fails and {name} does not", log[n]));
            }
        }
    }
    Ok(())
}

fn name() -> BoxedStrategy<String> {
    prop_oneof![4 => "[a-c]{1,2}", 1 => prop::sample::select(vec!["x y", "a\"b", "\\", "é"]).prop_map(String::from)].boxed()
}

fn txt() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[ab:;{}\\\\\"é世]{1,4}",
        1 => Just(String::new()),
        1 => any::<String>().prop_map(|s| s.replace('\n', "")),
    ]
    .boxed()
}

fn part() -> BoxedStrategy<N> {
    let h = any::<u8>;
    prop_oneof![
        4 => txt().prop_map(N::Text),
        2 => Just(N::Space),
        2 => (0u8..3, name(), h()).prop_map(|(k, s, h)| N::Item(k, s, h)),
        1 => (0u8..3, name(), h()).prop_map(|(k, s, h)| N::Reg(k, s, h)),
    ]
    .boxed()
}

/// A string which is quoted within another: no evaluation.
fn inner() -> BoxedStrategy<N> {
    prop::collection::vec(part(), 0..4)
        .prop_map(N::Str)
        .prop_recursive(2, 8, 3, |i| {
            prop::collection::vec(prop_oneof![2 => part(), 1 => i], 0..4).prop_map(N::Str)
        })
        .boxed()
}

fn string() -> BoxedStrategy<N> {
    let eval = prop_oneof![
        2 => "[a-z(]{1,3}".prop_map(|s| vec![N::Text(s)]),
        2 => prop::collection::vec(prop_oneof![5 => part(), 1 => inner()], 0..4),
    ]
    .prop_map(N::Eval);
    prop::collection::vec(prop_oneof![4 => part(), 2 => eval, 1 => inner()], 0..6)
        .prop_map(|ns| {
            // A literal that is evaluated is followed by something that is no word.
            let mut out: Vec<N> = Vec::new();
            for n in ns {
                if matches!(out.last(), Some(N::Eval(_))) {
                    match n {
                        N::Text(s) => {
                            out.push(N::Text(format!(".{s}")));
                            continue;
                        }
                        _ => out.push(N::Text("-".into())),
                    }
                }
                out.push(n);
            }
            N::Str(out)
        })
        .boxed()
}

fn doc() -> BoxedStrategy<Vec<N>> {
    let leaf = prop_oneof![
        4 => part(),
        1 => Just(N::Push),
        1 => Just(N::Line),
        3 => string(),
        1 => inner(),
    ];
    prop::collection::vec(
        leaf.prop_recursive(3, 24, 6, |i| {
            prop_oneof![
                prop::collection::vec(i.clone(), 0..5).prop_map(N::Block),
                prop::collection::vec(i, 0..5).prop_map(N::Nest),
            ]
        }),
        0..8,
    )
    .boxed()
}

fn shape(ns: &[N], f: &mut impl FnMut(&N)) {
    for n in ns {
        f(n);
        match n {
            N::Block(x) | N::Nest(x) | N::Str(x) | N::Eval(x) => shape(x, f),
            _ => {}
        }
    }
}

pub fn check(cx: &mut Ctx) {
    for lang in 0..LANGS {
        let n = cx.n(4000, 150_000);
        cx.part(
            &format!("hooks-{lang}"),
            "the document has a string and an item; strings with evaluation and strings within strings, three item kinds by value and reference; oracle: text and sequence of hook calls by the definitions and the documented defaults, with and without configuration, as a file, and with a failing hook",
            n,
            || {
                (doc(), "[A-Z]{0,2}", prop::option::weighted(0.3, 0u8..5), any::<u8>())
                    .prop_map(move |(doc, tag, unit, fail)| Case { lang, tag, doc, unit, fail })
            },
            |c| {
                let (mut s, mut i) = (false, false);
                shape(&c.doc, &mut |n| match n {
                    N::Str(_) => s = true,
                    N::Item(..) => i = true,
                    _ => {}
                });
                s && i
            },
            case,
        );
    }
}
