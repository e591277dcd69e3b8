//! C23: rendering is total. Whatever a stream holds, it is rendered or reported as an
//! error, never a panic; markers of strings and interpolations in the wrong place are errors.

use std::sync::OnceLock;

use crate::langs::{self, Doc, Node, Spec, IOp, LS};
use crate::lits::LangId;
use crate::model::*;
use crate::run::{guarded, Ctx};
use genco::fmt;
use genco::lang::Lang;
use genco::tokens::{Item, ItemStr, Tokens};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum R {
    Lit(u8),
    Open(bool),
    Close,
    OEval,
    CEval,
    Space,
    Push,
    Line,
    Ind(i8),
    Use(u8),
    Reg(u8),
}

const LITS: [&str; 8] = ["a", "", "\"", "\\", "é", "\n", "${", "1"];

/// `Some(true)`: well-formed. `Some(false)`: has to be reported. `None`: not specified,
/// for a string which is never closed or holds interpolations it does not announce.
pub fn verdict(items: &[R]) -> Option<bool> {
    // Per open string: whether it announces interpolations. `in_eval`: whether the
    // innermost open thing is an interpolation.
    enum F {
        Str(bool),
        Eval,
        Nested,
    }
    let mut st: Vec<F> = Vec::new();
    let mut loose = false;
    for i in items {
        match i {
            R::Open(e) => match st.last() {
                None | Some(F::Eval) => st.push(F::Str(*e)),
                Some(F::Str(_) | F::Nested) if *e => return Some(false),
                Some(F::Str(_) | F::Nested) => st.push(F::Nested),
            },
            R::Close => match st.last() {
                Some(F::Str(_) | F::Nested) => {
                    st.pop();
                }
                _ => return Some(false),
            },
            R::OEval => match st.last() {
                Some(F::Str(e)) => {
                    loose |= !e;
                    st.push(F::Eval);
                }
                _ => return Some(false),
            },
            R::CEval => match st.last() {
                Some(F::Eval) => {
                    st.pop();
                }
                _ => return Some(false),
            },
            _ => {}
        }
    }
    if loose || !st.is_empty() {
        None
    } else {
        Some(true)
    }
}

fn stream<L: Lang>(items: &[R], how: u8, item: impl Fn(u8) -> L::Item) -> Tokens<L> {
    let it = items.iter().map(|i| match i {
        R::Lit(n) => Item::Literal(ItemStr::Static(LITS[*n as usize % LITS.len()])),
        R::Open(e) => Item::OpenQuote(*e),
        R::Close => Item::CloseQuote,
        R::OEval => Item::OpenEval,
        R::CEval => Item::CloseEval,
        R::Space => Item::Space,
        R::Push => Item::Push,
        R::Line => Item::Line,
        R::Ind(n) => Item::Indentation(*n as i16),
        // NB: the position is that of the stream it was taken from.
        R::Use(n) => Item::Lang(*n as usize * 3, Box::new(item(*n))),
        R::Reg(n) => Item::Register(*n as usize * 5, Box::new(item(*n))),
    });
    match how % 4 {
        0 => it.collect(),
        1 => {
            let mut t = Tokens::new();
            for i in it {
                t.append(i);
            }
            t
        }
        2 => {
            let mut t = Tokens::new();
            t.extend(it);
            t
        }
        _ => {
            // Cut into streams of two.
            let items: Vec<Item<L>> = it.collect();
            let mut t = Tokens::new();
            for c in items.chunks(2) {
                t.append(c.iter().collect::<Tokens<L>>());
            }
            t
        }
    }
}

/// Every way of rendering has to agree.
fn judge<L: Lang>(want: Option<bool>, t: &Tokens<L>, conf: &L::Config, style: u8) -> Result<(), String>
where
    L::Config: Default,
{
    let walked = t.walk_imports().count();
    let items = t.iter().filter(|i| matches!(i, Item::Lang(..) | Item::Register(..))).count();
    if walked != items {
        return Err(format!("{walked} imports walked of {items}"));
    }
    let f = match style % 12 {
        0..4 => fmt::Config::from_lang::<L>(),
        n => fmt::Config::from_lang::<L>()
            .with_indentation(match n {
                4 | 5 => fmt::Indentation::Space(0),
                6 => fmt::Indentation::Space(1),
                7 => fmt::Indentation::Space(7),
                8 => fmt::Indentation::Space(100),
                9 => fmt::Indentation::Space(301),
                _ => fmt::Indentation::Tab,
            })
            .with_newline(["\n", "\r\n", "", "é\0"][n as usize % 4]),
    };
    let mut vw = fmt::VecWriter::new();
    let lines = t.format(&mut vw.as_formatter(&f), conf, &L::Format::default());
    let mut iw = fmt::IoWriter::new(Vec::new());
    let io = t.format_file(&mut iw.as_formatter(&f), conf);
    let all = [
        ("format", lines.is_ok()),
        ("format_file", io.is_ok()),
        ("to_string", t.to_string().is_ok()),
        ("to_file_string", t.to_file_string().is_ok()),
        ("to_vec", t.to_vec().is_ok()),
        ("to_file_vec", t.to_file_vec().is_ok()),
    ];
    for (what, ok) in all {
        match want {
            Some(w) if w != ok => {
                return Err(format!(
                    "{what}: {}",
                    if w { "a well-formed stream is an error" } else { "a misplaced marker is not an error" }
                ))
            }
            None if ok != all[0].1 => return Err(format!("{what} and format disagree")),
            _ => {}
        }
    }
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    items: Vec<R>,
    how: u8,
    lang: u8,
    /// Configured indentation and line ending.
    #[serde(default)]
    style: u8,
}

fn an_item<L: LS>(pool: &[Spec], n: u8) -> L::Item {
    let mut t: Tokens<L> = Tokens::new();
    L::add(&mut t, pool, n as usize % pool.len(), 0, false);
    let i = t.walk_imports().next().unwrap().clone();
    i
}

fn name(m: &str, n: &str) -> Spec {
    Spec::Name { module: m.into(), name: n.into(), ops: vec![] }
}

pub fn pool(l: LangId) -> Vec<Spec> {
    match l {
        LangId::C => vec![
            Spec::Include { path: "a.h".into(), item: "f".into(), system: false },
            Spec::Include { path: "b.h".into(), item: "g".into(), system: true },
        ],
        LangId::JavaScript => vec![
            Spec::Js { module: "m".into(), path: false, name: "F".into(), ops: vec![] },
            Spec::Js { module: "p/q.js".into(), path: true, name: "G".into(), ops: vec![IOp::Default] },
        ],
        LangId::Nix => vec![
            Spec::NixArg("lib".into()),
            Spec::NixInherit { path: "lib".into(), name: "x".into() },
            Spec::NixWith { arg: "pkgs".into(), name: "y".into() },
        ],
        LangId::Python => vec![name("m", "F"), Spec::PyModule { module: "os".into(), alias: None }],
        LangId::Rust => vec![name("std::fmt", "Debug"), name("a", "B")],
        _ => vec![name("a.b", "C"), name("d", "C")],
    }
}

fn with_pool<L: LS>(l: LangId, c: &Case, want: Option<bool>) -> Result<(), String>
where
    L::Config: Default,
{
    let pool = pool(l);
    let t = stream::<L>(&c.items, c.how, |n| an_item::<L>(&pool, n));
    judge(want, &t, &L::Config::default(), c.style)
}

fn case(c: &Case) -> Result<(), String> {
    let want = verdict(&c.items);
    let run = || match c.lang as usize % (crate::lits::ALL.len() + 2) {
        0 => judge(want, &stream::<TLang>(&c.items, c.how, |n| any_of(n)), &(), c.style),
        1 => judge(want, &stream::<()>(&c.items, c.how, |_| ()), &(), c.style),
        n => {
            let l = crate::lits::ALL[n - 2];
            crate::with_lang!(l, L => with_pool::<L>(l, c, want))
        }
    };
    run().map_err(|e| format!("{e}\n{:?}", c.items))
}

fn markers(c: &Case) -> bool {
    c.items
        .iter()
        .filter(|i| matches!(i, R::Open(_) | R::Close | R::OEval | R::CEval))
        .count()
        >= 2
}

const ALPHABET: [R; 7] = [R::Lit(0), R::Open(true), R::Open(false), R::Close, R::OEval, R::CEval, R::Space];

fn sequences(max: usize) -> Vec<Case> {
    let mut out = vec![Vec::new()];
    let mut last: Vec<Vec<R>> = vec![Vec::new()];
    for _ in 0..max {
        let mut next = Vec::new();
        for s in &last {
            // What follows the first misplaced marker is left to the random part.
            if verdict(s) == Some(false) {
                continue;
            }
            for r in ALPHABET {
                let mut s = s.clone();
                s.push(r);
                next.push(s);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out.into_iter()
        .enumerate()
        .map(|(i, items)| Case { items, how: (i % 4) as u8, lang: (i % 12) as u8, style: (i / 12 % 12) as u8 })
        .collect()
}

/// Strings and interpolations nested deeply.
fn nested(max: usize) -> Vec<Case> {
    let mut out = Vec::new();
    for n in 0..max {
        for (k, end) in [(0, R::Lit(0)), (1, R::Use(1)), (2, R::Push), (3, R::CEval), (4, R::Close)] {
            let mut items = Vec::new();
            for _ in 0..n {
                items.extend([R::Open(true), R::Lit(n as u8 % 8), R::OEval]);
            }
            items.push(end);
            // Quotes within quotes double the escapes at each level.
            for _ in 0..n % 8 {
                items.push(R::Open(false));
            }
            for _ in 0..n % 8 {
                items.push(R::Close);
            }
            for _ in 0..n {
                items.extend([R::CEval, R::Close]);
            }
            out.push(Case { items, how: k, lang: (n * 5 + k as usize) as u8 % 12, style: n as u8 % 12 });
        }
    }
    out
}

fn an_r() -> impl Strategy<Value = R> {
    prop_oneof![
        3 => (0u8..8).prop_map(R::Lit),
        3 => any::<bool>().prop_map(R::Open),
        3 => Just(R::Close),
        3 => Just(R::OEval),
        3 => Just(R::CEval),
        1 => Just(R::Space),
        1 => Just(R::Push),
        1 => Just(R::Line),
        1 => (-2i8..3).prop_map(R::Ind),
        1 => (0u8..6).prop_map(R::Use),
        1 => (0u8..6).prop_map(R::Reg),
    ]
}

/// Mostly well-formed: a random walk of the markers' automaton, then a few edits.
fn cases() -> impl Strategy<Value = Case> {
    let walk = (proptest::collection::vec((an_r(), 0u8..10), 0..40), 0usize..3).prop_map(|(rs, edits)| {
        let mut items: Vec<R> = Vec::new();
        for (r, keep) in &rs {
            items.push(*r);
            if verdict(&items) == Some(false) && *keep > 0 {
                items.pop();
            }
        }
        // Close what is open, unless this is an edited one.
        for _ in 0..60 {
            if edits > 0 || verdict(&items) != None {
                break;
            }
            let n = items.len();
            for r in [R::Close, R::CEval] {
                items.push(r);
                if verdict(&items) != Some(false) {
                    break;
                }
                items.pop();
            }
            if items.len() == n {
                break;
            }
        }
        items
    });
    let raw = proptest::collection::vec(an_r(), 0..24);
    (prop_oneof![3 => walk, 1 => raw], any::<u8>(), 0u8..12, 0u8..12).prop_map(|(items, how, lang, style)| Case { items, how, lang, style })
}

// ---------------------------------------------------------------------------
// Any text anywhere.

const ODD: [&str; 40] = [
    "", ".", "..", "...", "::", ":::", "a::", "::b", "a::b::", "/", "//", "a/", "/a", "./a", "../a", "a/../..", "a.", ".b",
    "a..b", " ", "a b", "\n", "\r\n", "\t", "\0", "*/", "/*", "\"", "'", "`", "$", "${", "\\", "é", "𝒳", "{", "}", ";", "self",
    "\u{2028}",
];

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Odd {
    doc: Doc,
    /// Replacements, used in turn for every text of the document.
    texts: Vec<Option<String>>,
    #[serde(default)]
    style: u8,
}

fn odd(o: &Odd) -> Doc {
    let mut d = o.doc.clone();
    if o.texts.is_empty() {
        return d;
    }
    let mut n = 0;
    let mut put = |s: &mut String| {
        if let Some(t) = &o.texts[n % o.texts.len()] {
            *s = t.clone();
        }
        n += 1;
    };
    for s in &mut d.pool {
        match s {
            Spec::Name { module, name, ops } => {
                put(module);
                put(name);
                for o in ops {
                    if let IOp::Alias(a) | IOp::ModAlias(a) = o {
                        put(a);
                    }
                }
            }
            Spec::Js { module, name, ops, .. } => {
                put(module);
                put(name);
                for o in ops {
                    if let IOp::Alias(a) = o {
                        put(a);
                    }
                }
            }
            Spec::Include { path, item, .. } => {
                put(path);
                put(item);
            }
            Spec::PyModule { module, alias } => {
                put(module);
                if let Some(a) = alias {
                    put(a);
                }
            }
            Spec::NixArg(a) => put(a),
            Spec::NixInherit { path, name } => {
                put(path);
                put(name);
            }
            Spec::NixVar { name, .. } => put(name),
            Spec::NixWith { arg, name } => {
                put(arg);
                put(name);
            }
        }
    }
    if let Some(p) = &mut d.conf.package {
        put(p);
    }
    if let Some(p) = &mut d.conf.module_path {
        put(p);
    }
    fn body(ns: &mut [Node], put: &mut impl FnMut(&mut String)) {
        for n in ns {
            match n {
                Node::Text(s) | Node::Quoted(s, _) | Node::Eval(s, _) => put(s),
                Node::Block(ns) | Node::Nest(_, ns) => body(ns, put),
                _ => {}
            }
        }
    }
    body(&mut d.body, &mut put);
    d
}

fn odd_case(o: &Odd) -> Result<(), String> {
    let d = odd(o);
    let style = o.style;
    fn go<L: LS>(d: &Doc, style: u8) -> Result<(), String>
    where
        L::Config: Default,
    {
        let mut t: Tokens<L> = Tokens::new();
        langs::nodes(&mut t, &d.pool, &d.body);
        judge(Some(true), &t, &L::cfg(&d.conf), style)?;
        let one = langs::file_of(&t, &d.conf)?;
        let two = langs::file_of(&t.clone(), &d.conf)?;
        if one != two {
            return Err(format!("rendering twice: {}", diff(&one, &two)));
        }
        // Registering everything used changes nothing but the text in the body.
        for i in 0..d.pool.len() {
            for how in 0..4 {
                L::add(&mut t, &d.pool, i, how, how % 2 == 0);
            }
        }
        judge(Some(true), &t, &L::cfg(&d.conf), style)
    }
    crate::with_lang!(d.lang, L => go::<L>(&d, style)).map_err(|e| format!("{e}\n{d:?}"))
}

fn odds() -> impl Strategy<Value = Odd> {
    let text = prop_oneof![
        6 => proptest::sample::select(ODD.to_vec()).prop_map(|s| Some(s.to_string())),
        2 => (proptest::sample::select(ODD.to_vec()), proptest::sample::select(ODD.to_vec()))
            .prop_map(|(a, b)| Some(format!("{a}{b}"))),
        1 => any::<String>().prop_map(Some),
        3 => Just(None),
    ];
    (langs::doc(), proptest::collection::vec(text, 1..8), 0u8..12).prop_map(|(doc, texts, style)| Odd { doc, texts, style })
}

fn odd_nontrivial(o: &Odd) -> bool {
    o.texts.iter().any(|t| t.is_some()) && !langs::used(&o.doc.pool, &o.doc.body).is_empty()
}

pub fn check(cx: &mut Ctx) {
    // The reference automaton itself, once.
    static SANE: OnceLock<()> = OnceLock::new();
    SANE.get_or_init(|| {
        use R::*;
        assert_eq!(verdict(&[Open(true), OEval, Open(false), Close, CEval, Close]), Some(true));
        assert_eq!(verdict(&[Open(false), Open(false), Close, Close]), Some(true));
        assert_eq!(verdict(&[Open(true), OEval, Open(false), CEval]), Some(false));
        assert_eq!(verdict(&[Open(true)]), None);
    });
    let max = if cx.thorough { 7 } else { 6 };
    cx.list(
        "markers",
        "at least two markers of strings or interpolations; oracle: the automaton of their nesting, and agreement of six ways of rendering",
        sequences(max),
        markers,
        case,
    );
    cx.list(
        "nested",
        "strings nested in interpolations to any depth; oracle: the automaton of their nesting, and agreement of six ways of rendering",
        nested(if cx.thorough { 2000 } else { 200 }),
        markers,
        case,
    );
    let n = cx.n(60_000, 2_400_000);
    cx.part(
        "streams",
        "at least two markers of strings or interpolations; oracle: the automaton of their nesting, and agreement of six ways of rendering, in twelve languages and with twelve configurations of indentation and line endings",
        n,
        cases,
        markers,
        case,
    );
    let n = cx.n(20_000, 800_000);
    cx.part(
        "texts",
        "an import in use and a text replaced; oracle: rendering succeeds in every way, and again",
        n,
        odds,
        odd_nontrivial,
        odd_case,
    );
    // A panic is only told from an error if it is caught.
    debug_assert!(guarded(|| -> Result<(), String> { panic!("x") }).is_err());
}
