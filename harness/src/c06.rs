//! C06: interpolated values and containers.

use crate::model::*;
use crate::run::Ctx;
use genco::lang::Lang;
use genco::tokens::{display, from_fn, quoted, static_literal, FormatInto, Item, ItemStr, Tokens};
use genco::{quote, quote_in};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::fmt;
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Val {
    Str(String, u8),
    /// Integer of one of twelve types (bits are truncated to the type).
    Int(u8, String),
    Args(String, i64, u8),
    Disp(String, i64, u8),
    Opt(Option<Box<Val>>, u8),
    List(Vec<Val>, u8),
    Strs(Vec<String>, u8),
    Ints(Vec<i32>, u8),
    Toks(Vec<Op>, u8),
    Many(Vec<Vec<Op>>, u8),
    Quoted(Box<Val>, u8),
    Fun(Vec<Val>, u8),
}

/// A value of the user's own, made of others.
#[derive(Clone)]
struct V(Val);

impl FormatInto<TLang> for V {
    fn format_into(self, t: &mut T) {
        add(t, &self.0)
    }
}

struct Shown(String, i64, u8);

impl fmt::Display for Shown {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.2 % 4 {
            0 => f.write_str(&self.0),
            1 => write!(f, "{}{}", self.0, self.1),
            2 => {
                for c in self.0.chars() {
                    fmt::Write::write_char(f, c)?;
                }
                write!(f, "<{:>4}>", self.1)
            }
            _ => Ok(()),
        }
    }
}

fn shown(s: &str, n: i64, how: u8) -> String {
    match how % 4 {
        0 => s.into(),
        1 => format!("{s}{n}"),
        2 => format!("{s}<{n:>4}>"),
        _ => String::new(),
    }
}

pub fn item_str(s: &str, how: u8) -> ItemStr {
    match how % 12 {
        0 => ItemStr::from(s),
        1 => ItemStr::from(&s),
        2 => ItemStr::from(s.to_string()),
        3 => ItemStr::from(&s.to_string()),
        4 => ItemStr::from(s.to_string().into_boxed_str()),
        5 => ItemStr::from(Cow::Borrowed(s)),
        6 => ItemStr::from(Cow::<str>::Owned(s.to_string())),
        7 => ItemStr::from(&Cow::Borrowed(s)),
        8 => ItemStr::from(&Cow::<str>::Owned(s.to_string())),
        9 => ItemStr::from(Rc::new(s.to_string())),
        10 => ItemStr::from(&ItemStr::Box(s.into())),
        _ => ItemStr::Static(leak(s)),
    }
}

/// Texts for which a `'static` exists.
pub fn leak(s: &str) -> &'static str {
    use std::collections::HashMap;
    use std::sync::{Mutex, OnceLock};
    static POOL: OnceLock<Mutex<HashMap<String, &'static str>>> = OnceLock::new();
    let mut pool = POOL.get_or_init(Default::default).lock().unwrap_or_else(|e| e.into_inner());
    if let Some(x) = pool.get(s) {
        return x;
    }
    let x: &'static str = Box::leak(s.to_string().into_boxed_str());
    pool.insert(s.to_string(), x);
    x
}

const STR_HOWS: u8 = 22;

fn add_str<L: Lang>(t: &mut Tokens<L>, s: &str, how: u8) {
    match how % STR_HOWS {
        0 => t.append(s),
        1 => t.append(s.to_string()),
        2 => t.append(&s.to_string()),
        3 => t.append(Rc::new(s.to_string())),
        4 => t.append(&Rc::new(s.to_string())),
        5 => t.append(Cow::Borrowed(s)),
        6 => t.append(Cow::<str>::Owned(s.to_string())),
        7 => t.append(&Cow::Borrowed(s)),
        8 => t.append(&Cow::<str>::Owned(s.to_string())),
        9 => t.append(format_args!("{s}")),
        10 => t.append(display(s)),
        11 => t.append(static_literal(leak(s))),
        12..=14 => t.append(item_str(s, how / STR_HOWS)),
        15 | 16 => t.append(&item_str(s, how / STR_HOWS)),
        17 => t.append(Item::Literal(item_str(s, how / STR_HOWS))),
        18 => quote_in!(*t => $s),
        19 => {
            let s = s.to_string();
            t.append::<Tokens<L>>(quote!($(&s)))
        }
        20 => quote_in!(*t => $(ref t { t.append(s) })),
        _ => t.append(Some(s)),
    }
}

fn int(n: &str) -> u128 {
    n.parse().unwrap_or(0)
}

const INTS: [&str; 12] = [
    "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "usize", "isize",
];

fn add_int<L: Lang>(t: &mut Tokens<L>, kind: u8, n: &str) {
    let n = int(n);
    match INTS[kind as usize % 12] {
        "u8" => t.append(n as u8),
        "u16" => t.append(n as u16),
        "u32" => t.append(n as u32),
        "u64" => t.append(n as u64),
        "u128" => t.append(n),
        "i8" => t.append(n as i8),
        "i16" => t.append(n as i16),
        "i32" => t.append(n as i32),
        "i64" => t.append(n as i64),
        "i128" => t.append(n as i128),
        "usize" => t.append(n as usize),
        _ => t.append(n as isize),
    }
}

/// Decimal text of the value, computed on the magnitude digit by digit.
fn int_text(kind: u8, n: &str) -> String {
    let n = int(n);
    let k = INTS[kind as usize % 12];
    let bits = match &k[1..] {
        "size" => usize::BITS,
        b => b.parse().unwrap(),
    };
    let n = if bits == 128 { n } else { n & ((1u128 << bits) - 1) };
    let neg = k.starts_with('i') && n >> (bits - 1) == 1;
    let mut m = if !neg {
        n
    } else if bits == 128 {
        (!n).wrapping_add(1)
    } else {
        (1u128 << bits) - n
    };
    let mut out = Vec::new();
    loop {
        out.push(b'0' + (m % 10) as u8);
        m /= 10;
        if m == 0 {
            break;
        }
    }
    if neg {
        out.push(b'-');
    }
    out.reverse();
    String::from_utf8(out).unwrap()
}

fn list<I: FormatInto<TLang> + Clone>(t: &mut T, v: Vec<I>, how: u8) {
    match how % 9 {
        0 => t.append(v),
        1 => t.append(&v),
        2 => t.append(&v[..]),
        3 => t.append(Cow::Borrowed(&v[..])),
        4 => t.append(Cow::<[I]>::Owned(v)),
        5 => t.append(&Cow::Borrowed(&v[..])),
        6 => t.append(&Cow::<[I]>::Owned(v)),
        7 => quote_in!(*t => $v),
        _ => t.append(vec![Some(v.clone()), None].into_iter().flatten().collect::<Vec<Vec<I>>>()),
    }
}

fn add(t: &mut T, v: &Val) {
    match v {
        Val::Str(s, how) => add_str(t, s, *how),
        Val::Int(k, n) => add_int(t, *k, n),
        Val::Args(s, n, how) => match how % 4 {
            0 => t.append(format_args!("{s}")),
            1 => t.append(format_args!("{s}{n}")),
            2 => t.append(format_args!("{s}<{n:>4}>")),
            _ => t.append(format_args!("")),
        },
        Val::Disp(s, n, how) => {
            let d = Shown(s.clone(), *n, *how);
            if how / 4 % 2 == 0 {
                t.append(display(&d))
            } else {
                t.append(display(d))
            }
        }
        Val::Opt(o, how) => {
            let o = o.as_ref().map(|v| V((**v).clone()));
            match how % 3 {
                0 => t.append(o),
                1 => t.append(Some(o)),
                _ => quote_in!(*t => $o),
            }
        }
        Val::List(v, how) => list(t, v.iter().cloned().map(V).collect(), *how),
        Val::Strs(v, how) => match how / 9 % 5 {
            0 => list(t, v.clone(), *how),
            1 => list(t, v.iter().map(|s| s.as_str()).collect(), *how),
            2 => list(t, v.iter().map(|s| Rc::new(s.clone())).collect(), *how),
            3 => list(t, v.iter().map(|s| Some(Cow::Borrowed(s.as_str()))).collect(), *how),
            _ => list(t, v.iter().map(|s| item_str(s, *how)).collect(), *how),
        },
        Val::Ints(v, how) => list(t, v.clone(), *how),
        Val::Toks(ops, how) => {
            let s = build(ops);
            match how % 4 {
                0 => t.append(s),
                1 => t.append(&s),
                2 => quote_in!(*t => $s),
                _ => t.append(Some(&s)),
            }
        }
        Val::Many(v, how) => {
            let v: Vec<T> = v.iter().map(|o| build(o)).collect();
            if how / 9 % 2 == 0 {
                list(t, v, *how)
            } else {
                list(t, v.iter().collect(), *how)
            }
        }
        Val::Quoted(v, how) => match how % 3 {
            0 => t.append(quoted(V((**v).clone()))),
            1 => t.append(quoted(from_fn(|t: &mut T| add(t, v)))),
            _ => {
                let v = quoted(V((**v).clone()));
                quote_in!(*t => $v)
            }
        },
        Val::Fun(vs, how) => {
            let f = from_fn(|t: &mut T| {
                for v in vs {
                    add(t, v)
                }
            });
            match how % 3 {
                0 => t.append(f),
                1 => t.append(Some(f)),
                _ => quote_in!(*t => $f),
            }
        }
    }
}

fn model(m: &mut Model, v: &Val) {
    let lit = |m: &mut Model, s: String| m.add(MI::Lit(s));
    match v {
        Val::Str(s, _) => lit(m, s.clone()),
        Val::Int(k, n) => lit(m, int_text(*k, n)),
        Val::Args(s, n, how) | Val::Disp(s, n, how) => lit(m, shown(s, *n, *how)),
        Val::Opt(o, _) => {
            if let Some(v) = o {
                model(m, v)
            }
        }
        Val::List(v, _) | Val::Fun(v, _) => v.iter().for_each(|v| model(m, v)),
        Val::Strs(v, _) => v.iter().for_each(|s| lit(m, s.clone())),
        Val::Ints(v, _) => v.iter().for_each(|n| lit(m, format!("{n}"))),
        Val::Toks(ops, _) => Model::of(ops).items.into_iter().for_each(|i| m.add(i)),
        Val::Many(v, _) => v
            .iter()
            .for_each(|ops| Model::of(ops).items.into_iter().for_each(|i| m.add(i))),
        Val::Quoted(v, _) => {
            m.add(MI::Open(false));
            model(m, v);
            m.add(MI::Close);
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    before: Vec<Op>,
    vals: Vec<Val>,
    after: Vec<Op>,
}

/// Items, where empty texts and how text is split do not matter.
fn canon(items: &[MI]) -> Vec<MI> {
    let mut out: Vec<MI> = Vec::new();
    for i in items {
        match (out.last_mut(), i) {
            (_, MI::Lit(s)) if s.is_empty() => {}
            (Some(MI::Lit(a)), MI::Lit(b)) => a.push_str(b),
            _ => out.push(i.clone()),
        }
    }
    out
}

fn case(c: &Case) -> Result<(), String> {
    let mut t = build(&c.before);
    let mut m = Model::of(&c.before);
    for v in &c.vals {
        // On its own first.
        let mut one = T::new();
        add(&mut one, v);
        let mut mo = Model::default();
        model(&mut mo, v);
        if canon(&items_of(&one)) != canon(&mo.items) {
            return Err(format!("items of {v:?}\nexpected {:?}\n     got {:?}", mo.items, items_of(&one)));
        }
        // Then after what is there already.
        add(&mut t, v);
        model(&mut m, v);
    }
    apply(&mut t, &c.after);
    m.apply(&c.after);
    if canon(&items_of(&t)) != canon(&m.items) {
        return Err(format!("items\nexpected {:?}\n     got {:?}", m.items, items_of(&t)));
    }
    let got = t.to_string().map_err(|e| format!("{e:?}"))?;
    let want = text(&m.items);
    if got != want {
        return Err(format!("text: {}", diff(&want, &got)));
    }
    Ok(())
}

/// The reference rendering, with quotes inside quotes.
fn text(items: &[MI]) -> String {
    // Innermost strings first.
    fn go(items: &[MI], i: &mut usize, r: &mut Render, depth: u32) {
        while *i < items.len() {
            match &items[*i] {
                MI::Open(_) => {
                    *i += 1;
                    r.text(&esc("\"", depth));
                    go(items, i, r, depth + 1);
                    r.text(&esc("\"", depth));
                }
                MI::Close => return,
                MI::Lit(s) => r.text(&esc(s, depth)),
                MI::Use(n, o) => r.text(&esc(&import_text(*n, *o), depth.saturating_sub(1))),
                other => r.run(std::slice::from_ref(other)),
            }
            *i += 1;
        }
    }
    fn esc(s: &str, depth: u32) -> String {
        (0..depth).fold(s.to_string(), |s, _| s.replace('\\', "\\\\").replace('"', "\\\""))
    }
    let mut r = Render::new("    ", "\n");
    go(items, &mut 0, &mut r, 0);
    r.out
}

fn s() -> BoxedStrategy<String> {
    prop_oneof![
        4 => lit(),
        2 => any::<String>(),
        1 => "[ \t\"\\\\#{}$a]{0,6}",
    ]
    .boxed()
}

/// Operations without strings and evaluation, for use inside of quotes too.
fn ops() -> BoxedStrategy<Vec<Op>> {
    history(false, 6)
}

fn has_quoted(v: &Val) -> bool {
    match v {
        Val::Quoted(..) => true,
        Val::Opt(Some(v), _) => has_quoted(v),
        Val::List(v, _) | Val::Fun(v, _) => v.iter().any(has_quoted),
        _ => false,
    }
}

/// Strings within strings are laid out on a single line.
fn one_line(v: &mut Val) {
    fn ops(o: &mut Vec<Op>) {
        o.retain_mut(|o| match o {
            Op::Push(_) | Op::Line(_) | Op::Indent(_) | Op::Unindent(_) | Op::Indentation(_) | Op::Block(_) => false,
            Op::Nest(_, o) => {
                ops(o);
                true
            }
            _ => true,
        })
    }
    match v {
        Val::Quoted(v, _) | Val::Opt(Some(v), _) => one_line(v),
        Val::List(v, _) | Val::Fun(v, _) => v.iter_mut().for_each(one_line),
        Val::Toks(o, _) => ops(o),
        Val::Many(v, _) => v.iter_mut().for_each(ops),
        _ => {}
    }
}

fn num() -> BoxedStrategy<String> {
    prop_oneof![
        any::<u128>().prop_map(|n| n.to_string()),
        any::<u64>().prop_map(|n| n.to_string()),
        (0u32..128, -2i8..3).prop_map(|(b, d)| (1u128 << b).wrapping_add(d as u128).to_string()),
        (0u32..128, -2i8..3).prop_map(|(b, d)| (u128::MAX << b).wrapping_add(d as u128).to_string()),
        (0u8..200).prop_map(|n| n.to_string()),
    ]
    .boxed()
}

fn val() -> BoxedStrategy<Val> {
    let h = any::<u8>;
    let leaf = prop_oneof![
        5 => (s(), h()).prop_map(|(s, h)| Val::Str(s, h)),
        3 => (h(), num()).prop_map(|(k, n)| Val::Int(k, n)),
        1 => (s(), any::<i64>(), h()).prop_map(|(s, n, h)| Val::Args(s, n, h)),
        1 => (s(), any::<i64>(), h()).prop_map(|(s, n, h)| Val::Disp(s, n, h)),
        2 => (some(s(), 5), h()).prop_map(|(v, h)| Val::Strs(v, h)),
        1 => (some(any::<i32>().boxed(), 5), h()).prop_map(|(v, h)| Val::Ints(v, h)),
        2 => (ops(), h()).prop_map(|(o, h)| Val::Toks(o, h)),
        2 => (some(ops(), 4), h()).prop_map(|(o, h)| Val::Many(o, h)),
    ];
    leaf.prop_recursive(4, 20, 4, move |inner| {
        prop_oneof![
            2 => (prop::option::weighted(0.7, inner.clone()), h()).prop_map(|(o, h)| Val::Opt(o.map(Box::new), h)),
            3 => (prop::collection::vec(inner.clone(), 0..4), h()).prop_map(|(v, h)| Val::List(v, h)),
            2 => (inner.clone(), h()).prop_map(|(mut v, h)| {
                if has_quoted(&v) {
                    one_line(&mut v);
                }
                Val::Quoted(Box::new(v), h)
            }),
            2 => (prop::collection::vec(inner, 0..4), h()).prop_map(|(v, h)| Val::Fun(v, h)),
        ]
    })
    .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct StrCase {
    text: String,
    how: u8,
    other: String,
    how2: u8,
}

/// An owned string is the text it was made from, in every way it can be read.
fn string(c: &StrCase) -> Result<(), String> {
    let i = item_str(&c.text, c.how);
    let fail = |what: &str, got: String| Err(format!("{what} of {:?} made by {}: {got:?}", c.text, c.how % 12));
    if &*i != c.text.as_str() {
        return fail("deref", i.to_string());
    }
    if AsRef::<str>::as_ref(&i) != c.text.as_str() {
        return fail("as_ref", i.as_ref().to_string());
    }
    if i.to_string() != c.text {
        return fail("display", i.to_string());
    }
    for (a, b) in [
        (format!("{i:>12}"), format!("{:>12}", c.text)),
        (format!("{i:-<9.3}|"), format!("{:-<9.3}|", c.text)),
    ] {
        if a != b {
            return fail("padded display", a);
        }
    }
    let j = i.clone();
    if j != i || &*j != c.text.as_str() {
        return fail("clone", j.to_string());
    }
    let k: ItemStr = (&i).into();
    if &*k != c.text.as_str() {
        return fail("conversion of a reference", k.to_string());
    }
    if i.len() != c.text.len() || i.chars().ne(c.text.chars()) {
        return fail("characters", i.to_string());
    }
    // Every language renders a plain text as it is.
    fn render<L: Lang>(c: &StrCase) -> Result<(), String>
    where
        L::Config: Default,
        L::Format: Default,
    {
        let mut t: Tokens<L> = Tokens::new();
        add_str(&mut t, &c.text, c.how);
        t.space();
        add_str(&mut t, &c.other, c.how2);
        let got = t.to_string().map_err(|e| format!("{e:?}"))?;
        let sp = if c.other.is_empty() { "" } else { " " };
        let want = format!("{}{sp}{}", c.text, c.other);
        if got != want {
            return Err(diff(&want, &got));
        }
        Ok(())
    }
    render::<()>(c)?;
    for l in crate::lits::ALL {
        crate::with_lang!(l, L => render::<L>(c))?;
    }
    Ok(())
}

fn nontrivial(v: &Val) -> bool {
    let mut m = Model::default();
    model(&mut m, v);
    m.items.iter().any(|i| matches!(i, MI::Lit(s) if !s.is_empty()))
}

pub fn check(cx: &mut Ctx) {
    let n = cx.n(40_000, 1_500_000);
    cx.part(
        "values",
        "at least one value with text; strings of 22 forms, integers of 12 types at their extremes, arguments, displays, options, nine container forms, streams, quotes and closures nested in each other; oracle: concatenation model of items and reference rendering",
        n,
        || {
            (ops(), prop::collection::vec(val(), 1..4), ops())
                .prop_map(|(before, vals, after)| Case { before, vals, after })
        },
        |c| c.vals.iter().any(nontrivial),
        case,
    );
    let n = cx.n(20_000, 600_000);
    cx.part(
        "strings",
        "the text is not empty; every owned string conversion, read back in every way, rendered in eleven languages",
        n,
        || {
            (s(), any::<u8>(), s(), any::<u8>())
                .prop_map(|(text, how, other, how2)| StrCase { text, how, other, how2 })
        },
        |c| !c.text.is_empty(),
        string,
    );
    cx.part(
        "long-strings",
        "texts of up to 64 kB, as the strings above; non-trivial: all",
        cx.n(1_000, 30_000),
        || (crate::c07::long(any::<char>().boxed()), any::<u8>(), s(), any::<u8>()),
        |_| true,
        |(l, how, other, how2)| string(&StrCase { text: l.text(), how: *how, other: other.clone(), how2: *how2 }),
    );
    // Every integer type at the edges of every width.
    let mut edges = Vec::new();
    for k in 0..12u8 {
        for b in 0..128u32 {
            for d in [-1i8, 0, 1] {
                edges.push((k, (1u128 << b).wrapping_add(d as u128)));
                edges.push((k, (u128::MAX << b).wrapping_add(d as u128)));
            }
        }
    }
    cx.list(
        "integers",
        "all twelve integer types at every power of two and its neighbours, both signs",
        edges.into_iter().map(|(k, n)| (k, n.to_string())),
        |_| true,
        |(k, n)| {
            let mut t: Tokens<()> = Tokens::new();
            add_int(&mut t, *k, n);
            let got = t.to_string().map_err(|e| format!("{e:?}"))?;
            let want = int_text(*k, n);
            if got != want {
                return Err(format!("{}: {}", INTS[*k as usize], diff(&want, &got)));
            }
            Ok(())
        },
    );
}
