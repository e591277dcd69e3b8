//! C13, C17: which quotations compile.

use serde::{Deserialize, Serialize};

use crate::gen::{Rng, Style};
use crate::layout::{case, simple, Case, Meta, LAYOUT};
use crate::run::Ctx;
use crate::rustc::{Outcome, Rustc};
use crate::search::{fixed, search, Part, Program};

fn messages(o: &Outcome) -> String {
    match o {
        Outcome::Errors(e) => e
            .iter()
            .take(3)
            .map(|d| format!("line {}: {} {}", d.line + 1, d.code, d.msg))
            .collect::<Vec<_>>()
            .join("; "),
        o => format!("{o:?}"),
    }
}

/// `bad`: lines of rows which do not fit.
fn judge_rows(bad: &[usize], o: &Outcome) -> Result<(), String> {
    let lines: Vec<usize> = bad.iter().map(|l| l + 1).collect();
    match o {
        Outcome::Compiled if bad.is_empty() => Ok(()),
        Outcome::Compiled => Err(format!("accepted, though lines {lines:?} fit no enclosing row")),
        Outcome::Errors(e) if !bad.is_empty() => {
            for d in e {
                if !d.msg.contains("indentation") {
                    return Err(format!("rejected for something else: {}", messages(o)));
                }
                if !bad.iter().any(|l| d.line <= *l && *l <= d.end) {
                    return Err(format!(
                        "the row does fit: {}; rows which do not: {lines:?}",
                        messages(o)
                    ));
                }
            }
            Ok(())
        }
        Outcome::Errors(_) => Err(format!("rejected: {}", messages(o))),
        o => Err(format!("{o:?}")),
    }
}

const ROWS: Style = Style {
    plain: 20,
    groups: 6,
    esc: 2,
    interp: 3,
    ctl: 4,
    strs: 1,
    effects: 1,
    tries: 0,
    rows: 7,
    toks: 2,
    bad: 0,
};

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Cols {
    cols: Vec<u8>,
    /// Empty lines before the last row.
    blank: u8,
    place: u8,
}

fn places(place: u8) -> (&'static str, &'static str) {
    match place % 8 {
        0 => ("quote!(", ")"),
        1 => ("quote!($(for _ in 0..n0 {", "}))"),
        2 => ("quote!(a $(for _ in 0..n0 join (, ) =>", ") b)"),
        3 => ("quote!{ $(if b0 {} else {", "}) }"),
        4 => ("quote!($(match e0 { _ => {", "} }))"),
        5 => ("quote!($(quote!(", ")))"),
        6 => ("{ let mut t = T::new(); quote_in!(t =>", "); t }"),
        _ => ("quote!($(if b1 { a $(match e0 { E::A => {} _ =>", "}) } else { c }))"),
    }
}

fn cols(c: &Cols) -> Program<Vec<usize>> {
    let mut src = String::from("pub fn run() -> Vec<String> {\n    let (n0, b0, b1, e0) = (1, true, false, E::A);\n    let _: T = ");
    let (a, b) = places(c.place);
    src.push_str(a);
    let mut bad = Vec::new();
    let mut stack: Vec<usize> = Vec::new();
    let n = c.cols.len();
    for (i, k) in c.cols.iter().enumerate() {
        src.push('\n');
        if i + 1 == n {
            for _ in 0..c.blank {
                src.push('\n');
            }
        }
        let k = 4 + *k as usize;
        src.push_str(&" ".repeat(k));
        if bad.is_empty() {
            while stack.last().is_some_and(|t| *t > k) {
                stack.pop();
            }
            if i > 0 && stack.last().is_none_or(|t| *t < k) && src_prev_deeper(&c.cols, i) {
                bad.push(src.matches('\n').count());
            }
            if stack.last() != Some(&k) {
                stack.push(k);
            }
        }
        src.push_str("row");
    }
    src.push('\n');
    src.push_str(b);
    src.push_str(";\n    vec![]\n}\n");
    Program {
        src,
        meta: bad,
        nontrivial: n > 1,
    }
}

fn src_prev_deeper(cols: &[u8], i: usize) -> bool {
    cols[i - 1] > cols[i]
}

pub fn c13(cx: &mut Ctx, rc: &Rustc) {
    let (len, width) = if cx.thorough { (6, 5) } else { (5, 4) };
    let mut cases = Vec::new();
    for n in 1..=len {
        for k in 0..(width as u64).pow(n) {
            let mut k = k;
            let cols: Vec<u8> = (0..n)
                .map(|_| {
                    let c = (k % width as u64) as u8;
                    k /= width as u64;
                    c
                })
                .collect();
            // Shifted copies are the same.
            if cols.contains(&0) {
                let at = cases.len() as u64 + cx.part_seed("columns");
                cases.push(Cols {
                    cols,
                    blank: (at / 8 % 3) as u8,
                    place: (at % 8) as u8,
                });
            }
        }
    }
    if cx.replay.is_some() {
        cases.clear();
    }
    fixed(
        cx,
        rc,
        Part {
            name: "columns",
            rule: "more than one row; every sequence of up to five (thorough: six) rows over four (five) columns, in eight kinds of places by turns; oracle: a stack of the columns of enclosing rows decides acceptance and the line of the error",
            cases: 0,
            batch: 64,
            run: false,
            gen: &|_| unreachable!(),
            build: &cols,
            judge: &|_, p, o| judge_rows(&p.meta, o),
        },
        cases,
        "exhaustive",
    );
    let cases = cx.n(8000, 150_000);
    search(
        cx,
        rc,
        Part {
            name: "rows",
            rule: "more than one row, a nested quotation or a string with interpolation; random quotations, two thirds of them with misplaced rows anywhere in them, nested quotations included; oracle: compiles if and only if no row is misplaced, and every error concerns indentation and a misplaced row",
            cases,
            batch: 60,
            run: false,
            gen: &|r: &mut Rng| {
                let bad = [0, 12, 40][r.below(3) as usize];
                let base = if r.chance(1, 2) { ROWS } else { Style { rows: 6, ..LAYOUT } };
                case(r, &Style { bad, ..base }, 0)
            },
            build: &simple,
            judge: &|_: &Case, p: &Program<Meta>, o| judge_rows(&p.meta.bad, o),
        },
    );
}

// ---------------------------------------------------------------- C17

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Form {
    lang: u8,
    entry: u8,
    /// From the outside to the inside.
    around: Vec<u8>,
    leaf: u8,
    /// Tokens next to the leaf.
    near: u8,
}

/// The language, and whether it supports interpolation.
const LANGS: [(&str, bool); 13] = [
    ("genco::lang::Rust", false),
    ("genco::lang::Java", false),
    ("genco::lang::Csharp", false),
    ("genco::lang::C", false),
    ("genco::lang::Go", false),
    ("genco::lang::Python", false),
    ("genco::lang::Swift", false),
    ("genco::lang::Nix", false),
    ("Plain", false),
    ("()", false),
    ("genco::lang::JavaScript", true),
    ("genco::lang::Dart", true),
    ("TLang", true),
];

/// Source, whether it uses string interpolation, whether it is well-formed.
const LEAVES: [(&str, bool, bool); 74] = [
    // Accepted everywhere.
    ("foo", false, true),
    ("\"lit $x\"", false, true),
    ("$[str]()", false, true),
    ("$[str](some text)", false, true),
    ("$[str](f(x) [1] {y})", false, true),
    ("$[str](a $[const](\"x\") b)", false, true),
    ("$[str]( $[const](x) )", false, true),
    ("$[str]($[const](x)$[const](\"\"))", false, true),
    ("$[str](price: $$x)", false, true),
    ("$[str]($$)", false, true),
    ("$[str]($$(x))", false, true),
    ("$[str](\"quoted $x\")", false, true),
    ("$(quoted(x))", false, true),
    ("$x", false, true),
    ("$$x", false, true),
    ("$['\\n']", false, true),
    ("$['\\r'] $[' ']", false, true),
    ("$(let y = 1)", false, true),
    ("$(\"text\")", false, true),
    // Need support of the language.
    ("$[str]($x)", true, true),
    ("$[str](text $x text)", true, true),
    ("$[str]($(foo))", true, true),
    ("$[str]($())", true, true),
    ("$[str](a $($x + $y) b)", true, true),
    ("$[str]($[const](x) $x)", true, true),
    ("$[str](f($x))", true, true),
    ("$[str]([1, {$(x)}])", true, true),
    ("$[str]($$ $x)", true, true),
    ("$[str](($x) \"$x\")", true, true),
    ("$[str]($($[str]($x)))", true, true),
    ("$[str]($($[str](no)))", true, true),
    ("$[str]($($(if b { foo }) ))", true, true),
    // Unknown functions.
    ("$[foo]", false, false),
    ("$[foo](x)", false, false),
    ("$[string](x)", false, false),
    ("$[Str](x)", false, false),
    ("$[strs](x)", false, false),
    ("$[r#str](x)", false, false),
    ("$[const](\"x\")", false, false),
    ("$[const](x)", false, false),
    ("$[join](x)", false, false),
    // Unknown escapes.
    ("$['x']", false, false),
    ("$['\\t']", false, false),
    ("$['\\0']", false, false),
    ("$['n']", false, false),
    ("$['\\u{a0}']", false, false),
    ("$['\\u{b}']", false, false),
    ("$['']", false, false),
    // Escapes with arguments.
    ("$[' '](x)", false, false),
    ("$[' ']()", false, false),
    ("$['\\n'](1)", false, false),
    ("$['\\r']()", false, false),
    ("$['\\r'](a b)", false, false),
    // String functions without content.
    ("$[str]", false, false),
    ("$[str] x", false, false),
    ("$[str]{x}", false, false),
    ("$[str][x]", false, false),
    ("$[str]\"x\"", false, false),
    // Line breaks.
    ("$[str](a\n b)", false, false),
    ("$[str](\na)", false, false),
    ("$[str](a\n)", false, false),
    ("$[str](\n)", false, false),
    ("$[str](f(a\n b))", false, false),
    ("$[str](f(\n))", false, false),
    ("$[str](a $$\n$$)", false, false),
    ("$[str](a $x\n b)", true, false),
    ("$[str](a\n$x)", true, false),
    ("$[str](a\n$(x))", true, false),
    ("$[str](a\n$[const](x))", false, false),
    // Within strings.
    ("$[str](a $[foo](x))", false, false),
    ("$[str](a $[str](x))", false, false),
    ("$[str](a $[' '] b)", false, false),
    ("$[str](a $[const] b)", false, false),
    ("$[str](a $[str x](x) b)", false, false),
];

const AROUND: usize = 26;

/// Put `s` into a construct; the second result tells if that uses interpolation.
pub fn around(k: u8, s: &str) -> (String, bool) {
    let w = |a: &str, b: &str| (format!("{a}{s}{b}"), false);
    match k as usize % AROUND {
        0 => w("(", ")"),
        1 => w("[ ", "]"),
        2 => w("{ ", " }"),
        3 => w("$(for _ in 0..2 {", "})"),
        4 => w("$(for _ in 0..2 => a ", ")"),
        5 => w("$(for _ in 0..2 join (, ) { ", " })"),
        6 => w("$(for _ in 0..2 join (", ") { a })"),
        7 => w("$(for i in 0..2 join ( ", " ) => $i)"),
        8 => w("$(if b {", "})"),
        9 => w("$(if b => ", ")"),
        10 => w("$(if b { ", " } else { a })"),
        11 => w("$(if b { a } else {", "})"),
        12 => w("$(if let Some(_) = Some(1) { } else { a b ", " c})"),
        13 => w("$(match b { true => {", "} _ => {} })"),
        14 => w("$(match b { true => {} _ => {", "} })"),
        15 => w("$(match b { true => (", "), false => a })"),
        16 => w("$(match b { true => a, false => (a ", " ) })"),
        17 => w("$(match b { true => a ", ", false => {} })"),
        18 => w("$(match b { true => a, false => a ", " })"),
        19 => w("$(match b { true if x == 1 => { ", " }, _ => {} })"),
        20 => w("a $(for _ in 0..1 => $(for _ in 0..1 => $(if b => ", "))) a"),
        21 => w("$(ref t => { quote_in!(*t => ", "); })"),
        22 => w("$(ref t { quote_in!{*t => ", "} })"),
        23 => w("$(quote_fn!(", "))"),
        24 => w("{ $(if b { [ ", " ] } else { ( a ) }) }"),
        _ => (format!("$[str](a $({s}) b)"), true),
    }
}

fn form(c: &Form) -> Program<(bool, bool)> {
    let (lang, supports) = LANGS[c.lang as usize % LANGS.len()];
    let (leaf, mut eval, ok) = LEAVES[c.leaf as usize % LEAVES.len()];
    let mut s = leaf.to_string();
    s = match c.near % 6 {
        1 => format!("a {s}"),
        2 => format!("a {s} a"),
        3 => format!("$x {s};"),
        4 => format!("$(if b => a) {s} [a]"),
        5 => format!("$(match b {{ _ => a }}) {s} \"a\""),
        _ => s,
    };
    for k in c.around.iter().rev() {
        let (t, e) = around(*k, &s);
        s = t;
        eval |= e;
    }
    let (a, b) = [
        ("let t: Tokens<L> = quote!(", ");"),
        ("let t: Tokens<L> = quote!{", "};"),
        ("let mut t: Tokens<L> = Tokens::new(); quote_in!(t => ", ");"),
        ("let mut t: Tokens<L> = Tokens::new(); quote_in!{ t => ", "}"),
        ("let mut t: Tokens<L> = Tokens::new(); let f = quote_fn!(", "); t.append(f);"),
        ("fn f(x: i32, y: i32, b: bool) -> impl genco::tokens::FormatInto<L> { quote_fn!(", ") }\nlet t: Tokens<L> = { let mut t = Tokens::new(); t.append(f(x, y, b)); t };"),
    ][c.entry as usize % 6];
    let src = format!(
        "type L = {lang};\npub fn run() -> Vec<String> {{\nlet (x, y, b) = (1, 2, true);\n{a}{s}{b}\nvec![]\n}}\n"
    );
    Program {
        src,
        nontrivial: !c.around.is_empty() || !ok || eval,
        meta: (ok, eval && !supports),
    }
}

fn judge_form(_: &Form, p: &Program<(bool, bool)>, o: &Outcome) -> Result<(), String> {
    let (ok, missing) = p.meta;
    match o {
        Outcome::Compiled if !ok => Err("accepted a malformed quotation".into()),
        Outcome::Compiled if missing => {
            Err("accepted string interpolation for a language which does not support it".into())
        }
        Outcome::Compiled => Ok(()),
        Outcome::Errors(e) if !ok => {
            if e.iter().any(|d| d.msg.contains("panicked")) {
                return Err(format!("the macro panics: {}", messages(o)));
            }
            Ok(())
        }
        Outcome::Errors(e) if missing => {
            if e.iter().all(|d| d.code.is_empty()) {
                return Err(format!("rejected for something else: {}", messages(o)));
            }
            Ok(())
        }
        Outcome::Errors(_) => Err(format!("rejected: {}", messages(o))),
        o => Err(format!("{o:?}")),
    }
}

pub fn c17(cx: &mut Ctx, rc: &Rustc) {
    // Every leaf, in every construct, alternating entry points, in one language of either kind.
    let mut cases = Vec::new();
    if cx.replay.is_none() {
        let seed = cx.part_seed("pairs");
        for leaf in 0..LEAVES.len() as u8 {
            for k in 0..=AROUND as u8 {
                let r = &mut Rng(crate::run::hash_of(&(seed, leaf, k)));
                for lang in [r.u8(10), 10 + r.u8(3)] {
                    cases.push(Form {
                        lang,
                        entry: r.u8(6),
                        around: if k == 0 { vec![] } else { vec![k - 1] },
                        leaf,
                        near: r.u8(6),
                    });
                }
            }
        }
    }
    let name = "pairs";
    fixed(
        cx,
        rc,
        Part {
            name,
            rule: "within a construct, malformed or with interpolation; every well-formed and malformed special form within every construct, for a language with and one without string interpolation, entry points and neighbouring tokens by chance; oracle: compiles if and only if well-formed and supported",
            cases: 0,
            batch: 80,
            run: false,
            gen: &|_| unreachable!(),
            build: &form,
            judge: &judge_form,
        },
        cases,
        "exhaustive",
    );
    let cases = cx.n(10_000, 200_000);
    search(
        cx,
        rc,
        Part {
            name: "nested",
            rule: "within a construct, malformed or with interpolation; special forms within up to five nested constructs, thirteen languages, six ways to quote; oracle: compiles if and only if well-formed and supported",
            cases,
            batch: 80,
            run: false,
            gen: &|r: &mut Rng| Form {
                lang: r.u8(LANGS.len() as u8),
                entry: r.u8(6),
                around: (0..r.below(6)).map(|_| r.u8(AROUND as u8)).collect(),
                leaf: if r.chance(1, 2) { 19 + r.u8(13) } else { r.u8(LEAVES.len() as u8) },
                near: r.u8(6),
            },
            build: &form,
            judge: &judge_form,
        },
    );
}
