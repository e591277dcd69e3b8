//! C24: the macros cope with any tokens.

use serde::{Deserialize, Serialize};

use crate::gen::Rng;
use crate::run::Ctx;
use crate::rustc::{Outcome, Rustc};
use crate::search::{search, Part, Program};

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum N {
    /// Index into the words.
    Word(u16),
    /// Delimiter, contents, and whether they start on a row of their own.
    Group(u8, Vec<N>, bool),
    /// A new row.
    Row,
    /// Directly after what precedes, if that lexes the same.
    Join,
}

/// Words which need a blank around them to stay the same tokens.
const WORDS: [&str; 73] = [
    "foo", "x", "b", "e0", "n", "str", "const", "join", "r#type", "_", "if", "else", "for", "in", "match", "let", "ref", "mut",
    "move", "return", "break", "continue", "loop", "while", "fn", "self", "Self", "crate", "async", "await", "unsafe", "dyn",
    "as", "Some", "None", "true", "false", "1", "0xff_u8", "1.5", "1.0e-3", "7i32", "1_000", "'a'", "'\\n'", "' '", "'\\r'",
    "'x'", "b'c'", "'life", "'static", "\"lit\"", "\"\"", "\"a b\"", "r\"raw\"", "r#\"r#aw\"#", "b\"bytes\"", "c\"cstr\"", "été", "名前",
    "union", "yield", "\"lit\"sv", "r\"raw\"sv", "/** doc */", "/** two\nlines */", "/*! in\n\n\n */", "'a'q", "1.0_km", "b\"b\"q", "0b101u8",
    "1.", "'\\u{1F600}'",
];

const PUNCT: [&str; 36] = [
    "$", "$$", "=>", "=", ",", ";", ":", "::", ".", "..", "...", "..=", "->", "<-", "<", ">", "<<=", "&", "&&", "|", "||", "!", "!=",
    "?", "@", "#", "+", "+=", "*", "%", "^", "-", "==", ">=", "/", "~",
];

/// Words as the start of something special.
const STARTS: [&str; 16] = [
    "$[str]", "$[' ']", "$['\\n']", "$['\\r']", "$[const]", "$[foo]", "$['x']", "$[]", "$[str x]", "$[\"str\"]", "$[1]", "$x", "$b", "$r#type",
    "$self", "$1",
];

const ALL: usize = WORDS.len() + PUNCT.len() + STARTS.len();

fn word(i: u16) -> (&'static str, u8) {
    let i = i as usize % ALL;
    if i < WORDS.len() {
        (WORDS[i], 0)
    } else if i < WORDS.len() + PUNCT.len() {
        let p = PUNCT[i - WORDS.len()];
        (p, if matches!(p, "/" | "*" | "#") { 0 } else { 1 })
    } else {
        (STARTS[i - WORDS.len() - PUNCT.len()], 0)
    }
}

fn at(w: &str) -> N {
    let all = WORDS.iter().chain(&PUNCT).chain(&STARTS);
    N::Word(all.into_iter().position(|x| *x == w).unwrap_or_else(|| panic!("{w}")) as u16)
}

struct Print {
    out: String,
    /// Class of the last token; 2: an opening delimiter or the start of a row.
    last: u8,
    join: bool,
    column: usize,
}

impl Print {
    fn gap(&mut self, class: u8) {
        if self.last != 2 && !(self.join && (class == 1 || self.last == 1)) {
            self.out.push(' ');
        }
        self.join = false;
    }

    fn nodes(&mut self, ns: &[N]) {
        for n in ns {
            match n {
                N::Word(i) => {
                    let (w, class) = word(*i);
                    self.gap(class);
                    self.out.push_str(w);
                    self.last = class;
                }
                N::Join => self.join = true,
                N::Row => {
                    self.out.push('\n');
                    self.out.push_str(&" ".repeat(self.column));
                    self.last = 2;
                    self.join = false;
                }
                N::Group(d, ns, row) => {
                    let (a, b) = [("(", ")"), ("{", "}"), ("[", "]")][*d as usize % 3];
                    self.gap(1);
                    self.out.push_str(a);
                    self.last = 2;
                    self.join = false;
                    if *row {
                        self.column += 4;
                        self.nodes(&[N::Row]);
                        self.nodes(ns);
                        self.column -= 4;
                        self.nodes(&[N::Row]);
                    } else {
                        self.nodes(ns);
                    }
                    self.out.push_str(b);
                    self.last = 1;
                    self.join = false;
                }
            }
        }
    }
}

fn print(ns: &[N]) -> String {
    let mut p = Print { out: String::new(), last: 2, join: false, column: 0 };
    p.nodes(ns);
    p.out
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Case {
    body: Vec<N>,
    entry: u8,
    lang: u8,
}

const LANGS: [&str; 6] =
    ["TLang", "()", "genco::lang::JavaScript", "genco::lang::Rust", "genco::lang::Dart", "genco::lang::Python"];

fn entry(c: &Case, s: &str) -> String {
    let (a, b) = [
        ("let t: Tokens<L> = quote!(", ");"),
        ("let t: Tokens<L> = quote!{", "};"),
        ("let mut t: Tokens<L> = Tokens::new(); quote_in!(t =>", ");"),
        ("let mut t: Tokens<L> = Tokens::new(); quote_in!{t =>", "}"),
        ("let mut t: Tokens<L> = Tokens::new(); let f = quote_fn!(", "); t.append(f);"),
        ("let mut t: Tokens<L> = Tokens::new(); let f = quote_fn!{", "}; t.append(f);"),
        // Through another macro.
        ("macro_rules! m { ($($t:tt)*) => { quote!($($t)*) } }\nlet t: Tokens<L> = m!(", ");"),
        ("macro_rules! m { ($($t:tt)*) => { quote!(foo\n  $($t)* { bar\n }\n $($t)*) } }\nlet t: Tokens<L> = m!(", ");"),
        ("let mut t: Tokens<L> = Tokens::new();\nmacro_rules! m { ($($t:tt)*) => { quote_in!(t => a $($t)*\n      b) } }\nm!{", "}"),
        ("macro_rules! m { ($($t:tt)*) => { quote!($($t)* foo) } }\nlet t: Tokens<L> = m!(a (", ") b);"),
    ][c.entry as usize % 10];
    let nl = if c.entry / 10 % 2 == 0 { "\n" } else { " " };
    format!("{a}{nl}{s}{nl}{b}")
}

fn program(c: &Case, out: &str) -> Program<String> {
    let s = print(&c.body);
    let src = format!(
        "type L = {};\npub fn run() -> Vec<String> {{\nlet (x, n, foo, b, e0, été, r#type) = (1, 2, vec![3], true, Some(4), 5, 6);\n{}\nvec![{out}]\n}}\n",
        LANGS[c.lang as usize % LANGS.len()],
        entry(c, &s)
    );
    Program { nontrivial: s.contains('$'), src, meta: s }
}

fn judge_total(_: &Case, _: &Program<String>, o: &Outcome) -> Result<(), String> {
    match o {
        Outcome::Compiled => Ok(()),
        Outcome::Errors(e) => match e.iter().find(|d| d.msg.contains("panicked")) {
            Some(d) => Err(format!("the macro panics: line {}: {}", d.line + 1, d.msg)),
            None => Ok(()),
        },
        o => Err(format!("{o:?}")),
    }
}

const STR: u16 = WORDS.len() as u16 + PUNCT.len() as u16;

fn any_word(r: &mut Rng, special: bool) -> N {
    N::Word(match r.below(if special { 10 } else { 8 }) {
        0..=4 => r.below(WORDS.len() as u64) as u16,
        5..=7 => (WORDS.len() as u64 + r.below(PUNCT.len() as u64)) as u16,
        _ => STR + r.below(STARTS.len() as u64) as u16,
    })
}

fn tokens(r: &mut Rng, depth: u8, special: bool, out: &mut Vec<N>) {
    let n = r.below(6);
    for _ in 0..n {
        match r.below(12) {
            0 if depth > 0 => {
                let mut v = Vec::new();
                tokens(r, depth - 1, special, &mut v);
                out.push(N::Group(r.u8(3), v, r.chance(1, 5)));
            }
            1 => out.push(N::Row),
            2 | 3 => out.push(N::Join),
            4..=6 if special && depth > 0 => out.extend(form(r, depth - 1)),
            _ => out.push(any_word(r, special)),
        }
    }
}

fn g(d: u8, v: Vec<N>) -> N {
    N::Group(d, v, false)
}

/// The words of an expression or pattern.
fn expr(r: &mut Rng, depth: u8) -> Vec<N> {
    match r.below(9) {
        0 => vec![at("x")],
        1 => vec![at("b")],
        2 => vec![at("let"), at("Some"), g(0, vec![at("n")]), at("="), at("e0")],
        3 => vec![at("foo")],
        4 => vec![at("1"), at(".."), at("n")],
        5 => vec![at("e0")],
        6 => vec![at("\"lit\"")],
        7 if depth > 0 => vec![at("match"), at("x"), g(1, vec![at("_"), at("=>"), at("b")])],
        _ => {
            let mut v = Vec::new();
            tokens(r, 1, false, &mut v);
            v
        }
    }
}

fn pat(r: &mut Rng) -> Vec<N> {
    match r.below(6) {
        0 => vec![at("_")],
        1 => vec![at("n")],
        2 => vec![at("Some"), g(0, vec![at("n")])],
        3 => vec![at("1"), at("|"), at("7i32")],
        4 => vec![at("ref"), at("n")],
        _ => vec![g(0, vec![at("n"), at(","), at("_")])],
    }
}

fn body(r: &mut Rng, depth: u8) -> Vec<N> {
    let mut v = Vec::new();
    tokens(r, depth, true, &mut v);
    v
}

/// A special form, mostly well-formed, with a few edits.
fn form(r: &mut Rng, depth: u8) -> Vec<N> {
    let mut inner: Vec<N> = Vec::new();
    let block = |r: &mut Rng| N::Group(if r.chance(1, 12) { r.u8(3) } else { 1 }, body(r, depth), r.chance(1, 3));
    let mut whole = None;
    match r.below(9) {
        0 => {
            inner.push(at("for"));
            inner.extend(pat(r));
            inner.push(at("in"));
            inner.extend(expr(r, depth));
            if r.chance(1, 2) {
                inner.extend([at("join"), g(0, body(r, depth))]);
            }
            if r.chance(1, 2) {
                inner.push(at("=>"));
                inner.extend(body(r, depth));
            } else {
                inner.push(block(r));
            }
        }
        1 => {
            inner.push(at("if"));
            inner.extend(expr(r, depth));
            if r.chance(1, 3) {
                inner.push(at("=>"));
                inner.extend(body(r, depth));
            } else {
                inner.push(block(r));
                if r.chance(1, 2) {
                    inner.push(at("else"));
                    if r.chance(1, 6) {
                        inner.push(at("if"));
                        inner.extend(expr(r, depth));
                    }
                    inner.push(block(r));
                }
            }
        }
        2 => {
            inner.push(at("match"));
            inner.extend(expr(r, depth));
            let mut arms = Vec::new();
            for _ in 0..r.below(4) {
                if r.chance(1, 10) {
                    arms.extend([at("#"), g(2, vec![at("foo")])]);
                }
                arms.extend(pat(r));
                if r.chance(1, 4) {
                    arms.push(at("if"));
                    arms.extend(expr(r, depth));
                }
                arms.push(at("=>"));
                match r.below(3) {
                    0 => arms.push(block(r)),
                    1 => arms.push(g(0, body(r, depth))),
                    _ => arms.extend(body(r, depth)),
                }
                if !r.chance(1, 6) {
                    arms.push(at(","));
                }
            }
            inner.push(N::Group(1, arms, r.chance(1, 2)));
        }
        3 => {
            inner.push(at("let"));
            inner.extend(pat(r));
            inner.push(at("="));
            inner.extend(expr(r, depth));
        }
        4 => {
            inner.extend([at("ref"), at(if r.chance(1, 3) { "_" } else { "n" })]);
            if r.chance(1, 2) {
                inner.push(at("=>"));
                inner.extend(expr(r, depth));
            } else {
                inner.push(block(r));
            }
        }
        5 => inner.extend(expr(r, depth)),
        6 => whole = Some(vec![at("$[str]"), N::Join, g(0, body(r, depth))]),
        7 => whole = Some(vec![N::Word(STR + r.below(STARTS.len() as u64) as u16), N::Join, N::Group(r.u8(3), body(r, depth), r.chance(1, 6))]),
        _ => {
            let lit = *[&"\"lit\"", &"\"\"", &"r\"raw\"", &"b\"bytes\"", &"'a'"][r.below(5) as usize];
            inner.push(at(lit));
        }
    }
    let mut v = whole.unwrap_or_else(|| vec![at("$"), N::Join, N::Group(0, inner, r.chance(1, 8))]);
    if r.chance(1, 3) {
        edit(r, &mut v);
    }
    v
}

/// Drop, double, swap or replace something.
fn edit(r: &mut Rng, v: &mut Vec<N>) {
    if v.is_empty() {
        return;
    }
    let i = r.below(v.len() as u64) as usize;
    if let N::Group(d, ns, _) = &mut v[i] {
        if !r.chance(1, 6) {
            edit(r, ns);
            return;
        }
        *d = r.u8(3);
        return;
    }
    match r.below(5) {
        0 => {
            v.remove(i);
        }
        1 => v.insert(i, v[i].clone()),
        2 => {
            let j = r.below(v.len() as u64) as usize;
            v.swap(i, j);
        }
        3 => v.insert(i, N::Row),
        _ => v[i] = any_word(r, true),
    }
}

// ---------------------------------------------------------------- without `$`

fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

/// What tokens without special meaning render as: strings as quoted text of `TLang`.
fn expected(ns: &[N], out: &mut String) {
    for n in ns {
        match n {
            N::Word(i) => {
                let (w, _) = word(*i);
                out.push_str(&match w {
                    "r\"raw\"" => "\"raw\"".to_string(),
                    "r#\"r#aw\"#" => "\"r#aw\"".to_string(),
                    "r\"raw\"sv" => "\"raw\"sv".to_string(),
                    w if w.starts_with("/*") => {
                        let inner = squeeze(&w[3..w.len() - 2]);
                        format!("#{}[doc=\"{inner}\"]", if w.starts_with("/*!") { "!" } else { "" })
                    }
                    w => squeeze(w),
                });
            }
            N::Group(d, ns, _) => {
                let (a, b) = [('(', ')'), ('{', '}'), ('[', ']')][*d as usize % 3];
                out.push(a);
                expected(ns, out);
                out.push(b);
            }
            N::Row | N::Join => {}
        }
    }
}

fn plain(c: &Case) -> Program<String> {
    let p = program(&Case { lang: 0, entry: c.entry % 6, ..c.clone() }, "t.to_string().unwrap()");
    let mut want = String::new();
    expected(&c.body, &mut want);
    Program { nontrivial: c.body.len() >= 3, meta: want, src: p.src }
}

fn judge_plain(_: &Case, p: &Program<String>, o: &Outcome) -> Result<(), String> {
    match o {
        Outcome::Out(v) => {
            let got = squeeze(&v[0]);
            if got != p.meta {
                return Err(format!("tokens {}\nrender {got}", p.meta));
            }
            Ok(())
        }
        Outcome::Errors(e) => Err(format!("rejected: {:?}", e.first())),
        o => Err(format!("{o:?}")),
    }
}

fn without(ns: &mut Vec<N>) {
    ns.retain(|n| match n {
        N::Word(i) => !word(*i).0.contains('$'),
        _ => true,
    });
    for n in ns {
        if let N::Group(_, v, _) = n {
            without(v);
        }
    }
}

// ---------------------------------------------------------------- leftovers

/// Complete forms, which nothing can follow within the parentheses.
const COMPLETE: [&str; 16] = [
    "if b { a }",
    "if b { a } else { c }",
    "if let Some(n) = Some(1) { $n } else { }",
    "for _ in 0..2 { a }",
    "for i in 0..2 join (, ) { $i }",
    "for (i, _) in [(1, 2)] join ( ) { $i }",
    "match b { true => a, _ => c }",
    "match b { true => { a } _ => (c) }",
    "match x { 1 | 2 if b => {}, _ => {} }",
    "let q = 1",
    "let (q, _) = (x, y)",
    "ref t { t.append(1); }",
    "ref _ { }",
    "x",
    "f(x)",
    "\"lit\"",
];

const EXTRA: [&str; 16] =
    ["y", ";", ",", "=>", "=> y", "(y)", "{ y }", "[y]", "\"s\"", "1", "$y", "$(y)", "else", "join (,)", "#", "'\\n'"];

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Left {
    form: u8,
    extra: u8,
    around: Vec<u8>,
    entry: u8,
    lang: u8,
}

/// Literals which can't be used as they are.
const SUFFIXED: [&str; 3] = ["$(\"a\"sv)", "$[str](a $[const](\"b\"sv) c)", "$(r\"a\"sv)"];

fn left(c: &Left) -> Program<String> {
    let mut s = if c.form as usize >= COMPLETE.len() {
        SUFFIXED[(c.form as usize - COMPLETE.len()) % SUFFIXED.len()].to_string()
    } else {
        format!("$({} {})", COMPLETE[c.form as usize % COMPLETE.len()], EXTRA[c.extra as usize % EXTRA.len()])
    };
    for k in c.around.iter().rev() {
        s = crate::reject::around(*k, &s).0;
    }
    let (a, b) = [
        ("let t: Tokens<L> = quote!(", ");"),
        ("let t: Tokens<L> = quote!{", "};"),
        ("let mut t: Tokens<L> = Tokens::new(); quote_in!(t => ", ");"),
        ("let mut t: Tokens<L> = Tokens::new(); quote_in!{ t => ", "}"),
        ("let mut t: Tokens<L> = Tokens::new(); let f = quote_fn!(", "); t.append(f);"),
    ][c.entry as usize % 5];
    let src = format!(
        "type L = {};\nfn f(x: i32) -> i32 {{ x }}\npub fn run() -> Vec<String> {{\nlet (x, y, b) = (1, 2, true);\n{a}{s}{b}\nvec![]\n}}\n",
        ["TLang", "genco::lang::JavaScript", "genco::lang::Dart"][c.lang as usize % 3]
    );
    Program { nontrivial: true, meta: s, src }
}

fn judge_left(_: &Left, _: &Program<String>, o: &Outcome) -> Result<(), String> {
    match o {
        Outcome::Compiled => Err("accepted, though tokens are left over".into()),
        Outcome::Errors(e) => match e.iter().find(|d| d.msg.contains("panicked")) {
            Some(d) => Err(format!("the macro panics: line {}: {}", d.line + 1, d.msg)),
            None => Ok(()),
        },
        o => Err(format!("{o:?}")),
    }
}

pub fn c24(cx: &mut Ctx, rc: &Rustc) {
    let cases = cx.n(6000, 120_000);
    search(
        cx,
        rc,
        Part {
            name: "any",
            rule: "has a `$`; random tokens and special forms with missing, doubled, swapped or replaced tokens, through ten ways to quote (some by way of another macro); oracle: the macro neither panics nor runs on, and what is wrong is reported within the quotation",
            cases,
            batch: 60,
            run: false,
            gen: &|r: &mut Rng| {
                let mut body = Vec::new();
                while body.is_empty() {
                    tokens(r, 3, true, &mut body);
                }
                if r.chance(1, 4) {
                    edit(r, &mut body);
                }
                Case { body, entry: r.u8(20), lang: r.u8(LANGS.len() as u8) }
            },
            build: &|c| program(c, ""),
            judge: &judge_total,
        },
    );
    let cases = cx.n(2000, 40_000);
    search(
        cx,
        rc,
        Part {
            name: "plain",
            rule: "at least three tokens; any tokens but `$`, in rows and groups; oracle: accepted, and rendered with every token in place",
            cases,
            batch: 100,
            run: true,
            gen: &|r: &mut Rng| {
                let mut body = Vec::new();
                while body.is_empty() {
                    for _ in 0..2 {
                        tokens(r, 3, false, &mut body);
                    }
                    without(&mut body);
                }
                Case { body, entry: r.u8(12), lang: 0 }
            },
            build: &plain,
            judge: &judge_plain,
        },
    );
    let mut cases = Vec::new();
    if cx.replay.is_none() {
        let r = &mut Rng(cx.part_seed("leftovers"));
        for form in 0..(COMPLETE.len() + SUFFIXED.len()) as u8 {
            for extra in 0..if form as usize >= COMPLETE.len() { 1 } else { EXTRA.len() as u8 } {
                for k in 0..if cx.thorough { 60 } else { 6 } {
                    cases.push(Left {
                        form,
                        extra,
                        around: (0..k % 4).map(|_| r.u8(26)).collect(),
                        entry: r.u8(5),
                        lang: r.u8(3),
                    });
                }
            }
        }
    }
    crate::search::fixed(
        cx,
        rc,
        Part {
            name: "leftovers",
            rule: "every case; complete special forms followed by something which does not belong to them, and literals with a suffix as a value, within up to three constructs; oracle: rejected rather than dropped",
            cases: 0,
            batch: 80,
            run: false,
            gen: &|_| unreachable!(),
            build: &left,
            judge: &judge_left,
        },
        cases,
        "exhaustive",
    );
}
