//! C08: composed, interpolated and nested strings.

use crate::c07::{in_domain, special, text};
use crate::lits::*;
use crate::run::Ctx;
use crate::{tools, with_lang};
use genco::lang::Lang;
use genco::tokens::{from_fn, quoted, Item, ItemStr};
use genco::Tokens;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum P {
    /// Literal text, with a storage/append form.
    Text(String, u8),
    /// A space item (not adjacent to another one).
    Space,
    /// Evaluated expression.
    Eval(E),
    /// A nested quoted string.
    Nested(Vec<P>),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum E {
    Ident(String),
    /// Not a simple identifier.
    Raw(String),
    /// `name("...")`, with spaces around when set.
    Call(String, Vec<P>, bool),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    pub lang: LangId,
    pub pieces: Vec<P>,
    pub how: u8,
}

fn add<L: Lang>(t: &mut Tokens<L>, ps: &[P]) {
    let mut space = false;
    for p in ps {
        match p {
            P::Text(s, how) => {
                match how % 5 {
                    0 => t.append(s.as_str()),
                    1 => t.append(s.clone()),
                    2 => t.append(Item::Literal(ItemStr::Box(s.as_str().into()))),
                    3 => t.append(Item::Literal(ItemStr::Static(crate::langs::leak(s)))),
                    _ => {
                        // As two pieces.
                        let m = (0..=s.len() / 2).rev().find(|i| s.is_char_boundary(*i)).unwrap();
                        t.append(&s[..m]);
                        t.append(&s[m..]);
                    }
                }
                if !s.is_empty() {
                    space = false;
                }
                continue;
            }
            P::Space => {
                if !space {
                    t.space();
                }
                space = true;
                continue;
            }
            P::Eval(e) => {
                t.append(Item::OpenEval);
                match e {
                    E::Ident(s) | E::Raw(s) => t.append(s.as_str()),
                    E::Call(f, ps, sp) => {
                        if *sp {
                            t.space();
                        }
                        t.append(f.as_str());
                        t.append("(");
                        string(t, ps, 1);
                        t.append(")");
                        if *sp {
                            t.space();
                        }
                    }
                }
                t.append(Item::CloseEval);
            }
            P::Nested(ps) => string(t, ps, 0),
        }
        space = false;
    }
}

pub fn has_eval(ps: &[P]) -> bool {
    ps.iter().any(|p| matches!(p, P::Eval(_)))
}

pub fn string<L: Lang>(t: &mut Tokens<L>, ps: &[P], how: u8) {
    if has_eval(ps) {
        t.append(Item::OpenQuote(true));
        add(t, ps);
        t.append(Item::CloseQuote);
    } else if how % 2 == 0 {
        t.append(quoted(from_fn(|t| add(t, ps))));
    } else {
        let mut sub = Tokens::new();
        add(&mut sub, ps);
        t.append(quoted(sub));
    }
}

pub fn emit(c: &Case) -> Result<String, String> {
    with_lang!(c.lang, L => {
        let mut t = Tokens::<L>::new();
        string(&mut t, &c.pieces, c.how);
        t.to_string().map_err(|_| "rendering failed".to_string())
    })
}

/// What a piece sequence denotes: text, expressions and nested literals.
#[derive(Debug, Clone, PartialEq)]
enum D {
    Text(String),
    Expr(E),
    Nested(Vec<P>),
}

fn denote(ps: &[P]) -> Vec<D> {
    let mut out: Vec<D> = Vec::new();
    let mut space = false;
    let push = |out: &mut Vec<D>, s: &str| {
        if s.is_empty() {
            return;
        }
        match out.last_mut() {
            Some(D::Text(t)) => t.push_str(s),
            _ => out.push(D::Text(s.into())),
        }
    };
    for p in ps {
        match p {
            P::Text(s, _) => {
                push(&mut out, s);
                if !s.is_empty() {
                    space = false;
                }
                continue;
            }
            P::Space => {
                if !space {
                    push(&mut out, " ");
                }
                space = true;
                continue;
            }
            P::Eval(e) => out.push(D::Expr(e.clone())),
            P::Nested(n) => out.push(D::Nested(n.clone())),
        }
        space = false;
    }
    out
}

/// Does a literal source denote these pieces?
fn matches(lang: LangId, src: &str, ps: &[P]) -> Result<(), String> {
    let (parts, rest) = decode(lang, src).map_err(|e| format!("{lang:?}: {src}: {e}"))?;
    if !rest.is_empty() {
        return Err(format!("{lang:?}: {src}: text after the end of the literal: {rest:?}"));
    }
    let want = denote(ps);
    if !has_eval(ps) && parts.iter().any(|p| matches!(p, Part::Expr(_))) {
        return Err(format!("{lang:?}: {src}: text is interpolated: {parts:?}"));
    }
    let mut got = parts.into_iter().peekable();
    let mut text = String::new();
    for d in want {
        match d {
            D::Expr(e) => {
                if !text.is_empty() {
                    return Err(format!("{lang:?}: {src}: unexpected text {text:?}"));
                }
                match got.next() {
                    Some(Part::Expr(s)) => expr(lang, &s, &e).map_err(|m| format!("in {src}: {m}"))?,
                    p => return Err(format!("{lang:?}: {src}: expected expression {e:?}, got {p:?}")),
                }
            }
            D::Text(_) | D::Nested(_) if text.is_empty() && matches!(got.peek(), Some(Part::Text(_))) => {
                if let Some(Part::Text(t)) = got.next() {
                    text = t;
                }
                take(lang, src, &mut text, &d)?;
            }
            d => take(lang, src, &mut text, &d)?,
        }
    }
    if !text.is_empty() || got.peek().is_some() {
        return Err(format!("{lang:?}: {src}: left over {text:?} {:?}", got.collect::<Vec<_>>()));
    }
    Ok(())
}

fn take(lang: LangId, src: &str, text: &mut String, d: &D) -> Result<(), String> {
    match d {
        D::Text(s) => match text.strip_prefix(s.as_str()) {
            Some(r) => *text = r.to_string(),
            None => return Err(format!("{lang:?}: {src}: expected text {s:?}, got {text:?}")),
        },
        D::Nested(ps) => {
            let (_, rest) = decode(lang, text).map_err(|e| format!("{lang:?}: {src}: inner literal {text:?}: {e}"))?;
            let lit = text[..text.len() - rest.len()].to_string();
            matches(lang, &lit, ps).map_err(|e| format!("{lang:?}: {src}: inner literal: {e}"))?;
            *text = rest.to_string();
        }
        D::Expr(_) => unreachable!(),
    }
    Ok(())
}

fn expr(lang: LangId, s: &str, e: &E) -> Result<(), String> {
    match e {
        E::Ident(i) | E::Raw(i) if i == s => Ok(()),
        E::Call(f, ps, sp) => {
            let pad = if *sp { " " } else { "" };
            let inner = s
                .strip_prefix(pad)
                .and_then(|s| s.strip_prefix(f.as_str()))
                .and_then(|s| s.strip_prefix('('))
                .and_then(|s| s.strip_suffix(pad))
                .and_then(|s| s.strip_suffix(')'))
                .ok_or_else(|| format!("expected call of {f}, got {s:?}"))?;
            matches(lang, inner, ps)
        }
        _ => Err(format!("expected expression {e:?}, got {s:?}")),
    }
}

fn all_text<'a>(ps: &'a [P], out: &mut Vec<&'a str>) {
    for p in ps {
        match p {
            P::Text(s, _) => out.push(s),
            P::Nested(ps) | P::Eval(E::Call(_, ps, _)) => all_text(ps, out),
            _ => {}
        }
    }
}

fn check_case(c: &Case) -> Result<(), String> {
    let mut ts = Vec::new();
    all_text(&c.pieces, &mut ts);
    if ts.iter().any(|t| !in_domain(c.lang, t)) {
        return Ok(());
    }
    let src = emit(c)?;
    matches(c.lang, &src, &c.pieces)
}

fn split_check(c: &(LangId, String, Vec<u16>)) -> Result<(), String> {
    let (lang, s, cuts) = c;
    if !in_domain(*lang, s) {
        return Ok(());
    }
    let chars: Vec<char> = s.chars().collect();
    let mut at: Vec<usize> = cuts.iter().map(|c| *c as usize % (chars.len() + 1)).collect();
    at.sort();
    at.push(chars.len());
    let mut ps = Vec::new();
    let mut from = 0;
    for a in at {
        ps.push(P::Text(chars[from..a].iter().collect(), a as u8));
        from = a;
    }
    let src = emit(&Case { lang: *lang, pieces: ps.clone(), how: 0 })?;
    match decode_all(*lang, &src) {
        Ok(v) if v == *s => Ok(()),
        Ok(v) => Err(format!("{lang:?}: {src} denotes {v:?}, not {s:?} (pieces {ps:?})")),
        Err(e) => Err(format!("{lang:?}: {src}: {e} (pieces {ps:?})")),
    }
}

fn ident() -> BoxedStrategy<String> {
    prop::sample::select(vec!["a", "b", "c", "x", "foo", "_y", "b1"]).prop_map(String::from).boxed()
}

fn piece_text() -> BoxedStrategy<P> {
    prop_oneof![
        2 => (text(), any::<u8>()).prop_map(|(s, h)| P::Text(s, h)),
        3 => (prop::sample::select(vec!["", " ", "a", "1", "$", "{", "}", "${", "`", "\"", "\\", "\0", "\u{7f}", "x}", "_", "é", "Hello ", "'", "u0041", "{a}", "\n", "f", "😊"]), any::<u8>()).prop_map(|(s, h)| P::Text(s.into(), h)),
        1 => Just(P::Space),
    ]
    .boxed()
}

pub fn pieces(eval: bool, nested: bool) -> BoxedStrategy<Vec<P>> {
    prop::collection::vec(piece_text(), 0..4)
        .prop_recursive(3, 24, 5, move |inner| {
            let leaf = piece_text();
            let piece = match (eval, nested) {
                (true, _) => prop_oneof![
                    5 => leaf,
                    3 => ident().prop_map(|s| P::Eval(E::Ident(s))),
                    1 => prop::sample::select(vec!["a + b", "x.y", "f(1)", "a ?? b", "1", "{x: 1}.x"]).prop_map(|s| P::Eval(E::Raw(s.into()))),
                    2 => (ident(), inner.clone(), any::<bool>()).prop_map(|(f, p, s)| P::Eval(E::Call(f, p, s))),
                    1 => inner.prop_map(|p| if has_eval(&p) { P::Text("-".into(), 0) } else { P::Nested(p) }),
                ]
                .boxed(),
                (false, true) => prop_oneof![3 => leaf, 2 => inner.prop_map(P::Nested)].boxed(),
                _ => leaf,
            };
            crate::model::some(piece.boxed(), 6)
        })
        .boxed()
}

fn nested_depth(ps: &[P]) -> usize {
    ps.iter()
        .map(|p| match p {
            P::Nested(n) => 1 + nested_depth(n),
            P::Eval(E::Call(_, n, _)) => 1 + nested_depth(n),
            P::Eval(_) => 1,
            _ => 0,
        })
        .max()
        .unwrap_or(0)
}

/// Deeply nested evaluation inside a nested (non-evaluating) string is documented as unsupported.
pub fn legal(ps: &[P], in_nested: bool) -> bool {
    ps.iter().all(|p| match p {
        P::Eval(E::Call(_, n, _)) => !in_nested && legal(n, false),
        P::Eval(_) => !in_nested,
        P::Nested(n) => legal(n, true),
        _ => true,
    })
}

/// JavaScript value with the variables bound to fixed texts.
fn js_value(ps: &[P]) -> Option<String> {
    let mut out = String::new();
    for d in denote(ps) {
        match d {
            D::Text(t) => out.push_str(&t),
            D::Expr(E::Ident(i)) => out.push_str(&format!("<{i}>")),
            D::Expr(E::Call(f, ps, _)) => out.push_str(&format!("<{f}>({})", js_value(&ps)?)),
            _ => return None,
        }
    }
    Some(out)
}

/// Only identifiers called are functions.
fn js_ready(ps: Vec<P>) -> Vec<P> {
    ps.into_iter()
        .filter_map(|p| match p {
            P::Eval(E::Ident(i)) => Some(P::Eval(E::Ident(i))),
            P::Eval(E::Raw(_)) | P::Nested(_) => None,
            P::Eval(E::Call(f, ps, s)) => Some(P::Eval(E::Call(format!("F{f}"), js_ready(ps), s))),
            p => Some(p),
        })
        .collect()
}

pub fn check(cx: &mut Ctx) {
    let n = cx.n(40_000, 600_000);
    cx.part(
        "splits",
        "a random text split into pieces at random places, all languages; non-trivial: at least one inner cut and a special character",
        n,
        || (prop::sample::select(ALL.to_vec()), text(), prop::collection::vec(any::<u16>(), 0..5)),
        |c| !c.2.is_empty() && c.1.len() > 1 && c.1.chars().any(special),
        split_check,
    );
    // Every two-piece split over the special alphabet.
    let alpha: Vec<char> = "\0\u{7}\u{b}\"$'01aAbfnux`{}\\ \u{7f}\u{85}é😊".chars().collect();
    let mut pairs = Vec::new();
    for lang in ALL {
        for a in &alpha {
            for b in &alpha {
                pairs.push((lang, [*a, *b].iter().collect::<String>(), vec![1u16]));
            }
        }
    }
    cx.list(
        "piece-pairs",
        "every pair of special one-character pieces, all languages; non-trivial: the first is special",
        pairs,
        |c| c.1.chars().next().is_some_and(special),
        split_check,
    );
    cx.part(
        "nested",
        "strings containing quoted strings to depth 4, all languages; non-trivial: at least one nested string",
        n,
        || (prop::sample::select(ALL.to_vec()), pieces(false, true), any::<u8>()).prop_map(|(lang, pieces, how)| Case { lang, pieces, how }),
        |c| nested_depth(&c.pieces) > 0,
        check_case,
    );
    cx.part(
        "interpolated",
        "JavaScript and Dart strings mixing text, identifiers, expressions and calls whose arguments are interpolated strings; non-trivial: an interpolation next to text",
        n,
        || (prop::sample::select(vec![LangId::JavaScript, LangId::Dart]), pieces(true, true), any::<u8>()).prop_map(|(lang, pieces, how)| Case { lang, pieces, how }),
        |c| has_eval(&c.pieces) && c.pieces.len() > 1,
        |c| if legal(&c.pieces, false) { check_case(c) } else { Ok(()) },
    );
    // Deep nesting.
    let mut deep = Vec::new();
    for lang in ALL {
        for d in 0..9usize {
            for texts in [["", ""], ["a", ""], ["", "\""], ["\\", "é"], ["$", "{x}"]] {
                let t = |i: usize| P::Text(texts[i].into(), 0);
                let nested = (0..d).fold(vec![t(0)], |p, _| vec![t(0), P::Nested(p), t(1)]);
                deep.push(Case { lang, pieces: nested, how: d as u8 });
            }
        }
        if matches!(lang, LangId::JavaScript | LangId::Dart) {
            for d in 1..24usize {
                for texts in [["", ""], ["a", ""], ["`", "\""], ["$", "{x}"]] {
                    let t = |i: usize| P::Text(texts[i].into(), 0);
                    let calls = (0..d).fold(vec![t(0), P::Eval(E::Ident("x".into()))], |p, i| vec![t(0), P::Eval(E::Call("f".into(), p, i % 2 == 0)), t(1)]);
                    deep.push(Case { lang, pieces: calls, how: d as u8 });
                }
            }
        }
    }
    cx.list(
        "deep",
        "strings in strings to depth 8, all languages, and interpolations in interpolations to depth 23; non-trivial: at least five deep",
        deep,
        |c| nested_depth(&c.pieces) > 4,
        check_case,
    );
    // Evaluate interpolated JavaScript with node.
    let name = "node";
    let value = |c: &Case| js_value(&c.pieces).ok_or_else(|| "no value".to_string());
    let pre = {
        let mut s = String::new();
        for i in ["a", "b", "c", "x", "foo", "_y", "b1"] {
            s.push_str(&format!("const {i}='<{i}>'; function F{i}(x){{return '<F{i}>('+x+')';}}\n"));
        }
        s
    };
    let one = |c: &Case| tools::check_all(LangId::JavaScript, &pre, &[(emit(c)?, value(c)?)]).map_err(|e| e.1);
    if cx.replay.is_none() && !tools::available("node") {
        cx.assumptions.push("node not available: part skipped".into());
    } else if !cx.replay_part(name, one) {
        let mut runner = crate::run::runner_for(cx.part_seed(name));
        let strat = pieces(true, false);
        let mut kept = Vec::new();
        let mut exprs = Vec::new();
        for _ in 0..cx.n(300, 20_000) {
            let ps = js_ready(strat.new_tree(&mut runner).unwrap().current());
            let c = Case { lang: LangId::JavaScript, pieces: ps, how: 0 };
            match (emit(&c), value(&c)) {
                (Ok(s), Ok(v)) => {
                    exprs.push((s, v));
                    kept.push(c);
                }
                (Err(e), _) | (_, Err(e)) => {
                    cx.report(name, &c, &e);
                    break;
                }
            }
        }
        let r = tools::check_all(LangId::JavaScript, &pre, &exprs);
        let nt: Vec<u64> = kept.iter().filter(|c| has_eval(&c.pieces)).map(|c| crate::run::hash_of(&format!("{c:?}"))).collect();
        cx.note(name, "interpolated strings evaluated by node with bound variables and functions; non-trivial: at least one interpolation", kept.len() as u64, nt.len() as u64, serde_json::json!({}));
        cx.add_distinct(name, nt);
        if let Some(c) = kept.iter().find(|c| has_eval(&c.pieces)) {
            cx.add_sample(name, serde_json::to_value(c).unwrap());
        }
        if let Err((i, m)) = r {
            cx.report(name, &kept[i], &m);
        }
    }
    cx.assumptions.push("an interpolation inside a nested string is documented as unsupported and not generated".into());
}
