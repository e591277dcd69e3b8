//! C05: walking the imports of a stream.

use crate::langs::{self, nodes, Doc, Node, LS};
use crate::model::*;
use crate::run::Ctx;
use genco::tokens::{Item, Tokens};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    parts: Vec<Vec<Op>>,
    /// What is done after building each part.
    steps: Vec<(u8, u8)>,
}

fn walked(t: &T) -> Vec<Any> {
    let mut v: Vec<Any> = t.walk_imports().cloned().collect();
    v.sort();
    v
}

fn of_items<'a>(items: impl IntoIterator<Item = &'a MI>) -> Vec<Any> {
    let mut v: Vec<Any> = items
        .into_iter()
        .filter_map(|i| match i {
            MI::Use(n, _) | MI::Reg(n, _) => Some(any_of(*n as u8)),
            _ => None,
        })
        .collect();
    v.sort();
    v
}

fn same(what: &str, want: &[Any], t: &T) -> Result<(), String> {
    let got = walked(t);
    if got != want {
        return Err(format!("{what}\nadded  {want:?}\nwalked {got:?}"));
    }
    Ok(())
}

fn case(c: &Case) -> Result<(), String> {
    let mut t = T::new();
    let mut want: Vec<Any> = Vec::new();
    let mut steps = c.steps.iter().cycle();
    for p in &c.parts {
        let m = of_items(&Model::of(p).items);
        let (how, x) = *steps.next().unwrap_or(&(0, 0));
        let sub = build(p);
        same("imports of a part", &m, &sub)?;
        let n = sub.iter().count();
        match how % 10 {
            0 => {
                apply(&mut t, p);
                want.extend(m);
            }
            1 => {
                t.append(sub);
                want.extend(m);
            }
            2 => {
                t.append(&sub);
                want.extend(m);
            }
            3 => {
                t.extend(sub);
                want.extend(m);
            }
            4 => {
                // Only a slice of the items.
                let (a, b) = (x as usize % (n + 1), n);
                let items: Vec<Item<TLang>> = sub.into_iter().take(b).skip(a).collect();
                want.extend(of_items(&items_of(&build(p))[a..]));
                t.extend(items);
            }
            5 => {
                // Every other item, backwards.
                let items: Vec<Item<TLang>> = sub.iter().cloned().collect();
                let picked: Vec<Item<TLang>> = items.into_iter().rev().step_by(1 + x as usize % 2).collect();
                let mi = items_of(&sub);
                want.extend(of_items(mi.iter().rev().step_by(1 + x as usize % 2)));
                t.extend(picked);
            }
            6 => {
                // Rebuild the stream from its own items, twice.
                t.append(&sub);
                t.append(sub);
                want.extend(m.clone());
                want.extend(m);
                t = t.iter().collect();
            }
            7 => {
                t = t.into_iter().collect();
                t.append(Some(sub));
                want.extend(m);
            }
            8 => {
                // A stream appended to a clone of itself.
                let me = t.clone();
                t.append(me);
                let w = want.clone();
                want.extend(w);
                t.append(vec![sub.clone(), sub]);
                want.extend(m.clone());
                want.extend(m);
            }
            _ => {
                // As part of another one, which is then swapped in.
                let mut o = T::with_capacity(x as usize % 5);
                o.append(&sub);
                o.append(std::mem::take(&mut t));
                o.extend(sub.iter().cloned());
                t = o;
                want.extend(m.clone());
                want.extend(m);
            }
        }
        want.sort();
        same("imports after a step", &want, &t)?;
        same("imports of a clone", &want, &t.clone())?;
        if want.len() > 4000 {
            break;
        }
    }
    // What is registered leaves no text, what is appended does.
    // (Slices may cut strings in half, which do not render.)
    if c.steps.iter().any(|s| matches!(s.0 % 10, 4 | 5)) {
        return Ok(());
    }
    let s = t.to_string().map_err(|e| format!("{e:?}"))?;
    let text = render(&items_of(&t), "    ", "\n");
    if s != text {
        return Err(format!("text: {}", diff(&text, &s)));
    }
    Ok(())
}

fn nontrivial(c: &Case) -> bool {
    c.parts.iter().map(|p| of_items(&Model::of(p).items).len()).sum::<usize>() >= 2 && c.parts.len() >= 2
}

/// Per language: the walked items are the ones added, compared as items.
fn lang(d: &Doc) -> Result<(), String> {
    fn go<L: LS>(d: &Doc) -> Result<(), String>
    where
        L::Config: Default,
        L::Format: Default,
    {
        let one = |i: u8, how: u8, reg: bool| -> Result<Tokens<L>, String> {
            let mut t: Tokens<L> = Tokens::new();
            L::add(&mut t, &d.pool, i as usize, how, reg);
            if t.walk_imports().count() != 1 {
                return Err(format!("{:?} walks as {} imports", d.pool[i as usize], t.walk_imports().count()));
            }
            let text = t.to_string().map_err(|e| format!("{e:?}"))?;
            if reg != text.is_empty() {
                return Err(format!("registered {reg}: renders {text:?}"));
            }
            Ok(t)
        };
        let mut t: Tokens<L> = Tokens::new();
        nodes(&mut t, &d.pool, &d.body);
        let mut alone: Vec<Tokens<L>> = Vec::new();
        fn collect(ns: &[Node], f: &mut impl FnMut(u8, u8, bool) -> Result<(), String>) -> Result<(), String> {
            for n in ns {
                match n {
                    Node::Use(i, h) => f(*i, *h, false)?,
                    Node::Reg(i, h) => f(*i, *h, true)?,
                    Node::Quoted(_, i) => f(*i, 0, true)?,
                    Node::Eval(_, i) => f(*i, 0, false)?,
                    Node::Block(ns) | Node::Nest(_, ns) => collect(ns, f)?,
                    _ => {}
                }
            }
            Ok(())
        }
        collect(&d.body, &mut |i, h, r| {
            alone.push(one(i, h, r)?);
            Ok(())
        })?;
        let mut want: Vec<&L::Item> = alone.iter().flat_map(|t| t.walk_imports()).collect();
        for g in t.walk_imports() {
            match want.iter().position(|w| *w == g) {
                Some(p) => {
                    want.swap_remove(p);
                }
                None => return Err(format!("walked an import which was not added: {g:?}")),
            }
        }
        if !want.is_empty() {
            return Err(format!("not walked: {want:?}"));
        }
        Ok(())
    }
    crate::with_lang!(d.lang, L => go::<L>(d))
}

/// Imports far apart: number of items between them, how many, and how often the
/// stream is put into another one.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Huge {
    gap: u32,
    uses: u8,
    nest: u8,
}

fn huge(c: &Huge) -> Result<(), String> {
    let mut t = T::new();
    let mut want = Vec::new();
    for i in 0..c.uses {
        for _ in 0..c.gap / 2 {
            t.append("x");
            t.space();
        }
        apply(&mut t, &[if i % 2 == 0 { Op::Use(i % 8, 0) } else { Op::Reg(i % 8, 0) }]);
        want.push(any_of(i % 8));
    }
    for _ in 0..c.nest {
        let mut u = T::new();
        u.append("before");
        u.append(t);
        u.append("after");
        t = u;
    }
    want.sort();
    same("imports far apart", &want, &t)?;
    same("imports of a clone", &want, &t.clone())?;
    same("imports of the same items collected", &want, &t.iter().cloned().collect::<T>())
}

pub fn check(cx: &mut Ctx) {
    let mut far = Vec::new();
    for gap in [100, 126, 128, 130, 252, 256, 258, 1000, 32_766, 32_768, 65_534, 65_536, 65_538, 140_000] {
        for nest in [0, 1, 3] {
            far.push(Huge { gap, uses: 4, nest });
        }
    }
    cx.list("far-apart", "imports with up to 140000 items in between; oracle: multiset of the imports added", far, |c| c.gap > 200, huge);
    let n = cx.n(30_000, 600_000);
    cx.part(
        "histories",
        "at least two parts and two imports; parts are built by random histories (14 nesting forms, strings) and combined by appending, extending, slicing, reversing, collecting, cloning and swapping; oracle: multiset of added imports after every step",
        n,
        || {
            (
                proptest::collection::vec(history(true, 14), 1..7),
                proptest::collection::vec(any::<(u8, u8)>(), 1..7),
            )
                .prop_map(|(parts, steps)| Case { parts, steps })
        },
        nontrivial,
        case,
    );
    let n = cx.n(20_000, 400_000);
    cx.part(
        "languages",
        "at least two uses; items of all ten languages; oracle: multiset of the items each added alone",
        n,
        langs::doc,
        |d| {
            let mut k = 0;
            langs::visit(&d.pool, &d.body, &mut |_, _| k += 1);
            k >= 2
        },
        lang,
    );
    // Long streams.
    let n = cx.n(20, 1500);
    cx.part(
        "long",
        "streams of several hundred imports",
        n,
        || proptest::collection::vec(prop_oneof![
            (0u8..8, any::<u8>()).prop_map(|(n, h)| Op::Reg(n, h)),
            (0u8..8, any::<u8>()).prop_map(|(n, h)| Op::Use(n, h)),
            Just(Op::Line(0)),
        ], 200..900).prop_map(|p| Case { parts: vec![p.clone(), p], steps: vec![(0, 0), (1, 1)] }),
        nontrivial,
        case,
    );
}
