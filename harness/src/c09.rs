//! C09: headers list exactly what is used, once, and depend on nothing else.

use crate::langs::{self, *};
use crate::lits::LangId;
use crate::run::Ctx;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Twin {
    a: Doc,
    /// Order, storage and form of the uses in the second body.
    uses: Vec<(u16, u8, u8)>,
}

fn parsed(d: &Doc) -> Result<(String, Parsed), String> {
    let f = langs::file(d)?;
    let p = parse(d, &f).map_err(|e| format!("{e}\n--- file\n{f}"))?;
    Ok((f, p))
}

pub fn header(d: &Doc) -> Result<(), String> {
    let (f, p) = parsed(d)?;
    check_header(d, &p).map_err(|e| format!("{e}\n--- file\n{f}"))
}

fn restore(ns: &mut [Node], x: u8) {
    for n in ns {
        match n {
            Node::Use(_, h) | Node::Reg(_, h) => *h = h.wrapping_add(x),
            Node::Block(ns) | Node::Nest(_, ns) => restore(ns, x),
            _ => {}
        }
    }
}

/// A document with the same set of imports used in an entirely different way.
fn other(t: &Twin) -> Doc {
    let mut d = t.a.clone();
    let mut direct = Vec::new();
    visit(&d.pool, &d.body, &mut |i, _| direct.push(i));
    direct.sort();
    direct.dedup();
    let mut keyed: Vec<(u16, u8, u8, usize)> = Vec::new();
    let mut uses = t.uses.iter().cycle();
    for i in direct {
        // Each one at least once.
        let n = 1 + t.uses.get(i).map(|u| u.2 as usize % 3).unwrap_or(0);
        for _ in 0..n {
            let (k, how, form) = uses.next().copied().unwrap_or((0, 0, 0));
            keyed.push((k, how, form, i));
        }
    }
    keyed.sort();
    let mut body = vec![Node::Text("w".into())];
    for (k, how, form, i) in keyed {
        let hidden = matches!(&d.pool[i], Spec::Name { ops, .. } if ops.iter().any(|o| matches!(o, IOp::Alias(a) if a == "_")));
        let n = if form % 2 == 0 || hidden { Node::Reg(i as u8, how) } else { Node::Use(i as u8, how) };
        body.push(match k % 5 {
            0 => Node::Nest(how, vec![Node::Block(vec![n, Node::Line])]),
            1 => Node::Block(vec![Node::Nest(form, vec![n])]),
            2 => Node::Nest(form, vec![Node::Nest(how, vec![n, Node::Push])]),
            _ => n,
        });
        body.push(Node::Space);
    }
    d.body = body;
    let x = t.uses.first().map(|u| u.1).unwrap_or(1);
    for s in &mut d.pool {
        if let Spec::NixVar { value, .. } = s {
            restore(value, x);
        }
    }
    d
}

fn invariant(t: &Twin) -> Result<(), String> {
    let o = other(t);
    let (fa, a) = parsed(&t.a)?;
    let (fb, b) = parsed(&o)?;
    check_header(&o, &b).map_err(|e| format!("{e}\n--- file\n{fb}"))?;
    if a.header != b.header {
        return Err(format!("headers of the same imports differ\n--- first\n{fa}--- second\n{fb}"));
    }
    Ok(())
}

pub fn nontrivial(d: &Doc) -> bool {
    used(&d.pool, &d.body).len() >= 2
}

fn storage(d: &Doc) -> Result<(), String> {
    // Everything static against everything owned against the generated mix.
    let set = |d: &Doc, st: u8| {
        let mut d = d.clone();
        fn go(ns: &mut [Node], st: u8) {
            for n in ns {
                match n {
                    Node::Use(_, h) | Node::Reg(_, h) => *h = *h / 4 * 4 + st,
                    Node::Block(ns) | Node::Nest(_, ns) => go(ns, st),
                    _ => {}
                }
            }
        }
        go(&mut d.body, st);
        for s in &mut d.pool {
            if let Spec::NixVar { value, .. } = s {
                go(value, st);
            }
        }
        d
    };
    let f = langs::file(d)?;
    for st in 0..4 {
        let g = langs::file(&set(d, st))?;
        if f != g {
            return Err(format!("file depends on how names are stored\n--- mixed\n{f}--- all {:?}\n{g}", store(st)));
        }
    }
    Ok(())
}

pub fn check(cx: &mut Ctx) {
    for l in crate::lits::ALL {
        let n = cx.n(500, 20_000);
        cx.part(&format!("crowd-{l:?}"), "at least two different imports are used (typically dozens, many from one module); oracle: as for header", n, || crowd(l), nontrivial, header);
    }
    for l in crate::lits::ALL {
        let weight = if l == LangId::Swift || l == LangId::Go { 1 } else { 2 };
        let n = cx.n(3000 * weight, 120_000 * weight);
        cx.part(
            &format!("header-{l:?}"),
            "at least two different imports are used; oracle: expected set of import elements computed from the documentation, header parsed independently",
            n,
            || doc_for(l),
            nontrivial,
            header,
        );
    }
    let n = cx.n(20_000, 600_000);
    cx.part(
        "same-set",
        "at least two imports; oracle: two bodies using the same imports in different order, number, nesting, storage and form have the same header",
        n,
        || (doc(), proptest::collection::vec(any::<(u16, u8, u8)>(), 1..12)).prop_map(|(a, uses)| Twin { a, uses }),
        |t| nontrivial(&t.a),
        invariant,
    );
    let n = cx.n(10_000, 300_000);
    cx.part(
        "storage",
        "at least two imports; oracle: the file is the same with all names static, owned or borrowed",
        n,
        doc,
        nontrivial,
        storage,
    );
}
