//! C01: operation histories on a stream against the reference stream model.

use crate::model::*;
use crate::run::Ctx;
use genco::tokens::Item;

fn case(ops: &Vec<Op>) -> Result<(), String> {
    let t = build(ops);
    let m = Model::of(ops);
    let got = items_of(&t);
    if got != m.items {
        return Err(format!("stream differs from model\nexpected {:?}\n     got {:?}", m.items, got));
    }
    if t.is_empty() != got.is_empty() {
        return Err(format!("is_empty() = {} but {} items", t.is_empty(), got.len()));
    }
    if t.iter().count() != got.len() || t.iter().size_hint() != (got.len(), Some(got.len())) {
        return Err("iter() size".into());
    }
    // By steps, in all ways of iterating.
    let (mut a, mut b, mut c) = (t.iter(), (&t).into_iter(), t.clone().into_iter());
    for left in (0..got.len()).rev() {
        let (x, y, z) = (a.next(), b.next(), c.next());
        if x.is_none() || x != y || x != z.as_ref() {
            return Err(format!("iterators differ with {left} items left: {x:?} {y:?} {z:?}"));
        }
        for h in [a.size_hint(), b.size_hint(), c.size_hint()] {
            if h.0 > left || h.1.is_some_and(|n| n < left) {
                return Err(format!("size hint {h:?} with {left} items left"));
            }
        }
    }
    if a.next().is_some() || b.next().is_some() || c.next().is_some() {
        return Err("iterators do not end".into());
    }
    let owned: Vec<Item<TLang>> = t.clone().into_iter().collect();
    if t != owned || owned != t || t != owned[..] || owned[..] != t {
        return Err("stream does not equal the vector of its own items".into());
    }
    // Rebuilding.
    let mut one = T::new();
    for i in t.iter() {
        one.append(i.clone());
    }
    let mut ext = T::with_capacity(3);
    ext.extend(t.iter().cloned());
    let col_ref: T = t.iter().collect();
    let col: T = t.clone().into_iter().collect();
    let mut app = T::new();
    app.append(&t);
    for (name, r) in [("append each", &one), ("extend", &ext), ("collect refs", &col_ref), ("collect", &col), ("nest", &app)] {
        if items_of(r) != got {
            return Err(format!("{name} does not reproduce the stream\nexpected {:?}\n     got {:?}", got, items_of(r)));
        }
        if *r != t {
            return Err(format!("{name}: rebuilt stream is not equal to the original"));
        }
    }
    let c = t.clone();
    if c != t || items_of(&c) != got {
        return Err("clone differs".into());
    }
    Ok(())
}

fn nontrivial(ops: &Vec<Op>) -> bool {
    // At least one adjacent pair of whitespace operations, i.e. merging is exercised.
    fn ws(o: &Op) -> bool {
        matches!(o, Op::Space(_) | Op::Push(_) | Op::Line(_) | Op::Indent(_) | Op::Unindent(_) | Op::Indentation(_) | Op::Nest(..) | Op::Block(_))
    }
    ops.windows(2).any(|w| ws(&w[0]) && ws(&w[1]))
}

pub fn alphabet() -> Vec<Op> {
    vec![
        Op::Lit("a".into(), 0),
        Op::Lit("".into(), 0),
        Op::Space(0),
        Op::Push(0),
        Op::Line(0),
        Op::Indent(0),
        Op::Unindent(0),
        Op::Indentation(0),
        Op::Reg(0, 0),
        Op::Use(1, 0),
    ]
}

pub fn words(alpha: &[Op], max: usize) -> Vec<Vec<Op>> {
    let mut all: Vec<Vec<Op>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..max {
        let mut next = Vec::new();
        for w in &last {
            for a in alpha {
                let mut w = w.clone();
                w.push(a.clone());
                next.push(w);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}

pub fn check(cx: &mut Ctx) {
    let depth = if cx.thorough { 6 } else { 5 };
    let alpha = alphabet();
    cx.list(
        "short-histories",
        "every operation sequence up to the length bound over a 10-letter alphabet; non-trivial: two neighbouring whitespace/indentation operations",
        words(&alpha, depth),
        nontrivial,
        case,
    );
    // Two finished halves nested: every pair of short words.
    let ws = words(&alpha[2..8], 3);
    let mut pairs = Vec::new();
    for a in &ws {
        for b in &ws {
            let mut v = a.clone();
            v.push(Op::Nest(0, b.clone()));
            pairs.push(v);
        }
    }
    cx.list(
        "nested-pairs",
        "every pair of whitespace/indentation words up to length 3, the second nested as a finished stream; non-trivial as above",
        pairs,
        nontrivial,
        case,
    );
    let n = cx.n(40_000, 600_000);
    cx.part(
        "histories",
        "random histories of up to 40 operations incl. strings, imports and 14 nesting forms, recursive; non-trivial: two neighbouring whitespace/indentation/nesting operations",
        n,
        || history(true, 40),
        nontrivial,
        case,
    );
}
