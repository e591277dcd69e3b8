//! C22: blocks keep their shape.

use crate::model::*;
use crate::run::Ctx;
use genco::fmt;
use genco::tokens::{from_fn, Item};
use genco::{quote, quote_fn, quote_in};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    block: Vec<Op>,
    /// Level of the place, and more there.
    level: u8,
    how: u8,
    unit: u8,
    cuts: Vec<u8>,
}

fn conf(unit: u8) -> (fmt::Config, String) {
    let c = fmt::Config::from_lang::<TLang>();
    match unit % 5 {
        0 => (c.with_indentation(fmt::Indentation::Tab), "\t".into()),
        1 => (c.clone(), "    ".into()),
        n => (
            c.with_indentation(fmt::Indentation::Space(n as usize - 1)),
            " ".repeat(n as usize - 1),
        ),
    }
}

fn lines(t: &T, unit: u8) -> Result<Vec<String>, String> {
    let mut w = fmt::VecWriter::new();
    t.format(&mut w.as_formatter(&conf(unit).0), &(), &())
        .map_err(|e| format!("{e:?}"))?;
    Ok(w.into_vec())
}

/// A block which is balanced, never leaves its level, and starts and ends with text.
fn block(ops: Vec<Op>) -> Vec<Op> {
    fn keep(ops: Vec<Op>) -> Vec<Op> {
        ops.into_iter()
            .filter_map(|o| match o {
                Op::Unindent(_) | Op::Indentation(_) => None,
                // Many levels at once.
                Op::Indent(n) => {
                    let mut o = vec![Op::Lit("deep".into(), n)];
                    for _ in 0..=n % 24 {
                        o = vec![Op::Block(o)];
                    }
                    o.pop()
                }
                Op::Lit(s, h) => Some(Op::Lit(s.replace('\n', ""), h)),
                Op::Nest(h, o) => Some(Op::Nest(h, keep(o))),
                Op::Block(o) => Some(Op::Block(keep(o))),
                o => Some(o),
            })
            .collect()
    }
    let mut out = vec![Op::Lit("first".into(), 0)];
    out.extend(keep(ops));
    out.push(Op::Lit("last".into(), 0));
    out
}

/// The level of the place: few levels mostly.
fn depth(c: &Case) -> usize {
    if c.level < 220 {
        (c.level % 5) as usize
    } else {
        (c.level - 200) as usize
    }
}

/// Whether there is text on level `i`.
fn opens(c: &Case, i: usize) -> bool {
    c.how < 128 || i % 12 == (c.how % 12) as usize
}

/// The place a block is inserted at, in different ways. The host is text on
/// the lines around the block.
fn insert(c: &Case, b: T) -> T {
    let n = depth(c);
    let mut t = T::new();
    t.append("host");
    for i in 0..n {
        t.indent();
        if opens(c, i) {
            t.append("{");
        }
    }
    match c.how % 10 {
        0 => {
            t.push();
            t.append(b);
            t.push();
        }
        1 => {
            t.push();
            t.append(&b);
            t.push();
        }
        2 => {
            t.push();
            t.extend(b);
            t.push();
        }
        3 => {
            t.push();
            t.append(from_fn(|t| apply(t, &c.block)));
            t.push();
        }
        4 => {
            t.push();
            apply(&mut t, &c.block);
            t.push();
        }
        5 => {
            quote_in! { t =>
                $['\r']
                $b
                $['\r']
            }
        }
        6 => {
            let q: T = quote! {
                $(quote_fn!($b))
            };
            t.push();
            t.append(q);
            t.push();
        }
        7 => {
            t.push();
            for i in b {
                t.append(i);
            }
            t.push();
        }
        8 => {
            t.push();
            quote_in!(t => $(for x in [&b] => $x));
            t.push();
        }
        _ => {
            t.push();
            t.append(vec![Some(b)]);
            t.push();
        }
    }
    for i in (0..n).rev() {
        if opens(c, i) {
            t.append("}");
        }
        t.unindent();
    }
    t.append("end");
    t
}

fn shift(c: &Case) -> Result<(), String> {
    let b = build(&c.block);
    let unit = conf(c.unit).1;
    let alone = lines(&b, c.unit)?;
    let n = depth(c);
    let mut want = vec!["host".to_string()];
    for i in (0..n).filter(|i| opens(c, *i)) {
        want.push(format!("{}{{", unit.repeat(i + 1)));
    }
    for l in &alone {
        want.push(if l.is_empty() { String::new() } else { format!("{}{l}", unit.repeat(n)) });
    }
    for i in (0..n).rev().filter(|i| opens(c, *i)) {
        want.push(format!("{}}}", unit.repeat(i + 1)));
    }
    want.push("end".into());
    let got = lines(&insert(c, b.clone()), c.unit)?;
    if got != want {
        return Err(format!("inserted at level {n}\nexpected {want:#?}\n     got {got:#?}"));
    }
    // In the middle of a line.
    let mut t = T::new();
    for _ in 0..n {
        t.indent();
    }
    quote_in!(t => pre $(&b) post);
    t.push();
    t.append("next");
    let got = lines(&t, c.unit)?;
    let mut want: Vec<String> = alone.clone();
    want[0].insert_str(0, "pre ");
    want.last_mut().unwrap().push_str(" post");
    want.push("next".into());
    for l in &mut want {
        if !l.is_empty() {
            l.insert_str(0, &unit.repeat(n));
        }
    }
    if got != want {
        return Err(format!("inserted within a line at level {n}\nexpected {want:#?}\n     got {got:#?}"));
    }
    Ok(())
}

fn wrap(c: &Case) -> Result<(), String> {
    let mut t = build(&c.block);
    let unit = conf(c.unit).1;
    let n = depth(c);
    let mut want: Vec<String> = lines(&t, c.unit)?;
    let plain = want.clone();
    for i in 0..n {
        let mut o = T::new();
        match (c.how as usize + i) % 4 {
            0 => {
                o.indent();
                o.append(t);
                o.unindent();
            }
            1 => {
                o.append(Item::Indentation(1));
                o.extend(t);
                o.append(Item::Indentation(-1));
            }
            2 => {
                o.indent();
                o.append(&t);
                o.push();
                o.unindent();
            }
            _ => {
                o.line();
                o.indent();
                quote_in!(o => $t);
                o.line();
                o.unindent();
            }
        }
        t = o;
    }
    for l in &mut want {
        if !l.is_empty() {
            l.insert_str(0, &unit.repeat(n));
        }
    }
    let got = lines(&t, c.unit)?;
    if got != want {
        return Err(format!("wrapped {n} times\nexpected {want:#?}\n     got {got:#?}"));
    }
    // And unwrapped again.
    let mut o = T::new();
    o.append(Item::Indentation(-(n as i16)));
    o.append(t);
    o.append(Item::Indentation(n as i16));
    o.push();
    o.append("x");
    let got = lines(&o, c.unit)?;
    let mut want = plain;
    want.push("x".into());
    if got != want {
        return Err(format!("unwrapped {n} times\nexpected {want:#?}\n     got {got:#?}"));
    }
    Ok(())
}

/// A level change in place of a line break changes nothing but the level of
/// the block; empty lines on the inside and behind it stay.
fn around(c: &Case) -> Result<(), String> {
    let b = build(&c.block);
    let unit = conf(c.unit).1;
    let gap = |t: &mut T, k: u8| match k % 4 {
        0 => {}
        1 => t.push(),
        2 => t.line(),
        _ => {
            t.push();
            t.line();
        }
    };
    let cut = |i: usize| c.cuts.get(i).copied().unwrap_or(0);
    let n = depth(c).max(1);
    let go = |level: usize| -> Result<Vec<String>, String> {
        let mut t = T::new();
        let step = |t: &mut T, up: bool| {
            if level == 0 {
                return t.push();
            }
            match (cut(4) / 4 % 2, up) {
                (0, true) => (0..level).for_each(|_| t.indent()),
                (0, false) => (0..level).for_each(|_| t.unindent()),
                (_, true) => t.append(Item::Indentation(level as i16)),
                (_, false) => t.append(Item::Indentation(-(level as i16))),
            }
        };
        t.append("before");
        if level > 0 {
            // These are part of the level change.
            gap(&mut t, cut(0));
        }
        step(&mut t, true);
        gap(&mut t, cut(1));
        match c.how % 3 {
            0 => t.append(&b),
            1 => apply(&mut t, &c.block),
            _ => quote_in!(t => $(&b)),
        }
        if level > 0 {
            gap(&mut t, cut(2));
        }
        step(&mut t, false);
        gap(&mut t, cut(3));
        t.append("after");
        lines(&t, c.unit)
    };
    let mut want = go(0)?;
    // (There is text at both ends of the block, and it is on lines of its own.)
    let last = want.len() - 1;
    for l in &mut want[1..last] {
        if !l.is_empty() {
            l.insert_str(0, &unit.repeat(n));
        }
    }
    let got = go(n)?;
    if got != want {
        return Err(format!("around a block, {n} levels\nexpected {want:#?}\n     got {got:#?}"));
    }
    Ok(())
}

/// The same stream, out of pieces.
fn split(c: &Case) -> Result<(), String> {
    let whole = build(&c.block);
    let items: Vec<Item<TLang>> = whole.iter().cloned().collect();
    let mut t = T::new();
    let mut rest = &items[..];
    let mut cuts = c.cuts.iter().cycle();
    let mut guard = 0;
    while !rest.is_empty() {
        let k = *cuts.next().unwrap_or(&255);
        guard += 1;
        let n = if guard > 300 { rest.len() } else { (k as usize % 6).min(rest.len()) };
        let (head, tail) = rest.split_at(n);
        rest = tail;
        let sub: T = match k / 6 % 3 {
            0 => head.iter().collect(),
            1 => head.iter().cloned().collect(),
            _ => {
                let mut s = T::new();
                s.extend(head.to_vec());
                s
            }
        };
        match k / 18 % 4 {
            0 => t.append(sub),
            1 => t.append(&sub),
            2 => quote_in!(t => $sub),
            _ => t.extend(sub),
        }
    }
    if items_of(&t) != items_of(&whole) {
        return Err(format!("items of pieces\nexpected {:?}\n     got {:?}", items_of(&whole), items_of(&t)));
    }
    let (want, got) = (whole.to_string(), t.to_string());
    match (want, got) {
        (Ok(a), Ok(b)) if a == b => {}
        (a, b) => return Err(format!("out of pieces\nexpected {a:?}\n     got {b:?}")),
    }
    if lines(&t, c.unit)? != lines(&whole, c.unit)? {
        return Err("lines differ out of pieces".into());
    }
    if t != whole {
        return Err("not equal to the whole".into());
    }
    Ok(())
}

/// A block which is balanced as a whole but leaves its level in between.
fn dip(ops: Vec<Op>) -> Vec<Op> {
    fn keep(ops: Vec<Op>) -> Vec<Op> {
        ops.into_iter()
            .map(|o| match o {
                Op::Lit(s, h) => Op::Lit(s.replace(['\n', '\t'], ""), h),
                Op::Nest(h, o) => Op::Nest(h, keep(o)),
                Op::Block(o) => Op::Block(keep(o)),
                o => o,
            })
            .collect()
    }
    let mut out = vec![Op::Lit("first".into(), 0)];
    out.extend(keep(ops));
    out.push(Op::Lit("mid".into(), 0));
    let net: i32 = Model::of(&out)
        .items
        .iter()
        .map(|i| if let MI::Ind(n) = i { *n } else { 0 })
        .sum();
    out.push(Op::Indentation(-net as i8));
    out.push(Op::Push(0));
    out.push(Op::Lit("last".into(), 0));
    out
}

/// Levels are relative to the place, even below it.
fn dips(c: &Case) -> Result<(), String> {
    const BASE: usize = 400;
    let b = build(&c.block);
    let mut t = T::new();
    t.append(Item::Indentation(BASE as i16));
    t.append(&b);
    let rows: Vec<(isize, String)> = lines(&t, 0)?
        .into_iter()
        .map(|l| {
            let tabs = l.len() - l.trim_start_matches('\t').len();
            (tabs as isize - BASE as isize, l[tabs..].to_string())
        })
        .collect();
    for (level, text) in [&rows[0], &rows[rows.len() - 1]] {
        if *level != 0 {
            return Err(format!("{text:?} is {level} levels off"));
        }
    }
    let n = depth(c);
    let unit = conf(c.unit).1;
    let mut t = T::new();
    t.append(Item::Indentation(n as i16));
    t.append(&b);
    t.push();
    t.append("after");
    t.append(Item::Indentation(-(n as i16)));
    t.push();
    t.append("end");
    let got = lines(&t, c.unit)?;
    let mut want: Vec<String> = rows
        .iter()
        .map(|(level, text)| {
            if text.is_empty() {
                return String::new();
            }
            format!("{}{text}", unit.repeat((n as isize + level).max(0) as usize))
        })
        .collect();
    want.push(format!("{}after", unit.repeat(n)));
    want.push("end".into());
    if got != want {
        return Err(format!("inserted at level {n}\nexpected {want:#?}\n     got {got:#?}"));
    }
    Ok(())
}

fn leaves(c: &Case) -> bool {
    let mut level = 0;
    let mut low = 0;
    for i in Model::of(&c.block).items {
        if let MI::Ind(n) = i {
            level += n;
            low = low.min(level);
        }
    }
    low < 0 && multi(c)
}

fn gen(balanced: u8) -> BoxedStrategy<Case> {
    (
        history(true, 14),
        any::<(u8, u8, u8)>(),
        prop::collection::vec(any::<u8>(), 1..8),
    )
        .prop_map(move |(b, (level, how, unit), cuts)| Case {
            block: match balanced {
                0 => b,
                1 => block(b),
                _ => dip(b),
            },
            level,
            how,
            unit,
            cuts,
        })
        .boxed()
}

fn multi(c: &Case) -> bool {
    Model::of(&c.block).items.iter().filter(|i| matches!(i, MI::Push | MI::Line | MI::Ind(_))).count() >= 2
}

pub fn check(cx: &mut Ctx) {
    let n = cx.n(30_000, 1_200_000);
    cx.part(
        "shift",
        "the block has at least three lines or level changes; balanced blocks inserted at levels 0 to 4 (or up to 55) in ten ways and within a line; oracle: lines of the block alone, shifted",
        n,
        || gen(1),
        multi,
        shift,
    );
    cx.part(
        "wrap",
        "as above; wrapped in indent and unindent up to four (or 55) times, and unwrapped; oracle: lines of the block alone, shifted",
        n,
        || gen(1),
        multi,
        wrap,
    );
    cx.part(
        "around",
        "as above; a block between two words on levels of its own, with and without line breaks and empty lines on both sides of the level changes; oracle: line breaks in place of the level changes, shifted",
        n,
        || gen(1),
        multi,
        around,
    );
    cx.part(
        "dips",
        "the block has at least three lines or level changes and goes below the level it starts at; inserted at any level; oracle: the levels of its lines far from the first column",
        n,
        || gen(2),
        leaves,
        dips,
    );
    cx.part(
        "split",
        "at least two line or level changes; any stream, cut at arbitrary places (inside strings too) into sub-streams; oracle: the whole stream",
        n,
        || gen(0),
        multi,
        split,
    );
}
