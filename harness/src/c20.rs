//! C20: equality, order and hashes.

use crate::c06::item_str;
use crate::langs::{self, Conf, Spec, LS};
use crate::lits::LangId;
use crate::model::*;
use crate::run::Ctx;
use genco::tokens::{Item, Tokens};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// The laws, over every pair and triple.
fn laws<T: Eq + Ord + Hash + Clone + Debug>(xs: &[T]) -> Result<(), String> {
    for a in xs {
        let c = a.clone();
        if !(a == a && *a == c && hash(a) == hash(&c) && a.cmp(&c) == Ordering::Equal) {
            return Err(format!("not equal to itself or its clone: {a:?}"));
        }
        for b in xs {
            let o = a.cmp(b);
            if (a == b) != (o == Ordering::Equal) {
                return Err(format!("== is {} but cmp is {o:?}: {a:?} {b:?}", a == b));
            }
            if (a != b) == (a == b) {
                return Err(format!("!= and == agree: {a:?} {b:?}"));
            }
            if a.partial_cmp(b) != Some(o) || b.cmp(a) != o.reverse() {
                return Err(format!("order is not antisymmetric: {a:?} {b:?}"));
            }
            if (a < b) != (o == Ordering::Less) || (a >= b) != (o != Ordering::Less) {
                return Err(format!("operators disagree with cmp: {a:?} {b:?}"));
            }
            if a == b && hash(a) != hash(b) {
                return Err(format!("equal but hash differently: {a:?} {b:?}"));
            }
            for c in xs {
                if o != Ordering::Greater && b.cmp(c) != Ordering::Greater && a.cmp(c) == Ordering::Greater {
                    return Err(format!("order is not transitive: {a:?} {b:?} {c:?}"));
                }
                if a == b && b == c && a != c {
                    return Err(format!("equality is not transitive: {a:?} {b:?} {c:?}"));
                }
            }
        }
    }
    let tree: BTreeSet<T> = xs.iter().cloned().collect();
    let table: HashSet<T> = xs.iter().cloned().collect();
    if tree.len() != table.len() {
        return Err(format!("{} distinct in order, {} by hash: {xs:?}", tree.len(), table.len()));
    }
    for x in xs {
        if !tree.contains(x) || !table.contains(x) {
            return Err(format!("not found in a collection of itself: {x:?}"));
        }
    }
    Ok(())
}

/// Equal exactly if their contents are.
fn by<T: Eq + Ord + Hash + Debug, K: Eq + Debug>(xs: &[T], keys: &[K]) -> Result<(), String> {
    for (a, ka) in xs.iter().zip(keys) {
        for (b, kb) in xs.iter().zip(keys) {
            if (a == b) != (ka == kb) {
                return Err(format!("== is {} for {a:?} and {b:?}", a == b));
            }
            if ka == kb && (hash(a) != hash(b) || a.cmp(b) != Ordering::Equal) {
                return Err(format!("same content differs in hash or order: {a:?} {b:?}"));
            }
        }
    }
    Ok(())
}

fn strings(c: &[(String, u8)]) -> Result<(), String> {
    let xs: Vec<_> = c.iter().map(|(s, h)| item_str(s, *h)).collect();
    let keys: Vec<_> = c.iter().map(|(s, _)| s.clone()).collect();
    laws(&xs)?;
    by(&xs, &keys)?;
    let items: Vec<Item<TLang>> = xs.iter().cloned().map(Item::Literal).collect();
    laws(&items)?;
    by(&items, &keys)
}

fn items(c: &[(u8, String, u8, i16)]) -> Result<(), String> {
    let (mut xs, mut keys): (Vec<Item<TLang>>, Vec<MI>) = Default::default();
    for (k, s, h, n) in c {
        let (x, m) = match k % 9 {
            0 | 1 => (Item::Literal(item_str(s, *h)), MI::Lit(s.clone())),
            2 => (Item::Push, MI::Push),
            3 => (Item::Line, MI::Line),
            4 => (Item::Space, MI::Space),
            5 => (Item::Indentation(*n), MI::Ind(*n as i32)),
            6 => (Item::OpenQuote(n % 2 == 0), MI::Open(n % 2 == 0)),
            7 => (Item::CloseQuote, MI::Close),
            _ if n % 2 == 0 => (Item::OpenEval, MI::OEval),
            _ => (Item::CloseEval, MI::CEval),
        };
        xs.push(x);
        keys.push(m);
    }
    laws(&xs)?;
    by(&xs, &keys)
}

/// Streams built by the same additions in different ways.
fn streams(c: &[Vec<Op>]) -> Result<(), String> {
    let xs: Vec<T> = c.iter().map(|o| build(o)).collect();
    let keys: Vec<Model> = c.iter().map(|o| Model::of(o)).collect();
    laws(&xs)?;
    by(&xs, &keys)?;
    for x in &xs {
        let v: Vec<Item<TLang>> = x.iter().cloned().collect();
        if !(*x == v && v == *x && *x == v[..] && v[..] == *x) {
            return Err(format!("a stream does not equal its items: {x:?}"));
        }
        for y in &xs {
            let w: Vec<Item<TLang>> = y.iter().cloned().collect();
            if (x == y) != (*x == w) || (x == y) != (v == *y) || (*x == w[..]) != (v[..] == *y) {
                return Err(format!("stream and items compare differently: {x:?} {y:?}"));
            }
        }
    }
    Ok(())
}

/// The same additions, done in other ways.
fn again(ops: &[Op], by: u8) -> Vec<Op> {
    let m = |h: &u8| h.wrapping_mul(7).wrapping_add(by);
    ops.iter()
        .map(|o| match o {
            Op::Lit(s, h) => Op::Lit(s.clone(), m(h)),
            Op::Space(h) => Op::Space(m(h)),
            Op::Push(h) => Op::Push(m(h)),
            Op::Line(h) => Op::Line(m(h)),
            Op::Indent(h) => Op::Indent(m(h)),
            Op::Unindent(h) => Op::Unindent(m(h)),
            Op::Use(n, h) => Op::Use(*n, m(h)),
            Op::Reg(n, h) => Op::Reg(*n, m(h)),
            Op::Nest(h, o) if nest_is_direct(*h) => Op::Nest(*h, again(o, by)),
            Op::Nest(h, o) => {
                let mut k = m(h);
                while nest_is_direct(k) {
                    k += 1;
                }
                Op::Nest(k, again(o, by))
            }
            Op::Block(o) => Op::Block(again(o, by)),
            o => o.clone(),
        })
        .collect()
}

/// The same additions but for one of them, at any depth.
fn altered(ops: &[Op], at: u8, by: u8) -> Vec<Op> {
    let mut ops = ops.to_vec();
    if ops.is_empty() {
        return ops;
    }
    let i = at as usize % ops.len();
    match &mut ops[i] {
        Op::Nest(_, o) | Op::Block(o) if by % 4 != 0 && !o.is_empty() => *o = altered(o, at / 3, by / 4),
        Op::Lit(s, _) if by % 3 == 0 => s.push('0'),
        Op::Lit(s, _) if by % 3 == 1 => *s = s.to_uppercase(),
        Op::Use(n, _) | Op::Reg(n, _) if by % 4 != 3 => *n = n.wrapping_add(1 + by % 3),
        Op::Use(n, h) => ops[i] = Op::Reg(*n, *h),
        Op::Reg(n, h) => ops[i] = Op::Use(*n, *h),
        Op::Space(h) => ops[i] = Op::Push(*h),
        Op::Push(h) => ops[i] = Op::Line(*h),
        Op::Line(h) => ops[i] = Op::Space(*h),
        Op::Indent(h) => ops[i] = Op::Unindent(*h),
        Op::Unindent(h) => ops[i] = Op::Indent(*h),
        _ => drop(ops.remove(i)),
    }
    ops
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Imports {
    lang: LangId,
    pool: Vec<Spec>,
    hows: Vec<u8>,
    conf: Conf,
}

/// An import which has most of another one's content, in part in other places.
fn near(s: &Spec, b: u8) -> Spec {
    let mut s = s.clone();
    let text = |t: &mut String| {
        match b / 8 % 4 {
            0 => t.push('0'),
            1 => t.insert(0, 'a'),
            2 => *t = t.to_uppercase(),
            _ => *t = t.to_lowercase(),
        }
    };
    let order = |ops: &mut Vec<langs::IOp>| match b / 8 % 4 {
        0 => ops.clear(),
        1 => ops.reverse(),
        2 => drop(ops.pop()),
        _ => ops.extend(ops.first().cloned()),
    };
    match &mut s {
        Spec::Name { module, name, ops } => match b % 4 {
            0 => std::mem::swap(module, name),
            1 => order(ops),
            2 => text(name),
            _ => text(module),
        },
        Spec::Js { module, path, name, ops } => match b % 6 {
            0 | 1 => *path = !*path,
            2 => std::mem::swap(module, name),
            3 => order(ops),
            4 => text(name),
            _ => text(module),
        },
        Spec::Include { path, item, system } => match b % 4 {
            0 | 1 => *system = !*system,
            2 => std::mem::swap(path, item),
            _ => text(item),
        },
        Spec::PyModule { module, alias } => match (b % 3, alias.take()) {
            (0, _) => {}
            (1, Some(mut a)) => {
                std::mem::swap(module, &mut a);
                *alias = Some(a);
            }
            _ => *alias = Some(module.clone()),
        },
        Spec::NixArg(a) => s = Spec::NixInherit { path: a.clone(), name: a.clone() },
        Spec::NixInherit { path, name } => match b % 2 {
            0 => s = Spec::NixWith { arg: path.clone(), name: name.clone() },
            _ => std::mem::swap(path, name),
        },
        Spec::NixWith { arg, name } => match b % 2 {
            0 => s = Spec::NixInherit { path: arg.clone(), name: name.clone() },
            _ => s = Spec::NixArg(name.clone()),
        },
        Spec::NixVar { name, .. } => name.push('0'),
    }
    s
}

fn imports(c: &Imports) -> Result<(), String> {
    fn go<L: LS>(c: &Imports) -> Result<(), String> {
        let mut xs: Vec<L::Item> = Vec::new();
        let mut ts: Vec<Tokens<L>> = Vec::new();
        let mut specs = Vec::new();
        let mut files = Vec::new();
        for (i, s) in c.pool.iter().enumerate() {
            for k in 0..2 {
                let how = c.hows.get(2 * i + k).copied().unwrap_or(k as u8);
                let mut t: Tokens<L> = Tokens::new();
                L::add(&mut t, &c.pool, i, how, false);
                xs.push(t.walk_imports().next().ok_or("no import")?.clone());
                files.push(langs::file_of::<L>(&t, &c.conf)?);
                ts.push(t);
                specs.push(s);
            }
        }
        laws(&xs)?;
        laws(&ts)?;
        for (i, a) in xs.iter().enumerate() {
            for (j, b) in xs.iter().enumerate() {
                if specs[i] == specs[j] {
                    if a != b || ts[i] != ts[j] {
                        return Err(format!("the same import differs by storage: {a:?} {b:?}"));
                    }
                } else if a == b && files[i] != files[j] {
                    return Err(format!(
                        "equal imports which render differently: {a:?} {b:?}\n{}\n{}",
                        files[i], files[j]
                    ));
                }
            }
        }
        Ok(())
    }
    crate::with_lang!(c.lang, L => go::<L>(c))
}

fn s() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[ab]{0,3}",
        1 => lit(),
        1 => any::<String>(),
    ]
    .boxed()
}

pub fn check(cx: &mut Ctx) {
    let n = cx.n(20_000, 1_000_000);
    cx.part(
        "long-strings",
        "texts of up to 64 kB with others that share all but their end, in twelve storage forms; the laws and equality exactly for the same text; non-trivial: all",
        cx.n(500, 15_000),
        || (crate::c07::long(any::<char>().boxed()), any::<char>(), prop::collection::vec(any::<u8>(), 6)),
        |_| true,
        |(l, c, hows)| {
            let text = l.text();
            let mut cut = text.clone();
            cut.pop();
            let (mut more, mut other) = (text.clone(), cut.clone());
            more.push(*c);
            other.push(*c);
            let texts = [text.clone(), text, cut, more.clone(), other, more];
            strings(&texts.into_iter().zip(hows.iter().copied()).collect::<Vec<_>>())
        },
    );
    cx.part(
        "strings",
        "at least three strings; every pair and triple, twelve ways of making them; oracle: the laws and content equality",
        n,
        || prop::collection::vec((s(), any::<u8>()), 1..7),
        |c| c.len() >= 3,
        |c| strings(c),
    );
    let n = cx.n(20_000, 1_000_000);
    cx.part(
        "items",
        "at least three items of all kinds; oracle: the laws and content equality",
        n,
        || prop::collection::vec((any::<u8>(), s(), any::<u8>(), -2i16..3), 1..7),
        |c| c.len() >= 3,
        |c| items(c),
    );
    let n = cx.n(20_000, 800_000);
    cx.part(
        "streams",
        "some stream is not empty; streams, the same streams built in other ways or with one addition changed (with imports, strings and nesting), every pair and triple; oracle: the laws, and equality of the modelled items",
        n,
        || {
            prop::collection::vec((history(true, 6), any::<u8>(), any::<u8>(), any::<u8>()), 1..4).prop_map(|v| {
                let mut out = Vec::new();
                for (o, a, b, c) in v {
                    if a % 3 == 0 && !o.is_empty() {
                        // A prefix.
                        out.push(o[..o.len() - 1].to_vec());
                    }
                    if c % 2 == 0 {
                        out.push(altered(&o, c / 2, b));
                    }
                    out.push(again(&o, b));
                    out.push(o);
                }
                out
            })
        },
        |c| c.iter().any(|o| !Model::of(o).items.is_empty()),
        |c| streams(c),
    );
    for lang in crate::lits::ALL {
        let n = cx.n(3000, 150_000);
        cx.part(
            &format!("imports-{lang:?}"),
            "at least two imports, each stored in two ways, some of them near-copies of others (a field changed, moved or swapped, another kind); oracle: the laws, same description means equal, equal means same file",
            n,
            || {
                // (Values of Nix variables refer to others, which must not be cyclic.)
                let pool = if lang == LangId::Nix {
                    langs::doc_for(lang).prop_map(|d| d.pool).boxed()
                } else {
                    prop::collection::vec(langs::spec(lang), 1..4).boxed()
                };
                (
                    pool,
                    prop::collection::vec(any::<u8>(), 12),
                    langs::conf(lang),
                    prop::collection::vec((any::<u8>(), any::<u8>()), 0..3),
                )
                    .prop_map(move |(mut pool, hows, conf, copies)| {
                        for (i, b) in copies {
                            pool.push(near(&pool[i as usize % pool.len()], b));
                        }
                        Imports { lang, pool, hows, conf }
                    })
            },
            |c| c.pool.len() >= 2,
            imports,
        );
    }
}
