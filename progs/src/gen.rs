//! Random quotations.

use crate::eval::{Data, E};
use crate::quo::*;

/// Splitmix64.
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }

    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }

    pub fn u8(&mut self, n: u8) -> u8 {
        self.below(n as u64) as u8
    }

    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }

    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let mut x = self.below(w.iter().sum());
        for (i, n) in w.iter().enumerate() {
            if x < *n {
                return i;
            }
            x -= n;
        }
        0
    }
}

#[derive(Debug, Clone, Copy)]
pub struct Style {
    /// Weights.
    pub plain: u64,
    pub groups: u64,
    pub esc: u64,
    pub interp: u64,
    pub ctl: u64,
    pub strs: u64,
    pub effects: u64,
    pub tries: u64,
    pub rows: u64,
    pub toks: u64,
    /// One in so many rows is misplaced (0: none).
    pub bad: u64,
}

pub fn body(r: &mut Rng, s: &Style, depth: u8) -> Body {
    let n = match r.below(10) {
        0 if depth > 0 => 0,
        0..=4 => 1,
        _ => 1 + r.below(s.rows),
    };
    // Now and then a long one, and a steep one.
    let (n, steep) = if depth == 0 && s.rows > 3 && r.chance(1, 25) {
        (10 + r.below(40), r.chance(1, 2))
    } else {
        (n, false)
    };
    let rows = (0..n)
        .map(|i| {
            let mut row = row(r, s, if n >= 10 { 2 } else { depth }, i == 0);
            if steep {
                row.col = match r.below(12) {
                    0..=8 => 1 + r.u8(4) as i8,
                    9 => 0,
                    10 => -1,
                    _ => -(1 + r.u8(20) as i8),
                };
            }
            row
        })
        .collect();
    Body {
        lead: r.u8(7),
        base: r.u8(24),
        rows,
        tail: r.u8(6),
    }
}

fn row(r: &mut Rng, s: &Style, depth: u8, first: bool) -> Row {
    let n = 1 + if depth == 0 && r.chance(1, 60) { 20 + r.below(120) } else { r.below(s.toks) };
    Row {
        blank: if r.chance(1, 80) { 200 + r.u8(6) } else { [0, 0, 0, 1, 2, 3][r.below(6) as usize] },
        col: match r.below(8) {
            0 if r.chance(1, 12) => [16, 30, 63, 100][r.below(4) as usize],
            0..=2 => [1, 2, 4, 4, 4, 7][r.below(6) as usize],
            3..=4 => 0,
            5..=6 => -1,
            _ => -(1 + r.u8(3) as i8),
        },
        end: r.u8(4),
        bad: (!first && s.bad > 0 && r.chance(1, s.bad)).then(|| r.u8(40)),
        // NB: only the first few of a long row nest.
        toks: (0..n).map(|i| tok(r, s, if i > 8 { 3 } else { depth })).collect(),
    }
}

pub fn gap(r: &mut Rng) -> u8 {
    if r.chance(1, 100) {
        return 200 + r.u8(6);
    }
    [0, 0, 0, 1, 1, 1, 2, 5, 6, 7, 8][r.below(11) as usize]
}

pub fn tok(r: &mut Rng, s: &Style, depth: u8) -> Tok {
    let g = gap(r);
    let ctl = if depth < 3 { s.ctl } else { 0 };
    let k = match r.weighted(&[s.plain, s.groups, s.esc, s.interp, ctl, s.strs, s.effects, s.tries]) {
        0 => match r.weighted(&[5, 2, 4, 1, 2, 1]) {
            0 => K::Word(r.u8(14)),
            1 => K::Num(r.u8(7)),
            2 => K::Punct(r.u8(26)),
            3 => K::Lit(r.u8(9)),
            4 => K::Str(r.u8(15)),
            _ => K::Dollar,
        },
        1 => {
            if r.chance(1, 2) {
                K::Open(r.u8(3))
            } else {
                K::Close
            }
        }
        2 => K::Esc(r.u8(3)),
        3 => match r.weighted(&[2, 3, 2]) {
            0 => K::Special(r.u8(9)),
            1 => K::Var(r.u8(6)),
            _ => K::Expr(r.u8(9), r.u8(4)),
        },
        4 => control(r, s, depth + 1),
        5 => str_fn(r, s, depth),
        6 => match r.below(4) {
            0 => K::Count,
            1 => K::Ref(r.u8(4)),
            2 => K::Let(r.u8(9), r.u8(4), r.chance(1, 2), tr(r, s)),
            _ => K::Expr(r.u8(9), r.u8(4)),
        },
        _ => {
            if r.chance(1, 3) {
                K::Skip(r.chance(1, 2), r.u8(7))
            } else {
                K::Try(r.u8(10), r.u8(2))
            }
        }
    };
    Tok { gap: g, k }
}

/// Whether an expression may leave the quotation, and of what kind it is.
fn tr(r: &mut Rng, s: &Style) -> u8 {
    let kind = if r.chance(1, 3) { 4 * r.u8(9) } else { 0 };
    if s.tries > 0 && r.chance(1, 6) {
        4 * r.u8(9) + 2 + r.u8(2)
    } else {
        kind
    }
}

pub fn control(r: &mut Rng, s: &Style, depth: u8) -> K {
    match r.weighted(&[5, 4, 4, 2, 2, 1, 2]) {
        0 => {
            let join = r.chance(1, 2).then(|| body(r, s, depth + 1));
            let mut b = body(r, s, depth);
            if join.is_none() && s.tries > 0 && r.chance(1, 4) {
                if let Some(row) = b.rows.first_mut() {
                    row.toks.insert(0, Tok { gap: 0, k: K::Skip(r.chance(1, 2), [3, 3, 0][r.below(3) as usize]) });
                }
            }
            K::For {
                src: r.u8(11),
                join,
                brace: r.chance(1, 2),
                body: b,
                tr: tr(r, s),
            }
        }
        1 => K::If {
            cond: r.u8(9),
            form: r.u8(3),
            then: body(r, s, depth),
            els: body(r, s, depth),
            tr: tr(r, s),
        },
        2 => {
            let n = r.below(4);
            K::Match {
                subj: r.u8(2),
                tr: tr(r, s),
                arms: (0..n)
                    .map(|_| Arm {
                        attr: r.u8(8),
                        pat: r.u8(7),
                        guard: r.chance(1, 3).then(|| r.u8(7)),
                        tr: tr(r, s),
                        style: r.u8(3),
                        comma: r.chance(1, 2),
                        body: body(r, s, depth),
                    })
                    .collect(),
                last: r.u8(5),
            }
        }
        3 => K::Let(r.u8(9), r.u8(4), r.chance(1, 2), tr(r, s)),
        4 => K::Ref(r.u8(4)),
        5 => K::RefQuote(body(r, s, depth)),
        _ => K::Nested(r.u8(3), body(r, s, depth)),
    }
}

pub fn str_fn(r: &mut Rng, s: &Style, depth: u8) -> K {
    let n = if r.chance(1, 20) { r.below(40) } else { r.below(9) };
    let pieces = (0..n)
        .map(|_| SP {
            gap: if r.chance(1, 40) { 200 + r.u8(6) } else { [0, 0, 1, 1, 2, 3, 4][r.below(7) as usize] },
            k: match r.weighted(&[6, 2, 4, 1, 2, 2, 2, 2, 2, 2, 3, 4]) {
                0 => SK::Word(r.u8(14)),
                1 => SK::Num(r.u8(7)),
                2 => SK::Punct(r.u8(26)),
                3 => SK::Lit(r.u8(8)),
                4 => SK::Str(r.u8(7)),
                5 => SK::Open(r.u8(3)),
                6 => SK::Close,
                7 => SK::Dollar,
                8 => SK::ConstLit(r.u8(7)),
                9 => SK::ConstExpr(r.u8(8)),
                10 => SK::Ident(r.u8(4)),
                _ => {
                    if depth < 3 {
                        SK::Eval(body(r, s, depth + 2))
                    } else {
                        SK::Ident(r.u8(4))
                    }
                }
            },
        })
        .collect();
    K::StrFn(pieces, if r.chance(1, 40) { 200 + r.u8(6) } else { r.u8(4) })
}

pub fn data(r: &mut Rng) -> Data {
    let xs = |r: &mut Rng| (0..if r.chance(1, 16) { r.below(24) } else { r.below(4) }).map(|_| r.below(7) as i64 - 1).collect::<Vec<_>>();
    let e = |r: &mut Rng| match r.below(3) {
        0 => E::A,
        1 => E::B(r.below(6) as i64),
        _ => E::C(r.u8(4), r.below(6) as i64),
    };
    let o = |r: &mut Rng| r.chance(2, 3).then(|| r.below(6) as i64);
    Data {
        xs0: xs(r),
        xs1: xs(r),
        ss: (0..r.below(4)).map(|_| r.u8(4)).collect(),
        b0: r.chance(1, 2),
        b1: r.chance(1, 2),
        o0: o(r),
        o1: o(r),
        e0: e(r),
        e1: e(r),
        n0: r.u8(4),
    }
}
