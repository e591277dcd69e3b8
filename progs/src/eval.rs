//! What a quotation appends, executed on the reference stream.

use serde::{Deserialize, Serialize};

use crate::quo::{Cond, IntE, Ir, Pat, Src};
use crate::stream::{Model, Render, MI};

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum E {
    A,
    B(i64),
    C(u8, i64),
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Data {
    pub xs0: Vec<i64>,
    pub xs1: Vec<i64>,
    pub ss: Vec<u8>,
    pub b0: bool,
    pub b1: bool,
    pub o0: Option<i64>,
    pub o1: Option<i64>,
    pub e0: E,
    pub e1: E,
    pub n0: u8,
}

const TEXTS: [&str; 4] = ["", "s", "two words", "é"];

fn text(n: u8) -> &'static str {
    TEXTS[n as usize % TEXTS.len()]
}

impl Data {
    pub fn n0(&self) -> i64 {
        (self.n0 % 4) as i64
    }

    pub fn source(&self) -> String {
        let e = |e: &E| match e {
            E::A => "E::A".to_string(),
            E::B(n) => format!("E::B({n})"),
            E::C(s, n) => format!("E::C {{ s: {:?}, n: {n} }}", text(*s)),
        };
        format!(
            "D {{ xs0: vec!{:?}, xs1: vec!{:?}, ss: vec!{:?}, b0: {}, b1: {}, o0: {:?}, o1: {:?}, e0: {}, e1: {}, n0: {} }}",
            self.xs0,
            self.xs1,
            self.ss.iter().map(|s| text(*s)).collect::<Vec<_>>(),
            self.b0,
            self.b1,
            self.o0,
            self.o1,
            e(&self.e0),
            e(&self.e1),
            self.n0()
        )
    }
}

#[derive(Debug, Clone)]
enum V {
    I(i64),
    S(&'static str),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Flow {
    Next,
    Continue,
    Break,
    /// Left through `?`.
    Abort,
}

pub struct Run<'a> {
    d: &'a Data,
    env: Vec<(String, V)>,
    pub log: Vec<u32>,
    count: i64,
}

impl<'a> Run<'a> {
    pub fn new(d: &'a Data) -> Run<'a> {
        Run {
            d,
            env: vec![("n0".into(), V::I(d.n0()))],
            log: Vec::new(),
            count: 0,
        }
    }

    fn get(&self, n: &str) -> &V {
        &self.env.iter().rev().find(|(k, _)| k == n).expect("variable").1
    }

    fn int(&self, n: &str) -> i64 {
        match self.get(n) {
            V::I(i) => *i,
            V::S(_) => panic!("integer variable"),
        }
    }

    fn show(&self, n: &str) -> String {
        if let Some(v) = n.strip_prefix("=f") {
            return format!("f{}", self.int(v));
        }
        if let Some(o) = n.strip_prefix("=o") {
            let o = if o == "0" { self.d.o0 } else { self.d.o1 };
            return o.map(|o| o.to_string()).unwrap_or_default();
        }
        match self.get(n) {
            V::I(i) => i.to_string(),
            V::S(s) => s.to_string(),
        }
    }

    fn cond(&self, c: &Cond) -> bool {
        match c {
            Cond::B0 => self.d.b0,
            Cond::B1 => self.d.b1,
            Cond::N0Gt1 => self.int("n0") > 1,
            Cond::Gt2(v) => self.int(v) > 2,
            Cond::B0NotB1 => self.d.b0 && !self.d.b1,
            Cond::True => true,
            Cond::False => false,
        }
    }

    fn opt(&self, n: u8) -> Option<i64> {
        if n == 0 {
            self.d.o0
        } else {
            self.d.o1
        }
    }

    /// Run in a scope of its own.
    fn scoped(&mut self, ir: &[Ir], m: &mut Model) -> Flow {
        let mark = self.env.len();
        let f = self.run(ir, m);
        self.env.truncate(mark);
        f
    }

    pub fn run(&mut self, ir: &[Ir], m: &mut Model) -> Flow {
        for i in ir {
            let f = self.one(i, m);
            if f != Flow::Next {
                return f;
            }
        }
        Flow::Next
    }

    fn one(&mut self, i: &Ir, m: &mut Model) -> Flow {
        match i {
            Ir::I(i) => m.add(i.clone()),
            Ir::Sub(items) => {
                for i in items {
                    m.add(i.clone());
                }
            }
            Ir::SubIr(ir) => {
                let mut sub = Model::default();
                let f = self.scoped(ir, &mut sub);
                if f != Flow::Next {
                    return f;
                }
                for i in sub.items {
                    m.add(i);
                }
            }
            Ir::Var(v) => m.add(MI::Lit(self.show(v))),
            Ir::Quoted(ir) => {
                m.add(MI::Open(false));
                let f = self.run(ir, m);
                m.add(MI::Close);
                return f;
            }
            Ir::Log(n) => self.log.push(*n),
            Ir::Count => {
                self.count += 1;
                m.add(MI::Lit(self.count.to_string()));
            }
            Ir::Try(n) => {
                if self.opt(*n).is_none() {
                    return Flow::Abort;
                }
            }
            Ir::Skip(brk, c) => {
                if self.cond(c) {
                    return if *brk { Flow::Break } else { Flow::Continue };
                }
            }
            Ir::Let(v, e) => {
                let x = match e {
                    IntE::N0 => self.int("n0"),
                    IntE::Plus1(v) => self.int(v) + 1,
                    IntE::Len => self.d.xs0.len() as i64,
                };
                self.env.push((v.clone(), V::I(x)));
            }
            Ir::Let2(b, a) => {
                let x = self.int(a) + 1;
                self.env.push((b.clone(), V::I(x)));
            }
            Ir::For { src, log, var, idx, join, body } => {
                self.log.push(*log);
                let ints = |v: &Vec<i64>| v.iter().map(|x| V::I(*x)).collect::<Vec<_>>();
                let elems: Vec<V> = match src {
                    Src::Xs0 => ints(&self.d.xs0),
                    Src::Xs1 | Src::Enum => ints(&self.d.xs1),
                    Src::Ss => self.d.ss.iter().map(|s| V::S(text(*s))).collect(),
                    Src::Range => (0..self.int("n0")).map(V::I).collect(),
                    Src::Opt => self.d.o0.iter().map(|x| V::I(*x)).collect(),
                    Src::Filter => self.d.xs0.iter().filter(|x| **x > 1).map(|x| V::I(*x)).collect(),
                    Src::Rev => self.d.xs1.iter().rev().map(|x| V::I(*x)).collect(),
                    Src::FromFn => (0..self.int("n0")).rev().map(V::I).collect(),
                    Src::Split => ["a", "é"].map(V::S).to_vec(),
                };
                let n = elems.len();
                for (k, e) in elems.into_iter().enumerate() {
                    let mark = self.env.len();
                    if let Some(i) = idx {
                        self.env.push((i.clone(), V::I(k as i64)));
                    }
                    self.env.push((var.clone(), e));
                    let mut f = self.scoped(body, m);
                    if let (Flow::Next, Some(j), true) = (f, join, k + 1 < n) {
                        f = self.scoped(j, m);
                    }
                    self.env.truncate(mark);
                    match f {
                        Flow::Next | Flow::Continue => {}
                        Flow::Break => break,
                        Flow::Abort => return f,
                    }
                }
            }
            Ir::If { log, cond, then, els } => {
                self.log.push(*log);
                let b = if self.cond(cond) { then } else { els };
                return self.scoped(b, m);
            }
            Ir::IfLet { log, opt, var, then, els } => {
                self.log.push(*log);
                let Some(x) = self.opt(*opt) else {
                    return self.scoped(els, m);
                };
                let mark = self.env.len();
                self.env.push((var.clone(), V::I(x)));
                let f = self.scoped(then, m);
                self.env.truncate(mark);
                return f;
            }
            Ir::Match { log, subj, arms } => {
                self.log.push(*log);
                let e = if *subj == 0 { self.d.e0.clone() } else { self.d.e1.clone() };
                let mark = self.env.len();
                for (pat, guard, block) in arms {
                    self.env.truncate(mark);
                    let hit = match (pat, &e) {
                        (Pat::A | Pat::AB, E::A) => true,
                        (Pat::AB, E::B(_)) => true,
                        (Pat::B(v) | Pat::BC(v), E::B(n)) | (Pat::BC(v), E::C(_, n)) => {
                            self.env.push((v.clone(), V::I(*n)));
                            true
                        }
                        (Pat::C(w, v), E::C(s, n)) => {
                            self.env.push((w.clone(), V::S(text(*s))));
                            self.env.push((v.clone(), V::I(*n)));
                            true
                        }
                        (Pat::AnyC, E::C(..)) => true,
                        (Pat::Any, _) => true,
                        _ => false,
                    };
                    if !hit {
                        continue;
                    }
                    if let Some((t, id, c)) = guard {
                        if t.is_some_and(|t| self.opt(t).is_none()) {
                            return Flow::Abort;
                        }
                        self.log.push(*id);
                        if !self.cond(c) {
                            continue;
                        }
                    }
                    let f = self.scoped(block, m);
                    self.env.truncate(mark);
                    return f;
                }
                self.env.truncate(mark);
            }
            Ir::Scoped(ir) => return self.scoped(ir, m),
            Ir::Repeat(ir) => {
                for _ in 0..self.int("n0") {
                    self.run(ir, m);
                }
            }
            Ir::Str(eval, ir) => {
                m.add(MI::Open(*eval));
                let f = self.run(ir, m);
                if f != Flow::Next {
                    return f;
                }
                m.add(MI::Close);
            }
        }
        Flow::Next
    }
}

/// Content which precedes a quotation (see `rt::prior`).
pub fn prior(k: u8) -> Model {
    let mut m = Model::default();
    if k > 0 {
        m.add(MI::Lit("p".into()));
    }
    match k {
        2 => m.add(MI::Space),
        3 => m.add(MI::Push),
        4 => m.add(MI::Line),
        5 => m.add(MI::Ind(1)),
        6 => {
            m.add(MI::Ind(1));
            m.add(MI::Lit("q".into()));
            m.add(MI::Ind(-1));
        }
        _ => (),
    }
    m
}

/// Rendering followed by the probe (see `rt::show`).
pub fn show(m: &Model) -> String {
    let mut m = m.clone();
    m.add(MI::Push);
    m.add(MI::Lit("END".into()));
    let mut r = Render::new("    ", "\n");
    r.open_eval = "e\"".into();
    r.run(&m.items);
    r.out
}
