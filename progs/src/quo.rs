//! Quotations: structure, source text, and the meaning that the documentation
//! gives to them (as a small tree which `eval` executes).

use serde::{Deserialize, Serialize};

use crate::stream::MI;

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Body {
    /// 0..=3: that many spaces before the first row, otherwise it starts on its own line.
    pub lead: u8,
    /// Column of the first row when on its own line.
    pub base: u8,
    pub rows: Vec<Row>,
    pub tail: u8,
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Row {
    /// Empty lines before the row.
    pub blank: u8,
    /// Positive: that much deeper; zero: same column; negative: back by levels.
    pub col: i8,
    /// How the row ends: 2 trailing spaces, 3 comment.
    pub end: u8,
    /// Start in a column which is not one of an enclosing row.
    pub bad: Option<u8>,
    pub toks: Vec<Tok>,
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Tok {
    pub gap: u8,
    pub k: K,
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum K {
    Word(u8),
    Num(u8),
    Punct(u8),
    /// Character, byte, and other literals; lifetimes.
    Lit(u8),
    /// Quoted string literal.
    Str(u8),
    Open(u8),
    Close,
    Dollar,
    Esc(u8),
    /// One of the special values.
    Special(u8),
    /// A variable in scope.
    Var(u8),
    Expr(u8, u8),
    /// Number of times this and other counters were evaluated so far.
    Count,
    /// `?` on an option; 0 as an interpolation, 1 in a scope.
    Try(u8, u8),
    /// `continue` or `break` at the beginning of a loop body.
    Skip(bool, u8),
    Let(u8, u8, bool, u8),
    Ref(u8),
    RefQuote(Body),
    /// `$(quote!(..))`, `$(quote_fn!(..))`.
    Nested(u8, Body),
    For {
        src: u8,
        join: Option<Body>,
        brace: bool,
        body: Body,
        tr: u8,
    },
    If {
        cond: u8,
        form: u8,
        then: Body,
        els: Body,
        tr: u8,
    },
    Match {
        subj: u8,
        tr: u8,
        arms: Vec<Arm>,
        last: u8,
    },
    StrFn(Vec<SP>, u8),
    /// Verbatim source (for rejected forms).
    Raw(String),
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Arm {
    pub attr: u8,
    pub pat: u8,
    pub guard: Option<u8>,
    pub tr: u8,
    /// 0 braces, 1 parentheses, 2 bare.
    pub style: u8,
    pub comma: bool,
    pub body: Body,
}

/// A piece of an interpolated string, preceded by `gap` spaces.
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct SP {
    pub gap: u8,
    pub k: SK,
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum SK {
    Word(u8),
    Num(u8),
    Punct(u8),
    Lit(u8),
    Str(u8),
    Open(u8),
    Close,
    Dollar,
    ConstLit(u8),
    ConstExpr(u8),
    Ident(u8),
    Eval(Body),
}

// ------------------------------------------------------------------ meaning

#[derive(Debug, Clone)]
pub enum Cond {
    B0,
    B1,
    N0Gt1,
    Gt2(String),
    B0NotB1,
    True,
    False,
}

#[derive(Debug, Clone)]
pub enum Src {
    Xs0,
    Xs1,
    Enum,
    Ss,
    Range,
    Opt,
    /// Elements greater than 1.
    Filter,
    Rev,
    /// Numbers up to a bound from an iterator which knows nothing of its length.
    FromFn,
    Split,
}

#[derive(Debug, Clone)]
pub enum IntE {
    N0,
    Plus1(String),
    Len,
}

#[derive(Debug, Clone)]
pub enum Pat {
    A,
    B(String),
    C(String, String),
    AB,
    BC(String),
    AnyC,
    Any,
}

#[derive(Debug, Clone)]
pub enum Ir {
    I(MI),
    /// A finished stream is appended.
    Sub(Vec<MI>),
    /// A finished quotation is appended.
    SubIr(Vec<Ir>),
    Var(String),
    Quoted(Vec<Ir>),
    Log(u32),
    Count,
    Try(u8),
    Skip(bool, Cond),
    Let(String, IntE),
    /// A second variable one greater than the first.
    Let2(String, String),
    For {
        src: Src,
        log: u32,
        var: String,
        idx: Option<String>,
        join: Option<Vec<Ir>>,
        body: Vec<Ir>,
    },
    If {
        log: u32,
        cond: Cond,
        then: Vec<Ir>,
        els: Vec<Ir>,
    },
    IfLet {
        log: u32,
        opt: u8,
        var: String,
        then: Vec<Ir>,
        els: Vec<Ir>,
    },
    Match {
        log: u32,
        subj: u8,
        arms: Vec<(Pat, Option<(Option<u8>, u32, Cond)>, Vec<Ir>)>,
    },
    Repeat(Vec<Ir>),
    /// Variables assigned within are not seen outside.
    Scoped(Vec<Ir>),
    Str(bool, Vec<Ir>),
}

// ------------------------------------------------------------------- source

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Prev {
    Start,
    Word,
    Num,
    Lit,
    Life,
    Punct(char),
    Other,
}

#[derive(Debug, Clone, Copy)]
struct Cx {
    /// Commas end the quotation.
    no_comma: bool,
    /// Everything has to stay on one line.
    single: bool,
    /// Within a closure: `?` and `continue` would not leave it.
    in_fn: bool,
    /// Body of a loop without join.
    in_loop: bool,
    /// Body of a loop with join: no shadowing of variables used by it.
    no_shadow: bool,
}

const PLAIN: Cx = Cx {
    no_comma: false,
    single: false,
    in_fn: false,
    in_loop: false,
    no_shadow: false,
};

pub struct Em {
    pub out: String,
    line: usize,
    col: usize,
    ids: u32,
    names: u32,
    first_name: usize,
    /// Names in scope, and whether they are integers.
    scope: Vec<(String, bool)>,
    prev: Prev,
    after_fn: bool,
    /// Lines (counted from zero) of rows with inconsistent indentation.
    pub bad: Vec<usize>,
    /// Control-flow constructs, strings with interpolation, multi-row bodies seen.
    pub ctl: usize,
    pub rows: usize,
    pub levels: usize,
    pub evals: usize,
    pub has_try: bool,
    /// Within an arm that is configured out: quotations of their own are not expanded.
    off: bool,
    hidden: bool,
}

pub const WORDS: [&str; 14] = [
    "foo", "bar", "x", "é", "fn", "for", "if", "struct", "_", "r#type", "self", "日本", "let", "a1",
];
const NUMS: [&str; 7] = ["1", "42", "1.5", "0x1f", "1_000u32", "1e5", "007"];
pub const PUNCTS: [&str; 26] = [
    ";", ",", ".", "+", "-", "=", "=>", "->", "::", ":", "==", "..=", "&&", "<", ">", "!", "#",
    "@", "?", "~", "|", "*", "/", "%", "<<=", "^",
];
/// Source and what it stands for.
/// The ones from 8 on take several lines and start like the ones from 2 on.
const LITS: [(&str, &str); 9] = [
    ("'x'", "'x'"),
    ("'a", "'a"),
    ("b'x'", "b'x'"),
    ("b\"by\"", "b\"by\""),
    ("'\\n'", "'\\n'"),
    ("c\"cs\"", "c\"cs\""),
    ("br#\"z\"#", "br#\"z\"#"),
    ("'\"'", "'\"'"),
    ("b\"m\n n\"", "b\"m\n n\""),
];
/// The ones from 7 to 9, and from 13 on, take several lines and start like the ones
/// from 0 and 11 on.
const STRS: [(&str, &str); 15] = [
    ("\"s\"", "s"),
    ("\"\"", ""),
    ("\"two words\"", "two words"),
    ("\"q\\\"q\"", "q\"q"),
    ("r\"raw\\\"", "raw\\"),
    ("r#\"a\"b\"#", "a\"b"),
    ("\" é$x $(y) \"", " é$x $(y) "),
    ("\"l1\n  l2\"", "l1\n  l2"),
    ("\"a \\\n        b\"", "a b"),
    ("\"\n\n\"", "\n\n"),
    ("\"s\"sv", "s"),
    ("/** d \"q\" */", " d \"q\" "),
    ("/*! i */", " i "),
    ("/** m\n  n */", " m\n  n "),
    ("/**\n\n */", "\n\n "),
];

/// The `n`th of some sources, only ones on a single line where asked for.
fn pick(from: &[(&'static str, &'static str)], n: u8, lines: usize, single: bool) -> (&'static str, &'static str) {
    let n = n as usize % from.len();
    from[match n {
        13.. if single => 11,
        10.. => n,
        _ if single && n >= lines => n - lines + if lines == 8 { 2 } else { 0 },
        _ => n,
    }]
}

fn is_word(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}

fn lit(s: &str) -> Ir {
    Ir::I(MI::Lit(s.into()))
}

impl Em {
    pub fn new() -> Em {
        Em {
            out: String::new(),
            line: 0,
            col: 0,
            ids: 0,
            names: 0,
            first_name: 0,
            scope: vec![("n0".into(), true)],
            prev: Prev::Start,
            after_fn: false,
            bad: Vec::new(),
            ctl: 0,
            rows: 0,
            levels: 0,
            evals: 0,
            has_try: false,
            off: false,
            hidden: false,
        }
    }

    /// Start another copy of the same quotation: places and names are numbered afresh.
    pub fn again(&mut self) {
        self.ids = 0;
        self.names = 0;
        self.scope = vec![("n0".into(), true)];
        self.prev = Prev::Start;
        self.after_fn = false;
    }

    pub fn raw(&mut self, s: &str) {
        for c in s.chars() {
            if c == '\n' {
                self.line += 1;
                self.col = 0;
            } else {
                self.col += 1;
            }
        }
        self.out.push_str(s);
    }

    fn spaces(&mut self, n: usize) {
        for _ in 0..n {
            self.raw(" ");
        }
    }

    fn id(&mut self) -> u32 {
        self.ids += 1;
        self.ids
    }

    fn name(&mut self) -> String {
        let n = self.names as usize;
        self.names += 1;
        // Names an expansion might use itself, first.
        if n < LOCALS.len() {
            LOCALS[(n + self.first_name) % LOCALS.len()].to_string()
        } else {
            format!("i{n}")
        }
    }

    fn int(&self, n: u8) -> String {
        let v: Vec<&String> = self.scope.iter().filter(|s| s.1).map(|s| &s.0).collect();
        v[v.len() - 1 - (n as usize % v.len())].clone()
    }

    /// `e` in expressions of several kinds, evaluated after something that leaves the
    /// quotation if an option is empty, where that is possible.
    fn tried(&mut self, tr: u8, cx: Cx, e: &str) -> (String, Option<u8>) {
        let kind = tr / 4 % 9;
        if tr % 4 < 2 || cx.in_fn {
            let e = match kind {
                0 => e.to_string(),
                1 => format!("{{ {e} }}"),
                2 => format!("match () {{ () => {e} }}"),
                3 => format!("if true {{ {e} }} else {{ unreachable!() }}"),
                4 => format!("{{ let r = {e}; r }}"),
                5 => format!("loop {{ break {e}; }}"),
                6 => format!("unsafe {{ {e} }}"),
                7 => format!("'q: {{ break 'q {e}; }}"),
                _ => format!("(({e}))"),
            };
            return (e, None);
        }
        self.has_try = true;
        let o = tr % 2;
        let e = match kind {
            0 => format!("(o{o}?, {e}).1"),
            1 => format!("{{ o{o}?; {e} }}"),
            2 => format!("match o{o} {{ Some(_) => {e}, None => return None }}"),
            3 => format!("if o{o}.is_none() {{ return None; }} else {{ {e} }}"),
            4 => format!("{{ let Some(_) = o{o} else {{ return None }}; {e} }}"),
            5 => format!("loop {{ o{o}?; break {e}; }}"),
            6 => format!("unsafe {{ if o{o}.is_none() {{ return None; }} {e} }}"),
            7 => format!("'q: {{ o{o}?; break 'q {e}; }}"),
            _ => format!("[(o{o}?, {e})].into_iter().next()?.1"),
        };
        (e, Some(o))
    }

    fn cond(&self, c: u8) -> (String, Cond) {
        match c % 7 {
            0 => ("b0".into(), Cond::B0),
            1 => ("b1".into(), Cond::B1),
            2 => ("n0 > 1".into(), Cond::N0Gt1),
            3 => {
                let v = self.int(0);
                (format!("{v} > 2"), Cond::Gt2(v))
            }
            4 => ("b0 && !b1".into(), Cond::B0NotB1),
            5 => ("true".into(), Cond::True),
            _ => ("false".into(), Cond::False),
        }
    }

    /// Whether the next token would run together with the one before.
    fn glues(&self, next: char) -> bool {
        match self.prev {
            Prev::Start | Prev::Other => false,
            Prev::Word => is_word(next) || matches!(next, '"' | '\'' | '#'),
            Prev::Num => is_word(next) || matches!(next, '"' | '\'' | '#' | '.'),
            Prev::Lit => is_word(next) || matches!(next, '\'' | '#' | '"'),
            Prev::Life => is_word(next) || matches!(next, '\'' | '#' | '"'),
            Prev::Punct('/') => matches!(next, '/' | '*'),
            Prev::Punct(_) => false,
        }
    }

    fn set_prev(&mut self, source: &str) {
        let last = source.chars().last().unwrap_or(' ');
        let first = source.chars().next().unwrap_or(' ');
        self.prev = if first == '\'' && last != '\'' {
            Prev::Life
        } else if matches!(last, '"' | '\'') || (last == '#' && source.len() > 1) {
            Prev::Lit
        } else if first.is_ascii_digit() {
            Prev::Num
        } else if is_word(last) {
            Prev::Word
        } else if matches!(last, '(' | ')' | '[' | ']' | '{' | '}' | '$') {
            Prev::Other
        } else {
            Prev::Punct(last)
        };
    }

    /// The first character of the source of a token.
    fn first_char(k: &K) -> char {
        let s = match k {
            K::Word(n) => WORDS[*n as usize % WORDS.len()],
            K::Num(n) => NUMS[*n as usize % NUMS.len()],
            K::Punct(n) => PUNCTS[*n as usize % PUNCTS.len()],
            K::Lit(n) => LITS[*n as usize % LITS.len()].0,
            K::Str(n) => STRS[*n as usize % STRS.len()].0,
            K::Open(_) | K::Close => "(",
            K::Raw(s) => s.as_str(),
            _ => "$",
        };
        s.chars().next().unwrap_or(' ')
    }

    /// A size: small ones as they are, and some large ones.
    fn size(n: u8, small: u8) -> usize {
        match n {
            0..=199 => (n % small) as usize,
            _ => [17, 33, 65, 99, 130, 260][(n - 200) as usize % 6],
        }
    }

    /// Write a gap in front of a token of a row; true if there is one.
    fn gap(&mut self, gap: u8, next: char) -> bool {
        if gap >= 200 {
            self.spaces(Self::size(gap, 1));
            self.prev = Prev::Start;
            return true;
        }
        let gap = gap % 9;
        if gap == 0 && !self.glues(next) {
            return false;
        }
        match gap {
            0 | 1 => self.raw(" "),
            2..=5 => self.spaces(gap as usize),
            6 => self.raw(" /* c */ "),
            7 => self.raw(" /**/"),
            _ => self.raw("\t"),
        }
        self.prev = Prev::Start;
        true
    }

    // -------------------------------------------------------------- bodies

    /// Rows with unmatched closing delimiters dropped; unclosed ones are returned.
    fn balanced<'b>(rows: &'b [Row]) -> (Vec<(&'b Row, Vec<&'b Tok>)>, usize) {
        let mut depth = 0usize;
        let mut res = Vec::new();
        for r in rows {
            let mut toks = Vec::new();
            for t in &r.toks {
                match t.k {
                    K::Open(_) => depth += 1,
                    K::Close if depth == 0 => continue,
                    K::Close => depth -= 1,
                    _ => {}
                }
                toks.push(t);
            }
            if !toks.is_empty() {
                res.push((r, toks));
            }
        }
        (res, depth)
    }

    /// A quotation which trims whitespace around it.
    fn body(&mut self, b: &Body, cx: Cx) -> Vec<Ir> {
        if cx.single {
            return self.single_body(b, cx);
        }
        let mark = self.scope.len();
        let mut ir = Vec::new();
        let (rows, unclosed) = Self::balanced(&b.rows);
        self.prev = Prev::Start;
        self.after_fn = false;
        if b.lead % 7 <= 3 || rows.is_empty() {
            self.spaces((b.lead % 4) as usize);
        } else {
            for _ in 0..(b.lead % 7 - 3) {
                self.raw("\n");
            }
            self.spaces(4 + (b.base % 24) as usize);
        }
        let close = Tok { gap: 0, k: K::Close };
        let mut enclosing: Vec<usize> = Vec::new();
        let mut cur = self.col;
        let mut open: Vec<u8> = Vec::new();
        let mut comment = false;
        let count = rows.len();
        let mut inner = cx;
        for (i, (row, toks)) in rows.into_iter().enumerate() {
            self.rows += 1;
            if i > 0 {
                for _ in 0..=Self::size(row.blank, 4) {
                    self.raw("\n");
                }
                let mut level = 0;
                if let Some(n) = row.bad {
                    let free: Vec<usize> = (0..cur).filter(|c| !enclosing.contains(c)).collect();
                    if !free.is_empty() {
                        cur = free[n as usize % free.len()];
                        if !self.hidden {
                            self.bad.push(self.line);
                        }
                        while enclosing.last().is_some_and(|c| *c > cur) {
                            enclosing.pop();
                        }
                    }
                } else if row.col > 0 {
                    enclosing.push(cur);
                    cur += row.col as usize;
                    level = 1;
                    self.levels += 1;
                } else if row.col < 0 {
                    for _ in 0..row.col.unsigned_abs() {
                        if let Some(c) = enclosing.pop() {
                            cur = c;
                            level -= 1;
                        }
                    }
                }
                self.spaces(cur);
                self.prev = Prev::Start;
                if level != 0 {
                    ir.push(Ir::I(MI::Ind(level)));
                } else {
                    ir.push(Ir::I(MI::Push));
                }
                if Self::size(row.blank, 4) > 0 {
                    ir.push(Ir::I(MI::Line));
                }
            }
            comment = false;
            for (j, t) in toks.iter().enumerate() {
                if j > 0 && self.gap(t.gap, Self::first_char(&t.k)) {
                    ir.push(Ir::I(MI::Space));
                }
                inner.no_comma = cx.no_comma && open.is_empty();
                let first = i == 0 && j == 0;
                self.tok(&t.k, inner, first, &mut open, &mut ir);
            }
            if i + 1 == count {
                for _ in 0..unclosed {
                    self.tok(&close.k, inner, false, &mut open, &mut ir);
                }
            }
            match row.end % 4 {
                2 => self.spaces(2),
                3 => {
                    self.raw(" // c");
                    comment = true;
                }
                _ => {}
            }
        }
        match b.tail % 6 {
            1 | 2 if !comment => self.spaces((b.tail % 6) as usize),
            3 => {
                self.raw("\n");
                self.spaces((b.base % 9) as usize);
            }
            4 => {
                self.raw("\n\n");
                self.spaces((b.base % 5) as usize);
            }
            _ if comment => self.raw("\n"),
            _ => {}
        }
        if !enclosing.is_empty() {
            ir.push(Ir::I(MI::Ind(-(enclosing.len() as i32))));
        }
        self.scope.truncate(mark);
        self.prev = Prev::Other;
        self.after_fn = false;
        ir
    }

    fn flat(b: &Body) -> (Vec<&Tok>, usize) {
        let (rows, unclosed) = Self::balanced(&b.rows);
        (rows.into_iter().flat_map(|r| r.1).collect(), unclosed)
    }

    fn flat_toks(&mut self, b: &Body, cx: Cx) -> Vec<Ir> {
        let (toks, unclosed) = Self::flat(b);
        let mut ir = Vec::new();
        let mut open = Vec::new();
        let mut inner = cx;
        for (j, t) in toks.iter().enumerate() {
            if j > 0 && self.gap(t.gap, Self::first_char(&t.k)) {
                ir.push(Ir::I(MI::Space));
            }
            inner.no_comma = cx.no_comma && open.is_empty();
            self.tok(&t.k, inner, j == 0, &mut open, &mut ir);
        }
        for _ in 0..unclosed {
            self.tok(&K::Close, inner, false, &mut open, &mut ir);
        }
        ir
    }

    fn single_body(&mut self, b: &Body, cx: Cx) -> Vec<Ir> {
        let mark = self.scope.len();
        self.prev = Prev::Start;
        self.after_fn = false;
        self.spaces((b.lead % 4) as usize);
        let ir = self.flat_toks(b, cx);
        self.spaces((b.tail % 3) as usize);
        self.scope.truncate(mark);
        self.prev = Prev::Other;
        self.after_fn = false;
        ir
    }

    /// A quotation in parentheses which keeps leading and trailing spaces.
    fn inline(&mut self, b: &Body, cx: Cx) -> Vec<Ir> {
        let mark = self.scope.len();
        self.prev = Prev::Start;
        self.after_fn = false;
        let mut ir = Vec::new();
        let (lead, tail) = ((b.lead % 4) as usize, (b.tail % 3) as usize);
        self.spaces(lead);
        if lead > 0 {
            ir.push(Ir::I(MI::Space));
        }
        ir.extend(self.flat_toks(b, cx));
        self.spaces(tail);
        if tail > 0 {
            ir.push(Ir::I(MI::Space));
        }
        self.scope.truncate(mark);
        self.prev = Prev::Other;
        self.after_fn = false;
        ir
    }

    // -------------------------------------------------------------- tokens

    fn plain(&mut self, source: &str, text: &str, ir: &mut Vec<Ir>) {
        self.raw(source);
        self.set_prev(source);
        ir.push(lit(text));
    }

    fn tok(&mut self, k: &K, cx: Cx, first: bool, open: &mut Vec<u8>, ir: &mut Vec<Ir>) {
        let after_fn = std::mem::take(&mut self.after_fn);
        let mut sub = Cx { no_comma: false, in_loop: false, no_shadow: false, ..cx };
        match k {
            K::Word(n) => {
                let s = WORDS[*n as usize % WORDS.len()];
                self.plain(s, s, ir);
            }
            K::Num(n) => {
                let s = NUMS[*n as usize % NUMS.len()];
                self.plain(s, s, ir);
            }
            K::Punct(n) => {
                let mut s = PUNCTS[*n as usize % PUNCTS.len()];
                if s == "," && cx.no_comma {
                    s = ";";
                }
                self.plain(s, s, ir);
            }
            K::Lit(n) => {
                let (s, t) = pick(&LITS, *n, 8, cx.single);
                self.plain(s, t, ir);
            }
            K::Str(n) => {
                let (s, t) = pick(&STRS, *n, 7, cx.single);
                self.raw(s);
                self.set_prev(s);
                // What a documentation comment stands for.
                if s.starts_with('/') {
                    ir.push(lit(if s.starts_with("/*!") { "#![doc=" } else { "#[doc=" }));
                }
                ir.push(Ir::Str(false, vec![lit(t)]));
                if s.starts_with('/') {
                    ir.push(lit("]"));
                } else if !s.ends_with(['"', '#']) {
                    ir.push(lit(&s[s.rfind('"').unwrap() + 1..]));
                }
            }
            K::Open(d) => {
                let mut d = d % 3;
                // An argument list, or the block form of a match arm, otherwise.
                if (after_fn && d == 0) || (first && cx.no_comma) {
                    d = 1;
                }
                open.push(d);
                let s = ["(", "[", "{"][d as usize];
                self.plain(s, s, ir);
            }
            K::Close => {
                let d = open.pop().unwrap_or(0);
                let s = [")", "]", "}"][d as usize];
                self.plain(s, s, ir);
            }
            K::Dollar => {
                self.plain("$$", "$", ir);
                self.prev = Prev::Other;
            }
            K::Esc(n) => {
                let (s, i) = [
                    ("$[' ']", MI::Space),
                    ("$['\\r']", MI::Push),
                    ("$['\\n']", MI::Line),
                ][*n as usize % 3]
                    .clone();
                self.raw(s);
                self.prev = Prev::Other;
                self.after_fn = true;
                ir.push(Ir::I(i));
            }
            K::Special(n) => {
                let n = n % 9;
                self.raw(&format!("$sv{n}"));
                self.prev = Prev::Word;
                ir.push(Ir::Sub(special(n)));
            }
            K::Var(n) => {
                let v = &self.scope[self.scope.len() - 1 - (*n as usize % self.scope.len())];
                let v = v.0.clone();
                self.raw(&format!("${v}"));
                self.prev = Prev::Word;
                ir.push(Ir::Var(v));
            }
            K::Expr(n, v) => {
                let v = self.int(*v);
                let mut n = n % 9;
                if n == 4 && cx.single {
                    n = 0;
                }
                if n == 1 {
                    self.raw("$(\"lit $ \\\"text\")");
                    ir.push(lit("lit $ \"text"));
                } else {
                    let id = self.id();
                    ir.push(Ir::Log(id));
                    match n {
                        2 => {
                            self.raw(&format!("$(lg(l, {id}, format!(\"f{{}}\", {v})))"));
                            ir.push(Ir::Var(format!("=f{v}")));
                        }
                        3 => {
                            self.raw(&format!("$(quoted(lg(l, {id}, \"q \\\"s\")))"));
                            ir.push(Ir::Str(false, vec![lit("q \"s")]));
                        }
                        4 => {
                            self.raw(&format!("$(\n   lg(l, {id},\n {v})\n )"));
                            ir.push(Ir::Var(v));
                        }
                        5 => {
                            self.raw(&format!("$( lg(l, {id}, sv2) )"));
                            ir.push(Ir::Sub(special(2)));
                        }
                        6 => {
                            self.raw(&format!("$({{ let z = {v}; lg(l, {id}, z) }})"));
                            ir.push(Ir::Var(v));
                        }
                        7 => {
                            self.raw(&format!("$(quoted(lg(l, {id}, {v}).to_string()))"));
                            ir.push(Ir::Quoted(vec![Ir::Var(v)]));
                        }
                        8 => {
                            self.raw(&format!("$(vec![lg(l, {id}, sv0), sv0])"));
                            ir.push(Ir::Sub(special(0)));
                            ir.push(Ir::Sub(special(0)));
                        }
                        _ => {
                            self.raw(&format!("$(lg(l, {id}, {v}))"));
                            ir.push(Ir::Var(v));
                        }
                    }
                }
                self.prev = Prev::Other;
            }
            K::Count => {
                self.raw("$(tick(c))");
                self.prev = Prev::Other;
                ir.push(Ir::Count);
            }
            K::Try(form, o) => {
                let id = self.id();
                let o = o % 2;
                ir.push(Ir::Log(id));
                if cx.in_fn {
                    self.raw(&format!("$(lg(l, {id}, n0))"));
                    ir.push(Ir::Var("n0".into()));
                } else {
                    self.has_try = true;
                    let e = format!("lg(l, {id}, o{o})");
                    let (text, value) = match form % 10 {
                        0 => (format!("$({e}?)"), true),
                        1 => (format!("$(ref _ {{ {e}?; }})"), false),
                        2 => (format!("$({{ let v = {e}?; v }})"), true),
                        3 => (format!("$(loop {{ break {e}?; }})"), true),
                        4 => (format!("$(({e}?,).0)"), true),
                        5 => (format!("$((match {e} {{ Some(v) => v, None => return None }}))"), true),
                        6 => (format!("$(ref _ {{ let Some(_) = {e} else {{ return None }}; }})"), false),
                        7 => (format!("$(unsafe {{ {e}? }})"), true),
                        8 => (format!("$({{ if {e}.is_none() {{ return None; }} n0 }})"), false),
                        _ => (format!("$({{ {e}?; n0 }})"), false),
                    };
                    self.raw(&text);
                    ir.push(Ir::Try(o));
                    if value {
                        ir.push(Ir::Var(format!("=o{o}")));
                    } else if form % 10 >= 8 {
                        ir.push(Ir::Var("n0".into()));
                    }
                }
                self.prev = Prev::Other;
            }
            K::Skip(brk, c) => {
                if first && cx.in_loop {
                    let (s, c) = self.cond(*c);
                    let w = if *brk { "break" } else { "continue" };
                    self.raw(&format!("$(ref _ {{ if {s} {{ {w}; }} }})"));
                    ir.push(Ir::Skip(*brk, c));
                } else {
                    self.raw("$(ref _ {})");
                }
                self.prev = Prev::Other;
            }
            K::Let(form, v, shadow, tr) => {
                let id = self.id();
                let v = self.int(*v);
                let (s, e) = match form / 3 % 3 {
                    0 => ("n0".to_string(), IntE::N0),
                    1 => (format!("{v} + 1"), IntE::Plus1(v.clone())),
                    _ => ("xs0.len() as i64".to_string(), IntE::Len),
                };
                let e_of = |s: &str| format!("lg(l, {id}, {s})");
                let pair = form % 3 == 1;
                let s = if pair { format!("{{ let z = {}; (z, z + 1) }}", e_of(&s)) } else { e_of(&s) };
                let (s, t) = self.tried(*tr, cx, &s);
                ir.extend(t.map(Ir::Try));
                ir.push(Ir::Log(id));
                if pair {
                    let (a, b) = (self.name(), self.name());
                    self.raw(&format!("$(let ({a}, {b}) = {s})"));
                    ir.push(Ir::Let(a.clone(), e));
                    ir.push(Ir::Let2(b.clone(), a.clone()));
                    self.scope.push((a, true));
                    self.scope.push((b, true));
                } else {
                    let name = if *shadow && !cx.no_shadow { v } else { self.name() };
                    let m = if form % 3 == 2 { "mut " } else { "" };
                    self.raw(&format!("$(let {m}{name} = {s})"));
                    ir.push(Ir::Let(name.clone(), e));
                    self.scope.push((name, true));
                }
                self.prev = Prev::Other;
            }
            K::Ref(n) => {
                self.ctl += 1;
                let id = self.id();
                ir.push(Ir::Log(id));
                match n % 4 {
                    0 => {
                        self.raw(&format!("$(ref t => t.append(lg(l, {id}, \"r0\")))"));
                        ir.push(lit("r0"));
                    }
                    1 => {
                        self.raw(&format!(
                            "$(ref t {{ t.space(); t.append(lg(l, {id}, \"r1\")); }})"
                        ));
                        ir.push(Ir::I(MI::Space));
                        ir.push(lit("r1"));
                    }
                    2 => {
                        self.raw(&format!("$(ref _ => lg(l, {id}, ());)"));
                    }
                    _ => {
                        self.raw(&format!(
                            "$(ref t => lg(l, {id}, ()); for _ in 0..n0 {{ t.push(); t.append(\"r3\"); }})"
                        ));
                        ir.push(Ir::Repeat(vec![Ir::I(MI::Push), lit("r3")]));
                    }
                }
                self.prev = Prev::Other;
            }
            K::RefQuote(b) => {
                self.ctl += 1;
                let hidden = self.hidden;
                self.hidden |= self.off;
                self.raw("$(ref t { quote_in!(*t => ");
                ir.push(Ir::Scoped(self.body(b, sub)));
                self.raw(") })");
                self.hidden = hidden;
                self.prev = Prev::Other;
            }
            K::Nested(form, b) => {
                self.ctl += 1;
                let hidden = self.hidden;
                self.hidden |= self.off;
                match form % 3 {
                    0 => {
                        self.raw("$(quote!(");
                        ir.push(Ir::SubIr(self.body(b, sub)));
                        self.raw("))");
                    }
                    1 => {
                        self.raw("$({ let q: T = quote!{");
                        ir.push(Ir::SubIr(self.body(b, sub)));
                        self.raw("}; q })");
                    }
                    _ => {
                        sub.in_fn = true;
                        self.raw("$(quote_fn!(");
                        ir.push(Ir::Scoped(self.body(b, sub)));
                        self.raw("))");
                    }
                }
                self.hidden = hidden;
                self.prev = Prev::Other;
            }
            K::For { src, join, brace, body, tr } => {
                self.ctl += 1;
                let mark = self.scope.len();
                let log = self.id();
                let var = self.name();
                let mut idx = None;
                let (pat, s, src, int) = match src % 11 {
                    0 => (var.clone(), "xs0.clone()", Src::Xs0, true),
                    1 => (var.clone(), "xs1.iter().copied()", Src::Xs1, true),
                    2 => (format!("&{var}"), "xs0", Src::Xs0, true),
                    3 => {
                        let i = self.name();
                        idx = Some(i.clone());
                        (format!("({i}, {var})"), "xs1.iter().copied().enumerate()", Src::Enum, true)
                    }
                    4 => (var.clone(), "ss.clone()", Src::Ss, false),
                    5 => (var.clone(), "0..n0", Src::Range, true),
                    6 => (var.clone(), "o0", Src::Opt, true),
                    7 => (var.clone(), "xs0.iter().copied().filter(|x| *x > 1)", Src::Filter, true),
                    8 => (format!("&{var}"), "xs1.iter().rev()", Src::Rev, true),
                    9 => (
                        var.clone(),
                        "{ let mut k = n0; std::iter::from_fn(move || { k -= 1; if k < 0 { None } else { Some(k) } }) }",
                        Src::FromFn,
                        true,
                    ),
                    _ => (var.clone(), "\"a:é\".split(':')", Src::Split, false),
                };
                let (s, t) = self.tried(*tr, cx, &format!("lg(l, {log}, {s})"));
                ir.extend(t.map(Ir::Try));
                self.raw(&format!("$(for {pat} in {s}"));
                if let Some(i) = &idx {
                    self.scope.push((i.clone(), false));
                }
                self.scope.push((var.clone(), int));
                let join_ir = join.as_ref().map(|j| {
                    self.raw(" join (");
                    let r = self.inline(j, sub);
                    self.raw(")");
                    r
                });
                sub.in_loop = join.is_none();
                sub.no_shadow = join.is_some();
                let body_ir = self.arrow_or_brace(*brace, body, sub);
                self.raw(")");
                self.scope.truncate(mark);
                ir.push(Ir::For { src, log, var, idx, join: join_ir, body: body_ir });
                self.prev = Prev::Other;
            }
            K::If { cond, form, then, els, tr } => {
                self.ctl += 1;
                let mark = self.scope.len();
                let log = self.id();
                let bind = cond % 9 >= 7;
                let var = self.name();
                let opt = cond % 9 % 2;
                let (s, c) = self.cond(*cond);
                let s = if bind { format!("o{opt}") } else { s };
                let (s, t) = self.tried(*tr, cx, &format!("lg(l, {log}, {s})"));
                ir.extend(t.map(Ir::Try));
                if bind {
                    self.raw(&format!("$(if let Some({var}) = {s}"));
                    self.scope.push((var.clone(), true));
                } else {
                    self.raw(&format!("$(if {s}"));
                }
                let then = self.arrow_or_brace(form % 3 != 0, then, sub);
                self.scope.truncate(mark);
                let mut els_ir = Vec::new();
                if form % 3 == 2 {
                    self.raw(" else {");
                    els_ir = self.body(els, sub);
                    self.raw("}");
                }
                self.raw(")");
                ir.push(if bind {
                    Ir::IfLet { log, opt, var, then, els: els_ir }
                } else {
                    Ir::If { log, cond: c, then, els: els_ir }
                });
                self.prev = Prev::Other;
            }
            K::Match { subj, tr, arms, last } => {
                self.ctl += 1;
                let log = self.id();
                let subj = subj % 2;
                let (s, t) = self.tried(*tr, cx, &format!("lg(l, {log}, e{subj})"));
                ir.extend(t.map(Ir::Try));
                self.raw(&format!("$(match {s} {{"));
                let mut res = Vec::new();
                for a in arms {
                    let mark = self.scope.len();
                    self.raw(if cx.single { " " } else { "\n      " });
                    let keep = match a.attr % 8 {
                        1 => {
                            self.raw("#[cfg(all())] ");
                            true
                        }
                        2 => {
                            self.raw("#[cfg(any())] ");
                            false
                        }
                        3 => {
                            self.raw("#[allow(unused)] ");
                            true
                        }
                        _ => true,
                    };
                    let v = self.name();
                    let w = self.name();
                    let (s, pat) = match a.pat % 7 {
                        0 => ("E::A".to_string(), Pat::A),
                        1 => {
                            self.scope.push((v.clone(), true));
                            (format!("E::B({v})"), Pat::B(v))
                        }
                        2 => {
                            self.scope.push((w.clone(), false));
                            self.scope.push((v.clone(), true));
                            (format!("E::C {{ s: {w}, n: {v} }}"), Pat::C(w, v))
                        }
                        3 => ("E::A | E::B(_)".into(), Pat::AB),
                        4 => {
                            self.scope.push((v.clone(), true));
                            (format!("E::B({v}) | E::C {{ n: {v}, .. }}"), Pat::BC(v))
                        }
                        5 => ("| E::C { .. }".into(), Pat::AnyC),
                        _ => ("_".into(), Pat::Any),
                    };
                    self.raw(&s);
                    let guard = a.guard.map(|g| {
                        let id = self.id();
                        let (s, c) = self.cond(g);
                        let (s, t) = self.tried(a.tr, cx, &format!("lg(l, {id}, {s})"));
                        self.raw(&format!(" if {s}"));
                        (t, id, c)
                    });
                    self.raw(" => ");
                    let off = self.off;
                    self.off |= !keep;
                    let block = self.arm(a.style, &a.body, sub);
                    self.off = off;
                    if a.style % 3 == 2 || a.comma {
                        self.raw(",");
                    }
                    self.scope.truncate(mark);
                    if keep {
                        res.push((pat, guard, block));
                    }
                }
                self.raw(if cx.single { " " } else { "\n    " });
                let mut block = Vec::new();
                match last % 5 {
                    0 => self.raw("_ => {}"),
                    1 => self.raw("_ => (),"),
                    2 => {
                        self.raw("_ => ( )");
                        block.push(Ir::I(MI::Space));
                    }
                    3 => {
                        self.raw("_ => last");
                        block.push(lit("last"));
                    }
                    _ => self.raw("_ =>,"),
                }
                res.push((Pat::Any, None, block));
                self.raw(" })");
                ir.push(Ir::Match { log, subj, arms: res });
                self.prev = Prev::Other;
            }
            K::StrFn(pieces, tail) => {
                // Assignments within are seen by what follows.
                sub.no_shadow = cx.no_shadow;
                self.str_fn(pieces, *tail, sub, ir);
            }
            K::Raw(s) => {
                self.raw(s);
                self.prev = Prev::Other;
            }
        }
    }

    fn arm(&mut self, style: u8, b: &Body, cx: Cx) -> Vec<Ir> {
        match style % 3 {
            0 => {
                self.raw("{");
                let r = self.body(b, cx);
                self.raw("}");
                r
            }
            1 => {
                self.raw("(");
                let r = self.inline(b, cx);
                self.raw(")");
                r
            }
            _ => self.body(b, Cx { no_comma: true, ..cx }),
        }
    }

    fn arrow_or_brace(&mut self, brace: bool, b: &Body, cx: Cx) -> Vec<Ir> {
        if brace {
            self.raw(" {");
            let r = self.body(b, cx);
            self.raw("}");
            r
        } else {
            self.raw(" => ");
            self.body(b, cx)
        }
    }

    fn str_fn(&mut self, pieces: &[SP], tail: u8, cx: Cx, ir: &mut Vec<Ir>) {
        self.raw("$[str](");
        self.prev = Prev::Start;
        let mut sub: Vec<Ir> = Vec::new();
        let mut open: Vec<u8> = Vec::new();
        let mut eval = false;
        let cx = Cx { single: true, ..cx };
        for p in pieces {
            let first = match &p.k {
                SK::Word(n) => WORDS[*n as usize % WORDS.len()],
                SK::Num(n) => NUMS[*n as usize % NUMS.len()],
                SK::Punct(n) => PUNCTS[*n as usize % PUNCTS.len()],
                SK::Lit(n) => LITS[*n as usize % LITS.len()].0,
                SK::Str(n) => STRS[*n as usize % 7].0,
                SK::Open(_) => "(",
                SK::Close if open.is_empty() => continue,
                SK::Close => ")",
                _ => "$",
            };
            let mut gap = Self::size(p.gap, 5);
            if gap == 0 && self.glues(first.chars().next().unwrap()) {
                gap = 1;
            }
            if gap > 0 {
                self.spaces(gap);
                sub.push(lit(&" ".repeat(gap)));
                self.prev = Prev::Start;
            }
            match &p.k {
                SK::Word(_) | SK::Num(_) | SK::Punct(_) | SK::Lit(_) | SK::Str(_) => {
                    self.plain(first, first, &mut sub);
                }
                SK::Open(d) => {
                    open.push(d % 3);
                    let s = ["(", "[", "{"][(d % 3) as usize];
                    self.plain(s, s, &mut sub);
                }
                SK::Close => {
                    let s = [")", "]", "}"][open.pop().unwrap_or(0) as usize];
                    self.plain(s, s, &mut sub);
                }
                SK::Dollar => {
                    self.plain("$$", "$", &mut sub);
                    self.prev = Prev::Other;
                }
                SK::ConstLit(n) => {
                    let (s, t) = STRS[*n as usize % 10];
                    self.raw(&format!("$[const]({s})"));
                    sub.push(lit(t));
                    self.prev = Prev::Other;
                }
                SK::ConstExpr(n) => {
                    let id = self.id();
                    sub.push(Ir::Log(id));
                    if n % 2 == 0 {
                        let v = self.int(n / 2);
                        self.raw(&format!("$[const](lg(l, {id}, {v}))"));
                        sub.push(Ir::Var(v));
                    } else {
                        self.raw(&format!("$[const]( lg(l, {id}, sv1) )"));
                        sub.push(Ir::Sub(special(1)));
                    }
                    self.prev = Prev::Other;
                }
                SK::Ident(n) => {
                    let v = WORDS[*n as usize % 4];
                    self.raw(&format!("${v}"));
                    sub.push(Ir::I(MI::OEval));
                    sub.push(lit(v));
                    sub.push(Ir::I(MI::CEval));
                    eval = true;
                    self.prev = Prev::Word;
                }
                SK::Eval(b) => {
                    self.raw("$(");
                    sub.push(Ir::I(MI::OEval));
                    sub.extend(self.inline(b, cx));
                    sub.push(Ir::I(MI::CEval));
                    self.raw(")");
                    eval = true;
                    self.prev = Prev::Other;
                }
            }
        }
        while let Some(d) = open.pop() {
            self.plain([")", "]", "}"][d as usize], [")", "]", "}"][d as usize], &mut sub);
        }
        let n = Self::size(tail, 4);
        if n > 0 {
            self.spaces(n);
            sub.push(lit(&" ".repeat(n)));
        }
        self.raw(")");
        if eval {
            self.evals += 1;
        }
        self.prev = Prev::Other;
        ir.push(Ir::Str(eval, sub));
    }

    /// The body of a macro invocation.
    pub fn top(&mut self, b: &Body, in_fn: bool) -> Vec<Ir> {
        self.first_name = format!("{b:?}").len();
        self.body(b, Cx { in_fn, ..PLAIN })
    }
}

/// The special values `sv0`..: text, text, lines, block, nothing, empty text, line breaks.
pub fn special(n: u8) -> Vec<MI> {
    let l = |s: &str| MI::Lit(s.into());
    match n {
        0 => vec![l("val")],
        1 => vec![l("own text")],
        2 => vec![l("l1"), MI::Push, l("l2")],
        3 => vec![l("{"), MI::Ind(1), l("x"), MI::Ind(-1), l("}")],
        4 => vec![],
        5 => vec![l("")],
        6 => vec![MI::Push],
        7 => vec![MI::Push, l("m1")],
        _ => vec![l("w"), MI::Line],
    }
}

/// Names of variables bound in quotations.
const LOCALS: [&str; 28] = [
    "it", "toks", "iter", "item", "tokens", "i", "receiver", "items", "x", "next", "tok", "peek", "first", "last", "value",
    "join", "stream", "content", "s", "output", "expr", "name", "end", "index", "inner", "list", "union", "módulo",
];

/// Local variables of a generated program.
pub const VARS: &str = "    let D { xs0, xs1, ss, b0, b1, o0, o1, e0, e1, n0 } = d;
    let (b0, b1, o0, o1, e0, e1, n0) = (*b0, *b1, *o0, *o1, *e0, *e1, *n0);
    let (sv0, sv1, sv2, sv3) = (\"val\", &String::from(\"own text\"), &multi(false, &[\"l1\", \"l2\"]), &block());
    let (sv4, sv5, sv6, sv7, sv8) = (None::<&str>, \"\", &only_push(), &multi(true, &[\"m1\"]), &word_line());
";
