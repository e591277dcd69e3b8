//! C12, C14, C15, C16: compiled quotations against the reference meaning.

use serde::{Deserialize, Serialize};

use crate::eval::{prior, show, Data, Flow, Run};
use crate::gen::{self, Rng, Style};
use crate::quo::{Body, Em, Ir, Tok, K, VARS};
use crate::run::Ctx;
use crate::rustc::{Outcome, Rustc};
use crate::search::{search, Part, Program};
use crate::stream::{Model, MI};

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Case {
    pub body: Body,
    pub data: Vec<Data>,
    pub form: u8,
    pub delim: u8,
    pub prior: u8,
    pub indent: u8,
}

pub struct Meta {
    ir: Vec<Ir>,
    has_try: bool,
    /// Lines of misplaced rows.
    pub bad: Vec<usize>,
}

const DELIMS: [(&str, &str); 3] = [("(", ")"), ("{", "}"), ("[", "]")];

fn harness(case: &Case, fns: &[(&str, String)]) -> String {
    let mut s = String::from("pub fn run() -> Vec<String> {\n    let mut out = Vec::new();\n");
    for d in &case.data {
        s.push_str(&format!("    {{ let d = &{};\n", d.source()));
        for (f, _) in fns {
            s.push_str(&format!("        {f}(d, &mut out);\n"));
        }
        s.push_str("    }\n");
    }
    s.push_str("    out\n}\n");
    s
}

/// A single form, into an empty stream.
pub fn simple(case: &Case) -> Program<Meta> {
    let mut em = Em::new();
    let form = case.form % 3;
    em.raw("fn one(d: &D, out: &mut Vec<String>) {\n    let (l, c) = (&Log::default(), &Counter::default());\n");
    em.raw("    let r = (|| -> Option<T> {\n");
    em.raw(VARS);
    let pad = " ".repeat((case.indent % 12) as usize);
    let (a, b) = DELIMS[(case.delim % 3) as usize];
    em.raw(&pad);
    let ir = match form {
        0 => {
            em.raw(&format!("let t: T = quote!{a}"));
            let ir = em.top(&case.body, false);
            em.raw(&format!("{b};\n"));
            ir
        }
        1 => {
            em.raw("let mut t = T::new();\n");
            em.raw(&format!("{pad}quote_in!{a}t => "));
            let ir = em.top(&case.body, false);
            em.raw(&format!("{b};\n"));
            ir
        }
        _ => {
            em.raw("let mut t = T::new();\n");
            em.raw(&format!("{pad}t.append(quote_fn!{a}"));
            let ir = em.top(&case.body, true);
            em.raw(&format!("{b});\n"));
            ir
        }
    };
    em.raw("    Some(t)\n    })();\n    out.push(r.map(|t| show(&t)).unwrap_or_default());\n    out.push(show_log(l));\n}\n");
    let nontrivial = em.rows > 1 || em.ctl > 0 || em.evals > 0;
    let bad = em.bad.clone();
    let mut src = em.out;
    src.push_str(&harness(case, &[("one", String::new())]));
    Program {
        src,
        meta: Meta { ir, has_try: em.has_try, bad },
        nontrivial,
    }
}

fn list(log: &[u32]) -> String {
    format!("{log:?}")
}

pub fn want_simple(case: &Case, m: &Meta, logs: bool) -> Vec<String> {
    let mut want = Vec::new();
    for d in &case.data {
        let mut run = Run::new(d);
        let mut t = Model::default();
        let f = run.run(&m.ir, &mut t);
        want.push(if f == Flow::Abort { String::new() } else { show(&t) });
        want.push(if logs { list(&run.log) } else { String::new() });
    }
    want
}

pub fn outputs<'o>(o: &'o Outcome) -> Result<&'o Vec<String>, String> {
    match o {
        Outcome::Out(v) => Ok(v),
        Outcome::Errors(e) => Err(format!(
            "does not compile: {}",
            e.iter()
                .take(3)
                .map(|d| format!("line {}: {} {}", d.line + 1, d.code, d.msg))
                .collect::<Vec<_>>()
                .join("; ")
        )),
        Outcome::Panic(p) => Err(format!("panics: {p}")),
        Outcome::Died(p) => Err(p.clone()),
        Outcome::Compiled => Err("not run".into()),
    }
}

pub fn compare(want: &[String], got: &[String], what: &dyn Fn(usize) -> String) -> Result<(), String> {
    for (i, w) in want.iter().enumerate() {
        let g = got.get(i).map(String::as_str).unwrap_or("<missing>");
        if w != g {
            return Err(format!("{}: expected {w:?}\n     got {g:?}", what(i)));
        }
    }
    Ok(())
}

fn judge_simple(case: &Case, p: &Program<Meta>, o: &Outcome) -> Result<(), String> {
    let got = outputs(o)?;
    let want = want_simple(case, &p.meta, true);
    compare(&want, got, &|i| {
        format!("data {}, {}", i / 2, if i % 2 == 0 { "rendering" } else { "evaluated places" })
    })
}

pub fn case(r: &mut Rng, s: &Style, datas: u64) -> Case {
    Case {
        body: gen::body(r, s, 0),
        data: (0..datas).map(|_| gen::data(r)).collect(),
        form: r.u8(3),
        delim: r.u8(3),
        prior: r.u8(7),
        indent: r.u8(72),
    }
}

pub const LAYOUT: Style = Style {
    plain: 30,
    groups: 8,
    esc: 3,
    interp: 5,
    ctl: 1,
    strs: 1,
    effects: 0,
    tries: 0,
    rows: 8,
    toks: 5,
    bad: 0,
};

const CONTROL: Style = Style {
    plain: 12,
    groups: 3,
    esc: 3,
    interp: 8,
    ctl: 8,
    strs: 1,
    effects: 2,
    tries: 0,
    rows: 4,
    toks: 4,
    bad: 0,
};

const EFFECTS: Style = Style {
    plain: 8,
    groups: 2,
    esc: 2,
    interp: 8,
    ctl: 7,
    strs: 2,
    effects: 6,
    tries: 2,
    rows: 4,
    toks: 4,
    bad: 0,
};

const STRINGS: Style = Style {
    plain: 8,
    groups: 2,
    esc: 2,
    interp: 6,
    ctl: 1,
    strs: 6,
    effects: 1,
    tries: 0,
    rows: 2,
    toks: 4,
    bad: 0,
};

pub fn c12(cx: &mut Ctx, rc: &Rustc) {
    let cases = cx.n(8000, 150_000);
    search(
        cx,
        rc,
        Part {
            name: "layout",
            rule: "more than one row, a nested quotation or a string with interpolation; random token kinds, gaps, columns, empty lines, groups over several rows, interpolations and escapes, compiled and run; oracle: rows, levels and gaps by construction, rendered by the reference renderer, with a probe for the final indentation",
            cases,
            batch: 50,
            run: true,
            gen: &|r| case(r, &LAYOUT, 1),
            build: &simple,
            judge: &judge_simple,
        },
    );
}

pub fn c14(cx: &mut Ctx, rc: &Rustc) {
    let cases = cx.n(5000, 100_000);
    search(
        cx,
        rc,
        Part {
            name: "control",
            rule: "more than one row, a nested quotation or a string with interpolation; random nestings of loops, conditionals, matches, assignments, scopes and quotations, each run on six data sets; oracle: the same control flow executed on the reference stream",
            cases,
            batch: 32,
            run: true,
            gen: &|r| {
                let mut c = case(r, &CONTROL, 6);
                if c.body.rows.iter().all(|r| r.toks.iter().all(|t| matches!(t.k, K::Word(_) | K::Punct(_)))) {
                    let k = gen::control(r, &CONTROL, 0);
                    let gap = gen::gap(r);
                    if let Some(row) = c.body.rows.first_mut() {
                        row.toks.push(Tok { gap, k });
                    }
                }
                c
            },
            build: &simple,
            judge: &judge_simple,
        },
    );
}

pub fn c16(cx: &mut Ctx, rc: &Rustc) {
    let cases = cx.n(8000, 150_000);
    search(
        cx,
        rc,
        Part {
            name: "strings",
            rule: "more than one row, a nested quotation or a string with interpolation; a string of up to eight source tokens, groups, runs of spaces, escapes, constant parts and interpolations per case, with strings within their interpolations; oracle: the text between the parentheses as written",
            cases,
            batch: 50,
            run: true,
            gen: &|r| {
                let mut c = case(r, &STRINGS, 1);
                let gap = gen::gap(r);
                let k = gen::str_fn(r, &STRINGS, 0);
                match c.body.rows.first_mut() {
                    Some(row) => row.toks.push(Tok { gap, k }),
                    None => unreachable!("top-level bodies have rows"),
                }
                c
            },
            build: &simple,
            judge: &judge_simple,
        },
    );
}

/// What is quoted into.
const DSTS: [(&str, &str); 6] = [
    ("NEW", "t"),
    ("NEW", "*lg(l, 7777, &mut t)"),
    ("(0, NEW)", "t.1"),
    ("[T::new(), NEW]", "t[lg(l, 7777, 1)]"),
    ("NEW", "*{ lg(l, 7777, 0); &mut t }"),
    ("vec![T::new(), NEW]", "*t.iter_mut().nth(lg(l, 7777, 1)).unwrap()"),
];

/// All three forms, appended to the same prior content.
fn forms(case: &Case) -> Program<Meta> {
    let mut em = Em::new();
    let pad = " ".repeat((case.indent % 12) as usize);
    let (a, b) = DELIMS[(case.delim % 3) as usize];
    let k = case.prior % 7;
    let mut body = case.body.clone();
    // The first token is plain text, so that what precedes the quotation stays as it is.
    if let Some(r) = body.rows.first_mut() {
        r.toks.insert(0, Tok { gap: 1, k: K::Word(0) });
    }
    let locals = "    let (l, c) = (&Log::default(), &Counter::default());\n";
    let mut fns = vec![("one", String::new()), ("two", String::new())];
    em.raw(&format!("fn one(d: &D, out: &mut Vec<String>) {{\n{locals}    let r = (|| -> Option<T> {{\n"));
    em.raw(VARS);
    em.raw(&format!("{pad}let t: T = quote!{a}"));
    let ir = em.top(&body, false);
    em.raw(&format!("{b};\n    Some(t)\n    }})();\n    let mut p = prior({k});\n    let done = r.is_some();\n    if let Some(t) = r {{ p.append(t); }}\n"));
    em.raw("    out.push(format!(\"{done} {}\", show(&p)));\n    out.push(show_log(l));\n}\n");
    let has_try = em.has_try;
    em.again();
    let (make, dst) = DSTS[(case.indent / 12) as usize % DSTS.len()];
    em.raw(&format!("fn two(d: &D, out: &mut Vec<String>) {{\n{locals}    let mut t = {};\n    let r = (|| -> Option<()> {{\n", make.replace("NEW", &format!("prior({k})"))));
    em.raw(VARS);
    em.raw(&format!("{pad}quote_in!{a}{dst} => "));
    em.top(&body, false);
    em.raw(&format!("{b};\n    Some(())\n    }})();\n    out.push(format!(\"{{}} {{}}\", r.is_some(), show({})));\n    out.push(show_log(l));\n}}\n", match make {
        "NEW" => "&t",
        "(0, NEW)" => "&t.1",
        _ => "&t[1]",
    }));
    if !has_try {
        fns.push(("three", String::new()));
        em.again();
        em.raw(&format!("fn three(d: &D, out: &mut Vec<String>) {{\n{locals}    let mut t = prior({k});\n"));
        em.raw(VARS);
        em.raw(&format!("{pad}let f = quote_fn!{a}"));
        em.top(&body, true);
        em.raw(&format!("{b};\n    let before = show_log(l);\n    t.append(f);\n    out.push(format!(\"{{before}} {{}}\", show(&t)));\n    out.push(show_log(l));\n}}\n"));
    }
    let nontrivial = em.ctl > 0 || em.rows > 1;
    let mut src = em.out.clone();
    src.push_str(&harness(case, &fns));
    Program { src, meta: Meta { ir, has_try, bad: Vec::new() }, nontrivial }
}

fn judge_forms(case: &Case, p: &Program<Meta>, o: &Outcome) -> Result<(), String> {
    let got = outputs(o)?;
    let mut want = Vec::new();
    for d in &case.data {
        let mut run = Run::new(d);
        let mut t = Model::default();
        let f = run.run(&p.meta.ir, &mut t);
        let log = list(&run.log);
        let mut into = prior(case.prior % 7);
        if f != Flow::Abort {
            for i in t.items.clone() {
                into.add(i);
            }
        }
        want.push(format!("{} {}", f != Flow::Abort, show(&into)));
        want.push(log.clone());
        if f != Flow::Abort {
            want.push(format!("true {}", show(&into)));
        } else {
            // What was quoted before leaving stays.
            let mut part = prior(case.prior % 7);
            Run::new(d).run(&p.meta.ir, &mut part);
            let open = |m: &MI| matches!(m, MI::Open(_) | MI::OEval);
            let close = |m: &MI| matches!(m, MI::Close | MI::CEval);
            let n = |f: &dyn Fn(&MI) -> bool| part.items.iter().filter(|m| f(m)).count();
            want.push(if n(&open) == n(&close) {
                format!("false {}", show(&part))
            } else {
                // Left within a string.
                got.get(want.len()).cloned().unwrap_or_default()
            });
        }
        want.push(if DSTS[(case.indent / 12) as usize % DSTS.len()].1.contains("lg(") {
            // The destination is evaluated first, and once.
            let mut log = run.log.clone();
            log.insert(0, 7777);
            list(&log)
        } else {
            log.clone()
        });
        if !p.meta.has_try {
            want.push(format!("[] {}", show(&into)));
            want.push(log);
        }
    }
    let per = want.len() / case.data.len().max(1);
    compare(&want, got, &|i| {
        format!(
            "data {}, {} {}",
            i / per.max(1),
            ["quote!", "quote_in!", "quote_fn!"][i % per.max(1) / 2],
            if i % 2 == 0 { "rendering" } else { "evaluated places" }
        )
    })
}

pub fn c15(cx: &mut Ctx, rc: &Rustc) {
    let cases = cx.n(3500, 70_000);
    search(
        cx,
        rc,
        Part {
            name: "forms",
            rule: "more than one row or a nested quotation; the same quotation with effects in every place that takes an expression, in all three forms onto seven prior contents, into a stream given by a variable, a field, an index or a call, with early return, break, continue and shared counters, on three data sets; oracle: reference meaning of the stream and of the order of evaluation",
            cases,
            batch: 20,
            run: true,
            gen: &|r| case(r, &EFFECTS, 3),
            build: &forms,
            judge: &judge_forms,
        },
    );
}
