//! C03: sinks and configurations.

use crate::model::*;
use crate::run::Ctx;
use genco::fmt::{self, Indentation};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::Write as _;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    ops: Vec<Op>,
    /// Extra nesting: `deep` indentation levels opened before the operations.
    deep: u16,
    /// Spaces per level; 201 means a tab.
    unit: u16,
    newline: u8,
}

const TAB: u16 = 201;
const NEWLINES: [&str; 6] = ["\n", "\r\n", "\r", "<nl>", "", "\u{2028}"];
const MARK: &str = "\u{1}NL\u{2}";

fn fmt_string(t: &T, c: &fmt::Config, file: bool) -> Result<String, String> {
    let mut w = fmt::FmtWriter::new(String::new());
    {
        let mut f = w.as_formatter(c);
        if file { t.format_file(&mut f, &()) } else { t.format(&mut f, &(), &()) }.map_err(|e| format!("fmt sink: {e:?}"))?;
    }
    Ok(w.into_inner())
}

fn io_string(t: &T, c: &fmt::Config, file: bool) -> Result<String, String> {
    let mut w = fmt::IoWriter::new(Vec::new());
    {
        let mut f = w.as_formatter(c);
        if file { t.format_file(&mut f, &()) } else { t.format(&mut f, &(), &()) }.map_err(|e| format!("io sink: {e:?}"))?;
    }
    String::from_utf8(w.into_inner()).map_err(|e| e.to_string())
}

fn vec_lines(t: &T, c: &fmt::Config, file: bool) -> Result<Vec<String>, String> {
    let mut w = fmt::VecWriter::new();
    {
        let mut f = w.as_formatter(c);
        if file { t.format_file(&mut f, &()) } else { t.format(&mut f, &(), &()) }.map_err(|e| format!("vec sink: {e:?}"))?;
    }
    Ok(w.into_vec())
}

fn cfg(i: Indentation, nl: &'static str) -> fmt::Config {
    fmt::Config::from_lang::<TLang>().with_indentation(i).with_newline(nl)
}

fn case(c: &Case) -> Result<(), String> {
    let mut t = T::new();
    for _ in 0..c.deep {
        t.indent();
    }
    apply(&mut t, &c.ops);
    let before = items_of(&t);
    let nl = NEWLINES[c.newline as usize % NEWLINES.len()];
    let indentation = if c.unit == TAB { Indentation::Tab } else { Indentation::Space(c.unit as usize) };
    let config = cfg(indentation, nl);

    for file in [false, true] {
        let s = fmt_string(&t, &config, file)?;
        let io = io_string(&t, &config, file)?;
        if io != s {
            return Err(format!("byte sink differs from text sink: {}", diff(&s, &io)));
        }
        let lines = vec_lines(&t, &config, file)?;
        let joined = lines.join(nl) + if file { nl } else { "" };
        if joined != s {
            return Err(format!("line list differs from text sink: {}", diff(&s, &joined)));
        }
        // A second rendering, a clone, and a rebuilt stream.
        if fmt_string(&t, &config, file)? != s || fmt_string(&t.clone(), &config, file)? != s {
            return Err("rendering twice or rendering a clone differs".into());
        }
        // The order of configuration calls does not matter.
        let other = fmt::Config::from_lang::<TLang>().with_newline(nl).with_indentation(indentation);
        if fmt_string(&t, &other, file)? != s {
            return Err("configuration order matters".into());
        }
        // Line endings only substitute.
        let marked = fmt_string(&t, &cfg(indentation, MARK), file)?;
        if marked.replace(MARK, nl) != s {
            return Err(format!("line ending is not substituted: {}", diff(&marked.replace(MARK, nl), &s)));
        }
        // Indentation units only change the indent.
        let bare = fmt_string(&t, &cfg(Indentation::Space(0), MARK), file)?;
        let one = fmt_string(&t, &cfg(Indentation::Space(1), MARK), file)?;
        let (bl, ol, ml): (Vec<_>, Vec<_>, Vec<_>) = (
            bare.split(MARK).collect(),
            one.split(MARK).collect(),
            marked.split(MARK).collect(),
        );
        if bl.len() != ol.len() || bl.len() != ml.len() {
            return Err("number of lines depends on the indentation unit".into());
        }
        for ((b, o), m) in bl.iter().zip(&ol).zip(&ml) {
            let Some(level) = o.len().checked_sub(b.len()) else {
                return Err(format!("line with unit 1 shorter than with unit 0: {o:?} {b:?}"));
            };
            if *o != format!("{}{b}", " ".repeat(level)) {
                return Err(format!("unit 1 does not prefix spaces: {b:?} {o:?}"));
            }
            let unit = if c.unit == TAB { "\t".to_string() } else { " ".repeat(c.unit as usize) };
            let want = format!("{}{b}", unit.repeat(level));
            if *m != want {
                return Err(format!("level {level} line with unit {:?}: {}", unit, diff(&want, m)));
            }
        }
        // Absolute check against the reference renderer.
        let unit = if c.unit == TAB { "\t".to_string() } else { " ".repeat(c.unit as usize) };
        let mut want = render(&before, &unit, nl);
        if file {
            want.push_str(nl);
        }
        if want != s {
            return Err(format!("differs from reference: {}", diff(&want, &s)));
        }
    }
    // Convenience functions use the default configuration.
    let d = fmt::Config::from_lang::<TLang>();
    let e = |e: genco::fmt::Error| format!("{e:?}");
    if t.to_string().map_err(e)? != fmt_string(&t, &d, false)?
        || t.to_file_string().map_err(e)? != fmt_string(&t, &d, true)?
        || t.to_vec().map_err(e)? != vec_lines(&t, &d, false)?
        || t.to_file_vec().map_err(e)? != vec_lines(&t, &d, true)?
    {
        return Err("convenience rendering differs from explicit sink with default configuration".into());
    }
    if items_of(&t) != before {
        return Err("rendering changed the stream".into());
    }
    Ok(())
}

/// The writers themselves: text and characters written directly to any sink.
fn writers(pieces: &Vec<(bool, String)>) -> Result<(), String> {
    let mut f = fmt::FmtWriter::new(String::new());
    let mut i = fmt::IoWriter::new(Vec::new());
    let mut v = fmt::VecWriter::new();
    let mut want = String::new();
    for (chars, s) in pieces {
        want.push_str(s);
        if *chars {
            for c in s.chars() {
                f.write_char(c).map_err(|e| e.to_string())?;
                i.write_char(c).map_err(|e| e.to_string())?;
                v.write_char(c).map_err(|e| e.to_string())?;
            }
        } else {
            f.write_str(s).map_err(|e| e.to_string())?;
            i.write_str(s).map_err(|e| e.to_string())?;
            v.write_str(s).map_err(|e| e.to_string())?;
        }
    }
    let f = f.into_inner();
    let i = String::from_utf8(i.into_inner()).map_err(|e| e.to_string())?;
    let v = v.into_vec();
    if f != want || i != want || v != vec![want.clone()] {
        return Err(format!("direct writes: want {want:?}, text {f:?}, bytes {i:?}, lines {v:?}"));
    }
    // The same writes through a formatter.
    let c = fmt::Config::from_lang::<()>();
    let mut f = fmt::FmtWriter::new(String::new());
    {
        let mut out = f.as_formatter(&c);
        for (chars, s) in pieces {
            if *chars {
                for ch in s.chars() {
                    out.write_char(ch).map_err(|e| e.to_string())?;
                }
            } else {
                write!(out, "{s}").map_err(|e| e.to_string())?;
            }
        }
    }
    if f.into_inner() != want {
        return Err("writes through the formatter differ".into());
    }
    Ok(())
}

pub fn check(cx: &mut Ctx) {
    let n = cx.n(20_000, 300_000);
    cx.part(
        "sinks-and-configs",
        "random streams under 0..150 extra levels x unit (0..130 spaces or tab) x 6 line endings, all sinks; non-trivial: deepest indent exceeds 100 spaces / 39 tabs, or non-default configuration with a line break",
        n,
        || {
            (
                history(true, 24),
                prop_oneof![3 => 0u16..4, 2 => 20u16..60, 1 => 60u16..150],
                prop_oneof![3 => 0u16..9, 2 => 90u16..130, 2 => Just(201u16), 1 => 9u16..60, 1 => 202u16..700],
                any::<u8>(),
            )
                .prop_map(|(ops, deep, unit, newline)| Case { ops, deep, unit, newline })
        },
        |c| {
            let lines = Model::of(&c.ops).items.iter().filter(|i| matches!(i, MI::Push | MI::Line | MI::Ind(_))).count();
            lines > 0 && (c.unit == TAB && c.deep > 39 || c.unit as u32 * c.deep as u32 > 100 || c.newline as usize % NEWLINES.len() != 0)
        },
        case,
    );
    cx.part(
        "long",
        "literals of up to 64 kB between others, all sinks; non-trivial: a literal longer than a line",
        n / 40,
        || {
            let c = prop_oneof![
                1 => prop::sample::select(vec!['a', ' ', 'é', '世', '😊', '\t']),
                1 => any::<char>().prop_filter("marker", |c| !matches!(c, '\u{1}' | '\n' | '\r')),
            ];
            let l = crate::c07::long(c.boxed());
            (prop::collection::vec((l, any::<u8>(), 0u8..4), 1..3), 0u16..4, prop_oneof![0u16..9, Just(TAB)], any::<u8>())
        },
        |c| c.0.iter().any(|(l, ..)| l.size > 100),
        |(ls, deep, unit, newline)| {
            let mut ops = vec![Op::Lit("a".into(), 0)];
            for (l, how, sep) in ls {
                ops.push([Op::Space(0), Op::Push(0), Op::Line(0), Op::Indent(0)][*sep as usize].clone());
                ops.push(Op::Lit(l.text(), *how));
            }
            case(&Case { ops, deep: *deep, unit: *unit, newline: *newline })
        },
    );
    // Every width around the buffer sizes, systematically.
    let mut v = Vec::new();
    for deep in 0..=130u16 {
        for unit in [0u16, 1, 2, 3, 4, 8, 25, 50, 99, 100, 101, 201] {
            v.push(Case { ops: vec![Op::Lit("a".into(), 0), Op::Push(0), Op::Lit("b".into(), 0), Op::Space(0), Op::Lit("c".into(), 0), Op::Indent(0), Op::Lit("d".into(), 0)], deep, unit, newline: (deep % 6) as u8 });
        }
    }
    // Large ones, around the sizes of the integer types.
    for (deep, unit) in [
        (1u16, 255u16), (1, 256), (1, 257), (255, 1), (256, 1), (257, 1), (3, 256), (16, 16), (17, 4096), (255, TAB), (256, TAB), (257, TAB),
        (1000, 3), (4096, 17), (1, 32767), (1, 32768), (1, 65535), (2, 32768), (2, 65535), (3, 40000), (32766, 1), (32766, 2), (32766, 4), (32766, TAB), (300, 300),
    ] {
        v.push(Case { ops: vec![Op::Lit("a".into(), 0), Op::Push(0), Op::Lit("b".into(), 0), Op::Space(0), Op::Lit("c".into(), 0), Op::Indent(0), Op::Lit("d".into(), 0)], deep, unit, newline: 0 });
    }
    cx.list("depth-by-unit", "every depth 0..=130 x 12 units, and widths and depths around the sizes of the integer types", v, |_| true, case);
    cx.part(
        "direct-writes",
        "random sequences of str/char writes directly to each sink; non-trivial: non-ASCII text written character-wise",
        n / 4,
        || prop::collection::vec((any::<bool>(), "[a-z\n é世😊]{0,6}"), 0..6),
        |p| p.iter().any(|(c, s)| *c && !s.is_ascii()),
        writers,
    );
}
