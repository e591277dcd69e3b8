//! C04: failing, short and interrupted sinks.

use std::collections::VecDeque;
use std::io;

use crate::langs::{self, Doc, LS};
use crate::lits::{LangId, ALL};
use crate::model::*;
use crate::run::Ctx;
use genco::fmt::{self, Indentation};
use genco::tokens::quoted;
use genco::Tokens;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Src {
    /// A stream of the test language with extra indentation, unit and line ending.
    Stream { ops: Vec<Op>, deep: u8, unit: u8, crlf: bool, file: bool },
    /// A file with imports.
    File(Doc),
    /// Quoted text, quoted `nest` further times.
    Text(LangId, String, u8),
    /// A string of several pieces, with interpolations and strings inside of it.
    Pieces(crate::c08::Case),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    src: Src,
    /// Actions for the plan of short and interrupted writes.
    plan: Vec<u8>,
}


/// Run one rendering of the source with sinks made by the callback.
fn with(src: &Src, sink: &mut dyn FnMut(&fmt::Config, &mut dyn FnMut(&mut fmt::Formatter<'_>) -> fmt::Result) -> fmt::Result) -> fmt::Result {
    match src {
        Src::Stream { ops, deep, unit, crlf, file } => {
            let mut t = T::new();
            for _ in 0..*deep {
                t.indent();
            }
            apply(&mut t, ops);
            let indentation = if *unit == 0 { Indentation::Tab } else { Indentation::Space(*unit as usize) };
            let c = fmt::Config::from_lang::<TLang>().with_indentation(indentation).with_newline(if *crlf { "\r\n" } else { "\n" });
            sink(&c, &mut |f| if *file { t.format_file(f, &()) } else { t.format(f, &(), &()) })
        }
        Src::File(d) => {
            fn go<L: LS>(d: &Doc, sink: &mut dyn FnMut(&fmt::Config, &mut dyn FnMut(&mut fmt::Formatter<'_>) -> fmt::Result) -> fmt::Result) -> fmt::Result {
                let mut t: Tokens<L> = Tokens::new();
                langs::nodes(&mut t, &d.pool, &d.body);
                let c = fmt::Config::from_lang::<L>();
                sink(&c, &mut |f| t.format_file(f, &L::cfg(&d.conf)))
            }
            crate::with_lang!(d.lang, L => go::<L>(d, sink))
        }
        Src::Text(l, s, nest) => {
            fn go<L: LS>(s: &str, nest: u8, sink: &mut dyn FnMut(&fmt::Config, &mut dyn FnMut(&mut fmt::Formatter<'_>) -> fmt::Result) -> fmt::Result) -> fmt::Result {
                let mut t: Tokens<L> = Tokens::new();
                t.append(quoted(s.to_string()));
                for _ in 0..nest {
                    let mut u: Tokens<L> = Tokens::new();
                    u.append(quoted(t));
                    t = u;
                }
                let c = fmt::Config::from_lang::<L>();
                sink(&c, &mut |f| t.format_file(f, &L::cfg(&langs::Conf::default())))
            }
            crate::with_lang!(*l, L => go::<L>(s, *nest, sink))
        }
        Src::Pieces(p) => {
            crate::with_lang!(p.lang, L => {
                let mut t: Tokens<L> = Tokens::new();
                crate::c08::string(&mut t, &p.pieces, p.how);
                let c = fmt::Config::from_lang::<L>();
                sink(&c, &mut |f| t.format_file(f, &<L as LS>::cfg(&langs::Conf::default())))
            })
        }
    }
}

/// Text sink which fails once when `limit` bytes were written.
struct FSink {
    got: String,
    limit: usize,
    /// Accept the part of a write that fits before failing.
    partial: bool,
    /// Keep failing.
    sticky: bool,
    failed: bool,
}

impl core::fmt::Write for FSink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        if self.failed {
            return if self.sticky { Err(core::fmt::Error) } else { Ok(()) };
        }
        if self.got.len() + s.len() > self.limit {
            if self.partial {
                let mut n = self.limit - self.got.len();
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                self.got.push_str(&s[..n]);
            }
            self.failed = true;
            return Err(core::fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Short(usize),
    Interrupted,
    Zero,
    Fail(io::ErrorKind),
}

/// Byte sink following a plan, and failing once at a byte limit.
struct BSink {
    got: Vec<u8>,
    plan: VecDeque<Act>,
    limit: usize,
    at_limit: Act,
    failed: bool,
}

impl BSink {
    fn act(&mut self, a: Act, buf: &[u8]) -> io::Result<usize> {
        match a {
            Act::Short(n) => {
                let n = n.clamp(1, buf.len());
                self.got.extend(&buf[..n]);
                Ok(n)
            }
            Act::Interrupted => Err(io::ErrorKind::Interrupted.into()),
            Act::Zero => {
                self.failed = true;
                Ok(0)
            }
            Act::Fail(k) => {
                self.failed = true;
                Err(k.into())
            }
        }
    }
}

impl io::Write for BSink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() || self.failed {
            return Ok(buf.len());
        }
        if self.got.len() + buf.len() > self.limit {
            let n = self.limit - self.got.len();
            if n > 0 {
                return self.act(Act::Short(n), buf);
            }
            return self.act(self.at_limit, buf);
        }
        match self.plan.pop_front() {
            Some(a) => self.act(a, buf),
            None => {
                self.got.extend(buf);
                Ok(buf.len())
            }
        }
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn positions(len: usize) -> Vec<usize> {
    if len <= 160 {
        (0..=len).collect()
    } else {
        // All around the ends, spread over the rest.
        let mut v: Vec<usize> = (0..60).chain(len - 60..=len).collect();
        v.extend((60..len - 60).step_by((len / 60).max(1)));
        v
    }
}

const KINDS: [io::ErrorKind; 4] = [io::ErrorKind::Other, io::ErrorKind::WouldBlock, io::ErrorKind::BrokenPipe, io::ErrorKind::StorageFull];

/// Number of faults injected.
fn run(c: &Case) -> Result<u64, String> {
    let mut want = String::new();
    let ok = with(&c.src, &mut |cfg, go| {
        let mut w = fmt::FmtWriter::new(String::new());
        let r = go(&mut w.as_formatter(cfg));
        want = w.into_inner();
        r
    });
    if ok.is_err() {
        return Err("rendering to a string failed".into());
    }
    let mut faults = 0;
    for k in positions(want.len()) {
        for (partial, sticky) in [(true, true), (false, false)] {
            let mut s = None;
            let r = with(&c.src, &mut |cfg, go| {
                let mut w = fmt::FmtWriter::new(FSink { got: String::new(), limit: k, partial, sticky, failed: false });
                let r = go(&mut w.as_formatter(cfg));
                s = Some(w.into_inner());
                r
            });
            let s = s.unwrap();
            let what = format!("text sink failing after {k} bytes (partial {partial}, keeps failing {sticky})");
            outcome(&what, r.is_err(), s.failed, s.got.as_bytes(), &want)?;
            if s.failed != (k < want.len()) {
                return Err(format!("{what}: a different amount of text was written ({} bytes expected)", want.len()));
            }
            faults += s.failed as u64;
        }
        for at_limit in [Act::Fail(KINDS[k % 4]), Act::Zero] {
            let mut s = None;
            let r = with(&c.src, &mut |cfg, go| {
                let plan = plan(&c.plan);
                let mut w = fmt::IoWriter::new(BSink { got: vec![], plan, limit: k, at_limit, failed: false });
                let r = go(&mut w.as_formatter(cfg));
                s = Some(w.into_inner());
                r
            });
            let s = s.unwrap();
            let what = format!("byte sink with {at_limit:?} after {k} bytes");
            outcome(&what, r.is_err(), s.failed, &s.got, &want)?;
            faults += s.failed as u64;
        }
    }
    // Short and interrupted writes only.
    let mut s = None;
    let r = with(&c.src, &mut |cfg, go| {
        let mut w = fmt::IoWriter::new(BSink { got: vec![], plan: plan(&c.plan), limit: usize::MAX, at_limit: Act::Zero, failed: false });
        let r = go(&mut w.as_formatter(cfg));
        s = Some(w.into_inner());
        r
    });
    outcome("byte sink with short and interrupted writes", r.is_err(), false, &s.unwrap().got, &want)?;
    // And the line sink, which cannot fail.
    let mut lines = None;
    let r = with(&c.src, &mut |cfg, go| {
        let mut w = fmt::VecWriter::new();
        let r = go(&mut w.as_formatter(cfg));
        lines = Some(w.into_vec());
        r
    });
    if r.is_err() {
        return Err("rendering to lines failed".into());
    }
    Ok(faults)
}

fn plan(p: &[u8]) -> VecDeque<Act> {
    // The plan repeats often enough for long documents.
    (0..2000 * p.len().min(1)).map(|i| p[i % p.len()]).map(|b| if b % 3 == 0 { Act::Interrupted } else { Act::Short(b as usize % 7 + 1) })
        .scan(0, |run, a| {
            // Never more than a few interruptions in a row.
            *run = if a == Act::Interrupted { *run + 1 } else { 0 };
            Some(if *run > 3 { *run = 0; Act::Short(1) } else { a })
        })
        .collect()
}

fn outcome(what: &str, err: bool, failed: bool, got: &[u8], want: &str) -> Result<(), String> {
    if failed && !err {
        return Err(format!("{what}: rendering reported success"));
    }
    if !failed && err {
        return Err(format!("{what}: rendering failed although the sink did not"));
    }
    if failed && !want.as_bytes().starts_with(got) {
        return Err(format!("{what}: {:?} reached the sink, not a prefix of {want:?}", String::from_utf8_lossy(got)));
    }
    if !failed && got != want.as_bytes() {
        return Err(format!("{what}: {:?} reached the sink instead of {want:?}", String::from_utf8_lossy(got)));
    }
    Ok(())
}

/// One use of a writer.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Step {
    Str(String),
    Char(char),
    Args(String, i32),
    /// Render a stream by a formatter of its own.
    Stream(Vec<Op>),
}

/// Text written to a writer directly, between renderings.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Mixed {
    steps: Vec<Step>,
    plan: Vec<u8>,
    crlf: bool,
}

trait Writer: core::fmt::Write {
    fn formatter<'a>(&'a mut self, c: &'a fmt::Config) -> fmt::Formatter<'a>;
}

impl<W: core::fmt::Write> Writer for fmt::FmtWriter<W> {
    fn formatter<'a>(&'a mut self, c: &'a fmt::Config) -> fmt::Formatter<'a> {
        self.as_formatter(c)
    }
}

impl<W: io::Write> Writer for fmt::IoWriter<W> {
    fn formatter<'a>(&'a mut self, c: &'a fmt::Config) -> fmt::Formatter<'a> {
        self.as_formatter(c)
    }
}

impl Writer for fmt::VecWriter {
    fn formatter<'a>(&'a mut self, c: &'a fmt::Config) -> fmt::Formatter<'a> {
        self.as_formatter(c)
    }
}

fn steps<W: Writer>(m: &Mixed, c: &fmt::Config, w: &mut W) -> fmt::Result {
    for s in &m.steps {
        match s {
            Step::Str(s) => w.write_str(s)?,
            Step::Char(c) => w.write_char(*c)?,
            Step::Args(s, n) => write!(w, "{s}:{n:>5}-{}", '\u{3c0}')?,
            Step::Stream(ops) => {
                let mut t = T::new();
                apply(&mut t, ops);
                t.format(&mut w.formatter(c), &(), &())?;
            }
        }
    }
    Ok(())
}

fn mixed(m: &Mixed) -> Result<u64, String> {
    let cfg = |nl| fmt::Config::from_lang::<TLang>().with_newline(nl);
    let nl = if m.crlf { "\r\n" } else { "\n" };
    let c = cfg(nl);
    let render = |ops: &[Op], nl| {
        let mut t = T::new();
        apply(&mut t, ops);
        let mut w = fmt::FmtWriter::new(String::new());
        t.format(&mut w.as_formatter(&cfg(nl)), &(), &()).map_err(|_| "rendering to a string failed")?;
        Ok::<_, String>(w.into_inner())
    };
    let mut want = String::new();
    let mut lines = vec![String::new()];
    for s in &m.steps {
        let one = match s {
            Step::Str(s) => s.clone(),
            Step::Char(c) => c.to_string(),
            Step::Args(s, n) => format!("{s}:{n:>5}-\u{3c0}"),
            Step::Stream(ops) => {
                want += &render(ops, nl)?;
                let marked = render(ops, "\u{1}")?;
                for (i, l) in marked.split('\u{1}').enumerate() {
                    if i > 0 {
                        lines.push(String::new());
                    }
                    *lines.last_mut().unwrap() += l;
                }
                continue;
            }
        };
        want += &one;
        *lines.last_mut().unwrap() += &one;
    }
    let mut w = fmt::VecWriter::new();
    if steps(m, &c, &mut w).is_err() {
        return Err("writing to lines failed".into());
    }
    let got = w.into_vec();
    if got != lines {
        return Err(format!("lines written: {got:?}, expected {lines:?}"));
    }
    let mut faults = 0;
    for k in positions(want.len()) {
        let mut w = fmt::FmtWriter::new(FSink { got: String::new(), limit: k, partial: k % 2 == 0, sticky: true, failed: false });
        let r = steps(m, &c, &mut w);
        let s = w.into_inner();
        outcome(&format!("writing to a text sink failing after {k} bytes"), r.is_err(), s.failed, s.got.as_bytes(), &want)?;
        faults += s.failed as u64;
        for at_limit in [Act::Fail(KINDS[k % 4]), Act::Zero] {
            let mut w = fmt::IoWriter::new(BSink { got: vec![], plan: plan(&m.plan), limit: k, at_limit, failed: false });
            let r = steps(m, &c, &mut w);
            let s = w.into_inner();
            outcome(&format!("writing to a byte sink with {at_limit:?} after {k} bytes"), r.is_err(), s.failed, &s.got, &want)?;
            faults += s.failed as u64;
        }
    }
    let mut w = fmt::IoWriter::new(BSink { got: vec![], plan: plan(&m.plan), limit: usize::MAX, at_limit: Act::Zero, failed: false });
    let r = steps(m, &c, &mut w);
    outcome("writing to a byte sink with short and interrupted writes", r.is_err(), false, &w.into_inner().got, &want)?;
    Ok(faults)
}

fn len(c: &Case) -> usize {
    let mut n = 0;
    let _ = with(&c.src, &mut |cfg, go| {
        let mut w = fmt::FmtWriter::new(String::new());
        let r = go(&mut w.as_formatter(cfg));
        n = w.into_inner().len();
        r
    });
    n
}

pub fn check(cx: &mut Ctx) {
    let faults = std::sync::atomic::AtomicU64::new(0);
    let check = |c: &Case| {
        faults.fetch_add(run(c)?, std::sync::atomic::Ordering::Relaxed);
        Ok(())
    };
    let plan = || proptest::collection::vec(any::<u8>(), 0..6);
    let n = cx.n(1500, 40_000);
    cx.part(
        "streams",
        "output of at least 2 bytes; every byte position (up to 160, then spread) x 4 failure kinds, plus short/interrupted writes; oracle: error reported iff the sink failed, prefix of the correct output",
        n,
        || {
            let src = (history(true, 12), prop_oneof![4 => 0u8..4, 1 => 40u8..120], 0u8..5, any::<bool>(), any::<bool>())
                .prop_map(|(ops, deep, unit, crlf, file)| Src::Stream { ops, deep, unit, crlf, file });
            (src, plan()).prop_map(|(src, plan)| Case { src, plan })
        },
        |c| len(c) >= 2,
        check,
    );
    let n = cx.n(1500, 40_000);
    cx.part(
        "files",
        "files with imports in all ten languages; same faults and oracle",
        n,
        || (langs::doc(), plan()).prop_map(|(d, plan)| Case { src: Src::File(d), plan }),
        |c| len(c) >= 2,
        check,
    );
    let n = cx.n(2500, 60_000);
    cx.part(
        "literals",
        "quoted text in all ten languages, nested 0..3 deep, with every kind of escape; same faults and oracle",
        n,
        || {
            let c = prop_oneof![
                3 => proptest::sample::select(&['"', '\\', '\'', '$', '{', '`', '\n', '\r', '\t', '\u{8}', '\u{b}', '\u{c}', '\u{7f}', '\u{80}', '\u{1f60a}', 'é', '\u{3c0}', '\u{feff}', '?', '/'][..]),
                1 => any::<char>(),
            ];
            let s = proptest::collection::vec(c, 0..8).prop_map(|v| v.into_iter().filter(|c| *c != '\0').collect::<String>());
            (proptest::sample::select(&ALL[..]), s, 0u8..3, plan()).prop_map(|(l, s, n, plan)| Case { src: Src::Text(l, s, n), plan })
        },
        |c| len(c) >= 4,
        check,
    );
    let n = cx.n(300, 10_000);
    cx.part(
        "long",
        "quoted texts of up to 64 kB in all ten languages; same faults and oracle",
        n,
        || {
            let c = prop_oneof![
                1 => proptest::sample::select(&['"', '\\', '$', '\n', '\u{7f}', '\u{1f60a}', 'é', 'a'][..]),
                1 => any::<char>().prop_filter("nul", |c| *c != '\0'),
            ];
            (proptest::sample::select(&ALL[..]), crate::c07::long(c.boxed()), plan())
        },
        |(_, l, _)| l.size > 60,
        |(lang, l, plan)| check(&Case { src: Src::Text(*lang, l.text(), 0), plan: plan.clone() }),
    );
    let n = cx.n(1200, 40_000);
    cx.part(
        "strings",
        "strings of several pieces with nested strings in all ten languages, and with interpolations in JavaScript and Dart; same faults and oracle",
        n,
        || {
            let lang = prop_oneof![1 => proptest::sample::select(&ALL[..]), 2 => proptest::sample::select(&[LangId::JavaScript, LangId::Dart][..])];
            let case = lang.prop_flat_map(|lang| {
                let eval = matches!(lang, LangId::JavaScript | LangId::Dart);
                (crate::c08::pieces(eval, true), any::<u8>()).prop_map(move |(pieces, how)| crate::c08::Case { lang, pieces, how })
            });
            (case, plan()).prop_map(|(p, plan)| Case { src: Src::Pieces(p), plan })
        },
        |c| match &c.src {
            Src::Pieces(p) => p.pieces.len() > 1,
            _ => true,
        },
        |c| match &c.src {
            Src::Pieces(p) if !crate::c08::legal(&p.pieces, false) => Ok(()),
            _ => check(c),
        },
    );
    let n = cx.n(1500, 40_000);
    cx.part(
        "writers",
        "a writer used directly (text, single characters, formatted arguments) between renderings by formatters of their own; oracle: the pieces one after the other, same faults; non-trivial: both kinds of use",
        n,
        || {
            let c = prop_oneof![3 => proptest::sample::select(&['a', '\n', 'é', '\u{3c0}', '\u{1f60a}', ' '][..]), 1 => any::<char>()].prop_filter("marker", |c| *c != '\u{1}');
            let text = proptest::collection::vec(c.clone(), 0..4).prop_map(|v| v.into_iter().collect::<String>());
            let step = prop_oneof![
                2 => text.clone().prop_map(Step::Str),
                3 => c.prop_map(Step::Char),
                1 => (text, any::<i32>()).prop_map(|(s, n)| Step::Args(s, n)),
                3 => history(true, 5).prop_map(Step::Stream),
            ];
            (proptest::collection::vec(step, 1..6), plan(), any::<bool>()).prop_map(|(steps, plan, crlf)| Mixed { steps, plan, crlf })
        },
        |m| {
            let n = m.steps.iter().filter(|s| matches!(s, Step::Stream(_))).count();
            n > 0 && n < m.steps.len()
        },
        |m| {
            faults.fetch_add(mixed(m)?, std::sync::atomic::Ordering::Relaxed);
            Ok(())
        },
    );
    let n = faults.load(std::sync::atomic::Ordering::Relaxed);
    cx.note("faults", "injected faults over all parts", 0, 0, json!({"faults_injected": n}));
}
