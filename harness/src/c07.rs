//! C07: a quoted string denotes exactly its text.

use crate::lits::*;
use crate::run::Ctx;
use crate::{tools, with_lang};
use genco::tokens::quoted;
use genco::Tokens;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    pub lang: LangId,
    pub text: String,
}

pub fn emit(lang: LangId, text: &str) -> Result<String, String> {
    with_lang!(lang, L => {
        let mut t = Tokens::<L>::new();
        t.append(quoted(text));
        t.to_string().map_err(|e| format!("rendering failed: {e}"))
    })
}

/// Nix strings cannot hold NUL at all.
pub fn in_domain(lang: LangId, text: &str) -> bool {
    lang != LangId::Nix || !text.contains('\0')
}

fn check_case(c: &Case) -> Result<(), String> {
    if !in_domain(c.lang, &c.text) {
        return Ok(());
    }
    let src = emit(c.lang, &c.text)?;
    match decode_all(c.lang, &src) {
        Ok(v) if v == c.text => Ok(()),
        Ok(v) => Err(format!("{:?}: {src} denotes {v:?}, not {:?}", c.lang, c.text)),
        Err(e) => Err(format!("{:?}: {src} (for {:?}): {e}", c.lang, c.text)),
    }
}

pub fn special(c: char) -> bool {
    !(c.is_ascii_alphanumeric() || c == ' ')
}

pub fn ch() -> BoxedStrategy<char> {
    prop_oneof![
        4 => prop::sample::select("\"\\'`$${}?#%@()".chars().collect::<Vec<_>>()),
        4 => prop::sample::select("0123456789abcdefABCDEFnrtuvxUNs{}".chars().collect::<Vec<_>>()),
        3 => prop::char::range('\0', '\u{1f}'),
        1 => prop::char::range('\u{7f}', '\u{a0}'),
        2 => prop::char::range(' ', '~'),
        1 => prop::sample::select(vec!['\u{2028}', '\u{2029}', '\u{85}', '\u{feff}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}', 'é', '世', '😊', '\u{301}', '\u{202e}']),
        1 => any::<char>(),
    ]
    .boxed()
}

pub fn text() -> BoxedStrategy<String> {
    prop_oneof![
        8 => prop::collection::vec(ch(), 0..12).prop_map(|v| v.into_iter().collect::<String>()),
        1 => prop::collection::vec(ch(), 0..200).prop_map(|v| v.into_iter().collect::<String>()),
        1 => prop::collection::vec(prop::sample::select(vec!["\\", "\"", "$", "${", "${x}", "$x", "#{x}", "\\(x)", "{x}", "\\u0041", "\\x41", "\\n", "\0", "1", "7", "a", "??/", "\u{b}", "\u{c}", "\u{11}", "\u{12}", "\u{14}", "\u{7f}", "\u{80}", "'", "`", "$$", "''", "%s", "//", "/*"]), 0..6).prop_map(|v| v.concat()),
    ]
    .boxed()
}

/// A long text, around a size at which a buffer might end.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Long {
    /// What it repeats.
    pub pattern: String,
    /// The least number of bytes to repeat it for.
    pub size: usize,
    pub tail: String,
}

impl Long {
    pub fn text(&self) -> String {
        let mut out = String::with_capacity(self.size + 16);
        let mut it = self.pattern.chars().cycle();
        while out.len() < self.size {
            match it.next() {
                Some(c) => out.push(c),
                None => break,
            }
        }
        out.push_str(&self.tail);
        out
    }
}

pub fn long(ch: BoxedStrategy<char>) -> BoxedStrategy<Long> {
    let of = move |n: std::ops::Range<usize>| prop::collection::vec(ch.clone(), n).prop_map(|v: Vec<char>| v.into_iter().collect::<String>());
    let size = prop_oneof![
        8 => prop::sample::select(vec![16usize, 32, 64, 80, 100, 120, 128]),
        4 => prop::sample::select(vec![200usize, 256, 512, 1000, 1024]),
        2 => prop::sample::select(vec![2048usize, 4096, 8192]),
        1 => prop::sample::select(vec![10000usize, 16384, 32768, 65536]),
    ];
    let few = prop_oneof![2 => Just(1..2usize), 1 => Just(2..6usize)];
    let plain = prop::sample::select(vec!["a", "ab ", "é", "世", "😊", "x1"]).prop_map(String::from);
    (prop_oneof![1 => plain, 1 => few.prop_flat_map(of.clone())], size, 0usize..6, of(0..6))
        .prop_map(|(pattern, size, less, tail)| Long { pattern, size: size - less, tail })
        .boxed()
}

const PAIR: &str = "\0\u{7}\u{8}\t\n\u{b}\u{c}\r\u{11}\u{12}\u{14}\u{1b}\u{1f} \"#$%&'()/01789?ABFU[\\]`abefnrtuvx{}~\u{7f}\u{80}\u{85}\u{9f}\u{a0}é\u{2028}世\u{10000}😊";
const TRIPLE: &str = "\0\n\u{12}\"$'1a\\`fnu{\u{7f}é😊";

pub fn check(cx: &mut Ctx) {
    let step = if cx.thorough { 1 } else { 23 };
    let seed = cx.seed as u32;
    let singles = ALL.into_iter().flat_map(move |lang| {
        (0..0x110000u32)
            .filter(move |n| *n < 0x3000 || (n + seed) % step == 0)
            .filter_map(char::from_u32)
            .map(move |c| Case { lang, text: c.to_string() })
    });
    cx.list(
        "single-characters",
        "one-character texts in all ten languages: all below U+3000, every 23rd scalar value above (all in the thorough tier); non-trivial: not an ASCII letter, digit or space",
        singles,
        |c| c.text.chars().all(special),
        check_case,
    );
    let pairs = ALL.into_iter().flat_map(|lang| {
        PAIR.chars().flat_map(move |a| {
            PAIR.chars().map(move |b| Case { lang, text: [a, b].iter().collect() })
        })
    });
    cx.list(
        "character-pairs",
        "all pairs over an alphabet of special characters, digits and escape letters, all languages; non-trivial: the first needs attention",
        pairs,
        |c| c.text.chars().next().is_some_and(special),
        check_case,
    );
    let triples = ALL.into_iter().flat_map(|lang| {
        TRIPLE.chars().flat_map(move |a| {
            TRIPLE.chars().flat_map(move |b| {
                TRIPLE.chars().map(move |c| Case { lang, text: [a, b, c].iter().collect() })
            })
        })
    });
    cx.list(
        "character-triples",
        "all triples over a smaller alphabet, all languages; non-trivial: contains a special character",
        triples,
        |c| c.text.chars().any(special),
        check_case,
    );
    let n = cx.n(60_000, 1_500_000);
    cx.part(
        "texts",
        "random texts biased to quotes, escapes, control and interpolation characters, up to 200 characters; non-trivial: at least two special characters",
        n,
        || (prop::sample::select(ALL.to_vec()), text()).prop_map(|(lang, text)| Case { lang, text }),
        |c| c.text.chars().filter(|c| special(*c)).count() > 1,
        check_case,
    );
    cx.part(
        "long",
        "texts of about 16 bytes to 64 kB, around powers of two and ten, repeating a few characters and ending in others; non-trivial: at least two special characters",
        cx.n(4_000, 100_000),
        || (prop::sample::select(ALL.to_vec()), long(ch()), any::<bool>()),
        |(_, l, _)| l.pattern.chars().chain(l.tail.chars()).filter(|c| special(*c)).count() > 1,
        |(lang, l, nested)| {
            let text = l.text();
            if !in_domain(*lang, &text) {
                return Ok(());
            }
            let c = if *nested && text.len() < 5000 {
                // What a string quoted within another denotes.
                let outer = with_lang!(*lang, L => {
                    let mut t = Tokens::<L>::new();
                    let mut inner = Tokens::<L>::new();
                    inner.append(quoted(text.as_str()));
                    t.append(quoted(inner));
                    t.to_string().map_err(|e| format!("rendering failed: {e}"))
                })?;
                let inner = decode_all(*lang, &outer).map_err(|e| format!("{lang:?}: {outer}: {e}"))?;
                let v = decode_all(*lang, &inner).map_err(|e| format!("{lang:?}: {inner} in {outer}: {e}"))?;
                return if v == text { Ok(()) } else { Err(format!("{lang:?}: {outer} denotes {v:?} within, not {text:?}")) };
            } else {
                Case { lang: *lang, text }
            };
            check_case(&c)
        },
    );
    // Real compilers and interpreters.
    let per = cx.n(80, 6000) as usize;
    for lang in ALL {
        let Some(tool) = tools::tool_of(lang) else { continue };
        let name = format!("toolchain-{lang:?}");
        if cx.replay.is_none() && !tools::available(tool) {
            cx.assumptions.push(format!("{tool} not available: {name} skipped"));
            continue;
        }
        let one = |c: &Case| {
            let src = emit(c.lang, &c.text)?;
            tools::check_all(c.lang, "", &[(src, c.text.clone())]).map_err(|e| e.1)
        };
        if cx.replay_part(&name, one) {
            continue;
        }
        let mut runner = crate::run::runner_for(cx.part_seed(&name));
        let mut texts: Vec<String> = (0..0x180u32).filter_map(char::from_u32).map(String::from).collect();
        let strat = text();
        while texts.len() < per {
            texts.push(strat.new_tree(&mut runner).unwrap().current());
        }
        let mut cases = Vec::new();
        let mut kept = Vec::new();
        for t in texts {
            match emit(lang, &t) {
                Ok(s) => {
                    // Raw NUL etc. never reaches the tools in a healthy tree; if it does they reject it.
                    cases.push((s, t.clone()));
                    kept.push(Case { lang, text: t });
                }
                Err(e) => {
                    cx.report(&name, &Case { lang, text: t }, &e);
                    break;
                }
            }
        }
        let r = tools::check_all(lang, "", &cases);
        let nt: Vec<u64> = kept.iter().filter(|c| c.text.chars().any(special)).map(|c| crate::run::hash_of(&c.text)).collect();
        cx.note(&name, &format!("the emitted literals of a batch of texts evaluated by {tool}; non-trivial: a special character"), kept.len() as u64, nt.len() as u64, serde_json::json!({"tool": tool}));
        cx.add_distinct(&name, nt);
        for c in kept.iter().rev().take(2) {
            cx.add_sample(&name, serde_json::to_value(c).unwrap());
        }
        if let Err((i, m)) = r {
            cx.report(&name, &kept[i], &m);
        }
    }
    cx.assumptions.push("C without trigraphs (the default of gcc and clang, removed in C23); Nix strings cannot contain NUL; rustc's bidi lint is not a language rule".into());
}
