//! C21: module paths of JavaScript imports.

use crate::lits::{decode_all, LangId};
use crate::run::Ctx;
use genco::lang::{js, JavaScript};
use genco::tokens::{Item, ItemStr, Tokens};
use genco::{fmt, quote_in};
use proptest::prelude::*;
use relative_path::RelativePathBuf;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Imp {
    module: String,
    path: bool,
    kind: u8,
    how: u8,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    from: Option<String>,
    imports: Vec<Imp>,
}

/// The components a path leads through from the root, with leading `..`.
fn walk(p: &str) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." if out.last().is_some_and(|l| l != "..") => {
                out.pop();
            }
            c => out.push(c.to_string()),
        }
    }
    out
}

/// Can the module be reached from the file (no unnamed directory in between)?
fn reachable(from: &str, to: &str) -> bool {
    let (f, t) = (walk(from), walk(to));
    let n = f.iter().zip(&t).take_while(|(a, b)| a == b).count();
    f.get(n).map(|c| c != "..").unwrap_or(true)
}

/// Import statements of a file: the local names, and the module of each.
fn modules(file: &str) -> Result<BTreeMap<String, String>, String> {
    let mut out = BTreeMap::new();
    let mut lines = file.lines();
    for l in lines.by_ref() {
        if l.is_empty() {
            break;
        }
        let rest = l.strip_prefix("import ").ok_or_else(|| format!("not an import: {l:?}"))?;
        let (what, from) = rest.split_once(" from ").ok_or_else(|| format!("no module: {l:?}"))?;
        let lit = from.strip_suffix(';').ok_or_else(|| format!("no semicolon: {l:?}"))?;
        let module = decode_all(LangId::JavaScript, lit)?;
        for w in what.split([',', '{', '}']).map(str::trim).filter(|w| !w.is_empty()) {
            let local = w.rsplit(" as ").next().unwrap();
            if out.insert(local.to_string(), module.clone()).is_some() {
                return Err(format!("{local} is imported twice"));
            }
        }
    }
    Ok(out)
}

fn case(c: &Case) -> Result<(), String> {
    let mut t: Tokens<JavaScript> = Tokens::new();
    for (i, im) in c.imports.iter().enumerate() {
        let module = match (im.path, im.how % 4) {
            (true, 0 | 1) => js::Module::Path(im.module.as_str().into()),
            (true, _) => js::Module::Path(RelativePathBuf::from(im.module.clone())),
            (false, 0) => im.module.as_str().into(),
            (false, 1) => im.module.clone().into(),
            (false, 2) => ItemStr::Static(crate::langs::leak(&im.module)).into(),
            (false, _) => js::Module::Global(im.module.as_str().into()),
        };
        let name = format!("n{i}");
        let it = js::import(module, name);
        let it = match im.kind % 4 {
            0 => it,
            1 => it.into_default(),
            2 => it.into_wildcard(),
            _ => it.with_alias(format!("a{i}")),
        };
        match im.how / 4 % 3 {
            0 => quote_in!(t => $it$['\r']),
            1 => quote_in!(t => $(&it)$['\n']),
            _ => {
                t.register(it);
                t.append(Item::Push);
            }
        }
    }
    let mut config = js::Config::default();
    if let Some(f) = &c.from {
        config = match f.len() % 3 {
            0 => config.with_module_path(f.as_str()),
            1 => config.with_module_path(f.clone()),
            _ => config.with_module_path(RelativePathBuf::from(f.as_str())),
        };
    }
    let mut file = String::new();
    {
        let conf = fmt::Config::from_lang::<JavaScript>();
        let mut w = fmt::FmtWriter::new(&mut file);
        t.format_file(&mut w.as_formatter(&conf), &config).map_err(|e| format!("{e:?}"))?;
    }
    let found = modules(&file).map_err(|e| format!("{e}\n{file}"))?;
    if found.len() != c.imports.len() {
        return Err(format!("{} names imported of {}\n{file}", found.len(), c.imports.len()));
    }
    for (i, im) in c.imports.iter().enumerate() {
        let name = format!("{}{i}", if im.kind % 4 == 3 { "a" } else { "n" });
        let got = found.get(&name).ok_or_else(|| format!("{name} is not imported\n{file}"))?;
        match (&c.from, im.path) {
            (Some(from), true) => {
                // Genco counts from the file itself: `..` leads to its directory.
                let there = walk(&format!("{from}/{got}"));
                if got.starts_with('/') || there != walk(&im.module) {
                    return Err(format!(
                        "{got:?} from {from:?} leads to {there:?} and not to {:?}\n{file}",
                        im.module
                    ));
                }
                // Without a detour.
                let (f, t) = (walk(from), walk(&im.module));
                let n = f.iter().zip(&t).take_while(|(a, b)| a == b).count();
                if walk(got).len() != f.len() + t.len() - 2 * n {
                    return Err(format!("{got:?} from {from:?} to {:?} is not direct", im.module));
                }
            }
            _ => {
                // Paths with the same components are the same path.
                let same = |o: &&Imp| o.path && im.path && parts(&o.module) == parts(&im.module);
                let ok = got == &im.module || c.imports.iter().filter(same).any(|o| &o.module == got);
                if !ok {
                    return Err(format!("module {:?} is imported as {got:?}\n{file}", im.module));
                }
            }
        }
    }
    Ok(())
}

fn parts(p: &str) -> Vec<&str> {
    p.split('/').filter(|c| !c.is_empty()).collect()
}

fn comp() -> BoxedStrategy<String> {
    prop_oneof![
        8 => prop::sample::select(vec!["a", "b", "c", "a.js", "b.js", "index", "node_modules"]).prop_map(String::from),
        1 => Just("..".to_string()),
        1 => Just(".".to_string()),
        1 => prop::sample::select(vec!["with space", "q\"uote", "it's", "$ {x}", "${x}", "back\\slash", "é世😊", "`", "...", "..a", "a.."]).prop_map(String::from),
        1 => "[^/]{1,6}",
    ]
    .boxed()
}

fn path(max: usize) -> BoxedStrategy<String> {
    let comps = prop_oneof![
        24 => prop::collection::vec(comp(), 1..max),
        1 => prop::collection::vec(comp(), 1..max * 8),
    ];
    (comps, any::<u8>())
        .prop_map(|(c, h)| {
            let mut s = c.join("/");
            match h % 16 {
                0 => s = format!("./{s}"),
                1 => s = s.replacen('/', "//", 1),
                2 => s = format!("{s}/"),
                _ => {}
            }
            s
        })
        .boxed()
}

fn gen() -> BoxedStrategy<Case> {
    let imp = (path(7), any::<bool>(), any::<u8>(), any::<u8>()).prop_map(|(module, path, kind, how)| Imp {
        module,
        path,
        kind,
        how,
    });
    (
        prop::option::weighted(0.8, path(7)),
        prop::collection::vec((imp, 0u8..8), 1..5),
    )
        .prop_map(|(from, imports)| {
            let mut imports: Vec<Imp> = imports
                .into_iter()
                .map(|(mut i, share)| {
                    if let (Some(f), true) = (&from, share < 4 && i.path) {
                        // A prefix of the file's path, so that there is something in common.
                        let c: Vec<&str> = f.split('/').collect();
                        let n = (share as usize * 2 + 1).min(c.len());
                        i.module = format!("{}/{}", c[..n].join("/"), i.module);
                        if share == 3 {
                            i.module = f.clone();
                        }
                    }
                    i
                })
                .collect();
            if let Some(f) = &from {
                for i in &mut imports {
                    if i.path && !reachable(f, &i.module) {
                        i.path = false;
                    }
                }
            }
            Case { from, imports }
        })
        .boxed()
}

pub fn check(cx: &mut Ctx) {
    let n = cx.n(60_000, 3_000_000);
    cx.part(
        "paths",
        "a location is configured and some module is given by path; up to four imports of all kinds; paths up to a dozen components with `.`, `..`, doubled and trailing separators, quotes and other special characters; oracle: resolution of the decoded path",
        n,
        gen,
        |c| c.from.is_some() && c.imports.iter().any(|i| i.path),
        case,
    );
    cx.part(
        "deep",
        "both paths share up to 300 folders, and have up to 300 of their own; same oracle; non-trivial: more than a dozen",
        n / 30,
        || {
            let d = || prop_oneof![2 => 0usize..20, 1 => 20usize..300];
            (d(), d(), d(), prop::sample::select(vec!["a", "ab", "é", "a b"]).prop_map(String::from), any::<u8>(), any::<u8>())
        },
        |(s, a, b, ..)| s + a + b > 12,
        |(s, a, b, name, kind, how)| {
            let path = |of: &str, n: usize| {
                let mut p: Vec<String> = (0..*s).map(|i| format!("{name}{}", i % 7)).collect();
                p.extend((0..n).map(|i| format!("{of}{i}")));
                p.push(format!("{of}.js"));
                p.join("/")
            };
            case(&Case {
                from: Some(path("x", *a)),
                imports: vec![Imp { module: path("y", *b), path: true, kind: *kind, how: *how }],
            })
        },
    );
    // Every pair of short paths over a small alphabet.
    let names = ["a", "b", ".."];
    let mut paths = Vec::new();
    for n in 1..=4u32 {
        for k in 0..3usize.pow(n) {
            let p: Vec<&str> = (0..n).map(|i| names[k / 3usize.pow(i) % 3]).collect();
            paths.push(p.join("/"));
        }
    }
    let mut all = Vec::new();
    for f in &paths {
        for t in &paths {
            if reachable(f, t) {
                all.push(Case {
                    from: Some(f.clone()),
                    imports: vec![Imp { module: t.clone(), path: true, kind: (all.len() % 4) as u8, how: 0 }],
                });
            }
        }
    }
    cx.list(
        "small",
        "every pair of paths of up to four components out of `a`, `b` and `..`",
        all,
        |_| true,
        case,
    );
}
