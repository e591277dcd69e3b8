//! C11: files are declaration, header and body.

use crate::langs::{self, *};
use crate::lits::LangId;
use crate::model::{self, diff, Model, MI};
use crate::run::Ctx;
use proptest::prelude::*;

fn text(ns: &[Node]) -> bool {
    ns.iter().any(|n| match n {
        Node::Text(_) | Node::Use(..) | Node::Quoted(..) | Node::Eval(..) => true,
        Node::Block(ns) | Node::Nest(_, ns) => text(ns),
        _ => false,
    })
}

/// The body as it renders on its own, with the given spelling of references.
fn alone(d: &Doc, ns: &[Node], spell: Vec<String>, level: i32) -> String {
    let mut m = Model { items: Vec::new() };
    if level > 0 {
        m.add(MI::Ind(level));
    }
    langs::model(d.lang, ns, &mut spell.into_iter(), &mut m);
    model::render(&m.items, "    ", "\n")
}

pub fn case(d: &Doc) -> Result<(), String> {
    let f = langs::file(d)?;
    run(d, &f).map_err(|e| format!("{e}\n--- file\n{f}"))
}

fn run(d: &Doc, f: &str) -> Result<(), String> {
    let p = parse(d, f)?;
    let spell = spelled(&p.body)?;
    if let (LangId::Csharp, Some(ns), false) = (&d.lang, &d.conf.package, text(&d.body)) {
        // There is nothing in the block, so its whitespace is not specified.
        let squeeze = |s: &str| s.chars().filter(|c| !c.is_whitespace()).collect::<String>();
        return match squeeze(&p.body) == squeeze(&format!("namespace {ns} {{}}")) && p.body.ends_with("}\n") {
            true => Ok(()),
            false => Err(format!("body: {:?}", p.body)),
        };
    }
    let body = match (&d.lang, &d.conf.package) {
        (LangId::Csharp, Some(ns)) => {
            format!("namespace {ns} {{\n{}\n}}", alone(d, &d.body, spell, 1))
        }
        _ => alone(d, &d.body, spell, 0),
    };
    // Header and separator were checked by the parser; what is left is the body.
    let any_header = p.package.is_some() || !p.header.is_empty();
    let want = match (body.is_empty(), any_header) {
        (true, true) => String::new(),
        _ => format!("{body}\n"),
    };
    if p.body != want {
        return Err(format!("body: {}", diff(&want, &p.body)));
    }
    if d.lang == LangId::Nix {
        for x in &p.decls {
            let Decl::NixLet { name, value } = x else { continue };
            let spec = used(&d.pool, &d.body)
                .into_iter()
                .find_map(|i| match &d.pool[i] {
                    Spec::NixVar { name: n, value } if n == name => Some(value),
                    _ => None,
                })
                .ok_or_else(|| format!("unknown variable {name}"))?;
            let want = alone(d, spec, spelled(value)?, 0);
            if *value != want {
                return Err(format!("value of {name}: {}", diff(&want, value)));
            }
        }
    }
    if d.lang == LangId::Nix {
        // Which declarations there are is decided by C09; for Nix it is part of the layout.
        check_header(d, &p)?;
    }
    Ok(())
}

fn trim(ns: &mut Vec<Node>) {
    let ws = |n: &Node| !text(std::slice::from_ref(n));
    while ns.first().is_some_and(ws) {
        ns.remove(0);
    }
    while ns.last().is_some_and(ws) {
        ns.pop();
    }
}

/// Whitespace at the edges of a body in a namespace merges with the whitespace
/// of the block, so a body there starts and ends with text.
fn normal(mut d: Doc) -> Doc {
    if d.lang == LangId::Csharp && d.conf.package.is_some() && text(&d.body) {
        trim(&mut d.body);
        d.body.insert(0, Node::Text("w0".into()));
        d.body.push(Node::Text("w9".into()));
    }
    d
}

fn nontrivial(d: &Doc) -> bool {
    text(&d.body) && (d.conf.package.is_some() || !used(&d.pool, &d.body).is_empty())
}

pub fn check(cx: &mut Ctx) {
    for l in crate::lits::ALL {
        let n = cx.n(400, 16_000);
        cx.part(
            &format!("crowd-{l:?}"),
            "the body has text and there is a declaration or an import (typically dozens); oracle: as for file",
            n,
            || crowd(l).prop_map(normal),
            nontrivial,
            case,
        );
    }
    for l in crate::lits::ALL {
        let n = cx.n(5000, 200_000);
        cx.part(
            &format!("file-{l:?}"),
            "the body has text and there is a declaration or an import; oracle: strict parse of declaration, header and separators, then body equal to the reference rendering",
            n,
            || doc_for(l).prop_map(normal),
            nontrivial,
            case,
        );
    }
    // Bodies without any import.
    let n = cx.n(6000, 200_000);
    cx.part(
        "no-imports",
        "body with text; oracle: file is the body (in its declaration) plus the final line ending",
        n,
        || {
            doc().prop_map(|mut d| {
                fn strip(ns: &mut Vec<Node>) {
                    ns.retain_mut(|n| match n {
                        Node::Use(..) | Node::Reg(..) | Node::Quoted(..) | Node::Eval(..) => false,
                        Node::Block(ns) | Node::Nest(_, ns) => {
                            strip(ns);
                            true
                        }
                        _ => true,
                    });
                }
                strip(&mut d.body);
                normal(d)
            })
        },
        |d| text(&d.body),
        case,
    );
    // Bodies of imports and whitespace only, or of nothing at all.
    for l in crate::lits::ALL {
        let n = cx.n(1500, 40_000);
        cx.part(
            &format!("no-text-{l:?}"),
            "there is a declaration or an import; the body has no text (imports are registered only); oracle: as above, with an empty body",
            n,
            || {
                doc_for(l).prop_map(|mut d| {
                    fn strip(ns: &mut Vec<Node>) {
                        for n in ns.iter_mut() {
                            if let Node::Use(i, h) = n {
                                *n = Node::Reg(*i, *h);
                            }
                        }
                        ns.retain_mut(|n| match n {
                            Node::Text(_) | Node::Use(..) | Node::Quoted(..) | Node::Eval(..) => false,
                            Node::Block(ns) | Node::Nest(_, ns) => {
                                strip(ns);
                                true
                            }
                            _ => true,
                        });
                    }
                    strip(&mut d.body);
                    d
                })
            },
            |d| d.conf.package.is_some() || !used(&d.pool, &d.body).is_empty(),
            case,
        );
    }
}
