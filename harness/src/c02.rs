//! C02: rendering against the reference renderer, and output invariants.

use crate::c01::{alphabet, words};
use crate::model::*;
use crate::run::Ctx;

fn nontrivial(ops: &Vec<Op>) -> bool {
    Model::of(ops).items.iter().filter(|i| matches!(i, MI::Push | MI::Line | MI::Space | MI::Ind(_))).count() >= 2
}

pub fn case(ops: &Vec<Op>) -> Result<(), String> {
    let t = build(ops);
    let want = render(&Model::of(ops).items, "    ", "\n");
    let got = t.to_string().map_err(|e| format!("to_string: {e:?}"))?;
    if got != want {
        return Err(format!("to_string: {}", diff(&want, &got)));
    }
    let file = t.to_file_string().map_err(|e| format!("to_file_string: {e:?}"))?;
    let want_file = format!("{want}\n");
    if file != want_file {
        return Err(format!("to_file_string: {}", diff(&want_file, &file)));
    }
    let v = t.to_vec().map_err(|e| format!("to_vec: {e:?}"))?;
    if v.join("\n") != want {
        return Err(format!("to_vec: {}", diff(&want, &v.join("\n"))));
    }
    let v = t.to_file_vec().map_err(|e| format!("to_file_vec: {e:?}"))?;
    if v.join("\n") != want {
        return Err(format!("to_file_vec: {}", diff(&want, &v.join("\n"))));
    }
    Ok(())
}

/// Invariants on the output, not using the model: literals are plain words.
fn invariants(ops: &Vec<Op>) -> Result<(), String> {
    let t = build(ops);
    let v = t.to_vec().map_err(|e| format!("{e:?}"))?;
    for (i, l) in v.iter().enumerate() {
        if l.ends_with(' ') {
            return Err(format!("line {i} has trailing whitespace: {l:?}"));
        }
        let trimmed = l.trim_start_matches(' ');
        if trimmed.contains("  ") {
            return Err(format!("line {i} has doubled space: {l:?}"));
        }
        let lead = l.len() - trimmed.len();
        if lead % 4 > 1 {
            return Err(format!("line {i} indented by {lead}"));
        }
        if l.is_empty() && v.get(i + 1).is_some_and(|n| n.is_empty()) {
            return Err("two empty lines in a row".to_string());
        }
    }
    if v.len() > 1 && (v[0].is_empty() || v.last().unwrap().is_empty()) {
        return Err("empty first or last line".into());
    }
    let f = t.to_file_string().map_err(|e| format!("{e:?}"))?;
    if !f.ends_with('\n') || (f.len() > 1 && f.ends_with("\n\n")) {
        return Err(format!("file does not end in exactly one line ending: {f:?}"));
    }
    Ok(())
}

/// Files written one after the other through one formatter, each out of streams
/// rendered one after the other.
fn sequence(files: &Vec<Vec<Vec<Op>>>) -> Result<(), String> {
    let config = genco::fmt::Config::from_lang::<TLang>();
    let mut w = genco::fmt::FmtWriter::new(String::new());
    let mut want = String::new();
    {
        let mut f = w.as_formatter(&config);
        for (k, parts) in files.iter().enumerate() {
            // Starts with text, and ends at the level of its start.
            let mut parts = parts.clone();
            parts.insert(0, vec![Op::Lit(format!("file{k}"), 0)]);
            let items = |parts: &[Vec<Op>]| parts.iter().flat_map(|p| Model::of(p).items).collect::<Vec<_>>();
            let net: i32 = items(&parts).iter().map(|i| if let MI::Ind(n) = i { *n } else { 0 }).sum();
            parts.push(vec![Op::Indentation(-net as i8)]);
            let items = items(&parts);
            let last = parts.pop().unwrap();
            for p in &parts {
                build(p).format(&mut f, &(), &()).map_err(|e| format!("{e:?}"))?;
            }
            build(&last).format_file(&mut f, &()).map_err(|e| format!("{e:?}"))?;
            want += &render(&items, "    ", "\n");
            want += "\n";
        }
    }
    let got = w.into_inner();
    if got != want {
        return Err(format!("one after the other: {}", diff(&want, &got)));
    }
    Ok(())
}

pub fn check(cx: &mut Ctx) {
    let depth = if cx.thorough { 6 } else { 5 };
    // A literal first and last, so that whitespace in between is realised.
    let mut all = words(&alphabet(), depth);
    let mut more = Vec::new();
    for w in words(&alphabet(), depth - 1) {
        let mut v = vec![Op::Lit("x".into(), 0)];
        v.extend(w);
        v.push(Op::Lit("y".into(), 0));
        more.push(v);
    }
    all.extend(more);
    cx.list(
        "short-streams",
        "every operation sequence up to the length bound, alone and between two literals; non-trivial: at least two whitespace items survive in the stream",
        all,
        nontrivial,
        case,
    );
    let n = cx.n(30_000, 400_000);
    cx.part(
        "streams",
        "random histories of up to 40 operations incl. strings with interpolation; non-trivial: at least two whitespace items in the stream",
        n,
        || history(true, 40),
        nontrivial,
        case,
    );
    use proptest::prelude::*;
    cx.part(
        "sequence",
        "up to 3 files out of up to 4 streams each, written through one formatter; oracle: the reference renderer on the items of a file together, one file after the other; non-trivial: several streams, and at least two whitespace items",
        n / 2,
        || prop::collection::vec(prop::collection::vec(history(true, 8), 1..4), 1..4),
        |f| f.iter().map(Vec::len).sum::<usize>() > 1 && nontrivial(&f.concat().concat()),
        sequence,
    );
    cx.part(
        "invariants",
        "random histories over word literals; output inspected line by line without the model; non-trivial as above",
        n / 2,
        || {
            prop::collection::vec(
                prop_oneof![
                    Just(Op::Lit("w".into(), 0)),
                    Just(Op::Space(0)),
                    Just(Op::Push(0)),
                    Just(Op::Line(0)),
                    Just(Op::Indent(0)),
                    Just(Op::Unindent(0)),
                    Just(Op::Reg(0, 0)),
                    Just(Op::Lit("".into(), 0)),
                ],
                0..40,
            )
        },
        nontrivial,
        invariants,
    );
}
