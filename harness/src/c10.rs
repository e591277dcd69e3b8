//! C10: references resolve to the imported item.

use crate::langs::{self, *};
use crate::lits::LangId;
use crate::run::Ctx;

pub fn case(d: &Doc) -> Result<(), String> {
    let f = langs::file(d)?;
    let p = parse(d, &f).map_err(|e| format!("{e}\n--- file\n{f}"))?;
    let check = |text: &str, want: &[usize], place: &str| -> Result<(), String> {
        let got = spelled(text)?;
        if got.len() != want.len() {
            return Err(format!("{} references in {place}, expected {}", got.len(), want.len()));
        }
        for (r, i) in got.iter().zip(want) {
            let want = target(d, &d.pool[*i]);
            match resolve(d, &p, r) {
                Ok(t) if t == want => {}
                Ok(t) => return Err(format!("`{r}` refers to {t}, not to {want}")),
                Err(e) => return Err(format!("`{r}` for {want}: {e}")),
            }
        }
        Ok(())
    };
    let run = || {
        check(&p.body, &refs(&d.pool, &d.body), "the body")?;
        for x in &p.decls {
            if let Decl::NixLet { name, value } = x {
                let spec = used(&d.pool, &d.body)
                    .into_iter()
                    .find_map(|i| match &d.pool[i] {
                        Spec::NixVar { name: n, value } if n == name => Some(value),
                        _ => None,
                    })
                    .ok_or_else(|| format!("unknown variable {name}"))?;
                check(value, &refs(&d.pool, spec), name)?;
            }
        }
        Ok(())
    };
    run().map_err(|e: String| format!("{e}\n--- file\n{f}"))
}

/// A fragment of Java has no header, so that a type must resolve by itself: by
/// its qualified name, or by being in the package which is always imported.
fn fragment(d: &Doc) -> Result<(), String> {
    let mut d = d.clone();
    d.conf = Conf::default();
    let mut t: genco::lang::java::Tokens = genco::Tokens::new();
    nodes(&mut t, &d.pool, &d.body);
    let text = t.to_string().map_err(|e| format!("to_string: {e:?}"))?;
    let p = Parsed::default();
    let got = spelled(&text)?;
    let want = refs(&d.pool, &d.body);
    if got.len() != want.len() {
        return Err(format!("{} references, expected {}\n--- fragment\n{text}", got.len(), want.len()));
    }
    for (r, i) in got.iter().zip(want) {
        let want = target(&d, &d.pool[i]);
        match resolve(&d, &p, r) {
            Ok(t) if t == want => {}
            Ok(t) => return Err(format!("`{r}` refers to {t}, not to {want}\n--- fragment\n{text}")),
            Err(e) => return Err(format!("`{r}` for {want}: {e}\n--- fragment\n{text}")),
        }
    }
    Ok(())
}

fn nontrivial(d: &Doc) -> bool {
    refs(&d.pool, &d.body).len() >= 2
}

pub fn check(cx: &mut Ctx) {
    for l in crate::lits::ALL {
        let n = cx.n(500, 20_000);
        cx.part(&format!("crowd-{l:?}"), "at least two references (typically dozens, many from one module); oracle: as for resolve", n, || crowd(l), nontrivial, case);
    }
    for l in crate::lits::ALL {
        let n = cx.n(6000, 240_000);
        cx.part(
            &format!("resolve-{l:?}"),
            "at least two references; oracle: name resolution of the target language over the parsed header and the items in use",
            n,
            || doc_for(l),
            nontrivial,
            case,
        );
    }
    let n = cx.n(6000, 240_000);
    cx.part(
        "fragment-Java",
        "at least two references, rendered without a header (to_string); oracle: name resolution without any imports",
        n,
        || doc_for(LangId::Java),
        nontrivial,
        fragment,
    );
}
