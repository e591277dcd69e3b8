mod eval;
mod gen;
mod layout;
mod quo;
mod reject;
#[path = "../../harness/src/run.rs"]
#[allow(dead_code)]
mod run;
mod rustc;
mod search;
mod soup;
#[path = "../../harness/src/stream.rs"]
#[allow(dead_code)]
mod stream;

use std::path::PathBuf;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let (id, replay) = match args.get(1).map(String::as_str) {
        Some("check") => (args[2].clone(), None),
        Some("replay") => {
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("read replay"))
                    .expect("parse replay");
            (
                v["property"].as_str().unwrap().to_string(),
                Some((v["part"].as_str().unwrap().to_string(), v["case"].clone())),
            )
        }
        _ => {
            eprintln!("usage: progs check <ID> | replay <file>");
            std::process::exit(2);
        }
    };
    let rc = rustc::Rustc::new(&root);
    let mut cx = run::Ctx::new(&id, root, replay);
    cx.mult = 2.5;
    match id.as_str() {
        "C12" => layout::c12(&mut cx, &rc),
        "C13" => reject::c13(&mut cx, &rc),
        "C17" => reject::c17(&mut cx, &rc),
        "C14" => layout::c14(&mut cx, &rc),
        "C15" => layout::c15(&mut cx, &rc),
        "C24" => soup::c24(&mut cx, &rc),
        "C16" => layout::c16(&mut cx, &rc),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
    drop(rc);
    std::process::exit(cx.finish());
}
