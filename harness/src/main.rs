mod model;
mod run;
mod stream;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c18;
mod c20;
mod c21;
mod c22;
mod c19;
mod c23;
mod langs;
mod lits;
mod tools;
mod watch;

use std::path::PathBuf;

fn main() {
    run::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    if std::env::var_os("VERIF_CHILD").is_none()
        && args.len() > 2
        && matches!(args[1].as_str(), "check" | "replay")
    {
        std::process::exit(watch::supervise(&args[1..], &root));
    }
    let (id, replay) = match args.get(1).map(String::as_str) {
        Some("check") => (args[2].clone(), None),
        Some("replay") => {
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("read replay"))
                    .expect("parse replay");
            (
                v["property"].as_str().unwrap().to_string(),
                Some((v["part"].as_str().unwrap().to_string(), v["case"].clone())),
            )
        }
        _ => {
            eprintln!("usage: harness check <ID> | replay <file>");
            std::process::exit(2);
        }
    };
    let mut cx = run::Ctx::new(&id, root, replay);
    cx.mult = 6.0;
    let limit = match (cx.thorough, std::env::var_os("VERIF_JOURNAL").is_some()) {
        (true, _) => 300,
        (false, false) => 60,
        (false, true) => 45,
    };
    run::watchdog(std::time::Duration::from_secs(limit));
    match id.as_str() {
        "C01" => c01::check(&mut cx),
        "C02" => c02::check(&mut cx),
        "C03" => c03::check(&mut cx),
        "C04" => c04::check(&mut cx),
        "C05" => c05::check(&mut cx),
        "C06" => c06::check(&mut cx),
        "C07" => c07::check(&mut cx),
        "C08" => c08::check(&mut cx),
        "C09" => c09::check(&mut cx),
        "C10" => c10::check(&mut cx),
        "C11" => c11::check(&mut cx),
        "C18" => c18::check(&mut cx),
        "C20" => c20::check(&mut cx),
        "C21" => c21::check(&mut cx),
        "C22" => c22::check(&mut cx),
        "C19" => c19::check(&mut cx),
        "C23" => c23::check(&mut cx),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
    std::process::exit(cx.finish());
}
