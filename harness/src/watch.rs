//! Hangs and aborts. A case of the code under test that never returns,
//! overflows the stack or eats all memory takes the process with it, so a
//! check runs in a child. When the child dies, the run is repeated (it is
//! deterministic) with every worker noting its case before running it; the
//! noted cases are then replayed on their own, and one that doesn't return
//! by itself is reduced and reported.

use std::io::{BufRead, BufReader};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::run::HUNG;

/// What became of a child.
enum End {
    Code(i32),
    /// A signal, the watchdog, or the time limit.
    Died(String),
}

fn wait(child: &mut Child, limit: Option<Duration>) -> End {
    let start = Instant::now();
    loop {
        if let Some(status) = child.try_wait().expect("wait") {
            return match status.code() {
                Some(HUNG) => End::Died("it doesn't return, or takes up all memory".into()),
                Some(c) => End::Code(c),
                None => End::Died(format!("the process is ended: {status}")),
            };
        }
        if limit.is_some_and(|l| start.elapsed() > l) {
            child.kill().ok();
            child.wait().ok();
            return End::Died(format!("it doesn't return within {:?}", limit.unwrap()));
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

fn me(args: &[String]) -> Command {
    let mut c = Command::new(std::env::current_exe().expect("current_exe"));
    c.args(args).env("VERIF_CHILD", "1");
    c
}

/// Run a check in a child, passing on what it prints. Also tells if it
/// reported a violation.
fn check(args: &[String], journal: Option<&Path>) -> (End, bool) {
    let mut c = me(args);
    if let Some(j) = journal {
        c.env("VERIF_JOURNAL", j);
    }
    let mut child = c.stdout(Stdio::piped()).spawn().expect("spawn");
    let out = child.stdout.take().unwrap();
    let lines = std::thread::spawn(move || {
        let mut hit = false;
        for l in BufReader::new(out).lines().map_while(Result::ok) {
            hit |= l.starts_with("VIOLATION ");
            println!("{l}");
        }
        hit
    });
    let end = wait(&mut child, None);
    (end, lines.join().unwrap())
}

/// Replay a noted case on its own, and tell how it dies if it does.
fn dies(dir: &Path, v: &Value, limit: Duration) -> Option<String> {
    let path = dir.join("candidate.json");
    std::fs::write(&path, v.to_string()).ok()?;
    let args = ["replay".to_string(), path.display().to_string()];
    let mut child = me(&args)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    match wait(&mut child, Some(limit)) {
        End::Died(m) => Some(m),
        End::Code(_) => None,
    }
}

/// All cases with one element of one list left out, largest lists first.
fn smaller(v: &Value) -> Vec<Value> {
    let mut out = Vec::new();
    match v {
        Value::Array(a) => {
            for n in [a.len() / 2, a.len() / 4, 1] {
                if n == 0 {
                    continue;
                }
                for i in (0..a.len()).step_by(n) {
                    let mut b = a.clone();
                    b.drain(i..(i + n).min(a.len()));
                    out.push(Value::Array(b));
                }
            }
            for (i, e) in a.iter().enumerate() {
                for e in smaller(e) {
                    let mut b = a.clone();
                    b[i] = e;
                    out.push(Value::Array(b));
                }
            }
        }
        Value::Object(o) => {
            for (k, e) in o {
                for e in smaller(e) {
                    let mut b = o.clone();
                    b.insert(k.clone(), e);
                    out.push(Value::Object(b));
                }
            }
        }
        _ => {}
    }
    out
}

fn reduce(dir: &Path, mut v: Value, limit: Duration) -> Value {
    let start = Instant::now();
    'again: loop {
        for case in smaller(&v["case"]) {
            if start.elapsed() > Duration::from_secs(90) {
                return v;
            }
            let mut w = v.clone();
            w["case"] = case;
            if dies(dir, &w, limit).is_some() {
                v = w;
                continue 'again;
            }
        }
        return v;
    }
}

pub fn supervise(args: &[String], root: &Path) -> i32 {
    if args[0] == "replay" {
        let mut child = me(args).spawn().expect("spawn");
        return match wait(&mut child, Some(Duration::from_secs(120))) {
            End::Code(c) => c,
            End::Died(m) => {
                println!("REPLAY: FAILS\n{m}");
                1
            }
        };
    }
    let id = args[1].as_str();
    let (end, hit) = check(args, None);
    let how = match end {
        End::Code(c) => return c,
        End::Died(m) => m,
    };
    println!("{id}: the check did not come to an end ({how})");
    if hit {
        return 1;
    }
    let dir: PathBuf = root.join("target").join(format!("journal-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("journal");
    let (end, hit) = check(args, Some(&dir));
    let code = match end {
        End::Code(c) => c,
        End::Died(_) if hit => 1,
        End::Died(_) => blame(id, root, &dir),
    };
    std::fs::remove_dir_all(&dir).ok();
    code
}

/// Find the case to blame among the noted ones.
fn blame(id: &str, root: &Path, dir: &Path) -> i32 {
    let mut noted = Vec::new();
    for e in std::fs::read_dir(dir).expect("journal").flatten() {
        let text = std::fs::read_to_string(e.path()).unwrap_or_default();
        if let Ok(v) = serde_json::from_str::<Value>(&text) {
            noted.push(v);
        }
    }
    noted.sort_by_key(|v| v.to_string().len());
    for v in noted {
        if dies(dir, &v, Duration::from_secs(30)).is_none() {
            continue;
        }
        let v = reduce(dir, v, Duration::from_secs(5));
        let Some(how) = dies(dir, &v, Duration::from_secs(30)) else {
            continue;
        };
        let part = v["part"].as_str().unwrap_or_default().to_string();
        let replays = root.join("replays");
        std::fs::create_dir_all(&replays).ok();
        let path = replays.join(format!("{id}-{part}.json"));
        let v = json!({"property": id, "part": part, "case": v["case"], "message": how});
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("write replay");
        let ev = json!({
            "property": id,
            "tier": std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
            "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64),
            "level": if id == "C04" { "fault_enumeration" } else { "exploration" },
            "coverage": {
                "evaluations": 1,
                "distinct_nontrivial": 1,
                "rule": "the run ended early: a case did not return",
                "samples": [v["case"]],
            },
            "assumptions": [],
            "wall_s": 0.0,
            "violations": 1,
        });
        std::fs::create_dir_all(root.join("evidence")).ok();
        std::fs::write(
            root.join("evidence").join(format!("{id}.json")),
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        )
        .expect("write evidence");
        println!("--- {id} / {part}: {how}");
        println!("VIOLATION property={id} replay={}", path.display());
        return 1;
    }
    println!("{id}: no noted case fails on its own");
    3
}
