//! Compiles and runs batches of generated programs against the current genco.

use std::io::Read;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

use serde_json::Value;

#[derive(Debug, Clone)]
pub struct Diag {
    /// Line within the case's own source, counted from zero.
    pub line: usize,
    /// Last line.
    pub end: usize,
    pub msg: String,
    pub code: String,
}

#[derive(Debug, Clone)]
pub enum Outcome {
    Errors(Vec<Diag>),
    Out(Vec<String>),
    Panic(String),
    Died(String),
    /// Compiled (when not run).
    Compiled,
}

pub struct Rustc {
    /// What rustc needs to find genco and the runtime crate.
    link: Vec<String>,
    dir: PathBuf,
    pub invocations: AtomicU64,
}

impl Drop for Rustc {
    fn drop(&mut self) {
        std::fs::remove_dir_all(&self.dir).ok();
    }
}

const HEADER: &str = "#![allow(warnings)]\nuse genco::{quote, quote_in, quote_fn};\nuse rt::*;\n";

impl Rustc {
    /// Build genco and the runtime crate from the current working tree.
    pub fn new(root: &Path) -> Rustc {
        let target = PathBuf::from(std::env::var("CARGO_TARGET_DIR").expect("CARGO_TARGET_DIR"));
        let _ = Command::new("cargo")
            .args(["clean", "--offline", "-q", "-p", "genco", "-p", "genco-macros"])
            .current_dir(root.join("rt"))
            .stderr(Stdio::null())
            .status();
        let out = Command::new("cargo")
            .args(["build", "--offline", "-q", "--message-format=json"])
            .current_dir(root.join("rt"))
            .stderr(Stdio::inherit())
            .output()
            .expect("cargo");
        let text = String::from_utf8_lossy(&out.stdout);
        let mut link = Vec::new();
        let mut found = 0;
        for l in text.lines() {
            let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
            if v["reason"] == "compiler-message" && v["message"]["level"] == "error" {
                eprintln!("{}", v["message"]["rendered"].as_str().unwrap_or(""));
            }
            if v["reason"] != "compiler-artifact" {
                continue;
            }
            let name = v["target"]["name"].as_str().unwrap_or("");
            let files: Vec<&str> = v["filenames"]
                .as_array()
                .map(|f| f.iter().filter_map(|x| x.as_str()).collect())
                .unwrap_or_default();
            for f in &files {
                let dir = Path::new(f).parent().unwrap_or(Path::new("."));
                let dir = format!("dependency={}", dir.display());
                if !link.contains(&dir) {
                    link.push("-L".to_string());
                    link.push(dir);
                }
            }
            if name == "genco" || name == "rt" {
                found += 1;
                for f in files {
                    link.push("--extern".to_string());
                    link.push(format!("{name}={f}"));
                }
            }
        }
        if found != 2 || !out.status.success() {
            eprintln!("error: building {}/rt failed", root.display());
            std::process::exit(3);
        }
        let dir = target.join(format!("progs-{}", std::process::id()));
        std::fs::create_dir_all(&dir).expect("scratch");
        Rustc {
            link,
            dir,
            invocations: AtomicU64::new(0),
        }
    }

    /// Returns None on success, otherwise the errors (with lines of the file, from zero).
    fn compile(&self, src: &Path, bin: &Path, run: bool) -> Option<Vec<Diag>> {
        self.invocations.fetch_add(1, Ordering::Relaxed);
        let mut c = Command::new("rustc");
        c.arg("--edition=2021")
            .args(["--error-format=json", "--cap-lints=allow", "-Cdebuginfo=0", "-Copt-level=0"])
            .args(["--crate-name", "case", "--crate-type=bin"])
            .arg(if run { "--emit=link" } else { "--emit=metadata" })
            .args(&self.link)
            .arg("-o")
            .arg(bin)
            .arg(src)
            .stdout(Stdio::null())
            .stderr(Stdio::piped())
            .stdin(Stdio::null());
        let (ok, text) = wait(c, Duration::from_secs(150), true);
        if ok == Some(true) {
            return None;
        }
        let mut diags = Vec::new();
        for l in text.lines() {
            let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
            if v["level"] != "error" {
                continue;
            }
            let msg = v["message"].as_str().unwrap_or("").to_string();
            let code = v["code"]["code"].as_str().unwrap_or("").to_string();
            let mut spans: Vec<&Value> = v["spans"].as_array().map(|a| a.iter().collect()).unwrap_or_default();
            spans.sort_by_key(|s| s["is_primary"] != true);
            for s in spans.into_iter().take(1) {
                // Follow macro expansions back to the generated file.
                let mut s = s;
                while !s["file_name"].as_str().unwrap_or("").ends_with("cases.rs")
                    && s["expansion"]["span"].is_object()
                {
                    s = &s["expansion"]["span"];
                }
                diags.push(Diag {
                    line: (s["line_start"].as_u64().unwrap_or(1) as usize) - 1,
                    end: (s["line_end"].as_u64().unwrap_or(1) as usize) - 1,
                    msg: msg.clone(),
                    code: code.clone(),
                });
            }
        }
        if ok.is_none() {
            diags.clear();
        }
        Some(diags)
    }

    /// Compile (and run) cases; each source is a list of items defining `pub fn run() -> Vec<String>`.
    pub fn batch(&self, name: &str, cases: &[String], run: bool) -> Vec<Outcome> {
        let mut res: Vec<Option<Outcome>> = vec![None; cases.len()];
        let all: Vec<usize> = (0..cases.len()).collect();
        self.batch_inner(name, cases, &all, run, &mut res);
        res.into_iter().map(|r| r.unwrap()).collect()
    }

    fn batch_inner(
        &self,
        name: &str,
        cases: &[String],
        idx: &[usize],
        run: bool,
        res: &mut [Option<Outcome>],
    ) {
        let mut active: Vec<usize> = idx.to_vec();
        let dir = self.dir.join(name);
        std::fs::create_dir_all(&dir).expect("scratch");
        let (file, bin) = (dir.join("cases.rs"), dir.join("case.bin"));
        loop {
            if active.is_empty() {
                break;
            }
            let mut text = String::from(HEADER);
            let mut line = HEADER.lines().count();
            let mut starts = Vec::new();
            for &i in &active {
                text.push_str(&format!("mod c{i} {{ use super::*;\n"));
                line += 1;
                starts.push((line, line + cases[i].lines().count()));
                text.push_str(&cases[i]);
                if !cases[i].ends_with('\n') {
                    text.push('\n');
                }
                text.push_str("}\n");
                line = starts.last().unwrap().1 + 1;
            }
            text.push_str("fn main() {\n");
            for &i in &active {
                text.push_str(&format!("    rt::run({i}, c{i}::run);\n"));
            }
            text.push_str("}\n");
            std::fs::write(&file, &text).expect("write program");
            let Some(diags) = self.compile(&file, &bin, run) else { break };
            let mut found = false;
            let first = diags.first().map(|d| format!("{} {}", d.code, d.msg)).unwrap_or_default();
            for d in diags {
                if let Some(k) = starts.iter().position(|(a, b)| *a <= d.line && d.line < *b) {
                    found = true;
                    let d = Diag { line: d.line - starts[k].0, end: d.end - starts[k].0, ..d };
                    match &mut res[active[k]] {
                        Some(Outcome::Errors(v)) => v.push(d),
                        r => *r = Some(Outcome::Errors(vec![d])),
                    }
                }
            }
            if found {
                active.retain(|i| res[*i].is_none());
                continue;
            }
            if active.len() == 1 {
                res[active[0]] = Some(Outcome::Died(format!(
                    "the compiler failed without an error located in the program: {first}"
                )));
                return;
            }
            let (a, b) = active.split_at(active.len() / 2);
            self.batch_inner(name, cases, a, run, res);
            self.batch_inner(name, cases, b, run, res);
            return;
        }
        if !run {
            for i in active {
                res[i] = Some(Outcome::Compiled);
            }
            return;
        }
        if active.is_empty() {
            return;
        }
        let mut c = Command::new(&bin);
        c.stdout(Stdio::piped()).stderr(Stdio::null()).stdin(Stdio::null());
        let (_, text) = wait(c, Duration::from_secs(20), false);
        for l in text.lines() {
            let mut f = l.split('\t');
            let Some(i) = f.next().and_then(|k| k.parse::<usize>().ok()) else { continue };
            if !active.contains(&i) {
                continue;
            }
            let rest: Vec<&str> = f.collect();
            res[i] = Some(if rest.first() == Some(&"PANIC") {
                Outcome::Panic(rest.get(1).map(|s| unesc(s)).unwrap_or_default())
            } else {
                Outcome::Out(rest.iter().map(|s| unesc(s)).collect())
            });
        }
        let missing: Vec<usize> = active.iter().copied().filter(|i| res[*i].is_none()).collect();
        if missing.is_empty() {
            return;
        }
        if active.len() == 1 {
            res[active[0]] = Some(Outcome::Died("the program died or ran out of time".into()));
            return;
        }
        // The first case without a result is the one which died.
        self.batch_inner(name, cases, &missing[..1], run, res);
        if missing.len() > 1 {
            self.batch_inner(name, cases, &missing[1..], run, res);
        }
    }
}

fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.strip_prefix('=').unwrap_or(s).chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}

/// Wait with a time limit; None if it ran out of time. Reads stderr or stdout.
fn wait(mut c: Command, limit: Duration, err: bool) -> (Option<bool>, String) {
    let mut child = c.spawn().expect("spawn");
    let reader: Box<dyn Read + Send> = if err {
        Box::new(child.stderr.take().unwrap())
    } else {
        Box::new(child.stdout.take().unwrap())
    };
    let h = std::thread::spawn(move || {
        let mut b = Vec::new();
        reader.take(64 << 20).read_to_end(&mut b).ok();
        b
    });
    let start = Instant::now();
    let mut nap = 2;
    let status = loop {
        if let Some(s) = child.try_wait().expect("wait") {
            break Some(s.success());
        }
        if start.elapsed() > limit {
            child.kill().ok();
            child.wait().ok();
            break None;
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(20);
    };
    let b = h.join().unwrap();
    (status, String::from_utf8_lossy(&b).into_owned())
}
