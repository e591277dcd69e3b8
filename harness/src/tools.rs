//! Real language toolchains, used as second oracles where installed. Everything
//! happens in a scratch directory that is removed afterwards.

use crate::lits::LangId;
use std::path::PathBuf;
use std::process::{Command, Stdio};

pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        let p = std::env::temp_dir().join(format!("genco-verif-{}-{tag}", std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn available(cmd: &str) -> bool {
    Command::new(cmd)
        .arg(if cmd == "go" { "version" } else { "--version" })
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .map(|s| s.success())
        .unwrap_or(false)
}

pub fn tool_of(lang: LangId) -> Option<&'static str> {
    Some(match lang {
        LangId::Rust => "rustc",
        LangId::Java => "javac",
        LangId::Go => "go",
        LangId::C => "gcc",
        LangId::JavaScript => "node",
        LangId::Python => "python3",
        _ => return None,
    })
}

fn run(c: &mut Command) -> Result<Vec<u8>, String> {
    let o = c.stdin(Stdio::null()).output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        let mut e = String::from_utf8_lossy(&o.stderr).to_string();
        e.truncate((0..=e.len().min(1500)).rev().find(|i| e.is_char_boundary(*i)).unwrap());
        return Err(format!("{:?} failed: {e}", c.get_program()));
    }
    Ok(o.stdout)
}

/// Evaluate string expressions of the language with its own toolchain; the values
/// come back as text. `pre` is placed where local declarations go.
pub fn eval(lang: LangId, pre: &str, exprs: &[String]) -> Result<Vec<String>, String> {
    let dir = Scratch::new(&format!("{lang:?}"));
    let d = &dir.0;
    let out = match lang {
        LangId::Python => {
            let mut s = format!("import sys\n{pre}\ndef p(x): sys.stdout.write(x.encode('utf-8').hex()+'\\n')\n");
            for e in exprs {
                s.push_str(&format!("p({e})\n"));
            }
            std::fs::write(d.join("m.py"), s).unwrap();
            run(Command::new("python3").arg(d.join("m.py")))?
        }
        LangId::JavaScript => {
            let mut s = format!("\"use strict\";\n{pre}\nconst o=[];function p(x){{o.push(Buffer.from(x,'utf8').toString('hex'));}}\n");
            for e in exprs {
                s.push_str(&format!("p({e});\n"));
            }
            s.push_str("process.stdout.write(o.join('\\n')+'\\n');\n");
            std::fs::write(d.join("m.js"), s).unwrap();
            run(Command::new("node").arg(d.join("m.js")))?
        }
        LangId::C => {
            let mut s = String::from("#include <stdio.h>\nstatic void p(const char*s, unsigned long n){for(unsigned long i=0;i+1<n;i++)printf(\"%02x\",(unsigned char)s[i]);puts(\"\");}\n");
            s.push_str(pre);
            s.push_str("\nint main(void){\n");
            for e in exprs {
                s.push_str(&format!("{{static const char s[]={e};p(s,sizeof s);}}\n"));
            }
            s.push_str("return 0;}\n");
            std::fs::write(d.join("m.c"), s).unwrap();
            run(Command::new("gcc").args(["-w", "-O0", "-o"]).arg(d.join("m")).arg(d.join("m.c")))?;
            run(&mut Command::new(d.join("m")))?
        }
        LangId::Go => {
            let mut s = format!("package main\nimport (\"fmt\";\"os\";\"bufio\")\n{pre}\nfunc main() {{\nw := bufio.NewWriter(os.Stdout)\ndefer w.Flush()\n");
            for e in exprs {
                s.push_str(&format!("fmt.Fprintf(w, \"%x\\n\", {e})\n"));
            }
            s.push_str("}\n");
            std::fs::write(d.join("m.go"), s).unwrap();
            run(Command::new("go")
                .args(["run", "m.go"])
                .current_dir(d)
                .env("GOCACHE", d.join("cache"))
                .env("GOFLAGS", "-mod=mod")
                .env("GO111MODULE", "off")
                .env("GOPATH", d.join("path"))
                .env("GOTOOLCHAIN", "local"))?
        }
        LangId::Java => {
            let mut s = format!("import java.nio.charset.StandardCharsets;\npublic class M {{\n{pre}\nstatic void p(String s){{StringBuilder b=new StringBuilder();for(byte x:s.getBytes(StandardCharsets.UTF_8))b.append(String.format(\"%02x\",x));System.out.println(b);}}\n");
            for (i, chunk) in exprs.chunks(100).enumerate() {
                s.push_str(&format!("static void f{i}(){{\n"));
                for e in chunk {
                    s.push_str(&format!("p({e});\n"));
                }
                s.push_str("}\n");
            }
            s.push_str("public static void main(String[] a){\n");
            for i in 0..exprs.chunks(100).count() {
                s.push_str(&format!("f{i}();\n"));
            }
            s.push_str("}}\n");
            std::fs::write(d.join("M.java"), s).unwrap();
            run(Command::new("javac").args(["-encoding", "UTF-8", "-d"]).arg(d).arg(d.join("M.java")))?;
            run(Command::new("java").arg("-cp").arg(d).arg("M"))?
        }
        LangId::Rust => {
            let mut s = format!("#![allow(text_direction_codepoint_in_literal, unused)]\n{pre}\nfn p(s:&str){{let mut o=String::new();for b in s.bytes(){{o.push_str(&format!(\"{{b:02x}}\"));}}println!(\"{{o}}\");}}\nfn main(){{\n");
            for e in exprs {
                s.push_str(&format!("p({e});\n"));
            }
            s.push_str("}\n");
            std::fs::write(d.join("m.rs"), s).unwrap();
            run(Command::new("rustc").args(["--edition", "2021", "-o"]).arg(d.join("m")).arg(d.join("m.rs")))?;
            run(&mut Command::new(d.join("m")))?
        }
        _ => return Err("no toolchain".into()),
    };
    let out = String::from_utf8(out).map_err(|_| "tool output".to_string())?;
    let mut vals = Vec::new();
    for l in out.lines() {
        let bytes: Vec<u8> = (0..l.len() / 2)
            .map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap())
            .collect();
        vals.push(String::from_utf8_lossy(&bytes).to_string());
    }
    if vals.len() != exprs.len() {
        return Err(format!("{} values for {} expressions", vals.len(), exprs.len()));
    }
    Ok(vals)
}

/// Evaluate all; on a compile error, narrow down to one offending expression.
pub fn check_all(lang: LangId, pre: &str, cases: &[(String, String)]) -> Result<(), (usize, String)> {
    let exprs: Vec<String> = cases.iter().map(|c| c.0.clone()).collect();
    match eval(lang, pre, &exprs) {
        Ok(vals) => {
            for (i, v) in vals.iter().enumerate() {
                if *v != cases[i].1 {
                    return Err((i, format!("{lang:?} evaluates {} to {v:?}, expected {:?}", exprs[i], cases[i].1)));
                }
            }
            Ok(())
        }
        Err(msg) => {
            // Bisect.
            let (mut lo, mut hi) = (0, exprs.len());
            while hi - lo > 1 {
                let mid = (lo + hi) / 2;
                if eval(lang, pre, &exprs[lo..mid]).is_err() {
                    hi = mid;
                } else {
                    lo = mid;
                }
            }
            Err((lo, format!("{lang:?} rejects {}: {msg}", exprs[lo])))
        }
    }
}
