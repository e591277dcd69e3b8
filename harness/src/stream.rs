//! Reference stream and reference renderer (no dependency on genco).

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum MI {
    Lit(String),
    Use(u32, bool),
    Reg(u32, bool),
    Push,
    Line,
    Space,
    Ind(i32),
    Open(bool),
    Close,
    OEval,
    CEval,
}

pub fn import_text(n: u32, other: bool) -> String {
    if other {
        format!("Other{n}")
    } else {
        format!("I{n}")
    }
}

/// Reference stream.
#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct Model {
    pub items: Vec<MI>,
}

impl Model {
    pub fn add(&mut self, it: MI) {
        match it {
            MI::Space => {
                if self.items.last() != Some(&MI::Space) {
                    self.items.push(MI::Space);
                }
            }
            MI::Push | MI::Line => {
                // The run of whitespace at the end.
                let mut line = it == MI::Line;
                while let Some(MI::Space | MI::Push | MI::Line) = self.items.last() {
                    line |= self.items.pop() == Some(MI::Line);
                }
                self.items.push(if line { MI::Line } else { MI::Push });
            }
            MI::Ind(0) => {}
            MI::Ind(n) => {
                let mut n = n;
                loop {
                    match self.items.last() {
                        Some(MI::Space | MI::Push | MI::Line) => {
                            self.items.pop();
                        }
                        Some(MI::Ind(m)) => {
                            n += m;
                            self.items.pop();
                        }
                        _ => break,
                    }
                }
                if n != 0 {
                    self.items.push(MI::Ind(n));
                }
            }
            other => self.items.push(other),
        }
    }
}

/// Reference renderer: list of lines, each (level, leading spaces, text).
#[derive(Debug, Clone)]
pub struct Render {
    pub newline: String,
    pub unit: String,
    /// How a string containing interpolations is opened.
    pub open_eval: String,
    pub out: String,
    started: bool,
    brk: u8,
    space: bool,
    level: i32,
    pub deepest: i32,
}

impl Render {
    pub fn new(unit: &str, newline: &str) -> Render {
        Render {
            newline: newline.into(),
            unit: unit.into(),
            open_eval: "\"".into(),
            out: String::new(),
            started: false,
            brk: 0,
            space: false,
            level: 0,
            deepest: 0,
        }
    }

    pub fn text(&mut self, s: &str) {
        if s.is_empty() {
            return;
        }
        if !self.started || self.brk > 0 {
            if self.started {
                for _ in 0..self.brk {
                    self.out.push_str(&self.newline);
                }
            }
            for _ in 0..self.level.max(0) {
                self.out.push_str(&self.unit);
            }
            self.deepest = self.deepest.max(self.level);
        }
        if self.space {
            self.out.push(' ');
        }
        self.started = true;
        self.brk = 0;
        self.space = false;
        self.out.push_str(s);
    }

    pub fn run(&mut self, items: &[MI]) {
        let mut in_str: Vec<bool> = Vec::new();
        for it in items {
            match it {
                MI::Lit(s) => {
                    if *in_str.last().unwrap_or(&false) {
                        let q = s.replace('\\', "\\\\").replace('"', "\\\"");
                        self.text(&q);
                    } else {
                        self.text(s);
                    }
                }
                MI::Use(n, o) => self.text(&import_text(*n, *o)),
                MI::Reg(..) => {}
                MI::Space => self.space = true,
                MI::Push => {
                    self.brk = self.brk.max(1);
                    self.space = false;
                }
                MI::Line => {
                    self.brk = 2;
                    self.space = false;
                }
                MI::Ind(n) => {
                    self.brk = self.brk.max(1);
                    self.space = false;
                    self.level += n;
                }
                MI::Open(eval) => {
                    let q = if *eval { self.open_eval.clone() } else { "\"".into() };
                    self.text(&q);
                    in_str.push(true);
                }
                MI::Close => {
                    in_str.pop();
                    self.text("\"");
                }
                MI::OEval => {
                    self.text("#{");
                    in_str.push(false);
                }
                MI::CEval => {
                    in_str.pop();
                    self.text("}#");
                }
            }
        }
    }
}

pub fn render(items: &[MI], unit: &str, newline: &str) -> String {
    let mut r = Render::new(unit, newline);
    r.run(items);
    r.out
}

pub fn diff(expect: &str, got: &str) -> String {
    format!("expected {expect:?}\n     got {got:?}")
}
