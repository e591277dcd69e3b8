//! Descriptions of the imports of each language: how to build them, what a file
//! using them has to import, and how a reference in that file resolves. All of it
//! is written from the documentation of genco and of the target languages.

use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::Mutex;

use genco::lang::{Csharp, Dart, Go, Java, JavaScript, Nix, Python, Rust, Swift, C};
use genco::prelude::*;
use genco::tokens::{Item, ItemStr, Tokens};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::lits::{self, LangId, Part};
use crate::model::{Model, MI};

/// A `&'static str` with the given text.
pub fn leak(s: &str) -> &'static str {
    static SET: Mutex<Option<HashSet<&'static str>>> = Mutex::new(None);
    let mut g = SET.lock().unwrap_or_else(|e| e.into_inner());
    let set = g.get_or_insert_with(HashSet::new);
    if let Some(x) = set.get(s) {
        return x;
    }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    set.insert(l);
    l
}

/// How the text of an import is stored.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Store {
    Static,
    Owned,
    Str,
    Cow,
}

impl Store {
    pub fn s(self, s: &str) -> ItemStr {
        match self {
            Store::Static => ItemStr::Static(leak(s)),
            Store::Owned => ItemStr::from(s.to_string()),
            Store::Str => ItemStr::from(s),
            Store::Cow => ItemStr::from(std::borrow::Cow::Borrowed(s)),
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum IOp {
    Alias(String),
    ModAlias(String),
    Qualified,
    Direct,
    Default,
    Wildcard,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Spec {
    /// Rust, Java, Go, Swift, C# (IOp::Qualified), Dart (IOp::Alias) and Python.
    Name { module: String, name: String, ops: Vec<IOp> },
    Js { module: String, path: bool, name: String, ops: Vec<IOp> },
    Include { path: String, item: String, system: bool },
    PyModule { module: String, alias: Option<String> },
    NixArg(String),
    NixInherit { path: String, name: String },
    NixVar { name: String, value: Vec<Node> },
    NixWith { arg: String, name: String },
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Node {
    Use(u8, u8),
    Reg(u8, u8),
    Text(String),
    Push,
    Line,
    Space,
    Block(Vec<Node>),
    Nest(u8, Vec<Node>),
    /// A quoted string with something registered inside of it.
    Quoted(String, u8),
    /// An interpolated string using something (JavaScript and Dart).
    Eval(String, u8),
}

#[derive(Debug, Clone, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Conf {
    /// Package or namespace.
    pub package: Option<String>,
    /// Rust: default import mode is qualified.
    pub qualified: bool,
    /// Nix.
    pub scoped: bool,
    /// JavaScript.
    pub module_path: Option<String>,
    /// Dart: libraries which are used without a prefix.
    #[serde(default)]
    pub open: BTreeSet<String>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Doc {
    pub lang: LangId,
    pub conf: Conf,
    pub pool: Vec<Spec>,
    pub body: Vec<Node>,
}

pub const OPEN: &str = "⟦";
pub const CLOSE: &str = "⟧";

pub trait LS: genco::lang::Lang + Sized {
    fn add(t: &mut Tokens<Self>, pool: &[Spec], i: usize, how: u8, reg: bool);
    fn cfg(c: &Conf) -> Self::Config;
}

const STORES: [Store; 4] = [Store::Static, Store::Owned, Store::Str, Store::Cow];

pub fn store(how: u8) -> Store {
    STORES[how as usize % 4]
}

pub fn add_item<L, I>(t: &mut Tokens<L>, item: I, how: u8, reg: bool)
where
    L: genco::lang::Lang,
    I: genco::tokens::FormatInto<L> + genco::tokens::Register<L> + Clone,
    for<'a> &'a I: genco::tokens::FormatInto<L> + genco::tokens::Register<L>,
{
    match (reg, how / 4 % 5) {
        (false, 0) => t.append(item),
        (false, 1) => t.append(&item),
        (false, 2) => quote_in!(*t => $item),
        (false, 3) => {
            let it = &item;
            quote_in!(*t => $it)
        }
        (false, _) => t.append(vec![Some(item)]),
        (true, 0) => t.register(item),
        (true, 1) => t.register(&item),
        (true, 2) => quote_in!(*t => $(register(item))),
        (true, 3) => quote_in!(*t => $(register(&item))),
        (true, _) => t.append(register((item,))),
    }
}

fn name_of(s: &Spec) -> (&str, &str, &[IOp]) {
    match s {
        Spec::Name { module, name, ops } => (module, name, ops),
        _ => panic!("unexpected spec {s:?}"),
    }
}

impl LS for Rust {
    fn add(t: &mut Tokens<Self>, pool: &[Spec], i: usize, how: u8, reg: bool) {
        let st = store(how);
        let (module, name, ops) = name_of(&pool[i]);
        let mut it = rust::import(st.s(module), st.s(name));
        for op in ops {
            it = match op {
                IOp::Alias(a) => it.with_alias(st.s(a)),
                IOp::ModAlias(a) => it.with_module_alias(st.s(a)),
                IOp::Qualified => it.qualified(),
                IOp::Direct => it.direct(),
                _ => panic!(),
            };
        }
        add_item(t, it, how, reg);
    }

    fn cfg(c: &Conf) -> rust::Config {
        if c.qualified {
            rust::Config::default().with_default_import(rust::ImportMode::Qualified)
        } else {
            rust::Config::default()
        }
    }
}

impl LS for Java {
    fn add(t: &mut Tokens<Self>, pool: &[Spec], i: usize, how: u8, reg: bool) {
        let (module, name, _) = name_of(&pool[i]);
        let st = store(how);
        add_item(t, java::import(st.s(module), st.s(name)), how, reg);
    }

    fn cfg(c: &Conf) -> java::Config {
        match &c.package {
            Some(p) => java::Config::default().with_package(p.as_str()),
            None => java::Config::default(),
        }
    }
}

impl LS for Csharp {
    fn add(t: &mut Tokens<Self>, pool: &[Spec], i: usize, how: u8, reg: bool) {
        let (module, name, ops) = name_of(&pool[i]);
        let st = store(how);
        let mut it = csharp::import(st.s(module), st.s(name));
        if !ops.is_empty() {
            it = it.qualified();
        }
        add_item(t, it, how, reg);
    }

    fn cfg(c: &Conf) -> csharp::Config {
        match &c.package {
            Some(p) => csharp::Config::default().with_namespace(p.as_str()),
            None => csharp::Config::default(),
        }
    }
}

impl LS for Go {
    fn add(t: &mut Tokens<Self>, pool: &[Spec], i: usize, how: u8, reg: bool) {
        let (module, name, _) = name_of(&pool[i]);
        let st = store(how);
        add_item(t, go::import(st.s(module), st.s(name)), how, reg);
    }

    fn cfg(c: &Conf) -> go::Config {
        match &c.package {
            Some(p) => go::Config::default().with_package(p.as_str()),
            None => go::Config::default(),
        }
    }
}

impl LS for C {
    fn add(t: &mut Tokens<Self>, pool: &[Spec], i: usize, how: u8, reg: bool) {
        let st = store(how);
        let Spec::Include { path, item, system } = &pool[i] else { panic!() };
        let it = if *system {
            c::include_system(st.s(path), st.s(item))
        } else {
            c::include(st.s(path), st.s(item))
        };
        add_item(t, it, how, reg);
    }

    fn cfg(_: &Conf) -> c::Config {
        c::Config::default()
    }
}

impl LS for Swift {
    fn add(t: &mut Tokens<Self>, pool: &[Spec], i: usize, how: u8, reg: bool) {
        let (module, name, _) = name_of(&pool[i]);
        let st = store(how);
        add_item(t, swift::import(st.s(module), st.s(name)), how, reg);
    }

    fn cfg(_: &Conf) -> swift::Config {
        swift::Config::default()
    }
}

impl LS for Dart {
    fn add(t: &mut Tokens<Self>, pool: &[Spec], i: usize, how: u8, reg: bool) {
        let (module, name, ops) = name_of(&pool[i]);
        let st = store(how);
        let mut it = dart::import(st.s(module), st.s(name));
        for op in ops {
            let IOp::Alias(a) = op else { panic!() };
            it = it.with_alias(st.s(a));
        }
        add_item(t, it, how, reg);
    }

    fn cfg(_: &Conf) -> dart::Config {
        dart::Config::default()
    }
}

impl LS for JavaScript {
    fn add(t: &mut Tokens<Self>, pool: &[Spec], i: usize, how: u8, reg: bool) {
        let st = store(how);
        let Spec::Js { module, path, name, ops } = &pool[i] else { panic!() };
        let m = if *path {
            js::Module::Path(module.as_str().into())
        } else {
            js::Module::Global(st.s(module))
        };
        let mut it = js::import(m, st.s(name));
        for op in ops {
            it = match op {
                IOp::Alias(a) => it.with_alias(st.s(a)),
                IOp::Default => it.into_default(),
                IOp::Wildcard => it.into_wildcard(),
                _ => panic!(),
            };
        }
        add_item(t, it, how, reg);
    }

    fn cfg(c: &Conf) -> js::Config {
        match &c.module_path {
            Some(p) => js::Config::default().with_module_path(p.as_str()),
            None => js::Config::default(),
        }
    }
}

impl LS for Python {
    fn add(t: &mut Tokens<Self>, pool: &[Spec], i: usize, how: u8, reg: bool) {
        let st = store(how);
        match &pool[i] {
            Spec::PyModule { module, alias } => {
                let mut it = python::import_module(st.s(module));
                if let Some(a) = alias {
                    it = it.with_alias(st.s(a));
                }
                add_item(t, it, how, reg);
            }
            s => {
                let (module, name, ops) = name_of(s);
                let mut it = python::import(st.s(module), st.s(name));
                for op in ops {
                    it = match op {
                        IOp::Alias(a) => it.with_alias(st.s(a)),
                        IOp::ModAlias(a) => it.with_module_alias(st.s(a)),
                        IOp::Qualified => it.qualified(),
                        _ => panic!(),
                    };
                }
                add_item(t, it, how, reg);
            }
        }
    }

    fn cfg(_: &Conf) -> python::Config {
        python::Config::default()
    }
}

impl LS for Nix {
    fn add(t: &mut Tokens<Self>, pool: &[Spec], i: usize, how: u8, reg: bool) {
        let st = store(how);
        let it = match &pool[i] {
            Spec::NixArg(a) => nix::argument(st.s(a)),
            Spec::NixInherit { path, name } => nix::inherit(st.s(path), st.s(name)),
            Spec::NixVar { name, value } => {
                let mut v = Tokens::new();
                nodes(&mut v, pool, value);
                nix::variable(st.s(name), v)
            }
            Spec::NixWith { arg, name } => nix::with(st.s(arg), st.s(name)),
            _ => panic!(),
        };
        add_item(t, it, how, reg);
    }

    fn cfg(c: &Conf) -> nix::Config {
        nix::Config::default().with_scoped(c.scoped)
    }
}

/// Add nodes to a stream.
pub fn nodes<L: LS>(t: &mut Tokens<L>, pool: &[Spec], ns: &[Node]) {
    for n in ns {
        match n {
            Node::Use(i, how) => {
                t.append(OPEN);
                L::add(t, pool, *i as usize, *how, false);
                t.append(CLOSE);
            }
            Node::Reg(i, how) => L::add(t, pool, *i as usize, *how, true),
            Node::Text(s) => t.append(s),
            Node::Push => t.push(),
            Node::Line => t.line(),
            Node::Space => t.space(),
            Node::Block(ns) => {
                t.indent();
                nodes(t, pool, ns);
                t.unindent();
            }
            Node::Nest(how, ns) => {
                let mut sub = Tokens::new();
                nodes(&mut sub, pool, ns);
                match how % 6 {
                    0 => t.append(sub),
                    1 => t.append(&sub),
                    2 => t.append(Some(sub)),
                    3 => t.append(vec![sub]),
                    4 => t.append(sub.clone()),
                    _ => quote_in!(*t => $(for x in [sub] => $x)),
                }
            }
            Node::Quoted(s, i) => {
                t.append(Item::OpenQuote(false));
                t.append(s);
                L::add(t, pool, *i as usize, s.len() as u8, true);
                t.append(Item::CloseQuote);
            }
            Node::Eval(s, i) => {
                t.append(Item::OpenQuote(true));
                t.append(s);
                t.append(Item::OpenEval);
                t.append(OPEN);
                L::add(t, pool, *i as usize, s.len() as u8, false);
                t.append(CLOSE);
                t.append(Item::CloseEval);
                t.append(Item::CloseQuote);
            }
        }
    }
}

pub fn render_file<L: LS>(d: &Doc) -> Result<String, String> {
    let mut t: Tokens<L> = Tokens::new();
    nodes(&mut t, &d.pool, &d.body);
    file_of(&t, &d.conf)
}

pub fn file_of<L: LS>(t: &Tokens<L>, conf: &Conf) -> Result<String, String> {
    let mut w = genco::fmt::FmtWriter::new(String::new());
    let f = genco::fmt::Config::from_lang::<L>();
    t.format_file(&mut w.as_formatter(&f), &L::cfg(conf))
        .map_err(|e| format!("format_file: {e:?}"))?;
    Ok(w.into_inner())
}

pub fn file(d: &Doc) -> Result<String, String> {
    crate::with_lang!(d.lang, L => render_file::<L>(d))
}

/// Visit every import of a body, including the ones of variable values. The flag
/// tells whether the item leaves a reference.
pub fn visit(pool: &[Spec], ns: &[Node], f: &mut impl FnMut(usize, bool)) {
    for n in ns {
        match n {
            Node::Use(i, _) | Node::Eval(_, i) => f(*i as usize, true),
            Node::Reg(i, _) | Node::Quoted(_, i) => f(*i as usize, false),
            Node::Block(ns) | Node::Nest(_, ns) => visit(pool, ns, f),
            _ => {}
        }
    }
}

/// The indices of all specs a body depends on.
pub fn used(pool: &[Spec], ns: &[Node]) -> BTreeSet<usize> {
    let mut out = BTreeSet::new();
    let mut queue = Vec::new();
    visit(pool, ns, &mut |i, _| queue.push(i));
    while let Some(i) = queue.pop() {
        if out.insert(i) {
            if let Spec::NixVar { value, .. } = &pool[i] {
                visit(pool, value, &mut |i, _| queue.push(i));
            }
        }
    }
    out
}

/// The references of a body in the order they are rendered.
pub fn refs(pool: &[Spec], ns: &[Node]) -> Vec<usize> {
    let mut out = Vec::new();
    visit(pool, ns, &mut |i, r| {
        if r {
            out.push(i)
        }
    });
    out
}

/// The model of a body, given the spelling of each of its references in order.
/// `it` is `None` to leave references out.
pub fn model(lang: LangId, ns: &[Node], spell: &mut dyn Iterator<Item = String>, m: &mut Model) {
    for n in ns {
        match n {
            Node::Use(..) => {
                m.add(MI::Lit(OPEN.into()));
                m.add(MI::Lit(spell.next().unwrap_or_default()));
                m.add(MI::Lit(CLOSE.into()));
            }
            Node::Reg(..) => m.add(MI::Reg(0, false)),
            Node::Text(s) => m.add(MI::Lit(s.clone())),
            Node::Push => m.add(MI::Push),
            Node::Line => m.add(MI::Line),
            Node::Space => m.add(MI::Space),
            Node::Block(ns) => {
                m.add(MI::Ind(1));
                model(lang, ns, spell, m);
                m.add(MI::Ind(-1));
            }
            Node::Nest(_, ns) => {
                let mut sub = Model { items: Vec::new() };
                model(lang, ns, spell, &mut sub);
                for i in sub.items {
                    m.add(i);
                }
            }
            Node::Quoted(s, _) => m.add(MI::Lit(format!("\"{s}\""))),
            Node::Eval(s, _) => {
                let q = if lang == LangId::JavaScript { '`' } else { '"' };
                m.add(MI::Lit(format!("{q}{s}${{{OPEN}{}{CLOSE}}}{q}", spell.next().unwrap_or_default())));
            }
        }
    }
}

// ---------------------------------------------------------------------------
// Headers.

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Decl {
    /// Rust: a path bound to a local name.
    Use { path: String, local: String },
    /// Java, C#, Go, Swift.
    Import(String),
    Include { path: String, system: bool },
    Dart { path: String, alias: Option<String> },
    Js { module: String, what: JsWhat, local: String },
    PyFrom { module: String, name: String, local: String },
    PyImport { module: String, alias: Option<String> },
    NixArg(String),
    NixWith(String),
    NixInherit { path: String, name: String },
    NixLet { name: String, value: String },
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum JsWhat {
    Named(String),
    Default,
    Star,
}

#[derive(Debug, Default)]
pub struct Parsed {
    pub package: Option<String>,
    pub decls: Vec<Decl>,
    pub header: Vec<String>,
    /// Everything after the header and the line separating it.
    pub body: String,
}

fn ident(s: &str) -> Result<String, String> {
    let ok = !s.is_empty()
        && s.chars().all(|c| c.is_alphanumeric() || c == '_')
        && !s.starts_with(|c: char| c.is_ascii_digit());
    if ok {
        Ok(s.to_string())
    } else {
        Err(format!("not an identifier: {s:?}"))
    }
}

fn dotted(s: &str, sep: &str) -> Result<String, String> {
    for p in s.split(sep) {
        ident(p)?;
    }
    Ok(s.to_string())
}

fn strip<'a>(s: &'a str, pre: &str, post: &str) -> Result<&'a str, String> {
    s.strip_prefix(pre)
        .and_then(|s| s.strip_suffix(post))
        .ok_or_else(|| format!("expected {pre}…{post}, got {s:?}"))
}

fn literal(lang: LangId, s: &str) -> Result<(String, &str), String> {
    let (parts, rest) = lits::decode(lang, s)?;
    match &parts[..] {
        [] => Ok((String::new(), rest)),
        [Part::Text(t)] => Ok((t.clone(), rest)),
        _ => Err(format!("interpolation in header: {s:?}")),
    }
}

fn as_alias(s: &str) -> Result<(String, String), String> {
    match s.split_once(" as ") {
        Some((n, a)) => Ok((ident(n)?, ident(a)?)),
        None => Ok((ident(s)?, ident(s)?)),
    }
}

/// One import line.
fn line(lang: LangId, l: &str) -> Result<Vec<Decl>, String> {
    Ok(match lang {
        LangId::Rust => {
            let l = strip(l, "use ", ";")?;
            let last = |p: &str| p.rsplit("::").next().unwrap().to_string();
            if let Some((m, group)) = l.split_once("::{") {
                let m = dotted(m, "::")?;
                let group = strip(group, "", "}")?;
                let mut out = Vec::new();
                for e in group.split(", ") {
                    let (n, a) = as_alias(e)?;
                    out.push(match (n.as_str(), a.as_str()) {
                        ("self", "self") => Decl::Use { local: last(&m), path: m.clone() },
                        ("self", a) => Decl::Use { local: a.into(), path: m.clone() },
                        (n, a) => Decl::Use { local: a.into(), path: format!("{m}::{n}") },
                    });
                }
                out
            } else if let Some((m, a)) = l.split_once(" as ") {
                vec![Decl::Use { path: dotted(m, "::")?, local: ident(a)? }]
            } else {
                vec![Decl::Use { path: dotted(l, "::")?, local: last(l) }]
            }
        }
        LangId::Java => vec![Decl::Import(dotted(strip(l, "import ", ";")?, ".")?)],
        LangId::Csharp => vec![Decl::Import(dotted(strip(l, "using ", ";")?, ".")?)],
        LangId::Swift => vec![Decl::Import(dotted(strip(l, "import ", "")?, ".")?)],
        LangId::Go => {
            let (m, rest) = literal(lang, strip(l, "import ", "")?)?;
            if !rest.is_empty() {
                return Err(format!("trailing {rest:?}"));
            }
            vec![Decl::Import(m)]
        }
        LangId::C => {
            let l = strip(l, "#include ", "")?;
            if let Ok(p) = strip(l, "<", ">") {
                vec![Decl::Include { path: p.into(), system: true }]
            } else {
                vec![Decl::Include { path: strip(l, "\"", "\"")?.into(), system: false }]
            }
        }
        LangId::Dart => {
            let (path, rest) = literal(lang, strip(l, "import ", "")?)?;
            let rest = strip(rest, "", ";")?;
            let alias = match rest {
                "" => None,
                r => Some(ident(strip(r, " as ", "")?)?),
            };
            vec![Decl::Dart { path, alias }]
        }
        LangId::JavaScript => {
            let l = strip(l, "import ", ";")?;
            let (what, from) = l.split_once(" from ").ok_or("no from")?;
            let (module, rest) = literal(lang, from)?;
            if !rest.is_empty() {
                return Err(format!("trailing {rest:?}"));
            }
            let mut out = Vec::new();
            if let Some(n) = what.strip_prefix("* as ") {
                out.push(Decl::Js { module, what: JsWhat::Star, local: ident(n)? });
                return Ok(out);
            }
            let (default, group) = match what.find('{') {
                None => (Some(what), None),
                Some(0) => (None, Some(what)),
                Some(i) => (Some(strip(&what[..i], "", ", ")?), Some(&what[i..])),
            };
            if let Some(d) = default {
                out.push(Decl::Js { module: module.clone(), what: JsWhat::Default, local: ident(d)? });
            }
            if let Some(g) = group {
                for e in strip(g, "{", "}")?.split(", ") {
                    let (n, local) = as_alias(e)?;
                    let what = if n == "default" { JsWhat::Default } else { JsWhat::Named(n) };
                    out.push(Decl::Js { module: module.clone(), what, local });
                }
            }
            out
        }
        LangId::Python => {
            if let Some(l) = l.strip_prefix("from ") {
                let (m, names) = l.split_once(" import ").ok_or("no import")?;
                let module = dotted(m, ".")?;
                let mut out = Vec::new();
                for e in names.split(", ") {
                    let (name, local) = as_alias(e)?;
                    out.push(Decl::PyFrom { module: module.clone(), name, local });
                }
                out
            } else {
                let l = strip(l, "import ", "")?;
                vec![match l.split_once(" as ") {
                    Some((m, a)) => Decl::PyImport { module: dotted(m, ".")?, alias: Some(ident(a)?) },
                    None => Decl::PyImport { module: dotted(l, ".")?, alias: None },
                }]
            }
        }
        LangId::Nix => unreachable!(),
    })
}

fn is_import_line(lang: LangId, l: &str) -> bool {
    match lang {
        LangId::Rust => l.starts_with("use "),
        LangId::Csharp => l.starts_with("using "),
        LangId::C => l.starts_with("#include "),
        LangId::Python => l.starts_with("from ") || l.starts_with("import "),
        LangId::Nix => false,
        _ => l.starts_with("import "),
    }
}

/// Consume one line.
fn take<'a>(s: &mut &'a str) -> Option<&'a str> {
    let (l, rest) = s.split_once('\n')?;
    *s = rest;
    Some(l)
}

fn sep(rest: &mut &str, what: &str) -> Result<(), String> {
    // Nothing more than the line ending of the file itself.
    if rest.is_empty() {
        return Ok(());
    }
    match take(rest) {
        Some("") => {}
        l => return Err(format!("no empty line after {what}: {l:?}")),
    }
    if rest.starts_with('\n') {
        return Err(format!("more than one empty line after {what}"));
    }
    Ok(())
}

pub fn parse(d: &Doc, file: &str) -> Result<Parsed, String> {
    let mut p = Parsed::default();
    let mut rest = file;
    if !rest.ends_with('\n') {
        return Err("file does not end with a line ending".into());
    }
    if rest.starts_with('\n') && rest.len() > 1 {
        return Err("file starts with an empty line".into());
    }
    let package = match d.lang {
        LangId::Java => d.conf.package.as_ref().map(|p| format!("package {p};")),
        LangId::Go => d.conf.package.as_ref().map(|p| format!("package {p}")),
        _ => None,
    };
    if let Some(want) = package {
        let l = take(&mut rest).unwrap_or("");
        if l != want {
            return Err(format!("expected {want:?}, got {l:?}"));
        }
        sep(&mut rest, "the package")?;
        p.package = d.conf.package.clone();
    }
    if d.lang == LangId::Nix {
        nix_header(d, &mut p, &mut rest)?;
    } else {
        while is_import_line(d.lang, rest) {
            let l = take(&mut rest).unwrap();
            p.header.push(l.to_string());
            p.decls.extend(line(d.lang, l).map_err(|e| format!("import line {l:?}: {e}"))?);
        }
        if !p.header.is_empty() {
            sep(&mut rest, "the imports")?;
        }
    }
    p.body = rest.to_string();
    Ok(p)
}

fn nix_header(d: &Doc, p: &mut Parsed, rest: &mut &str) -> Result<(), String> {
    if !d.conf.scoped {
        let mut lines = Vec::new();
        loop {
            let Some(l) = take(rest) else { return Err("argument set is not closed".into()) };
            p.header.push(l.to_string());
            if l == "}:" {
                break;
            }
            lines.push(l);
        }
        if lines.first() != Some(&"{") || lines.last() != Some(&"    ...") {
            return Err(format!("bad argument set {lines:?}"));
        }
        for l in &lines[1..lines.len() - 1] {
            p.decls.push(Decl::NixArg(ident(strip(l, "    ", ",")?)?));
        }
        sep(rest, "the arguments")?;
    }
    if rest.starts_with("with ") {
        while rest.starts_with("with ") {
            let l = take(rest).unwrap();
            p.header.push(l.to_string());
            p.decls.push(Decl::NixWith(dotted(strip(l, "with ", ";")?, ".")?));
        }
        sep(rest, "the with clauses")?;
    }
    if rest.starts_with("let\n") {
        p.header.push("let".into());
        take(rest);
        let mut cur: Option<(String, String)> = None;
        loop {
            let Some(l) = take(rest) else { return Err("let is not closed".into()) };
            p.header.push(l.to_string());
            if l == "in" {
                break;
            }
            if l.is_empty() {
                match &mut cur {
                    Some((_, v)) => v.push('\n'),
                    None => return Err("empty line in let".into()),
                }
                continue;
            }
            let l = strip(l, "    ", "").map_err(|_| format!("line in let is not indented: {l:?}"))?;
            if let Some((_, v)) = &mut cur {
                v.push('\n');
                v.push_str(l);
            } else if let Some(r) = l.strip_prefix("inherit (") {
                let (path, name) = r.split_once(") ").ok_or("bad inherit")?;
                p.decls.push(Decl::NixInherit {
                    path: dotted(path, ".")?,
                    name: ident(strip(name, "", ";")?)?,
                });
            } else {
                let (name, v) = l.split_once(" = ").ok_or_else(|| format!("bad binding {l:?}"))?;
                cur = Some((ident(name)?, v.to_string()));
            }
            if let Some((_, v)) = &cur {
                if v.ends_with(';') {
                    let (name, mut value) = cur.take().unwrap();
                    value.pop();
                    p.decls.push(Decl::NixLet { name, value });
                }
            }
        }
        if cur.is_some() {
            return Err("binding is not closed".into());
        }
        sep(rest, "the bindings")?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// What is expected of a header.

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum Mode {
    Direct(String),
    Qualified,
    ModAlias(String),
}

/// The documented meaning of the operations on a Rust or Python import.
pub fn mode(lang: LangId, conf: &Conf, name: &str, ops: &[IOp]) -> Mode {
    let mut alias: Option<&str> = None;
    let mut m: Option<Mode> = None;
    for op in ops {
        match op {
            IOp::Alias(a) => {
                alias = Some(a);
                m = Some(Mode::Direct(String::new()));
            }
            IOp::ModAlias(a) => m = Some(Mode::ModAlias(a.clone())),
            IOp::Qualified if matches!(m, Some(Mode::ModAlias(_))) => {}
            IOp::Qualified => m = Some(Mode::Qualified),
            IOp::Direct => m = Some(Mode::Direct(String::new())),
            _ => panic!(),
        }
    }
    let m = m.unwrap_or(if lang == LangId::Rust && conf.qualified {
        Mode::Qualified
    } else {
        Mode::Direct(String::new())
    });
    match m {
        Mode::Direct(_) => Mode::Direct(alias.unwrap_or(name).to_string()),
        m => m,
    }
}

/// A path relative to the directory structure `module_path` is given in.
pub fn js_module(conf: &Conf, module: &str, path: bool) -> String {
    match &conf.module_path {
        Some(from) if path => relative(from, module),
        _ => module.to_string(),
    }
}

/// The relative path from `from` to `to` (both relative to the same root), as
/// genco documents it: the file itself counts as a component.
pub fn relative(from: &str, to: &str) -> String {
    fn norm(s: &str) -> Vec<&str> {
        let mut out = Vec::new();
        for c in s.split('/') {
            match c {
                "" | "." => {}
                ".." if out.last().is_some_and(|l| *l != "..") => {
                    out.pop();
                }
                c => out.push(c),
            }
        }
        out
    }
    let (f, t) = (norm(from), norm(to));
    let n = f.iter().zip(&t).take_while(|(a, b)| a == b).count();
    let mut out: Vec<&str> = f[n..].iter().map(|_| "..").collect();
    out.extend(&t[n..]);
    out.join("/")
}

fn js_kind<'a>(name: &'a str, ops: &'a [IOp]) -> (JsWhat, &'a str) {
    match ops.last() {
        None => (JsWhat::Named(name.into()), name),
        Some(IOp::Alias(a)) => (JsWhat::Named(name.into()), a),
        Some(IOp::Default) => (JsWhat::Default, name),
        Some(IOp::Wildcard) => (JsWhat::Star, name),
        Some(o) => panic!("{o:?}"),
    }
}

/// The item a spec names, in a canonical form.
pub fn target(d: &Doc, s: &Spec) -> String {
    match s {
        Spec::Name { module, name, .. } => match d.lang {
            LangId::Rust => format!("{module}::{name}"),
            LangId::Java | LangId::Csharp | LangId::Python => format!("{module}.{name}"),
            _ => format!("{module} {name}"),
        },
        Spec::Js { module, path, name, ops } => {
            let (what, _) = js_kind(name, ops);
            format!("{} {what:?}", js_module(&d.conf, module, *path))
        }
        Spec::Include { path, item, system } => format!("{path} {system} {item}"),
        Spec::PyModule { module, .. } => module.clone(),
        Spec::NixArg(a) => format!("arg {a}"),
        Spec::NixInherit { path, name } => format!("inherit {path} {name}"),
        Spec::NixVar { name, .. } => format!("let {name}"),
        Spec::NixWith { arg, name } => format!("with {arg} {name}"),
    }
}

/// Local names a spec might bind, with what they would stand for.
fn bindings(d: &Doc, s: &Spec) -> Vec<(String, String)> {
    let t = target(d, s);
    let mut out = Vec::new();
    match s {
        Spec::Name { module, name, ops } => match d.lang {
            LangId::Rust | LangId::Python => {
                let last = if d.lang == LangId::Rust { module.rsplit("::").next() } else { module.split('.').next() };
                let root = if d.lang == LangId::Rust { module } else { last.unwrap() };
                out.push((name.clone(), t.clone()));
                out.push((last.unwrap().to_string(), root.to_string()));
                for o in ops {
                    match o {
                        IOp::Alias(a) if a != "_" => out.push((a.clone(), t.clone())),
                        IOp::ModAlias(a) => out.push((a.clone(), module.clone())),
                        _ => {}
                    }
                }
            }
            LangId::Java => {
                // A class and a package must not share a full name.
                out.push((t.clone(), "type".into()));
            }
            LangId::Csharp => {
                out.push((t.clone(), "type".into()));
            }
            LangId::Go => out.push((module.rsplit('/').next().unwrap().into(), module.clone())),
            LangId::Dart => match ops.last() {
                Some(IOp::Alias(a)) => {
                    // A library that is also imported without prefix has all of
                    // its names in scope.
                    if d.conf.open.contains(module) {
                        out.push((name.clone(), t));
                    }
                    out.push((format!("{a}."), module.clone()));
                }
                _ => out.push((name.clone(), t)),
            },
            _ => out.push((name.clone(), t)),
        },
        Spec::Js { name, ops, .. } => out.push((js_kind(name, ops).1.to_string(), t)),
        Spec::Include { item, .. } => out.push((item.clone(), t)),
        Spec::PyModule { module, alias } => {
            let root = module.split('.').next().unwrap();
            out.push((root.into(), root.into()));
            if let Some(a) = alias {
                out.push((a.clone(), t));
            }
        }
        Spec::NixArg(a) => out.push((a.clone(), t)),
        Spec::NixInherit { path, name } => {
            let root = path.split('.').next().unwrap();
            out.push((root.into(), format!("arg {root}")));
            out.push((name.clone(), t));
        }
        Spec::NixVar { name, value } => {
            out.push((name.clone(), format!("{t} {value:?}")));
        }
        Spec::NixWith { arg, name } => {
            let root = arg.split('.').next().unwrap();
            out.push((root.into(), format!("arg {root}")));
            out.push((name.clone(), t));
        }
    }
    out
}

/// Make a document one whose imports do not clash with each other: a clash is
/// the mistake of the user. Clashing references are retargeted.
pub fn sanitize(d: &mut Doc) {
    let mut bound: BTreeMap<String, String> = BTreeMap::new();
    if d.lang == LangId::Dart {
        d.conf.open.insert("dart:core".into());
        for s in &d.pool {
            if let Spec::Name { module, ops, .. } = s {
                if ops.is_empty() {
                    d.conf.open.insert(module.clone());
                }
            }
        }
    }
    let mut map: Vec<Option<u8>> = Vec::new();
    let mut pool: Vec<Spec> = Vec::new();
    for s in std::mem::take(&mut d.pool) {
        let mut s = s;
        if let Spec::NixVar { value, .. } = &mut s {
            retarget(value, &map);
            if value.is_empty() {
                value.push(Node::Text("1".into()));
            }
        }
        let b = bindings(d, &s);
        let ok = b.iter().all(|(l, t)| bound.get(l).is_none_or(|x| x == t))
            && b.iter().all(|(l, t)| b.iter().all(|(l2, t2)| l != l2 || t == t2));
        if ok {
            bound.extend(b);
            map.push(Some(pool.len() as u8));
            pool.push(s);
        } else {
            map.push(None);
        }
    }
    d.pool = pool;
    retarget(&mut d.body, &map);
    if d.lang == LangId::Rust {
        hide_underscore(&d.pool, &mut d.body);
    }
}

fn retarget(ns: &mut Vec<Node>, map: &[Option<u8>]) {
    ns.retain_mut(|n| {
        match n {
            Node::Use(i, _) | Node::Reg(i, _) | Node::Quoted(_, i) | Node::Eval(_, i) => {
                if map.is_empty() {
                    return false;
                }
                match map[*i as usize % map.len()] {
                    Some(x) => *i = x,
                    None => return false,
                }
            }
            Node::Block(ns) | Node::Nest(_, ns) => retarget(ns, map),
            _ => {}
        }
        true
    });
}

/// `_` can only be registered.
fn hide_underscore(pool: &[Spec], ns: &mut [Node]) {
    for n in ns {
        match n {
            Node::Use(i, how) => {
                if let Spec::Name { ops, .. } = &pool[*i as usize] {
                    if ops.iter().any(|o| matches!(o, IOp::Alias(a) if a == "_")) {
                        *n = Node::Reg(*i, *how);
                    }
                }
            }
            Node::Block(ns) | Node::Nest(_, ns) => hide_underscore(pool, ns),
            _ => {}
        }
    }
}

/// Set of specs that share the simple name of `s`.
fn group<'a>(d: &'a Doc, used: &'a BTreeSet<usize>, name: &'a str) -> BTreeSet<&'a str> {
    used.iter()
        .filter_map(|i| match &d.pool[*i] {
            Spec::Name { module, name: n, .. } if n == name => Some(module.as_str()),
            _ => None,
        })
        .collect()
}

/// Check a header against the imports of the document (C09).
pub fn check_header(d: &Doc, p: &Parsed) -> Result<(), String> {
    let used = used(&d.pool, &d.body);
    let mut seen = BTreeSet::new();
    for x in &p.decls {
        if !seen.insert(x) {
            return Err(format!("imported twice: {x:?}"));
        }
    }
    if !matches!(d.lang, LangId::Nix) {
        let mut lines = BTreeSet::new();
        for l in &p.header {
            if !lines.insert(l) {
                return Err(format!("line occurs twice: {l:?}"));
            }
        }
    }
    let own = d.conf.package.as_deref();
    match d.lang {
        LangId::Java => {
            let mut names: BTreeMap<&str, &str> = BTreeMap::new();
            for x in &p.decls {
                let Decl::Import(fq) = x else { panic!() };
                let (pkg, name) = fq.rsplit_once('.').ok_or("no package")?;
                if !group(d, &used, name).contains(pkg) {
                    return Err(format!("{fq} is imported but not used"));
                }
                if pkg == "java.lang" || Some(pkg) == own {
                    return Err(format!("{fq} is imported but in scope anyway"));
                }
                if let Some(o) = names.insert(name, pkg) {
                    return Err(format!("{name} is imported from {o} and {pkg}"));
                }
            }
            for i in &used {
                let (pkg, name, _) = name_of(&d.pool[*i]);
                if group(d, &used, name).len() == 1 && pkg != "java.lang" && Some(pkg) != own && !names.contains_key(name) {
                    return Err(format!("{pkg}.{name} is not imported"));
                }
            }
            Ok(())
        }
        LangId::Csharp => {
            let usings: BTreeSet<&str> = p.decls.iter().map(|d| match d {
                Decl::Import(x) => x.as_str(),
                _ => panic!(),
            }).collect();
            for ns in &usings {
                if !used.iter().any(|i| name_of(&d.pool[*i]).0 == *ns) {
                    return Err(format!("{ns} is imported but not used"));
                }
                if Some(*ns) == own {
                    return Err(format!("{ns} is imported but in scope anyway"));
                }
            }
            for i in &used {
                let (ns, name, _) = name_of(&d.pool[*i]);
                if group(d, &used, name).len() == 1 && Some(ns) != own && !usings.contains(ns) {
                    return Err(format!("{ns} is not imported"));
                }
            }
            Ok(())
        }
        _ => {
            let mut want = BTreeSet::new();
            for i in &used {
                expected(d, &d.pool[*i], &mut want);
            }
            let got: BTreeSet<&Decl> = p.decls.iter().collect();
            let strip_value = |x: &Decl| match x {
                Decl::NixLet { name, .. } => Decl::NixLet { name: name.clone(), value: String::new() },
                x => x.clone(),
            };
            let got: BTreeSet<Decl> = got.into_iter().map(strip_value).collect();
            if let Some(x) = want.difference(&got).next() {
                return Err(format!("not imported: {x:?}"));
            }
            if let Some(x) = got.difference(&want).next() {
                return Err(format!("imported but not used: {x:?}"));
            }
            Ok(())
        }
    }
}

fn expected(d: &Doc, s: &Spec, out: &mut BTreeSet<Decl>) {
    match s {
        Spec::Name { module, name, ops } => match d.lang {
            LangId::Rust => match mode(d.lang, &d.conf, name, ops) {
                Mode::Direct(local) => {
                    out.insert(Decl::Use { path: format!("{module}::{name}"), local });
                }
                Mode::Qualified => {
                    if let Some((_, last)) = module.rsplit_once("::") {
                        out.insert(Decl::Use { path: module.clone(), local: last.into() });
                    }
                }
                Mode::ModAlias(local) => {
                    out.insert(Decl::Use { path: module.clone(), local });
                }
            },
            LangId::Python => {
                out.insert(match mode(d.lang, &d.conf, name, ops) {
                    Mode::Direct(local) => Decl::PyFrom { module: module.clone(), name: name.clone(), local },
                    Mode::Qualified => Decl::PyImport { module: module.clone(), alias: None },
                    Mode::ModAlias(a) => Decl::PyImport { module: module.clone(), alias: Some(a) },
                });
            }
            LangId::Dart => {
                let alias = match ops.last() {
                    Some(IOp::Alias(a)) => Some(a.clone()),
                    _ => None,
                };
                if module == "dart:core" {
                    if alias.is_some() {
                        // An explicit import disables the implicit one.
                        out.insert(Decl::Dart { path: module.clone(), alias: None });
                        out.insert(Decl::Dart { path: module.clone(), alias });
                    }
                } else {
                    out.insert(Decl::Dart { path: module.clone(), alias });
                }
            }
            _ => {
                out.insert(Decl::Import(module.clone()));
            }
        },
        Spec::Js { module, path, name, ops } => {
            let (what, local) = js_kind(name, ops);
            out.insert(Decl::Js { module: js_module(&d.conf, module, *path), what, local: local.into() });
        }
        Spec::Include { path, system, .. } => {
            out.insert(Decl::Include { path: path.clone(), system: *system });
        }
        Spec::PyModule { module, alias } => {
            out.insert(Decl::PyImport { module: module.clone(), alias: alias.clone() });
        }
        Spec::NixArg(a) => {
            if !d.conf.scoped {
                out.insert(Decl::NixArg(a.clone()));
            }
        }
        Spec::NixInherit { path, name } => {
            if !d.conf.scoped {
                out.insert(Decl::NixArg(path.split('.').next().unwrap().into()));
            }
            out.insert(Decl::NixInherit { path: path.clone(), name: name.clone() });
        }
        Spec::NixVar { name, .. } => {
            out.insert(Decl::NixLet { name: name.clone(), value: String::new() });
        }
        Spec::NixWith { arg, .. } => {
            if !d.conf.scoped {
                out.insert(Decl::NixArg(arg.split('.').next().unwrap().into()));
            }
            out.insert(Decl::NixWith(arg.clone()));
        }
    }
}

/// All references between markers in a text.
pub fn spelled(text: &str) -> Result<Vec<String>, String> {
    let mut out = Vec::new();
    let mut rest = text;
    while let Some(i) = rest.find(OPEN) {
        rest = &rest[i + OPEN.len()..];
        let j = rest.find(CLOSE).ok_or("reference is not closed")?;
        out.push(rest[..j].to_string());
        rest = &rest[j + CLOSE.len()..];
    }
    Ok(out)
}

fn one<'a>(mut it: impl Iterator<Item = &'a str>, what: &str) -> Result<String, String> {
    let first = it.next().ok_or_else(|| format!("{what} does not resolve"))?;
    for o in it {
        if o != first {
            return Err(format!("{what} is ambiguous between {first} and {o}"));
        }
    }
    Ok(first.to_string())
}

/// Resolve a reference by the rules of the language and the header.
pub fn resolve(d: &Doc, p: &Parsed, r: &str) -> Result<String, String> {
    let used = used(&d.pool, &d.body);
    let exists: BTreeSet<String> = used.iter().map(|i| target(d, &d.pool[*i])).collect();
    let own = d.conf.package.as_deref();
    let has = |t: String| exists.get(&t).map(|s| s.as_str());
    match d.lang {
        LangId::Rust => {
            dotted(r, "::")?;
            let (first, rest) = match r.split_once("::") {
                Some((f, rest)) => (f, Some(rest)),
                None => (r, None),
            };
            let hits: Vec<String> = p
                .decls
                .iter()
                .filter_map(|x| match x {
                    Decl::Use { path, local } if local == first => Some(match rest {
                        Some(rest) => format!("{path}::{rest}"),
                        None => path.clone(),
                    }),
                    _ => None,
                })
                .collect();
            if hits.is_empty() && rest.is_some() {
                // The name of a crate.
                return Ok(r.to_string());
            }
            one(hits.iter().map(String::as_str), r)
        }
        LangId::Java => {
            dotted(r, ".")?;
            if r.contains('.') {
                return Ok(r.into());
            }
            for x in &p.decls {
                let Decl::Import(fq) = x else { panic!() };
                if fq.rsplit('.').next() == Some(r) {
                    return Ok(fq.clone());
                }
            }
            if let Some(t) = own.and_then(|o| has(format!("{o}.{r}"))) {
                return Ok(t.into());
            }
            one(has(format!("java.lang.{r}")).into_iter(), r)
        }
        LangId::Csharp => {
            dotted(r, ".")?;
            if r.contains('.') {
                return Ok(r.into());
            }
            if let Some(t) = own.and_then(|o| has(format!("{o}.{r}"))) {
                return Ok(t.into());
            }
            one(p.decls.iter().filter_map(|x| match x {
                Decl::Import(ns) => has(format!("{ns}.{r}")),
                _ => None,
            }), r)
        }
        LangId::Go => {
            let (pkg, name) = r.split_once('.').ok_or_else(|| format!("{r} has no package"))?;
            one(p.decls.iter().filter_map(|x| match x {
                Decl::Import(m) if m.rsplit('/').next() == Some(pkg) => has(format!("{m} {name}")),
                _ => None,
            }), r)
        }
        LangId::Swift => one(p.decls.iter().filter_map(|x| match x {
            Decl::Import(m) => has(format!("{m} {r}")),
            _ => None,
        }), r),
        LangId::C => one(p.decls.iter().filter_map(|x| match x {
            Decl::Include { path, system } => has(format!("{path} {system} {r}")),
            _ => None,
        }), r),
        LangId::Dart => {
            let (prefix, name) = match r.split_once('.') {
                Some((p, n)) => (Some(p), n),
                None => (None, r),
            };
            let mut paths: Vec<&str> = p.decls.iter().filter_map(|x| match x {
                Decl::Dart { path, alias } if alias.as_deref() == prefix => Some(path.as_str()),
                _ => None,
            }).collect();
            let explicit = p.decls.iter().any(|x| matches!(x, Decl::Dart { path, .. } if path == "dart:core"));
            if prefix.is_none() && !explicit {
                paths.push("dart:core");
            }
            one(paths.into_iter().filter_map(|m| has(format!("{m} {name}"))), r)
        }
        LangId::JavaScript => {
            let hits: Vec<String> = p.decls.iter().filter_map(|x| match x {
                Decl::Js { module, what, local } if local == r => Some(format!("{module} {what:?}")),
                _ => None,
            }).collect();
            one(hits.iter().map(String::as_str), r)
        }
        LangId::Python => {
            dotted(r, ".")?;
            let hits: Vec<String> = p.decls.iter().filter_map(|x| match x {
                Decl::PyFrom { module, name, local } if local == r => Some(format!("{module}.{name}")),
                Decl::PyImport { module, alias } => {
                    let local = alias.as_ref().unwrap_or(module);
                    if r == local {
                        Some(module.clone())
                    } else {
                        let rest = r.strip_prefix(local.as_str())?.strip_prefix('.')?;
                        Some(format!("{module}.{rest}"))
                    }
                }
                _ => None,
            }).collect();
            one(hits.iter().map(String::as_str), r)
        }
        LangId::Nix => {
            ident(r)?;
            let lets: Vec<String> = p.decls.iter().filter_map(|x| match x {
                Decl::NixInherit { path, name } if name == r => Some(format!("inherit {path} {name}")),
                Decl::NixLet { name, .. } if name == r => Some(format!("let {name}")),
                _ => None,
            }).collect();
            if !lets.is_empty() {
                return one(lets.iter().map(String::as_str), r);
            }
            if d.conf.scoped {
                if let Some(t) = has(format!("arg {r}")) {
                    return Ok(t.into());
                }
            }
            if p.decls.contains(&Decl::NixArg(r.into())) {
                return Ok(format!("arg {r}"));
            }
            one(p.decls.iter().filter_map(|x| match x {
                Decl::NixWith(w) => has(format!("with {w} {r}")),
                _ => None,
            }), r)
        }
    }
}

// ---------------------------------------------------------------------------
// Generators.

fn of(xs: &'static [&'static str]) -> BoxedStrategy<String> {
    proptest::sample::select(xs).prop_map(str::to_string).boxed()
}

const RUST_MODS: &[&str] = &["std", "std::fmt", "std::collections", "krate::a::b", "krate::a", "krate", "serde", "krate::π", "crate::a", "crate", "core::fmt", "self::a", "std::fmt::a::b::c", "Std::fmt", "std::Fmt", "krate::A"];
const JAVA_PKGS: &[&str] = &["java.lang", "java.util", "com.own", "com.own.sub", "java.lang.reflect", "org.a", "org", "java", "java.util.java.lang", "com", "com.Own", "java.Lang"];
const CS_NS: &[&str] = &["System", "Foo.Bar", "Foo.Baz", "Own.Space", "Zed", "System.IO", "Foo", "Own", "Foo.Bar.Qux", "system", "foo.bar"];
const GO_MODS: &[&str] = &["fmt", "foo/bar", "foo/baz", "github.com/x/y", "a\"b/q", "net/π", "foo", "gopkg.in/q2", "a/b/c/d/e", "Foo/bar", "foo/Bar", "./foo"];
const SWIFT_MODS: &[&str] = &["UIKit", "Foundation", "Foo", "A.B", "Swift", "A", "foundation", "a"];
const DART_PATHS: &[&str] = &["dart:core", "dart:math", "package:http/http.dart", "../http.dart", "pk$g:x\\y.dart", "dart:core2", "dart:async", "core", "http.dart", "../Http.dart", "./http.dart", "package:http/./http.dart"];
const JS_GLOBALS: &[&str] = &["react", "collections", "@scope/x", "we\"ird", "d${x}", "react2", "node:fs", "./x.js", "react/jsx", "React", "./X.js", "x.js"];
const JS_PATHS: &[&str] = &["foo/bar.js", "foo/baz.js", "lib/a/b/c.js", "x.js", "foo/b`ar.js", "lib/a/z.js", "Foo/bar.js", "foo/Bar.js", "lib/A/q.js"];
const PY_MODS: &[&str] = &["collections", "os", "os.path", "a.b.c", "a.b", "a", "__future__", "typing", "os.path.x.y", "Collections", "a.B"];
const NAMES: &[&str] = &["Aa", "Bb", "Cc", "Debug", "Integer", "Ünï", "A1", "Map", "Ab", "_x", "String", "x", "MAP", "map"];
const ALIASES: &[&str] = &["Al1", "Al2", "Map2", "Bc", "al1"];
const MOD_ALIASES: &[&str] = &["ma1", "ma2", "fmt2"];
const NIX_ARGS: &[&str] = &["inputs", "cell", "pkgs0", "lib0", "inputs2"];
const NIX_PATHS: &[&str] = &["inputs", "inputs.nixpkgs.lib", "cell.inputs", "inputs2.x", "cell", "inputs.nixpkgs", "Inputs", "cell.Inputs"];
const NIX_NAMES: &[&str] = &["nixpkgs", "concatMap", "aa", "bb", "cc", "dd", "listToAttrs", "AA"];
const C_PATHS: &[&str] = &["stdio.h", "foo/bar.h", "a-b/c.h", "foo.h", "sys/x.h", "é/ü.h", "win\\x.h", "a b.h", "Stdio.h", "foo/Bar.h", "./foo.h"];

fn nest(depth: bool, pool: u8, lang: LangId) -> BoxedStrategy<Vec<Node>> {
    let idx = 0..pool;
    let word = proptest::sample::select(&["w1", "w2;", "{", "}", "x(", ")", "é"][..]).prop_map(str::to_string);
    let mut leaves: Vec<(u32, BoxedStrategy<Node>)> = vec![
        (8, (idx.clone(), any::<u8>()).prop_map(|(i, h)| Node::Use(i, h)).boxed()),
        (3, (idx.clone(), any::<u8>()).prop_map(|(i, h)| Node::Reg(i, h)).boxed()),
        (5, word.clone().prop_map(Node::Text).boxed()),
        (3, Just(Node::Push).boxed()),
        (2, Just(Node::Line).boxed()),
        (3, Just(Node::Space).boxed()),
        (1, ("[a-z]{0,3}", idx.clone()).prop_map(|(s, i)| Node::Quoted(s, i)).boxed()),
    ];
    if matches!(lang, LangId::JavaScript | LangId::Dart) {
        leaves.push((2, ("[a-z]{0,3}", idx).prop_map(|(s, i)| Node::Eval(s, i)).boxed()));
    }
    let leaf = proptest::strategy::Union::new_weighted(leaves).boxed();
    if !depth {
        return proptest::collection::vec(leaf, 0..6).boxed();
    }
    let tree = leaf.prop_recursive(3, 24, 5, |inner| {
        prop_oneof![
            proptest::collection::vec(inner.clone(), 0..5).prop_map(Node::Block),
            (any::<u8>(), proptest::collection::vec(inner, 0..5)).prop_map(|(h, n)| Node::Nest(h, n)),
        ]
    });
    proptest::collection::vec(tree, 0..12).boxed()
}

/// The text of a variable: one word, a block, possibly spread over lines.
fn value() -> BoxedStrategy<Vec<Node>> {
    let u = || (any::<u8>(), any::<u8>());
    prop_oneof![
        Just(vec![Node::Text("1".into())]),
        u().prop_map(|(i, h)| vec![Node::Use(i, h)]),
        (u(), u()).prop_map(|((i, h), (j, k))| vec![
            Node::Text("f".into()), Node::Space, Node::Use(i, h), Node::Space, Node::Reg(j, k), Node::Text("y".into()),
        ]),
        (u(), u()).prop_map(|((i, h), (j, k))| vec![
            Node::Text("g".into()), Node::Space, Node::Use(i, h), Node::Space, Node::Text("{".into()),
            Node::Block(vec![Node::Push, Node::Text("q".into()), Node::Space, Node::Use(j, k), Node::Line, Node::Text("z".into())]),
            Node::Push, Node::Text("}".into()),
        ]),
    ]
    .boxed()
}

pub fn spec(lang: LangId) -> BoxedStrategy<Spec> {
    let name = || of(NAMES);
    let plain = |mods: &'static [&'static str]| {
        (of(mods), of(NAMES)).prop_map(|(module, name)| Spec::Name { module, name, ops: vec![] }).boxed()
    };
    match lang {
        LangId::Rust => {
            let alias = prop_oneof![9 => of(ALIASES), 2 => Just("_".to_string())];
            let op = prop_oneof![
                alias.prop_map(IOp::Alias),
                Just(IOp::Qualified),
                Just(IOp::Direct),
            ];
            (of(RUST_MODS), name(), proptest::collection::vec(op, 0..3), proptest::option::weighted(0.2, of(MOD_ALIASES)))
                .prop_map(|(module, name, mut ops, m)| {
                    ops.extend(m.map(IOp::ModAlias));
                    Spec::Name { module, name, ops }
                })
                .boxed()
        }
        LangId::Java => plain(JAVA_PKGS),
        LangId::Csharp => (of(CS_NS), name(), proptest::bool::weighted(0.15)).prop_map(|(module, name, q)| Spec::Name {
            module, name, ops: if q { vec![IOp::Qualified] } else { vec![] },
        }).boxed(),
        LangId::Go => plain(GO_MODS),
        LangId::Swift => plain(SWIFT_MODS),
        LangId::C => (of(C_PATHS), name(), any::<bool>()).prop_map(|(path, item, system)| Spec::Include { path, item, system }).boxed(),
        LangId::Dart => (of(DART_PATHS), name(), proptest::option::weighted(0.4, of(MOD_ALIASES))).prop_map(|(module, name, a)| Spec::Name {
            module, name, ops: a.into_iter().map(IOp::Alias).collect(),
        }).boxed(),
        LangId::JavaScript => {
            let module = prop_oneof![
                of(JS_GLOBALS).prop_map(|m| (m, false)),
                of(JS_PATHS).prop_map(|m| (m, true)),
            ];
            let op = prop_oneof![of(ALIASES).prop_map(IOp::Alias), Just(IOp::Default), Just(IOp::Wildcard)];
            (module, name(), proptest::collection::vec(op, 0..3)).prop_map(|((module, path), name, ops)| Spec::Js { module, path, name, ops }).boxed()
        }
        LangId::Python => {
            let op = prop_oneof![
                of(ALIASES).prop_map(IOp::Alias),
                of(MOD_ALIASES).prop_map(IOp::ModAlias),
                Just(IOp::Qualified),
            ];
            prop_oneof![
                4 => (of(PY_MODS), name(), proptest::collection::vec(op, 0..3)).prop_map(|(module, name, ops)| Spec::Name { module, name, ops }),
                1 => (of(PY_MODS), proptest::option::of(of(MOD_ALIASES))).prop_map(|(module, alias)| Spec::PyModule { module, alias }),
            ]
            .boxed()
        }
        LangId::Nix => prop_oneof![
            of(NIX_ARGS).prop_map(Spec::NixArg),
            (of(NIX_PATHS), of(NIX_NAMES)).prop_map(|(path, name)| Spec::NixInherit { path, name }),
            (of(NIX_NAMES), value()).prop_map(|(name, value)| Spec::NixVar { name, value }),
            (of(NIX_PATHS), of(NIX_NAMES)).prop_map(|(arg, name)| Spec::NixWith { arg, name }),
        ]
        .boxed(),
    }
}

pub fn conf(lang: LangId) -> BoxedStrategy<Conf> {
    let some = |xs: &'static [&'static str]| proptest::option::weighted(0.7, of(xs));
    match lang {
        LangId::Java => some(&["com.own", "org.a", "main", "java.util", "com", "com.own.sub"]).prop_map(|package| Conf { package, ..Conf::default() }).boxed(),
        LangId::Csharp => some(&["Own.Space", "Foo.Bar", "Main", "System", "Own"]).prop_map(|package| Conf { package, ..Conf::default() }).boxed(),
        LangId::Go => some(&["main", "foo"]).prop_map(|package| Conf { package, ..Conf::default() }).boxed(),
        LangId::Rust => any::<bool>().prop_map(|qualified| Conf { qualified, ..Conf::default() }).boxed(),
        LangId::Nix => any::<bool>().prop_map(|scoped| Conf { scoped, ..Conf::default() }).boxed(),
        LangId::JavaScript => some(&["foo/baz.js", "lib/a/q.js", "main.js", "foo/deep/er.js"]).prop_map(|module_path| Conf { module_path, ..Conf::default() }).boxed(),
        _ => Just(Conf::default()).boxed(),
    }
}

pub fn lang() -> BoxedStrategy<LangId> {
    proptest::sample::select(&lits::ALL[..]).boxed()
}

pub fn doc_for(lang: LangId) -> BoxedStrategy<Doc> {
    (conf(lang), proptest::collection::vec(spec(lang), 1..9))
        .prop_flat_map(move |(conf, pool)| {
            let n = pool.len() as u8;
            (Just(conf), Just(pool), nest(true, n, lang))
        })
        .prop_map(move |(conf, pool, body)| {
            let mut d = Doc { lang, conf, pool, body };
            sanitize(&mut d);
            d
        })
        .boxed()
}

/// Make an import differ from others of its kind by a number.
fn number(lang: LangId, s: &mut Spec, i: usize, k: u8, first: &str) {
    match s {
        Spec::Name { module, name, ops } => {
            if k & 3 != 0 {
                name.push_str(&i.to_string());
            }
            match (k >> 2) & 3 {
                0 | 1 => *module = first.to_string(),
                2 if module.contains("::") => module.push_str(&format!("::m{i}")),
                2 if lang == LangId::Go => module.push_str(&format!("/m{i}")),
                2 if lang == LangId::Dart => *module = format!("p{i}/a.dart"),
                2 if module.contains('.') => module.push_str(&format!(".m{i}")),
                2 => module.push_str(&i.to_string()),
                _ => {}
            }
            for o in ops {
                if let (IOp::Alias(a) | IOp::ModAlias(a), true) = (o, k & 16 != 0) {
                    a.push_str(&i.to_string());
                }
            }
        }
        Spec::Js { module, path, name, ops } => {
            if k & 3 != 0 {
                name.push_str(&i.to_string());
            }
            match (k >> 2) & 3 {
                0 | 1 => (*module, *path) = (first.to_string(), false),
                2 => *module = format!("d{i}/{module}"),
                _ => {}
            }
            for o in ops {
                if let (IOp::Alias(a), true) = (o, k & 16 != 0) {
                    a.push_str(&i.to_string());
                }
            }
        }
        Spec::Include { path, item, .. } => {
            *path = format!("p{i}/{path}");
            item.push_str(&i.to_string());
        }
        Spec::PyModule { module, alias } => {
            module.push_str(&format!(".m{i}"));
            if let Some(a) = alias {
                a.push_str(&i.to_string());
            }
        }
        Spec::NixArg(n) => n.push_str(&i.to_string()),
        Spec::NixInherit { name, path } => {
            name.push_str(&i.to_string());
            if k & 4 != 0 {
                path.push_str(&format!(".p{i}"));
            }
        }
        Spec::NixVar { name, .. } | Spec::NixWith { name, .. } => name.push_str(&i.to_string()),
    }
}

/// Documents with dozens of imports, many of them from one module.
pub fn crowd(lang: LangId) -> BoxedStrategy<Doc> {
    let used = proptest::collection::vec((any::<u8>(), any::<u8>()), 0..30);
    (conf(lang), proptest::collection::vec((spec(lang), any::<u8>()), 10..70), used, any::<bool>())
        .prop_map(move |(conf, mut specs, more, back)| {
            let first = match &specs[0].0 {
                Spec::Name { module, .. } => module.clone(),
                Spec::Js { module, path: false, .. } => module.clone(),
                _ => "react".into(),
            };
            for (i, (s, k)) in specs.iter_mut().enumerate() {
                number(lang, s, i, *k, &first);
            }
            let mut uses: Vec<(u8, u8)> = specs.iter().enumerate().map(|(i, (_, k))| (i as u8, k >> 3)).collect();
            uses.extend(more);
            if back {
                uses.reverse();
            }
            let pool: Vec<Spec> = specs.into_iter().map(|s| s.0).collect();
            let mut body = vec![Node::Text("w1".into()), Node::Space];
            for (i, h) in uses {
                body.push(if h % 7 == 0 { Node::Reg(i, h) } else { Node::Use(i, h) });
                body.push(if h % 5 == 0 { Node::Push } else { Node::Space });
            }
            body.push(Node::Text("w2;".into()));
            let mut d = Doc { lang, conf, pool, body };
            sanitize(&mut d);
            d
        })
        .boxed()
}

pub fn doc() -> BoxedStrategy<Doc> {
    lang().prop_flat_map(doc_for).boxed()
}
