//! A boring evaluator for cargo platform strings (`cfg(..)` or a triple), and a
//! table of target attributes taken from `rustc --print cfg`.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Cfg {
    All(Vec<Cfg>),
    Any(Vec<Cfg>),
    Not(Box<Cfg>),
    Const(bool),
    Flag(String),
    Kv(String, String),
}

/// Parses `cfg(...)`; None if this is not a (valid) cfg expression
pub fn parse(s: &str) -> Option<Cfg> {
    let inner = s.strip_prefix("cfg(")?.strip_suffix(')')?;
    let toks = lex(inner)?;
    let mut i = 0;
    let c = expr(&toks, &mut i)?;
    if toks.get(i).map(|t| t.as_str()) == Some(",") {
        i += 1;
    }
    (i == toks.len()).then_some(c)
}

fn lex(s: &str) -> Option<Vec<String>> {
    let mut out = Vec::new();
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c.is_whitespace() {
            i += 1;
        } else if "(),=".contains(c) {
            out.push(c.to_string());
            i += 1;
        } else if c == '"' {
            let mut j = i + 1;
            while j < cs.len() && cs[j] != '"' {
                j += 1;
            }
            if j == cs.len() {
                return None;
            }
            out.push(cs[i..j].iter().collect());
            i = j + 1;
        } else if c.is_alphanumeric() || c == '_' {
            let mut j = i;
            while j < cs.len() && (cs[j].is_alphanumeric() || cs[j] == '_') {
                j += 1;
            }
            out.push(cs[i..j].iter().collect());
            i = j;
        } else {
            return None;
        }
    }
    Some(out)
}

fn expr(t: &[String], i: &mut usize) -> Option<Cfg> {
    let id = t.get(*i)?.clone();
    *i += 1;
    match t.get(*i).map(|s| s.as_str()) {
        Some("(") => {
            *i += 1;
            let mut v = Vec::new();
            while t.get(*i)? != ")" {
                v.push(expr(t, i)?);
                if t.get(*i)? == "," {
                    *i += 1;
                } else if t.get(*i)? != ")" {
                    return None;
                }
            }
            *i += 1;
            match id.as_str() {
                "all" => Some(Cfg::All(v)),
                "any" => Some(Cfg::Any(v)),
                "not" if v.len() == 1 => Some(Cfg::Not(Box::new(v.remove(0)))),
                _ => None,
            }
        }
        Some("=") => {
            *i += 1;
            let v = t.get(*i)?.strip_prefix('"')?.to_owned();
            *i += 1;
            Some(Cfg::Kv(id, v))
        }
        _ => Some(match id.as_str() {
            "true" => Cfg::Const(true),
            "false" => Cfg::Const(false),
            _ => Cfg::Flag(id),
        }),
    }
}

impl Cfg {
    pub fn eval(&self, atom: &dyn Fn(&str, Option<&str>) -> bool) -> bool {
        match self {
            Cfg::All(v) => v.iter().all(|c| c.eval(atom)),
            Cfg::Any(v) => v.iter().any(|c| c.eval(atom)),
            Cfg::Not(c) => !c.eval(atom),
            Cfg::Const(b) => *b,
            Cfg::Flag(f) => atom(f, None),
            Cfg::Kv(k, v) => atom(k, Some(v)),
        }
    }

    pub fn has_atoms(&self) -> bool {
        match self {
            Cfg::All(v) | Cfg::Any(v) => v.iter().any(|c| c.has_atoms()),
            Cfg::Not(c) => c.has_atoms(),
            Cfg::Const(_) => false,
            _ => true,
        }
    }
}

pub struct Target {
    pub triple: &'static str,
    pub os: &'static str,
    pub env: &'static str,
    pub arch: &'static str,
    pub vendor: &'static str,
    pub family: &'static str,
    pub big_endian: bool,
    pub width: u32,
}

macro_rules! t {
    ($($triple:literal $arch:literal $vendor:literal $os:literal $env:literal $family:literal $be:literal $w:literal;)*) => {
        &[$(Target { triple: $triple, arch: $arch, vendor: $vendor, os: $os, env: $env, family: $family, big_endian: $be, width: $w }),*]
    };
}

/// Values printed by `rustc --print cfg --target ..`
pub const TARGETS: &[Target] = t! {
    "x86_64-unknown-linux-gnu" "x86_64" "unknown" "linux" "gnu" "unix" false 64;
    "x86_64-unknown-linux-musl" "x86_64" "unknown" "linux" "musl" "unix" false 64;
    "x86_64-pc-windows-msvc" "x86_64" "pc" "windows" "msvc" "windows" false 64;
    "x86_64-pc-windows-gnu" "x86_64" "pc" "windows" "gnu" "windows" false 64;
    "aarch64-apple-darwin" "aarch64" "apple" "macos" "" "unix" false 64;
    "aarch64-apple-ios" "aarch64" "apple" "ios" "" "unix" false 64;
    "wasm32-unknown-unknown" "wasm32" "unknown" "unknown" "" "wasm" false 32;
    "wasm32-wasip1" "wasm32" "unknown" "wasi" "p1" "wasm" false 32;
    "i686-unknown-linux-gnu" "x86" "unknown" "linux" "gnu" "unix" false 32;
    "aarch64-unknown-linux-gnu" "aarch64" "unknown" "linux" "gnu" "unix" false 64;
    "aarch64-linux-android" "aarch64" "unknown" "android" "" "unix" false 64;
    "x86_64-unknown-freebsd" "x86_64" "unknown" "freebsd" "" "unix" false 64;
    "s390x-unknown-linux-gnu" "s390x" "unknown" "linux" "gnu" "unix" true 64;
    "thumbv7em-none-eabihf" "arm" "unknown" "none" "" "" false 32;
};

/// Does the platform string apply to this target triple (with the promised
/// target features)?  Triples outside the table only match by name.
pub fn applies(platform: &str, triple: &str, feats: &[&str]) -> bool {
    let Some(c) = parse(platform) else {
        return platform == triple;
    };
    let t = TARGETS.iter().find(|t| t.triple == triple);
    c.eval(&|k, v| match (k, v) {
        ("target_feature", Some(f)) => feats.contains(&f),
        _ => {
            let Some(t) = t else { return false };
            match (k, v) {
                ("unix", None) => t.family == "unix",
                ("windows", None) => t.family == "windows",
                ("target_os", Some(v)) => t.os == v,
                ("target_env", Some(v)) => t.env == v,
                ("target_arch", Some(v)) => t.arch == v,
                ("target_vendor", Some(v)) => t.vendor == v,
                ("target_family", Some(v)) => t.family == v && !v.is_empty(),
                ("target_endian", Some(v)) => v == if t.big_endian { "big" } else { "little" },
                ("target_pointer_width", Some(v)) => v == t.width.to_string(),
                ("target_has_atomic", Some(v)) => {
                    matches!(v, "8" | "16" | "32" | "ptr") || v == "64" && t.os != "none"
                }
                ("panic", Some(v)) => {
                    v == if t.family == "wasm" || t.os == "none" { "abort" } else { "unwind" }
                }
                ("target_abi", Some(v)) => v == if t.os == "none" { "eabihf" } else { "" },
                _ => false,
            }
        }
    })
}

/// Without a target filter everything is kept but constant-false expressions
pub fn kept_unfiltered(platform: &str) -> bool {
    match parse(platform) {
        Some(c) if !c.has_atoms() => c.eval(&|_, _| unreachable!()),
        _ => true,
    }
}
