//! Text forms: graphs, identifiers, targets, enumerations and errors print what they are.
use crate::bases;
use crate::build_props::cfg_key;
use crate::edits::{self, G, St};
use crate::engine::*;
use crate::ids::{sequence, sequences};
use crate::model::*;
use crate::observe;
use crate::reference::*;
use crate::run::Run;
use krates::cm::{self, CrateType, DependencyKind, Edition, TargetKind};
use krates::petgraph::dot::Dot;
use krates::{DepKind, Edge, Kid, Krates, Node, PkgSpec};
use std::error::Error as _;
use std::fmt;

/// A node type whose texts need escapes in the dot format
struct Named(String);
impl From<cm::Package> for Named {
    fn from(p: cm::Package) -> Self {
        Named(format!("\"{}\"\\{}", p.name, p.id.repr))
    }
}
impl fmt::Display for Named {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl fmt::Debug for Named {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "<{}>", self.0)
    }
}

struct Printed {
    groups: Vec<G>,
}

fn quoted(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
}

fn graph(u: &Universe, r: &Resolved, c: &Config, o: &mut Outcome) -> Result<(), String> {
    let m = metadata(u, r, c.opaque);
    o.runs += 1;
    let b: Result<Krates<Named, Edge>, _> =
        guarded(|| observe::builder(u, c).build_with_metadata(m.md, krates::NoneFilter)).map_err(|p| format!("panic: {p}"))?;
    let b = match b {
        Ok(b) => b,
        Err(krates::Error::NoRootKrates) => return Ok(()),
        Err(e) => return Err(format!("build failed with {e}")),
    };
    let g = b.graph();
    let mut dot = String::from("digraph {\n");
    for (i, n) in g.raw_nodes().iter().enumerate() {
        let (text, debug) = match &n.weight {
            Node::Krate { id, krate, .. } => (format!("crate {}", krate.0), format!("crate {id} <{}>", krate.0)),
            Node::Feature { name, .. } => (format!("feature {name}"), format!("feature {name}")),
        };
        if n.weight.to_string() != text || format!("{:?}", n.weight) != debug {
            return Err(format!("node {text:?} prints as {:?} and {:?}", n.weight.to_string(), n.weight));
        }
        dot += &format!("    {i} [ label = {} ]\n", quoted(&text));
    }
    for e in g.raw_edges() {
        let text = match &e.weight {
            Edge::Dep { kind, cfg } | Edge::DepFeature { kind, cfg } => {
                let kind = match kind {
                    DepKind::Normal => "",
                    DepKind::Build => "(build)",
                    DepKind::Dev => "(dev)",
                };
                format!("{kind}{}", cfg.as_ref().map(|c| format!(" '{c}'")).unwrap_or_default())
            }
            Edge::Feature => String::new(),
        };
        if e.weight.to_string() != text {
            return Err(format!("edge {:?} prints as {:?}", e.weight, e.weight.to_string()));
        }
        dot += &format!("    {} -> {} [ label = {} ]\n", e.source().index(), e.target().index(), quoted(&text));
    }
    dot += "}\n";
    let got = guarded(|| Dot::new(g).to_string()).map_err(|p| format!("panic: {p}"))?;
    if got != dot {
        return Err(format!("the dot graph is {got}, expected {dot}"));
    }
    o.digest = hash64(&dot);
    Ok(())
}

impl Space for Printed {
    type St = St;
    fn name(&self) -> String {
        "printed graphs".to_owned()
    }
    fn bases(&self) -> Vec<St> {
        bases::all().into_iter().map(|(_, u)| (u, Config::default())).collect()
    }
    fn successors(&self, s: &St, f: &mut dyn FnMut(St)) {
        edits::successors(s, &self.groups, f)
    }
    fn check(&self, (u, c): &St) -> Outcome {
        let mut o = Outcome::default();
        let Ok(r) = resolve(u) else {
            o.invalid = true;
            return o;
        };
        if let Err(e) = graph(u, &r, c, &mut o) {
            o.violation = Some(format!("{e} [config:{}]", cfg_key(c)));
        }
        o
    }
    fn show(&self, (u, c): &St) -> String {
        format!("{}{}", show(u), cfg_key(c))
    }
}

const KINDS: &[(&str, TargetKind)] = &[
    ("bench", TargetKind::Bench),
    ("bin", TargetKind::Bin),
    ("custom-build", TargetKind::CustomBuild),
    ("cdylib", TargetKind::CDyLib),
    ("dylib", TargetKind::DyLib),
    ("example", TargetKind::Example),
    ("lib", TargetKind::Lib),
    ("proc-macro", TargetKind::ProcMacro),
    ("rlib", TargetKind::RLib),
    ("staticlib", TargetKind::StaticLib),
    ("test", TargetKind::Test),
];
const TYPES: &[(&str, CrateType)] = &[
    ("bin", CrateType::Bin),
    ("cdylib", CrateType::CDyLib),
    ("dylib", CrateType::DyLib),
    ("lib", CrateType::Lib),
    ("proc-macro", CrateType::ProcMacro),
    ("rlib", CrateType::RLib),
    ("staticlib", CrateType::StaticLib),
];
const EDITIONS: &[(&str, Edition)] =
    &[("2015", Edition::E2015), ("2018", Edition::E2018), ("2021", Edition::E2021), ("2024", Edition::E2024)];
const DEP_KINDS: &[(DepKind, DependencyKind, &str, &str)] = &[
    (DepKind::Normal, DependencyKind::Normal, "", "normal"),
    (DepKind::Build, DependencyKind::Build, "build", "build"),
    (DepKind::Dev, DependencyKind::Development, "dev", "dev"),
];

fn words(s: &str) -> Result<(), String> {
    let kind = KINDS.iter().find(|(n, _)| *n == s).map(|k| k.1);
    let ty = TYPES.iter().find(|(n, _)| *n == s).map(|k| k.1);
    let ed = EDITIONS.iter().find(|(n, _)| *n == s).map(|k| k.1);
    // What is not known is an error that names it
    let says = |e: Option<String>| e.is_none_or(|e| e.contains(s));
    let (k, t, e) = (s.parse::<TargetKind>(), s.parse::<CrateType>(), s.parse::<Edition>());
    if k.as_ref().ok() != kind.as_ref() || !says(k.err()) {
        return Err(format!("target kind {s:?}"));
    }
    if t.as_ref().ok() != ty.as_ref() || !says(t.err()) {
        return Err(format!("crate type {s:?}"));
    }
    if e.as_ref().ok() != ed.as_ref() || !says(e.err()) {
        return Err(format!("edition {s:?}"));
    }
    if let Some(e) = ed {
        let order = EDITIONS.iter().map(|(n, x)| (n.cmp(&s), x.cmp(&e))).all(|(a, b)| a == b);
        if e.to_string() != s || e.as_str() != s || !order {
            return Err(format!("edition {s} prints as {e}"));
        }
    }
    let id = krates::PackageId { repr: s.to_owned() };
    let src = cm::Source { repr: s.to_owned() };
    if id.to_string() != s || src.to_string() != s || format!("{id:>12}|{src:<12}") != format!("{s:>12}|{s:<12}") {
        return Err(format!("{s:?} prints as {id} and {src}"));
    }
    Ok(())
}

fn error(i: usize) -> Option<Result<(), String>> {
    let json = || serde_json::from_str::<Vec<i32>>("[").unwrap_err();
    let utf8 = || std::str::from_utf8(&vec![0xff; 1]).unwrap_err();
    let from = || String::from_utf8(b"a\xff".to_vec()).unwrap_err();
    let io = || std::io::Error::other("no such thing");
    // error, what it is about, what caused it
    let (e, about, cause): (krates::Error, &str, Option<String>) = match i {
        0 => (krates::Error::NoResolveGraph, "resol", None),
        1 => (krates::Error::NoRootKrates, "no root", None),
        2 => (krates::Error::InvalidPkgSpec("the reason"), "the reason", None),
        3 => (cm::Error::NoJson.into(), "json", Some(cm::Error::NoJson.to_string())),
        4 => (cm::Error::CargoMetadata { stderr: "what cargo said".into() }.into(), "what cargo said", None),
        5 => (cm::Error::from(io()).into(), "no such thing", None),
        6 => (cm::Error::from(utf8()).into(), "stdout", None),
        7 => (cm::Error::from(from()).into(), "stderr", None),
        8 => (cm::Error::from(json()).into(), "EOF", None),
        _ => return None,
    };
    let text = e.to_string();
    let root: Option<String> = match i {
        5 => Some(io().to_string()),
        6 => Some(utf8().to_string()),
        7 => Some(from().to_string()),
        8 => Some(json().to_string()),
        _ => None,
    };
    let check = || -> Result<(), String> {
        if !text.contains(about) {
            return Err(format!("{text:?} does not tell {about:?}"));
        }
        match (&e, e.source()) {
            (krates::Error::Metadata(_), Some(s)) => {
                if s.to_string() != text {
                    return Err(format!("the source of {text:?} is {s}"));
                }
                let r = s.source().map(|s| s.to_string());
                if r != root {
                    return Err(format!("the cause of {text:?} is {r:?}"));
                }
                if root.is_some_and(|r| !text.contains(&r)) {
                    return Err(format!("{text:?} leaves out its cause"));
                }
            }
            (krates::Error::Metadata(_), None) => return Err(format!("{text:?} has no source")),
            (_, Some(s)) => return Err(format!("the source of {text:?} is {s}")),
            (_, None) => {}
        }
        if cause.is_some_and(|c| c != text) {
            return Err(format!("{text:?} hides its cause"));
        }
        Ok(())
    };
    Some(check())
}

fn simple(r: Result<Result<(), String>, String>, i: u64) -> Outcome {
    let mut o = Outcome { runs: 1, digest: i, ..Outcome::default() };
    o.violation = match r {
        Err(p) => Some(format!("panic: {p}")),
        Ok(r) => r.err(),
    };
    o
}

const TOKENS: &[&str] = &[
    "bench", "bin", "custom-build", "cdylib", "dylib", "example", "lib", "proc-macro", "rlib", "staticlib", "test", "proc_macro", "Lib",
    "2015", "2018", "2021", "2024", "20", "1", "r", "-", " ", "static", "c",
];

/// Triples, known to rustc or not, and names that are no triples
fn triples() -> Vec<String> {
    let mut all: Vec<String> =
        krates::cfg_expr::targets::ALL_BUILTINS.iter().map(|t| t.triple.as_str().to_owned()).collect();
    for s in ["", "x", "my-own.json", "x86_64-unknown-linux", "x86_64-acme-linux-gnu", "é", "a b", "X86_64-unknown-linux-gnu", "cfg(unix)"] {
        all.push(s.to_owned());
    }
    all
}

pub fn texts(r: &mut Run, groups: &[G], depth: usize) {
    let t = triples();
    r.flat(
        "targets",
        t.len() as u64,
        |i| {
            let s = &t[i as usize];
            let got = guarded(|| {
                let a = krates::Target::from(s.as_str()).to_string();
                let b = krates::Target::from(s.clone()).clone().to_string();
                if a == *s && b == *s { Ok(()) } else { Err(format!("target {s:?} prints as {a:?}, {b:?}")) }
            });
            simple(got, i)
        },
        |i| t[i as usize].clone(),
    );
    r.flat("words", sequences(TOKENS, 3), |i| simple(guarded(|| words(&sequence(TOKENS, i).concat())), i), |i| sequence(TOKENS, i).concat());
    r.flat("errors", 9, |i| simple(guarded(|| error(i as usize).unwrap()), i), |i| format!("error {i}"));
    r.flat(
        "dependency kinds",
        9,
        |i| {
            let (a, b) = (DEP_KINDS[i as usize / 3], DEP_KINDS[i as usize % 3]);
            let got = guarded(|| {
                let same = i / 3 == i % 3;
                if (a.0 == b.1) != same || (a.0 == b.0) != same || (DepKind::from(b.1) == a.0) != same {
                    return Err(format!("{:?} and {:?} compare wrongly", a.0, b.1));
                }
                if a.0.to_string() != a.2 || a.1.to_string() != a.3 {
                    return Err(format!("{:?} prints as {:?}, {:?} as {:?}", a.0, a.0.to_string(), a.1, a.1.to_string()));
                }
                Ok(())
            });
            simple(got, i)
        },
        |i| format!("{:?} {:?}", DEP_KINDS[i as usize / 3].0, DEP_KINDS[i as usize % 3].1),
    );
    // Identifiers of every package of every base
    let ids: Vec<(String, String, String, String)> = bases::all()
        .into_iter()
        .chain(bases::large())
        .flat_map(|(_, u)| {
            let r = resolve(&u).unwrap();
            [false, true].into_iter().flat_map(move |o| {
                let m = metadata(&u, &r, o);
                m.md.packages.into_iter().map(|p| (p.id.repr, p.name, p.version.to_string(), p.source.map_or(String::new(), |s| s.repr))).collect::<Vec<_>>()
            })
        })
        .collect();
    r.flat(
        "identifiers",
        ids.len() as u64,
        |i| {
            let (id, name, ver, src) = &ids[i as usize];
            let got = guarded(|| {
                let k = Kid::from(krates::PackageId { repr: id.clone() });
                let d = format!("{k:?}");
                let crates_io = src.ends_with("//github.com/rust-lang/crates.io-index");
                if !d.contains(&format!("name: {name:?}")) || !d.contains(&format!("version: {ver:?}")) || d.contains("source: ") == crates_io {
                    return Err(format!("{id} is shown as {d}"));
                }
                if !crates_io && !d.contains(&format!("source: {:?}", k.source())) {
                    return Err(format!("{id} is shown as {d}, its source is {}", k.source()));
                }
                Ok(())
            });
            simple(got, i)
        },
        |i| ids[i as usize].0.clone(),
    );
    // A spec that is rejected says why
    const SPEC: &[&str] = &["foo", "1.2.3", "@", ":", "#", "https://", "host", "/", "?", "é"];
    r.flat(
        "rejected package specs",
        sequences(SPEC, 4),
        |i| {
            let s = sequence(SPEC, i).concat();
            let got = guarded(|| match s.parse::<PkgSpec>() {
                Ok(_) => Ok(()),
                Err(krates::Error::InvalidPkgSpec(why)) if !why.is_empty() => Ok(()),
                Err(e) => Err(format!("{s:?}: {e}")),
            });
            simple(got, i)
        },
        |i| sequence(SPEC, i).concat(),
    );
    r.bfs(&Printed { groups: groups.to_vec() }, depth);
}
