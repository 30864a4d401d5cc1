//! Metadata documents: a table of what cargo's format allows per field, every
//! document within a few field edits of a complete one, decoded (in several
//! spellings), projected back field by field, and encoded again.
use crate::engine::{Outcome, Space, guarded, hash64};
use crate::evidence::thorough;
use crate::run::Run;
use krates::cm::{self, Metadata};
use serde_json::{Map, Value, json};
use std::fmt::Write as _;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ty {
    Str,
    Bool,
    Number,
    Version,
    Req,
    RustVersion,
    Any,
    Kind,
    TargetKind,
    CrateType,
    Edition,
    List(&'static Ty),
    /// Feature table
    Table,
    Obj(&'static [Field]),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Absent {
    Error,
    Null,
    /// null is the same as absent
    Nullable,
    EmptyList,
    True,
    Zero,
    Normal,
    E2015,
}

type Field = (&'static str, Ty, Absent);

use Absent as Ab;
const STRS: Ty = Ty::List(&Ty::Str);

const METADATA: &[Field] = &[
    ("packages", Ty::List(&Ty::Obj(PACKAGE)), Ab::Error),
    ("workspace_members", STRS, Ab::Error),
    ("workspace_default_members", STRS, Ab::Null),
    ("resolve", Ty::Obj(RESOLVE), Ab::Nullable),
    ("workspace_root", Ty::Str, Ab::Error),
    ("target_directory", Ty::Str, Ab::Error),
    ("metadata", Ty::Any, Ab::Null),
    ("version", Ty::Number, Ab::Zero),
];
const RESOLVE: &[Field] = &[("nodes", Ty::List(&Ty::Obj(NODE)), Ab::Error), ("root", Ty::Str, Ab::Nullable)];
const NODE: &[Field] = &[
    ("id", Ty::Str, Ab::Error),
    ("deps", Ty::List(&Ty::Obj(NODE_DEP)), Ab::EmptyList),
    ("dependencies", STRS, Ab::Error),
    ("features", STRS, Ab::EmptyList),
];
const NODE_DEP: &[Field] = &[
    ("name", Ty::Str, Ab::Error),
    ("pkg", Ty::Str, Ab::Error),
    ("dep_kinds", Ty::List(&Ty::Obj(DEP_KIND)), Ab::EmptyList),
];
const DEP_KIND: &[Field] = &[("kind", Ty::Kind, Ab::Normal), ("target", Ty::Str, Ab::Nullable)];
const PACKAGE: &[Field] = &[
    ("name", Ty::Str, Ab::Error),
    ("version", Ty::Version, Ab::Error),
    ("authors", STRS, Ab::EmptyList),
    ("id", Ty::Str, Ab::Error),
    ("source", Ty::Str, Ab::Nullable),
    ("description", Ty::Str, Ab::Nullable),
    ("dependencies", Ty::List(&Ty::Obj(DEPENDENCY)), Ab::Error),
    ("license", Ty::Str, Ab::Nullable),
    ("license_file", Ty::Str, Ab::Nullable),
    ("targets", Ty::List(&Ty::Obj(TARGET)), Ab::Error),
    ("features", Ty::Table, Ab::Error),
    ("manifest_path", Ty::Str, Ab::Error),
    ("categories", STRS, Ab::EmptyList),
    ("keywords", STRS, Ab::EmptyList),
    ("readme", Ty::Str, Ab::Nullable),
    ("repository", Ty::Str, Ab::Nullable),
    ("homepage", Ty::Str, Ab::Nullable),
    ("documentation", Ty::Str, Ab::Nullable),
    ("edition", Ty::Edition, Ab::E2015),
    ("metadata", Ty::Any, Ab::Null),
    ("links", Ty::Str, Ab::Nullable),
    ("publish", STRS, Ab::Nullable),
    ("default_run", Ty::Str, Ab::Nullable),
    ("rust_version", Ty::RustVersion, Ab::Nullable),
];
const DEPENDENCY: &[Field] = &[
    ("name", Ty::Str, Ab::Error),
    ("source", Ty::Str, Ab::Nullable),
    ("req", Ty::Req, Ab::Error),
    ("kind", Ty::Kind, Ab::Normal),
    ("optional", Ty::Bool, Ab::Error),
    ("uses_default_features", Ty::Bool, Ab::Error),
    ("features", STRS, Ab::Error),
    ("target", Ty::Str, Ab::Nullable),
    ("rename", Ty::Str, Ab::Nullable),
    ("registry", Ty::Str, Ab::Nullable),
    ("path", Ty::Str, Ab::Nullable),
];
const TARGET: &[Field] = &[
    ("name", Ty::Str, Ab::Error),
    ("kind", Ty::List(&Ty::TargetKind), Ab::Error),
    ("crate_types", Ty::List(&Ty::CrateType), Ab::EmptyList),
    ("required-features", STRS, Ab::EmptyList),
    ("src_path", Ty::Str, Ab::Error),
    ("edition", Ty::Edition, Ab::E2015),
    ("doctest", Ty::Bool, Ab::True),
    ("test", Ty::Bool, Ab::True),
    ("doc", Ty::Bool, Ab::True),
];

const KINDS: &[&str] = &["normal", "dev", "build"];
const TARGET_KINDS: &[&str] =
    &["example", "test", "bench", "custom-build", "bin", "lib", "rlib", "dylib", "cdylib", "staticlib", "proc-macro"];
const CRATE_TYPES: &[&str] = &["bin", "lib", "rlib", "dylib", "cdylib", "staticlib", "proc-macro"];
const EDITIONS: &[&str] = &["2015", "2018", "2021", "2024"];

// ------------------------------------------------------------ the oracle
/// The document with every field present and in one spelling; Err: malformed
fn normal(v: &Value, ty: Ty) -> Result<Value, String> {
    let text = || v.as_str().ok_or(format!("{v} is no string"));
    let one_of = |set: &[&str]| {
        let s = text()?;
        if set.contains(&s) { Ok(json!(s)) } else { Err(format!("{s} is none of {set:?}")) }
    };
    match ty {
        Ty::Str => Ok(json!(text()?)),
        Ty::Bool => v.as_bool().map(Value::Bool).ok_or(format!("{v} is no bool")),
        Ty::Number => v.as_u64().map(|n| json!(n)).ok_or(format!("{v} is no count")),
        Ty::Version => text()?.parse::<krates::semver::Version>().map(|v| json!(v.to_string())).map_err(|e| e.to_string()),
        Ty::Req => text()?.parse::<krates::semver::VersionReq>().map(|v| json!(v.to_string())).map_err(|e| e.to_string()),
        Ty::RustVersion => {
            let parts: Vec<&str> = text()?.split('.').collect();
            let number = |s: &&str| !s.is_empty() && s.chars().all(|c| c.is_ascii_digit()) && (s.len() == 1 || !s.starts_with('0'));
            if parts.len() > 3 || !parts.iter().all(number) {
                return Err(format!("{v} is no rust version"));
            }
            let at = |i: usize| *parts.get(i).unwrap_or(&"0");
            Ok(json!(format!("{}.{}.{}", at(0), at(1), at(2))))
        }
        Ty::Any => Ok(v.clone()),
        Ty::Kind => {
            if v.is_null() {
                return Ok(json!("normal"));
            }
            one_of(KINDS)
        }
        Ty::TargetKind => one_of(TARGET_KINDS),
        Ty::CrateType => one_of(CRATE_TYPES),
        Ty::Edition => one_of(EDITIONS),
        Ty::List(t) => v
            .as_array()
            .ok_or(format!("{v} is no list"))?
            .iter()
            .map(|v| normal(v, *t))
            .collect::<Result<Vec<_>, _>>()
            .map(Value::Array),
        Ty::Table => {
            let m = v.as_object().ok_or(format!("{v} is no table"))?;
            let mut o = Map::new();
            for (k, v) in m {
                o.insert(k.clone(), normal(v, STRS)?);
            }
            Ok(Value::Object(o))
        }
        Ty::Obj(fields) => {
            let m = v.as_object().ok_or(format!("{v} is no object"))?;
            let mut o = Map::new();
            for (name, ty, absent) in fields {
                let v = match (m.get(*name), absent) {
                    (None, Ab::Error) => return Err(format!("{name} is missing")),
                    (None, Ab::Null | Ab::Nullable) | (Some(Value::Null), Ab::Nullable) => Value::Null,
                    (None, Ab::EmptyList) => json!([]),
                    (None, Ab::True) => json!(true),
                    (None, Ab::Zero) => json!(0),
                    (None, Ab::Normal) => json!("normal"),
                    (None, Ab::E2015) => json!("2015"),
                    (Some(v), _) => normal(v, *ty)?,
                };
                o.insert((*name).to_owned(), v);
            }
            // The root of the graph is null for a virtual workspace, but always there
            if fields == RESOLVE && !m.contains_key("root") {
                return Err("root is missing".into());
            }
            Ok(Value::Object(o))
        }
    }
}

// ------------------------------------------------------------ what was decoded
fn ids(v: &[cm::PackageId]) -> Value {
    v.iter().map(|i| i.repr.clone()).collect()
}

fn kind(k: cm::DependencyKind) -> &'static str {
    match k {
        cm::DependencyKind::Normal => "normal",
        cm::DependencyKind::Development => "dev",
        cm::DependencyKind::Build => "build",
    }
}

fn target_kind(k: cm::TargetKind) -> &'static str {
    use cm::TargetKind as T;
    match k {
        T::Bench => "bench",
        T::Bin => "bin",
        T::CustomBuild => "custom-build",
        T::CDyLib => "cdylib",
        T::DyLib => "dylib",
        T::Example => "example",
        T::Lib => "lib",
        T::ProcMacro => "proc-macro",
        T::RLib => "rlib",
        T::StaticLib => "staticlib",
        T::Test => "test",
    }
}

fn crate_type(k: cm::CrateType) -> &'static str {
    use cm::CrateType as T;
    match k {
        T::Bin => "bin",
        T::CDyLib => "cdylib",
        T::DyLib => "dylib",
        T::Lib => "lib",
        T::ProcMacro => "proc-macro",
        T::RLib => "rlib",
        T::StaticLib => "staticlib",
    }
}

fn edition(e: cm::Edition) -> &'static str {
    match e {
        cm::Edition::E2015 => "2015",
        cm::Edition::E2018 => "2018",
        cm::Edition::E2021 => "2021",
        cm::Edition::E2024 => "2024",
    }
}

fn project(m: &Metadata) -> Value {
    let packages: Vec<Value> = m
        .packages
        .iter()
        .map(|p| {
            let dependencies: Vec<Value> = p
                .dependencies
                .iter()
                .map(|d| {
                    json!({
                        "name": d.name, "source": d.source, "req": d.req.to_string(), "kind": kind(d.kind),
                        "optional": d.optional, "uses_default_features": d.uses_default_features,
                        "features": d.features, "target": d.target, "rename": d.rename,
                        "registry": d.registry, "path": d.path.as_ref().map(|p| p.as_str()),
                    })
                })
                .collect();
            let targets: Vec<Value> = p
                .targets
                .iter()
                .map(|t| {
                    json!({
                        "name": t.name, "kind": t.kind.iter().map(|k| target_kind(*k)).collect::<Vec<_>>(),
                        "crate_types": t.crate_types.iter().map(|k| crate_type(*k)).collect::<Vec<_>>(),
                        "required-features": t.required_features, "src_path": t.src_path.as_str(),
                        "edition": edition(t.edition), "doctest": t.doctest, "test": t.test, "doc": t.doc,
                    })
                })
                .collect();
            let mut o = json!({
                "name": p.name, "version": p.version.to_string(), "authors": p.authors, "id": p.id.repr,
                "source": p.source.as_ref().map(|s| &s.repr), "description": p.description,
                "dependencies": dependencies, "license": p.license,
                "license_file": p.license_file.as_ref().map(|p| p.as_str()), "targets": targets,
                "features": p.features, "manifest_path": p.manifest_path.as_str(),
                "categories": p.categories, "keywords": p.keywords,
                "readme": p.readme.as_ref().map(|p| p.as_str()), "repository": p.repository,
                "homepage": p.homepage, "documentation": p.documentation,
            });
            let more = json!({
                "edition": edition(p.edition), "metadata": p.metadata, "links": p.links,
                "publish": p.publish, "default_run": p.default_run,
                "rust_version": p.rust_version.as_ref().map(|v| v.to_string()),
            });
            o.as_object_mut().unwrap().append(&mut more.as_object().unwrap().clone());
            o
        })
        .collect();
    let resolve = m.resolve.as_ref().map(|r| {
        let nodes: Vec<Value> = r
            .nodes
            .iter()
            .map(|n| {
                let deps: Vec<Value> = n
                    .deps
                    .iter()
                    .map(|d| {
                        let kinds: Vec<Value> =
                            d.dep_kinds.iter().map(|k| json!({"kind": kind(k.kind), "target": k.target})).collect();
                        json!({"name": d.name, "pkg": d.pkg.repr, "dep_kinds": kinds})
                    })
                    .collect();
                json!({"id": n.id.repr, "deps": deps, "dependencies": ids(&n.dependencies), "features": n.features})
            })
            .collect();
        json!({"nodes": nodes, "root": r.root.as_ref().map(|r| &r.repr)})
    });
    json!({
        "packages": packages, "workspace_members": ids(&m.workspace_members),
        "workspace_default_members": m.workspace_default_members.0.as_deref().map(ids),
        "resolve": resolve, "workspace_root": m.workspace_root.as_str(),
        "target_directory": m.target_directory.as_str(), "metadata": m.workspace_metadata, "version": m.version,
    })
}

// ------------------------------------------------------------ documents
/// A document in which every field has a telling value
fn complete() -> Value {
    let dep = |name: &str, kind: Value| {
        json!({
            "name": name, "source": "registry+https://github.com/rust-lang/crates.io-index", "req": "^1.2.3, <1.5",
            "kind": kind, "rename": "renamed", "optional": true, "uses_default_features": false,
            "features": ["f", "g"], "target": "cfg(unix)", "registry": "https://host.io/index", "path": "/ws/dep",
        })
    };
    let target = |name: &str, kind: &str, ty: &str| {
        json!({
            "name": name, "kind": [kind], "crate_types": [ty], "required-features": ["need"],
            "src_path": "/ws/src/x.rs", "edition": "2021", "doctest": false, "test": false, "doc": false,
        })
    };
    let package = |name: &str| {
        json!({
            "name": name, "version": "1.2.3-rc.1+b5", "authors": ["A <a@b.c>", "B"],
            "id": format!("path+file:///ws/{name}#1.2.3-rc.1+b5"),
            "source": "registry+https://github.com/rust-lang/crates.io-index", "description": "what it \"is\"\n",
            "dependencies": [dep("one", Value::Null), dep("two", json!("dev"))],
            "license": "MIT OR Apache-2.0", "license_file": "LICENSE",
            "targets": [target(name, "lib", "lib"), target("build-script-build", "custom-build", "bin")],
            "features": {"default": ["f"], "f": ["dep:one", "one?/x"], "g": []},
            "manifest_path": format!("/ws/{name}/Cargo.toml"), "categories": ["c"], "keywords": ["k", "l"],
            "readme": "README.md", "repository": "https://r", "homepage": "https://h", "documentation": "https://d",
            "edition": "2024", "metadata": {"docs": {"rs": [1, 2.5, null, true]}}, "links": "z",
            "publish": ["crates-io"], "default_run": "run", "rust_version": "1.85.1",
        })
    };
    json!({
        "packages": [package("one"), package("two")],
        "workspace_members": ["path+file:///ws/one#1.2.3", "path+file:///ws/two#1.2.3"],
        "workspace_default_members": ["path+file:///ws/one#1.2.3"],
        "resolve": {
            "nodes": [
                {"id": "a", "dependencies": ["b", "c"], "features": ["f", "g"], "deps": [
                    {"name": "b", "pkg": "b-id", "dep_kinds": [{"kind": null, "target": null}, {"kind": "build", "target": "cfg(windows)"}]},
                    {"name": "c", "pkg": "c-id", "dep_kinds": [{"kind": "dev", "target": null}]},
                ]},
                {"id": "b", "dependencies": [], "features": [], "deps": []},
            ],
            "root": "a",
        },
        "workspace_root": "/ws", "target_directory": "/ws/target",
        "metadata": {"key": ["value", {"deep": 18446744073709551615u64}]}, "version": 1,
    })
}

/// Other values of a field, right and wrong ones
fn alternatives(ty: Ty) -> Vec<Value> {
    let strings = |set: &[&str]| set.iter().map(|s| json!(s)).collect::<Vec<_>>();
    let mut v = match ty {
        Ty::Str => strings(&["", "\u{e9}\u{1F980}\u{0} \"quoted\" \\ /\n\t", "x"]),
        Ty::Bool => vec![json!(true), json!(false)],
        Ty::Number => vec![json!(0), json!(2), json!(-1), json!(1.5)],
        Ty::Version => strings(&["0.0.0", "10.20.30-alpha.1+sha.5", "1.2", "v1.2.3", ""]),
        Ty::Req => strings(&["*", "^1", "~1.2", "=1.0.0-rc.1", ">=1.2.3, <2", "nope"]),
        Ty::RustVersion => strings(&["1", "1.70", "1.70.0", "1.70.0.1", "1.70-beta", "1.70.0+x", "", "1.", "01", "x"]),
        Ty::Any => vec![Value::Null, json!({}), json!([[]]), json!(-1.5), json!("s"), json!({"a": {"b": null}})],
        Ty::Kind => [strings(KINDS), strings(&["development", ""])].concat(),
        Ty::TargetKind => [strings(TARGET_KINDS), strings(&["Lib", "unknown"])].concat(),
        Ty::CrateType => [strings(CRATE_TYPES), strings(&["test", ""])].concat(),
        Ty::Edition => [strings(EDITIONS), strings(&["2027", ""])].concat(),
        Ty::List(t) => {
            let mut v = vec![json!([])];
            if !matches!(t, Ty::Obj(_)) {
                v.extend(alternatives(*t).into_iter().map(|a| json!([a])));
                v.extend(alternatives(*t).into_iter().take(2).map(|a| json!([a, a])));
            }
            v
        }
        Ty::Table => vec![json!({}), json!({"\u{e9} /": ["dep:a", ""]}), json!({"f": null}), json!({"f": [1]}), json!([])],
        Ty::Obj(_) => vec![json!({})],
    };
    // Wrong for nearly everything
    v.push(Value::Null);
    v.push(json!(5));
    v.push(json!("text"));
    v.push(json!([5]));
    v
}

type Edit = (String, Option<Value>);

/// Every edit of one field of the document, as (JSON pointer, new value or removal)
fn edits(at: &str, v: &Value, ty: Ty, out: &mut Vec<Edit>) {
    match ty {
        Ty::Obj(fields) => {
            for (name, ty, _) in fields {
                let Some(v) = v.get(*name) else { continue };
                let at = format!("{at}/{name}");
                out.push((at.clone(), None));
                let mut seen = vec![v.clone()];
                for a in alternatives(*ty) {
                    if !seen.contains(&a) {
                        seen.push(a.clone());
                        out.push((at.clone(), Some(a)));
                    }
                }
                edits(&at, v, *ty, out);
            }
        }
        // One element is edited in detail, the others stay as they are
        Ty::List(t @ Ty::Obj(_)) => {
            for (i, v) in v.as_array().unwrap().iter().enumerate().take(1) {
                edits(&format!("{at}/{i}"), v, *t, out);
            }
        }
        _ => {}
    }
}

pub struct Documents {
    base: Value,
    edits: Vec<Edit>,
    encode: bool,
}

fn apply(v: &mut Value, e: &Edit) -> bool {
    let (parent, key) = e.0.rsplit_once('/').unwrap();
    let Some(Value::Object(m)) = v.pointer_mut(parent) else { return false };
    if !m.contains_key(key) {
        return false;
    }
    match &e.1 {
        Some(x) => {
            m.insert(key.to_owned(), x.clone());
        }
        None => {
            m.remove(key);
        }
    }
    true
}

impl Documents {
    fn new(encode: bool) -> Self {
        let base = complete();
        let mut all = Vec::new();
        edits("", &base, Ty::Obj(METADATA), &mut all);
        Documents { base, edits: all, encode }
    }
    fn of(&self, s: &[u16]) -> Option<Value> {
        let mut v = self.base.clone();
        for i in s {
            if !apply(&mut v, &self.edits[*i as usize]) {
                return None;
            }
        }
        Some(v)
    }
}

// ------------------------------------------------------------ spellings
fn quote(s: &str, escape: bool, o: &mut String) {
    if !escape {
        o.push_str(&Value::from(s).to_string());
        return;
    }
    o.push('"');
    for u in s.encode_utf16() {
        write!(o, "\\u{u:04x}").unwrap();
    }
    o.push('"');
}

#[derive(Clone, Copy)]
struct Spelling {
    reverse: bool,
    space: &'static str,
    unknown: bool,
    escape: bool,
}

const UNKNOWN: &str = r#"{"a":[1,-2,3.5e10,true,false,null,"t\n",{"b":{}},[]],"packages":{"c":null}}"#;

fn spell(v: &Value, s: Spelling, known: bool, o: &mut String) {
    match v {
        Value::Object(m) => {
            o.push('{');
            let mut first = true;
            let mut sep = |o: &mut String| {
                if !std::mem::take(&mut first) {
                    o.push(',');
                }
                o.push_str(s.space);
            };
            if s.unknown && known {
                sep(o);
                write!(o, "\"zz_new\":{UNKNOWN}").unwrap();
            }
            let mut es: Vec<_> = m.iter().collect();
            if s.reverse {
                es.reverse();
            }
            for (i, (k, v)) in es.into_iter().enumerate() {
                sep(o);
                quote(k, s.escape, o);
                o.push_str(s.space);
                o.push(':');
                o.push_str(s.space);
                // No unknown keys inside free-form values and tables
                spell(v, s, known && !matches!(k.as_str(), "metadata") && !(k == "features" && v.is_object()), o);
                if s.unknown && known && i % 3 == 0 {
                    sep(o);
                    write!(o, "\"unknown{i}\":{}", ["null", "17", "\"\"", "[{}]", "-0.5"][i % 5]).unwrap();
                }
            }
            o.push_str(s.space);
            o.push('}');
        }
        Value::Array(a) => {
            o.push('[');
            for (i, v) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                o.push_str(s.space);
                spell(v, s, known, o);
            }
            o.push_str(s.space);
            o.push(']');
        }
        Value::String(t) => quote(t, s.escape, o),
        v => o.push_str(&v.to_string()),
    }
}

const SPELLINGS: &[Spelling] = &[
    Spelling { reverse: true, space: "", unknown: false, escape: false },
    Spelling { reverse: false, space: "\n  ", unknown: true, escape: false },
    Spelling { reverse: true, space: " ", unknown: true, escape: true },
];

fn first_difference(at: &str, a: &Value, b: &Value) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for k in x.keys().chain(y.keys()) {
                let n = Value::Null;
                let missing = !x.contains_key(k) || !y.contains_key(k);
                let (u, v) = (x.get(k).unwrap_or(&n), y.get(k).unwrap_or(&n));
                if missing {
                    return Some(format!("{at}/{k}: {u} expected, {v} found"));
                }
                if let Some(d) = first_difference(&format!("{at}/{k}"), u, v) {
                    return Some(d);
                }
            }
            None
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
            x.iter().zip(y).enumerate().find_map(|(i, (u, v))| first_difference(&format!("{at}/{i}"), u, v))
        }
        (a, b) if a == b => None,
        (a, b) => Some(format!("{at}: {a} expected, {b} found")),
    }
}

fn decode_all(v: &Value, o: &mut Outcome) -> Option<(Value, Metadata)> {
    let want = normal(v, Ty::Obj(METADATA));
    let mut texts = vec![("compact".to_owned(), v.to_string())];
    for (i, s) in SPELLINGS.iter().enumerate() {
        let mut t = String::new();
        spell(v, *s, true, &mut t);
        texts.push((format!("spelling {i}"), t));
    }
    let mut result = None;
    let mut judge = |how: &str, r: Result<Result<Metadata, String>, String>| {
        o.runs += 1;
        let bad = match (&want, r) {
            (_, Err(p)) => Some(format!("panic: {p}")),
            (Ok(w), Ok(Ok(m))) => {
                let d = first_difference("", w, &project(&m));
                result = Some((w.clone(), m));
                d
            }
            (Err(_), Ok(Err(_))) => None,
            (Ok(_), Ok(Err(e))) => Some(format!("rejected: {e}")),
            (Err(e), Ok(Ok(_))) => Some(format!("accepted, although {e}")),
        };
        if let Some(b) = bad {
            o.violation.get_or_insert(format!("{how}: {b}"));
        }
    };
    for (how, t) in &texts {
        judge(how, guarded(|| cm::MetadataCommand::parse(t).map_err(|e| e.to_string())));
    }
    let t = &texts[0].1;
    judge("from a reader", guarded(|| serde_json::from_reader(t.as_bytes()).map_err(|e| e.to_string())));
    judge("from a value", guarded(|| serde_json::from_value(v.clone()).map_err(|e| e.to_string())));
    o.digest = hash64(&want.map(|w| w.to_string()).map_err(|_| ()));
    result
}

fn only_known(at: &str, v: &Value, ty: Ty) -> Option<String> {
    match ty {
        Ty::Obj(fields) => v.as_object()?.iter().find_map(|(k, v)| {
            match fields.iter().find(|f| f.0 == k) {
                None => Some(format!("{at}/{k} is no field of the format")),
                Some(f) => only_known(&format!("{at}/{k}"), v, f.1),
            }
        }),
        Ty::List(t) => v.as_array()?.iter().enumerate().find_map(|(i, v)| only_known(&format!("{at}/{i}"), v, *t)),
        _ => None,
    }
}

fn encode(want: &Value, m: &Metadata, o: &mut Outcome) {
    let r = guarded(|| {
        let text = serde_json::to_string(m).map_err(|e| e.to_string())?;
        let pretty = serde_json::to_string_pretty(&m.clone()).map_err(|e| e.to_string())?;
        let value = serde_json::to_value(m).map_err(|e| e.to_string())?;
        let again = cm::MetadataCommand::parse(&text).map_err(|e| format!("{e} in {text}"))?;
        Ok::<_, String>((text, pretty, value, again))
    });
    o.runs += 4;
    let bad = match r {
        Err(p) => Some(format!("panic: {p}")),
        Ok(Err(e)) => Some(e),
        Ok(Ok((text, pretty, value, again))) => {
            let t: Value = serde_json::from_str(&text).expect("json");
            let p: Value = serde_json::from_str(&pretty).expect("json");
            let read = normal(&t, Ty::Obj(METADATA));
            if t != value || t != p {
                Some("the text and the value differ".into())
            } else if let Some(k) = only_known("", &t, Ty::Obj(METADATA)) {
                Some(k)
            } else {
                match read {
                    Err(e) => Some(format!("what was written is not cargo's format: {e}")),
                    Ok(r) => first_difference("", want, &r)
                        .map(|d| format!("written: {d}"))
                        .or_else(|| first_difference("", want, &project(&again)).map(|d| format!("read again: {d}"))),
                }
            }
        }
    };
    if let Some(b) = bad {
        o.violation.get_or_insert(b);
    }
}

impl Space for Documents {
    type St = Vec<u16>;
    fn name(&self) -> String {
        if self.encode { "written documents" } else { "documents" }.into()
    }
    fn bases(&self) -> Vec<Self::St> {
        vec![vec![]]
    }
    fn successors(&self, s: &Self::St, f: &mut dyn FnMut(Self::St)) {
        let from = s.last().map_or(0, |l| *l as usize + 1);
        for i in from..self.edits.len() {
            // Not below a field that was just replaced
            let p = &self.edits[i].0;
            if s.iter().any(|j| p.starts_with(&self.edits[*j as usize].0)) {
                continue;
            }
            let mut n = s.clone();
            n.push(i as u16);
            f(n);
        }
    }
    fn check(&self, s: &Self::St) -> Outcome {
        let mut o = Outcome::default();
        let Some(v) = self.of(s) else {
            o.invalid = true;
            return o;
        };
        if self.encode {
            // Only what can be read is written
            let Ok(want) = normal(&v, Ty::Obj(METADATA)) else {
                o.invalid = true;
                return o;
            };
            o.runs += 1;
            match guarded(|| serde_json::from_value::<Metadata>(v.clone())) {
                Ok(Ok(m)) if project(&m) == want => encode(&want, &m, &mut o),
                // What is written for this document is known: is it read back?
                _ => match guarded(|| serde_json::from_value::<Metadata>(want.clone())) {
                    Ok(Ok(m)) if project(&m) == want => encode(&want, &m, &mut o),
                    Ok(Ok(m)) => o.violation = first_difference("", &want, &project(&m)).map(|d| format!("read back: {d}")),
                    Ok(Err(e)) => o.violation = Some(format!("cannot be read back: {e}")),
                    Err(p) => o.violation = Some(format!("panic: {p}")),
                },
            }
            o.digest = hash64(&want.to_string());
        } else {
            decode_all(&v, &mut o);
        }
        o
    }
    fn show(&self, s: &Self::St) -> String {
        let e: Vec<String> = s
            .iter()
            .map(|i| match &self.edits[*i as usize] {
                (at, Some(v)) => format!("{at} = {v}"),
                (at, None) => format!("without {at}"),
            })
            .collect();
        format!("the complete document, {}", e.join(", "))
    }
    fn dump(&self, s: &Self::St) -> String {
        format!("{}\n{}", self.show(s), self.of(s).unwrap_or_default())
    }
}

pub fn decode(r: &mut Run) {
    r.bfs(&Documents::new(false), if thorough() { 3 } else { 2 });
    truncated(r);
}

pub fn round_trip(r: &mut Run) {
    r.bfs(&Documents::new(true), if thorough() { 3 } else { 2 });
}

/// Every prefix of a document is an error, as is anything after it
fn truncated(r: &mut Run) {
    let text = complete().to_string();
    let n = text.len() as u64;
    r.flat(
        "cut documents",
        n,
        |i| {
            let i = i as usize;
            let mut o = Outcome { runs: 2, digest: i as u64, ..Outcome::default() };
            for t in [text[..i].to_owned(), format!("{text}{}", &text[i..])] {
                match guarded(|| cm::MetadataCommand::parse(&t).is_ok()) {
                    Err(p) => o.violation = Some(format!("panic: {p}")),
                    Ok(true) => o.violation = Some("a malformed document was accepted".into()),
                    Ok(false) => {}
                }
            }
            o
        },
        |i| format!("cut at {i}"),
    );
}

// ------------------------------------------------------------ convenience accessors
/// Accessors of metadata over every small workspace layout
pub fn accessors(r: &mut Run) {
    const N: usize = 3;
    // members: ordered subsets of three packages; defaults: none or a subset
    let mut members: Vec<Vec<usize>> = vec![vec![]];
    for a in 0..N {
        members.push(vec![a]);
        for b in (0..N).filter(|b| *b != a) {
            members.push(vec![a, b]);
            members.push(vec![a, b, 3 - a - b]);
        }
    }
    let roots = [None, Some(0), Some(1), Some(2), Some(9)];
    let dirs = ["/ws", "/ws/sub", "/", "/elsewhere"];
    let n = members.len() * (members.len() + 1) * (roots.len() + 1) * dirs.len().pow(2);
    let build = |i: u64| {
        let mut i = i as usize;
        let mut take = |n: usize| {
            let r = i % n;
            i /= n;
            r
        };
        let m = members[take(members.len())].clone();
        let d = take(members.len() + 1).checked_sub(1).map(|i| members[i].clone());
        let root = take(roots.len() + 1).checked_sub(1).map(|i| roots[i]);
        let (d0, d1) = (dirs[take(dirs.len())], dirs[take(dirs.len())]);
        (m, d, root, [d0, d1, "/ws/last"])
    };
    let id = |i: usize| format!("p{i} 1.0.0 (path+file:///ws/p{i})");
    r.flat(
        "accessors of metadata",
        n as u64,
        |i| {
            let (m, d, root, dirs) = build(i);
            let mut o = Outcome { runs: 1, ..Outcome::default() };
            let packages: Vec<Value> = (0..N)
                .map(|i| {
                    json!({"name": format!("p{i}"), "version": "1.0.0", "id": id(i), "dependencies": [], "targets": [], "features": {},
                    "manifest_path": format!("{}/Cargo.toml", dirs[i].trim_end_matches('/'))})
                })
                .collect();
            let list = |v: &Vec<usize>| v.iter().map(|i| id(*i)).collect::<Vec<_>>();
            let mut doc = json!({"packages": packages, "workspace_members": list(&m), "workspace_root": "/ws", "target_directory": "/t",
                "resolve": root.map(|r| json!({"nodes": [], "root": r.map(id)}))});
            if let Some(d) = &d {
                doc["workspace_default_members"] = json!(list(d));
            }
            let md: Metadata = match serde_json::from_value(doc) {
                Ok(m) => m,
                Err(_) => {
                    o.invalid = true;
                    return o;
                }
            };
            let names = |v: Vec<&cm::Package>| v.iter().map(|p| p.name.clone()).collect::<Vec<_>>();
            let want = |v: &[usize]| (0..N).filter(|i| v.contains(i)).map(|i| format!("p{i}")).collect::<Vec<_>>();
            let r = guarded(|| {
                let root_name = md.root_package().map(|p| p.name.clone());
                let want_root = match root {
                    // Without a resolution, the package next to the workspace root
                    None => (0..N).find(|i| dirs[*i] == "/ws").map(|i| format!("p{i}")),
                    Some(r) => r.filter(|r| *r < N).map(|i| format!("p{i}")),
                };
                if root_name != want_root {
                    return Some(format!("root package {root_name:?}, expected {want_root:?}"));
                }
                if names(md.workspace_packages()) != want(&m) {
                    return Some(format!("workspace packages {:?}", names(md.workspace_packages())));
                }
                if let Some(d) = &d {
                    if names(md.workspace_default_packages()) != want(d) {
                        return Some(format!("default packages {:?}", names(md.workspace_default_packages())));
                    }
                    if md.workspace_default_members.iter().map(|i| i.repr.clone()).collect::<Vec<_>>() != list(d) {
                        return Some("default members".into());
                    }
                }
                for i in 0..N {
                    let p = krates::PackageId { repr: id(i) };
                    if md[&p].name != format!("p{i}") {
                        return Some(format!("{p} is {}", md[&p].name));
                    }
                    if p.to_string() != p.repr {
                        return Some(format!("{p} is shown wrongly"));
                    }
                }
                None
            });
            o.digest = hash64(&(&m, &d, root.is_some()));
            o.violation = match r {
                Err(p) => Some(format!("panic: {p}")),
                Ok(v) => v,
            };
            o
        },
        |i| format!("{:?}", build(i)),
    );
    // Paths of a package, and kinds of its targets
    let files = ["LICENSE", "../LICENSE", "/abs/LICENSE", "docs/README.md", ""];
    let manifests = ["/ws/p/Cargo.toml", "/Cargo.toml", "Cargo.toml", "rel/p/Cargo.toml"];
    let sources = [
        None,
        Some("registry+https://github.com/rust-lang/crates.io-index"),
        Some("registry+https://github.com/rust-lang/crates.io-index2"),
        Some("sparse+https://index.crates.io/"),
        Some("git+https://github.com/rust-lang/crates.io-index"),
        Some("registry+https://host.io/https://github.com/rust-lang/crates.io-index"),
    ];
    let (nf, nm, ns) = (files.len() + 1, manifests.len(), sources.len());
    r.flat(
        "files and sources of packages",
        (nf * nf * nm * ns) as u64,
        |i| {
            let i = i as usize;
            let (l, rd, m, s) = (i % nf, i / nf % nf, manifests[i / nf / nf % nm], sources[i / nf / nf / nm]);
            let file = |i: usize| i.checked_sub(1).map(|i| files[i]);
            let p = serde_json::from_value::<cm::Package>(json!({"name": "p", "version": "1.0.0", "id": id(0), "dependencies": [], "targets": [],
                "features": {}, "manifest_path": m, "license_file": file(l), "readme": file(rd), "source": s}));
            let mut o = Outcome { runs: 1, digest: i as u64, ..Outcome::default() };
            let p = match p {
                Ok(p) => p,
                Err(e) => {
                    o.violation = Some(format!("not a package: {e}"));
                    return o;
                }
            };
            let dir = m.strip_suffix("Cargo.toml").unwrap();
            let full = |f: Option<&str>| f.map(|f| if f.starts_with('/') { f.to_owned() } else { format!("{dir}{f}") });
            let r = guarded(|| (p.license_file().map(|p| p.to_string()), p.readme().map(|p| p.to_string()), p.source.as_ref().map(|s| (s.is_crates_io(), s.to_string()))));
            match r {
                Err(e) => o.violation = Some(format!("panic: {e}")),
                Ok((gl, gr, gs)) => {
                    if (&gl, &gr) != (&full(file(l)), &full(file(rd))) {
                        o.violation = Some(format!("license {gl:?}, readme {gr:?}"));
                    }
                    if gs != s.map(|s| (s == sources[1].unwrap(), s.to_owned())) {
                        o.violation = Some(format!("source {gs:?}"));
                    }
                }
            }
            o
        },
        |i| format!("layout {i}"),
    );
    let kinds = TARGET_KINDS.len();
    r.flat(
        "kinds of targets",
        1 << kinds,
        |set| {
            let set: Vec<&str> = (0..kinds).filter(|i| set >> i & 1 == 1).map(|i| TARGET_KINDS[i]).collect();
            let mut o = Outcome { runs: 1, digest: set.len() as u64, ..Outcome::default() };
            let t: cm::Target = match serde_json::from_value(json!({"name": "t", "kind": set, "src_path": "/x"})) {
                Ok(t) => t,
                Err(e) => {
                    o.violation = Some(format!("kinds {set:?}: {e}"));
                    return o;
                }
            };
            let got = guarded(|| {
                [
                    ("lib", t.is_lib()),
                    ("bin", t.is_bin()),
                    ("example", t.is_example()),
                    ("test", t.is_test()),
                    ("bench", t.is_bench()),
                    ("custom-build", t.is_custom_build()),
                    ("proc-macro", t.is_proc_macro()),
                ]
            });
            match got {
                Err(p) => o.violation = Some(format!("panic: {p}")),
                Ok(g) => {
                    if let Some((k, is)) = g.iter().find(|(k, is)| set.contains(k) != *is) {
                        o.violation = Some(format!("is {k}: {is}, for {set:?}"));
                    }
                }
            }
            o
        },
        |i| format!("set {i:b}"),
    );
}
