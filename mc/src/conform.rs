//! Conformance of the universe model with the real cargo: materialises a
//! universe on disk (workspace, path packages, vendored registries, local git
//! repositories), runs the real `cargo metadata` and compares it with the
//! metadata the model produces.
use crate::model::*;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::Command;

pub fn cargo_bin() -> String {
    let o = Command::new("rustc").args(["--print", "sysroot"]).output().expect("rustc");
    let root = String::from_utf8(o.stdout).unwrap();
    format!("{}/bin/cargo", root.trim())
}

fn put(p: &Path, s: &str) {
    fs::create_dir_all(p.parent().unwrap()).unwrap();
    fs::write(p, s).unwrap();
}

fn reg_name(u: &str) -> String {
    u.chars().filter(|c| c.is_ascii_alphanumeric()).collect()
}

fn manifest(u: &Universe, pi: usize, at: &str) -> String {
    let p = &u.pkgs[pi];
    let mut o = String::new();
    writeln!(o, "[package]\nname = {:?}\nversion = {:?}\nedition = \"2021\"", p.name, p.ver).unwrap();
    match p.lib {
        Lib::Plain => {}
        Lib::Named(n, k) => writeln!(o, "[lib]\nname = {n:?}\n{}", crate_type(k)).unwrap(),
        Lib::Kind(k) => writeln!(o, "[lib]\n{}", crate_type(k)).unwrap(),
        Lib::BinOnly => {}
    }
    for d in &p.decls {
        let q = &u.pkgs[d.to];
        let table = match d.kind {
            Kind::Normal => "dependencies",
            Kind::Dev => "dev-dependencies",
            Kind::Build => "build-dependencies",
        };
        match d.target {
            Some(t) => writeln!(o, "[target.'{t}'.{table}.{:?}]", u.toml(d)).unwrap(),
            None => writeln!(o, "[{table}.{:?}]", u.toml(d)).unwrap(),
        }
        if d.rename.is_some() {
            writeln!(o, "package = {:?}", q.name).unwrap();
        }
        match q.src {
            _ if d.patched => {}
            Src::CratesIo => {}
            Src::Registry(r) => writeln!(o, "registry = {:?}", reg_name(r)).unwrap(),
            Src::Path => writeln!(o, "path = {:?}", format!("{at}{}", &q.dir[3..])).unwrap(),
            Src::Git(..) if p.same_repo(q) => writeln!(o, "path = {:?}", format!("../{}", q.name)).unwrap(),
            Src::Git(url, query) => {
                writeln!(o, "git = {url:?}").unwrap();
                if let Some((k, v)) = query {
                    writeln!(o, "{k} = {v:?}").unwrap();
                }
            }
        }
        let req = d.req(u);
        if req != "*" || !matches!(d.src(u), Src::Path | Src::Git(..)) {
            writeln!(o, "version = {req:?}").unwrap();
        }
        if d.optional {
            writeln!(o, "optional = true").unwrap();
        }
        if !d.default {
            writeln!(o, "default-features = false").unwrap();
        }
        if !d.feats.is_empty() {
            writeln!(o, "features = {:?}", d.feats).unwrap();
        }
    }
    if !p.feats.is_empty() {
        writeln!(o, "[features]").unwrap();
        for (f, v) in &p.feats {
            writeln!(o, "{f:?} = {v:?}").unwrap();
        }
    }
    o
}

fn crate_type(k: &str) -> String {
    match k {
        "lib" => String::new(),
        "proc-macro" => "proc-macro = true\n".into(),
        k => format!("crate-type = {:?}\n", k.split('+').collect::<Vec<_>>()),
    }
}

fn source_files(u: &Universe, pi: usize, dir: &Path) {
    let bin_only = u.pkgs[pi].lib == Lib::BinOnly;
    if bin_only || more_targets(u.pkgs[pi].name) {
        put(&dir.join("src/main.rs"), "fn main() {}\n");
    }
    if more_targets(u.pkgs[pi].name) {
        put(&dir.join("build.rs"), "fn main() {}\n");
    }
    if !bin_only {
        put(&dir.join("src/lib.rs"), "");
    }
}

pub struct Env {
    pub cargo: String,
    pub root: PathBuf,
}

fn git(dir: &Path, args: &[&str]) -> String {
    let o = Command::new("git")
        .current_dir(dir)
        .args(args)
        .env("GIT_AUTHOR_DATE", "2020-01-01T00:00:00Z")
        .env("GIT_COMMITTER_DATE", "2020-01-01T00:00:00Z")
        .env("GIT_CONFIG_GLOBAL", "/dev/null")
        .env("GIT_CONFIG_SYSTEM", "/dev/null")
        .output()
        .expect("git");
    assert!(o.status.success(), "git {args:?}: {}", String::from_utf8_lossy(&o.stderr));
    String::from_utf8(o.stdout).unwrap().trim().to_owned()
}

/// Writes the universe to disk. The pairs are commits and what the model calls them
pub fn write(u: &Universe, root: &Path) -> Result<Vec<(String, String)>, String> {
    let at = root.to_str().unwrap().to_owned();
    let _ = fs::remove_dir_all(root);
    fs::create_dir_all(root).unwrap();

    let mut config = String::from("[net]\ngit-fetch-with-cli = true\n[source.crates-io]\nreplace-with = \"v\"\n");
    writeln!(config, "[source.v]\ndirectory = \"{at}/vendor\"").unwrap();
    fs::create_dir_all(root.join("vendor")).unwrap();
    let mut gitconf = String::new();
    let mut repos: BTreeMap<S, Vec<usize>> = BTreeMap::new();
    let mut regs: BTreeSet<S> = BTreeSet::new();
    let mut normal: Vec<(String, String)> = Vec::new();
    let mut ws_toml = String::new();
    for (pi, p) in u.pkgs.iter().enumerate() {
        let m = manifest(u, pi, &at);
        match p.src {
            Src::Path => {
                let dir = root.join(&p.dir[4..]);
                if p.dir == "/nx/ws" {
                    ws_toml = m;
                } else {
                    put(&dir.join("Cargo.toml"), &m);
                }
                source_files(u, pi, &dir);
            }
            Src::CratesIo | Src::Registry(_) => {
                let base = match p.src {
                    Src::Registry(r) => {
                        regs.insert(r);
                        format!("vendor-{}", reg_name(r))
                    }
                    _ => "vendor".into(),
                };
                let dir = root.join(base).join(format!("{}-{}", p.name, p.ver));
                put(&dir.join("Cargo.toml"), &m);
                source_files(u, pi, &dir);
                put(&dir.join(".cargo-checksum.json"), "{\"files\":{},\"package\":null}");
            }
            Src::Git(url, _) => repos.entry(url).or_default().push(pi),
        }
    }
    for r in regs {
        let n = reg_name(r);
        let index = if r.starts_with("sparse+") { r } else { r.trim_start_matches("registry+") };
        writeln!(
            config,
            "[registries.{n}]\nindex = {index:?}\n[source.s{n}]\nregistry = {index:?}\nreplace-with = \"v{n}\"\n[source.v{n}]\ndirectory = \"{at}/vendor-{n}\""
        )
        .unwrap();
    }
    for (i, (url, pkgs)) in repos.iter().enumerate() {
        let dir = root.join(format!("repo{i}"));
        fs::create_dir_all(&dir).unwrap();
        git(&dir, &["init", "-q", "-b", "main"]);
        for (k, v) in [("user.email", "a@b.c"), ("user.name", "n"), ("commit.gpgsign", "false")] {
            git(&dir, &["config", k, v]);
        }
        git(&dir, &["commit", "-q", "--allow-empty", "-m", "init"]);
        let mut refs: BTreeMap<Option<(S, S)>, Vec<usize>> = BTreeMap::new();
        for p in pkgs {
            let Src::Git(_, q) = u.pkgs[*p].src else { unreachable!() };
            refs.entry(q).or_default().push(*p);
        }
        for (q, ps) in refs {
            match q {
                Some((_, v)) => git(&dir, &["checkout", "-q", "-b", &format!("tmp/{v}"), "main"]),
                None => git(&dir, &["checkout", "-q", "main"]),
            };
            for pi in &ps {
                let d = dir.join(u.pkgs[*pi].name);
                put(&d.join("Cargo.toml"), &manifest(u, *pi, &at));
                source_files(u, *pi, &d);
            }
            git(&dir, &["add", "-A"]);
            git(&dir, &["commit", "-q", "--allow-empty", "-m", "x"]);
            let full = git(&dir, &["rev-parse", "HEAD"]);
            normal.push((full.clone(), REV.into()));
            match q {
                Some(("branch", v)) => {
                    git(&dir, &["branch", v]);
                }
                Some(("tag", v)) => {
                    git(&dir, &["tag", v]);
                }
                Some(("rev", v)) => {
                    // the revision cannot be chosen: patch the manifests that name it
                    return Err(format!("skip: rev {v}"));
                }
                _ => {}
            }
            git(&dir, &["checkout", "-q", "main"]);
        }
        writeln!(gitconf, "[url \"{}\"]\n\tinsteadOf = {url}\n", dir.display()).unwrap();
    }
    let mut exclude = Vec::new();
    let mut members = Vec::new();
    for (pi, p) in u.pkgs.iter().enumerate() {
        if p.src == Src::Path && p.dir.starts_with("/nx/ws/") {
            if u.is_member(pi) {
                members.push(p.dir["/nx/ws/".len()..].to_owned());
            } else {
                exclude.push(p.dir["/nx/ws/".len()..].to_owned());
            }
        }
    }
    let resolver = if ws_toml.is_empty() { "resolver = \"2\"\n" } else { "" };
    writeln!(ws_toml, "[workspace]\n{resolver}members = {members:?}\nexclude = {exclude:?}").unwrap();
    for (i, p) in u.pkgs.iter().enumerate() {
        if u.pkgs.iter().any(|q| q.decls.iter().any(|d| d.to == i && d.patched)) {
            writeln!(ws_toml, "[patch.crates-io.p{i}]\npackage = {:?}", p.name).unwrap();
            match p.src {
                Src::Path => writeln!(ws_toml, "path = {:?}", format!("{at}{}", &p.dir[3..])).unwrap(),
                Src::Git(url, q) => {
                    writeln!(ws_toml, "git = {url:?}").unwrap();
                    if let Some((k, v)) = q {
                        writeln!(ws_toml, "{k} = {v:?}").unwrap();
                    }
                }
                _ => unreachable!(),
            }
        }
    }
    put(&root.join("ws/Cargo.toml"), &ws_toml);
    put(&root.join("ws/.cargo/config.toml"), &config);
    put(&root.join("home/.gitconfig"), &gitconf);
    Ok(normal)
}

/// The manifest cargo is run for: the one of the workspace, or of the root package
pub fn entry_manifest(u: &Universe, root: &Path) -> PathBuf {
    match u.root {
        Some(r) => root.join(&u.pkgs[r].dir[4..]).join("Cargo.toml"),
        None => root.join("ws/Cargo.toml"),
    }
}

/// Real metadata of the universe (with scratch paths mapped back to `/nx`)
pub fn real(u: &Universe, env: &Env) -> Result<Value, String> {
    let root = &env.root;
    let normal = write(u, root)?;

    let mut c = Command::new(&env.cargo);
    c.current_dir(root.join("ws"))
        .env_clear()
        .env("PATH", std::env::var("PATH").unwrap_or_default())
        .env("HOME", root.join("home"))
        .env("CARGO_HOME", root.join("cargo-home"))
        .env("RUSTC", env.cargo.replace("/bin/cargo", "/bin/rustc"))
        .args(["metadata", "--format-version", "1"]);
    match u.cli {
        Cli::Default => {}
        Cli::NoDefault => {
            c.arg("--no-default-features");
        }
        Cli::All => {
            c.arg("--all-features");
        }
        Cli::Only(f) => {
            c.args(["--no-default-features", "--features", f]);
        }
    }
    if let Some(p) = u.platform {
        c.args(["--filter-platform", p]);
    }
    if u.root.is_some() {
        c.arg("--manifest-path").arg(entry_manifest(u, root));
    }
    let o = c.output().expect("cargo");
    if !o.status.success() {
        return Err(String::from_utf8_lossy(&o.stderr).into_owned());
    }
    let mut text = String::from_utf8(o.stdout).unwrap();
    let at = root.to_str().unwrap();
    text = text.replace(&format!("path+file://{}", dir_url(at)), "path+file:///nx").replace(at, "/nx");
    for (f, t) in normal {
        text = text.replace(&f, &t);
    }
    serde_json::from_str(&text).map_err(|e| e.to_string())
}

fn pick(v: &Value, keys: &[&str]) -> Value {
    let mut m = serde_json::Map::new();
    for k in keys {
        m.insert(k.to_string(), v.get(*k).cloned().unwrap_or(Value::Null));
    }
    Value::Object(m)
}

fn sorted(mut v: Vec<Value>) -> Value {
    v.sort_by_key(|x| x.to_string());
    Value::Array(v)
}

fn distinct(v: Vec<Value>) -> Value {
    let Value::Array(mut v) = sorted(v) else { unreachable!() };
    v.dedup();
    Value::Array(v)
}

fn arr(v: &Value) -> &[Value] {
    v.as_array().map_or(&[], |a| a.as_slice())
}

/// The part of real metadata the model speaks about
pub fn canon(md: &Value) -> Value {
    let pkgs = arr(&md["packages"])
        .iter()
        .map(|p| {
            let mut o = pick(p, &["name", "version", "id", "source", "features"]);
            o["dependencies"] = sorted(
                arr(&p["dependencies"])
                    .iter()
                    .map(|d| {
                        let mut x = pick(
                            d,
                            &["name", "source", "req", "kind", "rename", "optional", "uses_default_features", "features", "target", "registry", "path"],
                        );
                        let f = sorted(arr(&x["features"]).to_vec());
                        x["features"] = f;
                        x
                    })
                    .collect(),
            );
            o["targets"] = sorted(arr(&p["targets"]).iter().map(|t| pick(t, &["name", "kind"])).collect());
            o
        })
        .collect();
    let nodes = arr(&md["resolve"]["nodes"])
        .iter()
        .map(|n| {
            let mut o = pick(n, &["id"]);
            o["features"] = sorted(arr(&n["features"]).to_vec());
            o["dependencies"] = sorted(arr(&n["dependencies"]).to_vec());
            o["deps"] = sorted(
                arr(&n["deps"])
                    .iter()
                    .map(|d| {
                        let mut x = pick(d, &["name", "pkg"]);
                        // Cargo may list one kind of a patched dependency twice
                        x["dep_kinds"] = distinct(arr(&d["dep_kinds"]).iter().map(|k| pick(k, &["kind", "target"])).collect());
                        x
                    })
                    .collect(),
            );
            o
        })
        .collect();
    json!({
        "packages": sorted(pkgs),
        "nodes": sorted(nodes),
        "root": md["resolve"]["root"],
        "members": sorted(arr(&md["workspace_members"]).to_vec()),
    })
}

/// The same view of the model's metadata, built without krates' serializer
pub fn canon_model(m: &krates::cm::Metadata) -> Value {
    use krates::cm::DependencyKind as K;
    let kind = |k: K| match k {
        K::Normal => Value::Null,
        K::Development => "dev".into(),
        K::Build => "build".into(),
    };
    let pkgs: Vec<Value> = m
        .packages
        .iter()
        .map(|p| {
            json!({
                "name": p.name, "version": p.version.to_string(), "id": p.id.repr,
                "source": p.source.as_ref().map(|s| s.repr.clone()), "features": p.features,
                "dependencies": p.dependencies.iter().map(|d| json!({
                    "name": d.name, "source": d.source, "req": d.req.to_string(), "kind": kind(d.kind),
                    "rename": d.rename, "optional": d.optional, "uses_default_features": d.uses_default_features,
                    "features": d.features, "target": d.target, "registry": d.registry,
                    "path": d.path.as_ref().map(|p| p.as_str()),
                })).collect::<Vec<_>>(),
                "targets": p.targets.iter().map(|t| json!({"name": t.name, "kind": t.kind.iter().map(|k| target_kind(*k)).collect::<Vec<_>>()})).collect::<Vec<_>>(),
            })
        })
        .collect();
    let r = m.resolve.as_ref().unwrap();
    let nodes: Vec<Value> = r
        .nodes
        .iter()
        .map(|n| {
            json!({
                "id": n.id.repr, "features": n.features,
                "dependencies": n.dependencies.iter().map(|d| d.repr.clone()).collect::<Vec<_>>(),
                "deps": n.deps.iter().map(|d| json!({
                    "name": d.name, "pkg": d.pkg.repr,
                    "dep_kinds": d.dep_kinds.iter().map(|k| json!({"kind": kind(k.kind), "target": k.target})).collect::<Vec<_>>(),
                })).collect::<Vec<_>>(),
            })
        })
        .collect();
    canon(&json!({
        "packages": pkgs,
        "resolve": {"nodes": nodes, "root": r.root.as_ref().map(|r| r.repr.clone())},
        "workspace_members": m.workspace_members.iter().map(|w| w.repr.clone()).collect::<Vec<_>>(),
    }))
}

fn first_diff(path: &str, a: &Value, b: &Value) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            let keys: BTreeSet<&String> = x.keys().chain(y.keys()).collect();
            keys.into_iter().find_map(|k| {
                first_diff(&format!("{path}.{k}"), x.get(k).unwrap_or(&Value::Null), y.get(k).unwrap_or(&Value::Null))
            })
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => x
            .iter()
            .zip(y)
            .enumerate()
            .find_map(|(i, (p, q))| first_diff(&format!("{path}[{i}]"), p, q)),
        _ if a == b => None,
        _ => Some(format!("{path}: cargo {a} / model {b}")),
    }
}

pub enum Verdict {
    Same,
    Skipped,
    Differs(String),
}

pub fn conform(u: &Universe, env: &Env) -> Verdict {
    let model = resolve(u);
    let real = real(u, env);
    match (model, real) {
        (_, Err(e)) if e.starts_with("skip:") => Verdict::Skipped,
        (Err(_), _) => Verdict::Skipped,
        (Ok(_), Err(e)) => Verdict::Differs(format!("cargo rejects: {e}")),
        (Ok(r), Ok(md)) => {
            let a = canon(&md);
            let b = canon_model(&metadata(u, &r, false).md);
            match first_diff("", &a, &b) {
                None => Verdict::Same,
                Some(d) => Verdict::Differs(d),
            }
        }
    }
}

/// Runs every universe; returns (same, skipped, first differences)
pub fn run_all(us: &[Universe], scratch: &str, max_diffs: usize) -> (usize, usize, Vec<(usize, String)>) {
    use std::sync::Mutex;
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    let cargo = cargo_bin();
    let cur = AtomicUsize::new(0);
    let same = AtomicUsize::new(0);
    let skip = AtomicUsize::new(0);
    let diffs = Mutex::new(Vec::new());
    std::thread::scope(|s| {
        for w in 0..crate::engine::threads() {
            let (cur, same, skip, diffs, cargo) = (&cur, &same, &skip, &diffs, &cargo);
            s.spawn(move || {
                let envs = ["", " 100% é#1@2"].map(|s| Env { cargo: cargo.clone(), root: PathBuf::from(format!("{scratch}/c{w}{s}")) });
                loop {
                    let i = cur.fetch_add(1, SeqCst);
                    if i >= us.len() || diffs.lock().unwrap().len() >= max_diffs {
                        break;
                    }
                    match conform(&us[i], &envs[i % 2]) {
                        Verdict::Same => same.fetch_add(1, SeqCst),
                        Verdict::Skipped => skip.fetch_add(1, SeqCst),
                        Verdict::Differs(d) => {
                            diffs.lock().unwrap().push((i, d));
                            0
                        }
                    };
                }
                for env in &envs {
                    let _ = fs::remove_dir_all(&env.root);
                }
            });
        }
    });
    let mut d = diffs.into_inner().unwrap();
    d.sort();
    (same.into_inner(), skip.into_inner(), d)
}

/// Every initial universe, and (with a depth) every single edit of one
fn universes(depth: usize, base: Option<&str>) -> Vec<Universe> {
    use crate::edits::{self, G};
    let groups = [
        G::AddDecl, G::Decl, G::Dup, G::Rename, G::Platform, G::Feature, G::Lib, G::Workspace, G::Cli, G::Filter, G::Source,
    ];
    let mut us = Vec::new();
    for (n, u) in crate::bases::all().into_iter().chain(crate::bases::large()) {
        if base.is_some_and(|b| b != n) {
            continue;
        }
        us.push(u.clone());
        if depth > 0 {
            edits::successors(&(u, Default::default()), &groups, &mut |(u, _)| {
                if resolve(&u).is_ok() {
                    us.push(u)
                }
            });
        }
    }
    us
}

fn compare(us: &[Universe]) -> (usize, usize, Vec<(usize, String)>) {
    let scratch = format!("{}/mc-conform-{}", std::env::temp_dir().display(), std::process::id());
    let r = run_all(us, &scratch, 4);
    let _ = fs::remove_dir_all(&scratch);
    r
}

/// Compares the model with cargo and adds the outcome to the evidence
pub fn evidence(r: &mut crate::run::Run, depth: usize) {
    if r.target.is_some() {
        return;
    }
    let t = std::time::Instant::now();
    let us = universes(depth, None);
    let (same, skip, diffs) = compare(&us);
    eprintln!("the model and cargo: {same} of {} universes the same, {skip} skipped, {:.1?}", us.len(), t.elapsed());
    for (i, d) in &diffs {
        eprintln!("the model differs from cargo: {}\n    {}", show(&us[*i]), d.chars().take(500).collect::<String>());
    }
    r.rep.extra.insert(
        "cargo_conformance".into(),
        json!({
            "what": "model metadata compared with `cargo metadata` of the universe written to disk",
            "universes": us.len(), "same": same, "not_expressible": skip,
            "different": diffs.iter().map(|(i, d)| format!("{}: {d}", show(&us[*i]))).collect::<Vec<_>>(),
        }),
    );
}

/// `mc conform <depth> [base]`
pub fn main(depth: usize, base: Option<&str>) -> i32 {
    let us = universes(depth, base);
    let t = std::time::Instant::now();
    let (same, skip, diffs) = compare(&us);
    println!("{} universes, {same} same as cargo, {skip} skipped, {:?}", us.len(), t.elapsed());
    for (i, d) in &diffs {
        println!("{}\n    {}", show(&us[*i]), d.chars().take(500).collect::<String>());
    }
    (!diffs.is_empty()) as i32 * 2
}
