//! Workspaces on disk: krates runs the real cargo on them, nothing is modelled in between.
use crate::bases;
use crate::build_props::{self, A};
use crate::conform;
use crate::edits::{self, G};
use crate::engine::{Outcome, guarded, hash64};
use crate::evidence::thorough;
use crate::model::*;
use crate::observe;
use crate::reference::{Config, expected};
use crate::run::Run;
use krates::{Cmd, LockOptions, cm};
use std::path::Path;
use std::sync::Mutex;

const ASPECTS: &[A] = &[A::Krates, A::Filtered, A::Feats, A::Edges, A::Mapping];
const PLATFORMS: &[Option<S>] = &[None, Some("x86_64-unknown-linux-gnu"), Some("x86_64-pc-windows-msvc")];

/// How the command names the workspace
#[derive(Clone, Copy, Debug, PartialEq)]
enum Way {
    Manifest,
    Dir,
    Both,
    /// Seen from a directory of the workspace, the command names
    From(Here),
}

/// The directory the process runs in, and what is named from there
#[derive(Clone, Copy, Debug, PartialEq)]
enum Here {
    /// the manifest's directory: nothing
    Nothing,
    /// the manifest's directory: `Cargo.toml`
    File,
    /// the manifest's directory: `./Cargo.toml`
    DotFile,
    /// the manifest's directory: an empty directory
    NoDir,
    /// a directory below: nothing
    Below,
    /// a directory below: `../Cargo.toml`
    Up,
    /// a directory below: `..`
    UpDir,
    /// the directory above: `name/Cargo.toml`
    Down,
    /// the directory above: `name`
    DownDir,
    /// the directory above: `name` and `Cargo.toml`
    DownBoth,
}
const HERE: &[Here] = &[
    Here::Nothing,
    Here::File,
    Here::DotFile,
    Here::NoDir,
    Here::Below,
    Here::Up,
    Here::UpDir,
    Here::Down,
    Here::DownDir,
    Here::DownBoth,
];

/// Only one thread at a time is somewhere else
static ELSEWHERE: Mutex<()> = Mutex::new(());

/// The command that asks for what the universe says
fn command(u: &Universe, at: &Path, way: Way, lock: bool) -> Cmd {
    let mut c = Cmd::new();
    c.cargo_path(at.join("cargo"));
    let m = conform::entry_manifest(u, at);
    match way {
        Way::Manifest => {
            c.manifest_path(&m);
        }
        Way::Dir => {
            c.current_dir(m.parent().unwrap());
        }
        Way::Both => {
            // Seen from the directory the process runs in
            let top = std::env::current_dir().unwrap();
            c.current_dir(at.strip_prefix(&top).unwrap()).manifest_path(m.strip_prefix(&top).unwrap());
        }
        Way::From(h) => {
            let dir = m.parent().unwrap();
            let name = Path::new(dir.file_name().unwrap());
            match h {
                Here::Nothing | Here::Below => {}
                Here::File => {
                    c.manifest_path("Cargo.toml");
                }
                Here::DotFile => {
                    c.manifest_path("./Cargo.toml");
                }
                Here::NoDir => {
                    c.current_dir("");
                }
                Here::Up => {
                    c.manifest_path("../Cargo.toml");
                }
                Here::UpDir => {
                    c.current_dir("..");
                }
                Here::Down => {
                    c.manifest_path(name.join("Cargo.toml"));
                }
                Here::DownDir => {
                    c.current_dir(name);
                }
                Here::DownBoth => {
                    c.current_dir("/").manifest_path(name.join("Cargo.toml"));
                }
            }
            let from = match h {
                Here::Nothing | Here::File | Here::DotFile | Here::NoDir => dir.to_owned(),
                Here::Below | Here::Up | Here::UpDir => dir.join("below"),
                Here::Down | Here::DownDir | Here::DownBoth => dir.parent().unwrap().to_owned(),
            };
            std::fs::create_dir_all(&from).unwrap();
            std::env::set_current_dir(from).unwrap();
        }
    }
    match u.cli {
        Cli::Default => {}
        Cli::NoDefault => {
            c.no_default_features();
        }
        Cli::All => {
            c.all_features();
        }
        Cli::Only(f) => {
            c.no_default_features().features([f.to_owned()]);
        }
    }
    if let Some(p) = u.platform {
        c.other_options(["--filter-platform".to_owned(), p.to_owned()]);
    }
    if lock {
        // The first run has written the lock file
        c.lock_opts(LockOptions { frozen: false, locked: true, offline: true });
    }
    c
}

fn one(u: &Universe, r: &Resolved, at: &Path, way: Way, lock: bool, o: &mut Outcome) -> Result<(), String> {
    let c = Config { workspace: way == Way::Both, ..Config::default() };
    o.runs += 1;
    let mut filtered = Vec::new();
    let b = guarded(|| observe::builder(u, &c).build(command(u, at, way, lock), |p: cm::Package| filtered.push(p)))
        .map_err(|p| format!("panic: {p}"))?
        .map_err(|e| format!("build failed with {e}"))?;
    let b = observe::Built { krates: b, filtered };
    let url = dir_url(at.to_str().unwrap());
    let ids: Vec<String> = metadata(u, r, false)
        .ids
        .iter()
        .map(|i| i.replace("path+file:///nx", &format!("path+file://{url}")))
        .collect();
    let (mut g, bad) = observe::read(&b, &ids);
    // Declarations are in cargo's order
    let mut mapping = std::collections::BTreeMap::new();
    for k in b.krates.krates() {
        let p = observe::idx(&ids, &k.id.repr);
        for (j, dep) in k.dependencies.iter().enumerate() {
            let Some(to) = g.mapping.get(&(p, j)) else { continue };
            let i = u.pkgs[p].decls.iter().position(|d| {
                u.toml(d) == dep.rename.as_ref().unwrap_or(&dep.name)
                    && d.kind.krates() == krates::DepKind::from(dep.kind)
                    && d.target == dep.target.as_deref()
            });
            mapping.insert((p, i.ok_or_else(|| format!("{} has a dependency {} no manifest has", k.id, dep.name))?), *to);
        }
    }
    g.mapping = mapping;
    o.digest = hash64(&(o.digest, g.krates.len(), &g.feats, &g.edges));
    let want = expected(u, r, &c).ok_or("an empty graph")?;
    match build_props::diff(u, &want, &g, ASPECTS, &bad) {
        Some(d) => Err(d),
        None => Ok(()),
    }
}

/// A directory of its own (every other one with a name that is encoded in urls), with a cargo that keeps to it. `script` is linked to and
/// not written for each, as a program can't be run while another thread forks with
/// the file still open
fn place(top: &Path, u: &Universe, i: u64) -> Result<std::path::PathBuf, String> {
    let thread = format!("{:?}", std::thread::current().id()).replace(['(', ')'], "");
    let at = top.join(format!("{thread}{}", ["", " 100% é#1@2"][i as usize % 2]));
    let normal = conform::write(u, &at)?;
    let mut sed = String::new();
    for (from, to) in normal {
        sed += &format!("s#{from}#{to}#g\n");
    }
    std::fs::write(at.join("sed"), sed).unwrap();
    std::os::unix::fs::symlink(top.join("script"), at.join("cargo")).unwrap();
    Ok(at)
}

pub fn workspaces(r: &mut Run) {
    let top = crate::cmd::Scratch::new("disk");
    let here = std::env::current_dir().unwrap();
    std::env::set_current_dir(&top.0).unwrap();
    let cargo = conform::cargo_bin();
    let script = format!(
        "#!/bin/sh\nat=\"$(dirname \"$0\")\"\n\
         env -i PATH=\"$PATH\" HOME=\"$at/home\" CARGO_HOME=\"$at/cargo-home\" RUSTC={} {cargo} \"$@\" >\"$at/out\" || exit $?\n\
         exec sed -f \"$at/sed\" \"$at/out\"\n",
        cargo.replace("/bin/cargo", "/bin/rustc")
    );
    std::fs::write(top.0.join("script"), script).unwrap();
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(top.0.join("script"), std::fs::Permissions::from_mode(0o755)).unwrap();

    let named: Vec<(S, Universe)> = bases::all().into_iter().chain(bases::large()).collect();
    // Every way to ask for features and platforms
    let mut asked = Vec::new();
    for (_, u) in &named {
        let mut clis = vec![Cli::Default, Cli::NoDefault, Cli::All];
        let mut feats: Vec<S> = u.members.iter().flat_map(|m| u.pkgs[*m].feats.keys().copied()).collect();
        feats.sort();
        feats.dedup();
        clis.extend(feats.into_iter().map(Cli::Only));
        for cli in clis {
            for platform in PLATFORMS {
                let mut u = u.clone();
                u.cli = cli;
                u.platform = *platform;
                if resolve(&u).is_ok() {
                    asked.push(u);
                }
            }
        }
    }
    let ways = [(Way::Manifest, false), (Way::Dir, true), (Way::Both, true)];
    let all = |us: &Vec<Universe>, i: u64, ways: &[(Way, bool)]| {
        let u = &us[i as usize];
        let res = resolve(u).unwrap();
        let mut o = Outcome::default();
        match place(&top.0, u, i) {
            Err(e) if e.starts_with("skip:") => o.invalid = true,
            Err(e) => panic!("{e}"),
            Ok(at) => {
                for (w, l) in ways {
                    if let Err(e) = one(u, &res, &at, *w, *l, &mut o) {
                        o.violation = Some(format!("{e} ({w:?})"));
                        break;
                    }
                }
                let _ = std::fs::remove_dir_all(&at);
            }
        }
        o
    };
    r.flat(
        "workspaces on disk seen from inside",
        named.len() as u64,
        |i| {
            let u = &named[i as usize].1;
            let res = resolve(u).unwrap();
            let mut o = Outcome::default();
            let _alone = ELSEWHERE.lock().unwrap_or_else(|e| e.into_inner());
            match place(&top.0, u, i) {
                Err(e) if e.starts_with("skip:") => o.invalid = true,
                Err(e) => panic!("{e}"),
                Ok(at) => {
                    for h in HERE {
                        let one = one(u, &res, &at, Way::From(*h), false, &mut o);
                        std::env::set_current_dir(&top.0).unwrap();
                        if let Err(e) = one {
                            o.violation = Some(format!("{e} ({h:?})"));
                            break;
                        }
                    }
                    let _ = std::fs::remove_dir_all(&at);
                }
            }
            o
        },
        |i| show(&named[i as usize].1),
    );
    r.flat("workspaces on disk and what is asked for", asked.len() as u64, |i| all(&asked, i, &ways), |i| show(&asked[i as usize]));
    if thorough() {
        let mut us = Vec::new();
        for (_, u) in named {
            let groups = [G::AddDecl, G::Decl, G::Dup, G::Rename, G::Platform, G::Feature, G::Lib, G::Workspace, G::Source];
            edits::successors(&(u, Default::default()), &groups, &mut |(u, _)| {
                if resolve(&u).is_ok() {
                    us.push(u)
                }
            });
        }
        r.flat("edited workspaces on disk", us.len() as u64, |i| all(&us, i, &ways[..1]), |i| show(&us[i as usize]));
    }
    std::env::set_current_dir(here).unwrap();
}
