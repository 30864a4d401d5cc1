//! Which crates a graph starts from: workspaces on disk, every subset of their
//! members, named in every way a path can be written.
use crate::bases::parse;
use crate::build_props::{A, diff};
use crate::cmd::Scratch;
use crate::engine::*;
use crate::model::*;
use crate::observe;
use crate::reference::*;
use crate::run::Run;
use krates::cm;
use std::path::{Path, PathBuf};

/// (universe, directories of the members and of one package that is none)
const LAYOUTS: &[&str] = &[
    // virtual workspace; "d" lies inside of another member
    "*a | b | x :: default=x/f; extra=
     *b | y
     *c | x b | z d
     *d path:/nx/ws/a/d | c | o
     o path:/nx/out/a | y
     x :: f=
     y
     z",
    // a package in the root of the workspace
    "*a path:/nx/ws | b | x ? :: default=x
     *b | y
     *c | a d | z
     *d path:/nx/ws/c/d | y
     o path:/nx/out/b | y
     x
     y
     z",
    // directories named like the manifest, or a prefix of another
    "*a path:/nx/ws/cargo | b | x
     *b path:/nx/ws/cargo.toml | y
     *c path:/nx/ws/cargo.tom | z
     *d path:/nx/ws/xCargo.toml | y
     o path:/nx/out | y
     x
     y
     z",
];

/// How a manifest can be named
const FORMS: usize = 9;

fn form(at: &Path, i: usize, exists: bool) -> Option<PathBuf> {
    let leaf = |p: &Path| p.file_name().unwrap().to_owned();
    if !exists && i >= 3 {
        return None;
    }
    let scratch = |p: &Path| p.ancestors().find(|a| a.join("is-scratch").exists()).unwrap().to_owned();
    Some(match i {
        0 => at.to_owned(),
        1 => at.join("Cargo.toml"),
        2 => PathBuf::from(format!("{}/", at.display())),
        3 => at.join("..").join(leaf(at)).join("Cargo.toml"),
        4 => at.join(".").join("src").join(".."),
        // Relative to the working directory
        5 => at.strip_prefix(scratch(at)).unwrap().to_owned(),
        6 => Path::new(".").join(at.strip_prefix(scratch(at)).unwrap()).join("Cargo.toml"),
        // Through a link to the directory
        7 => at.join("link-to-self"),
        8 => at.join("link-to-self/Cargo.toml"),
        _ => unreachable!(),
    })
}

/// How the metadata names the workspace
#[derive(Clone, Copy, PartialEq, Debug)]
enum At {
    Real,
    Link,
    Nowhere,
}
const ATS: [At; 3] = [At::Real, At::Link, At::Nowhere];

struct Case {
    u: Universe,
    md: cm::Metadata,
    ids: Vec<String>,
    /// Where the filters find the members: through the link or not
    dirs: [PathBuf; 2],
    at: At,
}

pub fn roots(r: &mut Run) {
    let dir = Scratch::new("roots");
    std::fs::write(dir.0.join("is-scratch"), "").unwrap();
    let before = std::env::current_dir().unwrap();
    std::env::set_current_dir(&dir.0).unwrap();
    let mut cases = Vec::new();
    for (l, text) in LAYOUTS.iter().enumerate() {
        let base = dir.0.join(format!("layout{l}"));
        let u0 = parse(text);
        let make = |p: &Path| {
            std::fs::create_dir_all(p.join("src")).unwrap();
            std::fs::write(p.join("Cargo.toml"), "[workspace]\n").unwrap();
            let _ = std::os::unix::fs::symlink(p, p.join("link-to-self"));
        };
        make(&base.join("ws"));
        for p in u0.pkgs.iter().filter(|p| p.src == Src::Path) {
            make(Path::new(&p.dir.replace("/nx", base.to_str().unwrap())));
        }
        std::os::unix::fs::symlink(&base, dir.0.join(format!("link{l}"))).unwrap();
        for at in ATS {
            let place = match at {
                At::Real => base.clone(),
                At::Link => dir.0.join(format!("link{l}")),
                At::Nowhere => PathBuf::from("/nx"),
            };
            for root in 0..=u0.members.len() {
                let mut u = u0.clone();
                u.root = root.checked_sub(1).map(|m| u0.members[m]);
                // With a package in the root, some member always is the current one
                let Ok(res) = resolve(&u) else {
                    assert!(root == 0 && l == 1);
                    continue;
                };
                let m = metadata(&u, &res, false);
                let put = |s: &str| s.replace("/nx", place.to_str().unwrap());
                let md = serde_json::from_str(&put(&serde_json::to_string(&m.md).unwrap())).unwrap();
                let other = if at == At::Nowhere { place.clone() } else { dir.0.join(format!("link{l}")) };
                let first = if at == At::Nowhere { place.clone() } else { base.clone() };
                cases.push(Case { u, md, ids: m.ids.iter().map(|s| put(s)).collect(), dirs: [first, other], at });
            }
        }
    }
    // What is selected: a subset of members, an unknown directory, a package
    // that is no member, the workspace itself
    let subsets = 16 * 8u64;
    let n = cases.len() as u64 * 2 * subsets * FORMS as u64 * FORMS as u64 * 2 * 2;
    let at = |mut i: u64| {
        let mut take = |n: u64| {
            let r = i % n;
            i /= n;
            r as usize
        };
        (
            take(2) == 1,
            take(2) == 1,
            take(2) == 1,
            [take(FORMS as u64), take(FORMS as u64)],
            take(16),
            take(8),
            &cases[take(cases.len() as u64)],
        )
    };
    // The selection, with the form of each path
    let select = |i: u64| -> Option<(&Case, bool, bool, Vec<(PathBuf, Ws)>)> {
        let (workspace, calls, link, forms, members, extra, case) = at(i);
        let mut v: Vec<(PathBuf, Ws)> = Vec::new();
        let exists = case.at != At::Nowhere;
        if link && !exists {
            return None;
        }
        let mut paths: Vec<S> =
            (0..4).filter(|m| members & (1 << m) != 0).map(|m| case.u.pkgs[case.u.members[m]].dir).collect();
        // The other ones first, so that they get each form as well
        if extra & 1 != 0 {
            paths.insert(0, "/nx/ws/unknown");
        }
        if extra & 2 != 0 {
            paths.insert(0, case.u.pkgs[4].dir);
        }
        if extra & 4 != 0 {
            paths.insert(0, "/nx/ws");
        }
        // Unused digits of the enumeration
        let used = match paths.len() {
            0 => 0,
            1 => 1,
            _ => 2,
        };
        if forms[used.min(2)..].iter().any(|f| *f != 0) || (used == 0 && link) || (paths.len() < 2 && calls) {
            return None;
        }
        for (k, p) in paths.iter().enumerate() {
            let real = PathBuf::from(p.replace("/nx", case.dirs[link as usize].to_str().unwrap()));
            let f = forms[k % 2];
            let exists = exists && *p != "/nx/ws/unknown";
            v.push((form(&real, f, exists)?, Ws::Dir(p)));
        }
        Some((case, workspace, calls, v))
    };
    let show = |i: u64| match select(i) {
        None => String::new(),
        Some((c, w, calls, v)) => format!(
            "{}workspace in {:?}, workspace({w}), include_workspace_crates{} {:?}",
            show(&c.u),
            c.at,
            if calls { " one by one" } else { "" },
            v.iter().map(|v| &v.0).collect::<Vec<_>>()
        ),
    };
    let resolved: Vec<Resolved> = cases.iter().map(|c| resolve(&c.u).unwrap()).collect();
    r.flat(
        "workspaces on disk",
        n,
        |i| {
            let mut o = Outcome::default();
            let Some((case, workspace, calls, v)) = select(i) else {
                o.invalid = true;
                return o;
            };
            let c = Config { workspace, ws: v.iter().map(|v| v.1.clone()).collect(), ..Config::default() };
            let at = cases.iter().position(|c| std::ptr::eq(c, case)).unwrap();
            let want = expected(&case.u, &resolved[at], &c);
            let mut b = krates::Builder::new();
            b.workspace(workspace);
            if calls {
                for p in &v {
                    b.include_workspace_crates([&p.0]);
                }
            } else {
                b.include_workspace_crates(v.iter().map(|p| &p.0));
            }
            let got = guarded(|| observe::run(b, case.md.clone()));
            o.runs += 1;
            o.violation = match got {
                Err(p) => Some(format!("panic: {p}")),
                Ok(Err(observe::Fail::NoRoot)) if want.is_none() => None,
                Ok(Err(e)) => Some(format!("build failed with {e:?}")),
                Ok(Ok(b)) => match &want {
                    None => Some(format!("{} crates without any selected member", b.krates.len())),
                    Some(w) => {
                        let (g, bad) = observe::read(&b, &case.ids);
                        o.digest = hash64(&(at, &g.krates));
                        if b.krates.workspace_root() != &case.md.workspace_root {
                            Some(format!("workspace root {}", b.krates.workspace_root()))
                        } else {
                            diff(&case.u, w, &g, &[A::Krates, A::Filtered, A::Feats, A::Edges, A::Mapping], &bad)
                        }
                    }
                },
            };
            o
        },
        show,
    );
    std::env::set_current_dir(before).unwrap();
}
