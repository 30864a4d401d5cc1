//! Transitions: single edits of a universe or of the builder configuration.
use crate::bases::intern;
use crate::model::*;
use crate::reference::*;
use std::collections::BTreeSet;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum G {
    /// add a dependency declaration
    AddDecl,
    /// change one attribute of a declaration, or drop it
    Decl,
    /// second declaration of the same dependency under another kind/platform
    Dup,
    /// rename a dependency
    Rename,
    /// platform of a declaration
    Platform,
    /// features table
    Feature,
    /// library target of a package
    Lib,
    /// workspace membership, root, command line features
    Workspace,
    Cli,
    /// --filter-platform
    Filter,
    /// package source
    Source,
    /// builder configuration
    CfgKind,
    CfgTarget,
    CfgExclude,
    CfgRoots,
    CfgOpaque,
}

pub const PLATFORMS: [Option<S>; 5] = [
    None,
    Some("cfg(unix)"),
    Some("cfg(windows)"),
    Some("x86_64-unknown-linux-gnu"),
    Some("cfg(any())"),
];

pub type St = (Universe, Config);

pub fn successors(st: &St, groups: &[G], f: &mut dyn FnMut(St)) {
    let (u, c) = st;
    macro_rules! uni {
        ($u:expr) => {
            f(($u, c.clone()))
        };
    }
    for g in groups {
        match g {
            G::AddDecl => {
                for p in 0..u.pkgs.len() {
                    for to in 0..u.pkgs.len() {
                        for kind in Kind::ALL {
                            for optional in [false, true] {
                                if (optional && kind == Kind::Dev)
                                    || (p == to && kind != Kind::Dev)
                                    || u.pkgs[p].decls.iter().any(|d| d.to == to)
                                {
                                    continue;
                                }
                                let mut nu = u.clone();
                                // A name already taken by another version needs a rename
                                let taken = u.pkgs[p]
                                    .decls
                                    .iter()
                                    .any(|d| u.toml(d) == u.pkgs[to].name && d.kind == kind);
                                nu.pkgs[p].decls.push(Decl {
                                    to,
                                    rename: taken.then_some("rn"),
                                    kind,
                                    optional,
                                    default: true,
                                    feats: vec![],
                                    target: None,
                                    req: None,
                                    patched: false,
                                });
                                uni!(nu);
                            }
                        }
                    }
                }
            }
            G::Decl => {
                for p in 0..u.pkgs.len() {
                    for i in 0..u.pkgs[p].decls.len() {
                        let edit = |e: &dyn Fn(&mut Decl)| {
                            let mut nu = u.clone();
                            e(&mut nu.pkgs[p].decls[i]);
                            nu
                        };
                        let d = &u.pkgs[p].decls[i];
                        let mut nu = u.clone();
                        nu.pkgs[p].decls.remove(i);
                        uni!(nu);
                        uni!(edit(&|d| d.optional = !d.optional));
                        uni!(edit(&|d| d.default = !d.default));
                        for k in Kind::ALL {
                            if k != d.kind {
                                uni!(edit(&|d| d.kind = k));
                            }
                        }
                        for t in u.fmap(d.to).keys() {
                            let t = *t;
                            if t == "default" {
                                continue;
                            }
                            uni!(edit(&|d| {
                                if let Some(j) = d.feats.iter().position(|x| *x == t) {
                                    d.feats.remove(j);
                                } else {
                                    d.feats.push(t);
                                }
                            }));
                        }
                    }
                }
            }
            G::Platform => {
                for p in 0..u.pkgs.len() {
                    for i in 0..u.pkgs[p].decls.len() {
                        for t in PLATFORMS {
                            if u.pkgs[p].decls[i].target != t {
                                let mut nu = u.clone();
                                nu.pkgs[p].decls[i].target = t;
                                uni!(nu);
                            }
                        }
                    }
                }
            }
            G::Dup => {
                for p in 0..u.pkgs.len() {
                    for i in 0..u.pkgs[p].decls.len() {
                        let d = &u.pkgs[p].decls[i];
                        for k in Kind::ALL {
                            for t in &PLATFORMS[..3] {
                                if k == d.kind && *t == d.target {
                                    continue;
                                }
                                for plain in [false, true] {
                                    let mut e = d.clone();
                                    e.kind = k;
                                    e.target = *t;
                                    if k == Kind::Dev {
                                        e.optional = false;
                                    }
                                    if plain {
                                        if e.optional && e.feats.is_empty() {
                                            // the other way round
                                            e.optional = false;
                                        } else {
                                            e.feats.clear();
                                            e.default = false;
                                        }
                                    }
                                    let mut nu = u.clone();
                                    nu.pkgs[p].decls.push(e);
                                    uni!(nu);
                                }
                            }
                        }
                    }
                }
            }
            G::Rename => {
                for p in 0..u.pkgs.len() {
                    let mut done = BTreeSet::new();
                    for i in 0..u.pkgs[p].decls.len() {
                        let to = u.pkgs[p].decls[i].to;
                        if !done.insert(to) {
                            continue;
                        }
                        let old = u.toml(&u.pkgs[p].decls[i]);
                        let names: BTreeSet<S> =
                            u.pkgs.iter().map(|q| q.name).chain(["r-n", "rn"]).collect();
                        for n in names {
                            if n == old {
                                continue;
                            }
                            let mut nu = u.clone();
                            rename(&mut nu, p, to, old, n);
                            uni!(nu);
                        }
                    }
                }
            }
            G::Feature => {
                for p in 0..u.pkgs.len() {
                    let pkg = &u.pkgs[p];
                    for n in ["default", "f", "g"] {
                        if !pkg.feats.contains_key(n) {
                            let mut nu = u.clone();
                            nu.pkgs[p].feats.insert(n, vec![]);
                            uni!(nu);
                        }
                    }
                    let fm = u.fmap(p);
                    let mut cands: Vec<S> = fm.keys().copied().collect();
                    let mut seen = BTreeSet::new();
                    for d in &pkg.decls {
                        let t = u.toml(d);
                        let mut push = |s: String| {
                            if seen.insert(s.clone()) {
                                cands.push(intern(&s));
                            }
                        };
                        if d.optional {
                            push(format!("dep:{t}"));
                        }
                        for h in u.fmap(d.to).keys() {
                            push(format!("{t}/{h}"));
                            if d.optional {
                                push(format!("{t}?/{h}"));
                            }
                        }
                    }
                    for (name, v) in &pkg.feats {
                        for c in &cands {
                            if c == name {
                                continue;
                            }
                            let mut nu = u.clone();
                            let e = nu.pkgs[p].feats.get_mut(name).unwrap();
                            if let Some(j) = v.iter().position(|x| x == c) {
                                e.remove(j);
                            } else {
                                e.push(c);
                            }
                            uni!(nu);
                        }
                        let mut nu = u.clone();
                        nu.pkgs[p].feats.remove(name);
                        uni!(nu);
                    }
                }
            }
            G::Lib => {
                for p in 0..u.pkgs.len() {
                    for l in [
                        Lib::Plain,
                        Lib::Named("renamed", "lib"),
                        Lib::Kind("proc-macro"),
                        Lib::Named("renamed", "proc-macro"),
                        Lib::Named("renamed", "cdylib"),
                        Lib::BinOnly,
                    ] {
                        if u.pkgs[p].lib != l {
                            let mut nu = u.clone();
                            nu.pkgs[p].lib = l;
                            uni!(nu);
                        }
                    }
                    // a lib target that takes another package's name
                    for q in 0..u.pkgs.len() {
                        if q != p {
                            let n = intern(&under(u.pkgs[q].name));
                            let l = Lib::Named(n, "lib");
                            if u.pkgs[p].lib != l && under(u.pkgs[p].name) != n {
                                let mut nu = u.clone();
                                nu.pkgs[p].lib = l;
                                uni!(nu);
                            }
                        }
                    }
                }
            }
            G::Workspace => {
                for p in 0..u.pkgs.len() {
                    if u.pkgs[p].src == Src::Path && u.pkgs[p].dir.starts_with("/nx/ws") {
                        let mut nu = u.clone();
                        if let Some(i) = nu.members.iter().position(|m| *m == p) {
                            nu.members.remove(i);
                            if nu.root == Some(p) {
                                nu.root = None;
                            }
                        } else {
                            nu.members.push(p);
                            nu.members.sort();
                        }
                        uni!(nu);
                        if u.is_member(p) && u.root != Some(p) {
                            let mut nu = u.clone();
                            nu.root = Some(p);
                            uni!(nu);
                        }
                    } else if !u.is_member(p) {
                        // pull an outside package into the workspace
                        let mut nu = u.clone();
                        nu.pkgs[p].src = Src::Path;
                        nu.pkgs[p].dir = intern(&format!("/nx/ws/{}", u.pkgs[p].name));
                        nu.members.push(p);
                        nu.members.sort();
                        uni!(nu);
                    }
                }
                if u.root.is_some() {
                    let mut nu = u.clone();
                    nu.root = None;
                    uni!(nu);
                }
            }
            G::Cli => {
                for cli in [Cli::Default, Cli::NoDefault, Cli::All, Cli::Only("f"), Cli::Only("g")] {
                    if u.cli != cli {
                        let mut nu = u.clone();
                        nu.cli = cli;
                        uni!(nu);
                    }
                }
            }
            G::Filter => {
                for p in [None, Some("x86_64-unknown-linux-gnu"), Some("x86_64-pc-windows-msvc")] {
                    if u.platform != p {
                        let mut nu = u.clone();
                        nu.platform = p;
                        uni!(nu);
                    }
                }
            }
            G::Source => {
                for p in 0..u.pkgs.len() {
                    for to in 0..u.pkgs.len() {
                        if u.pkgs[p].decls.iter().any(|d| d.to == to) {
                            let mut nu = u.clone();
                            for d in &mut nu.pkgs[p].decls {
                                d.patched ^= d.to == to;
                            }
                            uni!(nu);
                        }
                    }
                }
                for p in 0..u.pkgs.len() {
                    if u.is_member(p) {
                        continue;
                    }
                    let n = u.pkgs[p].name;
                    let gits = intern(&format!("https://h.io/u/{n}"));
                    for (s, d) in [
                        (Src::CratesIo, ""),
                        (Src::Registry("registry+https://r.io/index"), ""),
                        (Src::Registry("sparse+https://r.io/sparse/"), ""),
                        (Src::Git(gits, None), ""),
                        (Src::Git(gits, Some(("branch", "x"))), ""),
                        (Src::Git(gits, Some(("tag", "a/b"))), ""),
                        (Src::Git("https://h.io/u/mono.git", Some(("rev", "b2e7622"))), ""),
                        (Src::Git("https://h.io/u/mono.git", Some(("branch", "a#b"))), ""),
                        (Src::Path, intern(&format!("/nx/ext/{n}"))),
                        (Src::Path, intern(&format!("/nx/ext/{n}-src"))),
                    ] {
                        if u.pkgs[p].src != s || (s == Src::Path && u.pkgs[p].dir != d) {
                            let mut nu = u.clone();
                            nu.pkgs[p].src = s;
                            nu.pkgs[p].dir = d;
                            uni!(nu);
                        }
                    }
                    for v in ["1.0.0", "2.0.0", "0.1.0", "1.0.0-alpha.1", "1.0.1+meta"] {
                        if u.pkgs[p].ver != v {
                            let mut nu = u.clone();
                            nu.pkgs[p].ver = v;
                            uni!(nu);
                        }
                    }
                }
            }
            G::CfgKind => {
                for k in Kind::ALL {
                    for s in [Sc::Ws, Sc::NonWs, Sc::All] {
                        if !c.ignore.contains(&(k, s)) {
                            let mut nc = c.clone();
                            nc.ignore.push((k, s));
                            f((u.clone(), nc));
                        }
                    }
                }
            }
            G::CfgTarget => {
                for t in ["x86_64-unknown-linux-gnu", "x86_64-pc-windows-msvc", "my-custom-target"] {
                    if !c.targets.iter().any(|(x, _)| *x == t) {
                        let mut nc = c.clone();
                        nc.targets.push((t, vec![]));
                        f((u.clone(), nc));
                    }
                }
            }
            G::CfgExclude => {
                for p in &u.pkgs {
                    for e in excludes(p) {
                        if !c.exclude.contains(&e) {
                            let mut nc = c.clone();
                            nc.exclude.push(e);
                            f((u.clone(), nc));
                        }
                    }
                }
            }
            G::CfgRoots => {
                if !c.workspace {
                    let mut nc = c.clone();
                    nc.workspace = true;
                    f((u.clone(), nc));
                }
                for &m in &u.members {
                    // Naming only the workspace's own (non virtual) manifest is ambiguous
                    let d = u.pkgs[m].dir;
                    for w in [Ws::Dir(d), Ws::Manifest(intern(&format!("{d}/Cargo.toml")))] {
                        if c.ws.contains(&w) {
                            continue;
                        }
                        let mut nc = c.clone();
                        nc.ws.push(w);
                        f((u.clone(), nc));
                    }
                }
                if u.members.iter().all(|m| u.pkgs[*m].dir != "/nx/ws") && !c.ws.contains(&Ws::Dir("/nx/ws")) {
                    let mut nc = c.clone();
                    nc.ws.push(Ws::Dir("/nx/ws"));
                    f((u.clone(), nc));
                }
            }
            G::CfgOpaque => {
                let mut nc = c.clone();
                nc.opaque = !nc.opaque;
                f((u.clone(), nc));
            }
        }
    }
}

pub fn excludes(p: &Pkg) -> Vec<Excl> {
    let url: S = match p.src {
        Src::CratesIo => "https://github.com/rust-lang/crates.io-index",
        Src::Registry(s) => intern(s.split_once('+').unwrap().1),
        Src::Git(s, _) => s,
        Src::Path => intern(&format!("file://{}", p.dir)),
    };
    let mut v = vec![
        Excl { name: p.name, ver: None, url: None },
        Excl { name: p.name, ver: Some(p.ver), url: None },
        Excl { name: p.name, ver: Some("9.9.9"), url: None },
    ];
    v.push(Excl { name: p.name, ver: None, url: Some(url) });
    v.push(Excl { name: p.name, ver: None, url: Some("https://elsewhere.io/x") });
    v.push(Excl { name: "nope", ver: None, url: Some(url) });
    v
}

/// Consistently renames the dependency key `old` of package `p` (for target `to`)
pub fn rename(u: &mut Universe, p: usize, to: usize, old: S, new: S) {
    let others = u.pkgs[p].decls.iter().any(|d| d.to != to && {
        let t = d.rename.unwrap_or(u.pkgs[d.to].name);
        t == old
    });
    let name = u.pkgs[to].name;
    for d in &mut u.pkgs[p].decls {
        if d.to == to {
            d.rename = (new != name).then_some(new);
        }
    }
    if others {
        // the key stays in use for another package; leave the features alone
        return;
    }
    let feats = std::mem::take(&mut u.pkgs[p].feats);
    // An implicit feature follows the key, which callers refer to
    let implicit = !feats.contains_key(old)
        && !feats.values().flatten().any(|e| e.strip_prefix("dep:") == Some(old))
        && u.pkgs[p].decls.iter().any(|d| d.to == to && d.optional);
    u.pkgs[p].feats = feats
        .into_iter()
        .map(|(k, v)| {
            let v = v
                .into_iter()
                .map(|e| match entry(e) {
                    Entry::Dep(x) if x == old => intern(&format!("dep:{new}")),
                    Entry::Strong(x, h) if x == old => intern(&format!("{new}/{h}")),
                    Entry::Weak(x, h) if x == old => intern(&format!("{new}?/{h}")),
                    Entry::Simple(x) if implicit && x == old => new,
                    _ => e,
                })
                .collect();
            (k, v)
        })
        .collect();
    if implicit {
        for q in 0..u.pkgs.len() {
            let tomls: Vec<S> = u.pkgs[q]
                .decls
                .iter()
                .filter(|d| d.to == p)
                .map(|d| d.rename.unwrap_or(u.pkgs[p].name))
                .collect();
            for d in &mut u.pkgs[q].decls {
                if d.to == p {
                    for f in &mut d.feats {
                        if *f == old {
                            *f = new;
                        }
                    }
                }
            }
            for v in u.pkgs[q].feats.values_mut() {
                for e in v.iter_mut() {
                    match entry(e) {
                        Entry::Strong(x, h) if h == old && tomls.contains(&x) => {
                            *e = intern(&format!("{x}/{new}"))
                        }
                        Entry::Weak(x, h) if h == old && tomls.contains(&x) => {
                            *e = intern(&format!("{x}?/{new}"))
                        }
                        _ => {}
                    }
                }
            }
        }
    }
}
