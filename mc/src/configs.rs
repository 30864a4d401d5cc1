//! Families of builder configurations explored on every universe.
use crate::build_props as bp;
use crate::bases::intern;
use crate::edits::excludes;
use crate::model::*;
use crate::reference::*;

/// Every combination of ignored dependency kinds and scopes
pub fn kinds(_: &Universe, c: &Config) -> Vec<Config> {
    let opts: [&[Sc]; 4] = [&[], &[Sc::Ws], &[Sc::NonWs], &[Sc::All]];
    let mut v = Vec::new();
    for n in opts {
        for b in opts {
            for d in opts {
                let mut k = c.clone();
                k.ignore = [(Kind::Normal, n), (Kind::Build, b), (Kind::Dev, d)]
                    .iter()
                    .flat_map(|(k, s)| s.iter().map(|s| (*k, *s)))
                    .collect();
                v.push(k);
            }
        }
    }
    v
}

pub const TARGET_SETS: &[&[(S, &[S])]] = &[
    &[],
    &[("x86_64-unknown-linux-gnu", &[])],
    &[("x86_64-pc-windows-msvc", &[])],
    &[("aarch64-apple-darwin", &[])],
    &[("wasm32-unknown-unknown", &["atomics"])],
    &[("my-custom-target", &[])],
    &[("x86_64-unknown-linux-gnu", &[]), ("x86_64-pc-windows-msvc", &[])],
    &[("x86_64-pc-windows-gnu", &[]), ("my-custom-target", &[])],
    &[("wasm32-unknown-unknown", &[]), ("aarch64-apple-darwin", &[])],
];

pub fn targets(_: &Universe, c: &Config) -> Vec<Config> {
    TARGET_SETS
        .iter()
        .map(|t| Config { targets: t.iter().map(|(t, f)| (*t, f.to_vec())).collect(), ..c.clone() })
        .collect()
}

fn all_excludes(u: &Universe) -> Vec<Excl> {
    let mut v: Vec<Excl> = Vec::new();
    for e in u.pkgs.iter().flat_map(excludes) {
        if !v.contains(&e) {
            v.push(e);
        }
    }
    v
}

/// Every single exclusion
pub fn exclude_one(u: &Universe, c: &Config) -> Vec<Config> {
    all_excludes(u).into_iter().map(|e| Config { exclude: vec![e], ..c.clone() }).collect()
}

/// Every set of one or two exclusions
pub fn exclude_two(u: &Universe, c: &Config) -> Vec<Config> {
    let all = all_excludes(u);
    let mut v = exclude_one(u, c);
    for (i, a) in all.iter().enumerate() {
        for b in &all[..i] {
            v.push(Config { exclude: vec![a.clone(), b.clone()], ..c.clone() });
        }
    }
    v
}

/// Every exclusion but one
pub fn exclude_most(u: &Universe, c: &Config) -> Vec<Config> {
    let all = all_excludes(u);
    (0..=all.len())
        .map(|out| {
            let exclude = all.iter().enumerate().filter(|(i, _)| *i != out).map(|(_, e)| e.clone()).collect();
            Config { exclude, ..c.clone() }
        })
        .collect()
}

/// Every selection of members, with and without `workspace(true)`
pub fn selections(u: &Universe, c: &Config) -> Vec<Config> {
    let mut paths: Vec<Ws> = Vec::new();
    for (i, m) in u.members.iter().enumerate() {
        let d = u.pkgs[*m].dir;
        paths.push(if i % 2 == 0 { Ws::Dir(d) } else { Ws::Manifest(intern(&format!("{d}/Cargo.toml"))) });
    }
    if u.members.iter().all(|m| u.pkgs[*m].dir != "/nx/ws") {
        paths.push(Ws::Dir("/nx/ws"));
    }
    if let Some(p) = u.pkgs.iter().enumerate().find(|(i, p)| p.src == Src::Path && !u.is_member(*i)) {
        paths.push(Ws::Dir(p.1.dir));
    }
    paths.truncate(6);
    let mut v = Vec::new();
    for set in 0..1 << paths.len() {
        let ws: Vec<Ws> = (0..paths.len()).filter(|i| set & (1 << i) != 0).map(|i| paths[i].clone()).collect();
        for workspace in [false, true] {
            for reversed in [false, true] {
                if reversed && ws.len() < 2 {
                    continue;
                }
                let mut ws = ws.clone();
                if reversed {
                    ws.reverse();
                }
                v.push(Config { ws, workspace, ..c.clone() });
            }
        }
    }
    v
}

/// Both package id formats
pub fn formats(_: &Universe, c: &Config) -> Vec<Config> {
    [false, true].map(|opaque| Config { opaque, ..c.clone() }).to_vec()
}

/// The workspace elsewhere, with both package id formats
pub fn places(_: &Universe, c: &Config) -> Vec<Config> {
    // What names a path would have to name it there
    if !c.ws.is_empty() || c.exclude.iter().any(|e| e.url.is_some_and(|u| u.starts_with("file:"))) {
        return Vec::new();
    }
    (1..PLACES.len() as u8)
        .flat_map(|place| [false, true].map(|opaque| Config { opaque, place, ..c.clone() }))
        .collect()
}

/// Each list reordered on its own, and all at once, in two ways
pub fn orders(_: &Universe, c: &Config) -> Vec<Config> {
    let mut v: Vec<_> = [0x7f, 0xff, bp::TWICE, 0x1ff].map(|perm| Config { perm, ..c.clone() }).into();
    for b in 0..7 {
        v.push(Config { perm: 1 << b, ..c.clone() });
        v.push(Config { perm: 1 << b | bp::ROTATE, ..c.clone() });
    }
    v
}

/// All lists reordered at once
pub fn reversed(_: &Universe, c: &Config) -> Vec<Config> {
    [0x17f].map(|perm| Config { perm, ..c.clone() }).into()
}

/// Every combination of reordered lists
pub fn all_orders(_: &Universe, c: &Config) -> Vec<Config> {
    (1..512).map(|perm| Config { perm, ..c.clone() }).collect()
}

/// A cross product over everything the builder can be told
pub fn cross(u: &Universe, c: &Config) -> Vec<Config> {
    let mut v = Vec::new();
    let kinds: [&[(Kind, Sc)]; 4] =
        [&[], &[(Kind::Dev, Sc::All)], &[(Kind::Normal, Sc::NonWs)], &[(Kind::Build, Sc::NonWs), (Kind::Normal, Sc::Ws)]];
    let first = u.members.first().map(|m| u.pkgs[*m].dir);
    let last = u.pkgs.last().map(|p| Excl { name: p.name, ver: None, url: None });
    for k in kinds {
        for t in [0, 1, 7] {
            for ws in [None, first] {
                for e in [None, last.clone()] {
                    for (workspace, opaque) in [(false, false), (true, false), (false, true)] {
                        v.push(Config {
                            ignore: k.to_vec(),
                            targets: TARGET_SETS[t].iter().map(|(t, f)| (*t, f.to_vec())).collect(),
                            exclude: e.iter().cloned().collect(),
                            workspace,
                            ws: ws.iter().map(|d| Ws::Dir(d)).collect(),
                            opaque,
                            place: c.place,
                            perm: c.perm,
                        });
                    }
                }
            }
        }
    }
    v
}
