//! The reference resolver: what a graph built by krates must look like.
//! Written as a naive least fixpoint over the abstract universe; it never looks
//! at the metadata the implementation is given.
use crate::cfgmodel;
use crate::model::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Sc {
    Ws,
    NonWs,
    All,
}

impl Sc {
    pub fn krates(self) -> krates::Scope {
        match self {
            Sc::Ws => krates::Scope::Workspace,
            Sc::NonWs => krates::Scope::NonWorkspace,
            Sc::All => krates::Scope::All,
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Excl {
    pub name: S,
    pub ver: Option<S>,
    pub url: Option<S>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ws {
    Dir(S),
    Manifest(S),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Config {
    pub ignore: Vec<(Kind, Sc)>,
    pub targets: Vec<(S, Vec<S>)>,
    pub exclude: Vec<Excl>,
    pub workspace: bool,
    pub ws: Vec<Ws>,
    pub opaque: bool,
    /// Where everything is, an index into `model::PLACES`
    pub place: u8,
    /// Lists of the metadata that are reordered before building (see `reorder`)
    pub perm: u16,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum NodeKey {
    Krate(usize),
    Feat(usize, String),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Label {
    Dep(Kind, Option<String>),
    DepFeature(Kind, Option<String>),
    Feature,
}

pub type EdgeKey = (NodeKey, NodeKey, Label);

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Graph {
    pub krates: BTreeSet<usize>,
    pub filtered: BTreeSet<usize>,
    pub feats: BTreeMap<usize, BTreeSet<String>>,
    /// Edges that leave a crate
    pub edges: BTreeSet<EdgeKey>,
    /// Edges that leave a feature
    pub fedges: BTreeSet<EdgeKey>,
    pub mapping: BTreeMap<(usize, usize), usize>,
    /// Every node and how often it is present
    pub nodes: BTreeMap<NodeKey, usize>,
}

/// None: NoRootKrates
pub fn expected(u: &Universe, r: &Resolved, c: &Config) -> Option<Graph> {
    let listed = listed(u, r);
    let roots = roots(u, c);
    let excluded = |p: usize| -> bool {
        let k = &u.pkgs[p];
        c.exclude.iter().any(|e| {
            e.name == k.name
                && e.ver.is_none_or(|v| v == k.ver)
                && e.url.is_none_or(|url| match k.src {
                    Src::CratesIo => url == "https://github.com/rust-lang/crates.io-index",
                    Src::Registry(s) => s.split_once('+').unwrap().1 == url,
                    Src::Git(s, _) => s == url,
                    Src::Path => url.strip_prefix("file://") == Some(k.dir),
                })
        })
    };
    let kind_ok = |p: usize, k: Kind| {
        let w = u.is_member(p);
        !c.ignore.iter().any(|(ik, s)| {
            *ik == k
                && match s {
                    Sc::All => true,
                    Sc::Ws => w,
                    Sc::NonWs => !w,
                }
        })
    };
    let target_ok = |t: Option<S>| match t {
        None => true,
        Some(t) if c.targets.is_empty() => cfgmodel::kept_unfiltered(t),
        Some(t) => c.targets.iter().any(|(tr, f)| cfgmodel::applies(t, tr, f)),
    };

    let n = u.pkgs.len();
    let mut inc = vec![false; n];
    let mut feats: Vec<BTreeSet<String>> = vec![BTreeSet::new(); n];
    for &p in &roots {
        if !excluded(p) {
            inc[p] = true;
            feats[p] = r.feats[p].clone();
        }
    }
    let mut active: Vec<Vec<bool>> = u.pkgs.iter().map(|p| vec![false; p.decls.len()]).collect();

    loop {
        let mut changed = false;
        let mut add = |set: &mut BTreeSet<String>, f: &str| {
            if !set.contains(f) {
                set.insert(f.to_owned());
                changed = true;
            }
        };
        let mut newly = Vec::new();
        for p in 0..n {
            if !inc[p] {
                continue;
            }
            let enabled: Vec<String> = feats[p].iter().cloned().collect();
            let mut strong: BTreeSet<&str> = BTreeSet::new();
            let mut forward: Vec<(&str, &str)> = Vec::new();
            for f in &enabled {
                for v in r.fmap[p].get(f.as_str()).into_iter().flatten() {
                    match entry(v) {
                        Entry::Simple(s) => add(&mut feats[p], s),
                        Entry::Dep(x) => {
                            strong.insert(x);
                        }
                        Entry::Strong(x, g) => {
                            strong.insert(x);
                            forward.push((x, g));
                            // The feature that is only the dependency's implicit one is
                            // represented by the dependency itself
                            if r.fmap[p].get(x).is_some_and(|v| *v != [format!("dep:{x}")])
                                && u.pkgs[p].decls.iter().any(|d| d.optional && u.toml(d) == x)
                            {
                                add(&mut feats[p], x);
                            }
                        }
                        Entry::Weak(x, g) => forward.push((x, g)),
                    }
                }
            }
            for (i, d) in u.pkgs[p].decls.iter().enumerate() {
                let toml = u.toml(d);
                if !u.in_metadata(r, p, i)
                    || !kind_ok(p, d.kind)
                    || !target_ok(d.target)
                    || (d.optional && !strong.contains(toml))
                {
                    continue;
                }
                if !active[p][i] {
                    active[p][i] = true;
                    newly.push(d.to);
                }
                if excluded(d.to) {
                    continue;
                }
                for f in &d.feats {
                    add(&mut feats[d.to], f);
                }
                if d.default && r.feats[d.to].contains("default") {
                    add(&mut feats[d.to], "default");
                }
                for (x, g) in &forward {
                    // A feature that cargo did not enable is not there to be referenced
                    if *x == toml && r.feats[d.to].contains(*g) {
                        add(&mut feats[d.to], g);
                    }
                }
            }
        }
        for t in newly {
            changed = true;
            if !excluded(t) {
                inc[t] = true;
            }
        }
        if !changed {
            break;
        }
    }

    let mut g = Graph::default();
    for p in 0..n {
        if inc[p] {
            g.krates.insert(p);
        } else if listed[p] {
            g.filtered.insert(p);
        }
    }
    if g.krates.is_empty() {
        return None;
    }
    for &p in &g.krates {
        g.feats.insert(p, feats[p].clone());
        g.nodes.insert(NodeKey::Krate(p), 1);
        for f in &feats[p] {
            g.nodes.insert(NodeKey::Feat(p, f.clone()), 1);
        }
        for (i, d) in u.pkgs[p].decls.iter().enumerate() {
            if !active[p][i] || !inc[d.to] {
                continue;
            }
            g.mapping.insert((p, i), d.to);
            let cfg = d.target.map(|s| s.to_owned());
            let mut fs: BTreeSet<String> = d.feats.iter().map(|s| s.to_string()).collect();
            if d.default && r.feats[d.to].contains("default") {
                fs.insert("default".into());
            }
            if fs.is_empty() {
                g.edges
                    .insert((NodeKey::Krate(p), NodeKey::Krate(d.to), Label::Dep(d.kind, cfg)));
            } else {
                for f in fs {
                    g.edges.insert((
                        NodeKey::Krate(p),
                        NodeKey::Feat(d.to, f),
                        Label::DepFeature(d.kind, cfg.clone()),
                    ));
                }
            }
        }
        for f in &feats[p] {
            let me = NodeKey::Feat(p, f.clone());
            g.fedges.insert((me.clone(), NodeKey::Krate(p), Label::Feature));
            for v in r.fmap[p].get(f.as_str()).into_iter().flatten() {
                let (x, feat) = match entry(v) {
                    Entry::Simple(s) => {
                        g.fedges
                            .insert((me.clone(), NodeKey::Feat(p, s.to_owned()), Label::Feature));
                        continue;
                    }
                    Entry::Dep(x) => (x, None),
                    Entry::Strong(x, h) | Entry::Weak(x, h) => (x, Some(h)),
                };
                for (i, d) in u.pkgs[p].decls.iter().enumerate() {
                    if !active[p][i] || !inc[d.to] || u.toml(d) != x {
                        continue;
                    }
                    let to = match feat {
                        Some(h) if !r.feats[d.to].contains(h) => continue,
                        Some(h) => {
                            let to = NodeKey::Feat(d.to, h.to_owned());
                            g.edges.insert((NodeKey::Krate(p), to.clone(), Label::Feature));
                            to
                        }
                        None => NodeKey::Krate(d.to),
                    };
                    g.fedges.insert((me.clone(), to, Label::Feature));
                }
            }
        }
    }
    Some(g)
}

pub fn roots(u: &Universe, c: &Config) -> BTreeSet<usize> {
    let all: BTreeSet<usize> = u.members.iter().copied().collect();
    if c.ws.is_empty() {
        match u.root {
            Some(r) if !c.workspace => [r].into(),
            _ => all,
        }
    } else {
        let man = |w: &Ws| match w {
            Ws::Dir(d) => format!("{d}/Cargo.toml"),
            Ws::Manifest(m) => m.to_string(),
        };
        if c.ws.len() == 1 && man(&c.ws[0]) == "/nx/ws/Cargo.toml" {
            return all;
        }
        all.into_iter()
            .filter(|m| {
                let mm = format!("{}/Cargo.toml", u.pkgs[*m].dir);
                c.ws.iter().any(|w| man(w) == mm)
            })
            .collect()
    }
}

/// Known finding F01: the exact way the feature level of the graph deviates from
/// the declared feature tables (pinned by the repository's snapshots).
/// Which nodes are invented depends on what comes first: `order` has a bit for the
/// crates and one for the features of each.
pub fn quirk(u: &Universe, r: &Resolved, want: &Graph, order: u8) -> Graph {
    let kid = |p: usize| {
        let k = &u.pkgs[p];
        (k.name, k.ver, krates::Kid::from(krates::PackageId { repr: k.id(false) }).source().to_owned())
    };
    let mut g = want.clone();
    g.fedges.clear();
    g.nodes.clear();
    let mut count: BTreeMap<NodeKey, usize> = BTreeMap::new();
    for &p in &want.krates {
        count.insert(NodeKey::Krate(p), 1);
    }
    for (_, t, _) in &want.edges {
        count.entry(t.clone()).or_insert(1);
    }
    let mut krates: Vec<usize> = want.krates.iter().copied().collect();
    krates.sort_by_key(|p| kid(*p));
    if order & 1 != 0 {
        krates.reverse();
    }
    for p in krates {
        // resolved dependencies, sorted by id: (package, extern name)
        let mut deps: Vec<(usize, String)> = Vec::new();
        for (i, d) in u.pkgs[p].decls.iter().enumerate() {
            if u.in_metadata(r, p, i)
                && let Some(l) = u.pkgs[d.to].lib_name()
                && !deps.iter().any(|(q, _)| *q == d.to)
            {
                deps.push((d.to, d.rename.map_or(l, under)));
            }
        }
        deps.sort_by_key(|(q, _)| kid(*q));
        let eq = |resolved: &str, human: &str| {
            resolved.chars().count() == human.chars().count()
                && resolved.chars().zip(human.chars()).all(|(a, b)| a == b || (a == '_' && b == '-'))
        };
        let dep = |x: &str| {
            deps.iter()
                .find(|(q, n)| eq(n, x) || eq(u.pkgs[*q].name, x))
                .map(|(q, _)| *q)
        };
        let mut feats: Vec<&String> = want.feats[&p].iter().collect();
        if order & 2 == 0 {
            feats.reverse();
        }
        for f in feats {
            let me = NodeKey::Feat(p, f.clone());
            count.entry(me.clone()).or_insert(1);
            g.fedges.insert((me.clone(), NodeKey::Krate(p), Label::Feature));
            for v in r.fmap[p].get(f.as_str()).into_iter().flatten() {
                let (kid, name) = match entry(v) {
                    Entry::Simple(s) => (p, Some(s)),
                    Entry::Dep(x) => match dep(x) {
                        Some(k) if u.pkgs[k].name == x => (k, None),
                        Some(k) => (k, Some(x)),
                        None => continue,
                    },
                    Entry::Strong(x, h) => match dep(x) {
                        Some(k) => (k, Some(h)),
                        None => continue,
                    },
                    Entry::Weak(x, h) => match dep(x) {
                        Some(k) if r.feats[p].contains(x) => (k, Some(h)),
                        _ => continue,
                    },
                };
                if kid != p && !want.krates.contains(&kid) {
                    continue;
                }
                let to = match name {
                    None => NodeKey::Krate(kid),
                    Some(n) => {
                        let there = NodeKey::Feat(kid, n.to_owned());
                        if count.contains_key(&there) {
                            there
                        } else {
                            let new = NodeKey::Feat(p, n.to_owned());
                            *count.entry(new.clone()).or_insert(0) += 1;
                            new
                        }
                    }
                };
                g.fedges.insert((me.clone(), to, Label::Feature));
            }
        }
    }
    g.nodes = count;
    g
}
