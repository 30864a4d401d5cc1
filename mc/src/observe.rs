//! Runs the real builder and reads the graph back through the public API.
use crate::model::*;
use crate::reference::*;
use krates::{Edge, Krates, Node, cm};

pub fn builder(u: &Universe, c: &Config) -> krates::Builder {
    let _ = u;
    let mut b = krates::Builder::new();
    for (k, s) in &c.ignore {
        b.ignore_kind(k.krates(), s.krates());
    }
    if !c.targets.is_empty() {
        b.include_targets(
            c.targets
                .iter()
                .map(|(t, f)| (*t, f.iter().map(|s| s.to_string()).collect::<Vec<_>>())),
        );
    }
    if !c.exclude.is_empty() {
        b.exclude(c.exclude.iter().map(spec));
    }
    if c.workspace {
        b.workspace(true);
    }
    if !c.ws.is_empty() {
        b.include_workspace_crates(c.ws.iter().map(|w| match w {
            Ws::Dir(d) => *d,
            Ws::Manifest(d) => *d,
        }));
    }
    b
}

pub fn spec(e: &Excl) -> krates::PkgSpec {
    krates::PkgSpec {
        name: e.name.into(),
        version: e.ver.map(|v| v.parse().unwrap()),
        url: e.url.map(|u| u.to_owned()),
    }
}

pub struct Built {
    pub krates: Krates,
    pub filtered: Vec<cm::Package>,
}

#[derive(Debug)]
pub enum Fail {
    NoRoot,
    NoResolve,
    Other(#[allow(dead_code)] String),
}

pub fn run(b: krates::Builder, md: cm::Metadata) -> Result<Built, Fail> {
    let mut filtered = Vec::new();
    let r: Result<Krates, krates::Error> =
        b.build_with_metadata(md, |p: cm::Package| filtered.push(p));
    match r {
        Ok(krates) => Ok(Built { krates, filtered }),
        Err(krates::Error::NoRootKrates) => Err(Fail::NoRoot),
        Err(krates::Error::NoResolveGraph) => Err(Fail::NoResolve),
        Err(e) => Err(Fail::Other(e.to_string())),
    }
}

pub fn idx(ids: &[String], id: &str) -> usize {
    ids.iter().position(|i| i == id).expect("unknown package id in the graph")
}

/// Reads the graph, also returning structural defects
pub fn read(b: &Built, ids: &[String]) -> (Graph, Vec<String>) {
    let mut g = Graph::default();
    let mut bad = Vec::new();
    let pg = b.krates.graph();
    let mut keys: Vec<NodeKey> = Vec::new();
    for (i, n) in pg.raw_nodes().iter().enumerate() {
        let key = match &n.weight {
            Node::Krate { id, krate, features, dep_mapping } => {
                let p = idx(ids, &krate.id.repr);
                if *id != krates::Kid::from(krate.id.clone()) {
                    bad.push(format!("node {i} carries id {id} but package {}", krate.id.repr));
                }
                g.krates.insert(p);
                g.feats.insert(p, features.clone());
                if dep_mapping.len() != krate.dependencies.len() {
                    bad.push(format!("dep mapping of {id} has {} entries", dep_mapping.len()));
                }
                for (d, m) in dep_mapping.iter().enumerate() {
                    if let Some(m) = m {
                        match &pg[*m] {
                            Node::Krate { krate, .. } => {
                                g.mapping.insert((p, d), idx(ids, &krate.id.repr));
                            }
                            Node::Feature { .. } => {
                                bad.push(format!("dep mapping {d} of {id} is a feature node"));
                            }
                        }
                    }
                }
                NodeKey::Krate(p)
            }
            Node::Feature { krate_index, name } => match &pg[*krate_index] {
                Node::Krate { krate, .. } => {
                    NodeKey::Feat(idx(ids, &krate.id.repr), name.clone())
                }
                Node::Feature { .. } => {
                    bad.push(format!("feature node {i} {name} is owned by a feature"));
                    continue;
                }
            },
        };
        *g.nodes.entry(key.clone()).or_insert(0) += 1;
        keys.push(key);
    }
    if keys.len() == pg.node_count() {
        for e in pg.raw_edges() {
            let label = match &e.weight {
                Edge::Dep { kind, cfg } => Label::Dep(Kind::from_krates(*kind), cfg.clone()),
                Edge::DepFeature { kind, cfg } => {
                    Label::DepFeature(Kind::from_krates(*kind), cfg.clone())
                }
                Edge::Feature => Label::Feature,
            };
            let (s, t) = (&keys[e.source().index()], &keys[e.target().index()]);
            let k = (s.clone(), t.clone(), label);
            match s {
                NodeKey::Krate(_) if g.edges.contains(&k) => bad.push(format!("parallel edges {k:?}")),
                NodeKey::Krate(_) => {
                    g.edges.insert(k);
                }
                // Entries of a feature may well lead to the same node more than once
                NodeKey::Feat(..) => {
                    g.fedges.insert(k);
                }
            };
        }
    }
    for f in &b.filtered {
        let p = idx(ids, &f.id.repr);
        if !g.filtered.insert(p) {
            bad.push(format!("{} was reported as filtered twice", f.id.repr));
        }
    }
    (g, bad)
}
