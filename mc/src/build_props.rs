//! Properties of graph construction: state = (universe, builder configuration).
use crate::bases;
use crate::edits::{self, G, St};
use crate::engine::*;
use crate::model::*;
use crate::observe;
use crate::reference::*;
use std::fmt::Write as _;

/// What a property compares
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum A {
    /// known finding: what the feature level looks like instead
    Quirk,
    Krates,
    Filtered,
    Feats,
    Edges,
    FeatEdges,
    Mapping,
    Structure,
}

/// A built graph together with everything the oracle knows about it
pub struct View<'a> {
    pub u: &'a Universe,
    pub r: &'a Resolved,
    pub c: &'a Config,
    pub want: &'a Graph,
    pub b: &'a observe::Built,
    pub ids: &'a [String],
}

pub enum Say {
    Bad(String),
    /// deviates, exactly as the known finding describes
    Known(&'static str, String),
}

/// Queries a built graph
pub type Probe = fn(&View<'_>) -> Result<(), Say>;

pub struct BuildSpace {
    pub probe: Option<Probe>,
    pub name: &'static str,
    pub groups: Vec<G>,
    pub aspects: Vec<A>,
    pub bases: Vec<&'static str>,
    pub configs: fn(&Universe, &Config) -> Vec<Config>,
}

impl BuildSpace {
    pub fn new(
        name: &'static str,
        groups: &[G],
        aspects: &[A],
        bases: &[&'static str],
        configs: fn(&Universe, &Config) -> Vec<Config>,
    ) -> Self {
        Self { probe: None, name, groups: groups.to_vec(), aspects: aspects.to_vec(), bases: bases.to_vec(), configs }
    }
}

impl BuildSpace {
    pub fn probing(mut self, p: Probe) -> Self {
        self.probe = Some(p);
        self
    }
}

pub fn only_own(_: &Universe, c: &Config) -> Vec<Config> {
    vec![c.clone()]
}

pub fn cfg_key(c: &Config) -> String {
    let mut o = String::new();
    if !c.ignore.is_empty() {
        write!(o, " ignore={:?}", c.ignore).unwrap();
    }
    if !c.targets.is_empty() {
        write!(o, " targets={:?}", c.targets).unwrap();
    }
    if !c.exclude.is_empty() {
        write!(o, " exclude={:?}", c.exclude).unwrap();
    }
    if c.workspace {
        o.push_str(" workspace(true)");
    }
    if !c.ws.is_empty() {
        write!(o, " include_workspace_crates={:?}", c.ws).unwrap();
    }
    if c.opaque {
        o.push_str(" opaque-ids");
    }
    if c.place != 0 {
        write!(o, " in={}", PLACES[c.place as usize].dir).unwrap();
    }
    if c.perm != 0 {
        write!(o, " reordered={:#b}", c.perm).unwrap();
    }
    o
}

pub fn diff(u: &Universe, want: &Graph, got: &Graph, aspects: &[A], bad: &[String]) -> Option<String> {
    let n = |p: &usize| format!("{}@{}#{p}", u.pkgs[*p].name, u.pkgs[*p].ver);
    for a in aspects {
        match a {
            A::Krates if want.krates != got.krates => {
                let miss: Vec<_> = want.krates.difference(&got.krates).map(n).collect();
                let extra: Vec<_> = got.krates.difference(&want.krates).map(n).collect();
                return Some(format!("crate set: missing {miss:?}, unexpected {extra:?}"));
            }
            A::Filtered if bad.iter().any(|b| b.contains("filtered twice")) => return Some(bad.join("; ")),
            A::Filtered if want.filtered != got.filtered => {
                return Some(format!(
                    "filter callback: expected {:?}, got {:?}",
                    want.filtered.iter().map(n).collect::<Vec<_>>(),
                    got.filtered.iter().map(n).collect::<Vec<_>>()
                ));
            }
            A::Feats => {
                for (p, w) in &want.feats {
                    if let Some(g) = got.feats.get(p)
                        && g != w
                    {
                        return Some(format!("enabled features of {}: expected {w:?}, got {g:?}", n(p)));
                    }
                }
            }
            A::Edges if want.edges != got.edges => {
                let miss: Vec<_> = want.edges.difference(&got.edges).collect();
                let extra: Vec<_> = got.edges.difference(&want.edges).collect();
                return Some(format!("crate edges: missing {miss:?}, unexpected {extra:?}"));
            }
            A::Edges if bad.iter().any(|b| b.contains("parallel")) => return Some(bad.join("; ")),
            A::FeatEdges if want.fedges != got.fedges => {
                let miss: Vec<_> = want.fedges.difference(&got.fedges).collect();
                let extra: Vec<_> = got.fedges.difference(&want.fedges).collect();
                return Some(format!("feature edges: missing {miss:?}, unexpected {extra:?}"));
            }
            A::Mapping if want.mapping != got.mapping => {
                return Some(format!(
                    "dependency mapping (crate, declaration)->crate: expected {:?}, got {:?}",
                    want.mapping, got.mapping
                ));
            }
            A::Structure if !bad.is_empty() => return Some(bad.join("; ")),
            A::Structure if want.nodes != got.nodes => {
                let d: Vec<_> = want
                    .nodes
                    .keys()
                    .chain(got.nodes.keys())
                    .filter(|k| want.nodes.get(k) != got.nodes.get(k))
                    .map(|k| format!("{k:?}: expected {:?}, got {:?}", want.nodes.get(k).unwrap_or(&0), got.nodes.get(k).unwrap_or(&0)))
                    .collect();
                return Some(format!("nodes: {}", d.join(", ")));
            }
            _ => {}
        }
    }
    None
}

/// One execution: real builder vs reference
pub fn judge(u: &Universe, r: &Resolved, c: &Config, aspects: &[A], probe: Option<Probe>, o: &mut Outcome) {
    let want = expected(u, r, c);
    let mut m = metadata(u, r, c.opaque);
    reorder(&mut m.md, c.perm);
    PLACES[c.place as usize].relocate(&mut m);
    let got = guarded(|| observe::run(observe::builder(u, c), m.md));
    o.runs += 1;
    let v = match got {
        Err(p) => Some(format!("panic: {p}")),
        Ok(Err(e)) => match (&e, &want) {
            (observe::Fail::NoRoot, None) => None,
            _ => Some(format!("build failed with {e:?}")),
        },
        Ok(Ok(b)) => match &want {
            None => Some("an empty graph was expected to be an error".to_owned()),
            Some(w) => {
                let (mut g, bad) = observe::read(&b, &m.ids);
                if c.perm & DECLS != 0 {
                    g.mapping = std::mem::take(&mut g.mapping)
                        .into_iter()
                        .map(|((p, i), t)| ((p, shuffled(u.pkgs[p].decls.len(), c.perm)[i]), t))
                        .collect();
                }
                o.digest = o.digest.wrapping_mul(31).wrapping_add(hash64(&(g.krates.len(), &g.feats, &g.edges, &g.fedges)));
                let d = diff(u, w, &g, aspects, &bad);
                if d.is_some()
                    && aspects.contains(&A::Quirk)
                    && (0..4).any(|order| diff(u, &quirk(u, r, w, order), &g, aspects, &bad).is_none())
                {
                    o.known.push(("F01", d.unwrap()));
                    None
                } else if let (None, Some(p)) = (&d, probe) {
                    let v = View { u, r, c, want: w, b: &b, ids: &m.ids };
                    match guarded(|| p(&v)) {
                        Err(p) => Some(format!("panic: {p}")),
                        Ok(Err(Say::Bad(s))) => Some(s),
                        Ok(Err(Say::Known(k, s))) => {
                            o.known.push((k, s));
                            None
                        }
                        Ok(Ok(())) => None,
                    }
                } else {
                    d
                }
            }
        },
    };
    if let Some(v) = v {
        o.violation.get_or_insert(format!("{v} [config:{}]", cfg_key(c)));
    }
}

pub const PACKAGES: u16 = 1;
pub const NODES: u16 = 2;
pub const DEPS: u16 = 4;
pub const DEP_KINDS: u16 = 8;
pub const FEATURES: u16 = 16;
pub const MEMBERS: u16 = 32;
pub const DECLS: u16 = 64;
/// Rotate by one instead of reversing
pub const ROTATE: u16 = 128;
/// Not an order: every dependency kind is listed twice
pub const TWICE: u16 = 1 << 8;

fn shuffle<T>(v: &mut [T], perm: u16) {
    if perm & ROTATE == 0 {
        v.reverse();
    } else if !v.is_empty() {
        v.rotate_left(1);
    }
}

/// new position -> original position
fn shuffled(n: usize, perm: u16) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    shuffle(&mut v, perm);
    v
}

/// Reorders lists whose order means nothing
pub fn reorder(md: &mut krates::cm::Metadata, perm: u16) {
    if perm & PACKAGES != 0 {
        shuffle(&mut md.packages, perm);
        for p in &mut md.packages {
            shuffle(&mut p.targets, perm);
        }
    }
    if perm & MEMBERS != 0 {
        shuffle(&mut md.workspace_members, perm);
    }
    if perm & DECLS != 0 {
        for p in &mut md.packages {
            shuffle(&mut p.dependencies, perm);
        }
    }
    let r = md.resolve.as_mut().unwrap();
    if perm & NODES != 0 {
        shuffle(&mut r.nodes, perm);
    }
    for n in &mut r.nodes {
        if perm & DEPS != 0 {
            shuffle(&mut n.deps, perm);
            shuffle(&mut n.dependencies, perm);
        }
        if perm & DEP_KINDS != 0 {
            for d in &mut n.deps {
                shuffle(&mut d.dep_kinds, perm);
            }
        }
        if perm & TWICE != 0 {
            for d in &mut n.deps {
                d.dep_kinds.extend(d.dep_kinds.clone());
            }
        }
        if perm & FEATURES != 0 {
            shuffle(&mut n.features, perm);
        }
    }
}

impl Space for BuildSpace {
    type St = St;
    fn name(&self) -> String {
        self.name.to_owned()
    }
    fn bases(&self) -> Vec<St> {
        let large = self.bases == ["large"];
        if large { bases::large() } else { bases::all() }
            .into_iter()
            .filter(|(n, _)| large || self.bases.is_empty() || self.bases.contains(n))
            .map(|(_, u)| (u, Config::default()))
            .collect()
    }
    fn successors(&self, s: &St, f: &mut dyn FnMut(St)) {
        edits::successors(s, &self.groups, f)
    }
    fn check(&self, (u, c): &St) -> Outcome {
        let mut o = Outcome::default();
        let Ok(r) = resolve(u) else {
            o.invalid = true;
            return o;
        };
        for c in (self.configs)(u, c) {
            judge(u, &r, &c, &self.aspects, self.probe, &mut o);
            if o.violation.is_some() {
                break;
            }
        }
        o
    }
    fn show(&self, (u, c): &St) -> String {
        format!("{}{}", show(u), cfg_key(c))
    }
    fn dump(&self, (u, c): &St) -> String {
        match resolve(u) {
            Ok(r) => serde_json::to_string(&metadata(u, &r, c.opaque).md).unwrap(),
            Err(e) => e.to_owned(),
        }
    }
}
