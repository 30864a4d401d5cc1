//! Feature tables completed from an index: features are taken out of the metadata
//! of crates.io packages and supplied by the index, in several shapes.
use crate::bases;
use crate::build_props::{A, cfg_key, diff};
use crate::edits::{self, G, St};
use crate::engine::*;
use crate::model::*;
use crate::observe;
use crate::reference::*;
use crate::run::Run;
use krates::index::{FeaturesMap, IndexKrate, IndexKrateVersion};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub struct IndexSpace {
    pub groups: Vec<G>,
}

type Table = BTreeMap<String, Vec<String>>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Shape {
    /// Everything the package has
    Full,
    /// As published by an old cargo: what the manifest spells out
    Old,
    /// The version is listed, without a single feature
    Bare,
    /// With other versions around it, and tables for packages of other sources
    Decoys,
    /// Features the metadata already has are listed differently
    Different,
    /// Nothing of use, in several ways
    Empty,
    Unknown,
    OtherVersion,
}
const SHAPES: [Shape; 8] =
    [Shape::Full, Shape::Old, Shape::Bare, Shape::Decoys, Shape::Different, Shape::Empty, Shape::Unknown, Shape::OtherVersion];

fn own(t: &BTreeMap<S, Vec<String>>) -> Table {
    t.iter().map(|(k, v)| (k.to_string(), v.clone())).collect()
}

/// Implicit features that an entry of another feature names
fn named_implicit(u: &Universe, r: &Resolved, p: usize) -> BTreeSet<S> {
    r.fmap[p]
        .keys()
        .copied()
        .filter(|f| !u.pkgs[p].feats.contains_key(f) && u.pkgs[p].feats.values().flatten().any(|v| v == f))
        .collect()
}

fn one(u: &Universe, r: &Resolved, c: &Config, strip: &BTreeSet<(usize, S)>, shape: Shape, o: &mut Outcome) -> Option<String> {
    let useful = !matches!(shape, Shape::Empty | Shape::Unknown | Shape::OtherVersion);
    let mut m = metadata(u, r, c.opaque);
    crate::payload::embellish(&mut m.md);
    let at: BTreeMap<&str, usize> = m.ids.iter().enumerate().map(|(i, s)| (s.as_str(), i)).collect();
    for pkg in &mut m.md.packages {
        let p = at[pkg.id.repr.as_str()];
        pkg.features.retain(|f, _| !strip.contains(&(p, crate::bases::intern(f))));
    }
    // The index
    let mut index: BTreeMap<String, Option<IndexKrate>> = BTreeMap::new();
    let decoy = |ver: &str, t: &Table| IndexKrateVersion {
        version: ver.parse().unwrap(),
        features: t.keys().map(|k| (k.clone(), vec!["dep:decoy".to_owned()])).chain([("decoy".to_owned(), vec![])]).collect(),
    };
    for (p, pkg) in u.pkgs.iter().enumerate() {
        let t = own(&r.fmap[p]);
        if pkg.src != Src::CratesIo {
            // Some crate on crates.io that happens to be called the same
            if shape == Shape::Decoys && !u.pkgs.iter().any(|q| q.src == Src::CratesIo && q.name == pkg.name && q.ver == pkg.ver) {
                let e = index.entry(pkg.name.to_owned()).or_insert(Some(IndexKrate { versions: vec![] }));
                e.as_mut().unwrap().versions.push(decoy(pkg.ver, &t));
            }
            continue;
        }
        if matches!(shape, Shape::Empty | Shape::Unknown) {
            if shape == Shape::Unknown {
                index.insert(pkg.name.to_owned(), None);
            }
            continue;
        }
        let mut features: FeaturesMap = match shape {
            Shape::Old => pkg.feats.iter().map(|(k, v)| (k.to_string(), v.iter().map(|s| s.to_string()).collect())).collect(),
            Shape::Bare => FeaturesMap::new(),
            _ => t.clone(),
        };
        if shape == Shape::Different {
            for (f, v) in &mut features {
                if !strip.contains(&(p, crate::bases::intern(f))) {
                    *v = if v.is_empty() { vec!["decoy?/f".to_owned()] } else { vec![] };
                }
            }
        }
        let e = index.entry(pkg.name.to_owned()).or_insert(Some(IndexKrate { versions: vec![] }));
        let vs = &mut e.as_mut().unwrap().versions;
        let real = IndexKrateVersion { version: pkg.ver.parse().unwrap(), features };
        match shape {
            Shape::Decoys => {
                vs.insert(0, decoy("0.0.1", &t));
                // As good as the same version
                let v = pkg.ver.split('+').next().unwrap();
                vs.insert(0, decoy(&format!("{v}+decoy"), &t));
                if !v.contains('-') {
                    vs.insert(1, decoy(&format!("{v}-decoy"), &t));
                }
                vs.push(real);
                vs.push(decoy("77.0.0", &t));
            }
            Shape::OtherVersion => vs.push(decoy("77.0.0", &t)),
            _ => vs.push(real),
        }
    }
    if shape == Shape::Decoys {
        // As good as the same name
        for p in &u.pkgs {
            for n in [p.name.replace('-', "_"), p.name.replace('_', "-"), p.name.to_uppercase()] {
                if !u.pkgs.iter().any(|p| p.name == n) {
                    let vs = u.pkgs.iter().enumerate().filter(|(_, q)| q.name == p.name).map(|(i, q)| decoy(q.ver, &own(&r.fmap[i])));
                    index.insert(n, Some(IndexKrate { versions: vs.collect() }));
                }
            }
        }
        index.insert("not-in-the-graph".to_owned(), Some(IndexKrate { versions: vec![decoy("1.0.0", &Table::new())] }));
    }
    // What the packages should end up with
    let tables: BTreeMap<usize, Table> = m
        .md
        .packages
        .iter()
        .map(|pkg| {
            let p = at[pkg.id.repr.as_str()];
            (p, if useful { own(&r.fmap[p]) } else { pkg.features.clone() })
        })
        .collect();
    // Nothing else changes
    let rest = |p: &krates::Package| {
        let mut v = crate::payload::to_json(p);
        v["features"] = serde_json::Value::Null;
        v
    };
    let rests: BTreeMap<usize, _> = m.md.packages.iter().map(|p| (at[p.id.repr.as_str()], rest(p))).collect();
    let names: BTreeSet<String> = m.md.packages.iter().map(|p| p.name.clone()).collect();
    let want = expected(u, r, c);
    let asked: Rc<RefCell<Vec<BTreeSet<String>>>> = Rc::default();
    let mut b = observe::builder(u, c);
    let a = asked.clone();
    b.with_crates_io_index(Box::new(move |n| {
        a.borrow_mut().push(n);
        index
    }));
    let got = guarded(|| observe::run(b, m.md));
    o.runs += 1;
    let asked = asked.borrow();
    if asked.len() != 1 || asked[0] != names {
        return Some(format!("the index was asked for {asked:?}, the packages are {names:?}"));
    }
    match got {
        Err(p) => Some(format!("panic: {p}")),
        Ok(Err(observe::Fail::NoRoot)) if want.is_none() => None,
        Ok(Err(e)) => Some(format!("build failed with {e:?}")),
        Ok(Ok(b)) => {
            let Some(w) = &want else { return Some("an empty graph was expected to be an error".into()) };
            for pkg in b.krates.krates().chain(&b.filtered) {
                let p = at[pkg.id.repr.as_str()];
                if pkg.features != tables[&p] {
                    return Some(format!("features of {}: expected {:?}, got {:?}", pkg.id.repr, tables[&p], pkg.features));
                }
                if rest(pkg) != rests[&p] {
                    return Some(format!("package {} was changed: {}, it was {}", pkg.id.repr, rest(pkg), rests[&p]));
                }
            }
            let (g, bad) = observe::read(&b, &m.ids);
            o.digest = o.digest.wrapping_mul(31).wrapping_add(hash64(&(&g.krates, &g.feats)));
            diff(u, w, &g, &[A::Krates, A::Filtered, A::Feats, A::Edges, A::Mapping], &bad)
        }
    }
}

impl Space for IndexSpace {
    type St = St;
    fn name(&self) -> String {
        "index answers".to_owned()
    }
    fn bases(&self) -> Vec<St> {
        bases::all().into_iter().map(|(_, u)| (u, Config::default())).collect()
    }
    fn successors(&self, s: &St, f: &mut dyn FnMut(St)) {
        edits::successors(s, &self.groups, f)
    }
    fn check(&self, (u, c): &St) -> Outcome {
        let mut o = Outcome::default();
        let Ok(r) = resolve(u) else {
            o.invalid = true;
            return o;
        };
        // Features that can be missing from the metadata
        let mut explicit = BTreeSet::new();
        let mut implicit = BTreeSet::new();
        for (p, pkg) in u.pkgs.iter().enumerate() {
            if pkg.src == Src::CratesIo {
                explicit.extend(pkg.feats.keys().map(|f| (p, *f)));
                implicit.extend(named_implicit(u, &r, p).into_iter().map(|f| (p, f)));
            }
        }
        let mut strips: Vec<BTreeSet<(usize, S)>> = vec![BTreeSet::new(), explicit.clone(), implicit.clone(), &explicit | &implicit];
        strips.extend(explicit.iter().chain(&implicit).map(|f| [*f].into()));
        strips.extend(explicit.iter().map(|f| explicit.iter().filter(|g| *g != f).copied().collect()));
        strips.sort();
        strips.dedup();
        for s in &strips {
            for shape in SHAPES {
                // Without an answer there is nothing to complete the table with
                if !s.is_empty() && matches!(shape, Shape::Empty | Shape::Unknown | Shape::OtherVersion) {
                    continue;
                }
                // What the entries of the metadata name has to be enough
                if shape == Shape::Bare && !s.is_subset(&implicit) {
                    continue;
                }
                if let Some(v) = one(u, &r, c, s, shape, &mut o) {
                    let s: Vec<_> = s.iter().map(|(p, f)| format!("{}/{f}", u.pkgs[*p].name)).collect();
                    o.violation = Some(format!("{v} [metadata without {s:?}, index {shape:?}, config:{}]", cfg_key(c)));
                    return o;
                }
            }
        }
        o
    }
    fn show(&self, (u, c): &St) -> String {
        format!("{}{}", show(u), cfg_key(c))
    }
    fn dump(&self, (u, _): &St) -> String {
        match resolve(u) {
            Ok(r) => serde_json::to_string(&metadata(u, &r, false).md).unwrap(),
            Err(e) => e.to_owned(),
        }
    }
}

/// Metadata whose packages do not declare every feature cargo enabled, and no index
/// (<https://github.com/rust-lang/cargo/issues/11319>)
pub struct StaleSpace {
    pub groups: Vec<G>,
}

impl Space for StaleSpace {
    type St = St;
    fn name(&self) -> String {
        "undeclared features".to_owned()
    }
    fn bases(&self) -> Vec<St> {
        bases::all().into_iter().map(|(_, u)| (u, Config::default())).collect()
    }
    fn successors(&self, s: &St, f: &mut dyn FnMut(St)) {
        edits::successors(s, &self.groups, f)
    }
    fn check(&self, (u, c): &St) -> Outcome {
        let mut o = Outcome::default();
        let Ok(r) = resolve(u) else {
            o.invalid = true;
            return o;
        };
        let known: BTreeSet<(usize, S)> = (0..u.pkgs.len())
            .filter(|p| u.pkgs[*p].src == Src::CratesIo)
            .flat_map(|p| r.fmap[p].keys().map(move |f| (p, *f)))
            .collect();
        let mut strips: Vec<BTreeSet<(usize, S)>> = vec![known.clone()];
        strips.extend(known.iter().map(|f| [*f].into()));
        strips.extend(known.iter().map(|f| known.iter().filter(|g| *g != f).copied().collect()));
        strips.sort();
        strips.dedup();
        for s in strips.iter().filter(|s| !s.is_empty()) {
            let mut left = r.clone();
            for (p, f) in s {
                left.fmap[*p].remove(f);
            }
            let mut m = metadata(u, &r, c.opaque);
            let at: BTreeMap<&str, usize> = m.ids.iter().enumerate().map(|(i, s)| (s.as_str(), i)).collect();
            for pkg in &mut m.md.packages {
                let p = at[pkg.id.repr.as_str()];
                pkg.features.retain(|f, _| left.fmap[p].contains_key(f.as_str()));
            }
            let want = expected(u, &left, c);
            o.runs += 1;
            let bad = match guarded(|| observe::run(observe::builder(u, c), m.md)) {
                Err(p) => Some(format!("panic: {p}")),
                Ok(Err(observe::Fail::NoRoot)) if want.is_none() => None,
                Ok(Err(e)) => Some(format!("build failed with {e:?}")),
                Ok(Ok(b)) => match &want {
                    None => Some("an empty graph was expected to be an error".into()),
                    Some(w) => {
                        let (g, bad) = observe::read(&b, &m.ids);
                        o.digest = o.digest.wrapping_mul(31).wrapping_add(hash64(&(&g.krates, &g.feats)));
                        diff(u, w, &g, &[A::Krates, A::Filtered, A::Feats, A::Edges, A::Mapping], &bad)
                    }
                },
            };
            if let Some(v) = bad {
                let s: Vec<_> = s.iter().map(|(p, f)| format!("{}/{f}", u.pkgs[*p].name)).collect();
                o.violation = Some(format!("{v} [packages without {s:?}, config:{}]", cfg_key(c)));
                return o;
            }
        }
        o
    }
    fn show(&self, (u, c): &St) -> String {
        format!("{}{}", show(u), cfg_key(c))
    }
    fn dump(&self, (u, _): &St) -> String {
        match resolve(u) {
            Ok(r) => serde_json::to_string(&metadata(u, &r, false).md).unwrap(),
            Err(e) => e.to_owned(),
        }
    }
}

pub fn undeclared(r: &mut Run, groups: &[G], depth: usize) {
    r.bfs(&StaleSpace { groups: groups.to_vec() }, depth);
}

pub fn answers(r: &mut Run, groups: &[G], depth: usize) {
    r.bfs(&IndexSpace { groups: groups.to_vec() }, depth);
}
