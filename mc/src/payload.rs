//! What a graph carries: packages go into the graph or to the filter unchanged,
//! and a graph of the user's own node and edge types is the same graph.
use crate::bases;
use crate::build_props::cfg_key;
use crate::edits::{self, G, St};
use crate::engine::*;
use crate::model::*;
use crate::observe;
use crate::reference::*;
use crate::run::Run;
use krates::{Edge, KrateDetails, Krates, Node, NodeId, cm};
use serde_json::{Value, json};
use std::cell::Cell;

pub struct PayloadSpace {
    pub name: S,
    pub groups: Vec<G>,
}

thread_local!(static CONVERTED: Cell<usize> = const { Cell::new(0) });

/// Node and edge types of a user
#[derive(Debug)]
struct Mine {
    id: String,
    name: String,
    version: krates::semver::Version,
}
impl From<cm::Package> for Mine {
    fn from(p: cm::Package) -> Self {
        CONVERTED.set(CONVERTED.get() + 1);
        Mine { id: p.id.repr, name: p.name, version: p.version }
    }
}
impl KrateDetails for Mine {
    fn name(&self) -> &str {
        &self.name
    }
    fn version(&self) -> &krates::semver::Version {
        &self.version
    }
}
struct MyEdge(String);
impl From<Edge> for MyEdge {
    fn from(e: Edge) -> Self {
        MyEdge(format!("{e:?}"))
    }
}

/// Gives every field of the packages a value of its own
pub fn embellish(md: &mut cm::Metadata) {
    for (i, p) in md.packages.iter_mut().enumerate() {
        // Unsorted lists, with repeated elements
        let twice = |a: &str| vec![format!("{a} {i}"), "a".into(), "a".into(), format!("{a} {i}")];
        p.authors = twice("author");
        p.description = Some(format!("description {i}"));
        p.license = Some(format!("license {i}"));
        p.license_file = Some(format!("LICENSE-{i}").into());
        p.categories = twice("category");
        p.keywords = twice("z-keyword");
        p.readme = Some(format!("README-{i}.md").into());
        p.repository = Some(format!("https://example.com/{i}"));
        p.homepage = Some(format!("https://home.example.com/{i}"));
        p.documentation = Some(format!("https://docs.example.com/{i}"));
        p.edition = [cm::Edition::E2015, cm::Edition::E2018, cm::Edition::E2021, cm::Edition::E2024][i % 4];
        p.metadata = json!({"number": i, "null": null});
        p.links = (i % 2 == 0).then(|| format!("links-{i}"));
        p.publish = [None, Some(vec![]), Some(twice("registry"))][i % 3].clone();
        p.default_run = Some(format!("bin-{i}"));
        p.rust_version = Some(krates::semver::Version::new(1, i as u64, 0));
        for d in &mut p.dependencies {
            d.registry.get_or_insert_with(|| "https://registry.example.com".into());
        }
        let t = cm::Target {
            name: format!("example-{i}"),
            kind: vec![cm::TargetKind::Example],
            crate_types: vec![cm::CrateType::Bin],
            required_features: twice("need"),
            src_path: format!("/x/{i}.rs").into(),
            edition: cm::Edition::E2018,
            doctest: false,
            test: i % 2 == 0,
            doc: false,
        };
        if i % 2 == 0 { p.targets.insert(0, t) } else { p.targets.push(t) }
    }
}

pub fn to_json(p: &cm::Package) -> Value {
    serde_json::to_value(p).unwrap()
}

fn one(u: &Universe, r: &Resolved, c: &Config, o: &mut Outcome) -> Result<(), String> {
    let mut m = metadata(u, r, c.opaque);
    embellish(&mut m.md);
    let json: Vec<(String, Value)> = m.md.packages.iter().map(|p| (p.id.repr.clone(), to_json(p))).collect();
    let original = |id: &str| json.iter().find(|(i, _)| i == id).map(|(_, v)| v);
    o.runs += 3;
    let a = guarded(|| observe::run(observe::builder(u, c), m.md.clone())).map_err(|p| format!("panic: {p}"))?;
    CONVERTED.set(0);
    let mut filtered: Vec<cm::Package> = Vec::new();
    let b: Result<Krates<Mine, MyEdge>, krates::Error> =
        guarded(|| observe::builder(u, c).build_with_metadata(m.md.clone(), |p: cm::Package| filtered.push(p)))
            .map_err(|p| format!("panic: {p}"))?;
    // A graph without a callback is the same, too
    let n: Result<Krates, krates::Error> =
        guarded(|| observe::builder(u, c).build_with_metadata(m.md, krates::NoneFilter)).map_err(|p| format!("panic: {p}"))?;
    let (a, b, n) = match (a, b, n) {
        (Ok(a), Ok(b), Ok(n)) => (a, b, n),
        (Err(observe::Fail::NoRoot), Err(krates::Error::NoRootKrates), Err(krates::Error::NoRootKrates)) => return Ok(()),
        (a, b, n) => return Err(format!("failures differ: {:?}, {:?}, {:?}", a.err(), b.err(), n.err())),
    };
    let label = |n: &Node<cm::Package>| match n {
        Node::Krate { krate, features, dep_mapping, .. } => format!("{} {features:?} {dep_mapping:?}", krate.id.repr),
        Node::Feature { krate_index, name } => format!("{krate_index:?}/{name}"),
    };
    let mine = |n: &Node<Mine>| match n {
        Node::Krate { krate, features, dep_mapping, .. } => format!("{} {features:?} {dep_mapping:?}", krate.id),
        Node::Feature { krate_index, name } => format!("{krate_index:?}/{name}"),
    };
    for p in a.krates.krates().chain(&a.filtered).chain(n.krates()) {
        if original(&p.id.repr) != Some(&to_json(p)) {
            return Err(format!("package {} was changed: {}, it was {:?}", p.id.repr, to_json(p), original(&p.id.repr)));
        }
    }
    let ga = a.krates.graph();
    let gb = b.graph();
    let gn = n.graph();
    let nodes: Vec<String> = ga.raw_nodes().iter().map(|n| label(&n.weight)).collect();
    if nodes != gb.raw_nodes().iter().map(|n| mine(&n.weight)).collect::<Vec<_>>() {
        return Err(format!("nodes of a graph of other types differ: {:?}", gb.raw_nodes().iter().map(|n| mine(&n.weight)).collect::<Vec<_>>()));
    }
    if nodes != gn.raw_nodes().iter().map(|n| label(&n.weight)).collect::<Vec<_>>() {
        return Err("nodes of a graph without filter callback differ".into());
    }
    let ends = |s: NodeId, t: NodeId, e: String| (s.index(), t.index(), e);
    let mut ea: Vec<_> = ga.raw_edges().iter().map(|e| ends(e.source(), e.target(), format!("{:?}", e.weight))).collect();
    let mut eb: Vec<_> = gb.raw_edges().iter().map(|e| ends(e.source(), e.target(), e.weight.0.clone())).collect();
    let mut en: Vec<_> = gn.raw_edges().iter().map(|e| ends(e.source(), e.target(), format!("{:?}", e.weight))).collect();
    ea.sort();
    eb.sort();
    en.sort();
    if ea != eb || ea != en {
        return Err("edges of a graph of other types differ".into());
    }
    let ids = |v: &[cm::Package]| v.iter().map(|p| p.id.repr.clone()).collect::<std::collections::BTreeSet<_>>();
    if ids(&a.filtered) != ids(&filtered) {
        return Err("the filter callback was called for other packages with a graph of other types".into());
    }
    if CONVERTED.get() != b.len() {
        return Err(format!("{} conversions for {} crates", CONVERTED.get(), b.len()));
    }
    for k in a.krates.krates() {
        let by = |k: krates::NodeId| k.index();
        let x: Vec<_> = a.krates.krates_by_name(&k.name).map(|m| by(m.node_id)).collect();
        let y: Vec<_> = b.krates_by_name(&k.name).map(|m| by(m.node_id)).collect();
        let req: krates::semver::VersionReq = format!("={}", k.version).parse().unwrap();
        let s: Vec<_> = a.krates.search_matches(&k.name, req.clone()).map(|m| by(m.node_id)).collect();
        let t: Vec<_> = b.search_matches(&k.name, req).map(|m| by(m.node_id)).collect();
        if x != y || s != t || s.is_empty() {
            return Err(format!("searches for {} differ", k.name));
        }
    }
    o.digest = hash64(&(&nodes, &ea));
    Ok(())
}

impl Space for PayloadSpace {
    type St = St;
    fn name(&self) -> String {
        self.name.to_owned()
    }
    fn bases(&self) -> Vec<St> {
        bases::all().into_iter().map(|(_, u)| (u, Config::default())).collect()
    }
    fn successors(&self, s: &St, f: &mut dyn FnMut(St)) {
        edits::successors(s, &self.groups, f)
    }
    fn check(&self, (u, c): &St) -> Outcome {
        let mut o = Outcome::default();
        let Ok(r) = resolve(u) else {
            o.invalid = true;
            return o;
        };
        if let Err(e) = one(u, &r, c, &mut o) {
            o.violation = Some(format!("{e} [config:{}]", cfg_key(c)));
        }
        o
    }
    fn show(&self, (u, c): &St) -> String {
        format!("{}{}", show(u), cfg_key(c))
    }
    fn dump(&self, (u, c): &St) -> String {
        match resolve(u) {
            Ok(r) => serde_json::to_string(&metadata(u, &r, c.opaque).md).unwrap(),
            Err(e) => e.to_owned(),
        }
    }
}

/// Without a resolution there is no graph, whatever the builder was told
pub fn unresolved(r: &mut Run) {
    let all: Vec<(Universe, Resolved, Vec<Config>)> = bases::all()
        .into_iter()
        .map(|(_, u)| {
            let r = resolve(&u).unwrap();
            let c = crate::configs::cross(&u, &Config::default());
            (u, r, c)
        })
        .collect();
    let per = all.iter().map(|a| a.2.len()).max().unwrap() as u64;
    r.flat(
        "metadata without a resolution or packages",
        4 * per * all.len() as u64,
        |i| {
            let mut o = Outcome::default();
            let (i, form) = (i / 4, i % 4);
            let (u, res, cs) = &all[(i / per) as usize];
            let Some(c) = cs.get((i % per) as usize) else {
                o.invalid = true;
                return o;
            };
            let mut m = metadata(u, res, c.opaque);
            // As is, without packages, without members, and a workspace without members
            if form & 1 != 0 {
                m.md.packages.clear();
            }
            if form & 2 != 0 {
                m.md.workspace_members.clear();
            }
            m.md.resolve = (form == 3).then(|| cm::Resolve { nodes: Vec::new(), root: None });
            o.runs += 1;
            o.digest = 1;
            match guarded(|| observe::run(observe::builder(u, c), m.md)) {
                Err(p) => o.violation = Some(format!("panic: {p}")),
                Ok(Err(observe::Fail::NoRoot)) if form == 3 => {}
                Ok(Err(observe::Fail::NoResolve)) if form != 3 => {}
                Ok(Err(e)) => o.violation = Some(format!("failed with {e:?}")),
                Ok(Ok(_)) => o.violation = Some("a graph without a resolution".into()),
            }
            o
        },
        |i| {
            let (i, form) = (i / 4, i % 4);
            let a = &all[(i / per) as usize];
            format!("{}{} form {form}", show(&a.0), cfg_key(&a.2[(i % per) as usize]))
        },
    );
}

pub fn carried(r: &mut Run, name: S, groups: &[G], depth: usize) {
    r.bfs(&PayloadSpace { name, groups: groups.to_vec() }, depth);
}
