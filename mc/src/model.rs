//! The abstract state: a small cargo universe (packages, declared dependencies,
//! features, workspace) plus the exact rules by which `cargo metadata` turns it
//! into metadata ("mini cargo"). `conform` checks this model against the real
//! `cargo metadata`.
use krates::cm;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

pub type S = &'static str;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Kind {
    Normal,
    Dev,
    Build,
}

impl Kind {
    pub const ALL: [Kind; 3] = [Kind::Normal, Kind::Build, Kind::Dev];
    pub fn dk(self) -> cm::DependencyKind {
        match self {
            Kind::Normal => cm::DependencyKind::Normal,
            Kind::Dev => cm::DependencyKind::Development,
            Kind::Build => cm::DependencyKind::Build,
        }
    }
    pub fn krates(self) -> krates::DepKind {
        match self {
            Kind::Normal => krates::DepKind::Normal,
            Kind::Dev => krates::DepKind::Dev,
            Kind::Build => krates::DepKind::Build,
        }
    }
    pub fn from_krates(k: krates::DepKind) -> Self {
        match k {
            krates::DepKind::Normal => Kind::Normal,
            krates::DepKind::Dev => Kind::Dev,
            krates::DepKind::Build => Kind::Build,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[derive(PartialOrd, Ord)]
pub enum Src {
    CratesIo,
    /// An alternative registry, by index url
    Registry(S),
    /// url, (query key, query value as written in the manifest)
    Git(S, Option<(S, S)>),
    Path,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Lib {
    Plain,
    /// `[lib] name = ".."` with the crate type(s) given
    Named(S, S),
    Kind(S),
    /// No library target at all
    BinOnly,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Decl {
    pub to: usize,
    pub rename: Option<S>,
    pub kind: Kind,
    pub optional: bool,
    pub default: bool,
    pub feats: Vec<S>,
    pub target: Option<S>,
    /// None: derived from the source and version
    pub req: Option<S>,
    /// Declared as a crates.io dependency that the workspace patches
    pub patched: bool,
}

impl Decl {
    /// The source that is declared
    pub fn src(&self, u: &Universe) -> Src {
        if self.patched { Src::CratesIo } else { u.pkgs[self.to].src }
    }

    pub fn req(&self, u: &Universe) -> String {
        match (self.req, self.src(u)) {
            (Some(r), _) => r.to_owned(),
            (None, Src::Path | Src::Git(..)) => "*".into(),
            _ => format!("^{}", u.pkgs[self.to].ver.split('+').next().unwrap()),
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Pkg {
    pub name: S,
    pub ver: S,
    pub src: Src,
    /// Directory for path packages
    pub dir: S,
    pub lib: Lib,
    pub decls: Vec<Decl>,
    pub feats: BTreeMap<S, Vec<S>>,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Cli {
    Default,
    NoDefault,
    All,
    /// --no-default-features --features X
    Only(S),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Universe {
    pub pkgs: Vec<Pkg>,
    pub members: Vec<usize>,
    pub root: Option<usize>,
    pub cli: Cli,
    /// `cargo metadata --filter-platform <triple>`
    pub platform: Option<S>,
}

pub fn under(s: &str) -> String {
    s.replace('-', "_")
}

impl Universe {
    pub fn toml<'u>(&'u self, d: &Decl) -> S {
        d.rename.unwrap_or(self.pkgs[d.to].name)
    }

    /// The resolved dependency is part of the metadata: cargo lists every
    /// declaration of a package if at least one applies to the platform
    pub fn in_metadata(&self, r: &Resolved, p: usize, i: usize) -> bool {
        let d = &self.pkgs[p].decls[i];
        r.decl[p][i]
            && self.pkgs[d.to].lib != Lib::BinOnly
            && self.platform.is_none_or(|t| {
                self.pkgs[p].decls.iter().enumerate().any(|(j, e)| {
                    e.to == d.to && r.decl[p][j] && e.target.is_none_or(|c| crate::cfgmodel::applies(c, t, &[]))
                })
            })
    }

    pub fn is_member(&self, p: usize) -> bool {
        self.members.contains(&p)
    }

    /// Declared plus implicit features, exactly as `Summary::new` builds them
    pub fn fmap(&self, p: usize) -> BTreeMap<S, Vec<String>> {
        let pkg = &self.pkgs[p];
        let mut m: BTreeMap<S, Vec<String>> = pkg
            .feats
            .iter()
            .map(|(k, v)| (*k, v.iter().map(|s| s.to_string()).collect()))
            .collect();
        let explicit: BTreeSet<&str> = pkg
            .feats
            .values()
            .flatten()
            .filter_map(|e| e.strip_prefix("dep:"))
            .collect();
        for d in &pkg.decls {
            if !d.optional {
                continue;
            }
            let t = self.toml(d);
            if pkg.feats.contains_key(t) || explicit.contains(t) {
                continue;
            }
            m.insert(t, vec![format!("dep:{t}")]);
        }
        m
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Entry<'a> {
    Simple(&'a str),
    Dep(&'a str),
    Strong(&'a str, &'a str),
    Weak(&'a str, &'a str),
}

/// The feature value grammar of the cargo book, written independently
pub fn entry(e: &str) -> Entry<'_> {
    if let Some(d) = e.strip_prefix("dep:") {
        return Entry::Dep(d);
    }
    match e.split_once('/') {
        None => Entry::Simple(e),
        Some((d, f)) => match d.strip_suffix('?') {
            Some(d) => Entry::Weak(d, f),
            None => Entry::Strong(d, f),
        },
    }
}

/// What cargo's resolver decided
#[derive(Clone, Debug)]
pub struct Resolved {
    /// Package is reachable
    pub active: Vec<bool>,
    pub feats: Vec<BTreeSet<String>>,
    /// Declaration is part of the resolve
    pub decl: Vec<Vec<bool>>,
    pub fmap: Vec<BTreeMap<S, Vec<String>>>,
}

/// Static manifest rules cargo enforces. `Err` = cargo would reject the universe.
pub fn validate(u: &Universe) -> Result<(), &'static str> {
    if u.members.is_empty() {
        return Err("no members");
    }
    if let Some(r) = u.root
        && !u.is_member(r)
    {
        return Err("root not a member");
    }
    for (i, p) in u.pkgs.iter().enumerate() {
        if p.src == Src::Path && p.dir == "/nx/ws" && (!u.is_member(i) || u.root.is_none()) {
            return Err("the package at the workspace root is a member and the current package");
        }
    }
    let repo = |p: &Pkg| match p.src {
        Src::Git(u, _) => Some(u),
        _ => None,
    };
    for (i, p) in u.pkgs.iter().enumerate() {
        if u.pkgs[..i].iter().any(|q| match (repo(p), repo(q)) {
            (Some(a), Some(b)) => a != b && a.trim_end_matches(".git") == b.trim_end_matches(".git"),
            _ => false,
        }) {
            return Err("one repository spelled in two ways");
        }
    }
    // package identity is unique
    for (i, p) in u.pkgs.iter().enumerate() {
        for q in &u.pkgs[..i] {
            if p.name == q.name {
                let same_src = p.src == q.src && (p.src != Src::Path || p.dir == q.dir);
                if same_src && p.ver == q.ver {
                    return Err("duplicate package");
                }
                if p.src == Src::Path && q.src == Src::Path && p.dir == q.dir {
                    return Err("two packages in one directory");
                }
                if p.src == Src::Path && q.src == Src::Path && p.ver == q.ver {
                    return Err("two path packages with one name and version");
                }
                if same_src && matches!(p.src, Src::Git(..)) {
                    return Err("a git source holds one version of a package");
                }
            }
            if p.src == Src::Path && q.src == Src::Path && p.dir == q.dir {
                return Err("two packages in one directory");
            }
        }
    }
    for m in &u.members {
        if u.pkgs[*m].src != Src::Path {
            return Err("member must be a path package");
        }
    }
    for (i, p) in u.members.iter().enumerate() {
        if u.members[..i].iter().any(|q| u.pkgs[*q].name == u.pkgs[*p].name) {
            return Err("two workspace members with one name");
        }
    }
    for (pi, p) in u.pkgs.iter().enumerate() {
        for (i, d) in p.decls.iter().enumerate() {
            if d.to == pi && !(d.kind == Kind::Dev) {
                return Err("self dependency");
            }
            if d.optional && d.kind == Kind::Dev {
                return Err("optional dev dependency");
            }
            let q = &u.pkgs[d.to];
            let src = d.src(u);
            if d.patched {
                if !matches!(q.src, Src::Path | Src::Git(..)) {
                    return Err("only path and git packages patch others");
                }
                let same = |x: usize| x != d.to && u.pkgs[x].name == q.name && compat(u.pkgs[x].ver) == compat(q.ver);
                if (0..u.pkgs.len()).any(|x| {
                    same(x) && (u.pkgs[x].src == Src::CratesIo || u.pkgs.iter().any(|p| p.decls.iter().any(|d| d.to == x && d.patched)))
                }) {
                    return Err("a patched package next to a compatible one");
                }
                // If only one of them is enabled, the metadata doesn't say which
                let lib = q.lib_name();
                let extern_name = d.rename.map(under).or(lib.clone());
                let v: semver::Version = q.ver.parse().map_err(|_| "bad version")?;
                if p.decls.iter().any(|e| {
                    e.to != d.to
                        && u.pkgs[e.to].name == q.name
                        && e.src(u) != Src::Path
                        && e.rename.map(under).or(lib.clone()) == extern_name
                        && (e.req(u) == "*" || e.req(u).parse::<semver::VersionReq>().is_ok_and(|r| r.matches(&v)))
                }) {
                    return Err("a patched package another dependency could have resolved to");
                }
            }
            if p.src != Src::Path && src == Src::Path {
                return Err("registry/git package with a path dependency");
            }
            if matches!(p.src, Src::CratesIo) && !matches!(src, Src::CratesIo) {
                return Err("crates.io package with foreign dependency");
            }
            if matches!(p.src, Src::Registry(_)) && !matches!(src, Src::CratesIo | Src::Registry(_))
            {
                return Err("registry package with foreign dependency");
            }
            for e in &p.decls[..i] {
                let (td, te) = (u.toml(d), u.toml(e));
                if td == te && d.kind == e.kind && d.target == e.target {
                    return Err("duplicate key in a dependency table");
                }
                let r = &u.pkgs[e.to];
                if td == te && (src != e.src(u) || (src == Src::Path && q.dir != r.dir)) {
                    return Err("one dependency name with two sources");
                }
            }
            if let Some(r) = d.req {
                let req: semver::VersionReq = r.parse().map_err(|_| "bad req")?;
                let v: semver::Version = q.ver.parse().map_err(|_| "bad version")?;
                if !req.matches(&v) && !(matches!(src, Src::Path | Src::Git(..)) && r == "*") {
                    return Err("requirement does not match");
                }
            }
        }
        // Features
        let fm = u.fmap(pi);
        let mut used = BTreeSet::new();
        let deps: BTreeMap<S, bool> = p.decls.iter().fold(BTreeMap::new(), |mut m, d| {
            *m.entry(u.toml(d)).or_default() |= d.optional;
            m
        });
        for (f, vs) in &fm {
            for v in vs {
                match entry(v) {
                    Entry::Simple(s) => {
                        if s == *f {
                            return Err("self cycle");
                        }
                        if !fm.contains_key(s) {
                            return Err("unknown feature in feature");
                        }
                    }
                    Entry::Dep(x) => {
                        if deps.get(x) != Some(&true) {
                            return Err("dep: of a non optional dependency");
                        }
                        used.insert(x.to_owned());
                    }
                    Entry::Strong(x, _) => {
                        if !deps.contains_key(x) {
                            return Err("x/f of an unknown dependency");
                        }
                        used.insert(x.to_owned());
                    }
                    Entry::Weak(x, _) => {
                        if deps.get(x) != Some(&true) {
                            return Err("x?/f of a non optional dependency");
                        }
                        used.insert(x.to_owned());
                    }
                }
            }
        }
        for (x, opt) in &deps {
            if *opt && !used.contains(*x) {
                return Err("optional dependency in no feature");
            }
        }
    }
    Ok(())
}

/// Cargo's (v1) feature resolution over a fixed package assignment
pub fn resolve(u: &Universe) -> Result<Resolved, &'static str> {
    validate(u)?;
    let n = u.pkgs.len();
    let fmap: Vec<_> = (0..n).map(|p| u.fmap(p)).collect();
    if let Cli::Only(f) = u.cli
        && !u.members.iter().any(|m| fmap[*m].contains_key(f))
    {
        return Err("no member has the requested feature");
    }
    // The lock file is generated with every feature of every member enabled
    let all = fixpoint(u, fmap.clone(), Cli::All)?;
    structural(u, &all)?;
    let r = if u.cli == Cli::All { all } else { fixpoint(u, fmap, u.cli)? };
    two_names(u, &r)?;
    Ok(r)
}

/// Both declarations of a package under different names can't be in use
fn two_names(u: &Universe, r: &Resolved) -> Result<(), &'static str> {
    for (p, used) in u.pkgs.iter().zip(&r.decl) {
        for (i, d) in p.decls.iter().enumerate() {
            let Some(lib) = u.pkgs[d.to].lib_name() else { continue };
            let extern_name = |d: &Decl| d.rename.map_or(lib.clone(), under);
            if (0..i).any(|j| used[i] && used[j] && p.decls[j].to == d.to && extern_name(&p.decls[j]) != extern_name(d)) {
                return Err("same package under two names");
            }
        }
    }
    Ok(())
}

fn fixpoint(u: &Universe, fmap: Vec<BTreeMap<S, Vec<String>>>, cli: Cli) -> Result<Resolved, &'static str> {
    let n = u.pkgs.len();
    let mut r = Resolved {
        active: vec![false; n],
        feats: vec![BTreeSet::new(); n],
        decl: u.pkgs.iter().map(|p| vec![false; p.decls.len()]).collect(),
        fmap,
    };
    // (package, toml name) -> requested features
    let mut reqs: Vec<BTreeMap<String, BTreeSet<String>>> = vec![BTreeMap::new(); n];
    let mut work: Vec<(usize, Option<String>)> = Vec::new();
    for &m in &u.members {
        work.push((m, None));
        match cli {
            Cli::Default => {
                if r.fmap[m].contains_key("default") {
                    work.push((m, Some("default".into())));
                }
            }
            Cli::NoDefault => {}
            Cli::All => work.extend(r.fmap[m].keys().map(|f| (m, Some(f.to_string())))),
            Cli::Only(f) => {
                if r.fmap[m].contains_key(f) {
                    work.push((m, Some(f.into())));
                }
            }
        }
    }
    // What the features asked for on the command line request of the dependencies
    // of a member: only that is considered for dev-dependencies
    let mut cli_reqs: Vec<BTreeMap<String, BTreeSet<String>>> = vec![BTreeMap::new(); n];
    for &m in &u.members {
        let mut todo: Vec<String> = work.iter().filter(|w| w.0 == m).filter_map(|w| w.1.clone()).collect();
        let mut seen = BTreeSet::new();
        while let Some(f) = todo.pop() {
            let vs = r.fmap[m].get(f.as_str()).into_iter().flatten();
            if seen.insert(f.clone()) {
                for v in vs {
                    match entry(v) {
                        Entry::Simple(s) => todo.push(s.to_owned()),
                        Entry::Dep(_) => {}
                        Entry::Strong(x, g) => {
                            if u.pkgs[m].decls.iter().any(|d| d.optional && u.toml(d) == x) {
                                todo.push(x.to_owned());
                            }
                            cli_reqs[m].entry(x.to_owned()).or_default().insert(g.to_owned());
                        }
                        Entry::Weak(x, g) => {
                            cli_reqs[m].entry(x.to_owned()).or_default().insert(g.to_owned());
                        }
                    }
                }
            }
        }
    }
    while let Some((p, f)) = work.pop() {
        r.active[p] = true;
        if let Some(f) = f {
            let Some(vs) = r.fmap[p].get(f.as_str()) else {
                return Err("requested feature does not exist");
            };
            if !r.feats[p].insert(f) {
                continue;
            }
            for v in vs {
                match entry(v) {
                    Entry::Simple(s) => work.push((p, Some(s.to_owned()))),
                    Entry::Dep(x) => {
                        reqs[p].entry(x.to_owned()).or_default();
                    }
                    Entry::Strong(x, g) => {
                        if u.pkgs[p].decls.iter().any(|d| d.optional && u.toml(d) == x)
                            && r.fmap[p].contains_key(x)
                        {
                            work.push((p, Some(x.to_owned())));
                        }
                        reqs[p].entry(x.to_owned()).or_default().insert(g.to_owned());
                    }
                    Entry::Weak(x, g) => {
                        reqs[p].entry(x.to_owned()).or_default().insert(g.to_owned());
                    }
                }
            }
        }
        for (i, d) in u.pkgs[p].decls.iter().enumerate() {
            if d.kind == Kind::Dev && !u.is_member(p) {
                continue;
            }
            let toml = u.toml(d);
            if d.optional && !reqs[p].contains_key(toml) {
                continue;
            }
            if !r.decl[p][i] {
                r.decl[p][i] = true;
                work.push((d.to, None));
                for f in &d.feats {
                    work.push((d.to, Some(f.to_string())));
                }
                if d.default && r.fmap[d.to].contains_key("default") {
                    work.push((d.to, Some("default".into())));
                }
            }
            let asked = if d.kind == Kind::Dev { &cli_reqs } else { &reqs };
            if let Some(fs) = asked[p].get(toml) {
                for f in fs {
                    if !r.feats[d.to].contains(f) {
                        work.push((d.to, Some(f.clone())));
                    }
                }
            }
        }
    }
    Ok(r)
}

fn structural(u: &Universe, r: &Resolved) -> Result<(), &'static str> {
    let n = u.pkgs.len();
    // Cycles: cargo only allows them through dev-dependencies
    let mut color = vec![0u8; n];
    fn dfs(u: &Universe, r: &Resolved, p: usize, color: &mut [u8]) -> bool {
        color[p] = 1;
        for (i, d) in u.pkgs[p].decls.iter().enumerate() {
            if d.kind == Kind::Dev || !r.decl[p][i] {
                continue;
            }
            if color[d.to] == 1 || (color[d.to] == 0 && !dfs(u, r, d.to, color)) {
                return false;
            }
        }
        color[p] = 2;
        true
    }
    for p in 0..n {
        if r.active[p] && color[p] == 0 && !dfs(u, r, p, &mut color) {
            return Err("cycle");
        }
    }
    // One semver compatible version per registry package
    for i in 0..n {
        for j in 0..i {
            let (a, b) = (&u.pkgs[i], &u.pkgs[j]);
            if r.active[i]
                && r.active[j]
                && a.name == b.name
                && a.src == b.src
                && a.src != Src::Path
                && compat(a.ver) == compat(b.ver)
            {
                return Err("two compatible versions");
            }
        }
    }
    Ok(())
}

fn compat(v: &str) -> (u64, u64, u64) {
    let v: semver::Version = v.parse().unwrap();
    if v.major > 0 {
        (v.major, 0, 0)
    } else if v.minor > 0 {
        (0, v.minor, 0)
    } else {
        (0, 0, v.patch)
    }
}

pub const CRATES_IO: &str = "registry+https://github.com/rust-lang/crates.io-index";
pub const REV: &str = "b2e7622942e52a28ffa85cdaf48e28e982bb6923";

fn pct(s: &str) -> String {
    // application/x-www-form-urlencoded as the `url` crate does it
    let mut o = String::new();
    for b in s.bytes() {
        match b {
            b'*' | b'-' | b'.' | b'_' | b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' => o.push(b as char),
            b' ' => o.push('+'),
            _ => write!(o, "%{b:02X}").unwrap(),
        }
    }
    o
}

impl Pkg {
    /// Url of the source as used in package ids. `encoded`: percent encoded query
    pub fn url(&self, encoded: bool) -> String {
        match self.src {
            Src::CratesIo => CRATES_IO.into(),
            Src::Registry(u) => u.into(),
            Src::Git(u, None) => format!("git+{u}"),
            Src::Git(u, Some((k, v))) => {
                format!("git+{u}?{k}={}", if encoded { pct(v) } else { v.into() })
            }
            Src::Path => format!("path+file://{}", self.dir),
        }
    }

    pub fn id(&self, opaque: bool) -> String {
        if opaque {
            let mut u = self.url(false);
            if matches!(self.src, Src::Git(..)) {
                write!(u, "#{REV}").unwrap();
            }
            format!("{} {} ({u})", self.name, self.ver)
        } else {
            let u = self.url(true);
            let last = match self.src {
                Src::Git(u, _) => u.rsplit('/').next().unwrap(),
                Src::Registry(u) => u.rsplit('/').next().unwrap(),
                Src::Path => self.dir.rsplit('/').next().unwrap(),
                Src::CratesIo => "crates.io-index",
            };
            if last == self.name {
                format!("{u}#{}", self.ver)
            } else {
                format!("{u}#{}@{}", self.name, self.ver)
            }
        }
    }

    pub fn source(&self) -> Option<String> {
        match self.src {
            Src::CratesIo => Some(CRATES_IO.into()),
            Src::Registry(u) => Some(u.into()),
            Src::Git(..) => Some(format!("{}#{REV}", self.url(false))),
            Src::Path => None,
        }
    }

    /// Whether both are in one git repository, where the dependency is a path
    pub fn same_repo(&self, other: &Pkg) -> bool {
        matches!(self.src, Src::Git(..)) && self.src == other.src
    }

    /// `source` of a declaration of `from` that points here
    pub fn decl_source(&self, from: &Pkg, d: &Decl) -> Option<String> {
        match self.src {
            _ if d.patched => Some(CRATES_IO.into()),
            Src::Path => None,
            _ if self.same_repo(from) => self.source(),
            _ => Some(self.url(false)),
        }
    }

    pub fn manifest_dir(&self) -> String {
        match self.src {
            Src::Path => self.dir.into(),
            Src::Git(..) => format!("/nx/git/{}", self.name),
            _ => format!("/nx/reg/{}-{}", self.name, self.ver),
        }
    }

    pub fn lib_name(&self) -> Option<String> {
        match self.lib {
            Lib::Plain | Lib::Kind(_) => Some(under(self.name)),
            Lib::Named(n, _) => Some(n.into()),
            Lib::BinOnly => None,
        }
    }

}

/// The package has a binary and a build script
pub fn more_targets(name: &str) -> bool {
    name.as_bytes()[0] % 2 == 1
}

pub struct Metas {
    pub md: cm::Metadata,
    /// package index -> id
    pub ids: Vec<String>,
}

/// Builds the metadata cargo would print
pub fn metadata(u: &Universe, r: &Resolved, opaque: bool) -> Metas {
    let ids: Vec<String> = u.pkgs.iter().map(|p| p.id(opaque)).collect();
    let pid = |p: usize| cm::PackageId { repr: ids[p].clone() };
    let listed = listed(u, r);

    let mut packages = Vec::new();
    let mut nodes = Vec::new();
    for (pi, p) in u.pkgs.iter().enumerate() {
        if !listed[pi] {
            continue;
        }
        let dir = p.manifest_dir();
        let lib = p.lib_name().map(|name| {
            let kind = match p.lib {
                Lib::Plain | Lib::BinOnly => "lib",
                Lib::Kind(k) | Lib::Named(_, k) => k,
            };
            cm::Target {
                name,
                kind: kind.split('+').map(kind_of).collect(),
                crate_types: kind.split('+').map(crate_type_of).collect(),
                required_features: Vec::new(),
                src_path: format!("{dir}/src/lib.rs").into(),
                edition: cm::Edition::E2021,
                doctest: true,
                test: true,
                doc: true,
            }
        });
        let bin = |name: &str, kind, path: &str, test| cm::Target {
            name: name.into(),
            kind: vec![kind],
            crate_types: vec![cm::CrateType::Bin],
            required_features: Vec::new(),
            src_path: format!("{dir}/{path}").into(),
            edition: cm::Edition::E2021,
            doctest: false,
            test,
            doc: test,
        };
        let others = [
            (p.lib == Lib::BinOnly || more_targets(p.name)).then(|| bin(p.name, cm::TargetKind::Bin, "src/main.rs", true)),
            more_targets(p.name).then(|| bin("build-script-build", cm::TargetKind::CustomBuild, "build.rs", false)),
        ];
        packages.push(cm::Package {
            name: p.name.into(),
            version: p.ver.parse().unwrap(),
            authors: Vec::new(),
            id: pid(pi),
            source: p.source().map(|repr| cm::Source { repr }),
            description: None,
            dependencies: p
                .decls
                .iter()
                .map(|d| {
                    let q = &u.pkgs[d.to];
                    cm::Dependency {
                        name: q.name.into(),
                        source: q.decl_source(p, d),
                        req: d.req(u).parse().unwrap(),
                        kind: d.kind.dk(),
                        optional: d.optional,
                        uses_default_features: d.default,
                        features: d.feats.iter().map(|s| s.to_string()).collect(),
                        target: d.target.map(|s| s.to_owned()),
                        rename: d.rename.map(|s| s.to_owned()),
                        registry: match q.src {
                            Src::Registry(u) => Some(u.trim_start_matches("registry+").to_owned()),
                            _ => None,
                        },
                        path: (q.src == Src::Path && !d.patched).then(|| q.dir.into()),
                    }
                })
                .collect(),
            license: None,
            license_file: None,
            targets: lib.into_iter().chain(others.into_iter().flatten()).collect(),
            features: r.fmap[pi]
                .iter()
                .map(|(k, v)| (k.to_string(), v.clone()))
                .collect(),
            manifest_path: format!("{dir}/Cargo.toml").into(),
            categories: Vec::new(),
            keywords: Vec::new(),
            readme: None,
            repository: None,
            homepage: None,
            documentation: None,
            edition: cm::Edition::E2021,
            metadata: Default::default(),
            links: None,
            publish: None,
            default_run: None,
            rust_version: None,
        });

        let mut deps: Vec<(usize, cm::NodeDep)> = Vec::new();
        for (i, d) in p.decls.iter().enumerate() {
            if !u.in_metadata(r, pi, i) {
                continue;
            }
            let q = &u.pkgs[d.to];
            let Some(lib) = q.lib_name() else { continue };
            let info = cm::DepKindInfo {
                kind: d.kind.dk(),
                target: d.target.map(|s| s.to_owned()),
            };
            if let Some((_, nd)) = deps.iter_mut().find(|(to, _)| *to == d.to) {
                nd.dep_kinds.push(info);
            } else {
                deps.push((
                    d.to,
                    cm::NodeDep {
                        name: d.rename.map_or(lib, under),
                        pkg: pid(d.to),
                        dep_kinds: vec![info],
                    },
                ));
            }
        }
        deps.sort_by(|a, b| (u.pkgs[a.0].name, u.pkgs[a.0].ver, a.0).cmp(&(u.pkgs[b.0].name, u.pkgs[b.0].ver, b.0)));
        for (_, d) in &mut deps {
            d.dep_kinds
                .sort_by(|a, b| (kind_ord(a.kind), &a.target).cmp(&(kind_ord(b.kind), &b.target)));
        }
        nodes.push(cm::Node {
            id: pid(pi),
            dependencies: deps.iter().map(|(_, d)| d.pkg.clone()).collect(),
            deps: deps.into_iter().map(|(_, d)| d).collect(),
            features: r.feats[pi].iter().cloned().collect(),
        });
    }

    let md = cm::Metadata {
        packages,
        workspace_members: u.members.iter().map(|m| pid(*m)).collect(),
        workspace_default_members: cm::WorkspaceDefaultMembers(Some(
            u.members.iter().map(|m| pid(*m)).collect(),
        )),
        resolve: Some(cm::Resolve {
            nodes,
            root: u.root.map(pid),
        }),
        workspace_root: "/nx/ws".into(),
        target_directory: "/nx/ws/target".into(),
        workspace_metadata: Default::default(),
        version: 1,
    };
    Metas { md, ids }
}

/// Where `/nx` really is
pub struct Place {
    pub dir: S,
    /// The url of `dir`, without `file://`
    pub url: S,
    pub windows: bool,
}

pub const PLACES: &[Place] = &[
    Place { dir: "/nx", url: "/nx", windows: false },
    Place { dir: "C:\\nx", url: "/C:/nx", windows: true },
    Place { dir: "/my dir/100% é#1@2", url: "/my%20dir/100%25%20%C3%A9%231@2", windows: false },
    Place { dir: "D:\\my dir\\é", url: "/D:/my%20dir/%C3%A9", windows: true },
];

/// A directory as cargo writes it in a url
pub fn dir_url(dir: &str) -> String {
    let mut o = String::new();
    for b in dir.bytes() {
        match b {
            b' ' | b'"' | b'#' | b'<' | b'>' | b'?' | b'`' | b'{' | b'}' | b'%' | 0x7f.. | ..0x20 => write!(o, "%{b:02X}").unwrap(),
            _ => o.push(b.into()),
        }
    }
    o
}

impl Place {
    /// The path under `/nx` as it is called here
    fn path(&self, p: &mut krates::Utf8PathBuf) {
        let Some(rest) = p.as_str().strip_prefix("/nx") else { return };
        *p = if self.windows {
            format!("{}{}", self.dir, rest.replace('/', "\\")).into()
        } else {
            format!("{}{rest}", self.dir).into()
        };
    }

    fn id(&self, id: &str) -> String {
        id.replace("path+file:///nx/", &format!("path+file://{}/", self.url))
    }

    pub fn relocate(&self, m: &mut Metas) {
        if self.dir == "/nx" {
            return;
        }
        let id = |id: &mut cm::PackageId| id.repr = self.id(&id.repr);
        for i in &mut m.ids {
            *i = self.id(i);
        }
        let md = &mut m.md;
        self.path(&mut md.workspace_root);
        self.path(&mut md.target_directory);
        md.workspace_members.iter_mut().chain(md.workspace_default_members.0.iter_mut().flatten()).for_each(id);
        for p in &mut md.packages {
            id(&mut p.id);
            self.path(&mut p.manifest_path);
            p.targets.iter_mut().for_each(|t| self.path(&mut t.src_path));
            p.dependencies.iter_mut().filter_map(|d| d.path.as_mut()).for_each(|p| self.path(p));
        }
        let r = md.resolve.as_mut().unwrap();
        r.root.iter_mut().for_each(id);
        for n in &mut r.nodes {
            id(&mut n.id);
            n.dependencies.iter_mut().for_each(id);
            n.deps.iter_mut().for_each(|d| id(&mut d.pkg));
        }
    }
}

/// Packages that appear in the metadata: reachable from a member through
/// dependencies that have a library target
pub fn listed(u: &Universe, r: &Resolved) -> Vec<bool> {
    let mut seen = vec![false; u.pkgs.len()];
    let mut st: Vec<usize> = u.members.clone();
    while let Some(p) = st.pop() {
        if std::mem::replace(&mut seen[p], true) {
            continue;
        }
        for (i, d) in u.pkgs[p].decls.iter().enumerate() {
            if u.in_metadata(r, p, i) {
                st.push(d.to);
            }
        }
    }
    seen
}

pub fn kind_ord(k: cm::DependencyKind) -> u8 {
    match k {
        cm::DependencyKind::Normal => 0,
        cm::DependencyKind::Development => 1,
        cm::DependencyKind::Build => 2,
    }
}

/// Human readable form used in samples and replay files
pub fn show(u: &Universe) -> String {
    let mut o = String::new();
    for (i, p) in u.pkgs.iter().enumerate() {
        write!(
            o,
            "[{}{} {} {}{}",
            if u.is_member(i) { "*" } else { "" },
            p.name,
            p.ver,
            match p.src {
                Src::CratesIo => "crates.io".to_owned(),
                Src::Path => format!("path {}", p.dir),
                _ => p.url(false),
            },
            if p.lib == Lib::Plain { String::new() } else { format!(" lib={:?}", p.lib) }
        )
        .unwrap();
        for d in &p.decls {
            write!(o, "; {}", u.toml(d)).unwrap();
            if d.rename.is_some() {
                write!(o, "=package:{}", u.pkgs[d.to].name).unwrap();
            }
            write!(o, "->{}", d.to).unwrap();
            write!(o, "({:?}", d.kind).unwrap();
            if d.patched {
                o.push_str(" patched");
            }
            if d.optional {
                o.push_str(" opt");
            }
            if !d.default {
                o.push_str(" nodef");
            }
            if !d.feats.is_empty() {
                write!(o, " feats={:?}", d.feats).unwrap();
            }
            if let Some(t) = d.target {
                write!(o, " {t}").unwrap();
            }
            if let Some(r) = d.req {
                write!(o, " req={r}").unwrap();
            }
            o.push(')');
        }
        for (f, v) in &p.feats {
            write!(o, "; {f}={v:?}").unwrap();
        }
        o.push_str("] ");
    }
    write!(o, "cli={:?} root={:?}", u.cli, u.root).unwrap();
    if let Some(p) = u.platform {
        write!(o, " --filter-platform {p}").unwrap();
    }
    o
}

fn kind_of(k: &str) -> cm::TargetKind {
    use cm::TargetKind::*;
    let all = [Bench, Bin, CustomBuild, CDyLib, DyLib, Example, Lib, ProcMacro, RLib, StaticLib, Test];
    all.into_iter().find(|x| target_kind(*x) == k).unwrap()
}

fn crate_type_of(k: &str) -> cm::CrateType {
    use cm::CrateType::*;
    match k {
        "bin" => Bin,
        "cdylib" => CDyLib,
        "dylib" => DyLib,
        "lib" => Lib,
        "proc-macro" => ProcMacro,
        "rlib" => RLib,
        "staticlib" => StaticLib,
        _ => panic!("crate type {k}"),
    }
}

pub fn target_kind(k: cm::TargetKind) -> &'static str {
    use cm::TargetKind::*;
    match k {
        Bench => "bench",
        Bin => "bin",
        CustomBuild => "custom-build",
        CDyLib => "cdylib",
        DyLib => "dylib",
        Example => "example",
        Lib => "lib",
        ProcMacro => "proc-macro",
        RLib => "rlib",
        StaticLib => "staticlib",
        Test => "test",
    }
}
