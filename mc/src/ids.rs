//! Package ids, package specs and feature entries: everything that is parsed
//! from a string, enumerated as token sequences or as products of components.
use crate::engine::{Outcome, guarded, hash64};
use crate::evidence::thorough;
use crate::run::Run;
use krates::cm;
use krates::{Feature, Kid, PackageId, ParsedFeature, PkgSpec};
use std::cmp::Ordering;
use std::hash::{DefaultHasher, Hash, Hasher};

fn fail(o: &mut Outcome, s: String) {
    o.violation.get_or_insert(s);
}

/// The i-th sequence of up to `max` tokens
pub fn sequence<'t>(toks: &[&'t str], mut i: u64) -> Vec<&'t str> {
    let n = toks.len() as u64;
    let mut len = 0;
    let mut count = 1;
    while i >= count {
        i -= count;
        count *= n;
        len += 1;
    }
    (0..len)
        .map(|_| {
            let t = toks[(i % n) as usize];
            i /= n;
            t
        })
        .collect()
}

pub fn sequences(toks: &[&str], max: u32) -> u64 {
    (0..=max).map(|l| (toks.len() as u64).pow(l)).sum()
}

// ------------------------------------------------------------ package specs
/// What other specifications of packages and versions are written with
const FOREIGN_TOKENS: &[&str] = &["foo", "1.0.0", "=", "^", "~", "*", "v", " ", ",", "@", ":", "x://h/", "#", "+", "git"];

const SPEC_TOKENS: &[&str] = &[
    "foo", "a-b_1", "1.2.3", "1.0.0-rc.1+b5", "1", "https", "://", "/", "#", "@", ":", ".", "\u{e9}", "?", "+", "2.0", "-",
];

#[derive(PartialEq, Debug)]
struct Spec {
    name: String,
    version: Option<String>,
    url: Option<String>,
}

/// The grammar of package specs:
/// `name`, `name@version`, `name:version`, or a url with a path, optionally
/// followed by `#` and one of those or a version on its own.
/// `Err(None)`: the string is not one this grammar says anything about.
fn spec(s: &str) -> Result<Spec, Option<&'static str>> {
    fn name(s: &str) -> Result<String, Option<&'static str>> {
        let ok = !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_');
        if ok { Ok(s.to_owned()) } else { Err(Some("name")) }
    }
    fn version(s: &str) -> Result<String, Option<&'static str>> {
        match s.parse::<krates::semver::Version>() {
            Ok(v) => Ok(v.to_string()),
            Err(_) => Err(Some("version")),
        }
    }
    /// name or name and version
    fn named(s: &str) -> Result<(String, Option<String>), Option<&'static str>> {
        match s.find(['@', ':']) {
            Some(i) => Ok((name(&s[..i])?, Some(version(&s[i + 1..])?))),
            None => Ok((name(s)?, None)),
        }
    }
    if !s.contains('/') {
        let (name, version) = named(s)?;
        return Ok(Spec { name, version, url: None });
    }
    let (url, fragment) = match s.split_once('#') {
        Some((u, f)) => (u, Some(f)),
        None => (s, None),
    };
    if s.matches("://").count() > 1 {
        return Err(None);
    }
    if !url.contains('/') {
        // The only slash is in the fragment, which nothing allows
        return Err(Some("fragment"));
    }
    let url = if s.contains("://") { url.to_owned() } else { format!("cargo://{url}") };
    let Some((scheme, rest)) = url.split_once("://") else {
        return Err(Some("scheme"));
    };
    if scheme.is_empty() {
        return Err(None);
    }
    let Some((_, path)) = rest.rsplit_once('/') else {
        return Err(Some("no path"));
    };
    if path.is_empty() {
        return Err(Some("no path"));
    }
    let last = path.to_owned();
    let (name, version) = match fragment {
        None => (name(&last)?, None),
        Some(f) if f.contains(['@', ':']) => named(f)?,
        Some(f) if f.starts_with(|c: char| c.is_alphabetic()) => (name(f)?, None),
        Some(f) => {
            let v = version(f)?;
            (name(&last)?, Some(v))
        }
    };
    Ok(Spec { name, version, url: Some(url) })
}

pub fn spec_parse(r: &mut Run) {
    spec_tokens(r, "token sequences as package specs", SPEC_TOKENS, if thorough() { 7 } else { 6 });
    spec_tokens(r, "foreign token sequences as package specs", FOREIGN_TOKENS, if thorough() { 7 } else { 6 });
}

fn spec_tokens(r: &mut Run, what: &'static str, tokens: &'static [&'static str], len: u32) {
    r.flat(
        what,
        sequences(tokens, len),
        |i| {
            let s = sequence(tokens, i).concat();
            let mut o = Outcome { runs: 1, ..Outcome::default() };
            let want = spec(&s);
            match guarded(|| s.parse::<PkgSpec>()) {
                Err(p) => fail(&mut o, format!("panic: {p}")),
                Ok(got) => {
                    let got = got.ok().map(|g| Spec { name: g.name, version: g.version.map(|v| v.to_string()), url: g.url });
                    o.digest = hash64(&got.as_ref().map(|g| (&g.name, &g.version, g.url.as_ref().map(|u| u.len()))));
                    match (&want, &got) {
                        (Err(None), _) => {}
                        (Ok(w), Some(g)) if w == g => {}
                        (Err(Some(_)), None) => {}
                        _ => fail(&mut o, format!("{s:?} parses to {got:?}, expected {want:?}")),
                    }
                }
            }
            o
        },
        |i| format!("{:?}", sequence(tokens, i).concat()),
    );
}

// ------------------------------------------------------------ package ids
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Id {
    name: String,
    version: String,
    /// As the identity of the package
    source: String,
}

/// A package, as cargo would name it in its two formats
#[derive(Clone, Debug)]
struct Pid {
    id: Id,
    stable: String,
    /// With different commits for git sources
    opaque: Vec<String>,
    /// `source` in the metadata
    meta_source: Option<String>,
    /// url of a spec for it
    spec_url: String,
}

const NAMES: &[&str] = &["a", "a-b", "a_b", "ab", "A", "krates", "crates.io-index", "x1"];
const VERSIONS: &[&str] = &["0.0.0", "1.0.0", "1.0.10", "1.0.9", "1.0.0-rc.1", "1.0.0+b.5", "2.0.0-alpha.1+exp.sha-5"];

/// (stable protocol and url without fragment, decoded, git reference)
fn sources() -> Vec<(String, Option<(String, String)>)> {
    let mut v: Vec<(String, Option<(String, String)>)> = Vec::new();
    let mut plain = |s: &str| v.push((s.to_owned(), None));
    plain("registry+https://github.com/rust-lang/crates.io-index");
    plain("registry+https://host.io/git/index");
    plain("sparse+https://host.io/index/");
    plain("registry+ssh://git@host.io:2222/a-b");
    plain("path+file:///home/me/ws/krates");
    plain("path+file:///home/me/ws/a");
    plain("path+file:///C:/Users/me/ws/a-b");
    plain("path+file:///home/me/w%20s/a@b/x1");
    plain("path+file:///home/me/w%23s/other");
    plain("git+https://github.com/me/krates");
    plain("git+https://github.com/me/krates.git");
    plain("git+ssh://git@github.com/me/a");
    plain("git+file:///home/me/repos/a-b");
    for (k, val) in [
        ("branch", "main"),
        ("branch", "feat/some-thing"),
        ("branch", "a#b"),
        ("branch", "a?b=c&d"),
        ("branch", "100%"),
        ("branch", "%2F"),
        ("branch", "\u{e9}t\u{e9}/\u{1F980}"),
        ("branch", "a+b@c"),
        ("tag", "v1.0.0"),
        ("tag", "krates@1.0.0"),
        ("rev", "deadbeef"),
    ] {
        v.push(("git+https://github.com/me/krates".into(), Some((k.into(), val.into()))));
        v.push(("git+https://github.com/me/a".into(), Some((k.into(), val.into()))));
    }
    v
}

/// application/x-www-form-urlencoded, what cargo writes for a git reference
fn form_encode(s: &str) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        if b.is_ascii_alphanumeric() || b"*-._".contains(&b) {
            o.push(b as char);
        } else {
            o.push_str(&format!("%{b:02X}"));
        }
    }
    o
}

fn pids() -> Vec<Pid> {
    from(&sources(), NAMES, VERSIONS)
}

fn from(sources: &[(String, Option<(String, String)>)], names: &[&str], versions: &[&str]) -> Vec<Pid> {
    let mut v = Vec::new();
    for (url, git) in sources {
        for name in names {
            for ver in versions {
                let (enc, raw) = match &git {
                    Some((k, val)) => (format!("{url}?{k}={}", form_encode(val)), format!("{url}?{k}={val}")),
                    None => (url.clone(), url.clone()),
                };
                let last = url.rsplit('/').next().unwrap();
                let stable = if last == *name { format!("{enc}#{ver}") } else { format!("{enc}#{name}@{ver}") };
                let is_git = url.starts_with("git+");
                let opaque = if is_git {
                    ["0123456789abcdef0123456789abcdef01234567", "fedcba9876543210fedcba9876543210fedcba98"]
                        .iter()
                        .map(|r| format!("{name} {ver} ({raw}#{r})"))
                        .collect()
                } else {
                    vec![format!("{name} {ver} ({raw})")]
                };
                v.push(Pid {
                    id: Id { name: (*name).into(), version: (*ver).into(), source: raw.clone() },
                    stable,
                    opaque,
                    meta_source: if is_git {
                        Some(format!("{raw}#0123456789abcdef0123456789abcdef01234567"))
                    } else if url.starts_with("path+") {
                        None
                    } else {
                        Some(raw)
                    },
                    spec_url: url.split_once('+').unwrap().1.into(),
                });
            }
        }
    }
    v
}

fn kid(s: &str) -> Kid {
    Kid::from(PackageId { repr: s.to_owned() })
}

/// Ids of less common sources, and of more versions
fn more_pids() -> Vec<Pid> {
    let plain = [
        "registry+http://host.io:8080/index",
        "registry+file:///srv/my%20index",
        "registry+https://user@host.io/a/b.git",
        "registry+https://host.io/krates@1.0.0",
        "sparse+https://host.io:8443/api/v1/crates/",
        "sparse+http://127.0.0.1:9000/index/",
        "local-registry+file:///srv/crates",
        "path+file:///",
        "path+file:///krates",
        "path+file:///home/me/krates@1.0.0",
        "path+file:///home/me/krates%231.0.0",
        "path+file:///home/me/50%25%3F/krates",
        "path+file:///home/me/a=b&c/krates",
        "path+file:///home/me/%C3%A9t%C3%A9",
        "path+file:///home/me/x+y/(z)",
        "path+file://server/share/krates",
        "path+file:///D:/a%20b/krates",
        "git+ssh://git@host.io:2222/~me/krates.git",
        "git+https://user:pw@host.io/krates",
        "git+https://host.io/a%20b/krates",
        "git+http://host.io/cgit.cgi/krates/",
        "git+git://host.io/krates",
        "git+file:///C:/repos/krates",
    ];
    let versions = [
        "0.0.1", "10.20.30", "1.0.0-0", "1.0.0-alpha-b.1.c-2", "1.0.0+a-b.0.C", "1.0.0--", "1.0.0-rc.1+git-sha.5", "18446744073709551615.0.0",
    ];
    let names = ["krates", "k", "_a", "a-_-b", "K9", "\u{e9}t\u{e9}"];
    let mut v = from(&sources(), &names, &versions);
    let plain: Vec<_> = plain.iter().map(|s| (s.to_string(), None)).collect();
    v.extend(from(&plain, NAMES, VERSIONS));
    v.extend(from(&plain, &names, &versions));
    v
}

/// What a git reference is put together from, of what git allows in one
const REF_TOKENS: &[&str] = &["a", "krates", "1.0.0", "/", "#", "=", "&", "%", "%23", "+", "@", "-", ".", "\u{e9}", "rev=", ";", "(", ")"];

fn git_references(r: &mut Run) {
    let len = if thorough() { 6 } else { 5 };
    r.flat(
        "token sequences as git references",
        sequences(REF_TOKENS, len) * 3,
        |i| {
            let val = sequence(REF_TOKENS, i / 3).concat();
            let mut o = Outcome::default();
            let bad = |s: &str| s.is_empty() || s.starts_with('.') || s.ends_with('.');
            if val == "@" || val.starts_with('-') || val.contains("..") || val.split('/').any(bad) {
                o.invalid = true;
                return o;
            }
            let key = ["branch", "tag", "rev"][(i % 3) as usize];
            let src = [("git+https://host.io/krates".to_owned(), Some((key.to_owned(), val)))];
            for p in from(&src, &["krates", "other"], &["1.0.0"]) {
                read_pid(&p, &mut o);
            }
            o
        },
        |i| format!("{} {:?}", ["branch", "tag", "rev"][(i % 3) as usize], sequence(REF_TOKENS, i / 3).concat()),
    );
}

pub fn id_parse(r: &mut Run) {
    let mut ps = pids();
    ps.extend(more_pids());
    r.flat(
        "package ids",
        ps.len() as u64,
        |i| {
            let mut o = Outcome::default();
            read_pid(&ps[i as usize], &mut o);
            o
        },
        |i| format!("{:?}", ps[i as usize]),
    );
    git_references(r);
}

fn read_pid(p: &Pid, o: &mut Outcome) {
            for s in std::iter::once(&p.stable).chain(&p.opaque) {
                o.runs += 1;
                match guarded(|| {
                    let k = kid(s);
                    let id = Id { name: k.name().into(), version: k.version().into(), source: k.source().into() };
                    (id, k.to_string(), format!("{k:?}"), k)
                }) {
                    Err(e) => fail(o, format!("{s}: panic: {e}")),
                    Ok((id, shown, debug, k)) => {
                        if id != p.id {
                            fail(o, format!("{s} is read as {id:?}, expected {:?}", p.id));
                        }
                        if shown != k.repr {
                            fail(o, format!("{s} is shown as {shown}"));
                        }
                        // Nothing of an id without an encoded query is changed
                        if !s.contains('%') && shown != *s {
                            fail(o, format!("{s} is shown as {shown}"));
                        }
                        if !debug.contains(&format!("{:?}", p.id.name)) || !debug.contains(&format!("{:?}", p.id.version)) {
                            fail(o, format!("{s} is debugged as {debug}"));
                        }
                    }
                }
            }
            o.digest = hash64(&(&p.id.name, &p.id.version, &p.id.source));
}

fn hash_of(k: &Kid) -> u64 {
    let mut h = DefaultHasher::new();
    k.hash(&mut h);
    h.finish()
}

/// All pairs of ids: equality, order and hash follow name, version and source
pub fn id_order(r: &mut Run) {
    let mut all: Vec<(Id, Kid, u64)> = Vec::new();
    for p in pids().into_iter().chain(more_pids()) {
        if !thorough() && (p.id.name == "ab" || p.id.name == "A" || p.id.version.contains("alpha") || p.id.version == "0.0.0") {
            continue;
        }
        for s in std::iter::once(&p.stable).chain(&p.opaque) {
            let Ok(k) = guarded(|| kid(s)) else {
                // Reported by the property about reading ids
                continue;
            };
            let h = hash_of(&k);
            all.push((p.id.clone(), k, h));
        }
    }
    let n = all.len();
    r.flat(
        "pairs of package ids",
        n as u64,
        |i| {
            let (ia, a, ha) = &all[i as usize];
            let mut o = Outcome { runs: n as u64, ..Outcome::default() };
            let mut less = 0u64;
            for (ib, b, hb) in &all {
                let want = (ia.name.as_str(), ia.version.as_str(), ia.source.as_str()).cmp(&(
                    ib.name.as_str(),
                    ib.version.as_str(),
                    ib.source.as_str(),
                ));
                let eq = want == Ordering::Equal;
                less += (want == Ordering::Less) as u64;
                if a.cmp(b) != want {
                    fail(&mut o, format!("{a} compares {:?} with {b}, expected {want:?}", a.cmp(b)));
                }
                if a.partial_cmp(b) != Some(want) || (a < b) != (want == Ordering::Less) {
                    fail(&mut o, format!("partial order of {a} and {b}"));
                }
                if (a == b) != eq || (a != b) == eq {
                    fail(&mut o, format!("{a} == {b} is {}, expected {eq}", a == b));
                }
                if eq && ha != hb {
                    fail(&mut o, format!("{a} and {b} are equal but hash differently"));
                }
            }
            // A clone is the same id
            let c = a.clone();
            if c != *a || hash_of(&c) != *ha || c.repr != a.repr || c.name() != a.name() {
                fail(&mut o, format!("the clone of {a} differs"));
            }
            o.digest = less;
            o
        },
        |i| format!("{} against {n} ids", all[i as usize].1),
    );
    // Lookup in ordered and hashed collections agrees with the identity
    let mut ids: Vec<&Id> = all.iter().map(|(i, ..)| i).collect();
    ids.sort();
    ids.dedup();
    let distinct = ids.len();
    r.flat(
        "collections of package ids",
        1,
        |_| {
            let mut o = Outcome { runs: 1, ..Outcome::default() };
            let tree: std::collections::BTreeSet<&Kid> = all.iter().map(|a| &a.1).collect();
            let hash: std::collections::HashSet<&Kid> = all.iter().map(|a| &a.1).collect();
            if tree.len() != distinct || hash.len() != distinct {
                fail(&mut o, format!("{distinct} distinct ids, {} ordered, {} hashed", tree.len(), hash.len()));
            }
            o
        },
        |_| format!("{n} ids"),
    );
}

// ------------------------------------------------------------ spec against package
fn package(p: &Pid, opaque: bool) -> cm::Package {
    let id = if opaque { &p.opaque[0] } else { &p.stable };
    let json = serde_json::json!({
        "name": p.id.name, "version": p.id.version, "id": id, "source": p.meta_source,
        "dependencies": [], "targets": [], "features": {}, "manifest_path": "/nx/Cargo.toml",
    });
    serde_json::from_value(json).expect("package")
}

/// Every combination of named, versioned and located spec, against every package
pub fn spec_match(r: &mut Run) {
    let ps: Vec<Pid> = pids().into_iter().chain(more_pids()).collect();
    let mut urls: Vec<Option<String>> = vec![None, Some("https://elsewhere.io/x".into())];
    for p in &ps {
        if !urls.contains(&Some(p.spec_url.clone())) {
            urls.push(Some(p.spec_url.clone()));
        }
    }
    // Close to one that exists
    for u in urls.clone().into_iter().flatten() {
        let parent = u.rsplit_once('/').unwrap().0.to_owned();
        for near in [format!("{u}x"), format!("x{u}"), format!("git+{u}"), format!("{u}/x"), u[..u.len() - 1].to_owned(), parent, u.to_uppercase()] {
            // A trailing slash may be left out
            if !near.is_empty() && !near.ends_with('/') && !u.ends_with('/') && !urls.contains(&Some(near.clone())) {
                urls.push(Some(near));
            }
        }
    }
    let names: Vec<&str> = NAMES.iter().copied().chain(["k", "_a", "K9"]).filter(|n| !n.contains('.')).collect();
    // Written out and parsed when that is possible
    let mut specs: Vec<(String, Option<String>, Option<String>, PkgSpec)> = Vec::new();
    for n in &names {
        for v in std::iter::once(None).chain(VERSIONS.iter().map(|v| Some(*v))) {
            for u in &urls {
                let s = PkgSpec { name: (*n).into(), version: v.map(|v| v.parse().unwrap()), url: u.clone() };
                specs.push(((*n).into(), v.map(Into::into), u.clone(), s));
            }
        }
    }
    r.flat(
        "package specs against packages",
        (ps.len() * 2) as u64,
        |i| {
            let p = &ps[i as usize / 2];
            let pkg = package(p, i % 2 == 1);
            let mut o = Outcome { runs: specs.len() as u64, ..Outcome::default() };
            for (n, v, u, s) in &specs {
                let want = *n == p.id.name
                    && v.as_ref().is_none_or(|v| *v == p.id.version)
                    && u.as_ref().is_none_or(|u| *u == p.spec_url);
                match guarded(|| s.matches(&pkg)) {
                    Err(e) => fail(&mut o, format!("panic: {e}")),
                    Ok(got) => {
                        o.digest = o.digest.wrapping_mul(3).wrapping_add(got as u64);
                        if got != want {
                            fail(&mut o, format!("{s:?} matches {}: {got}, expected {want}", pkg.id.repr));
                        }
                    }
                }
            }
            o
        },
        |i| format!("{:?} (opaque: {})", ps[i as usize / 2], i % 2 == 1),
    );
    // Specs as they are written
    let texts: Vec<(String, usize)> = ps
        .iter()
        .enumerate()
        .filter(|(_, p)| p.id.name.is_ascii() && !p.id.name.contains('.') && !p.spec_url.ends_with('/'))
        .flat_map(|(i, p)| {
            let (n, v, u) = (&p.id.name, &p.id.version, &p.spec_url);
            let mut t = vec![n.clone(), format!("{n}@{v}"), format!("{n}:{v}"), format!("{u}#{n}@{v}"), format!("{u}#{n}:{v}")];
            // As in cargo, anything else on its own is a version
            if n.starts_with(char::is_alphabetic) {
                t.push(format!("{u}#{n}"));
            }
            if u.rsplit('/').next() == Some(n) {
                t.push(u.clone());
                t.push(format!("{u}#{v}"));
            }
            t.into_iter().map(move |t| (t, i))
        })
        .collect();
    r.flat(
        "written package specs against packages",
        texts.len() as u64,
        |i| {
            let (t, pi) = &texts[i as usize];
            let p = &ps[*pi];
            let mut o = Outcome { runs: 1, ..Outcome::default() };
            match guarded(|| t.parse::<PkgSpec>()) {
                Ok(Ok(s)) => {
                    for opaque in [false, true] {
                        o.runs += 1;
                        if !s.matches(&package(p, opaque)) {
                            fail(&mut o, format!("{t} does not match {}", p.stable));
                        }
                    }
                }
                e => fail(&mut o, format!("{t}: {e:?}")),
            }
            o.digest = i;
            o
        },
        |i| texts[i as usize].0.clone(),
    );
}

// ------------------------------------------------------------ feature entries
const ENTRY_TOKENS: &[&str] = &["dep:", "a", "b-c", "?/", "/", "?", ":", "de", "\u{e9}", "x+y.z"];

pub fn feature_entries(r: &mut Run) {
    r.flat(
        "token sequences as feature entries",
        sequences(ENTRY_TOKENS, if thorough() { 8 } else { 7 }),
        |i| {
            let s = sequence(ENTRY_TOKENS, i).concat();
            let mut o = Outcome { runs: 1, ..Outcome::default() };
            // An entry has at most one separator; others are nothing cargo accepts
            let clean = s.matches('/').count() <= 1 && s.matches("dep:").count() <= 1 && !(s.contains("dep:") && s.contains('/'));
            match guarded(|| {
                let p = ParsedFeature::from(s.as_str());
                let f = p.feat();
                (own(&f), format!("{p:?}"))
            }) {
                Err(p) => fail(&mut o, format!("{s:?}: panic: {p}")),
                Ok((got, debug)) => {
                    o.digest = hash64(&(got.0, got.1.len(), got.2.len()));
                    if debug != s {
                        fail(&mut o, format!("{s:?} is shown as {debug}"));
                    }
                    let want = if let Some(d) = s.strip_prefix("dep:") {
                        ("dep", d.to_owned(), String::new())
                    } else if let Some((k, f)) = s.split_once('/') {
                        match k.strip_suffix('?') {
                            Some(k) => ("weak", k.to_owned(), f.to_owned()),
                            None => ("strong", k.to_owned(), f.to_owned()),
                        }
                    } else {
                        ("simple", s.clone(), String::new())
                    };
                    if clean && got != want {
                        fail(&mut o, format!("{s:?} is read as {got:?}, expected {want:?}"));
                    }
                }
            }
            o
        },
        |i| format!("{:?}", sequence(ENTRY_TOKENS, i).concat()),
    );
}

fn own(f: &Feature<'_>) -> (&'static str, String, String) {
    match f {
        Feature::Krate(k) => ("dep", (*k).to_owned(), String::new()),
        Feature::Weak { krate, feature } => ("weak", (*krate).to_owned(), (*feature).to_owned()),
        Feature::Strong { krate, feature } => ("strong", (*krate).to_owned(), (*feature).to_owned()),
        Feature::Simple(s) => ("simple", (*s).to_owned(), String::new()),
    }
}
