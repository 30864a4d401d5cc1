//! The `cargo metadata` invocation: every history of calls on the two command
//! builders, and every answer a cargo process can give.
use crate::build_props::{self, A};
use crate::engine::{Outcome, Space, guarded, hash64};
use crate::model::{metadata, resolve as resolve_universe};
use crate::observe;
use crate::reference::{Config, expected};
use crate::evidence::thorough;
use crate::run::Run;
use krates::cm::{self, MetadataCommand};
use krates::{Cmd, LockOptions};
use std::collections::BTreeSet;
use std::ffi::OsStr;
use std::path::{Path, PathBuf};

fn fail(o: &mut Outcome, s: String) {
    o.violation.get_or_insert(s);
}

/// One call, for either builder
#[derive(Clone, Copy, PartialEq, Debug)]
enum Call {
    Cargo(&'static str),
    Manifest(&'static str),
    Dir(&'static str),
    NoDefault,
    All,
    Features(&'static [&'static str]),
    Lock(bool, bool, bool),
    Other(&'static [&'static str]),
    NoDeps,
    Env(&'static str, &'static str),
    Verbose(bool),
}
use Call::*;

const CMD_CALLS: &[Call] = &[
    Cargo("/opt/other/cargo"),
    Cargo("cargo-two"),
    Manifest("Cargo.toml"),
    Manifest("/ws/member/Cargo.toml"),
    Manifest("../up/Cargo.toml"),
    Dir("/some/dir"),
    Dir("rel"),
    Dir(""),
    NoDefault,
    All,
    Features(&[]),
    Features(&["z", "a"]),
    Features(&["A", "a"]),
    Features(&["a", "dep/feat", "m-n"]),
    Lock(true, false, false),
    Lock(true, true, false),
    Lock(false, true, true),
    Lock(true, false, true),
    Lock(true, true, true),
    Lock(false, false, false),
    Other(&["--filter-platform", "x86_64-unknown-linux-gnu"]),
    Other(&["-v"]),
];

const MDC_CALLS: &[Call] = &[
    Cargo("/opt/other/cargo"),
    Manifest("/ws/member/Cargo.toml"),
    Manifest("sub/Cargo.toml"),
    Dir("/some/dir"),
    Dir("rel"),
    Other(&["--locked", "--offline"]),
    Other(&[]),
    NoDeps,
    Env("KEY", "one"),
    Env("KEY", "two"),
    Env("OTHER", ""),
    Verbose(true),
];

/// What was asked for
#[derive(Default, Debug, PartialEq)]
struct Want {
    cargo: Option<String>,
    manifest: Option<String>,
    dir: Option<String>,
    no_default: bool,
    all: bool,
    no_deps: bool,
    features: BTreeSet<String>,
    lock: (bool, bool, bool),
    other: Vec<String>,
    env: std::collections::BTreeMap<String, String>,
}

fn want(calls: &[Call], appends: bool) -> Want {
    let mut w = Want::default();
    for c in calls {
        match *c {
            Cargo(p) => w.cargo = Some(p.into()),
            Manifest(p) => w.manifest = Some(p.into()),
            Dir(p) => w.dir = Some(p.into()),
            NoDefault => w.no_default = true,
            All => w.all = true,
            Features(f) => w.features.extend(f.iter().map(|f| f.to_string())),
            Lock(f, l, o) => w.lock = (f, l, o),
            Other(o) => {
                if !appends {
                    w.other.clear();
                }
                w.other.extend(o.iter().map(|o| o.to_string()));
            }
            NoDeps => w.no_deps = true,
            Env(k, v) => {
                w.env.insert(k.into(), v.into());
            }
            Verbose(_) => {}
        }
    }
    w
}

/// Lexically resolved, relative to the working directory of the caller
fn resolve(dir: Option<&Path>, p: &Path) -> PathBuf {
    let mut o = PathBuf::from("/cwd");
    for part in [dir.unwrap_or(Path::new("")), p] {
        for c in part.components() {
            match c {
                std::path::Component::ParentDir => {
                    o.pop();
                }
                std::path::Component::CurDir => {}
                std::path::Component::RootDir => o = PathBuf::from("/"),
                c => o.push(c),
            }
        }
    }
    o
}

/// Compares a command line with the request; `other` must come last
fn compare(c: &std::process::Command, w: &Want, manifest_rules: bool, env_cargo: Option<&str>) -> Result<(), String> {
    let program = w.cargo.clone().or(env_cargo.map(Into::into)).unwrap_or("cargo".into());
    if c.get_program() != OsStr::new(&program) {
        return Err(format!("runs {:?} instead of {program}", c.get_program()));
    }
    let args: Vec<String> = c.get_args().map(|a| a.to_str().unwrap().to_owned()).collect();
    let rest = match args.first() {
        Some(a) if a == "metadata" => &args[1..],
        _ => return Err(format!("command line {args:?}")),
    };
    let rest = rest.strip_suffix(&w.other[..]).ok_or(format!("{args:?} does not end with {:?}", w.other))?;
    let mut got = Want { env: w.env.clone(), other: w.other.clone(), cargo: w.cargo.clone(), ..Want::default() };
    let mut seen = BTreeSet::new();
    let mut it = rest.iter();
    while let Some(a) = it.next() {
        let (name, given) = match a.split_once('=') {
            Some((n, v)) if n.starts_with("--") => (n, Some(v.to_owned())),
            _ => (a.as_str(), None),
        };
        if !seen.insert(name) && name != "--features" {
            return Err(format!("{name} is repeated in {args:?}"));
        }
        let mut value = || given.clone().or_else(|| it.next().cloned()).ok_or(format!("{a} without a value in {args:?}"));
        match name {
            "--features" => {
                for f in value()?.split([' ', ',']) {
                    if !got.features.insert(f.to_owned()) && manifest_rules {
                        return Err(format!("feature {f} is repeated in {args:?}"));
                    }
                }
            }
            "--manifest-path" => got.manifest = Some(value()?),
            "--format-version" => {
                if value()? != "1" {
                    return Err(format!("another format than 1 in {args:?}"));
                }
            }
            _ if given.is_some() => return Err(format!("unexpected {a} in {args:?}")),
            "--no-default-features" => got.no_default = true,
            "--all-features" => got.all = true,
            "--no-deps" => got.no_deps = true,
            "--frozen" => got.lock.0 = true,
            "--locked" => got.lock.1 = true,
            "--offline" => got.lock.2 = true,
            _ => return Err(format!("unexpected {a} in {args:?}")),
        }
    }
    if !seen.contains("--format-version") {
        return Err(format!("no format version in {args:?}"));
    }
    got.dir = c.get_current_dir().map(|d| d.to_str().unwrap().to_owned());
    if got.dir.as_deref() == Some("") {
        return Err("runs in a directory without a name".into());
    }
    // The manifest that cargo will open is the one that was named
    let opened = got.manifest.as_ref().map(|m| resolve(got.dir.as_deref().map(Path::new), Path::new(m)));
    let named = w.manifest.as_ref().map(|m| {
        if manifest_rules {
            resolve(None, Path::new(m))
        } else {
            resolve(w.dir.as_deref().map(Path::new), Path::new(m))
        }
    });
    if opened != named {
        return Err(format!("opens {opened:?} instead of {named:?}"));
    }
    // With a manifest cargo runs next to it, for its configuration files
    let run_in = resolve(got.dir.as_deref().map(Path::new), Path::new(""));
    let want_in = match (&named, manifest_rules) {
        (Some(m), true) => m.parent().unwrap().to_owned(),
        _ => resolve(w.dir.as_deref().map(Path::new), Path::new("")),
    };
    if run_in != want_in {
        return Err(format!("runs in {run_in:?} instead of {want_in:?}"));
    }
    got.dir.clone_from(&w.dir);
    got.manifest.clone_from(&w.manifest);
    if got != *w {
        return Err(format!("{args:?} asks for {got:?}, expected {w:?}"));
    }
    let env: Vec<(String, Option<String>)> = c
        .get_envs()
        .map(|(k, v)| (k.to_str().unwrap().to_owned(), v.map(|v| v.to_str().unwrap().to_owned())))
        .collect();
    let want_env: Vec<(String, Option<String>)> = w.env.iter().map(|(k, v)| (k.clone(), Some(v.clone()))).collect();
    if env != want_env {
        return Err(format!("environment {env:?}, expected {want_env:?}"));
    }
    Ok(())
}

fn run_cmd(calls: &[Call]) -> MetadataCommand {
    let mut c = Cmd::new();
    for call in calls {
        match *call {
            Cargo(p) => c.cargo_path(p),
            Manifest(p) => c.manifest_path(p),
            Dir(p) => c.current_dir(p),
            NoDefault => c.no_default_features(),
            All => c.all_features(),
            Features(f) => c.features(f.iter().map(|f| f.to_string())),
            Lock(frozen, locked, offline) => c.lock_opts(LockOptions { frozen, locked, offline }),
            Other(o) => c.other_options(o.iter().map(|o| o.to_string())),
            NoDeps | Env(..) | Verbose(_) => unreachable!(),
        };
    }
    c.into()
}

fn run_mdc(calls: &[Call]) -> MetadataCommand {
    let mut c = MetadataCommand::new();
    for call in calls {
        match *call {
            Cargo(p) => c.cargo_path(p),
            Manifest(p) => c.manifest_path(p),
            Dir(p) => c.current_dir(p),
            Other(o) => c.other_options(o.iter().map(|o| o.to_string()).collect::<Vec<_>>()),
            NoDeps => c.no_deps(),
            Env(k, v) => c.env(k, v),
            Verbose(v) => c.verbose(v),
            // The type of its argument is not public
            NoDefault | All | Features(_) | Lock(..) => unreachable!(),
        };
    }
    c
}

struct History {
    name: &'static str,
    calls: &'static [Call],
    cmd: bool,
    env: Option<&'static str>,
}

impl History {
    fn of(&self, s: &[u8]) -> Vec<Call> {
        s.iter().map(|i| self.calls[*i as usize]).collect()
    }
}

impl Space for History {
    type St = Vec<u8>;
    fn name(&self) -> String {
        self.name.into()
    }
    fn bases(&self) -> Vec<Self::St> {
        vec![vec![]]
    }
    fn successors(&self, s: &Self::St, f: &mut dyn FnMut(Self::St)) {
        for i in 0..self.calls.len() {
            let mut n = s.clone();
            n.push(i as u8);
            f(n);
        }
    }
    fn check(&self, s: &Self::St) -> Outcome {
        asked(&self.of(s), self.cmd, self.env)
    }
    fn show(&self, s: &Self::St) -> String {
        format!("{:?}", self.of(s))
    }
}

/// Makes the calls and compares the command line with them
fn asked(calls: &[Call], cmd: bool, env: Option<&str>) -> Outcome {
    let mut o = Outcome { runs: 1, ..Outcome::default() };
    let w = want(calls, cmd);
    let r = guarded(|| {
        let m = if cmd { run_cmd(calls) } else { run_mdc(calls) };
        // A copy of the command is the same command
        let a = m.clone().cargo_command();
        (format!("{:?}", m.cargo_command()), a)
    });
    match r {
        Err(p) => fail(&mut o, format!("panic: {p}")),
        Ok((shown, c)) => {
            o.digest = hash64(&shown);
            if format!("{c:?}") != shown {
                fail(&mut o, format!("the copy runs {c:?} instead of {shown}"));
            }
            if let Err(e) = compare(&c, &w, cmd, env) {
                fail(&mut o, e);
            }
        }
    }
    o
}

/// Every combination of one value per option, for options that only misbehave together
const CMD_OPTIONS: &[&[Call]] = &[
    &[Cargo("/opt/other/cargo"), Cargo("cargo")],
    &[Manifest("Cargo.toml"), Manifest("./Cargo.toml"), Manifest("/Cargo.toml"), Manifest("/ws/my member/Cargo.toml"), Manifest("sub/Cargo.toml"), Manifest("../up/Cargo.toml")],
    &[Dir("/some/dir"), Dir("."), Dir("..")],
    &[NoDefault],
    &[All],
    &[
        Features(&["default"]),
        Features(&["b", "a", "b"]),
        Features(&["dep/feat", "dep?/feat"]),
        Features(&["l", "k", "j", "i", "h", "g", "f", "e", "d", "c", "b", "a"]),
    ],
    &[
        Lock(true, false, false),
        Lock(false, true, false),
        Lock(false, false, true),
        Lock(true, true, false),
        Lock(true, false, true),
        Lock(false, true, true),
        Lock(true, true, true),
    ],
    &[
        Other(&["--filter-platform=x86_64-unknown-linux-gnu"]),
        Other(&["--features", "extra"]),
        Other(&["--locked", "--no-default-features", "--all-features"]),
        Other(&["--config", "net.offline = true", "--config", "net.offline = true"]),
        Other(&["metadata", ""]),
    ],
];
const MDC_OPTIONS: &[&[Call]] = &[
    &[Cargo("/opt/other/cargo"), Cargo("cargo")],
    &[Manifest("Cargo.toml"), Manifest("./x.toml"), Manifest("/ws/my member/Cargo.toml"), Manifest("../up/Cargo.toml")],
    &[Dir("/some/dir"), Dir("."), Dir("..")],
    &[NoDeps],
    &[Env("KEY", "one"), Env("CARGO", "/opt/wrong/cargo"), Env("PATH", "/nx/bin")],
    &[Env("OTHER", "two = 2")],
    &[Verbose(true), Verbose(false)],
    &[
        Other(&["--filter-platform=x86_64-unknown-linux-gnu"]),
        Other(&["--features", "extra"]),
        Other(&["--locked", "--no-deps", "--no-default-features", "--all-features"]),
        Other(&["metadata", ""]),
    ],
];

fn combination(options: &[&'static [Call]], mut i: u64) -> Vec<Call> {
    // The last digit is the order
    let order = i % 3;
    i /= 3;
    let mut v = Vec::new();
    for o in options {
        let n = o.len() as u64 + 1;
        if i % n > 0 {
            v.push(o[(i % n) as usize - 1]);
        }
        i /= n;
    }
    match order {
        0 => {}
        1 => v.reverse(),
        _ => {
            let h = v.len() / 2;
            v.rotate_left(h);
        }
    }
    v
}

pub fn command_line(r: &mut Run) {
    let d = 5;
    for (env, cmd, mdc) in [
        (None, "Cmd calls without CARGO", "MetadataCommand calls without CARGO"),
        (Some("/opt/env/cargo"), "Cmd calls with CARGO", "MetadataCommand calls with CARGO"),
    ] {
        // SAFETY: the exploration has no running threads here
        unsafe {
            match env {
                Some(e) => std::env::set_var("CARGO", e),
                None => std::env::remove_var("CARGO"),
            }
        }
        let d = if env.is_some() { 3 } else { d };
        r.bfs(&History { name: cmd, calls: CMD_CALLS, cmd: true, env }, d);
        r.bfs(&History { name: mdc, calls: MDC_CALLS, cmd: false, env }, d);
        for (cmd, options) in [(true, CMD_OPTIONS), (false, MDC_OPTIONS)] {
            let n = options.iter().map(|o| o.len() as u64 + 1).product::<u64>() * 3;
            r.flat(
                &format!("combinations of {} options {} CARGO", if cmd { "Cmd" } else { "MetadataCommand" }, if env.is_some() { "with" } else { "without" }),
                n,
                |i| asked(&combination(options, i), cmd, env),
                |i| format!("{:?}", combination(options, i)),
            );
        }
    }
}

// ------------------------------------------------------------ answers
/// What the fake cargo prints, in pieces
const OUT: &[(&str, &[u8])] = &[
    ("document", br#"{"packages":[],"workspace_members":[],"resolve":null,"workspace_root":"/a","target_directory":"/t","version":1}"#),
    ("other document", br#"{"packages":[],"workspace_members":[],"resolve":null,"workspace_root":"/b","target_directory":"/t","version":1}"#),
    ("newline", b"\n"),
    ("crlf", b"\r\n"),
    ("text", b"warning: something { odd }"),
    ("space", b" "),
    ("truncated", br#"{"packages":[],"workspace_mem"#),
    ("empty object", b"{}"),
    ("invalid utf-8", b"\xff\xfe"),
    ("large", b""),
];
const ERR: &[(&str, &[u8])] = &[("nothing", b""), ("message", b"error: no such \xc3\xa9\n  caused by: it\n"), ("invalid utf-8", b"error: \xff\n"), ("large", b"")];
const EXIT: &[&str] = &["exit 0", "exit 1", "exit 101", "kill -9 $$", "kill -15 $$"];

fn large(c: u8) -> Vec<u8> {
    vec![c; 300_000]
}

fn out_bytes(i: usize) -> Vec<u8> {
    if OUT[i].0 == "large" { large(b' ') } else { OUT[i].1.to_vec() }
}
fn err_bytes(i: usize) -> Vec<u8> {
    if ERR[i].0 == "large" { large(b'e') } else { ERR[i].1.to_vec() }
}

#[derive(PartialEq, Debug, Hash)]
enum Answer {
    /// The workspace root of the document
    Root(String),
    Cargo(String),
    Utf8,
    NoJson,
    Json,
    Io,
    /// cargo failed and its message is not text
    CargoUtf8,
}

/// The documented reading: the first line that starts with `{` is the document
fn reading(out: &[u8], err: &[u8], ok: bool) -> Answer {
    if !ok {
        return match String::from_utf8(err.to_vec()) {
            Ok(s) => Answer::Cargo(s),
            Err(_) => Answer::CargoUtf8,
        };
    }
    let Ok(s) = std::str::from_utf8(out) else { return Answer::Utf8 };
    let Some(line) = s.split('\n').find(|l| l.starts_with('{')) else {
        return Answer::NoJson;
    };
    match serde_json::from_str::<serde_json::Value>(line.trim_end()) {
        Ok(v) => v["workspace_root"].as_str().map_or(Answer::Json, |r| Answer::Root(r.into())),
        Err(_) => Answer::Json,
    }
}

fn said(r: Result<cm::Metadata, cm::Error>) -> Answer {
    match r {
        Ok(m) => Answer::Root(m.workspace_root.to_string()),
        Err(cm::Error::CargoMetadata { stderr }) => Answer::Cargo(stderr),
        Err(cm::Error::Io(_)) => Answer::Io,
        Err(cm::Error::Utf8(_)) => Answer::Utf8,
        Err(cm::Error::ErrUtf8(_)) => Answer::CargoUtf8,
        Err(cm::Error::Json(_)) => Answer::Json,
        Err(cm::Error::NoJson) => Answer::NoJson,
    }
}

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(what: &str) -> Self {
        let d = std::env::temp_dir().canonicalize().unwrap().join(format!("krates-mc-{what}-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn answers(r: &mut Run) {
    let dir = Scratch::new("cargo");
    let d = &dir.0;
    for i in 0..OUT.len() {
        std::fs::write(d.join(format!("o{i}")), out_bytes(i)).unwrap();
    }
    for i in 0..ERR.len() {
        std::fs::write(d.join(format!("e{i}")), err_bytes(i)).unwrap();
    }
    // Writes its answer to stdout and stderr in the order it is told
    std::fs::write(d.join("sh-cargo"), "cd \"$FAKE\"\ncat $FIRST\ncat $SECOND >&2\ncat $THIRD\neval \"$END\"\n").unwrap();
    let sh = d.join("cargo");
    std::fs::write(&sh, format!("#!/bin/sh\n. {}/sh-cargo\n", d.display())).unwrap();
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(&sh, std::fs::Permissions::from_mode(0o755)).unwrap();
    std::fs::write(d.join("no-program"), "not a program").unwrap();

    // Whole graphs, of documents that come from a process
    let docs: Vec<_> = crate::bases::all()
        .into_iter()
        .chain(crate::bases::large())
        .flat_map(|(n, u)| [false, true].map(|opaque| (n, u.clone(), opaque)))
        .collect();
    for (i, (_, u, opaque)) in docs.iter().enumerate() {
        let md = metadata(u, &resolve_universe(u).unwrap(), *opaque).md;
        std::fs::write(d.join(format!("d{i}")), serde_json::to_vec(&md).unwrap()).unwrap();
        // Before any process is started: a file that is open for writing can't be executed
        let script = d.join(format!("cargo-d{i}"));
        std::fs::write(&script, format!("#!/bin/sh\necho warning: noise >&2\necho noise\ncat {}/d{i}\n", d.display())).unwrap();
        std::fs::set_permissions(&script, std::fs::Permissions::from_mode(0o755)).unwrap();
    }

    // Longer outputs only of processes that simply succeed
    let (any, quiet) = if thorough() { (3, 4) } else { (2, 3) };
    let toks: Vec<String> = (0..OUT.len()).map(|i| i.to_string()).collect();
    let toks: Vec<&str> = toks.iter().map(|s| s.as_str()).collect();
    let seqs = crate::ids::sequences(&toks, any);
    let varied = seqs * (ERR.len() * EXIT.len()) as u64;
    let n = varied + crate::ids::sequences(&toks, quiet);
    let parts = |i: u64| {
        let seq = |i| crate::ids::sequence(&toks, i).iter().map(|t| t.parse().unwrap()).collect::<Vec<usize>>();
        if i >= varied {
            return (seq(i - varied), 0, 0);
        }
        let s = seq(i % seqs);
        let i = i / seqs;
        (s, (i as usize) % ERR.len(), i as usize / ERR.len())
    };
    r.flat(
        "answers of a cargo process",
        n,
        |i| {
            let (s, e, x) = parts(i);
            let mut o = Outcome { runs: 1, ..Outcome::default() };
            let files: Vec<String> = s.iter().map(|i| format!("o{i}")).collect();
            let cut = files.len() / 2;
            let list = |f: &[String]| if f.is_empty() { "/dev/null".to_owned() } else { f.join(" ") };
            let mut c = Cmd::new();
            c.cargo_path(&sh);
            let mut m: MetadataCommand = c.into();
            m.env("FAKE", d).env("FIRST", list(&files[..cut])).env("SECOND", format!("e{e}")).env("THIRD", list(&files[cut..])).env("END", EXIT[x]);
            let out: Vec<u8> = s.iter().flat_map(|i| out_bytes(*i)).collect();
            let want = reading(&out, &err_bytes(e), x == 0);
            match guarded(|| said(m.exec())) {
                Err(p) => fail(&mut o, format!("panic: {p}")),
                Ok(got) => {
                    o.digest = hash64(&got);
                    if got != want {
                        let cut = |a: &Answer| format!("{a:?}").chars().take(200).collect::<String>();
                        fail(&mut o, format!("answered {}, expected {}", cut(&got), cut(&want)));
                    }
                }
            }
            o
        },
        |i| {
            let (s, e, x) = parts(i);
            format!("stdout {:?}, stderr {}, {}", s.iter().map(|i| OUT[*i].0).collect::<Vec<_>>(), ERR[e].0, EXIT[x])
        },
    );
    // Processes that never start
    let gone = d.join("gone");
    let starts: Vec<(&str, PathBuf, PathBuf)> = vec![
        ("missing program", d.join("missing"), d.clone()),
        ("no program", d.join("no-program"), d.clone()),
        ("a directory", d.clone(), d.clone()),
        ("missing directory", sh.clone(), gone.clone()),
        ("a file as directory", sh.clone(), d.join("o0")),
    ];
    r.flat(
        "processes that do not start",
        starts.len() as u64 * 2,
        |i| {
            let (what, prog, cwd) = &starts[i as usize / 2];
            let mut o = Outcome { runs: 1, digest: i, ..Outcome::default() };
            let r = guarded(|| {
                let mut c = Cmd::new();
                c.cargo_path(prog).current_dir(cwd);
                if i % 2 == 0 {
                    said(MetadataCommand::from(c).exec())
                } else {
                    // The whole way through the graph builder
                    match krates::Builder::new().build::<cm::Package, krates::Edge, _>(c, |_: cm::Package| {}) {
                        Err(krates::Error::Metadata(e)) => said(Err(e)),
                        Err(e) => Answer::Cargo(e.to_string()),
                        Ok(_) => Answer::Root("a graph".into()),
                    }
                }
            });
            if !matches!(r, Ok(Answer::Io)) {
                fail(&mut o, format!("{what}: {r:?}"));
            }
            o
        },
        |i| format!("{} {}", starts[i as usize / 2].0, i % 2),
    );
    r.flat(
        "graphs of what cargo prints",
        docs.len() as u64,
        |i| {
            let (_, u, opaque) = &docs[i as usize];
            let mut o = Outcome { runs: 1, digest: i, ..Outcome::default() };
            let res = resolve_universe(u).unwrap();
            let c = Config { opaque: *opaque, ..Config::default() };
            let script = d.join(format!("cargo-d{i}"));
            let got = guarded(|| {
                let mut cmd = Cmd::new();
                cmd.cargo_path(&script);
                let mut filtered = Vec::new();
                observe::builder(u, &c)
                    .build(cmd, |p: cm::Package| filtered.push(p))
                    .map(|krates| observe::Built { krates, filtered })
            });
            let why = match got {
                Err(p) => Some(format!("panic: {p}")),
                Ok(Err(e)) => Some(format!("build failed with {e}")),
                Ok(Ok(b)) => {
                    let (g, bad) = observe::read(&b, &metadata(u, &res, *opaque).ids);
                    let aspects = [A::Krates, A::Filtered, A::Feats, A::Edges, A::Mapping];
                    build_props::diff(u, &expected(u, &res, &c).unwrap(), &g, &aspects, &bad)
                }
            };
            o.violation = why;
            o
        },
        |i| format!("{} {}", docs[i as usize].0, docs[i as usize].2),
    );
}
