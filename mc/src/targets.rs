//! Every small cfg expression under every target set: the expressions are
//! enumerated as syntax trees over a set of atoms, printed, and attached to a
//! declaration of a two package workspace.
use crate::bases;
use crate::build_props::{self as bp, A};
use crate::cfgmodel::{self, TARGETS};
use crate::engine::Outcome;
use crate::evidence::thorough;
use crate::model::*;
use crate::reference::Config;
use crate::run::Run;

const ATOMS: &[&str] = &[
    "unix",
    "windows",
    "target_os = \"linux\"",
    "target_env = \"gnu\"",
    "target_arch = \"wasm32\"",
    "target_feature = \"atomics\"",
    "target_pointer_width = \"64\"",
    "true",
    "false",
    "any()",
    "all()",
    "custom",
    // only in the expressions of depth 2
    "target_os = \"windows\"",
    "target_os = \"macos\"",
    "target_os = \"ios\"",
    "target_os = \"android\"",
    "target_os = \"none\"",
    "target_os = \"unknown\"",
    "target_os = \"freebsd\"",
    "target_env = \"msvc\"",
    "target_env = \"musl\"",
    "target_env = \"\"",
    "target_arch = \"x86_64\"",
    "target_arch = \"x86\"",
    "target_arch = \"aarch64\"",
    "target_arch = \"arm\"",
    "target_vendor = \"apple\"",
    "target_vendor = \"pc\"",
    "target_family = \"unix\"",
    "target_family = \"windows\"",
    "target_family = \"wasm\"",
    "target_endian = \"big\"",
    "target_endian = \"little\"",
    "target_pointer_width = \"32\"",
    "target_has_atomic = \"64\"",
    "target_has_atomic = \"ptr\"",
    "panic = \"abort\"",
    "target_abi = \"eabihf\"",
    "target_feature = \"simd128\"",
    "debug_assertions",
    "feature = \"f\"",
    "custom = \"x\"",
];
const CORE: usize = 12;

fn lit(i: usize) -> String {
    match i % 2 {
        0 => ATOMS[i / 2].to_owned(),
        _ => format!("not({})", ATOMS[i / 2]),
    }
}

/// The i-th expression of two literals
fn pair(i: usize) -> String {
    let n = ATOMS.len() * 2;
    let (form, i) = (i / (n * n), i % (n * n));
    let (a, b) = (lit(i / n), lit(i % n));
    match form {
        0 => format!("cfg(all({a}, {b}))"),
        1 => format!("cfg(any({a}, {b}))"),
        2 => format!("cfg(not(all({a},{b})))"),
        _ => format!("cfg( not( any({a} , {b},) ) )"),
    }
}
const PAIRS: usize = 4 * (ATOMS.len() * 2) * (ATOMS.len() * 2);

/// The i-th expression of three literals over the core atoms
fn triple(i: usize) -> String {
    let n = CORE * 2;
    let (form, i) = (i / (n * n * n), i % (n * n * n));
    let (a, b, c) = (lit(i / (n * n)), lit(i / n % n), lit(i % n));
    match form {
        0 => format!("cfg(all(any({a}, {b}), {c}))"),
        1 => format!("cfg(any(all({a}, {b}), {c}))"),
        2 => format!("cfg(all({c}, not(all({a}, {b}))))"),
        3 => format!("cfg(any({c}, not(any({a}, {b}))))"),
        4 => format!("cfg(all({a}, {b}, {c}))"),
        _ => format!("cfg(any({a}, {b}, {c}))"),
    }
}
const TRIPLES: usize = 6 * (CORE * 2) * (CORE * 2) * (CORE * 2);

fn all_sets() -> Vec<Vec<(S, Vec<S>)>> {
    let mut v = vec![vec![]];
    for t in TARGETS {
        v.push(vec![(t.triple, vec![])]);
    }
    v.push(vec![("wasm32-unknown-unknown", vec!["atomics"])]);
    v.push(vec![("wasm32-unknown-unknown", vec!["atomics", "simd128"])]);
    v.push(vec![("x86_64-unknown-linux-gnu", vec!["simd128"])]);
    v.push(vec![("my-custom-target", vec![])]);
    v.push(vec![("my-custom-target", vec!["atomics"])]);
    let some = ["x86_64-unknown-linux-gnu", "x86_64-pc-windows-msvc", "wasm32-wasip1", "aarch64-apple-darwin", "my-custom-target", "thumbv7em-none-eabihf"];
    for (i, a) in some.iter().enumerate() {
        for b in &some[..i] {
            v.push(vec![(*a, vec![]), (*b, vec![])]);
        }
    }
    v.push(vec![("wasm32-unknown-unknown", vec!["atomics"]), ("x86_64-pc-windows-gnu", vec![])]);
    v.push(vec![("x86_64-pc-windows-gnu", vec!["simd128"]), ("wasm32-unknown-unknown", vec![]), ("s390x-unknown-linux-gnu", vec![])]);
    v
}

/// Fewer sets for the three-literal expressions
fn few_sets() -> Vec<Vec<(S, Vec<S>)>> {
    vec![
        vec![],
        vec![("x86_64-unknown-linux-gnu", vec![])],
        vec![("wasm32-unknown-unknown", vec!["atomics"])],
        vec![("x86_64-unknown-linux-musl", vec![]), ("x86_64-pc-windows-gnu", vec![])],
        vec![("i686-unknown-linux-gnu", vec![]), ("wasm32-wasip1", vec![])],
        vec![("my-custom-target", vec![])],
    ]
}

const ASPECTS: &[A] = &[A::Krates, A::Filtered, A::Edges, A::Mapping];

fn one(u: &mut Universe, sets: &[Vec<(S, Vec<S>)>], platforms: &[&str]) -> Outcome {
    let mut o = Outcome::default();
    for (d, p) in u.pkgs[0].decls.iter_mut().zip(platforms) {
        d.target = Some(leak(p));
    }
    let r = resolve(u).expect("a valid universe");
    for s in sets {
        let c = Config { targets: s.clone(), ..Config::default() };
        bp::judge(u, &r, &c, ASPECTS, None, &mut o);
    }
    o
}

fn leak(s: &str) -> S {
    Box::leak(s.to_owned().into_boxed_str())
}

/// Platforms of two declarations of one package
fn platforms() -> Vec<String> {
    let mut v: Vec<String> = TARGETS.iter().map(|t| t.triple.to_owned()).collect();
    v.push("my-custom-target".into());
    for t in ["other-custom-target", "My-Custom-Target", "my-custom-target-2", "my-custom", "my-custom-target.json", "x86_64-Unknown-Linux-GNU"] {
        v.push(t.into());
    }
    v.push("x86_64-unknown-linux-gnux32".into());
    for a in &ATOMS[..if thorough() { ATOMS.len() } else { 24 }] {
        v.push(format!("cfg({a})"));
        v.push(format!("cfg(not({a}))"));
    }
    v
}

const TINY: &str = "
    *w | d
    d";
const TWICE: &[&str] = &[
    "
    *w | d +x | d -def
    d :: x=; default=",
    "
    *w | d | d b
    d",
    "
    *w | d b +x | d d
    d :: x=",
];

pub fn expressions(r: &mut Run) {
    let tiny = bases::parse(TINY);
    let sets = all_sets();
    r.flat(
        "expressions of two literals",
        PAIRS as u64,
        |i| one(&mut tiny.clone(), &sets, &[&pair(i as usize)]),
        |i| pair(i as usize),
    );
    let few = if thorough() { all_sets() } else { few_sets() };
    r.flat(
        "expressions of three literals",
        TRIPLES as u64,
        |i| one(&mut tiny.clone(), &few, &[&triple(i as usize)]),
        |i| triple(i as usize),
    );
    let ps = platforms();
    let n = ps.len();
    let twice: Vec<Universe> = TWICE.iter().map(|t| bases::parse(t)).collect();
    let pick = |i: u64| {
        let i = i as usize;
        (i / (n * n), &ps[i / n % n], &ps[i % n])
    };
    r.flat(
        "two declarations of one package",
        (twice.len() * n * n) as u64,
        |i| {
            let (b, x, y) = pick(i);
            if b == 0 && x == y {
                // the same table of the manifest
                return Outcome { invalid: true, ..Outcome::default() };
            }
            one(&mut twice[b].clone(), &sets, &[x, y])
        },
        |i| {
            let (b, x, y) = pick(i);
            format!("{}\nplatforms {x} / {y}", TWICE[b])
        },
    );
    debug_assert!(cfgmodel::parse(&pair(0)).is_some());
}

/// Triples that rustc does not know but that are made of known parts, with the
/// `targets` feature of krates
#[cfg(feature = "targets")]
pub fn triples(r: &mut Run) {
    const ARCHS: &[(&str, &str, &str, &str)] = &[
        ("x86_64", "x86_64", "64", "little"),
        ("i586", "x86", "32", "little"),
        ("aarch64", "aarch64", "64", "little"),
        ("aarch64_be", "aarch64", "64", "big"),
        ("armv7", "arm", "32", "little"),
        ("wasm32", "wasm32", "32", "little"),
        ("riscv64gc", "riscv64", "64", "little"),
        ("s390x", "s390x", "64", "big"),
        ("powerpc64le", "powerpc64", "64", "little"),
    ];
    const VENDORS: &[&str] = &["unknown", "pc", "apple", "acme"];
    const OSES: &[(&str, &str, &str)] = &[
        ("linux", "linux", "unix"),
        ("windows", "windows", "windows"),
        ("freebsd", "freebsd", "unix"),
        ("netbsd", "netbsd", "unix"),
        ("haiku", "haiku", "unix"),
        ("none", "none", ""),
        ("unknown", "unknown", ""),
    ];
    const ENVS: &[&str] = &["gnu", "musl", "msvc", ""];
    let mut v = Vec::new();
    for a in ARCHS {
        for vendor in VENDORS {
            for os in OSES {
                for env in ENVS {
                    let dash = if env.is_empty() { "" } else { "-" };
                    let t = format!("{}-{vendor}-{}{dash}{env}", a.0, os.0);
                    if krates::cfg_expr::targets::get_builtin_target_by_triple(t.as_str()).is_none() {
                        v.push((t, *a, *vendor, *os, *env));
                    }
                }
            }
        }
    }
    for t in ["x86_64-linux-gnu", "wasm32-custom", "my-custom-target", "custom.json", "/path/to/x86_64.json", "", "x86_64"] {
        v.push((t.to_owned(), ("", "", "", ""), "", ("", "", ""), "?"));
    }
    let named = ["target_os", "target_arch", "target_vendor", "target_env", "target_pointer_width", "target_endian", "target_family"];
    let mut exprs: Vec<String> = vec!["unix".into(), "windows".into(), "target_feature = \"f\"".into(), "custom".into()];
    let values = |k: usize| -> Vec<&str> {
        match k {
            0 => OSES.iter().map(|o| o.1).chain(["macos", "android"]).collect(),
            1 => ARCHS.iter().map(|a| a.1).collect(),
            2 => VENDORS.to_vec(),
            3 => ENVS.to_vec(),
            4 => vec!["32", "64", "16"],
            5 => vec!["little", "big"],
            _ => vec!["unix", "windows", "wasm"],
        }
    };
    for (k, n) in named.iter().enumerate() {
        exprs.extend(values(k).iter().map(|v| format!("{n} = \"{v}\"")));
    }
    let exprs: Vec<String> = exprs.iter().flat_map(|e| [format!("cfg({e})"), format!("cfg(not({e}))")]).collect();
    let tiny = bases::parse(TINY);
    let n = exprs.len() + v.len() + 2;
    r.flat(
        "triples of known parts",
        (v.len() * n) as u64,
        |i| {
            let mut o = Outcome::default();
            let (t, arch, vendor, os, env) = &v[i as usize / n];
            let e = i as usize % n;
            let platform = exprs.get(e).cloned().unwrap_or_else(|| match v.get(e - exprs.len()) {
                Some(x) => x.0.clone(),
                None => ["x86_64-unknown-linux-gnu", "wasm32-unknown-unknown"][e - exprs.len() - v.len()].to_owned(),
            });
            let known = *env != "?";
            // Another spelling of the same triple, and what cfg-expr does not
            // derive from a triple: nothing is said about these
            let short = |s: &str| matches!(s, "x86_64" | "wasm32-custom" | "x86_64-linux-gnu");
            if (platform != *t && (short(t) || short(&platform)))
                || platform.contains("\"wasm\"")
                || (platform.contains("target_env") && !matches!(os.1, "linux" | "windows"))
            {
                o.invalid = true;
                return o;
            }
            let want = match cfgmodel::parse(&platform) {
                None => platform == *t,
                Some(c) => c.eval(&|k, val| match (k, val) {
                    ("target_feature", Some("f")) => true,
                    _ if !known => false,
                    ("unix", None) => os.2 == "unix",
                    ("windows", None) => os.2 == "windows",
                    ("target_os", Some(x)) => os.1 == x,
                    ("target_arch", Some(x)) => arch.1 == x,
                    ("target_vendor", Some(x)) => *vendor == x,
                    ("target_env", Some(x)) => *env == x,
                    ("target_pointer_width", Some(x)) => arch.2 == x,
                    ("target_endian", Some(x)) => arch.3 == x,
                    ("target_family", Some(x)) => os.2 == x || x == "wasm" && arch.1 == "wasm32",
                    _ => false,
                }),
            };
            let mut u = tiny.clone();
            u.pkgs[0].decls[0].target = Some(leak(&platform));
            let m = metadata(&u, &resolve(&u).unwrap(), false);
            let mut b = krates::Builder::new();
            b.include_targets([(t.as_str(), vec!["f".to_owned()])]);
            o.runs += 1;
            o.digest = want as u64 + 1;
            match crate::engine::guarded(|| crate::observe::run(b, m.md)) {
                Err(p) => o.violation = Some(format!("panic: {p}")),
                Ok(Err(e)) => o.violation = Some(format!("failed: {e:?}")),
                Ok(Ok(g)) => {
                    if (g.krates.len() == 2) != want {
                        o.violation = Some(format!("a dependency for {platform} with target {t}: expected {want}"));
                    }
                }
            }
            o
        },
        |i| format!("target {:?}, expression {}", v[i as usize / n].0, i as usize % n),
    );
}
