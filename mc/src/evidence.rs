//! Evidence files, replay files, verdict lines and exit codes.
use crate::engine::{Report, Space};
use serde_json::{Value, json};
use std::sync::OnceLock;
use std::time::Instant;

pub struct Ctx {
    pub property: String,
    pub tier: &'static str,
    pub seed: u64,
    pub start: Instant,
    pub root: String,
    pub replaying: bool,
}

pub static CTX: OnceLock<Ctx> = OnceLock::new();

pub fn ctx() -> &'static Ctx {
    CTX.get().unwrap()
}

pub fn thorough() -> bool {
    ctx().tier == "thorough"
}

/// (finding id, property, description) of /verif/known_findings.txt
pub fn findings() -> &'static Vec<(String, String, String)> {
    static F: OnceLock<Vec<(String, String, String)>> = OnceLock::new();
    F.get_or_init(|| {
        let f = format!("{}/known_findings.txt", ctx().root);
        std::fs::read_to_string(&f)
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                let l = l.strip_prefix("finding: id=")?;
                let (id, l) = l.split_once(" property=")?;
                let (prop, what) = l.split_once(' ')?;
                Some((id.to_owned(), prop.to_owned(), what.to_owned()))
            })
            .collect()
    })
}

pub fn listed(id: &str) -> bool {
    findings().iter().any(|(i, p, _)| i == id && *p == ctx().property)
}

fn replay_file(name: &str) -> String {
    let dir = format!("{}/replays", ctx().root);
    std::fs::create_dir_all(&dir).unwrap();
    format!("{dir}/{}-{name}.json", ctx().property)
}

pub fn write_replay<P: Space>(p: &P, base: usize, path: &[u16], why: &str) -> String {
    let mut st = p.bases().into_iter().nth(base).unwrap();
    let mut trail = vec![p.show(&st)];
    for &e in path {
        let mut k = 0u16;
        let mut found = None;
        p.successors(&st, &mut |s| {
            if k == e {
                found = Some(s);
            }
            k += 1;
        });
        st = found.unwrap();
        trail.push(p.show(&st));
    }
    let v = json!({
        "property": ctx().property, "tier": ctx().tier, "space": p.name(), "base": base, "path": path,
        "trail": trail, "violation": why, "dump": p.dump(&st),
        "how": format!("bash {}/check.sh replay <this file>", ctx().root),
    });
    let f = replay_file(&p.name().replace([' ', '/'], "_"));
    std::fs::write(&f, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    f
}

pub fn write_flat_replay(space: &str, i: u64, show: &str, why: &str) -> String {
    let v = json!({
        "property": ctx().property, "tier": ctx().tier, "space": space, "index": i,
        "input": show, "violation": why,
        "how": format!("bash {}/check.sh replay <this file>", ctx().root),
    });
    let f = replay_file(&space.replace([' ', '/'], "_"));
    std::fs::write(&f, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    f
}

/// Used when a hung implementation thread keeps us from finishing normally
pub fn die_violation(file: &str, why: &str) -> ! {
    let mut rep = Report::default();
    rep.violation = Some((file.to_owned(), why.to_owned()));
    write_evidence(&rep, &[]);
    println!("{why}");
    println!("VIOLATION property={} replay={file}", ctx().property);
    std::process::exit(1)
}

pub fn write_evidence(rep: &Report, assumptions: &[&str]) {
    if ctx().replaying {
        return;
    }
    let c = ctx();
    let known: Vec<Value> = rep
        .known
        .iter()
        .map(|(k, (n, s))| json!({"id": k, "states": n, "first": s}))
        .collect();
    let mut v = json!({
        "property": c.property,
        "tier": c.tier,
        "seed": c.seed,
        "level": "model_checking",
        "coverage": {
            "states": rep.states,
            "transitions": rep.transitions,
            "traces_validated_against_impl": rep.runs,
            "distinct_outcomes": rep.outcomes.len(),
            "rejected_as_not_cargo_producible": rep.invalid,
            "states_per_depth": rep.depths,
            "bounds": rep.bounds,
            "exhaustive": rep.capped.is_none() && rep.violation.is_none(),
            "cap": rep.capped,
            "samples": rep.samples.iter().take(8).collect::<Vec<_>>(),
            "known_findings": known,
        },
        "assumptions": assumptions,
        "wall_s": c.start.elapsed().as_secs_f64(),
        "violations": rep.violation.is_some() as u32,
    });
    v["coverage"].as_object_mut().unwrap().extend(rep.extra.clone());
    let dir = format!("{}/evidence", c.root);
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(
        format!("{dir}/{}.json", c.property),
        serde_json::to_string_pretty(&v).unwrap() + "\n",
    )
    .unwrap();
}
