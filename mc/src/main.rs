mod bases;
mod build_props;
mod cfgmodel;
mod checks;
mod configs;
mod conform;
mod edits;
mod cmd;
mod engine;
mod ids;
mod json;
mod evidence;
mod model;
mod observe;
mod probes;
mod targets;
mod reference;
mod roots;
mod index;
mod calls;
mod payload;
mod printed;
mod disk;
mod run;

use std::time::Instant;

#[global_allocator]
static ALLOC: engine::Capped = engine::Capped;

fn usage() -> ! {
    eprintln!("usage: mc check <property> | mc replay <file> | mc conform <0|1|2> [base]");
    std::process::exit(2)
}

fn main() {
    engine::install_panic_hook();
    engine::install_abort_handler();
    let a: Vec<String> = std::env::args().collect();
    let (Some(cmd), Some(arg)) = (a.get(1), a.get(2)) else { usage() };
    let rep: Option<serde_json::Value> = (cmd == "replay")
        .then(|| serde_json::from_str(&std::fs::read_to_string(arg).expect("replay file")).expect("json"));
    let property = rep.as_ref().map_or(arg.clone(), |v| v["property"].as_str().unwrap().to_owned());
    let tier = rep
        .as_ref()
        .map_or(std::env::var("VERIF_TIER").unwrap_or_default(), |v| v["tier"].as_str().unwrap().to_owned());
    let _ = evidence::CTX.set(evidence::Ctx {
        property: property.clone(),
        tier: if tier == "thorough" { "thorough" } else { "quick" },
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        start: Instant::now(),
        root: std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()),
        replaying: rep.is_some(),
    });
    match cmd.as_str() {
        "conform" => std::process::exit(conform::main(arg.parse().unwrap_or_else(|_| usage()), a.get(3).map(|s| s.as_str()))),
        "check" | "replay" => {}
        _ => usage(),
    }
    let mut r = run::Run::default();
    if let Some(v) = &rep {
        r.target = Some(run::Target {
            space: v["space"].as_str().unwrap().to_owned(),
            base: v["base"].as_u64().unwrap_or(0) as usize,
            path: v["path"].as_array().map(|p| p.iter().map(|x| x.as_u64().unwrap() as u16).collect()).unwrap_or_default(),
            index: v["index"].as_u64().unwrap_or(0),
        });
    }
    if !checks::run(&property, &mut r) {
        eprintln!("no check for {property}");
        std::process::exit(2);
    }
    if rep.is_some() {
        if !r.replayed {
            eprintln!("the replay names a space this check does not have");
            std::process::exit(2);
        }
        match r.rep.violation {
            Some((_, why)) => {
                println!("{why}");
                println!("VIOLATION property={property} replay={arg}");
                std::process::exit(1);
            }
            None => println!("the recorded violation does not occur"),
        }
        return;
    }
    evidence::write_evidence(&r.rep, &r.assumptions);
    for (id, prop, what) in evidence::findings() {
        if *prop == property && r.rep.known.contains_key(id.as_str()) {
            println!("KNOWN-FINDING: property={property} {id}: {what}");
        }
    }
    if let Some((file, why)) = &r.rep.violation {
        println!("{why}");
        println!("VIOLATION property={property} replay={file}");
        std::process::exit(1);
    }
    println!(
        "property {property} held: {} states, {} transitions, {} executions of krates, {} distinct outcomes{}",
        r.rep.states,
        r.rep.transitions,
        r.rep.runs,
        r.rep.outcomes.len(),
        r.rep.capped.as_ref().map(|c| format!(" ({c})")).unwrap_or_default()
    );
}
