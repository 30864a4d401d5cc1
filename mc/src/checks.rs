//! The property table: which spaces decide which property.
use crate::build_props::{self as bp, A, BuildSpace, Probe};
use crate::{configs, probes};
use crate::model::Universe;
use crate::reference::Config;
use crate::edits::G;
use crate::evidence::thorough;
use crate::run::Run;

const ALL: &[G] = &[
    G::AddDecl, G::Decl, G::Dup, G::Rename, G::Platform, G::Feature, G::Lib, G::Workspace, G::Cli, G::Filter, G::Source,
    G::CfgKind, G::CfgTarget, G::CfgExclude, G::CfgRoots, G::CfgOpaque,
];
const UNI: &[G] = &[
    G::AddDecl, G::Decl, G::Dup, G::Rename, G::Platform, G::Feature, G::Lib, G::Workspace, G::Cli, G::Filter, G::Source,
];
const EVERYTHING: &[A] = &[A::Krates, A::Filtered, A::Feats, A::Edges, A::Mapping, A::FeatEdges, A::Structure, A::Quirk];

const CARGO: &str = "universes are small (2-6 packages); the metadata handed to krates is what the cargo model prints, which `check.sh conform` compares with the real `cargo metadata`";

type Cf = fn(&Universe, &Config) -> Vec<Config>;

fn graph(r: &mut Run, aspects: &[A]) {
    r.assumptions.push(CARGO);
    let t = thorough();
    r.bfs(&BuildSpace::new("large universes", ALL, aspects, &["large"], bp::only_own), if t { 2 } else { 1 });
    for (name, f) in [
        ("every kind filter", configs::kinds as Cf),
        ("target sets", configs::targets),
        ("every exclusion", configs::exclude_one),
        ("elsewhere", configs::places),
    ] {
        family(r, name, UNI, aspects, f, 1);
    }
    r.bfs(&BuildSpace::new("universes", ALL, aspects, &[], bp::only_own), if t { 3 } else { 2 });
}

/// Every universe up to the given number of edits, under a family of configurations
fn family(r: &mut Run, name: &'static str, groups: &[G], aspects: &[A], f: Cf, depth: usize) {
    if !r.assumptions.contains(&CARGO) {
        r.assumptions.push(CARGO);
    }
    r.bfs(&BuildSpace::new(name, groups, aspects, &[], f), depth);
}

fn probe(r: &mut Run, p: Probe) {
    r.assumptions.push(CARGO);
    let sp = BuildSpace::new("universes", ALL, &[A::Krates, A::Mapping], &[], bp::only_own).probing(p);
    r.bfs(&sp, if thorough() { 3 } else { 2 });
}

pub fn run(id: &str, r: &mut Run) -> bool {
    let t = thorough();
    match id {
        "C01" => {
            crate::conform::evidence(r, t as usize);
            graph(r, &[A::Krates]);
        }
        "C02" => graph(r, &[A::Filtered]),
        "C03" => graph(r, &[A::Feats]),
        "C04" => graph(r, &[A::Edges]),
        "C05" => graph(r, &[A::Mapping]),
        "C06" => {
            let a = [A::Krates, A::Filtered, A::Edges, A::Mapping];
            family(r, "every kind filter", UNI, &a, configs::kinds, if t { 2 } else { 1 });
            family(r, "kind filters among all settings", ALL, &a, bp::only_own, 2);
        }
        "C07" => {
            let a = [A::Krates, A::Filtered, A::Edges, A::Mapping];
            crate::targets::expressions(r);
            family(r, "target sets", UNI, &a, configs::targets, if t { 2 } else { 1 });
            family(r, "targets among all settings", ALL, &a, bp::only_own, 2);
        }
        "C08" => {
            let a = [A::Krates, A::Filtered, A::Edges, A::Mapping];
            family(r, "every exclusion", UNI, &a, configs::exclude_one, if t { 2 } else { 1 });
            family(r, "every pair of exclusions", &[], &a, configs::exclude_two, 0);
            family(r, "every exclusion but one", UNI, &a, configs::exclude_most, 1);
            family(r, "exclusions among all settings", ALL, &a, bp::only_own, 2);
            if t {
                family(r, "every pair of exclusions, edited", UNI, &a, configs::exclude_two, 1);
            }
        }
        "C09" => {
            let a = [A::Krates, A::Filtered, A::Feats, A::Edges, A::Mapping];
            crate::roots::roots(r);
            family(r, "every selection", UNI, &a, configs::selections, if t { 2 } else { 1 });
            family(r, "selections among all settings", ALL, &a, bp::only_own, 2);
        }
        "C10" => {
            family(r, "reordered metadata", ALL, EVERYTHING, configs::orders, if t { 2 } else { 1 });
            family(r, "every combination of reordered lists", &[], EVERYTHING, configs::all_orders, 0);
            family(r, "everything reordered", ALL, EVERYTHING, configs::reversed, 2);
        }
        "C11" => {
            family(r, "elsewhere", ALL, EVERYTHING, configs::places, 1);
            family(r, "both id formats", ALL, EVERYTHING, configs::formats, 2);
        }
        "C12" => {
            crate::payload::unresolved(r);
            crate::index::undeclared(r, ALL, if t { 2 } else { 1 });
            family(r, "configuration cross product", UNI, &[], configs::cross, if t { 2 } else { 1 });
            family(r, "elsewhere", ALL, &[], configs::places, 1);
            family(r, "universes", ALL, &[], bp::only_own, 2);
        }
        "C13" => graph(r, &[A::FeatEdges, A::Structure, A::Quirk]),
        "C14" => probe(r, |v| probes::direct_dependents(v).and_then(|()| probes::direct_dependencies(v))),
        "C15" => probe(r, probes::filtered),
        "C16" => probe(r, |v| probes::lookups(v).and_then(|()| probes::searches(v))),
        "C17" => crate::ids::spec_parse(r),
        "C18" => crate::ids::spec_match(r),
        "C19" => crate::ids::id_parse(r),
        "C20" => crate::ids::id_order(r),
        "C21" => crate::cmd::command_line(r),
        "C22" => crate::cmd::answers(r),
        "C23" => crate::json::decode(r),
        "C24" => crate::json::round_trip(r),
        "C27" => crate::json::accessors(r),
        "C25" => {
            r.assumptions.push(CARGO);
            crate::index::answers(r, ALL, if t { 2 } else { 1 });
        }
        "C28" => {
            r.assumptions.push(CARGO);
            crate::payload::carried(r, "carried packages", ALL, if t { 2 } else { 1 });
            if !t {
                let some = &[G::Lib, G::Workspace, G::Source, G::CfgKind, G::CfgTarget, G::CfgExclude, G::CfgRoots];
                crate::payload::carried(r, "carried packages, settings", some, 2);
            }
        }
        #[cfg(feature = "targets")]
        "C30" => {
            crate::targets::expressions(r);
            crate::targets::triples(r);
        }
        "C31" => {
            r.assumptions.push(CARGO);
            crate::printed::texts(r, ALL, 2);
        }
        "C32" => crate::disk::workspaces(r),
        "C29" => crate::calls::histories(r, if t { 5 } else { 4 }),
        "C26" => crate::ids::feature_entries(r),
        _ => return false,
    }
    true
}
