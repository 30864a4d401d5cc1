//! Queries on built graphs, each compared with the reference graph.
use crate::build_props::{Say, View};
use crate::model::*;
use crate::observe::idx;
use crate::reference::*;
use krates::{DepKind, Edge, Kid, Krates, Node, NodeId, PackageId};
use std::collections::BTreeSet;

fn bad<T>(s: String) -> Result<T, Say> {
    Err(Say::Bad(s))
}

/// Package index of every crate node, by node index
fn packages(v: &View<'_>) -> Vec<usize> {
    v.b.krates.krates().map(|k| idx(v.ids, &k.id.repr)).collect()
}

fn kid(v: &View<'_>, p: usize) -> Kid {
    Kid::from(PackageId { repr: v.ids[p].clone() })
}

fn names(v: &View<'_>, s: &BTreeSet<usize>) -> Vec<String> {
    s.iter().map(|p| format!("{}@{}#{p}", v.u.pkgs[*p].name, v.u.pkgs[*p].ver)).collect()
}

/// Crates reachable from `start` over edges that pass through feature nodes only
fn through_features(k: &Krates, start: NodeId) -> BTreeSet<usize> {
    let g = k.graph();
    let mut seen: BTreeSet<usize> = BTreeSet::new();
    let mut out = BTreeSet::new();
    let mut todo = vec![start.index()];
    while let Some(n) = todo.pop() {
        for e in g.raw_edges() {
            if e.source().index() != n {
                continue;
            }
            match &g[e.target()] {
                Node::Krate { .. } => {
                    out.insert(e.target().index());
                }
                Node::Feature { .. } => {
                    if seen.insert(e.target().index()) {
                        todo.push(e.target().index());
                    }
                }
            }
        }
    }
    out
}

pub fn direct_dependencies(v: &View<'_>) -> Result<(), Say> {
    let k = &v.b.krates;
    let ps = packages(v);
    let mut known = None;
    for (n, p) in ps.iter().enumerate() {
        let want: BTreeSet<usize> = v.want.mapping.iter().filter(|((q, _), _)| q == p).map(|(_, t)| *t).collect();
        let got = k.direct_dependencies(NodeId::new(n));
        let mut set = BTreeSet::new();
        for d in &got {
            let t = idx(v.ids, &d.krate.id.repr);
            if !set.insert(t) {
                return bad(format!("{} is listed twice as a dependency of {}", v.ids[t], v.ids[*p]));
            }
            if ps.get(d.node_id.index()) != Some(&t) {
                return bad(format!("the node id of dependency {} is {}", v.ids[t], d.node_id.index()));
            }
            match k.graph().edge_endpoints(d.edge_id) {
                Some((_, to)) if to == d.node_id => {}
                e => return bad(format!("the edge of dependency {} is {e:?}", v.ids[t])),
            }
        }
        if set != want {
            let quirk: BTreeSet<usize> = through_features(k, NodeId::new(n)).iter().map(|n| ps[*n]).collect();
            let what = format!("direct dependencies of {}: expected {:?}, got {:?}", v.ids[*p], names(v, &want), names(v, &set));
            if set == quirk {
                known.get_or_insert(what);
            } else {
                return bad(what);
            }
        }
    }
    for n in ps.len()..k.graph().node_count() {
        let _ = k.direct_dependencies(NodeId::new(n));
    }
    known.map_or(Ok(()), |w| Err(Say::Known("F02", w)))
}

pub fn direct_dependents(v: &View<'_>) -> Result<(), Say> {
    let k = &v.b.krates;
    let ps = packages(v);
    for (n, p) in ps.iter().enumerate() {
        let want: BTreeSet<usize> = v.want.mapping.iter().filter(|(_, t)| *t == p).map(|((q, _), _)| *q).collect();
        let mut set = BTreeSet::new();
        for d in &k.direct_dependents(NodeId::new(n)) {
            let t = idx(v.ids, &d.krate.id.repr);
            if !set.insert(t) {
                return bad(format!("{} is listed twice as a dependent of {}", v.ids[t], v.ids[*p]));
            }
            if ps.get(d.node_id.index()) != Some(&t) {
                return bad(format!("the node id of dependent {} is {}", v.ids[t], d.node_id.index()));
            }
            // The edge goes from the dependent to the crate or to one of its features
            let ok = k.graph().edge_endpoints(d.edge_id).is_some_and(|(from, to)| {
                from == d.node_id
                    && match &k.graph()[to] {
                        Node::Krate { .. } => to.index() == n,
                        Node::Feature { krate_index, .. } => krate_index.index() == n,
                    }
            });
            if !ok {
                return bad(format!("the edge of dependent {} is {:?}", v.ids[t], k.graph().edge_endpoints(d.edge_id)));
            }
        }
        if set != want {
            return bad(format!("direct dependents of {}: expected {:?}, got {:?}", v.ids[*p], names(v, &want), names(v, &set)));
        }
    }
    for n in ps.len()..k.graph().node_count() {
        let _ = k.direct_dependents(NodeId::new(n));
    }
    Ok(())
}

pub fn filtered(v: &View<'_>) -> Result<(), Say> {
    let k = &v.b.krates;
    let ps = packages(v);
    let mut known = None;
    for kind in Kind::ALL {
        let got = k.krates_filtered(kind.krates());
        let list: Vec<usize> = got.iter().map(|g| idx(v.ids, &g.id.repr)).collect();
        let set: BTreeSet<usize> = list.iter().copied().collect();
        if set.len() != list.len() {
            return bad(format!("krates_filtered({kind:?}) lists a crate twice"));
        }
        let order: Vec<Kid> = list.iter().map(|p| kid(v, *p)).collect();
        if !order.is_sorted() {
            return bad(format!("krates_filtered({kind:?}) is not in order"));
        }
        let mut c = v.c.clone();
        c.ignore.push((kind, Sc::All));
        let want = expected(v.u, v.r, &c).map(|g| g.krates).unwrap_or_default();
        if set != want {
            let what = format!("krates_filtered({kind:?}): expected {:?}, got {:?}", names(v, &want), names(v, &set));
            let quirk: BTreeSet<usize> = over_graph(k, v, kind.krates()).iter().map(|n| ps[*n]).collect();
            if set == quirk {
                known.get_or_insert(what);
            } else {
                return bad(what);
            }
        }
    }
    known.map_or(Ok(()), |w| Err(Say::Known("F03", w)))
}

/// Reachability over the finished graph from the workspace members in it
fn over_graph(k: &Krates, v: &View<'_>, kind: DepKind) -> BTreeSet<usize> {
    let g = k.graph();
    let ps = packages(v);
    let mut seen: BTreeSet<usize> = (0..ps.len()).filter(|n| v.u.is_member(ps[*n])).collect();
    let mut todo: Vec<usize> = seen.iter().copied().collect();
    while let Some(n) = todo.pop() {
        for e in g.raw_edges() {
            let skip = match &e.weight {
                Edge::Dep { kind: k, .. } | Edge::DepFeature { kind: k, .. } => *k == kind,
                Edge::Feature => false,
            };
            if e.source().index() == n && !skip && seen.insert(e.target().index()) {
                todo.push(e.target().index());
            }
        }
    }
    seen.retain(|n| *n < ps.len());
    seen
}

pub fn lookups(v: &View<'_>) -> Result<(), Say> {
    let k = &v.b.krates;
    let ps = packages(v);
    let kids: Vec<Kid> = ps.iter().map(|p| kid(v, *p)).collect();
    if k.len() != v.want.krates.len() || ps.len() != k.len() {
        return bad(format!("len is {} for {} crates", k.len(), v.want.krates.len()));
    }
    if kids.windows(2).any(|w| w[0] >= w[1]) {
        return bad("the crates are not in the order of their identifiers".into());
    }
    if k.workspace_root() != "/nx/ws" {
        return bad(format!("workspace root {}", k.workspace_root()));
    }
    for p in 0..v.u.pkgs.len() {
        let id = kid(v, p);
        let nid = ps.iter().position(|q| *q == p);
        if k.nid_for_kid(&id).map(|n| n.index()) != nid {
            return bad(format!("nid_for_kid({id}) is {:?}", k.nid_for_kid(&id)));
        }
        let is = |n: &Node<krates::Package>| matches!(n, Node::Krate { krate, .. } if krate.id.repr == v.ids[p]);
        match (nid, k.node_for_kid(&id), k.get_node(&id, None)) {
            (None, None, None) => {}
            (Some(n), Some(a), Some((m, b))) if m.index() == n && is(a) && is(b) => {}
            _ => return bad(format!("node_for_kid/get_node of {id} is wrong")),
        }
        let feats = nid.map(|_| &v.want.feats[&p]);
        if k.get_enabled_features(&id) != feats {
            return bad(format!("enabled features of {id}: {:?}", k.get_enabled_features(&id)));
        }
        let mut asked: BTreeSet<&str> = v.r.fmap[p].keys().copied().collect();
        asked.extend(v.u.pkgs.iter().map(|p| p.name));
        asked.extend(["no-such-feature", "", "default"]);
        // Nearly the names of features
        let near: Vec<String> = asked.iter().flat_map(|f| [f.to_uppercase(), f.replace('-', "_"), format!("{f}/"), format!("dep:{f}")]).collect();
        asked.extend(near.iter().map(String::as_str));
        for f in asked {
            let want = feats.is_some_and(|s| s.contains(f));
            match k.get_node(&id, Some(f)) {
                None if !want => {}
                Some((n, Node::Feature { krate_index, name }))
                    if want && Some(krate_index.index()) == nid && name == f && n.index() >= k.len()
                        && matches!(&k.graph()[n], Node::Feature { krate_index: i, name: m } if i == krate_index && m == name) => {}
                _ => return bad(format!("get_node({id}, {f:?}), enabled: {want}")),
            }
        }
        if let Some(n) = nid {
            if k[NodeId::new(n)].id.repr != v.ids[p] || k[n].id.repr != v.ids[p] {
                return bad(format!("indexing by node {n} does not give {id}"));
            }
            // get_deps is the list of outgoing edges
            let mut got: Vec<_> = k.get_deps(NodeId::new(n)).map(|(t, e)| (std::ptr::from_ref(t), std::ptr::from_ref(e))).collect();
            let mut want: Vec<_> = k
                .graph()
                .raw_edges()
                .iter()
                .filter(|e| e.source().index() == n)
                .map(|e| (std::ptr::from_ref(&k.graph()[e.target()]), std::ptr::from_ref(&e.weight)))
                .collect();
            got.sort();
            want.sort();
            if got != want {
                return bad(format!("get_deps of {id} has {} entries for {} edges", got.len(), want.len()));
            }
            // out of range declarations
            let n = NodeId::new(n);
            let len = v.u.pkgs[p].decls.len();
            for i in 0..len + 2 {
                let got = k.resolved_dependency(n, i).map(|k| idx(v.ids, &k.id.repr));
                if got != v.want.mapping.get(&(p, i)).copied() {
                    return bad(format!("dependency {i} of {id} resolves to {got:?}"));
                }
            }
            if k.resolved_dependency(n, usize::MAX).is_some() {
                return bad("a dependency out of range".into());
            }
        }
    }
    for n in k.len()..k.graph().node_count() + 2 {
        if k.resolved_dependency(NodeId::new(n), 0).is_some() {
            return bad(format!("node {n} is no crate but has a dependency"));
        }
    }
    let members: Vec<&str> = k
        .workspace_members()
        .map(|n| match n {
            Node::Krate { krate, .. } => krate.id.repr.as_str(),
            Node::Feature { .. } => "feature",
        })
        .collect();
    let want: Vec<&str> = ps.iter().filter(|p| v.u.is_member(**p)).map(|p| v.ids[*p].as_str()).collect();
    if members != want {
        return bad(format!("workspace members {members:?}, expected {want:?}"));
    }
    Ok(())
}

pub fn searches(v: &View<'_>) -> Result<(), Say> {
    let k = &v.b.krates;
    let ps = packages(v);
    let mut names: BTreeSet<&str> = v.u.pkgs.iter().map(|p| p.name).collect();
    names.extend(["", "no-such-crate"]);
    let near: Vec<String> = names.iter().flat_map(|n| [n.to_uppercase(), n.replace('-', "_"), n.replace('_', "-"), format!("{n}-x")]).collect();
    names.extend(near.iter().map(String::as_str));
    let reqs = ["*", "^1", "=1.0.0", ">=1.0.0, <2", "^2", "<1", "=1.0.0-alpha.1", ">=1.0.0-0", "^0.1"];
    for n in names {
        let all: Vec<usize> = (0..ps.len()).filter(|i| v.u.pkgs[ps[*i]].name == n).collect();
        let check = |m: krates::KrateMatch<'_, krates::Package>, i: usize| {
            m.node_id.index() == i && m.krate.id.repr == v.ids[ps[i]] && *m.kid == kid(v, ps[i])
        };
        let got: Vec<_> = k.krates_by_name(n).collect();
        if got.len() != all.len() || !got.into_iter().zip(&all).all(|(m, i)| check(m, *i)) {
            return bad(format!("krates_by_name({n:?})"));
        }
        for r in reqs {
            let req: krates::semver::VersionReq = r.parse().unwrap();
            let want: Vec<usize> = all
                .iter()
                .copied()
                .filter(|i| req.matches(&v.u.pkgs[ps[*i]].ver.parse().unwrap()))
                .collect();
            let got: Vec<_> = k.search_matches(n, req).collect();
            if got.len() != want.len() || !got.into_iter().zip(&want).all(|(m, i)| check(m, *i)) {
                return bad(format!("search_matches({n:?}, {r})"));
            }
        }
    }
    Ok(())
}
