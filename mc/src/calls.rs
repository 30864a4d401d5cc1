//! Every history of calls on the builder: settings accumulate, `workspace` is
//! the last one given, and nothing depends on the order.
use crate::bases::parse;
use crate::build_props::{A, diff};
use crate::engine::*;
use crate::model::*;
use crate::observe;
use crate::reference::*;
use crate::run::Run;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Call {
    Ignore(Kind, Sc),
    Workspace(bool),
    Exclude(&'static [S]),
    Include(&'static [S]),
    Targets(&'static [(S, &'static [S])]),
    Index,
}

fn calls() -> Vec<Call> {
    let mut v = Vec::new();
    for k in Kind::ALL {
        for s in [Sc::Ws, Sc::NonWs, Sc::All] {
            v.push(Call::Ignore(k, s));
        }
    }
    v.extend([Call::Workspace(true), Call::Workspace(false)]);
    v.extend([&["e"] as &[S], &["f", "g"], &["e@2.0.0", "f"], &[]].map(Call::Exclude));
    v.extend([&["/nx/ws/v"] as &[S], &["/nx/ws/w", "/nx/ws/nowhere"], &["/nx/ws"], &[]].map(Call::Include));
    v.extend(
        [
            &[("x86_64-unknown-linux-gnu", &[] as &[S])] as &[(S, &[S])],
            &[("x86_64-pc-windows-msvc", &["avx"])],
            &[("x86_64-pc-windows-msvc", &[])],
            &[],
        ]
        .map(Call::Targets),
    );
    v.push(Call::Index);
    v
}

/// Universes in which every setting makes a difference of its own
const UNIVERSES: &[&str] = &[
    "*w | a | b b | c d | v | e | f @cfg(unix)
     *v | a +n | b b +n | c d +n | g @cfg(windows) | h @cfg(target_feature=\"avx\")
     *x | o
     a | e | i b | f ? :: n=dep:f
     b | g | j b :: n=
     c | h | k b :: n=
     e
     f
     g
     h
     i
     j
     k
     o",
    "*!w | v | e d | f b @cfg(windows)
     *v | g b | h
     *x | h +s
     e | f
     f
     g | e ? @cfg(unix) :: default=e
     h | i ? :: s=i
     i",
];

struct Calls {
    calls: Vec<Call>,
    universes: Vec<(Universe, Resolved)>,
}

fn config(h: &[Call]) -> Config {
    let mut c = Config::default();
    for call in h {
        match *call {
            Call::Ignore(k, s) => c.ignore.push((k, s)),
            Call::Workspace(w) => c.workspace = w,
            Call::Exclude(e) => c.exclude.extend(e.iter().map(|e| {
                let (name, ver) = e.split_once('@').map_or((*e, None), |(n, v)| (n, Some(v)));
                Excl { name, ver, url: None }
            })),
            Call::Include(i) => c.ws.extend(i.iter().map(|d| Ws::Dir(d))),
            Call::Targets(t) => c.targets.extend(t.iter().map(|(t, f)| (*t, f.to_vec()))),
            Call::Index => {}
        }
    }
    c
}

impl Space for Calls {
    type St = (usize, Vec<Call>);
    fn name(&self) -> String {
        "histories of builder calls".into()
    }
    fn bases(&self) -> Vec<Self::St> {
        (0..self.universes.len()).map(|u| (u, vec![])).collect()
    }
    fn successors(&self, (u, h): &Self::St, f: &mut dyn FnMut(Self::St)) {
        for c in &self.calls {
            let mut h = h.clone();
            h.push(*c);
            f((*u, h));
        }
    }
    fn check(&self, (ui, h): &Self::St) -> Outcome {
        let (u, r) = &self.universes[*ui];
        let mut o = Outcome::default();
        let c = config(h);
        let want = expected(u, r, &c);
        let mut b = krates::Builder::new();
        for call in h {
            match *call {
                Call::Ignore(k, s) => b.ignore_kind(k.krates(), s.krates()),
                Call::Workspace(w) => b.workspace(w),
                Call::Exclude(e) => b.exclude(e.iter().map(|e| e.parse().unwrap())),
                Call::Include(i) => b.include_workspace_crates(i),
                Call::Targets(t) => {
                    b.include_targets(t.iter().map(|(t, f)| (*t, f.iter().map(|s| s.to_string()).collect::<Vec<_>>())))
                }
                Call::Index => b.with_crates_io_index(Box::new(|_| Default::default())),
            };
        }
        let m = metadata(u, r, false);
        let got = guarded(|| observe::run(b, m.md));
        o.runs += 1;
        o.violation = match got {
            Err(p) => Some(format!("panic: {p}")),
            Ok(Err(observe::Fail::NoRoot)) if want.is_none() => None,
            Ok(Err(e)) => Some(format!("build failed with {e:?}")),
            Ok(Ok(b)) => match &want {
                None => Some("an empty graph was expected to be an error".into()),
                Some(w) => {
                    let (g, bad) = observe::read(&b, &m.ids);
                    o.digest = hash64(&(ui, &g.krates, &g.feats, &g.edges));
                    diff(u, w, &g, &[A::Krates, A::Filtered, A::Feats, A::Edges, A::Mapping], &bad)
                }
            },
        };
        o
    }
    fn show(&self, (u, h): &Self::St) -> String {
        format!("{}{h:?}", show(&self.universes[*u].0))
    }
    fn dump(&self, (u, _): &Self::St) -> String {
        serde_json::to_string(&metadata(&self.universes[*u].0, &self.universes[*u].1, false).md).unwrap()
    }
}

pub fn histories(r: &mut Run, depth: usize) {
    
    let universes = UNIVERSES
        .iter()
        .map(|t| {
            let u = parse(t);
            let r = resolve(&u).expect("a valid universe");
            (u, r)
        })
        .collect();
    r.bfs(&Calls { calls: calls(), universes }, depth);
}
