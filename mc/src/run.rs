//! One check run, or the replay of one recorded counterexample: a property is a
//! function that hands its spaces to `Run`, which explores them (or, when
//! replaying, follows the recorded path in the space it names).
use crate::engine::{self, Flat, Outcome, Report, Space};
use crate::evidence::{self, ctx, thorough};
use std::time::Duration;

pub struct Target {
    pub space: String,
    pub base: usize,
    pub path: Vec<u16>,
    pub index: u64,
}

#[derive(Default)]
pub struct Run {
    pub rep: Report,
    pub assumptions: Vec<&'static str>,
    pub target: Option<Target>,
    pub replayed: bool,
}

impl Run {
    /// Remaining wall budget of the whole check
    pub fn left(&self) -> Duration {
        let total = Duration::from_secs(if thorough() { 800 } else { 150 });
        total.saturating_sub(ctx().start.elapsed())
    }

    fn skip(&self, name: &str) -> bool {
        match &self.target {
            Some(t) => t.space != name,
            None => self.rep.violation.is_some(),
        }
    }

    fn replayed(&mut self, shown: String, o: Outcome) {
        println!("replayed: {shown}");
        if o.invalid {
            println!("the state is no longer in the space");
        }
        for (k, s) in &o.known {
            println!("known {k}: {s}");
        }
        self.rep.states += 1;
        self.rep.violation = self.accept_known(&o).map(|v| (String::new(), v)).or(self.rep.violation.take());
        self.replayed = true;
    }

    fn accept_known(&self, o: &Outcome) -> Option<String> {
        if o.violation.is_some() {
            return o.violation.clone();
        }
        o.known
            .iter()
            .find(|(k, _)| !evidence::listed(k))
            .map(|(k, s)| format!("{s} (finding {k} is not listed)"))
    }

    pub fn bfs<P: Space>(&mut self, p: &P, depth: usize) {
        self.bfs_cap(p, depth, self.left())
    }

    pub fn bfs_cap<P: Space>(&mut self, p: &P, depth: usize, cap: Duration) {
        if self.skip(&p.name()) {
            return;
        }
        if let Some(t) = &self.target {
            let (st, o) = engine::replay(p, t.base, &t.path);
            self.replayed(p.show(&st), o);
            return;
        }
        let t0 = std::time::Instant::now();
        let r = engine::bfs(p, depth, cap.min(self.left()));
        eprintln!("{}: {} states, {} transitions, {:.1?}", p.name(), r.states, r.transitions, t0.elapsed());
        self.rep.absorb(r);
    }

    pub fn flat<F, G>(&mut self, name: &str, n: u64, check: F, show: G)
    where
        F: Fn(u64) -> Outcome + Sync,
        G: Fn(u64) -> String + Sync,
    {
        if self.skip(name) {
            return;
        }
        if let Some(t) = &self.target {
            let i = t.index;
            let o = check(i);
            self.replayed(show(i), o);
            return;
        }
        let t0 = std::time::Instant::now();
        let r = engine::enumerate(&Flat { name, n, check, show }, self.left());
        eprintln!("{name}: {} points, {:.1?}", r.transitions, t0.elapsed());
        self.rep.absorb(r);
    }
}
