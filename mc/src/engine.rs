//! Explicit-state exploration engine: breadth first search over a transition
//! system with hash-deduplicated states, and exhaustive enumeration of an index
//! space; every visited state runs the real implementation under a panic guard,
//! a hang watchdog and an allocation cap.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- allocator
pub struct Capped;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub const MEM_CAP: isize = 1 << 30;
thread_local!(static WORKER: Cell<usize> = const { Cell::new(usize::MAX) });
/// The worker that cannot go on, plus one
static STOPPED: AtomicUsize = AtomicUsize::new(0);
static ABORTED: AtomicBool = AtomicBool::new(false);

/// Leaves the rest to the watchdog
fn stopped() -> ! {
    STOPPED.store(WORKER.try_with(|w| w.get()).unwrap_or(usize::MAX).wrapping_add(1), SeqCst);
    loop {
        std::thread::sleep(Duration::from_secs(1));
    }
}

/// Why the worker stopped, if it did
fn stop_reason(worker: usize) -> Option<&'static str> {
    (STOPPED.load(SeqCst) == worker + 1)
        .then(|| if ABORTED.load(SeqCst) { "aborted (stack overflow, or a panic within a panic)" } else { "memory exhausted" })
}

unsafe extern "C" {
    fn signal(sig: i32, handler: usize) -> usize;
}
const SIGABRT: i32 = 6;

/// A stack overflow ends in an abort, still on the stack for signal handlers
extern "C" fn aborted(_: i32) {
    if WORKER.try_with(|w| w.get()).is_ok_and(|w| w != usize::MAX) {
        ABORTED.store(true, SeqCst);
        stopped();
    }
}

pub fn install_abort_handler() {
    let f: extern "C" fn(i32) = aborted;
    unsafe { signal(SIGABRT, f as usize) };
}

unsafe impl GlobalAlloc for Capped {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = LIVE.try_with(|c| {
            let n = c.get() + l.size() as isize;
            c.set(n);
            if n > MEM_CAP && ARMED.with(|a| a.get()) {
                stopped();
            }
        });
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as isize));
        unsafe { System.dealloc(p, l) }
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let armed = ARMED.try_with(|a| a.get()).unwrap_or(false);
        if armed {
            let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = i.to_string());
        } else {
            eprintln!("machinery failure: {i}");
            std::process::exit(2);
        }
    }));
}

/// Runs implementation code; a panic becomes Err(message)
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LIVE.with(|l| l.set(0));
    let was = ARMED.with(|a| a.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    ARMED.with(|a| a.set(was));
    r.map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
}

// ---------------------------------------------------------------- hashing
#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        self.0 ^= self.0 >> 29;
    }
}
pub fn hash128<T: Hash>(t: &T) -> u128 {
    let mut a = Fx(0x1234_5678_9abc_def1);
    let mut b = Fx(0xfeed_face_cafe_beef);
    t.hash(&mut a);
    b.write_u64(0x5851_F42D_4C95_7F2D);
    t.hash(&mut b);
    ((a.finish() as u128) << 64) | b.finish() as u128
}
pub fn hash64<T: Hash>(t: &T) -> u64 {
    let mut a = Fx(7);
    t.hash(&mut a);
    a.finish()
}

// ---------------------------------------------------------------- outcomes
#[derive(Default, Debug, Clone)]
pub struct Outcome {
    /// The state is outside the space (cargo would reject it); not expanded
    pub invalid: bool,
    /// Executions of the real implementation
    pub runs: u64,
    /// Digest of what the implementation produced
    pub digest: u64,
    pub violation: Option<String>,
    /// (finding id, description)
    pub known: Vec<(&'static str, String)>,
}

impl Outcome {
    /// A deviation that the known-findings file does not list is a violation
    fn settle(&mut self) {
        if self.violation.is_none()
            && let Some((k, s)) = self.known.iter().find(|(k, _)| !crate::evidence::listed(k))
        {
            self.violation = Some(format!("{s} (no known finding {k})"));
        }
    }
}

#[derive(Default)]
pub struct Report {
    pub states: u64,
    pub transitions: u64,
    pub runs: u64,
    pub invalid: u64,
    pub outcomes: HashSet<u64>,
    pub depths: BTreeMap<String, Vec<u64>>,
    pub samples: Vec<String>,
    pub capped: Option<String>,
    pub violation: Option<(String, String)>,
    pub known: BTreeMap<&'static str, (u64, String)>,
    pub bounds: Vec<String>,
    /// Further facts for the evidence
    pub extra: serde_json::Map<String, serde_json::Value>,
}

impl Report {
    pub fn absorb(&mut self, o: Report) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.runs += o.runs;
        self.invalid += o.invalid;
        self.outcomes.extend(o.outcomes);
        self.depths.extend(o.depths);
        self.samples.extend(o.samples);
        self.capped = self.capped.take().or(o.capped);
        self.violation = self.violation.take().or(o.violation);
        self.bounds.extend(o.bounds);
        self.extra.extend(o.extra);
        for (k, (n, s)) in o.known {
            let e = self.known.entry(k).or_insert((0, s));
            e.0 += n;
        }
    }
}

pub trait Space: Sync {
    type St: Clone + Hash + Send + Sync;
    fn name(&self) -> String;
    fn bases(&self) -> Vec<Self::St>;
    fn successors(&self, s: &Self::St, f: &mut dyn FnMut(Self::St));
    fn check(&self, s: &Self::St) -> Outcome;
    fn show(&self, s: &Self::St) -> String;
    /// Long form for replay files
    fn dump(&self, s: &Self::St) -> String {
        self.show(s)
    }
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get()).min(16)
}

const SHARDS: usize = 64;
type Seen = Vec<Mutex<HashSet<u128, BuildHasherDefault<IdHash>>>>;
#[derive(Default, Clone, Copy)]
pub struct IdHash(u64);
impl Hasher for IdHash {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u128(&mut self, i: u128) {
        self.0 = (i >> 64) as u64 ^ i as u64;
    }
}

struct Slot {
    start: AtomicU64,
    path: Mutex<(usize, Vec<u16>)>,
}

const TICK: Duration = Duration::from_millis(50);
/// Ticks of the watchdog (10 s) after which an execution is suspected to hang. Ticks,
/// not time: if the whole machine is stopped for a while, so is the watchdog
const HANG: u64 = 200;

/// Repeats an execution that is suspected to hang, and reports it if it does so again
fn suspect(again: impl FnOnce() + Send, report: impl FnOnce()) {
    let done = AtomicBool::new(false);
    std::thread::scope(|s| {
        s.spawn(|| {
            again();
            done.store(true, SeqCst);
        });
        for _ in 0..2 * HANG {
            std::thread::sleep(TICK);
            if done.load(SeqCst) {
                return;
            }
        }
        report();
        // The thread that hangs can't be joined
        std::process::exit(1);
    })
}

/// What the watchdog has seen of a worker: when its execution began, for how many
/// ticks, and how often it was suspected
#[derive(Default, Clone)]
struct Watched {
    start: u64,
    ticks: u64,
}

impl Watched {
    fn suspicious(&mut self, start: u64) -> bool {
        if start == 0 || start != self.start {
            *self = Self { start, ..Default::default() };
            return false;
        }
        self.ticks += 1;
        self.ticks > HANG
    }
}

#[derive(Clone)]
pub struct Node<T> {
    base: usize,
    path: Vec<u16>,
    st: T,
}

pub fn bfs<P: Space>(p: &P, depth: usize, cap: Duration) -> Report {
    let t0 = Instant::now();
    let n = threads();
    let slots: Vec<Slot> = (0..n)
        .map(|_| Slot { start: AtomicU64::new(0), path: Mutex::default() })
        .collect();
    let seen: Seen = (0..SHARDS).map(|_| Mutex::default()).collect();
    let fresh = |s: &P::St| {
        let h = hash128(s);
        seen[(h >> 100) as usize % SHARDS].lock().unwrap().insert(h)
    };
    let mut rep = Report::default();
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let viol: Mutex<Option<(usize, Vec<u16>, String)>> = Mutex::new(None);
    let capped = AtomicBool::new(false);
    let now = || t0.elapsed().as_millis() as u64 + 1;

    std::thread::scope(|outer| {
        // Watchdog: a hang (or runaway allocation) of the implementation
        let watch = outer.spawn(|| {
            let mut watched = vec![Watched::default(); n];
            while !done.load(SeqCst) {
                std::thread::park_timeout(TICK);
                for (i, (s, w)) in slots.iter().zip(&mut watched).enumerate() {
                    let st = s.start.load(SeqCst);
                    if let Some(why) = stop_reason(i) {
                        let (b, path) = s.path.lock().unwrap().clone();
                        crate::evidence::die_violation(&crate::evidence::write_replay(p, b, &path, why), why);
                    }
                    if w.suspicious(st) {
                        let (b, path) = s.path.lock().unwrap().clone();
                        let why = "no termination";
                        let (b, path) = (b, &path);
                        suspect(
                            || drop(replay(p, b, path)),
                            || crate::evidence::die_violation(&crate::evidence::write_replay(p, b, path, why), why),
                        );
                        w.ticks = 0;
                    }
                }
            }
        });

        let check_one = |w: usize, base: usize, path: &[u16], st: &P::St| -> Outcome {
            {
                let mut l = slots[w].path.lock().unwrap();
                l.0 = base;
                l.1.clear();
                l.1.extend_from_slice(path);
            }
            WORKER.set(w);
            slots[w].start.store(now(), SeqCst);
            let mut o = p.check(st);
            slots[w].start.store(0, SeqCst);
            WORKER.set(usize::MAX);
            o.settle();
            o
        };

        let mut frontier: Vec<Node<P::St>> = Vec::new();
        let bases = p.bases();
        let mut lvl0 = 0u64;
        for (b, st) in bases.into_iter().enumerate() {
            if !fresh(&st) {
                continue;
            }
            let o = check_one(0, b, &[], &st);
            if o.invalid {
                panic!("base {b} of {} is not valid: {}", p.name(), p.show(&st));
            }
            lvl0 += 1;
            rep.runs += o.runs;
            rep.outcomes.insert(o.digest);
            for (k, s) in o.known {
                rep.known.entry(k).or_insert((0, s)).0 += 1;
            }
            if let Some(v) = o.violation {
                *viol.lock().unwrap() = Some((b, vec![], v));
                stop.store(true, SeqCst);
            }
            if rep.samples.len() < 2 {
                rep.samples.push(p.show(&st));
            }
            frontier.push(Node { base: b, path: vec![], st });
        }
        rep.states += lvl0;
        let mut levels = vec![lvl0];

        for d in 1..=depth {
            if stop.load(SeqCst) {
                break;
            }
            let next: Mutex<Vec<Node<P::St>>> = Mutex::new(Vec::new());
            let cursor = AtomicUsize::new(0);
            let agg: Mutex<Report> = Mutex::new(Report::default());
            let fr = &frontier;
            std::thread::scope(|sc| {
            let handles: Vec<_> = (0..n)
                .map(|w| {
                    let (next, cursor, agg, stop, viol, capped) =
                        (&next, &cursor, &agg, &stop, &viol, &capped);
                    let check_one = &check_one;
                    let fresh = &fresh;
                    sc.spawn(move || {
                        let mut r = Report::default();
                        let mut out = Vec::new();
                        loop {
                            let i = cursor.fetch_add(1, SeqCst);
                            if i >= fr.len() || stop.load(SeqCst) {
                                break;
                            }
                            if t0.elapsed() > cap {
                                capped.store(true, SeqCst);
                                stop.store(true, SeqCst);
                                break;
                            }
                            let node = &fr[i];
                            let mut k: u16 = 0;
                            let mut path = node.path.clone();
                            path.push(0);
                            p.successors(&node.st, &mut |st| {
                                let me = k;
                                k = k.checked_add(1).expect("too many successors");
                                if stop.load(SeqCst) {
                                    return;
                                }
                                r.transitions += 1;
                                if !fresh(&st) {
                                    return;
                                }
                                *path.last_mut().unwrap() = me;
                                let o = check_one(w, node.base, &path, &st);
                                if o.invalid {
                                    r.invalid += 1;
                                    return;
                                }
                                r.states += 1;
                                r.runs += o.runs;
                                r.outcomes.insert(o.digest);
                                for (k, s) in o.known {
                                    r.known.entry(k).or_insert((0, s)).0 += 1;
                                }
                                if let Some(v) = o.violation {
                                    let mut l = viol.lock().unwrap();
                                    if l.is_none() {
                                        *l = Some((node.base, path.clone(), v));
                                    }
                                    stop.store(true, SeqCst);
                                    return;
                                }
                                if r.states % 5000 == 1 && r.samples.len() < 2 {
                                    r.samples.push(p.show(&st));
                                }
                                if d < depth {
                                    out.push(Node { base: node.base, path: path.clone(), st });
                                }
                            });
                        }
                        next.lock().unwrap().append(&mut out);
                        agg.lock().unwrap().absorb(r);
                    })
                })
                .collect();
            for h in handles {
                h.join().unwrap();
            }
            });
            let a = agg.into_inner().unwrap();
            levels.push(a.states);
            rep.absorb(a);
            if capped.load(SeqCst) {
                rep.capped = Some(format!(
                    "{}: wall cap {}s hit in depth {d}; depth {} is complete",
                    p.name(),
                    cap.as_secs(),
                    d - 1
                ));
            }
            frontier = next.into_inner().unwrap();
            // Deterministic order for the next level
            frontier.sort_by(|a, b| (a.base, &a.path).cmp(&(b.base, &b.path)));
        }
        rep.bounds.push(format!(
            "{}: {} initial states, all edit sequences up to depth {}",
            p.name(),
            lvl0,
            if rep.capped.is_some() { levels.len() - 2 } else { depth }
        ));
        rep.depths.insert(p.name(), levels);
        done.store(true, SeqCst);
        watch.thread().unpark();
    });

    if let Some((b, path, why)) = viol.into_inner().unwrap() {
        let file = crate::evidence::write_replay(p, b, &path, &why);
        rep.violation = Some((file, why));
    }
    rep
}

/// Follows a recorded edit path
pub fn replay<P: Space>(p: &P, base: usize, path: &[u16]) -> (P::St, Outcome) {
    let mut st = p.bases().into_iter().nth(base).expect("no such base");
    for &e in path {
        let mut k = 0u16;
        let mut found = None;
        p.successors(&st, &mut |s| {
            if k == e {
                found = Some(s);
            }
            k += 1;
        });
        st = found.expect("replay diverged: no such edit");
    }
    let o = p.check(&st);
    (st, o)
}

/// A flat, completely enumerated space
pub struct Flat<'a, F, G> {
    pub name: &'a str,
    pub n: u64,
    pub check: F,
    pub show: G,
}

pub fn enumerate<F, G>(f: &Flat<'_, F, G>, cap: Duration) -> Report
where
    F: Fn(u64) -> Outcome + Sync,
    G: Fn(u64) -> String + Sync,
{
    let t0 = Instant::now();
    let n = threads();
    let cursor = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let now = || t0.elapsed().as_millis() as u64 + 1;
    let slots: Vec<(AtomicU64, AtomicU64)> = (0..n).map(|_| Default::default()).collect();
    let agg: Mutex<Report> = Mutex::new(Report::default());
    let viol: Mutex<Option<(u64, String)>> = Mutex::new(None);
    const CHUNK: u64 = 64;
    std::thread::scope(|sc| {
        let handles: Vec<_> = (0..n)
            .map(|w| {
                let (cursor, stop, slots, agg, viol) = (&cursor, &stop, &slots, &agg, &viol);
                sc.spawn(move || {
                    let mut r = Report::default();
                    'o: loop {
                        let b = cursor.fetch_add(CHUNK, SeqCst);
                        if b >= f.n || stop.load(SeqCst) {
                            break;
                        }
                        if t0.elapsed() > cap {
                            r.capped = Some(format!("{}: wall cap {}s hit at {b} of {}", f.name, cap.as_secs(), f.n));
                            stop.store(true, SeqCst);
                            break;
                        }
                        for i in b..(b + CHUNK).min(f.n) {
                            slots[w].1.store(i, SeqCst);
                            WORKER.set(w);
                            slots[w].0.store(now(), SeqCst);
                            let mut o = (f.check)(i);
                            slots[w].0.store(0, SeqCst);
                            WORKER.set(usize::MAX);
                            o.settle();
                            r.transitions += 1;
                            if o.invalid {
                                r.invalid += 1;
                                continue;
                            }
                            r.states += 1;
                            r.runs += o.runs;
                            r.outcomes.insert(o.digest);
                            for (k, s) in o.known {
                                r.known.entry(k).or_insert((0, s)).0 += 1;
                            }
                            if let Some(v) = o.violation {
                                let mut l = viol.lock().unwrap();
                                if l.as_ref().is_none_or(|(j, _)| *j > i) {
                                    *l = Some((i, v));
                                }
                                stop.store(true, SeqCst);
                                break 'o;
                            }
                            if r.samples.len() < 1 && r.states % 97 == 1 {
                                r.samples.push((f.show)(i));
                            }
                        }
                    }
                    agg.lock().unwrap().absorb(r);
                })
            })
            .collect();
        let mut watched = vec![Watched::default(); n];
        let mut tick = Instant::now();
        while !handles.iter().all(|h| h.is_finished()) {
            std::thread::sleep(Duration::from_millis(2));
            if tick.elapsed() < TICK {
                continue;
            }
            tick = Instant::now();
            for (k, (s, w)) in slots.iter().zip(&mut watched).enumerate() {
                let st = s.0.load(SeqCst);
                let i = s.1.load(SeqCst);
                let report = |why: &str| {
                    let file = crate::evidence::write_flat_replay(f.name, i, &(f.show)(i), why);
                    crate::evidence::die_violation(&file, why)
                };
                if let Some(why) = stop_reason(k) {
                    report(why);
                }
                if w.suspicious(st) {
                    suspect(|| drop((f.check)(i)), || report("no termination"));
                    w.ticks = 0;
                }
            }
        }
        done.store(true, SeqCst);
        for h in handles {
            h.join().unwrap();
        }
    });
    let mut rep = agg.into_inner().unwrap();
    rep.samples.truncate(3);
    rep.bounds.push(format!("{}: {} of {} points", f.name, rep.transitions, f.n));
    if let Some((i, why)) = viol.into_inner().unwrap() {
        let file = crate::evidence::write_flat_replay(f.name, i, &(f.show)(i), &why);
        rep.violation = Some((file, why));
    }
    rep
}
