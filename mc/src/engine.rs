//! Exhaustive, stateless-by-default exploration of executions of the real code.
//!
//! A scenario is a closure that owns all its nondeterminism: every decision is taken by [`Ctx::choose`].
//! The explorer runs the closure for every sequence of decisions (depth first, in parallel). A scenario may
//! cut an execution if it reaches a state (given by a canonical fingerprint of everything which influences
//! the future) from which at least as many further steps have been explored ([`Ctx::visited`]).
use std::{
    collections::{hash_map::DefaultHasher, HashMap, HashSet, VecDeque},
    hash::{Hash, Hasher},
    io::Write,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

use crate::det;

pub type Body = Arc<dyn Fn(&mut Ctx) + Send + Sync>;

pub struct Scn {
    pub name: String,
    pub body: Body,
    /// Every execution gets its own thread, so that the keys of hash maps only depend on the path.
    pub fresh: bool,
}

impl Scn {
    pub fn new(name: impl Into<String>, body: impl Fn(&mut Ctx) + Send + Sync + 'static) -> Self {
        Self {
            name: name.into(),
            body: Arc::new(body),
            fresh: false,
        }
    }

    /// A scenario that runs brokers.
    pub fn exec(name: impl Into<String>, body: impl Fn(&mut Ctx) + Send + Sync + 'static) -> Self {
        Self {
            name: name.into(),
            body: Arc::new(body),
            fresh: true,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    /// What is enumerated, and what makes an execution count as distinct and non-trivial.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub scenarios: fn(Tier) -> Vec<Scn>,
}

struct Stop;

#[derive(Clone, Debug)]
pub struct Violation {
    pub key: String,
    pub msg: String,
    pub scenario: String,
    pub path: Vec<u16>,
}

pub struct Ctx {
    prefix: Vec<u16>,
    pos: usize,
    taken: Vec<(u16, u16)>,
    labels: Vec<String>,
    pub tracing: bool,
    steps: u64,
    outcome: Option<u64>,
    violation: Option<(String, String)>,
    visited: Option<Arc<Visited>>,
    pruned: bool,
    nontrivial: bool,
    slot: Option<usize>,
    tag: String,
}

struct Visited {
    shards: Vec<Mutex<HashMap<u64, u16>>>,
}

impl Visited {
    fn new() -> Self {
        Self {
            shards: (0..64).map(|_| Mutex::new(HashMap::new())).collect(),
        }
    }
    // True if the state has already been reached with at least 'remaining' steps to go.
    fn check(&self, key: u64, remaining: u16) -> bool {
        let mut m = self.shards[(key % 64) as usize].lock().unwrap();
        match m.get_mut(&key) {
            Some(r) if *r >= remaining => true,
            Some(r) => {
                *r = remaining;
                false
            }
            None => {
                m.insert(key, remaining);
                false
            }
        }
    }
    fn len(&self) -> u64 {
        self.shards
            .iter()
            .map(|s| s.lock().unwrap().len() as u64)
            .sum()
    }
}

pub fn fp(v: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

impl Ctx {
    fn new(prefix: Vec<u16>, visited: Option<Arc<Visited>>, tracing: bool) -> Self {
        Self {
            prefix,
            pos: 0,
            taken: vec![],
            labels: vec![],
            tracing,
            steps: 0,
            outcome: None,
            violation: None,
            visited,
            pruned: false,
            nontrivial: true,
            slot: None,
            tag: String::new(),
        }
    }

    /// Takes one of n decisions.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0 && n < 65536, "choose({n})");
        if n == 1 {
            return 0;
        }
        let c = if self.pos < self.prefix.len() {
            let c = self.prefix[self.pos];
            if c as usize >= n {
                // The execution isn't a function of its path: this must never happen.
                panic!(
                    "NONDETERMINISM: replaying decision {} of {:?} with only {n} choices",
                    self.pos, self.prefix
                );
            }
            c
        } else {
            0
        };
        self.pos += 1;
        self.taken.push((c, n as u16));
        if let Some(slot) = self.slot {
            crumbs::push(slot, c);
        }
        c as usize
    }

    pub fn flip(&mut self) -> bool {
        self.choose(2) == 1
    }

    pub fn pick<'a, T>(&mut self, l: &'a [T]) -> &'a T {
        &l[self.choose(l.len())]
    }

    /// One transition of the system has been executed.
    pub fn step(&mut self) {
        self.steps += 1;
    }

    pub fn label(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            self.labels.push(f());
        }
    }

    /// Returns true if the rest of this execution has already been explored.
    pub fn visited(&mut self, key: &impl Hash, remaining: usize) -> bool {
        if self.pos < self.prefix.len() {
            return false;
        }
        if let Some(v) = &self.visited {
            if v.check(fp(key), remaining as u16) {
                self.pruned = true;
                return true;
            }
        }
        false
    }

    /// Marks the end of an execution with a fingerprint of what has been observed.
    pub fn outcome(&mut self, key: &impl Hash) {
        self.outcome = Some(fp(key));
    }

    pub fn trivial(&mut self) {
        self.nontrivial = false;
    }

    /// The property doesn't hold. The key identifies the failing input, call site or history.
    pub fn fail(&mut self, key: impl Into<String>, msg: impl Into<String>) -> ! {
        self.violation = Some((format!("{}{}", key.into(), self.tag), msg.into()));
        std::panic::panic_any(Stop)
    }

    /// Appends the input to the key of every later violation, so that a finding names it.
    pub fn tag(&mut self, input: &str) {
        self.tag = format!(" {input}");
    }

    pub fn check(&mut self, cond: bool, key: &str, msg: impl FnOnce() -> String) {
        if !cond {
            self.fail(key, msg())
        }
    }

    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, got: &T, want: &T, key: &str) {
        if got != want {
            self.fail(key, format!("got {got:?} instead of {want:?}"))
        }
    }
}

/// Leaves the current path of every worker in a shared mapping, so that the parent process can tell
/// what happened if this process dies.
pub mod crumbs {
    use std::sync::atomic::{AtomicPtr, Ordering};
    pub const SLOT: usize = 4096;
    pub const SLOTS: usize = 32;
    static BASE: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());

    pub fn init(file: &str) {
        use std::os::fd::AsRawFd;
        if let Ok(f) = std::fs::OpenOptions::new().read(true).write(true).open(file) {
            unsafe {
                let p = libc::mmap(
                    std::ptr::null_mut(),
                    SLOT * SLOTS,
                    libc::PROT_READ | libc::PROT_WRITE,
                    libc::MAP_SHARED,
                    f.as_raw_fd(),
                    0,
                );
                if p != libc::MAP_FAILED {
                    BASE.store(p as *mut u8, Ordering::SeqCst);
                }
            }
        }
    }

    // Slot layout: u16 scenario, u16 active, u16 len, then the choices
    fn at(slot: usize, i: usize) -> Option<*mut u16> {
        let b = BASE.load(Ordering::Relaxed);
        if b.is_null() || slot >= SLOTS || i * 2 + 2 > SLOT {
            return None;
        }
        Some(unsafe { (b.add(slot * SLOT) as *mut u16).add(i) })
    }

    fn put(slot: usize, i: usize, v: u16) {
        if let Some(p) = at(slot, i) {
            unsafe { p.write_volatile(v) }
        }
    }

    pub fn start(slot: usize, scn: usize) {
        put(slot, 0, scn as u16);
        put(slot, 2, 0);
        put(slot, 1, 1);
    }

    pub fn end(slot: usize) {
        put(slot, 1, 0);
    }

    pub fn push(slot: usize, c: u16) {
        if let Some(p) = at(slot, 2) {
            let l = unsafe { p.read_volatile() };
            put(slot, 3 + l as usize, c);
            put(slot, 2, l + 1);
        }
    }

    /// The (scenario, path) of a slot with an active execution.
    pub fn read(raw: &[u8], slot: usize) -> Option<(usize, Vec<u16>)> {
        let g = |i: usize| {
            let o = slot * SLOT + 2 * i;
            raw.get(o..o + 2).map(|b| u16::from_le_bytes([b[0], b[1]]))
        };
        if g(1)? != 1 {
            return None;
        }
        let len = g(2)? as usize;
        Some((g(0)? as usize, (0..len).filter_map(|i| g(3 + i)).collect()))
    }

    pub fn live(slot: usize) -> Option<(usize, Vec<u16>)> {
        let b = BASE.load(Ordering::Relaxed);
        if b.is_null() {
            return None;
        }
        let raw = unsafe { std::slice::from_raw_parts(b, SLOT * SLOTS) };
        read(raw, slot)
    }
}

thread_local! {
    static PANIC_MSG: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

/// The message and location of the last panic in this thread.
pub fn take_panic() -> Option<String> {
    PANIC_MSG.with(|p| p.borrow_mut().take())
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().downcast_ref::<Stop>().is_some() {
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC_MSG.with(|p| {
            // Keep the first one
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some(format!("{msg} @ {loc}"));
            }
        });
        if std::env::var("MC_BACKTRACE").is_ok() {
            eprintln!("{msg} @ {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
    }));
}

/// Runs one execution in the current thread.
fn run_here(body: &Body, c: &mut Ctx) {
    let _ = take_panic();
    let res = catch_unwind(AssertUnwindSafe(|| body(c)));
    if let Err(p) = res {
        if p.downcast_ref::<Stop>().is_none() {
            let msg = take_panic().unwrap_or("panic".into());
            if msg.starts_with("NONDETERMINISM") {
                eprintln!("HARNESS ERROR: {msg}");
                std::process::exit(2);
            }
            if c.violation.is_none() {
                c.violation = Some(("panic".into(), format!("panic: {msg}")));
            }
        }
    }
}

const STACK: usize = 8 << 20;

fn run_one(scn: &Scn, mut c: Ctx) -> Ctx {
    if scn.fresh {
        let body = scn.body.clone();
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn(move || {
                det::reset(SEED.load(Ordering::Relaxed));
                run_here(&body, &mut c);
                c
            })
            .expect("thread")
            .join()
            .expect("join")
    } else {
        run_here(&scn.body, &mut c);
        c
    }
}

pub static SEED: AtomicU64 = AtomicU64::new(1);

#[derive(Default)]
struct Stats {
    executions: AtomicU64,
    transitions: AtomicU64,
    decisions: AtomicU64,
    pruned: AtomicU64,
    max_len: AtomicUsize,
}

pub struct Known {
    pub list: Vec<(String, String, String)>, // property, key, text
}

impl Known {
    pub fn load(file: &str) -> Self {
        let mut list = vec![];
        if let Ok(s) = std::fs::read_to_string(file) {
            if let Ok(v) = serde_json::from_str::<serde_json::Value>(&s) {
                for e in v["findings"].as_array().cloned().unwrap_or_default() {
                    list.push((
                        e["property"].as_str().unwrap_or("").into(),
                        e["key"].as_str().unwrap_or("").into(),
                        e["what"].as_str().unwrap_or("").into(),
                    ));
                }
            }
        }
        Known { list }
    }
    fn find(&self, prop: &str, key: &str) -> Option<&(String, String, String)> {
        self.list.iter().find(|(p, k, _)| p == prop && k == key)
    }
}

struct Shared {
    queue: Mutex<VecDeque<Vec<u16>>>,
    busy: AtomicUsize,
    stop: AtomicBool,
    violations: Mutex<Vec<Violation>>,
    known_hit: Mutex<HashMap<String, u64>>,
    outcomes: Mutex<HashSet<u64>>,
    samples: Mutex<Vec<(Vec<u16>, Option<u64>)>>,
    stats: Stats,
    running: Vec<Mutex<Option<Instant>>>,
}

pub fn rss_bytes() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|v| v.parse::<u64>().ok()))
        .map(|p| p * 4096)
        .unwrap_or(0)
}

pub struct Options {
    pub tier: Tier,
    pub seed: u64,
    pub workers: usize,
    pub wall: Duration,
    pub hang: Duration,
    pub keep_going: bool,
    pub only: Option<String>,
    pub out_dir: String,
}

/// Everything which has been measured for one property.
pub struct Outcome {
    pub violations: Vec<Violation>,
    pub known: HashMap<String, u64>,
    pub coverage: serde_json::Value,
    pub totals: [u64; 7],
}

pub fn explore(p: &Prop, o: &Options, known: &Known) -> Outcome {
    let start = Instant::now();
    SEED.store(o.seed, Ordering::Relaxed);
    let scns: Vec<Scn> = (p.scenarios)(o.tier);
    let mut all_viol: Vec<Violation> = vec![];
    let mut all_known: HashMap<String, u64> = HashMap::new();
    let mut tot = [0u64; 7];
    let mut per = vec![];
    let mut samples = vec![];
    let mut exhaustive = true;
    let mut det_checked = 0u64;
    for (scn_idx, scn) in scns.iter().enumerate() {
        if let Some(only) = &o.only {
            if !scn.name.contains(only.as_str()) {
                continue;
            }
        }
        let scn_start = Instant::now();
        let visited = Arc::new(Visited::new());
        let sh = Shared {
            queue: Mutex::new(VecDeque::from([vec![]])),
            busy: AtomicUsize::new(0),
            stop: AtomicBool::new(false),
            violations: Mutex::new(vec![]),
            known_hit: Mutex::new(HashMap::new()),
            outcomes: Mutex::new(HashSet::new()),
            samples: Mutex::new(vec![]),
            stats: Stats::default(),
            running: (0..o.workers).map(|_| Mutex::new(None)).collect(),
        };
        let done = AtomicBool::new(false);
        std::thread::scope(|s| {
            let mut hs = vec![];
            for w in 0..o.workers {
                let sh = &sh;
                let visited = &visited;
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(STACK)
                        .spawn_scoped(s, move || worker(w, scn_idx, scn, p, o, known, sh, visited))
                        .expect("worker"),
                );
            }
            // The monitor
            let sh = &sh;
            let done = &done;
            s.spawn(move || {
                let mut beat = 0u64;
                while !done.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(20));
                    beat += 1;
                    if start.elapsed() > o.wall {
                        sh.stop.store(true, Ordering::Relaxed);
                    }
                    if beat % 5 != 0 {
                        continue;
                    }
                    let rss = rss_bytes();
                    let mut worst: Option<(usize, Duration)> = None;
                    for (w, r) in sh.running.iter().enumerate() {
                        if let Some(t) = *r.lock().unwrap() {
                            let el = t.elapsed();
                            if worst.map(|(_, d)| el > d).unwrap_or(true) {
                                worst = Some((w, el));
                            }
                        }
                    }
                    if let Some((w, el)) = worst {
                        let mem = rss > (14 << 30) && el > Duration::from_secs(2);
                        if el > o.hang || mem {
                            let path = crumbs::live(w).map(|(_, p)| p).unwrap_or_default();
                            let v = Violation {
                                key: if mem { "memory" } else { "hang" }.into(),
                                msg: format!(
                                    "the execution does not end: running for {:.1}s, memory {}MB",
                                    el.as_secs_f64(),
                                    rss >> 20
                                ),
                                scenario: scn.name.clone(),
                                path,
                            };
                            if known.find(p.id, &v.key).is_none() {
                                report_and_exit(p, o, &v);
                            }
                        }
                    }
                }
            });
            for h in hs {
                let _ = h.join();
            }
            done.store(true, Ordering::Relaxed);
        });
        if start.elapsed() > o.wall {
            exhaustive = false;
        }
        let st = &sh.stats;
        let n_out = sh.outcomes.lock().unwrap().len() as u64;
        let row = [
            st.executions.load(Ordering::Relaxed),
            st.transitions.load(Ordering::Relaxed),
            st.decisions.load(Ordering::Relaxed),
            st.pruned.load(Ordering::Relaxed),
            visited.len(),
            n_out,
            st.max_len.load(Ordering::Relaxed) as u64,
        ];
        for i in 0..6 {
            tot[i] += row[i];
        }
        tot[6] = tot[6].max(row[6]);
        // Replay some executions: the same path must give the same observations.
        let sm = sh.samples.lock().unwrap().clone();
        for (path, out) in sm.iter().take(3) {
            let c = run_one(scn, Ctx::new(path.clone(), None, true));
            if c.outcome != *out && out.is_some() && c.violation.is_none() {
                eprintln!(
                    "HARNESS ERROR: {}/{}: replay of {path:?} gives another outcome",
                    p.id, scn.name
                );
                std::process::exit(2);
            }
            det_checked += 1;
            if samples.len() < 6 || (samples.len() < 12 && scn_idx + 2 > scns.len()) {
                let mut l = c.labels.join("; ");
                if l.len() > 600 {
                    let mut cut = 600;
                    while !l.is_char_boundary(cut) {
                        cut -= 1;
                    }
                    l.truncate(cut);
                    l.push_str("...");
                }
                samples.push(format!("{}: {:?} => {}", scn.name, path, l));
            }
        }
        per.push(serde_json::json!({
            "scenario": scn.name, "executions": row[0], "transitions": row[1], "decisions": row[2],
            "pruned": row[3], "states": row[4], "distinct_outcomes": row[5], "max_decisions": row[6],
            "wall_s": scn_start.elapsed().as_secs_f64(),
        }));
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("{}", per.last().unwrap());
        }
        for (k, n) in sh.known_hit.lock().unwrap().iter() {
            *all_known.entry(k.clone()).or_insert(0) += n;
        }
        let v = sh.violations.lock().unwrap().clone();
        all_viol.extend(v);
        if !all_viol.is_empty() && !o.keep_going {
            break;
        }
        if start.elapsed() > o.wall {
            break;
        }
    }
    // Keep the evidence file readable.
    if per.len() > 60 {
        per.sort_by_key(|e| std::cmp::Reverse(e["executions"].as_u64().unwrap_or(0)));
        per.truncate(60);
    }
    let mut coverage = serde_json::json!({
        "rule": p.rule,
        "samples": samples,
        "exhaustive": exhaustive,
        "transitions": tot[1],
        "decisions": tot[2],
        "max_decisions_per_execution": tot[6],
        "replayed_for_determinism": det_checked,
        "scenarios": per,
        "known_findings_hit": all_known,
    });
    if p.level == "model_checking" {
        coverage["states"] = tot[4].into();
        coverage["traces_validated_against_impl"] = tot[0].into();
        coverage["distinct_outcomes"] = tot[5].into();
        coverage["pruned_executions"] = tot[3].into();
    } else {
        coverage["evaluations"] = tot[0].into();
        coverage["distinct_nontrivial"] = tot[5].into();
    }
    Outcome {
        violations: all_viol,
        known: all_known,
        coverage,
        totals: tot,
    }
}

#[allow(clippy::too_many_arguments)]
fn worker(
    w: usize,
    scn_idx: usize,
    scn: &Scn,
    p: &Prop,
    o: &Options,
    known: &Known,
    sh: &Shared,
    visited: &Arc<Visited>,
) {
    det::reset(o.seed);
    let mut outcomes = HashSet::new();
    let mut local: Vec<Vec<u16>> = vec![];
    loop {
        if sh.stop.load(Ordering::Relaxed) {
            break;
        }
        let prefix = if let Some(p) = local.pop() {
            p
        } else {
            let mut q = sh.queue.lock().unwrap();
            match q.pop_back() {
                Some(p) => {
                    sh.busy.fetch_add(1, Ordering::SeqCst);
                    p
                }
                None => {
                    drop(q);
                    if sh.busy.load(Ordering::SeqCst) == 0 && sh.queue.lock().unwrap().is_empty() {
                        break;
                    }
                    std::thread::sleep(Duration::from_micros(200));
                    continue;
                }
            }
        };
        let plen = prefix.len();
        let mut c = Ctx::new(prefix, Some(visited.clone()), false);
        c.slot = Some(w);
        crumbs::start(w, scn_idx);
        *sh.running[w].lock().unwrap() = Some(Instant::now());
        let c = run_one(scn, c);
        *sh.running[w].lock().unwrap() = None;
        crumbs::end(w);
        let st = &sh.stats;
        let n = st.executions.fetch_add(1, Ordering::Relaxed);
        st.transitions.fetch_add(c.steps, Ordering::Relaxed);
        st.decisions
            .fetch_add((c.taken.len() - plen.min(c.taken.len())) as u64, Ordering::Relaxed);
        st.max_len.fetch_max(c.taken.len(), Ordering::Relaxed);
        if c.pruned {
            st.pruned.fetch_add(1, Ordering::Relaxed);
        }
        let path: Vec<u16> = c.taken.iter().map(|t| t.0).collect();
        if let Some((key, msg)) = c.violation {
            if known.find(p.id, &key).is_some() {
                *sh.known_hit.lock().unwrap().entry(key).or_insert(0) += 1;
            } else {
                let mut v = sh.violations.lock().unwrap();
                if v.len() < 50 && !v.iter().any(|x| x.key == key) {
                    v.push(Violation {
                        key,
                        msg,
                        scenario: scn.name.clone(),
                        path: path.clone(),
                    });
                }
                if !o.keep_going {
                    sh.stop.store(true, Ordering::Relaxed);
                }
            }
        } else if !c.pruned {
            if let (Some(out), true) = (c.outcome, c.nontrivial) {
                outcomes.insert(out);
            }
            if n < 1 || n == 1000 || n == 20000 {
                sh.samples.lock().unwrap().push((path.clone(), c.outcome));
            }
        }
        // All alternatives of the decisions that have been taken for the first time.
        for i in plen..c.taken.len() {
            for alt in 1..c.taken[i].1 {
                let mut np = path[..i].to_vec();
                np.push(alt);
                local.push(np);
            }
        }
        // Share the shortest prefixes with the other workers.
        if local.len() > 1 {
            let mut q = sh.queue.lock().unwrap();
            if q.len() < 4 * o.workers {
                let give = (local.len() / 2).min(64).max(1);
                for pfx in local.drain(..give) {
                    q.push_front(pfx);
                }
            }
        }
        if local.is_empty() {
            sh.busy.fetch_sub(1, Ordering::SeqCst);
        }
    }
    sh.outcomes.lock().unwrap().extend(outcomes);
}

pub fn write_replay(p: &Prop, o: &Options, v: &Violation) -> String {
    // Run it once more with tracing - in case it ends.
    let labels = if v.key == "hang" || v.key == "memory" || v.key == "crash" {
        vec![]
    } else {
        (p.scenarios)(o.tier)
            .iter()
            .find(|s| s.name == v.scenario)
            .map(|s| run_one(s, Ctx::new(v.path.clone(), None, true)).labels)
            .unwrap_or_default()
    };
    let dir = format!("{}/replays", o.out_dir);
    let _ = std::fs::create_dir_all(&dir);
    let file = format!("{dir}/{}-{:016x}.json", p.id, fp(&(&v.scenario, &v.path, &v.key)));
    let js = serde_json::json!({
        "property": p.id, "scenario": v.scenario, "tier": format!("{:?}", o.tier),
        "seed": o.seed, "path": v.path, "key": v.key, "message": v.msg, "trace": labels,
    });
    if let Ok(mut f) = std::fs::File::create(&file) {
        let _ = f.write_all(serde_json::to_string_pretty(&js).unwrap().as_bytes());
    }
    file
}

fn report_and_exit(p: &Prop, o: &Options, v: &Violation) -> ! {
    let file = write_replay(p, o, v);
    println!("{}: {} [{}]: {}", p.id, v.scenario, v.key, v.msg);
    println!("VIOLATION property={} replay={}", p.id, file);
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(1) }
}

/// Runs a recorded path with tracing.
pub fn replay(p: &Prop, tier: Tier, seed: u64, scenario: &str, path: Vec<u16>) -> bool {
    SEED.store(seed, Ordering::Relaxed);
    det::reset(seed);
    for s in (p.scenarios)(tier) {
        if s.name == scenario {
            let c = run_one(&s, Ctx::new(path, None, true));
            for l in &c.labels {
                println!("  {l}");
            }
            return match c.violation {
                Some((k, m)) => {
                    println!("VIOLATED [{k}]: {m}");
                    true
                }
                None => {
                    println!("no violation");
                    false
                }
            };
        }
    }
    println!("no scenario {scenario}");
    false
}
