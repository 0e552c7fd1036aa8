//! The explorer: a stateless, exhaustive enumeration of a choice tree.
//!
//! A *tree* is a function `fn(&mut Ch)` that performs one execution of the real code.  Every
//! nondeterministic decision of the environment is taken through `Ch`; the explorer re-executes the
//! function for every combination of decisions (depth first, work shared by all cores).
//!
//! * `choose/pick/flip`  - full branching
//! * `deviate/pick_dev`  - choice 0 is the default answer, every other answer costs one deviation;
//!                         only executions with at most `bound` deviations are explored.
//!
//! The tree must be a function of the choices alone.  A prefix that does not replay (a recorded
//! choice out of range, or a prefix longer than the execution) is a hard engine error.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub struct Violation {
    pub sig: String,
    pub detail: String,
    pub tree: usize,
    pub path: Vec<u32>,
    pub trace: Vec<String>,
    pub devs: usize,
}

pub struct Ch<'a> {
    prefix: &'a [u32],
    pub path: Vec<(u32, u32)>, // (choice, arity)
    dev_left: usize,
    pub dev_used: usize,
    pub thorough: bool,
    pub verbose: bool,
    pub trace: Vec<String>,
    pub steps: u64,
    hasher: Fnv,
    obs: Vec<u64>,
    pub outcome: Option<String>,
    pub failure: Option<(String, String)>,
    pub diverged: bool,
}

#[derive(Clone)]
pub struct Fnv(u64);
impl Fnv {
    pub fn new() -> Self {
        Fnv(0xcbf2_9ce4_8422_2325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        // final avalanche
        let mut x = self.0;
        x ^= x >> 33;
        x = x.wrapping_mul(0xff51_afd7_ed55_8ccd);
        x ^= x >> 33;
        x
    }
    fn write(&mut self, b: &[u8]) {
        for &c in b {
            self.0 ^= u64::from(c);
            self.0 = self.0.wrapping_mul(0x0100_0000_01b3);
        }
    }
}

impl<'a> Ch<'a> {
    pub fn new(prefix: &'a [u32], bound: usize, thorough: bool, verbose: bool) -> Self {
        Ch {
            prefix,
            path: Vec::with_capacity(16),
            dev_left: bound,
            dev_used: 0,
            thorough,
            verbose,
            trace: Vec::new(),
            steps: 0,
            hasher: Fnv::new(),
            obs: Vec::with_capacity(16),
            outcome: None,
            failure: None,
            diverged: false,
        }
    }

    /// Full branching over `0..n`.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "choose(0)");
        if n == 1 {
            return 0;
        }
        let i = self.path.len();
        let c = if i < self.prefix.len() {
            let c = self.prefix[i] as usize;
            if c >= n {
                self.diverged = true;
                0
            } else {
                c
            }
        } else {
            0
        };
        self.path.push((c as u32, n as u32));
        c
    }
    pub fn flip(&mut self) -> bool {
        self.choose(2) == 1
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        let i = self.choose(xs.len());
        &xs[i]
    }
    /// Deviation-bounded choice: 0 is free, everything else costs one.
    pub fn deviate(&mut self, n: usize) -> usize {
        if self.dev_left == 0 || n <= 1 {
            return 0;
        }
        let c = self.choose(n);
        if c != 0 {
            self.dev_left -= 1;
            self.dev_used += 1;
        }
        c
    }
    pub fn pick_dev<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        let i = self.deviate(xs.len());
        &xs[i]
    }
    pub fn can_deviate(&self) -> bool {
        self.dev_left > 0
    }
    /// Counts an executed transition of the system under test.
    pub fn step(&mut self) {
        self.steps += 1;
    }
    /// Records an observation: the hash of everything observed so far identifies a state.
    pub fn obs<T: Hash>(&mut self, x: &T) {
        x.hash(&mut self.hasher);
        let h = self.hasher.finish();
        self.obs.push(h);
    }
    pub fn outcome(&mut self, s: impl Into<String>) {
        self.outcome = Some(s.into());
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.trace.push(s);
        }
    }
    /// Reports a violation.  `sig` is a stable signature (no nonces, no addresses).
    pub fn fail(&mut self, sig: impl Into<String>, detail: impl Into<String>) {
        if self.failure.is_none() {
            self.failure = Some((sig.into(), detail.into()));
        }
    }
    pub fn failed(&self) -> bool {
        self.failure.is_some()
    }
    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            self.fail(sig, detail());
        }
        ok
    }
}

pub type TreeFn = fn(&mut Ch);

#[derive(Clone, Copy)]
pub struct Tree {
    pub name: &'static str,
    /// what is enumerated, for the evidence file
    pub what: &'static str,
    /// deviation bound (quick, thorough); ignored by trees that only use full branching
    pub bound: (usize, usize),
    pub f: TreeFn,
}

#[derive(Default, Clone)]
pub struct TreeStats {
    pub executions: u64,
    pub transitions: u64,
    pub max_depth: usize,
    pub outcomes: BTreeMap<String, u64>,
    pub by_dev: BTreeMap<usize, u64>,
    pub wall_ms: u128,
    pub complete: bool,
}

// ---------------------------------------------------------------------------------------------
// panic capture

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static IN_EXEC: Cell<bool> = const { Cell::new(false) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".into()
        };
        if IN_EXEC.with(Cell::get) {
            LAST_PANIC.with(|p| {
                let mut p = p.borrow_mut();
                if p.is_none() {
                    *p = Some((loc, msg));
                }
            });
        } else {
            eprintln!("engine panic at {loc}: {msg}");
        }
    }));
}

pub fn set_in_exec(v: bool) {
    IN_EXEC.with(|c| c.set(v));
}
pub fn take_panic() -> Option<(String, String)> {
    LAST_PANIC.with(|p| p.borrow_mut().take())
}

/// Begins the message of a panic of the harness that is due to the library
pub const SUBJECT: &str = "library: ";

/// For results of the library without which there is nothing to explore: their absence is a
/// violation, not an error of the checker
pub trait Lib<T> {
    fn lib(self, what: &str) -> T;
}
impl<T, E: std::fmt::Debug> Lib<T> for Result<T, E> {
    #[track_caller]
    fn lib(self, what: &str) -> T {
        self.unwrap_or_else(|e| panic!("{SUBJECT}{what}: {e:?}"))
    }
}
impl<T> Lib<T> for Option<T> {
    #[track_caller]
    fn lib(self, what: &str) -> T {
        self.unwrap_or_else(|| panic!("{SUBJECT}{what}"))
    }
}

/// Is this panic location inside the harness itself?
pub fn is_harness_loc(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/mc/src/")
}

pub enum ExecEnd {
    Done,
    EngineError(String),
    /// the same choices did not lead to the same execution
    Diverged(String),
}

/// Runs one execution; panics of the subject become violations, panics of the harness engine errors.
pub fn execute(tree: &Tree, ch: &mut Ch) -> ExecEnd {
    crate::alloc_guard::reset();
    take_panic();
    set_in_exec(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (tree.f)(ch)));
    set_in_exec(false);
    if r.is_err() {
        let (loc, msg) = take_panic().unwrap_or_default();
        if let Some(what) = msg.strip_prefix(SUBJECT) {
            // no exchange of the tree can be had at all
            ch.failure = Some((format!("start:{}", normalise(what)), what.to_string()));
            return ExecEnd::Done;
        }
        if is_harness_loc(&loc) {
            return ExecEnd::EngineError(format!("harness panic in {}: {loc}: {msg}", tree.name));
        }
        let file = loc.rsplit_once(':').map_or(loc.as_str(), |x| x.0);
        let file = file.rsplit_once("/src/").map_or(file, |x| x.1);
        ch.failure = Some((
            format!("panic:{file}:{}", normalise(&msg)),
            format!("the library panicked at {loc}: {msg}"),
        ));
    }
    if ch.diverged || ch.path.len() < ch.prefix.len() {
        return ExecEnd::Diverged(format!(
            "replay of a prefix diverged in {} (prefix {:?}, path {:?}, failure {:?})",
            tree.name, ch.prefix, ch.path, ch.failure
        ));
    }
    ExecEnd::Done
}

/// Removes digits so that panic messages with lengths in them give one signature.
fn normalise(s: &str) -> String {
    let mut out = String::new();
    for c in s.chars().take(80) {
        if c.is_ascii_digit() {
            if !out.ends_with('#') {
                out.push('#');
            }
        } else if c == '\n' {
            break;
        } else {
            out.push(c);
        }
    }
    out
}

// ---------------------------------------------------------------------------------------------
// in-flight slots, shared with the supervising parent so that a crash of the process can be
// attributed to an execution

pub const SLOT_WORDS: usize = 512;
pub struct Slots {
    base: *mut u32,
}
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}
impl Slots {
    pub fn open(path: &str, n: usize) -> std::io::Result<Self> {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path)?;
        let len = n * SLOT_WORDS * 4;
        f.set_len(len as u64)?;
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                len,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        if p == libc::MAP_FAILED {
            return Err(std::io::Error::last_os_error());
        }
        Ok(Slots { base: p.cast() })
    }
    fn set(&self, w: usize, tree: usize, prefix: &[u32]) {
        unsafe {
            let s = self.base.add(w * SLOT_WORDS);
            let n = prefix.len().min(SLOT_WORDS - 3);
            std::ptr::write_volatile(s.add(1), tree as u32);
            std::ptr::write_volatile(s.add(2), n as u32);
            std::ptr::copy_nonoverlapping(prefix.as_ptr(), s.add(3), n);
            std::ptr::write_volatile(s, 1);
        }
    }
    fn clear(&self, w: usize) {
        unsafe { std::ptr::write_volatile(self.base.add(w * SLOT_WORDS), 0) }
    }
    pub fn get(&self, w: usize) -> Option<(usize, Vec<u32>)> {
        unsafe {
            let s = self.base.add(w * SLOT_WORDS);
            if std::ptr::read_volatile(s) == 0 {
                return None;
            }
            let t = std::ptr::read_volatile(s.add(1)) as usize;
            let n = std::ptr::read_volatile(s.add(2)) as usize;
            Some((t, (0..n.min(SLOT_WORDS - 3)).map(|i| std::ptr::read_volatile(s.add(3 + i))).collect()))
        }
    }
}

// ---------------------------------------------------------------------------------------------
// the search

struct Shared {
    stack: Mutex<(Vec<Vec<u32>>, usize)>, // work, idle workers
    cv: Condvar,
    stop: AtomicBool,
    engine_error: Mutex<Option<String>>,
    violations: Mutex<BTreeMap<String, Violation>>,
    n_viol: AtomicUsize,
    n_div: AtomicUsize,
    /// when the first violation was found (0: none yet)
    first_ms: AtomicU64,
    hungry: AtomicUsize,
}

/// Heartbeats, for the hang watchdog.
pub struct Beat {
    pub started_ms: AtomicU64, // 0 = idle
}

pub struct Engine {
    pub workers: usize,
    pub slots: Option<Slots>,
    pub beats: Vec<Beat>,
    pub t0: Instant,
    pub states: Mutex<HashSet<u64>>,
    pub cur_tree: AtomicUsize,
    pub inflight: Vec<Mutex<Vec<u32>>>,
    pub deadline: Option<Instant>,
    /// signatures of known findings, which do not end an exploration
    pub known: HashSet<String>,
}

pub const HANG_MS: u64 = 30_000;
/// A tree is not explored for longer than this once there is a violation: a defect may have made it slow
const AFTER_VIOLATION_MS: u64 = 30_000;
const STATE_CAP: usize = 40_000_000;

impl Engine {
    pub fn new(workers: usize, slots: Option<Slots>, deadline: Option<Duration>, known: HashSet<String>) -> Self {
        Engine {
            workers,
            slots,
            beats: (0..workers).map(|_| Beat { started_ms: AtomicU64::new(0) }).collect(),
            t0: Instant::now(),
            states: Mutex::new(HashSet::new()),
            cur_tree: AtomicUsize::new(0),
            inflight: (0..workers).map(|_| Mutex::new(Vec::new())).collect(),
            deadline: deadline.map(|d| Instant::now() + d),
            known,
        }
    }

    fn now_ms(&self) -> u64 {
        self.t0.elapsed().as_millis() as u64 + 1
    }

    /// Explores `tree` completely.
    pub fn explore(
        self: &Arc<Self>,
        idx: usize,
        tree: &Tree,
        thorough: bool,
        violations: &mut BTreeMap<String, Violation>,
    ) -> Result<TreeStats, String> {
        let t0 = Instant::now();
        self.cur_tree.store(idx, Ordering::SeqCst);
        let bound = if thorough { tree.bound.1 } else { tree.bound.0 };
        let sh = Arc::new(Shared {
            stack: Mutex::new((vec![vec![]], 0)),
            cv: Condvar::new(),
            stop: AtomicBool::new(false),
            engine_error: Mutex::new(None),
            violations: Mutex::new(BTreeMap::new()),
            n_viol: AtomicUsize::new(0),
            n_div: AtomicUsize::new(0),
            // an earlier tree's violation counts as one of this tree
            first_ms: AtomicU64::new(if violations.keys().any(|s| !self.known.contains(s)) { self.now_ms() } else { 0 }),
            hungry: AtomicUsize::new(0),
        });
        let mut total = TreeStats { complete: true, ..Default::default() };
        let mut handles = Vec::new();
        for w in 0..self.workers {
            let sh = sh.clone();
            let me = self.clone();
            let tree = *tree;
            handles.push(
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn(move || me.worker(w, idx, &tree, bound, thorough, &sh))
                    .expect("spawn"),
            );
        }
        for h in handles {
            let (st, set) = h.join().map_err(|_| "worker thread panicked".to_string())?;
            total.executions += st.executions;
            total.transitions += st.transitions;
            total.max_depth = total.max_depth.max(st.max_depth);
            total.complete &= st.complete;
            for (k, v) in st.outcomes {
                *total.outcomes.entry(k).or_default() += v;
            }
            for (k, v) in st.by_dev {
                *total.by_dev.entry(k).or_default() += v;
            }
            let mut g = self.states.lock().unwrap();
            if g.len() < STATE_CAP {
                g.extend(set);
            }
        }
        for (k, v) in std::mem::take(&mut *sh.violations.lock().unwrap()) {
            violations.entry(k).or_insert(v);
        }
        if let Some(e) = sh.engine_error.lock().unwrap().take() {
            return Err(e);
        }
        if sh.stop.load(Ordering::SeqCst) {
            total.complete = false;
        }
        total.wall_ms = t0.elapsed().as_millis();
        Ok(total)
    }

    fn worker(
        &self,
        w: usize,
        idx: usize,
        tree: &Tree,
        bound: usize,
        thorough: bool,
        sh: &Shared,
    ) -> (TreeStats, HashSet<u64>) {
        let mut st = TreeStats { complete: true, ..Default::default() };
        let mut states: HashSet<u64> = HashSet::new();
        let mut local: Vec<Vec<u32>> = Vec::new();
        let mut last: u64 = 0;
        loop {
            if sh.stop.load(Ordering::Relaxed) {
                break;
            }
            let Some(prefix) = local.pop().or_else(|| self.steal(sh)) else { break };
            if let Some(d) = self.deadline {
                last += 1;
                if last % 64 == 0 && Instant::now() > d {
                    st.complete = false;
                    sh.stop.store(true, Ordering::SeqCst);
                    sh.cv.notify_all();
                    break;
                }
            }
            let first = sh.first_ms.load(Ordering::Relaxed);
            if first != 0 && self.now_ms() > first + AFTER_VIOLATION_MS {
                st.complete = false;
                sh.stop.store(true, Ordering::SeqCst);
                sh.cv.notify_all();
                break;
            }
            if let Some(s) = &self.slots {
                s.set(w, idx, &prefix);
            }
            {
                let mut g = self.inflight[w].lock().unwrap();
                g.clear();
                g.extend_from_slice(&prefix);
            }
            self.beats[w].started_ms.store(self.now_ms(), Ordering::SeqCst);
            let mut ch = Ch::new(&prefix, bound, thorough, false);
            let end = execute(tree, &mut ch);
            self.beats[w].started_ms.store(0, Ordering::SeqCst);
            if let Some(s) = &self.slots {
                s.clear(w);
            }
            if let ExecEnd::Diverged(e) = &end {
                // an error of the engine, unless a violation explains it
                st.complete = false;
                *sh.engine_error.lock().unwrap() = Some(e.clone());
                if ch.failure.is_none() && sh.n_div.fetch_add(1, Ordering::SeqCst) < 100_000 {
                    continue;
                }
            }
            if let ExecEnd::EngineError(e) = end {
                *sh.engine_error.lock().unwrap() = Some(e);
                sh.stop.store(true, Ordering::SeqCst);
                sh.cv.notify_all();
                break;
            }
            st.executions += 1;
            st.transitions += ch.steps;
            st.max_depth = st.max_depth.max(ch.path.len());
            *st.by_dev.entry(ch.dev_used).or_default() += 1;
            for o in &ch.obs {
                states.insert(*o);
            }
            if let Some(o) = ch.outcome.take() {
                *st.outcomes.entry(o).or_default() += 1;
            }
            let path: Vec<(u32, u32)> = std::mem::take(&mut ch.path);
            let failure = ch.failure.take();
            let devs = ch.dev_used;
            drop(ch);
            if let Some((sig, detail)) = failure {
                let full: Vec<u32> = path.iter().map(|p| p.0).collect();
                if !self.known.contains(&sig) {
                    let _ = sh.first_ms.compare_exchange(0, self.now_ms(), Ordering::SeqCst, Ordering::SeqCst);
                }
                let mut v = sh.violations.lock().unwrap();
                let better = v.get(&sig).map_or(true, |old| {
                    (devs, full.len(), &full) < (old.devs, old.path.len(), &old.path)
                });
                if better {
                    v.insert(
                        sig.clone(),
                        Violation { sig, detail, tree: idx, path: full, trace: vec![], devs },
                    );
                }
                // A broken tree need not be explored to the end.
                if sh.n_viol.fetch_add(1, Ordering::SeqCst) > 20_000 {
                    st.complete = false;
                    sh.stop.store(true, Ordering::SeqCst);
                    sh.cv.notify_all();
                    break;
                }
            }
            // children: every alternative of every choice made after the prefix
            for i in (prefix.len()..path.len()).rev() {
                for alt in (path[i].0 + 1..path[i].1).rev() {
                    let mut p: Vec<u32> = Vec::with_capacity(i + 1);
                    p.extend(path[..i].iter().map(|x| x.0));
                    p.push(alt);
                    local.push(p);
                }
            }
            // feed hungry workers
            if local.len() > 1 && sh.hungry.load(Ordering::Relaxed) > 0 {
                let n = local.len() / 2;
                let give: Vec<Vec<u32>> = local.drain(..n).collect();
                let mut g = sh.stack.lock().unwrap();
                g.0.extend(give);
                sh.cv.notify_all();
            }
        }
        (st, states)
    }

    fn steal(&self, sh: &Shared) -> Option<Vec<u32>> {
        let mut g = sh.stack.lock().unwrap();
        if let Some(p) = g.0.pop() {
            return Some(p);
        }
        g.1 += 1;
        sh.hungry.fetch_add(1, Ordering::SeqCst);
        loop {
            if g.1 == self.workers || sh.stop.load(Ordering::SeqCst) {
                // everyone is idle: finished
                sh.cv.notify_all();
                sh.hungry.fetch_sub(1, Ordering::SeqCst);
                return None;
            }
            if let Some(p) = g.0.pop() {
                g.1 -= 1;
                sh.hungry.fetch_sub(1, Ordering::SeqCst);
                return Some(p);
            }
            g = sh.cv.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
        }
    }

    /// Returns the tree and prefix of an execution that has been running for too long.
    pub fn hung(&self) -> Option<(usize, Vec<u32>)> {
        let now = self.now_ms();
        for w in 0..self.workers {
            let s = self.beats[w].started_ms.load(Ordering::SeqCst);
            if s != 0 && now.saturating_sub(s) > HANG_MS {
                return Some((self.cur_tree.load(Ordering::SeqCst), self.inflight[w].lock().unwrap().clone()));
            }
        }
        None
    }
}
