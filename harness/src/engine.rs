//! Case generation (proptest), execution, crash isolation, shrinking, evidence.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const VERIF: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/..");

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Counters of one worker.
#[derive(Default, Serialize, Deserialize)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub classes: BTreeMap<String, u64>,
    pub known: BTreeMap<String, u64>,
    pub known_sample: BTreeMap<String, String>,
    pub samples: Vec<serde_json::Value>,
    #[serde(skip)]
    pub nt: bool,
    #[serde(skip)]
    pub hashes: Vec<u64>,
    #[serde(skip)]
    pub listed: BTreeSet<String>,
}

impl Stats {
    pub fn class(&mut self, c: &str) {
        self.class_n(c, 1)
    }
    pub fn class_n(&mut self, c: &str, n: u64) {
        if let Some(x) = self.classes.get_mut(c) {
            *x += n
        } else {
            self.classes.insert(c.into(), n);
        }
    }
    /// Marks the running case as non-trivial.
    pub fn mark(&mut self) {
        self.nt = true
    }
    /// True if `sig` is a listed known finding (then the caller goes on with the case);
    /// false if it has to be reported.
    pub fn known(&mut self, sig: &str, detail: impl FnOnce() -> String) -> bool {
        if !self.listed.contains(sig) {
            return false;
        }
        *self.known.entry(sig.into()).or_insert(0) += 1;
        self.known_sample.entry(sig.into()).or_insert_with(detail);
        true
    }
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

pub trait Prop {
    type Case: Clone + Debug + Serialize + DeserializeOwned + 'static;
    fn id(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn cases(&self, tier: Tier) -> u64;
    /// Size class of case `idx`; one strategy is built per class.
    fn class_of(&self, _idx: u64, _tier: Tier) -> usize {
        0
    }
    fn strategy(&self, class: usize, tier: Tier) -> BoxedStrategy<Self::Case>;
    fn check(&self, c: &Self::Case, st: &mut Stats) -> Res;
    /// Re-runs the fixed demonstration of a listed known finding: Some(what fails) while it fails.
    fn known_demo(&self, _sig: &str) -> Option<String> {
        None
    }
    fn assumptions(&self) -> Vec<String> {
        vec![]
    }
}

/// Object-safe face of a property.
pub trait DynProp {
    fn id(&self) -> &'static str;
    fn cases(&self, tier: Tier) -> u64;
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> Vec<String>;
    fn known_demo(&self, sig: &str) -> Option<String>;
    fn worker(&self, w: &WorkerArgs) -> WorkerResult;
    fn shrink_crash(&self, seed: u64, tier: Tier, idx: u64) -> Option<Failure>;
    fn replay(&self, case: &serde_json::Value) -> Result<Res, String>;
    fn gen(&self, seed: u64, tier: Tier, idx: u64) -> serde_json::Value;
}

pub struct WorkerArgs {
    pub seed: u64,
    pub tier: Tier,
    pub shard: u64,
    pub shards: u64,
    pub cases: u64,
    pub progress: Option<std::fs::File>,
}

#[derive(Serialize, Deserialize)]
pub struct Failure {
    pub idx: u64,
    pub message: String,
    pub case: serde_json::Value,
    pub shrink_steps: u64,
}

#[derive(Serialize, Deserialize)]
pub struct WorkerResult {
    pub stats: Stats,
    pub hashes: Vec<u64>,
    pub failure: Option<Failure>,
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, l));
    }));
}

/// Runs `f`; a panic becomes Err("panicked: ..").
pub fn guarded<R>(f: impl FnOnce() -> Result<R, String>) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", PANIC.with(|p| p.borrow().clone()))),
    }
}
/// True if `f` panics.
pub fn panics<R>(f: impl FnOnce() -> R) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}
pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub fn rng_for(seed: u64, id: &str, idx: u64) -> TestRng {
    let mut b = [0u8; 32];
    let s = mix(seed) ^ fnv(id.as_bytes());
    for i in 0..4 {
        b[i * 8..i * 8 + 8].copy_from_slice(&mix(s ^ mix(idx.wrapping_mul(4) + i as u64)).to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &b)
}

struct Gen<'a, P: Prop> {
    p: &'a P,
    seed: u64,
    tier: Tier,
    strat: BTreeMap<usize, BoxedStrategy<P::Case>>,
}
impl<'a, P: Prop> Gen<'a, P> {
    fn tree(&mut self, idx: u64) -> Box<dyn ValueTree<Value = P::Case>> {
        let cl = self.p.class_of(idx, self.tier);
        let (p, tier) = (self.p, self.tier);
        let s = self.strat.entry(cl).or_insert_with(|| p.strategy(cl, tier));
        let cfg = Config { failure_persistence: None, max_global_rejects: 1 << 20, ..Config::default() };
        let mut r = TestRunner::new_with_rng(cfg, rng_for(self.seed, self.p.id(), idx));
        s.new_tree(&mut r).expect("strategy rejects too much")
    }
}

fn run_case<P: Prop>(p: &P, c: &P::Case, st: &mut Stats) -> Res {
    guarded(|| p.check(c, st))
}

/// Shrinks with `fails` as the test; returns the last failing value and its message.
fn shrink<C: Clone + Debug>(
    tree: &mut dyn ValueTree<Value = C>,
    first: String,
    max: u64,
    mut fails: impl FnMut(&C) -> Option<String>,
) -> (C, String, u64) {
    let mut best = tree.current();
    let mut msg = first;
    let mut n = 0;
    let t0 = std::time::Instant::now();
    if !tree.simplify() {
        return (best, msg, n);
    }
    loop {
        n += 1;
        if n > max || t0.elapsed().as_secs() > 60 {
            break;
        }
        let cur = tree.current();
        match fails(&cur) {
            Some(m) => {
                best = cur;
                msg = m;
                if !tree.simplify() {
                    break;
                }
            }
            None => {
                if !tree.complicate() {
                    break;
                }
            }
        }
    }
    (best, msg, n)
}

/// Runs one case in a forked child. None: passed or inconclusive (hang); Some: failed.
fn forked<P: Prop>(p: &P, c: &P::Case) -> Option<String> {
    unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return None;
        }
        let pid = libc::fork();
        if pid == 0 {
            libc::close(fds[0]);
            libc::alarm(60);
            let mut st = Stats::default();
            let code = match run_case(p, c, &mut st) {
                Ok(()) => 0,
                Err(m) => {
                    let m = &m.as_bytes()[..m.len().min(3000)];
                    libc::write(fds[1], m.as_ptr() as *const _, m.len());
                    3
                }
            };
            libc::_exit(code);
        }
        libc::close(fds[1]);
        let mut out = Vec::new();
        let mut buf = [0u8; 4096];
        loop {
            let n = libc::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fds[0]);
        let mut status = 0;
        libc::waitpid(pid, &mut status, 0);
        if libc::WIFSIGNALED(status) {
            let s = libc::WTERMSIG(status);
            return crash_signal(s).then(|| format!("the process died with signal {}", s));
        }
        (libc::WEXITSTATUS(status) == 3).then(|| String::from_utf8_lossy(&out).into_owned())
    }
}

pub fn crash_signal(s: i32) -> bool {
    matches!(s, libc::SIGSEGV | libc::SIGBUS | libc::SIGABRT | libc::SIGILL | libc::SIGFPE | libc::SIGTRAP)
}

pub struct W<P>(pub P);
impl<P: Prop> DynProp for W<P> {
    fn id(&self) -> &'static str {
        self.0.id()
    }
    fn cases(&self, tier: Tier) -> u64 {
        self.0.cases(tier)
    }
    fn rule(&self) -> &'static str {
        self.0.rule()
    }
    fn assumptions(&self) -> Vec<String> {
        self.0.assumptions()
    }
    fn known_demo(&self, sig: &str) -> Option<String> {
        self.0.known_demo(sig)
    }

    fn worker(&self, w: &WorkerArgs) -> WorkerResult {
        let p = &self.0;
        let mut g = Gen { p, seed: w.seed, tier: w.tier, strat: BTreeMap::new() };
        let mut st = Stats { listed: listed(p.id()), ..Stats::default() };
        let mut failure = None;
        let mut i = w.shard;
        while i < w.cases {
            if let Some(f) = &w.progress {
                use std::os::unix::fs::FileExt;
                let _ = f.write_at(&(i + 1).to_le_bytes(), 0);
            }
            let mut tree = g.tree(i);
            let c = tree.current();
            st.nt = false;
            let r = run_case(p, &c, &mut st);
            st.evaluations += 1;
            if st.nt {
                st.nontrivial += 1;
                st.hashes.push(fnv(&serde_json::to_vec(&c).unwrap()));
                if st.samples.len() < 2 {
                    let v = serde_json::to_value(&c).unwrap();
                    if v.to_string().len() < 3000 {
                        st.samples.push(v);
                    }
                }
            }
            if let Err(m) = r {
                let (c, m, n) = shrink(&mut *tree, m, 20_000, |c| {
                    run_case(p, c, &mut Stats { listed: listed(p.id()), ..Stats::default() }).err()
                });
                failure = Some(Failure { idx: i, message: m, case: serde_json::to_value(&c).unwrap(), shrink_steps: n });
                break;
            }
            i += w.shards;
        }
        let hashes = std::mem::take(&mut st.hashes);
        WorkerResult { stats: st, hashes, failure }
    }

    fn shrink_crash(&self, seed: u64, tier: Tier, idx: u64) -> Option<Failure> {
        let p = &self.0;
        let mut g = Gen { p, seed, tier, strat: BTreeMap::new() };
        let mut tree = g.tree(idx);
        let c = tree.current();
        let first = forked(p, &c)?;
        let (c, m, n) = shrink(&mut *tree, first, 3000, |c| forked(p, c));
        Some(Failure { idx, message: m, case: serde_json::to_value(&c).unwrap(), shrink_steps: n })
    }

    fn replay(&self, case: &serde_json::Value) -> Result<Res, String> {
        let c: P::Case = serde_json::from_value(case.clone()).map_err(|e| e.to_string())?;
        let mut st = Stats { listed: listed(self.0.id()), ..Stats::default() };
        Ok(run_case(&self.0, &c, &mut st))
    }

    fn gen(&self, seed: u64, tier: Tier, idx: u64) -> serde_json::Value {
        let mut g = Gen { p: &self.0, seed, tier, strat: BTreeMap::new() };
        serde_json::to_value(g.tree(idx).current()).unwrap()
    }
}

/// Signatures of the known findings listed for a property: lines
/// `known: property=<id> sig=<signature> <what fails>` of KNOWN_FINDINGS.txt.
pub fn listed_full(id: &str) -> Vec<(String, String)> {
    let s = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", VERIF)).unwrap_or_default();
    let mut v = Vec::new();
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("known: property=") {
            let mut w = r.splitn(3, ' ');
            if w.next() == Some(id) {
                if let Some(sig) = w.next().and_then(|x| x.strip_prefix("sig=")) {
                    v.push((sig.to_string(), w.next().unwrap_or("").to_string()));
                }
            }
        }
    }
    v
}
thread_local! {
    static LISTED: RefCell<BTreeMap<String, BTreeSet<String>>> = const { RefCell::new(BTreeMap::new()) };
}
pub fn listed(id: &str) -> BTreeSet<String> {
    LISTED.with(|l| {
        l.borrow_mut()
            .entry(id.to_string())
            .or_insert_with(|| listed_full(id).into_iter().map(|x| x.0).collect())
            .clone()
    })
}
