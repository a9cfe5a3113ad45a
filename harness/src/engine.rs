//! Generic property runner: sharded, seeded generation with proptest, shrinking, replay files, evidence.
use crate::setting::{self, Setting};
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one case reports about itself.
#[derive(Clone, Default)]
pub struct Cx {
    classes: BTreeSet<&'static str>,
    nontrivial: bool,
    known: Vec<String>,
}
impl Cx {
    pub fn class(&mut self, c: &'static str) {
        self.classes.insert(c);
    }
    pub fn class_if(&mut self, b: bool, c: &'static str) {
        if b {
            self.class(c)
        }
    }
    /// Marks the case as non-trivial (by the sub-check's stated rule).
    pub fn nontrivial(&mut self, b: bool) {
        self.nontrivial |= b;
    }
    /// Reports a failure that has the signature `sig`: a violation unless `sig` is a listed known finding.
    pub fn finding(&mut self, sig: &str, msg: String) -> R {
        if known_signatures().iter().any(|k| k.1 == sig) {
            self.known.push(sig.to_string());
            Ok(())
        } else {
            Err(format!("[{}] {}", sig, msg))
        }
    }
}

/// (property, signature, description) of each listed known finding.
pub fn known_signatures() -> &'static Vec<(String, String, String)> {
    static K: std::sync::OnceLock<Vec<(String, String, String)>> = std::sync::OnceLock::new();
    K.get_or_init(|| {
        let text = std::fs::read_to_string("known_findings.txt").unwrap_or_default();
        text.lines()
            .filter_map(|l| l.strip_prefix("known: property="))
            .filter_map(|l| {
                let mut it = l.splitn(3, ' ');
                let p = it.next()?.to_string();
                let s = it.next()?.strip_prefix("sig=")?.to_string();
                Some((p, s, it.next().unwrap_or("").to_string()))
            })
            .collect()
    })
}

thread_local! { static PANIC: RefCell<Option<String>> = const { RefCell::new(None) }; }
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info.to_string();
        PANIC.with(|p| *p.borrow_mut() = Some(m));
    }));
}
/// Runs `f`, turning a panic into an error that carries its message.
pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => {
            let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| {
                e.downcast_ref::<String>().cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default()
            });
            Err(format!("panic: {}", m))
        }
    }
}

#[derive(Default)]
pub struct Report {
    pub sub: String,
    pub rule: &'static str,
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub classes: BTreeMap<&'static str, u64>,
    pub known: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<(String, Value, Setting)>,
    /// Cases of the coverage-guided search among `evaluations`, and how many cases were kept to build others from.
    pub guided: u64,
    pub corpus: u64,
    /// Edges of the crate's control flow taken (by the generator threads).
    pub edges: BTreeSet<u32>,
    pub wall_s: f64,
}

impl Report {
    fn count<C: Case>(&mut self, c: &C, cx: &Cx) {
        self.evaluations += 1;
        for k in &cx.classes {
            *self.classes.entry(k).or_default() += 1;
        }
        for k in &cx.known {
            *self.known.entry(k.clone()).or_default() += 1;
        }
        if cx.nontrivial {
            let text = serde_json::to_string(&c).unwrap();
            let mut h = DefaultHasher::new();
            text.hash(&mut h);
            let fresh = self.nontrivial.insert(h.finish());
            if fresh && self.samples.len() < 2 && text.len() < 900 {
                self.samples.push(serde_json::from_str(&text).unwrap());
            }
        }
    }
}

pub trait SubCheck: Send + Sync {
    fn name(&self) -> &'static str;
    fn run(&self, id: &str, seed: u64, tier: Tier) -> Report;
    /// The outcome of a saved case, and the known findings it ran into.
    fn replay(&self, v: &Value, settings: &[Setting]) -> Result<(R, Vec<String>), String>;
    /// The outcome of a case given as text, as text.
    fn outcome(&self, text: &str) -> String;
    /// Adds a coverage-guided search: cases made by recombining these lists (JSON pointers) of earlier cases, whose
    /// elements must not depend on one another or on their place.
    fn guide(self: Box<Self>, lists: &'static [&'static str]) -> Box<dyn SubCheck>;
}

pub struct Sub<C> {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// Number of generator threads; each has its own seed, so the work is independent of the core count.
    pub shards: u64,
    /// How often to re-run a case when replaying or shrinking (for cases with real thread races).
    pub repeat: u32,
    pub shrink: u32,
    pub lists: &'static [&'static str],
    /// Each case runs in a process of its own.
    pub fresh: bool,
    pub strategy: fn() -> BoxedStrategy<C>,
    pub oracle: fn(&C, &mut Cx) -> R,
}
pub const SHARDS: u64 = 8;

pub fn sub<C: Case>(
    name: &'static str, rule: &'static str, quick: u64, thorough: u64,
    strategy: fn() -> BoxedStrategy<C>, oracle: fn(&C, &mut Cx) -> R,
) -> Box<dyn SubCheck> {
    Box::new(Sub { name, rule, quick, thorough, shards: SHARDS, repeat: 1, shrink: 20_000, lists: &[], fresh: false, strategy, oracle })
}
/// A sub-check whose cases share global state: one case at a time.
pub fn sub_one<C: Case>(
    name: &'static str, rule: &'static str, quick: u64, thorough: u64,
    strategy: fn() -> BoxedStrategy<C>, oracle: fn(&C, &mut Cx) -> R,
) -> Box<dyn SubCheck> {
    Box::new(Sub { name, rule, quick, thorough, shards: 1, repeat: 1, shrink: 20_000, lists: &[], fresh: false, strategy, oracle })
}
/// A sub-check whose cases start threads themselves: one case at a time.
pub fn sub_threads<C: Case>(
    name: &'static str, rule: &'static str, quick: u64, thorough: u64,
    strategy: fn() -> BoxedStrategy<C>, oracle: fn(&C, &mut Cx) -> R,
) -> Box<dyn SubCheck> {
    Box::new(Sub { name, rule, quick, thorough, shards: 1, repeat: 20, shrink: 120, lists: &[], fresh: false, strategy, oracle })
}

/// A sub-check whose cases run in a process of their own each: whatever is set up at its first use in a process is set up
/// by the case.
pub fn sub_fresh<C: Case>(
    name: &'static str, rule: &'static str, quick: u64, thorough: u64,
    strategy: fn() -> BoxedStrategy<C>, oracle: fn(&C, &mut Cx) -> R,
) -> Box<dyn SubCheck> {
    Box::new(Sub { name, rule, quick, thorough, shards: SHARDS, repeat: 1, shrink: 600, lists: &[], fresh: true, strategy, oracle })
}
/// The check that is running.
pub static CURRENT: Mutex<&'static str> = Mutex::new("");
/// Whether this process was started for one case.
pub static FRESH: AtomicBool = AtomicBool::new(false);
#[derive(Serialize, serde::Deserialize)]
struct Outcome {
    failure: Option<String>,
    nontrivial: bool,
    classes: Vec<String>,
    known: Vec<String>,
}
/// `harness case ID SUB`: evaluates the case given on standard input.
pub fn case_process(check: &Check, sub: &str, setting: Setting) {
    FRESH.store(true, Ordering::SeqCst);
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
    let mut text = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut text).unwrap();
    let sub = check.subs.iter().find(|s| s.name() == sub).expect("no such sub-check");
    setting::set(setting);
    print!("{}", sub.outcome(&text));
}
fn interned(s: String) -> &'static str {
    static ALL: Mutex<BTreeSet<&'static str>> = Mutex::new(BTreeSet::new());
    let mut all = ALL.lock().unwrap();
    if let Some(x) = all.get(&s[..]) {
        return x;
    }
    let x: &'static str = s.leak();
    all.insert(x);
    x
}
/// What a process of this program prints, given these arguments and this input.
pub fn own_process(args: &[&str], input: &str) -> Result<std::process::Output, String> {
    use std::process::{Command, Stdio};
    let io = |e: std::io::Error| format!("harness: {}", e);
    let mut child = Command::new("/proc/self/exe").args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().map_err(io)?;
    // (The process may end before it has read all.)
    let _ = std::io::Write::write_all(&mut child.stdin.take().unwrap(), input.as_bytes());
    child.wait_with_output().map_err(io)
}
fn in_own_process(sub: &str, case: &str, cx: &mut Cx) -> R {
    let id = *CURRENT.lock().unwrap();
    let out = own_process(&["case", id, sub, &format!("{:?}", setting::get())], case)?;
    let Ok(o) = serde_json::from_slice::<Outcome>(&out.stdout) else {
        return Err(format!("the process ends with {:?} and says {:?} {:?}", out.status, String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr)));
    };
    cx.nontrivial(o.nontrivial);
    cx.classes.extend(o.classes.into_iter().map(interned));
    cx.known.extend(o.known);
    o.failure.map_or(Ok(()), Err)
}

pub trait Case: Clone + Debug + Serialize + DeserializeOwned + Send + 'static {}
impl<T: Clone + Debug + Serialize + DeserializeOwned + Send + 'static> Case for T {}

fn seed_bytes(parts: &[&dyn Debug]) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4u64 {
        let mut h = DefaultHasher::new();
        i.hash(&mut h);
        for p in parts {
            format!("{:?}", p).hash(&mut h);
        }
        out[i as usize * 8..][..8].copy_from_slice(&h.finish().to_le_bytes());
    }
    out
}

fn config(cases: u32, shrink: u32) -> Config {
    Config {
        cases,
        failure_persistence: None,
        max_shrink_iters: shrink,
        max_shrink_time: 20_000,
        max_global_rejects: 0,
        max_local_rejects: 65_536,
        source_file: None,
        ..Config::default()
    }
}

impl<C: Case> Sub<C> {
    /// The coverage-guided search: recombines the kept cases with one another and with fresh ones.
    fn guided(&self, guide: &mut Guide, rep: &mut Report, cases: u32, stop: &AtomicBool, seed: &[u8; 32]) {
        let mut runner = TestRunner::new_with_rng(config(1, 0), TestRng::from_seed(RngAlgorithm::ChaCha, seed));
        let mut dice = Dice(u64::from_le_bytes(seed[..8].try_into().unwrap()));
        let strat = (self.strategy)();
        let mut work = 0;
        for _ in 0..cases {
            // Recombined cases can be much longer; the edges taken, not the time, limit them, as time is no function of the code.
            if stop.load(Ordering::Relaxed) || work > 2 * guide.total_work {
                return;
            }
            let Ok(fresh) = strat.new_tree(&mut runner) else { continue };
            let case = guide.recombine(serde_json::to_value(fresh.current()).unwrap(), &mut dice);
            let Ok(c) = serde_json::from_value::<C>(case.clone()) else { continue };
            setting::set(setting::nth(rep.evaluations));
            let ((r, cx), new) = guide.map.observe(|| self.eval(&c, 1));
            rep.count(&c, &cx);
            rep.guided += 1;
            work += guide.map.work;
            if let Err(m) = r {
                stop.store(true, Ordering::Relaxed);
                let (m, case) = self.shrink_lists(case, m);
                rep.failure = Some((m, case, setting::get()));
                return;
            }
            if new > 0 {
                guide.keep(case, false);
            }
        }
    }
    /// Takes parts of the lists away as long as the case keeps failing.
    fn shrink_lists(&self, mut case: Value, mut message: String) -> (String, Value) {
        let (t0, mut tries) = (Instant::now(), 0);
        for list in self.lists {
            let len = |c: &Value| c.pointer(list).and_then(|l| l.as_array()).map_or(0, |l| l.len());
            let mut size = len(&case);
            while size > 0 {
                let mut at = 0;
                while at < len(&case) {
                    tries += 1;
                    if tries > 5_000 || t0.elapsed().as_secs() > 20 {
                        return (message, case);
                    }
                    let mut smaller = case.clone();
                    let l = smaller.pointer_mut(list).unwrap().as_array_mut().unwrap();
                    if l.len() == 1 {
                        break;
                    }
                    l.drain((at + usize::from(at == 0 && size >= l.len()))..(at + size).min(l.len()));
                    match serde_json::from_value::<C>(smaller.clone()).map(|c| self.eval(&c, 1).0) {
                        Ok(Err(m)) => (case, message) = (smaller, m),
                        _ => at += size,
                    }
                }
                size /= 2;
            }
        }
        (message, case)
    }
    fn judge(&self, c: &C, (r, cx): (R, Cx), rep: &RefCell<Report>, failing: &RefCell<bool>, stop: &AtomicBool) -> Result<(), TestCaseError> {
        rep.borrow_mut().count(c, &cx);
        r.map_err(|m| {
            *failing.borrow_mut() = true;
            stop.store(true, Ordering::Relaxed);
            TestCaseError::fail(m)
        })
    }
    fn eval(&self, c: &C, times: u32) -> (R, Cx) {
        let mut cx = Cx::default();
        let _watch = crate::watch::begin(self.name, self.shards == 1, || serde_json::to_string(c).unwrap());
        let mut r = Ok(());
        for _ in 0..times {
            r = if self.fresh && !FRESH.load(Ordering::SeqCst) {
                in_own_process(self.name, &serde_json::to_string(c).unwrap(), &mut cx)
            } else {
                guarded(|| setting::within(|| (self.oracle)(c, &mut cx)))
            };
            if r.is_err() {
                break;
            }
        }
        if let Some(class) = setting::get().class() {
            cx.class(class);
        }
        (r, cx)
    }
}

struct Dice(u64);
impl Dice {
    /// A number below `n`.
    fn roll(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        ((z ^ (z >> 31)) % n.max(1) as u64) as usize
    }
    fn range(&mut self, len: usize) -> std::ops::Range<usize> {
        let (a, b) = (self.roll(len + 1), self.roll(len + 1));
        a.min(b)..a.max(b)
    }
}

/// What the coverage-guided search knows.
struct Guide {
    lists: &'static [&'static str],
    map: Box<cov::Map>,
    corpus: Vec<Value>,
    /// The longest list and the most work that the plain generator came up with.
    longest: usize,
    work: u64,
    /// All edges taken by the plain generator's cases.
    total_work: u64,
}
impl Guide {
    fn new(lists: &'static [&'static str]) -> Guide {
        Guide { lists, map: cov::Map::new(), corpus: vec![], longest: 1, work: 0, total_work: 0 }
    }
    fn keep(&mut self, case: Value, plain: bool) {
        if plain {
            self.work = self.work.max(self.map.work);
            for l in self.lists.iter().filter_map(|l| case.pointer(l)) {
                self.longest = self.longest.max(l.as_array().map_or(0, |l| l.len()));
            }
        }
        if self.corpus.len() < 4_000 && (plain || self.map.work <= 4 * self.work) {
            self.corpus.push(case);
        }
    }
    fn pick(&self, dice: &mut Dice) -> Option<&Value> {
        let n = self.corpus.len();
        if dice.roll(3) == 0 {
            self.corpus.get(n - 1 - dice.roll(n.min(24)))
        } else {
            self.corpus.get(dice.roll(n))
        }
    }
    /// A new case, from a fresh one and kept ones.
    fn recombine(&self, fresh: Value, dice: &mut Dice) -> Value {
        if self.corpus.is_empty() {
            return fresh;
        }
        let other = if dice.roll(2) == 0 { fresh.clone() } else { self.pick(dice).unwrap().clone() };
        let mut case = self.pick(dice).unwrap().clone();
        if dice.roll(4) == 0 {
            // The lists of a kept case in the setting of a fresh one.
            let mut host = fresh;
            for l in self.lists {
                if let (Some(to), Some(from)) = (host.pointer_mut(l), case.pointer(l)) {
                    *to = from.clone();
                }
            }
            case = host;
        }
        for _ in 0..1 + dice.roll(4) {
            let l = self.lists[dice.roll(self.lists.len())];
            let (Some(Value::Array(to)), Some(Value::Array(from))) = (case.pointer_mut(l), other.pointer(l)) else { continue };
            let before = to.first().cloned();
            let (a, b) = (dice.range(to.len()), dice.range(from.len()));
            match dice.roll(6) {
                0 => drop(to.splice(a.start..a.start, from[b].to_vec())),
                1 => drop(to.splice(a, from[b].to_vec())),
                2 => drop(to.drain(a)),
                3 => {
                    let part = to[a.clone()].to_vec();
                    for _ in 0..1 << dice.roll(6) {
                        if to.len() + part.len() > 4 * self.longest {
                            break;
                        }
                        to.splice(a.end..a.end, part.iter().cloned());
                    }
                }
                4 => {
                    let part: Vec<Value> = to.drain(a).collect();
                    let at = dice.roll(to.len() + 1);
                    to.splice(at..at, part);
                }
                _ => {
                    if !from.is_empty() {
                        let at = dice.roll(to.len() + 1);
                        to.insert(at, from[dice.roll(from.len())].clone());
                    }
                }
            }
            to.truncate(4 * self.longest);
            // A generator may promise that a list is not empty.
            if to.is_empty() {
                to.extend(before);
            }
        }
        case
    }
}

impl<C: Case> SubCheck for Sub<C> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn run(&self, id: &str, seed: u64, tier: Tier) -> Report {
        let t0 = Instant::now();
        let total = if tier == Tier::Quick { self.quick } else { self.thorough };
        let stop = AtomicBool::new(false);
        let all = Mutex::new(Vec::new());
        std::thread::scope(|s| {
            for shard in 0..self.shards {
                let (stop, all) = (&stop, &all);
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                    let cases = (total / self.shards + u64::from(shard < total % self.shards)) as u32;
                    let rep = RefCell::new(Report::default());
                    let failing = RefCell::new(false);
                    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(&[&seed, &id, &self.name, &shard]));
                    let mut runner = TestRunner::new_with_rng(config(cases.max(1), self.shrink), rng);
                    let strat = (self.strategy)();
                    let guide = RefCell::new(Guide::new(self.lists));
                    let result = runner.run(&strat, |c| {
                        if stop.load(Ordering::Relaxed) && !*failing.borrow() {
                            return Ok(());
                        }
                        let shrinking = *failing.borrow();
                        let (r, cx) = if shrinking {
                            self.eval(&c, self.repeat)
                        } else {
                            let mut guide = guide.borrow_mut();
                            let n = rep.borrow().evaluations as u32;
                            setting::set(setting::nth(n as u64));
                            // Counting takes time: not for all.
                            if n % 8 != 0 && (self.lists.is_empty() || n > cases / 3) {
                                return self.judge(&c, self.eval(&c, 1), &rep, &failing, &stop);
                            }
                            let ((r, cx), new) = guide.map.observe(|| self.eval(&c, 1));
                            guide.total_work += guide.map.work;
                            if new > 0 && r.is_ok() && !self.lists.is_empty() {
                                guide.keep(serde_json::to_value(&c).unwrap(), true);
                            }
                            (r, cx)
                        };
                        if shrinking {
                            return r.map_err(TestCaseError::fail);
                        }
                        self.judge(&c, (r, cx), &rep, &failing, &stop)
                    });
                    let mut rep = rep.into_inner();
                    let mut guide = guide.into_inner();
                    if result.is_ok() && !self.lists.is_empty() {
                        self.guided(&mut guide, &mut rep, cases / 2, &stop, &seed_bytes(&[&seed, &id, &self.name, &shard, &"guided"]));
                    }
                    rep.corpus = guide.corpus.len() as u64;
                    rep.edges = guide.map.taken();
                    match result {
                        Ok(()) => {}
                        Err(TestError::Fail(reason, c)) => {
                            rep.failure = Some((reason.message().to_string(), serde_json::to_value(&c).unwrap(), setting::get()));
                        }
                        Err(TestError::Abort(reason)) => {
                            eprintln!("error: {}: generation aborted: {}", self.name, reason);
                            std::process::exit(4);
                        }
                    }
                    all.lock().unwrap().push((shard, rep));
                }).unwrap();
            }
        });
        let mut parts = all.into_inner().unwrap();
        parts.sort_by_key(|p| p.0);
        let mut out = Report { sub: self.name.into(), rule: self.rule, ..Report::default() };
        for (_, p) in parts {
            out.evaluations += p.evaluations;
            out.guided += p.guided;
            out.corpus += p.corpus;
            out.edges.extend(p.edges);
            out.nontrivial.extend(p.nontrivial);
            for (k, v) in p.classes {
                *out.classes.entry(k).or_default() += v;
            }
            for (k, v) in p.known {
                *out.known.entry(k).or_default() += v;
            }
            for s in p.samples {
                if out.samples.len() < 3 {
                    out.samples.push(s);
                }
            }
            if let Some(f) = p.failure {
                let len = |v: &Value| v.to_string().len();
                if out.failure.as_ref().map_or(true, |o| len(&f.1) < len(&o.1)) {
                    out.failure = Some(f);
                }
            }
        }
        out.wall_s = t0.elapsed().as_secs_f64();
        out
    }
    fn replay(&self, v: &Value, settings: &[Setting]) -> Result<(R, Vec<String>), String> {
        let c: C = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
        let (mut result, mut known) = (Ok(()), vec![]);
        for s in settings {
            setting::set(*s);
            let (r, cx) = self.eval(&c, if self.repeat > 1 { self.repeat * 3 } else { 1 });
            known.extend(cx.known);
            result = result.and(r);
        }
        setting::set(Setting::Plain);
        known.sort();
        known.dedup();
        Ok((result, known))
    }
    fn outcome(&self, text: &str) -> String {
        let c: C = serde_json::from_str(text).expect("a case");
        let (r, cx) = self.eval(&c, 1);
        let classes = cx.classes.iter().map(|c| c.to_string()).collect();
        serde_json::to_string(&Outcome { failure: r.err(), nontrivial: cx.nontrivial, classes, known: cx.known }).unwrap()
    }
    fn guide(mut self: Box<Self>, lists: &'static [&'static str]) -> Box<dyn SubCheck> {
        self.lists = lists;
        self
    }
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Box<dyn SubCheck>>,
}

pub fn write_replay(id: &str, sub: &str, msg: &str, case: &Value, setting: Option<Setting>) -> String {
    let mut v = json!({"property": id, "sub": sub, "message": msg, "case": case});
    if let Some(s) = setting {
        v["setting"] = json!(format!("{:?}", s));
    }
    let mut h = DefaultHasher::new();
    case.to_string().hash(&mut h);
    std::fs::create_dir_all("replays").unwrap();
    let path = format!("replays/{}-{}-{:08x}.json", id, sub, h.finish() as u32);
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    path
}

/// Runs a check; returns the exit code.
pub fn run_check(check: &Check, seed: u64, tier: Tier) -> i32 {
    let t0 = Instant::now();
    *CURRENT.lock().unwrap() = check.id;
    let limit = if tier == Tier::Quick { 840 } else { 6 * 3600 };
    crate::watch::start(check.id, check.level, tier, seed, limit);
    let mut failures: Vec<(String, String, String)> = vec![];
    let mut regress = 0u64;
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    // 1. Saved minimal inputs of earlier failures, without the generator.
    let mut files: Vec<_> = std::fs::read_dir(format!("regress/{}", check.id))
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
        .unwrap_or_default();
    files.sort();
    for f in files {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap();
        let name = v["sub"].as_str().unwrap_or("");
        let Some(s) = check.subs.iter().find(|s| s.name() == name) else {
            eprintln!("error: {}: no sub-check {}", f.display(), name);
            return 2;
        };
        let setting = v["setting"].as_str().map_or(Setting::Plain, setting::parse);
        match s.replay(&v["case"], &[setting]) {
            Err(e) => {
                eprintln!("error: {}: {}", f.display(), e);
                return 2;
            }
            Ok((Err(m), _)) => failures.push((name.into(), m, f.display().to_string())),
            Ok((Ok(()), k)) => k.into_iter().for_each(|k| *known.entry(k).or_default() += 1),
        }
        regress += 1;
    }
    // 2. Generated cases.
    let mut reports = vec![];
    for s in &check.subs {
        let r = s.run(check.id, seed, tier);
        if let Some((m, c, setting)) = &r.failure {
            let path = write_replay(check.id, s.name(), m, c, Some(*setting));
            let place = setting.class().map_or(String::new(), |c| format!(" ({})", c));
            failures.push((format!("{}{}", s.name(), place), m.clone(), path));
        }
        reports.push(r);
    }
    let evaluations: u64 = reports.iter().map(|r| r.evaluations).sum::<u64>() + regress;
    let distinct: usize = reports.iter().map(|r| r.nontrivial.len()).sum();
    let rule: Vec<String> = reports.iter().map(|r| format!("{}: {}", r.sub, r.rule)).collect();
    let samples: Vec<Value> = reports.iter().map(|r| json!({"sub": r.sub, "cases": r.samples})).collect();
    let subs: Vec<Value> = reports
        .iter()
        .map(|r| {
            json!({"sub": r.sub, "evaluations": r.evaluations, "distinct_nontrivial": r.nontrivial.len(),
                   "coverage_guided": r.guided, "kept_cases": r.corpus, "edges": r.edges.len(), "classes": r.classes, "excluded_as_known_finding": r.known, "wall_s": r.wall_s})
        })
        .collect();
    for (k, v) in reports.iter().flat_map(|r| r.known.clone()) {
        *known.entry(k).or_default() += v;
    }
    let edges: BTreeSet<u32> = reports.iter().flat_map(|r| r.edges.iter().copied()).collect();
    let ev = json!({
        "property": check.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": check.level,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": format!("Cases are generated by seeded proptest strategies (and saved regression inputs, {} of them replayed first); non-trivial by sub-check: {}", regress, rule.join(" | ")),
            "samples": samples,
            "regression_inputs_replayed": regress,
            "edges_of_the_crate": {"taken": edges.len(), "of": cov::edges()},
            "sub_checks": subs,
        },
        "assumptions": check.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": failures.len(),
    });
    std::fs::create_dir_all("evidence").unwrap();
    std::fs::write(format!("evidence/{}.json", check.id), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    for (p, sig, what) in known_signatures() {
        if p == check.id && known.contains_key(sig) {
            println!("KNOWN-FINDING: property={} sig={} {} ({} times)", p, sig, what, known[sig]);
        }
    }
    println!("{}: {} cases ({} distinct non-trivial), {} regression inputs, {:.1} s", check.id, evaluations, distinct, regress, t0.elapsed().as_secs_f64());
    for (s, m, p) in &failures {
        let m: String = m.chars().take(600).collect();
        println!("  {}: {}", s, m.replace('\n', "\n    "));
        println!("VIOLATION property={} replay={}", check.id, p);
    }
    i32::from(!failures.is_empty())
}
