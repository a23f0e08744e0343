//! Property-check framework: generated cases, parallel shards, shrinking,
//! replay files, evidence. A worker process runs the cases (so that an abort, a
//! stack overflow, a runaway allocation or a hang of the code under test is an
//! observation, not the end of the check); its parent reports.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

/// What a failing case reports. `key` names a known finding it may belong to.
#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
    pub key: Option<&'static str>,
}
impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { msg, key: None }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Self {
        Fail { msg: msg.to_string(), key: None }
    }
}
pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => {
        if !$c { return Err($crate::fw::Fail::from(format!($($arg)*))); }
    };
}

/// Collects what one case covered.
#[derive(Default)]
pub struct Cx {
    labels: Vec<String>,
    nontrivial: bool,
    skipped: bool,
    pub thorough: bool,
}
impl Cx {
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.labels.push(l.to_string());
        }
    }
    pub fn nt(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    /// The case is outside the property's domain.
    pub fn skip(&mut self) -> R {
        self.skipped = true;
        Ok(())
    }
}

pub struct Sub<C> {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub examples: Vec<C>,
    pub strat: fn() -> BoxedStrategy<C>,
    pub run: fn(&C, &mut Cx) -> R,
}

#[derive(Default, Serialize, Deserialize, Clone)]
struct SubReport {
    evaluations: usize,
    examples: usize,
    nontrivial: usize,
    skipped: usize,
    #[serde(skip)]
    seen: HashSet<u64>,
    classes: BTreeMap<String, usize>,
    samples: Vec<Value>,
    known: BTreeMap<String, Value>,
    failure: Option<(Value, String)>,
    wall_s: f64,
}

/// A case run: what it covered and how it ended.
fn run_one<C: std::fmt::Debug>(run: fn(&C, &mut Cx) -> R, c: &C, thorough: bool) -> (Cx, R) {
    let mut cx = Cx { thorough, ..Default::default() };
    let r = match catch(|| run(c, &mut cx)) {
        Ok(r) => r,
        Err(m) => Err(Fail::from(format!("unexpected panic: {m}"))),
    };
    (cx, r)
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info.to_string().replace('\n', " ");
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
}
/// Runs `f`; a panic becomes its message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

#[derive(Clone)]
pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub known: Vec<String>,
    pub scratch: PathBuf,
    pub deadline: Instant,
    pub scale: f64,
}

type Slot = Arc<Mutex<Option<(Instant, String, Value)>>>;

pub trait DynSub: Send + Sync {
    fn name(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn shards(&self, ctx: &Ctx) -> usize;
    fn run_shard(&self, ctx: &Ctx, k: usize, stop: &AtomicBool, slot: &Slot) -> Value;
    fn replay(&self, case: &Value, thorough: bool) -> Result<R, String>;
}

const PER_SHARD_MIN: usize = 1;
const SHARDS: usize = 32;
const CASE_LIMIT: Duration = Duration::from_secs(300);

fn hash_json(v: &Value) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.to_string().hash(&mut h);
    h.finish()
}

impl<C> DynSub for Sub<C>
where
    C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + Send + Sync + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn shards(&self, ctx: &Ctx) -> usize {
        let n = self.total(ctx);
        // first those of the examples
        self.example_shards() + SHARDS.min(n / PER_SHARD_MIN)
    }
    fn replay(&self, case: &Value, thorough: bool) -> Result<R, String> {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| e.to_string())?;
        Ok(run_one(self.run, &c, thorough).1)
    }
    fn run_shard(&self, ctx: &Ctx, k: usize, stop: &AtomicBool, slot: &Slot) -> Value {
        let mut rep = SubReport::default();
        let t0 = Instant::now();
        let eval = |c: &C, rep: &mut SubReport, count: bool| -> R {
            let v = serde_json::to_value(c).unwrap();
            *slot.lock().unwrap() = Some((Instant::now(), self.name.to_string(), v.clone()));
            let _ = std::fs::write(
                ctx.scratch.join(format!("cur-{:?}", std::thread::current().id())),
                json!({"sub": self.name, "case": v}).to_string(),
            );
            let (cx, r) = run_one(self.run, c, ctx.thorough);
            *slot.lock().unwrap() = None;
            if count {
                rep.evaluations += 1;
                if cx.skipped {
                    rep.skipped += 1;
                } else {
                    if cx.nontrivial && rep.seen.insert(hash_json(&v)) {
                        rep.nontrivial += 1;
                        if rep.samples.len() < 2 && v.to_string().len() < 3000 {
                            rep.samples.push(json!({"sub": self.name, "case": v, "labels": cx.labels}));
                        }
                    }
                    for l in cx.labels {
                        *rep.classes.entry(l).or_default() += 1;
                    }
                }
            }
            match r {
                Err(f) if f.key.is_some_and(|key| ctx.known.iter().any(|x| x == key)) => {
                    rep.known.entry(f.key.unwrap().to_string()).or_insert(json!({"sub": self.name, "case": v, "message": f.msg}));
                    Ok(())
                }
                r => r,
            }
        };
        let first = self.example_shards();
        if k < first {
            for c in self.examples.iter().skip(k).step_by(first) {
                if stop.load(Ordering::Relaxed) {
                    break;
                }
                rep.examples += 1;
                if let Err(f) = eval(c, &mut rep, true) {
                    rep.failure = Some((serde_json::to_value(c).unwrap(), f.msg));
                    stop.store(true, Ordering::Relaxed);
                    break;
                }
            }
        } else {
            let total = self.total(ctx);
            let k = k - first + 1;
            let shards = self.shards(ctx) - first;
            let n = total / shards + usize::from(k - 1 < total % shards);
            let mut seed = [0u8; 32];
            for (i, part) in [ctx.seed, hash_json(&json!([ctx.id, self.name])), k as u64, 0x7a6b70].iter().enumerate() {
                seed[i * 8..i * 8 + 8].copy_from_slice(&part.to_le_bytes());
            }
            let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed);
            let mut runner = TestRunner::new_with_rng(Config { failure_persistence: None, ..Config::default() }, rng);
            let strat = (self.strat)();
            for _ in 0..n {
                if stop.load(Ordering::Relaxed) || Instant::now() > ctx.deadline {
                    break;
                }
                let mut tree = strat.new_tree(&mut runner).expect("strategy");
                let c = tree.current();
                if let Err(f) = eval(&c, &mut rep, true) {
                    stop.store(true, Ordering::Relaxed);
                    let (mut best, mut msg) = (c, f.msg);
                    let until = Instant::now() + Duration::from_secs(25);
                    let mut left = 400;
                    'shrink: while tree.simplify() {
                        loop {
                            if left == 0 || Instant::now() > until {
                                break 'shrink;
                            }
                            left -= 1;
                            let c = tree.current();
                            match eval(&c, &mut rep, false) {
                                Err(f) => {
                                    best = c;
                                    msg = f.msg;
                                    break;
                                }
                                Ok(()) => {
                                    if !tree.complicate() {
                                        break 'shrink;
                                    }
                                }
                            }
                        }
                    }
                    rep.failure = Some((serde_json::to_value(&best).unwrap(), msg));
                    break;
                }
            }
        }
        rep.wall_s = t0.elapsed().as_secs_f64();
        let mut v = serde_json::to_value(&rep).unwrap();
        v["seen"] = json!(rep.seen.into_iter().collect::<Vec<_>>());
        v
    }
}

impl<C> Sub<C> {
    fn example_shards(&self) -> usize {
        self.examples.len().min(24)
    }
    fn total(&self, ctx: &Ctx) -> usize {
        let n = if ctx.thorough { self.thorough } else { self.quick };
        ((n as f64 * ctx.scale).ceil() as usize).max(usize::from(n > 0))
    }
}

pub struct Check {
    pub id: &'static str,
    pub assumptions: Vec<&'static str>,
    pub subs: Vec<Box<dyn DynSub>>,
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.trim().parse().ok()).unwrap_or(d)
}

pub fn root() -> PathBuf {
    std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| {
        Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
    })
}

fn known_keys(id: &str) -> Vec<(String, String)> {
    // finding: property=<id> key=<key> <what fails>
    let text = std::fs::read_to_string(root().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter_map(|l| l.strip_prefix(&format!("property={id} key=")))
        .filter_map(|l| l.split_once(' '))
        .map(|(k, t)| (k.to_string(), t.to_string()))
        .collect()
}

fn ctx(id: &str, scratch: PathBuf) -> Ctx {
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let limit = env_u64("VERIF_LIMIT_S", if thorough { 5400 } else { 420 });
    Ctx {
        id: id.to_string(),
        seed: env_u64("VERIF_SEED", 1),
        thorough,
        known: known_keys(id).into_iter().map(|k| k.0).collect(),
        scratch,
        deadline: Instant::now() + Duration::from_secs(limit),
        scale: std::env::var("VERIF_SCALE").ok().and_then(|v| v.parse().ok()).unwrap_or(1.0),
    }
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}
fn limit_resources() {
    // address space 20 GB, no core files
    unsafe {
        let lim = [20u64 << 30, 20u64 << 30];
        setrlimit(9, &lim);
        setrlimit(4, &[0u64, 0u64]);
    }
}
/// CPU time that a single case, which takes milliseconds, gets when it is run alone.
const CASE_CPU_S: u64 = 60;
fn limit_cpu() {
    unsafe {
        setrlimit(0, &[CASE_CPU_S, CASE_CPU_S + 5]);
    }
}

/// Runs all shards of a check; writes the outcome to `scratch/result.json`.
pub fn worker(check: Check, scratch: &Path) -> i32 {
    limit_resources();
    install_panic_hook();
    let ctx = ctx(check.id, scratch.to_path_buf());
    let only = std::env::var("VERIF_SUB").ok();
    let subs: Arc<Vec<Box<dyn DynSub>>> =
        Arc::new(check.subs.into_iter().filter(|s| only.as_ref().is_none_or(|o| o == s.name())).collect());
    let mut queue = Vec::new();
    for (i, s) in subs.iter().enumerate() {
        for k in 0..s.shards(&ctx) {
            queue.push((k != 0, k, i));
        }
    }
    queue.sort(); // examples first, then shards round robin over the sub-checks
    let queue = Arc::new(queue);
    let next = Arc::new(AtomicUsize::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let out: Arc<Mutex<Vec<(usize, Value)>>> = Arc::default();
    let threads = env_u64("VERIF_THREADS", std::thread::available_parallelism().map_or(4, |n| n.get() as u64)) as usize;
    let slots: Vec<Slot> = (0..threads).map(|_| Slot::default()).collect();
    let handles: Vec<_> = (0..threads)
        .map(|t| {
            let (subs, queue, next, stop, out, ctx, slot) =
                (subs.clone(), queue.clone(), next.clone(), stop.clone(), out.clone(), ctx.clone(), slots[t].clone());
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || loop {
                    let q = next.fetch_add(1, Ordering::Relaxed);
                    if q >= queue.len() || stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let (_, k, i) = queue[q];
                    let v = subs[i].run_shard(&ctx, k, &stop, &slot);
                    out.lock().unwrap().push((i, v));
                })
                .unwrap()
        })
        .collect();
    // watchdog
    while handles.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_millis(20));
        for s in &slots {
            if let Some((t, sub, case)) = &*s.lock().unwrap() {
                if t.elapsed() > CASE_LIMIT {
                    let _ = std::fs::write(
                        scratch.join("hang.json"),
                        json!({"sub": sub, "case": case, "message": format!("no answer within {} s", CASE_LIMIT.as_secs())}).to_string(),
                    );
                    std::process::exit(4);
                }
            }
        }
    }
    let mut merged: BTreeMap<usize, SubReport> = BTreeMap::new();
    for (i, v) in out.lock().unwrap().iter() {
        let r: SubReport = serde_json::from_value(v.clone()).unwrap();
        let seen: Vec<u64> = serde_json::from_value(v["seen"].clone()).unwrap();
        let m = merged.entry(*i).or_default();
        m.evaluations += r.evaluations;
        m.examples += r.examples;
        m.skipped += r.skipped;
        m.wall_s += r.wall_s;
        m.seen.extend(seen);
        for (k, n) in r.classes {
            *m.classes.entry(k).or_default() += n;
        }
        m.samples.extend(r.samples);
        m.known.extend(r.known);
        let shorter = |a: &(Value, String), b: &(Value, String)| a.0.to_string().len() < b.0.to_string().len();
        if let Some(f) = r.failure {
            if m.failure.as_ref().is_none_or(|g| shorter(&f, g)) {
                m.failure = Some(f);
            }
        }
    }
    let mut res = Vec::new();
    for (i, s) in subs.iter().enumerate() {
        let mut m = merged.remove(&i).unwrap_or_default();
        m.nontrivial = m.seen.len();
        m.samples.truncate(3);
        let mut v = serde_json::to_value(&m).unwrap();
        v["name"] = json!(s.name());
        v["rule"] = json!(s.rule());
        res.push(v);
    }
    std::fs::write(scratch.join("result.json"), json!(res).to_string()).unwrap();
    0
}

fn spawn(args: &[&str], scratch: &Path) -> std::process::ExitStatus {
    let exe = std::env::current_exe().unwrap();
    let err = std::fs::File::create(scratch.join("stderr")).unwrap();
    let show = std::env::var("VERIF_SHOW").is_ok();
    Command::new(exe)
        .args(args)
        .stdin(Stdio::null())
        .stdout(if show { Stdio::inherit() } else { Stdio::null() })
        // the code under test prints without end; only keep it when asked to
        .stderr(if show { Stdio::from(err) } else { Stdio::null() })
        .status()
        .unwrap()
}

fn scratch_dir(tag: &str) -> PathBuf {
    let d = std::env::temp_dir().join(format!("zkp-verif-{}-{tag}", std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}

fn write_replay(id: &str, sub: &str, case: &Value, msg: &str) -> String {
    let dir = root().join("replays");
    std::fs::create_dir_all(&dir).unwrap();
    let p = dir.join(format!("{id}-{sub}.json"));
    let v = json!({"property": id, "sub": sub, "case": case, "message": msg, "seed": env_u64("VERIF_SEED", 1)});
    std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    p.display().to_string()
}

/// Runs a check in a worker and reports. Returns the exit code.
pub fn run(check: Check) -> i32 {
    let t0 = Instant::now();
    let scratch = scratch_dir("w");
    let c = ctx(check.id, scratch.clone());
    let mut failures: Vec<(String, Value, String)> = Vec::new();
    let mut results: Vec<Value> = Vec::new();
    for attempt in 0..2 {
        let st = spawn(&["worker", check.id, scratch.to_str().unwrap()], &scratch);
        if st.code() == Some(0) {
            let t = std::fs::read_to_string(scratch.join("result.json")).unwrap();
            results = serde_json::from_str(&t).unwrap();
            break;
        }
        // the worker hung or died: which of the running cases does it?
        if let Ok(t) = std::fs::read_to_string(scratch.join("hang.json")) {
            let v: Value = serde_json::from_str(&t).unwrap();
            // the clock decides nothing: alone and with a limit on its CPU time, does it end?
            let p = scratch.join("crash.json");
            std::fs::write(&p, v.to_string()).unwrap();
            let st1 = spawn(&["case", check.id, p.to_str().unwrap()], &scratch);
            let msg = match (st1.code(), st1.signal()) {
                (Some(0), _) | (_, Some(9)) => {
                    eprintln!("{}: no answer to a case within {} s, which ends when it is run alone: inconclusive", check.id, CASE_LIMIT.as_secs());
                    return 2;
                }
                (Some(1), _) => "the case fails".to_string(),
                (_, Some(24)) => format!("no end within {CASE_CPU_S} s of CPU time"),
                _ => format!("the process died: {st1}"),
            };
            failures.push((v["sub"].as_str().unwrap().into(), v["case"].clone(), msg));
            break;
        }
        let mut cur = Vec::new();
        for e in std::fs::read_dir(&scratch).unwrap().flatten() {
            if e.file_name().to_string_lossy().starts_with("cur-") {
                if let Some(v) = std::fs::read_to_string(e.path()).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) {
                    cur.push(v);
                }
            }
        }
        for v in &cur {
            let p = scratch.join("crash.json");
            std::fs::write(&p, v.to_string()).unwrap();
            let st1 = spawn(&["case", check.id, p.to_str().unwrap()], &scratch);
            // 9: ended from outside
            if !matches!(st1.code(), Some(0) | Some(1)) && st1.signal() != Some(9) {
                failures.push((v["sub"].as_str().unwrap().into(), v["case"].clone(), format!("the process died: {st1}")));
                break;
            }
        }
        if !failures.is_empty() {
            break;
        }
        if attempt == 1 {
            eprintln!("{}: the worker died twice ({st}), no single case does it: inconclusive", check.id);
            return 2;
        }
    }
    for r in &results {
        if let Some(f) = r["failure"].as_array() {
            failures.push((r["name"].as_str().unwrap().into(), f[0].clone(), f[1].as_str().unwrap().into()));
        }
    }
    let sum = |k: &str| results.iter().map(|r| r[k].as_u64().unwrap_or(0)).sum::<u64>();
    let samples: Vec<Value> = results.iter().flat_map(|r| r["samples"].as_array().cloned().unwrap_or_default()).collect();
    let rules: Vec<String> = results.iter().map(|r| format!("[{}] {}", r["name"].as_str().unwrap(), r["rule"].as_str().unwrap())).collect();
    let subs: Vec<Value> = results
        .iter()
        .map(|r| json!({"name": r["name"], "evaluations": r["evaluations"], "distinct_nontrivial": r["nontrivial"], "examples_first": r["examples"], "out_of_domain": r["skipped"], "classes": r["classes"], "cpu_s": r["wall_s"]}))
        .collect();
    let mut known = BTreeMap::new();
    for r in &results {
        if let Some(k) = r["known"].as_object() {
            for (key, v) in k {
                known.entry(key.clone()).or_insert(v.clone());
            }
        }
    }
    let ev = json!({
        "property": check.id,
        "tier": if c.thorough { "thorough" } else { "quick" },
        "seed": c.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum("evaluations"),
            "distinct_nontrivial": sum("nontrivial"),
            "rule": format!("Cases are generated by proptest from VERIF_SEED in fixed numbers per sub-check, after the listed example cases. A case counts once, by its value. {}", rules.join(" ")),
            "samples": samples,
            "sub_checks": subs,
            "known_findings_reproduced": known,
            "exhaustive": false,
        },
        "assumptions": check.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": failures.len(),
    });
    if std::env::var("VERIF_SUB").is_err() {
        let dir = root().join("evidence");
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(dir.join(format!("{}.json", check.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    let _ = std::fs::remove_dir_all(&scratch);
    for r in &results {
        println!(
            "  {}/{}: {} cases, {} distinct non-trivial, {} out of domain, {:.1} cpu-s",
            check.id,
            r["name"].as_str().unwrap(),
            r["evaluations"],
            r["nontrivial"],
            r["skipped"],
            r["wall_s"].as_f64().unwrap()
        );
    }
    for (key, text) in known_keys(check.id) {
        if known.contains_key(&key) {
            println!("KNOWN-FINDING: property={} {text}", check.id);
        }
    }
    println!("{}: {:.1} s", check.id, t0.elapsed().as_secs_f64());
    if failures.is_empty() {
        return 0;
    }
    for (sub, case, msg) in &failures {
        let p = write_replay(check.id, sub, case, msg);
        let short: String = case.to_string().chars().take(1500).collect();
        println!("  {}/{sub}: {msg}\n  case: {short}", check.id);
        println!("VIOLATION property={} replay={p}", check.id);
    }
    1
}

/// Runs one recorded case in this process: 0 holds, 1 violated.
pub fn replay(check: Check, file: &Path, quiet: bool) -> i32 {
    limit_resources();
    limit_cpu();
    install_panic_hook();
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let sub = v["sub"].as_str().unwrap();
    let s = check.subs.iter().find(|s| s.name() == sub).expect("sub-check");
    match s.replay(&v["case"], false).expect("case") {
        Ok(()) => {
            if !quiet {
                println!("{}/{sub}: the recorded case holds", check.id);
            }
            0
        }
        Err(f) => {
            if !quiet {
                println!("{}/{sub}: {}", check.id, f.msg);
                println!("VIOLATION property={} replay={}", check.id, file.display());
            }
            1
        }
    }
}
