//! Drives generated-input search: seeding, worker threads, shrinking, replay files, evidence.

use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Debug, Clone)]
pub enum Fail {
    /// The property is broken.
    Violation(String),
    /// The check could not be carried out, says nothing about the property.
    Infra(String),
}
pub type R<T = ()> = Result<T, Fail>;

#[macro_export]
macro_rules! viol {
    ($($arg:tt)*) => { return Err($crate::engine::Fail::Violation(format!($($arg)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !($cond) { return Err($crate::engine::Fail::Violation(format!($($arg)*))); } };
}
pub fn infra<E: std::fmt::Display>(what: &str) -> impl FnOnce(E) -> Fail + '_ {
    move |e| Fail::Infra(format!("{}: {}", what, e))
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub threads: usize,
    pub verif: PathBuf,
    pub scratch: PathBuf,
    pub cli: PathBuf,
    pub cli_leak: PathBuf,
    pub shim: PathBuf,
    pub known: Vec<(String, String, String)>,
    counter: AtomicU64,
}

impl Ctx {
    pub fn new(id: &str, verif: &Path) -> Self {
        let env = |name: &str| std::env::var(name).unwrap_or_default();
        let scratch = std::env::temp_dir().join(format!("pfpv-{}-{}", id, std::process::id()));
        std::fs::create_dir_all(&scratch).expect("scratch directory");
        let mut known = Vec::new();
        if let Ok(text) = std::fs::read_to_string(verif.join("known_findings.txt")) {
            for line in text.lines() {
                if let Some(rest) = line.strip_prefix("finding: ") {
                    let mut parts = rest.splitn(3, ' ');
                    let prop = parts.next().unwrap_or("").trim_start_matches("property=");
                    let key = parts.next().unwrap_or("").trim_start_matches("key=");
                    let what = parts.next().unwrap_or("");
                    known.push((prop.to_owned(), key.to_owned(), what.to_owned()));
                }
            }
        }
        Self {
            id: id.to_owned(),
            tier: if env("VERIF_TIER") == "thorough" {
                Tier::Thorough
            } else {
                Tier::Quick
            },
            seed: env("VERIF_SEED").parse().unwrap_or(1),
            threads: env("PFPV_THREADS").parse().unwrap_or(8),
            verif: verif.to_owned(),
            scratch,
            cli: PathBuf::from(env("PFPV_CLI")),
            cli_leak: PathBuf::from(env("PFPV_CLI_LEAK")),
            shim: PathBuf::from(env("PFPV_SHIM")),
            known,
            counter: AtomicU64::new(0),
        }
    }

    /// A new empty directory, removed when dropped.
    pub fn dir(&self) -> ScratchDir {
        let n = self.counter.fetch_add(1, Ordering::Relaxed);
        let path = self.scratch.join(format!("d{}", n));
        std::fs::create_dir_all(&path).expect("scratch directory");
        ScratchDir(path)
    }
}

pub struct ScratchDir(pub PathBuf);
impl ScratchDir {
    pub fn join(&self, name: &str) -> PathBuf {
        self.0.join(name)
    }
}
impl Drop for ScratchDir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// What a case exercised, filled in by the property.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
    pub extra: u64,
}
impl Obs {
    pub fn class(&mut self, name: &'static str) {
        self.classes.push(name);
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

#[derive(Default)]
pub struct Stats {
    inner: Mutex<StatsInner>,
}
#[derive(Default)]
struct StatsInner {
    evaluations: u64,
    steps: u64,
    distinct: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<Value>,
    per_sub: BTreeMap<String, (u64, u64)>,
    samples_per_sub: BTreeMap<String, usize>,
}

fn hash(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in data {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

fn clip(v: Value) -> Value {
    match v {
        Value::String(s) if s.len() > 200 => {
            Value::String(s.chars().take(80).collect::<String>() + "…")
        }
        Value::Array(a) => {
            let n = a.len();
            let mut r: Vec<Value> = a.into_iter().take(12).map(clip).collect();
            if n > 12 {
                r.push(Value::String(format!("… {} more", n - 12)));
            }
            Value::Array(r)
        }
        Value::Object(o) => Value::Object(o.into_iter().map(|(k, v)| (k, clip(v))).collect()),
        v => v,
    }
}

impl Stats {
    fn record(&self, sub: &str, case: &impl Serialize, obs: &Obs) {
        let text = serde_json::to_string(case).unwrap_or_default();
        let mut s = self.inner.lock().unwrap();
        s.evaluations += 1;
        s.steps += obs.extra;
        let fresh = obs.nontrivial && s.distinct.insert(hash(format!("{}{}", sub, text).as_bytes()));
        let e = s.per_sub.entry(sub.to_owned()).or_default();
        e.0 += 1;
        if fresh {
            e.1 += 1;
        }
        let mut seen = HashSet::new();
        for c in &obs.classes {
            if seen.insert(*c) {
                *s.classes.entry(format!("{}: {}", sub, c)).or_default() += 1;
            }
        }
        let count = s.samples_per_sub.entry(sub.to_owned()).or_default();
        if fresh && *count < 2 {
            *count += 1;
            s.samples.push(
                json!({"sub": sub, "case": clip(serde_json::from_str(&text).unwrap_or(Value::Null))}),
            );
        }
    }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{}", info);
        PANIC.with(|p| *p.borrow_mut() = Some(msg));
    }));
}

/// Runs code under test, a panic is a violation.
pub fn guarded<T>(f: impl FnOnce() -> R<T>) -> R<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let msg = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| "unknown panic".to_owned());
            if msg.contains("panicked at src/") || msg.contains("harness") || msg.contains("INFRA") {
                Err(Fail::Infra(msg))
            } else {
                Err(Fail::Violation(format!("panic: {}", msg)))
            }
        }
    }
}

// What is running: for cases which never end or end the process, see supervise()

#[derive(Default)]
struct Slot {
    running: Option<(Instant, &'static str, String)>,
}
static SLOTS: Mutex<Vec<Slot>> = Mutex::new(Vec::new());
static SLOWEST: Mutex<BTreeMap<&'static str, f64>> = Mutex::new(BTreeMap::new());
/// No case takes anything like that
const HANG_SECS: u64 = 240;

thread_local! {
    static SLOT: usize = {
        let mut slots = SLOTS.lock().unwrap();
        slots.push(Slot::default());
        slots.len() - 1
    };
}

fn in_flight(n: usize) -> Option<PathBuf> {
    let dir = std::env::var_os("PFPV_IN_FLIGHT")?;
    Some(PathBuf::from(dir).join(n.to_string()))
}

fn timed<C: Serialize>(sub: &'static str, case: &C, f: impl FnOnce() -> R) -> R {
    let slot = SLOT.with(|s| *s);
    let text = json!({"sub": sub, "case": case}).to_string();
    if let Some(path) = in_flight(slot) {
        let _ = std::fs::write(path, &text);
    }
    let start = Instant::now();
    SLOTS.lock().unwrap()[slot].running = Some((start, sub, text));
    let r = guarded(f);
    SLOTS.lock().unwrap()[slot].running = None;
    if let Some(path) = in_flight(slot) {
        let _ = std::fs::write(path, "");
    }
    let secs = start.elapsed().as_secs_f64();
    let mut slowest = SLOWEST.lock().unwrap();
    let e = slowest.entry(sub).or_insert(0.0);
    *e = e.max(secs);
    r
}

fn watch(ctx_id: String, dir: PathBuf) {
    loop {
        std::thread::sleep(std::time::Duration::from_secs(2));
        let slots = SLOTS.lock().unwrap();
        for s in slots.iter() {
            if let Some((start, sub, text)) = &s.running {
                if start.elapsed().as_secs() > HANG_SECS {
                    report_lost(&ctx_id, &dir, text, &format!("{}: still running after {} seconds", sub, HANG_SECS));
                    std::process::exit(1);
                }
            }
        }
    }
}

/// Reports a case which doesn't end by itself.
fn report_lost(id: &str, dir: &Path, case: &str, message: &str) {
    let mut replay: Value = serde_json::from_str(case).unwrap_or(Value::Null);
    replay["property"] = json!(id);
    replay["message"] = json!(message);
    let path = dir.join(format!("replay-{}-{}.json", id, replay["sub"].as_str().unwrap_or("")));
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&replay).unwrap());
    println!("{}", message);
    println!("VIOLATION property={} replay={}", id, path.display());
}

/// Runs the check in a process of its own: code under test which ends that process (memory
/// exhausted, stack overflow) is a violation if the same case does it again.
pub fn supervise(id: &str, verif: &Path, args: &[String]) -> i32 {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    let scratch = std::env::temp_dir().join(format!("pfpv-{}-{}-cases", id, std::process::id()));
    let _ = std::fs::create_dir_all(&scratch);
    let run = |args: &[String], quiet: bool| -> Result<std::process::ExitStatus, String> {
        let mut cmd = std::process::Command::new(std::env::current_exe().map_err(|e| e.to_string())?);
        cmd.args(args).env("PFPV_CHILD", "1");
        if quiet {
            cmd.env_remove("PFPV_IN_FLIGHT").stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
        } else {
            cmd.env("PFPV_IN_FLIGHT", &scratch);
        }
        unsafe {
            cmd.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let limit = libc::rlimit { rlim_cur: 16 << 30, rlim_max: libc::RLIM_INFINITY };
                libc::setrlimit(libc::RLIMIT_AS, &limit);
                Ok(())
            });
        }
        let mut child = cmd.spawn().map_err(|e| e.to_string())?;
        let pid = child.id();
        let status = child.wait().map_err(|e| e.to_string())?;
        let _ = std::fs::remove_dir_all(std::env::temp_dir().join(format!("pfpv-{}-{}", id, pid)));
        Ok(status)
    };
    let crashed = |status: &std::process::ExitStatus| {
        matches!(status.signal(), Some(libc::SIGABRT | libc::SIGSEGV | libc::SIGBUS | libc::SIGILL | libc::SIGFPE))
    };
    let code = match run(args, false) {
        Err(e) => {
            eprintln!("ERROR {}", e);
            2
        }
        Ok(status) if crashed(&status) => {
            let mut code = 2;
            let replay = scratch.join("replay");
            for n in 0..256 {
                let Ok(case) = std::fs::read_to_string(scratch.join(n.to_string())) else { break };
                if case.is_empty() || std::fs::write(&replay, &case).is_err() {
                    continue;
                }
                let args = [id.to_owned(), "--replay".to_owned(), replay.display().to_string()];
                match run(&args, true) {
                    Ok(again) if crashed(&again) || again.code() == Some(1) => {
                        report_lost(id, &verif.join("evidence"), &case, &format!("the process was ended: {}", again));
                        code = 1;
                        break;
                    }
                    _ => {}
                }
            }
            if code == 2 {
                eprintln!("ERROR the check ended with {}", status);
            }
            code
        }
        Ok(status) => status.code().unwrap_or(2),
    };
    let _ = std::fs::remove_dir_all(&scratch);
    code
}

pub struct Found {
    pub sub: String,
    pub message: String,
    pub case: Value,
}

pub trait Sub: Sync {
    fn name(&self) -> &'static str;
    fn run(&self, ctx: &Ctx, stats: &Stats) -> Result<Option<Found>, String>;
    fn replay(&self, ctx: &Ctx, case: &Value) -> R;
}

/// Randomly generated cases.
pub struct Gen<C: 'static> {
    pub name: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub strat: fn() -> BoxedStrategy<C>,
    pub test: fn(&Ctx, &C, &mut Obs) -> R,
    /// Upper limit for shrinking steps.
    pub shrink: u32,
}

fn rng_for(seed: u64, id: &str, sub: &str, thread: usize) -> TestRng {
    let mut bytes = [0u8; 32];
    bytes[..8].copy_from_slice(&seed.to_le_bytes());
    bytes[8..16].copy_from_slice(&hash(id.as_bytes()).to_le_bytes());
    bytes[16..24].copy_from_slice(&hash(sub.as_bytes()).to_le_bytes());
    bytes[24..].copy_from_slice(&(thread as u64).to_le_bytes());
    TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
}

impl<C> Sub for Gen<C>
where
    C: std::fmt::Debug + Clone + Serialize + DeserializeOwned + Send + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }

    fn run(&self, ctx: &Ctx, stats: &Stats) -> Result<Option<Found>, String> {
        let total = match ctx.tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        };
        let stop = AtomicBool::new(false);
        let results: Mutex<BTreeMap<usize, Result<Found, String>>> = Mutex::new(BTreeMap::new());
        std::thread::scope(|scope| {
            for t in 0..ctx.threads {
                let cases = total / ctx.threads as u32
                    + if (t as u32) < total % ctx.threads as u32 { 1 } else { 0 };
                if cases == 0 {
                    continue;
                }
                let stop = &stop;
                let results = &results;
                let builder = std::thread::Builder::new().stack_size(16 << 20);
                builder
                    .spawn_scoped(scope, move || {
                        let config = Config {
                            cases,
                            failure_persistence: None,
                            max_shrink_iters: self.shrink,
                            max_global_rejects: 1_000_000,
                            ..Config::default()
                        };
                        let mut runner = TestRunner::new_with_rng(
                            config,
                            rng_for(ctx.seed, &ctx.id, self.name, t),
                        );
                        let mine = AtomicBool::new(false);
                        let last: Mutex<Option<String>> = Mutex::new(None);
                        let shrink_start: Mutex<Option<Instant>> = Mutex::new(None);
                        let strat = (self.strat)();
                        let outcome = runner.run(&strat, |case| {
                            let shrinking = mine.load(Ordering::Relaxed);
                            if !shrinking && stop.load(Ordering::Relaxed) {
                                return Ok(());
                            }
                            if shrinking {
                                // Bound the time for minimising, this doesn't affect the verdict.
                                let start = shrink_start.lock().unwrap();
                                if start.map_or(false, |s: Instant| s.elapsed().as_secs() > 60) {
                                    return Ok(());
                                }
                            }
                            let mut obs = Obs::default();
                            let r = timed(self.name, &case, || (self.test)(ctx, &case, &mut obs));
                            if !shrinking {
                                stats.record(self.name, &case, &obs);
                            }
                            match r {
                                Ok(()) => Ok(()),
                                Err(Fail::Violation(msg)) => {
                                    mine.store(true, Ordering::Relaxed);
                                    stop.store(true, Ordering::Relaxed);
                                    shrink_start.lock().unwrap().get_or_insert_with(Instant::now);
                                    Err(TestCaseError::fail(msg))
                                }
                                Err(Fail::Infra(msg)) => {
                                    if !shrinking {
                                        stop.store(true, Ordering::Relaxed);
                                        last.lock().unwrap().get_or_insert(msg);
                                    }
                                    Ok(())
                                }
                            }
                        });
                        if let Some(msg) = last.lock().unwrap().take() {
                            results.lock().unwrap().insert(t, Err(msg));
                        }
                        match outcome {
                            Ok(()) => {}
                            Err(TestError::Fail(reason, case)) => {
                                results.lock().unwrap().insert(
                                    t,
                                    Ok(Found {
                                        sub: self.name.to_owned(),
                                        message: reason.message().to_owned(),
                                        case: serde_json::to_value(&case).unwrap(),
                                    }),
                                );
                            }
                            Err(TestError::Abort(reason)) => {
                                results
                                    .lock()
                                    .unwrap()
                                    .insert(t, Err(format!("aborted: {}", reason.message())));
                            }
                        }
                    })
                    .expect("harness thread");
            }
        });
        let mut infra = None;
        for (_, r) in results.into_inner().unwrap() {
            match r {
                Ok(found) => return Ok(Some(found)),
                Err(msg) => infra = Some(msg),
            }
        }
        match infra {
            Some(msg) => Err(format!("{}: {}", self.name, msg)),
            None => Ok(None),
        }
    }

    fn replay(&self, ctx: &Ctx, case: &Value) -> R {
        let case: C = serde_json::from_value(case.clone()).map_err(infra("replay file"))?;
        guarded(|| (self.test)(ctx, &case, &mut Obs::default()))
    }
}

/// Systematically enumerated cases.
pub struct Enum<C: 'static> {
    pub name: &'static str,
    pub cases: fn(&Ctx) -> R<Vec<C>>,
    pub test: fn(&Ctx, &C, &mut Obs) -> R,
}

impl<C> Sub for Enum<C>
where
    C: std::fmt::Debug + Clone + Serialize + DeserializeOwned + Send + Sync + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }

    fn run(&self, ctx: &Ctx, stats: &Stats) -> Result<Option<Found>, String> {
        let cases = match guarded(|| (self.cases)(ctx)) {
            Ok(c) => c,
            Err(Fail::Infra(msg)) => return Err(msg),
            Err(Fail::Violation(msg)) => {
                return Ok(Some(Found {
                    sub: self.name.to_owned(),
                    message: format!("while preparing: {}", msg),
                    case: Value::Null,
                }))
            }
        };
        let next = AtomicU64::new(0);
        let results: Mutex<BTreeMap<u64, Result<Found, String>>> = Mutex::new(BTreeMap::new());
        std::thread::scope(|scope| {
            for _ in 0..ctx.threads {
                scope.spawn(|| loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= cases.len() as u64 || !results.lock().unwrap().is_empty() {
                        return;
                    }
                    let case = &cases[i as usize];
                    let mut obs = Obs::default();
                    let r = timed(self.name, case, || (self.test)(ctx, case, &mut obs));
                    stats.record(self.name, case, &obs);
                    let r = match r {
                        Ok(()) => continue,
                        Err(Fail::Violation(message)) => Ok(Found {
                            sub: self.name.to_owned(),
                            message,
                            case: serde_json::to_value(case).unwrap(),
                        }),
                        Err(Fail::Infra(msg)) => Err(msg),
                    };
                    results.lock().unwrap().insert(i, r);
                });
            }
        });
        let mut infra = None;
        for (_, r) in results.into_inner().unwrap() {
            match r {
                Ok(found) => return Ok(Some(found)),
                Err(msg) => infra = Some(msg),
            }
        }
        match infra {
            Some(msg) => Err(format!("{}: {}", self.name, msg)),
            None => Ok(None),
        }
    }

    fn replay(&self, ctx: &Ctx, case: &Value) -> R {
        if case.is_null() {
            return guarded(|| (self.cases)(ctx)).map(|_| ());
        }
        let case: C = serde_json::from_value(case.clone()).map_err(infra("replay file"))?;
        guarded(|| (self.test)(ctx, &case, &mut Obs::default()))
    }
}

/// A defect recorded in known_findings.txt: one concrete failing history, kept out of the
/// generators. Reported as KNOWN-FINDING while it fails and is listed, as violation if it fails
/// without being listed.
pub struct Probe {
    pub key: &'static str,
    pub test: fn(&Ctx) -> R,
}

impl Sub for Probe {
    fn name(&self) -> &'static str {
        self.key
    }
    fn run(&self, ctx: &Ctx, stats: &Stats) -> Result<Option<Found>, String> {
        stats.record(self.key, &self.key, &Obs::default());
        match guarded(|| (self.test)(ctx)) {
            Ok(()) => Ok(None),
            Err(Fail::Infra(msg)) => Err(msg),
            Err(Fail::Violation(message)) => {
                if let Some((_, _, what)) =
                    ctx.known.iter().find(|(p, k, _)| *p == ctx.id && k == self.key)
                {
                    println!("KNOWN-FINDING: property={} {}", ctx.id, what);
                    Ok(None)
                } else {
                    Ok(Some(Found {
                        sub: self.key.to_owned(),
                        message,
                        case: Value::Null,
                    }))
                }
            }
        }
    }
    fn replay(&self, ctx: &Ctx, _case: &Value) -> R {
        guarded(|| (self.test)(ctx))
    }
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Box<dyn Sub>>,
}

pub fn run_prop(ctx: &Ctx, prop: &Prop, replay: Option<&Path>) -> i32 {
    let start = Instant::now();
    if let Some(path) = replay {
        let file: Value = match std::fs::read_to_string(path)
            .map_err(|e| e.to_string())
            .and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string()))
        {
            Ok(v) => v,
            Err(e) => {
                eprintln!("cannot read replay file: {}", e);
                return 2;
            }
        };
        let sub = file["sub"].as_str().unwrap_or("");
        for s in &prop.subs {
            if s.name() == sub {
                return match s.replay(ctx, &file["case"]) {
                    Ok(()) => {
                        println!("replay of {}: property holds", path.display());
                        0
                    }
                    Err(Fail::Violation(msg)) => {
                        println!("{}", msg);
                        println!("VIOLATION property={} replay={}", prop.id, path.display());
                        1
                    }
                    Err(Fail::Infra(msg)) => {
                        eprintln!("ERROR {}", msg);
                        2
                    }
                };
            }
        }
        eprintln!("unknown sub-check {}", sub);
        return 2;
    }

    {
        let (id, dir) = (ctx.id.clone(), ctx.verif.join("evidence"));
        let _ = std::fs::create_dir_all(&dir);
        std::thread::spawn(move || watch(id, dir));
    }
    let stats = Stats::default();
    let mut found = Vec::new();
    let mut errors = Vec::new();
    let only = std::env::var("PFPV_ONLY").ok();
    let mut timings = BTreeMap::new();
    for sub in &prop.subs {
        if only.as_ref().map_or(false, |o| o != sub.name()) {
            continue;
        }
        let t = Instant::now();
        match sub.run(ctx, &stats) {
            Ok(None) => {}
            Ok(Some(f)) => {
                found.push(f);
                // Fail fast, the remaining sub-checks would not change the verdict
                break;
            }
            Err(msg) => errors.push(msg),
        }
        timings.insert(sub.name(), (t.elapsed().as_secs_f64() * 10.0).round() / 10.0);
    }

    let slowest = SLOWEST.lock().unwrap().clone();
    let s = stats.inner.into_inner().unwrap();
    let per_sub: BTreeMap<String, Value> = s
        .per_sub
        .iter()
        .map(|(k, (e, d))| {
            (k.clone(), json!({"cases": e, "nontrivial": d, "seconds": timings.get(k.as_str()), "slowest_case_s": slowest.get(k.as_str()).map(|s| (s * 100.0).round() / 100.0)}))
        })
        .collect();
    let evidence = json!({
        "property": prop.id,
        "tier": if ctx.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": ctx.seed,
        "level": prop.level,
        "coverage": {
            "evaluations": s.evaluations,
            "distinct_nontrivial": s.distinct.len(),
            "rule": prop.rule,
            "samples": s.samples,
            "operations_executed": s.steps,
            "per_subcheck": per_sub,
            "class_counts": s.classes,
        },
        "assumptions": prop.assumptions,
        "wall_s": (start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": found.len(),
    });
    let dir = ctx.verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(
        dir.join(format!("{}.json", prop.id)),
        serde_json::to_string_pretty(&evidence).unwrap(),
    ) {
        eprintln!("ERROR writing evidence: {}", e);
        return 2;
    }

    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1}s {}",
        prop.id,
        s.evaluations,
        s.distinct.len(),
        start.elapsed().as_secs_f64(),
        serde_json::to_string(&timings).unwrap(),
    );
    if let Some(f) = found.first() {
        let path = dir.join(format!("replay-{}-{}.json", prop.id, f.sub));
        let replay = json!({"property": prop.id, "sub": f.sub, "message": f.message, "case": f.case});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&replay).unwrap());
        println!("{}", f.message);
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        return 1;
    }
    if !errors.is_empty() {
        for e in errors {
            eprintln!("ERROR {}", e);
        }
        return 2;
    }
    0
}

pub fn boxed<C: std::fmt::Debug + 'static>(s: impl Strategy<Value = C> + 'static) -> BoxedStrategy<C> {
    s.boxed()
}
