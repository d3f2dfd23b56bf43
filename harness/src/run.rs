//! The search driver: generates cases with proptest, runs them in parallel
//! shards, shrinks the first failure, counts what was covered.

use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, ExitStatus};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one case turned out to be.
#[derive(Default, Debug, Clone)]
pub struct Info {
    pub nontrivial: bool,
    pub tags: Vec<&'static str>,
}

impl Info {
    pub fn new(nontrivial: bool) -> Self {
        Info {
            nontrivial,
            tags: vec![],
        }
    }
    pub fn tag(mut self, t: &'static str) -> Self {
        self.tags.push(t);
        self
    }
    pub fn tag_if(self, c: bool, t: &'static str) -> Self {
        if c {
            self.tag(t)
        } else {
            self
        }
    }
}

pub type CaseResult = Result<Info, String>;

pub struct Ctx {
    pub id: &'static str,
    pub tier: Tier,
    pub seed: u64,
    /// Factor on all case counts (for experiments).
    pub scale: f64,
    pub replay: Option<(String, Value)>,
    pub replay_file: Option<PathBuf>,
    pub only_leg: Option<String>,
    pub replay_dir: std::path::PathBuf,
    pub legs: Vec<Value>,
    pub evaluations: u64,
    pub distinct: u64,
    pub samples: Vec<Value>,
    pub rules: Vec<String>,
    pub violations: Vec<String>,
    pub known: Vec<String>,
    pub known_file: std::path::PathBuf,
    pub assumptions: Vec<String>,
    pub shards: usize,
}

/// Set if a panic came from the harness itself: then the run proves nothing.
pub static HARNESS_ERROR: Mutex<Option<String>> = Mutex::new(None);
static LAST_PANIC: Mutex<Option<String>> = Mutex::new(None);
pub const INTENTIONAL: &str = "intentional panic of the test decoder";
pub static STUCK: AtomicBool = AtomicBool::new(false);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        if msg == INTENTIONAL {
            return;
        }
        let loc = info.location().map(|l| l.to_string()).unwrap_or_default();
        let text = format!("{} at {}", msg.chars().take(300).collect::<String>(), loc);
        // Paths of this crate's own sources are relative ("src/..."), those of
        // dependencies absolute.
        if loc.starts_with("src/") {
            let mut e = HARNESS_ERROR.lock().unwrap();
            if e.is_none() {
                *e = Some(text.clone());
            }
        }
        *LAST_PANIC.lock().unwrap() = Some(text);
    }));
}

/// Runs code of the library; a panic becomes an error text.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            let msg = p
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| p.downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "?".into());
            let last = LAST_PANIC.lock().unwrap().clone().unwrap_or_default();
            Err(format!(
                "panic: {} [{}]",
                msg.chars().take(300).collect::<String>(),
                last
            ))
        }
    }
}

/// Where a run keeps its files; one directory for a supervisor and its children.
pub fn scratch_root() -> PathBuf {
    match std::env::var_os(SCRATCH) {
        Some(dir) => dir.into(),
        None => std::env::temp_dir().join(format!("avp-scratch-{}", std::process::id())),
    }
}

const SCRATCH: &str = "AVP_SCRATCH";
const INNER: &str = "AVP_INNER";

/// The case a shard is working on, in memory for the watchdog and in a file for
/// the supervisor, which reads it if the process dies.
struct Journal {
    file: Option<std::fs::File>,
    current: Mutex<Option<String>>,
    /// Seconds the current case has been running.
    age: AtomicU64,
}

impl Journal {
    fn new(shard: usize) -> Journal {
        let dir = scratch_root().join("journal");
        let file = std::env::var_os(INNER).and_then(|_| {
            std::fs::create_dir_all(&dir).ok()?;
            std::fs::File::create(dir.join(shard.to_string())).ok()
        });
        Journal {
            file,
            current: Mutex::new(None),
            age: AtomicU64::new(0),
        }
    }
    fn set(&self, leg: &str, case: Option<&str>) {
        if let Some(file) = &self.file {
            let text = case.map_or(String::new(), |c| format!("{{\"leg\":\"{leg}\",\"case\":{c}}}"));
            let mut data = (text.len() as u64).to_le_bytes().to_vec();
            data.extend(text.bytes());
            let _ = file.write_all_at(&data, 0);
        }
        *self.current.lock().unwrap() = case.map(str::to_string);
        self.age.store(0, Ordering::SeqCst);
    }
    /// The cases that were running when a process died.
    fn read_all() -> Vec<Value> {
        let mut found = vec![];
        for entry in std::fs::read_dir(scratch_root().join("journal")).into_iter().flatten().flatten() {
            let data = std::fs::read(entry.path()).unwrap_or_default();
            if data.len() > 8 {
                let n = u64::from_le_bytes(data[..8].try_into().unwrap()) as usize;
                if let Some(v) = data.get(8..8 + n).and_then(|d| serde_json::from_slice(d).ok()) {
                    found.push(v);
                }
            }
        }
        found
    }
}

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

fn rng_seed(seed: u64, id: &str, leg: &str, shard: usize) -> [u8; 32] {
    let mut h = mix(seed);
    for b in id.bytes().chain(leg.bytes()) {
        h = mix(h ^ b as u64);
    }
    h = mix(h ^ ((shard as u64) << 32));
    let mut out = [0u8; 32];
    for i in 0..4 {
        h = mix(h);
        out[i * 8..i * 8 + 8].copy_from_slice(&h.to_le_bytes());
    }
    out
}

fn hash_str(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn write_replay(dir: &Path, id: &str, leg: &str, body: &Value) -> PathBuf {
    let text = serde_json::to_string_pretty(body).unwrap();
    let _ = std::fs::create_dir_all(dir);
    let path = dir.join(format!("{id}-{leg}-{:016x}.json", hash_str(&text)));
    std::fs::write(&path, text).expect("cannot write the replay file");
    path
}

impl Ctx {
    pub fn cases(&self, quick: u64, thorough: u64) -> u64 {
        let n = if self.tier == Tier::Quick {
            quick
        } else {
            thorough
        };
        ((n as f64 * self.scale) as u64).max(1)
    }

    fn write_replay(&self, leg: &str, body: &Value) -> PathBuf {
        match &self.replay_file {
            Some(path) => path.clone(),
            None => write_replay(&self.replay_dir, self.id, leg, body),
        }
    }

    fn violation(&mut self, leg: &str, case: Value, reason: &str) {
        let body = json!({"property": self.id, "leg": leg, "seed": self.seed, "reason": reason, "case": case});
        let path = self.write_replay(leg, &body);
        println!("{} [{}]: {}", self.id, leg, reason);
        let compact = serde_json::to_string(&body["case"]).unwrap();
        println!("  case: {}", compact.chars().take(2000).collect::<String>());
        self.violations
            .push(format!("VIOLATION property={} replay={}", self.id, path.display()));
    }

    /// Explores `cases` generated cases of one sub-check.
    pub fn leg<C>(
        &mut self,
        name: &str,
        rule: &str,
        cases: u64,
        strat: impl Fn() -> BoxedStrategy<C> + Sync,
        check: impl Fn(&C) -> CaseResult + Sync,
    ) where
        C: Clone + Debug + Serialize + DeserializeOwned + Send,
    {
        if let Some((leg, case)) = self.replay.clone() {
            if leg == name {
                let c: C = serde_json::from_value(case.clone()).expect("replay does not parse");
                match guarded(|| check(&c)).and_then(|r| r) {
                    Ok(i) => println!("replay of leg {name}: holds ({i:?})"),
                    Err(e) => self.violation(name, case, &e),
                }
            }
            return;
        }
        if self.only_leg.as_deref().map_or(false, |l| l != name) || STUCK.load(Ordering::SeqCst) {
            return;
        }
        let t0 = Instant::now();
        let shards = self.shards.min(cases as usize).max(1);
        let stop = AtomicBool::new(false);
        struct Shared {
            evals: u64,
            distinct: HashSet<u64>,
            nontrivial: HashSet<u64>,
            tags: BTreeMap<&'static str, u64>,
            samples: Vec<Value>,
            failure: Option<(Value, String)>,
        }
        let shared = Mutex::new(Shared {
            evals: 0,
            distinct: HashSet::new(),
            nontrivial: HashSet::new(),
            tags: BTreeMap::new(),
            samples: vec![],
            failure: None,
        });
        let (id, seed) = (self.id, self.seed);
        let journals: Vec<Journal> = (0..shards).map(Journal::new).collect();
        let limit = if self.tier == Tier::Quick { 200 } else { 900 };
        let done = AtomicU64::new(0);
        let this = &*self;
        std::thread::scope(|s| {
            let (journals, done) = (&journals, &done);
            s.spawn(move || {
                // Time is counted in steps, so that a machine that stands still
                // for a while is not mistaken for a case that does.
                while done.load(Ordering::SeqCst) < shards as u64 {
                    std::thread::sleep(Duration::from_millis(100));
                    for j in journals {
                        if j.age.fetch_add(1, Ordering::SeqCst) < limit * 10 {
                            continue;
                        }
                        let Some(case) = j.current.lock().unwrap().clone() else { continue };
                        let body = json!({"property": id, "leg": name, "seed": seed,
                            "reason": "does not finish", "case": serde_json::from_str::<Value>(&case).unwrap()});
                        let path = this.write_replay(name, &body);
                        println!("{id} [{name}]: a case does not finish within {limit} s");
                        println!("  case: {}", case.chars().take(2000).collect::<String>());
                        println!("VIOLATION property={id} replay={}", path.display());
                        use std::io::Write;
                        let _ = std::io::stdout().flush();
                        std::process::exit(1);
                    }
                }
            });
            for shard in 0..shards {
                let (stop, shared, strat, check) = (&stop, &shared, &strat, &check);
                let journal = &journals[shard];
                let n = cases / shards as u64 + u64::from((shard as u64) < cases % shards as u64);
                s.spawn(move || {
                    let config = Config {
                        cases: n as u32,
                        max_shrink_iters: 600,
                        max_shrink_time: 40_000,
                        failure_persistence: None,
                        max_global_rejects: 1_000_000,
                        max_local_rejects: 1_000_000,
                        ..Config::default()
                    };
                    let rng = TestRng::from_seed(
                        RngAlgorithm::ChaCha,
                        &rng_seed(seed, id, name, shard),
                    );
                    let mut runner = TestRunner::new_with_rng(config, rng);
                    let failed = AtomicBool::new(false);
                    let strategy = strat();
                    let res = runner.run(&strategy, |case| {
                        let shrinking = failed.load(Ordering::SeqCst);
                        if !shrinking && stop.load(Ordering::SeqCst) {
                            return Ok(());
                        }
                        if shrinking && STUCK.load(Ordering::SeqCst) {
                            // Every further hang would cost a time-out.
                            return Ok(());
                        }
                        let v = serde_json::to_string(&case).unwrap();
                        journal.set(name, Some(&v));
                        let r = guarded(|| check(&case)).and_then(|r| r);
                        match r {
                            Ok(info) => {
                                if !shrinking {
                                    let h = hash_str(&v);
                                    let mut g = shared.lock().unwrap();
                                    g.evals += 1;
                                    g.distinct.insert(h);
                                    if info.nontrivial {
                                        g.nontrivial.insert(h);
                                        // A few early cases and a few from the middle of the run.
                                        let k = g.nontrivial.len();
                                        if (k <= 2 || k == 50) && v.len() < 4000 {
                                            let val: Value = serde_json::from_str(&v).unwrap();
                                            g.samples.push(json!({"leg": name, "case": val, "tags": info.tags}));
                                        }
                                    }
                                    for t in info.tags {
                                        *g.tags.entry(t).or_default() += 1;
                                    }
                                }
                                Ok(())
                            }
                            Err(e) => {
                                if !shrinking {
                                    shared.lock().unwrap().evals += 1;
                                }
                                failed.store(true, Ordering::SeqCst);
                                stop.store(true, Ordering::SeqCst);
                                Err(TestCaseError::fail(e))
                            }
                        }
                    });
                    journal.set(name, None);
                    done.fetch_add(1, Ordering::SeqCst);
                    match res {
                        Ok(()) => {}
                        Err(TestError::Fail(reason, case)) => {
                            let mut g = shared.lock().unwrap();
                            if g.failure.is_none() {
                                g.failure = Some((
                                    serde_json::to_value(&case).unwrap(),
                                    reason.message().to_string(),
                                ));
                            }
                        }
                        Err(TestError::Abort(r)) => {
                            *HARNESS_ERROR.lock().unwrap() =
                                Some(format!("leg {name} aborted: {r}"));
                        }
                    }
                });
            }
        });
        let g = shared.into_inner().unwrap();
        self.evaluations += g.evals;
        self.distinct += g.nontrivial.len() as u64;
        self.samples.extend(g.samples);
        self.rules.push(format!("{name}: {rule}"));
        self.legs.push(json!({
            "leg": name,
            "evaluations": g.evals,
            "distinct": g.distinct.len(),
            "distinct_nontrivial": g.nontrivial.len(),
            "tags": g.tags,
            "wall_s": t0.elapsed().as_secs_f64(),
        }));
        println!(
            "{} [{}] {} cases, {} distinct non-trivial, {:.1} s",
            self.id,
            name,
            g.evals,
            g.nontrivial.len(),
            t0.elapsed().as_secs_f64()
        );
        if let Some((case, reason)) = g.failure {
            self.violation(name, case, &reason);
        }
    }

    /// A failure with the signature of a finding: reported as known if the
    /// committed list has it, as a violation otherwise.
    pub fn known(&mut self, finding: &str, text: &str) {
        let list = std::fs::read_to_string(&self.known_file).unwrap_or_default();
        let key = format!("known: property={} {finding}", self.id);
        if list.lines().any(|l| l.starts_with(&key)) {
            self.known.push(format!("{finding}: {text}"));
        } else {
            self.violation(finding, Value::Null, text);
        }
    }

    pub fn evidence(&self, wall: f64) -> Value {
        json!({
            "property": self.id,
            "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": self.distinct,
                "rule": self.rules.join("; "),
                "samples": self.samples.iter().take(40).collect::<Vec<_>>(),
                "legs": self.legs,
                "known_findings": self.known,
            },
            "assumptions": self.assumptions,
            "wall_s": wall,
            "violations": self.violations.len(),
        })
    }
}

pub type Check = fn(&mut Ctx);

/// Runs the check in a child process, because the code under test may abort,
/// crash or exhaust the memory: that is a violation of whatever promises a
/// result for the case that was running.
fn supervise(args: &[String], id: &str, seed: u64, root: &Path) -> i32 {
    let scratch = scratch_root();
    std::env::set_var(SCRATCH, &scratch);
    let run = |args: &[String]| -> ExitStatus {
        Command::new(std::env::current_exe().expect("path of this program"))
            .args(args)
            .env(INNER, "1")
            .status()
            .expect("cannot start the check")
    };
    let status = run(args);
    let Some(signal) = status.signal() else {
        return status.code().unwrap_or(3);
    };
    println!("{id}: the process died with signal {signal}");
    if args[0] == "replay" {
        println!("VIOLATION property={id} replay={}", args[1]);
        return 1;
    }
    let mut first = None;
    for entry in Journal::read_all() {
        let leg = entry["leg"].as_str().unwrap_or("?").to_string();
        let body = json!({"property": id, "leg": leg, "seed": seed,
            "reason": format!("the process dies with signal {signal}"), "case": entry["case"]});
        let path = write_replay(&root.join("replays"), id, &leg, &body);
        let again = ["replay", path.to_str().unwrap(), "--root", root.to_str().unwrap()].map(str::to_string);
        if run(&again).signal().is_some() {
            println!("{id} [{leg}]: a case makes the process die");
            println!("VIOLATION property={id} replay={}", path.display());
            return 1;
        }
        first.get_or_insert((leg, path));
    }
    match first {
        // No single case does it again.  SIGKILL comes from outside, the other
        // signals from what the process did.
        Some((leg, path)) if signal != 9 => {
            println!("{id} [{leg}]: the process died while this case, or one beside it, was running");
            println!("VIOLATION property={id} replay={}", path.display());
            1
        }
        _ => {
            eprintln!("ERROR: the check was killed");
            3
        }
    }
}

/// The command line of the checks.
pub fn drive(args: &[String], find: fn(&str) -> Option<(&'static str, Check)>, clean: fn()) -> ! {
    let get = |k: &str| {
        args.iter()
            .position(|a| a == k)
            .and_then(|i| args.get(i + 1).cloned())
    };
    let mut seed: u64 = get("--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let tier = match get("--tier")
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .as_deref()
    {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let root = PathBuf::from(get("--root").unwrap_or_else(|| "/verif".into()));
    let (id, replay) = match args.first().map(String::as_str) {
        Some("check") => (args.get(1).cloned().unwrap_or_default(), None),
        Some("replay") => {
            let text = std::fs::read_to_string(&args[1]).expect("cannot read the replay");
            let v: serde_json::Value = serde_json::from_str(&text).expect("replay is no JSON");
            seed = v["seed"].as_u64().unwrap_or(seed);
            (
                v["property"].as_str().unwrap().to_string(),
                Some((v["leg"].as_str().unwrap().to_string(), v["case"].clone())),
            )
        }
        _ => {
            eprintln!("usage: check ID [--seed N] [--tier quick|thorough] [--leg NAME] [--scale F] | replay FILE");
            std::process::exit(2);
        }
    };
    let Some((sid, f)) = find(&id) else {
        eprintln!("no check for {id}");
        std::process::exit(2);
    };
    if std::env::var_os(INNER).is_none() {
        let code = supervise(args, sid, seed, &root);
        let _ = std::fs::remove_dir_all(scratch_root());
        std::process::exit(code);
    }
    install_panic_hook();
    // A run that takes far too long proves nothing: that is an error of the
    // check, not a violation.
    let limit = if tier == Tier::Quick { 780 } else { 6 * 3600 };
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(limit));
        eprintln!("ERROR: the check ran out of time");
        std::process::exit(3);
    });
    let t0 = Instant::now();
    let is_replay = replay.is_some();
    let mut ctx = Ctx {
        id: sid,
        tier,
        seed,
        scale: get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
        replay,
        replay_file: is_replay.then(|| PathBuf::from(&args[1])),
        only_leg: get("--leg"),
        replay_dir: root.join("replays"),
        legs: vec![],
        evaluations: 0,
        distinct: 0,
        samples: vec![],
        rules: vec![],
        violations: vec![],
        known: vec![],
        known_file: root.join("known-findings.txt"),
        assumptions: vec![],
        shards: get("--shards").and_then(|s| s.parse().ok()).unwrap_or(8),
    };
    f(&mut ctx);
    clean();
    if let Some(e) = HARNESS_ERROR.lock().unwrap().clone() {
        eprintln!("ERROR: the harness itself failed: {e}");
        std::process::exit(3);
    }
    if !is_replay {
        let ev = ctx.evidence(t0.elapsed().as_secs_f64());
        let dir = root.join("evidence");
        std::fs::create_dir_all(&dir).expect("evidence directory");
        std::fs::write(
            dir.join(format!("{sid}.json")),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .expect("cannot write the evidence");
    }
    for k in &ctx.known {
        println!("KNOWN-FINDING: property={sid} {k}");
    }
    for v in &ctx.violations {
        println!("{v}");
    }
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(if ctx.violations.is_empty() { 0 } else { 1 });
}
