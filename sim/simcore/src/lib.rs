//! Deterministic-simulation core shared by all checks.
//!
//! A *property* turns one integer seed into an explicit, serialisable *plan* (workload, schedule
//! and faults), and executes plans. Execution is a pure function of the plan, so a plan is a
//! replay file; minimisation edits plans.
pub mod refmpt;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

// ------------------------------------------------------------------ PRNG
#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}
fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng { s: std::array::from_fn(|_| splitmix(&mut x)) }
    }
    /// A stream for (seed, label, n), independent of how many draws other streams made.
    pub fn derive(seed: u64, label: &str, n: u64) -> Self {
        let mut h = fnv(label.as_bytes());
        h ^= seed.rotate_left(17).wrapping_mul(0x9E3779B97F4A7C15);
        h = h.wrapping_add(n.wrapping_mul(0xD1342543DE82EF95));
        Rng::new(h)
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.idx(xs.len())]
    }
    /// Index chosen with the given weights.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let mut x = self.below(w.iter().sum());
        for (i, &v) in w.iter().enumerate() {
            if x < v {
                return i;
            }
            x -= v;
        }
        unreachable!()
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    pub fn b32(&mut self) -> [u8; 32] {
        self.bytes(32).try_into().unwrap()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.idx(i + 1);
            v.swap(i, j);
        }
    }
}
pub fn fnv(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325u64, |h, &x| (h ^ x as u64).wrapping_mul(0x100000001b3))
}

// ------------------------------------------------------------------ one run
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct Violation {
    /// Stable class of the failure; minimisation keeps it. Known findings are matched on it.
    pub class: String,
    pub detail: String,
}

/// What one simulated run records. Recording never influences the run.
#[derive(Default)]
pub struct Ctx {
    pub log: Vec<String>,
    pub keep_log: bool,
    hash: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub states: BTreeSet<u64>,
    pub steps: u64,
    pub sim_ms: u64,
    pub violation: Option<Violation>,
    pub nontrivial: bool,
}
impl Ctx {
    pub fn new(keep_log: bool) -> Self {
        Ctx { keep_log, hash: 0xcbf29ce484222325, ..Default::default() }
    }
    /// One event of the execution history (hashed; kept as text only for replay files).
    pub fn ev(&mut self, s: impl AsRef<str>) {
        let s = s.as_ref();
        self.steps += 1;
        self.hash = (self.hash ^ fnv(s.as_bytes())).wrapping_mul(0x100000001b3).rotate_left(5);
        if self.keep_log && self.log.len() < 5000 {
            self.log.push(s.to_string());
        }
    }
    pub fn fault(&mut self, kind: &str) {
        self.fault_n(kind, 1)
    }
    pub fn fault_n(&mut self, kind: &str, n: u64) {
        *self.faults.entry(kind.to_string()).or_default() += n;
        self.nontrivial = true;
    }
    pub fn probe(&mut self, what: &str) {
        self.probe_n(what, 1)
    }
    pub fn probe_n(&mut self, what: &str, n: u64) {
        *self.probes.entry(what.to_string()).or_default() += n;
    }
    pub fn state(&mut self, b: impl AsRef<[u8]>) {
        self.states.insert(fnv(b.as_ref()));
    }
    pub fn fail(&mut self, class: impl Into<String>, detail: impl Into<String>) {
        let (class, detail) = (class.into(), detail.into());
        self.ev(format!("VIOLATION {class}: {detail}"));
        if self.violation.is_none() {
            self.violation = Some(Violation { class, detail });
        }
    }
    pub fn failed(&self) -> bool {
        self.violation.is_some()
    }
    pub fn hash(&self) -> u64 {
        self.hash
    }
}

thread_local! { static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) }; }
/// Panics are recorded (message and place), not printed.
pub fn install_quiet_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let at = info.location().map(|l| l.file().to_string()).unwrap_or_default();
        if std::env::var("SIM_SHOW_PANICS").is_ok() {
            eprintln!("panic at {:?}: {msg}", info.location());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} [{at}]")));
    }));
}
/// Runs code under test; a panic becomes `Err(message [file])`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| {
            e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or("panic".into())
        })
    })
}
/// First line, without addresses and digits that vary: used in violation classes.
pub fn short(s: &str) -> String {
    let mut o: String = s.lines().next().unwrap_or("").chars().take(160).collect();
    o = o.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
    while o.contains("##") {
        o = o.replace("##", "#");
    }
    o
}

// ------------------------------------------------------------------ properties
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}
pub struct Info {
    pub id: &'static str,
    pub level: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub states_measure: &'static str,
    pub real: &'static [&'static str],
    pub stubs: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    pub quick_runs: usize,
    pub thorough_runs: usize,
    /// No new run is started after this many seconds.
    pub quick_cap_s: u64,
    pub thorough_cap_s: u64,
    pub threads: usize,
}
pub trait Property: Sync {
    type Plan: Serialize + DeserializeOwned + Clone + Send;
    fn info(&self) -> Info;
    /// Pure function of (seed, run).
    fn plan(&self, seed: u64, run: u64, tier: Tier) -> Self::Plan;
    /// Pure function of the plan (and of the code under test).
    fn execute(&self, plan: &Self::Plan, ctx: &mut Ctx);
    /// Simpler plans to try, most aggressive first.
    fn shrink(&self, _plan: &Self::Plan) -> Vec<Self::Plan> {
        vec![]
    }
    /// Whole-batch check over all runs (e.g. "was this ever reached"); returns extra evidence.
    fn finish(&self, _ctx: &Ctx) -> serde_json::Value {
        serde_json::Value::Null
    }
}

fn exec<P: Property>(p: &P, plan: &P::Plan, keep_log: bool) -> Ctx {
    let mut ctx = Ctx::new(keep_log);
    let r = guarded(|| p.execute(plan, &mut ctx));
    if let Err(m) = r {
        ctx.fail(format!("panic: {}", short(&m)), m);
    }
    ctx
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    seed: u64,
    run: u64,
    violation: Violation,
    minimised: bool,
    shrink_steps: u64,
    event_hash: String,
    plan: serde_json::Value,
    trace: Vec<String>,
}

#[derive(Deserialize)]
struct Known {
    property: String,
    #[serde(default)]
    signature: String,
    #[serde(default)]
    status: String,
    #[serde(default)]
    what: String,
}
pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or("/verif".into())
}
fn known_findings() -> Vec<Known> {
    let p = format!("{}/known_findings.json", verif_dir());
    match std::fs::read_to_string(&p) {
        Ok(s) => serde_json::from_str(&s).unwrap_or_else(|e| harness_error(&format!("{p}: {e}"))),
        Err(_) => vec![],
    }
}
pub fn harness_error(m: &str) -> ! {
    eprintln!("HARNESS ERROR: {m}");
    std::process::exit(3)
}
pub fn seed_from_env() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

struct Agg {
    runs: u64,
    nontrivial: u64,
    fingerprints: BTreeSet<u64>,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    states: BTreeSet<u64>,
    steps: u64,
    sim_ms: u64,
    viol: BTreeMap<u64, Violation>,
    known: BTreeMap<String, (u64, String)>,
    samples: BTreeMap<u64, serde_json::Value>,
    redo_same: u64,
    redo_diff: u64,
    slowest: f64,
}

fn clip(v: serde_json::Value) -> serde_json::Value {
    let s = v.to_string();
    if s.len() > 1500 {
        serde_json::Value::String(format!("{} ...", s.chars().take(1500).collect::<String>()))
    } else {
        v
    }
}

/// Runs the batch in a child process, so that an abort, a stack overflow, memory exhaustion or an
/// endless loop of the code under test is reported as a violation and not lost with the process.
pub fn check<P: Property>(p: &P) -> i32 {
    if std::env::var("SIM_CHILD").is_ok() {
        return check_batch(p);
    }
    let info = p.info();
    let exe = std::env::current_exe().unwrap();
    let inflight = format!("{}/target/inflight-{}-{}", verif_dir(), info.id, std::process::id());
    std::fs::create_dir_all(&inflight).ok();
    let cap = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => info.thorough_cap_s + 1800,
        _ => info.quick_cap_s + 240,
    };
    let mut child = std::process::Command::new(&exe)
        .args(["check", info.id])
        .env("SIM_CHILD", "1")
        .env("SIM_INFLIGHT", &inflight)
        .spawn()
        .unwrap_or_else(|e| harness_error(&e.to_string()));
    let status = wait_for(&mut child, cap);
    let code = status.and_then(|s| s.code());
    if let Some(c @ (0 | 1 | 3)) = code {
        std::fs::remove_dir_all(&inflight).ok();
        return c;
    }
    // The process died: find the run that kills it again, on its own.
    let mut runs: Vec<u64> = std::fs::read_dir(&inflight)
        .map(|d| d.filter_map(|e| e.ok()?.file_name().to_str()?.parse().ok()).collect())
        .unwrap_or_default();
    runs.sort();
    std::fs::remove_dir_all(&inflight).ok();
    eprintln!("the batch process ended with {status:?}; runs in flight: {runs:?}");
    let seed = seed_from_env();
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick };
    let t_redo = Instant::now();
    for run in runs {
        let left = 280u64.saturating_sub(t_redo.elapsed().as_secs());
        if left == 0 {
            break;
        }
        let plan = p.plan(seed, run, tier);
        let dir = format!("{}/replays", verif_dir());
        std::fs::create_dir_all(&dir).ok();
        let path = format!("{dir}/{}-{seed}-{run}.json", info.id);
        let r = Replay {
            property: info.id.into(), seed, run,
            violation: Violation { class: "process death or endless loop".into(), detail: format!("{status:?}") },
            minimised: false, shrink_steps: 0, event_hash: String::new(),
            plan: serde_json::to_value(&plan).unwrap(), trace: vec![],
        };
        std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).ok();
        let mut c = std::process::Command::new(&exe)
            .args(["replay", &path])
            .stdout(std::process::Stdio::null())
            .spawn()
            .unwrap_or_else(|e| harness_error(&e.to_string()));
        let st = wait_for(&mut c, left.min(100));
        if !matches!(st.and_then(|s| s.code()), Some(0 | 3)) {
            println!("violation class: process death or endless loop ({st:?})");
            println!("VIOLATION property={} replay={}", info.id, path);
            return 1;
        }
        std::fs::remove_file(&path).ok();
    }
    harness_error("the batch process died and no run in flight reproduces it")
}
fn wait_for(c: &mut std::process::Child, secs: u64) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s);
        }
        if t.elapsed().as_secs() > secs {
            c.kill().ok();
            c.wait().ok();
            return None;
        }
        std::thread::sleep(std::time::Duration::from_millis(50));
    }
}

fn check_batch<P: Property>(p: &P) -> i32 {
    install_quiet_panic_hook();
    let inflight = std::env::var("SIM_INFLIGHT").ok();
    let info = p.info();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = seed_from_env();
    let known = known_findings();
    let (mut runs, cap) = match tier {
        Tier::Quick => (info.quick_runs, info.quick_cap_s),
        Tier::Thorough => (info.thorough_runs, info.thorough_cap_s),
    };
    if let Some(n) = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()) {
        runs = n;
    }
    let threads = std::env::var("SIM_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(info.threads);
    println!("check {} seed={seed} tier={tier:?} runs<={runs} threads={threads}", info.id);
    let t0 = Instant::now();
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let agg = Mutex::new(Agg {
        runs: 0, nontrivial: 0, fingerprints: Default::default(), faults: Default::default(), probes: Default::default(),
        states: Default::default(), steps: 0, sim_ms: 0, viol: Default::default(), known: Default::default(),
        samples: Default::default(), redo_same: 0, redo_diff: 0, slowest: 0.0,
    });
    let redo_every = (runs / 16).max(1);
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || loop {
                    if stop.load(Ordering::Relaxed) || t0.elapsed().as_secs() >= cap {
                        break;
                    }
                    let run = next.fetch_add(1, Ordering::Relaxed);
                    if run >= runs {
                        break;
                    }
                    let t = Instant::now();
                    let mark = inflight.as_ref().map(|d| format!("{d}/{run}"));
                    if let Some(m) = &mark {
                        std::fs::write(m, "").ok();
                    }
                    let plan = p.plan(seed, run as u64, tier);
                    let ctx = exec(p, &plan, false);
                    let el = t.elapsed().as_secs_f64();
                    let redo = (run % redo_every == 0 && el < 10.0).then(|| exec(p, &plan, false).hash() == ctx.hash());
                    if let Some(m) = &mark {
                        std::fs::remove_file(m).ok();
                    }
                    let mut a = agg.lock().unwrap();
                    a.runs += 1;
                    a.slowest = a.slowest.max(el);
                    match redo {
                        Some(true) => a.redo_same += 1,
                        Some(false) => a.redo_diff += 1,
                        None => {}
                    }
                    if ctx.nontrivial {
                        a.nontrivial += 1;
                        a.fingerprints.insert(ctx.hash());
                    }
                    for (k, v) in &ctx.faults {
                        *a.faults.entry(k.clone()).or_default() += v;
                    }
                    for (k, v) in &ctx.probes {
                        *a.probes.entry(k.clone()).or_default() += v;
                    }
                    if a.states.len() < 4_000_000 {
                        a.states.extend(&ctx.states);
                    }
                    a.steps += ctx.steps;
                    a.sim_ms += ctx.sim_ms;
                    if a.samples.len() < 3 && ctx.nontrivial {
                        let v = serde_json::json!({"run": run, "event_hash": format!("{:016x}", ctx.hash()), "events": ctx.steps,
                            "plan": clip(serde_json::to_value(&plan).unwrap())});
                        a.samples.insert(run as u64, v);
                    }
                    if let Some(v) = ctx.violation {
                        if let Some(k) = known.iter().find(|k| k.property == info.id && k.status == "open" && !k.signature.is_empty() && v.class.contains(&k.signature)) {
                            let e = a.known.entry(k.signature.clone()).or_insert((0, k.what.clone()));
                            e.0 += 1;
                        } else {
                            a.viol.insert(run as u64, v);
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                })
                .unwrap();
        }
    });
    let a = agg.into_inner().unwrap();
    let batch_s = t0.elapsed().as_secs_f64();
    for k in known.iter().filter(|k| k.property == info.id && k.status == "open") {
        let hits = a.known.get(&k.signature).map_or(0, |x| x.0);
        println!("KNOWN-FINDING: property={} {} (signature {:?}, hit {} times in this run)", info.id, k.what, k.signature, hits);
    }
    if a.redo_diff > 0 {
        eprintln!("note: {} of {} re-executed runs gave a different event log", a.redo_diff, a.redo_diff + a.redo_same);
    }
    let mut code = 0;
    let mut viol_json = serde_json::Value::Null;
    if let Some((&run, v)) = a.viol.iter().next() {
        code = 1;
        let plan = p.plan(seed, run, tier);
        let (min, steps, v2) = minimise(p, plan, v.clone());
        let path = write_replay(p, &info, seed, run, &min, steps, &v2);
        println!("violation class: {}", v2.class);
        println!("violation detail: {}", v2.detail.chars().take(2000).collect::<String>());
        println!("VIOLATION property={} replay={}", info.id, path);
        viol_json = serde_json::json!({"class": v2.class, "detail": v2.detail, "replay": path});
    }
    let mut fin = Ctx::new(false);
    fin.probes = a.probes.clone();
    fin.faults = a.faults.clone();
    let extra = p.finish(&fin);
    let wall = t0.elapsed().as_secs_f64();
    let ev = serde_json::json!({
        "property": info.id,
        "tier": if tier == Tier::Quick {"quick"} else {"thorough"},
        "seed": seed,
        "level": info.level,
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": a.fingerprints.len(),
            "rule": info.rule,
            "samples": a.samples.values().collect::<Vec<_>>(),
            "simulated_runs": a.runs,
            "runs_per_hour": (a.runs as f64 / batch_s * 3600.0) as u64,
            "events": a.steps,
            "simulated_time_ms": a.sim_ms,
            "faults_injected": a.faults,
            "reach_probes": a.probes,
            "distinct_states": a.states.len(),
            "states_measure": info.states_measure,
            "determinism_reexecutions": {"same_event_log": a.redo_same, "different_event_log": a.redo_diff},
            "slowest_run_s": a.slowest,
            "components_real": info.real,
            "components_stubbed": info.stubs,
            "known_findings_hit": a.known.iter().map(|(k, v)| (k.clone(), v.0)).collect::<BTreeMap<_, _>>(),
            "violation": viol_json,
            "extra": extra,
        },
        "assumptions": info.assumptions,
        "wall_s": wall,
        "violations": a.viol.len(),
    });
    let dir = format!("{}/evidence", verif_dir());
    std::fs::create_dir_all(&dir).ok();
    let f = format!("{dir}/{}.json", info.id);
    std::fs::write(&f, serde_json::to_string_pretty(&ev).unwrap()).unwrap_or_else(|e| harness_error(&format!("{f}: {e}")));
    println!(
        "{}: runs {} ({} distinct non-trivial), events {}, states {}, faults {:?}, probes {:?}, wall {wall:.1}s",
        info.id, a.runs, a.fingerprints.len(), a.steps, a.states.len(), a.faults, a.probes
    );
    std::io::stdout().flush().ok();
    code
}

fn minimise<P: Property>(p: &P, mut plan: P::Plan, mut v: Violation) -> (P::Plan, u64, Violation) {
    let t = Instant::now();
    let cap = std::env::var("SIM_SHRINK_S").ok().and_then(|s| s.parse().ok()).unwrap_or(60);
    let mut steps = 0;
    'outer: loop {
        for cand in p.shrink(&plan) {
            if t.elapsed().as_secs() > cap {
                break 'outer;
            }
            let c = exec(p, &cand, false);
            if let Some(cv) = c.violation {
                if cv.class == v.class {
                    plan = cand;
                    v = cv;
                    steps += 1;
                    continue 'outer;
                }
            }
        }
        break;
    }
    (plan, steps, v)
}

fn write_replay<P: Property>(p: &P, info: &Info, seed: u64, run: u64, plan: &P::Plan, steps: u64, v: &Violation) -> String {
    let ctx = exec(p, plan, true);
    let dir = format!("{}/replays", verif_dir());
    std::fs::create_dir_all(&dir).ok();
    let path = format!("{dir}/{}-{seed}-{run}.json", info.id);
    let r = Replay {
        property: info.id.into(),
        seed,
        run,
        violation: ctx.violation.clone().unwrap_or_else(|| v.clone()),
        minimised: steps > 0,
        shrink_steps: steps,
        event_hash: format!("{:016x}", ctx.hash()),
        plan: serde_json::to_value(plan).unwrap(),
        trace: ctx.log,
    };
    std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).unwrap_or_else(|e| harness_error(&format!("{path}: {e}")));
    path
}

/// Replays a file in this process: 1 with the VIOLATION line if it fails again, 0 if not.
pub fn replay<P: Property>(p: &P, path: &str) -> i32 {
    install_quiet_panic_hook();
    let r: Replay = serde_json::from_str(&std::fs::read_to_string(path).unwrap_or_else(|e| harness_error(&e.to_string())))
        .unwrap_or_else(|e| harness_error(&e.to_string()));
    let plan: P::Plan = serde_json::from_value(r.plan).unwrap_or_else(|e| harness_error(&e.to_string()));
    let ctx = exec(p, &plan, true);
    for l in &ctx.log {
        println!("{l}");
    }
    match ctx.violation.clone() {
        Some(v) => {
            println!("event hash {:016x} (recorded {}), class {}", ctx.hash(), r.event_hash, v.class);
            println!("VIOLATION property={} replay={}", r.property, path);
            1
        }
        None => {
            println!("no violation on replay");
            0
        }
    }
}
/// Property named by a replay file.
pub fn replay_property(path: &str) -> String {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap_or_else(|e| harness_error(&e.to_string())))
        .unwrap_or_else(|e| harness_error(&e.to_string()));
    v["property"].as_str().unwrap_or_default().to_string()
}

/// Determinism self-check: event hashes of the first `n` runs, one per line (to be diffed across processes).
pub fn hashes<P: Property>(p: &P, n: u64) -> i32 {
    install_quiet_panic_hook();
    let seed = seed_from_env();
    for run in 0..n {
        let plan = p.plan(seed, run, Tier::Quick);
        println!("{run} {:016x}", exec(p, &plan, false).hash());
    }
    0
}

/// `check ID | replay FILE | hashes ID N` for a list of properties.
#[macro_export]
macro_rules! cli {
    ($($id:literal => $p:expr),* $(,)?) => {{
        let args: Vec<String> = std::env::args().collect();
        let (cmd, arg) = (args.get(1).cloned().unwrap_or_default(), args.get(2).cloned().unwrap_or_default());
        let id = if cmd == "replay" { $crate::replay_property(&arg) } else { arg.clone() };
        let code = match id.as_str() {
            $($id => { let p = $p; match cmd.as_str() {
                "check" => $crate::check(&p),
                "replay" => $crate::replay(&p, &arg),
                "hashes" => $crate::hashes(&p, args.get(3).and_then(|s| s.parse().ok()).unwrap_or(50)),
                _ => $crate::harness_error("unknown command"),
            }})*
            other => $crate::harness_error(&format!("unknown property {other}")),
        };
        std::process::exit(code)
    }};
}

/// Shrinking helper: lists with chunks removed, then single elements.
pub fn drop_chunks<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    let mut out = vec![];
    if !v.is_empty() {
        out.push(vec![]);
    }
    let mut size = v.len() / 2;
    while size >= 1 {
        let mut i = 0;
        while i < v.len() {
            let mut w = v[..i].to_vec();
            w.extend_from_slice(&v[(i + size).min(v.len())..]);
            if w.len() < v.len() {
                out.push(w);
            }
            i += size;
        }
        if size == 1 {
            break;
        }
        size /= 2;
    }
    out
}
