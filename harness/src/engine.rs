//! Facets, sharded deterministic proptest runs, shrinking, replay files, evidence.
use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// What a passing case was: non-trivial by the property's rule, and its class.
pub struct Cls(pub bool, pub &'static str);
pub enum Bad {
    Fail(String),
    Reject,
}
pub type R = Result<Cls, Bad>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err($crate::engine::Bad::Fail(format!($($t)*))); } };
}
#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::engine::Bad::Fail(format!($($t)*))) };
}

static OUT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(1);

/// Keeps our own standard output and sends what the code under test prints to /dev/null.
pub fn take_stdout() {
    unsafe {
        let fd = libc::dup(1);
        let nul = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        if fd >= 0 && nul >= 0 {
            libc::dup2(nul, 1);
            libc::close(nul);
            OUT.store(fd, Ordering::SeqCst);
        }
    }
}
fn stdout_file() -> std::process::Stdio {
    use std::os::fd::FromRawFd;
    unsafe { std::process::Stdio::from(std::fs::File::from_raw_fd(libc::dup(OUT.load(Ordering::SeqCst)))) }
}
pub fn say_str(s: &str) {
    let line = format!("{s}\n");
    let b = line.as_bytes();
    let mut off = 0;
    while off < b.len() {
        let n = unsafe { libc::write(OUT.load(Ordering::SeqCst), b[off..].as_ptr() as *const _, b.len() - off) };
        if n <= 0 {
            break;
        }
        off += n as usize;
    }
}
#[macro_export]
macro_rules! say {
    ($($t:tt)*) => { $crate::engine::say_str(&format!($($t)*)) };
}

pub fn nt(class: &'static str) -> R {
    Ok(Cls(true, class))
}
pub fn triv(class: &'static str) -> R {
    Ok(Cls(false, class))
}
pub fn reject() -> R {
    Err(Bad::Reject)
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{msg}{loc}"));
    }));
}

/// Runs `f`, returning whether it panicked (used where a refusal is required or allowed).
pub fn panics<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

fn guarded<T>(check: fn(&T) -> R, v: &T) -> R {
    match catch_unwind(AssertUnwindSafe(|| check(v))) {
        Ok(r) => r,
        Err(_) => Err(Bad::Fail(format!(
            "panicked: {}",
            LAST_PANIC.with(|p| p.borrow().clone())
        ))),
    }
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub rejected: u64,
    pub distinct: HashSet<u64>,
    pub classes: BTreeMap<&'static str, u64>,
    pub samples: Vec<Value>,
}

pub struct Failure {
    pub case: Value,
    pub msg: String,
}

pub struct ShardOut {
    pub stats: Stats,
    pub failure: Option<Failure>,
    pub error: Option<String>,
}

type RunFn = dyn Fn(u32, &[u8; 32], &Slot) -> ShardOut + Send + Sync;
type ReplayFn = dyn Fn(&Value) -> Result<R, String> + Send + Sync;

pub struct Facet {
    pub name: &'static str,
    /// cases in the quick tier / multiplier in the thorough one
    pub quick: u32,
    run: Box<RunFn>,
    pub replay: Box<ReplayFn>,
}

fn fnv(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^= h >> 29;
    h.wrapping_mul(0x9E3779B97F4A7C15)
}

/// What a worker is executing, for the CPU-time watchdog.
#[derive(Default)]
pub struct Slot {
    pub seq: AtomicUsize,
    pub case: Mutex<Option<(String, &'static str)>>,
}

pub fn facet<T>(
    name: &'static str,
    quick: u32,
    strat: impl Fn() -> BoxedStrategy<T> + Send + Sync + 'static,
    check: fn(&T) -> R,
) -> Facet
where
    T: Serialize + DeserializeOwned + Debug + Clone + 'static,
{
    let run = move |cases: u32, seed: &[u8; 32], slot: &Slot| -> ShardOut {
        let cfg = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: 20_000,
            max_global_rejects: cases.saturating_mul(20).max(10_000),
            ..Config::default()
        };
        let mut runner =
            TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, seed));
        let st = RefCell::new(Stats::default());
        let failing = std::cell::Cell::new(false);
        let first: RefCell<Option<(Value, String)>> = RefCell::new(None);
        let strategy = strat();
        let res = runner.run(&strategy, |case| {
            let js = serde_json::to_string(&case).unwrap();
            slot.seq.fetch_add(1, Ordering::Relaxed);
            *slot.case.lock().unwrap() = Some((js.clone(), name));
            let r = guarded(check, &case);
            let mut st = st.borrow_mut();
            if !failing.get() {
                st.evals += 1;
            }
            match r {
                Ok(Cls(nontriv, class)) => {
                    if !failing.get() {
                        *st.classes.entry(class).or_insert(0) += 1;
                        if nontriv {
                            let h = fnv(js.as_bytes());
                            if st.distinct.insert(h) && st.samples.len() < 3 {
                                let v = serde_json::from_str(&js).unwrap();
                                st.samples.push(v);
                            }
                        }
                    }
                    Ok(())
                }
                Err(Bad::Reject) => {
                    st.rejected += 1;
                    Err(TestCaseError::reject("out of domain"))
                }
                Err(Bad::Fail(m)) => {
                    if !failing.replace(true) {
                        *first.borrow_mut() = Some((serde_json::from_str(&js).unwrap(), m.clone()));
                    }
                    Err(TestCaseError::fail(m))
                }
            }
        });
        *slot.case.lock().unwrap() = None;
        slot.seq.fetch_add(1, Ordering::Relaxed);
        let (failure, error) = match res {
            Ok(()) => (None, None),
            Err(TestError::Fail(reason, v)) => {
                // confirm from the plain JSON form
                let js = serde_json::to_value(&v).unwrap();
                let v2: T = serde_json::from_value(js.clone()).expect("case round trip");
                match guarded(check, &v2) {
                    Err(Bad::Fail(m)) => (Some(Failure { case: js, msg: m }), None),
                    // what an operation gives depends on more than its inputs: the first sighting counts
                    _ => {
                        let (case, m) = first.take().unwrap_or((js, reason.to_string()));
                        (Some(Failure { case, msg: format!("{m} (seen once; the same case passes when run again)") }), None)
                    }
                }
            }
            Err(TestError::Abort(r)) => (None, Some(format!("generator aborted: {r}"))),
        };
        ShardOut {
            stats: st.into_inner(),
            failure,
            error,
        }
    };
    let replay = move |v: &Value| -> Result<R, String> {
        let c: T = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
        Ok(guarded(check, &c))
    };
    Facet {
        name,
        quick,
        run: Box::new(run),
        replay: Box::new(replay),
    }
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub facets: Vec<Facet>,
}

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

fn seed_for(seed: u64, id: &str, facet: &str, shard: u32) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4u8 {
        let s = format!("{seed}/{id}/{facet}/{shard}/{i}");
        out[i as usize * 8..][..8].copy_from_slice(&fnv(s.as_bytes()).to_le_bytes());
    }
    out
}

fn thread_cpu(clock: libc::clockid_t) -> f64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clock, &mut ts) != 0 {
            return 0.0;
        }
        ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
    }
}

fn write_replay(id: &str, facet: &str, case: &Value, msg: &str) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let body = json!({"property": id, "facet": facet, "case": case, "message": msg, "build": build_kind()});
    let h = fnv(format!("{facet}{case}").as_bytes());
    let p = dir.join(format!("{id}-{facet}-{h:016x}.json"));
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&body).unwrap());
    p
}

/// Known findings: exact (property, facet, case) signatures that are reported but not violations.
fn known(id: &str, facet: &str, case: &Value) -> Option<String> {
    let txt = std::fs::read_to_string(verif_dir().join("known_findings.json")).ok()?;
    let v: Value = serde_json::from_str(&txt).ok()?;
    for e in v.get("findings")?.as_array()? {
        if e["property"] == id && e["facet"] == facet && &e["case"] == case {
            return Some(e["what"].as_str().unwrap_or("").to_string());
        }
    }
    None
}

pub fn build_kind() -> &'static str {
    if cfg!(debug_assertions) {
        "debug"
    } else {
        "release"
    }
}

/// Repeats a share of the exploration in the build without debug assertions and overflow checks
/// (VERIF_REL_BIN), which is what users ship; adds what it covered to the evidence.
pub fn run_release(id: &str, tier: &str, seed: u64) -> i32 {
    let Some(bin) = std::env::var_os("VERIF_REL_BIN") else { return 0 };
    let sub = verif_dir().join("evidence").join(format!(".release-{}-{id}.json", std::process::id()));
    let code = std::process::Command::new(bin)
        .args(["run", id, "--tier", tier, "--seed", &(seed.wrapping_add(1_000_003)).to_string()])
        .env_remove("VERIF_REL_BIN")
        .env("VERIF_EVIDENCE", &sub)
        .env("VERIF_SHARE", "0.2")
        .stdout(stdout_file())
        .status()
        .map(|s| s.code().unwrap_or(2))
        .unwrap_or(2);
    let main = verif_dir().join("evidence").join(format!("{id}.json"));
    let rd = |p: &PathBuf| -> Option<Value> { serde_json::from_str(&std::fs::read_to_string(p).ok()?).ok() };
    if let (Some(mut m), Some(s)) = (rd(&main), rd(&sub)) {
        let n = |v: &Value, k: &str| v["coverage"][k].as_u64().unwrap_or(0);
        m["coverage"]["release_build"] = json!({"evaluations": n(&s, "evaluations"), "distinct_nontrivial": n(&s, "distinct_nontrivial"), "seed": s["seed"], "facets": s["coverage"]["facets"]});
        m["coverage"]["evaluations"] = json!(n(&m, "evaluations") + n(&s, "evaluations"));
        m["wall_s"] = json!(m["wall_s"].as_f64().unwrap_or(0.0) + s["wall_s"].as_f64().unwrap_or(0.0));
        m["violations"] = json!(m["violations"].as_u64().unwrap_or(0) + s["violations"].as_u64().unwrap_or(0));
        if let (Some(a), Some(b)) = (m["violation_messages"].clone().as_array(), s["violation_messages"].as_array()) {
            m["violation_messages"] = json!(a.iter().chain(b).collect::<Vec<_>>());
        }
        let _ = std::fs::write(&main, serde_json::to_string_pretty(&m).unwrap());
    }
    let _ = std::fs::remove_file(&sub);
    code
}

const HANG_CPU_S: f64 = 20.0;

pub fn run_property(p: Property, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let id = p.id;
    let mult: f64 = std::env::var("VERIF_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| {
            let quick = match id {
                "C07" => 2.0,
                "C28" => 4.0,
                "C23" | "C27" => 8.0,
                "C16" => 10.0,
                _ => 20.0,
            };
            if tier == "thorough" {
                25.0 * quick
            } else {
                quick
            }
        });
    let mult = mult * std::env::var("VERIF_SHARE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = std::env::var("VERIF_FACET").ok();
    let shard_size = 4000u32;
    struct Task {
        facet: usize,
        shard: u32,
        cases: u32,
    }
    let mut tasks = vec![];
    for (fi, f) in p.facets.iter().enumerate() {
        if only.as_deref().is_some_and(|o| o != f.name) {
            continue;
        }
        let total = ((f.quick as f64) * mult).ceil() as u32;
        // at least 8 shards so that a slow facet is spread over the cores
        let n = (total / shard_size).max(8).min(total.max(1));
        for s in 0..n {
            let cases = total / n + u32::from(s < total % n);
            if cases > 0 {
                tasks.push(Task { facet: fi, shard: s, cases });
            }
        }
    }
    let facets = Arc::new(p.facets);
    let tasks = Arc::new(tasks);
    let next = Arc::new(AtomicUsize::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let results: Arc<Mutex<Vec<(usize, ShardOut)>>> = Arc::new(Mutex::new(vec![]));
    // distinct non-trivial cases are counted up to this many per facet
    const DISTINCT_CAP: usize = 5_000_000;
    let sets: Arc<Mutex<BTreeMap<&'static str, HashSet<u64>>>> = Default::default();
    let nthreads = 8usize;
    let slots: Vec<Arc<Slot>> = (0..nthreads).map(|_| Arc::new(Slot::default())).collect();
    let mut handles = vec![];
    for slot in &slots {
        let (sets, facets, tasks, next, stop, results, slot) = (
            sets.clone(),
            facets.clone(),
            tasks.clone(),
            next.clone(),
            stop.clone(),
            results.clone(),
            slot.clone(),
        );
        handles.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= tasks.len() || stop.load(Ordering::SeqCst) {
                        break;
                    }
                    let t = &tasks[i];
                    let f = &facets[t.facet];
                    let sd = seed_for(seed, id, f.name, t.shard);
                    let mut out = (f.run)(t.cases, &sd, &slot);
                    let mine = std::mem::take(&mut out.stats.distinct);
                    {
                        let mut g = sets.lock().unwrap();
                        let e = g.entry(f.name).or_default();
                        if e.len() < DISTINCT_CAP {
                            e.extend(mine);
                        }
                    }
                    if out.failure.is_some() || out.error.is_some() {
                        stop.store(true, Ordering::SeqCst);
                    }
                    results.lock().unwrap().push((i, out));
                })
                .unwrap(),
        );
    }
    // CPU-time watchdog
    let clocks: Vec<libc::clockid_t> = handles
        .iter()
        .map(|h| unsafe {
            use std::os::unix::thread::JoinHandleExt;
            let mut c: libc::clockid_t = 0;
            libc::pthread_getcpuclockid(h.as_pthread_t() as libc::pthread_t, &mut c);
            c
        })
        .collect();
    let mut seen: Vec<(usize, f64)> = vec![(usize::MAX, 0.0); nthreads];
    loop {
        if handles.iter().all(|h| h.is_finished()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
        for (k, slot) in slots.iter().enumerate() {
            if handles[k].is_finished() {
                continue;
            }
            let s = slot.seq.load(Ordering::Relaxed);
            if seen[k].0 != s {
                seen[k] = (s, thread_cpu(clocks[k]));
                continue;
            }
            let used = thread_cpu(clocks[k]) - seen[k].1;
            if used > HANG_CPU_S {
                if let Some((js, fname)) = slot.case.lock().unwrap().clone() {
                    let case: Value = serde_json::from_str(&js).unwrap();
                    let msg = format!(
                        "operation did not return after {HANG_CPU_S} s of CPU time (normally microseconds)"
                    );
                    let path = write_replay(id, fname, &case, &msg);
                    say!("facet {fname}: {msg}\n  case {js}");
                    write_evidence(id, tier, seed, p.rule, p.assumptions, &Default::default(), &[], 1, t0, 1, 1);
                    say!("VIOLATION property={id} replay={}", path.display());
                    std::process::exit(1);
                }
            }
        }
    }
    for h in handles {
        let _ = h.join();
    }
    let mut results = std::mem::take(&mut *results.lock().unwrap());
    results.sort_by_key(|r| r.0);
    let mut per: BTreeMap<&'static str, Stats> = BTreeMap::new();
    let mut failures = vec![];
    let mut errors = vec![];
    for (i, out) in results {
        let f = &facets[tasks[i].facet];
        let e = per.entry(f.name).or_default();
        e.evals += out.stats.evals;
        e.rejected += out.stats.rejected;
        for (k, v) in out.stats.classes {
            *e.classes.entry(k).or_insert(0) += v;
        }
        for s in out.stats.samples {
            if e.samples.len() < 3 {
                e.samples.push(s);
            }
        }
        if let Some(fl) = out.failure {
            failures.push((f.name, fl));
        }
        if let Some(er) = out.error {
            errors.push((f.name, er));
        }
    }
    for (k, v) in std::mem::take(&mut *sets.lock().unwrap()) {
        if let Some(e) = per.get_mut(k) {
            e.distinct = v;
        }
    }
    let mut viol = vec![];
    for (fname, fl) in &failures {
        if let Some(what) = known(id, fname, &fl.case) {
            say!("KNOWN-FINDING: property={id} {what}");
        } else {
            viol.push((*fname, fl));
        }
    }
    let evals: u64 = per.values().map(|s| s.evals).sum();
    let distinct: u64 = per.values().map(|s| s.distinct.len() as u64).sum();
    let vs: Vec<String> = viol.iter().map(|(f, v)| format!("{f}: {}", v.msg)).collect();
    write_evidence(id, tier, seed, p.rule, p.assumptions, &per, &vs, vs.len() as u64, t0, evals, distinct);
    for (n, s) in &per {
        let cl: Vec<String> = s.classes.iter().map(|(k, v)| format!("{k}={v}")).collect();
        say!(
            "  {id} {n}: {} cases, {} distinct non-trivial, {} rejected [{}]",
            s.evals,
            s.distinct.len(),
            s.rejected,
            cl.join(" ")
        );
    }
    say_margins();
    say!("{id} {} build tier={tier} seed={seed}: {evals} cases, {distinct} non-trivial, {:.1} s", build_kind(), t0.elapsed().as_secs_f64());
    if let Some((fname, fl)) = viol.first() {
        let path = write_replay(id, fname, &fl.case, &fl.msg);
        say!("facet {fname}: {}\n  minimal case {}", fl.msg, fl.case);
        say!("VIOLATION property={id} replay={}", path.display());
        return 1;
    }
    if let Some((n, e)) = errors.first() {
        say!("ERROR in facet {n}: {e}");
        return 2;
    }
    0
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    id: &str,
    tier: &str,
    seed: u64,
    rule: &str,
    assumptions: &[&str],
    per: &BTreeMap<&'static str, Stats>,
    vs: &[String],
    nviol: u64,
    t0: Instant,
    evals: u64,
    distinct: u64,
) {
    let mut samples = vec![];
    for (n, s) in per {
        for v in s.samples.iter().take(2) {
            samples.push(json!({"facet": n, "case": v}));
        }
    }
    if samples.is_empty() {
        samples.push(json!("run ended in a non-returning case"));
    }
    let facets: Value = per
        .iter()
        .map(|(n, s)| {
            (
                n.to_string(),
                json!({"cases": s.evals, "distinct_nontrivial": s.distinct.len(), "rejected": s.rejected, "classes": s.classes}),
            )
        })
        .collect::<serde_json::Map<_, _>>()
        .into();
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": evals, "distinct_nontrivial": distinct, "rule": rule, "samples": samples, "facets": facets},
        "assumptions": assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": nviol,
        "violation_messages": vs,
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let file = std::env::var_os("VERIF_EVIDENCE").map(PathBuf::from).unwrap_or_else(|| dir.join(format!("{id}.json")));
    let _ = std::fs::write(file, serde_json::to_string_pretty(&ev).unwrap());
}

pub fn replay(props: Vec<Property>, file: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let (id, fname) = (v["property"].as_str().unwrap(), v["facet"].as_str().unwrap());
    for p in props {
        if p.id == id {
            for f in &p.facets {
                if f.name == fname {
                    match (f.replay)(&v["case"]) {
                        Ok(Ok(_)) => {
                            say!("replay passes");
                            return 0;
                        }
                        Ok(Err(Bad::Reject)) => {
                            say!("replay: case outside the domain");
                            return 0;
                        }
                        Ok(Err(Bad::Fail(m))) => {
                            say!("{m}\nVIOLATION property={id} replay={file}");
                            return 1;
                        }
                        Err(e) => {
                            say!("bad replay file: {e}");
                            return 2;
                        }
                    }
                }
            }
        }
    }
    2
}

pub fn boxed<S: Strategy + 'static>(s: S) -> BoxedStrategy<S::Value> {
    s.boxed()
}

static MARGINS: Mutex<BTreeMap<&'static str, (f64, String)>> = Mutex::new(BTreeMap::new());
/// With VERIF_MARGIN set, records how close a quantity came to its tolerance (calibration aid).
pub fn margin(name: &'static str, ratio: f64, what: impl Fn() -> String) {
    use std::sync::OnceLock;
    static ON: OnceLock<bool> = OnceLock::new();
    if *ON.get_or_init(|| std::env::var("VERIF_MARGIN").is_ok()) {
        let mut m = MARGINS.lock().unwrap();
        let e = m.entry(name).or_insert((0.0, String::new()));
        if ratio > e.0 || ratio.is_nan() {
            *e = (ratio, what());
        }
    }
}
pub fn say_margins() {
    for (k, v) in MARGINS.lock().unwrap().iter() {
        say!("  margin {k}: {:e} {}", v.0, v.1);
    }
}
