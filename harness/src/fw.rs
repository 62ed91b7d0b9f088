//! Process-sharded exhaustive exploration framework.
//!
//! A check enumerates a finite list of items (each item is one history / one sub-tree of the
//! bounded space). The parent hands items to worker processes; every worker executes the real
//! AxmosDB code. A worker that dies or stalls on an item is itself an observation (reported as
//! a violation on that item).

use serde_json::{Map, Value, json};
use std::{
    collections::{BTreeMap, HashSet},
    io::{BufRead, BufReader, Write},
    path::{Path, PathBuf},
    process::{Child, ChildStdin, Command, Stdio},
    sync::{
        Mutex,
        atomic::{AtomicBool, AtomicUsize, Ordering},
        mpsc,
    },
    time::{Duration, Instant},
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

/// What running one item produced.
#[derive(Default)]
pub struct Out {
    pub states: HashSet<u64>,
    pub transitions: u64,
    pub traces: u64,
    pub violations: Vec<Value>,
    pub known: BTreeMap<String, String>,
    pub samples: Vec<Value>,
    pub counters: BTreeMap<String, u64>,
}

static BEATS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Tells the parent that the item at hand makes progress: only a worker that shows none is stuck.
pub fn beat() {
    thread_local!(static LAST: std::cell::Cell<Option<Instant>> = const { std::cell::Cell::new(None) });
    if !BEATS.load(Ordering::Relaxed) {
        return;
    }
    let now = Instant::now();
    if LAST.get().is_none_or(|t| now - t > Duration::from_secs(3)) {
        LAST.set(Some(now));
        let mut so = std::io::stdout().lock();
        let _ = writeln!(so, "\n@@B");
        let _ = so.flush();
    }
}
impl Out {
    pub fn state(&mut self, h: u64) {
        beat();
        self.states.insert(h);
    }
    pub fn state_of<T: std::hash::Hash + ?Sized>(&mut self, t: &T) {
        beat();
        self.states.insert(hash_of(t));
    }
    pub fn step(&mut self) {
        beat();
        self.transitions += 1;
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn violation(&mut self, what: impl Into<String>, history: Value) {
        if self.violations.len() < 5 {
            self.violations
                .push(json!({"what": what.into(), "history": history}));
        } else {
            self.count("further_violations_in_item", 1);
        }
    }
    pub fn known(&mut self, id: &str, example: impl Into<String>) {
        self.known.entry(id.to_string()).or_insert_with(|| example.into());
        self.count(&format!("known:{id}"), 1);
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 1 {
            self.samples.push(v);
        }
    }
    fn to_json(&self) -> Value {
        json!({
            "s": self.states.iter().map(|h| Value::from(*h)).collect::<Vec<_>>(),
            "t": self.transitions, "x": self.traces, "v": self.violations,
            "k": self.known, "m": self.samples, "c": self.counters,
        })
    }
}

pub fn hash_of<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::{DefaultHasher, Hasher};
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub trait Check: Sync {
    fn id(&self) -> &'static str;
    /// The finite space, in order of increasing size.
    fn items(&self, tier: Tier) -> Vec<Value>;
    fn run(&self, tier: Tier, spec: &Value, out: &mut Out);
    fn bounds(&self, tier: Tier) -> String;
    fn assumptions(&self) -> Vec<String> {
        vec![]
    }
    /// How long an item may show no progress at all (see beat) before it counts as stuck.
    fn item_timeout(&self, _tier: Tier) -> Duration {
        Duration::from_secs(100)
    }
    /// Time after which no further item is started (the run is then reported not exhaustive).
    fn budget(&self, tier: Tier) -> Duration {
        match tier {
            Tier::Quick => Duration::from_secs(420),
            Tier::Thorough => Duration::from_secs(3 * 3600),
        }
    }
    fn workers(&self) -> usize {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)
    }
    /// A process death or stall on an item may be a listed finding.
    fn classify_death(&self, _tier: Tier, _spec: &Value, _how: &str) -> Option<(String, String)> {
        None
    }
}

pub fn scratch_root() -> PathBuf {
    for base in ["/dev/shm", "/tmp"] {
        let p = Path::new(base);
        if p.is_dir() {
            let probe = p.join(format!("axv-probe-{}", std::process::id()));
            if std::fs::write(&probe, b"x").is_ok() {
                let _ = std::fs::remove_file(&probe);
                return p.to_path_buf();
            }
        }
    }
    std::env::temp_dir()
}

/// Scratch directory removed on drop.
pub struct Scratch(pub PathBuf);
static SCRATCH_N: AtomicUsize = AtomicUsize::new(0);
impl Scratch {
    pub fn new() -> Self {
        let n = SCRATCH_N.fetch_add(1, Ordering::Relaxed);
        let base = std::env::var_os("AXV_SCRATCH").map(PathBuf::from).unwrap_or_else(scratch_root);
        let p = base.join(format!("axv-{}-{}", std::process::id(), n));
        std::fs::create_dir_all(&p).expect("scratch");
        Scratch(p)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let mut g = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner());
        if std::env::var_os("AXV_LOUD").is_some() {
            eprintln!("panic: {msg} at {loc}");
        }
        *g = Some(format!("{msg} at {loc}"));
    }));
}
static LAST_PANIC: Mutex<Option<String>> = Mutex::new(None);
pub fn take_panic() -> Option<String> {
    LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).take()
}

/// Run `f`, turning a panic into an Err with its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    take_panic();
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(format!("panic: {}", take_panic().unwrap_or_default())),
    }
}

pub fn worker_main(check: &dyn Check, tier: Tier) {
    quiet_panics();
    BEATS.store(true, Ordering::Relaxed);
    let items = check.items(tier);
    let stdin = std::io::stdin();
    let mut line = String::new();
    loop {
        line.clear();
        if stdin.lock().read_line(&mut line).unwrap_or(0) == 0 {
            break;
        }
        let Ok(i) = line.trim().parse::<usize>() else { break };
        let mut out = Out::default();
        let r = guarded(|| check.run(tier, &items[i], &mut out));
        if let Err(p) = r {
            out.violation(format!("unexpected {p}"), items[i].clone());
        }
        let mut so = std::io::stdout().lock();
        let _ = writeln!(so, "\n@@R {}", out.to_json());
        let _ = so.flush();
    }
}

struct Worker {
    child: Child,
    stdin: ChildStdin,
    rx: mpsc::Receiver<String>,
    scratch: PathBuf,
}
impl Worker {
    fn spawn(check: &str, tier: Tier) -> Worker {
        let exe = std::env::current_exe().unwrap();
        static N: AtomicUsize = AtomicUsize::new(0);
        let scratch = scratch_root().join(format!(
            "axv-w-{}-{}",
            std::process::id(),
            N.fetch_add(1, Ordering::Relaxed)
        ));
        let _ = std::fs::create_dir_all(&scratch);
        let mut child = Command::new(exe)
            .args(["worker", check, tier.name()])
            .env("AXV_SCRATCH", &scratch)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(if std::env::var_os("AXV_LOUD").is_some() { Stdio::inherit() } else { Stdio::null() })
            .spawn()
            .expect("spawn worker");
        let stdin = child.stdin.take().unwrap();
        let stdout = child.stdout.take().unwrap();
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || {
            for l in BufReader::new(stdout).lines() {
                let Ok(l) = l else { break };
                if l == "@@B" {
                    if tx.send(String::new()).is_err() {
                        break;
                    }
                } else if let Some(r) = l.strip_prefix("@@R ") {
                    if tx.send(r.to_string()).is_err() {
                        break;
                    }
                }
            }
        });
        Worker { child, stdin, rx, scratch }
    }
    fn kill(mut self) -> String {
        let how = match self.child.try_wait() {
            Ok(Some(st)) => format!("{st}"),
            _ => {
                let _ = self.child.kill();
                self.child.wait().map(|s| format!("{s}")).unwrap_or_default()
            }
        };
        let _ = std::fs::remove_dir_all(&self.scratch);
        how
    }
}

pub struct Known {
    pub ids: BTreeMap<String, String>,
}
pub fn load_known(root: &Path, prop: &str) -> Known {
    let mut ids = BTreeMap::new();
    // lines "known: property=C03,C04 id=KF-x <what fails>"; "fixed:" lines suppress nothing
    if let Ok(s) = std::fs::read_to_string(root.join("KNOWN_FINDINGS.txt")) {
        for l in s.lines() {
            let Some(r) = l.strip_prefix("known: property=") else { continue };
            let mut it = r.splitn(3, ' ');
            let (props, id, what) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
            if let Some(id) = id.strip_prefix("id=") {
                if props.split(',').any(|p| p == prop) {
                    ids.insert(id.to_string(), what.to_string());
                }
            }
        }
    }
    Known { ids }
}

pub fn verif_root() -> PathBuf {
    std::env::var_os("AXV_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

pub fn parent_main(check: &dyn Check, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let root = verif_root();
    let known = load_known(&root, check.id());
    let items = check.items(tier);
    let total = items.len();
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    struct Agg {
        states: HashSet<u64>,
        transitions: u64,
        traces: u64,
        done: usize,
        violations: Vec<(usize, Value)>,
        known: BTreeMap<String, (String, u64)>,
        samples: Vec<Value>,
        counters: BTreeMap<String, u64>,
        errors: Vec<String>,
    }
    let agg = Mutex::new(Agg {
        states: HashSet::new(),
        transitions: 0,
        traces: 0,
        done: 0,
        violations: vec![],
        known: BTreeMap::new(),
        samples: vec![],
        counters: BTreeMap::new(),
        errors: vec![],
    });
    let budget = std::env::var("AXV_BUDGET")
        .ok()
        .and_then(|s| s.parse().ok())
        .map(Duration::from_secs)
        .unwrap_or(check.budget(tier));
    let nw = check.workers().min(total.max(1));
    std::thread::scope(|sc| {
        for _ in 0..nw {
            sc.spawn(|| {
                let mut w: Option<Worker> = None;
                loop {
                    if stop.load(Ordering::Relaxed) || t0.elapsed() > budget {
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= total {
                        break;
                    }
                    let mut wk = w.take().unwrap_or_else(|| Worker::spawn(check.id(), tier));
                    let t1 = Instant::now();
                    let sent = writeln!(wk.stdin, "{i}").and_then(|_| wk.stdin.flush());
                    let res = if sent.is_ok() {
                        loop {
                            match wk.rx.recv_timeout(check.item_timeout(tier)) {
                                Ok(s) if s.is_empty() => continue, // it makes progress
                                r => break r,
                            }
                        }
                    } else {
                        Err(mpsc::RecvTimeoutError::Disconnected)
                    };
                    if std::env::var_os("AXV_SLOW").is_some() && t1.elapsed() > Duration::from_secs(15) {
                        eprintln!("slow: {:.0} s {}", t1.elapsed().as_secs_f64(), items[i]);
                    }
                    match res {
                        Ok(line) => {
                            w = Some(wk);
                            let v: Value = serde_json::from_str(&line).unwrap_or(Value::Null);
                            let mut a = agg.lock().unwrap();
                            a.done += 1;
                            for s in v["s"].as_array().into_iter().flatten() {
                                if let Some(h) = s.as_u64() {
                                    a.states.insert(h);
                                }
                            }
                            a.transitions += v["t"].as_u64().unwrap_or(0);
                            a.traces += v["x"].as_u64().unwrap_or(0);
                            for x in v["v"].as_array().into_iter().flatten() {
                                a.violations.push((i, x.clone()));
                            }
                            for (k, x) in v["k"].as_object().unwrap_or(&Map::new()) {
                                let ex = x.as_str().unwrap_or("").to_string();
                                if known.ids.contains_key(k) {
                                    a.known.entry(k.clone()).or_insert((ex, 0)).1 += 1;
                                } else {
                                    a.violations.push((
                                        i,
                                        json!({"what": format!("{k} (not a listed finding): {ex}"), "history": items[i]}),
                                    ));
                                }
                            }
                            for x in v["m"].as_array().into_iter().flatten() {
                                if a.samples.len() < 6 {
                                    a.samples.push(x.clone());
                                }
                            }
                            for (k, x) in v["c"].as_object().unwrap_or(&Map::new()) {
                                *a.counters.entry(k.clone()).or_insert(0) += x.as_u64().unwrap_or(0);
                            }
                            if a.violations.len() >= 40 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        Err(e) => {
                            let timeout = matches!(e, mpsc::RecvTimeoutError::Timeout);
                            let status = wk.kill();
                            let how = if timeout { "hang".to_string() } else { format!("died: {status}") };
                            let mut a = agg.lock().unwrap();
                            a.done += 1;
                            if !timeout && status.contains("signal: 9") {
                                // killed from outside (memory guard): not an observation
                                a.errors.push(format!("worker killed on item {i}"));
                                continue;
                            }
                            match check.classify_death(tier, &items[i], &how) {
                                Some((k, ex)) if known.ids.contains_key(&k) => {
                                    a.known.entry(k).or_insert((ex, 0)).1 += 1;
                                }
                                _ => a.violations.push((
                                    i,
                                    json!({"what": format!("process executing this history: {how}"), "history": items[i]}),
                                )),
                            }
                            if a.violations.len() >= 12 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                }
                if let Some(wk) = w.take() {
                    wk.kill();
                }
            });
        }
    });
    let mut a = agg.into_inner().unwrap();
    a.violations.sort_by_key(|(i, _)| *i);
    let exhaustive = a.done == total && a.errors.is_empty() && a.violations.is_empty();
    if a.samples.is_empty() {
        a.samples.extend(items.iter().take(2).cloned());
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut cov = json!({
        "states": a.states.len(),
        "transitions": a.transitions,
        "traces_validated_against_impl": a.traces,
        "items": total, "items_done": a.done,
        "bounds": check.bounds(tier),
        "exhaustive": exhaustive,
        "samples": a.samples,
    });
    for (k, v) in &a.counters {
        cov[k.as_str()] = json!(v);
    }
    cov["known_findings_seen"] = json!(a.known.iter().map(|(k, (_, n))| (k.clone(), *n)).collect::<BTreeMap<_, _>>());
    let ev = json!({
        "property": check.id(), "tier": tier.name(),
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        "level": "model_checking",
        "coverage": cov,
        "assumptions": check.assumptions(),
        "wall_s": wall,
        "violations": a.violations.len(),
    });
    let evd = root.join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    std::fs::write(evd.join(format!("{}.json", check.id())), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!(
        "{} {}: items {}/{} states {} transitions {} traces {} exhaustive={} wall {:.1}s",
        check.id(), tier.name(), a.done, total, a.states.len(), a.transitions, a.traces, exhaustive, wall
    );
    for (k, n) in &a.counters {
        println!("  {k}: {n}");
    }
    for (k, (ex, n)) in &a.known {
        println!("KNOWN-FINDING: property={} {} [{}; seen {} times] e.g. {}", check.id(), known.ids[k], k, n, ex.replace('\n', " "));
    }
    for e in &a.errors {
        println!("ERROR {e}");
    }
    if !a.violations.is_empty() {
        let rd = root.join("replays");
        let _ = std::fs::create_dir_all(&rd);
        for (n, (i, v)) in a.violations.iter().enumerate().take(10) {
            let p = rd.join(format!("{}-{}.json", check.id(), n));
            let doc = json!({"property": check.id(), "tier": tier.name(), "item": i, "spec": items[*i], "violation": v});
            let _ = std::fs::write(&p, serde_json::to_string_pretty(&doc).unwrap());
            println!("  what: {}", v["what"].as_str().unwrap_or("").chars().take(1500).collect::<String>());
            println!("VIOLATION property={} replay={}", check.id(), p.display());
        }
        return 1;
    }
    if !a.errors.is_empty() {
        return 2;
    }
    0
}

/// Re-executes the item of a replay file.
pub fn replay_main(check: &dyn Check, path: &str) -> i32 {
    quiet_panics();
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let tier = if v["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let mut out = Out::default();
    if let Err(p) = guarded(|| check.run(tier, &v["spec"], &mut out)) {
        out.violation(p, v["spec"].clone());
    }
    println!("{}", serde_json::to_string_pretty(&json!({"violations": out.violations, "known": out.known})).unwrap());
    (!out.violations.is_empty()) as i32
}
